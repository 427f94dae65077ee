package gen

import (
	"fmt"
	"strings"
)

// Statement trees. A tree is rendered with fresh names and trace numbers.

type Shape struct {
	K    string   // leaf or composite kind
	Bl   []*Block // sub-blocks
	Loop bool
}
type Block struct{ S []*Shape }

type compDef struct {
	kind string
	nb   int
	loop bool
}

// Composites: how many sub-blocks each has.
var composites = []compDef{
	{"if", 1, false}, {"ifelse", 2, false}, {"ifelif", 2, false}, {"ifelifelse", 3, false},
	{"switch1", 1, false}, {"switch2d", 3, false}, {"switchb", 2, false}, {"switchd1", 2, false}, {"switchd", 1, false},
	{"for3", 1, true}, {"forcond", 1, true}, {"forever", 1, true}, {"fornocond", 1, true}, {"fornopost", 1, true}, {"fornoinit", 1, true}, {"rangei", 1, true}, {"rangev", 1, true},
}

type StmtGen struct {
	Leaves     []string
	LoopLeaves []string
	Comps      []compDef
	memo       map[string][]*Block
}

// Blocks returns all blocks with exactly n nodes (empty block counts as 0 nodes).
func (g *StmtGen) Blocks(n int, loop bool, depth int) []*Block {
	if n == 0 {
		return []*Block{{}}
	}
	key := fmt.Sprint(n, loop, depth)
	if g.memo == nil {
		g.memo = map[string][]*Block{}
	}
	if r, ok := g.memo[key]; ok {
		return r
	}
	var out []*Block
	for k := 1; k <= n; k++ {
		for _, st := range g.stmts(k, loop, depth) {
			if (st.K == "break" || st.K == "continue") && k != n {
				continue // dead code after it adds nothing
			}
			for _, rest := range g.Blocks(n-k, loop, depth) {
				out = append(out, &Block{append([]*Shape{st}, rest.S...)})
			}
		}
	}
	g.memo[key] = out
	return out
}

func (g *StmtGen) stmts(n int, loop bool, depth int) []*Shape {
	var out []*Shape
	if n == 1 {
		for _, l := range g.Leaves {
			out = append(out, &Shape{K: l})
		}
		if loop {
			for _, l := range g.LoopLeaves {
				out = append(out, &Shape{K: l})
			}
		}
	}
	if depth <= 0 {
		return out
	}
	for _, c := range g.Comps {
		var rec func(i, left int, bl []*Block)
		rec = func(i, left int, bl []*Block) {
			if i == c.nb {
				if left == 0 {
					out = append(out, &Shape{K: c.kind, Bl: append([]*Block{}, bl...), Loop: c.loop})
				}
				return
			}
			for k := 0; k <= left; k++ {
				if i == c.nb-1 && k != left {
					continue
				}
				for _, b := range g.Blocks(k, loop || c.loop, depth-1) {
					rec(i+1, left-k, append(bl, b))
				}
			}
		}
		rec(0, n-1, nil)
	}
	return out
}

// NewStmtGen: the full alphabet of C01.
func NewStmtGen() *StmtGen {
	return &StmtGen{Leaves: []string{"p", "inc"}, LoopLeaves: []string{"break", "continue"}, Comps: composites}
}

// NewSmallGen: a reduced alphabet for deeper trees.
func NewSmallGen(leaves []string, comps ...string) *StmtGen {
	g := &StmtGen{Leaves: leaves, LoopLeaves: []string{"break", "continue"}}
	for _, k := range comps {
		for _, c := range composites {
			if c.kind == k {
				g.Comps = append(g.Comps, c)
			}
		}
	}
	return g
}

type renderer struct {
	b    strings.Builder
	tr   int
	lv   int
	sfx  string
	vars []string
}

func (r *renderer) ln(f string, a ...interface{}) { fmt.Fprintf(&r.b, f+"\n", a...) }

func (r *renderer) cur() string { return r.vars[len(r.vars)-1] }

// block renders; x is the innermost counter variable (conditions depend on it and on the global x).
func (r *renderer) block(bl *Block) {
	for _, s := range bl.S {
		r.stmt(s)
	}
}
func (r *renderer) stmt(s *Shape) {
	x := "x" + r.sfx
	c := r.cur()
	switch s.K {
	case "p":
		r.tr++
		r.ln("print(%d, %s, %s)", r.tr, x, c)
	case "inc":
		r.ln("%s++", x)
	case "def":
		r.lv++
		r.tr++
		v := fmt.Sprintf("l%d%s", r.lv, r.sfx)
		r.ln("var %s int", v)
		r.ln("%s += %s + %d", v, x, r.tr)
		r.ln("print(%s)", v)
	case "break", "continue":
		r.ln("%s", s.K)
	case "if":
		r.ln("if %s < 2 {", c)
		r.block(s.Bl[0])
		r.ln("}")
	case "ifelse":
		r.ln("if %s == 1 {", c)
		r.block(s.Bl[0])
		r.ln("} else {")
		r.block(s.Bl[1])
		r.ln("}")
	case "ifelif":
		r.ln("if %s > 1 {", c)
		r.block(s.Bl[0])
		r.ln("} else if %s == 0 || %s > 0 {", c, x)
		r.block(s.Bl[1])
		r.ln("}")
	case "ifelifelse":
		r.ln("if %s == 0 {", c)
		r.block(s.Bl[0])
		r.ln("} else if %s == 1 {", c)
		r.block(s.Bl[1])
		r.ln("} else {")
		r.block(s.Bl[2])
		r.ln("}")
	case "switch1":
		r.ln("switch %s {", c)
		r.ln("case 1:")
		r.block(s.Bl[0])
		r.ln("}")
	case "switch2d":
		r.ln("switch %s {", c)
		r.ln("case 0:")
		r.block(s.Bl[0])
		r.ln("case 2:")
		r.block(s.Bl[1])
		r.ln("default:")
		r.block(s.Bl[2])
		r.ln("}")
	case "switchb":
		r.ln("switch {")
		r.ln("case %s > 0:", c)
		r.block(s.Bl[0])
		r.ln("case %s == 0:", c)
		r.block(s.Bl[1])
		r.ln("}")
	case "switchd1":
		r.ln("switch %s {", c)
		r.ln("default:")
		r.block(s.Bl[0])
		r.ln("case 1:")
		r.block(s.Bl[1])
		r.ln("}")
	case "switchd":
		r.ln("switch %s {", c)
		r.ln("default:")
		r.block(s.Bl[0])
		r.ln("}")
	default:
		r.lv++
		v := fmt.Sprintf("i%d%s", r.lv, r.sfx)
		switch s.K {
		case "for3":
			r.ln("for %s := 0; %s < 3; %s++ {", v, v, v)
		case "forcond":
			r.ln("%s := 0", v)
			r.ln("for %s < 3 {", v)
			r.ln("%s++", v)
		case "forever":
			r.ln("%s := 0", v)
			r.ln("for {")
			r.ln("%s++", v)
			r.ln("if %s > 3 {", v)
			r.ln("break")
			r.ln("}")
		case "fornocond":
			r.ln("for %s := 0; ; %s += 2 {", v, v)
			r.ln("if %s > 3 {", v)
			r.ln("break")
			r.ln("}")
		case "fornopost":
			r.ln("for %s := 2; %s > 0; {", v, v)
			r.ln("%s--", v)
		case "fornoinit":
			r.ln("%s := 1", v)
			r.ln("for ; %s < 3; %s++ {", v, v)
		case "rangei":
			r.ln("for %s := range \"abc\" {", v)
		case "rangev":
			r.ln("for %s, w%s := range \"xy\" {", v, v)
			r.ln("print(w%s)", v)
		}
		r.vars = append(r.vars, v)
		r.block(s.Bl[0])
		r.vars = r.vars[:len(r.vars)-1]
		r.ln("}")
	}
}

// RenderBlock gives a body; inFunc wraps it into a function.
func RenderBlock(bl *Block, inFunc bool) string {
	r := &renderer{sfx: "§"}
	x := "x§"
	r.vars = []string{x}
	if inFunc {
		r.ln("func g§(%s int) {", x)
		r.block(bl)
		r.tr++
		r.ln("print(%d, %s)", r.tr, x)
		r.ln("}")
		r.ln("g§(0)")
		r.ln("g§(1)")
		return r.b.String()
	}
	r.ln("%s := 0", x)
	r.block(bl)
	r.tr++
	r.ln("print(%d, %s)", r.tr, x)
	return r.b.String()
}

// StmtTrees enumerates every block with up to n nodes.
func StmtTrees(g *StmtGen, from, n, depth int, inFunc bool, y Yield) bool {
	for k := from; k <= n; k++ {
		for _, b := range g.Blocks(k, false, depth) {
			if !y(Item{Body: RenderBlock(b, inFunc), Tag: fmt.Sprintf("stmt%d", k)}) {
				return false
			}
		}
	}
	return true
}

// LoopNests: all chains of up to depth nested loops of every form, around every
// placement of break/continue/if before and after the inner loop.
func LoopNests(depth int, y Yield) bool {
	var loops []string
	for _, c := range composites {
		if c.loop {
			loops = append(loops, c.kind)
		}
	}
	pre := [][]*Shape{
		nil,
		{{K: "p"}},
		{{K: "if", Bl: []*Block{{[]*Shape{{K: "continue"}}}}}, {K: "p"}},
		{{K: "ifelse", Bl: []*Block{{[]*Shape{{K: "break"}}}, {[]*Shape{{K: "p"}}}}}},
		{{K: "switch1", Bl: []*Block{{[]*Shape{{K: "continue"}}}}}, {K: "p"}},
	}
	var build func(d int) []*Block
	build = func(d int) []*Block {
		var out []*Block
		if d == 0 {
			return []*Block{{[]*Shape{{K: "p"}}}}
		}
		inner := build(d - 1)
		for _, k := range loops {
			for _, in := range inner {
				for i, a := range pre {
					for j, b := range pre {
						if d == depth && (i > 0 || j > 0) || d < depth-1 && (i*j > 0 || i > 2 || j > 2) {
							continue
						}
						body := append(append(append([]*Shape{}, a...), in.S...), b...)
						out = append(out, &Block{[]*Shape{{K: k, Bl: []*Block{{body}}, Loop: true}}})
					}
				}
			}
		}
		return out
	}
	for d := 1; d <= depth; d++ {
		for _, b := range build(d) {
			// inner blocks of the outermost loop already vary at d-1
			for _, f := range []bool{false, true} {
				if !y(Item{Body: RenderBlock(b, f), Tag: fmt.Sprintf("nest%d", d)}) {
					return false
				}
			}
		}
	}
	return true
}

// Siblings: every ordered pair/triple of composites in sequence, at top level, in a loop and in an if.
func Siblings(n int, y Yield) bool {
	var leafBl = func(i int) *Block {
		if i%2 == 0 {
			return &Block{[]*Shape{{K: "p"}}}
		}
		return &Block{[]*Shape{{K: "inc"}, {K: "p"}}}
	}
	mk := func(c compDef) *Shape {
		s := &Shape{K: c.kind, Loop: c.loop}
		for i := 0; i < c.nb; i++ {
			s.Bl = append(s.Bl, leafBl(i))
		}
		return s
	}
	wraps := []func(*Block) *Block{
		func(b *Block) *Block { return b },
		func(b *Block) *Block { return &Block{[]*Shape{{K: "for3", Bl: []*Block{b}, Loop: true}}} },
		func(b *Block) *Block { return &Block{[]*Shape{{K: "ifelse", Bl: []*Block{{}, b}}}} },
		func(b *Block) *Block { return &Block{[]*Shape{{K: "switchd", Bl: []*Block{b}}}} },
	}
	var rec func(k int, acc []*Shape) bool
	rec = func(k int, acc []*Shape) bool {
		if k == 0 {
			for _, w := range wraps {
				b := w(&Block{append([]*Shape{}, acc...)})
				for _, f := range []bool{false, true} {
					if !y(Item{Body: RenderBlock(b, f), Tag: "sib"}) {
						return false
					}
				}
			}
			return true
		}
		for _, c := range composites {
			if !rec(k-1, append(acc, mk(c))) {
				return false
			}
		}
		return true
	}
	return rec(n, nil)
}

// Panics: a panic at every position of a set of skeletons; output before it, nothing after it, status 1.
func Panics(y Yield) bool {
	for _, m := range []string{"\"boom\"", "\"a b\"", "itoa(x)", "\"v\" + itoa(x)", "s", "\"\""} {
		p := "panic(" + m + ")\n"
		pre := "x := 1\ns := \"str\"\n"
		for _, bd := range []string{
			p, "print(1)\n" + p + "print(2)\n",
			"if x == 1 {\n" + p + "}\nprint(2)\n", "if x == 2 {\n" + p + "}\nprint(2)\n", "if x == 2 {\nprint(1)\n} else {\n" + p + "}\nprint(2)\n",
			"for i := 0; i < 3; i++ {\nprint(i)\nif i == 1 {\n" + p + "}\n}\nprint(3)\n",
			"for {\n" + p + "}\n", "switch x {\ncase 1:\n" + p + "default:\nprint(3)\n}\nprint(2)\n", "switch x {\ncase 2:\n" + p + "default:\nprint(3)\n}\nprint(2)\n",
			"func f() {\nprint(1)\n" + p + "print(2)\n}\nf()\nprint(3)\n",
			"func f() int {\nprint(1)\n" + p + "return 3\n}\nprint(0)\ny := f()\nprint(y)\n",
			"func f() int {\nprint(1)\n" + p + "return 3\n}\nfunc h() int {\nreturn f()\n}\nprint(0)\nprint(h() + 1)\n",
			"func f() int {\n" + p + "return 3\n}\nif f() == 3 {\nprint(1)\n}\nprint(2)\n",
			"func f() bool {\n" + p + "return true\n}\nfor f() {\nprint(1)\n}\nprint(2)\n",
			"for i, c := range \"abc\" {\nprint(i, c)\nif c == \"b\" {\n" + p + "}\n}\n",
			"func f(n int) int {\nif n > 1 {\n" + p + "}\nreturn n\n}\nprint(f(1))\nprint(f(2))\nprint(f(0))\n",
		} {
			if !y(Item{Pre: pre, Body: bd, Solo: true, Tag: "panic"}) {
				return false
			}
		}
	}
	return true
}

// Defs: definition forms and defaults, in every kind of block, re-executed in loops.
func Defs(y Yield) bool {
	defs := []string{
		"var a§ int\nprint(a§)\na§ = 5\nprint(a§)\n",
		"var a§ bool\nprint(a§)\na§ = true\nprint(a§)\n",
		"var a§ string\nprint(a§ + \"|\")\na§ = \"z\"\nprint(a§)\n",
		"var a§, b§ int\na§++\nprint(a§, b§)\nb§ = 9\nprint(a§, b§)\n",
		"var a§ = 4\nprint(a§)\na§ *= 3\nprint(a§)\n",
		"var a§, b§ = 4, \"q\"\nprint(a§, b§)\nb§ += \"r\"\na§ %= 3\nprint(a§, b§)\n",
		"a§ := true\nprint(a§)\na§ = !a§\nprint(a§)\n",
		"a§, b§ := 1, true\nprint(a§, b§)\na§, b§ = 2, false\nprint(a§, b§)\n",
		"var a§ int = 3\na§ /= 2\nprint(a§)\na§ -= 5\nprint(a§)\n",
		"a§, b§, c§ := 1, 2, 3\na§, b§, c§ = c§, a§, b§\nprint(a§, b§, c§)\n",
		"a§, b§ := 1, 2\na§, b§ = b§, a§\nprint(a§, b§)\na§, b§ = a§ + b§, a§ - b§\nprint(a§, b§)\n",
		"a§, b§ := \"l\", \"r\"\na§, b§ = b§ + \"1\", a§ + \"2\"\nprint(a§, b§)\n",
		"a§ := 1\na§, b§ := 7, 8\nprint(a§, b§)\n",
		"print()\nprint(\"\")\nprint(\"\", \"\")\nprint(\"a\", \"\", 1, true)\n",
	}
	wraps := []string{
		"%s", "if true {\n%s}\n", "if false {\n} else {\n%s}\n", "for k§ := 0; k§ < 2; k§++ {\n%s}\n", "switch 1 {\ncase 1:\n%s}\n",
		"func h§() {\n%s}\nh§()\nh§()\n", "func h§() {\nfor k§ := 0; k§ < 2; k§++ {\n%s}\n}\nh§()\n", "for k§ := range \"ab\" {\nif k§ == 1 {\n%s}\n}\n",
	}
	for _, w := range wraps {
		for _, d := range defs {
			if !y(Item{Body: strings.ReplaceAll(w, "%s", d), Tag: "def"}) {
				return false
			}
		}
	}
	return true
}

// RangeBodies: what the body of a range loop may do to index, value and operand.
func RangeBodies(y Yield) bool {
	heads := []string{
		"s§ := \"abcd\"\nfor i§, c§ := range s§ {\n", "s§ := \"abcd\"\nfor i§ := range s§ {\nc§ := \"-\"\n",
		"s§ := []string{\"a\", \"b\", \"c\", \"d\"}\nfor i§, c§ := range s§ {\n", "s§ := []string{\"a\", \"b\", \"c\", \"d\"}\nfor i§ := range s§ {\nc§ := \"-\"\n",
	}
	ops := []string{"i§ = 9\n", "i§++\n", "i§ += 2\n", "c§ = \"z\"\n", "i§ = 0\n", "if i§ == 1 {\ncontinue\n}\n", "if i§ == 2 {\nbreak\n}\n", "i§ = 7\nif c§ == \"b\" {\ncontinue\n}\n", "OP", ""}
	for hi, h := range heads {
		for _, a := range ops {
			for _, b := range ops {
				o := "s§ = \"q\"\n"
				if hi >= 2 {
					o = "s§ = []string{\"q\"}\n"
				}
				body := strings.ReplaceAll(a, "OP", o) + "print(i§, c§)\n" + strings.ReplaceAll(b, "OP", o)
				if !y(Item{Body: h + body + "print(i§, c§, len(s§))\n}\nprint(len(s§))\n", Tag: "range"}) {
					return false
				}
			}
		}
	}
	return true
}
