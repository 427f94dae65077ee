package gen

import (
	"fmt"
	"strings"
)

// function calls and variable isolation

// Isolation: main -> f -> g where every level owns a variable called a (or b), writes it in
// every way and looks at it again after the call it makes.
func Isolation(full bool, y Yield) bool {
	// own variable kinds; %B is the code that runs while the variable is visible
	type kind struct {
		name, param, arg string
		open, close      string
	}
	kinds := []kind{
		{"none", "", "", "", ""},
		{"param", "a int", "5", "", ""},
		{"short", "", "", "a := 10\n", ""},
		{"var", "", "", "var a int\n", ""},
		{"forvar", "", "", "for a := 20; a < 22; a++ {\n", "}\n"},
		{"rangek", "", "", "for a := range \"xy\" {\n", "}\n"},
		{"rangev", "", "", "for k, a := range []int{7, 8} {\nprint(k)\n", "}\n"},
		{"blk", "", "", "if true {\na := 30\n", "}\n"},
		{"multi", "", "", "a, z := 40, 41\nprint(z)\n", ""},
		{"param2", "z int, a int", "6, 7", "print(z)\n", ""},
	}
	ops := []string{"", "a = a + 100\n", "a += 3\n", "a++\n", "a--\n", "b, a = 1, a + 1000\n"}
	emit := func(k kind, op, call string) string {
		var b strings.Builder
		b.WriteString(k.open)
		o := op
		if k.name == "none" {
			o = ""
		}
		if strings.HasPrefix(o, "b,") {
			b.WriteString("b := 2\n")
		}
		pr := "print(\"LVL\", a)\n"
		if k.name == "none" {
			pr = "print(\"LVL\")\n"
		}
		b.WriteString(pr + o + call + pr)
		if strings.HasPrefix(k.name, "for") && (o == "a--\n") {
			b.WriteString("a += 2\n")
		}
		b.WriteString(k.close)
		return b.String()
	}
	for _, km := range kinds {
		if strings.HasPrefix(km.name, "param") {
			continue
		}
		glob := km.name == "short" || km.name == "var" || km.name == "multi"
		for _, kf := range kinds {
			for _, kg := range kinds {
				if glob && (kf.name != "none" || kg.name != "none") {
					continue // a would be redefined: main's variable is handled in Globals
				}
				for oi, of := range ops {
					for oj, og := range ops {
						if !full && oi != 0 && oj != 0 && oi != oj {
							continue
						}
						for _, om := range []int{0, 2} {
							g := "func g§(" + kg.param + ") {\n" + strings.ReplaceAll(emit(kg, og, ""), "LVL", "g") + "}\n"
							f := "func f§(" + kf.param + ") {\n" + strings.ReplaceAll(emit(kf, of, "g§("+kg.arg+")\n"), "LVL", "f") + "}\n"
							m := strings.ReplaceAll(emit(km, ops[om], "f§("+kf.arg+")\n"), "LVL", "m")
							if glob {
								m = "if true {\n" + m + "}\n"
							}
							if !y(Item{Body: g + f + m, Tag: "iso-" + km.name + "-" + kf.name + "-" + kg.name}) {
								return false
							}
						}
					}
				}
			}
		}
	}
	return true
}

// LocalsInit: definitions inside functions start afresh in every call and iteration.
func LocalsInit(y Yield) bool {
	defs := []string{"var a int\n", "a := 0\n", "var a, b int\n", "a, b := 0, 0\n", "var a = 0\n", "var a int = 0\n"}
	wr := []string{"%s", "if true {\n%s}\n", "for i := 0; i < 2; i++ {\n%s}\n", "for i := range \"xy\" {\n%s}\n", "switch 1 {\ncase 1:\n%s}\n", "if false {\n} else {\n%s}\n",
		"for i := 0; i < 2; i++ {\nif i >= 0 {\n%s}\n}\n", "for i := 0; i < 2; i++ {\nfor j := 0; j < 2; j++ {\n%s}\n}\n"}
	strs := []string{"var a string\nprint(a + \"|\")\na += \"x\"\nprint(a)\n", "var a bool\nprint(a)\na = !a\nprint(a)\n", "var a []int\nprint(len(a))\na[1] = 5\nprint(len(a), a[0], a[1])\n",
		"a := []string{}\nprint(len(a))\na[1] = \"5\"\nprint(len(a), a[0], a[1])\n"}
	for _, w := range wr {
		for _, d := range defs {
			for _, o := range []string{"a++\n", "a += 5\n", "a = a + 7\n"} {
				body := d + "print(a)\n" + o + "print(a)\n"
				if !y(Item{Body: "func f§() {\n" + fmt.Sprintf(w, body) + "}\nf§()\nf§()\n", Tag: "init"}) {
					return false
				}
			}
		}
		for _, s := range strs {
			if !y(Item{Body: "func f§() {\n" + fmt.Sprintf(w, s) + "}\nf§()\nf§()\n", Tag: "init"}) {
				return false
			}
		}
	}
	return true
}

var writeForms = []string{
	"x§ = x§ * 2 + 1\n", "x§ += 5\n", "x§ -= 5\n", "x§ *= 3\n", "x§ /= 2\n", "x§ %= 3\n", "x§++\n", "x§--\n",
	"x§, y§ = y§, x§\n", "x§, y§ = x§ + y§, x§ - y§\n", "t, x§ := 3, 4\nprint(t)\n", "t := x§\nx§ = y§\ny§ = t\n",
	"x§, y§ = two§()\n", "x§ = one§()\n", "s§ += \"z\"\n", "s§ = s§ + s§\n", "b§ = !b§\n", "b§, s§ = x§ > 1, \"n\"\n", "l§[1] = x§\n", "l§[3] = 8\n", "copy(l§, []int{4, 5, 6})\n", "l§ = []int{9}\n",
	"s§, x§ = s§ + itoa(x§), x§ + 1\n", "x§, s§, b§ = 1, \"q\", false\n",
}

// Globals: every way of writing a global in every kind of block of a function.
func Globals(full bool, y Yield) bool {
	blocks := []string{
		"%s", "if true {\n%s}\n", "if false {\nprint(0)\n} else {\n%s}\n", "if false {\n} else if true {\n%s}\n", "for i := 0; i < 2; i++ {\n%s}\n", "for i, c := range \"ab\" {\nprint(i, c)\n%s}\n",
		"switch x§ {\ncase 99:\nprint(9)\ndefault:\n%s}\n", "for {\n%sbreak\n}\n", "for i := 0; i < 2; i++ {\nif i == 1 {\n%s}\n}\n", "n := 0\nfor n < 2 {\nn++\n%s}\n",
	}
	pre := "x§ := 3\ny§ := 10\ns§ := \"s\"\nb§ := true\nl§ := []int{1, 2}\nfunc two§() (int, int) {\nreturn x§ + 1, y§ + 1\n}\nfunc one§() int {\nx§ += 100\nreturn x§\n}\nfunc dump§() {\nprint(x§, y§, s§, b§, len(l§))\nfor i, v := range l§ {\nprint(i, v)\n}\n}\n"
	top := "print(x§, y§, s§, b§, len(l§), l§[0])\n"
	type variant struct{ f, call string }
	vs := []variant{
		{"func f§() {\n%s}\n", "f§()\n"},
		{"func h§() {\n%s}\nfunc f§() {\nh§()\ndump§()\n}\n", "f§()\n"},
		{"func f§(p int, q string) {\n%sp++\nq += \"p\"\nprint(p, q)\n}\n", "f§(x§, s§)\n"},
		{"func f§() int {\n%sreturn x§\n}\n", "print(f§())\n"},
	}
	for vi, v := range vs {
		for bi, bl := range blocks {
			if !full && vi > 0 && bi > 3 {
				continue
			}
			for _, a := range writeForms {
				seconds := []string{""}
				if full || bi == 0 {
					seconds = append([]string{""}, writeForms...)
				}
				for _, b := range seconds {
					if b != "" && (strings.HasPrefix(b, "t") && strings.HasPrefix(a, "t")) {
						continue
					}
					if !y(Item{Body: pre + strings.ReplaceAll(v.f, "%s", strings.ReplaceAll(bl, "%s", a+b)) + top + v.call + top + "dump§()\n", Tag: "glob"}) {
						return false
					}
				}
			}
		}
	}
	return true
}

func tyName(i int) string { return []string{"int", "string", "bool"}[i%3] }

// Arity: n parameters and m results, in every use position.
func Arity(maxP, maxR int, y Yield) bool {
	val := func(i, salt int) string {
		switch i % 3 {
		case 0:
			return fmt.Sprint(i*11 + salt)
		case 1:
			return fmt.Sprintf("\"s%d %d\"", i, salt)
		}
		return []string{"true", "false"}[(i+salt)/3%2]
	}
	for n := 0; n <= maxP; n++ {
		for m := 0; m <= maxR; m++ {
			var ps, as, as2, pn []string
			for i := 0; i < n; i++ {
				ps = append(ps, fmt.Sprintf("p%d %s", i, tyName(i)))
				pn = append(pn, fmt.Sprintf("p%d", i))
				as = append(as, val(i, 1))
				as2 = append(as2, val(i, 2))
			}
			var rt, rv, ts, zs []string
			for i := 0; i < m; i++ {
				rt = append(rt, tyName(i))
				// results come from the parameter of the same type counted from the end, else a constant
				src := val(i, 7)
				for j := n - 1 - i/3*3; j >= 0; j-- {
					if j%3 == i%3 {
						src = fmt.Sprintf("p%d", j)
						break
					}
				}
				rv = append(rv, src)
				ts = append(ts, fmt.Sprintf("t%d§", i))
				zs = append(zs, fmt.Sprintf("z%d", i))
			}
			ret := ""
			switch m {
			case 0:
			case 1:
				ret = " " + rt[0]
			default:
				ret = " (" + strings.Join(rt, ", ") + ")"
			}
			f := "func f§(" + strings.Join(ps, ", ") + ")" + ret + " {\n"
			if n > 0 {
				f += "print(" + strings.Join(pn, ", ") + ")\n"
			}
			if m > 0 {
				f += "return " + strings.Join(rv, ", ") + "\n"
			}
			f += "}\n"
			call, call2 := "f§("+strings.Join(as, ", ")+")", "f§("+strings.Join(as2, ", ")+")"
			b := f + call + "\n"
			switch {
			case m == 1:
				b += "print(" + call + ")\nt§ := " + call2 + "\nprint(t§)\nvar u§ int = " + call + "\nprint(u§)\nt§ = " + call + "\nprint(t§, " + call2 + ", t§)\nif " + call + " == t§ {\nprint(\"eq\")\n}\n"
				b += "v§ := []int{" + call + ", " + call2 + "}\nprint(v§[0], v§[1])\nfunc g§() int {\nq := " + call2 + "\nreturn q + " + call + "\n}\nprint(g§())\n"
			case m > 1:
				b += strings.Join(ts, ", ") + " := " + call + "\nprint(" + strings.Join(ts, ", ") + ")\n" + strings.Join(ts, ", ") + " = " + call2 + "\nprint(" + strings.Join(ts, ", ") + ")\n"
				b += "func g§() {\n" + strings.Join(zs, ", ") + " := " + call2 + "\nprint(" + strings.Join(zs, ", ") + ")\n" + strings.Join(zs, ", ") + " = " + call + "\nprint(" + strings.Join(zs, ", ") + ")\n" + strings.Join(ts, ", ") + " = " + call + "\n}\ng§()\nprint(" + strings.Join(ts, ", ") + ")\n"
			}
			if !y(Item{Body: b, Tag: fmt.Sprintf("ar%d-%d", n, m)}) {
				return false
			}
			// the same call from functions with parameters of the same names
			if n > 0 {
				w := f + "func h§(" + strings.Join(ps, ", ") + ")" + ret + " {\n"
				call3 := "f§(" + strings.Join(pn, ", ") + ")"
				switch {
				case m == 0:
					w += call3 + "\nprint(" + strings.Join(pn, ", ") + ")\n"
				case m == 1:
					w += "r := " + call3 + "\nprint(" + strings.Join(pn, ", ") + ")\nreturn r\n"
				default:
					w += strings.Join(zs, ", ") + " := " + call2 + "\nprint(" + strings.Join(pn, ", ") + ")\n" + strings.Join(zs, ", ") + " = " + call3 + "\nreturn " + strings.Join(zs, ", ") + "\n"
				}
				w += "}\n"
				hc := "h§(" + strings.Join(as, ", ") + ")"
				switch {
				case m == 0:
					w += hc + "\n"
				case m == 1:
					w += "print(" + hc + ")\n"
				default:
					w += strings.Join(ts, ", ") + " := " + hc + "\nprint(" + strings.Join(ts, ", ") + ")\n"
				}
				if !y(Item{Body: w, Tag: fmt.Sprintf("arh%d-%d", n, m)}) {
					return false
				}
			}
		}
	}
	return true
}

// CallTrees: all trees of nested calls with up to n calls over functions of arity 1..3.
func CallTrees(n int, y Yield) bool {
	pre := "func inc(a int) int {\nb := a + 1\nreturn b\n}\nfunc sub(a int, b int) int {\nc := a - b\nreturn c\n}\nfunc mix(a int, b int, c int) int {\nd := a * 100\nd += b * 10\nreturn d + c\n}\nfunc wrap(a int) int {\nb := inc(a)\nc := inc(sub(b, 50))\nreturn sub(c, b) + a\n}\nv := 4\n"
	fns := []struct {
		n string
		k int
	}{{"inc", 1}, {"wrap", 1}, {"sub", 2}, {"mix", 3}}
	cache := map[int][]string{}
	var trees func(n int) []string
	var combos func(n, k int) [][]string
	combos = func(n, k int) [][]string {
		if k == 0 {
			if n == 0 {
				return [][]string{nil}
			}
			return nil
		}
		var out [][]string
		for a := 0; a <= n; a++ {
			for _, t := range trees(a) {
				for _, r := range combos(n-a, k-1) {
					out = append(out, append([]string{t}, r...))
				}
			}
		}
		return out
	}
	trees = func(n int) []string {
		if n == 0 {
			return []string{"v"}
		}
		if c, ok := cache[n]; ok {
			return c
		}
		var out []string
		for _, f := range fns {
			for _, c := range combos(n-1, f.k) {
				out = append(out, f.n+"("+strings.Join(c, ", ")+")")
			}
		}
		// a call inside an operator expression
		for a := 1; a <= n; a++ {
			for _, l := range trees2(trees, a, n) {
				for _, r := range trees(n - a) {
					if a == n && r == "v" || a < n {
						out = append(out, "("+l+" - "+r+")")
						if a == n {
							out = append(out, "(v - "+l+")")
						}
					}
				}
			}
		}
		cache[n] = out
		return out
	}
	for k := 1; k <= n; k++ {
		for i, t := range trees(k) {
			// distinct leaf values
			d := 0
			var b strings.Builder
			for j := 0; j < len(t); j++ {
				if t[j] == 'v' {
					d++
					if d%3 == 0 {
						b.WriteString("v")
					} else {
						fmt.Fprint(&b, d+2)
					}
				} else {
					b.WriteByte(t[j])
				}
			}
			e := b.String()
			var body string
			switch i % 5 {
			case 0:
				body = "print(" + e + ")\n"
			case 1:
				body = "a§ := " + e + "\nprint(a§)\n"
			case 2:
				body = "func f§() int {\nreturn " + e + "\n}\nprint(f§())\n"
			case 3:
				body = "a§, b§ := " + e + ", inc(3)\nprint(a§, b§)\n"
			case 4:
				body = "func f§(x int, z int) {\nprint(x, z)\n}\nf§(inc(9), " + e + ")\nf§(" + e + ", inc(8))\n"
			}
			if !y(Item{Pre: pre, Body: body, Tag: fmt.Sprintf("calls%d", k)}) {
				return false
			}
		}
	}
	return true
}

func trees2(f func(int) []string, a, n int) []string {
	if a == n {
		// avoid endless recursion: only trees of fewer calls are wrapped
		return nil
	}
	return f(a)
}

// Simultaneous: all right-hand sides of a two- or three-way assignment.
func Simultaneous(full bool, y Yield) bool {
	pre := "func id(p int) int {\na := p\nb := a + 0\nreturn b\n}\nfunc swap(p int, q int) (int, int) {\nreturn q, p\n}\n"
	r2 := []string{"a§", "b§", "a§ + b§", "id(a§)", "id(b§)", "5"}
	r3 := []string{"a§", "b§", "c§", "a§ + c§", "id(b§)"}
	scopes := []string{"global", "local", "param", "fromfn", "block"}
	mk := func(scope, stmts, vars string) string {
		switch scope {
		case "global":
			return "a§, b§, c§ := 1, 2, 3\n" + stmts + "print(a§, b§, c§)\n"
		case "local":
			return "func f§() {\na§, b§, c§ := 1, 2, 3\n" + stmts + "print(a§, b§, c§)\n}\nf§()\nf§()\n"
		case "param":
			return "func f§(a§ int, b§ int, c§ int) {\n" + stmts + "print(a§, b§, c§)\n}\nf§(1, 2, 3)\nf§(4, 5, 6)\n"
		case "fromfn":
			return "a§, b§, c§ := 1, 2, 3\nfunc f§() {\n" + stmts + "print(a§, b§, c§)\n}\nf§()\nf§()\nprint(a§, b§, c§)\n"
		}
		return "for i§ := 0; i§ < 2; i§++ {\na§, b§, c§ := 1, 2, i§\n" + stmts + "print(a§, b§, c§)\n}\n"
	}
	for _, sc := range scopes {
		for _, x := range r2 {
			for _, z := range r2 {
				for _, t := range []string{"a§, b§ = %s, %s\n", "b§, a§ = %s, %s\n", "a§, c§ = %s, %s\n"} {
					if !y(Item{Pre: pre, Body: mk(sc, fmt.Sprintf(t, x, z), ""), Tag: "sim2"}) {
						return false
					}
				}
			}
		}
		for _, x := range []string{"a§, b§", "b§, a§", "a§ + b§, c§", "id(a§), id(b§)", "5, id(c§)"} {
			for _, t := range []string{"a§, b§ = swap(%s)\n", "b§, a§ = swap(%s)\n", "c§, a§ = swap(%s)\n", "a§, b§ = swap(%s)\nb§, c§ = swap(b§, c§)\n"} {
				if !y(Item{Pre: pre, Body: mk(sc, fmt.Sprintf(t, x), ""), Tag: "simcall"}) {
					return false
				}
			}
		}
		if !full && sc != "global" && sc != "param" {
			continue
		}
		for _, x := range r3 {
			for _, z := range r3 {
				for _, w := range r3 {
					if !y(Item{Pre: pre, Body: mk(sc, fmt.Sprintf("a§, b§, c§ = %s, %s, %s\n", x, z, w), ""), Tag: "sim3"}) {
						return false
					}
				}
			}
		}
	}
	return true
}

// Returns: what a return statement may compute, where it stands, and how the results are used.
func Returns(y Yield) bool {
	pre := "func one(n int) int {\nr := n + 1\nreturn r\n}\nfunc two(n int, s string) (int, string) {\nm := n * 2\nreturn m, s + \"!\"\n}\nfunc three(a int, b int, c int) (int, int, int) {\nreturn c, a, b\n}\ng := 1\nfunc bump() int {\ng++\nreturn g\n}\n"
	exprs := []string{"n", "one(n)", "one(one(n)) - n", "7", "bump()", "n * bump()"}
	for _, a := range exprs {
		for _, b := range exprs {
			f := "func f§(n int) (int, int) {\nreturn " + a + ", " + b + "\n}\n"
			for _, u := range []string{
				"x§, y§ := f§(3)\nprint(x§, y§)\n",
				"x§, y§ := f§(one(1))\nx§, y§ = f§(y§)\nprint(x§, y§)\n",
				"func h§(n int) (int, int) {\na, b := f§(n)\nc, d := f§(n + 1)\nreturn a - d, b - c\n}\nx§, y§ := h§(5)\nprint(x§, y§)\n",
				"for i§ := 0; i§ < 2; i§++ {\nx§, y§ := f§(i§)\nprint(x§, y§, one(i§))\n}\n",
			} {
				if !y(Item{Pre: pre, Body: f + u, Tag: "ret2"}) {
					return false
				}
			}
		}
		for _, b := range exprs {
			for _, c := range []string{"n", "one(n)", "bump()"} {
				if !y(Item{Pre: pre, Body: "func f§(n int) (int, int, int) {\nreturn " + a + ", " + b + ", " + c + "\n}\nx§, y§, z§ := f§(4)\nprint(x§, y§, z§)\nx§, y§, z§ = three(x§, y§, z§)\nprint(x§, y§, z§)\nz§, x§, y§ = three(one(x§), y§, bump())\nprint(x§, y§, z§)\n", Tag: "ret3"}) {
					return false
				}
			}
		}
	}
	// early returns at every place
	bodies := []string{
		"if n == 1 {\nreturn 10\n}\n", "if n == 1 {\nreturn 10\n} else {\nprint(\"e\")\n}\n", "if n == 1 {\nprint(1)\n} else if n == 2 {\nreturn 20\n} else {\nreturn 30\n}\n",
		"for i := 0; i < 5; i++ {\nif i == n {\nreturn i * 100\n}\nprint(i)\n}\n", "for i, c := range \"abcd\" {\nif i == n {\nprint(c)\nreturn i\n}\n}\n",
		"switch n {\ncase 1:\nreturn 5\ncase 2:\nprint(\"two\")\ndefault:\nreturn 6\n}\n",
		"for i := 0; i < 3; i++ {\nfor j := 0; j < 3; j++ {\nif i + j == n {\nreturn i * 10 + j\n}\n}\n}\n",
		"for i := 0; i < 3; i++ {\nswitch i {\ncase 1:\nif n > 1 {\nreturn one(i)\n}\n}\nprint(i)\n}\n",
		"for {\nn++\nif n > 3 {\nreturn n\n}\n}\n",
		"for n < 9 {\nn += 4\nif one(n) == 8 {\nreturn 8\n}\n}\n",
	}
	for i, a := range bodies {
		for _, b := range append([]string{""}, bodies...) {
			if b != "" && strings.HasPrefix(a, "for {") {
				b = ""
			}
			body := "func f§(n int) int {\n" + a + b + "print(\"end\")\nreturn -1\n}\nfor k§ := 0; k§ < 4; k§++ {\nprint(f§(k§))\n}\n"
			if !y(Item{Pre: pre, Body: body, Tag: fmt.Sprintf("early%d", i)}) {
				return false
			}
			if i%2 == 0 && b == "" {
				body = "func f§(n int) int {\n" + a + "print(\"end\")\nreturn -1\n}\nfunc h§(n int) int {\nif f§(n) > 5 {\nreturn f§(n) + 1\n}\nfor i := 0; i < 2; i++ {\nprint(i, f§(i))\n}\nreturn f§(n + 1)\n}\nfor k§ := 0; k§ < 4; k§++ {\nprint(h§(k§))\n}\n"
				if !y(Item{Pre: pre, Body: body, Tag: "early-nested"}) {
					return false
				}
			}
		}
	}
	// discarded results and interleaved calls
	for _, s := range []string{
		"one(1)\nprint(one(5))\n", "two(1, \"a\")\nx§ := one(7)\nprint(x§)\n", "x§, y§ := two(3, \"k\")\none(9)\nprint(x§, y§)\n",
		"x§, y§ := two(one(3), \"k\")\nprint(x§, y§)\n", "x§, y§ := two(3, itoa(one(4)))\nprint(x§, y§)\n", "x§ := one(2) + one(3) * one(4)\nprint(x§)\n",
		"x§, y§ := one(2), one(3)\nprint(x§, y§)\n", "print(one(1), one(2), bump(), one(bump()))\n", "x§ := []int{one(1), bump(), one(3)}\nprint(x§[0], x§[1], x§[2])\n",
		"x§ := []int{0}\nx§[one(0)] = one(5)\nprint(len(x§), x§[1])\n", "if one(1) == 2 && bump() > 0 {\nprint(one(8))\n}\n", "for i§ := one(0); i§ < one(2); i§ += one(0) {\nprint(i§)\n}\n",
		"switch one(1) {\ncase one(0):\nprint(0)\ncase one(1):\nprint(1)\n}\n", "x§ := \"abcdef\"\nprint(x§[one(0):one(3)], x§[one(1)])\n",
		"var x§, y§ int = 1, 2\nx§, y§ = one(y§), one(x§)\nprint(x§, y§)\n", "x§ := one(1)\nx§ += one(x§)\nprint(x§)\n", "print(itoa(one(1)) + itoa(one(2)))\n", "x§ := !(one(1) == 2)\nprint(x§)\n",
	} {
		for _, w := range []string{"%s", "func f§() {\n%s}\nf§()\nf§()\n", "for k§ := 0; k§ < 2; k§++ {\n%s}\n"} {
			if !y(Item{Pre: pre, Body: strings.ReplaceAll(w, "%s", s), Tag: "use"}) {
				return false
			}
		}
	}
	return true
}

// RefParams: scalars by value, slices by reference.
func RefParams(y Yield) bool {
	wr := []string{"p[0] = 50\n", "p[4] = 60\n", "p = []int{8, 8}\np[0] = 70\n", "q := p\nq[1] = 80\n", "copy(p, []int{5, 5, 5, 5})\n", "p[len(p)] = 90\n", "for i, v := range p {\np[i] = v * 2\n}\n", "n = 99\n", "n++\np[n] = 3\n", "s += \"x\"\ns = s + s\n"}
	for _, a := range wr {
		for _, b := range append([]string{""}, wr...) {
			if strings.HasPrefix(a, "q") && strings.HasPrefix(b, "q") {
				continue
			}
			body := "l§ := []int{1, 2, 3}\nm§ := l§\nn§ := 1\ns§ := \"s\"\n"
			body += "func f§(p []int, n int, s string) []int {\n" + a + b + "print(n, s, len(p))\nreturn p\n}\n"
			body += "func d§(p []int) {\nprint(len(p))\nfor i, v := range p {\nprint(i, v)\n}\n}\n"
			body += "r§ := f§(l§, n§, s§)\nd§(l§)\nd§(m§)\nd§(r§)\nprint(n§, s§)\nr§[0] = 7\nd§(l§)\n"
			if !y(Item{Body: body, Tag: "ref"}) {
				return false
			}
			body2 := "func f§(p []int, n int, s string) []int {\n" + a + b + "print(n, s, len(p))\nreturn p\n}\n" +
				"func h§(p []int, n int, s string) {\nq := f§(p, n, s)\nprint(n, s, len(p), len(q), p[0], q[0])\nq[0] = 1000\nprint(p[0], q[0])\n}\nx§ := []int{1, 2, 3}\nh§(x§, 1, \"t\")\nprint(len(x§), x§[0], x§[1], x§[2])\n"
			if !y(Item{Body: body2, Tag: "ref"}) {
				return false
			}
		}
	}
	return true
}

// MixedTargets: every tuple of storage classes (global, local, parameter, variable of an inner
// block, slice of pairs of them) as targets of one assignment, from a list or from a call, at
// every place where an assignment may stand.
func MixedTargets(full bool, y Yield) bool {
	types := []string{"int", "string", "bool"}
	val := func(t string, i int) string {
		switch t {
		case "int":
			return fmt.Sprint(20 + i)
		case "string":
			return fmt.Sprintf("\"v%d\"", i)
		}
		return []string{"true", "false"}[i%2]
	}
	zero := map[string]string{"int": "1", "string": "\"o\"", "bool": "false"}
	classes := []string{"g", "h", "l", "p", "b"}
	wraps := []string{
		"%s", "if true {\n%s}\n", "if false {\n} else {\n%s}\n", "for i := 0; i < 2; i++ {\n%s}\n", "for i, c := range \"ab\" {\nprint(i, c)\n%s}\n", "switch 1 {\ncase 1:\n%s}\n", "for {\n%sbreak\n}\n",
	}
	for n := 2; n <= 3; n++ {
		tuples := [][]string{}
		var rec func(cur []string)
		rec = func(cur []string) {
			if len(cur) == n {
				tuples = append(tuples, append([]string{}, cur...))
				return
			}
			for _, c := range classes {
				used := false
				for _, x := range cur {
					used = used || x == c
				}
				if !used {
					rec(append(cur, c))
				}
			}
		}
		rec(nil)
		for ti, tp := range tuples {
			for ty := 0; ty < len(types); ty++ {
				if n == 3 && !full && (ti+ty)%3 != 0 {
					continue
				}
				// class c has the type of its position in classes, rotated by ty
				tof := func(c string) string {
					for i, x := range classes {
						if x == c {
							return types[(i+ty)%3]
						}
					}
					return ""
				}
				var tg, rt, vs []string
				for i, c := range tp {
					nm := c + "v"
					if c == "g" || c == "h" {
						nm = c + "v§"
					}
					tg = append(tg, nm)
					rt = append(rt, tof(c))
					vs = append(vs, val(tof(c), i))
				}
				src := "func src§() (" + strings.Join(rt, ", ") + ") {\nreturn " + strings.Join(vs, ", ") + "\n}\n"
				all := "print(gv§, hv§, lv, pv, bv)\n"
				for k, rhs := range []string{"src§()", strings.Join(vs, ", ")} {
					asg := strings.Join(tg, ", ") + " = " + rhs + "\n"
					for wi, w := range wraps {
						if (n == 3 || k == 1) && wi > 0 && !full && (wi+ti)%len(wraps) != 0 {
							continue
						}
						body := "gv§ := " + zero[tof("g")] + "\nvar hv§ " + tof("h") + "\n" + src
						body += "func f§(pv " + tof("p") + ") {\nlv := " + zero[tof("l")] + "\nif true {\nvar bv " + tof("b") + "\n" + all + strings.ReplaceAll(w, "%s", asg) + all + "}\nprint(lv, pv)\n}\n"
						body += "f§(" + zero[tof("p")] + ")\nprint(gv§, hv§)\nf§(" + zero[tof("p")] + ")\nprint(gv§, hv§)\n"
						if !y(Item{Body: body, Tag: fmt.Sprintf("mix%d", n)}) {
							return false
						}
					}
				}
			}
		}
	}
	// headers of loops
	for _, a := range []string{"gv§", "lv", "pv"} {
		for _, b := range []string{"gv§", "lv", "pv", "hv§"} {
			if a == b {
				continue
			}
			for _, hd := range []string{
				"for A, B = two§(); A < 9; A++ {\n%s}\n", "for A = 1; A < 4; A, B = A + 1, B + 2 {\n%s}\n", "for A, B = 1, 5; A < B; A, B = A + 1, B - 1 {\n%s}\n", "for i, A := 0, 7; i < 2; i++ {\n%s}\n",
				"for A = 1; A < 12; A, B = next§(A) {\n%s}\n", "for A, B = 0, 3; A < B; A++ {\nB--\n%s}\n", "for i, j := two§(); i < 9; i, j = i + 1, j - 1 {\nA, B = j, i\nprint(i, j)\n%s}\n",
			} {
				if strings.HasPrefix(hd, "for i, A :=") && (a == "lv" || a == "pv" || a == "gv§") {
					continue
				}
				loop := strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(hd, "%s", "print(\"A\", gv§, hv§, lv, pv)\n"), "A", a), "B", b)
				loop = strings.ReplaceAll(loop, "\""+a+"\"", "\"A\"")
				body := "gv§, hv§ := 3, 4\nfunc two§() (int, int) {\nreturn 6, 9\n}\nfunc next§(n int) (int, int) {\nreturn n * 2, n\n}\n" +
					"func f§(pv int) {\nlv := 2\n" + loop + "print(gv§, hv§, lv, pv)\n}\nf§(5)\nf§(6)\nprint(gv§, hv§)\n"
				if !y(Item{Body: body, Tag: "mixfor"}) {
					return false
				}
			}
		}
	}
	return true
}

// TypedCalls: several calls of functions of every result type in one statement, so that each
// result must survive the calls that follow it.
func TypedCalls(full bool, y Yield) bool {
	pre := "func ri(n int) int {\nreturn n * 10\n}\nfunc rs(n int) string {\nreturn \"s\" + itoa(n)\n}\nfunc rb(n int) bool {\nreturn n > 2\n}\nfunc rl(n int) []int {\nl := []int{n, n + 5}\nreturn l\n}\nfunc rt(n int) []string {\nl := []string{\"t\", itoa(n)}\nreturn l\n}\nfunc rc(n int) []bool {\nl := []bool{n > 2, n < 2}\nreturn l\n}\n" +
		"func bi(n int) int {\nif rb(n) {\nreturn ri(n) + 1\n}\nreturn -1\n}\nfunc bs(n int) string {\nr := rs(n)\nreturn r + \"-\" + rs(n + 1)\n}\nfunc bb(n int) bool {\nreturn !rb(n)\n}\nfunc bl(n int) []int {\nreturn rl(n + 1)\n}\n"
	fns := []struct{ n, t string }{{"ri", "int"}, {"rs", "string"}, {"rb", "bool"}, {"rl", "[]int"}, {"rt", "[]string"}, {"rc", "[]bool"}, {"bi", "int"}, {"bs", "string"}, {"bb", "bool"}, {"bl", "[]int"}}
	show := func(v, t string) string {
		if strings.HasPrefix(t, "[]") {
			return "print(len(" + v + "), " + v + "[0], " + v + "[1])\n"
		}
		return "print(" + v + ")\n"
	}
	wraps := []string{"%s", "func w§() {\n%s}\nw§()\nw§()\n", "for k§ := 0; k§ < 2; k§++ {\n%s}\n"}
	for _, a := range fns {
		for _, b := range fns {
			for _, args := range [][2]string{{"1", "3"}, {"3", "1"}} {
				ca, cb := a.n+"("+args[0]+")", b.n+"("+args[1]+")"
				forms := []string{
					"x§, y§ := " + ca + ", " + cb + "\n" + show("x§", a.t) + show("y§", b.t) + "x§, y§ = " + a.n + "(2), " + b.n + "(4)\n" + show("x§", a.t) + show("y§", b.t),
					"func two§() (" + a.t + ", " + b.t + ") {\nreturn " + ca + ", " + cb + "\n}\nx§, y§ := two§()\n" + show("x§", a.t) + show("y§", b.t),
					"func arg§(p " + a.t + ", q " + b.t + ") {\n" + show("p", a.t) + show("q", b.t) + "}\narg§(" + ca + ", " + cb + ")\n",
					"func arg§(p " + a.t + ", q " + b.t + ") " + b.t + " {\n" + show("p", a.t) + "return q\n}\nx§ := arg§(" + ca + ", arg§(" + ca + ", " + cb + "))\n" + show("x§", b.t),
					"x§ := " + ca + "\n" + cb + "\n" + show("x§", a.t),
					"x§ := " + ca + "\ny§ := " + cb + "\nx§ = " + a.n + "(5)\n" + show("x§", a.t) + show("y§", b.t),
				}
				scalar := !strings.HasPrefix(a.t, "[]") && !strings.HasPrefix(b.t, "[]")
				if scalar {
					forms = append(forms, "print("+ca+", "+cb+", "+ca+")\n")
					if a.t == b.t {
						forms = append(forms, "print("+ca+" == "+cb+", "+ca+" != "+ca+")\n", "x§ := []"+a.t+"{"+ca+", "+cb+"}\nprint(x§[0], x§[1])\nx§[ri(0)] = "+cb+"\nprint(x§[0])\n",
							"if "+ca+" == "+cb+" {\nprint(1)\n} else if "+cb+" != "+ca+" {\nprint(2)\n}\n", "switch "+ca+" {\ncase "+cb+":\nprint(1)\ncase "+ca+":\nprint(2)\n}\n")
					}
					switch {
					case a.t == "bool" && b.t == "bool":
						forms = append(forms, "print("+ca+" && "+cb+", "+ca+" || "+cb+", !"+ca+")\n", "if "+ca+" && !"+cb+" {\nprint(1)\n} else if "+cb+" || "+ca+" {\nprint(2)\n}\n", "func n§() bool {\nreturn "+ca+" || "+cb+"\n}\nprint(n§(), n§() && "+ca+")\n",
							"i§ := 0\nfor "+ca+" || "+cb+" {\ni§++\nif i§ > 2 {\nbreak\n}\n}\nprint(i§)\n")
					case a.t == "int" && b.t == "int":
						forms = append(forms, "print("+ca+" - "+cb+", "+ca+" < "+cb+", "+ca+" * "+cb+" + "+ca+")\n", "for i§ := "+ca+"; i§ < "+cb+" + "+ca+"; i§ += "+cb+" + 100 {\nprint(i§)\n}\n")
					case a.t == "string" && b.t == "string":
						forms = append(forms, "print("+ca+" + "+cb+" + "+ca+")\nprint(len("+ca+") + len("+cb+"))\n", "x§ := "+ca+" + "+cb+"\nprint(x§[1:len("+ca+")], x§)\n", "for i§, c§ := range "+ca+" + "+cb+" {\nprint(i§, c§)\n}\n")
					}
				} else if strings.HasPrefix(a.t, "[]") {
					forms = append(forms, "for i§, v§ := range "+ca+" {\nprint(i§, v§)\nz := "+cb+"\n"+show("z", b.t)+"}\n")
					if a.t == b.t {
						forms = append(forms, "x§ := "+cb+"\nn§ := copy(x§, "+ca+")\nprint(n§, x§[0], x§[1])\n")
					}
				}
				for fi, f := range forms {
					for wi, w := range wraps {
						if wi > 0 && strings.Contains(f, "func ") {
							continue
						}
						if wi > 0 && !full && args[0] == "3" {
							continue
						}
						_ = fi
						if !y(Item{Pre: pre, Body: strings.ReplaceAll(w, "%s", f), Tag: "typed-" + a.n + b.n}) {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

// ArgValues: every tuple of small argument values in every parameter position,
// given as literals, through variables, through expressions, and returned again.
func ArgValues(maxP int, y Yield) bool {
	dom := map[string][]string{"string": {`""`, `"a"`, `" "`, `"a b"`}, "int": {"0", "1", "-1"}, "bool": {"false", "true"}}
	for n := 1; n <= maxP; n++ {
		for tm := 0; tm < 1<<n; tm++ {
			tys := make([]string, n)
			for i := range tys {
				tys[i] = "string"
				if tm>>i&1 == 1 {
					tys[i] = []string{"int", "bool"}[i%2]
				}
			}
			args := [][]string{{}}
			for _, t := range tys {
				var nx [][]string
				for _, a := range args {
					for _, v := range dom[t] {
						nx = append(nx, append(append([]string{}, a...), v))
					}
				}
				args = nx
			}
			pl := list(n, func(i int) string { return fmt.Sprintf("p%d %s", i, tys[i]) })
			pn := list(n, func(i int) string { return fmt.Sprintf("p%d", i) })
			ret := strings.Join(tys, ", ")
			if n > 1 {
				ret = "(" + ret + ")"
			}
			pre := "func f(" + pl + ") {\nprint(\"<\")\n" + rep(n, func(i int) string {
				if tys[i] == "string" {
					return fmt.Sprintf("print(%d, \"[\" + p%d + \"]\", len(p%d))\n", i, i, i)
				}
				return fmt.Sprintf("print(%d, p%d)\n", i, i)
			}) + "}\nfunc g(" + pl + ") " + ret + " {\nreturn " + pn + "\n}\n"
			for _, a := range args {
				al := strings.Join(a, ", ")
				vs := list(n, func(i int) string { return fmt.Sprintf("v%d§", i) })
				b := "f(" + al + ")\n" + vs + " := " + al + "\nf(" + vs + ")\n" + vs + " = g(" + al + ")\nf(" + vs + ")\n" + vs + " = g(" + vs + ")\nf(" + vs + ")\n"
				if n == 1 {
					b += "f(g(" + al + "))\nf(g(g(" + al + ")))\n"
				}
				b += "func h§() {\nw := " + al[:len(a[0])] + "\nprint(w)\nf(" + al + ")\n}\nh§()\n"
				if !y(Item{Pre: pre, Body: b, Tag: "args"}) {
					return false
				}
			}
		}
	}
	return true
}
