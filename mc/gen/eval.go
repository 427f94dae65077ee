package gen

import (
	"fmt"
	"strings"
)

// evaluation order and multiplicity: operands are tracing calls

const tracePre = "cnt := 0\ntwo := []int{1, 2}\nabc := \"abcd\"\nfunc ti(n int, v int) int {\nprint(\"i\", n)\ncnt++\nreturn v\n}\nfunc tb(n int, v bool) bool {\nprint(\"b\", n)\ncnt++\nreturn v\n}\nfunc ts(n int, v string) string {\nprint(\"s\", n)\ncnt++\nreturn v\n}\n" +
	"func tl(n int, v int) []int {\nprint(\"l\", n)\ncnt++\nr := []int{v, v + 1}\nreturn r\n}\nfunc t2(n int, a int, b int) (int, int) {\nprint(\"2\", n, a, b)\ncnt++\nreturn a, b\n}\nfunc t3(a int, b string, c bool) int {\nprint(\"3\", a, b, c)\ncnt++\nreturn a\n}\n" +
	"func tv(n int) {\nprint(\"v\", n)\ncnt++\n}\nfunc below() bool {\nreturn cnt < 100\n}\nfunc lim(n int, m int) bool {\nprint(\"lim\", n, m)\nreturn n < m\n}\n"

// slot fillers by type; %d is a fresh trace number
var fillers = map[byte][]string{
	'i': {"2", "ti(%d, 2)", "ti(%d, 1) + ti(%d, 1)", "ti(ti(%d, 60), 2)", "len(ts(%d, \"ab\"))", "(ti(%d, 2))", "two[ti(%d, 1)]", "len(tl(%d, 5))"},
	'b': {"true", "tb(%d, true)", "tb(%d, false) || tb(%d, true)", "!tb(%d, false)", "(ti(%d, 1) < ti(%d, 2))", "tb(%d, false)", "false && tb(%d, true)", "true || tb(%d, false)", "exists(ts(%d, \"nofile\"))"},
	's': {"\"k\"", "ts(%d, \"k\")", "ts(%d, \"k\") + ts(%d, \"\")", "itoa(ti(%d, 5))", "abc[ti(%d, 1)]", "abc[ti(%d, 1):ti(%d, 3)]", "\"\""},
	'l': {"[]int{1, 2}", "tl(%d, 1)", "[]int{ti(%d, 1), ti(%d, 2)}"},
}

// statements with slots: «i», «b», «s», «l»
var evalForms = []string{
	"x§ := «i»\nprint(x§)\n", "x§, y§ := «i», «s»\nprint(x§, y§)\n", "x§, y§, z§ := «b», «i», «s»\nprint(x§, y§, z§)\n", "var x§ int = «i»\nprint(x§)\n", "var x§, y§ int = «i», «i»\nprint(x§, y§)\n", "var x§, y§ = «s», «i»\nprint(x§, y§)\n",
	"x§ := 0\nx§ = «i»\nprint(x§)\n", "x§, y§ := 0, \"\"\nx§, y§ = «i», «s»\nprint(x§, y§)\n", "x§ := 7\nx§ += «i»\nx§ -= «i»\nx§ *= «i»\nprint(x§)\n", "x§ := 7\nx§ /= «i»\nx§ %= «i»\nprint(x§)\n", "x§ := \"q\"\nx§ += «s»\nprint(x§)\n",
	"x§, y§ := t2(«i», «i», «i»)\nprint(x§, y§)\nx§, y§ = t2(«i», y§, «i»)\nprint(x§, y§)\n",
	"x§ := []int{0, 0, 0, 0, 0}\nx§[«i»] = «i»\nprint(len(x§), x§[2], x§[1])\n", "x§ := []int{«i», «i», «i»}\nprint(len(x§), x§[0])\n", "x§ := []string{«s», «s»}\nprint(len(x§), x§[0], x§[1])\n", "x§ := []bool{«b», «b»}\nprint(x§[0], x§[1])\n", "x§ := []int{5, 6, 7}\ny§ := x§[«i»] + x§[«i»]\nprint(y§)\n", "x§ := \"abcdef\"\nprint(x§[«i»], x§[«i»:], x§[:«i»])\n", "x§ := \"abcdef\"\nprint(x§[«i»:«i» + 2])\ny§ := x§[«i»]\nprint(y§)\n",
	"print(«i»)\n", "print(«s», «i»)\n", "print(«b», «s», «i»)\n", "print(«i», \"c\", «i», «b»)\n", "print(«i» + «i» * «i»)\n", "print((«i» - «i») * «i»)\n", "print(«s» + «s» == «s»)\n", "print(«i» < «i» || «i» == «i»)\n", "print(!(«b» && «b»))\n", "print(«b» == «b», «s» != «s»)\n", "print(len(«s»), len(«l»), itoa(«i»))\n",
	"func r§() int {\nreturn «i»\n}\nprint(r§())\n", "func r§() (int, string) {\nreturn «i», «s»\n}\nx§, y§ := r§()\nprint(x§, y§)\n", "func r§() (int, bool, int) {\nreturn «i», «b», «i»\n}\nx§, y§, z§ := r§()\nprint(x§, y§, z§)\n", "func r§() []int {\nreturn «l»\n}\nx§ := r§()\nprint(x§[0])\n", "func r§() string {\nx := \"abcdef\"\nreturn x[«i»]\n}\nprint(r§())\n",
	"t3(«i», «s», «b»)\n", "print(t3(«i», «s», «b»))\n", "x§ := t3(t3(«i», \"in\", true), «s», «b») + «i»\nprint(x§)\n", "tv(«i»)\n", "tl(«i», «i»)\n", "x§ := tl(«i», «i»)\nprint(x§[«i» - 1])\n",
	"if «b» {\nprint(\"then\")\n}\n", "if «b» {\nprint(\"then\")\n} else {\nprint(\"else\")\n}\n", "if «b» {\nprint(1)\n} else if «b» {\nprint(2)\n} else {\nprint(3)\n}\n", "if tb(90, false) {\nprint(1)\n} else if «b» {\nprint(2)\n} else if «b» {\nprint(3)\n}\n", "if «b» && «b» {\nprint(1)\n}\n", "if «b» || «b» {\ntv(91)\n} else if «i» == «i» {\ntv(92)\n}\n", "if «b» {\ntv(93)\nif «b» {\ntv(94)\n}\ntv(95)\n}\n", "if !«b» {\nprint(1)\n} else if !«b» {\nprint(2)\n}\n", "if «i» > «i» && «s» == «s» {\nprint(1)\n} else {\nprint(2)\n}\n",
	"switch «i» {\ncase «i»:\nprint(1)\ncase «i»:\nprint(2)\ndefault:\nprint(3)\n}\n", "switch «s» {\ncase «s»:\nprint(1)\ndefault:\nprint(3)\n}\n", "switch {\ncase «b»:\nprint(1)\ncase «b»:\nprint(2)\n}\n", "switch «b» {\ncase «b»:\ntv(96)\ncase «b»:\ntv(97)\n}\n", "switch «i» {\ndefault:\ntv(98)\n}\n", "switch «i» {\ncase 9:\nprint(1)\ncase 8:\nprint(2)\ncase «i»:\nprint(3)\n}\n",
	"switch «i» {\ndefault:\nprint(3)\ncase «i»:\nprint(1)\ncase «i»:\nprint(2)\n}\n", "switch «i» {\ncase 9:\nprint(1)\ndefault:\nprint(3)\ncase «i»:\nprint(2)\n}\n", "switch «s» {\ndefault:\nprint(3)\ncase «s»:\nprint(1)\n}\n", "switch «i» + «i» {\ncase «i» * «i»:\nprint(1)\n}\n", "switch {\ndefault:\nprint(3)\ncase «b»:\nprint(1)\n}\n", "switch («s» == «s») {\ndefault:\nprint(3)\ncase «b»:\nprint(1)\n}\n",
	"x§ := []string{\"p\", \"q\", \"r\"}\nx§[«i» - 1] = «s»\nprint(x§[0], x§[1], x§[2])\n", "x§ := []bool{}\nx§[«i»] = «b»\nprint(len(x§), x§[2])\n", "x§, y§ := «l», «l»\nprint(x§[0], y§[1])\n", "var x§ []int = «l»\nvar y§ []int\nn§ := copy(y§, x§) + copy(y§, «l») * «i»\nprint(n§, len(y§))\n", "x§ := \"\"\nx§, y§, z§ := «s», «b», «l»\nprint(x§, y§, z§[0])\n",
	"func r§(n int) int {\nif «b» {\nreturn «i» + n\n}\nreturn «i» - n\n}\nprint(r§(«i»), r§(«i»))\n", "func r§() int {\nfor i := «i»; i < 9; i++ {\nif tb(88, i == 4) {\nreturn «i»\n}\n}\nreturn «i»\n}\nprint(r§())\n", "func r§(a int, b string) (string, int) {\nswitch «i» {\ncase «i»:\nreturn «s», a\n}\nreturn b, «i»\n}\nx§, y§ := r§(«i», «s»)\nprint(x§, y§)\n", "func r§() bool {\nfor i, v := range «l» {\nif v > i || «b» {\nreturn «b»\n}\n}\nreturn «b»\n}\nprint(r§())\n",
	"x§ := itoa(«i») + «s» + itoa(«i» * «i»)\nprint(x§)\n", "print(«i» / «i» % «i» - «i»)\n", "print((«i» + «i») == («i» * «i») && «s» != «s» || «b»)\n", "print(len(«s» + «s») + «i»)\n", "@echo(«s», «s» + itoa(«i»))\n", "x§, y§, z§ := @echo(«s», «s») | @cat()\nprint(x§, z§, «i»)\n", "@echo(«s») | @echo(«s», «s») | @cat()\n",
	"for i§ := «i»; i§ < «i» + 2; i§ += «i» {\nprint(i§)\n}\n", "for i§ := 0; lim(i§, «i»); i§ = i§ + «i» - 1 {\nprint(i§)\n}\n", "i§ := 0\nfor i§ < «i» {\ni§++\ntv(99)\n}\n", "i§ := 0\nfor lim(i§, «i») && «b» {\ni§++\nif i§ == 2 {\nbreak\n}\n}\nprint(i§)\n", "for i§ := 0; lim(i§, 4); i§++ {\nif i§ == «i» {\ncontinue\n}\ntv(i§)\n}\n", "i§ := 0\nfor {\ni§ += «i»\nif «b» || i§ > 4 {\nbreak\n}\nif i§ > 3 {\nbreak\n}\n}\nprint(i§)\n",
	"for i§, v§ := range «l» {\nprint(i§, v§)\n}\n", "for i§, v§ := range «s» {\nprint(i§, v§)\n}\n", "for i§ := range «s» + «s» {\ntv(i§)\n}\n", "for i§, v§ := range tl(«i», «i») {\nprint(i§, v§)\ntv(v§)\n}\n",
	"x§ := []int{}\nn§ := copy(x§, «l»)\nprint(n§, x§[0])\n", "x§ := []int{}\nprint(copy(x§, tl(«i», «i»)), «i»)\n", "print(exists(«s»), «i»)\n", "write(«s», «s»)\nprint(read(«s»))\n", "write(\"k\", «s», «b»)\nwrite(«s», «s», «b»)\nprint(read(\"k\"))\n", "if exists(«s») {\nprint(1)\n} else if exists(«s») {\nprint(2)\n}\n",
	"x§ := «i»\ny§ := x§ + «i»\nx§++\nprint(x§, y§, «i»)\n", "x§ := (tb(81, true) && «b») == («b» || tb(82, true))\nprint(x§)\n",
}

var evalWraps = []string{
	"%s", "func w§() {\n%s}\nw§()\nw§()\n", "for o§ := 0; o§ < 2; o§++ {\n%s}\n", "if true {\n%s}\n", "if false {\n} else {\n%s}\n", "switch 1 {\ncase 1:\n%s}\n",
	"for p§, q§ := range \"ab\" {\nprint(p§, q§)\nif p§ == 1 {\n%s}\n}\n", "func w§(o int) int {\nfor o > 0 {\no--\n%s}\nreturn o\n}\nprint(w§(2))\n",
}

// EvalOrder: all fillings of all slots of all statement forms in all contexts.
func EvalOrder(maxFill int, wraps int, y Yield) bool {
	for wi, w := range evalWraps {
		for fi, f := range evalForms {
			if wi > 0 && strings.Contains(f, "func ") {
				continue
			}
			parts := strings.Split(f, "«")
			var types []byte
			for _, p := range parts[1:] {
				types = append(types, p[0])
			}
			k := len(types)
			choose := make([]int, k)
			var rec func(i int, extra int) bool
			rec = func(i, extra int) bool {
				if i == k {
					var b strings.Builder
					b.WriteString(parts[0])
					tr := 1
					for j, p := range parts[1:] {
						fl := fillers[types[j]][choose[j]]
						for strings.Contains(fl, "%d") {
							fl = strings.Replace(fl, "%d", fmt.Sprint(tr), 1)
							tr++
						}
						b.WriteString(fl)
						b.WriteString(p[strings.Index(p, "»")+len("»"):])
					}
					body := strings.ReplaceAll(w, "%s", b.String()) + "print(\"cnt\", cnt)\n"
					return y(Item{Pre: tracePre, Body: body, Tag: fmt.Sprintf("ev%d-%d", wi, fi)})
				}
				fs := fillers[types[i]]
				for c := range fs {
					e := extra
					if c != 1 {
						e++
					}
					// at most maxFill slots differ from the plain traced call
					if e > maxFill {
						continue
					}
					choose[i] = c
					if !rec(i+1, e) {
						return false
					}
				}
				return true
			}
			if wi >= wraps {
				// remaining contexts only with all slots traced
				old := maxFill
				maxFill = 0
				ok := rec(0, 0)
				maxFill = old
				if !ok {
					return false
				}
				continue
			}
			if !rec(0, 0) {
				return false
			}
		}
	}
	return true
}

// LogicalTrees: every && || tree with n operators over traced operands with all truth values.
func LogicalTrees(n int, y Yield) bool {
	type nd struct {
		op   string
		l, r *nd
	}
	var trees func(n int) []*nd
	trees = func(n int) []*nd {
		if n == 0 {
			return []*nd{nil}
		}
		var out []*nd
		for a := 0; a < n; a++ {
			for _, l := range trees(a) {
				for _, r := range trees(n - 1 - a) {
					for _, op := range []string{"&&", "||"} {
						out = append(out, &nd{op, l, r})
					}
				}
			}
		}
		return out
	}
	for k := 1; k <= n; k++ {
		for _, t := range trees(k) {
			for v := 0; v < 1<<(k+1); v++ {
				i := 0
				var r func(x *nd, top bool) string
				r = func(x *nd, top bool) string {
					if x == nil {
						s := fmt.Sprintf("tb(%d, %v)", i, v>>i&1 == 1)
						if (i+v)%5 == 4 {
							s = fmt.Sprintf("!tb(%d, %v)", i, v>>i&1 == 0)
						}
						i++
						return s
					}
					s := r(x.l, false) + " " + x.op + " " + r(x.r, false)
					if !top {
						s = "(" + s + ")"
					}
					return s
				}
				e := r(t, true)
				for fi, f := range []string{"print(%s)\n", "if %s {\ntv(50)\n} else {\ntv(51)\n}\n", "x§ := %s\nprint(x§)\n", "i§ := 0\nfor %s {\ni§++\nif i§ > 1 {\nbreak\n}\n}\n"} {
					if fi > 1 && k > 2 {
						continue
					}
					if !y(Item{Pre: tracePre, Body: strings.ReplaceAll(f, "%s", e) + "print(\"cnt\", cnt)\n", Tag: "logic"}) {
						return false
					}
				}
			}
		}
	}
	return true
}

// Chains: if/else-if chains and switches with traced conditions of all truth values and traced bodies that change what the conditions look at.
func Chains(n int, y Yield) bool {
	for k := 1; k <= n; k++ {
		for v := 0; v < 1<<k; v++ {
			// els: 0 no default, 1 at the end, from 2 on in front of a case
			for els := 0; els < 2+k; els++ {
				var a, s, sw strings.Builder
				sw.WriteString("switch {\n")
				fmt.Fprintf(&s, "switch ti(40, %d) {\n", 7)
				for i := 0; i < k; i++ {
					val := v>>i&1 == 1
					if i > 0 {
						a.WriteString("} else ")
					}
					if els == i+2 {
						s.WriteString("default:\ncnt += 50\ntv(30)\n")
						sw.WriteString("default:\ncnt += 50\ntv(30)\n")
					}
					fmt.Fprintf(&a, "if tb(%d, %v) && below() {\ncnt += 100\ntv(%d)\n", i, val, 20+i)
					n := 8
					if val {
						n = 7
					}
					fmt.Fprintf(&s, "case ti(%d, %d):\ncnt += 100\ntv(%d)\n", i, n, 20+i)
					fmt.Fprintf(&sw, "case tb(%d, %v):\ncnt += 100\ntv(%d)\n", i, val, 20+i)
				}
				if els == 1 {
					a.WriteString("} else {\ntv(30)\n")
					s.WriteString("default:\ntv(30)\n")
					sw.WriteString("default:\ntv(30)\n")
				}
				for f, c := range []string{a.String(), s.String(), sw.String()} {
					if f == 0 && els > 1 {
						continue
					}
					for _, w := range evalWraps {
						if !y(Item{Pre: tracePre, Body: strings.ReplaceAll(w, "%s", c+"}\nprint(\"cnt\", cnt)\ncnt = 0\n"), Tag: "chain"}) {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

// EffectGlobals: calls with side effects on globals which other operands do not read before the call.
func EffectGlobals(y Yield) bool {
	pre := tracePre + "g := 1\nh := \"h\"\nl := []int{1, 2, 3}\nfunc bg(n int) int {\ng = g * 10 + n\nprint(\"bg\", g)\nreturn g\n}\nfunc bh(s string) string {\nh += s\nprint(\"bh\", h)\nreturn h\n}\nfunc bl(i int, v int) int {\nl[i] = v\nprint(\"bl\", l[0], l[1], l[2])\nreturn l[i]\n}\n"
	calls := map[string][]string{"i": {"bg(1)", "bg(2)", "bl(0, 5)", "bl(1, bg(3))", "len(bh(\"x\"))"}, "s": {"bh(\"y\")", "itoa(bg(4))"}}
	forms := []string{"print(%i, %i)\n", "print(%i + %i * %i)\n", "x§ := %i - %i\nprint(x§, g, h)\n", "x§, y§ := %i, %i\nprint(x§, y§)\n", "x§ := []int{%i, %i}\nprint(x§[0], x§[1])\n", "if %i > 20 && %i > 5 {\nprint(g)\n} else if %i == 3 {\nprint(h)\n}\n", "print(t3(%i, %s, %i > 3))\n", "for i§ := 0; i§ < 2 && %i > 0; i§++ {\nprint(g, h)\n}\n", "switch %i {\ncase %i:\nprint(g)\ndefault:\nprint(h)\n}\n", "g = %i\nprint(g)\n", "g, h = %i, %s\nprint(g, h)\n", "l[0] = %i\nprint(l[0])\n", "l[%i % 3] = %i\nprint(l[0], l[1], l[2])\n", "func r§() (int, int) {\nreturn %i, %i\n}\nx§, y§ := r§()\nprint(x§, y§, g)\n"}
	for fi, f := range forms {
		var rec func(s string) bool
		rec = func(s string) bool {
			i, j := strings.Index(s, "%i"), strings.Index(s, "%s")
			if i < 0 && j < 0 {
				return y(Item{Pre: pre, Body: "g = 1\nh = \"h\"\n" + s + "print(g, h, l[0], l[1], l[2])\n", Tag: fmt.Sprintf("glob%d", fi)})
			}
			t := "i"
			if i < 0 || j >= 0 && j < i {
				t = "s"
			}
			for _, c := range calls[t] {
				if !rec(strings.Replace(s, "%"+t, c, 1)) {
					return false
				}
			}
			return true
		}
		if !rec(f) {
			return false
		}
	}
	return true
}

// Inputs: prompts are evaluated, lines are consumed in order.
func Inputs(y Yield) bool {
	for _, f := range []string{"x := input()\nprint(x)\n", "x := input(ts(1, \"p\"))\nprint(x)\n", "input(ts(1, \"p\"))\nx := input(ts(2, \"q\") + ts(3, \"r\"))\nprint(x)\n", "print(input(ts(1, \"\")), input(), input(ts(2, \"a\")))\n", "if input() == \"l1\" && input(ts(1, \"x\")) == \"l2\" {\nprint(input())\n}\n", "for i := 0; i < 3; i++ {\nprint(i, input(ts(i, \"p\")))\n}\n",
		"func f(a string, b string) string {\nc := input(ts(3, \"p\"))\nreturn a + b + c\n}\nprint(f(input(), input(ts(1, \"p\"))))\n", "x := []string{input(), input()}\nprint(x[1], x[0])\n", "x, y := input(), input()\nprint(y, x)\n", "input()\nprint(input())\n", "func f() {\ninput(ts(1, \"p\"))\nx := input()\nprint(x + \"|\")\n}\nf()\nprint(input())\n"} {
		if !y(Item{Pre: tracePre, Body: f + "print(cnt)\n", Stdin: []string{"l1", "l2", "l3", "l4"}, Tag: "input"}) {
			return false
		}
	}
	return true
}

// EvalPairs: every ordered pair of statement forms with traced operands, inline and in one function.
func EvalPairs(y Yield) bool {
	fill := func(f string, tr int) string {
		parts := strings.Split(f, "«")
		var b strings.Builder
		b.WriteString(parts[0])
		for _, p := range parts[1:] {
			b.WriteString(strings.Replace(fillers[p[0]][1], "%d", fmt.Sprint(tr), 1))
			tr++
			b.WriteString(p[strings.Index(p, "»")+len("»"):])
		}
		return b.String()
	}
	for i, f := range evalForms {
		for j, g := range evalForms {
			g = strings.ReplaceAll(fill(g, 21), "§", "§b")
			if f := fill(f, 1); !y(Item{Pre: tracePre, Body: f + g + "print(\"cnt\", cnt)\n", Tag: fmt.Sprintf("evp%d-%d", i, j)}) {
				return false
			} else if !strings.Contains(f+g, "func ") && !y(Item{Pre: tracePre, Body: "func w§() {\n" + f + g + "}\nw§()\nprint(\"cnt\", cnt)\n", Tag: fmt.Sprintf("evq%d-%d", i, j)}) {
				return false
			}
		}
	}
	return true
}

// EvalNests: every statement form with traced operands in every context within every context.
func EvalNests(y Yield) bool {
	for i, v := range evalWraps {
		for j, w := range evalWraps {
			if i == 0 || j == 0 || strings.Contains(w, "func ") {
				continue
			}
			w = strings.ReplaceAll(w, "§", "§n")
			for k, f := range evalForms {
				if strings.Contains(f, "func ") {
					continue
				}
				parts := strings.Split(f, "«")
				var b strings.Builder
				b.WriteString(parts[0])
				for n, p := range parts[1:] {
					b.WriteString(strings.Replace(fillers[p[0]][1], "%d", fmt.Sprint(n+1), 1))
					b.WriteString(p[strings.Index(p, "»")+len("»"):])
				}
				if !y(Item{Pre: tracePre, Body: strings.ReplaceAll(v, "%s", strings.ReplaceAll(w, "%s", b.String())) + "print(\"cnt\", cnt)\n", Tag: fmt.Sprintf("evn%d-%d-%d", i, j, k)}) {
					return false
				}
			}
		}
	}
	return true
}

// EvalExits: statements that end the program evaluate their operands first and nothing afterwards.
func EvalExits(y Yield) bool {
	for _, f := range []string{"panic(«s»)\n", "panic(«s» + «s»)\n", "panic(itoa(«i» + «i»))\n", "func die(n int) int {\npanic(itoa(n))\nreturn n\n}\nprint(«i», die(«i»), «i»)\n", "func die(n int) bool {\npanic(«s»)\nreturn true\n}\nif «b» && die(1) && «b» {\nprint(9)\n}\n", "func die(n int) string {\nif n > 1 {\npanic(«s» + itoa(n))\n}\nreturn «s»\n}\nx := []string{«s», die(1), die(«i»), «s»}\nprint(x[0])\n", "for i := 0; lim(i, 3); i++ {\nif i == 1 {\npanic(«s»)\n}\ntv(«i»)\n}\n", "func die() int {\npanic(«s»)\nreturn 1\n}\nswitch «i» {\ncase 9:\ntv(1)\ncase die():\ntv(2)\ncase «i»:\ntv(3)\n}\n", "func die() bool {\npanic(«s»)\nreturn true\n}\nif «b» {\ntv(1)\n} else if die() {\ntv(2)\n}\n"} {
		parts := strings.Split(f, "«")
		var rec func(i int, s string, tr int) bool
		rec = func(i int, s string, tr int) bool {
			if i == len(parts) {
				return y(Item{Pre: tracePre, Body: s + "print(\"end\", cnt)\n", Solo: true, Tag: "exit"})
			}
			for c, fl := range fillers[parts[i][0]] {
				if c > 1 && i > 1 {
					break
				}
				t := tr
				for strings.Contains(fl, "%d") {
					fl = strings.Replace(fl, "%d", fmt.Sprint(t), 1)
					t++
				}
				if !rec(i+1, s+fl+parts[i][strings.Index(parts[i], "»")+len("»"):], t) {
					return false
				}
			}
			return true
		}
		if !rec(1, parts[0], 60) {
			return false
		}
	}
	return true
}
