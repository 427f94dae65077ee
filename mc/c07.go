package main

import (
	"fmt"
	"regexp"
	"strings"

	"verifmc/h"
)

// scomp is a composite statement; every § is a body.
type scomp struct {
	text string
	n    int // bodies
	top  bool
}

var scopeLeaves = []string{"x := 1\n", "var x int\n", "print(x)\n", "x = 2\n", "x++\n", "x, y := 1, 2\n", "print(y)\n", "f()\n", "break\n", "continue\n", "return\n"}
var scopeComps = []scomp{
	{"if true {\n§}\n", 1, false},
	{"if x == 1 {\n§} else {\n§}\n", 2, false},
	{"if true {\n§} else if true {\n§}\n", 2, false},
	{"for {\n§break\n}\n", 1, false},
	{"for x := 0; x < 1; x++ {\n§}\n", 1, false},
	{"for y := 0; x < 1; y++ {\n§}\n", 1, false},
	{"for x, y := range \"ab\" {\n§}\n", 1, false},
	{"for y := range x {\n§}\n", 1, false},
	{"switch 1 {\ncase 1:\n§default:\n§}\n", 2, false},
	{"func f() {\n§}\n", 1, true},
	{"func f(x int) {\n§}\n", 1, true},
	{"func g() int {\n§return 1\n}\n", 1, true},
}

// scopeTrees yields all statement lists with exactly n nodes.
func scopeTrees(leaves []string, comps []scomp, n, depth int, y func(string) bool) bool {
	if n == 0 {
		return y("")
	}
	// first statement takes k nodes
	for _, l := range leaves {
		if !scopeTrees(leaves, comps, n-1, depth, func(r string) bool { return y(l + r) }) {
			return false
		}
	}
	if depth == 0 {
		return true
	}
	for _, c := range comps {
		parts := strings.Split(c.text, "§")
		var fillB func(i, left int, acc string) bool
		fillB = func(i, left int, acc string) bool {
			acc += parts[i]
			if i == c.n {
				return scopeTrees(leaves, comps, left, depth, func(r string) bool { return y(acc + r) })
			}
			for k := 0; k <= left; k++ {
				if !scopeTrees(leaves, comps, k, depth-1, func(b string) bool { return fillB(i+1, left-k, acc+b) }) {
					return false
				}
			}
			return true
		}
		if !fillB(0, n-1, "") {
			return false
		}
	}
	return true
}

// variants of a program: as an imported file, with names that begin in upper case.
func scopeVariants(k *int, y func(tprog) bool) func(tprog) bool {
	return func(p tprog) bool {
		if !y(p) {
			return false
		}
		*k++
		if len(p.files) == 0 && (*k%2 == 0) {
			if !y(tprog{"import m \"m.tsh\"\nvar x, y, i, j, a, b, g, z string\nfunc f() string {\nreturn x\n}\n", map[string]string{"m.tsh": p.main}}) {
				return false
			}
		}
		if *k%2 == 1 {
			return y(tprog{reScopeName.ReplaceAllStringFunc(p.main, strings.ToUpper), p.files})
		}
		return true
	}
}

var reScopeName = regexp.MustCompile(`\b[a-z][0-9]*\b`)

func c07(ctx *h.Ctx) {
	ctx.Assume("left open and not judged: ':=' that mixes new names with names of an outer block, bare return, break inside a switch outside a loop, terminating statements other than return, functions sharing the name of a variable")
	acceptRun(ctx, "block structures, <=3 nodes", func(y func(tprog) bool) {
		k := 0
		y = scopeVariants(&k, y)
		for n := 1; n <= 3; n++ {
			if !scopeTrees(scopeLeaves, scopeComps, n, 3, func(s string) bool { return y(tprog{s, nil}) }) {
				return
			}
		}
	})
	small := []string{"x := 1\n", "print(x)\n", "f()\n"}
	acceptRun(ctx, "block structures, 4 nodes, reduced alphabet", func(y func(tprog) bool) {
		comps := []scomp{scopeComps[1], scopeComps[4], scopeComps[6], scopeComps[8], scopeComps[9], scopeComps[10]}
		scopeTrees(small, comps, 4, 4, func(s string) bool { return y(tprog{s, nil}) })
	})
	acceptRun(ctx, "definition site x use site over two nested constructs", func(y func(tprog) bool) {
		// one definition and one use at every pair of slots of a three-level skeleton
		defs := []string{"z := 1\n", "var z int = 1\n", "q, z := 1, 2\n", "var q, z int\n"}
		uses := []string{"print(z)\n", "z = 3\n", "z += 1\n", "z++\n", "w := z\n", "z := 5\n", "if z == 1 {\n}\n", "for w := range itoa(z) {\n}\n", "print(itoa(z))\n", "@x(z)\n", "f9(z)\n"}
		inner := []string{"if true {\n§}\n", "if true {\n} else {\n§}\n", "if false {\n} else if true {\n§}\n", "for {\n§break\n}\n", "for a := 0; a < 1; a++ {\n§}\n", "for a := range \"s\" {\n§}\n", "for _, a := range \"s\" {\n§}\n", "switch 1 {\ncase 1:\n§}\n", "switch 1 {\ncase 2:\n§default:\n§}\n", "switch {\ndefault:\n§}\n"}
		outer := append([]string{"§", "func h1() {\n§}\nh1()\n", "func h1(b int) int {\n§return b\n}\n"}, inner...)
		for _, o := range outer {
			for _, in := range inner {
				// slots: s0 before, s1 inside outer before inner, s2.. in inner bodies, s3 after inner, s4 after outer
				body := strings.ReplaceAll(in, "§", "¤")
				full := "¤" + strings.Replace(o, "§", "¤"+strings.ReplaceAll(body, "a ", "aa ")+"¤", 1) + "¤"
				full = strings.ReplaceAll(full, "§", "¤")
				parts := strings.Split(full, "¤")
				for d := 0; d < len(parts)-1; d++ {
					for u := 0; u < len(parts)-1; u++ {
						for di, def := range defs {
							for ui, use := range uses {
								if !ctx.Thorough() && di > 0 && ui > 1 {
									continue
								}
								for order := 0; order < 2; order++ {
									if d != u && order == 1 {
										continue
									}
									var b strings.Builder
									b.WriteString("func f9(p int) {\n}\n")
									for i, p := range parts {
										b.WriteString(p)
										if i == len(parts)-1 {
											break
										}
										if i == u && i == d && order == 1 {
											b.WriteString(use + def)
											continue
										}
										if i == d {
											b.WriteString(def)
										}
										if i == u {
											b.WriteString(use)
										}
									}
									if !y(tprog{b.String(), nil}) {
										return
									}
								}
							}
						}
					}
				}
			}
		}
	})
	acceptRun(ctx, "placement of break, continue, return and func", func(y func(tprog) bool) {
		leaf := []string{"break\n", "continue\n", "return\n", "return 1\n", "func k() {\n}\n", "func k() int {\n\treturn 1\n}\n", "import m \"m.tsh\"\n"}
		wraps := []string{"§", "print(0)\n§print(9)\n", "if true {\n§}\n", "if true {\n} else {\n§}\n", "if false {\n} else if true {\n§}\n", "for {\n§break\n}\n", "for i§ := 0; i§ < 1; i§++ {\n§}\n", "for r§ := range \"a\" {\n§}\n", "switch 1 {\ncase 1:\n§}\n", "switch {\ndefault:\n§}\n"}
		tops := []string{"§", "func f() {\n§}\n", "func f() int {\n§return 1\n}\n", "func f() int {\nreturn 1\n}\n§", "for {\nbreak\n}\n§", "func f() {\nfor {\nbreak\n}\n§}\n"}
		depth := pick(ctx, 3, 4)
		var rec func(d int, s string, n int) bool
		rec = func(d int, s string, n int) bool {
			for _, l := range leaf {
				if !y(tprog{strings.Replace(s, "§", l, 1), map[string]string{"m.tsh": "a := 1\n"}}) {
					return false
				}
			}
			if d == 0 {
				return true
			}
			for _, w := range wraps[1:] {
				w = strings.NewReplacer("i§", fmt.Sprint("i", n), "r§", fmt.Sprint("r", n)).Replace(w)
				if !rec(d-1, strings.Replace(s, "§", w, 1), n+1) {
					return false
				}
			}
			return true
		}
		for _, t := range tops {
			if !rec(depth, t, 0) {
				return
			}
		}
	})
	acceptRun(ctx, "end of value-returning functions", func(y func(tprog) bool) {
		stm := []string{"", "return 1\n", "print(1)\n", "if true {\n§}\n", "if true {\n§} else {\n§}\n", "for {\n§}\n", "for {\nbreak\n§}\n", "switch 1 {\ncase 1:\n§}\n", "switch 1 {\ncase 1:\n§default:\n§}\n", "for i := 0; i < 2; i++ {\n§}\n", "panic(\"x\")\n", "x := 1\n"}
		var bodies []string
		for _, a := range stm {
			for _, b := range stm[:3] {
				t := strings.ReplaceAll(a, "§", b)
				bodies = append(bodies, t)
				if !strings.Contains(a, "§") {
					break
				}
			}
		}
		for _, a := range bodies {
			for _, b := range bodies {
				for _, r := range []string{"int", "(int, string)"} {
					t := a + b
					if r != "int" {
						t = strings.ReplaceAll(t, "return 1", "return 1, \"\"")
					}
					if !y(tprog{"func f() " + r + " {\n" + t + "}\n", nil}) || !y(tprog{"func f() " + r + " {\n" + t + "}\nx := 1\nfunc g() {\n}\n", nil}) {
						return
					}
				}
			}
		}
	})
	acceptRun(ctx, "names of functions and parameters", func(y func(tprog) bool) {
		k := 0
		y = scopeVariants(&k, y)
		ns := []string{"a", "b", "g"}
		pre := []string{"", "g := 1\n", "if true {\n\tg := 1\n}\n", "for g := range \"x\" {\n}\n", "func h(g int) {\n}\n"}
		for _, p := range pre {
			for _, x := range ns {
				for _, z := range ns {
					for _, w := range []string{"", "a", "b", "g"} {
						ps := x + " int, " + z + " string"
						if w != "" {
							ps += ", " + w + " bool"
						}
						for _, body := range []string{"", "print(" + x + ")\n", "a := 1\n", "print(g)\n", "g = 2\n", "a = 3\n", "for a := range \"q\" {\n}\n", "if true {\n\tb := 2\n}\n"} {
							for _, after := range []string{"", "a := 1\n", "print(a)\n", "g := 5\n", "func f() {\n}\n"} {
								if !y(tprog{p + "func f(" + ps + ") {\n" + body + "}\n" + after, nil}) {
									return
								}
							}
						}
					}
				}
			}
		}
		// order of functions and calls
		fs := []string{"func f() {\n}\n", "func g() {\n\tf()\n}\n", "f()\n", "g()\n", "func f() {\n\tg()\n}\n", "if true {\n\tf()\n}\n", "func k() {\n\tprint(v)\n}\n", "v := 1\n", "k()\n"}
		for n := 1; n <= pick(ctx, 3, 4); n++ {
			if !allStrings(fs, n, func(s string) bool { return y(tprog{s, nil}) }) {
				return
			}
		}
	})
	c07sizes(ctx)
	acceptRun(ctx, "headers", func(y func(tprog) bool) {
		k := 0
		y = scopeVariants(&k, y)
		pre := []string{"", "i := 0\n", "j := 0\n", "i, j := 0, 0\n"}
		post := []string{"", "print(i)\n", "i := 7\n", "j := 7\n", "for i := 0; i < 1; i++ {\n}\n", "for i, j := range \"a\" {\n}\n"}
		hs := []string{"for i := 0; i < 1; i++ {\n§}\n", "for i = 0; i < 1; i++ {\n§}\n", "for ; i < 1; i++ {\n§}\n", "for i := range \"ab\" {\n§}\n", "for i, j := range \"ab\" {\n§}\n", "for _, i := range \"ab\" {\n§}\n", "for i, i := range \"ab\" {\n§}\n", "for i, _ := range \"ab\" {\n§}\n", "for i := 0; j < 1; i++ {\n§}\n", "for i := 0; i < 1; j++ {\n§}\n", "for i := j; i < 1; i++ {\n§}\n", "for i := i; i < 1; i++ {\n§}\n", "for i := range i {\n§}\n", "for i := range itoa(i) {\n§}\n", "for i, j := 0, 1; i < j; i++ {\n§}\n", "for i, j := 0, i; i < j; i++ {\n§}\n", "for i, j = 0, 1; i < j; i, j = j, i {\n§}\n", "if i := 1; i == 1 {\n§}\n", "switch i {\ncase 1:\n§}\n", "switch 1 {\ncase i:\n§case j:\n§}\n"}
		bodies := []string{"", "print(i)\n", "print(j)\n", "i := 1\n", "var j int\n", "i = 2\n", "k := i\n", "for i := 0; i < 2; i++ {\n}\n", "for k := 0; k < 2; k++ {\n\tprint(i)\n}\n", "for j := range \"q\" {\n}\nprint(j)\n", "if true {\n\tj := 1\n}\nprint(j)\n"}
		for _, p := range pre {
			for _, hd := range hs {
				for _, b := range bodies {
					for _, q := range post {
						t := p + strings.ReplaceAll(hd, "§", b) + q
						if !y(tprog{t, nil}) || !y(tprog{"func ff() {\n" + t + "}\n", nil}) || !y(tprog{p + "func ff() {\n" + strings.ReplaceAll(hd, "§", b) + "}\n" + q, nil}) {
							return
						}
					}
				}
			}
		}
	})
	acceptRun(ctx, "import boundaries", func(y func(tprog) bool) {
		mods := []string{
			"v := 1\nV := 2\nfunc p() int {\n\treturn v\n}\nfunc P() int {\n\treturn p() + v + V\n}\nfunc P2(a int) int {\n\treturn a\n}\n",
			"import n \"n.tsh\"\nfunc P() int {\n\treturn n.P()\n}\nfunc p() int {\n\treturn 1\n}\n",
			"func P() int {\n\treturn g\n}\n", "func P() int {\n\treturn f()\n}\n", "func P() int {\n\treturn m.P()\n}\n", "P2()\nfunc P() int {\n\treturn 1\n}\n", "func P() int {\n\treturn 1\n}\nfunc P() int {\n\treturn 2\n}\n",
			"import m \"m.tsh\"\nfunc P() int {\n\treturn 1\n}\n", "import n \"m.tsh\"\n", "import main \"main.tsh\"\nfunc P() int {\n\treturn 1\n}\n", "import n \"n.tsh\"\nfunc P() int {\n\treturn n.p()\n}\n", "x := 1\nprint(x)\n", "", "func P() int {\n\tx := 1\n\treturn x\n}\nif true {\n\tloc := 1\n}\n", "break\n", "return 1\n",
		}
		uses := []string{"", "print(m.P())\n", "print(m.p())\n", "print(P())\n", "print(p())\n", "print(m.v)\n", "print(m.V)\n", "print(v)\n", "print(V)\n", "print(n.P())\n", "print(m.Q())\n", "m.P()\n", "x := m.P()\nprint(x)\n", "print(m.P(1))\n", "print(m.P2(1))\n", "print(m.P2(m.P()))\n", "func P() int {\n\treturn 3\n}\nprint(P(), m.P())\n", "func p() int {\n\treturn 3\n}\nprint(p())\n", "v := 9\nprint(v)\n", "func q() int {\n\treturn m.P()\n}\nprint(q())\n", "if true {\n\tprint(m.P())\n}\n", "m := 1\nprint(m)\n", "print(x)\n", "print(loc)\n", "x := 2\nprint(x)\n", "m.v = 2\n", "print(m)\n", "print(m.m.P())\n", "func m() {\n}\n"}
		imps := []string{"import m \"m.tsh\"\n", "import (\n\tm \"m.tsh\"\n)\n", "import (\n\tm \"m.tsh\"\n\tn \"n.tsh\"\n)\n", "import (\n\tm \"m.tsh\"\n\tm \"n.tsh\"\n)\n", "import (\n\tm \"m.tsh\"\n\tk \"m.tsh\"\n)\n", "import \"m.tsh\"\n", "import n \"n.tsh\"\n", "", "g := 1\nimport m \"m.tsh\"\n", "import m \"m.tsh\"\nimport n \"n.tsh\"\n", "import m \"none.tsh\"\n"}
		for _, md := range mods {
			for _, im := range imps {
				for _, u := range uses {
					for _, g := range []string{"", "g := 4\nfunc f() int {\n\treturn 2\n}\n"} {
						if strings.HasPrefix(u, "m := ") || strings.HasPrefix(u, "func m") {
							continue // alias and variable of the same name
						}
						n := "func P() int {\n\treturn 5\n}\nfunc p() int {\n\treturn 6\n}\n"
						if !y(tprog{im + g + u, map[string]string{"m.tsh": md, "n.tsh": n}}) {
							return
						}
					}
				}
			}
		}
	})
	if ctx.Thorough() {
		acceptRun(ctx, "block structures, 5 nodes, reduced alphabet", func(y func(tprog) bool) {
			comps := []scomp{scopeComps[0], scopeComps[4], scopeComps[9], scopeComps[10]}
			scopeTrees(small, comps, 5, 4, func(s string) bool { return y(tprog{s, nil}) })
		})
		acceptRun(ctx, "block structures, 4 nodes", func(y func(tprog) bool) {
			scopeTrees(scopeLeaves[:9], scopeComps, 4, 3, func(s string) bool { return y(tprog{s, nil}) })
		})
	}
}
