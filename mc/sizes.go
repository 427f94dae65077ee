package main

import (
	"fmt"
	"strings"

	"verifmc/h"
)

// Size and depth sweeps of the accept/reject properties: one defect at every
// place of lists of every length, and at every depth of every kind of nest.

var nestKinds = []string{"if", "else", "elif", "ever", "for3", "range", "case", "default", "case2", "while"}

// nestWrap is one level of a nest; l makes its names unique.
func nestWrap(kind string, l int, body string) string {
	switch kind {
	case "if":
		return "if true {\n" + body + "}\n"
	case "else":
		return "if false {\n} else {\n" + body + "}\n"
	case "elif":
		return "if false {\n} else if true {\n" + body + "}\n"
	case "ever":
		return "for {\n" + body + "break\n}\n"
	case "for3":
		return fmt.Sprintf("for n%d := 0; n%d < 1; n%d++ {\n", l, l, l) + body + "}\n"
	case "range":
		return fmt.Sprintf("for n%d, c%d := range \"a\" {\n", l, l) + body + "}\n"
	case "case":
		return "switch 1 {\ncase 1:\n" + body + "}\n"
	case "default":
		return "switch {\ndefault:\n" + body + "}\n"
	case "case2":
		return "switch true {\ncase false:\ncase true:\n" + body + "default:\n}\n"
	}
	return "for false {\n" + body + "}\n"
}

// nestText wraps d levels; kinds are taken in rotation from the list.
func nestText(kinds []string, rot, d int, body string) string {
	for l := d - 1; l >= 0; l-- {
		body = nestWrap(kinds[(l+rot)%len(kinds)], l, body)
	}
	return body
}

func nestForms() [][]string {
	fs := [][]string{nestKinds}
	for _, k := range nestKinds {
		fs = append(fs, []string{k})
	}
	return append(fs, []string{"if", "for3"}, []string{"case2", "else"}, []string{"range", "elif", "ever"})
}

var bodyCtx = []string{"%s", "func ctx() {\n%s}\nctx()\n", "func ctx(pp int) int {\n%sreturn pp\n}\npp := ctx(1)\n"}

func c06sizes(ctx *h.Ctx) {
	maxD := pick(ctx, 10, 24)
	acceptRun(ctx, "positions at every depth", func(y func(tprog) bool) {
		for k, p := range typePositions() {
			if p.top {
				continue
			}
			for d := 3; d <= pick(ctx, 8, 12); d++ {
				for oi, o := range []string{"i", "s", "b", "xs"} {
					if !ctx.Thorough() && (oi+d+k)%2 == 1 {
						continue
					}
					if !y(typeItem(strings.Replace(bodyCtx[(k+d+oi)%3], "%s", nestText(nestKinds, k, d, fill(p.tmpl, o)), 1))) {
						return
					}
				}
			}
		}
	})
	core := []string{"z := 1 + %s\n", "z := b && %s\n", "i = %s\n", "s += %s\n", "z, w := i, s\nz, w = %s, s\n", "if %s {\n}\n", "if b {\n} else if %s {\n}\n", "for %s {\nbreak\n}\n", "for q := 0; %s; q++ {\nbreak\n}\n", "for q := %s; q < 1; q++ {\n}\n", "switch i {\ncase %s:\n}\n", "xs[%s] = 1\n", "ss[0] = %s\n", "z := s[%s]\n", "z := []string{s, %s}\n", "gi(%s)\n", "z := gs(%s)\n", "print(itoa(%s))\n", "z := len(%s)\n", "for q := range %s {\n}\n", "z := !%s\n", "panic(s + %s)\n", "write(s, %s)\n", "var z int = %s\n", "z := copy(xs, %s)\n", "g2(i, %s)\n", "z, w := %s\n"}
	acceptRun(ctx, "core positions in nests of every kind", func(y func(tprog) bool) {
		for fi, f := range nestForms() {
			for d := 1; d <= maxD; d++ {
				if !ctx.Thorough() && fi > 0 && d > 4 && d%2 == 1 {
					continue
				}
				for k, c := range core {
					for oi, o := range []string{"i", "s", "b", "xs", "fv()", "f2()"} {
						if !ctx.Thorough() && (oi+k+d+fi)%3 != 0 {
							continue
						}
						if !y(typeItem(strings.Replace(bodyCtx[(k+d+oi+fi)%3], "%s", nestText(f, k, d, fill(c, o)), 1))) {
							return
						}
					}
				}
				for _, r := range [][2]string{{"int", "1"}, {"string", "s"}, {"[]int", "xs"}, {"(int, bool)", "1, b"}} {
					for _, o := range []string{"i", "s", "xs", "i, b", "b, i", "i, b, i", "fv()", "f2()"} {
						if !y(typeItem("func rr() " + r[0] + " {\n" + nestText(f, d, d, "return "+o+"\n") + "return " + r[1] + "\n}\nrr()\n")) {
							return
						}
					}
				}
				if !y(typeItem("func rr() {\n" + nestText(f, d, d, "return 1\n") + "}\nrr()\n")) {
					return
				}
			}
		}
	})
	acceptRun(ctx, "one element of lists of every length differs", func(y func(tprog) bool) {
		good := map[string][]string{"int": {"1", "i", "fi()"}, "bool": {"true", "b", "(i == 1)"}, "string": {"\"s\"", "s", "fs()"}}
		bad := map[string][]string{"int": {"s", "true", "xs"}, "bool": {"i", "\"s\"", "bs"}, "string": {"1", "b", "ss"}}
		type lst struct{ ty, open, sep, end string }
		ls := []lst{{"int", "z := ", " + ", "\n"}, {"int", "z := ", " * ", "\n"}, {"string", "s = ", " + ", "\n"}, {"bool", "z := ", " && ", "\n"}, {"bool", "z := ", " || ", "\n"}, {"bool", "if ", " || ", " {\n}\n"}, {"bool", "for ", " && ", " {\nbreak\n}\n"},
			{"int", "z := []int{", ", ", "}\n"}, {"string", "z := []string{", ", ", "}\n"}, {"bool", "z := []bool{", ", ", "}\n"}, {"int", "switch i {\ncase ", ":\ncase ", ":\ndefault:\n}\n"}, {"string", "switch s {\ncase ", ":\ni = 1\ncase ", ":\n}\n"}, {"bool", "switch {\ncase ", ":\ncase ", ":\n}\n"},
			{"bool", "if ", " {\n} else if ", " {\n}\n"}, {"bool", "if ", " {\ni = 1\n} else if ", " {\ni = 2\n} else {\n}\n"}, {"int", "i = ", "\ni = ", "\n"}, {"string", "gs(", ")\ngs(", ")\n"}, {"int", "print(itoa(", "), itoa(", "))\n"}, {"string", "print(len(", "), len(", "))\n"}, {"int", "z := gi(gi(", "))\nxs[0] = gi(gi(", "))\n"}, {"int", "func q() {\nvar z int = ", "\n}\nfunc qNN() {\nvar z int = ", "\n}\n"}}
		lens := []int{}
		for n := 5; n <= pick(ctx, 20, 40); n++ {
			lens = append(lens, n)
		}
		lens = append(lens, 33, 64, 130)
		for _, l := range ls {
			for _, n := range lens {
				for at := 0; at <= n; at++ { // at n: no defect
					if at < n && n > 20 && !ctx.Thorough() && at > 1 && at < n-2 && at != n/2 {
						continue
					}
					var b strings.Builder
					b.WriteString(l.open)
					for k := 0; k < n; k++ {
						if k > 0 {
							b.WriteString(strings.ReplaceAll(l.sep, "NN", fmt.Sprint(k)))
						}
						switch {
						case k == at:
							b.WriteString(bad[l.ty][(n+at)%3])
						default:
							b.WriteString(good[l.ty][k%3])
						}
					}
					b.WriteString(l.end)
					if !y(typeItem(b.String())) {
						return
					}
				}
			}
		}
		// places with a type of their own
		tys := []string{"int", "string", "bool"}
		for _, n := range lens {
			for at := 0; at <= n+2; at++ { // n: no defect; n+1: one missing; n+2: one too many
				if at < n && n > 20 && !ctx.Thorough() && at > 1 && at < n-2 && at != n/2 {
					continue
				}
				var ts, ps, vs, bs, ns, ws, ds []string
				for k := 0; k < n; k++ {
					t := tys[(k+n)%3]
					ts, ps = append(ts, t), append(ps, fmt.Sprintf("p%d %s", k, t))
					vs, ns = append(vs, good[t][k%3]), append(ns, fmt.Sprintf("n%d", k))
					ws = append(ws, fmt.Sprintf("n%d", k))
					ds = append(ds, fmt.Sprintf("var n%d %s\n", k, t))
					if k == at {
						bs = append(bs, bad[t][n%3])
					} else {
						bs = append(bs, good[t][k%3])
					}
				}
				switch at {
				case n + 1:
					bs = bs[:n-1]
				case n + 2:
					bs = append(bs, "i")
					ws = append(ws, "i")
				}
				gd, bd, nm, def := strings.Join(vs, ", "), strings.Join(bs, ", "), strings.Join(ns, ", "), strings.Join(ds, "")
				rt := "(" + strings.Join(ts, ", ") + ")"
				same := func(one, odd string) string {
					var l []string
					for k := range bs {
						if k == at {
							l = append(l, odd)
						} else {
							l = append(l, one)
						}
					}
					return strings.Join(l, ", ")
				}
				for _, s := range []string{
					"func f(" + strings.Join(ps, ", ") + ") int {\nreturn 1\n}\nz := f(" + bd + ")\n",
					"func f(" + strings.Join(ps, ", ") + ") {\n}\nfor {\nf(" + bd + ")\nbreak\n}\n",
					"func f() " + rt + " {\nreturn " + bd + "\n}\nf()\n",
					"func f() " + rt + " {\nif b {\nfor i < 2 {\nreturn " + bd + "\n}\n}\nreturn " + gd + "\n}\nf()\n",
					def + nm + " = " + bd + "\n",
					nm + " := " + bd + "\n",
					"var " + nm + " int = " + same("1", "s") + "\n", "var " + nm + " string = " + same("s", "b") + "\n", "var " + nm + " = " + bd + "\n",
					"var " + nm + " int\n" + nm + " = " + same("i", "s") + "\n",
					"func f() " + rt + " {\nreturn " + gd + "\n}\n" + strings.Join(ws, ", ") + " := f()\n",
					"func f() " + rt + " {\nreturn " + gd + "\n}\n" + def + strings.Join(bs, ", ")[:0] + strings.Join(ws, ", ") + " = f()\n",
					"print(" + same("i", "f2()") + ")\n", "print(" + same("s", "fv()") + ")\n", "@x(" + same("s", "fv()") + ")\n", "@x(" + same("s", "f2()") + ")\n", "z := []int{" + same("i", "f2i()") + "}\n", "func v(" + strings.ReplaceAll(same("q", "q"), "q", "q") + ") {\n}\n",
				} {
					if !y(typeItem(s)) {
						return
					}
				}
				if at < n {
					// the variable of that place has the type of that place afterwards
					for _, s := range []string{"func f() " + rt + " {\nreturn " + gd + "\n}\n" + nm + " := f()\n", nm + " := " + gd + "\n", "var " + nm + " = " + gd + "\n"} {
						for _, u := range []string{bad[tys[(at+n)%3]][n%3], good[tys[(at+n)%3]][0]} {
							if !y(typeItem(s + fmt.Sprintf("n%d = %s\n", at, u))) {
								return
							}
						}
					}
				}
			}
		}
	})
}

// c07sizes: scopes of every depth, lists of every length.
func c07sizes(ctx *h.Ctx) {
	maxD := pick(ctx, 9, 16)
	acceptRun(ctx, "definition and use at every pair of depths", func(y func(tprog) bool) {
		defs := []string{"z := 1\n", "var z int\n", "q, z := 1, 2\n"}
		uses := []string{"print(z)\n", "z = 3\n", "z++\n", "z := 5\n", "var z string\n", "for z := 0; z < 1; z++ {\n}\n", "for z := range \"a\" {\n}\n", "for k, z := range \"a\" {\n}\n", "w, z := 1, 2\n", "print(f9(z))\n"}
		for fi, f := range nestForms() {
			for d := 3; d <= maxD; d++ {
				if !ctx.Thorough() && fi > 0 && d != 4 && d != maxD {
					continue
				}
				for i := 0; i <= d; i++ {
					for j := 0; j <= d; j++ {
						for side := 0; side < 3; side++ { // use before the inner block, after it, in a second nest
							for k, use := range uses {
								def := defs[(i+j+k)%3]
								if !ctx.Thorough() && fi > 0 && (i+j+k+side)%4 != 0 {
									continue
								}
								if strings.HasPrefix(use, "w, z") && i != j {
									continue // := that mixes new and outer names is left open
								}
								body := ""
								for l := d; l >= 0; l-- {
									pre, post := "", ""
									if l == i {
										pre += def
									}
									if l == j && side == 0 {
										pre += use
									}
									if l == j && side == 1 {
										post = use
									}
									body = pre + body + post
									if l > 0 {
										body = nestWrap(f[(l-1)%len(f)], l-1, body)
									}
								}
								if side == 2 {
									body += strings.ReplaceAll(nestText(f, 1, j, use), "n0", "m0")
								}
								if !y(tprog{"func f9(p int) int {\nreturn p\n}\n" + strings.Replace(bodyCtx[(i+j+k)%3], "%s", body, 1), nil}) {
									return
								}
							}
						}
					}
				}
			}
		}
	})
	acceptRun(ctx, "misplaced statements at every depth", func(y func(tprog) bool) {
		plain := [][]string{{"if"}, {"else"}, {"elif"}, {"case"}, {"default"}, {"case2"}, {"if", "case2", "else", "default", "elif", "case"}}
		loops := []string{"", "ever", "for3", "range", "while"}
		for _, f := range plain {
			for _, lp := range loops {
				for d := 1; d <= maxD; d++ {
					for at := 0; at < d; at++ {
						if lp == "" && at > 0 {
							continue
						}
						for _, st := range []string{"break\n", "continue\n", "return\n", "return 1\n", "func k() {\n}\n", "func k() int {\nreturn 1\n}\n"} {
							for where := 0; where < 2; where++ { // innermost, or behind the loop on the level that holds it
								body := ""
								if where == 0 {
									body = st
								} else if lp == "" {
									continue
								}
								for l := d - 1; l >= 0; l-- {
									k := f[l%len(f)]
									if lp != "" && l == at {
										k = lp
									}
									body = nestWrap(k, l, body)
									if where == 1 && l == at {
										body += st
									}
								}
								for _, c := range bodyCtx {
									if !y(tprog{strings.Replace(c, "%s", body, 1), nil}) {
										return
									}
								}
							}
						}
					}
				}
			}
		}
	})
	acceptRun(ctx, "equal names at every pair of places", func(y func(tprog) bool) {
		vk := 0
		y = scopeVariants(&vk, y)
		var lens []int
		for n := 2; n <= pick(ctx, 12, 24); n++ {
			lens = append(lens, n)
		}
		lens = append(lens, 40)
		for _, n := range lens {
			for i := 0; i < n; i++ {
				for j := i; j < n; j++ { // i == j: no duplicate
					if i == j && i > 0 {
						continue
					}
					if n > 12 && !ctx.Thorough() && (i > 1 && i < n-2 || j > i+1 && j < n-2) {
						continue
					}
					name := func(k int) string {
						if k == j {
							k = i
						}
						return fmt.Sprintf("n%d", k)
					}
					var ps, ns, vs, bl, ims, fs, vd, us, mods []string
					files := map[string]string{}
					for k := 0; k < n; k++ {
						ps, ns, vs = append(ps, name(k)+" "+[]string{"int", "string"}[k%2]), append(ns, name(k)), append(vs, fmt.Sprint(k))
						bl = append(bl, "_")
						ims = append(ims, fmt.Sprintf("%s \"m%d.tsh\"\n", name(k), k))
						mods = append(mods, fmt.Sprintf("n%d.F()\n", k))
						files[fmt.Sprintf("m%d.tsh", k)] = fmt.Sprintf("func F() int {\nreturn %d\n}\n", k)
						fs = append(fs, "func "+name(k)+"() {\n}\n")
						vd = append(vd, "var "+name(k)+" int\n")
						us = append(us, fmt.Sprintf("n%d()\n", k))
					}
					for _, t := range []string{
						"func f(" + strings.Join(ps, ", ") + ") {\nprint(n0)\n}\n", strings.Join(ns, ", ") + " := " + strings.Join(vs, ", ") + "\n", "var " + strings.Join(ns, ", ") + " int\n", "var " + strings.Join(ns, ", ") + " = " + strings.Join(vs, ", ") + "\n",
						"func f() {\n" + strings.Join(ns, ", ") + " := " + strings.Join(vs, ", ") + "\n}\nf()\n", "for " + strings.Join(ns, ", ") + " := " + strings.Join(vs, ", ") + "; n0 < 1; n0++ {\n}\n",
						strings.Join(fs, ""), strings.Join(vd, ""), "func f() {\n" + strings.Join(vd, "") + "}\nf()\n", "if true {\n" + strings.Join(vd, "") + "}\n", "func f(" + name(i) + " int) {\n" + strings.Join(vd[max(i, 1):], "") + "}\n",
						"func f(p " + "int) {\n}\n" + strings.Join(fs, "") + "func g() {\n" + strings.Join(us[:j], "") + "}\n",
					} {
						if !y(tprog{t, nil}) {
							return
						}
					}
					if n <= 12 && !y(tprog{"import (\n" + strings.Join(ims, "") + ")\n" + strings.Join(mods[:j], ""), files}) {
						return
					}
					// assignments to the same name twice are fine; already defined names in :=
					if !y(tprog{strings.Join(vd[:j], "") + strings.Join(ns[:max(j, 1)], ", ") + " = " + strings.Join(vs[:max(j, 1)], ", ") + "\n", nil}) || !y(tprog{strings.Join(vd[:i], "") + strings.Join(ns, ", ") + " := " + strings.Join(vs, ", ") + "\n", nil}) ||
						!y(tprog{strings.Join(ns[:j], ", ") + "\n", nil}) || !y(tprog{strings.Join(vd, "") + strings.Join(ns, ", ") + " := " + strings.Join(vs, ", ") + "\n", nil}) {
						return
					}
				}
			}
			// the k-th use is not defined yet
			for k := 0; k <= n; k++ {
				var b, g strings.Builder
				for q := 0; q < n; q++ {
					if q == k {
						fmt.Fprintf(&b, "print(u%d)\nf%d()\n", q, q)
					}
					fmt.Fprintf(&b, "u%d := %d\nfunc f%d() {\nprint(u%d)\n}\nf%d()\nprint(u%d)\n", q, q, q, q, q, q/2)
				}
				g.WriteString("func f() int {\n")
				for q := 0; q < n; q++ {
					if q == k {
						fmt.Fprintf(&g, "print(u%d)\n", q)
					}
					fmt.Fprintf(&g, "u%d := %d\nfor u%d > 9 {\nv := u%d\nu%d -= v\n}\n", q, q, q, q/2, q)
				}
				g.WriteString("return 1\n}\nprint(f())\n")
				if !y(tprog{b.String(), nil}) || !y(tprog{g.String(), nil}) {
					return
				}
			}
		}
	})
}
