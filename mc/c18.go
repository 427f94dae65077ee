package main

import (
	"fmt"
	"strconv"
	"strings"

	"verifmc/h"
)

var argAlphabet = []string{"", " ", "a b", "*", "$HOME", "\"", "\\", "-n", "\n", "'", "`touch canary`", "a;b"}

const argFuncs = `func id(s string) string {
return s
}
func two(a string, b string) string {
o, e, c := @probe(a, b, a + b)
return "{" + o + e + itoa(c) + "}"
}
`

// argForms are the ways to write a string argument; the first result is emitted before the call.
var argForms = []struct {
	name string
	f    func(v, u string) (string, string)
}{
	{"literal", func(v, u string) (string, string) { return "", strconv.Quote(v) }},
	{"variable", func(v, u string) (string, string) { return "v" + u + " := " + strconv.Quote(v) + "\n", "v" + u }},
	{"concat", func(v, u string) (string, string) {
		k := len(v) / 2
		return "v" + u + " := " + strconv.Quote(v[:k]) + "\n", "v" + u + " + " + strconv.Quote(v[k:])
	}},
	{"element", func(v, u string) (string, string) {
		return "v" + u + " := []string{\"k\", " + strconv.Quote(v) + "}\n", "v" + u + "[1]"
	}},
	{"call", func(v, u string) (string, string) { return "", "id(" + strconv.Quote(v) + ")" }},
	{"substring", func(v, u string) (string, string) {
		return "v" + u + " := " + strconv.Quote("x"+v+"y") + "\n", fmt.Sprintf("v%s[1:%d]", u, len(v)+1)
	}},
	{"group", func(v, u string) (string, string) { return "", "(" + strconv.Quote(v) + ")" }},
	{"file", func(v, u string) (string, string) {
		return "write(\"f" + u + "\", " + strconv.Quote(v) + ")\n", "read(\"f" + u + "\")"
	}},
	{"captured", func(v, u string) (string, string) {
		return "v" + u + ", e" + u + ", c" + u + " := @emit(" + strconv.Quote(v+"\n") + ")\nprint(e" + u + ", c" + u + ")\n", "v" + u
	}},
}

func vecName(v []string) string { return fmt.Sprintf("%q", v) }

// argPack builds a program calling the probe with every vector.
func argPack(vecs [][]string, ctxName string, form int) string {
	var b strings.Builder
	for k, vec := range vecs {
		pre := ""
		var as []string
		for i, v := range vec {
			p, a := argForms[form].f(v, fmt.Sprintf("%dx%d", k, i))
			pre += p
			as = append(as, a)
		}
		args := strings.Join(as, ", ")
		b.WriteString(pre)
		switch ctxName {
		case "call":
			fmt.Fprintf(&b, "@probe(%s)\n", args)
		case "capture":
			fmt.Fprintf(&b, "o%d, e%d, s%d := @probe(%s)\nprint(\"[\" + o%d + \"]\", e%d, s%d)\n", k, k, k, args, k, k, k)
		case "piped":
			fmt.Fprintf(&b, "@probe(%s) | @tag(\"1\")\n", args)
		case "second":
			fmt.Fprintf(&b, "@emit(\"x\") | @probe(%s)\n", args)
		}
	}
	return b.String()
}

// packed groups vectors into programs.
func packed(n int, ctxName string, inFunc bool, form int, vecs func(y func([]string) bool) bool, y func(sysCase) bool) bool {
	var cur [][]string
	flush := func() bool {
		if len(cur) == 0 {
			return true
		}
		t := argPack(cur, ctxName, form)
		if inFunc {
			t = "func run() {\n" + t + "}\nrun()\nrun()\n"
		}
		t = argFuncs + t + "print(\"end\")\n"
		cur = nil
		return y(sysCase{Name: ctxName + "-" + argForms[form].name, Text: t, Files: withBait(nil)})
	}
	ok := vecs(func(v []string) bool {
		cur = append(cur, append([]string{}, v...))
		if len(cur) == n {
			return flush()
		}
		return true
	})
	return ok && flush()
}

func tuples(al []string, n int, y func([]string) bool) bool {
	cur := make([]string, n)
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == n {
			return y(cur)
		}
		for _, a := range al {
			cur[i] = a
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	return rec(0)
}

func c18(ctx *h.Ctx) {
	ctx.Assume("programs are found through PATH or by a path; the exit status of a script ending with an uncaptured program call and the standard error result are left open")
	single, pairs, payload := opaqueContents(ctx)
	values := append(append([]string{}, payload...), single...)
	if ctx.Thorough() {
		values = append(values, pairs...)
	}
	ctxs := []string{"call", "capture", "piped", "second"}
	both(ctx, "argument vectors over the critical alphabet", func(y func(sysCase) bool) {
		n := pick(ctx, 3, 4)
		for k := 0; k <= n; k++ {
			for _, c := range ctxs {
				for _, inf := range []bool{false, true} {
					for _, form := range []int{0, 1} {
						if !packed(24, c, inf, form, func(y2 func([]string) bool) bool { return tuples(argAlphabet, k, y2) }, y) {
							return
						}
					}
				}
			}
		}
		small := []string{"", " ", "*", "a"}
		for k := n + 1; k <= 5; k++ {
			for _, c := range ctxs {
				if !packed(24, c, k%2 == 0, 1, func(y2 func([]string) bool) bool { return tuples(small[:pick(ctx, 3, 4)], k, y2) }, y) {
					return
				}
			}
		}
	})
	both(ctx, "every value at every position", func(y func(sysCase) bool) {
		for n := 1; n <= 5; n++ {
			for pos := 0; pos < n; pos++ {
				if !ctx.Thorough() && n > 2 && pos != n-1 && pos != 1 {
					continue
				}
				form := (n + pos) % 2
				if !packed(24, ctxs[(n*2+pos)%len(ctxs)], (n+pos)%3 == 0, form, func(y2 func([]string) bool) bool {
					for _, v := range values {
						vec := strings.Split(strings.Repeat("m ", n)[:2*n-1], " ")
						vec[pos] = v
						if !y2(vec) {
							return false
						}
					}
					return true
				}, y) {
					return
				}
			}
		}
	})
	both(ctx, "every value x every form", func(y func(sysCase) bool) {
		for f := range argForms {
			for i, c := range ctxs {
				if !ctx.Thorough() && i != f%4 && i != (f+1)%4 {
					continue
				}
				if !packed(16, c, (i+f)%2 == 0, f, func(y2 func([]string) bool) bool {
					for _, v := range payload {
						if !y2([]string{v}) || !y2([]string{v, "", v}) {
							return false
						}
					}
					return true
				}, y) {
					return
				}
			}
		}
	})
	both(ctx, "parameters, elements, loop variables", func(y func(sysCase) bool) {
		for _, v := range values {
			L := strconv.Quote(v)
			t := argFuncs + "print(two(" + L + ", \"\"))\nprint(two(\"\", " + L + "))\nprint(two(" + L + ", " + L + "))\n" +
				"for i, s := range []string{" + L + ", \"\", " + L + "} {\n@probe(s, itoa(i), s + s)\no, e, c := @probe(itoa(i), s) | @tag(s)\nprint(o, e, c)\n}\n"
			if !y(sysCase{Name: "params", Text: t, Files: withBait(nil)}) {
				return
			}
		}
	})
	both(ctx, "numbers of arguments", func(y func(sysCase) bool) {
		for n := 0; n <= pick(ctx, 14, 40); n++ {
			var a []string
			for i := 0; i < n; i++ {
				a = append(a, strconv.Quote(strings.Repeat(" ", i%2)+strconv.Itoa(i)))
			}
			as := strings.Join(a, ", ")
			t := fmt.Sprintf("@probe(%s)\no, e, c := @probe(%s) | @tag(%q)\nprint(o, e, c)\nfunc f() string {\np, q, r := @probe(%s)\nreturn p + q + itoa(r)\n}\nprint(f())\n", as, as, "t", as)
			if !y(sysCase{Name: "count", Text: t, Files: withBait(nil)}) {
				return
			}
		}
		for _, n := range []int{1000, 100000} {
			s := strings.Repeat("x y", n/3)
			if !y(sysCase{Name: "long", Text: "s := " + strconv.Quote(s) + "\n@probe(s, s)\no, e, c := @emit(s) | @bytes()\nprint(o, c)\n", Files: withBait(nil)}) {
				return
			}
		}
	})
	both(ctx, "program names", func(y func(sysCase) bool) {
		files := withBait(map[string]string{"run": markScript, "d/run": markScript, "d e/r un": markScript, "d/a*": markScript, "-d/r": markScript, "$x/r": markScript, "a'b/r\"": markScript})
		names := append([]string{}, oddNames...)
		names = append(names, "probe", "my probe", "pro$be", "pro*e", "p;q", "p'\"q", "./run", "d/run", "d/../run", "./d/run", "d e/r un", "./d e/r un", "d/a*", "./-d/r", "$x/r", "a'b/r\"")
		for _, n := range names {
			Ls := []string{strconv.Quote(n)}
			if !strings.Contains(n, "`") {
				Ls = append(Ls, "`"+n+"`")
			}
			if isIdentName(n) {
				Ls = append(Ls, n)
			}
			for _, N := range Ls {
				for _, body := range []string{
					"@%N()\n@%N(\"a\")\n@%N(\"a b\", \"\")\n",
					"o, e, c := @%N(\"*\", \"\")\nprint(\"[\" + o + \"]\", e, c)\n",
					"@%N(\"1\") | @tag(\"t \")\n@emit(\"x\\n\") | @%N(\"2\")\n@emit(\"x\\n\") | @%N() | @tag(\"*\")\n@%N() | @%N() | @%N(\"3\")\n",
					"@est(\"x\", \"0\") | @%N(\"2\")\n@est(\"x\", \"0\") | @tag(\"a\") | @%N(\"b\") | @%N() | @tag(\"c\") | @%N(\"3 4\")\no, e, c := @est(\"x\", \"0\") | @%N(\"2\") | @%N(\"\", \"5\") | @%N(\"6\")\nprint(o, e, c)\n",
					"o, e, c := @emit(\"y\") | @%N(\" \")\nprint(o, e, c)\no, e, c = @%N(\"z\") | @tag(\"\")\nprint(o, e, c)\n",
				} {
					body = strings.ReplaceAll(body, "%N", N)
					// functions and variables with the same names must not matter
					for _, pre := range []string{"", "func f(s string) string {\nprint(\"f\")\nreturn s\n}\nfunc probe(s string) {\nprint(\"own\")\n}\nx := f(\"1\")\nprobe(x)\ny := []string{x}\ny[2] = \"q\"\nvar w []string\nprint(copy(w, y), x[0:1])\n"} {
						for _, fn := range []bool{false, true} {
							t := pre + body
							if fn {
								t = pre + "func run() {\n" + body + "}\nrun()\n"
							}
							if !y(sysCase{Name: "name", Text: t + "print(\"end\")\n", Files: files}) {
								return
							}
						}
					}
				}
			}
		}
	})
	both(ctx, "pipelines", func(y func(sysCase) bool) {
		first := []string{`@emit("")`, `@emit("l1\nl2\n")`, `@probe("a b", "")`, `@est("e", "3")`, `@st("4")`, `@cat("aa")`}
		next := []string{`@tag("")`, `@tag("> ")`, `@tagst("*", "7")`, `@bytes()`, `@cat()`, `@emit("drop")`, `@st("5")`, `@st("0")`, `@probe("")`}
		var chains []string
		chains = append(chains, first...)
		for _, f := range first {
			for _, n := range next {
				chains = append(chains, f+" | "+n)
				for _, m := range next {
					chains = append(chains, f+" | "+n+" | "+m)
					if ctx.Thorough() {
						for _, k := range next {
							chains = append(chains, f+" | "+n+" | "+m+" | "+k)
						}
					}
				}
			}
		}
		// longer chains: all chains of four and five over few programs, ordered chains of every length
		some := []string{`@tag("1")`, `@tag("2")`, `@tagst("3", "7")`, `@bytes()`}
		for _, f := range first[1:pick(ctx, 3, 5)] {
			tuples(some, 3, func(v []string) bool {
				chains = append(chains, f+" | "+strings.Join(v, " | "))
				return true
			})
			tuples(some[:pick(ctx, 2, 4)], 4, func(v []string) bool {
				chains = append(chains, f+" | "+strings.Join(v, " | "))
				return true
			})
		}
		for n := 3; n <= pick(ctx, 10, 24); n++ {
			mk := func(at int, x string) string {
				ch := `@emit("a\n")`
				for i := 0; i < n; i++ {
					if i == at {
						ch += " | " + x
					} else {
						ch += fmt.Sprintf(` | @tag("%d ")`, i)
					}
				}
				return ch
			}
			chains = append(chains, mk(-1, ""))
			for at := 0; at < n; at++ {
				chains = append(chains, mk(at, `@tagst("", "9")`), mk(at, `@emit("new\n")`))
			}
		}
		for lo := 0; lo < len(chains); lo += 6 {
			hi := lo + 6
			if hi > len(chains) {
				hi = len(chains)
			}
			var a, b, c strings.Builder
			for k, ch := range chains[lo:hi] {
				fmt.Fprintf(&a, "print(%d)\n%s\n", k, ch)
				fmt.Fprintf(&b, "o%d, e%d, c%d := %s\nprint(%d, \"[\" + o%d + \"]\", e%d, c%d)\n", k, k, k, ch, k, k, k, k)
				if k == 0 {
					c.WriteString("var o, e string\nvar c int\n")
				}
				fmt.Fprintf(&c, "o, e, c = %s\nif c == 0 {\nprint(\"ok\", o, e)\n} else {\nprint(\"not ok\", c, o == \"\")\n%s\n}\n", ch, ch)
			}
			for _, t := range []string{a.String(), b.String(), c.String()} {
				if !y(sysCase{Name: "pipe", Text: t + "print(\"end\")\n", Files: withBait(nil)}) || !y(sysCase{Name: "pipe-func", Text: "func run() int {\n" + t + "return 1\n}\nprint(run())\n", Files: withBait(nil)}) {
					return
				}
			}
		}
	})
	both(ctx, "exit statuses", func(y func(sysCase) bool) {
		for n := 0; n < 256; n++ {
			m := (n * 7) % 256
			t := fmt.Sprintf(`func f(s string) int {
o, e, c := @est("", s)
return c
}
o, e, c := @st("%d")
print("[" + o + e + "]", c, c == %d)
o, e, c = @est("out", "%d")
print(o, c)
o, e, c = @st("%d") | @tagst("x", "%d")
print(o, c)
o, e, c = @est("q", "%d") | @tagst("x", "%d") | @st("%d")
print(o, c)
print(f("%d"))
@st("%d")
o, e, c = @emit("")
print(c)
switch f("%d") {
case 0:
print("zero")
case %d:
print("same")
default:
print("default")
}
`, n, n, n, m, n, n, m, n, n, n, n, n)
			if !y(sysCase{Name: "status", Text: t, Files: withBait(nil)}) {
				return
			}
		}
	})
	both(ctx, "captured output", func(y func(sysCase) bool) {
		outs := append([]string{"", "_", "__", "a_", "_\n", "a\n_", "\n_", "_\n\n", "a\n", "a\n\n", "a\n\n\n", "\n", "\n\n", "\n\n\n", " \n", "a\n\nb", "a\nb\n\n", "\ta\t\n", "\n a", "0", "-n", "-e x\\ty"}, values...)
		for _, v := range outs {
			L := strconv.Quote(v)
			t := argFuncs + "func cap(s string) (string, int) {\no, e, c := @emit(s)\nreturn o, c\n}\nv := " + L + "\no, e, c := @emit(" + L + ")\nprint(\"[\" + o + \"]\", len(o), e, c)\nvar p, q string\nvar r int\np, q, r = @emit(v)\nprint(p == o, q, r)\n@emit(o)\nprint(\"|\")\nx, y := cap(v)\nprint(\"[\" + x + \"]\", y)\nfor i := 0; i < 2; i++ {\no, e, c = @emit(o) | @cat()\nprint(\"[\" + o + \"]\")\n}\nwrite(\"out\", o)\n"
			if !y(sysCase{Name: "output", Text: t, Files: withBait(nil)}) {
				return
			}
		}
	})
	both(ctx, "runs and placements", func(y func(sysCase) bool) {
		for _, call := range []string{`@logrun(ID)`, `o§, e§, c§ := @logrun(ID)`, `o§, e§, c§ := @logrun(ID)` + "\nprint(o§, c§)"} {
			k := 0
			at := func(id string) string {
				k++
				return strings.ReplaceAll(strings.ReplaceAll(call, "ID", id), "§", strconv.Itoa(k)) + "\n"
			}
			L := func(s string) string { return at(strconv.Quote(s)) }
			for _, b := range []string{"true", "false"} {
				for _, t := range []string{
					"if " + b + " {\n" + L("then") + "} else {\n" + L("else") + "}\n",
					"if !" + b + " {\n" + L("if") + "} else if " + b + " {\n" + L("elif") + "} else {\n" + L("else") + "}\n",
					"for i := 0; i < 3; i++ {\nif i == 1 && " + b + " {\ncontinue\n}\n" + at("itoa(i)") + "}\n",
					"for i, s := range []string{\"p\", \"q\"} {\n" + at("s + itoa(i)") + "if " + b + " {\nbreak\n}\n}\n",
					"switch " + b + " {\ncase true:\n" + L("t") + "default:\n" + L("d") + "}\n",
					"func f(s string) string {\n" + at("s") + "return s + \"'\"\n}\nfunc g(s string) string {\n" + at("s") + "return f(s) + f(\"g\")\n}\nprint(g(\"1\") + f(\"2\"))\nif " + b + " {\nprint(f(g(\"3\")))\n}\n",
					"func f(s string) string {\nprint(\"arg\", s)\nreturn s\n}\n" + at("f(\"1\") + f(\"2\")"),
					L("1") + L("2") + L("1") + "x := " + b + "\nprint(x)\n",
				} {
					for _, fn := range []bool{false, true} {
						if fn && strings.Contains(t, "func ") {
							continue
						}
						if fn {
							t = "func run() {\n" + t + "}\nrun()\nrun()\n"
						}
						if !y(sysCase{Name: "runs", Text: t + "print(\"end\")\n", Files: withBait(nil)}) {
							return
						}
					}
				}
			}
		}
		// arguments are evaluated left to right, once, over the whole chain
		tr := "func t(s string) string {\nprint(\"t\" + s)\nreturn s\n}\nvar n int\nfunc up() string {\nn++\nreturn itoa(n)\n}\n"
		for _, c := range []string{`@probe(t("1"), t("2"), t("3"))`, `@emit(t("1")) | @tag(t("2"))`, `@probe(up(), up()) | @tag(up()) | @tagst(up(), up())`, `@probe(t(up()), up() + t("x"))`} {
			for _, t := range []string{c + "\n", "o, e, c := " + c + "\nprint(o, e, c)\n", "for i := 0; i < 2; i++ {\n" + c + "\n}\n", "func f() int {\no, e, c := " + c + "\nprint(o, e)\nreturn c\n}\nprint(f() + f())\n"} {
				if !y(sysCase{Name: "args-order", Text: tr + t + "print(n)\n", Files: withBait(nil)}) {
					return
				}
			}
		}
	})
	// recorded in KNOWN_FINDINGS.txt: these characters are not written for the C runtime's rules
	rules := func(y func(sysCase) bool) {
		for _, v := range []string{`"`, `a "b" c`, `a b\`, `\`} {
			k := strings.NewReplacer(`"`, "q", `\`, "b", " ", "_").Replace(v)
			y(sysCase{Key: "batch-literal-" + k, Name: "runtime-literal", Text: "@probe(" + strconv.Quote(v) + ", \"x\")\n"})
			y(sysCase{Key: "batch-variable-" + k, Name: "runtime-variable", Text: "v := " + strconv.Quote(v) + "\n@probe(v, \"x\")\n"})
		}
	}
	sysRun(ctx, "quotes and final backslashes", rules)
	if ctx.Prop == "C18" {
		batSys(ctx, "Batch: quotes and final backslashes", rules)
	}
	c18sizes(ctx)
}

func isIdentName(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	switch s {
	case "if", "for", "func", "var", "switch", "case", "default", "break", "continue", "return", "range", "else", "import", "print", "len", "copy", "read", "write", "exists", "input", "itoa", "panic", "nil", "true", "false", "const":
		return false
	}
	return s != ""
}
