package main

import (
	"fmt"
	"path/filepath"
	"strings"
	"sync/atomic"

	"github.com/monstermichl/typeshell/lexer"
	"verifmc/h"
)

func textJob(s string) wjob {
	return wjob{Files: map[string][]byte{"main.tsh": []byte(s)}, Main: "main.tsh", Tgts: targets}
}

// judge applies the totality predicate.
func judge(j wjob, a wans, death string) string {
	if death != "" {
		return death
	}
	for i := range j.Tgts {
		switch {
		case a.Panic[i] != "":
			return j.Tgts[i] + ": panic: " + a.Panic[i]
		case a.NoErr[i] && a.Bytes[i] == 0:
			return j.Tgts[i] + ": neither script nor error"
		case !a.NoErr[i] && a.Bytes[i] > 0:
			return j.Tgts[i] + ": both script and error"
		case !a.NoErr[i] && strings.TrimSpace(a.Err[i]) == "":
			return j.Tgts[i] + ": empty error"
		}
	}
	return ""
}

func totalRun(ctx *h.Ctx, part string, g func(y func(wjob) bool)) {
	if ctx.Stop() {
		ctx.Part(part, 0, false)
		return
	}
	gen := func(y func([]wjob) bool) {
		var b []wjob
		ok := true
		g(func(j wjob) bool {
			b = append(b, j)
			if len(b) == 32 {
				ok = y(b)
				b = nil
			}
			return ok
		})
		if ok && len(b) > 0 {
			y(b)
		}
	}
	var deaths int32
	ns := make([][3]int64, 64)
	workers := make([]*worker, 64)
	_, c := h.Parallel(ctx, gen, func(w int) func([]wjob) {
		workers[w] = newWorker(filepath.Join(ctx.Scratch, fmt.Sprintf("%s-%d", key(part), w)))
		return func(l []wjob) {
			for _, j := range l {
				if atomic.LoadInt32(&deaths) >= 3 {
					return // every hang costs a minute
				}
				ns[w][0]++
				a, death := workers[w].do(j, 60)
				ctx.AddStates(1, len(j.Tgts), len(j.Tgts))
				if death == "" {
					if a.NoErr[0] {
						ns[w][1]++
					} else {
						ns[w][2]++
					}
				}
				if death != "" {
					atomic.AddInt32(&deaths, 1)
				}
				what := judge(j, a, death)
				if what == "" {
					continue
				}
				files := map[string]string{}
				k := j.Main
				for n, b := range j.Files {
					files[n] = string(b)
					k += n + string(b)
				}
				j := j
				ctx.Report(h.Violation{Key: key(k), What: fmt.Sprintf("[%s] %s: %q", part, what, cut(string(j.Files["main.tsh"]), 200)), Files: files,
					Recheck: func() bool {
						nw := newWorker(filepath.Join(ctx.Scratch, fmt.Sprintf("re-%s-%d", key(part), w)))
						defer nw.stop()
						a, death := nw.do(j, 60)
						return judge(j, a, death) != ""
					}})
			}
		}
	})
	var n, acc, rej int64
	for i := range ns {
		n += ns[i][0]
		acc += ns[i][1]
		rej += ns[i][2]
		if workers[i] != nil {
			workers[i].stop()
		}
	}
	ctx.Part(part, n, c)
	ctx.Extra("accepted/rejected: "+part, fmt.Sprintf("%d/%d", acc, rej))
}

var totBytes = []string{"a", "1", "\"", "`", "\\", "\n", "\r", "\t", " ", "/", "*", "(", ")", "[", "]", "{", "}", "=", ":", ";", ",", ".", "@", "|", "&", "!", "-", "+", "<", "$", "#", "'", "\x00", "\xff", "\xc3", "é", "\x1b", "_", "%", "~"}

var totTokens = []string{"(", ")", "[", "]", "{", "}", "==", "<", "&&", "+=", "=", ":=", "++", "!", "+", "-", ",", ":", ";", ".", "@", "|", "\n",
	"import", "var", "func", "return", "if", "else", "switch", "case", "default", "for", "range", "break", "continue", "nil",
	"len", "print", "input", "copy", "itoa", "exists", "read", "write", "panic", "int", "string", "true", "x", "y", "0", "-1", "\"s\""}

// totEdit is used where every position of a program is edited.
var totEdit = []string{"(", ")", "[", "]", "{", "}", "==", "&&", "=", ":=", "++", "!", "-", ",", ":", ";", ".", "@", "|", "\n",
	"var", "func", "return", "if", "else", "case", "for", "range", "break", "nil", "len", "copy", "string", "true", "x", "-1", "\"s\""}
var totFew = []string{"(", ")", "]", "}", "{", ",", "=", ":=", "!", ".", "\n", "nil", "-1", "\"s\"", "x", "@"}

const totPre = "s := []int{1}\nb := true\nt := \"q\"\nfunc v() {\n}\nfunc m() (int, int) {\n\treturn 1, 2\n}\nfunc n(i int) []int {\n\treturn []int{i}\n}\n"

// expression fragments and the statement contexts they are put into
var totExpr = []string{"s", "b", "t", "v()", "m()", "n(1)", "nil", "1", "-1", "\"s\"", "true", "[]int{}", "@x()", "len(t)", "copy(s, s)", "input()", "read(t)", "write(t, t)", "exists(t)", "itoa(1)", "panic(t)", "print(1)",
	"(", ")", "[", "]", "+", "==", "<", "&&", "!", ",", "|", ":", ".", "{", "}", "s[0]", "t[0]", "n(1)[0]", "undefined", "v", "n(m())", "[]"}
var totCtx = []string{"x := %s\n", "var x int = %s\n", "%s\n", "print(%s)\n", "if %s {\n\tprint(1)\n}\n", "for %s {\n\tbreak\n}\n", "switch %s {\ncase 1:\n\tprint(1)\n}\n", "switch 1 {\ncase %s:\n\tprint(1)\n}\n", "s[%s] = 1\n", "s[0] = %s\n", "func q() int {\n\treturn %s\n}\n", "func q() {\n\treturn %s\n}\nq()\n",
	"for i, w := range %s {\n\tprint(i, w)\n}\n", "@x(%s)\n", "p, q := %s\n", "p, q, r := %s\n", "t += %s\n", "s = %s\n", "n(%s)\n", "w := []int{%s}\n", "w := t[%s]\n", "w := (%s)\n", "for i := 0; i < 1; %s {\n}\n", "for i := %s; i < 1; i++ {\n}\n", "write(%s)\n", "copy(%s)\n", "len(%s)\n", "panic(%s)\n", "var z %s\n", "func q(%s) {\n}\n", "func q() %s {\n}\n"}

func c13(ctx *h.Ctx) {
	ctx.Assume("a single small input may take at most 60 s of CPU time; the worker's stack is limited to 512 MB")
	totalRun(ctx, "byte strings", func(y func(wjob) bool) {
		if !y(textJob("")) {
			return
		}
		for i := 0; i < 256; i++ {
			if !y(textJob(string([]byte{byte(i)}))) {
				return
			}
			for k := 0; k < 256; k++ {
				if (ctx.Thorough() || i < 128 && k >= 32 && k < 128) && !y(textJob(string([]byte{byte(i), byte(k)}))) {
					return
				}
			}
		}
		for n := 3; n <= pick(ctx, 3, 4); n++ {
			al := totBytes
			if n == 4 {
				al = al[:28]
			}
			if !allStrings(al, n, func(s string) bool { return y(textJob(s)) }) {
				return
			}
		}
	})
	totalRun(ctx, "token sequences", func(y func(wjob) bool) {
		for n := 1; n <= pick(ctx, 2, 3); n++ {
			if !allStrings(sp(totTokens), n, func(s string) bool { return y(textJob(s)) }) {
				return
			}
		}
		if !ctx.Thorough() {
			allStrings(sp(totEdit), 3, func(s string) bool { return y(textJob(s)) })
			return
		}
		allStrings(sp(totFew), 4, func(s string) bool { return y(textJob(s)) })
	})
	totalRun(ctx, "token sequences as imported file", func(y func(wjob) bool) {
		al := sp(totEdit)
		for n := 0; n <= 2; n++ {
			if !allStrings(al, n, func(s string) bool {
				return y(wjob{Files: map[string][]byte{"main.tsh": []byte("import a \"a.tsh\"\nprint(1)\n"), "a.tsh": []byte(s)}, Main: "main.tsh", Tgts: targets[:1]})
			}) {
				return
			}
		}
	})
	totalRun(ctx, "expression fragments in every statement context", func(y func(wjob) bool) {
		max := pick(ctx, 1, 2)
		for _, c := range totCtx {
			for n := 0; n <= max+1; n++ {
				al := sp(totExpr)
				if n == max+1 {
					if ctx.Thorough() {
						al = sp([]string{"s", "b", "t", "v()", "m()", "nil", "1", "(", ")", "[", "]", "+", "!", ",", "|"})
					} else {
						al = sp([]string{"s", "t", "v()", "m()", "nil", "1", "(", ")", "[", "]", "+", "==", "!", ",", "|", ":", "{", "}"})
					}
				}
				if !allStrings(al, n, func(s string) bool { return y(textJob(totPre + strings.Replace(c, "%s", s, 1))) }) {
					return
				}
			}
		}
	})
	totalRun(ctx, "single edits of the corpus", func(y func(wjob) bool) {
		for _, p := range corpus {
			if !tokenEdits(p, pick(ctx, 0, 1), func(s string) bool { return y(progJob(p, s)) }) {
				return
			}
		}
	})
	totalRun(ctx, "truncations of the corpus", func(y func(wjob) bool) {
		for _, p := range corpus {
			for i := 0; i <= len(p.Main); i++ {
				if !y(progJob(p, p.Main[:i])) || i%3 == 0 && !y(progJob(p, p.Main[i:])) {
					return
				}
			}
		}
	})
	totalRun(ctx, "import graphs", func(y func(wjob) bool) {
		importGraphs(pick(ctx, 3, 4), y)
	})
	totalRun(ctx, "missing and unusual files", func(y func(wjob) bool) {
		body := "import a \"%s\"\nprint(1)\n"
		for _, path := range []string{"missing.tsh", "dir", "dir/", ".", "..", "/", "", " ", "a.tsh/", "./a.tsh", "dir/../a.tsh", "/dev/null", "strings", "strings.tsh", "os", "nope", "\\x00", "main.tsh", "./main.tsh", "a", "*.tsh", "a\\nb", "link.tsh", "~/x.tsh", strings.Repeat("x", 300), strings.Repeat("d/", 3000)} {
			for _, alias := range []string{"a", "", "_", "strings", "if"} {
				s := strings.Replace(strings.Replace(body, "%s", path, 1), "import a", "import "+alias, 1)
				j := wjob{Files: map[string][]byte{"main.tsh": []byte(s), "a.tsh": []byte("b := 1\n")}, Dirs: []string{"dir"}, Main: "main.tsh", Tgts: targets}
				if !y(j) {
					return
				}
				j.Files["main.tsh"] = []byte("import (\n\t" + alias + " \"" + path + "\"\n\tb \"" + path + "\"\n)\n")
				if !y(j) {
					return
				}
			}
		}
		for _, m := range []string{"", "/", ".", "..", "/nope/x", "/dev/null", "\x00", strings.Repeat("y", 5000), "relative.tsh"} {
			if !y(wjob{Main: m, Raw: true, Tgts: targets}) {
				return
			}
		}
		for _, m := range []string{"dir", "none.tsh", "dir/x", "main.tsh/", "main.tsh/x"} {
			if !y(wjob{Files: map[string][]byte{"main.tsh": []byte("a := 1\n")}, Dirs: []string{"dir"}, Main: m, Tgts: targets}) {
				return
			}
		}
	})
	totalRun(ctx, "growing inputs", func(y func(wjob) bool) { growth(ctx, y) })
	if ctx.Thorough() {
		totalRun(ctx, "double edits of small programs", func(y func(wjob) bool) {
			for _, p := range corpus {
				if len(p.Main) > 70 {
					continue
				}
				if !tokenEdits(p, 0, func(s string) bool {
					return tokenEdits(Prog{Main: s, Files: p.Files}, -1, func(s string) bool { return y(progJob(p, s)) })
				}) {
					return
				}
			}
		})
	}
}

// sp appends a blank to every element, except to line ends.
func sp(l []string) []string {
	var o []string
	for _, s := range l {
		if s != "\n" {
			s += " "
		}
		o = append(o, s)
	}
	return o
}

func progJob(p Prog, s string) wjob {
	j := textJob(s)
	for n, b := range p.Files {
		j.Files[n] = []byte(b)
	}
	if len(s) > 120 || len(p.Files) > 0 {
		j.Tgts = targets[len(s)%2 : len(s)%2+1] // one target, alternating
	}
	return j
}

// tokenEdits yields all single-token edits; wide selects the alphabet.
func tokenEdits(p Prog, wide int, y func(string) bool) bool {
	ts, _, _ := refTokens(p.Main)
	al := totFew
	if wide > 0 {
		al = totEdit
	} else if wide < 0 {
		al = totFew[:4]
	}
	s := p.Main
	for i, t := range ts {
		if !y(s[:t.off]+s[t.end:]) || !y(s[:t.end]+" "+s[t.off:t.end]+s[t.end:]) {
			return false
		}
		if i+1 < len(ts) {
			n := ts[i+1]
			if !y(s[:t.off] + s[n.off:n.end] + s[t.end:n.off] + s[t.off:t.end] + s[n.end:]) {
				return false
			}
		}
		for _, a := range al {
			if !y(s[:t.off]+a+s[t.end:]) || !y(s[:t.off]+a+" "+s[t.off:]) {
				return false
			}
		}
	}
	return true
}

// importGraphs yields every directed graph over n files in several styles.
func importGraphs(n int, y func(wjob) bool) bool {
	names := []string{"main.tsh", "a.tsh", "sub/b.tsh", "c.tsh"}[:n]
	rel := func(from, to string) string {
		r, _ := filepath.Rel(filepath.Dir(from), to)
		return r
	}
	for g := 0; g < 1<<(n*n); g++ {
		for style := 0; style < 2; style++ {
			if n == 4 && style == 1 {
				continue
			}
			fs := map[string][]byte{}
			for i, f := range names {
				var b strings.Builder
				var use []string
				if style == 1 {
					b.WriteString("import (\n")
				}
				k := 0
				for t := range names {
					if g>>(i*n+t)&1 == 1 {
						if style == 0 && k > 0 {
							// several single imports are not possible; use a group
						}
						if style == 0 && k == 0 {
							b.WriteString("import (\n")
						}
						fmt.Fprintf(&b, "\tm%d \"%s\"\n", t, rel(f, names[t]))
						use = append(use, fmt.Sprintf("m%d", t))
						k++
					}
				}
				if k > 0 || style == 1 {
					b.WriteString(")\n")
				}
				b.WriteString("func F() int {\n\tr := 1\n")
				for _, u := range use {
					fmt.Fprintf(&b, "\tr += %s.F()\n", u)
				}
				b.WriteString("\treturn r\n}\n")
				if i == 0 || style == 1 {
					b.WriteString("print(F())\n")
				}
				fs[f] = []byte(b.String())
			}
			if !y(wjob{Files: fs, Main: "main.tsh", Tgts: targets[g%2 : g%2+1]}) {
				return false
			}
		}
	}
	return true
}

// growth yields families of growing inputs.
func growth(ctx *h.Ctx, y func(wjob) bool) {
	rep := strings.Repeat
	sizes := []int{1, 10, 100, 1000, 5000}
	if ctx.Thorough() {
		sizes = append(sizes, 10001, 20000)
	}
	fam := []func(n int) string{
		func(n int) string { return "x := " + rep("(", n) + "1" + rep(")", n) + "\n" },
		func(n int) string { return "x := " + rep("(", n) },
		func(n int) string { return "x := 1" + rep(")", n) },
		func(n int) string { return "x := " + rep("!", n) + "true\n" },
		func(n int) string { return "x := " + rep("[", n) },
		func(n int) string { return "x := " + rep("[]", n) + "int{}\n" },
		func(n int) string { return "x := " + rep("[]int{", n) + rep("}", n) + "\n" },
		func(n int) string { return rep("{", n) },
		func(n int) string { return rep("}", n) },
		func(n int) string { return rep("if true {\n", n) + rep("}\n", n) },
		func(n int) string { return rep("for {\n", n) + rep("}\n", n) },
		func(n int) string { return rep("for i := range \"a\" {\n", n) + rep("}\n", n) },
		func(n int) string { return rep("switch 1 {\ncase 1:\n", n) + rep("}\n", n) },
		func(n int) string { return "if true {\n}" + rep(" else if true {\n}", n) + "\n" },
		func(n int) string { return "x := 1" + rep(" + 1", n) + "\n" },
		func(n int) string { return "x := true" + rep(" && true", n) + "\n" },
		func(n int) string { return "x := true" + rep(" || true && false", n) + "\n" },
		func(n int) string { return "x := 1" + rep(" == 1", n) + "\n" },
		func(n int) string { return "x := \"a\"" + rep(" + \"a\"", n) + "\n" },
		func(n int) string { return "x := \"a\"\ny := x" + rep("[0]", n) + "\n" },
		func(n int) string { return "x := " + rep("len(", n) + "\"a\"" + rep(")", n) + "\n" },
		func(n int) string { return "x := " + rep("itoa(", n) + "1" + rep(")", n) + "\n" },
		func(n int) string {
			return "func f(a int) int {\n\treturn a\n}\nx := " + rep("f(", n) + "1" + rep(")", n) + "\n"
		},
		func(n int) string { return "s := []int{0}\nx := " + rep("s[", n) + "0" + rep("]", n) + "\n" },
		func(n int) string { return "@a()" + rep(" | @a()", n) + "\n" },
		func(n int) string { return "print(1" + rep(", 1", n) + ")\n" },
		func(n int) string { return "x := []int{1" + rep(", 1", n) + "}\n" },
		func(n int) string { return rep("print(1)\n", n) },
		func(n int) string { return rep("\n", n) },
		func(n int) string { return rep("/* ", n) },
		func(n int) string { return rep("/* */", n) },
		func(n int) string { return rep("// x\n", n) },
		func(n int) string { return "\"" + rep("\\n", n) },
		func(n int) string { return "x := \"" + rep("a", n) + "\"\n" },
		func(n int) string { return rep("9", n) + "\n" },
		func(n int) string { return "x := " + rep("9", n) + "\n" },
		func(n int) string { return rep("a", n) + " := 1\n" },
		func(n int) string { return "a" + rep(", a", n) + " := 1\n" },
		func(n int) string { return rep("- ", n) + "1\n" },
		func(n int) string { return rep("import ", n) },
		func(n int) string { return rep(".", n) + rep("@", n) },
		func(n int) string { return "\xef\xbb\xbf" + rep("\x00", n) },
	}
	for _, f := range fam {
		for _, n := range sizes {
			if n >= 5000 {
				// one target is enough for the largest
				j := textJob(f(n))
				j.Tgts = targets[:1]
				if !y(j) {
					return
				}
				continue
			}
			if !y(textJob(f(n))) {
				return
			}
		}
	}
	// nesting that only ends where the input does
	for _, s := range []string{"x := " + rep("itoa(", 100000), "x := " + rep("(", 300000), "s := []int{0}\nx := " + rep("s[", 150000)} {
		j := textJob(s)
		j.Tgts = targets[:1]
		if !y(j) {
			return
		}
	}
	// constructs within each other, every pair alternating; whole, cut off and with a wrong core
	pre := "func f(a int) int {\n\treturn a\n}\nfunc g(a int, b int) int {\n\treturn a\n}\nfunc m(a int) (int, int) {\n\treturn a, a\n}\ns := []int{0}\nt := \"q\"\nb := true\n"
	wrap := []string{"(%s)", "f(%s)", "g(%s, 1)", "g(1, %s)", "s[%s]", "len(itoa(%s))", "%s + 1", "1 - %s", "1 * (%s)", "len(t[0:%s])", "len([]int{%s})", "[]int{1, %s}[0]", "copy(s, []int{%s})"}
	cond := []string{"(%s)", "!(%s)", "!%s", "%s && b", "b || %s", "(%s) == b", "b != (%s)", "f(1) == 1 && (%s)", "exists(t) || (%s)"}
	stmt := []string{"if b {\n%s}\n", "if b {\n} else {\n%s}\n", "if b {\n} else if b {\n%s} else {\n}\n", "for b {\n%s}\n", "for i§ := 0; i§ < 1; i§++ {\n%s}\n", "for i§, v§ := range s {\n%s}\n", "switch 1 {\ncase 1:\n%s}\n", "switch {\ncase b:\n%sdefault:\n%s}\n", "switch t {\ndefault:\n%s}\n", "{\n%s}\n", "func q() {\n%s}\n"}
	deep := []int{7, 33}
	if ctx.Thorough() {
		deep = append(deep, 90)
	}
	nest := func(ws []string, tmpl string, cores []string) bool {
		for _, a := range ws {
			for _, c := range ws {
				for _, n := range deep {
					for _, core := range cores {
						s := core
						for i := 0; i < n; i++ {
							w := []string{a, c}[i%2]
							if strings.Count(w, "%s") > 1 {
								w = strings.Replace(w, "%s", "print(1)\n", 1)
							}
							s = strings.Replace(strings.ReplaceAll(w, "§", fmt.Sprint(i)), "%s", s, 1)
						}
						s = pre + strings.Replace(tmpl, "%s", s, 1)
						if !y(textJob(s)) {
							return false
						}
						if k := strings.Index(s, core); k > 0 {
							if cut := s[:k+len(core)]; !y(textJob(cut)) || !y(textJob(cut+"\n")) {
								return false
							}
						}
					}
				}
			}
		}
		return true
	}
	if !nest(wrap, "x := %s\n", []string{"7", "undefined7", "\"w7\"", "m(7)"}) || !nest(cond, "x := %s\n", []string{"true", "7 7"}) || !nest(stmt, "%s", []string{"print(7)\n", "print(7 7)\n", "break\n", "x7 := m(7)\n"}) {
		return
	}
	// names of every kind and length, with capitals at the end, the start and throughout
	for _, n := range []int{1, 2, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 150, 199, 200, 201, 250, 254, 255, 256, 257, 300, 400, 511, 512, 513, 1000, 1024, 2000} {
		for _, a := range []string{rep("n", n) + "Q", "Q" + rep("n", n), rep("nQ", n/2+1), rep("_", n) + "q", rep("q1", n/2+1), rep("q", n) + "Q" + rep("q", 10)} {
			up := "F" + a
			m := strings.ReplaceAll("§ := 1\nfunc f§(p§ int, §q string) (int, string) {\n\tl§ := §\n\tl§ += p§\n\treturn l§, §q\n}\nx§, y§ := f§(§, \"s\")\nfor i§, v§ := range []int{§} {\n\tprint(i§, v§)\n}\ns§ := []string{y§}\ns§[x§] = y§\n", "§", a)
			lib := strings.ReplaceAll("v§ := 1\nfunc §(p§ int) int {\n\treturn p§ + v§\n}\n", "§", up)
			if !y(textJob(m)) || !y(textJob(m+"undefined()\n")) || !y(wjob{Main: "main.tsh", Tgts: targets, Files: map[string][]byte{"main.tsh": []byte("import m" + a + " \"lib.tsh\"\n" + m + "print(m" + a + "." + up + "(1))\n"), "lib.tsh": []byte(lib)}}) {
				return
			}
			if f := a + ".tsh"; !y(wjob{Main: "main.tsh", Tgts: targets, Files: map[string][]byte{"main.tsh": []byte("import m \"" + f + "\"\nprint(m.F(1))\n")}}) {
				return // a file of that name is missing, or the name is too long
			} else if len(f) < 256 && !y(wjob{Main: "main.tsh", Tgts: targets, Files: map[string][]byte{"main.tsh": []byte("import m \"" + f + "\"\nprint(m.F(1))\n"), f: []byte("func F(a int) int {\n\treturn a\n}\n")}}) {
				return
			}
		}
	}
	for _, k := range sizedKinds {
		for _, n := range []int{130, 200, 255, 256, 257, 300, 511, 512, 513} {
			if k == "strings" && n > 257 {
				continue
			}
			p := sizedProg(k, n)
			j := progJob(p, p.Main)
			if !y(j) {
				return
			}
		}
	}
	// many definitions; unused-function removal over dense call graphs
	for _, n := range []int{10, 25, 60, 120} {
		var b, c, d strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "v%d := %d\n", i, i)
			fmt.Fprintf(&c, "func f%d() int {\n\tr := 1\n", i)
			for k := i - 2; k < i; k++ {
				if k >= 0 {
					fmt.Fprintf(&c, "\tr += f%d()\n", k)
				}
			}
			c.WriteString("\treturn r\n}\n")
			fmt.Fprintf(&d, "func f%d() int {\n\tr := 1\n", i)
			for k := 0; k < i; k++ {
				fmt.Fprintf(&d, "\tr += f%d()\n", k)
			}
			d.WriteString("\treturn r\n}\n")
		}
		for _, s := range []string{b.String(), c.String() + fmt.Sprintf("print(f%d())\n", n-1), c.String(), d.String() + fmt.Sprintf("print(f%d())\n", n-1)} {
			if !y(textJob(s)) {
				return
			}
		}
	}
	// chains and ladders of imports: file i imports i+1 and i+2
	for _, n := range []int{2, 5, 12, 30} {
		for _, step := range []int{1, 2, 3} {
			fs := map[string][]byte{}
			for i := 0; i < n; i++ {
				var b strings.Builder
				b.WriteString("import (\n")
				k := 0
				for d := 1; d <= step; d++ {
					if i+d < n {
						fmt.Fprintf(&b, "\tm%d \"f%d.tsh\"\n", d, i+d)
						k++
					}
				}
				s := b.String() + ")\n"
				if k == 0 {
					s = ""
				}
				s += "func F() int {\n\tr := 1\n"
				for d := 1; d <= k; d++ {
					s += fmt.Sprintf("\tr += m%d.F()\n", d)
				}
				s += "\treturn r\n}\n"
				nm := fmt.Sprintf("f%d.tsh", i)
				if i == 0 {
					nm = "main.tsh"
					s += "print(F())\n"
				}
				fs[nm] = []byte(s)
			}
			if !y(wjob{Files: fs, Main: "main.tsh", Tgts: targets}) {
				return
			}
		}
	}
}

var _ = lexer.EOF
