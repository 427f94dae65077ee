package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"

	"verifmc/h"
	"verifmc/ref"
)

// typeDefs are the definitions an item may need, in order.
var typeDefs = []struct{ name, text string }{
	{"i", "i := 1\n"}, {"b", "b := true\n"}, {"s", "s := \"s\"\n"},
	{"xs", "xs := []int{1}\n"}, {"bs", "bs := []bool{true}\n"}, {"ss", "ss := []string{\"a\"}\n"}, {"e", "var e error\n"},
	{"fi", "func fi() int {\n\treturn 1\n}\n"}, {"fb", "func fb() bool {\n\treturn true\n}\n"}, {"fs", "func fs() string {\n\treturn \"\"\n}\n"},
	{"fe", "func fe() error {\n\treturn nil\n}\n"},
	{"fxs", "func fxs() []int {\n\treturn []int{}\n}\n"}, {"fbs", "func fbs() []bool {\n\treturn []bool{}\n}\n"}, {"fss", "func fss() []string {\n\treturn []string{}\n}\n"},
	{"fv", "func fv() {\n}\n"}, {"f2", "func f2() (int, string) {\n\treturn 1, \"\"\n}\n"}, {"f2i", "func f2i() (int, int) {\n\treturn 1, 2\n}\n"}, {"f3", "func f3() (string, string, int) {\n\treturn \"\", \"\", 1\n}\n"},
	{"gi", "func gi(p int) int {\n\treturn p\n}\n"}, {"gb", "func gb(p bool) {\n}\n"}, {"gs", "func gs(p string) string {\n\treturn p\n}\n"}, {"ge", "func ge(p error) {\n}\n"},
	{"gxs", "func gxs(p []int) {\n}\n"}, {"gbs", "func gbs(p []bool) {\n}\n"}, {"gss", "func gss(p []string) []string {\n\treturn p\n}\n"},
	{"g2", "func g2(p int, q string) int {\n\treturn p\n}\n"}, {"g3", "func g3(p string, q bool, r []int) {\n}\n"}, {"ii", "func ii(p int, q int) int {\n\treturn p\n}\n"},
}

// typeModule is imported as m where an item mentions it.
const typeModule = "func I(p int) int {\n\treturn p\n}\nfunc B(p bool) bool {\n\treturn p\n}\nfunc S(p string) string {\n\treturn p\n}\nfunc X(p []int) []int {\n\treturn p\n}\nfunc V() {\n}\nfunc T() (int, string) {\n\treturn 1, \"\"\n}\nfunc hidden() int {\n\treturn 1\n}\n"

// offered expressions; wide ones are only used in the main contexts.
var offered = []string{"1", "i", "true", "b", "\"s\"", "s", "e", "nil", "xs", "bs", "ss", "fv()", "f2()", "@x(\"a\")"}
var offeredWide = []string{
	"-1", "i + 1", "(i)", "fi()", "xs[0]", "len(s)", "len(xs)", "copy(xs, xs)", "gi(i)", "i % 2 * 3",
	"false", "i == 1", "i < 2", "fb()", "bs[0]", "!b", "b && b", "(b || fb())", "exists(s)", "s == s", "e != nil", "(i) == (1)",
	"`r`", "s + \"x\"", "fs()", "fe()", "ss[0]", "s[0]", "s[0:1]", "s[1:]", "itoa(1)", "input()", "input(s)", "read(s)", "(s)", "gs(s)",
	"[]int{}", "[]int{1, i}", "fxs()", "[]bool{}", "[]bool{true}", "fbs()", "[]string{}", "[]string{s, \"q\"}", "fss()", "gss(ss)", "(xs)",
	"gb(b)", "print(1)", "write(s, s)", "panic(s)", "f2i()", "f3()", "@x() | @y(s)", "(fv())", "(f2())", "(@x())",
	"undefined", "fi", "undefined()", "xs[true]", "i + s", "!i", "fi(1)", "gi()", "gi(s)", "gi(fv())", "len(1)", "itoa(s)", "[]int{s}", "xs + xs", "s - s", "b == i", "fv", "i[0]", "b && i", "i && b", "xs[s]", "s[b]", "s[:s]", "s[b:]", "copy(xs, ss)", "exists(i)", "read(b)", "input(1)", "f2() + 1", "fv() == fv()", "nil == nil", "len(fv())", "b + b", "(1)(2)", "m.I(1)", "m.B(true)", "m.S(s)", "m.X(xs)", "m.V()", "m.T()", "m.hidden()", "m.I(s)", "m.I()", "m.none()", "m.X(ss)",
}

type typePos struct {
	tmpl string // %s is the offered expression
	top  bool   // only at top level (contains a function)
	decl bool   // defines names
}

func typePositions() []typePos {
	var l []typePos
	add := func(t string) { l = append(l, typePos{tmpl: t}) }
	tys := []string{"int", "bool", "string", "error", "[]int", "[]bool", "[]string"}
	vars := []string{"i", "b", "s", "e", "xs", "bs", "ss"}
	ok := []string{"1", "true", "\"k\"", "\"k\"", "[]int{}", "[]bool{}", "[]string{}"}
	for k, t := range tys {
		add("var z " + t + " = %s\n")
		add("var z, w " + t + " = %s, " + ok[k] + "\n")
		add("var z, w " + t + " = " + ok[k] + ", %s\n")
		add("var z, w " + t + " = %s\n")
		add("var z, w, v " + t + " = %s\n")
		add(vars[k] + " = %s\n")
		add(vars[k] + ", i2 := %s, 1\n")
		add("i2 := 0\n" + vars[k] + ", i2 = %s, 1\n")
		add("s2 := \"\"\n" + vars[k] + ", s2 = %s\n")
		add("i2 := 0\n" + vars[k] + ", i2 = %s\n")
		for _, op := range []string{"+=", "-=", "*=", "/=", "%="} {
			add(vars[k] + " " + op + " %s\n")
		}
		add(vars[k] + "[0] = %s\n")
		add(vars[k] + "[%s] = " + ok[(k+4)%len(ok)] + "\n")
		add("z := " + strings.TrimPrefix(t, "[]") + "(%s)\n")
		if strings.HasPrefix(t, "[]") {
			el := strings.TrimSuffix(ok[k], "{}")
			add("z := " + el + "{%s}\n")
			add("z := " + el + "{" + vars[k] + "[0], %s}\n")
			add("z := " + el + "{%s, " + vars[k] + "[0]}\n")
			add("z := copy(" + vars[k] + ", %s)\n")
			add("z := copy(%s, " + vars[k] + ")\n")
			add(vars[k] + "[%s] = " + vars[k] + "[0]\n")
			add("z := " + vars[k] + "[%s]\n")
			add("z := " + vars[k] + "[%s:]\n")
			add("z := len(" + vars[k] + "[%s])\n")
		}
		add("switch " + vars[k] + " {\ncase %s:\n\ti = 1\n}\n")
		add("switch " + vars[k] + " {\ncase " + vars[k] + ":\n\ti = 1\ncase %s:\n\ti = 2\ndefault:\n\ti = 3\n}\n")
		l = append(l, typePos{tmpl: "func rr() " + t + " {\n\treturn %s\n}\n", top: true})
		l = append(l, typePos{tmpl: "func rr() " + t + " {\n\tif b {\n\t\treturn %s\n\t}\n\treturn " + ok[k] + "\n}\n", top: true})
		l = append(l, typePos{tmpl: "func rr() (" + t + ", int) {\n\treturn %s, 1\n}\n", top: true})
		l = append(l, typePos{tmpl: "func rr() (int, " + t + ") {\n\treturn 1, %s\n}\n", top: true})
		l = append(l, typePos{tmpl: "func rr() (int, " + t + ") {\n\tfor {\n\t\tif i > 1 {\n\t\t\treturn 1, %s\n\t\t} else if b {\n\t\t\tbreak\n\t\t}\n\t}\n\treturn 1, " + ok[k] + "\n}\n", top: true})
		l = append(l, typePos{tmpl: "func rr(p " + t + ") {\n}\nrr(%s)\n", top: true})
		l = append(l, typePos{tmpl: "func rr(p int, q " + t + ") {\n}\nrr(1, %s)\n", top: true})
		l = append(l, typePos{tmpl: "func rr(p " + t + ", q int) {\n}\nrr(%s, 1)\n", top: true})
		l = append(l, typePos{tmpl: "func rr() (" + t + ", " + t + ") {\n\treturn " + ok[k] + ", " + ok[k] + "\n}\nz, w := rr()\nz = %s\n", top: true})
		l = append(l, typePos{tmpl: "func rr() " + t + " {\n\treturn " + ok[k] + "\n}\nz := rr()\nz = %s\n", top: true})
		// type flows into later uses
		add("z := %s\nz = " + ok[k] + "\n")
		add("var z = %s\n" + vars[k] + " = z\n")
		add("z, w := %s\n" + vars[k] + " = w\n")
		add("for k, v := range %s {\n\t" + vars[k] + " = v\n}\n")
		add("for k := range %s {\n\t" + vars[k] + " = k\n}\n")
	}
	add("z := %s\n")
	add("z, w := %s\n")
	add("z, w, v := %s\n")
	add("z, w := %s, 1\n")
	add("z, w := 1, %s\n")
	add("var z = %s\n")
	add("var z, w = %s\n")
	add("var z, w = 1, %s\n")
	add("if %s {\n\ti = 2\n}\n")
	add("if b {\n\ti = 2\n} else if %s {\n\ti = 3\n}\n")
	add("if b {\n\ti = 2\n} else if b {\n\ti = 3\n} else if %s {\n\ti = 4\n} else {\n\ti = 5\n}\n")
	add("for %s {\n\tbreak\n}\n")
	add("for k := 0; %s; k++ {\n\tbreak\n}\n")
	add("for k := %s; k < 1; k++ {\n\tbreak\n}\n")
	add("for k := 0; k < 1; k += %s {\n\tbreak\n}\n")
	add("for k := 0; k < 1; k = %s {\n\tbreak\n}\n")
	add("for i = %s; i < 1; i++ {\n\tbreak\n}\n")
	add("for k := range %s {\n\ti = k\n}\n")
	add("for k, v := range %s {\n\ti = k\n}\n")
	add("for k, v := range %s {\n\ti = v\n}\n")
	add("for _, v := range %s {\n\ts = v\n}\n")
	add("switch %s {\ncase 1:\n\ti = 1\n}\n")
	add("switch %s {\ncase s:\n\ti = 1\n}\n")
	add("switch %s {\ncase b:\n\ti = 1\ndefault:\n\ti = 2\n}\n")
	add("switch {\ncase %s:\n\ti = 1\n}\n")
	add("switch {\ncase b:\n\ti = 1\ncase %s:\n\ti = 2\n}\n")
	for _, bi := range []string{"print", "len", "input", "itoa", "exists", "read", "panic"} {
		add(bi + "(%s)\n")
		add("z := " + bi + "(%s)\n")
		add("z := " + bi + "(%s, %s)\n")
	}
	add("print(1, %s)\n")
	add("print(%s, s)\n")
	add("write(%s, s)\n")
	add("write(s, %s)\n")
	add("write(s, s, %s)\n")
	add("write(%s)\n")
	add("write(s, s, b, %s)\n")
	add("z := write(s, %s)\n")
	add("copy(xs, %s)\n")
	add("z := copy(%s)\n")
	add("z := copy(xs, xs, %s)\n")
	add("panic(s, %s)\n")
	add("input(s, %s)\n")
	add("z := xs[%s]\n")
	add("z := s[%s]\n")
	add("z := s[%s:]\n")
	add("z := s[:%s]\n")
	add("z := s[%s:1]\n")
	add("z := s[0:%s]\n")
	add("z := s[%s:%s]\n")
	add("z := ss[0][%s]\n")
	add("z := !%s\n")
	add("z := !(%s)\n")
	add("z := (%s)\n")
	add("z := ((%s))\n")
	add("gi(%s)\n")
	add("gb(%s)\n")
	add("gs(%s)\n")
	add("ge(%s)\n")
	add("gxs(%s)\n")
	add("gbs(%s)\n")
	add("gss(%s)\n")
	add("g2(%s)\n")
	add("g2(%s, s)\n")
	add("g2(1, %s)\n")
	add("g2(1, %s, 1)\n")
	add("g3(%s, b, xs)\n")
	add("g3(s, %s, xs)\n")
	add("g3(s, b, %s)\n")
	add("g3(s, b, xs, %s)\n")
	add("g3(s, %s)\n")
	add("ii(%s, %s)\n")
	add("ii(%s)\n")
	add("fi(%s)\n")
	add("fv(%s)\n")
	add("z := gi(%s)\n")
	add("z := gb(%s)\n")
	add("z := gi(gi(%s))\n")
	add("z := gi(g2(1, %s))\n")
	add("z := m.I(%s)\n")
	add("z := m.S(%s)\n")
	add("m.B(%s)\n")
	add("m.X(%s)\n")
	add("m.V(%s)\n")
	add("@x(%s)\n")
	add("@x(s) | @y(%s)\n")
	add("z, w, v := @x(%s)\n")
	add("z, w, v := %s\ni = v\n")
	add("z, w, v := %s\ns = v\n")
	add("%s\n")
	for _, op := range []string{"+", "-", "*", "/", "%%", "==", "!=", "<", "<=", ">", ">=", "&&", "||"} {
		for _, o := range []string{"1", "b", "s", "xs", "ss", "nil"} {
			add("z := %s " + op + " " + o + "\n")
			add("z := " + o + " " + op + " %s\n")
		}
		add("z := (%s) " + op + " (%s)\n")
		add("if %s " + op + " %s {\n\ti = 1\n}\n")
	}
	l = append(l, typePos{tmpl: "func rr() {\n\treturn %s\n}\n", top: true})
	l = append(l, typePos{tmpl: "func rr() int {\n\treturn %s, 1\n}\n", top: true})
	l = append(l, typePos{tmpl: "func rr() (int, int) {\n\treturn 1\n\ti = %s\n}\n", top: true})
	l = append(l, typePos{tmpl: "func rr() (int, int, int) {\n\treturn 1, %s\n}\n", top: true})
	l = append(l, typePos{tmpl: "func rr() int {\n\tx := %s\n\treturn x\n}\n", top: true})
	l = append(l, typePos{tmpl: "return %s\n", top: true})
	return l
}

// contexts; %s is the statement. The first is the top level.
var typeCtx = []string{
	"%s",
	"func ctx() {\n%s}\nctx()\n",
	"if true {\n%s}\n",
	"if false {\n} else {\n%s}\n",
	"if false {\n} else if true {\n%s}\n",
	"for {\n%sbreak\n}\n",
	"for q := 0; q < 1; q++ {\n%s}\n",
	"for q, r := range []int{1} {\n%s}\n",
	"switch 1 {\ncase 1:\n%s}\n",
	"switch {\ndefault:\n%s}\n",
	"func ctx() int {\nfor q := range \"a\" {\nif true {\n%s}\n}\nreturn 1\n}\nctx()\n",
	"func ctx(q int) string {\nswitch q {\ncase 1:\nreturn \"\"\ndefault:\n%s}\nreturn \"\"\n}\nctx(1)\n",
}

func needs(text string) (pre string, files map[string]string) {
	ts, _, _ := refTokens(text)
	have := map[string]bool{}
	mod := false
	for k, t := range ts {
		have[t.v] = true
		if t.v == "m" && k+1 < len(ts) && ts[k+1].v == "." {
			mod = true
		}
	}
	var b strings.Builder
	if mod {
		b.WriteString("import m \"m.tsh\"\n")
		files = map[string]string{"m.tsh": typeModule}
	}
	for _, d := range typeDefs {
		if have[d.name] {
			b.WriteString(d.text)
		}
	}
	return b.String(), files
}

// verdict of the reference: "accept", "reject" or "" (open).
func verdict(main string, files map[string]string) (string, string) {
	fs := map[string]string{"/m/main.tsh": main}
	for k, v := range files {
		fs["/m/"+k] = v
	}
	p, err := ref.CheckFiles(ref.Sources{Files: fs, StdDir: "/m/std"}, "/m/main.tsh")
	if err != nil {
		return "reject", err.Error()
	}
	if p.Unspec != "" {
		return "", p.Unspec
	}
	return "accept", ""
}

type tprog struct {
	main  string
	files map[string]string
}

func acceptDiff(dir string, p tprog, want, why string) string {
	f := writeProg(dir, Prog{Main: p.main, Files: p.files})
	var errs [2]error
	for i, t := range targets {
		r := h.TranspileFile(f, t)
		if r.Panicked != "" {
			return t + ": panic: " + r.Panicked
		}
		if r.Err != nil && r.Script != "" || r.Err == nil && r.Script == "" {
			return t + ": script and error are not exclusive"
		}
		errs[i] = r.Err
	}
	if (errs[0] == nil) != (errs[1] == nil) {
		return fmt.Sprintf("the targets disagree: bash %v, batch %v", errs[0], errs[1])
	}
	switch {
	case want == "accept" && errs[0] != nil:
		return "well-formed program rejected: " + errs[0].Error()
	case want == "reject" && errs[0] == nil:
		return "ill-formed program accepted (" + why + ")"
	}
	return ""
}

func acceptRun(ctx *h.Ctx, part string, g func(y func(tprog) bool)) {
	if ctx.Stop() {
		ctx.Part(part, 0, false)
		return
	}
	if wfSink != nil {
		wfSink(ctx, part, func(y func(wfProg) bool) {
			g(func(p tprog) bool { return y(wfProg{tag: "c06", main: p.main, files: p.files}) })
		})
		return
	}
	var acc, rej, open int64
	gen := func(y func([]tprog) bool) {
		var b []tprog
		ok := true
		g(func(j tprog) bool {
			b = append(b, j)
			if len(b) == 32 {
				ok = y(b)
				b = nil
			}
			return ok
		})
		if ok && len(b) > 0 {
			y(b)
		}
	}
	_, c := h.Parallel(ctx, gen, func(w int) func([]tprog) {
		dir := filepath.Join(ctx.Scratch, fmt.Sprintf("%s-%d", key(part), w))
		return func(l []tprog) {
			for _, p := range l {
				want, why := verdict(p.main, p.files)
				switch want {
				case "accept":
					atomic.AddInt64(&acc, 1)
				case "reject":
					atomic.AddInt64(&rej, 1)
				default:
					atomic.AddInt64(&open, 1)
				}
				ctx.AddStates(1, 2, 2)
				if want != "" {
					ctx.Sample(map[string]string{"part": part, "model": want, "program": p.main})
				}
				d := acceptDiff(dir, p, want, why)
				if d == "" {
					continue
				}
				p := p
				files := map[string]string{"main.tsh": p.main, "expected": want + " " + why}
				for k, v := range p.files {
					files[k] = v
				}
				ctx.Report(h.Violation{Key: key(p.main), What: fmt.Sprintf("[%s] %s: %s", part, d, strings.ReplaceAll(cut(p.main, 400), "\n", " ; ")), Files: files,
					Recheck: func() bool { return acceptDiff(dir, p, want, why) != "" }})
			}
			os.RemoveAll(dir)
		}
	})
	ctx.Part(part, acc+rej+open, c)
	ctx.Extra("model verdicts accept/reject/open: "+part, fmt.Sprintf("%d/%d/%d", acc, rej, open))
	atomic.AddInt64(&ctx.Skipped, open)
	atomic.AddInt64(&ctx.Rejected, rej)
}

func fill(tmpl string, e ...string) string {
	k := 0
	var b strings.Builder
	for i := 0; i < len(tmpl); i++ {
		if tmpl[i] == '%' && i+1 < len(tmpl) && tmpl[i+1] == 's' {
			b.WriteString(e[k%len(e)])
			k++
			i++
		} else if tmpl[i] == '%' && i+1 < len(tmpl) && tmpl[i+1] == '%' {
			b.WriteByte('%')
			i++
		} else {
			b.WriteByte(tmpl[i])
		}
	}
	return b.String()
}

func typeItem(stmt string) tprog {
	pre, files := needs(stmt)
	m := pre + stmt
	if strings.HasPrefix(pre, "import") {
		// keep imports first
	}
	return tprog{m, files}
}

func c06(ctx *h.Ctx) {
	ctx.Assume("left open and not judged: ordering of strings, panic's argument type, slice equality, nil for slices, non-string program arguments, a multi-value call passed on as argument list or return value, bare return, terminating statements other than return")
	pos := typePositions()
	acceptRun(ctx, "position x offered expression, top level", func(y func(tprog) bool) {
		for _, p := range pos {
			for _, l := range [][]string{offered, offeredWide} {
				for _, o := range l {
					if !y(typeItem(fill(p.tmpl, o))) {
						return
					}
				}
			}
		}
	})
	acceptRun(ctx, "position x offered type x context", func(y func(tprog) bool) {
		for _, p := range pos {
			if p.top {
				continue
			}
			for k, c := range typeCtx[1:] {
				l := []string{"1", "b", "s", "nil", "xs", "ss", "fv()", "f2()"}
				if !ctx.Thorough() && k%3 != 0 && k != 10 {
					continue
				}
				if ctx.Thorough() {
					l = append(append([]string{}, offered...), offeredWide...)
				}
				for _, o := range l {
					if !y(typeItem(strings.Replace(c, "%s", fill(p.tmpl, o), 1))) {
						return
					}
				}
			}
		}
	})
	acceptRun(ctx, "two operands", func(y func(tprog) bool) {
		al := append(append([]string{}, offered...), "fi()", "fb()", "fs()", "fe()", "fxs()", "f2i()", "xs[0]", "ss[0]", "bs[0]", "s[0]", "i == 1", "s + s", "!b", "(i)", "(nil)")
		for _, t := range []string{"z := %s + %s\n", "z := %s - %s\n", "z := %s == %s\n", "z := %s != %s\n", "z := %s < %s\n", "z := %s >= %s\n", "z := %s && %s\n", "z := %s || %s\n",
			"if %s == %s {\n\ti = 1\n}\n", "for %s < %s {\n\tbreak\n}\n", "z := %s + (%s)\n", "z := s[%s:%s]\n", "switch %s {\ncase %s:\n\ti = 1\n}\n", "z := copy(%s, %s)\n", "g2(%s, %s)\n", "write(%s, %s)\n", "ii(%s, %s)\n", "xs[%s] = %s\n", "ss[%s] = %s\n", "i, s = %s, %s\n", "z, w := %s, %s\n", "print(%s, %s)\n", "z := []int{%s, %s}\n", "@x(%s, %s)\n", "z := b && %s == %s\n", "z := %s == %s && b\n", "z := i + %s * %s\n"} {
			for _, a := range al {
				for _, b := range al {
					if !y(typeItem(fill(t, a, b))) {
						return
					}
				}
			}
		}
	})
	acceptRun(ctx, "arities", func(y func(tprog) bool) {
		vals := []string{"1", "\"s\"", "true"}
		tys := []string{"int", "string", "bool"}
		for n := 0; n <= 4; n++ {
			for have := 0; have <= 5; have++ {
				var ps, as, rs, rv, ns []string
				for i := 0; i < n; i++ {
					ps = append(ps, fmt.Sprintf("p%d %s", i, tys[i%3]))
					rs = append(rs, tys[i%3])
				}
				for i := 0; i < have; i++ {
					as = append(as, vals[i%3])
					ns = append(ns, fmt.Sprintf("n%d", i))
				}
				rv = as
				r := strings.Join(rs, ", ")
				if n > 1 {
					r = "(" + r + ")"
				}
				a := strings.Join(as, ", ")
				full := []string{}
				for i := 0; i < n; i++ {
					full = append(full, vals[i%3])
				}
				fl := strings.Join(full, ", ")
				l := []string{
					"func f(" + strings.Join(ps, ", ") + ") {\n}\nf(" + a + ")\n",
					"func f(" + strings.Join(ps, ", ") + ") int {\n\treturn 1\n}\nx := f(" + a + ")\n",
					"func f() " + r + " {\n\treturn " + strings.Join(rv, ", ") + "\n}\n",
				}
				if have > 0 {
					nn := strings.Join(ns, ", ")
					l = append(l, nn+" := "+fl+"\n", "var "+nn+" = "+fl+"\n")
					if n > 0 {
						l = append(l, "func f() "+r+" {\n\treturn "+fl+"\n}\n"+nn+" := f()\n", "func f() "+r+" {\n\treturn "+fl+"\n}\nvar "+nn+" = f()\n")
						var d strings.Builder
						for i := 0; i < have; i++ {
							fmt.Fprintf(&d, "n%d := %s\n", i, vals[i%3])
						}
						l = append(l, "func f() "+r+" {\n\treturn "+fl+"\n}\n"+d.String()+nn+" = f()\n", d.String()+nn+" = "+fl+"\n")
						l = append(l, "func f() "+r+" {\n\treturn "+fl+"\n}\nfor "+nn+" := f(); ; {\n\tbreak\n}\n")
					} else {
						l = append(l, "func f() {\n}\n"+nn+" := f()\n")
					}
				}
				for _, s := range l {
					if strings.Contains(s, ":= \n") || strings.Contains(s, "= \n") {
						continue
					}
					for _, c := range []string{"%s", "if true {\n%s}\n", "for {\n%sbreak\n}\n"} {
						if c != "%s" && strings.Contains(s, "func") {
							continue
						}
						if !y(tprog{strings.Replace(c, "%s", s, 1), nil}) {
							return
						}
					}
				}
			}
		}
	})
	acceptRun(ctx, "one name, several types", func(y func(tprog) bool) { sameNames(ctx, y) })
	acceptRun(ctx, "one element of a longer list differs", func(y func(tprog) bool) { oddOne(ctx, y) })
	c06sizes(ctx)
	acceptRun(ctx, "one operand of a corpus program corrupted", func(y func(tprog) bool) {
		repl := []string{"1", "\"s\"", "true", "nil", "[]int{1}", "[]string{\"a\"}"}
		for _, p := range corpus {
			if p.Bad || strings.Contains(p.Main, "import \"") || strings.HasPrefix(p.Name, "std") {
				continue
			}
			ts, _, _ := refTokens(p.Main)
			imports := strings.HasPrefix(p.Main, "import")
			for k, t := range ts {
				s := t.v
				lit := p.Main[t.off:t.end]
				_ = s
				isLit := lit[0] == '"' || lit[0] == '`' || lit[0] >= '0' && lit[0] <= '9' || lit == "true" || lit == "false" || lit == "nil"
				isName := reWord.MatchString(lit) && lexWords[lit] == 0 && (k+1 >= len(ts) || ts[k+1].v != ".") && (k == 0 || ts[k-1].v != ".")
				isTy := lit == "int" || lit == "string" || lit == "bool" || lit == "error"
				if imports && t.off < strings.Index(p.Main, "\n") {
					continue
				}
				switch {
				case isTy:
					for _, r := range []string{"int", "string", "bool", "error"} {
						if !y(tprog{p.Main[:t.off] + r + p.Main[t.end:], p.Files}) {
							return
						}
					}
				case isLit || isName:
					for _, r := range repl {
						if isName && k+1 < len(ts) && (ts[k+1].v == "(" || ts[k+1].v == "[") {
							continue
						}
						if lit[0] == '"' && imports && strings.Contains(lit, ".tsh") {
							continue
						}
						if !y(tprog{p.Main[:t.off] + r + p.Main[t.end:], p.Files}) {
							return
						}
					}
				}
			}
		}
	})
}

// sameNames: a name has one type in one scope and another in a second one; a third type is used.
func sameNames(ctx *h.Ctx, y func(tprog) bool) {
	tys := []string{"int", "bool", "string", "error", "[]int", "[]bool", "[]string"}
	val := map[string]string{"int": "1", "bool": "true", "string": "\"k\"", "error": "nil", "[]int": "[]int{1}", "[]bool": "[]bool{true}", "[]string": "[]string{\"a\"}"}
	elem := func(t string) string { return strings.TrimPrefix(t, "[]") }
	shapes := []string{
		"if true {\nvar x A\nx = VA\n} else {\nvar x B\nx = VC\n}\n",
		"if true {\nvar x A\nx = VA\n}\nvar x B\nx = VC\n",
		"func f() {\nvar x A\nx = VA\n}\nfunc g() {\nvar x B\nx = VC\n}\nf()\ng()\n",
		"func f(x A) {\nx = VA\n}\nfunc g(x B) {\nx = VC\n}\nf(VA)\ng(VB)\n",
		"func f(x A) {\nx = VA\n}\nfunc g(x B) {\n}\nf(VA)\ng(VC)\n",
		"func f(x A) A {\nreturn x\n}\nvar x B\nx = VC\ny := f(VA)\ny = VA\n",
		"func f() A {\nvar x A\nreturn x\n}\nvar x B = VC\nvar y A = f()\n",
		"func f() A {\nreturn VA\n}\nfunc g() B {\nreturn VB\n}\nx, y := f(), g()\nx = VA\ny = VC\n",
		"func f() A {\nreturn VA\n}\nfunc g() B {\nif true {\nreturn VC\n}\nreturn VB\n}\nf()\ng()\n",
		"func f() (A, B) {\nreturn VA, VB\n}\nx, y := f()\nx = VA\ny = VC\n",
		"func f() (A, B) {\nreturn VA, VB\n}\nvar x A\nvar y B\nx, y = f()\nx, y = VA, VC\n",
		"var x A\ny, z := VA, VB\nx, z = y, VC\n",
		"var x A\nif true {\ny := x\ny = VA\n}\nfor {\nvar y B\ny = VC\nbreak\n}\n",
		"switch 1 {\ncase 1:\nvar x A\nx = VA\ncase 2:\nvar x B\nx = VC\n}\n",
		"for x := VA; ; {\nx = VA\nbreak\n}\nfor x := VB; ; {\nx = VC\nbreak\n}\n",
		"var a A\na = VA\nfunc f(b B) {\na = VA\nb = VC\n}\nf(VB)\na = VA\n",
		"var x A\ny, x := VB, VA\ny = VC\nx = VA\n",
		"func f(p A, q B) {\np, q = VA, VC\n}\nf(VA, VB)\n",
		"func f(p A, q B) {\n}\nf(VA, VC)\nf(VA, VB)\n",
		"func x(p A) A {\nreturn p\n}\nx(VA)\nvar x B\nx = VC\n",
	}
	loops := []string{
		"for k, x := range []EA{} {\nx = DA\nk = 1\n}\nfor k, x := range []EB{} {\nx = DC\nk = 1\n}\n",
		"for k, x := range []EA{} {\nx = DA\nfor l, z := range []EB{} {\nz = DC\nl = k\n}\n}\n",
		"x := []EA{DA}\ny := []EB{DB}\nx[0] = DA\ny[0] = DC\n",
		"x := []EA{DA}\ny := []EB{DB}\nz := x[0]\nw := y[0]\nz, w = DA, DC\n",
		"func f(x []EA) EA {\nreturn x[0]\n}\nfunc g(x []EB) EB {\nif true {\nx[0] = DC\n}\nreturn x[0]\n}\nf([]EA{DA})\ng([]EB{DB})\n",
	}
	for _, a := range tys {
		for _, b := range tys {
			for _, c := range tys {
				r := strings.NewReplacer("VA", val[a], "VB", val[b], "VC", val[c], "EA", elem(a), "EB", elem(b), "DA", val[elem(a)], "DB", val[elem(b)], "DC", val[elem(c)], " A", " "+a, " B", " "+b, "(A,", "("+a+",", " B)", " "+b+")")
				for _, s := range shapes {
					if !y(tprog{r.Replace(s), nil}) {
						return
					}
				}
				if a == "error" || b == "error" || c == "error" || strings.HasPrefix(a, "[") || strings.HasPrefix(b, "[") || strings.HasPrefix(c, "[") {
					continue
				}
				for _, s := range loops {
					if !y(tprog{r.Replace(s), nil}) {
						return
					}
				}
			}
		}
	}
	// equal names in two files
	for _, a := range tys {
		for _, b := range tys {
			for _, c := range tys {
				m := "var X " + a + "\nfunc F(x " + a + ") " + a + " {\n\tX = x\n\treturn x\n}\n"
				for _, s := range []string{"func F(x B) B {\n\treturn x\n}\nvar z B = F(VC)\nvar w A = m.F(VA)\n", "func F(x B) B {\n\treturn x\n}\nvar z B = F(VB)\nvar w A = m.F(VC)\n", "func F(x B) B {\n\treturn x\n}\nvar z C = F(VB)\nvar w A = m.F(VA)\n", "func F(x B) B {\n\treturn x\n}\nvar z B = F(VB)\nvar w C = m.F(VA)\n", "var X B\nX = VC\nvar w A = m.F(VA)\n"} {
					r := strings.NewReplacer("VA", val[a], "VB", val[b], "VC", val[c], " A", " "+a, " B", " "+b, " C", " "+c)
					if !y(tprog{"import m \"m.tsh\"\n" + r.Replace(s), map[string]string{"m.tsh": m}}) {
						return
					}
				}
			}
		}
	}
}

// oddOne: in a list of n equal-typed elements every single one is replaced by one of another type.
func oddOne(ctx *h.Ctx, y func(tprog) bool) {
	good := map[string][]string{"int": {"1", "i", "fi()", "(i)", "xs[0]"}, "bool": {"true", "b", "fb()", "(b)", "i == 1"}, "string": {"\"s\"", "s", "fs()", "(s)", "ss[0]"}}
	bad := []string{"1", "i", "fi()", "true", "b", "i == 1", "\"s\"", "s", "fs()", "nil", "xs", "ss", "fv()", "f2()", "e"}
	wraps := []string{"%s", "(%s)", "((%s))"}
	type list struct {
		ty             string
		open, sep, end string
		op             bool
	}
	var ls []list
	for _, o := range []string{"+", "-", "*", "/", "%"} {
		ls = append(ls, list{"int", "z := ", " " + o + " ", "\n", true})
	}
	ls = append(ls, list{"string", "z := ", " + ", "\n", true}, list{"bool", "z := ", " && ", "\n", true}, list{"bool", "z := ", " || ", "\n", true}, list{"bool", "if ", " && ", " {\ni = 2\n}\n", true}, list{"int", "if i < ", " * ", " {\ni = 2\n}\n", true}, list{"bool", "for ", " || ", " {\nbreak\n}\n", true},
		list{"int", "z := []int{", ", ", "}\n", false}, list{"string", "z := []string{", ", ", "}\n", false}, list{"bool", "z := []bool{", ", ", "}\n", false},
		list{"int", "z := gi(", " + ", ")\n", true}, list{"int", "z := xs[", " + ", "]\n", true}, list{"int", "xs[", " - ", "] = 1\n", true}, list{"string", "z := s + ss[0] + itoa(1) + ", " + ", "\n", true}, list{"string", "print(s, ", " + ", ")\n", true}, list{"string", "panic(", " + ", ")\n", true}, list{"int", "switch i {\ncase ", " * ", ":\ni = 1\n}\n", true}, list{"bool", "if b {\ni = 1\n} else if ", " || ", " {\ni = 2\n}\n", true})
	max := 4
	if ctx.Thorough() {
		max = 6
	}
	for _, l := range ls {
		for n := 2; n <= max; n++ {
			for at := 0; at < n; at++ {
				for _, o := range bad {
					for wi, w := range wraps {
						if wi > 0 && o == "fv()" {
							continue
						}
						var es []string
						for k := 0; k < n; k++ {
							es = append(es, good[l.ty][(k+n)%5])
						}
						if es[at] == "i == 1" && l.op || l.op && o == "i == 1" && wi == 0 {
							continue
						}
						for k := range es {
							if l.op && es[k] == "i == 1" {
								es[k] = "(i == 1)"
							}
						}
						es[at] = strings.Replace(w, "%s", o, 1)
						if !y(typeItem(l.open + strings.Join(es, l.sep) + l.end)) {
							return
						}
					}
				}
			}
		}
	}
	// lists with an own type for every place
	vals := map[string][]string{"int": {"1", "i"}, "bool": {"true", "b"}, "string": {"\"s\"", "s"}}
	tys := []string{"int", "string", "bool"}
	for n := 2; n <= max; n++ {
		for at := 0; at < n; at++ {
			for _, o := range bad {
				var ts, ps, vs, ns, ds []string
				for k := 0; k < n; k++ {
					t := tys[(k+n)%3]
					ts = append(ts, t)
					ps = append(ps, fmt.Sprintf("p%d %s", k, t))
					vs = append(vs, vals[t][k%2])
					ns = append(ns, fmt.Sprintf("n%d", k))
					ds = append(ds, fmt.Sprintf("var n%d %s\n", k, t))
				}
				gd := strings.Join(vs, ", ")
				bd := append([]string{}, vs...)
				bd[at] = o
				b := strings.Join(bd, ", ")
				def := strings.Join(ds, "")
				nm := strings.Join(ns, ", ")
				for _, s := range []string{
					"func f(" + strings.Join(ps, ", ") + ") int {\nreturn 1\n}\nz := f(" + b + ")\n",
					"func f(" + strings.Join(ps, ", ") + ") int {\nreturn 1\n}\nz := f(" + gd + ") + f(" + b + ")\n",
					"func f(" + strings.Join(ps, ", ") + ") int {\nreturn 1\n}\nfor i < f(" + b + ") {\nbreak\n}\n",
					"func f() (" + strings.Join(ts, ", ") + ") {\nreturn " + b + "\n}\nf()\n",
					"func f() (" + strings.Join(ts, ", ") + ") {\nfor {\nif b {\nfor i < 2 {\nreturn " + b + "\n}\n}\n}\nreturn " + gd + "\n}\nf()\n",
					"func f() (" + strings.Join(ts, ", ") + ") {\nswitch i {\ncase 1:\nif b {\nreturn " + gd + "\n} else {\nreturn " + b + "\n}\n}\nreturn " + gd + "\n}\nf()\n",
					def + nm + " = " + b + "\n",
					def + "if b {\n" + nm + " = " + b + "\n}\n",
					"func f() {\n" + def + nm + " = " + b + "\n}\nf()\n",
					"func f() (" + strings.Join(ts, ", ") + ") {\nreturn " + gd + "\n}\n" + def + nm + " = f()\n" + ns[at] + " = " + o + "\n",
					"func f() (" + strings.Join(ts, ", ") + ") {\nreturn " + gd + "\n}\n" + nm + " := f()\n" + ns[at] + " = " + o + "\n",
					nm + " := " + gd + "\n" + ns[at] + " = " + o + "\n",
				} {
					if !y(typeItem(s)) {
						return
					}
				}
			}
		}
	}
}
