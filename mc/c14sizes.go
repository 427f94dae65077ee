package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/monstermichl/typeshell/transpiler"
	"verifmc/h"
)

// sizedProg is a program with n of one thing.
func sizedProg(kind string, n int) Prog {
	var b strings.Builder
	f := func(s string, a ...any) { fmt.Fprintf(&b, s, a...) }
	p := Prog{Name: fmt.Sprint(kind, n), Files: map[string]string{}}
	switch kind {
	case "globals":
		for i := 0; i < n; i++ {
			f("v%d := %d\n", i, i)
		}
		f("print(v%d)\n", n-1)
	case "functions":
		for i := 0; i < n; i++ {
			f("func f%d(a int) int {\n\tx := a + %d\n\treturn x\n}\n", i, i)
		}
		f("print(f%d(1)", 0)
		for i := 1; i < n; i += 2 {
			f(", f%d(2)", i)
		}
		f(")\n")
	case "parameters":
		f("func f(")
		for i := 0; i < n; i++ {
			if i > 0 {
				f(", ")
			}
			f("p%d %s", i, []string{"int", "string", "[]int", "bool"}[i%4])
		}
		f(") int {\n\treturn p0\n}\nprint(f(")
		for i := 0; i < n; i++ {
			if i > 0 {
				f(", ")
			}
			f("%s", []string{"1", "\"a\"", "[]int{1}", "true"}[i%4])
		}
		f("))\n")
	case "imports":
		f("import (\n")
		for i := 0; i < n; i++ {
			f("\tm%d \"m%d.tsh\"\n", i, i)
			s := ""
			if i > 0 {
				s = fmt.Sprintf("import p \"m%d.tsh\"\n", i/2)
			}
			s += fmt.Sprintf("v := %d\nfunc F(a int) int {\n\treturn v + a\n}\n", i)
			p.Files[fmt.Sprintf("m%d.tsh", i)] = s
		}
		f(")\nprint(m0.F(1)")
		for i := 1; i < n; i++ {
			f(", m%d.F(2)", i)
		}
		f(")\n")
	case "blocks":
		f("x := 1\n")
		for i := 0; i < n; i++ {
			f("if x == %d {\n\tx++\n} else {\n\tfor i := range \"ab\" {\n\t\tx += i\n\t}\n}\n", i)
		}
	case "nesting":
		f("x := 1\n")
		for i := 0; i < n; i++ {
			f("%s {\n", []string{"if x > 0", "for x < 3", fmt.Sprintf("for i%d, c%d := range []int{x}", i, i), "switch x"}[i%4])
			switch i % 4 {
			case 2:
				f("print(i%d, c%d)\n", i, i)
			case 3:
				f("case 1:\n")
			}
		}
		f("x++\n%s", strings.Repeat("}\n", n))
	case "slices":
		f("func g(a []int) []int {\n\ta[1] = 2\n\treturn a\n}\n")
		for i := 0; i < n; i++ {
			f("s%d := g([]int{%d})\ns%d[2] = copy(s%d, []int{3})\n", i, i, i, i)
		}
		f("print(len(s0), s%d[1])\n", n-1)
	case "strings":
		f("s := \"\"\n")
		for i := 0; i < n; i++ {
			f("s += \"%s%d\"\nprint(s[%d], len(s))\n", strings.Repeat("x", i), i, i)
		}
	case "calls":
		f("@echo(\"a\")")
		for i := 1; i < n; i++ {
			f(" | @cat(\"-\", \"%d\")", i)
		}
		f("\no, e, c := @echo(\"a\"")
		for i := 1; i < n; i++ {
			f(", \"b%d\"", i)
		}
		f(")\nprint(o, e, c)\n")
	}
	p.Main = b.String()
	return p
}

var sizedKinds = []string{"globals", "functions", "parameters", "imports", "blocks", "nesting", "slices", "strings", "calls"}

func c14sizes(ctx *h.Ctx, all []Prog, root string, base map[string]string, fresh func(path, target, cwd string, env []string) string, report func(part, what, id, want, got string, again func() string, names ...string)) {
	env := []string{"HOME=/"}
	path := func(n string) string { return filepath.Join(root, n, "main.tsh") }
	var some []Prog
	for _, p := range all {
		if !strings.HasPrefix(p.Name, "feats") {
			some = append(some, p)
		}
	}
	type job struct {
		p Prog
		k int
	}
	// installations, attributes of the files and of the process
	part := "installations and attributes"
	exe, _ := os.Executable()
	var insts []string
	for _, d := range []string{"inst", "in st/" + strings.Repeat("d/", 30), "std", "ünï'$x"} {
		d = filepath.Join(ctx.Scratch, d)
		os.MkdirAll(d, 0755)
		f := filepath.Join(d, "other")
		if os.Link(exe, f) != nil {
			if b, err := os.ReadFile(exe); err != nil || os.WriteFile(f, b, 0755) != nil {
				continue
			}
		}
		os.MkdirAll(filepath.Join(d, "std"), 0755)
		l, _ := filepath.Glob("/repo/std/*")
		if ev, err := filepath.EvalSymlinks(filepath.Join(filepath.Dir(exe), "std")); err == nil {
			l, _ = filepath.Glob(ev + "/*")
		}
		for _, s := range l {
			b, _ := os.ReadFile(s)
			os.WriteFile(filepath.Join(d, "std", filepath.Base(s)), b, 0600)
		}
		insts = append(insts, f)
	}
	run := func(cwd string, env []string, stdin bool, argv ...string) string {
		c := exec.Command(argv[0], argv[1:]...)
		c.Dir, c.Env = cwd, env
		if stdin {
			c.Stdin = strings.NewReader("input\n")
		}
		o, err := c.Output()
		if err != nil {
			return "process failed: " + err.Error()
		}
		return string(o)
	}
	copyOf := func(p Prog, w int, f func(string)) string {
		d := filepath.Join(ctx.Scratch, fmt.Sprintf("attr-%d", w))
		os.RemoveAll(d)
		m := writeProg(filepath.Join(d, "p"), p) // a program may reach above its own directory
		for n := range p.Files {
			f(filepath.Join(d, "p", n))
		}
		f(m)
		return m
	}
	vars := []func(p Prog, t string, w int) string{}
	for i := range insts {
		vars = append(vars, func(p Prog, t string, w int) string { return run("/", env, false, insts[i], "once", path(p.Name), t) })
	}
	for _, at := range []int64{0, 1, 1700000000, 4102444800} {
		vars = append(vars, func(p Prog, t string, w int) string {
			return fresh(copyOf(p, w, func(f string) { os.Chtimes(f, time.Unix(at, 0), time.Unix(at, 0)) }), t, "/", env)
		})
	}
	for _, mode := range []os.FileMode{0400, 0755, 0777} {
		vars = append(vars, func(p Prog, t string, w int) string {
			return fresh(copyOf(p, w, func(f string) { os.Chmod(f, mode) }), t, "/", env)
		})
	}
	for _, sh := range []string{"umask 077; exec \"$@\"", "ulimit -n 40; exec \"$@\"", "exec \"$@\" <&-", "exec \"$@\" 2>&-", "exec -a x \"$@\"", "set -m; \"$@\" &\nwait $!", "exec taskset 1 \"$@\"", "exec nice \"$@\""} {
		if strings.Contains(sh, "taskset") {
			if _, err := exec.LookPath("taskset"); err != nil {
				continue
			}
		}
		vars = append(vars, func(p Prog, t string, w int) string {
			return run("/", []string{"PATH=/usr/bin:/bin"}, true, "/bin/bash", "-c", sh, "x", exe, "once", path(p.Name), t)
		})
	}
	for _, e := range [][]string{{}, {"GOMAXPROCS=1"}, {"TERM=dumb", "NO_COLOR=1", "DEBUG=1", "VERBOSE=1", "CI=true"}, {"USER=u", "LOGNAME=u", "HOSTNAME=h", "PWD=/nope", "SHELL=/bin/zsh", "OS=Windows_NT", "COMSPEC=C:\\cmd.exe"}, {"LC_ALL=C", "GODEBUG=madvdontneed=1", "GOGC=1"}, {"GOGC=off", "TMPDIR=/nope"}} {
		vars = append(vars, func(p Prog, t string, w int) string { return run("/tmp", e, false, exe, "once", path(p.Name), t) })
	}
	n, c := h.Parallel(ctx, func(y func(job) bool) {
		for _, p := range some {
			for k := range vars {
				if !y(job{p, k}) {
					return
				}
			}
		}
	}, func(w int) func(job) {
		return func(j job) {
			for _, t := range targets {
				f := func() string { return vars[j.k](j.p, t, w) }
				want := base[j.p.Name+"/"+t]
				ctx.AddStates(1, 1, 1)
				if g := f(); g != want {
					report(part, fmt.Sprintf("%s for %s, variation %d", j.p.Name, t, j.k), fmt.Sprint(j.p.Name, t, j.k), want, g, f, j.p.Name)
				}
			}
		}
	})
	ctx.Part(part, n*2, c)
	// numbers of things: the same in two processes, in two places and on one object
	part = "sizes"
	if ctx.Stop() {
		ctx.Part(part, 0, false)
		return
	}
	type sj struct {
		kind string
		n    int
	}
	n, c = h.Parallel(ctx, func(y func(sj) bool) {
		for _, k := range sizedKinds {
			for i := 1; i <= 130; i++ {
				if i > 20 && k == "imports" && i%8 > 1 || i > 40 && i%4 > 1 && !ctx.Thorough() {
					continue
				}
				if !y(sj{k, i}) {
					return
				}
			}
		}
	}, func(w int) func(sj) {
		return func(j sj) {
			p := sizedProg(j.kind, j.n)
			d := filepath.Join(ctx.Scratch, fmt.Sprintf("size-%d", w))
			defer os.RemoveAll(d)
			a := writeProg(filepath.Join(d, "a"), p)
			b := writeProg(filepath.Join(d, "b", strings.Repeat("x", j.n)), p)
			tr := transpiler.New()
			for _, t := range targets {
				want := fresh(a, t, "/", env)
				if !strings.HasPrefix(want, "script") {
					ctx.Extra("rejected program "+p.Name, true)
				}
				ctx.Distinct(want)
				all := []func() string{
					func() string { return fresh(b, t, d, []string{"HOME=" + d}) },
					func() string { return tres(&tr, b, t) },
					func() string { return tres(&tr, path("bad-type"), t) + "" },
					func() string { return tres(&tr, a, targets[1]) },
					func() string { return tres(&tr, a, t) },
					func() string { o := transpiler.New(); return tres(&o, a, t) },
				}
				for i, f := range all {
					g := f()
					ctx.AddStates(1, 1, 1)
					w := want
					switch i {
					case 2:
						w = base["bad-type/"+t]
					case 3:
						if t != targets[1] {
							continue
						}
					}
					if g != w {
						report(part, fmt.Sprintf("%s for %s, run %d", p.Name, t, i+1), fmt.Sprint(p.Name, t, i), w, g, f)
						break
					}
				}
			}
		}
	})
	ctx.Part(part, n*12, c)
	// directories of every length
	part = "path lengths"
	lp := Prog{Main: "import (\n\tm \"sub/m.tsh\"\n\t\"strings\"\n)\nprint(m.F(1), strings.Index(\"ab\", \"b\"))\n", Files: map[string]string{"sub/m.tsh": "v := 1\nfunc F(a int) int {\n\treturn a + v\n}\n"}}
	os.MkdirAll(filepath.Join(ctx.Scratch, "pl"), 0755)
	lw := map[string]string{}
	lf := writeProg(filepath.Join(ctx.Scratch, "pl0"), lp)
	for _, t := range targets {
		lw[t] = fresh(lf, t, "/", env)
	}
	n, c = h.Parallel(ctx, func(y func(int) bool) {
		for i := 1; i <= pick(ctx, 520, 3000); i++ {
			if !y(i) {
				return
			}
		}
	}, func(w int) func(int) {
		return func(n int) {
			d := filepath.Join(ctx.Scratch, fmt.Sprintf("pl/%02d", w))
			defer os.RemoveAll(d)
			s := ""
			for len(s) < n {
				k := min(n-len(s), 200)
				s += strings.Repeat("q", k)
				if len(s) < n {
					s += "/"
				}
			}
			m := writeProg(filepath.Join(d, s), lp)
			tr := transpiler.New()
			for _, t := range targets {
				f := func() string { return tres(&tr, m, t) }
				ctx.AddStates(1, 1, 1)
				if g := f(); g != lw[t] {
					report(part, fmt.Sprintf("directory name of %d bytes, %s", n, t), fmt.Sprint(n, t), lw[t], g, f)
				}
			}
		}
	})
	ctx.Part(part, n*2, c)
	// many calls on one object
	part = "long histories on one object"
	if ctx.Stop() {
		ctx.Part(part, 0, false)
		return
	}
	names := []string{"hello", "funcs", "imp2", "slices", "apps", "switches", "std", "bad-type", "bad-lex", "bad-import"}
	type pair struct{ a, b string }
	long := pick(ctx, 260, 1100)
	n, c = h.Parallel(ctx, func(y func(pair) bool) {
		for _, a := range names {
			for _, b := range names {
				if !y(pair{a, b}) {
					return
				}
			}
		}
	}, func(w int) func(pair) {
		return func(p pair) {
			do := func() (string, string) {
				tr := transpiler.New()
				for i := 0; i < long; i++ {
					nm := p.a
					if i%13 == 12 || i > long-3 {
						nm = p.b
					}
					t := targets[i%2]
					if i%7 == 6 {
						t = targets[(i+1)%2]
					}
					if g := tres(&tr, path(nm), t); g != base[nm+"/"+t] {
						return base[nm+"/"+t], g
					}
				}
				return "", ""
			}
			ctx.AddStates(long, long, 1)
			if w, g := do(); w != g {
				report(part, fmt.Sprintf("%d calls of %s, every 13th of %s", long, p.a, p.b), fmt.Sprint(p), w, g, func() string {
					x, y := do()
					if x == y {
						return w
					}
					return y + " "
				}, p.a, p.b)
			}
		}
	})
	ctx.Part(part, n*int64(long), c)
}
