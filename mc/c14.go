package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/monstermichl/typeshell/transpiler"
	"verifmc/h"
)

var mapOrderMain func(path, target string, pairs bool, limit int)

var ambientMain func(path, target string)

type mapOrderResult struct {
	Script, Diff, What       string
	Asked                    []string
	Where                    []uint64
	Base                     uint64
	Iterations, Choice, Runs int
	Truncated                bool
}

// tres is the observable result of one transpilation.
func tres(t interface {
	Transpile(string, transpiler.Converter) (string, error)
}, path, target string) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprint("panic: ", e)
		}
	}()
	defer h.Serial()()
	r, err := t.Transpile(path, h.Conv(target))
	if err != nil {
		return "error\x00" + r
	}
	return "script\x00" + r
}

// moreNames are programs with many definitions, so that order matters.
func manyProgs() []Prog {
	var l []Prog
	var b strings.Builder
	for i := 0; i < 7; i++ {
		fmt.Fprintf(&b, "g%d := %d\n", i, i)
	}
	for i := 0; i < 7; i++ {
		fmt.Fprintf(&b, "func f%d(a int, b int) int {\n\tx := a + g%d\n\ty := b\n", i, i)
		if i > 1 {
			fmt.Fprintf(&b, "\tx += f%d(y, 1) + f%d(1, x)\n", i-1, i-2)
		}
		b.WriteString("\treturn x + y\n}\n")
	}
	l = append(l, Prog{Name: "many", Main: b.String() + "print(f6(1, 2), f3(g1, g2))\n"})
	l = append(l, Prog{Name: "many-unused", Main: b.String() + "print(f2(1, 2))\n"})
	var im strings.Builder
	im.WriteString("import (\n")
	fs := map[string]string{}
	for i := 0; i < 6; i++ {
		fmt.Fprintf(&im, "\tm%d \"m%d.tsh\"\n", i, i)
		s := ""
		if i > 0 {
			s = fmt.Sprintf("import (\n\tp \"m%d.tsh\"\n\tq \"m%d.tsh\"\n)\n", i-1, (i-1)/2)
		}
		s += fmt.Sprintf("v := %d\nvar w, x string = \"a\", \"b\"\nfunc h() int {\n\treturn v\n}\nfunc F() int {\n\tr := h()\n", i)
		if i > 0 {
			s += "\tr += p.F() + q.F()\n"
		}
		s += "\treturn r\n}\nfunc G() string {\n\treturn w + x\n}\n"
		fs[fmt.Sprintf("m%d.tsh", i)] = s
	}
	im.WriteString(")\nprint(m5.F(), m0.G(), m3.G())\n")
	l = append(l, Prog{Name: "many-imports", Main: im.String(), Files: fs})
	l = append(l, Prog{Name: "up", Main: "import (\n\ta \"x/a.tsh\"\n\tb \"../main-b.tsh\"\n)\nprint(a.F(1), b.F(2))\n", Files: map[string]string{"x/a.tsh": "import m \"../m.tsh\"\nfunc F(a int) int {\n\treturn m.F(a)\n}\n", "m.tsh": "func F(a int) int {\n\treturn a\n}\n", "../main-b.tsh": "func F(a int) int {\n\treturn a\n}\n"}})
	l = append(l, Prog{Name: "same-content", Main: "import (\n\ta \"a.tsh\"\n\tb \"b.tsh\"\n)\nprint(a.F(), b.F())\n", Files: map[string]string{"a.tsh": "func F() int {\n\treturn 1\n}\n", "b.tsh": "func F() int {\n\treturn 1\n}\n"}})
	l = append(l, Prog{Name: "std-both", Main: "import (\n\t\"strings\"\n\t\"os\"\n)\nfunc f(a string, b string) string {\n\tc := a\n\td := b\n\treturn strings.Replace(c, \"a\", d, -1)\n}\nprint(f(\"a\", \"b\"), strings.TrimSpace(\" x \"))\n"})
	l = append(l, Prog{Name: "sliceparams", Main: "func f(a []int, b []string, c int, d string, e bool) ([]int, string) {\n\ta[1] = c\n\tb[0] = d\n\treturn a, d\n}\nx, y := f([]int{1}, []string{\"q\"}, 2, \"s\", true)\nprint(len(x), y)\nfor i, v := range x {\n\tfor j := range \"ab\" {\n\t\tprint(i, v, j)\n\t}\n}\n"})
	sink := "a := []int{1, 2, 3}\nb := []string{\"x\", \"y\"}\nvar c []bool\nn := copy(a, []int{7, 8})\ns := \"hello\"\na[1] = n\nb[3] = s[1:3]\nc[len(c)] = s[0] == \"h\"\nwrite(\"f.txt\", s)\nwrite(\"f.txt\", s, true)\nr := read(\"f.txt\")\no, e, x := @echo(\"a b\", s) | @cat()\n@echo(s)\nq := input(\"? \")\ng, h := 1, \"w\"\nfunc f1(p []int, t string) (int, string) {\n\tp[0] = len(t)\n\tz := []string{t, t + \"!\"}\n\tfor i, v := range z {\n\t\tg += i\n\t\th += v[0]\n\t}\n\tswitch t {\n\tcase \"k\":\n\t\treturn g, h\n\tdefault:\n\t\tcopy(z, b)\n\t}\n\treturn len(p), z[0]\n}\nfunc f2(p []string) int {\n\tfor i := 0; i < len(p); i++ {\n\t\tif exists(p[i]) && !(i == 1) {\n\t\t\tcontinue\n\t\t} else if p[i] == \"x\" || i > 2 {\n\t\t\tbreak\n\t\t}\n\t\tk, l := f1([]int{i}, p[i])\n\t\tprint(k, l[0:1], read(\"f.txt\"))\n\t}\n\treturn copy(a, a)\n}\nprint(f2(b), r, o, e, x, q, len(s), s[2], itoa(g) + h, exists(\"f.txt\"), len(a), len(c))\nfor i, ch := range s {\n\tfor j := range a {\n\t\tprint(i, ch, j)\n\t}\n}\nfor {\n\tg--\n\tif g < 0 {\n\t\tbreak\n\t}\n}\npanic(\"end\")\n"
	l = append(l, Prog{Name: "sink", Main: sink})
	// every subset of the features which need helper routines
	feats := []string{"n := copy(a, a)\n", "print(s[1:2])\n", "a[2] = 3\n", "write(s, s)\n", "print(read(s))\n", "o, e, c := @echo(s)\n", "print(len(s))\n"}
	for m := 1; m < 1<<len(feats); m++ {
		t := "a := []int{1}\ns := \"f\"\n"
		for i, f := range feats {
			if m>>i&1 == 1 {
				t += f
			}
		}
		l = append(l, Prog{Name: fmt.Sprint("feats", m), Main: t})
	}
	return l
}

var importPath = regexp.MustCompile("\"([^\"\n]+)\"")

func c14(ctx *h.Ctx) {
	ctx.Assume("a transpiler object gets a fresh converter per call, as the tests and the command do")
	all := append(append([]Prog{}, corpus...), manyProgs()...)
	isFeats := func(n string) bool { return strings.HasPrefix(n, "feats") }
	root := filepath.Join(ctx.Scratch, "base")
	paths := map[string]string{}
	for _, p := range all {
		paths[p.Name] = writeProg(filepath.Join(root, p.Name), p)
	}
	paths["missing"] = filepath.Join(root, "nope.tsh")
	base := map[string]string{} // name+target -> observation in a fresh process
	var mu sync.Mutex
	fresh := func(path, target, cwd string, env []string) string {
		exe, _ := os.Executable()
		c := exec.Command(exe, "once", path, target)
		c.Dir = cwd
		c.Env = env
		o, err := c.Output()
		if err != nil {
			return "process failed: " + err.Error()
		}
		return string(o)
	}
	type pt struct{ name, target string }
	var pts []pt
	for _, p := range append(all, Prog{Name: "missing"}) {
		for _, t := range targets {
			pts = append(pts, pt{p.Name, t})
		}
	}
	report := func(part, what, id, want, got string, again func() string, names ...string) {
		files := map[string]string{"expected": want, "actual": got, "history": what}
		for _, n := range names {
			for _, p := range all {
				if p.Name == n {
					files[n+"/main.tsh"] = p.Main
					for k, v := range p.Files {
						files[n+"/"+k] = v
					}
				}
			}
		}
		ctx.Report(h.Violation{Key: key(id), What: fmt.Sprintf("[%s] %s: %s", part, what, firstDifference(want, got)), Files: files,
			Recheck: func() bool {
				if strings.HasPrefix(want, "script") && strings.HasPrefix(got, "script") {
					return true // two different scripts: nothing else is needed, and it need not happen again
				}
				for i := 0; i < 200; i++ {
					if again() != want {
						return true
					}
				}
				return false
			}})
	}
	// fresh processes: baseline and repetition
	part := "fresh processes"
	n, c := h.Parallel(ctx, func(y func(pt) bool) {
		for _, p := range pts {
			if !y(p) {
				return
			}
		}
	}, func(w int) func(pt) {
		return func(p pt) {
			o := fresh(paths[p.name], p.target, "/", []string{"HOME=/"})
			mu.Lock()
			base[p.name+"/"+p.target] = o
			mu.Unlock()
			ctx.AddStates(1, 1, 1)
			ctx.Distinct(o)
			for i := 0; i < pick(ctx, 2, 8); i++ {
				f := func() string {
					return fresh(paths[p.name], p.target, root, []string{"HOME=/nonexistent", "LANG=de_DE.UTF-8", "TZ=Asia/Tokyo", "TMPDIR=/tmp", fmt.Sprint("X=", i)})
				}
				ctx.AddStates(1, 1, 1)
				if g := f(); g != o {
					report(part, "two processes transpile "+p.name+" for "+p.target+" differently", p.name+p.target, o, g, f, p.name)
				}
			}
		}
	})
	ctx.Part(part, n, c)
	if ctx.Stop() {
		return
	}
	// relocation
	part = "relocated trees"
	type loc struct {
		name string
		f    func(p Prog, dir string) (string, string) // returns the path to use and the working directory
	}
	locs := []loc{
		{"blanks", func(p Prog, d string) (string, string) { return writeProg(filepath.Join(d, "a b", " c"), p), "/" }},
		{"quotes", func(p Prog, d string) (string, string) {
			return writeProg(filepath.Join(d, "it's \"x\" $HOME `y` %z% !w!"), p), "/"
		}},
		{"unicode", func(p Prog, d string) (string, string) { return writeProg(filepath.Join(d, "ünï/日本"), p), "/" }},
		{"deep", func(p Prog, d string) (string, string) {
			return writeProg(filepath.Join(d, strings.Repeat("deep/", 40)), p), "/"
		}},
		{"relative", func(p Prog, d string) (string, string) {
			writeProg(filepath.Join(d, "r"), p)
			return "main.tsh", filepath.Join(d, "r")
		}},
		{"dotted", func(p Prog, d string) (string, string) {
			writeProg(filepath.Join(d, "r2"), p)
			os.MkdirAll(filepath.Join(d, "other"), 0755)
			return "../r2/./main.tsh", filepath.Join(d, "other")
		}},
		{"unclean", func(p Prog, d string) (string, string) {
			writeProg(filepath.Join(d, "r3"), p)
			return d + "//r3/../r3/./main.tsh", "/"
		}},
		{"symlinked directory", func(p Prog, d string) (string, string) {
			writeProg(filepath.Join(d, "real"), p)
			os.Symlink("real", filepath.Join(d, "link"))
			return filepath.Join(d, "link", "main.tsh"), "/"
		}},
		{"suffix", func(p Prog, d string) (string, string) { return writeProg(filepath.Join(d, "x.tsh"), p), "/" }},
		{"decoys", func(p Prog, d string) (string, string) {
			// files of the same names below and beside the working directory, the
			// program's parent directory and the directories on the way
			f := writeProg(filepath.Join(d, "p", "q"), p)
			cwd := filepath.Join(d, "w", "v")
			srcs := []string{p.Main}
			for _, s := range p.Files {
				srcs = append(srcs, s)
			}
			os.MkdirAll(cwd, 0755)
			for _, s := range srcs {
				for _, m := range importPath.FindAllStringSubmatch(s, -1) {
					for _, root := range []string{cwd, filepath.Join(cwd, "std"), filepath.Join(d, "p", "std"), filepath.Join(d, "w", "std"), filepath.Join(d, "p")} {
						for _, suffix := range []string{"", ".tsh"} {
							g := filepath.Join(root, m[1]+suffix)
							if !strings.HasPrefix(g, d+"/") || strings.HasPrefix(g, filepath.Join(d, "p", "q")) {
								continue
							}
							if _, err := os.Stat(g); err == nil {
								continue
							}
							os.MkdirAll(filepath.Dir(g), 0755)
							os.WriteFile(g, []byte("func F(a int) int {\n\treturn 77\n}\nfunc Index(a string, b string) int {\n\treturn 77\n}\nprint(77)\n"), 0644)
						}
					}
				}
			}
			os.WriteFile(filepath.Join(cwd, "main.tsh"), []byte("print(77)\n"), 0644)
			return f, cwd
		}},
		{"neighbours", func(p Prog, d string) (string, string) {
			f := writeProg(filepath.Join(d, "nb"), p)
			for _, x := range []string{"zz.tsh", "std.tsh", "main.sh", "main.bat", "aa"} {
				os.WriteFile(filepath.Join(d, "nb", x), []byte("print(1)\n"), 0600)
			}
			return f, "/"
		}},
	}
	n, c = h.Parallel(ctx, func(y func(Prog) bool) {
		for _, p := range all {
			if !isFeats(p.Name) && !y(p) {
				return
			}
		}
	}, func(w int) func(Prog) {
		return func(p Prog) {
			for i, l := range locs {
				d := filepath.Join(ctx.Scratch, fmt.Sprintf("loc-%d", w))
				path, cwd := l.f(p, d)
				for _, t := range targets {
					f := func() string { return fresh(path, t, cwd, []string{"HOME=/"}) }
					ctx.AddStates(1, 1, 1)
					if g := f(); g != base[p.Name+"/"+t] {
						report(part, fmt.Sprintf("%s for %s in another location (%s)", p.Name, t, l.name), fmt.Sprint(p.Name, t, i), base[p.Name+"/"+t], g, f, p.Name)
					}
				}
				os.RemoveAll(d)
			}
		}
	})
	ctx.Part(part, n*int64(len(locs)), c)
	// histories on one object
	history := func(part string, names []string, depth int) {
		if ctx.Stop() {
			ctx.Part(part, 0, false)
			return
		}
		var ops []pt
		for _, p := range pts {
			for _, nm := range names {
				if p.name == nm {
					ops = append(ops, p)
				}
			}
		}
		var total int64
		_, c := h.Parallel(ctx, func(y func([]pt) bool) {
			var rec func(h []pt) bool
			rec = func(hh []pt) bool {
				if len(hh) == depth {
					total++
					return y(append([]pt{}, hh...))
				}
				for _, o := range ops {
					if !rec(append(hh, o)) {
						return false
					}
				}
				return true
			}
			rec(nil)
		}, func(w int) func([]pt) {
			return func(hist []pt) {
				run := func() (string, int) {
					t := transpiler.New()
					for i, o := range hist {
						if g := tres(&t, paths[o.name], o.target); g != base[o.name+"/"+o.target] {
							return g, i
						}
					}
					return "", -1
				}
				ctx.AddStates(len(hist)+1, len(hist), 1)
				if g, i := run(); i >= 0 {
					want := base[hist[i].name+"/"+hist[i].target]
					var nm []string
					for _, o := range hist {
						nm = append(nm, o.name)
					}
					report(part, fmt.Sprintf("history %v: call %d", hist, i+1), fmt.Sprint(hist), want, g, func() string {
						g, i2 := run()
						if i2 < 0 {
							return want
						}
						return g + " "
					}, nm...)
				}
			}
		})
		ctx.Part(part, total, c)
	}
	var names []string
	for _, p := range append(all, Prog{Name: "missing"}) {
		if (!strings.HasPrefix(p.Name, "std") || p.Name == "std") && !strings.HasPrefix(p.Name, "feats") {
			names = append(names, p.Name)
		}
	}
	history("histories of 2 calls, all programs", names, 2)
	few := []string{"hello", "funcs", "imp2", "imp3", "switches", "slices", "apps", "builtins", "bad-type", "bad-lex", "bad-import", "missing", "bad-brace"}
	history("histories of 3 calls", few, 3)
	if ctx.Thorough() {
		history("histories of 4 calls", []string{"funcs", "imp3", "slices", "switches", "bad-type", "bad-lex", "missing"}, 4)
	}
	// the content of the files changes between the calls
	if !ctx.Stop() {
		part = "edited files"
		pl := []Prog{
			{Name: "e1", Main: "import m \"m.tsh\"\nprint(m.F(1))\n", Files: map[string]string{"m.tsh": "func F(a int) int {\n\treturn a + 1\n}\n"}},
			{Name: "e2", Main: "import m \"m.tsh\"\nprint(m.F(2))\n", Files: map[string]string{"m.tsh": "func F(a int) int {\n\treturn a + 1\n}\n"}},
			{Name: "e3", Main: "import m \"m.tsh\"\nprint(m.F(1))\n", Files: map[string]string{"m.tsh": "func F(a int) int {\n\treturn a + 2\n}\n"}},
			{Name: "e4", Main: "import m \"m.tsh\"\nprint(m.F(1))\n", Files: map[string]string{"m.tsh": "import k \"k.tsh\"\nfunc F(a int) int {\n\treturn a + k.F(1)\n}\n", "k.tsh": "func F(a int) int {\n\treturn a + 1\n}\n"}},
			{Name: "e5", Main: "import m \"m.tsh\"\nprint(m.F(1))\n", Files: map[string]string{"m.tsh": "import k \"k.tsh\"\nfunc F(a int) int {\n\treturn a + k.F(1)\n}\n", "k.tsh": "func F(a int) int {\n\treturn a + 2\n}\n"}},
			{Name: "e6", Main: "import m \"m.tsh\"\nprint(m.F(1))\n", Files: map[string]string{"m.tsh": "func F(a int) string {\n\treturn \"q\"\n}\n"}},
			{Name: "e7", Main: "print(1)\n"},
			{Name: "e8", Main: "print(x)\n"},
			{Name: "e9", Main: "import m \"m.tsh\"\nprint(m.F(1))\n", Files: map[string]string{"m.tsh": "func F(a int) int {\n\treturn b\n}\n"}},
			{Name: "e10", Main: "import m \"m.tsh\"\nprint(m.F(1))\n"},
		}
		for _, p := range pl {
			writeProg(filepath.Join(root, p.Name), p)
			for _, t := range targets {
				base[p.Name+"/"+t] = fresh(filepath.Join(root, p.Name, "main.tsh"), t, "/", []string{"HOME=/"})
			}
		}
		var total int64
		depth := pick(ctx, 3, 4)
		_, c := h.Parallel(ctx, func(y func([]int) bool) {
			var rec func(hh []int) bool
			rec = func(hh []int) bool {
				if len(hh) == depth {
					total += 4
					return y(append([]int{}, hh...))
				}
				for i := range pl {
					if !rec(append(hh, i)) {
						return false
					}
				}
				return true
			}
			rec(nil)
		}, func(w int) func([]int) {
			return func(hist []int) {
				for mode := 0; mode < 4; mode++ {
					run := func() (string, int, string) {
						d := filepath.Join(ctx.Scratch, fmt.Sprintf("edit-%d", w))
						defer os.RemoveAll(d)
						old := time.Unix(1700000000, 0)
						tr := transpiler.New()
						for i, k := range hist {
							for _, f := range []string{"m.tsh", "k.tsh"} {
								os.Remove(filepath.Join(d, f))
							}
							f := writeProg(d, pl[k])
							if mode&1 == 1 { // the time of the last change tells nothing
								for _, g := range []string{"main.tsh", "m.tsh", "k.tsh"} {
									os.Chtimes(filepath.Join(d, g), old, old)
								}
							}
							if mode&2 == 2 { // a new object, the same process
								tr = transpiler.New()
							}
							t := targets[(mode+i)%2]
							if i%3 == 2 {
								t = targets[mode%2]
							}
							if g := tres(&tr, f, t); g != base[pl[k].Name+"/"+t] {
								return g, i, base[pl[k].Name+"/"+t]
							}
						}
						return "", -1, ""
					}
					ctx.AddStates(len(hist)+1, len(hist), 1)
					if g, i, want := run(); i >= 0 {
						report(part, fmt.Sprintf("history %v of contents of the same files (mode %d): call %d", hist, mode, i+1), fmt.Sprint(hist, mode), want, g, func() string {
							g, i2, _ := run()
							if i2 < 0 {
								return want
							}
							return g + " "
						})
						return
					}
				}
			}
		})
		ctx.Part(part, total, c)
	}
	c14sizes(ctx, all, root, base, fresh, report)
	// map iteration orders
	part = "map iteration orders (start offsets chosen by the explorer)"
	bin := os.Getenv("VERIF_MAPBIN")
	if bin == "" {
		ctx.Extra("note", "the runtime overlay did not build; map orders were only repeated")
		ctx.Part(part, 0, false)
		return
	}
	var runs, iters, choice int64
	_, c = h.Parallel(ctx, func(y func(pt) bool) {
		for _, p := range pts {
			if !strings.HasPrefix(p.name, "std") && p.name != "missing" && !y(p) {
				return
			}
		}
	}, func(w int) func(pt) {
		return func(p pt) {
			f := func() mapOrderResult {
				var r mapOrderResult
				pairs := "single"
				if ctx.Thorough() {
					pairs = "pairs"
				}
				o, err := exec.Command(bin, "maporder", paths[p.name], p.target, pairs, fmt.Sprint(pick(ctx, 20000, 60000))).Output()
				if err != nil {
					r.Diff = "process failed: " + err.Error()
					return r
				}
				json.Unmarshal(o, &r)
				return r
			}
			r := f()
			mu.Lock()
			runs += int64(r.Runs)
			iters += int64(r.Iterations)
			choice += int64(r.Choice)
			mu.Unlock()
			ctx.AddStates(r.Runs, r.Iterations, r.Runs)
			if r.Truncated {
				ctx.Part(part, 0, false)
			}
			if r.Diff != "" {
				report(part, fmt.Sprintf("%s for %s depends on the order of map iteration (iterations %v, base %d)", p.name, p.target, r.Where, r.Base), p.name+p.target+"map", r.Script, r.Diff, func() string {
					r := f()
					if r.Diff != "" {
						return r.Diff + " "
					}
					return r.Script
				}, p.name)
			}
		}
	})
	ctx.Part(part, runs, c)
	// the surroundings
	part = "worlds (clock, environment, host, process and user numbers)"
	var worlds int64
	looked := map[string]int{}
	_, c2 := h.Parallel(ctx, func(y func(pt) bool) {
		for _, p := range pts {
			if !y(p) {
				return
			}
		}
	}, func(w int) func(pt) {
		return func(p pt) {
			f := func() (r mapOrderResult) {
				o, err := exec.Command(bin, "ambient", paths[p.name], p.target).Output()
				if err != nil {
					r.Diff = "process failed: " + err.Error()
					return
				}
				json.Unmarshal(o, &r)
				return
			}
			r := f()
			mu.Lock()
			worlds += int64(r.Runs)
			for _, k := range r.Asked {
				looked[k]++
			}
			mu.Unlock()
			ctx.AddStates(r.Runs, r.Runs, r.Runs)
			if r.Diff != "" {
				report(part, fmt.Sprintf("%s for %s depends on the surroundings (%s)", p.name, p.target, r.What), p.name+p.target+"amb", r.Script, r.Diff, func() string {
					r := f()
					if r.Diff != "" {
						return r.Diff + " "
					}
					return r.Script
				}, p.name)
			}
		}
	})
	ctx.Part(part, worlds, c2)
	ctx.Extra("surroundings looked at", looked)
	ctx.Extra("map iterations", iters)
	ctx.Extra("map iterations with a choice", choice)
	// repetition in one process (any remaining source of randomness)
	part = "repetitions"
	reps := pick(ctx, 40, 400)
	n, c = h.Parallel(ctx, func(y func(pt) bool) {
		for _, p := range pts {
			if (!strings.HasPrefix(p.name, "std") || p.name == "std-both") && !isFeats(p.name) && !y(p) {
				return
			}
		}
	}, func(w int) func(pt) {
		return func(p pt) {
			t := transpiler.New()
			for i := 0; i < reps; i++ {
				ctx.AddStates(1, 1, 1)
				if g := tres(&t, paths[p.name], p.target); g != base[p.name+"/"+p.target] {
					report(part, fmt.Sprintf("repetition %d of %s for %s", i, p.name, p.target), p.name+p.target+"rep", base[p.name+"/"+p.target], g, func() string { return tres(&t, paths[p.name], p.target) }, p.name)
					return
				}
			}
		}
	})
	ctx.Part(part, n*int64(reps), c)
}
