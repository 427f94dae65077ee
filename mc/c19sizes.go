package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verifmc/h"
)

// c19sizes: lengths of names and directories, numbers of options, sizes of outputs.
func c19sizes(ctx *h.Ctx, bin string) {
	good := "x := 1\nprint(x)\n"
	sets := [][]string{{"bash"}, {"batch"}, {"batch", "bash"}}
	args := func(in, out string, ts []string) []string {
		a := []string{"-i", in, "-o", out}
		for _, t := range ts {
			a = append(a, "-t", t)
		}
		return a
	}
	cliRun(ctx, bin, "lengths of names", func(y func(cliCase) bool) {
		for n := 1; n <= 255; n++ {
			for e := -1; e <= 12; e++ { // the length of the extension, -1: no dot
				if e != 3 && e != -1 && n%16 != 1 && n < 240 && !ctx.Thorough() {
					continue
				}
				name := strings.Repeat("n", n)
				if e >= 0 {
					name += "." + strings.Repeat("e", e)
				}
				if len(name) > 255 {
					continue
				}
				for k, ts := range sets {
					if !ctx.Thorough() && (n+e+k)%3 != 0 && e != 3 {
						continue
					}
					c := cliCase{name: "name length", prep: map[string]string{name: good}, dirs: []string{"out"}, args: args("§/"+name, "§/out", ts), input: name, out: "out", want: ts}
					if n+6 > 255 {
						if len(ts) > 1 {
							continue // one target may fit, the other not
						}
						if n+1+len(extOf(ts[0])) > 255 {
							c.want = nil
						}
					}
					if !y(c) {
						return
					}
				}
			}
		}
		// numbers of dots and of repeated parts
		for n := 1; n <= 60; n++ {
			for _, name := range []string{strings.Repeat("a.", n) + "tsh", "a" + strings.Repeat(".", n) + "tsh", strings.Repeat("tsh.", n) + "tsh", strings.Repeat("a b ", n) + ".tsh", strings.Repeat("é", n) + ".tsh", "x." + strings.Repeat("sh.", n) + "bat.tsh"} {
				if len(name) > 250 {
					continue
				}
				if !y(cliCase{name: "dots", prep: map[string]string{name: good}, dirs: []string{"out"}, args: args("§/"+name, "§/out", sets[2]), input: name, out: "out", want: sets[2]}) {
					return
				}
			}
		}
	})
	cliRun(ctx, bin, "lengths of directories", func(y func(cliCase) bool) {
		for n := 1; n <= pick(ctx, 300, 1500); n++ {
			s := ""
			for len(s) < n {
				s += strings.Repeat("d", min(n-len(s), 120))
				if len(s) < n {
					s += "/"
				}
			}
			for k, ts := range sets {
				if !ctx.Thorough() && n%3 != k {
					continue
				}
				if !y(cliCase{name: "input directory", prep: map[string]string{s + "/a.tsh": good}, dirs: []string{"out"}, args: args("§/"+s+"/a.tsh", "§/out", ts), input: s + "/a.tsh", out: "out", want: ts}) ||
					!y(cliCase{name: "output directory", prep: map[string]string{"a.tsh": good}, dirs: []string{"o" + s}, args: args("a.tsh", "o"+s, ts), input: "a.tsh", out: "o" + s, want: ts}) {
					return
				}
			}
		}
	})
	cliRun(ctx, bin, "imports and working directories", func(y func(cliCase) bool) {
		lib := func(n int) string { return fmt.Sprintf("func F(a int) int {\n\treturn a + %d\n}\n", n) }
		for _, main := range []string{"import m \"m.tsh\"\nprint(m.F(1))\n", "import (\n\tm \"m.tsh\"\n\tn \"sub/n.tsh\"\n)\nprint(m.F(1), n.F(2))\n", "import m \"../up.tsh\"\nprint(m.F(1))\n", "import \"strings\"\nprint(strings.Index(\"ab\", \"b\"))\n", "import (\n\t\"strings\"\n\tm \"./sub/../m.tsh\"\n)\nprint(strings.Index(\"ab\", \"b\"), m.F(3))\n", "import m \"missing.tsh\"\nprint(m.F(1))\n"} {
			for _, cwd := range []string{"", "src", "src/sub", "other", "other/deep", "out"} {
				for _, abs := range []bool{true, false} {
					for _, decoys := range []bool{false, true} {
						for _, ts := range sets {
							prep := map[string]string{"src/a.tsh": main, "src/m.tsh": lib(1), "src/sub/n.tsh": "import k \"k.tsh\"\nfunc F(a int) int {\n\treturn k.F(a)\n}\n", "src/sub/k.tsh": lib(2), "up.tsh": lib(3), "other/deep/x": "", "out/y": ""}
							if decoys {
								for _, d := range []string{"", "other/", "other/deep/", "out/", "src/sub/"} {
									for _, f := range []string{"m.tsh", "n.tsh", "k.tsh", "up.tsh", "sub/n.tsh", "missing.tsh", "a.tsh", "strings", "strings.tsh", "std/strings.tsh"} {
										if _, ok := prep[d+f]; !ok {
											prep[d+f] = lib(99)
										}
									}
								}
							}
							in, out := "§/src/a.tsh", "§/out"
							if !abs {
								in, _ = filepath.Rel("/"+cwd, "/src/a.tsh")
								out, _ = filepath.Rel("/"+cwd, "/out")
							}
							c := cliCase{name: "working directory", prep: prep, cwd: cwd, args: args(in, out, ts), input: "src/a.tsh", out: "out", want: ts}
							if strings.Contains(main, "missing") {
								c.want = nil
							}
							if !y(c) {
								return
							}
						}
					}
				}
			}
		}
	})
	cliRun(ctx, bin, "numbers of targets", func(y func(cliCase) bool) {
		for n := 1; n <= 64; n++ {
			for odd := 0; odd <= n; odd++ { // all of one kind but for one place
				for k := range targets {
					if n > 12 && odd%8 != 0 && odd != n-1 && odd != n || n > 24 && n%4 > 1 && !ctx.Thorough() {
						continue
					}
					var ts []string
					for i := 0; i < n; i++ {
						t := targets[k]
						if i == odd {
							t = targets[1-k]
						}
						ts = append(ts, t)
					}
					if !y(cliCase{name: "targets", prep: map[string]string{"a.tsh": good, "out/a.sh": "old\n"}, args: args("§/a.tsh", "§/out", ts), input: "a.tsh", out: "out", want: ts}) {
						return
					}
					// the same number of options, the odd one being wrong
					if odd < n {
						bad := append([]string{}, ts...)
						bad[odd] = "bush"
						if !y(cliCase{name: "targets", prep: map[string]string{"a.tsh": good, "out/a.bat": "old\n"}, args: args("§/a.tsh", "§/out", bad), input: "a.tsh", out: "out"}) {
							return
						}
						// a value is missing
						if odd == n-1 && !y(cliCase{name: "targets", prep: map[string]string{"a.tsh": good, "out/a.bat": "old\n"}, args: append(args("§/a.tsh", "§/out", ts), "-t"), input: "a.tsh", out: "out"}) {
							return
						}
					}
				}
			}
		}
	})
	// sizes of the output around every power of two, over nothing, shorter and longer ones
	prog := func(n int) string { // long literals cost quadratic time, therefore at most 2 KB in one
		var b strings.Builder
		for n > 0 {
			k := min(n, 2048)
			b.WriteString("print(\"" + strings.Repeat("0123456789abcdef", k/16) + strings.Repeat("x", k%16) + "\")\n")
			n -= k + 8
		}
		return b.String()
	}
	lines := func(n int) string { return strings.Repeat("print(1)\n", n) }
	cliRun(ctx, bin, "sizes of outputs", func(y func(cliCase) bool) {
		var ns []int
		for k := 4; k <= pick(ctx, 18, 21); k++ {
			for d := -40; d <= 20; d++ {
				if d > -20 && d < 17 && d%4 != 0 && k > 8 && !ctx.Thorough() {
					continue
				}
				if n := 1<<k + d; n > 0 && (k < 15 || d%20 == 0) {
					ns = append(ns, n)
				}
			}
		}
		for i, n := range ns {
			for k, old := range []string{"-", "", strings.Repeat("o", n/2), strings.Repeat("o", n*2+200), strings.Repeat("p", n)} {
				if !ctx.Thorough() && (i+k)%3 != 0 {
					continue
				}
				prep := map[string]string{"a.tsh": prog(n)}
				if old != "-" {
					prep["out/a.sh"], prep["out/a.bat"] = old, old
				}
				ts := sets[(i+k)%3]
				if !y(cliCase{name: "size", prep: prep, dirs: []string{"out"}, args: args("§/a.tsh", "§/out", ts), input: "a.tsh", out: "out", want: ts}) {
					return
				}
			}
		}
		for n := 0; n <= 600; n += pick(ctx, 7, 1) {
			if !y(cliCase{name: "lines", prep: map[string]string{"a.tsh": lines(n), "out/a.sh": lines(n * 2), "out/a.bat": "x"}, args: args("§/a.tsh", "§/out", sets[2]), input: "a.tsh", out: "out", want: sets[2]}) {
				return
			}
		}
	})
	// the disk ends after k blocks: either the whole output or the old one
	cliRun(ctx, bin, "limits at every block", func(y func(cliCase) bool) {
		n := 24 << 10
		if ctx.Thorough() {
			n = 80 << 10
		}
		for k := 1; k <= n>>10+4; k++ {
			for _, t := range targets {
				for _, old := range []string{"-", "old\n", strings.Repeat("q", 500)} {
					prep := map[string]string{"a.tsh": prog(n)}
					if old != "-" {
						prep["out/a."+extOf(t)] = old
					}
					if !y(cliCase{name: "limit", prep: prep, dirs: []string{"out"}, args: args("§/a.tsh", "§/out", []string{t}), input: "a.tsh", out: "out", want: []string{t}, either: true, ulimitF: k}) {
						return
					}
				}
			}
		}
	})
	// every program that is cut off at some place: all or nothing, for both targets
	cliRun(ctx, bin, "cut off programs", func(y func(cliCase) bool) {
		for _, p := range corpus {
			step := 1
			if len(p.Main) > 60 && !ctx.Thorough() {
				step = 1 + len(p.Main)/24
			}
			for i := 0; i < len(p.Main); i += step {
				prep := map[string]string{"src/main.tsh": p.Main[:i], "out/main.sh": "old\n"}
				for k, v := range p.Files {
					prep["src/"+k] = v
				}
				d := filepath.Join(ctx.Scratch, "probe2")
				q := p
				q.Main = p.Main[:i]
				bad := h.TranspileFile(writeProg(d, q), "bash").Err != nil
				os.RemoveAll(d)
				c := cliCase{name: fmt.Sprint(p.Name, " cut at ", i), prep: prep, dirs: []string{"out"}, args: args("§/src/main.tsh", "§/out", sets[2]), input: "src/main.tsh", out: "out", want: sets[2]}
				if bad {
					c.want = nil
				}
				if !y(c) {
					return
				}
			}
		}
	})
}
