package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verifmc/h"
)

// cliCase is one invocation of the command in a prepared directory.
type cliCase struct {
	name    string
	prep    map[string]string // files below the case's directory
	dirs    []string
	links   map[string]string // link -> target
	cwd     string
	args    []string // "§" is replaced by the case's directory
	input   string   // file given by -i (relative to the directory)
	out     string   // output directory (relative)
	want    []string // requested targets; nil: must fail
	either  bool     // success and failure are both possible, but not a mixture
	ulimitF int      // size limit in 1024-byte blocks
	also    []string // further files which may appear
}

func snapshot(root string) map[string]string {
	m := map[string]string{}
	filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		switch {
		case i.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			m[rel] = "link " + t
		case i.IsDir():
			m[rel] = "dir"
		default:
			b, _ := os.ReadFile(p)
			m[rel] = "file " + string(b)
		}
		return nil
	})
	return m
}

func extOf(target string) string { return h.Conv(target).Extension() }

type cliRunner struct {
	bin string
	dir string
}

func (r cliRunner) invoke(c cliCase, args []string) (exit int, stderr string) {
	var a []string
	for _, x := range args {
		a = append(a, strings.ReplaceAll(x, "§", r.dir))
	}
	cmd := exec.Command(r.bin, a...)
	if c.ulimitF > 0 {
		cmd = exec.Command("/bin/bash", append([]string{"-c", fmt.Sprintf("ulimit -f %d; exec \"$0\" \"$@\"", c.ulimitF), r.bin}, a...)...)
	}
	cmd.Dir = filepath.Join(r.dir, c.cwd)
	cmd.Env = []string{"HOME=/nonexistent", "GOTRACEBACK=single"}
	var se bytes.Buffer
	cmd.Stderr = &se
	cmd.WaitDelay = 5 * time.Second
	if err := cmd.Start(); err != nil {
		return -99, err.Error()
	}
	tm := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
	cmd.Wait()
	tm.Stop()
	return cmd.ProcessState.ExitCode(), se.String()
}

func (r cliRunner) prepare(c cliCase) {
	os.RemoveAll(r.dir)
	os.MkdirAll(r.dir, 0755)
	for _, d := range c.dirs {
		os.MkdirAll(filepath.Join(r.dir, d), 0755)
	}
	for n, s := range c.prep {
		p := filepath.Join(r.dir, n)
		os.MkdirAll(filepath.Dir(p), 0755)
		os.WriteFile(p, []byte(s), 0644)
	}
	for l, t := range c.links {
		p := filepath.Join(r.dir, l)
		os.MkdirAll(filepath.Dir(p), 0755)
		os.Symlink(t, p)
	}
}

// judge runs the case and returns what is wrong.
func (r cliRunner) judge(c cliCase) string {
	r.prepare(c)
	defer os.RemoveAll(r.dir)
	before := snapshot(r.dir)
	exp := map[string]string{}
	for k, v := range before {
		exp[k] = v
	}
	if c.want != nil {
		base := filepath.Base(c.input)
		base = base[:len(base)-len(filepath.Ext(base))]
		for _, t := range c.want {
			res := h.TranspileFile(filepath.Join(r.dir, c.input), t)
			if res.Err != nil {
				return "library rejects the program of an accepting case: " + res.Err.Error()
			}
			exp[filepath.Join(c.out, base+"."+extOf(t))] = "file " + res.Script
		}
	}
	exit, se := r.invoke(c, c.args)
	after := snapshot(r.dir)
	diff := func(want map[string]string) string {
		var ks []string
		for k := range want {
			ks = append(ks, k)
		}
		for k := range after {
			if _, ok := want[k]; !ok {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			w, ok1 := want[k]
			g, ok2 := after[k]
			if c.ulimitF > 0 && !ok1 && strings.HasPrefix(filepath.Base(k), ".") {
				continue // a left-over temporary file of a killed process
			}
			switch {
			case !ok1:
				return fmt.Sprintf("unexpected file %q", k)
			case !ok2:
				return fmt.Sprintf("missing file %q", k)
			case w != g:
				return fmt.Sprintf("content of %q: %s", k, firstDifference(w, g))
			}
		}
		return ""
	}
	okDiff := diff(exp)
	if c.want == nil || c.either && exit != 0 {
		if exit == 0 && c.want == nil {
			return "exit status 0 for an erroneous invocation"
		}
		if d := diff(before); d != "" {
			return "failed invocation left traces: " + d
		}
		return ""
	}
	if exit != 0 {
		return fmt.Sprintf("exit status %d: %s", exit, cut(strings.TrimSpace(se), 200))
	}
	if okDiff != "" {
		return okDiff
	}
	return ""
}

func permutations(l [][]string, y func([]string) bool) bool {
	var rec func(rest [][]string, acc []string) bool
	rec = func(rest [][]string, acc []string) bool {
		if len(rest) == 0 {
			return y(append([]string{}, acc...))
		}
		seen := map[string]bool{}
		for i, x := range rest {
			k := strings.Join(x, "\x00")
			if seen[k] {
				continue
			}
			seen[k] = true
			r2 := append(append([][]string{}, rest[:i]...), rest[i+1:]...)
			if !rec(r2, append(append([]string{}, acc...), x...)) {
				return false
			}
		}
		return true
	}
	return rec(l, nil)
}

func cliRun(ctx *h.Ctx, bin, part string, g func(y func(cliCase) bool)) {
	if ctx.Stop() {
		ctx.Part(part, 0, false)
		return
	}
	n, c := h.Parallel(ctx, g, func(w int) func(cliCase) {
		r := cliRunner{bin, filepath.Join(ctx.Scratch, fmt.Sprintf("%s-%d", key(part), w))}
		return func(c cliCase) {
			ctx.AddStates(1, 1, 1)
			ctx.Sample(map[string]interface{}{"part": part, "args": c.args, "files": len(c.prep), "must_succeed": c.want})
			d := r.judge(c)
			if d == "" {
				return
			}
			files := map[string]string{"args": strings.Join(c.args, "\n"), "cwd": c.cwd}
			for k, v := range c.prep {
				files["tree/"+k] = v
			}
			ctx.Report(h.Violation{Key: key(c.name + strings.Join(c.args, " ")), What: fmt.Sprintf("[%s] %s: tsh %s: %s", part, c.name, strings.Join(c.args, " "), d), Files: files,
				Recheck: func() bool {
					rr := cliRunner{bin, r.dir + "-re"}
					return rr.judge(c) != ""
				}})
		}
	})
	ctx.Part(part, n, c)
}

func c19(ctx *h.Ctx) {
	bin := os.Getenv("VERIF_TSH")
	if bin == "" {
		fmt.Println("VERIF_TSH is not set")
		os.Exit(2)
	}
	ctx.Assume("left open and not judged: several different -i or -o options, names that consist of an extension only")
	good := "x := 1\nprint(x)\n"
	opt := func(k string, long bool) string {
		if long {
			return map[string]string{"i": "--in", "o": "--out", "t": "--type"}[k]
		}
		return "-" + k
	}
	sets := [][]string{{"bash"}, {"batch"}, {"bash", "batch"}, {"batch", "bash"}, {"bash", "bash"}, {"batch", "batch"}, {"bash", "batch", "bash"}, {"batch", "batch", "bash"}, {"bash", "bash", "bash"}}
	cliRun(ctx, bin, "option orders and repetitions", func(y func(cliCase) bool) {
		for _, s := range sets {
			for long := 0; long < 8; long++ {
				parts := [][]string{{opt("i", long&1 > 0), "§/a.tsh"}, {opt("o", long&2 > 0), "§/out"}}
				for _, t := range s {
					parts = append(parts, []string{opt("t", long&4 > 0), t})
				}
				if !permutations(parts, func(a []string) bool {
					return y(cliCase{name: "order", prep: map[string]string{"a.tsh": good}, dirs: []string{"out"}, args: a, input: "a.tsh", out: "out", want: s})
				}) {
					return
				}
			}
		}
	})
	cliRun(ctx, bin, "input names and locations", func(y func(cliCase) bool) {
		names := []string{"a.tsh", "a.b.tsh", "a.b.c.d", "noext", "a b.tsh", " lead.tsh", "trail .tsh", "ä.tsh", "日本.tsh", "x.tsh.tsh", "x.txt", "-i.tsh", "-t", "--out", "a'b.tsh", "a\"b.tsh", "$HOME.tsh", "a*b.tsh", "%s.tsh", "a\\b.tsh", ".hidden.tsh", "a..tsh", "A.TSH", strings.Repeat("l", 200) + ".tsh", "s.sh", "s.bat", "a.sh.tsh", "1"}
		for _, n := range names {
			for _, loc := range []struct{ sub, out, cwd, in, o string }{
				{"", "out", "", "§/", "§/out"}, {"", "", "", "§/", "§"}, {"in", "out", "in", "./", "../out"}, {"in", "in", "in", "", "."}, {"in/deep.er", "o.ut", "", "in/deep.er/", "o.ut/"}, {"in", "out x", "out x", "../in/", "../out x"}, {"in", "out", "", "in/../in/", "./out/../out"},
			} {
				for _, ts := range [][]string{{"bash"}, {"batch", "bash"}} {
					c := cliCase{name: "name", prep: map[string]string{filepath.Join(loc.sub, n): good}, dirs: []string{loc.out, "x"}, cwd: loc.cwd, input: filepath.Join(loc.sub, n), out: loc.out, want: ts}
					c.args = []string{"-i", loc.in + n, "-o", loc.o}
					for _, t := range ts {
						c.args = append(c.args, "-t", t)
						base := n[:len(n)-len(filepath.Ext(n))]
						if filepath.Clean(filepath.Join(loc.out, base+"."+extOf(t))) == filepath.Clean(filepath.Join(loc.sub, n)) {
							c.want = nil // would overwrite the input
						}
					}
					if c.want == nil && len(ts) == 2 {
						continue // the other target may have been written
					}
					if !y(c) {
						return
					}
				}
			}
		}
	})
	olds := []string{"-", "", "old content\n", good, strings.Repeat("previous output\n", 4000)}
	cliRun(ctx, bin, "programs x targets x previous outputs", func(y func(cliCase) bool) {
		progs := append(append([]Prog{}, corpus...), manyProgs()...)
		for _, p := range progs {
			bad := h.TranspileFile(writeProg(filepath.Join(ctx.Scratch, "probe"), p), "bash").Err != nil
			os.RemoveAll(filepath.Join(ctx.Scratch, "probe"))
			for _, ts := range [][]string{{"bash"}, {"batch"}, {"bash", "batch"}, {"batch", "bash", "batch"}} {
				for _, old := range olds {
					prep := map[string]string{"src/main.tsh": p.Main, "out/other.sh": "keep\n"}
					for k, v := range p.Files {
						prep["src/"+k] = v
					}
					if old != "-" {
						prep["out/main.sh"], prep["out/main.bat"] = old, old
					}
					c := cliCase{name: p.Name, prep: prep, dirs: []string{"out"}, args: []string{"-i", "§/src/main.tsh", "-o", "§/out"}, input: "src/main.tsh", out: "out", want: ts}
					if bad {
						c.want = nil
					}
					for _, t := range ts {
						c.args = append(c.args, "-t", t)
					}
					if !y(c) {
						return
					}
				}
			}
		}
	})
	cliRun(ctx, bin, "bad invocations", func(y func(cliCase) bool) {
		I, O, T := []string{"-i", "§/a.tsh"}, []string{"-o", "§/out"}, []string{"-t", "bash"}
		pieces := [][]string{I, O, T, {"-t", "batch"}, {"-t", "sh"}, {"-t", ""}, {"-t", "Bash"}, {"-t", "bash "}, {"-i", "§/none.tsh"}, {"-i", "§/out"}, {"-i", ""}, {"-o", "§/none"}, {"-o", "§/a.tsh"}, {"-o", ""}, {"-x", "1"}, {"-h"}, {"--help"}, {"-i"}, {"-o"}, {"-t"}, {"a.tsh"}, {"--"}, {""}, {"-i=§/a.tsh"}, {"--type=bash"}, {"-I", "§/a.tsh"}}
		valid := func(a []string) (ts []string, open bool) {
			in, out, bad := 0, 0, len(a)%2 == 1
			for i := 0; i+1 < len(a); i += 2 {
				switch a[i] {
				case "-i", "--in":
					in++
					if a[i+1] != "§/a.tsh" {
						bad = true
					}
				case "-o", "--out":
					out++
					if a[i+1] != "§/out" {
						bad = true
					}
				case "-t", "--type":
					if a[i+1] != "bash" && a[i+1] != "batch" {
						bad = true
					}
					ts = append(ts, a[i+1])
				default:
					bad = true
				}
			}
			if bad || in == 0 || out == 0 || len(ts) == 0 {
				return nil, false
			}
			return ts, false
		}
		var rec func(acc []string, n int) bool
		rec = func(acc []string, n int) bool {
			ts, _ := valid(acc)
			c := cliCase{name: "args", prep: map[string]string{"a.tsh": good, "out/a.sh": "old\n"}, dirs: []string{"out"}, args: acc, input: "a.tsh", out: "out", want: ts}
			if !y(c) {
				return false
			}
			if n == 0 {
				return true
			}
			for _, p := range pieces {
				if !rec(append(append([]string{}, acc...), p...), n-1) {
					return false
				}
			}
			return true
		}
		if !rec(nil, pick(ctx, 2, 3)) {
			return
		}
		// complete invocations with one more piece at every place
		for _, p := range pieces {
			for at := 0; at <= 3; at++ {
				l := [][]string{I, O, T}
				var a []string
				for k := 0; k <= 3; k++ {
					if k == at {
						a = append(a, p...)
					}
					if k < 3 {
						a = append(a, l[k]...)
					}
				}
				ts, _ := valid(a)
				if !y(cliCase{name: "args", prep: map[string]string{"a.tsh": good, "out/a.bat": "old\n"}, dirs: []string{"out"}, args: a, input: "a.tsh", out: "out", want: ts}) {
					return
				}
			}
		}
	})
	big := "x := \"" + strings.Repeat("0123456789", 400) + "\"\nprint(x)\n"
	cliRun(ctx, bin, "unwritable outputs", func(y func(cliCase) bool) {
		for _, s := range []string{good, big, big + strings.Repeat("x = "+big[5:], 20)} {
			for _, t := range targets {
				e := "a." + extOf(t)
				a := []string{"-i", "§/a.tsh", "-o", "§/out", "-t", t}
				cs := []cliCase{
					{name: "output is a directory", prep: map[string]string{"a.tsh": s}, dirs: []string{"out/" + e}, args: a},
					{name: "output is a non-empty directory", prep: map[string]string{"a.tsh": s, "out/" + e + "/f": "x"}, args: a},
					{name: "output is a link to a full device", prep: map[string]string{"a.tsh": s}, links: map[string]string{"out/" + e: "/dev/full"}, args: a, input: "a.tsh", out: "out", want: []string{t}, either: true},
					{name: "output is a dangling link", prep: map[string]string{"a.tsh": s}, links: map[string]string{"out/" + e: "nowhere/x"}, args: a, input: "a.tsh", out: "out", want: []string{t}, either: true},
					{name: "output is a link to the input", prep: map[string]string{"a.tsh": s}, links: map[string]string{"out/" + e: "../a.tsh"}, args: a, input: "a.tsh", out: "out", want: []string{t}, either: true},
					{name: "output directory is a link", prep: map[string]string{"a.tsh": s}, dirs: []string{"real"}, links: map[string]string{"out": "real"}, args: a, input: "a.tsh", out: "real", want: []string{t}},
					{name: "input is a link", prep: map[string]string{"b.tsh": s}, dirs: []string{"out"}, links: map[string]string{"a.tsh": "b.tsh"}, args: a, input: "a.tsh", out: "out", want: []string{t}},
				}
				if s != good {
					for _, old := range []string{"-", "old\n"} {
						p := map[string]string{"a.tsh": s}
						if old != "-" {
							p["out/"+e] = old
						}
						cs = append(cs, cliCase{name: "file size limit", prep: p, dirs: []string{"out"}, args: a, ulimitF: 2})
					}
				}
				for _, c := range cs {
					if !y(c) {
						return
					}
				}
			}
		}
	})
	// histories: successive invocations in one directory
	part := "histories of invocations"
	hist := func() {
		if ctx.Stop() {
			ctx.Part(part, 0, false)
			return
		}
		type op struct {
			prog string
			ts   []string
		}
		long := "func f() string {\n\treturn \"" + strings.Repeat("z", 500) + "\"\n}\nprint(f())\n"
		var ops []op
		for _, p := range []string{good, long, "", "x := \n", "x := 1\nx = \"a\"\n"} {
			for _, ts := range [][]string{{"bash"}, {"batch"}, {"bash", "batch"}, {"bash", "bash"}} {
				ops = append(ops, op{p, ts})
			}
		}
		depth := pick(ctx, 2, 3)
		n, c := h.Parallel(ctx, func(y func([]op) bool) {
			var rec func(acc []op) bool
			rec = func(acc []op) bool {
				if len(acc) == depth {
					return y(append([]op{}, acc...))
				}
				for _, o := range ops {
					if !rec(append(acc, o)) {
						return false
					}
				}
				return true
			}
			rec(nil)
		}, func(w int) func([]op) {
			return func(l []op) {
				run := func(dir string) string {
					r := cliRunner{bin, dir}
					c := cliCase{dirs: []string{"out"}}
					r.prepare(c)
					defer os.RemoveAll(dir)
					want := snapshot(dir)
					for i, o := range l {
						os.WriteFile(filepath.Join(dir, "a.tsh"), []byte(o.prog), 0644)
						want["a.tsh"] = "file " + o.prog
						a := []string{"-o", "§/out", "-i", "§/a.tsh"}
						bad := false
						for _, t := range o.ts {
							a = append(a, "-t", t)
							res := h.TranspileFile(filepath.Join(dir, "a.tsh"), t)
							if res.Err != nil {
								bad = true
							} else {
								want["out/a."+extOf(t)] = "file " + res.Script
							}
						}
						exit, _ := r.invoke(c, a)
						if (exit != 0) != bad {
							return fmt.Sprintf("call %d exits with %d", i+1, exit)
						}
						got := snapshot(dir)
						for k, v := range want {
							if got[k] != v {
								return fmt.Sprintf("after call %d: content of %q: %s", i+1, k, firstDifference(v, got[k]))
							}
						}
						if len(got) != len(want) {
							return fmt.Sprintf("after call %d: %d files, want %d", i+1, len(got), len(want))
						}
					}
					return ""
				}
				ctx.AddStates(len(l)+1, len(l), 1)
				if d := run(filepath.Join(ctx.Scratch, fmt.Sprintf("hist-%d", w))); d != "" {
					ctx.Report(h.Violation{Key: key(fmt.Sprint(l)), What: fmt.Sprintf("[%s] %q: %s", part, fmt.Sprint(l), d), Files: map[string]string{"history": fmt.Sprint(l)},
						Recheck: func() bool { return run(filepath.Join(ctx.Scratch, fmt.Sprintf("hist-re-%d", w))) != "" }})
				}
			}
		})
		ctx.Part(part, n, c)
	}
	hist()
	c19sizes(ctx, bin)
}
