package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifmc/h"
)

// fsOp is one operation of a history; p and q are path expressions.
type fsOp struct {
	name   string
	code   func(p, q string, k int) string // k = position
	reads  bool                            // needs p to exist
	readsQ bool
	writes bool
}

var fsContents = []string{"", "a", "b c", "l1\nl2", "\n", " $x `y` \"z\" \\ * ", "-n", "x\n"}

func fsOps(thorough bool) []fsOp {
	w := func(c string, mode string) fsOp {
		return fsOp{name: "w", writes: true, code: func(p, q string, k int) string {
			return fmt.Sprintf("write(%s, %s%s)\n", p, strconv.Quote(c), mode)
		}}
	}
	rd := fsOp{name: "r", reads: true, code: func(p, q string, k int) string { return fmt.Sprintf("print(\"[\" + read(%s) + \"]\")\n", p) }}
	ops := []fsOp{
		w("a", ""), w("l1\nl2", ""), w("", ""),
		w("b c", ", true"), w("", ", true"), w("x\n", ", true"), w("-n", ", false"),
		rd,
		{name: "e", code: func(p, q string, k int) string { return fmt.Sprintf("print(exists(%s), !exists(%s))\n", p, q) }},
		{name: "cp", readsQ: true, writes: true, code: func(p, q string, k int) string { return fmt.Sprintf("write(%s, read(%s))\n", p, q) }},
		{name: "cpa", readsQ: true, writes: true, code: func(p, q string, k int) string { return fmt.Sprintf("write(%s, read(%s), true)\n", p, q) }},
		{name: "self", reads: true, writes: true, code: func(p, q string, k int) string {
			return fmt.Sprintf("write(%s, read(%s) + \"+\" + read(%s))\n", p, p, p)
		}},
		{name: "cond", writes: true, code: func(p, q string, k int) string { return fmt.Sprintf("write(%s, \"c\", exists(%s))\n", p, q) }},
		{name: "if", writes: true, code: func(p, q string, k int) string {
			return fmt.Sprintf("if exists(%s) {\nwrite(%s, \"has\", true)\n} else {\nwrite(%s, \"new\")\n}\n", p, p, p)
		}},
	}
	if thorough {
		ops = append(ops,
			w(" $x `y` \"z\" \\ * ", ""), w("\n", ", true"),
			fsOp{name: "loop", writes: true, code: func(p, q string, k int) string {
				return fmt.Sprintf("for i%d := 0; i%d < 3; i%d++ {\nwrite(%s, itoa(i%d), i%d > 0)\n}\n", k, k, k, p, k, k)
			}},
			fsOp{name: "keep", reads: true, code: func(p, q string, k int) string {
				return fmt.Sprintf("v%d := read(%s)\nwrite(%s, \"other\")\nprint(v%d)\n", k, p, p, k)
			}})
	}
	return ops
}

// fsPaths are path shapes; d/, "d e/" exist as directories.
var fsPaths = []string{
	"f", "f.txt", "a b", " lead", "trail ", "a  b", "d/f", "d e/f g", "./f", "d/../f", "-f", "-n", "--", "-", "x*", "x?", "[ab]", "$HOME", "${x}", "$(touch canary)", "`touch canary`", "a;b", "a&b", "a|b", "a>b", "a<b",
	"'q'", "\"q\"", "a\\b", "a\\\\b", "~", "~root", "{a,b}", "#c", "a#b", "a%b", "!x", "a!b", "(p)", "=x", "a=b", "@x", "^x", "a:b", "a,b", "a\nb", "a\tb", "1", "0", "2>x", ">x", "&1", "\\n", "*", "?", "...", ".hidden", "%s", "a'b", "a\"b", "]", "\\", "$", "_h0", "{", "}",
}

var fsDirs = map[string]string{"d/": "", "d e/": "", "keep": "untouched\n", "d/keep": "untouched too\n", "x1": "bait\n"}

// fsProgram places the history into a context.
func fsProgram(ops []fsOp, pick []int, ps [2]string, ctxName string) string {
	p0, p1 := strconv.Quote(ps[0]), strconv.Quote(ps[1])
	var b strings.Builder
	seq := func(a, c string) string {
		var s strings.Builder
		for k, o := range pick {
			op := ops[o/2]
			if o%2 == 0 {
				s.WriteString(op.code(a, c, k))
			} else {
				s.WriteString(op.code(c, a, k))
			}
		}
		return s.String()
	}
	switch ctxName {
	case "top":
		b.WriteString(seq(p0, p1))
	case "vars":
		fmt.Fprintf(&b, "p := %s\nq := %s\n", p0, p1)
		b.WriteString(seq("p", "q"))
		b.WriteString("print(p)\nprint(q)\n")
	case "params":
		b.WriteString("func run(p string, q string) string {\n" + seq("p", "q") + "return p\n}\n")
		fmt.Fprintf(&b, "print(run(%s, %s))\n", p0, p1)
	case "computed":
		fmt.Fprintf(&b, "func name(s string) string {\nreturn s\n}\nl := []string{%s, %s}\n", p0, p1)
		b.WriteString(seq("name(l[0])", "\"\" + l[1]"))
	case "twice":
		b.WriteString("func run(p string, q string) {\n" + seq("p", "q") + "}\n")
		fmt.Fprintf(&b, "run(%s, %s)\nrun(%s, %s)\n", p0, p1, p1, p0)
	}
	fmt.Fprintf(&b, "print(exists(%s), exists(%s))\n", p0, p1)
	return b.String()
}

// fsHistories enumerates all feasible histories of n operations over two paths.
func fsHistories(ops []fsOp, n int, ps [2]string, ctxs []string, y func(sysCase) bool) bool {
	return fsHistoriesFrom(ops, n, ps, ctxs, fsDirs, false, y)
}

func fsHistoriesFrom(ops []fsOp, n int, ps [2]string, ctxs []string, files map[string]string, both bool, y func(sysCase) bool) bool {
	var rec func(cur []int, have [2]bool) bool
	rec = func(cur []int, have [2]bool) bool {
		if len(cur) == n {
			for _, c := range ctxs {
				if !y(sysCase{Name: c, Text: fsProgram(ops, cur, ps, c), Files: files}) {
					return false
				}
			}
			return true
		}
		for i := 0; i < 2*len(ops); i++ {
			o := ops[i/2]
			a, b := i%2, 1-i%2
			if o.reads && !have[a] || o.readsQ && !have[b] {
				continue
			}
			h2 := have
			if o.writes {
				h2[a] = true
			}
			if !rec(append(cur[:len(cur):len(cur)], i), h2) {
				return false
			}
		}
		return true
	}
	return rec(nil, [2]bool{both, both})
}

func c17(ctx *h.Ctx) {
	ctx.Assume("paths are relative to the working directory of the script or absolute below it; their directories exist; reading a missing file, writing to a directory and the empty path are left open")
	ops := fsOps(ctx.Thorough())
	contexts := []string{"top", "vars", "params", "computed", "twice"}
	pp := [2]string{"f", "a b"}
	sysRun(ctx, "histories of 1 operation, all contexts", func(y func(sysCase) bool) {
		for _, ps := range [][2]string{pp, {"a b", "f"}, {"f", "f"}, {"d/f", "f"}} {
			if !fsHistories(ops, 1, ps, contexts, y) {
				return
			}
		}
	})
	sysRun(ctx, "histories of 2 operations, all contexts", func(y func(sysCase) bool) {
		fsHistories(ops, 2, pp, contexts, y)
	})
	sysRun(ctx, "histories of 3 operations", func(y func(sysCase) bool) {
		c := []string{"top"}
		if ctx.Thorough() {
			c = contexts
		}
		fsHistories(ops, 3, pp, c, y)
	})
	sysRun(ctx, "path shapes x operations", func(y func(sysCase) bool) {
		for i, p := range fsPaths {
			q := fsPaths[(i+1)%len(fsPaths)]
			for _, c := range contexts {
				for _, hist := range [][]int{{0}, {6, 14}, {0, 8, 14}, {16, 0, 16}, {0, 19, 15}, {2, 21, 15, 16}, {26, 26, 14}} {
					if !y(sysCase{Name: "path-" + c, Text: fsProgram(ops, hist, [2]string{p, q}, c), Files: fsDirs}) {
						return
					}
				}
			}
			// the path comes out of a file
			t := "write(\"n\", " + strconv.Quote(p) + ")\np := read(\"n\")\nfunc f(p string) {\nwrite(p, \"1\")\nwrite(p, \"2\", true)\n}\nf(p)\nprint(read(p), exists(p))\nwrite(p, \"3\")\nprint(read(p))\n"
			t = strings.Replace(t, "func f(p string)", "func f(x string)", 1)
			t = strings.Replace(t, "write(p, \"1\")\nwrite(p, \"2\", true)", "write(x, \"1\")\nwrite(x, \"2\", true)", 1)
			if !y(sysCase{Name: "path-run", Text: t, Files: fsDirs}) {
				return
			}
		}
	})
	contents := append([]string{}, fsContents...)
	for c := 0x20; c < 0x7f; c++ {
		s := string(rune(c))
		contents = append(contents, s, s+s, "x"+s+"y")
	}
	contents = append(contents, "\t", "x\ty", "\n\n", "a\n\n", "\n\na", "a\nb\nc", " ", "  ", "a ", " a", "$(touch canary)", "`touch canary`", "\\$(touch canary)", "\"; touch canary; \"", "> canary", "-e a\\nb", "-e", "-E", "--", "-n -n", "%s%n", "a\\", "\\n", "\\\\n", "\\c", "EOF")
	sysRun(ctx, "contents", func(y func(sysCase) bool) {
		for _, s := range contents {
			L := strconv.Quote(s)
			for _, t := range []string{
				"write(\"f\", " + L + ")\nprint(\"[\" + read(\"f\") + \"]\")\nwrite(\"f\", " + L + ", true)\nx := read(\"f\")\nprint(\"[\" + x + \"]\", len(x))\nwrite(\"g\", x)\nwrite(\"g\", read(\"f\"), true)\n",
				"func f(p string, s string, a bool) {\nwrite(p, s, a)\nprint(\"[\" + read(p) + \"]\")\n}\nf(\"f\", " + L + ", true)\nf(\"f\", " + L + ", false)\nf(\"f\", \"m\", true)\nf(\"f\", " + L + ", true)\n",
			} {
				if !y(sysCase{Name: "content", Text: t, Files: fsDirs}) {
					return
				}
			}
		}
	})
	sysRun(ctx, "files that exist before the script starts", func(y func(sysCase) bool) {
		for _, s := range []string{"old\n", "old\nlines\n", "\n", "\n\n", "tail \n"} {
			f := map[string]string{"f": s, "a b": s + s}
			for k, v := range fsDirs {
				f[k] = v
			}
			n := 1
			if ctx.Thorough() {
				n = 2
			}
			if !fsHistoriesFrom(ops, n, pp, contexts, f, true, y) {
				return
			}
		}
		// without a newline at the end: only reading and replacing
		for _, s := range []string{"", "x", "x\ny", " x "} {
			f := map[string]string{"f": s, "keep": "k\n"}
			if !y(sysCase{Name: "no-newline", Text: "print(\"[\" + read(\"f\") + \"]\", exists(\"f\"))\nx := read(\"f\")\nwrite(\"f\", x)\nprint(\"[\" + read(\"f\") + \"]\")\n", Files: f}) {
				return
			}
		}
	})
	sysRun(ctx, "exists", func(y func(sysCase) bool) {
		for _, p := range append([]string{"d", "d/", "d e", "nope", "d/nope", "nope/f", "keep", "./keep", "d/keep", "k*", "keep ", " keep", "k?ep", "[k]eep", "KEEP", "kee", "keepp", "-e", "!", "(", "=", "-d", "a -o b"}, fsPaths...) {
			L := strconv.Quote(p)
			for _, t := range []string{
				"print(exists(" + L + "))\n",
				"p := " + L + "\nif exists(p) {\nprint(\"yes\")\n} else {\nprint(\"no\")\n}\nprint(!exists(p), exists(p) && true, exists(p) == false)\n",
				"func f(p string) bool {\nreturn exists(p)\n}\nprint(f(" + L + "))\nfor i := 0; i < 2 && !exists(" + L + "); i++ {\nprint(i)\n}\n",
			} {
				if !y(sysCase{Name: "exists", Text: t, Files: fsDirs}) {
					return
				}
			}
		}
	})
	sysRun(ctx, "evaluation of arguments", func(y func(sysCase) bool) {
		tr := "func s(n string, v string) string {\nprint(n)\nreturn v\n}\nfunc b(n string, v bool) bool {\nprint(n)\nreturn v\n}\n"
		for _, a := range []string{"true", "false"} {
			for _, t := range []string{
				tr + "write(s(\"p\", \"f\"), s(\"c\", \"x\"), b(\"a\", " + a + "))\nprint(read(s(\"r\", \"f\")), exists(s(\"e\", \"f\")))\n",
				tr + "write(\"f\", \"0\")\nx := " + a + "\nwrite(\"f\", \"1\", x)\nwrite(\"f\", \"2\", !x)\nwrite(\"f\", \"3\", x && true)\nwrite(\"f\", \"4\", x || false)\nwrite(\"f\", \"5\", 1 < 2 == x)\nprint(read(\"f\"))\n",
				"func w(p string, k int) {\nfor i := 0; i < k; i++ {\nwrite(p, \"l\" + itoa(i), i > 0)\n}\n}\nw(\"f\", 3)\nw(\"g\", 11)\nprint(read(\"f\"))\nprint(read(\"g\"))\nfor i, c := range read(\"f\") {\nprint(i, c)\n}\nprint(len(read(\"g\")), read(\"f\") == read(\"g\"))\nh := read(\"f\")\nprint(h[0:2], h[1])\n",
			} {
				if !y(sysCase{Name: "args", Text: t, Files: fsDirs}) {
					return
				}
			}
		}
	})
	c17kinds(ctx)
	c17sizes(ctx)
}

// c17kinds: every kind of file, with every permission, seen by the owner of
// everything and by a user without rights.
func c17kinds(ctx *h.Ctx) {
	const part = "kinds of files and permissions"
	type kind struct {
		name  string
		make  func(p string)
		exist bool
		text  bool // may be read by anyone
		write bool // may be written by anyone
	}
	file := func(mode os.FileMode, text string) func(string) {
		return func(p string) { os.WriteFile(p, []byte(text), mode); os.Chmod(p, mode) }
	}
	kinds := []kind{
		{"missing", func(string) {}, false, false, true},
		{"file", file(0666, "t\n"), true, true, true}, {"empty", file(0666, ""), true, false, true}, {"no permission", file(0, "t\n"), true, false, false}, {"read only", file(0444, "t\n"), true, true, false}, {"write only", file(0222, "t\n"), true, false, true}, {"program", file(0777, "t\n"), true, true, true}, {"setuid", file(0666|os.ModeSetuid|os.ModeSticky, "t\n"), true, true, true},
		{"old", func(p string) {
			os.WriteFile(p, []byte("t\n"), 0666)
			os.Chmod(p, 0666)
			os.Chtimes(p, time.Unix(0, 0), time.Unix(0, 0))
		}, true, true, true},
		{"future", func(p string) {
			os.WriteFile(p, []byte("t\n"), 0666)
			os.Chmod(p, 0666)
			os.Chtimes(p, time.Unix(4102444800, 0), time.Unix(4102444800, 0))
		}, true, true, true},
		{"directory", func(p string) { os.Mkdir(p, 0755) }, true, false, false}, {"full directory", func(p string) { os.Mkdir(p, 0755); os.WriteFile(p+"/x", nil, 0644) }, true, false, false}, {"closed directory", func(p string) { os.Mkdir(p, 0755); os.Chmod(p, 0) }, true, false, false},
		{"pipe", func(p string) { syscall.Mkfifo(p, 0666) }, true, false, false},
		{"socket", func(p string) {
			if fd, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_STREAM, 0); err == nil {
				syscall.Bind(fd, &syscall.SockaddrUnix{Name: p})
				syscall.Close(fd)
			}
		}, true, false, false},
		{"link to a file", func(p string) { file(0666, "t\n")(p + ".real"); os.Symlink(filepath.Base(p)+".real", p) }, true, true, false},
		{"link to an empty file", func(p string) { file(0, "")(p + ".real"); os.Symlink(filepath.Base(p)+".real", p) }, true, false, false},
		{"link to a directory", func(p string) { os.Mkdir(p+".real", 0755); os.Symlink(filepath.Base(p)+".real", p) }, true, false, false},
		{"link to a link", func(p string) {
			file(0666, "t\n")(p + ".real")
			os.Symlink(filepath.Base(p)+".real", p+".mid")
			os.Symlink(filepath.Base(p)+".mid", p)
		}, true, true, false},
		{"second name", func(p string) { file(0666, "t\n")(p + ".real"); os.Link(p+".real", p) }, true, true, false},
	}
	texts := []string{
		"print(exists(P))\n", "p := P\nx := exists(p)\nprint(x)\nif exists(p) {\nprint(\"y\")\n} else {\nprint(\"n\")\n}\n", "func f(p string) bool {\nreturn exists(p) && true\n}\nprint(f(P), !f(P))\n", "for i := 0; i < 3 && exists(P); i++ {\nprint(i)\n}\nswitch {\ncase exists(P):\nprint(\"c\")\ndefault:\nprint(\"d\")\n}\n",
	}
	reads := []string{"print(read(P), exists(P))\n", "x := read(P)\nprint(x, len(x), exists(P))\nwrite(\"dir/copy\", x)\nprint(read(\"dir/copy\"), exists(\"dir/copy\"))\n"}
	writes := []string{"write(P, \"a\")\nprint(exists(P), read(P))\n", "func f(p string) {\nwrite(p, \"a\")\nwrite(p, \"b\", true)\nprint(exists(p), read(p))\n}\nf(P)\nf(P)\n", "write(P, \"a\", true)\nprint(exists(P), read(P))\nwrite(P, \"b\")\nprint(exists(P), read(P))\n"}
	type job struct {
		k    kind
		t    int
		text string
		user bool
		path string
	}
	all := append(append(append([]string{}, texts...), reads...), writes...)
	_, probe := os.Lstat("/usr/bin/env")
	priv := os.Geteuid() == 0 && probe == nil
	os.Chmod(ctx.Scratch, 0755)
	n, complete := h.Parallel(ctx, func(y func(job) bool) {
		for _, k := range kinds {
			for _, user := range []bool{false, true} {
				if user && !priv {
					continue
				}
				for _, path := range []string{"dir/k", "dir/k k", "./dir/../dir/-k", "k$"} {
					for t, text := range all {
						if t >= len(texts) && t < len(texts)+len(reads) && !k.text || t >= len(texts)+len(reads) && !k.write {
							continue
						}
						// what follows the last line of an empty file is left open
						if k.name == "write only" && t >= len(texts) || k.name == "empty" && t == len(all)-1 {
							continue
						}
						if !y(job{k, t, text, user, path}) {
							return
						}
					}
				}
			}
		}
	}, func(w int) func(job) {
		box := ctx.NewBox(fmt.Sprintf("kinds-%d", w))
		return func(j job) {
			L := strconv.Quote(j.path)
			text := strings.ReplaceAll(j.text, "P", L)
			yes := fmt.Sprint(map[bool]int{true: 1}[j.k.exist])
			a, no := "", "1"
			if j.k.exist {
				a, no = "t", "0"
			}
			app := "a"
			if a != "" {
				app = a + "\na"
			}
			want := []string{yes + "\n", yes + "\n" + map[bool]string{true: "y", false: "n"}[j.k.exist] + "\n", yes + " " + no + "\n", map[bool]string{true: "0\n1\n2\nc\n", false: "d\n"}[j.k.exist],
				"t 1\n", "t 1 1\nt 1\n", "1 a\n", "1 a\nb\n1 a\nb\n", "1 " + app + "\n1 b\n"}[j.t]
			one := func() (got, script string, ok bool) {
				box.CleanWork()
				os.Mkdir(filepath.Join(box.Work, "dir"), 0777)
				os.Chmod(filepath.Join(box.Work, "dir"), 0777)
				os.Chmod(box.Work, 0777)
				j.k.make(filepath.Join(box.Work, j.path))
				r := box.Transpile(text, "bash")
				if r.Err != nil {
					return "rejected: " + r.Err.Error(), "", false
				}
				o := box.Bash(r.Script, h.BashOpt{Keep: true, Env: []string{"PATH=/usr/bin:/bin"}, User: j.user})
				_, err := os.Lstat(filepath.Join(box.Work, j.path))
				if j.k.name != "missing" && err != nil {
					o.Out += "(file is gone)"
				}
				if o.Overload {
					return "", "", true
				}
				return fmt.Sprintf("%s%s%v", o.Out, o.Err, map[bool]string{true: "does not end"}[o.Hang || o.Truncd]), r.Script, o.Out == want && o.Err == "" && o.Exit == 0
			}
			got, script, ok := one()
			ctx.AddStates(1, 1, 1)
			if ok {
				return
			}
			ctx.Report(h.Violation{Key: key(fmt.Sprint(part, j.k.name, j.user, text)), What: fmt.Sprintf("[%s] %s: %q: prints %q, want %q", part, j.k.name, clip(text), clip(got), want),
				Files:   map[string]string{"main.tsh": text, "script.sh": script, "expected": want, "actual": got, "kind": fmt.Sprint(j.k.name, ", unprivileged: ", j.user)},
				Recheck: func() bool { _, _, ok := one(); return !ok }})
		}
	})
	ctx.Part(part, n, complete)
}
