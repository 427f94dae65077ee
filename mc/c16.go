package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"verifmc/cmdemu"
	"verifmc/gen"
	"verifmc/h"
)

// C16: every accepted program of every generator is transpiled for both
// targets; Bash parses the one script without running it, the other one is
// parsed with the rules of cmd.exe and its label and jump table is judged.

type wfProg struct {
	tag, main string
	files     map[string]string
	marks     []*mark
}

// wfSink receives the programs of the other properties' generators.
var wfSink func(ctx *h.Ctx, part string, g func(y func(wfProg) bool))

// bashParser asks one Bash process to parse scripts without executing them:
// "set -n" is the first command of the sourced text.
type bashParser struct {
	dir string
	in  io.WriteCloser
	out *bufio.Reader
	cmd *exec.Cmd
}

func newBashParser(dir string) *bashParser {
	os.MkdirAll(dir, 0755)
	b := &bashParser{dir: dir}
	b.cmd = exec.Command("/bin/bash", "-c", `while read -r n; do ( . ./p.sh ) >o 2>e </dev/null; r=$?; if [ $r -ne 0 ] || [ -s o ] || [ -s e ]; then echo bad; else echo ok; fi; done`)
	b.cmd.Dir = dir
	b.cmd.Env = []string{"PATH=/nonexistent"}
	b.in, _ = b.cmd.StdinPipe()
	o, _ := b.cmd.StdoutPipe()
	b.out = bufio.NewReader(o)
	if err := b.cmd.Start(); err != nil {
		panic(err)
	}
	return b
}

func (b *bashParser) bad(script string) bool {
	if err := os.WriteFile(filepath.Join(b.dir, "p.sh"), []byte("set -n\n"+script), 0644); err != nil {
		panic(err)
	}
	fmt.Fprintln(b.in, "x")
	l, err := b.out.ReadString('\n')
	return err != nil || strings.TrimSpace(l) != "ok"
}

// bashSyntax is bash -n.
func bashSyntax(dir, script string) string {
	f := filepath.Join(dir, "n.sh")
	os.WriteFile(f, []byte(script), 0644)
	cmd := exec.Command("/bin/bash", "-n", f)
	cmd.Env = []string{}
	o, err := cmd.CombinedOutput()
	if err == nil && len(o) == 0 {
		return ""
	}
	return "bash -n: " + strings.ReplaceAll(strings.ReplaceAll(strings.TrimSpace(string(o)), f, "script"), "\n", " / ")
}

var funcDecl = regexp.MustCompile(`\bfunc[ \t]+([A-Za-z_][A-Za-z0-9_]*)`)

// batchProblems judges the structure of a Batch script.
func batchProblems(p wfProg, script string) []string {
	st := cmdemu.Analyse(script)
	out := append([]string{}, st.Problems...)
	if len(out) > 0 {
		return out
	}
	funcs := map[string]bool{}
	for _, m := range funcDecl.FindAllStringSubmatch(p.main, -1) {
		funcs[strings.ToLower(m[1])] = true
	}
	lib := ""
	for _, s := range p.files {
		lib += s + "\n"
	}
	if strings.Contains(p.main+lib, "\"strings\"") || strings.Contains(p.main+lib, "\"os\"") {
		lib += stdSources()
	}
	for _, m := range funcDecl.FindAllStringSubmatch(lib, -1) {
		funcs[strings.ToLower(m[1])] = true
	}
	isUser := func(r string) bool {
		for k := 0; k < len(r); k++ {
			if r[k] == '_' && funcs[r[k+1:]] {
				return true
			}
		}
		return funcs[r]
	}
	// helper routines are used by main code, by functions and by used helpers
	used := map[string]bool{"": true}
	for _, r := range st.Routines {
		if isUser(r) {
			used[r] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, r := range st.Routines {
			if used[r] {
				continue
			}
			for _, c := range st.Callers(r) {
				if c != r && used[c] {
					used[r] = true
					changed = true
				}
			}
		}
	}
	for _, r := range st.Routines {
		if !used[r] {
			out = append(out, "the script contains the routine "+r+" which it does not use")
		}
	}
	if len(p.marks) > 0 {
		out = append(out, markProblems(st, p.marks)...)
	}
	return out
}

var stdText string

func stdSources() string {
	if stdText == "" {
		for _, n := range []string{"strings", "os"} {
			d, _ := os.ReadFile("/repo/std/" + n + ".tsh")
			stdText += string(d) + "\n"
		}
	}
	return stdText
}

func wfFail(dir string, p wfProg, bad func(string) bool) (what, target, script string, accepted bool) {
	f := writeProg(filepath.Join(dir, "p"), Prog{Main: p.main, Files: p.files})
	for _, t := range targets {
		r := h.TranspileFile(f, t)
		if r.Err != nil {
			continue // C06 and C13 decide whether it has to be accepted
		}
		accepted = true
		if t == "bash" {
			if bad(r.Script) {
				if w := bashSyntax(dir, r.Script); w != "" {
					return w, t, r.Script, true
				}
			}
			continue
		}
		if l := batchProblems(p, r.Script); len(l) > 0 {
			return strings.Join(l, "; "), t, r.Script, true
		}
	}
	return "", "", "", accepted
}

func wfRun(ctx *h.Ctx, part string, g func(y func(wfProg) bool)) {
	if ctx.Stop() {
		ctx.Part(part, 0, false)
		return
	}
	t0 := time.Now()
	var n, rejected, jumps int64
	gen := func(y func([]wfProg) bool) {
		var b []wfProg
		ok := true
		g(func(j wfProg) bool {
			b = append(b, j)
			if len(b) == 16 {
				ok = y(b)
				b = nil
			}
			return ok
		})
		if ok && len(b) > 0 {
			y(b)
		}
	}
	_, complete := h.Parallel(ctx, gen, func(w int) func([]wfProg) {
		dir := filepath.Join(ctx.Scratch, fmt.Sprintf("wf-%d", w))
		pd := filepath.Join(ctx.Scratch, fmt.Sprintf("wfp-%s-%d", key(part), w))
		bp := newBashParser(pd)
		return func(l []wfProg) {
			for _, p := range l {
				if len(p.files) > 0 {
					os.RemoveAll(dir)
				}
				what, target, script, acc := wfFail(dir, p, bp.bad)
				atomic.AddInt64(&n, 1)
				if !acc {
					atomic.AddInt64(&rejected, 1)
					continue
				}
				atomic.AddInt64(&jumps, int64(strings.Count(script, "goto")))
				ctx.AddStates(1, 2, 2)
				if what == "" {
					ctx.Sample(map[string]string{"part": part, "program": p.main})
					continue
				}
				p := p
				files := map[string]string{"main.tsh": p.main, "script." + target: script}
				for k, v := range p.files {
					files[k] = v
				}
				ctx.Report(h.Violation{Key: p.tag + "-" + key(p.main), What: fmt.Sprintf("[%s/%s] %s: %s", part, target, cut(what, 300), strings.ReplaceAll(cut(p.main, 300), "\n", " ; ")), Files: files,
					Recheck: func() bool {
						w, _, _, _ := wfFail(filepath.Join(ctx.Scratch, "wf-re"), p, func(string) bool { return true })
						return w != ""
					}})
			}
		}
	})
	ctx.Part(part, n, complete)
	atomic.AddInt64(&ctx.Rejected, rejected)
	if rejected > 0 {
		ctx.Extra("not accepted: "+part, rejected)
	}
	ctx.Extra("seconds: "+part, float64(int(time.Since(t0).Seconds()*10))/10)
}

// Nests of constructs with unique marks: the marks tell which lines of the
// script belong to which construct.

type mark struct {
	id         int
	kind       string // if, switch, loop
	parent     *mark
	name       string
	jumps      []markJump
	inner      []string // all marks within the construct
	before     string
	after      string
	hasContent bool
}

type markJump struct {
	name string // mark printed right before the statement
	kind string // break, continue
	to   *mark
}

type markGen struct {
	b     strings.Builder
	marks []*mark
	n     int
	lv    int
	cur   *mark
}

func (g *markGen) ln(f string, a ...any) { fmt.Fprintf(&g.b, f+"\n", a...) }

func (g *markGen) put(kind string) string {
	g.n++
	m := fmt.Sprintf("mk%d%s", g.n, kind)
	g.ln("print(\"%s\")", m)
	for c := g.cur; c != nil; c = c.parent {
		c.inner = append(c.inner, m)
	}
	return m
}

func (g *markGen) block(b *gen.Block) {
	for _, s := range b.S {
		g.stmt(s)
	}
}

func (g *markGen) stmt(s *gen.Shape) {
	switch s.K {
	case "p", "inc":
		g.put("p")
		return
	case "break", "continue":
		m := g.put("x")
		to := g.cur
		for to.kind == "if" || s.K == "continue" && to.kind == "switch" {
			to = to.parent
		}
		g.marks[0].jumps = append(g.marks[0].jumps, markJump{m, s.K, to})
		g.ln("%s", s.K)
		return
	case "return":
		g.put("r")
		g.ln("return")
		return
	}
	kind := "loop"
	switch {
	case strings.HasPrefix(s.K, "if"):
		kind = "if"
	case strings.HasPrefix(s.K, "switch"):
		kind = "switch"
	}
	before := g.put("b")
	m := &mark{kind: kind, parent: g.cur, before: before}
	g.marks = append(g.marks, m)
	g.cur = m
	switch s.K {
	case "if":
		g.ln("if c == 1 {")
		g.block(s.Bl[0])
		g.ln("}")
	case "ifelse":
		g.ln("if c == 1 {")
		g.block(s.Bl[0])
		g.ln("} else {")
		g.block(s.Bl[1])
		g.ln("}")
	case "ifelif":
		g.ln("if c == 1 {")
		g.block(s.Bl[0])
		g.ln("} else if c == 2 {")
		g.block(s.Bl[1])
		g.ln("}")
	case "ifelifelse":
		g.ln("if c == 1 {")
		g.block(s.Bl[0])
		g.ln("} else if c > 1 || c < 0 {")
		g.block(s.Bl[1])
		g.ln("} else {")
		g.block(s.Bl[2])
		g.ln("}")
	case "switch1":
		g.ln("switch c {\ncase 1:")
		g.block(s.Bl[0])
		g.ln("}")
	case "switch2d":
		g.ln("switch c {\ncase 1:")
		g.block(s.Bl[0])
		g.ln("case 2:")
		g.block(s.Bl[1])
		g.ln("default:")
		g.block(s.Bl[2])
		g.ln("}")
	case "switchb":
		g.ln("switch {\ncase c > 1:")
		g.block(s.Bl[0])
		g.ln("case c == 1:")
		g.block(s.Bl[1])
		g.ln("}")
	case "switchd1":
		g.ln("switch c {\ndefault:")
		g.block(s.Bl[0])
		g.ln("case 1:")
		g.block(s.Bl[1])
		g.ln("}")
	case "switchd":
		g.ln("switch c {\ndefault:")
		g.block(s.Bl[0])
		g.ln("}")
	default:
		g.lv++
		v := fmt.Sprintf("i%d", g.lv)
		switch s.K {
		case "for3":
			g.ln("for %s := 0; %s < 3; %s++ {", v, v, v)
		case "forcond":
			g.ln("for c < 3 {")
		case "forever":
			g.ln("for {")
		case "fornocond":
			g.ln("for %s := 0; ; %s += 2 {", v, v)
		case "fornopost":
			g.ln("for %s := 2; %s > 0; {", v, v)
		case "fornoinit":
			g.ln("for ; c < 3; c++ {")
		case "rangei":
			g.ln("for %s := range \"abc\" {", v)
		case "rangev":
			g.ln("for %s, w%s := range []int{1, 2} {", v, v)
		default:
			panic(s.K)
		}
		g.block(s.Bl[0])
		g.ln("}")
	}
	g.cur = m.parent
	m.after = g.put("a")
}

func markProgram(b *gen.Block, form int) wfProg {
	g := &markGen{marks: []*mark{{}}}
	g.block(b)
	body := "c := 0\n" + g.b.String()
	switch form {
	case 1:
		body = "func g(c int) {\n" + g.b.String() + "}\ng(1)\n"
	case 2:
		body = "func g(c int) int {\n" + strings.ReplaceAll(g.b.String(), "return\n", "return 2\n") + "return 1\n}\nprint(g(1))\n"
	}
	return wfProg{tag: "marks", main: body, marks: g.marks}
}

// markProblems: every jump within a construct ends in the construct it belongs to.
func markProblems(st *cmdemu.Structure, marks []*mark) []string {
	line := map[string]int{}
	re := regexp.MustCompile(`mk[0-9]+[a-z]`)
	for i, l := range st.Lines {
		for _, m := range re.FindAllString(l, -1) {
			if _, dup := line[m]; !dup {
				line[m] = i
			}
		}
	}
	type region struct {
		m      *mark
		lo, hi int
		first  int // first and last inner mark
		last   int
	}
	var rs []region
	for _, m := range marks[1:] {
		lo, ok1 := line[m.before]
		hi, ok2 := line[m.after]
		if !ok1 || !ok2 || lo >= hi {
			return nil // the script is laid out differently
		}
		r := region{m, lo, hi, -1, -1}
		for _, in := range m.inner {
			l, ok := line[in]
			if !ok || l <= lo || l >= hi {
				return nil
			}
			if r.first < 0 || l < r.first {
				r.first = l
			}
			if l > r.last {
				r.last = l
			}
		}
		rs = append(rs, r)
	}
	at := func(l int) *region {
		var best *region
		for i := range rs {
			r := &rs[i]
			if l > r.lo && l < r.hi && (best == nil || r.lo > best.lo) {
				best = r
			}
		}
		return best
	}
	name := func(r *region) string {
		if r == nil {
			return "no construct"
		}
		return fmt.Sprintf("the %s at %s", r.m.kind, r.m.before)
	}
	expected := map[int]markJump{} // line of the jump
	for _, j := range marks[0].jumps {
		l, ok := line[j.name]
		if !ok {
			return nil
		}
		best := -1
		for k, jp := range st.Jumps {
			if !jp.Call && jp.Line > l && (best < 0 || jp.Line < st.Jumps[best].Line) && !(st.ExitLabel(jp.Target)) {
				best = k
			}
		}
		if best < 0 {
			return []string{"no jump for the " + j.kind + " after " + j.name}
		}
		expected[st.Jumps[best].Line] = j
	}
	var out []string
	for _, jp := range st.Jumps {
		if jp.Call || st.ExitLabel(jp.Target) {
			continue
		}
		l := st.Labels[jp.Target].Line
		from, to := at(jp.Line), at(l)
		if e, ok := expected[jp.Line]; ok {
			if to == nil || to.m != e.to {
				out = append(out, fmt.Sprintf("line %d: %s after %s jumps into %s instead of the %s at %s", jp.Line+1, e.kind, e.name, name(to), e.to.kind, e.to.before))
				continue
			}
			if l > to.first && l < to.last {
				out = append(out, fmt.Sprintf("line %d: %s after %s jumps into the middle of the %s", jp.Line+1, e.kind, e.name, e.to.kind))
			}
			if e.kind == "break" && l < to.first {
				out = append(out, fmt.Sprintf("line %d: break after %s jumps to the head of the %s", jp.Line+1, e.name, e.to.kind))
			}
			continue
		}
		if from != to {
			out = append(out, fmt.Sprintf("line %d: jump from %s to %s", jp.Line+1, name(from), name(to)))
		}
	}
	sort.Strings(out)
	return out
}

func marksRun(ctx *h.Ctx, part string, sg *gen.StmtGen, from, to, depth int, rets bool) {
	wfRun(ctx, part, func(y func(wfProg) bool) {
		for k := from; k <= to; k++ {
			for _, b := range sg.Blocks(k, false, depth) {
				for f := 0; f < 3; f++ {
					if f == 0 && rets {
						continue
					}
					if !y(markProgram(b, f)) {
						return
					}
				}
			}
		}
	})
}

// itemSink turns items into programs: each one alone and all of a prologue together.
func itemSink(ctx *h.Ctx, part string, g func(gen.Yield) bool) {
	wfRun(ctx, part, func(y func(wfProg) bool) {
		pend := map[string][]gen.Item{}
		var order []string
		ok := g(func(it gen.Item) bool {
			if !y(wfProg{tag: it.Tag, main: it.Text(), files: it.Files}) {
				return false
			}
			if it.Solo || len(it.Files) > 0 {
				return true
			}
			if pend[it.Pre] == nil {
				order = append(order, it.Pre)
				if len(order) > 32 {
					delete(pend, order[0])
					order = order[1:]
				}
			}
			pend[it.Pre] = append(pend[it.Pre], it)
			if l := pend[it.Pre]; len(l) == 40 {
				pend[it.Pre] = l[:0:0]
				return y(wfProg{tag: "pack", main: gen.Pack(l)})
			}
			return true
		})
		if !ok {
			return
		}
		for _, o := range order {
			if l := pend[o]; len(l) > 1 && !y(wfProg{tag: "pack", main: gen.Pack(l)}) {
				return
			}
		}
	})
}

func c16(ctx *h.Ctx) {
	stdSources()
	wfSink = wfRun
	full := ctx.Thorough()
	wfRun(ctx, "corpus", func(y func(wfProg) bool) {
		for _, p := range corpus {
			if !y(wfProg{tag: "corpus-" + p.Name, main: p.Main, files: p.Files}) {
				return
			}
		}
	})
	wfRun(ctx, "builtins and strings in every position", func(y func(wfProg) bool) { wfStrings(full, y) })
	wfRun(ctx, "constructs alone and in pairs", func(y func(wfProg) bool) {
		all := append(append(append(append([]gen.Construct{}, gen.Constructs...), gen.Files...), gen.Apps...), gen.Input...)
		gen.Alone(all, func(a, b string) bool { return true }, func(tag, text string) bool { return y(wfProg{tag: tag, main: text}) })
	})
	wfRun(ctx, "many of one thing", func(y func(wfProg) bool) {
		for _, k := range sizedKinds {
			for i := 1; i <= 130; i++ {
				if i > 34 && i%5 > 0 && !full {
					continue
				}
				p := sizedProg(k, i)
				if !y(wfProg{tag: p.Name, main: p.Main, files: p.Files}) {
					return
				}
			}
		}
		// blocks that hold nothing but expressions
		pre := "b := true\ni := 1\nt := \"q\"\nl := []int{1}\nfunc n(a int) int {\n\treturn a\n}\n"
		exprs := []string{"i", "1", "\"s\"", "b", "i == 1", "!b", "len(t)", "(i)", "i + 1", "t[0]", "l[0]", "l", "itoa(i)", "b && i > 1", "n(1)", "exists(t)", "[]int{}", "-1", "t + \"x\"", "len(l)", "true", "nil"}
		blocks := []string{"if b {\n%s}\n", "if b {\n%s} else {\n%s}\n", "if b {\nprint(1)\n} else if !b {\n%s} else {\n%s}\n", "for b {\n%s}\n", "for j := 0; j < 1; j++ {\n%s}\n", "for j, v := range l {\n%s}\n", "for j := range t {\n%s}\n", "switch i {\ncase 1:\n%scase 2:\n%sdefault:\n%s}\n", "func q() {\n%s}\nq()\n", "func q() int {\n%sreturn 1\n}\nprint(q())\n", "%s", "func q() {\nif b {\n%s}\n}\nq()\n"}
		for _, bl := range blocks {
			for _, e := range exprs {
				for k := 0; k < 12; k++ {
					if k > 6 && e != "i" && e != "1" && e != "b" {
						break
					}
					for f, body := range []string{strings.Repeat(e+"\n", k), strings.Repeat(e+"\n", k) + "j7 := 1\n", "i\n" + strings.Repeat(e+"\n", k)} {
						m := pre + strings.ReplaceAll(bl, "%s", body)
						if !y(wfProg{tag: fmt.Sprint("expressions", f), main: m}) {
							return
						}
					}
				}
			}
		}
		// names of every length that differ in their last letter only
		for k := 1; k <= 300; k++ {
			if k > 70 && k%8 > 1 && !full {
				continue
			}
			a := strings.Repeat("n", k)
			m := fmt.Sprintf("%sA := 1\n%sB := \"t\"\nfunc %sC(%sD int) int {\n\t%sE := %sD\n\tif %sE == 1 {\n\t\treturn 2\n\t}\n\treturn %sE\n}\nfunc %sF(%sD int) (int, string) {\n\treturn %sC(%sD), %sB\n}\n%sG, %sH := %sF(%sA)\nprint(%sG, %sH)\nfor %sI, %sJ := range %sB {\n\tprint(%sI, %sJ)\n}\n", a, a, a, a, a, a, a, a, a, a, a, a, a, a, a, a, a, a, a, a, a, a, a, a)
			if !y(wfProg{tag: "names", main: m}) {
				return
			}
		}
		for _, p := range manyProgs() {
			if !y(wfProg{tag: p.Name, main: p.Main, files: p.Files}) {
				return
			}
		}
	})
	marksRun(ctx, "marked statement trees", gen.NewStmtGen(), 1, pick(ctx, 2, 3), 3, false)
	rg := gen.NewSmallGen([]string{"p", "return"}, "if", "ifelse", "ifelif", "switch2d", "for3", "rangev")
	marksRun(ctx, "marked statement trees with return", rg, 1, pick(ctx, 3, 4), 3, true)
	sg := gen.NewSmallGen([]string{"p"}, "if", "ifelse", "ifelifelse", "switch1", "switch2d", "for3", "forever", "rangei")
	marksRun(ctx, "marked statement trees, reduced alphabet", sg, 3, pick(ctx, 3, 4), 4, false)
	dg := gen.NewSmallGen(nil, "ifelse", "switch1", "for3")
	marksRun(ctx, "marked deep nests", dg, 4, pick(ctx, 4, 5), 6, false)
	c05parts(ctx, func(part string, g func(gen.Yield) bool) { itemSink(ctx, part, g) }, full)
	c17(ctx)
	c18(ctx)
	c08(ctx)
	c06(ctx)
}
