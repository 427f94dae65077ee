package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"

	"github.com/monstermichl/typeshell/lexer"
	"verifmc/gen"
	"verifmc/h"
)

// edit replaces bytes [off,end) of the text.
type edit struct {
	off, end int
	s        string
}

func applyEdits(s string, es []edit) string {
	var b strings.Builder
	p := 0
	for _, e := range es { // ascending, disjoint
		if e.off < p {
			continue
		}
		b.WriteString(s[p:e.off])
		b.WriteString(e.s)
		p = e.end
	}
	b.WriteString(s[p:])
	return b.String()
}

// layoutKinds lists the edits of one gap; the index is the kind used for whole-text edits.
var inlineKinds = []string{" ", "\t", "/*c*/", " /* d */ ", "   "}
var lineKinds = []string{" \n", "\t\n", "// c\n", " // c \" ` /*\n", "/*c*/\n", "\r\n", "\n\n", "\n \t\n", "\n// c\n", "\n/*c*/\n", "\n/* c\n\tc */\n", "\n\t// c\n\n", "\n ", "\n\t\t", "\r\n\r\n", "\n/*c*/", "\n/* c\n*/ "}
var headKinds = []string{" ", "\n", "\n\n", "// c\n", "/*c*/", "/*c*/\n", "\r\n", "\t"}
var tailKinds = []string{"\n", "\r\n", "\n\n", " ", "\t", "// c", "// c\n", "\n// c", "\n/* c */", "/* c */", "\n\t"}

// layoutEdits returns, per gap of the text, the possible single edits.
func layoutEdits(src string) [][]edit {
	ts, bad, _ := refTokens(src)
	if bad {
		// tail that does not split into tokens stays as it is
		if len(ts) == 0 {
			return nil
		}
	}
	var gaps [][]edit
	var head []edit
	for _, k := range headKinds {
		head = append(head, edit{0, 0, k})
	}
	gaps = append(gaps, head)
	same := func(s string) bool {
		a, b1, u1 := refTokens(src)
		b, b2, u2 := refTokens(s)
		if b1 != b2 || u1 != u2 || len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i].t != b[i].t || a[i].v != b[i].v {
				return false
			}
		}
		return true
	}
	for i, t := range ts {
		// between the previous token and this one
		if i > 0 && ts[i-1].t != lexer.NEWLINE && t.t != lexer.NEWLINE {
			lo, hi := ts[i-1].end, t.off
			var g []edit
			for _, k := range inlineKinds {
				g = append(g, edit{hi, hi, k})
			}
			if hi > lo {
				g = append(g, edit{lo, lo, " /*e*/"}, edit{lo, hi, "/*e*/"}, edit{lo, hi, "\t"}, edit{lo, hi, ""})
			}
			var ok []edit
			for _, e := range g {
				if same(applyEdits(src, []edit{e})) {
					ok = append(ok, e)
				}
			}
			gaps = append(gaps, ok)
		}
		if t.t == lexer.NEWLINE {
			var g []edit
			// drop the indentation of the next line or the blanks before the line end
			for _, k := range lineKinds {
				g = append(g, edit{t.off, t.end, k})
			}
			if i+1 < len(ts) && ts[i+1].off > t.end {
				g = append(g, edit{t.end, ts[i+1].off, ""}, edit{t.end, ts[i+1].off, "/*i*/"})
			}
			if i+1 == len(ts) && !bad {
				g = append(g, edit{t.off, len(src), ""}) // no final newline
			}
			gaps = append(gaps, g)
		}
	}
	if !bad {
		var g []edit
		for _, k := range tailKinds {
			if len(ts) > 0 && ts[len(ts)-1].t != lexer.NEWLINE && strings.HasSuffix(src, "// end") {
				continue
			}
			g = append(g, edit{len(src), len(src), k})
		}
		gaps = append(gaps, g)
	}
	return gaps
}

type layoutBase struct {
	script [2]string
	err    [2]bool
}

func layoutRef(dir string, p Prog) (b layoutBase) {
	f := writeProg(dir, p)
	for i, t := range targets {
		r := h.TranspileFile(f, t)
		b.script[i], b.err[i] = r.Script, r.Err != nil
	}
	return
}

// fileEdit marks a text which replaces an imported file (name, NUL, text).
const fileEdit = "\x00file "

var layoutProgs = []Prog{
	{Name: "twins", Main: "import (\n\ta \"a.tsh\"\n\tb \"b.tsh\"\n)\nprint(a.F(), b.F())\n", Files: map[string]string{"a.tsh": "g := 1\nfunc F() int {\n\tg++\n\treturn g\n}\n", "b.tsh": "g := 1\nfunc F() int {\n\tg++\n\treturn g\n}\n"}},
	{Name: "chain", Main: "import a \"d/a.tsh\"\na.Run(2)\n", Files: map[string]string{"d/a.tsh": "import (\n\tb \"b.tsh\"\n\t\"strings\"\n)\n\nfunc Run(n int) {\n\tfor i := 0; i < n; i++ {\n\t\tswitch i {\n\t\tcase 1:\n\t\t\tprint(b.Name(), strings.Repeat(\"x\", i))\n\t\tdefault:\n\t\t\tif b.Ok {\n\t\t\t\tprint(\"no\")\n\t\t\t}\n\t\t}\n\t}\n}\n", "d/b.tsh": "// names\nvar n string = \"b\"\nfunc Name() string {\n\tn += `!`\n\treturn n\n}\nprint(n)\n"}, Bad: true},
	{Name: "chain2", Main: "import a \"d/a.tsh\"\na.Run(2)\n", Files: map[string]string{"d/a.tsh": "import (\n\tb \"b.tsh\"\n\t\"strings\"\n)\n\nfunc Run(n int) {\n\tfor i := 0; i < n; i++ {\n\t\tswitch i {\n\t\tcase 1:\n\t\t\tprint(b.Name(), strings.Repeat(\"x\", i))\n\t\tdefault:\n\t\t\tif b.Ok() {\n\t\t\t\tprint(\"no\")\n\t\t\t} else if i > 1 {\n\t\t\t}\n\t\t}\n\t}\n}\n", "d/b.tsh": "// names\nvar n string = \"b\"\nfunc Name() string {\n\tn += `!`\n\treturn n\n}\nfunc Ok() bool {\n\treturn len(n) == -1\n}\nprint(n)\n"}},
}

func layoutDiff(dir string, text string, base layoutBase) string {
	f := filepath.Join(dir, "main.tsh")
	if strings.HasPrefix(text, fileEdit) {
		name, t, _ := strings.Cut(text[len(fileEdit):], "\x00")
		g := filepath.Join(dir, name)
		old, err := os.ReadFile(g)
		if err != nil {
			panic(err)
		}
		defer os.WriteFile(g, old, 0644)
		if err := os.WriteFile(g, []byte(t), 0644); err != nil {
			panic(err)
		}
		old0, _ := os.ReadFile(f)
		text = string(old0)
	}
	if err := os.WriteFile(f, []byte(text), 0644); err != nil {
		panic(err)
	}
	for i, t := range targets {
		r := h.TranspileFile(f, t)
		if r.Panicked != "" {
			return t + ": panic: " + r.Panicked
		}
		if (r.Err != nil) != base.err[i] {
			if r.Err != nil {
				return t + ": only the new layout is rejected: " + r.Err.Error()
			}
			return t + ": only the new layout is accepted"
		}
		if r.Script != base.script[i] {
			return t + ": emitted script differs: " + firstDifference(base.script[i], r.Script)
		}
	}
	return ""
}

func firstDifference(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range la {
		if i >= len(lb) {
			return fmt.Sprintf("line %d missing: %q", i+1, la[i])
		}
		if la[i] != lb[i] {
			return fmt.Sprintf("line %d: %q became %q", i+1, la[i], lb[i])
		}
	}
	return fmt.Sprintf("%d extra lines", len(lb)-len(la))
}

// layoutJob is one program with the relayouts to try.
type layoutJob struct {
	p    Prog
	each func(y func(text string) bool) bool
}

func layoutRun(ctx *h.Ctx, part string, g func(y func(layoutJob) bool)) {
	if ctx.Stop() {
		ctx.Part(part, 0, false)
		return
	}
	var n int64
	t0 := time.Now()
	defer func() { ctx.Extra("seconds: "+part, float64(int(time.Since(t0).Seconds()*10))/10) }()
	broken := int32(0)
	_, c := h.Parallel(ctx, g, func(w int) func(layoutJob) {
		dir := filepath.Join(ctx.Scratch, fmt.Sprintf("%s-%d", key(part), w))
		return func(j layoutJob) {
			defer os.RemoveAll(dir)
			base := layoutRef(dir, j.p)
			ctx.Distinct(base.script[0] + "\x00" + base.script[1])
			ok := j.each(func(t string) bool {
				atomic.AddInt64(&n, 1)
				ctx.AddStates(1, 1, 2)
				if d := layoutDiff(dir, t, base); d != "" {
					files := map[string]string{"original.tsh": j.p.Main, "main.tsh": t}
					for k, v := range j.p.Files {
						files[k] = v
					}
					if strings.HasPrefix(t, fileEdit) {
						name, nt, _ := strings.Cut(t[len(fileEdit):], "\x00")
						files["main.tsh"], files[name+".original"], files[name] = j.p.Main, files[name], nt
					}
					ctx.Report(h.Violation{Key: key(j.p.Name + t), What: fmt.Sprintf("[%s] %s: %s: %q", part, j.p.Name, d, cut(t, 300)), Files: files,
						Recheck: func() bool { layoutRef(dir, j.p); return layoutDiff(dir, t, base) != "" }})
				}
				return !ctx.Stop()
			})
			if !ok {
				atomic.StoreInt32(&broken, 1)
			}
		}
	})
	ctx.Part(part, n, c && broken == 0)
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// wholeEdits applies one kind of edit everywhere.
func wholeEdits(p Prog, modes int, y func(string) bool) bool {
	gaps := layoutEdits(p.Main)
	max := 0
	for _, g := range gaps {
		if len(g) > max {
			max = len(g)
		}
	}
	ts0, bad, uns := refTokens(p.Main)
	for k := 0; k < max; k++ {
		for mode := 0; mode < modes; mode++ { // all gaps, odd gaps, even gaps
			var es []edit
			for i, g := range gaps {
				if mode == 1 && i%2 == 0 || mode == 2 && i%2 == 1 || len(g) == 0 {
					continue
				}
				e := g[k%len(g)]
				if len(es) > 0 && e.off < es[len(es)-1].end {
					continue
				}
				es = append(es, e)
			}
			t := applyEdits(p.Main, es)
			if !sameTokens(t, ts0, bad, uns, k) {
				// keep only the edits which keep the tokens
				var keep []edit
				for _, e := range es {
					if tr := append(append([]edit{}, keep...), e); sameTokens(applyEdits(p.Main, tr), ts0, bad, uns, k) {
						keep = tr
					}
				}
				t = applyEdits(p.Main, keep)
			}
			if !y(t) {
				return false
			}
		}
	}
	return true
}

// sameTokens: apart from line breaks the token sequence is unchanged.
func sameTokens(s string, ts []rtok, bad, uns bool, k int) bool {
	b, b2, u2 := refTokens(strings.ReplaceAll(s, "\r\n", "\n"))
	if bad != b2 || uns != u2 {
		return false
	}
	i := 0
	for _, t := range b {
		if t.t == lexer.NEWLINE {
			continue
		}
		for i < len(ts) && ts[i].t == lexer.NEWLINE {
			i++
		}
		if i >= len(ts) || ts[i].t != t.t || ts[i].v != t.v {
			return false
		}
		i++
	}
	for ; i < len(ts); i++ {
		if ts[i].t != lexer.NEWLINE {
			return false
		}
	}
	return true
}

// lineEnds: every choice of LF and CRLF per line, or, if there are more than max lines, the
// choices where one line, all but one line, or all lines up to or from one line differ.
func lineEnds(src string, max int, y func(string) bool) bool {
	parts := strings.Split(src, "\n")
	n := len(parts) - 1
	build := func(crlf func(i int) bool) string {
		var b strings.Builder
		for i, p := range parts {
			b.WriteString(p)
			if i < n {
				if crlf(i) {
					b.WriteByte('\r')
				}
				b.WriteByte('\n')
			}
		}
		return b.String()
	}
	if n <= max {
		for m := 0; m < 1<<n; m++ {
			if !y(build(func(i int) bool { return m>>i&1 == 1 })) {
				return false
			}
		}
		return true
	}
	for k := 0; k < n; k++ {
		for _, f := range []func(i int) bool{func(i int) bool { return i == k }, func(i int) bool { return i != k }, func(i int) bool { return i < k }, func(i int) bool { return i >= k }, func(i int) bool { return i%(k+2) == 0 }} {
			if !y(build(f)) {
				return false
			}
		}
	}
	return true
}

func c12(ctx *h.Ctx) {
	ctx.Assume("a block comment that contains a line break is only placed where a line break already is")
	progs := append([]Prog{}, corpus...)
	layoutRun(ctx, "every single edit of every gap", func(y func(layoutJob) bool) {
		for _, p := range progs {
			gaps := layoutEdits(p.Main)
			ts0, bad, uns := refTokens(p.Main)
			for _, g := range gaps {
				if !y(layoutJob{p, func(y func(string) bool) bool {
					for _, e := range g {
						if t := applyEdits(p.Main, []edit{e}); sameTokens(t, ts0, bad, uns, 0) && !y(t) {
							return false
						}
					}
					return true
				}}) {
					return
				}
			}
		}
	})
	layoutRun(ctx, "one kind of edit in all, odd, even gaps", func(y func(layoutJob) bool) {
		for _, p := range progs {
			if !y(layoutJob{p, func(y func(string) bool) bool {
				return wholeEdits(p, 3, y) && y(strings.ReplaceAll(p.Main, "\n", "\r\n"))
			}}) {
				return
			}
		}
	})
	layoutRun(ctx, "imported files: single and whole-text edits", func(y func(layoutJob) bool) {
		for _, p := range append(append([]Prog{}, progs...), layoutProgs...) {
			for name, src := range p.Files {
				p, name, src := p, name, src
				if !strings.HasSuffix(name, ".tsh") {
					continue
				}
				if !y(layoutJob{p, func(y func(string) bool) bool {
					ts0, bad, uns := refTokens(src)
					emit := func(t string) bool { return y(fileEdit + name + "\x00" + t) }
					for _, g := range layoutEdits(src) {
						for _, e := range g {
							if t := applyEdits(src, []edit{e}); sameTokens(t, ts0, bad, uns, 0) && !emit(t) {
								return false
							}
						}
					}
					return wholeEdits(Prog{Main: src}, 3, emit) && lineEnds(src, 6, emit)
				}}) {
					return
				}
			}
		}
	})
	layoutRun(ctx, "mixtures of LF and CRLF", func(y func(layoutJob) bool) {
		for _, p := range progs {
			if !y(layoutJob{p, func(y func(string) bool) bool { return lineEnds(p.Main, pick(ctx, 8, 12), y) }}) {
				return
			}
		}
	})
	// generated programs: statement trees and expression trees
	grown := func(y gen.Yield) bool {
		return gen.StmtTrees(gen.NewStmtGen(), 1, pick(ctx, 1, 2), 3, false, y) && gen.StmtTrees(gen.NewStmtGen(), 1, pick(ctx, 1, 2), 3, true, y) && gen.Defs(y) && gen.StringForms(y) && (!ctx.Thorough() || gen.SliceForms(y) && gen.Returns(y) && gen.LeafForms(1, y))
	}
	layoutRun(ctx, "generated programs: whole-text edits", func(y func(layoutJob) bool) {
		n := 0
		grown(func(it gen.Item) bool {
			n++
			p := Prog{Name: fmt.Sprint("generated", n), Main: it.Text(), Files: it.Files}
			return y(layoutJob{p, func(y func(string) bool) bool { return wholeEdits(p, pick(ctx, 3, 3), y) }})
		})
	})
	c12sizes(ctx)
	layoutRun(ctx, "pairs of edits", func(y func(layoutJob) bool) {
		limit := pick(ctx, 30, 80)
		for _, p := range progs {
			ts0, bad, uns := refTokens(p.Main)
			gaps := layoutEdits(p.Main)
			if len(gaps) > limit {
				continue
			}
			for i := range gaps {
				if !y(layoutJob{p, func(y func(string) bool) bool {
					for j := i + 1; j < len(gaps) && (ctx.Thorough() || j <= i+3); j++ {
						for _, a := range gaps[i] {
							for _, b := range gaps[j] {
								if a.end > b.off {
									continue
								}
								if t := applyEdits(p.Main, []edit{a, b}); sameTokens(t, ts0, bad, uns, 0) && !y(t) {
									return false
								}
							}
						}
					}
					return true
				}}) {
					return
				}
			}
		}
	})
}
