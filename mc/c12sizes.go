package main

import (
	"strings"

	"github.com/monstermichl/typeshell/lexer"
	"verifmc/gen"
	"verifmc/h"
)

var inlineUnits = []string{" ", "\t", "/*c*/", " /* d */"}
var lineUnits = []string{"\n", " \n", "// c\n", "/*c*/\n", "\r\n", "\t// \"\r\n", "/*\n*/\n"}

// runGaps returns the places of a text at which blanks or comments may be repeated: the offset
// and whether a line break is already there.
type runGap struct {
	off  int
	line bool
}

func runGaps(src string) (l []runGap) {
	ts, bad, _ := refTokens(src)
	if bad {
		return nil
	}
	l = append(l, runGap{0, true})
	for i, t := range ts {
		switch {
		case t.t == lexer.NEWLINE:
			l = append(l, runGap{t.end, true})
		case i > 0 && ts[i-1].t != lexer.NEWLINE:
			l = append(l, runGap{t.off, false})
		}
	}
	return
}

// longOf makes n copies of the unit and long comments.
func longOf(line bool, k, n int) string {
	us := inlineUnits
	if line {
		us = lineUnits
	}
	k %= len(us) + 2
	switch {
	case k < len(us):
		return strings.Repeat(us[k], n)
	case k == len(us) && line:
		return "//" + strings.Repeat("c ", n) + "\n"
	case k == len(us):
		return "/*" + strings.Repeat("c*", n) + "*/"
	case line:
		return "/*" + strings.Repeat("c\n", n) + "*/\n"
	}
	return strings.Repeat(" ", n) + "/*" + strings.Repeat("*", n) + "*/"
}

// layoutRuns: every gap with a run of each kind, and all gaps at once.
func layoutRuns(src string, single, all []int, y func(string) bool) bool {
	ts0, bad, uns := refTokens(src)
	gaps := runGaps(src)
	kinds := len(lineUnits) + 2
	for i, g := range gaps {
		for k := 0; k < kinds; k++ {
			if !g.line && k >= len(inlineUnits)+2 {
				break
			}
			for x, n := range single {
				if n > 20 && (i+k+x)%3 != 0 { // the longest runs only at every third place
					continue
				}
				t := applyEdits(src, []edit{{g.off, g.off, longOf(g.line, k, n)}})
				if sameTokens(t, ts0, bad, uns, 0) && !y(t) {
					return false
				}
			}
		}
	}
	for _, n := range all {
		for k := 0; k < kinds; k++ {
			for _, mode := range []int{0, 1, 2} { // lines, within lines, both
				var es []edit
				for _, g := range gaps {
					if mode == 0 && !g.line || mode == 1 && g.line {
						continue
					}
					es = append(es, edit{g.off, g.off, longOf(g.line, k, n)})
				}
				t := applyEdits(src, es)
				if sameTokens(t, ts0, bad, uns, 0) && !y(t) {
					return false
				}
			}
		}
	}
	return true
}

// c12sizes: runs of blank lines, blanks and comments; long comments; long programs.
func c12sizes(ctx *h.Ctx) {
	single := []int{2, 5, 9, 33, 300}
	all := []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 33, 65}
	head := append(seq(1, 70), 99, 100, 126, 127, 128, 200, 254, 255, 256, 257, 300, 511, 512, 999, 1000, 1023, 1024)
	if ctx.Thorough() {
		single = []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000}
		all = append(seq(2, 40), 63, 64, 65, 127, 128, 129, 256)
	}
	heads := func(src string, y func(string) bool) bool {
		for i, n := range head {
			for k, u := range lineUnits {
				if !ctx.Thorough() && (i+k)%4 != 0 {
					continue
				}
				if !y(strings.Repeat(u, n) + src) {
					return false
				}
				if !strings.HasSuffix(src, "\n") {
					continue
				}
				if !y(src + strings.Repeat(u, n)) {
					return false
				}
			}
		}
		return true
	}
	progs := append(append([]Prog{}, corpus...), layoutProgs...)
	layoutRun(ctx, "runs of blanks, lines and comments", func(y func(layoutJob) bool) {
		for _, p := range progs {
			p := p
			ts, bad, _ := refTokens(p.Main)
			if bad || !ctx.Thorough() && len(ts) > 160 {
				continue
			}
			if !y(layoutJob{p, func(y func(string) bool) bool {
				return heads(p.Main, y) && layoutRuns(p.Main, single, all, y)
			}}) {
				return
			}
			for name, src := range p.Files {
				name, src := name, src
				if !strings.HasSuffix(name, ".tsh") {
					continue
				}
				if !y(layoutJob{p, func(y func(string) bool) bool {
					emit := func(t string) bool { return y(fileEdit + name + "\x00" + t) }
					return heads(src, emit) && layoutRuns(src, single, all, emit)
				}}) {
					return
				}
			}
		}
	})
	layoutRun(ctx, "long and deep programs: whole-text edits", func(y func(layoutJob) bool) {
		var progs []Prog
		sizes := []int{5, 20, 40}
		if ctx.Thorough() {
			sizes = []int{5, 10, 20, 40, 80, 120, 200}
		}
		for _, n := range sizes {
			var flat, deep, chain, elems, imp strings.Builder
			end := ""
			elems.WriteString("l := []int{1")
			chain.WriteString("x := 1\nif x == 0 {\n\tprint(0)\n}")
			imp.WriteString("import (\n")
			files := map[string]string{}
			for i := 0; i < n; i++ {
				v := string(rune('a'+i%26)) + string(rune('a'+i/26))
				flat.WriteString("v" + v + " := 1\nfunc f" + v + "() int {\n\treturn v" + v + "\n}\nprint(f" + v + "())\n")
				if i < 40 {
					deep.WriteString([]string{"if 1 == 1 {\n", "for i" + v + " := 0; i" + v + " < 1; i" + v + "++ {\n", "switch {\ncase 1 == 1:\n"}[i%3])
					end += "}\n"
				}
				chain.WriteString(" else if x == 2 {\n\tprint(1)\n}")
				elems.WriteString(", 2 + 3")
				if i < 20 {
					files["m"+v+".tsh"] = flat.String() + "func F() int {\n\treturn 1\n}\n"
					imp.WriteString("\tm" + v + " \"m" + v + ".tsh\"\n")
				}
			}
			progs = append(progs, Prog{Name: "flat", Main: flat.String()}, Prog{Name: "deep", Main: deep.String() + "print(1)\n" + end},
				Prog{Name: "elseifs", Main: chain.String() + "\n"}, Prog{Name: "list", Main: elems.String() + "}\nprint(len(l))\n"})
			if n < 40 || ctx.Thorough() && n == 40 {
				progs = append(progs, Prog{Name: "imports", Main: imp.String() + ")\nprint(maa.F())\n", Files: files})
			}
		}
		gen.Returns(func(it gen.Item) bool {
			progs = append(progs, Prog{Name: "returns", Main: it.Text(), Files: it.Files})
			return len(progs) < 60
		})
		for _, p := range progs {
			p := p
			if !y(layoutJob{p, func(y func(string) bool) bool {
				if !wholeEdits(p, 2, y) || !y(strings.ReplaceAll(p.Main, "\n", "\r\n")) {
					return false
				}
				return p.Name == "returns" || layoutRuns(p.Main, nil, []int{5, 17}, y)
			}}) {
				return
			}
			for name, src := range p.Files {
				name, src := name, src
				if p.Name == "returns" || !y(layoutJob{p, func(y func(string) bool) bool {
					emit := func(t string) bool { return y(fileEdit + name + "\x00" + t) }
					return wholeEdits(Prog{Main: src}, 1, emit) && layoutRuns(src, nil, []int{6}, emit)
				}}) {
					break
				}
			}
		}
	})
}
