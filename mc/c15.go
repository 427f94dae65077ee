package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"verifmc/h"
)

// libCall is one call of the library with the lines Go's function prescribes.
type libCall struct {
	body string // statements; § is replaced by a number unique in the script
	want string
	name string
}

func lit(s string) string { return strconv.Quote(s) }

func b01(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

func lits(ss []string) string {
	q := make([]string, len(ss))
	for i, s := range ss {
		q[i] = lit(s)
	}
	return "[]string{" + strings.Join(q, ", ") + "}"
}

func callStr(fn string, want string, args ...string) libCall {
	return libCall{fmt.Sprintf("print(\"[\" + strings.%s(%s) + \"]\")\n", fn, strings.Join(args, ", ")), "[" + want + "]\n", fn}
}

func callVal(fn string, want string, args ...string) libCall {
	return libCall{fmt.Sprintf("print(strings.%s(%s))\n", fn, strings.Join(args, ", ")), want + "\n", fn}
}

// libTwo yields the calls of every function over a pair of strings.
func libTwo(s, t string, y func(libCall) bool) bool {
	a, b := lit(s), lit(t)
	cb, ca, cf := strings.Cut(s, t)
	pf, pb := strings.CutPrefix(s, t)
	sf, sb := strings.CutSuffix(s, t)
	parts := strings.Split(s, t)
	sw := fmt.Sprintf("%d\n", len(parts))
	for i, p := range parts {
		sw += fmt.Sprintf("%d [%s]\n", i, p)
	}
	for _, c := range []libCall{
		callVal("Index", strconv.Itoa(strings.Index(s, t)), a, b),
		callVal("Contains", b01(strings.Contains(s, t)), a, b),
		callVal("HasPrefix", b01(strings.HasPrefix(s, t)), a, b),
		callVal("HasSuffix", b01(strings.HasSuffix(s, t)), a, b),
		callVal("Count", strconv.Itoa(strings.Count(s, t)), a, b),
		callStr("TrimPrefix", strings.TrimPrefix(s, t), a, b),
		callStr("TrimSuffix", strings.TrimSuffix(s, t), a, b),
		{fmt.Sprintf("a§, b§, c§ := strings.Cut(%s, %s)\nprint(\"[\" + a§ + \"][\" + b§ + \"]\", c§)\n", a, b), fmt.Sprintf("[%s][%s] %s\n", cb, ca, b01(cf)), "Cut"},
		{fmt.Sprintf("a§, c§ := strings.CutPrefix(%s, %s)\nprint(\"[\" + a§ + \"]\", c§)\n", a, b), fmt.Sprintf("[%s] %s\n", pf, b01(pb)), "CutPrefix"},
		{fmt.Sprintf("a§, c§ := strings.CutSuffix(%s, %s)\nprint(\"[\" + a§ + \"]\", c§)\n", a, b), fmt.Sprintf("[%s] %s\n", sf, b01(sb)), "CutSuffix"},
		{fmt.Sprintf("s§ := strings.Split(%s, %s)\nprint(len(s§))\nfor i§, e§ := range s§ {\nprint(i§, \"[\" + e§ + \"]\")\n}\n", a, b), sw, "Split"},
	} {
		if !y(c) {
			return false
		}
	}
	return true
}

func libTrim(s, t string, y func(libCall) bool) bool {
	a, b := lit(s), lit(t)
	return y(callStr("TrimLeft", strings.TrimLeft(s, t), a, b)) && y(callStr("TrimRight", strings.TrimRight(s, t), a, b)) && y(callStr("Trim", strings.Trim(s, t), a, b))
}

func libReplace(s, old, new string, n int) libCall {
	return callStr("Replace", strings.Replace(s, old, new, n), lit(s), lit(old), lit(new), strconv.Itoa(n))
}

// strs are all strings over the alphabet with at most n letters.
func strs(alpha []string, n int) []string {
	var l []string
	for k := 0; k <= n; k++ {
		allStrings(alpha, k, func(s string) bool { l = append(l, s); return true })
	}
	return l
}

// libProgram packs calls; inFn runs them within a function, variable runs them with values of variables.
func libProgram(cs []libCall, inFn bool) (string, string) {
	var b, w strings.Builder
	b.WriteString("import \"strings\"\n")
	if len(cs) == 1 && strings.HasPrefix(cs[0].body, "\x00") { // contains functions
		return b.String() + cs[0].body[1:], cs[0].want
	}
	if inFn {
		b.WriteString("func run(s string, i int) {\n")
	}
	for i, c := range cs {
		b.WriteString(strings.ReplaceAll(c.body, "§", fmt.Sprintf("q%d", i)))
		w.WriteString(c.want)
	}
	if inFn {
		b.WriteString("}\nrun(\"abab\", 1)\n")
	}
	return b.String(), w.String()
}

func libFail(box *h.Box, cs []libCall, inFn bool) (what, text, script, want, got string) {
	text, want = libProgram(cs, inFn)
	r := box.Transpile(text, "bash")
	if r.Err != nil {
		return "rejected: " + r.Err.Error(), text, "", want, r.Err.Error()
	}
	o := box.Bash(r.Script, h.BashOpt{})
	if o.Overload {
		return
	}
	got = fmt.Sprintf("exit %d\n%s\n--- stderr\n%s", o.Exit, o.Out, o.Err)
	switch {
	case o.Hang || o.Truncd:
		what = "does not terminate"
	case o.Out != want:
		what = "result differs from Go's"
	case o.Err != "":
		what = "writes to stderr"
	case o.Exit != 0:
		what = "exit status"
	}
	return what, text, r.Script, want, got
}

func libRun(ctx *h.Ctx, part string, pack int, g func(y func(libCall) bool)) {
	if ctx.Stop() {
		ctx.Part(part, 0, false)
		return
	}
	t0 := time.Now()
	type job struct {
		cs   []libCall
		inFn bool
	}
	var n int64
	var run int64
	_, complete := h.Parallel(ctx, func(yield func(job) bool) {
		var cur []libCall
		k := 0
		flush := func() bool {
			if len(cur) == 0 {
				return true
			}
			k++
			j := job{cur, k%2 == 0}
			cur = nil
			return yield(j)
		}
		ok := true
		g(func(c libCall) bool {
			n++
			cur = append(cur, c)
			if len(cur) >= pack {
				ok = flush()
			}
			return ok
		})
		if ok {
			flush()
		}
	}, func(w int) func(job) {
		box := ctx.NewBox(fmt.Sprintf("lib-%d", w))
		return func(j job) {
			ctx.AddStates(len(j.cs), len(j.cs), len(j.cs))
			atomic.AddInt64(&run, int64(len(j.cs)))
			what, _, _, _, _ := libFail(box, j.cs, j.inFn)
			if what == "" {
				ctx.Sample(map[string]string{"part": part, "call": j.cs[0].body, "expected": j.cs[0].want})
				return
			}
			cs := j.cs
			for _, c := range j.cs {
				if ctx.Failed() {
					return
				}
				if w, _, _, _, _ := libFail(box, []libCall{c}, j.inFn); w != "" {
					cs = []libCall{c}
					break
				}
			}
			what, text, script, want, got := libFail(box, cs, j.inFn)
			if what == "" {
				return
			}
			ctx.Report(h.Violation{
				Key: cs[0].name + "-" + key(text), What: fmt.Sprintf("[%s] %s: %s", part, what, strings.ReplaceAll(strings.TrimPrefix(text, "import \"strings\"\n"), "\n", " ; ")),
				Files:   map[string]string{"main.tsh": text, "script.sh": script, "expected": want, "actual": got},
				Recheck: func() bool { w, _, _, _, _ := libFail(box, cs, j.inFn); return w != "" },
			})
		}
	})
	ctx.Part(part, n, complete)
	ctx.Extra("seconds: "+part, float64(int(time.Since(t0).Seconds()*10))/10)
}

func c15(ctx *h.Ctx) {
	if _, err := os.Stat(filepath.Join(h.Verif, ".build", "std", "strings.tsh")); err != nil {
		fmt.Println("std not found beside the executable")
		os.Exit(2)
	}
	ctx.Assume("the NUL character is excluded: no Bash variable can hold it")
	ctx.Assume("Repeat with a negative count is excluded: Go's function panics")
	ab := []string{"a", "b"}
	all := make([]string, 0, 127)
	for c := 1; c < 128; c++ {
		all = append(all, string(rune(c)))
	}
	libRun(ctx, "pairs over {a,b}", 44, func(y func(libCall) bool) {
		for _, s := range strs(ab, pick(ctx, 4, 5)) {
			for _, t := range strs(ab, pick(ctx, 3, 4)) {
				if len(t) <= len(s)+1 && !libTwo(s, t, y) {
					return
				}
			}
		}
	})
	c15ctx(ctx)
	c15sizes(ctx)
	libRun(ctx, "longer self-overlapping texts", 22, func(y func(libCall) bool) {
		for _, s := range []string{"aaaaaaa", "abababab", "aabaabaa", "abcabcabcabc", "bbbbbbbbbbbba", "abaababaabaab"} {
			for _, t := range []string{"", "a", "aa", "aaa", "ab", "aba", "baab", "abcabc", s, s + "a", "bb", "ba"} {
				if !libTwo(s, t, y) {
					return
				}
			}
		}
	})
	libRun(ctx, "every ASCII character as text and as separator", 33, func(y func(libCall) bool) {
		for _, c := range all {
			for _, p := range [][2]string{{c, c}, {"x" + c + "y" + c, c}, {c + "x", "x"}, {"x" + c, "x" + c}, {c + c + c, c}, {c, ""}} {
				if !libTwo(p[0], p[1], y) {
					return
				}
			}
			for _, p := range [][2]string{{c + "x" + c, c}, {"x" + c, "x"}, {c, c + c}, {c + "a" + c, "a" + c}} {
				if !libTrim(p[0], p[1], y) {
					return
				}
			}
			if !y(callStr("TrimSpace", strings.TrimSpace(c+"x"+c+"y"+c), lit(c+"x"+c+"y"+c))) ||
				!y(libReplace("a"+c+"b"+c, c, "#", -1)) || !y(libReplace("a#b#", "#", c, 1)) || !y(libReplace(c+"z", "", c, 2)) ||
				!y(callStr("ReplaceAll", strings.ReplaceAll(c+"-"+c, c, "x"+c), lit(c+"-"+c), lit(c), lit("x"+c))) ||
				!y(callStr("Repeat", strings.Repeat(c, 3), lit(c), "3")) ||
				!y(callStr("Join", strings.Join([]string{c, "", "k" + c}, c), lits([]string{c, "", "k" + c}), lit(c))) {
				return
			}
		}
	})
	libRun(ctx, "letter case and near misses", 44, func(y func(libCall) bool) {
		for _, s := range strs([]string{"a", "A", "z"}, 3) {
			for _, t := range strs([]string{"a", "A"}, 2) {
				if !libTwo(s, t, y) || !libTrim(s, t, y) {
					return
				}
			}
		}
	})
	libRun(ctx, "cut sets", 36, func(y func(libCall) bool) {
		for _, s := range strs([]string{"a", "b", "c"}, pick(ctx, 4, 5)) {
			for _, t := range []string{"", "a", "b", "ab", "ba", "aa", "cb", "abc", "aab"} {
				if !libTrim(s, t, y) {
					return
				}
			}
		}
	})
	libRun(ctx, "white space", 30, func(y func(libCall) bool) {
		ws := []string{" ", "\t", "\n", "\v", "\f", "\r", "a"}
		for _, s := range strs(ws, pick(ctx, 3, 4)) {
			if !y(callStr("TrimSpace", strings.TrimSpace(s), lit(s))) {
				return
			}
		}
		for _, s := range strs([]string{" ", "\n", "a"}, 5) {
			if len(s) > 3 && !y(callStr("TrimSpace", strings.TrimSpace(s), lit(s))) {
				return
			}
		}
	})
	libRun(ctx, "replacements", 32, func(y func(libCall) bool) {
		for _, s := range strs(ab, pick(ctx, 4, 5)) {
			for _, old := range strs(ab, pick(ctx, 2, 3)) {
				for _, new := range []string{"", "x", "ab", "a"} {
					if !y(callStr("ReplaceAll", strings.ReplaceAll(s, old, new), lit(s), lit(old), lit(new))) {
						return
					}
					for n := -2; n <= 4; n++ {
						if len(s) == 4 && n != -1 && n != 2 && !ctx.Thorough() {
							continue
						}
						if !y(libReplace(s, old, new, n)) {
							return
						}
					}
				}
			}
		}
	})
	libRun(ctx, "repetitions and joins", 40, func(y func(libCall) bool) {
		for _, s := range []string{"", "a", "ab", " ", "\n", "aab"} {
			for n := 0; n <= 12; n++ {
				if !y(callStr("Repeat", strings.Repeat(s, n), lit(s), strconv.Itoa(n))) {
					return
				}
			}
		}
		el := []string{"", "a", "b c"}
		var rec func(cur []string) bool
		rec = func(cur []string) bool {
			for _, sep := range []string{"", ",", " ", "ab", "\n"} {
				if !y(callStr("Join", strings.Join(cur, sep), lits(cur), lit(sep))) {
					return false
				}
			}
			if len(cur) == 4 {
				return true
			}
			for _, e := range el {
				if !rec(append(cur[:len(cur):len(cur)], e)) {
					return false
				}
			}
			return true
		}
		if !rec(nil) {
			return
		}
		long := strings.Split("a b c d e f g h i j k l m", " ")
		for n := 9; n <= len(long); n++ {
			if !y(callStr("Join", strings.Join(long[:n], "+"), lits(long[:n]), lit("+"))) || !libTwo(strings.Join(long[:n], "+"), "+", y) {
				return
			}
		}
	})
	libRun(ctx, "compositions and repeated use", 12, func(y func(libCall) bool) {
		for _, s := range strs([]string{"a", "b", ","}, pick(ctx, 3, 4)) {
			for _, sep := range []string{",", "a", "ab"} {
				a, b := lit(s), lit(sep)
				for _, c := range []libCall{
					callStr("Join(Split)", strings.Join(strings.Split(s, sep), "-"), "!"),
					callStr("Trim(Replace)", strings.Trim(strings.Replace(s, sep, "b", 1), "b"), "?"),
				} {
					switch c.name {
					case "Join(Split)":
						c.body = fmt.Sprintf("print(\"[\" + strings.Join(strings.Split(%s, %s), \"-\") + \"]\")\n", a, b)
					default:
						c.body = fmt.Sprintf("print(\"[\" + strings.Trim(strings.Replace(%s, %s, \"b\", 1), \"b\") + \"]\")\n", a, b)
					}
					if !y(c) {
						return
					}
				}
				// arguments in variables which must keep their values
				w := fmt.Sprintf("%d %d [%s] [%s] [%s]\n", strings.Count(s, sep), strings.Index(s, sep), strings.TrimPrefix(s, sep), s, sep)
				body := fmt.Sprintf("s§ := %s\nsep§ := %s\nprint(strings.Count(s§, sep§), strings.Index(s§, sep§), \"[\" + strings.TrimPrefix(s§, sep§) + \"]\", \"[\" + s§ + \"]\", \"[\" + sep§ + \"]\")\n", a, b)
				if !y(libCall{body, w, "vars"}) {
					return
				}
				// two slices returned by the library must be independent
				p1, p2 := strings.Split(s, sep), strings.Split(s+sep+"z", sep)
				w = fmt.Sprintf("%d %d [%s] [%s]\n", len(p1), len(p2), p1[len(p1)-1], p2[len(p2)-1])
				body = fmt.Sprintf("x§ := strings.Split(%s, %s)\ny§ := strings.Split(%s, %s)\nprint(len(x§), len(y§), \"[\" + x§[len(x§) - 1] + \"]\", \"[\" + y§[len(y§) - 1] + \"]\")\n", a, b, lit(s+sep+"z"), b)
				if !y(libCall{body, w, "two splits"}) {
					return
				}
			}
		}
	})
}
