package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"verifmc/cmdemu"
	"verifmc/core"
	"verifmc/h"
)

// The Batch side of C08: the same programs without file operations, executed
// in the cmd.exe model. The output must consist of the same bytes.

func batOK(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x7f || s[i] < 0x20 && s[i] != '\n' && s[i] != '\t' {
			return false
		}
	}
	return true
}

func noFiles(text string) string {
	var l []string
	for _, s := range strings.Split(text, "\n") {
		if strings.HasPrefix(s, "write(") || strings.HasPrefix(s, "print(\"[\" + read(") || strings.HasPrefix(s, "print(read(") {
			continue
		}
		l = append(l, strings.ReplaceAll(s, ", read(\"o\"))", ")"))
	}
	return strings.Join(l, "\n")
}

func batSys(ctx *h.Ctx, part string, g func(y func(sysCase) bool)) {
	if ctx.Stop() {
		ctx.Part(part, 0, false)
		return
	}
	t0 := time.Now()
	n, complete := h.Parallel(ctx, func(y func(sysCase) bool) { g(y) }, func(w int) func(sysCase) {
		box := ctx.NewBox(fmt.Sprintf("bat-%d", w))
		return func(c sysCase) {
			c.Files = nil
			o, _, why := c.predict()
			if why != "" {
				if core.Debug {
					fmt.Printf("SKIP %s\n%s\n", why, c.Text)
				}
				ctx.AddSkipped()
				return
			}
			run := func() (script, got, want string, bad bool) {
				tr := box.Transpile(c.Text, "batch")
				if tr.Err != nil || tr.Panicked != "" {
					return "", fmt.Sprint("rejected: ", tr.Err, tr.Panicked), o.Out, true
				}
				r := cmdemu.Run(tr.Script, cmdemu.Options{MaxSteps: 3000000, NoPrompt: true, Stdin: c.Stdin, Program: batProgram(ctx)})
				if r.Unsupported != "" {
					if core.Debug {
						fmt.Printf("UNSUPPORTED %s\n%s\n", r.Unsupported, c.Text)
					}
					return tr.Script, "", "", false
				}
				got = fmt.Sprintf("%s\nrc!=0:%v err=%q hang=%v", r.Out, r.Exit != 0, r.Err, r.Hang)
				want = fmt.Sprintf("%s\nrc!=0:%v err=%q hang=%v", o.Out, o.Exit != 0, "", false)
				return tr.Script, got, want, got != want
			}
			script, got, want, bad := run()
			if want == "" && !bad {
				ctx.AddSkipped()
				return
			}
			ctx.AddStates(o.States, o.Steps, 1)
			ctx.Distinct(o.Out)
			if !bad {
				return
			}
			k := c.Key
			if k == "" {
				k = "bat-" + c.Name + "-" + key(c.Text)
			}
			ctx.Report(h.Violation{
				Key: k, What: fmt.Sprintf("[%s] Batch output differs (%s): %s", part, c.Name, clip(strings.ReplaceAll(c.Text, "\n", " ; "))),
				Files:   map[string]string{"main.tsh": c.Text, "script.bat": script, "expected": want, "actual": got, "stdin": strings.Join(c.Stdin, "\n")},
				Recheck: func() bool { _, _, _, b := run(); return b },
			})
		}
	})
	ctx.Part(part, n, complete)
	ctx.Extra("seconds: "+part, float64(int(time.Since(t0).Seconds()*10))/10)
}

func c08bat(ctx *h.Ctx, single, payload []string) {
	q := strconv.Quote
	top := func(s string) string { return dataFuncs + "v := " + q(s) + "\n" + dataPaths("v", "q", len(s)) }
	direct := func(s string) string { return dataFuncs + literalPaths(q(s), len(s)) }
	local := func(s string) string {
		return dataFuncs + "func run(v string) string {\n" + dataPaths("v", "l", 0) + "l := " + q(s) + "\nprint(l, \"[\" + l + \"]\", l == v)\nreturn l\n}\nprint(run(" + q(s) + "))\n"
	}
	input := func(s string) string {
		return dataFuncs + "func run(v string) {\n" + dataPaths("v", "l", 0) + "}\ng := input()\nprint(\"[\" + g + \"]\")\nrun(g)\n" + dataPaths("g", "t", len(s))
	}
	pan := func(s string) string { return "print(\"a\")\nif 1 == 1 {\npanic(" + q(s) + ")\n}\nprint(\"b\")\n" }
	one := func(y func(sysCase) bool, name, text string, stdin ...string) bool {
		return y(sysCase{Name: name, Text: noFiles(text), Stdin: stdin})
	}
	all := func(l []string, y func(sysCase) bool) {
		for _, s := range l {
			if !batOK(s) {
				continue
			}
			if !one(y, "literal", top(s)) || !one(y, "operand", direct(s)) || !one(y, "local", local(s)) || !one(y, "panic", pan(s)) {
				return
			}
			if !strings.Contains(s, "\n") && s != "" && !one(y, "input", input(s), s) {
				return
			}
		}
	}
	batSys(ctx, "Batch: single characters and payloads, all paths", func(y func(sysCase) bool) {
		all(append(append([]string{}, single...), payload...), y)
	})
	batSys(ctx, "Batch: every pair of characters", func(y func(sysCase) bool) {
		var l []string
		for a := byte(0x20); a < 0x7f; a++ {
			for b := byte(0x20); b < 0x7f; b++ {
				if ctx.Thorough() || strings.IndexByte("!%^\"&|<>()'`$\\=;,~*? ", a) >= 0 && strings.IndexByte("!%^\"&|<>()'`$\\=;,~*? ", b) >= 0 {
					l = append(l, string([]byte{a, b}))
				}
			}
		}
		all(l, y)
	})
	danger := []string{"%PATH%", "\"", "!x!", "^", "&", " ", "%%", "|", "a  b", "", "<x", ">x", "%1", ")", "(", "a\"b\"c", "^!", "a^", "%", "!", "%~1", ";"}
	batSys(ctx, "Batch: long values, lists, levels", func(y func(sysCase) bool) {
		for _, c := range append(strings.Split("\" ! % ^ & | < > ( ) ; , = ~ * ' $", " "), " ", "%x%", "!x!", "^!", "\"!", "%1", "\n") {
			for n := 3; n <= 40; n++ {
				a := strings.Repeat("ab", n)
				for _, s := range []string{strings.Repeat(c, n), strings.Repeat(c+"a", n), c + a, a + c, a + c + a} {
					if !one(y, "long", dataFuncs+"v := "+q(s)+"\n"+leanPaths("v", "q", len(s))+"print("+q(s)+", \"[\" + "+q(s)+" + \"]\", v == "+q(s)+", id("+q(s)+"))\nz := []string{"+q(s)+", "+q(s)+"}\nprint(z[0] == v, z[1])\n") {
						return
					}
				}
			}
		}
		for n := 1; n <= 20; n++ {
			for salt := range danger {
				val := func(i int) string { return q(danger[(i+salt)%len(danger)]) }
				if (ctx.Thorough() || n == 1 || salt%4 == n%4) && !one(y, "element", everyElement(n, val)) {
					return
				}
			}
		}
		for n := 1; n <= 16; n++ {
			for _, d := range danger {
				if d != "" && !one(y, "deep", dataFuncs+deepData(n, q(d))) {
					return
				}
			}
		}
	})
}
