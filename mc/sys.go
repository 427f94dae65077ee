package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"verifmc/h"
	"verifmc/ref"
)

// Programs that act on files and call programs: the model predicts output,
// exit status and the whole content of the working directory.

type sysCase struct {
	Name  string
	Text  string
	Files map[string]string // initial content of the working directory (name ending in / = directory)
	Stdin []string
	// Neutral: only arguments which the C runtime's rules for " and \ leave alone are judged.
	Neutral bool
	Key     string // of a recorded finding
}

// probes are the programs the scripts may call (found through PATH).
var probes = map[string]string{
	"probe":    "printf '%d\\n' $#\nfor a in \"$@\"; do printf '<%s>\\n' \"$a\"; done\n",
	"emit":     "printf '%s' \"$1\"\n",
	"st":       "exit $1\n",
	"est":      "printf '%s\\n' \"$1\"\nexit $2\n",
	"tag":      "while IFS= read -r l || [ -n \"$l\" ]; do printf '%s%s\\n' \"$1\" \"$l\"; done\n",
	"tagst":    "while IFS= read -r l || [ -n \"$l\" ]; do printf '%s%s\\n' \"$1\" \"$l\"; done\nexit $2\n",
	"bytes":    "n=$(wc -c)\nprintf '%d\\n' \"$n\"\n",
	"logrun":   "printf '%s\\n' \"$1\" >> log\nprintf '%s\\n' \"$1\"\n",
	"my probe": "printf '%d\\n' $#\nfor a in \"$@\"; do printf '<%s>\\n' \"$a\"; done\n",
	"pro$be":   "printf 'dollar %d\\n' $#\n",
	"pro*e":    "printf 'star %d\\n' $#\n",
	"p;q":      "printf 'semi %d\\n' $#\n",
	"p'\"q":    "printf 'quote %d\\n' $#\n",
}

// oddNames are further programs, they print their name and arguments.
var oddNames = []string{"if", "done", "time", "function", "a=b", "-x", "--", "fn_probe", "fn_f", "_sah", "_ssh", "_sch", "_sih", "{", "}", "!", "!x", "~p", "p\\q", "a\tb", "a  b", " a", "a ", "p%q", "#p", "p#q", "[x", "[ab]", "x?", "&", "a&b", "a|b", "a;", "(x)", "$(x)", "$1", "${x}", "`x`", "a>b", "<", ">", "a,b", "@x", "^x", "1", "0", "2", "x:y", "X", "x", "a\nb", "é"}

const markScript = "#!/bin/sh\nprintf '(%s)%d\\n' \"${0##*/}\" $#\nfor a in \"$@\"; do printf '<%s>\\n' \"$a\"; done\n"

func isOdd(n string) bool {
	for _, o := range oddNames {
		if n == o {
			return true
		}
	}
	return false
}

// appModel predicts a chain of probes.
func appModel(fs map[string]string, names []string, args [][]string) (out string, code int, ok bool) {
	return appStages(fs, "", names, args)
}

func appStages(fs map[string]string, in string, names []string, args [][]string) (out string, code int, ok bool) {
	for i, n := range names {
		a := args[i]
		out, code = "", 0
		arg := func(k int) string {
			if k < len(a) {
				return a[k]
			}
			return ""
		}
		switch n {
		case "probe", "my probe":
			out = fmt.Sprintf("%d\n", len(a))
			for _, x := range a {
				out += "<" + x + ">\n"
			}
		case "pro$be":
			out = fmt.Sprintf("dollar %d\n", len(a))
		case "pro*e":
			out = fmt.Sprintf("star %d\n", len(a))
		case "p;q":
			out = fmt.Sprintf("semi %d\n", len(a))
		case "p'\"q":
			out = fmt.Sprintf("quote %d\n", len(a))
		case "emit":
			out = arg(0)
		case "st":
			code, _ = strconv.Atoi(arg(0))
		case "est":
			out = arg(0) + "\n"
			code, _ = strconv.Atoi(arg(1))
		case "tag", "tagst":
			if in != "" && !strings.HasSuffix(in, "\n") {
				in += "\n"
			}
			for _, l := range strings.SplitAfter(in, "\n") {
				if l != "" {
					out += arg(0) + l
				}
			}
			if n == "tagst" {
				code, _ = strconv.Atoi(arg(1))
			}
		case "bytes":
			out = fmt.Sprintf("%d\n", len(in))
		case "cat":
			if len(a) == 0 {
				out = in
			} else if c, has := fs[a[0]]; has && len(a) == 1 {
				out = c
			} else {
				return "", 0, false
			}
		case "logrun":
			if len(names) > 1 {
				return "", 0, false // programs of a pipeline run concurrently
			}
			fs["log"] += arg(0) + "\n"
			out = arg(0) + "\n"
		default:
			c, has := fs[filepath.Clean(n)]
			if !(isOdd(n) && !has || strings.Contains(n, "/") && has && c == markScript) {
				return "", 0, false
			}
			out = fmt.Sprintf("(%s)%d\n", filepath.Base(n), len(a))
			for _, x := range a {
				out += "<" + x + ">\n"
			}
		}
		in = out
	}
	return out, code, true
}

type sysBox struct {
	*h.Box
	bin  string
	home string
}

func newSysBox(ctx *h.Ctx, name string) *sysBox {
	b := &sysBox{Box: ctx.NewBox(name)}
	b.bin = filepath.Join(b.Dir, "bin")
	b.home = filepath.Join(b.Dir, "home")
	os.MkdirAll(b.bin, 0755)
	os.MkdirAll(b.home, 0755)
	for n, s := range probes {
		if err := os.WriteFile(filepath.Join(b.bin, n), []byte("#!/bin/sh\n"+s), 0755); err != nil {
			panic(err)
		}
	}
	for _, n := range oddNames {
		if err := os.WriteFile(filepath.Join(b.bin, n), []byte(markScript), 0755); err != nil {
			panic(err)
		}
	}
	return b
}

// tree lists everything below the working directory.
func (b *sysBox) tree() map[string]string {
	m := map[string]string{}
	filepath.Walk(b.Work, func(p string, i os.FileInfo, err error) error {
		rel, _ := filepath.Rel(b.Work, p)
		if err != nil || rel == "." {
			return nil
		}
		if i.IsDir() {
			m[rel+"/"] = ""
		} else if i.Mode().IsRegular() {
			d, _ := os.ReadFile(p)
			m[rel] = string(d)
		} else {
			m[rel] = "(special)"
		}
		return nil
	})
	return m
}

func treeDiff(want, got map[string]string) string {
	var ks []string
	for k := range want {
		ks = append(ks, k)
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		w, a := want[k]
		g, b := got[k]
		switch {
		case !b:
			return fmt.Sprintf("%q is missing", k)
		case !a:
			return fmt.Sprintf("%q (content %q) must not exist", k, g)
		case w != g:
			return fmt.Sprintf("%q contains %q, want %q", k, g, w)
		}
	}
	return ""
}

type sysDiff struct{ what, script, want, got string }

func (b *sysBox) run(c sysCase, want ref.Outcome, wantFS map[string]string) *sysDiff {
	b.CleanWork()
	for k, v := range c.Files {
		p := filepath.Join(b.Work, k)
		if strings.HasSuffix(k, "/") {
			os.MkdirAll(p, 0755)
			continue
		}
		os.MkdirAll(filepath.Dir(p), 0755)
		mode := os.FileMode(0644)
		if v == markScript {
			mode = 0755
		}
		os.WriteFile(p, []byte(v), mode)
	}
	ws := fmt.Sprintf("exit %d\n%s\n--- files\n%q", want.Exit, want.Out, wantFS)
	r := b.Transpile(c.Text, "bash")
	if r.Err != nil {
		return &sysDiff{"well-formed program rejected: " + r.Err.Error(), "", ws, r.Err.Error()}
	}
	in := ""
	if len(c.Stdin) > 0 {
		in = strings.Join(c.Stdin, "\n") + "\n"
	}
	o := b.Bash(r.Script, h.BashOpt{Stdin: in, Keep: true, Env: []string{"PATH=" + b.bin + ":/usr/bin:/bin", "HOME=" + b.home}})
	if o.Overload {
		return nil
	}
	got := b.tree()
	gs := fmt.Sprintf("exit %d\n%s\n--- files\n%q\n--- stderr\n%s", o.Exit, o.Out, got, o.Err)
	d := &sysDiff{"", r.Script, ws, gs}
	td := treeDiff(wantFS, got)
	es, _ := os.ReadDir(b.home)
	switch {
	case o.Hang || o.Truncd:
		d.what = "script does not terminate"
	case o.Out != want.Out:
		d.what = fmt.Sprintf("prints %q, want %q", clip(o.Out), clip(want.Out))
	case o.Err != "":
		d.what = "script writes to stderr: " + clip(o.Err)
	case o.Exit != want.Exit:
		d.what = fmt.Sprintf("exit status %d, want %d", o.Exit, want.Exit)
	case td != "":
		d.what = "files: " + td
	case len(es) > 0:
		d.what = "writes into the home directory: " + es[0].Name()
		for _, e := range es {
			os.RemoveAll(filepath.Join(b.home, e.Name()))
		}
	default:
		return nil
	}
	return d
}

func clip(s string) string {
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}

// predict runs the model.
func (c sysCase) predict() (o ref.Outcome, fs map[string]string, why string) {
	p, err := ref.CheckText(c.Text)
	if err != nil {
		return o, nil, "rejected: " + err.Error()
	}
	if p.Unspec != "" {
		return o, nil, p.Unspec
	}
	init := map[string]string{}
	for k, v := range c.Files {
		init[strings.TrimSuffix(k, "/")] = v
	}
	o = ref.Run(p, ref.Options{Bits: 64, Stdin: c.Stdin, MaxSteps: 50000, FS: init, App: func(fs map[string]string, names []string, args [][]string) (string, int, bool) {
		for _, a := range args {
			for _, x := range a {
				if c.Neutral && (strings.Contains(x, "\"") || strings.HasSuffix(x, "\\")) {
					return "", 0, false
				}
			}
		}
		return appModel(fs, names, args)
	}})
	if o.UB != "" {
		return o, nil, o.UB
	}
	fs = map[string]string{}
	for k, v := range o.FS {
		k = filepath.Clean(k)
		if _, dir := c.Files[k+"/"]; dir {
			continue
		}
		fs[k] = v
	}
	for k := range fs {
		for d := filepath.Dir(k); d != "." && d != "/"; d = filepath.Dir(d) {
			fs[d+"/"] = ""
		}
	}
	for k := range c.Files {
		if strings.HasSuffix(k, "/") {
			fs[k] = ""
		}
	}
	return o, fs, ""
}

// sysRun checks every case; shrink may offer smaller cases to report.
func sysRun(ctx *h.Ctx, part string, g func(y func(sysCase) bool)) {
	if ctx.Stop() {
		ctx.Part(part, 0, false)
		return
	}
	if wfSink != nil {
		wfSink(ctx, part, func(y func(wfProg) bool) {
			g(func(c sysCase) bool { return y(wfProg{tag: "sys-" + c.Name, main: c.Text}) })
		})
		return
	}
	t0 := time.Now()
	n, complete := h.Parallel(ctx, func(y func(sysCase) bool) { g(y) }, func(w int) func(sysCase) {
		box := newSysBox(ctx, fmt.Sprintf("sys-%d", w))
		return func(c sysCase) {
			o, fs, why := c.predict()
			if why != "" {
				ctx.AddSkipped()
				if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Printf("SKIP %s\n%s\n", why, c.Text)
				}
				return
			}
			ctx.AddStates(o.States, o.Steps, 1)
			ctx.Distinct(o.Out)
			d := box.run(c, o, fs)
			if d == nil {
				ctx.Sample(map[string]string{"part": part, "program": c.Text})
				return
			}
			ctx.Report(h.Violation{
				Key: c.Name + "-" + key(c.Text), What: fmt.Sprintf("[%s] %s (%s): %s", part, d.what, c.Name, clip(strings.ReplaceAll(c.Text, "\n", " ; "))),
				Files:   map[string]string{"main.tsh": c.Text, "script.sh": d.script, "expected": d.want, "actual": d.got, "files": fmt.Sprintf("%q", c.Files), "stdin": strings.Join(c.Stdin, "\n")},
				Recheck: func() bool { return box.run(c, o, fs) != nil },
			})
		}
	})
	ctx.Part(part, n, complete)
	ctx.Extra("seconds: "+part, float64(int(time.Since(t0).Seconds()*10))/10)
}
