// Package core compares enumerated programs on the model and on the implementation.
package core

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"

	"verifmc/gen"
	"verifmc/h"
	"verifmc/ref"
)

type Obs struct {
	Out  string
	Exit int
	Err  string
}

type Cfg struct {
	Part   string
	Target string // bash or batch
	Bits   int
	Pack   int
	// Exec runs the emitted script; default by target.
	Exec func(b *h.Box, script string, it []gen.Item) (Obs, string)
	// Filter drops items the model says are outside the property.
	Filter func(p *ref.Program) bool
}

// Diff describes a mismatch ("" = agreement).
type Diff struct {
	What, Script, Want, Got string
}

// appModel models chains of echo and cat.
func appModel(_ map[string]string, names []string, args [][]string) (out string, code int, ok bool) {
	for i, n := range names {
		switch {
		case n == "echo" && (len(args[i]) == 0 || !strings.HasPrefix(args[i][0], "-")):
			out = strings.Join(args[i], " ") + "\n"
		case n == "cat" && len(args[i]) == 0 && i > 0:
		default:
			return "", 0, false
		}
	}
	return out, 0, true
}

func model(text string, it gen.Item, bits int) (o ref.Outcome, rej error, unspec string) {
	var p *ref.Program
	if len(it.Files) > 0 {
		fs := map[string]string{"/m/main.tsh": text}
		for k, v := range it.Files {
			fs["/m/"+k] = v
		}
		p, rej = ref.CheckFiles(ref.Sources{Files: fs, StdDir: "/m/std"}, "/m/main.tsh")
	} else {
		p, rej = ref.CheckText(text)
	}
	if rej != nil {
		return
	}
	if p.Unspec != "" {
		unspec = p.Unspec
		return
	}
	o = ref.Run(p, ref.Options{Bits: bits, Stdin: it.Stdin, MaxSteps: 200000, NoStates: true, App: appModel})
	return
}

func bashExec(b *h.Box, script string, its []gen.Item) (Obs, string) {
	o := h.BashOpt{}
	if len(its) == 1 && len(its[0].Stdin) > 0 {
		o.Stdin = strings.Join(its[0].Stdin, "\n") + "\n"
	}
	r := b.Bash(script, o)
	if r.Overload {
		return Obs{}, "overload"
	}
	e := r.Err
	if r.Hang {
		e = "HANG " + e
	}
	if r.Truncd {
		e = "RUNAWAY OUTPUT " + e
	}
	return Obs{r.Out, r.Exit, e}, ""
}

func eval(b *h.Box, cfg Cfg, its []gen.Item, text string, want ref.Outcome) *Diff {
	d, _ := evalSkip(b, cfg, its, text, want)
	return d
}

// evalSkip also tells whether the script could not be run.
func evalSkip(b *h.Box, cfg Cfg, its []gen.Item, text string, want ref.Outcome) (*Diff, bool) {
	var r h.TResult
	if len(its) == 1 && len(its[0].Files) > 0 {
		for k, v := range its[0].Files {
			p := filepath.Join(b.Dir, k)
			os.MkdirAll(filepath.Dir(p), 0755)
			h.PutFile(p, v)
			defer os.Remove(p)
		}
	}
	r = b.Transpile(text, cfg.Target)
	w := fmt.Sprintf("exit %d\n%s", want.Exit, want.Out)
	if r.Err != nil {
		return &Diff{What: "well-formed program rejected: " + r.Err.Error(), Want: w, Got: "error: " + r.Err.Error()}, false
	}
	o, skip := cfg.Exec(b, r.Script, its)
	if skip != "" {
		return nil, true
	}
	g := fmt.Sprintf("exit %d\n%s", o.Exit, o.Out)
	if o.Err != "" {
		g += "\n--- stderr\n" + o.Err
	}
	if o.Out == want.Out && o.Exit == want.Exit && o.Err == "" {
		return nil, false
	}
	what := "output differs from the model"
	if o.Exit != want.Exit {
		what = fmt.Sprintf("exit status %d, model says %d", o.Exit, want.Exit)
	} else if o.Out == want.Out {
		what = "script writes to stderr: " + firstLine(o.Err)
	}
	return &Diff{What: what, Script: r.Script, Want: w, Got: g}, false
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 160 {
		s = s[:160]
	}
	return s
}

// Run enumerates items and compares. It reports violations to ctx.
func Run(ctx *h.Ctx, cfg Cfg, g func(y gen.Yield) bool) {
	if cfg.Exec == nil {
		cfg.Exec = bashExec
	}
	if cfg.Bits == 0 {
		cfg.Bits = 64
	}
	if cfg.Pack == 0 {
		cfg.Pack = 24
	}
	var elements int64
	sk0 := atomic.LoadInt64(&ctx.Skipped)
	t0 := time.Now()
	defer func() {
		ctx.Extra("seconds: "+cfg.Part+" ("+cfg.Target+")", float64(int(time.Since(t0).Seconds()*10))/10)
	}()
	complete := true
	items := make(chan []gen.Item, 64)
	_ = items
	genPacks := func(y func([]gen.Item) bool) {
		pend := map[string][]gen.Item{}
		var order []string
		ok := g(func(it gen.Item) bool {
			elements++
			if it.Solo || len(it.Files) > 0 || len(it.Stdin) > 0 {
				return y([]gen.Item{it})
			}
			if len(pend[it.Pre]) == 0 {
				order = append(order, it.Pre)
				if len(order) > 64 {
					o := order[0]
					order = order[1:]
					l := pend[o]
					delete(pend, o)
					if len(l) > 0 && !y(l) {
						return false
					}
				}
			}
			pend[it.Pre] = append(pend[it.Pre], it)
			if l := pend[it.Pre]; len(l) >= cfg.Pack {
				delete(pend, it.Pre)
				for i, o := range order {
					if o == it.Pre {
						order = append(order[:i:i], order[i+1:]...)
						break
					}
				}
				return y(l)
			}
			return true
		})
		if !ok {
			complete = false
			return
		}
		for _, o := range order {
			if l := pend[o]; len(l) > 0 {
				if !y(l) {
					complete = false
					return
				}
			}
		}
	}
	_, c := h.Parallel(ctx, genPacks, func(w int) func([]gen.Item) {
		box := ctx.NewBox(fmt.Sprintf("%s-%s-%d", sanit(cfg.Part), cfg.Target, w))
		return func(its []gen.Item) { one(ctx, cfg, box, its) }
	})
	ctx.Part(cfg.Part, elements, complete && c)
	if Debug {
		fmt.Printf("SKIPPED %d %s\n", atomic.LoadInt64(&ctx.Skipped)-sk0, cfg.Part)
	}
}

func sanit(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= '0' && r <= '9' || r >= 'A' && r <= 'Z' {
			return r
		}
		return '_'
	}, s)
}

// Debug makes model rejections of generated programs fatal.
var Debug = os.Getenv("VERIF_DEBUG") != ""

func one(ctx *h.Ctx, cfg Cfg, box *h.Box, all []gen.Item) {
	var its []gen.Item
	for _, it := range all {
		text := it.Text()
		var p *ref.Program
		var err error
		if len(it.Files) > 0 {
			fs := map[string]string{"/m/main.tsh": text}
			for k, v := range it.Files {
				fs["/m/"+k] = v
			}
			p, err = ref.CheckFiles(ref.Sources{Files: fs, StdDir: "/m/std"}, "/m/main.tsh")
		} else {
			p, err = ref.CheckText(text)
		}
		if err != nil {
			atomic.AddInt64(&ctx.Rejected, 1)
			if Debug {
				fmt.Printf("MODEL REJECTS %s: %v\n%s\n", it.Tag, err, text)
			}
			continue
		}
		if p.Unspec != "" || cfg.Filter != nil && !cfg.Filter(p) {
			atomic.AddInt64(&ctx.Skipped, 1)
			if Debug && p.Unspec != "" {
				fmt.Printf("UNSPEC %s: %v\n%s\n", it.Tag, p.Unspec, text)
			}
			continue
		}
		o := ref.Run(p, ref.Options{Bits: cfg.Bits, Stdin: it.Stdin, MaxSteps: 3000, App: appModel})
		if o.UB != "" {
			atomic.AddInt64(&ctx.Skipped, 1)
			if Debug {
				fmt.Printf("UB %s: %v\n%s\n", it.Tag, o.UB, text)
			}
			continue
		}
		ctx.AddStates(o.States, o.Steps, 1)
		ctx.Distinct(o.Out)
		its = append(its, it)
	}
	if len(its) == 0 {
		return
	}
	if len(its) > 0 {
		ctx.Sample(map[string]string{"part": cfg.Part, "program": its[0].Text()})
	}
	check(ctx, cfg, box, its)
}

func check(ctx *h.Ctx, cfg Cfg, box *h.Box, its []gen.Item) {
	text := its[0].Text()
	if len(its) > 1 {
		text = gen.Pack(its)
	}
	want, rej, uns := model(text, its[0], cfg.Bits)
	if rej != nil || uns != "" || want.UB != "" {
		if len(its) == 1 {
			return
		}
		if Debug {
			fmt.Printf("PACK not well-formed for the model: %v %s %s\n%s", rej, uns, want.UB, text)
		}
		for _, it := range its {
			check(ctx, cfg, box, []gen.Item{it})
		}
		return
	}
	d, skip := evalSkip(box, cfg, its, text, want)
	if skip && len(its) > 1 {
		// one of them is outside the model
		for _, it := range its {
			check(ctx, cfg, box, []gen.Item{it})
		}
		return
	}
	if d == nil {
		return
	}
	if len(its) > 1 {
		// narrow down
		found := false
		for _, it := range its {
			if ctx.Failed() {
				return
			}
			t := it.Text()
			w, _, _ := model(t, it, cfg.Bits)
			if dd := eval(box, cfg, []gen.Item{it}, t, w); dd != nil {
				found = true
				report(ctx, cfg, box, []gen.Item{it}, t, w, dd)
			}
		}
		if found {
			return
		}
		// only together: shrink greedily
		cur := its
		for i := 0; i < len(cur) && len(cur) > 2; {
			t := append(append([]gen.Item{}, cur[:i]...), cur[i+1:]...)
			tx := gen.Pack(t)
			w, r, u := model(tx, t[0], cfg.Bits)
			if r == nil && u == "" && w.UB == "" {
				if dd := eval(box, cfg, t, tx, w); dd != nil {
					cur = t
					continue
				}
			}
			i++
		}
		text = gen.Pack(cur)
		want, _, _ = model(text, cur[0], cfg.Bits)
		d = eval(box, cfg, cur, text, want)
		if d == nil {
			return
		}
		its = cur
	}
	report(ctx, cfg, box, its, text, want, d)
}

func report(ctx *h.Ctx, cfg Cfg, box *h.Box, its []gen.Item, text string, want ref.Outcome, d *Diff) {
	files := map[string]string{"main.tsh": text, "script." + cfg.Target: d.Script, "expected": d.Want, "actual": d.Got}
	for k, v := range its[0].Files {
		files[k] = v
	}
	key := its[0].Key()
	if len(its) > 1 {
		key = "pack-" + key
	}
	ctx.Report(h.Violation{
		Key: key, What: fmt.Sprintf("[%s/%s] %s: %s", cfg.Part, cfg.Target, d.What, oneLine(text)), Files: files,
		Recheck: func() bool { return eval(box, cfg, its, text, want) != nil },
	})
}

func oneLine(s string) string {
	s = strings.ReplaceAll(strings.TrimSpace(s), "\n", " ; ")
	if len(s) > 300 {
		s = s[:150] + " ... " + s[len(s)-140:]
	}
	return s
}
