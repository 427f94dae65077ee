package main

import (
	"reflect"
	"strings"
	"sync/atomic"

	"verifmc/cmdemu"
	"verifmc/core"
	"verifmc/gen"
	"verifmc/h"
	"verifmc/ref"
)

// cmdNeutral tells whether every string a program can build is free of the
// characters cmd.exe interprets. Strings only come from literals, from the
// input and from digits, so checking the literals is enough.
func cmdNeutral(p *ref.Program) bool {
	ok := true
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if !ok {
			return
		}
		switch v.Kind() {
		case reflect.Interface, reflect.Pointer:
			if v.IsNil() {
				return
			}
			if l, is := v.Interface().(*ref.Lit); is {
				ok = ok && neutralString(l.S)
				return
			}
			if v.Kind() == reflect.Pointer {
				switch v.Interface().(type) {
				case *ref.Sym, *ref.FuncDef, *ref.Module:
					return
				}
			}
			walk(v.Elem())
		case reflect.Struct:
			if l, is := v.Interface().(ref.Lit); is {
				ok = ok && neutralString(l.S)
				return
			}
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					walk(v.Field(i))
				}
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	for _, m := range p.Mods {
		for _, s := range m.File.Stmts {
			if f, is := s.(*ref.FuncDef); is {
				walk(reflect.ValueOf(f.Body))
				continue
			}
			walk(reflect.ValueOf(s))
		}
	}
	return ok
}

func neutralString(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || strings.IndexByte(" \n_-.,:+/#@[]{}$", c) >= 0 {
			continue
		}
		return false
	}
	return true
}

// neutralText replaces the characters cmd.exe interprets in the string literals of a program.
func neutralText(t string) string {
	if !strings.Contains(t, "\"") {
		return t
	}
	m := map[byte]byte{'|': '/', '<': '[', '>': ']', '!': '_', '=': ':', '?': '.', '*': '+', '(': '{', ')': '}', '&': '@', '%': '#', '^': '-', '\'': ',', '~': '-', ';': ','}
	b := []byte(t)
	in := false
	for i := 0; i < len(b); i++ {
		switch {
		case b[i] == '`':
			return t
		case in && b[i] == '\\':
			i++
		case b[i] == '"':
			in = !in
		case in:
			if r, ok := m[b[i]]; ok {
				b[i] = r
			}
		case b[i] == '/' && i+1 < len(b) && (b[i+1] == '/' || b[i+1] == '*'):
			return t
		}
	}
	return string(b)
}

func neutralItem(it gen.Item) gen.Item {
	it.Pre, it.Body = neutralText(it.Pre), neutralText(it.Body)
	if len(it.Files) > 0 {
		f := map[string]string{}
		for k, v := range it.Files {
			f[k] = v
			if !strings.HasPrefix(v, "\x00->") {
				f[k] = neutralText(v)
			}
		}
		it.Files = f
	}
	return it
}

// batExec runs the emitted script in the cmd.exe model.
func batExec(b *h.Box, script string, its []gen.Item) (core.Obs, string) {
	o := cmdemu.Options{MaxSteps: 400000, NoPrompt: true}
	if len(its) == 1 {
		o.Stdin = its[0].Stdin
	}
	r := cmdemu.Run(script, o)
	if r.Unsupported != "" {
		return core.Obs{}, "unsupported: " + r.Unsupported
	}
	e := r.Err
	if r.Hang {
		e = "HANG " + e
	}
	return core.Obs{Out: r.Out, Exit: r.Exit, Err: e}, ""
}

func c05(ctx *h.Ctx) {
	run := func(part string, g func(gen.Yield) bool) {
		if ctx.Stop() {
			ctx.Part(part, 0, false)
			return
		}
		core.Run(ctx, core.Cfg{Part: part, Target: "batch", Bits: 32, Filter: cmdNeutral,
			Exec: func(b *h.Box, script string, its []gen.Item) (core.Obs, string) {
				o, skip := batExec(b, script, its)
				if skip != "" && len(its) == 1 {
					atomic.AddInt64(&ctx.Skipped, int64(len(its)))
					if core.Debug {
						println(part, skip)
					}
				}
				return o, skip
			}}, func(y gen.Yield) bool { return g(func(it gen.Item) bool { return y(neutralItem(it)) }) })
	}
	full := ctx.Thorough()
	c05parts(ctx, run, full)
}

func c05parts(ctx *h.Ctx, run func(string, func(gen.Yield) bool), full bool) {
	// C01
	run("expression trees", func(y gen.Yield) bool {
		return gen.ExprTrees(pick(ctx, 2, 3), 1, y) && gen.ExprTrees(1, 2, y)
	})
	run("leaf forms and spacing", func(y gen.Yield) bool { return gen.LeafForms(pick(ctx, 1, 2), y) })
	run("expression contexts", func(y gen.Yield) bool { return gen.ExprContexts(y) })
	run("int32 edge arithmetic", func(y gen.Yield) bool { return gen.EdgeArith(32, y) })
	run("string pairs", func(y gen.Yield) bool { return gen.StringPairs(y) })
	run("definitions", func(y gen.Yield) bool { return gen.Defs(y) })
	run("panics", func(y gen.Yield) bool { return gen.Panics(y) })
	run("range bodies", func(y gen.Yield) bool { return gen.RangeBodies(y) })
	run("loop nests", func(y gen.Yield) bool { return gen.LoopNests(pick(ctx, 2, 3), y) })
	run("composite pairs", func(y gen.Yield) bool { return gen.Siblings(2, y) })
	run("sizes of statements", func(y gen.Yield) bool { return gen.SizesStmt(pick(ctx, 16, 70), y) })
	run("sizes of expressions", func(y gen.Yield) bool { return gen.SizesExpr(pick(ctx, 16, 70), y) })
	run("loops that call functions with loops", func(y gen.Yield) bool { return loopCalls(ctx, y) })
	run("statement trees (top level)", func(y gen.Yield) bool { return gen.StmtTrees(gen.NewStmtGen(), 1, pick(ctx, 2, 3), 3, false, y) })
	run("statement trees (function)", func(y gen.Yield) bool { return gen.StmtTrees(gen.NewStmtGen(), 1, pick(ctx, 2, 3), 3, true, y) })
	g := gen.NewSmallGen([]string{"p", "inc"}, "ifelse", "ifelifelse", "switch2d", "for3", "forever", "rangev")
	run("statement trees, reduced alphabet", func(y gen.Yield) bool { return gen.StmtTrees(g, 3, pick(ctx, 3, 4), 4, false, y) })
	g2 := gen.NewSmallGen([]string{"p"}, "if", "switchd1", "for3", "forcond", "fornopost")
	run("statement trees (function), reduced alphabet", func(y gen.Yield) bool { return gen.StmtTrees(g2, 3, pick(ctx, 3, 4), 4, true, y) })
	// C02
	run("variable isolation main/f/g", func(y gen.Yield) bool { return gen.Isolation(full, y) })
	run("fresh locals", func(y gen.Yield) bool { return gen.LocalsInit(y) })
	run("writes to globals", func(y gen.Yield) bool { return gen.Globals(full, y) })
	run("arities", func(y gen.Yield) bool { return gen.Arity(pick(ctx, 12, 14), pick(ctx, 11, 13), y) })
	run("argument values", func(y gen.Yield) bool { return gen.ArgValues(pick(ctx, 3, 5), y) })
	run("sizes of functions and assignments", func(y gen.Yield) bool { return gen.SizesFn(pick(ctx, 16, 70), y) })
	run("call trees", func(y gen.Yield) bool { return gen.CallTrees(pick(ctx, 3, 4), y) })
	run("simultaneous assignments", func(y gen.Yield) bool { return gen.Simultaneous(full, y) })
	run("returns", func(y gen.Yield) bool { return gen.Returns(y) })
	run("reference and value parameters", func(y gen.Yield) bool { return gen.RefParams(y) })
	run("mixed assignment targets", func(y gen.Yield) bool { return gen.MixedTargets(full, y) })
	run("calls of every result type", func(y gen.Yield) bool { return gen.TypedCalls(full, y) })
	// C03
	all := []string{"global", "local", "param", "fnglobal", "loop"}
	run("substrings", func(y gen.Yield) bool { return gen.Substrings(pick(ctx, 12, 14), y) })
	run("constructs alone and in pairs", func(y gen.Yield) bool { return gen.AloneItems(y) })
	run("index expressions", func(y gen.Yield) bool { return gen.IndexExprs(y) })
	run("string forms", func(y gen.Yield) bool { return gen.StringForms(y) })
	run("slice forms", func(y gen.Yield) bool { return gen.SliceForms(y) })
	run("lengths and indices", func(y gen.Yield) bool { return gen.SliceGrow(pick(ctx, 13, 24), y) })
	run("slice histories, 2 operations", func(y gen.Yield) bool {
		return gen.SliceHistories("int", 2, all, y) && gen.SliceHistories("string", 2, all, y) && gen.SliceHistories("bool", 2, all[:2], y)
	})
	run("slice histories, 3 operations", func(y gen.Yield) bool {
		if full {
			return gen.SliceHistories("int", 3, all, y) && gen.SliceHistories("string", 3, all, y)
		}
		return gen.SliceHistories("int", 3, all[:2], y)
	})
	run("sizes of slices and strings", func(y gen.Yield) bool { return gen.SizesSlice(pick(ctx, 24, 80), y) })
	run("string histories", func(y gen.Yield) bool { return gen.StringOps(pick(ctx, 3, 4), y) })
	// C04
	run("operand positions", func(y gen.Yield) bool { return gen.EvalOrder(pick(ctx, 1, 2), pick(ctx, 3, 4), y) })
	run("statements in nested contexts", func(y gen.Yield) bool { return gen.EvalNests(y) })
	run("pairs of statements", func(y gen.Yield) bool { return gen.EvalPairs(y) })
	run("statements that end the program", func(y gen.Yield) bool { return gen.EvalExits(y) })
	run("logical trees", func(y gen.Yield) bool { return gen.LogicalTrees(pick(ctx, 3, 4), y) })
	run("condition chains", func(y gen.Yield) bool { return gen.Chains(pick(ctx, 4, 6), y) })
	run("effects on globals", func(y gen.Yield) bool { return gen.EffectGlobals(y) })
	run("input", func(y gen.Yield) bool { return gen.Inputs(y) })
	run("sizes of evaluations", func(y gen.Yield) bool { return gen.SizesEval(pick(ctx, 16, 70), y) })
	// modules
	run("modules: paths, aliases, equal names", func(y gen.Yield) bool { return gen.ModNames(y) })
	run("modules: call positions", func(y gen.Yield) bool { return gen.CallPositions(full, y) })
	run("modules: graphs up to 2 files", func(y gen.Yield) bool { return gen.Graphs(1, full, y) && gen.Graphs(2, full, y) })
	run("modules: numbers of files and functions", func(y gen.Yield) bool { return gen.ModSizes([]int{1, 2, 3, 5, 8, 12, 20}, y) })
	run("call graphs", func(y gen.Yield) bool { return gen.CallGraphs(full, y) })
}
