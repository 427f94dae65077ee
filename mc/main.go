// Command verifmc runs one property check.
package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"

	"github.com/monstermichl/typeshell/transpiler"
	"verifmc/cmdemu"
	"verifmc/core"
	"verifmc/gen"
	"verifmc/h"
)

var checks = map[string]func(*h.Ctx){
	"C01": c01,
	"C02": c02,
	"C03": c03,
	"C04": c04,
	"C05": c05,
	"C06": c06,
	"C07": c07,
	"C08": c08,
	"C09": c09,
	"C10": c10,
	"C11": c11,
	"C12": c12,
	"C13": c13,
	"C14": c14,
	"C15": c15,
	"C16": c16,
	"C17": c17,
	"C18": c18,
	"C19": c19,
}

func main() {
	if v := os.Getenv("VERIF_ROOT"); v != "" {
		h.Verif = v
	}
	if len(os.Args) == 3 && os.Args[1] == "worker" {
		workerMain(os.Args[2])
		return
	}
	if len(os.Args) == 4 && os.Args[1] == "once" {
		t := transpiler.New()
		fmt.Print(tres(&t, os.Args[2], os.Args[3]))
		return
	}
	if len(os.Args) == 6 && os.Args[1] == "maporder" {
		n := 0
		fmt.Sscan(os.Args[5], &n)
		mapOrderMain(os.Args[2], os.Args[3], os.Args[4] == "pairs", n)
		return
	}
	if len(os.Args) == 4 && os.Args[1] == "ambient" {
		ambientMain(os.Args[2], os.Args[3])
		return
	}
	if len(os.Args) >= 3 && os.Args[1] == "bat" {
		// run a batch script in the cmd.exe model
		d, err := os.ReadFile(os.Args[2])
		if err != nil {
			panic(err)
		}
		r := cmdemu.Run(string(d), cmdemu.Options{Stdin: os.Args[3:]})
		fmt.Print(r.Out)
		fmt.Fprint(os.Stderr, r.Err)
		if r.Unsupported != "" || r.Hang {
			fmt.Fprintln(os.Stderr, "EMU:", r.Unsupported, "hang:", r.Hang)
			os.Exit(99)
		}
		os.Exit(r.Exit)
	}
	if len(os.Args) == 3 && os.Args[1] == "structure" {
		// judge the structure of a batch script
		d, _ := os.ReadFile(os.Args[2])
		for _, p := range cmdemu.Analyse(string(d)).Problems {
			fmt.Println(p)
		}
		return
	}
	if len(os.Args) < 3 {
		fmt.Println("usage: verifmc ID quick|thorough")
		os.Exit(2)
	}
	debug.SetGCPercent(1000)
	debug.SetMemoryLimit(4 << 30)
	f := checks[os.Args[1]]
	if f == nil {
		fmt.Println("unknown property", os.Args[1])
		os.Exit(2)
	}
	if p := os.Getenv("VERIF_PROF"); p != "" {
		if f, err := os.Create(p); err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	ctx := h.New(os.Args[1], os.Args[2])
	f(ctx)
	rc := ctx.Finish()
	pprof.StopCPUProfile()
	os.Exit(rc)
}

func pick(ctx *h.Ctx, q, t int) int {
	if ctx.Thorough() {
		return t
	}
	return q
}

func loopCalls(ctx *h.Ctx, y gen.Yield) bool {
	if ctx.Thorough() {
		return gen.LoopCalls(2, 2, 2, []int{0, 1, 2, 3, 4, 5, 6, 7}, y) && gen.LoopCalls(5, 3, 3, []int{0, 1, 5, 6}, y)
	}
	return gen.LoopCalls(2, 2, 2, []int{0, 1, 2, 5, 6}, y) && gen.LoopCalls(4, 2, 3, []int{0, 1, 5}, y)
}

func c01(ctx *h.Ctx) {
	run := func(part string, g func(gen.Yield) bool) {
		if !ctx.Stop() {
			core.Run(ctx, core.Cfg{Part: part, Target: "bash"}, g)
		} else {
			ctx.Part(part, 0, false)
		}
	}
	run("expression trees", func(y gen.Yield) bool {
		return gen.ExprTrees(pick(ctx, 2, 3), 1, y) && gen.ExprTrees(1, 2, y)
	})
	run("leaf forms and spacing", func(y gen.Yield) bool { return gen.LeafForms(pick(ctx, 1, 2), y) })
	run("expression contexts", func(y gen.Yield) bool { return gen.ExprContexts(y) })
	run("int64 edge arithmetic", func(y gen.Yield) bool { return gen.EdgeArith(64, y) })
	run("string pairs", func(y gen.Yield) bool { return gen.StringPairs(y) })
	run("definitions", func(y gen.Yield) bool { return gen.Defs(y) })
	run("panics", func(y gen.Yield) bool { return gen.Panics(y) })
	run("constructs alone and in pairs", func(y gen.Yield) bool { return gen.AloneItems(y, "print", "var", "expr", "stmt") })
	run("range bodies", func(y gen.Yield) bool { return gen.RangeBodies(y) })
	run("loop nests", func(y gen.Yield) bool { return gen.LoopNests(pick(ctx, 2, 3), y) })
	run("composite pairs", func(y gen.Yield) bool { return gen.Siblings(2, y) })
	run("sizes of statements", func(y gen.Yield) bool { return gen.SizesStmt(pick(ctx, 20, 70), y) })
	run("sizes of expressions", func(y gen.Yield) bool { return gen.SizesExpr(pick(ctx, 20, 70), y) })
	run("loops that call functions with loops", func(y gen.Yield) bool { return loopCalls(ctx, y) })
	if !ctx.Thorough() {
		run("statement trees <=2 nodes (top level)", func(y gen.Yield) bool { return gen.StmtTrees(gen.NewStmtGen(), 1, 2, 3, false, y) })
		run("statement trees <=2 nodes (function)", func(y gen.Yield) bool { return gen.StmtTrees(gen.NewStmtGen(), 1, 2, 3, true, y) })
		g := gen.NewSmallGen([]string{"p", "inc"}, "ifelse", "ifelifelse", "switch2d", "for3", "forever", "rangev")
		run("statement trees =3 nodes, reduced alphabet", func(y gen.Yield) bool { return gen.StmtTrees(g, 3, 3, 3, false, y) })
		g2 := gen.NewSmallGen([]string{"p"}, "if", "switchd1", "for3", "forcond", "fornopost")
		run("statement trees =3 nodes (function), reduced alphabet", func(y gen.Yield) bool { return gen.StmtTrees(g2, 3, 3, 3, true, y) })
		return
	}
	run("statement trees <=3 nodes (top level)", func(y gen.Yield) bool { return gen.StmtTrees(gen.NewStmtGen(), 1, 3, 3, false, y) })
	run("statement trees <=3 nodes (function)", func(y gen.Yield) bool { return gen.StmtTrees(gen.NewStmtGen(), 1, 3, 3, true, y) })
	g := gen.NewSmallGen([]string{"p"}, "ifelse", "switch2d", "for3", "forever")
	run("statement trees =4 nodes, reduced alphabet", func(y gen.Yield) bool { return gen.StmtTrees(g, 4, 4, 4, false, y) })
}

func runner(ctx *h.Ctx, target string) func(part string, g func(gen.Yield) bool) {
	return func(part string, g func(gen.Yield) bool) {
		if !ctx.Stop() {
			core.Run(ctx, core.Cfg{Part: part, Target: target}, g)
		} else {
			ctx.Part(part, 0, false)
		}
	}
}

func c02(ctx *h.Ctx) {
	run := runner(ctx, "bash")
	full := ctx.Thorough()
	run("variable isolation main/f/g", func(y gen.Yield) bool { return gen.Isolation(full, y) })
	run("fresh locals", func(y gen.Yield) bool { return gen.LocalsInit(y) })
	run("writes to globals", func(y gen.Yield) bool { return gen.Globals(full, y) })
	run("constructs alone and in pairs", func(y gen.Yield) bool { return gen.AloneItems(y, "func") })
	run("arities", func(y gen.Yield) bool { return gen.Arity(pick(ctx, 12, 14), pick(ctx, 11, 13), y) })
	run("argument values", func(y gen.Yield) bool { return gen.ArgValues(pick(ctx, 3, 5), y) })
	run("call trees", func(y gen.Yield) bool { return gen.CallTrees(pick(ctx, 3, 4), y) })
	run("simultaneous assignments", func(y gen.Yield) bool { return gen.Simultaneous(full, y) })
	run("returns", func(y gen.Yield) bool { return gen.Returns(y) })
	run("reference and value parameters", func(y gen.Yield) bool { return gen.RefParams(y) })
	run("mixed assignment targets", func(y gen.Yield) bool { return gen.MixedTargets(full, y) })
	run("sizes of functions and assignments", func(y gen.Yield) bool { return gen.SizesFn(pick(ctx, 24, 70), y) })
	run("loops that call functions with loops", func(y gen.Yield) bool { return loopCalls(ctx, y) })
	run("calls of every result type", func(y gen.Yield) bool { return gen.TypedCalls(full, y) })
}

func c03(ctx *h.Ctx) {
	run := runner(ctx, "bash")
	all := []string{"global", "local", "param", "fnglobal", "loop"}
	run("substrings", func(y gen.Yield) bool { return gen.Substrings(pick(ctx, 12, 14), y) })
	run("constructs alone and in pairs", func(y gen.Yield) bool { return gen.AloneItems(y, "str", "slice") })
	run("index expressions", func(y gen.Yield) bool { return gen.IndexExprs(y) })
	run("string forms", func(y gen.Yield) bool { return gen.StringForms(y) })
	run("slice forms", func(y gen.Yield) bool { return gen.SliceForms(y) })
	run("lengths and indices", func(y gen.Yield) bool { return gen.SliceGrow(pick(ctx, 12, 13), y) })
	run("slice histories, 2 operations, all contexts", func(y gen.Yield) bool {
		return gen.SliceHistories("int", 2, all, y) && gen.SliceHistories("string", 2, all, y) && gen.SliceHistories("bool", 2, all[:2], y)
	})
	run("sizes of slices and strings", func(y gen.Yield) bool { return gen.SizesSlice(pick(ctx, 20, 80), y) })
	run("string histories", func(y gen.Yield) bool { return gen.StringOps(pick(ctx, 3, 4), y) })
	if ctx.Thorough() {
		run("slice histories, 3 operations, all contexts", func(y gen.Yield) bool {
			return gen.SliceHistories("int", 3, all, y) && gen.SliceHistories("string", 3, all, y)
		})
		run("slice histories, 4 operations", func(y gen.Yield) bool { return gen.SliceHistories("int", 4, all[:1], y) })
		return
	}
	run("slice histories, 3 operations", func(y gen.Yield) bool { return gen.SliceHistories("int", 3, all[:1], y) })
}

func c04(ctx *h.Ctx) {
	run := runner(ctx, "bash")
	run("operand positions", func(y gen.Yield) bool { return gen.EvalOrder(pick(ctx, 1, 2), pick(ctx, 3, 4), y) })
	run("statements in nested contexts", func(y gen.Yield) bool { return gen.EvalNests(y) })
	run("pairs of statements", func(y gen.Yield) bool { return gen.EvalPairs(y) })
	run("statements that end the program", func(y gen.Yield) bool { return gen.EvalExits(y) })
	run("logical trees", func(y gen.Yield) bool { return gen.LogicalTrees(pick(ctx, 3, 4), y) })
	run("condition chains", func(y gen.Yield) bool { return gen.Chains(pick(ctx, 4, 6), y) })
	run("effects on globals", func(y gen.Yield) bool { return gen.EffectGlobals(y) })
	run("input", func(y gen.Yield) bool { return gen.Inputs(y) })
	run("sizes", func(y gen.Yield) bool { return gen.SizesEval(pick(ctx, 24, 70), y) })
}
