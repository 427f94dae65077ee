package main

import "verifmc/h"

// batProgram lets the cmd.exe model call the probes.
func batProgram(ctx *h.Ctx) func(string, []string, string) (string, int, bool) {
	if ctx.Prop != "C18" {
		return nil
	}
	return func(name string, args []string, in string) (string, int, bool) {
		return appStages(map[string]string{}, in, []string{name}, [][]string{args})
	}
}

// both runs a family with Bash and, where the cmd.exe model allows it, with the Batch script.
func both(ctx *h.Ctx, part string, g func(y func(sysCase) bool)) {
	sysRun(ctx, part, g)
	if ctx.Prop != "C18" {
		return
	}
	batSys(ctx, "Batch: "+part, func(y func(sysCase) bool) {
		g(func(c sysCase) bool { c.Neutral = true; return y(c) })
	})
}
