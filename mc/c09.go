package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"verifmc/gen"
	"verifmc/h"
)

func c09(ctx *h.Ctx) {
	run := runner(ctx, "bash")
	full := ctx.Thorough()
	run("paths, aliases, equal names, equal files", func(y gen.Yield) bool { return gen.ModNames(y) })
	run("call positions", func(y gen.Yield) bool { return gen.CallPositions(full, y) })
	run("contents", func(y gen.Yield) bool { return gen.Contents(pick(ctx, 128, 1024), y) })
	run("contents whose mangled names agree", func(y gen.Yield) bool { return sameImage(ctx, pick(ctx, 24000, 80000), y) })
	run("import graphs, up to 2 files", func(y gen.Yield) bool { return gen.Graphs(1, full, y) && gen.Graphs(2, full, y) })
	run("import graphs, 3 files", func(y gen.Yield) bool { return gen.Graphs(3, full, y) })
	sz := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 17, 18, 20, 24, 33}
	if full {
		sz = nil
		for n := 1; n <= 48; n++ {
			sz = append(sz, n)
		}
		sz = append(sz, 64, 100)
	}
	run("numbers of files, functions, aliases, directories", func(y gen.Yield) bool { return gen.ModSizes(sz, y) })
	run("call graphs", func(y gen.Yield) bool { return gen.CallGraphs(full, y) })
	if full {
		run("import graphs, 4 files", func(y gen.Yield) bool { return gen.Graphs(4, false, y) })
	}
	acceptRun(ctx, "references over file boundaries", func(y func(tprog) bool) {
		a := "func F() int {\nreturn 1\n}\nfunc f() int {\nreturn 2\n}\nfunc _F() int {\nreturn 3\n}\nvar V int\nv := 4\n"
		b := "import a \"a.tsh\"\nfunc F() int {\nreturn a.F()\n}\nfunc g() int {\nreturn 5\n}\nfunc OnlyB() int {\nreturn g()\n}\n"
		ims := []string{"", "import a \"a.tsh\"\n", "import b \"b.tsh\"\n", "import (\na \"a.tsh\"\nb \"b.tsh\"\n)\n", "import (\nb \"a.tsh\"\na \"b.tsh\"\n)\n", "import (\na \"a.tsh\"\nc \"a.tsh\"\n)\n", "import \"strings\"\n", "import (\n\"strings\"\na \"a.tsh\"\n)\n"}
		refs := []string{"a.F()", "a.f()", "a._F()", "b.F()", "b.g()", "b.OnlyB()", "a.OnlyB()", "c.F()", "c.f()", "F()", "f()", "g()", "OnlyB()", "_F()", "a.Nope()", "a.V()", "a.v()", "V", "v", "len(strings.Repeat(\"a\", 2))", "len(a.Repeat(\"a\", 2))", "len(Repeat(\"a\", 2))", "strings.F()", "a.b.F()", "a.F(1)", "b.a.F()", "strings.nope()", "strings.Index(\"a\", \"b\")"}
		places := []string{"print(§)\n", "func t() int {\nreturn §\n}\nprint(t())\n", "func t() int {\nreturn §\n}\n", "if false {\nx := §\nprint(x)\n}\n", "func F() int {\nreturn 9\n}\nprint(§)\n", "func f() int {\nreturn 9\n}\nprint(§)\n", "F := 3\nprint(F, §)\n"}
		for _, im := range ims {
			for _, r := range refs {
				for _, p := range places {
					t := im + strings.ReplaceAll(p, "§", r)
					if !y(tprog{t, map[string]string{"a.tsh": a, "b.tsh": b, "std/strings.tsh": gen.StdStrings()}}) || !y(tprog{"import m \"m.tsh\"\n", map[string]string{"m.tsh": t, "a.tsh": a, "b.tsh": b, "std/strings.tsh": gen.StdStrings()}}) {
						return
					}
				}
			}
		}
	})
}

// sameImage looks for files of different content whose functions get the same name
// in the script (the prefix of a name depends on the content) and uses them together.
func sameImage(ctx *h.Ctx, n int, y gen.Yield) bool {
	lib := func(k int) string {
		return fmt.Sprintf("v := %d\nfunc Zq7() int {\nv++\nreturn v\n}\nfunc zq8() int {\nreturn v\n}\nfunc Zq9() int {\nreturn zq8() + v\n}\n", k)
	}
	re := regexp.MustCompile(`\w*Zq7\w*`)
	images := make([]string, n)
	h.Parallel(ctx, func(y func(int) bool) {
		for k := 0; k < n && y(k); k++ {
		}
	}, func(w int) func(int) {
		d := filepath.Join(ctx.Scratch, fmt.Sprintf("image-%d", w))
		os.MkdirAll(d, 0755)
		os.WriteFile(filepath.Join(d, "main.tsh"), []byte("import m \"m.tsh\"\nprint(m.Zq7())\n"), 0644)
		return func(k int) {
			os.WriteFile(filepath.Join(d, "m.tsh"), []byte(fmt.Sprintf("func Zq7() int {\nreturn %d\n}\n", k)), 0644)
			images[k] = re.FindString(h.TranspileFile(filepath.Join(d, "main.tsh"), "bash").Script)
		}
	})
	by := map[string]int{}
	found := 0
	for k, im := range images {
		j, ok := by[im]
		by[im] = k
		if !ok || im == "" || found > 200 {
			continue
		}
		found++
		simple := func(k int) string { return fmt.Sprintf("func Zq7() int {\nreturn %d\n}\n", k) }
		both := "import (\nm \"m.tsh\"\nn \"n.tsh\"\n)\n"
		if !y(gen.Item{Body: both + "print(m.Zq7(), n.Zq7(), m.Zq7())\n", Files: map[string]string{"m.tsh": simple(j), "n.tsh": simple(k)}, Solo: true, Tag: "image"}) ||
			!y(gen.Item{Body: both + "func f() int {\nreturn n.Zq7() - m.Zq7()\n}\nprint(f())\n", Files: map[string]string{"m.tsh": simple(j), "n.tsh": simple(k)}, Solo: true, Tag: "image"}) ||
			!y(gen.Item{Body: both + "print(m.F(), n.Zq7())\n", Files: map[string]string{"m.tsh": "import n \"k.tsh\"\nfunc F() int {\nreturn n.Zq7()\n}\n", "k.tsh": simple(j), "n.tsh": simple(k)}, Solo: true, Tag: "image"}) {
			return false
		}
	}
	for k := 0; k < 3; k++ {
		// globals and private functions of two such files, should there be any
		if !y(gen.Item{Body: "import (\nm \"m.tsh\"\nn \"n.tsh\"\n)\nprint(m.Zq7(), n.Zq9(), m.Zq9(), n.Zq7())\n", Files: map[string]string{"m.tsh": lib(k), "n.tsh": lib(k * 10)}, Solo: true, Tag: "image"}) {
			return false
		}
	}
	ctx.Extra("different contents with one mangled name", found)
	return true
}
