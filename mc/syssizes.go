package main

import (
	"fmt"
	"strconv"
	"strings"

	"verifmc/gen"
	"verifmc/h"
)

// Size sweeps and placements of C17 and C18.

// aloneSys: files and programs alone and paired with every other construct.
func aloneSys(ctx *h.Ctx, tag string) {
	all := append(append(append([]gen.Construct{}, gen.Constructs...), gen.Files...), gen.Apps...)
	run := sysRun
	if tag == "app" {
		run = both
	}
	run(ctx, "constructs alone and in pairs", func(y func(sysCase) bool) {
		gen.Alone(all, func(a, b string) bool { return a == tag || b == tag }, func(name, text string) bool {
			return y(sysCase{Name: name, Text: text, Files: map[string]string{"in": "one\ntwo\n"}})
		})
	})
}

func c17sizes(ctx *h.Ctx) {
	aloneSys(ctx, "file")
	ns := append(seq(0, pick(ctx, 40, 130)), 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129)
	sysRun(ctx, "numbers of operations", func(y func(sysCase) bool) {
		for _, n := range ns {
			var direct, loops, files, back, alt strings.Builder
			direct.WriteString("write(\"f\", \"first\")\n")
			for i := 0; i < n; i++ {
				fmt.Fprintf(&direct, "write(\"f\", \"l %d\", true)\n", i)
				fmt.Fprintf(&files, "write(\"f %d\", \"c%d\")\n", i, i)
				fmt.Fprintf(&back, "print(read(\"f %d\"), exists(\"f %d\"), exists(\"f %d\"))\n", i, i, i+1)
				fmt.Fprintf(&alt, "write(\"a\", read(\"a\") + \"%d\")\nx%d := read(\"a\")\nprint(len(x%d))\n", i%10, i, i)
				if i%5 == 4 {
					alt.WriteString("write(\"a\", \"q\", true)\n")
				}
			}
			end := "x := read(\"f\")\nprint(x, len(x))\nwrite(\"g\", x)\nprint(read(\"g\") == x)\n"
			fmt.Fprintf(&loops, "func add(p string, s string, a bool) int {\nwrite(p, s, a)\nr := read(p)\nreturn len(r)\n}\nwrite(\"f\", \"first\")\nt := 0\nfor i := 0; i < %d; i++ {\nwrite(\"f\", \"l\" + itoa(i), true)\nt += add(\"k\" + itoa(i), \"z\", i > 3)\n}\nprint(t, exists(\"k\" + itoa(%d)), exists(\"k%d\"))\n", n, n-1, n)
			for _, t := range []string{direct.String() + end, "func run() {\n" + direct.String() + end + "}\nrun()\nrun()\n", loops.String() + end, files.String() + back.String(), "func run() {\n" + files.String() + back.String() + "}\nrun()\n", "write(\"a\", \"\")\n" + alt.String()} {
				if !y(sysCase{Name: "count", Text: t, Files: map[string]string{"keep": "k\n"}}) {
					return
				}
			}
		}
	})
	sysRun(ctx, "lengths of contents", func(y func(sysCase) bool) {
		lens := append(ns, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 100000)
		for _, n := range lens {
			for _, u := range []string{"a", " ", "\n", "l\n", "é", "$", "\\", "a b ", "\t"} {
				if n > 1100 && (u == "é" || len(u) > 2) || n > 5000 && u == "$" {
					continue
				}
				s := strings.Repeat(u, n)
				L := strconv.Quote(s)
				t := "write(\"f\", " + L + ")\nx := read(\"f\")\nprint(len(x), x == " + L + ")\nwrite(\"g\", x)\nwrite(\"g\", x, true)\nz := read(\"g\")\nprint(len(z))\nwrite(\"h\", \"end\", true)\n"
				if n > 1100 {
					t = "write(\"f\", " + L + ")\nx := read(\"f\")\nwrite(\"g\", x, true)\nprint(exists(\"g\"))\n"
				}
				if u == "é" {
					t = "write(\"f\", " + L + ")\nx := read(\"f\")\nwrite(\"g\", x)\nprint(\"[\" + x + \"]\")\n"
				}
				if !y(sysCase{Name: "length", Text: t, Files: nil}) {
					return
				}
				// a file that is already there, with and without the newline at its end
				if n <= 130 && u != "é" {
					if !y(sysCase{Name: "length-old", Text: "x := read(\"f\")\nprint(\"[\" + x + \"]\", len(x))\ny := read(\"g\")\nprint(len(y))\nwrite(\"f\", \"more\", true)\nprint(len(read(\"f\")))\n", Files: map[string]string{"f": s + "\n", "g": "e" + s}}) {
						return
					}
				}
			}
		}
	})
	sysRun(ctx, "lengths of paths", func(y func(sysCase) bool) {
		for n := 1; n <= 250; n++ {
			if n > 40 && n%7 != 0 && n < 240 && !ctx.Thorough() {
				continue
			}
			for _, u := range []string{"a", "a b", "x;y", "-"} {
				p := strings.Repeat(u, n/len(u)+1)[:n]
				if strings.Trim(p, " ") != p {
					p = p[:n-1] + "z"
				}
				L := strconv.Quote(p)
				t := "print(exists(" + L + "))\nwrite(" + L + ", \"1\")\nwrite(" + L + ", \"2\", true)\nprint(exists(" + L + "), read(" + L + "))\nfunc f(p string) string {\nwrite(p, \"3\", exists(p))\nreturn read(p)\n}\nprint(f(" + L + "))\nq := " + L + "\nprint(f(q), exists(q + \"x\"), exists(q[:len(q) - 1] + \"#\"))\n"
				if !y(sysCase{Name: "path-length", Text: t, Files: nil}) {
					return
				}
			}
		}
		for n := 1; n <= pick(ctx, 24, 60); n++ {
			d := strings.Repeat("d e/", n)
			p := d + "f"
			L := strconv.Quote(p)
			if !y(sysCase{Name: "path-depth", Text: "write(" + L + ", \"1\")\nwrite(" + L + ", \"2\", true)\nprint(exists(" + L + "), exists(" + strconv.Quote(d) + "), exists(" + strconv.Quote(d+"g") + "), read(" + L + "))\n", Files: map[string]string{d: ""}}) ||
				!y(sysCase{Name: "path-up", Text: "write(\"" + strings.Repeat("d e/../", n) + "f\", \"1\")\nprint(read(\"./f\"), exists(\"" + strings.Repeat("./", n) + "f\"))\n", Files: map[string]string{"d e/": ""}}) {
				return
			}
		}
	})
	sysRun(ctx, "operations in every place", func(y func(sysCase) bool) {
		ops := []string{"write(\"f\", \"new\")", "write(\"f\", \"more\", true)", "write(\"f\", read(\"g\"))", "write(\"g\", read(\"f\"), exists(\"f\"))", "print(read(\"f\"), exists(\"f\"))", "print(exists(\"no\"), exists(\"g\"))"}
		conds := []string{"exists(\"f\")", "!exists(\"no\")", "read(\"f\") == \"old\"", "exists(\"f\") && read(\"g\") != \"\"", "len(read(\"g\")) > 2 || exists(\"no\")"}
		end := "print(read(\"f\"), read(\"g\"))\n"
		emit := func(t string) bool {
			fs := map[string]string{"f": "old\n", "g": "two\nlines\n"}
			return y(sysCase{Name: "place", Text: t + end, Files: fs}) && y(sysCase{Name: "place-fn", Text: "func run() {\n" + t + "}\nrun()\nrun()\n" + end, Files: fs})
		}
		for _, op := range ops {
			for _, c := range conds {
				for _, t := range []string{
					"if " + c + " {\n" + op + "\n} else {\nprint(\"else\")\n}\n",
					"if 1 == 2 {\nprint(1)\n} else if " + c + " {\n" + op + "\n} else {\nprint(\"else\")\n}\n",
					"if !(" + c + ") {\nprint(\"then\")\n} else {\n" + op + "\n}\n",
					"for i := 0; i < 3 && (" + c + "); i++ {\n" + op + "\nif i == 1 {\nbreak\n}\n}\n",
					"n := 0\nfor " + c + " {\nn++\nif n > 2 {\nbreak\n}\nif n == 2 {\ncontinue\n}\n" + op + "\n}\n",
					"switch " + c + " {\ncase false:\nprint(\"f\")\ncase true:\n" + op + "\ndefault:\nprint(\"d\")\n}\n",
					"switch {\ncase 1 == 2:\nprint(\"f\")\ncase " + c + ":\n" + op + "\n}\n",
					"a := " + c + "\n" + op + "\nb := " + c + "\nprint(a, b)\n",
					"for i, s := range []string{\"a\", read(\"f\")} {\nprint(i, s)\n" + op + "\n}\n",
					"for i, s := range read(\"f\") {\nif i > 1 {\nbreak\n}\nprint(i, s)\n" + op + "\n}\n",
					"l := []bool{" + c + ", exists(\"no\")}\nl[3] = " + c + "\n" + op + "\nprint(l[0], l[1], l[2], l[3], len(l))\n",
				} {
					if !emit(t) {
						return
					}
				}
			}
			if !y(sysCase{Name: "place-calls", Text: "func in(n int) int {\n" + op + "\nreturn n\n}\nfunc out(a int, b int) string {\n" + op + "\nreturn itoa(a + b) + read(\"g\")\n}\nprint(out(in(1), in(2)))\nif in(3) == 3 && in(4) == 5 {\nprint(\"no\")\n}\n" + end, Files: map[string]string{"f": "old\n", "g": "two\n"}}) {
				return
			}
		}
	})
}

func c18sizes(ctx *h.Ctx) {
	aloneSys(ctx, "app")
	both(ctx, "numbers of calls, stages, arguments and lines", func(y func(sysCase) bool) {
		for _, n := range append(seq(0, pick(ctx, 34, 130)), 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257) {
			var args, calls, caps, use, lines strings.Builder
			chain := `@emit("a\nb\n")`
			for i := 0; i < n; i++ {
				if i > 0 {
					args.WriteString(", ")
				}
				args.WriteString([]string{`"$x"`, `""`, `" a "`, `"*"`, strconv.Quote(fmt.Sprint(i))}[i%5])
				fmt.Fprintf(&calls, "@probe(\"%d\", \" %d\")\n", i, i)
				fmt.Fprintf(&caps, "o%d, e%d, c%d := @est(\"out %d\", \"%d\")\n", i, i, i, i, i%256)
				fmt.Fprintf(&use, "print(o%d, e%d, c%d)\n", i, i, i)
				fmt.Fprintf(&lines, "line %d\n", i)
				chain += fmt.Sprintf(` | @tag("%d ")`, i)
			}
			ts := []string{
				fmt.Sprintf("@probe(%s)\no, e, c := @probe(%s)\nprint(len(o), c)\n", args.String(), args.String()),
				fmt.Sprintf("o, e, c := @emit(\"q\") | @probe(%s) | @tag(\"t\")\nprint(o, c)\n", args.String()),
				calls.String(),
				caps.String() + use.String(),
				fmt.Sprintf("o, e, c := @emit(%s)\nprint(\"[\" + o + \"]\", len(o), c)\nx, y, z := @emit(o) | @bytes()\nprint(x, z)\n", strconv.Quote(lines.String())),
				fmt.Sprintf("t := \"\"\nfor i := 0; i < %d; i++ {\no, e, c := @est(itoa(i), itoa(i))\nt += o + \":\" + itoa(c) + \" \"\n}\nprint(t)\n", min(n, 256)),
			}
			if n <= 40 {
				ts = append(ts, chain+"\no, e, c := "+chain+"\nprint(o, c)\n")
			}
			for _, t := range ts {
				if !y(sysCase{Name: "sizes", Text: t + "print(\"end\")\n", Files: withBait(nil)}) || !y(sysCase{Name: "sizes-fn", Text: "func run(p string) string {\n" + t + "return p\n}\nprint(run(\"end\"))\n", Files: withBait(nil)}) {
					return
				}
			}
		}
	})
	both(ctx, "long arguments and outputs", func(y func(sysCase) bool) {
		for _, v := range longValues(ctx) {
			if len(v) > 3000 {
				continue
			}
			L := strconv.Quote(v)
			if !y(sysCase{Name: "long", Text: "@probe(" + L + ")\nv := " + L + "\n@probe(v, \"m\", v + v)\no, e, c := @probe(v) | @tag(v)\nprint(o, c)\np, q, r := @emit(v)\nprint(\"[\" + p + \"]\", len(p), r)\n", Files: withBait(nil)}) {
				return
			}
		}
	})
	both(ctx, "calls in every place", func(y func(sysCase) bool) {
		for _, call := range []string{`@probe("a b", "")`, `@emit("x\n") | @tag("t ")`, `o§, e§, c§ := @est("o", "3")` + "\nprint(o§, e§, c§)", `o§, e§, c§ := @emit("p") | @tagst("q", "4")` + "\nprint(o§, c§)", "@logrun(\"1\")"} {
			k := 0
			at := func() string {
				k++
				return strings.ReplaceAll(call, "§", strconv.Itoa(k)) + "\n"
			}
			for _, t := range []string{
				"if 1 == 1 {\nif 2 == 2 {\n" + at() + "}\n" + at() + "}\n",
				"for i := 0; i < 2; i++ {\nfor j := 0; j < 2; j++ {\nif i == j {\ncontinue\n}\n" + at() + "}\n" + at() + "}\n",
				"n := 0\nfor {\nn++\n" + at() + "if n > 1 {\nbreak\n}\n}\n",
				"switch 2 {\ncase 1:\n" + at() + "case 2:\n" + at() + "break\ndefault:\n" + at() + "}\n",
				"for i, s := range \"ab\" {\n" + at() + "print(i, s)\n}\n",
				"for i, s := range []int{7, 8} {\nprint(i, s)\n" + at() + "}\n",
				"if 1 == 2 {\n" + at() + "} else if 1 == 3 {\n" + at() + "} else {\n" + at() + "}\n",
				"x := []string{\"s\"}\nx[0] += \"t\"\n",
				at() + at() + at(),
			} {
				if strings.Contains(t, "+=") {
					continue
				}
				for _, u := range []string{t + "print(\"end\")\n", "func run(a string, b int) (string, int) {\n" + t + "return a + \"!\", b + 1\n}\nx, y := run(\"x\", 1)\nprint(x, y)\nx, y = run(x, y)\nprint(x, y)\n",
					"func in() int {\n" + t + "return 1\n}\nfunc out() int {\nreturn in() + in()\n}\nprint(out() * 2)\n"} {
					if !y(sysCase{Name: "places", Text: u, Files: withBait(nil)}) {
						return
					}
				}
			}
		}
	})
}
