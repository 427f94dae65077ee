package main

import (
	"strconv"
	"strings"
)

// wfPositions are statements with a string operand S (§ makes names unique).
var wfPositions = []string{
	"print(S)", "print(1, S, true)", "v§ := S\nprint(v§)", "var v§ string = S\nprint(v§ + S)", "v§ := \"a\"\nv§ = S\nprint(v§)", "v§ := \"a\"\nv§ += S\nprint(v§)",
	"print(S + \"x\", \"x\" + S)", "print(S == S, S != \"x\")", "v§ := S\nif v§ == S {\nprint(1)\n} else if v§ != S {\nprint(2)\n} else {\nprint(3)\n}",
	"panic(S)", "print(id(S))", "a§, b§ := two(S)\nprint(a§, b§)", "noret(S)", "l§ := []string{S, \"x\", S}\nprint(l§[0], len(l§))", "l§ := []string{}\nl§[1] = S\nprint(l§[1])", "fillup([]string{S}, S)",
	"for i§, c§ := range S {\nprint(i§, c§)\n}", "for i§ := range S {\nprint(i§)\n}", "for i§, c§ := range []string{S, S} {\nprint(i§, c§)\n}",
	"switch S {\ncase S:\nprint(1)\ncase \"x\":\nprint(2)\ndefault:\nprint(3)\n}", "switch {\ncase S == \"x\":\nprint(1)\n}",
	"print(len(S))", "v§ := S\nprint(v§[0], v§[0:1], v§[:1], v§[0:], len(v§))",
	"v§ := input(S)\nprint(v§)", "input(S)", "write(S, \"x\")", "write(\"f\", S)", "write(S, S, true)", "ap§ := true\nwrite(S, S, ap§)", "v§ := read(S)\nprint(v§)", "print(read(S))", "print(exists(S))", "if exists(S) {\nprint(1)\n}",
	"@echo(S)", "@echo(\"x\", S, \"y z\")", "v§ := S\n@echo(v§, S)", "o§, e§, c§ := @echo(S)\nprint(o§, e§, c§)", "@echo(S) | @cat(S) | @sort(\"-r\")", "o§, e§, c§ := @echo(S) | @cat(S)\nprint(o§, e§, c§)",
	"@S(\"a\")", "@S()", "o§, e§, c§ := @S(S)\nprint(o§, e§, c§)",
	"x§ := []string{\"q\"}\ny§ := []string{}\nx§[0] = S\nprint(copy(y§, x§), y§[0])",
	"for v§ := S; v§ != S; v§ += S {\nprint(v§)\n}", "for S != S {\nprint(1)\n}", "b§ := S == S && !(S != S) || S == \"\"\nprint(b§)",
}

const wfPre = "func id(s string) string {\nreturn s\n}\nfunc two(s string) (string, string) {\nif s == \"t\" {\nreturn s, s\n}\nreturn \"x\", s\n}\nfunc noret(s string) {\nprint(s)\n}\nfunc fillup(l []string, s string) {\nl[2] = s\nprint(l[0])\n}\n"

// wfContexts surround the statements S.
var wfContexts = []string{
	"%S", "if x == 1 {\n%S} else {\nprint(0)\n}\n", "for i := 0; i < 2; i++ {\nif i == x {\n%Scontinue\n}\n}\n", "func run(x int) int {\nif x > 3 {\nreturn 1\n} else {\n%S}\nreturn 2\n}\nprint(run(x))\n",
	"func run(x int) {\nfor {\nswitch x {\ncase 1:\nif x > 0 {\n%S}\ndefault:\nbreak\n}\n}\n}\nrun(x)\n",
}

func wfStrings(full bool, y func(wfProg) bool) {
	var values []string
	values = append(values, "", "a")
	for c := byte(32); c < 127; c++ {
		values = append(values, string(c), "a"+string(c)+"b")
	}
	values = append(values, "\n", "a\nb", "\t", "é", "\r", "a b c")
	al := []string{"\"", "%", "^", "&", "|", "<", ">", "(", ")", "!", "'", "`", "\\", "\n", " ", "$", ":", "a", "1", "~"}
	for _, a := range al {
		for _, b := range al {
			values = append(values, a+b)
			if full {
				for _, c := range al {
					values = append(values, a+b+c)
				}
			}
		}
	}
	values = append(values, "%PATH%", "%~dp0", "!PATH!", "%%", "%1", "%*", "^!", ") else (", ") & (", ":end", ":eof", "rem x", "::", "\" & exit \"", "EOF", "\\\"", "if x (", "%a", "%=%", "a)b(c", "\"a\"", "\"a", "a\"", ">nul", "2>&1", "^", "a^", "$(", "${", "`", "'\"'", "done", "fi", "}", "{", "#", ";;", "<<EOF", "\\")
	for _, v := range values {
		L := strconv.Quote(v)
		if strings.Contains(L, "\\x") {
			L = "`" + v + "`"
		}
		for k, p := range wfPositions {
			st := strings.NewReplacer("S", L, "§", "q").Replace(p) + "\n"
			for j, c := range wfContexts {
				if !full && len(v) != 1 && (j+k)%len(wfContexts) != 0 {
					continue // longer values: every position, in one context each
				}
				if !y(wfProg{tag: "string", main: wfPre + "x := 1\n" + strings.ReplaceAll(c, "%S", st)}) {
					return
				}
			}
		}
	}
	// pairs of positions in one program: the helper routines of both are needed
	for k, p := range wfPositions {
		for j, q := range wfPositions {
			st := strings.NewReplacer("S", "\"v\"", "§", "p").Replace(p) + "\n" + strings.NewReplacer("S", "\"w\"", "§", "q").Replace(q) + "\n"
			if !y(wfProg{tag: "positions", main: wfPre + "x := 1\n" + strings.ReplaceAll(wfContexts[(k+j)%len(wfContexts)], "%S", st)}) {
				return
			}
		}
	}
	// exactly one builtin, with and without its result being used
	for _, p := range append([]string{"", "x := 1\nx++", "a := []int{}", "var a []int", "a := []int{1}\nb := a[0]", "a := []int{1}\na[0] = 2", "a := []int{1}\nprint(len(a))", "a := []int{1}\nb := a\nn := copy(b, a)", "for i, v := range []int{1} {\n}", "s := \"a\"\nt := s[0:1]", "n := len(\"a\")", "for i := range \"ab\" {\n}", "input()", "x := input()", "x := read(\"f\")", "write(\"f\", \"x\")", "b := exists(\"f\")", "@ls()", "o, e, c := @ls()", "panic(\"x\")", "func f() {\n}", "func f() {\n}\nf()", "func f() {\nprint(1)\n}", "func f(a []int) {\na[3] = 1\n}", "func f(a []int) int {\nreturn len(a)\n}", "func f(s string) string {\nreturn s[0:1]\n}", "func f() {\n@ls()\n}", "func f() {\no, e, c := @ls()\n}", "func f() {\nx := read(\"f\")\nwrite(\"f\", x)\n}", "import \"strings\"", "import \"os\"", "import \"strings\"\nprint(strings.Index(\"ab\", \"b\"))", "import \"strings\"\nfunc f() {\nprint(strings.Repeat(\"ab\", 2))\n}", "import \"os\"\nprint(os.Args())"}, wfPositions...) {
		p = strings.NewReplacer("S", "\"v\"", "§", "z").Replace(p)
		for _, c := range []string{"%s", "if true {\n%s\n}", "if false {\n} else if true {\n} else {\n%s\n}", "for i := 0; i < 1; i++ {\n%s\n}", "switch 1 {\ncase 1:\n%s\n}", "for {\nfor {\n%s\n}\n}", "func run() {\n%s\n}\nrun()", "func run() {\n%s\n}", "func run() int {\nif true {\n%s\n}\nreturn 1\n}"} {
			pre := ""
			if strings.Contains(p, "id(") || strings.Contains(p, "two(") || strings.Contains(p, "noret(") || strings.Contains(p, "fillup(") {
				pre = wfPre
			}
			if !y(wfProg{tag: "single", main: pre + strings.ReplaceAll(c, "%s", p) + "\n"}) {
				return
			}
		}
	}
}
