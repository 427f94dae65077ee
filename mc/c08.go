package main

import (
	"fmt"
	"strconv"
	"strings"

	"verifmc/h"
)

// bait are files a glob or an option could pick up.
var bait = map[string]string{"aa": "bait\n", "b": "bait\n", "x1": "bait\n", "cx": "bait\n"}

func withBait(m map[string]string) map[string]string {
	r := map[string]string{}
	for k, v := range bait {
		r[k] = v
	}
	for k, v := range m {
		r[k] = v
	}
	return r
}

// dataPaths are statements which move the value of variable v along every path.
// u is a suffix that makes names unique.
func dataPaths(v, u string, n int) string {
	r := strings.NewReplacer("VV", v, "§", u)
	s := r.Replace(`print(VV)
print("[" + VV + "]", VV, VV)
w§ := VV
print(w§ + "|")
w§ += VV
print(w§ + "|", len(w§))
var t§ string
t§ = VV
print(t§ == VV, t§ != VV, VV == "", VV + "x" == VV, VV == w§)
a§, b§ := VV, "s"
a§, b§ = b§, a§
print(a§, "[" + b§ + "]")
print("[" + id(VV) + "]")
c§, d§ := pair(VV, "m", VV)
print("[" + c§ + "]", "[" + d§ + "]")
s§ := []string{VV, "k", VV}
s§[1] = VV
s§[4] = VV
print(len(s§), "[" + s§[0] + "]", "[" + s§[1] + "]", "[" + s§[2] + "]", "[" + s§[3] + "]", "[" + s§[4] + "]")
fill(s§, VV)
var q§ []string
print(copy(q§, s§), "[" + q§[4] + "]", "[" + q§[5] + "]")
for i§, e§ := range q§ {
print(i§, "[" + e§ + "]")
}
for i§, e§ := range VV {
print(i§, "[" + e§ + "]", e§ == VV[i§])
}
print(len(VV), len("x" + VV))
print("[" + VV[:] + "]", "[" + VV[0:len(VV)] + "]")
switch VV {
case "no":
print("no")
case t§:
print("same")
default:
print("default")
}
if VV == t§ && VV != "zz" {
print("cond")
}
write("out§", VV)
write("out§", "[" + VV + "]", true)
write("out§", VV, true)
print("[" + read("out§") + "]")
`)
	for i := 0; i <= n; i++ {
		s += r.Replace(fmt.Sprintf("print(\"[\" + VV[%d:] + \"][\" + VV[:%d] + \"]\")\n", i, i))
		if i < n {
			s += r.Replace(fmt.Sprintf("print(\"[\" + VV[%d] + \"]\")\n", i))
		}
	}
	return s
}

const dataFuncs = `func id(s string) string {
return s
}
func pair(a string, m string, b string) (string, string) {
l := a + m
print("in pair", "[" + a + "]", "[" + b + "]", "[" + l + "]")
return b, l
}
func fill(s []string, v string) {
s[5] = v
s[0] = s[5]
}
`

// literal operand positions without any variable.
func literalPaths(L string, n int) string {
	s := strings.ReplaceAll(`print(LL)
print(LL, LL)
print("[" + LL + "]")
print(LL + LL)
print(LL == LL, LL != LL, LL == "zz")
print(len(LL))
print("[" + id(LL) + "]")
lc, ld := pair(LL, LL, LL)
print("[" + lc + "]", "[" + ld + "]")
ls := []string{LL, LL}
ls[3] = LL
print("[" + ls[0] + "]", "[" + ls[1] + "]", "[" + ls[3] + "]")
for li, le := range LL {
print(li, "[" + le + "]")
}
switch LL {
case LL:
print("same")
default:
print("default")
}
if LL == LL {
print("eq")
}
write("lit", LL)
write("lit", LL, true)
print("[" + read("lit") + "]")
var lx, ly string = LL, LL
lx, ly = LL + ly, LL
print(lx, ly)
`, "LL", L)
	return s
}

func opaqueContents(ctx *h.Ctx) (single, pairs, payload []string) {
	var chars []string
	for c := 0x20; c < 0x7f; c++ {
		chars = append(chars, string(rune(c)))
	}
	chars = append(chars, "\n", "\t")
	for _, c := range chars {
		single = append(single, c, c+"x", "x"+c+"y", "x"+c, c+c)
	}
	danger := strings.Split("\" $ ` \\ * ? [ ~ - ' ; & | ( ) < > { } # % = ! ^ / , @ :", " ")
	danger = append(danger, " ", "\n", "\t")
	if !ctx.Thorough() {
		danger = strings.Split("\" $ ` \\ * [ - ' ; & ( ) > ! % #", " ")
		danger = append(danger, " ", "\n", "\t")
	}
	for _, a := range danger {
		for _, b := range danger {
			if a != b {
				pairs = append(pairs, a+b)
			}
		}
	}
	if ctx.Thorough() {
		few := []string{"\"", "$", "`", "\\", "*", "-", "'", " ", "\n", "(", ")", "a"}
		allStrings(few, 3, func(s string) bool { pairs = append(pairs, s); return true })
	}
	payload = []string{
		"$(touch canary)", "`touch canary`", "\"; touch canary; \"", "'; touch canary; '", "; touch canary", "| touch canary", "&& touch canary", "\ntouch canary\n", "> canary", ">canary", "${x:=1}", "$((touch=1))",
		"\\$(touch canary)", "\\\\$(touch canary)", "\\`touch canary\\`", "\\\"; touch canary #", "$\"x\"", "$'x'", "<(touch canary)", ") ; touch canary ; (", "]; touch canary; [", "} ; touch canary ; {", "a[$(touch canary)]", "\"$(touch canary)\"", "'$(touch canary)'",
		"-n", "-e", "-e a\\tb", "-E", "--", "-", "--help", "-p", "-v x", "-n a", "%s", "%d", "%%", "%n%x", "a%sb", "\\n", "\\t", "\\c", "\\x41", "\\101", "\\0", "a\\", "a\\\\", "\\\\n", "\\u0041",
		"$HOME", "${HOME}", "$0", "$1", "${10}", "$#", "$@", "$*", "$?", "$$", "$!", "$_", "${_h0}", "${#}", "$IFS", "${IFS}", "$PATH", "${!x}", "${x@Q}", "$[1+1]",
		"~", "~root", "~/x", "*", "a*", "??", "[a-z]*", "./*", "{a,b}", "{1..3}", "!!", "!x", "!(a)", "@(a)", "a b  c", "  lead", "trail  ", "\t tab \t", "\n", "\n\n", "a\n", "a\nb", "a\n\nb", "\na", "a \n b",
		"# comment", "a # b", "a#b", "=", "a=b", "x=1", "==", "!=", "-eq", "-z", "(", "!", "-a", "-o", "[", "]", "[[", "1", "0", "-1", "00", "007", "1 -eq 1", "0x10", "true", "false", "", "EOF", "<<EOF", "&", "&&", "||", ";;", "'", "\"", "\"\"", "''", "'\"'\"'", "\"'\"'\"",
		"_h0", "_rv0", "_dv1", "_dv1[0]", "if", "fi", "done", "exit 3", "return", "break", "\\\n", "a\\\nb", "^!", "!LF!", "%PATH%", "€", "é", "ä b",
	}
	return
}

// alonePrograms use a value exactly once or in one way, so that nothing else in the
// program makes the parts of the script appear which the value depends on.
func alonePrograms(s string) []string {
	var l []string
	for _, t := range []string{
		"print(Q)\n", "x := Q\nprint(x)\n", "var x string = Q\nx += Q\nprint(x)\n", "print(Q + Q)\n", "print(Q, 1, Q)\n", "print(len(Q))\n",
		"func f(p string) {\nprint(p)\n}\nf(Q)\n", "func f() string {\nreturn Q\n}\nprint(f())\n", "func f() (string, int) {\nreturn Q, 1\n}\nx, y := f()\nprint(x, y)\n", "func f() {\nprint(Q)\n}\nf()\n",
		"x := []string{Q}\nprint(x[0])\n", "var x []string\nx[1] = Q\nprint(x[1], len(x))\n", "for i, v := range []string{Q} {\nprint(i, v)\n}\n",
		"if Q == Q {\nprint(1)\n}\n", "x := 1\nif x == 1 {\nprint(Q)\n} else {\nprint(2)\n}\n", "for i := 0; i < 2; i++ {\nprint(Q)\n}\n", "switch Q {\ncase Q:\nprint(1)\ndefault:\nprint(2)\n}\n", "x := Q\nswitch x {\ncase \"z\":\nprint(1)\ndefault:\nprint(x)\n}\n",
		"x := Q != Q\nprint(x)\n", "x := Q\nprint(x[0:1], x[0])\n", "x := Q\nfor i, c := range x {\nprint(i, c)\n}\n", "panic(Q)\n", "func f() {\npanic(Q)\n}\nf()\n", "write(\"w\", Q)\n", "write(\"w\", Q, true)\nprint(read(\"w\"))\n", "write(\"w\", Q)\nx := read(\"w\")\nprint(x)\n", "x := exists(Q)\nprint(x)\n",
	} {
		if s == "" && strings.Contains(t, "x[0") && !strings.Contains(t, "[]string{Q}") || strings.Contains(t, "exists(") && (s == "" || strings.ContainsAny(s, "./")) {
			continue
		}
		l = append(l, strings.ReplaceAll(t, "Q", strconv.Quote(s)))
	}
	return l
}

func c08(ctx *h.Ctx) {
	single, pairs, payload := opaqueContents(ctx)
	ascii := func(s string) bool {
		for i := 0; i < len(s); i++ {
			if s[i] >= 128 {
				return false
			}
		}
		return true
	}
	top := func(s string) sysCase {
		return sysCase{Name: "literal", Text: dataFuncs + "v := " + strconv.Quote(s) + "\n" + dataPaths("v", "q", len(s)), Files: withBait(nil)}
	}
	direct := func(s string) sysCase {
		return sysCase{Name: "operand", Text: dataFuncs + literalPaths(strconv.Quote(s), len(s)), Files: withBait(nil)}
	}
	raw := func(s string) sysCase {
		return sysCase{Name: "raw", Text: dataFuncs + "v := `" + s + "`\nprint(v, len(v), v == " + strconv.Quote(s) + ")\nprint(`" + s + "`, id(`" + s + "`))\nwrite(\"r\", `" + s + "`)\n", Files: withBait(nil)}
	}
	pan := func(s string) sysCase {
		return sysCase{Name: "panic", Text: "print(\"a\")\npanic(" + strconv.Quote(s) + ")\nprint(\"b\")\n", Files: withBait(nil)}
	}
	panVar := func(s string) sysCase {
		return sysCase{Name: "panic-run", Text: "func f(x string) {\nv := read(x)\npanic(v)\n}\nf(\"in\")\nprint(\"b\")\n", Files: withBait(map[string]string{"in": s + "\n"})}
	}
	fn := "func run(v string) {\n" + dataPaths("v", "l", 0) + "}\n"
	fromFile := func(s string) sysCase {
		return sysCase{Name: "file", Text: dataFuncs + fn + "g := read(\"in\")\nprint(\"[\" + g + \"]\")\nrun(g)\nrun(read(\"in\"))\n" + dataPaths("g", "t", len(s)), Files: withBait(map[string]string{"in": s + "\n"})}
	}
	fromCmd := func(s string) sysCase {
		return sysCase{Name: "command", Text: dataFuncs + fn + "g, e, c := @cat(\"in\")\nprint(\"[\" + g + \"]\", \"[\" + e + \"]\", c)\nrun(g)\n" + dataPaths("g", "t", len(s)), Files: withBait(map[string]string{"in": s + "\n"})}
	}
	fromStdin := func(s string) sysCase {
		return sysCase{Name: "stdin", Text: dataFuncs + fn + "g := input()\nprint(\"[\" + g + \"]\")\nrun(g)\nh := input()\nprint(h)\n" + dataPaths("g", "t", len(s)), Files: withBait(nil), Stdin: []string{s, "next"}}
	}
	each := func(l []string, fs ...func(string) sysCase) func(func(sysCase) bool) {
		return func(y func(sysCase) bool) {
			for _, s := range l {
				if !ascii(s) {
					continue
				}
				for _, f := range fs {
					c := f(s)
					if c.Name == "raw" && strings.Contains(s, "`") || c.Name == "stdin" && strings.Contains(s, "\n") {
						continue
					}
					if !y(c) {
						return
					}
				}
			}
		}
	}
	sysRun(ctx, "payloads, all origins", each(payload, top, direct, raw, pan, panVar, fromFile, fromCmd, fromStdin))
	sysRun(ctx, "single characters in every position, literal", each(single, top, direct, raw, pan))
	sysRun(ctx, "character pairs, literal operands", each(pairs, direct, raw))
	sysRun(ctx, "single characters, read from a file", each(single, fromFile, panVar))
	sysRun(ctx, "single characters, read from standard input", each(single, fromStdin))
	sysRun(ctx, "single characters, from a command", each(single, fromCmd))
	if ctx.Thorough() {
		sysRun(ctx, "character pairs, all origins", each(pairs, top, pan, fromFile, fromStdin, fromCmd))
	}
	alone := func(l []string) []sysCase {
		var cs []sysCase
		for _, s := range l {
			if !ascii(s) {
				continue
			}
			for _, t := range alonePrograms(s) {
				cs = append(cs, sysCase{Name: "alone", Text: t, Files: withBait(nil)})
			}
		}
		return cs
	}
	l := append([]string{}, payload...)
	for i, s := range single {
		if i%5 == 0 || i%5 == 2 || ctx.Thorough() {
			l = append(l, s)
		}
	}
	cs := alone(append(l, "%\n", "!\n", "^\n!", "\"\n", "a!b\nc", "^!", "!^", "\"!", "\"^", "\"%", "\n!\n"))
	sysRun(ctx, "one value and nothing else", func(y func(sysCase) bool) {
		for _, c := range cs {
			if !y(c) {
				return
			}
		}
	})
	batSys(ctx, "Batch: one value and nothing else", func(y func(sysCase) bool) {
		for _, c := range cs {
			if batOK(c.Text) && !strings.Contains(c.Text, "write(") && !strings.Contains(c.Text, "exists(") && !y(c) {
				return
			}
		}
	})
	c08sizes(ctx)
	c08bat(ctx, single, payload)
	// prompts are written by the shell, too
	sysRun(ctx, "prompts", each(append(append([]string{}, payload...), single...), func(s string) sysCase {
		return sysCase{Name: "prompt", Text: "p := " + strconv.Quote(s) + "\na := input(p)\nb := input(" + strconv.Quote(s) + ")\nprint(\"[\" + a + \"]\", \"[\" + b + \"]\")\n", Files: withBait(nil), Stdin: []string{" l\\1 ", "2"}}
	}))
}
