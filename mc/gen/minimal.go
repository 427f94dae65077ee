package gen

import (
	"fmt"
	"strings"
)

// Construct is one feature and nothing else: definitions, then statements; § makes names unique.
type Construct struct{ Tag, Def, Body string }

// Constructs need no file, program or input.
var Constructs = []Construct{
	{"print", "", "print(1)\n"},
	{"print", "", "print()\n"},
	{"print", "", "print(\"a\")\n"},
	{"print", "", "print(\"a\", 1, true)\n"},
	{"print", "", "print(\"\")\n"},
	{"var", "", "x§ := 1\nprint(x§)\n"},
	{"var", "", "var x§ string\nprint(x§)\n"},
	{"var", "", "var x§ int\nx§++\nprint(x§)\n"},
	{"var", "", "x§, y§ := 1, 2\nx§, y§ = y§, x§\nprint(x§, y§)\n"},
	{"expr", "", "x§ := 7\nprint(x§ * 2, x§ / 2, x§ % 2)\n"},
	{"expr", "", "x§ := 7\nprint(x§ == 7 && x§ > 1 || x§ < 0)\n"},
	{"expr", "", "x§ := 7\nif x§ > 3 {\nprint(1)\n} else {\nprint(2)\n}\n"},
	{"expr", "", "x§ := !(1 == 2)\nprint(x§)\n"},
	{"expr", "", "x§ := 7\nx§ -= 3\nprint(-1 - x§)\n"},
	{"stmt", "", "for i§ := 0; i§ < 2; i§++ {\nprint(i§)\n}\n"},
	{"stmt", "", "for true {\nbreak\n}\nprint(1)\n"},
	{"stmt", "", "switch 2 {\ncase 1:\nprint(1)\ndefault:\nprint(2)\n}\n"},
	{"str", "", "s§ := \"abc\"\nprint(len(s§))\n"},
	{"str", "", "print(len(\"abc\"))\n"},
	{"str", "", "s§ := \"abc\"\nprint(s§[1])\n"},
	{"str", "", "s§ := \"abc\"\nx§ := s§[1:]\nprint(x§)\n"},
	{"str", "", "s§ := \"abc\"\nfor i§, c§ := range s§ {\nprint(i§, c§)\n}\n"},
	{"str", "", "for i§ := range \"ab\" {\nprint(i§)\n}\n"},
	{"str", "", "s§ := \"a\"\ns§ += \"b\" + s§\nprint(s§)\n"},
	{"str", "", "s§ := \"a\"\nif s§ == \"a\" {\nprint(1)\n}\n"},
	{"str", "", "s§ := \"a\"\nswitch s§ {\ncase \"a\":\nprint(1)\n}\n"},
	{"str", "", "x§ := itoa(12)\nprint(x§)\n"},
	{"str", "", "print(itoa(5) + \"x\")\n"},
	{"str", "", "print(\"a\\nb\")\n"},
	{"str", "", "print(\"!\")\n"},
	{"str", "", "print(\"^%\")\n"},
	{"str", "", "print(\"\\\"\")\n"},
	{"slice", "", "l§ := []int{3, 4}\nprint(len(l§))\n"},
	{"slice", "", "l§ := []int{3, 4}\nprint(l§[1])\n"},
	{"slice", "", "l§ := []string{\"p\"}\nx§ := l§[0]\nprint(x§)\n"},
	{"slice", "", "var l§ []int\nprint(len(l§))\n"},
	{"slice", "", "var l§ []bool\nl§[2] = true\nprint(l§[2], l§[0])\n"},
	{"slice", "", "l§ := []int{3, 4}\nl§[1] = 5\nprint(l§[1])\n"},
	{"slice", "", "l§ := []string{}\nl§[1] = \"q\"\nprint(l§[0] + \"|\" + l§[1])\n"},
	{"slice", "", "l§ := []int{3, 4}\nm§ := []int{}\nprint(copy(m§, l§))\n"},
	{"slice", "", "l§ := []int{3, 4}\nm§ := []int{}\ncopy(m§, l§)\nprint(m§[0])\n"},
	{"slice", "", "for i§, v§ := range []int{3, 4} {\nprint(i§, v§)\n}\n"},
	{"slice", "", "for i§ := range []int{3, 4} {\nprint(i§)\n}\n"},
	{"slice", "func f§(l []int) {\nl[2] = 9\n}\n", "l§ := []int{3}\nf§(l§)\nprint(l§[2])\n"},
	{"slice", "func f§() []int {\nreturn []int{8}\n}\n", "l§ := f§()\nprint(l§[0])\n"},
	{"slice", "func f§() []int {\nreturn []int{8}\n}\n", "print(len(f§()))\n"},
	{"func", "func f§() {\nprint(1)\n}\n", "f§()\n"},
	{"func", "func f§() int {\nreturn 4\n}\n", "print(f§())\n"},
	{"func", "func f§(a string) string {\nreturn a\n}\n", "x§ := f§(\"v\")\nprint(x§)\n"},
	{"func", "func f§(a int, b string) (int, string) {\nreturn a, b\n}\n", "x§, y§ := f§(1, \"v\")\nprint(x§, y§)\n"},
	{"func", "func f§(a int) int {\na += 1\nreturn a\n}\n", "print(f§(f§(1)))\n"},
	{"func", "g§ := 1\nfunc f§() {\ng§ = 2\n}\n", "f§()\nprint(g§)\n"},
	{"func", "func f§(a string) bool {\nreturn a == \"x\"\n}\n", "if f§(\"x\") {\nprint(1)\n}\n"},
}

// Alone are constructs alone and in pairs, each a program of its own: nothing
// else in the program provides what a construct depends on. want selects by tag.
func Alone(cs []Construct, want func(a, b string) bool, y func(tag, text string) bool) bool {
	n := func(s, k string) string { return strings.ReplaceAll(s, "§", "q"+k) }
	for _, a := range cs {
		if !want(a.Tag, a.Tag) {
			continue
		}
		d, b := n(a.Def, "0"), n(a.Body, "0")
		for i, t := range []string{d + b, d + "func w() {\n" + b + "}\nw()\n", d + "func w() {\n" + b + "}\nfunc v() {\nw()\n}\nv()\nv()\n", d + "if true {\n" + b + "}\n", d + "if 1 == 2 {\n" + b + "}\n", d + "if 1 == 2 {\n} else {\n" + b + "}\n", d + "for k := 0; k < 2; k++ {\n" + b + "}\n", d + "for k, e := range []int{1} {\n" + b + "}\n", d + "switch {\ncase true:\n" + b + "}\n", d + "func w() {\n" + b + "}\n", d + "func w() int {\n" + b + "return 1\n}\nif w() == 1 {\nprint(9)\n}\n"} {
			if !y(fmt.Sprint("alone", i), t) {
				return false
			}
		}
	}
	for _, a := range cs {
		for _, b := range cs {
			if !want(a.Tag, b.Tag) {
				continue
			}
			da, ba, db, bb := n(a.Def, "0"), n(a.Body, "0"), n(b.Def, "1"), n(b.Body, "1")
			for i, t := range []string{
				da + ba + db + bb,
				da + "func w() {\n" + ba + "}\n" + db + bb + "w()\n",
				da + "func w() {\n" + ba + "}\n" + db + bb, // w is never called
				da + "func w() {\n" + ba + "}\n" + db + "func v() {\n" + bb + "}\nv()\n",
				da + db + "if 1 == 1 {\n" + ba + "} else {\n" + bb + "}\n",
				da + db + "if 1 == 2 {\n" + ba + "} else {\n" + bb + "}\n",
			} {
				if !y(fmt.Sprint("alone-pair", i), t) {
					return false
				}
			}
		}
	}
	return true
}

// AloneItems are programs of constructs as items that are never packed.
func AloneItems(y Yield, tags ...string) bool {
	return Alone(Constructs, func(a, b string) bool {
		if len(tags) == 0 {
			return true
		}
		for _, t := range tags {
			if a == t || b == t {
				return true
			}
		}
		return false
	}, func(tag, text string) bool { return y(Item{Body: text, Solo: true, Tag: tag}) })
}

// Files and Apps use files and programs.
var Files = []Construct{
	{"file", "", "write(\"f§\", \"a\")\n"},
	{"file", "", "write(\"f§\", \"a\", true)\n"},
	{"file", "", "b§ := true\nwrite(\"f§\", \"a\", b§)\n"},
	{"file", "", "write(\"f§\", \"a\")\nx§ := read(\"f§\")\nprint(x§)\n"},
	{"file", "", "write(\"f§\", \"a\\nb\")\nprint(read(\"f§\"))\n"},
	{"file", "", "print(exists(\"in\"))\n"},
	{"file", "", "if exists(\"no\") {\nprint(1)\n}\n"},
	{"file", "", "print(read(\"in\"))\n"},
	{"file", "", "x§ := read(\"in\")\nprint(len(x§))\n"},
	{"file", "func f§() string {\nreturn read(\"in\")\n}\n", "print(f§())\n"},
	{"file", "func f§(p string) bool {\nwrite(p, p)\nreturn exists(p)\n}\n", "print(f§(\"g§\"))\n"},
}
var Apps = []Construct{
	{"app", "", "x§, e§, c§ := @emit(\"a\")\nprint(x§, c§)\n"},
	{"app", "", "x§, e§, c§ := @probe()\nprint(x§, c§)\n"},
	{"app", "", "x§, e§, c§ := @probe(\"a b\", \"\") | @tag(\"t\")\nprint(x§, c§)\n"},
	{"app", "", "x§, e§, c§ := @cat(\"in\")\nprint(x§, c§)\n"},
	{"app", "", "@probe(\"a\")\nprint(1)\n"},
	{"app", "", "@emit(\"a\") | @tag(\"t\") | @cat()\nprint(1)\n"},
	{"app", "", "x§, e§, c§ := @st(\"3\")\nprint(x§, c§)\n"},
	{"app", "", "@`probe`(\"*\")\nprint(1)\n"},
	{"app", "func f§(s string) string {\nx, e, c := @est(s, \"4\")\nif c == 4 {\nreturn x\n}\nreturn \"\"\n}\n", "print(f§(\"q\"))\n"},
	{"app", "func f§() {\n@probe(\"in f\")\nprint(1)\n}\n", "f§()\n"},
}
var Input = []Construct{
	{"input", "", "x§ := input()\nprint(x§)\n"},
	{"input", "", "print(input(\"p\"))\n"},
	{"input", "", "input()\n"},
	{"input", "", "panic(\"p\")\n"},
}
