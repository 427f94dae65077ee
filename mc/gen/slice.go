package gen

import (
	"fmt"
	"strings"
)

// slice and string operations

var elemVals = map[string][]string{
	"int":    {"11", "-22", "33", "44"},
	"string": {"\"e1\"", "\"\"", "\"e 3\"", "\"e4\""},
	"bool":   {"true", "false", "true", "true"},
}

// SliceOps is the alphabet of slice operations; a§ and b§ are the two slice variables.
func sliceOps(t string) []string {
	v := elemVals[t]
	return []string{
		"a§ = []" + t + "{}\n",
		"a§ = []" + t + "{" + v[0] + ", " + v[1] + "}\n",
		"a§ = b§\n", "b§ = a§\n",
		"a§[0] = " + v[2] + "\n", "a§[1] = " + v[1] + "\n", "a§[len(a§)] = " + v[3] + "\n", "a§[len(a§) + 2] = " + v[0] + "\n", "b§[0] = " + v[3] + "\n", "b§[3] = " + v[2] + "\n",
		"copy(a§, b§)\n", "print(copy(b§, a§))\n",
		"set_" + t + "(a§, 2, " + v[3] + ")\n", "a§ = id_" + t + "(b§)\n", "b§ = mk_" + t + "(" + v[2] + ")\n", "a§, b§ = b§, a§\n",
		"for i§, v§ := range a§ {\na§[i§] = v§\nprint(i§, v§)\n}\n",
		"if len(a§) > 1 {\na§[0] = a§[1]\n}\n",
	}
}

func slicePre(t string) string {
	z := elemVals[t][0]
	return "func set_" + t + "(s []" + t + ", i int, v " + t + ") {\ns[i] = v\n}\nfunc id_" + t + "(s []" + t + ") []" + t + " {\nreturn s\n}\nfunc mk_" + t + "(v " + t + ") []" + t + " {\nr := []" + t + "{v, " + z + "}\nr[len(r)] = v\nreturn r\n}\n" +
		"func dump_" + t + "(n string, s []" + t + ") {\nprint(n, len(s))\nfor i := 0; i < len(s); i++ {\nprint(i, s[i])\n}\n}\n"
}

// SliceHistories: every history of n slice operations, dumping both slices after every operation.
func SliceHistories(t string, n int, ctxs []string, y Yield) bool {
	ops := sliceOps(t)
	pre := slicePre(t)
	dump := "dump_" + t + "(\"a\", a§)\ndump_" + t + "(\"b\", b§)\n"
	v := elemVals[t]
	inits := "a§ := []" + t + "{" + v[0] + "}\nb§ := []" + t + "{" + v[1] + ", " + v[2] + ", " + v[3] + "}\n"
	var rec func(k int, acc string) bool
	rec = func(k int, acc string) bool {
		if k == 0 {
			for _, c := range ctxs {
				var body string
				switch c {
				case "global":
					body = inits + acc
				case "local":
					body = "func t§() {\n" + inits + acc + "}\nt§()\n"
				case "param":
					body = "func t§(a§ []" + t + ", b§ []" + t + ") {\n" + acc + "}\nx§ := []" + t + "{" + v[0] + "}\ny§ := []" + t + "{" + v[1] + ", " + v[2] + ", " + v[3] + "}\nt§(x§, y§)\ndump_" + t + "(\"x\", x§)\ndump_" + t + "(\"y\", y§)\n"
				case "fnglobal":
					body = inits + "func t§() {\n" + acc + "}\nt§()\n" + dump
				case "loop":
					body = inits + "for k§ := 0; k§ < 2; k§++ {\n" + strings.ReplaceAll(strings.ReplaceAll(acc, "i§", "k§i"), "v§", "k§v") + "}\n"
				}
				if !y(Item{Pre: pre, Body: body, Tag: "slice-" + t}) {
					return false
				}
			}
			return true
		}
		for i, o := range ops {
			o = strings.ReplaceAll(strings.ReplaceAll(o, "i§", fmt.Sprintf("i§_%d", k)), "v§", fmt.Sprintf("v§_%d", k))
			_ = i
			if !rec(k-1, acc+o+dump) {
				return false
			}
		}
		return true
	}
	return rec(n, "")
}

// SliceGrow: every start length and assignment index, and every pair of lengths for copy (lengths above 9 matter).
func SliceGrow(max int, y Yield) bool {
	for _, t := range []string{"int", "string", "bool"} {
		pre := slicePre(t)
		lit := func(n int) string {
			var vs []string
			for i := 0; i < n; i++ {
				switch t {
				case "int":
					vs = append(vs, fmt.Sprint(i+100))
				case "string":
					vs = append(vs, fmt.Sprintf("\"s%d\"", i))
				default:
					vs = append(vs, []string{"true", "false"}[i%2])
				}
			}
			return "[]" + t + "{" + strings.Join(vs, ", ") + "}"
		}
		val := map[string]string{"int": "7", "string": "\"w w\"", "bool": "true"}[t]
		d := "dump_" + t + "(\"a\", a§)\n"
		for n := 0; n <= max; n++ {
			for i := 0; i <= max+2; i++ {
				b := "a§ := " + lit(n) + "\na§[" + fmt.Sprint(i) + "] = " + val + "\n" + d
				if i%2 == 0 {
					b = "a§ := " + lit(n) + "\ni§ := " + fmt.Sprint(i) + "\nb§ := a§\na§[i§] = " + val + "\nprint(len(b§), a§[i§], b§[i§])\n" + d
				}
				if !y(Item{Pre: pre, Body: b, Tag: "grow"}) {
					return false
				}
				if i <= max {
					c := "a§ := " + lit(n) + "\nb§ := " + lit(i) + "\n"
					if t == "int" {
						c += "for i§, v§ := range a§ {\na§[i§] = v§ * 2\n}\n"
					}
					c += "print(copy(a§, b§))\n" + d + "b§[0] = " + val + "\nprint(len(b§))\n" + d
					if !y(Item{Pre: pre, Body: c, Tag: "copylen"}) {
						return false
					}
				}
			}
		}
	}
	return true
}

// SliceForms: positions in which slice expressions, elements and lengths can stand.
func SliceForms(y Yield) bool {
	for _, t := range []string{"int", "string", "bool"} {
		v := elemVals[t]
		pre := slicePre(t) + "func pick_" + t + "(s []" + t + ", i int) " + t + " {\nreturn s[i]\n}\nfunc both_" + t + "(s []" + t + ") ([]" + t + ", int) {\nreturn s, len(s)\n}\n"
		d := "dump_" + t + "(\"a\", a§)\n"
		init := "a§ := []" + t + "{" + v[0] + ", " + v[1] + ", " + v[2] + "}\n"
		forms := []string{
			"var b§ []" + t + "\nprint(len(b§))\nb§[0] = " + v[3] + "\nprint(len(b§), b§[0])\n",
			"var b§ []" + t + "\nvar c§ []" + t + "\nb§[1] = " + v[3] + "\nprint(len(b§), len(c§))\nc§ = b§\nc§[2] = " + v[0] + "\nprint(len(b§), len(c§))\n",
			"var b§, c§ []" + t + "\nb§[1] = " + v[3] + "\nprint(len(b§), len(c§))\n",
			"var b§ []" + t + " = a§\nb§[0] = " + v[3] + "\n" + d,
			"var b§ = a§\nb§[4] = " + v[3] + "\n" + d,
			"b§, c§ := a§, []" + t + "{" + v[2] + "}\nb§[0] = " + v[3] + "\nc§[1] = " + v[0] + "\n" + d + "print(len(c§), c§[0], c§[1])\n",
			"b§, n§ := both_" + t + "(a§)\nb§[n§] = " + v[3] + "\nprint(n§)\n" + d,
			"print(a§[0], a§[1], a§[2], len(a§), pick_" + t + "(a§, 1))\n",
			"print(a§[len(a§) - 1], a§[0 + 1], a§[(1)])\n",
			"x§ := a§[2]\na§[2] = " + v[3] + "\nprint(x§, a§[2])\n",
			"a§[0], := 1\n",
			"print(a§[0] == a§[1], a§[0] != a§[2], a§[2] == " + v[2] + ")\n",
			"a§[1] = a§[0]\na§[len(a§)] = pick_" + t + "(a§, 2)\n" + d,
			"b§ := []" + t + "{a§[2], pick_" + t + "(a§, 0), " + v[3] + "}\n" + strings.ReplaceAll(d, "a§", "b§"),
			"func f§() []" + t + " {\nreturn a§\n}\nb§ := f§()\nb§[0] = " + v[3] + "\n" + d + "dump_" + t + "(\"f\", f§())\n",
			"func f§() []" + t + " {\nreturn []" + t + "{" + v[1] + "}\n}\nb§ := f§()\nc§ := f§()\nb§[0] = " + v[3] + "\nprint(b§[0], c§[0], len(f§()))\n",
			"func f§() {\nvar b§ []" + t + "\nprint(len(b§))\nb§[len(b§)] = " + v[3] + "\nprint(len(b§))\n}\nf§()\nf§()\n",
			"for i§ := 0; i§ < 3; i§++ {\nvar b§ []" + t + "\nb§[i§] = " + v[3] + "\nprint(len(b§))\nc§ := []" + t + "{" + v[0] + "}\nc§[1] = b§[i§]\nprint(len(c§), c§[0], c§[1])\n}\n",
			"for i§ := 0; i§ < 3; i§++ {\nc§ := []" + t + "{}\nprint(len(c§))\nc§[i§] = " + v[0] + "\nprint(len(c§), c§[i§])\n}\n",
			"n§ := copy(a§, []" + t + "{" + v[3] + "})\nprint(n§)\n" + d,
			"if copy(a§, []" + t + "{" + v[3] + ", " + v[3] + ", " + v[3] + ", " + v[3] + "}) == 4 {\n" + d + "}\n",
			"b§ := []" + t + "{}\nn§ := copy(b§, a§)\nb§[0] = " + v[3] + "\nprint(n§, len(b§), b§[0], b§[1], b§[2])\n" + d,
			"func f§(p []" + t + ") int {\nq := []" + t + "{}\nn := copy(q, p)\nq[0] = " + v[3] + "\nprint(copy(p, q), len(q))\nreturn n\n}\nprint(f§(a§))\n" + d,
			"copy(a§, a§)\n" + d, "a§ = a§\n" + d, "b§ := a§\nprint(copy(a§, b§))\n" + d,
			"for i§, v§ := range a§ {\nfor j§, w§ := range a§ {\nprint(i§, v§, j§, w§)\n}\n}\n",
			"for i§, v§ := range a§ {\nif i§ == 1 {\ncontinue\n}\nprint(v§)\n}\n", "for i§ := range a§ {\nprint(i§)\nif i§ == 1 {\nbreak\n}\n}\n",
			"for i§, v§ := range []" + t + "{" + v[2] + ", " + v[3] + "} {\nprint(i§, v§)\n}\nfor i§ := range []" + t + "{} {\nprint(i§)\n}\n",
			"for i§, v§ := range id_" + t + "(a§) {\na§[i§] = " + v[3] + "\nprint(v§, a§[i§])\n}\n",
			"for i§, v§ := range a§ {\nif i§ == 0 {\na§[1] = " + v[3] + "\n}\nprint(v§)\n}\n",
			"switch len(a§) {\ncase 3:\nprint(\"three\")\ndefault:\nprint(\"other\")\n}\nswitch a§[0] {\ncase " + v[0] + ":\nprint(\"v0\")\n}\n",
			"for i§ := 0; i§ < len(a§); i§++ {\nif i§ == 2 {\na§[4] = " + v[3] + "\n}\nprint(i§, a§[i§])\n}\n",
			"if len(a§) == 3 && len(id_" + t + "(a§)) > 2 {\nprint(\"ok\")\n}\n",
			"x§ := len(a§) * 2 - 1\nprint(x§, itoa(len(a§)))\n",
		}
		if t != "bool" {
			forms = append(forms, "x§ := a§[0] + a§[2]\nx§ += a§[1]\nprint(x§)\na§[1] = x§ + a§[0]\n"+d)
		} else {
			forms = append(forms, "x§ := a§[0] && !a§[1] || a§[2]\nprint(x§)\nif a§[0] {\nprint(1)\n}\nif !a§[0] {\nprint(0)\n}\nfor !a§[1] {\na§[1] = a§[0]\n"+d+"}\n")
		}
		wraps := []string{init + "%s", "func w§() {\n" + init + "%s}\nw§()\nw§()\n", init + "func w§() {\n%s}\nw§()\n" + d, "func w§(a§ []" + t + ") {\n%s}\nw§([]" + t + "{" + v[0] + ", " + v[1] + ", " + v[2] + "})\n", "for o§ := 0; o§ < 2; o§++ {\n" + init + "%s}\n"}
		for wi, w := range wraps {
			for _, f := range forms {
				if strings.HasPrefix(f, "func") && wi > 0 {
					continue
				}
				if wi == 1 && strings.Contains(f, "func") {
					continue
				}
				if !y(Item{Pre: pre, Body: strings.ReplaceAll(w, "%s", f), Tag: "form-" + t}) {
					return false
				}
			}
		}
	}
	return true
}

const abc = "aZ09 ._-klmnop"

// Substrings: every index and index pair of strings of length 0..max, in several forms of writing them.
func Substrings(max int, y Yield) bool {
	for n := 0; n <= max; n++ {
		s := abc[:n]
		lit := "\"" + s + "\""
		wraps := []string{
			"s§ := " + lit + "\nL§ := " + fmt.Sprint(n) + "\n%s",
			"func w§(s§ string, L§ int) {\n%s}\nw§(" + lit + ", " + fmt.Sprint(n) + ")\n",
			"func w§() {\ns§ := " + lit + " + \"\"\nL§ := len(s§)\n%s}\nw§()\n",
		}
		for _, w := range wraps {
			var b strings.Builder
			cnt := 0
			flush := func(force bool) bool {
				if cnt == 0 || cnt < 6 && !force {
					return true
				}
				it := Item{Body: strings.ReplaceAll(w, "%s", b.String()), Tag: fmt.Sprintf("sub%d", n)}
				b.Reset()
				cnt = 0
				return y(it)
			}
			add := func(l string) bool { b.WriteString(l); cnt++; return flush(false) }
			if !add("print(len(s§), L§, s§[:] + \"|\", s§[0:L§] + \"|\", s§[:len(s§)] + \"|\", s§[L§:] + \"|\")\nfor i§, c§ := range s§ {\nprint(i§, c§ + \"|\")\n}\nfor i§k := range s§ {\nprint(i§k)\n}\n") {
				return false
			}
			for i := 0; i <= n; i++ {
				if !add(fmt.Sprintf("print(s§[%d:] + \"|\", s§[:%d] + \"|\", s§[L§ - %d:] + \"|\", s§[:L§ - %d] + \"|\")\n", i, i, i, i)) {
					return false
				}
				if i < n {
					if !add(fmt.Sprintf("i§_%d := %d\nprint(s§[%d] + \"|\", s§[i§_%d] + \"|\", s§[L§ - %d] + \"|\", s§[i§_%d + 0] + \"|\")\n", i, i, i, i, i+1, i)) {
						return false
					}
				}
				for j := i; j <= n; j++ {
					if !add(fmt.Sprintf("a§_%d_%d, b§_%d_%d := %d, %d\nprint(s§[%d:%d] + \"|\", s§[a§_%d_%d:b§_%d_%d] + \"|\", len(s§[%d:%d]))\nx§_%d_%d := s§[a§_%d_%d:b§_%d_%d]\nprint(x§_%d_%d == s§[%d:%d], len(x§_%d_%d), x§_%d_%d + \"|\")\n", i, j, i, j, i, j, i, j, i, j, i, j, i, j, i, j, i, j, i, j, i, j, i, j, i, j, i, j)) {
						return false
					}
				}
			}
			if !flush(true) {
				return false
			}
		}
	}
	return true
}

// StringForms: positions in which string operations can stand.
func StringForms(y Yield) bool {
	pre := "func st(s string, i int, j int) string {\nreturn s[i:j]\n}\nfunc ch(s string, i int) string {\nreturn s[i]\n}\nfunc rev(s string) string {\nr := \"\"\nfor i := len(s) - 1; i >= 0; i-- {\nr += s[i]\n}\nreturn r\n}\n"
	init := "s§ := \"hello world\"\nt§ := \"hello\"\nn§ := 3\n"
	forms := []string{
		"print(st(s§, 2, 5), ch(s§, 4), rev(s§))\n", "x§ := st(s§, n§, len(s§))\nprint(x§, len(x§))\n", "print(s§[:5] == t§, s§[1:3] != t§[1:3], s§[4] == s§[7])\n",
		"s§ = s§[6:] + t§\nprint(s§, len(s§))\n", "s§ += s§[0] + s§[len(s§) - 1]\nprint(s§, len(s§))\n", "x§ := s§\nx§ += \"!\"\nprint(s§, x§, len(s§), len(x§))\n",
		"x§ := s§[n§:n§ + 2]\ny§ := x§[1]\nz§ := y§[0:1]\nprint(x§, y§, z§)\n", "if s§[0:n§] == \"hel\" && len(t§) == 5 {\nprint(1)\n}\n", "switch s§[n§] {\ncase \"x\":\nprint(\"x\")\ncase \"l\":\nprint(\"l\")\n}\n",
		"for i§ := 0; i§ < len(s§); i§++ {\nif s§[i§] == \"o\" {\nprint(i§, s§[i§:])\n}\n}\n", "for i§, c§ := range s§ {\nif c§ == \" \" {\nbreak\n}\nprint(i§, c§, s§[:i§])\n}\n",
		"for i§, c§ := range s§[6:] {\nprint(i§, c§)\n}\n", "for i§, c§ := range t§ + \"!?\" {\nprint(i§, c§)\n}\n", "for i§, c§ := range rev(t§) {\nprint(i§, c§)\n}\n", "for i§, c§ := range \"\" {\nprint(i§, c§)\n}\nprint(len(\"\"))\n",
		"l§ := []string{s§[:2], t§[n§], s§[6:]}\nfor i§, v§ := range l§ {\nprint(i§, v§, len(v§))\n}\n", "print(len(s§), len(t§ + s§), len(\"abc\"), len(st(s§, 1, 4)))\n", "print(s§[n§ - 1] + s§[n§ + 1], s§[len(t§):len(t§) + n§] + \"|\")\n",
		"a§, b§ := s§[:n§], s§[n§:]\nprint(a§ + b§ == s§, a§, b§)\n", "a§, b§ := s§[0], t§[4]\na§, b§ = b§, a§\nprint(a§ + b§)\n", "x§ := \"\"\nfor i§, c§ := range s§ {\nx§ = c§ + x§\nprint(i§)\n}\nprint(x§)\n",
		"x§ := s§ == \"hello world\"\ny§ := s§ != t§\nprint(x§, y§, \"\" == s§[2:2])\n", "print(\"a\" + \"b\" == \"ab\", (\"a\" + \"b\") + \"c\" == \"a\" + (\"b\" + \"c\"))\n", "print(st(st(s§, 1, 9), 2, 6), ch(rev(t§), 1))\n",
		"x§ := \"0123456789abcdef\"\nprint(x§[9:12], x§[10], x§[2:11], x§[10:], x§[:10], x§[11:15], x§[15])\n", "for i§, c§ := range \"0123456789ab\" {\nprint(i§, c§)\n}\n",
		"itoa§ := itoa(n§ * 40)\nprint(itoa§[0], itoa§[1:], len(itoa§))\n", "print(itoa(-7)[0:1])\n", "v§ := itoa(-71)\nprint(v§[0], v§[1:3])\n",
	}
	wraps := []string{init + "%s", "func w§() {\n" + init + "%s}\nw§()\nw§()\n", init + "func w§() {\n%s}\nw§()\nprint(s§, t§)\n", "func w§(s§ string, t§ string, n§ int) {\n%s}\nw§(\"hello world\", \"hello\", 3)\n", "for o§ := 0; o§ < 2; o§++ {\n" + init + "%s}\n"}
	for _, w := range wraps {
		for _, f := range forms {
			if !y(Item{Pre: pre, Body: strings.ReplaceAll(w, "%s", f), Tag: "strform"}) {
				return false
			}
		}
	}
	return true
}

// StringOps: every history of n operations on two string variables.
func StringOps(n int, y Yield) bool {
	ops := []string{"a§ += b§\n", "b§ = a§ + b§\n", "a§ = a§[1:]\n", "a§ = a§[:len(a§) - 1]\n", "b§ = a§[0]\n", "a§, b§ = b§, a§\n", "b§ = b§[:0]\n", "a§ = a§[len(a§) - 1] + a§\n", "for i§, c§ := range a§ {\nb§ = c§ + b§\nprint(i§)\n}\n", "if a§ == b§ {\na§ += \"=\"\n}\n", "if a§ != b§ {\nb§ += \"x\"\n}\n", "b§ = cat(b§, a§[:1])\n"}
	pre := "func cat(p string, q string) string {\np += q\nreturn p\n}\n"
	dump := "print(\"[\" + a§ + \"]\", \"[\" + b§ + \"]\", len(a§), len(b§), a§ == b§)\n"
	var rec func(k int, acc string) bool
	rec = func(k int, acc string) bool {
		if k == 0 {
			for _, w := range []string{"a§, b§ := \"xyz\", \"12\"\n%s", "func f§(a§ string, b§ string) {\n%s}\nf§(\"xyz\", \"12\")\n"} {
				if !y(Item{Pre: pre, Body: strings.ReplaceAll(w, "%s", acc), Tag: "strops"}) {
					return false
				}
			}
			return true
		}
		for _, o := range ops {
			o = strings.ReplaceAll(strings.ReplaceAll(o, "i§", fmt.Sprintf("i§_%d", k)), "c§", fmt.Sprintf("c§_%d", k))
			if !rec(k-1, acc+o+dump) {
				return false
			}
		}
		return true
	}
	return rec(n, "")
}

// IndexExprs: every kind of integer expression in every place of a subscript, in pairs.
func IndexExprs(y Yield) bool {
	pre := "gn := 1\nfunc two() int {\nreturn 2\n}\nfunc same(i int) int {\nreturn i\n}\nfunc ix(l []int, i int) int {\nreturn l[i]\n}\nfunc rv(s string) string {\nreturn s + \"\"\n}\nfunc ids(l []string) []string {\nreturn l\n}\n"
	forms := func(v int) []string {
		return []string{fmt.Sprint(v), fmt.Sprintf("v%d§", v), fmt.Sprintf("(v%d§)", v), fmt.Sprintf("v%d§ + 0", v), fmt.Sprintf("7 - (7 - v%d§)", v), fmt.Sprintf("v%d§ * 2 / 2", v),
			fmt.Sprintf("same(%d)", v), fmt.Sprintf("same(v%d§)", v), fmt.Sprintf("two() + %d - 2", v), fmt.Sprintf("(same(v%d§))", v), fmt.Sprintf("same(same(v%d§) + 0)", v),
			fmt.Sprintf("l§[%d]", v), fmt.Sprintf("l§[l§[v%d§]]", v), fmt.Sprintf("ix(l§, %d)", v), fmt.Sprintf("len(s§[:%d])", v), fmt.Sprintf("len(\"%s\")", abc[:v]), fmt.Sprintf("copy(k§, []int{%s})", strings.TrimSuffix(strings.Repeat("1, ", v), ", ")), fmt.Sprintf("gn + %d - gn", v)}
	}
	init := "s§ := \"abcdefgh\"\nl§ := []int{0, 1, 2, 3, 4, 5, 6}\nm§ := []string{\"p\", \"q\", \"r\", \"s\", \"t\", \"u\", \"v\"}\nk§ := []int{}\nv1§ := 1\nv3§ := 3\nv4§ := 4\n"
	wraps := []string{init + "%s", "func w§() {\n" + init + "%s}\nw§()\n", "func w§(s§ string, l§ []int, m§ []string, k§ []int, v1§ int, v3§ int, v4§ int) {\n%s}\nw§(\"abcdefgh\", []int{0, 1, 2, 3, 4, 5, 6}, []string{\"p\", \"q\", \"r\", \"s\", \"t\", \"u\", \"v\"}, []int{}, 1, 3, 4)\n", init + "func w§() {\n%s}\nw§()\n",
		"for o§ := 0; o§ < 2; o§++ {\n" + init + "%s}\n"}
	for wi, w := range wraps {
		for _, a := range forms(1) {
			uses := []string{"print(s§[A], s§[A:], s§[:A], m§[A], l§[A])\nm§[A] = \"z\"\nprint(m§[1])\nm§[A + 0] = m§[A] + s§[A]\nprint(m§[1], len(m§))\n",
				"x§ := s§[A]\ny§ := s§[A:]\nz§ := m§[A]\nif s§[A] == \"b\" && l§[A] == 1 {\nprint(x§ + y§ + z§)\n}\nfor i§, c§ := range s§[A:] {\nprint(i§, c§)\n}\nswitch s§[:A] {\ncase \"a\":\nprint(\"is\")\n}\n",
				"print(rv(s§[A]) + rv(s§[A:]), len(s§[A:]), same(l§[A]))\nn§ := []string{s§[A], m§[A]}\nn§[A] += \"\"\n"}
			uses = append(uses[:2], strings.TrimSuffix(uses[2], "n§[A] += \"\"\n")+"n§[A] = n§[0]\nprint(n§[1], len(n§))\n")
			for _, b := range append(forms(3), forms(4)...) {
				if wi > 1 && strings.Contains(b, "4") {
					continue
				}
				uses = append(uses, "x§ := s§[A:B]\nprint(x§, s§[A:B] + s§[:B], len(s§[A:B]))\n")
				uses[len(uses)-1] = strings.ReplaceAll(uses[len(uses)-1], "B", b)
			}
			for i := 0; i < len(uses); i += 4 {
				var t strings.Builder
				for j := i; j < min(i+4, len(uses)); j++ {
					t.WriteString("if true {\n" + strings.ReplaceAll(uses[j], "A", a) + "}\n")
				}
				if !y(Item{Pre: pre, Body: strings.ReplaceAll(w, "%s", t.String()), Tag: "index"}) {
					return false
				}
			}
		}
	}
	return true
}
