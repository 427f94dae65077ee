package main

import (
	"fmt"
	"strconv"
	"strings"

	"verifmc/h"
)

// c15sizes: long texts, long separators, many parts, matches at every position.
func c15sizes(ctx *h.Ctx) {
	lens := []int{}
	for n := 0; n <= pick(ctx, 40, 70); n++ {
		lens = append(lens, n)
	}
	lens = append(lens, 63, 64, 65, 99, 100, 101, 127, 128, 129)
	if ctx.Thorough() {
		lens = append(lens, 200, 255, 256, 257, 300)
	}
	libRun(ctx, "long texts and separators", 14, func(y func(libCall) bool) {
		for _, n := range lens {
			s := strings.Repeat("abc", n/3+1)[:n]
			for _, p := range [][2]string{{s, "z"}, {s + "z", "z"}, {"z" + s, s}, {s + "z", s + "z"}, {s, s}} {
				if (n > 40 && p[1] == "z" && p[0] == s) || !libTwo(p[0], p[1], y) {
					return
				}
			}
			if n <= 66 && !libTrim(strings.Repeat("x", n)+"ab"+strings.Repeat("x", n), "x", y) {
				return
			}
			if !y(libReplace(s+"z"+s, "z", "-", -1)) || !y(libReplace(s, "abc", "d", n/4)) || !y(libReplace("z", "z", s, 1)) ||
				!y(callStr("Repeat", strings.Repeat("ab", n), lit("ab"), strconv.Itoa(n))) ||
				!y(callStr("Repeat", strings.Repeat(s, 2), lit(s), "2")) {
				return
			}
			if n <= 66 && !y(callStr("TrimSpace", strings.Repeat("y", n+1), lit(strings.Repeat(" ", n)+strings.Repeat("y", n+1)+strings.Repeat("\t", n)))) {
				return
			}
		}
	})
	libRun(ctx, "many parts", 6, func(y func(libCall) bool) {
		for n := 0; n <= pick(ctx, 40, 120); n++ {
			el := []string{}
			for i := 0; i < n; i++ {
				el = append(el, strconv.Itoa(i))
			}
			j := strings.Join(el, ", ")
			if !y(callStr("Join", j, lits(el), lit(", "))) || !y(callVal("Count", strconv.Itoa(strings.Count(j, ", ")), lit(j), lit(", "))) {
				return
			}
			l := strings.Join(el, ",")
			parts := strings.Split(l, ",")
			w := fmt.Sprintf("%d\n", len(parts))
			for i, p := range parts {
				w += fmt.Sprintf("%d [%s]\n", i, p)
			}
			if !y(libCall{fmt.Sprintf("s§ := strings.Split(%s, \",\")\nprint(len(s§))\nfor i§, e§ := range s§ {\nprint(i§, \"[\" + e§ + \"]\")\n}\n", lit(l)), w, "Split"}) {
				return
			}
			if !y(libReplace(l, ",", ";", n/2)) || !y(callStr("ReplaceAll", strings.ReplaceAll(l, ",", ""), lit(l), lit(","), lit(""))) {
				return
			}
			if !y(callStr("Replace", strings.Replace(strings.Repeat("a", n), "", "-", -1), lit(strings.Repeat("a", n)), lit(""), lit("-"), "-1")) {
				return
			}
		}
	})
	libRun(ctx, "many results alive at once", 1, func(y func(libCall) bool) {
		for _, n := range append(seq(1, pick(ctx, 20, 70)), 31, 32, 33, 63, 64, 65, 66, 99, 100, 101) {
			// computed elements of one list
			el, ex := []string{}, []string{}
			for i := 0; i < n; i++ {
				e := strings.Repeat(string(rune('a'+i%26)), i%3+1)
				el = append(el, e)
				ex = append(ex, fmt.Sprintf("strings.Repeat(%s, %d)", lit(e[:1]), i%3+1))
			}
			if !y(libCall{"print(strings.Join([]string{" + strings.Join(ex, ", ") + "}, \"-\"))\n", strings.Join(el, "-") + "\n", "Join"}) ||
				!y(libCall{"print(" + strings.Join(ex, " + ") + ")\n", strings.Join(el, "") + "\n", "Repeat"}) {
				return
			}
			// slices which are used after later ones have been created
			var b, w strings.Builder
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, "s%d := strings.Split(\"%s,%d\", \",\")\n", i, el[i], i)
			}
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, "print(len(s%d), s%d[0], s%d[1], strings.Join(s%d, \"+\"))\n", i, i, i, i)
				fmt.Fprintf(&w, "2 %s %d %s+%d\n", el[i], i, el[i], i)
			}
			if !y(libCall{b.String(), w.String(), "Split"}) || !y(libCall{b.String(), w.String(), "Split"}) {
				return
			}
			// slices created by the executions of a loop
			b.Reset()
			w.Reset()
			fmt.Fprintf(&b, "first := strings.Split(\"f,g\", \",\")\nfor k := 0; k < %d; k++ {\nt := strings.Split(\"k\" + itoa(k) + \",l\", \",\")\nprint(t[0], t[1], len(t), first[0], first[1])\n}\n", n)
			for i := 0; i < n; i++ {
				fmt.Fprintf(&w, "k%d l 2 f g\n", i)
			}
			if !y(libCall{b.String(), w.String(), "Split"}) {
				return
			}
		}
	})
	libRun(ctx, "matches at every position", 22, func(y func(libCall) bool) {
		n := pick(ctx, 24, 40)
		for i := 0; i <= n; i++ {
			for _, m := range []string{"x", "xy", "xxx"} {
				s := strings.Repeat(".", i) + m + strings.Repeat(".", n-i)
				if !libTwo(s, m, y) || !y(libReplace(s, m, "", 1)) {
					return
				}
			}
		}
	})
}

// c15ctx: the call of every function in every kind of place.
func c15ctx(ctx *h.Ctx) {
	type fn struct {
		expr string // string-valued or
		str  string
		num  int // int-valued (-100: none) or
		kind byte
	}
	fs := []fn{
		{"strings.Index(\"chicken\", \"ken\")", "", 4, 'i'},
		{"strings.Index(\"ch\", \"ken\")", "", -1, 'i'},
		{"strings.Count(\"cheese\", \"e\")", "", 3, 'i'},
		{"strings.Count(\"five\", \"\")", "", 5, 'i'},
		{"strings.Contains(\"seafood\", \"foo\")", "", 1, 'b'},
		{"strings.Contains(\"seafood\", \"bar\")", "", 0, 'b'},
		{"strings.HasPrefix(\"golang\", \"go\")", "", 1, 'b'},
		{"strings.HasPrefix(\"go\", \"golang\")", "", 0, 'b'},
		{"strings.HasSuffix(\"amigo\", \"go\")", "", 1, 'b'},
		{"strings.HasSuffix(\"amigo\", \"O\")", "", 0, 'b'},
		{"strings.Join([]string{\"foo\", \"bar\", \"baz\"}, \", \")", "foo, bar, baz", 0, 's'},
		{"strings.Repeat(\"na\", 2)", "nana", 0, 's'},
		{"strings.Replace(\"oink oink oink\", \"k\", \"ky\", 2)", "oinky oinky oink", 0, 's'},
		{"strings.ReplaceAll(\"oink oink oink\", \"oink\", \"moo\")", "moo moo moo", 0, 's'},
		{"strings.TrimPrefix(\"xyxz\", \"xy\")", "xz", 0, 's'},
		{"strings.TrimSuffix(\"xyxz\", \"xz\")", "xy", 0, 's'},
		{"strings.TrimLeft(\"!!Hi!!\", \"!\")", "Hi!!", 0, 's'},
		{"strings.TrimRight(\"!!Hi!!\", \"!\")", "!!Hi", 0, 's'},
		{"strings.Trim(\"!!Hi!!\", \"!\")", "Hi", 0, 's'},
		{"strings.TrimSpace(\"\\t Hi there \\n\")", "Hi there", 0, 's'},
	}
	libRun(ctx, "every function in every place", 1, func(y func(libCall) bool) {
		for _, f := range fs {
			v := strconv.Itoa(f.num)
			typ, cond, wrap := "int", fmt.Sprintf("%s == %d", f.expr, f.num), "itoa(%s)"
			other := "7"
			switch f.kind {
			case 's':
				v, typ, cond, wrap, other = f.str, "string", fmt.Sprintf("%s == %s", f.expr, lit(f.str)), "%s", "\"zz\""
			case 'b':
				typ, wrap, other = "bool", "", "true"
				cond = f.expr
				if f.num == 0 {
					cond = "!" + f.expr
				}
			}
			e := f.expr
			var cs []libCall
			add := func(body, want string) { cs = append(cs, libCall{body, want, "place"}) }
			add("x§ := "+e+"\nprint(x§)\n", v+"\n")
			add("var x§ "+typ+"\nx§ = "+e+"\nprint(x§)\n", v+"\n")
			add("a§, b§ := "+e+", "+e+"\nprint(a§, b§)\n", v+" "+v+"\n")
			add("a§, b§ := "+other+", "+other+"\na§, b§ = b§, "+e+"\nprint(b§)\n", v+"\n")
			add("print("+e+", "+e+", 1)\n", v+" "+v+" 1\n")
			add("if "+cond+" {\nprint(\"y\")\n} else {\nprint(\"n\")\n}\n", "y\n")
			add("if 1 == 2 {\nprint(\"0\")\n} else if "+cond+" {\nprint(\"y\")\n} else {\nprint(\"n\")\n}\n", "y\n")
			add("if "+cond+" && 1 < 2 {\nprint(\"y\")\n}\nif 1 > 2 || "+cond+" {\nprint(\"y\")\n}\n", "y\ny\n")
			add("switch "+e+" {\ncase "+other+":\nprint(\"o\")\ncase "+e+":\nprint(\"y\")\ndefault:\nprint(\"n\")\n}\n", map[bool]string{true: "o\n", false: "y\n"}[f.kind == 'b' && f.num == 1])
			add("switch {\ncase 1 == 2:\nprint(\"o\")\ncase "+cond+":\nprint(\"y\")\n}\n", "y\n")
			add("for i§ := 0; i§ < 3 && "+cond+"; i§++ {\nprint(i§, "+e+")\n}\n", "0 "+v+"\n1 "+v+"\n2 "+v+"\n")
			add("for i§ := 0; i§ < 2; i§++ {\nfor j§ := 0; j§ < 2; j§++ {\nif i§ == j§ {\ncontinue\n}\nx§ := "+e+"\nprint(i§, j§, x§)\n}\n}\n", "0 1 "+v+"\n1 0 "+v+"\n")
			add("l§ := []"+typ+"{"+e+", "+e+"}\nl§[3] = "+e+"\nprint(len(l§), l§[0], l§[1], l§[3])\n", "4 "+v+" "+v+" "+v+"\n")
			add("for i§, e§ := range []"+typ+"{"+e+"} {\nprint(i§, e§)\n}\n", "0 "+v+"\n")
			if wrap != "" {
				add("print(\"[\" + "+fmt.Sprintf(wrap, e)+" + \"][\" + "+fmt.Sprintf(wrap, e)+" + \"]\")\n", "["+v+"]["+v+"]\n")
				add("s§ := \"<\"\ns§ += "+fmt.Sprintf(wrap, e)+"\ns§ += \">\"\nprint(s§, len(s§))\n", fmt.Sprintf("<%s> %d\n", v, len(v)+2))
				add("print(strings.Join([]string{"+fmt.Sprintf(wrap, e)+", \"m\", "+fmt.Sprintf(wrap, e)+"}, \"|\"))\n", v+"|m|"+v+"\n")
				add("print(strings.Replace("+fmt.Sprintf(wrap, e)+", "+fmt.Sprintf(wrap, e)+", \"gone\", 1))\n", "gone\n")
				add("print(strings.HasSuffix(\"q\" + "+fmt.Sprintf(wrap, e)+", strings.TrimSpace("+fmt.Sprintf(wrap, e)+")))\n", "1\n")
			}
			if f.kind == 'i' {
				add("x§ := 10\nx§ += "+e+"\nprint(x§ + "+e+" * 2)\n", strconv.Itoa(10+f.num*3)+"\n")
				if f.num > 0 {
					add("t§ := \"abcdefgh\"\nprint(t§["+e+"], t§[:"+e+"])\n", "abcdefgh"[f.num:f.num+1]+" "+"abcdefgh"[:f.num]+"\n")
				}
			}
			if f.kind == 's' && f.str != "" {
				add("x§ := "+e+"\nfor i§, c§ := range x§ {\nprint(i§, \"[\" + c§ + \"]\")\n}\n", func() string {
					w := ""
					for i, c := range f.str {
						w += fmt.Sprintf("%d [%c]\n", i, c)
					}
					return w
				}())
				add("print(len("+e+"))\nx§ := "+e+"\nprint(x§[0] + x§[len(x§)-1:])\n", fmt.Sprintf("%d\n%s\n", len(f.str), f.str[:1]+f.str[len(f.str)-1:]))
			}
			for _, c := range cs {
				if !y(c) || !y(c) { // once at top level, once within a function
					return
				}
			}
			// user functions which pass the library's results on
			for _, body := range []string{
				"func mine(a " + typ + ") (" + typ + ", " + typ + ") {\nr := " + e + "\nreturn a, r\n}\nx, z := mine(" + e + ")\nprint(x, z)\n",
				"func mine(n int, a " + typ + ") " + typ + " {\nfor i := 0; i < n; i++ {\na = " + e + "\n}\nreturn a\n}\nprint(mine(2, " + other + "), mine(1, " + e + "))\n",
				"func inner() " + typ + " {\nreturn " + e + "\n}\nfunc outer() " + typ + " {\nx := inner()\nreturn x\n}\nprint(outer(), inner())\n",
				"s := " + other + "\nfunc set() {\ns = " + e + "\n}\nset()\nprint(s, s)\n",
			} {
				if !y(libCall{"\x00" + body, v + " " + v + "\n", "place"}) {
					return
				}
			}
		}
	})
}

func seq(a, b int) (l []int) {
	for ; a <= b; a++ {
		l = append(l, a)
	}
	return
}
