package gen

import (
	"fmt"
	"strings"
)

// Size sweeps: every construct that takes a number of parts, with every number
// of parts up to a bound and a few far larger ones. A fixed table, a counter
// that wraps or a name that repeats shows only beyond some size.

func sizes(max int, large ...int) []int {
	var l []int
	for i := 0; i <= max; i++ {
		l = append(l, i)
	}
	return append(l, large...)
}

func rep(n int, f func(i int) string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(f(i))
	}
	return b.String()
}

func list(n int, f func(i int) string) string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, f(i))
	}
	return strings.Join(l, ", ")
}

func joined(n int, sep string, f func(i int) string) string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, f(i))
	}
	return strings.Join(l, sep)
}

// probes are the positions looked at in a construct of n parts.
func probes(n int) []int {
	if n <= 12 {
		return sizes(n)
	}
	return []int{0, 1, n/2 - 1, n / 2, n - 2, n - 1, n}
}

// SizesStmt: statements with n parts.
func SizesStmt(max int, y Yield) bool {
	for _, n := range sizes(max, 64, 100) {
		e := func(tag, body string) bool { return y(Item{Body: body, Tag: "sz-" + tag}) }
		// else-if chain: the taken branch from every position
		chain := func(cond func(i int) string) string {
			return "if " + cond(0) + " {\nprint(\"b\", 0)\n}" + rep(n, func(i int) string {
				return " else if " + cond(i+1) + " {\nprint(\"b\", " + fmt.Sprint(i+1) + ")\n}"
			}) + " else {\nprint(\"e\")\n}\n"
		}
		var b strings.Builder
		b.WriteString("func f§(k int) {\n" + chain(func(i int) string { return fmt.Sprintf("k == %d", i) }) + "}\n")
		b.WriteString("func g§(k int, m int) {\n" + chain(func(i int) string { return fmt.Sprintf("k < %d && k > %d || m == %d", i, i-2, i) }) + "}\n")
		b.WriteString("func h§(k int) {\nswitch k {\n" + rep(n, func(i int) string { return fmt.Sprintf("case %d:\nprint(\"c\", %d)\n", i, i) }) + "default:\nprint(\"d\")\n}\n}\n")
		b.WriteString("func s§(k int) {\nswitch {\n" + rep(n, func(i int) string { return fmt.Sprintf("case k == %d:\nprint(\"t\", %d)\n", i, i) }) + "default:\nprint(\"u\")\n}\n}\n")
		for _, k := range probes(n) {
			fmt.Fprintf(&b, "f§(%d)\ng§(%d, %d)\nh§(%d)\ns§(%d)\n", k, n+9, k, k, k)
		}
		if !e("chain", b.String()) {
			return false
		}
		// the same at top level, with later conditions true as well
		for _, k := range probes(n) {
			if k > 2 && k < n-1 && n > 12 {
				continue
			}
			bd := fmt.Sprintf("k§ := %d\n", k) + chain(func(i int) string { return fmt.Sprintf("k§ <= %d", i) }) + "switch k§ {\n" + rep(n, func(i int) string { return fmt.Sprintf("case %d:\nprint(%d)\n", i, i) }) + "}\nprint(\"x\")\n"
			if !e("chaintop", bd) {
				return false
			}
		}
		if n == 0 {
			continue
		}
		// n statements of a kind one after another
		for _, s := range []string{
			"for i := 0; i < 2; i++ {\nprint(%d, i)\n}\n", "for i, c := range \"ab\" {\nprint(%d, i, c)\n}\n", "if k§ > %d {\nprint(\"g\", %[1]d)\n} else {\nprint(\"l\", %[1]d)\n}\n",
			"switch k§ {\ncase %d:\nprint(\"s\", %[1]d)\ndefault:\nprint(\"d\", %[1]d)\n}\n", "w%d§ := %[1]d\nprint(w%[1]d§, k§)\n", "k§ += %d\nprint(k§)\n",
			"for {\nk§++\nprint(%d, k§)\nbreak\n}\n", "for k§ < %d {\nk§++\nif k§ == 3 {\ncontinue\n}\nprint(%[1]d, k§)\n}\n",
		} {
			body := rep(n, func(i int) string { return strings.NewReplacer("%d", fmt.Sprint(i), "%[1]d", fmt.Sprint(i)).Replace(s) })
			if !e("seq", "k§ := 2\n"+body+"print(k§)\n") {
				return false
			}
			if !e("seqf", "k§ := 2\nfunc f§() {\n"+body+"}\nf§()\nf§()\nprint(k§)\n") {
				return false
			}
		}
		// n variables that keep their values
		if !e("vars", rep(n, func(i int) string {
			return fmt.Sprintf("a%d§ := %d\nb%d§ := \"s%d\"\nc%d§ := %v\n", i, i*3, i, i, i, i%2 == 0)
		})+
			rep(n, func(i int) string { return fmt.Sprintf("print(a%d§, b%d§, c%d§)\n", i, i, i) })) {
			return false
		}
		if !e("fvars", "func f§() {\n"+rep(n, func(i int) string {
			return fmt.Sprintf("a%d := %d\nb%d := \"s%d\"\nc%d := %v\n", i, i*3, i, i, i, i%2 == 0)
		})+
			rep(n, func(i int) string { return fmt.Sprintf("print(a%d, b%d, c%d)\n", i, i, i) })+"}\nf§()\n") {
			return false
		}
		// values printed together
		if !e("print", "k§ := 7\nt§ := \"x y\"\nprint("+list(n, func(i int) string {
			return []string{"k§", fmt.Sprint(i), "t§", "true", "\"q\"", "k§ + " + fmt.Sprint(i)}[i%6]
		})+")\n") {
			return false
		}
		// loops that run n times, nested loops of n iterations in total
		if !e("iter", fmt.Sprintf("k§ := 0\nfor i := 0; i < %d; i++ {\nif i %% 3 == 1 {\ncontinue\n}\nk§ += i\n}\nprint(k§)\nfor j, c := range \"%s\" {\nk§ += j\nif c == \"b\" {\nprint(j)\n}\n}\nprint(k§)\nfor k§ > %d {\nk§ -= 5\n}\nprint(k§)\n", n, strings.Repeat("ab", n), -n)) {
			return false
		}
		// nesting of depth n
		if n <= 40 {
			nest := func(open, body, cl string) string {
				return rep(n, func(i int) string { return strings.ReplaceAll(open, "%d", fmt.Sprint(i)) }) + body + rep(n, func(i int) string {
					return strings.ReplaceAll(cl, "%d", fmt.Sprint(n-1-i))
				})
			}
			for _, q := range [][2]string{{"if k§ < %d {\nprint(\"i\", %d)\n} else {\n", "print(\"o\", %d)\n}\n"}, {"if k§ != %d {\n", "} else {\nprint(\"z\", %d)\n}\n"},
				{"switch k§ {\ncase %d:\nprint(\"c\", %d)\ndefault:\n", "print(\"o\", %d)\n}\n"}, {"for i%d := 0; i%d < 1; i%d++ {\n", "print(\"f\", i%d)\n}\n"},
				{"for i%d := 0; i%d < 3; i%d++ {\n", "if i%d >= 0 {\nbreak\n}\nprint(\"no\")\n}\n"}, {"for {\n", "print(\"w\", %d)\nbreak\n}\n"}, {"for i%d := range \"a\" {\n", "print(\"r\", i%d)\n}\n"},
				{"for k§ < 99 {\n", "k§ += 50\nprint(\"k\", k§)\n}\n"},
			} {
				bd := nest(q[0], "print(\"in\")\n", q[1])
				if !e("nest", "k§ := 33\n"+bd) || !e("nestf", "k§ := 33\nfunc f§() {\n"+bd+"}\nf§()\nprint(k§)\n") {
					return false
				}
			}
		}
	}
	return true
}

// SizesExpr: expressions with n operators or n levels.
func SizesExpr(max int, y Yield) bool {
	pre := "var r int\nvar p bool\nvar s string\nfunc idi(v int) int {\nreturn v\n}\nfunc ids(v string) string {\nreturn v\n}\nx := 5\nw := 3\nt := true\nf := false\nu := \"u\"\n"
	for _, n := range sizes(max, 64, 100) {
		if n == 0 {
			continue
		}
		e := func(b string) bool { return y(Item{Pre: pre, Body: b, Tag: "sz-expr"}) }
		iv := func(i int) string { return []string{"x", "w", fmt.Sprint(i), "2"}[i%4] }
		bv := func(c string, k int) func(i int) string {
			return func(i int) string {
				if i == k {
					return c
				}
				return map[string]string{"t": "f", "f": "t"}[c]
			}
		}
		var exI, exB, exS []string
		exI = append(exI, joined(n+1, " + ", iv), joined(n+1, " - ", iv), "1000 - "+joined(n, " - ", iv))
		ops := []string{" + ", " - ", " * ", " / ", " % "}
		for o := range ops {
			var b strings.Builder
			b.WriteString("x")
			for i := 0; i < n; i++ {
				b.WriteString(ops[(i+o)%5] + []string{"w", "2", "x", "1"}[(i+o)%4])
			}
			if n <= 40 {
				exI = append(exI, b.String())
			}
		}
		if n <= 40 {
			exI = append(exI, strings.Repeat("(", n)+"x"+strings.Repeat(")", n), strings.Repeat("(", n)+"x"+strings.Repeat(" + w)", n), strings.Repeat("(w - ", n)+"x"+strings.Repeat(")", n),
				strings.Repeat("idi(", n)+"x"+strings.Repeat(")", n), strings.Repeat("idi(w - ", n)+"x"+strings.Repeat(")", n), joined(n, " + ", func(i int) string { return fmt.Sprintf("idi(%d)", i) }))
			exB = append(exB, strings.Repeat("!", n)+"t", strings.Repeat("!(", n)+"f"+strings.Repeat(")", n), strings.Repeat("(t && ", n)+"f"+strings.Repeat(")", n), strings.Repeat("(f || ", n)+"t"+strings.Repeat(")", n), "t"+strings.Repeat(" == f", n))
			exS = append(exS, strings.Repeat("(u + ", n)+"\"k\""+strings.Repeat(")", n), strings.Repeat("ids(", n)+"u"+strings.Repeat(")", n), strings.Repeat("ids(u + ", n)+"u"+strings.Repeat(")", n))
		}
		for _, k := range probes(n) {
			exB = append(exB, joined(n+1, " && ", bv("f", k)), joined(n+1, " || ", bv("t", k)), joined(n+1, " || ", func(i int) string { return fmt.Sprintf("x == %d && w == %d", i-k, i) }))
		}
		exS = append(exS, joined(n+1, " + ", func(i int) string { return []string{"u", fmt.Sprintf("\"%d\"", i), "\" \"", "ids(u)", "itoa(x)"}[i%5] }))
		for _, x := range exI {
			if !e("r = " + x + "\nprint(r)\nif " + x + " == r {\nprint(1)\n}\nr += " + x + "\nprint(r)\n") {
				return false
			}
		}
		for _, x := range exB {
			if !e("p = " + x + "\nprint(p)\nif " + x + " {\nprint(1)\n} else {\nprint(0)\n}\n") {
				return false
			}
		}
		for _, x := range exS {
			if !e("s = " + x + "\nprint(s)\nprint(len(" + x + "), " + x + " == s)\n") {
				return false
			}
		}
		lit := rep(n, func(i int) string { return string("ab c1"[i%5]) })
		if !e("s = \""+lit+"\"\nprint(s, len(s))\ns += \""+lit+"\"\nprint(s, len(s), s == \""+lit+lit+"\")\n") || !e("s = \"\"\nfor i := 0; i < "+fmt.Sprint(n)+"; i++ {\ns += itoa(i)\n}\nprint(s, len(s))\n") {
			return false
		}
	}
	return true
}

// SizesFn: n parameters, results, targets, functions, calls.
func SizesFn(max int, y Yield) bool {
	val := func(i, salt int) string {
		switch i % 3 {
		case 0:
			return fmt.Sprint(i*11 + salt)
		case 1:
			return fmt.Sprintf("\"s%d %d\"", i, salt)
		}
		return []string{"true", "false"}[(i+salt)/3%2]
	}
	for _, n := range sizes(max, 64, 100) {
		if n == 0 {
			continue
		}
		e := func(tag, body string) bool { return y(Item{Body: body, Tag: "sz-" + tag}) }
		p := func(i int) string { return fmt.Sprintf("p%d", i) }
		t := func(i int) string { return fmt.Sprintf("t%d§", i) }
		z := func(i int) string { return fmt.Sprintf("z%d", i) }
		ty := func(i int) string { return tyName(i) }
		wrap := func(l string) string {
			if n == 1 {
				return l
			}
			return "(" + l + ")"
		}
		f := "func f§(" + list(n, func(i int) string { return p(i) + " " + ty(i) }) + ") " + wrap(list(n, ty)) + " {\nprint(" + list(n, p) + ")\nreturn " + list(n, p) + "\n}\n"
		c := func(s int) string { return "f§(" + list(n, func(i int) string { return val(i, s) }) + ")" }
		b := f + list(n, t) + " := " + c(1) + "\nprint(" + list(n, t) + ")\n" + list(n, t) + " = " + c(2) + "\nprint(" + list(n, t) + ")\n" + c(3) + "\n"
		b += "func g§() " + wrap(list(n, ty)) + " {\n" + list(n, z) + " := " + c(4) + "\n" + list(n, t) + " = " + c(5) + "\nreturn " + list(n, z) + "\n}\n"
		b += list(n, func(i int) string { return "y" + t(i) }) + " := g§()\nprint(" + list(n, func(i int) string { return "y" + t(i) }) + ")\nprint(" + list(n, t) + ")\n"
		if !e("arity", b) {
			return false
		}
		// results in the reverse order and from the other end
		b = "func f§(" + list(n, func(i int) string { return p(i) + " int" }) + ") " + wrap(list(n, func(int) string { return "int" })) + " {\nreturn " + list(n, func(i int) string { return p(n - 1 - i) }) + "\n}\n"
		b += list(n, t) + " := f§(" + list(n, func(i int) string { return fmt.Sprint(i * 7) }) + ")\nprint(" + list(n, t) + ")\n" + list(n, t) + " = f§(" + list(n, t) + ")\nprint(" + list(n, t) + ")\n"
		if !e("rev", b) {
			return false
		}
		// n definitions and assignments at once, in every mutual order of a small kind
		def := list(n, t) + " := " + list(n, func(i int) string { return fmt.Sprint(i + 1) }) + "\nprint(" + list(n, t) + ")\n"
		for _, perm := range []func(i int) int{func(i int) int { return (i + 1) % n }, func(i int) int { return (i + n - 1) % n }, func(i int) int { return n - 1 - i }, func(i int) int { return i ^ 1 }, func(i int) int { return 0 }, func(i int) int { return n - 1 }} {
			as := list(n, t) + " = " + list(n, func(i int) string { return t(perm(i) % n) }) + "\nprint(" + list(n, t) + ")\n"
			if !e("sim", def+as+as) {
				return false
			}
			lz := strings.ReplaceAll(def+as+as, "§", "")
			if !e("simf", "func f§() {\n"+lz+"}\nf§()\n") {
				return false
			}
		}
		if !e("vardef", "var "+list(n, t)+" int\nprint("+list(n, t)+")\n"+list(n, t)+" = "+list(n, func(i int) string { return fmt.Sprint(i) })+"\nprint("+list(n, t)+")\nvar "+list(n, func(i int) string { return "w" + t(i) })+" string = "+list(n, func(i int) string { return fmt.Sprintf("\"%d\"", i) })+"\nprint("+list(n, func(i int) string { return "w" + t(i) })+")\n") {
			return false
		}
		// n functions, each with the same local names, each calling the one before
		b = "func f0§(a int) int {\nv := a + 1\nreturn v\n}\n" + rep(n, func(i int) string {
			return fmt.Sprintf("func f%d§(a int) int {\nv := a * 2\nw := f%d§(a + %d)\nprint(a, v, w)\nreturn v + w\n}\n", i+1, i, i)
		}) + fmt.Sprintf("a§ := 4\nv§ := f%d§(a§)\nprint(a§, v§)\n", n)
		if n <= 40 && !e("callchain", b) {
			return false
		}
		b = rep(n, func(i int) string {
			return fmt.Sprintf("func f%d§(a int, b string) (string, int) {\nv := a + %d\nreturn b + \"%d\", v\n}\n", i, i, i)
		}) + "b§ := \"\"\na§ := 0\n" + rep(n, func(i int) string { return fmt.Sprintf("b§, a§ = f%d§(a§, b§)\n", i) }) + "print(a§, b§)\n"
		if !e("funcs", b) {
			return false
		}
		// n calls in one expression or argument list
		if n <= 40 {
			b = "c§ := 0\nfunc n§(v int) int {\nc§++\nprint(\"n\", v, c§)\nreturn v + c§\n}\n"
			b += "print(" + list(n, func(i int) string { return fmt.Sprintf("n§(%d)", i) }) + ")\n" + list(n, t) + " := " + list(n, func(i int) string { return fmt.Sprintf("n§(%d)", i) }) + "\nprint(" + list(n, t) + ")\n" + list(n, t) + " = " + list(n, func(i int) string { return fmt.Sprintf("n§(%d)", n-i) }) + "\nprint(" + list(n, t) + ")\n"
			b += "v§ := []int{" + list(n, func(i int) string { return fmt.Sprintf("n§(%d)", i) }) + "}\nprint(len(v§), v§[0], v§[" + fmt.Sprint(n-1) + "])\n"
			b += "func m§(" + list(n, func(i int) string { return p(i) + " int" }) + ") int {\nreturn " + joined(n, " - ", p) + "\n}\nprint(m§(" + list(n, func(i int) string { return fmt.Sprintf("n§(%d)", i) }) + "))\n"
			if !e("calls", b) {
				return false
			}
		}
	}
	return true
}

// SizesSlice: lengths, gaps, copies, substrings, numbers of slices.
func SizesSlice(max int, y Yield) bool {
	show := func(v string, n int) string {
		return fmt.Sprintf("print(len(%s))\nfor i, e := range %s {\nprint(i, e)\n}\n", v, v)
	}
	for _, n := range sizes(max, 64, 100, 130) {
		e := func(tag, body string) bool { return y(Item{Body: body, Tag: "sz-" + tag}) }
		for _, q := range []struct {
			t string
			v func(i int) string
		}{{"int", func(i int) string { return fmt.Sprint(i*3 + 1) }}, {"string", func(i int) string { return fmt.Sprintf("\"s %d\"", i) }}, {"bool", func(i int) string { return fmt.Sprint(i%3 == 0) }}} {
			lit := "v§ := []" + q.t + "{" + list(n, q.v) + "}\n"
			if !e("lit", lit+show("v§", n)) {
				return false
			}
			// a write past the end leaves defaults between, at every distance
			if !e("gap", "v§ := []"+q.t+"{}\nv§["+fmt.Sprint(n)+"] = "+q.v(3)+"\n"+show("v§", n)+"v§["+fmt.Sprint(2*n+1)+"] = "+q.v(6)+"\n"+show("v§", n)) {
				return false
			}
			if !e("gap2", "v§ := []"+q.t+"{"+q.v(1)+", "+q.v(2)+"}\nw§ := v§\nw§["+fmt.Sprint(n)+"] = "+q.v(3)+"\n"+show("v§", n)) {
				return false
			}
			if !e("append", "v§ := []"+q.t+"{}\n"+fmt.Sprintf("for i := 0; i < %d; i++ {\nv§[len(v§)] = %s\n}\n", n, q.v(3))+"print(len(v§))\n"+rep(n, func(i int) string { return fmt.Sprintf("v§[%d] = %s\n", i, q.v(i)) })+show("v§", n)) {
				return false
			}
			if !e("copy", lit+"var c§ []"+q.t+"\nprint(copy(c§, v§))\n"+show("c§", n)+"d§ := []"+q.t+"{"+list(3, q.v)+"}\nprint(copy(d§, v§))\n"+show("d§", n)+"print(copy(v§, d§))\n"+show("v§", n)) {
				return false
			}
			if !e("pass", lit+"func f§(a []"+q.t+", k int) []"+q.t+" {\na[k] = "+q.v(5)+"\nb := []"+q.t+"{}\nprint(copy(b, a), len(a))\nreturn b\n}\nr§ := f§(v§, "+fmt.Sprint(n)+")\n"+show("v§", n)+show("r§", n)) {
				return false
			}
		}
		if n > 0 {
			// n slices alive together
			if !e("many", rep(n, func(i int) string { return fmt.Sprintf("a%d§ := []int{%d, %d}\n", i, i, i+1) })+rep(n, func(i int) string { return fmt.Sprintf("a%d§[2] = %d\n", i, i*2) })+
				rep(n, func(i int) string {
					return fmt.Sprintf("print(a%d§[0], a%d§[1], a%d§[2], len(a%d§))\n", i, i, i, i)
				})) {
				return false
			}
			if !e("manyloop", fmt.Sprintf("k§ := []int{1}\nfunc m§(a int) []int {\nv := []int{a, a + 1}\nreturn v\n}\nfor i := 0; i < %d; i++ {\nw := m§(i)\nw[1] = w[1] + k§[0]\nk§[len(k§)] = w[1]\n}\n", n)+show("k§", n)) {
				return false
			}
			if !e("alias", "a0§ := []int{7}\n"+rep(n, func(i int) string { return fmt.Sprintf("a%d§ := a%d§\n", i+1, i) })+fmt.Sprintf("a%d§[%d] = 5\nprint(a0§[0], a0§[%d], len(a0§))\n", n, n, n)) {
				return false
			}
		}
		s := rep(n, func(i int) string { return string("abc d"[i%5]) })
		var b strings.Builder
		fmt.Fprintf(&b, "s§ := \"%s\"\nprint(len(s§), len(\"%s\"), \"[\" + s§ + \"]\")\n", s, s)
		if n > 0 {
			for _, i := range probes(n - 1) {
				fmt.Fprintf(&b, "print(\"[\" + s§[%d] + \"]\", \"[\" + s§[%d:] + \"]\", \"[\" + s§[:%d] + \"]\", \"[\" + s§[%d:%d] + \"]\", \"[\" + s§[%d:%d] + \"]\")\n", i, i, i, i, n, i/2, i)
			}
			fmt.Fprintf(&b, "for i, c := range s§ {\nprint(i, \"[\" + c + \"]\")\n}\n")
		}
		if !e("str", b.String()) {
			return false
		}
	}
	return true
}

// SizesEval: n operands, conditions, arguments with effects.
func SizesEval(max int, y Yield) bool {
	pre := "func ti(n int) int {\nprint(\"i\", n)\nreturn n\n}\nfunc tb(n int, v bool) bool {\nprint(\"b\", n)\nreturn v\n}\nfunc ts(n int) string {\nprint(\"s\", n)\nreturn itoa(n)\n}\n"
	for _, n := range sizes(max, 64, 100) {
		if n == 0 {
			continue
		}
		e := func(b string) bool { return y(Item{Pre: pre, Body: b, Tag: "sz-eval"}) }
		ti := func(i int) string { return fmt.Sprintf("ti(%d)", i) }
		ts := func(i int) string { return fmt.Sprintf("ts(%d)", i) }
		t := func(i int) string { return fmt.Sprintf("t%d§", i) }
		for _, b := range []string{
			"print(" + joined(n, " + ", ti) + ")\n", "print(" + joined(n, " + ", ts) + ")\n", "print(" + list(n, ti) + ")\n", list(n, t) + " := " + list(n, ti) + "\n" + list(n, t) + " = " + list(n, ts)[:0] + list(n, ti) + "\nprint(" + list(n, t) + ")\n",
			"v§ := []string{" + list(n, ts) + "}\nprint(len(v§))\n", "func f§(" + list(n, func(i int) string { return fmt.Sprintf("p%d int", i) }) + ") int {\nprint(\"f\")\nreturn p0\n}\nprint(f§(" + list(n, ti) + "))\n",
			"v§ := []int{1}\n" + rep(n, func(i int) string { return fmt.Sprintf("v§[ti(%d)] = ti(%d)\n", i, 100+i) }) + "print(len(v§))\n",
		} {
			if !e(b) {
				return false
			}
		}
		for _, k := range probes(n) {
			tb := func(hit bool) func(i int) string {
				return func(i int) string { return fmt.Sprintf("tb(%d, %v)", i, (i == k) == hit) }
			}
			for _, b := range []string{
				"print(" + joined(n, " && ", tb(false)) + ")\n", "print(" + joined(n, " || ", tb(true)) + ")\n",
				"if " + tb(true)(0) + " {\nprint(\"x\", 0)\n}" + rep(n-1, func(i int) string {
					return " else if " + tb(true)(i+1) + " {\nprint(\"x\", " + fmt.Sprint(i+1) + ")\n}"
				}) + " else {\nprint(\"el\")\n}\n",
				"switch ti(" + fmt.Sprint(k) + ") {\n" + rep(n, func(i int) string { return fmt.Sprintf("case ti(%d):\nprint(\"c\", %d)\n", i, i) }) + "default:\nprint(\"d\")\n}\n",
				"switch {\n" + rep(n, func(i int) string { return "case " + tb(true)(i) + ":\nprint(\"c\", " + fmt.Sprint(i) + ")\n" }) + "}\nprint(\"end\")\n",
			} {
				if !e(b) {
					return false
				}
			}
		}
	}
	return true
}

// loopForm opens a loop that runs twice; v names its variable, g a guard counter.
func loopForm(kind int, v string) (open, cl string) {
	switch kind {
	case 0:
		return fmt.Sprintf("for %s := 0; %s < 2; %s++ {\n", v, v, v), "}\n"
	case 1:
		return fmt.Sprintf("%s := 0\nfor %s < 2 {\n%s++\n", v, v, v), "}\n"
	case 2:
		return fmt.Sprintf("%s := 0\nfor {\n%s++\nif %s > 2 {\nbreak\n}\n", v, v, v), "}\n"
	case 3:
		return fmt.Sprintf("for %s, _c%s := range \"xy\" {\nprint(_c%s)\n", v, v, v), "}\n"
	case 4:
		return fmt.Sprintf("for %s := 0; %s < 3; %s++ {\nif %s == 1 {\ncontinue\n}\n", v, v, v, v), "}\n"
	case 5:
		return fmt.Sprintf("for %s := 0; %s < 2; %s++ {\n", v, v, v), "break\n}\n"
	case 6:
		return fmt.Sprintf("for %s := 5; %s < 2; %s++ {\n", v, v, v), "}\n"
	}
	return fmt.Sprintf("%s := 0\nfor ; %s < 2; %s++ {\n", v, v, v), "}\n"
}

func loopNest(kinds []int, pfx, inner string) string {
	if len(kinds) == 0 {
		return inner
	}
	v := fmt.Sprintf("%s%d", pfx, len(kinds))
	o, c := loopForm(kinds[0], v)
	return o + loopNest(kinds[1:], pfx, inner) + "print(\"" + pfx + "\", " + v + ")\n" + c
}

func kindSeqs(n int, k []int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, r := range kindSeqs(n-1, k) {
		for _, i := range k {
			out = append(out, append(append([]int{}, r...), i))
		}
	}
	return out
}

// LoopCalls: a nest of loops whose innermost body calls a function that runs a nest of its own.
func LoopCalls(from, outer, inner int, kinds []int, y Yield) bool {
	for d := 1; d <= outer; d++ {
		for e := 1; e <= inner; e++ {
			if d+e < from {
				continue
			}
			for _, ko := range kindSeqs(d, kinds) {
				for _, ki := range kindSeqs(e, kinds) {
					f := "func f§() {\n" + loopNest(ki, "i", "print(\"in\")\n") + "}\n"
					g := "func f§() int {\n" + loopNest(ki, "i", "if i1 > 0 {\nreturn 7\n}\n") + "return 8\n}\n"
					for _, b := range []string{
						f + loopNest(ko, "o", "f§()\n"),
						f + "func g§() {\n" + loopNest(ko, "i", "f§()\n") + "}\ng§()\n",
						g + loopNest(ko, "o", "print(f§())\n"),
					} {
						if d == outer && e == inner && d+e > 4 && b != f+loopNest(ko, "o", "f§()\n") {
							continue
						}
						if strings.Contains(b, "print(f§())") || !strings.Contains(b, "g§") {
							// loops with helper variables at top level need their own names
							b = uniqueTop(b)
						}
						if !y(Item{Body: b, Tag: "loopcall"}) {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

func uniqueTop(b string) string {
	for i := 1; i < 5; i++ {
		b = strings.ReplaceAll(b, fmt.Sprintf("_co%d", i), fmt.Sprintf("co%d§", i))
		b = strings.ReplaceAll(b, fmt.Sprintf("o%d ", i), fmt.Sprintf("o%d§ ", i))
		b = strings.ReplaceAll(b, fmt.Sprintf("o%d)", i), fmt.Sprintf("o%d§)", i))
		b = strings.ReplaceAll(b, fmt.Sprintf("o%d+", i), fmt.Sprintf("o%d§+", i))
		b = strings.ReplaceAll(b, fmt.Sprintf("o%d,", i), fmt.Sprintf("o%d§,", i))
	}
	return b
}
