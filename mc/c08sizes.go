package main

import (
	"fmt"
	"strconv"
	"strings"

	"verifmc/h"
)

// Size sweeps of C08: long values, values with many special characters, values
// as every element of long lists. An escape that handles the first few
// occurrences, a limit on the length or a list whose later elements are treated
// differently shows only here.

// leanPaths moves the value of the operand VV along every kind of path, without loops.
func leanPaths(v, u string, n int) string {
	return strings.NewReplacer("VV", v, "§", u, "KK", fmt.Sprint(n/2)).Replace(`print(VV)
w§ := VV
w§ += VV
print("[" + w§ + "]", len(w§), len(VV), VV == w§, VV + VV == w§, w§ != VV)
print("[" + id(VV) + "]", "[" + VV[KK:] + "]", "[" + VV[:KK] + "]")
s§ := []string{"k", VV}
s§[3] = VV
print("[" + s§[1] + "]", "[" + s§[3] + "]")
a§, b§ := VV, w§
a§, b§ = b§, a§
print(a§ == w§, b§ == VV)
c§, d§ := pair(VV, "m", VV)
print("[" + c§ + "]", "[" + d§ + "]")
switch VV {
case "no":
print("no")
case b§:
print("same")
}
write("out§", VV)
write("out§", VV, true)
print("[" + read("out§") + "]")
`)
}

func longValues(ctx *h.Ctx) []string {
	chars := strings.Split("\" $ ` \\ * ' ; & ( ! % # - ~ [ { |", " ")
	chars = append(chars, " ", "\n", "\t", "$x", "${x}", "$(touch canary)", "`touch canary`", "\\n", "\\\"", "%s", "\"'")
	ns := []int{3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 31, 32, 33, 40, 64, 65, 100, 128, 129, 200, 256, 300, 512, 1000, 1030}
	if ctx.Thorough() {
		ns = nil
		for n := 3; n <= 140; n++ {
			ns = append(ns, n)
		}
		ns = append(ns, 200, 255, 256, 257, 300, 400, 511, 512, 513, 800, 1000, 1023, 1024, 1025, 2000, 4100)
	}
	var l []string
	for _, c := range chars {
		for _, n := range ns {
			k := n
			if len(c) > 1 && n > 300 {
				continue
			}
			l = append(l, strings.Repeat(c, k), strings.Repeat(c+"a", k))
			// one special character before, in and behind a long text
			a := strings.Repeat("ab", k)
			l = append(l, c+a, a+c, a+c+a)
		}
	}
	return l
}

// everyElement are programs with a list of n parts whose elements are special values.
func everyElement(n int, val func(i int) string) string {
	lst := func(f func(i int) string) string {
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, f(i))
		}
		return strings.Join(l, ", ")
	}
	each := func(f func(i int) string) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(f(i))
		}
		return b.String()
	}
	wrap := func(s string) string {
		if n == 1 {
			return s
		}
		return "(" + s + ")"
	}
	nm := func(p string) func(int) string { return func(i int) string { return fmt.Sprintf("%s%d", p, i) } }
	show := func(p string) string {
		return each(func(i int) string { return fmt.Sprintf("print(\"[\" + %s%d + \"]\")\n", p, i) })
	}
	b := "func f(" + lst(func(i int) string { return fmt.Sprintf("p%d string", i) }) + ") " + wrap(lst(func(int) string { return "string" })) + " {\nprint(" + lst(nm("p")) + ")\n"
	b += each(func(i int) string { return fmt.Sprintf("print(\"[\" + p%d + \"]\", len(p%d))\n", i, i) })
	b += "return " + lst(func(i int) string { return fmt.Sprintf("p%d", n-1-i) }) + "\n}\n"
	b += "func g() " + wrap(lst(func(int) string { return "string" })) + " {\nreturn " + lst(val) + "\n}\n"
	b += lst(nm("a")) + " := f(" + lst(val) + ")\n" + show("a")
	b += lst(nm("b")) + " := f(" + lst(nm("a")) + ")\n" + show("b")
	b += lst(nm("a")) + " = g()\n" + show("a")
	b += lst(nm("c")) + " := " + lst(val) + "\n" + show("c")
	b += lst(nm("c")) + " = " + lst(func(i int) string { return fmt.Sprintf("c%d + \"x\"", n-1-i) }) + "\n" + show("c")
	b += "var " + lst(nm("d")) + " string = " + lst(val) + "\n" + show("d")
	b += "print(" + lst(val) + ")\nprint(" + lst(nm("d")) + ")\n"
	b += "s := []string{" + lst(val) + "}\nfor i, e := range s {\nprint(i, \"[\" + e + \"]\")\n}\nt := []string{" + lst(nm("d")) + "}\nfor i, e := range t {\nprint(i, \"[\" + e + \"]\", e == s[i])\n}\n"
	b += "u := []string{}\n" + each(func(i int) string { return fmt.Sprintf("u[%d] = %s\n", 2*i, val(i)) }) + "for i, e := range u {\nprint(i, \"[\" + e + \"]\")\n}\nprint(copy(u, s), u[0], u[" + fmt.Sprint(n-1) + "])\n"
	var cat []string
	for i := 0; i < n; i++ {
		cat = append(cat, val(i), fmt.Sprintf("d%d", i))
	}
	b += "print(" + strings.Join(cat, " + ") + ")\n"
	b += "func k(v string) string {\nswitch v {\n" + each(func(i int) string { return "case " + val(i) + ":\nreturn \"c" + fmt.Sprint(i) + "\"\n" }) + "default:\nreturn \"d\"\n}\nreturn \"e\"\n}\n"
	b += "func m(v string) string {\nr := \"no\"\nif v == \"x\" {\nr = \"x\"\n}" + each(func(i int) string { return " else if v == " + val(i) + " {\nr = \"e" + fmt.Sprint(i) + "\"\n}" }) + "\nreturn r\n}\n"
	for _, i := range []int{0, 1, n / 2, n - 2, n - 1} {
		if i >= 0 && i < n {
			b += "print(k(" + val(i) + "), m(" + val(i) + "), k(d" + fmt.Sprint(i) + "), m(d" + fmt.Sprint(i) + "))\n"
		}
	}
	b += each(func(i int) string { return "write(\"o\", " + val(i) + ", true)\n" }) + "print(read(\"o\"))\n"
	b += each(func(i int) string { return "write(\"o\", read(\"o\") + " + val(i) + ")\n" }) + "print(read(\"o\"))\n"
	return b
}

// deepData passes a value through n levels of calls, blocks and groups.
func deepData(n int, v string) string {
	var b strings.Builder
	b.WriteString("func f0(s string) string {\nprint(\"[\" + s + \"]\")\nreturn s\n}\n")
	for i := 1; i <= n; i++ {
		fmt.Fprintf(&b, "func f%d(s string) string {\nl := f%d(s)\nif l == s {\nreturn l\n}\nreturn \"bad\"\n}\n", i, i-1)
	}
	fmt.Fprintf(&b, "v := %s\nprint(f%d(v), f%d(%s))\n", v, n, n, v)
	for i := 0; i < n; i++ {
		b.WriteString([]string{"if v == " + v + " {\n", "for i" + fmt.Sprint(i) + " := 0; i" + fmt.Sprint(i) + " < 1; i" + fmt.Sprint(i) + "++ {\n", "switch v {\ncase " + v + ":\n"}[i%3])
	}
	fmt.Fprintf(&b, "print(\"[\" + %s + \"]\", \"[\" + v + \"]\", %s%s%s == v, %sv%s)\nwrite(\"o\", %s)\nv += %s\n", v, strings.Repeat("(", n), v, strings.Repeat(")", n), strings.Repeat("id(", n), strings.Repeat(")", n), v, v)
	b.WriteString(strings.Repeat("}\n", n))
	b.WriteString("print(v, read(\"o\"))\n")
	return b.String()
}

func c08sizes(ctx *h.Ctx) {
	danger := []string{"$HOME", "\"", "`touch canary`", "\\", "*", " ", "$(touch canary)", "'", "a  b", "", "-n", "%s", "\\n", "$1", ";touch canary", "\n", "x'y\"z", "a\\", "&", "~", "!!", "#"}
	sysRun(ctx, "long values and many special characters", func(y func(sysCase) bool) {
		for _, s := range longValues(ctx) {
			q := strconv.Quote(s)
			if len(s) <= 140 {
				if !y(sysCase{Name: "long-literal", Text: dataFuncs + leanPaths(q, "q", 0)[:0] + "v := " + q + "\n" + leanPaths("v", "q", len(s)) + "print(" + q + ", \"[\" + " + q + " + \"]\", v == " + q + ", id(" + q + "))\nz := []string{" + q + ", " + q + "}\nprint(z[0] == v, z[1])\nwrite(\"l\", " + q + ")\nprint(read(\"l\"))\n", Files: withBait(nil)}) {
					return
				}
				if !strings.ContainsAny(s, "`") && !y(sysCase{Name: "long-raw", Text: dataFuncs + "v := `" + s + "`\nprint(v, len(v), v == " + q + ")\nprint(`" + s + "`, id(`" + s + "`))\n", Files: withBait(nil)}) {
					return
				}
			} else if !y(sysCase{Name: "longer-literal", Text: dataFuncs + "v := " + q + "\nprint(v, len(v), \"[\" + v[" + fmt.Sprint(len(s)-3) + ":] + \"]\")\nprint(" + q + ", id(" + q + ") == v)\nz := []string{" + q + "}\nz[1] = z[0] + v\nprint(z[0] == v, z[1])\nwrite(\"l\", " + q + ")\nprint(read(\"l\"))\n", Files: withBait(nil)}) {
				return
			}
			if len(s) > 20 && (ctx.Thorough() || len(s)%7 == 0 || len(s) > 500) {
				if !y(sysCase{Name: "long-file", Text: dataFuncs + "func run(v string) {\n" + leanPaths("v", "l", 6) + "}\nv := read(\"in\")\nrun(v)\n" + leanPaths("v", "t", 9), Files: withBait(map[string]string{"in": s + "\n"})}) {
					return
				}
			}
		}
	})
	max := 20
	if ctx.Thorough() {
		max = 40
	}
	sysRun(ctx, "special values as every element of lists", func(y func(sysCase) bool) {
		ns := []int{32, 64, 100}
		for n := max; n > 0; n-- {
			ns = append(ns, n)
		}
		for _, n := range ns {
			for salt := 0; salt < len(danger); salt++ {
				if n > 32 && salt > 0 && !ctx.Thorough() || !ctx.Thorough() && n > 1 && salt%4 != n%4 {
					continue
				}
				val := func(i int) string { return strconv.Quote(danger[(i+salt)%len(danger)]) }
				if !y(sysCase{Name: "element", Text: everyElement(n, val), Files: withBait(nil)}) {
					return
				}
			}
		}
	})
	sysRun(ctx, "special values through many levels", func(y func(sysCase) bool) {
		for _, n := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 20, 30} {
			for _, d := range danger {
				if d == "" {
					continue
				}
				if !y(sysCase{Name: "deep", Text: dataFuncs + deepData(n, strconv.Quote(d)), Files: withBait(nil)}) {
					return
				}
			}
		}
	})
}
