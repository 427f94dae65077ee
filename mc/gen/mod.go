package gen

import (
	"fmt"
	"sort"
	"strings"
)

// Families of multi-file programs (C09).

func imp(alias, path string) string { return fmt.Sprintf("import %s %q\n", alias, path) }

func impGroup(l []string) string {
	if len(l) == 0 {
		return ""
	}
	return "import (\n" + strings.Join(l, "\n") + "\n)\n"
}

// Graphs enumerates all acyclic import graphs over main and n files in which
// every file is reached, with every combination of file kinds.
func Graphs(n int, full bool, y Yield) bool {
	names := []string{"main", "a", "b", "c", "d"}[:n+1]
	var pairs [][2]int
	for i := 0; i <= n; i++ {
		for j := i + 1; j <= n; j++ {
			pairs = append(pairs, [2]int{i, j})
		}
	}
	kinds := []string{"funcs", "globals", "top", "same"}
	for mask := 0; mask < 1<<len(pairs); mask++ {
		deps := make([][]int, n+1)
		reach := make([]bool, n+1)
		reach[0] = true
		for b, p := range pairs {
			if mask>>b&1 == 1 {
				deps[p[0]] = append(deps[p[0]], p[1])
			}
		}
		all := true
		for i := 0; i <= n; i++ {
			if !reach[i] {
				all = false
				break
			}
			for _, d := range deps[i] {
				reach[d] = true
			}
		}
		if !all {
			continue
		}
		total := 1
		for i := 0; i < n; i++ {
			total *= len(kinds)
		}
		for kc := 0; kc < total; kc++ {
			ks := make([]string, n+1)
			ks[0] = "top"
			r := kc
			for i := 1; i <= n; i++ {
				ks[i] = kinds[r%len(kinds)]
				r /= len(kinds)
			}
			for _, rev := range []bool{false, true} {
				if rev && !full && kc%5 != 0 {
					continue
				}
				files := map[string]string{}
				for i := range names {
					files[names[i]+".tsh"] = graphFile(names, i, deps[i], ks[i], rev)
				}
				main := files["main.tsh"]
				delete(files, "main.tsh")
				if !y(Item{Body: main, Files: files, Solo: true, Tag: fmt.Sprintf("graph-%d", n)}) {
					return false
				}
			}
		}
	}
	return true
}

func graphFile(names []string, i int, deps []int, kind string, rev bool) string {
	var b strings.Builder
	me := names[i]
	d := append([]int{}, deps...)
	if rev {
		sort.Sort(sort.Reverse(sort.IntSlice(d)))
	}
	var im []string
	for k, x := range d {
		im = append(im, fmt.Sprintf("m%d %q", k, names[x]+".tsh"))
	}
	b.WriteString(impGroup(im))
	calls := func(f string) string {
		var s []string
		for k := range d {
			s = append(s, fmt.Sprintf("m%d.%s()", k, f))
		}
		return strings.Join(s, " + ")
	}
	plus := func(s string) string {
		if s == "" {
			return ""
		}
		return " + " + s
	}
	if kind == "same" {
		// the same text in every file of this kind with the same number of imports
		fmt.Fprintf(&b, "g := 1\nfunc f() string {\ng++\nreturn itoa(g)\n}\nfunc F() string {\nreturn f()%s\n}\nfunc G() string {\nreturn \"s\" + F()\n}\nprint(F())\n", plus(calls("F")))
		return b.String()
	}
	if kind == "globals" || kind == "top" {
		fmt.Fprintf(&b, "g := %d\nh := []int{%d}\n", i*10, i)
	}
	fmt.Fprintf(&b, "func unused() string {\nreturn \"u\"%s\n}\n", plus(calls("G")))
	if kind == "funcs" {
		fmt.Fprintf(&b, "func f() string {\nreturn %q\n}\n", me)
	} else {
		fmt.Fprintf(&b, "func f() string {\ng++\nh[len(h)] = g\nreturn %q + itoa(g) + itoa(len(h))\n}\n", me)
	}
	fmt.Fprintf(&b, "func F() string {\nreturn f()%s\n}\n", plus(calls("F")))
	fmt.Fprintf(&b, "func G() string {\nx := \"<\" + F()\nreturn x%s + \">\"\n}\n", plus(calls("G")))
	if kind == "top" {
		fmt.Fprintf(&b, "print(%q, f(), F())\n", me+" top")
		if len(d) > 0 {
			fmt.Fprintf(&b, "t := %s\nprint(t)\nif t != \"\" {\nprint(m0.F())\n}\n", calls("G"))
		}
		b.WriteString("print(G(), g, len(h), h[len(h) - 1])\n")
	}
	return b.String()
}

// CallGraphs enumerates every set of call edges between the functions and the
// top-level code of two files.
func CallGraphs(full bool, y Yield) bool {
	type node struct {
		name string
		may  []string // callees, spelled as in its file
	}
	lib := []node{{"p", nil}, {"Q", []string{"p()"}}, {"P", []string{"p()", "Q()"}}, {"", []string{"p()", "Q()", "P()"}}}
	mainN := []node{{"h", []string{"m.P()", "m.Q()"}}, {"k", []string{"h()", "m.P()"}}, {"", []string{"k()", "h()", "m.P()"}}}
	if full {
		mainN[1].may = append(mainN[1].may, "m.Q()")
		mainN[2].may = append(mainN[2].may, "m.Q()")
	}
	var slots int
	for _, n := range append(append([]node{}, lib...), mainN...) {
		slots += len(n.may)
	}
	emit := func(ns []node, mask int) (string, int) {
		var b strings.Builder
		for _, n := range ns {
			body := ""
			for _, c := range n.may {
				if mask&1 == 1 {
					body += "print(" + c + ")\n"
				}
				mask >>= 1
			}
			if n.name == "" {
				b.WriteString(body)
			} else {
				fmt.Fprintf(&b, "func %s() string {\n%sreturn %q\n}\n", n.name, body, n.name)
			}
		}
		return b.String(), mask
	}
	for m := 0; m < 1<<slots; m++ {
		l, rest := emit(lib, m)
		t, _ := emit(mainN, rest)
		if !y(Item{Body: imp("m", "m.tsh") + t + "print(\"end\")\n", Files: map[string]string{"m.tsh": l}, Solo: true, Tag: "calls"}) {
			return false
		}
	}
	return true
}

// callPositions hold a call CALL of type string at §.
var callPositions = []string{
	"CALL\n", "x§ := CALL\nprint(x§)\n", "var x§ string = CALL\nprint(x§)\n", "var x§ string\nx§ = CALL\nprint(x§)\n", "x§ := \"a\"\nx§ += CALL\nprint(x§)\n", "x§, y§ := CALL, CALL\nprint(x§, y§)\n",
	"print(CALL)\n", "print(\"a\", CALL, \"b\" + CALL)\n", "if CALL == \"\" {\nprint(1)\n}\n", "if false {\nprint(1)\n} else if CALL != \"\" {\nprint(2)\n}\n", "if false {\nprint(CALL)\n} else {\nprint(CALL)\n}\n",
	"for i := 0; i < 1; i++ {\nprint(CALL)\n}\n", "for i := len(CALL); i > 0 && CALL != \"\"; i-- {\nprint(i)\n}\n", "for i, c := range CALL {\nprint(i, c)\n}\n", "for i := 0; CALL != \"\" && i < 2; i++ {\nprint(i)\n}\n", "for i := 0; i < 1; i += len(CALL) {\nprint(i)\n}\n",
	"switch CALL {\ncase \"\":\nprint(0)\ndefault:\nprint(1)\n}\n", "switch \"q\" {\ncase CALL:\nprint(0)\ndefault:\nprint(1)\n}\n", "switch true {\ncase CALL == \"\":\nprint(0)\ndefault:\nprint(CALL)\n}\n", "switch \"x\" {\ncase \"x\":\nprint(CALL)\n}\n",
	"s§ := []string{CALL, \"z\"}\nprint(s§[0], len(s§))\n", "s§ := []string{\"k\"}\ns§[len(CALL)] = CALL\nprint(len(s§))\n", "s§ := []string{\"k\", \"l\"}\nprint(s§[len(CALL) - len(CALL)])\n", "t§ := CALL\nprint(t§[len(CALL) - 1:])\n",
	"print(id(CALL), id(id(CALL)))\n", "print((CALL), !(CALL == \"\"), CALL == \"\" || CALL != \"q\")\n", "print(len(CALL), len(CALL + CALL))\n", "write(\"o§\", CALL, CALL == \"\")\nprint(read(\"o§\"))\n", "print(exists(CALL))\n", "if len(CALL) > 100 {\npanic(CALL)\n}\n", "x§ := itoa(len(CALL))\nprint(x§)\n",
	"if CALL == \"nope\" {\nif true {\nfor {\nprint(CALL)\nbreak\n}\n}\n}\n", "n§ := copy(w, []string{CALL})\nprint(n§, w[0])\n", "two(CALL, CALL)\n", "@echo(CALL)\n", "o§, e§, c§ := @echo(CALL)\nprint(o§, c§)\n", "@echo(CALL) | @cat()\n",
}

// CallPositions places calls of every kind at every position of every place.
func CallPositions(full bool, y Yield) bool {
	help := "var w []string\nfunc id(s string) string {\nreturn s\n}\nfunc two(a string, b string) {\nprint(a, b)\n}\n"
	deep := "func d() string {\nreturn \"dp\"\n}\nfunc D() string {\nreturn d() + \"D\"\n}\nfunc Dead() string {\nreturn D()\n}\n"
	for _, pos := range callPositions {
		for _, target := range []string{"own", "public", "alias2", "std"} {
			for _, place := range []string{"main", "mainfunc", "mainfunc2", "top", "func", "private"} {
				var call string
				inLib := place == "top" || place == "func" || place == "private"
				switch target {
				case "own":
					call = "own()"
				case "public":
					call = "d.D()"
				case "alias2":
					call = "d2.D()"
				case "std":
					call = "strings.Repeat(\"ab\", 2)"
				}
				ims := map[string]string{"own": "", "public": imp("d", "d.tsh"), "alias2": impGroup([]string{"d1 \"d.tsh\"", "d2 \"d.tsh\""}), "std": "import \"strings\"\n"}[target]
				pre := help + "func unused() string {\nreturn " + call + "\n}\nfunc own() string {\nreturn \"ow\"\n}\n"
				if target != "own" {
					pre = strings.Replace(pre, "func own() string {\nreturn \"ow\"\n}\n", "", 1)
				} else {
					pre = help + "func own() string {\nreturn \"ow\"\n}\nfunc unused() string {\nreturn own()\n}\n"
				}
				body := strings.ReplaceAll(strings.ReplaceAll(pos, "CALL", call), "§", "z")
				files := map[string]string{"d.tsh": deep}
				var main string
				switch place {
				case "main":
					main = ims + pre + body
				case "mainfunc":
					main = ims + pre + "func run() {\n" + body + "}\nrun()\n"
				case "mainfunc2":
					main = ims + pre + "func run() int {\n" + body + "return 1\n}\nfunc run2() int {\nreturn run() + 1\n}\nif run2() == 2 {\nprint(\"two\")\n}\n"
				case "top":
					files["m.tsh"] = ims + pre + body + "func M() string {\nreturn \"M\"\n}\n"
					main = imp("m", "m.tsh") + "print(\"main\")\n"
				case "func":
					files["m.tsh"] = ims + pre + "func M() string {\n" + body + "return \"M\"\n}\n"
					main = imp("m", "m.tsh") + "print(m.M())\n"
				case "private":
					files["m.tsh"] = ims + pre + "func run() string {\n" + body + "return \"r\"\n}\nfunc M() string {\nx := run()\nreturn x\n}\nfunc N() string {\nreturn M()\n}\n"
					main = imp("m", "m.tsh") + "func via() string {\nreturn m.N()\n}\nfunc never() string {\nreturn m.M()\n}\nprint(via())\n"
				}
				_ = inLib
				if target == "std" {
					files["std/strings.tsh"] = StdStrings()
				}
				if !y(Item{Body: main + "print(\"end\")\n", Files: files, Solo: true, Tag: "pos-" + place + "-" + target}) {
					return false
				}
			}
		}
	}
	return true
}

// StdStrings models the part of the standard library which is used here (the
// implementation finds its own std/strings.tsh).
func StdStrings() string {
	return `func Repeat(s string, n int) string {
	r := ""
	for i := 0; i < n; i++ {
		r += s
	}
	return r
}
func Index(s string, t string) int {
	for i := 0; i + len(t) <= len(s); i++ {
		if s[i:i + len(t)] == t {
			return i
		}
	}
	return -1
}
func Contains(s string, t string) bool {
	return Index(s, t) >= 0
}
`
}

// Contents varies the content (and so the content hash) of imported files.
func Contents(n int, y Yield) bool {
	lib := func(k int, s string) string {
		return fmt.Sprintf("g := %d\nlist := []string{%q}\nfunc f(x int) int {\ny := x + g\ng = y\nreturn y\n}\nfunc F(x int) int {\nreturn f(x) + %d\n}\nprint(%q, F(1))\nprint(g)\nfor i, e := range list {\nprint(i, e)\n}\nlist[1] = \"z\"\nfunc L() int {\nreturn len(list)\n}\n", k, s, k, s)
	}
	for k := 0; k < n; k++ {
		for _, s := range []string{"a", "b"} {
			if !y(Item{Body: imp("m", "m.tsh") + "print(m.F(2), m.F(3), m.L())\n", Files: map[string]string{"m.tsh": lib(k, s)}, Solo: true, Tag: "content"}) {
				return false
			}
		}
		// two files
		if !y(Item{Body: impGroup([]string{"m \"m.tsh\"", "n \"n.tsh\""}) + "g := 5\nfunc f(x int) int {\nreturn x + g\n}\nprint(m.F(2), n.F(3), m.L(), f(1))\n", Files: map[string]string{"m.tsh": lib(k, "x"), "n.tsh": lib(k+1, "x")}, Solo: true, Tag: "content2"}) {
			return false
		}
	}
	return true
}

// Layouts of modules: paths, aliases, equal names, equal files.
func ModNames(y Yield) bool {
	lib := func(tag string) string {
		return "x := \"" + tag + "0\"\nvar n int\nfunc f(p string) string {\nn++\nreturn p + \"" + tag + "\" + itoa(n)\n}\nfunc F() string {\nx += \"!\"\nreturn f(x)\n}\nfunc Set(s string) {\nx = s\n}\n"
	}
	use := func(as ...string) string {
		s := ""
		for r := 0; r < 2; r++ {
			for i, a := range as {
				s += fmt.Sprintf("print(%s.F())\n", a)
				if i == 0 {
					s += a + ".Set(\"set\")\n"
				}
			}
		}
		return s
	}
	own := "x := \"mine\"\nvar n int\nfunc f(p string) string {\nn--\nreturn p + itoa(n)\n}\nfunc F() string {\nreturn f(x) + \"main\"\n}\nfunc Set(s string) {\nprint(\"main set\", s)\n}\n"
	ownUse := "print(F(), f(x), x, n)\nSet(\"q\")\n"
	type c struct {
		main  string
		files map[string]string
	}
	m := func(kv ...string) map[string]string {
		r := map[string]string{}
		for i := 0; i < len(kv); i += 2 {
			r[kv[i]] = kv[i+1]
		}
		return r
	}
	var cs []c
	for _, o := range []string{"", own} {
		ou := ""
		if o != "" {
			ou = ownUse
		}
		add := func(im string, us string, files map[string]string) { cs = append(cs, c{im + o + us + ou, files}) }
		add(imp("a", "a.tsh"), use("a"), m("a.tsh", lib("a")))
		add(impGroup([]string{"a \"a.tsh\"", "b \"b.tsh\""}), use("a", "b"), m("a.tsh", lib("a"), "b.tsh", lib("b")))
		// the same text twice
		add(impGroup([]string{"a \"a.tsh\"", "b \"b.tsh\""}), use("a", "b"), m("a.tsh", lib("a"), "b.tsh", lib("a")))
		add(impGroup([]string{"a \"a.tsh\"", "b \"b.tsh\"", "c \"c.tsh\""}), use("c", "a", "b"), m("a.tsh", lib("a"), "b.tsh", lib("a"), "c.tsh", lib("a")))
		add(impGroup([]string{"a \"a.tsh\"", "b \"b.tsh\""}), use("a", "b"), m("a.tsh", lib("a"), "b.tsh", "// comment\n\n"+lib("a")))
		// one file under several aliases and paths
		add(impGroup([]string{"a \"a.tsh\"", "b \"a.tsh\""}), use("a", "b"), m("a.tsh", lib("a")))
		add(impGroup([]string{"a \"a.tsh\"", "b \"./a.tsh\""}), use("b", "a"), m("a.tsh", lib("a")))
		add(impGroup([]string{"a \"./a.tsh\"", "b \"d/../a.tsh\"", "c \"a.tsh\""}), use("c", "a", "b"), m("a.tsh", lib("a"), "d/x.tsh", ""))
		// through links
		add(impGroup([]string{"a \"a.tsh\"", "b \"l.tsh\""}), use("a", "b"), m("a.tsh", lib("a"), "l.tsh", "\x00->a.tsh"))
		add(impGroup([]string{"b \"l.tsh\"", "a \"a.tsh\""}), use("a", "b"), m("a.tsh", lib("a"), "l.tsh", "\x00->a.tsh"))
		add(impGroup([]string{"a \"d/a.tsh\"", "b \"k/a.tsh\""}), use("b", "a"), m("d/a.tsh", lib("a"), "k", "\x00->d"))
		add(impGroup([]string{"a \"a.tsh\"", "b \"b.tsh\"", "c \"l.tsh\""}), use("b", "c", "a"), m("a.tsh", lib("a"), "b.tsh", lib("a"), "l.tsh", "\x00->b.tsh"))
		add(impGroup([]string{"a \"l.tsh\""}), use("a"), m("d/x.tsh", lib("a"), "l.tsh", "\x00->d/x.tsh"))
		// directories: relative to the importing file
		add(impGroup([]string{"a \"a.tsh\"", "b \"d/a.tsh\""}), use("a", "b"), m("a.tsh", lib("a"), "d/a.tsh", lib("b")))
		add(imp("b", "d/b.tsh"), use("b"), m("a.tsh", lib("WRONG"), "d/a.tsh", lib("da"), "d/b.tsh", imp("a", "a.tsh")+"func F() string {\nreturn a.F() + \"b\"\n}\nfunc Set(s string) {\na.Set(s)\n}\n"))
		add(impGroup([]string{"b \"d/b.tsh\"", "a \"a.tsh\""}), use("b", "a"), m("a.tsh", lib("root"), "d/a.tsh", lib("da"), "d/b.tsh", imp("a", "../a.tsh")+"func F() string {\nreturn a.F() + \"b\"\n}\nfunc Set(s string) {\na.Set(s)\n}\n"))
		add(impGroup([]string{"b \"d/b.tsh\"", "e \"d/a.tsh\""}), use("b", "e"), m("d/a.tsh", lib("da"), "d/b.tsh", imp("a", "a.tsh")+"func F() string {\nreturn a.F() + \"b\"\n}\nfunc Set(s string) {\na.Set(s)\n}\n"))
		// the same alias for different files in different files
		fwd := func(path, t string) string {
			return imp("z", path) + "func F() string {\nreturn z.F() + \"" + t + "\"\n}\nfunc Set(s string) {\nz.Set(s + \"" + t + "\")\n}\n"
		}
		add(impGroup([]string{"z \"b.tsh\"", "y \"c.tsh\""}), use("z", "y"), m("a.tsh", lib("a"), "b.tsh", fwd("a.tsh", "b"), "c.tsh", fwd("b.tsh", "c")))
		add(impGroup([]string{"y \"c.tsh\"", "z \"a.tsh\""}), use("z", "y"), m("a.tsh", lib("a"), "b.tsh", fwd("a.tsh", "b"), "c.tsh", fwd("b.tsh", "c")))
		add(impGroup([]string{"p \"b.tsh\"", "q \"c.tsh\"", "r \"a.tsh\""}), use("q", "p", "r"), m("a.tsh", lib("a"), "b.tsh", fwd("a.tsh", "b"), "c.tsh", fwd("a.tsh", "b")))
		// names of aliases which coincide with other names
		add(imp("fmt", "a.tsh"), use("fmt"), m("a.tsh", lib("a")))
		add(imp("strings", "a.tsh"), use("strings"), m("a.tsh", lib("a")))
		add(imp("strings", "strings.tsh"), use("strings"), m("strings.tsh", lib("local")))
		add(imp("A", "a.tsh"), use("A"), m("a.tsh", lib("a")))
		add(imp("_", "a.tsh"), use("_"), m("a.tsh", lib("a")))
		add(imp("v1", "a b.tsh"), use("v1"), m("a b.tsh", lib("a")))
		add(imp("v1", "a$b.tsh"), use("v1"), m("a$b.tsh", lib("a")))
		add(imp("v1", "a"), use("v1"), m("a", lib("a")))
		add(imp("v1", "a.txt"), use("v1"), m("a.txt", lib("a")))
		// std and local files
		sf := StdStrings()
		su := "print(s.Repeat(\"ab\", 3), s.Contains(\"abc\", \"b\"), s.Index(\"abc\", \"c\"))\n"
		add(impGroup([]string{"s \"strings\"", "a \"a.tsh\""}), su+use("a"), m("a.tsh", lib("a"), "std/strings.tsh", sf))
		add(impGroup([]string{"a \"a.tsh\"", "s \"strings\""}), use("a")+su, m("a.tsh", lib("a"), "std/strings.tsh", sf))
		add(impGroup([]string{"a \"a.tsh\"", "s \"strings\""}), use("a")+su, m("a.tsh", "import t \"strings\"\n"+strings.Replace(lib("a"), "return f(x)", "return t.Repeat(f(x), 2)", 1), "std/strings.tsh", sf))
		add(impGroup([]string{"a \"a.tsh\"", "s \"strings\"", "r \"strings\""}), use("a")+su+strings.ReplaceAll(su, "s.", "r."), m("a.tsh", "import \"strings\"\n"+strings.Replace(lib("a"), "return f(x)", "return strings.Repeat(f(x), 2)", 1), "std/strings.tsh", sf))
		add(impGroup([]string{"a \"a.tsh\"", "\"strings\""}), use("a")+strings.ReplaceAll(su, "s.", "strings."), m("a.tsh", lib("a"), "std/strings.tsh", sf))
		// functions named like those of the library
		add(impGroup([]string{"\"strings\""}), "func Repeat(s string, cnt int) string {\nreturn \"own\"\n}\nfunc Contains(a string, b string) bool {\nreturn false\n}\nprint(Repeat(\"a\", 2), strings.Repeat(\"a\", 2), Contains(\"a\", \"a\"), strings.Contains(\"a\", \"a\"))\n", m("std/strings.tsh", sf))
	}
	// order of top-level code
	t := func(n string, ims ...string) string { return impGroup(ims) + "print(\"" + n + "\")\n" }
	cs = append(cs,
		c{t("main", "a \"a.tsh\"", "b \"b.tsh\"", "c \"c.tsh\""), m("a.tsh", t("a", "c \"c.tsh\""), "b.tsh", t("b", "a \"a.tsh\"", "d \"d.tsh\""), "c.tsh", t("c"), "d.tsh", t("d", "c \"c.tsh\""))},
		c{t("main", "c \"c.tsh\"", "b \"b.tsh\"", "a \"a.tsh\""), m("a.tsh", t("same", "c \"c.tsh\""), "b.tsh", t("same", "c \"c.tsh\""), "c.tsh", t("same"))},
		c{t("main", "a \"a.tsh\"", "b \"b.tsh\""), m("a.tsh", t("same"), "b.tsh", t("same"))},
		c{t("main", "a \"a.tsh\"", "b \"a.tsh\"", "c \"./a.tsh\""), m("a.tsh", t("once"))},
		c{t("main", "a \"a.tsh\""), m("a.tsh", "")},
		c{t("main", "a \"a.tsh\""), m("a.tsh", "// nothing\n")},
		c{t("main", "a \"a.tsh\""), m("a.tsh", impGroup([]string{"b \"b.tsh\""}), "b.tsh", impGroup([]string{"c \"c.tsh\""}), "c.tsh", t("c"))},
		c{imp("a", "a.tsh") + "a.F()\n", m("a.tsh", "func F() {\nprint(\"F\")\n}\npanic(\"stop\")\n")},
		c{imp("a", "a.tsh") + "x, y := a.F(1)\nprint(x, y)\nx, y = a.F(2)\nprint(x, y)\na.G(a.H())\n", m("a.tsh", "func F(n int) (int, string) {\nreturn n, itoa(n)\n}\nfunc G(s []int) {\ns[3] = 1\nprint(len(s))\n}\nfunc H() []int {\nreturn []int{1}\n}\n")},
		c{imp("a", "a.tsh") + "x := 1\nif true {\ny := a.F(x)\nprint(y)\n}\nfor i := 0; i < 2; i++ {\nx = a.F(x)\n}\nprint(x)\n", m("a.tsh", "x := 10\nfunc F(n int) int {\nx += n\ni := x\nfor j := 0; j < 2; j++ {\ni++\n}\nreturn i\n}\n")},
		c{imp("a", "a.tsh") + "s := []int{1}\na.Add(s)\na.Add(s)\nprint(len(s), s[1], s[2])\nprint(a.Get())\n", m("a.tsh", "all := []int{}\nfunc Add(s []int) {\ns[len(s)] = 7\nall[len(all)] = s[0]\n}\nfunc Get() int {\nreturn len(all)\n}\n")},
	)
	for _, k := range cs {
		if !y(Item{Body: k.main, Files: k.files, Solo: true, Tag: "names"}) {
			return false
		}
	}
	return true
}

// ModSizes: programs of n files, functions, aliases, directory levels.
func ModSizes(ns []int, y Yield) bool {
	for _, n := range ns {
		e := func(tag, main string, files map[string]string) bool {
			return y(Item{Body: main, Files: files, Solo: true, Tag: "modsz-" + tag})
		}
		// a chain of imports; every file has state and top-level code
		for _, eq := range []bool{false, true} {
			files := map[string]string{}
			for i := 0; i < n; i++ {
				t, im, nx := fmt.Sprint(i), "", ""
				if eq {
					t = "e"
				}
				if i+1 < n {
					im, nx = imp("m", fmt.Sprintf("f%d.tsh", i+1)), " + m.F()"
				}
				files[fmt.Sprintf("f%d.tsh", i)] = im + "g := \"" + t + "\"\nvar c int\nfunc f(x string) string {\nc++\nreturn g + x + itoa(c)\n}\nfunc unused() string {\nreturn f(g)\n}\nfunc F() string {\nr := f(\"-\")" + "\nreturn r" + nx + "\n}\nprint(\"top" + t + "\", f(\"t\"))\n"
			}
			if !e("chain", imp("m", "f0.tsh")+"g := 1\nfunc f() int {\nreturn g\n}\nprint(m.F(), f())\nprint(m.F())\n", files) {
				return false
			}
		}
		// n files beside each other, equal and different
		for _, eq := range []bool{false, true} {
			files := map[string]string{}
			var im []string
			for i := 0; i < n; i++ {
				t := fmt.Sprint(i)
				if eq {
					t = "e"
				}
				files[fmt.Sprintf("f%d.tsh", i)] = "x := \"" + t + "\"\nvar n int\nl := []string{x}\nfunc f() int {\nn++\nl[len(l)] = itoa(n)\nreturn n\n}\nfunc F() string {\nreturn x + itoa(f()) + l[n] + itoa(len(l))\n}\n"
				im = append(im, fmt.Sprintf("a%d \"f%d.tsh\"", i, i))
			}
			calls := rep(n, func(i int) string { return rep(i%3+1, func(int) string { return fmt.Sprintf("print(a%d.F())\n", i) }) })
			if !e("beside", impGroup(im)+calls+"func all() string {\nreturn "+joined(n, " + ", func(i int) string { return fmt.Sprintf("a%d.F()", i) })+"\n}\nprint(all())\n", files) {
				return false
			}
		}
		// one file under n aliases
		var al []string
		for i := 0; i < n; i++ {
			al = append(al, fmt.Sprintf("a%d \"m.tsh\"", i))
		}
		if !e("aliases", impGroup(al)+rep(n, func(i int) string { return fmt.Sprintf("print(a%d.F())\n", i) }), map[string]string{"m.tsh": "var n int\nprint(\"once\")\nfunc F() int {\nn++\nreturn n\n}\n"}) {
			return false
		}
		// n functions of a file: only one is called; each needs those before it
		fs := rep(n, func(i int) string {
			c := ""
			if i > 0 {
				c = fmt.Sprintf(" + P%d()", i-1)
				if i > 2 {
					c += fmt.Sprintf(" + q%d()", i/2)
				}
			}
			return fmt.Sprintf("func q%d() string {\nreturn \"q\"\n}\nfunc P%d() string {\nreturn \"%d.\"%s\n}\n", i, i, i, c)
		})
		for _, k := range probes(n - 1) {
			if !e("funcs", imp("m", "m.tsh")+fmt.Sprintf("print(m.P%d())\n", k), map[string]string{"m.tsh": fs}) || !e("funcsown", fs+fmt.Sprintf("print(P%d())\n", k), nil) || !e("funcstop", imp("m", "m.tsh")+"print(\"e\")\n", map[string]string{"m.tsh": fs + fmt.Sprintf("print(P%d())\n", k)}) {
				return false
			}
		}
		// a file in n directories, found from above and from below
		if n <= 12 {
			dir := strings.Repeat("d/", n)
			if !e("dirs", impGroup([]string{"a \"" + dir + "m.tsh\"", "b \"k.tsh\""})+"print(a.F(), b.F())\n", map[string]string{dir + "m.tsh": imp("k", strings.Repeat("../", n)+"k.tsh") + "func F() string {\nreturn \"m\" + k.F()\n}\n", "k.tsh": "var n int\nfunc F() string {\nn++\nreturn itoa(n)\n}\n"}) {
				return false
			}
		}
		// ladders: every file of a level imports both of the next
		if n <= 8 {
			files := map[string]string{}
			for i := 0; i < n; i++ {
				for _, s := range []string{"a", "b"} {
					im, body := "", "\""+s+"\""
					if i+1 < n {
						im = impGroup([]string{fmt.Sprintf("a \"a%d.tsh\"", i+1), fmt.Sprintf("b \"b%d.tsh\"", i+1)})
						if s == "a" {
							body += " + a.F() + b.G()"
						} else {
							body += " + b.F() + a.G()"
						}
					}
					files[fmt.Sprintf("%s%d.tsh", s, i)] = im + "var n int\nfunc G() string {\nn++\nreturn itoa(n)\n}\nfunc F() string {\nreturn G() + " + body + "\n}\nprint(\"" + s + fmt.Sprint(i) + "\", G())\n"
				}
			}
			if !e("ladder", impGroup([]string{"a \"a0.tsh\"", "b \"b0.tsh\""})+"print(a.F(), b.F())\nprint(b.F(), a.G())\n", files) {
				return false
			}
		}
	}
	return true
}
