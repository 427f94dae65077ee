package main

import (
	"os"
	"path/filepath"

	"verifmc/h"
)

// Prog is one program of the fixed corpus the transpilation-only checks start from.
type Prog struct {
	Name  string
	Main  string
	Files map[string]string
	Bad   bool // rejected
}

var corpus = []Prog{
	{Name: "empty", Main: ""},
	{Name: "hello", Main: "print(\"Hello World\")\n"},
	{Name: "nofinal", Main: "a := 1\nprint(a)"},
	{Name: "vars", Main: "var a int\nvar b, c string = \"x\", \"y\"\nvar d = true\ne, f := 1, -2\na, g := e - 1, f - 2\na = 5\nb, c = c, b\na += 2\na -= 1\na *= 3\na /= 2\na %= 5\nb += \"z\"\na++\na--\nprint(a, b, c, d, e, f, g)\n"},
	{Name: "exprs", Main: "a := 2\nb := 3\nx := a + b * (a - 1) / 2 % 5\ny := a-1\nz := a -1\nw := a - 1\nu := -3\nv := (a)-(b)\nok := a == b || a != 2 && !(x < y) && z <= w || u > v && a >= 1\nprint(x, y, z, w, u, v, ok)\n"},
	{Name: "strs", Main: "s := \"a\\tb\\\"c\\\\\"\nr := `raw \"x\" \\n`\nm := `two\nlines`\nt := s + r + \"ä\"\nprint(s, r, m, t, len(s), s[0], s[1:2], s[:2], s[1:])\n"},
	{Name: "ifs", Main: "a := 1\nif a == 1 {\n\tprint(\"1\")\n} else if a == 2 {\n\tprint(\"2\")\n\tif true {\n\t\tprint(\"n\")\n\t}\n} else {\n\tprint(\"3\")\n}\nif !(a > 2) {\n}\nprint(\"e\")\n"},
	{Name: "switches", Main: "a := 2\nswitch a {\ncase 1:\n\tprint(\"1\")\ncase 2:\n\tprint(\"2\")\n\tprint(\"x\")\ndefault:\n\tprint(\"d\")\n}\nswitch {\ncase a > 1:\n\tprint(\"big\")\n}\nswitch true {\ndefault:\n\tprint(\"d\")\n}\n"},
	{Name: "fors", Main: "for i := 0; i < 3; i++ {\n\tif i == 1 {\n\t\tcontinue\n\t}\n\tfor {\n\t\tbreak\n\t}\n\tprint(i)\n}\nj := 0\nfor j < 2 {\n\tj++\n}\nfor ; j > 0; j-- {\n}\nfor k := 1; ; k += 2 {\n\tif k > 3 {\n\t\tbreak\n\t}\n}\n"},
	{Name: "ranges", Main: "s := []int{1, 2, 3}\nfor i, v := range s {\n\tprint(i, v)\n}\nfor i := range \"abc\" {\n\tprint(i)\n}\nfor _, c := range \"xy\" {\n\tprint(c)\n}\n"},
	{Name: "slices", Main: "a := []int{}\nb := []string{\"x\", \"y\"}\nvar c []bool\na[0] = 1\na[1] = a[0] + 1\nb[2] = b[0] + b[1]\nc[0] = !true\nn := copy(a, []int{7})\nprint(len(a), len(b), len(c), n, a[0], b[2], c[0])\n"},
	{Name: "slicesmin", Main: "a := []int{1, -2}\na[0] = -1\nb := []string{\"x\"}\nc := a\nc[len(c)-1] = a[1-1]\nprint(a[0], b[0], c[1])\n"},
	{Name: "funcs", Main: "func f(a int, b string) (int, string) {\n\treturn a + 1, b + \"!\"\n}\nfunc g() {\n\tprint(\"g\")\n}\nfunc h(xs []int) int {\n\tif len(xs) > 1 {\n\t\treturn xs[0]\n\t}\n\treturn 0\n}\nx, y := f(1, \"a\")\ng()\nx, y = f(h([]int{1, 2}), y)\nprint(x, y, h([]int{4}))\n"},
	{Name: "funcrec", Main: "func half(n int) int {\n\treturn n / 2\n}\nfunc fact(n int) int {\n\tr := 1\n\tif n > 1 {\n\t\tr = n * half(n-1)\n\t}\n\treturn r\n}\nfunc unused() string {\n\treturn \"u\"\n}\nprint(fact(5))\n"},
	{Name: "funcglobals", Main: "g := 1\nfunc inc(by int) {\n\tg += by\n\tl := g\n\tprint(l)\n}\ninc(2)\ninc(-3)\nprint(g)\n"},
	{Name: "errors", Main: "func f(x int) (int, error) {\n\tif x < 0 {\n\t\treturn 0, \"neg\"\n\t}\n\treturn x, nil\n}\nv, err := f(-1)\nif err != nil {\n\tprint(err)\n}\nprint(v)\npanic(\"done\")\n"},
	{Name: "builtins", Main: "n := input()\nm := input(\"name: \")\nprint(n, m)\nwrite(\"f\", n)\nwrite(\"f\", m, true)\nx := read(\"f\")\nprint(x, exists(\"f\"), itoa(3) + \"x\")\nprint()\n"},
	{Name: "builtins2", Main: "s := []string{\"a\"}\nd := []string{}\nprint(copy(d, s), len(s), len(\"abc\"), itoa(len(d)))\nif exists(\"/nope\") {\n\tpanic(\"x\")\n}\n"},
	{Name: "apps", Main: "@echo(\"a\", 1)\n@ls(\"-l\") | @sort(\"-r\") | @head()\no, e, c := @`cat`(\"/dev/null\")\nprint(o, e, c)\n@\"x y\"()\n"},
	{Name: "nested", Main: "func f(n int) int {\n\tfor i := 0; i < n; i++ {\n\t\tswitch i {\n\t\tcase 2:\n\t\t\treturn i\n\t\tdefault:\n\t\t\tif i > 5 {\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\t}\n\treturn -1\n}\nprint(f(9))\n"},
	{Name: "comments", Main: "// head\n/* block */\na := 1 // trailing\n/* multi\nline */\nprint(a) /* x */ // y\n// end\n"},
	{Name: "blank", Main: "\n\n\na := 1\n\n\nif true {\n\n\tprint(a)\n\n}\n\n\n"},
	{Name: "unary", Main: "a := 1\nb := true\nprint(!b, !!b, -2, 3 - -1, 3 -1, (-1), a-1, a -1)\n"},
	{Name: "calls", Main: "func f(a int, b bool) bool {\n\treturn a > 1 && b\n}\nif f(2, f(1, true)) || !f(3, true) {\n\tprint(\"y\")\n}\nfor i := 0; f(2-i, true); i++ {\n\tprint(i)\n}\n"},
	{Name: "multi", Main: "func f() (int, int) {\n\treturn 1, 2\n}\nvar a, b = f()\nvar c, d int = 3, 4\na, b = b, a\nfor i, j := 0, 3; i < j; i, j = i + 1, j - 1 {\n\tprint(i, j)\n}\nprint(a, b, c, d)\n"},
	{Name: "idx", Main: "s := \"hello\"\ni := 1\nprint(s[i], s[i+1], s[i:i+2], s[:len(s)-1], s[len(s)-2:])\nx := []string{\"ab\", \"cd\"}\nprint(x[i], x[i-1])\n"},
	{Name: "std", Main: "import \"strings\"\nprint(strings.Contains(\"Hello\", \"ell\"))\n"},
	{Name: "stdgroup", Main: "import (\n\t\"strings\"\n\t\"os\"\n)\nprint(strings.ToUpper)\n", Bad: true},
	{Name: "stdgroup2", Main: "import (\n\t\"strings\"\n)\n\nfunc f(s string) int {\n\treturn strings.Count(s, \"a\")\n}\n\nprint(f(\"banana\"), strings.Join([]string{\"x\", \"y\"}, \"-\"))\n"},
	{Name: "imp1", Main: "import m \"m.tsh\"\nprint(m.F(1), m.V)\n", Files: map[string]string{"m.tsh": "V := 5\nfunc F(a int) int {\n\treturn a + V + p()\n}\nfunc p() int {\n\treturn 1\n}\nfunc F2() {\n}\n"}, Bad: true},
	{Name: "imp2", Main: "import m \"m.tsh\"\nprint(m.F(1))\nprint(m.F(2))\n", Files: map[string]string{"m.tsh": "v := 5\nfunc p() int {\n\treturn v\n}\nfunc F(a int) int {\n\treturn a + p()\n}\nfunc Unused() {\n\tprint(\"u\")\n}\nprint(\"init\")\n"}},
	{Name: "imp3", Main: "import (\n\ta \"a.tsh\"\n\tb \"sub/b.tsh\"\n)\n\nb.Show(a.Get())\n", Files: map[string]string{"a.tsh": "import c \"sub/c.tsh\"\n\nfunc Get() string {\n\treturn c.Name() + \"a\"\n}\n", "sub/b.tsh": "import (\n\tc \"c.tsh\"\n)\nfunc Show(s string) {\n\tprint(s, c.Name())\n}\n", "sub/c.tsh": "n := \"c\"\nfunc Name() string {\n\tn += \"!\"\n\treturn n\n}\n"}},
	// rejected programs
	{Name: "bad-undefined", Main: "a := 1\nprint(b)\n", Bad: true},
	{Name: "bad-type", Main: "a := 1\nif true {\n\ta = \"x\"\n}\n", Bad: true},
	{Name: "bad-cond", Main: "if 1 {\n\tprint(\"x\")\n}\n", Bad: true},
	{Name: "bad-syntax", Main: "for i := 0; i < 3 {\n}\n", Bad: true},
	{Name: "bad-brace", Main: "if true {\n\tprint(\"x\")\n", Bad: true},
	{Name: "bad-return", Main: "func f() int {\n\tprint(1)\n}\n", Bad: true},
	{Name: "bad-args", Main: "func f(a int) int {\n\treturn a\n}\nprint(f(1, 2))\n", Bad: true},
	{Name: "bad-break", Main: "break\n", Bad: true},
	{Name: "bad-lex", Main: "a := 1 $ 2\n", Bad: true},
	{Name: "bad-str", Main: "a := \"abc\nprint(a)\n", Bad: true},
	{Name: "bad-two", Main: "a := 1 b := 2\n", Bad: true},
	{Name: "bad-import", Main: "import m \"missing.tsh\"\nprint(1)\n", Bad: true},
	{Name: "bad-redef", Main: "a := 1\nvar a int\n", Bad: true},
	{Name: "bad-logic", Main: "x := true && 1\n", Bad: true},
}

// writeProg puts a program into a directory and returns the path of its main file.
func writeProg(dir string, p Prog) string {
	for n, s := range p.Files {
		f := filepath.Join(dir, n)
		os.MkdirAll(filepath.Dir(f), 0755)
		if err := h.PutFile(f, s); err != nil {
			panic(err)
		}
	}
	f := filepath.Join(dir, "main.tsh")
	os.MkdirAll(dir, 0755)
	if err := os.WriteFile(f, []byte(p.Main), 0644); err != nil {
		panic(err)
	}
	return f
}

var targets = []string{"bash", "batch"}

var _ = h.Conv
