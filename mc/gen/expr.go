package gen

import (
	"fmt"
	"strings"
)

// expression trees

type Ty byte

const (
	I Ty = 'i'
	B Ty = 'b'
	S Ty = 's'
)

type Node struct {
	Op   string // "" leaf, "!" not, else binary
	T    Ty     // result type
	L, R *Node
	Leaf int // index of the leaf among the leaves of its type
}

var prec = map[string]int{"||": 1, "&&": 2, "==": 3, "!=": 3, "<": 3, "<=": 3, ">": 3, ">=": 3, "+": 4, "-": 4, "*": 5, "/": 5, "%": 5}

type opdef struct {
	op     string
	in, to Ty
}

var Ops = []opdef{
	{"+", I, I}, {"-", I, I}, {"*", I, I}, {"/", I, I}, {"%", I, I},
	{"==", I, B}, {"!=", I, B}, {"<", I, B}, {"<=", I, B}, {">", I, B}, {">=", I, B},
	{"==", B, B}, {"!=", B, B}, {"&&", B, B}, {"||", B, B},
	{"+", S, S}, {"==", S, B}, {"!=", S, B},
}

type treeKey struct {
	t    Ty
	n, k int
}

var treeCache = map[treeKey][]*Node{}

// Trees yields all trees of a type with exactly n binary operators and exactly k negations.
func Trees(t Ty, n, k int) []*Node {
	key := treeKey{t, n, k}
	if r, ok := treeCache[key]; ok {
		return r
	}
	var out []*Node
	if n == 0 && k == 0 {
		out = append(out, &Node{T: t})
	}
	if t == B && k > 0 {
		for _, c := range Trees(B, n, k-1) {
			out = append(out, &Node{Op: "!", T: B, L: c})
		}
	}
	if n > 0 {
		for _, o := range Ops {
			if o.to != t {
				continue
			}
			for a := 0; a < n; a++ {
				for ka := 0; ka <= k; ka++ {
					for _, l := range Trees(o.in, a, ka) {
						for _, r := range Trees(o.in, n-1-a, k-ka) {
							out = append(out, &Node{Op: o.op, T: t, L: l, R: r})
						}
					}
				}
			}
		}
	}
	treeCache[key] = out
	return out
}

// Render writes the tree with minimal parentheses; leaf names come from f(type, index).
func Render(n *Node, f func(t Ty, i int) string, sp string) (string, map[Ty]int) {
	cnt := map[Ty]int{}
	var r func(n *Node, parent int, right bool) string
	r = func(n *Node, parent int, right bool) string {
		switch n.Op {
		case "":
			i := cnt[n.T]
			cnt[n.T]++
			return f(n.T, i)
		case "!":
			if n.L.Op == "" || n.L.Op == "!" {
				return "!" + r(n.L, 9, false)
			}
			return "!(" + r(n.L, 0, false) + ")"
		}
		p := prec[n.Op]
		s := r(n.L, p, false) + sp + n.Op + sp + r(n.R, p, true)
		if p < parent || p == parent && right {
			return "(" + s + ")"
		}
		return s
	}
	return r(n, 0, false), cnt
}

var intVals = [][]int{{7, 3, 2, 5, 4}, {2, 2, 3, 1, 2}, {-9, 4, -2, 7, 3}, {1, 5, 5, -5, 2}}
var strVals = [][]string{{"ab", "a", "b", "ab", "c"}, {"x", "x", "xx", "x", "x"}}

func exprPre(iv, sv int) string {
	var b strings.Builder
	for i, v := range intVals[iv] {
		fmt.Fprintf(&b, "i%d := %d\n", i, v)
	}
	for i, v := range strVals[sv] {
		fmt.Fprintf(&b, "s%d := \"%s\"\n", i, v)
	}
	b.WriteString("t := true\nf := false\n")
	return b.String()
}

// ExprTrees enumerates all trees with 1..maxOps operators and up to maxNot
// negations, over valuations; bool leaves take every assignment.
func ExprTrees(maxOps, maxNot int, y Yield) bool {
	for n := 0; n <= maxOps; n++ {
		for k := 0; k <= maxNot; k++ {
			for _, t := range []Ty{I, B, S} {
				if t != B && n == 0 {
					continue
				}
				for _, iv := range []int{0, 1, 2, 3} {
					for sv := 0; sv < 2; sv++ {
						pre := exprPre(iv, sv)
						for _, tr := range Trees(t, n, k) {
							_, cnt := Render(tr, func(Ty, int) string { return "" }, "")
							if sv > 0 && cnt[S] == 0 || iv > 0 && cnt[I] == 0 {
								continue
							}
							nb := cnt[B]
							for m := 0; m < 1<<nb; m++ {
								s, _ := Render(tr, func(ty Ty, i int) string {
									switch ty {
									case B:
										if m>>i&1 == 1 {
											return "t"
										}
										return "f"
									case I:
										return fmt.Sprintf("i%d", i)
									}
									return fmt.Sprintf("s%d", i)
								}, " ")
								if !y(Item{Pre: pre, Body: "print(" + s + ")\n", Tag: fmt.Sprintf("expr%d", n)}) {
									return false
								}
							}
						}
					}
				}
			}
		}
	}
	return true
}

// LeafForms enumerates all trees of up to maxOps operators whose leaves are all
// combinations of variable, literal, negative literal and parenthesised
// operand, with and without blanks.
func LeafForms(maxOps int, y Yield) bool {
	forms := map[Ty][]string{
		I: {"i%d", "%d", "-%d", "(i%d)", "(-%d)"},
		B: {"t", "f", "true", "false", "(t)", "!f"},
		S: {"s%d", "\"k%d\"", "(s%d)"},
	}
	pre := exprPre(0, 0)
	for n := 1; n <= maxOps; n++ {
		for _, t := range []Ty{I, B, S} {
			for _, tr := range Trees(t, n, 0) {
				var leaves []Ty
				Render(tr, func(ty Ty, i int) string { leaves = append(leaves, ty); return "" }, "")
				idx := make([]int, len(leaves))
				for {
					for _, sp := range []string{"", " ", "L", "R"} {
						bl := sp
						if sp == "L" || sp == "R" {
							bl = ""
						}
						p := 0
						s, _ := Render(tr, func(ty Ty, i int) string {
							fm := forms[ty][idx[p]]
							p++
							if strings.Contains(fm, "%d") {
								fm = fmt.Sprintf(fm, i+1)
							}
							if sp == "L" {
								fm = " " + fm
							}
							if sp == "R" {
								fm += " "
							}
							return fm
						}, bl)
						if strings.Contains(s, "++") || strings.Contains(s, "--") || strings.Contains(s, "//") {
							// Go's longest match makes these other tokens
							continue
						}
						if !y(Item{Pre: pre, Body: "print(" + s + ")\n", Tag: "leaf"}) {
							return false
						}
					}
					j := 0
					for j < len(idx) {
						idx[j]++
						if idx[j] < len(forms[leaves[j]]) {
							break
						}
						idx[j] = 0
						j++
					}
					if j == len(idx) {
						break
					}
				}
			}
		}
	}
	return true
}

var edge64 = []string{"0", "1", "-1", "2", "-2", "3", "-7", "10", "255", "-256", "2147483647", "-2147483648", "2147483648", "4294967296",
	"9223372036854775807", "-9223372036854775808", "-9223372036854775807", "3037000500", "9007199254740993"}
var edge32 = []string{"0", "1", "-1", "2", "-2", "3", "-7", "10", "255", "-256", "65536", "46341", "2147483647", "-2147483648", "-2147483647", "99999", "100000"}

// EdgeArith: every pair of edge values under every int operator, through
// variables, literals, op-assignment and ++/--.
func EdgeArith(bits int, y Yield) bool {
	vals := edge64
	if bits == 32 {
		vals = edge32
	}
	for _, a := range vals {
		for _, b := range vals {
			pre := "a := " + a + "\nb := " + b + "\nvar r int\nvar p bool\n"
			for _, o := range Ops {
				if o.in != I {
					continue
				}
				bd := "print(a " + o.op + " b)\n"
				if !y(Item{Pre: pre, Body: bd, Tag: "edge"}) {
					return false
				}
				if b[0] != '-' || true {
					if !y(Item{Pre: pre, Body: "print(a " + o.op + " " + b + ")\n", Tag: "edge"}) {
						return false
					}
				}
				if o.to == I {
					if !y(Item{Pre: pre, Body: "r = a\nr " + o.op + "= b\nprint(r)\nr = " + a + "\nr " + o.op + "= " + b + "\nprint(r, itoa(r))\n", Tag: "edge"}) {
						return false
					}
				} else if !y(Item{Pre: pre, Body: "p = a " + o.op + " b\nprint(p)\nif a " + o.op + " b {\nprint(1)\n} else {\nprint(0)\n}\n", Tag: "edge"}) {
					return false
				}
			}
		}
		pre := "var r int\n"
		for _, bd := range []string{"r = " + a + "\nr++\nprint(r)\n", "r = " + a + "\nr--\nprint(r)\n", "r§ := " + a + "\nprint(r§, itoa(r§), len(itoa(r§)))\n", "print(" + a + ")\n", "print(itoa(" + a + ") + \"|\")\n"} {
			if !y(Item{Pre: pre, Body: bd, Tag: "edge"}) {
				return false
			}
		}
	}
	return true
}

// NeutralStrings is the alphabet safe on every target.
var NeutralStrings = []string{"", "a", "b", "ab", "Ab", "0", "00", "1", "10", "abc", "hello world", "x-y", "a.b", "true", "nil", " ", "  ", " a", "a ", "a  b"}

// Strings: every pair under + == != and the operand forms, in every expression context.
func StringPairs(y Yield) bool {
	for _, a := range NeutralStrings {
		for _, b := range NeutralStrings {
			pre := fmt.Sprintf("a := %q\nb := %q\nvar r string\n", a, b)
			bodies := []string{
				"print(a + b)\n", "print(a == b)\n", "print(a != b)\n", "print(a, b)\n", "print(a, b, a)\n",
				fmt.Sprintf("print(a == %q)\n", b), fmt.Sprintf("print(%q != b)\n", a), fmt.Sprintf("print(%q + %q)\n", a, b),
				"r = a\nr += b\nprint(r)\n", "r = a + b + a\nprint(r)\n", "if a == b {\nprint(1)\n} else if a != b {\nprint(2)\n}\n",
				"switch a {\ncase b:\nprint(1)\ndefault:\nprint(2)\n}\n",
				fmt.Sprintf("switch a {\ncase %q:\nprint(1)\ncase b:\nprint(2)\ncase %q:\nprint(3)\n}\n", "abc", a),
				"print((a + b) == (b + a), len(a + b))\n",
			}
			for _, bd := range bodies {
				if !y(Item{Pre: pre, Body: bd, Tag: "str"}) {
					return false
				}
			}
		}
	}
	return true
}

// ExprContexts: every small expression in every position that takes one.
func ExprContexts(y Yield) bool {
	pre := exprPre(0, 0) + "func idi(v int) int {\nreturn v\n}\nfunc idb(v bool) bool {\nreturn v\n}\nfunc ids(v string) string {\nreturn v\n}\n"
	ex := map[Ty][]string{
		I: {"3", "-3", "i0", "i0 + 1", "i0 - 1", "i0-1", "i0*i1", "(i0)", "((i0 + i1))", "i0 / i1 % i2", "len(s0)", "idi(i0)", "len(s0) + idi(2)"},
		B: {"true", "false", "t", "f", "!t", "!f", "!!t", "!(t && f)", "t && f", "t || f", "i0 > i1", "i0 > i1 && t", "s0 == s1", "(t)", "t == f", "i0 == i1 == f", "idb(t)", "!idb(t)", "i0 < i1 == (i1 < i0)"},
		S: {"\"k\"", "s0", "s0 + s1", "(s0)", "s0 + \"z\"", "itoa(i0)", "itoa(i0 + i1)", "\"\"", "ids(s0)", "s0 + itoa(i1) + s1"},
	}
	ctxs := map[Ty][]string{
		I: {"v§ := %s\nprint(v§)\n", "var v§ = %s\nprint(v§)\n", "var v§ int = %s\nprint(v§)\n", "v§ := 0\nv§ = %s\nprint(v§)\n", "v§ := 1\nv§ += %s\nprint(v§)\n", "v§ := 1\nv§ -= %s\nprint(v§)\n",
			"v§, w§ := %[1]s, %[1]s\nprint(v§, w§)\n", "v§, w§ := 1, 2\nv§, w§ = %[1]s, %[1]s\nprint(w§, v§)\n", "var v§, w§ int = %[1]s, %[1]s\nprint(v§ + w§)\n",
			"switch %s {\ncase 3:\nprint(1)\ncase i0:\nprint(2)\ndefault:\nprint(3)\n}\n", "switch 7 {\ncase %s:\nprint(1)\ndefault:\nprint(2)\n}\n",
			"for k§ := %s; k§ < 9; k§ += 2 {\nprint(k§)\n}\n", "for k§ := 0; k§ < %s; k§++ {\nprint(k§)\n}\n", "k§ := 0\nfor k§ < 12 {\nprint(k§)\nk§ += 1 + (%[1]s) * (%[1]s)\n}\n",
			"for k§ := 0; k§ < 40; k§ = k§ + 3 + (%[1]s) * (%[1]s) {\nprint(k§)\n}\n", "print(itoa(%s))\n", "print(%[1]s, %[1]s)\n", "panic(itoa(%s))\n", "print((%s) * 2)\n", "print(1 + (%s))\n", "print(idi(%s))\n"},
		B: {"v§ := %s\nprint(v§)\n", "var v§ bool = %s\nprint(v§)\n", "v§ := f\nv§ = %s\nprint(v§)\n", "if %s {\nprint(1)\n}\n", "if %s {\nprint(1)\n} else {\nprint(2)\n}\n", "if f {\nprint(1)\n} else if %s {\nprint(2)\n} else {\nprint(3)\n}\n",
			"for %s {\nprint(1)\nbreak\n}\n", "for k§ := 0; %s; k§++ {\nprint(k§)\nif k§ > 1 {\nbreak\n}\n}\n", "switch %s {\ncase true:\nprint(1)\ncase false:\nprint(2)\n}\n", "switch {\ncase %s:\nprint(1)\ndefault:\nprint(2)\n}\n", "switch t {\ncase %s:\nprint(1)\ncase f:\nprint(2)\ndefault:\nprint(3)\n}\n",
			"print(%s)\n", "print(!(%s))\n", "print((%s) == t, (%[1]s) != t)\n", "print(idb(%s))\n"},
		S: {"v§ := %s\nprint(v§)\n", "var v§ string = %s\nprint(v§)\n", "v§ := \"q\"\nv§ = %s\nprint(v§)\n", "v§ := \"q\"\nv§ += %s\nprint(v§)\n", "switch %s {\ncase \"k\":\nprint(1)\ncase s0:\nprint(2)\ndefault:\nprint(3)\n}\n", "switch s0 {\ncase %s:\nprint(1)\ndefault:\nprint(2)\n}\n",
			"for k§, c§ := range %s {\nprint(k§, c§)\n}\n", "for k§ := range %s {\nprint(k§)\n}\n", "print(%s)\n", "print(%[1]s, %[1]s)\n", "panic(%s)\n", "print(len(%s))\n", "print(ids(%s))\n", "if %s == \"k\" {\nprint(1)\n} else {\nprint(0)\n}\n"},
	}
	for _, t := range []Ty{I, B, S} {
		for _, c := range ctxs[t] {
			for _, e := range ex[t] {
				bd := strings.ReplaceAll(c, "%s", "%[1]s")
				bd = fmt.Sprintf(bd, e)
				if !y(Item{Pre: pre, Body: bd, Solo: strings.HasPrefix(c, "panic"), Tag: "ctx"}) {
					return false
				}
			}
		}
	}
	return true
}
