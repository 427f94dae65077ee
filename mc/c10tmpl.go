package main

import (
	"strings"

	"verifmc/gen"
)

func c10App(_ map[string]string, names []string, args [][]string) (out string, code int, ok bool) {
	for i, n := range names {
		switch {
		case n == "echo" && (len(args[i]) == 0 || !strings.HasPrefix(args[i][0], "-")):
			out = strings.Join(args[i], " ") + "\n"
		case n == "cat" && len(args[i]) == 0 && i > 0:
		case n == "false":
			out, code = "", 1
			continue
		default:
			return "", 0, false
		}
		code = 0
	}
	return out, code, true
}

func c10more(ctx interface{ Thorough() bool }, fam func(string, func(gen.Yield) bool)) {
	ctxs := []string{"global", "local", "param", "fnglobal", "loop"}
	n := 1
	if ctx.Thorough() {
		n = 2
	}
	fam("slice histories", func(y gen.Yield) bool { return gen.SliceHistories("int", n, ctxs, y) })
	fam("evaluation order", func(y gen.Yield) bool { return gen.EvalOrder(n-1, n-1, y) })
	fam("returns", func(y gen.Yield) bool { return gen.Returns(y) })
	fam("parameters", func(y gen.Yield) bool { return gen.RefParams(y) })
	fam("range bodies", func(y gen.Yield) bool { return gen.RangeBodies(y) })
	fam("locals", func(y gen.Yield) bool { return gen.LocalsInit(y) })
	fam("modules: equal names", func(y gen.Yield) bool { return gen.ModNames(y) })
	if ctx.Thorough() {
		fam("string operations", func(y gen.Yield) bool { return gen.StringOps(2, y) })
		fam("substrings", func(y gen.Yield) bool { return gen.Substrings(4, y) })
		fam("globals", func(y gen.Yield) bool { return gen.Globals(false, y) })
		fam("loop nests", func(y gen.Yield) bool { return gen.LoopNests(2, y) })
	}
}

// renTmpls are the programs of the name exploration: together they use every
// construct that makes the back-ends emit names of their own.
var renTmpls = []renTmpl{
	{name: "globals", main: `var qa int
var qb string
var qc bool
print(qa, qb, qc)
qd, qe := 3, "t"
qa = qd * 2
qa += 5
qb = qe + "u"
qb += qb
qc = qa > qd && !(qb == qe)
qa--
qd++
print(qa, qb, qc, qd, qe)
qa, qd = qd, qa
print(qa, qd)
if qc {
	qf := qa + qd
	print(qf, len(qb))
}
print(itoa(qa) + qb, qc || qa == 1)
`},
	{name: "many at once", main: `qa := 1
qb := "x"
qc, qd, qe, qf, qg := 2, "y", 3, true, "z"
func qh(qi int, qj string, qk int, ql bool, qm string) (int, string, int, bool, string) {
	qn, qo, qp, qq, qr := qk, qm, qi, !ql, qj
	qn += 7
	qn, qp, qi, qk, qj = qp, qn, qk, qi, qr
	return qn + qi, qo + qj, qp - qk, qq, qr
}
qa, qc, qe, qb, qd, qg = qc, qe, qa, qd, qg, qb
print(qa, qb, qc, qd, qe, qf, qg)
qc, qd, qe, qf, qg = qh(qa, qb, qc, qf, qd)
print(qa, qb, qc, qd, qe, qf, qg)
qs := []int{qa, qc, qe, 4, 5, 6}
qs[8] = qa
qa, qb, qc, qd, qe = qs[3], qg, qs[0], qb, len(qs)
print(qa, qb, qc, qd, qe, qs[8], qs[5])
`},
	{name: "functions", main: `qa := 10
func qf(qb int, qc string) (int, string) {
	qd := qb + 1
	qa += qd
	return qd * 2, qc + itoa(qd)
}
func qf2(qj int) int {
	qk := qj * qj
	return qk
}
func qg(qe int) int {
	qh, qi := qf(qe, "g")
	print(qi)
	return qh + qf2(qe)
}
ql, qm := qf(1, "m")
print(ql, qm, qa)
print(qg(2) + qf2(3), qa)
print(qf2(qf2(2) + qg(1)) - qf2(1))
`},
	{name: "slices", main: `qa := []int{1, 2, 3}
qb := qa
qb[1] = 9
func qf(qc []int, qd int) []int {
	qe := []int{qd}
	qc[0] = qd
	qe[2] = qc[1]
	return qe
}
qg := qf(qa, 7)
for qh, qi := range qg {
	print(qh, qi)
}
qj := copy(qa, []int{4, 5})
print(qj, len(qa), qa[0], qa[1], qb[2], len(qg))
var qk []string
qk[1] = "z"
print(len(qk), qk[0] + qk[1])
`},
	{name: "slices in functions", main: `qa := []string{"o"}
func qf(qb []string, qc string) int {
	qd := []string{}
	qe := copy(qd, qb)
	qb[len(qb)] = qc
	qa[1] = "w"
	for qh := range qb {
		qd[qh] = qb[qh] + qc
	}
	print(qd[0], qe)
	return len(qd)
}
qg := []string{"p", "q"}
print(qf(qg, "r"), len(qg), len(qa))
qi := qg
print(qf(qi, "s"), qi[3], qg[2], qa[1])
`},
	{name: "strings", main: `qa := "hello"
qb := 1
qc := qa[qb:3] + qa[:2] + qa[qb]
print(qc, len(qc), len(qa[2:]))
func qf(qd string, qe int) string {
	qg := qd[qe:]
	for qh, qi := range qd {
		if qh == qe {
			qg += qi
		}
	}
	return qg + itoa(len(qg))
}
print(qf(qa, 2), qf(qc, qb))
for qj, qk := range qa {
	print(qj, qk)
}
`},
	{name: "loops", main: `qa := 0
for qb := 0; qb < 3; qb++ {
	for qc := 0; qc < 3; qc++ {
		if qc == 1 {
			continue
		}
		if qb == 2 {
			break
		}
		qa += qb * 3 + qc
	}
}
print(qa)
func qf(qd int) int {
	qe := 0
	for qe < qd {
		qe++
		switch qe {
		case 2:
			print("two")
		case 4:
			return qe
		default:
			print("other")
		}
	}
	for qg := range []int{5, 6} {
		for {
			qe += qg
			break
		}
	}
	return qe * 10
}
qh, qi := 0, 3
for qh, qi = 1, 4; qh < qi; qh, qi = qh + 1, qi - 1 {
	print(qh, qi)
}
print(qf(3), qf(9), qh, qi)
`},
	{name: "defaults", main: `var qa int
var qb string
var qc []string
var qd bool
var qe, qf string
func qg() string {
	var qh int
	var qi string
	var qj []int
	var qk error
	print(qh, qi, len(qj), qk)
	qh = 4
	qi = "l"
	qj[0] = 1
	return qi + itoa(qh)
}
print(qa, qb, len(qc), qd, qe, qf, qg(), qg())
`},
	{name: "programs", main: `qa := "v"
qb, qc, qd := @echo("x", qa)
print(qb, qd)
func qf(qe string) string {
	qg, qh, qi := @echo(qe) | @cat()
	return qg + itoa(qi)
}
func qj() int {
	qk, ql, qm := @"false"()
	return qm
}
print(qf("y"), qj())
@echo(qf("z"), qa) | @cat()
@echo("q")
`},
	{name: "files", main: `qa := "f1"
write(qa, "one")
write(qa, "two", true)
qb := read(qa)
func qf(qc string, qd string) string {
	write(qc, qd)
	qe := read(qc)
	if exists(qc) {
		qe += "!"
	}
	return qe
}
qg := qf("f2", "three")
print(qb, qg, exists("f3"), exists(qa))
`},
	{name: "input", stdin: []string{"l1", "l2 x", "l3"}, main: `qa := input()
qb := ""
func qf(qc string) string {
	qd := input(qc)
	return qd + qa
}
qb = qf("p")
qe := input("z")
print(qa, qb, qe)
`},
	{name: "panic", main: `qa := "p"
func qf(qb int) int {
	qc := qb - 1
	if qc == 0 {
		panic(qa + itoa(qb))
	}
	return qc
}
qd := qf(3)
print(qd)
qd = qf(qd) + qf(qd - 1)
print("never", qd)
`},
	{name: "unused", main: `qa := 1
func qf(qb int) int {
	qc := qb
	return qc
}
func qg() {
	print("unused")
}
func qh() {
	qa++
	print("h", qa)
}
qh()
qh()
`},
	{name: "modules", main: `import (
	m "lib.tsh"
	n "sub/two.tsh"
)
qa := 5
func qf(qb int) int {
	qc := qb + qa
	return qc
}
print(qf(1), m.Qg(2), n.Qh("s"), n.Qi())
qd := m.Qg(qa)
print(qd, qa, n.Qi())
`, files: map[string]string{"lib.tsh": `qj := 100
func qk(ql int) int {
	qj += ql
	return qj
}
func Qg(qm int) int {
	qn := qk(qm)
	return qn * 2
}
`, "sub/two.tsh": `import l "../lib.tsh"
qo := 0
func Qh(qp string) string {
	qo++
	return qp + itoa(l.Qg(qo))
}
func Qi() int {
	return qo
}
`}},
	{name: "library", files: map[string]string{"std/strings.tsh": gen.StdStrings()}, main: `import "strings"
qa := "a,b,c"
func qf(qb string) []string {
	qc := []string{qb, strings.Repeat(qb, 2)}
	return qc
}
qd := qf(qa)
qe := qd[1] + "-"
print(qe, len(qd), strings.Contains(qa, "b"), strings.Repeat(qe, 2), strings.Index(qa, "c"))
`},
	{name: "environment of programs", real: true, main: `qa := "v"
qb := []string{"w"}
qc := 1
func qf(qd string) string {
	qe := qd + "!"
	qg, qh, qi := @sh("-c", "env | grep -v '^_=' | grep -v PWD= | sort")
	return qg + qe
}
for qj := 0; qj < 2; qj++ {
	qc += qj
	qb[qj] = qf(qa)
}
print(qb[0], qb[1], qc)
@sh("-c", "env | grep -v '^_=' | grep -v PWD= | sort; exit 3")
`},
}
