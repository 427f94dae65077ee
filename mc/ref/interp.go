package ref

import (
	"hash/fnv"
	"path/filepath"
	"strconv"
	"strings"
)

type SliceObj struct {
	Elem    Kind
	Vals    []Value
	ranging int
	id      int
}

type Value struct {
	K  Kind
	I  int64 // int and bool (0/1)
	S  string
	Sl *SliceObj
}

func (v Value) String() string {
	if v.K == KString {
		return v.S
	}
	return strconv.FormatInt(v.I, 10)
}

// Outcome is the observable trace of one program.
type Outcome struct {
	Out    string
	Exit   int
	UB     string // non-empty: meaning undefined on this execution
	Steps  int
	States int
	FS     map[string]string
}

type Options struct {
	Bits     int // 64 or 32
	MaxSteps int
	Stdin    []string
	FS       map[string]string // initial files (content)
	// App models the programs: raw standard output of the chain and status of its last program.
	App      func(fs map[string]string, name []string, args [][]string) (stdout string, code int, ok bool)
	NoStates bool
	MaxOut   int
}

type ctl int

const (
	cNone ctl = iota
	cBreak
	cContinue
	cReturn
)

type ubSig struct{ why string }
type exitSig struct{ code int }

type pend struct{ sym *Sym }

type interp struct {
	o       Options
	cells   []Value
	pending []int // per symbol: operand reads of unfinished expressions
	stack   []*Sym
	out     strings.Builder
	rets    []Value
	steps   int
	seen    map[uint64]struct{}
	sid     int
	fs      map[string]string
	in      int
	depth   int
	hist    []int
}

func Run(p *Program, o Options) (res Outcome) {
	if o.Bits == 0 {
		o.Bits = 64
	}
	if o.MaxSteps == 0 {
		o.MaxSteps = 5000
	}
	if o.MaxOut == 0 {
		o.MaxOut = 1 << 20
	}
	in := &interp{o: o, cells: make([]Value, p.NSyms), pending: make([]int, p.NSyms), fs: map[string]string{}}
	for k, v := range o.FS {
		in.fs[k] = v
	}
	if !o.NoStates {
		in.seen = map[uint64]struct{}{}
	}
	defer func() {
		if r := recover(); r != nil {
			switch s := r.(type) {
			case ubSig:
				res.UB = s.why
			case exitSig:
				res.Exit = s.code
			default:
				panic(r)
			}
		}
		res.Out = in.out.String()
		res.Steps = in.steps
		res.States = len(in.seen)
		res.FS = in.fs
	}()
	for _, m := range p.Mods {
		in.block(m.File.Stmts)
	}
	return
}

func (in *interp) ub(w string) { panic(ubSig{w}) }

func (in *interp) wrap(v int64) int64 {
	if in.o.Bits == 32 {
		return int64(int32(v))
	}
	return v
}

func zero(t Type) Value { return Value{K: t.K} }

func (in *interp) newSlice(k Kind, vals []Value) Value {
	in.sid++
	return Value{K: k, Sl: &SliceObj{Elem: k, Vals: vals, id: in.sid}}
}

// operand reads: a variable read as an operand is pending until the enclosing
// expression list is complete; if a call inside the same list changes it, the
// order is one that Go leaves open, and the execution is not judged.
func (in *interp) mark() int { return len(in.stack) }
func (in *interp) release(m int) {
	for len(in.stack) > m {
		s := in.stack[len(in.stack)-1]
		in.pending[s.ID]--
		in.stack = in.stack[:len(in.stack)-1]
	}
}
func (in *interp) set(s *Sym, v Value) {
	if in.pending[s.ID] > 0 {
		in.ub("variable changed by a call while it is a pending operand")
	}
	in.cells[s.ID] = v
}

func (in *interp) step(id uintptr) {
	in.steps++
	if in.steps > in.o.MaxSteps {
		in.ub("step limit")
	}
	if in.out.Len() > in.o.MaxOut {
		in.ub("output limit")
	}
	if in.seen != nil {
		h := fnv.New64a()
		var b [8]byte
		w := func(v uint64) {
			for i := 0; i < 8; i++ {
				b[i] = byte(v >> (8 * i))
			}
			h.Write(b[:])
		}
		w(uint64(id))
		w(uint64(in.out.Len()))
		for i := range in.cells {
			c := &in.cells[i]
			if c.Sl != nil {
				w(uint64(c.Sl.id))
				w(uint64(len(c.Sl.Vals)))
				for _, e := range c.Sl.Vals {
					w(uint64(e.I))
					h.Write([]byte(e.S))
				}
			} else {
				w(uint64(c.I))
				h.Write([]byte(c.S))
			}
		}
		in.seen[h.Sum64()] = struct{}{}
	}
}

func (in *interp) block(b []Stmt) ctl {
	for _, s := range b {
		if c := in.stmt(s); c != cNone {
			return c
		}
	}
	return cNone
}

func (in *interp) vals(es []Expr) []Value {
	if len(es) == 1 {
		switch x := es[0].(type) {
		case *Call:
			if len(x.Fn.Rets) > 1 {
				return in.call(x)
			}
		case *AppCall:
			return in.app(x)
		}
	}
	out := make([]Value, len(es))
	for i, e := range es {
		out[i] = in.expr(e)
	}
	return out
}

func (in *interp) stmt(s Stmt) ctl {
	in.step(stmtID(s))
	m := in.mark()
	switch x := s.(type) {
	case *DefStmt:
		if len(x.Vals) == 0 {
			for _, sy := range x.Syms {
				if sy.T.Slice {
					in.set(sy, in.newSlice(sy.T.K, nil))
				} else {
					in.set(sy, zero(sy.T))
				}
			}
			return cNone
		}
		vs := in.vals(x.Vals)
		in.release(m)
		for i, sy := range x.Syms {
			in.set(sy, vs[i])
		}
	case *AssignStmt:
		vs := in.vals(x.Vals)
		in.release(m)
		for i, sy := range x.Syms {
			in.set(sy, vs[i])
		}
	case *OpAssign:
		in.pendRead(x.Sym)
		l := in.cells[x.Sym.ID]
		r := in.expr(x.Val)
		in.release(m)
		in.set(x.Sym, in.arith(x.Op, l, r))
	case *IncDec:
		v := in.cells[x.Sym.ID]
		d := int64(1)
		if x.Dec {
			d = -1
		}
		v.I = in.wrap(v.I + d)
		in.set(x.Sym, v)
	case *SliceSet:
		idx := in.expr(x.Idx)
		v := in.expr(x.Val)
		in.release(m)
		o := in.cells[x.Sym.ID].Sl
		if idx.I < 0 {
			in.ub("negative index")
		}
		if idx.I > 5000 {
			in.ub("huge index")
		}
		if int(idx.I) >= len(o.Vals) {
			if o.ranging > 0 {
				in.ub("resize while ranging")
			}
			for int(idx.I) > len(o.Vals) {
				o.Vals = append(o.Vals, Value{K: o.Elem})
			}
			o.Vals = append(o.Vals, v)
		} else {
			o.Vals[idx.I] = v
		}
	case *IfStmt:
		taken := -1
		for i, cd := range x.Conds {
			if in.expr(cd).I != 0 && taken < 0 {
				taken = i
			}
		}
		in.release(m)
		if taken >= 0 {
			return in.block(x.Bodies[taken])
		}
		if x.HasElse {
			return in.block(x.Else)
		}
	case *SwitchStmt:
		tag := Value{K: KBool, I: 1}
		if x.Tag != nil {
			tag = in.expr(x.Tag)
		}
		taken, def := -1, -1
		for i, cs := range x.Cases {
			if cs.Default {
				def = i
				continue
			}
			v := in.expr(cs.X)
			if taken < 0 && equal(tag, v) {
				taken = i
			}
		}
		in.release(m)
		if taken < 0 {
			taken = def
		}
		if taken >= 0 {
			ct := in.block(x.Cases[taken].Body)
			if ct == cBreak {
				ct = cNone
			}
			return ct
		}
	case *ForStmt:
		if x.Init != nil {
			in.stmt(x.Init)
		}
		first := true
		for {
			if !first && x.Post != nil {
				in.stmt(x.Post)
			}
			first = false
			in.step(stmtID(x) + 1)
			if x.Cond != nil {
				mm := in.mark()
				v := in.expr(x.Cond)
				in.release(mm)
				if v.I == 0 {
					break
				}
			}
			c := in.block(x.Body)
			if c == cBreak {
				break
			}
			if c == cReturn {
				return c
			}
		}
	case *RangeStmt:
		v := in.expr(x.X)
		in.release(m)
		n := len(v.S)
		if v.Sl != nil {
			n = len(v.Sl.Vals)
			v.Sl.ranging++
			defer func() { v.Sl.ranging-- }()
		}
		for i := 0; i < n; i++ {
			in.step(stmtID(x) + 1)
			in.set(x.KSym, Value{K: KInt, I: int64(i)})
			if x.HasV {
				if v.Sl != nil {
					in.set(x.VSym, v.Sl.Vals[i])
				} else {
					in.set(x.VSym, Value{K: KString, S: v.S[i : i+1]})
				}
			}
			c := in.block(x.Body)
			if c == cBreak {
				break
			}
			if c == cReturn {
				return c
			}
		}
	case *BreakStmt:
		return cBreak
	case *ContinueStmt:
		return cContinue
	case *ReturnStmt:
		vs := make([]Value, len(x.Vals))
		for i, e := range x.Vals {
			vs[i] = in.expr(e)
		}
		in.release(m)
		in.rets = vs
		return cReturn
	case *PrintStmt:
		var ss []string
		for _, v := range in.vals(x.Args) {
			ss = append(ss, v.String())
		}
		in.out.WriteString(strings.Join(ss, " ") + "\n")
		in.release(m)
	case *PanicStmt:
		v := in.expr(x.X)
		in.out.WriteString("panic: " + v.String() + "\n")
		panic(exitSig{1})
	case *WriteStmt:
		p := clean(in.expr(x.Args[0]).S)
		d := in.expr(x.Args[1]).S
		app := false
		if len(x.Args) > 2 {
			app = in.expr(x.Args[2]).I != 0
		}
		in.release(m)
		if p == "" {
			in.ub("empty path")
		}
		if app {
			in.fs[p] += d + "\n"
		} else {
			in.fs[p] = d + "\n"
		}
	case *ExprStmt:
		if a, ok := x.X.(*AppCall); ok {
			out, _ := in.appRaw(a)
			in.out.WriteString(out)
		} else {
			in.vals([]Expr{x.X})
		}
		in.release(m)
	case *FuncDef:
	}
	in.release(m)
	return cNone
}

func equal(a, b Value) bool {
	if a.K == KString {
		return a.S == b.S
	}
	return a.I == b.I
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func (in *interp) arith(op string, l, r Value) Value {
	if l.K == KString {
		return Value{K: KString, S: l.S + r.S}
	}
	switch op {
	case "+":
		return Value{K: KInt, I: in.wrap(l.I + r.I)}
	case "-":
		return Value{K: KInt, I: in.wrap(l.I - r.I)}
	case "*":
		return Value{K: KInt, I: in.wrap(l.I * r.I)}
	case "/", "%":
		if r.I == 0 {
			in.ub("division by zero")
		}
		if op == "/" {
			if r.I == -1 {
				return Value{K: KInt, I: in.wrap(-l.I)}
			}
			return Value{K: KInt, I: in.wrap(l.I / r.I)}
		}
		if r.I == -1 {
			return Value{K: KInt}
		}
		return Value{K: KInt, I: in.wrap(l.I % r.I)}
	}
	panic("op " + op)
}

func (in *interp) pendRead(s *Sym) {
	in.pending[s.ID]++
	in.stack = append(in.stack, s)
}

func (in *interp) expr(e Expr) Value {
	switch x := e.(type) {
	case *Lit:
		switch x.T.K {
		case KInt:
			if in.o.Bits == 32 && x.I != int64(int32(x.I)) {
				in.ub("literal range")
			}
			return Value{K: KInt, I: x.I}
		case KBool:
			return Value{K: KBool, I: b2i(x.B)}
		}
		return Value{K: KString, S: x.S}
	case *VarRef:
		in.pendRead(x.Sym)
		return in.cells[x.Sym.ID]
	case *Paren:
		return in.expr(x.X)
	case *Unary:
		return Value{K: KBool, I: 1 - in.expr(x.X).I}
	case *Bin:
		l := in.expr(x.L)
		r := in.expr(x.R)
		switch x.Op {
		case "&&":
			return Value{K: KBool, I: l.I & r.I}
		case "||":
			return Value{K: KBool, I: l.I | r.I}
		case "==":
			return Value{K: KBool, I: b2i(equal(l, r))}
		case "!=":
			return Value{K: KBool, I: b2i(!equal(l, r))}
		case "<":
			return Value{K: KBool, I: b2i(l.I < r.I)}
		case "<=":
			return Value{K: KBool, I: b2i(l.I <= r.I)}
		case ">":
			return Value{K: KBool, I: b2i(l.I > r.I)}
		case ">=":
			return Value{K: KBool, I: b2i(l.I >= r.I)}
		}
		return in.arith(x.Op, l, r)
	case *Call:
		vs := in.call(x)
		if len(vs) == 1 {
			return vs[0]
		}
		return Value{}
	case *SliceLit:
		vals := make([]Value, len(x.Vals))
		for i, v := range x.Vals {
			vals[i] = in.expr(v)
		}
		return in.newSlice(x.Elem.K, vals)
	case *Index:
		i := in.expr(x.I).I
		in.pendRead(x.V.Sym)
		v := in.cells[x.V.Sym.ID]
		if v.Sl != nil {
			if i < 0 || i >= int64(len(v.Sl.Vals)) {
				in.ub("index out of range")
			}
			return v.Sl.Vals[i]
		}
		if i < 0 || i >= int64(len(v.S)) {
			in.ub("index out of range")
		}
		return Value{K: KString, S: v.S[i : i+1]}
	case *Substr:
		lo, hi := int64(0), int64(-1)
		if x.Lo != nil {
			lo = in.expr(x.Lo).I
		}
		if x.Hi != nil {
			hi = in.expr(x.Hi).I
		}
		in.pendRead(x.V.Sym)
		v := in.cells[x.V.Sym.ID]
		if x.Hi == nil {
			hi = int64(len(v.S))
		}
		if lo < 0 || hi < lo || hi > int64(len(v.S)) {
			in.ub("substring out of range")
		}
		return Value{K: KString, S: v.S[lo:hi]}
	case *Builtin:
		return in.builtin(x)
	case *AppCall:
		in.app(x)
		return Value{}
	}
	panic("expr")
}

func (in *interp) call(x *Call) []Value {
	in.depth++
	args := make([]Value, len(x.Args))
	for i, a := range x.Args {
		args[i] = in.expr(a)
	}
	for i, sy := range x.Fn.Syms {
		// parameters are fresh cells of the callee
		in.cells[sy.ID] = args[i]
	}
	in.rets = nil
	c := in.block(x.Fn.Body)
	in.depth--
	if c != cReturn {
		return nil
	}
	r := in.rets
	return r
}

func clean(p string) string {
	if p == "" {
		return p
	}
	return filepath.Clean(p)
}

func (in *interp) app(x *AppCall) []Value {
	out, code := in.appRaw(x)
	return []Value{{K: KString, S: strings.TrimSuffix(out, "\n")}, {K: KString}, {K: KInt, I: int64(code)}}
}

func (in *interp) appRaw(x *AppCall) (string, int) {
	if in.o.App == nil {
		in.ub("program call")
	}
	var args [][]string
	for _, as := range x.Args {
		var l []string
		for _, a := range as {
			l = append(l, in.expr(a).String())
		}
		args = append(args, l)
	}
	out, code, ok := in.o.App(in.fs, x.Names, args)
	if !ok {
		in.ub("program call not modelled")
	}
	return out, code
}

func (in *interp) builtin(x *Builtin) Value {
	switch x.Name {
	case "len":
		v := in.expr(x.Args[0])
		if v.Sl != nil {
			return Value{K: KInt, I: int64(len(v.Sl.Vals))}
		}
		return Value{K: KInt, I: int64(len(v.S))}
	case "itoa":
		return Value{K: KString, S: in.expr(x.Args[0]).String()}
	case "exists":
		p := clean(in.expr(x.Args[0]).S)
		_, ok := in.fs[p]
		return Value{K: KBool, I: b2i(ok)}
	case "read":
		p := clean(in.expr(x.Args[0]).S)
		c, ok := in.fs[p]
		if !ok {
			in.ub("read of missing file")
		}
		return Value{K: KString, S: strings.TrimSuffix(c, "\n")}
	case "input":
		if len(x.Args) > 0 {
			in.expr(x.Args[0])
		}
		if in.in >= len(in.o.Stdin) {
			in.ub("end of input")
		}
		in.in++
		return Value{K: KString, S: in.o.Stdin[in.in-1]}
	case "copy":
		d := in.expr(x.Args[0]).Sl
		s := in.expr(x.Args[1]).Sl
		if len(d.Vals) < len(s.Vals) && d.ranging > 0 {
			in.ub("resize while ranging")
		}
		n := len(s.Vals)
		vals := append([]Value{}, s.Vals...)
		if n < len(d.Vals) {
			vals = append(vals, d.Vals[n:]...)
		}
		d.Vals = vals
		return Value{K: KInt, I: int64(n)}
	}
	panic("builtin")
}
