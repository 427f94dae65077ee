package ref

import (
	"fmt"
	"path/filepath"
	"strings"
	"unicode"
)

type scope struct {
	parent *scope
	vars   map[string]*Sym
	fn     bool // function boundary: only globals are visible beyond it
}

func newScope(p *scope) *scope { return &scope{parent: p, vars: map[string]*Sym{}} }

type checker struct {
	prog   *Program
	mod    *Module
	nsyms  int
	sc     *scope
	top    *scope
	fn     *FuncDef
	loop   int
	sw     int
	depth  int
	unspec string
}

type cerr struct{ msg string }

func (c *checker) err(f string, a ...interface{}) { panic(cerr{fmt.Sprintf(f, a...)}) }
func (c *checker) open(why string) {
	if c.unspec == "" {
		c.unspec = why
	}
}

func (c *checker) lookup(name string) *Sym {
	beyond := false
	for s := c.sc; s != nil; s = s.parent {
		if v, ok := s.vars[name]; ok && (!beyond || v.Global) {
			return v
		}
		if s.fn {
			beyond = true
		}
	}
	return nil
}
func (c *checker) define(name string, t Type) *Sym {
	s := &Sym{ID: c.nsyms, Name: name, T: t, Global: c.sc == c.top, block: c.sc}
	c.nsyms++
	c.sc.vars[name] = s
	return s
}
func (c *checker) use(name string) *Sym {
	s := c.lookup(name)
	if s == nil {
		c.err("undefined variable %s", name)
	}
	return s
}
func (c *checker) push() { c.sc = newScope(c.sc) }
func (c *checker) pop()  { c.sc = c.sc.parent }

func isNil(e Expr) bool { l, ok := e.(*Lit); return ok && l.Nil }

// want checks that e can be used where t is required.
func (c *checker) want(e Expr, t Type, what string) {
	got := c.expr(e)
	if isNil(e) {
		if t.Slice {
			c.open("nil as slice")
			return
		}
		if t == TyStr {
			return
		}
	}
	if got != t {
		c.err("%s: want %v got %v", what, t, got)
	}
}

func (c *checker) expr(e Expr) Type {
	switch x := e.(type) {
	case *Lit:
		return x.T
	case *VarRef:
		x.Sym = c.use(x.Name)
		return x.Sym.T
	case *Paren:
		return c.expr(x.X)
	case *Unary:
		if c.expr(x.X) != TyBool {
			c.err("! needs bool")
		}
		return TyBool
	case *Bin:
		l := c.expr(x.L)
		r := c.expr(x.R)
		if l != r {
			if isNil(x.L) && r.Slice || isNil(x.R) && l.Slice {
				c.open("nil compared with slice")
				return TyBool
			}
			c.err("operand types %v %v", l, r)
		}
		x.T = l
		if isNil(x.L) && isNil(x.R) || (isNil(x.L) || isNil(x.R)) && x.Op != "==" && x.Op != "!=" {
			c.open("nil as ordinary operand")
		}
		switch x.Op {
		case "&&", "||":
			if l != TyBool {
				c.err("logical on %v", l)
			}
			return TyBool
		case "==", "!=":
			if l.K == KVoid || l.K == KMulti {
				c.err("compare no value")
			}
			if l.Slice {
				c.open("slice equality")
			}
			return TyBool
		case "<", "<=", ">", ">=":
			if l == TyStr {
				c.open("string ordering")
				return TyBool
			}
			if l != TyInt {
				c.err("ordering on %v", l)
			}
			return TyBool
		case "+":
			if l != TyInt && l != TyStr {
				c.err("+ on %v", l)
			}
			return l
		default:
			if l != TyInt {
				c.err("%s on %v", x.Op, l)
			}
			return l
		}
	case *Call:
		return c.call(x)
	case *SliceLit:
		for _, v := range x.Vals {
			c.want(v, x.Elem, "slice element")
		}
		return Type{K: x.Elem.K, Slice: true}
	case *Index:
		t := c.expr(x.V)
		if !t.Slice && t != TyStr {
			c.err("index of %v", t)
		}
		c.want(x.I, TyInt, "index")
		if t.Slice {
			return Type{K: t.K}
		}
		return TyStr
	case *Substr:
		t := c.expr(x.V)
		if t.Slice {
			c.err("range of slice not supported")
		}
		if t != TyStr {
			c.err("range of %v", t)
		}
		if x.Lo != nil {
			c.want(x.Lo, TyInt, "start")
		}
		if x.Hi != nil {
			c.want(x.Hi, TyInt, "end")
		}
		return TyStr
	case *Builtin:
		return c.builtin(x)
	case *AppCall:
		for _, as := range x.Args {
			for _, a := range as {
				t := c.expr(a)
				if t.K == KVoid || t.K == KMulti {
					c.err("no value as program argument")
				}
				if t != TyStr || isNil(a) {
					c.open("non-string program argument")
				}
			}
		}
		return Type{K: KMulti}
	}
	c.err("unknown expression %T", e)
	return Type{}
}

func (c *checker) builtin(x *Builtin) Type {
	switch x.Name {
	case "len":
		t := c.expr(x.Args[0])
		if isNil(x.Args[0]) {
			c.open("len(nil)")
		}
		if !t.Slice && t != TyStr || t.K == KVoid || t.K == KMulti {
			c.err("len of %v", t)
		}
		return TyInt
	case "itoa":
		c.want(x.Args[0], TyInt, "itoa")
		return TyStr
	case "exists":
		c.want(x.Args[0], TyStr, "exists")
		if isNil(x.Args[0]) {
			c.open("nil path")
		}
		return TyBool
	case "read":
		c.want(x.Args[0], TyStr, "read")
		if isNil(x.Args[0]) {
			c.open("nil path")
		}
		return TyStr
	case "input":
		if len(x.Args) > 0 {
			c.want(x.Args[0], TyStr, "input")
		}
		return TyStr
	case "copy":
		d := c.expr(x.Args[0])
		s := c.expr(x.Args[1])
		if isNil(x.Args[1]) && d.Slice {
			c.open("copy nil")
			return TyInt
		}
		if !d.Slice || d != s {
			c.err("copy %v %v", d, s)
		}
		if _, ok := x.Args[0].(*VarRef); !ok {
			c.open("copy into non-variable")
		}
		return TyInt
	}
	c.err("builtin %s", x.Name)
	return Type{}
}

func public(n string) bool { return n != "" && unicode.IsUpper([]rune(n)[0]) }

func (c *checker) call(x *Call) Type {
	m := c.mod
	if x.Alias != "" {
		im, ok := c.mod.Imports[x.Alias]
		if !ok {
			c.err("unknown alias %s", x.Alias)
		}
		m = im
		if !public(x.Name) {
			c.err("private function %s", x.Name)
		}
	}
	f, ok := m.Funcs[x.Name]
	if !ok {
		c.err("undefined function %s", x.Name)
	}
	if len(f.Params) != len(x.Args) {
		// f(g()) with a multi-value g is Go's rule for shared syntax; left open here
		if len(x.Args) == 1 {
			if g, ok := x.Args[0].(*Call); ok {
				if t := c.expr(g); t.K == KMulti {
					c.open("multi-value call as argument list")
					x.Fn = f
					return c.retType(f)
				}
			}
		}
		c.err("arity of %s", x.Name)
	}
	for i, a := range x.Args {
		c.want(a, f.Params[i].T, "argument")
	}
	x.Fn = f
	return c.retType(f)
}
func (c *checker) retType(f *FuncDef) Type {
	switch len(f.Rets) {
	case 0:
		return Type{}
	case 1:
		return f.Rets[0]
	}
	return Type{K: KMulti}
}

// values checks a value list for n targets; returns the value types.
func (c *checker) values(vals []Expr, n int) []Type {
	if len(vals) == 1 && n > 1 {
		switch x := vals[0].(type) {
		case *Call:
			t := c.expr(x)
			if t.K == KMulti {
				if len(x.Fn.Rets) != n {
					c.err("value count")
				}
				return x.Fn.Rets
			}
			c.err("value count")
		case *AppCall:
			c.expr(x)
			if n != 3 {
				c.err("program call yields three values")
			}
			return []Type{TyStr, TyStr, TyInt}
		}
	}
	if len(vals) != n {
		c.err("value count")
	}
	var ts []Type
	for _, v := range vals {
		t := c.expr(v)
		if t.K == KVoid || t.K == KMulti {
			c.err("no single value")
		}
		ts = append(ts, t)
	}
	return ts
}

func (c *checker) assignable(vals []Expr, i int, t, want Type) {
	if len(vals) > i && isNil(vals[i]) {
		if want.Slice {
			c.open("nil as slice")
			return
		}
	}
	if t != want {
		c.err("assign %v to %v", t, want)
	}
}

func (c *checker) block(b []Stmt) {
	c.push()
	c.depth++
	c.stmts(b)
	c.depth--
	c.pop()
}
func (c *checker) stmts(b []Stmt) {
	for _, s := range b {
		c.stmt(s)
	}
}

func (c *checker) def(d *DefStmt) {
	n := len(d.Names)
	seen := map[string]bool{}
	for _, nm := range d.Names {
		if seen[nm] {
			c.err("duplicate name %s", nm)
		}
		seen[nm] = true
	}
	existing := map[string]*Sym{}
	for _, nm := range d.Names {
		if s := c.lookup(nm); s != nil {
			if !d.Short || n == 1 {
				c.err("redefinition of %s", nm)
			}
			if s.block != c.sc {
				c.open(":= redeclares outer variable")
			}
			existing[nm] = s
		}
	}
	if len(existing) == n {
		c.err("no new variables")
	}
	var ts []Type
	if len(d.Vals) > 0 {
		ts = c.values(d.Vals, n)
		for i := range ts {
			if i < len(d.Vals) && isNil(d.Vals[i]) && d.Typ == nil {
				c.open("untyped nil definition")
			}
		}
	}
	if d.Typ != nil {
		for i, t := range ts {
			c.assignable(d.Vals, i, t, *d.Typ)
		}
	}
	for i, nm := range d.Names {
		if s := existing[nm]; s != nil {
			if ts[i] != s.T {
				c.err("type of %s", nm)
			}
			d.Syms = append(d.Syms, s)
			continue
		}
		var t Type
		if d.Typ != nil {
			t = *d.Typ
		} else {
			t = ts[i]
		}
		d.Syms = append(d.Syms, c.define(nm, t))
	}
}

func (c *checker) assign(a *AssignStmt) {
	ts := c.values(a.Vals, len(a.Names))
	for i, nm := range a.Names {
		s := c.use(nm)
		c.assignable(a.Vals, i, ts[i], s.T)
		a.Syms = append(a.Syms, s)
	}
}

func (c *checker) stmt(s Stmt) {
	switch x := s.(type) {
	case *DefStmt:
		c.def(x)
	case *AssignStmt:
		c.assign(x)
	case *OpAssign:
		x.Sym = c.use(x.Name)
		t := c.expr(x.Val)
		if t != x.Sym.T {
			c.err("op-assign type")
		}
		if !(t == TyInt || t == TyStr && x.Op == "+") {
			c.err("op-assign on %v", t)
		}
		if isNil(x.Val) {
			c.open("nil operand")
		}
	case *IncDec:
		x.Sym = c.use(x.Name)
		if x.Sym.T != TyInt {
			c.err("++ on %v", x.Sym.T)
		}
	case *SliceSet:
		x.Sym = c.use(x.Name)
		if !x.Sym.T.Slice {
			c.err("element of non-slice")
		}
		c.want(x.Idx, TyInt, "index")
		c.want(x.Val, Type{K: x.Sym.T.K}, "element")
	case *IfStmt:
		for i, cd := range x.Conds {
			c.want(cd, TyBool, "condition")
			c.block(x.Bodies[i])
		}
		if x.HasElse {
			c.block(x.Else)
		}
	case *SwitchStmt:
		t := TyBool
		if x.Tag != nil {
			t = c.expr(x.Tag)
			if isNil(x.Tag) {
				c.open("switch nil")
			}
		}
		if t.Slice || t.K == KVoid || t.K == KMulti {
			c.err("switch on %v", t)
		}
		def := 0
		for _, cs := range x.Cases {
			if cs.Default {
				def++
				if def > 1 {
					c.err("two defaults")
				}
			} else {
				c.want(cs.X, t, "case")
			}
			c.sw++
			c.block(cs.Body)
			c.sw--
		}
	case *ForStmt:
		c.push()
		c.depth++
		if x.Init != nil {
			switch x.Init.(type) {
			case *DefStmt, *AssignStmt:
			case *OpAssign, *IncDec:
			default:
				c.open("for init kind")
			}
			c.stmt(x.Init)
		}
		if x.Cond != nil {
			c.want(x.Cond, TyBool, "for condition")
		}
		if x.Post != nil {
			switch x.Post.(type) {
			case *AssignStmt, *OpAssign, *IncDec:
			case *DefStmt:
				c.err("definition in post statement")
			default:
				c.open("for post kind")
			}
			c.stmt(x.Post)
		}
		c.loopBody(x.Body)
		c.depth--
		c.pop()
	case *RangeStmt:
		t := c.expr(x.X)
		if isNil(x.X) {
			c.open("range over nil")
		}
		if !t.Slice && t != TyStr || t.K == KVoid || t.K == KMulti {
			c.err("range over %v", t)
		}
		c.push()
		c.depth++
		if c.lookup(x.K) != nil {
			c.err("redefinition of %s", x.K)
		}
		x.KSym = c.define(x.K, TyInt)
		if x.HasV {
			if c.lookup(x.V) != nil {
				c.err("redefinition of %s", x.V)
			}
			x.VSym = c.define(x.V, Type{K: t.K})
		}
		c.loopBody(x.Body)
		c.depth--
		c.pop()
	case *BreakStmt:
		if c.sw > 0 {
			if c.loop == 0 {
				c.open("break inside switch outside a loop")
			}
		} else if c.loop == 0 {
			c.err("break outside loop")
		}
	case *ContinueStmt:
		if c.loop == 0 {
			c.err("continue outside loop")
		}
	case *ReturnStmt:
		if c.fn == nil {
			c.err("return outside function")
		}
		if len(c.fn.Rets) == 0 {
			if len(x.Vals) > 0 {
				c.err("value returned from void function")
			}
			c.open("bare return")
			return
		}
		if len(x.Vals) == 1 && len(c.fn.Rets) > 1 {
			if g, ok := x.Vals[0].(*Call); ok {
				if c.expr(g).K == KMulti {
					c.open("multi-value call returned")
					return
				}
			}
		}
		if len(x.Vals) != len(c.fn.Rets) {
			c.err("return arity")
		}
		for i, v := range x.Vals {
			c.want(v, c.fn.Rets[i], "return value")
		}
	case *PrintStmt:
		for _, a := range x.Args {
			t := c.expr(a)
			if t.K == KMulti && len(x.Args) == 1 {
				if _, ok := a.(*Call); ok {
					continue
				}
				if _, ok := a.(*AppCall); ok {
					c.open("print of a program call")
					continue
				}
			}
			if t.K == KVoid || t.K == KMulti {
				c.err("print of no value")
			}
			if t.Slice {
				c.open("print of slice")
			}
		}
	case *PanicStmt:
		t := c.expr(x.X)
		if t.K == KVoid || t.K == KMulti {
			c.err("panic of no value")
		}
		if t != TyStr || isNil(x.X) {
			c.open("panic argument type")
		}
	case *WriteStmt:
		c.want(x.Args[0], TyStr, "path")
		c.want(x.Args[1], TyStr, "data")
		if isNil(x.Args[0]) || isNil(x.Args[1]) {
			c.open("nil path or data")
		}
		if len(x.Args) > 2 {
			c.want(x.Args[2], TyBool, "append")
		}
	case *ExprStmt:
		t := c.expr(x.X)
		switch x.X.(type) {
		case *Call, *AppCall, *Builtin:
		default:
			_ = t
			c.open("expression statement")
		}
	case *FuncDef:
		c.funcDef(x)
	default:
		c.err("unknown statement %T", s)
	}
}

func (c *checker) loopBody(b []Stmt) {
	sw := c.sw
	c.sw = 0
	c.loop++
	c.block(b)
	c.loop--
	c.sw = sw
}

func (c *checker) funcDef(f *FuncDef) {
	if c.depth > 0 || c.fn != nil {
		c.err("function below top level")
	}
	if _, ok := c.mod.Funcs[f.Name]; ok {
		c.err("duplicate function %s", f.Name)
	}
	f.Mod = c.mod
	c.push()
	c.sc.fn = true
	c.fn = f
	c.depth++
	for _, p := range f.Params {
		if c.lookup(p.Name) != nil {
			c.err("redefinition of %s", p.Name)
		}
		f.Syms = append(f.Syms, c.define(p.Name, p.T))
	}
	c.stmts(f.Body)
	if len(f.Rets) > 0 {
		last := len(f.Body) - 1
		if last < 0 || !terminating(f.Body[last]) {
			c.err("missing return in %s", f.Name)
		}
		if _, ok := f.Body[last].(*ReturnStmt); !ok {
			c.open("terminating statement other than return")
		}
	}
	c.depth--
	c.fn = nil
	c.pop()
	c.mod.Funcs[f.Name] = f
}

func termBlock(b []Stmt) bool { return len(b) > 0 && terminating(b[len(b)-1]) }

func terminating(s Stmt) bool {
	switch x := s.(type) {
	case *ReturnStmt, *PanicStmt:
		return true
	case *IfStmt:
		if !x.HasElse || !termBlock(x.Else) {
			return false
		}
		for _, b := range x.Bodies {
			if !termBlock(b) {
				return false
			}
		}
		return true
	case *ForStmt:
		return x.Cond == nil && !hasBreak(x.Body)
	case *SwitchStmt:
		def := false
		for _, cs := range x.Cases {
			if cs.Default {
				def = true
			}
			if !termBlock(cs.Body) || hasBreak(cs.Body) {
				return false
			}
		}
		return def
	}
	return false
}
func hasBreak(b []Stmt) bool {
	for _, s := range b {
		switch x := s.(type) {
		case *BreakStmt:
			return true
		case *IfStmt:
			for _, bb := range x.Bodies {
				if hasBreak(bb) {
					return true
				}
			}
			if hasBreak(x.Else) {
				return true
			}
		case *SwitchStmt:
			for _, cs := range x.Cases {
				if hasBreak(cs.Body) {
					return true
				}
			}
		}
	}
	return false
}

// Sources gives the text of every file by its absolute path.
type Sources struct {
	Files  map[string]string
	StdDir string
}

// real follows symbolic links: files whose text is "\x00->" and the target.
func (s Sources) real(path string) string {
	for n := 0; n < 20; n++ {
		again := false
		for i := 1; i <= len(path); i++ {
			if i == len(path) || path[i] == '/' {
				if t := s.Files[path[:i]]; strings.HasPrefix(t, "\x00->") {
					path = filepath.Join(filepath.Dir(path[:i]), t[3:]) + path[i:]
					again = true
					break
				}
			}
		}
		if !again {
			break
		}
	}
	return path
}

// CheckText checks a single-file program.
func CheckText(src string) (*Program, error) {
	return CheckFiles(Sources{Files: map[string]string{"/main.tsh": src}}, "/main.tsh")
}

// CheckFiles parses and checks a program with its imports. err != nil: the
// program is ill-formed. prog.Unspec != "": the language leaves it open.
func CheckFiles(src Sources, main string) (prog *Program, err error) {
	defer func() {
		if r := recover(); r != nil {
			if ce, ok := r.(cerr); ok {
				prog, err = nil, fmt.Errorf("%s", ce.msg)
				return
			}
			panic(r)
		}
	}()
	prog = &Program{}
	c := &checker{prog: prog}
	mods := map[string]*Module{}
	active := map[string]bool{}
	var load func(path string) *Module
	load = func(path string) *Module {
		path = src.real(path)
		if m, ok := mods[path]; ok {
			return m
		}
		if active[path] {
			c.err("import cycle")
		}
		active[path] = true
		text, ok := src.Files[path]
		if !ok {
			c.err("missing file %s", path)
		}
		f, e := Parse(text)
		if e != nil {
			c.err("%s: %v", path, e)
		}
		m := &Module{Path: path, File: f, Imports: map[string]*Module{}, Funcs: map[string]*FuncDef{}}
		for _, im := range f.Imports {
			ip := im.Path
			alias := im.Alias
			if !filepath.IsAbs(ip) {
				ip = filepath.Join(filepath.Dir(path), ip)
			}
			if _, ok := src.Files[src.real(ip)]; !ok {
				base := strings.TrimSuffix(im.Path, filepath.Ext(im.Path))
				ip = filepath.Join(src.StdDir, base+".tsh")
				if alias == "" {
					alias = filepath.Base(base)
				}
			} else if alias == "" {
				c.err("alias required for %s", im.Path)
			}
			im2 := load(ip)
			if _, dup := m.Imports[alias]; dup {
				c.err("duplicate alias %s", alias)
			}
			m.Imports[alias] = im2
		}
		// check the module body
		c.mod = m
		c.sc = newScope(nil)
		c.top = c.sc
		c.fn, c.loop, c.sw, c.depth = nil, 0, 0, 0
		c.stmts(f.Stmts)
		mods[path] = m
		active[path] = false
		prog.Mods = append(prog.Mods, m)
		return m
	}
	load(main)
	prog.NSyms = c.nsyms
	prog.Unspec = c.unspec
	return prog, nil
}
