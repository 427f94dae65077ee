package ref

import (
	"fmt"
	"strconv"
)

type parser struct {
	toks []Tok
	i    int
}

type perr struct{ msg string }

func (p *parser) fail(f string, a ...interface{}) {
	t := p.peek()
	panic(perr{fmt.Sprintf(f, a...) + fmt.Sprintf(" at %d:%d (%q)", t.Row, t.Col, t.S)})
}
func (p *parser) peek() Tok { return p.at(0) }
func (p *parser) at(n int) Tok {
	if p.i+n < len(p.toks) {
		return p.toks[p.i+n]
	}
	return Tok{}
}
func (p *parser) next() Tok { t := p.peek(); p.i++; return t }
func (p *parser) isOp(s string) bool {
	t := p.peek()
	return t.K == TOp && t.S == s
}
func (p *parser) isKw(s string) bool {
	t := p.peek()
	return t.K == TKeyword && t.S == s
}
func (p *parser) op(s string) {
	if !p.isOp(s) {
		p.fail("expected %q", s)
	}
	p.i++
}
func (p *parser) ident() string {
	if p.peek().K != TIdent {
		p.fail("expected identifier")
	}
	return p.next().S
}
func (p *parser) skipNL() {
	for p.peek().K == TNL {
		p.i++
	}
}

// Parse parses one source file.
func Parse(src string) (f *File, err error) {
	toks, e := Lex(src)
	if e != nil {
		return nil, e
	}
	p := &parser{toks: toks}
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(perr); ok {
				f, err = nil, fmt.Errorf("%s", pe.msg)
				return
			}
			panic(r)
		}
	}()
	f = &File{}
	p.skipNL()
	if p.isKw("import") {
		p.i++
		one := func() {
			im := Import{}
			if p.peek().K == TIdent {
				im.Alias = p.next().S
			}
			if p.peek().K != TString {
				p.fail("import path")
			}
			im.Path = p.next().S
			f.Imports = append(f.Imports, im)
			if p.peek().K != TNL && p.peek().K != TEOF {
				p.fail("newline")
			}
		}
		if p.isOp("(") {
			p.i++
			p.skipNL()
			for !p.isOp(")") {
				one()
				p.skipNL()
			}
			p.i++
		} else {
			one()
		}
	}
	f.Stmts = p.block(func() bool { return p.peek().K == TEOF })
	return f, nil
}

func (p *parser) block(end func() bool) []Stmt {
	out := []Stmt{}
	for {
		p.skipNL()
		if end() {
			return out
		}
		out = append(out, p.stmt())
		if p.peek().K == TNL {
			continue
		}
		if !end() {
			p.fail("expected newline")
		}
	}
}
func (p *parser) braces() []Stmt {
	p.op("{")
	if p.peek().K != TNL {
		p.fail("expected newline")
	}
	b := p.block(func() bool { return p.isOp("}") || p.peek().K == TEOF })
	p.op("}")
	return b
}
func (p *parser) typ() Type {
	t := Type{}
	if p.isOp("[") {
		p.i++
		p.op("]")
		t.Slice = true
	}
	if p.peek().K != TType {
		p.fail("expected type")
	}
	switch p.next().S {
	case "int":
		t.K = KInt
	case "bool":
		t.K = KBool
	default:
		t.K = KString
	}
	return t
}
func (p *parser) typeStart() bool { return p.isOp("[") || p.peek().K == TType }

func (p *parser) names() []string {
	ns := []string{p.ident()}
	for p.isOp(",") {
		p.i++
		ns = append(ns, p.ident())
	}
	return ns
}
func (p *parser) exprs() []Expr {
	es := []Expr{p.expr()}
	for p.isOp(",") {
		p.i++
		es = append(es, p.expr())
	}
	return es
}
func (p *parser) args() []Expr {
	p.op("(")
	es := []Expr{}
	for !p.isOp(")") {
		es = append(es, p.expr())
		if p.isOp(",") {
			p.i++
			continue
		}
		break
	}
	p.op(")")
	return es
}

// shortInit looks ahead for "a, b :=".
func (p *parser) shortInit() bool {
	for n := 0; ; n++ {
		t := p.at(n)
		if t.K == TOp && t.S == ":=" {
			return n > 0
		}
		if !(t.K == TIdent || t.K == TOp && t.S == ",") {
			return false
		}
	}
}

func (p *parser) simple() Stmt {
	t := p.peek()
	if t.K == TKeyword && t.S == "var" {
		p.i++
		d := &DefStmt{Names: p.names()}
		if p.typeStart() {
			ty := p.typ()
			d.Typ = &ty
		}
		if p.isOp("=") {
			p.i++
			d.Vals = p.exprs()
		} else if d.Typ == nil {
			p.fail("type or value expected")
		}
		return d
	}
	if p.shortInit() {
		d := &DefStmt{Short: true, Names: p.names()}
		p.op(":=")
		d.Vals = p.exprs()
		return d
	}
	if t.K == TIdent {
		n := p.at(1)
		if n.K == TOp {
			switch n.S {
			case "++", "--":
				p.i += 2
				return &IncDec{Name: t.S, Dec: n.S == "--"}
			case "+=", "-=", "*=", "/=", "%=":
				p.i += 2
				return &OpAssign{Name: t.S, Op: n.S[:1], Val: p.expr()}
			case "=", ",":
				a := &AssignStmt{Names: p.names()}
				p.op("=")
				a.Vals = p.exprs()
				return a
			case "[":
				save := p.i
				p.i += 2
				if !p.isOp(":") {
					idx := p.expr()
					if p.isOp("]") {
						p.i++
						if p.isOp("=") {
							p.i++
							return &SliceSet{Name: t.S, Idx: idx, Val: p.expr()}
						}
					}
				}
				p.i = save
			}
		}
	}
	return &ExprStmt{X: p.expr()}
}

func (p *parser) stmt() Stmt {
	t := p.peek()
	if t.K == TKeyword {
		switch t.S {
		case "func":
			return p.funcDef()
		case "return":
			p.i++
			if p.peek().K == TNL || p.peek().K == TEOF || p.isOp("}") {
				return &ReturnStmt{}
			}
			return &ReturnStmt{Vals: p.exprs()}
		case "if":
			s := &IfStmt{}
			p.i++
			s.Conds = append(s.Conds, p.expr())
			s.Bodies = append(s.Bodies, p.braces())
			for p.isKw("else") {
				p.i++
				if p.isKw("if") {
					p.i++
					s.Conds = append(s.Conds, p.expr())
					s.Bodies = append(s.Bodies, p.braces())
					continue
				}
				s.HasElse = true
				s.Else = p.braces()
				break
			}
			return s
		case "switch":
			p.i++
			s := &SwitchStmt{}
			if !p.isOp("{") {
				s.Tag = p.expr()
			}
			p.op("{")
			if p.peek().K != TNL {
				p.fail("expected newline")
			}
			p.skipNL()
			for !p.isOp("}") {
				c := &SwitchCase{}
				if p.isKw("case") {
					p.i++
					c.X = p.expr()
				} else if p.isKw("default") {
					p.i++
					c.Default = true
				} else {
					p.fail("expected case")
				}
				p.op(":")
				c.Body = p.block(func() bool {
					return p.isKw("case") || p.isKw("default") || p.isOp("}") || p.peek().K == TEOF
				})
				s.Cases = append(s.Cases, c)
			}
			p.op("}")
			return s
		case "for":
			p.i++
			// range form
			if p.peek().K == TIdent {
				n := 1
				if q := p.at(1); q.K == TOp && q.S == "," && p.at(2).K == TIdent {
					n = 3
				}
				if q := p.at(n); q.K == TOp && q.S == ":=" {
					if r := p.at(n + 1); r.K == TKeyword && r.S == "range" {
						s := &RangeStmt{K: p.peek().S}
						if n == 3 {
							s.V, s.HasV = p.at(2).S, true
						}
						p.i += n + 2
						s.X = p.expr()
						s.Body = p.braces()
						return s
					}
				}
			}
			s := &ForStmt{}
			if p.isOp("{") {
				s.Body = p.braces()
				return s
			}
			three := false
			for n := 0; ; n++ {
				q := p.at(n)
				if q.K == TEOF || q.K == TNL || q.K == TOp && q.S == "{" && !(n > 0 && p.at(n-1).K == TType) {
					break
				}
				if q.K == TOp && q.S == ";" {
					three = true
					break
				}
			}
			if !three {
				s.Cond = p.expr()
				s.Body = p.braces()
				return s
			}
			if !p.isOp(";") {
				s.Init = p.simple()
			}
			p.op(";")
			if !p.isOp(";") {
				s.Cond = p.expr()
			}
			p.op(";")
			if !p.isOp("{") {
				s.Post = p.simple()
			}
			s.Body = p.braces()
			return s
		case "break":
			p.i++
			return &BreakStmt{}
		case "continue":
			p.i++
			return &ContinueStmt{}
		case "print":
			p.i++
			return &PrintStmt{Args: p.args()}
		case "panic":
			p.i++
			a := p.args()
			if len(a) != 1 {
				p.fail("panic arity")
			}
			return &PanicStmt{X: a[0]}
		case "write":
			p.i++
			a := p.args()
			if len(a) < 2 || len(a) > 3 {
				p.fail("write arity")
			}
			return &WriteStmt{Args: a}
		case "import", "else", "case", "default", "range":
			p.fail("unexpected keyword")
		}
	}
	return p.simple()
}

func (p *parser) funcDef() Stmt {
	p.i++
	f := &FuncDef{Name: p.ident()}
	if p.isOp("(") {
		p.i++
		for !p.isOp(")") {
			f.Params = append(f.Params, Param{Name: p.ident(), T: p.typ()})
			if p.isOp(",") {
				p.i++
				continue
			}
			break
		}
		p.op(")")
	}
	if p.isOp("(") {
		p.i++
		for !p.isOp(")") {
			f.Rets = append(f.Rets, p.typ())
			if p.isOp(",") {
				p.i++
				continue
			}
			break
		}
		p.op(")")
	} else if p.typeStart() {
		f.Rets = append(f.Rets, p.typ())
	}
	f.Body = p.braces()
	return f
}

var prec = map[string]int{"||": 1, "&&": 2, "==": 3, "!=": 3, "<": 3, "<=": 3, ">": 3, ">=": 3, "+": 4, "-": 4, "*": 5, "/": 5, "%": 5}

func (p *parser) expr() Expr { return p.binary(1) }

func (p *parser) binary(min int) Expr {
	l := p.unary()
	for {
		t := p.peek()
		if t.K != TOp {
			return l
		}
		pr := prec[t.S]
		if pr == 0 || pr < min {
			return l
		}
		p.i++
		r := p.binary(pr + 1)
		l = &Bin{Op: t.S, L: l, R: r}
	}
}

func (p *parser) unary() Expr {
	if p.isOp("!") {
		p.i++
		return &Unary{X: p.unary()}
	}
	return p.primary()
}

func (p *parser) primary() Expr {
	t := p.peek()
	switch t.K {
	case TInt:
		v, err := strconv.ParseInt(t.S, 10, 64)
		if err != nil {
			p.fail("integer range")
		}
		p.i++
		return &Lit{T: TyInt, I: v}
	case TBool:
		p.i++
		return &Lit{T: TyBool, B: t.S == "true"}
	case TString:
		p.i++
		return &Lit{T: TyStr, S: t.S}
	case TNil:
		p.i++
		return &Lit{T: TyStr, Nil: true}
	case TIdent:
		n := p.at(1)
		if n.K == TOp && n.S == "(" {
			p.i++
			return &Call{Name: t.S, Args: p.args()}
		}
		if n.K == TOp && n.S == "." {
			p.i += 2
			return &Call{Alias: t.S, Name: p.ident(), Args: p.args()}
		}
		p.i++
		v := &VarRef{Name: t.S}
		if n.K == TOp && n.S == "[" {
			p.i++
			var lo, hi Expr
			if p.isOp(":") {
				p.i++
				if !p.isOp("]") {
					hi = p.expr()
				}
				p.op("]")
				return &Substr{V: v, Hi: hi}
			}
			lo = p.expr()
			if p.isOp(":") {
				p.i++
				if !p.isOp("]") {
					hi = p.expr()
				}
				p.op("]")
				return &Substr{V: v, Lo: lo, Hi: hi}
			}
			p.op("]")
			return &Index{V: v, I: lo}
		}
		return v
	case TKeyword:
		ar := map[string][2]int{"len": {1, 1}, "input": {0, 1}, "copy": {2, 2}, "itoa": {1, 1}, "exists": {1, 1}, "read": {1, 1}}
		if a, ok := ar[t.S]; ok {
			p.i++
			args := p.args()
			if len(args) < a[0] || len(args) > a[1] {
				p.fail("arity of %s", t.S)
			}
			return &Builtin{Name: t.S, Args: args}
		}
	case TOp:
		switch t.S {
		case "(":
			p.i++
			x := p.expr()
			p.op(")")
			return &Paren{X: x}
		case "[":
			ty := p.typ()
			ty.Slice = false
			s := &SliceLit{Elem: ty}
			p.op("{")
			if !p.isOp("}") {
				s.Vals = p.exprs()
			}
			p.op("}")
			return s
		case "@":
			a := &AppCall{}
			for {
				p.op("@")
				n := p.next()
				if n.K != TIdent && n.K != TString {
					p.fail("program name")
				}
				a.Names = append(a.Names, n.S)
				a.Args = append(a.Args, p.args())
				if !p.isOp("|") {
					return a
				}
				p.i++
			}
		}
	}
	p.fail("unexpected token in expression")
	return nil
}
