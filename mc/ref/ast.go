package ref

type Kind int

const (
	KVoid Kind = iota
	KInt
	KBool
	KString
	KMulti
)

type Type struct {
	K     Kind
	Slice bool
}

var (
	TyInt  = Type{K: KInt}
	TyBool = Type{K: KBool}
	TyStr  = Type{K: KString}
)

func (t Type) String() string {
	s := [...]string{"void", "int", "bool", "string", "multi"}[t.K]
	if t.Slice {
		return "[]" + s
	}
	return s
}

type Sym struct {
	ID     int
	Name   string
	T      Type
	Global bool
	block  *scope
}

type Expr interface{}

type Lit struct {
	T   Type
	I   int64
	S   string
	B   bool
	Nil bool
}
type VarRef struct {
	Name string
	Sym  *Sym
}
type Unary struct{ X Expr }
type Bin struct {
	Op   string
	L, R Expr
	T    Type // operand type
}
type Paren struct{ X Expr }
type Call struct {
	Alias, Name string
	Args        []Expr
	Fn          *FuncDef
}
type SliceLit struct {
	Elem Type
	Vals []Expr
}
type Index struct {
	V *VarRef
	I Expr
}
type Substr struct {
	V      *VarRef
	Lo, Hi Expr
}
type Builtin struct {
	Name string
	Args []Expr
	T    Type
}
type AppCall struct {
	Names []string
	Args  [][]Expr
}

type Stmt interface{}

type DefStmt struct {
	Names []string
	Typ   *Type
	Vals  []Expr
	Short bool
	Syms  []*Sym
}
type AssignStmt struct {
	Names []string
	Vals  []Expr
	Syms  []*Sym
}
type OpAssign struct {
	Name string
	Op   string
	Val  Expr
	Sym  *Sym
}
type IncDec struct {
	Name string
	Dec  bool
	Sym  *Sym
}
type SliceSet struct {
	Name     string
	Idx, Val Expr
	Sym      *Sym
}
type IfStmt struct {
	Conds   []Expr
	Bodies  [][]Stmt
	HasElse bool
	Else    []Stmt
}
type SwitchCase struct {
	X       Expr
	Default bool
	Body    []Stmt
}
type SwitchStmt struct {
	Tag   Expr
	Cases []*SwitchCase
}
type ForStmt struct {
	Init Stmt
	Cond Expr
	Post Stmt
	Body []Stmt
}
type RangeStmt struct {
	K, V       string
	HasV       bool
	X          Expr
	Body       []Stmt
	KSym, VSym *Sym
}
type BreakStmt struct{}
type ContinueStmt struct{}
type ReturnStmt struct{ Vals []Expr }
type ExprStmt struct{ X Expr }
type PrintStmt struct{ Args []Expr }
type PanicStmt struct{ X Expr }
type WriteStmt struct{ Args []Expr }
type Param struct {
	Name string
	T    Type
}
type FuncDef struct {
	Name   string
	Params []Param
	Rets   []Type
	Body   []Stmt
	Syms   []*Sym
	Mod    *Module
}
type Import struct{ Alias, Path string }
type File struct {
	Imports []Import
	Stmts   []Stmt
}
type Module struct {
	Path    string
	File    *File
	Imports map[string]*Module
	Funcs   map[string]*FuncDef
}
type Program struct {
	Mods   []*Module // in initialisation order, main last
	NSyms  int
	Unspec string // non-empty: the language leaves the meaning (or acceptance) open
}
