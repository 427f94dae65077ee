// Package cmdemu executes the part of cmd.exe's batch language the TypeShell
// Batch back-end emits, following the documented parsing rules: parse-time
// %-expansion per line, phase-2 tokenisation with blocks, run-time
// !-expansion, forward-then-wrap label search, call frames, 32-bit set /A.
package cmdemu

import "strings"

// NodeKind is the kind of a parsed command.
type NodeKind int

const (
	Simple NodeKind = iota
	Block
	If
	For
	Seq // a & b, a && b, a || b
	Pipe
	Label // label within a block
	Rem
)

type redir struct {
	op, file string
}

// Node is a parsed command.
type Node struct {
	Kind  NodeKind
	Line  int
	End   int    // last line
	Text  string // Simple: text with escapes processed; Label: token
	Kids  []*Node
	Else  *Node
	Op    string // If: operator, Seq: separator
	Not   bool
	Fold  bool // if /i
	L, R  string
	Var   string // For
	In    string
	Opt   string
	Exec  bool // Label: executed label
	Redir []redir
	name  string
	nameN int
}

type synErr struct{ msg string }

func isDelim(c byte) bool { return c == ' ' || c == '\t' || c == ',' || c == ';' || c == '=' }

// source gives the lines to the parser.
type source interface {
	// next returns the next line after %-expansion.
	next() (text string, ok bool)
	// line is the number of the line returned last.
	line() int
}

type parser struct {
	src source
	buf string
	i   int
	esc bool // the next char is escaped (line continuation)
}

func (p *parser) fail(tok string) {
	panic(synErr{tok + " was unexpected at this time."})
}

func (p *parser) eol() bool { return p.i >= len(p.buf) }

func (p *parser) skip() {
	for !p.eol() && isDelim(p.buf[p.i]) {
		p.i++
	}
}

func (p *parser) rest() string {
	if p.eol() {
		return "The syntax of the command is incorrect. (end of line)"
	}
	s := p.buf[p.i:]
	for k := 0; k < len(s); k++ {
		if isDelim(s[k]) && k > 0 {
			return s[:k]
		}
	}
	return s
}

// parseNext parses the next top-level command; nil at the end of the file.
func parseNext(src source) *Node {
	p := &parser{src: src}
	for {
		t, ok := src.next()
		if !ok {
			return nil
		}
		p.buf, p.i = t, 0
		p.skip()
		if p.eol() || p.buf[p.i] == ':' || p.buf[p.i] == ')' {
			continue
		}
		n := p.seq(0)
		p.skip()
		if !p.eol() {
			p.fail(p.rest())
		}
		return n
	}
}

func (p *parser) peekOp() string {
	p.skipBlanks()
	if p.eol() {
		return ""
	}
	switch {
	case strings.HasPrefix(p.buf[p.i:], "&&"):
		return "&&"
	case strings.HasPrefix(p.buf[p.i:], "||"):
		return "||"
	case p.buf[p.i] == '&':
		return "&"
	case p.buf[p.i] == '|':
		return "|"
	}
	return ""
}

func (p *parser) skipBlanks() {
	for !p.eol() && (p.buf[p.i] == ' ' || p.buf[p.i] == '\t') {
		p.i++
	}
}

// seq: & is the weakest operator, then ||, &&, |.
func (p *parser) seq(depth int) *Node {
	ops := []string{"&", "||", "&&", "|"}
	var level func(k int) *Node
	level = func(k int) *Node {
		if k == len(ops) {
			return p.command(depth)
		}
		n := level(k + 1)
		for p.peekOp() == ops[k] {
			p.i += len(ops[k])
			p.skip()
			if ops[k] == "&" && (p.eol() || depth > 0 && p.buf[p.i] == ')') {
				return n
			}
			r := level(k + 1)
			kind := Seq
			if ops[k] == "|" {
				kind = Pipe
			}
			n = &Node{Kind: kind, Op: ops[k], Kids: []*Node{n, r}, Line: n.Line, End: r.End}
		}
		return n
	}
	return level(0)
}

// word peeks the next plain word.
func (p *parser) word() string {
	k := p.i
	for k < len(p.buf) && !isDelim(p.buf[k]) && !strings.ContainsRune("()&|<>\"", rune(p.buf[k])) {
		k++
	}
	return p.buf[p.i:k]
}

func (p *parser) command(depth int) *Node {
	for {
		p.skip()
		if !p.eol() && p.buf[p.i] == '@' {
			p.i++
			continue
		}
		break
	}
	if p.eol() {
		p.fail("end of line")
	}
	if p.buf[p.i] == '(' {
		return p.block()
	}
	if p.buf[p.i] == ')' {
		p.fail(")")
	}
	if c := p.buf[p.i]; c == '&' || c == '|' {
		p.fail(string(c))
	}
	switch w := strings.ToLower(p.word()); w {
	case "if":
		p.i += len(w)
		return p.ifCmd(depth)
	case "for":
		p.i += len(w)
		return p.forCmd(depth)
	case "rem":
		n := &Node{Kind: Rem, Line: p.src.line(), End: p.src.line()}
		p.i = len(p.buf)
		return n
	}
	return p.simple(depth)
}

// advanceLine reads the next line within a block.
func (p *parser) advanceLine() {
	t, ok := p.src.next()
	if !ok {
		panic(synErr{"unbalanced parenthesis: end of file within a block"})
	}
	p.buf, p.i = t, 0
}

func (p *parser) block() *Node {
	b := &Node{Kind: Block, Line: p.src.line()}
	p.i++ // (
	first := false
	for {
		p.skip()
		if p.eol() {
			p.advanceLine()
			first = true
			continue
		}
		if p.buf[p.i] == ')' {
			p.i++
			b.End = p.src.line()
			break
		}
		if first && p.buf[p.i] == ':' {
			// an unexecuted label must be followed by a command or an executed label
			b.Kids = append(b.Kids, p.label(false))
			p.advanceLine()
			p.skip()
			if p.eol() || p.buf[p.i] == ')' {
				p.fail(")")
			}
			if p.buf[p.i] == ':' {
				b.Kids = append(b.Kids, p.label(true))
				p.i = len(p.buf)
				continue
			}
			if p.buf[p.i] == '(' {
				panic(synErr{"parenthesis after a label within a block"})
			}
		}
		b.Kids = append(b.Kids, p.seq(1))
		p.skip()
		if !p.eol() && p.buf[p.i] != ')' {
			p.fail(p.rest())
		}
		first = false
	}
	p.redirs(b)
	return b
}

func labelName(s string) string {
	s = strings.TrimLeft(s, ":")
	s = strings.TrimLeft(s, " \t,;=")
	for i := 0; i < len(s); i++ {
		if strings.ContainsRune(" \t,;=:+&<>|()^\r\n", rune(s[i])) {
			return strings.ToLower(s[:i])
		}
	}
	return strings.ToLower(s)
}

func (p *parser) label(exec bool) *Node {
	n := &Node{Kind: Label, Line: p.src.line(), End: p.src.line(), Text: p.buf[p.i:], Exec: exec}
	if strings.HasSuffix(p.buf, "^") {
		panic(synErr{"line continuation in a label"})
	}
	p.i = len(p.buf)
	return n
}

// token reads up to an unquoted delimiter.
func (p *parser) token(extra string) string {
	var b strings.Builder
	q := false
	for !p.eol() {
		c := p.buf[p.i]
		if c == '"' {
			q = !q
		} else if !q {
			if isDelim(c) || strings.ContainsRune("&|<>", rune(c)) || strings.ContainsRune(extra, rune(c)) {
				break
			}
			if c == '^' && p.i+1 < len(p.buf) {
				p.i++
				c = p.buf[p.i]
			}
		}
		b.WriteByte(c)
		p.i++
	}
	return b.String()
}

func (p *parser) ifCmd(depth int) *Node {
	n := &Node{Kind: If, Line: p.src.line()}
	for {
		p.skip()
		switch w := strings.ToLower(p.word()); {
		case w == "not":
			n.Not = !n.Not
			p.i += 3
			continue
		case w == "/i":
			n.Fold = true
			p.i += 2
			continue
		case w == "defined" || w == "exist" || w == "errorlevel" || w == "cmdextversion":
			n.Op = w
			p.i += len(w)
			p.skip()
			n.L = p.token("")
		default:
			n.L = p.token("")
			if n.L == "" {
				p.fail(p.rest())
			}
			if p.eol() {
				panic(synErr{"The syntax of the command is incorrect."})
			}
			if k := p.i; strings.HasPrefix(strings.TrimLeft(p.buf[k:], " \t,;"), "==") {
				n.Op = "=="
				p.i = strings.Index(p.buf[k:], "==") + k + 2
			} else {
				p.skip()
				n.Op = strings.ToLower(p.token(""))
				switch n.Op {
				case "equ", "neq", "lss", "leq", "gtr", "geq":
				default:
					p.fail(n.Op)
				}
			}
			p.skip()
			n.R = p.token("")
			if n.R == "" {
				panic(synErr{"The syntax of the command is incorrect."})
			}
		}
		break
	}
	p.skip()
	if p.eol() {
		panic(synErr{"The syntax of the command is incorrect."})
	}
	paren := p.buf[p.i] == '('
	var then *Node
	if paren {
		then = p.block()
	} else {
		then = p.seq(depth)
	}
	n.Kids = []*Node{then}
	n.End = p.src.line()
	if paren {
		p.skip()
		if w := strings.ToLower(p.word()); w == "else" {
			p.i += 4
			p.skip()
			if p.eol() {
				panic(synErr{"The syntax of the command is incorrect."})
			}
			n.Else = p.seq(depth)
			n.End = p.src.line()
		}
	}
	return n
}

func (p *parser) forCmd(depth int) *Node {
	n := &Node{Kind: For, Line: p.src.line()}
	p.skip()
	if w := strings.ToLower(p.word()); strings.HasPrefix(w, "/") {
		n.Op = w
		p.i += len(w)
		p.skip()
		if !p.eol() && p.buf[p.i] == '"' {
			k := strings.IndexByte(p.buf[p.i+1:], '"')
			if k < 0 {
				p.fail(p.rest())
			}
			n.Opt = p.buf[p.i+1 : p.i+1+k]
			p.i += k + 2
		} else if n.Op == "/f" {
			// options without quotes: delimiters are escaped
			for !p.eol() && p.buf[p.i] != '%' && !isDelim(p.buf[p.i]) {
				if p.buf[p.i] == '^' && p.i+1 < len(p.buf) {
					p.i++
				}
				n.Opt += string(p.buf[p.i])
				p.i++
			}
		}
	}
	p.skip()
	v := p.token("(")
	if len(v) != 2 || v[0] != '%' {
		p.fail(v)
	}
	n.Var = v[1:]
	p.skip()
	if strings.ToLower(p.word()) != "in" {
		p.fail(p.rest())
	}
	p.i += 2
	p.skip()
	if p.eol() || p.buf[p.i] != '(' {
		p.fail(p.rest())
	}
	p.i++
	q := false
	k := p.i
	for ; ; k++ {
		if k >= len(p.buf) {
			panic(synErr{"in clause over several lines"})
		}
		if p.buf[k] == '"' {
			q = !q
		}
		if p.buf[k] == ')' && !q {
			break
		}
	}
	n.In = p.buf[p.i:k]
	p.i = k + 1
	p.skip()
	if strings.ToLower(p.word()) != "do" {
		p.fail(p.rest())
	}
	p.i += 2
	p.skip()
	if p.eol() {
		panic(synErr{"The syntax of the command is incorrect."})
	}
	n.Kids = []*Node{p.seq(depth)}
	n.End = p.src.line()
	return n
}

func (p *parser) redirs(n *Node) {
	for {
		k := p.i
		p.skipBlanks()
		if p.eol() || p.buf[p.i] != '<' && p.buf[p.i] != '>' {
			p.i = k
			return
		}
		p.redir(n, "")
	}
}

func (p *parser) redir(n *Node, fd string) {
	op := fd + string(p.buf[p.i])
	p.i++
	if !p.eol() && p.buf[p.i] == '>' {
		op += ">"
		p.i++
	}
	if !p.eol() && p.buf[p.i] == '&' {
		op += "&"
		p.i++
	}
	p.skipBlanks()
	f := p.token(")")
	if f == "" {
		p.fail(p.rest())
	}
	n.Redir = append(n.Redir, redir{op, f})
}

func (p *parser) simple(depth int) *Node {
	n := &Node{Kind: Simple, Line: p.src.line()}
	var b strings.Builder
	q := false
loop:
	for {
		if p.eol() {
			break
		}
		c := p.buf[p.i]
		switch {
		case c == '"':
			q = !q
		case q:
		case c == '^':
			p.i++
			if p.eol() {
				// line continuation: the first character of the next line is escaped
				t, ok := p.src.next()
				if !ok {
					break loop
				}
				p.buf, p.i = t, 0
				if len(t) == 0 {
					b.WriteByte('\n')
					t, ok = p.src.next()
					if !ok {
						p.buf, p.i = "", 0
						break loop
					}
					p.buf, p.i = t, 0
					continue
				}
			}
			b.WriteByte(p.buf[p.i])
			p.i++
			continue
		case c == '&' || c == '|':
			break loop
		case c == ')' && depth > 0:
			break loop
		case c == '<' || c == '>':
			fd := ""
			if s := b.String(); len(s) > 1 && s[len(s)-1] >= '0' && s[len(s)-1] <= '9' && isDelim(s[len(s)-2]) {
				fd = s[len(s)-1:]
				b.Reset()
				b.WriteString(s[:len(s)-1])
			}
			p.redir(n, fd)
			continue
		}
		b.WriteByte(c)
		p.i++
	}
	n.Text = b.String()
	n.End = p.src.line()
	n.name, n.nameN = commandName(n.Text)
	return n
}

// commandName splits off the command token.
func commandName(t string) (string, int) {
	if t == "" {
		return "", 0
	}
	if t[0] == '"' {
		if k := strings.IndexByte(t[1:], '"'); k >= 0 {
			return t[:k+2], k + 2
		}
		return t, len(t)
	}
	for i := 0; i < len(t); i++ {
		if strings.ContainsRune(" \t,;=+/.:[]()\"\\\n", rune(t[i])) {
			w := strings.ToLower(t[:i])
			if internal[w] {
				return w, i
			}
			if isDelim(t[i]) || t[i] == '\n' {
				return t[:i], i
			}
		}
	}
	return t, len(t)
}

var internal = map[string]bool{"set": true, "echo": true, "call": true, "goto": true, "exit": true, "setlocal": true, "endlocal": true, "rem": true, "shift": true}
