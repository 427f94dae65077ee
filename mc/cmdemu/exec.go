package cmdemu

import (
	"fmt"
	"strconv"
	"strings"
)

type Options struct {
	Stdin    []string
	MaxSteps int
	MaxOut   int
	Env      map[string]string
	Names    map[string]bool // if set, collects the name of every variable the script sets (upper case)
	NoPrompt bool            // set /p shows no prompt (as read in Bash without a terminal)
	// Program, if set, answers for external programs: output and exit status (ok = program exists).
	Program func(name string, args []string, stdin string) (out string, status int, ok bool)
}

type Result struct {
	Out, Err string
	Exit     int
	Hang     bool
	// Unsupported names the feature the emulator does not model.
	Unsupported string
	Steps       int
}

type frame struct {
	pos  int
	args []string
	loc  int // setlocal depth at entry
}

type parsed struct {
	n   *Node
	end int
}

// Script is a prepared script; it may be run several times.
type Script struct {
	lines  []string
	labels map[string][]int
	cache  map[int]parsed
}

type emu struct {
	*Script
	o       Options
	vars    map[string]string
	saved   []savedEnv
	delayed bool
	out     strings.Builder
	err     strings.Builder
	level   int
	steps   int
	fors    []forVar
	stdin   []string
	res     Result
	frames  int
}

type savedEnv struct {
	vars    map[string]string
	delayed bool
}

type forVar struct{ name, val string }

type unsupported struct{ what string }
type hang struct{}

type ctlKind int

const (
	ctlNone ctlKind = iota
	ctlGoto
	ctlExitB
	ctlExit
)

type ctl struct {
	k     ctlKind
	label string
}

// Prepare splits the script into lines.
func Prepare(text string) *Script {
	s := &Script{labels: map[string][]int{}, cache: map[int]parsed{}}
	text = strings.ReplaceAll(text, "\r", "")
	s.lines = strings.Split(text, "\n")
	if n := len(s.lines); n > 0 && s.lines[n-1] == "" {
		s.lines = s.lines[:n-1]
	}
	for i, l := range s.lines {
		t := strings.TrimLeft(l, " \t,;=")
		if strings.HasPrefix(t, ":") && !strings.HasPrefix(t, "::") {
			n := labelName(t)
			s.labels[n] = append(s.labels[n], i)
		}
	}
	return s
}

func Run(text string, o Options) Result { return Prepare(text).Run(o) }

func (s *Script) Run(o Options) (res Result) {
	if o.MaxSteps == 0 {
		o.MaxSteps = 100000
	}
	if o.MaxOut == 0 {
		o.MaxOut = 1 << 20
	}
	e := &emu{Script: s, o: o, vars: map[string]string{}, stdin: o.Stdin}
	for k, v := range o.Env {
		e.vars[strings.ToUpper(k)] = v
	}
	done := func() {
		res = e.res
		res.Out, res.Err, res.Exit, res.Steps = e.out.String(), e.err.String(), e.level, e.steps
	}
	defer func() {
		switch r := recover().(type) {
		case nil:
		case synErr:
			e.err.WriteString(r.msg + "\n")
			e.level = 255
			done()
		case unsupported:
			e.res.Unsupported = r.what
			done()
		case hang:
			e.res.Hang = true
			done()
		default:
			panic(r)
		}
	}()
	e.frame(&frame{args: []string{"script.bat"}})
	done()
	return res
}

// frameSource reads lines for a frame.
type frameSource struct {
	e       *emu
	f       *frame
	dynamic bool
}

func (s *frameSource) next() (string, bool) {
	if s.f.pos >= len(s.e.lines) {
		return "", false
	}
	l := s.e.lines[s.f.pos]
	s.f.pos++
	if strings.IndexByte(l, '%') < 0 {
		return l, true
	}
	t, dyn := s.e.percent(l, s.f.args)
	s.dynamic = s.dynamic || dyn
	return t, true
}

func (s *frameSource) line() int { return s.f.pos - 1 }

func (e *emu) frame(f *frame) ctl {
	f.loc = len(e.saved)
	e.frames++
	if e.frames > 400 {
		panic(unsupported{"call depth"})
	}
	defer func() {
		e.frames--
		for len(e.saved) > f.loc {
			e.endlocal()
		}
	}()
	fors := e.fors
	for {
		var n *Node
		if c, ok := e.cache[f.pos]; ok {
			n, f.pos = c.n, c.end
		} else {
			start := f.pos
			src := &frameSource{e: e, f: f}
			n = parseNext(src)
			if !src.dynamic {
				e.cache[start] = parsed{n, f.pos}
			}
		}
		if n == nil {
			return ctl{}
		}
		c := e.exec(n, f)
		switch c.k {
		case ctlGoto:
			e.fors = fors
			if c.label == "eof" {
				return ctl{}
			}
			t := -1
			ls := e.labels[c.label]
			for _, l := range ls {
				if l >= f.pos {
					t = l
					break
				}
			}
			if t < 0 && len(ls) > 0 {
				t = ls[0]
			}
			if t < 0 {
				e.err.WriteString("The system cannot find the batch label specified - " + c.label + "\n")
				e.level = 1
				return ctl{k: ctlExit}
			}
			f.pos = t + 1
		case ctlExitB:
			return ctl{}
		case ctlExit:
			return c
		}
	}
}

func (e *emu) exec(n *Node, f *frame) ctl {
	e.steps++
	if e.steps > e.o.MaxSteps || e.out.Len() > e.o.MaxOut {
		panic(hang{})
	}
	if len(n.Redir) > 0 {
		panic(unsupported{"redirection"})
	}
	switch n.Kind {
	case Rem:
		return ctl{}
	case Label:
		if n.Exec && strings.HasPrefix(n.Text, "::") {
			e.err.WriteString("The system cannot find the drive specified.\n")
		}
		return ctl{}
	case Block:
		for _, k := range n.Kids {
			if c := e.exec(k, f); c.k != ctlNone {
				return c
			}
		}
		return ctl{}
	case Seq:
		c := e.exec(n.Kids[0], f)
		if c.k != ctlNone {
			return c
		}
		if n.Op == "&&" && e.level != 0 || n.Op == "||" && e.level == 0 {
			return ctl{}
		}
		return e.exec(n.Kids[1], f)
	case Pipe:
		if e.o.Program == nil {
			panic(unsupported{"pipe"})
		}
		out := e.pipeline(n, f, "")
		e.out.WriteString(out)
		return ctl{}
	case If:
		if e.cond(n) != n.Not {
			return e.exec(n.Kids[0], f)
		}
		if n.Else != nil {
			return e.exec(n.Else, f)
		}
		return ctl{}
	case For:
		return e.forLoop(n, f)
	}
	return e.simple(n, f)
}

func (e *emu) expand(s string) string { return e.delay(e.forExpand(s)) }

func (e *emu) forExpand(s string) string {
	if len(e.fors) == 0 || strings.IndexByte(s, '%') < 0 {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+1 < len(s) {
			k := i + 1
			strip := false
			if s[k] == '~' && k+1 < len(s) {
				k++
				strip = true
			}
			found := false
			for j := len(e.fors) - 1; j >= 0; j-- {
				if e.fors[j].name == s[k:k+1] {
					v := e.fors[j].val
					if strip && len(v) > 1 && v[0] == '"' && v[len(v)-1] == '"' {
						v = v[1 : len(v)-1]
					}
					b.WriteString(v)
					i = k
					found = true
					break
				}
			}
			if found {
				continue
			}
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func (e *emu) get(name string) (string, bool) {
	v, ok := e.vars[strings.ToUpper(name)]
	if !ok && strings.EqualFold(name, "errorlevel") {
		return strconv.Itoa(e.level), true
	}
	return v, ok
}

func (e *emu) set(name, v string) {
	name = strings.ToUpper(name)
	if v == "" {
		delete(e.vars, name)
		return
	}
	if e.o.Names != nil {
		e.o.Names[name] = true
	}
	e.vars[name] = v
}

// modify applies :~n,m or :a=b.
func modify(v, m string) string {
	if strings.HasPrefix(m, "~") {
		num := func(s string) (int, bool) {
			s = strings.TrimSpace(s)
			if s == "" {
				return 0, true
			}
			n, err := strconv.ParseInt(s, 0, 64)
			if err != nil {
				panic(unsupported{"substring number " + s})
			}
			return int(n), true
		}
		a, b, two := strings.Cut(m[1:], ",")
		n, _ := num(a)
		L := len(v)
		if n < 0 {
			n = max(0, L+n)
		}
		n = min(n, L)
		end := L
		if two {
			k, _ := num(b)
			if k < 0 {
				end = L + k
			} else {
				end = n + k
			}
		}
		end = min(end, L)
		if end < n {
			return ""
		}
		return v[n:end]
	}
	s, r, ok := strings.Cut(m, "=")
	if !ok || s == "" || s[0] == '*' {
		panic(unsupported{"variable modifier " + m})
	}
	// case-insensitive
	var b strings.Builder
	low, ls := strings.ToLower(v), strings.ToLower(s)
	for {
		k := strings.Index(low, ls)
		if k < 0 {
			break
		}
		b.WriteString(v[:k] + r)
		v, low = v[k+len(s):], low[k+len(s):]
	}
	return b.String() + v
}

// delay is phase 5.
func (e *emu) delay(s string) string {
	if !e.delayed || strings.IndexByte(s, '!') < 0 {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); {
		c := s[i]
		if c == '^' {
			if i+1 < len(s) {
				b.WriteByte(s[i+1])
			}
			i += 2
			continue
		}
		if c != '!' {
			b.WriteByte(c)
			i++
			continue
		}
		for i+1 < len(s) && s[i+1] == '!' {
			i++
		}
		k := i + 1
		for k < len(s) && s[k] != '!' && !(s[k] == ':' && !(k+1 < len(s) && s[k+1] == '!')) {
			k++
		}
		if k >= len(s) {
			i++ // unpaired
			continue
		}
		name := s[i+1 : k]
		if s[k] == '!' {
			v, _ := e.get(name)
			b.WriteString(v)
			i = k + 1
			continue
		}
		v, ok := e.get(name)
		if !ok {
			i = k + 1
			continue
		}
		end := strings.IndexByte(s[k:], '!')
		if end < 0 {
			i++
			continue
		}
		b.WriteString(modify(v, s[k+1:k+end]))
		i = k + end + 1
	}
	return b.String()
}

// percent is phase 1; dyn reports whether the result depends on variables or arguments.
func (e *emu) percent(s string, args []string) (string, bool) {
	var b strings.Builder
	dyn := false
	arg := func(d byte) string {
		if k := int(d - '0'); k < len(args) {
			return args[k]
		}
		return ""
	}
	for i := 0; i < len(s); {
		if s[i] != '%' {
			b.WriteByte(s[i])
			i++
			continue
		}
		if i+1 >= len(s) {
			i++
			continue
		}
		n := s[i+1]
		switch {
		case n == '%':
			b.WriteByte('%')
			i += 2
			continue
		case n >= '0' && n <= '9':
			dyn = true
			b.WriteString(arg(n))
			i += 2
			continue
		case n == '*':
			dyn = true
			b.WriteString(strings.Join(args[1:], " "))
			i += 2
			continue
		case n == '~':
			if i+2 < len(s) && s[i+2] >= '0' && s[i+2] <= '9' {
				dyn = true
				v := arg(s[i+2])
				if len(v) > 1 && v[0] == '"' && v[len(v)-1] == '"' {
					v = v[1 : len(v)-1]
				}
				b.WriteString(v)
				i += 3
				continue
			}
		}
		k := i + 1
		for k < len(s) && s[k] != '%' && !(s[k] == ':' && !(k+1 < len(s) && s[k+1] == '%')) {
			k++
		}
		if k >= len(s) {
			i++
			continue
		}
		dyn = true
		name := s[i+1 : k]
		v, ok := e.get(name)
		if s[k] == '%' {
			b.WriteString(v)
			i = k + 1
			continue
		}
		if !ok {
			i = k + 1
			continue
		}
		end := strings.IndexByte(s[k:], '%')
		if end < 0 {
			i++
			continue
		}
		b.WriteString(modify(v, s[k+1:k+end]))
		i = k + end + 1
	}
	return b.String(), dyn
}

func numeric(s string) (int64, bool) {
	t := s
	neg := false
	if strings.HasPrefix(t, "-") || strings.HasPrefix(t, "+") {
		neg = t[0] == '-'
		t = t[1:]
	}
	if t == "" {
		return 0, false
	}
	base := 10
	if strings.HasPrefix(t, "0x") || strings.HasPrefix(t, "0X") {
		base, t = 16, t[2:]
	} else if t[0] == '0' {
		base = 8
	}
	n, err := strconv.ParseInt(t, base, 64)
	if err != nil {
		return 0, false
	}
	if neg {
		n = -n
	}
	if n > 2147483647 {
		n = 2147483647
	}
	if n < -2147483648 {
		n = -2147483648
	}
	return n, true
}

func (e *emu) cond(n *Node) bool {
	l := e.expand(n.L)
	switch n.Op {
	case "defined":
		_, ok := e.get(l)
		return ok
	case "exist":
		// nothing can be created in the model, so no plain name exists
		p := strings.Trim(l, "\"")
		for i := 0; i < len(p); i++ {
			if c := p[i]; !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_') {
				panic(unsupported{"if exist"})
			}
		}
		if p == "" || strings.EqualFold(p, "nul") || strings.EqualFold(p, "con") {
			panic(unsupported{"if exist"})
		}
		return false
	case "errorlevel", "cmdextversion":
		panic(unsupported{"if " + n.Op})
	}
	r := e.expand(n.R)
	if n.Op == "==" {
		if n.Fold {
			return strings.EqualFold(l, r)
		}
		return l == r
	}
	c := 0
	a, ok1 := numeric(l)
	b, ok2 := numeric(r)
	if ok1 && ok2 {
		switch {
		case a < b:
			c = -1
		case a > b:
			c = 1
		}
	} else if n.Fold {
		c = collate(strings.ToLower(l), strings.ToLower(r))
	} else {
		c = collate(l, r)
	}
	switch n.Op {
	case "equ":
		return c == 0
	case "neq":
		return c != 0
	case "lss":
		return c < 0
	case "leq":
		return c <= 0
	case "gtr":
		return c > 0
	default:
		return c >= 0
	}
}

// collate compares strings like lstrcmp does for letters and digits: case is a
// secondary criterion, equality is exact.
func collate(a, b string) int {
	if c := strings.Compare(strings.ToLower(a), strings.ToLower(b)); c != 0 {
		return c
	}
	return -strings.Compare(a, b)
}

func (e *emu) forLoop(n *Node, f *frame) ctl {
	if n.Op != "/f" || n.Opt != "delims=" && n.Opt != "delims= eol=" {
		panic(unsupported{"for " + n.Op + " " + n.Opt})
	}
	in := strings.TrimSpace(e.expand(n.In))
	if e.o.Program != nil && len(in) > 2 && in[0] == '\'' && in[len(in)-1] == '\'' {
		in = "\"" + strings.TrimSuffix(e.child(in[1:len(in)-1]), "\n") + "\""
	}
	if len(in) < 2 || in[0] != '"' || in[len(in)-1] != '"' {
		panic(unsupported{"for /f over a command or file"})
	}
	for _, l := range strings.Split(in[1:len(in)-1], "\n") {
		if l == "" || l[0] == ';' && n.Opt == "delims=" {
			continue
		}
		e.fors = append(e.fors, forVar{n.Var, l})
		c := e.exec(n.Kids[0], f)
		e.fors = e.fors[:len(e.fors)-1]
		if c.k != ctlNone {
			return c
		}
	}
	return ctl{}
}

func (e *emu) endlocal() {
	k := len(e.saved) - 1
	e.vars, e.delayed = e.saved[k].vars, e.saved[k].delayed
	e.saved = e.saved[:k]
}

func splitArgs(s string) []string {
	var a []string
	var b strings.Builder
	q, in := false, false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			q = !q
		}
		if !q && isDelim(c) {
			if in {
				a = append(a, b.String())
				b.Reset()
				in = false
			}
			continue
		}
		in = true
		b.WriteByte(c)
	}
	if in {
		a = append(a, b.String())
	}
	return a
}

func (e *emu) simple(n *Node, f *frame) ctl {
	text := n.Text
	name, nameN := n.name, n.nameN
	if t := e.expand(text); t != text {
		text = t
		if !internal[name] {
			name, nameN = commandName(t)
		}
	}
	arg := text[nameN:]
	switch name {
	case "set":
		e.setCmd(arg)
	case "echo":
		e.echo(arg)
	case "rem":
	case "goto":
		a := strings.TrimLeft(arg, " \t,;=")
		if a == "" {
			e.err.WriteString("No batch label specified to GOTO command.\n")
			return ctl{k: ctlExit}
		}
		l := labelName(a)
		if strings.HasPrefix(a, ":") && l == "eof" {
			return ctl{ctlGoto, "eof"}
		}
		return ctl{ctlGoto, l}
	case "call":
		t, _ := e.percent(strings.TrimLeft(arg, " \t,;="), f.args)
		if !strings.HasPrefix(t, ":") {
			e.out.WriteString(e.program(text, f, ""))
			return ctl{}
		}
		a := splitArgs(t)
		l := labelName(a[0])
		ls := e.labels[l]
		if len(ls) == 0 {
			e.err.WriteString("The system cannot find the batch label specified - " + l + "\n")
			e.level = 1
			return ctl{}
		}
		// the search starts behind the current position
		t0 := ls[0]
		for _, x := range ls {
			if x >= f.pos {
				t0 = x
				break
			}
		}
		if c := e.frame(&frame{pos: t0 + 1, args: a}); c.k == ctlExit {
			return c
		}
	case "exit":
		a := splitArgs(arg)
		k := ctlExit
		if len(a) > 0 && strings.EqualFold(a[0], "/b") {
			k = ctlExitB
			a = a[1:]
		}
		if len(a) > 0 {
			v, ok := numeric(a[0])
			if !ok {
				panic(unsupported{"exit " + a[0]})
			}
			e.level = int(v)
		}
		return ctl{k: k}
	case "setlocal":
		m := map[string]string{}
		for k, v := range e.vars {
			m[k] = v
		}
		e.saved = append(e.saved, savedEnv{e.vars, e.delayed})
		e.vars = m
		for _, a := range splitArgs(arg) {
			switch strings.ToLower(a) {
			case "enabledelayedexpansion":
				e.delayed = true
			case "disabledelayedexpansion":
				e.delayed = false
			case "enableextensions":
			default:
				panic(unsupported{"setlocal " + a})
			}
		}
	case "endlocal":
		if len(e.saved) > f.loc {
			e.endlocal()
		}
	case "shift":
		panic(unsupported{"shift"})
	default:
		if strings.HasPrefix(name, ":") {
			return ctl{}
		}
		switch strings.ToLower(name) {
		case "dir", "type", "cmd", "findstr", "sort", "more", "del", "copy", "cd", "md", "mkdir", "title", "ver", "cls", "pause", "timeout", "where", "date", "time", "break", "verify", "vol", "path", "prompt", "popd", "pushd", "ren", "rd", "rmdir", "start", "assoc", "ftype", "color", "chdir", "erase", "mklink", "move", "dpath", "keys":
			panic(unsupported{"command " + name})
		}
		if e.o.Program != nil {
			e.out.WriteString(e.program(text, f, ""))
			return ctl{}
		}
		e.err.WriteString(fmt.Sprintf("'%s' is not recognized as an internal or external command,\noperable program or batch file.\n", name))
		e.level = 9009
	}
	return ctl{}
}

func (e *emu) echo(arg string) {
	if arg != "" && !isDelim(arg[0]) {
		// echo( echo. echo: and the like print the rest
		e.out.WriteString(arg[1:] + "\n")
		return
	}
	t := ""
	if arg != "" {
		t = arg[1:]
	}
	switch s := strings.ToLower(strings.TrimSpace(t)); {
	case strings.Trim(t, " \t,;=") == "":
		e.out.WriteString("ECHO is off.\n")
	case s == "on" || s == "off":
		if s == "on" {
			panic(unsupported{"echo on"})
		}
	case s == "/?" || strings.HasPrefix(s, "/? ") || strings.Contains(s, " /?"):
		panic(unsupported{"echo /?"})
	default:
		e.out.WriteString(t + "\n")
	}
}

func (e *emu) setCmd(arg string) {
	a := strings.TrimLeft(arg, " \t,;=")
	if len(a) >= 2 && a[0] == '/' {
		switch a[1] {
		case 'a', 'A':
			e.setA(a[2:])
			return
		case 'p', 'P':
			e.setP(a[2:])
			return
		}
		panic(unsupported{"set " + a[:2]})
	}
	if strings.HasPrefix(a, "\"") {
		a = a[1:]
		if k := strings.LastIndexByte(a, '"'); k >= 0 {
			a = a[:k]
		}
	}
	n, v, ok := strings.Cut(a, "=")
	if !ok {
		panic(unsupported{"set without value"})
	}
	if n == "" {
		e.err.WriteString("The syntax of the command is incorrect.\n")
		e.level = 1
		return
	}
	e.set(n, v)
}

func (e *emu) setP(a string) {
	a = strings.TrimLeft(a, " \t")
	if strings.HasPrefix(a, "\"") {
		a = a[1:]
		if k := strings.LastIndexByte(a, '"'); k >= 0 {
			a = a[:k]
		}
	}
	n, prompt, ok := strings.Cut(a, "=")
	if !ok || n == "" {
		panic(unsupported{"set /p without variable"})
	}
	prompt = strings.TrimLeft(prompt, " \t")
	if strings.HasPrefix(prompt, "\"") {
		panic(unsupported{"quoted prompt"})
	}
	if !e.o.NoPrompt {
		e.out.WriteString(prompt)
	}
	if len(e.stdin) == 0 {
		e.level = 1
		return
	}
	l := e.stdin[0]
	e.stdin = e.stdin[1:]
	if l == "" {
		e.level = 1 // the variable keeps its value
		return
	}
	e.set(n, l)
}
