package cmdemu

import (
	"fmt"
	"strings"
)

// Jump is a goto or a call of a label.
type Jump struct {
	Call   bool
	Target string
	Line   int
	Path   []int // start lines of the enclosing blocks
	top    int   // index of the top-level item
}

// LabelDef is a label of the script.
type LabelDef struct {
	Name string
	Line int
	Path []int
	top  int
}

type topItem struct {
	label string
	n     *Node
	line  int
	rout  string // routine the item belongs to ("" = main code)
}

// Structure is the label and jump table of a script.
type Structure struct {
	Lines    []string
	Jumps    []Jump
	Labels   map[string]LabelDef
	Routines []string // labels which start a routine
	Problems []string
	items    []topItem
}

// static delivers the lines with placeholders for everything which is only
// known at run time.
type static struct {
	lines []string
	pos   int
}

func (s *static) line() int { return s.pos - 1 }
func (s *static) next() (string, bool) {
	if s.pos >= len(s.lines) {
		return "", false
	}
	s.pos++
	return staticPercent(s.lines[s.pos-1]), true
}

func staticPercent(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		if s[i] != '%' {
			b.WriteByte(s[i])
			i++
			continue
		}
		if i+1 >= len(s) {
			break
		}
		n := s[i+1]
		switch {
		case n == '%':
			b.WriteByte('%')
			i += 2
		case n >= '0' && n <= '9' || n == '*':
			b.WriteByte('1')
			i += 2
		case n == '~' && i+2 < len(s) && s[i+2] >= '0' && s[i+2] <= '9':
			b.WriteByte('1')
			i += 3
		default:
			k := strings.IndexByte(s[i+1:], '%')
			if k < 0 {
				i++
				continue
			}
			b.WriteByte('0')
			i += k + 2
		}
	}
	return b.String()
}

// Analyse parses the whole script from top to bottom.
func Analyse(text string) (st *Structure) {
	st = &Structure{Labels: map[string]LabelDef{}}
	st.Lines = strings.Split(strings.ReplaceAll(text, "\r\n", "\n"), "\n")
	problem := func(f string, a ...any) { st.Problems = append(st.Problems, fmt.Sprintf(f, a...)) }
	src := &static{lines: st.Lines}
	label := func(t string, line int, path []int) {
		n := labelName(t)
		if n == "" {
			return
		}
		if o, dup := st.Labels[n]; dup {
			problem("label %s is defined twice (lines %d and %d)", n, o.Line+1, line+1)
			return
		}
		st.Labels[n] = LabelDef{n, line, append([]int{}, path...), len(st.items)}
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(synErr); ok {
					problem("line %d: %s", src.pos, e.msg)
					return
				}
				panic(r)
			}
		}()
		for src.pos < len(src.lines) {
			start := src.pos
			t := strings.TrimLeft(src.lines[start], " \t,;=")
			switch {
			case t == "":
				src.pos++
				continue
			case t[0] == ':':
				src.pos++
				if strings.HasPrefix(t, "::") {
					continue // comment
				}
				label(t, start, nil)
				st.items = append(st.items, topItem{label: labelName(t), line: start})
				continue
			case t[0] == ')':
				src.pos++
				problem("line %d: closing parenthesis without a block", start+1)
				continue
			}
			n := parseNext(src)
			if n == nil {
				break
			}
			var walk func(n *Node, path []int)
			walk = func(n *Node, path []int) {
				if n == nil {
					return
				}
				switch n.Kind {
				case Block:
					path = append(path[:len(path):len(path)], n.Line)
				case Label:
					if !strings.HasPrefix(n.Text, "::") {
						label(n.Text, n.Line, path)
					}
				case Simple:
					if j, ok := jump(n); ok {
						j.Path, j.top = path, len(st.items)
						if strings.ContainsAny(j.Target, "!%") {
							problem("line %d: computed jump target %s", j.Line+1, j.Target)
						}
						st.Jumps = append(st.Jumps, j)
					}
				}
				for _, k := range n.Kids {
					walk(k, path)
				}
				walk(n.Else, path)
			}
			walk(n, nil)
			st.items = append(st.items, topItem{n: n, line: n.Line})
		}
	}()
	if len(st.Problems) > 0 {
		return
	}
	st.routines()
	return
}

func jump(n *Node) (Jump, bool) {
	arg := strings.TrimLeft(n.Text[n.nameN:], " \t,;=")
	switch strings.ToLower(n.name) {
	case "goto":
		return Jump{Target: labelName(arg), Line: n.Line}, true
	case "call":
		if strings.HasPrefix(arg, ":") {
			return Jump{Call: true, Target: labelName(arg), Line: n.Line}, true
		}
	}
	return Jump{}, false
}

// leaves tells whether control never continues behind the node.
func leaves(n *Node) bool {
	if n == nil {
		return false
	}
	switch n.Kind {
	case Simple:
		w := strings.ToLower(n.name)
		return w == "goto" || w == "exit"
	case Seq:
		return n.Op == "&" && leaves(n.Kids[len(n.Kids)-1])
	}
	return false
}

// exits tells whether the node ends the routine or the script.
func exits(n *Node) bool {
	if n == nil {
		return false
	}
	switch n.Kind {
	case Simple:
		return strings.ToLower(n.name) == "exit"
	case Seq:
		return n.Op == "&" && exits(n.Kids[len(n.Kids)-1])
	}
	return false
}

// ExitLabel tells whether nothing but the end of the routine or script follows the label.
func (st *Structure) ExitLabel(name string) bool {
	if name == "eof" {
		return true
	}
	l, ok := st.Labels[name]
	if !ok || len(l.Path) > 0 {
		return false
	}
	for k := l.top + 1; k < len(st.items); k++ {
		if st.items[k].label == "" {
			return exits(st.items[k].n)
		}
	}
	return true
}

func (st *Structure) routines() {
	problem := func(f string, a ...any) { st.Problems = append(st.Problems, fmt.Sprintf(f, a...)) }
	called := map[string]bool{}
	jumped := map[string]bool{}
	for _, j := range st.Jumps {
		if j.Target != "eof" {
			if _, ok := st.Labels[j.Target]; !ok {
				problem("line %d: jump to the undefined label %s", j.Line+1, j.Target)
			}
		} else if j.Call {
			problem("line %d: call of eof", j.Line+1)
		}
		if j.Call {
			called[j.Target] = true
		} else {
			jumped[j.Target] = true
		}
	}
	cur := ""
	var prev *Node
	for k := range st.items {
		it := &st.items[k]
		if it.label != "" {
			entry := prev != nil && leaves(prev)
			if called[it.label] {
				if !entry {
					problem("line %d: code runs into the routine %s", it.line+1, it.label)
				}
				if cur != "" {
					problem("line %d: routine %s starts within the routine %s", it.line+1, it.label, cur)
				}
				if jumped[it.label] {
					problem("line %d: routine %s is also entered by goto", it.line+1, it.label)
				}
			}
			if called[it.label] || entry && cur == "" && !jumped[it.label] {
				cur = it.label
				st.Routines = append(st.Routines, cur)
			}
			it.rout = cur
			continue
		}
		prev = it.n
		it.rout = cur
		if cur != "" && exits(it.n) {
			cur = ""
		}
	}
	if cur != "" {
		problem("routine %s does not end", cur)
	}
	for _, l := range st.Labels {
		if called[l.Name] && len(l.Path) > 0 {
			problem("line %d: routine %s starts within a block", l.Line+1, l.Name)
		}
	}
	for _, j := range st.Jumps {
		l, ok := st.Labels[j.Target]
		if !ok || j.Call {
			continue
		}
		from, to := st.items[j.top].rout, ""
		if l.top < len(st.items) {
			to = st.items[l.top].rout
		}
		if from != to && !st.ExitLabel(j.Target) {
			problem("line %d: jump from %s to label %s of %s", j.Line+1, rname(from), j.Target, rname(to))
		}
		in := len(l.Path) <= len(j.Path)
		for i := 0; in && i < len(l.Path); i++ {
			in = l.Path[i] == j.Path[i]
		}
		if !in {
			problem("line %d: jump to label %s within another block (line %d)", j.Line+1, j.Target, l.Line+1)
		}
	}
}

func rname(s string) string {
	if s == "" {
		return "the main code"
	}
	return s
}

// Callers returns the routines ("" = main code) which call the routine.
func (st *Structure) Callers(r string) []string {
	var out []string
	for _, j := range st.Jumps {
		if j.Call && j.Target == r {
			out = append(out, st.items[j.top].rout)
		}
	}
	return out
}
