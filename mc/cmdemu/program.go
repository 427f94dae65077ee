package cmdemu

import "strings"

// External programs: "call name words", "name words", pipes of these, and
// for /f over the output of such a command. Words are only judged while their
// characters mean the same at every level of interpretation (call parses its
// line again, both sides of a pipe and the command of for /f get a cmd.exe of
// their own); everything else is unsupported.

// special reports a command character outside of double quotes.
func special(s string) bool {
	q := false
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"':
			q = !q
		case !q && strings.IndexByte("&|<>()", c) >= 0:
			return true
		}
	}
	return q
}

// program runs the program named by a line (after all expansions).
func (e *emu) program(line string, f *frame, stdin string) string {
	if e.o.Program == nil {
		panic(unsupported{"call of a program"})
	}
	if strings.ContainsAny(line, "^%\n") || special(line) {
		panic(unsupported{"special characters in the call of a program"})
	}
	line = strings.TrimLeft(line, " \t,;=")
	if strings.EqualFold(line[:min(4, len(line))], "call") && len(line) > 4 && isDelim(line[4]) {
		line = strings.TrimLeft(line[5:], " \t,;=")
	}
	if line == "" || line[0] == ':' {
		panic(unsupported{"call within a pipe"})
	}
	name, n := commandName(line)
	rest := line[n:]
	if internal[strings.ToLower(name)] {
		panic(unsupported{"call of an internal command"})
	}
	if name[0] == '"' {
		name = strings.Trim(name, "\"")
	} else if i := strings.IndexByte(name, '"'); i >= 0 {
		panic(unsupported{"quotes within the name of a program"})
	}
	out, status, ok := e.o.Program(name, Argv(rest), stdin)
	if !ok {
		e.err.WriteString("'" + name + "' is not recognized as an internal or external command,\noperable program or batch file.\n")
		e.level = 9009
		return ""
	}
	e.level = status
	return out
}

// pipeline runs the stages from left to right; the status is the one of the last stage.
func (e *emu) pipeline(n *Node, f *frame, stdin string) string {
	if len(n.Redir) > 0 {
		panic(unsupported{"redirection"})
	}
	switch n.Kind {
	case Pipe:
		return e.pipeline(n.Kids[1], f, e.pipeline(n.Kids[0], f, stdin))
	case Simple:
		return e.program(e.expand(n.Text), f, stdin)
	}
	panic(unsupported{"pipe"})
}

// child runs the command of for /f: cmd /V:ON /C "line".
func (e *emu) child(cmd string) string {
	const head = "cmd /v:on /c \""
	if special(cmd) || len(cmd) <= len(head) || !strings.EqualFold(cmd[:len(head)], head) || cmd[len(cmd)-1] != '"' {
		panic(unsupported{"for /f over a command"})
	}
	body := cmd[len(head) : len(cmd)-1]
	if strings.ContainsAny(body, "^%\n") {
		panic(unsupported{"special characters in the command of for /f"})
	}
	c := &emu{Script: Prepare(body), o: e.o, vars: map[string]string{}, delayed: true, level: e.level}
	for k, v := range e.vars {
		c.vars[k] = v
	}
	// only the status may be evaluated within the child
	rest := strings.ReplaceAll(body, "!errorlevel!", "")
	if strings.Contains(rest, "!") {
		panic(unsupported{"evaluation in the command of for /f"})
	}
	c.frame(&frame{args: []string{"cmd"}})
	e.steps += c.steps
	e.err.WriteString(c.err.String())
	return c.out.String()
}

// Argv splits the words behind a program's name like the C runtime does.
func Argv(s string) []string {
	var out []string
	for i := 0; ; {
		for i < len(s) && (s[i] == ' ' || s[i] == '\t') {
			i++
		}
		if i >= len(s) {
			return out
		}
		var b strings.Builder
		q := false
		for i < len(s) && (q || s[i] != ' ' && s[i] != '\t') {
			k := 0
			for i < len(s) && s[i] == '\\' {
				i++
				k++
			}
			if k > 0 && (i >= len(s) || s[i] != '"') {
				b.WriteString(strings.Repeat("\\", k))
				continue
			}
			if s[i] != '"' {
				b.WriteByte(s[i])
				i++
				continue
			}
			b.WriteString(strings.Repeat("\\", k/2))
			i++
			switch {
			case k%2 == 1:
				b.WriteByte('"')
			case q && i < len(s) && s[i] == '"':
				b.WriteByte('"')
				i++
			default:
				q = !q
			}
		}
		out = append(out, b.String())
	}
}
