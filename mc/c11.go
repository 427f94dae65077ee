package main

import (
	"crypto/sha256"
	"fmt"
	goscanner "go/scanner"
	gotoken "go/token"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/monstermichl/typeshell/lexer"
	"verifmc/h"
)

// key makes a short identification of an input.
func key(s string) string {
	t := s
	if len(t) > 40 {
		t = t[:40]
	}
	return fmt.Sprintf("%s-%x", t, sha256.Sum256([]byte(s)))[:len(t)+9]
}

// rtok is a token of the reference tokenizer, which works on byte offsets only.
type rtok struct {
	t    lexer.TokenType
	v    string
	off  int
	end  int
	tree bool // the split of the sign is open
}

var lexOps = map[string]lexer.TokenType{
	"(": lexer.OPENING_ROUND_BRACKET, ")": lexer.CLOSING_ROUND_BRACKET, "[": lexer.OPENING_SQUARE_BRACKET, "]": lexer.CLOSING_SQUARE_BRACKET,
	"{": lexer.OPENING_CURLY_BRACKET, "}": lexer.CLOSING_CURLY_BRACKET,
	"==": lexer.COMPARE_OPERATOR, "!=": lexer.COMPARE_OPERATOR, "<=": lexer.COMPARE_OPERATOR, ">=": lexer.COMPARE_OPERATOR, "<": lexer.COMPARE_OPERATOR, ">": lexer.COMPARE_OPERATOR,
	"&&": lexer.LOGICAL_OPERATOR, "||": lexer.LOGICAL_OPERATOR,
	"+=": lexer.COMPOUND_ASSIGN_OPERATOR, "-=": lexer.COMPOUND_ASSIGN_OPERATOR, "*=": lexer.COMPOUND_ASSIGN_OPERATOR, "/=": lexer.COMPOUND_ASSIGN_OPERATOR, "%=": lexer.COMPOUND_ASSIGN_OPERATOR,
	"=": lexer.ASSIGN_OPERATOR, ":=": lexer.SHORT_INIT_OPERATOR, "++": lexer.INCREMENT_OPERATOR, "--": lexer.DECREMENT_OPERATOR,
	"!": lexer.UNARY_OPERATOR, "+": lexer.BINARY_OPERATOR, "-": lexer.BINARY_OPERATOR, "*": lexer.BINARY_OPERATOR, "/": lexer.BINARY_OPERATOR, "%": lexer.BINARY_OPERATOR,
	",": lexer.COMMA, ":": lexer.COLON, ";": lexer.SEMICOLON, ".": lexer.DOT, "@": lexer.AT, "|": lexer.PIPE,
}
var lexWords = map[string]lexer.TokenType{
	"import": lexer.IMPORT, "var": lexer.VAR_DEFINITION, "func": lexer.FUNCTION_DEFINITION, "return": lexer.RETURN, "if": lexer.IF, "else": lexer.ELSE,
	"switch": lexer.SWITCH, "case": lexer.CASE, "default": lexer.DEFAULT, "for": lexer.FOR, "range": lexer.RANGE, "break": lexer.BREAK, "continue": lexer.CONTINUE,
	"nil": lexer.NIL_LITERAL, "len": lexer.LEN, "print": lexer.PRINT, "input": lexer.INPUT, "copy": lexer.COPY, "itoa": lexer.ITOA, "exists": lexer.EXISTS,
	"read": lexer.READ, "write": lexer.WRITE, "panic": lexer.PANIC, "bool": lexer.DATA_TYPE, "int": lexer.DATA_TYPE, "string": lexer.DATA_TYPE, "error": lexer.DATA_TYPE,
	"true": lexer.BOOL_LITERAL, "false": lexer.BOOL_LITERAL,
}

var reNum = regexp.MustCompile(`^[0-9]+(\.[0-9]+)?`)
var reWord = regexp.MustCompile(`^[A-Za-z_][A-Za-z_0-9]*`)
var reStr = regexp.MustCompile(`(?s)^"([^"\\]|\\.)*"`)
var reRaw = regexp.MustCompile("(?s)^`[^`]*`")
var reBlock = regexp.MustCompile(`(?s)^/\*.*?\*/`)
var reLine = regexp.MustCompile(`^//[^\n]*`)

// refTokens splits normalised text; unspec marks inputs the property leaves open.
func refTokens(s string) (ts []rtok, bad bool, unspec bool) {
	i := 0
	for i < len(s) {
		rest := s[i:]
		add := func(t lexer.TokenType, v string, n int) {
			ts = append(ts, rtok{t, v, i, i + n, false})
			i += n
		}
		if m := reBlock.FindString(rest); m != "" {
			i += len(m)
			continue
		}
		if m := reLine.FindString(rest); m != "" {
			i += len(m)
			continue
		}
		if strings.HasPrefix(rest, "/*") {
			return ts, true, true // unterminated comment
		}
		c := s[i]
		switch {
		case c == ' ' || c == '\t':
			i++
		case c == '\n':
			add(lexer.NEWLINE, "\n", 1)
		case c == '"':
			m := reStr.FindString(rest)
			if m == "" {
				return ts, true, unspec
			}
			if strings.Contains(m, "\n") {
				unspec = true // Go forbids it, the suite uses it
			}
			v, err := strconv.Unquote(strings.ReplaceAll(m, "\n", `\n`))
			if err != nil {
				return ts, true, unspec
			}
			if !utf8.ValidString(m) {
				// invalid UTF-8 is not Go source; bytes must be kept
				v2, ok := unquoteBytes(m)
				if !ok {
					return ts, true, true
				}
				v = v2
			}
			add(lexer.STRING_LITERAL, v, len(m))
		case c == '`':
			m := reRaw.FindString(rest)
			if m == "" {
				return ts, true, unspec
			}
			add(lexer.STRING_LITERAL, strings.ReplaceAll(m[1:len(m)-1], "\r", ""), len(m))
		case reWord.MatchString(rest):
			m := reWord.FindString(rest)
			t, ok := lexWords[m]
			if !ok {
				t = lexer.IDENTIFIER
			}
			add(t, m, len(m))
		case c >= '0' && c <= '9':
			m := reNum.FindString(rest)
			add(lexer.NUMBER_LITERAL, m, len(m))
		default:
			if c == '-' && len(rest) > 1 && rest[1] >= '0' && rest[1] <= '9' && !strings.HasPrefix(rest, "--") {
				operand := false
				if len(ts) > 0 {
					switch ts[len(ts)-1].t {
					case lexer.IDENTIFIER, lexer.NUMBER_LITERAL, lexer.BOOL_LITERAL, lexer.STRING_LITERAL, lexer.NIL_LITERAL, lexer.CLOSING_ROUND_BRACKET, lexer.CLOSING_SQUARE_BRACKET:
						operand = true
					case lexer.CLOSING_CURLY_BRACKET:
						unspec = true
					}
				}
				if !operand {
					m := reNum.FindString(rest[1:])
					add(lexer.NUMBER_LITERAL, "-"+m, len(m)+1)
					continue
				}
			}
			done := false
			for n := 2; n >= 1 && !done; n-- {
				if len(rest) >= n {
					if t, ok := lexOps[rest[:n]]; ok {
						add(t, rest[:n], n)
						done = true
					}
				}
			}
			if !done {
				return ts, true, unspec
			}
		}
	}
	return ts, false, unspec
}

func unquoteBytes(m string) (string, bool) {
	var b strings.Builder
	s := m[1 : len(m)-1]
	for len(s) > 0 {
		if s[0] != '\\' {
			b.WriteByte(s[0])
			s = s[1:]
			continue
		}
		r, mb, tail, err := strconv.UnquoteChar(s, '"')
		if err != nil {
			return "", false
		}
		if r < 128 || !mb {
			b.WriteByte(byte(r))
		} else {
			b.WriteRune(r)
		}
		s = tail
	}
	return b.String(), true
}

type lexResult struct {
	toks  []lexer.Token
	err   error
	panic string
}

func tokenize(s string) (r lexResult) {
	defer func() {
		if e := recover(); e != nil {
			r.panic = fmt.Sprint(e)
		}
	}()
	defer h.Serial()()
	r.toks, r.err = lexer.Tokenize(s)
	return
}

func showTok(t lexer.TokenType, v string, row, col int) string {
	return fmt.Sprintf("type %d value %q at %d:%d", t, v, row, col)
}

// lexDiff compares the implementation with the reference on one text.
func lexDiff(src string) (string, int) {
	s := strings.ReplaceAll(src, "\r\n", "\n")
	want, bad, unspec := refTokens(s)
	got := tokenize(src)
	if got.panic != "" {
		return "tokenizer panics: " + got.panic, 0
	}
	if bad {
		if !unspec && got.err == nil {
			return "no error for malformed text", 0
		}
		return "", len(want)
	}
	if unspec {
		return "", len(want)
	}
	if got.err != nil {
		return "error for well-formed text: " + got.err.Error(), 0
	}
	row, lineStart, pos := 1, 0, 0
	for i, w := range want {
		for ; pos < w.off; pos++ {
			if s[pos] == '\n' {
				row++
				lineStart = pos + 1
			}
		}
		col := w.off - lineStart + 1
		rcol := utf8.RuneCountInString(s[lineStart:w.off]) + 1
		ws := showTok(w.t, w.v, row, col)
		if i >= len(got.toks) {
			return fmt.Sprintf("token %d missing, want %s", i, ws), 0
		}
		g := got.toks[i]
		if g.Type() != w.t || g.Value() != w.v || g.Row() != row || g.Column() != col && g.Column() != rcol {
			return fmt.Sprintf("token %d is %s, want %s", i, showTok(g.Type(), g.Value(), g.Row(), g.Column()), ws), 0
		}
	}
	if len(got.toks) != len(want)+1 || got.toks[len(want)].Type() != lexer.EOF {
		extra := got.toks[len(want)]
		return fmt.Sprintf("after %d tokens: %s, want end of file", len(want), showTok(extra.Type(), extra.Value(), extra.Row(), extra.Column())), 0
	}
	return "", len(want) + 1
}

var reDigits = regexp.MustCompile(`^[0-9]+$`)
var reFloat = regexp.MustCompile(`^[0-9]+\.[0-9]+$`)

// goDiff compares with go/scanner where the text is made of shared lexemes.
func goDiff(src string) (string, bool) {
	for i := 0; i < len(src); i++ {
		if src[i] >= 128 || src[i] == '\r' || src[i] == 0 {
			return "", false
		}
	}
	fset := gotoken.NewFileSet()
	f := fset.AddFile("x", -1, len(src))
	var s goscanner.Scanner
	bad := false
	s.Init(f, []byte(src), func(gotoken.Position, string) { bad = true }, 0)
	type gt struct {
		text     string
		row, col int
	}
	var want []gt
	for {
		p, t, lit := s.Scan()
		if t == gotoken.EOF || bad {
			break
		}
		pos := fset.Position(p)
		text := lit
		switch {
		case t == gotoken.SEMICOLON && lit == "\n":
			continue
		case t == gotoken.SEMICOLON:
			text = ";"
		case t == gotoken.INT:
			if !reDigits.MatchString(lit) {
				return "", false
			}
		case t == gotoken.FLOAT:
			if !reFloat.MatchString(lit) {
				return "", false
			}
		case t == gotoken.STRING:
			v, err := strconv.Unquote(lit)
			if err != nil {
				return "", false
			}
			text = "S" + v
		case t == gotoken.CHAR || t == gotoken.IMAG:
			return "", false
		case t.IsOperator():
			text = t.String()
			if _, ok := lexOps[text]; !ok {
				return "", false
			}
		}
		want = append(want, gt{text, pos.Line, pos.Column})
	}
	if bad {
		return "", false
	}
	got := tokenize(src)
	if got.err != nil {
		return "error for text Go's scanner accepts: " + got.err.Error(), true
	}
	var have []gt
	for _, g := range got.toks {
		v := g.Value()
		switch g.Type() {
		case lexer.NEWLINE, lexer.EOF:
			continue
		case lexer.STRING_LITERAL:
			v = "S" + v
		case lexer.NUMBER_LITERAL:
			if strings.HasPrefix(v, "-") {
				have = append(have, gt{"-", g.Row(), g.Column()}, gt{v[1:], g.Row(), g.Column() + 1})
				continue
			}
		}
		have = append(have, gt{v, g.Row(), g.Column()})
	}
	for i := 0; i < len(want) || i < len(have); i++ {
		switch {
		case i >= len(want):
			return fmt.Sprintf("extra token %v (Go's scanner has %d)", have[i], len(want)), true
		case i >= len(have):
			return fmt.Sprintf("missing token %v of Go's scanner", want[i]), true
		case want[i] != have[i]:
			return fmt.Sprintf("token %d is %v, Go's scanner says %v", i, have[i], want[i]), true
		}
	}
	return "", true
}

var lexTexts = []string{
	"(", ")", "[", "]", "{", "}", "==", "!=", "<=", ">=", "<", ">", "&&", "||", "+=", "-=", "*=", "/=", "%=", "=", ":=", "++", "--", "!", "+", "-", "*", "/", "%", ",", ":", ";", ".", "@", "|",
	"import", "var", "func", "return", "if", "else", "switch", "case", "default", "for", "range", "break", "continue", "nil",
	"len", "print", "input", "copy", "itoa", "exists", "read", "write", "panic", "bool", "int", "string", "error", "true", "false",
	"x", "_", "a1", "trueish", "falsey", "nilx", "format", "iff", "printer", "_true", "true_", "True", "var1", "int8", "lena", "x_y",
	"0", "7", "42", "-5", "-0", "1.5", "9223372036854775807",
	`""`, `"a b"`, `"\n\t\\\""`, "\"ä€😀\"", `"\x41\101\u00e9\U0001F600\xff"`, `"// no"`, `"/* no */"`, "\"`\"", `"a\\"`,
	"``", "`a\"b`", "`\\n\\`", "`// no`", "`x\ny`", "`ä`", "`\n`", "`/*`",
}

// lexFew is the reduced alphabet of the triples.
var lexFew = []string{"(", ")", "]", "}", "==", "<", ">", "&&", "||", "+=", "=", ":=", ":", "++", "+", "--", "-", "*", "/", "/=", "%", "!", "|", ".", ",", "@",
	"if", "format", "true", "trueish", "nil", "nilx", "x", "_1", "7", "-5", `"a"`, `"\\"`, `"\""`, "`a\nb`", "`\\`", "\"ä\""}

var lexSeps = []string{"", " ", "\t", "\n", "\r\n", "/*c*/", "/***/", "/**/", "/*\n*/", "// c\n", "//\r\n", " /* \" */ ", "/* // */", "// /* \n", "/*é\r\n\r\n */ \t", "\n\n", "/*/*/"}

func lexReport(ctx *h.Ctx, part, src, what string) {
	d := func() bool {
		a, _ := lexDiff(src)
		b, _ := goDiff(src)
		return a != "" || b != ""
	}
	ctx.Report(h.Violation{Key: key(src), What: fmt.Sprintf("[%s] %q: %s", part, src, what), Files: map[string]string{"input": src, "difference": what}, Recheck: d})
}

func lexRun(ctx *h.Ctx, part string, g func(y func(string) bool)) {
	if ctx.Stop() {
		ctx.Part(part, 0, false)
		return
	}
	gen := func(y func([]string) bool) {
		var b []string
		ok := true
		g(func(s string) bool {
			b = append(b, s)
			if len(b) == 64 {
				ok = y(b)
				b = nil
			}
			return ok
		})
		if ok && len(b) > 0 {
			y(b)
		}
	}
	var n, gos int64
	ns := make([]int64, 64)
	gs := make([]int64, 64)
	_, c := h.Parallel(ctx, gen, func(w int) func([]string) {
		return func(l []string) {
			for _, s := range l {
				ns[w]++
				d, k := lexDiff(s)
				ctx.AddStates(k+1, k, 1)
				if d != "" {
					lexReport(ctx, part, s, d)
					continue
				}
				d, used := goDiff(s)
				if used {
					gs[w]++
				}
				if d != "" {
					lexReport(ctx, part, s, d)
				}
			}
		}
	})
	for i := range ns {
		n += ns[i]
		gos += gs[i]
	}
	ctx.Part(part, n, c)
	ctx.Extra("also compared with go/scanner: "+part, gos)
}

func allStrings(alpha []string, n int, y func(string) bool) bool {
	var rec func(p string, n int) bool
	rec = func(p string, n int) bool {
		if n == 0 {
			return y(p)
		}
		for _, a := range alpha {
			if !rec(p+a, n-1) {
				return false
			}
		}
		return true
	}
	return rec("", n)
}

func c11(ctx *h.Ctx) {
	ctx.Assume("left open by the property and not judged: a line break inside an interpreted string, an unterminated block comment, a sign after '}'; columns may count bytes or characters")
	lexRun(ctx, "single tokens between separators", func(y func(string) bool) {
		for _, t := range lexTexts {
			for _, a := range lexSeps {
				for _, b := range lexSeps {
					if !y(a+t+b) || !y(a+b+t) {
						return
					}
				}
			}
		}
	})
	lexRun(ctx, "token pairs x separators", func(y func(string) bool) {
		for _, a := range lexTexts {
			for _, b := range lexTexts {
				for _, s := range lexSeps {
					if !y(a + s + b) {
						return
					}
				}
			}
		}
	})
	lexRun(ctx, "separator triples (comments and line ends)", func(y func(string) bool) {
		for _, a := range lexSeps {
			for _, b := range lexSeps {
				for _, c := range lexSeps {
					if !y("x"+a+"y"+b+"z"+c+"1") || !y("x"+a+b+c+"1") {
						return
					}
				}
			}
		}
	})
	esc := []string{"a", "\\", "\"", "`", "n", "x4", "1", "0", "u", "00e9", "U", " ", "$", "é", "'", "7", "\t"}
	lexRun(ctx, "interpreted string contents", func(y func(string) bool) {
		for n := 0; n <= pick(ctx, 4, 5); n++ {
			if !allStrings(esc, n, func(s string) bool { return y("x " + `"` + s + `" y`) }) {
				return
			}
		}
	})
	lexRun(ctx, "all escapes", func(y func(string) bool) {
		for c := 0; c < 256; c++ {
			if c == '\n' {
				continue
			}
			if !y("\"\\"+string([]byte{byte(c)})+"\" z") || !y("\"a"+string([]byte{byte(c)})+"b\" z") || !y("`a"+string([]byte{byte(c)})+"b` z") || !y("x"+string([]byte{byte(c)})+"y") {
				return
			}
			if !y(fmt.Sprintf(`"\x%02x" z`, c)) || !y(fmt.Sprintf(`"\x%02X" z`, c)) || !y(fmt.Sprintf(`"\%03o" z`, c)) || !y(fmt.Sprintf(`"\u%04x" z`, c)) || !y(fmt.Sprintf(`"\U%08x" z`, c)) {
				return
			}
		}
		for _, r := range []int{0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffd, 0xffff} {
			if !y(fmt.Sprintf(`"a\u%04xb" z`, r)) {
				return
			}
		}
		for _, r := range []int{0x10000, 0x1F600, 0x10ffff, 0x110000, 0x7fffffff} {
			if !y(fmt.Sprintf(`"a\U%08xb" z`, r)) {
				return
			}
		}
		for _, e := range []string{`\400`, `\777`, `\08`, `\1`, `\12`, `\x`, `\xg0`, `\x1`, `\u12`, `\u123g`, `\U1234567`, `\e`, `\s`, `\'`, `\"`, `\\`, `\a\b\f\n\r\t\v`} {
			if !y(`"`+e+`" z`) || !y(`"`+e) || !y(`"q`+e+`r" z`) {
				return
			}
		}
	})
	chars := []string{"/", "*", "\n", "\"", "`", "\\", "a", "1", "-", " ", "=", "+", ":", ".", "é", "_", "<", "!", "|", "&", "\t", "\r\n", "$", ")", "\r"}
	lexRun(ctx, "character strings", func(y func(string) bool) {
		for n := 0; n <= pick(ctx, 4, 5); n++ {
			if !allStrings(chars, n, y) {
				return
			}
		}
	})
	comm := []string{"/", "*", "\n", "\"", "x", "`"}
	lexRun(ctx, "comment and quote strings", func(y func(string) bool) {
		for n := 0; n <= pick(ctx, 7, 8); n++ {
			if !allStrings(comm, n, y) {
				return
			}
		}
	})
	ops := []string{"=", "+", "-", "!", "<", ">", "&", "|", ":", "*", "/", "%", "1", "x", ")"}
	lexRun(ctx, "operator strings", func(y func(string) bool) {
		for n := 0; n <= pick(ctx, 4, 5); n++ {
			if !allStrings(ops, n, y) {
				return
			}
		}
	})
	words := []string{"t", "r", "u", "e", "_", "1", ".", "n", "i", "l", "f", "-"}
	lexRun(ctx, "word strings", func(y func(string) bool) {
		for n := 1; n <= pick(ctx, 4, 5); n++ {
			if !allStrings(words, n, y) {
				return
			}
		}
		for w := range lexWords {
			for _, a := range words {
				for _, b := range words {
					if !y(w+a) || !y(a+w) || !y(a+w+b) || !y(w+w) || !y(w[:len(w)-1]) || !y(strings.ToUpper(w)) || !y(w+a+b) {
						return
					}
				}
			}
		}
	})
	lexRun(ctx, "token triples x separators", func(y func(string) bool) {
		al := lexFew
		seps := []string{"", " "}
		if ctx.Thorough() {
			seps = []string{"", " ", "\n", "/*c*/"}
		}
		for _, s := range seps {
			for _, a := range al {
				for _, b := range al {
					for _, c := range al {
						if !y(a + s + b + s + c) {
							return
						}
					}
				}
			}
		}
	})
	c11sizes(ctx)
	lexRun(ctx, "token triples, full alphabet", func(y func(string) bool) {
		for _, a := range lexTexts {
			for _, b := range lexTexts {
				for _, c := range lexTexts {
					if !y(a + b + c) {
						return
					}
				}
			}
		}
	})
}
