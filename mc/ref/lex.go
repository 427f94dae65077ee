// Package ref is an independent reference implementation of the TypeShell
// language: lexer, parser, scope/type checker and interpreter. It is written
// from the README, the Go specification and the property texts.
package ref

import (
	"fmt"
	"strconv"
	"strings"
)

type TK int

const (
	TEOF TK = iota
	TNL
	TIdent
	TKeyword
	TType
	TInt
	TString
	TBool
	TNil
	TOp // everything else, S holds the spelling
)

type Tok struct {
	K        TK
	S        string
	Row, Col int
}

var keywords = map[string]bool{
	"import": true, "var": true, "func": true, "return": true, "if": true, "else": true,
	"switch": true, "case": true, "default": true, "for": true, "range": true, "break": true, "continue": true,
	"len": true, "print": true, "input": true, "copy": true, "itoa": true, "exists": true, "read": true,
	"write": true, "panic": true,
}
var typeNames = map[string]bool{"bool": true, "int": true, "string": true, "error": true}

var ops = []string{"==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=", ":=", "++", "--",
	"(", ")", "[", "]", "{", "}", "<", ">", "=", "!", "+", "-", "*", "/", "%", ",", ":", ";", ".", "@", "|"}

func isLetter(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func isDigit(c byte) bool  { return c >= '0' && c <= '9' }

// operandEnd tells whether a '-' following the token is a binary operator.
func operandEnd(t Tok) bool {
	switch t.K {
	case TIdent, TInt, TString, TBool, TNil:
		return true
	case TOp:
		return t.S == ")" || t.S == "]" || t.S == "}"
	}
	return false
}

func Lex(src string) ([]Tok, error) {
	src = strings.ReplaceAll(src, "\r\n", "\n")
	var toks []Tok
	row, col := 1, 1
	i := 0
	adv := func(n int) {
		for k := 0; k < n; k++ {
			if src[i+k] == '\n' {
				row++
				col = 1
			} else {
				col++
			}
		}
		i += n
	}
	for i < len(src) {
		c := src[i]
		r0, c0 := row, col
		add := func(k TK, s string) { toks = append(toks, Tok{k, s, r0, c0}) }
		switch {
		case c == ' ' || c == '\t':
			adv(1)
		case c == '\n':
			add(TNL, "\n")
			adv(1)
		case strings.HasPrefix(src[i:], "//"):
			n := strings.IndexByte(src[i:], '\n')
			if n < 0 {
				n = len(src) - i
			}
			adv(n)
		case strings.HasPrefix(src[i:], "/*"):
			n := strings.Index(src[i+2:], "*/")
			if n < 0 {
				return nil, fmt.Errorf("unterminated comment")
			}
			adv(n + 4)
		case c == '`':
			n := strings.IndexByte(src[i+1:], '`')
			if n < 0 {
				return nil, fmt.Errorf("unterminated raw string")
			}
			add(TString, src[i+1:i+1+n])
			adv(n + 2)
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' && src[j] != '\n' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(src) || src[j] != '"' {
				return nil, fmt.Errorf("unterminated string")
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				return nil, fmt.Errorf("bad string")
			}
			add(TString, s)
			adv(j + 1 - i)
		case isLetter(c):
			j := i
			for j < len(src) && (isLetter(src[j]) || isDigit(src[j])) {
				j++
			}
			w := src[i:j]
			switch {
			case w == "true" || w == "false":
				add(TBool, w)
			case w == "nil":
				add(TNil, w)
			case keywords[w]:
				add(TKeyword, w)
			case typeNames[w]:
				add(TType, w)
			default:
				add(TIdent, w)
			}
			adv(j - i)
		case isDigit(c) || c == '-' && i+1 < len(src) && isDigit(src[i+1]) && !(len(toks) > 0 && operandEnd(toks[len(toks)-1])):
			j := i + 1
			for j < len(src) && isDigit(src[j]) {
				j++
			}
			add(TInt, src[i:j])
			adv(j - i)
		default:
			found := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					add(TOp, o)
					adv(len(o))
					found = true
					break
				}
			}
			if !found {
				return nil, fmt.Errorf("unknown character %q", c)
			}
		}
	}
	toks = append(toks, Tok{TEOF, "", row, col})
	return toks, nil
}
