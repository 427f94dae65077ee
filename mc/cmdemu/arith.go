package cmdemu

import (
	"strconv"
	"strings"
)

type arith struct {
	e *emu
	s string
	i int
}

type arithErr struct{ msg string }

func (e *emu) setA(s string) {
	a := &arith{e: e, s: strings.ReplaceAll(s, "\"", "")}
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(arithErr); ok {
				e.err.WriteString(x.msg + "\n")
				e.level = 1073750988
				return
			}
			panic(r)
		}
	}()
	for {
		a.assign()
		a.ws()
		if a.i < len(a.s) && a.s[a.i] == ',' {
			a.i++
			continue
		}
		break
	}
	if a.i < len(a.s) {
		if a.s[a.i] == ')' {
			panic(arithErr{"Unbalanced parenthesis."})
		}
		panic(arithErr{"Missing operator."})
	}
}

func (a *arith) ws() {
	for a.i < len(a.s) && (a.s[a.i] == ' ' || a.s[a.i] == '\t') {
		a.i++
	}
}

func (a *arith) name() string {
	k := a.i
	for k < len(a.s) && !strings.ContainsRune(" \t()!~*/%+-<>&^|=,\"", rune(a.s[k])) {
		k++
	}
	return a.s[a.i:k]
}

func (a *arith) assign() int32 {
	a.ws()
	k := a.i
	n := a.name()
	if n != "" && !(n[0] >= '0' && n[0] <= '9') {
		a.i += len(n)
		a.ws()
		for _, op := range []string{"<<=", ">>=", "*=", "/=", "%=", "+=", "-=", "&=", "^=", "|=", "="} {
			if strings.HasPrefix(a.s[a.i:], op) {
				a.i += len(op)
				v := a.assign()
				if op != "=" {
					v = a.apply(op[:len(op)-1], a.value(n), v)
				}
				a.e.set(n, strconv.Itoa(int(v)))
				return v
			}
		}
		a.i = k
	}
	return a.bin(0)
}

var arithOps = [][]string{{"|"}, {"^"}, {"&"}, {"<<", ">>"}, {"+", "-"}, {"*", "/", "%"}}

func (a *arith) bin(l int) int32 {
	if l == len(arithOps) {
		return a.unary()
	}
	v := a.bin(l + 1)
	for {
		a.ws()
		op := ""
		for _, o := range arithOps[l] {
			if strings.HasPrefix(a.s[a.i:], o) {
				op = o
			}
		}
		if op == "" {
			return v
		}
		a.i += len(op)
		v = a.apply(op, v, a.bin(l+1))
	}
}

func (a *arith) apply(op string, x, y int32) int32 {
	switch op {
	case "|":
		return x | y
	case "^":
		return x ^ y
	case "&":
		return x & y
	case "<<", ">>":
		panic(unsupported{"shift operator"})
	case "+":
		return x + y
	case "-":
		return x - y
	case "*":
		return x * y
	}
	if y == 0 {
		panic(arithErr{"Divide by zero error."})
	}
	if x == -2147483648 && y == -1 {
		panic(unsupported{"overflow of a division"})
	}
	if op == "/" {
		return x / y
	}
	return x % y
}

func (a *arith) value(n string) int32 {
	v, ok := a.e.get(n)
	if !ok {
		return 0
	}
	// the numeric prefix counts
	v = strings.TrimSpace(v)
	k := 0
	if k < len(v) && (v[k] == '-' || v[k] == '+') {
		k++
	}
	for k < len(v) && v[k] >= '0' && v[k] <= '9' {
		k++
	}
	if k < len(v) && (v[k] == 'x' || v[k] == 'X') || strings.HasPrefix(strings.TrimLeft(v, "+-"), "0") && k > 1 {
		panic(unsupported{"octal or hexadecimal value"})
	}
	x, err := strconv.ParseInt(v[:k], 10, 32)
	if err != nil && k > 0 && v[:k] != "-" && v[:k] != "+" {
		panic(unsupported{"variable out of range"})
	}
	return int32(x)
}

func (a *arith) unary() int32 {
	a.ws()
	if a.i >= len(a.s) {
		panic(arithErr{"Missing operand."})
	}
	switch a.s[a.i] {
	case '-':
		a.i++
		return -a.unary()
	case '+':
		a.i++
		return a.unary()
	case '~':
		a.i++
		return ^a.unary()
	case '!':
		a.i++
		if a.unary() == 0 {
			return 1
		}
		return 0
	case '(':
		a.i++
		v := a.assign()
		a.ws()
		if a.i >= len(a.s) || a.s[a.i] != ')' {
			panic(arithErr{"Unbalanced parenthesis."})
		}
		a.i++
		return v
	}
	n := a.name()
	if n == "" {
		panic(arithErr{"Missing operand."})
	}
	a.i += len(n)
	if n[0] >= '0' && n[0] <= '9' {
		base := 10
		t := n
		if strings.HasPrefix(strings.ToLower(n), "0x") {
			base, t = 16, n[2:]
		} else if n[0] == '0' {
			base = 8
		}
		v, err := strconv.ParseInt(t, base, 64)
		if err != nil {
			if strings.Trim(n, "0123456789") == "" && base == 10 {
				panic(arithErr{"Invalid number.  Numbers are limited to 32-bits of precision."})
			}
			panic(arithErr{"Invalid number.  Numeric constants are either decimal (17), hexadecimal (0x11), or octal (021)."})
		}
		if v > 2147483647 {
			panic(arithErr{"Invalid number.  Numbers are limited to 32-bits of precision."})
		}
		return int32(v)
	}
	return a.value(n)
}
