package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Evaluation of a function under suppositions on the order of its arguments: comparisons between
// expressions are decided by the position of the expressions, so that a finite number of cases
// covers all the values.

// ranks gives the position of expressions relative to each other.
type ranks map[string]int

func cmpInt(a, b int) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

func (k ranks) order(x, y string) (int, bool) {
	if x == y {
		return 0, true
	}
	if rx, ok := k[x]; ok {
		if ry, ok := k[y]; ok {
			return cmpInt(rx, ry), true
		}
	}
	if y == "0" {
		return k.sign(x)
	}
	if x == "0" {
		o, ok := k.sign(y)
		return -o, ok
	}
	if f, args := splitCall(x); f == "either" {
		return k.same(args, func(z string) (int, bool) { return k.order(z, y) })
	}
	if f, args := splitCall(y); f == "either" {
		return k.same(args, func(z string) (int, bool) { return k.order(x, z) })
	}
	return 0, false
}

// same is the order all the expressions have.
func (k ranks) same(l []string, of func(x string) (int, bool)) (int, bool) {
	out := 0
	for i, x := range l {
		o, ok := of(x)
		if !ok || i > 0 && o != out {
			return 0, false
		}
		out = o
	}
	return out, len(l) > 0
}

// sign of an expression.
func (k ranks) sign(x string) (int, bool) {
	if x == "0" {
		return 0, true
	}
	if zero, ok := k["0"]; ok {
		if rx, ok := k[x]; ok {
			return cmpInt(rx, zero), true
		}
	}
	if c := constant.MakeFromLiteral(x, 5, 0); c.Kind() == constant.Int { // token.INT
		return constant.Sign(c), true
	}
	if strings.HasPrefix(x, "-") {
		o, ok := k.sign(x[1:])
		return -o, ok
	}
	if f, args := splitCall(x); f == "either" {
		return k.same(args, k.sign)
	}
	a, op, b := splitExpr(x)
	switch op {
	case "-":
		return k.order(a, b)
	case "+":
		sa, ok1 := k.sign(a)
		sb, ok2 := k.sign(b)
		if ok1 && ok2 && sa*sb >= 0 {
			return cmpInt(sa+sb, 0), true
		}
	case "*", "/":
		sa, ok1 := k.sign(a)
		sb, ok2 := k.sign(b)
		if ok1 && ok2 && (op == "*" || sb != 0) {
			return sa * sb, true
		}
	}
	return 0, false
}

// splitExpr separates the operands of an expression "(a op b)".
func splitExpr(x string) (a, op, b string) {
	if !strings.HasPrefix(x, "(") || !strings.HasSuffix(x, ")") {
		return "", "", ""
	}
	in := x[1 : len(x)-1]
	depth := 0
	quoted := false
	for i := 0; i < len(in); i++ {
		c := in[i]
		if quoted {
			if c == '\\' {
				i++
			} else if c == '"' {
				quoted = false
			}
			continue
		}
		switch c {
		case '"':
			quoted = true
		case '(':
			depth++
		case ')':
			depth--
		case '+', '-', '*', '/', '&', '|', '^', '<', '>', '=', '!', '%':
			if depth != 0 || i == 0 {
				continue
			}
			j := i + 1
			for j < len(in) && strings.IndexByte("&|<>=^", in[j]) >= 0 {
				j++
			}
			return in[:i], in[i:j], in[j:]
		}
		if depth < 0 {
			return "", "", ""
		}
	}
	return "", "", ""
}

// splitCall separates the arguments of an expression "f(a,b)".
func splitCall(x string) (f string, args []string) {
	if !strings.HasSuffix(x, ")") {
		return "", nil
	}
	depth, quoted, end := 0, false, len(x)-1
	open := -1
	// the parenthesis matching the last one
	for i := 0; i < len(x); i++ {
		c := x[i]
		if quoted {
			if c == '\\' {
				i++
			} else if c == '"' {
				quoted = false
			}
			continue
		}
		switch c {
		case '"':
			quoted = true
		case '(':
			if depth == 0 {
				open = i
			}
			depth++
		case ')':
			depth--
			if depth == 0 && i != end {
				open = -1
			}
		}
	}
	if open <= 0 {
		return "", nil
	}
	start := open + 1
	depth, quoted = 0, false
	for i := open + 1; i <= end; i++ {
		c := x[i]
		if quoted {
			if c == '\\' {
				i++
			} else if c == '"' {
				quoted = false
			}
			continue
		}
		switch c {
		case '"':
			quoted = true
		case '(':
			depth++
		case ')':
			depth--
			if i == end {
				args = append(args, x[start:i])
			}
		case ',':
			if depth == 0 {
				args = append(args, x[start:i])
				start = i + 1
			}
		}
	}
	return x[:open], args
}

// intervals enumerates the relative positions of the two intervals l$ and r$.
func intervals() []ranks {
	var out []ranks
	seen := map[[4]int]bool{}
	for lb := 0; lb < 4; lb++ {
		for le := lb; le < 4; le++ {
			for rb := 0; rb < 4; rb++ {
				for re := rb; re < 4; re++ {
					v := [4]int{lb, le, rb, re}
					var present [4]bool
					for _, x := range v {
						present[x] = true
					}
					var to [4]int
					n := 0
					for i, ok := range present {
						to[i] = n
						if ok {
							n++
						}
					}
					for i, x := range v {
						v[i] = to[x]
					}
					if seen[v] {
						continue
					}
					seen[v] = true
					out = append(out, ranks{"l$.Begin": v[0], "l$.End": v[1], "r$.Begin": v[2], "r$.End": v[3]})
				}
			}
		}
	}
	return out
}

// the string comparisons, when l$ and r$ are supposed equal, or distinct whatever the normalisation.
func stringWorld(equal bool) (order func(x, y string) (int, bool), override func(in ssa.Instruction, get func(ssa.Value) *aval) *aval) {
	diff := 1
	if equal {
		diff = 0
	}
	// the same expression on both sides
	paired := func(x, y string) bool {
		return x != y && (strings.ReplaceAll(x, "l$", "r$") == strings.ReplaceAll(y, "l$", "r$"))
	}
	order = func(x, y string) (int, bool) {
		if paired(x, y) && !strings.HasPrefix(x, "len(") {
			return diff, true
		}
		for _, e := range [2][2]string{{x, y}, {y, x}} {
			if e[1] == "0" {
				if f, args := splitCall(e[0]); f != "" && len(args) == 2 && paired(args[0], args[1]) {
					return diff, true
				}
			}
		}
		return 0, false
	}
	override = func(in ssa.Instruction, get func(ssa.Value) *aval) *aval {
		c, ok := in.(*ssa.Call)
		if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "strings.EqualFold" {
			return nil
		}
		a, b := get(c.Call.Args[0]), get(c.Call.Args[1])
		if a == nil || b == nil || !paired(a.symbol(), b.symbol()) {
			return nil
		}
		return &aval{l: &lit{T: types.Typ[types.Bool], C: constant.MakeBool(equal)}}
	}
	return order, override
}
