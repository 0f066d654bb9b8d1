package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The meaning of the configuration rules: comparison and arithmetic operators, elements of the
// configuration files, edit modes and qualifiers.

func init() {
	register("C17", "The operators of the configuration rules are evaluated abstractly for each type and relative order of their operands; each element and attribute value of the configuration files is followed to the operator, mode or qualifier it stands for.", runC17)
}

// fcRules gathers the parts of package fontconfig playing a role in the rules.
type fcRules struct {
	*fcVocab
	r       *Report
	op      *types.Named // the type of operators
	compare map[string]int64
	mode    map[string]int64
	cmpFn   *ssa.Function // (Value, op, Value) bool
	flagFn  *ssa.Function // (op, flags) op
	expr    *types.Named
	binary  [2]string // the operands of a binary expression
	elem    map[string]int64
	elemT   *types.Named
	end     *ssa.Function    // dispatches on the elements
	qual    map[string]int64 // meaning of the attribute qual
}

func runC17(p *Program, r *Report) {
	c := &fcRules{fcVocab: p.vocab(), r: r}
	opTable := func(key string) (map[string]int64, types.Type) {
		for _, v := range c.t.vars("fontconfig") {
			l := c.t.global(v)
			if l == nil || l.Keys == nil {
				continue
			}
			out := map[string]int64{}
			for i, k := range l.Keys {
				if s, ok := k.s(); ok {
					if n, ok := l.Vals[i].i(); ok {
						out[s] = n
					}
				}
			}
			if _, ok := out[key]; ok {
				return out, v.Type().Underlying().(*types.Map).Elem()
			}
		}
		return nil, nil
	}
	var ct, mt types.Type
	c.compare, ct = opTable("less_eq")
	c.mode, mt = opTable("prepend_first")
	r.rule("the tables of comparisons and edit modes are found by their keys; the type of their values is the type of operators")
	if ct == nil || mt == nil || !types.Identical(ct, mt) {
		r.find("roles", "tables", "fontconfig", "the tables of the comparisons and of the edit modes of the configuration files are not found, or do not hold the same type of operators")
		return
	}
	c.op, _ = ct.(*types.Named)
	value := p.pkg("fontconfig").Types.Scope().Lookup("Value").Type()
	for _, fn := range p.Funcs {
		if fn.Pkg != p.ssaPkg("fontconfig") || fn.Parent() != nil {
			continue
		}
		res := fn.Signature.Results()
		if len(fn.Params) == 3 && res.Len() == 1 && isBasicT(types.IsBoolean)(res.At(0).Type()) && types.Identical(fn.Params[0].Type(), value) && types.Identical(fn.Params[2].Type(), value) && types.Identical(fn.Params[1].Type(), c.op) {
			c.cmpFn = fn
		}
		if len(fn.Params) == 2 && res.Len() == 1 && types.Identical(fn.Params[0].Type(), c.op) && types.Identical(res.At(0).Type(), c.op) && isIntType(fn.Params[1].Type()) {
			c.flagFn = fn
		}
	}
	for name, want := range map[string]map[string]int64{"comparison": c.compare, "mode": c.mode} {
		names := map[string][]string{"comparison": {"eq", "not_eq", "less", "less_eq", "more", "more_eq", "contains", "not_contains"}, "mode": {"assign", "assign_replace", "prepend", "prepend_first", "append", "append_last", "delete", "delete_all"}}[name]
		seen := map[int64]string{}
		for _, n := range names {
			r.count("attribute values", 1)
			k, ok := want[n]
			if !ok {
				r.find("attribute", name+" "+n, "fontconfig", "the %s %q of the configuration files is not known", name, n)
			} else if seen[k] != "" {
				r.find("attribute", name+" "+n, "fontconfig", "the %ss %q and %q of the configuration files stand for the same operator", name, n, seen[k])
			}
			seen[k] = n
		}
	}
	c.comparisons()
	c.evaluation()
	c.attributes()
	c.edits()
	c.qualifiers()
	r.need("cases of comparisons", r.Counts["cases of comparisons"], 100)
	r.need("attribute values", r.Counts["attribute values"], 16)
}

func (c *fcRules) vt(name string) *types.Named {
	for _, t := range c.vtypes {
		if t.Obj().Name() == name {
			return t
		}
	}
	panic("no type of value named " + name)
}

func (c *fcRules) opLit(k int64) *aval { return intLit(c.op, k) }

func truth(a *aval) (v, ok bool) {
	if k := a.constant(); k != nil && k.C != nil && k.C.Kind() == constant.Bool {
		return constant.BoolVal(k.C), true
	}
	return false, false
}

func boolLit(b bool) *aval {
	return &aval{l: &lit{T: types.Typ[types.Bool], C: constant.MakeBool(b)}}
}

var compareNames = []string{"eq", "not_eq", "less", "less_eq", "more", "more_eq", "contains", "not_contains"}

// comparisons evaluates the comparison of values.
func (c *fcRules) comparisons() {
	if c.cmpFn == nil {
		return
	}
	c.r.rule("comparison: for each operator and pair of types, evaluated under each relative order of the operands")
	at := c.p.pos(c.cmpFn.Pos())
	// run evaluates l op r
	run := func(s *sccp, l *aval, k int64, rt *aval) *aval {
		s.t = c.t
		res, _ := s.run(c.cmpFn, []*aval{l, c.opLit(k), rt})
		return res[0]
	}
	check := func(s *sccp, name string, l, rt *aval, rel string, want bool) {
		c.r.count("cases of comparisons", 1)
		got, ok := truth(run(s, l, c.compare[name], rt))
		if ok && got != want {
			tl, tr := typeLabel(l), typeLabel(rt)
			c.r.find("comparison", fmt.Sprintf("%s %s %s: %s", tl, name, tr, rel), at, "%s: %s on values of types %s and %s is %v when %s, %v is expected", fname(c.cmpFn), name, tl, tr, got, rel, want)
		}
	}
	sym := func(side string, t string) *aval { return &aval{sym: side, dyn: c.vt(t)} }
	ordered := func(name string, lb, le, rb, re int) bool {
		switch name {
		case "eq":
			return lb == rb && le == re
		case "not_eq":
			return lb != rb || le != re
		case "contains":
			return lb >= rb && le <= re
		case "not_contains":
			return lb < rb || le > re
		case "less":
			return le < rb
		case "less_eq":
			return le <= rb
		case "more":
			return lb > re
		}
		return lb >= re // more_eq
	}
	for _, n := range compareNames {
		// numbers and intervals
		for _, lt := range []string{"Int", "Float", "Range"} {
			for _, rt := range []string{"Int", "Float", "Range"} {
				for _, k := range intervals() {
					lb, le, rb, re := k["l$.Begin"], k["l$.End"], k["r$.Begin"], k["r$.End"]
					if lt != "Range" && lb != le || rt != "Range" && rb != re {
						continue
					}
					k["l$"], k["r$"] = lb, rb
					want := ordered(n, lb, le, rb, re)
					rel := fmt.Sprintf("they are at [%d %d] and [%d %d]", lb, le, rb, re)
					check(&sccp{order: k.order}, n, sym("l$", lt), sym("r$", rt), rel, want)
				}
			}
		}
		// booleans (2: don't care)
		for x := int64(0); x < 3; x++ {
			for y := int64(0); y < 3; y++ {
				want := map[string]bool{
					"eq": x == y, "not_eq": x != y,
					"contains": x == y || x == 2, "not_contains": !(x == y || x == 2),
					"less": x != y && y == 2, "less_eq": x == y || y == 2,
					"more": x != y && x == 2, "more_eq": x == y || x == 2,
				}[n]
				check(&sccp{}, n, intLit(c.vt("Bool"), x), intLit(c.vt("Bool"), y), fmt.Sprintf("they are %d and %d", x, y), want)
			}
		}
		// strings
		for _, w := range []string{"equal", "distinct", "left starts with right", "left contains right", "right contains left"} {
			var want bool
			switch n {
			case "eq":
				want = w == "equal"
			case "not_eq":
				want = w != "equal"
			case "contains":
				want = w == "equal" || strings.HasPrefix(w, "left ")
			case "not_contains":
				want = !(w == "equal" || strings.HasPrefix(w, "left "))
			default:
				want = false
			}
			s := &sccp{}
			s.order, s.override = stringsIn(w)
			check(s, n, sym("l$", "String"), sym("r$", "String"), "they are "+w, want)
			if c.flagFn != nil && (n == "eq" || n == "not_eq") && (w == "equal" || w == "distinct") {
				res, _ := (&sccp{t: c.t}).run(c.flagFn, []*aval{c.opLit(c.compare[n]), intLit(c.flagFn.Params[1].Type(), 1)})
				if k, ok := res[0].constant().i(); ok {
					c.r.count("cases of comparisons", 1)
					got, ok := truth(run(s, sym("l$", "String"), k, sym("r$", "String")))
					if ok && got != want {
						c.r.find("comparison", "String flagged "+n+" String: "+w, at, "%s: %s ignoring blanks, on strings which are %s, is %v", fname(c.cmpFn), n, w, got)
					}
				}
			}
		}
		// types which are not comparable
		for _, pair := range [][2]string{{"String", "Bool"}, {"Bool", "String"}, {"Int", "String"}, {"Bool", "Int"}, {"Float", "Bool"}, {"Matrix", "String"}, {"Matrix", "Int"}, {"Charset", "String"}, {"String", "Charset"}, {"Langset", "Int"}, {"Langset", "Charset"}, {"Range", "String"}, {"Range", "Bool"}, {"String", "Range"}} {
			check(&sccp{}, n, sym("l$", pair[0]), sym("r$", pair[1]), "they are of different kinds", n == "not_eq" || n == "not_contains")
		}
	}
	// with blanks ignored or not
	if c.flagFn != nil {
		for _, n := range []string{"eq", "not_eq"} {
			res, _ := (&sccp{t: c.t}).run(c.flagFn, []*aval{c.opLit(c.compare[n]), intLit(c.flagFn.Params[1].Type(), 1)})
			k, ok := res[0].constant().i()
			if !ok {
				continue
			}
			for _, flagged := range []bool{false, true} {
				op := c.compare[n]
				if flagged {
					op = k
				}
				blanks := false
				decided := false
				s := &sccp{t: c.t, final: true}
				s.visit = func(in ssa.Instruction, get func(ssa.Value) *aval) {
					call, ok := in.(*ssa.Call)
					if !ok || call.Parent() != c.cmpFn || call.Call.StaticCallee() == nil {
						return
					}
					f := call.Call.StaticCallee()
					if !inModule(f) || len(call.Call.Args) != 2 || !isBasicT(types.IsString)(call.Call.Args[0].Type()) {
						return
					}
					decided = true
					if mentionsBlank(c.p, f) {
						blanks = true
					}
				}
				s.run(c.cmpFn, []*aval{sym("l$", "String"), c.opLit(op), sym("r$", "String")})
				c.r.count("cases of comparisons", 1)
				if decided && blanks != flagged {
					what := map[bool]string{true: "does not ignore blanks when this is asked", false: "ignores blanks when this is not asked"}[flagged]
					c.r.find("comparison", fmt.Sprintf("blanks %s %v", n, flagged), at, "%s: %s on strings %s", fname(c.cmpFn), n, what)
				}
			}
		}
	}
	// sets
	for _, t := range []string{"Charset", "Langset", "Matrix"} {
		called := map[string]*ssa.Function{}
		for _, n := range compareNames {
			if n != "eq" && n != "not_eq" && n != "contains" && n != "not_contains" {
				continue
			}
			neg := strings.HasPrefix(n, "not_")
			for _, yes := range []bool{true, false} {
				s := &sccp{}
				order := ""
				override := func(in ssa.Instruction, get func(ssa.Value) *aval) *aval {
					call, ok := in.(*ssa.Call)
					if !ok || call.Call.StaticCallee() == nil || !isBasicT(types.IsBoolean)(call.Type()) {
						return nil
					}
					f := call.Call.StaticCallee()
					var names []string
					for _, a := range call.Call.Args {
						av := get(a)
						if av == nil {
							return waiting
						}
						if av.pt != nil {
							av = av.pt
						}
						names = append(names, av.symbol())
					}
					if len(names) != 2 || names[0]+names[1] != "l$r$" && names[0]+names[1] != "r$l$" {
						return nil
					}
					called[n], order = f, names[0]
					return boolLit(yes)
				}
				s.override = override
				check(s, n, sym("l$", t), sym("r$", t), fmt.Sprintf("the test of sets is %v", yes), yes != neg)
				if f := called[n]; f != nil && order != "" && strings.HasSuffix(n, "contains") {
					low := strings.ToLower(f.Name())
					if strings.Contains(low, "subset") && order == "l$" || (strings.Contains(low, "include") || strings.Contains(low, "contain")) && order == "r$" {
						c.r.find("comparison", fmt.Sprintf("%s %s direction", t, n), at, "%s: %s on values of type %s tests whether the right value contains the left one", fname(c.cmpFn), n, t)
					}
				}
			}
		}
		if a, b := called["eq"], called["not_eq"]; a != nil && b != nil && a != b {
			c.r.find("comparison", t+" eq/not_eq", at, "%s: eq and not_eq on values of type %s are decided by different functions", fname(c.cmpFn), t)
		}
		if a, b := called["contains"], called["not_contains"]; a != nil && b != nil && a != b {
			c.r.find("comparison", t+" contains/not_contains", at, "%s: contains and not_contains on values of type %s are decided by different functions", fname(c.cmpFn), t)
		}
		if a, b := called["eq"], called["contains"]; a != nil && a == b {
			c.r.find("comparison", t+" eq/contains", at, "%s: eq and contains on values of type %s are decided by the same function", fname(c.cmpFn), t)
		}
	}
}

func typeLabel(a *aval) string {
	if t := a.concrete(); t != nil {
		return typeName(t)
	}
	return "unknown"
}

// mentionsBlank: fn, or a function it calls, deals with blanks.
func mentionsBlank(p *Program, fn *ssa.Function) bool {
	for f := range p.reachable([]*ssa.Function{fn}, true) {
		found := false
		p.eachInstr(f, func(in ssa.Instruction) {
			for _, op := range in.Operands(nil) {
				switch k := (*op).(type) {
				case *ssa.Const:
					if k.Value == nil {
						continue
					}
					if k.Value.Kind() == constant.String && strings.HasPrefix(constant.StringVal(k.Value), " ") {
						found = true
					}
					if k.Value.Kind() == constant.Int && k.Int64() == ' ' {
						found = true
					}
				case *ssa.Global:
					if e := p.tables().init[k.Object()]; e != nil {
						ast.Inspect(e, func(n ast.Node) bool {
							if l, ok := n.(*ast.BasicLit); ok && (l.Value == `" "` || l.Value == `' '`) {
								found = true
							}
							return true
						})
					}
				case *ssa.Function:
					if strings.Contains(k.String(), "unicode.IsSpace") {
						found = true
					}
				}
			}
		})
		if found {
			return true
		}
	}
	return false
}

// stringsIn supposes a relation between the strings l$ and r$.
func stringsIn(w string) (func(x, y string) (int, bool), func(in ssa.Instruction, get func(ssa.Value) *aval) *aval) {
	order, override := stringWorld(w == "equal")
	if w == "equal" {
		o2 := func(x, y string) (int, bool) {
			if f, args := splitCall(x); strings.HasPrefix(y, "-") && strings.Contains(strings.ToLower(f), "index") && len(args) == 2 {
				return 1, true
			}
			return order(x, y)
		}
		return o2, override
	}
	side := func(x string) string {
		l, r := strings.Contains(x, "l$"), strings.Contains(x, "r$")
		switch {
		case l && !r:
			return "left"
		case r && !l:
			return "right"
		}
		return ""
	}
	// in reports whether the first argument of a search contains the second one
	in := func(f string, args []string) (bool, bool) {
		low := strings.ToLower(f)
		if len(args) != 2 || !strings.Contains(low, "index") && !strings.Contains(low, "contains") {
			return false, false
		}
		a, b := side(args[0]), side(args[1])
		if a == "" || b == "" || a == b {
			return false, false
		}
		return w == a+" contains "+b || w == a+" starts with "+b, true
	}
	o2 := func(x, y string) (int, bool) {
		if f, args := splitCall(x); f != "" {
			if is, ok := in(f, args); ok {
				switch y {
				case "-1":
					if is {
						return 1, true
					}
					return 0, true
				case "0":
					if is && strings.Contains(w, "starts") {
						return 0, true
					} else if is {
						return 1, true
					}
					return -1, true
				}
				return 0, false
			}
		}
		return order(x, y)
	}
	ov2 := func(i ssa.Instruction, get func(ssa.Value) *aval) *aval {
		if call, ok := i.(*ssa.Call); ok && call.Call.StaticCallee() != nil && call.Call.StaticCallee().String() == "strings.Contains" {
			a, b := get(call.Call.Args[0]), get(call.Call.Args[1])
			if a != nil && b != nil {
				if is, ok := in("strings.Contains", []string{a.symbol(), b.symbol()}); ok {
					return boolLit(is)
				}
			}
		}
		return override(i, get)
	}
	return o2, ov2
}

// evaluator is the function giving the value of an expression.
func (c *fcRules) evaluator() *ssa.Function {
	value := c.p.pkg("fontconfig").Types.Scope().Lookup("Value").Type()
	for _, fn := range c.p.Funcs {
		if fn.Pkg != c.p.ssaPkg("fontconfig") || fn.Parent() != nil || len(fn.Params) == 0 {
			continue
		}
		res := fn.Signature.Results()
		if res.Len() != 1 || !types.Identical(res.At(0).Type(), value) {
			continue
		}
		self, cmp := false, false
		c.p.eachInstr(fn, func(in ssa.Instruction) {
			if call, ok := in.(*ssa.Call); ok {
				self = self || call.Call.StaticCallee() == fn
				cmp = cmp || call.Call.StaticCallee() == c.cmpFn
			}
		})
		if self && cmp {
			return fn
		}
	}
	return nil
}

// leaves of the expressions, and operators with one or two operands
var elementMeaning = map[string]string{
	"plus": "+", "minus": "-", "times": "*", "divide": "/", "or": "||", "and": "&&", "not": "!", "if": "?",
	"floor": "math.Floor", "ceil": "math.Ceil", "round": "math.Round", "trunc": "math.Trunc",
	"eq": "eq", "not_eq": "not_eq", "less": "less", "less_eq": "less_eq", "more": "more", "more_eq": "more_eq", "contains": "contains", "not_contains": "not_contains",
}

// typesOf lists the kinds of struct of the package whose fields all are *expression.
func (c *fcRules) operands(n int) []string {
	sc := c.p.pkg("fontconfig").Types.Scope()
	for _, name := range sc.Names() {
		tn, ok := sc.Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok || st.NumFields() != n {
			continue
		}
		var out []string
		for i := 0; i < n; i++ {
			if pt, ok := st.Field(i).Type().(*types.Pointer); ok && types.Identical(pt.Elem(), c.expr) {
				out = append(out, st.Field(i).Name())
			}
		}
		if len(out) == n {
			return out
		}
	}
	return nil
}

// loadsOf gives a constant to each load of a value of type t.
func loadsOf(t types.Type, v int64) func(in ssa.Instruction, get func(ssa.Value) *aval) *aval {
	return func(in ssa.Instruction, get func(ssa.Value) *aval) *aval {
		val, ok := in.(ssa.Value)
		if !ok || !types.Identical(val.Type(), t) {
			return nil
		}
		switch in := in.(type) {
		case *ssa.UnOp:
			if fa, ok := in.X.(*ssa.FieldAddr); ok && in.Op == token.MUL {
				_ = fa
				return intLit(t, v)
			}
		case *ssa.Field:
			return intLit(t, v)
		}
		return nil
	}
}

// evaluate gives the value of an expression of operator op with the given operands.
func (c *fcRules) evaluate(fn *ssa.Function, op int64, operand func(path string) *aval, override func(in ssa.Instruction, get func(ssa.Value) *aval) *aval) []*aval {
	root := fn.Params[0].Name() + "$"
	load := loadsOf(c.op, op)
	s := &sccp{t: c.t}
	s.override = func(in ssa.Instruction, get func(ssa.Value) *aval) *aval {
		if in.Parent() == fn {
			if a := load(in, get); a != nil {
				return a
			}
		}
		if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() == fn {
			a := get(call.Call.Args[0])
			if a == nil {
				return waiting
			}
			if strings.HasPrefix(a.symbol(), root+".") {
				if v := operand(strings.TrimPrefix(a.symbol(), root)); v != nil {
					return v
				}
			}
			return bottom
		}
		if override != nil {
			return override(in, get)
		}
		return nil
	}
	args := []*aval{{sym: root}}
	for _, p := range fn.Params[1:] {
		args = append(args, &aval{sym: p.Name() + "$", dyn: dynOf(p.Type())})
	}
	_, all := s.run(fn, args)
	var out []*aval
	for _, ret := range all {
		out = append(out, ret[0])
	}
	return out
}

func dynOf(t types.Type) types.Type {
	if types.IsInterface(t) {
		return nil
	}
	return t
}

// evaluation checks the value of the expressions, operator by operator.
func (c *fcRules) evaluation() {
	fn := c.evaluator()
	if fn == nil {
		return
	}
	c.expr, _ = fn.Params[0].Type().(*types.Pointer).Elem().(*types.Named)
	two := c.operands(2)
	elems := c.elements()
	if two == nil || c.expr == nil || elems == nil {
		return
	}
	c.r.rule("evaluation: for each element of the configuration files, the operator it stands for is evaluated for each type of operands")
	at := c.p.pos(fn.Pos())
	left, right := "."+two[0], "."+two[1]
	suffix := func(l, rt *aval) func(path string) *aval {
		return func(path string) *aval {
			n := strings.Count(path, left) + strings.Count(path, right)
			switch {
			case n == 1 && strings.HasSuffix(path, left):
				return l
			case n == 1 && strings.HasSuffix(path, right):
				return rt
			}
			return nil
		}
	}
	sym := func(side string, t string) *aval { return &aval{sym: side, dyn: c.vt(t)} }
	bad := func(el, what string, f string, args ...interface{}) {
		c.r.find("evaluation", el+" "+what, at, "the value of <%s> given by %s: %s", el, fname(fn), fmt.Sprintf(f, args...))
	}
	boolT := c.vt("Bool")
	for _, el := range sortedKeys2(elems) {
		op := elems[el]
		c.r.count("operators evaluated", 1)
		switch m := elementMeaning[el]; m {
		case "+", "-", "*", "/":
			for _, t := range []string{"Int", "Float", "String", "Charset", "Langset", "Matrix"} {
				for _, t2 := range []string{"Int", "Float", t} {
					num := t == "Int" || t == "Float"
					if !num && t2 != t {
						continue
					}
					for _, a := range c.evaluate(fn, op, suffix(sym("l$", t), sym("r$", t2)), nil) {
						c.r.count("values of expressions", 1)
						if t == "Matrix" && m == "*" && len(a.flds) == 4 {
							c.product(a, bad)
							continue
						}
						x, o, y := splitExpr(a.symbol())
						f, args := splitCall(a.symbol())
						switch {
						case o != "" && (x == "l$" && y == "r$" || x == "r$" && y == "l$"):
							if o != m {
								bad(el, t+t2, "on values of types %s and %s, it is %s", t, t2, strings.ReplaceAll(a.symbol(), "$", ""))
							} else if x == "r$" {
								bad(el, t+t2, "on values of types %s and %s, the operands are exchanged", t, t2)
							}
						case f != "" && !strings.HasPrefix(a.symbol(), "(") || f != "" && strings.HasPrefix(f, "("):
							low := strings.ToLower(f)
							if m == "+" && strings.Contains(low, "subtract") || m == "-" && (strings.Contains(low, "union") || strings.Contains(low, "merge")) {
								bad(el, t+t2, "on values of type %s, it is %s", t, strings.ReplaceAll(a.symbol(), "$", ""))
							}
							if (m == "-" || m == "*") && len(args) == 2 && args[0] == "r$" && args[1] == "l$" {
								bad(el, t+t2, "on values of type %s, the operands are exchanged", t)
							}
						case a.symbol() == "l$" || a.symbol() == "r$":
							bad(el, t+t2, "on values of types %s and %s, it is only one of the operands", t, t2)
						case a.constant() != nil && a.constant().Nil:
							if num || (t == "Charset" || t == "Langset") && (m == "+" || m == "-") || t == "String" && m == "+" || t == "Matrix" && m == "*" {
								bad(el, t+t2, "on values of types %s and %s, there is none", t, t2)
							}
						}
					}
				}
			}
		case "||", "&&":
			for x := int64(0); x < 3; x++ {
				for y := int64(0); y < 3; y++ {
					want := x != 0 && y != 0
					if m == "||" {
						want = x != 0 || y != 0
					}
					res := c.evaluate(fn, op, suffix(intLit(boolT, x), intLit(boolT, y)), nil)
					c.boolResult(res, want, func(got string) {
						bad(el, fmt.Sprint(x, y), "on the booleans %d and %d, it is %s", x, y, got)
					})
				}
			}
		case "!":
			for x := int64(0); x < 3; x++ {
				res := c.evaluate(fn, op, suffix(intLit(boolT, x), nil), nil)
				c.boolResult(res, x == 0, func(got string) {
					bad(el, fmt.Sprint(x), "on the boolean %d, it is %s", x, got)
				})
			}
		case "?":
			for x := int64(0); x < 3; x++ {
				res := c.evaluate(fn, op, func(path string) *aval {
					n := strings.Count(path, left) + strings.Count(path, right)
					switch {
					case n == 1 && strings.HasSuffix(path, left):
						return intLit(boolT, x)
					case n == 2 && strings.HasSuffix(path, left):
						return sym("l$", "Float")
					case n == 2 && strings.HasSuffix(path, right):
						return sym("r$", "Float")
					}
					return nil
				}, nil)
				c.r.count("values of expressions", 1)
				want := "l$"
				if x == 0 {
					want = "r$"
				}
				for _, a := range res {
					if got := a.symbol(); got != want && (got == "l$" || got == "r$" || a.constant() != nil) {
						bad(el, fmt.Sprint(x), "when the condition is %d, it is %s", x, map[string]string{"l$": "the second operand", "r$": "the third operand"}[got])
					}
				}
			}
		case "math.Floor", "math.Ceil", "math.Round", "math.Trunc":
			for _, a := range c.evaluate(fn, op, suffix(sym("l$", "Float"), nil), nil) {
				c.r.count("values of expressions", 1)
				if f, args := splitCall(a.symbol()); strings.HasPrefix(f, "math.") && f != m || len(args) > 0 && args[0] != "l$" {
					bad(el, "Float", "on a number, it is %s", strings.ReplaceAll(a.symbol(), "$", ""))
				} else if a.symbol() == "l$" || a.constant() != nil {
					bad(el, "Float", "a number is not rounded")
				}
			}
			for _, a := range c.evaluate(fn, op, suffix(sym("l$", "Int"), nil), nil) {
				c.r.count("values of expressions", 1)
				if a.constant() != nil && a.constant().Nil {
					bad(el, "Int", "on an integer, there is none")
				}
			}
		default: // comparisons
			if _, ok := c.compare[m]; !ok {
				continue
			}
			for _, yes := range []bool{true, false} {
				swapped := false
				var with *lit
				res := c.evaluate(fn, op, suffix(sym("l$", "String"), sym("r$", "String")), func(in ssa.Instruction, get func(ssa.Value) *aval) *aval {
					call, ok := in.(*ssa.Call)
					if !ok || call.Call.StaticCallee() != c.cmpFn {
						return nil
					}
					for _, x := range call.Call.Args {
						if get(x) == nil {
							return waiting
						}
					}
					if a := get(call.Call.Args[0]); a.symbol() == "r$" {
						swapped = true
					}
					with = get(call.Call.Args[1]).constant()
					return boolLit(yes)
				})
				c.boolResult(res, yes, func(got string) {
					bad(el, fmt.Sprint(yes), "when the comparison is %v, it is %s", yes, got)
				})
				if swapped {
					bad(el, "order", "the operands are exchanged")
				}
				if k, ok := with.i(); ok && k != c.compare[m] {
					bad(el, "operator", "the operands are not compared with the operator of the attribute compare=%q", m)
				}
			}
		}
	}
}

// product: the fields of the product of the matrices l$ and r$.
func (c *fcRules) product(a *aval, bad func(el, what, f string, args ...interface{})) {
	st := c.vt("Matrix").Underlying().(*types.Struct)
	at := map[string]string{}
	for i := range a.flds {
		at[st.Field(i).Name()] = a.flds[i].symbol()
	}
	sum := func(x, y string) string {
		if x > y {
			x, y = y, x
		}
		return "(" + x + "+" + y + ")"
	}
	for _, f := range []string{"Xx", "Xy", "Yx", "Yy"} {
		got := at[f]
		_, o, _ := splitExpr(got)
		want := sum("(l$."+f[:1]+"x*r$.X"+f[1:]+")", "(l$."+f[:1]+"y*r$.Y"+f[1:]+")")
		if o != "" && got != want {
			bad("times", "Matrix "+f, "the field %s of the product of two matrices is %s", f, strings.ReplaceAll(got, "$", ""))
		}
	}
}

func (c *fcRules) boolResult(res []*aval, want bool, bad func(got string)) {
	for _, a := range res {
		c.r.count("values of expressions", 1)
		k, ok := a.constant().i()
		switch {
		case ok && (k == 1) != want || ok && k != 0 && k != 1:
			bad(fmt.Sprint(k))
		case a.constant() != nil && a.constant().Nil:
			bad("missing")
		}
	}
}

func sortedKeys2(m map[string]int64) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// elements follows each element of the configuration files to the operator it stands for.
func (c *fcRules) elements() map[string]int64 {
	// the names of the elements
	c.elem = map[string]int64{}
	var tbl *types.Var
	for _, v := range c.t.vars("fontconfig") {
		l := c.t.global(v)
		if l == nil || l.Keys != nil || len(l.Vals) == 0 {
			continue
		}
		m := map[string]int64{}
		for i, e := range l.Vals {
			if s, ok := e.s(); ok && s != "" {
				m[s] = int64(i)
			}
		}
		if _, ok := m["less_eq"]; ok && m["patelt"] != 0 {
			c.elem, tbl = m, v
		}
	}
	if tbl == nil {
		return nil
	}
	// the type of elements: found from their name
	for _, fn := range c.p.Funcs {
		if res := fn.Signature.Results(); fn.Pkg == c.p.ssaPkg("fontconfig") && fn.Parent() == nil && fn.Signature.Recv() == nil && res.Len() > 0 {
			if nm, ok := res.At(0).Type().(*types.Named); ok && isIntType(nm) && nm.Obj().Pkg() == c.object.Obj().Pkg() {
				for _, v := range c.t.tablesRead(fn) {
					if v == tbl && (c.elemT == nil || fn.Signature.Results().Len() == 2) {
						c.elemT = nm
					}
				}
			}
		}
	}
	if c.elemT == nil {
		return nil
	}
	// the function dispatching on the element
	var end *ssa.Function
	best := 0
	for _, fn := range c.p.Funcs {
		if fn.Pkg != c.p.ssaPkg("fontconfig") || fn.Parent() != nil {
			continue
		}
		cases := map[int64]bool{}
		c.p.eachInstr(fn, func(in ssa.Instruction) {
			if b, ok := in.(*ssa.BinOp); ok && b.Op == token.EQL {
				if k, ok := b.Y.(*ssa.Const); ok && k.Value != nil && types.Identical(k.Type(), c.elemT) {
					cases[k.Int64()] = true
				}
			}
		})
		if len(cases) > best && len(cases) > len(c.elem)/2 {
			best, end = len(cases), fn
		}
	}
	if end == nil {
		return nil
	}
	c.end = end
	c.r.rule("elements: the function dispatching on the elements is evaluated for each of them; the operators passed on are collected")
	out := map[string]int64{}
	seen := map[int64]string{}
	for _, el := range sortedKeys2(c.elem) {
		if elementMeaning[el] == "" {
			continue
		}
		ops := map[int64]bool{}
		s := &sccp{t: c.t, final: true, depth: 4}
		s.override = loadsOf(c.elemT, c.elem[el])
		s.visit = func(in ssa.Instruction, get func(ssa.Value) *aval) {
			call, ok := in.(*ssa.Call)
			if !ok || call.Call.StaticCallee() == nil || !inModule(call.Call.StaticCallee()) {
				return
			}
			for _, a := range call.Call.Args {
				if types.Identical(a.Type(), c.op) {
					if k, ok := get(a).constant().i(); ok {
						ops[k] = true
					}
				}
			}
		}
		s.run(end, []*aval{})
		c.r.count("elements followed", 1)
		if len(ops) != 1 {
			if len(ops) == 0 {
				c.r.find("element", "element "+el, c.p.pos(end.Pos()), "%s does nothing of the element <%s> of the configuration files", fname(end), el)
			}
			continue
		}
		for k := range ops {
			if seen[k] != "" {
				c.r.find("element", "element "+el, c.p.pos(end.Pos()), "%s: the elements <%s> and <%s> stand for the same operator", fname(end), el, seen[k])
			}
			seen[k] = el
			out[el] = k
		}
	}
	return out
}
