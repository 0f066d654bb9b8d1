package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// parsed is what the end of an element of the configuration files leads to.
type parsed struct {
	fields map[string][]*aval     // values stored in the fields of the structures of the package, as "Type.field"
	args   map[string][]*aval     // arguments of the types of the package
	types  map[string]types.Type  // types of the fields
	calls  map[*ssa.Function]bool // functions called
}

// element evaluates the end of the element el with the given attributes ("" for the others).
func (c *fcRules) element(el string, attrs map[string]string) *parsed {
	out := &parsed{fields: map[string][]*aval{}, args: map[string][]*aval{}, types: map[string]types.Type{}, calls: map[*ssa.Function]bool{}}
	isElem := loadsOf(c.elemT, c.elem[el])
	s := &sccp{t: c.t, final: true, depth: 4}
	if attrs["ignore-blanks"] != "" {
		s.depth = 3 // parsing the boolean
	}
	s.override = func(in ssa.Instruction, get func(ssa.Value) *aval) *aval {
		if a := isElem(in, get); a != nil {
			return a
		}
		call, ok := in.(*ssa.Call)
		if !ok || call.Call.StaticCallee() == nil || !c.readsAttr(call.Call.StaticCallee()) {
			return nil
		}
		for _, a := range call.Call.Args {
			v := get(a)
			if v == nil {
				return waiting
			}
			if name, ok := v.constant().s(); ok {
				return &aval{l: &lit{T: types.Typ[types.String], C: constant.MakeString(attrs[name])}}
			}
		}
		return nil
	}
	own := func(t types.Type) string {
		if nm, ok := t.(*types.Named); ok && nm.Obj().Pkg() == c.object.Obj().Pkg() {
			return nm.Obj().Name()
		}
		return ""
	}
	s.visit = func(in ssa.Instruction, get func(ssa.Value) *aval) {
		switch in := in.(type) {
		case *ssa.Store:
			fa, ok := in.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
			st, ok := pt.Underlying().(*types.Struct)
			if !ok || own(pt) == "" {
				return
			}
			k := own(pt) + "." + st.Field(fa.Field).Name()
			out.types[k] = st.Field(fa.Field).Type()
			out.fields[k] = append(out.fields[k], get(in.Val))
		case *ssa.Call:
			f := in.Call.StaticCallee()
			if f == nil || !inModule(f) {
				return
			}
			out.calls[f] = true
			for _, a := range in.Call.Args {
				if n := own(a.Type()); n != "" && isIntType(a.Type()) {
					out.args[n] = append(out.args[n], get(a))
				}
			}
		}
	}
	s.run(c.end, nil)
	return out
}

// readsAttr: fn gives the value of an attribute, given its name.
func (c *fcRules) readsAttr(fn *ssa.Function) bool {
	str := isBasicT(types.IsString)
	if !inModule(fn) || fn.Signature.Params().Len() != 1 || fn.Signature.Results().Len() != 1 || !str(fn.Signature.Params().At(0).Type()) || !str(fn.Signature.Results().At(0).Type()) {
		return false
	}
	found := false
	c.p.eachInstr(fn, func(in ssa.Instruction) {
		if v, ok := in.(ssa.Value); ok {
			t := v.Type()
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				t = pt.Elem()
			}
			found = found || t.String() == "encoding/xml.Attr" || t.String() == "[]encoding/xml.Attr"
		}
	})
	return found
}

// only is the constant all the values are.
func only(l []*aval) (int64, bool) {
	var out int64
	for i, a := range l {
		k, ok := a.constant().i()
		if !ok || i > 0 && k != out {
			return 0, false
		}
		out = k
	}
	return out, len(l) > 0
}

// structs of the rules, found from the types of their fields
func (c *fcRules) structWith(fieldTypes ...types.Type) (*types.Named, []string) {
	sc := c.p.pkg("fontconfig").Types.Scope()
	for _, name := range sc.Names() {
		tn, ok := sc.Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		nm, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		st, ok := nm.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		var names []string
		for _, ft := range fieldTypes {
			for i := 0; i < st.NumFields(); i++ {
				if types.Identical(st.Field(i).Type(), ft) {
					names = append(names, name+"."+st.Field(i).Name())
					break
				}
			}
		}
		if len(names) == len(fieldTypes) {
			return nm, names
		}
	}
	return nil, nil
}

func (c *fcRules) lookupConst(name string) (int64, types.Type, bool) {
	k, ok := c.p.pkg("fontconfig").Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, nil, false
	}
	n, ok := constant.Int64Val(k.Val())
	return n, k.Type(), ok
}

// attributes follows the values of the attributes of the configuration files.
func (c *fcRules) attributes() {
	if c.end == nil || c.elemT == nil || c.expr == nil {
		return
	}
	query, kindT, _ := c.lookupConst("MatchQuery")
	result, _, _ := c.lookupConst("MatchResult")
	scan, _, _ := c.lookupConst("MatchScan")
	if kindT == nil {
		return
	}
	c.r.rule("attributes: the end of the elements of the rules is evaluated for each value of their attributes; the constants stored in the rule are collected")
	exprT := types.NewPointer(c.expr)
	at := c.p.pos(c.end.Pos())
	// one gives the meaning of a value of an attribute
	one := func(el, attr, val, field string) (int64, bool) {
		c.r.count("attribute values", 1)
		a := map[string]string{"name": "family"}
		if val != "" {
			a[attr] = val
		}
		res := c.element(el, a)
		k, ok := only(res.fields[field])
		if !ok && len(res.fields[field]) == 0 {
			c.r.find("attribute", fmt.Sprintf("<%s %s=%q>", el, attr, val), at, "%s: <%s %s=%q> does not give a rule", fname(c.end), el, attr, val)
		}
		return k, ok
	}
	expect := func(el, attr, val, field string, want int64) {
		if k, ok := one(el, attr, val, field); ok && k != want {
			c.r.find("attribute", fmt.Sprintf("<%s %s=%q>", el, attr, val), at, "%s: <%s %s=%q> stands for the constant %d, %d is expected", fname(c.end), el, attr, val, k, want)
		}
	}
	// distinct checks that the groups of values (separated by |) have different meanings, and returns them
	distinct := func(el, attr, field string, groups ...string) map[string]int64 {
		out := map[string]int64{}
		seen := map[int64]string{}
		for _, g := range groups {
			vals := strings.Split(g, "|")
			for _, v := range vals {
				k, ok := one(el, attr, v, field)
				if !ok {
					continue
				}
				out[v] = k
				if first, ok := out[vals[0]]; ok && first != k {
					c.r.find("attribute", fmt.Sprintf("<%s %s=%q>", el, attr, v), at, "%s: <%s %s=%q> and <%s %s=%q> stand for different constants", fname(c.end), el, attr, v, el, attr, vals[0])
				}
				if seen[k] != "" && seen[k] != g {
					c.r.find("attribute", fmt.Sprintf("<%s %s=%q>", el, attr, v), at, "%s: <%s %s=%q> stands for the same constant as %q", fname(c.end), el, attr, v, seen[k])
				}
				seen[k] = g
			}
		}
		return out
	}
	// an unknown value is an error
	refused := func(el, attr, field string) {
		c.r.count("attribute values", 1)
		if res := c.element(el, map[string]string{"name": "family", attr: "not a value"}); len(res.fields[field]) != 0 {
			c.r.find("attribute", fmt.Sprintf("<%s %s>", el, attr), at, "%s: <%s %s=\"not a value\"> gives a rule, instead of an error", fname(c.end), el, attr)
		}
	}

	if _, f := c.structWith(exprT, kindT, c.op, types.Typ[types.Uint8]); f != nil { // a test
		kind, op, qual := f[1], f[2], f[3]
		for _, n := range compareNames {
			expect("test", "compare", n, op, c.compare[n])
		}
		expect("test", "compare", "", op, c.compare["eq"])
		refused("test", "compare", op)
		c.qual = distinct("test", "qual", qual, "any|", "all", "first", "not_first")
		refused("test", "qual", qual)
		m := distinct("test", "target", kind, "default|", "pattern", "font", "scan")
		for v, want := range map[string]int64{"pattern": query, "font": result, "scan": scan} {
			if k, ok := m[v]; ok && k != want {
				c.r.find("attribute", fmt.Sprintf("<test target=%q>", v), at, "%s: <test target=%q> stands for another kind of match", fname(c.end), v)
			}
		}
		refused("test", "target", kind)
		// blanks
		if c.flagFn != nil {
			res, _ := (&sccp{t: c.t}).run(c.flagFn, []*aval{c.opLit(c.compare["eq"]), intLit(c.flagFn.Params[1].Type(), 1)})
			if k, ok := res[0].constant().i(); ok {
				expect("test", "ignore-blanks", "true", op, k)
			}
		}
		expect("test", "ignore-blanks", "false", op, c.compare["eq"])
	}
	bindingT, binding := c.bindingType()
	if bindingT != nil {
		if _, f := c.structWith(exprT, c.op, bindingT, c.object); f != nil { // an edit
			op, bnd := f[1], f[2]
			for _, n := range []string{"assign", "assign_replace", "prepend", "prepend_first", "append", "append_last"} {
				expect("edit", "mode", n, op, c.mode[n])
			}
			expect("edit", "mode", "", op, c.mode["assign"])
			refused("edit", "mode", op)
			m := distinct("edit", "binding", bnd, "weak|", "strong", "same")
			if k, ok := m["strong"]; ok && k != binding {
				c.r.find("attribute", `<edit binding="strong">`, at, "%s: <edit binding=\"strong\"> does not stand for the binding of the values added to a pattern", fname(c.end))
			}
			refused("edit", "binding", bnd)
		}
	}
	// the kind of a match
	for v, want := range map[string]int64{"": query, "pattern": query, "font": result, "scan": scan} {
		c.r.count("attribute values", 1)
		res := c.element("match", map[string]string{"target": v})
		k, ok := only(res.args[kindT.(*types.Named).Obj().Name()])
		if ok && k != want {
			c.r.find("attribute", fmt.Sprintf("<match target=%q>", v), at, "%s: the rules of <match target=%q> are added to another kind of match", fname(c.end), v)
		}
	}
	// the target of a name
	if _, f := c.structWith(c.object, kindT); f != nil {
		if m := distinct("name", "target", f[1], "default|", "pattern", "font"); len(m) > 0 {
			for v, want := range map[string]int64{"pattern": query, "font": result} {
				if k, ok := m[v]; ok && k != want {
					c.r.find("attribute", fmt.Sprintf("<name target=%q>", v), at, "%s: <name target=%q> stands for another kind of match", fname(c.end), v)
				}
			}
		}
	}
	c.alias()
	c.leaves()
	c.tree()
	c.asserted()
}

// bindingType is the type of bindings and the binding of the values added by Pattern.Add.
func (c *fcRules) bindingType() (types.Type, int64) {
	add := c.p.lookupFunc("fontconfig", "Pattern.Add")
	if add == nil {
		return nil, 0
	}
	var t types.Type
	var k int64
	c.p.eachInstr(add, func(in ssa.Instruction) {
		if call, ok := in.(*ssa.Call); ok {
			for _, a := range call.Call.Args {
				if n, ok := a.(*ssa.Const); ok && n.Value != nil && isIntType(n.Type()) {
					if nm, ok := n.Type().(*types.Named); ok && nm.Obj().Pkg() == c.object.Obj().Pkg() {
						t, k = n.Type(), n.Int64()
					}
				}
			}
		}
	})
	return t, k
}

// stack describes the entries of the stack of the parser: a value and its kind.
func (c *fcRules) stack() (value, tag string, tagT types.Type) {
	nodes := map[types.Type]bool{}
	exprSt := c.expr.Underlying().(*types.Struct)
	for i := 0; i < exprSt.NumFields(); i++ {
		if types.IsInterface(exprSt.Field(i).Type()) {
			nodes[exprSt.Field(i).Type()] = true
		}
	}
	sc := c.p.pkg("fontconfig").Types.Scope()
	for _, name := range sc.Names() {
		tn, ok := sc.Lookup(name).(*types.TypeName)
		if !ok || types.Identical(tn.Type(), c.expr) {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok || st.NumFields() != 2 {
			continue
		}
		for i := 0; i < 2; i++ {
			if nodes[st.Field(i).Type()] && isIntType(st.Field(1-i).Type()) {
				return name + "." + st.Field(i).Name(), name + "." + st.Field(1-i).Name(), st.Field(1 - i).Type()
			}
		}
	}
	return "", "", nil
}

// tagOf is the kind of the entry pushed by the end of an element.
func (c *fcRules) tagOf(el, tag string) (int64, bool) {
	return pushed(c.element(el, map[string]string{"name": "family"}).fields[tag])
}

// pushed is the only kind of entry, those which are cleared aside.
func pushed(l []*aval) (int64, bool) {
	var kinds []*aval
	for _, a := range l {
		if k, ok := a.constant().i(); !ok || k != 0 {
			kinds = append(kinds, a)
		}
	}
	return only(kinds)
}

// alias follows the parts of <alias> to the modes they stand for.
func (c *fcRules) alias() {
	_, tag, tagT := c.stack()
	if tagT == nil {
		return
	}
	want := map[string]string{"prefer": "prepend", "accept": "append", "default": "append_last"}
	tags := map[int64]string{}
	for el := range want {
		if k, ok := c.tagOf(el, tag); ok {
			if tags[k] != "" {
				c.r.find("alias", "alias "+el, c.p.pos(c.end.Pos()), "%s: <prefer>, <accept> and <default> are not distinguished", fname(c.end))
			}
			tags[k] = el
		}
	}
	c.r.rule("alias: the expression of each part of <alias> is followed from the kind of stack entry to the edit it makes")
	res := c.element("alias", nil)
	seen := map[string]bool{}
	for f := range res.calls {
		c.p.eachInstr(f, func(in ssa.Instruction) {
			call, ok := in.(*ssa.Call)
			if !ok || call.Call.StaticCallee() == nil || !inModule(call.Call.StaticCallee()) {
				return
			}
			var op int64
			var expr ssa.Value
			hasOp := false
			for _, a := range call.Call.Args {
				if k, ok := a.(*ssa.Const); ok && types.Identical(k.Type(), c.op) {
					op, hasOp = k.Int64(), true
				}
				if types.Identical(a.Type(), types.NewPointer(c.expr)) {
					expr = a
				}
			}
			if !hasOp || expr == nil {
				return
			}
			// the kinds of entries the expression may come from
			from := map[string]bool{}
			visited := map[ssa.Value]bool{}
			var walk func(v ssa.Value)
			walk = func(v ssa.Value) {
				if visited[v] {
					return
				}
				visited[v] = true
				switch v := v.(type) {
				case *ssa.Phi:
					for _, e := range v.Edges {
						walk(e)
					}
				case *ssa.TypeAssert:
					for _, ft := range blockFacts(v.Block()) {
						if ft.eq && types.Identical(ft.x.Type(), tagT) {
							if k, ok := ft.y.(*ssa.Const); ok && k.Value != nil {
								from[tags[k.Int64()]] = true
							}
						}
					}
				}
			}
			walk(expr)
			if len(from) != 1 {
				return
			}
			for el := range from {
				mode := want[el]
				if mode == "" {
					continue
				}
				seen[el] = true
				c.r.count("parts of aliases", 1)
				if op != c.mode[mode] {
					c.r.find("alias", "alias "+el, c.p.pos(call.Pos()), "%s: the families in the <%s> of an alias are not given to an edit of mode %s", fname(f), el, mode)
				}
			}
		})
	}
	if len(tags) == 3 && len(seen) > 0 && len(seen) < 3 {
		for el := range want {
			if !seen[el] {
				c.r.find("alias", "alias "+el, c.p.pos(c.end.Pos()), "%s: the <%s> of an alias gives no edit", fname(c.end), el)
			}
		}
	}
}

// leaves: the entries of the stack are read as the types they are written.
func (c *fcRules) leaves() {
	value, tag, tagT := c.stack()
	ev := c.evaluator()
	if tagT == nil || ev == nil {
		return
	}
	// the function making expressions from the entries
	var pop *ssa.Function
	exprT := types.NewPointer(c.expr)
	for _, fn := range c.p.Funcs {
		res := fn.Signature.Results()
		if fn.Pkg != c.p.ssaPkg("fontconfig") || fn.Parent() != nil || res.Len() != 1 || !types.Identical(res.At(0).Type(), exprT) {
			continue
		}
		n := 0
		c.p.eachInstr(fn, func(in ssa.Instruction) {
			if b, ok := in.(*ssa.BinOp); ok && b.Op == token.EQL && types.Identical(b.X.Type(), tagT) {
				n++
			}
		})
		if n > 5 {
			pop = fn
		}
	}
	if pop == nil {
		return
	}
	c.r.rule("leaves: the type of the value of each kind of entry is the one read by the functions consuming it")
	exprName := c.expr.Obj().Name()
	kinds := map[int64]types.Type{}
	label := map[int64]string{}
	for _, el := range sortedKeys2(c.elem) {
		res := c.element(el, map[string]string{"name": "family"})
		k, ok := pushed(res.fields[tag])
		if !ok || len(res.fields[value]) == 0 {
			continue
		}
		var t types.Type
		same := true
		for _, a := range res.fields[value] {
			u := a.concrete()
			if u == nil || t != nil && !types.Identical(t, u) {
				same = false
			}
			t = u
		}
		if !same {
			continue
		}
		kinds[k], label[k] = t, el
	}
	var ks []int64
	for k := range kinds {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	for _, k := range ks {
		t := kinds[k]
		c.r.count("kinds of entries", 1)
		isTag := loadsOf(tagT, k)
		var ops []*aval
		s := &sccp{t: c.t, final: true}
		s.override = func(in ssa.Instruction, get func(ssa.Value) *aval) *aval {
			if a := isTag(in, get); a != nil {
				return a
			}
			// the value of the entry
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
					if st, ok := pt.Underlying().(*types.Struct); ok && bareName(pt)+"."+st.Field(fa.Field).Name() == value {
						return &aval{sym: "u$", dyn: t}
					}
				}
			}
			return nil
		}
		s.failed = func(in *ssa.TypeAssert, got types.Type) {
			if !in.CommaOk {
				c.r.find("leaf", "entry "+label[k], c.p.pos(in.Pos()), "%s panics on the value of <%s>, which is of type %s", fname(in.Parent()), label[k], typeName(got))
			}
		}
		s.visit = func(in ssa.Instruction, get func(ssa.Value) *aval) {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && types.Identical(st.Val.Type(), c.op) && bareName(fa.X.Type()) == exprName {
					ops = append(ops, get(st.Val))
				}
			}
		}
		s.run(pop, nil)
		op, ok := only(ops)
		if !ok {
			continue
		}
		// the value of a leaf is its content
		load := loadsOf(c.op, op)
		se := &sccp{t: c.t, final: true, depth: 5}
		se.override = func(in ssa.Instruction, get func(ssa.Value) *aval) *aval {
			if in.Parent() != ev {
				return nil
			}
			if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() == ev {
				return bottom // another expression
			}
			if a := load(in, get); a != nil {
				return a
			}
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && types.IsInterface(u.Type()) {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && types.Identical(fa.X.Type(), exprT) {
					return &aval{sym: "u$", dyn: t}
				}
			}
			return nil
		}
		se.failed = func(in *ssa.TypeAssert, got types.Type) {
			if !in.CommaOk && in.Parent() == ev {
				c.r.find("leaf", "leaf "+label[k], c.p.pos(in.Pos()), "%s panics on the value of <%s>, which is of type %s", fname(ev), label[k], typeName(got))
			}
		}
		_, all := se.run(ev, []*aval{{sym: "e$", dyn: exprT}})
		for _, ret := range all {
			a := ret[0]
			if _, isNode := t.(*types.Pointer); isNode || label[k] == "name" || label[k] == "const" || label[k] == "matrix" {
				continue
			}
			if a.constant() != nil || a.symbol() != "" && !strings.Contains(a.symbol(), "u$") {
				c.r.find("leaf", "value "+label[k], c.p.pos(ev.Pos()), "%s: the value of <%s> is %s, not its content", fname(ev), label[k], describeAval(a))
			}
		}
	}
}

func describeAval(a *aval) string {
	if k := a.constant(); k != nil {
		if k.Nil {
			return "nil"
		}
		if k.C != nil {
			return k.C.String()
		}
	}
	return strings.ReplaceAll(a.symbol(), "$", "")
}

// asserted: the type of the value of an expression is not supposed.
func (c *fcRules) asserted() {
	ev := c.evaluator()
	if ev == nil {
		return
	}
	c.r.rule("values: the type of the value of an expression is tested, not supposed")
	for _, call := range c.p.callSites(ev) {
		v, ok := call.(ssa.Value)
		if !ok {
			continue
		}
		c.r.count("values read", 1)
		seen := map[ssa.Value]bool{}
		var follow func(v ssa.Value)
		follow = func(v ssa.Value) {
			if seen[v] {
				return
			}
			seen[v] = true
			for _, ref := range realRefs(v) {
				switch ref := ref.(type) {
				case *ssa.Phi:
					follow(ref)
				case *ssa.TypeAssert:
					if !ref.CommaOk && !c.testedBefore(ref) {
						c.r.find("leaf", "value in "+fname(ref.Parent()), c.p.pos(ref.Pos()), "%s panics when the value of the expression is missing or not of type %s", fname(ref.Parent()), typeName(ref.AssertedType))
					}
				}
			}
		}
		follow(v)
	}
}

// testedBefore: the type asserted by in is known.
func (c *fcRules) testedBefore(in *ssa.TypeAssert) bool {
	for _, cond := range blockConds(in.Block()) {
		if ex, ok := cond.v.(*ssa.Extract); ok && cond.truth && ex.Index == 1 {
			if ta, ok := ex.Tuple.(*ssa.TypeAssert); ok && ta.X == in.X {
				return true
			}
		}
	}
	return false
}

// tree: the operands of an operator are in the order of the file.
func (c *fcRules) tree() {
	two := c.operands(2)
	if two == nil {
		return
	}
	exprT := types.NewPointer(c.expr)
	// mk builds an operator: (left, right *expression, op) *expression
	for _, fn := range c.p.Funcs {
		if fn.Pkg != c.p.ssaPkg("fontconfig") || fn.Parent() != nil || len(fn.Blocks) == 0 {
			continue
		}
		var l, rt *ssa.Parameter
		for _, prm := range fn.Params {
			if types.Identical(prm.Type(), exprT) {
				if l == nil {
					l = prm
				} else if rt == nil {
					rt = prm
				}
			}
		}
		if rt == nil || fn.Signature.Results().Len() != 1 || !types.Identical(fn.Signature.Results().At(0).Type(), exprT) {
			continue
		}
		// which parameter is the first operand
		first := -1
		c.p.eachInstr(fn, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
				if s, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok && s.NumFields() == 2 && s.Field(fa.Field).Name() == two[0] {
					for i, prm := range fn.Params {
						if st.Val == prm {
							first = i
						}
					}
				}
			}
		})
		if first < 0 {
			continue
		}
		c.r.rule("tree: the operand popped last from the stack is the first one")
		other := 0
		for i, prm := range fn.Params {
			if i != first && types.Identical(prm.Type(), exprT) {
				other = i
			}
		}
		for _, call := range c.p.callSites(fn) {
			cc := call.Common()
			acc, isAcc := cc.Args[first].(*ssa.Phi)
			c.r.count("operators built", 1)
			// the first operand should not be the expression built so far
			if isAcc && accumulates(acc, call) && !isPhiOf(cc.Args[other], call) {
				c.r.find("tree", "operands in "+fname(call.Parent()), c.p.pos(call.Pos()), "%s: the operands are taken from the last one to the first one, but the expression made of the last ones is given as the first operand", fname(call.Parent()))
			}
		}
	}
}

func accumulates(ph *ssa.Phi, call ssa.CallInstruction) bool {
	v, ok := call.(ssa.Value)
	if !ok {
		return false
	}
	seen := map[*ssa.Phi]bool{}
	var walk func(p *ssa.Phi) bool
	walk = func(p *ssa.Phi) bool {
		if seen[p] {
			return false
		}
		seen[p] = true
		for _, e := range p.Edges {
			if e == v {
				return true
			}
			if q, ok := e.(*ssa.Phi); ok && walk(q) {
				return true
			}
		}
		return false
	}
	return walk(ph)
}

func isPhiOf(v ssa.Value, call ssa.CallInstruction) bool {
	ph, ok := v.(*ssa.Phi)
	return ok && accumulates(ph, call)
}

// edits evaluates the edits for each mode, with and without a position found by the tests.
func (c *fcRules) edits() {
	value := c.p.pkg("fontconfig").Types.Scope().Lookup("Value").Type()
	var fn *ssa.Function
	best := 3
	for _, f := range c.p.Funcs {
		if f.Pkg != c.p.ssaPkg("fontconfig") || f.Parent() != nil || f == c.cmpFn {
			continue
		}
		if res := f.Signature.Results(); res.Len() > 0 && (types.Identical(res.At(0).Type(), value) || isBasicT(types.IsString)(res.At(0).Type())) {
			continue
		}
		pats := 0
		for _, prm := range f.Params {
			if bareName(prm.Type()) == "Pattern" {
				pats++
			}
		}
		if pats == 0 {
			continue
		}
		cases := map[int64]bool{}
		c.p.eachInstr(f, func(in ssa.Instruction) {
			if b, ok := in.(*ssa.BinOp); ok && b.Op == token.EQL && types.Identical(b.X.Type(), c.op) {
				if k, ok := b.Y.(*ssa.Const); ok {
					cases[k.Int64()] = true
				}
			}
		})
		n := 0
		for _, k := range c.mode {
			if cases[k] {
				n++
			}
		}
		if n > best {
			best, fn = n, f
		}
	}
	if fn == nil {
		return
	}
	c.r.rule("edits: the edit of a pattern is evaluated for each mode, with and without a matched value; insertions, deletions and updates of the position are collected")
	at := c.p.pos(fn.Pos())
	ints := types.NewSlice(types.Typ[types.Int])
	type event struct {
		what string
		in   ssa.Instruction
	}
	run := func(op int64, pos bool) (out []event) {
		load := loadsOf(c.op, op)
		s := &sccp{t: c.t, final: true, depth: 4}
		s.order = func(x, y string) (int, bool) {
			if x == "vp$" && y == "-1" {
				return 1, true
			}
			return 0, false
		}
		isPos := func(v ssa.Value) bool {
			ia, ok := v.(*ssa.IndexAddr)
			return ok && types.Identical(ia.X.Type(), ints)
		}
		s.override = func(in ssa.Instruction, get func(ssa.Value) *aval) *aval {
			if a := load(in, get); a != nil {
				return a
			}
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && isPos(u.X) {
				if pos {
					return &aval{sym: "vp$", dyn: types.Typ[types.Int]}
				}
				return intLit(types.Typ[types.Int], -1)
			}
			return nil
		}
		where := func(a *aval) string {
			if a.symbol() == "vp$" {
				return "the matched value"
			}
			if k, ok := a.constant().i(); ok && k == -1 {
				return "the end"
			}
			return "?"
		}
		s.visit = func(in ssa.Instruction, get func(ssa.Value) *aval) {
			switch in := in.(type) {
			case *ssa.Store:
				if isPos(in.Addr) {
					w := "moves the position"
					if k, ok := get(in.Val).constant().i(); ok && k == -1 {
						w = "forgets the position"
					}
					if get(in.Val).symbol() != "vp$" {
						out = append(out, event{w, in})
					}
				}
			case *ssa.Call:
				if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
					out = append(out, event{"removes all the values", in})
				}
				f := in.Call.StaticCallee()
				if f == nil || f.Signature.Recv() == nil || !isValueList(f.Signature.Recv().Type(), c) {
					return
				}
				var idx, app *aval
				list := false
				for i, a := range in.Call.Args[1:] {
					t := f.Signature.Params().At(i).Type()
					switch {
					case types.Identical(t, types.Typ[types.Int]):
						idx = get(a)
					case types.Identical(t, types.Typ[types.Bool]):
						app = get(a)
					case isValueList(t, c):
						list = true
					}
				}
				switch {
				case idx != nil && app != nil && list:
					side := "?"
					if v, ok := truth(app); ok {
						side = map[bool]string{true: "after", false: "before"}[v]
					}
					w := where(idx)
					if w == "the end" && side == "before" {
						w = "all the values"
					}
					if w == "the end" {
						side = "at"
					}
					out = append(out, event{"inserts " + side + " " + w, in})
				case idx != nil && app == nil && !list && f.Signature.Results().Len() == 0:
					out = append(out, event{"removes " + where(idx), in})
				}
			}
		}
		s.run(fn, nil)
		return out
	}
	base := map[ssa.Instruction]bool{}
	for _, pos := range []bool{true, false} {
		for _, e := range run(0, pos) {
			base[e.in] = true
		}
	}
	const all, last, front, mv, del = "removes all the values", "inserts at the end", "inserts before all the values", "moves the position", "removes the matched value"
	before, after, forget := "inserts before the matched value", "inserts after the matched value", "forgets the position"
	type want struct {
		acts  []string
		track string // what becomes of the position
	}
	with := map[string]want{
		"assign": {[]string{after, del}, ""}, "assign_replace": {[]string{all, last}, forget},
		"prepend": {[]string{before}, mv}, "prepend_first": {[]string{front}, mv},
		"append": {[]string{after}, ""}, "append_last": {[]string{last}, ""},
		"delete": {[]string{del}, forget}, "delete_all": {[]string{all}, forget},
	}
	without := map[string]want{
		"assign": {[]string{all, last}, ""}, "assign_replace": {[]string{all, last}, ""},
		"prepend": {[]string{front}, ""}, "prepend_first": {[]string{front}, ""},
		"append": {[]string{last}, ""}, "append_last": {[]string{last}, ""},
		"delete": {[]string{all}, ""}, "delete_all": {[]string{all}, ""},
	}
	for _, pos := range []bool{true, false} {
		exp, cond := with, "on a matched value"
		if !pos {
			exp, cond = without, "without matched value"
		}
		var modes []string
		for m := range exp {
			modes = append(modes, m)
		}
		sort.Strings(modes)
		for _, m := range modes {
			c.r.count("edits evaluated", 1)
			var acts []string
			track := map[string]bool{}
			unknown := false
			for _, e := range run(c.mode[m], pos) {
				if base[e.in] {
					continue
				}
				unknown = unknown || strings.Contains(e.what, "?")
				if strings.HasSuffix(e.what, "the position") {
					track[e.what] = true
				} else if !contains(acts, e.what) {
					acts = append(acts, e.what)
				}
			}
			w := exp[m]
			if unknown || len(acts) == 0 && false {
				continue
			}
			if strings.Join(acts, ", ") != strings.Join(w.acts, ", ") {
				got := strings.Join(acts, ", ")
				if got == "" {
					got = "does nothing"
				}
				c.r.find("edit", m+" "+cond, at, "%s: an edit of mode %s %s %s; it should be: %s", fname(fn), m, cond, got, strings.Join(w.acts, ", "))
			}
			switch {
			case w.track == mv && !track[mv]:
				c.r.find("position", m+" "+cond, at, "%s: an edit of mode %s %s shifts the values, but not the position: the next edits occur at another value", fname(fn), m, cond)
			case w.track == forget && !track[forget]:
				c.r.find("position", m+" "+cond, at, "%s: an edit of mode %s %s removes the matched value, but keeps the position: the next edits occur at another value, or out of the list", fname(fn), m, cond)
			}
		}
	}
	r := c.r
	r.need("edits evaluated", r.Counts["edits evaluated"], 16)
}

// bareName is the name of a type, or of the one it points to, without its package.
func bareName(t types.Type) string {
	n := typeName(t)
	return n[strings.LastIndex(n, ".")+1:]
}

func isValueList(t types.Type, c *fcRules) bool {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	st, ok := sl.Elem().Underlying().(*types.Struct)
	if !ok {
		return false
	}
	value := c.p.pkg("fontconfig").Types.Scope().Lookup("Value").Type()
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), value) {
			return true
		}
	}
	return false
}

// qualifiers evaluates the outcome of a test for each qualifier.
func (c *fcRules) qualifiers() {
	_, kindT, ok := c.lookupConst("MatchQuery")
	if !ok || len(c.qual) < 4 {
		return
	}
	query, _, _ := c.lookupConst("MatchQuery")
	result, _, _ := c.lookupConst("MatchResult")
	// the search of the first value passing the test, and its callers
	var find *ssa.Function
	for _, f := range c.p.Funcs {
		res := f.Signature.Results()
		if f.Pkg != c.p.ssaPkg("fontconfig") || f.Parent() != nil || res.Len() != 1 || !types.Identical(res.At(0).Type(), types.Typ[types.Int]) {
			continue
		}
		list, cmp := false, false
		for _, prm := range f.Params {
			list = list || isValueList(prm.Type(), c)
		}
		c.p.eachInstr(f, func(in ssa.Instruction) {
			if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() == c.cmpFn {
				cmp = true
			}
		})
		if list && cmp {
			find = f
		}
	}
	if find == nil {
		return
	}
	c.search(find)
	c.r.rule("qualifiers: the outcome of a test is evaluated for each qualifier, kind and index of the first value passing it")
	for _, call := range c.p.callSites(find) {
		fn := call.Parent()
		res := fn.Signature.Results()
		b := -1
		for i := 0; i < res.Len(); i++ {
			if isBasicT(types.IsBoolean)(res.At(i).Type()) {
				b = i
			}
		}
		if b < 0 {
			continue
		}
		at := c.p.pos(fn.Pos())
		var kindPrm *ssa.Parameter
		var pats []*ssa.Parameter
		for _, prm := range fn.Params {
			if types.Identical(prm.Type(), kindT) {
				kindPrm = prm
			}
			if bareName(prm.Type()) == "Pattern" {
				pats = append(pats, prm)
			}
		}
		run := func(qual, kind, sel int64, idx int64, missing bool, looked map[string]bool) (keep, known bool) {
			found := &aval{pt: &aval{sym: "values$"}}
			quals := loadsOf(types.Typ[types.Uint8], qual)
			kinds := loadsOf(kindT, kind)
			s := &sccp{t: c.t, final: true, depth: 4}
			s.override = func(in ssa.Instruction, get func(ssa.Value) *aval) *aval {
				if in.Parent() != fn {
					return nil
				}
				if a := quals(in, get); a != nil {
					return a
				}
				if a := kinds(in, get); a != nil {
					return a
				}
				if cl, ok := in.(*ssa.Call); ok && cl.Call.StaticCallee() == find {
					return intLit(types.Typ[types.Int], idx)
				}
				if lk, ok := in.(*ssa.Lookup); ok && isValueList(lk.Type(), c) {
					m := get(lk.X)
					if m == nil {
						return waiting
					}
					if looked != nil {
						looked[m.symbol()] = true
					}
					if missing {
						return &aval{l: &lit{T: lk.Type(), Nil: true}}
					}
					return found
				}
				return nil
			}
			var args []*aval
			for _, prm := range fn.Params {
				switch {
				case prm == kindPrm:
					args = append(args, intLit(kindT, sel))
				default:
					args = append(args, &aval{sym: prm.Name() + "$", dyn: dynOf(prm.Type())})
				}
			}
			merged, _ := s.run(fn, args)
			return truth(merged[b])
		}
		for _, q := range []string{"any", "all", "first", "not_first"} {
			for _, idx := range []int64{-1, 0, 1, 2} {
				want := idx >= 0
				switch q {
				case "first":
					want = idx == 0
				case "not_first":
					want = idx > 0
				}
				c.r.count("outcomes of tests", 1)
				if got, ok := run(c.qual[q], query, query, idx, false, nil); ok && got != want {
					c.r.find("qualifier", fmt.Sprintf("%s %d", q, idx), at, "%s: a test with qual=%q is %v when the first value passing it is at the index %d (-1: none)", fname(fn), q, got, idx)
				}
			}
			c.r.count("outcomes of tests", 1)
			if got, ok := run(c.qual[q], query, query, -1, true, nil); ok && got != (q == "all") {
				c.r.find("qualifier", q+" missing", at, "%s: a test with qual=%q is %v when the pattern has no value", fname(fn), q, got)
			}
		}
		if len(pats) == 2 {
			for _, k := range [][2]int64{{query, query}, {result, result}, {query, result}} {
				looked := map[string]bool{}
				run(c.qual["any"], k[0], k[1], 0, false, looked)
				want := pats[0].Name() + "$"
				if k[0] != k[1] {
					want = pats[1].Name() + "$"
				}
				c.r.count("outcomes of tests", 1)
				for got := range looked {
					if got != want && (got == pats[0].Name()+"$" || got == pats[1].Name()+"$") {
						c.r.find("qualifier", fmt.Sprintf("target %v", k), at, "%s: the test of kind %d in a match of kind %d reads the values of %s", fname(fn), k[0], k[1], strings.TrimSuffix(got, "$"))
					}
				}
			}
		}
	}
}

// search evaluates the search of the values passing a test.
func (c *fcRules) search(find *ssa.Function) {
	c.r.rule("search: the index of the value passing a test is evaluated for each qualifier and outcome of the comparison of up to 3 values")
	at := c.p.pos(find.Pos())
	intT := types.Typ[types.Int]
	obj, _, ok := c.lookupConst("SIZE")
	if !ok {
		return
	}
	for _, q := range []string{"any", "all", "first", "not_first"} {
		for n := 1; n <= 3; n++ {
			for bits := 0; bits < 1<<n; bits++ {
				quals := loadsOf(types.Typ[types.Uint8], c.qual[q])
				ops := loadsOf(c.op, c.compare["less"])
				objs := loadsOf(c.object, obj)
				s := &sccp{t: c.t, depth: 5}
				undecided, cur := false, -1
				found := &aval{pt: &aval{sym: "expr$"}}
				s.override = func(in ssa.Instruction, get func(ssa.Value) *aval) *aval {
					if in.Parent() != find {
						return nil
					}
					for _, load := range []func(ssa.Instruction, func(ssa.Value) *aval) *aval{quals, ops, objs} {
						if a := load(in, get); a != nil {
							return a
						}
					}
					switch in := in.(type) {
					case *ssa.IndexAddr:
						if isValueList(in.X.Type(), c) {
							cur = -1
							if k, ok := get(in.Index).constant().i(); ok {
								cur = int(k)
							}
						}
					case *ssa.UnOp:
						if in.Op == token.MUL && types.Identical(in.Type(), types.NewPointer(c.expr)) {
							return found // there is an expression
						}
					case *ssa.Call:
						if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && isValueList(in.Call.Args[0].Type(), c) {
							return intLit(intT, int64(n))
						}
						if in.Call.StaticCallee() == c.cmpFn {
							if cur < 0 || cur >= n {
								undecided = true
								return nil
							}
							return boolLit(bits>>cur&1 == 1)
						}
					}
					return nil
				}
				all, ok := s.unroll(find, nil)
				if !ok || undecided {
					continue
				}
				want := int64(-1)
				for i := n - 1; i >= 0; i-- {
					if bits>>i&1 == 1 {
						want = int64(i)
					}
				}
				if q == "all" && bits != 1<<n-1 {
					want = -1
				}
				c.r.count("searches", 1)
				seen := map[int64]bool{}
				for _, ret := range all {
					if k, ok := ret[0].constant().i(); ok && k != want && !seen[k] {
						seen[k] = true
						c.r.find("search", fmt.Sprintf("%s %d values %b", q, n, bits), at, "%s: with qual=%q and %d values whose comparisons (last one first) are %0*b, the index of the value passing the test is %d, %d is expected", fname(find), q, n, n, bits, k, want)
					}
				}
			}
		}
	}
}
