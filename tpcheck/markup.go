package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The attributes of pango and the markup language producing them.

func init() {
	register("C18", "The tags and attributes of the markup are followed to the attributes they build, and the constructors and readers of attributes to the kind and type of value they deal with.", runC18)
}

type pangoOracle struct {
	Kinds, Constructors map[string]string
	Span                map[string][][2]interface{}
	Tags                map[string]interface{}
	Colors              map[string][3]int64
	Css                 []string
	Consts              map[string]int64
	Names               map[string]map[string]int64
}

type emitted struct {
	kind  int64 // -1: not known
	level int64 // a change of the level of size
	data  *aval
	pos   token.Pos
	fn    *ssa.Function
}

type markupCheck struct {
	p        *Program
	r        *Report
	t        *tables
	o        pangoOracle
	attr     *types.Named
	kindT    *types.Named
	kind     map[string]int64
	kindName map[int64]string
	dataI    int
	kindI    int
	endI     int
	builds   map[*ssa.Function]bool // the functions from which attributes are built
}

// builders are the functions from which an attribute may be built.
func (c *markupCheck) builders() map[*ssa.Function]bool {
	direct, callers := map[*ssa.Function]bool{}, map[*ssa.Function][]*ssa.Function{}
	for _, fn := range c.p.Funcs {
		fn := fn
		c.p.eachInstr(fn, func(in ssa.Instruction) {
			if a, ok := in.(*ssa.Alloc); ok && types.Identical(a.Type().(*types.Pointer).Elem(), c.attr) {
				direct[fn] = true
			}
			if call, ok := in.(ssa.CallInstruction); ok {
				for _, f := range c.p.callees(call) {
					callers[f] = append(callers[f], fn)
				}
			}
		})
	}
	var work []*ssa.Function
	for fn := range direct {
		work = append(work, fn)
	}
	for len(work) > 0 {
		fn := work[len(work)-1]
		work = work[:len(work)-1]
		for _, f := range callers[fn] {
			if !direct[f] {
				direct[f] = true
				work = append(work, f)
			}
		}
	}
	return direct
}

// wholeUse: the instruction uses a structure among roots as a whole, or its address.
func wholeUse(in ssa.Instruction, roots map[*ssa.Alloc]bool) bool {
	switch in := in.(type) {
	case *ssa.UnOp:
		if in.Op != token.MUL || cellKey(in.X) != "" {
			return false
		}
		a, _ := localPath(in.X)
		return a != nil && roots[a]
	case *ssa.Call, *ssa.MakeClosure, *ssa.Store, *ssa.MakeInterface, *ssa.Phi:
		var rands [16]*ssa.Value
		for _, op := range in.Operands(rands[:0]) {
			a, ok := (*op).(*ssa.Alloc)
			if !ok || !roots[a] {
				continue
			}
			if st, ok := in.(*ssa.Store); ok && st.Addr == *op {
				continue
			}
			if cellKey(a) == "" {
				return true
			}
			if _, isCall := in.(*ssa.Call); !isCall {
				return true
			}
		}
	}
	return false
}

func runC18(p *Program, r *Report) {
	c := &markupCheck{p: p, r: r, t: p.tables(), kind: map[string]int64{}, kindName: map[int64]string{}}
	oracle("pango.json", &c.o)
	c.attr = p.named("pango", "Attribute")
	c.kindT = p.named("pango", "AttrKind")
	st := c.attr.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		switch {
		case types.Identical(st.Field(i).Type(), c.kindT):
			c.kindI = i
		case types.IsInterface(st.Field(i).Type()):
			c.dataI = i
		case st.Field(i).Name() == "EndIndex":
			c.endI = i
		}
	}
	r.rule("constants: the exported kinds of attributes are distinct, the exported styles, variants, weights, widths and gravities have the numbers of the reference")
	scope := p.pkg("pango").Types.Scope()
	constant64 := func(name string) (int64, bool) {
		o, ok := scope.Lookup(name).(*types.Const)
		if !ok {
			return 0, false
		}
		return constant.Int64Val(constant.ToInt(o.Val()))
	}
	for _, n := range sortedKeysOf(c.o.Kinds) {
		r.count("kinds of attributes", 1)
		k, ok := constant64("ATTR_" + n)
		if !ok {
			r.find("constants", n, "pango", "the attribute kind ATTR_%s does not exist", n)
			continue
		}
		if c.kindName[k] != "" {
			r.find("constants", n, "pango", "the attribute kinds ATTR_%s and ATTR_%s are the same number", n, c.kindName[k])
		}
		c.kind[n], c.kindName[k] = k, n
	}
	for n, want := range c.o.Consts {
		k, ok := constant64(n)
		r.count("enumerated constants", 1)
		if !ok || k != want {
			r.find("constants", n, "pango", "the constant %s should be %d", n, want)
		}
	}
	c.constructors()
	c.readers()
	c.colors()
	c.tags()
	c.span()
	c.stack()
	r.need("kinds of attributes", r.Counts["kinds of attributes"], 30)
}

func sortedKeysOf(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// collector gathers the attributes built by the instructions visited.
type collector struct {
	c    *markupCheck
	open map[*ssa.Alloc]*emitted
	out  []emitted
	ends []*aval
	lost bool // a call is not followed: attributes may be missing
}

// sccp evaluates a function, collecting the attributes built.
func (k *collector) sccp() *sccp {
	return &sccp{t: k.c.t, final: true, fold: true, visit: k.visit, lost: func() { k.lost = true }}
}

func (k *collector) visit(in ssa.Instruction, get func(ssa.Value) *aval) {
	st, ok := in.(*ssa.Store)
	if !ok {
		return
	}
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok {
		return
	}
	base := fa.X.Type().Underlying().(*types.Pointer).Elem()
	if !types.Identical(base, k.c.attr) {
		// a counter changed by one
		if op, ok := st.Val.(*ssa.BinOp); ok && (op.Op == token.ADD || op.Op == token.SUB) {
			if ld, ok := op.X.(*ssa.UnOp); ok && sameAddr(ld.X, fa) && inModule(in.Parent()) {
				if one, ok := get(op.Y).constant().i(); ok && (one == 1 || one == -1) {
					if op.Op == token.SUB {
						one = -one
					}
					k.out = append(k.out, emitted{level: one, pos: in.Pos(), fn: in.Parent()})
				}
			}
		}
		return
	}
	a, isAlloc := fa.X.(*ssa.Alloc)
	if fa.Field == k.c.endI {
		k.ends = append(k.ends, get(st.Val))
	}
	if !isAlloc {
		return
	}
	if k.open == nil {
		k.open = map[*ssa.Alloc]*emitted{}
	}
	e := k.open[a]
	if e == nil {
		e = &emitted{kind: -2, pos: in.Pos(), fn: in.Parent()}
		k.open[a] = e
	}
	switch fa.Field {
	case k.c.kindI:
		e.kind = -1
		if v, ok := get(st.Val).constant().i(); ok {
			e.kind = v
		}
	case k.c.dataI:
		e.data = get(st.Val)
	}
	if e.kind != -2 && e.data != nil {
		k.out = append(k.out, *e)
		delete(k.open, a)
	}
}

// constructors: each constructor builds an attribute of its kind, with the type of value of this kind,
// holding its argument.
func (c *markupCheck) constructors() {
	c.r.rule("constructors: each constructor builds one attribute, of its kind, of the type of value of this kind, whose value is the argument, and which covers the whole text")
	for _, name := range sortedKeysOf(c.o.Constructors) {
		kind := c.o.Constructors[name]
		fn := c.p.lookupFunc("pango", name)
		if fn == nil {
			continue
		}
		c.r.count("constructors", 1)
		at := c.p.pos(fn.Pos())
		boolArg := len(fn.Params) == 1 && isBasicT(types.IsBoolean)(fn.Params[0].Type())
		worlds := []*aval{nil}
		if boolArg {
			worlds = []*aval{boolLit(true), boolLit(false)}
		}
		for _, w := range worlds {
			k := &collector{c: c}
			var args []*aval
			for i, prm := range fn.Params {
				if w != nil {
					args = append(args, w)
					continue
				}
				args = append(args, &aval{sym: fmt.Sprintf("p%d", i), dyn: prm.Type()})
			}
			s := &sccp{t: c.t, final: true, visit: k.visit}
			s.run(fn, args)
			if len(k.out) == 0 {
				continue
			}
			c.r.count("constructions", 1)
			e := k.out[0]
			if e.kind >= 0 && e.kind != c.kind[kind] {
				c.r.find("constructor", name+" kind", at, "%s builds an attribute of kind ATTR_%s instead of ATTR_%s", name, c.kindName[e.kind], kind)
			}
			want := c.o.Kinds[kind]
			if t := e.data.concrete(); t != nil && bareName(t) != want {
				c.r.find("constructor", name+" type", at, "%s builds an attribute ATTR_%s with a value of type %s instead of %s", name, kind, bareName(t), want)
				continue
			}
			whole := false
			for _, v := range k.ends {
				n, ok := v.constant().i()
				whole = whole || !ok || n == math.MaxInt32 || n == math.MaxInt64
			}
			if !whole {
				c.r.find("constructor", name+" range", at, "%s builds an attribute which does not cover the whole text", name)
			}
			switch {
			case w != nil:
				b, _ := truth(w)
				if n, ok := e.data.constant().i(); ok && (n != 0) != b {
					c.r.find("constructor", name+" value", at, "%s(%v) builds an attribute of value %d", name, b, n)
				}
			case len(fn.Params) == 0:
				if n, ok := e.data.constant().i(); ok && n != 1 {
					c.r.find("constructor", name+" value", at, "%s builds an attribute of value %d instead of 1", name, n)
				}
			case len(fn.Params) == 1:
				if e.data.constant() != nil || e.data.sym != "" && e.data.sym != "p0" && !strings.HasPrefix(e.data.sym, "p0.") && !strings.Contains(e.data.sym, "(") {
					c.r.find("constructor", name+" value", at, "the value of the attribute %s builds is not its argument", name)
				} else if e.data.sym != "" && strings.Contains(e.data.sym, "p0") && e.data.sym != "p0" {
					c.r.find("constructor", name+" value", at, "the value of the attribute %s builds is %s instead of its argument", name, strings.ReplaceAll(e.data.sym, "p0", "arg"))
				}
			default:
				for i, f := range e.data.flds {
					if f != nil && f.sym != "" && strings.HasPrefix(f.sym, "p") && f.sym != fmt.Sprintf("p%d", i) {
						c.r.find("constructor", name+" value", at, "the part %d of the value of the attribute %s builds is its argument %s", i, name, f.sym[1:])
					}
				}
			}
		}
	}
}

// readers: the value of an attribute is read as the type of value of its kind.
func (c *markupCheck) readers() {
	c.r.rule("readers: each function asserting the type of the value of an attribute is evaluated for every kind of attribute: no assertion reached fails")
	payload := map[int64]types.Type{}
	scope := c.p.pkg("pango").Types.Scope()
	for n, k := range c.kind {
		if o := scope.Lookup(c.o.Kinds[n]); o != nil {
			payload[k] = o.Type()
		}
	}
	isField := func(v ssa.Value, i int) (ssa.Value, bool) {
		switch v := v.(type) {
		case *ssa.UnOp:
			if fa, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL && fa.Field == i && types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), c.attr) {
				return fa.X, true
			}
		case *ssa.Field:
			if v.Field == i && types.Identical(v.X.Type(), c.attr) {
				return v.X, true
			}
		}
		return nil, false
	}
	for _, fn := range c.p.Funcs {
		if fn.Pkg == nil || !inModule(fn) {
			continue
		}
		var asserts []*ssa.TypeAssert
		tested := map[ssa.Value]bool{} // the attributes whose kind is read
		c.p.eachInstr(fn, func(in ssa.Instruction) {
			if v, ok := in.(ssa.Value); ok {
				if base, ok := isField(v, c.kindI); ok {
					tested[base] = true
				}
			}
			if ta, ok := in.(*ssa.TypeAssert); ok && !ta.CommaOk && !types.IsInterface(ta.AssertedType) {
				if _, ok := isField(ta.X, c.dataI); ok {
					asserts = append(asserts, ta)
				}
			}
		})
		for _, ta := range asserts {
			base, _ := isField(ta.X, c.dataI)
			call, ok := base.(*ssa.Call)
			if !ok {
				continue
			}
			for _, a := range call.Call.Args {
				if k, ok := a.(*ssa.Const); ok && types.Identical(k.Type(), c.kindT) {
					c.r.count("readers", 1)
					n, _ := constant.Int64Val(k.Value)
					if payload[n] != nil && !types.Identical(payload[n], ta.AssertedType) {
						c.r.find("reader", fname(fn)+" "+c.kindName[n], c.p.pos(ta.Pos()), "%s reads the value of an attribute ATTR_%s as %s: it is a %s, this panics", fname(fn), c.kindName[n], bareName(ta.AssertedType), bareName(payload[n]))
					}
				}
			}
		}
		if len(asserts) == 0 || len(tested) == 0 {
			continue
		}
		reached := map[*ssa.TypeAssert]bool{}
		for k, pt := range payload {
			k, pt := k, pt
			s := &sccp{t: c.t, final: true, depth: 5}
			s.override = func(in ssa.Instruction, get func(ssa.Value) *aval) *aval {
				if in.Parent() != fn {
					return nil
				}
				v, ok := in.(ssa.Value)
				if !ok {
					return nil
				}
				if _, ok := isField(v, c.kindI); ok {
					return intLit(c.kindT, k)
				}
				if _, ok := isField(v, c.dataI); ok {
					return &aval{dyn: pt, sym: "data$"}
				}
				return nil
			}
			s.visit = func(in ssa.Instruction, get func(ssa.Value) *aval) {
				if ta, ok := in.(*ssa.TypeAssert); ok && in.Parent() == fn {
					if base, ok := isField(ta.X, c.dataI); ok && tested[base] && !reached[ta] {
						reached[ta] = true
						c.r.count("readers", 1)
					}
				}
			}
			s.failed = func(ta *ssa.TypeAssert, got types.Type) {
				if ta.Parent() != fn {
					return
				}
				if base, ok := isField(ta.X, c.dataI); ok && tested[base] {
					c.r.find("reader", fname(fn)+" "+c.kindName[k], c.p.pos(ta.Pos()), "%s reads the value of an attribute ATTR_%s as %s: it is a %s, this panics", fname(fn), c.kindName[k], bareName(ta.AssertedType), bareName(got))
				}
			}
			s.run(fn, nil)
		}
	}
	c.r.need("readers", c.r.Counts["readers"], 5)
}

// colors: the named colors.
func (c *markupCheck) colors() {
	c.r.rule("colors: the value of each named color is the one of CSS, or of X11; all the names of CSS are there")
	color := c.p.named("pango", "AttrColor")
	for _, v := range c.t.vars("pango") {
		m, ok := v.Type().Underlying().(*types.Map)
		if !ok || !types.Identical(m.Elem(), color) {
			continue
		}
		l := c.t.global(v)
		if l == nil {
			continue
		}
		have := map[string]bool{}
		for i, k := range l.Keys {
			n, ok := k.s()
			if !ok {
				continue
			}
			have[n] = true
			want, known := c.o.Colors[n]
			if !known {
				continue
			}
			c.r.count("colors", 1)
			for j, f := range l.Vals[i].Fields {
				if got, ok := f.i(); ok && j < 3 && got != want[j]*0x101 {
					c.r.find("color", n, c.p.pos(v.Pos()), "the %s of the color %q is %#x instead of %#x", []string{"red", "green", "blue"}[j], n, got, want[j]*0x101)
				}
			}
			if n != strings.ToLower(n) {
				c.r.find("color", n, c.p.pos(v.Pos()), "the color %q is searched in lower case, and never found", n)
			}
		}
		for _, n := range c.o.Css {
			if !have[n] {
				c.r.find("color", n, c.p.pos(v.Pos()), "the color %q of CSS is not known", n)
			}
		}
	}
}

// byConstants finds the function comparing the most strings among names.
func (c *markupCheck) byConstants(has func(string) bool, min int, accept func(fn *ssa.Function) bool) *ssa.Function {
	var best *ssa.Function
	n := 0
	for _, fn := range c.p.Funcs {
		if fn.Pkg != c.p.ssaPkg("pango") || !accept(fn) {
			continue
		}
		seen := map[string]bool{}
		c.p.eachInstr(fn, func(in ssa.Instruction) {
			if b, ok := in.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
				for _, x := range []ssa.Value{b.X, b.Y} {
					if k, ok := x.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && has(constant.StringVal(k.Value)) {
						seen[constant.StringVal(k.Value)] = true
					}
				}
			}
		})
		if len(seen) > n {
			best, n = fn, len(seen)
		}
	}
	if n < min {
		return nil
	}
	return best
}

func (c *markupCheck) tags() {
	c.r.rule("tags: the function dispatching on the tags is evaluated for each of them; the attributes built are collected")
	fn := c.byConstants(func(s string) bool { _, ok := c.o.Tags[s]; return ok }, 6, func(fn *ssa.Function) bool { return errIndex(fn.Signature) >= 0 })
	if fn == nil {
		return
	}
	for _, tag := range sortedTags(c.o.Tags) {
		k := &collector{c: c}
		s := k.sccp()
		var args []*aval
		for _, prm := range fn.Params {
			if isBasicT(types.IsString)(prm.Type()) {
				args = append(args, &aval{l: &lit{T: prm.Type(), C: constant.MakeString(tag)}})
			} else {
				args = append(args, bottom)
			}
		}
		_, all := s.run(fn, args)
		c.r.count("tags", 1)
		ok, failed := false, false
		for _, one := range all {
			e := one[errIndex(fn.Signature)]
			isErr := e.constant() == nil && e.concrete() != nil
			failed, ok = failed || isErr, ok || !isErr
		}
		want := c.o.Tags[tag]
		if want == "error" {
			if ok && !failed {
				c.r.find("tag", tag, c.p.pos(fn.Pos()), "the unknown tag <%s> is accepted", tag)
			}
			continue
		}
		if !ok {
			c.r.find("tag", tag, c.p.pos(fn.Pos()), "the tag <%s> is an error", tag)
			continue
		}
		c.compare(fmt.Sprintf("the tag <%s>", tag), tag, c.p.pos(fn.Pos()), k, want.([]interface{}), true)
	}
}

func sortedTags(m map[string]interface{}) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// compare checks the attributes built against those expected.
func (c *markupCheck) compare(what, key, at string, k *collector, want []interface{}, decided bool) {
	got := k.out
	for _, e := range got {
		if e.kind == -1 {
			return
		}
	}
	expected := map[string]bool{}
	for _, w := range want {
		pair := w.([]interface{})
		name := pair[0].(string)
		expected[name] = true
		found := false
		for _, e := range got {
			if name == "level" {
				if e.level == 0 {
					continue
				}
				found = true
				if float64(e.level) != pair[1].(float64) {
					c.r.find("value", key+" "+name, c.p.pos(e.pos), "%s changes the level of size by %d in %s, instead of %v", what, e.level, fname(e.fn), pair[1])
				}
				continue
			}
			if e.level != 0 || e.kind != c.kind[name] {
				continue
			}
			found = true
			if bad, shown := differs(e.data, pair[1]); bad {
				c.r.find("value", key+" "+name, at, "%s builds an attribute ATTR_%s of value %s instead of %v", what, name, shown, pair[1])
			}
		}
		if !found && !k.lost {
			c.r.find("kind", key+" "+name, at, "%s does not build an attribute ATTR_%s", what, name)
		}
	}
	if !decided {
		return
	}
	for _, e := range got {
		name := c.kindName[e.kind]
		if e.level != 0 {
			name = "level"
		}
		if !expected[name] {
			c.r.find("kind", key+" "+name+" too", at, "%s also builds an attribute %s", what, strings.TrimPrefix("ATTR_"+name, "ATTR_level"))
		}
	}
}

// differs: a is known not to be the value expected.
func differs(a *aval, want interface{}) (bool, string) {
	k := a.constant()
	if k == nil {
		return false, ""
	}
	switch w := want.(type) {
	case float64:
		if f, ok := k.f(); ok {
			return math.Abs(f-w) > 1e-5*math.Max(1, math.Abs(w)), fmt.Sprint(f)
		}
	case string:
		if s, ok := k.s(); ok {
			return s != w, fmt.Sprintf("%q", s)
		}
	case []interface{}:
		for i, x := range w {
			if i < len(k.Fields) {
				if n, ok := k.Fields[i].i(); ok && float64(n) != x.(float64) {
					return true, k.String()
				}
			}
		}
	}
	return false, ""
}

// cellKey is the local variable, or field of a local variable, an address is.
func cellKey(v ssa.Value) string {
	if !types.Identical(v.Type(), types.NewPointer(types.Typ[types.String])) {
		return ""
	}
	a, fields := localPath(v)
	if a == nil {
		return ""
	}
	return fmt.Sprintf("%p%v", a, fields)
}

func (c *markupCheck) span() {
	c.r.rule("span: the names of the attributes of <span> are followed to the variables holding their value, and these, for sample values of each documented form, to the attributes built")
	fn := c.byConstants(func(s string) bool { _, ok := c.o.Span[s]; return ok }, 20, func(fn *ssa.Function) bool { return errIndex(fn.Signature) >= 0 })
	if fn == nil {
		return
	}
	fieldLoad := func(in ssa.Instruction, pkgType, field string) bool {
		named := func(t types.Type) bool { return typeName(t) == pkgType || t.String() == pkgType }
		switch in := in.(type) {
		case *ssa.UnOp:
			if fa, ok := in.X.(*ssa.FieldAddr); ok && in.Op == token.MUL {
				t := fa.X.Type().Underlying().(*types.Pointer).Elem()
				return named(t) && t.Underlying().(*types.Struct).Field(fa.Field).Name() == field
			}
		case *ssa.Field:
			return named(in.X.Type()) && in.X.Type().Underlying().(*types.Struct).Field(in.Field).Name() == field
		}
		return false
	}
	type use struct {
		call *ssa.Call
		arg  int
		args []*aval
	}
	roots := map[*ssa.Alloc]bool{}
	c.builds = c.builders()
	cellsOf := func(name string) (cells map[string]bool, uses []use) {
		cells = map[string]bool{}
		s := &sccp{t: c.t, final: true, fold: true, depth: 4}
		s.override = func(in ssa.Instruction, get func(ssa.Value) *aval) *aval {
			if in.Parent() != fn {
				return nil
			}
			if fieldLoad(in, "encoding/xml.Name", "Local") {
				return &aval{l: &lit{T: types.Typ[types.String], C: constant.MakeString(name)}}
			}
			if fieldLoad(in, "encoding/xml.Attr", "Value") {
				return &aval{sym: "value$", dyn: types.Typ[types.String]}
			}
			return nil
		}
		s.visit = func(in ssa.Instruction, get func(ssa.Value) *aval) {
			if in.Parent() != fn {
				return
			}
			switch in := in.(type) {
			case *ssa.Call:
				for i, a := range in.Call.Args {
					if k := cellKey(a); k != "" {
						cells[k] = true
						root, _ := localPath(a)
						roots[root] = true
						var args []*aval
						for _, b := range in.Call.Args {
							args = append(args, get(b))
						}
						uses = append(uses, use{in, i, args})
					}
				}
			case *ssa.Store:
				if k := cellKey(in.Addr); k != "" && get(in.Val) != nil && get(in.Val).sym == "value$" {
					cells[k] = true
					root, _ := localPath(in.Addr)
					roots[root] = true
				}
			}
		}
		s.run(fn, nil)
		return cells, uses
	}
	byName := map[string]map[string]bool{}
	all := map[string]bool{}
	var names []string
	checked := map[*ssa.Function]bool{}
	for n := range c.o.Span {
		names = append(names, n)
	}
	sort.Strings(names)
	known := 0
	for _, n := range names {
		cells, uses := cellsOf(n)
		byName[n] = cells
		for k := range cells {
			all[k] = true
		}
		if len(cells) > 0 {
			known++
		}
		for _, u := range uses {
			f := u.call.Call.StaticCallee()
			if f == nil || !inModule(f) || errIndex(f.Signature) < 0 {
				continue
			}
			if !checked[f] {
				checked[f] = true
				c.r.count("guards against repetition", 1)
				args := append([]*aval(nil), u.args...)
				args[u.arg] = &aval{pt: &aval{l: &lit{T: types.Typ[types.String], C: constant.MakeString("former")}}}
				_, outs := (&sccp{t: c.t, final: true}).run(f, args)
				for _, one := range outs {
					if e := one[errIndex(f.Signature)].constant(); e != nil && e.Nil {
						c.r.find("repeated", fname(f), c.p.pos(f.Pos()), "an attribute of <span> given twice is not an error")
					}
				}
			}
			args := append([]*aval(nil), u.args...)
			args[u.arg] = &aval{pt: &aval{l: &lit{T: types.Typ[types.String], C: constant.MakeString("")}}}
			s := &sccp{t: c.t, final: true}
			s.visit = func(in ssa.Instruction, get func(ssa.Value) *aval) {
				if st, ok := in.(*ssa.Store); ok && in.Parent() == f && u.arg < len(f.Params) && st.Addr == f.Params[u.arg] {
					if x := get(st.Val); x != nil && x.symbol() != "" && x.symbol() != "value$" {
						c.r.find("span", n+" stored", c.p.pos(u.call.Pos()), "the value stored for the attribute %q of <span> is not the one of the attribute", n)
					}
				}
			}
			s.run(f, args)
		}
	}
	if known < len(names)/2 {
		c.r.sample("the variables holding the attributes of <span> are not recognised in %s", fname(fn))
		return
	}
	for _, n := range names {
		c.r.count("attributes of span", 1)
		if len(byName[n]) == 0 {
			c.r.find("span", n+" unknown", c.p.pos(fn.Pos()), "the attribute %q of <span> is not kept", n)
		}
		if len(byName[n]) != 1 {
			delete(byName, n)
		}
	}
	if cells, _ := cellsOf("zzz"); len(cells) > 0 {
		c.r.find("span", "unknown", c.p.pos(fn.Pos()), "an unknown attribute of <span> is accepted")
	}
	for _, n := range names {
		if byName[n] == nil {
			continue
		}
		for _, smp := range c.o.Span[n] {
			value := smp[0].(string)
			k := &collector{c: c}
			s := k.sccp()
			read, escaped := false, false
			s.override = func(in ssa.Instruction, get func(ssa.Value) *aval) *aval {
				ld, ok := in.(*ssa.UnOp)
				if in.Parent() != fn || !ok || ld.Op != token.MUL {
					return nil
				}
				key := cellKey(ld.X)
				if !all[key] {
					return nil
				}
				v := ""
				if byName[n][key] {
					v, read = value, true
				}
				return &aval{l: &lit{T: types.Typ[types.String], C: constant.MakeString(v)}}
			}
			decided, where := true, ""
			s.visit = func(in ssa.Instruction, get func(ssa.Value) *aval) {
				if br, ok := in.(*ssa.If); ok && c.builds[in.Parent()] && !inCycle(in.Block()) {
					if _, ok := truth(get(br.Cond)); !ok && !nilParam(br.Cond) {
						decided, where = false, c.p.pos(br.Cond.Pos())
					}
				}
				escaped = escaped || in.Parent() == fn && wholeUse(in, roots)
				k.visit(in, get)
			}
			s.run(fn, nil)
			c.r.count("values of attributes", 1)
			if escaped && !read { // the variables are read elsewhere
				c.r.count("undecided values", 1)
				c.r.sample("span %s=%q not followed", n, value)
				continue
			}
			if !decided || escaped || k.lost {
				decided = false
				c.r.count("undecided values", 1)
				c.r.sample("span %s=%q not decided: %s", n, value, where)
			}
			what := fmt.Sprintf("<span %s=%q>", n, value)
			if smp[1] == "error" {
				if decided {
					for _, e := range k.out {
						c.r.find("span", n+" "+value, c.p.pos(fn.Pos()), "%s, which is not valid, builds an attribute ATTR_%s", what, c.kindName[e.kind])
					}
				}
				continue
			}
			c.compare(what, n+" "+value, c.p.pos(fn.Pos()), k, smp[1].([]interface{}), decided)
		}
	}
}

// nilParam: the condition compares a parameter with nil.
func nilParam(v ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, x := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
		_, isPrm := x[0].(*ssa.Parameter)
		k, isConst := x[1].(*ssa.Const)
		if isPrm && isConst && k.IsNil() {
			return true
		}
	}
	return false
}

// stack: the handler of the start of an element pushes a tag whatever happens, as the end pops one.
func (c *markupCheck) stack() {
	c.r.rule("stack: a function pushing a tag on a stack popped for each end of element does it on all its paths")
	type fieldID struct {
		t *types.Named
		i int
	}
	fieldID0 := func(addr ssa.Value) (fieldID, bool) {
		fa, ok := addr.(*ssa.FieldAddr)
		if !ok {
			return fieldID{}, false
		}
		n, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().(*types.Named)
		if !ok {
			return fieldID{}, false
		}
		s, ok := fa.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Slice)
		if !ok {
			return fieldID{}, false
		}
		pt, ok := s.Elem().(*types.Pointer)
		if !ok {
			return fieldID{}, false
		}
		if _, ok := pt.Elem().Underlying().(*types.Struct); !ok {
			return fieldID{}, false
		}
		return fieldID{n, fa.Field}, true
	}
	pushes := map[fieldID]map[*ssa.Function]map[*ssa.BasicBlock]bool{}
	popped := map[fieldID]bool{}
	for _, fn := range c.p.Funcs {
		if fn.Pkg != c.p.ssaPkg("pango") {
			continue
		}
		c.p.eachInstr(fn, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			id, ok := fieldID0(st.Addr)
			if !ok || id.t == c.attr {
				return
			}
			switch v := st.Val.(type) {
			case *ssa.Slice:
				if !inCycle(in.Block()) {
					popped[id] = true
				}
			case *ssa.Call:
				if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(v.Call.Args) == 2 && !inCycle(in.Block()) {
					if pushes[id] == nil {
						pushes[id] = map[*ssa.Function]map[*ssa.BasicBlock]bool{}
					}
					if pushes[id][fn] == nil {
						pushes[id][fn] = map[*ssa.BasicBlock]bool{}
					}
					pushes[id][fn][in.Block()] = true
				}
			}
		})
	}
	for id, fns := range pushes {
		if !popped[id] {
			continue
		}
		for fn, blocks := range fns {
			res := fn.Signature.Results()
			elem := id.t.Underlying().(*types.Struct).Field(id.i).Type().Underlying().(*types.Slice).Elem()
			if res.Len() != 1 || !types.Identical(res.At(0).Type(), elem) {
				continue
			}
			c.r.count("stacks", 1)
			seen := map[*ssa.BasicBlock]bool{}
			var walk func(b *ssa.BasicBlock) *ssa.BasicBlock
			walk = func(b *ssa.BasicBlock) *ssa.BasicBlock {
				if seen[b] || blocks[b] {
					return nil
				}
				seen[b] = true
				if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					return b
				}
				for _, s := range b.Succs {
					if r := walk(s); r != nil {
						return r
					}
				}
				return nil
			}
			if b := walk(fn.Blocks[0]); b != nil {
				c.r.find("stack", fname(fn), c.p.pos(b.Instrs[len(b.Instrs)-1].Pos()), "%s may return without pushing a tag, which the end of the element removes all the same", fname(fn))
			}
		}
	}
}
