package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C15: the vocabulary of fontconfig, C16: how properties are compared.

func init() {
	register("C15", "The names, types, named constants and numeric constants of the font properties are folded from the tables and functions of package fontconfig and compared with those of the fontconfig reference.", runC15)
	register("C16", "The table of comparison functions and priorities of the font properties is folded and compared with the fontconfig reference; each comparison function is evaluated abstractly for every pair of types its properties may hold.", runC16)
}

type fcOracle struct {
	Objects     map[string]struct{ Name, Type string }
	Values      map[string]int64
	Constants   map[string][]interface{}
	Priorities  []string
	Comparators map[string][]string
	Weights     [][]float64
	Booldefault map[string]bool `json:"booldefaults"`
	Defaults    map[string]int64
	Accepts     map[string][]string
	Parses      map[string][]string
}

// fcVocab gives access to the vocabulary of package fontconfig.
type fcVocab struct {
	fcOracle
	p      *Program
	t      *tables
	object *types.Named
	value  *types.Interface
	vtypes []*types.Named // the types of values
	consts map[string]int64
	name   map[int64]string // constant name of an object
}

func (p *Program) vocab() *fcVocab {
	v := &fcVocab{p: p, t: p.tables(), consts: map[string]int64{}, name: map[int64]string{}}
	oracle("fontconfig.json", &v.fcOracle)
	sc := p.pkg("fontconfig").Types.Scope()
	v.object = sc.Lookup("Object").Type().(*types.Named)
	v.value = sc.Lookup("Value").Type().Underlying().(*types.Interface)
	for _, n := range sc.Names() {
		switch o := sc.Lookup(n).(type) {
		case *types.TypeName:
			if nm, ok := o.Type().(*types.Named); ok && !types.IsInterface(nm) && types.Implements(nm, v.value) {
				v.vtypes = append(v.vtypes, nm)
			}
		case *types.Const:
			if types.Identical(o.Type(), v.object) && o.Exported() && o.Name() != "FirstCustomObject" {
				k, _ := (&lit{C: o.Val()}).i()
				v.consts[n] = k
				v.name[k] = n
			}
		}
	}
	return v
}

func (v *fcVocab) objects() []string {
	out := make([]string, 0, len(v.consts))
	for n := range v.consts {
		out = append(out, n)
	}
	sort.Slice(out, func(i, j int) bool { return v.consts[out[i]] < v.consts[out[j]] })
	return out
}

func (v *fcVocab) obj(name string) *aval { return intLit(v.object, v.consts[name]) }

// structTable: the package-level tables (arrays or slices of structures) whose fields satisfy the predicates, in any order.
type tableOf struct {
	v   *types.Var
	l   *lit
	col []int // index of the field for each predicate
}

func (t *tables) structTables(short string, preds ...func(types.Type) bool) []tableOf {
	var out []tableOf
	for _, v := range t.vars(short) {
		var elem types.Type
		switch u := v.Type().Underlying().(type) {
		case *types.Array:
			elem = u.Elem()
		case *types.Slice:
			elem = u.Elem()
		case *types.Map:
			elem = u.Elem()
		default:
			continue
		}
		st, ok := elem.Underlying().(*types.Struct)
		if !ok || st.NumFields() != len(preds) {
			continue
		}
		used := map[int]bool{}
		var col []int
		for _, pr := range preds {
			for i := 0; i < st.NumFields(); i++ {
				if !used[i] && pr(st.Field(i).Type()) {
					used[i] = true
					col = append(col, i)
					break
				}
			}
		}
		if len(col) == len(preds) {
			out = append(out, tableOf{v, t.global(v), col})
		}
	}
	return out
}

func isBasicT(info types.BasicInfo) func(types.Type) bool {
	return func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&info != 0
	}
}

func isT(want types.Type) func(types.Type) bool {
	return func(t types.Type) bool { return types.Identical(t, want) }
}

func plainInt(t types.Type) bool {
	_, named := t.(*types.Named)
	return !named && isBasicT(types.IsInteger)(t)
}

func isFuncT(t types.Type) bool { _, ok := t.Underlying().(*types.Signature); return ok }

func runC15(p *Program, r *Report) {
	r.rule("each property has the name, number of values types and parser of the fontconfig reference, and the tables by name and by number agree")
	r.rule("each named constant stands for the property and the number of the reference, each exported number is that of the reference")
	v := p.vocab()
	t := v.t
	pk := p.pkg("fontconfig")
	where := func(name string) string {
		if o := pk.Types.Scope().Lookup(name); o != nil {
			return p.pos(o.Pos())
		}
		return ""
	}
	// numeric constants
	for n, want := range v.Values {
		c, ok := pk.Types.Scope().Lookup(n).(*types.Const)
		if !ok {
			r.find("number", "number "+n, "", "the constant %s of fontconfig is missing", n)
			continue
		}
		r.count("numeric constants", 1)
		if got, ok := (&lit{C: c.Val()}).i(); !ok || got != want {
			r.find("number", "number "+n, p.pos(c.Pos()), "%s is %v, %d in the fontconfig reference", n, c.Val(), want)
		}
	}
	r.need("numeric constants", r.Counts["numeric constants"], 40)

	// names
	str := p.mustFunc("fontconfig", "Object.String")
	names := map[string]string{}
	byName := map[string]string{}
	for _, n := range v.objects() {
		res, _ := t.constResults(str, []*aval{v.obj(n)})
		got, ok := res[0].constant().s()
		if !ok {
			continue // not decided
		}
		r.count("property names", 1)
		if w, ok := v.Objects[n]; ok && got != w.Name {
			r.find("name", "name "+n, where(n), "the property %s is printed as %q, its name is %q", n, got, w.Name)
		}
		if other := byName[got]; other != "" {
			r.find("name", "name "+n, where(n), "the properties %s and %s have the same name %q", other, n, got)
		}
		names[n], byName[got] = got, n
	}
	r.need("property names", len(names), 45)
	for n := range v.Objects {
		if _, ok := v.consts[n]; !ok {
			r.find("name", "name "+n, "", "the property %s of fontconfig is missing", n)
		}
	}
	all := map[int64]string{}
	for n, k := range v.consts {
		if o := all[k]; o != "" {
			r.find("name", "number of "+n, where(n), "the properties %s and %s have the same number", o, n)
		}
		all[k] = n
	}

	// the registry of properties by name
	isIface := func(t types.Type) bool { return types.IsInterface(t) }
	regs := 0
	for _, tb := range t.structTables("fontconfig", isT(v.object), isIface) {
		if tb.l == nil || tb.l.Keys == nil {
			continue
		}
		regs++
		seen := map[string]bool{}
		for i, k := range tb.l.Keys {
			name, _ := k.s()
			e := tb.l.Vals[i]
			oi, ok := e.Fields[tb.col[0]].i()
			if !ok {
				continue
			}
			n := v.name[oi]
			pos := p.pos(tb.v.Pos())
			r.count("entries of "+tb.v.Name(), 1)
			if seen[name] {
				r.find("registry", "registry twice "+name, pos, "%s has two entries named %q", tb.v.Name(), name)
			}
			seen[name] = true
			w := v.Objects[n]
			if n == "" || name != w.Name && v.Objects[n].Name != "" || names[n] != "" && name != names[n] {
				r.find("registry", "registry "+name, pos, "in %s the name %q leads to the property %s, named %q", tb.v.Name(), name, n, w.Name)
				continue
			}
			v.checkParser(r, tb.v, name, n, e.Fields[tb.col[1]], pos)
		}
		for n := range v.Objects {
			if nm := v.Objects[n].Name; !seen[nm] {
				r.find("registry", "registry "+nm, p.pos(tb.v.Pos()), "%s has no entry for the property %q", tb.v.Name(), nm)
			}
		}
	}
	r.need("registries of properties", regs, 1)

	// the types a property accepts
	for _, fn := range p.bySig("fontconfig", "fontconfig.Object,fontconfig.Value->bool") {
		for _, n := range v.objects() {
			w, ok := v.Objects[n]
			if !ok {
				continue
			}
			for _, vt := range v.vtypes {
				res, _ := t.constResults(fn, []*aval{v.obj(n), {dyn: vt}})
				k := res[0].constant()
				if k == nil || k.C == nil || k.C.Kind() != constant.Bool {
					continue
				}
				r.count("pairs of property and type", 1)
				want := contains(v.Accepts[w.Type], vt.Obj().Name())
				if got := constant.BoolVal(k.C); got != want {
					r.find("type", "type "+n+" "+vt.Obj().Name(), p.pos(fn.Pos()), "%s says that the property %s (of type %s) %s a value of type %s", fname(fn), n, w.Type, map[bool]string{true: "accepts", false: "refuses"}[got], vt.Obj().Name())
				}
			}
		}
	}
	r.need("pairs of property and type", r.Counts["pairs of property and type"], 300)

	// named constants
	ct := 0
	for _, tb := range t.structTables("fontconfig", isBasicT(types.IsString), isT(v.object), plainInt) {
		if tb.l == nil || tb.l.Keys != nil || len(tb.l.Vals) == 0 {
			continue
		}
		ct++
		pos := p.pos(tb.v.Pos())
		seen := map[string]bool{}
		for _, e := range tb.l.Vals {
			name, _ := e.Fields[tb.col[0]].s()
			oi, _ := e.Fields[tb.col[1]].i()
			val, _ := e.Fields[tb.col[2]].i()
			r.count("named constants", 1)
			w, ok := v.Constants[name]
			if !ok {
				if strings.ToLower(name) != name || seen[name] {
					r.find("constant", "constant "+name, pos, "%s: the constant %q is not one of fontconfig", tb.v.Name(), name)
				}
				continue
			}
			if seen[name] {
				r.find("constant", "constant twice "+name, pos, "%s defines the constant %q twice: the second definition is never used", tb.v.Name(), name)
			}
			seen[name] = true
			if v.name[oi] != w[0].(string) || val != int64(w[1].(float64)) {
				r.find("constant", "constant "+name, pos, "%s: the constant %q is %d for the property %s, in the fontconfig reference it is %v for %v", tb.v.Name(), name, val, v.name[oi], w[1], w[0])
			}
		}
		for n := range v.Constants {
			if !seen[n] {
				r.find("constant", "constant "+n, pos, "%s does not define the constant %q of fontconfig", tb.v.Name(), n)
			}
		}
		v.wholeSearch(r, tb.v)
	}
	r.need("tables of named constants", ct, 1)

	// weights
	for _, tb := range t.structTables("fontconfig", isBasicT(types.IsFloat), isBasicT(types.IsFloat)) {
		if tb.l == nil || len(tb.l.Vals) < 3 || tb.l.Keys != nil {
			continue
		}
		pos := p.pos(tb.v.Pos())
		for i, e := range tb.l.Vals {
			a, _ := e.Fields[0].f()
			b, _ := e.Fields[1].f()
			r.count("weights", 1)
			if i < len(v.Weights) && (a != v.Weights[i][0] || b != v.Weights[i][1]) || i >= len(v.Weights) {
				r.find("weight", fmt.Sprintf("weight %v", a), pos, "%s: the OpenType weight %v stands for the weight %v, the reference differs", tb.v.Name(), a, b)
			}
		}
		if len(tb.l.Vals) < len(v.Weights) {
			r.find("weight", "weights", pos, "%s lacks some weights of the reference", tb.v.Name())
		}
	}
	r.need("weights", r.Counts["weights"], 10)

	// words looked for in a style: a shorter word never hides a later one
	for _, tb := range t.structTables("fontconfig", isBasicT(types.IsString), plainInt) {
		if tb.l == nil || tb.l.Keys != nil {
			continue
		}
		// the property most words are about
		about, major := map[interface{}]int{}, interface{}(nil)
		for _, e := range tb.l.Vals {
			w, _ := e.Fields[tb.col[0]].s()
			if c, ok := v.Constants[w]; ok {
				if about[c[0]]++; about[c[0]] > about[major] {
					major = c[0]
				}
			}
		}
		for j, e := range tb.l.Vals {
			w, _ := e.Fields[tb.col[0]].s()
			wv, _ := e.Fields[tb.col[1]].i()
			r.count("style words", 1)
			for i := 0; i < j; i++ {
				o, _ := tb.l.Vals[i].Fields[tb.col[0]].s()
				ov, _ := tb.l.Vals[i].Fields[tb.col[1]].i()
				if o == "" || !strings.HasPrefix(o, "<") && !strings.HasPrefix(w, "<") && strings.Contains(w, o) && wv != ov {
					r.find("word", "word "+w, p.pos(tb.v.Pos()), "%s: the word %q is never found, since %q precedes it", tb.v.Name(), w, o)
				}
			}
			if c, ok := v.Constants[w]; ok && c[0] == major {
				if val := int64(c[1].(float64)); val != wv {
					r.find("word", "word value "+w, p.pos(tb.v.Pos()), "%s gives to the word %q the number %d, the constant of this name is %d", tb.v.Name(), w, wv, val)
				}
			}
		}
	}

	// default values
	v.defaults(r)
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// checkParser: the parser of a property only makes values of its type.
func (v *fcVocab) checkParser(r *Report, tbl *types.Var, name, n string, parser *lit, pos string) {
	w, ok := v.Objects[n]
	if !ok || parser == nil || parser.T == nil || types.IsInterface(parser.T) {
		return
	}
	ms := types.NewMethodSet(parser.T)
	for i := 0; i < ms.Len(); i++ {
		fn := v.p.SSA.MethodValue(ms.At(i))
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		res := fn.Signature.Results()
		vi := -1
		for j := 0; j < res.Len(); j++ {
			if nm, ok := res.At(j).Type().(*types.Named); ok && nm.Obj().Name() == "Value" && types.IsInterface(nm) {
				vi = j
			}
		}
		if vi < 0 {
			continue
		}
		args := make([]*aval, len(fn.Params))
		for j, prm := range fn.Params {
			if types.Identical(prm.Type(), v.object) {
				args[j] = v.obj(n)
			}
		}
		_, all := v.t.constResults(fn, args)
		seen := map[string]bool{}
		decided := len(all) > 0
		for _, ret := range all {
			if k := ret[vi].constant(); k != nil && k.Nil {
				continue
			}
			ct := ret[vi].concrete()
			if ct == nil {
				decided = false
				continue
			}
			tn := ct.(*types.Named).Obj().Name()
			seen[tn] = true
			if !contains(v.Parses[w.Type], tn) {
				r.find("parser", "parser "+name, pos, "%s: the property %s (of type %s) is read as a value of type %s by %s", tbl.Name(), n, w.Type, tn, fname(fn))
			}
		}
		if decided {
			r.count("parsers of properties", 1)
			for _, tn := range v.Parses[w.Type] {
				if !seen[tn] {
					r.find("parser", "parser "+name+" "+tn, pos, "%s: the property %s (of type %s) is never read as a value of type %s by %s", tbl.Name(), n, w.Type, tn, fname(fn))
				}
			}
		}
	}
}

// wholeSearch: the functions searching a table look at every entry and compare whole names.
func (v *fcVocab) wholeSearch(r *Report, tbl *types.Var) {
	for _, fn := range v.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if sl, ok := in.(*ssa.Slice); ok {
					if g, ok := sl.X.(*ssa.Global); ok && g.Object() == tbl {
						n := int64(tbl.Type().Underlying().(*types.Array).Len())
						low, _ := sl.Low.(*ssa.Const)
						high, _ := sl.High.(*ssa.Const)
						if low != nil && low.Int64() != 0 || high != nil && high.Int64() != n {
							r.find("search", "search "+fname(fn), v.p.pos(in.Pos()), "%s only looks at a part of %s", fname(fn), tbl.Name())
						}
					}
				}
				ia, ok := in.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				g, ok := ia.X.(*ssa.Global)
				if !ok || g.Object() != tbl || !inCycle(b) {
					continue
				}
				r.count("searches of "+tbl.Name(), 1)
				n := int64(tbl.Type().Underlying().(*types.Array).Len())
				if !walksAll(ia.Index, n) {
					r.find("search", "search "+fname(fn), v.p.pos(in.Pos()), "%s does not look at every entry of %s", fname(fn), tbl.Name())
				}
			}
		}
	}
}

// walksAll: idx is the index of a loop going through 0..n-1 (one at a time, in either direction).
// An index of another form is accepted.
func walksAll(idx ssa.Value, n int64) bool {
	bin, ok := idx.(*ssa.BinOp)
	var ph *ssa.Phi
	if ok && bin.Op == token.ADD {
		ph, _ = bin.X.(*ssa.Phi)
	} else {
		ph, _ = idx.(*ssa.Phi)
	}
	if ph == nil || len(ph.Edges) != 2 {
		return true
	}
	var start, step *int64
	for _, e := range ph.Edges {
		if c, ok := e.(*ssa.Const); ok {
			k := c.Int64()
			start = &k
		} else if b, ok := e.(*ssa.BinOp); ok && b.X == ph && b.Op == token.ADD {
			if c, ok := b.Y.(*ssa.Const); ok {
				k := c.Int64()
				step = &k
			}
		}
	}
	if start == nil || step == nil {
		return true
	}
	if *step != 1 {
		return false
	}
	first := *start
	if bin != nil && bin.Op == token.ADD {
		first += *step
	}
	if first != 0 {
		return false
	}
	// the bound
	for _, v := range []ssa.Value{idx, ph} {
		if v.Referrers() == nil {
			continue
		}
		for _, u := range *v.Referrers() {
			if b, ok := u.(*ssa.BinOp); ok && b.X == v && b.Op == token.LSS {
				if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil && c.Int64() < n {
					return false
				}
			}
		}
	}
	return true
}

// defaults: the values supplied for the missing properties of a pattern.
func (v *fcVocab) defaults(r *Report) {
	p := v.p
	for _, tb := range v.t.structTables("fontconfig", isT(v.object), isBasicT(types.IsBoolean)) {
		if tb.l == nil || tb.l.Keys != nil {
			continue
		}
		seen := map[string]bool{}
		for _, e := range tb.l.Vals {
			oi, _ := e.Fields[tb.col[0]].i()
			c := e.Fields[tb.col[1]].C
			n := v.name[oi]
			seen[n] = true
			r.count("boolean defaults", 1)
			want, ok := v.Booldefault[n]
			if c != nil && c.Kind() == constant.Bool && ok && want != constant.BoolVal(c) {
				r.find("default", "default "+n, p.pos(tb.v.Pos()), "%s: the default of %s is %v, %v in the fontconfig reference", tb.v.Name(), n, constant.BoolVal(c), want)
			}
			if !ok {
				r.find("default", "default "+n, p.pos(tb.v.Pos()), "%s gives a default to %s, the fontconfig reference gives none", tb.v.Name(), n)
			}
		}
		for n := range v.Booldefault {
			if !seen[n] {
				r.find("default", "default "+n, p.pos(tb.v.Pos()), "%s gives no default to %s", tb.v.Name(), n)
			}
		}
	}
	fn := p.mustFunc("fontconfig", "Pattern.SubstituteDefault")
	got := map[string]map[int64]bool{}
	for f := range p.reachable([]*ssa.Function{fn}, true) {
		if f.Pkg != fn.Pkg {
			continue
		}
		p.eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok || c.Common().StaticCallee() == nil {
				return
			}
			args := c.Common().Args
			for i := 0; i+1 < len(args); i++ {
				k, ok := args[i].(*ssa.Const)
				if !ok || !types.Identical(k.Type(), v.object) || k.Value == nil {
					continue
				}
				x := args[i+1]
				if m, ok := x.(*ssa.MakeInterface); ok {
					x = m.X
				}
				if val, ok := x.(*ssa.Const); ok && val.Value != nil && isBasicT(types.IsInteger)(val.Type()) && addsValue(c) {
					n := v.name[k.Int64()]
					if got[n] == nil {
						got[n] = map[int64]bool{}
					}
					got[n][val.Int64()] = true
				}
			}
		})
	}
	for n, want := range v.Defaults {
		for val := range got[n] {
			r.count("numeric defaults", 1)
			if val != want {
				r.find("default", "default "+n, p.pos(fn.Pos()), "the default of %s is %d, %d in the fontconfig reference", n, val, want)
			}
		}
	}
	floats := map[float64]bool{}
	for f := range p.reachable([]*ssa.Function{fn}, true) {
		p.eachInstr(f, func(in ssa.Instruction) {
			for _, op := range in.Operands(nil) {
				if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && isBasicT(types.IsFloat)(k.Type()) {
					x, _ := constant.Float64Val(constant.ToFloat(k.Value))
					floats[math.Abs(x)] = true
				}
			}
		})
	}
	for x, what := range map[float64]string{12: "size", 75: "dpi", 72: "number of points per inch"} {
		r.count("numeric defaults", 1)
		if !floats[x] {
			r.find("default", "default "+what, p.pos(fn.Pos()), "the default %s is not %v", what, x)
		}
	}
	r.need("numeric defaults", r.Counts["numeric defaults"], 4)
}

// addsValue: the call is one of a method of Pattern adding a value.
func addsValue(c ssa.CallInstruction) bool {
	f := c.Common().StaticCallee()
	return f.Signature.Recv() != nil && typeName(f.Signature.Recv().Type()) == "fontconfig.Pattern" && strings.HasPrefix(strings.ToLower(f.Name()), "add")
}

func runC16(p *Program, r *Report) {
	r.rule("each property is compared as in the fontconfig reference and its strong and weak priorities are in the order of the reference")
	r.rule("a comparison function neither fails nor reports a type mismatch for two values of types the property may hold")
	v := p.vocab()
	t := v.t
	n := 0
	isPrio := func(t types.Type) bool { return isBasicT(types.IsInteger)(t) && !types.Identical(t, v.object) }
	for _, tb := range t.structTables("fontconfig", isFuncT, isT(v.object), isPrio, isPrio) {
		if tb.l == nil || tb.l.Keys != nil {
			continue
		}
		n++
		v.matchers(r, tb)
	}
	r.need("tables of comparison functions", n, 1)
	r.need("pairs of values compared", r.Counts["pairs of values compared"], 45)
}

func (v *fcVocab) matchers(r *Report, tb tableOf) {
	p := v.p
	pos := p.pos(tb.v.Pos())
	group := map[types.Object]string{}
	member := map[string]string{}
	for g, l := range v.Comparators {
		for _, n := range l {
			member[n] = g
		}
	}
	first := map[string]types.Object{}
	prio := map[string]int64{}
	strongName := "strong"
	st := tb.l.Vals[0].T.Underlying().(*types.Struct)
	strongCol, weakCol := tb.col[2], tb.col[3]
	if st.Field(strongCol).Name() == "weak" {
		strongCol, weakCol = weakCol, strongCol
	}
	_ = strongName
	for i, e := range tb.l.Vals {
		oi, ok := e.Fields[tb.col[1]].i()
		n := v.name[int64(i)]
		if n == "" {
			continue
		}
		r.count("properties", 1)
		if !ok || oi != int64(i) {
			r.find("matcher", "matcher "+n, pos, "%s: the entry of %s is that of %s", tb.v.Name(), n, v.name[oi])
			continue
		}
		f := e.Fields[tb.col[0]].Ref
		want := member[n]
		if (f != nil) != (want != "") {
			r.find("matcher", "compared "+n, pos, "%s: the property %s %s compared, unlike in the fontconfig reference", tb.v.Name(), n, map[bool]string{true: "is", false: "is not"}[f != nil])
			continue
		}
		if f == nil {
			continue
		}
		if g, ok := group[f]; ok && g != want {
			r.find("matcher", "comparator "+n, pos, "%s: the property %s is compared with %s, as the properties %v: the fontconfig reference compares it as a %s", tb.v.Name(), n, f.Name(), v.Comparators[g], want)
		}
		if g, ok := first[want]; ok && g != f {
			r.find("matcher", "comparator "+n, pos, "%s: the property %s is compared with %s, unlike the other properties compared as a %s", tb.v.Name(), n, f.Name(), want)
		}
		if _, ok := group[f]; !ok {
			group[f] = want
		}
		if first[want] == nil {
			first[want] = f
		}
		s, ok1 := e.Fields[strongCol].i()
		w, ok2 := e.Fields[weakCol].i()
		if ok1 && ok2 {
			prio[n+"+"], prio[n+"-"] = s, w
			if s == w {
				prio[n] = s
			}
		}
		// the values it may be given
		if fo, ok := f.(*types.Func); ok {
			if fn := p.SSA.FuncValue(fo); fn != nil {
				v.compareTypes(r, fn, n)
			}
		}
	}
	last := int64(-1)
	prev := ""
	for _, label := range v.Priorities {
		r.count("priorities", 1)
		k, ok := prio[label]
		if !ok {
			r.find("priority", "priority "+label, pos, "%s: the strong and weak priorities of %s differ, or are not known", tb.v.Name(), label)
			continue
		}
		if k <= last {
			r.find("priority", "priority "+label, pos, "%s: %s has priority over %s, in the fontconfig reference it comes after", tb.v.Name(), label, prev)
		}
		last, prev = k, label
	}
	// the lookup of an entry
	for _, fn := range p.Funcs {
		if fn.Pkg != p.ssaPkg("fontconfig") || fn.Signature.Results().Len() != 1 || len(fn.Params) != 2 || !types.Identical(fn.Params[0].Type(), v.object) {
			continue
		}
		pt, ok := fn.Signature.Results().At(0).Type().(*types.Pointer)
		if !ok || !types.Identical(pt.Elem(), tb.l.Vals[0].T) || !isBasicT(types.IsBoolean)(fn.Params[1].Type()) {
			continue
		}
		for _, withLang := range []bool{false, true} {
			for _, n := range v.objects() {
				res, _ := v.t.constResults(fn, []*aval{v.obj(n), {l: &lit{T: types.Typ[types.Bool], C: constant.MakeBool(withLang)}}})
				a := res[0]
				if a.bot || a.l == nil {
					continue
				}
				r.count("lookups", 1)
				want := n
				if withLang && (n == "FAMILYLANG" || n == "STYLELANG" || n == "FULLNAMELANG") {
					want = "LANG"
				}
				e := tb.l.Vals[v.consts[want]]
				if member[want] == "" {
					if !a.l.Nil {
						r.find("lookup", "lookup "+n, p.pos(fn.Pos()), "%s gives a comparison to the property %s, which has none", fname(fn), n)
					}
				} else if !a.addr || a.l != e {
					r.find("lookup", "lookup "+n, p.pos(fn.Pos()), "%s does not give to the property %s the comparison of %s", fname(fn), n, want)
				}
			}
		}
	}
}

// compareTypes evaluates a comparison for each pair of types the property may hold.
func (v *fcVocab) compareTypes(r *Report, fn *ssa.Function, n string) {
	var held []*types.Named
	for _, vt := range v.vtypes {
		if contains(v.Accepts[v.Objects[n].Type], vt.Obj().Name()) {
			held = append(held, vt)
		}
	}
	for _, a := range held {
		for _, b := range held {
			r.count("pairs of values compared", 1)
			key := fmt.Sprintf("%s(%s,%s)", fname(fn), a.Obj().Name(), b.Obj().Name())
			s := &sccp{t: v.t, final: true}
			s.failed = func(in *ssa.TypeAssert, got types.Type) {
				r.find("compare-type", "fails "+key, v.p.pos(in.Pos()), "comparing values of the property %s: %s fails for values of types %s and %s, which this property may hold", n, fname(fn), a.Obj().Name(), b.Obj().Name())
			}
			_, all := s.run(fn, []*aval{{dyn: a}, {dyn: b}})
			for _, ret := range all {
				if len(ret) < 2 {
					continue
				}
				if k, ok := ret[len(ret)-1].constant().f(); ok && k < 0 {
					r.find("compare-type", "mismatch "+key, v.p.pos(fn.Pos()), "comparing values of the property %s: %s reports a type mismatch for values of types %s and %s, which this property may hold", n, fname(fn), a.Obj().Name(), b.Obj().Name())
				}
			}
			v.distances(r, fn, n, a, b)
		}
	}
}

// distances checks the distance between values of the given types, for each relation they may have.
func (v *fcVocab) distances(r *Report, fn *ssa.Function, n string, ta, tb *types.Named) {
	l, rt := &aval{sym: "l$", dyn: ta}, &aval{sym: "r$", dyn: tb}
	an, bn := ta.Obj().Name(), tb.Obj().Name()
	// eval lists the signs of the distance: those of the returns which may be reached, when all are known
	eval := func(s *sccp, args []*aval, sign func(string) (int, bool)) (out []int, vals []float64) {
		_, all := s.run(fn, args)
		for _, ret := range all {
			a := ret[len(ret)-1]
			if k, ok := a.constant().f(); ok {
				out = append(out, int(sgn(k)))
				vals = append(vals, k)
			} else if o, ok := sign(a.symbol()); ok && a.symbol() != "" {
				out = append(out, o)
				vals = append(vals, math.NaN())
			} else {
				return nil, nil
			}
		}
		return out, vals
	}
	bad := func(rel, what string) {
		r.find("distance", fmt.Sprintf("distance %s(%s,%s) %s", fname(fn), an, bn, rel), v.p.pos(fn.Pos()), "%s, for values of types %s and %s of the property %s: the distance is %s when %s", fname(fn), an, bn, n, what, rel)
	}
	num := func(s string) bool { return s == "Int" || s == "Float" }
	unsigned := func(string) (int, bool) { return 0, false }
	if an == "String" || bn == "String" {
		v.emptyStrings(r, fn, n, ta, tb)
	}
	switch {
	case an == "Charset" && bn == "Charset":
		// the characters required and not provided
		res, _ := (&sccp{t: v.t}).run(fn, []*aval{l, rt})
		r.count("relations of values", 1)
		if f, args := splitCall(res[len(res)-1].symbol()); strings.Contains(strings.ToLower(f), "subtract") && len(args) == 2 && args[0] == "r$" && args[1] == "l$" {
			bad("they differ", "the number of characters of the font which are not required, instead of the required characters it lacks")
		}
	case an == "Bool" && bn == "Bool":
		for x := int64(0); x < 3; x++ {
			for y := int64(0); y < 3; y++ {
				r.count("relations of values", 1)
				_, all := (&sccp{t: v.t}).run(fn, []*aval{intLit(ta, x), intLit(tb, y)})
				for _, ret := range all {
					if k, ok := ret[len(ret)-1].constant().f(); ok && (k > 0) != (x != y) {
						bad(fmt.Sprintf("they are %d and %d", x, y), fmt.Sprint(k))
					}
					best := y
					if y == 2 { // don't care
						best = x
					}
					if k, ok := ret[0].constant().i(); ok && k != best {
						bad(fmt.Sprintf("they are %d and %d", x, y), fmt.Sprintf("given with the value %d instead of %d", k, best))
					}
				}
			}
		}
	case num(an) && num(bn) || an == "Range" && (bn == "Range" || num(bn)) || num(an) && bn == "Range":
		for _, k := range intervals() {
			lb, le, rb, re := k["l$.Begin"], k["l$.End"], k["r$.Begin"], k["r$.End"]
			if an != "Range" && lb != le || bn != "Range" && rb != re {
				continue
			}
			k["l$"], k["r$"] = lb, rb
			r.count("relations of values", 1)
			touch := le >= rb && re >= lb
			signs, vals := eval(&sccp{t: v.t, order: k.order}, []*aval{l, rt}, k.sign)
			rel := fmt.Sprintf("they are at [%d %d] and [%d %d]", lb, le, rb, re)
			what := ""
			for i, sg := range signs {
				tiny := !math.IsNaN(vals[i]) && vals[i] > 0 && vals[i] < 1e-6 // the end of a range is excluded
				switch {
				case sg < 0:
					what = "negative"
				case touch && sg > 0 && !tiny:
					what = "not zero"
				case !touch && (sg == 0 || tiny):
					what = "zero"
				default:
					what = ""
				}
				if what == "" {
					break
				}
			}
			if what != "" {
				bad(rel, what)
			}
		}
	case an == "String" && bn == "String" || an == "Langset" || bn == "Langset":
		if an == "String" && bn == "String" {
			for _, equal := range []bool{true, false} {
				if n == "LANG" && !equal {
					continue
				}
				s := &sccp{t: v.t}
				s.order, s.override = stringWorld(equal)
				r.count("relations of values", 1)
				signs, _ := eval(s, []*aval{l, rt}, unsigned)
				wrong := len(signs) > 0
				for _, sg := range signs {
					if equal != (sg != 0) {
						wrong = false
					}
				}
				if wrong && equal {
					bad("they are equal", "not zero")
				} else if wrong {
					bad("they differ", "zero")
				}
			}
		}
		// the comparisons of languages have three results, the best first
		last := math.Inf(-1)
		for k := int64(0); k < 3; k++ {
			s := &sccp{t: v.t}
			used := false
			s.override = func(in ssa.Instruction, get func(ssa.Value) *aval) *aval {
				if c, ok := in.(*ssa.Call); ok {
					if nm, ok := c.Type().(*types.Named); ok && nm.Obj().Pkg() == v.object.Obj().Pkg() && isIntType(nm) && strings.Contains(strings.ToLower(nm.Obj().Name()), "lang") {
						used = true
						return intLit(nm, k)
					}
				}
				return nil
			}
			_, vals := eval(s, []*aval{l, rt}, unsigned)
			if n != "LANG" || len(vals) != 1 {
				break
			}
			r.count("relations of values", 1)
			if !used || vals[0] <= last || k == 0 && vals[0] != 0 {
				bad(fmt.Sprintf("the result of the comparison is %d", k), fmt.Sprint(vals[0]))
			}
			last = vals[0]
		}
	}
}

// emptyStrings: comparing an empty string does not fail.
func (v *fcVocab) emptyStrings(r *Report, fn *ssa.Function, n string, ta, tb *types.Named) {
	empty := func(t types.Type) *aval { return &aval{l: &lit{T: t, C: constant.MakeString("")}} }
	for i, t := range []*types.Named{ta, tb} {
		if t.Obj().Name() != "String" {
			continue
		}
		args := []*aval{{sym: "l$", dyn: ta}, {sym: "r$", dyn: tb}}
		args[i] = empty(t)
		s := &sccp{t: v.t, final: true}
		s.visit = func(in ssa.Instruction, get func(ssa.Value) *aval) {
			what := ""
			switch in := in.(type) {
			case *ssa.Index:
				if str, ok := get(in.X).constant().s(); ok && str == "" && !boundUndecided(in.Block(), get) {
					what = "indexes the empty string"
				}
			case *ssa.BinOp:
				if in.Op == token.QUO {
					if k, ok := get(in.Y).constant().f(); ok && k == 0 {
						what = "divides by zero"
					}
				}
			}
			if what != "" {
				r.find("empty", fmt.Sprintf("empty %s in %s, argument %d", describe(in.(ssa.Value)), fname(in.Parent()), i), v.p.pos(in.Pos()), "comparing values of the property %s: %s %s when argument %d is an empty string", n, fname(in.Parent()), what, i+1)
			}
		}
		r.count("empty strings compared", 1)
		s.run(fn, args)
	}
}

// boundUndecided: the block is executed under a comparison of numbers whose result is not known.
func boundUndecided(b *ssa.BasicBlock, get func(ssa.Value) *aval) bool {
	for _, c := range blockConds(b) {
		if op, ok := c.v.(*ssa.BinOp); ok && isBasicT(types.IsInteger)(op.X.Type()) {
			if _, ok := truth(get(c.v)); !ok {
				return true
			}
		}
	}
	return false
}

func sgn(x float64) float64 {
	switch {
	case x > 0:
		return 1
	case x < 0:
		return -1
	}
	return 0
}
