package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The descriptions of fonts, their text and their translation to and from patterns.

func init() {
	register("C19", "Each function setting, merging, comparing, printing or reading a font description is evaluated for each of its fields, and each value of the enumerated ones; so are the functions translating it to and from a pattern.", runC19)
}

type descCheck struct {
	p     *Program
	r     *Report
	t     *tables
	o     pangoOracle
	desc  *types.Named
	st    *types.Struct
	bits  map[string]int64 // the flag of each field
	all   int64
	mask  string // name of the field holding the flags
	enums map[string]map[string]int64
}

// stored is an assignment of a field of a description.
type stored struct {
	base, field string
	v           *aval
	pos         token.Pos
}

func runC19(p *Program, r *Report) {
	c := &descCheck{p: p, r: r, t: p.tables(), bits: map[string]int64{}, enums: map[string]map[string]int64{}}
	oracle("pango.json", &c.o)
	c.desc = p.named("pango", "FontDescription")
	c.st = c.desc.Underlying().(*types.Struct)
	maskT := p.named("pango", "FontMask")
	scope := p.pkg("pango").Types.Scope()
	for i := 0; i < c.st.NumFields(); i++ {
		f := c.st.Field(i)
		if types.Identical(f.Type(), maskT) {
			c.mask = f.Name()
			continue
		}
		o, ok := scope.Lookup("Fm" + strings.TrimSuffix(f.Name(), "Name")).(*types.Const)
		if !ok {
			continue
		}
		k, _ := constant.Int64Val(o.Val())
		r.count("fields", 1)
		for g, b := range c.bits {
			if b&k != 0 {
				r.find("flags", f.Name(), p.pos(o.Pos()), "the flags of the fields %s and %s are not distinct", f.Name(), g)
			}
		}
		c.bits[f.Name()] = k
		c.all |= k
	}
	for n, m := range c.o.Names {
		c.enums[strings.Title(n)] = m
	}
	c.setters()
	c.merging()
	c.equality()
	c.hash()
	c.text()
	c.words()
	c.patterns()
	p.typedReads(r)
	r.need("fields", r.Counts["fields"], 8)
}

func (c *descCheck) fields() []string {
	var out []string
	for f := range c.bits {
		out = append(out, f)
	}
	sort.Strings(out)
	return out
}

// group lists the fields sharing a flag.
func (c *descCheck) group(f string) map[string]bool {
	out := map[string]bool{f: true}
	if f == "Size" {
		out["SizeIsAbsolute"] = true
	}
	return out
}

// field is the field of a description an address is.
func (c *descCheck) field(v ssa.Value) (name string, ok bool) {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok || !types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), c.desc) {
		return "", false
	}
	return c.st.Field(fa.Field).Name(), true
}

// run evaluates fn, for the given content of some fields (base.field, or .field for all of them):
// the assignments of fields which may be reached.
func (c *descCheck) run(fn *ssa.Function, args []*aval, loads map[string]*aval, more func(s *sccp)) (out []stored, res []*aval, lost bool) {
	s := &sccp{t: c.t, final: true, fold: true, lost: func() { lost = true }}
	value := func(path, field string) *aval {
		for _, k := range []string{path, "." + field} {
			if v := loads[k]; v != nil {
				return v
			}
		}
		return nil
	}
	s.override = func(in ssa.Instruction, get func(ssa.Value) *aval) *aval {
		switch in := in.(type) {
		case *ssa.UnOp:
			if f, ok := c.field(in.X); ok && in.Op == token.MUL {
				path := ""
				if a := get(in.X); a != nil && a.pt != nil {
					path = a.pt.sym
				}
				return value(path, f)
			}
		case *ssa.Field:
			if types.Identical(in.X.Type(), c.desc) {
				f := c.st.Field(in.Field).Name()
				path := ""
				if a := get(in.X); a != nil && a.sym != "" {
					path = a.sym + "." + f
				}
				return value(path, f)
			}
		case *ssa.Alloc:
			// a description built locally, handed to a function
			if loads["loc"] != nil && types.Identical(in.Type().Underlying().(*types.Pointer).Elem(), c.desc) {
				if copied(in) {
					return &aval{sym: "copied"}
				}
				return &aval{sym: "loc"}
			}
		}
		return nil
	}
	s.visit = func(in ssa.Instruction, get func(ssa.Value) *aval) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		if f, ok := c.field(st.Addr); ok {
			base := ""
			if a := get(st.Addr.(*ssa.FieldAddr).X); a != nil {
				base = a.sym
			}
			out = append(out, stored{base, f, get(st.Val), in.Pos()})
		}
	}
	if more != nil {
		more(s)
	}
	res, _ = s.run(fn, args)
	return out, res, lost
}

func (c *descCheck) maskLit(v int64) *aval {
	return intLit(c.p.named("pango", "FontMask"), v)
}

// value is the default value of a field for k = 0, and other ones.
func (c *descCheck) value(f string, k int) *aval {
	t := c.fieldType(f)
	switch {
	case isBasicT(types.IsString)(t):
		return &aval{l: &lit{T: t, C: constant.MakeString([]string{"", "Aa", "Bb"}[k])}}
	case isBasicT(types.IsBoolean)(t):
		return boolLit(k == 1)
	}
	return &aval{l: &lit{T: t, C: constant.MakeInt64(c.defaults(f) + int64(k))}}
}

// defaults is the default value of a numeric field.
func (c *descCheck) defaults(f string) int64 {
	if e := c.enums[f]; e != nil {
		return e["normal"]
	}
	return 0
}

// content gives its values to a description.
func (c *descCheck) content(loads map[string]*aval, base string, mask int64, value func(f string) int) {
	for i := 0; i < c.st.NumFields(); i++ {
		f := c.st.Field(i).Name()
		if f == c.mask {
			loads[base+"."+f] = c.maskLit(mask)
		} else {
			loads[base+"."+f] = c.value(f, value(f))
		}
	}
}

// eval is run when all the values are known: the assignments are those of the execution, unless it is lost.
func (c *descCheck) eval(fn *ssa.Function, args []*aval, loads map[string]*aval) ([]stored, bool) {
	c.r.count("evaluations", 1)
	known := map[ssa.Instruction]*aval{} // what is read after an assignment
	for round := 0; round < 6; round++ {
		undecided, same := false, true
		now := map[string]*aval{}
		next := map[ssa.Instruction]*aval{}
		sts, _, lost := c.run(fn, args, loads, func(s *sccp) {
			override, visit := s.override, s.visit
			s.override = func(in ssa.Instruction, get func(ssa.Value) *aval) *aval {
				if v := known[in]; v != nil {
					return v
				}
				cmp, ok := in.(*ssa.BinOp)
				if !ok || cmp.Op != token.EQL && cmp.Op != token.NEQ {
					return override(in, get)
				}
				for _, x := range [][2]ssa.Value{{cmp.X, cmp.Y}, {cmp.Y, cmp.X}} {
					if k, ok := x[1].(*ssa.Const); ok && k.IsNil() {
						if a := get(x[0]); a != nil && contains([]string{"dst", "src", "loc"}, a.sym) {
							return boolLit(cmp.Op == token.NEQ)
						}
					}
				}
				return nil
			}
			s.visit = func(in ssa.Instruction, get func(ssa.Value) *aval) {
				switch in := in.(type) {
				case *ssa.If:
					if _, ok := truth(get(in.Cond)); !ok {
						undecided = true
					}
				case *ssa.UnOp:
					_, ok := c.field(in.X)
					if !ok || in.Op != token.MUL {
						break
					}
					path := ""
					if a := get(in.X); a != nil && a.pt != nil {
						path = a.pt.sym
					}
					v := now[path]
					if v == nil {
						v = loads[path]
					}
					if v == nil && !strings.HasPrefix(path, "dst.") && !strings.HasPrefix(path, "src.") && !strings.HasPrefix(path, "loc.") {
						break // another description
					}
					if v == nil || v.constant() == nil {
						undecided = true
						break
					}
					if w := next[in]; w != nil && !sameAval(v, w) {
						undecided = true // read several times
					}
					next[in] = v
					if former := known[in]; former == nil && now[path] != nil || former != nil && !sameAval(former, v) {
						same = false
					}
				case *ssa.Store:
					if f, ok := c.field(in.Addr); ok {
						if a := get(in.Addr.(*ssa.FieldAddr).X); a != nil {
							now[a.sym+"."+f] = get(in.Val)
						}
					}
				}
				visit(in, get)
			}
		})
		for _, st := range sts {
			undecided = undecided || st.base == "" || st.v.constant() == nil
		}
		if lost || undecided {
			break
		}
		if same {
			return sts, false
		}
		known = next
	}
	c.r.count("undecided", 1)
	c.r.sample("not decided: %s", fname(fn))
	return nil, true
}

// after is the content of the description base once the assignments are done.
func (c *descCheck) after(sts []stored, loads map[string]*aval, base string) map[string]string {
	out := map[string]string{}
	for i := 0; i < c.st.NumFields(); i++ {
		f := c.st.Field(i).Name()
		out[f] = loads[base+"."+f].constant().C.ExactString()
	}
	for _, st := range sts {
		if st.base == base && st.v.constant().C != nil {
			out[st.field] = st.v.constant().C.ExactString()
		}
	}
	return out
}

func (c *descCheck) text1(f string, k int) string { return c.value(f, k).constant().C.ExactString() }

// setters: each setter assigns its field, and its flag.
func (c *descCheck) setters() {
	c.r.rule("setters: each setter is evaluated on a description with nothing set, and everything set: it assigns its field with its argument, no other one, and raises the flag of this field; an empty value, or the automatic gravity, lowers it; unsetting a field lowers its flag, gives it its default value and touches no other field")
	setters := map[string]string{"SetAbsoluteSize": "Size"}
	for f := range c.bits {
		setters["Set"+strings.TrimSuffix(f, "Name")] = f
	}
	number := func(k int64) string { return fmt.Sprint(k) }
	for _, name := range sortedKeysOf(setters) {
		f := setters[name]
		fn := c.p.lookupFunc("pango", "FontDescription."+name)
		if fn == nil || len(fn.Params) != 2 {
			continue
		}
		c.r.count("setters", 1)
		bit := c.bits[f]
		text := isBasicT(types.IsString)(c.fieldType(f))
		for _, w := range []struct {
			mask        int64
			former, new int
			lowers      bool
		}{{0, 0, 2, false}, {c.all &^ bit, 0, 2, false}, {c.all, 1, 2, false}, {0, 0, 0, text}, {c.all, 1, 0, text}} {
			loads := map[string]*aval{}
			c.content(loads, "dst", w.mask, func(g string) int {
				switch {
				case g == f:
					return w.former
				case g == "SizeIsAbsolute" && name == "SetAbsoluteSize":
					return 0
				}
				return 1
			})
			arg := c.value(f, w.new)
			arg = &aval{l: &lit{T: fn.Params[1].Type(), C: arg.constant().C}}
			sts, lost := c.eval(fn, []*aval{{sym: "dst"}, arg}, loads)
			if lost {
				continue
			}
			mask := w.mask | bit
			if w.lowers {
				mask = w.mask &^ bit
			}
			for g, x := range c.after(sts, loads, "dst") {
				want := c.text1same(loads, "dst", g)
				switch {
				case g == c.mask:
					want = number(mask)
				case g == f:
					want = c.text1(f, w.new)
				case g == "SizeIsAbsolute" && f == "Size":
					want = fmt.Sprint(name == "SetAbsoluteSize")
				}
				if x == want {
					continue
				}
				switch {
				case g == c.mask:
					c.r.find("setter", name+" flags", c.p.pos(fn.Pos()), "%s called with %s (former value %s, flags %d) leaves the flags %s instead of %s", name, c.text1(f, w.new), c.text1(f, w.former), w.mask, x, want)
				default:
					c.r.find("setter", name+" "+g, c.p.pos(fn.Pos()), "%s called with %s (former value %s, flags %d) leaves the field %s with the value %s instead of %s", name, c.text1(f, w.new), c.text1(f, w.former), w.mask, g, x, want)
				}
			}
		}
		if f == "Gravity" {
			auto := &aval{l: &lit{T: fn.Params[1].Type(), C: constant.MakeInt64(c.o.Consts["GRAVITY_AUTO"])}}
			loads := map[string]*aval{}
			c.content(loads, "dst", c.all, func(string) int { return 1 })
			if sts, lost := c.evalLocal(fn, []*aval{{sym: "dst"}, auto}, loads); !lost {
				if got := c.after(sts, loads, "dst")[c.mask]; got != number(c.all&^bit) {
					c.r.find("setter", name+" unset", c.p.pos(fn.Pos()), "%s called with the automatic gravity leaves the flags %s instead of %d", name, got, c.all&^bit)
				}
			}
		}
	}
	if unset := c.p.lookupFunc("pango", "FontDescription.UnsetFields"); unset != nil && len(unset.Params) == 2 {
		for _, f := range c.fields() {
			bit := c.bits[f]
			loads := map[string]*aval{}
			c.content(loads, "dst", c.all, func(string) int { return 1 })
			sts, lost := c.evalLocal(unset, []*aval{{sym: "dst"}, c.maskLit(bit)}, loads)
			if lost {
				continue
			}
			for g, x := range c.after(sts, loads, "dst") {
				want := c.text1same(loads, "dst", g)
				if g == c.mask {
					want = number(c.all &^ bit)
				} else if c.group(f)[g] {
					want = c.text1(g, 0)
				}
				if x != want {
					c.r.find("setter", "unset "+f+" "+g, c.p.pos(unset.Pos()), "unsetting the field %s of a font description leaves its field %s with the value %s instead of %s", f, g, x, want)
				}
			}
		}
	}
	if fn := c.p.lookupFunc("pango", "NewFontDescription"); fn != nil {
		s := &sccp{t: c.t, final: true}
		res, _ := s.run(fn, nil)
		if k := res[0].constant(); k != nil && len(k.Fields) == c.st.NumFields() {
			for i, x := range k.Fields {
				f := c.st.Field(i).Name()
				if got, ok := x.i(); ok && got != c.defaults(f) {
					c.r.find("setter", "default "+f, c.p.pos(fn.Pos()), "the field %s of a new font description is %d instead of %d", f, got, c.defaults(f))
				}
			}
			c.r.count("defaults", 1)
		}
	}
	c.r.need("setters", c.r.Counts["setters"], 5)
}

func (c *descCheck) text1same(loads map[string]*aval, base, f string) string {
	return loads[base+"."+f].constant().C.ExactString()
}

// evalLocal is eval, for functions building a local description and using its address: its content is
// the one of its assignments.
func (c *descCheck) evalLocal(fn *ssa.Function, args []*aval, loads map[string]*aval) ([]stored, bool) {
	local := map[string]*aval{"loc": bottom}
	for k, v := range loads {
		local[k] = v
	}
	var content map[string]*aval
	ok, known := 0, true
	c.run(fn, args, local, func(s *sccp) {
		visit := s.visit
		s.visit = func(in ssa.Instruction, get func(ssa.Value) *aval) {
			visit(in, get)
			al, isAlloc := in.(*ssa.Alloc)
			if !isAlloc || copied(al) || !types.Identical(al.Type().Underlying().(*types.Pointer).Elem(), c.desc) {
				return
			}
			ok++
			content = map[string]*aval{}
			known = known && c.literal(al, get, content)
		}
	})
	if ok > 1 || !known {
		c.r.count("undecided", 1)
		c.r.sample("not decided: %s", fname(fn))
		return nil, true
	}
	for k, v := range content {
		local[k] = v
	}
	return c.eval(fn, args, local)
}

// copied: a local description which is only assigned and copied.
func copied(al *ssa.Alloc) bool {
	for _, u := range *al.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Val == al {
				return false
			}
		case *ssa.FieldAddr, *ssa.DebugRef:
		case *ssa.UnOp:
		default:
			return false
		}
	}
	return true
}

// literal is the content given to a local description by its assignments.
func (c *descCheck) literal(al *ssa.Alloc, get func(ssa.Value) *aval, content map[string]*aval) bool {
	for i := 0; i < c.st.NumFields(); i++ { // zero
		f := c.st.Field(i)
		content["loc."+f.Name()] = &aval{l: zeroLit(f.Type())}
	}
	known, whole := true, 0
	for _, u := range *al.Referrers() {
		u, ok := u.(*ssa.Store)
		if !ok || u.Addr != al {
			continue
		}
		whole++
		if k := get(u.Val).constant(); k != nil && len(k.Fields) == c.st.NumFields() {
			for i, x := range k.Fields {
				content["loc."+c.st.Field(i).Name()] = &aval{l: x}
			}
		} else if ld, isLoad := u.Val.(*ssa.UnOp); isLoad && ld.Op == token.MUL {
			from, isAlloc := ld.X.(*ssa.Alloc)
			known = known && isAlloc && from != al && copied(from) && c.literal(from, get, content)
		} else {
			known = false
		}
	}
	for _, u := range *al.Referrers() {
		fa, isField := u.(*ssa.FieldAddr)
		if !isField {
			continue
		}
		for _, w := range *fa.Referrers() {
			if st, isStore := w.(*ssa.Store); isStore && st.Addr == fa {
				k := get(st.Val).constant()
				known = known && k != nil
				content["loc."+c.st.Field(fa.Field).Name()] = &aval{l: k}
			}
		}
	}
	return known && whole <= 1
}

// merging: the functions copying fields of a description into another.
func (c *descCheck) merging() {
	c.r.rule("merging: a function merging two descriptions is evaluated for each field the source has set, with the default value and another one: it is copied, when asked to or when it is not set in the destination, no other field is, and its flag is raised")
	for _, fn := range c.p.Funcs {
		if fn.Pkg != c.p.ssaPkg("pango") || fn.Signature.Results().Len() != 0 {
			continue
		}
		var ds []int
		flag := -1
		for i, prm := range fn.Params {
			if pt, ok := prm.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), c.desc) {
				ds = append(ds, i)
			} else if isBasicT(types.IsBoolean)(prm.Type()) {
				flag = i
			}
		}
		if len(ds) != 2 || flag < 0 {
			continue
		}
		dst := -1
		c.p.eachInstr(fn, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok {
				if f, ok := c.field(st.Addr); ok && f != c.mask {
					for i, d := range ds {
						if st.Addr.(*ssa.FieldAddr).X == fn.Params[d] {
							dst = i
						}
					}
				}
			}
		})
		if dst < 0 {
			continue
		}
		c.r.count("merging functions", 1)
		at := c.p.pos(fn.Pos())
		for _, f := range c.fields() {
			bit := c.bits[f]
			for _, w := range []struct {
				replace bool
				before  int64
				copies  bool
			}{{true, 0, true}, {true, c.all, true}, {false, 0, true}, {false, c.all &^ bit, true}, {false, bit, false}, {false, c.all, false}} {
				for _, source := range []int{0, 2} {
					if source == 0 && isBasicT(types.IsString)(c.fieldType(f)) {
						continue // an empty text is not set
					}
					args := make([]*aval, len(fn.Params))
					args[ds[dst]], args[ds[1-dst]] = &aval{sym: "dst"}, &aval{sym: "src"}
					args[flag] = boolLit(w.replace)
					loads := map[string]*aval{}
					c.content(loads, "dst", w.before, func(string) int { return 1 })
					c.content(loads, "src", bit, func(string) int { return source })
					sts, lost := c.eval(fn, args, loads)
					if lost {
						continue
					}
					how := fmt.Sprintf("merging the field %s (replacing: %v, already set: %v, value %s)", f, w.replace, w.before&bit != 0, c.text1(f, source))
					for _, st := range sts {
						if st.base != "dst" {
							c.r.find("merge", f+" source", c.p.pos(st.pos), "%s changes the description merged", how)
						}
					}
					for g, x := range c.after(sts, loads, "dst") {
						want := c.text1same(loads, "dst", g)
						if w.copies && g == c.mask {
							want = fmt.Sprint(w.before | bit)
						} else if w.copies && c.group(f)[g] {
							want = c.text1(g, source)
						}
						if x != want {
							c.r.find("merge", f+" "+g, at, "%s leaves the field %s with the value %s instead of %s", how, g, x, want)
						}
					}
				}
			}
		}
	}
}

// equality: the functions comparing two descriptions.
func (c *descCheck) equality() {
	c.r.rule("equality: a function comparing two descriptions is true when all the fields are equal, false when one of them differs")
	for _, fn := range c.p.Funcs {
		if fn.Pkg != c.p.ssaPkg("pango") || len(fn.Params) != 2 || fn.Signature.Results().Len() != 1 || !isBasicT(types.IsBoolean)(fn.Signature.Results().At(0).Type()) {
			continue
		}
		same := true
		for _, prm := range fn.Params {
			t := prm.Type()
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				t = pt.Elem()
			}
			same = same && types.Identical(t, c.desc)
		}
		if !same {
			continue
		}
		c.r.count("equalities", 1)
		eval := func(differ string) (bool, bool) {
			s := &sccp{t: c.t, final: true}
			is := func(x, y string) (bool, int) {
				x, y = strings.ReplaceAll(x, "l$.", "$"), strings.ReplaceAll(y, "r$.", "$")
				if x != y || !strings.HasPrefix(x, "$") && !strings.Contains(x, "($") {
					return false, 0
				}
				if strings.Contains(x, "$"+differ) && differ != "" {
					return true, 1
				}
				return true, 0
			}
			s.order = func(x, y string) (int, bool) {
				if ok, o := is(x, y); ok {
					return o, true
				}
				ok, o := is(y, x)
				return o, ok
			}
			s.override = func(in ssa.Instruction, get func(ssa.Value) *aval) *aval {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || call.Call.StaticCallee().String() != "strings.EqualFold" {
					return nil
				}
				a, b := get(call.Call.Args[0]), get(call.Call.Args[1])
				if a == nil || b == nil {
					return nil
				}
				if o, ok := s.order(a.symbol(), b.symbol()); ok {
					return boolLit(o == 0)
				}
				return nil
			}
			arg := func(i int, n string) *aval {
				if _, ok := fn.Params[i].Type().Underlying().(*types.Pointer); ok {
					return &aval{sym: n}
				}
				return &aval{sym: n, dyn: c.desc}
			}
			res, _ := s.run(fn, []*aval{arg(0, "l$"), arg(1, "r$")})
			c.r.count("evaluations", 1)
			return truth(res[0])
		}
		if b, ok := eval(""); ok && !b {
			c.r.find("equality", fname(fn), c.p.pos(fn.Pos()), "%s is false for descriptions with equal fields", fname(fn))
		} else if !ok {
			c.r.count("undecided", 1)
		}
		for _, f := range append(c.fields(), "SizeIsAbsolute") {
			if b, ok := eval(f); ok && b {
				c.r.find("equality", fname(fn)+" "+f, c.p.pos(fn.Pos()), "%s is true for descriptions whose field %s differs", fname(fn), f)
			} else if !ok {
				c.r.count("undecided", 1)
			}
		}
	}
}

// text: the fields are printed.
func (c *descCheck) text() {
	c.r.rule("text: the value of each field flows to the text of the description; the text of each value of the enumerated fields, read back, gives this value")
	fn := c.p.lookupFunc("pango", "FontDescription.String")
	if fn == nil {
		return
	}
	for _, f := range append(c.fields(), "SizeIsAbsolute") {
		c.r.count("fields printed", 1)
		var loads []ssa.Value
		c.p.eachInstr(fn, func(in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.UnOp:
				if g, ok := c.field(in.X); ok && in.Op == token.MUL && g == f {
					loads = append(loads, in)
				}
			case *ssa.Field:
				if types.Identical(in.X.Type(), c.desc) && c.st.Field(in.Field).Name() == f {
					loads = append(loads, in)
				}
			}
		})
		if len(loads) == 0 && c.readAnywhere(fn, f) == 0 {
			c.r.find("text", f, c.p.pos(fn.Pos()), "the field %s is not part of the text returned by %s", f, fname(fn))
		}
		if f == "SizeIsAbsolute" {
			continue // which changes the unit
		}
		if len(loads) > 0 && !reachesReturn(loads) {
			c.r.find("text", f, c.p.pos(fn.Pos()), "the field %s is read by %s, but is not part of the text returned", f, fname(fn))
		}
	}
	reader := c.wordReader()
	if reader == nil {
		return
	}
	printed := func(loads map[string]*aval) (out map[string]bool) {
		out = map[string]bool{}
		add := func(a *aval) {
			if x, ok := a.constant().s(); ok {
				out[x] = true
			}
		}
		c.run(fn, []*aval{{sym: "d$", dyn: c.desc}}, loads, func(s *sccp) {
			s.visit = func(in ssa.Instruction, get func(ssa.Value) *aval) {
				if in.Parent() != fn {
					return
				}
				switch in := in.(type) {
				case *ssa.Store:
					if _, ok := in.Addr.(*ssa.IndexAddr); ok {
						add(get(in.Val))
					}
				case *ssa.Call:
					for _, a := range in.Call.Args {
						if isBasicT(types.IsString)(a.Type()) {
							add(get(a))
						}
					}
				}
			}
		})
		return out
	}
	normal := map[string]*aval{"." + c.mask: c.maskLit(c.all)}
	for f, e := range c.enums {
		normal["."+f] = intLit(c.fieldType(f), e["normal"])
	}
	normal[".Gravity"] = intLit(c.fieldType("Gravity"), 0)
	base := printed(normal)
	for _, f := range c.fields() {
		e := c.enums[f]
		if e == nil {
			continue
		}
		byValue := map[int64]bool{}
		for _, v := range e {
			byValue[v] = true
		}
		for v := range byValue {
			if v == e["normal"] && f != "Gravity" {
				continue
			}
			loads := map[string]*aval{}
			for k, x := range normal {
				loads[k] = x
			}
			loads["."+f] = intLit(c.fieldType(f), v)
			var words []string
			for w := range printed(loads) {
				if !base[w] && w != "" {
					words = append(words, w)
				}
			}
			if len(words) != 1 {
				continue
			}
			c.r.count("values printed", 1)
			c.word(reader, words[0], f, v, fmt.Sprintf("the text %q of the value %d of the field %s", words[0], v, f))
		}
	}
}

func (c *descCheck) fieldType(f string) types.Type {
	for i := 0; i < c.st.NumFields(); i++ {
		if c.st.Field(i).Name() == f {
			return c.st.Field(i).Type()
		}
	}
	return nil
}

// readAnywhere counts the reads of a field by fn and the functions it calls; a description used as a whole is read.
func (c *descCheck) readAnywhere(fn *ssa.Function, f string) (n int) {
	for g := range c.p.reachable([]*ssa.Function{fn}, true) {
		given := g == fn
		for _, prm := range g.Params {
			given = given || types.Identical(prm.Type(), c.desc)
		}
		if !given {
			continue // about another description
		}
		c.p.eachInstr(g, func(in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.UnOp:
				if x, ok := c.field(in.X); ok && in.Op == token.MUL && x == f {
					n++
				}
			case *ssa.Field:
				if types.Identical(in.X.Type(), c.desc) && c.st.Field(in.Field).Name() == f {
					n++
				}
			case *ssa.MakeInterface:
				if types.Identical(in.X.Type(), c.desc) {
					n++
				}
			}
		})
	}
	return n
}

// hash: a description used as a key.
func (c *descCheck) hash() {
	c.r.rule("hash: the key made from a description does not depend on its flags, nor on the case of the family, and keeps the other fields")
	fn := c.p.lookupFunc("pango", "FontDescription.AsHash")
	if fn == nil || fn.Signature.Results().Len() != 1 || !types.Identical(fn.Signature.Results().At(0).Type(), c.desc) {
		return
	}
	loads := map[string]*aval{}
	c.content(loads, "dst", c.all, func(string) int { return 1 })
	// the result is a copy of the receiver, whose fields are assigned
	returned := map[*ssa.Alloc]bool{}
	ok := true
	c.p.eachInstr(fn, func(in ssa.Instruction) {
		if ret, isRet := in.(*ssa.Return); isRet {
			var al *ssa.Alloc
			if ld, isLoad := ret.Results[0].(*ssa.UnOp); isLoad {
				al, _ = ld.X.(*ssa.Alloc)
			}
			if al == nil {
				ok = false
			} else {
				returned[al] = true
			}
		}
	})
	if !ok || len(returned) != 1 {
		return
	}
	values := map[string]*aval{}
	c.run(fn, []*aval{{sym: "dst", dyn: c.desc}}, loads, func(s *sccp) {
		visit := s.visit
		s.visit = func(in ssa.Instruction, get func(ssa.Value) *aval) {
			visit(in, get)
			st, isStore := in.(*ssa.Store)
			if !isStore {
				return
			}
			if al, isAlloc := st.Addr.(*ssa.Alloc); isAlloc && returned[al] {
				ok = ok && st.Val == ssa.Value(fn.Params[0])
			}
			if f, isField := c.field(st.Addr); isField {
				if al, isAlloc := st.Addr.(*ssa.FieldAddr).X.(*ssa.Alloc); isAlloc && returned[al] {
					values[f] = get(st.Val)
				}
			}
		}
	})
	if !ok {
		return
	}
	c.r.count("hash", 1)
	if k, isInt := values[c.mask].constant().i(); values[c.mask] == nil || isInt && k != 0 {
		c.r.find("hash", "flags", c.p.pos(fn.Pos()), "the key made by %s depends on the flags of the description", fname(fn))
	}
	if values["FamilyName"] == nil {
		c.r.find("hash", "family", c.p.pos(fn.Pos()), "the key made by %s depends on the case of the family", fname(fn))
	} else if x, isText := values["FamilyName"].constant().s(); isText && x != "aa" && x != "AA" {
		c.r.find("hash", "family", c.p.pos(fn.Pos()), "the key made by %s for the family Aa has the family %q", fname(fn), x)
	}
	for f, v := range values {
		if f != c.mask && f != "FamilyName" && v.constant() != nil && v.constant().C != nil && v.constant().C.ExactString() != c.text1(f, 1) {
			c.r.find("hash", f, c.p.pos(fn.Pos()), "the key made by %s does not have the field %s of the description", fname(fn), f)
		}
	}
}

// reachesReturn: one of the values flows to a result of its function.
func reachesReturn(work []ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	push := func(v ssa.Value) {
		if v != nil && !seen[v] {
			work = append(work, v)
		}
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[v] || v.Referrers() == nil {
			continue
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.Return:
				return true
			case *ssa.Store:
				if u.Val == v {
					a := u.Addr
					for {
						switch x := a.(type) {
						case *ssa.IndexAddr:
							a = x.X
							continue
						case *ssa.FieldAddr:
							a = x.X
							continue
						}
						break
					}
					push(a)
				}
			case *ssa.Call:
				push(u)
				for _, a := range u.Call.Args {
					if _, ok := a.Type().Underlying().(*types.Pointer); ok && a != v {
						push(a)
					}
				}
			case ssa.Value:
				push(u)
			}
		}
	}
	return false
}

// wordReader finds the function setting the field a word stands for.
func (c *descCheck) wordReader() *ssa.Function {
	assigned := func(fn *ssa.Function) int {
		n := map[string]bool{}
		for f := range c.p.reachable([]*ssa.Function{fn}, true) {
			c.p.eachInstr(f, func(in ssa.Instruction) {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := c.field(st.Addr); ok {
						n[g] = true
					}
				}
			})
		}
		return len(n)
	}
	for _, fn := range c.p.Funcs {
		if fn.Pkg != c.p.ssaPkg("pango") || len(fn.Params) != 2 || fn.Signature.Results().Len() != 1 || !isBasicT(types.IsBoolean)(fn.Signature.Results().At(0).Type()) {
			continue
		}
		pt, ok := fn.Params[0].Type().Underlying().(*types.Pointer)
		if !ok || !types.Identical(pt.Elem(), c.desc) || !isBasicT(types.IsString)(fn.Params[1].Type()) {
			continue
		}
		if assigned(fn) >= 5 {
			return fn
		}
	}
	return nil
}

// word checks that the reader gives to the field f the value v when it reads a word.
func (c *descCheck) word(fn *ssa.Function, word, f string, v int64, what string) {
	sts, res, lost := c.run(fn, []*aval{{sym: "dst"}, {l: &lit{T: fn.Params[1].Type(), C: constant.MakeString(word)}}}, map[string]*aval{"dst." + c.mask: c.maskLit(0)}, nil)
	c.r.count("words", 1)
	known, ok := truth(res[0])
	if lost || !ok && len(sts) > 1 {
		c.r.count("undecided", 1)
		c.r.sample("not decided: %s", what)
		return
	}
	if ok && !known {
		c.r.find("word", word, c.p.pos(fn.Pos()), "%s is not understood by %s", what, fname(fn))
		return
	}
	found, undecided := false, false
	for _, st := range sts {
		switch {
		case st.base != "dst" || st.field == c.mask:
		case st.field != f:
			if f != "" {
				c.r.find("word", word+" "+st.field, c.p.pos(fn.Pos()), "%s is read as a value of the field %s", what, st.field)
			}
		default:
			k, ok := st.v.constant().i()
			undecided = undecided || !ok
			if ok && k != v {
				c.r.find("word", word+" value", c.p.pos(fn.Pos()), "%s is read as the value %d", what, k)
			}
			found = true
		}
	}
	if !found && !undecided && f != "" {
		c.r.find("word", word+" field", c.p.pos(fn.Pos()), "%s does not set this field", what)
	}
}

// words: the words documented are understood.
func (c *descCheck) words() {
	c.r.rule("words: each documented word of a description sets the field it belongs to, to its value")
	fn := c.wordReader()
	if fn == nil {
		return
	}
	gravity := map[string]int64{"Not-Rotated": 0, "South": 0, "Upside-Down": 2, "North": 2, "Rotated-Left": 1, "East": 1, "Rotated-Right": 3, "West": 3}
	for _, f := range c.fields() {
		e := c.enums[f]
		if f == "Gravity" {
			e = gravity
		}
		for w, v := range e {
			if w == "normal" {
				continue
			}
			for _, x := range []string{w, strings.Title(w), strings.ReplaceAll(w, "-", "")} {
				c.word(fn, x, f, v, fmt.Sprintf("the word %q of the field %s", x, f))
			}
		}
	}
	c.word(fn, "Normal", "", 0, "the word Normal")
	c.word(fn, "weight=450", "Weight", 450, "the text of the weight 450")
}

// patterns: descriptions and patterns of fontconfig.
func (c *descCheck) patterns() {
	c.r.rule("patterns: the functions of fcfonts building a pattern from a description, and a description from a pattern, are evaluated for each value of the enumerated fields: both sides are those of the fontconfig reference, so that the translations are inverse")
	object := c.p.named("fontconfig", "Object")
	fcScope := c.p.pkg("fontconfig").Types.Scope()
	value := func(n string) int64 {
		o, _ := fcScope.Lookup(n).(*types.Const)
		if o == nil {
			return -1
		}
		k, _ := (&lit{C: o.Val()}).i()
		return k
	}
	toFC := map[string]map[int64]float64{"Style": {0: 0, 1: 110, 2: 100}, "Stretch": {0: 50, 1: 63, 2: 75, 3: 87, 4: 100, 5: 113, 6: 125, 7: 150, 8: 200},
		"Weight": {100: 0, 200: 40, 300: 50, 350: 55, 380: 75, 400: 80, 500: 100, 600: 180, 700: 200, 800: 205, 900: 210, 1000: 215}}
	property := map[string]int64{"Style": value("SLANT"), "Stretch": value("WIDTH"), "Weight": value("WEIGHT")}
	features := map[int64][]string{0: {}, 1: {"smcp=1"}, 2: {"smcp=1", "c2sc=1"}, 3: {"pcap=1"}, 4: {"pcap=1", "c2pc=1"}, 5: {"unic=1"}, 6: {"titl=1"}}
	isPattern := func(t types.Type) bool { return typeName(t) == "fontconfig.Pattern" }
	// the values added to a pattern, for each object
	added := func(in ssa.Instruction, get func(ssa.Value) *aval) (obj int64, v *aval, ok bool) {
		switch in := in.(type) {
		case *ssa.Call:
			f := in.Call.StaticCallee()
			if f == nil || !strings.HasPrefix(f.Name(), "Add") || len(in.Call.Args) < 3 || !isPattern(in.Call.Args[0].Type()) {
				return 0, nil, false
			}
			obj, ok = get(in.Call.Args[1]).constant().i()
			return obj, get(in.Call.Args[2]), ok
		case *ssa.Store:
			fa, isField := in.Addr.(*ssa.FieldAddr)
			if !isField || typeName(fa.X.Type().Underlying().(*types.Pointer).Elem()) != "fontconfig.PatternElement" || types.Identical(in.Val.Type(), object) {
				return 0, nil, false
			}
			// the object of the same element
			for _, u := range *fa.X.Referrers() {
				fb, isField := u.(*ssa.FieldAddr)
				if !isField || fb.Field == fa.Field {
					continue
				}
				for _, w := range *fb.Referrers() {
					if st, isStore := w.(*ssa.Store); isStore && st.Addr == fb {
						obj, ok = get(st.Val).constant().i()
					}
				}
			}
			return obj, get(in.Val), ok
		}
		return 0, nil, false
	}
	for _, fn := range c.p.Funcs {
		if fn.Pkg != c.p.ssaPkg("pango/fcfonts") {
			continue
		}
		reads, writes, builds, gets := false, false, false, false
		c.p.eachInstr(fn, func(in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.UnOp:
				if _, ok := c.field(in.X); ok && in.Op == token.MUL {
					reads = true
				}
			case *ssa.Field:
				reads = reads || types.Identical(in.X.Type(), c.desc)
			case *ssa.Call:
				f := in.Call.StaticCallee()
				if f == nil {
					return
				}
				if f.Signature.Recv() != nil && strings.HasPrefix(f.Name(), "Set") && types.Identical(f.Signature.Recv().Type(), types.NewPointer(c.desc)) {
					writes = true
				}
				if f.Signature.Recv() != nil && isPattern(f.Signature.Recv().Type()) {
					builds = builds || strings.HasPrefix(f.Name(), "Add")
					gets = gets || strings.HasPrefix(f.Name(), "Get")
				}
			}
		})
		if reads && builds {
			c.r.count("functions building patterns", 1)
			for _, f := range c.fields() {
				for v, want := range toFC[f] {
					c.run(fn, nil, map[string]*aval{"." + f: intLit(c.fieldType(f), v)}, func(s *sccp) {
						s.visit = func(in ssa.Instruction, get func(ssa.Value) *aval) {
							obj, x, ok := added(in, get)
							if !ok || obj != property[f] {
								return
							}
							c.r.count("values translated", 1)
							if got, ok := x.constant().f(); ok && got != want {
								c.r.find("pattern", fmt.Sprint(f, v), c.p.pos(in.Pos()), "the %s %d is given to the pattern as %v instead of %v", strings.ToLower(f), v, got, want)
							} else if !ok {
								c.r.count("undecided", 1)
								c.r.sample("not decided: %s %d given to the pattern", f, v)
							}
						}
					})
				}
			}
			for v, want := range features {
				var got []string
				undecided := false
				_, _, lost := c.run(fn, nil, map[string]*aval{".Variant": intLit(c.fieldType("Variant"), v)}, func(s *sccp) {
					s.visit = func(in ssa.Instruction, get func(ssa.Value) *aval) {
						if in.Parent().Pkg != fn.Pkg {
							return
						}
						if obj, x, ok := added(in, get); ok && obj == value("FONT_FEATURES") {
							str, ok := x.constant().s()
							undecided = undecided || !ok
							got = append(got, str)
						} else if call, isCall := in.(*ssa.Call); isCall && !ok && call.Call.StaticCallee() != nil && len(call.Call.Args) > 1 && types.Identical(call.Call.Args[1].Type(), object) {
							undecided = true
						}
					}
				})
				c.r.count("values translated", 1)
				if undecided || lost {
					continue
				}
				sort.Strings(got)
				w := append([]string{}, want...)
				sort.Strings(w)
				if strings.Join(got, " ") != strings.Join(w, " ") {
					c.r.find("pattern", fmt.Sprint("Variant", v), c.p.pos(fn.Pos()), "the variant %d is given to the pattern as the features %q instead of %q", v, got, w)
				}
			}
		}
		if writes && gets {
			c.r.count("functions reading patterns", 1)
			for _, f := range c.fields() {
				for v, fc := range toFC[f] {
					asked := false
					sts, _, lost := c.run(fn, nil, nil, func(s *sccp) {
						former := s.override
						s.override = func(in ssa.Instruction, get func(ssa.Value) *aval) *aval {
							call, ok := in.(*ssa.Call)
							if !ok || len(call.Call.Args) != 2 || call.Call.StaticCallee() == nil || !isPattern(call.Call.Args[0].Type()) || !types.Identical(call.Call.Args[1].Type(), object) {
								return former(in, get)
							}
							o := get(call.Call.Args[1])
							if o == nil {
								return waiting
							}
							res := call.Call.StaticCallee().Signature.Results()
							if k, ok := o.constant().i(); !ok || k != property[f] || res.Len() != 2 || !isBasicT(types.IsNumeric)(res.At(0).Type()) {
								return former(in, get)
							}
							asked = true
							return &aval{tuple: []*aval{{l: &lit{T: res.At(0).Type(), C: constant.MakeFloat64(fc)}}, boolLit(true)}}
						}
					})
					if !asked || lost {
						continue
					}
					c.r.count("values translated", 1)
					decided := false
					for _, st := range sts {
						_, ok := st.v.constant().i()
						decided = decided || ok && st.field == f
					}
					for _, st := range sts {
						if st.field != f {
							continue
						}
						if k, ok := st.v.constant().i(); ok && k != v {
							c.r.find("pattern", fmt.Sprint("read ", f, v), c.p.pos(fn.Pos()), "the %s %v of a pattern is read as %d instead of %d", strings.ToLower(f), fc, k, v)
						} else if !ok && !decided {
							c.r.count("undecided", 1)
							c.r.sample("not decided: %s %v read from the pattern: %s at %s", f, fc, describeAval(st.v), c.p.pos(st.pos))
						}
					}
				}
			}
		}
	}
	c.r.need("values translated", c.r.Counts["values translated"], 20)
}

// typedReads: the accessors used for each property accept the types of values it may hold.
func (p *Program) typedReads(r *Report) {
	r.rule("typed reads: the accessor used to read a property accepts all the types of values this property accepts (intervals excepted)")
	v := p.vocab()
	for _, fn := range p.Funcs {
		p.eachInstr(fn, func(in ssa.Instruction) {
			call, ok := in.(*ssa.Call)
			if !ok || len(call.Call.Args) != 2 {
				return
			}
			f := call.Call.StaticCallee()
			k, isConst := call.Call.Args[1].(*ssa.Const)
			if f == nil || !isConst || f.Signature.Recv() == nil || typeName(f.Signature.Recv().Type()) != "fontconfig.Pattern" || !types.Identical(k.Type(), v.object) {
				return
			}
			n := v.name[k.Int64()]
			o, known := v.Objects[n]
			if !known {
				return
			}
			accepted := map[string]bool{}
			for g := range p.reachable([]*ssa.Function{f}, true) {
				p.eachInstr(g, func(in ssa.Instruction) {
					if ta, ok := in.(*ssa.TypeAssert); ok && types.Identical(ta.X.Type().Underlying(), v.value) && !types.IsInterface(ta.AssertedType) {
						accepted[bareName(ta.AssertedType)] = true
					}
				})
			}
			if len(accepted) == 0 {
				return
			}
			r.count("typed reads", 1)
			for _, t := range v.Accepts[o.Type] {
				if !accepted[t] && t != "Range" {
					r.find("typed read", n+" "+fname(fn), p.pos(in.Pos()), "the property %s is read with %s, which ignores its values of type %s", n, f.Name(), t)
				}
			}
		})
	}
}
