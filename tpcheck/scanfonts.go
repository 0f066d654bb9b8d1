package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C25: the sets of fonts returned by the scans and the listings hold exactly the fonts they should.

func init() {
	register("C25", "scans and listings keep exactly the fonts they should", runC25)
}

type scans struct {
	p         *Program
	r         *Report
	w         *wire // its helpers on loops
	cfg       *types.Named
	set       *types.Named
	pat       *types.Named
	fonts     map[*ssa.Function]bool // selectors of fonts: of a configuration and a pattern
	files     map[*ssa.Function]bool // selectors of files: of a configuration and a name
	nameRules map[*ssa.Function]bool // selectors of files by their name only
	match     map[*ssa.Function]int  // a pattern is matched by another one: the parameter whose properties are all required
	said      map[string]bool
}

// sframe is a call being followed.
type sframe struct {
	fn   *ssa.Function
	call *ssa.Call
	up   *sframe
}

// addition is an element put in a set.
type addition struct {
	call *ssa.Call // append
	elem ssa.Value
	fr   *sframe
}

// origin of the elements of a set.
type origin struct {
	adds    []addition
	unknown bool
	seen    map[string]bool
}

func runC25(p *Program, r *Report) {
	c := &scans{p: p, r: r, fonts: map[*ssa.Function]bool{}, files: map[*ssa.Function]bool{}, nameRules: map[*ssa.Function]bool{}, match: map[*ssa.Function]int{}, said: map[string]bool{}}
	c.w = &wire{p: p, r: r, loopsOf: map[*ssa.Function][]*loop{}}
	c.cfg, c.set, c.pat = p.named("fontconfig", "Config"), p.named("fontconfig", "Fontset"), p.named("fontconfig", "Pattern")
	if c.cfg == nil || c.set == nil || c.pat == nil {
		r.find("roles", "types", "fontconfig", "the types of configurations, sets of fonts and patterns are not found")
		return
	}
	c.selectors()
	c.matchers()
	c.selection()
	c.lists()
	var scanned []*ssa.Function
	for _, fn := range p.exportedFuncs("fontconfig") {
		res := fn.Signature.Results()
		if fn.Signature.Recv() == nil || res.Len() == 0 || !types.Identical(res.At(0).Type(), c.set) {
			continue
		}
		switch {
		case c.isCfg(fn.Signature.Recv().Type()) && strings.HasPrefix(fn.Name(), "Scan"):
			scanned = append(scanned, fn)
			c.scan(fn)
		case types.Identical(fn.Signature.Recv().Type(), c.set) && c.queryParam(fn) != nil:
			c.listing(fn)
		}
	}
	c.opened(scanned)
	c.instances()
	r.need("scans", r.Counts["scans"], 3)
}

func (c *scans) isCfg(t types.Type) bool {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	return types.Identical(t, c.cfg)
}

func (c *scans) report(rule, key string, pos token.Pos, f string, args ...interface{}) {
	if c.said[rule+key] {
		return
	}
	c.said[rule+key] = true
	c.r.find(rule, key, c.p.pos(pos), f, args...)
}

// selectors finds the functions saying whether the configuration accepts a font, or a file.
func (c *scans) selectors() {
	for _, fn := range c.p.Funcs {
		if fn.Pkg != c.p.ssaPkg("fontconfig") || fn.Parent() != nil || fn.Signature.Results().Len() != 1 || !isBasicT(types.IsBoolean)(fn.Signature.Results().At(0).Type()) {
			continue
		}
		cfg, pat, str := 0, 0, 0
		for _, q := range fn.Params {
			switch t := q.Type(); {
			case c.isCfg(t):
				cfg++
			case types.Identical(t, c.pat):
				pat++
			case isBasicT(types.IsString)(t):
				str++
			}
		}
		if len(fn.Params) == 1 && str == 1 {
			if c.hidden(fn) {
				c.nameRules[fn] = true
			}
			continue
		}
		if cfg != 1 || len(fn.Params) != 2 {
			continue
		}
		sets, maps := false, false
		for g := range c.p.reachable([]*ssa.Function{fn}, true) {
			c.p.eachInstr(g, func(in ssa.Instruction) {
				if fa, ok := in.(*ssa.FieldAddr); ok && c.isCfg(fa.X.Type()) {
					t := fa.Type().Underlying().(*types.Pointer).Elem()
					if types.Identical(t, c.set) {
						sets = true
					} else if m, ok := t.Underlying().(*types.Map); ok && isBasicT(types.IsString)(m.Key()) {
						maps = true
					}
				}
			})
		}
		if pat == 1 && sets {
			c.fonts[fn] = true
		} else if str == 1 && maps {
			c.files[fn] = true
		}
	}
	c.r.count("font selectors", len(c.fonts))
	c.r.count("file selectors", len(c.files))
	c.r.rule("the functions of a configuration and a pattern (a file name) giving a boolean, which read its lists of patterns (of globs), select the fonts (the files)")
}

// hidden: fn rejects a name by its first byte, a dot.
func (c *scans) hidden(fn *ssa.Function) bool {
	found := false
	c.p.eachInstr(fn, func(in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.BinOp:
			if in.Op == token.EQL || in.Op == token.NEQ {
				if isIntConst(in.Y, '.') || isIntConst(in.X, '.') {
					found = true
				}
			}
		case *ssa.Call:
			if strings.HasPrefix(calleeName(in), "strings.HasPrefix") && len(in.Call.Args) == 2 {
				if k, ok := in.Call.Args[1].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == "." {
					found = true
				}
			}
		}
	})
	return found
}

// matchers finds the functions saying that a pattern has all the properties of another one.
func (c *scans) matchers() {
	for _, fn := range c.p.Funcs {
		if fn.Pkg != c.p.ssaPkg("fontconfig") || fn.Parent() != nil || len(fn.Params) != 2 || fn.Signature.Results().Len() != 1 || !isBasicT(types.IsBoolean)(fn.Signature.Results().At(0).Type()) {
			continue
		}
		if !types.Identical(fn.Params[0].Type(), c.pat) || !types.Identical(fn.Params[1].Type(), c.pat) {
			continue
		}
		at := -1
		var rg *ssa.Range
		c.p.eachInstr(fn, func(in ssa.Instruction) {
			if x, ok := in.(*ssa.Range); ok {
				for i, q := range fn.Params {
					if x.X == ssa.Value(q) {
						at, rg = i, x
					}
				}
			}
		})
		if at < 0 {
			continue
		}
		// lists of values compared, from one pattern and from the other: not an equality
		var sub *ssa.Call
		c.p.eachInstr(fn, func(in ssa.Instruction) {
			if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() != nil && inModule(call.Call.StaticCallee()) && len(call.Call.Args) == 2 && isBasicT(types.IsBoolean)(call.Type()) {
				sub = call
			}
		})
		if sub == nil || rg == nil {
			continue
		}
		c.match[fn] = at
		c.r.count("matchers", 1)
		c.everyProperty(fn, sub)
	}
}

// decidesEarly is a constant result which the body of the loop gives before its end.
func (c *scans) decidesEarly(fn *ssa.Function, l *loop, val bool) *ssa.Return {
	live := c.p.liveBlocks(fn)
	for b := range l.body {
		if b == l.header {
			continue
		}
		for _, s := range b.Succs {
			if l.body[s] || !live[s] {
				continue
			}
			// leaving the loop from inside
			from, x := b, s
			for i := 0; i < 4; i++ {
				if ret, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok {
					v := retVal(ret, 0)
					if phi, ok := v.(*ssa.Phi); ok && phi.Block() == x {
						for j, q := range x.Preds {
							if q == from {
								v = phi.Edges[j]
							}
						}
					}
					if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) == val {
						return ret
					}
					break
				}
				var next *ssa.BasicBlock
				n := 0
				for _, y := range x.Succs {
					if live[y] {
						next = y
						n++
					}
				}
				if n != 1 {
					break
				}
				from, x = x, next
			}
		}
	}
	return nil
}

// around is the end of a step of the loop which does not go through the block.
func (c *scans) around(l *loop, avoid *ssa.BasicBlock, exempt func(b *ssa.BasicBlock, s int) bool) *ssa.BasicBlock {
	live := c.p.liveBlocks(avoid.Parent())
	seen := map[*ssa.BasicBlock]bool{avoid: true}
	var visit func(b *ssa.BasicBlock) *ssa.BasicBlock
	visit = func(b *ssa.BasicBlock) *ssa.BasicBlock {
		seen[b] = true
		for i, s := range b.Succs {
			if !live[s] || !l.body[s] || exempt(b, i) {
				continue
			}
			if s == l.header {
				return b
			}
			if !seen[s] {
				if x := visit(s); x != nil {
					return x
				}
			}
		}
		return nil
	}
	if seen[l.header] {
		return nil
	}
	return visit(l.header)
}

// everyProperty: each property required is looked for, and each of its values.
func (c *scans) everyProperty(fn *ssa.Function, sub *ssa.Call) {
	ls := c.w.enclosing(fn, sub.Block())
	if len(ls) != 1 {
		return
	}
	c.r.rule("every: a font matches a pattern only if each value of each property of the pattern is one of the font; the loops deciding it do not give their result before")
	if ret := c.decidesEarly(fn, ls[0], true); ret != nil {
		c.report("every", fname(fn), ret.Pos(), "%s: a font matches as soon as one property of the pattern does, whatever the others", fname(fn))
	}
	if b := c.around(ls[0], sub.Block(), func(b *ssa.BasicBlock, s int) bool {
		cv, tr := edgeCond(b, s)
		for _, f := range condFacts(cv, tr) {
			for _, v := range []ssa.Value{f.x, f.y} {
				if !f.eq {
					continue
				}
				if ex, ok := v.(*ssa.Extract); ok && ex.Index == 1 {
					if _, ok := ex.Tuple.(*ssa.Next); ok {
						return true // a property which fonts do not have
					}
				}
			}
		}
		return false
	}); b != nil {
		c.report("every", fname(fn)+" skipped", c.first(b), "%s: a property of the pattern may be ignored", fname(fn))
	}
	g := sub.Call.StaticCallee()
	if len(g.Params) != 2 || !types.Identical(g.Params[0].Type(), g.Params[1].Type()) {
		return
	}
	// the list of the query
	query := -1
	for i, a := range sub.Call.Args {
		if u, ok := a.(*ssa.UnOp); ok {
			a = u.X
		}
		if ex, ok := a.(*ssa.Extract); ok {
			if _, ok := ex.Tuple.(*ssa.Next); ok {
				query = i
			}
		}
	}
	if query < 0 {
		return
	}
	// the comparison of two values
	var cmp *ssa.Call
	n := 0
	c.p.eachInstr(g, func(in ssa.Instruction) {
		if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() != nil && inModule(call.Call.StaticCallee()) && len(call.Call.Args) == 3 && isBasicT(types.IsBoolean)(call.Type()) {
			cmp = call
			n++
		}
	})
	if n != 1 {
		return
	}
	ls = c.w.enclosing(g, cmp.Block())
	if len(ls) != 2 {
		return
	}
	listOf := func(v ssa.Value) int {
		for i := 0; i < 8; i++ {
			switch x := v.(type) {
			case *ssa.UnOp:
				v = x.X
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.Field:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			case *ssa.Alloc:
				st := onlyWhole(x)
				if st == nil {
					return -1
				}
				v = st
			case *ssa.Parameter:
				for j, q := range g.Params {
					if q == x {
						return j
					}
				}
				return -1
			default:
				return -1
			}
		}
		return -1
	}
	first, last := listOf(cmp.Call.Args[0]), listOf(cmp.Call.Args[2])
	if first >= 0 && last >= 0 && first != last {
		c.r.count("comparisons of lists", 1)
		if first == query {
			c.report("every", fname(g)+" direction", cmp.Pos(), "%s: the comparison asks that the value of the pattern contains the one of the font, not the reverse", fname(g))
		}
	}
	// which list is the outer loop on
	outer := -1
	for b := range ls[0].body {
		if ls[1].body[b] {
			continue
		}
		for _, in := range b.Instrs {
			if ia, ok := in.(*ssa.IndexAddr); ok {
				if i := listOf(ia); i >= 0 {
					outer = i
				}
			}
		}
	}
	if outer >= 0 && outer != query {
		return // another way to decide it
	}
	if ret := c.decidesEarly(g, ls[0], true); ret != nil && outer == query {
		c.report("every", fname(g)+" any", ret.Pos(), "%s: the values match as soon as one of the pattern does, whatever the others", fname(g))
	}
	if ret := c.decidesEarly(g, ls[1], false); ret != nil && outer == query {
		c.report("every", fname(g)+" one", ret.Pos(), "%s: a value of the pattern is compared with the first one of the font only", fname(g))
	}
}

// selection: the fonts and files accepted explicitly are accepted, then those rejected explicitly are not.
func (c *scans) selection() {
	c.r.rule("selection: the selectors are evaluated supposing that an entry of the accepted list, of the rejected list, both or none matches: accepted whenever the first does, rejected if only the second does, accepted otherwise")
	for fn := range c.fonts {
		c.selector(fn)
	}
	for fn := range c.files {
		c.selector(fn)
	}
}

// listKind is 1 for a field holding what is accepted, 2 for what is rejected.
func listKind(name string) int {
	name = strings.ToLower(name)
	i := strings.LastIndexByte(name, '.')
	switch a, b := strings.Contains(name[i+1:], "accept"), strings.Contains(name[i+1:], "reject"); {
	case a && !b:
		return 1
	case b && !a:
		return 2
	}
	return 0
}

func (c *scans) selector(fn *ssa.Function) {
	// each test is made once on each list
	kindOf := func(a *aval) int {
		if s := a.symbol(); s != "" && !strings.ContainsAny(s, "([ ") {
			return listKind(s)
		}
		return 0
	}
	for _, cs := range [][4]bool{{true, false, true, true}, {true, false, true, false}, {true, true, true, true}, {false, true, true, true}, {false, true, false, true}, {false, false, false, false}, {false, false, true, false}, {false, false, false, true}, {false, false, true, true}} {
		cas := [2]bool{cs[0], cs[1]}
		s := &sccp{t: c.p.tables()}
		known := true
		tests := 0
		s.override = func(in ssa.Instruction, get func(ssa.Value) *aval) *aval {
			call, ok := in.(*ssa.Call)
			if !ok {
				return nil
			}
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				v := get(call.Call.Args[0])
				if v == nil {
					return waiting
				}
				if k := kindOf(v); k != 0 {
					n := int64(0)
					if cs[1+k] {
						n = 2
					}
					return intLit(types.Typ[types.Int], n)
				}
			}
			if !isBasicT(types.IsBoolean)(call.Type()) {
				return nil
			}
			kind := 0
			for _, a := range call.Call.Args {
				v := get(a)
				if v == nil {
					return waiting
				}
				if k := kindOf(v); k != 0 {
					if kind != 0 && kind != k {
						known = false
					}
					kind = k
				}
			}
			if kind == 0 {
				return nil
			}
			tests |= kind
			return boolLit(cas[kind-1])
		}
		var args []*aval
		for _, q := range fn.Params {
			args = append(args, &aval{sym: q.Name() + "$"})
		}
		_, all := s.run(fn, args)
		if !known || len(all) == 0 || tests == 0 {
			return
		}
		want := cas[0] || !cas[1]
		decided, wrong := false, false
		for _, ret := range all {
			got, ok := truth(ret[0])
			if !ok {
				return
			}
			decided = true
			if got != want {
				wrong = true
			}
		}
		if decided && !wrong {
			c.r.count("selections decided", 1)
		}
		if decided && wrong && len(all) == 1 || wrong && decided && c.same(all) {
			when := map[[2]bool]string{{true, false}: "accepted by the configuration only", {true, true}: "both accepted and rejected by the configuration", {false, true}: "rejected by the configuration", {false, false}: "neither accepted nor rejected by the configuration"}[cas]
			c.report("selection", fname(fn)+" "+when, fn.Pos(), "%s: what is %s is %s", fname(fn), when, map[bool]string{true: "rejected", false: "accepted"}[want])
		}
	}
	c.anyEntry(fn)
	// the pattern of the configuration is the one whose properties are required
	for g := range c.p.reachable([]*ssa.Function{fn}, true) {
		if g != fn && g.Parent() != fn {
			continue
		}
		c.p.eachInstr(g, func(in ssa.Instruction) {
			call, ok := in.(*ssa.Call)
			if !ok || call.Call.StaticCallee() == nil {
				return
			}
			at, ok := c.match[call.Call.StaticCallee()]
			if !ok {
				return
			}
			c.r.count("selections by pattern", 1)
			other := call.Call.Args[1-at]
			if c.inSet(other) && !c.inSet(call.Call.Args[at]) {
				c.report("selection", fname(fn)+" direction", call.Pos(), "%s: the properties of the font are looked for in the pattern of the configuration, not the reverse", fname(fn))
			}
		})
	}
}

// anyEntry: each entry of a list is tried.
func (c *scans) anyEntry(fn *ssa.Function) {
	c.r.rule("any: a list of selectors matches when one of its entries does; the loop over the entries does not give up before the last one")
	for g := range c.p.reachable([]*ssa.Function{fn}, true) {
		if g == fn || g.Signature.Results().Len() != 1 || !isBasicT(types.IsBoolean)(g.Signature.Results().At(0).Type()) {
			continue
		}
		entries := false
		for _, q := range g.Params {
			if types.Identical(q.Type(), c.set) {
				entries = true
			} else if m, ok := q.Type().Underlying().(*types.Map); ok && isBasicT(types.IsString)(m.Key()) {
				entries = true
			}
		}
		ls := c.p.loops(g)
		if !entries {
			continue
		}
		if len(ls) == 0 {
			// a loop which is not one: its body always returns
			c.p.eachInstr(g, func(in ssa.Instruction) {
				first := false
				switch in := in.(type) {
				case *ssa.Next:
					first = true
				case *ssa.IndexAddr:
					_, isParam := in.X.(*ssa.Parameter)
					first = isParam && types.Identical(in.X.Type(), c.set)
				}
				if first {
					c.report("any", fname(g), g.Pos(), "%s: the first selector only is tried", fname(g))
				}
			})
			continue
		}
		if len(ls) != 1 {
			continue
		}
		l := ls[0]
		c.r.count("lists of selectors tried", 1)
		live := c.p.liveBlocks(g)
		for b := range l.body {
			if b == l.header {
				continue
			}
			for i, s := range b.Succs {
				if l.body[s] || !live[s] {
					continue
				}
				gives := false
				if cv, tr := edgeCond(b, i); cv != nil {
					v, tr := strip(cv, tr)
					call, ok := v.(*ssa.Call)
					if ok && !tr && call.Call.StaticCallee() != nil && inModule(call.Call.StaticCallee()) && len(call.Call.Args) == 2 {
						gives = true // the entry does not match
					}
				}
				if ret, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return); ok && len(s.Preds) == 1 {
					v := retVal(ret, 0)
					switch v.(type) {
					case *ssa.BinOp, *ssa.Call:
						gives = true
						for _, cd := range blockConds(s) {
							if cd.v == v {
								gives = false
							}
						}
					}
				}
				if gives {
					c.report("any", fname(g), c.first(s), "%s: the search for a selector which matches may end before the last one", fname(g))
				}
			}
		}
	}
}

func (c *scans) same(all [][]*aval) bool {
	for _, ret := range all {
		if !sameAval(ret[0], all[0][0]) {
			return false
		}
	}
	return true
}

// inSet: v is an element of a set of fonts.
func (c *scans) inSet(v ssa.Value) bool {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		ia, ok := u.X.(*ssa.IndexAddr)
		return ok && types.Identical(ia.X.Type(), c.set)
	}
	return false
}

// lists: each kind of selector of the configuration files is put in the list of its name.
func (c *scans) lists() {
	rules := &fcRules{fcVocab: c.p.vocab(), r: &Report{}} // C17 reports on the elements
	if rules.fcVocab == nil || rules.elements() == nil {
		return
	}
	c.r.rule("lists: what the elements <acceptfont> and <rejectfont> add is put in the lists read as such by the selectors")
	for el, want := range map[string]int{"acceptfont": 1, "rejectfont": 2} {
		if _, ok := rules.elem[el]; !ok {
			continue
		}
		isElem := loadsOf(rules.elemT, rules.elem[el])
		s := &sccp{t: rules.t, final: true, depth: 3}
		s.override = func(in ssa.Instruction, get func(ssa.Value) *aval) *aval {
			if a := isElem(in, get); a != nil {
				return a
			}
			if fa, ok := in.(*ssa.FieldAddr); ok && c.isCfg(fa.X.Type()) && listKind(fieldLabel(fa)) != 0 {
				for _, ref := range *fa.Referrers() {
					if _, ok := ref.(*ssa.Phi); ok {
						return &aval{sym: fieldLabel(fa)}
					}
				}
			}
			return nil
		}
		s.visit = func(in ssa.Instruction, get func(ssa.Value) *aval) {
			var to *aval
			switch in := in.(type) {
			case *ssa.MapUpdate:
				to = get(in.Map)
			case *ssa.Store:
				if types.Identical(in.Val.Type(), c.set) {
					if _, ok := in.Addr.(*ssa.Alloc); !ok {
						to = get(in.Addr)
					}
				}
			}
			if to == nil {
				return
			}
			k := listKind(to.symbol())
			if k == 0 {
				return
			}
			c.r.count("selectors read", 1)
			if st, ok := in.(*ssa.Store); ok {
				lost := false
				switch v := st.Val.(type) {
				case *ssa.Const:
					lost = true
				case *ssa.Slice:
					_, lost = v.X.(*ssa.Alloc)
				case *ssa.Call:
					if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
						switch a := v.Call.Args[0].(type) {
						case *ssa.Const:
							lost = true
						case *ssa.UnOp:
							if x, ok := a.X.(*ssa.FieldAddr); ok && c.isCfg(x.X.Type()) && listKind(fieldLabel(x)) != k {
								lost = true
							}
						}
					}
				}
				if lost {
					c.report("lists", el+" kept", in.Pos(), "%s: what <%s> lists replaces what has been listed before", fname(in.Parent()), el)
				}
			}
			if k != want {
				c.report("lists", el+" "+to.symbol(), in.Pos(), "%s: what <%s> lists is added to %s", fname(in.Parent()), el, to.symbol())
			}
		}
		var args []*aval
		for _, q := range rules.end.Params {
			args = append(args, &aval{sym: q.Name() + "$"})
		}
		s.run(rules.end, args)
	}
}

// ---- the sets returned ----

func (fr *sframe) key() string {
	s := ""
	for f := fr; f != nil; f = f.up {
		s += fmt.Sprintf("%p/%p ", f.fn, f.call)
	}
	return s
}

func (fr *sframe) depth() int {
	n := 0
	for f := fr; f != nil; f = f.up {
		n++
	}
	return n
}

// trace lists the elements put in the set v.
func (c *scans) trace(v ssa.Value, fr *sframe, o *origin) {
	k := fmt.Sprintf("%p ", v) + fr.key()
	if o.seen[k] {
		return
	}
	o.seen[k] = true
	if fr.depth() > 8 {
		o.unknown = true
		return
	}
	switch v := v.(type) {
	case *ssa.Const:
	case *ssa.Phi:
		for _, e := range v.Edges {
			c.trace(e, fr, o)
		}
	case *ssa.ChangeType:
		c.trace(v.X, fr, o)
	case *ssa.MakeSlice:
		if !isIntConst(v.Len, 0) {
			o.unknown = true
		}
	case *ssa.Slice:
		if al, ok := v.X.(*ssa.Alloc); ok {
			if pt, ok := al.Type().Underlying().(*types.Pointer); ok {
				if at, ok := pt.Elem().Underlying().(*types.Array); ok && at.Len() == 0 {
					return
				}
			}
			o.unknown = true
			return
		}
		if v.High != nil {
			if !isIntConst(v.High, 0) {
				o.unknown = true
			}
			return
		}
		c.trace(v.X, fr, o)
	case *ssa.Parameter:
		if fr.up == nil || fr.call == nil {
			o.unknown = true
			return
		}
		for i, q := range fr.fn.Params {
			if q == v && i < len(fr.call.Call.Args) {
				c.trace(fr.call.Call.Args[i], fr.up, o)
				return
			}
		}
		o.unknown = true
	case *ssa.Extract:
		if call, ok := v.Tuple.(*ssa.Call); ok {
			c.into(call, v.Index, fr, o)
			return
		}
		o.unknown = true
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			c.trace(v.Call.Args[0], fr, o)
			if len(v.Call.Args) < 2 {
				return
			}
			if elems, ok := literalElems(v.Call.Args[1]); ok {
				for _, e := range elems {
					o.adds = append(o.adds, addition{v, e, fr})
				}
				return
			}
			c.flow(v.Call.Args[1], v.Block(), fr, o)
			return
		}
		c.into(v, 0, fr, o)
	case *ssa.UnOp:
		if v.Op != token.MUL {
			o.unknown = true
			return
		}
		c.cell(v.X, fr, o)
	default:
		o.unknown = true
	}
}

// literalElems are the elements of a slice built for a call.
func literalElems(v ssa.Value) ([]ssa.Value, bool) {
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	var out []ssa.Value
	for _, ref := range *al.Referrers() {
		switch ref := ref.(type) {
		case *ssa.IndexAddr:
			for _, r2 := range *ref.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ref) {
					out = append(out, st.Val)
				}
			}
		}
	}
	return out, len(out) > 0
}

// flow follows a set used as a whole in a block, unless this depends on the configuration.
func (c *scans) flow(v ssa.Value, b *ssa.BasicBlock, fr *sframe, o *origin) {
	for _, cd := range blockConds(b) {
		if c.onConfig(cd.v, 0) {
			o.unknown = true
			return
		}
	}
	if phi, ok := v.(*ssa.Phi); ok && len(c.w.enclosing(phi.Parent(), phi.Block())) == 0 {
		for i, e := range phi.Edges {
			c.flow(e, phi.Block().Preds[i], fr, o)
		}
		return
	}
	c.trace(v, fr, o)
}

func (c *scans) into(call *ssa.Call, i int, fr *sframe, o *origin) {
	g := call.Call.StaticCallee()
	if g == nil || !inModule(g) || len(g.Blocks) == 0 {
		o.unknown = true
		return
	}
	nf := &sframe{g, call, fr}
	for _, ret := range retsIn(g) {
		if v := retVal(ret, i); v != nil {
			c.flow(v, ret.Block(), nf, o)
		} else {
			o.unknown = true
		}
	}
}

// cell follows what is stored in a variable, by the function or its closures.
func (c *scans) cell(addr ssa.Value, fr *sframe, o *origin) {
	for {
		fv, ok := addr.(*ssa.FreeVar)
		if !ok {
			break
		}
		b := c.bound(fv)
		if b == nil {
			o.unknown = true
			return
		}
		addr = b
	}
	al, ok := addr.(*ssa.Alloc)
	if !ok {
		o.unknown = true
		return
	}
	// the frame of the function of the variable
	home := fr
	for home != nil && home.fn != al.Parent() {
		home = home.up
	}
	if home == nil {
		home = &sframe{fn: al.Parent()}
	}
	var walk func(a ssa.Value)
	walk = func(a ssa.Value) {
		if a.Referrers() == nil {
			o.unknown = true
			return
		}
		for _, ref := range *a.Referrers() {
			switch ref := ref.(type) {
			case *ssa.Store:
				if ref.Addr != a {
					o.unknown = true
					return
				}
				f := home
				if ref.Parent() != al.Parent() {
					f = &sframe{fn: ref.Parent(), up: home}
				}
				c.trace(ref.Val, f, o)
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				g := ref.Fn.(*ssa.Function)
				for i, b := range ref.Bindings {
					if b == a && i < len(g.FreeVars) {
						walk(g.FreeVars[i])
					}
				}
			default:
				o.unknown = true
			}
		}
	}
	walk(al)
}

// bound is the variable of the enclosing function that a closure uses.
func (c *scans) bound(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	at := -1
	for i, x := range fn.FreeVars {
		if x == fv {
			at = i
		}
	}
	var out ssa.Value
	if fn.Parent() == nil || at < 0 {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
				if out != nil && out != mc.Bindings[at] {
					return nil
				}
				out = mc.Bindings[at]
			}
		}
	}
	return out
}

// verdict on a condition holding where something is done.
type verdict int

const (
	open verdict = iota // nothing accepted
	unsure
	accepted
	refused
)

// strip removes the negations.
func strip(v ssa.Value, truth bool) (ssa.Value, bool) {
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.NOT {
				v, truth = x.X, !truth
				continue
			}
		case *ssa.BinOp:
			if x.Op == token.EQL || x.Op == token.NEQ {
				for i, y := range []ssa.Value{x.X, x.Y} {
					if k, ok := y.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
						v = []ssa.Value{x.Y, x.X}[i]
						if (constant.BoolVal(k.Value)) != (x.Op == token.EQL) {
							truth = !truth
						}
						goto next
					}
				}
			}
		}
		return v, truth
	next:
	}
}

// guard says whether the block is entered only after a test whose answer is yes.
func (c *scans) guard(b *ssa.BasicBlock, is func(call *ssa.Call) bool) (verdict, *ssa.Call) {
	out := open
	fn := b.Parent()
	for _, cd := range blockConds(b) {
		v, tr := strip(cd.v, cd.truth)
		switch x := v.(type) {
		case *ssa.Call:
			if is(x) {
				if tr {
					return accepted, x
				}
				return refused, x
			}
			if g := x.Call.StaticCallee(); g == nil && !x.Call.IsInvoke() {
				if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
					out = unsure
				}
			} else if g != nil && inModule(g) && c.mentions(g, is) {
				out = unsure
			}
		case *ssa.Phi, *ssa.UnOp, *ssa.Lookup, *ssa.Extract, *ssa.FreeVar, *ssa.Parameter:
			if isBasicT(types.IsBoolean)(v.Type()) && !c.knownBool(v) {
				out = unsure
			}
		}
	}
	if out != open {
		return out, nil
	}
	// a test which is not made on every path
	var call *ssa.Call
	skipBy := false
	c.p.eachInstr(fn, func(in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.Call:
			if is(in) {
				call = in
			} else if g := in.Call.StaticCallee(); g != nil && inModule(g) && c.mentions(g, is) && isBasicT(types.IsBoolean)(in.Type()) {
				skipBy = true
			}
		case *ssa.If:
			// depends on the configuration itself: there may be nothing to test
			if c.onConfig(in.Cond, 0) {
				skipBy = true
			}
		}
	})
	if call != nil && skipBy {
		return unsure, nil
	}
	return open, call
}

// knownBool: a value which has nothing to do with the fonts: whether a type assertion holds, whether a map has a key.
func (c *scans) knownBool(v ssa.Value) bool {
	ex, ok := v.(*ssa.Extract)
	if !ok {
		return false
	}
	switch ex.Tuple.(type) {
	case *ssa.TypeAssert, *ssa.Next:
		return true
	}
	return false
}

func (c *scans) mentions(g *ssa.Function, is func(call *ssa.Call) bool) bool {
	found := false
	for f := range c.p.reachable([]*ssa.Function{g}, true) {
		c.p.eachInstr(f, func(in ssa.Instruction) {
			if call, ok := in.(*ssa.Call); ok && is(call) {
				found = true
			}
		})
	}
	return found
}

// onConfig: the condition reads a field of the configuration.
func (c *scans) onConfig(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	if fa, ok := v.(*ssa.FieldAddr); ok && c.isCfg(fa.X.Type()) {
		return true
	}
	if call, ok := v.(*ssa.Call); ok {
		if _, ok := call.Type().Underlying().(*types.Basic); !ok {
			return false
		}
		if g := call.Call.StaticCallee(); g != nil && inModule(g) && !c.fonts[g] && !c.files[g] {
			for _, a := range call.Call.Args {
				if c.isCfg(a.Type()) {
					return true
				}
			}
		}
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && c.onConfig(*op, depth+1) {
			return true
		}
	}
	return false
}

// scan checks an exported function scanning fonts.
func (c *scans) scan(fn *ssa.Function) {
	c.r.count("scans", 1)
	c.r.rule("filter: each font put in the set a scan returns has been accepted by the selector, and each font accepted is put there")
	o := &origin{seen: map[string]bool{}}
	for _, ret := range retsIn(fn) {
		if v := retVal(ret, 0); v != nil {
			c.flow(v, ret.Block(), &sframe{fn: fn}, o)
		}
	}
	isSel := func(call *ssa.Call) bool { return c.fonts[call.Call.StaticCallee()] }
	raw := &origin{seen: map[string]bool{}}
	for _, ad := range o.adds {
		g := ad.fr.fn
		v, call := c.guard(ad.call.Block(), isSel)
		// or the calls leading there are made after the test
		for f := ad.fr; v == open && f.call != nil; f = f.up {
			v, _ = c.guard(f.call.Block(), isSel)
		}
		c.r.count("fonts put in a set", 1)
		switch v {
		case refused:
			c.report("filter", fname(fn)+" refused in "+fname(g), ad.call.Pos(), "%s: the fonts put in the result are the ones that the configuration rejects (%s)", fname(g), fname(fn))
		case open:
			how := "without asking whether the configuration accepts them"
			if call != nil {
				how = "whether the configuration accepts them or not"
			}
			c.report("filter", fname(fn)+" in "+fname(g), ad.call.Pos(), "%s: fonts are put in the set %s returns %s", fname(g), fname(fn), how)
		case accepted:
			c.r.sample("%s: the fonts put in the result at %s are those accepted at %s", fname(fn), c.p.pos(ad.call.Pos()), c.p.pos(call.Pos()))
			for _, a := range call.Call.Args {
				if types.Identical(a.Type(), c.pat) {
					if u, ok := a.(*ssa.UnOp); ok {
						if ia, ok := u.X.(*ssa.IndexAddr); ok {
							if _, ok := ia.Index.(*ssa.Const); ok && a != ad.elem {
								c.report("filter", fname(fn)+" other", call.Pos(), "%s: the font accepted is not the one put in the result", fname(g))
							}
						}
					}
				}
			}
			if b := c.w.skipped(g, []*ssa.BasicBlock{ad.call.Block()}, func(b *ssa.BasicBlock, s int) bool {
				cv, tr := edgeCond(b, s)
				if cv == nil {
					return false
				}
				if k, ok := cv.(*ssa.Const); ok && k.Value != nil {
					return constant.BoolVal(k.Value) != tr
				}
				x, tr := strip(cv, tr)
				call, ok := x.(*ssa.Call)
				return ok && isSel(call) && !tr
			}); b != nil && len(c.w.enclosing(g, ad.call.Block())) > 0 {
				c.report("filter", fname(fn)+" lost", c.first(b), "%s: a font that the configuration accepts may be left out of the set %s returns", fname(g), fname(fn))
			}
			if b := c.stops(ad.call.Block(), func(v ssa.Value) bool { call, ok := v.(*ssa.Call); return ok && isSel(call) }); b != nil {
				c.report("filter", fname(fn)+" lost", c.first(b), "%s: a font that the configuration accepts may be left out of the set %s returns", fname(g), fname(fn))
			}
			if sl := part(ad.elem); sl != nil {
				c.report("filter", fname(fn)+" part", sl.Pos(), "%s: a part of the fonts only is considered by %s", fname(g), fname(fn))
			}
			// what has been filtered
			if u, ok := ad.elem.(*ssa.UnOp); ok {
				if ia, ok := u.X.(*ssa.IndexAddr); ok {
					c.trace(ia.X, ad.fr, raw)
				}
			}
		}
	}
	c.kept(fn, o)
	c.faces(fn, raw, o)
	c.edited(fn)
}

func (c *scans) first(b *ssa.BasicBlock) token.Pos {
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if ps := posOf(b.Instrs[i]); ps.IsValid() {
			return ps
		}
	}
	return b.Parent().Pos()
}

// stops is a place where the loop around b ends because of one of the fonts.
func (c *scans) stops(b *ssa.BasicBlock, test func(v ssa.Value) bool) *ssa.BasicBlock {
	fn := b.Parent()
	ls := c.w.enclosing(fn, b)
	if len(ls) == 0 {
		return nil
	}
	l := ls[len(ls)-1]
	live := c.p.liveBlocks(fn)
	for x := range l.body {
		if x == l.header || !live[x] {
			continue
		}
		for i, s := range x.Succs {
			if !live[s] || l.body[s] || c.w.givesError(s) {
				continue
			}
			cv, _ := edgeCond(x, i)
			if cv == nil {
				continue
			}
			v, _ := strip(cv, true)
			if test(v) {
				return x
			}
			if cmp, ok := v.(*ssa.BinOp); ok && (isNilConst(cmp.X) && types.Identical(cmp.Y.Type(), c.pat) || isNilConst(cmp.Y) && types.Identical(cmp.X.Type(), c.pat)) {
				return x
			}
		}
	}
	return nil
}

// part: v is an element of a part of a list only.
func part(v ssa.Value) *ssa.Slice {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return nil
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return nil
	}
	x := ia.X
	if ct, ok := x.(*ssa.ChangeType); ok {
		x = ct.X
	}
	sl, ok := x.(*ssa.Slice)
	if !ok {
		return nil
	}
	if k, ok := sl.Low.(*ssa.Const); ok && !isIntConst(k, 0) {
		return sl
	}
	if _, ok := sl.High.(*ssa.Const); ok {
		return sl
	}
	return nil
}

// kept: what has been found is not lost when more is.
func (c *scans) kept(fn *ssa.Function, o *origin) {
	c.r.rule("kept: a set of fonts built in a loop, or by a function called for each file, contains at each step what it contained before")
	for g := range c.p.reachable([]*ssa.Function{fn}, true) {
		live := c.p.liveBlocks(g)
		for _, b := range g.Blocks {
			if !live[b] {
				continue
			}
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Phi:
					if !types.Identical(in.Type(), c.set) {
						continue
					}
					ls := c.w.enclosing(g, b)
					if len(ls) == 0 || ls[len(ls)-1].header != b {
						continue
					}
					l := ls[len(ls)-1]
					if !c.returned(in) {
						continue
					}
					for i, e := range in.Edges {
						if !l.body[b.Preds[i]] {
							continue
						}
						c.r.count("sets kept", 1)
						if ok := c.derives(e, in, map[ssa.Value]bool{}); ok == 2 {
							c.report("kept", fname(g)+" "+in.Comment, c.first(b.Preds[i]), "%s: the fonts found before are lost at each step of the loop", fname(g))
						}
					}
				case *ssa.Store:
					fv, ok := in.Addr.(*ssa.FreeVar)
					if !ok || !types.Identical(in.Val.Type(), c.set) || isNilConst(in.Val) {
						continue
					}
					c.r.count("sets kept", 1)
					if ok := c.derives(in.Val, fv, map[ssa.Value]bool{}); ok == 2 {
						c.report("kept", fname(g)+" "+fv.Name(), in.Pos(), "%s: the fonts found before are lost at each call", fname(g))
					}
				}
			}
		}
	}
}

// returned: the set is a result of the function.
func (c *scans) returned(v ssa.Value) bool {
	for _, ref := range *v.Referrers() {
		if ret, ok := ref.(*ssa.Return); ok {
			for i := range ret.Results {
				if retVal(ret, i) == v {
					return true
				}
			}
		}
	}
	return false
}

// derives: 1 when v contains what from does, 2 when it does not, 0 when it is not known.
func (c *scans) derives(v, from ssa.Value, seen map[ssa.Value]bool) int {
	if v == from {
		return 1
	}
	if seen[v] {
		return 1
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		out := 1
		for _, e := range x.Edges {
			switch c.derives(e, from, seen) {
			case 2:
				out = 2
			case 0:
				return 0
			}
		}
		return out
	case *ssa.ChangeType:
		return c.derives(x.X, from, seen)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if x.X == from {
				return 1
			}
			if _, ok := x.X.(*ssa.FreeVar); ok {
				return 0
			}
		}
		return 0
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			a := c.derives(x.Call.Args[0], from, seen)
			if a != 2 || len(x.Call.Args) < 2 {
				return a
			}
			return c.derives(x.Call.Args[1], from, seen)
		}
		return c.passes(x, from, seen)
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return c.passes(call, from, seen)
		}
		return 0
	case *ssa.Const:
		return 2
	case *ssa.Slice:
		if _, ok := x.X.(*ssa.Alloc); ok {
			return 2
		}
		return 0
	}
	return 0
}

// passes: a call which is not given the set cannot return it.
func (c *scans) passes(call *ssa.Call, from ssa.Value, seen map[ssa.Value]bool) int {
	if call.Call.StaticCallee() == nil {
		return 0
	}
	for _, a := range call.Call.Args {
		switch t := a.Type().Underlying().(type) {
		case *types.Slice:
			if c.derives(a, from, seen) != 2 {
				return 0
			}
		case *types.Pointer:
			if _, ok := t.Elem().Underlying().(*types.Slice); ok {
				return 0
			}
		case *types.Signature:
			return 0
		}
	}
	return 2
}

// faces: each face of a file, and each of its named instances, gives a font.
func (c *scans) faces(fn *ssa.Function, raw, direct *origin) {
	c.r.rule("faces: each face of a file, and each of its named instances, gives a font, whose index is that of the face with, above its 16 low bits, the rank of the instance, from 1")
	adds := append(append([]addition{}, raw.adds...), direct.adds...)
	done := map[*ssa.Call]bool{}
	for _, ad := range adds {
		ex, ok := ad.elem.(*ssa.Extract)
		var call *ssa.Call
		if ok {
			call, _ = ex.Tuple.(*ssa.Call)
		} else {
			call, _ = ad.elem.(*ssa.Call)
		}
		if call == nil || done[ad.call] || call.Call.StaticCallee() == nil || !inModule(call.Call.StaticCallee()) {
			continue
		}
		var face, id ssa.Value
		for _, a := range call.Call.Args {
			if nm, ok := a.Type().(*types.Named); ok && nm.Obj().Name() == "Face" {
				face = a
			} else if b, ok := a.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint32 {
				id = a
			}
		}
		if face == nil || id == nil || call.Parent() != ad.call.Parent() {
			continue
		}
		done[ad.call] = true
		g := call.Parent()
		ls := c.w.enclosing(g, call.Block())
		if len(ls) == 0 || len(ls) > 2 {
			continue
		}
		c.r.count("faces queried", 1)
		for _, n := range []int64{0, 1, 3} {
			for _, m := range []int64{0, 1, 4} {
				env := map[ssa.Value]int64{}
				counters(ls[0], n, env)
				want := n
				if len(ls) == 2 {
					counters(ls[1], m, env)
					want |= (m + 1) << 16
				}
				got, ok := number(id, env, nil, 0)
				if !ok {
					continue
				}
				c.r.count("indices of fonts", 1)
				if got != want {
					what := fmt.Sprintf("face %d", n)
					if len(ls) == 2 {
						what += fmt.Sprintf(", instance %d", m+1)
					}
					c.report("faces", fname(g)+fmt.Sprintf(" index %d", len(ls)), call.Pos(), "%s: the font of %s has the index %#x, not %#x", fname(g), what, got, want)
				}
			}
		}
		if sl := part(face); sl != nil {
			c.report("faces", fname(g)+" part", sl.Pos(), "%s: a part of the faces of a file only is considered", fname(g))
		}
		if b := c.stops(ad.call.Block(), func(v ssa.Value) bool { return false }); b != nil {
			c.report("faces", fname(g)+fmt.Sprintf(" lost %d", len(ls)), c.first(b), "%s: a face or an instance of a font file may be left out", fname(g))
		}
		// none is left out
		if b := c.w.skipped(g, []*ssa.BasicBlock{ad.call.Block()}, func(b *ssa.BasicBlock, s int) bool {
			cv, tr := edgeCond(b, s)
			if cv == nil {
				return false
			}
			if k, ok := cv.(*ssa.Const); ok && k.Value != nil {
				return constant.BoolVal(k.Value) != tr
			}
			x, tr := strip(cv, tr)
			switch x := x.(type) {
			case *ssa.BinOp:
				for _, f := range condFacts(x, tr) {
					if f.eq && (isNilConst(f.x) || isNilConst(f.y)) {
						return true // no font
					}
				}
			case *ssa.Call:
				// an instance which is the face itself
				if (x.Call.StaticCallee() == nil || !inModule(x.Call.StaticCallee())) && tr {
					return true
				}
			}
			return false
		}); b != nil {
			c.report("faces", fname(g)+fmt.Sprintf(" lost %d", len(ls)), c.first(b), "%s: a face or an instance of a font file may be left out", fname(g))
		}
	}
}

// counters gives the values of the variables of a loop counting its steps, at the nth one.
func counters(l *loop, n int64, env map[ssa.Value]int64) {
	for _, in := range l.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isIntType(phi.Type()) {
			continue
		}
		var init, step int64
		okInit, okStep := false, true
		for i, e := range phi.Edges {
			if l.body[l.header.Preds[i]] {
				add, ok := e.(*ssa.BinOp)
				if !ok || add.Op != token.ADD || add.X != ssa.Value(phi) {
					okStep = false
					continue
				}
				k, ok := add.Y.(*ssa.Const)
				if !ok {
					okStep = false
					continue
				}
				step = k.Int64()
			} else if k, ok := e.(*ssa.Const); ok && k.Value != nil {
				init, okInit = k.Int64(), true
			}
		}
		if okInit && okStep {
			env[phi] = init + n*step
		}
	}
}

// number evaluates an integer expression.
func number(v ssa.Value, env map[ssa.Value]int64, leaf func(v ssa.Value) (int64, bool), depth int) (int64, bool) {
	if n, ok := env[v]; ok {
		return n, true
	}
	if depth > 12 {
		return 0, false
	}
	wrap := func(n int64, t types.Type) (int64, bool) {
		b, ok := t.Underlying().(*types.Basic)
		if !ok {
			return 0, false
		}
		switch b.Kind() {
		case types.Uint8:
			return int64(uint8(n)), true
		case types.Uint16:
			return int64(uint16(n)), true
		case types.Uint32:
			return int64(uint32(n)), true
		case types.Int8:
			return int64(int8(n)), true
		case types.Int16:
			return int64(int16(n)), true
		case types.Int32:
			return int64(int32(n)), true
		case types.Int, types.Int64, types.UntypedInt:
			return n, true
		case types.Uint, types.Uint64:
			return n, n >= 0
		}
		return 0, false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		d := x.Block().Idom()
		if d == nil || backEdge(x.Block()) {
			return 0, false
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			return 0, false
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			return 0, false
		}
		a, ok1 := number(cmp.X, env, leaf, depth+1)
		b, ok2 := number(cmp.Y, env, leaf, depth+1)
		if !ok1 || !ok2 {
			return 0, false
		}
		var holds bool
		switch cmp.Op {
		case token.EQL:
			holds = a == b
		case token.NEQ:
			holds = a != b
		case token.LSS:
			holds = a < b
		case token.LEQ:
			holds = a <= b
		case token.GTR:
			holds = a > b
		case token.GEQ:
			holds = a >= b
		default:
			return 0, false
		}
		to := d.Succs[1]
		if holds {
			to = d.Succs[0]
		}
		var res ssa.Value
		for i, q := range x.Block().Preds {
			if q == d && to == x.Block() || q != d && len(to.Preds) == 1 && to.Dominates(q) {
				if res != nil {
					return 0, false
				}
				res = x.Edges[i]
			}
		}
		if res == nil {
			return 0, false
		}
		return number(res, env, leaf, depth+1)
	case *ssa.Const:
		if x.Value == nil || x.Value.Kind() != constant.Int {
			return 0, false
		}
		return constant.Int64Val(x.Value)
	case *ssa.Convert:
		n, ok := number(x.X, env, leaf, depth+1)
		if !ok {
			return 0, false
		}
		return wrap(n, x.Type())
	case *ssa.ChangeType:
		return number(x.X, env, leaf, depth+1)
	case *ssa.BinOp:
		a, ok1 := number(x.X, env, leaf, depth+1)
		b, ok2 := number(x.Y, env, leaf, depth+1)
		if !ok1 || !ok2 {
			return 0, false
		}
		var n int64
		switch x.Op {
		case token.ADD:
			n = a + b
		case token.SUB:
			n = a - b
		case token.MUL:
			n = a * b
		case token.AND:
			n = a & b
		case token.OR:
			n = a | b
		case token.XOR:
			n = a ^ b
		case token.AND_NOT:
			n = a &^ b
		case token.SHL:
			if b < 0 || b > 40 {
				return 0, false
			}
			n = a << uint(b)
		case token.SHR:
			if b < 0 || b > 63 {
				return 0, false
			}
			n = a >> uint(b)
		case token.QUO:
			if b == 0 {
				return 0, false
			}
			n = a / b
		case token.REM:
			if b == 0 {
				return 0, false
			}
			n = a % b
		default:
			return 0, false
		}
		return wrap(n, x.Type())
	}
	if leaf != nil {
		return leaf(v)
	}
	return 0, false
}

// backEdge: the block starts a loop.
func backEdge(b *ssa.BasicBlock) bool {
	for _, q := range b.Preds {
		if b.Dominates(q) {
			return true
		}
	}
	return false
}

// edited: the fonts scanned are edited by the rules of the configuration for scans.
func (c *scans) edited(fn *ssa.Function) {
	c.r.rule("edited: the rules of the configuration for scans are applied to each font scanned")
	var kind *ssa.Const
	if o, ok := c.p.pkg("fontconfig").Types.Scope().Lookup("MatchScan").(*types.Const); ok {
		kind = ssa.NewConst(o.Val(), o.Type())
	}
	if kind == nil {
		return
	}
	found, indirect := 0, false
	for g := range c.p.reachable([]*ssa.Function{fn}, true) {
		c.p.eachInstr(g, func(in ssa.Instruction) {
			call, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			isScan, isOther := false, false
			for _, a := range call.Call.Args {
				if types.Identical(a.Type(), kind.Type()) {
					k, ok := a.(*ssa.Const)
					if !ok {
						indirect = true
					} else if constant.Compare(k.Value, token.EQL, kind.Value) {
						isScan = true
					} else {
						isOther = true
					}
				}
			}
			h := call.Call.StaticCallee()
			if h == nil || h.Signature.Recv() == nil || !c.isCfg(h.Signature.Recv().Type()) {
				return
			}
			if isOther && !isScan {
				c.report("edited", fname(fn)+" kind", call.Pos(), "%s: the fonts scanned are edited by the rules for something else", fname(g))
				found++
			}
			if !isScan {
				return
			}
			found++
			c.r.count("fonts edited", 1)
			if len(c.w.enclosing(g, call.Block())) == 0 {
				return
			}
			if b := c.w.skipped(g, []*ssa.BasicBlock{call.Block()}, func(b *ssa.BasicBlock, s int) bool {
				cv, tr := edgeCond(b, s)
				if cv == nil {
					return false
				}
				if k, ok := cv.(*ssa.Const); ok && k.Value != nil {
					return constant.BoolVal(k.Value) != tr
				}
				for _, f := range condFacts(cv, tr) {
					if f.eq && (isNilConst(f.x) || isNilConst(f.y)) {
						return true // no font
					}
				}
				return c.onConfig(cv, 0)
			}); b != nil {
				c.report("edited", fname(g)+" skipped", c.first(b), "%s: the rules of the configuration are not applied to each font scanned", fname(g))
			}
		})
	}
	if found == 0 && !indirect {
		c.report("edited", fname(fn), fn.Pos(), "%s: the rules of the configuration for scans are not applied to the fonts", fname(fn))
	}
}

// opened: the scans of directories open the files that the configuration accepts only.
func (c *scans) opened(scanned []*ssa.Function) {
	c.r.rule("files: the scans of directories open a file only when its name is not hidden, and when the configuration accepts its path")
	walks := func(fn *ssa.Function) bool {
		found := false
		for g := range c.p.reachable([]*ssa.Function{fn}, true) {
			c.p.eachInstr(g, func(in ssa.Instruction) {
				if call, ok := in.(ssa.CallInstruction); ok {
					if n := calleeName(call); strings.HasPrefix(n, "path/filepath.Walk") || n == "os.ReadDir" || n == "io/ioutil.ReadDir" {
						found = true
					}
				}
			})
		}
		return found
	}
	roots := append([]*ssa.Function{}, scanned...)
	for _, fn := range c.p.exportedFuncs("fontconfig") {
		if fn.Signature.Recv() == nil && strings.Contains(fn.Name(), "Scan") {
			roots = append(roots, fn)
		}
	}
	for _, fn := range roots {
		if !walks(fn) {
			continue
		}
		within := c.p.reachable([]*ssa.Function{fn}, true)
		cfg := fn.Signature.Recv() != nil && c.isCfg(fn.Signature.Recv().Type())
		for g := range within {
			c.p.eachInstr(g, func(in ssa.Instruction) {
				call, ok := in.(*ssa.Call)
				if !ok || (calleeName(call) != "os.Open" && calleeName(call) != "os.OpenFile") {
					return
				}
				c.r.count("files opened", 1)
				if len(c.nameRules) > 0 {
					c.fileGuard(fn, call, within, c.nameRules, "hidden", "a hidden file, or one known not to be a font, is opened")
				}
				if cfg && len(c.files) > 0 {
					c.fileGuard(fn, call, within, c.files, "path", "a file is opened whether the configuration accepts it or not")
				}
			})
		}
	}
}

func (c *scans) fileGuard(root *ssa.Function, call *ssa.Call, within, sel map[*ssa.Function]bool, key, msg string) {
	is := func(x *ssa.Call) bool { return sel[x.Call.StaticCallee()] }
	var ok func(in ssa.CallInstruction, depth int) verdict
	ok = func(in ssa.CallInstruction, depth int) verdict {
		v, test := c.guard(in.Block(), is)
		if v == accepted {
			for _, a := range test.Call.Args {
				if isBasicT(types.IsString)(a.Type()) && key == "path" && c.baseName(a, 0) {
					c.report("files", fname(root)+" base", test.Pos(), "%s: the configuration is asked about the last element of the path only", fname(test.Parent()))
				}
			}
		}
		if v != open || depth > 4 {
			return v
		}
		if test != nil {
			return open
		}
		fn := in.Parent()
		out, any := unsure, false
		for _, site := range c.p.callSites(fn) {
			if site.Common().StaticCallee() == fn && (within[site.Parent()] || fn.Parent() != nil) {
				any = true
				if ok(site, depth+1) == open {
					out = open
				}
			}
		}
		if !any && fn.Parent() != nil && !c.givenAway(fn) {
			return unsure // called through a variable
		}
		if !any {
			return open
		}
		return out
	}
	switch ok(call, 0) {
	case open:
		c.report("files", fname(root)+" "+key, call.Pos(), "%s: %s (%s)", fname(call.Parent()), msg, fname(root))
	case refused:
		c.report("files", fname(root)+" "+key, call.Pos(), "%s: the files opened are the ones rejected (%s)", fname(call.Parent()), fname(root))
	}
}

// givenAway: the closure is an argument of a function of another module, such as the walks of directories.
func (c *scans) givenAway(fn *ssa.Function) bool {
	found := false
	var follow func(v ssa.Value, depth int)
	follow = func(v ssa.Value, depth int) {
		if depth > 4 {
			return
		}
		for _, ref := range realRefs(v) {
			switch ref := ref.(type) {
			case *ssa.ChangeType:
				follow(ref, depth+1)
			case *ssa.MakeInterface:
				follow(ref, depth+1)
			case *ssa.Phi:
				follow(ref, depth+1)
			case *ssa.Store:
				if a, ok := ref.Addr.(*ssa.Alloc); ok && ref.Val == v {
					for _, r2 := range realRefs(a) {
						if u, ok := r2.(*ssa.UnOp); ok {
							follow(u, depth+1)
						}
					}
				}
			case ssa.CallInstruction:
				if g := ref.Common().StaticCallee(); g != nil && !inModule(g) {
					found = true
				}
			}
		}
	}
	c.p.eachInstr(fn.Parent(), func(in ssa.Instruction) {
		if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
			follow(mc, 0)
		}
		if call, ok := in.(ssa.CallInstruction); ok { // captures nothing
			for _, a := range call.Common().Args {
				if a == ssa.Value(fn) {
					if g := call.Common().StaticCallee(); g != nil && !inModule(g) {
						found = true
					}
				}
				if ct, ok := a.(*ssa.ChangeType); ok && ct.X == ssa.Value(fn) {
					found = true
				}
			}
		}
	})
	return found
}

// baseName: v is the last element of a path.
func (c *scans) baseName(v ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		if x.Call.IsInvoke() {
			return x.Call.Method.Name() == "Name" && x.Call.Method.Pkg() != nil && x.Call.Method.Pkg().Path() == "io/fs"
		}
		n := calleeName(x)
		return n == "path/filepath.Base" || n == "path.Base"
	case *ssa.Convert:
		return c.baseName(x.X, depth+1)
	}
	return false
}

// queryParam is the pattern given to a listing.
func (c *scans) queryParam(fn *ssa.Function) *ssa.Parameter {
	n := 0
	var out *ssa.Parameter
	for _, q := range fn.Params {
		if types.Identical(q.Type(), c.pat) {
			out = q
			n++
		}
	}
	if n != 1 || fn.Signature.Results().Len() != 1 {
		return nil
	}
	return out
}

// listing: the fonts listed are those having the properties of the pattern.
func (c *scans) listing(fn *ssa.Function) {
	isMatch := func(call *ssa.Call) bool {
		_, ok := c.match[call.Call.StaticCallee()]
		return ok
	}
	if !c.mentions(fn, isMatch) && fn.Name() != "List" {
		return
	}
	c.r.count("listings", 1)
	c.r.rule("listing: each font listed has matched the pattern, and each font which matches it is listed, once")
	o := &origin{seen: map[string]bool{}}
	for _, ret := range retsIn(fn) {
		if v := retVal(ret, 0); v != nil {
			c.flow(v, ret.Block(), &sframe{fn: fn}, o)
		}
	}
	query := c.queryParam(fn)
	for _, ad := range o.adds {
		g := ad.fr.fn
		v, call := c.guard(ad.call.Block(), isMatch)
		switch v {
		case refused:
			c.report("listing", fname(fn)+" refused", ad.call.Pos(), "%s: the fonts listed are those which do not match the pattern", fname(g))
		case open:
			c.report("listing", fname(fn), ad.call.Pos(), "%s: fonts are listed whether they match the pattern or not", fname(g))
		case accepted:
			c.r.count("fonts listed", 1)
			at := c.match[call.Call.StaticCallee()]
			if call.Call.Args[1-at] == ssa.Value(query) && call.Call.Args[at] != ssa.Value(query) {
				c.report("listing", fname(fn)+" direction", call.Pos(), "%s: the properties of the font are looked for in the pattern, not the reverse", fname(g))
			}
			if b := c.stops(ad.call.Block(), func(v ssa.Value) bool { call, ok := v.(*ssa.Call); return ok && isMatch(call) }); b != nil {
				c.report("listing", fname(fn)+" lost", c.first(b), "%s: a font which matches the pattern may not be listed", fname(g))
			}
			if b := c.w.skipped(g, []*ssa.BasicBlock{ad.call.Block()}, func(b *ssa.BasicBlock, s int) bool {
				cv, tr := edgeCond(b, s)
				if cv == nil {
					return false
				}
				if k, ok := cv.(*ssa.Const); ok && k.Value != nil {
					return constant.BoolVal(k.Value) != tr
				}
				x, tr := strip(cv, tr)
				switch x := x.(type) {
				case *ssa.Call:
					return isMatch(x) && !tr
				case *ssa.Lookup, *ssa.Extract:
					return true // already listed
				case *ssa.BinOp:
					for _, f := range condFacts(x, tr) {
						if f.eq && (isNilConst(f.x) || isNilConst(f.y)) {
							return true
						}
					}
				}
				return false
			}); b != nil && len(c.w.enclosing(g, ad.call.Block())) > 0 {
				c.report("listing", fname(fn)+" lost", c.first(b), "%s: a font which matches the pattern may not be listed", fname(g))
			}
		}
	}
	c.kept(fn, o)
}

// instances: the index of a font is read as it was written.
func (c *scans) instances() {
	c.r.rule("indices: the number of the face is read in the 16 low bits of the index of a font, the one of the instance above, less one when it is a rank in a list")
	for _, fn := range c.p.Funcs {
		if !inModule(fn) {
			continue
		}
		c.p.eachInstr(fn, func(in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.Store:
				fa, ok := in.Addr.(*ssa.FieldAddr)
				if !ok {
					return
				}
				pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
				nm, ok := pt.(*types.Named)
				if !ok || nm.Obj().Name() != "FaceID" || nm.Obj().Pkg() == nil || inModulePath(nm.Obj().Pkg().Path()) {
					return
				}
				switch nm.Underlying().(*types.Struct).Field(fa.Field).Name() {
				case "Index":
					c.index(fn, in.Val, "number of the face", func(x int64) int64 { return x & 0xffff }, in.Pos())
				case "Instance":
					c.index(fn, in.Val, "number of the instance", func(x int64) int64 { return x >> 16 }, in.Pos())
				}
			case *ssa.IndexAddr:
				sl, ok := in.X.Type().Underlying().(*types.Slice)
				if !ok {
					return
				}
				if nm, ok := sl.Elem().(*types.Named); ok && nm.Obj().Name() == "VarInstance" {
					c.index(fn, in.Index, "rank of the instance", func(x int64) int64 { return x>>16 - 1 }, in.Pos())
				}
			}
		})
	}
}

func inModulePath(s string) bool {
	return strings.HasPrefix(s, "github.com/benoitkugler/textprocessing")
}

func (c *scans) index(fn *ssa.Function, v ssa.Value, what string, want func(x int64) int64, pos token.Pos) {
	for _, x := range []int64{0x00030002, 0x00010000, 0x00020001, 0x01040203} {
		used := false
		var src ssa.Value
		got, ok := number(v, nil, func(l ssa.Value) (int64, bool) {
			switch y := l.(type) {
			case *ssa.Parameter:
			case *ssa.Extract:
				if _, ok := y.Tuple.(*ssa.Call); !ok {
					return 0, false
				}
			default:
				return 0, false
			}
			if src != nil && src != l {
				return 0, false
			}
			used, src = true, l
			return x, true
		}, 0)
		if !ok || !used {
			return
		}
		c.r.count("indices read", 1)
		if got != want(x) {
			c.report("indices", fname(fn)+" "+what, pos, "%s: the %s of the font of index %#x is read as %#x, not %#x", fname(fn), what, x, got, want(x))
			return
		}
	}
}
