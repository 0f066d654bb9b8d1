package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C11", "Every loop over a map, every sort and every source of randomness of the library is examined for results depending on an arbitrary order.", runC11)
}

// setTypes: inserting or removing elements in any order gives the same value.
var setTypes = map[string]bool{"fontconfig.Langset": true, "fontconfig.Charset": true, "fontconfig.strSet": true, "fontconfig.Coverage": true}

func runC11(p *Program, r *Report) {
	r.rule("what a loop over a map leaves behind does not depend on the order of the iteration: it fills maps or sets at the visited key, accumulates with a commutative operation, selects a constant or an extremum, or sorts what it collected")
	r.rule("a sort either is stable or compares elements by a total order")
	r.rule("no result comes from a random generator, the clock, or an unsorted enumeration of keys")
	m := p.effects()
	for _, fn := range p.Funcs {
		p.eachInstr(fn, func(in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.Range:
				if _, ok := in.X.Type().Underlying().(*types.Map); ok {
					r.count("map loops", 1)
					r.sample("loop over a map: %s %s", p.pos(in.Pos()), fname(fn))
					checkMapLoop(p, r, m, fn, in)
				}
			case *ssa.Go:
				r.count("goroutines", 1)
				if what := collectsConcurrently(p, in); what != "" {
					r.find("schedule", fname(topFunc(fn)), p.pos(in.Pos()), "%s starts goroutines which %s: the order depends on how they are scheduled", fname(fn), what)
				}
			case *ssa.Convert:
				if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer && isBasicT(types.IsInteger)(in.Type()) {
					r.find("random-source", fname(topFunc(fn))+"/address", p.pos(in.Pos()), "%s uses an address as a number", fname(fn))
				}
			case *ssa.Select:
				if len(in.States) > 1 {
					r.find("random-choice", fname(fn), p.pos(in.Pos()), "%s chooses arbitrarily among channels", fname(fn))
				}
			case *ssa.Call:
				n := calleeName(in)
				switch {
				case strings.HasPrefix(n, "math/rand") || strings.HasPrefix(n, "crypto/rand") || strings.HasPrefix(n, "hash/maphash") || strings.HasPrefix(n, "(*hash/maphash") || strings.HasPrefix(n, "(*math/rand") || randomSources[n]:
					r.find("random-source", fname(fn)+"/"+n, p.pos(in.Pos()), "%s uses %s", fname(fn), n)
				case n == "(*os.File).Readdir" || n == "(*os.File).ReadDir" || n == "(*os.File).Readdirnames":
					if !sortedResult(p, in) {
						r.find("unsorted-keys", fname(fn), p.pos(in.Pos()), "%s enumerates a directory in the arbitrary order %s gives", fname(fn), n)
					}
				case n == "sort.Slice" || n == "sort.Sort" || n == "slices.SortFunc" || strings.HasPrefix(n, "slices.SortFunc["):
					r.count("sorts", 1)
					if !totalOrder(p, in) {
						r.find("unstable-sort", fname(topFunc(fn)), p.pos(in.Pos()), "%s orders elements with %s by a comparison under which different elements may be equal: their order is arbitrary", fname(fn), n)
					}
				case n == "sort.Stable" || n == "sort.SliceStable" || strings.HasPrefix(n, "slices.SortStableFunc") || n == "sort.Strings" || n == "sort.Ints" || strings.HasPrefix(n, "slices.Sort"):
					r.count("sorts", 1)
				case strings.HasPrefix(n, "maps.Keys") || strings.HasPrefix(n, "maps.Values") || strings.HasPrefix(n, "maps.All") || n == "(reflect.Value).MapKeys" || n == "(reflect.Value).MapRange":
					ok := false
					for _, ref := range realRefs(in) {
						if c, is := ref.(*ssa.Call); is && strings.HasPrefix(calleeName(c), "slices.Sorted") {
							ok = true
						}
					}
					if !ok {
						r.find("unsorted-keys", fname(fn), p.pos(in.Pos()), "%s enumerates the content of a map in an arbitrary order", fname(fn))
					}
				}
			}
		})
	}
	r.need("map loops", r.Counts["map loops"], 15)
	r.need("sorts", r.Counts["sorts"], 4)
}

// randomSources: what these return does not depend on the inputs of the library.
var randomSources = map[string]bool{
	"time.Now": true, "time.Since": true, "time.Until": true, "os.Getpid": true, "os.Getppid": true, "os.Hostname": true,
	"runtime.NumCPU": true, "runtime.NumGoroutine": true, "runtime.GOMAXPROCS": true, "runtime.ReadMemStats": true,
	"(reflect.Value).Pointer": true, "(reflect.Value).UnsafeAddr": true, "(reflect.Value).UnsafePointer": true,
}

// sortedResult: the list returned first by c is sorted before anything else is done with it.
func sortedResult(p *Program, c *ssa.Call) bool {
	for _, ref := range realRefs(c) {
		ex, ok := ref.(*ssa.Extract)
		if !ok || ex.Index != 0 {
			continue
		}
		for _, r2 := range realRefs(ex) {
			var v ssa.Value = ex
			if mi, ok := r2.(*ssa.MakeInterface); ok {
				v, r2 = mi, nil
				for _, r3 := range realRefs(mi) {
					r2 = r3
				}
			}
			call, ok := r2.(*ssa.Call)
			if !ok || len(call.Call.Args) == 0 || call.Call.Args[0] != v {
				continue
			}
			n := calleeName(call)
			if n == "sort.Strings" || strings.HasPrefix(n, "slices.Sort") || strings.HasPrefix(n, "sort.S") {
				return true
			}
		}
	}
	return false
}

// collectsConcurrently: the function started appends to, or sends on, something it shares with its creator.
func collectsConcurrently(p *Program, g *ssa.Go) string {
	fn := isFunc(g.Call.Value)
	if fn == nil {
		if f := g.Call.StaticCallee(); f != nil {
			fn = f
		} else {
			return ""
		}
	}
	what := ""
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function, depth int)
	visit = func(fn *ssa.Function, depth int) {
		if fn == nil || seen[fn] || depth > 4 {
			return
		}
		seen[fn] = true
		p.eachInstr(fn, func(in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.Send:
				what = "send what they find on a channel"
			case *ssa.Store:
				c, ok := in.Val.(*ssa.Call)
				if !ok {
					return
				}
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					switch addrRoot(in.Addr).(type) {
					case *ssa.FreeVar, *ssa.Global:
						what = "append what they find to a shared list"
					case *ssa.Parameter:
						if depth == 0 {
							what = "append what they find to a shared list"
						}
					}
				}
			case *ssa.Call:
				if depth == 0 {
					if mc, ok := in.Call.Value.(*ssa.MakeClosure); ok {
						visit(mc.Fn.(*ssa.Function), depth+1)
					}
				}
			}
		})
	}
	visit(fn, 0)
	return what
}

func isFunc(v ssa.Value) *ssa.Function {
	switch v := v.(type) {
	case *ssa.Function:
		return v
	case *ssa.MakeClosure:
		return v.Fn.(*ssa.Function)
	case *ssa.MakeInterface:
		return isFunc(v.X)
	}
	return nil
}

// totalOrder: the comparison of a sort distinguishes all different elements: basic elements compared directly,
// or a last comparison on a field which numbers the elements.
func totalOrder(p *Program, c *ssa.Call) bool {
	args := c.Call.Args
	var less *ssa.Function
	x := args[0]
	if mi, ok := x.(*ssa.MakeInterface); ok {
		x = mi.X
	}
	if len(args) > 1 {
		less = isFunc(args[1])
	} else {
		ms := p.SSA.MethodSets.MethodSet(x.Type())
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == "Less" {
				less = p.SSA.MethodValue(ms.At(i))
			}
		}
	}
	if less == nil {
		return false
	}
	// last comparisons: the values returned
	var total func(fn *ssa.Function, depth int) bool
	total = func(fn *ssa.Function, depth int) bool {
		found := false
		p.eachInstr(fn, func(in ssa.Instruction) {
			ret, ok := in.(*ssa.Return)
			if !ok || len(ret.Results) != 1 {
				return
			}
			switch v := ret.Results[0].(type) {
			case *ssa.BinOp:
				if v.Op != token.LSS && v.Op != token.GTR && v.Op != token.SUB {
					return
				}
				if el, ok := elemLoad(v.X); ok {
					if el2, ok := elemLoad(v.Y); ok {
						_, b1 := el.Underlying().(*types.Basic)
						_, b2 := el2.Underlying().(*types.Basic)
						found = found || b1 && b2
					}
				}
				if numberingField(p, v.X) && numberingField(p, v.Y) {
					found = true
				}
			case *ssa.Call:
				if f := v.Call.StaticCallee(); f != nil && inModule(f) && depth < 3 && total(f, depth+1) {
					found = true
				}
			}
		})
		return found
	}
	return total(less, 0)
}

// elemLoad: v is an element of a slice, compared whole.
func elemLoad(v ssa.Value) (types.Type, bool) {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if _, ok := u.X.(*ssa.IndexAddr); ok {
			return u.Type(), true
		}
	}
	return nil, false
}

// numberingField: v reads a field which is only ever set to a loop index.
func numberingField(p *Program, v ssa.Value) bool {
	var st types.Type
	idx := -1
	switch v := v.(type) {
	case *ssa.Field:
		st, idx = v.X.Type(), v.Field
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL {
			st, idx = fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field
		}
	}
	if idx < 0 {
		return false
	}
	n, all := 0, true
	for _, fn := range p.Funcs {
		p.eachInstr(fn, func(in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || fa.Field != idx || !types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), st) {
				return
			}
			n++
			val := s.Val
			for {
				if c, ok := val.(*ssa.Convert); ok {
					val = c.X
					continue
				}
				break
			}
			switch val := val.(type) {
			case *ssa.Phi:
			case *ssa.BinOp:
				if !isIntConst(val.Y, 1) {
					all = false
				}
			default:
				all = false
			}
		})
	}
	return n > 0 && all
}

type mapLoop struct {
	p       *Program
	m       *modAnalysis
	fn      *ssa.Function
	rng     *ssa.Range
	next    *ssa.Next
	header  *ssa.BasicBlock
	body    map[*ssa.BasicBlock]bool
	key     ssa.Value
	elem    ssa.Value
	depends map[ssa.Value]bool // values defined from the visited element
}

func checkMapLoop(p *Program, r *Report, m *modAnalysis, fn *ssa.Function, rng *ssa.Range) {
	l := &mapLoop{p: p, m: m, fn: fn, rng: rng, body: map[*ssa.BasicBlock]bool{}}
	for _, ref := range realRefs(rng) {
		if n, ok := ref.(*ssa.Next); ok {
			l.next = n
			l.header = n.Block()
		}
	}
	if l.next == nil {
		return
	}
	for _, ref := range realRefs(l.next) {
		if e, ok := ref.(*ssa.Extract); ok {
			switch e.Index {
			case 1:
				l.key = e
			case 2:
				l.elem = e
			}
		}
	}
	live := p.liveBlocks(fn)
	// the natural loop
	l.body[l.header] = true
	var work []*ssa.BasicBlock
	for _, pr := range l.header.Preds {
		if l.header.Dominates(pr) && live[pr] {
			work = append(work, pr)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if l.body[b] {
			continue
		}
		l.body[b] = true
		work = append(work, b.Preds...)
	}
	bad := func(what string, pos token.Pos) {
		if !pos.IsValid() {
			pos = rng.Pos()
		}
		r.find("map-order", fname(topFunc(fn)), p.pos(pos), "%s iterates over a map and %s", fname(fn), what)
	}
	if len(l.body) == 1 {
		for _, v := range []ssa.Value{l.key, l.elem} {
			if v != nil && len(realRefs(v)) > 0 {
				bad("picks an arbitrary element", rng.Pos())
				break
			}
		}
		return
	}
	inLoop := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && l.body[in.Block()]
	}
	effects := false
	// accumulators
	accs := map[ssa.Value]string{}
	for _, in := range l.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		kind := l.accumulator(ph)
		accs[ph] = kind
		switch kind {
		case "same":
		case "collect":
			effects = true
			if !sortedAfter(p, fn, ph, l.body) {
				bad("collects what it finds in that order", ph.Pos())
			}
		case "":
			used := false
			for _, ref := range realRefs(ph) {
				if !l.body[ref.Block()] && !unusedResult(p, fn, ref, ph) {
					used = true
				}
			}
			if used {
				bad("keeps a value depending on the order ("+ph.Comment+")", ph.Pos())
			} else {
				for _, ref := range realRefs(ph) {
					if _, ok := ref.(*ssa.Store); ok {
						bad("stores a value depending on the order ("+ph.Comment+")", ref.Pos())
					}
				}
			}
		default:
			r.count("accumulators", 1)
		}
	}
	// effects of the body
	for b := range l.body {
		if !live[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				root := addrRoot(in.Addr)
				if a, ok := root.(*ssa.Alloc); ok && l.body[a.Block()] {
					continue // local to one iteration
				}
				if a, ok := root.(*ssa.Alloc); ok && !a.Heap && onlyIn(a, l.body) {
					continue
				}
				if a, ok := in.Addr.(*ssa.Alloc); ok {
					if c, ok := in.Val.(*ssa.Call); ok {
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && sameLoad(c.Call.Args[0], a) {
							effects = true
							if !sortedVar(p, a, l.body) {
								bad("collects what it finds in that order", in.Pos())
							}
							continue
						}
					}
				}
				if l.commutativeStore(in) {
					effects = true
					continue
				}
				if _, ok := in.Val.(*ssa.Const); ok && !l.fromElem(in.Addr) {
					effects = true
					continue
				}
				if l.fromElem(root) { // changes the visited element itself
					continue
				}
				bad("stores into "+describe(in.Addr)+" a value depending on the order", in.Pos())
			case *ssa.MapUpdate:
				if a, ok := addrRoot(in.Map).(*ssa.Alloc); ok && l.body[a.Block()] {
					continue
				}
				effects = true
				if in.Key == l.key && !l.carried(in.Value) {
					continue
				}
				if !inLoop(in.Value) && !inLoop2(in.Value, l) {
					continue // adding to a set
				}
				bad("fills a map, where the last one wins", in.Pos())
			case *ssa.Send, *ssa.Go:
				bad("sends what it finds in that order", in.Pos())
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "copy" {
						bad("copies what it finds in that order", in.Pos())
					}
					continue
				}
				args := in.Call.Args
				if in.Call.IsInvoke() {
					args = append([]ssa.Value{in.Call.Value}, args...)
				}
				hasKey := false
				for _, a := range args {
					if a == l.key {
						hasKey = true
					}
				}
				callees := p.callees(in)
				if f := in.Call.StaticCallee(); f != nil && !inModule(f) {
					callees = []*ssa.Function{f}
				}
				for i, a := range args {
					if _, isConst := a.(*ssa.Const); isConst || l.fromElem(a) || !m.refs(a.Type()) {
						continue
					}
					if al, ok := addrRoot(a).(*ssa.Alloc); ok && l.body[al.Block()] {
						continue
					}
					mutated := false
					for _, c := range callees {
						if i < len(c.Params) && len(m.mutations(c, i)) > 0 {
							mutated = true
						}
					}
					n := calleeName(in)
					if isWriter(a.Type()) {
						mutated = true
					}
					if !mutated {
						continue
					}
					t := typeName(a.Type())
					if setTypes[t] {
						effects = true
						continue
					}
					// the place changed is chosen by the key
					switch a.Type().Underlying().(type) {
					case *types.Map, *types.Slice:
						if hasKey || l.keyIsConst(in.Block()) {
							continue
						}
					}
					effects = true
					bad("passes "+t+" to "+n+", which changes it in that order", in.Pos())
				}
			}
		}
	}
	// early exits
	exit := ""
	for b := range l.body {
		if b == l.header || !live[b] {
			continue
		}
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			_ = ret // not in a natural loop
		}
		for _, s := range b.Succs {
			if l.body[s] || !live[s] {
				continue
			}
			r.count("early exits", 1)
			sig, why := l.exitValues(b, s, accs)
			if why == "" {
				why = l.stopsShort(b, s, accs)
			}
			if why != "" {
				bad(why, b.Instrs[len(b.Instrs)-1].Pos())
				continue
			}
			if exit != "" && exit != sig {
				bad("stops with different answers according to what it meets first", b.Instrs[len(b.Instrs)-1].Pos())
			}
			exit = sig
			if effects {
				bad("stops early after having changed something", b.Instrs[len(b.Instrs)-1].Pos())
			}
		}
	}
}

// isWriter: t has a method Write([]byte) (int, error).
func isWriter(t types.Type) bool {
	obj, _, _ := types.LookupFieldOrMethod(t, true, nil, "Write")
	f, ok := obj.(*types.Func)
	if !ok {
		return false
	}
	sig := f.Type().(*types.Signature)
	if sig.Params().Len() != 1 || sig.Results().Len() != 2 {
		return false
	}
	s, ok := sig.Params().At(0).Type().Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem().Underlying(), types.Typ[types.Byte])
}

// keyIsConst: the block is only reached for one given key.
func (l *mapLoop) keyIsConst(b *ssa.BasicBlock) bool {
	for _, f := range blockFacts(b) {
		if f.eq {
			_, k1 := f.x.(*ssa.Const)
			_, k2 := f.y.(*ssa.Const)
			if f.x == l.key && k2 || f.y == l.key && k1 {
				return true
			}
		}
	}
	return false
}

func inLoop2(v ssa.Value, l *mapLoop) bool {
	_, isConst := v.(*ssa.Const)
	return !isConst && (v == l.key || v == l.elem)
}

func onlyIn(a *ssa.Alloc, body map[*ssa.BasicBlock]bool) bool {
	for _, ref := range realRefs(a) {
		if !body[ref.Block()] {
			return false
		}
	}
	return true
}

// addrRoot is the object an address or reference belongs to.
func addrRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// fromElem: v is reached from the visited key or element.
func (l *mapLoop) fromElem(v ssa.Value) bool {
	r := addrRoot(v)
	return r != nil && (r == l.key || r == l.elem)
}

// carried: v depends on what former iterations did.
func (l *mapLoop) carried(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		in, ok := v.(ssa.Instruction)
		if !ok || !l.body[in.Block()] {
			return false
		}
		if ph, ok := v.(*ssa.Phi); ok && ph.Block() == l.header {
			return l.accumulator(ph) != "same"
		}
		if c, ok := v.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				// the length of something the loop fills
				for b := range l.body {
					for _, in := range b.Instrs {
						if mu, ok := in.(*ssa.MapUpdate); ok && addrRoot(mu.Map) == addrRoot(c.Call.Args[0]) {
							return true
						}
					}
				}
			}
		}
		if v == l.next {
			return false
		}
		for _, op := range in.Operands(nil) {
			if *op != nil && rec(*op) {
				return true
			}
		}
		return false
	}
	return rec(v)
}

// accumulator classifies a loop-carried variable.
func (l *mapLoop) accumulator(ph *ssa.Phi) string {
	var leaves []ssa.Value
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if v == ssa.Value(ph) || seen[v] {
			return
		}
		seen[v] = true
		if p2, ok := v.(*ssa.Phi); ok && l.body[p2.Block()] {
			for _, e := range p2.Edges {
				rec(e)
			}
			return
		}
		leaves = append(leaves, v)
	}
	for i, e := range ph.Edges {
		if l.body[ph.Block().Preds[i]] {
			rec(e)
		}
	}
	if len(leaves) == 0 {
		return "same"
	}
	kind := ""
	set := func(k string) bool {
		if kind == "" {
			kind = k
		}
		return kind == k
	}
	var firstConst string
	for _, v := range leaves {
		switch v := v.(type) {
		case *ssa.Const:
			s := v.String()
			if firstConst == "" {
				firstConst = s
			}
			if s != firstConst || !set("const") {
				return ""
			}
			continue
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && derives(v.Call.Args[0], ph, l) {
				if !set("collect") {
					return ""
				}
				continue
			}
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && (b.Name() == "min" || b.Name() == "max") {
				if !set(b.Name()) {
					return ""
				}
				continue
			}
			if f := v.Call.StaticCallee(); f != nil && (f.Name() == "min" || f.Name() == "max" || f.Name() == "minF" || f.Name() == "maxF") {
				if !set(f.Name()) {
					return ""
				}
				continue
			}
		case *ssa.BinOp:
			if (derives(v.X, ph, l) || derives(v.Y, ph, l)) && commutative(v) {
				if !set("sum") {
					return ""
				}
				continue
			}
		}
		// an extremum: kept only when it compares below (above) the one kept so far
		if l.comparedWith(v, ph) {
			if !set("extremum") {
				return ""
			}
			continue
		}
		return ""
	}
	return kind
}

func derives(v ssa.Value, ph *ssa.Phi, l *mapLoop) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if v == ssa.Value(ph) {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if rec(e) {
					return true
				}
			}
		case *ssa.BinOp:
			return rec(x.X) || rec(x.Y)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return rec(x.Call.Args[0])
			}
		}
		return false
	}
	return rec(v)
}

func commutative(b *ssa.BinOp) bool {
	if t, ok := b.Type().Underlying().(*types.Basic); ok && t.Info()&(types.IsString|types.IsFloat) != 0 {
		return false // the sum of floats depends on the order
	}
	switch b.Op {
	case token.ADD, token.MUL, token.OR, token.AND, token.XOR, token.AND_NOT:
		return true
	}
	return false
}

// comparedWith: v replaces ph under the condition v < ph (or >).
func (l *mapLoop) comparedWith(v ssa.Value, ph *ssa.Phi) bool {
	for b := range l.body {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				if bo.X == v && bo.Y == ssa.Value(ph) || bo.Y == v && bo.X == ssa.Value(ph) {
					return true
				}
			}
		}
	}
	return false
}

func (l *mapLoop) commutativeStore(s *ssa.Store) bool {
	b, ok := s.Val.(*ssa.BinOp)
	if !ok || !commutative(b) {
		return false
	}
	for _, x := range []ssa.Value{b.X, b.Y} {
		if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL && sameAddr(u.X, s.Addr) {
			return true
		}
	}
	return false
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch a := a.(type) {
	case *ssa.FieldAddr:
		b, ok := b.(*ssa.FieldAddr)
		return ok && a.Field == b.Field && sameAddr(a.X, b.X)
	case *ssa.IndexAddr:
		b, ok := b.(*ssa.IndexAddr)
		return ok && a.Index == b.Index && sameAddr(a.X, b.X)
	}
	return false
}

// exitValues describes what leaves the loop through an early exit; why is not empty when it depends on the element.
func (l *mapLoop) exitValues(from, to *ssa.BasicBlock, accs map[ssa.Value]string) (sig, why string) {
	check := func(v ssa.Value) {
		if v == nil {
			return
		}
		if k, ok := v.(*ssa.Const); ok {
			sig += k.String() + ","
			return
		}
		if k, ok := accs[v]; ok && (k == "extremum" || k == "same" || k == "const" || k == "min" || k == "max") {
			if k != "same" && k != "const" && !atBound(from, to, v) {
				why = "stops before the extremum is found"
			}
			sig += "acc,"
			return
		}
		in, ok := v.(ssa.Instruction)
		if ok && l.body[in.Block()] {
			if isError(v.Type()) {
				sig += "error,"
				return
			}
			why = "returns what it finds first"
			return
		}
		sig += "outer,"
	}
	// values carried by the edge
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range to.Preds {
			if pr == from {
				check(ph.Edges[i])
			}
		}
	}
	// values used directly by what is only reached through this exit
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || l.body[b] || (b != to && !to.Dominates(b)) {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi:
				continue
			case *ssa.Return:
				for _, v := range in.Results {
					if v != nil && unusedResult(l.p, l.fn, in, v) {
						continue
					}
					check(v)
				}
				continue
			}
			for _, op := range in.Operands(nil) {
				v := *op
				if v == nil {
					continue
				}
				if d, ok := v.(ssa.Instruction); ok && l.body[d.Block()] {
					if _, isAcc := accs[v]; isAcc {
						continue
					}
					if al, ok := v.(*ssa.Alloc); ok && !l.body[al.Block()] {
						continue
					}
					if _, ok := in.(*ssa.MakeInterface); ok || isErrorBuild(in) {
						continue
					}
					why = "goes on with what it finds first"
				}
			}
		}
		if len(to.Preds) == 1 || b != to {
			for _, s := range b.Succs {
				walk(s)
			}
		}
	}
	if len(to.Preds) == 1 {
		walk(to)
	}
	return sig, why
}

// stopsShort: leaving on this edge, an accumulator used later may not have seen all the elements.
func (l *mapLoop) stopsShort(from, to *ssa.BasicBlock, accs map[ssa.Value]string) string {
	reach := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{to}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if reach[b] || l.body[b] {
			continue
		}
		reach[b] = true
		work = append(work, b.Succs...)
	}
	for v, k := range accs {
		if k == "same" || k == "const" || k == "" {
			continue
		}
		used := false
		for _, ref := range realRefs(v) {
			if l.body[ref.Block()] || !reach[ref.Block()] || unusedResult(l.p, l.fn, ref, v) {
				continue
			}
			if ph, ok := ref.(*ssa.Phi); ok {
				// only the edges taken when leaving here
				for i, e := range ph.Edges {
					pr := ph.Block().Preds[i]
					if e == v && (pr == from && ph.Block() == to || reach[pr]) {
						used = true
					}
				}
				continue
			}
			used = true
		}
		if used && (k == "sum" || k == "collect" || !atBound(from, to, v)) {
			return "stops before it has seen all the elements"
		}
	}
	return ""
}

// atBound: the loop stops on this edge because the extremum v is the smallest (or largest) constant of its type.
func atBound(from, to *ssa.BasicBlock, v ssa.Value) bool {
	named, ok := v.Type().(*types.Named)
	iff, ok2 := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok2 {
		return true // not understood
	}
	b, ok3 := iff.Cond.(*ssa.BinOp)
	if !ok3 {
		return true
	}
	x, y, op := b.X, b.Y, b.Op
	if _, isC := x.(*ssa.Const); isC {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	k, ok4 := y.(*ssa.Const)
	if x != v || !ok4 || k.Value == nil || k.Value.Kind() != constant.Int {
		return true
	}
	if iff.Block().Succs[1] == to && to != iff.Block().Succs[0] {
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.GTR:
			op = token.LEQ
		case token.LEQ:
			op = token.GTR
		case token.GEQ:
			op = token.LSS
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		}
	}
	val, _ := constant.Int64Val(k.Value)
	var lo, hi int64
	n := 0
	if ok && named.Obj().Pkg() != nil {
		sc := named.Obj().Pkg().Scope()
		for _, name := range sc.Names() {
			c, isC := sc.Lookup(name).(*types.Const)
			if !isC || !types.Identical(c.Type(), named) {
				continue
			}
			if cv, exact := constant.Int64Val(constant.ToInt(c.Val())); exact {
				if n == 0 || cv < lo {
					lo = cv
				}
				if n == 0 || cv > hi {
					hi = cv
				}
				n++
			}
		}
	}
	if n == 0 {
		return isBasicT(types.IsUnsigned)(v.Type()) && val == 0
	}
	switch op {
	case token.LEQ:
		return val <= lo
	case token.LSS:
		return val <= lo+1
	case token.GEQ:
		return val >= hi
	case token.GTR:
		return val >= hi-1
	case token.EQL:
		return val == lo || val == hi
	}
	return true
}

func isErrorBuild(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	if !ok {
		if s, ok := in.(*ssa.Store); ok {
			_, isArr := addrRoot(s.Addr).(*ssa.Alloc)
			return isArr
		}
		return false
	}
	n := calleeName(c)
	return n == "fmt.Errorf" || n == "errors.New"
}

// sortedAfter: what was collected in ph is sorted by a total order once the loop is over, before any other use.
func sortedAfter(p *Program, fn *ssa.Function, ph *ssa.Phi, body map[*ssa.BasicBlock]bool) bool {
	vals := map[ssa.Value]bool{ph: true}
	work := []ssa.Value{ph}
	var sortIn ssa.Instruction
	var uses []ssa.Instruction
	for len(work) > 0 {
		v := work[0]
		work = work[1:]
		for _, ref := range realRefs(v) {
			if body[ref.Block()] {
				continue
			}
			switch ref := ref.(type) {
			case *ssa.MakeInterface, *ssa.ChangeType, *ssa.Slice, *ssa.Phi:
				w := ref.(ssa.Value)
				if !vals[w] {
					vals[w] = true
					work = append(work, w)
				}
				continue
			case *ssa.Store:
				if a, ok := ref.Addr.(*ssa.Alloc); ok && !vals[a] {
					vals[a] = true
					for _, r2 := range realRefs(a) {
						if u, ok := r2.(*ssa.UnOp); ok && !vals[u] {
							vals[u] = true
							work = append(work, u)
						}
					}
				}
				continue
			case *ssa.MakeClosure:
				continue
			case *ssa.Call:
				n := calleeName(ref)
				switch {
				case n == "sort.Strings" || n == "sort.Ints" || n == "sort.Float64s" || n == "slices.Sort" || strings.HasPrefix(n, "slices.Sort["):
					sortIn = ref
					continue
				case n == "sort.Slice" || n == "sort.SliceStable" || n == "sort.Sort" || n == "sort.Stable" || strings.HasPrefix(n, "slices.SortFunc") || strings.HasPrefix(n, "slices.SortStableFunc"):
					if totalOrder(p, ref) {
						sortIn = ref
						continue
					}
				}
			}
			uses = append(uses, ref)
		}
	}
	if sortIn == nil {
		return false
	}
	for _, u := range uses {
		if !dominates(sortIn, u) {
			return false
		}
	}
	return true
}

// unusedResult: the use of v only makes it a result that no caller looks at.
func unusedResult(p *Program, fn *ssa.Function, use ssa.Instruction, v ssa.Value) bool {
	ret, ok := use.(*ssa.Return)
	if !ok || p.entryPoint(fn) {
		return false
	}
	for i, x := range ret.Results {
		if x != v {
			continue
		}
		for _, c := range p.callSites(fn) {
			val, ok := c.(ssa.Value)
			if !ok {
				continue
			}
			if len(ret.Results) == 1 {
				if len(realRefs(val)) > 0 {
					return false
				}
				continue
			}
			for _, ref := range realRefs(val) {
				if ex, ok := ref.(*ssa.Extract); !ok || ex.Index == i && len(realRefs(ex)) > 0 {
					return false
				}
			}
		}
	}
	return true
}

func sameLoad(v ssa.Value, a *ssa.Alloc) bool {
	u, ok := v.(*ssa.UnOp)
	return ok && u.Op == token.MUL && u.X == ssa.Value(a)
}

// sortedVar: like sortedAfter for a variable in memory.
func sortedVar(p *Program, a *ssa.Alloc, body map[*ssa.BasicBlock]bool) bool {
	var sortIn ssa.Instruction
	var uses []ssa.Instruction
	for _, ref := range realRefs(a) {
		u, ok := ref.(*ssa.UnOp)
		if !ok || body[u.Block()] {
			continue
		}
		sorts := false
		work := []ssa.Value{u}
		for len(work) > 0 {
			v := work[0]
			work = work[1:]
			for _, r2 := range realRefs(v) {
				switch r2 := r2.(type) {
				case *ssa.MakeInterface:
					work = append(work, r2)
				case *ssa.Call:
					n := calleeName(r2)
					if n == "sort.Strings" || n == "sort.Ints" || (strings.HasPrefix(n, "sort.S") || strings.HasPrefix(n, "slices.Sort")) && totalOrder(p, r2) {
						sorts = true
						sortIn = r2
					}
				}
			}
		}
		if !sorts {
			uses = append(uses, u)
		}
	}
	if sortIn == nil {
		return false
	}
	for _, u := range uses {
		if !dominates(sortIn, u) && !dominates(u, a.Block().Instrs[len(a.Block().Instrs)-1]) {
			return false
		}
	}
	return true
}
