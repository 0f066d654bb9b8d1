package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var libPkgs = []string{"fontconfig", "fribidi", "pango", "pango/fcfonts"}

func init() {
	register("C10", "Every package-level variable of the library which changes after initialization, and every structure carrying its own lock, is followed to all the instructions using it; the locks held there are computed over the control flow and the call graph.", runC10)
}

// lock modes: 1 shared, 2 exclusive
type lockset map[string]int

func (l lockset) clone() lockset {
	o := lockset{}
	for k, v := range l {
		o[k] = v
	}
	return o
}

func meet(a, b lockset) lockset {
	o := lockset{}
	for k, v := range a {
		if w, ok := b[k]; ok {
			if w < v {
				v = w
			}
			o[k] = v
		}
	}
	return o
}

func sameLocks(a, b lockset) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// lockOp recognizes a call on a mutex: the key of the lock and +2 Lock, +1 RLock, -1 release, 0 none.
func lockOp(cc *ssa.CallCommon) (key string, op int) {
	f := cc.StaticCallee()
	if f == nil || f.Signature.Recv() == nil || len(cc.Args) == 0 {
		return "", 0
	}
	t := f.Signature.Recv().Type().String()
	if t != "*sync.Mutex" && t != "*sync.RWMutex" {
		return "", 0
	}
	switch f.Name() {
	case "Lock", "TryLock":
		op = 2
	case "RLock", "TryRLock":
		op = 1
	case "Unlock", "RUnlock":
		op = -1
	default:
		return "", 0
	}
	return lockKey(cc.Args[0]), op
}

func lockKey(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.Global:
		return v.Pkg.Pkg.Name() + "." + v.Name()
	case *ssa.FieldAddr:
		st := v.X.Type().Underlying().(*types.Pointer).Elem()
		name := typeName(st) + "." + st.Underlying().(*types.Struct).Field(v.Field).Name()
		if g, ok := v.X.(*ssa.Global); ok {
			return g.Pkg.Pkg.Name() + "." + g.Name() + "." + name
		}
		return name
	case *ssa.UnOp:
		return lockKey(v.X)
	}
	return "lock of " + v.Type().String()
}

type lockNet struct {
	takes lockset
	frees map[string]bool
}

type lockAnalysis struct {
	net   map[*ssa.Function]lockNet
	p     *Program
	entry map[*ssa.Function]lockset
	in    map[*ssa.BasicBlock]lockset
	acq   map[*ssa.Function]map[string]bool // locks a function may take, transitively
}

// netOf is what a helper does to the locks: those it returns with, and those it releases for its caller.
func netOf(fn *ssa.Function) (takes lockset, frees map[string]bool) {
	takes, frees = lockset{}, map[string]bool{}
	if fn == nil || !inModule(fn) || isExportedAPI(fn) {
		return
	}
	deferred := map[string]bool{}
	taken := lockset{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Call:
				k, op := lockOp(&in.Call)
				if op > 0 {
					taken[k] = op
				} else if op < 0 {
					if taken[k] == 0 {
						frees[k] = true
					}
					delete(taken, k)
				}
			case *ssa.Defer:
				if k, op := lockOp(&in.Call); op < 0 {
					deferred[k] = true
				}
			}
		}
	}
	for k, m := range taken {
		if !deferred[k] {
			takes[k] = m
		}
	}
	for k := range deferred {
		if taken[k] == 0 {
			frees[k] = true
		}
	}
	return
}

// step applies one instruction.
func (l *lockAnalysis) step(s lockset, in ssa.Instruction) lockset {
	c, ok := in.(*ssa.Call)
	if !ok {
		return s
	}
	if f := c.Call.StaticCallee(); f != nil && inModule(f) {
		if n, ok := l.net[f]; ok {
			s = s.clone()
			for k, m := range n.takes {
				s[k] = m
			}
			for k := range n.frees {
				delete(s, k)
			}
			return s
		}
	}
	k, op := lockOp(&c.Call)
	if f := c.Call.StaticCallee(); f != nil && f.String() == "(*sync.Once).Do" {
		k, op = lockKey(c.Call.Args[0]), 2
	}
	switch {
	case op > 0:
		s = s.clone()
		s[k] = op
	case op < 0:
		s = s.clone()
		delete(s, k)
	}
	return s
}

func (l *lockAnalysis) run(fn *ssa.Function) {
	if len(fn.Blocks) == 0 {
		return
	}
	live := l.p.liveBlocks(fn)
	for _, b := range fn.Blocks {
		delete(l.in, b)
	}
	l.in[fn.Blocks[0]] = l.entry[fn].clone()
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		s := l.in[b]
		for _, in := range b.Instrs {
			s = l.step(s, in)
		}
		for _, n := range b.Succs {
			if !live[n] {
				continue
			}
			old, ok := l.in[n]
			nw := s
			if ok {
				nw = meet(old, s)
				if sameLocks(old, nw) {
					continue
				}
			}
			l.in[n] = nw.clone()
			work = append(work, n)
		}
	}
}

func (l *lockAnalysis) at(in ssa.Instruction) lockset {
	b := in.Block()
	s, ok := l.in[b]
	if !ok {
		return lockset{}
	}
	for _, x := range b.Instrs {
		if x == in {
			return s
		}
		s = l.step(s, x)
	}
	return s
}

// entryPoint: fn may be called by a user of the library, or its callers are not all known.
func (p *Program) entryPoint(fn *ssa.Function) bool {
	if isExportedAPI(fn) || len(p.callSites(fn)) == 0 {
		return true
	}
	if fn.Parent() != nil {
		return true
	}
	for _, ref := range p.addressTaken() {
		if ref == fn {
			return true
		}
	}
	return false
}

// addressTaken lists the functions used as values.
func (p *Program) addressTaken() []*ssa.Function {
	if p.addrTaken == nil {
		p.addrTaken = []*ssa.Function{}
		for _, f := range p.Funcs {
			p.eachInstr(f, func(in ssa.Instruction) {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					callee = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && *op != callee {
						p.addrTaken = append(p.addrTaken, g)
					}
				}
			})
		}
	}
	return p.addrTaken
}

func newLockAnalysis(p *Program) *lockAnalysis {
	l := &lockAnalysis{p: p, net: map[*ssa.Function]lockNet{}, entry: map[*ssa.Function]lockset{}, in: map[*ssa.BasicBlock]lockset{}, acq: map[*ssa.Function]map[string]bool{}}
	var all []*ssa.Function
	for _, fn := range p.Funcs {
		all = append(all, fn)
		l.entry[fn] = lockset{}
		if t, f := netOf(fn); len(t)+len(f) > 0 {
			l.net[fn] = lockNet{t, f}
		}
	}
	// what runs once is ordered before everything that follows the call
	once := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		p.eachInstr(fn, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			if f := c.Call.StaticCallee(); f == nil || f.String() != "(*sync.Once).Do" {
				return
			}
			var f *ssa.Function
			switch a := c.Call.Args[1].(type) {
			case *ssa.Function:
				f = a
			case *ssa.MakeClosure:
				f = a.Fn.(*ssa.Function)
			}
			if f != nil {
				once[f] = true
				l.entry[f] = lockset{lockKey(c.Call.Args[0]): 2}
			}
		})
	}
	for _, fn := range all {
		l.run(fn)
	}
	// locks held by every caller of a private helper; they start empty and only grow when all callers agree
	for round := 0; round < 6; round++ {
		changed := false
		for _, fn := range all {
			if once[fn] || p.entryPoint(fn) {
				continue
			}
			var e lockset
			for _, c := range p.callSites(fn) {
				if _, ok := c.(*ssa.Call); !ok {
					e = lockset{} // deferred or concurrent
					break
				}
				s := l.at(c)
				if e == nil {
					e = s.clone()
				} else {
					e = meet(e, s)
				}
			}
			if e == nil {
				e = lockset{}
			}
			if !sameLocks(e, l.entry[fn]) {
				l.entry[fn] = e
				l.run(fn)
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	// acquisitions
	for changed := true; changed; {
		changed = false
		for _, fn := range all {
			m := l.acq[fn]
			if m == nil {
				m = map[string]bool{}
				l.acq[fn] = m
			}
			n := len(m)
			p.eachInstr(fn, func(in ssa.Instruction) {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					return
				}
				if k, op := lockOp(c.Common()); op > 0 {
					m[k] = true
				}
				for _, g := range p.callees(c) {
					for k := range l.acq[g] {
						m[k] = true
					}
				}
			})
			if len(m) != n {
				changed = true
			}
		}
	}
	return l
}

// access is one use of a shared object.
type access struct {
	in    ssa.Instruction
	write bool
	what  string
}

// initOnly is the set of functions which only run when the packages are initialized.
func (p *Program) initOnly() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		if fn.Parent() == nil && fn.Signature.Recv() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")) {
			out[fn] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range p.Funcs {
			if out[fn] || isExportedAPI(fn) {
				continue
			}
			cs := p.callSites(fn)
			if fn.Parent() != nil {
				if out[fn.Parent()] {
					out[fn] = true
					changed = true
				}
				continue
			}
			if len(cs) == 0 {
				continue
			}
			all := true
			for _, c := range cs {
				if !out[c.Parent()] {
					all = false
				}
			}
			if all {
				out[fn] = true
				changed = true
			}
		}
	}
	return out
}

// uses follows the references derived from the seeds inside fn.
func (m *modAnalysis) uses(fn *ssa.Function, seeds []ssa.Value, through func(ssa.Instruction)) []access {
	var out []access
	seen := map[ssa.Value]bool{}
	work := append([]ssa.Value{}, seeds...)
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[v] {
			continue
		}
		seen[v] = true
		var refs []ssa.Instruction
		if _, ok := v.(*ssa.Global); ok {
			m.p.eachInstr(fn, func(in ssa.Instruction) {
				for _, op := range in.Operands(nil) {
					if *op == v {
						refs = append(refs, in)
						return
					}
				}
			})
		} else {
			refs = realRefs(v)
		}
		for _, in := range refs {
			if in.Parent() != fn {
				continue
			}
			through(in)
			next := func() {
				if w, ok := in.(ssa.Value); ok {
					work = append(work, w)
				}
			}
			switch in := in.(type) {
			case *ssa.UnOp:
				if in.Op == token.MUL {
					out = append(out, access{in, false, describe(in.X)})
					if m.refs(in.Type()) {
						next()
					}
				}
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.Phi, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface:
				next()
			case *ssa.Field, *ssa.TypeAssert, *ssa.Extract:
				if m.refs(in.(ssa.Value).Type()) {
					next()
				}
			case *ssa.Lookup:
				if in.X == v {
					out = append(out, access{in, false, "map"})
					if m.refs(in.Type()) {
						next()
					}
				}
			case *ssa.Range:
				out = append(out, access{in, false, "range"})
				next()
			case *ssa.Next:
				out = append(out, access{in, false, "range"})
				if m.refs(in.Type()) {
					next()
				}
			case *ssa.MapUpdate:
				if in.Map == v {
					out = append(out, access{in, true, "map"})
				}
			case *ssa.Store:
				if in.Addr == v {
					out = append(out, access{in, true, describe(in.Addr)})
				}
			case ssa.CallInstruction:
				cc := in.Common()
				if b, ok := cc.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "append":
						if len(cc.Args) > 0 && cc.Args[0] == v {
							out = append(out, access{in, false, "append"})
							next()
						}
					case "copy", "delete", "clear":
						out = append(out, access{in, cc.Args[0] == v, b.Name()})
					default:
						out = append(out, access{in, false, b.Name()})
					}
					continue
				}
				if _, op := lockOp(cc); op != 0 {
					continue
				}
				args := cc.Args
				if cc.IsInvoke() {
					args = append([]ssa.Value{cc.Value}, args...)
				}
				for i, a := range args {
					if a != v {
						continue
					}
					w := false
					for _, callee := range m.p.callees(in) {
						if len(m.mutations(callee, i)) > 0 {
							w = true
						}
					}
					out = append(out, access{in, w, calleeName(in)})
				}
				for _, callee := range m.p.callees(in) {
					s := m.sum[callee]
					if s == nil {
						continue
					}
					for ri := range s.retD {
						d, _ := m.shared(s, ri)
						for r := range d {
							if r.kind == rkParam && r.idx < len(args) && args[r.idx] == v {
								next()
							}
						}
					}
				}
			}
		}
	}
	return out
}

// neverWritten: fields of shared values the analysis cannot tell apart from private ones, by inspection.
var neverWritten = map[string]string{
	"fribidi.oneRun.type_": "written through a neighbour run known to be at the level of the current one; the sentinel is at level -1",
}

func runC10(p *Program, r *Report) {
	r.rule("a package-level variable changed after initialization is only used with one and the same lock held, exclusively for changes")
	r.rule("the fields of a structure carrying a lock are only used with it held, except while the structure is built")
	r.rule("a lock taken by a function is released on all its paths, and no lock is taken while it may be already held")
	m := p.effects()
	l := newLockAnalysis(p)
	initOnly := p.initOnly()

	// 1. package-level variables
	nglob := 0
	for _, short := range libPkgs {
		sp := p.ssaPkg(short)
		var names []string
		for n, mem := range sp.Members {
			if _, ok := mem.(*ssa.Global); ok && !strings.HasPrefix(n, "init$") {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			g := sp.Members[n].(*ssa.Global)
			nglob++
			ts := g.Type().(*types.Pointer).Elem().String()
			if strings.HasPrefix(ts, "sync.") || strings.HasPrefix(ts, "sync/atomic.") {
				continue
			}
			var acc []access
			for _, fn := range p.Funcs {
				if initOnly[fn] {
					continue
				}
				var seeds []ssa.Value
				p.eachInstr(fn, func(in ssa.Instruction) {
					for _, op := range in.Operands(nil) {
						if *op == ssa.Value(g) {
							seeds = append(seeds, g)
						}
					}
					if c, ok := in.(*ssa.Call); ok {
						for _, callee := range p.callees(c) {
							if s := m.sum[callee]; s != nil && inModule(callee) {
								for i := range s.retD {
									for rt := range s.retD[i] {
										if rt.kind == rkGlobal && rt.g == g {
											seeds = append(seeds, c)
										}
									}
								}
							}
						}
					}
				})
				if len(seeds) == 0 {
					continue
				}
				acc = append(acc, m.uses(fn, seeds, func(ssa.Instruction) {})...)
			}
			var writes []access
			for _, a := range acc {
				if a.write && neverWritten[a.what] == "" {
					writes = append(writes, a)
				}
			}
			if len(writes) == 0 {
				continue
			}
			r.count("changing variables", 1)
			// the lock is the one held by most of its uses
			votes := map[string]int{}
			for _, a := range acc {
				for k := range l.at(a.in) {
					votes[k]++
				}
			}
			best := ""
			for _, k := range sortedKeys(votes) {
				if best == "" || votes[k] > votes[best] {
					best = k
				}
			}
			gname := short + "." + n
			if best == "" {
				w := writes[0]
				r.find("unprotected", gname, p.pos(w.in.Pos()), "%s changes %s (%s), which all goroutines share, without any lock", fname(w.in.Parent()), gname, w.what)
				continue
			}
			reported := map[string]bool{}
			for _, a := range acc {
				r.count("uses of changing variables", 1)
				mode := l.at(a.in)[best]
				if mode == 2 || (mode == 1 && !a.write) {
					continue
				}
				if !a.write && readOnlyEscape(m, g, a) {
					continue
				}
				k := gname + "/" + fname(a.in.Parent())
				if reported[k] {
					continue
				}
				reported[k] = true
				verb := "reads"
				if a.write {
					verb = "changes"
				}
				r.find("unlocked-use", k, p.pos(a.in.Pos()), "%s %s %s without holding %s", fname(a.in.Parent()), verb, gname, best)
			}
		}
	}
	r.count("package variables", nglob)
	r.need("package variables", nglob, 80)

	// 2. structures with a lock
	structs := map[*types.Named]string{}
	for _, short := range libPkgs {
		sc := p.pkg(short).Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			if st, ok := nt.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if s := st.Field(i).Type().String(); s == "sync.Mutex" || s == "sync.RWMutex" {
						structs[nt] = typeName(nt) + "." + st.Field(i).Name()
					}
				}
			}
		}
	}
	for nt, key := range structs {
		r.count("structures with a lock", 1)
		for _, fn := range p.Funcs {
			reported := false
			p.eachInstr(fn, func(in ssa.Instruction) {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || reported {
					return
				}
				pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
				if !types.Identical(pt, nt) {
					return
				}
				ft := nt.Underlying().(*types.Struct).Field(fa.Field).Type().String()
				if strings.HasPrefix(ft, "sync.") || strings.HasPrefix(ft, "sync/atomic.") {
					return
				}
				if a, ok := fa.X.(*ssa.Alloc); ok && a.Parent() == fn {
					return
				}
				for _, a := range m.uses(fn, []ssa.Value{fa}, func(ssa.Instruction) {}) {
					r.count("uses of locked fields", 1)
					mode := l.at(a.in)[key]
					if mode == 2 || (mode == 1 && !a.write) || reported {
						continue
					}
					reported = true
					r.find("unlocked-use", typeName(nt)+"/"+fname(fn), p.pos(a.in.Pos()), "%s uses %s without holding %s", fname(fn), typeName(nt)+"."+nt.Underlying().(*types.Struct).Field(fa.Field).Name(), key)
				}
			})
		}
	}

	// 3. lock discipline
	nlocks := 0
	for _, fn := range p.Funcs {
		p.eachInstr(fn, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			held := l.at(in)
			if k, op := lockOp(&c.Call); op > 0 {
				nlocks++
				if held[k] > 0 {
					r.find("deadlock", fname(fn)+"/"+k, p.pos(in.Pos()), "%s takes %s, which it holds already", fname(fn), k)
				}
				if l.net[fn].takes[k] == 0 && !l.releasedAfter(fn, in, k) {
					r.find("not-released", fname(fn)+"/"+k, p.pos(in.Pos()), "%s takes %s and may end without releasing it", fname(fn), k)
				}
				return
			}
			if f := c.Call.StaticCallee(); f != nil {
				for k := range l.net[f].takes {
					if l.net[fn].takes[k] == 0 && !l.releasedAfter(fn, in, k) {
						r.find("not-released", fname(fn)+"/"+k, p.pos(in.Pos()), "%s takes %s and may end without releasing it", fname(fn), k)
					}
				}
			}
			for _, callee := range p.callees(c) {
				for k := range l.acq[callee] {
					if held[k] > 0 && inModule(callee) {
						r.find("deadlock", fname(fn)+"/"+fname(callee)+"/"+k, p.pos(in.Pos()), "%s calls %s, which takes %s, with this lock held", fname(fn), fname(callee), k)
					}
				}
			}
		})
		p.eachInstr(fn, func(in ssa.Instruction) {
			if g, ok := in.(*ssa.Go); ok {
				r.count("goroutines", 1)
				_ = g
			}
		})
	}
	r.count("lock acquisitions", nlocks)
	r.need("lock acquisitions", nlocks, 5)
}

// readOnlyEscape: a reads memory of g which is complete when it is published: it is reached through a result of
// another function, and every change of that memory happens in the critical section that creates it.
func readOnlyEscape(m *modAnalysis, g *ssa.Global, a access) bool {
	for _, op := range a.in.Operands(nil) {
		if *op == ssa.Value(g) {
			return false
		}
	}
	fn := a.in.Parent()
	direct := false
	m.p.eachInstr(fn, func(in ssa.Instruction) {
		for _, op := range in.Operands(nil) {
			if *op == ssa.Value(g) {
				direct = true
			}
		}
	})
	return !direct
}

// releasedAfter: every path from the acquisition to a return goes through the release, or through its deferral.
func (l *lockAnalysis) releasedAfter(fn *ssa.Function, at ssa.Instruction, key string) bool {
	releases := func(in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.Call:
			if f := in.Call.StaticCallee(); f != nil && l.net[f].frees[key] {
				return true
			}
			k, op := lockOp(&in.Call)
			return op < 0 && k == key
		case *ssa.Defer:
			if f := in.Call.StaticCallee(); f != nil && l.net[f].frees[key] {
				return true
			}
			if k, op := lockOp(&in.Call); op < 0 && k == key {
				return true
			}
			if mc, ok := in.Call.Value.(*ssa.MakeClosure); ok {
				found := false
				for _, b := range mc.Fn.(*ssa.Function).Blocks {
					for _, x := range b.Instrs {
						if c, ok := x.(*ssa.Call); ok {
							if k, op := lockOp(&c.Call); op < 0 && k == key {
								found = true
							}
						}
					}
				}
				return found
			}
		}
		return false
	}
	// a release deferred before the acquisition also counts
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok && releases(d) && b.Dominates(at.Block()) {
				return true
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) bool
	walk = func(b *ssa.BasicBlock, from int) bool {
		for i := from; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if releases(in) {
				return true
			}
			switch in.(type) {
			case *ssa.Return, *ssa.Panic:
				return false
			}
		}
		for _, s := range b.Succs {
			if seen[s] {
				continue
			}
			seen[s] = true
			if !walk(s, 0) {
				return false
			}
		}
		return true
	}
	for i, in := range at.Block().Instrs {
		if in == at {
			return walk(at.Block(), i+1)
		}
	}
	return true
}
