package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Effect analysis: which memory reachable from a parameter, free variable or global a
// function (transitively) writes, and which of that memory its results share.
//
// Memory reachable from a parameter or global is one root, whatever the depth. Every
// allocation site (make, new, composite literal, append, call result) is an abstract
// object with per-field contents, so that writing to a fresh copy is no write to the
// original, while writing through a reference kept in the copy is.

type rootKind uint8

const (
	rkParam rootKind = iota
	rkFree
	rkGlobal
	rkObj
)

type root struct {
	kind rootKind
	idx  int
	g    *ssa.Global
	fld  int        // first-level field of an object, -1 for the whole
	typ  types.Type // type of the reference through which it was reached (nil: unknown), canonical
}

type taint map[root]string // label: how it was reached

type vinfo struct {
	direct taint
	fields map[int]taint
}

func (t taint) has(r root) bool { _, ok := t[r]; return ok }

type effect struct {
	kind string     // what is written: T.f, elem of T.f, map T.f
	own  types.Type // type of the memory written
	pos  token.Pos
	via  string // call chain
}

type summary struct {
	mut    map[root]map[string]effect // param/free/global roots
	retD   []taint                    // direct sharing per result
	retK   []taint                    // contents of fresh results
	retDF  []map[int]taint            // the same, for one field of the result or of what it points to
	retKF  []map[int]taint
	stores map[root]taint // root memory gets references to other roots
}

type modAnalysis struct {
	p      *Program
	sum    map[*ssa.Function]*summary
	deps   map[*ssa.Function]map[*ssa.Function]bool // callee -> callers
	refC   map[types.Type]bool
	times  map[*ssa.Function]time.Duration
	runs   map[*ssa.Function]int
	can    typeutil.Map
	rdefs  map[*ssa.Function]*reachDefs
	coarse bool // analysing a dependency: roots carry no types
	rch    map[types.Type]*reachSet
	cases  map[*ssa.Function][]phiCase
	memC   map[types.Type]*reachSet
}

type reachSet struct {
	any bool
	set map[types.Type]bool
}

// opaque: fonts and font maps, seen through their interfaces, own their caches: what
// they do to themselves is not followed.
func opaque(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath+"/pango" {
		return false
	}
	switch n.Obj().Name() {
	case "Font", "FontMap", "Fontset", "Coverage":
		return types.IsInterface(t)
	}
	return false
}

// canon gives one representative per identical type.
func (m *modAnalysis) canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if c := m.can.At(t); c != nil {
		return c.(types.Type)
	}
	m.can.Set(t, t)
	return t
}

// reachTypes is the set of types of memory that can be reached from a value of type t.
func (m *modAnalysis) reachTypes(t types.Type) *reachSet {
	t = m.canon(t)
	if r, ok := m.rch[t]; ok {
		return r
	}
	r := &reachSet{set: map[types.Type]bool{}}
	m.rch[t] = r
	var rec func(types.Type)
	rec = func(t types.Type) {
		t = m.canon(t)
		if r.set[t] {
			return
		}
		r.set[t] = true
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			if o := n.Obj().Pkg().Path(); o == "sync" || o == "time" || o == "regexp" || o == "strings" || o == "reflect" {
				return
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				rec(u.Field(i).Type())
			}
		case *types.Pointer:
			rec(u.Elem())
		case *types.Slice:
			rec(u.Elem())
		case *types.Array:
			rec(u.Elem())
		case *types.Chan:
			rec(u.Elem())
		case *types.Map:
			rec(u.Key())
			rec(u.Elem())
		case *types.Interface:
			if opaque(t) {
				return
			}
			ims, open := m.implTypes(t, u)
			if open {
				r.any = true
			}
			for _, it := range ims {
				rec(it)
			}
		case *types.Signature, *types.TypeParam:
			r.any = true
		case *types.Basic:
			if u.Kind() == types.UnsafePointer {
				r.any = true
			}
		}
	}
	rec(t)
	return r
}

// contOf is the type standing for the memory behind a slice or map value, as opposed to
// the variable holding it.
func (m *modAnalysis) contOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return m.canon(types.NewArray(u.Elem(), 0))
	case *types.Map:
		return m.canon(types.NewArray(u, 0))
	}
	return t
}

// memTypes is the set of types of memory that can be written through a value of type t:
// what lies behind its references, not the value itself.
func (m *modAnalysis) memTypes(t types.Type) *reachSet {
	t = m.canon(t)
	if r, ok := m.memC[t]; ok {
		return r
	}
	r := &reachSet{set: map[types.Type]bool{}}
	m.memC[t] = r
	seenB := map[types.Type]bool{}
	var mem, behind func(types.Type)
	mem = func(t types.Type) {
		t = m.canon(t)
		if r.set[t] {
			return
		}
		r.set[t] = true
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				mem(u.Field(i).Type())
			}
		case *types.Array:
			mem(u.Elem())
		}
		behind(t)
	}
	behind = func(t types.Type) {
		t = m.canon(t)
		if seenB[t] {
			return
		}
		seenB[t] = true
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			if o := n.Obj().Pkg().Path(); o == "sync" || o == "time" || o == "regexp" || o == "strings" || o == "reflect" {
				return
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				behind(u.Field(i).Type())
			}
		case *types.Array:
			behind(u.Elem())
		case *types.Pointer:
			mem(u.Elem())
		case *types.Slice:
			r.set[m.contOf(t)] = true
			mem(u.Elem())
		case *types.Chan:
			mem(u.Elem())
		case *types.Map:
			r.set[m.contOf(t)] = true
			behind(u.Key())
			behind(u.Elem())
		case *types.Interface:
			if opaque(t) {
				return
			}
			ims, open := m.implTypes(t, u)
			if open {
				r.any = true
			}
			for _, it := range ims {
				behind(it)
			}
		case *types.Signature, *types.TypeParam:
			r.any = true
		}
	}
	behind(t)
	return r
}

// writable says whether memory of type own can be written through a value of type via.
func (m *modAnalysis) writable(via, own types.Type) bool {
	if via == nil || own == nil {
		return true
	}
	r := m.memTypes(via)
	return r.any || r.set[m.canon(own)]
}

// implTypes: the types an interface value may hold; open when they cannot be listed.
func (m *modAnalysis) implTypes(t types.Type, u *types.Interface) ([]types.Type, bool) {
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return nil, false
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || u.NumMethods() == 0 {
		return nil, true
	}
	path := n.Obj().Pkg().Path()
	if !strings.HasPrefix(path, "github.com/benoitkugler/") {
		return nil, true
	}
	var out []types.Type
	for _, pk := range append(append([]*packages.Package{}, m.p.Repo...), m.p.depsWithTypes()...) {
		for _, name := range pk.Types.Scope().Names() {
			tn, ok := pk.Types.Scope().Lookup(name).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) || tn.IsAlias() {
				continue
			}
			if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(tn.Type(), u) {
				out = append(out, tn.Type())
			} else if pt := types.NewPointer(tn.Type()); types.Implements(pt, u) {
				out = append(out, pt)
			}
		}
	}
	return out, false
}

// compat says whether memory of type own may lie behind a reference of type via.
func (m *modAnalysis) compat(via, own types.Type) bool {
	if via == nil || own == nil {
		return true
	}
	r := m.reachTypes(via)
	if r.any || r.set[m.canon(own)] {
		return true
	}
	// the address of a field or element, or a slice of an array
	switch u := own.Underlying().(type) {
	case *types.Pointer:
		return r.set[m.canon(u.Elem())]
	case *types.Slice:
		return r.set[m.canon(u.Elem())]
	}
	return false
}

func (m *modAnalysis) rootTyp(v ssa.Value) types.Type {
	if m.coarse {
		return nil
	}
	return m.canon(v.Type())
}

// at is the root seen through a reference of another type.
func (st *fstate) at(r root, t types.Type) root {
	if st.isNested(r) {
		r.typ = nil
		if !st.m.coarse {
			r.typ = st.m.canon(t)
		}
		return r
	}
	return st.m.at(r, t)
}

func (m *modAnalysis) at(r root, t types.Type) root {
	if r.kind != rkObj && m.coarse {
		r.typ = nil
		return r
	}
	if r.kind != rkObj {
		if _, isI := t.Underlying().(*types.Interface); isI && r.typ != nil && m.reachTypes(t).any {
			return r // nothing is learned
		}
		r.typ = m.canon(t)
	}
	return r
}

func (p *Program) effects() *modAnalysis {
	if p.mods == nil {
		p.mods = &modAnalysis{p: p, sum: map[*ssa.Function]*summary{}, deps: map[*ssa.Function]map[*ssa.Function]bool{}, refC: map[types.Type]bool{}, rch: map[types.Type]*reachSet{}, times: map[*ssa.Function]time.Duration{}, runs: map[*ssa.Function]int{}, rdefs: map[*ssa.Function]*reachDefs{}, cases: map[*ssa.Function][]phiCase{}, memC: map[types.Type]*reachSet{}}
		p.mods.solve()
	}
	return p.mods
}

func (m *modAnalysis) solve() {
	var work []*ssa.Function
	in := map[*ssa.Function]bool{}
	push := func(f *ssa.Function) {
		if !in[f] {
			in[f] = true
			work = append(work, f)
		}
	}
	// callees first is only a matter of speed
	for i := len(m.p.Funcs) - 1; i >= 0; i-- {
		push(m.p.Funcs[i])
	}
	n := 0
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		in[f] = false
		n++
		if n > 400000 {
			panic("effect analysis does not converge")
		}
		var needs []*ssa.Function
		t0 := time.Now()
		s := m.analyse(f, &needs)
		if os.Getenv("TPDEBUG") != "" {
			m.times[f] += time.Since(t0)
			m.runs[f]++
		}
		for _, d := range needs {
			if m.deps[d] == nil {
				m.deps[d] = map[*ssa.Function]bool{}
			}
			m.deps[d][f] = true
			if m.sum[d] == nil {
				m.sum[d] = &summary{}
				push(d)
			}
		}
		old := m.sum[f]
		if old == nil || size(old) != size(s) {
			m.sum[f] = s
			for c := range m.deps[f] {
				push(c)
			}
		}
	}
}

func (m *modAnalysis) profile() {
	var fs []*ssa.Function
	for f := range m.times {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return m.times[fs[i]] > m.times[fs[j]] })
	tot := 0
	for _, f := range fs {
		tot += m.runs[f]
	}
	fmt.Println("runs", tot, "functions", len(fs))
	for i := 0; i < 40 && i < len(fs); i++ {
		fmt.Println(m.times[fs[i]], m.runs[fs[i]], fs[i], size(m.sum[fs[i]]))
	}
}

func size(s *summary) int {
	n := 0
	for _, v := range s.mut {
		n += 1 + len(v)
	}
	for _, t := range s.retD {
		n += 1 + len(t)
	}
	for _, t := range s.retK {
		n += 1 + len(t)
	}
	for _, l := range [][]map[int]taint{s.retDF, s.retKF} {
		for _, fs := range l {
			for _, t := range fs {
				n += 1 + len(t)
			}
		}
	}
	for _, t := range s.stores {
		n += 1 + len(t)
	}
	return n
}

// refs says whether a value of this type gives access to memory it does not own.
func (m *modAnalysis) refs(t types.Type) bool {
	if v, ok := m.refC[t]; ok {
		return v
	}
	m.refC[t] = false // recursive value types cannot exist without a reference
	v := false
	switch u := t.Underlying().(type) {
	case *types.Basic:
		v = u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if m.refs(u.Field(i).Type()) {
				v = true
			}
		}
	case *types.Array:
		v = m.refs(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if m.refs(u.At(i).Type()) {
				v = true
			}
		}
	case *types.Interface:
		v = true
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) && u.NumMethods() > 0 {
			// module interface: holds no reference when no implementation does
			v = false
			for _, pk := range m.p.Repo {
				for _, name := range pk.Types.Scope().Names() {
					tn, ok := pk.Types.Scope().Lookup(name).(*types.TypeName)
					if !ok || types.IsInterface(tn.Type()) || tn.IsAlias() {
						continue
					}
					if types.Implements(tn.Type(), u) {
						if m.refs(tn.Type()) {
							v = true
						}
					} else if types.Implements(types.NewPointer(tn.Type()), u) {
						v = true
					}
				}
			}
		} else if types.Identical(t, types.Universe.Lookup("error").Type()) {
			v = false
		}
	case *types.TypeParam:
		v = true
	default:
		v = true
	}
	m.refC[t] = v
	return v
}

type fstate struct {
	m     *modAnalysis
	fn    *ssa.Function
	val   map[ssa.Value]*vinfo
	objID map[interface{}]int
	cont  map[int]map[int]taint
	s     *summary
	dirty bool
	needs *[]*ssa.Function
	rd    *reachDefs
	pc    phiCase

	nested map[int]bool
	objTyp map[int]types.Type // type of the memory of an object, when known
}

// nestedObj stands for the fresh memory behind the result of a call
type nestedObj struct {
	c ssa.CallInstruction
	i int
}

// nested says whether the root is such memory; it is then seen through a reference of type r.typ.
func (st *fstate) isNested(r root) bool { return r.kind == rkObj && st.nested[r.idx] }

// seenThrough: a reference of type t may lead to x.
func (st *fstate) seenThrough(t types.Type, x root) bool {
	if x.kind != rkObj || st.isNested(x) {
		return st.m.compat(t, x.typ)
	}
	mt := st.objTyp[x.idx]
	return t == nil || mt == nil || st.m.writable(t, mt)
}

// memTypeOf is the type of the memory of an object, when known.
func (st *fstate) memTypeOf(r root) types.Type {
	if !st.isNested(r) {
		return st.objTyp[r.idx]
	}
	if r.typ == nil {
		return nil
	}
	switch u := r.typ.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice, *types.Map:
		return st.m.contOf(r.typ)
	}
	return nil
}

// resultObj is the fresh memory a call may return, with the fresh memory behind it.
func (st *fstate) resultObj(c ssa.CallInstruction, i int) (o root, nested int) {
	o = st.obj(callObj{c, i})
	t := c.Value().Type()
	if tu, ok := t.(*types.Tuple); ok {
		t = tu.At(i).Type()
	}
	deep := true
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		deep = st.m.refs(u.Elem())
	case *types.Slice:
		deep = st.m.refs(u.Elem())
	case *types.Map:
		deep = st.m.refs(u.Elem())
	}
	if !deep {
		return o, -1
	}
	n := st.obj(nestedObj{c, i})
	if st.nested == nil {
		st.nested = map[int]bool{}
	}
	st.nested[n.idx] = true
	st.add(st.contents(o.idx, -1), n, "")
	return o, n.idx
}

type callObj struct {
	c ssa.CallInstruction
	i int
}

func (st *fstate) obj(k interface{}) root {
	id, ok := st.objID[k]
	if !ok {
		id = len(st.objID) + 1
		st.objID[k] = id
		switch a := k.(type) {
		case *ssa.Alloc:
			if st.objTyp == nil {
				st.objTyp = map[int]types.Type{}
			}
			st.objTyp[id] = a.Type().Underlying().(*types.Pointer).Elem()
		case callObj:
			if v := a.c.Value(); v != nil {
				t := v.Type()
				if tu, ok := t.(*types.Tuple); ok && a.i < tu.Len() {
					t = tu.At(a.i).Type()
				}
				if st.objTyp == nil {
					st.objTyp = map[int]types.Type{}
				}
				switch u := t.Underlying().(type) {
				case *types.Pointer:
					st.objTyp[id] = u.Elem()
				case *types.Slice, *types.Map:
					st.objTyp[id] = st.m.contOf(t)
				}
			}
		case *ssa.MakeSlice, *ssa.MakeMap:
			if st.objTyp == nil {
				st.objTyp = map[int]types.Type{}
			}
			st.objTyp[id] = st.m.contOf(a.(ssa.Value).Type())
		}
	}
	return root{kind: rkObj, idx: id, fld: -1}
}

func (st *fstate) get(v ssa.Value) *vinfo {
	if i, ok := st.val[v]; ok {
		return i
	}
	i := &vinfo{direct: taint{}}
	st.val[v] = i
	switch v := v.(type) {
	case *ssa.Parameter:
		if st.m.refs(v.Type()) {
			for k, q := range st.fn.Params {
				if q == v {
					i.direct[root{kind: rkParam, idx: k, fld: -1, typ: st.m.rootTyp(v)}] = ""
				}
			}
		}
	case *ssa.FreeVar:
		for k, q := range st.fn.FreeVars {
			if q == v {
				i.direct[root{kind: rkFree, idx: k, fld: -1, typ: st.m.rootTyp(v)}] = ""
			}
		}
	case *ssa.Global:
		if v.Pkg != nil && strings.HasPrefix(v.Pkg.Pkg.Path(), modPath) {
			i.direct[root{kind: rkGlobal, g: v, fld: -1, typ: st.m.rootTyp(v)}] = ""
		}
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		i.direct[st.obj(v)] = ""
	case *ssa.MakeClosure:
		i.direct[st.obj(v)] = ""
	}
	return i
}

// exact: the root is a parameter itself (a struct or a pointer to one), not something behind it.
func (st *fstate) exact(r root) (*types.Struct, bool) {
	if r.kind != rkParam || r.fld >= 0 || st.m.coarse || r.typ == nil || r.idx >= len(st.fn.Params) {
		return nil, false
	}
	pt := st.m.canon(st.fn.Params[r.idx].Type())
	el := pt
	if p, ok := pt.Underlying().(*types.Pointer); ok {
		el = st.m.canon(p.Elem())
	}
	s, ok := el.Underlying().(*types.Struct)
	if !ok || (r.typ != pt && r.typ != el) {
		return nil, false
	}
	return s, true
}

// field is the root of field f of what r designates, of type t.
func (st *fstate) field(r root, f int, t types.Type) root {
	_, ok := st.exact(r)
	r = st.at(r, t)
	if ok {
		r.fld = f
	}
	return r
}

// canWrite: memory of type own may be written through the root; with a field selected,
// it is the field, the struct holding it, or what lies behind.
func (st *fstate) canWrite(r root, own types.Type) bool {
	if r.kind == rkParam && r.fld >= 0 && r.typ != nil {
		q := r
		q.fld = -1
		if s, ok := st.exact(q); ok && r.fld < s.NumFields() {
			pt := r.typ
			if p, ok := pt.Underlying().(*types.Pointer); ok {
				pt = p.Elem()
			}
			if own == nil || st.m.canon(own) == st.m.canon(pt) {
				return true
			}
			return st.m.writable(types.NewPointer(s.Field(r.fld).Type()), own)
		}
	}
	return st.m.writable(r.typ, own)
}

func (st *fstate) add(dst taint, r root, label string) {
	if _, ok := dst[r]; !ok {
		dst[r] = label
		st.dirty = true
	}
}

func (st *fstate) union(dst, src taint) {
	for r, l := range src {
		st.add(dst, r, l)
	}
}

func (st *fstate) fieldTaint(i *vinfo, f int) taint {
	if i.fields == nil {
		i.fields = map[int]taint{}
	}
	t := i.fields[f]
	if t == nil {
		t = taint{}
		i.fields[f] = t
	}
	return t
}

func (st *fstate) copyInfo(dst, src *vinfo) {
	st.union(dst.direct, src.direct)
	for f, t := range src.fields {
		st.union(st.fieldTaint(dst, f), t)
	}
}

// flat is everything a value may reach or be.
func flat(i *vinfo) taint {
	if len(i.fields) == 0 {
		return i.direct
	}
	t := taint{}
	for r, l := range i.direct {
		t[r] = l
	}
	for _, f := range i.fields {
		for r, l := range f {
			t[r] = l
		}
	}
	return t
}

func (st *fstate) contents(o, f int) taint {
	c := st.cont[o]
	if c == nil {
		c = map[int]taint{}
		st.cont[o] = c
	}
	t := c[f]
	if t == nil {
		t = taint{}
		c[f] = t
	}
	return t
}

// load reads memory addressed (or held) by roots into dst.
func (st *fstate) load(dst *vinfo, from taint, typ types.Type, label string) {
	if !st.m.refs(typ) {
		return
	}
	_, isStruct := typ.Underlying().(*types.Struct)
	for r, l := range from {
		if r.kind != rkObj {
			if label != "" {
				l = label
			}
			st.add(dst.direct, st.at(r, typ), l)
			continue
		}
		c := st.cont[r.idx]
		take := func(d, t taint) {
			for x, l := range t {
				if st.isNested(x) && x.typ == nil {
					x = st.at(x, typ)
				}
				st.add(d, x, l)
			}
		}
		if st.isNested(r) {
			st.add(dst.direct, st.at(r, typ), l)
			for x, l := range c[-1] {
				if st.seenThrough(typ, x) {
					st.add(dst.direct, x, l)
				}
			}
			continue
		}
		if r.fld >= 0 {
			take(dst.direct, c[r.fld])
			take(dst.direct, c[-1])
			continue
		}
		for f, t := range c {
			if f >= initialOf {
				continue
			}
			if f >= 0 && isStruct {
				take(st.fieldTaint(dst, f), t)
			} else {
				take(dst.direct, t)
			}
		}
	}
}

// store writes val to memory addressed by roots.
func (st *fstate) store(to taint, val *vinfo, typ types.Type, kind string, own types.Type, pos token.Pos, via string) {
	refs := val != nil && st.m.refs(typ)
	for r := range to {
		if r.kind != rkObj {
			addrTyp := r.typ
			if via == "" {
				r.typ = nil // the address itself says what is written
			}
			st.mutate(r, kind, own, pos, via)
			if refs {
				_, isS := typ.Underlying().(*types.Struct)
				r.typ = addrTyp
				if _, ok := st.exact(root{r.kind, r.idx, r.g, r.fld, addrTyp}); ok && isS {
					st.storeRoot(r, val.direct)
					for f, t := range val.fields {
						q := r
						q.fld = f
						st.storeRoot(q, t)
					}
				} else {
					st.storeRoot(r, flat(val))
				}
			}
			continue
		}
		if !refs {
			continue
		}
		if r.fld >= 0 {
			st.union(st.contents(r.idx, r.fld), flat(val))
			continue
		}
		st.union(st.contents(r.idx, -1), val.direct)
		for f, t := range val.fields {
			st.union(st.contents(r.idx, f), t)
		}
	}
}

func (st *fstate) storeRoot(r root, t taint) {
	if st.m.coarse {
		return // dependencies: what they keep of their arguments is not tracked
	}
	// record only references to other non-local roots, which the memory can hold
	via := r.typ
	r.typ = nil
	for o, l := range st.expand(t) {
		if o.kind != rkObj && !st.m.compat(via, o.typ) {
			continue
		}
		if o.kind == rkObj || (o.kind == r.kind && o.idx == r.idx && o.g == r.g && (o.fld == r.fld || r.fld < 0)) {
			continue
		}
		if st.s.stores == nil {
			st.s.stores = map[root]taint{}
		}
		if st.s.stores[r] == nil {
			st.s.stores[r] = taint{}
		}
		st.add(st.s.stores[r], o, l)
	}
}

// expand follows object contents.
func (st *fstate) expand(t taint) taint {
	out := taint{}
	var rec func(taint)
	rec = func(t taint) {
		for r, l := range t {
			if _, ok := out[r]; ok {
				continue
			}
			out[r] = l
			if st.isNested(r) {
				for x, l := range st.cont[r.idx][-1] {
					if st.seenThrough(r.typ, x) {
						rec(taint{x: l})
					}
				}
			} else if r.kind == rkObj {
				for f, c := range st.cont[r.idx] {
					if f >= initialOf || r.fld >= 0 && f >= 0 && f != r.fld {
						continue
					}
					rec(c)
				}
			}
		}
	}
	rec(t)
	return out
}

func (st *fstate) mutate(r root, kind string, own types.Type, pos token.Pos, via string) {
	mem := own
	if own != nil && (strings.HasPrefix(kind, "elem of ") || strings.HasPrefix(kind, "map ")) {
		mem = st.m.contOf(own)
	}
	if !st.canWrite(r, mem) {
		return
	}
	if r.kind != rkParam {
		r.fld = -1
	}
	r.typ = nil
	if st.s.mut == nil {
		st.s.mut = map[root]map[string]effect{}
	}
	mm := st.s.mut[r]
	if mm == nil {
		mm = map[string]effect{}
		st.s.mut[r] = mm
	}
	if _, ok := mm[kind]; !ok && (len(mm) < 60 || st.m.moduleType(own)) {
		mm[kind] = effect{kind, own, pos, via}
		st.dirty = true
	}
}

func typeName(t types.Type) string {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func fieldOf(fa *ssa.FieldAddr) string {
	pt, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return "?"
	}
	stt := pt.Elem().Underlying().(*types.Struct)
	return typeName(pt.Elem()) + "." + stt.Field(fa.Field).Name()
}

// ownerOf is the type of the memory an address designates.
func ownerOf(v ssa.Value) types.Type {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		return v.X.Type().Underlying().(*types.Pointer).Elem()
	case *ssa.IndexAddr:
		if pt, ok := v.X.Type().Underlying().(*types.Pointer); ok {
			return pt.Elem()
		}
		return v.X.Type()
	}
	if pt, ok := v.Type().Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return v.Type()
}

// describe names the memory an address designates.
func describe(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		return fieldOf(v)
	case *ssa.IndexAddr:
		return "elem of " + describeVal(v.X)
	case *ssa.Global:
		return "global " + v.Name()
	case *ssa.Phi:
		if len(v.Edges) > 0 {
			return "*" + typeName(v.Type())
		}
	}
	return "*" + typeName(v.Type())
}

func describeVal(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return describe(v.X)
		}
	case *ssa.FieldAddr:
		return fieldOf(v)
	case *ssa.Slice:
		return describeVal(v.X)
	case *ssa.Field:
		stt := v.X.Type().Underlying().(*types.Struct)
		return typeName(v.X.Type()) + "." + stt.Field(v.Field).Name()
	}
	return typeName(v.Type())
}

func (m *modAnalysis) analyse(fn *ssa.Function, needs *[]*ssa.Function) *summary {
	cases, ok := m.cases[fn]
	if !ok {
		cases = m.phiCases(fn)
		m.cases[fn] = cases
	}
	if len(cases) == 0 {
		return m.analyseCase(fn, needs, phiCase{})
	}
	out := &summary{}
	for _, c := range cases {
		out.merge(m.analyseCase(fn, needs, c))
	}
	return out
}

func (s *summary) merge(o *summary) {
	for r, ks := range o.mut {
		if s.mut == nil {
			s.mut = map[root]map[string]effect{}
		}
		if s.mut[r] == nil {
			s.mut[r] = map[string]effect{}
		}
		for k, e := range ks {
			s.mut[r][k] = e
		}
	}
	add := func(dst *[]taint, src []taint) {
		for i, t := range src {
			for len(*dst) <= i {
				*dst = append(*dst, taint{})
			}
			for r, l := range t {
				(*dst)[i][r] = l
			}
		}
	}
	add(&s.retD, o.retD)
	add(&s.retK, o.retK)
	addF := func(dst *[]map[int]taint, src []map[int]taint) {
		for i, fs := range src {
			for len(*dst) <= i {
				*dst = append(*dst, map[int]taint{})
			}
			for f, t := range fs {
				if (*dst)[i][f] == nil {
					(*dst)[i][f] = taint{}
				}
				for r, l := range t {
					(*dst)[i][f][r] = l
				}
			}
		}
	}
	addF(&s.retDF, o.retDF)
	addF(&s.retKF, o.retKF)
	for r, t := range o.stores {
		if s.stores == nil {
			s.stores = map[root]taint{}
		}
		if s.stores[r] == nil {
			s.stores[r] = taint{}
		}
		for k, l := range t {
			s.stores[r][k] = l
		}
	}
}

func (m *modAnalysis) analyseCase(fn *ssa.Function, needs *[]*ssa.Function, pc phiCase) *summary {
	st := &fstate{pc: pc, m: m, fn: fn, val: map[ssa.Value]*vinfo{}, objID: map[interface{}]int{}, cont: map[int]map[int]taint{}, s: &summary{}, needs: needs}
	m.coarse = !inModule(fn)
	if fn.Blocks == nil || (!inModule(fn) && strings.HasPrefix(fn.Name(), "init")) || (fn.Name() == "init" && fn.Synthetic != "") {
		return st.s
	}
	live := m.p.liveBlocks(fn)
	st.rd = m.reachOf(fn)
	for round := 0; ; round++ {
		st.dirty = false
		for _, b := range fn.Blocks {
			if !live[b] || pc.dead[b] {
				continue
			}
			for _, in := range b.Instrs {
				st.instr(in)
			}
		}
		if !st.dirty {
			break
		}
		if round > 200 {
			panic("effects of " + fn.String() + " do not converge")
		}
	}
	return st.s
}

func (st *fstate) instr(in ssa.Instruction) {
	m := st.m
	switch in := in.(type) {
	case *ssa.FieldAddr:
		x := st.get(in.X)
		d := st.get(in)
		for r, l := range x.direct {
			if r.kind == rkObj && r.fld < 0 && !st.isNested(r) {
				r.fld = in.Field
			}
			if r.kind != rkObj {
				l = fieldOf(in)
			}
			st.add(d.direct, st.field(r, in.Field, in.Type()), l)
		}
	case *ssa.IndexAddr:
		x := st.get(in.X)
		for r, l := range flat(x) {
			st.add(st.get(in).direct, st.at(r, in.Type()), l)
		}
	case *ssa.Field:
		if !m.refs(in.Type()) {
			return
		}
		x := st.get(in.X)
		d := st.get(in)
		for r := range x.direct {
			st.add(d.direct, st.field(r, in.Field, in.Type()), describeVal(in))
		}
		st.union(d.direct, x.fields[in.Field])
	case *ssa.Index:
		st.load(st.get(in), flat(st.get(in.X)), in.Type(), "")
		if m.refs(in.Type()) {
			st.union(st.get(in).direct, flat(st.get(in.X)))
		}
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			if st.loadTracked(in) {
				return
			}
			l := ""
			if fa, ok := in.X.(*ssa.FieldAddr); ok {
				l = fieldOf(fa)
			}
			st.load(st.get(in), st.get(in.X).direct, in.Type(), l)
		case token.ARROW:
			st.load(st.get(in), st.get(in.X).direct, in.Type(), "")
		}
	case *ssa.Store:
		if st.storeTracked(in) {
			return
		}
		val := st.get(in.Val)
		st.store(st.get(in.Addr).direct, val, in.Val.Type(), describe(in.Addr), ownerOf(in.Addr), in.Pos(), "")
	case *ssa.MapUpdate:
		mi := st.get(in.Map)
		st.store(flat(mi), st.get(in.Value), in.Value.Type(), "map "+describeVal(in.Map), in.Map.Type(), in.Pos(), "")
		for r := range flat(mi) {
			if r.kind == rkObj && m.refs(in.Key.Type()) {
				st.union(st.contents(r.idx, -1), flat(st.get(in.Key)))
			}
		}
	case *ssa.Lookup:
		if in.CommaOk {
			tp := in.Type().(*types.Tuple)
			st.load(st.get(in), flat(st.get(in.X)), tp.At(0).Type(), "")
			return
		}
		st.load(st.get(in), flat(st.get(in.X)), in.Type(), "")
	case *ssa.Range:
		st.copyInfo(st.get(in), st.get(in.X))
	case *ssa.Next:
		if in.IsString {
			return
		}
		tp := in.Type().(*types.Tuple)
		for i := 1; i < 3; i++ {
			if b, ok := tp.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				continue
			}
			st.load(st.get(in), flat(st.get(in.Iter)), tp.At(i).Type(), "")
		}
	case *ssa.Extract:
		if m.refs(in.Type()) {
			src := st.get(in.Tuple)
			if c, ok := in.Tuple.(*ssa.Call); ok {
				_ = c
				st.union(st.get(in).direct, src.fields[in.Index])
				return
			}
			st.union(st.get(in).direct, flat(src))
		}
	case *ssa.Phi:
		for i, e := range in.Edges {
			if in == st.pc.phi && e != st.pc.val {
				continue
			}
			if nilOnEdge(in.Block().Preds[i], in.Block(), e) {
				continue
			}
			if _, ok := e.(*ssa.Const); ok {
				continue
			}
			if m.refs(in.Type()) {
				st.copyInfo(st.get(in), st.get(e))
			}
		}
	case *ssa.ChangeType:
		st.copyInfo(st.get(in), st.get(in.X))
	case *ssa.ChangeInterface:
		st.copyInfo(st.get(in), st.get(in.X))
	case *ssa.MakeInterface:
		if m.refs(in.X.Type()) {
			st.union(st.get(in).direct, flat(st.get(in.X)))
		}
	case *ssa.SliceToArrayPointer:
		st.copyInfo(st.get(in), st.get(in.X))
	case *ssa.Convert:
		// string<->slice conversions copy
		_, fromStr := in.X.Type().Underlying().(*types.Basic)
		_, toStr := in.Type().Underlying().(*types.Basic)
		if fromStr || toStr {
			if fromStr && !toStr {
				st.add(st.get(in).direct, st.obj(in), "")
			}
			return
		}
		st.copyInfo(st.get(in), st.get(in.X))
	case *ssa.TypeAssert:
		if m.refs(in.AssertedType) {
			for r, l := range flat(st.get(in.X)) {
				if r.kind != rkObj && !m.compat(r.typ, in.AssertedType) {
					continue
				}
				st.add(st.get(in).direct, st.at(r, in.AssertedType), l)
			}
		}
	case *ssa.Slice:
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return
		}
		st.union(st.get(in).direct, flat(st.get(in.X)))
	case *ssa.MakeClosure:
		o := st.obj(in)
		st.get(in)
		fn := in.Fn.(*ssa.Function)
		for _, b := range in.Bindings {
			st.union(st.contents(o.idx, -1), flat(st.get(b)))
		}
		st.applySummary(fn, nil, in.Bindings, in.Pos(), nil)
	case *ssa.Send:
		st.store(st.get(in.Chan).direct, st.get(in.X), in.X.Type(), "channel", in.Chan.Type(), in.Pos(), "")
	case *ssa.Return:
		for i, v := range in.Results {
			if knownNil(v, in.Block()) {
				continue
			}
			st.ret(i, v)
		}
	case ssa.CallInstruction:
		st.call(in)
	}
}

func (st *fstate) ret(i int, v ssa.Value) {
	if !st.m.refs(v.Type()) {
		return
	}
	for len(st.s.retD) <= i {
		st.s.retD = append(st.s.retD, taint{})
		st.s.retK = append(st.s.retK, taint{})
		st.s.retDF = append(st.s.retDF, map[int]taint{})
		st.s.retKF = append(st.s.retKF, map[int]taint{})
	}
	into := func(fs map[int]taint, f int) taint {
		if fs[f] == nil {
			fs[f] = taint{}
		}
		return fs[f]
	}
	flatten := func(t, dst taint) {
		for o, l := range st.expand(t) {
			if o.kind != rkObj {
				st.add(dst, o, l)
			}
		}
	}
	info := st.get(v)
	for r, l := range info.direct {
		if r.kind != rkObj {
			st.add(st.s.retD[i], r, l)
			continue
		}
		if r.fld >= 0 {
			flatten(taint{r: l}, st.s.retK[i])
			continue
		}
		for f, c := range st.cont[r.idx] {
			if f >= initialOf {
				continue
			}
			if f < 0 {
				flatten(c, st.s.retK[i])
			} else {
				flatten(c, into(st.s.retKF[i], f))
			}
		}
	}
	for f, t := range info.fields {
		for r, l := range t {
			if r.kind != rkObj {
				st.add(into(st.s.retDF[i], f), r, l)
				continue
			}
			for o, l2 := range st.expand(taint{r: l}) {
				if o.kind != rkObj {
					st.add(st.s.retK[i], o, l2)
				}
			}
		}
	}
}

// mapRoots translates roots of a callee into the caller's: what a root of the callee, seen
// through a reference of its type, is here.
func (st *fstate) mapRoots(t taint, args []ssa.Value, bind []ssa.Value) taint {
	out := taint{}
	add := func(r root, l string, v ssa.Value) {
		src := flat(st.get(v))
		// a reference of another type than the argument lies behind it
		behind := r.typ != nil && r.typ != st.m.canon(v.Type())
		for o, l2 := range src {
			if l2 == "" {
				l2 = l
			}
			if r.fld >= 0 && o.fld < 0 {
				// one field of what the argument designates
				if o.kind == rkObj {
					o.fld = r.fld
				} else if _, ok := st.exact(o); ok && o.typ == st.m.canon(v.Type()) {
					o.fld = r.fld
				}
			}
			if o.kind != rkObj {
				if r.typ != nil {
					if !st.m.compat(o.typ, r.typ) {
						continue
					}
					o.typ = r.typ
				}
				if st.m.coarse {
					o.typ = nil
				}
				out[o] = l2
				continue
			}
			// a reference of type r.typ is none to an object whose memory it cannot reach
			if t := st.memTypeOf(o); !behind || t == nil || st.m.writable(r.typ, t) {
				out[o] = l2
			}
			if behind {
				for x, l3 := range st.expand(taint{o: l2}) {
					if x.kind == rkObj {
						if st.isNested(x) {
							if r.typ != nil && st.m.compat(x.typ, r.typ) {
								out[st.at(x, r.typ)] = l3
							} else if x.typ == nil {
								out[x] = l3
							}
							continue
						}
						if t := st.objTyp[x.idx]; t == nil || st.m.writable(r.typ, t) {
							out[x] = l3
						}
						continue
					}
					if st.m.compat(x.typ, r.typ) {
						x.typ = r.typ
						if st.m.coarse {
							x.typ = nil
						}
						out[x] = l3
					}
				}
			}
		}
	}
	for r, l := range t {
		switch r.kind {
		case rkParam:
			if r.idx < len(args) {
				add(r, l, args[r.idx])
			}
		case rkFree:
			if r.idx < len(bind) {
				add(r, l, bind[r.idx])
			}
		case rkGlobal:
			out[r] = l
		}
	}
	return out
}

func (st *fstate) applySummary(fn *ssa.Function, args, bind []ssa.Value, pos token.Pos, call ssa.CallInstruction) {
	*st.needs = append(*st.needs, fn)
	s := st.m.sum[fn]
	if s == nil {
		return
	}
	for r, kinds := range s.mut {
		if r.kind == rkParam && args == nil && bind != nil {
			continue // effects on a closure's parameters are accounted for at its calls
		}
		for target := range st.mapRoots(taint{r: ""}, args, bind) {
			if target.kind == rkObj {
				// memory reachable from the object may be what is written
				for o := range st.expand(taint{target: ""}) {
					if o.kind != rkObj {
						for k, e := range kinds {
							if st.deepKind(k, fn, r) {
								st.mutate(o, k, e.own, pos, fname(fn)+chain(e.via))
							}
						}
					}
				}
				continue
			}
			for k, e := range kinds {
				st.mutate(target, k, e.own, pos, fname(fn)+chain(e.via))
			}
		}
	}
	for r, t := range s.stores {
		src := st.mapRoots(t, args, bind)
		for target := range st.mapRoots(taint{r: ""}, args, bind) {
			if target.kind == rkObj {
				st.union(st.contents(target.idx, target.fld), src)
			} else {
				st.storeRoot(target, src)
			}
		}
	}
	if call == nil {
		return
	}
	v := call.Value()
	if v == nil {
		return
	}
	dst := st.get(v)
	for i := range s.retD {
		d := st.mapRoots(s.retD[i], args, bind)
		o, nest := st.resultObj(call, i)
		multi := len(s.retD) > 1 || isTuple(v.Type())
		target := dst.direct
		if multi {
			target = st.fieldTaint(dst, i)
		}
		st.union(target, d)
		st.add(target, o, "")
		k := st.mapRoots(s.retK[i], args, bind)
		st.union(st.contents(o.idx, -1), k)
		if nest >= 0 {
			st.union(st.contents(nest, -1), k)
		}
		for f, t := range s.retKF[i] {
			k := st.mapRoots(t, args, bind)
			st.union(st.contents(o.idx, f), k)
			if nest >= 0 {
				st.union(st.contents(nest, -1), k)
			}
		}
		for f, t := range s.retDF[i] {
			if multi {
				st.union(target, st.mapRoots(t, args, bind))
			} else {
				st.union(st.fieldTaint(dst, f), st.mapRoots(t, args, bind))
			}
		}
	}
}

// deepKind: the callee writes memory of its parameter; when the argument is a local object
// holding references, only writes behind such a reference concern what it refers to.
// A write to a field of the parameter's own struct type is a write to the local object.
func (st *fstate) deepKind(kind string, fn *ssa.Function, r root) bool {
	if r.kind != rkParam || r.idx >= len(fn.Params) {
		return true
	}
	t := fn.Params[r.idx].Type()
	tn := typeName(t)
	if kind == "*"+tn || strings.HasPrefix(kind, tn+".") {
		return false
	}
	if _, ok := t.Underlying().(*types.Slice); ok && kind == "elem of "+tn {
		return false
	}
	if _, ok := t.Underlying().(*types.Map); ok && kind == "map "+tn {
		return false
	}
	return true
}

func isTuple(t types.Type) bool { _, ok := t.(*types.Tuple); return ok }

func chain(v string) string {
	if v == "" {
		return ""
	}
	if strings.Count(v, " > ") > 4 {
		return ""
	}
	return " > " + v
}

var stdMutators = map[string][]int{
	"sort.Slice": {0}, "sort.SliceStable": {0}, "sort.Sort": {0}, "sort.Stable": {0},
	"sort.Strings": {0}, "sort.Ints": {0}, "sort.Float64s": {0},
	"encoding/json.Unmarshal": {1}, "encoding/xml.Unmarshal": {1}, "io.ReadFull": {1}, "io.ReadAtLeast": {1},
	"encoding/binary.Read": {2}, "io.Copy": {0},
}

func (st *fstate) call(c ssa.CallInstruction) {
	cc := c.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		st.builtin(c, b)
		return
	}
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, cc.Args...)
		if opaque(cc.Value.Type()) {
			args[0] = ssa.NewConst(nil, cc.Value.Type())
		}
	}
	var bind []ssa.Value
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		bind = mc.Bindings
	}
	cals := st.m.p.callees(c)
	if len(cals) == 0 && c.Value() != nil && st.m.refs(c.Value().Type()) {
		// unknown: result is fresh
		st.freshResult(c)
	}
	for _, fn := range cals {
		if isStd(fn) {
			st.stdCall(c, fn, args)
			continue
		}
		st.applySummary(fn, args, bind, c.Pos(), c)
	}
}

func (st *fstate) freshResult(c ssa.CallInstruction) {
	v := c.Value()
	if tp, ok := v.Type().(*types.Tuple); ok {
		for i := 0; i < tp.Len(); i++ {
			if st.m.refs(tp.At(i).Type()) {
				o, _ := st.resultObj(c, i)
				st.add(st.fieldTaint(st.get(v), i), o, "")
			}
		}
		return
	}
	o, _ := st.resultObj(c, 0)
	st.add(st.get(v).direct, o, "")
}

func isStd(fn *ssa.Function) bool {
	o := fn.Object()
	if o == nil && fn.Origin() != nil {
		o = fn.Origin().Object()
	}
	if o == nil && fn.Pkg != nil {
		path := fn.Pkg.Pkg.Path()
		return !strings.Contains(strings.SplitN(path, "/", 2)[0], ".")
	}
	if o == nil || o.Pkg() == nil {
		return false
	}
	path := o.Pkg().Path()
	return !strings.Contains(strings.SplitN(path, "/", 2)[0], ".")
}

func (st *fstate) stdCall(c ssa.CallInstruction, fn *ssa.Function, args []ssa.Value) {
	full := fn.String()
	if o, ok := fn.Object().(*types.Func); ok {
		full = o.FullName()
	}
	mut := stdMutators[full]
	if fn.Signature.Recv() != nil {
		if _, ok := fn.Signature.Recv().Type().(*types.Pointer); ok && !strings.HasPrefix(full, "(*sync.") && !strings.HasPrefix(full, "(*strings.Replacer)") && !strings.HasPrefix(full, "(*regexp.Regexp)") {
			mut = []int{0}
		}
	}
	if strings.Contains(full, "binary.bigEndian).Put") || strings.Contains(full, "binary.littleEndian).Put") {
		mut = []int{1}
	}
	if strings.HasPrefix(full, "(*os.File)") {
		mut = nil
	}
	for _, i := range mut {
		if i >= len(args) {
			continue
		}
		for r := range st.get(args[i]).direct {
			if r.kind != rkObj {
				st.mutate(r, "elem of "+describeArg(args[i]), argType(args[i]), c.Pos(), full)
			} else if mi, ok := args[i].(*ssa.MakeInterface); ok {
				_ = mi
			}
		}
	}
	v := c.Value()
	if v == nil {
		return
	}
	if st.m.refs(v.Type()) {
		st.freshResult(c)
		// conservative: slices and interfaces returned by std helpers may share their arguments
		if strings.HasPrefix(full, "bytes.") || strings.HasPrefix(full, "append") || strings.HasPrefix(full, "slices.") {
			for _, a := range args {
				if st.m.refs(a.Type()) {
					st.union(st.get(v).direct, flat(st.get(a)))
				}
			}
		}
	}
}

func argType(v ssa.Value) types.Type {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		return mi.X.Type()
	}
	return v.Type()
}

func describeArg(v ssa.Value) string {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		return describeVal(mi.X)
	}
	return describeVal(v)
}

// loadTmp reads the elements of a slice into a temporary, which is no change of state.
func (st *fstate) loadTmp(from ssa.Value, el types.Type) *vinfo {
	src := flat(st.get(from))
	d := st.dirty
	tmp := &vinfo{direct: taint{}}
	st.load(tmp, src, el, "")
	st.dirty = d
	return tmp
}

func (st *fstate) builtin(c ssa.CallInstruction, b *ssa.Builtin) {
	args := c.Common().Args
	switch b.Name() {
	case "append":
		v := c.Value()
		if v == nil {
			return
		}
		o := st.obj(v)
		dst := st.get(v)
		st.add(dst.direct, o, "")
		if _, isC := args[0].(*ssa.Const); !isC {
			st.union(dst.direct, flat(st.get(args[0])))
		}
		el := v.Type().Underlying().(*types.Slice).Elem()
		if len(args) > 1 && st.m.refs(el) {
			tmp := st.loadTmp(args[1], el)
			st.union(st.contents(o.idx, -1), flat(tmp))
			// into the existing backing arrays too
			for r := range flat(st.get(args[0])) {
				if r.kind == rkObj {
					st.union(st.contents(r.idx, -1), flat(tmp))
				} else {
					st.storeRoot(r, flat(tmp))
				}
			}
		}
	case "copy":
		el := args[0].Type().Underlying().(*types.Slice).Elem()
		tmp := &vinfo{direct: taint{}}
		if _, ok := args[1].Type().Underlying().(*types.Slice); ok {
			tmp = st.loadTmp(args[1], el)
		}
		st.store(flat(st.get(args[0])), tmp, el, "elem of "+describeVal(args[0]), args[0].Type(), c.Pos(), "")
	case "delete":
		for r := range flat(st.get(args[0])) {
			if r.kind != rkObj {
				st.mutate(r, "map "+describeVal(args[0]), args[0].Type(), c.Pos(), "")
			}
		}
	case "clear":
		for r := range flat(st.get(args[0])) {
			if r.kind != rkObj {
				st.mutate(r, "elem of "+describeVal(args[0]), args[0].Type(), c.Pos(), "")
			}
		}
	}
}

// mutations of parameter i (0 is the receiver), sorted by kind.
func (m *modAnalysis) mutations(fn *ssa.Function, i int) []effect {
	s := m.sum[fn]
	if s == nil {
		return nil
	}
	var out []effect
	seen := map[string]bool{}
	for r, es := range s.mut {
		if r.kind != rkParam || r.idx != i {
			continue
		}
		for _, e := range es {
			if !seen[e.kind] {
				seen[e.kind] = true
				out = append(out, e)
			}
		}
	}
	sort.Slice(out, func(a, b int) bool { return out[a].kind < out[b].kind })
	return out
}

// shared is the memory result i shares: what it refers to, and what the fresh memory it
// refers to does.
func (m *modAnalysis) shared(s *summary, i int) (direct, contents taint) {
	direct, contents = taint{}, taint{}
	if i >= len(s.retD) {
		return
	}
	cp := func(dst, src taint) {
		for r, l := range src {
			dst[r] = l
		}
	}
	cp(direct, s.retD[i])
	cp(contents, s.retK[i])
	for _, t := range s.retDF[i] {
		cp(direct, t)
	}
	for _, t := range s.retKF[i] {
		cp(contents, t)
	}
	return
}

func (m *modAnalysis) dumpSummary(fn *ssa.Function) {
	s := m.sum[fn]
	fmt.Println("==", fname(fn))
	if s == nil {
		return
	}
	for r, k := range s.mut {
		name := fmt.Sprint(r.idx)
		if r.kind == rkParam {
			name = fn.Params[r.idx].Name()
			if r.fld >= 0 {
				name += fmt.Sprintf(".%d", r.fld)
			}
		} else if r.kind == rkGlobal {
			name = "global " + r.g.String()
		}
		for kk, e := range k {
			fmt.Printf("   mut %s: %s  @%s via %s\n", name, kk, m.p.pos(e.pos), e.via)
		}
	}
	for i := range s.retD {
		d, k := m.shared(s, i)
		fmt.Printf("   ret %d: direct %v contents %v\n", i, m.taintString(fn, d), m.taintString(fn, k))
	}
	for r, t := range s.stores {
		fmt.Printf("   stores %v <- %v\n", m.rootString(fn, r), m.taintString(fn, t))
	}
}

// moduleType: memory of a type declared in the module, or containing one.
func (m *modAnalysis) moduleType(t types.Type) bool {
	for {
		switch u := t.(type) {
		case *types.Named:
			return u.Obj().Pkg() != nil && strings.HasPrefix(u.Obj().Pkg().Path(), modPath)
		case *types.Pointer:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		case *types.Array:
			t = u.Elem()
		case *types.Map:
			return m.moduleType(u.Key()) || m.moduleType(u.Elem())
		default:
			return false
		}
	}
}

func (m *modAnalysis) rootString(fn *ssa.Function, r root) string {
	s := ""
	switch r.kind {
	case rkParam:
		s = fn.Params[r.idx].Name()
		if r.fld >= 0 {
			s += fmt.Sprintf(".%d", r.fld)
		}
	case rkFree:
		s = "free " + fn.FreeVars[r.idx].Name()
	case rkGlobal:
		s = "global " + r.g.Name()
	default:
		s = fmt.Sprintf("obj%d", r.idx)
	}
	if r.typ != nil {
		s += "(" + typeName2(r.typ) + ")"
	}
	return s
}

func typeName2(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (m *modAnalysis) taintString(fn *ssa.Function, t taint) string {
	var l []string
	for r := range t {
		l = append(l, m.rootString(fn, r))
	}
	sort.Strings(l)
	return "[" + strings.Join(l, ", ") + "]"
}

// knownNil: on every path to b, v has been found nil.
func knownNil(v ssa.Value, b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil || len(d.Preds) != 1 || d.Preds[0] != id {
			continue
		}
		iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		c, isC := bo.Y.(*ssa.Const)
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		if !isC || !c.IsNil() || bo.X != v {
			continue
		}
		if (bo.Op == token.EQL && id.Succs[0] == d) || (bo.Op == token.NEQ && id.Succs[1] == d) {
			return true
		}
	}
	return false
}
