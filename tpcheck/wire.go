package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The cache file: what is written for each type is what is read.

func init() {
	register("C24", "The layout written by each function of the cache of a font set (offsets, widths, fields) is extracted from its code, and compared with the layout its reader expects.", runC24)
}

// lin is a linear form.
type lin struct {
	k int64
	s map[string]int64
}

func linK(k int64) *lin         { return &lin{k: k} }
func linSym(s string) *lin      { return &lin{s: map[string]int64{s: 1}} }
func (a *lin) isK() bool        { return a != nil && len(a.s) == 0 }
func (a *lin) plus(b *lin) *lin { return a.add(b, 1) }

func (a *lin) add(b *lin, f int64) *lin {
	if a == nil || b == nil {
		return nil
	}
	out := &lin{k: a.k + f*b.k, s: map[string]int64{}}
	for s, n := range a.s {
		out.s[s] += n
	}
	for s, n := range b.s {
		out.s[s] += f * n
		if out.s[s] == 0 {
			delete(out.s, s)
		}
	}
	return out
}

func (a *lin) times(n int64) *lin { return linK(0).add(a, n) }

func (a *lin) String() string {
	if a == nil {
		return "?"
	}
	var out []string
	for _, s := range sortedKeys(a.s) {
		switch n := a.s[s]; n {
		case 1:
			out = append(out, s)
		default:
			out = append(out, fmt.Sprintf("%d*%s", n, s))
		}
	}
	if a.k != 0 || len(out) == 0 {
		out = append(out, fmt.Sprint(a.k))
	}
	return strings.Join(out, "+")
}

// rename replaces symbols.
func (a *lin) rename(f func(s string) *lin) *lin {
	if a == nil {
		return nil
	}
	out := linK(a.k)
	for s, n := range a.s {
		if r := f(s); r != nil {
			out = out.add(r, n)
		} else {
			out = out.add(linSym(s), n)
		}
	}
	return out
}

type wframe struct {
	fn    *ssa.Function
	up    *wframe
	site  ssa.Instruction
	args  []ssa.Value
	depth int
}

func (f *wframe) chain(in ssa.Instruction) []ssa.Instruction {
	if f.up == nil {
		return []ssa.Instruction{in}
	}
	return append(f.up.chain(f.site), in)
}

func (f *wframe) resolve(v ssa.Value) (*wframe, ssa.Value) {
	for {
		switch w := v.(type) {
		case *ssa.Parameter:
			if f.up == nil {
				return f, v
			}
			for i, q := range f.fn.Params {
				if q == w && i < len(f.args) {
					v = f.args[i]
				}
			}
			if v == w {
				return f, v
			}
			f = f.up
			continue
		case *ssa.ChangeType:
			v = w.X
			continue
		case *ssa.MakeInterface:
			v = w.X
			continue
		case *ssa.ChangeInterface:
			v = w.X
			continue
		case *ssa.UnOp:
			if w.Op == token.MUL {
				if al, ok := w.X.(*ssa.Alloc); ok {
					if st := onlyWhole(al); st != nil {
						v = st
						continue
					}
				}
			}
		}
		return f, v
	}
}

// onlyWhole is the only value the variable ever holds.
func onlyWhole(al *ssa.Alloc) ssa.Value {
	var val ssa.Value
	for _, ref := range *al.Referrers() {
		switch ref := ref.(type) {
		case *ssa.Store:
			if ref.Addr != al || val != nil {
				return nil
			}
			val = ref.Val
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !onlyRead(ref) {
				return nil
			}
		case *ssa.IndexAddr:
			if !onlyRead(ref) {
				return nil
			}
		default:
			return nil
		}
	}
	return val
}

func onlyRead(addr ssa.Value) bool {
	for _, ref := range *addr.Referrers() {
		switch ref := ref.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !onlyRead(ref) {
				return false
			}
		case *ssa.IndexAddr:
			if !onlyRead(ref) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

type wireItem struct {
	off   *lin
	width int64 // 0: a string of bytes
	size  *lin
	big   bool
	path  string
	codec string
	iters []*lin
	in    ssa.Instruction
	chain []ssa.Instruction
	buf   ssa.Value
	bufF  *wframe
	depth int
}

type wireTok struct {
	what  string // a width, or "value"
	depth int
	off   *lin
	in    ssa.Instruction
}

func (t wireTok) String() string { return fmt.Sprintf("%s%s", strings.Repeat(">", t.depth), t.what) }

type wire struct {
	p       *Program
	r       *Report
	writers map[string]*ssa.Function // by type
	readers map[string]*ssa.Function
	wset    map[*ssa.Function]string
	rset    map[*ssa.Function]string
	loopsOf map[*ssa.Function][]*loop

	fn     *ssa.Function // being analysed
	raw    bool          // keep the running offsets as symbols
	lost   bool
	items  []wireItem
	writes []wireItem
	calls  []wireItem // nested values
	out    ssa.Value  // what is read
	deep   int
}

func (c *wire) enclosing(fn *ssa.Function, b *ssa.BasicBlock) []*loop {
	ls, ok := c.loopsOf[fn]
	if !ok {
		ls = c.p.loops(fn)
		c.loopsOf[fn] = ls
	}
	var out []*loop
	for _, l := range ls {
		if l.body[b] {
			out = append(out, l)
		}
	}
	sort.Slice(out, func(i, j int) bool { return len(out[i].body) > len(out[j].body) })
	return out
}

func (c *wire) depthOf(f *wframe, b *ssa.BasicBlock) int {
	return f.depth + len(c.enclosing(f.fn, b))
}

func codecOf(name string) (width int64, big, put, ok bool) {
	i := strings.LastIndex(name, ".")
	if i < 0 || !strings.HasPrefix(name, "(encoding/binary.") {
		return
	}
	m := name[i+1:]
	big = strings.Contains(name[:i], "big")
	if strings.HasPrefix(m, "Put") {
		put, m = true, m[3:]
	}
	switch m {
	case "Uint16":
		width = 2
	case "Uint32":
		width = 4
	case "Uint64":
		width = 8
	default:
		return
	}
	return width, big, put, true
}

func (c *wire) eval(f *wframe, v ssa.Value) *lin {
	c.deep++
	defer func() { c.deep-- }()
	if c.deep > 60 {
		return nil
	}
	f, v = f.resolve(v)
	switch v := v.(type) {
	case *ssa.Const:
		if n, ok := intOf(v); ok {
			return linK(n)
		}
	case *ssa.Convert:
		if isInteger(v.Type()) && isInteger(v.X.Type()) {
			return c.eval(f, v.X)
		}
	case *ssa.BinOp:
		a, b := c.eval(f, v.X), c.eval(f, v.Y)
		if a == nil || b == nil {
			return nil
		}
		switch v.Op {
		case token.ADD:
			return a.add(b, 1)
		case token.SUB:
			return a.add(b, -1)
		case token.MUL:
			if a.isK() {
				return b.times(a.k)
			}
			if b.isK() {
				return a.times(b.k)
			}
		case token.SHL:
			if b.isK() && b.k >= 0 && b.k < 32 {
				return a.times(1 << uint(b.k))
			}
		case token.QUO, token.SHR:
			if !b.isK() || b.k < 0 || b.k == 0 && v.Op == token.QUO || b.k > 1<<30 {
				return nil
			}
			n := b.k
			if v.Op == token.SHR {
				n = 1 << uint(b.k)
			}
			out := linK(a.k / n)
			if a.k%n != 0 {
				return nil
			}
			for s, m := range a.s {
				if m%n != 0 {
					return nil
				}
				out = out.add(linSym(s), m/n)
			}
			return out
		}
	case *ssa.Phi:
		return c.evalPhi(f, v)
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return c.length(f, v.Call.Args[0])
		}
		if w, _, put, ok := codecOf(calleeName(v)); ok && !put && len(v.Call.Args) == 2 {
			if id, _, off := c.buffer(f, v.Call.Args[1]); id != nil && off != nil {
				return linSym(fmt.Sprintf("@%s:%d", off, w))
			}
			return nil
		}
		if g := c.helper(v); g != nil {
			if ret := onlyReturn(g); ret != nil && len(ret.Results) == 1 {
				return c.eval(c.enter(f, v, g), ret.Results[0])
			}
		}
	case *ssa.Extract:
		if call, ok := v.Tuple.(*ssa.Call); ok && isInteger(v.Type()) {
			if g := c.reader(call); g != nil {
				if id, _, off := c.dataOf(f, call); id != nil && off != nil {
					return linSym("size@" + off.String())
				}
			}
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if ia, ok := v.X.(*ssa.IndexAddr); ok {
				if id, _, off := c.buffer(f, ia.X); id != nil && off != nil {
					if i := c.eval(f, ia.Index); i != nil {
						return linSym(fmt.Sprintf("@%s:1", off.add(i, 1)))
					}
				}
			}
		}
	}
	return nil
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (c *wire) evalPhi(f *wframe, phi *ssa.Phi) *lin {
	ls := c.enclosing(f.fn, phi.Block())
	for i, l := range ls {
		if l.header != phi.Block() {
			continue
		}
		var init, next *lin
		sym := fmt.Sprintf("?%s%p", phi.Name(), phi)
		if c.raw && !strings.HasPrefix(phi.Comment, "range") {
			if _, ok := isCounter(phi, l); !ok {
				return linSym("off:" + phi.Name())
			}
		}
		step, ok := isCounter(phi, l)
		if !ok {
			return nil
		}
		_ = next
		_ = sym
		for j, e := range phi.Edges {
			if !l.body[phi.Block().Preds[j]] {
				x := c.eval(f, e)
				if x == nil || init != nil && init.String() != x.String() {
					return nil
				}
				init = x
			}
		}
		if init == nil {
			return nil
		}
		return init.add(linSym(fmt.Sprintf("$%d", f.depth+i)), step)
	}
	// the same size on all the branches
	var out *lin
	for _, e := range phi.Edges {
		x := c.eval(f, e)
		if x == nil {
			return nil
		}
		if x.isK() && c.raw {
			continue
		}
		if out != nil && out.String() != x.String() {
			return nil
		}
		out = x
	}
	return out
}

// isCounter: a constant is added to phi at each iteration.
func isCounter(phi *ssa.Phi, l *loop) (int64, bool) {
	var step int64
	n := 0
	for j, e := range phi.Edges {
		if !l.body[phi.Block().Preds[j]] {
			continue
		}
		base, k, ok := offset(e)
		if !ok || base != ssa.Value(phi) || n > 0 && k != step {
			return 0, false
		}
		step = k
		n++
	}
	return step, n > 0 && step != 0
}

func onlyReturn(fn *ssa.Function) *ssa.Return {
	var out *ssa.Return
	for _, b := range fn.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if out != nil {
				return nil
			}
			out = ret
		}
	}
	return out
}

// helper is the function of the library called, when it may be inlined.
func (c *wire) helper(call *ssa.Call) *ssa.Function {
	g := call.Call.StaticCallee()
	if g == nil || !inModule(g) || g.Blocks == nil || c.wset[g] != "" || c.rset[g] != "" {
		return nil
	}
	return g
}

func (c *wire) enter(f *wframe, call *ssa.Call, g *ssa.Function) *wframe {
	return &wframe{fn: g, up: f, site: call, args: call.Call.Args, depth: c.depthOf(f, call.Block())}
}

func (f *wframe) level() int {
	n := 0
	for ; f.up != nil; f = f.up {
		n++
	}
	return n
}

// buffer is the bytes v is a part of, and where.
func (c *wire) buffer(f *wframe, v ssa.Value) (ssa.Value, *wframe, *lin) {
	c.deep++
	defer func() { c.deep-- }()
	if c.deep > 60 {
		return nil, nil, nil
	}
	f, v = f.resolve(v)
	switch v := v.(type) {
	case *ssa.Slice:
		id, g, off := c.buffer(f, v.X)
		if id == nil {
			return nil, nil, nil
		}
		if v.Low != nil {
			off = off.plus(c.eval(f, v.Low))
		}
		return id, g, off
	case *ssa.Alloc:
		if _, ok := v.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
			return literalOf(v), f, linK(0)
		}
	case *ssa.MakeSlice:
		return v, f, linK(0)
	case *ssa.Parameter:
		if s, ok := v.Type().Underlying().(*types.Slice); ok && isByte(s.Elem()) {
			return v, f, linK(0)
		}
	case *ssa.Convert:
		return c.buffer(f, v.X)
	}
	return nil, nil, nil
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// length of a slice, an array or a string.
func (c *wire) length(f *wframe, v ssa.Value) *lin {
	t := v.Type().Underlying()
	if q, ok := t.(*types.Pointer); ok {
		t = q.Elem().Underlying()
	}
	if a, ok := t.(*types.Array); ok {
		return linK(a.Len())
	}
	f, v = f.resolve(v)
	switch w := v.(type) {
	case *ssa.Slice:
		var hi *lin
		if w.High != nil {
			hi = c.eval(f, w.High)
		} else {
			hi = c.length(f, w.X)
		}
		if w.Low != nil {
			hi = hi.add(c.eval(f, w.Low), -1)
		}
		return hi
	case *ssa.MakeSlice:
		return c.eval(f, w.Len)
	case *ssa.Parameter:
		if s, ok := w.Type().Underlying().(*types.Slice); ok && isByte(s.Elem()) {
			return linSym("len(data)")
		}
	case *ssa.Alloc:
		return c.length(f, v)
	}
	if p, ok := c.path(f, v); ok {
		return linSym("len(" + p + ")")
	}
	return nil
}

// path is how v is read from the value written, or where it is stored in the
// value read.
func (c *wire) path(f *wframe, v ssa.Value) (string, bool) {
	c.deep++
	defer func() { c.deep-- }()
	if c.deep > 60 {
		return "", false
	}
	f, v = f.resolve(v)
	if v == c.out {
		return "v", true
	}
	index := func(x ssa.Value, i ssa.Value) (string, bool) {
		p, ok := c.path(f, x)
		n := c.eval(f, i)
		if !ok || n == nil {
			return "", false
		}
		return p + "[" + n.String() + "]", true
	}
	switch v := v.(type) {
	case *ssa.FieldAddr:
		p, ok := c.path(f, v.X)
		return p + "." + fieldLabel(v), ok
	case *ssa.Field:
		p, ok := c.path(f, v.X)
		return p + "." + v.X.Type().Underlying().(*types.Struct).Field(v.Field).Name(), ok
	case *ssa.IndexAddr:
		return index(v.X, v.Index)
	case *ssa.Index:
		return index(v.X, v.Index)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return c.path(f, v.X)
		}
	case *ssa.Slice:
		if v.Low == nil || isIntConst(v.Low, 0) {
			if v.High == nil {
				return c.path(f, v.X)
			}
		}
	case *ssa.Alloc:
		if val := onlyWhole(v); val != nil {
			return c.path(f, val)
		}
	case *ssa.Convert:
		if isInteger(v.Type()) == isInteger(v.X.Type()) {
			return c.path(f, v.X)
		}
	}
	return "", false
}

func sizeOf(t types.Type) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Bool, types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32, types.Float32:
		return 4
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Float64:
		return 8
	}
	return 0
}

// source follows the conversions of a number: what it comes from, how it is
// encoded, and the narrowest type on the way.
func (c *wire) source(f *wframe, v ssa.Value) (g *wframe, src ssa.Value, codec string, narrow int64) {
	codec, narrow = "number", 8
	note := func(t types.Type) {
		if n := sizeOf(t); n > 0 && n < narrow {
			narrow = n
		}
	}
	for i := 0; i < 40; i++ {
		f, v = f.resolve(v)
		switch w := v.(type) {
		case *ssa.Convert:
			note(w.Type())
			if isFloat(w.X.Type()) && isInteger(w.Type()) || isFloat(w.Type()) && isInteger(w.X.Type()) {
				codec = "rounded"
			}
			v = w.X
			continue
		case *ssa.Call:
			switch calleeName(w) {
			case "math.Float32bits", "math.Float32frombits":
				codec = "float"
				note(types.Typ[types.Float32])
				v = w.Call.Args[0]
				continue
			case "math.Float64bits", "math.Float64frombits":
				codec = "double"
				v = w.Call.Args[0]
				continue
			}
			if g := c.helper(w); g != nil {
				if ret := onlyReturn(g); ret != nil && len(ret.Results) == 1 {
					f, v = c.enter(f, w, g), ret.Results[0]
					continue
				}
			}
		case *ssa.UnOp:
			if w.Op == token.MUL {
				if al, ok := w.X.(*ssa.Alloc); ok {
					if st := onlyWhole(al); st != nil {
						v = st
						continue
					}
				}
			}
		}
		break
	}
	return f, v, codec, narrow
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func sendsBytes(t types.Type) bool { return hasMethod(t, "Write") }

func hasMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

// iterations of the loops around a block.
func (c *wire) iterations(f *wframe, b *ssa.BasicBlock) []*lin {
	var out []*lin
	if f.up != nil {
		out = c.iterations(f.up, f.site.Block())
	}
	for _, l := range c.enclosing(f.fn, b) {
		out = append(out, c.trip(f, l))
	}
	return out
}

func (c *wire) trip(f *wframe, l *loop) *lin {
	iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok || !l.body[l.header.Succs[0]] || l.body[l.header.Succs[1]] {
		return nil
	}
	for b := range l.body {
		if b == l.header {
			continue
		}
		for _, s := range b.Succs {
			if !l.body[s] && !c.givesError(s) {
				return nil
			}
		}
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	sym := fmt.Sprintf("$%d", f.depth+len(c.enclosing(f.fn, l.header))-1)
	x, y := c.eval(f, cmp.X), c.eval(f, cmp.Y)
	op := cmp.Op
	if x == nil || y == nil {
		return nil
	}
	if y.s[sym] != 0 {
		x, y = y, x
		op = mirror(op)
	}
	if x.s[sym] <= 0 || y.s[sym] != 0 {
		return nil
	}
	step := x.s[sym]
	n := y.add(x.add(linSym(sym), -step), -1)
	switch op {
	case token.LSS, token.NEQ:
	case token.LEQ:
		n = n.add(linK(1), 1)
	default:
		return nil
	}
	if step == 1 {
		return n
	}
	if n.isK() {
		return linK((n.k + step - 1) / step)
	}
	return nil
}

func mirror(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func (c *wire) reader(call *ssa.Call) *ssa.Function {
	g := call.Call.StaticCallee()
	if g != nil && c.rset[g] != "" {
		return g
	}
	return nil
}

// dataOf is the part of the data given to a nested reader.
func (c *wire) dataOf(f *wframe, call *ssa.Call) (ssa.Value, *wframe, *lin) {
	for _, a := range call.Call.Args {
		if s, ok := a.Type().Underlying().(*types.Slice); ok && isByte(s.Elem()) {
			return c.buffer(f, a)
		}
	}
	return nil, nil, nil
}

// order is a reverse postorder of the blocks.
func order(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s] {
				walk(s)
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		walk(fn.Blocks[0])
	}
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

// before: a is executed before b, each time b is.
func before(a, b []ssa.Instruction) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		x, y := a[i], b[i]
		if x == y {
			continue
		}
		if x.Parent() != y.Parent() {
			return false
		}
		if x.Block() == y.Block() {
			for _, in := range x.Block().Instrs {
				if in == x {
					return true
				}
				if in == y {
					return false
				}
			}
		}
		return x.Block().Dominates(y.Block())
	}
	return false
}

// written collects what a function writes.
func (c *wire) written(f *wframe) {
	if f.level() > 6 {
		c.lost = true
		return
	}
	for _, b := range order(f.fn) {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				ia, ok := in.Addr.(*ssa.IndexAddr)
				if !ok || !isByte(in.Val.Type()) {
					continue
				}
				c.put(f, in, ia.X, ia.Index, in.Val, 1, true)
			case *ssa.Call:
				name := calleeName(in)
				if w, big, put, ok := codecOf(name); ok && len(in.Call.Args) == 3 && put {
					c.put(f, in, in.Call.Args[1], nil, in.Call.Args[2], w, big)
					continue
				}
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "copy":
						if id, g, off := c.buffer(f, in.Call.Args[0]); id != nil {
							p, ok := c.path(f, in.Call.Args[1])
							if !ok || off == nil {
								c.lost = true
								continue
							}
							c.items = append(c.items, wireItem{off: off, size: c.length(f, in.Call.Args[1]), path: p, codec: "bytes", in: in, chain: f.chain(in), buf: id, bufF: g, big: true})
						}
					case "append":
						if s, ok := in.Type().Underlying().(*types.Slice); ok && isByte(s.Elem()) {
							c.lost = true
						}
					}
					continue
				}
				if in.Call.IsInvoke() && in.Call.Method.Name() == "Write" || !in.Call.IsInvoke() && in.Call.StaticCallee() != nil && in.Call.StaticCallee().Name() == "Write" && !inModule(in.Call.StaticCallee()) {
					arg := in.Call.Args[len(in.Call.Args)-1]
					it := wireItem{in: in, chain: f.chain(in), depth: c.depthOf(f, b), iters: c.iterations(f, b)}
					if id, g, off := c.buffer(f, arg); id != nil {
						it.buf, it.bufF, it.off, it.size = id, g, off, c.length(f, arg)
					} else {
						g, v := f.resolve(arg)
						if ex, ok := v.(*ssa.Extract); ok {
							v = ex.Tuple
						}
						_ = g
						if call, ok := v.(*ssa.Call); ok && c.wset[call.Call.StaticCallee()] != "" {
							it.path = "value"
						} else {
							c.lost = true
							continue
						}
					}
					c.writes = append(c.writes, it)
					continue
				}
				if c.nestedWriter(in) {
					sends := false
					for _, a := range in.Call.Args {
						if sendsBytes(a.Type()) {
							sends = true
						}
					}
					if sends {
						c.writes = append(c.writes, wireItem{in: in, chain: f.chain(in), depth: c.depthOf(f, b), iters: c.iterations(f, b), path: "value"})
					}
					continue
				}
				touches := false
				for _, a := range in.Call.Args {
					if sendsBytes(a.Type()) {
						touches = true
					}
					if s, ok := a.Type().Underlying().(*types.Slice); ok && isByte(s.Elem()) {
						touches = true
					}
				}
				if !touches {
					continue
				}
				if g := c.helper(in); g != nil {
					c.written(c.enter(f, in, g))
					continue
				}
				switch {
				case strings.HasSuffix(name, ".NewWriter"), strings.HasSuffix(name, ".Close"), strings.HasSuffix(name, ".Bytes"), strings.HasSuffix(name, ".NewWriterLevel"), strings.HasSuffix(name, ".Flush"), strings.HasSuffix(name, ".Reset"), strings.HasSuffix(name, ".Grow"):
				default:
					c.lost = true
				}
			case *ssa.Go, *ssa.MakeClosure:
				c.lost = true
			}
		}
	}
}

func (c *wire) nestedWriter(call *ssa.Call) bool {
	if g := call.Call.StaticCallee(); g != nil {
		return c.wset[g] != ""
	}
	cs := c.p.callees(call)
	for _, g := range cs {
		if c.wset[g] == "" {
			return false
		}
	}
	return len(cs) > 0
}

func (c *wire) put(f *wframe, in ssa.Instruction, slice, index, val ssa.Value, width int64, big bool) {
	id, bf, off := c.buffer(f, slice)
	if id == nil {
		return
	}
	if _, ok := id.(*ssa.Parameter); ok {
		return
	}
	if index != nil {
		off = off.plus(c.eval(f, index))
	}
	it := wireItem{off: off, width: width, big: big, in: in, chain: f.chain(in), buf: id, bufF: bf, depth: c.depthOf(f, in.Block())}
	it.iters = c.iterations(f, in.Block())
	g, src, codec, narrow := c.source(f, val)
	it.codec = codec
	if _, ok := src.(*ssa.Const); ok {
		it.path = "const"
	}
	if call, ok := src.(*ssa.Call); ok {
		if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if narrow = min64(narrow, width); narrow < 2 {
				c.r.find("extent", "count "+fname(f.fn), c.p.pos(posOf(in)), "%s keeps only %d byte of the number of elements: more than %d are not read back", fname(f.fn), narrow, 1<<uint(8*narrow)-1)
			}
			if n := c.length(g, call.Call.Args[0]); n != nil {
				it.path, it.codec = "#"+n.String(), "number"
			}
		} else if c.p.inMod(call) {
			it.path = "code"
		}
	}
	if it.path == "" {
		if p, ok := c.path(g, src); ok {
			it.path = p
			if full := sizeOf(src.Type()); full > 0 && min64(narrow, width) < full {
				it.codec = fmt.Sprintf("%d of the %d bytes of a number", min64(narrow, width), full)
			}
		}
	}
	if off == nil {
		it.path = ""
	}
	c.items = append(c.items, it)
}

func (p *Program) inMod(call *ssa.Call) bool {
	g := call.Call.StaticCallee()
	return g != nil && inModule(g)
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// read collects what a function stores from its data.
func (c *wire) read(f *wframe) {
	if f.level() > 6 {
		c.lost = true
		return
	}
	for _, b := range order(f.fn) {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if al, ok := in.Addr.(*ssa.Alloc); ok && ssa.Value(al) != c.out {
					continue
				}
				p, ok := c.path(f, in.Addr)
				if !ok {
					continue
				}
				if _, ok := in.Val.(*ssa.MakeSlice); ok {
					c.items = append(c.items, wireItem{path: p, codec: "make", size: c.eval(f, in.Val.(*ssa.MakeSlice).Len), in: in, chain: f.chain(in)})
					continue
				}
				c.get(f, in, p, in.Val, sizeOf(in.Val.Type()))
			case *ssa.Call:
				name := calleeName(in)
				if _, _, _, ok := codecOf(name); ok {
					continue
				}
				if c.reader(in) != nil {
					id, _, off := c.dataOf(f, in)
					it := wireItem{off: off, path: "value", in: in, chain: f.chain(in), depth: c.depthOf(f, b), iters: c.iterations(f, b), buf: id}
					c.calls = append(c.calls, it)
					continue
				}
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" || bi.Name() == "copy" {
						if p, ok := c.path(f, in.Call.Args[0]); ok && p != "" {
							c.lost = true
						}
					}
					continue
				}
				touches := false
				for _, a := range in.Call.Args {
					if id, _, _ := c.buffer(f, a); id != nil {
						touches = true
					}
					if _, ok := a.Type().Underlying().(*types.Pointer); ok {
						if _, ok := c.path(f, a); ok {
							touches = true
						}
					}
				}
				if !touches {
					continue
				}
				if g := c.helper(in); g != nil {
					c.read(c.enter(f, in, g))
					continue
				}
				if strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "errors.") {
					continue
				}
				c.lost = true
			case *ssa.Go, *ssa.MakeClosure:
				c.lost = true
			}
		}
	}
}

func (c *wire) get(f *wframe, in ssa.Instruction, p string, val ssa.Value, full int64) {
	it := wireItem{path: p, in: in, chain: f.chain(in), depth: c.depthOf(f, in.Block()), iters: c.iterations(f, in.Block())}
	// a string of bytes
	g, v := f.resolve(val)
	if cv, ok := v.(*ssa.Convert); ok && !isInteger(cv.Type()) && !isFloat(cv.Type()) {
		g2, s := g.resolve(cv.X)
		if id, _, off := c.buffer(g2, s); id != nil {
			if sl, ok := s.(*ssa.Slice); ok && sl.High != nil {
				low := linK(0)
				if sl.Low != nil {
					low = c.eval(g2, sl.Low)
				}
				it.off, it.codec, it.size, it.big = off, "bytes", c.eval(g2, sl.High).add(low, -1), true
				if it.off == nil || it.size == nil {
					c.lost = true
				}
				c.items = append(c.items, it)
				return
			}
		}
	}
	h, src, codec, narrow := c.source(f, val)
	it.codec = codec
	switch s := src.(type) {
	case *ssa.Call:
		if w, big, put, ok := codecOf(calleeName(s)); ok && !put && len(s.Call.Args) == 2 {
			if id, _, off := c.buffer(h, s.Call.Args[1]); id != nil {
				it.off, it.width, it.big = off, w, big
				narrow = min64(narrow, w)
			}
		}
	case *ssa.UnOp:
		if ia, ok := s.X.(*ssa.IndexAddr); ok && s.Op == token.MUL {
			if id, _, off := c.buffer(h, ia.X); id != nil {
				it.off, it.width, it.big = off.plus(c.eval(h, ia.Index)), 1, true
				narrow = 1
			}
		}
	case *ssa.MakeInterface, *ssa.Extract, *ssa.Alloc, *ssa.Const:
		return
	}
	if it.off == nil {
		c.lost = true
		return
	}
	if full > 0 && narrow < full {
		it.codec = fmt.Sprintf("%d of the %d bytes of a number", narrow, full)
	}
	c.items = append(c.items, it)
}

func (c *wire) reset(fn *ssa.Function) {
	c.fn, c.lost, c.items, c.writes, c.calls, c.out, c.deep, c.raw = fn, false, nil, nil, nil, nil, 0, false
}

// givesError: the block ends the function with an error.
func (c *wire) givesError(b *ssa.BasicBlock) bool {
	var from *ssa.BasicBlock
	for i := 0; i < 8; i++ {
		switch last := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			if len(last.Results) == 0 {
				return false
			}
			v := retVal(last, len(last.Results)-1)
			if phi, ok := v.(*ssa.Phi); ok && phi.Block() == b && from != nil {
				for j, q := range b.Preds {
					if q == from {
						v = phi.Edges[j]
					}
				}
			}
			if v == nil || isNilConst(v) || !isErrorType(v.Type()) {
				return false
			}
			if nonNilErr(v) {
				return true
			}
			// the error tested just before
			for _, pr := range b.Preds {
				iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
				if !ok {
					return false
				}
				cmp, ok := iff.Cond.(*ssa.BinOp)
				if !ok || cmp.X != v && cmp.Y != v {
					return false
				}
				if cmp.Op == token.NEQ && pr.Succs[0] != b || cmp.Op == token.EQL && pr.Succs[1] != b {
					return false
				}
			}
			return len(b.Preds) > 0
		case *ssa.Jump:
			from, b = b, b.Succs[0]
		case *ssa.Panic:
			return true
		default:
			return false
		}
	}
	return false
}

func isErrorType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

func runC24(p *Program, r *Report) {
	c := &wire{p: p, r: r, loopsOf: map[*ssa.Function][]*loop{}, writers: map[string]*ssa.Function{}, readers: map[string]*ssa.Function{}, wset: map[*ssa.Function]string{}, rset: map[*ssa.Function]string{}}
	save, load := p.lookupFunc("fontconfig", "Fontset.Serialize"), p.lookupFunc("fontconfig", "LoadFontset")
	if save == nil || load == nil {
		r.need("the functions writing and reading a font set", 0, 1)
		return
	}
	r.rule("fields: each field of a type of the cache is written and read at the same place, with the same width, byte order and encoding, without losing a part of it")
	r.rule("extent: the size a reader reports is the size written; a value which was written is not refused; loops cover the same elements")
	r.rule("codes: each type of value is read back from the code which was written for it, and the other codes are errors")
	r.rule("sequence: the counts, entries and values are read in the order they are written, none is left out, and the running offset follows what is read")
	saved, loaded := p.reachable([]*ssa.Function{save}, true), p.reachable([]*ssa.Function{load}, true)
	c.collect(saved, loaded, save, load)
	var names []string
	for t, w := range c.writers {
		if w != nil && c.readers[t] != nil {
			names = append(names, t)
		}
	}
	sort.Strings(names)
	for _, t := range names {
		c.wset[c.writers[t]], c.rset[c.readers[t]] = t, t
	}
	r.count("types_of_the_cache", len(names))
	decided := 0
	for _, t := range names {
		if c.compare(t, c.writers[t], c.readers[t]) {
			decided++
		}
	}
	r.count("layouts_compared", decided)
	r.need("types with a writer and a reader", len(names), 2)
	r.need("layouts compared", decided, 1)
	c.codes(saved, loaded)
	c.shortReads(loaded)
	c.streams(saved, loaded)
	c.allKeys(saved)
	c.limits(loaded)
}

func (c *wire) collect(saved, loaded map[*ssa.Function]bool, save, load *ssa.Function) {
	named := func(t types.Type) string {
		if q, ok := t.Underlying().(*types.Pointer); ok {
			t = q.Elem()
		}
		n, ok := t.(*types.Named)
		if !ok || n.Obj().Pkg() == nil || !strings.Contains(n.Obj().Pkg().Path(), "fontconfig") {
			return ""
		}
		return n.Obj().Name()
	}
	twice := map[string]bool{}
	add := func(m map[string]*ssa.Function, side, t string, fn *ssa.Function) {
		if t == "" {
			return
		}
		if old := m[t]; old != nil && old != fn {
			twice[side+t] = true
		}
		m[t] = fn
	}
	for fn := range saved {
		sig := fn.Signature
		if fn.Blocks == nil || len(fn.Params) == 0 || fn.Synthetic != "" {
			continue
		}
		res := sig.Results()
		sends := false
		for _, q := range fn.Params[1:] {
			if types.IsInterface(q.Type()) && sendsBytes(q.Type()) {
				sends = true
			}
		}
		bytesRes := false
		if res.Len() > 0 {
			if s, ok := res.At(0).Type().Underlying().(*types.Slice); ok && isByte(s.Elem()) {
				bytesRes = true
			}
		}
		if !sends && !bytesRes || res.Len() == 0 || !bytesRes && !isErrorType(res.At(res.Len()-1).Type()) {
			continue
		}
		if sig.Recv() == nil && len(fn.Params) > 2 {
			continue
		}
		add(c.writers, "w", named(fn.Params[0].Type()), fn)
	}
	for fn := range loaded {
		sig := fn.Signature
		if fn.Blocks == nil || len(fn.Params) == 0 || fn.Synthetic != "" {
			continue
		}
		takes := false
		for _, q := range fn.Params {
			if s, ok := q.Type().Underlying().(*types.Slice); ok && isByte(s.Elem()) {
				takes = true
			}
		}
		if !takes && fn != load || sig.Results().Len() == 0 || !isErrorType(sig.Results().At(sig.Results().Len()-1).Type()) {
			continue
		}
		t := ""
		if sig.Recv() != nil {
			t = named(sig.Recv().Type())
		} else {
			t = named(sig.Results().At(0).Type())
		}
		add(c.readers, "r", t, fn)
	}
	for k := range twice {
		if k[0] == 'w' {
			delete(c.writers, k[1:])
		} else {
			delete(c.readers, k[1:])
		}
	}
	c.writers["Fontset"], c.readers["Fontset"] = save, load
}

// compare the writer and the reader of a type.
func (c *wire) compare(t string, w, rd *ssa.Function) bool {
	p, r := c.p, c.r
	key := t
	// what is written
	c.reset(w)
	c.out = w.Params[0]
	c.written(&wframe{fn: w})
	wlost, witems, writes := c.lost, c.items, c.writes
	if len(writes) == 0 {
		wlost = true
	}
	composite := t == "Fontset"
	for _, x := range writes {
		if x.path == "value" || x.depth > 0 {
			composite = true
		}
	}
	if !wlost {
		c.notSkipped(t, w, writes)
	}
	if composite {
		return c.sequence(t, w, rd, wlost, witems, writes)
	}
	// the writes follow one another
	total := linK(0)
	base := map[ssa.Instruction]*lin{}
	for i, x := range writes {
		if i > 0 && !before(writes[i-1].chain, x.chain) || x.off == nil || x.size == nil {
			wlost = true
			break
		}
		base[x.in] = total.add(x.off, -1)
		total = total.plus(x.size)
	}
	var fields []wireItem
	if !wlost {
		for _, it := range witems {
			var at ssa.Instruction
			for _, x := range writes {
				if x.buf != it.buf || x.bufF.fn != it.bufF.fn {
					continue
				}
				if at != nil && before(x.chain, it.chain) {
					continue // sent before
				}
				if at != nil {
					continue
				}
				if before(x.chain, it.chain) {
					continue
				}
				at = x.in
			}
			if at == nil {
				wlost = true
				continue
			}
			it.off = it.off.plus(base[at])
			fields = append(fields, it)
		}
	}
	// what is read
	c.reset(rd)
	for _, q := range rd.Params {
		if rd.Signature.Recv() != nil && q == rd.Params[0] {
			c.out = q
		}
	}
	if c.out == nil {
		for _, b := range rd.Blocks {
			for _, in := range b.Instrs {
				if al, ok := in.(*ssa.Alloc); ok && typeName(al.Type().Underlying().(*types.Pointer).Elem()) == typeName(rd.Signature.Results().At(0).Type()) {
					c.out = al
				}
			}
		}
	}
	if c.out == nil || len(fields) == 0 {
		return false
	}
	f := &wframe{fn: rd}
	c.read(f)
	rlost, ritems := c.lost, c.items
	if len(c.calls) > 0 || len(ritems) == 0 {
		rlost = true
	}
	r.count("obligations", len(fields)+len(ritems))

	// the counts: the value read at some place is the length written there
	counts := map[string]*lin{}
	for _, it := range fields {
		if strings.HasPrefix(it.path, "#") && it.off != nil {
			counts[fmt.Sprintf("@%s:%d", it.off, it.width)] = linSym(it.path[1:])
		}
	}
	made := map[string]*lin{}
	for _, it := range ritems {
		if it.codec == "make" && it.size != nil {
			made["len("+it.path+")"] = it.size
		}
	}
	toW := func(x *lin) *lin {
		x = x.rename(func(s string) *lin { return made[s] })
		return x.rename(func(s string) *lin { return counts[s] })
	}
	// lengths which are the same for the reader are the same
	alias := map[string]string{}
	byCount := map[string]string{}
	for _, l := range sortedKeys(made) {
		k := toW(made[l]).String()
		if o, ok := byCount[k]; ok {
			alias[l] = o
		} else {
			byCount[k] = l
			if strings.HasPrefix(k, "len(") {
				byCount[k] = k
				alias[l] = k
			}
		}
	}
	norm := func(x *lin) *lin {
		x = toW(x)
		return x.rename(func(s string) *lin {
			if o, ok := alias[s]; ok && o != s {
				return linSym(o)
			}
			return nil
		})
	}
	pos := func(in ssa.Instruction) string { return p.pos(posOf(in)) }
	describe := func(it wireItem) string {
		enc := ""
		if !it.big {
			enc = " in little endian order"
		}
		if it.codec != "number" {
			enc += " (" + it.codec + ")"
		}
		return fmt.Sprintf("%d bytes at %s%s", it.width, norm(it.off), enc)
	}
	// fields
	wtwice, rtwice := false, false
	wby := map[string]wireItem{}
	for _, it := range fields {
		if it.path == "" || it.off == nil {
			wlost = true
			continue
		}
		if it.path == "code" {
			wlost = true
			continue
		}
		if strings.HasPrefix(it.path, "#") || it.path == "const" {
			continue
		}
		if strings.Contains(it.codec, " of the ") || it.codec == "rounded" {
			r.find("fields", key+" written "+it.path, pos(it.in), "%s keeps only %s: the font set read from the cache is not the one which was written", fname(w), what(it))
		}
		if old, ok := wby[it.path]; ok && old.in != it.in {
			wtwice = true
		}
		wby[it.path] = it
	}
	rby := map[string]wireItem{}
	for _, it := range ritems {
		if it.codec == "make" {
			continue
		}
		if strings.Contains(it.codec, " of the ") || it.codec == "rounded" {
			r.find("fields", key+" read "+it.path, pos(it.in), "%s keeps only %s: the font set read from the cache is not the one which was written", fname(rd), what(it))
		}
		if old, ok := rby[it.path]; ok && old.in != it.in {
			rtwice = true
		}
		rby[it.path] = it
	}
	if wlost || rlost {
		r.sample("%s: not decided (writer %v, reader %v)", t, wlost, rlost)
		return false
	}

	c.overlaps(t, w, fields, norm, total)
	for _, q := range sortedKeys(wby) {
		a := wby[q]
		b, found := rby[q]
		if found && (wtwice || rtwice) {
			continue
		}
		if !found {
			r.find("fields", key+" not read "+q, pos(a.in), "%s writes %s (%s), which %s does not read back", fname(w), q, describe(a), fname(rd))
			continue
		}
		same := a.width == b.width && a.big == b.big && codecFamily(a.codec) == codecFamily(b.codec) && norm(a.off).String() == norm(b.off).String()
		if a.codec == "bytes" && same && a.size != nil && b.size != nil && norm(a.size).String() != norm(b.size).String() {
			r.find("extent", key+" bytes "+q, pos(b.in), "%s reads %s bytes of %s where %s writes %s", fname(rd), norm(b.size), q, fname(w), norm(a.size))
		}
		if !same {
			r.find("fields", key+" "+q, pos(b.in), "%s reads %s from %s, but %s writes it as %s (%s)", fname(rd), q, describe(b), fname(w), describe(a), pos(a.in))
			continue
		}
		for i := range a.iters {
			if i >= len(b.iters) {
				break
			}
			x, y := a.iters[i], b.iters[i]
			if x == nil || y == nil {
				continue
			}
			if d := norm(x).add(norm(y), -1); d.isK() && d.k != 0 {
				r.find("extent", key+" elements "+q, pos(b.in), "%s reads %s elements of %s where %s writes %s", fname(rd), norm(y), q, fname(w), norm(x))
			}
			if n := c.dimension(w, q, i); n >= 0 && norm(x).isK() && norm(x).k < n {
				r.find("extent", key+" part "+q, pos(a.in), "%s writes only %s of the %d elements of %s", fname(w), norm(x), n, q)
			}
		}
	}
	for _, q := range sortedKeys(rby) {
		if _, found := wby[q]; !found {
			r.find("fields", key+" not written "+q, pos(rby[q].in), "%s reads %s (%s), which %s does not write", fname(rd), q, describe(rby[q]), fname(w))
		}
	}
	// every field of the type
	if st, is := w.Params[0].Type().Underlying().(*types.Struct); is {
		for i := 0; i < st.NumFields(); i++ {
			fd := st.Field(i)
			if _, isMap := fd.Type().Underlying().(*types.Map); isMap {
				continue // the additional languages: documented
			}
			found := false
			for q := range wby {
				if q == "v."+fd.Name() || strings.HasPrefix(q, "v."+fd.Name()+".") || strings.HasPrefix(q, "v."+fd.Name()+"[") {
					found = true
				}
			}
			if !found {
				r.find("fields", key+" lost "+fd.Name(), p.pos(w.Pos()), "%s does not write the field %s: it is lost by the cache", fname(w), fd.Name())
			}
		}
	}
	// extent
	c.reset(rd)
	total = norm(total)
	for _, b := range rd.Blocks {
		ret, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !is || len(ret.Results) < 2 || !isNilConst(retVal(ret, len(ret.Results)-1)) {
			continue
		}
		v := retVal(ret, len(ret.Results)-2)
		if v == nil || !isInteger(v.Type()) {
			continue
		}
		n := norm(c.eval(f, v))
		if n == nil {
			continue
		}
		r.count("obligations", 1)
		if d := n.add(total, -1); d.isK() && d.k != 0 {
			if len(n.s) == 0 && len(total.s) == 0 || len(ret.Block().Preds) == 0 || d.isK() {
				r.find("extent", key+" size", pos(ret), "%s reports that it read %s bytes, but %s writes %s", fname(rd), n, fname(w), total)
			}
		} else if n.isK() != total.isK() && len(retsOf(rd)) == 1 {
			r.find("extent", key+" size", pos(ret), "%s reports that it read %s bytes, but %s writes %s", fname(rd), n, fname(w), total)
		}
	}
	// guards
	for _, b := range rd.Blocks {
		iff, is := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !is {
			continue
		}
		cmp, is := iff.Cond.(*ssa.BinOp)
		if !is {
			continue
		}
		for i, s := range b.Succs {
			if !c.givesError(s) {
				continue
			}
			op := cmp.Op
			if i == 1 {
				op = otherwise(op)
			}
			x, y := c.eval(f, cmp.X), c.eval(f, cmp.Y)
			if x == nil || y == nil {
				continue
			}
			if y.s["len(data)"] != 0 {
				x, y, op = y, x, mirror(op)
			}
			if x.s["len(data)"] != 1 || y.s["len(data)"] != 0 {
				continue
			}
			need := norm(y).add(norm(x.add(linSym("len(data)"), -1)), -1)
			switch op {
			case token.LSS:
			case token.LEQ:
				need = need.add(linK(1), 1)
			default:
				continue
			}
			r.count("obligations", 1)
			d := need.add(total, -1)
			if d.isK() && d.k > 0 {
				r.find("extent", key+" refused", pos(cmp), "%s requires %s bytes, but %s writes %s: the last value of a pattern is refused", fname(rd), need, fname(w), total)
			}
		}
	}
	r.sample("%s: %d fields in %s bytes, written by %s and read by %s", t, len(wby), total, fname(w), fname(rd))
	return true
}

func retsOf(fn *ssa.Function) []*ssa.Return {
	var out []*ssa.Return
	for _, b := range fn.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 0 && isNilConst(retVal(ret, len(ret.Results)-1)) {
			out = append(out, ret)
		}
	}
	return out
}

func otherwise(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return op
}

func what(it wireItem) string {
	if it.codec == "rounded" {
		return "the integer part of " + it.path
	}
	return it.codec + ", " + it.path
}

// codecFamily: numbers of any kind are the same bits.
func codecFamily(s string) string {
	if strings.Contains(s, " of the ") {
		return "number"
	}
	return s
}

func posOf(in ssa.Instruction) token.Pos {
	if q := in.Pos(); q.IsValid() {
		return q
	}
	for _, x := range in.Block().Instrs {
		if x.Pos().IsValid() {
			return x.Pos()
		}
	}
	return in.Parent().Pos()
}

// dimension is the number of elements of the i-th index of a path, when it is
// an array.
func (c *wire) dimension(w *ssa.Function, path string, i int) int64 {
	t := w.Params[0].Type()
	rest := strings.TrimPrefix(path, "v")
	n := 0
	for rest != "" {
		if q, ok := t.Underlying().(*types.Pointer); ok {
			t = q.Elem()
		}
		switch rest[0] {
		case '.':
			end := strings.IndexAny(rest[1:], ".[")
			name := rest[1:]
			if end >= 0 {
				name = rest[1 : 1+end]
			}
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				return -1
			}
			t = nil
			for j := 0; j < st.NumFields(); j++ {
				if st.Field(j).Name() == name {
					t = st.Field(j).Type()
				}
			}
			if t == nil {
				return -1
			}
			rest = rest[1+len(name):]
		case '[':
			end := strings.IndexByte(rest, ']')
			idx := rest[1:end]
			rest = rest[end+1:]
			a, isArr := t.Underlying().(*types.Array)
			if idx == fmt.Sprintf("$%d", i) {
				if isArr {
					return a.Len()
				}
				return -1
			}
			n++
			switch u := t.Underlying().(type) {
			case *types.Array:
				t = u.Elem()
			case *types.Slice:
				t = u.Elem()
			default:
				return -1
			}
		default:
			return -1
		}
	}
	return -1
}

// sequence compares types made of other values.
func (c *wire) sequence(t string, w, rd *ssa.Function, wlost bool, witems, writes []wireItem) bool {
	p, r := c.p, c.r
	var wt []wireTok
	for _, x := range writes {
		if x.path == "value" {
			wt = append(wt, wireTok{"value", x.depth, nil, x.in})
			continue
		}
		if x.size == nil || !x.size.isK() {
			wlost = true
			continue
		}
		// the last bytes put in the buffer before
		var its []wireItem
		for _, it := range witems {
			if it.buf != x.buf || !before(it.chain, x.chain) {
				continue
			}
			stale := false
			for _, y := range writes {
				if y.in != x.in && y.buf == x.buf && before(it.chain, y.chain) && before(y.chain, x.chain) {
					stale = true
				}
			}
			if !stale {
				its = append(its, it)
			}
		}
		sort.Slice(its, func(i, j int) bool { return its[i].off != nil && its[j].off != nil && its[i].off.k < its[j].off.k })
		n := int64(0)
		for _, it := range its {
			if it.off == nil || !it.off.isK() || it.off.k-x.off.k != n {
				wlost = true
				break
			}
			wt = append(wt, wireTok{fmt.Sprint(it.width), x.depth, nil, x.in})
			n += it.width
		}
		if n != x.size.k {
			if len(its) == 0 {
				r.find("sequence", t+" stale", p.pos(posOf(x.in)), "%s writes %s bytes which were not set since they were last written", fname(w), x.size)
			} else {
				wlost = true
			}
		}
	}
	c.counted(t, w, true, witems, writes, nil, nil)
	// what is read
	c.reset(rd)
	c.raw = true
	f := &wframe{fn: rd}
	var rt []wireTok
	seen := map[string]bool{}
	rlost := false
	add := func(tk wireTok) {
		k := fmt.Sprintf("%s %d %s", tk.what, tk.depth, tk.off)
		if tk.off != nil && seen[k] {
			return
		}
		seen[k] = true
		rt = append(rt, tk)
	}
	direct := false
	c.tokens(f, add, &rlost, &direct)
	values := false
	for _, tk := range append(append([]wireTok{}, wt...), rt...) {
		if tk.what == "value" {
			values = true
		}
	}
	if wlost || rlost || len(wt) == 0 || len(rt) == 0 || !values {
		r.sample("%s: sequence not decided (writer %v, reader %v, %v %v)", t, wlost, rlost, wt, rt)
		return false
	}
	r.count("obligations", len(wt)+len(rt))
	a, b := fmt.Sprint(wt), fmt.Sprint(rt)
	if a != b {
		at := rd.Pos()
		for i := range rt {
			if i >= len(wt) || wt[i].String() != rt[i].String() {
				at = posOf(rt[i].in)
				break
			}
		}
		r.find("sequence", t, p.pos(at), "%s reads %s (> for each element), but %s writes %s", fname(rd), b, fname(w), a)
		return true
	}
	if !direct {
		c.offsets(t, f, rt)
	}
	c.counted(t, rd, false, nil, nil, rt, f)
	c.header(t, w, rd, witems)
	c.stored(t, rd)
	r.sample("%s: %s, written by %s and read by %s", t, a, fname(w), fname(rd))
	return true
}

// tokens lists what a reader takes from its data, in order.
func (c *wire) tokens(f *wframe, add func(wireTok), lost, direct *bool) {
	if f.level() > 6 {
		*lost = true
		return
	}
	type tok struct {
		t  wireTok
		ch []ssa.Instruction
	}
	for _, b := range order(f.fn) {
		for _, in := range b.Instrs {
			d := c.depthOf(f, b)
			switch in := in.(type) {
			case *ssa.UnOp:
				if in.Op != token.MUL || !isByte(in.Type()) {
					continue
				}
				ia, ok := in.X.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				id, _, off := c.buffer(f, ia.X)
				if id == nil {
					continue
				}
				if _, ok := id.(*ssa.Parameter); !ok {
					continue
				}
				off = off.plus(c.eval(f, ia.Index))
				if off == nil {
					*lost = true
					continue
				}
				add(wireTok{"1", d, off, in})
			case *ssa.Call:
				name := calleeName(in)
				if wd, _, put, ok := codecOf(name); ok && !put && len(in.Call.Args) == 2 {
					id, _, off := c.buffer(f, in.Call.Args[1])
					if id == nil || off == nil {
						*lost = true
						continue
					}
					if _, ok := id.(*ssa.Parameter); ok {
						add(wireTok{fmt.Sprint(wd), d, off, in})
					}
					continue
				}
				if c.reader(in) != nil {
					id, _, off := c.dataOf(f, in)
					if id != nil {
						if _, ok := id.(*ssa.Parameter); ok {
							if off == nil {
								*lost = true
								continue
							}
							add(wireTok{"value", d, off, in})
							continue
						}
						add(wireTok{"value", d, nil, in})
						continue
					}
					*direct = true
					add(wireTok{"value", d, nil, in})
					continue
				}
				switch name {
				case "io.ReadFull":
					*direct = true
					n := c.length(f, in.Call.Args[1])
					if n == nil {
						*lost = true
					} else if n.isK() {
						add(wireTok{fmt.Sprint(n.k), d, nil, in})
					}
					continue
				case "io.CopyN", "io.LimitReader":
					*direct = true
					continue
				}
				touches := false
				for _, a := range in.Call.Args {
					if id, _, _ := c.buffer(f, a); id != nil {
						touches = true
					}
					if types.IsInterface(a.Type()) && hasMethod(a.Type(), "Read") {
						touches = true
					}
				}
				if _, ok := in.Call.Value.(*ssa.Builtin); ok || !touches {
					continue
				}
				if g := c.helper(in); g != nil {
					c.tokens(c.enter(f, in, g), add, lost, direct)
					continue
				}
				switch {
				case strings.HasSuffix(name, ".NewReader"), strings.HasPrefix(name, "fmt."), strings.HasPrefix(name, "errors."), strings.HasSuffix(name, ".Close"):
				default:
					*lost = true
				}
			case *ssa.Go, *ssa.MakeClosure:
				*lost = true
			}
		}
	}
}

// offsets checks that what is read next starts where the previous ended.
func (c *wire) offsets(t string, f *wframe, rt []wireTok) {
	p, r := c.p, c.r
	at := linK(0)
	width := func(tk wireTok) *lin {
		if tk.what == "value" {
			return linSym("size@" + tk.off.String())
		}
		var n int64
		fmt.Sscan(tk.what, &n)
		return linK(n)
	}
	depth := 0
	var phi *ssa.Phi
	for i, tk := range rt {
		if tk.off == nil || at == nil {
			return
		}
		if tk.depth > depth {
			// the running offset of the loop
			phi = nil
			for _, l := range c.enclosing(f.fn, tk.in.Block()) {
				for _, in := range l.header.Instrs {
					if q, ok := in.(*ssa.Phi); ok && tk.off.s["off:"+q.Name()] == 1 {
						phi = q
					}
				}
			}
			if phi == nil || tk.in.Parent() != f.fn {
				return
			}
			for j, e := range phi.Edges {
				if phi.Block().Dominates(phi.Block().Preds[j]) {
					continue
				}
				x := c.eval(f, e)
				if x == nil {
					return
				}
				r.count("obligations", 1)
				if d := x.add(at, -1); d.isK() && d.k != 0 {
					r.find("sequence", t+" start", p.pos(posOf(tk.in)), "%s reads its elements from the offset %s, but the data before them ends at %s", fname(f.fn), x, at)
					return
				}
			}
			at = linSym("off:" + phi.Name())
			depth = tk.depth
		} else if tk.depth < depth {
			return
		}
		r.count("obligations", 1)
		if d := tk.off.add(at, -1); d.isK() && d.k != 0 || !d.isK() && lacksSize(d) {
			r.find("sequence", fmt.Sprintf("%s token %d", t, i), p.pos(posOf(tk.in)), "%s reads %s at the offset %s, but what is before ends at %s", fname(f.fn), tk.what, tk.off, at)
			return
		}
		at = tk.off.plus(width(tk))
	}
	if phi != nil {
		for j, e := range phi.Edges {
			if !phi.Block().Dominates(phi.Block().Preds[j]) {
				continue
			}
			x := c.eval(f, e)
			if x == nil || at == nil {
				continue
			}
			r.count("obligations", 1)
			if d := x.add(at, -1); d.isK() && d.k != 0 || !d.isK() && lacksSize(d) {
				r.find("sequence", t+" next", p.pos(posOf(e.(ssa.Instruction))), "%s reads the next element at %s, but this one ends at %s", fname(f.fn), x, at)
				return
			}
		}
		at = linSym("off:" + phi.Name())
	}
	for _, ret := range retsIn(f.fn) {
		if len(ret.Results) < 2 {
			continue
		}
		v := retVal(ret, len(ret.Results)-2)
		if v == nil || !isInteger(v.Type()) {
			continue
		}
		if e := retVal(ret, len(ret.Results)-1); e != nil && (nonNilErr(e) || c.givesError(ret.Block())) {
			continue
		}
		x := c.eval(f, v)
		if x == nil || at == nil {
			continue
		}
		r.count("obligations", 1)
		if d := x.add(at, -1); d.isK() && d.k != 0 || !d.isK() && lacksSize(d) {
			r.find("sequence", t+" size", p.pos(posOf(ret)), "%s reports that it read %s bytes, but what it reads ends at %s", fname(f.fn), x, at)
		}
	}
}

// lacksSize: the difference is the size of a value, and constants.
func lacksSize(d *lin) bool {
	for s := range d.s {
		if !strings.HasPrefix(s, "size@") {
			return false
		}
	}
	return len(d.s) > 0
}

func retsIn(fn *ssa.Function) []*ssa.Return {
	var out []*ssa.Return
	for _, b := range fn.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			out = append(out, ret)
		}
	}
	return out
}

// emptiness: the condition tests a count or a length against zero; the
// branch taken when it is empty.
func emptiness(b *ssa.BasicBlock) (empty int, ok bool) {
	iff, is := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !is {
		return 0, false
	}
	cmp, is := iff.Cond.(*ssa.BinOp)
	if !is {
		return 0, false
	}
	if n, is := intOf(cmp.Y); is {
		switch {
		case cmp.Op == token.EQL && n == 0, cmp.Op == token.LSS && n == 1, cmp.Op == token.LEQ && n == 0:
			return 0, true
		case cmp.Op == token.NEQ && n == 0, cmp.Op == token.GTR && n == 0, cmp.Op == token.GEQ && n == 1:
			return 1, true
		}
	}
	return 0, false
}

// notSkipped: on every path without error, each part is written.
func (c *wire) notSkipped(t string, w *ssa.Function, writes []wireItem) {
	var blocks []*ssa.BasicBlock
	for _, x := range writes {
		blocks = append(blocks, x.chain[0].Block())
	}
	for i, x := range writes {
		b := blocks[i]
		if skip := c.skipped(w, []*ssa.BasicBlock{b}, func(pr *ssa.BasicBlock, s int) bool {
			// nothing to write after an empty count
			e, ok := emptiness(pr)
			if !ok || e != s {
				return false
			}
			for j := range writes {
				if blocks[j] != b && blocks[j].Dominates(pr) && len(c.enclosing(w, blocks[j])) == len(c.enclosing(w, b)) {
					return true
				}
			}
			return false
		}); skip != nil {
			c.r.find("sequence", fmt.Sprintf("%s skipped %d", t, i), c.p.pos(posOf(x.in)), "%s does not write this on the path through %s, which reports no error: the reader expects it", fname(w), c.p.pos(posOf(skip.Instrs[len(skip.Instrs)-1])))
		}
		c.r.count("obligations", 1)
	}
}

// skipped finds a path around the blocks, within an iteration of their loop or
// the whole function, which does not end with an error.
func (c *wire) skipped(fn *ssa.Function, avoid []*ssa.BasicBlock, exempt func(b *ssa.BasicBlock, s int) bool) *ssa.BasicBlock {
	bad := map[*ssa.BasicBlock]bool{}
	for _, b := range avoid {
		bad[b] = true
	}
	ls := c.enclosing(fn, avoid[0])
	live := c.p.liveBlocks(fn)
	var starts []*ssa.BasicBlock
	var l *loop
	if len(ls) > 0 {
		l = ls[len(ls)-1]
		if bad[l.header] {
			return nil
		}
		for _, s := range l.header.Succs {
			if l.body[s] {
				starts = append(starts, s)
			}
		}
		// a loop which may end without being done
		for b := range l.body {
			if b == l.header {
				continue
			}
			for _, s := range b.Succs {
				if live[s] && !l.body[s] && !c.givesError(s) && !c.endsWell(b, s) {
					return b
				}
			}
		}
	} else {
		starts = fn.Blocks[:1]
	}
	from := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	work := append([]*ssa.BasicBlock{}, starts...)
	for _, s := range starts {
		from[s] = s
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if bad[b] || c.givesError(b) {
			continue
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && l == nil {
			ret := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if len(ret.Results) > 0 && isErrorType(ret.Results[len(ret.Results)-1].Type()) {
				e := retVal(ret, len(ret.Results)-1)
				if e != nil && !isNilConst(e) {
					if in, ok := e.(ssa.Instruction); ok && in.Block() != b {
						continue // an error from elsewhere
					}
				}
			}
			return from[b]
		}
		for i, s := range b.Succs {
			if !live[s] || exempt(b, i) {
				continue
			}
			if l != nil {
				if s == l.header {
					return b
				}
				if !l.body[s] {
					continue
				}
			}
			if _, ok := from[s]; !ok {
				from[s] = b
				work = append(work, s)
			}
		}
	}
	return nil
}

// endsWell: leaving the loop there is a way to test that it is done.
func (c *wire) endsWell(b, s *ssa.BasicBlock) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	_, ok = iff.Cond.(*ssa.BinOp)
	return ok
}

// stored: what a reader of several values reads is kept.
func (c *wire) stored(t string, rd *ssa.Function) {
	groups := map[string][]*ssa.BasicBlock{}
	at := map[string]ssa.Instruction{}
	for _, b := range rd.Blocks {
		for _, in := range b.Instrs {
			k := ""
			switch in := in.(type) {
			case *ssa.MapUpdate:
				if _, ok := in.Map.(*ssa.MakeMap); ok {
					k = "entry"
				}
			case *ssa.Store:
				switch a := in.Addr.(type) {
				case *ssa.FieldAddr:
					if _, ok := a.X.(*ssa.Parameter); ok {
						k = "field " + fieldOf(a)
					}
				case *ssa.IndexAddr:
					if _, ok := a.X.(*ssa.MakeSlice); ok {
						k = "element"
					}
				}
			}
			if k != "" {
				groups[k] = append(groups[k], b)
				at[k] = in
			}
		}
	}
	for _, k := range sortedKeys(groups) {
		c.r.count("obligations", 1)
		if skip := c.skipped(rd, groups[k], func(b *ssa.BasicBlock, s int) bool {
			e, ok := emptiness(b)
			if !ok || e != s {
				return false
			}
			return len(c.enclosing(rd, b)) == 0
		}); skip != nil && !c.unknownCode(rd, skip) {
			c.r.find("sequence", t+" dropped "+k, c.p.pos(posOf(at[k])), "%s drops what it read (%s) on the path through %s", fname(rd), k, c.p.pos(posOf(skip.Instrs[len(skip.Instrs)-1])))
		}
	}
}

// unknownCode: the block compares a code, which is decided elsewhere.
func (c *wire) unknownCode(fn *ssa.Function, b *ssa.BasicBlock) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.EQL && cmp.Op != token.NEQ {
		return false
	}
	_, isK := intOf(cmp.Y)
	return isK && sizeOf(cmp.X.Type()) == 1
}

// codes compares the codes of the types of value.
func (c *wire) codes(saved, loaded map[*ssa.Function]bool) {
	p, r := c.p, c.r
	name := func(t types.Type) string {
		if q, ok := t.Underlying().(*types.Pointer); ok {
			t = q.Elem()
		}
		if n, ok := t.(*types.Named); ok && c.writers[n.Obj().Name()] != nil {
			return n.Obj().Name()
		}
		return ""
	}
	wrote := map[string]int64{}
	var wfn *ssa.Function
	for fn := range saved {
		m := map[string]int64{}
		for _, b := range fn.Blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			ex, ok := iff.Cond.(*ssa.Extract)
			if !ok || ex.Index != 1 {
				continue
			}
			ta, ok := ex.Tuple.(*ssa.TypeAssert)
			if !ok || name(ta.AssertedType) == "" {
				continue
			}
			pr, s := b, b.Succs[0]
			for i := 0; i < 4; i++ {
				if ret, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return); ok {
					if len(ret.Results) == 1 {
						v := ret.Results[0]
						if phi, ok := v.(*ssa.Phi); ok && phi.Block() == s {
							for j, q := range s.Preds {
								if q == pr {
									v = phi.Edges[j]
								}
							}
						}
						if n, ok := intOf(v); ok {
							m[name(ta.AssertedType)] = n
						}
					}
					break
				}
				if len(s.Succs) != 1 {
					break
				}
				pr, s = s, s.Succs[0]
			}
		}
		if len(m) >= 3 && len(m) > len(wrote) {
			wrote, wfn = m, fn
		}
	}
	if wfn == nil {
		return
	}
	for fn := range loaded {
		got := map[int64]string{}
		where := map[int64]ssa.Instruction{}
		var subject ssa.Value
		var last *ssa.BasicBlock
		lastSucc := 0
		for _, b := range order(fn) {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			cmp, ok := iff.Cond.(*ssa.BinOp)
			if !ok || cmp.Op != token.EQL && cmp.Op != token.NEQ || sizeOf(cmp.X.Type()) != 1 {
				continue
			}
			n, ok := intOf(cmp.Y)
			if !ok {
				continue
			}
			yes := 0
			if cmp.Op == token.NEQ {
				yes = 1
			}
			s := b.Succs[yes]
			tn := ""
			for _, in := range s.Instrs {
				if call, ok := in.(*ssa.Call); ok {
					if g := call.Call.StaticCallee(); g != nil && c.rset[g] != "" {
						tn = c.rset[g]
					}
				}
				if mi, ok := in.(*ssa.MakeInterface); ok {
					if q := name(mi.X.Type()); q != "" {
						if tn != "" && tn != q {
							r.find("codes", tn+" as "+q, p.pos(posOf(mi)), "%s reads a %s and keeps a %s", fname(fn), tn, q)
						}
						tn = q
					}
				}
			}
			if tn == "" {
				continue
			}
			if subject != nil && subject != cmp.X {
				continue
			}
			subject = cmp.X
			got[n] = tn
			where[n] = cmp
			last, lastSucc = b, 1-yes
		}
		if len(got) < 3 {
			continue
		}
		r.count("obligations", len(wrote)+1)
		for _, tn := range sortedKeys(wrote) {
			n := wrote[tn]
			if got[n] == "" {
				r.find("codes", tn, p.pos(fn.Pos()), "%s writes the code %d for a %s, which %s does not read", fname(wfn), n, tn, fname(fn))
			} else if got[n] != tn {
				r.find("codes", tn, p.pos(posOf(where[n])), "%s writes the code %d for a %s, but %s reads a %s", fname(wfn), n, tn, fname(fn), got[n])
			}
		}
		// every type of value has a code
		for _, b := range wfn.Blocks {
			for _, in := range b.Instrs {
				ta, ok := in.(*ssa.TypeAssert)
				if !ok || !types.IsInterface(ta.X.Type()) {
					continue
				}
				for _, tn := range c.valueTypes(ta.X.Type()) {
					if _, ok := wrote[tn]; !ok && c.rset[c.readers[tn]] != "" {
						r.find("codes", tn+" without", p.pos(wfn.Pos()), "%s has no code for a %s", fname(wfn), tn)
					}
				}
				goto other
			}
		}
	other:
		// the other codes
		pr, s := last, last.Succs[lastSucc]
		for i := 0; i < 6; i++ {
			if ret, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return); ok {
				v := ret.Results[len(ret.Results)-1]
				if phi, ok := v.(*ssa.Phi); ok && phi.Block() == s {
					for j, q := range s.Preds {
						if q == pr {
							v = phi.Edges[j]
						}
					}
				}
				if isNilConst(v) {
					r.find("codes", "unknown", p.pos(posOf(last.Instrs[len(last.Instrs)-1])), "%s accepts a code which is not the one of a type of value, and keeps no value at all", fname(fn))
				}
				break
			}
			if len(s.Succs) != 1 {
				break
			}
			pr, s = s, s.Succs[0]
		}
	}
}

func (c *wire) valueTypes(t types.Type) []string {
	it, ok := t.Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 {
		return nil
	}
	var out []string
	for tn, w := range c.writers {
		if w == nil || len(w.Params) == 0 {
			continue
		}
		if types.Implements(w.Params[0].Type(), it) {
			out = append(out, tn)
		}
	}
	sort.Strings(out)
	return out
}

// shortReads: io.Reader.Read may return less than the size of its buffer.
func (c *wire) shortReads(loaded map[*ssa.Function]bool) {
	for fn := range loaded {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				name := ""
				if call.Call.IsInvoke() {
					name = call.Call.Method.Name()
				} else if g := call.Call.StaticCallee(); g != nil && !inModule(g) && g.Signature.Recv() != nil {
					name = g.Name()
				}
				if name != "Read" || call.Call.Signature().Results().Len() != 2 {
					continue
				}
				c.r.count("obligations", 1)
				used := false
				for _, ref := range *call.Referrers() {
					if ex, ok := ref.(*ssa.Extract); ok && ex.Index == 0 && len(realRefs(ex)) > 0 {
						used = true
					}
				}
				if !used {
					c.r.find("sequence", "short read "+fname(fn), c.p.pos(posOf(call)), "%s ignores how many bytes Read returned: the rest of the data is read at the wrong place", fname(fn))
				}
			}
		}
	}
}

// limits: the sizes which are refused.
func (c *wire) limits(loaded map[*ssa.Function]bool) {
	c.reset(nil)
	for fn := range loaded {
		if fn.Pkg == nil {
			continue
		}
		for _, b := range fn.Blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			cmp, ok := iff.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			x, y, op := cmp.X, cmp.Y, cmp.Op
			if _, ok := intOf(x); ok {
				x, y, op = y, x, mirror(op)
			}
			k, ok := intOf(y)
			if !ok {
				continue
			}
			call, ok := plain(x).(*ssa.Call)
			if !ok {
				continue
			}
			w, _, put, ok := codecOf(calleeName(call))
			if !ok || put {
				continue
			}
			for i, s := range b.Succs {
				o := op
				if i == 1 {
					o = otherwise(op)
				}
				if !c.givesError(s) {
					continue
				}
				top := int64(1) << uint(8*min64(w, 4))
				switch o {
				case token.GTR:
					k++
				case token.GEQ:
				default:
					continue
				}
				c.r.count("obligations", 1)
				if k < top && k <= 1000000 && (w > 2 || k < 1<<15) {
					c.r.find("extent", "limit "+fname(fn), c.p.pos(posOf(cmp)), "%s refuses a count of %d, which is written without error", fname(fn), k)
				}
			}
		}
	}
}

func fieldLabel(fa *ssa.FieldAddr) string {
	return fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
}

// literalOf is the variable a composite literal is first built in.
func literalOf(al *ssa.Alloc) *ssa.Alloc {
	var from *ssa.Alloc
	for _, ref := range *al.Referrers() {
		st, ok := ref.(*ssa.Store)
		if !ok || st.Addr != al {
			continue
		}
		ld, ok := st.Val.(*ssa.UnOp)
		if !ok || from != nil {
			return al
		}
		lit, ok := ld.X.(*ssa.Alloc)
		if !ok {
			return al
		}
		from = lit
	}
	if from != nil {
		return from
	}
	return al
}

// counted: the count written is the number of elements, and the reader reads
// as many.
func (c *wire) counted(t string, fn *ssa.Function, writer bool, witems, writes []wireItem, rt []wireTok, f *wframe) {
	count := ""
	if writer {
		for _, it := range witems {
			if it.depth == 0 && strings.HasPrefix(it.path, "#") {
				count = it.path[1:]
			}
		}
		if count == "" {
			return
		}
		if count != "len(v)" && strings.HasPrefix(count, "len(v)") {
			c.r.find("extent", t+" count", c.p.pos(fn.Pos()), "%s writes %s as the number of its elements", fname(fn), count)
			return
		}
		for _, x := range writes {
			if x.depth != 1 || len(x.iters) == 0 || x.iters[0] == nil {
				continue
			}
			c.r.count("obligations", 1)
			n := x.iters[0]
			if d := n.add(linSym(count), -1); d.isK() && d.k != 0 {
				c.r.find("extent", t+" elements written", c.p.pos(posOf(x.in)), "%s announces %s elements, but writes %s", fname(fn), count, n)
				return
			}
		}
		return
	}
	for _, tk := range rt {
		if tk.depth != 1 || tk.in.Parent() != fn {
			continue
		}
		n := c.iterations(f, tk.in.Block())
		if len(n) == 0 || n[0] == nil || len(n[0].s) != 1 {
			continue
		}
		c.r.count("obligations", 1)
		for s, m := range n[0].s {
			if strings.HasPrefix(s, "@") && (m != 1 || n[0].k != 0) {
				c.r.find("extent", t+" elements read", c.p.pos(posOf(tk.in)), "%s reads %s elements: the count it read is %s", fname(fn), n[0], s)
				return
			}
		}
	}
}

// streams: the compressed data is complete, and nothing of an entry is left in
// the buffer of the next one.
func (c *wire) streams(saved, loaded map[*ssa.Function]bool) {
	p, r := c.p, c.r
	for fn := range saved {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				end := ""
				switch calleeName(call) {
				case "compress/gzip.NewWriter", "compress/gzip.NewWriterLevel", "compress/zlib.NewWriter", "compress/flate.NewWriter":
					end = "Close"
				case "bufio.NewWriter", "bufio.NewWriterSize":
					end = "Flush"
				default:
					continue
				}
				var z ssa.Value = call
				if _, ok := call.Type().(*types.Tuple); ok {
					z = nil
					for _, ref := range *call.Referrers() {
						if ex, ok := ref.(*ssa.Extract); ok && ex.Index == 0 {
							z = ex
						}
					}
				}
				if z == nil {
					continue
				}
				var ends []*ssa.BasicBlock
				known := true
				for _, ref := range realRefs(z) {
					switch ref := ref.(type) {
					case *ssa.Call:
						if strings.HasSuffix(calleeName(ref), "."+end) {
							ends = append(ends, ref.Block())
						} else if g := ref.Call.StaticCallee(); g == nil || inModule(g) {
							for _, a := range ref.Call.Args {
								if a == z {
									known = false
								}
							}
						}
					case *ssa.Defer:
						ends = append(ends, ref.Block())
					case *ssa.MakeInterface, *ssa.ChangeInterface:
					default:
						known = false
					}
				}
				r.count("obligations", 1)
				if !known {
					continue
				}
				if len(ends) == 0 {
					r.find("sequence", "end of "+fname(fn), p.pos(posOf(call)), "%s never calls %s: the end of the data is not written", fname(fn), end)
				} else if skip := c.skipped(fn, ends, func(*ssa.BasicBlock, int) bool { return false }); skip != nil && len(c.enclosing(fn, ends[0])) == 0 {
					r.find("sequence", "end of "+fname(fn), p.pos(posOf(call)), "%s does not call %s on the path through %s: the end of the data is not written", fname(fn), end, p.pos(posOf(skip.Instrs[len(skip.Instrs)-1])))
				}
			}
		}
	}
	for fn := range loaded {
		for _, b := range fn.Blocks {
			ls := c.enclosing(fn, b)
			for _, in := range b.Instrs {
				if up, ok := in.(*ssa.MapUpdate); ok && len(ls) > 0 {
					al, ok := up.Value.(*ssa.Alloc)
					if ok && !ls[len(ls)-1].body[al.Block()] {
						r.find("sequence", "shared "+fname(fn), p.pos(posOf(up)), "%s stores the same variable for each entry: all of them have the value of the last one", fname(fn))
					}
					r.count("obligations", 1)
				}
				call, ok := in.(*ssa.Call)
				if !ok || len(ls) == 0 || calleeName(call) != "io.CopyN" && calleeName(call) != "io.Copy" {
					continue
				}
				dst := call.Call.Args[0]
				if mi, ok := dst.(*ssa.MakeInterface); ok {
					dst = mi.X
				}
				al, ok := dst.(*ssa.Alloc)
				l := ls[len(ls)-1]
				if !ok || l.body[al.Block()] || typeName(al.Type().Underlying().(*types.Pointer).Elem()) != "bytes.Buffer" && !strings.HasSuffix(al.Type().String(), "bytes.Buffer") {
					continue
				}
				r.count("obligations", 1)
				whole, emptied := false, false
				for _, ref := range realRefs(al) {
					c2, ok := ref.(ssa.CallInstruction)
					if ok && l.body[ref.Block()] {
						switch n := calleeName(c2); n[strings.LastIndex(n, ".")+1:] {
						case "Bytes", "String", "Len":
							whole = true
						case "Write", "WriteString", "WriteByte", "Grow", "Cap":
						default:
							emptied = true
						}
						continue
					}
					if _, ok := ref.(*ssa.Store); ok && l.body[ref.Block()] {
						emptied = true
					}
					if _, ok := ref.(*ssa.MakeInterface); ok && l.body[ref.Block()] {
						for _, u := range realRefs(ref.(ssa.Value)) {
							if u != ssa.Instruction(call) {
								emptied = true
							}
						}
					}
				}
				if whole && !emptied {
					r.find("sequence", "buffer "+fname(fn), p.pos(posOf(call)), "%s adds each entry to a buffer which still has the previous ones, and reads it from its start", fname(fn))
				}
			}
		}
	}
}

// allKeys: a list of the keys of a pattern has all of them.
func (c *wire) allKeys(saved map[*ssa.Function]bool) {
	for fn := range saved {
		if len(fn.Params) == 0 || fn.Signature.Results().Len() != 1 {
			continue
		}
		m, ok := fn.Params[0].Type().Underlying().(*types.Map)
		if !ok {
			continue
		}
		s, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice)
		if !ok || !types.Identical(s.Elem(), m.Key()) {
			continue
		}
		for _, l := range c.p.loops(fn) {
			over := false
			var adds []*ssa.BasicBlock
			for b := range l.body {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Next:
						if rg, ok := in.Iter.(*ssa.Range); ok && rg.X == fn.Params[0] {
							over = true
						}
					case *ssa.Call:
						if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
							adds = append(adds, b)
						}
					case *ssa.Store:
						if ia, ok := in.Addr.(*ssa.IndexAddr); ok && types.Identical(in.Val.Type(), m.Key()) {
							if _, isAl := ia.X.(*ssa.Alloc); !isAl {
								adds = append(adds, b)
							}
						}
					}
				}
			}
			if !over || len(adds) == 0 {
				continue
			}
			c.r.count("obligations", 1)
			if skip := c.skipped(fn, adds, func(*ssa.BasicBlock, int) bool { return false }); skip != nil {
				c.r.find("sequence", "keys "+fname(fn), c.p.pos(posOf(skip.Instrs[len(skip.Instrs)-1])), "%s leaves out some of the keys of the pattern: their values are not written", fname(fn))
			}
		}
	}
}

// overlaps: the elements of a table do not overlap, and fit.
func (c *wire) overlaps(t string, w *ssa.Function, fields []wireItem, norm func(*lin) *lin, total *lin) {
	span := func(it wireItem, but string) (lo, hi int64, ok bool) {
		lo, hi = it.off.k, it.off.k+it.width
		for s, m := range it.off.s {
			if s == but {
				continue
			}
			var i int
			if _, err := fmt.Sscanf(s, "$%d", &i); err != nil || i >= len(it.iters) || it.iters[i] == nil || m < 0 {
				return 0, 0, false
			}
			n := norm(it.iters[i])
			if !n.isK() || n.k < 1 {
				return 0, 0, false
			}
			hi += m * (n.k - 1)
		}
		return lo, hi, it.width > 0
	}
	for _, sym := range []string{"$0", "$1"} {
		stride := int64(0)
		var lo, hi int64
		known, first := true, true
		var at wireItem
		for _, it := range fields {
			if it.off == nil || it.off.s[sym] == 0 {
				continue
			}
			l, h, ok := span(it, sym)
			if !ok || stride != 0 && stride != it.off.s[sym] {
				known = false
				break
			}
			stride = it.off.s[sym]
			if first || l < lo {
				lo = l
			}
			if first || h > hi {
				hi = h
			}
			first = false
			at = it
		}
		if !known || stride == 0 {
			continue
		}
		c.r.count("obligations", 1)
		if hi-lo > stride {
			c.r.find("extent", t+" overlap", c.p.pos(posOf(at.in)), "%s writes %d bytes for each element, every %d bytes: they overlap", fname(w), hi-lo, stride)
		}
	}
	for i, a := range fields {
		for _, b := range fields[:i] {
			if !a.off.isK() || !b.off.isK() || a.width == 0 || b.width == 0 || a.chain[0].Block() != b.chain[0].Block() {
				continue
			}
			if a.off.k < b.off.k+b.width && b.off.k < a.off.k+a.width {
				c.r.find("extent", t+" overlap", c.p.pos(posOf(a.in)), "%s writes %s over %s", fname(w), a.path, b.path)
			}
		}
	}
}

// header compares the fields written before a nested value.
func (c *wire) header(t string, w, rd *ssa.Function, witems []wireItem) {
	if rd.Signature.Recv() == nil {
		return
	}
	c.reset(rd)
	c.out = rd.Params[0]
	c.read(&wframe{fn: rd})
	for _, b := range c.items {
		if b.depth > 0 || !b.off.isK() || b.codec == "make" {
			continue
		}
		for _, a := range witems {
			if a.depth > 0 || !a.off.isK() || a.off.k != b.off.k || a.width != b.width {
				continue
			}
			c.r.count("obligations", 1)
			switch {
			case a.path == "const" || a.path != "" && a.path != b.path && strings.HasPrefix(a.path, "v"):
				c.r.find("fields", t+" "+b.path, c.p.pos(posOf(a.in)), "%s reads %s where %s writes %s", fname(rd), b.path, fname(w), map[bool]string{true: "a constant", false: a.path}[a.path == "const"])
			case a.path == b.path && a.big != b.big:
				c.r.find("fields", t+" "+b.path, c.p.pos(posOf(a.in)), "%s reads %s in another order of bytes than %s writes it", fname(rd), b.path, fname(w))
			}
		}
	}
}
