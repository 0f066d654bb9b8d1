package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C09", "Every file, decompressor and compressor the library opens is followed along all the paths of the function that opened it.", runC09)
}

// openers: calls giving something to close; the index of the resource in the results.
func opener(c *ssa.Call) (kind string, ok bool) {
	switch calleeName(c) {
	case "os.Open", "os.Create", "os.OpenFile", "os.CreateTemp":
		return "file", true
	case "compress/gzip.NewWriter", "compress/gzip.NewWriterLevel", "compress/zlib.NewWriter", "bufio.NewWriter":
		return "compressor", true
	}
	return "", false
}

// isCloseOf: in closes (or flushes) one of the values.
func isCloseOf(in ssa.Instruction, vals map[ssa.Value]bool, p *Program, depth int) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	cc := c.Common()
	if cc.IsInvoke() {
		return cc.Method.Name() == "Close" && vals[cc.Value]
	}
	f := cc.StaticCallee()
	if f == nil {
		return false
	}
	if n := f.Name(); len(cc.Args) > 0 && vals[cc.Args[0]] {
		if n == "Close" {
			return true
		}
		// flushing a compressor leaves its stream without an end
		if n == "Flush" && f.Pkg != nil && f.Pkg.Pkg.Path() == "bufio" {
			return true
		}
	}
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		// defer func() { f.Close() }()
		for i, b := range mc.Bindings {
			if !vals[b] {
				continue
			}
			fv := mc.Fn.(*ssa.Function).FreeVars[i]
			inner := map[ssa.Value]bool{fv: true}
			for _, r := range realRefs(fv) {
				if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
					inner[u] = true
				}
			}
			if depth < 3 && closesAll(mc.Fn.(*ssa.Function), inner, p, depth+1) {
				return true
			}
		}
	}
	if inModule(f) && depth < 3 {
		for i, a := range cc.Args {
			if vals[a] && i < len(f.Params) && closesAll(f, wrap(f.Params[i]), p, depth+1) {
				return true
			}
		}
	}
	return false
}

// wrap: v and what stands for it (interface conversions, local variables).
func wrap(v ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	work := []ssa.Value{v}
	for len(work) > 0 {
		v := work[0]
		work = work[1:]
		if out[v] {
			continue
		}
		out[v] = true
		for _, r := range realRefs(v) {
			switch r := r.(type) {
			case *ssa.MakeInterface:
				work = append(work, r)
			case *ssa.ChangeInterface:
				work = append(work, r)
			case *ssa.Phi:
				work = append(work, r)
			case *ssa.Store:
				if a, ok := r.Addr.(*ssa.Alloc); ok && r.Val == v {
					out[a] = true // captured by reference
					for _, r2 := range realRefs(a) {
						if u, ok := r2.(*ssa.UnOp); ok {
							work = append(work, u)
						}
					}
				}
			}
		}
	}
	return out
}

// closesAll: every path of fn closes one of the values.
func closesAll(fn *ssa.Function, vals map[ssa.Value]bool, p *Program, depth int) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	ok := true
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if isCloseOf(in, vals, p, depth) {
				return
			}
			if _, isRet := in.(*ssa.Return); isRet {
				ok = false
				return
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(fn.Blocks[0])
	return ok
}

func runC09(p *Program, r *Report) {
	r.rule("a file is closed (or its closing deferred, or it is handed over to the caller) on every path following a successful opening; a compressor on every path reporting success")
	r.rule("a file or compressor is not used after being closed")
	r.rule("no closing is deferred inside a loop")
	n := 0
	for _, fn := range p.Funcs {
		p.eachInstr(fn, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			kind, ok := opener(c)
			if !ok {
				return
			}
			if strings.Contains(fname(fn), "main.") {
				return
			}
			n++
			res := ssa.Value(c)
			var errv ssa.Value
			for _, ref := range realRefs(c) {
				if ex, ok := ref.(*ssa.Extract); ok {
					if ex.Index == 0 {
						res = ex
					} else {
						errv = ex
					}
				}
			}
			checkClosed(p, r, fn, c, kind, res, errv)
		})
	}
	r.count("opened resources", n)
	r.need("opened resources", n, 5)
}

func checkClosed(p *Program, r *Report, fn *ssa.Function, c *ssa.Call, kind string, res, errv ssa.Value) {
	vals := wrap(res)
	errs := map[ssa.Value]bool{}
	if errv != nil {
		errs = flows(errv)
	}
	key := fname(topFunc(fn)) + "/" + calleeName(c)
	live := p.liveBlocks(fn)
	ei := errIndex(fn.Signature)
	// escapes: returned or stored in something else than a local variable
	for v := range vals {
		for _, ref := range realRefs(v) {
			switch ref := ref.(type) {
			case *ssa.Return:
				return
			case *ssa.Store:
				if ref.Val == v {
					if _, ok := ref.Addr.(*ssa.Alloc); !ok {
						return
					}
				}
			}
		}
	}
	type state struct {
		b      *ssa.BasicBlock
		closed bool
	}
	seen := map[state]bool{}
	reported := map[string]bool{}
	report := func(rule string, pos token.Pos, format string, args ...interface{}) {
		if !reported[rule] {
			reported[rule] = true
			r.find(rule, key, p.pos(pos), format, args...)
		}
	}
	var walk func(b *ssa.BasicBlock, from int, closed, deferred bool)
	walk = func(b *ssa.BasicBlock, from int, closed, deferred bool) {
		for i := from; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if in == ssa.Instruction(c) && from == 0 {
				if !closed {
					report("not-closed", c.Pos(), "%s opens another %s before closing this one", fname(fn), kind)
				}
				return
			}
			if d, ok := in.(*ssa.Defer); ok && isCloseOf(in, vals, p, 0) {
				if inCycle(d.Block()) {
					report("deferred-in-loop", d.Pos(), "%s defers closing a %s inside a loop: they all stay open until it ends", fname(fn), kind)
				}
				closed, deferred = true, true
				continue
			}
			if isCloseOf(in, vals, p, 0) {
				closed = true
				continue
			}
			if closed && !deferred {
				if _, ok := in.(ssa.CallInstruction); ok {
					for _, op := range in.Operands(nil) {
						if vals[*op] {
							if _, ok := (*op).(*ssa.Alloc); !ok {
								report("used-after-close", in.Pos(), "%s uses a %s after closing it", fname(fn), kind)
							}
						}
					}
				}
			}
			if ret, ok := in.(*ssa.Return); ok {
				r.count("paths to an end", 1)
				if closed {
					return
				}
				if kind == "compressor" && ei >= 0 {
					v := retVal(ret, ei)
					if k, ok := v.(*ssa.Const); ok {
						if k.Value != nil {
							return
						}
					} else if call, ok := v.(*ssa.Call); !ok || !vals[recvOf(call)] {
						return // a failure, or what a helper answers
					}
				}
				report("not-closed", c.Pos(), "%s opens a %s which is still open when it returns at %s", fname(fn), kind, p.pos(in.Pos()))
				return
			}
		}
		for si, s := range b.Succs {
			if !live[s] {
				continue
			}
			// the failure branch of the opening itself
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if bo, ok := iff.Cond.(*ssa.BinOp); ok && errv != nil {
					if bo.X == errv || bo.Y == errv || (errs[bo.X] && samePhiless(bo.X, errv)) {
						fail := 0
						if bo.Op == token.EQL {
							fail = 1
						}
						if si == fail {
							continue
						}
					}
				}
			}
			st := state{s, closed}
			if seen[st] {
				continue
			}
			seen[st] = true
			walk(s, 0, closed, deferred)
		}
	}
	for i, in := range c.Block().Instrs {
		if in == ssa.Instruction(c) {
			walk(c.Block(), i+1, false, false)
		}
	}
}

// samePhiless: v is errv itself seen through a local variable.
func samePhiless(v, errv ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	a, ok := u.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	var last ssa.Value
	for _, in := range u.Block().Instrs {
		if in == ssa.Instruction(u) {
			break
		}
		if st, ok := in.(*ssa.Store); ok && st.Addr == a {
			last = st.Val
		}
	}
	return last == errv
}

// recvOf: the receiver of a method call.
func recvOf(c *ssa.Call) ssa.Value {
	if c.Call.IsInvoke() {
		return c.Call.Value
	}
	if f := c.Call.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(c.Call.Args) > 0 {
		return c.Call.Args[0]
	}
	return nil
}
