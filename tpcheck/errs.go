package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C08", "Every call of the library that can fail is followed from its error result to what the enclosing function does with it.", runC08)
}

var errorType = types.Universe.Lookup("error").Type()

func isError(t types.Type) bool { return types.Identical(t, errorType) }

// errIndex is the position of the error result, or -1.
func errIndex(sig *types.Signature) int {
	n := sig.Results().Len()
	if n > 0 && isError(sig.Results().At(n-1).Type()) {
		return n - 1
	}
	return -1
}

func calleeName(c ssa.CallInstruction) string {
	cc := c.Common()
	if cc.IsInvoke() {
		return typeName(cc.Value.Type()) + "." + cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		if inModule(f) {
			return fname(f)
		}
		if o, ok := f.Object().(*types.Func); ok {
			return o.FullName()
		}
		return f.String()
	}
	return "func value"
}

// writers that never fail, or whose failure is reported elsewhere.
func cannotFail(name string) bool {
	for _, s := range []string{"(*strings.Builder).", "(*bytes.Buffer).", "strings.Builder.", "bytes.Buffer.", "hash.Hash.", "hash.Hash32.", "(*bytes.Reader).", "bytes.Reader."} {
		if strings.HasPrefix(name, s) {
			return true
		}
	}
	return false
}

// inMemoryWriter: the first argument is a buffer.
func inMemoryWriter(c ssa.CallInstruction) bool {
	for _, a := range c.Common().Args {
		if mi, ok := a.(*ssa.MakeInterface); ok {
			s := mi.X.Type().String()
			if s == "*strings.Builder" || s == "*bytes.Buffer" {
				return true
			}
		}
		return false
	}
	return false
}

// errTolerated: calls whose failure is an answer, not a failure of the operation.
var errTolerated = map[string]string{
	"os.Executable":                               "the program name is only used by the prgname rules: an unknown name is empty",
	"fonts.Face.LoadSummary":                      "no face of the pinned dependency fails here",
	"(*golang.org/x/text/encoding.Decoder).Bytes": "the decoders used replace what they cannot decode",
	"os.Stat": "probes the existence of a directory",
}

// realRefs are the uses of v other than debug information.
func realRefs(v ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	if v.Referrers() == nil {
		return nil
	}
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok {
			out = append(out, r)
		}
	}
	return out
}

func runC08(p *Program, r *Report) {
	r.rule("the error result of every call is read (in-memory writers excepted)")
	r.rule("where a function that reports errors knows that a call it made failed, it does not report success; elsewhere the failure must be one of the frozen tolerated ones")
	r.rule("a call which may read less than it is asked for is not trusted to have read everything")
	reach := p.apiReachable()
	for _, fn := range p.Funcs {
		if !reach[fn] {
			continue
		}
		for _, prm := range fn.Params {
			if isError(prm.Type()) {
				r.count("error parameters", 1)
				if len(realRefs(prm)) == 0 {
					r.find("dropped", fname(topFunc(fn))+"/parameter", p.pos(fn.Pos()), "%s ignores the error it is given", fname(fn))
				} else {
					checkHandled(p, r, fn, nil, prm, fname(topFunc(fn))+"/parameter")
				}
			}
		}
		p.eachInstr(fn, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			sig := c.Common().Signature()
			ei := errIndex(sig)
			if ei < 0 {
				return
			}
			name := calleeName(c)
			if cannotFail(name) {
				return
			}
			if strings.HasPrefix(name, "fmt.Fprint") && inMemoryWriter(c) || strings.HasPrefix(name, "fmt.Print") {
				return
			}
			if strings.HasPrefix(name, "fmt.Errorf") || strings.HasPrefix(name, "errors.New") {
				return
			}
			r.count("calls that can fail", 1)
			if errTolerated[name] != "" {
				r.count("tolerated failures", 1)
				return
			}
			key := fname(topFunc(fn)) + "/" + name
			if _, ok := in.(*ssa.Defer); ok {
				if strings.HasSuffix(name, ".Close") && (!closesWriter(c) || closedElsewhere(c)) {
					return
				}
				r.find("dropped", key, p.pos(in.Pos()), "%s defers %s and drops its error", fname(fn), name)
				return
			}
			v, ok := in.(ssa.Value)
			if !ok {
				r.find("dropped", key, p.pos(in.Pos()), "%s drops the error of %s", fname(fn), name)
				return
			}
			var ev ssa.Value
			if sig.Results().Len() == 1 {
				ev = v
			} else {
				for _, ref := range realRefs(v) {
					switch ref := ref.(type) {
					case *ssa.Extract:
						if ref.Index == ei {
							ev = ref
						}
					case *ssa.Return:
						ev = v // the whole tuple is returned
					}
				}
			}
			if ev == nil || len(realRefs(ev)) == 0 {
				if strings.HasSuffix(name, ".Close") && (!closesWriter(c) || alreadyFailed(fn, in.Block())) {
					return
				}
				r.find("dropped", key, p.pos(in.Pos()), "%s drops the error of %s", fname(fn), name)
				return
			}
			checkHandled(p, r, fn, c, ev, key)
			if call, ok := in.(*ssa.Call); ok && isRead(call) {
				used := false
				for _, ref := range realRefs(call) {
					ex, ok := ref.(*ssa.Extract)
					used = used || !ok || ex.Index == 0 && len(realRefs(ex)) > 0
				}
				if !used {
					r.find("short-read", key, p.pos(in.Pos()), "%s ignores how many bytes %s gave: missing data is not noticed", fname(fn), name)
				}
			}
		})
	}
	r.need("calls that can fail", r.Counts["calls that can fail"], 80)
}

// isRead: a call of the method of io.Reader, outside of the module.
func isRead(c *ssa.Call) bool {
	sig := c.Call.Signature()
	if sig.Params().Len() != 1 || sig.Results().Len() != 2 || !isInteger(sig.Results().At(0).Type()) {
		return false
	}
	if c.Call.IsInvoke() {
		return c.Call.Method.Name() == "Read"
	}
	f := c.Call.StaticCallee()
	return f != nil && !inModule(f) && sig.Recv() != nil && f.Name() == "Read"
}

// closesWriter reports whether c closes something that was written: a compressor, or a file that was created.
func closesWriter(c ssa.CallInstruction) bool {
	cc := c.Common()
	if cc.IsInvoke() || len(cc.Args) == 0 {
		return false
	}
	if strings.Contains(cc.Args[0].Type().String(), "Writer") {
		return true
	}
	if ex, ok := cc.Args[0].(*ssa.Extract); ok {
		if call, ok := ex.Tuple.(*ssa.Call); ok {
			n := calleeName(call)
			return n == "os.Create" || n == "os.OpenFile" || n == "os.CreateTemp"
		}
	}
	return false
}

// closedElsewhere: the receiver of the deferred c is also closed by a call whose error is looked at.
func closedElsewhere(c ssa.CallInstruction) bool {
	args := c.Common().Args
	if len(args) == 0 {
		return false
	}
	for _, ref := range realRefs(args[0]) {
		if o, ok := ref.(*ssa.Call); ok && calleeName(o) == calleeName(c) && len(o.Call.Args) > 0 && o.Call.Args[0] == args[0] && len(realRefs(o)) > 0 {
			return true
		}
	}
	return false
}

// alreadyFailed: b only runs once another failure is known, which fn reports.
func alreadyFailed(fn *ssa.Function, b *ssa.BasicBlock) bool {
	if errIndex(fn.Signature) < 0 {
		return false
	}
	for _, f := range blockFacts(b) {
		if f.eq || !isError(f.x.Type()) {
			continue
		}
		if k, ok := f.y.(*ssa.Const); ok && k.Value == nil {
			return true
		}
	}
	return false
}

func topFunc(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

// flows lists the values the error reaches unchanged: phis, interface changes, local variables.
func flows(ev ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	work := []ssa.Value{ev}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if out[v] {
			continue
		}
		out[v] = true
		for _, ref := range realRefs(v) {
			switch ref := ref.(type) {
			case *ssa.Phi:
				work = append(work, ref)
			case *ssa.ChangeInterface:
				work = append(work, ref)
			case *ssa.MakeInterface:
				work = append(work, ref)
			case *ssa.Store:
				if a, ok := ref.Addr.(*ssa.Alloc); ok && ref.Val == v {
					for _, r2 := range realRefs(a) {
						if u, ok := r2.(*ssa.UnOp); ok && u.Op == token.MUL {
							work = append(work, u)
						}
					}
				}
			}
		}
	}
	return out
}

// What is known of an error (or of a condition) along a path.
type nilness int

const (
	unknownErr nilness = iota
	isNilErr           // nil, or a false condition
	isSetErr           // not nil, or a true condition
)

// errState is the knowledge at one point of a path: of the phis, of the errors tested, of the local variables.
type errState map[ssa.Value]nilness

func (s errState) with(v ssa.Value, n nilness) errState {
	out := make(errState, len(s)+1)
	for k, x := range s {
		out[k] = x
	}
	if n == unknownErr {
		delete(out, v)
	} else {
		out[v] = n
	}
	return out
}

func (s errState) key() string {
	var ks []string
	for v, n := range s {
		ks = append(ks, v.Name()+string(rune('0'+int(n))))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

// eval is what s knows of v.
func (s errState) eval(v ssa.Value) nilness {
	if n, ok := s[v]; ok {
		return n
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return isNilErr
		}
		if v.Value.Kind() == constant.Bool {
			if constant.BoolVal(v.Value) {
				return isSetErr
			}
			return isNilErr
		}
	case *ssa.ChangeInterface:
		return s.eval(v.X)
	case *ssa.UnOp:
		if v.Op == token.NOT {
			switch s.eval(v.X) {
			case isNilErr:
				return isSetErr
			case isSetErr:
				return isNilErr
			}
		}
	case *ssa.BinOp:
		if v.Op != token.EQL && v.Op != token.NEQ {
			return unknownErr
		}
		x := v.X
		if isNilConst(x) {
			x = v.Y
		} else if !isNilConst(v.Y) {
			return unknownErr
		}
		n := s.eval(x)
		if n == unknownErr {
			return n
		}
		if (n == isNilErr) == (v.Op == token.EQL) {
			return isSetErr
		}
		return isNilErr
	default:
		if nonNilErr(v) {
			return isSetErr
		}
	}
	return unknownErr
}

// assume adds to s that cond holds (or not).
func (s errState) assume(cond ssa.Value, holds bool) errState {
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, holds = u.X, !holds
	}
	n := isNilErr
	if holds {
		n = isSetErr
	}
	if _, ok := cond.(*ssa.Const); !ok {
		s = s.with(cond, n)
	}
	b, ok := cond.(*ssa.BinOp)
	if !ok || (b.Op != token.EQL && b.Op != token.NEQ) || !isError(b.X.Type()) {
		return s
	}
	x := b.X
	if isNilConst(x) {
		x = b.Y
	} else if !isNilConst(b.Y) {
		return s
	}
	if holds == (b.Op == token.EQL) {
		return s.with(x, isNilErr)
	}
	return s.with(x, isSetErr)
}

// endOfInput: calls that give io.EOF where the input simply ends.
func endOfInput(c ssa.CallInstruction) bool {
	if c == nil {
		return false
	}
	n := calleeName(c)
	n = n[strings.LastIndexByte(n, '.')+1:]
	switch n {
	case "Token", "RawToken", "Next", "Read", "ReadRune", "ReadByte", "ReadBytes", "ReadString", "ReadLine", "Decode":
		return true
	}
	return false
}

// excused: cond, on this edge, says that the error is an answer rather than a failure.
func excused(c ssa.CallInstruction, fl map[ssa.Value]bool, cond ssa.Value, holds bool) bool {
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, holds = u.X, !holds
	}
	switch cond := cond.(type) {
	case *ssa.BinOp:
		if cond.Op != token.EQL && cond.Op != token.NEQ {
			return false
		}
		x, y := cond.X, cond.Y
		if fl[y] {
			x, y = y, x
		}
		u, ok := y.(*ssa.UnOp)
		if !ok || !fl[x] {
			return false
		}
		g, ok := u.X.(*ssa.Global)
		if !ok || holds != (cond.Op == token.EQL) {
			return false
		}
		if g.Pkg != nil && g.Pkg.Pkg.Path() == "io" {
			return g.Name() == "EOF" && endOfInput(c)
		}
		return true
	case *ssa.Call:
		// errors.Is, errors.As, os.IsNotExist
		if !holds {
			return false
		}
		for i, a := range cond.Call.Args {
			if !fl[a] {
				continue
			}
			if calleeName(cond) == "errors.Is" && i == 0 && len(cond.Call.Args) == 2 {
				if u, ok := cond.Call.Args[1].(*ssa.UnOp); ok {
					if g, ok := u.X.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "io" {
						return g.Name() == "EOF" && endOfInput(c)
					}
				}
			}
			return true
		}
	case *ssa.Extract:
		// a type assertion on the error
		if ta, ok := cond.Tuple.(*ssa.TypeAssert); ok {
			return holds && fl[ta.X]
		}
	}
	return false
}

// unrelated: the error v of another call, made whether or not the failure is known.
func unrelated(v ssa.Value, fl map[ssa.Value]bool, inRegion func(*ssa.BasicBlock) bool) bool {
	if fl[v] {
		return false
	}
	if ex, ok := v.(*ssa.Extract); ok {
		v = ex.Tuple
	}
	c, ok := v.(*ssa.Call)
	if !ok || inRegion(c.Block()) {
		return false
	}
	for _, a := range c.Call.Args {
		if isError(a.Type()) {
			return false
		}
		if _, ok := a.(*ssa.Slice); ok {
			return false // variadic: may hold the error
		}
		if _, ok := a.(*ssa.MakeClosure); ok {
			return false
		}
	}
	return !c.Call.IsInvoke() && c.Call.StaticCallee() != nil
}

// checkHandled follows the paths on which the call failed to the returns of fn: none may report success,
// unless something else was tried instead and succeeded.
func checkHandled(p *Program, r *Report, fn *ssa.Function, c ssa.CallInstruction, ev ssa.Value, key string) {
	ei := errIndex(fn.Signature)
	if ei < 0 || len(fn.Blocks) == 0 {
		return
	}
	r.count("failures followed to the returns", 1)
	live := p.liveBlocks(fn)
	fl := flows(ev)
	start, at := fn.Blocks[0], -1
	if c != nil {
		start = c.Block()
		for i, in := range start.Instrs {
			if in == c.(ssa.Instruction) || ssa.Value(nil) != ev && in == ev.(ssa.Instruction) {
				at = i
			}
		}
	}
	// the blocks only reached once the failure is known
	var fails []*ssa.BasicBlock
	for v := range fl {
		for _, ref := range realRefs(v) {
			b, ok := ref.(*ssa.BinOp)
			if !ok || (b.Op != token.NEQ && b.Op != token.EQL) || !(isNilConst(b.X) || isNilConst(b.Y)) {
				continue
			}
			for _, u := range realRefs(b) {
				if iff, ok := u.(*ssa.If); ok {
					f := iff.Block().Succs[0]
					if b.Op == token.EQL {
						f = iff.Block().Succs[1]
					}
					if len(f.Preds) == 1 {
						fails = append(fails, f)
					}
				}
			}
		}
	}
	inRegion := func(b *ssa.BasicBlock) bool {
		for _, f := range fails {
			if f.Dominates(b) {
				return true
			}
		}
		return false
	}
	// some path where the failure is known reports it
	failureReturned := false
	for _, b := range fn.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && inRegion(b) && !isNilConst(retVal(ret, ei)) {
			failureReturned = true
		}
	}
	type node struct {
		b    *ssa.BasicBlock
		from int // the first instruction
		s    errState
		left bool // the region where the failure is known was left
	}
	seen := map[string]bool{}
	work := []node{{start, at + 1, errState{ev: isSetErr}, false}}
	steps := 0
	for len(work) > 0 {
		nd := work[len(work)-1]
		work = work[:len(work)-1]
		if steps++; steps > 20000 {
			r.count("failures not followed to the end", 1)
			return
		}
		s, b := nd.s, nd.b
		lost := false
		for _, in := range b.Instrs[nd.from:] {
			if v, ok := in.(ssa.Value); ok && s[v] != unknownErr {
				if _, isPhi := in.(*ssa.Phi); !isPhi {
					s = s.with(v, unknownErr) // executed again: a new failure, or a success
				}
			}
			switch in := in.(type) {
			case *ssa.Store:
				if a, ok := in.Addr.(*ssa.Alloc); ok {
					if isError(in.Val.Type()) {
						s = s.with(a, s.eval(in.Val))
					}
				} else if fl[in.Val] && s.eval(in.Val) == isSetErr {
					lost = true // kept elsewhere: a field, an element, a captured variable
				}
			case *ssa.UnOp:
				if a, ok := in.X.(*ssa.Alloc); ok && in.Op == token.MUL && isError(in.Type()) {
					s = s.with(in, s[a])
				}
			case *ssa.Send, *ssa.MapUpdate:
				for _, op := range in.Operands(nil) {
					if *op != nil && fl[*op] && s.eval(*op) == isSetErr {
						lost = true
					}
				}
			}
		}
		if lost {
			continue
		}
		push := func(next *ssa.BasicBlock, edge int, s errState) {
			if !live[next] {
				return
			}
			// the other attempt succeeded
			for v, n := range s {
				if fl[v] || n == unknownErr || isError(v.Type()) != (n == isNilErr) {
					continue
				}
				var cb *ssa.BasicBlock
				switch v := v.(type) {
				case *ssa.Call:
					cb = v.Block()
				case *ssa.Extract:
					if call, ok := v.Tuple.(*ssa.Call); ok && (isError(v.Type()) || failureReturned) {
						cb = call.Block()
					}
				}
				if cb != nil && inRegion(cb) {
					return
				}
			}
			out := s
			for _, in := range next.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					if _, dbg := in.(*ssa.DebugRef); dbg {
						continue
					}
					break
				}
				if isError(ph.Type()) || isBoolean(ph.Type()) {
					out = out.with(ph, s.eval(ph.Edges[edge]))
				}
			}
			k := next.String() + "|" + out.key()
			if seen[k] {
				return
			}
			seen[k] = true
			work = append(work, node{next, 0, out, nd.left || (inRegion(b) && !inRegion(next))})
		}
		predIndex := func(from, to *ssa.BasicBlock, nth int) int {
			for i, pr := range to.Preds {
				if pr == from {
					if nth == 0 {
						return i
					}
					nth--
				}
			}
			return 0
		}
		switch last := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			if v := retVal(last, ei); s.eval(v) == isNilErr || s.eval(v) == unknownErr && unrelated(v, fl, inRegion) {
				if nd.left || !inRegion(b) {
					r.find("swallowed", key, p.pos(last.Pos()), "%s goes on as if %s had not failed: it can still report success", fname(fn), failing(c))
				} else {
					r.find("success-reported", key, p.pos(last.Pos()), "%s reports success although %s failed", fname(fn), failing(c))
				}
				return
			}
		case *ssa.Panic:
		case *ssa.If:
			cond := s.eval(last.Cond)
			for i, next := range b.Succs {
				holds := i == 0
				if cond == isSetErr && !holds || cond == isNilErr && holds {
					continue
				}
				if excused(c, fl, last.Cond, holds) {
					continue
				}
				nth := 0
				if i == 1 && b.Succs[0] == b.Succs[1] {
					nth = 1
				}
				push(next, predIndex(b, next, nth), s.assume(last.Cond, holds))
			}
		default:
			for _, next := range b.Succs {
				push(next, predIndex(b, next, 0), s)
			}
		}
	}
}

func nonNilErr(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Call:
		n := calleeName(v)
		return n == "fmt.Errorf" || n == "errors.New"
	case *ssa.MakeInterface:
		return true
	}
	return false
}

func failing(c ssa.CallInstruction) string {
	if c == nil {
		return "the walk"
	}
	return calleeName(c)
}

// retVal is the value of result i of a return; functions with deferred calls go through a local variable.
func retVal(ret *ssa.Return, i int) ssa.Value {
	v := ret.Results[i]
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return v
	}
	a, ok := u.X.(*ssa.Alloc)
	if !ok || u.Block() != ret.Block() {
		return v
	}
	for j := len(ret.Block().Instrs) - 1; j >= 0; j-- {
		if st, ok := ret.Block().Instrs[j].(*ssa.Store); ok && st.Addr == a {
			return st.Val
		}
	}
	return v
}

func isBoolean(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}
