package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/benoitkugler/textprocessing"

// Program is the loaded, type-checked and SSA-built repository with its dependencies.
type Program struct {
	RepoDir   string
	Fset      *token.FileSet
	All       map[string]*packages.Package
	Repo      []*packages.Package // library packages of the module (no commands, no generators)
	Mains     []*packages.Package
	SSA       *ssa.Program
	Funcs     []*ssa.Function // every source function of Repo, closures included
	fnDecl    map[*types.Func]*ast.FuncDecl
	live      map[*ssa.Function]map[*ssa.BasicBlock]bool
	callers   map[*ssa.Function][]ssa.CallInstruction
	addrTaken []*ssa.Function
	impls     map[*types.Func][]*ssa.Function
	pkgOf     map[*types.Package]*packages.Package
	mods      *modAnalysis
	addrTk    map[*ssa.Function]bool
	reachC    map[*ssa.Function]bool
	tabs      *tables
}

func load(dir string) (*Program, error) {
	p := &Program{RepoDir: dir, All: map[string]*packages.Package{}, fnDecl: map[*types.Func]*ast.FuncDecl{},
		live: map[*ssa.Function]map[*ssa.BasicBlock]bool{}, pkgOf: map[*types.Package]*packages.Package{}}
	p.Fset = token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: dir, Fset: p.Fset, Tests: false,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOWORK=off", "GOOS=linux", "GOARCH=amd64"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		p.All[pk.PkgPath] = pk
		if pk.Types != nil {
			p.pkgOf[pk.Types] = pk
		}
		if strings.HasPrefix(pk.PkgPath, modPath) {
			for _, e := range pk.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	for _, pk := range pkgs {
		if pk.Name == "main" {
			p.Mains = append(p.Mains, pk)
			continue
		}
		p.Repo = append(p.Repo, pk)
	}
	sort.Slice(p.Repo, func(i, j int) bool { return p.Repo[i].PkgPath < p.Repo[j].PkgPath })
	for _, pk := range p.Repo {
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					if o, ok := pk.TypesInfo.Defs[fd.Name].(*types.Func); ok {
						p.fnDecl[o] = fd
					}
				}
			}
		}
	}
	inRepo := map[*ssa.Package]bool{}
	for _, pk := range p.Repo {
		inRepo[prog.Package(pk.Types)] = true
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg != nil && inRepo[fn.Pkg] && fn.Blocks != nil && (fn.Synthetic == "" || fn.Name() == "init") {
			p.Funcs = append(p.Funcs, fn)
		} else if fn.Origin() != nil && fn.Origin().Pkg != nil && inRepo[fn.Origin().Pkg] && fn.Blocks != nil {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	return p, nil
}

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "-"
	}
	po := p.Fset.Position(ps)
	rel, err := filepath.Rel(p.RepoDir, po.Filename)
	if err != nil {
		rel = po.Filename
	}
	return fmt.Sprintf("%s:%d", rel, po.Line)
}

// fname is a short stable name: pkg.(*T).m or pkg.f$1
func fname(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

func (p *Program) pkg(short string) *packages.Package {
	for _, pk := range p.Repo {
		if pk.PkgPath == modPath+"/"+short {
			return pk
		}
	}
	panic("package " + short + " not found")
}

func (p *Program) ssaPkg(short string) *ssa.Package { return p.SSA.Package(p.pkg(short).Types) }

func inModule(fn *ssa.Function) bool {
	pk := fn.Pkg
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Pkg
	}
	if pk == nil {
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), modPath)
		}
		return false
	}
	return strings.HasPrefix(pk.Pkg.Path(), modPath)
}

// liveBlocks is the set of blocks reachable when branches on constants are folded,
// so that `if debugMode { ... }` with a false constant is dead.
func (p *Program) liveBlocks(fn *ssa.Function) map[*ssa.BasicBlock]bool {
	if l, ok := p.live[fn]; ok {
		return l
	}
	l := map[*ssa.BasicBlock]bool{}
	if len(fn.Blocks) > 0 {
		work := []*ssa.BasicBlock{fn.Blocks[0]}
		if fn.Recover != nil {
			work = append(work, fn.Recover)
		}
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if l[b] {
				continue
			}
			l[b] = true
			if len(b.Instrs) > 0 {
				if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
					if v, ok := constBool(iff.Cond); ok {
						if v {
							work = append(work, b.Succs[0])
						} else {
							work = append(work, b.Succs[1])
						}
						continue
					}
				}
			}
			work = append(work, b.Succs...)
		}
	}
	p.live[fn] = l
	return l
}

func constBool(v ssa.Value) (bool, bool) {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.Bool {
			return constant.BoolVal(v.Value), true
		}
	case *ssa.UnOp:
		if v.Op == token.NOT {
			b, ok := constBool(v.X)
			return !b, ok
		}
	}
	return false, false
}

// eachInstr visits the live instructions of fn.
func (p *Program) eachInstr(fn *ssa.Function, f func(ssa.Instruction)) {
	l := p.liveBlocks(fn)
	for _, b := range fn.Blocks {
		if !l[b] {
			continue
		}
		for _, in := range b.Instrs {
			f(in)
		}
	}
}

// lookupFunc finds a package-level function, or a method written T.m
func (p *Program) lookupFunc(pkg, name string) *ssa.Function {
	pk := p.pkg(pkg)
	if i := strings.Index(name, "."); i >= 0 {
		tn, ok := pk.Types.Scope().Lookup(name[:i]).(*types.TypeName)
		if !ok {
			return nil
		}
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			ms := types.NewMethodSet(t)
			for i2 := 0; i2 < ms.Len(); i2++ {
				m := ms.At(i2).Obj().(*types.Func)
				if m.Name() == name[i+1:] {
					return p.SSA.FuncValue(m)
				}
			}
		}
		return nil
	}
	return p.ssaPkg(pkg).Func(name)
}

func (p *Program) mustFunc(pkg, name string) *ssa.Function {
	fn := p.lookupFunc(pkg, name)
	if fn == nil {
		panic(fmt.Sprintf("anchor %s.%s not found", pkg, name))
	}
	return fn
}

// exportedFuncs lists the functions and methods a user can call.
func (p *Program) exportedFuncs(pkg string) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != modPath+"/"+pkg || fn.Parent() != nil {
			continue
		}
		if isExportedAPI(fn) {
			out = append(out, fn)
		}
	}
	return out
}

func isExportedAPI(fn *ssa.Function) bool {
	o, ok := fn.Object().(*types.Func)
	if !ok || !o.Exported() {
		return false
	}
	return true
}

// callees resolves a call: static callee, closures, or every implementation in the
// program for interface calls (restricted to module types for speed).
func (p *Program) callees(c ssa.CallInstruction) []*ssa.Function {
	cc := c.Common()
	if f := cc.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if cc.IsInvoke() {
		return p.implementations(cc.Method, cc.Value.Type())
	}
	// function value: all address-taken module functions with this signature
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		_ = b
		return nil
	}
	return p.funcValues(cc.Signature())
}

func (p *Program) implementations(m *types.Func, recv types.Type) []*ssa.Function {
	if p.impls == nil {
		p.impls = map[*types.Func][]*ssa.Function{}
	}
	if r, ok := p.impls[m]; ok {
		return r
	}
	iface, ok := recv.Underlying().(*types.Interface)
	var out []*ssa.Function
	if ok {
		for _, pk := range append(append([]*packages.Package{}, p.Repo...), p.depsWithTypes()...) {
			for _, n := range pk.Types.Scope().Names() {
				tn, ok := pk.Types.Scope().Lookup(n).(*types.TypeName)
				if !ok || tn.IsAlias() {
					continue
				}
				if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				if types.IsInterface(tn.Type()) {
					continue
				}
				for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
					if types.Implements(t, iface) {
						ms := types.NewMethodSet(t)
						sel := ms.Lookup(m.Pkg(), m.Name())
						if sel == nil {
							continue
						}
						fn := p.SSA.FuncValue(sel.Obj().(*types.Func))
						if fn != nil {
							out = append(out, fn)
						}
						break
					}
				}
			}
		}
	}
	p.impls[m] = out
	return out
}

func (p *Program) depsWithTypes() []*packages.Package {
	var out []*packages.Package
	for path, pk := range p.All {
		if strings.HasPrefix(path, "github.com/benoitkugler/textlayout") {
			out = append(out, pk)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].PkgPath < out[j].PkgPath })
	return out
}

func (p *Program) funcValues(sig *types.Signature) []*ssa.Function {
	if p.addrTk == nil {
		p.addrTk = map[*ssa.Function]bool{}
		for _, fn := range p.Funcs {
			p.eachInstr(fn, func(in ssa.Instruction) {
				var rands [16]*ssa.Value
				for i, op := range in.Operands(rands[:0]) {
					if op == nil || *op == nil {
						continue
					}
					f, ok := (*op).(*ssa.Function)
					if !ok {
						if mc, ok2 := (*op).(*ssa.MakeClosure); ok2 {
							f = mc.Fn.(*ssa.Function)
						} else {
							continue
						}
					}
					if c, ok := in.(ssa.CallInstruction); ok && i == 0 && !c.Common().IsInvoke() {
						if _, isMC := (*op).(*ssa.MakeClosure); !isMC {
							continue
						}
					}
					p.addrTk[f] = true
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					p.addrTk[mc.Fn.(*ssa.Function)] = true
				}
			})
		}
	}
	var out []*ssa.Function
	for f := range p.addrTk {
		if types.Identical(noRecv(f.Signature), noRecv(sig)) {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func noRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

// reachable is the closure over live calls from roots, closures included.
func (p *Program) reachable(roots []*ssa.Function, stayInModule bool) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	work := append([]*ssa.Function{}, roots...)
	for len(work) > 0 {
		fn := work[len(work)-1]
		work = work[:len(work)-1]
		if fn == nil || seen[fn] || fn.Blocks == nil {
			continue
		}
		if stayInModule && !inModule(fn) {
			continue
		}
		seen[fn] = true
		p.eachInstr(fn, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				work = append(work, p.callees(c)...)
			}
			var rands [16]*ssa.Value
			for _, op := range in.Operands(rands[:0]) {
				if op == nil || *op == nil {
					continue
				}
				switch f := (*op).(type) {
				case *ssa.Function:
					work = append(work, f)
				case *ssa.MakeClosure:
					work = append(work, f.Fn.(*ssa.Function))
				}
			}
		})
	}
	return seen
}

// apiReachable is everything reachable from exported functions and package initialisers.
func (p *Program) apiReachable() map[*ssa.Function]bool {
	if p.reachC != nil {
		return p.reachC
	}
	var roots []*ssa.Function
	for _, fn := range p.Funcs {
		if isExportedAPI(fn) || fn.Name() == "init" {
			roots = append(roots, fn)
		}
	}
	// functions stored in package-level tables are referenced by init
	p.reachC = p.reachable(roots, true)
	return p.reachC
}

func (p *Program) callSites(fn *ssa.Function) []ssa.CallInstruction {
	if p.callers == nil {
		p.callers = map[*ssa.Function][]ssa.CallInstruction{}
		for _, f := range p.Funcs {
			p.eachInstr(f, func(in ssa.Instruction) {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, cal := range p.callees(c) {
						p.callers[cal] = append(p.callers[cal], c)
					}
				}
			})
		}
	}
	return p.callers[fn]
}

func (p *Program) dump(what string) {
	if strings.HasPrefix(what, "api:") {
		p.dumpAPI(what[4:])
		return
	}
	if strings.HasPrefix(what, "mod:") {
		m := p.effects()
		m.profile()
		for _, fn := range p.Funcs {
			if strings.Contains(fn.String(), what[4:]) {
				m.dumpSummary(fn)
			}
		}
		return
	}
	for _, fn := range p.Funcs {
		if strings.Contains(fn.String(), what) {
			fn.WriteTo(os.Stdout)
		}
	}
}

func (p *Program) dumpAPI(pkg string) {
	m := p.effects()
	for _, fn := range p.exportedFuncs(pkg) {
		s := m.sum[fn]
		if s == nil {
			continue
		}
		line := ""
		for i, prm := range fn.Params {
			seen := map[string]bool{}
			var ks []string
			for _, e := range m.mutations(fn, i) {
				k := ""
				if strings.HasPrefix(typeName(e.own), "harfbuzz.") || strings.HasPrefix(typeName(e.own), "graphite.") || strings.HasPrefix(typeName(e.own), "truetype") {
					continue
				}
				k = typeName(e.own)
				if !seen[k] {
					seen[k] = true
					ks = append(ks, k)
				}
			}
			sort.Strings(ks)
			if len(ks) > 0 {
				if len(ks) > 12 {
					ks = append(ks[:12], "...")
				}
				line += fmt.Sprintf("\n     %s: %s", prm.Name(), strings.Join(ks, "; "))
			}
		}
		for i := range s.retD {
			d, k := m.shared(s, i)
			if t := m.taintString(fn, d); t != "[]" {
				line += fmt.Sprintf("\n     RET%d direct %s", i, t)
			}
			if t := m.taintString(fn, k); t != "[]" {
				line += fmt.Sprintf("\n     RET%d contents %s", i, t)
			}
		}
		for to, t := range s.stores {
			line += fmt.Sprintf("\n     KEEP %s <- %s", m.rootString(fn, to), m.taintString(fn, t))
		}
		fmt.Println(fname(fn), line)
	}
}
