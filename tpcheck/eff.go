package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C02", "An interprocedural effect analysis computes, for every public operation of fontconfig, the memory of its arguments (receiver included) it may write.", runC02)
	register("C03", "For every public copying operation, the effect analysis computes what memory the result shares with the original, and a field analysis which fields of the copy are filled.", runC03)
	register("C04", "For every public operation that returns or stores a value, the effect analysis computes which memory of its other arguments that value still refers to.", runC04)
	register("C05", "The effect analysis computes which memory of its arguments every public operation of pango, pango/fcfonts and fribidi may write.", runC05)
}

// recvName is the name of the receiver's type, "" for a plain function.
func recvName(fn *ssa.Function) string {
	r := fn.Signature.Recv()
	if r == nil {
		return ""
	}
	t := r.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// apiName is "F" or "T.M".
func apiName(fn *ssa.Function) string {
	if r := recvName(fn); r != "" {
		return r + "." + fn.Name()
	}
	return fn.Name()
}

func publicAPI(p *Program, pkg string) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.exportedFuncs(pkg) {
		if r := recvName(fn); r != "" {
			if !(r[0] >= 'A' && r[0] <= 'Z') && !(pkg == "pango/fcfonts" && r == "coverage") {
				continue
			}
		}
		out = append(out, fn)
	}
	sort.Slice(out, func(i, j int) bool { return apiName(out[i]) < apiName(out[j]) })
	return out
}

func set(names ...string) map[string]bool {
	m := map[string]bool{}
	for _, n := range names {
		for _, s := range strings.Fields(n) {
			m[s] = true
		}
	}
	return m
}

// paramLabel names a parameter by position so that renaming it keeps the key.
func paramLabel(fn *ssa.Function, i int) string {
	if fn.Signature.Recv() != nil {
		if i == 0 {
			return "receiver"
		}
		return "argument " + string(rune('0'+i))
	}
	return "argument " + string(rune('1'+i))
}

// ownTypes lists the owner types of the effects of fn on its i-th parameter.
func ownTypes(m *modAnalysis, fn *ssa.Function, i int) map[string]effect {
	out := map[string]effect{}
	for _, e := range m.mutations(fn, i) {
		k := typeName(e.own)
		if o, ok := out[k]; !ok || len(e.via) < len(o.via) {
			out[k] = e
		}
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// documented mutators of fontconfig: operation -> positions (receiver is 0) they may write.
var fcMutators = map[string][]int{
	"Charset.AddChar": {0}, "Charset.DelChar": {0},
	"Config.LoadFromMemory": {0}, "Config.LoadFromDir": {0},
	"Pattern.Add": {0}, "Pattern.AddBool": {0}, "Pattern.AddInt": {0}, "Pattern.AddFloat": {0}, "Pattern.AddString": {0},
	"Pattern.AddCharset": {0}, "Pattern.AddLangset": {0}, "Pattern.AddMatrix": {0}, "Pattern.AddRange": {0}, "Pattern.AddList": {0},
	"Pattern.Del": {0}, "Pattern.SubstituteDefault": {0}, "Config.Substitute": {1},
}

// readers of fontconfig, as a user sees them at the analysed commit.
var fcReaders = set(`Bool.String Charset.Copy Charset.HasChar Charset.Len Charset.String Config.Copy Config.PrepareRender Config.ScanFontDirectories
 Config.ScanFontFile Config.ScanFontRessource DefaultFontDirs FontFormat.Loader Fontset.List Fontset.Match Fontset.Serialize Fontset.Sort
 GenerateSubstitution Langset.Copy Langset.String LoadFontset LoadFontsetFile Matrix.Multiply NewConfig NewLangset NewPattern Object.String
 PartialScanFontDirectories Pattern.Duplicate Pattern.FaceID Pattern.Format Pattern.GetAt Pattern.GetBool Pattern.GetCharset Pattern.GetFloat
 Pattern.GetFloats Pattern.GetInt Pattern.GetInts Pattern.GetString Pattern.GetStrings Pattern.Hash Pattern.String ReadFontFile ScanAndCache WeightFromOT WeightToOT
 Config.Substitute Pattern.Add Pattern.AddBool Pattern.AddInt Pattern.AddFloat Pattern.AddString Config.LoadFromMemory Config.LoadFromDir Charset.AddChar Charset.DelChar Pattern.Del Pattern.SubstituteDefault`)

// ioOwner: writing an io.Reader/io.Writer given by the caller is what it is for.
func ioOwner(fn *ssa.Function, i int) bool {
	t := fn.Params[i].Type()
	if n, ok := t.(*types.Named); ok {
		if pk := n.Obj().Pkg(); pk != nil && (pk.Path() == "io" || pk.Path() == "os" || pk.Path() == "encoding/xml" || strings.HasSuffix(pk.Path(), "textlayout/fonts")) {
			return true
		}
	}
	if pt, ok := t.(*types.Pointer); ok {
		if n, ok := pt.Elem().(*types.Named); ok {
			if pk := n.Obj().Pkg(); pk != nil && (pk.Path() == "encoding/xml" || pk.Path() == "bytes") {
				return true
			}
		}
	}
	return false
}

func runC02(p *Program, r *Report) {
	r.rule("the summary of every public fontconfig operation writes no memory reachable from its parameters, except the parameter a documented mutator (Pattern.Add*/Del/SubstituteDefault, Config.Substitute's pattern, Config.LoadFrom*, Charset.AddChar/DelChar) exists to modify")
	m := p.effects()
	seen := 0
	for _, fn := range publicAPI(p, "fontconfig") {
		name := apiName(fn)
		if !fcReaders[name] {
			continue
		}
		seen++
		r.count("operations", 1)
		for i := range fn.Params {
			if ioOwner(fn, i) {
				continue
			}
			ok := false
			for _, j := range fcMutators[name] {
				ok = ok || i == j
			}
			if ok {
				continue
			}
			r.count("parameters", 1)
			own := ownTypes(m, fn, i)
			for _, k := range sortedKeys(own) {
				e := own[k]
				r.find("read-only", name+"/"+paramLabel(fn, i)+"/"+k, p.pos(e.pos), "%s may write %s reached from its %s (%s) via %s", fname(fn), k, paramLabel(fn, i), fn.Params[i].Name(), e.via)
			}
		}
	}
	r.sample("operations checked: %d of the %d readers", seen, len(fcReaders))
	r.need("operations", seen, 40)
}

// mutable drops from a taint the roots whose shared memory is immutable by type.
func (m *modAnalysis) sharedRoots(fn *ssa.Function, t taint) []string {
	var out []string
	for x := range t {
		out = append(out, m.rootString(fn, x)+" ("+typeName(x.typ)+")")
	}
	sort.Strings(out)
	return out
}

// shares lists what the results of fn share with its parameters and package state.
func shares(m *modAnalysis, fn *ssa.Function) []string {
	s := m.sum[fn]
	all := map[string]bool{}
	for i := range s.retD {
		d, k := m.shared(s, i)
		for _, x := range append(m.sharedRoots(fn, d), m.sharedRoots(fn, k)...) {
			all[x] = true
		}
	}
	return sortedKeys(all)
}

func rootTypes(m *modAnalysis, fn *ssa.Function) map[string]bool {
	return rootTypesFrom(m, fn, 0)
}

// rootTypesFrom only considers the results from this one on.
func rootTypesFrom(m *modAnalysis, fn *ssa.Function, first int) map[string]bool {
	s := m.sum[fn]
	out := map[string]bool{}
	for i := range s.retD {
		if i < first {
			continue
		}
		d, k := m.shared(s, i)
		for _, t := range []taint{d, k} {
			for x := range t {
				from := "package state"
				if x.kind == rkParam {
					from = paramLabel(fn, x.idx)
				}
				out[from+" "+typeName(x.typ)] = true
			}
		}
	}
	return out
}

func runC03(p *Program, r *Report) {
	r.rule("the result of every public method named Copy or Duplicate shares no mutable memory with its receiver, and the method writes neither the receiver nor what it refers to")
	r.rule("a copy of a struct has every field filled: the struct is copied as a whole or each field is stored")
	r.rule("every part of the copy comes from the same part of the original: the field of the same name, every element at its place, every key unchanged with its value")
	m := p.effects()
	cc := &copyCheck{p: p, r: r, done: map[*ssa.Function]bool{}}
	for _, pkg := range []string{"fontconfig", "fribidi", "pango", "pango/fcfonts"} {
		for _, fn := range publicAPI(p, pkg) {
			if (fn.Name() != "Copy" && fn.Name() != "Duplicate") || fn.Signature.Recv() == nil || fn.Signature.Results().Len() == 0 {
				continue
			}
			r.count("copying operations", 1)
			name := pkg + "." + apiName(fn)
			r.sample("%s", name)
			for k := range rootTypes(m, fn) {
				r.find("independent", name+"/"+k, p.pos(fn.Pos()), "the result of %s still refers to memory of its %s", fname(fn), k)
			}
			for k, e := range ownTypes(m, fn, 0) {
				r.find("original-kept", name+"/"+k, p.pos(e.pos), "%s writes %s of the original via %s", fname(fn), k, e.via)
			}
			copyComplete(p, r, fn, name)
			cc.enqueue(fn, 0)
		}
	}
	cc.run()
	r.need("copying operations", r.Counts["copying operations"], 6)
}

// copyComplete: every field of a struct result is filled.
func copyComplete(p *Program, r *Report, fn *ssa.Function, name string) {
	res := fn.Signature.Results().At(0).Type()
	if pt, ok := res.(*types.Pointer); ok {
		res = pt.Elem()
	}
	st, ok := res.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) == 0 {
			continue
		}
		v := ret.Results[0]
		var allocs []*ssa.Alloc
		seen := map[ssa.Value]bool{}
		var walk func(v ssa.Value)
		walk = func(v ssa.Value) {
			if seen[v] {
				return
			}
			seen[v] = true
			switch v := v.(type) {
			case *ssa.Alloc:
				allocs = append(allocs, v)
			case *ssa.UnOp:
				walk(v.X)
			case *ssa.Phi:
				for _, e := range v.Edges {
					walk(e)
				}
			case *ssa.MakeInterface:
				walk(v.X)
			case *ssa.ChangeInterface:
				walk(v.X)
			case *ssa.ChangeType:
				walk(v.X)
			}
		}
		walk(v)
		for _, a := range allocs {
			pt := a.Type().Underlying().(*types.Pointer).Elem()
			if !types.Identical(pt, res) {
				continue
			}
			whole := false
			filled := map[int]bool{}
			for _, ref := range *a.Referrers() {
				switch ref := ref.(type) {
				case *ssa.Store:
					if ref.Addr == a {
						whole = true
					}
				case *ssa.FieldAddr:
					filled[ref.Field] = true
				case ssa.CallInstruction:
					// handed to a helper: take it as filled there
					whole = true
				}
			}
			r.count("copied structs", 1)
			if whole {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				r.count("copied fields", 1)
				if !filled[i] {
					r.find("complete", name+"/"+st.Field(i).Name(), p.pos(a.Pos()), "%s leaves field %s of the copy at its zero value", fname(fn), st.Field(i).Name())
				}
			}
		}
	}
}

// operations whose documented purpose is to hand out what they were given or hold.
var sharesByDoc = set(`fontconfig.Pattern.GetAt fontconfig.Pattern.GetCharset fontconfig.Fontset.Sort
 fontconfig.Pattern.GetLangset`)

// operations of pango that store or return something which must be their own.
var pangoOwned = set(`Layout.SetTabs Layout.SetFontDescription Layout.SetText Layout.SetRunes Layout.SetMarkup Context.SetFontDescription Context.GetMetrics
 NewAttrFontDescription NewAttrShape FontDescription.SetFamily FontDescription.SetVariations FontDescription.UnsetFields
 Layout.GetSize Layout.GetPixelExtents ParseMarkup NewFontDescriptionFrom NewFontDescription FontGetMetrics ComputeCharacterAttributes Layout.GetCursorPos`)

func runC04(p *Program, r *Report) {
	r.rule("the result of a public fontconfig operation refers to no mutable memory of its arguments, and the operation leaves no reference to one argument in another, except for the documented accessors")
	r.rule("the pango setters and constructors that take a tab array, a font description or a text keep no reference to the caller's memory")
	m := p.effects()
	check := func(pkg string, fn *ssa.Function) {
		name := pkg + "." + apiName(fn)
		s := m.sum[fn]
		if s == nil {
			return
		}
		r.count("operations", 1)
		first := 0
		if sharesByDoc[name] {
			first = 1 // the documented sharing is that of the first result
		}
		for i := first; i < fn.Signature.Results().Len(); i++ {
			r.count("results", 1)
		}
		for _, k := range sortedKeys(rootTypesFrom(m, fn, first)) {
			if strings.HasPrefix(k, "package state") && pkg != "fontconfig" {
				continue
			}
			r.find("result-owned", name+"/"+k, p.pos(fn.Pos()), "the result of %s still refers to memory of its %s", fname(fn), k)
		}
		for to, t := range s.stores {
			if to.kind != rkParam || ioOwner(fn, to.idx) {
				continue
			}
			for x := range t {
				if x.kind != rkParam || x.idx == to.idx {
					continue
				}
				r.find("argument-kept", name+"/"+paramLabel(fn, to.idx)+"<-"+paramLabel(fn, x.idx)+" "+typeName(x.typ), p.pos(fn.Pos()),
					"%s stores memory of its %s (%s) in its %s", fname(fn), paramLabel(fn, x.idx), typeName(x.typ), paramLabel(fn, to.idx))
			}
		}
	}
	for _, fn := range publicAPI(p, "fontconfig") {
		if fcReaders[apiName(fn)] {
			check("fontconfig", fn)
		}
	}
	for _, fn := range publicAPI(p, "pango") {
		if pangoOwned[apiName(fn)] {
			check("pango", fn)
		}
	}
	r.need("operations", r.Counts["operations"], 50)
}

// what the documented mutators of fribidi write: operation -> argument positions.
var fribidiOut = map[string][]int{
	"Shape": {2, 3}, "GetParEmbeddingLevels": {2}, "LogicalToVisual": {2}, "ReorderLine": {5, 6, 7}, "RemoveBidiMarks": {0, 1, 2, 3},
}

// operations of pango which are meant to write the caller's attributes, tabs or descriptions.
func pangoMayWrite(name string, i int, own string) bool {
	switch own {
	case "pango.Attribute":
		return name == "AttrList.Change" || name == "AttrList.Insert" || name == "AttrList.InsertBefore"
	case "pango.FontDescription", "FontDescription":
		return i == 0 && (strings.HasPrefix(name, "FontDescription.Set") || strings.HasPrefix(name, "FontDescription.Unset"))
	}
	return false
}

func runC05(p *Program, r *Report) {
	r.rule("no public pango or pango/fcfonts operation writes an attribute, a tab array, a font description argument or a text it was given, setters of that very value excepted")
	r.rule("no public fcfonts operation writes a pattern, a value list, a charset page of the font database or a field of the configuration")
	r.rule("the public fribidi operations write only their documented output arguments")
	m := p.effects()
	for _, pkg := range []string{"pango", "pango/fcfonts"} {
		for _, fn := range publicAPI(p, pkg) {
			if recvName(fn) == "coverage" {
				continue
			}
			name := apiName(fn)
			r.count("pango operations", 1)
			for i := range fn.Params {
				own := ownTypes(m, fn, i)
				pt := fn.Params[i].Type()
				for _, k := range sortedKeys(own) {
					e := own[k]
					bad := false
					switch k {
					case "pango.Attribute", "pango.Tab":
						bad = true
					case "[]pango.Tab", "pango.TabArray":
						// the layout sorts the copy it keeps
						bad = !strings.HasPrefix(typeName(pt), "*pango.Layout") && typeName(pt) != "pango.Layout" || name != "Layout.SetTabs"
					case "[]rune":
						// the layout replaces its own text
						bad = !strings.HasPrefix(name, "Layout.Set") || i != 0
					case "pango.FontDescription":
						s := pt.String()
						bad = strings.HasSuffix(s, "pango.FontDescription")
					}
					if strings.HasPrefix(pkg, "pango/fc") {
						switch k {
						case "fontconfig.Pattern", "fontconfig.valueList", "fontconfig.Config", "fontconfig.Charset":
							bad = true
						}
					}
					if bad && !pangoMayWrite(name, i, k) {
						r.find("inputs-kept", pkg+"."+name+"/"+paramLabel(fn, i)+"/"+k, p.pos(e.pos), "%s may write %s reached from its %s via %s", fname(fn), k, paramLabel(fn, i), e.via)
					}
				}
			}
		}
	}
	for _, fn := range publicAPI(p, "fribidi") {
		name := apiName(fn)
		r.count("fribidi operations", 1)
		for i := range fn.Params {
			ok := false
			for _, j := range fribidiOut[name] {
				ok = ok || i == j
			}
			if ok {
				continue
			}
			own := ownTypes(m, fn, i)
			for _, k := range sortedKeys(own) {
				e := own[k]
				r.find("inputs-kept", "fribidi."+name+"/"+paramLabel(fn, i)+"/"+k, p.pos(e.pos), "%s may write %s of its %s via %s", fname(fn), k, paramLabel(fn, i), e.via)
			}
		}
	}
	borrowedSettings(p, r)
	r.need("pango operations", r.Counts["pango operations"], 150)
	r.need("fribidi operations", r.Counts["fribidi operations"], 10)
}
