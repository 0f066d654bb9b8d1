package main

import (
	"encoding/xml"
	"fmt"
	"go/ast"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// The built-in configuration is the one described by the configuration files.

func init() {
	register("C13", "The literal of the built-in configuration is folded and compared, rule by rule, with the configuration files it is documented to be generated from.", runC13)
}

// node is an element of a configuration file.
type xmlNode struct {
	name string
	attr map[string]string
	text string
	kids []*xmlNode
	pos  string
}

func readXML(path, label string) (*xmlNode, error) {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	d := xml.NewDecoder(strings.NewReader(string(data)))
	root := &xmlNode{}
	stack := []*xmlNode{root}
	for {
		tok, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		top := stack[len(stack)-1]
		switch t := tok.(type) {
		case xml.StartElement:
			line := 1 + strings.Count(string(data[:d.InputOffset()]), "\n")
			n := &xmlNode{name: t.Name.Local, attr: map[string]string{}, pos: fmt.Sprint(label, ":", line)}
			for _, a := range t.Attr {
				n.attr[a.Name.Local] = a.Value
			}
			top.kids = append(top.kids, n)
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			top.text += string(t)
		}
	}
	for _, k := range root.kids {
		if k.name == "fontconfig" {
			return k, nil
		}
	}
	return nil, fmt.Errorf("%s: no element <fontconfig>", path)
}

// exprX is an expression: of a configuration file, or of the literal.
type exprX struct {
	kind string // the element
	text string
	num  float64
	args []*exprX
	op   *lit // of the literal
	name [2]string
	nums [2]*lit
	pos  string
}

type stdConf struct {
	p       *Program
	r       *Report
	v       *fcVocab
	t       *tables
	objects map[string]int64
	// what the files say and the number the literal uses for it
	pairs map[string]map[string]map[int64][]string
	seen  map[string]map[int64]map[string]int
}

func (c *stdConf) pair(class, symbol string, l *lit, pos string) {
	k, ok := l.i()
	if !ok {
		c.bad("number", pos, "the %s is not a number", class)
		return
	}
	if c.pairs[class] == nil {
		c.pairs[class] = map[string]map[int64][]string{}
	}
	if c.pairs[class][symbol] == nil {
		c.pairs[class][symbol] = map[int64][]string{}
	}
	c.pairs[class][symbol][k] = append(c.pairs[class][symbol][k], pos)
}

func (c *stdConf) bad(rule, pos, format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	c.r.find(rule, msg, pos, "the built-in configuration differs from %s: %s", pos, msg)
}

// object compares a property with its name.
func (c *stdConf) object(name string, l *lit, pos string) {
	k, ok := l.i()
	want, known := c.objects[name]
	if !known {
		c.bad("object", pos, "the property %q is not registered", name)
		return
	}
	if ok && k != want {
		c.bad("object", pos, "the property %q is replaced by property number %d", name, k)
	}
}

// expected expression of an element.
func (c *stdConf) expected(n *xmlNode) *exprX {
	x := &exprX{kind: n.name, text: strings.TrimSpace(n.text), pos: n.pos}
	switch n.name {
	case "family", "string":
		x.kind = "string"
	case "const":
	case "int", "double":
		f, err := strconv.ParseFloat(x.text, 64)
		if err != nil {
			return nil
		}
		x.num = f
	case "bool":
		switch strings.ToLower(x.text)[:1] {
		case "t", "y", "1":
			x.num = 1
		case "f", "n", "0":
		default:
			return nil
		}
	case "name":
		x.name = [2]string{x.text, n.attr["target"]}
		if x.name[1] == "" {
			x.name[1] = "default"
		}
	default:
		for _, k := range n.kids {
			y := c.expected(k)
			if y == nil {
				return nil
			}
			x.args = append(x.args, y)
		}
		if len(x.args) == 0 {
			return nil
		}
		// operators with several operands are nested
		if n.name != "matrix" && n.name != "if" {
			for len(x.args) > 2 {
				l := &exprX{kind: x.kind, args: x.args[:2:2], pos: x.pos}
				x.args = append([]*exprX{l}, x.args[2:]...)
			}
			if len(x.args) == 1 && n.name != "not" && n.name != "floor" && n.name != "ceil" && n.name != "round" && n.name != "trunc" {
				return x.args[0]
			}
		}
	}
	return x
}

// actual expression of the literal.
func (c *stdConf) actual(l *lit) *exprX {
	if l != nil && l.Addr != nil {
		l = l.Addr
	}
	if l == nil || len(l.Fields) != 2 {
		return nil
	}
	u, op := l.Fields[0], l.Fields[1]
	if isIntType(u.T) && u.C != nil && !c.isValue(u.T) {
		u, op = op, u
	}
	x := &exprX{op: op}
	if u.C != nil {
		n, _ := u.T.(*types.Named)
		if n == nil {
			return nil
		}
		switch n.Obj().Name() {
		case "String":
			x.kind = "string"
			x.text, _ = u.s()
		case "Int", "Float", "Bool":
			x.kind = map[string]string{"Int": "int", "Float": "double", "Bool": "bool"}[n.Obj().Name()]
			x.num, _ = u.f()
		default:
			return nil
		}
		return x
	}
	if len(u.Fields) == 0 {
		return nil
	}
	st, _ := u.T.Underlying().(*types.Struct)
	if st == nil {
		return nil
	}
	if types.Identical(st.Field(0).Type(), c.v.object) || len(u.Fields) == 2 && types.Identical(st.Field(1).Type(), c.v.object) {
		x.kind = "name"
		x.nums = [2]*lit{u.Fields[0], u.Fields[1]}
		if !types.Identical(st.Field(0).Type(), c.v.object) {
			x.nums[0], x.nums[1] = x.nums[1], x.nums[0]
		}
		return x
	}
	order := make([]int, len(u.Fields))
	for i := range order {
		order[i] = i
	}
	if len(order) == 4 { // xx, xy, yx, yy
		sort.Slice(order, func(i, j int) bool {
			return strings.ToLower(st.Field(order[i]).Name()) < strings.ToLower(st.Field(order[j]).Name())
		})
		x.kind = "matrix"
	} else if len(order) == 2 {
		sort.Slice(order, func(i, j int) bool { return st.Field(order[i]).Name() < st.Field(order[j]).Name() }) // left, right
		x.kind = "tree"
	} else {
		return nil
	}
	for _, i := range order {
		if u.Fields[i].Nil {
			continue
		}
		y := c.actual(u.Fields[i])
		if y == nil {
			return nil
		}
		x.args = append(x.args, y)
	}
	return x
}

func (c *stdConf) isValue(t types.Type) bool { return types.Implements(t, c.v.value) }

// sameExpr compares two expressions.
func (c *stdConf) sameExpr(want, got *exprX) {
	pos := want.pos
	c.r.count("expressions", 1)
	if got == nil {
		c.bad("expression", pos, "no expression")
		return
	}
	switch want.kind {
	case "string", "const":
		if got.kind != "string" || strings.TrimSpace(got.text) != want.text {
			c.bad("value", pos, "%q is replaced by %s", want.text, got)
			return
		}
	case "int", "double", "bool":
		if got.kind != want.kind || float32(got.num) != float32(want.num) {
			c.bad("value", pos, "<%s>%s is replaced by %s", want.kind, want.text, got)
			return
		}
	case "name":
		if got.kind != "name" {
			c.bad("value", pos, "the property %q is replaced by %s", want.name[0], got)
			return
		}
		c.object(want.name[0], got.nums[0], pos)
		c.pair("target", want.name[1], got.nums[1], pos)
	case "matrix":
		if got.kind != "matrix" || len(got.args) != len(want.args) {
			c.bad("value", pos, "a matrix is replaced by %s", got)
			return
		}
		for i := range want.args {
			c.sameExpr(want.args[i], got.args[i])
		}
	default:
		if got.kind != "tree" || len(got.args) != len(want.args) {
			c.bad("value", pos, "<%s> is replaced by %s", want.kind, got)
			return
		}
		for i := range want.args {
			c.sameExpr(want.args[i], got.args[i])
		}
	}
	c.pair("operator", "<"+want.kind+">", got.op, pos)
}

func (x *exprX) String() string {
	switch x.kind {
	case "string":
		return strconv.Quote(x.text)
	case "int", "double", "bool":
		return fmt.Sprintf("<%s>%g", x.kind, x.num)
	}
	return "a " + x.kind
}

// sameList compares the values of a test, or of an edit.
func (c *stdConf) sameList(want []*xmlNode, got *lit, pos, what string) {
	var exp []*exprX
	for _, n := range want {
		x := c.expected(n)
		if x == nil {
			c.r.count("undecided", 1)
			return
		}
		exp = append(exp, x)
	}
	x := c.actual(got)
	have := []*exprX{x}
	if x != nil && len(exp) > 1 {
		// all the binary operations with the operator at the root
		have = nil
		root := int64(-1)
		if x.op != nil {
			root, _ = x.op.i()
		}
		var flat func(y *exprX)
		flat = func(y *exprX) {
			if k, ok := y.op.i(); ok && k == root && y.kind == "tree" && len(y.args) == 2 {
				flat(y.args[0])
				flat(y.args[1])
				return
			}
			have = append(have, y)
		}
		flat(x)
		c.pair("operator", "list of values", x.op, pos)
	}
	if len(have) != len(exp) {
		c.bad("values", pos, "the %s has %d values instead of %d", what, len(have), len(exp))
		return
	}
	for i := range exp {
		c.sameExpr(exp[i], have[i])
	}
}

type ruleX struct {
	kind  string
	tests []*xmlNode
	alias []*xmlNode // the families of an alias
	edits []editX
	pos   string
}

type editX struct {
	object, mode, binding string
	values                []*xmlNode
	pos                   string
}

func attr(n *xmlNode, name, def string) string {
	if s, ok := n.attr[name]; ok {
		return s
	}
	return def
}

func kindsNamed(n *xmlNode, names ...string) []*xmlNode {
	var out []*xmlNode
	for _, k := range n.kids {
		if contains(names, k.name) {
			out = append(out, k)
		}
	}
	return out
}

// rules of a file.
func (c *stdConf) rules(root *xmlNode) []ruleX {
	var out []ruleX
	for _, n := range root.kids {
		switch n.name {
		case "match":
			rl := ruleX{kind: attr(n, "target", "pattern"), pos: n.pos}
			for _, k := range n.kids {
				switch k.name {
				case "test":
					rl.tests = append(rl.tests, k)
				case "edit":
					rl.edits = append(rl.edits, editX{attr(k, "name", ""), attr(k, "mode", "assign"), attr(k, "binding", "weak"), k.kids, k.pos})
				}
			}
			out = append(out, rl)
		case "alias":
			rl := ruleX{kind: "pattern", pos: n.pos}
			rl.alias = kindsNamed(n, "family")
			rl.tests = kindsNamed(n, "test")
			for _, e := range [][2]string{{"prefer", "prepend"}, {"accept", "append"}, {"default", "append_last"}} {
				for _, k := range kindsNamed(n, e[0]) {
					rl.edits = append(rl.edits, editX{"family", e[1], attr(n, "binding", "weak"), k.kids, k.pos})
				}
			}
			if len(rl.edits) > 0 {
				out = append(out, rl)
			}
		}
	}
	return out
}

// parts of a rule: an expression, a property, an operator and something else.
type partsX struct{ expr, object, op, kind, other *lit }

func (c *stdConf) parts(l *lit, opT, kindT types.Type) *partsX {
	st, ok := l.T.Underlying().(*types.Struct)
	if !ok || len(l.Fields) != st.NumFields() {
		return nil
	}
	x := &partsX{}
	for i, f := range l.Fields {
		t := st.Field(i).Type()
		switch {
		case types.Identical(t, c.v.object):
			x.object = f
		case types.Identical(t, opT):
			x.op = f
		case types.Identical(t, kindT):
			x.kind = f
		case isIntType(t):
			x.other = f
		default:
			if _, ptr := t.Underlying().(*types.Pointer); ptr {
				x.expr = f
			}
		}
	}
	if x.expr == nil || x.object == nil || x.op == nil || x.other == nil {
		return nil
	}
	return x
}

func runC13(p *Program, r *Report) {
	r.rule("the literal of fontconfig.Standard is folded; each <match>, <alias> and <selectfont> of the files of confs is compared with it: property, values, operands, file order")
	r.rule("the numbers the literal uses for operators, targets, qualifiers, modes and bindings must be those the parser uses for these words, and the same everywhere")
	c := &stdConf{p: p, r: r, v: p.vocab(), t: p.tables(), objects: map[string]int64{}, pairs: map[string]map[string]map[int64][]string{}}
	std, _ := p.pkg("fontconfig").Types.Scope().Lookup("Standard").(*types.Var)
	undecided := func(why string) {
		r.count("undecided", 1)
		r.sample("not decided: %s", why)
	}
	if std == nil || c.t.init[std] == nil {
		undecided("no literal")
		return
	}
	conf := c.t.eval(c.t.infos[std], c.t.init[std])
	if conf.Addr != nil {
		conf = conf.Addr
	}
	st, ok := conf.T.(*types.Named)
	if conf.Unknown || !ok || len(conf.Fields) == 0 {
		undecided("the built-in configuration is not a constant literal")
		return
	}
	fields := map[string]*lit{}
	for i := 0; i < st.Underlying().(*types.Struct).NumFields(); i++ {
		f := st.Underlying().(*types.Struct).Field(i)
		key := strings.ToLower(f.Name())
		switch u := f.Type().Underlying().(type) {
		case *types.Map:
			if types.Identical(u.Elem(), c.v.object) {
				key = "custom"
			}
		case *types.Slice:
			if _, s := u.Elem().Underlying().(*types.Struct); s {
				key = "rules"
			}
		}
		fields[key] = conf.Fields[i]
	}
	sets := fields["rules"]
	if sets == nil || len(sets.Vals) == 0 {
		undecided("the rules are not found")
		return
	}
	// the names of the properties
	for name, o := range c.v.Objects {
		if k, ok := c.v.consts[name]; ok {
			c.objects[o.Name] = k
		}
	}
	last := int64(0)
	for _, k := range c.objects {
		if k > last {
			last = k
		}
	}
	if cu := fields["custom"]; cu != nil {
		used := map[int64]string{}
		for i, k := range cu.Keys {
			s, _ := k.s()
			n, _ := cu.Vals[i].i()
			if n <= last || used[n] != "" {
				c.bad("object", "standardconf.go", "the property %q has the number %d of another one", s, n)
			}
			used[n] = s
			c.objects[s] = n
		}
	}
	// the files
	dir := filepath.Join(p.RepoDir, "fontconfig", "confs")
	var files []string
	filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() && info.Name()[0] >= '0' && info.Name()[0] <= '9' && strings.HasSuffix(path, ".conf") {
			files = append(files, path)
		}
		return nil
	})
	r.need("configuration files", len(files), 1)
	kinds := map[string]int{}
	for i, n := range []string{"MatchQuery", "MatchResult", "MatchScan"} {
		kinds[[]string{"pattern", "font", "scan"}[i]] = -1
		if k, ok := p.pkg("fontconfig").Types.Scope().Lookup(n).(*types.Const); ok {
			v, _ := (&lit{C: k.Val()}).i()
			kinds[[]string{"pattern", "font", "scan"}[i]] = int(v)
		}
	}
	// each file is a set of rules with its name
	byName := map[string]*lit{}
	var order []string
	for _, s := range sets.Vals {
		for _, f := range s.Fields {
			if n, ok := f.s(); ok && strings.HasSuffix(n, ".conf") {
				if byName[filepath.Base(n)] != nil {
					c.bad("file", n, "it appears twice")
				}
				byName[filepath.Base(n)] = s
				order = append(order, filepath.Base(n))
			}
		}
	}
	if len(order) != len(sets.Vals) {
		undecided("the sets of rules have no file name")
		return
	}
	opT, kindT := c.operatorType(sets), types.Type(nil)
	if k := p.pkg("fontconfig").Types.Scope().Lookup("MatchQuery"); k != nil {
		kindT = k.Type()
	}
	if opT == nil {
		undecided("the type of operators is not found")
		return
	}
	var want []string
	accept, reject := map[string][]*xmlNode{}, map[string][]*xmlNode{}
	for _, path := range files {
		base := filepath.Base(path)
		root, err := readXML(path, "confs/"+base)
		if err != nil {
			undecided(err.Error())
			continue
		}
		rules := c.rules(root)
		for _, s := range kindsNamed(root, "selectfont") {
			for _, k := range kindsNamed(s, "acceptfont", "rejectfont") {
				to := accept
				if k.name == "rejectfont" {
					to = reject
				}
				for _, e := range k.kids {
					to[e.name] = append(to[e.name], e)
				}
			}
		}
		r.count("configuration files", 1)
		set := byName[base]
		if set == nil {
			if len(rules) > 0 {
				c.bad("file", "confs/"+base, "its %d rules are missing", len(rules))
			}
			continue
		}
		want = append(want, base)
		// the description
		if d := kindsNamed(root, "description"); len(d) > 0 {
			found := false
			for _, f := range set.Fields {
				if s, ok := f.s(); ok && strings.TrimSpace(s) == strings.TrimSpace(d[0].text) {
					found = true
				}
			}
			if !found {
				c.bad("description", d[0].pos, "the description %q is missing", strings.TrimSpace(d[0].text))
			}
		}
		// the rules, by target
		var lists *lit
		for _, f := range set.Fields {
			if _, ok := f.T.Underlying().(*types.Array); ok {
				lists = f
			}
		}
		if lists == nil {
			undecided("the rules of a file are not sorted by target")
			return
		}
		for kind, at := range kinds {
			if at < 0 || at >= len(lists.Vals) {
				continue
			}
			var exp []ruleX
			for _, rl := range rules {
				if rl.kind == kind {
					exp = append(exp, rl)
				}
			}
			got := lists.Vals[at].Vals
			if len(got) != len(exp) {
				c.bad("rules", "confs/"+base, "%d rules with the target %q instead of %d", len(got), kind, len(exp))
				continue
			}
			for i := range exp {
				c.rule(exp[i], got[i], opT, kindT)
			}
		}
	}
	// order
	for i := range want {
		if i < len(order) && want[i] != order[i] {
			c.bad("order", "confs/"+want[i], "it comes after %s", order[i])
			break
		}
	}
	for _, n := range order {
		if !contains(want, n) {
			c.bad("file", "confs/"+n, "this file does not exist")
		}
	}
	// the selectors
	for key, l := range fields {
		from := accept
		if strings.Contains(key, "reject") {
			from = reject
		} else if !strings.Contains(key, "accept") {
			continue
		}
		switch {
		case strings.Contains(key, "glob"):
			var got []string
			for i, k := range l.Keys {
				if s, ok := k.s(); ok {
					if b, isBool := truth(&aval{l: l.Vals[i]}); !isBool || b {
						got = append(got, s)
					}
				}
			}
			var exp []string
			for _, n := range from["glob"] {
				exp = append(exp, strings.TrimSpace(n.text))
			}
			sort.Strings(got)
			sort.Strings(exp)
			if strings.Join(got, "\n") != strings.Join(exp, "\n") {
				c.bad("selector", "confs", "%s is %q instead of %q", key, got, exp)
			}
		case strings.Contains(key, "pattern"):
			c.patterns(from["pattern"], l, key)
		}
	}
	c.numbers()
	r.need("rules", r.Counts["rules"], 200)
	r.need("expressions", r.Counts["expressions"], 500)
}

// operatorType: the type of the operators of the literal.
func (c *stdConf) operatorType(sets *lit) types.Type {
	var out types.Type
	var walk func(l *lit)
	walk = func(l *lit) {
		if out != nil || l == nil {
			return
		}
		if l.Addr != nil { // a pointer to an expression
			if e := l.Addr; len(e.Fields) == 2 {
				for _, f := range e.Fields {
					if f.C != nil && isIntType(f.T) && !c.isValue(f.T) {
						out = f.T
					}
				}
			}
		}
		walk(l.Addr)
		for _, f := range l.Fields {
			walk(f)
		}
		for _, f := range l.Vals {
			walk(f)
		}
	}
	walk(sets)
	if out == nil {
		return nil
	}
	n, _ := out.(*types.Named)
	if n == nil {
		return nil
	}
	return n
}

// rule compares a rule with its literal.
func (c *stdConf) rule(want ruleX, got *lit, opT, kindT types.Type) {
	c.r.count("rules", 1)
	var tests, edits []*partsX
	for _, f := range got.Fields {
		sl, ok := f.T.Underlying().(*types.Slice)
		if !ok {
			continue
		}
		st, ok := sl.Elem().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		isTest := false
		for i := 0; i < st.NumFields(); i++ {
			isTest = isTest || types.Identical(st.Field(i).Type(), kindT)
		}
		for _, e := range f.Vals {
			x := c.parts(e, opT, kindT)
			if x == nil {
				c.r.count("undecided", 1)
				return
			}
			if isTest {
				tests = append(tests, x)
			} else {
				edits = append(edits, x)
			}
		}
	}
	n := len(want.tests)
	if want.alias != nil {
		n++
	}
	if len(tests) != n {
		c.bad("tests", want.pos, "this rule has %d tests instead of %d", len(tests), n)
		return
	}
	if want.alias != nil {
		// the test of the family may come before or after the other tests
		at := -1
		for _, i := range []int{len(tests) - 1, 0} {
			if k, ok := tests[i].object.i(); ok && k == c.objects["family"] && at < 0 {
				at = i
			}
		}
		if at < 0 {
			c.bad("object", want.pos, "this alias does not test the family")
			return
		}
		x := tests[at]
		tests = append(append([]*partsX{}, tests[:at]...), tests[at+1:]...)
		c.pair("comparison", "eq ignoring blanks", x.op, want.pos)
		c.pair("qualifier", "any", x.other, want.pos)
		c.pair("target", "pattern", x.kind, want.pos)
		c.sameList(want.alias, x.expr, want.pos, "test of the family")
	}
	for i, n := range want.tests {
		x := tests[i]
		c.object(attr(n, "name", ""), x.object, n.pos)
		cmp := attr(n, "compare", "eq")
		if attr(n, "ignore-blanks", "false") == "true" {
			cmp += " ignoring blanks"
		}
		c.pair("comparison", cmp, x.op, n.pos)
		c.pair("qualifier", attr(n, "qual", "any"), x.other, n.pos)
		target := attr(n, "target", "default")
		if target == "default" {
			target = want.kind
		}
		c.pair("target", target, x.kind, n.pos)
		c.sameList(n.kids, x.expr, n.pos, "test of "+attr(n, "name", ""))
	}
	if len(edits) != len(want.edits) {
		c.bad("edits", want.pos, "this rule has %d edits instead of %d", len(edits), len(want.edits))
		return
	}
	for i, e := range want.edits {
		x := edits[i]
		c.object(e.object, x.object, e.pos)
		c.pair("mode", e.mode, x.op, e.pos)
		c.pair("binding", e.binding, x.other, e.pos)
		c.sameList(e.values, x.expr, e.pos, "edit of "+e.object)
	}
}

// patterns of the selectors.
func (c *stdConf) patterns(want []*xmlNode, got *lit, key string) {
	if len(want) != len(got.Vals) {
		c.bad("selector", "confs", "%s has %d patterns instead of %d", key, len(got.Vals), len(want))
		return
	}
	for i, n := range want {
		c.r.count("patterns", 1)
		pat := got.Vals[i]
		elts := map[string][]*xmlNode{}
		for _, e := range kindsNamed(n, "patelt") {
			elts[attr(e, "name", "")] = append(elts[attr(e, "name", "")], e.kids...)
		}
		if len(elts) != len(pat.Keys) {
			c.bad("selector", n.pos, "the pattern has %d properties instead of %d", len(pat.Keys), len(elts))
			continue
		}
		for j, k := range pat.Keys {
			num, _ := k.i()
			name := ""
			for s := range elts {
				if c.objects[s] == num {
					name = s
				}
			}
			if name == "" {
				c.bad("selector", n.pos, "the pattern has the property %d", num)
				continue
			}
			list := pat.Vals[j]
			if list.Addr != nil {
				list = list.Addr
			}
			if len(list.Vals) != len(elts[name]) {
				c.bad("selector", n.pos, "the property %s has %d values instead of %d", name, len(list.Vals), len(elts[name]))
				continue
			}
			for k, v := range list.Vals {
				x := c.expected(elts[name][k])
				if x == nil {
					c.r.count("undecided", 1)
					continue
				}
				var val *lit
				for _, f := range v.Fields {
					if f.C != nil && c.isValue(f.T) {
						val = f
					} else if f.C != nil && isIntType(f.T) {
						c.pair("binding of selectors", "strong", f, n.pos)
					}
				}
				if val == nil {
					c.r.count("undecided", 1)
					continue
				}
				tname := ""
				if nt, ok := val.T.(*types.Named); ok {
					tname = nt.Obj().Name()
				}
				ok := false
				switch x.kind {
				case "string":
					s, is := val.s()
					ok = is && strings.TrimSpace(s) == x.text
				case "int", "double", "bool":
					f, is := val.f()
					ok = is && tname == map[string]string{"int": "Int", "double": "Float", "bool": "Bool"}[x.kind] && float32(f) == float32(x.num)
				default: // a named constant: its value is decided elsewhere
					ok = true
				}
				if !ok {
					c.bad("selector", elts[name][k].pos, "<%s>%s is replaced by %s %s", x.kind, x.text, tname, val)
				}
			}
		}
	}
}

// numbers: each word is always given the same number, and different words different ones.
func (c *stdConf) numbers() {
	fixed := map[string]map[string]int64{"comparison": c.wordTable("less_eq"), "mode": c.wordTable("prepend_first")}
	for _, class := range sortedKeys(c.pairs) {
		symbols := c.pairs[class]
		chosen := map[string]int64{}
		for _, s := range sortedKeys(symbols) {
			c.r.count("words", 1)
			var best int64
			n := -1
			for k, at := range symbols[s] {
				if len(at) > n || len(at) == n && k < best {
					best, n = k, len(at)
				}
			}
			if k, ok := fixed[class][s]; ok {
				best = k
			}
			chosen[s] = best
			for k, at := range symbols[s] {
				if k == best {
					continue
				}
				for _, pos := range at {
					c.bad(class, pos, "the %s %s is given the number %d (elsewhere %d)", class, s, k, best)
				}
			}
		}
		owner := map[int64]string{}
		for _, s := range sortedKeys(chosen) {
			k := chosen[s]
			o := owner[k]
			if o == "" {
				owner[k] = s
				continue
			}
			// the rarer one is wrong
			a, b := s, o
			if len(symbols[a][k]) > len(symbols[b][k]) {
				a, b = b, a
			}
			pos := "standardconf.go"
			if at := symbols[a][k]; len(at) > 0 {
				pos = at[0]
			}
			c.bad(class, pos, "the %s %s is given the number of %s", class, a, b)
		}
	}
}

// wordTable is the table of the parser with a key.
func (c *stdConf) wordTable(key string) map[string]int64 {
	for _, v := range c.t.vars("fontconfig") {
		e, ok := c.t.init[v].(*ast.CompositeLit)
		if !ok {
			continue
		}
		if _, isMap := v.Type().Underlying().(*types.Map); !isMap {
			continue
		}
		l := c.t.eval(c.t.infos[v], e)
		out := map[string]int64{}
		for i, k := range l.Keys {
			if s, ok := k.s(); ok {
				if n, ok := l.Vals[i].i(); ok {
					out[s] = n
				}
			}
		}
		if _, ok := out[key]; ok {
			return out
		}
	}
	return nil
}

func stdKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
