package main

import (
	"go/types"
	"reflect"
	"sort"
	"strings"
)

// C12: every namespace prefix written is declared.
//
// The struct tags give the tree of elements that can be written and the prefixes each of them uses
// and declares. A declaring attribute that some element relies on must hold a namespace in every
// value that the readers, builders and copiers hand on.

// namespaces of WordprocessingML and DrawingML documents, by their usual prefix.
var namespaces = map[string][]string{
	"w":   {"http://schemas.openxmlformats.org/wordprocessingml/2006/main", "http://purl.oclc.org/ooxml/wordprocessingml/main"},
	"r":   {"http://schemas.openxmlformats.org/officeDocument/2006/relationships", "http://purl.oclc.org/ooxml/officeDocument/relationships"},
	"wp":  {"http://schemas.openxmlformats.org/drawingml/2006/wordprocessingDrawing", "http://purl.oclc.org/ooxml/drawingml/wordprocessingDrawing"},
	"a":   {"http://schemas.openxmlformats.org/drawingml/2006/main", "http://purl.oclc.org/ooxml/drawingml/main"},
	"pic": {"http://schemas.openxmlformats.org/drawingml/2006/picture", "http://purl.oclc.org/ooxml/drawingml/picture"},
	"wps": {"http://schemas.microsoft.com/office/word/2010/wordprocessingShape"},
	"wpc": {"http://schemas.microsoft.com/office/word/2010/wordprocessingCanvas"},
	"wpg": {"http://schemas.microsoft.com/office/word/2010/wordprocessingGroup"},
	"mc":  {"http://schemas.openxmlformats.org/markup-compatibility/2006"},
	"":    {"http://schemas.openxmlformats.org/package/2006/relationships"},
}

type nsDecl struct {
	field  string
	prefix string
}

type nsNode struct {
	typ   *types.Named
	decls []nsDecl
	attrs []string // names of attributes
	kids  []nsKid
}

type nsKid struct {
	names []string // element names, outermost first
	typ   *types.Named
	field string
}

func xmlTag(st *types.Struct, i int) (name string, opts map[string]bool) {
	parts := strings.Split(reflect.StructTag(st.Tag(i)).Get("xml"), ",")
	opts = map[string]bool{}
	for _, o := range parts[1:] {
		opts[o] = true
	}
	name = parts[0]
	if j := strings.LastIndexByte(name, ' '); j >= 0 {
		name = name[j+1:]
	}
	return name, opts
}

func ownName(t types.Type) string {
	st := fieldsOf(t)
	if st == nil {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "XMLName" {
			n, _ := xmlTag(st, i)
			return n
		}
	}
	return ""
}

func prefixOf(name string) string {
	if i := strings.IndexByte(name, ':'); i >= 0 {
		return name[:i]
	}
	return ""
}

type nsGraph struct {
	c     *Ctx
	nodes map[*types.Named]*nsNode
}

func (g *nsGraph) node(n *types.Named) *nsNode {
	if x := g.nodes[n]; x != nil {
		return x
	}
	x := &nsNode{typ: n}
	g.nodes[n] = x
	g.fill(x, n.Underlying(), 0)
	return x
}

func (g *nsGraph) fill(x *nsNode, t types.Type, depth int) {
	st, ok := t.(*types.Struct)
	if !ok || depth > 6 {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Embedded() {
			t := f.Type()
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			g.fill(x, t.Underlying(), depth+1)
			continue
		}
		if !f.Exported() || f.Name() == "XMLName" || reflect.StructTag(st.Tag(i)).Get("xml") == "-" {
			continue
		}
		name, o := xmlTag(st, i)
		if o["innerxml"] || o["any"] {
			g.c.fail("verbatim", nil, nil, x.typ.Obj().Name()+"."+f.Name(), "%s.%s is written as it is: the prefixes in it are not accounted for", x.typ.Obj().Name(), f.Name())
			continue
		}
		if o["chardata"] || o["comment"] || o["cdata"] {
			continue
		}
		if o["attr"] {
			switch {
			case name == "xmlns":
				x.decls = append(x.decls, nsDecl{f.Name(), ""})
			case strings.HasPrefix(name, "xmlns:"):
				x.decls = append(x.decls, nsDecl{f.Name(), name[6:]})
			case name != "":
				x.attrs = append(x.attrs, name)
			}
			continue
		}
		t := f.Type()
		for {
			if s, ok := t.Underlying().(*types.Slice); ok {
				t = s.Elem()
				continue
			}
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
				continue
			}
			break
		}
		if _, ok := t.Underlying().(*types.Interface); ok {
			for _, k := range ifaceSlots[x.typ.Obj().Name()+"."+f.Name()] {
				if n, ok := g.c.p.namedType(k).(*types.Named); ok {
					x.kids = append(x.kids, nsKid{[]string{ownName(n)}, n, f.Name()})
				}
			}
			continue
		}
		n, _ := t.(*types.Named)
		if name == "" {
			name = ownName(t)
		}
		if name == "" {
			name = f.Name()
		}
		if n != nil && fieldsOf(n) == nil {
			n = nil
		}
		x.kids = append(x.kids, nsKid{strings.Split(name, ">"), n, f.Name()})
	}
}

type nsUse struct {
	prefix string
	where  string
}

// undeclared: the prefixes used at or under element name of type root that no element around declares,
// when the declarations in without do not count.
func (g *nsGraph) undeclared(root *types.Named, name string, without map[[2]string]bool) []nsUse {
	var r []nsUse
	seen := map[string]bool{}
	var visit func(n *types.Named, names []string, have map[string]bool, where string)
	use := func(name string, have map[string]bool, where string) {
		p := prefixOf(name)
		if p == "" || p == "xml" || p == "xmlns" || have[p] {
			return
		}
		r = append(r, nsUse{p, where})
	}
	visit = func(n *types.Named, names []string, have map[string]bool, where string) {
		own := map[string]bool{}
		for p := range have {
			own[p] = true
		}
		var x *nsNode
		if n != nil {
			x = g.node(n)
			for _, d := range x.decls {
				if !without[[2]string{n.Obj().Name(), d.field}] {
					own[d.prefix] = true
				}
			}
		}
		for i, nm := range names {
			if i+1 == len(names) {
				use(nm, own, where)
			} else {
				use(nm, have, where)
			}
		}
		if x == nil {
			return
		}
		var hs []string
		for p := range own {
			hs = append(hs, p)
		}
		sort.Strings(hs)
		k := n.Obj().Name() + "|" + strings.Join(hs, ",")
		if seen[k] {
			return
		}
		seen[k] = true
		g.c.n("elements")
		for _, a := range x.attrs {
			g.c.n("attributes")
			use(a, own, n.Obj().Name()+"@"+a)
		}
		for _, k := range x.kids {
			visit(k.typ, k.names, own, n.Obj().Name()+"."+k.field)
		}
	}
	visit(root, []string{name}, map[string]bool{}, root.Obj().Name())
	return r
}

// nsKept: a declaring attribute that decoding does not set.
func (p *Program) nsKept(loc *Term) bool {
	if p.nsKeys == nil {
		p.nsKeys = map[string]bool{}
		written := map[string]bool{}
		for _, f := range p.all {
			if isReader(f) && p.inScope(f) {
				for k := range p.mods(f) {
					written[k] = true
				}
			}
		}
		sc := p.rootPkg.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			st := fieldsOf(tn.Type())
			if st == nil {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				name, o := xmlTag(st, i)
				k := tstr(tn.Type()) + "." + st.Field(i).Name()
				if o["attr"] && strings.HasPrefix(name, "xmlns:") && !written[k] {
					p.nsKeys[k] = true
				}
			}
		}
	}
	return loc.op == "fa" && p.nsKeys[fieldKey(loc)]
}

// nsNeed: a field of a type, reached by value, that must hold a namespace.
type nsNeed struct {
	path   []string
	prefix string
}

type nsCheck struct {
	c     *Ctx
	need  map[*types.Named][]nsNeed
	sets  map[string]bool // "Type.path": readers that always leave the field set
	paths []*Path
	recv  *Term // what a reader fills, which holds nothing yet
}

func checkC12(c *Ctx) string {
	g := &nsGraph{c: c, nodes: map[*types.Named]*nsNode{}}
	type root struct {
		n    *types.Named
		name string
	}
	var roots []root
	for _, r := range []struct{ t, def string }{{"Document", "w:document"}, {"Relationships", "Relationships"}} {
		n, ok := c.p.namedType(r.t).(*types.Named)
		if !ok {
			c.fail("anchor", nil, nil, r.t, "type %s not found", r.t)
			continue
		}
		nm := ownName(n)
		if nm == "" {
			nm = n.Obj().Name()
		}
		roots = append(roots, root{n, nm})
	}
	all := map[nsUse]bool{}
	for _, r := range roots {
		for _, u := range g.undeclared(r.n, r.name, nil) {
			if !all[u] {
				all[u] = true
				c.fail("prefix", nil, nil, u.where+" "+u.prefix, "%s is written with prefix %s, which no element around it declares", u.where, u.prefix)
			}
		}
	}
	// declarations something relies on
	k := &nsCheck{c: c, need: map[*types.Named][]nsNeed{}, sets: map[string]bool{}}
	needed := map[*types.Named][]nsDecl{}
	var order []*types.Named
	for n := range g.nodes {
		order = append(order, n)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].Obj().Name() < order[j].Obj().Name() })
	for _, n := range order {
		for _, d := range g.nodes[n].decls {
			relied := d.prefix == "" // the default namespace of the whole part
			for _, r := range roots {
				for _, u := range g.undeclared(r.n, r.name, map[[2]string]bool{{n.Obj().Name(), d.field}: true}) {
					if !all[u] {
						relied = true
					}
				}
			}
			if relied {
				c.n("declarations relied on")
				needed[n] = append(needed[n], d)
			}
		}
	}
	// by-value holders
	sc := c.p.rootPkg.Types.Scope()
	var collect func(t types.Type, d int) []nsNeed
	collect = func(t types.Type, d int) []nsNeed {
		n, ok := t.(*types.Named)
		if !ok || d > 4 {
			return nil
		}
		var r []nsNeed
		for _, x := range needed[n] {
			r = append(r, nsNeed{[]string{x.field}, x.prefix})
		}
		if st := fieldsOf(n); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				for _, x := range collect(st.Field(i).Type(), d+1) {
					r = append(r, nsNeed{append([]string{st.Field(i).Name()}, x.path...), x.prefix})
				}
			}
		}
		return r
	}
	for _, nm := range sc.Names() {
		if tn, ok := sc.Lookup(nm).(*types.TypeName); ok {
			if n, ok := tn.Type().(*types.Named); ok {
				if r := collect(n, 0); len(r) > 0 {
					k.need[n] = r
				}
			}
		}
	}
	k.readers()
	for _, fn := range c.p.allEntries() {
		k.paths = c.paths(fn)
		for _, q := range k.paths {
			if q.outcome == "panic" {
				continue
			}
			if kind, _ := retErr(q); q.outcome == "return" && kind == "err" {
				continue
			}
			for _, s := range k.judge(q) {
				c.fail("declared", fn, nil, s, "%s", s)
			}
		}
	}
	c.atLeast("elements", 60)
	c.atLeast("declarations relied on", 6)
	c.atLeast("values", 8)
	return "in the tree of elements given by the struct tags every prefix is declared by the element or one around it; every declaring attribute something relies on holds the namespace of its prefix in every value handed on by readers, builders and copiers"
}

// readers: which readers leave which needed fields set.
func (k *nsCheck) readers() {
	for n, needs := range k.need {
		f := k.c.p.hasUnmarshal(n)
		if f == nil {
			continue
		}
		recv := mk("param", f.Params[0].Name(), f.Params[0].Type())
		k.paths = k.c.paths(f)
		k.recv = recv
		for _, nd := range needs {
			ok := true
			for _, q := range k.paths {
				if q.outcome != "return" {
					continue
				}
				if kind, _ := retErr(q); kind == "err" {
					continue
				}
				loc := locOf(recv, nd.path)
				if !k.set(q, k.c.e.load0(q.st, loc), nd.prefix, 0) {
					ok = false
				}
			}
			if ok {
				k.c.n("readers that set")
				k.sets[n.Obj().Name()+"."+strings.Join(nd.path, ".")] = true
			}
		}
	}
	k.recv = nil
}

func locOf(p *Term, path []string) *Term {
	for _, n := range path {
		p = fieldLoc(p, n)
		if p == nil {
			return nil
		}
	}
	return p
}

// set: v is the namespace of the prefix: the usual name, or what a source declared for it.
func (k *nsCheck) set(q *Path, v *Term, prefix string, depth int) bool {
	if v == nil || depth > 6 {
		return false
	}
	if s, ok := v.strVal(); ok {
		for _, n := range namespaces[prefix] {
			if s == n {
				return true
			}
		}
		return false
	}
	if v.op == "ld" && v.args[0].op == "fa" && v.args[0].sym == "Value" && isNamed(locType(v.args[0].args[0]), "encoding/xml", "Attr") {
		// what the source declares for the prefix
		nm := fieldLoc(fieldLoc(v.args[0].args[0], "Name"), "Local")
		if nm != nil && q.st.facts.mustBe(k.c.e.load0(q.st, nm), prefix) {
			return true
		}
	}
	if v.op == "ld" && v.args[0].op == "fa" && (v.args[0].args[0].op != "obj" || depth > 0) {
		// what another value of the kind has, which was established where that was made
		if n, ok := locType(v.args[0].args[0]).(*types.Named); ok && rootOf(v.args[0]).op != "obj" && rootOf(v.args[0]) != k.recv {
			for _, nd := range k.need[n] {
				if len(nd.path) == 1 && nd.path[0] == v.args[0].sym && nd.prefix == prefix {
					return true
				}
			}
		}
	}
	if v.op == "ite" || v.op == "phi" {
		return false
	}
	if a := carriedBy(q, v); a != nil {
		if !k.set(q, a.init(), prefix, depth+1) {
			return false
		}
		for _, x := range roundsOf(k.paths, a.le) {
			if nv := k.c.nextOf(a, x); nv != a.g && !k.set(x, nv, prefix, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// judge looks at everything q hands on.
func (k *nsCheck) judge(q *Path) []string {
	c := k.c
	var bad []string
	f := q.st.facts
	_ = f
	roots := handedOn(q)
	r := c.reach(q, roots)
	var objs []*Term
	for o := range r.objs {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	for _, o := range objs {
		n, ok := locType(o).(*types.Named)
		if !ok || len(k.need[n]) == 0 {
			continue
		}
		if q.outcome == "back" && q.hdr != nil && objNum(o) <= q.hdr.nobj {
			continue // still being put together
		}
		for _, nd := range k.need[n] {
			c.n("values")
			loc := locOf(o, nd.path)
			v := c.e.load0(q.st, loc)
			if k.set(q, v, nd.prefix, 0) || k.decoded(q, loc) {
				continue
			}
			bad = append(bad, "a "+n.Obj().Name()+" is handed on whose "+strings.Join(nd.path, ".")+" may not declare prefix "+nd.prefix)
		}
	}
	// values written into memory that was there before
	for _, ev := range q.ev() {
		if ev.kind != "store" || rootOf(ev.a[0]).op == "obj" {
			continue
		}
		loc := ev.a[0]
		if loc.op == "fa" {
			if n, ok := locType(loc.args[0]).(*types.Named); ok {
				for _, nd := range k.need[n] {
					if len(nd.path) == 1 && nd.path[0] == loc.sym {
						c.n("stores")
						if !k.set(q, c.e.load0(q.st, loc), nd.prefix, 0) {
							bad = append(bad, n.Obj().Name()+"."+loc.sym+" is overwritten with what may not be the namespace of "+nd.prefix)
						}
					}
				}
			}
		}
	}
	var vals []*Term
	for v := range r.vals {
		if v.op == "struct" {
			vals = append(vals, v)
		}
	}
	sort.Slice(vals, func(i, j int) bool { return vals[i].id < vals[j].id })
	for _, v := range vals {
		n, ok := v.typ.(*types.Named)
		if !ok {
			continue
		}
		for _, nd := range k.need[n] {
			c.n("values")
			x := v
			for _, name := range nd.path {
				st := fieldsOf(x.typ)
				i := fieldNo(st, name)
				if i < 0 {
					x = nil
					break
				}
				x = fieldVal(x, st, i)
			}
			if x != nil && !k.set(q, x, nd.prefix, 0) {
				bad = append(bad, "a "+n.Obj().Name()+" is handed on whose "+strings.Join(nd.path, ".")+" may not declare prefix "+nd.prefix)
			}
		}
	}
	return bad
}

func fieldNo(st *types.Struct, name string) int {
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// decoded: the last thing that happened to loc is a reader that leaves it set.
func (k *nsCheck) decoded(q *Path, loc *Term) bool {
	ok := false
	for _, ev := range q.ev() {
		switch ev.kind {
		case "call", "reccall":
			for i, a := range ev.a {
				a = unwrap(a)
				if i > 2 || a == nil {
					continue
				}
				if n, is := namedOf(a); is {
					for _, nd := range k.need[n] {
						if locOf(a, nd.path) == loc && k.sets[n.Obj().Name()+"."+strings.Join(nd.path, ".")] && (strings.Contains(ev.sym, ".Decode") || ev.callee != nil && isReader(ev.callee)) {
							ok = true
						}
					}
				}
			}
		case "store":
			if ev.a[0] == loc {
				ok = k.set(q, ev.a[1], k.prefixAt(loc), 0)
			}
		}
	}
	return ok
}

func (k *nsCheck) prefixAt(loc *Term) string {
	if n, ok := namedOf(loc.args[0]); ok {
		for _, nd := range k.need[n] {
			if len(nd.path) == 1 && nd.path[0] == loc.sym {
				return nd.prefix
			}
		}
	}
	return "?"
}

func namedOf(p *Term) (*types.Named, bool) {
	if p == nil || p.typ == nil {
		return nil, false
	}
	t := locType(p)
	if t == nil {
		return nil, false
	}
	n, ok := t.(*types.Named)
	return n, ok
}
