package main

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C18: what copies of body content, appending and splitting hand over.

// copied: n is the part of a copy that o is of the original.
func (c *Ctx) copied(q *Path, n, o *Term) bool {
	if n.op == "ld" {
		n = n.args[0]
	}
	if o.op == "ld" {
		o = o.args[0]
	}
	part := func(t *Term) bool { return t.op == "fa" || t.op == "field" }
	for part(n) && part(o) && n.sym == o.sym {
		n, o = n.args[0], o.args[0]
		if c.copyOf(q, n, o) {
			return true
		}
		if o.op == "ld" && o.typ != nil && fieldsOf(o.typ) != nil && c.copyOf(q, n, o.args[0]) {
			return true
		}
	}
	return false
}

// copyOf: n is what a copier made of the value at o.
func (c *Ctx) copyOf(q *Path, n, o *Term) bool {
	for _, ev := range q.ev() {
		if ev.kind != "call" && ev.kind != "reccall" || ev.callee == nil || !c.p.isCopier(ev.callee) {
			continue
		}
		if len(ev.res) == 1 && ev.res[0] == n && len(ev.a) > 0 && unwrap(ev.a[0]) == o {
			return true
		}
	}
	return false
}

// lookedInVain: the path found that a relationship or a media item that was asked for is not there.
func (c *Ctx) lookedInVain(q *Path) bool {
	f := q.st.facts
	var open []*Event
	for _, ev := range q.ev() {
		switch ev.kind {
		case "enter":
			open = append(open, ev)
		case "leave":
			if len(open) == 0 {
				continue
			}
			in := open[len(open)-1]
			open = open[:len(open)-1]
			if in.callee != nil && c.p.relFinder(in.callee) && len(ev.res) == 2 && !f.isNil(ev.res[1]) && (isSentinel(ev.res[1]) || f.nonNil(ev.res[1])) {
				return true
			}
		case "call":
			if ev.callee != nil && c.p.relFinder(ev.callee) && len(ev.res) == 2 && f.nonNil(ev.res[1]) {
				return true
			}
		}
	}
	rels, media := types.Type(nil), c.p.namedType("Media")
	if n := c.p.namedType("Relationship"); n != nil {
		rels = n
	}
	for k, b := range f.bools {
		if b {
			continue
		}
		if k.op == "call" && k.sym == "strings.HasPrefix" {
			return true
		}
		if k.op == "ld" && k.args[0].op == "mi" && k.args[0].sym == "has" {
			if m := k.args[0].args[0]; isDocFieldVal(c.p, m, c.p.docField("map[string]int")) && m.args[0].args[0].op == "ld" {
				return true // the index of the document the content belongs to, not of one that was handed over
			}
		}
	}
	for _, ev := range loopEvents(q) {
		w := walkOf(q, ev.entry)
		if w == nil || w.src == nil || !w.done || w.src.typ == nil {
			continue
		}
		if s, ok := w.src.typ.Underlying().(*types.Slice); ok {
			if rels != nil && types.Identical(s.Elem(), rels) || media != nil && types.Identical(s.Elem(), media) {
				return true
			}
		}
	}
	return false
}

// replaced: fields a copy has of its own: the document it belongs to, ids of the new document.
func (c *Ctx) replaced(st *types.Struct, i int) bool {
	f := st.Field(i)
	if f.Name() == c.p.ownerField || f.Name() == "XMLName" {
		return true
	}
	t := f.Type()
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	if c.p.isRepoType(t) {
		switch t.(*types.Named).Obj().Name() {
		case "NonVisualProperties", "WPDocPr":
			return true
		}
	}
	return strings.HasPrefix(reflect.StructTag(st.Tag(i)).Get("xml"), "r:")
}

type copying struct {
	c     *Ctx
	paths []*Path
	busy  map[[2]*Term]bool
	what  func(string)
}

// same: the new value n says what the old value o said. "" or what is wrong.
func (k *copying) same(q *Path, n, o *Term, t types.Type, where string) string {
	if n == o || n == nil || o == nil {
		if n == o {
			return ""
		}
		return where + " cannot be made out"
	}
	c := k.c
	n, o = unwrap(n), unwrap(o)
	if n == o {
		return ""
	}
	f := q.st.facts
	if c.copied(q, n, o) {
		k.what("copied")
		return ""
	}
	if c.copyOf(q, n, o) {
		k.what("copied")
		return ""
	}
	if n.op == "ta" && n.args[0] == o || o.op == "ta" && o.args[0] == n {
		return ""
	}
	if _, ok := constOf(f, o); ok && n.op == "const" {
		if a, _ := constOf(f, o); a == n.sym {
			return ""
		}
	}
	if st := fieldsOf(t); st != nil {
		if n.op != "struct" && o.op != "struct" {
			return where + " is another value: " + n.String()
		}
		for i := 0; i < st.NumFields(); i++ {
			if c.replaced(st, i) {
				continue
			}
			if s := k.same(q, fieldVal(n, st, i), fieldVal(o, st, i), st.Field(i).Type(), where+"."+st.Field(i).Name()); s != "" {
				return s
			}
		}
		return ""
	}
	if t == nil || types.IsInterface(t) {
		if pt := ptrTypeOf(n); pt != nil {
			t = pt
		}
	}
	if t != nil {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			if n.op == "nil" || f.isNil(n) {
				if f.isNil(o) {
					return ""
				}
				if isPicture(t) && c.lookedInVain(q) {
					return ""
				}
				return where + " is dropped"
			}
			if f.isNil(o) {
				return ""
			}
			if n.op == "obj" {
				if o.op == "ta" || o.typ == nil || !types.Identical(o.typ, n.typ) {
					o = mk("ta", tstr(n.typ), n.typ, stripTA(o))
				}
				key := [2]*Term{n, o}
				if k.busy[key] {
					return ""
				}
				k.busy[key] = true
				defer delete(k.busy, key)
				nv := c.e.load(q.st, n, u.Elem())
				ov := c.e.load(q.st, o, u.Elem())
				k.what("structs")
				return k.same(q, nv, ov, u.Elem(), where)
			}
		case *types.Slice:
			return k.list(q, n, o, nil, where)
		}
	}
	if n.op == "struct" && o.op == "struct" && n.typ != nil {
		return k.same(q, n, o, n.typ, where)
	}
	return where + " becomes " + n.String()
}

// isPicture: what may be dropped for want of its media item.
func isPicture(t types.Type) bool {
	switch strings.TrimPrefix(tstr(t), "*docx.") {
	case "WPInline", "WPAnchor", "Drawing":
		return true
	}
	return false
}

func stripTA(t *Term) *Term {
	for t.op == "ta" {
		t = t.args[0]
	}
	return t
}

func ptrTypeOf(n *Term) types.Type {
	if n.typ == nil {
		return nil
	}
	if _, ok := n.typ.Underlying().(*types.Pointer); ok {
		return n.typ
	}
	return nil
}

// constOf: the constant a value is known to be.
func constOf(f *Facts, t *Term) (string, bool) {
	if t.op == "const" {
		return t.sym, true
	}
	if m := f.in[t]; len(m) == 1 {
		for s := range m {
			return s, true
		}
	}
	return "", false
}

// list: n holds, after start, one counterpart of every element of o, in order.
func (k *copying) list(q *Path, n, o, start *Term, where string) string {
	c := k.c
	f := q.st.facts
	n = plain(n)
	lenT := mk("len", "", types.Typ[types.Int], plain(o))
	none := func() bool {
		iv := f.interval(lenT)
		return iv.hasHi && iv.hi <= 0 || f.isNil(plain(o))
	}
	if start == nil && sameList(n, o) || start != nil && n == start && none() {
		return ""
	}
	isStart := func(i *Term) bool {
		if i == nil {
			return false
		}
		if start == nil {
			return emptyList(i)
		}
		return i == start
	}
	if start == nil && (emptyList(n) || f.isNil(n)) {
		if none() {
			return ""
		}
		return "the elements of " + where + " are dropped"
	}
	// the old elements as they are
	if n.op == "appendslice" && isStart(n.args[0]) && len(n.args) == 2 {
		if start == nil {
			return k.list(q, n.args[1], o, nil, where)
		}
		return k.list(q, n.args[1], o, nil, where)
	}
	a := carriedBy(q, n)
	if a == nil {
		if start != nil {
			return where + " becomes " + n.String()
		}
		b, why := c.builtList(k.paths, q, n)
		if b == nil {
			return where + " becomes " + n.String() + " (" + why + ")"
		}
		if b.count != canonLen(lenT) {
			return where + " gets another number of elements than the original"
		}
		k.what("lists")
		for _, it := range b.items {
			k.what("elements")
			if it.v == nil {
				return "a round leaves an element of " + where + " out"
			}
			if stale(it.q, it.v) {
				return "every round puts the same value into " + where
			}
			if s := k.elem(it.q, it.v, slotOf(o, it.w.idx), where+"[]"); s != "" {
				return s
			}
		}
		return ""
	}
	if !isStart(a.init()) {
		if start != nil {
			return where + " does not start from what was there"
		}
		return where + " does not start empty"
	}
	if _, bad := over(k.paths, q, a.le, o); bad != "" {
		return "the loop that fills " + where + ": " + bad
	}
	k.what("lists")
	for _, x := range roundsOf(k.paths, a.le) {
		k.what("elements")
		w := walkOf(x, a.le)
		if s := k.round(x, a.g, c.nextOf(a, x), plain(o), w.idx, where); s != "" {
			return s
		}
	}
	return ""
}

// round: one round of a loop carries element idx of o over.
func (k *copying) round(x *Path, g, nv, o, idx *Term, where string) string {
	xs, ok := added(g, nv)
	if !ok {
		return "a round does something else with " + where + " than adding at the end"
	}
	for _, v := range xs {
		if stale(x, v) {
			return "every round adds the same value to " + where
		}
	}
	el := slotOf(o, idx)
	switch {
	case len(xs) > 1:
		return "a round adds several elements to " + where
	case len(xs) == 0:
		if x.st.facts.isNil(el) {
			return ""
		}
		if k.c.lookedInVain(x) {
			return k.c.noTarget(x, el)
		}
		return "a round leaves its element out of " + where
	}
	return k.elem(x, xs[0], el, where+"[]")
}

// stale: a round hands out the address of something that was there before its loop began.
func stale(x *Path, v *Term) bool {
	v = unwrap(v)
	return x.outcome == "back" && x.hdr != nil && v.op == "obj" && objNum(v) <= x.hdr.nobj
}

// slotOf: the value of element idx of list o.
func slotOf(o, idx *Term) *Term {
	o = plain(o)
	var et types.Type
	if o.typ != nil {
		if s, ok := o.typ.Underlying().(*types.Slice); ok {
			et = s.Elem()
		}
	}
	if et == nil {
		return nil
	}
	return mk("ld", "", et, mk("ia", "", types.NewPointer(et), o, idx))
}

func (k *copying) elem(x *Path, n, el *Term, where string) string {
	if el == nil {
		return where + " cannot be made out"
	}
	n = unwrap(n)
	var t types.Type
	if n.typ != nil {
		t = n.typ
	}
	if t == nil {
		t = el.typ
	}
	if n == el || stripTA(n) == el {
		return ""
	}
	o := el
	if el.typ != nil && types.IsInterface(el.typ) && t != nil && !types.IsInterface(t) {
		o = mk("ta", tstr(t), t, el)
		if d, ok := x.st.facts.dyn[el]; ok && d != tstr(t) {
			return where + " turns into a " + tstr(t)
		}
		if b, known := x.st.facts.decide(mk("isT", tstr(t), types.Typ[types.Bool], el)); known && !b || !known && x.st.facts.dyn[el] != tstr(t) {
			return where + " becomes a " + tstr(t) + " without being one"
		}
	}
	return k.same(x, n, o, t, where)
}

// noTarget: leaving element el out is right only when it has something to look up.
func (c *Ctx) noTarget(x *Path, el *Term) string {
	h := c.p.namedType("Hyperlink")
	if h == nil || el == nil {
		return ""
	}
	pt := types.NewPointer(h)
	if x.st.facts.dyn[el] != tstr(pt) {
		return "a round leaves out an element that is not a link"
	}
	loc := mk("ta", tstr(pt), pt, el)
	id, anchor := fieldLoc(loc, "ID"), fieldLoc(loc, "Anchor")
	if id == nil || anchor == nil {
		return ""
	}
	f := x.st.facts
	if f.mayBe(c.e.load0(x.st, id), "") && f.mayBeOther(c.e.load0(x.st, anchor), "") {
		return "a link that names a place in the document instead of a relationship may be left out"
	}
	return ""
}

// mayBeOther: t may be something else than s.
func (f *Facts) mayBeOther(t *Term, s string) bool { return !f.mustBe(t, s) }

func checkC18(c *Ctx) string {
	p := c.p
	// copies
	for _, fn := range p.all {
		if !p.isCopier(fn) || len(fn.Blocks) == 0 {
			continue
		}
		c.n("copiers")
		recv := mk("param", fn.Params[0].Name(), fn.Params[0].Type())
		paths := c.paths(fn)
		k := &copying{c: c, paths: paths, busy: map[[2]*Term]bool{}, what: func(s string) { c.n(s) }}
		for _, q := range paths {
			if q.outcome != "return" || len(q.rets) != 1 {
				continue
			}
			c.n("copies")
			n, o := q.rets[0], recv
			t := fn.Signature.Results().At(0).Type()
			rt := recv.typ
			if pt, ok := rt.(*types.Pointer); ok && fieldsOf(t) != nil {
				o = c.e.load(q.st, recv, pt.Elem())
			}
			if _, ok := t.(*types.Pointer); ok && fieldsOf(rt) != nil && n.op == "obj" {
				n = c.e.load(q.st, n, rt)
				t = rt
			}
			if s := k.same(q, n, o, t, recv.sym); s != "" {
				c.fail("copy", fn, lastInstr(q), fn.Name(), "%s", s)
			}
		}
	}
	c.appending()
	c.splitting()
	c.atLeast("copiers", 6)
	c.atLeast("copies", 10)
	c.atLeast("lists", 5)
	c.atLeast("elements", 7)
	c.atLeast("append_rounds", 1)
	c.atLeast("split_rounds", 2)
	c.atLeast("split_ends", 2)
	return "every field of a copy is that of the original, or a copy of it, or a list one loop over the whole original list filled with exactly one such counterpart per element, in order (ids of the new document excepted); a child is left out, and a picture dropped, only on paths that found its relationship or media item missing; appending starts from the items that are there and adds one counterpart of every item of the source; splitting hands every item over to the document being filled, starts a new one exactly where the separator says so and the current one is not empty, goes on from that same item, and returns every non-empty document in order"
}

func (c *Ctx) bodyItems(doc *Term) *Term {
	d := fieldLoc(doc, "Document")
	if d == nil {
		return nil
	}
	b := fieldLoc(d, "Body")
	if b == nil {
		return nil
	}
	return fieldLoc(b, "Items")
}

func (c *Ctx) appending() {
	p := c.p
	fn := p.method("Docx", "AppendFile")
	if fn == nil || len(fn.Params) != 2 {
		c.fail("anchor", nil, nil, "AppendFile", "Docx.AppendFile(other) is gone")
		return
	}
	to := c.bodyItems(mk("param", fn.Params[0].Name(), fn.Params[0].Type()))
	from := c.bodyItems(mk("param", fn.Params[1].Name(), fn.Params[1].Type()))
	if to == nil || from == nil {
		c.fail("anchor", fn, nil, "Items", "a document has no list of items")
		return
	}
	old := mk("ld", "", locType(to), to)
	src := mk("ld", "", locType(from), from)
	paths := c.paths(fn)
	k := &copying{c: c, paths: paths, busy: map[[2]*Term]bool{}, what: func(s string) {
		if s == "elements" {
			c.n("append_rounds")
		}
	}}
	n := 0
	for _, q := range paths {
		if q.outcome != "return" {
			continue
		}
		n++
		if s := k.list(q, c.e.load0(q.st, to), src, old, "Items"); s != "" {
			c.fail("append", fn, lastInstr(q), "Items", "%s", s)
		}
	}
	if n == 0 {
		c.fail("anchor", fn, nil, "AppendFile", "no path of AppendFile returns")
	}
}

// splitting: the loop over the items and the loop over the documents.
func (c *Ctx) splitting() {
	p := c.p
	fn := p.method("Docx", "SplitByParagraph")
	if fn == nil || len(fn.Params) != 2 {
		c.fail("anchor", nil, nil, "SplitByParagraph", "Docx.SplitByParagraph(rule) is gone")
		return
	}
	s := &split{c: c, fn: fn, rule: mk("param", fn.Params[1].Name(), fn.Params[1].Type())}
	s.items = c.bodyItems(mk("param", fn.Params[0].Name(), fn.Params[0].Type()))
	if s.items == nil {
		c.fail("anchor", fn, nil, "Items", "a document has no list of items")
		return
	}
	s.list = mk("ld", "", locType(s.items), s.items)
	s.paths = c.paths(fn)
	s.k = &copying{c: c, paths: s.paths, busy: map[[2]*Term]bool{}, what: func(string) {}}
	n := 0
	for _, q := range s.paths {
		if q.outcome == "panic" {
			continue
		}
		if w := s.judge(q); w != "" {
			c.fail("split", fn, lastInstr(q), "SplitByParagraph", "%s", w)
		}
		n++
	}
	if n == 0 {
		c.fail("anchor", fn, nil, "SplitByParagraph", "no path of SplitByParagraph returns")
	}
}

type split struct {
	c     *Ctx
	fn    *ssa.Function
	k     *copying
	rule  *Term
	items *Term
	list  *Term // the items of the document that is split
	paths []*Path
}

// fill describes a loop that goes over a rest of the items and hands them to one document.
type fill struct {
	le    *LoopEntry
	a     *carried // the items of the document being filled
	rest  *Term    // the list the loop goes over
	from  *Term    // the position it starts at
	ph    *ssa.Phi
	g     *Term // the loop's counter
	idx   *Term // position of the round's element
	in    bool  // the path is in a round
	done  bool  // the list is used up
	doc   *Term
	items *Term
}

// filling finds the innermost loop on q that fills a document made on the way.
func (s *split) filling(q *Path) *fill {
	evs := loopEvents(q)
	for i := len(evs) - 1; i >= 0; i-- {
		le := evs[i].entry
		for loc, g := range le.locs {
			if loc.op != "fa" || loc.sym != "Items" {
				continue
			}
			d := rootOf(loc)
			if d == nil || d.op != "obj" || s.c.bodyItems(d) != loc {
				continue
			}
			f := &fill{le: le, a: &carried{le, nil, loc, g}, doc: d, items: loc}
			for k, v := range q.st.facts.bools {
				if k.op != "bin" || k.sym != "<" || k.args[1].op != "len" {
					continue
				}
				b, o := lin(k.args[0])
				for ph, pg := range le.phis {
					if b != pg || !isIntT(ph.Type()) {
						continue
					}
					f.ph, f.g, f.idx, f.rest = ph, pg, k.args[0], plain(k.args[1].args[0])
					f.from = addConst(le.init[ph], o)
					f.in, f.done = v, !v
				}
			}
			if f.ph != nil {
				return f
			}
		}
	}
	return nil
}

// outer is the loop over the documents: what is left of the items, and the documents so far.
type outer struct {
	le   *LoopEntry
	rest *Term // list from which the next document is filled
	from *Term // position in it
	ph   *ssa.Phi
	docs *Term
	dph  *ssa.Phi
}

func (s *split) outer(q *Path) (*outer, string) {
	evs := loopEvents(q)
	if len(evs) == 0 {
		return nil, "no loop goes over the items"
	}
	le := evs[0].entry
	o := &outer{le: le}
	zero := mkInt(0)
	for ph, g := range le.phis {
		if st, ok := ph.Type().Underlying().(*types.Slice); ok {
			if isPtrNamed(st.Elem(), s.c.p.docxType()) {
				if !emptyList(le.init[ph]) {
					return nil, "the list of documents does not start empty"
				}
				o.docs, o.dph = g, ph
			} else if sameList(le.init[ph], s.list) {
				o.rest, o.from, o.ph = g, zero, ph
			}
		}
	}
	if o.rest == nil {
		for ph, g := range le.phis {
			if !isIntT(ph.Type()) {
				continue
			}
			if v, ok := le.init[ph].intVal(); !ok || v != 0 {
				continue
			}
			// a position moved on from document to document
			o.rest, o.from, o.ph = s.list, g, ph
		}
	}
	if o.rest == nil || o.docs == nil {
		return nil, "no loop makes one document after the other out of what is left of the items"
	}
	return o, ""
}

func isPtrNamed(t, named types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && types.Identical(p.Elem(), named)
}

// asked: what the rule said about element el on q.
func (s *split) asked(q *Path, el *Term) (said, known bool) {
	for _, ev := range q.ev() {
		if ev.kind == "call" && strings.HasPrefix(ev.sym, "dyn:") && len(ev.a) == 1 && len(ev.res) == 1 && stripTA(unwrap(ev.a[0])) == el {
			if v, ok := q.st.facts.decide(ev.res[0]); ok {
				return v, true
			}
		}
	}
	return false, false
}

func (s *split) isPara(q *Path, el *Term) (bool, bool) {
	pt := types.NewPointer(s.c.p.namedType("Paragraph"))
	if d, ok := q.st.facts.dyn[el]; ok {
		return d == tstr(pt), true
	}
	return q.st.facts.decide(mk("isT", tstr(pt), types.Typ[types.Bool], el))
}

func (s *split) judge(q *Path) string {
	f := q.st.facts
	if q.outcome == "return" && len(loopEvents(q)) == 0 {
		iv := f.interval(mk("len", "", types.Typ[types.Int], s.list))
		if iv.hasHi && iv.hi <= 0 || f.isNil(s.list) {
			return ""
		}
		return "the items are not gone through"
	}
	if d, why := s.oneLoop(q); d {
		return why
	}
	o, why := s.outer(q)
	if why != "" {
		return why
	}
	fl := s.filling(q)
	if fl != nil && fl.le == o.le {
		fl = nil
	}
	zeroth := fl != nil && (fl.idx == fl.from || f.interval(fl.idx).hasHi && fl.from.op == "const" && f.interval(fl.idx).hi <= f.interval(fl.from).hi)
	lenOf := func(l *Term) ival { return f.interval(mk("len", "", types.Typ[types.Int], l)) }
	full := func(l *Term) bool { iv := lenOf(l); return iv.hasLo && iv.lo >= 1 }
	empty := func(l *Term) bool { iv := lenOf(l); return emptyList(l) || iv.hasHi && iv.hi <= 0 || f.isNil(l) }
	if fl != nil {
		if !emptyList(fl.a.init()) {
			return "a new document does not start empty"
		}
		if !sameList(fl.rest, o.rest) || fl.from != o.from {
			return "the loop that fills a document does not start where the last one ended"
		}
	}
	switch {
	case q.outcome == "back" && fl != nil && q.hdr == fl.le:
		s.c.n("split_rounds")
		if !fl.in || q.phis[fl.ph] != addConst(fl.g, 1) {
			return "a round does not move on by one item"
		}
		el := slotOf(fl.rest, fl.idx)
		if w := s.k.round(q, fl.a.g, s.c.nextOf(fl.a, q), fl.rest, fl.idx, "Items"); w != "" {
			return w
		}
		if el == nil || f.isNil(el) {
			return ""
		}
		if b, known := s.isPara(q, el); known && !b {
			return ""
		}
		if v, known := s.asked(q, el); known && !v || empty(fl.a.g) || zeroth {
			return ""
		}
		return "a paragraph goes into the current document although the rule may call it a separator and the document is not empty"
	case q.outcome == "back" && q.hdr == o.le:
		s.c.n("split_ends")
		if fl == nil {
			return "a round of the loop over the documents fills none"
		}
		xs, ok := added(o.docs, q.phis[o.dph])
		if !ok || len(xs) != 1 || xs[0] != fl.doc {
			return "the document that was filled is not added, once, to the list of documents"
		}
		if w := s.next(q, o, fl.idx); w != "" {
			return w
		}
		if plain(s.c.e.load0(q.st, fl.items)) != fl.a.g {
			return "the items of the document are changed after it was filled"
		}
		el := slotOf(fl.rest, fl.idx)
		if !fl.in {
			return "a new document is started although no item is left"
		}
		if v, known := s.asked(q, el); !known || !v {
			return "a new document is started at an item the rule did not call a separator"
		}
		if !full(fl.a.g) {
			return "a new document is started although the current one may be empty"
		}
		return ""
	case q.outcome == "back":
		return "" // a loop that does something else
	case q.outcome == "return":
		s.c.n("split_ends")
		if len(q.rets) != 1 {
			return "the result is not a list of documents"
		}
		r := q.rets[0]
		if fl == nil {
			// nothing left
			var none bool
			if o.from.op == "const" {
				none = empty(o.rest)
			} else {
				v, known := f.decide(mk("bin", "<", types.Typ[types.Bool], o.from, mk("len", "", types.Typ[types.Int], o.rest)))
				none = known && !v
			}
			if !none {
				return "the splitting ends although items may be left"
			}
			if r != o.docs {
				return "not all documents are returned: " + r.String()
			}
			return ""
		}
		if !fl.done {
			return "the splitting ends in the middle of the items"
		}
		if plain(s.c.e.load0(q.st, fl.items)) != fl.a.g {
			return "the items of the document are changed after it was filled"
		}
		xs, ok := added(o.docs, r)
		switch {
		case ok && len(xs) == 1 && xs[0] == fl.doc:
			return ""
		case ok && len(xs) == 0 && empty(fl.a.g):
			return ""
		}
		return "the last document is not returned, once, after the others"
	}
	return ""
}

// next: the next document goes on with item idx.
func (s *split) next(q *Path, o *outer, idx *Term) string {
	v := q.phis[o.ph]
	if isIntT(o.ph.Type()) {
		if v == idx {
			return ""
		}
		return "the next document does not go on with the separator"
	}
	if v != nil && v.op == "slice" && plain(v.args[0]) == plain(o.rest) && v.args[1] == idx && (v.args[2] == nil || v.args[2].op == "len" && sameList(v.args[2].args[0], o.rest)) {
		return ""
	}
	return "the next document does not go on with the separator"
}

// oneLoop: the form with a single loop over all items that carries the document being filled. The
// documents are listed when they are started, or when they are complete.
func (s *split) oneLoop(q *Path) (bool, string) {
	evs := loopEvents(q)
	le := evs[0].entry
	var cur, docs *ssa.Phi
	for ph := range le.phis {
		if isPtrNamed(ph.Type(), s.c.p.docxType()) {
			cur = ph
		}
		if st, ok := ph.Type().Underlying().(*types.Slice); ok && isPtrNamed(st.Elem(), s.c.p.docxType()) {
			docs = ph
		}
	}
	w := walkOf(q, le)
	if cur == nil || docs == nil || w == nil || w.src == nil || !sameList(w.src, s.list) {
		return false, ""
	}
	f := q.st.facts
	cg, dg := le.phis[cur], le.phis[docs]
	if !w.first {
		return true, "the loop over the items does not start with the first"
	}
	if !emptyList(le.init[docs]) || le.init[cur].op != "nil" {
		return true, "the splitting does not start without a document"
	}
	loc := s.c.bodyItems(cg)
	old := mk("ld", "", locType(loc), loc)
	if g := stem(s.c.e.load0(q.st, loc)); g.op == "ld" && g.args[0] == loc || g == le.locs[loc] {
		old = g
	}
	early := true // documents are listed when they are started
	for _, x := range roundsOf(s.paths, le) {
		if xs, ok := added(dg, x.phis[docs]); ok && len(xs) == 1 && xs[0] == cg {
			early = false
		}
	}
	switch {
	case q.outcome == "back" && q.hdr == le:
		s.c.n("split_rounds")
		if !w.steps(q) {
			return true, "a round does not move on by one item"
		}
		el := slotOf(s.list, w.idx)
		said, known := s.asked(q, el)
		nd := q.phis[cur]
		xs, ok := added(dg, q.phis[docs])
		if !ok || len(xs) > 1 {
			return true, "a round does something else with the list of documents than adding one at the end"
		}
		if nd == cg {
			if len(xs) != 0 {
				return true, "the document is listed while it is being filled"
			}
			if !f.nonNil(cg) {
				return true, "a round goes on with a document that may not be there"
			}
			if w := s.k.round(q, old, s.c.e.load0(q.st, loc), s.list, w.idx, "Items"); w != "" {
				return true, w
			}
			if b, k := s.isPara(q, el); k && !b || known && !said || f.isNil(el) {
				return true, ""
			}
			return true, "a paragraph goes into the current document although the rule may call it a separator"
		}
		s.c.n("split_ends")
		if nd == nil || nd.op != "obj" {
			return true, "a round goes on with " + nd.String()
		}
		items := plain(s.c.e.load0(q.st, s.c.bodyItems(nd)))
		if items.op != "append" || !emptyList(items.args[0]) || len(items.args) != 2 {
			return true, "a new document does not start with the one item of its round"
		}
		if w := s.k.elem(q, items.args[1], el, "Items[]"); w != "" {
			return true, w
		}
		if !f.isNil(cg) && !(known && said) {
			return true, "a new document is started at an item the rule did not call a separator"
		}
		switch {
		case early && (len(xs) != 1 || xs[0] != nd):
			return true, "a new document is not listed"
		case !early && f.isNil(cg) && len(xs) != 0, !early && !f.isNil(cg) && (len(xs) != 1 || xs[0] != cg):
			return true, "the complete document is not listed, once"
		}
		return true, ""
	case q.outcome == "return":
		s.c.n("split_ends")
		if !w.done {
			return true, "the splitting ends in the middle of the items"
		}
		xs, ok := added(dg, q.rets[0])
		switch {
		case early && ok && len(xs) == 0:
		case !early && ok && len(xs) == 1 && xs[0] == cg && f.nonNil(cg):
		case !early && ok && len(xs) == 0 && f.isNil(cg):
		default:
			return true, "the documents returned are not those that were filled"
		}
		return true, ""
	}
	return true, ""
}
