package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// docOf: the document whose field (by name) holds the value t on path q: the address of the
// document struct, or nil.
func (c *Ctx) docOf(q *Path, t *Term, field string) *Term {
	if t == nil {
		return nil
	}
	if t.op == "ld" && isDocFieldLoc(c.p, t.args[0], field) {
		return t.args[0].args[0]
	}
	for loc, v := range q.st.heap {
		if v == t && isDocFieldLoc(c.p, loc, field) {
			return loc.args[0]
		}
	}
	return nil
}

// docField of the media list, the index over it, the relationship list and their element type.
type docShape struct {
	media, idx  string
	mediaT      string
	name, data  string
	rid, imgid  string
	relF, relsF string
}

func (c *Ctx) shape() *docShape {
	s := &docShape{media: c.p.docField("[]docx.Media"), idx: c.p.docField("map[string]int"), mediaT: "docx.Media", name: "Name", data: "Data"}
	s.relF = c.p.docField("docx.Relationships")
	s.relsF = "Relationship"
	return s
}

func structField(v *Term, name string) *Term {
	if v == nil || v.typ == nil {
		return nil
	}
	st := fieldsOf(v.typ)
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return fieldVal(v, st, i)
		}
	}
	return nil
}

// freshDoc: the document was allocated by the analysed code.
func freshDoc(d *Term) bool { return d != nil && rootOf(d).op == "obj" }

func isLenOf(s *State, v, l *Term) bool {
	return v != nil && (v == lenOf(s, l) || v.op == "len" && sameList(v.args[0], l))
}

// ---------------------------------------------------------------- C20

func checkC20(c *Ctx) string {
	p := c.p
	rule := "on every path of every entry point, each store into a document's media index is paired with an append of a media item of that very name at exactly the stored position (or indexes every element of the list a new document is given, front to back); the index is never deleted from, cleared or replaced in an existing document, positions of stored items never change, the list is handed to nothing that could reorder it, and Media answers with the indexed element or nil"
	sh := c.shape()
	if sh.media == "" || sh.idx == "" {
		c.fail("anchor", nil, nil, "fields", "the document has no media list or no media index any more")
		return rule
	}
	isMediaList := func(t types.Type) bool {
		return t != nil && tstr(t) == "[]docx.Media"
	}
	for _, fn := range p.allEntries() {
		for _, q := range c.paths(fn) {
			if q.outcome == "panic" {
				continue
			}
			c.mediaPath(fn, q, sh, isMediaList)
		}
	}
	// the look-up
	fn := p.method("Docx", "Media")
	if fn == nil {
		c.fail("anchor", nil, nil, "Media", "Docx.Media is gone")
		return rule
	}
	name := mk("param", fn.Params[1].Name(), fn.Params[1].Type())
	f := mk("param", fn.Params[0].Name(), fn.Params[0].Type())
	for _, q := range c.paths(fn) {
		if q.outcome == "panic" {
			continue
		}
		c.pure(fn, q)
		if q.outcome != "return" {
			c.fail("lookup", fn, nil, "loop", "Media searches in a loop instead of asking the index")
			continue
		}
		var m *Term
		for _, ev := range q.ev() {
			if ev.kind == "mapget" && c.docOf(q, ev.a[0], sh.idx) == f {
				if ev.a[1] != name {
					c.fail("lookup", fn, ev.instr, "key", "Media asks the index for another name than the given one")
				}
				m = ev.a[0]
			}
		}
		if m == nil {
			c.fail("lookup", fn, nil, "index", "Media answers without asking the index")
			continue
		}
		has, known := hasKey(q, m, name)
		r := q.rets[0]
		switch {
		case r.op == "nil" || q.st.facts.isNil(r):
			c.n("lookup_misses")
			pos := mk("ld", "", types.Typ[types.Int], mk("mi", "", types.NewPointer(types.Typ[types.Int]), m, name))
			iv := q.st.facts.interval(pos)
			l := fieldLocOf(f, p, sh.media)
			in, inKnown := q.st.facts.decide(mk("bin", "<", types.Typ[types.Bool], pos, lenOf(q.st, c.e.load0(q.st, l))))
			// indexed positions are always inside the list (the other rules)
			if iv.hasHi && iv.hi < 0 || inKnown && !in {
				continue
			}
			if !known || has {
				c.fail("lookup", fn, nil, "lost", "Media answers nil although the name may be indexed")
			}
		default:
			c.n("lookup_hits")
			if !known || !has {
				c.fail("lookup", fn, nil, "phantom", "Media answers with an item although the name may not be indexed")
			}
			pos := mk("ld", "", types.Typ[types.Int], mk("mi", "", types.NewPointer(types.Typ[types.Int]), m, name))
			if !(r.op == "ia" && c.docOf(q, plain(r.args[0]), sh.media) == f && r.args[1] == pos) {
				c.fail("lookup", fn, nil, "position", "Media answers with %v, not with the element at the indexed position", r)
			}
		}
	}
	c.atLeast("media_appends", 3)
	c.atLeast("index_stores", 4)
	c.atLeast("lookup_hits", 1)
	c.atLeast("lookup_misses", 1)
	return rule
}

func (c *Ctx) mediaPath(fn *ssa.Function, q *Path, sh *docShape, isMediaList func(types.Type) bool) {
	type add struct {
		doc, old, item *Term
		ev             *Event
		used           bool
	}
	var adds []*add
	var sets []*Event
	evs := q.ev()
	for _, ev := range evs {
		switch ev.kind {
		case "store":
			loc, v := ev.a[0], ev.a[1]
			if isDocFieldLoc(c.p, loc, sh.media) {
				d := loc.args[0]
				switch {
				case v.op == "append" && len(v.args) == 2 && c.docOfList(q, v.args[0], d, sh):
					adds = append(adds, &add{doc: d, old: v.args[0], item: v.args[1], ev: ev})
					c.n("media_appends")
				case v.op == "ld" && v.args[0] == loc:
				case freshDoc(d):
				default:
					c.fail("list", fn, ev.instr, "store", "the media list of a document becomes %v, which is not the old list and one more item", v)
				}
				continue
			}
			if isDocFieldLoc(c.p, loc, sh.idx) {
				if !freshDoc(loc.args[0]) {
					c.fail("index", fn, ev.instr, "replaced", "the media index of an existing document is replaced")
				} else if !(v.op == "obj" || v.op == "nil") {
					c.fail("index", fn, ev.instr, "shared", "a new document gets the media index %v, which is not a new one", v)
				}
				continue
			}
			// element writes
			if rootOf(loc).op != "obj" {
				for l := loc; l != nil && (l.op == "fa" || l.op == "ia"); l = l.args[0] {
					if l.op == "ia" && l.args[0].typ != nil && isMediaList(l.args[0].typ) && !(loc.op == "fa" && loc.sym == sh.data && loc.args[0] == l) {
						c.fail("moved", fn, ev.instr, "element", "a stored media item is overwritten in place")
					}
				}
				if isNamed(locType(loc), c.p.root.Pkg.Path(), "Media") || loc.op == "fa" && loc.sym == sh.name && isNamed(locType(loc.args[0]), c.p.root.Pkg.Path(), "Media") {
					c.fail("moved", fn, ev.instr, "element", "a stored media item is renamed or overwritten in place")
				}
				if types.Identical(locType(loc), c.p.docxType()) {
					c.fail("index", fn, ev.instr, "whole", "a whole document is overwritten")
				}
			}
		case "mapset":
			if c.docOf(q, ev.a[0], sh.idx) != nil || isIdxMap(q, ev.a[0], sh) {
				sets = append(sets, ev)
			}
		case "mapdel", "clear":
			if c.docOf(q, ev.a[0], sh.idx) != nil {
				c.fail("index", fn, ev.instr, "deleted", "names are removed from the media index")
			}
			if ev.kind == "clear" && ev.a[0].typ != nil && isMediaList(ev.a[0].typ) {
				c.fail("moved", fn, ev.instr, "clear", "the media list is cleared in place")
			}
		case "copy":
			if ev.a[0].typ != nil && isMediaList(ev.a[0].typ) && rootOf(ev.a[0]).op != "obj" {
				c.fail("moved", fn, ev.instr, "copy", "media items are copied over stored ones")
			}
		case "call":
			for _, a := range ev.a {
				u := unwrap(a)
				if u != nil && u.typ != nil && c.docOf(q, u, sh.media) != nil && isMediaList(u.typ) {
					c.fail("moved", fn, ev.instr, "handed out "+ev.sym, "the media list is handed to %s, which may reorder it", ev.sym)
				}
			}
		}
	}
	for _, ev := range sets {
		c.n("index_stores")
		d := c.docOf(q, ev.a[0], sh.idx)
		key, val := ev.a[1], ev.a[2]
		ok := false
		for _, a := range adds {
			if a.used || d != nil && a.doc != d || !isLenOf(q.st, val, a.old) {
				continue
			}
			if structField(a.item, sh.name) == key {
				a.used = true
				ok = true
				break
			}
		}
		if ok {
			continue
		}
		// indexing a whole list
		if d != nil && freshDoc(d) {
			if w := walkAt(q, ev); w != nil && w.list != nil && w.first && w.round {
				l := c.e.load0(q.st, fieldLocOf(d, c.p, sh.media))
				if sameList(w.src, l) && val == w.idx && isElemField(key, w, sh.name) {
					c.n("indexed_lists")
					if q.outcome == "back" && !w.steps(q) {
						c.fail("index", fn, ev.instr, "step", "indexing a media list skips items")
					}
					continue
				}
			}
		}
		c.fail("pair", fn, ev.instr, "index store", "the media index stores %v for the name %v without that item being at that position", val, key)
	}
	for _, a := range adds {
		if !a.used {
			c.fail("pair", fn, a.ev.instr, "append", "a media item is added without being indexed under its name at its position")
		}
	}
	// documents that are given a list must have indexed all of it
	if q.outcome == "return" {
		for _, ev := range evs {
			if !(ev.kind == "store" && isDocFieldLoc(c.p, ev.a[0], sh.media) && freshDoc(ev.a[0].args[0])) {
				continue
			}
			v := ev.a[1]
			b := plain(v)
			if b.op == "append" || b.op == "nil" || b.op == "sym" || rootOf(b).op == "obj" {
				continue
			}
			if iv := q.st.facts.interval(lenOf(q.st, b)); iv.hasHi && iv.hi == 0 {
				continue
			}
			done := false
			for _, le := range loopEvents(q) {
				w := walkOf(q, le.entry)
				if w != nil && w.list != nil && w.first && w.done && sameList(w.src, v) {
					done = true
				}
			}
			if !done {
				c.fail("unindexed", fn, ev.instr, "new document", "a new document is given the media list %v without every item being indexed", v)
			}
		}
	}
}

// walkAt: the innermost loop walk the event lies in.
func walkAt(q *Path, at *Event) *Walk {
	var le *LoopEntry
	for _, ev := range q.ev() {
		if ev == at {
			break
		}
		if ev.kind == "loop" && ev.entry != nil {
			le = ev.entry
		}
	}
	if le == nil {
		return nil
	}
	return walkOf(q, le)
}

func (c *Ctx) docOfList(q *Path, l, d *Term, sh *docShape) bool {
	// the list being extended is the one the document held before
	l = plain(l)
	if l.op == "ld" && isDocFieldLoc(c.p, l.args[0], sh.media) {
		return l.args[0].args[0] == d
	}
	// a widened or fresh value of the same field
	return l.op == "sym" && (strings.HasPrefix(l.sym, "~") && strings.Contains(l.sym, "."+sh.media+"#") || strings.HasPrefix(l.sym, "?mod")) ||
		l.op == "append" || freshDoc(d) && (l.op == "nil" || l.op == "slice" || strings.HasPrefix(l.op, "mk"))
}

func isIdxMap(q *Path, m *Term, sh *docShape) bool {
	return m.op == "ld" && m.args[0].op == "fa" && m.args[0].sym == sh.idx
}

func fieldLocOf(d *Term, p *Program, name string) *Term {
	st := fieldsOf(p.docxType())
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return faddr(d, st, i)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C09

const (
	relLink  = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink"
	relImage = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/image"
)

// relListLoc: loc is the relationship list of a document; returns the document.
func (c *Ctx) relListLoc(loc *Term, sh *docShape) *Term {
	if loc != nil && loc.op == "fa" && loc.sym == sh.relsF && isDocFieldLoc(c.p, loc.args[0], sh.relF) {
		return loc.args[0].args[0]
	}
	return nil
}

// idNumber: the number n when t is "rId" followed by n in decimal.
func idNumber(t *Term) *Term {
	if t == nil || t.op != "bin" || t.sym != "+" {
		return nil
	}
	if s, ok := t.args[0].strVal(); !ok || s != "rId" {
		return nil
	}
	k := t.args[1]
	if k.op != "call" {
		return nil
	}
	switch k.sym {
	case "strconv.Itoa":
	case "strconv.FormatInt", "strconv.FormatUint":
		if b, ok := k.args[1].intVal(); !ok || b != 10 {
			return nil
		}
	default:
		return nil
	}
	n := k.args[0]
	for n.op == "conv" && isIntT(n.typ) && isIntT(n.args[0].typ) {
		n = n.args[0]
	}
	return n
}

func constIDNumber(t *Term) (int64, bool) {
	s, ok := t.strVal()
	if !ok || !strings.HasPrefix(s, "rId") {
		return 0, false
	}
	n, err := strconv.ParseInt(s[3:], 10, 64)
	return n, err == nil
}

func checkC09(c *Ctx) string {
	p := c.p
	rule := "every relationship appended to a document on any path extends the old list by entries whose ID is \"rId\" and a number the counter took on that path by growing, each used once and stored in the added link or picture; a link's target is the caller's or the one the copied ID resolves to, external; an image's target is the media item added on that path under a name known to be free, holding the given or the copied bytes; the counter only grows, starts at or above the ID of each built-in relationship, and is raised to each relationship read when a document is opened; existing relationships are never written"
	sh := c.shape()
	ctr := c.idCounter(sh)
	if ctr == "" || sh.relF == "" {
		c.fail("anchor", nil, nil, "counter", "no counter of the document is the source of the relationship identifiers")
		return rule
	}
	refs := c.carriers(func(t types.Type) bool { return pkgNamed(p, t, "Hyperlink") || pkgNamed(p, t, "ABlip") })
	for _, fn := range p.allEntries() {
		for _, q := range c.paths(fn) {
			if q.outcome == "panic" {
				continue
			}
			c.relPath(fn, q, sh, ctr)
			if p.copying(fn) {
				c.sharedContent(fn, q, refs, "links or images of the source document")
			}
		}
	}
	c.openCounter(sh, ctr)
	c.atLeast("link_relations", 2)
	c.atLeast("image_relations", 4)
	c.atLeast("new_documents", 3)
	c.atLeast("read_relations", 1)
	return rule
}

// idCounter: the document field whose value numbers the identifiers.
func (c *Ctx) idCounter(sh *docShape) string {
	fn := c.p.method("Paragraph", "AddLink")
	if fn == nil {
		return ""
	}
	for _, q := range c.paths(fn) {
		for _, ev := range q.ev() {
			if ev.kind != "store" || c.relListLoc(ev.a[0], sh) == nil || ev.a[1].op != "append" {
				continue
			}
			for _, it := range ev.a[1].args[1:] {
				if n := idNumber(structField(it, "ID")); n != nil {
					b, _ := lin(n)
					if b != nil && b.op == "ld" && b.args[0].op == "fa" {
						return b.args[0].sym
					}
				}
			}
		}
	}
	return ""
}

// relation added on a path.
type relAdd struct {
	doc, item, id *Term
	ev            *Event
}

func (c *Ctx) relPath(fn *ssa.Function, q *Path, sh *docShape, ctr string) {
	var adds []relAdd
	taken := map[*Term]bool{} // counter values reached by growing
	lits := map[*Term]int64{} // new documents: highest built-in identifier
	floor := map[*Term]int64{}
	type media struct {
		doc, item *Term
		used      bool
	}
	var medias []*media
	grow := func(d, old, nv *Term, ev *Event) {
		if old == nil {
			c.fail("counter", fn, ev.instr, ctr, "the identifier counter is changed to %v in a way that may not grow it", nv)
			return
		}
		if v, ok := nv.intVal(); ok && freshDoc(d) {
			if o, ok := old.intVal(); ok && o <= v {
				floor[d] = v
				taken[nv] = true
				return
			}
		}
		bo, oo := lin(old)
		bn, on := lin(nv)
		if bo == bn && on > oo {
			taken[nv] = true
			return
		}
		if v, known := q.st.facts.decide(mk("bin", "<", types.Typ[types.Bool], old, nv)); known && v {
			return
		}
		if v, known := q.st.facts.decide(mk("bin", "<", types.Typ[types.Bool], nv, old)); known && !v {
			return
		}
		if nv.op == "call" && nv.sym == "max" && (nv.args[0] == old || nv.args[1] == old) {
			return
		}
		for _, le := range loopEvents(q) {
			for ph, g := range le.entry.phis {
				if g == nv && le.entry.init[ph] == old && c.phiGrows(fn, ph) {
					return
				}
			}
		}
		c.fail("counter", fn, ev.instr, ctr, "the identifier counter is changed from %v to %v, which may not be greater", old, nv)
	}
	for _, ev := range q.ev() {
		switch ev.kind {
		case "store":
			loc, v := ev.a[0], ev.a[1]
			if isDocFieldLoc(c.p, loc, ctr) {
				grow(loc.args[0], ev.old, v, ev)
				continue
			}
			if isDocFieldLoc(c.p, loc, sh.media) && v.op == "append" {
				for _, it := range v.args[1:] {
					medias = append(medias, &media{doc: loc.args[0], item: it})
				}
				continue
			}
			list := (*Term)(nil)
			d := c.relListLoc(loc, sh)
			if d != nil {
				list = v
			} else if isDocFieldLoc(c.p, loc, sh.relF) {
				d = loc.args[0]
				list = structField(v, sh.relsF)
			}
			if d != nil {
				switch {
				case list != nil && list.op == "append" && c.oldRels(list.args[0], d, sh):
					for _, it := range list.args[1:] {
						adds = append(adds, relAdd{doc: d, item: it, ev: ev})
					}
				case freshDoc(d):
					hi, ok := c.builtinIDs(q, list)
					if !ok {
						c.fail("list", fn, ev.instr, "new document", "a new document starts with the relationship list %v, which it does not own or whose identifiers are not fixed and distinct", list)
					}
					if hi > 0 {
						lits[d] = hi
					}
				default:
					c.fail("list", fn, ev.instr, "store", "the relationship list of a document becomes %v, which is not the old list and new entries", list)
				}
				continue
			}
			if rootOf(loc).op != "obj" && pkgNamed(c.p, locOwner(loc), "Relationship") {
				c.fail("changed", fn, ev.instr, lastField(loc), "an existing relationship is written to")
			}
			if rootOf(loc).op == "obj" && loc.op == "fa" && pkgNamed(c.p, locOwner(loc), "Relationship") {
				if f := locType(rootOf(loc)); pkgNamed(c.p, f, "Docx") || pkgNamed(c.p, f, "Relationships") && false {
					c.fail("changed", fn, ev.instr, lastField(loc), "a relationship that was read is written to")
				}
			}
		case "call":
			if strings.HasPrefix(ev.sym, "sync/atomic.") && len(ev.a) > 0 && isDocFieldLoc(c.p, ev.a[0], ctr) {
				switch {
				case strings.HasPrefix(ev.sym, "sync/atomic.Add"):
					d, ok := ev.a[1].intVal()
					if !ok || d < 1 || d > 1<<31 {
						c.fail("counter", fn, ev.instr, ctr, "the identifier counter is changed by %v, which may not grow it", ev.a[1])
						continue
					}
					taken[ev.res[0]] = true
				case strings.HasPrefix(ev.sym, "sync/atomic.Store"):
					grow(ev.a[0].args[0], ev.old, ev.a[1], ev)
				case strings.HasPrefix(ev.sym, "sync/atomic.Load"):
				default:
					c.fail("counter", fn, ev.instr, ev.sym, "the identifier counter is changed by %s", ev.sym)
				}
				continue
			}
			for _, a := range ev.a {
				if u := unwrap(a); u != nil && u.typ != nil && tstr(u.typ) == "[]docx.Relationship" && rootOf(u).op != "obj" && !isPure(ev.sym) {
					c.fail("changed", fn, ev.instr, "handed out "+ev.sym, "the relationship list is handed to %s, which may change it", ev.sym)
				}
			}
		case "copy", "clear":
			if ev.a[0].typ != nil && tstr(ev.a[0].typ) == "[]docx.Relationship" && rootOf(ev.a[0]).op != "obj" {
				c.fail("changed", fn, ev.instr, ev.kind, "existing relationships are overwritten")
			}
		}
	}
	if isReader(fn) {
		return
	}
	r := c.reach(q, handedOn(q))
	used := map[*Term]*relAdd{}
	cp := c.p.isCopier(fn)
	var src, dst *Term
	if cp {
		src = mk("param", fn.Params[0].Name(), fn.Params[0].Type())
		dst = mk("param", fn.Params[1].Name(), fn.Params[1].Type())
	}
	for i := range adds {
		a := &adds[i]
		a.id = structField(a.item, "ID")
		typ, _ := structField(a.item, "Type").strVal()
		n := idNumber(a.id)
		switch {
		case n == nil || !taken[n]:
			c.fail("identity", fn, a.ev.instr, "number", "a relationship is added under the identifier %v, which is not a number the counter took by growing", a.id)
		case used[a.id] != nil:
			c.fail("identity", fn, a.ev.instr, "twice", "two relationships are added under one identifier")
		}
		used[a.id] = a
		tgt := structField(a.item, "Target")
		mode, _ := structField(a.item, "TargetMode").strVal()
		field, owner := "", ""
		switch typ {
		case relLink:
			c.n("link_relations")
			field, owner = "ID", "Hyperlink"
			if mode != "External" {
				c.fail("target", fn, a.ev.instr, "mode", "a link is added without being marked external")
			}
			if cp && a.doc != dst {
				c.fail("copy", fn, a.ev.instr, "link", "copying content adds its relationship to another document than the destination")
			}
			if !c.linkTarget(q, tgt) || cp && base(tgt) != src {
				c.fail("target", fn, a.ev.instr, "link", "a link relationship targets %v, which is neither the caller's link nor what the copied identifier resolves to", tgt)
			}
		case relImage:
			c.n("image_relations")
			field, owner = "Embed", "ABlip"
			var m *media
			for _, x := range medias {
				if !x.used && x.doc == a.doc && isMediaTarget(tgt, structField(x.item, sh.name)) {
					m = x
				}
			}
			if m == nil {
				c.fail("target", fn, a.ev.instr, "image", "an image relationship targets %v, which is not the media item added with it", tgt)
				break
			}
			m.used = true
			nm := structField(m.item, sh.name)
			idx := c.e.load0(q.st, fieldLocOf(a.doc, c.p, sh.idx))
			free := false
			for k, v := range q.st.facts.bools {
				if !v && k.op == "ld" && k.args[0].op == "mi" && k.args[0].sym == "has" && k.args[0].args[0] == idx && k.args[0].args[1] == nm {
					free = true
				}
			}
			if !free {
				c.fail("name", fn, a.ev.instr, "taken", "an image is stored under the name %v, which may belong to another media item", nm)
			}
			if cp && a.doc != dst {
				c.fail("copy", fn, a.ev.instr, "image", "copying content adds its relationship to another document than the destination")
			}
			if d := structField(m.item, sh.data); !c.imageBytes(q, d, sh) || cp && base(d) != src {
				c.fail("bytes", fn, a.ev.instr, "data", "an image is stored with the bytes %v, which are neither the caller's nor those of the copied image", d)
			}
		default:
			c.fail("type", fn, a.ev.instr, "type", "a relationship is added with the type %q, which is neither a link's nor an image's", typ)
		}
		if field != "" {
			found := false
			for _, h := range r.fields {
				if h.name == field && h.v == a.id && pkgNamed(c.p, h.owner, owner) {
					found = true
				}
			}
			if !found {
				c.fail("content", fn, a.ev.instr, owner+"."+field, "the identifier of an added relationship is not stored in the %s that is added", owner)
			}
		}
	}
	// what is added carries an identifier of its own document
	for _, h := range r.fields {
		link := h.name == "ID" && pkgNamed(c.p, h.owner, "Hyperlink")
		pic := h.name == "Embed" && pkgNamed(c.p, h.owner, "ABlip")
		if !link && !pic {
			continue
		}
		if s, ok := h.v.strVal(); ok && s == "" || !ok && q.st.facts.mustBe(h.v, "") {
			continue
		}
		if a := used[h.v]; a != nil {
			continue
		}
		if h.v.op == "ld" && h.v.args[0] == h.loc {
			continue
		}
		if !c.copies(fn, q) && h.v.op == "ld" {
			// moved inside one document
			continue
		}
		c.fail("content", fn, nil, "stale "+h.name, "content is handed on with the identifier %v, which was not added to its document on this path", h.v)
	}
	for _, m := range medias {
		if !m.used && fnLabel(fn) != "Parse" && len(adds) > 0 {
			c.fail("orphan", fn, nil, "media", "a media item is added without a relationship to it")
		}
	}
	// built-in identifiers of new documents
	handed := c.reach(q, append(append([]*Term{}, q.rets...), phiVals(q)...))
	for d, hi := range lits {
		if !handed.objs[rootOf(d)] {
			continue
		}
		c.n("new_documents")
		if floor[d] < hi {
			c.fail("counter", fn, nil, "start", "a new document has the built-in relationship rId%d but starts counting at %d", hi, floor[d])
		}
	}
}

// phiGrows: no round of the loop makes the carried value smaller.
func (c *Ctx) phiGrows(fn *ssa.Function, ph *ssa.Phi) bool {
	n := 0
	for _, q := range c.paths(fn) {
		nv := q.phis[ph]
		if q.outcome != "back" || nv == nil || q.hdr == nil {
			continue
		}
		n++
		g := q.hdr.phis[ph]
		if nv == g {
			continue
		}
		bg, og := lin(g)
		bn, on := lin(nv)
		if bg == bn && on >= og {
			continue
		}
		if v, known := q.st.facts.decide(mk("bin", "<", types.Typ[types.Bool], g, nv)); known && v {
			continue
		}
		if v, known := q.st.facts.decide(mk("bin", "<", types.Typ[types.Bool], nv, g)); known && !v {
			continue
		}
		return false
	}
	return n > 0
}

func phiVals(q *Path) []*Term {
	var r []*Term
	for _, v := range q.phis {
		r = append(r, v)
	}
	return r
}

// copies: the function takes content for another document.
func (c *Ctx) copies(fn *ssa.Function, q *Path) bool {
	for g := fn; g != nil; g = g.Parent() {
		if c.p.isCopier(g) {
			return true
		}
	}
	return false
}

func locOwner(loc *Term) types.Type {
	for loc != nil && loc.op != "fa" && loc.op != "ia" {
		return nil
	}
	if loc == nil {
		return nil
	}
	if loc.op == "ia" {
		return locType(loc)
	}
	return locType(loc.args[0])
}

func pkgNamed(p *Program, t types.Type, name string) bool {
	return t != nil && isNamed(t, p.root.Pkg.Path(), name)
}

func (c *Ctx) oldRels(l, d *Term, sh *docShape) bool {
	l = plain(l)
	if l.op == "ld" {
		return c.relListLoc(l.args[0], sh) == d
	}
	if l.op == "append" {
		return c.oldRels(l.args[0], d, sh) || freshDoc(d)
	}
	return l.op == "sym" && (strings.HasPrefix(l.sym, "~") && strings.Contains(l.sym, "."+sh.relsF+"#") || strings.HasPrefix(l.sym, "?mod")) || freshDoc(d) && (l.op == "arrslice" || l.op == "nil" || l.op == "mkslice")
}

// builtinIDs: the highest identifier of a list built from constants.
func (c *Ctx) builtinIDs(q *Path, l *Term) (int64, bool) {
	if l == nil {
		return 0, false
	}
	if l.op == "nil" || l.op == "mkslice" {
		return 0, true
	}
	if l.op != "arrslice" || l.args[0].op != "obj" {
		return 0, false
	}
	at, ok := locType(l.args[0]).Underlying().(*types.Array)
	if !ok {
		return 0, false
	}
	var hi int64
	seen := map[int64]bool{}
	for i := int64(0); i < at.Len(); i++ {
		loc := mk("ia", "", types.NewPointer(at.Elem()), l.args[0], mkInt(i))
		n, ok := constIDNumber(structField(c.e.load(q.st, loc, at.Elem()), "ID"))
		if !ok || seen[n] {
			return 0, false
		}
		seen[n] = true
		if n > hi {
			hi = n
		}
	}
	return hi, true
}

// linkTarget: the caller's string, or the target the source's identifier resolves to.
func (c *Ctx) linkTarget(q *Path, t *Term) bool {
	if t.op == "param" {
		return true
	}
	_, ok := resolved(q, t)
	return ok
}

// resolved: t is the Target of a relationship element whose ID the path knows to equal some
// identifier; returns that identifier.
func resolved(q *Path, t *Term) (*Term, bool) {
	if t == nil || t.op != "ld" || t.args[0].op != "fa" || t.args[0].sym != "Target" {
		return nil, false
	}
	el := t.args[0].args[0]
	for k, v := range q.st.facts.bools {
		if !v || k.op != "bin" || k.sym != "==" {
			continue
		}
		for i := 0; i < 2; i++ {
			a, b := k.args[i], k.args[1-i]
			if a.op == "ld" && a.args[0].op == "fa" && a.args[0].sym == "ID" && a.args[0].args[0] == el && !(b.op == "const") {
				return b, true
			}
		}
	}
	return nil, false
}

func isMediaTarget(t, name *Term) bool {
	return t != nil && name != nil && t == concat(name.typ, mkStr("media/"), name)
}

// imageBytes: the caller's bytes, a file's, or those of the media item the copied picture's
// identifier resolves to.
func (c *Ctx) imageBytes(q *Path, d *Term, sh *docShape) bool {
	if d == nil {
		return false
	}
	if d.op == "param" {
		return true
	}
	if d.op == "sym" {
		for _, ev := range q.ev() {
			if ev.kind == "call" && (ev.sym == "os.ReadFile" || ev.sym == "io.ReadAll") && len(ev.res) > 0 && ev.res[0] == d {
				return true
			}
		}
		return false
	}
	if d.op == "ld" && d.args[0].op == "fa" && d.args[0].sym == sh.data && d.args[0].args[0].op == "ia" {
		ia := d.args[0].args[0]
		pos := ia.args[1]
		if c.docOf(q, plain(ia.args[0]), sh.media) == nil || pos.op != "ld" || pos.args[0].op != "mi" {
			return false
		}
		key := pos.args[0].args[1]
		var tgt *Term
		switch {
		case key.op == "slice" && key.args[1] != nil:
			if v, ok := key.args[1].intVal(); ok && v == int64(len("media/")) {
				tgt = key.args[0]
			}
		case key.op == "call" && strings.HasPrefix(key.sym, "strings.TrimPrefix"):
			if s, ok := key.args[1].strVal(); ok && s == "media/" {
				tgt = key.args[0]
			}
		}
		id, ok := resolved(q, tgt)
		return ok && lastField(id) == "Embed"
	}
	return false
}

// openCounter: opening raises the counter to every relationship read.
func (c *Ctx) openCounter(sh *docShape, ctr string) {
	fn := c.p.fn("Parse")
	if fn == nil {
		c.fail("anchor", nil, nil, "Parse", "Parse is gone")
		return
	}
	// values carried round the loop that end up in the counter on every way out
	carriers := map[*ssa.Phi]bool{}
	for _, q := range c.paths(fn) {
		for _, le := range loopEvents(q) {
			for ph, g := range le.entry.phis {
				w := walkOf(q, le.entry)
				if w == nil || w.list == nil {
					w = walkDown(q, le.entry)
				}
				if w == nil || !w.done || lastField(w.src) != sh.relsF {
					continue
				}
				in := false
				for loc, v := range q.st.heap {
					if v == g && isDocFieldLoc(c.p, loc, ctr) {
						in = true
					}
				}
				if _, seen := carriers[ph]; !seen {
					carriers[ph] = in
				} else {
					carriers[ph] = carriers[ph] && in
				}
			}
		}
	}
	type fault struct{ detail, msg string }
	type walk struct {
		faults []fault
		reads  int
		passed map[*Path]bool
	}
	walks := map[string]*walk{}
	var opened []*Path // ways on from decoding that do not fail
	for _, q := range c.paths(fn) {
		if q.outcome == "panic" {
			continue
		}
		k, _ := retErr(q)
		failed := q.outcome == "return" && k == "err"
		// the walks over the relationships that were just decoded
		dec := false
		on := map[string]*Walk{}
		last := ""
		after := map[string]bool{}
		for _, ev := range q.ev() {
			if ev.kind == "call" && strings.HasSuffix(ev.sym, "xml.Decoder).Decode") && len(ev.a) > 1 {
				if u := unwrap(ev.a[1]); u != nil && u.op == "fa" && isDocFieldLoc(c.p, u, sh.relF) && q.st.facts.isNil(ev.res[0]) {
					dec = true
				}
			}
			if dec && ev.kind == "loop" && ev.entry != nil {
				after[ev.sym] = true
				x := walkOf(q, ev.entry)
				if x == nil || x.list == nil {
					x = walkDown(q, ev.entry)
				}
				if x != nil && x.list != nil && lastField(x.src) == sh.relsF {
					on[ev.sym], last = x, ev.sym
				}
			}
		}
		if !dec {
			continue
		}
		if !failed && q.outcome == "return" || q.outcome == "back" && !after[q.loop] {
			opened = append(opened, q)
		}
		for id, w := range on {
			st := walks[id]
			if st == nil {
				st = &walk{passed: map[*Path]bool{}}
				walks[id] = st
			}
			st.passed[q] = true
			bad := func(d, m string) { st.faults = append(st.faults, fault{d, m}) }
			if !w.first {
				bad("first", "opening does not look at the first relationship it read")
			}
			if failed {
				continue
			}
			if !w.round {
				if !w.done {
					bad("early", "opening stops looking at the relationships before the last one")
				}
				continue
			}
			if id != last || q.outcome != "back" || q.loop != id {
				bad("leaves", "opening leaves the loop over the relationships before the last one")
				continue
			}
			st.reads++
			if !w.steps(q) {
				bad("step", "opening skips relationships")
			}
			if !c.raised(q, w, ctr, carriers) {
				bad("raise", "a relationship is read without the counter being raised to its identifier")
			}
		}
	}
	good := ""
	for id, w := range walks {
		if len(w.faults) == 0 && w.reads > 0 && (good == "" || id < good) {
			good = id
		}
	}
	if good == "" {
		for _, w := range walks {
			c.counts["read_relations"] += w.reads
			for _, f := range w.faults {
				c.fail("opened", fn, nil, f.detail, "%s", f.msg)
			}
		}
		if len(walks) == 0 {
			c.fail("opened", fn, nil, "walk", "opening goes on without looking at the relationships it read")
		}
		return
	}
	c.counts["read_relations"] += walks[good].reads
	for _, q := range opened {
		if !walks[good].passed[q] {
			c.fail("opened", fn, nil, "walk", "opening goes on without looking at the relationships it read")
		}
	}
}

// raised: at the end of the round the counter is at least the number of the current relationship.
func (c *Ctx) raised(q *Path, w *Walk, ctr string, carriers map[*ssa.Phi]bool) bool {
	isNum := func(t *Term) bool {
		for t.op == "conv" && isIntT(t.typ) && isIntT(t.args[0].typ) {
			t = t.args[0]
		}
		if t.op != "call" || len(t.args) == 0 || !hasPrefixAny(t.sym, "strconv.ParseUint#0", "strconv.Atoi#0", "strconv.ParseInt#0") {
			return false
		}
		if len(t.args) > 1 {
			if b, ok := t.args[1].intVal(); !ok || b != 10 {
				return false
			}
		}
		e := mk("call", strings.TrimSuffix(t.sym, "#0")+"#1", errType(), t.args...)
		if !q.st.facts.isNil(e) {
			return false
		}
		s := t.args[0]
		switch {
		case s.op == "slice" && s.args[1] != nil && s.args[2] == nil:
			v, ok := s.args[1].intVal()
			return ok && v == 3 && isElemField(s.args[0], w, "ID")
		case s.op == "call" && hasPrefixAny(s.sym, "strings.TrimPrefix", "strings.CutPrefix#0"):
			p, ok := s.args[1].strVal()
			return ok && p == "rId" && isElemField(s.args[0], w, "ID")
		}
		return false
	}
	for k, v := range q.st.facts.bools {
		// not an identifier of the form that is handed out
		if !v && k.op == "call" && k.sym == "strings.HasPrefix" && isElemField(k.args[0], w, "ID") {
			if p, ok := k.args[1].strVal(); ok && strings.HasPrefix("rId", p) {
				return true
			}
		}
		if !v && k.op == "call" && strings.HasPrefix(k.sym, "strings.CutPrefix#1") && isElemField(k.args[0], w, "ID") {
			return true
		}
	}
	var cands []*Term
	for loc, v := range q.st.heap {
		if isDocFieldLoc(c.p, loc, ctr) {
			cands = append(cands, v)
		}
	}
	for ph, v := range q.phis {
		if carriers[ph] {
			cands = append(cands, v)
		}
	}
	for _, v := range cands {
		if isNum(v) {
			return true
		}
		if v.op == "call" && v.sym == "max" && (isNum(v.args[0]) || isNum(v.args[1])) {
			return true
		}
		for k, b := range q.st.facts.bools {
			if k.op != "bin" {
				continue
			}
			x, y := k.args[0], k.args[1]
			switch {
			case k.sym == "<" && !b && x == v && isNum(y):
				return true
			case k.sym == "<" && b && y == v && isNum(x):
				return true
			case k.sym == "<=" && b && y == v && isNum(x):
				return true
			}
		}
	}
	return false
}

func hasPrefixAny(s string, xs ...string) bool {
	for _, x := range xs {
		if strings.HasPrefix(s, x) {
			return true
		}
	}
	return false
}
