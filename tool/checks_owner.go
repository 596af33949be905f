package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// carriers: types from which a value of a leaf type can be reached through fields, pointers,
// lists and the kinds that may sit in interface-typed lists.
func (c *Ctx) carriers(leaf func(types.Type) bool) func(types.Type) bool {
	memo := map[string]int{}
	var has func(t types.Type) bool
	has = func(t types.Type) bool {
		switch u := t.(type) {
		case *types.Pointer:
			return has(u.Elem())
		case *types.Slice:
			return has(u.Elem())
		case *types.Array:
			return has(u.Elem())
		}
		n, ok := t.(*types.Named)
		if !ok || !c.p.isRepoType(t) || types.Identical(t, c.p.docxType()) {
			return false
		}
		if leaf(t) {
			return true
		}
		k := n.Obj().Name()
		if v, ok := memo[k]; ok {
			return v == 1
		}
		memo[k] = 0
		st := fieldsOf(t)
		if st == nil {
			return has(n.Underlying()) && false
		}
		r := false
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if isIfaceList(f.Type()) {
				for _, k := range ifaceSlots[n.Obj().Name()+"."+f.Name()] {
					if kt := c.p.namedType(k); kt != nil && has(kt) {
						r = true
					}
				}
				continue
			}
			if has(f.Type()) {
				r = true
			}
		}
		if r {
			memo[k] = 1
		}
		return r
	}
	// recursion through a type still being visited answers "no"; iterate to a fixed point
	return func(t types.Type) bool {
		for k, v := range memo {
			if v == 0 {
				delete(memo, k)
			}
		}
		return has(t)
	}
}

func isIfaceList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	_, ok = s.Elem().Underlying().(*types.Interface)
	return ok
}

func (c *Ctx) ownsDoc(t types.Type) bool {
	st := fieldsOf(t)
	if st == nil || types.Identical(t, c.p.docxType()) {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == c.p.ownerField && types.Identical(st.Field(i).Type(), types.NewPointer(c.p.docxType())) {
			return true
		}
	}
	return false
}

// ownerLocs: the owner fields of the value at loc, including those of structs embedded by value.
func (c *Ctx) ownerLocs(loc *Term, t types.Type) []*Term {
	var r []*Term
	st := fieldsOf(t)
	if st == nil || types.Identical(t, c.p.docxType()) {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() == c.p.ownerField && types.Identical(f.Type(), types.NewPointer(c.p.docxType())) {
			r = append(r, faddr(loc, st, i))
		} else if fieldsOf(f.Type()) != nil && c.p.isRepoType(f.Type()) {
			r = append(r, c.ownerLocs(faddr(loc, st, i), f.Type())...)
		}
	}
	return r
}

// sharedContent reports content of the source a copier hands on without copying it.
func (c *Ctx) sharedContent(fn *ssa.Function, q *Path, carries func(types.Type) bool, what string) {
	if q.outcome == "panic" {
		return
	}
	roots := handedOn(q)
	r := c.reach(q, roots)
	copied := map[*Term]bool{}
	for _, ev := range q.ev() {
		if ev.callee != nil && c.p.isCopier(ev.callee) && len(ev.res) > 0 {
			copied[ev.res[0]] = true
		}
	}
	old := func(v *Term) bool {
		return v != nil && !copied[base(v)] && v.op != "obj" && rootOf(v).op != "obj" && !q.st.facts.isNil(v) && (v.op == "ld" || v.op == "ta" || v.op == "field" || v.op == "param")
	}
	fields := r.fields
	for loc, v := range q.st.heap {
		if loc.op == "fa" && (rootOf(loc).op != "obj" || q.outcome == "back") && (v.op == "append" || v.op == "appendslice") {
			fields = append(fields, held{owner: locType(loc.args[0]), name: loc.sym, v: v, loc: loc})
		}
	}
	for l, to := range c.localLists(c.paths(fn)) {
		c.roundItems(q, l, func(v *Term) {
			fields = append(fields, held{owner: locType(to.args[0]), name: to.sym, v: v, loc: to})
		})
	}
	for _, h := range fields {
		if h.loc != nil && h.v.op == "ld" && h.v.args[0] == h.loc {
			continue
		}
		n, ok := h.owner.(*types.Named)
		if !ok {
			continue
		}
		slot := n.Obj().Name() + "." + h.name
		t := h.v.typ
		st := fieldsOf(h.owner)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == h.name {
				t = st.Field(i).Type()
			}
		}
		c.n("copied_fields")
		switch {
		case isIfaceList(t):
			kinds := ifaceSlots[slot]
			c.listItems(q, h.v, func(e *Term, whole bool) {
				if whole {
					if !old(e) || h.loc != nil && e.op == "ld" && e.args[0] == h.loc {
						return
					}
					for _, k := range kinds {
						if kt := c.p.namedType(k); kt != nil && carries(kt) {
							c.fail("shared", nil, nil, slot, "%s hands on the source's list %s, which holds %s", fnLabel(fn), slot, what)
							return
						}
					}
					return
				}
				if !old(e) {
					return
				}
				for _, k := range kinds {
					kt := c.p.namedType(k)
					if kt == nil || !carries(kt) {
						continue
					}
					if d := q.st.facts.dyn[e]; d != "" && d != "*docx."+k {
						continue
					}
					if v, known := q.st.facts.decide(mk("isT", "*docx."+k, types.Typ[types.Bool], e)); known && !v {
						continue
					}
					c.fail("shared", nil, nil, slot+" "+k, "%s hands on a %s of the source uncopied; it holds %s", fnLabel(fn), k, what)
				}
			})
		case carries(t):
			c.listItems(q, h.v, func(e *Term, whole bool) {
				if old(e) && c.mayCarry(q, e, t, carries, 0) {
					c.fail("shared", nil, nil, slot, "%s hands on %s of the source uncopied; it holds %s", fnLabel(fn), slot, what)
				}
			})
		}
	}
}

// mayCarry: the pre-existing value may really hold carried content on this path: not every
// field that could is known to be nil.
func (c *Ctx) mayCarry(q *Path, v *Term, t types.Type, carries func(types.Type) bool, d int) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok || d > 3 {
		return true
	}
	st := fieldsOf(pt.Elem())
	if st == nil {
		return true
	}
	any := false
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if isIfaceList(f.Type()) {
			if n, ok := pt.Elem().(*types.Named); ok && len(ifaceSlots[n.Obj().Name()+"."+f.Name()]) > 0 {
				return true
			}
			continue
		}
		if !carries(f.Type()) {
			continue
		}
		any = true
		fv := c.e.load0(q.st, faddr(v, st, i))
		if !q.st.facts.isNil(fv) && c.mayCarry(q, fv, f.Type(), carries, d+1) {
			return true
		}
	}
	return !any
}

// copying: the function is a copier or calls one.
func (p *Program) copying(fn *ssa.Function) bool {
	if p.isCopier(fn) {
		return true
	}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if seen[f] || !p.inScope(f) {
			return false
		}
		seen[f] = true
		if f != fn && p.isCopier(f) {
			return true
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && visit(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return visit(fn)
}

// listItems: the elements a list value is known to consist of; whole is set for a list taken
// over from elsewhere.
func (c *Ctx) listItems(q *Path, v *Term, f func(e *Term, whole bool)) {
	for v != nil {
		switch v.op {
		case "append":
			for _, a := range v.args[1:] {
				f(unwrap(a), false)
			}
			v = v.args[0]
			continue
		case "appendslice":
			for _, a := range v.args[1:] {
				f(a, true)
			}
			v = v.args[0]
			continue
		case "slice":
			v = v.args[0]
			continue
		case "ld":
			f(v, true)
			return
		case "arrslice":
			if o := v.args[0]; o.op == "obj" {
				if at, ok := locType(o).Underlying().(*types.Array); ok {
					for i := int64(0); i < at.Len(); i++ {
						f(unwrap(c.e.load(q.st, mk("ia", "", types.NewPointer(at.Elem()), o, mkInt(i)), at.Elem())), false)
					}
				}
			}
			return
		default:
			if _, ok := v.typ.(*types.Slice); !ok && v.op != "nil" {
				f(v, false)
			}
			return
		}
	}
}

// ---------------------------------------------------------------- C08

func checkC08(c *Ctx) string {
	p := c.p
	of := p.ownerField
	rule := "every object with an owner field that a builder or copier hands on carries the document it is added to (the receiver's document, or the destination of a copy); every reader sets the owner of a child that has an owner field to its own owner before decoding it; opening attaches the body before decoding the document; copies share no owned content with their source"
	if of == "" {
		c.fail("anchor", nil, nil, "owner", "no owner field found")
		return rule
	}
	dp := types.NewPointer(p.docxType())
	owned := c.carriers(c.ownsDoc)
	for _, fn := range p.allEntries() {
		if isReader(fn) {
			c.readerOwners(fn)
			continue
		}
		for _, q := range c.paths(fn) {
			if q.outcome == "panic" {
				continue
			}
			cp := p.isCopier(fn)
			var docs []*Term
			for _, pr := range fn.Params {
				if types.Identical(pr.Type(), dp) {
					docs = append(docs, mk("param", pr.Name(), pr.Type()))
				}
			}
			good := func(v *Term) bool {
				if cp {
					return v == docs[0]
				}
				if v == nil {
					return false
				}
				if freshDoc(v) && v.op == "obj" {
					return true
				}
				if len(docs) > 0 && v == docs[0] {
					return true
				}
				return v.op == "ld" && v.args[0].op == "fa" && v.args[0].sym == of && rootOf(v).op != "obj"
			}
			// a failed call hands nothing on
			if k, _ := retErr(q); k == "err" && q.outcome == "return" {
				continue
			}
			r := c.reach(q, handedOn(q))
			for o := range r.objs {
				if t := locType(o); c.ownsDoc(t) {
					c.n("attached_objects")
					v := c.e.load0(q.st, fieldLoc(o, of))
					if !good(v) && !c.fromCopy(q, v, docs, cp) && !(v.op == "sym" && strings.HasPrefix(v.sym, "~new") && strings.Contains(v.sym, "."+of+"#")) {
						c.fail("detached", fn, nil, tstr(t), "a new %s is handed on attached to %v instead of the document it belongs to", tstr(t), v)
						c.noteOwner(fn, q, v, tstr(t))
					}
				}
			}
			for _, h := range r.fields {
				if h.name == of && h.loc == nil && c.ownsDoc(h.owner) {
					if !good(h.v) && !c.fromCopy(q, h.v, docs, cp) {
						c.fail("detached", fn, nil, tstr(h.owner), "a new %s is handed on attached to %v instead of the document it belongs to", tstr(h.owner), h.v)
						c.noteOwner(fn, q, h.v, tstr(h.owner))
					}
				}
				if h.name == of && h.loc != nil && h.loc.args[0] != h.obj && c.ownsDoc(h.owner) {
					if !good(h.v) && !(h.v.op == "sym" && strings.HasPrefix(h.v.sym, "~") && strings.Contains(h.v.sym, "."+of+"#")) && !c.fromCopy(q, h.v, docs, cp) {
						c.fail("detached", fn, nil, tstr(h.owner), "a new %s is handed on attached to %v instead of the document it belongs to", tstr(h.owner), h.v)
						c.noteOwner(fn, q, h.v, tstr(h.owner))
					}
				}
			}
			// copies are made for the document they are put into
			for _, ev := range q.ev() {
				if ev.kind != "call" && ev.kind != "reccall" || ev.callee == nil || !p.isCopier(ev.callee) || len(ev.a) < 2 {
					continue
				}
				c.n("copy_calls")
				if cp && ev.a[1] != docs[0] {
					c.fail("wrong-document", fn, ev.instr, "nested copy", "a nested copy is made for another document than the destination")
				}
				if cp {
					continue
				}
				// the body list the copy ends up in
				placed := false
				for _, e2 := range q.ev() {
					if e2.kind != "store" || lastField(e2.a[0]) != "Items" && lastField(e2.a[0]) != "Children" {
						continue
					}
					if !c.holdsCopy(q, e2.a[1], ev.res[0]) {
						continue
					}
					placed = true
					d := docBase(c.p, e2.a[0])
					if d != ev.a[1] {
						c.fail("wrong-document", fn, ev.instr, "copy", "a copy made for %v is put into %v", ev.a[1], d)
					}
				}
				for l, to := range c.localLists(c.paths(fn)) {
					c.roundItems(q, l, func(v *Term) {
						if v.op != "append" || !c.holdsCopy(q, v, ev.res[0]) {
							return
						}
						placed = true
						if d := docBase(c.p, to); d != ev.a[1] {
							c.fail("wrong-document", fn, ev.instr, "copy", "a copy made for %v is put into %v", ev.a[1], d)
						}
					})
				}
				if !placed && fn.Signature.Recv() != nil && types.Identical(fn.Signature.Recv().Type(), dp) {
					c.fail("wrong-document", fn, ev.instr, "lost", "a copy is made but put into no document")
				}
			}
			if c.p.copying(fn) {
				c.sharedContent(fn, q, owned, "content attached to the source document")
			}
		}
	}
	// opening: the body is attached before the document is decoded
	if fn := p.fn("Parse"); fn != nil {
		df := p.docField("docx.Document")
		for _, q := range c.paths(fn) {
			for i, ev := range q.ev() {
				if ev.kind != "call" || !strings.HasSuffix(ev.sym, "xml.Decoder).Decode") || len(ev.a) < 2 {
					continue
				}
				u := unwrap(ev.a[1])
				if u == nil || !isDocFieldLoc(p, u, df) {
					continue
				}
				c.n("opened_bodies")
				body := fieldLoc(u, "Body")
				if body == nil || c.ownerAt(q, i, fieldLoc(body, of)) != u.args[0] {
					c.fail("detached", fn, ev.instr, "body", "the document is decoded without its body being attached to it")
					if body != nil {
						c.noteOwner(fn, q, c.ownerAt(q, i, fieldLoc(body, of)), "body")
					}
				}
			}
		}
	}
	// new documents attach their body
	for _, fn := range p.exportedFns() {
		for _, q := range c.paths(fn) {
			if q.outcome == "panic" {
				continue
			}
			if k, _ := retErr(q); k == "err" {
				continue
			}
			r := c.reach(q, append(append([]*Term{}, q.rets...), phiVals(q)...))
			for o := range r.objs {
				if types.Identical(locType(o), p.docxType()) {
					c.n("new_documents")
					body := fieldLoc(fieldLocOf(o, p, p.docField("docx.Document")), "Body")
					v := c.e.load0(q.st, fieldLoc(body, of))
					if it := fieldLoc(body, "Items"); it != nil && q.st.facts.isNil(c.e.load0(q.st, it)) {
						continue // nothing to attach
					}
					if v != o && !(v.op == "sym" || v.op == "ld") {
						c.fail("detached", fn, nil, "new document", "a new document's body is attached to %v", v)
						c.noteOwner(fn, q, v, "new document")
					}
				}
			}
		}
	}
	c.atLeast("attached_objects", 30)
	c.atLeast("copy_calls", 6)
	c.atLeast("reader_children", 25)
	c.atLeast("opened_bodies", 1)
	c.atLeast("new_documents", 3)
	return rule
}

// fromCopy: the owner of a struct taken over from the result of a copier.
func (c *Ctx) fromCopy(q *Path, v *Term, docs []*Term, cp bool) bool {
	b := base(v)
	for _, ev := range q.ev() {
		if ev.callee != nil && c.p.isCopier(ev.callee) && len(ev.res) > 0 && ev.res[0] == b {
			return !cp || ev.a[1] == docs[0]
		}
	}
	return false
}

// holdsCopy: the list value contains the copy (or a new variable holding it).
func (c *Ctx) holdsCopy(q *Path, list, res *Term) bool {
	for list != nil && list.op == "append" {
		for _, a := range list.args[1:] {
			a = unwrap(a)
			if a == res {
				return true
			}
			if a.op == "obj" {
				for _, ev := range q.ev() {
					if ev.kind == "store" && ev.a[0] == a && ev.a[1] == res {
						return true
					}
				}
			}
		}
		list = list.args[0]
	}
	return false
}

// localLists: lists that are built aside, round by round, and where they are put when complete.
func (c *Ctx) localLists(paths []*Path) map[*Term]*Term {
	r := map[*Term]*Term{}
	var note func(v, loc *Term)
	note = func(v, loc *Term) {
		v = plain(v)
		switch v.op {
		case "append":
			note(v.args[0], loc)
		case "appendslice":
			for _, a := range v.args {
				note(a, loc)
			}
		case "sym", "mkslice":
			r[v] = loc
		}
	}
	for _, q := range paths {
		for _, ev := range q.ev() {
			if ev.kind == "store" && ev.a[0].op == "fa" && isIfaceList(locType(ev.a[0])) {
				note(ev.a[1], ev.a[0])
			}
		}
	}
	return r
}

// roundItems: what the round of back path q puts into the list l that is built aside.
func (c *Ctx) roundItems(q *Path, l *Term, f func(v *Term)) {
	if q.outcome != "back" {
		return
	}
	if l.op == "sym" {
		if a := carriedBy(q, l); a != nil && a.ph != nil && a.le == q.hdr {
			if v := q.phis[a.ph]; v != nil && v != l {
				f(v)
			}
		}
		return
	}
	for _, ev := range roundEvents(q) {
		if ev.kind == "store" && ev.a[0].op == "ia" && (ev.a[0].args[0] == l.args[0] || sameList(ev.a[0].args[0], l)) {
			v := q.st.heap[ev.a[0]]
			if v == nil {
				v = ev.a[1]
			}
			f(mk("append", "", l.typ, mkNil(l.typ), v))
		}
	}
}

// docBase: the document a location lies in.
func docBase(p *Program, loc *Term) *Term {
	for t := loc; t != nil; t = t.args[0] {
		if t.op == "fa" && types.Identical(locType(t.args[0]), p.docxType()) {
			return t.args[0]
		}
		if t.op != "fa" && t.op != "ia" && t.op != "ld" {
			break
		}
	}
	return nil
}

// ownerAt: the value of location loc before event i of the path, from the stores on it.
func (c *Ctx) ownerAt(q *Path, i int, loc *Term) *Term {
	evs := q.ev()
	for j := i - 1; j >= 0; j-- {
		ev := evs[j]
		if ev.kind != "store" {
			continue
		}
		if ev.a[0] == loc {
			return ev.a[1]
		}
		if underPrefix(loc, ev.a[0]) {
			// a struct holding the field was stored
			var names []string
			for x := loc; x != ev.a[0]; x = x.args[0] {
				names = append(names, x.sym)
			}
			v := ev.a[1]
			for k := len(names) - 1; k >= 0 && v != nil; k-- {
				v = structField(v, names[k])
			}
			return v
		}
	}
	if rootOf(loc).op == "obj" {
		return nil
	}
	return mk("ld", "", locType(loc), loc)
}

// readerOwners: children with an owner are attached before they are decoded.
func (c *Ctx) readerOwners(fn *ssa.Function) {
	recv := mk("param", fn.Params[0].Name(), fn.Params[0].Type())
	own := c.ownerLocs(recv, locType(recv))
	owned := c.carriers(c.ownsDoc)
	for _, q := range c.paths(fn) {
		if q.outcome == "panic" {
			continue
		}
		isOwn := func(v *Term) bool {
			for _, l := range own {
				if v != nil && (v.op == "ld" && v.args[0] == l || v.op == "sym" && (strings.HasPrefix(v.sym, "~"+l.String()+"#"))) {
					return true
				}
			}
			return false
		}
		for i, ev := range q.ev() {
			if ev.kind != "call" && ev.kind != "reccall" {
				continue
			}
			var tgt *Term
			switch {
			case ev.sym == "(*xml.Decoder).DecodeElement" || ev.sym == "(*xml.Decoder).Decode":
				tgt = unwrap(ev.a[1])
			case ev.callee != nil && isReader(ev.callee):
				tgt = ev.a[0]
			default:
				continue
			}
			t := locType(tgt)
			if pt, ok := t.(*types.Pointer); ok {
				if !owned(pt.Elem()) {
					continue
				}
				// pointer to a pointer: the decoder uses the element already there or makes one
				inner := c.ownerAt(q, i, tgt)
				if inner == nil || inner.op != "obj" {
					c.fail("unattached", fn, ev.instr, tstr(pt.Elem()), "a %s is decoded without being attached to the document", tstr(pt.Elem()))
					continue
				}
				tgt, t = inner, pt.Elem()
			}
			if !owned(t) {
				continue
			}
			locs := c.ownerLocs(tgt, t)
			n, named := t.(*types.Named)
			if len(locs) == 0 && (!named || c.p.method(n.Obj().Name(), "UnmarshalXML") == nil) {
				c.fail("unattached", fn, ev.instr, tstr(t), "a %s is decoded by reflection; the owned content in it is never attached", tstr(t))
				continue
			}
			for _, l := range locs {
				c.n("reader_children")
				if v := c.ownerAt(q, i, l); !isOwn(v) {
					c.fail("unattached", fn, ev.instr, tstr(t), "a %s is decoded while attached to %v instead of the document of its parent", tstr(t), v)
					c.noteOwner(fn, q, v, tstr(t))
				}
			}
		}
		if k, _ := retErr(q); k == "err" {
			continue
		}
		// owned children made without decoding
		r := c.reach(q, handedOn(q))
		for o := range r.objs {
			t := locType(o)
			for _, l := range c.ownerLocs(o, t) {
				if v := c.ownerAt(q, len(q.ev()), l); !isOwn(v) {
					c.fail("unattached", fn, nil, tstr(t), "a new %s is kept attached to %v instead of the document of its parent", tstr(t), v)
					c.noteOwner(fn, q, v, tstr(t))
				}
			}
		}
	}
}

// noteOwner keeps the objects handed on with no owner at all for the panic rules.
func (c *Ctx) noteOwner(fn *ssa.Function, q *Path, v *Term, what string) {
	if v == nil || q.st.facts.isNil(v) {
		c.nilOwners = append(c.nilOwners, nilOwner{fn, what})
	}
}
