package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- C36
// Numbers of drawings (wp:docPr id).

func unconv(t *Term) *Term {
	for t != nil && (t.op == "conv" || t.op == "chtype") {
		t = t.args[0]
	}
	return t
}

// fieldOf: the value of a field of an object or of a struct value.
func (c *Ctx) fieldOf(q *Path, o *Term, name string) *Term {
	if o == nil {
		return nil
	}
	if o.op == "struct" {
		return structField(o, name)
	}
	t := locType(o)
	if t == nil {
		return nil
	}
	st := fieldsOf(t)
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return c.e.load0(q.st, faddr(o, st, i))
		}
	}
	return nil
}

// drawingCounter: the document field whose steps number the drawings that building calls add.
func (c *Ctx) drawingCounter() string {
	for _, m := range []string{"AddInlineShape", "AddAnchorShape", "AddInlineDrawing", "AddAnchorDrawing"} {
		fn := c.p.method("Paragraph", m)
		if fn == nil {
			continue
		}
		for _, q := range c.paths(fn) {
			if q.outcome != "return" {
				continue
			}
			for _, ev := range q.ev() {
				if ev.kind != "store" || lastField(ev.a[0]) != "ID" || !pkgNamed(c.p, locOwner(ev.a[0]), "WPDocPr") {
					continue
				}
				b, _ := lin(unconv(ev.a[1]))
				if b != nil && b.op == "ld" && b.args[0].op == "fa" && isDocFieldLoc(c.p, b.args[0], b.args[0].sym) {
					return b.args[0].sym
				}
			}
			for o := range c.reach(q, handedOn(q)).objs {
				if !pkgNamed(c.p, locType(o), "WPDocPr") {
					continue
				}
				b, _ := lin(unconv(c.fieldOf(q, o, "ID")))
				if b != nil && b.op == "ld" && b.args[0].op == "fa" && isDocFieldLoc(c.p, b.args[0], b.args[0].sym) {
					return b.args[0].sym
				}
			}
		}
	}
	return ""
}

func checkC36(c *Ctx) string {
	rule := "every drawing number (wp:docPr id) in what a building or copying call hands on is a value which the drawing counter of the document the drawing is attached to reached by growing on that path, used once; no copy shares numbered content with its source; the counter only grows; every reader of drawings raises it to each number it reads; a document made around given items does not start counting at a fixed number"
	p := c.p
	ctr := c.drawingCounter()
	if ctr == "" {
		c.fail("anchor", nil, nil, "counter", "no counter of the document is the source of the numbers of added drawings")
		return rule
	}
	numbered := c.carriers(func(t types.Type) bool { return pkgNamed(p, t, "WPDocPr") })
	for _, fn := range p.allEntries() {
		for _, q := range c.paths(fn) {
			if q.outcome == "panic" {
				continue
			}
			c.numberPath(fn, q, ctr)
			if p.copying(fn) {
				c.sharedContent(fn, q, numbered, "the numbers of the source's drawings")
			}
		}
		if isReader(fn) {
			c.numberReader(fn, ctr)
		}
	}
	c.atLeast("numbered_drawings", 6)
	c.atLeast("numbers_read", 2)
	return rule
}

func (c *Ctx) numberPath(fn *ssa.Function, q *Path, ctr string) {
	type step struct {
		doc *Term
		at  int
	}
	taken := map[*Term]step{}
	hdr := -1
	for i, ev := range q.ev() {
		switch ev.kind {
		case "loop":
			if q.hdr != nil && ev.entry == q.hdr {
				hdr = i
			}
		case "store":
			if !isDocFieldLoc(c.p, ev.a[0], ctr) {
				continue
			}
			c.n("counter_changes")
			if why := c.raises(fn, q, ev.old, ev.a[1], ev.a[0].args[0]); why != "" {
				c.fail("counter", fn, ev.instr, ctr, "the counter of drawings is changed from %v to %v, which may not be greater", ev.old, ev.a[1])
			} else if bo, oo := lin(ev.old); ev.old != nil {
				if bn, on := lin(ev.a[1]); bo == bn && on > oo {
					taken[ev.a[1]] = step{ev.a[0].args[0], i}
				}
			}
		case "call":
			if !strings.HasPrefix(ev.sym, "sync/atomic.") || len(ev.a) == 0 || !isDocFieldLoc(c.p, ev.a[0], ctr) {
				continue
			}
			c.n("counter_changes")
			switch {
			case strings.HasPrefix(ev.sym, "sync/atomic.Add"):
				if d, ok := ev.a[1].intVal(); !ok || d < 1 || d > 1<<31 {
					c.fail("counter", fn, ev.instr, ctr, "the counter of drawings is changed by %v, which may not grow it", ev.a[1])
					continue
				}
				taken[ev.res[0]] = step{ev.a[0].args[0], i}
			case strings.HasPrefix(ev.sym, "sync/atomic.Load"):
			case strings.HasPrefix(ev.sym, "sync/atomic.Store"):
				if why := c.raises(fn, q, ev.old, ev.a[1], ev.a[0].args[0]); why != "" {
					c.fail("counter", fn, ev.instr, ctr, "the counter of drawings is set to %v, which may not be greater", ev.a[1])
				}
			case strings.HasPrefix(ev.sym, "sync/atomic.CompareAndSwap") && len(ev.a) > 2:
				if why := c.raises(fn, q, ev.a[1], ev.a[2], ev.a[0].args[0]); why != "" {
					c.fail("counter", fn, ev.instr, ctr, "the counter of drawings is set to %v, which may not be greater", ev.a[2])
				}
			default:
				c.fail("counter", fn, ev.instr, ev.sym, "the counter of drawings is changed by %s", ev.sym)
			}
		}
	}
	if isReader(fn) {
		return
	}
	r := c.reach(q, handedOn(q))
	used := map[*Term]*Term{}
	number := func(pr *Term, node *Term) {
		id := c.fieldOf(q, pr, "ID")
		if id == nil {
			return
		}
		n := unconv(id)
		c.n("numbered_drawings")
		s, ok := taken[n]
		switch {
		case !ok:
			c.fail("number", fn, lastInstr(q), "given", "a drawing is handed on with the number %v, which its document's counter was not moved on to for it", id)
			return
		case used[n] != nil && used[n] != pr:
			c.fail("number", fn, lastInstr(q), "twice", "two drawings are given one number")
			return
		case q.outcome == "back" && hdr >= 0 && s.at < hdr && !c.madeBefore(q, pr, hdr):
			c.fail("number", fn, lastInstr(q), "round", "every round gives its drawing the same number")
			return
		}
		used[n] = pr
		if node == nil {
			return
		}
		if d := c.fieldOf(q, node, "file"); d != nil && d != s.doc && !q.st.facts.isNil(d) {
			c.fail("number", fn, lastInstr(q), "other", "a drawing takes its number from the counter of a document it is not attached to")
		}
	}
	seen := map[*Term]bool{}
	for _, h := range r.fields {
		if h.name != "DocPr" || !pkgNamed(c.p, h.owner, "WPInline") && !pkgNamed(c.p, h.owner, "WPAnchor") || h.v.op != "obj" || seen[h.v] {
			continue
		}
		seen[h.v] = true
		number(h.v, h.obj)
	}
	for o := range r.objs {
		if pkgNamed(c.p, locType(o), "WPDocPr") && !seen[o] {
			number(o, nil)
		}
	}
	// a number of something that was there before is left alone
	for loc, v := range q.st.heap {
		if loc.op == "fa" && loc.sym == "ID" && rootOf(loc).op != "obj" && pkgNamed(c.p, locOwner(loc), "WPDocPr") && !(v.op == "ld" && v.args[0] == loc) {
			if _, ok := taken[unconv(v)]; !ok && v.op != "sym" {
				c.fail("number", fn, lastInstr(q), "changed", "the number of a drawing becomes %v, which the counter was not moved on to", v)
			}
		}
	}
	// documents made around items that come from elsewhere
	if q.outcome != "return" {
		return
	}
	for _, d := range q.rets {
		if d == nil || d.op != "obj" || !types.Identical(locType(d), c.p.docxType()) {
			continue
		}
		given := false
		for loc, v := range q.st.heap {
			if loc.op == "fa" && loc.sym == "Items" && rootOf(loc) == d && c.foreign(v) {
				given = true
			}
		}
		for _, h := range r.fields {
			if h.name == "Items" && pkgNamed(c.p, h.owner, "Body") && c.foreign(h.v) {
				given = true
			}
		}
		if !given {
			continue
		}
		c.n("documents_around_items")
		if n := c.fieldOf(q, d, ctr); n == nil || unconv(n).op == "const" {
			c.fail("start", fn, lastInstr(q), ctr, "a document made around given items starts numbering drawings at %v, whatever numbers the items hold", n)
		}
	}
}

func (c *Ctx) foreign(v *Term) bool {
	for v != nil && (v.op == "slice" || v.op == "chtype") {
		v = v.args[0]
	}
	return v != nil && v.op == "param"
}

// madeBefore: the object was allocated before event at.
func (c *Ctx) madeBefore(q *Path, o *Term, at int) bool {
	for i, ev := range q.ev() {
		if i >= at {
			break
		}
		if ev.kind == "store" && rootOf(ev.a[0]) == o {
			return true
		}
	}
	return false
}

// raises: "" when the counter's new value is at least the old one.
func (c *Ctx) raises(fn *ssa.Function, q *Path, old, nv, doc *Term) string {
	if old == nil {
		return "unknown"
	}
	if o, ok := old.intVal(); ok {
		if v, ok := unconv(nv).intVal(); ok && v >= o {
			return ""
		}
		if o == 0 && freshDoc(doc) { // nothing is numbered yet
			return ""
		}
	}
	if bo, oo := lin(old); bo != nil {
		if bn, on := lin(nv); bo == bn && on >= oo {
			return ""
		}
	}
	if v, known := q.st.facts.decide(mk("bin", "<", types.Typ[types.Bool], old, nv)); known && v {
		return ""
	}
	if v, known := q.st.facts.decide(mk("bin", "<", types.Typ[types.Bool], nv, old)); known && !v {
		return ""
	}
	if nv.op == "call" && nv.sym == "max" {
		for _, a := range nv.args {
			if a == old {
				return ""
			}
		}
	}
	return "shrink"
}

// numberReader: a reader that keeps a number it read has raised the counter of its document to it, in the
// same round or on every way out.
func (c *Ctx) numberReader(fn *ssa.Function, ctr string) {
	if len(fn.Params) == 0 {
		return
	}
	recv := mk("param", fn.Params[0].Name(), fn.Params[0].Type())
	t := namedBehind(fn.Params[0].Type())
	if t == nil || t.Obj().Name() != "WPInline" && t.Obj().Name() != "WPAnchor" {
		return
	}
	st := fieldsOf(t)
	var file, slot *Term
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "file":
			file = faddr(recv, st, i)
		case "DocPr":
			slot = faddr(recv, st, i)
		}
	}
	if file == nil || slot == nil {
		return
	}
	raised := func(q *Path, pr *Term) bool {
		d := c.e.load0(q.st, file)
		if q.st.facts.isNil(d) {
			return true
		}
		id := c.fieldOf(q, pr, "ID")
		if id == nil {
			return false
		}
		if v, ok := id.intVal(); ok && v <= 0 {
			return true
		}
		loc := fieldLocOf(d, c.p, ctr)
		now := c.e.load0(q.st, loc)
		if unconv(now) == unconv(id) {
			return true
		}
		if iv := q.st.facts.interval(id); iv.hasHi && iv.hi <= 0 {
			return true
		}
		for _, x := range []*Term{id, mk("conv", "uintptr", now.typ, unconv(id))} {
			if v, known := q.st.facts.decide(mk("bin", "<", types.Typ[types.Bool], now, x)); known && !v {
				return true
			}
			if v, known := q.st.facts.decide(mk("bin", "<=", types.Typ[types.Bool], x, now)); known && v {
				return true
			}
		}
		for _, ev := range q.ev() {
			if ev.kind != "call" || len(ev.a) == 0 || ev.a[0] != loc || len(ev.res) == 0 {
				continue
			}
			if strings.HasPrefix(ev.sym, "sync/atomic.CompareAndSwap") && unconv(ev.a[2]) == unconv(id) && q.st.facts.bools[ev.res[0]] {
				return true
			}
			if strings.HasPrefix(ev.sym, "sync/atomic.Load") {
				for _, x := range []*Term{id, mk("conv", "uintptr", ev.res[0].typ, unconv(id))} {
					if v, known := q.st.facts.decide(mk("bin", "<", types.Typ[types.Bool], ev.res[0], x)); known && !v {
						return true
					}
				}
			}
		}
		if now.op == "call" && now.sym == "max" {
			for _, a := range now.args {
				if unconv(a) == unconv(id) {
					return true
				}
			}
		}
		return false
	}
	// on every way out?
	atEnd, ends := true, 0
	for _, q := range c.paths(fn) {
		if k, _ := retErr(q); q.outcome == "return" && k != "err" {
			ends++
			pr := c.e.load0(q.st, slot)
			if !q.st.facts.isNil(pr) && !raised(q, pr) {
				atEnd = false
			}
		}
	}
	for _, q := range c.paths(fn) {
		k, _ := retErr(q)
		if q.outcome != "back" && (q.outcome != "return" || k == "err") {
			continue
		}
		pr, ok := q.st.heap[slot]
		if !ok || pr.op != "obj" {
			continue
		}
		if q.outcome == "back" {
			// a round of a loop that was entered later is not yet the end of this one
			kept, hdr := -1, -1
			for i, ev := range q.ev() {
				switch {
				case ev.kind == "store" && ev.a[0] == slot:
					kept = i
				case ev.kind == "loop" && ev.entry == q.hdr:
					hdr = i
				}
			}
			if kept < hdr {
				continue
			}
		}
		c.n("numbers_read")
		if !raised(q, pr) && !(atEnd && ends > 0) {
			c.fail("read", fn, lastInstr(q), t.Obj().Name(), "a drawing is read without raising the counter of its document to its number")
		}
	}
}
