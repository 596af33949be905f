package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type site struct {
	r     *reader
	name  string
	field string
	typ   types.Type
	paths []*Path
	kept  map[*Path]kept
}

// tokenOf: the token whose handling the path shows.
func tokenOf(p *Path) *Event {
	ts := activeTokens(p)
	if len(ts) == 0 {
		return nil
	}
	return ts[0]
}

// sites groups the paths of a reader by the child element they handle.
func (c *Ctx) sites(r *reader) (ss []*site) {
	idx := map[string]*site{}
	for _, p := range r.paths {
		if !okPath(p) {
			continue
		}
		tok := tokenOf(p)
		if tok == nil {
			continue
		}
		el := startElem(p, tok.res[0])
		if el == nil {
			continue
		}
		names, _ := p.st.facts.strSet(elemNameTerm(el))
		ks, _ := c.keptOn(r, p, tok)
		for _, n := range names {
			for _, k := range ks {
				key := n + "|" + k.field
				s := idx[key]
				if s == nil {
					s = &site{r: r, name: n, field: k.field, typ: k.typ, kept: map[*Path]kept{}}
					idx[key] = s
					ss = append(ss, s)
				}
				s.paths = append(s.paths, p)
				s.kept[p] = k
			}
		}
	}
	// paths still inside a loop over the element's attributes belong to every site of that name
	for _, s := range ss {
		for _, p := range r.paths {
			if _, ok := s.kept[p]; ok || !okPath(p) {
				continue
			}
			for _, ev := range p.ev() {
				if ev.kind == "call" && ev.sym == tokenCall {
					if el := startElem(p, ev.res[0]); el != nil && p.st.facts.mustBe(elemNameTerm(el), s.name) {
						s.paths = append(s.paths, p)
						break
					}
				}
			}
		}
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i].name+"|"+ss[i].field < ss[j].name+"|"+ss[j].field })
	return
}

// ---------------------------------------------------------------- C01

func checkC01(c *Ctx) string {
	c.attributeRules(func(string, attrF) bool { return true }, func(n string, f attrF, rule string, fn *ssa.Function, at ssa.Instruction, why string) {
		c.fail(rule, fn, at, n+"."+f.field, "%s", why)
	})
	c.zeroLost()
	c.spoken(true)
	c.atLeast("attribute_obligations", 100)
	return "for every attribute field the writer emits, every path of the responsible reader (own UnmarshalXML or the parent's case) on which the attribute of that local name was met with a non-empty value ends with the field holding exactly that value (strings verbatim, integers through a full-width decimal parser), no path leaves the attribute loop before the name could be met, and nothing overwrites the field afterwards; and a number that is zero is only left out where that means the same; the attributes documents are made of (frozen vocabulary) are written, under their names"
}

// attributeRules decides, for the attribute fields asked for, whether what is written back is what was read.
func (c *Ctx) attributeRules(want func(n string, f attrF) bool, report func(n string, f attrF, rule string, fn *ssa.Function, at ssa.Instruction, why string)) {
	rs := c.readers()
	allSites := map[string][]*site{}
	own := map[string]*reader{}
	named := map[string]*types.Named{}
	for _, r := range rs {
		if r.typ == nil {
			continue
		}
		if r.w != nil {
			own[r.typ.Obj().Name()] = r
			named[r.typ.Obj().Name()] = r.typ
		}
		for _, s := range c.sites(r) {
			if n, ok := s.typ.(*types.Named); ok {
				allSites[n.Obj().Name()] = append(allSites[n.Obj().Name()], s)
				named[n.Obj().Name()] = n
			}
		}
	}
	var tn []string
	for n := range named {
		tn = append(tn, n)
	}
	sort.Strings(tn)
	for _, n := range tn {
		w := c.p.writer(named[n])
		if w == nil {
			continue
		}
		for _, f := range w.attrs {
			if !want(n, f) {
				continue
			}
			c.n("attribute_obligations")
			var why string
			var at ssa.Instruction
			var fn *ssa.Function
			if r := own[n]; r != nil {
				fn = r.fn
				sc := attrScope{
					what:   "own",
					isElem: func(p *Path, o *Term) bool { return o == r.start },
					final: func(p *Path, f attrF, val *Term) (*Term, bool) {
						return c.e.load0(p.st, fieldLoc(r.recv, f.field)), true
					},
					must: func(p *Path) bool { return p.outcome == "return" },
				}
				why, at = c.checkAttr(r.paths, sc, f)
				if why == "" {
					if w2, at2 := c.overwritten(r, f); w2 != "" {
						report(n, f, "attr-overwritten", r.fn, at2, w2)
					}
					c.n("read_by_own_reader")
				}
			}
			ss := allSites[n]
			if own[n] != nil && why == "" {
				// the parent may still read the element in place
				var inl []*site
				for _, s := range ss {
					for _, k := range s.kept {
						if k.src == nil {
							inl = append(inl, s)
							break
						}
					}
				}
				if len(inl) == 0 {
					continue
				}
				ss = inl
			}
			okAll := len(ss) > 0
			for _, s := range ss {
				s := s
				sc := attrScope{
					isElem: func(p *Path, o *Term) bool {
						if o.op != "ta" {
							return false
						}
						return p.st.facts.mustBe(elemNameTerm(o), s.name) || p.st.facts.mayBe(elemNameTerm(o), s.name) && s.kept[p].val != nil
					},
					final: func(p *Path, f attrF, val *Term) (*Term, bool) {
						if k, ok := s.kept[p]; ok && k.val != nil {
							if l := fieldLoc(k.val, f.field); l != nil {
								return c.e.load0(p.st, l), true
							}
						}
						if p.outcome != "back" {
							return nil, false
						}
						if _, ok := s.kept[p]; !ok && p.hdr != nil && c.isTokenLoop(p.hdr) {
							return nil, false // the element was not kept on this path (C02)
						}
						var any *Term
						for q, v := range p.st.heap {
							if q.op == "fa" && q.sym == f.field && fieldKey(q) == n+"."+f.field || q.op == "fa" && strings.HasSuffix(fieldKey(q), "."+n+"."+f.field) {
								if isValueOf(p.st, v, val) {
									return v, true
								}
								any = v
							}
						}
						return any, true
					},
					must: func(p *Path) bool { _, ok := s.kept[p]; return ok },
				}
				w1, a1 := c.checkAttr(s.paths, sc, f)
				if w1 != "" {
					okAll = false
					if own[n] == nil || why == "" || strings.Contains(why, "never read") {
						why, at, fn = fmt.Sprintf("in <%s>: %s", s.name, w1), a1, s.r.fn
					}
				}
			}
			if okAll {
				c.n("read_by_parent")
				continue
			}
			if why == "" || own[n] == nil && len(ss) == 0 {
				continue
			}
			report(n, f, "attr", fn, at, fmt.Sprintf("%s.%s: %s", n, f.field, why))
		}
	}
}

func (c *Ctx) isTokenLoop(le *LoopEntry) bool {
	for b := range le.loop.body {
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok {
				if f := ci.Common().StaticCallee(); f != nil && fnName(f) == tokenCall {
					return true
				}
			}
		}
	}
	return false
}

// overwritten: on a completed path the attribute field holds something that is neither its initial value,
// nor the attribute loop's value, nor an attribute value.
func (c *Ctx) overwritten(r *reader, f attrF) (string, ssa.Instruction) {
	loc := fieldLoc(r.recv, f.field)
	for _, p := range r.paths {
		if !okPath(p) {
			continue
		}
		v, ok := p.st.heap[loc]
		if !ok {
			continue
		}
		good := false
		if p.outcome == "back" && p.hdr != nil && p.hdr.locs[loc] == v {
			good = true
		}
		for _, ev := range p.ev() {
			if ev.kind == "loop" && ev.entry != nil && (ev.entry.locs[loc] == v) {
				good = true
			}
		}
		if good {
			continue
		}
		if p.outcome == "back" && !c.isTokenLoop(p.hdr) {
			// attribute loop iterations are judged by checkAttr, unless they are about another attribute
			if v.isConst() && p.hdr != nil && p.hdr.locs[loc] != nil {
				mine := false
				for _, h := range c.hits(p) {
					if h.local == f.local {
						mine = true
					}
				}
				if g := p.hdr.locs[loc]; !mine && len(c.hits(p)) > 0 && !p.st.facts.mustBe(g, "") && !p.st.facts.mustBe(g, v.sym) {
					return fmt.Sprintf("%s becomes %v when another attribute is met", f.field, v), lastStore(p, loc)
				}
			}
			continue
		}
		match := false
		for _, h := range c.hits(p) {
			if isValueOf(p.st, v, h.val) && h.local == f.local {
				match = true
			}
		}
		if match {
			continue
		}
		if v.isConst() {
			// a default for an absent or empty attribute
			def := false
			for _, ev := range p.ev() {
				if ev.kind == "loop" && ev.entry != nil {
					if g := ev.entry.locs[loc]; g != nil {
						if p.st.facts.mustBe(g, "") {
							def = true
						}
						if s, ok := p.st.facts.in[g]; ok && len(s) == 1 && s["i:0"] {
							def = true
						}
					}
				}
			}
			if def {
				continue
			}
			// default set before the attributes are read
			pre := true
			for _, ev := range p.ev() {
				if ev.kind == "loop" {
					pre = false
				}
			}
			if pre && p.outcome == "back" {
				continue
			}
		}
		// taken from the variable the attribute was left in, or given to an element without it
		carried := false
		for _, ev := range p.ev() {
			if ev.kind == "loop" && ev.entry != nil {
				for _, g := range ev.entry.phis {
					carried = carried || isValueOf(p.st, v, g) && !v.isConst()
				}
				carried = carried || v.isConst() && c.flagUnmet(r.paths, p, ev, f.local)
			}
		}
		if carried {
			continue
		}
		if n, ok := v.intVal(); isZero(v) || ok && c.meansAbsent(r.w, f, n) {
			empty := c.attrAbsent(r, p, f.local)
			for _, h := range c.hits(p) {
				empty = empty || h.local == f.local && p.st.facts.mustBe(h.val, "")
			}
			if empty {
				continue // the value of an attribute that is not there
			}
		}
		if h := v; h.contains(func(x *Term) bool { l, _, _, _, ok := attrRef(x); return ok && attrOwner(l) == r.start }) {
			continue // derived from another attribute: judged by checkAttr
		}
		return fmt.Sprintf("%s is overwritten with %v after the attributes were read", f.field, v), lastStore(p, loc)
	}
	return "", nil
}

// meansAbsent: n is what the attribute means to an element that does not give it.
func (c *Ctx) meansAbsent(w *writerInfo, f attrF, n int64) bool {
	for _, x := range c.writtenTypes() {
		if d, ok := absentIs[x.elem+"/"+f.local]; ok && x.w.named == w.named && d == n {
			return true
		}
	}
	return false
}

// attrAbsent: the path went over attributes in loops that go on only past attributes of other names, so
// the element has no attribute of that name.
func (c *Ctx) attrAbsent(r *reader, p *Path, local string) bool {
	seen := false
	for _, ev := range loopEvents(p) {
		for _, x := range r.paths {
			if x.outcome != "back" || x.hdr != ev.entry {
				continue
			}
			over, other := false, false
			for t, set := range x.st.facts.notin {
				if _, _, part, _, ok := attrRef(t); ok && part == "Name.Local" {
					over = true
					other = other || set["s:"+local]
				}
			}
			for t, set := range x.st.facts.in {
				if _, _, part, _, ok := attrRef(t); ok && part == "Name.Local" {
					over = true
					other = other || !set["s:"+local]
				}
			}
			if over && !other {
				return false
			}
			seen = seen || over
		}
	}
	return seen
}

func lastStore(p *Path, loc *Term) ssa.Instruction {
	evs := p.ev()
	for i := len(evs) - 1; i >= 0; i-- {
		if evs[i].kind == "store" && (evs[i].a[0] == loc || underPrefix(loc, evs[i].a[0])) {
			return evs[i].instr
		}
	}
	return lastInstr(p)
}

// ---------------------------------------------------------------- C02

func checkC02(c *Ctx) string {
	for _, r := range c.readers() {
		if r.typ == nil || r.w == nil {
			continue
		}
		c.childRules(r)
	}
	c.spoken(false)
	c.atLeast("child_obligations", 150)
	return "for every child element the writer of a type can emit, every path of the type's reader on which a start element of exactly that local name was read and no error is returned stores it, decoded from that very element, into the field written back under that name; no path stores a child into a field of another name (value elements with an empty or absent value excepted); the children documents are made of (frozen vocabulary) are written, under their names"
}

func (c *Ctx) childRules(r *reader) {
	seenKept := map[string]bool{}
	var names []string
	for n := range r.w.kids {
		names = append(names, n)
	}
	sort.Strings(names)
	reads := false
	for _, p := range r.paths {
		if !okPath(p) {
			continue
		}
		tok := tokenOf(p)
		if tok == nil {
			continue
		}
		reads = true
		el := startElem(p, tok.res[0])
		ks, _ := c.keptOn(r, p, tok)
		if el == nil {
			for _, k := range ks {
				c.fail("wrong-slot", r.fn, k.ins, k.field, "%s.%s is changed for a token that is not a start element", r.w.name, k.field)
			}
			continue
		}
		nt := elemNameTerm(el)
		set, known := p.st.facts.strSet(nt)
		for _, k := range ks {
			if k.val != nil && stale(p, k.val) {
				c.fail("shared", r.fn, lastInstr(p), k.field, "%s.%s is set to something other elements are read into as well", r.w.name, k.field)
			}
			if !known {
				c.fail("wrong-slot", r.fn, k.ins, k.field+"|?", "%s.%s receives an element whatever its name", r.w.name, k.field)
				continue
			}
			for _, x := range set {
				ok := false
				for _, kf := range r.w.kids[x] {
					if kf.field == k.field && (k.typ == nil || !kf.iface || types.Identical(kf.typ, k.typ)) {
						ok = true
					}
				}
				if !ok {
					c.fail("wrong-slot", r.fn, k.ins, k.field+"|"+x, "element <%s> is stored in %s.%s, which is written back under another name", x, r.w.name, k.field)
				} else {
					seenKept[x] = true
				}
			}
			// the element really is what was decoded
			if k.typ != nil && c.p.hasUnmarshal(k.typ) != nil {
				if k.src == nil && !c.attrOnly(k.typ) {
					c.fail("not-decoded", r.fn, lastInstr(p), k.field, "%s.%s is set for <%s> without decoding the element", r.w.name, k.field, strings.Join(set, ","))
				}
			}
			if k.src != nil {
				c.decodeTarget(r, p, tok, el, k)
			}
		}
		if !known {
			continue
		}
		for _, x := range set {
			kf := r.w.kids[x]
			if len(kf) == 0 {
				continue
			}
			got := false
			for _, k := range ks {
				for _, f := range kf {
					if f.field == k.field {
						got = true
					}
				}
			}
			if got {
				continue
			}
			if c.insideOpen(r, p, tok) {
				continue
			}
			if c.recKept(p, tok) {
				seenKept[x] = true
				continue
			}
			if c.emptyValue(p, el, kf[0].typ) {
				continue
			}
			c.fail("child-dropped", r.fn, lastInstr(p), x, "a path reads <%s> inside <%s> without keeping it in %s.%s", x, r.w.self, r.w.name, kf[0].field)
		}
	}
	_ = reads
	for _, x := range names {
		c.n("child_obligations")
		if !seenKept[x] {
			c.fail("child-never-read", r.fn, nil, x, "%s can write <%s> but its reader never keeps it", r.w.name, x)
		}
	}
}

// attrOnly: an element that carries nothing but attributes may be read in place by its parent (C01 checks how).
func (c *Ctx) attrOnly(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	w := c.p.writer(n)
	return w != nil && len(w.attrs) > 0 && len(w.kids) == 0 && w.text == ""
}

// insideOpen: the path ends at the back edge of a loop entered while this element was being handled.
func (c *Ctx) insideOpen(r *reader, p *Path, tok *Event) bool {
	if p.outcome != "back" {
		return false
	}
	after := false
	for _, ev := range p.ev() {
		if ev == tok {
			after = true
		}
		if after && ev.kind == "loop" && ev.sym == p.loop {
			return true
		}
	}
	return false
}

func (c *Ctx) recKept(p *Path, tok *Event) bool {
	after := false
	for _, ev := range p.ev() {
		if ev == tok {
			after = true
		}
		if after && ev.kind == "reccall" {
			return true
		}
	}
	return false
}

// emptyValue: the element only carries attributes and the value looked up on this path is absent or empty.
func (c *Ctx) emptyValue(p *Path, el *Term, t types.Type) bool {
	if c.p.hasUnmarshal(t) != nil {
		return false
	}
	if n, ok := t.(*types.Named); ok {
		w := c.p.writer(n)
		if w != nil && (len(w.attrs) == 0 || len(w.kids) > 0 || w.text != "") {
			return false
		}
	}
	for _, h := range c.hits(p) {
		if h.owner == el && !p.st.facts.mustBe(h.val, "") {
			return false
		}
	}
	// looked for it
	for _, h := range c.hits(p) {
		if h.owner == el {
			return true
		}
	}
	for k, v := range p.st.facts.bools {
		if !v && k.op == "bin" && k.sym == "<" && k.args[1].op == "len" && attrOwner(k.args[1].args[0]) == el {
			return true
		}
	}
	return false
}

// decodeTarget: the element is decoded from its own start tag, by a reader that knows its names.
func (c *Ctx) decodeTarget(r *reader, p *Path, tok *Event, el *Term, k kept) {
	after := false
	for _, ev := range p.ev() {
		if ev == tok {
			after = true
		}
		if !after || ev.kind != "call" || ev.sym != decElemCall || unwrap(ev.a[1]) != k.src {
			continue
		}
		s := ev.a[2]
		if s.op == "nil" {
			c.fail("decode-start", r.fn, ev.instr, k.field, "%s.%s is decoded from the next element instead of the one just read", r.w.name, k.field)
			continue
		}
		v := c.e.load(p.st, s, locType(s))
		if !v.mentions(tok.res[0]) {
			c.fail("decode-start", r.fn, ev.instr, k.field, "%s.%s is decoded with another element's start tag: %v", r.w.name, k.field, v)
		}
		if t, ok := locType(k.src).(*types.Named); ok && c.p.hasUnmarshal(t) == nil {
			if w := c.p.writer(t); w != nil {
				for _, a := range w.attrs {
					if strings.Contains(a.full, ":") {
						c.fail("decode-default", r.fn, ev.instr, k.field, "%s has no reader of its own and the default one does not match the prefixed attribute %s", w.name, a.full)
					}
				}
				for x := range w.kids {
					c.fail("decode-default", r.fn, ev.instr, k.field+"|"+x, "%s has no reader of its own for its child <%s>", w.name, x)
				}
			}
		}
	}
}

// ---------------------------------------------------------------- C03 (reading)

func (c *Ctx) orderRules() {
	for _, r := range c.readers() {
		if r.typ == nil || r.w == nil {
			continue
		}
		for _, kk := range r.w.kids {
			for _, k := range kk {
				if k.slice {
					c.n("content_lists")
				}
			}
		}
		for _, p := range r.paths {
			if !okPath(p) {
				continue
			}
			tok := tokenOf(p)
			if tok == nil {
				continue
			}
			ks, bad := c.keptOn(r, p, tok)
			c.n("reader_paths")
			for _, b := range bad {
				if strings.HasPrefix(b, "list ") {
					c.fail("order", r.fn, lastInstr(p), strings.Fields(b)[1], "%s: %s", r.w.name, b)
				}
			}
			cnt := map[*Term]int{}
			for _, k := range ks {
				if k.val != nil && stale(p, k.val) {
					c.fail("shared", r.fn, lastInstr(p), k.field, "every %s of %s ends up in the same place", k.field, r.w.name)
				}
				if k.how == "append" {
					cnt[k.val]++
					if cnt[k.val] > 1 {
						c.fail("duplicate", r.fn, lastInstr(p), k.field, "one element of %s is stored twice", r.w.name)
					}
				}
			}
		}
	}
}

// ---------------------------------------------------------------- C25

func checkC25(c *Ctx) string {
	for _, r := range c.readers() {
		if r.typ == nil || r.w == nil || r.w.text == "" {
			continue
		}
		c.n("text_readers")
		loc := fieldLoc(r.recv, r.w.text)
		okChar := 0
		for _, p := range r.paths {
			if !okPath(p) {
				continue
			}
			tok := tokenOf(p)
			if tok == nil {
				continue
			}
			past := false
			for _, ev := range p.ev() {
				past = past || ev == tok
				if past && ev.kind == "call" && ev != tok && ev.sym == skipCall && p.outcome == "back" {
					c.fail("text", r.fn, ev.instr, "skipped", "the text inside an element nested in %s is skipped", r.w.name)
				}
			}
			old, ok := tok.snap[loc]
			if !ok {
				old = mk("ld", "", locType(loc), loc)
			}
			v := c.e.load0(p.st, loc)
			// accumulated in a local
			acc, accOld := v, old
			if p.outcome == "back" {
				for ph, nv := range p.phis {
					if c.phiField(r, ph) == r.w.text {
						acc, accOld = nv, p.hdr.phis[ph]
					}
				}
			}
			d, known := p.st.facts.dyn[tok.res[0]]
			isChar := known && d == charT
			if isChar {
				ct := mk("ta", charT, ifaceType[charT], tok.res[0])
				good := acc.op == "bin" && acc.sym == "+" && acc.args[0] == accOld && isTextOf(acc.args[1], ct)
				good = good || c.builderGets(p, tok, ct)
				if !good {
					if p.outcome == "back" && p.hdr != nil && !c.isTokenLoop(p.hdr) {
						continue
					}
					c.fail("text", r.fn, lastInstr(p), "chardata", "character data read by %s is not appended to %s (result %v)", r.w.name, r.w.text, acc)
				} else {
					okChar++
				}
				continue
			}
			if acc != accOld && !c.isLoopList(p, acc) && !c.loopText(p, acc) {
				c.fail("text", r.fn, lastInstr(p), "other", "%s.%s changes on a token that is not character data: %v", r.w.name, r.w.text, acc)
			}
		}
		if okChar == 0 {
			c.fail("text", r.fn, nil, "none", "no path of %s collects character data", r.w.name)
		}
	}
	// plain strings decoded by the standard library are complete; hand-written replacements are text readers
	c.atLeast("text_readers", 1)
	return "on every path of a text reader that received character data, the text field becomes its previous value followed by exactly that data, and no other token kind changes it"
}

func (c *Ctx) loopText(p *Path, v *Term) bool {
	for _, ev := range p.ev() {
		if ev.kind == "loop" && ev.entry != nil {
			for _, g := range ev.entry.phis {
				if g == v {
					return true
				}
			}
		}
		// the text of a builder
		if ev.kind == "call" && strings.HasSuffix(ev.sym, "strings.Builder).String") && len(ev.res) == 1 && ev.res[0] == v {
			return true
		}
	}
	return false
}

func isTextOf(t, ct *Term) bool {
	for t.op == "conv" || t.op == "chtype" {
		t = t.args[0]
	}
	return t == ct
}

func (c *Ctx) builderGets(p *Path, tok *Event, ct *Term) bool {
	after := false
	for _, ev := range p.ev() {
		if ev == tok {
			after = true
		}
		if after && ev.kind == "call" && (strings.Contains(ev.sym, "strings.Builder).Write") || strings.Contains(ev.sym, "bytes.Buffer).Write")) && len(ev.a) == 2 && isTextOf(ev.a[1], ct) {
			return true
		}
	}
	return false
}
