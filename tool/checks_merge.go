package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C19: merging run texts loses, repeats and moves nothing.
//
// What a list of children says is a sequence of pieces: whole lists, items, and the texts of text
// items. A loop that hands the elements of a list over, joining texts as it goes, keeps the sentence
//
//	pieces of the list it builds + the text it still holds = what was there before + the elements so far
//
// true on every way through a round.

type tok struct {
	kind string // list, text, item
	t    *Term
	pend *Term // an unfinished list: the text that belongs behind it
	all  []tok // and what both together say
}

func (t tok) String() string { return t.kind + " " + t.t.String() }

type merge struct {
	c        *Ctx
	paths    []*Path
	recv     *Term
	run      *types.Struct
	runT     types.Type
	textT    types.Type
	done     map[mergeKey]*joined
	why      string
	nonEmpty bool // some step relies on texts in built lists not being empty
}

type mergeKey struct {
	le *LoopEntry
	g  *Term
}

// joined: what is known about a list built by a loop, after the loop.
type joined struct {
	all   []tok
	pend  *Term
	flag  *Term // tells that the text held is the last of the list already
	inPol bool
	bad   string
}

func isDocType(t types.Type, p *Program, name string) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	n := p.namedType(name)
	return ok && n != nil && types.Identical(pt.Elem(), n)
}

// mergeFn: a method of paragraphs that takes a rule on pairs of runs and returns a paragraph.
func (c *Ctx) mergeFn(f *ssa.Function) bool {
	sig := f.Signature
	if sig.Recv() == nil || !isDocType(sig.Recv().Type(), c.p, "Paragraph") || sig.Params().Len() != 1 || sig.Results().Len() != 1 {
		return false
	}
	r, ok := sig.Params().At(0).Type().Underlying().(*types.Signature)
	if !ok || r.Params().Len() != 2 || r.Results().Len() != 1 || !isBoolT(r.Results().At(0).Type()) {
		return false
	}
	for i := 0; i < 2; i++ {
		if !isDocType(r.Params().At(i).Type(), c.p, "Run") {
			return false
		}
	}
	res := sig.Results().At(0).Type()
	n := c.p.namedType("Paragraph")
	return types.Identical(res, n) || isDocType(res, c.p, "Paragraph")
}

func checkC19(c *Ctx) string {
	for _, fn := range c.p.exportedFns() {
		if !c.mergeFn(fn) {
			continue
		}
		c.n("merging functions")
		m := &merge{c: c, recv: mk("param", fn.Params[0].Name(), fn.Params[0].Type()), paths: c.paths(fn), runT: c.p.namedType("Run"), textT: c.p.namedType("Text"), done: map[mergeKey]*joined{}}
		m.run = fieldsOf(m.runT)
		for _, q := range m.paths {
			if s := m.untouched(q); s != "" {
				c.fail("merge-original", fn, nil, "write", "%s", s)
			}
			if q.outcome != "return" {
				continue
			}
			c.n("results")
			if s := m.result(q); s != "" {
				c.fail("merge", fn, nil, "result", "%s", s)
			}
		}
		if m.nonEmpty {
			for _, q := range m.paths {
				if s := m.noEmptyText(q); s != "" {
					c.fail("merge", fn, nil, "empty", "%s", s)
				}
			}
		}
	}
	c.atLeast("merging functions", 1)
	c.atLeast("rounds", 6)
	return "every way through the loops that build the merged paragraph keeps (children built + text held) = (what was there + children handed over); runs are joined only into the run directly before, where the rule said yes and neither has instruction text; the original is not written"
}

// untouched: q writes nothing that the original paragraph holds.
func (m *merge) untouched(q *Path) string {
	for _, ev := range q.ev() {
		switch ev.kind {
		case "store", "mapset", "mapdel", "copy", "clear":
			if b := base(ev.a[0]); b != nil && b.op == "param" {
				return "the original is changed: " + ev.a[0].String() + " at " + m.c.p.ipos(ev.instr)
			}
			if ev.kind == "store" && lastField(ev.a[0]) == "Children" {
				for _, b := range m.buffers(ev.a[1]) {
					if b.op != "append" && !emptyList(b) && base(b) != nil && base(b).op == "param" {
						return "the list of the original is appended to in place"
					}
				}
			}
		}
	}
	return ""
}

// buffers: the lists at the bottom of appended lists.
func (m *merge) buffers(t *Term) []*Term {
	n := 0
	for t.op == "append" || t.op == "appendslice" {
		t = t.args[0]
		n++
	}
	if n == 0 && t.op != "slice" {
		return nil
	}
	return []*Term{t}
}

// noEmptyText: texts that q puts into lists of children are not empty.
func (m *merge) noEmptyText(q *Path) string {
	for _, ev := range q.ev() {
		if ev.kind != "store" || lastField(ev.a[0]) != "Children" {
			continue
		}
		t := ev.a[1]
		if t.op != "append" {
			continue
		}
		for _, y := range t.args[1:] {
			y = unwrap(y)
			if v := m.textOf(q.st, y); v != nil && !m.filled(q, y, v) {
				return "an empty text may be put among the children, where later texts are joined to it out of place"
			}
		}
	}
	return ""
}

// filled: q knows that the text of y is not empty; v is the text when q ends.
func (m *merge) filled(q *Path, y, v *Term) bool {
	f := q.st.facts
	if !f.mayBe(v, "") {
		return true
	}
	for _, p := range m.pieces(q, v) {
		if !f.mayBe(p.t, "") {
			return true
		}
	}
	loc := fieldLoc(y, "Text")
	for k, vals := range f.notin {
		if k.op == "ld" && k.args[0] == loc && vals["s:"] {
			for _, ev := range q.ev() {
				if ev.kind == "store" && ev.a[0] == loc && (ev.a[1].op != "bin" || ev.a[1].sym != "+") {
					return false
				}
			}
			return true
		}
	}
	return false
}

// textOf: the text of y, if y is a text item made or held by the merging function.
func (m *merge) textOf(st *State, y *Term) *Term {
	if y.typ == nil || !isDocType(y.typ, m.c.p, "Text") {
		return nil
	}
	return m.c.e.load0(st, fieldLoc(y, "Text"))
}

// pieces of a text.
func (m *merge) pieces(q *Path, t *Term) []tok {
	if t == nil {
		return nil
	}
	if t.op == "bin" && t.sym == "+" {
		var r []tok
		for _, a := range t.args {
			r = append(r, m.pieces(q, a)...)
		}
		return r
	}
	if q.st.facts.mustBe(t, "") {
		return nil
	}
	return []tok{{kind: "text", t: t}}
}

// item: what an element of a list of children says when q ends.
func (m *merge) item(q *Path, y *Term, st *State) []tok {
	y = unwrap(y)
	if v := m.textOf(st, y); v != nil {
		return m.pieces(q, v)
	}
	return m.element(q, stripTA(y), st)
}

// element: what element e of a list said in state st.
func (m *merge) element(q *Path, e *Term, st *State) []tok {
	f := q.st.facts
	pt := types.NewPointer(m.textT)
	if is, known := f.decide(mk("isT", tstr(pt), types.Typ[types.Bool], e)); known && is {
		return m.pieces(q, m.c.e.load0(st, fieldLoc(mk("ta", tstr(pt), pt, e), "Text")))
	}
	return []tok{{kind: "item", t: e}}
}

// content of list value l on q.
func (m *merge) content(q *Path, l *Term, st *State) []tok {
	l = plain(l)
	f := q.st.facts
	if emptyList(l) || f.isNil(l) {
		return nil
	}
	if iv := f.interval(mk("len", "", types.Typ[types.Int], l)); iv.hasHi && iv.hi <= 0 {
		return nil
	}
	switch l.op {
	case "append":
		r := m.content(q, l.args[0], st)
		for _, y := range l.args[1:] {
			r = append(append([]tok(nil), r...), m.item(q, y, st)...)
		}
		return r
	case "appendslice":
		r := append([]tok(nil), m.content(q, l.args[0], st)...)
		for _, a := range l.args[1:] {
			r = append(r, m.content(q, a, st)...)
		}
		return r
	}
	if a := carriedBy(q, l); a != nil && (q.hdr != a.le || q.outcome != "back") {
		j := m.loop(q, a)
		if j.bad != "" {
			m.why = j.bad
		} else {
			if j.pend == nil {
				return j.all
			}
			v := m.held(a.le, j.pend)
			if j.flag != nil && !f.mustBe(v, "") {
				if b, known := f.decide(j.flag); known && b == j.inPol {
					// the text is in the list: whatever became of it since counts
					if end := m.heldNow(st, j.pend); end == v || f.mustBe(v, "") && f.mustBe(end, "") {
						return j.all
					}
					return []tok{{kind: "list", t: l}}
				} else if !known {
					return []tok{{kind: "list", t: l}}
				}
			}
			if f.mustBe(v, "") {
				return j.all
			}
			return []tok{{kind: "list", t: l, pend: v, all: j.all}}
		}
	}
	return []tok{{kind: "list", t: l}}
}

func (m *merge) because() string {
	if m.why == "" {
		return ""
	}
	return " (" + m.why + ")"
}

// held: the text a pending text item or string has at the head of loop le.
func (m *merge) held(le *LoopEntry, p *Term) *Term {
	if isStringT(p.typ) {
		return p
	}
	return m.at(le, fieldLoc(p, "Text"))
}

// at: what is at loc when a round of le starts.
func (m *merge) at(le *LoopEntry, loc *Term) *Term { return m.c.e.load0(le.at, loc) }

func (m *merge) heldNow(st *State, p *Term) *Term {
	if isStringT(p.typ) {
		return p
	}
	return m.c.e.load0(st, fieldLoc(p, "Text"))
}

// closeUp puts unfinished lists and the text behind them together.
func closeUp(ts []tok) []tok {
	var r []tok
	for i := 0; i < len(ts); i++ {
		if ts[i].pend != nil && i+1 < len(ts) && ts[i+1].kind == "text" && ts[i+1].t == ts[i].pend {
			r = append(r, closeUp(ts[i].all)...)
			i++
			continue
		}
		r = append(r, ts[i])
	}
	return r
}

func sameToks(a, b []tok) bool {
	a, b = closeUp(a), closeUp(b)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].kind != b[i].kind || a[i].t != b[i].t {
			return false
		}
	}
	return true
}

func showToks(ts []tok) string {
	var r []string
	for _, t := range closeUp(ts) {
		r = append(r, t.String())
	}
	if len(r) == 0 {
		return "nothing"
	}
	return strings.Join(r, ", ")
}

func cat(a []tok, b ...tok) []tok { return append(append([]tok(nil), a...), b...) }

// loop: what the list a carries says once its loop is done.
func (m *merge) loop(q *Path, a *carried) *joined {
	k := mergeKey{a.le, a.g}
	if j := m.done[k]; j != nil {
		return j
	}
	j := &joined{bad: "undecided"}
	m.done[k] = j
	w := walkOf(q, a.le)
	if w == nil || w.src == nil {
		j.bad = "the loop that fills " + a.g.String() + " goes over no list"
		return j
	}
	if _, bad := over(m.paths, q, a.le, w.src); bad != "" {
		j.bad = "the loop that fills " + a.g.String() + ": " + bad
		return j
	}
	pends, flags := []*ssa.Phi{nil}, []*ssa.Phi{nil}
	for ph := range a.le.phis {
		t := ph.Type()
		if isDocType(t, m.c.p, "Text") || isStringT(t) {
			pends = append(pends, ph)
		}
		if isBoolT(t) {
			flags = append(flags, ph)
		}
	}
	byName := func(s []*ssa.Phi) {
		sort.Slice(s, func(i, k int) bool { return s[i] != nil && (s[k] == nil || s[i].Name() < s[k].Name()) })
	}
	byName(pends)
	byName(flags)
	for _, p := range pends {
		for _, fl := range flags {
			if p == nil && fl != nil {
				continue
			}
			got := m.try(q, a, w, p, fl)
			if got.bad == "" {
				*j = *got
				return j
			}
			if j.bad == "undecided" {
				j.bad = got.bad
			}
		}
	}
	return j
}

func (m *merge) try(q *Path, a *carried, w *Walk, pend, flag *ssa.Phi) *joined {
	j := &joined{}
	le := a.le
	init := plain(a.init())
	start := m.content(q, init, le.before)
	in := false // the text held is the last of the list
	if pend != nil {
		j.pend = le.phis[pend]
		i0 := unwrap(le.init[pend])
		switch {
		case i0 != nil && isStringT(i0.typ):
			start = cat(start, m.pieces(q, i0)...)
		case i0 != nil && i0.op == "obj":
			start = cat(start, m.pieces(q, m.c.e.load0(le.before, fieldLoc(i0, "Text")))...)
		case i0 != nil && i0.op == "ta" && isLastOf(i0.args[0], init):
			in = true
		default:
			j.bad = "the text held at first is neither new nor the last of the list"
			return j
		}
	}
	if flag != nil {
		b, known := constBool(le.init[flag])
		if !known {
			j.bad = "the mark is not known at first"
			return j
		}
		j.flag = le.phis[flag]
		j.inPol = b == in
	} else if in {
		// no mark: the text stays the last of the list or a new one is held
		j.bad = "nothing tells whether the text held is in the list"
		return j
	}
	j.all = cat(start, m.content(q, w.src, le.before)...)
	todo, seen := []bool{in}, map[bool]bool{}
	for len(todo) > 0 {
		in := todo[0]
		todo = todo[1:]
		if seen[in] {
			continue
		}
		seen[in] = true
		for _, x := range roundsOf(m.paths, le) {
			m.c.n("rounds")
			next, bad := m.round(x, a, j, pend, flag, in)
			if bad != "" {
				j.bad = bad
				return j
			}
			for _, n := range next {
				todo = append(todo, n)
			}
		}
	}
	return j
}

func constBool(t *Term) (val, known bool) {
	if t != nil && t.op == "const" {
		switch t.sym {
		case "b:true", "true":
			return true, true
		case "b:false", "false":
			return false, true
		}
	}
	return false, false
}

// isLastOf: t is the last element of list.
func isLastOf(t, list *Term) bool {
	if t == nil || t.op != "ld" || t.args[0].op != "ia" || !sameList(t.args[0].args[0], list) {
		return false
	}
	b, o := lin(t.args[0].args[1])
	return o == -1 && b != nil && b.op == "len" && sameList(b.args[0], list)
}

// round checks one way through a round that starts with the text held in the list or not.
func (m *merge) round(x *Path, a *carried, j *joined, pend, flag *ssa.Phi, in bool) (next []bool, bad string) {
	f := x.st.facts
	c := m.c
	g := a.g
	var F *Term
	if flag != nil {
		F = j.flag
		if b, known := f.decide(F); known && (b == j.inPol) != in {
			return nil, "" // not this way
		}
	}
	var held *Term
	if pend != nil {
		held = m.held(a.le, j.pend)
		if in && f.mustBe(held, "") {
			m.nonEmpty = true
			return nil, ""
		}
	}
	w := walkOf(x, a.le)
	if w == nil || w.src == nil {
		return nil, "a round of the loop that fills " + g.String() + " is not on an element"
	}
	e := m.elemOf(w)
	// the last element of the list, when texts are joined to it there
	var last *Term
	for _, ev := range x.ev() {
		if ev.kind == "store" && ev.a[0].op == "fa" && ev.a[0].sym == "Text" {
			if t := ev.a[0].args[0]; t.op == "ta" && isLastOf(t.args[0], g) {
				last = t
			}
		}
	}
	G := tok{kind: "list", t: g}
	before := []tok{G}
	rep := []tok{G} // what g says when the round ends
	if last != nil && pend == nil {
		before = cat(before, m.pieces(x, m.at(a.le, fieldLoc(last, "Text")))...)
		rep = cat(rep, m.pieces(x, c.e.load0(x.st, fieldLoc(last, "Text")))...)
	}
	if pend != nil {
		before = cat(before, m.pieces(x, held)...)
		if in {
			rep = cat(rep, m.pieces(x, m.heldNow(x.st, j.pend))...)
		}
	}
	nv := plain(c.nextOf(a, x))
	var xs []*Term
	for nv != nil && nv != g {
		if nv.op != "append" {
			return nil, "a round makes " + g.String() + " into " + nv.String()
		}
		xs = append(append([]*Term(nil), nv.args[1:]...), xs...)
		nv = plain(nv.args[0])
	}
	if nv == nil {
		return nil, "a round leaves an unknown list"
	}
	after := rep
	for _, y := range xs {
		after = cat(after, m.item(x, y, x.st)...)
	}
	nextIn := false
	if pend != nil {
		p1 := unwrap(x.phis[pend])
		if flag != nil {
			n := x.phis[flag]
			if b, known := constBool(n); known {
				nextIn = b == j.inPol
			} else if n == F {
				nextIn = in
			} else {
				return nil, "a round leaves the mark unknown"
			}
		}
		if isStringT(j.pend.typ) {
			if nextIn {
				return nil, "a string is not in the list"
			}
			after = cat(after, m.pieces(x, p1)...)
		} else {
			put := false
			for _, y := range xs {
				put = put || unwrap(y) == p1
			}
			put = put || in && p1 == j.pend
			if p1 != j.pend && (p1 == nil || p1.op != "obj" || objNum(p1) <= a.le.nobj) {
				return nil, "a round goes on with a text that is not new"
			}
			switch {
			case nextIn && len(xs) > 0 && unwrap(xs[len(xs)-1]) != p1, nextIn && len(xs) == 0 && !(in && p1 == j.pend):
				return nil, "the text held is taken to be the last of the list, which it is not"
			case !nextIn && put:
				return nil, "a text that is in the list already is held on to and put there again"
			case !nextIn:
				after = cat(after, m.pieces(x, m.heldNow(x.st, p1))...)
			}
		}
	}
	for _, y := range xs {
		if y := unwrap(y); y.op == "obj" && objNum(y) <= a.le.nobj {
			return nil, "a round puts the same item in again"
		} else if y.op == "obj" || y.op == "sym" {
			n := 0
			for _, z := range xs {
				if unwrap(z) == y {
					n++
				}
			}
			if n > 1 {
				return nil, "a round puts an item in twice"
			}
		}
	}
	want := cat(before, m.element(x, e, a.le.at)...)
	if !sameToks(after, want) {
		return nil, "a round turns " + showToks(want) + " into " + showToks(after)
	}
	if s := m.spaces(x, a, e, pend, j, last, xs); s != "" {
		return nil, s
	}
	return []bool{nextIn}, ""
}

func (m *merge) elemOf(w *Walk) *Term {
	return mk("ld", "", w.src.typ.Underlying().(*types.Slice).Elem(), mk("ia", "", nil, plain(w.list), w.idx))
}

// spaces: the mark that blanks count goes along with a text.
func (m *merge) spaces(x *Path, a *carried, e *Term, pend *ssa.Phi, j *joined, last *Term, xs []*Term) string {
	f := x.st.facts
	pt := types.NewPointer(m.textT)
	if is, known := f.decide(mk("isT", tstr(pt), types.Typ[types.Bool], e)); !known || !is {
		return ""
	}
	ev := m.at(a.le, fieldLoc(mk("ta", tstr(pt), pt, e), "XMLSpace"))
	et := m.at(a.le, fieldLoc(mk("ta", tstr(pt), pt, e), "Text"))
	var into *Term
	switch {
	case pend != nil && !isStringT(j.pend.typ):
		into = unwrap(x.phis[pend])
	case pend == nil && last != nil:
		into = last
	case pend == nil && len(xs) == 1:
		into = unwrap(xs[0])
	}
	if into == nil || stripTA(into) == e {
		return ""
	}
	now := m.c.e.load0(x.st, fieldLoc(into, "XMLSpace"))
	old := m.at(a.le, fieldLoc(into, "XMLSpace"))
	if now == ev && (into.op == "obj" || !f.mayBe(ev, "")) || f.mustBe(now, "preserve") {
		return ""
	}
	if now == old && (f.mustBe(ev, "") || f.mustBe(et, "") || !f.mayBe(old, "")) {
		return ""
	}
	if into.op == "obj" && f.mustBe(ev, "") {
		return ""
	}
	return "the mark that blanks count is lost where a text is joined"
}

// result: what q returns is the paragraph merged.
func (m *merge) result(q *Path) string {
	c := m.c
	if len(q.rets) != 1 {
		return "no result"
	}
	res := q.rets[0]
	recv := m.recv
	if recv == nil {
		return "no receiver"
	}
	var list *Term
	st := fieldsOf(c.p.namedType("Paragraph"))
	for i := 0; i < st.NumFields(); i++ {
		name := st.Field(i).Name()
		var v *Term
		if res.op == "struct" && i < len(res.args) {
			v = res.args[i]
		} else {
			v = c.e.load(q.st, fieldLoc(unwrap(res), name), st.Field(i).Type())
		}
		if name == "Children" {
			list = plain(v)
			continue
		}
		if name == "XMLName" {
			continue
		}
		if want := c.e.load(q.st, fieldLoc(recv, name), st.Field(i).Type()); v != want {
			return "the merged paragraph gets another " + name
		}
	}
	if list == nil {
		return "the merged paragraph has no children"
	}
	src := mk("ld", "", list.typ, fieldLoc(recv, "Children"))
	f := q.st.facts
	none := func() bool {
		iv := f.interval(mk("len", "", types.Typ[types.Int], src))
		return iv.hasHi && iv.hi <= 0 || f.isNil(src)
	}
	if (emptyList(list) || sameList(list, src)) && none() {
		return ""
	}
	a := carriedBy(q, list)
	if a == nil {
		return "the children of the merged paragraph are " + list.String()
	}
	if !emptyList(plain(a.init())) {
		return "the children of the merged paragraph do not start empty"
	}
	if _, bad := over(m.paths, q, a.le, src); bad != "" {
		return "the loop that goes over the children: " + bad
	}
	prevs := []*ssa.Phi{nil}
	for ph := range a.le.phis {
		if isDocType(ph.Type(), c.p, "Run") && q.st.facts != nil {
			if i := a.le.init[ph]; i != nil && i.op == "nil" {
				prevs = append(prevs, ph)
			}
		}
	}
	sort.Slice(prevs, func(i, k int) bool {
		return prevs[i] != nil && (prevs[k] == nil || prevs[i].Name() < prevs[k].Name())
	})
	why := ""
	for _, p := range prevs {
		why1 := ""
		for _, x := range roundsOf(m.paths, a.le) {
			c.n("rounds")
			if s := m.outer(x, a, p); s != "" {
				why1 = s
				break
			}
		}
		if why1 == "" {
			return ""
		}
		if why == "" {
			why = why1
		}
	}
	return why
}

// outer: one round of the loop over the children of the paragraph.
func (m *merge) outer(x *Path, a *carried, prev *ssa.Phi) string {
	c := m.c
	f := x.st.facts
	w := walkOf(x, a.le)
	if w == nil || w.src == nil {
		return "a round is on no child"
	}
	e := m.elemOf(w)
	pt := types.NewPointer(m.runT)
	isRun, known := f.decide(mk("isT", tstr(pt), types.Typ[types.Bool], e))
	o := mk("ta", tstr(pt), pt, e)
	var R, R1 *Term
	if prev != nil {
		R = a.le.phis[prev]
		R1 = unwrap(x.phis[prev])
	}
	xs, ok := added(a.g, plain(c.nextOf(a, x)))
	if !ok {
		return "a round makes the children into " + c.nextOf(a, x).String()
	}
	at := func(p *Term, n string) *Term { return m.at(a.le, fieldLoc(p, n)) }
	src := func() []tok { return m.content(x, at(o, "Children"), a.le.at) }
	listOf := func(r *Term) []tok { return m.content(x, c.e.load0(x.st, fieldLoc(r, "Children")), x.st) }
	switch len(xs) {
	case 1:
		y := unwrap(xs[0])
		if stripTA(y) == e {
			if known && !isRun || prev == nil {
				if R1 != nil && R1.op != "nil" && !f.isNil(R1) {
					return "runs are taken to be adjacent over a child between them"
				}
				if prev == nil && !(known && !isRun) {
					c.n("runs kept as they are")
				}
				return ""
			}
			if R1 == nil || R1.op == "nil" {
				return ""
			}
			return "a run of the original is held on to, to be written to"
		}
		if y.op != "obj" || y.typ == nil || !isDocType(y.typ, c.p, "Run") || !known || !isRun {
			return "a child is replaced by " + y.String()
		}
		if objNum(y) <= a.le.nobj {
			return "a round puts the same run in again"
		}
		for i := 0; i < m.run.NumFields(); i++ {
			n := m.run.Field(i).Name()
			if n == "Children" || n == "XMLName" {
				continue
			}
			now := c.e.load(x.st, fieldLoc(y, n), m.run.Field(i).Type())
			if want := c.e.load(a.le.at, fieldLoc(o, n), m.run.Field(i).Type()); now != want && !f.mustBe(want, "") {
				return "a run loses its " + n
			}
		}
		if got := listOf(y); !sameToks(got, src()) {
			return "a run with " + showToks(src()) + " becomes one with " + showToks(got) + m.because()
		}
		if R1 != nil && R1.op != "nil" && R1 != y {
			return "the run held to be joined to is not the one put last"
		}
		return ""
	case 0:
		if !known || !isRun {
			return "a child that is not a run is left out"
		}
		if prev == nil {
			// joined to the last of the list
			for _, ev := range x.ev() {
				if ev.kind == "store" && ev.a[0].op == "fa" && ev.a[0].sym == "Children" {
					if t := ev.a[0].args[0]; t.op == "ta" && isLastOf(t.args[0], a.g) {
						R = t
					}
				}
			}
		}
		s := src()
		if len(s) == 0 && f.mustBe(at(o, "InstrText"), "") {
			if prev == nil || R1 == R {
				return ""
			}
		}
		if R == nil || !f.nonNil(R) {
			return "a run is left out"
		}
		old := at(R, "Children")
		got := listOf(R)
		want := cat(m.content(x, old, a.le.at), s...)
		if !sameToks(got, want) {
			return "joining runs turns " + showToks(want) + " into " + showToks(got) + m.because()
		}
		if !f.mustBe(at(o, "InstrText"), "") {
			return "a run with instruction text is joined and loses it"
		}
		if prev != nil && R1 != R {
			return "the run joined to is let go of for another that is not the last"
		}
		if !m.allowed(x, a.le.at, R, e, o) {
			return "runs are joined without the rule allowing it"
		}
		c.n("joins")
		return ""
	}
	return "a round puts more than one child in"
}

// allowed: the rule was asked about these two runs and said yes.
func (m *merge) allowed(x *Path, at *State, R, e, o *Term) bool {
	for _, ev := range x.ev() {
		if ev.kind != "call" || ev.callee != nil || !strings.HasPrefix(ev.sym, "dyn:") || len(ev.a) != 2 || len(ev.res) != 1 {
			continue
		}
		if v, known := x.st.facts.decide(ev.res[0]); !known || !v {
			continue
		}
		if unwrap(ev.a[0]) != R {
			continue
		}
		r := unwrap(ev.a[1])
		if r == o || stripTA(r) == e {
			return true
		}
		if r.op == "obj" {
			same := true
			for i := 0; i < m.run.NumFields(); i++ {
				n := m.run.Field(i).Name()
				if n == "Children" || n == "XMLName" {
					continue
				}
				t := m.run.Field(i).Type()
				same = same && m.c.e.load(x.st, fieldLoc(r, n), t) == m.c.e.load(at, fieldLoc(o, n), t)
			}
			if same {
				return true
			}
		}
	}
	return false
}
