package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// filtering describes a list that was replaced by some of its own elements, as a loop over all of them decided.
type filtering struct {
	le     *LoopEntry
	rounds []filterRound
	same   bool // the list is known to be empty and stays so
}

type filterRound struct {
	q    *Path
	keep bool
	elem *Term
}

// carried is a value that changes from round to round.
type carried struct {
	le  *LoopEntry
	ph  *ssa.Phi
	loc *Term
	g   *Term
}

// carriedBy finds the loop passed on q that carries v.
func carriedBy(q *Path, v *Term) *carried {
	if v == nil {
		return nil
	}
	for _, ev := range loopEvents(q) {
		for ph, g := range ev.entry.phis {
			if g == v {
				return &carried{ev.entry, ph, nil, g}
			}
		}
		for loc, g := range ev.entry.locs {
			if g == v {
				return &carried{ev.entry, nil, loc, g}
			}
		}
	}
	return nil
}

func (a *carried) init() *Term {
	if a.ph != nil {
		return a.le.init[a.ph]
	}
	return a.le.locInit[a.loc]
}

func (c *Ctx) nextOf(a *carried, x *Path) *Term {
	if a.ph != nil {
		return x.phis[a.ph]
	}
	return c.e.load0(x.st, a.loc)
}

// roundsOf: the paths that go round loop le once more.
func roundsOf(paths []*Path, le *LoopEntry) []*Path {
	var r []*Path
	for _, x := range paths {
		if x.outcome == "back" && x.hdr == le {
			r = append(r, x)
		}
	}
	return r
}

// over: the loop le, as passed on q, has gone over every element of list, first to last, one at a time.
func over(paths []*Path, q *Path, le *LoopEntry, list *Term) (*Walk, string) {
	w := walkOf(q, le)
	if w == nil || w.src == nil || !sameList(w.src, list) {
		return nil, "it does not go over the list"
	}
	if !w.first {
		return nil, "it does not start with the first element"
	}
	if !w.done {
		return nil, "it is left before the last element"
	}
	for _, x := range roundsOf(paths, le) {
		xw := walkOf(x, le)
		if xw == nil || !xw.steps(x) {
			return nil, "a round does not move on by one element"
		}
	}
	return w, ""
}

// visited: some loop on q has gone over every element of list; each round and element is handed to f.
func (c *Ctx) visited(paths []*Path, q *Path, list *Term, f func(x *Path, elem func(*Term) bool) string) string {
	why := "no loop goes over " + list.String()
	if iv := q.st.facts.interval(mk("len", "", types.Typ[types.Int], list)); iv.hasHi && iv.hi <= 0 || q.st.facts.isNil(list) {
		return ""
	}
	for _, ev := range loopEvents(q) {
		if _, bad := over(paths, q, ev.entry, list); bad != "" {
			if w := walkOf(q, ev.entry); w != nil && w.src != nil && sameList(w.src, list) {
				why = bad
			}
			continue
		}
		why = ""
		for _, x := range roundsOf(paths, ev.entry) {
			xw := walkOf(x, ev.entry)
			if s := f(x, func(t *Term) bool { return isElem(unwrap(t), xw.src, xw.idx) || isElem(unwrap(t), xw.list, xw.idx) }); s != "" {
				why = s
			}
		}
		if why == "" {
			return ""
		}
	}
	return why
}

// filtered: what became of the list that was at loc when q ends.
func (c *Ctx) filtered(paths []*Path, q *Path, loc *Term) (*filtering, string) {
	v := c.e.load0(q.st, loc)
	for v.op == "slice" && v.args[1] == nil && (v.args[2] == nil || v.args[2].op == "len" && v.args[2].args[0] == v.args[0]) {
		v = v.args[0]
	}
	isOld := func(t *Term) bool { return t != nil && t.op == "ld" && sameLoc(t.args[0], loc) }
	old := mk("ld", "", locType(loc), loc)
	if isOld(v) || emptyList(v) {
		if iv := q.st.facts.interval(mk("len", "", types.Typ[types.Int], old)); iv.hasHi && iv.hi <= 0 || q.st.facts.isNil(old) {
			return &filtering{same: true}, ""
		}
		if isOld(v) {
			return nil, "the list stays as it is"
		}
		return nil, "the list is emptied"
	}
	a := carriedBy(q, v)
	if a == nil {
		return nil, "the list becomes " + v.String()
	}
	i := a.init()
	start := i != nil && emptyList(i)
	if i != nil && i.op == "slice" && i.args[1] == nil && i.args[2] != nil && isOld(plain(i.args[0])) {
		if n, ok := i.args[2].intVal(); ok && n == 0 {
			start = true
		}
	}
	if !start {
		return nil, "the new list does not start empty"
	}
	w := walkOf(q, a.le)
	if w == nil || w.src == nil || !isOld(plain(w.src)) {
		return nil, "the loop that fills the new list does not go over the old one"
	}
	if _, bad := over(paths, q, a.le, w.src); bad != "" {
		return nil, "the loop that fills the new list: " + bad
	}
	fl := &filtering{le: a.le}
	for _, x := range roundsOf(paths, a.le) {
		xw := walkOf(x, a.le)
		xs, ok := added(a.g, c.nextOf(a, x))
		if !ok || len(xs) > 1 {
			return nil, "a round does something else than keeping or leaving out its element"
		}
		r := filterRound{q: x, keep: len(xs) == 1}
		if r.keep && !isElem(xs[0], xw.src, xw.idx) && !isElem(xs[0], xw.list, xw.idx) {
			return nil, "a round puts " + xs[0].String() + " into the list, not its element"
		}
		r.elem = mk("ld", "", nil, mk("ia", "", nil, plain(xw.src), xw.idx))
		fl.rounds = append(fl.rounds, r)
	}
	return fl, ""
}

// otherWrites: memory that existed before and is not one of the allowed places is written on q.
func otherWrites(q *Path, allowed func(*Term) bool) *Event {
	for _, ev := range q.ev() {
		switch ev.kind {
		case "store", "mapset", "copy", "clear", "mapdel":
			loc := ev.a[0]
			if r := base(loc); r != nil && r.op == "obj" || rootOf(loc).op == "obj" {
				continue
			}
			if ev.kind == "store" && allowed(loc) {
				continue
			}
			return ev
		}
	}
	return nil
}

// ---------------------------------------------------------------- C17

func checkC17(c *Ctx) string {
	for _, k := range []struct{ typ, list string }{{"Body", "Items"}, {"Paragraph", "Children"}, {"Run", "Children"}} {
		fn := c.p.method(k.typ, "KeepElements")
		if fn == nil || len(fn.Params) != 2 {
			c.fail("anchor", nil, nil, k.typ, "%s.KeepElements(names...) is gone", k.typ)
			continue
		}
		c.n("filters")
		recv := mk("param", fn.Params[0].Name(), fn.Params[0].Type())
		names := mk("param", fn.Params[1].Name(), fn.Params[1].Type())
		loc := fieldLoc(recv, k.list)
		if loc == nil {
			c.fail("anchor", fn, nil, k.list, "%s has no %s", k.typ, k.list)
			continue
		}
		paths := c.paths(fn)
		for _, q := range paths {
			if q.outcome == "panic" {
				continue
			}
			if ev := otherWrites(q, func(l *Term) bool { return l == loc }); ev != nil {
				c.fail("elsewhere", fn, ev.instr, "write", "something else than the list is changed: %v", ev.a[0])
			}
			if q.outcome != "return" {
				continue
			}
			c.n("returns")
			fl, why := c.filtered(paths, q, loc)
			if why != "" {
				c.fail("filter", fn, lastInstr(q), k.list, "%s", why)
				continue
			}
			for _, r := range fl.rounds {
				c.n("rounds")
				xw := walkOf(r.q, fl.le)
				isE := func(t *Term) bool {
					t = unwrap(t)
					return isElem(t, xw.src, xw.idx) || isElem(t, xw.list, xw.idx)
				}
				if why := c.namedKind(paths, r, names, isE); why != "" {
					c.fail("kind", fn, lastInstr(r.q), k.list, "%s", why)
				}
			}
		}
	}
	c.atLeast("filters", 3)
	c.atLeast("returns", 3)
	c.atLeast("rounds", 6)
	return "the list ends up as what one loop over all its elements kept, in order: an element is put at the end of the new list, once, in the rounds where the name of its own dynamic type is among the names given, and in no others; membership is decided by a table filled from every name or by a search through all of them"
}

// kindName: t is the name of the dynamic type of the element.
func kindName(t *Term, isE func(*Term) bool) bool {
	if t == nil || t.op != "call" || len(t.args) == 0 {
		return false
	}
	switch t.sym {
	case "(reflect.Type).String":
		u := t.args[0]
		if u.op == "call" && u.sym == "(reflect.Value).Type" {
			v := u.args[0]
			return v.op == "call" && v.sym == "reflect.ValueOf" && isE(v.args[0])
		}
		return u.op == "call" && u.sym == "reflect.TypeOf" && isE(u.args[0])
	}
	return false
}

// sprintfKind: the round formatted the element's type with %T.
func sprintfKind(q *Path, t *Term, isE func(*Term) bool) bool {
	if t == nil || t.op != "call" || t.sym != "fmt.Sprintf" || len(t.args) != 2 {
		return false
	}
	if s, ok := t.args[0].strVal(); !ok || s != "%T" {
		return false
	}
	l := t.args[1]
	if l.op == "arrslice" || l.op == "slice" {
		l = l.args[0]
	}
	for loc, v := range q.st.heap {
		if loc.op == "ia" && loc.args[0] == l && isE(v) {
			return true
		}
	}
	return false
}

// namedKind: the round keeps its element exactly when the name of its kind is among names.
func (c *Ctx) namedKind(paths []*Path, r filterRound, names *Term, isE func(*Term) bool) string {
	f := r.q.st.facts
	kind := func(t *Term) bool { return kindName(t, isE) || sprintfKind(r.q, t, isE) }
	// a table of the names
	for k, b := range f.bools {
		if k.op != "ld" || k.args[0].op != "mi" || !kind(k.args[0].args[1]) {
			continue
		}
		if why := c.tableOf(paths, r.q, k.args[0].args[0], names, k.args[0].sym != "has"); why != "" {
			return why
		}
		if b != r.keep {
			if r.keep {
				return "an element whose kind is not named is kept"
			}
			return "an element whose kind is named is left out"
		}
		return ""
	}
	// a search through the names
	hit := func(x *Path, isName func(*Term) bool) (eq, known bool) {
		for k, b := range x.st.facts.bools {
			if k.op == "bin" && k.sym == "==" {
				for i := 0; i < 2; i++ {
					if isName(k.args[i]) && kind(k.args[1-i]) {
						return b, true
					}
				}
			}
		}
		return false, false
	}
	for _, ev := range loopEvents(r.q) {
		w := walkOf(r.q, ev.entry)
		if w == nil || w.src == nil || !sameList(w.src, names) {
			continue
		}
		here := func(t *Term) bool { return isElem(t, w.src, w.idx) }
		if eq, known := hit(r.q, here); known && eq {
			if !r.keep {
				return "an element whose kind is named is left out"
			}
			return ""
		}
		if _, bad := over(paths, r.q, ev.entry, names); bad != "" {
			continue
		}
		// all names were looked at: a flag may tell what was found
		var flag *carried
		val := false
		for ph, g := range ev.entry.phis {
			if b, known := f.decide(g); known && isBoolT(ph.Type()) {
				flag, val = &carried{ev.entry, ph, nil, g}, b
			}
		}
		ok := true
		for _, x := range roundsOf(paths, ev.entry) {
			xw := walkOf(x, ev.entry)
			eq, known := hit(x, func(t *Term) bool { return isElem(t, xw.src, xw.idx) })
			if !known {
				ok = false
				continue
			}
			if flag == nil {
				ok = ok && !eq
				continue
			}
			nv := x.phis[flag.ph]
			b, isB := x.st.facts.decide(nv)
			switch {
			case eq:
				ok = ok && isB && b
			default:
				ok = ok && nv == flag.g
			}
		}
		if flag != nil {
			if b, known := flag.init().boolVal(); !known || b {
				ok = false
			}
		}
		if !ok {
			return "the search through the names does not tell whether the kind is among them"
		}
		found := flag != nil && val
		if found != r.keep {
			if r.keep {
				return "an element whose kind is not named is kept"
			}
			return "an element whose kind is named is left out"
		}
		return ""
	}
	return "whether the element is kept does not depend on the name of its kind being among the names"
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// tableOf: map m holds exactly the names; with val, as entries that are true.
func (c *Ctx) tableOf(paths []*Path, q *Path, m, names *Term, val bool) string {
	if rootOf(m).op != "obj" {
		return "the table of names is not one of this call"
	}
	for _, ev := range loopEvents(q) {
		if _, bad := over(paths, q, ev.entry, names); bad != "" {
			continue
		}
		for _, x := range roundsOf(paths, ev.entry) {
			xw := walkOf(x, ev.entry)
			n := 0
			for _, ev := range roundEvents(x) {
				if ev.kind != "mapset" || ev.a[0] != m {
					continue
				}
				if !isElem(ev.a[1], xw.src, xw.idx) {
					return "the table gets an entry for something else than a name"
				}
				if b, isB := ev.a[2].boolVal(); val && !(isB && b) {
					return "the table's entry for a name does not say that it is there"
				}
				n++
			}
			if n == 0 {
				return "a name does not get into the table"
			}
		}
		// nothing else gets into or out of it
		le := ev.entry
		for _, ev := range q.ev() {
			if (ev.kind == "mapset" || ev.kind == "mapdel" || ev.kind == "clear") && ev.a[0] == m {
				in := false
				for _, x := range roundsOf(paths, le) {
					for _, e := range roundEvents(x) {
						in = in || e == ev
					}
				}
				if !in {
					return "the table of names is changed outside the loop over the names"
				}
			}
		}
		for _, x := range paths {
			for _, ev := range x.ev() {
				if (ev.kind == "mapdel" || ev.kind == "clear") && ev.a[0] == m {
					return "entries of the table of names are removed"
				}
			}
		}
		return ""
	}
	return "no loop puts every name into the table"
}

// ---------------------------------------------------------------- C16

// dropSpec: which drawings a dropping call removes.
func dropSpec(name string) (kinds []string, nilPic, ok bool) {
	switch name {
	case "DropCanvas":
		return []string{"Canvas"}, false, true
	case "DropShape":
		return []string{"Shape"}, false, true
	case "DropGroup":
		return []string{"Group"}, false, true
	case "DropShapeAndCanvas":
		return []string{"Shape", "Canvas"}, false, true
	case "DropShapeAndCanvasAndGroup":
		return []string{"Shape", "Canvas", "Group"}, false, true
	case "DropNilPicture":
		return nil, true, true
	}
	return nil, false, false
}

var dropNames = []string{"DropCanvas", "DropShape", "DropGroup", "DropShapeAndCanvas", "DropShapeAndCanvasAndGroup", "DropNilPicture"}

// side is one position of a drawing: how far the chain down to its content exists, and what it holds.
type side struct {
	depth int // 0 absent, 1 no graphic, 2 no data, 3 data
	has   map[string]bool
}

func sides() []side {
	r := []side{{depth: 0}, {depth: 1}, {depth: 2}}
	ks := []string{"Canvas", "Shape", "Group", "Pic"}
	for m := 0; m < 16; m++ {
		h := map[string]bool{}
		for i, k := range ks {
			h[k] = m&(1<<i) != 0
		}
		r = append(r, side{3, h})
	}
	return r
}

func (s side) String() string {
	switch s.depth {
	case 0:
		return "absent"
	case 1:
		return "without a graphic"
	case 2:
		return "without graphic data"
	}
	var ks []string
	for k, b := range s.has {
		if b {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return "holding [" + strings.Join(ks, " ") + "]"
}

func dropped(in, an side, kinds []string, nilPic bool) bool {
	if nilPic {
		if in.depth == 0 && an.depth == 0 {
			return true
		}
		for _, s := range []side{in, an} {
			if s.depth == 1 || s.depth == 2 || s.depth == 3 && !s.has["Pic"] {
				return true
			}
		}
		return false
	}
	for _, s := range []side{in, an} {
		for _, k := range kinds {
			if s.depth == 3 && s.has[k] {
				return true
			}
		}
	}
	return false
}

// agrees: what the path found nil or not is so in the case (in, an); fields are what it looked at.
func (s side) agrees(fields []string, isNil bool) bool {
	// fields: Graphic / Graphic.GraphicData / Graphic.GraphicData.X (first element, the position, removed)
	if s.depth < len(fields) {
		return true // not there to be looked at
	}
	var there bool
	switch len(fields) {
	case 0:
		there = s.depth >= 1
	case 1:
		there = s.depth >= 2
	case 2:
		there = s.depth >= 3
	default:
		b, ok := s.has[fields[2]]
		if !ok {
			return true
		}
		there = b
	}
	return there == !isNil
}

func checkC16(c *Ctx) string {
	p := c.p
	all := sides()
	for _, name := range dropNames {
		fn := p.method("Paragraph", name)
		if fn == nil {
			c.fail("anchor", nil, nil, name, "Paragraph.%s is gone", name)
			continue
		}
		kinds, nilPic, _ := dropSpec(name)
		c.n("dropping_calls")
		recv := mk("param", fn.Params[0].Name(), fn.Params[0].Type())
		loc := fieldLoc(recv, "Children")
		paths := c.paths(fn)
		for _, q := range paths {
			if q.outcome == "panic" {
				continue
			}
			if ev := otherWrites(q, func(l *Term) bool {
				return l.op == "fa" && l.sym == "Children" && l.args[0].op == "ta" && l.args[0].sym == "*docx.Run"
			}); ev != nil {
				c.fail("elsewhere", fn, ev.instr, "write", "something else than the children of a run is changed: %v", ev.a[0])
			}
			if q.outcome != "return" {
				continue
			}
			c.n("returns")
			why := c.visited(paths, q, mk("ld", "", locType(loc), loc), func(x *Path, isE func(*Term) bool) string {
				var run *Term
				known := false
				for k, b := range x.st.facts.bools {
					if k.op == "isT" && k.sym == "*docx.Run" && isE(k.args[0]) {
						known = true
						if b {
							run = mk("ta", k.sym, p.elemPtr("Run"), k.args[0])
						}
					}
				}
				for k, d := range x.st.facts.dyn {
					if isE(k) {
						known = true
						if d == "*docx.Run" {
							run = mk("ta", d, p.elemPtr("Run"), k)
						}
					}
				}
				if !known {
					return "a child is passed over without asking whether it is a run"
				}
				if run == nil {
					if ev := otherWrites(x, func(l *Term) bool { return !contains(roundEvents(x), l) }); ev != nil {
						return "a child that is not a run is changed"
					}
					return ""
				}
				if x.st.facts.isNil(run) {
					return ""
				}
				c.n("runs")
				fl, why := c.filtered(paths, x, fieldLoc(run, "Children"))
				if why != "" {
					return "the children of a run: " + why
				}
				for _, r := range fl.rounds {
					c.n("rounds")
					if why := dropRound(r, fl.le, all, kinds, nilPic, func() { c.n("cases") }); why != "" {
						c.fail("kind", fn, lastInstr(r.q), "drawing", "%s", why)
					}
				}
				return ""
			})
			if why != "" {
				c.fail("filter", fn, lastInstr(q), "Children", "%s", why)
			}
		}
	}
	c.dropInBody()
	c.atLeast("dropping_calls", 6)
	c.atLeast("returns", 6)
	c.atLeast("rounds", 30)
	c.atLeast("cases", 2000)
	c.atLeast("body_rounds", 3)
	return "in every run that is a child of the paragraph, the list of children ends up as what one loop over all of them kept, in order; for each of the 361 cases of what a drawing holds inline and anchored (absent, without graphic, without data, or with any of canvas, shape, group and picture) every path of a round that the case can take leaves the drawing out exactly when the name of the call says so, and whatever is not a drawing is kept; the body applies the call so named to each of its paragraphs and each paragraph of each cell of each table"
}

func contains(evs []*Event, loc *Term) bool {
	for _, ev := range evs {
		if ev.kind == "store" && ev.a[0] == loc {
			return true
		}
	}
	return false
}

// dropRound judges one round of the loop over a run's children.
func dropRound(r filterRound, le *LoopEntry, all []side, kinds []string, nilPic bool, count func()) string {
	f := r.q.st.facts
	w := walkOf(r.q, le)
	isE := func(t *Term) bool {
		t = unwrap(t)
		return isElem(t, w.src, w.idx) || isElem(t, w.list, w.idx)
	}
	isDrawing, asked := false, false
	for k, b := range f.bools {
		if k.op == "isT" && isE(k.args[0]) {
			if k.sym == "*docx.Drawing" {
				isDrawing, asked = b, true
			} else if b {
				asked = true // something else
			}
		}
	}
	for k, d := range f.dyn {
		if isE(k) {
			isDrawing, asked = d == "*docx.Drawing", true
		}
	}
	if asked && !isDrawing {
		if !r.keep {
			return "a child that is not a drawing is left out"
		}
		return ""
	}
	if !asked && !r.keep {
		return "a child is left out without asking whether it is a drawing"
	}
	type look struct {
		pos    string
		fields []string
		isNil  bool
	}
	var looks []look
	for t, n := range f.nilf {
		var fs []string
		x := t
		ok := true
		for x.op == "ld" && x.args[0].op == "fa" || x.op == "field" {
			if x.op == "ld" {
				fs = append([]string{x.args[0].sym}, fs...)
				x = x.args[0].args[0]
			} else {
				fs = append([]string{x.sym}, fs...)
				x = x.args[0]
			}
		}
		if !(x.op == "ta" && isE(x.args[0])) || len(fs) == 0 {
			ok = false
		}
		if ok {
			looks = append(looks, look{fs[0], fs[1:], n})
		}
	}
	for _, in := range all {
	next:
		for _, an := range all {
			for _, l := range looks {
				s := in
				switch l.pos {
				case "Inline":
				case "Anchor":
					s = an
				default:
					continue
				}
				if !s.agrees(l.fields, l.isNil) {
					continue next
				}
			}
			count()
			if d := dropped(in, an, kinds, nilPic); d == r.keep {
				if d {
					return "a drawing with inline " + in.String() + " and anchor " + an.String() + " is kept"
				}
				return "a drawing with inline " + in.String() + " and anchor " + an.String() + " is left out"
			}
		}
	}
	return ""
}

// dropInBody: Body.DropDrawingOf applies the named call to every paragraph.
func (c *Ctx) dropInBody() {
	p := c.p
	fn := p.method("Body", "DropDrawingOf")
	if fn == nil || len(fn.Params) != 2 {
		c.fail("anchor", nil, nil, "Body", "Body.DropDrawingOf(name) is gone")
		return
	}
	recv := mk("param", fn.Params[0].Name(), fn.Params[0].Type())
	name := mk("param", fn.Params[1].Name(), fn.Params[1].Type())
	items := fieldLoc(recv, "Items")
	paths := c.paths(fn)
	unknown := func(x *Path) bool {
		for _, n := range dropNames {
			if x.st.facts.mayBe(name, n[4:]) {
				return false
			}
		}
		return true
	}
	// para: the round applies the call to the paragraph
	para := func(x *Path, isP func(*Term) bool) string {
		c.n("body_rounds")
		isP2 := func(t *Term) bool {
			t = unwrap(t)
			return isP(t) || t != nil && t.op == "ta" && isP(t.args[0])
		}
		isM := func(t *Term) bool {
			return t != nil && t.op == "call" && t.sym == "(reflect.Value).MethodByName" && t.args[0].op == "call" && t.args[0].sym == "reflect.ValueOf" && isP2(t.args[0].args[0]) && isDropName(t.args[1], name)
		}
		n := 0
		for _, ev := range roundEvents(x) {
			switch {
			case ev.kind == "call" && ev.sym == "(reflect.Value).Call" && len(ev.a) > 0:
				if !isM(ev.a[0]) {
					return "another method than the named one is called, or not on the paragraph of the round"
				}
				n++
			case ev.kind == "enter" || ev.kind == "call":
				m := dropMethod(ev)
				if m == "" {
					continue
				}
				if !x.st.facts.mustBe(name, m[4:]) {
					return m + " is called although another name may be given"
				}
				if len(ev.a) == 0 || !isP2(ev.a[0]) {
					return m + " is not called on the paragraph of the round"
				}
				n++
			}
		}
		switch {
		case n > 1:
			return "a paragraph is handled more than once"
		case n == 1:
			return ""
		}
		if unknown(x) {
			return ""
		}
		for k, b := range x.st.facts.bools {
			if !b && k.op == "call" && k.sym == "(reflect.Value).IsValid" && isM(k.args[0]) {
				return ""
			}
		}
		return "a paragraph is passed over"
	}
	field := func(of func(*Term) bool, x *Path, name string) *Term {
		for k := range x.st.facts.bools {
			if k.op == "bin" && k.sym == "<" && k.args[1].op == "len" {
				l := k.args[1].args[0]
				if l.op == "ld" && l.args[0].op == "fa" && l.args[0].sym == name && of(l.args[0].args[0]) {
					return l
				}
			}
		}
		for _, ev := range loopEvents(x) {
			if w := walkOf(x, ev.entry); w != nil && w.src != nil {
				l := plain(w.src)
				if l.op == "ld" && l.args[0].op == "fa" && l.args[0].sym == name && of(l.args[0].args[0]) {
					return l
				}
			}
		}
		return nil
	}
	for _, q := range paths {
		if ev := otherWrites(q, func(l *Term) bool { return l.op == "fa" && l.sym == "Children" }); ev != nil {
			c.fail("elsewhere", fn, ev.instr, "write", "something else than the children of a run is changed: %v", ev.a[0])
		}
		if q.outcome != "return" {
			continue
		}
		if unknown(q) {
			continue
		}
		c.n("body_returns")
		why := c.visited(paths, q, mk("ld", "", locType(items), items), func(x *Path, isE func(*Term) bool) string {
			kind := ""
			no := map[string]bool{}
			for k, b := range x.st.facts.bools {
				if k.op == "isT" && isE(k.args[0]) {
					if b {
						kind = k.sym
					} else {
						no[k.sym] = true
					}
				}
			}
			for k, d := range x.st.facts.dyn {
				if isE(k) {
					kind = d
				}
			}
			if unknown(x) {
				return ""
			}
			switch kind {
			case "*docx.Paragraph":
				return para(x, func(t *Term) bool { return t != nil && t.op == "ta" && isE(t.args[0]) })
			case "*docx.Table":
				isT := func(t *Term) bool { return t != nil && t.op == "ta" && isE(t.args[0]) }
				rows := field(isT, x, "TableRows")
				if rows == nil {
					return "the rows of a table are passed over"
				}
				return c.visited(paths, x, rows, func(x *Path, isR func(*Term) bool) string {
					cells := field(isR, x, "TableCells")
					if cells == nil {
						return "the cells of a row are passed over"
					}
					return c.visited(paths, x, cells, func(x *Path, isC func(*Term) bool) string {
						ps := field(isC, x, "Paragraphs")
						if ps == nil {
							return "the paragraphs of a cell are passed over"
						}
						return c.visited(paths, x, ps, para)
					})
				})
			case "":
				if no["*docx.Paragraph"] && no["*docx.Table"] {
					return ""
				}
				return "an item is passed over without asking whether it is a paragraph or a table"
			}
			return ""
		})
		if why != "" {
			c.fail("body", fn, lastInstr(q), "Items", "%s", why)
		}
	}
	c.atLeast("body_returns", 1)
}

// isDropName: t is "Drop" followed by the name.
func isDropName(t, name *Term) bool {
	if t == nil || t.op != "bin" || t.sym != "+" {
		return false
	}
	s, ok := t.args[0].strVal()
	return ok && s == "Drop" && t.args[1] == name
}

// dropMethod: the dropping method of a paragraph that the event enters or calls.
func dropMethod(ev *Event) string {
	if ev.callee == nil || ev.callee.Signature.Recv() == nil || !strings.HasSuffix(ev.callee.Signature.Recv().Type().String(), ".Paragraph") {
		return ""
	}
	if _, _, ok := dropSpec(ev.callee.Name()); !ok {
		return ""
	}
	return ev.callee.Name()
}

// elemPtr: the pointer type to a named type of the library.
func (p *Program) elemPtr(name string) types.Type {
	if o := p.root.Pkg.Scope().Lookup(name); o != nil {
		return types.NewPointer(o.Type())
	}
	return nil
}
