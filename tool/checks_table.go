package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// built is a list made by a counting loop: how many items, and the value of the item of a round on
// each path through the round.
type built struct {
	count *Term
	items []roundItem
	le    *LoopEntry
}

type roundItem struct {
	v *Term
	q *Path
	w *Walk
}

// builtList recognises a list of path q that a loop filled with one item per round.
func (c *Ctx) builtList(paths []*Path, q *Path, v *Term) (*built, string) {
	var l *built
	why := "no loop fills it"
	v = plain(v)
	for _, ev := range loopEvents(q) {
		le := ev.entry
		var rounds []*Path
		for _, x := range paths {
			if x.outcome == "back" && x.hdr == le {
				rounds = append(rounds, x)
			}
		}
		if len(rounds) == 0 {
			continue
		}
		b := &built{le: le}
		ok := true
		fills := false
		for _, x := range rounds {
			w := walkOf(x, le)
			var item *Term
			n := 0
			switch v.op {
			case "mkslice":
				for _, ev := range roundEvents(x) {
					if ev.kind != "store" || ev.a[0].op != "ia" || ev.a[0].args[0] != v.args[0] && !sameList(ev.a[0].args[0], v) {
						continue
					}
					fills = true
					if w == nil || ev.a[0].args[1] != w.idx {
						ok = false
						why = "an item is stored at another place than that of the round"
						continue
					}
					n = 1
					item = ev.a[1]
				}
			case "sym":
				for loc, g := range le.locs {
					if g != v {
						continue
					}
					fills = true
					if !emptyList(le.locInit[loc]) {
						ok = false
						why = "the list does not start empty"
					}
					if xs, good := added(g, c.e.load0(x.st, loc)); good {
						n = len(xs)
						if n == 1 {
							item = xs[0]
						}
					} else {
						ok = false
						why = "a round does not put its item at the end"
					}
				}
				for ph, g := range le.phis {
					if g != v {
						continue
					}
					fills = true
					if !emptyList(le.init[ph]) {
						ok = false
						why = "the list does not start empty"
					}
					if xs, good := added(g, x.phis[ph]); good {
						n = len(xs)
						if n == 1 {
							item = xs[0]
						}
					} else {
						ok = false
						why = "a round does not put its item at the end"
					}
				}
			}
			if w == nil || !w.first || !w.round || !w.steps(x) {
				if fills {
					ok = false
					why = "the loop does not go through the indices one by one"
				}
				continue
			}
			if b.count == nil {
				b.count = canonLen(w.bound)
			} else if b.count != canonLen(w.bound) {
				ok = false
			}
			if n > 1 || n == 0 && v.op == "sym" {
				ok = false
				why = "a round adds no item or several"
			}
			b.items = append(b.items, roundItem{c.itemVal(x, item), x, w})
		}
		if !fills {
			continue
		}
		if !ok {
			return nil, why
		}
		// the list is complete on the path at hand
		if w := walkOf(q, le); w == nil || !w.done {
			return nil, "the loop is left before it is complete"
		}
		if v.op == "mkslice" {
			after := false
			for _, ev := range q.ev() {
				if ev.kind == "loop" && ev.entry == le {
					after = true
				}
				if after && (ev.kind == "store" && ev.a[0].op == "ia" && (ev.a[0].args[0] == v.args[0] || sameList(ev.a[0].args[0], v)) || (ev.kind == "copy" || ev.kind == "clear") && stem(ev.a[0]) == v) {
					return nil, "an item is replaced afterwards"
				}
			}
			if canonLen(v.args[1]) != b.count {
				return nil, "the loop runs over " + b.count.String() + " of " + v.args[1].String()
			}
		}
		if l != nil {
			return nil, "two loops fill it"
		}
		l = b
	}
	if l == nil {
		return nil, why
	}
	return l, ""
}

// canonLen resolves the length of a list made with a given length.
func canonLen(t *Term) *Term {
	for t != nil && t.op == "len" {
		u := plain(t.args[0])
		if u.op == "mkslice" && len(u.args) > 1 {
			t = u.args[1]
			continue
		}
		if u != t.args[0] {
			return mk("len", "", t.typ, u)
		}
		break
	}
	return t
}

// field follows pointers and struct fields to a value; nil when something on the way is nil.
func (c *Ctx) fieldAt(q *Path, p *Term, path ...string) *Term {
	_, v, miss := c.follow(q, p, path)
	if miss != nil {
		return nil
	}
	return v
}

func checkC24(c *Ctx) string {
	c.tables()
	c.atLeast("table_calls", 2)
	c.atLeast("returns", 2)
	c.atLeast("cells", 2)
	c.atLeast("rows", 2)
	c.atLeast("border_colours", 12)
	return "rows and cells are lists filled by loops that store one newly made item at each index from the first to the requested number; heights, widths and grid columns come from the entry at the index of their round; every border takes the colour of its own name from the caller's value, or the default where that is missing; nothing hanging off the caller's arguments is written"
}

func (c *Ctx) tables() {
	p := c.p
	for _, name := range []string{"AddTable", "AddTableTwips"} {
		fn := p.method("Docx", name)
		if fn == nil || len(fn.Params) != 5 {
			c.fail("anchor", nil, nil, name, "Docx.%s(rows, columns, width, colours) is gone", name)
			continue
		}
		c.n("table_calls")
		par := func(i int) *Term { return mk("param", fn.Params[i].Name(), fn.Params[i].Type()) }
		twips := name == "AddTableTwips"
		rowsN, colsN := par(1), par(2)
		if twips {
			rowsN, colsN = mk("len", "", types.Typ[types.Int], par(1)), mk("len", "", types.Typ[types.Int], par(2))
		}
		paths := c.paths(fn)
		o := c.origins(paths)
		// the caller's arguments
		for _, q := range paths {
			c.effects(q, func(ev *Event, loc *Term, how string) {
				if q.outcome == "panic" || ev.kind == "store" && rootOf(loc).op == "obj" && loc.op != "ia" {
					return
				}
				b := o.bases(c, q, loc)
				for i := 1; i <= 4; i++ {
					if b[par(i)] {
						c.fail("argument", fn, ev.instr, fn.Params[i].Name(), "the caller's %s is %s", fn.Params[i].Name(), how)
					}
				}
			})
		}
		for _, q := range paths {
			if q.outcome != "return" {
				continue
			}
			c.n("returns")
			tbl := q.rets[0]
			if tbl.op != "obj" {
				c.fail("table", fn, lastInstr(q), "new", "the call returns %v, not a new table", tbl)
				continue
			}
			c.rows(fn.Name(), paths, q, c.fieldAt(q, tbl, "TableRows"), rowsN, colsN, par(1), par(2), twips)
			if twips {
				g := c.fieldAt(q, tbl, "TableGrid", "GridCols")
				l, why := c.builtList(paths, q, orNil(g))
				if l == nil || l.count != colsN {
					c.fail("grid", fn, lastInstr(q), "columns", "the grid does not have one column for each width: %s", why)
				} else {
					for _, it := range l.items {
						c.given(it, par(2), "grid", "grid column", fn.Name(), "W")
					}
				}
			}
			// the width of the table
			w := c.fieldAt(q, tbl, "TableProperties", "Width", "W")
			iv := q.st.facts.interval(par(3))
			if !(iv.hasHi && iv.hi <= 0) && w != par(3) {
				c.fail("width", fn, lastInstr(q), "table", "the table does not get the given width but %v", w)
			}
			if !(iv.hasHi && iv.hi <= 0) {
				c.sizeCounts(q, fn, c.fieldAt(q, tbl, "TableProperties", "Width"), "table")
			}
			for _, b := range []string{"Top", "Left", "Bottom", "Right", "InsideH", "InsideV"} {
				v := c.fieldAt(q, tbl, "TableProperties", "TableBorders", b, "Color")
				c.n("border_colours")
				if why := c.colour(paths, q, v, par(4), b); why != "" {
					c.fail("colour", fn, lastInstr(q), b, "border %s: %s", b, why)
				}
			}
			seen := map[*Term]string{}
			for _, b := range []string{"Top", "Left", "Bottom", "Right", "InsideH", "InsideV"} {
				v := c.fieldAt(q, tbl, "TableProperties", "TableBorders", b)
				if v == nil || v.op != "obj" || seen[v] != "" {
					c.fail("colour", fn, lastInstr(q), b, "border %s is not one of its own: %v %s", b, v, seen[v])
				}
				if v != nil {
					seen[v] = b
				}
			}
		}
	}
}

func orNil(v *Term) *Term {
	if v == nil {
		return mkNil(types.Typ[types.UntypedNil])
	}
	return v
}

func (c *Ctx) rows(name string, paths []*Path, q *Path, v, rowsN, colsN, heights, widths *Term, twips bool) {
	fn := c.p.method("Docx", name)
	l, why := c.builtList(paths, q, orNil(v))
	if l == nil {
		c.fail("rows", fn, lastInstr(q), "list", "the rows are not one new row for each requested: %s", why)
		return
	}
	if l.count != rowsN {
		c.fail("rows", fn, lastInstr(q), "count", "%v rows are made, not %v", l.count, rowsN)
	}
	for _, it := range l.items {
		c.n("rows")
		if it.v == nil || it.v.op != "obj" || objNum(it.v) <= l.le.nobj {
			c.fail("rows", fn, lastInstr(it.q), "item", "a round does not make a row of its own: %v", it.v)
			continue
		}
		cells := c.fieldAt(it.q, it.v, "TableCells")
		cl, why := c.builtList(paths, it.q, orNil(cells))
		if cl == nil {
			c.fail("cells", fn, lastInstr(it.q), "list", "the cells are not one new cell for each column: %s", why)
			continue
		}
		if cs := plain(cells); cs.op == "mkslice" && objNum(cs.args[0]) <= l.le.nobj {
			c.fail("cells", fn, lastInstr(it.q), "shared", "rows share their list of cells")
		}
		if cl.count != colsN {
			c.fail("cells", fn, lastInstr(it.q), "count", "%v cells are made in a row, not %v", cl.count, colsN)
		}
		for _, ci := range cl.items {
			c.n("cells")
			if ci.v == nil || ci.v.op != "obj" || objNum(ci.v) <= cl.le.nobj {
				c.fail("cells", fn, lastInstr(ci.q), "item", "a round does not make a cell of its own: %v", ci.v)
				continue
			}
			if twips {
				c.given(ci, widths, "width", "cell width", name, "TableCellProperties", "TableCellWidth", "W")
			}
		}
		if twips {
			c.given(it, heights, "height", "row height", name, "TableRowProperties", "TableRowHeight", "Val")
		}
	}
}

// given: the item of a round holds the entry of list at the index of the round, when positive.
func (c *Ctx) given(it roundItem, list *Term, rule, what, name string, path ...string) {
	fn := c.p.method("Docx", name)
	el := mk("ld", "", locElem(list), mk("ia", "", types.NewPointer(locElem(list)), list, it.w.idx))
	iv := it.q.st.facts.interval(el)
	if iv.hasHi && iv.hi <= 0 {
		// not given: whatever is there must not carry another size
		if it.v == nil || it.v.op == "nil" {
			return
		}
		_, v, miss := c.follow(it.q, it.v, path)
		if miss == nil && v != el && !isElem(v, list, it.w.idx) && !isZero(v) {
			c.fail(rule, fn, lastInstr(it.q), what+" not given", "the %s becomes %v where none is given", what, v)
		}
		return
	}
	c.n("given_sizes")
	if it.v == nil || it.v.op == "nil" {
		c.fail(rule, fn, lastInstr(it.q), what, "a %s is not set for a positive size", what)
		return
	}
	v := c.fieldAt(it.q, it.v, path...)
	if v != el && !isElem(v, list, it.w.idx) {
		c.fail(rule, fn, lastInstr(it.q), what, "the %s becomes %v, not the given one at its index", what, v)
	}
	if len(path) > 1 {
		c.sizeCounts(it.q, fn, c.fieldAt(it.q, it.v, path[:len(path)-1]...), what)
	}
}

// sizeCounts: a width that is of a type under which its number is ignored does not carry it.
func (c *Ctx) sizeCounts(q *Path, fn *ssa.Function, w *Term, what string) {
	if w == nil || fieldLoc(w, "Type") == nil {
		return
	}
	switch s, _ := c.e.load0(q.st, fieldLoc(w, "Type")).strVal(); s {
	case "auto", "nil", "pct":
		c.fail("width", fn, lastInstr(q), what+" type", "the given %s is of type %q and does not count", what, s)
	}
}

func locElem(list *Term) types.Type {
	if s, ok := list.typ.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return types.Typ[types.Int64]
}

const defaultColour = "000000"

// colour: v is the colour given for the border, or the default where none is given.
func (c *Ctx) colour(paths []*Path, q *Path, v, arg *Term, name string) string {
	if v == nil {
		return "no colour is set"
	}
	f := q.st.facts
	own := fieldLoc(arg, name)
	if own == nil {
		return "the caller's value has no colour of that name"
	}
	theirs := mk("ld", "", locType(own), own)
	if s, ok := v.strVal(); ok {
		if s != defaultColour {
			return "the colour is " + s
		}
		if f.isNil(arg) || f.mustBe(theirs, "") {
			return ""
		}
		return "the default is used although a colour may be given"
	}
	if v == theirs {
		if f.mayBe(theirs, "") {
			return "a missing colour does not get the default"
		}
		return ""
	}
	// a local copy to which the defaults were applied in a loop
	if v.op == "ld" && v.args[0].op == "fa" && v.args[0].args[0].op == "obj" {
		if v.args[0].sym != name {
			return "the colour given for " + v.args[0].sym + " is used"
		}
		return c.defaulted(paths, q, v.args[0].args[0], arg, name)
	}
	if v.op == "ld" && v.args[0].op == "fa" && v.args[0].sym != name {
		return "the colour given for " + v.args[0].sym + " is used"
	}
	if v.op == "sym" {
		// the copy was widened by the loop that applies the defaults
		for _, ev := range loopEvents(q) {
			for loc, g := range ev.entry.locs {
				if g == v && loc.op == "fa" && rootOf(loc).op == "obj" {
					if loc.sym != name {
						return "the colour given for " + loc.sym + " is used"
					}
					return c.defaulted(paths, q, loc.args[0], arg, name)
				}
			}
		}
	}
	return "the colour becomes " + v.String()
}

// defaulted: object o starts as a copy of the caller's value (or empty when there is none), and a
// loop over all its fields puts the default into those that are empty.
func (c *Ctx) defaulted(paths []*Path, q *Path, o, arg *Term, name string) string {
	own := fieldLoc(arg, name)
	theirs := mk("ld", "", locType(own), own)
	loc := fieldLoc(o, name)
	// contents before the loop
	start := mkStr("")
	var le *LoopEntry
	for _, ev := range q.ev() {
		if ev.kind == "loop" && ev.entry != nil && (c.fillsDefaults(paths, q, ev.entry, o) || c.fillsListed(paths, q, ev.entry, loc)) {
			le = ev.entry
			break
		}
		if ev.kind != "store" {
			continue
		}
		if ev.a[0] == loc {
			start = ev.a[1]
		}
		if ev.a[0] == o {
			start = structField(ev.a[1], name)
			if start == nil && ev.a[1].op == "ld" && ev.a[1].args[0] == arg {
				start = theirs
			}
		}
	}
	if le == nil {
		return "no loop puts the default into every empty colour"
	}
	if q.st.facts.isNil(arg) {
		if s, ok := start.strVal(); !ok || s != "" && s != defaultColour {
			return "the colour starts as " + start.String()
		}
		return ""
	}
	if start != theirs {
		if start == nil {
			return "the caller's colour is not taken over"
		}
		return "the colour starts as " + start.String() + ", not as the caller's"
	}
	return ""
}

// fillsDefaults: the loop goes over every field of o through reflection and sets the empty ones.
func (c *Ctx) fillsDefaults(paths []*Path, q *Path, le *LoopEntry, o *Term) bool {
	w := walkOf(q, le)
	if w == nil || !w.first || !w.done || w.bound.op != "call" || w.bound.sym != "(reflect.Value).NumField" || reflected(w.bound.args[0]) != o {
		return false
	}
	set, skip := false, false
	for _, x := range paths {
		if x.outcome != "back" || x.hdr != le {
			continue
		}
		xw := walkOf(x, le)
		if xw == nil || !xw.steps(x) || !xw.first {
			return false
		}
		isField := func(t *Term) bool {
			return t.op == "call" && t.sym == "(reflect.Value).Field" && reflected(t.args[0]) == o && t.args[1] == xw.idx
		}
		zero, known := false, false
		for k, b := range x.st.facts.bools {
			if k.op == "call" && k.sym == "(reflect.Value).IsZero" && isField(k.args[0]) {
				zero, known = b, true
			}
			if k.op == "bin" && k.sym == "==" {
				for i := 0; i < 2; i++ {
					if s, ok := k.args[i].strVal(); ok && s == "" && k.args[1-i].op == "call" && k.args[1-i].sym == "(reflect.Value).String" && isField(k.args[1-i].args[0]) {
						zero, known = b, true
					}
				}
			}
		}
		for t := range x.st.facts.in {
			if t.op == "call" && t.sym == "(reflect.Value).String" && isField(t.args[0]) && x.st.facts.mustBe(t, "") {
				zero, known = true, true
			}
		}
		for t, ex := range x.st.facts.notin {
			if t.op == "call" && t.sym == "(reflect.Value).String" && isField(t.args[0]) && ex["s:"] {
				zero, known = false, true
			}
		}
		n := 0
		for _, ev := range roundEvents(x) {
			if ev.kind == "call" && len(ev.sym) > 18 && ev.sym[:19] == "(reflect.Value).Set" {
				if ev.sym != "(reflect.Value).SetString" || !isField(ev.a[0]) {
					return false
				}
				if s, ok := ev.a[1].strVal(); !ok || s != defaultColour {
					return false
				}
				n++
			}
		}
		if !known || zero != (n == 1) || n > 1 {
			return false
		}
		if zero {
			set = true
		} else {
			skip = true
		}
	}
	return set && skip
}

// fillsListed: the loop goes over a literal list of places, loc among them, and puts the default into loc when
// that is empty.
func (c *Ctx) fillsListed(paths []*Path, q *Path, le *LoopEntry, loc *Term) bool {
	g := le.locs[loc]
	if g == nil {
		return false
	}
	pos := int64(-1)
	for _, ev := range q.ev() {
		if ev.kind == "loop" && ev.entry == le {
			break
		}
		if ev.kind == "store" && ev.a[1] == loc && ev.a[0].op == "ia" {
			if k, ok := ev.a[0].args[1].intVal(); ok {
				if pos >= 0 && pos != k {
					return false
				}
				pos = k
			}
		}
	}
	if pos < 0 {
		return false
	}
	for ph, cnt := range le.phis {
		i0, ok := le.init[ph].intVal()
		if !ok || !isIntT(ph.Type()) {
			continue
		}
		if iv := q.st.facts.interval(cnt); !iv.hasLo || iv.lo <= pos+i0 {
			continue // not known to have got past the element
		}
		set, keep, ok := false, false, true
		for _, x := range paths {
			if x.outcome != "back" || x.hdr != le {
				continue
			}
			after := c.e.load0(x.st, loc)
			iv := x.st.facts.interval(cnt)
			here := iv.hasLo && iv.hasHi && iv.lo == iv.hi
			s, isC := after.strVal()
			switch {
			case x.phis[ph] != addConst(cnt, 1) || !here:
				ok = false
			case iv.lo != pos+i0:
				ok = ok && after == g
			case x.st.facts.mustBe(g, ""):
				set = true
				ok = ok && isC && s == defaultColour
			case !x.st.facts.mayBe(g, ""):
				keep = true
				ok = ok && after == g
			default:
				ok = false
			}
		}
		if ok && set && keep {
			return true
		}
	}
	return false
}
