package main

import (
	"go/types"
	"slices"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- C32

// want: what a building call has to put into the item it adds. Paths are fields from the item ("#0"
// is the only element of a list); values are "$n" (a parameter), "$n…" (begins with a parameter),
// "=path" (the same as at another path), "nil", "set", or a literal.
type want struct {
	typ, name string
	item      string // the type of the item
	vals      [][2]string
}

func drawing(kind, other, what string) [][2]string {
	d := "Children.#0." + kind + "."
	g := d + "Graphic.GraphicData."
	r := [][2]string{{"Children.#0." + other, "nil"}, {g + "Chart", "nil"}, {g + "Canvas", "nil"}, {g + "Group", "nil"}}
	if what == "shape" {
		return append(r, [][2]string{
			{d + "Extent.CX", "$1"}, {d + "Extent.CY", "$2"}, {d + "DocPr.Name", "$3…"},
			{g + "Pic", "nil"}, {g + "URI", "ns:wps"},
			{g + "Shape.SpPr.BWMode", "$4"}, {g + "Shape.SpPr.PrstGeom.Prst", "$5"}, {g + "Shape.SpPr.Line", "$6"},
			{g + "Shape.SpPr.Xfrm.Ext.CX", "$1"}, {g + "Shape.SpPr.Xfrm.Ext.CY", "$2"},
		}...)
	}
	return append(r, [][2]string{
		{g + "Shape", "nil"}, {g + "URI", "ns:pic"},
		{g + "Pic.SpPr.Xfrm.Ext.CX", "=" + d + "Extent.CX"}, {g + "Pic.SpPr.Xfrm.Ext.CY", "=" + d + "Extent.CY"},
		{g + "Pic.BlipFill.Blip.Embed", "set"},
	}...)
}

var wants = []want{
	{"Paragraph", "AddTab", "Run", [][2]string{{"Children.#0", "Tab"}, {"InstrText", ""}}},
	{"Paragraph", "AddPageBreaks", "Run", [][2]string{{"Children.#0", "BarterRabbet"}, {"Children.#0.Type", "page"}, {"InstrText", ""}}},
	{"Run", "AddTab", "Tab", nil},
	{"Paragraph", "AddLink", "Hyperlink", nil},
	{"Paragraph", "AddInlineShape", "Run", drawing("Inline", "Anchor", "shape")},
	{"Paragraph", "AddAnchorShape", "Run", drawing("Anchor", "Inline", "shape")},
	{"Paragraph", "AddInlineDrawing", "Run", drawing("Inline", "Anchor", "picture")},
	{"Paragraph", "AddAnchorDrawing", "Run", drawing("Anchor", "Inline", "picture")},
	{"Docx", "WithA3Page", "SectPr", [][2]string{{"PgSz.W", "16838"}, {"PgSz.H", "23811"}}},
	{"Docx", "WithA4Page", "SectPr", [][2]string{{"PgSz.W", "11906"}, {"PgSz.H", "16838"}}},
	{"Docx", "AddParagraph", "Paragraph", [][2]string{{"Children", "empty"}, {"Properties", "nil"}}},
	{"WTableCell", "AddParagraph", "Paragraph", [][2]string{{"Children", "empty"}, {"Properties", "nil"}}},
}

// contents: the elements of a list made on path q, when all are known.
func (c *Ctx) contents(q *Path, l *Term) ([]*Term, bool) {
	if l == nil {
		return nil, false
	}
	if l.op == "append" {
		xs, ok := c.contents(q, l.args[0])
		return append(append([]*Term(nil), xs...), l.args[1:]...), ok
	}
	n, ok := lenOf(q.st, l).intVal()
	if !ok || n > 64 {
		return nil, false
	}
	var xs []*Term
	for i := int64(0); i < n; i++ {
		loc := c.e.elemLoc(l, mkInt(i), types.NewInterfaceType(nil, nil))
		v := q.st.heap[loc]
		if v == nil {
			return nil, false
		}
		xs = append(xs, v)
	}
	return xs, true
}

// value follows a path of fields from the object item; the value is nil when something on the way is.
func (c *Ctx) value(q *Path, item *Term, path string) (v *Term, why string) {
	v = item
	for _, f := range strings.Split(path, ".") {
		if f == "#0" {
			xs, ok := c.contents(q, v)
			if !ok || len(xs) != 1 {
				return nil, "it does not hold exactly one element"
			}
			v = c.itemVal(q, xs[0])
			continue
		}
		if q.st.facts.isNil(v) {
			return nil, f + " is missing"
		}
		loc := fieldLoc(v, f)
		if loc == nil {
			return nil, "it is not an item with " + f
		}
		if fieldsOf(locType(loc)) != nil {
			if _, ok := locType(loc).Underlying().(*types.Pointer); !ok {
				v = loc
				continue
			}
		}
		v = c.e.load0(q.st, loc)
	}
	return v, ""
}

// isA: v is a pointer to an item of the library's type name.
func (c *Ctx) isA(v *Term, name string) bool {
	if v == nil {
		return false
	}
	if v.op == "obj" || v.op == "fa" {
		return isNamed(locType(v), c.p.root.Pkg.Path(), name)
	}
	return v.typ != nil && isPtrTo(v.typ, c.p.root.Pkg.Path(), name)
}

// firstPart: the first part of a text put together.
func firstPart(t *Term) *Term {
	for t != nil && t.op == "bin" && t.sym == "+" {
		t = t.args[0]
	}
	return t
}

// addedItem: the item path q adds, returned or found at the end of its receiver's list.
func (c *Ctx) addedItem(q *Path, fn *ssa.Function, typ string) *Term {
	ret := unwrap(q.rets[0])
	if ret != nil && c.isA(ret, typ) && ret.op != "param" {
		if ret.op == "ld" && ret.args[0].op == "ia" && ret.args[0].args[0].op == "append" {
			l := ret.args[0].args[0]
			return c.itemVal(q, l.args[len(l.args)-1])
		}
		return c.itemVal(q, ret)
	}
	for loc, v := range q.st.heap {
		if loc.op == "fa" && v.op == "append" && rootOf(loc).op == "param" {
			if it := c.itemVal(q, v.args[len(v.args)-1]); it != nil && c.isA(it, typ) {
				return it
			}
		}
	}
	return nil
}

func checkC32(c *Ctx) string {
	rule := "the item a building call adds has, on every path that succeeds, the values asked for: the list built for a text comes from a loop over its lines, each round of which adds one break before every line but the first and then the items of a loop over the pieces between tabs, each of which adds one tab before every piece but the first and then the piece itself, left out only when empty; sizes, names, geometry and outlines are the parameters in both places that hold them, and the kind of a drawing, of a break and of a page is the one the call is named after"
	for _, w := range wants {
		fn := c.p.method(w.typ, w.name)
		if fn == nil || len(fn.Blocks) == 0 {
			c.fail("anchor", nil, nil, w.typ+"."+w.name, "%s.%s is gone", w.typ, w.name)
			continue
		}
		c.n("building_calls")
		for _, q := range c.paths(fn) {
			if q.outcome != "return" {
				continue
			}
			if k, _ := retErr(q); k == "err" {
				continue
			}
			c.n("building_paths")
			it := c.addedItem(q, fn, w.item)
			if it == nil {
				c.fail("item", fn, lastInstr(q), w.item, "no %s is added", w.item)
				continue
			}
			for _, v := range w.vals {
				c.n("values")
				if why := c.meets(q, fn, it, v[0], v[1]); why != "" {
					c.fail("value", fn, lastInstr(q), v[0], "%s: %s", v[0], why)
				}
			}
			if w.name == "AddLink" {
				c.linkText(q, fn, it)
			}
		}
	}
	c.addText()
	c.atLeast("building_calls", 12)
	c.atLeast("values", 60)
	c.atLeast("text_paths", 1)
	return rule
}

// meets: the value at path of the item is the one wanted.
func (c *Ctx) meets(q *Path, fn *ssa.Function, it *Term, path, want string) string {
	v, why := c.value(q, it, path)
	f := q.st.facts
	param := func(s string) *Term {
		i, _ := strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(s, "$"), "…"))
		return mk("param", fn.Params[i].Name(), fn.Params[i].Type())
	}
	if want == "nil" {
		if v == nil && strings.HasSuffix(why, "with "+path[strings.LastIndexByte(path, '.')+1:]) {
			return ""
		}
		if v == nil || !f.isNil(v) {
			return "it is set by a call that is not for it"
		}
		return ""
	}
	if v == nil {
		return why
	}
	switch {
	case want == "empty":
		if n, ok := lenOf(q.st, v).intVal(); !ok || n != 0 {
			return "it does not start out empty"
		}
	case want == "set":
		if isZero(v) {
			return "it is left out"
		}
	case strings.HasPrefix(want, "="):
		o, why := c.value(q, it, want[1:])
		if o == nil {
			return why
		}
		if o != v {
			return "it is not the same as " + want[1:]
		}
	case strings.HasSuffix(want, "…"):
		if firstPart(v) != param(want) {
			return "it does not begin with the value given"
		}
	case strings.HasPrefix(want, "$"):
		if p := param(want); v != p && !c.sameConst(f, v, p) {
			return "it is not the value given"
		}
	case path == "Children.#0":
		if !c.isA(v, want) {
			return "it is not a " + want
		}
	case strings.HasPrefix(want, "ns:"):
		if s, ok := v.strVal(); !ok || !slices.Contains(namespaces[want[3:]], s) {
			return "it is not the address of its kind of content"
		}
	default:
		if s, ok := v.strVal(); ok && s == want {
			return ""
		}
		if n, ok := v.intVal(); ok && strconv.FormatInt(n, 10) == want {
			return ""
		}
		return "it is not " + strconv.Quote(want)
	}
	return ""
}

// sameConst: path facts say that v and p are the same constant.
func (c *Ctx) sameConst(f *Facts, v, p *Term) bool {
	if s, ok := v.strVal(); ok {
		return f.mustBe(p, s)
	}
	if n, ok := v.intVal(); ok {
		iv := f.interval(p)
		return iv.hasLo && iv.hasHi && iv.lo == n && iv.hi == n
	}
	return v.op == "nil" && f.isNil(p)
}

// linkText: the text of the link is the one given.
func (c *Ctx) linkText(q *Path, fn *ssa.Function, it *Term) {
	text := mk("param", fn.Params[1].Name(), fn.Params[1].Type())
	c.n("values")
	ins, _ := c.value(q, it, "Run.InstrText")
	ch, _ := c.value(q, it, "Run.Children")
	xs, ok := []*Term(nil), true
	if ch != nil {
		xs, ok = c.contents(q, ch)
	}
	if !ok {
		c.fail("value", fn, lastInstr(q), "link", "what the link shows is not known")
		return
	}
	switch {
	case ins != nil && (ins == text || c.sameConst(q.st.facts, ins, text)) && len(xs) == 0:
	case (ins == nil || isZero(ins)) && len(xs) == 1 && c.leaf(q, xs[0], text):
	default:
		c.fail("value", fn, lastInstr(q), "link", "the link does not show the text given, once")
	}
	if v, ok := c.value(q, it, "Run.RunProperties.RunStyle.Val"); ok != "" || v == nil || !v.isConst() || isZero(v) {
		c.fail("value", fn, lastInstr(q), "link style", "the run of the link does not refer to a style for links")
	}
}

// leaf: t is a text item holding exactly text.
func (c *Ctx) leaf(q *Path, t, text *Term) bool {
	o := c.itemVal(q, t)
	if o == nil || !c.isA(o, "Text") || o.op != "obj" {
		return false
	}
	v := c.e.load0(q.st, fieldLoc(o, "Text"))
	return v == text || c.sameConst(q.st.facts, v, text)
}

func (c *Ctx) addText() {
	fn := c.p.method("Paragraph", "AddText")
	if fn == nil || len(fn.Params) != 2 {
		c.fail("anchor", nil, nil, "AddText", "Paragraph.AddText(text) is gone")
		return
	}
	text := mk("param", fn.Params[1].Name(), fn.Params[1].Type())
	paths := c.paths(fn)
	for _, q := range paths {
		if q.outcome != "return" {
			continue
		}
		it := c.addedItem(q, fn, "Run")
		if it == nil {
			c.fail("item", fn, lastInstr(q), "Run", "no run is added")
			continue
		}
		c.n("text_paths")
		if ins, _ := c.value(q, it, "InstrText"); ins != nil && !isZero(ins) {
			c.fail("text", fn, lastInstr(q), "InstrText", "the run has an instruction text")
		}
		l, why := c.value(q, it, "Children")
		if l == nil {
			c.fail("text", fn, lastInstr(q), "Children", "%s", why)
			continue
		}
		tc := &textList{c: c, paths: paths, fn: fn}
		why = tc.spells(q, l, text, []sep{{"\n", "BarterRabbet"}, {"\t", "Tab"}}, 0)
		if tc.unknown {
			c.n("texts_cut_otherwise")
			continue
		}
		if why != "" {
			c.fail("text", fn, lastInstr(q), "Children", "the items do not spell the text: %s", why)
		}
	}
}

type sep struct{ s, item string }

type textList struct {
	c       *Ctx
	paths   []*Path
	fn      *ssa.Function
	unknown bool // the text is cut up in a way that is not looked into
}

// parts takes a list apart into what it starts from (nil: nothing) and what was added, where a
// loop that carries the list counts as one part.
type listPart struct {
	item *Term
	a    *carried
}

func (t *textList) parts(q *Path, l, g *Term, n int) ([]listPart, bool) {
	switch {
	case n > 12 || l == nil:
		return nil, false
	case l == g:
		return nil, true
	case g == nil && emptyList(l):
		return nil, true
	case l.op == "append":
		xs, ok := t.parts(q, l.args[0], g, n+1)
		for _, x := range l.args[1:] {
			xs = append(xs, listPart{item: x})
		}
		return xs, ok
	case l.op == "appendslice":
		xs, ok := t.parts(q, l.args[0], g, n+1)
		ys, ok2 := t.parts(q, l.args[1], nil, n+1)
		return append(xs, ys...), ok && ok2
	}
	if a := carriedBy(q, l); a != nil {
		xs, ok := t.parts(q, a.init(), g, n+1)
		return append(xs, listPart{a: a}), ok
	}
	if g == nil {
		if xs, ok := t.c.contents(q, l); ok {
			var r []listPart
			for _, x := range xs {
				r = append(r, listPart{item: x})
			}
			return r, true
		}
	}
	return nil, false
}

// spells: the list l, built on q from nothing, spells the text.
func (t *textList) spells(q *Path, l, text *Term, seps []sep, depth int) string {
	xs, ok := t.parts(q, l, nil, 0)
	if !ok {
		return "where its list comes from is not known"
	}
	return t.spelt(q, xs, text, seps)
}

// spelt: the parts added on q spell the text.
func (t *textList) spelt(q *Path, xs []listPart, text *Term, seps []sep) string {
	c, f := t.c, q.st.facts
	c.n("spellings")
	// a text known on this path
	if s, ok := f.strSet(text); ok && len(s) == 1 && (len(xs) == 0 || xs[0].a == nil) {
		return t.constant(q, xs, s[0])
	}
	if s, ok := text.strVal(); ok {
		return t.constant(q, xs, s)
	}
	// no separators left in it
	lacks := func(sp string) bool {
		if isFalse(f, mk("call", "strings.Contains", types.Typ[types.Bool], text, mkStr(sp)), mk("call", "strings.ContainsRune", types.Typ[types.Bool], text, mkInt(int64(sp[0])))) {
			return true
		}
		for k, v := range f.bools {
			if k.op == "call" && k.sym == "strings.ContainsAny" && !v && len(k.args) == 2 && k.args[0] == text {
				if s, ok := k.args[1].strVal(); ok && strings.Contains(s, sp) {
					return true
				}
			}
		}
		return false
	}
	free := seps
	for len(free) > 0 && lacks(free[0].s) && !(len(xs) == 1 && xs[0].a != nil) {
		free = free[1:]
	}
	seps = free
	if len(seps) == 0 {
		switch {
		case len(xs) == 0 && f.mustBe(text, ""):
			return ""
		case len(xs) == 1 && xs[0].a == nil && c.leaf(q, xs[0].item, text):
			return ""
		case len(xs) == 0:
			return "a piece that may not be empty is left out"
		}
		return "a piece is not added as itself, once"
	}
	if len(xs) != 1 || xs[0].a == nil {
		if len(xs) == 0 {
			return "a piece that may not be empty is left out"
		}
		return "a text that may hold " + strconv.Quote(seps[0].s) + " is added without looking for it"
	}
	a := xs[0].a
	w := walkOf(q, a.le)
	if w == nil || w.src == nil || !cutting(w.src) {
		t.unknown = true
		return ""
	}
	if !isSplit(w.src, text, seps[0].s) {
		if len(seps) > 1 && isSplit(w.src, text, seps[1].s) {
			seps = []sep{seps[1], seps[0]}
		}
	}
	if !isSplit(w.src, text, seps[0].s) {
		return "the text is not cut at every " + strconv.Quote(seps[0].s)
	}
	if !w.first {
		return "the loop over the pieces does not start with the first"
	}
	if !w.done {
		return "the loop over the pieces is left before the last"
	}
	for _, x := range roundsOf(t.paths, a.le) {
		xw := walkOf(x, a.le)
		if xw == nil || !xw.steps(x) {
			return "a round does not move on by one piece"
		}
		c.n("pieces")
		ys, ok := t.parts(x, c.nextOf(a, x), a.g, 0)
		if !ok {
			return "what a round adds is not known"
		}
		elem := t.elem(x, xw, w.src)
		isSep := func(p listPart) bool {
			if p.a != nil {
				return false
			}
			o := c.itemVal(x, p.item)
			if o == nil || !c.isA(o, seps[0].item) || o.op != "obj" {
				return false
			}
			return seps[0].item != "BarterRabbet" || isZero(c.e.load0(x.st, fieldLoc(o, "Type")))
		}
		iv := x.st.facts.interval(xw.idx)
		isFirst, later := iv.hasHi && iv.hi <= 0, iv.hasLo && iv.lo >= 1
		rest := mk("bin", "<", types.Typ[types.Bool], addConst(xw.idx, 1), lenOf(x.st, w.src))
		more, known := x.st.facts.decide(rest)
		switch {
		case len(ys) > 0 && isSep(ys[0]) && later:
			ys = ys[1:]
		case len(ys) > 0 && isSep(ys[len(ys)-1]) && known && more:
			ys = ys[:len(ys)-1]
		case len(ys) > 0 && (isSep(ys[0]) || isSep(ys[len(ys)-1])):
			return "a " + seps[0].item + " is added where the text has none"
		case isFirst || known && !more:
		default:
			return "a " + seps[0].item + " of the text is left out"
		}
		if why := t.spelt(x, ys, elem, seps[1:]); why != "" || t.unknown {
			return why
		}
	}
	return ""
}

// elem: the element of the current round, as a load of the list.
func (t *textList) elem(x *Path, w *Walk, src *Term) *Term {
	return t.c.e.load0(x.st, t.c.e.elemLoc(w.list, w.idx, types.Typ[types.String]))
}

func cutting(l *Term) bool { return l.op == "call" && strings.HasPrefix(l.sym, "strings.") }

func isSplit(l, text *Term, s string) bool {
	if l.op != "call" || len(l.args) < 2 || l.args[0] != text {
		return false
	}
	if k, ok := l.args[1].strVal(); !ok || k != s {
		return false
	}
	if l.sym == "strings.Split" && len(l.args) == 2 {
		return true
	}
	if l.sym == "strings.SplitN" && len(l.args) == 3 {
		n, ok := l.args[2].intVal()
		return ok && n < 0
	}
	return false
}

// constant: the items spell a text known in full.
func (t *textList) constant(q *Path, xs []listPart, s string) string {
	c := t.c
	i := 0
	bad := "a text treated specially is not spelt"
	for len(s) > 0 {
		n := strings.IndexAny(s, "\n\t")
		if n != 0 {
			if n < 0 {
				n = len(s)
			}
			if i >= len(xs) || xs[i].a != nil || !c.leaf(q, xs[i].item, mkStr(s[:n])) {
				if n != len(s) || i >= len(xs) || xs[i].a != nil {
					return bad
				}
				// the value itself
				o := c.itemVal(q, xs[i].item)
				if o == nil || o.op != "obj" || !c.isA(o, "Text") || !q.st.facts.mustBe(c.e.load0(q.st, fieldLoc(o, "Text")), s[:n]) {
					return bad
				}
			}
			s = s[n:]
			i++
			continue
		}
		want := "Tab"
		if s[0] == '\n' {
			want = "BarterRabbet"
		}
		if i >= len(xs) || xs[i].a != nil {
			return bad
		}
		o := c.itemVal(q, xs[i].item)
		if o == nil || !c.isA(o, want) {
			return bad
		}
		s = s[1:]
		i++
	}
	for ; i < len(xs); i++ {
		if xs[i].a != nil || !c.leaf(q, xs[i].item, mkStr("")) {
			return bad
		}
	}
	return ""
}
