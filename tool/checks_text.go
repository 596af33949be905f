package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rendering as text. What a function returns is taken apart into pieces: literals, values, and
// loops that contribute pieces of their own. Texts may be built in a strings.Builder, a
// bytes.Buffer, by concatenation, as a list that is joined, or as a list of bytes.

// piece is a part of a text.
type piece struct {
	lit  string
	val  *Term // a value shown as it is
	at   *Path
	loop *LoopEntry // what the rounds of a loop contribute
	acc  accum
}

// accum is what a loop adds to.
type accum struct {
	buf *Term // a buffer
	car *carried
}

func (p piece) String() string {
	switch {
	case p.loop != nil:
		return "{the rounds of a loop}"
	case p.val != nil:
		return p.val.String()
	}
	return fmt.Sprintf("%q", p.lit)
}

type texts struct {
	c     *Ctx
	paths []*Path
	depth int
}

// isBuffer: writes to buffers, by the name of the call; rest is the index of what is written.
func bufferWrite(ev *Event) (buf *Term, what []*Term, form string) {
	if len(ev.a) == 0 {
		return nil, nil, ""
	}
	b := unwrap(ev.a[0])
	switch ev.sym {
	case "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune", "(*strings.Builder).Write",
		"(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune", "(*bytes.Buffer).Write",
		"io.WriteString", "(io.Writer).Write", "(io.StringWriter).WriteString", "(io.ByteWriter).WriteByte":
		return b, ev.a[1:], "plain"
	case "fmt.Fprint", "fmt.Fprintln":
		return b, ev.a[1:], "print"
	case "fmt.Fprintf":
		return b, ev.a[1:], "printf"
	}
	return nil, nil, ""
}

func bufferRead(ev *Event) *Term {
	switch ev.sym {
	case "(*strings.Builder).String", "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes":
		return unwrap(ev.a[0])
	}
	return nil
}

func norm(ps []piece) []piece {
	var r []piece
	for _, p := range ps {
		if p.loop == nil && p.val == nil {
			if p.lit == "" {
				continue
			}
			if n := len(r); n > 0 && r[n-1].loop == nil && r[n-1].val == nil {
				r[n-1].lit += p.lit
				continue
			}
		}
		r = append(r, p)
	}
	return r
}

func lit(s string) []piece { return []piece{{lit: s}} }

// of takes apart text t as it is on path q; start is where the current round of a loop began.
func (x *texts) of(q *Path, t *Term, start *Term) []piece {
	x.depth++
	defer func() { x.depth-- }()
	if t == nil || x.depth > 60 {
		return []piece{{val: t, at: q}}
	}
	if t == start {
		return nil
	}
	if s, ok := t.strVal(); ok {
		return lit(s)
	}
	if v, ok := t.intVal(); ok && t.typ != nil {
		if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return lit(string(rune(v)))
		}
	}
	if q.st.facts.mustBe(t, "") {
		return nil
	}
	switch t.op {
	case "nil", "mkslice":
		return nil
	case "bin":
		if t.sym == "+" {
			return append(x.of(q, t.args[0], start), x.of(q, t.args[1], start)...)
		}
	case "conv", "chtype", "arrslice":
		return x.of(q, t.args[0], start)
	case "iface":
		if isStringT(t.args[0].typ) {
			return x.of(q, t.args[0], start)
		}
		if m, ok := x.shown(t.args[0]); ok {
			return []piece{{val: m, at: q}}
		}
	case "append", "appendslice":
		var r []piece
		for _, a := range t.args {
			r = append(r, x.of(q, a, start)...)
		}
		return r
	case "slice":
		if t.args[1] == nil && t.args[2] == nil {
			return x.of(q, t.args[0], start)
		}
		if t.args[1] == nil {
			if n, ok := t.args[2].intVal(); ok && n == 0 {
				return nil
			}
		}
	case "call":
		switch t.sym {
		case "strings.Join":
			if s, ok := t.args[1].strVal(); ok && s == "" {
				return x.of(q, t.args[0], start)
			}
		case "fmt.Sprint":
			return x.variadic(q, t.args[0], start)
		case "fmt.Sprintf":
			return x.format(q, t.args, start)
		}
	}
	if a := carriedBy(q, t); a != nil && (a.g != start) {
		return append(x.of(q, a.init(), start), piece{loop: a.le, acc: accum{car: a}, at: q})
	}
	evs := q.ev()
	for i, ev := range evs {
		if ev.kind != "call" && ev.kind != "reccall" {
			continue
		}
		for _, r := range ev.res {
			if r != t {
				continue
			}
			if b := bufferRead(ev); b != nil {
				return x.written(q, evs[:i], b, 0, start)
			}
			switch ev.sym {
			case "strings.Join":
				if s, ok := ev.a[1].strVal(); ok && s == "" {
					return x.of(q, ev.a[0], start)
				}
			case "fmt.Sprint":
				return x.variadic(q, ev.a[0], start)
			case "fmt.Sprintf":
				return x.format(q, ev.a, start)
			}
		}
	}
	return []piece{{val: t, at: q}}
}

// shown: a value printed through its String method.
func (x *texts) shown(v *Term) (*Term, bool) {
	if v.typ == nil {
		return nil, false
	}
	if m := x.c.p.ssa.LookupMethod(v.typ, nil, "String"); m != nil {
		return v, true
	}
	return nil, false
}

// elems: the arguments of a variadic call.
func elems(q *Path, l *Term) []*Term {
	if l == nil || l.op == "nil" {
		return nil
	}
	if l.op == "arrslice" || l.op == "slice" {
		l = l.args[0]
	}
	var r []*Term
	for i := int64(0); ; i++ {
		found := false
		for loc, v := range q.st.heap {
			if loc.op == "ia" && loc.args[0] == l {
				if n, ok := loc.args[1].intVal(); ok && n == i {
					r = append(r, v)
					found = true
				}
			}
		}
		if !found {
			return r
		}
	}
}

func (x *texts) variadic(q *Path, l *Term, start *Term) []piece {
	var r []piece
	for _, v := range elems(q, l) {
		r = append(r, x.of(q, v, start)...)
	}
	return r
}

var verb = regexp.MustCompile(`%[a-z%]`)

func (x *texts) format(q *Path, a []*Term, start *Term) []piece {
	f, ok := a[0].strVal()
	if !ok || len(a) < 2 {
		return []piece{{val: a[0], at: q}}
	}
	vs := elems(q, a[1])
	var r []piece
	last, k := 0, 0
	for _, m := range verb.FindAllStringIndex(f, -1) {
		r = append(r, piece{lit: f[last:m[0]]})
		last = m[1]
		switch v := f[m[0]:m[1]]; v {
		case "%%":
			r = append(r, piece{lit: "%"})
			continue
		case "%s", "%v", "%c":
			if k < len(vs) {
				r = append(r, x.of(q, vs[k], start)...)
				k++
				continue
			}
		}
		k++
		r = append(r, piece{val: a[0], at: q})
	}
	return append(r, piece{lit: f[last:]})
}

// written: what the events put into buffer b, from event i on.
func (x *texts) written(q *Path, evs []*Event, b *Term, i int, start *Term) []piece {
	var r []piece
	for ; i < len(evs); i++ {
		ev := evs[i]
		switch ev.kind {
		case "call", "reccall":
			if to, what, form := bufferWrite(ev); to == b {
				switch form {
				case "plain":
					r = append(r, x.of(q, what[0], start)...)
				case "print":
					r = append(r, x.variadic(q, what[0], start)...)
					if ev.sym == "fmt.Fprintln" {
						r = append(r, piece{lit: "\n"})
					}
				case "printf":
					r = append(r, x.format(q, what, start)...)
				}
			} else if to == nil && bufferRead(ev) == nil && ev.callee != nil && x.c.p.inScope(ev.callee) {
				for _, a := range ev.a {
					if unwrap(a) == b {
						r = append(r, piece{val: mk("unknown", fnLabel(ev.callee), nil), at: q})
					}
				}
			}
			if len(ev.a) > 0 && unwrap(ev.a[0]) == b && hasSuffixAny(ev.sym, ").Reset", ").Truncate") {
				r = nil
			}
		case "loop":
			if ev.entry != nil && (b.op != "obj" || objNum(b) <= ev.entry.nobj) && x.writes(ev.entry, b, map[*LoopEntry]bool{}) {
				r = append(r, piece{loop: ev.entry, acc: accum{buf: b}, at: q})
			}
		}
	}
	return r
}

// writes: the rounds of the loop put something into b.
func (x *texts) writes(le *LoopEntry, b *Term, busy map[*LoopEntry]bool) bool {
	if busy[le] {
		return false
	}
	busy[le] = true
	for _, q := range roundsOf(x.paths, le) {
		for _, ev := range roundEvents(q) {
			if ev.kind == "loop" && ev.entry != nil && x.writes(ev.entry, b, busy) {
				return true
			}
			if ev.kind == "call" || ev.kind == "reccall" {
				if to, _, _ := bufferWrite(ev); to == b {
					return true
				}
			}
		}
	}
	return false
}

// round: what round q of a loop adds.
func (x *texts) round(q *Path, p piece) []piece {
	if p.acc.buf != nil {
		return norm(x.written(q, roundEvents(q), p.acc.buf, 0, nil))
	}
	a := p.acc.car
	nv := x.c.nextOf(a, q)
	if nv == a.g {
		return nil
	}
	ps := x.of(q, nv, a.g)
	// what was there before has to come first
	if !startsWith(q, nv, a.g) {
		ps = append(ps, piece{val: mk("moved", "", nil), at: q})
	}
	return norm(ps)
}

// startsWith: text t is g with something after it.
func startsWith(q *Path, t, g *Term) bool {
	for i := 0; t != nil && i < 200; i++ {
		if t == g {
			return true
		}
		switch t.op {
		case "bin", "append", "appendslice", "conv", "chtype":
			t = t.args[0]
			continue
		}
		if a := carriedBy(q, t); a != nil {
			t = a.init()
			continue
		}
		return false
	}
	return false
}

// ---------------------------------------------------------------- C29

// relFinder: the look-up of a relationship's target.
func (p *Program) relFinder(f *ssa.Function) bool {
	sg := f.Signature
	if sg.Recv() == nil || !types.Identical(sg.Recv().Type(), types.NewPointer(p.docxType())) || sg.Params().Len() != 1 || sg.Results().Len() != 2 {
		return false
	}
	return isStringT(sg.Params().At(0).Type()) && isStringT(sg.Results().At(0).Type()) && isErrT(sg.Results().At(1).Type())
}

type render struct {
	*texts
	fn    *ssa.Function
	built bool // only what building a text puts into a paragraph matters
}

func checkC29(c *Ctx) string {
	c.renderings("Paragraph", "Table", "WPInline", "WPAnchor")
	c.atLeast("renderings", 4)
	c.atLeast("results", 6)
	c.atLeast("rounds", 8)
	return "what String returns is taken apart into literals, values and loops on every path: a paragraph is one complete loop over its children whose rounds add, for a run, one complete loop over the run's children, for a link, its text and its target in brackets, and nothing for anything else; the rounds of a run's loop add exactly the text, a tab, a newline or the notation of the drawing; no store on any path reaches memory that existed before"
}

// C40: the items a text is spelt by (C32) and what the items are rendered as (C29) are inverse to
// one another: a break and a newline, a tab and a tab, a text item and its text, in the same order.
func checkC40(c *Ctx) string {
	c.addText()
	c.renderings("a built text")
	c.atLeast("renderings", 1)
	c.atLeast("text_paths", 1)
	c.atLeast("pieces", 1)
	c.atLeast("run_rounds", 4)
	return "AddText adds one run whose items spell the text, in order: a break for every newline, a tab for every tab, one text item with exactly what is between them; String goes once through the children of the paragraph and of the run, in order, and shows a break as a newline, a tab as a tab and a text item as its text; so rendering undoes building, for every text"
}

// renderings judges what the String methods of the types return.
func (c *Ctx) renderings(typs ...string) {
	p := c.p
	built := typs[0] == "a built text"
	if built {
		typs = []string{"Paragraph"}
	}
	changes := func(fn *ssa.Function, paths []*Path) {
		for _, q := range paths {
			if q.outcome == "panic" {
				continue
			}
			c.n("paths_without_effect")
			if ev := otherWrites(q, func(*Term) bool { return false }); ev != nil {
				c.fail("effect", fn, ev.instr, "write", "rendering changes %v", ev.a[0])
			}
		}
	}
	for _, typ := range typs {
		fn := p.method(typ, "String")
		if fn == nil {
			c.fail("anchor", nil, nil, typ, "%s.String is gone", typ)
			continue
		}
		c.n("renderings")
		c.e.opaque = func(f *ssa.Function) bool {
			return f != fn && p.inScope(f) && (f.Signature.Recv() != nil && f.Name() == "String" && f.Signature.Params().Len() == 0 || p.relFinder(f)) || p.opaqueRole(f)
		}
		paths := c.paths(fn)
		if !built {
			changes(fn, paths)
		}
		r := &render{&texts{c: c, paths: paths}, fn, built}
		recv := mk("param", fn.Params[0].Name(), fn.Params[0].Type())
		for _, q := range paths {
			if q.outcome != "return" || len(q.rets) != 1 {
				continue
			}
			c.n("results")
			ps := norm(r.of(q, q.rets[0], nil))
			why := ""
			switch typ {
			case "Paragraph":
				why = r.paragraph(q, ps, recv)
			case "Table":
				why = r.table(q, ps, recv)
			default:
				why = r.drawing(q, ps, recv, map[string]string{"WPInline": "inln", "WPAnchor": "anch"}[typ])
			}
			if why != "" {
				c.fail("text", fn, lastInstr(q), typ, "%s", why)
			}
		}
	}
}

// whole: ps is one complete loop over list; each of its rounds is handed to f.
func (r *render) whole(q *Path, ps []piece, list *Term, what string, f func(x *Path, ps []piece, elem func(*Term) bool, e *Term) string) string {
	if iv := q.st.facts.interval(mk("len", "", types.Typ[types.Int], list)); len(ps) == 0 && (iv.hasHi && iv.hi <= 0 || q.st.facts.isNil(list)) {
		return ""
	}
	if len(ps) != 1 || ps[0].loop == nil {
		return fmt.Sprintf("the text of %s is %v instead of what one loop over its children adds", what, ps)
	}
	le := ps[0].loop
	if _, bad := over(r.paths, q, le, list); bad != "" {
		return "the loop over the children of " + what + ": " + bad
	}
	for _, x := range roundsOf(r.paths, le) {
		r.c.n("rounds")
		w := walkOf(x, le)
		e := mk("ld", "", nil, mk("ia", "", nil, plain(w.src), w.idx))
		isE := func(t *Term) bool { return isElem(unwrap(t), w.src, w.idx) || isElem(unwrap(t), w.list, w.idx) }
		if s := f(x, r.round(x, ps[0]), isE, e); s != "" {
			return s
		}
	}
	return ""
}

// as: the element, asserted to a pointer to the named type, and whether it is known to be one.
func (r *render) as(x *Path, isE func(*Term) bool, typ string) (v *Term, is, known bool) {
	for k, b := range x.st.facts.bools {
		if k.op == "isT" && k.sym == "*docx."+typ && isE(k.args[0]) {
			return mk("ta", k.sym, types.NewPointer(r.c.p.namedType(typ)), unwrap(k.args[0])), b, true
		}
	}
	for k, d := range x.st.facts.dyn {
		if isE(k) {
			if d == "*docx."+typ {
				return mk("ta", d, types.NewPointer(r.c.p.namedType(typ)), unwrap(k)), true, true
			}
			return nil, false, true
		}
	}
	return nil, false, false
}

func (r *render) field(x *Path, v *Term, names ...string) *Term {
	loc := v
	for i, n := range names {
		if i > 0 {
			if _, ok := locType(loc).(*types.Pointer); ok {
				loc = r.c.e.load0(x.st, loc)
			}
		}
		loc = fieldLoc(loc, n)
		if loc == nil {
			return nil
		}
	}
	return r.c.e.load0(x.st, loc)
}

func (r *render) paragraph(q *Path, ps []piece, recv *Term) string {
	list := r.field(q, recv, "Children")
	return r.whole(q, ps, list, "the paragraph", func(x *Path, got []piece, isE func(*Term) bool, _ *Term) string {
		run, isR, knowR := r.as(x, isE, "Run")
		if isR {
			return r.run(x, got, run, "a run")
		}
		h, isH, knowH := r.as(x, isE, "Hyperlink")
		if r.built && knowR {
			return "" // a text is built of runs
		}
		if isH {
			return r.link(x, got, h)
		}
		if len(got) > 0 {
			return fmt.Sprintf("a child that is neither a run nor a link adds %v", got)
		}
		if !knowR || !knowH {
			return "a child adds nothing, although it may be a run or a link"
		}
		return ""
	})
}

func (r *render) run(q *Path, ps []piece, run *Term, what string) string {
	list := r.field(q, run, "Children")
	return r.whole(q, ps, list, what, func(x *Path, got []piece, isE func(*Term) bool, _ *Term) string {
		r.c.n("run_rounds")
		known := true
		for _, k := range []string{"Text", "Tab", "BarterRabbet", "Drawing"} {
			if r.built && k == "Drawing" {
				continue
			}
			v, is, kn := r.as(x, isE, k)
			known = known && kn
			if !is {
				continue
			}
			switch k {
			case "Text":
				t := r.field(x, v, "Text")
				if len(got) == 0 && x.st.facts.mustBe(t, "") {
					return ""
				}
				if len(got) != 1 || got[0].val != t {
					return fmt.Sprintf("a text adds %v instead of the text itself", got)
				}
			case "Tab":
				if len(got) != 1 || got[0].lit != "\t" {
					return fmt.Sprintf("a tab adds %v", got)
				}
			case "BarterRabbet":
				if len(got) != 1 || got[0].lit != "\n" {
					return fmt.Sprintf("a break adds %v", got)
				}
			case "Drawing":
				return r.drawn(x, got, v)
			}
			return ""
		}
		if r.built && known {
			return ""
		}
		if len(got) > 0 {
			return fmt.Sprintf("a child of a run that is no text, tab, break or drawing adds %v", got)
		}
		if !known {
			return "a child of a run adds nothing, although it may be a text, a tab, a break or a drawing"
		}
		return ""
	})
}

// notation: the piece is what v's String method returned.
func (r *render) notation(p piece, v *Term) bool {
	if p.val == nil || v == nil {
		return false
	}
	if p.val == v {
		return true
	}
	for _, ev := range p.at.ev() {
		if (ev.kind == "call" || ev.kind == "reccall") && ev.callee != nil && ev.callee.Name() == "String" && len(ev.res) == 1 && ev.res[0] == p.val {
			return len(ev.a) > 0 && unwrap(ev.a[0]) == v
		}
	}
	return false
}

func (r *render) drawn(x *Path, got []piece, d *Term) string {
	in, an := r.field(x, d, "Inline"), r.field(x, d, "Anchor")
	f := x.st.facts
	if f.isNil(in) && f.isNil(an) {
		if len(got) > 0 {
			return fmt.Sprintf("a drawing without content adds %v", got)
		}
		return ""
	}
	want := in
	if f.isNil(in) {
		want = an
	}
	if len(got) < 1 || !r.notation(got[0], want) {
		return fmt.Sprintf("a drawing adds %v instead of its notation", got)
	}
	if len(got) > 1 && !(len(got) == 2 && want == in && !f.isNil(an) && r.notation(got[1], an)) {
		return fmt.Sprintf("a drawing adds %v", got)
	}
	return ""
}

func (r *render) link(x *Path, got []piece, h *Term) string {
	bad := func() string { return fmt.Sprintf("a link adds %v instead of [text](target)", got) }
	rest := got
	cut := func(s string) bool {
		if len(rest) == 0 || rest[0].val != nil || rest[0].loop != nil || !strings.HasPrefix(rest[0].lit, s) {
			return false
		}
		l := rest[0].lit[len(s):]
		rest = append([]piece(nil), rest[1:]...)
		if l != "" {
			rest = append([]piece{{lit: l}}, rest...)
		}
		return true
	}
	if !cut("[") {
		return bad()
	}
	instr := r.field(x, h, "Run", "InstrText")
	if len(rest) > 0 && rest[0].val == instr {
		rest = rest[1:]
	} else if !x.st.facts.mustBe(instr, "") {
		return "a link leaves out its instruction text"
	}
	var loop []piece
	for len(rest) > 0 && rest[0].loop != nil {
		loop = append(loop, rest[0])
		rest = rest[1:]
	}
	if s := r.run(x, loop, fieldLoc(h, "Run"), "a link"); s != "" {
		return s
	}
	if !cut("](") {
		return bad()
	}
	id := r.field(x, h, "ID")
	if len(rest) == 0 {
		return bad()
	}
	if rest[0].val == nil || rest[0].loop != nil {
		if !(x.st.facts.mustBe(id, "")) {
			return bad()
		}
	} else {
		if s := r.target(x, rest[0].val, id, h); s != "" {
			return s
		}
		rest = rest[1:]
	}
	if !cut(")") || len(rest) > 0 {
		return bad()
	}
	return ""
}

// target: v is what the link leads to.
func (r *render) target(x *Path, v, id, h *Term) string {
	found, looked := false, false
	for _, ev := range x.ev() {
		if (ev.kind == "call" || ev.kind == "reccall") && ev.callee != nil && r.c.p.relFinder(ev.callee) && len(ev.a) == 2 && ev.a[1] == id {
			looked = true
			if ev.res[0] == v {
				if !x.st.facts.isNil(ev.res[1]) {
					return "a link shows a target although looking it up may have failed"
				}
				found = true
			} else if v == id && x.st.facts.isNil(ev.res[1]) {
				return "a link shows its identifier although its target is known"
			}
		}
	}
	if found || looked && (v == id || v == r.field(x, h, "Anchor")) {
		return ""
	}
	if v == id {
		return "a link shows its identifier without its target having been looked up"
	}
	return fmt.Sprintf("a link shows %v as its target", v)
}

var notationForm = regexp.MustCompile(`^!\[(inln|anch)[a-z]* ?[^\]]*\]\([^()]*\)$`)

// drawing: the notation of a drawing.
func (r *render) drawing(q *Path, ps []piece, recv *Term, tag string) string {
	s := ""
	for _, p := range ps {
		switch {
		case p.loop != nil:
			return "the notation of a drawing depends on a loop"
		case p.val != nil:
			s += "\x00"
		default:
			s += p.lit
		}
	}
	if !notationForm.MatchString(s) && s != "!["+tag+"?](unknown)" || !strings.HasPrefix(s, "!["+tag) {
		return fmt.Sprintf("the notation of a drawing is %v", ps)
	}
	return ""
}

// table: row by row, cell by cell, the first paragraph of every cell.
func (r *render) table(q *Path, ps []piece, recv *Term) string {
	rows := r.field(q, recv, "TableRows")
	if len(ps) == 0 {
		return ""
	}
	n := 0
	for _, p := range ps {
		if p.loop == nil {
			continue
		}
		if _, bad := over(r.paths, q, p.loop, rows); bad != "" {
			continue
		}
		n++
		if s := r.whole(q, []piece{p}, rows, "the table", r.row); s != "" {
			return s
		}
	}
	if n != 1 {
		return fmt.Sprintf("%d complete loops over the rows add to the text", n)
	}
	return ""
}

func (r *render) row(x *Path, got []piece, isE func(*Term) bool, e *Term) string {
	var loops []piece
	for _, p := range got {
		if p.loop != nil {
			loops = append(loops, p)
		}
	}
	row := r.elemTerm(x, isE)
	if row == nil {
		return "a row adds nothing of its cells"
	}
	cells := r.field(x, row, "TableCells")
	return r.whole(x, loops, cells, "a row", func(y *Path, got []piece, isC func(*Term) bool, _ *Term) string {
		var vals []piece
		for _, p := range got {
			if p.val != nil || p.loop != nil {
				vals = append(vals, p)
			}
		}
		cell := r.elemTerm(y, isC)
		if cell == nil {
			return "a cell is not looked at"
		}
		paras := r.field(y, cell, "Paragraphs")
		first := mk("ld", "", nil, mk("ia", "", nil, paras, mkInt(0)))
		if iv := y.st.facts.interval(mk("len", "", types.Typ[types.Int], paras)); iv.hasHi && iv.hi <= 0 {
			first = nil
		}
		if len(vals) == 0 {
			if first == nil {
				return ""
			}
			for t, iv := range y.st.facts.iv {
				if t.op == "len" && t.args[0].op == "ld" && lastField(t.args[0].args[0]) == "Children" && iv.hasHi && iv.hi <= 0 {
					return ""
				}
			}
			return "a cell with content adds nothing"
		}
		if len(vals) != 1 || vals[0].val == nil {
			return fmt.Sprintf("a cell adds %v", vals)
		}
		for _, ev := range y.ev() {
			if ev.callee != nil && ev.callee.Name() == "String" && len(ev.res) == 1 && ev.res[0] == vals[0].val && len(ev.a) > 0 {
				if isElem(ev.a[0], paras, mkInt(0)) {
					return ""
				}
			}
		}
		return fmt.Sprintf("a cell adds %v instead of its first paragraph", vals)
	})
}

// elemTerm finds the element of the round among the values the round used.
func (r *render) elemTerm(x *Path, isE func(*Term) bool) *Term {
	var found *Term
	look := func(t *Term) {
		if t == nil || found != nil {
			return
		}
		t.contains(func(u *Term) bool {
			if found == nil && isE(u) {
				found = u
			}
			return false
		})
	}
	for k := range x.st.facts.bools {
		look(k)
	}
	for k := range x.st.facts.iv {
		look(k)
	}
	for k := range x.st.facts.nilf {
		look(k)
	}
	for _, ev := range x.ev() {
		for _, a := range ev.a {
			look(a)
		}
	}
	return found
}
