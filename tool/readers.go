package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- writer side: struct tags

type attrF struct {
	field, local, full string
	idx                int
	typ                types.Type
}
type kidF struct {
	field string
	idx   int
	typ   types.Type // element type without pointer/slice
	slice bool
	ptr   bool
	iface bool
}
type writerInfo struct {
	name  string
	named *types.Named
	st    *types.Struct
	attrs []attrF
	kids  map[string][]kidF
	text  string
	self  string // own element local name
}

// ifaceSlots: element types that may be placed in the interface-typed content lists.
var ifaceSlots = map[string][]string{
	"Body.Items":                 {"Paragraph", "Table", "SectPr"},
	"Paragraph.Children":         {"Run", "Hyperlink", "RunProperties"},
	"Run.Children":               {"Text", "Tab", "BarterRabbet", "Drawing"},
	"WordprocessingCanvas.Items": {"WordprocessingShape", "Picture", "WordprocessingGroup"},
	"WordprocessingGroup.Elems":  {"Picture", "WordprocessingShape", "WordprocessingCanvas", "WPGGroupShape"},
	"WPGGroupShape.Elems":        {"Picture", "WordprocessingShape", "WordprocessingCanvas"},
}

func localName(s string) string {
	if i := strings.LastIndexByte(s, ':'); i >= 0 {
		return s[i+1:]
	}
	return s
}

func selfName(t types.Type) string {
	st := fieldsOf(t)
	if st == nil {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "XMLName" {
			tag := reflect.StructTag(st.Tag(i)).Get("xml")
			return localName(strings.Split(tag, ",")[0])
		}
	}
	return ""
}

func (p *Program) writer(n *types.Named) *writerInfo {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	w := &writerInfo{name: n.Obj().Name(), named: n, st: st, kids: map[string][]kidF{}, self: selfName(n)}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("xml")
		parts := strings.Split(tag, ",")
		if !f.Exported() || tag == "-" || f.Name() == "XMLName" {
			continue
		}
		has := func(o string) bool {
			for _, x := range parts[1:] {
				if x == o {
					return true
				}
			}
			return false
		}
		if has("attr") {
			nm := parts[0]
			if nm == "" {
				nm = f.Name()
			}
			if nm == "xmlns" || strings.HasPrefix(nm, "xmlns:") {
				continue
			}
			w.attrs = append(w.attrs, attrF{f.Name(), localName(nm), nm, i, f.Type()})
			continue
		}
		if has("chardata") {
			w.text = f.Name()
			continue
		}
		if has("innerxml") || has("comment") || has("any") || has("cdata") {
			continue
		}
		t := f.Type()
		k := kidF{field: f.Name(), idx: i}
		if s, ok := t.Underlying().(*types.Slice); ok {
			k.slice = true
			t = s.Elem()
		}
		if pt, ok := t.(*types.Pointer); ok {
			k.ptr = true
			t = pt.Elem()
		}
		k.typ = t
		if _, ok := t.Underlying().(*types.Interface); ok {
			k.iface = true
			for _, d := range ifaceSlots[w.name+"."+f.Name()] {
				dt := p.namedType(d)
				if dt == nil {
					continue
				}
				kk := k
				kk.typ = dt
				w.kids[selfName(dt)] = append(w.kids[selfName(dt)], kk)
			}
			continue
		}
		nm := localName(parts[0])
		if nm == "" {
			nm = selfName(t)
		}
		if nm == "" {
			nm = f.Name()
		}
		w.kids[nm] = append(w.kids[nm], k)
	}
	return w
}

func (p *Program) hasUnmarshal(t types.Type) *ssa.Function {
	n, ok := t.(*types.Named)
	if !ok {
		return nil
	}
	ms := p.ssa.MethodSets.MethodSet(types.NewPointer(n))
	sel := ms.Lookup(nil, "UnmarshalXML")
	if sel == nil {
		return nil
	}
	f, ok := sel.Obj().(*types.Func)
	if !ok {
		return nil
	}
	return p.ssa.FuncValue(f)
}

// ---------------------------------------------------------------- reader entries

type reader struct {
	fn    *ssa.Function
	typ   *types.Named // nil for helpers
	w     *writerInfo
	recv  *Term
	start *Term
	paths []*Path
	help  bool // recursive helper verified by contract
}

const tokenCall = "(*xml.Decoder).Token"
const skipCall = "(*xml.Decoder).Skip"
const decElemCall = "(*xml.Decoder).DecodeElement"

func isDecoderT(t types.Type) bool { return isPtrTo(t, "encoding/xml", "Decoder") }

func (c *Ctx) readers() []*reader {
	var out []*reader
	helpers := map[*ssa.Function]bool{}
	for _, fn := range c.p.all {
		if fn.Parent() != nil || fn.Signature.Recv() == nil || fn.Name() != "UnmarshalXML" || len(fn.Params) != 3 || !isDecoderT(fn.Params[1].Type()) {
			continue
		}
		rt, ok := fn.Signature.Recv().Type().(*types.Pointer)
		if !ok {
			continue
		}
		n, ok := rt.Elem().(*types.Named)
		if !ok {
			continue
		}
		r := &reader{fn: fn, typ: n, w: c.p.writer(n)}
		r.recv = mk("param", fn.Params[0].Name(), fn.Params[0].Type())
		r.start = mk("param", fn.Params[2].Name(), fn.Params[2].Type())
		r.paths = c.paths(fn)
		out = append(out, r)
		c.n("readers")
		for _, p := range r.paths {
			for _, ev := range p.ev() {
				if ev.kind == "reccall" && ev.callee != nil && hasDecoderArg(ev.callee) {
					helpers[ev.callee] = true
				}
			}
		}
	}
	done := map[*ssa.Function]bool{}
	for {
		var next *ssa.Function
		for h := range helpers {
			if !done[h] && (next == nil || h.String() < next.String()) {
				next = h
			}
		}
		if next == nil {
			break
		}
		done[next] = true
		if next.Name() == "UnmarshalXML" {
			continue
		}
		r := &reader{fn: next, help: true}
		r.paths = c.paths(next)
		out = append(out, r)
		c.n("recursive_helpers")
		for _, p := range r.paths {
			for _, ev := range p.ev() {
				if ev.kind == "reccall" && ev.callee != nil && hasDecoderArg(ev.callee) {
					helpers[ev.callee] = true
				}
			}
		}
	}
	return out
}

func hasDecoderArg(f *ssa.Function) bool {
	for _, p := range f.Params {
		if isDecoderT(p.Type()) {
			return true
		}
	}
	return false
}

const startT, endT, charT = "xml.StartElement", "xml.EndElement", "xml.CharData"

func tokKind(st *State, tok *Term) (kind string, known bool) {
	if d, ok := st.facts.dyn[tok]; ok {
		return d, true
	}
	return "", false
}

// ---------------------------------------------------------------- attributes

// attrRef: t is attribute element part (Name.Local, Name.Space, Value) of list[idx].
func attrRef(t *Term) (list, idx *Term, part string, loc *Term, ok bool) {
	x := t
	var path []string
	if x.op == "ld" {
		x = x.args[0]
		for x.op == "fa" {
			path = append([]string{x.sym}, path...)
			x = x.args[0]
		}
	} else {
		for x.op == "field" {
			path = append([]string{x.sym}, path...)
			x = x.args[0]
		}
		if x.op == "ld" {
			x = x.args[0]
		}
	}
	if x.op != "ia" || locType(x) == nil || !isNamed(locType(x), "encoding/xml", "Attr") {
		return nil, nil, "", nil, false
	}
	return x.args[0], x.args[1], strings.Join(path, "."), x, true
}

// attrOwner: the StartElement value whose Attr list this is.
func attrOwner(list *Term) *Term {
	if (list.op == "field") && list.sym == "Attr" {
		return list.args[0]
	}
	if list.op == "ld" && list.args[0].op == "fa" && list.args[0].sym == "Attr" {
		return list.args[0].args[0]
	}
	return nil
}

type hit struct {
	owner, list, idx *Term
	local            string
	val              *Term
}

// hits: attributes this path has identified by name.
func (c *Ctx) hits(p *Path) []hit {
	var hs []hit
	for t, set := range p.st.facts.in {
		if len(set) != 1 {
			continue
		}
		list, idx, part, loc, ok := attrRef(t)
		if !ok || part != "Name.Local" {
			continue
		}
		l := ""
		for k := range set {
			l = strings.TrimPrefix(k, "s:")
		}
		ats := fieldsOf(locType(loc))
		var vloc *Term
		for i := 0; i < ats.NumFields(); i++ {
			if ats.Field(i).Name() == "Value" {
				vloc = faddr(loc, ats, i)
			}
		}
		hs = append(hs, hit{attrOwner(list), list, idx, l, c.e.load0(p.st, vloc)})
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].val.id < hs[j].val.id })
	return hs
}

func intSize(t types.Type) (bits int, signed, ok bool) {
	b, k := t.Underlying().(*types.Basic)
	if !k || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	default:
		bits = 64
	}
	return bits, b.Info()&types.IsUnsigned == 0, true
}

// isValueOf: t is the attribute value val, verbatim for strings, decimal for integers.
func isValueOf(st *State, t, val *Term) bool {
	if t == val {
		return true
	}
	if s, ok := t.strVal(); ok && st.facts.mustBe(val, s) {
		return true
	}
	for t.op == "conv" || t.op == "chtype" {
		in := t.args[0]
		b1, s1, ok1 := intSize(t.typ)
		if ok1 {
			b2, s2, ok2 := intSize(in.typ)
			if !ok2 || b1 < b2 || s1 != s2 {
				return false
			}
		} else if !isString(t) || !isString(in) {
			return false
		}
		t = in
		if t == val {
			return true
		}
	}
	if t.op == "call" && len(t.args) > 0 && t.args[0] == val {
		switch {
		case strings.HasPrefix(t.sym, "NUM:") && strings.HasSuffix(t.sym, "#0"):
			return true
		case t.sym == "strconv.Atoi#0":
			return true
		case t.sym == "strconv.ParseInt#0":
			b, _ := t.args[1].intVal()
			n, _ := t.args[2].intVal()
			return b == 10 && (n == 64 || n == 0)
		}
	}
	return false
}

// inInstance: the path is inside an iteration of the loop over list at index idx.
func inInstance(p *Path, list, idx *Term) bool {
	for k, v := range p.st.facts.bools {
		if v && k.op == "bin" && k.sym == "<" && k.args[0] == idx {
			if l := k.args[1]; l.op == "len" && l.args[0] == list {
				return true
			}
		}
	}
	return false
}

// loopOfIdx finds the loop event whose header variable the index is built from.
func loopOfIdx(p *Path, idx *Term) *Event {
	b, _ := lin(idx)
	if b == nil {
		return nil
	}
	for _, ev := range p.ev() {
		if ev.kind == "loop" && ev.entry != nil {
			for _, g := range ev.entry.phis {
				if g == b {
					return ev
				}
			}
			for _, g := range ev.entry.locs {
				if g == b {
					return ev
				}
			}
		}
	}
	return nil
}

// okPath: the path ends without reporting an error (or goes on).
func okPath(p *Path) bool {
	if p.outcome == "panic" || expectedDead(p) {
		return false
	}
	if p.outcome == "back" {
		return true
	}
	k, _ := retErr(p)
	return k != "err"
}

// attrScope says which element's attributes and which storage an attribute rule is about.
type attrScope struct {
	what   string
	isElem func(p *Path, owner *Term) bool                 // attribute list belongs to the element
	final  func(p *Path, f attrF, val *Term) (*Term, bool) // value of the field at the end of the path; false: not applicable to this path
	must   func(p *Path) bool                              // path that handled the element completely
}

// checkAttr decides one attribute obligation; it returns "" when it holds.
func (c *Ctx) checkAttr(paths []*Path, sc attrScope, f attrF) (string, ssa.Instruction) {
	type inst struct {
		good, bad int
		why       string
		at        ssa.Instruction
	}
	loops := map[string]*inst{} // static loop id
	get := func(id string) *inst {
		if loops[id] == nil {
			loops[id] = &inst{}
		}
		return loops[id]
	}
	for _, p := range paths {
		if !okPath(p) {
			continue
		}
		for _, h := range c.hits(p) {
			if h.owner == nil || !sc.isElem(p, h.owner) || h.local != f.local {
				continue
			}
			le := loopOfIdx(p, h.idx)
			id := "direct"
			if le != nil {
				id = le.sym
			}
			in := get(id)
			if p.st.facts.mustBe(h.val, "") {
				continue
			}
			if p.outcome == "back" && le != nil && (p.hdr == nil || p.loop != le.sym) {
				// an inner loop of this iteration; or a later loop after a search loop ended
				if inInstance(p, h.list, h.idx) && c.loopStillOpen(p, le) {
					continue
				}
			}
			v, ok := sc.final(p, f, h.val)
			if !ok {
				continue
			}
			if v != nil && isValueOf(p.st, v, h.val) {
				in.good++
				continue
			}
			if c.carriedOver(paths, sc, p, f, h.val) {
				in.good++
				continue
			}
			in.bad++
			if in.why == "" {
				in.why = fmt.Sprintf("on a path that met attribute %s its value is not stored in %s (stored: %v)", f.local, f.field, v)
				in.at = lastInstr(p)
			}
		}
		// early exits
		for k, v := range p.st.facts.bools {
			if !v || k.op != "bin" || k.sym != "<" || k.args[1].op != "len" {
				continue
			}
			list, idx := k.args[1].args[0], k.args[0]
			ow := attrOwner(list)
			if ow == nil || !sc.isElem(p, ow) {
				continue
			}
			le := loopOfIdx(p, idx)
			if le == nil {
				continue
			}
			if p.outcome == "back" && p.loop == le.sym || c.loopStillOpen(p, le) {
				continue
			}
			hitOwn := false
			for _, h := range c.hits(p) {
				if h.list == list && h.idx == idx && h.local == f.local {
					hitOwn = true
				}
			}
			if !hitOwn {
				in := get(le.sym)
				in.bad++
				if in.why == "" {
					in.why = fmt.Sprintf("the loop over the attributes can stop before %s has been seen", f.local)
					in.at = le.instr
				}
			}
		}
	}
	var ids []string
	for id := range loops {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	why := fmt.Sprintf("attribute %s is never read into %s", f.full, f.field)
	var at ssa.Instruction
	for _, id := range ids {
		in := loops[id]
		if in.bad > 0 {
			why, at = in.why, in.at
			continue
		}
		if in.good == 0 {
			continue
		}
		// every completed path goes through the loop
		for _, p := range paths {
			if !okPath(p) || !sc.must(p) {
				continue
			}
			thr := id == "direct"
			for _, ev := range p.ev() {
				if ev.kind == "loop" && ev.sym == id {
					thr = true
				}
			}
			if !thr {
				why = fmt.Sprintf("a path handles the element without looking for attribute %s", f.local)
				at = lastInstr(p)
				in.bad++
				break
			}
		}
		if in.bad == 0 {
			return "", nil
		}
	}
	return why, at
}

// carriedOver: the round leaves the value in a local variable, which every path that goes on after the loop
// stores in the field, unless it found the variable to hold nothing.
func (c *Ctx) carriedOver(paths []*Path, sc attrScope, p *Path, f attrF, val *Term) bool {
	if p.outcome != "back" || p.hdr == nil {
		return false
	}
	for phi, v := range p.phis {
		if !isValueOf(p.st, v, val) {
			continue
		}
		n, ok := 0, true
		for _, q := range paths {
			if !okPath(q) || !sc.must(q) {
				continue
			}
			for _, ev := range q.ev() {
				if ev.kind != "loop" || ev.entry == nil || ev.entry.id != p.hdr.id {
					continue
				}
				g := ev.entry.phis[phi]
				if g == nil || holdsNothing(q, g) || c.flagUnmet(paths, q, ev, f.local) {
					continue
				}
				n++
				if fv, has := sc.final(q, f, g); !has || fv == nil || !isValueOf(q.st, fv, g) {
					ok = false
				}
			}
		}
		if n > 0 && ok {
			return true
		}
	}
	return false
}

// holdsNothing: the path has found the value to be empty.
func holdsNothing(q *Path, g *Term) bool {
	if q.st.facts.mustBe(g, "") || g.isConst() {
		return true
	}
	s, ok := q.st.facts.in[g]
	return ok && len(s) == 1 && s["i:0"]
}

// flagUnmet: a flag that every round setting out from the attribute raises, and no other lowers, is not
// raised when the loop is over.
func (c *Ctx) flagUnmet(paths []*Path, q *Path, ev *Event, local string) bool {
	for phi, g := range ev.entry.phis {
		if v, ok := q.st.facts.bools[g]; !ok || v || ev.entry.init[phi] != mkBool(false) {
			continue
		}
		met, all := 0, true
		for _, p := range paths {
			if p.outcome != "back" || p.hdr == nil || p.hdr.id != ev.entry.id {
				continue
			}
			mine := false
			for _, h := range c.hits(p) {
				if h.local == local && !p.st.facts.mustBe(h.val, "") {
					mine = true
				}
			}
			switch v := p.phis[phi]; {
			case mine && v != nil && v == mkBool(true):
				met++
			case mine:
				all = false
			case v == nil || v != p.hdr.phis[phi] && v != mkBool(true):
				all = false
			}
		}
		if met > 0 && all {
			return true
		}
	}
	return false
}

// loopStillOpen: the path ended by a back edge of a loop entered inside le's current iteration.
func (c *Ctx) loopStillOpen(p *Path, le *Event) bool {
	if p.outcome != "back" || p.hdr == nil || le.entry == nil {
		return false
	}
	if p.loop == le.sym {
		return true
	}
	// inner loop: header inside le's body in the same frame, or a deeper frame called from it
	h := p.hdr
	if h.fn == le.entry.fn && h.depth == le.entry.depth {
		return le.entry.loop.body[h.loop.header]
	}
	if h.depth > le.entry.depth && strings.HasPrefix(h.id, le.sym[:strings.LastIndexByte(le.sym, '@')]) {
		// call chain: position of the call inside le's frame
		var bi, ii int
		rest := h.id[strings.LastIndexByte(le.sym, '@'):]
		if i := strings.IndexByte(rest, ':'); i >= 0 {
			j := strings.LastIndexByte(rest[:strings.IndexByte(rest+">", '>')], ':')
			_ = j
		}
		// frames are written as ">fn:block.idx"
		if n := strings.SplitN(rest, ">", 3); len(n) >= 2 {
			k := strings.LastIndexByte(n[1], ':')
			s := n[1][k+1:]
			if at := strings.IndexByte(s, '@'); at >= 0 {
				s = s[:at]
			}
			fmt.Sscanf(s, "%d.%d", &bi, &ii)
			for b := range le.entry.loop.body {
				if b.Index == bi {
					return true
				}
			}
		}
	}
	return false
}

func lastInstr(p *Path) ssa.Instruction {
	evs := p.ev()
	for i := len(evs) - 1; i >= 0; i-- {
		if evs[i].instr != nil {
			return evs[i].instr
		}
	}
	return nil
}

// ---------------------------------------------------------------- kept children

// kept describes a child element put into a slot on a path.
type kept struct {
	tok   *Event
	names []string // possible element names; nil = unknown
	field string
	typ   types.Type
	val   *Term // pointer to the stored element, or address of the struct slot
	src   *Term // pointer the element was decoded into
	how   string
	ins   ssa.Instruction
}

type keepPath struct {
	p    *Path
	tok  *Event
	elem *Term // ta(StartElement)
	name *Term
	kept []kept
	bad  []string
	chg  []string
}

func elemOf(tok *Term) *Term { return mk("ta", startT, nil, tok) }

// activeTokens: Token events of the current iteration (not those whose element is still open because
// the path ends at a back edge of a loop entered after them).
func activeTokens(p *Path) []*Event {
	var out []*Event
	from := -1
	if p.outcome == "back" {
		for i, ev := range p.ev() {
			if ev.kind == "loop" && ev.sym == p.loop {
				from = i
			}
		}
	}
	for i, ev := range p.ev() {
		if i > from && ev.kind == "call" && ev.sym == tokenCall {
			out = append(out, ev)
		}
	}
	return out
}

// startElem finds the interned StartElement view of a token (the assertion term), if the path looked at it.
func startElem(p *Path, tok *Term) *Term {
	if d, ok := p.st.facts.dyn[tok]; ok && d != startT {
		return nil
	}
	if d, ok := p.st.facts.dyn[tok]; !ok || d != startT {
		return nil
	}
	return mk("ta", startT, ifaceType[startT], tok)
}

func elemNameTerm(elem *Term) *Term {
	st := fieldsOf(ifaceType[startT])
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "Name" {
			n := fieldVal(elem, st, i)
			ns := fieldsOf(st.Field(i).Type())
			for j := 0; j < ns.NumFields(); j++ {
				if ns.Field(j).Name() == "Local" {
					return fieldVal(n, ns, j)
				}
			}
		}
	}
	return nil
}

// slotChanges compares the receiver's content fields with their value when the token was read.
func (c *Ctx) keptOn(r *reader, p *Path, tok *Event) (ks []kept, bad []string) {
	evs := p.ev()
	seg := evs[:0:0]
	on := false
	for _, ev := range evs {
		if ev == tok {
			on = true
		}
		if on {
			seg = append(seg, ev)
		}
	}
	if r.typ == nil {
		return nil, nil
	}
	decoded := func(v *Term) *Event {
		for _, ev := range seg {
			if ev.kind == "call" && (ev.sym == decElemCall || ev.sym == "(*xml.Decoder).Decode") && unwrap(ev.a[1]) == v {
				return ev
			}
			if ev.kind == "reccall" || ev.kind == "call" && ev.callee != nil {
				for _, a := range ev.a {
					if unwrap(a) == v && hasDecoderArgEv(ev) {
						return ev
					}
				}
			}
		}
		return nil
	}
	at := func(loc *Term) *Term {
		if v, ok := tok.snap[loc]; ok {
			return v
		}
		// unchanged memory reads as at the end when never written
		return nil
	}
	for i := 0; i < r.w.st.NumFields(); i++ {
		f := r.w.st.Field(i)
		loc := faddr(r.recv, r.w.st, i)
		isKid := false
		var kf kidF
		for _, kk := range r.w.kids {
			for _, k := range kk {
				if k.idx == i {
					isKid, kf = true, k
				}
			}
		}
		if !isKid {
			continue
		}
		if fst := fieldsOf(f.Type()); fst != nil {
			// struct slot: decoded in place or assigned field by field
			if ev := decoded(loc); ev != nil {
				ks = append(ks, kept{tok: tok, field: f.Name(), typ: kf.typ, val: loc, src: loc, how: "struct", ins: ev.instr})
				continue
			}
			changed := false
			var src *Term
			for j := 0; j < fst.NumFields(); j++ {
				fl := faddr(loc, fst, j)
				v, ok := p.st.heap[fl]
				if !ok {
					continue
				}
				if o := at(fl); o == v {
					continue
				} else if o == nil && v.op == "ld" && v.args[0] == fl {
					continue
				}
				changed = true
				v.contains(func(x *Term) bool {
					if x.op == "ld" && rootOf(x.args[0]).op == "obj" {
						if decoded(rootOf(x.args[0])) != nil {
							src = rootOf(x.args[0])
						}
					}
					return false
				})
			}
			if changed {
				ks = append(ks, kept{tok: tok, field: f.Name(), typ: kf.typ, val: loc, src: src, how: "struct"})
			}
			continue
		}
		old := at(loc)
		v, ok := p.st.heap[loc]
		if !ok {
			if ev := decoded(loc); ev != nil {
				ks = append(ks, kept{tok: tok, field: f.Name(), typ: kf.typ, val: loc, src: loc, how: "inplace", ins: ev.instr})
			}
			// decode into the existing pointee
			cur := c.e.load0(p.st, loc)
			if ev := decoded(cur); ev != nil {
				ks = append(ks, kept{tok: tok, field: f.Name(), typ: kf.typ, val: cur, src: cur, how: "ptr", ins: ev.instr})
			}
			continue
		}
		if old == nil {
			old = mk("ld", "", locType(loc), loc)
		}
		if v == old {
			if ev := decoded(v); ev != nil {
				ks = append(ks, kept{tok: tok, field: f.Name(), typ: kf.typ, val: v, src: v, how: "ptr", ins: ev.instr})
			}
			continue
		}
		if kf.slice {
			x, one := appendedOne(v, old)
			if !one {
				if c.isLoopList(p, v) {
					continue
				}
				if p.outcome == "return" && v.op == "appendslice" && len(v.args) == 2 && v.args[0] == old && c.isLoopList(p, v.args[1]) {
					continue // what was gathered in a local list is put after what was there
				}
				if g := recAppend(p, seg, v, old); g {
					continue
				}
				bad = append(bad, fmt.Sprintf("list %s is not extended by one element at its end: %v", f.Name(), v))
				continue
			}
			typ := kf.typ
			if kf.iface {
				typ = nil
				if x.op == "iface" {
					if pt, ok := ifaceType[x.sym].(*types.Pointer); ok {
						typ = pt.Elem()
					}
				} else if isIfaceUnknown(x) {
					continue // element produced by a recursive call with its own contract
				}
			}
			x = unwrap(x)
			ks = append(ks, kept{tok: tok, field: f.Name(), typ: typ, val: x, src: c.srcOf(p, x, decoded), how: "append"})
			continue
		}
		if v.op == "nil" {
			bad = append(bad, fmt.Sprintf("slot %s is cleared", f.Name()))
			continue
		}
		ks = append(ks, kept{tok: tok, field: f.Name(), typ: kf.typ, val: v, src: c.srcOf(p, v, decoded), how: "ptr"})
	}
	// lists carried in local variables
	if p.outcome == "back" {
		for ph, nv := range p.phis {
			sl, ok := ph.Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			old := p.hdr.phis[ph]
			if nv == old {
				continue
			}
			field := c.phiField(r, ph)
			if field == "" {
				continue
			}
			_ = sl
			x, one := appendedOne(nv, old)
			if !one {
				bad = append(bad, fmt.Sprintf("list %s is not extended by one element at its end: %v", field, nv))
				continue
			}
			var typ types.Type
			if x.op == "iface" {
				if pt, ok := ifaceType[x.sym].(*types.Pointer); ok {
					typ = pt.Elem()
				}
			} else if pt, ok := sl.Elem().(*types.Pointer); ok {
				typ = pt.Elem()
			}
			x = unwrap(x)
			ks = append(ks, kept{tok: tok, field: field, typ: typ, val: x, src: c.srcOf(p, x, decoded), how: "append"})
		}
	}
	return ks, bad
}

func hasDecoderArgEv(ev *Event) bool {
	for _, a := range ev.a {
		if a.typ != nil && isDecoderT(a.typ) {
			return true
		}
	}
	return false
}

func isIfaceUnknown(x *Term) bool { return x.op == "sym" }

// recAppend: the list was changed by a recursive helper call (verified as an entry of its own).
func recAppend(p *Path, seg []*Event, v, old *Term) bool {
	if v.op == "append" && len(v.args) == 2 {
		// the element a recursive call has read, put after whatever that call appended itself
		for _, ev := range seg {
			if ev.kind == "reccall" {
				for _, r := range ev.res {
					if r == v.args[1] {
						return recAppend(p, seg, v.args[0], old) || v.args[0] == old
					}
				}
			}
		}
		return false
	}
	if v.op != "ld" && v.op != "sym" {
		return false
	}
	for _, ev := range seg {
		if ev.kind == "reccall" {
			return true
		}
		if ev.kind == "loop" && ev.entry != nil {
			for _, g := range ev.entry.locs {
				if g == v {
					return true // an inner loop; its own back edges are checked
				}
			}
		}
	}
	return false
}

// srcOf resolves the pointer an element was decoded into, following struct copies.
func (c *Ctx) srcOf(p *Path, v *Term, decoded func(*Term) *Event) *Term {
	if decoded(v) != nil {
		return v
	}
	// v may be a copy of a decoded local: any of its fields reads memory of the decode target
	var src *Term
	st := fieldsOf(locType(v))
	if st == nil {
		// basic slot: the value itself
		v.contains(func(x *Term) bool {
			if x.op == "ld" && rootOf(x.args[0]).op == "obj" && decoded(rootOf(x.args[0])) != nil {
				src = rootOf(x.args[0])
			}
			return false
		})
		return src
	}
	for i := 0; i < st.NumFields(); i++ {
		if fv, ok := p.st.heap[faddr(v, st, i)]; ok {
			fv.contains(func(x *Term) bool {
				if x.op == "ld" && rootOf(x.args[0]).op == "obj" && decoded(rootOf(x.args[0])) != nil {
					src = rootOf(x.args[0])
				}
				return false
			})
		}
	}
	return src
}

// appendedOne: v is old with exactly one element after it.
func appendedOne(v, old *Term) (*Term, bool) {
	if v.op != "append" {
		return nil, false
	}
	if len(v.args) == 2 && (v.args[0] == old || v.args[0].op == "nil" && old.op == "nil") {
		return v.args[1], true
	}
	if old.op == "append" && len(v.args) == len(old.args)+1 {
		for i := range old.args {
			if v.args[i] != old.args[i] {
				return nil, false
			}
		}
		return v.args[len(v.args)-1], true
	}
	return nil, false
}

// phiField: the receiver field a loop-carried local list ends up in (checked on every return).
func (c *Ctx) phiField(r *reader, ph *ssa.Phi) string {
	for _, p := range r.paths {
		if p.outcome != "return" {
			continue
		}
		if k, _ := retErr(p); k == "err" {
			continue
		}
		for _, ev := range p.ev() {
			if ev.kind == "loop" && ev.entry != nil {
				g, ok := ev.entry.phis[ph]
				if !ok {
					continue
				}
				for i := 0; i < r.w.st.NumFields(); i++ {
					v := p.st.heap[faddr(r.recv, r.w.st, i)]
					if v == g || v != nil && v.op == "appendslice" && v.args[len(v.args)-1] == g {
						return r.w.st.Field(i).Name()
					}
				}
			}
		}
	}
	return ""
}

// isLoopList: v is the value a local list had when its loop ended, and that list started empty.
func (c *Ctx) isLoopList(p *Path, v *Term) bool {
	for _, ev := range p.ev() {
		if ev.kind != "loop" || ev.entry == nil {
			continue
		}
		for ph, g := range ev.entry.phis {
			if g == v {
				l := lenOf(p.st, ev.entry.init[ph])
				if n, ok := l.intVal(); ok && n == 0 {
					return true
				}
			}
		}
	}
	return false
}
