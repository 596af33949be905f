package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Walk describes a front-to-back traversal of a list by a loop, as seen from one path.
type Walk struct {
	le    *LoopEntry
	ph    *ssa.Phi
	g     *Term // generic value of the counter
	idx   *Term // index of the element of the current round
	at    *Term // where a list that is lengthened is held
	bound *Term // what the index is compared with
	list  *Term // the list, when bound is its length
	src   *Term // the list as it was when the loop was entered
	eat   bool  // the loop shortens the list from the front instead of counting
	grow  bool  // the loop lengthens a list instead of counting
	down  bool  // the loop counts back from the last element
	round bool  // the path is inside a round (index < bound holds)
	done  bool  // the list is exhausted on this path
	first bool  // the traversal starts with the first element
}

// walkOf recognises the counting loop le on path p.
func walkOf(p *Path, le *LoopEntry) *Walk {
	f := p.st.facts
	var best *Walk
	for ph, g := range le.phis {
		if !isIntT(ph.Type()) {
			continue
		}
		i0, ok := le.init[ph].intVal()
		if !ok {
			continue
		}
		try := func(idx, bound *Term, round, done bool) {
			b, o := lin(idx)
			if b != g {
				return
			}
			if i0+o != 0 && bound.op == "len" {
				// i+1 < len(append(l, x)) is known as i < len(l)
				var l *Term
				n := 0
				for _, t := range le.lists {
					if k := int64(len(t.args) - 1); t.args[0] == bound.args[0] && i0+o+k == 0 {
						l = t
						n++
					}
				}
				if n == 1 {
					k := int64(len(l.args) - 1)
					idx, bound, o = addConst(idx, k), mk("len", "", bound.typ, l), o+k
				}
			}
			w := &Walk{le: le, ph: ph, g: g, idx: idx, bound: bound, round: round, done: done, first: i0+o == 0}
			if bound.op == "len" {
				w.list = bound.args[0]
				w.src = w.list
			}
			if best == nil || w.first && !best.first {
				best = w
			}
		}
		for k, v := range f.bools {
			if k.op == "bin" && k.sym == "<" {
				try(k.args[0], k.args[1], v, !v)
			}
			if k.op == "bin" && k.sym == "==" {
				// i != len(list) style bounds
				if k.args[1].op == "len" {
					try(k.args[0], k.args[1], !v, v)
				} else if k.args[0].op == "len" {
					try(k.args[1], k.args[0], !v, v)
				}
			}
		}
		// bounds by constants live in the intervals
		for o := int64(0); o <= 1; o++ {
			idx := addConst(g, o)
			iv := f.interval(idx)
			if best == nil && iv.hasHi {
				best = &Walk{le: le, ph: ph, g: g, idx: idx, bound: mkInt(iv.hi + 1), round: true, first: i0+o == 0}
			}
		}
	}
	if best != nil && best.list != nil {
		return best
	}
	// lists grown from nothing up to a length
	for ph, g := range le.phis {
		if _, ok := ph.Type().Underlying().(*types.Slice); !ok || g == le.init[ph] || !emptyList(le.init[ph]) {
			continue
		}
		for k, v := range f.bools {
			if best == nil && k.op == "bin" && k.sym == "<" && k.args[0].op == "len" && k.args[0].args[0] == g {
				best = &Walk{le: le, ph: ph, g: g, idx: k.args[0], bound: k.args[1], round: v, done: !v, first: true, grow: true}
			}
		}
	}
	for loc, g := range le.locs {
		if _, ok := g.typ.Underlying().(*types.Slice); !ok || le.locInit[loc] != nil && !emptyList(le.locInit[loc]) {
			continue
		}
		for k, v := range f.bools {
			if best == nil && k.op == "bin" && k.sym == "<" && k.args[0].op == "len" && k.args[0].args[0] == g && le.locInit[loc] != nil {
				best = &Walk{le: le, at: loc, g: g, idx: k.args[0], bound: k.args[1], round: v, done: !v, first: true, grow: true}
			}
		}
	}
	// lists eaten from the front
	for ph, g := range le.phis {
		if _, ok := ph.Type().Underlying().(*types.Slice); !ok || g == le.init[ph] {
			continue
		}
		eats := false
		for _, e := range ph.Edges {
			if sl, ok := e.(*ssa.Slice); ok && sl.X == ph && sl.High == nil {
				if k, ok := sl.Low.(*ssa.Const); ok && k.Value != nil && k.Int64() == 1 {
					eats = true
				}
			}
		}
		if !eats {
			continue
		}
		iv := f.interval(mk("len", "", types.Typ[types.Int], g))
		w := &Walk{le: le, ph: ph, g: g, idx: mkInt(0), list: g, src: le.init[ph], eat: true, first: true}
		w.round = iv.hasLo && iv.lo >= 1
		w.done = iv.hasHi && iv.hi <= 0
		if w.round || w.done {
			return w
		}
	}
	return best
}

// steps: the round moves on by exactly one element.
func (w *Walk) steps(q *Path) bool {
	nv := q.phis[w.ph]
	if w.eat {
		if nv == nil || nv.op != "slice" || nv.args[0] != w.g || nv.args[2] != nil || nv.args[1] == nil {
			return false
		}
		v, ok := nv.args[1].intVal()
		return ok && v == 1
	}
	if w.grow {
		if w.at != nil {
			nv = q.st.heap[w.at]
		}
		xs, ok := added(w.g, nv)
		return ok && len(xs) == 1
	}
	if w.down {
		return nv == addConst(w.g, -1)
	}
	return nv == addConst(w.g, 1)
}

// walkDown recognises a back-to-front traversal; there "first" means that it starts with the last element.
func walkDown(p *Path, le *LoopEntry) *Walk {
	for ph, g := range le.phis {
		if !isIntT(ph.Type()) || !downCounting(le.loop, ph) {
			continue
		}
		b, o := lin(le.init[ph])
		if b == nil || b.op != "len" {
			continue
		}
		w := &Walk{le: le, ph: ph, g: g, idx: addConst(g, -1-o), list: b.args[0], src: b.args[0], first: true, down: true}
		iv := p.st.facts.interval(w.idx)
		w.round = iv.hasLo && iv.lo >= 0
		w.done = iv.hasHi && iv.hi < 0
		return w
	}
	return nil
}

// entries of the loops a path has passed or is in, in order.
func loopEvents(p *Path) []*Event {
	var r []*Event
	for _, ev := range p.ev() {
		if ev.kind == "loop" && ev.entry != nil {
			r = append(r, ev)
		}
	}
	return r
}

// roundEvents: the events of the current round of a back path.
func roundEvents(p *Path) []*Event {
	last := -1
	for i, ev := range p.ev() {
		if ev.kind == "loop" && ev.sym == p.loop && (p.hdr == nil || ev.entry == p.hdr || ev.depth == p.hdr.depth) {
			last = i
		}
	}
	if last < 0 {
		return p.ev()
	}
	return p.ev()[last+1:]
}

// inside: path p ends in a round of loop le (its back edge, or an inner loop's back edge with le
// not left) — decided by the walk's index bound.

// added splits an accumulator's next value into what a round appended.
func added(g, nv *Term) (xs []*Term, ok bool) {
	if nv == g {
		return nil, true
	}
	if nv != nil && nv.op == "append" && nv.args[0] == g {
		return nv.args[1:], true
	}
	return nil, false
}

// isElem: t is the value of element idx of list (through loads of the same element).
func isElem(t *Term, list, idx *Term) bool {
	return t != nil && t.op == "ld" && t.args[0].op == "ia" && sameList(t.args[0].args[0], list) && t.args[0].args[1] == idx
}

// plain strips forms of a list that have the same elements.
func plain(t *Term) *Term {
	for t != nil && t.op == "slice" && t.args[1] == nil {
		h := t.args[2]
		if h == nil || h.op == "len" && h.args[0] == t.args[0] {
			t = t.args[0]
			continue
		}
		break
	}
	return t
}

func sameList(a, b *Term) bool { return plain(a) == plain(b) }

// base is the outermost value a location or loaded value hangs off: a parameter, an object
// allocated in the analysed code, or a result of an unknown call.
func base(t *Term) *Term {
	for t != nil {
		switch t.op {
		case "fa", "ia", "mi", "ld", "field", "ta", "elem", "slice", "iface", "chtype", "arrslice", "mkslice":
			if len(t.args) == 0 {
				return t
			}
			t = t.args[0]
			continue
		}
		return t
	}
	return t
}

// pathField: the fields passed from the base to location t, outermost first.
func pathFields(t *Term) []string {
	var r []string
	for t != nil {
		switch t.op {
		case "fa", "field":
			r = append(r, t.sym)
			t = t.args[0]
			continue
		case "ia", "mi", "ld", "ta", "elem", "slice", "iface", "chtype":
			t = t.args[0]
			continue
		}
		break
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func lastField(t *Term) string {
	for t != nil && (t.op == "ia" || t.op == "mi") {
		t = t.args[0]
	}
	if t != nil && (t.op == "fa" || t.op == "field") {
		return t.sym
	}
	if t != nil && t.op == "ld" {
		return lastField(t.args[0])
	}
	return ""
}

// exported functions and methods of the library, plus methods of unexported types that implement
// an interface used by the standard library.
func (p *Program) exportedFns() []*ssa.Function {
	var r []*ssa.Function
	for _, f := range p.all {
		if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		if rc := f.Signature.Recv(); rc != nil {
			t := rc.Type()
			if pt, ok := t.(*types.Pointer); ok {
				t = pt.Elem()
			}
			if n, ok := t.(*types.Named); ok && !n.Obj().Exported() {
				continue
			}
		}
		r = append(r, f)
	}
	return r
}

// allEntries: every function analysed on its own: exported ones, copiers, number parsers, methods
// reached through interfaces, and function values that escape (closures returned to callers).
func (p *Program) allEntries() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var r []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && len(f.Blocks) > 0 {
			seen[f] = true
			r = append(r, f)
		}
	}
	for _, f := range p.exportedFns() {
		add(f)
	}
	for _, f := range p.all {
		if p.opaqueRole(f) {
			add(f)
		}
		if f.Parent() == nil && f.Signature.Recv() != nil && f.Object() != nil && f.Object().Exported() {
			add(f)
		}
	}
	for _, f := range p.all {
		if f.Parent() != nil && escapesAsResult(f) {
			add(f)
		}
	}
	return r
}

// escapesAsResult: the closure is returned by the function that makes it.
func escapesAsResult(f *ssa.Function) bool {
	for _, b := range f.Parent().Blocks {
		for _, ins := range b.Instrs {
			ret, ok := ins.(*ssa.Return)
			if !ok {
				continue
			}
			for _, v := range ret.Results {
				for {
					if ct, ok := v.(*ssa.ChangeType); ok {
						v = ct.X
						continue
					}
					break
				}
				if mc, ok := v.(*ssa.MakeClosure); ok && mc.Fn == f {
					return true
				}
				if v == ssa.Value(f) {
					return true
				}
			}
		}
	}
	return false
}

func isReader(f *ssa.Function) bool { return f.Name() == "UnmarshalXML" }

func hasSuffixAny(s string, xs ...string) bool {
	for _, x := range xs {
		if strings.HasSuffix(s, x) {
			return true
		}
	}
	return false
}

// facts true on the path about the membership of key in map m.
func hasKey(p *Path, m, key *Term) (val, known bool) {
	return p.st.facts.decide(mk("ld", "", types.Typ[types.Bool], mk("mi", "has", types.NewPointer(types.Typ[types.Bool]), m, key)))
}
