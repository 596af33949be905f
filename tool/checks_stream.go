package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- C04: depth typestate

type dset map[int]bool

func (d dset) add(o dset) bool {
	ch := false
	for k := range o {
		if !d[k] {
			d[k] = true
			ch = true
		}
	}
	return ch
}
func (d dset) String() string {
	var s []int
	for k := range d {
		s = append(s, k)
	}
	sort.Ints(s)
	return fmt.Sprint(s)
}

// tokenEffects: possible depth changes of one token under the path's knowledge.
func tokenEffects(st *State, tok *Term) []int {
	if d, ok := st.facts.dyn[tok]; ok {
		switch d {
		case startT:
			return []int{1}
		case endT:
			return []int{-1}
		}
		return []int{0}
	}
	no := st.facts.dynNo[tok]
	var r []int
	if !no[startT] {
		r = append(r, 1)
	}
	if !no[endT] {
		r = append(r, -1)
	}
	return append(r, 0)
}

func isEOF(p *Path, err *Term) (bool, bool) {
	for k, v := range p.st.facts.bools {
		if k.op == "bin" && k.sym == "==" {
			a, b := k.args[0], k.args[1]
			if b == err {
				a, b = b, a
			}
			if a == err && b.op == "ld" && strings.HasSuffix(b.args[0].sym, "io.EOF") {
				return v, true
			}
		}
	}
	return false, false
}

func checkC04(c *Ctx) string {
	for _, r := range c.readers() {
		c.depthRules(r)
	}
	c.atLeast("readers", 60)
	c.atLeast("decoder_steps", 200)
	return "token-depth typestate over every abstract path of every element reader: the reader starts inside its element (depth 1), start/end tokens, Skip and DecodeElement move the depth, and every path that returns without an error must have left exactly its own element (depth 0), never read past it, and never skip the rest of its own element; recursive helpers are held to the contract 'consumes exactly the element it was called for'"
}

func (c *Ctx) depthRules(r *reader) {
	D := map[string]dset{}
	for round := 0; round < 60; round++ {
		changed := false
		for _, p := range r.paths {
			if c.depthPath(r, p, D, false) {
				changed = true
			}
		}
		if !changed {
			break
		}
		big := false
		for _, d := range D {
			for k := range d {
				if k > 12 {
					big = true
				}
			}
		}
		if big {
			break
		}
	}
	for _, p := range r.paths {
		c.depthPath(r, p, D, true)
	}
}

// depthPath walks one path; with report it emits violations, otherwise it grows the loop depth sets.
func (c *Ctx) depthPath(r *reader, p *Path, D map[string]dset, report bool) bool {
	if expectedDead(p) || p.outcome == "panic" {
		return false
	}
	changed := false
	cur := dset{1: true}
	sawToken := false
	f := p.st.facts
	fail := func(rule string, ins ssa.Instruction, format string, a ...interface{}) {
		if report {
			c.fail(rule, r.fn, ins, "", format, a...)
		}
	}
	shift := func(by int) {
		n := dset{}
		for k := range cur {
			n[k+by] = true
		}
		cur = n
	}
	for _, ev := range p.ev() {
		switch ev.kind {
		case "loop":
			if D[ev.sym] == nil {
				D[ev.sym] = dset{}
			}
			if !report && D[ev.sym].add(cur) {
				changed = true
			}
			cur = dset{}
			cur.add(D[ev.sym])
		case "call", "reccall":
			var err *Term
			if len(ev.res) > 0 && isErrT(ev.res[len(ev.res)-1].typ) {
				err = ev.res[len(ev.res)-1]
			}
			consume := false
			switch {
			case ev.sym == tokenCall || ev.sym == "(*xml.Decoder).RawToken":
				if report {
					c.n("decoder_steps")
				}
				sawToken = true
				if eof, known := isEOF(p, err); known && eof {
					if r.help {
						fail("reads-past", ev.instr, "a helper that is called for one element reads on to the end of the enclosing element")
					}
					n := dset{}
					if cur[0] {
						n[0] = true
					}
					cur = n
					if len(cur) == 0 {
						return changed // no depth at which the decoder reports the end here
					}
					continue
				}
				if err != nil && f.nonNil(err) {
					return changed // truncated or malformed input: C05
				}
				n := dset{}
				for k := range cur {
					if k <= 0 {
						if r.help && (err == nil || f.isNil(err)) {
							fail("reads-past", ev.instr, "the next token after the element's own end is read")
						}
						continue // own end was read: only io.EOF can follow
					}
					for _, d := range tokenEffects(p.st, ev.res[0]) {
						n[k+d] = true
					}
				}
				cur = n
				if len(cur) == 0 {
					return changed
				}
				continue
			case ev.sym == skipCall:
				if report {
					c.n("decoder_steps")
				}
				consume = true
				if cur[1] && sawToken && !r.help && (err == nil || !f.nonNil(err)) {
					fail("skips-own-rest", ev.instr, "Skip is called at the level of the element itself after some of its content was read: the rest of the element is swallowed")
				}
			case ev.sym == decElemCall || ev.sym == "(*xml.Decoder).Decode":
				if report {
					c.n("decoder_steps")
				}
				consume = true
				if cur[1] && sawToken && (err == nil || !f.nonNil(err)) {
					fail("decodes-own-rest", ev.instr, "DecodeElement is called at the level of the element itself: it reads the rest of the enclosing element")
				}
			case hasDecoderArgEv(ev) && (ev.kind == "reccall" || ev.callee != nil && c.p.inScope(ev.callee)):
				if report {
					c.n("decoder_steps")
				}
				consume = true
			case hasDecoderArgEv(ev) && strings.HasPrefix(ev.sym, "(*xml.Decoder).") && (strings.HasSuffix(ev.sym, ".InputOffset") || strings.HasSuffix(ev.sym, ".InputPos")):
			}
			if consume {
				if err != nil && f.nonNil(err) {
					if k, _ := retErr(p); p.outcome == "return" && k != "nil" {
						return changed // an error: reported (C05)
					}
				}
				shift(-1)
				n := dset{}
				for k := range cur {
					if k < 0 {
						fail("reads-past", ev.instr, "the decoder is advanced past the end of the element")
						continue
					}
					n[k] = true
				}
				cur = n
				if len(cur) == 0 {
					return changed
				}
			}
		}
	}
	if p.outcome == "back" {
		if D[p.loop] == nil {
			D[p.loop] = dset{}
		}
		if !report && D[p.loop].add(cur) {
			changed = true
		}
		if report {
			for k := range cur {
				if k > 8 && (r.w == nil || len(r.w.kids) > 0) {
					fail("not-skipped", lastInstr(p), "a child element is neither decoded nor skipped, so its content is read as content of the enclosing element")
				}
			}
		}
		return changed
	}
	if !report {
		return changed
	}
	k, _ := retErr(p)
	if k == "err" {
		return changed
	}
	for d := range cur {
		if d != 0 {
			fail("not-consumed", lastInstr(p), "a path returns without an error at depth %d: the element has not been read to its end, so what follows is misread", d)
			break
		}
	}
	return changed
}

// ---------------------------------------------------------------- C05

func errResult(ev *Event) *Term {
	if len(ev.res) == 0 {
		return nil
	}
	e := ev.res[len(ev.res)-1]
	if e == nil || !isErrT(e.typ) {
		return nil
	}
	return e
}

func checkC05(c *Ctx) string {
	rs := c.readers()
	for _, r := range rs {
		c.errorRules(r.fn, r.paths, r.typ != nil && r.typ.Obj().Name() == "WPSBodyPr")
	}
	// opening: everything reachable from Parse that is not a reader
	if fn := c.p.fn("Parse"); fn != nil {
		c.errorRules(fn, c.paths(fn), false)
		c.n("open_entries")
	} else {
		c.fail("anchor", nil, nil, "Parse", "function Parse not found")
	}
	// rule "expected": the tolerated decoder error cannot stand for a damaged input
	for _, fn := range c.p.all {
		if fn.Pkg != nil && fn.Pkg != c.p.root {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := ci.Common().StaticCallee()
				if f == nil {
					continue
				}
				switch fnName(f) {
				case "errors.New", "fmt.Errorf":
					c.n("constructed_errors")
					if k, ok := ci.Common().Args[0].(*ssa.Const); ok && k.Value != nil && strings.HasPrefix(strings.Trim(k.Value.ExactString(), "\""), "expected") {
						c.fail("expected", fn, ins, "constructed", "an error whose text starts with \"expected\" is tolerated while decoding and would be lost")
					}
				case "fmt.Sscanf", "fmt.Sscan", "fmt.Sscanln":
					// its errors start with "expected": they must not reach a caller unwrapped
					if v := ci.Value(); v != nil {
						for _, ref := range *v.Referrers() {
							if ex, ok := ref.(*ssa.Extract); ok && ex.Index == 1 && flowsToReturn(ex) {
								c.fail("expected", fn, ins, "sscanf", "a scan error (\"expected integer\") is returned as it is and would be tolerated while decoding")
							}
						}
					}
				}
			}
		}
	}
	c.atLeast("error_results", 300)
	return "every error result of the decoder, of number parsing of an attribute, of the archive and of a reader called while opening is, on every path, either known nil, the end-of-input signal at the element's end, or turned into a non-nil error result; no library error can start with \"expected\", the only text the readers tolerate"
}

func flowsToReturn(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var f func(v ssa.Value) bool
	f = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Return:
				return true
			case *ssa.Phi:
				if f(x) {
					return true
				}
			}
		}
		return false
	}
	return v.Referrers() != nil && f(v)
}

func ignorableErr(ev *Event) bool {
	s := ev.sym
	switch {
	case strings.HasSuffix(s, ".Close"), strings.HasPrefix(s, "(*strings.Builder)."), strings.HasPrefix(s, "(*bytes.Buffer)."), strings.HasPrefix(s, "fmt.Sprint"):
		return true
	case s == "errors.New", s == "fmt.Errorf", s == "(error).Error", strings.HasPrefix(s, "errors."):
		return true
	}
	return false
}

func (c *Ctx) errorRules(fn *ssa.Function, paths []*Path, numExempt bool) {
	count := map[ssa.Instruction]bool{}
	for _, p := range paths {
		if p.outcome == "panic" || expectedDead(p) {
			continue
		}
		rk, rt := retErr(p)
		for _, ev := range p.ev() {
			if ev.kind != "call" && ev.kind != "reccall" {
				continue
			}
			e := errResult(ev)
			if e == nil || ignorableErr(ev) {
				continue
			}
			num := strings.HasPrefix(e.sym, "NUM:") || strings.HasPrefix(ev.sym, "strconv.") || strings.HasPrefix(ev.sym, "fmt.Sscan")
			if num {
				isAttr := false
				for _, a := range ev.a {
					a.contains(func(x *Term) bool {
						if _, _, _, _, ok := attrRef(x); ok {
							isAttr = true
						}
						return false
					})
				}
				if !isAttr {
					continue // not an attribute of the input document part
				}
				if numExempt {
					continue
				}
			}
			if !count[ev.instr] {
				count[ev.instr] = true
				c.n("error_results")
			}
			if p.st.facts.isNil(e) || e.op == "nil" {
				continue
			}
			if p.outcome == "return" && (rk == "err" || rt != nil && (rt == e || rt.mentions(e))) {
				continue
			}
			if ev.sym == tokenCall {
				if eof, known := isEOF(p, e); known && eof {
					continue
				}
			}
			if p.outcome == "back" {
				carried := false
				for ph, v := range p.phis {
					if v == e && c.checkedAtHead(p, ph) {
						carried = true
					}
				}
				for _, v := range p.st.heap {
					if v == e && carried {
						carried = true
					}
				}
				if carried {
					continue
				}
			}
			what := "is not checked on a path that goes on"
			if p.outcome == "return" {
				what = "is lost on a path that returns success"
			}
			c.fail("error-lost", fn, ev.instr, ev.sym, "the error of %s %s", ev.sym, what)
		}
	}
}

// checkedAtHead: the loop-carried error is tested against nil at the top of the loop.
func (c *Ctx) checkedAtHead(p *Path, ph *ssa.Phi) bool {
	for _, ins := range ph.Block().Instrs {
		if b, ok := ins.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) && (b.X == ph || b.Y == ph) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- C26

func checkC26(c *Ctx) string {
	for _, fn := range c.p.all {
		if fn.Pkg != c.p.root && (fn.Parent() == nil || fn.Parent().Pkg != c.p.root) {
			continue
		}
		for _, l := range c.p.loops(fn) {
			_ = l
			c.n("loops")
		}
		if len(c.p.loops(fn)) == 0 {
			continue
		}
		for _, p := range c.paths(fn) {
			if p.outcome != "back" || p.hdr == nil || p.hdr.depth != 1 {
				continue // loops of inlined callees are judged in their own function
			}
			c.n("loop_paths")
			if why := c.progress(fn, p); why != "" {
				c.fail("no-progress", fn, p.hdr.loop.header.Instrs[0], fmt.Sprint(c.loopOrdinal(fn, p.hdr.loop)), "%s", why)
			}
		}
	}
	// recursion: every recursive call chain consumes input or descends into a child
	c.atLeast("loops", 80)
	return "for every loop of the library, every path round the loop either takes a token from the decoder (and the loop is left when the decoder reports an error or the end), advances a range, moves an index towards a bound fixed for the round, shrinks the list it walks, or probes a finite table with a fresh number"
}

func (c *Ctx) loopOrdinal(fn *ssa.Function, l *Loop) int {
	n := 0
	for _, b := range fn.Blocks {
		if c.p.loops(fn)[b] != nil {
			if b == l.header {
				return n
			}
			n++
		}
	}
	return n
}

// once: the way round is open only for one value of a variable, which no round leaves behind.
func (c *Ctx) once(fn *ssa.Function, p *Path) bool {
	for ph, g := range p.hdr.phis {
		for _, s := range []string{"", "true", "false"} {
			is := func(f *Facts, v *Term) (bool, bool) {
				if s == "" {
					if !isString(v) {
						return false, false
					}
					return f.decide(mk("bin", "==", types.Typ[types.Bool], v, mkStr("")))
				}
				if b, ok := ph.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
					return false, false
				}
				v2, known := f.decide(v)
				return v2 == (s == "true"), known
			}
			if v, known := is(p.st.facts, g); !known || !v {
				continue
			}
			ok := true
			for _, q := range c.paths(fn) {
				if q.outcome != "back" || q.hdr != p.hdr && (q.hdr == nil || q.hdr.loop != p.hdr.loop) {
					continue
				}
				if v, known := is(q.st.facts, q.phis[ph]); !known || v {
					ok = false
				}
			}
			if ok {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) progress(fn *ssa.Function, p *Path) string {
	f := p.st.facts
	in := false
	for _, ev := range p.ev() {
		if ev.kind == "loop" && ev.sym == p.loop && ev.entry != nil && ev.depth == p.hdr.depth {
			in = true
			continue
		}
		if !in {
			continue
		}
		switch ev.kind {
		case "next":
			if ev.depth == p.hdr.depth && p.hdr.loop.body[ev.instr.Block()] {
				return "" // range over a map or string
			}
		case "call", "reccall":
			dec := ev.sym == tokenCall || ev.sym == skipCall || ev.sym == decElemCall || ev.sym == "(*xml.Decoder).Decode" || hasDecoderArgEv(ev) && !strings.HasSuffix(ev.sym, ".InputOffset")
			if dec {
				e := errResult(ev)
				if e == nil || f.isNil(e) {
					return ""
				}
				if expectedDead(p) {
					return ""
				}
				if ev.sym == tokenCall {
					return "a path goes round the reading loop again after the decoder reported an error or the end of input"
				}
			}
			if (ev.sym == "io.Reader.Read" || strings.HasSuffix(ev.sym, ").Read")) && errResult(ev) != nil && f.isNil(errResult(ev)) {
				return ""
			}
		}
	}
	for loc, g := range p.hdr.locs {
		if xs, ok := added(g, p.st.heap[loc]); ok && len(xs) > 0 {
			for k, v := range f.bools {
				if k.op == "bin" && k.sym == "<" && v && k.args[0].op == "len" && k.args[0].args[0] == g && c.fixed(p, k.args[1]) {
					return ""
				}
			}
		}
	}
	// index towards a bound
	for ph, nv := range p.phis {
		g := p.hdr.phis[ph]
		if nv == g {
			continue
		}
		// a list growing towards a length
		if xs, ok := added(g, nv); ok && len(xs) > 0 {
			for k, v := range f.bools {
				if k.op == "bin" && k.sym == "<" && v && k.args[0].op == "len" && k.args[0].args[0] == g && c.fixed(p, k.args[1]) {
					return ""
				}
			}
		}
		if isIntT(ph.Type()) {
			bg, og := lin(g)
			bn, on := lin(nv)
			if bg == nil || bg != bn {
				// larger through another loop or symbolic step: nv > g known
				v, known := f.decide(mk("bin", "<", types.Typ[types.Bool], g, nv))
				if known && v || pastInner(p, g, nv) {
					bn, on, bg, og = g, 1, g, 0
				} else {
					continue
				}
			}
			up := on > og
			for k, v := range f.bools {
				if k.op != "bin" || k.sym != "<" {
					continue
				}
				lo, hi := k.args[0], k.args[1]
				if !v {
					lo, hi = hi, lo
				}
				bl, _ := lin(lo)
				bh, _ := lin(hi)
				if up && bl == bg && c.fixed(p, hi) {
					return ""
				}
				if !up && bh == bg && (bl == nil || c.fixed(p, lo)) {
					return ""
				}
			}
			iv := f.interval(g)
			if up && iv.hasHi || !up && iv.hasLo {
				return ""
			}
			continue
		}
		// a list that gets shorter
		if _, ok := ph.Type().Underlying().(*types.Slice); ok || isString(g) {
			if shorter(p, nv, g) {
				return ""
			}
		}
		// walking a linked structure downwards
		if _, ok := ph.Type().Underlying().(*types.Pointer); ok {
			if nv.op == "ld" && rootOf(nv.args[0]) == g {
				return ""
			}
		}
	}
	for loc, g := range p.hdr.locs {
		nv := p.st.heap[loc]
		if nv == nil || nv == g {
			continue
		}
		bg, og := lin(g)
		bn, on := lin(nv)
		if bg != nil && bg == bn && on > og {
			// bounded counter in memory
			for k, v := range f.bools {
				if k.op == "bin" && k.sym == "<" {
					lo, hi := k.args[0], k.args[1]
					if !v {
						lo, hi = hi, lo
					}
					if bl, _ := lin(lo); bl == bg && c.fixed(p, hi) {
						return ""
					}
				}
			}
			// a fresh number probed in a finite table: going on means the probed key was present
			if c.probe(p, bg) {
				return ""
			}
		}
		if shorter(p, nv, g) {
			return ""
		}
	}
	// the same counter read afresh through a call that yields increasing numbers
	if c.probe(p, nil) {
		return ""
	}
	if c.once(fn, p) {
		return ""
	}
	return "a path goes round the loop without consuming input, advancing an index or shortening a list"
}

// pastInner: nv is the counter of an inner loop that started at g and has moved on.
func pastInner(p *Path, g, nv *Term) bool {
	b, o := lin(nv)
	for _, ev := range p.ev() {
		if ev.kind != "loop" || ev.entry == nil || ev.entry == p.hdr {
			continue
		}
		for ph, pg := range ev.entry.phis {
			if pg != b {
				continue
			}
			ib, io := lin(ev.entry.init[ph])
			if gb, og := lin(g); ib == nil || ib != gb || !countsUp(ph, ev.entry.loop) {
				continue
			} else if io+o > og || io+o == og && firstRoundImpossible(p, ev.entry) {
				return true
			}
		}
	}
	return false
}

// countsUp: every round adds a positive constant to ph.
func countsUp(ph *ssa.Phi, l *Loop) bool {
	for i, e := range ph.Edges {
		if !l.body[ph.Block().Preds[i]] {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != ssa.Value(ph) {
			return false
		}
		if k, ok := b.Y.(*ssa.Const); !ok || k.Value == nil || k.Int64() <= 0 {
			return false
		}
	}
	return true
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// fixed: the bound does not change during the round.
func (c *Ctx) fixed(p *Path, b *Term) bool {
	if b.isConst() {
		return true
	}
	ok := true
	b.contains(func(x *Term) bool {
		for ph, g := range p.hdr.phis {
			if x == g && p.phis[ph] != g {
				ok = false
			}
		}
		for loc, g := range p.hdr.locs {
			if x == g && p.st.heap[loc] != g {
				ok = false
			}
		}
		return false
	})
	return ok && !growsUnderneath(p, b)
}

// growsUnderneath: the bound is read afresh each round from one document or paragraph handed in while
// the round changes the same list of another one handed in, which may be the same.
func growsUnderneath(p *Path, b *Term) bool {
	r := false
	b.contains(func(x *Term) bool {
		if x.op != "ld" || r {
			return r
		}
		l := x.args[0]
		if rootOf(l).op != "param" || !rereads(p.hdr.loop, l.sym) {
			return false
		}
		for loc, g := range p.hdr.locs {
			if loc != l && p.st.heap[loc] != g && sameShape(loc, l) {
				r = true
			}
		}
		return r
	})
	return r
}

// sameShape: the same place of two parameters of the same type.
func sameShape(a, b *Term) bool {
	if a.op == "param" && b.op == "param" {
		return a.typ != nil && b.typ != nil && types.Identical(a.typ, b.typ)
	}
	if a.op != b.op || a.sym != b.sym || len(a.args) != len(b.args) || len(a.args) == 0 {
		return false
	}
	for i := range a.args {
		if a.args[i] != b.args[i] && !sameShape(a.args[i], b.args[i]) {
			return false
		}
	}
	return true
}

// rereads: the loop compares with the length of a list that it takes from the field anew.
func rereads(l *Loop, field string) bool {
	for b := range l.body {
		for _, ins := range b.Instrs {
			call, ok := ins.(*ssa.Call)
			if !ok || len(call.Call.Args) != 1 {
				continue
			}
			if f, ok := call.Call.Value.(*ssa.Builtin); !ok || f.Name() != "len" {
				continue
			}
			ld, ok := call.Call.Args[0].(*ssa.UnOp)
			if !ok || ld.Op != token.MUL || !l.body[ld.Block()] {
				continue
			}
			fa, ok := ld.X.(*ssa.FieldAddr)
			if !ok || fieldsOf(locPtr(fa.X.Type())) == nil || fieldsOf(locPtr(fa.X.Type())).Field(fa.Field).Name() != field {
				continue
			}
			for _, u := range *call.Referrers() {
				if _, ok := u.(*ssa.BinOp); ok {
					return true
				}
			}
		}
	}
	return false
}

func locPtr(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func shorter(p *Path, nv, g *Term) bool {
	if nv.op != "slice" || nv.args[0] != g {
		return false
	}
	if lo := nv.args[1]; lo != nil {
		iv := p.st.facts.interval(lo)
		if iv.hasLo && iv.lo > 0 {
			return true
		}
		if b, _ := lin(lo); b != nil {
			for _, ev := range p.ev() {
				if ev.kind != "loop" || ev.entry == nil {
					continue
				}
				for ph, pg := range ev.entry.phis {
					if pg == b && !iv.hasLo || pg == b && iv.lo >= 0 {
						// the offset is zero only in the first round of the inner loop
						if i0, ok := ev.entry.init[ph].intVal(); ok {
							_, o := lin(lo)
							if i0+o >= 0 && firstRoundImpossible(p, ev.entry) {
								return true
							}
						}
					}
				}
			}
		}
		// non-zero by comparison
		if p.st.facts.notin[lo]["i:0"] {
			return true
		}
	}
	if hi := nv.args[2]; hi != nil {
		l := mk("len", "", types.Typ[types.Int], g)
		if v, known := p.st.facts.decide(mk("bin", "<", types.Typ[types.Bool], hi, l)); known && v {
			return true
		}
	}
	return false
}

// probe: the round ends because a map lookup with a key built from a counter that increases every
// round found an entry; the map is finite and is not extended in the loop.
func (c *Ctx) probe(p *Path, ctr *Term) bool {
	in := false
	for _, ev := range p.ev() {
		if ev.kind == "loop" && ev.sym == p.loop {
			in = true
		}
		if in && (ev.kind == "mapset" && !strings.Contains(tstr(ev.a[0].typ), "uintptr")) {
			return false
		}
	}
	for k, v := range p.st.facts.bools {
		if v && k.op == "ld" && k.args[0].op == "mi" && k.args[0].sym == "has" {
			key := k.args[0].args[1]
			if injective(key, func(x *Term) bool {
				if ctr != nil {
					return x == ctr
				}
				for loc, g := range p.hdr.locs {
					if x == g {
						b, o := lin(p.st.heap[loc])
						return b == g && o > 0
					}
					// the key was built from the counter in the previous round
					for ph, pg := range p.hdr.phis {
						if x == pg && injective(p.phis[ph], func(y *Term) bool { return y == g }) {
							b, o := lin(p.st.heap[loc])
							return b == g && o > 0
						}
					}
				}
				return false
			}) {
				return true
			}
		}
	}
	return false
}

// injective: t is built around a part that satisfies is in such a way that different values of that
// part give different values of t: as text, as part of a concatenation, by a widening conversion.
func injective(t *Term, is func(*Term) bool) bool {
	if t == nil {
		return false
	}
	if is(t) {
		return true
	}
	switch t.op {
	case "conv", "chtype":
		if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			switch b.Kind() {
			case types.Int8, types.Uint8, types.Int16, types.Uint16:
				return false
			}
		}
	case "bin":
		if t.sym != "+" && t.sym != "-" {
			return false
		}
	case "iface", "arrslice", "struct", "tuple", "concat", "fa", "ia", "obj":
	case "call":
		if !strings.Contains(t.sym, "strconv.") && !strings.Contains(t.sym, "fmt.Sprint") {
			return false
		}
	default:
		return false
	}
	for _, a := range t.args {
		if injective(a, is) {
			return true
		}
	}
	return false
}

// firstRoundImpossible: what the path knows contradicts the state in which the loop was entered, so
// the iteration it shows is not the first one.
func firstRoundImpossible(p *Path, le *LoopEntry) bool {
	f := p.st.facts
	chk := func(g, init *Term) bool {
		if g == init || init == nil {
			return false
		}
		if v, ok := f.nilf[g]; ok {
			if init.op == "nil" && !v || newFacts().nonNil(init) && v {
				return true
			}
		}
		if l, ok := lenOf(p.st, init).intVal(); ok {
			iv := f.interval(mk("len", "", types.Typ[types.Int], g))
			if iv.hasLo && l < iv.lo || iv.hasHi && l > iv.hi {
				return true
			}
		}
		if i, ok := init.intVal(); ok {
			iv := f.interval(g)
			if iv.hasLo && i < iv.lo || iv.hasHi && i > iv.hi {
				return true
			}
		}
		if init.isConst() {
			if s, ok := f.in[g]; ok && !s[init.sym] {
				return true
			}
			if f.notin[g][init.sym] {
				return true
			}
			if b, ok := init.boolVal(); ok {
				if v, known := f.bools[g]; known && v != b {
					return true
				}
			}
		}
		return false
	}
	for ph, g := range le.phis {
		if chk(g, le.init[ph]) {
			return true
		}
	}
	for loc, g := range le.locs {
		if chk(g, le.locInit[loc]) {
			return true
		}
	}
	return false
}
