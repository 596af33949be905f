package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is one observable step of an abstract path (newest first list).
type Event struct {
	prev   *Event
	kind   string // call, store, mapset, mapdel, loop, oblig, go, send, panic, enter, leave, retloop
	sym    string // callee name / obligation class / loop id
	a      []*Term
	res    []*Term
	instr  ssa.Instruction
	fn     *ssa.Function
	facts  *Facts // only for oblig
	nth    int
	depth  int
	callee *ssa.Function
	defr   bool
	snap   map[*Term]*Term // heap at decoder tokens
	entry  *LoopEntry      // loop events
	old    *Term           // scalar field stores: the value before
}

type deferred struct {
	call *ssa.CallCommon
	args []*Term
	fnv  *Term
	ins  ssa.Instruction
}

type loopInst struct {
	l     *Loop
	depth int
	id    string
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	defers []deferred
	loops  []loopInst
	callIn ssa.CallInstruction // call instruction in the caller
	inDef  bool                // frame runs a deferred call
	free   []*Term
	unroll map[*ssa.BasicBlock]int // loops followed round by round, and how many were entered
}

type State struct {
	heap   map[*Term]*Term
	havoc  map[*Term]*Term // location prefix -> havoc mark
	fepoch map[string]*Term
	facts  *Facts
	frames []*Frame
	ev     *Event
	nev    int
	nobj   int
	steps  int
}

func (s *State) clone() *State {
	n := &State{facts: s.facts.clone(), ev: s.ev, nev: s.nev, nobj: s.nobj, steps: s.steps}
	n.heap = make(map[*Term]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.havoc = make(map[*Term]*Term, len(s.havoc))
	for k, v := range s.havoc {
		n.havoc[k] = v
	}
	n.fepoch = make(map[string]*Term, len(s.fepoch))
	for k, v := range s.fepoch {
		n.fepoch[k] = v
	}
	for _, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]*Term, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]deferred(nil), f.defers...)
		g.loops = append([]loopInst(nil), f.loops...)
		n.frames = append(n.frames, &g)
	}
	return n
}
func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

// Path is one completed abstract path of an entry function.
type Path struct {
	outcome string // return, back, panic
	loop    string // loop id for back
	rets    []*Term
	st      *State
	phis    map[*ssa.Phi]*Term // back: next values of the header phis
	hdr     *LoopEntry
	events  []*Event
}

// LoopEntry describes one widened entry into a loop.
type LoopEntry struct {
	id      string
	loop    *Loop
	phis    map[*ssa.Phi]*Term // value of each phi at generic iteration start
	init    map[*ssa.Phi]*Term // value on entry
	locs    map[*Term]*Term    // havocked location -> generic value
	locInit map[*Term]*Term
	depth   int
	nobj    int // objects made before the loop
	fn      *ssa.Function
	before  *State  // the state the loop is entered in
	at      *State  // the state a round starts from
	lists   []*Term // lists put together before the loop, some of which it may go over
}

func (p *Path) ev() []*Event {
	if p.events == nil {
		for e := p.st.ev; e != nil; e = e.prev {
			p.events = append(p.events, e)
		}
		for i, j := 0, len(p.events)-1; i < j; i, j = i+1, j-1 {
			p.events[i], p.events[j] = p.events[j], p.events[i]
		}
	}
	return p.events
}

type loopCand struct {
	locs    map[*Term]bool
	prefix  map[*Term]bool
	phiKeep map[*ssa.Phi]bool // unchanged
	noLo    map[*ssa.Phi]bool // lower bound lost
	noNN    map[*ssa.Phi]bool // non-nil lost
	noConst map[*ssa.Phi]bool
	constU  map[*ssa.Phi]map[string]*Term // union of constants
	lnn     map[*Term]bool                // location non-nil lost
	lnl     map[*Term]bool                // location lower bound lost
	fkill   map[string]bool               // fields written through loop-varying pointers
}

type Engine struct {
	prog        *Program
	maxPaths    int
	maxDepth    int
	cache       map[string]*loopCand
	entries     map[string]*LoopEntry
	inv         func(st *State, t *Term) (bool, string)
	opaque      func(fn *ssa.Function) bool
	bare        bool           // take nothing for granted about parameters
	obligN      map[string]int // class|instr -> count of obligations met
	obligAll    map[ssa.Instruction]map[string]bool
	undecided   []string
	paths       int
	loopsSeen   map[string]bool
	callsSeen   map[string]int
	fnsSeen     map[*ssa.Function]bool
	assumeEntry func(st *State, params []*Term)
	modeled     map[string]bool
	fast        bool // preliminary widening round of an outer loop: reuse inner loop candidates
}

func newEngine(p *Program) *Engine {
	return &Engine{opaque: p.opaqueRole, prog: p, maxPaths: 60000, maxDepth: 14, cache: map[string]*loopCand{}, entries: map[string]*LoopEntry{}, obligAll: map[ssa.Instruction]map[string]bool{}, loopsSeen: map[string]bool{}, callsSeen: map[string]int{}, fnsSeen: map[*ssa.Function]bool{}}
}

type disc struct {
	depth  int
	header *ssa.BasicBlock
	loop   *Loop
	onBack func(*State, map[*ssa.Phi]*Term)
}

// Analyze explores fn with symbolic parameters.
func (e *Engine) Analyze(fn *ssa.Function) []*Path {
	st := &State{heap: map[*Term]*Term{}, havoc: map[*Term]*Term{}, fepoch: map[string]*Term{}, facts: newFacts()}
	fr := &Frame{fn: fn, env: map[ssa.Value]*Term{}, block: fn.Blocks[0]}
	var ps []*Term
	for i, p := range fn.Params {
		t := mk("param", fmt.Sprintf("%s", p.Name()), p.Type())
		fr.env[p] = t
		ps = append(ps, t)
		_ = i
		if !e.bare && e.granted(fn, i, p.Type()) {
			st.facts.setNil(t, false)
		}
	}
	for _, f := range fn.FreeVars {
		t := mk("free", f.Name(), f.Type())
		fr.env[f] = t
		st.facts.setNil(t, false)
	}
	st.frames = []*Frame{fr}
	if e.assumeEntry != nil {
		e.assumeEntry(st, ps)
	}
	var out []*Path
	e.paths = 0
	e.explore(st, nil, func(p *Path) { out = append(out, p) })
	return out
}

// granted: parameter i of fn is taken to be non-nil. Receivers and documents are the caller's
// obligation; other arguments of the library's own types may be nil.
func (e *Engine) granted(fn *ssa.Function, i int, t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return i == 0 && fn.Signature.Recv() != nil || !e.prog.isRepoType(u.Elem()) || types.Identical(u.Elem(), e.prog.docxType())
	case *types.Signature:
		return true
	case *types.Interface:
		return u.NumMethods() > 0 && tstr(t) != "error" // readers and writers handed in
	}
	return false
}

func (e *Engine) bail(format string, args ...interface{}) {
	m := fmt.Sprintf(format, args...)
	for _, u := range e.undecided {
		if u == m {
			return
		}
	}
	e.undecided = append(e.undecided, m)
}

// explore runs all paths from st. In discovery mode (d != nil) only paths back to d.header matter.
func (e *Engine) explore(st *State, d *disc, emit func(*Path)) {
	work := []*State{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		more := e.runPath(s, d, emit)
		work = append(work, more...)
		e.paths++
		if e.paths > e.maxPaths {
			e.bail("path budget exceeded in %s", s.frames[0].fn)
			return
		}
	}
}

// runPath advances s until it ends or forks; returns forked states.
func (e *Engine) runPath(s *State, d *disc, emit func(*Path)) []*State {
	for {
		fr := s.top()
		if fr.idx >= len(fr.block.Instrs) {
			panic("fell off block")
		}
		ins := fr.block.Instrs[fr.idx]
		s.steps++
		if s.steps > 200000 {
			e.bail("step budget exceeded in %s", s.frames[0].fn)
			return nil
		}
		switch in := ins.(type) {
		case *ssa.If:
			c := e.val(s, fr, in.Cond)
			var outs []*State
			t, f := fr.block.Succs[0], fr.block.Succs[1]
			if v, known := s.facts.decide(c); known {
				tgt := f
				if v {
					tgt = t
				}
				if !s.facts.assume(c, v) {
					return nil
				}
				if e.enter(s, tgt, d, emit) {
					continue
				}
				return nil
			}
			s2 := s.clone()
			if s2.facts.assume(c, false) && e.enter(s2, f, d, emit) {
				outs = append(outs, s2)
			}
			if s.facts.assume(c, true) && e.enter(s, t, d, emit) {
				outs = append(outs, s)
			}
			return outs
		case *ssa.Jump:
			if e.enter(s, fr.block.Succs[0], d, emit) {
				continue
			}
			return nil
		case *ssa.Return:
			var rs []*Term
			for _, r := range in.Results {
				rs = append(rs, e.val(s, fr, r))
			}
			if len(s.frames) == 1 {
				if d == nil {
					emit(&Path{outcome: "return", rets: rs, st: s})
				}
				return nil
			}
			if d != nil && len(s.frames) <= d.depth {
				return nil // left the frame of the loop under discovery
			}
			s.frames = s.frames[:len(s.frames)-1]
			e.event(s, &Event{kind: "leave", callee: fr.fn, res: rs, instr: in})
			caller := s.top()
			if fr.inDef {
				continue // re-execute RunDefers
			}
			if v := fr.callIn.Value(); v != nil {
				caller.env[v] = tupleOf(rs, v.Type())
			}
			caller.idx++
			continue
		case *ssa.Panic:
			e.oblige(s, in, "panic", false, e.val(s, fr, in.X))
			if d == nil {
				emit(&Path{outcome: "panic", st: s})
			}
			return nil
		case *ssa.RunDefers:
			if len(fr.defers) == 0 {
				fr.idx++
				continue
			}
			df := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			forks, pushed := e.doCall(s, df.ins.(*ssa.Defer), df.call, df.fnv, df.args, true)
			_ = pushed
			if forks != nil {
				return forks
			}
			continue
		case ssa.CallInstruction:
			switch c := in.(type) {
			case *ssa.Go:
				e.event(s, &Event{kind: "go", instr: in})
				fr.idx++
				continue
			case *ssa.Defer:
				df := deferred{call: c.Common(), ins: c}
				df.fnv, df.args = e.callArgs(s, fr, c.Common())
				fr.defers = append(fr.defers, df)
				dev := &Event{kind: "defer", sym: calleeName(c.Common(), df.fnv), instr: in, a: df.args}
				if c.Common().IsInvoke() {
					dev.a = append([]*Term{df.fnv}, df.args...)
				} else if df.fnv != nil {
					dev.res = []*Term{df.fnv}
				}
				e.event(s, dev)
				fr.idx++
				continue
			}
			fnv, args := e.callArgs(s, fr, in.Common())
			if outs, forked := e.splitPrefix(s, in.Common(), args); forked {
				return outs
			}
			forks, pushed := e.doCall(s, in, in.Common(), fnv, args, false)
			if forks != nil {
				return forks
			}
			if !pushed {
				s.top().idx++
			}
			continue
		default:
			if ia, ok := ins.(*ssa.IndexAddr); ok {
				if outs, forked := e.splitIndex(s, fr, ia); forked {
					return outs
				}
			}
			if ta, ok := ins.(*ssa.TypeAssert); ok && ta.CommaOk {
				if outs, forked := e.splitAssert(s, fr, ta); forked {
					return outs
				}
			}
			if lk, ok := ins.(*ssa.Lookup); ok && lk.CommaOk {
				if outs, forked := e.splitLookup(s, fr, lk); forked {
					return outs
				}
			}
			if !e.step(s, fr, ins) {
				if d == nil && s.ev != nil && s.ev.kind == "oblig" && s.ev.instr == ins {
					emit(&Path{outcome: "panic", st: s}) // bound to fail here
				}
				return nil
			}
			fr.idx++
		}
	}
}

// literalArray returns the length of the array made on this path that p indexes into, when its elements are
// still the ones its literal stored (nothing opaque wrote it since), and 0 otherwise.
func (e *Engine) literalArray(s *State, arr *Term) int64 {
	if arr != nil && arr.op == "append" {
		// a list of items put together on this path
		n, ok := lenOf(s, arr).intVal()
		if !ok || n < 1 || n > 16 {
			return 0
		}
		return n
	}
	if arr == nil || arr.op != "obj" || s.havoc[arr] != nil {
		return 0
	}
	at, ok := underType(locType(arr)).(*types.Array)
	if !ok || at.Len() < 1 || at.Len() > 16 {
		return 0
	}
	return at.Len()
}
func underType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

// splitIndex makes one state per element when a small literal array is read at an index that is not known, so
// that a loop over a literal list is followed element by element.
func (e *Engine) splitIndex(s *State, fr *Frame, in *ssa.IndexAddr) ([]*State, bool) {
	x, i := e.val(s, fr, in.X), e.val(s, fr, in.Index)
	if _, ok := i.intVal(); ok {
		return nil, false
	}
	et := locTypeOf(in.Type())
	var loc *Term
	if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		loc = mk("ia", "", in.Type(), x, i)
	} else {
		loc = e.elemLoc(x, i, et)
	}
	if loc.op != "ia" {
		return nil, false
	}
	n := e.literalArray(s, loc.args[0])
	if n == 0 || !literalRead(in) {
		return nil, false
	}
	if _, ok := loc.args[1].intVal(); ok {
		return nil, false
	}
	iv := s.facts.interval(loc.args[1])
	if iv.hasLo && iv.hasHi && iv.lo == iv.hi {
		return nil, false
	}
	var outs []*State
	for k := int64(0); k < n; k++ {
		if iv.hasLo && k < iv.lo || iv.hasHi && k > iv.hi {
			continue
		}
		c := s.clone()
		if c.facts.assume(mk("bin", "==", types.Typ[types.Bool], loc.args[1], mkInt(k)), true) {
			outs = append(outs, c)
		}
	}
	return outs, true
}

// splitAssert makes one state for the case that an assertion holds and one for the case that it does not.
func (e *Engine) splitAssert(s *State, fr *Frame, in *ssa.TypeAssert) ([]*State, bool) {
	ok := e.holds(e.val(s, fr, in.X), in.AssertedType)
	if _, known := s.facts.decide(ok); known {
		return nil, false
	}
	var outs []*State
	for _, b := range []bool{true, false} {
		c := s.clone()
		if c.facts.assume(ok, b) {
			outs = append(outs, c)
		}
	}
	return outs, true
}

// splitPrefix does the same for a text with or without the prefix that a call takes off.
func (e *Engine) splitPrefix(s *State, cc *ssa.CallCommon, args []*Term) ([]*State, bool) {
	f := cc.StaticCallee()
	if f == nil || len(args) != 2 {
		return nil, false
	}
	if n := fnName(f); n != "strings.TrimPrefix" && n != "strings.CutPrefix" {
		return nil, false
	}
	if _, ok := args[1].strVal(); !ok {
		return nil, false
	}
	hp := mk("call", "strings.HasPrefix", types.Typ[types.Bool], args[0], args[1])
	if _, known := s.facts.decide(hp); known {
		return nil, false
	}
	var outs []*State
	for _, b := range []bool{true, false} {
		c := s.clone()
		if c.facts.assume(hp, b) {
			outs = append(outs, c)
		}
	}
	return outs, true
}

// splitLookup does the same for the presence of a map entry. A name found in the index of a document stands for
// an item of its media list (what C20 establishes at every store).
func (e *Engine) splitLookup(s *State, fr *Frame, in *ssa.Lookup) ([]*State, bool) {
	x, i := e.val(s, fr, in.X), e.val(s, fr, in.Index)
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok {
		return nil, false
	}
	has := e.load0t(s, mk("mi", "has", types.NewPointer(types.Typ[types.Bool]), x, i), types.Typ[types.Bool])
	if _, known := s.facts.decide(has); known {
		return nil, false
	}
	var outs []*State
	for _, b := range []bool{true, false} {
		c := s.clone()
		if !c.facts.assume(has, b) {
			continue
		}
		if b && has.op == "ld" && x.op == "ld" && x.args[0].op == "fa" && x.args[0].sym == e.prog.docField("map[string]int") && types.Identical(locType(x.args[0].args[0]), e.prog.docxType()) {
			if l := fieldLoc(x.args[0].args[0], e.prog.docField("[]docx.Media")); l != nil {
				v := e.load(c, mk("mi", "", types.NewPointer(mt.Elem()), x, i), mt.Elem())
				if v.op == "ld" {
					n := lenOf(c, e.load0(c, l))
					c.facts.assume(mk("bin", "<", types.Typ[types.Bool], v, mkInt(0)), false)
					c.facts.assume(mk("bin", "<", types.Typ[types.Bool], v, n), true)
				}
			}
		}
		outs = append(outs, c)
	}
	return outs, true
}

// holds is the term that says whether x can be asserted to t.
func (e *Engine) holds(x *Term, t types.Type) *Term {
	ts := tstr(t)
	if _, isI := t.Underlying().(*types.Interface); isI {
		if x.op == "iface" {
			return mkBool(types.Implements(x.args[0].typ, t.Underlying().(*types.Interface)))
		}
		return mk("isI", ts, types.Typ[types.Bool], x)
	}
	if x.op == "iface" {
		return mkBool(x.sym == ts)
	}
	if x.op == "nil" {
		return mkBool(false)
	}
	return mk("isT", ts, types.Typ[types.Bool], x)
}

// literalRead reports whether the element address is only read.
func literalRead(in *ssa.IndexAddr) bool {
	for _, r := range *in.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == in {
			return false
		}
	}
	return true
}

// exactIndex replaces the index of an element of a small literal array by the constant it is known to be.
func (e *Engine) exactIndex(s *State, loc *Term) *Term {
	if loc.op != "ia" || e.literalArray(s, loc.args[0]) == 0 {
		return loc
	}
	if _, ok := loc.args[1].intVal(); ok {
		return loc
	}
	iv := s.facts.interval(loc.args[1])
	if iv.hasLo && iv.hasHi && iv.lo == iv.hi {
		return mk("ia", "", loc.typ, loc.args[0], mkInt(iv.lo))
	}
	return loc
}

func tupleOf(rs []*Term, typ types.Type) *Term {
	if tt, ok := typ.(*types.Tuple); ok {
		if tt.Len() == 0 {
			return mk("tuple", "", typ)
		}
		return mk("tuple", "", typ, rs...)
	}
	if len(rs) == 1 {
		return rs[0]
	}
	return mk("tuple", "", typ, rs...)
}

func (e *Engine) event(s *State, ev *Event) {
	ev.prev = s.ev
	ev.nth = s.nev
	ev.depth = len(s.frames)
	if ev.fn == nil && len(s.frames) > 0 {
		ev.fn = s.top().fn
	}
	s.nev++
	s.ev = ev
}

// oblige records a run-time-panic obligation; proven ones are only counted.
func (e *Engine) oblige(s *State, ins ssa.Instruction, class string, proven bool, ts ...*Term) {
	m := e.obligAll[ins]
	if m == nil {
		m = map[string]bool{}
		e.obligAll[ins] = m
	}
	m[class] = true
	if proven {
		return
	}
	e.event(s, &Event{kind: "oblig", sym: class, a: ts, instr: ins, facts: s.facts.clone()})
}

func (e *Engine) nonNil(s *State, t *Term) bool {
	if s.facts.nonNil(t) {
		return true
	}
	if e.inv != nil {
		if ok, _ := e.inv(s, t); ok {
			return true
		}
	}
	return false
}

func (e *Engine) needPtr(s *State, ins ssa.Instruction, p *Term) bool {
	ok := e.nonNil(s, p)
	e.oblige(s, ins, "nil-deref", ok, p)
	if ok && s.facts.nonNil(p) {
		return true
	}
	return s.facts.setNil(p, false) || ok
}

// enter moves the top frame to block tgt, handling loops. Returns false if the path ended.
func (e *Engine) enter(s *State, tgt *ssa.BasicBlock, d *disc, emit func(*Path)) bool {
	fr := s.top()
	from := fr.block
	li := e.prog.loops(fr.fn)
	depth := len(s.frames)
	if l := li[tgt]; l != nil {
		if l.body[from] && fr.unroll[tgt] == 0 {
			// back edge
			phis := map[*ssa.Phi]*Term{}
			pi := predIndex(tgt, from)
			for _, ins := range tgt.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				phis[ph] = e.val(s, fr, ph.Edges[pi])
			}
			if d != nil && d.depth == depth && d.header == tgt {
				d.onBack(s, phis)
				return false
			}
			if d == nil {
				id := e.ctxKey(s, tgt)
				emit(&Path{outcome: "back", loop: id, st: s, phis: phis, hdr: e.entryFor(s, id)})
			}
			return false
		}
	}
	// leaving loops
	for len(fr.loops) > 0 && !fr.loops[len(fr.loops)-1].l.body[tgt] {
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	if d != nil && d.depth == depth && !d.loop.body[tgt] {
		return false // exits the loop under discovery
	}
	// parallel phi evaluation
	pi := predIndex(tgt, from)
	vals := map[*ssa.Phi]*Term{}
	n := 0
	for _, ins := range tgt.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vals[ph] = e.val(s, fr, ph.Edges[pi])
		n++
	}
	fr.prev = from
	fr.block = tgt
	fr.idx = n
	if l := li[tgt]; l != nil {
		times := 0
		if l.body[from] {
			// the next round of a loop that is followed round by round
			times = fr.unroll[tgt]
			if times > 2*maxUnroll {
				e.bail("a loop over a literal list goes on: %s", e.ctxKey(s, tgt))
				return false
			}
			times++
		} else if e.unrollable(s, fr, l, vals) {
			times = 1
		}
		if times != 0 || fr.unroll[tgt] != 0 {
			u := make(map[*ssa.BasicBlock]int, len(fr.unroll)+1)
			for k, v := range fr.unroll {
				u[k] = v
			}
			u[tgt] = times
			fr.unroll = u
		}
		if times == 0 {
			return e.enterLoop(s, l, vals)
		}
	}
	for ph, v := range vals {
		fr.env[ph] = v
	}
	return true
}

const maxUnroll = 10

// unrollable: the loop counts from a constant to the known length of a list put together on this path, so that
// it can be followed round by round.
func (e *Engine) unrollable(s *State, fr *Frame, l *Loop, init map[*ssa.Phi]*Term) bool {
	br, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok || l.body[l.header.Succs[0]] == l.body[l.header.Succs[1]] {
		return false
	}
	cond, ok := br.Cond.(*ssa.BinOp)
	if !ok || cond.Op != token.LSS && cond.Op != token.NEQ {
		return false
	}
	// the counter: a phi that starts with a constant and goes up by one each round
	count := func(v ssa.Value) *ssa.Phi {
		for {
			switch x := v.(type) {
			case *ssa.Phi:
				if x.Block() == l.header {
					return x
				}
				return nil
			case *ssa.BinOp:
				if k, ok := x.Y.(*ssa.Const); ok && x.Op == token.ADD && k.Value != nil && k.Int64() == 1 {
					v = x.X
					continue
				}
			}
			return nil
		}
	}
	ph := count(cond.X)
	if ph == nil {
		return false
	}
	for i, ed := range ph.Edges {
		if l.body[l.header.Preds[i]] && (count(ed) != ph || ed == ssa.Value(ph)) {
			return false
		}
	}
	i0, ok := init[ph].intVal()
	if !ok {
		return false
	}
	// its bound: the length of such a list
	var n *Term
	switch y := cond.Y.(type) {
	case *ssa.Call:
		b, ok := y.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "len" {
			return false
		}
		list := y.Call.Args[0]
		if in, ok := list.(ssa.Instruction); ok && l.body[in.Block()] {
			u, ok := list.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				return false
			}
			a, ok := u.X.(*ssa.Alloc)
			if !ok || storedIn(a, l) {
				return false
			}
			n = lenOf(s, e.load(s, e.val(s, fr, a), locTypeOf(a.Type())))
			break
		}
		n = lenOf(s, e.val(s, fr, list))
	case *ssa.Const:
		n = e.val(s, fr, y)
	default:
		return false
	}
	k, ok := n.intVal()
	return ok && k-i0 <= maxUnroll
}

// storedIn: the variable is written, or its address is used otherwise, inside the loop.
func storedIn(a *ssa.Alloc, l *Loop) bool {
	for _, r := range *a.Referrers() {
		if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
			continue
		}
		if l.body[r.Block()] {
			return true
		}
	}
	return false
}

// lowest: the smallest integer v can be.
func lowest(s *State, v *Term) (int64, bool) {
	if i, ok := v.intVal(); ok {
		return i, true
	}
	if !isIntT(v.typ) {
		return 0, false
	}
	iv := s.facts.interval(v)
	return iv.lo, iv.hasLo
}

func predIndex(b, pred *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == pred {
			return i
		}
	}
	return 0
}

func (e *Engine) ctxKey(s *State, h *ssa.BasicBlock) string {
	var sb strings.Builder
	for i, f := range s.frames {
		if i > 0 {
			fmt.Fprintf(&sb, ">%s:%d.%d", f.fn.String(), s.frames[i-1].block.Index, s.frames[i-1].idx)
		} else {
			sb.WriteString(f.fn.String())
		}
	}
	fmt.Fprintf(&sb, "@%d", h.Index)
	return sb.String()
}

func (e *Engine) entryFor(s *State, id string) *LoopEntry {
	for ev := s.ev; ev != nil; ev = ev.prev {
		if ev.kind == "loop" && ev.sym == id {
			return e.entries[fmt.Sprintf("%s#%d", id, ev.a[0].id)]
		}
	}
	return nil
}

var loopSerial int

// appended: the lists known to s that are another list with elements behind it.
func appended(s *State) []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	add := func(t *Term) {
		if t != nil && t.op == "append" && !seen[t] {
			seen[t] = true
			r = append(r, t)
		}
	}
	for _, fr := range s.frames {
		for _, t := range fr.env {
			add(t)
		}
	}
	for _, t := range s.heap {
		add(t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func (e *Engine) enterLoop(s *State, l *Loop, init map[*ssa.Phi]*Term) bool {
	fr := s.top()
	key := e.ctxKey(s, l.header)
	e.loopsSeen[key] = true
	c := e.cache[key]
	cached := c != nil
	if c == nil {
		c = &loopCand{map[*Term]bool{}, map[*Term]bool{}, map[*ssa.Phi]bool{}, map[*ssa.Phi]bool{}, map[*ssa.Phi]bool{}, map[*ssa.Phi]bool{}, map[*ssa.Phi]map[string]*Term{}, map[*Term]bool{}, map[*Term]bool{}, map[string]bool{}}
		for ph := range init {
			c.phiKeep[ph] = true
		}
	}
	nobj := s.nobj
	var le *LoopEntry
	outerFast := e.fast
	full := false
	for round := 0; ; round++ {
		if outerFast && cached {
			le = nil
			break
		}
		// the last round, the one that confirms the invariant, is always a full one
		e.fast = outerFast || !full
		if round > 40 {
			e.bail("loop invariant did not stabilise: %s", key)
			return false
		}
		changed := false
		le = &LoopEntry{id: key, loop: l, init: init, fn: fr.fn, depth: len(s.frames)}
		base := s.clone()
		e.applyHavoc(base, l, c, init, le)
		start := base.clone()
		d := &disc{depth: len(base.frames), header: l.header, loop: l}
		d.onBack = func(bs *State, phis map[*ssa.Phi]*Term) {
			for ph, v := range phis {
				g := le.phis[ph]
				if c.phiKeep[ph] {
					if v != init[ph] {
						c.phiKeep[ph] = false
						changed = true
					}
					continue
				}
				if !c.noConst[ph] {
					if v != g {
						if v.isConst() {
							if c.constU[ph] == nil {
								c.constU[ph] = map[string]*Term{}
							}
							if c.constU[ph][v.sym] == nil && init[ph].sym != v.sym {
								c.constU[ph][v.sym] = v
								changed = true
								if len(c.constU[ph]) > 6 {
									c.noConst[ph] = true
								}
							}
						} else {
							c.noConst[ph] = true
							changed = true
						}
					}
				}
				if !c.noLo[ph] {
					if i0, ok := lowest(start, init[ph]); ok {
						iv := bs.facts.interval(v)
						if !(iv.hasLo && iv.lo >= i0) {
							c.noLo[ph] = true
							changed = true
						}
					}
				}
				if !c.noNN[ph] && isNilLike(ph.Type()) {
					if !e.nonNil(bs, v) {
						c.noNN[ph] = true
						changed = true
					}
				}
			}
			// heap differences
			for loc, v := range bs.heap {
				if ov, ok := start.heap[loc]; ok && ov == v {
					continue
				} else if !ok && e.load0(start, loc) == v {
					continue
				}
				r := rootOf(loc)
				if r.op == "obj" && objNum(r) > nobj {
					continue // allocated in this iteration
				}
				// symbolic index created inside the iteration: widen the whole indexed base
				w := loc
				pre := false
				for x := loc; x.op == "fa" || x.op == "ia" || x.op == "mi"; x = x.args[0] {
					if (x.op == "ia" || x.op == "mi") && !x.args[1].isConst() {
						w = x.args[0]
						pre = true
					}
				}
				// roots born inside the iteration (fresh symbols of this iteration) cannot be named outside
				if e.bornInside(r, start, le) {
					if w.op == "fa" {
						if k := fieldKey(w); !c.fkill[k] {
							c.fkill[k] = true
							changed = true
						}
					}
					continue
				}
				if pre {
					if !c.prefix[w] {
						c.prefix[w] = true
						changed = true
					}
					continue
				}
				if !c.locs[w] {
					c.locs[w] = true
					changed = true
				} else {
					if !c.lnn[w] && isNilLike(v.typ) && !e.nonNil(bs, v) {
						c.lnn[w] = true
						changed = true
					}
					if !c.lnl[w] {
						if iv := bs.facts.interval(v); le.locInit[w] != nil {
							if i0, ok := le.locInit[w].intVal(); ok && !(iv.hasLo && iv.lo >= i0) {
								c.lnl[w] = true
								changed = true
							}
						}
					}
				}
			}
			for p := range bs.havoc {
				if start.havoc[p] == bs.havoc[p] {
					continue
				}
				r := rootOf(p)
				if r.op == "obj" && objNum(r) > nobj || e.bornInside(r, start, le) {
					continue
				}
				if !c.prefix[p] {
					c.prefix[p] = true
					changed = true
				}
			}
		}
		savePaths := e.paths
		e.explore(base, d, func(*Path) {})
		e.paths = savePaths
		if debugOn {
			fmt.Printf("round %d %s locs=%v prefix=%v fkill=%v lnn=%d lnl=%d\n", round, key, len(c.locs), len(c.prefix), c.fkill, len(c.lnn), len(c.lnl))
			for l := range c.locs {
				fmt.Println("    loc", l)
			}
			for l := range c.prefix {
				fmt.Println("    prefix", l)
			}
		}
		if !changed {
			if full || outerFast {
				break
			}
			full = true
		} else {
			full = false
		}
	}
	e.fast = outerFast
	cc := *c
	cc.locs, cc.prefix, cc.lnn, cc.lnl = stableOnly(c.locs), stableOnly(c.prefix), stableOnly(c.lnn), stableOnly(c.lnl)
	e.cache[key] = &cc
	before := s.clone()
	e.applyHavoc(s, l, c, init, le2(le))
	loopSerial++
	tag := mk("loopid", strconv.Itoa(loopSerial), nil)
	le3 := lastEntry
	le3.lists = appended(s)
	le3.before, le3.at = before, s.clone()
	le3.id, le3.loop, le3.init, le3.fn, le3.depth = key, l, init, fr.fn, len(s.frames)
	e.entries[fmt.Sprintf("%s#%d", key, tag.id)] = le3
	e.event(s, &Event{kind: "loop", sym: key, a: []*Term{tag}, instr: l.header.Instrs[0], entry: le3})
	fr.loops = append(fr.loops, loopInst{l: l, depth: len(s.frames), id: key})
	return true
}

// stableOnly keeps locations whose names do not depend on symbols of one particular widening.
func stableOnly(m map[*Term]bool) map[*Term]bool {
	n := map[*Term]bool{}
	for k, v := range m {
		if !k.contains(func(x *Term) bool { return x.op == "sym" || x.op == "obj" }) {
			n[k] = v
		}
	}
	return n
}

var lastEntry *LoopEntry

func le2(*LoopEntry) *LoopEntry { lastEntry = &LoopEntry{}; return lastEntry }

func objNum(t *Term) int {
	i := strings.LastIndexByte(t.sym, '@')
	n, _ := strconv.Atoi(t.sym[i+1:])
	return n
}

// bornInside: r is a fresh symbol (or a pure function of one) created after the loop's generic state was built.
func (e *Engine) bornInside(r *Term, start *State, le *LoopEntry) bool {
	mark := le.depthMark()
	return r.contains(func(x *Term) bool {
		if x.op == "sym" {
			i := strings.LastIndexByte(x.sym, '#')
			n, _ := strconv.Atoi(x.sym[i+1:])
			return n > mark
		}
		if x.op == "obj" {
			return objNum(x) > start.nobj
		}
		return false
	})
}

var freshMark = map[*LoopEntry]int{}

func (le *LoopEntry) depthMark() int { return freshMark[le] }

func (e *Engine) applyHavoc(s *State, l *Loop, c *loopCand, init map[*ssa.Phi]*Term, le *LoopEntry) {
	fr := s.top()
	freshMark[le] = freshCount
	le.nobj = s.nobj
	le.phis = map[*ssa.Phi]*Term{}
	le.locs = map[*Term]*Term{}
	le.locInit = map[*Term]*Term{}
	var phs []*ssa.Phi
	for ph := range init {
		phs = append(phs, ph)
	}
	sort.Slice(phs, func(i, j int) bool { return phs[i].Name() < phs[j].Name() })
	for _, ph := range phs {
		v := init[ph]
		if c.phiKeep[ph] {
			fr.env[ph] = v
			le.phis[ph] = v
			continue
		}
		nm := ph.Comment
		if nm == "" {
			nm = ph.Name()
		}
		g := fresh("φ"+nm, ph.Type())
		if !c.noConst[ph] && v.isConst() {
			set := map[string]bool{v.sym: true}
			for k := range c.constU[ph] {
				set[k] = true
			}
			if !strings.HasPrefix(v.sym, "b:") && !strings.HasPrefix(v.sym, "x:") {
				s.facts.in[g] = set
			} else if len(set) == 1 {
				s.facts.bools[g] = v.sym == "b:true"
			}
		}
		if !c.noLo[ph] {
			if i0, ok := lowest(s, v); ok {
				s.facts.tighten(g, i0, true, 0, false)
			}
		}
		if !c.noNN[ph] && isNilLike(ph.Type()) && e.nonNil(s, v) {
			s.facts.setNil(g, false)
		}
		if !c.noNN[ph] && isNilLike(ph.Type()) && !e.nonNil(s, v) {
			c.noNN[ph] = true
		}
		if downCounting(l, ph) {
			s.facts.assume(mk("bin", "<", types.Typ[types.Bool], g, addConst(v, 1)), true)
		}
		fr.env[ph] = g
		le.phis[ph] = g
	}
	var ps []*Term
	for p := range c.prefix {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].id < ps[j].id })
	for _, p := range ps {
		e.havocAt(s, p, nil)
	}
	var ls []*Term
	for loc := range c.locs {
		ls = append(ls, loc)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
	for _, loc := range ls {
		iv := e.load0(s, loc)
		g := fresh("~"+loc.String(), locType(loc))
		le.locInit[loc] = iv
		le.locs[loc] = g
		s.heap[loc] = g
		if !c.lnn[loc] && isNilLike(g.typ) {
			if e.nonNil(s, iv) {
				s.facts.setNil(g, false)
			} else {
				c.lnn[loc] = true
			}
		}
		if !c.lnl[loc] {
			if i0, ok := iv.intVal(); ok {
				s.facts.tighten(g, i0, true, 0, false)
			}
		}
	}
	for k := range c.fkill {
		havocSerial++
		s.fepoch[k] = mk("havoc", "f"+strconv.Itoa(havocSerial), nil)
		for q := range s.heap {
			if q.op == "fa" && fieldKey(q) == k && rootOf(q).op != "obj" {
				s.heap[q] = fresh("?fld", locType(q))
			}
		}
	}
}

// downCounting: every way back to the header makes the number smaller by a constant or leaves it.
func downCounting(l *Loop, ph *ssa.Phi) bool {
	if !isIntT(ph.Type()) {
		return false
	}
	down := false
	for i, v := range ph.Edges {
		if !l.body[ph.Block().Preds[i]] || v == ph {
			continue
		}
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.SUB || b.X != ph {
			return false
		}
		k, ok := b.Y.(*ssa.Const)
		if !ok || k.Value == nil || constant.Sign(k.Value) <= 0 {
			return false
		}
		down = true
	}
	return down
}

// fieldKey names a field by its owning struct type.
func fieldKey(fa *Term) string {
	return tstr(locType(fa.args[0])) + "." + fa.sym
}

func locType(loc *Term) types.Type {
	if loc.typ == nil {
		return nil
	}
	if p, ok := loc.typ.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// ------------------------------------------------------------ memory

func fieldsOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func faddr(base *Term, st *types.Struct, i int) *Term {
	f := st.Field(i)
	return mk("fa", f.Name(), types.NewPointer(f.Type()), base)
}

func fieldVal(v *Term, st *types.Struct, i int) *Term {
	if v.op == "struct" {
		return v.args[i]
	}
	return mk("field", st.Field(i).Name(), st.Field(i).Type(), v)
}

func (e *Engine) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return mk("const", "s:", t)
		case u.Info()&types.IsBoolean != 0:
			return mkBool(false)
		case u.Info()&types.IsInteger != 0:
			return mk("const", "i:0", t)
		case u.Kind() == types.UnsafePointer:
			return mkNil(t)
		default:
			return mk("const", "x:0", t)
		}
	case *types.Struct:
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, e.zero(u.Field(i).Type()))
		}
		return mk("struct", tstr(t), t, as...)
	case *types.Array:
		return mk("zeroarr", tstr(t), t)
	}
	return mkNil(t)
}

func (e *Engine) load(s *State, p *Term, t types.Type) *Term {
	if st := fieldsOf(t); st != nil {
		as := make([]*Term, st.NumFields())
		for i := range as {
			as[i] = e.load(s, faddr(p, st, i), st.Field(i).Type())
		}
		// re-fold a struct whose fields are exactly those of one opaque value
		if len(as) > 0 && as[0].op == "field" {
			b := as[0].args[0]
			same := b.typ != nil && types.Identical(b.typ, t)
			for i := range as {
				if as[i].op != "field" || as[i].args[0] != b || as[i].sym != st.Field(i).Name() {
					same = false
				}
			}
			if same {
				return b
			}
		}
		return mk("struct", tstr(t), t, as...)
	}
	return e.load0t(s, p, t)
}
func (e *Engine) load0(s *State, p *Term) *Term {
	return e.load0t(s, p, locType(p))
}
func (e *Engine) load0t(s *State, p *Term, t types.Type) *Term {
	if v, ok := s.heap[p]; ok {
		return v
	}
	// havoc marks on prefixes
	var mark *Term
	for x := p; ; x = x.args[0] {
		if m, ok := s.havoc[x]; ok {
			mark = m
			break
		}
		if x.op != "fa" && x.op != "ia" && x.op != "mi" {
			break
		}
	}
	r := rootOf(p)
	if mark == nil {
		if r.op == "obj" {
			if t == nil {
				return fresh("zero?", t)
			}
			if k := e.maybeStored(s, p); k != "" {
				return mk("ld", k, t, p)
			}
			return e.zero(t)
		}
		if len(s.fepoch) > 0 {
			k := ""
			switch p.op {
			case "fa":
				k = fieldKey(p)
			case "ia":
				k = "elem:" + tstr(locType(p))
			case "mi":
				if p.args[0].typ != nil {
					k = "map:" + tstr(p.args[0].typ)
				}
			}
			if m := s.fepoch[k]; m != nil {
				return mk("ld", m.sym, t, p)
			}
		}
		return mk("ld", "", t, p)
	}
	return mk("ld", mark.sym, t, p)
}

// maybeStored names the elements that p, which goes through an index that is not known, may be among: what it
// holds is then not known to be the zero value. It is empty when nothing was stored there.
func (e *Engine) maybeStored(s *State, p *Term) string {
	if !hasIdx(p) {
		return ""
	}
	var ids []string
	for q, v := range s.heap {
		if mayAliasIdx(s, p, q) {
			ids = append(ids, strconv.Itoa(q.id)+"="+strconv.Itoa(v.id))
		}
	}
	if len(ids) == 0 {
		return ""
	}
	sort.Strings(ids)
	return "among " + strings.Join(ids, ",")
}

func (e *Engine) store(s *State, p *Term, v *Term, t types.Type) {
	if st := fieldsOf(t); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			e.store(s, faddr(p, st, i), fieldVal(v, st, i), st.Field(i).Type())
		}
		return
	}
	if at, ok := t.Underlying().(*types.Array); ok {
		if v.op == "zeroarr" {
			e.killPrefix(s, p)
			if rootOf(p).op == "obj" {
				return
			}
		}
		if v.op == "arrval" {
			for i, a := range v.args {
				e.store(s, mk("ia", "", types.NewPointer(at.Elem()), p, mkInt(int64(i))), a, at.Elem())
			}
			return
		}
		e.havocAt(s, p, nil)
		return
	}
	if p.op == "ia" || p.op == "mi" || hasIdx(p) {
		e.killIdxAliases(s, p)
	}
	s.heap[p] = v
}

func hasIdx(p *Term) bool {
	for ; p.op == "fa" || p.op == "ia" || p.op == "mi"; p = p.args[0] {
		if p.op != "fa" {
			return true
		}
	}
	return false
}

// killIdxAliases forgets heap entries that may alias p through a different, possibly equal index.
func (e *Engine) killIdxAliases(s *State, p *Term) {
	var dead []*Term
	for q := range s.heap {
		if q != p && mayAliasIdx(s, p, q) {
			dead = append(dead, q)
		}
	}
	sort.Slice(dead, func(i, j int) bool { return dead[i].id < dead[j].id })
	for _, q := range dead {
		s.heap[q] = fresh("?alias", locType(q))
	}
}
func mayAliasIdx(s *State, p, q *Term) bool {
	if p == q {
		return true
	}
	if p.op != q.op {
		return false
	}
	switch p.op {
	case "fa":
		return p.sym == q.sym && mayAliasIdx(s, p.args[0], q.args[0])
	case "ia", "mi":
		if p.sym != q.sym {
			return false // presence and value of a map entry are different places
		}
		if !mayAliasIdx(s, p.args[0], q.args[0]) {
			return false
		}
		i, j := p.args[1], q.args[1]
		if i == j {
			return true
		}
		if i.isConst() && j.isConst() {
			return false
		}
		bi, oi := lin(i)
		bj, oj := lin(j)
		if bi == bj && oi != oj {
			return false
		}
		eq := mk("bin", "==", types.Typ[types.Bool], i, j)
		if v, known := s.facts.decide(eq); known && !v {
			return false
		}
		return true
	}
	return false
}

func underPrefix(loc, p *Term) bool {
	for x := loc; ; x = x.args[0] {
		if x == p {
			return true
		}
		if x.op != "fa" && x.op != "ia" && x.op != "mi" {
			return false
		}
	}
}
func (e *Engine) killPrefix(s *State, p *Term) {
	for q := range s.heap {
		if underPrefix(q, p) {
			delete(s.heap, q)
		}
	}
	for q := range s.havoc {
		if underPrefix(q, p) {
			delete(s.havoc, q)
		}
	}
}

var havocSerial int

// havocAt makes everything reachable by address below p unknown, except kept locations.
func (e *Engine) havocAt(s *State, p *Term, keep func(*Term) bool) {
	saved := map[*Term]*Term{}
	if keep != nil {
		// materialise kept struct fields
		if st := fieldsOf(locType(p)); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				fa := faddr(p, st, i)
				if keep(fa) && fieldsOf(st.Field(i).Type()) == nil {
					saved[fa] = e.load0(s, fa)
				} else if ist := fieldsOf(st.Field(i).Type()); ist != nil {
					for j := 0; j < ist.NumFields(); j++ {
						fb := faddr(fa, ist, j)
						if keep(fb) && fieldsOf(ist.Field(j).Type()) == nil {
							saved[fb] = e.load0(s, fb)
						}
					}
				}
			}
		}
	}
	e.killPrefix(s, p)
	havocSerial++
	s.havoc[p] = mk("havoc", strconv.Itoa(havocSerial), nil)
	for k, v := range saved {
		s.heap[k] = v
	}
}

func (e *Engine) newObj(s *State, name string, ptr types.Type) *Term {
	s.nobj++
	return mk("obj", fmt.Sprintf("%s@%d", name, s.nobj), ptr)
}

// ------------------------------------------------------------ values

func (e *Engine) val(s *State, fr *Frame, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			switch x.Type().Underlying().(type) {
			case *types.Struct, *types.Array, *types.Basic:
				return e.zero(x.Type())
			}
			return mkNil(x.Type())
		}
		return mkConst(x.Value, x.Type())
	case *ssa.Global:
		return mk("global", x.String(), x.Type())
	case *ssa.Function:
		return mk("func", x.String(), x.Type())
	case *ssa.Builtin:
		return mk("builtin", x.Name(), x.Type())
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	panic(fmt.Sprintf("no value for %s in %s (%T)", v.Name(), fr.fn, v))
}

func lenOf(s *State, t *Term) *Term {
	it := types.Typ[types.Int]
	switch t.op {
	case "const":
		if v, ok := t.strVal(); ok {
			return mkInt(int64(len(v)))
		}
	case "nil":
		return mkInt(0)
	case "append":
		return addConst(lenOf(s, t.args[0]), int64(len(t.args)-1))
	case "arrslice":
		if at, ok := locType(t.args[0]).Underlying().(*types.Array); ok {
			return mkInt(at.Len())
		}
	case "mkslice":
		return t.args[1]
	case "slice":
		// hi - lo
		hi := t.args[2]
		if hi == nil {
			hi = lenOf(s, t.args[0])
		}
		lo := t.args[1]
		if lo == nil {
			return hi
		}
		if c, ok := lo.intVal(); ok {
			return addConst(hi, -c)
		}
		bh, oh := lin(hi)
		bl, ol := lin(lo)
		if bh == bl {
			return mkInt(oh - ol)
		}
		return mk("bin", "-", it, hi, lo)
	case "conv":
		if isString(t.args[0]) || isString(t) {
			return lenOf(s, t.args[0])
		}
	}
	return mk("len", "", it, t)
}

// elemLoc is the address of element i of slice/array base.
func (e *Engine) elemLoc(base, i *Term, et types.Type) *Term {
	pt := types.NewPointer(et)
	switch base.op {
	case "arrslice", "mkslice":
		return mk("ia", "", pt, base.args[0], i)
	case "slice":
		lo := base.args[1]
		if lo == nil {
			return e.elemLoc(base.args[0], i, et)
		}
		if c, ok := lo.intVal(); ok {
			return e.elemLoc(base.args[0], addConst(i, c), et)
		}
		if c, ok := i.intVal(); ok {
			return e.elemLoc(base.args[0], addConst(lo, c), et)
		}
		return e.elemLoc(base.args[0], mk("bin", "+", types.Typ[types.Int], lo, i), et)
	}
	return mk("ia", "", pt, base, i)
}

// loadElem handles append chains.
func (e *Engine) loadElem(s *State, p *Term, t types.Type) *Term {
	if p.op == "ia" && p.args[0].op == "append" {
		if _, ok := s.heap[p]; !ok {
			ap := p.args[0]
			l := lenOf(s, ap.args[0])
			bi, oi := lin(p.args[1])
			bl, ol := lin(l)
			if bi == bl {
				k := oi - ol
				if k >= 0 && int(k) < len(ap.args)-1 {
					return ap.args[k+1]
				}
				if k < 0 {
					return e.loadElem(s, e.elemLoc(ap.args[0], p.args[1], t), t)
				}
			}
			if v, known := s.facts.decide(mk("bin", "<", types.Typ[types.Bool], p.args[1], l)); known && v {
				return e.loadElem(s, e.elemLoc(ap.args[0], p.args[1], t), t)
			}
		}
	}
	return e.load(s, p, t)
}

func (e *Engine) checkIndex(s *State, ins ssa.Instruction, idx, length *Term) {
	iv := s.facts.interval(idx)
	ok := iv.hasLo && iv.lo >= 0
	if ok {
		v, known := s.facts.decide(mk("bin", "<", types.Typ[types.Bool], idx, length))
		ok = known && v
	}
	e.oblige(s, ins, "index", ok, idx, length)
}

func (e *Engine) step(s *State, fr *Frame, ins ssa.Instruction) bool {
	set := func(v ssa.Value, t *Term) { fr.env[v] = t }
	switch in := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		n := in.Comment
		if n == "" {
			n = "new"
		}
		set(in, e.newObj(s, n+":"+tstr(locTypeOf(in.Type())), in.Type()))
	case *ssa.Phi:
		panic("phi")
	case *ssa.BinOp:
		x, y := e.val(s, fr, in.X), e.val(s, fr, in.Y)
		set(in, e.binop(s, in, x, y))
	case *ssa.UnOp:
		x := e.val(s, fr, in.X)
		switch in.Op {
		case token.MUL:
			if !e.needPtr(s, ins, x) {
				return false
			}
			set(in, e.loadElem(s, x, in.Type()))
		case token.NOT:
			if b, ok := x.boolVal(); ok {
				set(in, mkBool(!b))
			} else if x.op == "un" && x.sym == "!" {
				set(in, x.args[0])
			} else {
				set(in, mk("un", "!", in.Type(), x))
			}
		case token.SUB:
			if i, ok := x.intVal(); ok {
				set(in, mkInt(-i))
			} else {
				set(in, mk("un", "-", in.Type(), x))
			}
		case token.ARROW:
			set(in, fresh("recv", in.Type()))
		default:
			set(in, mk("un", in.Op.String(), in.Type(), x))
		}
	case *ssa.ChangeType:
		x := e.val(s, fr, in.X)
		set(in, retype(x, in.Type()))
	case *ssa.ChangeInterface:
		set(in, e.val(s, fr, in.X))
	case *ssa.Convert:
		set(in, e.convert(e.val(s, fr, in.X), in.Type()))
	case *ssa.MultiConvert:
		set(in, e.convert(e.val(s, fr, in.X), in.Type()))
	case *ssa.SliceToArrayPointer:
		e.oblige(s, ins, "slice2array", false)
		set(in, fresh("arrp", in.Type()))
	case *ssa.MakeInterface:
		x := e.val(s, fr, in.X)
		set(in, mk("iface", tstr(in.X.Type()), in.Type(), x))
		ifaceType[tstr(in.X.Type())] = in.X.Type()
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, e.val(s, fr, b))
		}
		t := mk("closure", fn.String(), in.Type(), bs...)
		closureFn[t] = fn
		set(in, t)
	case *ssa.MakeMap:
		if in.Reserve != nil {
			e.event(s, &Event{kind: "alloc", sym: "map", a: []*Term{e.val(s, fr, in.Reserve)}, instr: ins, facts: s.facts.clone()})
		}
		set(in, e.newObj(s, "map", in.Type()))
	case *ssa.MakeChan:
		e.event(s, &Event{kind: "alloc", sym: "channel", a: []*Term{e.val(s, fr, in.Size)}, instr: ins, facts: s.facts.clone()})
		set(in, e.newObj(s, "chan", in.Type()))
	case *ssa.MakeSlice:
		l := e.val(s, fr, in.Len)
		c := e.val(s, fr, in.Cap)
		iv := s.facts.interval(l)
		ok := iv.hasLo && iv.lo >= 0
		if ok && c != l {
			v, known := s.facts.decide(mk("bin", "<", types.Typ[types.Bool], c, l))
			ok = known && !v
		}
		e.oblige(s, ins, "makeslice", ok, l, c)
		e.event(s, &Event{kind: "alloc", sym: "list", a: []*Term{l, c}, instr: ins, facts: s.facts.clone()})
		o := e.newObj(s, "slice", types.NewPointer(in.Type()))
		set(in, mk("mkslice", "", in.Type(), o, l))
	case *ssa.Slice:
		return e.sliceOp(s, fr, in)
	case *ssa.FieldAddr:
		x := e.val(s, fr, in.X)
		if !e.needPtr(s, ins, x) {
			return false
		}
		st := locTypeOf(in.X.Type()).Underlying().(*types.Struct)
		set(in, faddr(x, st, in.Field))
	case *ssa.Field:
		x := e.val(s, fr, in.X)
		st := in.X.Type().Underlying().(*types.Struct)
		set(in, fieldVal(x, st, in.Field))
	case *ssa.IndexAddr:
		x := e.val(s, fr, in.X)
		i := e.val(s, fr, in.Index)
		et := locTypeOf(in.Type())
		if at, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			if !e.needPtr(s, ins, x) {
				return false
			}
			e.checkIndex(s, ins, i, mkInt(at.Elem().Underlying().(*types.Array).Len()))
			set(in, e.exactIndex(s, mk("ia", "", in.Type(), x, i)))
		} else {
			e.checkIndex(s, ins, i, lenOf(s, x))
			set(in, e.exactIndex(s, e.elemLoc(x, i, et)))
		}
	case *ssa.Index:
		x := e.val(s, fr, in.X)
		i := e.val(s, fr, in.Index)
		if at, ok := in.X.Type().Underlying().(*types.Array); ok {
			e.checkIndex(s, ins, i, mkInt(at.Len()))
		} else {
			e.checkIndex(s, ins, i, lenOf(s, x))
		}
		set(in, mk("elem", "", in.Type(), x, i))
	case *ssa.Lookup:
		x := e.val(s, fr, in.X)
		i := e.val(s, fr, in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			e.checkIndex(s, ins, i, lenOf(s, x))
			set(in, mk("elem", "", in.Type(), x, i))
			break
		}
		mt := in.X.Type().Underlying().(*types.Map)
		loc := mk("mi", "", types.NewPointer(mt.Elem()), x, i)
		hloc := mk("mi", "has", types.NewPointer(types.Typ[types.Bool]), x, i)
		v := e.load(s, loc, mt.Elem())
		e.event(s, &Event{kind: "mapget", a: []*Term{x, i, v}, instr: ins})
		if in.CommaOk {
			h := e.load0t(s, hloc, types.Typ[types.Bool])
			if b, known := s.facts.decide(h); known && !b {
				v = e.zero(mt.Elem())
			}
			set(in, mk("tuple", "", in.Type(), v, h))
		} else {
			set(in, v)
		}
	case *ssa.MapUpdate:
		m, k, v := e.val(s, fr, in.Map), e.val(s, fr, in.Key), e.val(s, fr, in.Value)
		e.oblige(s, ins, "nil-map", e.nonNil(s, m), m)
		s.facts.setNil(m, false)
		mt := in.Map.Type().Underlying().(*types.Map)
		e.store(s, mk("mi", "", types.NewPointer(mt.Elem()), m, k), v, mt.Elem())
		e.store(s, mk("mi", "has", types.NewPointer(types.Typ[types.Bool]), m, k), mkBool(true), types.Typ[types.Bool])
		e.event(s, &Event{kind: "mapset", a: []*Term{m, k, v}, instr: ins})
	case *ssa.Range:
		set(in, mk("range", "", in.Type(), e.val(s, fr, in.X)))
	case *ssa.Next:
		it := e.val(s, fr, in.Iter)
		tt := in.Type().(*types.Tuple)
		k := fresh("key", tt.At(1).Type())
		ok := fresh("more", types.Typ[types.Bool])
		var v *Term
		if in.IsString {
			v = fresh("rune", tt.At(2).Type())
		} else {
			m := it.args[0]
			if mt, okm := m.typ.Underlying().(*types.Map); okm {
				k = fresh("key", mt.Key())
				loc := mk("mi", "", types.NewPointer(mt.Elem()), m, k)
				v = e.load(s, loc, mt.Elem())
				if _, inHeap := s.heap[loc]; !inHeap && rootOf(m).op == "obj" {
					v = fresh("mapval", mt.Elem())
				}
				e.store(s, loc, v, mt.Elem())
			} else {
				v = fresh("mapval", tt.At(2).Type())
			}
		}
		e.event(s, &Event{kind: "next", a: []*Term{it.args[0], ok, k, v}, instr: ins})
		set(in, mk("tuple", "", in.Type(), ok, k, v))
	case *ssa.TypeAssert:
		x := e.val(s, fr, in.X)
		ts := tstr(in.AssertedType)
		ifaceType[ts] = in.AssertedType
		var v *Term
		if x.op == "iface" && x.sym == ts {
			v = x.args[0]
		} else if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			v = x
		} else {
			v = mk("ta", ts, in.AssertedType, x)
		}
		ok := e.holds(x, in.AssertedType)
		if in.CommaOk {
			if b, known := s.facts.decide(ok); known && !b {
				v = e.zero(in.AssertedType)
			}
			set(in, mk("tuple", "", in.Type(), v, ok))
		} else {
			b, known := s.facts.decide(ok)
			e.oblige(s, ins, "type-assert", known && b, x)
			s.facts.assume(ok, true)
			set(in, v)
		}
	case *ssa.Extract:
		t := e.val(s, fr, in.Tuple)
		if t.op != "tuple" || in.Index >= len(t.args) {
			panic("extract from " + t.String())
		}
		set(in, t.args[in.Index])
	case *ssa.Store:
		a, v := e.val(s, fr, in.Addr), e.val(s, fr, in.Val)
		if !e.needPtr(s, ins, a) {
			return false
		}
		var old *Term
		if _, ok := in.Val.Type().Underlying().(*types.Basic); ok && a.op == "fa" {
			old = e.load0(s, a)
		}
		e.store(s, a, v, in.Val.Type())
		e.event(s, &Event{kind: "store", a: []*Term{a, v}, instr: ins, old: old})
	case *ssa.Send:
		e.event(s, &Event{kind: "send", instr: ins})
	case *ssa.Select:
		e.event(s, &Event{kind: "select", instr: ins})
		tt := in.Type().(*types.Tuple)
		var as []*Term
		for i := 0; i < tt.Len(); i++ {
			as = append(as, fresh("sel", tt.At(i).Type()))
		}
		set(in, mk("tuple", "", tt, as...))
	default:
		e.bail("unsupported instruction %T in %s", ins, fr.fn)
		return false
	}
	return true
}

var ifaceType = map[string]types.Type{}
var closureFn = map[*Term]*ssa.Function{}

func retype(x *Term, t types.Type) *Term {
	if x.op == "struct" {
		return mk("struct", tstr(t), t, x.args...)
	}
	if fieldsOf(t) != nil {
		return mk("chtype", tstr(t), t, x)
	}
	return x
}

func locTypeOf(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (e *Engine) convert(x *Term, t types.Type) *Term {
	if x.isConst() {
		if i, ok := x.intVal(); ok {
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return mk("const", "i:"+strconv.FormatInt(i, 10), t)
			}
		}
	}
	if x.typ != nil && types.Identical(x.typ, t) {
		return x
	}
	return mk("conv", tstr(t), t, x)
}

func (e *Engine) binop(s *State, in *ssa.BinOp, x, y *Term) *Term {
	op := in.Op.String()
	t := in.Type()
	xi, xok := x.intVal()
	yi, yok := y.intVal()
	switch in.Op {
	case token.ADD:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return concat(t, x, y)
		}
		if xok && yok {
			return mk("const", "i:"+strconv.FormatInt(xi+yi, 10), t)
		}
		if isInt(t) {
			if yok {
				return addConst(x, yi)
			}
			if xok {
				return addConst(y, xi)
			}
		}
		return mk("bin", "+", t, x, y)
	case token.SUB:
		if xok && yok {
			return mk("const", "i:"+strconv.FormatInt(xi-yi, 10), t)
		}
		if isInt(t) && yok {
			return addConst(x, -yi)
		}
		if isInt(t) {
			bx, ox := lin(x)
			by, oy := lin(y)
			if bx == by {
				return mkInt(ox - oy)
			}
		}
		return mk("bin", "-", t, x, y)
	case token.MUL:
		if xok && yok {
			return mk("const", "i:"+strconv.FormatInt(xi*yi, 10), t)
		}
		if xok && !yok {
			x, y = y, x
		}
		return mk("bin", "*", t, x, y)
	case token.QUO, token.REM:
		if isInt(t) {
			ok := false
			if yok {
				ok = yi != 0
			} else {
				iv := s.facts.interval(y)
				ok = iv.hasLo && iv.lo > 0 || iv.hasHi && iv.hi < 0 || s.facts.notin[y]["i:0"]
				if c := y; !ok && c.op == "conv" {
					iv := s.facts.interval(c.args[0])
					ok = iv.hasLo && iv.lo > 0 || s.facts.notin[c.args[0]]["i:0"]
				}
			}
			e.oblige(s, in, "div-zero", ok, y)
		}
		if xok && yok && yi != 0 {
			if in.Op == token.QUO && isInt(t) {
				return mk("const", "i:"+strconv.FormatInt(xi/yi, 10), t)
			}
		}
	case token.EQL, token.NEQ:
		var r *Term
		switch {
		case x == y && !isFloat(x.typ):
			r = mkBool(true)
		case x.isConst() && y.isConst():
			r = mkBool(x.sym == y.sym)
		default:
			if x.isConst() || x.op == "nil" {
				x, y = y, x
			}
			// interface compared with concrete constant wrapped in iface
			r = mk("bin", "==", t, x, y)
		}
		if in.Op == token.NEQ {
			if b, ok := r.boolVal(); ok {
				return mkBool(!b)
			}
			return mk("un", "!", t, r)
		}
		return r
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if xok && yok {
			v := false
			switch in.Op {
			case token.LSS:
				v = xi < yi
			case token.GTR:
				v = xi > yi
			case token.LEQ:
				v = xi <= yi
			case token.GEQ:
				v = xi >= yi
			}
			return mkBool(v)
		}
	}
	_ = constant.MakeBool
	return mk("bin", op, t, x, y)
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (e *Engine) sliceOp(s *State, fr *Frame, in *ssa.Slice) bool {
	x := e.val(s, fr, in.X)
	var lo, hi *Term
	if in.Low != nil {
		lo = e.val(s, fr, in.Low)
		if c, ok := lo.intVal(); ok && c == 0 {
			lo = nil
		}
	}
	if in.High != nil {
		hi = e.val(s, fr, in.High)
	}
	if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		if at, ok := pt.Elem().Underlying().(*types.Array); ok {
			if !e.needPtr(s, in, x) {
				return false
			}
			full := mk("arrslice", "", in.Type(), x)
			if lo == nil && hi == nil {
				fr.env[in] = full
				return true
			}
			if hi != nil {
				if c, ok := hi.intVal(); ok && c == at.Len() {
					hi = nil
				}
			}
			if lo == nil && hi == nil {
				fr.env[in] = full
				return true
			}
			if hi != nil && lo == nil { // make([]T, n, cap) with constants
				if c, ok := hi.intVal(); ok && c >= 0 && c <= at.Len() {
					if strings.HasPrefix(x.sym, "makeslice:") {
						fr.env[in] = mk("mkslice", "", in.Type(), x, hi)
						e.oblige(s, in, "slice", true)
						return true
					}
				}
			}
			x = full
		}
	}
	L := lenOf(s, x)
	lt := func(a, b *Term) bool { // prove a <= b
		v, known := s.facts.decide(mk("bin", "<", types.Typ[types.Bool], b, a))
		return known && !v
	}
	ok := true
	if lo != nil {
		iv := s.facts.interval(lo)
		ok = iv.hasLo && iv.lo >= 0
		if hi != nil {
			ok = ok && lt(lo, hi)
		} else {
			ok = ok && lt(lo, L)
		}
	}
	if hi != nil {
		iv := s.facts.interval(hi)
		ok = ok && iv.hasLo && iv.lo >= 0 && lt(hi, L)
	}
	if !ok && lo != nil && hi == nil && lastIndexSafe(x, lo) {
		ok = true
	}
	e.oblige(s, in, "slice", ok, x, lo, hi)
	if ok || lo == nil {
	} else if hi == nil {
		s.facts.assumeLt(L, lo, false)
	}
	if lo == nil && hi == nil && in.Max == nil {
		fr.env[in] = x
	} else if in.Max != nil {
		// capacity limited: appending copies the elements
		m := e.val(s, fr, in.Max)
		if lo == nil && hi == nil {
			hi = L
		}
		e.oblige(s, in, "slice", m == hi || m == L, x, m)
		fr.env[in] = mk("slice", "max", in.Type(), x, lo, hi)
	} else {
		if sv, isS := x.strVal(); isS && ok {
			a, b := 0, len(sv)
			good := true
			if lo != nil {
				c, k := lo.intVal()
				a, good = int(c), k
			}
			if hi != nil {
				c, k := hi.intVal()
				b, good = int(c), good && k
			}
			if good && a <= b && b <= len(sv) {
				fr.env[in] = mkStr(sv[a:b])
				return true
			}
		}
		fr.env[in] = mk("slice", "", in.Type(), x, lo, hi)
	}
	return true
}

// s[strings.LastIndex(s, sub)+k:] with 0<=k<=len(sub), k>=1 or index proven non-negative
func lastIndexSafe(x, lo *Term) bool {
	b, o := lin(lo)
	if b == nil || b.op != "call" || (b.sym != "strings.LastIndex" && b.sym != "strings.Index" && b.sym != "strings.LastIndexByte" && b.sym != "strings.IndexByte") || b.args[0] != x {
		return false
	}
	n := int64(1)
	if strings.HasSuffix(b.sym, "Index") {
		sub, ok := b.args[1].strVal()
		if !ok {
			return false
		}
		n = int64(len(sub))
	}
	return o == 1 && n >= 1
}

var debugOn = os.Getenv("SA_DEBUG") != ""
