package main

import (
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- C33

const rv = "(reflect.Value)."

var rvType types.Type // reflect.Value

func call1(sym string, a ...*Term) *Term {
	t := rvType
	switch strings.TrimPrefix(sym, rv) {
	case "IsZero", "IsNil", "IsValid", "Equal", "reflect.DeepEqual":
		t = types.Typ[types.Bool]
	case "NumField":
		t = types.Typ[types.Int]
	case "Interface":
		t = types.NewInterfaceType(nil, nil)
	}
	return mk("call", sym, t, a...)
}

func eqT(a, b *Term) *Term { return mk("bin", "==", types.Typ[types.Bool], a, b) }

// ruleCheck judges one rule comparing two runs.
type ruleCheck struct {
	c      *Ctx
	fn     *ssa.Function
	paths  []*Path
	r1, r2 *Term
	named  bool // only the properties in a list of names count
	props  *types.Struct
}

// mirror swaps the two runs in a term.
func (k *ruleCheck) mirror(t *Term) *Term {
	switch {
	case t == nil:
		return nil
	case t == k.r1:
		return k.r2
	case t == k.r2:
		return k.r1
	case len(t.args) == 0:
		return t
	}
	as := make([]*Term, len(t.args))
	same := true
	for i, a := range t.args {
		as[i] = k.mirror(a)
		same = same && as[i] == a
	}
	if same {
		return t
	}
	return mk(t.op, t.sym, t.typ, as...)
}

func truth(f *Facts, t *Term) (bool, bool) { return f.decide(t) }

func isTrue(f *Facts, ts ...*Term) bool {
	for _, t := range ts {
		if v, ok := truth(f, t); ok && v {
			return true
		}
	}
	return false
}
func isFalse(f *Facts, ts ...*Term) bool {
	for _, t := range ts {
		if v, ok := truth(f, t); ok && !v {
			return true
		}
	}
	return false
}

// settle draws the conclusions from facts saying that two truths are alike or differ.
func settle(f *Facts) *Facts {
	f = f.clone()
	for again := true; again; {
		again = false
		for t, v := range f.bools {
			if t.op != "bin" || t.sym != "==" {
				continue
			}
			for i := 0; i < 2; i++ {
				a, b := t.args[i], t.args[1-i]
				if w, ok := f.bools[a]; ok {
					if _, ok := f.bools[b]; !ok && b.op == "call" {
						f.bools[b] = w == v
						again = true
					}
				}
				if n, ok := f.nilf[a]; ok && n && !v {
					if _, ok := f.nilf[b]; !ok && b.op == "ld" {
						f.nilf[b] = false
						again = true
					}
				}
			}
			if again {
				break
			}
		}
	}
	return f
}

// sameVal: the ways of saying that the reflected values a and b are equal.
func sameVal(a, b *Term) []*Term {
	ia, ib := call1(rv+"Interface", a), call1(rv+"Interface", b)
	return []*Term{
		call1(rv+"Equal", a, b), call1(rv+"Equal", b, a),
		eqT(ia, ib), eqT(ib, ia),
		call1("reflect.DeepEqual", ia, ib), call1("reflect.DeepEqual", ib, ia),
	}
}

// zero: the ways of saying that the reflected pointer a is nil.
func zero(a *Term) []*Term { return []*Term{call1(rv+"IsZero", a), call1(rv+"IsNil", a)} }

// pointees: the ways of naming what the reflected pointer a points to.
func pointees(a *Term) []*Term { return []*Term{call1(rv+"Elem", a), call1("reflect.Indirect", a)} }

// fieldWalk: a loop over the fields of a reflected struct, as seen from one path.
type fieldWalk struct {
	w     *Walk
	ph    *ssa.Phi
	idx   *Term // the field of the current round
	start int64 // the lowest index looked at
	done  bool
}

func (w *fieldWalk) steps(r *Path) bool {
	if w.w != nil {
		return w.w.steps(r)
	}
	return r.phis[w.ph] == addConst(w.idx, -1)
}

// fieldLoop: on q, the loop le goes over the fields of the reflected struct v, upwards or downwards.
func (k *ruleCheck) fieldLoop(q *Path, le *LoopEntry, v *Term) *fieldWalk {
	m := k.mirror(v)
	count := func(t *Term) bool {
		if t == call1(rv+"NumField", v) || t == call1(rv+"NumField", m) {
			return true
		}
		n, isK := t.intVal()
		return isK && v.op == "call" && len(v.args) == 1 && k.isProps(v.args[0]) && n == int64(k.props.NumFields())
	}
	w := walkOf(q, le)
	if w != nil && !w.eat && !w.grow && w.bound != nil && isIntT(w.ph.Type()) && count(w.bound) {
		if i0, isK := le.init[w.ph].intVal(); isK {
			_, o := lin(w.idx)
			return &fieldWalk{w: w, ph: w.ph, idx: w.idx, start: i0 + o, done: w.done}
		}
	}
	for ph, g := range le.phis {
		if !isIntT(ph.Type()) || !count(addConst(le.init[ph], 1)) {
			continue
		}
		iv := q.st.facts.interval(g)
		switch {
		case iv.hasLo:
			return &fieldWalk{ph: ph, idx: g, start: iv.lo}
		case iv.hasHi:
			return &fieldWalk{ph: ph, idx: g, start: iv.hi + 1, done: true}
		}
	}
	return nil
}

// isProps: t is the reflected pointer to the properties of a run.
func (k *ruleCheck) isProps(t *Term) bool {
	return t.op == "call" && t.sym == "reflect.ValueOf" && len(t.args) == 1 && k.propsOf(t.args[0]) != nil
}

// propsOf: t is the properties pointer of one of the runs.
func (k *ruleCheck) propsOf(t *Term) *Term {
	for t.op == "iface" || t.op == "chtype" {
		t = t.args[0]
	}
	if t.op == "ld" && t.args[0].op == "fa" && lastField(t.args[0]) == "RunProperties" && (t.args[0].args[0] == k.r1 || t.args[0].args[0] == k.r2) {
		return t
	}
	return nil
}

// agree: path x knows that the property reflected by a is the same in both runs.
func (k *ruleCheck) agree(x *Path, f *Facts, a *Term) string {
	b := k.mirror(a)
	if isTrue(f, zero(a)...) && isTrue(f, zero(b)...) || isTrue(f, sameVal(a, b)...) {
		return ""
	}
	if !isFalse(f, zero(a)...) || !isFalse(f, zero(b)...) {
		return "whether both runs have it is not settled"
	}
	why := "its fields are not all compared"
	for _, ea := range pointees(a) {
		eb := k.mirror(ea)
		if isTrue(f, sameVal(ea, eb)...) {
			return ""
		}
		for _, e := range []*Term{ea, eb} {
			if iv := f.interval(call1(rv+"NumField", e)); iv.hasHi && iv.hi <= 1 {
				return ""
			}
		}
		for _, ev := range loopEvents(x) {
			w := k.fieldLoop(x, ev.entry, ea)
			if w == nil {
				continue
			}
			if !w.done {
				why = "the comparison of its fields is left early"
				continue
			}
			if w.start < 0 || w.start > 1 {
				why = "the comparison does not start with the first field after its name"
				continue
			}
			bad := ""
			for _, r := range roundsOf(k.paths, ev.entry) {
				k.c.n("field_rounds")
				rw := k.fieldLoop(r, ev.entry, ea)
				if rw == nil || !rw.steps(r) {
					bad = "a round does not move on by one field"
					break
				}
				if !isTrue(r.st.facts, sameVal(call1(rv+"Field", ea, rw.idx), call1(rv+"Field", eb, rw.idx))...) {
					bad = "a field is passed over without being equal in both"
					break
				}
			}
			if bad == "" {
				return ""
			}
			why = bad
		}
	}
	return why
}

// agreeField: path x knows, without reflection, that field i of the properties is the same in both runs.
func (k *ruleCheck) agreeField(x *Path, f *Facts, p1 *Term, i int) bool {
	l1 := k.c.e.load0(x.st, fieldLoc(p1, k.props.Field(i).Name()))
	l2 := k.mirror(l1)
	if f.isNil(l1) && f.isNil(l2) || isTrue(f, eqT(l1, l2), eqT(l2, l1)) {
		return true
	}
	if !f.nonNil(l1) || !f.nonNil(l2) {
		return false
	}
	pt, ok := k.props.Field(i).Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for j := 0; j < s.NumFields(); j++ {
		if s.Field(j).Name() == "XMLName" {
			continue
		}
		a := k.c.e.load0(x.st, fieldLoc(l1, s.Field(j).Name()))
		b := k.mirror(a)
		if !isTrue(f, eqT(a, b), eqT(b, a)) {
			return false
		}
	}
	return true
}

// holds: path x may say that the runs can be joined.
func (k *ruleCheck) holds(x *Path, f *Facts) string {
	for _, r := range []*Term{k.r1, k.r2} {
		if !f.nonNil(r) {
			return "one of the runs may be missing"
		}
	}
	p1 := k.c.e.load0(x.st, fieldLoc(k.r1, "RunProperties"))
	p2 := k.mirror(p1)
	if isTrue(f, eqT(p1, p2), eqT(p2, p1)) || f.isNil(p1) && f.isNil(p2) {
		return ""
	}
	if f.isNil(p1) || f.isNil(p2) {
		return "only one of the runs has properties"
	}
	for k2, v := range f.bools {
		if v && k2.op == "call" && k2.sym == "reflect.DeepEqual" && len(k2.args) == 2 && k.mirror(k2.args[0]) == k2.args[1] && k.propsOf(k2.args[0]) != nil {
			return ""
		}
	}
	why := "the properties are not compared"
	for _, ev := range loopEvents(x) {
		s := k.loop(x, f, ev.entry)
		if s == "" {
			return ""
		}
		if s != "-" {
			why = s
		}
	}
	if !k.named {
		all := true
		for i := 0; i < k.props.NumFields() && all; i++ {
			if k.props.Field(i).Name() != "XMLName" {
				all = k.agreeField(x, f, p1, i)
			}
		}
		if all {
			return ""
		}
	}
	return why
}

// loop: on x, the loop le has found every property that counts to be the same ("-": it is not such a loop).
func (k *ruleCheck) loop(x *Path, f *Facts, le *LoopEntry) string {
	rounds := roundsOf(k.paths, le)
	if w := walkOf(x, le); k.named && w != nil && w.src != nil && w.src.op != "obj" {
		if !w.done {
			return "the comparison is left before the last name"
		}
		if !w.first {
			return "the comparison does not start with the first name"
		}
		for _, r := range rounds {
			k.c.n("name_rounds")
			rw := walkOf(r, le)
			if rw == nil || !rw.steps(r) {
				return "a round does not move on by one name"
			}
			if s := k.nameRound(r, rw); s != "" {
				return "a named property is passed over: " + s
			}
		}
		if len(rounds) == 0 {
			return "no name is looked at"
		}
		return ""
	}
	for _, ev := range x.ev() {
		if ev.kind == "call" && ev.sym == "reflect.ValueOf" && len(ev.res) == 1 && k.isProps(ev.res[0]) {
			pv := ev.res[0]
			for _, v := range pointees(pv) {
				w := k.fieldLoop(x, le, v)
				if w == nil {
					continue
				}
				if !w.done {
					return "the comparison is left before the last property"
				}
				if w.start < 0 || w.start > 1 {
					return "the comparison does not start with the first property"
				}
				if len(rounds) == 0 {
					return "no property is looked at"
				}
				for _, r := range rounds {
					k.c.n("property_rounds")
					rw := k.fieldLoop(r, le, v)
					if rw == nil || !rw.steps(r) {
						return "a round does not move on by one property"
					}
					a := call1(rv+"Field", v, rw.idx)
					if w.start == 0 && r.st.facts.interval(rw.idx).hasHi && r.st.facts.interval(rw.idx).hi == 0 {
						continue
					}
					if s := k.agree(r, settle(r.st.facts), a); s != "" {
						return "a property is passed over: " + s
					}
				}
				return ""
			}
		}
	}
	return "-"
}

// nameRound: the round r of a loop over names passes over a name only with reason.
func (k *ruleCheck) nameRound(r *Path, w *Walk) string {
	why := "it is not looked at"
	f := settle(r.st.facts)
	for _, ev := range roundEvents(r) {
		if ev.kind != "call" || ev.sym != rv+"FieldByName" || len(ev.res) == 0 || len(ev.a) != 2 {
			continue
		}
		a, n := ev.res[0], ev.a[1]
		if !isElem(n, w.list, w.idx) {
			continue
		}
		if s, ok := f.strSet(n); ok && len(s) == 1 && s[0] == "XMLName" {
			return ""
		}
		b := k.mirror(a)
		if isFalse(f, call1(rv+"IsValid", a), call1(rv+"IsValid", b)) {
			return ""
		}
		s := k.agree(r, f, a)
		if s == "" {
			return ""
		}
		why = s
	}
	// the name is not that of a property
	for t := range f.in {
		if isElem(t, w.list, w.idx) {
			if s, ok := f.strSet(t); ok && len(s) == 1 && s[0] == "XMLName" {
				return ""
			}
		}
	}
	return why
}

// differ: path x knows of a difference that keeps the runs apart.
func (k *ruleCheck) differ(x *Path, f *Facts) bool {
	if f.isNil(k.r1) || f.isNil(k.r2) {
		return true
	}
	for t, v := range f.nilf {
		if m := k.mirror(t); m != t && v {
			if w, ok := f.nilf[m]; ok && !w {
				return true
			}
		}
	}
	for t, v := range f.bools {
		switch {
		case t.op == "call" && (t.sym == rv+"IsZero" || t.sym == rv+"IsNil" || t.sym == rv+"IsValid"):
			if w, ok := f.bools[k.mirror(t)]; ok && w != v && k.mirror(t) != t {
				return true
			}
		case t.op == "call" && (t.sym == rv+"Equal" || t.sym == "reflect.DeepEqual") && !v && len(t.args) == 2 && k.mirror(t.args[0]) == t.args[1]:
			if t.sym == "reflect.DeepEqual" || inner(t.args[0]) {
				return true
			}
		case t.op == "bin" && t.sym == "==" && !v && k.mirror(t.args[0]) == t.args[1]:
			a := t.args[0]
			if a.op == "call" && (a.sym == rv+"IsZero" || a.sym == rv+"IsNil" || a.sym == rv+"IsValid") {
				return true
			}
			if a.op == "call" && a.sym == rv+"Interface" && inner(a.args[0]) {
				return true
			}
			if a.op == "ld" && a.typ != nil {
				if _, isP := a.typ.Underlying().(*types.Pointer); !isP {
					return true
				}
			}
		}
	}
	return false
}

// inner: a is a reflected field of what a reflected property points to (or that whole).
func inner(a *Term) bool {
	if a.op == "call" && a.sym == rv+"Field" {
		e := a.args[0]
		return e.op == "call" && (e.sym == rv+"Elem" || e.sym == "reflect.Indirect") && e.args[0].op == "call" && e.args[0].sym != "reflect.ValueOf"
	}
	return a.op == "call" && (a.sym == rv+"Elem" || a.sym == "reflect.Indirect") && a.args[0].op == "call" && a.args[0].sym != "reflect.ValueOf"
}

func (k *ruleCheck) run() {
	for _, x := range k.paths {
		if x.outcome != "return" || len(x.rets) != 1 {
			continue
		}
		ret := x.rets[0]
		for _, val := range []bool{true, false} {
			f := x.st.facts
			if b, ok := f.decide(ret); ok {
				if b != val {
					continue
				}
			} else {
				f = f.clone()
				if !f.assume(ret, val) {
					continue
				}
			}
			f = settle(f)
			if val {
				k.c.n("joining_paths")
				if s := k.holds(x, f); s != "" {
					k.c.fail("joins", k.fn, nil, s, "runs whose properties differ may be joined: %s", s)
				}
			} else {
				k.c.n("separating_paths")
				if !k.differ(x, f) {
					k.c.fail("separates", k.fn, nil, "", "runs are kept apart although no difference was found")
				}
			}
		}
	}
}

func checkC33(c *Ctx) string {
	rule := "a path of the merge rules says yes only when both runs exist and their properties are the same object, both missing, or found equal one by one by a loop that goes over every property (or every given name) from the first to the last, each of whose rounds passes on only if both lack the property or every field of it is equal; it says no only when it knows a difference"
	props := c.p.namedType("RunProperties")
	if props == nil {
		c.fail("subject", nil, nil, "", "the type RunProperties is gone")
		return rule
	}
	st := props.Underlying().(*types.Struct)
	// loops may leave out the first field only because it is the name
	name := func(s *types.Struct, what string) {
		c.n("property_types")
		if s.NumFields() > 0 && s.Field(0).Name() != "XMLName" {
			c.fail("first-field", nil, nil, what, "the first field of %s, which the comparing loops leave out, is not its name", what)
		}
	}
	name(st, "RunProperties")
	for i := 0; i < st.NumFields(); i++ {
		if pt, ok := st.Field(i).Type().Underlying().(*types.Pointer); ok {
			if s, ok := pt.Elem().Underlying().(*types.Struct); ok {
				name(s, st.Field(i).Name())
			}
		}
	}
	one := func(fn *ssa.Function, named bool) {
		if fn == nil || len(fn.Params) != 2 {
			return
		}
		c.n("rules")
		k := &ruleCheck{c: c, fn: fn, paths: c.paths(fn), named: named, props: st}
		for _, x := range k.paths {
			for _, ev := range x.ev() {
				if ev.kind == "call" && ev.sym == "reflect.ValueOf" && len(ev.res) == 1 {
					rvType = ev.res[0].typ
				}
			}
		}
		k.r1, k.r2 = mk("param", fn.Params[0].Name(), fn.Params[0].Type()), mk("param", fn.Params[1].Name(), fn.Params[1].Type())
		k.run()
	}
	one(c.p.fn("MergeSamePropRuns"), false)
	if of := c.p.fn("MergeSamePropRunsOf"); of != nil {
		for _, a := range of.AnonFuncs {
			if a.Signature.Params().Len() == 2 && a.Signature.Results().Len() == 1 && tstr(a.Signature.Results().At(0).Type()) == "bool" {
				one(a, true)
			}
		}
	}
	// the rule that joins everything
	if fn := c.p.fn("MergeAllRuns"); fn != nil {
		for _, q := range c.paths(fn) {
			if q.outcome != "return" || len(q.rets) != 1 {
				continue
			}
			c.n("all_runs")
			if v, known := q.st.facts.decide(q.rets[0]); !known || !v {
				c.fail("all", fn, lastInstr(q), "no", "the rule that joins all runs may say no")
			}
		}
		c.atLeast("all_runs", 1)
	}
	c.atLeast("rules", 2)
	c.atLeast("joining_paths", 4)
	c.atLeast("separating_paths", 6)
	return rule
}

// ---------------------------------------------------------------- C35

func checkC35(c *Ctx) string {
	rule := "every path of the rule renders the paragraph it is given with its own String, asks the given pattern whether it matches the whole of that, and returns the answer"
	of := c.p.fn("SplitDocxByPlainTextRegex")
	str := c.p.method("Paragraph", "String")
	if of == nil || str == nil {
		c.fail("anchor", nil, nil, "rule", "the rule for patterns or the rendering of paragraphs is gone")
		return rule
	}
	var rules []*ssa.Function
	for _, a := range of.AnonFuncs {
		if escapesAsResult(a) {
			rules = append(rules, a)
		}
	}
	for _, q := range c.paths(of) {
		if q.outcome == "return" && len(q.rets) == 1 && q.rets[0].op != "closure" {
			c.fail("rule", of, lastInstr(q), "result", "the rule returned is not one of the function's own")
		}
	}
	for _, fn := range rules {
		c.n("rules")
		if len(fn.Params) != 1 {
			continue
		}
		p := mk("param", fn.Params[0].Name(), fn.Params[0].Type())
		for _, q := range c.paths(fn) {
			if q.outcome != "return" || len(q.rets) != 1 {
				continue
			}
			c.n("answers")
			// what the paragraph renders as
			var shown []*Term
			type open struct{ mine bool }
			var st []open
			for _, ev := range q.ev() {
				switch {
				case ev.kind == "enter":
					st = append(st, open{ev.callee == str && len(ev.a) > 0 && ev.a[0] == p})
				case ev.kind == "leave" && len(st) > 0:
					if st[len(st)-1].mine && len(ev.res) == 1 {
						shown = append(shown, ev.res[0])
					}
					st = st[:len(st)-1]
				case ev.kind == "call" && ev.callee == str && len(ev.a) > 0 && ev.a[0] == p:
					shown = append(shown, ev.res[0])
				}
			}
			ok, known := false, false
			for _, ev := range q.ev() {
				if ev.kind != "call" || len(ev.a) != 2 || len(ev.res) != 1 || !c.givenPattern(fn, ev.a[0]) {
					continue
				}
				x := ev.a[1]
				if strings.HasSuffix(ev.sym, "regexp.Regexp).Match") {
					for x.op == "conv" || x.op == "chtype" {
						x = x.args[0]
					}
				} else if !strings.HasSuffix(ev.sym, "regexp.Regexp).MatchString") && !strings.HasSuffix(ev.sym, "regexp.Regexp).FindStringIndex") {
					continue
				}
				if !slices.Contains(shown, x) {
					continue
				}
				known = true
				yes := ev.res[0]
				var says, has bool
				if strings.HasSuffix(ev.sym, "FindStringIndex") {
					if r := q.rets[0]; r.contains(func(t *Term) bool { return t == yes }) {
						f1, f2 := q.st.facts.clone(), q.st.facts.clone()
						f1.setNil(yes, true)
						f2.setNil(yes, false)
						a, k1 := f1.decide(r)
						b, k2 := f2.decide(r)
						ok = ok || k1 && !a && k2 && b
					}
					if q.st.facts.isNil(yes) {
						says, has = false, true
					} else if q.st.facts.nonNil(yes) {
						says, has = true, true
					}
				} else if q.rets[0] == yes {
					ok = true
				} else {
					says, has = q.st.facts.decide(yes)
				}
				if has && q.rets[0] == mkBool(says) {
					ok = true
				}
			}
			switch {
			case !known:
				c.fail("rule", fn, lastInstr(q), "unasked", "a path answers without asking the pattern about what the paragraph shows")
			case !ok:
				c.fail("rule", fn, lastInstr(q), "answer", "a path gives another answer than the pattern")
			}
		}
	}
	c.atLeast("rules", 1)
	c.atLeast("answers", 1)
	return rule
}

// givenPattern: t is the pattern the rule was made with.
func (c *Ctx) givenPattern(fn *ssa.Function, t *Term) bool {
	for _, f := range fn.FreeVars {
		if t.mentions(mk("free", f.Name(), f.Type())) {
			return true
		}
	}
	return t.op == "free" || t.op == "ld" && t.args[0].op == "free"
}
