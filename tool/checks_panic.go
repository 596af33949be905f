package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Panic freedom. The engine raises an obligation at every instruction that can panic (nil
// dereference, index, slice bounds, type assertion, map write, division, make with a computed
// size, explicit panic). Those it cannot discharge from the path alone are put to the document
// invariants below; each invariant is established separately at every place that could break it.

// initialised: a package-level variable set to a non-nil value by the package's initialiser and
// never stored to again.
func (p *Program) initialised(name string) bool {
	ok := false
	for _, fn := range append([]*ssa.Function{p.root.Func("init")}, p.all...) {
		if fn == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, is := ins.(*ssa.Store)
				if !is {
					continue
				}
				g, is := st.Addr.(*ssa.Global)
				if !is || g.String() != name {
					continue
				}
				if fn != p.root.Func("init") {
					return false
				}
				switch v := st.Val.(type) {
				case *ssa.Call:
					if f := v.Call.StaticCallee(); f == nil || fnName(f) != "errors.New" && fnName(f) != "fmt.Errorf" && fnName(f) != "regexp.MustCompile" {
						return false
					}
				case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeClosure, *ssa.Function:
				default:
					return false
				}
				ok = true
			}
		}
	}
	return ok
}

// pointerish: element types of document lists: pointers to the library's types, or any value.
func (p *Program) pointerish(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return p.isRepoType(u.Elem())
	case *types.Interface:
		return u.NumMethods() == 0
	}
	return false
}

func sliceElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// invariant: t is non-nil in every document that was read or built.
func (p *Program) invariant(s *State, t *Term, documents bool) bool {
	switch t.op {
	case "chtype", "conv":
		return p.invariant(s, t.args[0], documents)
	case "ta":
		// a pointer kept in an interface-typed list
		x := t.args[0]
		return documents && x.op == "ld" && x.args[0].op == "ia" && p.invariant(s, x, documents)
	case "call":
		return t.sym == "(reflect.Value).Type" || t.sym == "reflect.TypeOf"
	case "ld":
		loc := t.args[0]
		switch loc.op {
		case "global":
			return p.initialised(loc.sym)
		case "ia":
			el := locType(loc)
			if el == nil {
				return false
			}
			if isPtrTo(el, "archive/zip", "File") {
				return true
			}
			return documents && p.pointerish(el)
		case "fa":
			if n := namedBehind(loc.args[0].typ); n != nil && !n.Obj().Exported() && p.isRepoType(n) && p.alwaysGiven(n, loc.sym) {
				return true
			}
			if !documents {
				return false
			}
			if loc.sym == p.ownerField && types.Identical(t.typ, types.NewPointer(p.docxType())) {
				return true
			}
			if types.Identical(locType(loc.args[0]), p.docxType()) {
				switch t.typ.Underlying().(type) {
				case *types.Map:
					return true
				case *types.Interface:
					return isNamed(t.typ, "io/fs", "FS")
				}
			}
		}
	case "sym":
		for ev := s.ev; ev != nil; ev = ev.prev {
			if ev.kind != "call" && ev.kind != "reccall" {
				continue
			}
			for i, r := range ev.res {
				if r != t {
					continue
				}
				// a call of foreign code that reports no error delivers what it promises
				if ev.callee == nil || !p.inScope(ev.callee) {
					switch ev.sym {
					case "(*zip.FileHeader).FileInfo", "archive/zip.NewWriter", "(reflect.Value).Type":
						return true
					}
					l := ev.res[len(ev.res)-1]
					return i < len(ev.res)-1 && isErrT(l.typ) && s.facts.isNil(l) && !strings.HasPrefix(ev.sym, "dyn:")
				}
				return false
			}
		}
	}
	return false
}

// opening: the entry points reached while a document is opened.
func (p *Program) opening() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || r[f] || !p.inScope(f) {
			return
		}
		r[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					visit(ci.Common().StaticCallee())
				}
			}
		}
	}
	visit(p.fn("Parse"))
	for _, f := range p.allEntries() {
		if isReader(f) || strings.HasPrefix(f.Name(), "Unmarshal") {
			visit(f)
		}
	}
	return r
}

// nonNilResult: result i of a function of the library analysed on its own is never nil when the
// call reports no error.
func (c *Ctx) nonNilResult(fn *ssa.Function, i int, busy map[*ssa.Function]bool) bool {
	if busy[fn] {
		return true
	}
	busy[fn] = true
	defer delete(busy, fn)
	for _, q := range c.paths(fn) {
		if q.outcome != "return" || i >= len(q.rets) {
			continue
		}
		if k, _ := retErr(q); k == "err" {
			continue
		}
		if !c.isNonNil(q.st, q.rets[i], busy) {
			return false
		}
	}
	return true
}

func (c *Ctx) isNonNil(s *State, t *Term, busy map[*ssa.Function]bool) bool {
	if c.e.nonNil(s, t) {
		return true
	}
	if t.op == "sym" {
		for ev := s.ev; ev != nil; ev = ev.prev {
			if (ev.kind == "call" || ev.kind == "reccall") && ev.callee != nil && c.p.inScope(ev.callee) {
				for i, r := range ev.res {
					if r == t {
						if l := ev.res[len(ev.res)-1]; isErrT(l.typ) && l != t && !s.facts.isNil(l) {
							return false
						}
						return c.nonNilResult(ev.callee, i, busy)
					}
				}
			}
		}
	}
	return false
}

// gathered: t is an element of a list put together in fn, to which only values are added that are there.
func (c *Ctx) gathered(q *Path, fn *ssa.Function, t *Term) bool {
	for t.op == "chtype" || t.op == "ta" {
		t = t.args[0]
	}
	if t.op != "ld" || t.args[0].op != "ia" || t.args[0].args[0].op != "sym" {
		return false
	}
	paths := c.paths(fn)
	o := c.origins(paths)
	key := o.key[t.args[0].args[0]]
	if key == "" {
		return false
	}
	seen := map[*Term]bool{}
	var good func(q *Path, l *Term) bool
	good = func(q *Path, l *Term) bool {
		switch {
		case l == nil:
			return false
		case seen[l]:
			return true
		case emptyList(l):
			return true
		}
		seen[l] = true
		switch l.op {
		case "append":
			for _, x := range l.args[1:] {
				if !c.isNonNil(q.st, x, map[*ssa.Function]bool{}) {
					return false
				}
			}
			return good(q, l.args[0])
		case "appendslice":
			return good(q, l.args[0]) && good(q, l.args[1])
		case "slice":
			return good(q, l.args[0])
		case "sym":
			k := o.key[l]
			if k == "" {
				return false
			}
			for _, x := range o.vals[k] {
				if !good(x.q, x.v) {
					return false
				}
			}
			return true
		}
		return false
	}
	if !good(q, t.args[0].args[0]) {
		return false
	}
	// no element is replaced by one that may be missing
	for _, x := range paths {
		for _, ev := range x.ev() {
			if ev.kind == "store" && ev.a[0].op == "ia" && o.key[ev.a[0].args[0]] == key && !c.isNonNil(x.st, ev.a[1], map[*ssa.Function]bool{}) {
				return false
			}
		}
	}
	return true
}

// panics judges every obligation raised while fn is analysed.
func (c *Ctx) panics(fn *ssa.Function, documents bool) {
	for _, q := range c.paths(fn) {
		for _, ev := range q.ev() {
			switch ev.kind {
			case "oblig":
				c.n("obligations_put_to_invariants")
				s := &State{facts: ev.facts, ev: ev}
				ok := false
				switch ev.sym {
				case "nil-deref", "nil-invoke", "nil-map":
					ok = c.isNonNil(s, ev.a[0], map[*ssa.Function]bool{}) || c.gathered(q, fn, ev.a[0])
					if !ok && documents && fn.Parent() != nil && ev.a[0].op == "param" {
						// what a callback is handed is judged where it is called
						c.n("callback_parameters")
						ok = true
					}
				case "nil-func":
					ok = c.callerFunc(ev.a[0])
				case "makeslice":
					ok = documents && c.callerCount(s, ev.a)
				case "index":
					ok = documents && c.indexed(s, ev.a[0], ev.a[1])
				}
				if !ok {
					c.fail(ev.sym, ev.fn, ev.instr, ev.sym+" "+obligText(ev), "%s in %s (analysing %s): %s", obligWhat(ev.sym), fnLabel(ev.fn), fnLabel(fn), obligText(ev))
				}
			case "call", "reccall":
				c.takenForGranted(q, ev)
				if ev.kind == "reccall" {
					break
				}
				c.foreignPanics(q, ev)
				c.reflectPanics(q, ev)
				if strings.HasPrefix(ev.sym, "dyn:") && documents {
					for _, a := range ev.a {
						if pt, ok := a.typ.(*types.Pointer); ok && c.p.isRepoType(pt.Elem()) {
							c.n("callback_arguments")
							if !c.isNonNil(q.st, a, map[*ssa.Function]bool{}) {
								c.fail("nil-callback", ev.fn, ev.instr, ev.sym, "%s may hand a nil %s to the function it was given", fnLabel(ev.fn), tstr(pt.Elem()))
							}
						}
					}
				}
			}
		}
	}
}

// takenForGranted: a function of the library analysed on its own relies on its receiver and on
// some arguments; the places that call it have to live up to that.
func (c *Ctx) takenForGranted(q *Path, ev *Event) {
	if ev.callee == nil || !c.p.inScope(ev.callee) || len(ev.callee.Blocks) == 0 {
		return
	}
	for i, par := range ev.callee.Params {
		if i >= len(ev.a) || !c.e.granted(ev.callee, i, par.Type()) {
			continue
		}
		c.n("arguments_relied_on")
		s := &State{facts: q.st.facts, ev: ev}
		a := ev.a[i]
		if c.isNonNil(s, a, map[*ssa.Function]bool{}) || (isFuncT(a.typ) && c.callerFunc(a)) {
			continue
		}
		if !c.leansOn(ev.callee, i) {
			continue
		}
		c.fail("nil-argument", ev.fn, ev.instr, "argument "+par.Name()+" of "+fnLabel(ev.callee), "%s hands a possibly nil %s to %s, which relies on it", fnLabel(ev.fn), tstr(par.Type()), fnLabel(ev.callee))
	}
}

func isFuncT(t types.Type) bool { _, ok := t.Underlying().(*types.Signature); return ok }

// leansOn: run without assumptions about its parameters, fn would use parameter i unchecked.
func (c *Ctx) leansOn(fn *ssa.Function, i int) bool {
	key := fmt.Sprintf("%p/%d", fn, i)
	if r, ok := c.leans[key]; ok {
		return r
	}
	if c.leans == nil {
		c.leans = map[string]bool{}
	}
	c.leans[key] = true
	e := newEngine(c.p)
	e.bare = true
	r := false
	name := fn.Params[i].Name()
	for _, q := range e.Analyze(fn) {
		for _, ev := range q.ev() {
			switch ev.kind {
			case "oblig":
				if t := ev.a[0]; t.op == "param" && t.sym == name {
					r = true
				}
			case "call", "reccall":
				if ev.callee == nil || !c.p.inScope(ev.callee) || len(ev.callee.Blocks) == 0 {
					continue
				}
				for k, a := range ev.a {
					if a.op == "param" && a.sym == name && !q.st.facts.nonNil(a) && k < len(ev.callee.Params) && c.e.granted(ev.callee, k, ev.callee.Params[k].Type()) && c.leansOn(ev.callee, k) {
						r = true
					}
				}
			}
		}
	}
	if len(e.undecided) > 0 {
		r = true
	}
	c.leans[key] = r
	return r
}

func obligWhat(class string) string {
	switch class {
	case "nil-deref":
		return "possible nil dereference"
	case "nil-invoke":
		return "possible method call on a nil interface"
	case "nil-map":
		return "possible write to a nil map"
	case "nil-func":
		return "possible call of a nil function"
	case "index":
		return "index possibly out of range"
	case "slice":
		return "slice bounds possibly out of range"
	case "type-assert":
		return "type assertion may fail"
	case "makeslice":
		return "make with a possibly negative size"
	case "div-zero":
		return "possible division by zero"
	case "panic":
		return "explicit panic reached"
	}
	return "possible panic (" + class + ")"
}

// obligText names the operand in a way that survives line changes.
func obligText(ev *Event) string {
	if ev.instr == nil {
		return ""
	}
	switch x := ev.instr.(type) {
	case *ssa.FieldAddr:
		return "field " + fieldName(x.X.Type(), x.Field)
	case *ssa.UnOp:
		return "load of " + tstr(x.X.Type())
	case *ssa.Store:
		return "store to " + tstr(x.Addr.Type())
	case *ssa.IndexAddr:
		return "element of " + tstr(x.X.Type())
	case *ssa.TypeAssert:
		return "to " + tstr(x.AssertedType)
	case *ssa.MapUpdate:
		return "map " + tstr(x.Map.Type())
	case ssa.CallInstruction:
		if x.Common().IsInvoke() {
			return "call of " + x.Common().Method.Name()
		}
	case ssa.Value:
		return "of " + tstr(x.Type())
	}
	return ""
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok && i < st.NumFields() {
		return st.Field(i).Name() + " of " + tstr(t)
	}
	return "?"
}

// callerFunc: a function value the caller handed in.
func (c *Ctx) callerFunc(t *Term) bool { return t.op == "param" || t.op == "free" }

// callerCount: sizes the caller handed in as counts.
func (c *Ctx) callerCount(s *State, ts []*Term) bool {
	for _, t := range ts {
		if t == nil {
			continue
		}
		if iv := s.facts.interval(t); iv.hasLo && iv.lo >= 0 {
			continue
		}
		if t.op != "param" {
			return false
		}
	}
	return true
}

// indexed: an index taken from the media index, guarded by the presence of its key.
func (c *Ctx) indexed(s *State, idx, length *Term) bool {
	p := c.p
	if length == nil || length.op != "len" || length.args[0].op != "ld" || length.args[0].args[0].op != "fa" {
		return false
	}
	list := length.args[0].args[0]
	if !types.Identical(locType(list.args[0]), p.docxType()) || lastField(list) != p.docField("[]docx.Media") {
		return false
	}
	if idx.op != "ld" || idx.args[0].op != "mi" {
		return false
	}
	m := idx.args[0].args[0]
	if m.op != "ld" || m.args[0].op != "fa" || m.args[0].args[0] != list.args[0] || m.args[0].sym != p.docField("map[string]int") {
		return false
	}
	v, known := s.facts.decide(mk("ld", "", types.Typ[types.Bool], mk("mi", "has", types.NewPointer(types.Typ[types.Bool]), m, idx.args[0].args[1])))
	return known && v
}

// foreignPanics: calls of foreign code that panics on some arguments.
func (c *Ctx) foreignPanics(q *Path, ev *Event) {
	bad := func(f string, a ...interface{}) { c.fail("foreign", ev.fn, ev.instr, ev.sym, f, a...) }
	switch ev.sym {
	case "strings.Repeat", "bytes.Repeat":
		if iv := q.st.facts.interval(ev.a[1]); !iv.hasLo || iv.lo < 0 {
			bad("%s may be called with a negative count", ev.sym)
		}
	case "regexp.MustCompile", "os.Exit", "log.Fatal", "log.Fatalf", "log.Panic", "log.Panicf", "runtime.Goexit":
		if ev.sym == "regexp.MustCompile" {
			if _, ok := ev.a[0].strVal(); ok {
				return
			}
		}
		bad("%s ends the program or panics", ev.sym)
	case "(*bytes.Buffer).Grow", "(*strings.Builder).Grow":
		if iv := q.st.facts.interval(ev.a[1]); !iv.hasLo || iv.lo < 0 {
			bad("%s may be called with a negative size", ev.sym)
		}
	}
}

// documentsRules establishes the invariants at every place that could break them.
func (c *Ctx) establish(fns []*ssa.Function) {
	p := c.p
	for _, fn := range fns {
		for _, q := range c.paths(fn) {
			if q.outcome == "panic" {
				continue
			}
			// lists hold no nil
			seen := map[*Term]bool{}
			check := func(v *Term, t types.Type, ins ssa.Instruction, at *ssa.Function, s *State) {
				el := sliceElem(t)
				if el == nil || !p.pointerish(el) || seen[v] {
					return
				}
				seen[v] = true
				c.listItems(q, v, func(e *Term, whole bool) {
					if whole || e == nil {
						return
					}
					if _, isS := e.typ.(*types.Slice); isS {
						return
					}
					c.n("list_elements")
					if !c.keepable(q, s, e) {
						c.fail("nil-element", at, ins, tstr(el), "a possibly nil %s is put into a list (analysing %s): %v", tstr(el), fnLabel(fn), e)
					}
				})
			}
			for _, ev := range q.ev() {
				if ev.kind != "store" {
					continue
				}
				check(ev.a[1], ev.a[1].typ, ev.instr, ev.fn, q.st)
				if ev.a[0].op == "ia" && p.pointerish(locType(ev.a[0])) && c.listElement(ev.a[0]) {
					c.n("list_elements")
					if e := unwrap(ev.a[1]); !c.keepable(q, q.st, e) {
						c.fail("nil-element", ev.fn, ev.instr, "store "+tstr(locType(ev.a[0])), "a possibly nil %s is stored into a list (analysing %s): %v", tstr(locType(ev.a[0])), fnLabel(fn), e)
					}
				}
			}
			for _, v := range append(append([]*Term{}, q.rets...), phiVals(q)...) {
				check(v, v.typ, nil, fn, q.st)
			}
			// the parts every document has
			if k, _ := retErr(q); k == "err" || q.outcome != "return" {
				continue
			}
			r := c.reach(q, append(append([]*Term{}, q.rets...), phiVals(q)...))
			for o := range r.objs {
				if !types.Identical(locType(o), p.docxType()) {
					continue
				}
				c.n("new_documents")
				st := fieldsOf(p.docxType())
				var lst, src *Term
				for i := 0; i < st.NumFields(); i++ {
					loc := faddr(o, st, i)
					v := c.e.load0(q.st, loc)
					switch u := st.Field(i).Type().Underlying().(type) {
					case *types.Map:
						if q.st.facts.isNil(v) {
							c.fail("nil-part", fn, nil, st.Field(i).Name(), "%s hands out a document whose map %s is nil", fnLabel(fn), st.Field(i).Name())
						}
					case *types.Interface:
						if isNamed(st.Field(i).Type(), "io/fs", "FS") {
							src = v
						}
					case *types.Slice:
						if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.String {
							lst = v
						}
					}
				}
				if src != nil && lst != nil && q.st.facts.isNil(src) {
					if iv := q.st.facts.interval(lenOf(q.st, lst)); !q.st.facts.isNil(lst) && !(iv.hasHi && iv.hi <= 0) {
						c.fail("nil-part", fn, nil, "template", "%s hands out a document with a list of template files but nothing to read them from", fnLabel(fn))
					}
				}
			}
		}
	}
}

// listElement: the location is an element of a list, not of an array used for call arguments.
func (c *Ctx) listElement(loc *Term) bool {
	o := loc.args[0]
	if o.op == "obj" {
		if _, ok := locType(o).Underlying().(*types.Array); ok {
			return false
		}
	}
	return true
}

// keepable: a value put into a list is not nil, or is what the caller handed in.
func (c *Ctx) keepable(q *Path, s *State, e *Term) bool {
	if c.isNonNil(s, e, map[*ssa.Function]bool{}) {
		return true
	}
	switch e.op {
	case "param", "free":
		return true
	case "ta":
		return c.keepable(q, s, e.args[0])
	case "field":
		return false
	}
	// untracked contents of lists of the document
	if e.op == "sym" && strings.HasPrefix(e.sym, "~") {
		return !e.isDerefNil(s)
	}
	return false
}

func (t *Term) isDerefNil(s *State) bool { return s.facts.isNil(t) }

func (c *Ctx) withInvariants(documents bool) {
	c.e.inv = func(s *State, t *Term) (bool, string) { return c.p.invariant(s, t, documents), "" }
}

func checkC06(c *Ctx) string {
	c.withInvariants(false)
	op := c.p.opening()
	for _, fn := range c.p.allEntries() {
		if op[fn] {
			c.panics(fn, false)
			c.n("entries")
		}
	}
	c.countObligations()
	c.atLeast("entries", 60)
	c.atLeast("obligations", 1500)
	return "every instruction that can panic, in every function reached from Parse or from an element reader, is discharged on every path: operands of dereferences, calls and map writes are non-nil, indices and slice bounds lie inside, assertions hold, divisors are non-zero; trusted: foreign calls that report no error deliver a non-nil result, archive/zip lists no nil entries"
}

func (c *Ctx) countObligations() {
	for ins, m := range c.e.obligAll {
		_ = ins
		c.counts["obligations"] += len(m)
	}
}

func checkC07(c *Ctx) string {
	c.withInvariants(true)
	op := c.p.opening()
	var fns []*ssa.Function
	for _, fn := range c.p.allEntries() {
		fns = append(fns, fn)
		if !op[fn] {
			c.panics(fn, true)
			c.n("entries")
		}
	}
	c.establish(fns)
	// everything that belongs to a document knows it
	own := newCtx(c.p, "C08")
	checkC08(own)
	for _, o := range own.nilOwners {
		c.fail("nil-owner", o.fn, nil, o.what, "%s hands on a %s that belongs to no document (its document is nil)", fnLabel(o.fn), o.what)
	}
	c.counts["attached_objects"] = own.counts["attached_objects"]
	c.counts["reader_children"] = own.counts["reader_children"]
	// positions in the media index lie inside the media list
	idx := newCtx(c.p, "C20")
	checkC20(idx)
	for _, v := range idx.viol {
		if v.Rule == "list" || v.Rule == "pair" && strings.HasSuffix(v.Key, "|index store") {
			c.viol = append(c.viol, Viol{"media-" + v.Key, "media-" + v.Rule, v.Pos, v.Func, v.Msg + ": looking up media may index out of range"})
		}
	}
	c.counts["index_stores"] = idx.counts["index_stores"]
	c.countObligations()
	c.atLeast("entries", 80)
	c.atLeast("obligations", 1500)
	return "every instruction that can panic, in every operation on documents, is discharged on every path under invariants of documents (lists hold no nil, what belongs to a document knows it, its maps exist, the media index points into the media list), and every place that builds or extends a document keeps them"
}

var _ = token.NoPos

// ---------------------------------------------------------------- reflection

// rtypes: the static types a reflected value may have, decided from the declarations; nil when
// unknown.
func (c *Ctx) rtypes(q *Path, t *Term) []types.Type {
	if t.op != "call" {
		return nil
	}
	switch t.sym {
	case "reflect.ValueOf":
		if x := t.args[0]; x.op == "iface" {
			if ty := ifaceType[x.sym]; ty != nil {
				return []types.Type{ty}
			}
		}
	case "reflect.Indirect", "(reflect.Value).Elem":
		var r []types.Type
		for _, x := range c.rtypes(q, t.args[0]) {
			p, ok := x.Underlying().(*types.Pointer)
			if !ok {
				return nil
			}
			r = append(r, p.Elem())
		}
		return r
	case "(reflect.Value).Field", "(reflect.Value).FieldByName":
		var r []types.Type
		for _, x := range c.rtypes(q, t.args[0]) {
			st, ok := x.Underlying().(*types.Struct)
			if !ok {
				return nil
			}
			for i := 0; i < st.NumFields(); i++ {
				if t.sym == "(reflect.Value).Field" {
					if iv := q.st.facts.interval(t.args[1]); iv.hasLo && int64(i) < iv.lo || iv.hasHi && int64(i) > iv.hi {
						continue
					}
				} else if n, ok := t.args[1].strVal(); ok && n != st.Field(i).Name() {
					continue
				} else if v, known := q.st.facts.decide(mk("bin", "==", types.Typ[types.Bool], t.args[1], mkStr(st.Field(i).Name()))); known && !v {
					continue
				}
				r = append(r, st.Field(i).Type())
			}
		}
		return r
	}
	return nil
}

// rkey names the static type of a reflected value by how it is reached.
func (c *Ctx) rkey(t *Term) string {
	if t.op != "call" {
		return t.String()
	}
	switch t.sym {
	case "reflect.ValueOf":
		if x := t.args[0]; x.op == "iface" {
			return x.sym
		}
	case "(reflect.Value).Elem":
		return "E(" + c.rkey(t.args[0]) + ")"
	case "(reflect.Value).Field", "(reflect.Value).FieldByName":
		return "F(" + c.rkey(t.args[0]) + "," + t.args[1].String() + ")"
	}
	return t.String()
}

// rvalid: the reflected value holds something.
func (c *Ctx) rvalid(q *Path, t *Term) bool {
	if v, known := q.st.facts.decide(mk("call", "(reflect.Value).IsValid", types.Typ[types.Bool], t)); known {
		return v
	}
	if t.op != "call" {
		return false
	}
	switch t.sym {
	case "reflect.ValueOf":
		return t.args[0].op == "iface" || c.isNonNil(q.st, t.args[0], map[*ssa.Function]bool{})
	case "(reflect.Value).Field":
		return true
	case "(reflect.Value).FieldByName":
		if n, ok := t.args[1].strVal(); ok {
			for _, x := range c.rtypes(q, t.args[0]) {
				if structFieldIndex(x, n) < 0 {
					return false
				}
			}
			return true
		}
	case "(reflect.Value).Elem", "reflect.Indirect":
		x := t.args[0]
		if v, known := q.st.facts.decide(mk("call", "(reflect.Value).IsZero", types.Typ[types.Bool], x)); known && !v {
			return true
		}
		if v, known := q.st.facts.decide(mk("call", "(reflect.Value).IsNil", types.Typ[types.Bool], x)); known && !v {
			return true
		}
		if x.op == "call" && x.sym == "reflect.ValueOf" && x.args[0].op == "iface" {
			return c.isNonNil(q.st, x.args[0].args[0], map[*ssa.Function]bool{})
		}
	}
	return false
}

func structFieldIndex(t types.Type, n string) int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == n {
			return i
		}
	}
	return -1
}

// reflected calls panic on values of the wrong kind.
func (c *Ctx) reflectPanics(q *Path, ev *Event) {
	const pre = "(reflect.Value)."
	if !strings.HasPrefix(ev.sym, pre) || len(ev.a) == 0 {
		return
	}
	m := ev.sym[len(pre):]
	x := ev.a[0]
	bad := func(f string, a ...interface{}) {
		c.fail("reflect", ev.fn, ev.instr, m, "reflected call of "+m+" may panic: "+f, a...)
	}
	switch m {
	case "IsValid", "Kind", "String", "CanSet", "CanInterface", "CanAddr":
		return
	}
	c.n("reflect_calls")
	if !c.rvalid(q, x) {
		bad("the value may be invalid")
		return
	}
	ts := c.rtypes(q, x)
	all := func(ok func(types.Type) bool) bool {
		for _, t := range ts {
			if !ok(t) {
				return false
			}
		}
		return ts != nil
	}
	isStruct := func(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }
	switch m {
	case "Elem", "IsNil":
		if !all(func(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }) {
			bad("the value may be something else than a pointer")
		}
	case "NumField":
		if !all(isStruct) {
			bad("the value may be something else than a struct")
		}
	case "FieldByName":
		if !all(isStruct) {
			bad("the value may be something else than a struct")
		}
	case "Field":
		if !all(isStruct) {
			bad("the value may be something else than a struct")
			return
		}
		i := ev.a[1]
		iv := q.st.facts.interval(i)
		if !iv.hasLo || iv.lo < 0 {
			bad("the field number may be negative")
			return
		}
		if iv.hasHi && all(func(t types.Type) bool { return iv.hi < int64(t.Underlying().(*types.Struct).NumFields()) }) {
			return
		}
		for k, v := range q.st.facts.bools {
			if v && k.op == "bin" && k.sym == "<" && k.args[0] == i && k.args[1].op == "call" && k.args[1].sym == pre+"NumField" && c.rkey(k.args[1].args[0]) == c.rkey(x) {
				return
			}
		}
		bad("the field number may be out of range")
	case "Equal":
		if !all(func(t types.Type) bool { return comparableKind(t) }) {
			bad("a value may be of a kind that cannot be compared")
		}
		if !c.rvalid(q, ev.a[1]) {
			bad("the value may be invalid")
		}
	case "SetString":
		if !all(func(t types.Type) bool {
			b, ok := t.Underlying().(*types.Basic)
			return ok && b.Info()&types.IsString != 0
		}) {
			bad("the value may be something else than a string")
		}
		if x.op == "call" && strings.HasPrefix(x.sym, pre+"Field") {
			for _, o := range c.rtypes(q, x.args[0]) {
				st := o.Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					if !st.Field(i).Exported() {
						bad("field %s cannot be set", st.Field(i).Name())
					}
				}
			}
			if r := x.args[0]; r.op == "call" && r.sym == "reflect.ValueOf" {
				bad("the value cannot be set")
			}
		}
	case "Call":
		// a method found by name is called without arguments
		if x.op != "call" || x.sym != pre+"MethodByName" {
			return
		}
		nargs := -1
		if a := ev.a[1]; q.st.facts.isNil(a) {
			nargs = 0
		} else if iv := q.st.facts.interval(lenOf(q.st, a)); iv.hasLo && iv.hasHi && iv.lo == iv.hi {
			nargs = int(iv.lo)
		}
		prefix := ""
		n := x.args[1]
		if s, ok := n.strVal(); ok {
			prefix = s
		} else if n.op == "bin" && n.sym == "+" {
			prefix, _ = n.args[0].strVal()
		}
		recv := x.args[0]
		var rts []types.Type
		if recv.op == "call" && recv.sym == "reflect.ValueOf" {
			if recv.args[0].op == "iface" {
				rts = c.rtypes(q, recv)
			} else if d := q.st.facts.dyn[recv.args[0]]; d != "" {
				if t := ifaceType[d]; t != nil {
					rts = []types.Type{t}
				}
			}
		}
		if rts == nil {
			bad("the receiver of the method is unknown")
			return
		}
		for _, t := range rts {
			ms := c.p.ssa.MethodSets.MethodSet(t)
			for i := 0; i < ms.Len(); i++ {
				f := ms.At(i).Obj()
				if !f.Exported() || !strings.HasPrefix(f.Name(), prefix) {
					continue
				}
				sg := f.Type().(*types.Signature)
				c.n("reflect_methods")
				if sg.Params().Len() != nargs && !(sg.Variadic() && nargs >= sg.Params().Len()-1) {
					bad("method %s of %s takes %d arguments and is called with %d", f.Name(), tstr(t), sg.Params().Len(), nargs)
				}
			}
		}
	}
}

func comparableKind(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Signature, *types.Interface:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !comparableKind(u.Field(i).Type()) {
				return false
			}
		}
	case *types.Array:
		return comparableKind(u.Elem())
	}
	return true
}
