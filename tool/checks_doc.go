package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// docField: the field of Docx holding values of type want (by printed type), or "".
func (p *Program) docField(want string) string {
	st := fieldsOf(p.docxType())
	for i := 0; i < st.NumFields(); i++ {
		if tstr(st.Field(i).Type()) == want {
			return st.Field(i).Name()
		}
	}
	return ""
}

func isDocFieldLoc(p *Program, loc *Term, field string) bool {
	return loc != nil && loc.op == "fa" && loc.sym == field && types.Identical(locType(loc.args[0]), p.docxType())
}

func isDocFieldVal(p *Program, v *Term, field string) bool {
	return v != nil && v.op == "ld" && isDocFieldLoc(p, v.args[0], field)
}

// freshBase: the location lies in an object allocated by the analysed code itself.
func freshBase(loc *Term) bool { return rootOf(loc).op == "obj" }

// ---------------------------------------------------------------- C15

func checkC15(c *Ctx) string {
	p := c.p
	rule := "the counter table is read, changed and replaced only between Lock and Unlock of the document's mutex, every path releases the lock, and IncreaseID stores and returns the value it read under that lock plus one, under the given name"
	inc := p.method("Docx", "IncreaseID")
	if inc == nil {
		c.fail("anchor", nil, nil, "IncreaseID", "Docx.IncreaseID is gone")
		return rule
	}
	field := ""
	var mus []string
	for _, q := range c.paths(inc) {
		for _, ev := range q.ev() {
			if ev.kind == "mapset" && ev.a[0].op == "ld" && lastField(ev.a[0]) != "" {
				field = lastField(ev.a[0])
			}
			if ev.kind == "call" && strings.HasSuffix(ev.sym, ").Lock") {
				mus = append(mus, lastField(ev.a[0]))
			}
		}
	}
	if field == "" {
		c.fail("anchor", inc, nil, "table", "IncreaseID does not store into a counter table of the document")
		return rule
	}
	if len(mus) == 0 {
		c.fail("unlocked", inc, nil, "Lock", "IncreaseID takes no lock")
		return rule
	}
	mu := mus[0]
	locks := func(ev *Event) bool {
		return len(ev.a) > 0 && mu != "" && lastField(ev.a[0]) == mu && rootOf(ev.a[0]).op != "obj"
	}
	if mu == "" {
		c.fail("unlocked", inc, nil, "Lock", "the lock taken is not one that belongs to the document")
		return rule
	}
	isTable := func(q *Path, t *Term) bool { return isDocFieldVal(p, t, field) && !freshBase(t.args[0]) }
	for _, fn := range p.allEntries() {
		for _, q := range c.paths(fn) {
			if q.outcome == "panic" {
				continue
			}
			held := 0
			for _, ev := range q.ev() {
				use := func(t *Term) {
					if !isTable(q, t) {
						return
					}
					c.n("table_accesses")
					if held <= 0 {
						c.fail("unlocked", fn, ev.instr, ev.kind, "the counter table is accessed (%s) without holding %s", ev.kind, mu)
					}
				}
				switch ev.kind {
				case "call", "reccall":
					isMu := locks(ev)
					switch {
					case isMu && strings.HasSuffix(ev.sym, ").Lock"):
						held++
						if held > 1 {
							c.fail("relock", fn, ev.instr, mu, "the counter lock is taken while it is already held")
						}
						continue
					case isMu && strings.HasSuffix(ev.sym, ").Unlock"):
						held--
						if held < 0 {
							c.fail("unlock", fn, ev.instr, mu, "the counter lock is released without being held")
						}
						continue
					}
					for _, a := range ev.a {
						use(unwrap(a))
					}
				case "mapset", "mapget", "mapdel", "next", "clear":
					use(ev.a[0])
				case "store":
					if isDocFieldLoc(p, ev.a[0], field) && !freshBase(ev.a[0]) {
						c.fail("replaced", fn, ev.instr, field, "the counter table of an existing document is replaced")
					}
				case "go":
					if held > 0 {
						c.fail("goroutine", fn, ev.instr, mu, "a goroutine is started while the counter lock is held")
					}
				}
			}
			if held > 0 && q.outcome == "return" {
				c.fail("kept", fn, nil, mu, "a path returns while the counter lock is still held")
			}
		}
	}
	// the value handed out
	name := (*Term)(nil)
	for _, q := range c.paths(inc) {
		if q.outcome == "panic" {
			continue
		}
		if q.outcome == "back" {
			continue
		}
		name = nil
		for _, pr := range inc.Params {
			if isStringT(pr.Type()) {
				name = mk("param", pr.Name(), pr.Type())
			}
		}
		sets := 0
		lastLock := -1
		var got, set *Term
		gotAt, setAt := -1, -1
		for i, ev := range q.ev() {
			switch {
			case ev.kind == "call" && strings.HasSuffix(ev.sym, ").Lock"):
				lastLock = i
			case ev.kind == "mapget" && lastField(ev.a[0]) == field && got == nil:
				got, gotAt = ev.a[2], i
				if ev.a[1] != name {
					c.fail("key", inc, ev.instr, "read", "the counter is read under another name than the given one")
				}
			case ev.kind == "mapset" && lastField(ev.a[0]) == field:
				sets++
				set, setAt = ev.a[2], i
				if ev.a[1] != name {
					c.fail("key", inc, ev.instr, "write", "the counter is stored under another name than the given one")
				}
			}
		}
		c.n("increment_paths")
		if sets != 1 {
			c.fail("once", inc, nil, "sets", "a path stores the counter %d times instead of once", sets)
			continue
		}
		if got == nil || gotAt > setAt {
			c.fail("increment", inc, nil, "read", "the counter is stored without being read first")
			continue
		}
		if gotAt < lastLock || lastLock > setAt {
			c.fail("section", inc, nil, "lock", "the counter is read and stored in different critical sections")
		}
		if set != addConst(got, 1) {
			c.fail("increment", inc, nil, "value", "the stored counter is %v, not the value read plus one", set)
		}
		if len(q.rets) != 1 || q.rets[0] != set {
			c.fail("increment", inc, nil, "result", "the returned number is not the stored one")
		}
	}
	c.atLeast("table_accesses", 2)
	c.atLeast("increment_paths", 1)
	return rule
}

func isStringT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

// ---------------------------------------------------------------- C23

func checkC23(c *Ctx) string {
	p := c.p
	rule := "ReferTarget and ReferID traverse the whole relationship list front to back, return the paired field of the first entry whose key equals the argument, return a not-found error exactly when the list is exhausted, and write nothing; RangeRelationships hands every entry to the visitor in order and stops only on its error"
	lookup := func(name, key, val string) {
		fn := p.method("Docx", name)
		if fn == nil {
			c.fail("anchor", nil, nil, name, "Docx.%s is gone", name)
			return
		}
		arg := mk("param", fn.Params[1].Name(), fn.Params[1].Type())
		for _, q := range c.paths(fn) {
			if q.outcome == "panic" {
				continue
			}
			c.pure(fn, q)
			les := loopEvents(q)
			if len(les) == 0 {
				c.fail("scan", fn, nil, "loop", "a path answers without looking at the relationship list")
				continue
			}
			le := les[len(les)-1].entry
			w := walkOf(q, le)
			if w == nil || w.list == nil || lastField(w.src) != "Relationship" {
				c.fail("scan", fn, nil, "list", "the lookup does not walk the document's relationship list")
				continue
			}
			if !w.first {
				c.fail("scan", fn, nil, "first", "the lookup skips the first relationship")
			}
			eq := func() (bool, bool) {
				return keyEq(q, w, key, arg)
			}
			switch q.outcome {
			case "back":
				c.n("lookup_rounds")
				v, known := eq()
				if !known || v {
					c.fail("missed", fn, nil, name, "the lookup goes on to the next relationship although this one may match")
				}
				if !w.steps(q) {
					c.fail("scan", fn, nil, "step", "the lookup skips relationships")
				}
			case "return":
				k, r := retErr(q)
				switch {
				case k == "nil":
					c.n("lookup_hits")
					if !w.round {
						c.fail("false-hit", fn, nil, name, "a match is reported after the list was exhausted")
						continue
					}
					v, known := eq()
					if !known || !v {
						c.fail("false-hit", fn, nil, name, "a match is reported for a relationship whose %s is not the given one", key)
					}
					if !isElemField(q.rets[0], w, val) {
						c.fail("answer", fn, nil, name, "the answer is %v, not the %s of the matching relationship", q.rets[0], val)
					}
				case k == "err":
					c.n("lookup_misses")
					if !w.done {
						c.fail("gives-up", fn, nil, name, "not-found is reported before the list is exhausted")
					}
					if !isSentinel(r) || !strings.Contains(r.String(), "NotFound") {
						c.fail("sentinel", fn, nil, name, "not-found is reported with %v instead of the documented error", r)
					}
				default:
					c.fail("answer", fn, nil, name+" error", "the error result %v may or may not be nil", r)
				}
			}
		}
	}
	lookup("ReferTarget", "ID", "Target")
	lookup("ReferID", "Target", "ID")

	fn := p.method("Docx", "RangeRelationships")
	if fn == nil {
		c.fail("anchor", nil, nil, "RangeRelationships", "Docx.RangeRelationships is gone")
		return rule
	}
	it := mk("param", fn.Params[1].Name(), fn.Params[1].Type())
	for _, q := range c.paths(fn) {
		if q.outcome == "panic" {
			continue
		}
		c.pure(fn, q)
		les := loopEvents(q)
		if len(les) == 0 {
			c.fail("scan", fn, nil, "loop", "a path returns without looking at the relationship list")
			continue
		}
		le := les[len(les)-1]
		w := walkOf(q, le.entry)
		if w == nil || w.list == nil || lastField(w.src) != "Relationship" || !w.first {
			c.fail("scan", fn, nil, "list", "the iteration does not walk the document's relationship list from its start")
			continue
		}
		var calls []*Event
		in := false
		for _, ev := range q.ev() {
			if ev == le {
				in = true
			}
			if in && ev.kind == "call" && ev.sym == "dyn:"+it.String() {
				calls = append(calls, ev)
			}
		}
		if w.round {
			c.n("visits")
			if len(calls) != 1 {
				c.fail("visit", fn, nil, "count", "a round hands %d relationships to the visitor instead of one", len(calls))
				continue
			}
			if !c.pointsAtElem(q, calls[0], w) {
				c.fail("visit", fn, calls[0].instr, "element", "the visitor does not get the relationship of this round")
			}
			e := calls[0].res[0]
			if q.outcome == "back" {
				if !q.st.facts.isNil(e) {
					c.fail("stop", fn, nil, "go-on", "the iteration goes on although the visitor may have stopped it")
				}
				if !w.steps(q) {
					c.fail("scan", fn, nil, "step", "the iteration skips relationships")
				}
			} else {
				if q.st.facts.isNil(e) || q.rets[0] != e || !q.st.facts.nonNil(e) {
					c.fail("stop", fn, nil, "early", "the iteration stops early without an error of the visitor, or hides it")
				}
			}
		} else if q.outcome == "return" {
			if len(calls) != 0 {
				c.fail("visit", fn, nil, "after", "the visitor is called after the list was exhausted")
			}
			if k, r := retErr(q); k != "nil" {
				c.fail("stop", fn, nil, "end", "the iteration over all relationships returns %v", r)
			}
		}
	}
	c.atLeast("lookup_hits", 2)
	c.atLeast("lookup_misses", 2)
	c.atLeast("visits", 2)
	return rule
}

// keyEq: does the path know whether field key of the current element equals arg?
func keyEq(q *Path, w *Walk, key string, arg *Term) (val, known bool) {
	for k, v := range q.st.facts.bools {
		if k.op == "bin" && k.sym == "==" {
			a, b := k.args[0], k.args[1]
			if b != arg {
				a, b = b, a
			}
			if b == arg && isElemField(a, w, key) {
				return v, true
			}
		}
	}
	return false, false
}

// isElemField: t is field name of the element of the current round of w.
func isElemField(t *Term, w *Walk, name string) bool {
	if t == nil {
		return false
	}
	if t.op == "field" && t.sym == name && isElem(t.args[0], w.list, w.idx) {
		return true
	}
	if t.op == "ld" && t.args[0].op == "fa" && t.args[0].sym == name {
		a := t.args[0].args[0]
		if a.op == "ia" && sameList(a.args[0], w.list) && a.args[1] == w.idx {
			return true
		}
		// the element is itself a pointer
		return isElem(a, w.list, w.idx)
	}
	return false
}

// pointsAtElem: the first argument of the call is the address of the current element or of a copy of it.
func (c *Ctx) pointsAtElem(q *Path, ev *Event, w *Walk) bool {
	a := ev.a[0]
	if a.op == "ia" && sameList(a.args[0], w.list) && a.args[1] == w.idx {
		return true
	}
	if a.op != "obj" {
		return false
	}
	ok := false
	for _, e := range q.ev() {
		if e == ev {
			break
		}
		if e.kind == "store" && e.a[0] == a {
			ok = structIsElem(e.a[1], w)
		} else if e.kind == "store" && underPrefix(e.a[0], a) {
			ok = false
		}
	}
	return ok
}

func structIsElem(v *Term, w *Walk) bool {
	if isElem(v, w.list, w.idx) {
		return true
	}
	if v.op != "struct" {
		return false
	}
	st := fieldsOf(v.typ)
	if st == nil {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if !isElemField(v.args[i], w, st.Field(i).Name()) {
			return false
		}
	}
	return true
}

// pure: the path writes only to objects it allocated itself.
func (c *Ctx) pure(fn *ssa.Function, q *Path) {
	for _, ev := range q.ev() {
		switch ev.kind {
		case "store", "mapset", "mapdel", "clear":
			if !freshBase(ev.a[0]) {
				c.fail("writes", fn, ev.instr, ev.kind+" "+lastField(ev.a[0]), "a read-only operation writes to %v", ev.a[0])
			}
		case "call":
			if strings.HasPrefix(ev.sym, "sync/atomic.Add") || strings.HasPrefix(ev.sym, "sync/atomic.Store") {
				c.fail("writes", fn, ev.instr, ev.sym, "a read-only operation changes a counter")
			}
		}
	}
}

// ---------------------------------------------------------------- C27

func checkC27(c *Ctx) string {
	rule := "every path of every number parser (string to integer and error) that reports success returns the decimal value of its argument at full width, the truncation of its float value within range, 1 for true/on, 0 for false/off, or the integer it begins with; every other path reports an error"
	for _, fn := range c.p.all {
		if !c.p.isNumParser(fn) {
			continue
		}
		c.n("parsers")
		s := mk("param", fn.Params[0].Name(), fn.Params[0].Type())
		for _, q := range c.paths(fn) {
			if q.outcome != "return" {
				continue
			}
			c.n("parser_paths")
			f := q.st.facts
			k, r := retErr(q)
			v := q.rets[0]
			on, off := f.mayBe(s, "true") || f.mayBe(s, "on"), f.mayBe(s, "false") || f.mayBe(s, "off")
			set, pinned := f.strSet(s)
			pin := func(a, b string) bool {
				if !pinned || len(set) == 0 {
					return false
				}
				for _, x := range set {
					if x != a && x != b {
						return false
					}
				}
				return true
			}
			core := stripConv(v)
			src, isNum := numSource(core, s)
			switch k {
			case "nil":
				switch {
				case isNum == "int":
					if !errNilOf(q, src, core) {
						c.fail("unchecked", fn, nil, src, "the result of %s is returned although its error may be set", src)
					}
				case isNum == "num": // another parser of this repository, judged itself
					if !errNilOf(q, src, core) {
						c.fail("unchecked", fn, nil, src, "the result of %s is returned although its error may be set", src)
					}
				case isNum == "float":
					if !errNilOf(q, src, core) {
						c.fail("unchecked", fn, nil, src, "the result of %s is returned although its error may be set", src)
					}
					if !floatGuarded(q, core) {
						c.fail("range", fn, nil, "float", "a float value is converted without being known to lie in the integer range")
					}
					if !earlierFailed(q, s) {
						c.fail("order", fn, nil, "float", "an integer is read through a float (loses digits beyond 2^53)")
					}
				case isNum == "scan":
					if !errNilOf(q, src, core) {
						c.fail("unchecked", fn, nil, src, "the scanned value is returned although scanning may have failed")
					}
					if !earlierFailed(q, s) || on || off {
						c.fail("order", fn, nil, "scan", "a number with a fraction or an on/off word is read as the integer it begins with")
					}
				default:
					n, isC := v.intVal()
					if !(isC && n == 1 && pin("true", "on") || isC && n == 0 && pin("false", "off")) {
						c.fail("value", fn, nil, "result", "success is reported with %v, which is not a reading of the argument", v)
					}
				}
			case "err":
				if pin("true", "on") || pin("false", "off") {
					c.fail("words", fn, nil, "error", "an on/off word is reported as an error")
				}
				if !allFailed(q, s) && !unfit(q) {
					c.fail("refused", fn, nil, "error", "an error is reported although the argument was read as a number")
				}
				if strings.HasPrefix(r.op, "call") && strings.Contains(r.sym, "Sscanf") {
					c.fail("marker", fn, nil, "error", "the error of Sscanf is returned as it is; its text begins with \"expected\" and would be tolerated while decoding")
				}
			default:
				// error decided by another parser
				if !(isNum == "num" || isNum == "int") || !sameCall(core, r) {
					c.fail("maybe", fn, nil, "error", "the error %v may be nil while the value is %v", r, v)
				}
			}
		}
	}
	c.atLeast("parsers", 2)
	c.atLeast("parser_paths", 8)
	return rule
}

func stripConv(t *Term) *Term {
	for t.op == "conv" {
		// only integer widening may be stripped; the float conversion is part of the meaning
		if isIntT(t.typ) && wide(t.typ) && t.args[0].typ != nil && (isIntT(t.args[0].typ) || isFloat(t.args[0].typ)) {
			t = t.args[0]
			continue
		}
		break
	}
	return t
}

func wide(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int || b.Kind() == types.Int64)
}

// numSource classifies a term as a reading of s.
func numSource(t, s *Term) (string, string) {
	if t.op != "call" {
		return "", ""
	}
	c := func(i int) int64 {
		if i < len(t.args) {
			if v, ok := t.args[i].intVal(); ok {
				return v
			}
		}
		return -1
	}
	arg := func() bool { return len(t.args) > 0 && trimmed(t.args[0]) == s }
	switch {
	case t.sym == "strconv.Atoi#0" && arg():
		return "strconv.Atoi", "int"
	case t.sym == "strconv.ParseInt#0" && arg() && c(1) == 10 && (c(2) == 64 || c(2) == 0):
		return "strconv.ParseInt", "int"
	case strings.HasPrefix(t.sym, "NUM:") && strings.HasSuffix(t.sym, "#0") && arg():
		return strings.TrimSuffix(t.sym, "#0"), "num"
	case t.sym == "strconv.ParseFloat#0" && arg() && c(1) == 64:
		return "strconv.ParseFloat", "float"
	case t.sym == "math.Trunc":
		return numSource(t.args[0], s)
	case t.sym == "scan:%d" && arg() && c(1) == 0:
		return "fmt.Sscanf", "scan"
	}
	return "", ""
}

func trimmed(t *Term) *Term { return t }

// errNilOf: the error of the call that produced the value is known to be nil.
func errNilOf(q *Path, src string, v *Term) bool {
	for v.op == "call" && v.sym == "math.Trunc" {
		v = v.args[0]
	}
	if src == "fmt.Sscanf" {
		for _, ev := range q.ev() {
			if ev.kind == "call" && strings.HasPrefix(ev.sym, "fmt.Sscan") {
				return q.st.facts.isNil(ev.res[len(ev.res)-1])
			}
		}
		return false
	}
	e := mk("call", strings.TrimSuffix(v.sym, "#0")+"#1", errType(), v.args...)
	return q.st.facts.isNil(e)
}

func sameCall(v, r *Term) bool {
	return v.op == "call" && r != nil && r.op == "call" && strings.TrimSuffix(v.sym, "#0") == strings.TrimSuffix(r.sym, "#1") && len(v.args) == len(r.args) && len(v.args) > 0 && v.args[0] == r.args[0]
}

// floatGuarded: comparisons keep the float strictly inside the integer range.
func floatGuarded(q *Path, v *Term) bool {
	lo, hi := false, false
	for k, b := range q.st.facts.bools {
		if k.op != "bin" {
			continue
		}
		x, y := k.args[0], k.args[1]
		if k.sym == "<" && b {
			if y == v && x.isConst() {
				lo = lo || floatConst(x) <= -9e18 && floatConst(x) >= -9.3e18
			}
			if x == v && y.isConst() {
				hi = hi || floatConst(y) >= 9e18 && floatConst(y) <= 9.3e18
			}
		}
		if (k.sym == "<=" || k.sym == ">=") && b || k.sym == "<" && !b {
			a, c := x, y
			if k.sym == "<" || k.sym == ">=" {
				a, c = y, x
			}
			// a <= c
			if c == v && a.isConst() {
				lo = lo || floatConst(a) <= -9e18 && floatConst(a) >= -9.3e18
			}
		}
	}
	return lo && hi
}

func floatConst(t *Term) float64 {
	s := t.sym
	if i := strings.IndexByte(s, ':'); i >= 0 {
		s = s[i+1:]
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		// rational form
		if i := strings.IndexByte(s, '/'); i > 0 {
			a, _ := strconv.ParseFloat(strings.TrimSpace(s[:i]), 64)
			b, _ := strconv.ParseFloat(strings.TrimSpace(s[i+1:]), 64)
			if b != 0 {
				return a / b
			}
		}
		return 0
	}
	return f
}

// earlierFailed: reading the argument as an integer failed on this path.
func earlierFailed(q *Path, s *Term) bool {
	for t, isnil := range q.st.facts.nilf {
		if !isnil && t.op == "call" && len(t.args) > 0 && t.args[0] == s && (strings.HasPrefix(t.sym, "strconv.Atoi#1") || strings.HasPrefix(t.sym, "strconv.ParseInt#1")) {
			return true
		}
	}
	return false
}

// allFailed: no successful reading of the argument is discarded on this path.
// unfit: a value is known to change when it is converted to int and back, so it does not fit into int.
func unfit(q *Path) bool {
	for t, v := range q.st.facts.bools {
		if t.op != "bin" || len(t.args) != 2 {
			continue
		}
		if t.sym != "==" && t.sym != "!=" || v != (t.sym == "!=") {
			continue
		}
		for i, a := range t.args {
			if a.op == "conv" && a.args[0].op == "conv" && a.args[0].args[0] == t.args[1-i] {
				if b, ok := a.args[0].typ.Underlying().(*types.Basic); ok && (b.Kind() == types.Int || b.Kind() == types.Uint) {
					return true
				}
			}
		}
	}
	return false
}

func allFailed(q *Path, s *Term) bool {
	intFailed, floatOut := false, false
	for t, isnil := range q.st.facts.nilf {
		if t.op == "call" && len(t.args) > 0 && t.args[0] == s && strings.HasPrefix(t.sym, "NUM:") && !isnil {
			return true // another parser, judged itself, refused it
		}
	}
	for t, isnil := range q.st.facts.nilf {
		if t.op != "call" || len(t.args) == 0 || t.args[0] != s {
			continue
		}
		switch {
		case strings.HasPrefix(t.sym, "strconv.Atoi#1"), strings.HasPrefix(t.sym, "strconv.ParseInt#1"), strings.HasPrefix(t.sym, "NUM:"):
			if isnil {
				return false
			}
			intFailed = true
		case strings.HasPrefix(t.sym, "strconv.ParseFloat#1"):
			if isnil {
				// out of range is an error
				if floatGuarded(q, mk("call", "strconv.ParseFloat#0", types.Typ[types.Float64], t.args...)) {
					return false
				}
				floatOut = true
			}
		}
	}
	if floatOut {
		return intFailed
	}
	for _, ev := range q.ev() {
		if ev.kind == "call" && strings.HasPrefix(ev.sym, "fmt.Sscan") {
			return intFailed && q.st.facts.nonNil(ev.res[len(ev.res)-1])
		}
	}
	return false
}
