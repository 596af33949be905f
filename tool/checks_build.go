package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// contentList: a list of the content tree: any kinds, or pointers to element types.
func (p *Program) contentList(t types.Type) bool {
	if isIfaceList(t) {
		return true
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	pt, ok := s.Elem().Underlying().(*types.Pointer)
	return ok && p.isRepoType(pt.Elem()) && fieldsOf(pt.Elem()) != nil
}

// listGrowth: how a list that was at loc compares with what it was when the function started.
type listGrowth struct {
	ok    bool
	added []*Term
	why   string
	loop  bool // grown in rounds of a loop as well
}

// grows tells whether v is the list that was at loc, possibly with items put after its end.
func (c *Ctx) grows(o *origins, q *Path, loc, v *Term, reads bool, seen map[*Term]bool) listGrowth {
	var added []*Term
	if v == nil && q != nil {
		v = c.e.load0(q.st, loc) // not written on this path
	}
	for {
		if v == nil {
			return listGrowth{why: "unknown"}
		}
		switch v.op {
		case "append":
			added = append(append([]*Term{}, v.args[1:]...), added...)
			v = v.args[0]
			continue
		case "appendslice":
			added = append(append([]*Term{}, v.args[1:]...), added...)
			v = v.args[0]
			continue
		}
		if u := plain(v); u != v {
			v = u
			continue
		}
		if v.op == "slice" && v.args[1] == nil && v.args[2] != nil && v.args[2].op == "len" && sameList(v.args[2].args[0], v.args[0]) {
			v = v.args[0]
			continue
		}
		break
	}
	if v.op == "ld" && sameLoc(v.args[0], loc) {
		return listGrowth{ok: true, added: added}
	}
	// a value found nil at loc
	if reads && emptyList(v) {
		return listGrowth{ok: true, added: added}
	}
	if v.op == "nil" || v.op == "mkslice" {
		old := mk("ld", "", locType(loc), loc)
		if q != nil && (q.st.facts.isNil(old) || q.st.facts.interval(mk("len", "", types.Typ[types.Int], old)) == (ival{0, 0, true, true})) {
			return listGrowth{ok: true, added: added}
		}
	}
	if v.op == "sym" {
		if k, ok := o.key[v]; ok {
			if seen[v] {
				return listGrowth{ok: true, added: added, loop: true}
			}
			seen[v] = true
			for _, x := range o.vals[k] {
				if x.v == v {
					continue
				}
				g := c.grows(o, x.q, loc, x.v, reads, seen)
				if !g.ok {
					return g
				}
			}
			return listGrowth{ok: true, added: added, loop: true}
		}
	}
	// a longer copy of the old list
	if q != nil {
		for _, ev := range q.ev() {
			if ev.kind == "copy" && plain(ev.a[0]) == v && ev.a[1].op == "ld" && ev.a[1].args[0] == loc && lenIs(v, ev.a[1]) {
				return listGrowth{ok: true, added: added}
			}
		}
	}
	return listGrowth{why: v.String()}
}

// stem: the list that was extended or cut.
func stem(v *Term) *Term {
	for v.op == "append" || v.op == "appendslice" || v.op == "slice" {
		v = v.args[0]
	}
	return v
}

// emptyList: a list without items.
func emptyList(v *Term) bool {
	if v.op == "nil" {
		return true
	}
	if v.op == "mkslice" && len(v.args) > 1 {
		n, ok := v.args[1].intVal()
		return ok && n == 0
	}
	return false
}

// readsOK: the round or result of a reader that goes on or succeeds.
func readsOK(q *Path) bool {
	k, _ := retErr(q)
	return q.outcome == "back" || k != "err"
}

func lenIs(v, list *Term) bool {
	return v.op == "mkslice" && len(v.args) > 1 && v.args[1].op == "len" && v.args[1].args[0] == list
}

// itemVal resolves what a list item is: the object behind a variable holding it.
func (c *Ctx) itemVal(q *Path, t *Term) *Term {
	t = unwrap(t)
	if t != nil && t.op == "obj" {
		if _, ok := locType(t).Underlying().(*types.Pointer); ok {
			if v := q.st.heap[t]; v != nil {
				return unwrap(v)
			}
		}
	}
	return t
}

func filterName(n string) bool {
	return strings.HasPrefix(n, "Keep") || strings.HasPrefix(n, "Drop")
}

func checkC03(c *Ctx) string {
	p := c.p
	c.orderRules()
	adders := 0
	for _, fn := range p.allEntries() {
		if p.isCopier(fn) || filterName(fn.Name()) {
			continue
		}
		reads := isReader(fn)
		paths := c.paths(fn)
		o := c.origins(paths)
		adder := fn.Parent() == nil && fn.Signature.Recv() != nil && strings.HasPrefix(fn.Name(), "Add") && fn.Object().Exported()
		if adder {
			adders++
		}
		for _, q := range paths {
			if q.outcome == "panic" {
				continue
			}
			// elements of existing lists stay
			for _, ev := range q.ev() {
				var loc *Term
				how := ""
				switch ev.kind {
				case "store":
					if ev.a[0].op == "ia" {
						loc, how = ev.a[0].args[0], "an item is replaced"
					}
				case "copy", "clear":
					loc, how = ev.a[0], "items are copied over"
				case "call":
					if strings.HasPrefix(ev.sym, "sort.") || strings.HasPrefix(ev.sym, "slices.") && !isReadOnlyName(ev.sym) {
						if len(ev.a) > 0 {
							loc, how = unwrap(ev.a[0]), "handed to "+ev.sym
						}
					}
				}
				if loc == nil || loc.typ == nil || !p.contentList(loc.typ) {
					continue
				}
				c.n("element_writes")
				bad := c.oldList(o, q, loc, map[*Term]bool{})
				if bad == nil && reads && readsOK(q) {
					if l := stem(loc); l.op == "sym" || ev.kind == "call" {
						bad = l // a list gathered from the input
					}
				}
				if bad != nil {
					c.fail("moved", fn, ev.instr, lastField(bad)+" "+how, "%s in the existing list %v", how, bad)
				}
			}
			if q.outcome == "back" && !adder {
				// loop-carried lists are checked where they end up
			}
			total := 0
			var item *Term
			var fld string
			for loc, v := range q.st.heap {
				if loc.op != "fa" || rootOf(loc).op == "obj" || loc.typ == nil {
					continue
				}
				t := locType(loc)
				if t == nil || !p.contentList(t) {
					continue
				}
				if v.op == "ld" && sameLoc(v.args[0], loc) {
					continue
				}
				c.n("list_updates")
				if reads && !readsOK(q) {
					continue
				}
				g := c.grows(o, q, loc, v, reads, map[*Term]bool{})
				if !g.ok {
					c.fail("rewritten", fn, lastInstr(q), lastField(loc), "the existing list %v becomes %s, not itself followed by new items", loc, g.why)
					continue
				}
				seen := map[*Term]bool{}
				for _, a := range g.added {
					a = c.itemVal(q, a)
					if seen[a] {
						c.fail("duplicate", fn, lastInstr(q), lastField(loc), "one item is added twice to %v", loc)
					}
					seen[a] = true
				}
				if reads {
					for _, a := range g.added {
						a = c.itemVal(q, a)
						if _, carried := o.key[a]; carried && a.typ != nil {
							if _, list := a.typ.Underlying().(*types.Slice); !list {
								c.fail("late", fn, lastInstr(q), lastField(loc), "an element read in an earlier round is put into %v only now", loc)
							}
						}
					}
					continue
				}
				if g.loop {
					total += 2
				}
				total += len(g.added)
				if len(g.added) > 0 {
					item = g.added[len(g.added)-1]
				}
				fld = lastField(loc)
				if adder {
					recv := mk("param", fn.Params[0].Name(), fn.Params[0].Type())
					if rp := rootOf(loc); rp != recv {
						c.fail("elsewhere", fn, lastInstr(q), fld, "an adding call changes the list %v, which is not its receiver's", loc)
					}
				}
			}
			if !adder || q.outcome != "return" {
				continue
			}
			c.n("adding_paths")
			if k, _ := retErr(q); k == "err" {
				if total != 0 {
					c.fail("failed-add", fn, lastInstr(q), fld, "a failing call has added an item to %s", fld)
				}
				continue
			} else if k == "maybe" {
				// the outcome of another adding call is passed on
				if total == 0 {
					continue
				}
			}
			if total != 1 {
				c.fail("count", fn, lastInstr(q), "items", "the call adds %d items to its receiver's list, not one", total)
				continue
			}
			it := c.itemVal(q, item)
			ret := q.rets[0]
			if !c.isItem(q, ret, it, item) {
				recv := mk("param", fn.Params[0].Name(), fn.Params[0].Type())
				if ret == recv && it.op == "obj" {
					continue
				}
				c.fail("result", fn, lastInstr(q), "item", "the call returns %v, but adds %v", ret, it)
			}
		}
	}
	c.counts["adding_calls"] = adders
	c.atLeast("adding_calls", 12)
	c.atLeast("adding_paths", 15)
	c.atLeast("content_lists", 15)
	c.atLeast("reader_paths", 300)
	return "every reader appends each element it keeps to the end of the list of its kind, once, in the round that decoded it, and changes lists in no other way; outside readers, copiers and Keep/Drop filters every content list that existed before a call ends up as itself followed by new items, none of its elements is written, and each adding call adds exactly one item, the one it returns, to its receiver's own list on every path that succeeds and none on a path that fails"
}

// oldList: the list is (or may be) one that existed before the call.
func (c *Ctx) oldList(o *origins, q *Path, v *Term, seen map[*Term]bool) *Term {
	for v != nil {
		switch v.op {
		case "append", "appendslice":
			v = v.args[0]
			continue
		case "slice":
			if capped(v) && v.sym == "clone" {
				return nil
			}
			v = v.args[0]
			continue
		case "ld":
			if rootOf(v).op == "obj" {
				return nil
			}
			return v
		case "param", "global", "free":
			return v
		case "sym":
			if seen[v] {
				return nil
			}
			seen[v] = true
			if k, ok := o.key[v]; ok {
				for _, x := range o.vals[k] {
					if b := c.oldList(o, x.q, x.v, seen); b != nil {
						return b
					}
				}
			}
			return nil
		}
		return nil
	}
	return nil
}

// isItem: the returned value is the added item.
func (c *Ctx) isItem(q *Path, ret, it, raw *Term) bool {
	ret = unwrap(ret)
	if ret == it || ret == unwrap(raw) {
		return true
	}
	// read back from the end of the list it was put into
	if ret != nil && ret.op == "ld" && ret.args[0].op == "ia" {
		l := ret.args[0].args[0]
		i := ret.args[0].args[1]
		if l.op == "append" && len(l.args) == 2 && unwrap(l.args[1]) == it {
			b, off := lin(i)
			return b != nil && b.op == "len" && b.args[0] == l && off == -1 || i == mk("len", "", types.Typ[types.Int], l.args[0])
		}
	}
	return false
}

var _ = ssa.Value(nil)

// ---------------------------------------------------------------- C22

// setter: what a formatting call is documented to set. Paths are fields from the receiver; a value
// is "$name" for a parameter by position ("$1" is the first) or a literal. prop is the property
// that may be replaced as a whole; make lists containers that are created when missing.
type setter struct {
	typ, name string
	prop      string
	set       map[string]string
	make      []string
	opt       bool // sets only what is present
	chain     bool
}

var setters = []setter{
	{typ: "Run", name: "Color", prop: "RunProperties.Color", set: map[string]string{"Val": "$1"}, chain: true},
	{typ: "Run", name: "Size", prop: "RunProperties.Size", set: map[string]string{"Val": "$1"}, chain: true},
	{typ: "Run", name: "SizeCs", prop: "RunProperties.SizeCs", set: map[string]string{"Val": "$1"}, chain: true},
	{typ: "Run", name: "Shade", prop: "RunProperties.Shade", set: map[string]string{"Val": "$1", "Color": "$2", "Fill": "$3"}, chain: true},
	{typ: "Run", name: "Spacing", prop: "RunProperties.Spacing", set: map[string]string{"Line": "$1"}, chain: true},
	{typ: "Run", name: "Bold", prop: "RunProperties.Bold", chain: true},
	{typ: "Run", name: "Italic", prop: "RunProperties.Italic", chain: true},
	{typ: "Run", name: "Underline", prop: "RunProperties.Underline", set: map[string]string{"Val": "$1"}, chain: true},
	{typ: "Run", name: "Highlight", prop: "RunProperties.Highlight", set: map[string]string{"Val": "$1"}, chain: true},
	{typ: "Run", name: "Strike", prop: "RunProperties.Strike", set: map[string]string{"Val": "bool$1"}, chain: true},
	{typ: "Run", name: "Font", prop: "RunProperties.Fonts", set: map[string]string{"ASCII": "$1", "EastAsia": "$2", "HAnsi": "$3", "Hint": "$4"}, chain: true},
	{typ: "Paragraph", name: "Justification", prop: "Properties.Justification", set: map[string]string{"Val": "$1"}, chain: true},
	{typ: "Paragraph", name: "Style", prop: "Properties.Style", set: map[string]string{"Val": "$1"}, chain: true},
	{typ: "Paragraph", name: "NumPr", prop: "Properties.NumProperties", set: map[string]string{"NumID.Val": "$1", "Ilvl.Val": "$2"}, make: []string{"Properties.RunProperties"}, chain: true},
	{typ: "Paragraph", name: "NumFont", prop: "Properties.RunProperties.Fonts", set: map[string]string{"ASCII": "$1", "EastAsia": "$2", "HAnsi": "$3", "Hint": "$4"}, chain: true},
	{typ: "Paragraph", name: "NumSize", prop: "Properties.RunProperties.Size", set: map[string]string{"Val": "$1"}, chain: true},
	{typ: "Table", name: "Justification", prop: "TableProperties.Justification", set: map[string]string{"Val": "$1"}, chain: true},
	{typ: "WTableRow", name: "Justification", prop: "TableRowProperties.Justification", set: map[string]string{"Val": "$1"}, chain: true},
	{typ: "WTableCell", name: "Shade", prop: "TableCellProperties.Shade", set: map[string]string{"Val": "$1", "Color": "$2", "Fill": "$3"}, chain: true},
	{typ: "WPInline", name: "Size", set: map[string]string{"Extent.CX": "$1", "Extent.CY": "$2", "Graphic.GraphicData.Pic.SpPr.Xfrm.Ext.CX": "$1", "Graphic.GraphicData.Pic.SpPr.Xfrm.Ext.CY": "$2"}, opt: true},
	{typ: "WPAnchor", name: "Size", set: map[string]string{"Extent.CX": "$1", "Extent.CY": "$2", "Graphic.GraphicData.Pic.SpPr.Xfrm.Ext.CX": "$1", "Graphic.GraphicData.Pic.SpPr.Xfrm.Ext.CY": "$2"}, opt: true},
}

// follow walks fields from p (a pointer) through the memory of path q; it stops with the nil
// pointer met on the way.
func (c *Ctx) follow(q *Path, p *Term, path []string) (loc, val *Term, missing *Term) {
	for i, f := range path {
		loc = fieldLoc(p, f)
		if loc == nil {
			return nil, nil, nil
		}
		t := locType(loc)
		if _, ok := t.Underlying().(*types.Pointer); ok {
			val = c.e.load0(q.st, loc)
			if i < len(path)-1 && q.st.facts.isNil(val) {
				return loc, val, loc
			}
			p = val
			continue
		}
		if fieldsOf(t) != nil {
			p, val = loc, loc
			continue
		}
		val = c.e.load0(q.st, loc)
	}
	return loc, val, nil
}

func isZero(v *Term) bool {
	if v == nil || v.op == "nil" {
		return true
	}
	if s, ok := v.strVal(); ok {
		return s == ""
	}
	if i, ok := v.intVal(); ok {
		return i == 0
	}
	if v.op == "struct" {
		for _, a := range v.args {
			if !isZero(a) {
				return false
			}
		}
		return true
	}
	return v.op == "const" && v.sym == "b:false" || v.op == "const" && v.sym == "false"
}

func checkC22(c *Ctx) string {
	p := c.p
	for _, s := range setters {
		fn := p.method(s.typ, s.name)
		if fn == nil || len(fn.Blocks) == 0 {
			c.fail("anchor", nil, nil, s.typ+"."+s.name, "%s.%s is gone", s.typ, s.name)
			continue
		}
		c.n("formatting_calls")
		recv := mk("param", fn.Params[0].Name(), fn.Params[0].Type())
		arg := func(k string) *Term {
			i := int(k[len(k)-1] - '0')
			if i >= len(fn.Params) {
				return nil
			}
			return mk("param", fn.Params[i].Name(), fn.Params[i].Type())
		}
		var prop []string
		if s.prop != "" {
			prop = strings.Split(s.prop, ".")
		}
		for _, q := range c.paths(fn) {
			if q.outcome == "back" {
				c.fail("undecided", fn, nil, "loop", "the call sets its property in a loop")
				continue
			}
			if q.outcome != "return" {
				continue
			}
			c.n("setter_paths")
			if s.chain && (len(q.rets) != 1 || q.rets[0] != recv) {
				c.fail("receiver", fn, lastInstr(q), "result", "the call returns %v instead of its receiver", q.rets)
			}
			allowed := map[*Term]bool{}
			okObj := map[*Term]bool{} // objects the call made and may hand on
			// the property
			base := recv
			if prop != nil {
				for i := 0; i < len(prop); i++ {
					loc := fieldLoc(base, prop[i])
					if loc == nil {
						c.fail("anchor", fn, nil, s.prop, "%s has no property %s", s.typ, s.prop)
						base = nil
						break
					}
					v := c.e.load0(q.st, loc)
					old := mk("ld", "", locType(loc), loc)
					if i < len(prop)-1 {
						// a container
						if v.op == "obj" {
							if !q.st.facts.isNil(old) && rootOf(loc).op != "obj" {
								c.fail("container", fn, lastInstr(q), prop[i], "existing %s are replaced", strings.Join(prop[:i+1], "."))
							}
							okObj[v] = true
							allowed[loc] = true
						} else if !sameLoad(v, old) {
							c.fail("container", fn, lastInstr(q), prop[i], "%s becomes %v", strings.Join(prop[:i+1], "."), v)
						}
					} else {
						allowed[loc] = true
						okObj[v] = true
						if q.st.facts.isNil(v) || v.op != "obj" && !q.st.facts.nonNil(v) {
							c.fail("unset", fn, lastInstr(q), s.prop, "%s is not set: it is %v", s.prop, v)
						}
					}
					base = v
				}
				if base == nil {
					continue
				}
			}
			// what an earlier call left in the property does not stay
			if st := pointee(base); prop != nil && st != nil && base.op != "obj" && len(s.set) > 0 && !s.opt {
				for i := 0; i < st.NumFields(); i++ {
					n := st.Field(i).Name()
					if n == "XMLName" || n == p.ownerField || settled(s.set, n) {
						continue
					}
					if _, v, _ := c.follow(q, base, []string{n}); v != nil && !isZero(v) && !q.st.facts.isNil(v) && !q.st.facts.mustBe(v, "") {
						c.fail("leftover", fn, lastInstr(q), n, "%s of the %s that was there before stays", n, s.prop)
					}
				}
			}
			for path, want := range s.set {
				fs := strings.Split(path, ".")
				// the steps on the way may be made anew inside the property
				b := base
				for i := range fs[:len(fs)-1] {
					l, v, _ := c.follow(q, b, fs[i:i+1])
					if l == nil || v == nil {
						break
					}
					if v.op == "obj" && prop != nil {
						okObj[v] = true
						allowed[l] = true
					}
					b = v
				}
				loc, v, miss := c.follow(q, base, fs)
				if loc == nil {
					c.fail("anchor", fn, nil, path, "%s has no field %s", s.typ, path)
					continue
				}
				if miss != nil {
					if !s.opt {
						c.fail("unset", fn, lastInstr(q), path, "%s is not set", path)
					}
					continue
				}
				allowed[loc] = true
				c.n("values")
				w := want
				if strings.HasPrefix(want, "bool") {
					a := arg(want)
					bv, known := q.st.facts.decide(a)
					sv, isc := v.strVal()
					if !known || !isc || sv != fmt.Sprint(bv) {
						if !(v.op == "call" && strings.HasPrefix(v.sym, "strconv.FormatBool") && v.args[0] == a) {
							c.fail("value", fn, lastInstr(q), path, "%s becomes %v, not the given value", path, v)
						}
					}
					continue
				}
				if v != arg(w) {
					c.fail("value", fn, lastInstr(q), path, "%s becomes %v, not %v", path, v, arg(w))
				}
			}
			for _, m := range s.make {
				fs := strings.Split(m, ".")
				loc, v, miss := c.follow(q, recv, fs)
				if loc == nil || miss != nil {
					continue
				}
				if v.op == "obj" && (rootOf(loc).op == "obj" || q.st.facts.isNil(mk("ld", "", locType(loc), loc))) {
					allowed[loc] = true
					okObj[v] = true
				}
			}
			// nothing else
			for loc, v := range q.st.heap {
				r := rootOf(loc)
				if allowed[loc] || v.op == "ld" && sameLoc(v.args[0], loc) {
					continue
				}
				if r.op == "obj" {
					if !okObj[r] {
						continue // not handed on
					}
					if under(loc, allowed) || isZero(v) || rootOf(v).op == "obj" && okObj[rootOf(v)] {
						continue
					}
					c.fail("extra", fn, lastInstr(q), lastField(loc), "%s of the property is set to %v as well", lastField(loc), v)
					continue
				}
				c.fail("extra", fn, lastInstr(q), lastField(loc), "the call also changes %v", loc)
			}
			for _, ev := range q.ev() {
				if ev.kind == "mapset" || ev.kind == "mapdel" || ev.kind == "copy" || ev.kind == "clear" {
					if rootOf(ev.a[0]).op != "obj" {
						c.fail("extra", fn, ev.instr, ev.kind, "the call also changes %v", ev.a[0])
					}
				}
			}
		}
	}
	c.atLeast("formatting_calls", len(setters))
	c.atLeast("values", 30)
	return "every formatting call ends, on every path, with each documented field of the property it names holding the argument given for it, existing containers kept, missing ones created, nothing else that existed before written, no further field of a new property set, and its receiver returned"
}

// under: the location lies inside an allowed struct field.
func under(loc *Term, allowed map[*Term]bool) bool {
	for t := loc; t != nil && (t.op == "fa" || t.op == "ia"); t = t.args[0] {
		if allowed[t] {
			return true
		}
	}
	return false
}

// settled: the call stores a value in the field or under it.
func settled(set map[string]string, field string) bool {
	for k := range set {
		if k == field || strings.HasPrefix(k, field+".") {
			return true
		}
	}
	return false
}

// pointee: the struct a pointer term points to.
func pointee(t *Term) *types.Struct {
	if t == nil || t.typ == nil {
		return nil
	}
	if pt, ok := t.typ.Underlying().(*types.Pointer); ok {
		return fieldsOf(pt.Elem())
	}
	return nil
}
