package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// origins traces where values carried round loops come from.
type origins struct {
	key  map[*Term]string
	vals map[string][]orig
}

type orig struct {
	v *Term
	q *Path
}

func (c *Ctx) origins(paths []*Path) *origins {
	o := &origins{key: map[*Term]string{}, vals: map[string][]orig{}}
	for _, q := range paths {
		add := func(le *LoopEntry, back bool) {
			for ph, g := range le.phis {
				k := le.id + "|" + ph.Name() + "|" + ph.Parent().Name()
				o.key[g] = k
				o.vals[k] = append(o.vals[k], orig{le.init[ph], q})
				if back {
					o.vals[k] = append(o.vals[k], orig{q.phis[ph], q})
				}
			}
			for loc, g := range le.locs {
				k := le.id + "|" + loc.String()
				o.key[g] = k
				o.vals[k] = append(o.vals[k], orig{le.locInit[loc], q})
				if back {
					o.vals[k] = append(o.vals[k], orig{q.st.heap[loc], q})
				}
			}
		}
		for _, ev := range loopEvents(q) {
			add(ev.entry, false)
		}
		if q.outcome == "back" && q.hdr != nil {
			add(q.hdr, true)
		}
	}
	return o
}

// bases: the outermost values the place t, or the list t, may hang off. Reaching a value through
// a list takes in whatever was put into the list; the storage of a list is only what it was
// extended from.
func (o *origins) bases(c *Ctx, q *Path, t *Term) map[*Term]bool {
	r := map[*Term]bool{}
	type st struct {
		t    *Term
		want string
		elem bool
	}
	seen := map[st]bool{}
	var visit func(q *Path, t *Term, want string, elem bool)
	visit = func(q *Path, t *Term, want string, elem bool) {
		if t == nil || seen[st{t, want, elem}] {
			return
		}
		seen[st{t, want, elem}] = true
		if want != "" {
			// a value known not to be of the wanted dynamic type is not the one that is used
			u := unwrap(t)
			if t.op == "iface" && u.typ != nil && tstr(u.typ) != want {
				return
			}
			if q != nil {
				if v, known := q.st.facts.decide(mk("isT", want, types.Typ[types.Bool], t)); known && !v {
					return
				}
				if d := q.st.facts.dyn[t]; d != "" && d != want {
					return
				}
			}
		}
		switch t.op {
		case "ta":
			visit(q, t.args[0], tstr(t.typ), true)
			return
		case "fa", "ia", "mi", "field", "elem", "slice", "arrslice", "mkslice", "chtype", "iface":
			if len(t.args) > 0 {
				visit(q, t.args[0], want, elem)
				return
			}
		case "ld":
			visit(q, t.args[0], want, true)
			for _, v := range c.carried(o, t.args[0], map[*Term]bool{}) {
				visit(v.q, v.v, want, elem)
			}
			return
		case "append", "appendslice", "tuple":
			if elem {
				for _, a := range t.args {
					visit(q, a, want, elem)
				}
			} else if !capped(t.args[0]) {
				visit(q, t.args[0], want, elem)
			}
			return
		case "sym":
			if k, ok := o.key[t]; ok {
				for _, v := range o.vals[k] {
					visit(v.q, v.v, want, elem)
				}
				return
			}
		}
		r[t] = true
	}
	visit(q, t, "", false)
	return r
}

// carried: what the place of an object that is carried round a loop held at the end of the round it
// comes from.
func (c *Ctx) carried(o *origins, loc *Term, seen map[*Term]bool) (r []orig) {
	b := loc
	for b.op == "fa" {
		b = b.args[0]
	}
	k, ok := o.key[b]
	if !ok || b == loc || seen[loc] {
		return nil
	}
	seen[loc] = true
	for _, v := range o.vals[k] {
		x := unwrap(v.v)
		if x == nil || v.q == nil {
			continue
		}
		l := rebased(loc, b, x)
		if x.op == "obj" {
			r = append(r, orig{c.e.load0(v.q.st, l), v.q})
		} else if x.op == "sym" {
			r = append(r, c.carried(o, l, seen)...)
		}
	}
	return r
}

// rebased is the place of the same name in another object.
func rebased(loc, from, to *Term) *Term {
	if loc == from {
		return to
	}
	return mk(loc.op, loc.sym, loc.typ, rebased(loc.args[0], from, to))
}

// effects calls f for every place a path writes to: stores, map updates, deletions, copies, and
// what it hands to external functions that may change it.
func (c *Ctx) effects(q *Path, f func(ev *Event, loc *Term, how string)) {
	for _, ev := range q.ev() {
		switch ev.kind {
		case "store":
			f(ev, ev.a[0], "stored to")
		case "mapset":
			f(ev, ev.a[0], "updated")
		case "mapdel":
			f(ev, ev.a[0], "deleted from")
		case "clear":
			f(ev, ev.a[0], "cleared")
		case "copy":
			f(ev, ev.a[0], "copied over")
		case "call":
			if ev.callee != nil && c.p.inScope(ev.callee) {
				continue
			}
			if strings.HasPrefix(ev.sym, "(reflect.Value).Set") && len(ev.a) > 0 {
				if p := reflected(ev.a[0]); p != nil {
					f(ev, p, "set through reflection")
				} else if b := base(ev.a[0]); b != nil {
					f(ev, b, "set through reflection")
				}
				continue
			}
			if isPure(ev.sym) || readOnlyExternal(ev.sym) && !strings.HasPrefix(ev.sym, "(*sync.Map)") && !strings.HasPrefix(ev.sym, "(*sync.Pool)") && !strings.HasPrefix(ev.sym, "(*bytes.Buffer)") && !strings.HasPrefix(ev.sym, "(*strings.Builder)") || strings.HasPrefix(ev.sym, "dyn:") || strings.HasPrefix(ev.sym, "(*xml.Decoder).") {
				continue
			}
			if strings.HasSuffix(ev.sym, "xml.Decoder).Decode") || strings.HasSuffix(ev.sym, "xml.Decoder).DecodeElement") {
				continue
			}
			if isReadOnlyName(ev.sym) {
				continue
			}
			for _, a := range ev.a {
				u := unwrap(a)
				if u == nil || u.typ == nil {
					continue
				}
				switch u.typ.Underlying().(type) {
				case *types.Pointer, *types.Slice, *types.Map:
					f(ev, u, "handed to "+ev.sym)
				}
			}
		}
	}
}

func isReadOnlyName(n string) bool {
	for _, p := range []string{"fmt.", "errors.", "strings.", "strconv.", "bytes.New", "unicode", "(*regexp.Regexp).", "sync/atomic.Load", "slices.Contains", "slices.Index", "slices.Clone", "slices.Equal", "maps.Clone", "maps.Keys", "io.", "(fs.", "(*zip.", "(embed.FS).", "(zip.", "image", "math", "sort.Search", "sort.SliceIsSorted", "bufio.", "(*bufio.", "os.", "bytes.", "(*bytes.Reader)", "path", "archive/zip.New", "encoding/xml.New", "encoding/xml.Marshal", "(*xml.Encoder).", "(io.", "(fmt.", "(error)", "crypto/md5.", "crypto/sha", "hash/crc32.", "hash/adler32.", "encoding/hex.EncodeToString", "(*base64.Encoding).EncodeToString", "mime."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- C14

func checkC14(c *Ctx) string {
	p := c.p
	rule := "no function of the library writes package-level data: no store, map update, deletion, in-place append, copy or mutating external call reaches a package variable or what it refers to; operations on a document write only to memory of their arguments or memory they made; maps and growable lists of a new document are its own; the list of kept files, which may be shared, is never written in place"
	listF := p.docField("[]string")
	for _, fn := range p.all {
		if fn.Name() == "init" || fn.Synthetic != "" && !strings.Contains(fn.Synthetic, "wrapper") {
			continue
		}
		c.globalWrites(fn)
	}
	for _, fn := range p.allEntries() {
		paths := c.paths(fn)
		o := c.origins(paths)
		for _, q := range paths {
			if q.outcome == "panic" {
				continue
			}
			c.effects(q, func(ev *Event, loc *Term, how string) {
				c.n("writes")
				for b := range o.bases(c, q, loc) {
					if b.op == "global" {
						c.fail("global", fn, ev.instr, b.String()+" "+how, "package-level %v is %s", b, how)
					}
				}
				// the list of kept files may be shared with the template list or another document
				if loc.op == "ia" && listF != "" && loc.args[0].op == "ld" && isDocFieldLoc(p, loc.args[0].args[0], listF) {
					c.fail("shared", fn, ev.instr, "kept list element", "the list of kept files, which documents share, is written in place")
				}
				if strings.HasPrefix(how, "handed to") || how == "copied over" || how == "cleared" {
					if u := plain(loc); u.op == "ld" && isDocFieldLoc(p, u.args[0], listF) {
						c.fail("shared", fn, ev.instr, "kept list", "the list of kept files, which documents share, is %s", how)
					}
				}
			})
			// package-level data put into documents
			for _, ev := range q.ev() {
				if ev.kind == "store" || ev.kind == "mapset" {
					for _, v := range parts(ev.a[len(ev.a)-1]) {
						c.n("values_put")
						if v.typ == nil || !c.mutable(v.typ) || lastField(ev.a[0]) == listF {
							continue
						}
						for b := range o.bases(c, q, v) {
							if b.op == "global" {
								c.fail("global", fn, ev.instr, b.String()+" put", "package-level %v is put into %v, where whoever holds it may change it", b, ev.a[0])
							}
						}
					}
				}
			}
			// appending in place to a list that may be shared
			for _, ev := range q.ev() {
				if ev.kind == "store" && isDocFieldLoc(p, ev.a[0], listF) && (ev.a[1].op == "append" || ev.a[1].op == "appendslice") {
					if !freshDoc(ev.a[0].args[0]) && !uncapped(ev.a[1]) && !startedFresh(q, ev.a[0], ev.a[1]) {
						c.fail("shared", fn, ev.instr, "kept list append", "the list of kept files, which documents share, is appended to in place")
					}
				}
				for _, v := range ev.a {
					for v != nil && (v.op == "append" || v.op == "appendslice" || v.op == "slice") {
						if v.op == "slice" {
							v = v.args[0]
							continue
						}
						for b := range o.bases(c, q, v.args[0]) {
							if b.op == "global" && !capped(v.args[0]) {
								c.fail("global", fn, ev.instr, b.String()+" append", "package-level list %v is appended to in place", b)
							}
						}
						v = v.args[0]
					}
				}
			}
			// what a new document consists of
			if q.outcome != "return" {
				continue
			}
			if k, _ := retErr(q); k == "err" {
				continue
			}
			r := c.reach(q, append(append([]*Term{}, q.rets...), phiVals(q)...))
			for ob := range r.objs {
				if !types.Identical(locType(ob), p.docxType()) {
					continue
				}
				c.n("new_documents")
				c.ownStorage(fn, q, o, ob, listF)
			}
		}
		// documents made in a round of a loop
		for _, q := range paths {
			if q.outcome != "back" {
				continue
			}
			for _, ev := range roundEvents(q) {
				if ev.kind == "store" && freshDoc(ev.a[0]) {
					if d := docBase(p, ev.a[0]); d != nil && d.op == "obj" {
						c.ownStorage(fn, q, o, d, listF)
					}
				}
			}
		}
	}
	c.atLeast("writes", 500)
	c.atLeast("new_documents", 3)
	return rule
}

// parts: the values that v puts somewhere: itself, or the elements it adds to a list.
func parts(v *Term) (r []*Term) {
	v = unwrap(v)
	if v == nil {
		return nil
	}
	if v.op == "append" || v.op == "struct" || v.op == "arrslice" {
		for i, a := range v.args {
			if i > 0 || v.op != "append" {
				r = append(r, parts(a)...)
			}
		}
		return r
	}
	return []*Term{v}
}

// mutable: a pointer to a node of the library, a table, or a list of such.
func (c *Ctx) mutable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return c.p.isRepoType(u.Elem())
	case *types.Map:
		return true
	case *types.Slice:
		return true
	}
	return false
}

func uncapped(v *Term) bool {
	for v != nil && (v.op == "append" || v.op == "appendslice") {
		v = v.args[0]
	}
	return v == nil || capped(v)
}

// capped: the list has no spare room an append could write into (or is new).
func capped(v *Term) bool {
	if v == nil || v.op == "nil" || rootOf(v).op == "obj" && v.op != "ld" {
		return true
	}
	return v.op == "slice" && (strings.Contains(v.sym, "max") || v.sym == "clone")
}

// ownStorage: maps and growable lists of a new document are made for it.
func (c *Ctx) ownStorage(fn *ssa.Function, q *Path, o *origins, d *Term, listF string) {
	st := fieldsOf(c.p.docxType())
	check := func(loc *Term, t types.Type, name string) {
		v := c.e.load0(q.st, loc)
		switch t.Underlying().(type) {
		case *types.Map:
			c.n("own_maps")
			for b := range o.bases(c, q, v) {
				if b.op != "obj" && b.op != "nil" && !(b.op == "sym" && strings.Contains(b.sym, "·")) && !strings.HasPrefix(b.sym, "?mod") {
					c.fail("shared", fn, nil, name, "the table %s of a new document is %v, not one made for it", name, b)
				}
			}
		case *types.Slice:
			if name == listF {
				return
			}
			c.n("own_lists")
			if v.op == "slice" && capped(v) {
				return
			}
			x := v
			for x.op == "append" || x.op == "appendslice" {
				x = x.args[0]
			}
			for b := range o.bases(c, q, x) {
				if b.op == "param" || b.op == "global" || b.op == "free" {
					if x.op == "slice" && capped(x) {
						continue
					}
					c.fail("shared", fn, nil, name, "the list %s of a new document shares storage with %v", name, b)
				}
			}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		loc := faddr(d, st, i)
		check(loc, f.Type(), f.Name())
		if sub := fieldsOf(f.Type()); sub != nil && c.p.isRepoType(f.Type()) {
			for j := 0; j < sub.NumFields(); j++ {
				l2 := faddr(loc, sub, j)
				check(l2, sub.Field(j).Type(), f.Name()+"."+sub.Field(j).Name())
				if s3 := fieldsOf(sub.Field(j).Type()); s3 != nil && c.p.isRepoType(sub.Field(j).Type()) {
					for k := 0; k < s3.NumFields(); k++ {
						check(faddr(l2, s3, k), s3.Field(k).Type(), f.Name()+"."+sub.Field(j).Name()+"."+s3.Field(k).Name())
					}
				}
			}
		}
	}
}

// globalWrites: no instruction of the function stores to a package variable itself.
func (c *Ctx) globalWrites(fn *ssa.Function) {
	c.n("functions_scanned")
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			var addr ssa.Value
			switch in := ins.(type) {
			case *ssa.Store:
				addr = in.Addr
			case *ssa.MapUpdate:
				addr = in.Map
			default:
				continue
			}
			for {
				switch x := addr.(type) {
				case *ssa.FieldAddr:
					addr = x.X
					continue
				case *ssa.IndexAddr:
					addr = x.X
					continue
				case *ssa.UnOp:
					addr = x.X
					continue
				case *ssa.Slice:
					addr = x.X
					continue
				}
				break
			}
			if g, ok := addr.(*ssa.Global); ok {
				c.fail("global", fn, ins, g.Name(), "package-level %s is written", g.Name())
			}
		}
	}
}

// ---------------------------------------------------------------- C13

func checkC13(c *Ctx) string {
	p := c.p
	rule := "appending, splitting, merging and the copiers they use write nothing that hangs off their source: no store, map update, deletion, copy, in-place append or mutating call; and no list that is put into a result shares storage with a list of the source"
	type source struct {
		fn  *ssa.Function
		par int
	}
	var ss []source
	for _, x := range []struct {
		t, m string
		i    int
	}{{"Docx", "AppendFile", 1}, {"Docx", "SplitByParagraph", 0}, {"Paragraph", "MergeText", 0}} {
		f := p.method(x.t, x.m)
		if f == nil {
			c.fail("anchor", nil, nil, x.m, "%s.%s is gone", x.t, x.m)
			continue
		}
		ss = append(ss, source{f, x.i})
	}
	for _, fn := range p.allEntries() {
		if p.isCopier(fn) {
			ss = append(ss, source{fn, 0})
			c.n("copiers")
		}
	}
	listF := p.docField("[]string")
	for _, s := range ss {
		fn := s.fn
		src := mk("param", fn.Params[s.par].Name(), fn.Params[s.par].Type())
		paths := c.paths(fn)
		o := c.origins(paths)
		for _, q := range paths {
			if q.outcome == "panic" {
				continue
			}
			c.effects(q, func(ev *Event, loc *Term, how string) {
				if ev.kind == "store" && rootOf(loc).op == "obj" && loc.op != "ia" {
					return
				}
				if strings.HasPrefix(ev.sym, "sync/atomic.") {
					how = "counted up"
				}
				c.n("writes")
				if o.bases(c, q, loc)[src] {
					c.fail("source", fn, ev.instr, how+" "+lastField(loc), "the source is changed: %v is %s", loc, how)
				}
			})
			// lists in results
			seen := map[*Term]bool{}
			lists := func(v *Term, t types.Type, where string, ins ssa.Instruction) {
				if v == nil || seen[v] || t == nil {
					return
				}
				sl, ok := t.Underlying().(*types.Slice)
				if !ok || tstr(sl.Elem()) == "byte" || where == listF {
					return
				}
				seen[v] = true
				c.n("result_lists")
				x := v
				n := 0
				for x.op == "append" || x.op == "appendslice" {
					x = x.args[0]
					n++
				}
				if capped(x) {
					return
				}
				if x.op == "ld" || x.op == "slice" || x.op == "field" || x.op == "sym" {
					if o.bases(c, q, x)[src] && !q.st.facts.isNil(x) {
						if n > 0 {
							c.fail("source", fn, ins, "append "+where, "a list of the source is appended to in place: %v", x)
						} else {
							c.fail("shared-list", fn, ins, where, "%s of a result shares its storage with a list of the source", where)
						}
					}
				}
			}
			r := c.reach(q, handedOn(q))
			for _, h := range r.fields {
				st := fieldsOf(h.owner)
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == h.name {
						lists(h.v, st.Field(i).Type(), h.name, nil)
						if _, ok := st.Field(i).Type().Underlying().(*types.Map); ok && h.v != nil && o.bases(c, q, h.v)[src] && !q.st.facts.isNil(h.v) {
							c.fail("shared-table", fn, nil, h.name, "the table %s of a result is that of the source", h.name)
						}
					}
				}
			}
			for _, ev := range q.ev() {
				if ev.kind == "store" {
					lists(ev.a[1], locType(ev.a[0]), lastField(ev.a[0]), ev.instr)
				}
			}
			for _, v := range q.phis {
				if v != nil {
					for x := v; x.op == "append"; x = x.args[0] {
						lists(x, x.typ, "list", nil)
					}
				}
			}
		}
	}
	c.atLeast("copiers", 5)
	c.atLeast("writes", 20)
	c.atLeast("result_lists", 10)
	return rule
}

// startedFresh: the list appended to grew from one that was made, or was nil, before the loop on the same path.
func startedFresh(q *Path, loc, v *Term) bool {
	for v.op == "append" || v.op == "appendslice" {
		v = v.args[0]
	}
	for _, le := range loopEvents(q) {
		for l, g := range le.entry.locs {
			if l != loc || g != v {
				continue
			}
			i := le.entry.locInit[l]
			if i == nil {
				return false
			}
			for i.op == "append" || i.op == "appendslice" {
				i = i.args[0]
			}
			return i.op == "nil" || i.op == "mkslice" || q.st.facts.isNil(i) || startedFresh(q, loc, i)
		}
	}
	return v.op == "mkslice" || v.op == "nil"
}
