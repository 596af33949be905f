package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- C21

// isCloser: the type has Read and Close methods: something opened for reading.
func isCloser(t types.Type) bool {
	if t == nil {
		return false
	}
	ms := types.NewMethodSet(t)
	if ms.Lookup(nil, "Read") == nil {
		return false
	}
	for i := 0; i < ms.Len(); i++ {
		m := ms.At(i).Obj()
		if m.Name() != "Close" {
			continue
		}
		sg := m.Type().(*types.Signature)
		return sg.Params().Len() == 0 && sg.Results().Len() == 1 && isErrT(sg.Results().At(0).Type())
	}
	return false
}

// callsClose: the function, or one it calls or makes, calls Close on something.
func callsClose(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if fn == nil || seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok {
				cc := ci.Common()
				if cc.IsInvoke() && cc.Method.Name() == "Close" {
					return true
				}
				if g := cc.StaticCallee(); g != nil && (g.Name() == "Close" || callsClose(g, seen)) {
					return true
				}
			}
		}
	}
	return false
}

// holds: the value is, or contains, x.
func (c *Ctx) holds(q *Path, v, x *Term, d int) bool {
	v = unwrap(v)
	if v == nil || d > 6 {
		return false
	}
	if v == x {
		return true
	}
	if v.op == "obj" {
		if h, ok := q.st.heap[v]; ok && c.holds(q, h, x, d+1) {
			return true
		}
		for _, ev := range q.ev() {
			switch {
			case ev.kind == "mapset" && ev.a[0] == v && c.holds(q, ev.a[2], x, d+1):
				return true
			case ev.kind == "store" && ev.a[0] != v && underPrefix(ev.a[0], v) && c.holds(q, ev.a[1], x, d+1):
				return true
			}
		}
		return false
	}
	switch v.op {
	case "append", "appendslice", "struct", "slice", "arrslice", "closure", "tuple":
		for _, a := range v.args {
			if c.holds(q, a, x, d+1) {
				return true
			}
		}
	}
	return false
}

func checkC21(c *Ctx) string {
	rule := "on every path of every entry point, each result of a call that can be closed (archive entries, template files) and whose error result is not known to be non-nil is closed: Close is called on it before the function returns, or deferred before the round of a loop that opened it ends"
	for _, fn := range c.p.allEntries() {
		for _, q := range c.paths(fn) {
			if q.outcome == "panic" {
				continue
			}
			evs := q.ev()
			if q.outcome == "back" {
				evs = roundEvents(q)
			}
			for i, ev := range evs {
				if ev.kind != "call" || len(ev.res) == 0 {
					continue
				}
				for _, r := range ev.res {
					if r == nil || !isCloser(r.typ) {
						continue
					}
					if e := ev.res[len(ev.res)-1]; isErrT(e.typ) && q.st.facts.nonNil(e) {
						continue
					}
					if q.st.facts.isNil(r) {
						continue
					}
					c.n("opened")
					if !c.closedAfter(q, evs[i+1:], r) {
						c.fail("unclosed", fn, ev.instr, ev.sym, "what %s opened is not closed on a path that ends with %s", ev.sym, q.outcome)
					} else {
						c.n("closed")
					}
				}
			}
		}
	}
	c.atLeast("opened", 4)
	return rule
}

func (c *Ctx) closedAfter(q *Path, evs []*Event, r *Term) bool {
	for _, ev := range evs {
		if (ev.kind == "call" || ev.kind == "defer") && strings.HasSuffix(ev.sym, ".Close") && len(ev.a) > 0 && unwrap(ev.a[0]) == r {
			return true
		}
	}
	for _, v := range q.rets {
		if c.holds(q, v, r, 0) && q.outcome == "return" {
			return true
		}
	}
	// a deferred function that closes what it captured or was given
	for _, ev := range q.ev() {
		if ev.kind != "defer" {
			continue
		}
		var vs []*Term
		vs = append(vs, ev.a...)
		var g *ssa.Function
		for _, f := range ev.res {
			if f != nil {
				vs = append(vs, f)
			}
		}
		if g == nil {
			if ci, ok := ev.instr.(ssa.CallInstruction); ok {
				g = ci.Common().StaticCallee()
			}
		}
		if !callsClose(g, map[*ssa.Function]bool{}) {
			continue
		}
		for _, v := range vs {
			if c.holds(q, v, r, 0) {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- C10

// part is something a path arranges to be written: a name and where its content comes from.
type part struct {
	name, data *Term
	cont       *Term // local table it is put into, nil when it is written straight to the archive
	ev         *Event
	how        string
}

// parts lists what the events write or put into a table for writing.
func (c *Ctx) parts(q *Path, evs []*Event, z *Term) []part {
	var r []part
	for i, ev := range evs {
		switch {
		case ev.kind == "mapset":
			if b, ok := ev.a[1].typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && ev.a[0].op == "obj" {
				r = append(r, part{name: ev.a[1], data: unwrap(ev.a[2]), cont: ev.a[0], ev: ev})
			}
		case ev.kind == "call" && hasSuffixAny(ev.sym, "zip.Writer).Create", "zip.Writer).CreateHeader") && ev.a[0] == z:
			name := ev.a[1]
			if strings.HasSuffix(ev.sym, "Header") {
				l := fieldLoc(ev.a[1], "Name")
				if l == nil {
					continue
				}
				name = c.e.load0(q.st, l)
			}
			w := ev.res[0]
			for _, e2 := range evs[i+1:] {
				if e2.kind != "call" {
					continue
				}
				if hasSuffixAny(e2.sym, "zip.Writer).Create", "zip.Writer).CreateHeader", "zip.Writer).CreateRaw") {
					break
				}
				switch {
				case (e2.sym == "io.Copy" || e2.sym == "io.CopyBuffer") && unwrap(e2.a[0]) == w:
					r = append(r, part{name: name, data: unwrap(e2.a[1]), ev: e2})
				case strings.HasSuffix(e2.sym, ".Write") && unwrap(e2.a[0]) == w:
					r = append(r, part{name: name, data: e2.a[1], ev: e2, how: "bytes"})
				case hasSuffixAny(e2.sym, "xml.Encoder).Encode") && c.encoderOn(evs, e2.a[0]) == w:
					r = append(r, part{name: name, data: unwrap(e2.a[1]), ev: e2, how: "encode"})
				case hasSuffixAny(e2.sym, ".WriteTo") && len(e2.a) > 1 && unwrap(e2.a[1]) == w:
					r = append(r, part{name: name, data: unwrap(e2.a[0]), ev: e2})
				}
			}
		}
	}
	return r
}

// encoderOn: the writer the encoder value was made for.
func (c *Ctx) encoderOn(evs []*Event, enc *Term) *Term {
	for _, ev := range evs {
		if ev.kind == "call" && ev.sym == "encoding/xml.NewEncoder" && len(ev.res) > 0 && ev.res[0] == enc {
			return flushed(evs, unwrap(ev.a[0]))
		}
	}
	return nil
}

// flushed: the writer behind a buffer that is flushed later on the path.
func flushed(evs []*Event, w *Term) *Term {
	for i, ev := range evs {
		if ev.kind != "call" || !strings.HasPrefix(ev.sym, "bufio.NewWriter") || len(ev.res) == 0 || ev.res[0] != w {
			continue
		}
		last := false
		for _, e2 := range evs[i+1:] {
			if e2.kind != "call" {
				continue
			}
			for _, a := range e2.a {
				if unwrap(a) == w {
					last = strings.HasSuffix(e2.sym, "bufio.Writer).Flush")
				}
			}
		}
		if last && flushAfterAll(evs[i+1:], w) {
			return flushed(evs[:i], unwrap(ev.a[0]))
		}
	}
	return w
}

// flushAfterAll: a flush of w comes after every archive and encoder step.
func flushAfterAll(evs []*Event, w *Term) bool {
	ok := false
	for _, ev := range evs {
		if ev.kind != "call" {
			continue
		}
		if strings.HasSuffix(ev.sym, "bufio.Writer).Flush") && unwrap(ev.a[0]) == w {
			ok = true
		} else if strings.Contains(ev.sym, "zip.Writer)") || strings.Contains(ev.sym, "xml.Encoder)") {
			ok = false
		}
	}
	return ok
}

// encodes: what is written for the content value is the XML encoding of *x.
func (c *Ctx) encodes(pt part, x *Term) bool {
	if pt.how == "encode" {
		return pt.data == x
	}
	v := pt.data
	if v == nil || v.typ == nil {
		return false
	}
	f := writesItself(c.p, v.typ)
	if f == nil {
		return false
	}
	fld := c.encodedField(f)
	if fld == "" {
		return false
	}
	if v.op == "obj" {
		return false // handled by the caller through the heap
	}
	return unwrap(structField(v, fld)) == x
}

// writesItself: the repository's own WriteTo the value is written through by io.Copy.
func writesItself(p *Program, t types.Type) *ssa.Function {
	s := types.NewMethodSet(t).Lookup(nil, "WriteTo")
	if s == nil {
		return nil
	}
	f, ok := s.Obj().(*types.Func)
	if !ok || len(s.Index()) != 1 || f.Pkg() != p.root.Pkg {
		return nil
	}
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return nil
	}
	return p.method(n.Obj().Name(), "WriteTo")
}

// encodedField: the field of its receiver that a WriteTo method encodes, completely and with the
// outcome reported, on every successful path; "" if it does not.
func (c *Ctx) encodedField(fn *ssa.Function) string {
	recv := mk("param", fn.Params[0].Name(), fn.Params[0].Type())
	w := mk("param", fn.Params[1].Name(), fn.Params[1].Type())
	fld := ""
	for _, q := range c.paths(fn) {
		if q.outcome != "return" {
			if q.outcome == "back" {
				return ""
			}
			continue
		}
		k, e := retErr(q)
		if k == "err" {
			continue
		}
		got := ""
		for _, ev := range q.ev() {
			if ev.kind == "call" && strings.HasSuffix(ev.sym, "xml.Encoder).Encode") && c.encoderOn(q.ev(), ev.a[0]) == w {
				v := unwrap(ev.a[1])
				if v != nil && v.op == "field" && v.args[0] == recv || v != nil && v.op == "ld" && v.args[0].op == "fa" && v.args[0].args[0] == recv {
					if v.op == "ld" {
						got = v.args[0].sym
					} else {
						got = v.sym
					}
				}
				if er := ev.res[len(ev.res)-1]; er != e && !q.st.facts.isNil(er) {
					return ""
				}
			}
		}
		if got == "" || fld != "" && fld != got {
			return ""
		}
		fld = got
	}
	return fld
}

// errorsReported: every error a saving path can meet is its result, or known not to have happened.
func (c *Ctx) errorsReported(fn *ssa.Function) {
	for _, q := range c.paths(fn) {
		if q.outcome == "panic" {
			continue
		}
		k, ret := retErr(q)
		if q.outcome == "return" && k == "none" {
			c.fail("result", fn, nil, "no error result", "%s has no error result to report a failure with", fnLabel(fn))
			return
		}
		if q.outcome == "return" && k == "err" {
			continue
		}
		evs := q.ev()
		if q.outcome == "back" {
			evs = roundEvents(q)
		}
		for _, ev := range evs {
			if ev.kind != "call" && ev.kind != "reccall" || len(ev.res) == 0 {
				continue
			}
			er := ev.res[len(ev.res)-1]
			if !isErrT(er.typ) || q.st.facts.isNil(er) {
				continue
			}
			if strings.HasSuffix(ev.sym, ".Close") && !strings.HasSuffix(ev.sym, "zip.Writer).Close") {
				continue // closing what was only read
			}
			c.n("error_results")
			if q.outcome == "return" && er == ret {
				continue
			}
			c.fail("swallowed", fn, ev.instr, ev.sym, "an error of %s does not reach the result of %s on a path that ends with %s", ev.sym, fnLabel(fn), q.outcome)
		}
	}
}

func checkC10(c *Ctx) string {
	p := c.p
	rule := "on every path of Docx.WriteTo that can return nil: every error result met is known to be nil or is the result; the archive is made on the caller's writer and completed after the last part; complete front-to-back traversals of the kept file list and of the media list put each file (opened under its own name, or under the template's folder exactly when a template is set) and each item's bytes under its own path; the document and its relationships are encoded under their names; and every table of parts is written out completely. Every other WriteTo and MarshalXML method reports its errors likewise"
	fn := p.method("Docx", "WriteTo")
	if fn == nil {
		c.fail("anchor", nil, nil, "WriteTo", "Docx.WriteTo is gone")
		return rule
	}
	for _, g := range p.all {
		if g.Parent() == nil && g.Signature.Recv() != nil && (g.Name() == "WriteTo" || g.Name() == "MarshalXML" || g.Name() == "MarshalXMLAttr") && g.Synthetic == "" {
			c.n("writers")
			c.errorsReported(g)
		}
	}
	sh := c.shape()
	docF, listF, tmplF, fsF := p.docField("docx.Document"), p.docField("[]string"), p.docField("string"), p.docField("fs.FS")
	if docF == "" || listF == "" || tmplF == "" || fsF == "" || sh.media == "" || sh.relF == "" {
		c.fail("anchor", nil, nil, "fields", "a field of the document that saving writes is gone: document %q, kept files %q, template %q, file system %q, media %q, relationships %q", docF, listF, tmplF, fsF, sh.media, sh.relF)
		return rule
	}
	f := mk("param", fn.Params[0].Name(), fn.Params[0].Type())
	w := mk("param", fn.Params[1].Name(), fn.Params[1].Type())
	paths := c.paths(fn)
	tmpl := c.e.load0(paths[0].st, fieldLocOf(f, p, tmplF))
	kept := mk("ld", "", types.NewSlice(types.Typ[types.String]), fieldLocOf(f, p, listF))
	media := fieldLocOf(f, p, sh.media)
	var fsys *Term
	for _, q := range paths {
		fsys = c.e.load0(q.st, fieldLocOf(f, p, fsF))
		break
	}
	for _, q := range paths {
		if q.outcome != "return" {
			continue
		}
		k, _ := retErr(q)
		if k == "err" {
			continue
		}
		c.n("saving_paths")
		c.savedAll(fn, q, paths, f, w, tmpl, kept, media, fsys, docF, sh)
	}
	c.atLeast("saving_paths", 1)
	c.atLeast("error_results", 1)
	c.atLeast("kept_puts", 1)
	c.atLeast("media_puts", 1)
	return rule
}

// complete: the loops the path has run to exhaustion.
type doneLoop struct {
	at   int
	ev   *Event
	walk *Walk
	over *Term // the map, for map loops
}

func (c *Ctx) completed(q *Path) []doneLoop {
	var r []doneLoop
	evs := q.ev()
	for i, ev := range evs {
		if ev.kind != "loop" || ev.entry == nil {
			continue
		}
		if w := walkOf(q, ev.entry); w != nil && w.done && w.first {
			r = append(r, doneLoop{at: i, ev: ev, walk: w})
			continue
		}
		for _, e2 := range evs[i+1:] {
			if e2.kind == "loop" {
				break
			}
			if e2.kind == "next" && len(e2.a) >= 3 {
				if v, known := q.st.facts.decide(e2.a[1]); known && !v {
					r = append(r, doneLoop{at: i, ev: ev, over: e2.a[0]})
				}
				break
			}
		}
	}
	return r
}

// rounds: the back paths of the loop.
func rounds(paths []*Path, ev *Event) []*Path {
	var r []*Path
	for _, p := range paths {
		if p.outcome == "back" && p.loop == ev.sym {
			r = append(r, p)
		}
	}
	return r
}

// keptAsIs: nothing is taken out of the list or the table, and no entry of the list is replaced; it
// may be sorted, and a table may take further entries.
func keptAsIs(paths []*Path, m *Term) bool {
	for _, p := range paths {
		for _, ev := range p.ev() {
			switch ev.kind {
			case "mapdel", "clear":
				if ev.a[0] == m {
					return false
				}
			case "store", "copy":
				if rootOf(ev.a[0]) == m {
					return false
				}
			case "mapset":
				if ev.a[0] == m && len(ev.a) > 2 && ev.a[2].contains(func(x *Term) bool { return x.op == "mi" && x.args[0] == m }) {
					return false // one entry is replaced by another
				}
			case "call":
				if strings.HasPrefix(ev.sym, "sort.") || strings.HasPrefix(ev.sym, "slices.Sort") || strings.HasPrefix(ev.sym, "maps.Keys") {
					continue
				}
				for _, a := range ev.a {
					if unwrap(a) == m {
						return false
					}
				}
			}
		}
	}
	return true
}

func (c *Ctx) savedAll(fn *ssa.Function, q *Path, paths []*Path, f, w, tmpl, kept, media, fsys *Term, docF string, sh *docShape) {
	evs := q.ev()
	// the archive
	var z *Term
	made, closed := -1, -1
	for i, ev := range evs {
		if ev.kind == "call" && ev.sym == "archive/zip.NewWriter" {
			made = i
			z = ev.res[0]
			if c.behind(evs, ev.a[0]) != w {
				c.fail("archive", fn, ev.instr, "writer", "the archive is written to %v instead of the caller's writer", ev.a[0])
			}
		}
		if ev.kind == "call" && strings.HasSuffix(ev.sym, "zip.Writer).Close") && ev.a[0] == z {
			closed = i
		}
	}
	if made < 0 || closed < 0 {
		c.fail("archive", fn, nil, "completed", "a successful save does not complete the archive")
		return
	}
	loops := c.completed(q)
	for i, ev := range evs[closed:] {
		if i > 0 && ev.kind == "call" && strings.Contains(ev.sym, "zip.Writer).Create") {
			c.fail("archive", fn, ev.instr, "late", "a part is added after the archive was completed")
		}
	}
	for _, l := range loops {
		if l.at > closed {
			c.fail("archive", fn, l.ev.instr, "late", "a loop runs after the archive was completed")
		}
	}
	direct := c.parts(q, evs, z)
	// what each completed loop does in every round
	drained := map[*Term]int{} // table -> position of the loop that writes it out
	keysOf := map[*Term]*Term{}
	for _, l := range loops {
		rs := rounds(paths, l.ev)
		if len(rs) == 0 {
			continue
		}
		all := true
		var table *Term
		for _, r := range rs {
			rev := roundEvents(r)
			ok := false
			for _, pt := range c.parts(r, rev, z) {
				if pt.cont != nil || pt.how != "" {
					continue
				}
				var key, val, over *Term
				if l.over != nil {
					for _, e := range rev {
						if e.kind == "next" && len(e.a) >= 3 {
							key, over = e.a[2], e.a[0]
							if len(e.a) > 3 {
								val = e.a[3]
							}
						}
					}
				} else if rw := walkOf(r, r.hdr); rw != nil && rw.steps(r) && pt.name.op == "ld" && isElem(pt.name, rw.list, rw.idx) {
					// over a list of the table's keys
					key = pt.name
					over = keysOf[plain(l.walk.list)]
				}
				if over == nil || pt.name != key {
					continue
				}
				if pt.data == unwrap(val) || pt.data != nil && pt.data.op == "ld" && pt.data.args[0].op == "mi" && pt.data.args[0].args[0] == over && pt.data.args[0].args[1] == key {
					ok = true
					table = over
				}
			}
			if !ok {
				all = false
			}
		}
		if all && table != nil && keptAsIs(paths, table) {
			drained[table] = l.at
			continue
		}
		// a loop that collects the keys of a table
		if l.over != nil {
			collects := func(next func(*Path) (*Term, *Term)) bool {
				for _, r := range rs {
					g, nv := next(r)
					xs, ok := added(g, nv)
					var key *Term
					for _, e := range roundEvents(r) {
						if e.kind == "next" && len(e.a) >= 3 {
							key = e.a[2]
						}
					}
					if !ok || len(xs) != 1 || xs[0] != key {
						return false
					}
				}
				return true
			}
			for ph, g := range l.ev.entry.phis {
				if _, ok := ph.Type().Underlying().(*types.Slice); ok && emptyList(l.ev.entry.init[ph]) && keptAsIs(paths, g) && collects(func(r *Path) (*Term, *Term) { return r.hdr.phis[ph], r.phis[ph] }) {
					keysOf[g] = l.over
				}
			}
			for loc, g := range l.ev.entry.locs {
				if i := l.ev.entry.locInit[loc]; i != nil && emptyList(i) && keptAsIs(paths, g) && collects(func(r *Path) (*Term, *Term) { return r.hdr.locs[loc], c.e.load0(r.st, loc) }) {
					keysOf[g] = l.over
				}
			}
		}
	}
	written := func(pt part, at int) bool {
		if pt.cont == nil {
			return true
		}
		d, ok := drained[pt.cont]
		return ok && d > at
	}
	evAt := func(e *Event) int {
		for i, x := range evs {
			if x == e {
				return i
			}
		}
		return 0
	}
	// the two encoded parts
	for _, want := range []struct {
		name string
		loc  *Term
	}{{"word/document.xml", fieldLocOf(f, c.p, docF)}, {"word/_rels/document.xml.rels", fieldLocOf(f, c.p, sh.relF)}} {
		ok := false
		for _, pt := range direct {
			n, _ := pt.name.strVal()
			if n != want.name || !written(pt, evAt(pt.ev)) {
				continue
			}
			if c.encodes(pt, want.loc) {
				ok = true
			} else if o := pt.data; o != nil && o.op == "obj" && pt.how == "" {
				if g := writesItself(c.p, o.typ); g != nil {
					if fld := c.encodedField(g); fld != "" && unwrap(c.e.load0(q.st, fieldLoc(o, fld))) == want.loc {
						ok = true
					}
				}
			}
		}
		if ok {
			c.n("encoded_parts")
		} else {
			c.fail("part", fn, nil, want.name, "a save can succeed without %s being written with the document's content", want.name)
		}
	}
	// kept files and media
	keptOK, mediaOK := false, false
	why := map[string]string{}
	for _, l := range loops {
		if l.walk == nil || l.walk.list == nil {
			continue
		}
		isKept, isMedia := sameList(l.walk.src, kept), l.walk.src.op == "ld" && l.walk.src.args[0] == media
		if !isKept && !isMedia {
			continue
		}
		rs := rounds(paths, l.ev)
		good := len(rs) > 0
		for _, r := range rs {
			rw := walkOf(r, r.hdr)
			if rw == nil || !rw.steps(r) {
				good = false
				continue
			}
			rev := roundEvents(r)
			ok := false
			for _, pt := range c.parts(r, rev, z) {
				if !written(pt, l.at) {
					why["drain"] = "; the table it is put into is not written out afterwards"
					continue
				}
				if isKept && isElem(pt.name, rw.list, rw.idx) {
					for _, e := range rev {
						if e.kind == "call" && strings.HasSuffix(e.sym, ".Open") && len(e.a) == 2 && e.res[0] == pt.data && e.a[0] == fsys && c.openName(r, e.a[1], pt.name, tmpl) {
							ok = true
							c.n("kept_puts")
						}
					}
				}
				if isMedia && c.mediaPath2(pt.name, rw, sh.name) {
					d := pt.data
					if pt.how == "" {
						d = nil
						for _, e := range rev {
							if e.kind == "call" && e.sym == "bytes.NewReader" && e.res[0] == pt.data {
								d = e.a[0]
							}
						}
					}
					if d != nil && pt.how != "encode" && isElemField(d, rw, sh.data) {
						ok = true
						c.n("media_puts")
					}
				}
			}
			if !ok {
				good = false
			}
		}
		if good && isKept {
			keptOK = true
		}
		if good && isMedia {
			mediaOK = true
		}
	}
	if !keptOK {
		c.fail("part", fn, nil, "kept files", "a save can succeed without every kept file being written under its own name from the file of that name%s", why["drain"])
	}
	if !mediaOK {
		c.fail("part", fn, nil, "media", "a save can succeed without every media item being written under its path with all its bytes%s", why["drain"])
	}
}

// openName: the name a kept file is opened under: its own, or inside the template's folder,
// whichever the path's knowledge about the template asks for.
func (c *Ctx) openName(q *Path, arg, name, tmpl *Term) bool {
	if q.st.facts.mustBe(tmpl, "") {
		return arg == name
	}
	return !q.st.facts.mayBe(tmpl, "") && arg == concat(name.typ, mkStr("xml/"), tmpl, mkStr("/"), name)
}

// mediaPath2: the name is the media folder followed by the name of the element of this round.
func (c *Ctx) mediaPath2(name *Term, rw *Walk, field string) bool {
	if name.op != "bin" || name.sym != "+" {
		return false
	}
	s, ok := name.args[0].strVal()
	return ok && s == "word/media/" && isElemField(name.args[1], rw, field)
}

// ---------------------------------------------------------------- C28

const (
	docPart   = "word/document.xml"
	relPart   = "word/_rels/document.xml.rels"
	mediaPart = "word/media/"
)

// entryOf: the archive entry whose whole content the reader or byte slice is.
func (c *Ctx) entryOf(evs []*Event, v *Term) *Term {
	v = unwrap(v)
	for i, ev := range evs {
		if ev.kind != "call" || len(ev.res) == 0 || ev.res[0] != v {
			continue
		}
		switch {
		case strings.HasSuffix(ev.sym, "zip.File).Open"):
			return ev.a[0]
		case ev.sym == "io.ReadAll" || ev.sym == "bytes.NewReader" || ev.sym == "bufio.NewReader" || ev.sym == "encoding/xml.NewDecoder" || ev.sym == "bytes.NewBuffer":
			return c.entryOf(evs[:i], ev.a[0])
		}
	}
	return nil
}

type routed struct {
	what string
	file *Term
	ok   bool
	ev   *Event
	msg  string
}

// routes: what a list of events does with archive entries.
func (c *Ctx) routes(q *Path, evs []*Event, docF, relF, listF string, sh *docShape) []routed {
	var r []routed
	for _, ev := range evs {
		switch {
		case ev.kind == "call" && strings.HasSuffix(ev.sym, "xml.Decoder).Decode") && len(ev.a) > 1:
			u := unwrap(ev.a[1])
			f := c.entryOf(q.ev(), ev.a[0])
			if isDocFieldLoc(c.p, u, docF) {
				r = append(r, routed{what: docPart, file: f, ok: f != nil, ev: ev})
			} else if isDocFieldLoc(c.p, u, relF) {
				r = append(r, routed{what: relPart, file: f, ok: f != nil, ev: ev})
			}
		case ev.kind == "store" && isDocFieldLoc(c.p, ev.a[0], sh.media) && ev.a[1].op == "append":
			for _, it := range ev.a[1].args[1:] {
				x := routed{what: mediaPart, ev: ev}
				d := structField(it, sh.data)
				x.file = c.entryOf(q.ev(), d)
				x.ok = x.file != nil
				if x.file != nil {
					n := entryName(x.file)
					is := func(t *Term) bool { return sameLoad(t, n) }
					nm := structField(it, sh.name)
					if !(nm != nil && (nm.op == "slice" && is(nm.args[0]) && nm.args[2] == nil && isConstInt(nm.args[1], int64(len(mediaPart))) ||
						nm.op == "call" && hasSuffixAny(nm.sym, "strings.TrimPrefix", "strings.CutPrefix", "strings.CutPrefix#0") && is(nm.args[0]) && isStr(nm.args[1], mediaPart))) {
						x.ok = false
						x.msg = "the media item is not named by the rest of the entry's path"
					}
				} else {
					x.msg = "the media item does not hold all bytes of an entry"
				}
				r = append(r, x)
			}
		case ev.kind == "store" && isDocFieldLoc(c.p, ev.a[0], listF) && ev.a[1].op == "append":
			for _, n := range ev.a[1].args[1:] {
				x := routed{what: "kept", ev: ev}
				if n.op == "ld" && n.args[0].op == "fa" && n.args[0].sym == "Name" {
					if h := n.args[0].args[0]; h.op == "fa" && h.sym == "FileHeader" {
						x.file, x.ok = h.args[0], true
					}
				}
				if !x.ok {
					x.msg = "what is remembered is not the exact name of an entry"
				}
				r = append(r, x)
			}
		}
	}
	return r
}

func isConstInt(t *Term, v int64) bool {
	if t == nil {
		return false
	}
	i, ok := t.intVal()
	return ok && i == v
}
func isStr(t *Term, s string) bool {
	v, ok := t.strVal()
	return ok && v == s
}

// sameLoad: two values read from the same place; the archive reader's own data does not change
// while it is traversed, so reads at different times agree.
func sameLoad(a, b *Term) bool {
	return a == b || a != nil && b != nil && a.op == "ld" && b.op == "ld" && sameLoc(a.args[0], b.args[0])
}

func sameLoc(a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.op != b.op || len(a.args) != len(b.args) || a.op != "ld" && a.sym != b.sym || len(a.args) == 0 {
		return false
	}
	for i := range a.args {
		if !sameLoc(a.args[i], b.args[i]) {
			return false
		}
	}
	return true
}

// entryNames: the values on the path that are the path of entry e.
func entryNames(q *Path, evs []*Event, e *Term) []*Term {
	n := entryName(e)
	r := []*Term{n}
	for _, x := range allTerms(q, evs) {
		if x != n && sameLoad(x, n) {
			r = append(r, x)
		}
	}
	return r
}

// entryName: the path of an archive entry.
func entryName(f *Term) *Term {
	h := fieldLoc(f, "FileHeader")
	if h == nil {
		return nil
	}
	n := fieldLoc(h, "Name")
	return mk("ld", "", types.Typ[types.String], n)
}

func checkC28(c *Ctx) string {
	p := c.p
	rule := "opening traverses the entries of the archive front to back without leaving any out; in each round, by the entry's path: the main document part is decoded into the document, its relationships part into the relationships, an entry under the media folder becomes one media item named by the rest of its path with all its bytes, any other file's exact path is appended to the kept list, a folder entry does nothing; nothing else is done with entries, and the opened archive is what kept files are later read from"
	fn := p.fn("Parse")
	if fn == nil {
		c.fail("anchor", nil, nil, "Parse", "Parse is gone")
		return rule
	}
	sh := c.shape()
	docF, listF, fsF, tmplF := p.docField("docx.Document"), p.docField("[]string"), p.docField("fs.FS"), p.docField("string")
	paths := c.paths(fn)
	// the loop over the entries
	isEntries := func(q *Path, l *Term) bool {
		l = plain(l)
		return l != nil && l.op == "ld" && l.args[0].op == "fa" && l.args[0].sym == "File" && c.isArchive(q, l.args[0].args[0])
	}
	loopID := ""
	for _, q := range paths {
		if q.outcome != "back" {
			continue
		}
		if w := walkOf(q, q.hdr); w != nil && w.list != nil && isEntries(q, w.src) {
			loopID = q.loop
		}
	}
	if loopID == "" {
		c.fail("traversal", fn, nil, "loop", "no loop over the entries of the archive found")
		return rule
	}
	// parts remembered in a variable for decoding after the loop: variable -> part
	later := map[*ssa.Phi]string{}
	for _, q := range paths {
		if q.outcome != "back" || q.loop != loopID {
			continue
		}
		w := walkOf(q, q.hdr)
		if w == nil || w.list == nil || !isEntries(q, w.src) {
			c.fail("traversal", fn, nil, "round", "a round of the loop over the entries does not go by the list of entries")
			continue
		}
		if !w.first || !w.steps(q) {
			c.fail("traversal", fn, nil, "step", "the loop over the entries leaves some out")
			continue
		}
		c.n("entry_rounds")
		evs := roundEvents(q)
		var e *Term
		for _, x := range allTerms(q, evs) {
			if isElem(x, w.list, w.idx) {
				e = x
			}
		}
		if e == nil {
			c.fail("lost", fn, nil, "ignored", "a round passes over an entry without looking at it")
			continue
		}
		f := q.st.facts
		ns := entryNames(q, evs, e)
		mustBe := func(s string) bool {
			for _, n := range ns {
				if f.mustBe(n, s) {
					return true
				}
			}
			return false
		}
		mayBe := func(s string) bool {
			for _, n := range ns {
				if !f.mayBe(n, s) {
					return false
				}
			}
			return true
		}
		isDir := c.isDir(q, evs, e, ns)
		rs := c.routes(q, evs, docF, sh.relF, listF, sh)
		for ph, v := range q.phis {
			if sameLoad(v, e) && q.hdr.phis[ph] != v {
				what := "?"
				if mustBe(docPart) {
					what = docPart
				} else if mustBe(relPart) {
					what = relPart
				}
				if old, ok := later[ph]; ok && old != what || what == "?" {
					c.fail("wrong", fn, nil, "remembered", "an entry is remembered whatever its path is")
				}
				later[ph] = what
				rs = append(rs, routed{what: what, file: e, ok: true})
			}
		}
		inMedia, mediaKnown := false, false
		for _, n := range ns {
			if v, known := f.decide(mk("call", "strings.HasPrefix", types.Typ[types.Bool], n, mkStr(mediaPart))); known {
				inMedia, mediaKnown = v, true
			}
			if set, ok := f.strSet(n); ok {
				all := true
				for _, s := range set {
					if strings.HasPrefix(s, mediaPart) {
						all = false
					}
				}
				if all {
					inMedia, mediaKnown = false, true
				}
			}
		}
		for _, r := range rs {
			if !r.ok || !sameLoad(r.file, e) {
				m := r.msg
				if m == "" {
					m = "it does not concern this round's entry"
				}
				ins := ssa.Instruction(nil)
				if r.ev != nil {
					ins = r.ev.instr
				}
				c.fail("wrong", fn, ins, r.what, "an entry is not treated as it should be (%s): %s", r.what, m)
			}
		}
		desc := func() string {
			var s []string
			for _, r := range rs {
				s = append(s, r.what)
			}
			if len(s) == 0 {
				return "nothing is done with it"
			}
			return "treated as " + strings.Join(s, " and ")
		}
		want := ""
		switch {
		case mustBe(docPart):
			want = docPart
		case mustBe(relPart):
			want = relPart
		case mayBe(docPart) || mayBe(relPart):
			if isDir == 1 {
				want = "folder"
				break
			}
			c.fail("wrong", fn, nil, "parts", "an entry that may be the document or its relationships is not told apart: %s", desc())
			continue
		case isDir == 1:
			want = "folder"
		case !mediaKnown:
			c.fail("wrong", fn, nil, "media", "an entry that may lie under the media folder is not told apart: %s", desc())
			continue
		case inMedia:
			want = mediaPart
		default:
			want = "kept"
		}
		c.n("routed_" + want)
		if want == "folder" {
			if len(rs) != 0 {
				c.fail("wrong", fn, nil, "folder", "a folder entry is treated as content: %s", desc())
			}
			continue
		}
		if (want == "kept" || want == mediaPart) && isDir != 0 {
			c.fail("wrong", fn, nil, "folder", "an entry that may be a folder is treated as content: %s", desc())
			continue
		}
		if len(rs) != 1 || rs[0].what != want {
			c.fail("wrong", fn, nil, want, "an entry that is %s: %s", map[string]string{docPart: "the main document part", relPart: "the relationships part", mediaPart: "a media file", "kept": "any other file"}[want], desc())
		}
	}
	for _, q := range paths {
		if q.outcome != "return" {
			continue
		}
		k, _ := retErr(q)
		if k == "err" {
			continue
		}
		c.n("success_paths")
		ok := false
		for _, l := range c.completed(q) {
			if l.ev.sym == loopID {
				ok = true
			}
		}
		if !ok {
			c.fail("traversal", fn, nil, "exhausted", "opening can succeed before every entry has been looked at")
		}
		d := q.rets[0]
		if v := c.e.load0(q.st, fieldLocOf(d, p, fsF)); !c.isArchive(q, unwrap(v)) {
			c.fail("source", fn, nil, "file system", "kept files of an opened document would be read from %v, not from the opened archive", v)
		}
		if v := c.e.load0(q.st, fieldLocOf(d, p, tmplF)); !isStr(v, "") {
			c.fail("source", fn, nil, "template", "an opened document has the template %v set", v)
		}
		// what happens outside the rounds
		for _, r := range c.routes(q, q.ev(), docF, sh.relF, listF, sh) {
			good := false
			for ph, what := range later {
				for _, l := range c.completed(q) {
					if l.ev.sym == loopID && l.ev.entry.phis[ph] == r.file && what == r.what {
						good = true
						c.n("decoded_later")
					}
				}
			}
			if !good {
				c.fail("wrong", fn, r.ev.instr, "outside "+r.what, "an entry is treated as %s outside the traversal", r.what)
			}
		}
		for ph, what := range later {
			done := false
			for _, l := range c.completed(q) {
				if l.ev.sym != loopID {
					continue
				}
				g := l.ev.entry.phis[ph]
				if q.st.facts.isNil(g) {
					done = true
				}
				for _, r := range c.routes(q, q.ev(), docF, sh.relF, listF, sh) {
					if r.file == g && r.what == what {
						done = true
					}
				}
			}
			if !done {
				c.fail("lost", fn, nil, what, "opening can succeed without decoding %s", what)
			}
		}
	}
	for _, k := range []string{docPart, relPart, mediaPart, "kept", "folder"} {
		c.atLeast("routed_"+k, 1)
	}
	c.atLeast("success_paths", 1)
	return rule
}

// isArchive: the value is the reader of the opened archive.
func (c *Ctx) isArchive(q *Path, v *Term) bool {
	for _, ev := range q.ev() {
		if ev.kind == "call" && ev.sym == "archive/zip.NewReader" && ev.res[0] == v {
			return true
		}
	}
	return false
}

// isDir: whether the path knows the entry to be a folder (1), a file (0) or neither (-1).
func (c *Ctx) isDir(q *Path, evs []*Event, e *Term, ns []*Term) int {
	f := q.st.facts
	for _, n := range ns {
		if v, known := f.decide(mk("call", "strings.HasSuffix", types.Typ[types.Bool], n, mkStr("/"))); known {
			if v {
				return 1
			}
			return 0
		}
	}
	var info, mode *Term
	hdr := fieldLoc(e, "FileHeader")
	for _, ev := range evs {
		if ev.kind != "call" || len(ev.res) == 0 {
			continue
		}
		switch {
		case strings.HasSuffix(ev.sym, "zip.FileHeader).FileInfo") && (sameLoc(ev.a[0], hdr) || sameLoad(ev.a[0], e)):
			info = ev.res[0]
		case strings.HasSuffix(ev.sym, "zip.FileHeader).Mode") && (sameLoc(ev.a[0], hdr) || sameLoad(ev.a[0], e)):
			mode = ev.res[0]
		case strings.HasSuffix(ev.sym, ".IsDir") && (ev.a[0] == info && info != nil || ev.a[0] == mode && mode != nil):
			if v, known := f.decide(ev.res[0]); known {
				if v {
					return 1
				}
				return 0
			}
		}
	}
	return -1
}

// allTerms: the values a list of events and the facts of the path speak about.
func allTerms(q *Path, evs []*Event) []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		r = append(r, t)
		for _, a := range t.args {
			visit(a)
		}
	}
	for _, ev := range evs {
		for _, a := range ev.a {
			visit(a)
		}
		for _, a := range ev.res {
			visit(a)
		}
	}
	for t := range q.st.facts.bools {
		visit(t)
	}
	for t := range q.st.facts.in {
		visit(t)
	}
	for t := range q.st.facts.notin {
		visit(t)
	}
	for _, v := range q.phis {
		visit(v)
	}
	return r
}
