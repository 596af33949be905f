package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- C30

// looks: an operation that only looks at a document: rendering, looking up, comparing, saving.
func (c *Ctx) looks(fn *ssa.Function) bool {
	sg := fn.Signature
	if fn.Parent() != nil || sg.Recv() == nil {
		// rules: functions, and closures handed out, that judge runs or paragraphs
		if sg.Recv() != nil || sg.Results().Len() != 1 || sg.Params().Len() == 0 || tstr(sg.Results().At(0).Type()) != "bool" {
			return false
		}
		for i := 0; i < sg.Params().Len(); i++ {
			pt, ok := sg.Params().At(i).Type().(*types.Pointer)
			if !ok || !c.p.isRepoType(pt.Elem()) {
				return false
			}
		}
		return true
	}
	switch fn.Name() {
	case "String", "GoString", "Format", "WriteTo", "Read", "MarshalXML", "MarshalXMLAttr", "MarshalText", "Error", "Len":
		return true
	}
	if !types.Identical(sg.Recv().Type(), types.NewPointer(c.p.docxType())) || fn.Object() == nil || !fn.Object().Exported() {
		return false
	}
	// lookups of a document: from a text to what is stored under it
	if sg.Params().Len() != 1 || tstr(sg.Params().At(0).Type()) != "string" || sg.Results().Len() == 0 {
		return false
	}
	switch t := sg.Results().At(0).Type().Underlying().(type) {
	case *types.Basic:
		return t.Kind() == types.String
	case *types.Pointer:
		return !types.Identical(t.Elem(), c.p.docxType())
	}
	return false
}

func checkC30(c *Ctx) string {
	rule := "no path of an operation that renders, looks up, compares or saves stores to, updates, deletes from, copies over, sorts, counts up or extends in place anything that existed before it was called"
	for _, fn := range c.p.allEntries() {
		if !c.looks(fn) {
			continue
		}
		c.n("operations")
		paths := c.paths(fn)
		o := c.origins(paths)
		for _, q := range paths {
			if q.outcome == "panic" {
				continue
			}
			c.n("operation_paths")
			old := func(t *Term) *Term {
				for b := range o.bases(c, q, t) {
					switch b.op {
					case "param", "free", "global":
						return b
					}
				}
				return nil
			}
			c.effects(q, func(ev *Event, loc *Term, how string) {
				if strings.HasPrefix(ev.sym, "(*sync.Mutex)") || strings.HasPrefix(ev.sym, "(*sync.RWMutex)") {
					return
				}
				c.n("writes")
				if ev.kind == "store" && rootOf(loc).op == "obj" && loc.op != "ia" {
					return
				}
				if old(loc) != nil {
					if strings.HasPrefix(ev.sym, "sync/atomic.") {
						how = "counted up"
					}
					c.fail("changes", fn, ev.instr, how+" "+lastField(loc), "looking at it changes the document: %v is %s", loc, how)
				}
			})
			// lists of the document extended in place
			seen := map[*Term]bool{}
			ext := func(v *Term, ins ssa.Instruction) {
				for v != nil && (v.op == "append" || v.op == "appendslice" || v.op == "slice" || v.op == "iface" || v.op == "chtype") && len(v.args) > 0 && !seen[v] {
					seen[v] = true
					if (v.op == "append" || v.op == "appendslice") && !capped(v.args[0]) && !q.st.facts.isNil(v.args[0]) {
						if x := v.args[0]; x.op != "append" && x.op != "appendslice" && old(x) != nil {
							c.fail("extends", fn, ins, lastField(x), "looking at the document appends to its list %v in place", x)
						}
					}
					v = v.args[0]
				}
			}
			for _, ev := range q.ev() {
				for _, v := range ev.a {
					ext(v, ev.instr)
				}
			}
			for _, v := range q.phis {
				ext(v, nil)
			}
			for _, v := range q.rets {
				ext(v, nil)
			}
		}
	}
	c.atLeast("operations", 9)
	c.atLeast("operation_paths", 60)
	return rule
}

// ---------------------------------------------------------------- C31

// chance: calls whose results differ between runs on the same input.
func chance(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	pk := f.Pkg
	path := ""
	if pk != nil {
		path = pk.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		path = f.Object().Pkg().Path()
	} else if og := f.Origin(); og != nil && og.Pkg != nil {
		path = og.Pkg.Pkg.Path()
	}
	name := f.Name()
	if og := f.Origin(); og != nil {
		name = og.Name()
	}
	switch path {
	case "math/rand", "math/rand/v2", "crypto/rand", "hash/maphash":
		return path + "." + name
	case "time":
		switch name {
		case "Now", "Since", "Until", "Tick", "After", "NewTimer", "NewTicker", "AfterFunc":
			return "time." + name
		}
	case "os":
		switch name {
		case "Getenv", "LookupEnv", "Environ", "Getpid", "Getppid", "Hostname", "Getwd", "TempDir", "UserHomeDir", "ExpandEnv", "MkdirTemp", "CreateTemp", "Executable":
			return "os." + name
		}
	case "runtime":
		switch name {
		case "NumGoroutine", "NumCPU", "GOMAXPROCS", "ReadMemStats", "Stack":
			return "runtime." + name
		}
	case "reflect":
		switch name {
		case "MapKeys", "MapRange":
			return "reflect " + name + " (map order)"
		}
	case "sync":
		if name == "Range" {
			return "(*sync.Map).Range"
		}
	}
	return ""
}

func checkC31(c *Ctx) string {
	rule := "no function of the library asks a clock, a random source, the environment or the scheduler, starts goroutines, formats addresses or takes the order of a map: a loop over a map carries nothing from round to round that depends on which key came first, numbers nothing, and is not left early with what was found, unless the list it made is sorted"
	for _, fn := range c.p.all {
		if !c.p.inScope(fn) || len(fn.Blocks) == 0 {
			continue
		}
		if strings.Contains(fn.Synthetic, "wrapper") || fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		c.n("functions_scanned")
		mapLoop := false
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch in := ins.(type) {
				case *ssa.Go:
					c.fail("schedule", fn, ins, "go", "a goroutine is started: what is done first depends on the scheduler")
				case *ssa.Select:
					c.fail("schedule", fn, ins, "select", "a select depends on the scheduler")
				case *ssa.Range:
					if _, ok := in.X.Type().Underlying().(*types.Map); ok {
						mapLoop = true
						c.n("map_loops")
					}
				case *ssa.Convert:
					if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
						if x, ok := in.X.Type().Underlying().(*types.Basic); ok && x.Kind() == types.UnsafePointer {
							c.fail("address", fn, ins, "uintptr", "an address is used as a number")
						}
					}
				case ssa.CallInstruction:
					c.n("calls_scanned")
					cc := in.Common()
					callee := cc.StaticCallee()
					if s := chance(callee); s != "" {
						c.fail("source", fn, ins, s, "%s is asked: the result does not depend on the document alone", s)
					}
					if callee != nil && callee.Origin() != nil && callee.Origin().Pkg != nil && callee.Origin().Pkg.Pkg.Path() == "maps" {
						switch callee.Origin().Name() {
						case "Keys", "Values", "All":
							if !onlySorted(in) {
								c.fail("map-order", fn, ins, "maps."+callee.Origin().Name(), "the order of a map is used")
							}
						}
					}
					if callee != nil && callee.Pkg != nil && callee.Pkg.Pkg.Path() == "fmt" {
						for _, a := range cc.Args {
							if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") {
								c.fail("address", fn, ins, "%p", "an address is formatted")
							}
						}
					}
				}
			}
		}
		if mapLoop {
			c.mapOrder(fn)
		}
	}
	c.atLeast("functions_scanned", 150)
	c.atLeast("calls_scanned", 500)
	return rule
}

// onlySorted: an iterator over a map is used only to make a sorted list.
func onlySorted(in ssa.CallInstruction) bool {
	v := in.Value()
	if v == nil || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		var k ssa.CallInstruction
		switch x := r.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.ChangeType:
			for _, r2 := range *x.Referrers() {
				if k2, ok := r2.(ssa.CallInstruction); ok {
					k = k2
				}
			}
		case ssa.CallInstruction:
			k = x
		}
		if k == nil {
			return false
		}
		f := k.Common().StaticCallee()
		if f == nil {
			return false
		}
		n := f.Name()
		if og := f.Origin(); og != nil {
			n = og.Name()
		}
		if !strings.HasPrefix(n, "Sorted") {
			return false
		}
	}
	return true
}

// mapOrder judges the loops of a function over maps.
func (c *Ctx) mapOrder(fn *ssa.Function) {
	paths := c.paths(fn)
	for _, q := range paths {
		if q.outcome == "panic" {
			continue
		}
		// the key and value of the round the path is in
		var next *Event
		var le *LoopEntry
		for _, ev := range q.ev() {
			if ev.kind == "loop" {
				le2 := ev.entry
				if q.outcome == "back" && le2 == q.hdr {
					le = le2
				}
			}
			if ev.kind == "next" && !ev.instr.(*ssa.Next).IsString {
				next = ev
			}
		}
		if next == nil {
			continue
		}
		dep := func(v *Term) bool {
			return v != nil && v.contains(func(x *Term) bool { return x == next.a[2] || x == next.a[3] })
		}
		more, known := q.st.facts.decide(next.a[1])
		if q.outcome == "return" {
			if known && !more {
				continue
			}
			c.n("map_exits")
			for i, r := range q.rets {
				if tstr(fn.Signature.Results().At(i).Type()) == "error" {
					continue
				}
				if dep(r) {
					c.fail("map-order", fn, next.instr, "found", "the loop over a map is left with %v: which one it is depends on the order of the map", r)
				}
			}
			past := false
			for _, ev := range q.ev() {
				if ev == next {
					past = true
				}
				if !past || ev.kind != "mapset" && ev.kind != "store" && ev.kind != "mapdel" {
					continue
				}
				if ev.kind == "store" && rootOf(ev.a[0]).op == "obj" && !escapes(q, rootOf(ev.a[0])) {
					continue
				}
				for _, a := range ev.a[1:] {
					if dep(a) {
						c.fail("map-order", fn, ev.instr, "found", "%v is what the loop over a map was left with: which one it is depends on the order of the map", a)
					}
				}
			}
			continue
		}
		if le == nil || q.hdr.loop == nil || !q.hdr.loop.body[next.instr.Block()] || q.hdr.loop.header != next.instr.Block() {
			continue
		}
		c.n("map_rounds")
		carried := func(what string, g, nv *Term) {
			if orderFree(q, g, nv) {
				return
			}
			if sortedLater(paths, le, g) {
				return
			}
			c.fail("map-order", fn, next.instr, "carried", "%s takes the order of a map: a round makes it %v", what, nv)
		}
		for ph, g := range le.phis {
			if nv := q.phis[ph]; nv != nil && nv != g {
				carried(ph.Comment, g, nv)
			}
		}
		for loc, g := range le.locs {
			if loc.op == "mi" && (loc.args[0] == next.a[0] || strings.HasPrefix(c.e.load0(q.st, loc).sym, "?alias")) {
				continue // an entry of a map, stored under its key
			}
			if nv := c.e.load0(q.st, loc); nv != nil && nv != g {
				carried(lastField(loc), g, nv)
			}
		}
		made := map[*Term]bool{}
		for _, ev := range roundEvents(q) {
			for _, r := range ev.res {
				made[r] = true
			}
			if ev.kind == "call" && len(ev.a) > 1 && writesTo(ev.sym) {
				w := unwrap(ev.a[0])
				own := made[w] || made[ev.a[0]]
				for _, a := range ev.a[1:] {
					if !own && dep(a) {
						c.fail("map-order", fn, ev.instr, "written", "the order of a map is written out by %s", ev.sym)
					}
				}
			}
			if ev.kind == "call" && strings.HasPrefix(ev.sym, "sync/atomic.Add") {
				c.fail("map-order", fn, ev.instr, "numbered", "numbers are given out in the order of a map")
			}
		}
	}
}

// writesTo: the call adds its further arguments to what its first argument has taken so far.
func writesTo(n string) bool {
	if strings.Contains(n, "zip.Writer).Create") || strings.HasSuffix(n, "zip.Writer).Copy") || strings.HasSuffix(n, "zip.Writer).AddFS") {
		return true // the next entry of the archive
	}
	if i := strings.LastIndex(n, "."); i >= 0 {
		switch n[i+1:] {
		case "Write", "WriteString", "WriteByte", "WriteRune", "Fprint", "Fprintf", "Fprintln", "Encode", "EncodeElement", "EncodeToken", "Copy":
			return true
		}
	}
	return false
}

// orderFree: the value after the round is the same in whichever order the rounds come.
func orderFree(q *Path, g, nv *Term) bool {
	if nv.isConst() || nv.op == "const" || nv.op == "nil" {
		return true
	}
	if isIntT(nv.typ) {
		if b, _ := lin(nv); b == g {
			return true
		}
		if nv.op == "bin" && nv.sym == "+" && (nv.args[0] == g || nv.args[1] == g) {
			return true
		}
		// the largest or smallest
		if v, known := q.st.facts.decide(mk("bin", "<", types.Typ[types.Bool], g, nv)); known && v {
			return true
		}
		if v, known := q.st.facts.decide(mk("bin", "<", types.Typ[types.Bool], nv, g)); known && v {
			return true
		}
	}
	return false
}

// sortedLater: the list is sorted after the loop, on every path that leaves it.
func sortedLater(paths []*Path, le *LoopEntry, g *Term) bool {
	any := false
	for _, q := range paths {
		if q.outcome == "panic" || q.outcome == "back" && q.hdr == le {
			continue
		}
		in, sorted := false, false
		for _, ev := range q.ev() {
			if ev.kind == "loop" && ev.entry == le {
				in = true
			}
			if in && ev.kind == "call" && (strings.HasPrefix(ev.sym, "sort.") || strings.HasPrefix(ev.sym, "slices.Sort")) {
				for _, a := range ev.a {
					if a != nil && a.mentions(g) {
						sorted = true
					}
				}
			}
		}
		if !in {
			continue
		}
		if !sorted {
			if q.outcome == "return" {
				if k, _ := retErr(q); k == "err" {
					continue
				}
				used := false
				for _, r := range q.rets {
					if r.mentions(g) {
						used = true
					}
				}
				if !used {
					continue
				}
			}
			return false
		}
		any = true
	}
	return any
}

// escapes: the object is part of what the path returns or was put into something else.
func escapes(q *Path, o *Term) bool {
	for _, r := range q.rets {
		if r != nil && (r == o || r.mentions(o)) {
			return true
		}
	}
	for loc, v := range q.st.heap {
		if v != nil && rootOf(loc) != o && v.mentions(o) {
			return true
		}
	}
	return false
}
