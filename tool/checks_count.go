package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Writers of the library's own that hand on what is written to them, and what a save says it has written.

// through describes a type whose Write hands everything to another writer.
type through struct {
	named *types.Named
	to    string // the field of the writer behind it
	count string // the field the bytes are counted in ("" when they are not)
}

// passThrough: each Write of the type is one Write of the same bytes to the writer in one of its fields,
// whose results it returns.
func (c *Ctx) passThrough(t types.Type) *through {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || !c.p.isRepoType(n) {
		return nil
	}
	fn := c.p.method(n.Obj().Name(), "Write")
	if fn == nil || len(fn.Blocks) == 0 || len(fn.Params) != 2 {
		return nil
	}
	recv := mk("param", fn.Params[0].Name(), fn.Params[0].Type())
	data := mk("param", fn.Params[1].Name(), fn.Params[1].Type())
	th := &through{named: n}
	for i, q := range c.paths(fn) {
		if q.outcome != "return" || len(q.rets) != 2 {
			return nil
		}
		var w *Event
		var sum, at *Term
		for _, ev := range q.ev() {
			switch ev.kind {
			case "call":
				if w != nil || ev.sym != "(io.Writer).Write" || len(ev.res) != 2 {
					return nil
				}
				w = ev
			case "store":
				if ev.a[0].op == "fa" && ev.a[0].args[0] == recv {
					if at != nil {
						return nil
					}
					at, sum = ev.a[0], ev.a[1]
				}
			case "reccall", "loop", "go", "send", "mapset", "copy":
				return nil
			}
		}
		if w == nil || w.a[1] != data || q.rets[0] != w.res[0] || q.rets[1] != w.res[1] {
			return nil
		}
		l := w.a[0]
		if l.op != "ld" || l.args[0].op != "fa" || l.args[0].args[0] != recv {
			return nil
		}
		to, count := l.args[0].sym, ""
		if at != nil && sum.op == "bin" && sum.sym == "+" {
			a, b := sum.args[0], sum.args[1]
			if a.op != "ld" {
				a, b = b, a
			}
			if a.op == "ld" && a.args[0] == at && (b == w.res[0] || b.op == "conv" && b.args[0] == w.res[0]) {
				count = at.sym
			}
		}
		if at != nil && at.sym == to || i > 0 && to != th.to {
			return nil
		}
		if i > 0 && count != th.count {
			count, th.count = "", ""
		}
		th.to, th.count = to, count
	}
	if th.to == "" {
		return nil
	}
	return th
}

// behind: the writer that gets what is written to w, looking through the library's own writers.
func (c *Ctx) behind(evs []*Event, w *Term) *Term {
	w = flushed(evs, unwrap(w))
	if w == nil || w.typ == nil {
		return w
	}
	th := c.passThrough(w.typ)
	if th == nil {
		return w
	}
	var to *Term
	for _, ev := range evs {
		if ev.kind == "store" && ev.a[0].op == "fa" && ev.a[0].args[0] == w && ev.a[0].sym == th.to {
			if to != nil {
				return w
			}
			to = ev.a[1]
		}
	}
	if to == nil {
		return w
	}
	return c.behind(evs, to)
}

// alwaysGiven: wherever a value of the unexported struct type is made, the field is given a parameter or a
// new object in the same block, and nothing else is ever put there.
func (p *Program) alwaysGiven(n *types.Named, field string) bool {
	st, ok := n.Underlying().(*types.Struct)
	if !ok || n.Obj().Exported() {
		return false
	}
	given := func(v ssa.Value) bool {
		switch v := v.(type) {
		case *ssa.Parameter, *ssa.MakeInterface, *ssa.Alloc:
			return true
		case *ssa.UnOp:
			_, ok := v.X.(*ssa.FreeVar)
			return ok
		}
		return false
	}
	holds := func(t types.Type) bool { // a value of it inside another type
		switch u := t.(type) {
		case *types.Slice:
			return types.Identical(u.Elem(), n)
		case *types.Array:
			return types.Identical(u.Elem(), n)
		case *types.Map:
			return types.Identical(u.Elem(), n)
		}
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if types.Identical(s.Field(i).Type(), n) {
					return true
				}
			}
		}
		return false
	}
	made := 0
	for _, fn := range p.all {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if v, ok := ins.(ssa.Value); ok {
					t := v.Type()
					if pt, ok := t.(*types.Pointer); ok {
						t = pt.Elem()
					}
					if holds(t) {
						return false
					}
				}
				if fa, ok := ins.(*ssa.FieldAddr); ok && types.Identical(fa.X.Type(), types.NewPointer(n)) && st.Field(fa.Field).Name() == field {
					for _, r := range *fa.Referrers() {
						switch r := r.(type) {
						case *ssa.Store:
							if r.Addr != fa || !given(r.Val) {
								return false
							}
						case *ssa.UnOp, *ssa.DebugRef:
						default:
							return false
						}
					}
				}
				al, ok := ins.(*ssa.Alloc)
				if !ok || !types.Identical(al.Type(), types.NewPointer(n)) {
					continue
				}
				made++
				set := false
				for _, r := range *al.Referrers() {
					fa, ok := r.(*ssa.FieldAddr)
					if !ok || fa.Block() != b || st.Field(fa.Field).Name() != field {
						continue
					}
					for _, r2 := range *fa.Referrers() {
						if s, ok := r2.(*ssa.Store); ok && s.Addr == fa && s.Block() == b {
							set = true
						}
					}
				}
				if !set {
					return false
				}
			}
		}
	}
	return made > 0
}

// ---------------------------------------------------------------- C34

func checkC34(c *Ctx) string {
	for _, fn := range c.p.exportedFns() {
		sg := fn.Signature
		if fn.Name() != "WriteTo" || sg.Recv() == nil || sg.Params().Len() != 1 || !isNamed(sg.Params().At(0).Type(), "io", "Writer") || sg.Results().Len() != 2 {
			continue
		}
		if n := namedBehind(sg.Recv().Type()); n == nil || !n.Obj().Exported() {
			continue
		}
		c.n("saves")
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ret, ok := ins.(*ssa.Return)
				if !ok || len(ret.Results) != 2 {
					continue
				}
				c.n("returns")
				if why := c.counts34(fn, ret, ret.Results[0], map[ssa.Value]bool{}); why != "" {
					c.fail("count", fn, ret, "", "%s", why)
				}
			}
		}
	}
	c.atLeast("saves", 1)
	c.atLeast("returns", 1)
	return "every return of a save hands back the field in which a writer of the library's own, put in front of the caller's, adds up what the caller's writer says it has taken, read after the last call that can write; or the count the only call that writes to the caller's writer returned; a constant 0 only where nothing can have been written yet"
}

func namedBehind(t types.Type) *types.Named {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// counts34: the value returned is how much was written ("" when it is).
func (c *Ctx) counts34(fn *ssa.Function, ret *ssa.Return, v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	w := ssa.Value(fn.Params[1])
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Int64() == 0 && !c.wrote(fn, ret) {
			return ""
		}
		return "a fixed number is returned although something may have been written"
	case *ssa.Phi:
		for _, e := range v.Edges {
			if why := c.counts34(fn, ret, e, seen); why != "" {
				return why
			}
		}
		return ""
	case *ssa.Convert:
		return c.counts34(fn, ret, v.X, seen)
	case *ssa.ChangeType:
		return c.counts34(fn, ret, v.X, seen)
	case *ssa.Extract:
		call, ok := v.Tuple.(*ssa.Call)
		if !ok || v.Index != 0 {
			break
		}
		if f := call.Call.StaticCallee(); f != nil && c.p.inScope(f) && len(f.Blocks) > 0 {
			// a helper that does the writing: its own returns are judged instead
			for i, a := range call.Call.Args {
				if a == w && i < len(f.Params) && f.Signature.Results().Len() == 2 {
					return c.helper34(f, f.Params[i])
				}
			}
			break
		}
		n := 0
		for _, r := range *w.Referrers() {
			if _, ok := r.(*ssa.DebugRef); !ok {
				n++
			}
		}
		for _, a := range append([]ssa.Value{call.Call.Value}, call.Call.Args...) {
			if a == w && n == 1 {
				return ""
			}
		}
	case *ssa.UnOp:
		fa, ok := v.X.(*ssa.FieldAddr)
		if !ok {
			break
		}
		th := c.passThrough(fa.X.Type())
		st, _ := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		if th == nil || th.count == "" || st.Field(fa.Field).Name() != th.count {
			return "what is returned is not a count of the bytes that were taken"
		}
		// the caller's writer is behind it, and nowhere else
		for _, r := range *w.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
			case *ssa.Store:
				g, ok := r.Addr.(*ssa.FieldAddr)
				if !ok || g.X != fa.X || st.Field(g.Field).Name() != th.to {
					return "the caller's writer is also written to past the count"
				}
			case *ssa.Call:
				if r != fa.X || !c.puts(r, w, st, th.to) {
					return "the caller's writer is also written to past the count"
				}
			default:
				return "the caller's writer is also written to past the count"
			}
		}
		for _, r := range *fa.X.Referrers() {
			if g, ok := r.(*ssa.FieldAddr); ok && st.Field(g.Field).Name() == th.count {
				for _, r2 := range *g.Referrers() {
					if s, ok := r2.(*ssa.Store); ok {
						if k, ok := s.Val.(*ssa.Const); !ok || k.Value == nil || k.Int64() != 0 {
							return "the count is changed from outside"
						}
					}
				}
			}
		}
		if lateCall(v, ret) {
			return "the count is taken before the last call that can write"
		}
		return ""
	}
	return "what is returned is not a count of the bytes that were taken"
}

// puts: the call makes a new object and does nothing with w but put it in the field.
func (c *Ctx) puts(call *ssa.Call, w ssa.Value, st *types.Struct, field string) bool {
	f := call.Call.StaticCallee()
	if f == nil || !c.p.inScope(f) || len(f.Blocks) != 1 {
		return false
	}
	ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) != 1 {
		return false
	}
	if _, ok := ret.Results[0].(*ssa.Alloc); !ok {
		return false
	}
	n := 0
	for i, a := range call.Call.Args {
		if a != w {
			continue
		}
		for _, r := range *f.Params[i].Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
			case *ssa.Store:
				g, ok := r.Addr.(*ssa.FieldAddr)
				if !ok || g.X != ret.Results[0] || st.Field(g.Field).Name() != field {
					return false
				}
				n++
			default:
				return false
			}
		}
	}
	return n == 1
}

func (c *Ctx) helper34(f *ssa.Function, w *ssa.Parameter) string {
	if len(f.Params) < 2 || f.Params[1] != w {
		return "what is returned is not a count of the bytes that were taken"
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if ret, ok := ins.(*ssa.Return); ok && len(ret.Results) == 2 {
				if why := c.counts34(f, ret, ret.Results[0], map[ssa.Value]bool{}); why != "" {
					return why
				}
			}
		}
	}
	return ""
}

// wrote: a call may come before the return.
func (c *Ctx) wrote(fn *ssa.Function, ret *ssa.Return) bool {
	back := map[*ssa.BasicBlock]bool{}
	var up func(b *ssa.BasicBlock)
	up = func(b *ssa.BasicBlock) {
		for _, p := range b.Preds {
			if !back[p] {
				back[p] = true
				up(p)
			}
		}
	}
	up(ret.Block())
	back[ret.Block()] = true
	for b := range back {
		for _, ins := range b.Instrs {
			if _, ok := ins.(ssa.CallInstruction); ok {
				return true
			}
		}
	}
	return false
}

// lateCall: a call that may write comes between v and the return.
func lateCall(v ssa.Instruction, ret *ssa.Return) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var down func(b *ssa.BasicBlock, from int) bool
	down = func(b *ssa.BasicBlock, from int) bool {
		for _, ins := range b.Instrs[from:] {
			switch x := ins.(type) {
			case *ssa.Call:
				if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
					if f := x.Call.StaticCallee(); f == nil || !strings.HasPrefix(fnName(f), "errors.") && !strings.HasPrefix(fnName(f), "fmt.Errorf") {
						return true
					}
				}
			case *ssa.RunDefers:
				for _, b := range ret.Parent().Blocks {
					for _, i := range b.Instrs {
						if _, ok := i.(*ssa.Defer); ok {
							return true
						}
					}
				}
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if down(s, 0) {
					return true
				}
			}
		}
		return false
	}
	for i, ins := range v.Block().Instrs {
		if ins == v {
			return down(v.Block(), i+1)
		}
	}
	return true
}
