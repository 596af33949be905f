package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) callArgs(s *State, fr *Frame, c *ssa.CallCommon) (fnv *Term, args []*Term) {
	if c.IsInvoke() {
		fnv = e.val(s, fr, c.Value)
	} else {
		fnv = e.val(s, fr, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, e.val(s, fr, a))
	}
	return
}

func calleeName(c *ssa.CallCommon, fnv *Term) string {
	if c.IsInvoke() {
		return "(" + tstr(c.Value.Type()) + ")." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return fnName(f)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return "dyn:" + fnv.String()
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Signature.Recv() != nil {
		return "(" + tstr(f.Signature.Recv().Type()) + ")." + f.Name()
	}
	if f.Pkg != nil && f.Object() != nil {
		return f.Pkg.Pkg.Path() + "." + f.Name()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path() + "." + f.Name()
	}
	return f.String()
}

// doCall executes a call. It returns forked states (if it forked) and whether a frame was pushed.
func (e *Engine) doCall(s *State, ins ssa.CallInstruction, c *ssa.CallCommon, fnv *Term, args []*Term, isDefer bool) (forks []*State, pushed bool) {
	fr := s.top()
	setRes := func(t *Term) {
		if !isDefer {
			if v := ins.Value(); v != nil {
				fr.env[v] = t
			}
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		setRes(e.builtin(s, ins, b.Name(), args, c))
		return nil, false
	}
	var callee *ssa.Function
	var free []*Term
	name := calleeName(c, fnv)
	if c.IsInvoke() {
		okNN := e.nonNil(s, fnv)
		e.oblige(s, ins, "nil-invoke", okNN, fnv)
		s.facts.setNil(fnv, false)
		recv := fnv
		if recv.op == "iface" {
			if ct := ifaceType[recv.sym]; ct != nil {
				if sel := e.prog.ssa.MethodSets.MethodSet(ct).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
					if m := e.prog.ssa.MethodValue(sel); m != nil {
						callee = m
						args = append([]*Term{recv.args[0]}, args...)
						name = fnName(m)
					}
				}
			}
		}
		if callee == nil {
			args = append([]*Term{recv}, args...)
		}
	} else if f := c.StaticCallee(); f != nil {
		callee = f
		if fnv.op == "closure" {
			free = fnv.args
		}
	} else {
		if fnv.op == "func" {
			callee = e.prog.byName[fnv.sym]
			if callee != nil {
				name = fnName(callee)
			}
		} else if fnv.op == "closure" {
			callee = closureFn[fnv]
			free = fnv.args
		}
		if callee == nil {
			okNN := e.nonNil(s, fnv)
			e.oblige(s, ins, "nil-func", okNN, fnv)
			s.facts.setNil(fnv, false)
		}
	}
	if callee != nil && callee.Synthetic != "" && len(callee.Blocks) == 0 {
		callee.Prog.Build()
	}
	inl := callee != nil && len(callee.Blocks) > 0 && e.prog.inScope(callee)
	rec := false
	if inl {
		for _, f := range s.frames {
			if f.fn == callee {
				rec = true
			}
		}
		if len(s.frames) >= e.maxDepth {
			rec = true
			e.bail("inlining depth exceeded at %s", callee)
		}
		if e.opaque != nil && e.opaque(callee) {
			inl = false
		}
	}
	if inl && !rec {
		e.fnsSeen[callee] = true
		nf := &Frame{fn: callee, env: map[ssa.Value]*Term{}, block: callee.Blocks[0], callIn: ins, inDef: isDefer}
		for i, p := range callee.Params {
			if i < len(args) {
				nf.env[p] = args[i]
			}
		}
		for i, fv := range callee.FreeVars {
			if i < len(free) {
				nf.env[fv] = free[i]
			} else {
				nf.env[fv] = fresh("free", fv.Type())
			}
		}
		e.event(s, &Event{kind: "enter", sym: name, callee: callee, a: args, instr: ins, defr: isDefer})
		s.frames = append(s.frames, nf)
		if len(callee.Blocks[0].Preds) > 0 {
			// entry block is a loop header
			if l := e.prog.loops(callee)[callee.Blocks[0]]; l != nil {
				e.enterLoop(s, l, map[*ssa.Phi]*Term{})
			}
		}
		return nil, true
	}
	e.callsSeen[name]++
	kind := "call"
	if rec {
		kind = "reccall"
	}
	sig := c.Signature()
	var old *Term
	if strings.HasPrefix(name, "sync/atomic.Store") && len(args) > 0 {
		old = e.load0(s, args[0])
	}
	res := e.model(s, ins, name, callee, args, sig, kind)
	ev := &Event{kind: kind, sym: name, a: args, res: res, instr: ins, callee: callee, defr: isDefer, old: old}
	if name == "(*xml.Decoder).Token" {
		ev.snap = make(map[*Term]*Term, len(s.heap))
		for k, v := range s.heap {
			ev.snap[k] = v
		}
	}
	e.event(s, ev)
	setRes(tupleOf(res, sigResult(sig)))
	return nil, false
}

func sigResult(sig *types.Signature) types.Type {
	if sig.Results().Len() == 1 {
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func (e *Engine) builtin(s *State, ins ssa.CallInstruction, name string, args []*Term, c *ssa.CallCommon) *Term {
	it := types.Typ[types.Int]
	switch name {
	case "len":
		return lenOf(s, args[0])
	case "cap":
		return mk("cap", "", it, args[0])
	case "append":
		b := args[0]
		if b.op == "nil" || b.op == "const" {
			b = mkNil(c.Args[0].Type())
		}
		if len(args) < 2 {
			return b
		}
		v := args[1]
		if v.op == "nil" {
			return b
		}
		if v.op == "arrslice" {
			at := locType(v.args[0]).Underlying().(*types.Array)
			as := []*Term{b}
			for i := int64(0); i < at.Len(); i++ {
				loc := mk("ia", "", types.NewPointer(at.Elem()), v.args[0], mkInt(i))
				as = append(as, e.load(s, loc, at.Elem()))
			}
			if b.op == "append" { // flatten
				as = append(append([]*Term{}, b.args...), as[1:]...)
			}
			r := mk("append", "", ins.Value().Type(), as...)
			if b.op == "slice" {
				e.event(s, &Event{kind: "extend", a: []*Term{r}, instr: ins})
			}
			return r
		}
		r := mk("appendslice", "", ins.Value().Type(), b, v)
		if b.op == "slice" {
			e.event(s, &Event{kind: "extend", a: []*Term{r}, instr: ins})
		}
		return r
	case "copy":
		e.event(s, &Event{kind: "copy", a: args, instr: ins})
		if args[0].op == "mkslice" || args[0].op == "arrslice" {
			e.havocAt(s, args[0].args[0], nil)
		} else {
			e.havocAt(s, args[0], nil)
		}
		s.heap[mk("copied", "", nil, args[0])] = args[1]
		return fresh("copyn", it)
	case "delete":
		e.event(s, &Event{kind: "mapdel", a: args, instr: ins})
		e.havocAt(s, args[0], nil)
		return mk("tuple", "", nil)
	case "clear":
		e.event(s, &Event{kind: "clear", a: args, instr: ins})
		e.havocAt(s, args[0], nil)
		return mk("tuple", "", nil)
	case "min", "max":
		return mk("call", name, c.Signature().Results().At(0).Type(), args...)
	case "recover":
		return fresh("recovered", types.Universe.Lookup("any").Type())
	case "ssa:wrapnilchk":
		return args[0]
	case "ssa:deferstack":
		return fresh("deferstack", ins.Value().Type())
	case "print", "println", "close":
		e.event(s, &Event{kind: "call", sym: name, a: args, instr: ins})
		return mk("tuple", "", nil)
	}
	e.event(s, &Event{kind: "call", sym: name, a: args, instr: ins})
	if v := ins.Value(); v != nil {
		return fresh(name, v.Type())
	}
	return mk("tuple", "", nil)
}

var purePkgs = []string{"strings.", "strconv.", "unicode.", "unicode/utf8.", "path.", "path/filepath.", "math.", "math/bits.", "cmp."}

func isPure(name string) bool {
	for _, p := range purePkgs {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	switch name {
	case "fmt.Sprintf", "fmt.Sprint", "errors.Is", "errors.As", "errors.Unwrap", "(error).Error", "(*regexp.Regexp).MatchString", "bytes.NewReader.", "encoding/xml.Name.", "reflect.TypeOf", "reflect.ValueOf", "reflect.DeepEqual", "reflect.Indirect":
		return true
	}
	if strings.HasPrefix(name, "(reflect.Value).") {
		m := name[len("(reflect.Value)."):]
		return !strings.HasPrefix(m, "Set") && !strings.HasPrefix(m, "Call")
	}
	if strings.HasPrefix(name, "(reflect.Type).") || strings.HasPrefix(name, "(*reflect.rtype).") {
		return true
	}
	return false
}

// sprintf: a text put together from a constant format with plain verbs, strings and whole numbers.
func (e *Engine) sprintf(s *State, args []*Term) *Term {
	f, ok := args[0].strVal()
	if !ok || len(args) != 2 || args[1].op != "arrslice" {
		return nil
	}
	at, ok := locType(args[1].args[0]).Underlying().(*types.Array)
	if !ok {
		return nil
	}
	str := types.Typ[types.String]
	var parts []*Term
	k := int64(0)
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			parts = append(parts, mkStr(f[i:j]))
			i = j - 1
			continue
		}
		i++
		if i == len(f) {
			return nil
		}
		if f[i] == '%' {
			parts = append(parts, mkStr("%"))
			continue
		}
		if k >= at.Len() {
			return nil
		}
		v := e.load(s, mk("ia", "", types.NewPointer(at.Elem()), args[1].args[0], mkInt(k)), at.Elem())
		k++
		if v.op != "iface" {
			return nil
		}
		x := v.args[0]
		b, ok := x.typ.(*types.Basic)
		switch {
		case ok && b.Info()&types.IsString != 0 && (f[i] == 's' || f[i] == 'v'):
			parts = append(parts, x)
		case ok && b.Info()&types.IsInteger != 0 && (f[i] == 'd' || f[i] == 'v'):
			parts = append(parts, mk("call", "strconv.Itoa", str, e.convert(x, types.Typ[types.Int])))
		default:
			return nil
		}
	}
	if k != at.Len() {
		return nil
	}
	return concat(str, parts...)
}

func (e *Engine) model(s *State, ins ssa.CallInstruction, name string, callee *ssa.Function, args []*Term, sig *types.Signature, kind string) []*Term {
	n := sig.Results().Len()
	rt := func(i int) types.Type { return sig.Results().At(i).Type() }
	short := name
	if i := strings.LastIndexByte(name, '.'); i >= 0 {
		short = name[i+1:]
	}
	freshAll := func() []*Term {
		var r []*Term
		for i := 0; i < n; i++ {
			r = append(r, fresh(fmt.Sprintf("%s·%d", short, i), rt(i)))
		}
		return r
	}
	switch name {
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		if a, ok := args[0].strVal(); ok {
			if b, ok2 := args[1].strVal(); ok2 {
				switch short {
				case "HasPrefix":
					return []*Term{mkBool(strings.HasPrefix(a, b))}
				case "HasSuffix":
					return []*Term{mkBool(strings.HasSuffix(a, b))}
				default:
					return []*Term{mkBool(strings.Contains(a, b))}
				}
			}
		}
	case "strings.EqualFold":
		if a, ok := args[0].strVal(); ok {
			if b, ok2 := args[1].strVal(); ok2 {
				return []*Term{mkBool(strings.EqualFold(a, b))}
			}
		}
	case "strings.TrimPrefix", "strings.CutPrefix":
		if p, ok := args[1].strVal(); ok {
			hp := mk("call", "strings.HasPrefix", types.Typ[types.Bool], args[0], args[1])
			if v, known := s.facts.decide(hp); known {
				r := args[0]
				if v {
					if sv, isC := args[0].strVal(); isC {
						r = mkStr(sv[len(p):])
					} else {
						r = mk("slice", "", rt(0), args[0], mkInt(int64(len(p))), nil)
					}
				}
				if n == 1 {
					return []*Term{r}
				}
				return []*Term{r, mkBool(v)}
			}
		}
	case "fmt.Sprintf":
		if t := e.sprintf(s, args); t != nil {
			return []*Term{t}
		}
	case "(xml.StartElement).Copy", "encoding/xml.CopyToken":
		return []*Term{args[0]}
	case "errors.Is":
		if isSentinel(args[1]) {
			return []*Term{mk("bin", "==", types.Typ[types.Bool], args[0], args[1])}
		}
	case "errors.New", "fmt.Errorf":
		t := mk("call", name, rt(0), args...)
		// keep the format arguments readable: variadic packs are opaque
		t = mk("nonnil", fmt.Sprintf("%s:%d", name, ins.Pos()), rt(0), t)
		return []*Term{t}
	case "sync/atomic.AddUintptr", "sync/atomic.AddUint64", "sync/atomic.AddInt64", "sync/atomic.AddInt32", "sync/atomic.AddUint32":
		old := e.load0(s, args[0])
		var nv *Term
		if d, ok := args[1].intVal(); ok {
			nv = addConst(old, d)
		} else {
			nv = mk("bin", "+", rt(0), old, args[1])
		}
		e.store(s, args[0], nv, rt(0))
		return []*Term{nv}
	case "sync/atomic.LoadUintptr", "sync/atomic.LoadUint64", "sync/atomic.LoadInt64":
		return []*Term{e.load0(s, args[0])}
	case "sync/atomic.StoreUintptr", "sync/atomic.StoreUint64", "sync/atomic.StoreInt64":
		e.store(s, args[0], args[1], args[1].typ)
		return nil
	case "fmt.Sscanf", "fmt.Sscan", "fmt.Sscanln":
		r := freshAll()
		// the scanned pointers are in the variadic pack
		v := args[len(args)-1]
		if v.op == "arrslice" {
			at := locType(v.args[0]).Underlying().(*types.Array)
			for i := int64(0); i < at.Len(); i++ {
				p := e.load(s, mk("ia", "", types.NewPointer(at.Elem()), v.args[0], mkInt(i)), at.Elem())
				if p.op == "iface" {
					p = p.args[0]
				}
				if lt := locType(p); lt != nil {
					f := ""
					if name == "fmt.Sscanf" {
						f, _ = args[1].strVal()
					}
					e.store(s, p, mk("call", "scan:"+f, lt, args[0], mkInt(i)), lt)
				}
			}
		}
		return r
	case "(*encoding/xml.Decoder).DecodeElement", "(*xml.Decoder).DecodeElement", "(*encoding/xml.Decoder).Decode", "(*xml.Decoder).Decode":
		p := args[1]
		if p.op == "iface" {
			p = p.args[0]
		}
		e.havocDecode(s, p)
		return freshAll()
	}
	if strings.HasPrefix(name, "(reflect.Value).Set") && len(args) > 0 {
		// a store through reflection may change any field of what was reflected on
		if p := reflected(args[0]); p != nil && locType(p) != nil {
			e.havocAt(s, p, nil)
		}
		return freshAll()
	}
	if isPure(name) {
		if n == 1 {
			return []*Term{mk("call", name, rt(0), args...)}
		}
		var r []*Term
		for i := 0; i < n; i++ {
			r = append(r, mk("call", fmt.Sprintf("%s#%d", name, i), rt(i), args...))
		}
		return r
	}
	if callee != nil && e.prog.isNumParser(callee) {
		return []*Term{mk("call", "NUM:"+name+"#0", rt(0), args...), mk("call", "NUM:"+name+"#1", rt(1), args...)}
	}
	if callee != nil && e.prog.inScope(callee) && len(callee.Blocks) > 0 && kind == "call" {
		e.applyMods(s, callee, args)
		return freshAll()
	}
	// anything else: results unknown; memory passed by pointer to an unknown external callee may change
	if !readOnlyExternal(name) {
		for _, a := range args {
			x := a
			if x.op == "iface" {
				x = x.args[0]
			}
			if x.op == "obj" || x.op == "fa" || x.op == "ia" {
				if kind == "reccall" {
					e.havocDecode(s, x)
				} else if _, ok := x.typ.Underlying().(*types.Pointer); ok {
					e.havocAt(s, x, nil)
				}
			}
			if kind == "reccall" && (x.op == "param" || x.op == "ld") {
				if _, ok := x.typ.Underlying().(*types.Pointer); ok && e.prog.isRepoType(locType(x)) {
					e.havocDecode(s, x)
				}
			}
		}
	}
	return freshAll()
}

// readOnlyExternal lists external callees that do not write through their pointer arguments
// (or whose receiver state is not modelled).
func readOnlyExternal(name string) bool {
	switch name {
	case "bytes.NewReader", "archive/zip.NewWriter", "archive/zip.NewReader", "io.Copy", "io.ReadAll", "io.WriteString", "os.ReadFile", "os.Open", "(*xml.Encoder).Encode", "encoding/xml.NewEncoder", "encoding/xml.NewDecoder", "(*zip.Writer).Create", "(*zip.Writer).Close", "(*zip.File).Open":
		return true
	}
	if strings.HasPrefix(name, "(*strings.Builder).") || strings.HasPrefix(name, "(*sync.") || strings.HasPrefix(name, "(*bytes.Buffer).") || strings.HasPrefix(name, "dyn:") || strings.HasPrefix(name, "(*xml.Decoder).") || strings.HasPrefix(name, "(reflect.") {
		return true
	}
	return false
}

// havocDecode: *p is decoded; exported state becomes unknown. Owner pointers survive because no
// UnmarshalXML writes them (checked by C08 as rule "decoder-keeps-owner").
func (e *Engine) havocDecode(s *State, p *Term) {
	e.havocAt(s, p, func(loc *Term) bool {
		return loc.sym == e.prog.ownerField || e.prog.nsKept(loc)
	})
}

// reflected: the pointer a reflect.Value was made from, when it stands for memory behind it.
func reflected(v *Term) *Term {
	for v != nil && v.op == "call" && len(v.args) > 0 {
		switch v.sym {
		case "reflect.ValueOf":
			return unwrap(v.args[0])
		case "(reflect.Value).Elem", "(reflect.Value).Field", "(reflect.Value).FieldByName", "reflect.Indirect", "(reflect.Value).Index", "(reflect.Value).Addr":
			v = v.args[0]
			continue
		}
		return nil
	}
	return nil
}
