package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// modSet is the set of struct fields (owner type + field name) a function may write in memory
// that existed before it was called, directly or through functions of this repository it calls.
type modSet map[string]bool

// addrField resolves the field a store through v ends up in.
func addrField(v ssa.Value) (key string, local bool, idx bool) {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		st := locTypeOf(x.X.Type())
		key = tstr(st) + "." + st.Underlying().(*types.Struct).Field(x.Field).Name()
		r := v
		for {
			switch y := r.(type) {
			case *ssa.FieldAddr:
				r = y.X
				continue
			case *ssa.IndexAddr:
				if _, ok := y.X.Type().Underlying().(*types.Pointer); ok {
					r = y.X
					continue
				}
			case *ssa.Alloc:
				return key, true, false
			}
			return key, false, false
		}
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if _, ok := x.X.(*ssa.Alloc); ok {
				return "", true, true
			}
		}
		return "elem:" + tstr(locTypeOf(x.Type())), false, true
	case *ssa.Alloc:
		return "", true, false
	case *ssa.Global:
		return "global:" + x.String(), false, false
	}
	return "deref:" + tstr(locTypeOf(v.Type())), false, false
}

func (p *Program) mods(fn *ssa.Function) modSet {
	if p.modCache == nil {
		p.modCache = map[*ssa.Function]modSet{}
	}
	if m, ok := p.modCache[fn]; ok {
		return m
	}
	m := modSet{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	addAddr := func(v ssa.Value) {
		k, local, _ := addrField(v)
		if local {
			return
		}
		if k != "" {
			m[k] = true
		}
		if st := fieldsOf(locTypeOf(v.Type())); st != nil {
			addAll(m, locTypeOf(v.Type()))
		}
	}
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch in := ins.(type) {
				case *ssa.Store:
					addAddr(in.Addr)
				case *ssa.MapUpdate:
					m["map:"+tstr(in.Map.Type())] = true
				case *ssa.MakeClosure:
					visit(in.Fn.(*ssa.Function))
				case ssa.CallInstruction:
					c := in.Common()
					if g := c.StaticCallee(); g != nil {
						if p.inScope(g) && len(g.Blocks) > 0 {
							visit(g)
							continue
						}
						n := fnName(g)
						if isPure(n) || readOnlyExternal(n) {
							continue
						}
						for _, a := range c.Args {
							if mi, ok := a.(*ssa.MakeInterface); ok {
								a = mi.X
							}
							if _, ok := a.Type().Underlying().(*types.Pointer); ok {
								addAddr(a)
							}
						}
					} else if b, ok := c.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
						m["map:"+tstr(c.Args[0].Type())] = true
					} else if ok && b.Name() == "copy" {
						if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
							m["elem:"+tstr(sl.Elem())] = true
						}
					}
				}
			}
		}
	}
	visit(fn)
	p.modCache[fn] = m
	return m
}

func addAll(m modSet, t types.Type) {
	st := fieldsOf(t)
	if st == nil {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		m[tstr(t)+"."+st.Field(i).Name()] = true
		addAll(m, st.Field(i).Type())
	}
}

// applyMods makes everything fn may write unknown.
func (e *Engine) applyMods(s *State, fn *ssa.Function, args []*Term) {
	m := e.prog.mods(fn)
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		havocSerial++
		s.fepoch[k] = mk("havoc", "f"+itoa(havocSerial), nil)
	}
	var qs []*Term
	for q := range s.heap {
		switch q.op {
		case "fa":
			if m[fieldKey(q)] {
				qs = append(qs, q)
			}
		case "ia":
			if m["elem:"+tstr(locType(q))] && rootOf(q).op != "obj" {
				qs = append(qs, q)
			}
		case "mi":
			if q.args[0].typ != nil && m["map:"+tstr(q.args[0].typ)] {
				qs = append(qs, q)
			}
		}
	}
	sort.Slice(qs, func(i, j int) bool { return qs[i].id < qs[j].id })
	for _, q := range qs {
		s.heap[q] = fresh("?mod", locType(q))
	}
	for _, a := range args {
		if a.op == "iface" {
			a = a.args[0]
		}
		if rootOf(a).op == "obj" {
			e.freshFields(s, a, locType(a), m, 0)
		}
	}
}

func (e *Engine) freshFields(s *State, base *Term, t types.Type, m modSet, d int) {
	st := fieldsOf(t)
	if st == nil || d > 4 {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		fa := faddr(base, st, i)
		if fieldsOf(st.Field(i).Type()) != nil {
			e.freshFields(s, fa, st.Field(i).Type(), m, d+1)
			continue
		}
		if m[fieldKey(fa)] {
			s.heap[fa] = fresh("?mod", st.Field(i).Type())
		}
	}
}
