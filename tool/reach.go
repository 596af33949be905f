package main

import (
	"go/types"
)

// held is one field of an object or struct value reachable from what a path hands on.
type held struct {
	owner types.Type // struct type the field belongs to
	name  string
	v     *Term
	obj   *Term // object it is in, nil for struct values
	loc   *Term
}

// Reach is what can be reached from a set of values through memory the path itself built:
// objects it allocated and struct values it made. Memory that existed before is not entered.
type Reach struct {
	objs   map[*Term]bool
	fields []held
	vals   map[*Term]bool // every value met
}

func (c *Ctx) reach(q *Path, roots []*Term) *Reach {
	r := &Reach{objs: map[*Term]bool{}, vals: map[*Term]bool{}}
	byObj := map[*Term][]*Term{}
	for loc := range q.st.heap {
		if o := rootOf(loc); o.op == "obj" {
			byObj[o] = append(byObj[o], loc)
		}
	}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || r.vals[t] {
			return
		}
		r.vals[t] = true
		switch t.op {
		case "obj":
			r.objs[t] = true
			for _, loc := range byObj[t] {
				v := q.st.heap[loc]
				if loc.op == "fa" {
					r.fields = append(r.fields, held{owner: locType(loc.args[0]), name: loc.sym, v: v, obj: t, loc: loc})
				}
				visit(v)
			}
		case "struct":
			if st := fieldsOf(t.typ); st != nil {
				for i, a := range t.args {
					r.fields = append(r.fields, held{owner: t.typ, name: st.Field(i).Name(), v: a})
					visit(a)
				}
			}
		case "append", "appendslice", "iface", "arrslice", "slice", "mkslice", "tuple", "chtype", "closure", "fa", "ia", "mi", "arrval":
			for _, a := range t.args {
				visit(a)
			}
		}
	}
	for _, t := range roots {
		visit(t)
	}
	return r
}

// handedOn: the values a path hands on: results, values carried into the next round, and what it
// stored into memory that existed before; on back edges also every list the round extended.
func handedOn(q *Path) []*Term {
	var r []*Term
	r = append(r, q.rets...)
	for _, v := range q.phis {
		r = append(r, v)
	}
	for loc, v := range q.st.heap {
		if rootOf(loc).op != "obj" {
			r = append(r, v)
		} else if q.outcome == "back" && (v.op == "append" || v.op == "appendslice" || loc.op == "ia") {
			r = append(r, v)
		}
	}
	return r
}
