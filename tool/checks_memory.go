package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C42: opening sizes nothing by a number that the input merely claims.
//
// A size is bounded when it is made of constants and of lengths of what is already in memory, or
// when the path knows a constant limit for it. Sizes of everything made while opening must be
// bounded, and so must the number of rounds of every loop that does not consume input.

const sizeLimit = 1 << 20

// sizes: calls that make something as large as an argument says.
var sizes = map[string]int{
	"strings.Repeat": 1, "bytes.Repeat": 1, "(*strings.Builder).Grow": 1, "(*bytes.Buffer).Grow": 1, "slices.Grow": 1,
	"bufio.NewReaderSize": 1, "bufio.NewWriterSize": 1, "(reflect.Value).Grow": 1, "reflect.MakeSlice": 1,
}

func (c *Ctx) bounded(f *Facts, t *Term, params bool) bool {
	if t == nil {
		return true
	}
	if iv := f.interval(t); iv.hasHi && iv.hi <= sizeLimit {
		return true
	}
	switch t.op {
	case "const", "len", "nil":
		return true
	case "param", "free":
		return params
	case "conv", "chtype":
		if isString(t.args[0]) {
			return true
		}
		return c.bounded(f, t.args[0], params)
	case "bin":
		a, b := c.bounded(f, t.args[0], params), c.bounded(f, t.args[1], params)
		switch t.sym {
		case "+", "-", "|", "^":
			return a && b
		case "*", "<<":
			_, k1 := t.args[0].intVal()
			_, k2 := t.args[1].intVal()
			return a && b && (k1 || k2)
		case "/", ">>":
			return a
		case "%", "&":
			return c.limit(f, t.args[0], params) || c.limit(f, t.args[1], params)
		}
	case "call":
		if t.sym == "min" {
			for _, a := range t.args {
				if c.limit(f, a, params) {
					return true
				}
			}
		}
		if t.sym == "max" {
			for _, a := range t.args {
				if !c.bounded(f, a, params) {
					return false
				}
			}
			return true
		}
		return strings.HasPrefix(t.sym, "strings.") && isIntT(t.typ) // a position in a text
	}
	return false
}

// limit: what keeps another number small; a constant has to be a small one itself.
func (c *Ctx) limit(f *Facts, t *Term, params bool) bool {
	if k, ok := t.intVal(); ok {
		return k <= sizeLimit
	}
	return c.bounded(f, t, params)
}

// belowBounded: values compared with it in facts bound t from above by something bounded.
func (c *Ctx) belowBounded(f *Facts, t *Term, params bool) bool {
	if c.bounded(f, t, params) {
		return true
	}
	b, _ := lin(t)
	for k, v := range f.bools {
		if k.op != "bin" || k.sym != "<" {
			continue
		}
		lo, hi := k.args[0], k.args[1]
		if !v {
			lo, hi = hi, lo
		}
		if bl, _ := lin(lo); bl != nil && (bl == b || lo == t) && c.limit(f, hi, params) {
			return true
		}
	}
	return false
}

func checkC42(c *Ctx) string {
	op := c.p.opening()
	seen := map[ssa.Instruction]bool{}
	for _, fn := range c.p.allEntries() {
		if !op[fn] {
			continue
		}
		c.n("entries")
		// what a helper is told by the library itself is judged where it is called
		params := !token.IsExported(fn.Name())
		for _, q := range c.paths(fn) {
			for _, ev := range q.ev() {
				switch ev.kind {
				case "alloc":
					if !seen[ev.instr] {
						seen[ev.instr] = true
						c.n("allocations")
					}
					for _, t := range ev.a {
						if !c.belowBounded(ev.facts, t, params) {
							c.fail("size", ev.fn, ev.instr, ev.sym, "a %s is made as large as %v says, which comes from the input", ev.sym, t)
						}
					}
				case "call":
					if i, ok := sizes[ev.sym]; ok && i < len(ev.a) {
						c.n("sized_calls")
						if !c.belowBounded(q.st.facts, ev.a[i], params) {
							c.fail("size", ev.fn, ev.instr, ev.sym, "%s makes something as large as %v says, which comes from the input", ev.sym, ev.a[i])
						}
					}
				}
			}
			if q.outcome == "back" {
				c.roundsBounded(fn, q, params)
			}
		}
	}
	c.atLeast("entries", 60)
	c.atLeast("loop_paths", 60)
	return "in every function reached from Parse or from an element reader, the length and capacity of every list, map and channel made, and the size handed to every call that makes something of that size, is made of constants and lengths of what is in memory or is limited by a constant on the path; every loop that counts without consuming input is limited in the same way"
}

// roundsBounded: a round that consumes no input counts towards a bound that is not claimed by the input.
func (c *Ctx) roundsBounded(fn *ssa.Function, q *Path, params bool) {
	in := false
	for _, ev := range q.ev() {
		if ev.kind == "loop" && ev.sym == q.loop {
			in = true
			continue
		}
		if in && (ev.kind == "call" || ev.kind == "reccall") && (ev.sym == "(*encoding/xml.Decoder).Token" || ev.sym == "(*encoding/xml.Decoder).RawToken" || strings.HasSuffix(ev.sym, ").Read") || ev.sym == "io.Reader.Read") {
			c.n("loop_paths")
			return
		}
	}
	c.n("loop_paths")
	f := q.st.facts
	check := func(g, nv, init *Term) {
		if nv == nil || nv == g || !isIntT(g.typ) {
			return
		}
		bg, og := lin(g)
		bn, on := lin(nv)
		if bg == nil || bg != bn {
			return
		}
		if on < og { // counting down
			if init != nil && !c.belowBounded(f, init, params) {
				c.fail("rounds", fn, lastInstr(q), "loop", "the loop counts down from %v, which comes from the input", init)
			}
			return
		}
		any := false
		var worst *Term
		for k, v := range f.bools {
			if k.op != "bin" || k.sym != "<" {
				continue
			}
			lo, hi := k.args[0], k.args[1]
			if !v {
				lo, hi = hi, lo
			}
			if bl, _ := lin(lo); bl == bg {
				if c.limit(f, hi, params) {
					any = true
				} else {
					worst = hi
				}
			}
		}
		if iv := f.interval(g); iv.hasHi && iv.hi <= sizeLimit {
			any = true
		}
		if !any && worst != nil {
			c.fail("rounds", fn, lastInstr(q), "loop", "the loop makes as many rounds as %v says, which comes from the input", worst)
		}
	}
	for ph, nv := range q.phis {
		if basic, ok := ph.Type().Underlying().(*types.Basic); ok && basic.Info()&types.IsInteger != 0 {
			check(q.hdr.phis[ph], nv, q.hdr.init[ph])
		}
	}
	for loc, g := range q.hdr.locs {
		if isIntT(g.typ) {
			check(g, q.st.heap[loc], nil)
		}
	}
}
