package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed abstract value.
func itoa(i int) string { return strconv.Itoa(i) }

type Term struct {
	op   string
	sym  string
	args []*Term
	typ  types.Type
	id   int
}

type tkey struct {
	op, sym string
	n       int
	a       [4]*Term
	rest    string
}

var internTab = map[tkey]*Term{}
var termCount int

func mk(op, sym string, typ types.Type, args ...*Term) *Term {
	k := tkey{op: op, sym: sym, n: len(args)}
	if op == "param" || op == "free" {
		k.rest = tstr(typ)
	}
	for i, a := range args {
		if i < 4 {
			k.a[i] = a
			continue
		}
		if a == nil {
			k.rest += "|_"
		} else {
			k.rest += "|" + strconv.Itoa(a.id)
		}
	}
	if t, ok := internTab[k]; ok {
		return t
	}
	termCount++
	t := &Term{op: op, sym: sym, args: args, typ: typ, id: termCount}
	internTab[k] = t
	return t
}

var freshCount int

func fresh(desc string, typ types.Type) *Term {
	freshCount++
	return mk("sym", desc+"#"+strconv.Itoa(freshCount), typ)
}

func tstr(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func mkConst(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return mkNil(typ)
	}
	switch v.Kind() {
	case constant.String:
		return mk("const", "s:"+constant.StringVal(v), typ)
	case constant.Bool:
		return mkBool(constant.BoolVal(v))
	case constant.Int:
		return mk("const", "i:"+v.ExactString(), typ)
	case constant.Float:
		if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return mk("const", "i:"+constant.ToInt(v).ExactString(), typ)
		}
	}
	return mk("const", "x:"+v.ExactString(), typ)
}
func mkStr(s string) *Term { return mk("const", "s:"+s, types.Typ[types.String]) }
func mkInt(i int64) *Term  { return mk("const", "i:"+strconv.FormatInt(i, 10), types.Typ[types.Int]) }
func mkBool(b bool) *Term  { return mk("const", fmt.Sprintf("b:%v", b), types.Typ[types.Bool]) }
func mkNil(typ types.Type) *Term {
	return mk("nil", "", typ)
}
func (t *Term) isConst() bool { return t.op == "const" }
func (t *Term) intVal() (int64, bool) {
	if t != nil && t.op == "const" && strings.HasPrefix(t.sym, "i:") {
		i, err := strconv.ParseInt(t.sym[2:], 10, 64)
		return i, err == nil
	}
	return 0, false
}
func (t *Term) strVal() (string, bool) {
	if t != nil && t.op == "const" && strings.HasPrefix(t.sym, "s:") {
		return t.sym[2:], true
	}
	return "", false
}
func (t *Term) boolVal() (bool, bool) {
	if t != nil && t.op == "const" {
		switch t.sym {
		case "b:true":
			return true, true
		case "b:false":
			return false, true
		}
	}
	return false, false
}

// String renders a term for reports.
func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if t == nil {
		return "_"
	}
	if d > 8 {
		return "…"
	}
	switch t.op {
	case "const":
		if s, ok := t.strVal(); ok {
			return strconv.Quote(s)
		}
		return t.sym[2:]
	case "nil":
		return "nil"
	case "sym", "param", "obj", "global", "func", "free":
		return t.sym
	case "fa", "field":
		return t.args[0].str(d+1) + "." + t.sym
	case "ia":
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]"
	case "ld":
		return "*" + t.args[0].str(d+1)
	case "bin":
		return "(" + t.args[0].str(d+1) + " " + t.sym + " " + t.args[1].str(d+1) + ")"
	case "ta":
		return t.args[0].str(d+1) + ".(" + t.sym + ")"
	case "iface":
		return t.args[0].str(d + 1)
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.str(d+1))
	}
	return t.op + ":" + t.sym + "(" + strings.Join(as, ",") + ")"
}

// linear decomposition: term = base + off  (base nil for constants)
func lin(t *Term) (*Term, int64) {
	if i, ok := t.intVal(); ok {
		return nil, i
	}
	if t.op == "bin" && t.sym == "+" {
		if c, ok := t.args[1].intVal(); ok {
			b, o := lin(t.args[0])
			return b, o + c
		}
	}
	return t, 0
}
func addConst(t *Term, c int64) *Term {
	b, o := lin(t)
	o += c
	if b == nil {
		return mkInt(o)
	}
	if o == 0 {
		return b
	}
	return mk("bin", "+", t.typ, b, mkInt(o))
}

// rootOf returns the base pointer of a location term.
func rootOf(t *Term) *Term {
	for t.op == "fa" || t.op == "ia" || t.op == "mi" {
		t = t.args[0]
	}
	return t
}

// contains reports whether sub occurs in t.
func (t *Term) contains(pred func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var f func(*Term) bool
	f = func(x *Term) bool {
		if x == nil || seen[x] {
			return false
		}
		seen[x] = true
		if pred(x) {
			return true
		}
		for _, a := range x.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}
func (t *Term) mentions(s *Term) bool { return t.contains(func(x *Term) bool { return x == s }) }

// ---------------------------------------------------------------- facts

type ival struct {
	lo, hi       int64
	hasLo, hasHi bool
}

type Facts struct {
	nilf  map[*Term]bool // true = nil, false = non-nil
	bools map[*Term]bool
	in    map[*Term]map[string]bool
	notin map[*Term]map[string]bool
	iv    map[*Term]ival
	dyn   map[*Term]string
	dynNo map[*Term]map[string]bool
}

func newFacts() *Facts {
	return &Facts{map[*Term]bool{}, map[*Term]bool{}, map[*Term]map[string]bool{}, map[*Term]map[string]bool{}, map[*Term]ival{}, map[*Term]string{}, map[*Term]map[string]bool{}}
}
func (f *Facts) clone() *Facts {
	g := newFacts()
	for k, v := range f.nilf {
		g.nilf[k] = v
	}
	for k, v := range f.bools {
		g.bools[k] = v
	}
	for k, v := range f.in {
		g.in[k] = v // sets are immutable once stored
	}
	for k, v := range f.notin {
		g.notin[k] = v
	}
	for k, v := range f.iv {
		g.iv[k] = v
	}
	for k, v := range f.dyn {
		g.dyn[k] = v
	}
	for k, v := range f.dynNo {
		g.dynNo[k] = v
	}
	return g
}

func (f *Facts) interval(t *Term) ival {
	b, o := lin(t)
	if b == nil {
		return ival{o, o, true, true}
	}
	v, ok := f.iv[b]
	if !ok {
		if s, okIn := f.in[b]; okIn && len(s) > 0 {
			first := true
			for c := range s {
				if !strings.HasPrefix(c, "i:") {
					first = true
					break
				}
				i, _ := strconv.ParseInt(c[2:], 10, 64)
				if first {
					v = ival{i, i, true, true}
					first = false
				} else {
					if i < v.lo {
						v.lo = i
					}
					if i > v.hi {
						v.hi = i
					}
				}
			}
		}
	}
	if b.op == "len" || b.op == "cap" {
		if !v.hasLo || v.lo < 0 {
			v.lo, v.hasLo = 0, true
		}
	}
	v.lo += o
	v.hi += o
	return v
}

// nonNil tells whether pointer-like term t is known non-nil (structure + facts only).
func (f *Facts) nonNil(t *Term) bool {
	if t == nil {
		return false
	}
	switch t.op {
	case "obj", "global", "fa", "ia", "closure", "func", "iface", "append", "arrslice", "mkslice":
		if t.op == "append" && len(t.args) == 1 {
			break
		}
		return true
	case "nonnil":
		return true
	}
	if v, ok := f.nilf[t]; ok {
		return !v
	}
	if t.op == "conv" || t.op == "chtype" {
		return f.nonNil(t.args[0])
	}
	if _, ok := f.dyn[t]; ok {
		return true
	}
	return false
}
func (f *Facts) isNil(t *Term) bool {
	if t.op == "nil" {
		return true
	}
	v, ok := f.nilf[t]
	return ok && v
}

// decide evaluates a boolean term under the facts.
func (f *Facts) decide(c *Term) (val, known bool) {
	if b, ok := c.boolVal(); ok {
		return b, true
	}
	if v, ok := f.bools[c]; ok {
		return v, true
	}
	if c.op == "un" && c.sym == "!" {
		v, k := f.decide(c.args[0])
		return !v, k
	}
	if c.op == "bin" && (c.sym == "==" || c.sym == "!=") {
		a, b := c.args[0], c.args[1]
		if a.op == "nil" {
			a, b = b, a
		}
		if b.op == "nil" && a.op != "nil" {
			if f.isNil(a) {
				return c.sym == "==", true
			}
			if f.nonNil(a) || isSentinel(a) {
				return c.sym != "==", true
			}
			return false, false
		}
	}
	if c.op == "isT" {
		x := c.args[0]
		if x.op != "iface" && x.op != "nil" && !f.isNil(x) {
			if d, ok := f.dyn[x]; ok {
				return d == c.sym, true
			}
			if f.dynNo[x][c.sym] {
				return false, true
			}
			return false, false
		}
	}
	g := f.clone()
	t := g.assume(c, true)
	if !t {
		return false, true
	}
	g = f.clone()
	if !g.assume(c, false) {
		return true, true
	}
	return false, false
}

func isNilLike(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature, *types.Chan:
		return true
	}
	return false
}

// errSentinel: loads of package-level error variables are non-nil.
func isSentinel(t *Term) bool {
	return t.op == "ld" && t.args[0].op == "global" && types.Identical(t.typ, types.Universe.Lookup("error").Type())
}

func set1(s string) map[string]bool { return map[string]bool{s: true} }

func (f *Facts) setNil(t *Term, isnil bool) bool {
	if t.op == "nil" {
		return isnil
	}
	if isSentinel(t) {
		return !isnil
	}
	if isnil && f.nonNil(t) {
		return false
	}
	if v, ok := f.nilf[t]; ok {
		return v == isnil
	}
	f.nilf[t] = isnil
	if isnil {
		// any recorded equality with a sentinel must be false
		for k, v := range f.bools {
			if v && k.op == "bin" && k.sym == "==" && (k.args[0] == t && isSentinel(k.args[1]) || k.args[1] == t && isSentinel(k.args[0])) {
				return false
			}
			// unequal values are not both nil
			if !v && k.op == "bin" && k.sym == "==" && (k.args[0] == t && f.isNil(k.args[1]) || k.args[1] == t && f.isNil(k.args[0])) {
				return false
			}
		}
	}
	return true
}

func (f *Facts) assume(c *Term, val bool) bool {
	if b, ok := c.boolVal(); ok {
		return b == val
	}
	if v, ok := f.bools[c]; ok {
		return v == val
	}
	switch c.op {
	case "un":
		if c.sym == "!" {
			return f.assume(c.args[0], !val)
		}
	case "isT":
		x := c.args[0]
		if x.op == "iface" {
			return (x.sym == c.sym) == val
		}
		if x.op == "nil" || f.isNil(x) {
			return !val
		}
		if d, ok := f.dyn[x]; ok {
			return (d == c.sym) == val
		}
		if val {
			if f.dynNo[x][c.sym] {
				return false
			}
			f.dyn[x] = c.sym
			f.bools[c] = true
			return f.setNil(x, false)
		}
		n := map[string]bool{c.sym: true}
		for k := range f.dynNo[x] {
			n[k] = true
		}
		f.dynNo[x] = n
		f.bools[c] = false
		return true
	case "bin":
		a, b := c.args[0], c.args[1]
		switch c.sym {
		case "!=":
			return f.assume(mk("bin", "==", c.typ, a, b), !val)
		case ">":
			return f.assumeLt(b, a, val)
		case "<":
			return f.assumeLt(a, b, val)
		case ">=":
			return f.assumeLt(a, b, !val)
		case "<=":
			return f.assumeLt(b, a, !val)
		case "==":
			if a == b {
				return val
			}
			if a.op == "nil" {
				a, b = b, a
			}
			if b.op == "nil" {
				return f.setNil(a, val)
			}
			if a.isConst() {
				a, b = b, a
			}
			if a.isConst() && b.isConst() {
				return (a.sym == b.sym) == val
			}
			if b.isConst() {
				if bb, ok := b.boolVal(); ok {
					return f.assume(a, bb == val)
				}
				return f.assumeEqConst(a, b.sym, val)
			}
			// sentinel errors
			for k := 0; k < 2; k++ {
				x, y := a, b
				if k == 1 {
					x, y = b, a
				}
				if isSentinel(y) {
					if f.isNil(x) {
						return !val
					}
					if isSentinel(x) {
						return val == (x == y)
					}
					if val {
						for kk, vv := range f.bools {
							if vv && kk.op == "bin" && kk.sym == "==" {
								o := kk.args[1]
								if kk.args[0] == x || kk.args[1] == x {
									if kk.args[1] == x {
										o = kk.args[0]
									}
									if isSentinel(o) && o != y {
										return false
									}
								}
							}
						}
						if !f.setNil(x, false) {
							return false
						}
					}
					break
				}
			}
			if isString(a) && (partOf(a, b) || partOf(b, a)) {
				return !val
			}
			// linear: same base, different offset
			if ba, oa := lin(a); ba != nil {
				if bb, ob := lin(b); bb == ba {
					return (oa == ob) == val
				}
			}
			if a.id > b.id {
				a, b = b, a
			}
			n := mk("bin", "==", c.typ, a, b)
			if v, ok := f.bools[n]; ok {
				return v == val
			}
			// both have finite sets
			if sa, ok := f.in[a]; ok {
				if sb, ok2 := f.in[b]; ok2 {
					inter := false
					for k := range sa {
						if sb[k] {
							inter = true
						}
					}
					if val && !inter {
						return false
					}
					if !val && len(sa) == 1 && len(sb) == 1 && inter {
						return false
					}
				}
			}
			if !val && isNilLike(a.typ) && f.isNil(a) && f.isNil(b) {
				return false
			}
			f.bools[n] = val
			f.bools[c] = val
			if val && isNilLike(a.typ) {
				if f.nonNil(a) && !f.nonNil(b) {
					f.setNil(b, false)
				}
				if f.nonNil(b) && !f.nonNil(a) {
					f.setNil(a, false)
				}
			}
			return true
		}
	case "call":
		if c.sym == "strings.HasPrefix" {
			s, p := c.args[0], c.args[1]
			ps, ok := p.strVal()
			if ok {
				if ss, ok2 := s.strVal(); ok2 {
					return strings.HasPrefix(ss, ps) == val
				}
				if set, ok2 := f.in[s]; ok2 {
					n := map[string]bool{}
					for k := range set {
						if strings.HasPrefix(k[2:], ps) == val {
							n[k] = true
						}
					}
					if len(n) == 0 {
						return false
					}
					f.in[s] = n
				}
				if val {
					if len(ps) == 0 {
						return true
					}
					f.tighten(mk("len", "", types.Typ[types.Int], s), int64(len(ps)), true, 0, false)
				}
			}
		}
	}
	f.bools[c] = val
	return true
}

func (f *Facts) assumeEqConst(a *Term, sym string, val bool) bool {
	if strings.HasPrefix(sym, "i:") {
		b, o := lin(a)
		if b == nil {
			return true
		}
		c, _ := strconv.ParseInt(sym[2:], 10, 64)
		if o != 0 {
			return f.assumeEqConst(b, "i:"+strconv.FormatInt(c-o, 10), val)
		}
		iv := f.interval(a)
		if val {
			if iv.hasLo && c < iv.lo || iv.hasHi && c > iv.hi {
				return false
			}
		} else {
			if iv.hasLo && iv.hasHi && iv.lo == iv.hi && iv.lo == c {
				return false
			}
		}
		// len(s)==0 <-> s==""
		if a.op == "len" && c == 0 && isString(a.args[0]) {
			if !f.assumeEqConst(a.args[0], "s:", val) {
				return false
			}
		}
		if val {
			f.iv[a] = ival{c, c, true, true}
		} else {
			if iv.hasLo && iv.lo == c {
				iv.lo++
				f.iv[a] = iv
			}
			if iv.hasHi && iv.hi == c {
				iv.hi--
				f.iv[a] = iv
			}
		}
	}
	if a.op == "bin" && a.sym == "+" && strings.HasPrefix(sym, "s:") && constLen(a) > len(sym)-2 {
		return !val
	}
	if val {
		if f.notin[a][sym] {
			return false
		}
		if s, ok := f.in[a]; ok && !s[sym] {
			return false
		}
		// consistency with recorded prefix facts
		for k, v := range f.bools {
			if k.op == "call" && k.sym == "strings.HasPrefix" && k.args[0] == a {
				if ps, ok := k.args[1].strVal(); ok && strings.HasPrefix(sym, "s:") {
					if strings.HasPrefix(sym[2:], ps) != v {
						return false
					}
				}
			}
		}
		f.in[a] = set1(sym)
		if strings.HasPrefix(sym, "s:") {
			l := mk("len", "", types.Typ[types.Int], a)
			n := int64(len(sym) - 2)
			iv := f.interval(l)
			if iv.hasLo && n < iv.lo || iv.hasHi && n > iv.hi {
				return false
			}
			f.iv[l] = ival{n, n, true, true}
		}
		return true
	}
	if s, ok := f.in[a]; ok {
		if s[sym] {
			n := map[string]bool{}
			for k := range s {
				if k != sym {
					n[k] = true
				}
			}
			if len(n) == 0 {
				return false
			}
			f.in[a] = n
		}
		return true
	}
	n := map[string]bool{sym: true}
	for k := range f.notin[a] {
		n[k] = true
	}
	f.notin[a] = n
	if sym == "s:" {
		f.tighten(mk("len", "", types.Typ[types.Int], a), 1, true, 0, false)
	}
	return true
}

func isString(t *Term) bool {
	if t.typ == nil {
		return false
	}
	b, ok := t.typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (f *Facts) tighten(t *Term, lo int64, hasLo bool, hi int64, hasHi bool) bool {
	b, o := lin(t)
	if b == nil {
		return (!hasLo || o >= lo) && (!hasHi || o <= hi)
	}
	lo -= o
	hi -= o
	iv := f.interval(b)
	if hasLo && (!iv.hasLo || iv.lo < lo) {
		iv.lo, iv.hasLo = lo, true
	}
	if hasHi && (!iv.hasHi || iv.hi > hi) {
		iv.hi, iv.hasHi = hi, true
	}
	f.iv[b] = iv
	if iv.hasLo && iv.hasHi && iv.lo > iv.hi {
		return false
	}
	if b.op == "len" && isString(b.args[0]) {
		// a string is empty exactly if its length is 0
		a := b.args[0]
		if iv.hasLo && iv.lo >= 1 && !f.notin[a]["s:"] && !f.assumeEqConst(a, "s:", false) {
			return false
		}
		if iv.hasHi && iv.hi <= 0 && !f.in[a]["s:"] && !f.assumeEqConst(a, "s:", true) {
			return false
		}
	}
	// excluded constants at the edge
	for iv.hasLo && f.notin[b]["i:"+strconv.FormatInt(iv.lo, 10)] {
		iv.lo++
		f.iv[b] = iv
		if iv.hasHi && iv.lo > iv.hi {
			return false
		}
	}
	return true
}

func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (f *Facts) assumeLt(a, b *Term, val bool) bool {
	if isFloat(a.typ) || isFloat(b.typ) || isString(a) {
		f.bools[mk("bin", "<", types.Typ[types.Bool], a, b)] = val
		return true
	}
	ba, oa := lin(a)
	bb, ob := lin(b)
	if ba == bb {
		return (oa < ob) == val
	}
	// canonical atom: base_a + k < base_b
	k := oa - ob
	var atom *Term
	if ba != nil && bb != nil {
		atom = mk("bin", "<", types.Typ[types.Bool], addConst(ba, k), bb)
		if v, ok := f.bools[atom]; ok {
			return v == val
		}
		// consult other atoms with the same bases
		for kk, vv := range f.bools {
			if kk.op == "bin" && kk.sym == "<" {
				xa, xo := lin(kk.args[0])
				xb, yo := lin(kk.args[1])
				kx := xo - yo
				if xa == ba && xb == bb {
					// known: ba+kx < bb is vv
					if vv && kx >= k && !val {
						return false // ba+k<=ba+kx<bb
					}
					if !vv && kx <= k && val {
						return false
					}
				}
				if xa == bb && xb == ba {
					// known: bb+kx < ba is vv ; query ba+k<bb
					if vv && val && k+kx >= -1 { // bb+kx+1<=ba, ba+k+1<=bb => kx+k+2<=0
						return false
					}
					if !vv && !val && k+kx <= 0 {
						// ba <= bb+kx and bb <= ba+k
						if k+kx < 0 {
							return false
						}
					}
				}
			}
		}
	}
	ia, ib := f.interval(a), f.interval(b)
	if val {
		if ia.hasLo && ib.hasHi && ia.lo >= ib.hi {
			return false
		}
		if ib.hasHi && !f.tighten(a, 0, false, ib.hi-1, true) {
			return false
		}
		if ia.hasLo && !f.tighten(b, ia.lo+1, true, 0, false) {
			return false
		}
	} else {
		if ia.hasHi && ib.hasLo && ia.hi < ib.lo {
			return false
		}
		if ib.hasLo && !f.tighten(a, ib.lo, true, 0, false) {
			return false
		}
		if ia.hasHi && !f.tighten(b, 0, false, ia.hi, true) {
			return false
		}
	}
	if atom != nil {
		f.bools[atom] = val
	}
	return true
}

// constLen: the length of the constant pieces of a joined text.
func constLen(t *Term) int {
	if s, ok := t.strVal(); ok {
		return len(s)
	}
	if t.op == "bin" && t.sym == "+" {
		return constLen(t.args[0]) + constLen(t.args[1])
	}
	return 0
}

// partOf: text a is a shorter piece of text b.
func partOf(a, b *Term) bool {
	if a.op == "slice" && a.args[0] == b && a.args[1] != nil {
		n, ok := a.args[1].intVal()
		return ok && n > 0
	}
	if b.op == "bin" && b.sym == "+" {
		found, more := false, false
		for _, x := range []*Term{b.args[0], b.args[1]} {
			if x == a || partOf(a, x) {
				found = true
			}
			if s, ok := x.strVal(); ok && s != "" {
				more = true
			}
			more = more || x != a && partOf(a, x)
		}
		return found && more
	}
	return false
}

// concat joins strings: nested joins are flattened, empty parts dropped, constants merged.
func concat(t types.Type, xs ...*Term) *Term {
	var parts []*Term
	var flat func(x *Term)
	flat = func(x *Term) {
		if x.op == "bin" && x.sym == "+" {
			flat(x.args[0])
			flat(x.args[1])
			return
		}
		if s, ok := x.strVal(); ok {
			if s == "" {
				return
			}
			if n := len(parts); n > 0 {
				if p, ok := parts[n-1].strVal(); ok {
					parts[n-1] = mkStr(p + s)
					return
				}
			}
		}
		parts = append(parts, x)
	}
	for _, x := range xs {
		flat(x)
	}
	if len(parts) == 0 {
		return mkStr("")
	}
	r := parts[0]
	for _, x := range parts[1:] {
		r = mk("bin", "+", t, r, x)
	}
	return r
}

// strSet returns the set of constants a term is pinned to, if any.
func (f *Facts) strSet(t *Term) ([]string, bool) {
	if s, ok := t.strVal(); ok {
		return []string{s}, true
	}
	s, ok := f.in[t]
	if !ok {
		return nil, false
	}
	var r []string
	for k := range s {
		r = append(r, strings.TrimPrefix(k, "s:"))
	}
	sort.Strings(r)
	return r, true
}

// mayBe tells whether string term t may equal s under the facts.
func (f *Facts) mayBe(t *Term, s string) bool {
	if v, ok := t.strVal(); ok {
		return v == s
	}
	if set, ok := f.in[t]; ok {
		return set["s:"+s]
	}
	if f.notin[t]["s:"+s] {
		return false
	}
	g := f.clone()
	return g.assumeEqConst(t, "s:"+s, true)
}
func (f *Facts) mustBe(t *Term, s string) bool {
	if v, ok := t.strVal(); ok {
		return v == s
	}
	set, ok := f.in[t]
	return ok && len(set) == 1 && set["s:"+s]
}
