package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// C41: inserted pictures keep their aspect ratio within the page.
//
// The sizes written for a picture are brought into the form k·width^a·height^b over the size that
// was found in the picture. Rounding is only allowed where nothing is multiplied any more, and no
// product may leave the range of its type for sizes of up to 32 bits.

// maxEMU is the text width of an A4 page, as documented at A4_EMU_MAX_WIDTH.
const maxEMU = 5274310

// monomial is k·width^w·height^h.
type monomial struct {
	k       *big.Rat
	w, h    int
	rounded bool
}

func (m *monomial) constant() bool { return m.w == 0 && m.h == 0 }

// monomialOf brings t into that form; why says what stands in the way.
func monomialOf(t *Term) (m *monomial, why string) {
	if t == nil {
		return nil, "it is not known"
	}
	if n, ok := t.intVal(); ok {
		return &monomial{k: new(big.Rat).SetInt64(n)}, ""
	}
	if v, ok := strings.CutPrefix(t.sym, "x:"); ok && t.op == "const" {
		if r, ok := new(big.Rat).SetString(v); ok {
			return &monomial{k: r}, ""
		}
	}
	switch lastField(t) {
	case "Width":
		return &monomial{k: big.NewRat(1, 1), w: 1}, ""
	case "Height":
		return &monomial{k: big.NewRat(1, 1), h: 1}, ""
	}
	basic := func(t *Term) types.BasicKind {
		if t.typ != nil {
			if b, ok := t.typ.Underlying().(*types.Basic); ok {
				return b.Kind()
			}
		}
		return types.Invalid
	}
	switch t.op {
	case "conv", "chtype":
		m, why := monomialOf(t.args[0])
		if m == nil {
			return nil, why
		}
		switch basic(t) {
		case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr:
			if k := basic(t.args[0]); k == types.Float64 || k == types.UntypedFloat {
				m.rounded = m.rounded || !m.constant()
			}
		case types.Float64:
		default:
			return nil, fmt.Sprintf("it is converted to %v, which cannot hold every size", t.typ)
		}
		return m, ""
	case "call":
		switch t.sym {
		case "math.Round", "math.Floor", "math.Ceil", "math.Trunc", "math.RoundToEven":
			m, why := monomialOf(t.args[0])
			if m != nil {
				m.rounded = true
			}
			return m, why
		}
	case "bin":
		if n, ok := t.args[1].intVal(); ok && n >= 0 && n < 62 && (t.sym == ">>" || t.sym == "<<") {
			return monomialOf(mk("bin", map[string]string{">>": "/", "<<": "*"}[t.sym], t.typ, t.args[0], mkInt(1<<n)))
		}
		if t.sym != "*" && t.sym != "/" {
			break
		}
		a, why := monomialOf(t.args[0])
		if a == nil {
			return nil, why
		}
		b, why := monomialOf(t.args[1])
		if b == nil {
			return nil, why
		}
		integer := isIntT(t.typ)
		if t.sym == "*" {
			if a.rounded || b.rounded {
				return nil, "a rounded value is multiplied, which multiplies the error"
			}
			m := &monomial{k: new(big.Rat).Mul(a.k, b.k), w: a.w + b.w, h: a.h + b.h}
			if integer && !m.small() {
				return nil, "a product may overflow for large pictures"
			}
			return m, ""
		}
		if b.rounded {
			return nil, "it is divided by a rounded value"
		}
		if b.k.Sign() == 0 {
			return nil, "it is divided by nothing"
		}
		m := &monomial{k: new(big.Rat).Quo(a.k, b.k), w: a.w - b.w, h: a.h - b.h}
		m.rounded = a.rounded || integer && !(m.constant() && m.k.IsInt())
		return m, ""
	}
	return nil, fmt.Sprintf("%v is not a product of the width, the height and constants", t)
}

// small: the value fits 63 bits when width and height have 32.
func (m *monomial) small() bool {
	k := new(big.Rat).Abs(m.k)
	for i := 0; i < m.w; i++ {
		k.Mul(k, new(big.Rat).SetInt64(1<<32))
	}
	for i := 0; i < m.h; i++ {
		k.Mul(k, new(big.Rat).SetInt64(1<<32))
	}
	return k.Cmp(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 63))) < 0
}

func checkC41(c *Ctx) string {
	for _, w := range []struct{ name, kind string }{{"AddInlineDrawing", "Inline"}, {"AddAnchorDrawing", "Anchor"}} {
		fn := c.p.method("Paragraph", w.name)
		if fn == nil {
			c.fail("anchor", nil, nil, w.name, "Paragraph.%s is gone", w.name)
			continue
		}
		c.n("building_calls")
		for _, q := range c.paths(fn) {
			if q.outcome != "return" {
				continue
			}
			if k, _ := retErr(q); k == "err" {
				continue
			}
			c.n("building_paths")
			it := c.addedItem(q, fn, "Run")
			if it == nil {
				c.fail("item", fn, lastInstr(q), "Run", "no run is added")
				continue
			}
			d := "Children.#0." + w.kind + "."
			for _, at := range []string{d + "Extent", d + "Graphic.GraphicData.Pic.SpPr.Xfrm.Ext"} {
				c.n("sizes")
				if why := c.inProportion(q, it, at); why != "" {
					c.fail("size", fn, lastInstr(q), at, "%s: %s", at, why)
				}
			}
		}
	}
	c.atLeast("building_calls", 2)
	c.atLeast("sizes", 4)
	return fmt.Sprintf("on every path that adds a picture, the width written is a positive constant of at most %d, and the height written is that constant times the height found in the picture over its width; whole-number division comes after every multiplication, and no product exceeds 63 bits for sizes of 32 bits", maxEMU)
}

// inProportion: the size at the path is in proportion to that of the picture and fits the page.
func (c *Ctx) inProportion(q *Path, it *Term, at string) string {
	vx, why := c.value(q, it, at+".CX")
	if vx == nil {
		return why
	}
	vy, why := c.value(q, it, at+".CY")
	if vy == nil {
		return why
	}
	x, why := monomialOf(vx)
	if x == nil {
		return "the width: " + why
	}
	y, why := monomialOf(vy)
	if y == nil {
		return "the height: " + why
	}
	if !x.constant() {
		return "the width is not bounded by that of the page"
	}
	if x.k.Sign() <= 0 {
		return "the width is not positive"
	}
	if x.k.Cmp(new(big.Rat).SetInt64(maxEMU)) > 0 {
		return "the width exceeds that of the page"
	}
	if y.w-x.w != -1 || y.h-x.h != 1 {
		return "the height does not grow with the height of the picture over its width"
	}
	ratio := new(big.Rat).Quo(y.k, x.k)
	if diff := ratio.Sub(ratio, big.NewRat(1, 1)); diff.Abs(diff).Cmp(big.NewRat(1, 1000000)) > 0 {
		return "the height is scaled by another factor than the width"
	}
	return ""
}
