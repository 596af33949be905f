package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- C44

// switches: the on/off elements of ECMA-376 (CT_OnOff) per property element. Each has an optional
// attribute w:val; without it the switch is on.
var switches = map[string]string{
	"rPr":   "b bCs i iCs caps smallCaps strike dstrike outline shadow emboss imprint noProof snapToGrid vanish webHidden rtl cs specVanish oMath",
	"pPr":   "keepNext keepLines pageBreakBefore widowControl suppressLineNumbers suppressAutoHyphens kinsoku wordWrap overflowPunct topLinePunct autoSpaceDE autoSpaceDN bidi adjustRightInd snapToGrid contextualSpacing mirrorIndents suppressOverlap",
	"tblPr": "bidiVisual",
	"trPr":  "cantSplit tblHeader hidden",
	"tcPr":  "noWrap tcFitText hideMark",
}

// switchField is a field of a property element that is written as a switch.
type switchField struct {
	r    *reader
	name string
	k    kidF
	typ  *types.Named
	val  *attrF
}

func (f *switchField) key() string { return f.r.w.name + "." + f.k.field }

func checkC44(c *Ctx) string {
	var sw []*switchField
	ofType := map[string][]*switchField{}
	for _, r := range c.readers() {
		if r.typ == nil || r.w == nil {
			continue
		}
		for _, x := range strings.Fields(switches[r.w.self]) {
			for _, k := range r.w.kids[x] {
				c.n("switches")
				f := &switchField{r: r, name: x, k: k}
				f.typ, _ = k.typ.(*types.Named)
				if f.typ != nil {
					if w := c.p.writer(f.typ); w != nil {
						for i, a := range w.attrs {
							if a.full == "w:val" {
								f.val = &w.attrs[i]
								c.omitted(f, w)
							}
						}
					}
					ofType[f.typ.Obj().Name()] = append(ofType[f.typ.Obj().Name()], f)
				}
				if f.val == nil {
					c.fail("no-room", nil, nil, f.key(), "a switch that is off (<w:%s w:val=\"0\"/>) is written back as on: %s has no place for its position", x, f.key())
				}
				sw = append(sw, f)
			}
		}
	}
	c.attributeRules(func(n string, f attrF) bool {
		for _, s := range ofType[n] {
			if s.val != nil && s.val.field == f.field {
				return true
			}
		}
		return false
	}, func(n string, f attrF, rule string, fn *ssa.Function, at ssa.Instruction, why string) {
		c.fail("position", fn, at, n+"."+f.field, "%s", why)
	})
	for _, f := range sw {
		if f.val != nil {
			c.bareSwitch(f)
		}
	}
	c.atLeast("switches", 6)
	c.atLeast("kept_paths", 12)
	return "every field written as an on/off element has room for the element's w:val, which is not written when it is empty; on every path of the reader that meets the element, the element is kept, its w:val ends up in that place (as in C01), and where there is none, the switch is on"
}

// omitted: a position that was not given is not written as an empty one.
func (c *Ctx) omitted(f *switchField, w *writerInfo) {
	tag := reflect.StructTag(w.st.Tag(f.val.idx)).Get("xml")
	for _, o := range strings.Split(tag, ",")[1:] {
		if o == "omitempty" {
			if isIntT(f.val.typ) {
				c.fail("omitted", f.r.fn, nil, f.key(), "a switch that is off (%s.%s is 0) is written without its position, which turns it on", w.name, f.val.field)
			}
			return
		}
	}
	if !isIntT(f.val.typ) {
		c.fail("omitted", f.r.fn, nil, f.key(), "<w:%s/> is written back as <w:%s w:val=\"\"/>, which says neither on nor off", f.name, f.name)
	}
}

// bareSwitch: the element is kept on every path, and without a position the switch is on.
func (c *Ctx) bareSwitch(f *switchField) {
	r := f.r
	for _, p := range r.paths {
		if !okPath(p) {
			continue
		}
		tok := tokenOf(p)
		if tok == nil {
			continue
		}
		el := startElem(p, tok.res[0])
		if el == nil {
			continue
		}
		set, known := p.st.facts.strSet(elemNameTerm(el))
		met := false
		for _, x := range set {
			met = met || x == f.name
		}
		if !known || !met {
			continue
		}
		ks, _ := c.keptOn(r, p, tok)
		got := false
		for _, k := range ks {
			if k.field != f.k.field {
				continue
			}
			got = true
			c.n("kept_paths")
			if k.val == nil {
				continue
			}
			l := fieldLoc(k.val, f.val.field)
			if l == nil {
				continue
			}
			given := false
			for _, h := range c.hits(p) {
				given = given || h.owner == el && h.local == f.val.local && !p.st.facts.mustBe(h.val, "")
			}
			if given {
				continue
			}
			if why := off(c.e.load0(p.st, l)); why != "" {
				c.fail("bare", r.fn, lastInstr(p), f.key(), "<w:%s/> without a position is on, but %s", f.name, why)
			}
		}
		if got || c.insideOpen(r, p, tok) || c.recKept(p, tok) {
			continue
		}
		c.fail("dropped", r.fn, lastInstr(p), f.key(), "a path reads <w:%s> without keeping it in %s", f.name, f.key())
	}
}

// off says why a constant position is not "on"; positions that are not constant come from the element.
func off(v *Term) string {
	if v == nil {
		return ""
	}
	if v.op == "call" && strings.HasPrefix(v.sym, "NUM:") && len(v.args) > 0 {
		if s, ok := v.args[0].strVal(); ok {
			if n, err := strconv.Atoi(s); err != nil || n == 0 {
				return fmt.Sprintf("its position is set to %q", s)
			}
		}
		return ""
	}
	if n, ok := v.intVal(); ok && n == 0 {
		return "its position is set to 0"
	}
	if s, ok := v.strVal(); ok {
		switch s {
		case "", "1", "true", "on":
		default:
			return fmt.Sprintf("its position is set to %q", s)
		}
	}
	return ""
}

// ---------------------------------------------------------------- C43, C45

// sequences: the order ECMA-376 gives the children of an element. Alternatives are joined by "|", "*"
// stands for everything not named. Elements whose children may come in any order are not listed, and
// neither is content callers order themselves.
var sequences = map[string]string{
	"document":         "background body",
	"p":                "pPr *",
	"pPr":              "pStyle keepNext keepLines pageBreakBefore framePr widowControl numPr suppressLineNumbers pBdr shd tabs suppressAutoHyphens kinsoku wordWrap overflowPunct topLinePunct autoSpaceDE autoSpaceDN bidi adjustRightInd snapToGrid spacing ind contextualSpacing mirrorIndents suppressOverlap jc textDirection textAlignment textboxTightWrap outlineLvl divId cnfStyle rPr sectPr pPrChange",
	"numPr":            "ilvl numId numberingChange ins",
	"r":                "rPr *",
	"tbl":              "tblPr tblGrid *",
	"tblPr":            "tblStyle tblpPr tblOverlap bidiVisual tblStyleRowBandSize tblStyleColBandSize tblW jc tblCellSpacing tblInd tblBorders shd tblLayout tblCellMar tblLook tblCaption tblDescription tblPrChange",
	"tblGrid":          "gridCol tblGridChange",
	"tblBorders":       "top left|start bottom right|end insideH insideV",
	"tcBorders":        "top left|start bottom right|end insideH insideV tl2br tr2bl",
	"tr":               "tblPrEx trPr *",
	"tc":               "tcPr *",
	"tcPr":             "cnfStyle tcW gridSpan hMerge vMerge tcBorders shd noWrap tcMar textDirection tcFitText vAlign hideMark",
	"sectPr":           "headerReference|footerReference footnotePr endnotePr type pgSz pgMar paperSrc pgBorders lnNumType pgNumType cols formProt vAlign noEndnote titlePg textDirection bidi rtlGutter docGrid printerSettings sectPrChange",
	"inline":           "extent effectExtent docPr cNvGraphicFramePr graphic",
	"anchor":           "simplePos positionH positionV extent effectExtent wrapNone|wrapSquare|wrapTight|wrapThrough|wrapTopAndBottom docPr cNvGraphicFramePr graphic sizeRelH sizeRelV",
	"positionH":        "align|posOffset",
	"positionV":        "align|posOffset",
	"pic":              "nvPicPr blipFill spPr",
	"nvPicPr":          "cNvPr cNvPicPr",
	"cNvPicPr":         "picLocks extLst",
	"blipFill":         "blip srcRect tile|stretch",
	"spPr":             "xfrm custGeom|prstGeom noFill|solidFill|gradFill|blipFill|pattFill|grpFill ln effectLst|effectDag scene3d sp3d extLst",
	"grpSpPr":          "xfrm custGeom|prstGeom noFill|solidFill|gradFill|blipFill|pattFill|grpFill ln effectLst|effectDag scene3d sp3d extLst",
	"xfrm":             "off ext chOff chExt",
	"wsp":              "cNvPr cNvSpPr|cNvCnPr spPr style extLst txbx|linkedTxbx bodyPr",
	"wgp":              "cNvPr cNvGrpSpPr grpSpPr *",
	"grpSp":            "cNvPr cNvGrpSpPr grpSpPr *",
	"wpc":              "bg whole *",
	"ln":               "noFill|solidFill|gradFill|pattFill prstDash|custDash round|bevel|miter headEnd tailEnd extLst",
	"bodyPr":           "prstTxWarp noAutofit|normAutofit|spAutoFit scene3d sp3d flatTx",
	"AlternateContent": "Choice Fallback",
}

// required: attributes an element must have, whatever their value.
var required = map[string]string{
	"extent": "cx cy", "ext": "cx cy", "chExt": "cx cy", "off": "x y", "chOff": "x y", "effectExtent": "l t r b",
	"simplePos": "x y", "docPr": "id name", "cNvPr": "id name", "positionH": "relativeFrom", "positionV": "relativeFrom",
	"graphicData": "uri", "prstGeom": "prst", "wrapSquare": "wrapText", "srgbClr": "val",
	"anchor": "simplePos relativeHeight behindDoc locked layoutInCell allowOverlap",
	"pgMar":  "top right bottom left header footer gutter",
	"numId":  "val", "ilvl": "val", "jc": "val", "pStyle": "val", "rStyle": "val", "tblStyle": "val", "color": "val",
	"sz": "val", "szCs": "val", "textAlignment": "val", "vertAlign": "val", "gridSpan": "val", "vAlign": "val",
	"Relationship": "Id Type Target",
}

// typed: optional attributes whose empty value is none of their type's.
var typed = map[string]string{
	"spPr": "bwMode", "grpSpPr": "bwMode", "docGrid": "type", "tile": "flip algn", "prstDash": "val", "miter": "lim",
	"tblW": "type", "tcW": "type", "tblLook": "val", "trHeight": "hRule", "vMerge": "val", "u": "val", "blip": "cstate",
	"ln": "cap cmpd algn", "headEnd": "type w len", "tailEnd": "type w len", "bodyPr": "vert wrap anchor",
	"spacing": "lineRule", "rFonts": "hint", "tblpPr": "vertAnchor horzAnchor tblpXSpec tblpYSpec", "br": "type clear",
	"shd": "color fill themeFill themeFillTint", "t": "space", "r": "space", "Relationship": "TargetMode",
	"top": "color", "left": "color", "bottom": "color", "right": "color", "insideH": "color", "insideV": "color",
	"b": "val", "i": "val", "strike": "val",
}

const (
	borderStyles = "nil none single thick double dotted dashed dotDash dotDotDash triple thinThickSmallGap thickThinSmallGap thinThickThinSmallGap thinThickMediumGap thickThinMediumGap thinThickThinMediumGap thinThickLargeGap thickThinLargeGap thinThickThinLargeGap wave doubleWave dashSmallGap dashDotStroked threeDEmboss threeDEngrave outset inset"
	onOff        = "0 1 true false on off"
	hexColor     = "#auto" // a color of six hexadecimal digits, or auto
)

// enums: the values of attributes that have only a few; constants the library writes must be among them.
var enums = map[string]string{
	"jc/val":                  "start end left right center both distribute mediumKashida numTab highKashida lowKashida thaiDistribute",
	"top/val":                 borderStyles,
	"top/color":               hexColor,
	"color/val":               hexColor,
	"shd/color":               hexColor,
	"shd/fill":                hexColor,
	"srgbClr/val":             hexColor,
	"tblW/type":               "nil pct dxa auto",
	"tcW/type":                "nil pct dxa auto",
	"positionH/relativeFrom":  "margin page column character leftMargin rightMargin insideMargin outsideMargin",
	"positionV/relativeFrom":  "margin page paragraph line topMargin bottomMargin insideMargin outsideMargin",
	"wrapSquare/wrapText":     "bothSides left right largest",
	"br/type":                 "page column textWrapping",
	"strike/val":              onOff,
	"b/val":                   onOff,
	"i/val":                   onOff,
	"vMerge/val":              "restart continue",
	"trHeight/hRule":          "auto exact atLeast",
	"blip/cstate":             "email screen print hqprint none",
	"docGrid/type":            "default lines linesAndChars snapToChars",
	"t/space":                 "default preserve",
	"r/space":                 "default preserve",
	"spacing/lineRule":        "auto exact atLeast",
	"Relationship/TargetMode": "Internal External",
}

// absentIsZero: numeric attributes that mean the same when they are left out and when they are zero.
var absentIsZero = map[string]string{
	"graphicFrameLocks": "noChangeAspect", "picLocks": "noChangeAspect", "xfrm": "rot flipH flipV", "cNvSpPr": "txBox",
	"spLocks": "noChangeArrowheads", "tblpPr": "leftFromText rightFromText topFromText bottomFromText tblpX tblpY",
	"tblLook": "firstRow lastRow firstColumn lastColumn noHBand noVBand", "inline": "distT distB distL distR",
	"anchor": "distT distB distL distR", "tblW": "w", "tcW": "w", "gridCol": "w", "trHeight": "val",
	"bodyPr": "rot anchorCtr upright", "top": "sz space", "left": "sz space", "bottom": "sz space", "right": "sz space",
	"insideH": "sz space", "insideV": "sz space", "tile": "tx ty",
}

// absentIs: numeric attributes that mean something else when they are left out, and what.
var absentIs = map[string]int64{
	"bodyPr/lIns": 91440, "bodyPr/tIns": 45720, "bodyPr/rIns": 91440, "bodyPr/bIns": 45720,
	"cols/space": 720, "tile/sx": 100000, "tile/sy": 100000,
}

// absentIsElsewhere: numeric attributes that, when they are left out, are given by another one.
var absentIsElsewhere = map[string]string{
	"tblLook": "firstRow lastRow firstColumn lastColumn noHBand noVBand", // val
}

func names(m map[string]string, elem, attr string) bool {
	for _, x := range strings.Fields(m[elem]) {
		if x == attr {
			return true
		}
	}
	return false
}

// written is a type in the role of an element.
type written struct {
	elem string
	typ  *types.Named
	w    *writerInfo
}

// writtenTypes: every element a document or its relationships can hold, with the type it is written from.
func (c *Ctx) writtenTypes() (r []written) {
	seen := map[string]bool{}
	var visit func(elem string, t types.Type)
	visit = func(elem string, t types.Type) {
		n, ok := t.(*types.Named)
		if !ok || n.Obj().Pkg() != c.p.root.Pkg || seen[elem+"|"+n.Obj().Name()] {
			return
		}
		w := c.p.writer(n)
		if w == nil {
			return
		}
		seen[elem+"|"+n.Obj().Name()] = true
		r = append(r, written{elem, n, w})
		var ks []string
		for k := range w.kids {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			for _, kf := range w.kids[k] {
				visit(k, kf.typ)
			}
		}
	}
	for _, root := range []string{"Document", "Relationships"} {
		if n := c.p.namedType(root); n != nil {
			self := selfName(n)
			if self == "" {
				self = root
			}
			visit(self, n)
		}
	}
	return r
}

func hasOpt(w *writerInfo, idx int, opt string) bool {
	for _, o := range strings.Split(reflect.StructTag(w.st.Tag(idx)).Get("xml"), ",")[1:] {
		if o == opt {
			return true
		}
	}
	return false
}

func checkC43(c *Ctx) string {
	elemsOf := map[string][]string{}
	for _, x := range c.writtenTypes() {
		c.n("elements")
		elemsOf[x.typ.Obj().Name()] = append(elemsOf[x.typ.Obj().Name()], x.elem)
		c.childOrder(x)
		c.ownWriter(x)
		c.neverEmpty(x)
		have := map[string]attrF{}
		for _, a := range x.w.attrs {
			have[a.local] = a
		}
		for _, a := range strings.Fields(required[x.elem]) {
			c.n("required_attributes")
			if f, ok := have[a]; !ok {
				c.fail("required", nil, nil, x.elem+"/"+a, "<%s> must have the attribute %s, which %s does not write", x.elem, a, x.w.name)
			} else if hasOpt(x.w, f.idx, "omitempty") {
				c.fail("required", nil, nil, x.elem+"/"+a, "<%s> must have the attribute %s, which is left out when %s.%s is empty", x.elem, a, x.w.name, f.field)
			}
		}
		for _, a := range strings.Fields(typed[x.elem]) {
			if f, ok := have[a]; ok && !isIntT(f.typ) {
				c.n("typed_attributes")
				if _, ptr := f.typ.Underlying().(*types.Pointer); !ptr && !hasOpt(x.w, f.idx, "omitempty") {
					c.fail("empty", nil, nil, x.elem+"/"+a, "%s.%s is written as %s=\"\" where it was not given, which is no value of the attribute", x.w.name, f.field, a)
				}
			}
		}
	}
	c.constants(elemsOf)
	c.drawings()
	c.tableParts()
	c.atLeast("ordered_elements", 25)
	c.atLeast("required_attributes", 30)
	c.atLeast("typed_attributes", 20)
	c.atLeast("constants", 15)
	c.atLeast("required_parts", 40)
	return "the fields of every written type come in the order ECMA-376 gives their elements (xml writes fields in their order); attributes that are required are never left out, and optional ones with a restricted type never written empty; every constant stored into an attribute with enumerated values is one of them; the drawings, pictures, shapes and tables that building calls make have every part the schema requires"
}

// childOrder: the fields of a type come in the order of the schema.
func (c *Ctx) childOrder(x written) {
	seq, ok := sequences[x.elem]
	if !ok {
		return
	}
	c.n("ordered_elements")
	pos, any := map[string]int{}, -1
	for i, g := range strings.Fields(seq) {
		for _, n := range strings.Split(g, "|") {
			if n == "*" {
				any = i
			}
			pos[n] = i
		}
	}
	type at struct {
		name     string
		idx, pos int
	}
	var l []at
	for n, ks := range x.w.kids {
		i, ok := pos[n]
		if !ok {
			i = any
		}
		if i < 0 {
			continue
		}
		for _, k := range ks {
			l = append(l, at{n, k.idx, i})
		}
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i].idx != l[j].idx {
			return l[i].idx < l[j].idx
		}
		return l[i].name < l[j].name
	})
	last := at{pos: -1}
	for _, k := range l {
		c.n("ordered_children")
		if k.pos < last.pos {
			c.fail("order", nil, nil, x.w.name+"|"+k.name, "%s writes <%s> after <%s>, but in <%s> it has to come before", x.w.name, k.name, last.name, x.elem)
			continue
		}
		last = k
	}
}

// marshaler: the method by which a type writes itself.
func (c *Ctx) marshaler(n *types.Named) *ssa.Function {
	sel := c.p.ssa.MethodSets.MethodSet(types.NewPointer(n)).Lookup(nil, "MarshalXML")
	if sel == nil {
		return nil
	}
	f, ok := sel.Obj().(*types.Func)
	if !ok {
		return nil
	}
	return c.p.ssa.FuncValue(f)
}

// restricted: required attributes that have no empty value, per element.
var restricted = map[string]string{"prstGeom": "prst", "positionH": "relativeFrom", "positionV": "relativeFrom", "wrapSquare": "wrapText", "srgbClr": "val"}

// ownWriter: a type that writes itself writes all of itself, or nothing where a required attribute is empty.
func (c *Ctx) ownWriter(x written) {
	fn := c.marshaler(x.typ)
	if fn == nil || len(fn.Blocks) == 0 || len(fn.Params) != 3 {
		return
	}
	c.n("own_writers")
	self := mk("param", fn.Params[0].Name(), fn.Params[0].Type())
	start := mk("param", fn.Params[2].Name(), fn.Params[2].Type())
	for _, q := range c.paths(fn) {
		if q.outcome != "return" {
			continue
		}
		n, whole := 0, true
		for _, ev := range q.ev() {
			if ev.kind == "call" && strings.HasPrefix(ev.sym, "(*xml.Encoder).") {
				n++
				v := unwrap(ev.a[1])
				if v0 := v; v != nil {
					if _, ok := v.typ.Underlying().(*types.Pointer); ok && v != self {
						for _, sv := range q.ev() { // a copy
							if sv == ev {
								break
							}
							if sv.kind == "store" && sv.a[0] == v {
								v0 = sv.a[1]
							}
						}
						v = v0
					}
				}
				for v != nil && (v.op == "chtype" || v.op == "conv") {
					v = v.args[0]
				}
				if ev.sym != "(*xml.Encoder).EncodeElement" || v != self && (v == nil || v.op != "ld" || v.args[0] != self) || ev.a[2] != start {
					whole = false
				}
			}
		}
		if n > 1 || !whole {
			c.fail("custom", fn, lastInstr(q), x.w.name, "%s does not write itself as a whole, as what it writes has to be known", x.w.name)
			continue
		}
		empty := false
		for _, a := range x.w.attrs {
			if names(restricted, x.elem, a.local) && q.st.facts.mustBe(c.ownField(q, self, a), "") {
				empty = true
			}
		}
		if n == 0 && !empty {
			c.fail("custom", fn, lastInstr(q), x.w.name, "%s may not write itself although nothing required is missing", x.w.name)
		}
	}
}

// ownField: the value of an attribute of the receiver.
func (c *Ctx) ownField(q *Path, self *Term, a attrF) *Term {
	if _, ok := self.typ.Underlying().(*types.Pointer); ok {
		return c.e.load0(q.st, fieldLoc(self, a.field))
	}
	return fieldVal(self, fieldsOf(self.typ), a.idx)
}

// neverEmpty: a child held by value is written even when it was never set, so it must not have
// attributes that cannot be empty, or leave itself out then.
func (c *Ctx) neverEmpty(x written) {
	for n, ks := range x.w.kids {
		for _, k := range ks {
			kt, _ := k.typ.(*types.Named)
			if restricted[n] == "" || k.ptr || k.slice || k.iface || kt == nil {
				continue
			}
			c.n("children_by_value")
			fn := c.marshaler(kt)
			if fn == nil || len(fn.Blocks) == 0 {
				c.fail("unset", nil, nil, x.w.name+"|"+n, "<%s> is written in every <%s>, also when it has no %s", n, x.elem, restricted[n])
				continue
			}
			self := mk("param", fn.Params[0].Name(), fn.Params[0].Type())
			for _, q := range c.paths(fn) {
				for _, ev := range q.ev() {
					if ev.kind != "call" || !strings.HasPrefix(ev.sym, "(*xml.Encoder).") {
						continue
					}
					for _, a := range c.p.writer(kt).attrs {
						if names(restricted, n, a.local) && q.st.facts.mayBe(c.ownField(q, self, a), "") {
							c.fail("unset", fn, ev.instr, x.w.name+"|"+n, "<%s> is written in <%s> also when it has no %s", n, x.elem, a.local)
						}
					}
				}
			}
		}
	}
}

// constants: what the library itself stores into an attribute with few values is one of them.
func (c *Ctx) constants(elemsOf map[string][]string) {
	allowed := func(key *Term) (string, string) {
		n, _ := locType(key.args[0]).(*types.Named)
		if n == nil {
			return "", ""
		}
		w := c.p.writer(n)
		if w == nil {
			return "", ""
		}
		for _, a := range w.attrs {
			if a.field != key.sym {
				continue
			}
			for _, e := range elemsOf[n.Obj().Name()] {
				if v, ok := enums[e+"/"+a.local]; ok {
					return v, e + "/" + a.local
				}
			}
		}
		return "", ""
	}
	reads := map[*ssa.Function]bool{}
	for _, r := range c.readers() {
		reads[r.fn] = true
	}
	for _, fn := range c.p.allEntries() {
		if reads[fn] {
			continue
		}
		for _, q := range c.paths(fn) {
			for _, ev := range q.ev() {
				if ev.kind != "store" || len(ev.a) != 2 || ev.a[0].op != "fa" {
					continue
				}
				s, ok := ev.a[1].strVal()
				if !ok || s == "" {
					continue
				}
				v, what := allowed(ev.a[0])
				if v == "" {
					continue
				}
				c.n("constants")
				good := false
				for _, x := range strings.Fields(v) {
					good = good || x == s
				}
				if v == hexColor {
					_, err := strconv.ParseUint(s, 16, 32)
					good = s == "auto" || len(s) == 6 && err == nil
				}
				if !good {
					c.fail("value", fn, ev.instr, what+"|"+s, "%q is written for %s, which does not have that value", s, what)
				}
			}
		}
	}
}

// drawings: what building calls draw has the parts the schema requires.
func (c *Ctx) drawings() {
	for _, w := range wants {
		if !strings.HasSuffix(w.name, "Drawing") && !strings.HasSuffix(w.name, "Shape") {
			continue
		}
		fn := c.p.method(w.typ, w.name)
		if fn == nil || len(fn.Blocks) == 0 {
			c.fail("anchor", nil, nil, w.name, "%s.%s is gone", w.typ, w.name)
			continue
		}
		kind := "Inline"
		if strings.HasPrefix(w.name, "AddAnchor") {
			kind = "Anchor"
		}
		d := "Children.#0." + kind + "."
		parts := []string{"Extent", "DocPr", "Graphic", "Graphic.GraphicData"}
		values := []string{"Graphic.GraphicData.URI", "DocPr.ID"}
		if kind == "Anchor" {
			parts = append(parts, "SimplePosXY", "PositionH", "PositionV")
			values = append(values, "PositionH.RelativeFrom", "PositionV.RelativeFrom")
		}
		if strings.HasSuffix(w.name, "Drawing") {
			g := "Graphic.GraphicData.Pic"
			parts = append(parts, g, g+".NonVisualPicProperties", g+".BlipFill", g+".SpPr")
			values = append(values, g+".SpPr.PrstGeom.Prst", g+".BlipFill.Blip.Embed")
		} else {
			g := "Graphic.GraphicData.Shape"
			parts = append(parts, g, g+".SpPr", g+".BodyPr")
		}
		for _, q := range c.paths(fn) {
			if q.outcome != "return" {
				continue
			}
			if k, _ := retErr(q); k == "err" {
				continue
			}
			it := c.addedItem(q, fn, w.item)
			if it == nil {
				c.fail("part", fn, lastInstr(q), w.item, "no %s is added", w.item)
				continue
			}
			miss := func(at string) string {
				v, why := c.value(q, it, d+at)
				switch {
				case v == nil:
					return why
				case v.op == "fa":
					return ""
				case q.st.facts.isNil(v) || isZero(v):
					return "it is missing"
				case !c.mayBeNil(v) || q.st.facts.nonNil(v):
					return ""
				}
				return "it may be missing"
			}
			for _, at := range append(append([]string(nil), parts...), values...) {
				c.n("required_parts")
				if why := miss(at); why != "" {
					c.fail("part", fn, lastInstr(q), at, "%s, which the schema requires: %s", at, why)
				}
			}
			if kind == "Anchor" {
				c.n("required_parts")
				why := ""
				if _, v := c.value(q, it, d+"WrapNone"); v != "" {
					why = v
				}
				n := 0
				for _, at := range []string{"WrapNone", "WrapSquare"} {
					if miss(at) == "" {
						n++
					}
				}
				if n != 1 {
					c.fail("part", fn, lastInstr(q), "wrap", "an anchored drawing has to have exactly one way for text to flow around it, not %d %s", n, why)
				}
			}
			if strings.HasSuffix(w.name, "Shape") {
				c.n("required_parts")
				n := 0
				for _, at := range []string{"CNvCnPr", "CNvSpPr"} {
					if miss("Graphic.GraphicData.Shape."+at) == "" {
						n++
					}
				}
				if n != 1 {
					c.fail("part", fn, lastInstr(q), "nonvisual", "a shape has to have exactly one of cNvSpPr and cNvCnPr, not %d", n)
				}
			}
		}
	}
}

// mayBeNil: v is of a type that has nil.
func (c *Ctx) mayBeNil(v *Term) bool {
	if v.typ == nil {
		return false
	}
	switch v.typ.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map:
		return v.op != "obj"
	}
	return false
}

// tableParts: tables have their properties and a grid, cells at least one paragraph.
func (c *Ctx) tableParts() {
	for _, name := range []string{"AddTable", "AddTableTwips"} {
		fn := c.p.method("Docx", name)
		if fn == nil {
			c.fail("anchor", nil, nil, name, "Docx.%s is gone", name)
			continue
		}
		paths := c.paths(fn)
		for _, q := range paths {
			if q.outcome != "return" || len(q.rets) == 0 || q.rets[0].op != "obj" {
				continue
			}
			for _, at := range []string{"TableProperties", "TableGrid"} {
				c.n("required_parts")
				if v := c.fieldAt(q, q.rets[0], at); v == nil || !q.st.facts.nonNil(v) {
					c.fail("part", fn, lastInstr(q), at, "a table has to have its %s", at)
				}
			}
			l, _ := c.builtList(paths, q, orNil(c.fieldAt(q, q.rets[0], "TableRows")))
			if l == nil {
				continue // C24
			}
			for _, it := range l.items {
				cl, _ := c.builtList(paths, it.q, orNil(c.fieldAt(it.q, it.v, "TableCells")))
				if cl == nil {
					continue
				}
				for _, ci := range cl.items {
					c.n("required_parts")
					ps := c.fieldAt(ci.q, ci.v, "Paragraphs")
					if iv := ci.q.st.facts.interval(lenOf(ci.q.st, orNil(ps))); !iv.hasLo || iv.lo < 1 {
						c.fail("cell", nil, nil, name, "the cells Docx.%s makes have no paragraph until one is added, which the schema does not allow", name)
					}
				}
			}
		}
	}
}

// zeroLost: numeric attributes that are left out when they are zero although that means something else.
func (c *Ctx) zeroLost() {
	for _, x := range c.writtenTypes() {
		for _, f := range x.w.attrs {
			if !isIntT(f.typ) {
				continue
			}
			c.n("numeric_attributes")
			if hasOpt(x.w, f.idx, "omitempty") && !names(absentIsZero, x.elem, f.local) {
				c.fail("zero", nil, nil, x.elem+"/"+f.local, "%s.%s is left out when it is 0, which does not mean the same", x.w.name, f.field)
			}
		}
	}
	c.atLeast("numeric_attributes", 40)
}

func checkC45(c *Ctx) string {
	own := map[string]*reader{}
	ss := map[string][]*site{}
	for _, r := range c.readers() {
		if r.typ == nil {
			continue
		}
		if r.w != nil {
			own[r.typ.Obj().Name()] = r
		}
		for _, s := range c.sites(r) {
			if n, ok := s.typ.(*types.Named); ok {
				ss[s.name+"|"+n.Obj().Name()] = append(ss[s.name+"|"+n.Obj().Name()], s)
			}
		}
	}
	for _, x := range c.writtenTypes() {
		for _, f := range x.w.attrs {
			if names(absentIsElsewhere, x.elem, f.local) && isIntT(f.typ) {
				c.n("numeric_attributes")
				if !hasOpt(x.w, f.idx, "omitempty") {
					c.fail("invented", nil, nil, x.elem+"/"+f.local, "%s.%s is always written, and contradicts the other attributes of <%s> where it was not given", x.w.name, f.field, x.elem)
				}
			}
			def, ok := absentIs[x.elem+"/"+f.local]
			if !ok || !isIntT(f.typ) {
				continue
			}
			c.n("numeric_attributes")
			if hasOpt(x.w, f.idx, "omitempty") {
				continue // C01
			}
			met, other := false, ""
			var at ssa.Instruction
			var fn *ssa.Function
			judge := func(p *Path, loc *Term) {
				c.n("reader_paths")
				n, known, gen := startValue(c, p, loc)
				switch {
				case !known:
				case n == def:
					met = true
				case !gen:
					other, at = fmt.Sprintf("it is read as %d", n), lastInstr(p)
				}
			}
			if r := own[x.w.name]; r != nil {
				fn = r.fn
				for _, p := range r.paths {
					if okPath(p) && p.outcome == "return" {
						judge(p, fieldLoc(r.recv, f.field))
					}
					if loc := fieldLoc(r.recv, f.field); okPath(p) && p.outcome == "back" && c.undone(p, loc, f.local, def) {
						other, at = "a round that is about something else gives it another one", lastInstr(p)
					}
				}
			} else {
				for _, s := range ss[x.elem+"|"+x.w.name] {
					fn = s.r.fn
					for p, k := range s.kept {
						if l := fieldLoc(k.val, f.field); k.val != nil && l != nil {
							judge(p, l)
							if p.outcome == "back" && c.undone(p, l, f.local, def) {
								other, at = "a round that is about something else gives it another one", lastInstr(p)
							}
						}
					}
				}
			}
			if other == "" && !met {
				other = "nothing gives it that meaning"
			}
			if other != "" {
				c.fail("invented", fn, at, x.elem+"/"+f.local, "<%s> without %s means %d, but %s, and %s.%s is always written", x.elem, f.local, def, other, x.w.name, f.field)
			}
		}
	}
	c.atLeast("numeric_attributes", 5)
	c.atLeast("reader_paths", 5)
	return "every numeric attribute that is always written, and whose absence means something other than zero, holds what its absence means when the reader has read an element without it: on every path, the value the field starts from, followed back through the loops that may change it, is that constant"
}

// startValue: what a location holds at the end of the path when no round of a loop has changed it; gen
// says that rounds of a loop may have.
func startValue(c *Ctx, p *Path, loc *Term) (n int64, known, gen bool) {
	v := c.e.load0(p.st, loc)
	evs := p.ev()
	for i := len(evs) - 1; i >= 0; i-- {
		if le := evs[i].entry; evs[i].kind == "loop" && le != nil {
			if g, ok := le.locs[loc]; ok && g == v {
				v, gen = le.locInit[loc], true
			}
			for phi, g := range le.phis {
				if g == v {
					v, gen = le.init[phi], true
				}
			}
		}
	}
	if v == nil {
		return 0, false, gen
	}
	if n, ok := v.intVal(); ok {
		return n, true, gen
	}
	if v.op == "ld" && v.args[0] == loc {
		return 0, true, gen // as it was made
	}
	return 0, false, gen
}

// undone: a round of a loop that has not met the attribute leaves a fixed value other than the default.
func (c *Ctx) undone(p *Path, loc *Term, local string, def int64) bool {
	if loc == nil || p.hdr == nil || p.hdr.locs[loc] == nil {
		return false
	}
	n, ok := c.e.load0(p.st, loc).intVal()
	if !ok || n == def {
		return false
	}
	for _, h := range c.hits(p) {
		if h.local == local {
			return false
		}
	}
	return true
}

// fullKids: the children a type writes with the prefixes it writes them with.
func (c *Ctx) fullKids(w *writerInfo) map[string]bool {
	r := map[string]bool{}
	for _, ks := range w.kids {
		for _, k := range ks {
			nm := ""
			if !k.iface {
				nm = strings.Split(reflect.StructTag(w.st.Tag(k.idx)).Get("xml"), ",")[0]
			}
			if st := fieldsOf(k.typ); nm == "" && st != nil {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == "XMLName" {
						nm = strings.Split(reflect.StructTag(st.Tag(i)).Get("xml"), ",")[0]
					}
				}
			}
			if nm == "" {
				nm = k.field
			}
			r[nm] = true
		}
	}
	return r
}

// spoken: what documents are made of is written under its name; attrs chooses attributes or children.
func (c *Ctx) spoken(attrs bool) {
	have := map[string]map[string]bool{}
	for _, x := range c.writtenTypes() {
		if have[x.elem] == nil {
			have[x.elem] = map[string]bool{}
		}
		for k := range c.fullKids(x.w) {
			have[x.elem][k] = true
		}
		for _, a := range x.w.attrs {
			have[x.elem]["@"+a.full] = true
		}
	}
	for elem, l := range vocabulary {
		for _, n := range strings.Fields(l) {
			if strings.HasPrefix(n, "@") != attrs {
				continue
			}
			c.n("names")
			if have[elem] != nil && !have[elem][n] {
				what := "child <" + n + ">"
				if attrs {
					what = "attribute " + n[1:]
				}
				c.fail("unwritten", nil, nil, elem+"/"+n, "the %s of <%s> is not written any more, or under another name", what, elem)
			}
		}
	}
}
