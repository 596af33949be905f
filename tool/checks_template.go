package main

import (
	"encoding/xml"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C11: the built-in template, the relationships of new documents and the content types are
// checked against each other: constants in the code, the embedded files, and what saving writes.

type xmlRels struct {
	Relationship []struct {
		ID         string `xml:"Id,attr"`
		Type       string `xml:"Type,attr"`
		Target     string `xml:"Target,attr"`
		TargetMode string `xml:"TargetMode,attr"`
	} `xml:"Relationship"`
}

type xmlTypes struct {
	Default []struct {
		Extension   string `xml:"Extension,attr"`
		ContentType string `xml:"ContentType,attr"`
	} `xml:"Default"`
	Override []struct {
		PartName    string `xml:"PartName,attr"`
		ContentType string `xml:"ContentType,attr"`
	} `xml:"Override"`
}

// the content type a part reached through a relationship of a kind has to have (ECMA-376 part 1, 11.3 and 15.2)
var partTypes = map[string]string{
	"http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument":      "application/vnd.openxmlformats-officedocument.wordprocessingml.document.main+xml",
	"http://schemas.openxmlformats.org/officeDocument/2006/relationships/styles":              "application/vnd.openxmlformats-officedocument.wordprocessingml.styles+xml",
	"http://schemas.openxmlformats.org/officeDocument/2006/relationships/theme":               "application/vnd.openxmlformats-officedocument.theme+xml",
	"http://schemas.openxmlformats.org/officeDocument/2006/relationships/fontTable":           "application/vnd.openxmlformats-officedocument.wordprocessingml.fontTable+xml",
	"http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties":   "application/vnd.openxmlformats-package.core-properties+xml",
	"http://schemas.openxmlformats.org/officeDocument/2006/relationships/extended-properties": "application/vnd.openxmlformats-officedocument.extended-properties+xml",
	"http://schemas.openxmlformats.org/officeDocument/2006/relationships/numbering":           "application/vnd.openxmlformats-officedocument.wordprocessingml.numbering+xml",
	"http://schemas.openxmlformats.org/officeDocument/2006/relationships/settings":            "application/vnd.openxmlformats-officedocument.wordprocessingml.settings+xml",
	"http://schemas.openxmlformats.org/officeDocument/2006/relationships/webSettings":         "application/vnd.openxmlformats-officedocument.wordprocessingml.webSettings+xml",
}

var imageTypes = map[string]string{"jpeg": "image/jpeg", "jpg": "image/jpeg", "png": "image/png", "gif": "image/gif", "webp": "image/webp", "bmp": "image/bmp", "tiff": "image/tiff"}

// stringList: the strings a package-level list is initialised with; nil when it is built otherwise
// or changed.
func (p *Program) stringList(name string) []string {
	in := p.root.Func("init")
	var r []string
	n := 0
	for _, fn := range append([]*ssa.Function{in}, p.all...) {
		if fn == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok || g.String() != name {
					continue
				}
				n++
				sl, ok := st.Val.(*ssa.Slice)
				if !ok || fn != in || sl.Low != nil || sl.High != nil {
					return nil
				}
				al, ok := sl.X.(*ssa.Alloc)
				if !ok {
					return nil
				}
				at := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
				r = make([]string, at.Len())
				for _, ref := range *al.Referrers() {
					ia, ok := ref.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					k, ok := ia.Index.(*ssa.Const)
					if !ok {
						return nil
					}
					for _, rr := range *ia.Referrers() {
						if s, ok := rr.(*ssa.Store); ok && s.Addr == ssa.Value(ia) {
							v, ok := s.Val.(*ssa.Const)
							if !ok {
								return nil
							}
							r[k.Int64()] = strings.Trim(v.Value.ExactString(), "\"")
							if u, err := strconv.Unquote(v.Value.ExactString()); err == nil {
								r[k.Int64()] = u
							}
						}
					}
				}
			}
		}
	}
	if n != 1 {
		return nil
	}
	return r
}

// evalText: the text of a term whose unknown parts are given.
func evalText(t *Term, env func(*Term) (string, bool)) (string, bool) {
	if s, ok := t.strVal(); ok {
		return s, true
	}
	if s, ok := env(t); ok {
		return s, true
	}
	switch {
	case t.op == "bin" && t.sym == "+":
		a, ok := evalText(t.args[0], env)
		if !ok {
			return "", false
		}
		b, ok := evalText(t.args[1], env)
		return a + b, ok
	case t.op == "call" && (t.sym == "path.Join" || t.sym == "path/filepath.Join"):
		return "", false
	}
	return "", false
}

// registered: the format names a package registers (string literals handed to RegisterFormat).
func registered(dir string) []string {
	fs := token.NewFileSet()
	pk, err := parser.ParseDir(fs, dir, func(fi os.FileInfo) bool { return !strings.HasSuffix(fi.Name(), "_test.go") }, 0)
	if err != nil {
		return nil
	}
	var r []string
	for _, p := range pk {
		for _, f := range p.Files {
			ast.Inspect(f, func(n ast.Node) bool {
				c, ok := n.(*ast.CallExpr)
				if !ok || len(c.Args) == 0 {
					return true
				}
				name := ""
				switch x := c.Fun.(type) {
				case *ast.Ident:
					name = x.Name
				case *ast.SelectorExpr:
					name = x.Sel.Name
				}
				if name == "RegisterFormat" {
					if l, ok := c.Args[0].(*ast.BasicLit); ok {
						if s, err := strconv.Unquote(l.Value); err == nil {
							r = append(r, s)
						}
					}
				}
				return true
			})
		}
	}
	return r
}

func checkC11(c *Ctx) string {
	p := c.p
	rule := "the built-in template is evaluated from the source: the list of its files, the files embedded, the names saving reads and writes them under, the relationships new documents start with and the template declares, and the declared content types are consistent"
	st := fieldsOf(p.docxType())
	var tmplF, listF, fsF string
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch {
		case f.Name() == "template":
			tmplF = f.Name()
		case tstr(f.Type()) == "[]string":
			listF = f.Name()
		case isNamed(f.Type(), "io/fs", "FS"):
			fsF = f.Name()
		}
	}
	if tmplF == "" {
		for i := 0; i < st.NumFields(); i++ {
			if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				tmplF = st.Field(i).Name()
			}
		}
	}
	if tmplF == "" || listF == "" || fsF == "" {
		c.fail("anchor", nil, nil, "fields", "the document has no template name, file list or file source any more")
		return rule
	}
	// what saving opens and under which names it writes
	var opens []*Term
	consts := map[string]bool{}
	wt := p.method("Docx", "WriteTo")
	if wt == nil {
		c.fail("anchor", nil, nil, "WriteTo", "Docx.WriteTo is gone")
		return rule
	}
	for _, q := range c.paths(wt) {
		for _, ev := range q.ev() {
			switch {
			case ev.kind == "call" && strings.HasSuffix(ev.sym, "FS).Open") && len(ev.a) == 2:
				opens = append(opens, ev.a[1])
			case ev.kind == "call" && ev.sym == "io/fs.ReadFile" && len(ev.a) == 2:
				opens = append(opens, ev.a[1])
			case ev.kind == "mapset" && len(ev.a) > 1:
				if s, ok := ev.a[1].strVal(); ok {
					consts[s] = true
				}
			case ev.kind == "call" && strings.HasSuffix(ev.sym, "zip.Writer).Create") && len(ev.a) == 2:
				if s, ok := ev.a[1].strVal(); ok {
					consts[s] = true
				}
			}
		}
	}
	// the calls that choose a built-in template
	embed := map[string]string{}
	for _, f := range p.rootPkg.EmbedFiles {
		if r, err := filepath.Rel(p.repo, f); err == nil {
			embed[filepath.ToSlash(r)] = f
		} else {
			embed[f] = f
		}
	}
	if len(embed) == 0 {
		c.fail("embed", nil, nil, "none", "the template files are not embedded")
		return rule
	}
	found := false
	for _, fn := range p.exportedFns() {
		for _, q := range c.paths(fn) {
			if q.outcome != "return" {
				continue
			}
			recv := map[*Term]bool{}
			for loc := range q.st.heap {
				if loc.op == "fa" && loc.sym == fsF && types.Identical(locType(loc.args[0]), p.docxType()) {
					recv[loc.args[0]] = true
				}
			}
			for d := range recv {
				src := unwrap(c.e.load0(q.st, fieldLocOf(d, p, fsF)))
				if src == nil || src.typ == nil || !isNamed(src.typ, "embed", "FS") && !isPtrTo(src.typ, "embed", "FS") {
					continue
				}
				found = true
				c.n("template_choices")
				tname, ok := c.e.load0(q.st, fieldLocOf(d, p, tmplF)).strVal()
				if !ok || tname == "" {
					c.fail("choice", fn, nil, "name", "%s chooses the built-in files under a template name that is not fixed", fnLabel(fn))
					continue
				}
				lst := c.copySource(fn, q, c.e.load0(q.st, fieldLocOf(d, p, listF)))
				var names []string
				if b := base(lst); b.op == "global" && (lst.op == "ld" || plain(lst).op == "ld" || lst.op == "slice") {
					names = p.stringList(b.sym)
				}
				if names == nil {
					names = c.literalNames(q, lst)
				} else {
					names = cutNames(names, lst)
				}
				if names == nil {
					c.fail("choice", fn, nil, "list", "%s chooses the built-in files with a list that is not fixed: %v", fnLabel(fn), lst)
					continue
				}
				c.template(fn, tname, names, opens, embed, consts, listF, tmplF)
				c.ownNames(wt, names, tname, listF, tmplF)
			}
		}
	}
	if !found {
		c.fail("anchor", nil, nil, "choice", "no exported call chooses the embedded template")
	}
	c.atLeast("template_files", 7)
	c.atLeast("relationships", 12)
	c.atLeast("content_types", 8)
	c.atLeast("image_formats", 4)
	return rule
}

// literalNames: the strings of a list literal made on the path.
func (c *Ctx) literalNames(q *Path, l *Term) []string {
	var r []string
	ok := true
	c.listItems(q, l, func(e *Term, whole bool) {
		s, is := e.strVal()
		if whole || !is {
			ok = false
			return
		}
		r = append(r, s)
	})
	if !ok {
		return nil
	}
	return r
}

func (c *Ctx) template(fn *ssa.Function, tname string, names []string, opens []*Term, embed map[string]string, consts map[string]bool, listF, tmplF string) {
	p := c.p
	// where a listed file is read from
	where := func(name string) []string {
		var r []string
		seen := map[string]bool{}
		for _, o := range opens {
			hasT := false
			s, ok := evalText(o, func(t *Term) (string, bool) {
				if t.op == "ld" && lastField(t) == tmplF && t.args[0].op == "fa" {
					hasT = true
					return tname, true
				}
				if t.op == "ld" && t.args[0].op == "ia" {
					return name, true
				}
				return "", false
			})
			if ok && hasT && !seen[s] {
				seen[s] = true
				r = append(r, s)
			}
		}
		return r
	}
	files := map[string]string{}
	root := ""
	for _, n := range names {
		c.n("template_files")
		if _, dup := files[n]; dup {
			c.fail("list", fn, nil, "twice "+n, "the template lists %s twice", n)
		}
		ws := where(n)
		if len(ws) == 0 {
			c.fail("anchor", fn, nil, "open", "saving does not open the files of a named template")
			return
		}
		for _, w := range ws {
			if !strings.HasSuffix(w, "/"+n) {
				c.fail("path", fn, nil, "path "+n, "the template file %s is read from %s", n, w)
			} else {
				root = strings.TrimSuffix(w, n)
			}
			f, ok := embed[w]
			if !ok {
				c.fail("embed", fn, nil, "missing "+n, "the template lists %s, but no file %s is embedded", n, w)
				continue
			}
			files[n] = f
		}
	}
	for e := range embed {
		if root != "" && strings.HasPrefix(e, root) {
			if _, ok := files[strings.TrimPrefix(e, root)]; !ok {
				c.fail("list", fn, nil, "left out "+e, "the template file %s is embedded but never saved", e)
			}
		}
	}
	// the document's own parts
	var main string
	for s := range consts {
		if consts[path.Join(path.Dir(s), "_rels", path.Base(s)+".rels")] {
			main = s
		}
	}
	if main == "" {
		c.fail("parts", fn, nil, "document", "saving writes no part together with its relationships: %v", keysOf(consts))
		return
	}
	written := map[string]bool{}
	for s := range consts {
		written[s] = true
	}
	for n := range files {
		written[n] = true
	}
	for _, must := range []string{"[Content_Types].xml", "_rels/.rels"} {
		if !written[must] {
			c.fail("parts", fn, nil, must, "a document with the built-in template is saved without %s", must)
		}
	}
	if f := files["word/styles.xml"]; f != "" {
		c.namedStyles(f)
	}
	// content types
	var ct xmlTypes
	if f := files["[Content_Types].xml"]; f != "" {
		b, err := os.ReadFile(f)
		if err == nil {
			err = xml.Unmarshal(b, &ct)
		}
		if err != nil {
			c.fail("types", fn, nil, "unreadable", "the content types of the template cannot be read: %v", err)
			return
		}
	} else {
		return
	}
	typeOf := func(part string) string {
		for _, o := range ct.Override {
			if strings.EqualFold(o.PartName, "/"+part) {
				return o.ContentType
			}
		}
		ext := strings.TrimPrefix(path.Ext(part), ".")
		for _, d := range ct.Default {
			if strings.EqualFold(d.Extension, ext) {
				return d.ContentType
			}
		}
		return ""
	}
	for w := range written {
		if w == "[Content_Types].xml" {
			continue
		}
		c.n("content_types")
		t := typeOf(w)
		if t == "" {
			c.fail("types", fn, nil, w, "the part %s has no declared content type", w)
		}
		if strings.HasSuffix(w, ".rels") && t != "application/vnd.openxmlformats-package.relationships+xml" {
			c.fail("types", fn, nil, w, "the relationships part %s has the content type %q", w, t)
		}
	}
	for _, o := range ct.Override {
		c.n("content_types")
		if !written[strings.TrimPrefix(o.PartName, "/")] {
			c.fail("types", fn, nil, "stray "+o.PartName, "a content type is declared for %s, which is not saved", o.PartName)
		}
	}
	// relationships the template declares
	resolve := func(dir, target string) string {
		if strings.HasPrefix(target, "/") {
			return strings.TrimPrefix(path.Clean(target), "/")
		}
		return path.Join(dir, target)
	}
	judge := func(at *ssa.Function, where, dir, typ, target string) string {
		c.n("relationships")
		r := resolve(dir, target)
		if !written[r] {
			c.fail("target", at, nil, where+" "+target, "%s: the relationship to %s leads to %s, which is not saved", where, target, r)
			return r
		}
		if want := partTypes[typ]; want != "" && typeOf(r) != want {
			c.fail("types", at, nil, where+" "+target, "%s: %s is reached as %s but declared as %q", where, r, typ[strings.LastIndex(typ, "/")+1:], typeOf(r))
		}
		return r
	}
	doc := false
	for n, f := range files {
		if !strings.HasSuffix(n, ".rels") {
			continue
		}
		var rs xmlRels
		b, err := os.ReadFile(f)
		if err == nil {
			err = xml.Unmarshal(b, &rs)
		}
		if err != nil {
			c.fail("target", fn, nil, "unreadable "+n, "the relationships %s cannot be read: %v", n, err)
			continue
		}
		ids := map[string]bool{}
		for _, r := range rs.Relationship {
			if ids[r.ID] {
				c.fail("target", fn, nil, n+" twice "+r.ID, "%s has two relationships %s", n, r.ID)
			}
			ids[r.ID] = true
			if r.TargetMode == "External" {
				continue
			}
			to := judge(fn, n, path.Dir(path.Dir(n)), r.Type, r.Target)
			if n == "_rels/.rels" && strings.HasSuffix(r.Type, "/officeDocument") && to == main {
				doc = true
			}
		}
	}
	if !doc {
		c.fail("target", fn, nil, "main", "the template does not lead to the document part %s", main)
	}
	// relationships new documents start with
	sh := c.shape()
	for _, f := range p.exportedFns() {
		for _, q := range c.paths(f) {
			if q.outcome == "panic" {
				continue
			}
			if k, _ := retErr(q); k == "err" {
				continue
			}
			for _, ev := range q.ev() {
				if ev.kind != "store" {
					continue
				}
				c.relations(q, ev.a[1], sh, func(e *Term) {
					typ, ok1 := structField(e, "Type").strVal()
					tgt, ok2 := structField(e, "Target").strVal()
					mode, _ := structField(e, "TargetMode").strVal()
					if !ok1 || !ok2 || mode == "External" {
						return
					}
					judge(f, fnLabel(f), path.Dir(main), typ, tgt)
				})
			}
		}
	}
	// image formats
	exts := map[string]*ssa.Function{}
	for _, f := range p.allEntries() {
		for _, q := range c.paths(f) {
			for _, ev := range q.ev() {
				if ev.kind != "store" || ev.a[1] == nil {
					continue
				}
				t := ev.a[1]
				if t.op != "append" && t.op != "struct" {
					continue
				}
				c.listItems(q, t, func(e *Term, whole bool) {
					if whole || e.op != "struct" || !pkgNamed(p, e.typ, "Media") {
						return
					}
					for _, nm := range c.phiValues(f, q, structField(e, sh.name)) {
						if nm == nil || nm.op != "bin" || nm.sym != "+" {
							continue
						}
						last := nm.args[1]
						if s, ok := last.strVal(); ok {
							if i := strings.LastIndexByte(s, '.'); i >= 0 {
								exts[s[i+1:]] = f
							} else if d, ok := lastText(nm.args[0]); ok && strings.HasSuffix(d, ".") {
								exts[s] = f
							} else {
								c.fail("images", f, ev.instr, "extension", "the extension of the media name %v cannot be made out", nm)
							}
							continue
						}
						if d, ok := lastText(nm.args[0]); !ok || !strings.HasSuffix(d, ".") {
							c.fail("images", f, ev.instr, "extension", "the extension of the media name %v cannot be made out", nm)
							continue
						}
						for last.op == "call" && (last.sym == "strings.ToLower" || last.sym == "strings.ToUpper") {
							last = last.args[0] // extensions are compared without regard to case
						}
						for _, e2 := range q.ev() {
							if e2.kind != "call" || e2.callee == nil || e2.callee.Object() == nil {
								continue
							}
							for _, r := range e2.res {
								if r != last && last.mentions(r) && r.typ != nil && isStringT(r.typ) {
									c.fail("images", f, e2.instr, "extension", "the extension of the media name %v is not that of the format", nm)
								}
								if r == last {
									dir := filepath.Dir(p.fset.Position(e2.callee.Object().Pos()).Filename)
									fs := registered(dir)
									if len(fs) == 0 {
										c.fail("images", f, e2.instr, "formats", "the formats %s recognises are unknown", e2.sym)
									}
									for _, x := range fs {
										exts[x] = f
									}
								}
							}
						}
					}
				})
			}
		}
	}
	for x, f := range exts {
		c.n("image_formats")
		t := typeOf("word/media/image1." + x)
		if t == "" {
			c.fail("images", f, nil, x, "images of the format %s are stored without a declared content type", x)
		} else if w := imageTypes[x]; w != "" && w != t {
			c.fail("images", f, nil, x, "images of the format %s are declared as %s", x, t)
		}
	}
}

func lastText(t *Term) (string, bool) {
	if s, ok := t.strVal(); ok {
		return s, true
	}
	if t.op == "bin" && t.sym == "+" {
		return lastText(t.args[1])
	}
	return "", false
}

func keysOf(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	return r
}

// relations: the relationship entries a stored value contains.
func (c *Ctx) relations(q *Path, v *Term, sh *docShape, f func(e *Term)) {
	if v == nil || v.typ == nil {
		return
	}
	if l := structField(v, sh.relsF); l != nil && pkgNamed(c.p, v.typ, "Relationships") {
		v = l
	}
	if types.Identical(v.typ, c.p.docxType()) && v.op == "struct" {
		c.relations(q, structField(v, sh.relF), sh, f)
		return
	}
	if el := sliceElem(v.typ); el != nil && pkgNamed(c.p, el, "Relationship") {
		c.listItems(q, v, func(e *Term, whole bool) {
			if !whole {
				f(e)
			}
		})
	}
}

// phiValues: the values a loop-carried variable may hold: what it starts with and what any round
// leaves in it.
func (c *Ctx) phiValues(fn *ssa.Function, q *Path, t *Term) []*Term {
	for _, ev := range loopEvents(q) {
		for ph, g := range ev.entry.phis {
			if g != t {
				continue
			}
			r := []*Term{ev.entry.init[ph]}
			for _, b := range c.paths(fn) {
				if b.outcome == "back" && b.hdr != nil && b.hdr.phis[ph] == g && b.phis[ph] != nil {
					r = append(r, b.phis[ph])
				}
			}
			return r
		}
	}
	return []*Term{t}
}

// cutNames: what is left of a fixed list after the cuts made in the term; nil when they are not fixed.
func cutNames(names []string, l *Term) []string {
	if l.op != "slice" {
		return names
	}
	names = cutNames(names, l.args[0])
	if names == nil {
		return nil
	}
	at := func(t *Term, def int) (int, bool) {
		if t == nil || t.op == "nil" {
			return def, true
		}
		if i, ok := t.intVal(); ok {
			return int(i), true
		}
		b, k := lin(t)
		if b != nil && b.op == "len" && sameList(b.args[0], l.args[0]) {
			return len(names) + int(k), true
		}
		return 0, false
	}
	var lo, hi *Term
	if len(l.args) > 1 {
		lo = l.args[1]
	}
	if len(l.args) > 2 {
		hi = l.args[2]
	}
	a, ok1 := at(lo, 0)
	b, ok2 := at(hi, len(names))
	if !ok1 || !ok2 || a < 0 || b > len(names) || a > b {
		return nil
	}
	return names[a:b]
}

// ownNames: what saving names after an entry of the file list is called exactly that.
func (c *Ctx) ownNames(wt *ssa.Function, names []string, tname, listF, tmplF string) {
	for _, q := range c.paths(wt) {
		for _, ev := range q.ev() {
			if !(ev.kind == "mapset" || ev.kind == "call" && strings.HasSuffix(ev.sym, "zip.Writer).Create")) || len(ev.a) < 2 {
				continue
			}
			k := ev.a[1]
			entry := func(t *Term) bool {
				return t.op == "ld" && t.args[0].op == "ia" && lastField(plain(t.args[0].args[0])) == listF
			}
			if !k.contains(entry) {
				continue
			}
			c.n("entry_names")
			for _, n := range names {
				s, ok := evalText(k, func(t *Term) (string, bool) {
					if entry(t) {
						return n, true
					}
					if t.op == "ld" && lastField(t) == tmplF && t.args[0].op == "fa" {
						return tname, true
					}
					return "", false
				})
				if !ok || s != n {
					c.fail("path", wt, ev.instr, "name "+n, "the template file %s is written under another name: %v", n, k)
					break
				}
			}
		}
	}
}

// styleKinds: the elements that refer to a style, and the kind of style each of them means.
var styleKinds = map[string]string{"w:rStyle": "character", "w:pStyle": "paragraph", "w:tblStyle": "table"}

// namedStyles: the styles the library itself refers to are defined in the template, for their kind of content.
func (c *Ctx) namedStyles(file string) {
	var ss struct {
		Style []struct {
			Type string `xml:"type,attr"`
			ID   string `xml:"styleId,attr"`
		} `xml:"style"`
	}
	b, err := os.ReadFile(file)
	if err == nil {
		err = xml.Unmarshal(b, &ss)
	}
	if err != nil {
		c.fail("styles", nil, nil, "unreadable", "the styles of the template cannot be read: %v", err)
		return
	}
	kind := map[string]string{}
	for _, s := range ss.Style {
		c.n("styles")
		kind[s.ID] = s.Type
	}
	elem := func(t types.Type) string {
		n := namedBehind(t)
		if n == nil {
			return ""
		}
		st := fieldsOf(n)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if st.Field(i).Name() == "XMLName" {
				return strings.Split(reflect.StructTag(st.Tag(i)).Get("xml"), ",")[0]
			}
		}
		return ""
	}
	judge := func(fn *ssa.Function, ev *Event, el string, v *Term) {
		s, ok := v.strVal()
		if want := styleKinds[el]; want != "" && ok && s != "" {
			c.n("style_references")
			switch k := kind[s]; k {
			case want:
			case "":
				c.fail("styles", fn, ev.instr, s, "the style %s, which <%s> refers to, is not in the template", s, el)
			default:
				c.fail("styles", fn, ev.instr, s, "the style %s, which <%s> refers to, is one for a %s in the template", s, el, k)
			}
		}
	}
	for _, fn := range c.p.exportedFns() {
		if c.p.opening()[fn] {
			continue
		}
		for _, q := range c.paths(fn) {
			for _, ev := range q.ev() {
				if ev.kind != "store" {
					continue
				}
				if loc := ev.a[0]; loc.op == "fa" && loc.sym == "Val" {
					judge(fn, ev, elem(loc.args[0].typ), ev.a[1])
				}
				ev.a[1].contains(func(t *Term) bool {
					if st := fieldsOf(t.typ); t.op == "struct" && st != nil {
						for i := 0; i < st.NumFields() && i < len(t.args); i++ {
							if st.Field(i).Name() == "Val" && t.args[i] != nil {
								judge(fn, ev, elem(t.typ), t.args[i])
							}
						}
					}
					return false
				})
			}
		}
	}
}

// ---------------------------------------------------------------- C37

// checkC37: the call that selects a template puts exactly what it is given in the places saving takes the
// template from, and changes nothing else.
func checkC37(c *Ctx) string {
	rule := "on every path of the call that selects a template, the document's template name, file list and file source end up as the three arguments (the list itself or a full copy of it), nothing else of the document is changed, and the document is returned"
	p := c.p
	dst := fieldsOf(p.docxType())
	for _, fn := range p.exportedFns() {
		sg := fn.Signature
		if sg.Recv() == nil || !types.Identical(sg.Recv().Type(), types.NewPointer(p.docxType())) || sg.Params().Len() != 3 || sg.Results().Len() != 1 {
			continue
		}
		want := map[string]*Term{}
		for _, prm := range fn.Params[1:] {
			t := mk("param", prm.Name(), prm.Type())
			switch {
			case tstr(prm.Type()) == "string":
				want["string"] = t
			case tstr(prm.Type()) == "[]string":
				want["[]string"] = t
			case isNamed(prm.Type(), "io/fs", "FS"):
				want["fs"] = t
			}
		}
		if len(want) != 3 {
			continue
		}
		c.n("selecting_calls")
		recv := mk("param", fn.Params[0].Name(), fn.Params[0].Type())
		for _, q := range c.paths(fn) {
			if q.outcome == "back" && q.hdr != nil {
				continue
			}
			if q.outcome != "return" {
				continue
			}
			c.n("selecting_paths")
			if len(q.rets) != 1 || q.rets[0] != recv {
				c.fail("result", fn, lastInstr(q), "", "the call that selects a template does not return its document")
			}
			for i := 0; i < dst.NumFields(); i++ {
				f := dst.Field(i)
				var w *Term
				switch {
				case tstr(f.Type()) == "string":
					w = want["string"]
				case tstr(f.Type()) == "[]string":
					w = want["[]string"]
				case isNamed(f.Type(), "io/fs", "FS"):
					w = want["fs"]
				default:
					continue
				}
				v := unwrap(c.e.load0(q.st, faddr(recv, dst, i)))
				c.n("selected_values")
				if !sameGiven(q, v, w) && !c.copiedOver(fn, q, v, w) {
					c.fail("selected", fn, lastInstr(q), f.Name(), "selecting a template leaves %v in the document's %s, not what was given", v, f.Name())
				}
			}
			for loc, v := range q.st.heap {
				if base(loc) != recv || loc.op != "fa" || v.op == "ld" && v.args[0] == loc {
					continue
				}
				if loc.args[0] == recv {
					if t := locFieldType(dst, loc.sym); t != nil && (tstr(t) == "string" || tstr(t) == "[]string" || isNamed(t, "io/fs", "FS")) {
						continue
					}
				}
				c.fail("changed", fn, lastInstr(q), lastField(loc), "selecting a template changes %s of the document", lastField(loc))
			}
		}
	}
	c.atLeast("selecting_calls", 1)
	c.atLeast("selected_values", 3)
	return rule
}

func locFieldType(st *types.Struct, name string) types.Type {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	return nil
}

// sameGiven: v is the argument itself, or a list holding all of it and nothing else.
func sameGiven(q *Path, v, w *Term) bool {
	if v == w || v == unwrap(w) {
		return true
	}
	switch v.op {
	case "slice":
		// w[:len(w)] and w[:len(w):len(w)]
		return sameGiven(q, v.args[0], w) && lenOf(q.st, v) == lenOf(q.st, w)
	case "appendslice":
		if len(v.args) != 2 || !sameGiven(q, v.args[1], w) {
			return false
		}
		n := lenOf(q.st, v.args[0])
		if n == nil {
			return q.st.facts.isNil(v.args[0])
		}
		i, ok := n.intVal()
		return q.st.facts.isNil(v.args[0]) || ok && i == 0
	case "mkslice", "arrslice":
		for _, ev := range q.ev() {
			if ev.kind == "copy" && ev.a[0] == v && sameGiven(q, ev.a[1], w) && lenOf(q.st, v) == lenOf(q.st, w) {
				return true
			}
		}
	case "nil":
		return q.st.facts.isNil(w) // a list or source that was not given
	}
	return q.st.facts.isNil(w) && q.st.facts.isNil(v)
}

// copiedOver: a loop over all of w put its elements, one by one and unchanged, in the list v.
func (c *Ctx) copiedOver(fn *ssa.Function, q *Path, v, w *Term) bool {
	for _, le := range loopEvents(q) {
		wk := walkOf(q, le.entry)
		if wk == nil || !wk.done || !wk.first || wk.list != w && wk.src != w {
			continue
		}
		var init *Term
		next := func(x *Path) *Term { return nil }
		for loc, g := range le.entry.locs {
			if g == v {
				loc := loc
				init = le.entry.locInit[loc]
				next = func(x *Path) *Term { return c.e.load0(x.st, loc) }
			}
		}
		for ph, g := range le.entry.phis {
			if g == v {
				ph := ph
				init = le.entry.init[ph]
				next = func(x *Path) *Term { return x.phis[ph] }
			}
		}
		if init == nil {
			continue
		}
		if n, ok := lenOf(q.st, init).intVal(); !q.st.facts.isNil(init) && (!ok || n != 0) {
			continue
		}
		rounds, all := 0, true
		for _, x := range c.paths(fn) {
			if x.outcome != "back" || x.hdr == nil || x.hdr.id != le.entry.id {
				continue
			}
			rounds++
			xw := walkOf(x, x.hdr)
			nv := next(x)
			if xw == nil || !xw.steps(x) || nv == nil || nv.op != "append" || len(nv.args) != 2 || !isElem(nv.args[1], xw.list, xw.idx) {
				all = false
			}
		}
		if all && rounds > 0 {
			return true
		}
	}
	return false
}

// copySource: the list v is a full copy of, or v itself.
func (c *Ctx) copySource(fn *ssa.Function, q *Path, v *Term) *Term {
	var cands []*Term
	if v.op == "appendslice" && len(v.args) == 2 {
		cands = append(cands, v.args[1])
	}
	for _, ev := range q.ev() {
		if ev.kind == "copy" && ev.a[0] == v {
			cands = append(cands, ev.a[1])
		}
	}
	for _, w := range cands {
		if sameGiven(q, v, w) {
			return w
		}
	}
	for _, le := range loopEvents(q) {
		if wk := walkOf(q, le.entry); wk != nil && wk.src != nil && c.copiedOver(fn, q, v, wk.src) {
			return wk.src
		}
	}
	return v
}
