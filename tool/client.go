package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ctx carries one check run: what was analysed and what was found.
type Ctx struct {
	p         *Program
	prop      string
	e         *Engine
	viol      []Viol
	seen      map[string]bool
	counts    map[string]int
	fns       map[string]bool
	rules     []string
	notes     []string
	cache     map[*ssa.Function][]*Path
	npaths    int
	nilOwners []nilOwner
	leans     map[string]bool
}

type nilOwner struct {
	fn   *ssa.Function
	what string
}

type Viol struct {
	Key  string `json:"key"`
	Rule string `json:"rule"`
	Pos  string `json:"pos"`
	Func string `json:"function"`
	Msg  string `json:"message"`
}

func newCtx(p *Program, prop string) *Ctx {
	return &Ctx{p: p, prop: prop, e: newEngine(p), seen: map[string]bool{}, counts: map[string]int{}, fns: map[string]bool{}, cache: map[*ssa.Function][]*Path{}}
}

// paths analyses fn once and caches the result.
func (c *Ctx) paths(fn *ssa.Function) []*Path {
	if r, ok := c.cache[fn]; ok {
		return r
	}
	c.e.undecided = nil
	ps := c.e.Analyze(fn)
	for _, u := range c.e.undecided {
		c.fail("undecided", fn, nil, "analysis", "%s", u)
	}
	c.cache[fn] = ps
	c.fns[shortFn(fn)] = true
	c.npaths += len(ps)
	return ps
}

func shortFn(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	return fn.RelString(nil)[strings.LastIndex(fn.RelString(nil), "/")+1:]
}

// fail records a violation; key is stable under line changes.
func (c *Ctx) fail(rule string, fn *ssa.Function, ins ssa.Instruction, detail string, format string, args ...interface{}) {
	f := ""
	pos := ""
	if fn != nil {
		f = fnLabel(fn)
		pos = c.p.pos(fn.Pos())
	}
	if ins != nil {
		pos = c.p.ipos(ins)
	}
	key := rule + "|" + f + "|" + detail
	if c.seen[key] {
		return
	}
	c.seen[key] = true
	c.viol = append(c.viol, Viol{key, rule, pos, f, fmt.Sprintf(format, args...)})
}

func fnLabel(fn *ssa.Function) string {
	if fn.Parent() != nil {
		return fnLabel(fn.Parent()) + "$" + fn.Name()[strings.LastIndexByte(fn.Name(), '$')+1:]
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name() + "." + fn.Name()
		}
	}
	return fn.Name()
}

func (c *Ctx) n(k string) { c.counts[k]++ }

// atLeast guards against a check that silently looks at nothing.
func (c *Ctx) atLeast(k string, min int) {
	if c.counts[k] < min {
		c.fail("anchor", nil, nil, k, "only %d %s found, expected at least %d: the check lost its anchors", c.counts[k], k, min)
	}
}

type knownFile struct {
	Findings []struct {
		Property string `json:"property"`
		Key      string `json:"key"`
		What     string `json:"what"`
	} `json:"findings"`
	Fixed []string `json:"fixed"`
}

func (c *Ctx) report(verif, tier string, seed int, t0 time.Time, rule string) int {
	var kf knownFile
	if b, err := os.ReadFile(filepath.Join(verif, "known-findings.json")); err == nil {
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Println("known-findings.json:", err)
			return 3
		}
	}
	var left, known []Viol
	for _, v := range c.viol {
		k := ""
		for _, f := range kf.Findings {
			if f.Property == c.prop && f.Key == v.Key {
				k = f.What
			}
		}
		if k != "" {
			known = append(known, v)
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k)
		} else {
			left = append(left, v)
		}
	}
	var fl []string
	for f := range c.fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	evd := filepath.Join(verif, "evidence")
	os.MkdirAll(evd, 0o755)
	cov := map[string]interface{}{
		"explanation":        "Static analysis of the current source of /repo (go/ssa, path-sensitive abstract interpretation): " + rule,
		"rule":               rule,
		"functions_analysed": len(fl),
		"functions":          fl,
		"abstract_paths":     c.npaths,
		"loops_widened":      len(c.e.loopsSeen),
		"counts":             c.counts,
		"violations":         left,
		"known_findings":     known,
		"source_files":       c.p.sourceFiles(),
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	ev := map[string]interface{}{"property": c.prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": time.Since(t0).Seconds()}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evd, c.prop+".json"), b, 0o644)
	if len(left) == 0 {
		var ks []string
		for k, v := range c.counts {
			ks = append(ks, fmt.Sprintf("%s=%d", k, v))
		}
		sort.Strings(ks)
		fmt.Printf("OK property=%s functions=%d paths=%d %s\n", c.prop, len(fl), c.npaths, strings.Join(ks, " "))
		return 0
	}
	rp := filepath.Join(evd, c.prop+".violations.json")
	b, _ = json.MarshalIndent(left, "", " ")
	os.WriteFile(rp, b, 0o644)
	for _, v := range left {
		fmt.Printf("  %s: %s: [%s] %s\n", v.Pos, v.Func, v.Rule, v.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, rp)
	return 1
}

// ---- small helpers shared by the rules

func errType() types.Type { return types.Universe.Lookup("error").Type() }

func isErrT(t types.Type) bool { return t != nil && types.Identical(t, errType()) }

// retErr classifies the error result of a return path: "nil", "err", "maybe" or "none".
func retErr(p *Path) (string, *Term) {
	if len(p.rets) == 0 {
		return "none", nil
	}
	r := p.rets[len(p.rets)-1]
	if r.op != "nil" && !isErrT(r.typ) {
		return "none", nil
	}
	if p.st.facts.isNil(r) {
		return "nil", r
	}
	if isSentinel(r) || p.st.facts.nonNil(r) {
		return "err", r
	}
	return "maybe", r
}

func hasPrefixFact(p *Path, prefix string) bool {
	for k, v := range p.st.facts.bools {
		if v && k.op == "call" && k.sym == "strings.HasPrefix" && len(k.args) == 2 {
			if s, ok := k.args[1].strVal(); ok && s == prefix {
				if a := k.args[0]; a.op == "call" && a.sym == "(error).Error" {
					return true
				}
			}
		}
	}
	return false
}

// expectedDead: the path assumes a decoder error whose text starts with "expected", which the
// decoder only produces for targets whose element name mismatches (excluded by rule C05/expected).
func expectedDead(p *Path) bool { return hasPrefixFact(p, "expected") }

func (c *Ctx) loadAt(st *State, loc *Term) *Term { return c.e.load0(st, loc) }

// fieldLoc builds the address of field name of the struct p points to.
func fieldLoc(p *Term, name string) *Term {
	t := locType(p)
	st := fieldsOf(t)
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return faddr(p, st, i)
		}
	}
	return nil
}

func unwrap(t *Term) *Term {
	for t != nil && t.op == "iface" {
		t = t.args[0]
	}
	return t
}

func isPtrTo(t types.Type, pkg, name string) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isNamed(p.Elem(), pkg, name)
}
func isNamed(t types.Type, pkg, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}
