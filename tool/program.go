package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type Program struct {
	repo       string
	pkgs       []*packages.Package
	ssa        *ssa.Program
	root       *ssa.Package
	rootPkg    *packages.Package
	all        []*ssa.Function // every source function of the repo (all packages)
	byName     map[string]*ssa.Function
	loopInfo   map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	ownerField string
	fset       *token.FileSet
	scopePkgs  map[*types.Package]bool
	modCache   map[*ssa.Function]modSet
	nsKeys     map[string]bool
}

func loadProgram(repo string) (*Program, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule | packages.NeedEmbedFiles | packages.NeedEmbedPatterns, Dir: repo, Env: env, ParseFile: parseNormal}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{repo: repo, pkgs: ps, byName: map[string]*ssa.Function{}, loopInfo: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, scopePkgs: map[*types.Package]bool{}}
	for _, q := range ps {
		for _, e := range q.Errors {
			return nil, fmt.Errorf("package %s: %v", q.PkgPath, e)
		}
		p.fset = q.Fset
	}
	prog, sps := ssautil.Packages(ps, ssa.InstantiateGenerics|ssa.BuildSerially)
	prog.Build()
	p.ssa = prog
	for i, q := range ps {
		if sps[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", q.PkgPath)
		}
		p.scopePkgs[q.Types] = true
		if q.Name == "docx" {
			p.root, p.rootPkg = sps[i], q
		}
	}
	if p.root == nil {
		return nil, fmt.Errorf("package docx not found")
	}
	for f := range ssautil.AllFunctions(prog) {
		p.byName[f.String()] = f
		if len(f.Blocks) > 0 && p.inScope(f) && f.Synthetic == "" && p.inRoot(f) {
			p.all = append(p.all, f)
		}
	}
	sort.Slice(p.all, func(i, j int) bool { return p.all[i].String() < p.all[j].String() })
	p.ownerField = p.findOwnerField()
	return p, nil
}

// findOwnerField: the (single) unexported field name of type *Docx.
func (p *Program) findOwnerField() string {
	dt := p.docxType()
	cnt := map[string]int{}
	sc := p.root.Pkg.Scope()
	for _, n := range sc.Names() {
		if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
			if st, ok := tn.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if pt, ok := st.Field(i).Type().(*types.Pointer); ok && types.Identical(pt.Elem(), dt) {
						cnt[st.Field(i).Name()]++
					}
				}
			}
		}
	}
	best, bn := "", 0
	for k, v := range cnt {
		if v > bn {
			best, bn = k, v
		}
	}
	return best
}

func (p *Program) docxType() types.Type { return p.namedType("Docx") }
func (p *Program) namedType(n string) types.Type {
	o := p.root.Pkg.Scope().Lookup(n)
	if o == nil {
		return nil
	}
	return o.Type()
}

func (p *Program) isRepoType(t types.Type) bool {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg() != nil && p.scopePkgs[n.Obj().Pkg()]
	}
	return false
}

func (p *Program) inScope(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		o := g
		if og := g.Origin(); og != nil {
			o = og
		}
		if o.Pkg != nil {
			return p.scopePkgs[o.Pkg.Pkg]
		}
		if o.Object() != nil && o.Object().Pkg() != nil {
			return p.scopePkgs[o.Object().Pkg()]
		}
	}
	return false
}

// method returns the SSA function of method name on *T (or T).
func (p *Program) method(typeName, name string) *ssa.Function {
	t := p.namedType(typeName)
	if t == nil {
		return nil
	}
	for _, tt := range []types.Type{types.NewPointer(t), t} {
		ms := p.ssa.MethodSets.MethodSet(tt)
		if sel := ms.Lookup(p.root.Pkg, name); sel != nil {
			if f, ok := sel.Obj().(*types.Func); ok {
				if fn := p.ssa.FuncValue(f); fn != nil {
					return fn
				}
			}
		}
	}
	return nil
}
func (p *Program) fn(name string) *ssa.Function { return p.root.Func(name) }

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.fset.Position(ps)
	f := q.Filename
	if r, err := filepath.Rel(p.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}
func (p *Program) ipos(i ssa.Instruction) string {
	if i == nil {
		return "?"
	}
	ps := i.Pos()
	if !ps.IsValid() {
		// nearest positioned instruction of the block
		for _, j := range i.Block().Instrs {
			if j.Pos().IsValid() {
				ps = j.Pos()
				break
			}
		}
	}
	if !ps.IsValid() {
		ps = i.Parent().Pos()
	}
	return p.pos(ps)
}

// loops computes natural loops (merged per header).
func (p *Program) loops(f *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if m, ok := p.loopInfo[f]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*Loop{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := m[s]
				if l == nil {
					l = &Loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	p.loopInfo[f] = m
	return m
}

func (p *Program) sourceFiles() int {
	n := 0
	for _, q := range p.pkgs {
		n += len(q.Syntax)
	}
	return n
}

var _ = ast.Print

// isCopier: a method of *T that takes the destination document and returns a T or *T: the
// "copy this node into that document" role. Callers treat such methods by contract; each one
// is analysed as an entry of its own.
func (p *Program) isCopier(f *ssa.Function) bool {
	sg := f.Signature
	if sg.Recv() == nil || sg.Params().Len() != 1 || sg.Results().Len() != 1 {
		return false
	}
	if !types.Identical(sg.Params().At(0).Type(), types.NewPointer(p.docxType())) {
		return false
	}
	rt := sg.Recv().Type()
	if pt, ok := rt.(*types.Pointer); ok {
		rt = pt.Elem()
	}
	if types.Identical(rt, p.docxType()) {
		return false
	}
	res := sg.Results().At(0).Type()
	return types.Identical(res, rt) || types.Identical(res, types.NewPointer(rt))
}

// isNumParser: a function of this repository from one string to an integer and an error.
func (p *Program) isNumParser(f *ssa.Function) bool {
	sg := f.Signature
	if !p.inScope(f) || f.Parent() != nil || sg.Recv() != nil || sg.Params().Len() != 1 || sg.Results().Len() != 2 || sg.Variadic() {
		return false
	}
	b, ok := sg.Params().At(0).Type().Underlying().(*types.Basic)
	if !ok || b.Kind() != types.String {
		return false
	}
	r, ok := sg.Results().At(0).Type().Underlying().(*types.Basic)
	return ok && r.Info()&types.IsInteger != 0 && types.Identical(sg.Results().At(1).Type(), types.Universe.Lookup("error").Type())
}
func (p *Program) opaqueRole(f *ssa.Function) bool { return p.isCopier(f) || p.isNumParser(f) }

// inRoot: the function belongs to the library package itself, not to the demo command.
func (p *Program) inRoot(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return g.Pkg == p.root
		}
		if o := g.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg == p.root
		}
	}
	return true
}
