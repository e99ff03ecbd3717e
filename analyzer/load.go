package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the type-checked program under analysis.
type Prog struct {
	dir        string
	module     string
	pkgs       []*packages.Package
	byPath     map[string]*packages.Package
	ssa        *ssa.Program
	fset       *token.FileSet
	spkg       map[string]*ssa.Package
	etx        *packages.Package
	dag        *packages.Package
	cli        *packages.Package
	varGlobals map[string]bool
	inits      map[string]*Term
	initVals   map[string]*Term
	inst       *dagInst
	errs       map[string]string
	all        map[*ssa.Function]bool
}

func (p *Prog) allFns() map[*ssa.Function]bool {
	if p.all == nil {
		p.all = ssautil.AllFunctions(p.ssa)
	}
	return p.all
}

func loadProg(dir string) (*Prog, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOWORK=off")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: dir, Env: env}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type checking failed: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	p := &Prog{dir: dir, pkgs: pkgs, byPath: map[string]*packages.Package{}, spkg: map[string]*ssa.Package{}}
	p.ssa, _ = ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p.ssa.Build()
	p.fset = pkgs[0].Fset
	for _, k := range pkgs {
		p.byPath[k.PkgPath] = k
		p.spkg[k.PkgPath] = p.ssa.Package(k.Types)
		if k.Module != nil {
			p.module = k.Module.Path
		}
		switch {
		case strings.HasSuffix(k.PkgPath, "/pkg/etx"):
			p.etx = k
		case strings.HasSuffix(k.PkgPath, "/pkg/dag"):
			p.dag = k
		case k.Name == "main" && strings.HasSuffix(k.PkgPath, "/cli"):
			p.cli = k
		}
	}
	if p.etx == nil || p.dag == nil || p.cli == nil {
		return nil, fmt.Errorf("expected packages etx, dag and cmd/cli, found %v", pkgs)
	}
	return p, nil
}

func (p *Prog) inModule(path string) bool {
	return path == p.module || strings.HasPrefix(path, p.module+"/")
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.fset.Position(pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, p.dir+"/"), ps.Line)
}

var inlineStd = map[string]bool{"slices": true, "maps": true, "cmp": true, "iter": true}

func (p *Prog) engine() *Engine {
	e := newEngine(p.ssa, p.fset)
	e.inlineOK = func(fn *ssa.Function) bool {
		path := fnPkgPath(fn)
		if inlineStd[path] {
			switch fnName(fn) {
			case "maps.Copy", "maps.Clone", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Reverse":
				return false
			}
			return true
		}
		return p.inModule(path)
	}
	e.globalInit = p.globalInit
	return e
}

// globalInit resolves a package variable that is assigned once, in its
// declaration, from a constant pattern.
func (p *Prog) globalInit(name string) *Term {
	if p.inits == nil {
		p.inits = map[string]*Term{}
		n := map[string]int{}
		for fn := range p.allFns() {
			if !p.inModule(fnPkgPath(fn)) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					g, ok := st.Addr.(*ssa.Global)
					if !ok {
						continue
					}
					n[g.String()]++
					c, ok := st.Val.(*ssa.Call)
					if !ok || c.Call.StaticCallee() == nil {
						continue
					}
					if fnName(c.Call.StaticCallee()) == "regexp.MustCompile" {
						if k, ok := c.Call.Args[0].(*ssa.Const); ok {
							t := mk(OCall, "regexp.MustCompile", 0, nil, cVal(k.Value, k.Type()))
							t.Typ = c.Type()
							p.inits[g.String()] = t
						}
					}
				}
			}
		}
		for k, v := range n {
			if v != 1 {
				delete(p.inits, k)
			}
		}
	}
	if t := p.inits[name]; t != nil {
		return t
	}
	return p.initTerms()[name]
}

// initTerms evaluates the package initialisers: what each package variable
// that is assigned nowhere else holds afterwards.
func (p *Prog) initTerms() map[string]*Term {
	if p.initVals != nil {
		return p.initVals
	}
	p.initVals = map[string]*Term{}
	once := map[string]int{}
	for fn := range p.allFns() {
		if !p.inModule(fnPkgPath(fn)) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						once[g.String()]++
						if fn.Name() != "init" || fn.Synthetic == "" {
							once[g.String()] += 2
						}
					}
				}
			}
		}
	}
	for _, pk := range p.pkgs {
		fn := p.spkg[pk.PkgPath].Func("init")
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		e := newEngine(p.ssa, p.fset)
		e.limit = 50000
		e.inlineOK = func(f *ssa.Function) bool { return p.inModule(fnPkgPath(f)) || inlineStd[fnPkgPath(f)] }
		p.parserHooks(e)
		e.contract = func(e *Engine, st *State, f *ssa.Function, args []*Term, pos token.Pos) ([]Outcome, bool) {
			if f.Name() == "init" && f.Signature.Recv() == nil && len(args) == 0 && f != fn {
				return []Outcome{{St: st, Pos: pos}}, true
			}
			return nil, false
		}
		e.decide = func(st *State, t *Term) int {
			if t.Op == OLoad && t.Args[0].Op == OGlobal && strings.HasSuffix(t.Args[0].Sym, "init$guard") {
				return 0
			}
			return -1
		}
		outs, und := e.runFn(fn, func(st *State) []*Term { return nil })
		if und != nil || len(outs) != 1 || outs[0].Panic {
			continue
		}
		o := outs[0]
		for a, v := range o.St.overlay {
			if a.Op != OGlobal || once[a.Sym] != 1 {
				continue
			}
			t := e.deepFrozen(o.St, v)
			if !t.any(func(x *Term) bool {
				return x.Op == OObj || x.Op == OHole || x.Op == OSym && strings.Contains(x.Sym, "$")
			}) {
				p.initVals[a.Sym] = t
			}
		}
	}
	return p.initVals
}

// method finds the declared method of a named type (pointer or value receiver).
func (p *Prog) method(t types.Type, name string) *ssa.Function {
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := p.ssa.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			sel := ms.At(i)
			if sel.Obj().Name() == name && len(sel.Index()) == 1 {
				fn := p.ssa.MethodValue(sel)
				if fn.Synthetic == "" || fn.Origin() != nil {
					return fn
				}
			}
		}
	}
	return nil
}

// dagInst is the graph package instantiated with opaque key and value types.
type dagInst struct {
	graph *types.Named
	set   *types.Named
	key   *types.Named
	val   *types.Named
}

func (p *Prog) instDag() *dagInst {
	if p.inst != nil {
		return p.inst
	}
	pk := p.dag.Types
	mkNamed := func(name string, u types.Type) *types.Named {
		return types.NewNamed(types.NewTypeName(token.NoPos, pk, name, nil), u, nil)
	}
	d := &dagInst{key: mkNamed("Key", types.Typ[types.String]), val: mkNamed("Payload", types.NewStruct([]*types.Var{types.NewField(token.NoPos, pk, "x", types.Typ[types.Int], false)}, nil))}
	ctx := types.NewContext()
	g, ok := pk.Scope().Lookup("AcyclicGraph").(*types.TypeName)
	if !ok {
		return nil
	}
	gi, err := types.Instantiate(ctx, g.Type(), []types.Type{d.key, d.val}, true)
	if err != nil {
		return nil
	}
	d.graph = gi.(*types.Named)
	s, ok := pk.Scope().Lookup("Set").(*types.TypeName)
	if !ok {
		return nil
	}
	si, err := types.Instantiate(ctx, s.Type(), []types.Type{d.key}, true)
	if err != nil {
		return nil
	}
	d.set = si.(*types.Named)
	p.inst = d
	return d
}

// runFn analyses fn from a state prepared by setup.
func (e *Engine) runFn(fn *ssa.Function, setup func(st *State) []*Term) (outs []Outcome, und *Undecided) {
	return e.runClosure(fn, func(st *State) ([]*Term, []*Term) { return setup(st), nil })
}

// runClosure is runFn for a function with captured variables.
func (e *Engine) runClosure(fn *ssa.Function, setup func(st *State) (args, bindings []*Term)) (outs []Outcome, und *Undecided) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(*Undecided); ok {
				und = u
				return
			}
			panic(r)
		}
	}()
	e.stack = nil
	st := newState()
	args, bindings := setup(st)
	outs = e.Call(st, fn, args, bindings)
	return outs, nil
}

func (e *Engine) symArgs(fn *ssa.Function, names ...string) []*Term {
	var out []*Term
	for i, p := range fn.Params {
		n := p.Name()
		if i < len(names) {
			n = names[i]
		}
		out = append(out, mk(OSym, n, 0, p.Type()))
	}
	return out
}

func dumpOutcomes(p *Prog, outs []Outcome) {
	for i, o := range outs {
		fmt.Printf("--- outcome %d panic=%v %s at %s\n", i, o.Panic, o.Reason, p.pos(o.Pos))
		for _, c := range o.St.pc {
			fmt.Printf("   if %s\n", c.term())
		}
		for _, r := range o.Results {
			fmt.Printf("   => %s\n", r)
		}
		for _, f := range o.St.effs {
			fmt.Printf("   ! %s\n", f)
		}
		var ids []int
		for id := range o.St.heap {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			fmt.Printf("   obj%d = %s\n", id, o.St.heap[id].val)
		}
	}
}
