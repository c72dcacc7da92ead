package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type World struct {
	prog      *ssa.Program
	pkgs      []*packages.Package
	ssaPkgs   map[*ssa.Package]bool
	db        *SpecDB
	pkgByName map[string]*types.Package
	pkgByPath map[string]*types.Package
	ssaByName map[string]*ssa.Package
	fset      *token.FileSet
	trusted   map[string]bool
	loopsC    map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	cellC     map[*ssa.Alloc]bool
	gref      map[*ssa.Global]*Term
	escapes   map[string]bool
	extG      map[string]*Term
	funcs     map[string]*ssa.Function // contract key -> function
	sentinel  map[*ssa.Global]bool
	readonly  map[*ssa.Global]bool
	initonly  map[*ssa.Global]bool        // written (possibly through elements) only by package initialisation
	constRef  map[int64]bool              // references of array variables that only initialisation writes
	repoDir   string
	roMu      sync.Mutex
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "PATH=") || strings.HasPrefix(e, "GOFLAGS=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "PATH=/opt/veriftools/go1.24.13/bin:"+os.Getenv("PATH"), "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=1")
}

func loadWorld(repo string, db *SpecDB) (*World, error) {
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile,
		Dir: repo, Env: goEnv()}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pk {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, pkgs := ssautil.Packages(pk, ssa.InstantiateGenerics)
	w := &World{prog: prog, pkgs: pk, ssaPkgs: map[*ssa.Package]bool{}, db: db, pkgByName: map[string]*types.Package{}, pkgByPath: map[string]*types.Package{}, ssaByName: map[string]*ssa.Package{},
		trusted: map[string]bool{}, loopsC: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}, cellC: map[*ssa.Alloc]bool{}, gref: map[*ssa.Global]*Term{}, escapes: map[string]bool{}, extG: map[string]*Term{}, funcs: map[string]*ssa.Function{}, repoDir: repo}
	w.fset = prog.Fset
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		repoPkgs[p.Pkg.Path()] = true
		w.ssaPkgs[p] = true
		w.ssaByName[p.Pkg.Name()] = p
	}
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		p.Build()
		w.pkgByName[p.Pkg.Name()] = p.Pkg
		w.pkgByPath[p.Pkg.Path()] = p.Pkg
	}
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				w.addFunc(p.Pkg.Name()+"."+m.Name(), m)
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					if f := prog.FuncValue(n.Method(i)); f != nil {
						w.addFunc(p.Pkg.Name()+"."+n.Obj().Name()+"."+f.Name(), f)
					}
				}
			}
		}
	}
	w.scanGlobals()
	return w, nil
}

func (w *World) addFunc(key string, f *ssa.Function) {
	w.funcs[key] = f
	for i, a := range f.AnonFuncs {
		w.addFunc(fmt.Sprintf("%s$%d", key, i+1), a)
	}
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := w.fset.Position(p)
	if r, err := filepath.Rel(w.repoDir, ps.Filename); err == nil {
		ps.Filename = r
	}
	return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
}

func (w *World) noteTrusted(s string) { w.trusted[s] = true }

func (w *World) pkgTypes(name string) *types.Package { return w.pkgByName[name] }

func (w *World) isRepo(fn *ssa.Function) bool {
	o := origin(fn)
	if o.Pkg != nil {
		return w.ssaPkgs[o.Pkg]
	}
	if fn.Parent() != nil {
		return w.isRepo(fn.Parent())
	}
	if obj := fn.Object(); obj != nil && obj.Pkg() != nil {
		return repoPkgs[obj.Pkg().Path()]
	}
	return false
}

func (w *World) fnPkg(fn *ssa.Function) *types.Package {
	o := origin(fn)
	if o.Pkg != nil {
		return o.Pkg.Pkg
	}
	if obj := o.Object(); obj != nil {
		return obj.Pkg()
	}
	if fn.Parent() != nil {
		return w.fnPkg(fn.Parent())
	}
	return nil
}

// contractKey names a repository function: pkg.Func or pkg.Type.Method.
func (w *World) contractKey(fn *ssa.Function) string {
	fn = origin(fn)
	if fn.Parent() != nil {
		for i, a := range fn.Parent().AnonFuncs {
			if a == fn {
				return fmt.Sprintf("%s$%d", w.contractKey(fn.Parent()), i+1)
			}
		}
	}
	if fn.Synthetic != "" && !strings.Contains(fn.Synthetic, "instance") && fn.Name() != "init" {
		return ""
	}
	p := w.fnPkg(fn)
	if p == nil || !repoPkgs[p.Path()] {
		return ""
	}
	if r := fn.Signature.Recv(); r != nil {
		t := types.Unalias(r.Type())
		if pt, ok := t.(*types.Pointer); ok {
			t = types.Unalias(pt.Elem())
		}
		if n, ok := t.(*types.Named); ok {
			return p.Name() + "." + n.Obj().Name() + "." + fn.Name()
		}
		return ""
	}
	return p.Name() + "." + fn.Name()
}

func (w *World) contractOf(fn *ssa.Function) (string, *Contract) {
	k := w.contractKey(fn)
	if k == "" {
		return "", nil
	}
	return k, w.db.contracts[k]
}

// externContract finds an assumed contract by full name, or for methods as pkg.Type.Method.
func (w *World) externContract(name string) *Contract {
	if c := w.db.externs[name]; c != nil {
		return c
	}
	if strings.HasPrefix(name, "(") {
		n := strings.TrimPrefix(strings.NewReplacer("(", "", ")", "").Replace(name), "*")
		if i := strings.LastIndexByte(n, '/'); i >= 0 {
			n = n[i+1:]
		}
		return w.db.externs[n]
	}
	if i := strings.LastIndexByte(name, '/'); i >= 0 {
		return w.db.externs[name[i+1:]]
	}
	return nil
}

func (w *World) ifaceContract(it, m string) *Contract {
	it = stripInst(it)
	for _, k := range []string{it + "." + m, shortName(it) + "." + m, m} {
		if c := w.db.ifaces[k]; c != nil {
			return c
		}
	}
	return nil
}

func (w *World) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	l, ok := w.loopsC[fn]
	if !ok {
		l = findLoops(fn)
		w.loopsC[fn] = l
	}
	return l
}

// localCell: an address-taken variable used only by loads, stores and closures.
func (w *World) localCell(a *ssa.Alloc) bool {
	r, ok := w.cellC[a]
	if ok {
		return r
	}
	r = true
	var check func(v ssa.Value, depth int) bool
	check = func(v ssa.Value, depth int) bool {
		if v.Referrers() == nil || depth > 6 {
			return false
		}
		for _, u := range *v.Referrers() {
			switch n := u.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if n.Val == v {
					return false
				}
			case *ssa.MakeClosure:
				fn := n.Fn.(*ssa.Function)
				for i, b := range n.Bindings {
					if b == v && !check(fn.FreeVars[i], depth+1) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	r = check(a, 0)
	w.cellC[a] = r
	return r
}

func (w *World) globalRef(g *ssa.Global) *Term {
	t, ok := w.gref[g]
	if !ok {
		t = Int64(int64(len(w.gref)+1) * 65536)
		w.gref[g] = t
	}
	return t
}

func (w *World) global(v *types.Var) *ssa.Global {
	if v.Pkg() == nil {
		return nil
	}
	p := w.prog.Package(v.Pkg())
	if p == nil {
		return nil
	}
	g, _ := p.Members[v.Name()].(*ssa.Global)
	if g == nil || !w.ssaPkgs[p] {
		return nil
	}
	return g
}

// extGlobal: a library variable such as io.EOF, a distinct non-nil constant.
func (w *World) extGlobal(name string) *Term {
	t, ok := w.extG[name]
	if !ok {
		t = Int64(int64(1<<40) + int64(len(w.extG)+1)*65536)
		w.extG[name] = t
		w.noteTrusted("library variable " + name + " is a distinct non-nil constant")
	}
	return t
}

func (w *World) escape(l *Loc) {
	s := "interior pointer"
	switch l.kind {
	case lField:
		s = "pointer to field " + l.key
	case lElem:
		s = "pointer to slice element"
	case lGlobal:
		s = "pointer to global " + l.key
	}
	w.noteTrusted(s + " is stored or passed to library code; writes through that copy are not tracked")
}

func (w *World) calleeName(c *ssa.CallCommon) string {
	if f := c.StaticCallee(); f != nil {
		return f.String()
	}
	return c.Value.String()
}

// findType resolves a type name such as "Packet", "rtp.Header", "[]byte".
func (w *World) findType(name string, pkg *types.Package) types.Type {
	name = strings.TrimSpace(name)
	if strings.HasPrefix(name, "[]") {
		e := w.findType(name[2:], pkg)
		if e == nil {
			return nil
		}
		return types.NewSlice(e)
	}
	if strings.HasPrefix(name, "*") {
		e := w.findType(name[1:], pkg)
		if e == nil {
			return nil
		}
		return types.NewPointer(e)
	}
	if o := types.Universe.Lookup(name); o != nil {
		return o.Type()
	}
	if i := strings.LastIndexByte(name, '.'); i >= 0 {
		pn, tn := name[:i], name[i+1:]
		if pkg != nil {
			for _, p := range pkg.Imports() {
				if p.Name() == pn || p.Path() == pn {
					if o := p.Scope().Lookup(tn); o != nil {
						return o.Type()
					}
				}
			}
		}
		if p := w.pkgByName[pn]; p != nil {
			if o := p.Scope().Lookup(tn); o != nil {
				return o.Type()
			}
		}
		for _, sp := range w.prog.AllPackages() {
			if sp.Pkg.Name() == pn || sp.Pkg.Path() == pn {
				if o := sp.Pkg.Scope().Lookup(tn); o != nil {
					return o.Type()
				}
			}
		}
		return nil
	}
	if pkg != nil {
		if o := pkg.Scope().Lookup(name); o != nil {
			return o.Type()
		}
	}
	return nil
}

// scanGlobals finds package variables that only package initialisation assigns,
// and which of them hold a fresh non-nil error.
func (w *World) scanGlobals() {
	w.readonly = map[*ssa.Global]bool{}
	w.sentinel = map[*ssa.Global]bool{}
	w.initonly = map[*ssa.Global]bool{}
	w.constRef = map[int64]bool{}
	written := map[*ssa.Global]bool{}
	lateW := map[*ssa.Global]bool{} // written outside init functions
	writer := map[*ssa.Global]map[*ssa.Function]bool{}
	initVal := map[*ssa.Global]ssa.Value{}
	nInit := map[*ssa.Global]int{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		isInit := f.Name() == "init" && f.Synthetic != ""
		initFn := isInit || strings.HasPrefix(f.Name(), "init#") && f.Signature.Recv() == nil && f.Parent() == nil
		note := func(g *ssa.Global) {
			if writer[g] == nil {
				writer[g] = map[*ssa.Function]bool{}
			}
			writer[g][f] = true
			if !initFn {
				lateW[g] = true
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch n := in.(type) {
					case *ssa.UnOp:
						// maps: contents must not change after initialisation
						if _, ok := core(deref(g.Type())).(*types.Map); ok {
							for _, r := range *n.Referrers() {
								switch r := r.(type) {
								case *ssa.Lookup, *ssa.Range, *ssa.BinOp:
									continue
								case *ssa.Call:
									if b, ok := r.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
										continue
									}
								}
								note(g)
								if !isInit {
									written[g] = true
								}
							}
						}
					case *ssa.Slice:
						note(g)
						written[g] = true
						if initFn && !localSlice(n, 0) {
							lateW[g] = true
						}
					case *ssa.FieldAddr, *ssa.IndexAddr:
						for _, r := range *n.(ssa.Value).Referrers() {
							switch r := r.(type) {
							case *ssa.UnOp:
							case *ssa.Store:
								note(g)
								if r.Addr != n.(ssa.Value) {
									lateW[g] = true
								}
							default:
								note(g)
								lateW[g] = true
							}
						}
						// element or field address: assume written unless only loaded
						for _, r := range *n.(ssa.Value).Referrers() {
							if _, ok := r.(*ssa.UnOp); !ok {
								if !isInit {
									written[g] = true
								}
							}
						}
					case *ssa.Store:
						note(g)
						if n.Addr != g {
							lateW[g] = true
						}
						if n.Addr == g {
							if isInit {
								initVal[g] = n.Val
								nInit[g]++
							} else {
								written[g] = true
							}
						} else {
							written[g] = true
						}
					default:
						written[g] = true
						lateW[g] = true
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	for _, f := range w.funcs {
		visit(f)
	}
	for p := range w.ssaPkgs {
		for _, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok {
				visit(f)
			}
		}
	}
	for p := range w.ssaPkgs {
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			if !lateW[g] {
				w.initonly[g] = true
				if _, ok := core(deref(g.Type())).(*types.Array); ok {
					w.constRef[w.globalRef(g).ival.Int64()] = true
				}
				if len(writer[g]) == 1 {
					for f := range writer[g] {
						w.funcs[p.Pkg.Name()+".init@"+g.Name()] = f
					}
				}
			}
			if written[g] {
				continue
			}
			w.readonly[g] = true
			if c, ok := initVal[g].(*ssa.Call); ok && nInit[g] == 1 {
				if f := c.Call.StaticCallee(); f != nil && (f.String() == "errors.New" || f.String() == "fmt.Errorf") {
					w.sentinel[g] = true
				}
			}
		}
	}
}

// localSlice: the slice is only read or written through, and never stored, returned or handed to
// anything but static functions that treat it the same way.
func localSlice(v ssa.Value, depth int) bool {
	if depth > 4 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.IndexAddr:
			for _, rr := range *r.Referrers() {
				switch rr := rr.(type) {
				case *ssa.UnOp:
				case *ssa.Store:
					if rr.Addr != r {
						return false
					}
				default:
					return false
				}
			}
		case *ssa.Slice:
			if !localSlice(r, depth+1) {
				return false
			}
		case *ssa.Phi:
			if !localSlice(r, depth+1) {
				return false
			}
		case *ssa.DebugRef:
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "len" || b.Name() == "cap" {
					continue
				}
				return false
			}
			f := r.Call.StaticCallee()
			if f == nil || f.Blocks == nil {
				return false
			}
			for i, a := range r.Call.Args {
				if a == v && !localSlice(f.Params[i], depth+1) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func (w *World) sortedTrusted() []string {
	var out []string
	for s := range w.trusted {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}
