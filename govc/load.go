package main

// Loading the tree under verification, SSA, loops, globals and write sets.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	Fset   *token.FileSet
	Root   string
	Mod    string
	SSA    *ssa.Program
	Pkgs   []*ssa.Package
	Fns    map[string]*ssa.Function // key -> function
	Types  map[string]types.Type    // "pkg.Name" -> type
	Named  []*types.Named
	Specs  *Specs
	mu     sync.Mutex
	loopC  map[*ssa.Function]*loopInfo
	gref   map[*ssa.Global]int64
	gname  map[int64]*ssa.Global
	gconst map[*ssa.Global]*gconstInfo
	modC   map[*ssa.Function]map[string]bool
	cmaps  map[int64][]constEntry
	allFns []*ssa.Function
	roC    map[*ssa.Slice]bool
}

type loopInfo struct {
	headers map[*ssa.BasicBlock]bool
	body    map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

type constEntry struct{ K, V Value }

type gconstInfo struct {
	ok  bool
	val ssa.Value
}

func loadProg(root string, patterns ...string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedDeps | packages.NeedExportFile,
		Dir:  root,
		Env:  os.Environ(),
		Fset: token.NewFileSet(),
	}
	cfg.Mode = packages.LoadSyntax | packages.NeedModule
	pk, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	P := &Prog{Fset: cfg.Fset, Root: root, SSA: prog, Fns: map[string]*ssa.Function{}, Types: map[string]types.Type{},
		loopC: map[*ssa.Function]*loopInfo{}, gref: map[*ssa.Global]int64{}, gname: map[int64]*ssa.Global{}, gconst: map[*ssa.Global]*gconstInfo{},
		modC: map[*ssa.Function]map[string]bool{}, cmaps: map[int64][]constEntry{}, roC: map[*ssa.Slice]bool{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pk[i].PkgPath)
		}
		P.Pkgs = append(P.Pkgs, sp)
	}
	// types of every package in the import graph
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, n := range p.Scope().Names() {
			if tn, ok := p.Scope().Lookup(n).(*types.TypeName); ok {
				if _, dup := P.Types[p.Name()+"."+n]; !dup || P.inRepo(p) {
					P.Types[p.Name()+"."+n] = tn.Type()
				}
				if nt, ok := tn.Type().(*types.Named); ok && P.inRepo(p) {
					P.Named = append(P.Named, nt)
				}
			}
		}
		for _, q := range p.Imports() {
			visit(q)
		}
	}
	for _, sp := range P.Pkgs {
		visit(sp.Pkg)
	}
	sort.Slice(P.Named, func(i, j int) bool { return P.Named[i].String() < P.Named[j].String() })
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks == nil && fn.Pkg == nil && fn.Object() == nil {
			continue
		}
		k := fnKey(fn)
		if fn.Synthetic != "" && P.Fns[k] != nil {
			continue
		}
		if old := P.Fns[k]; old == nil || old.Synthetic != "" || fn.Pkg != nil && P.inRepo(fn.Pkg.Pkg) {
			P.Fns[k] = fn
		}
		if fn.Blocks != nil {
			P.allFns = append(P.allFns, fn)
		}
	}
	// methods that are never called are not in AllFunctions
	for _, nt := range P.Named {
		for _, t := range []types.Type{nt, types.NewPointer(nt)} {
			if _, ok := nt.Underlying().(*types.Interface); ok {
				continue
			}
			ms := prog.MethodSets.MethodSet(t)
			for i := 0; i < ms.Len(); i++ {
				if fn := prog.MethodValue(ms.At(i)); fn != nil && fn.Synthetic == "" {
					k := fnKey(fn)
					if P.Fns[k] == nil {
						P.Fns[k] = fn
						P.allFns = append(P.allFns, fn)
					}
				}
			}
		}
	}
	sort.Slice(P.allFns, func(i, j int) bool { return P.allFns[i].String() < P.allFns[j].String() })
	return P, nil
}

func (P *Prog) inRepo(p *types.Package) bool {
	return p != nil && strings.HasPrefix(p.Path(), "github.com/coniks-sys/coniks-go")
}

func (P *Prog) inRepoFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg == nil || P.inRepo(fn.Pkg.Pkg)
}

// fnKey names a function the way contracts do: pkg.F, pkg.(*T).M, pkg.T.M
func fnKey(fn *ssa.Function) string {
	if fn.Parent() != nil {
		return fnKey(fn.Parent()) + strings.TrimPrefix(fn.Name(), fn.Parent().Name())
	}
	if recv := fn.Signature.Recv(); recv != nil {
		t := recv.Type()
		if p, ok := types.Unalias(t).(*types.Pointer); ok {
			return keyPkg(p.Elem()) + "(*" + keyName(p.Elem()) + ")." + fn.Name()
		}
		return keyPkg(t) + keyName(t) + "." + fn.Name()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Name() + "." + fn.Name()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Name() + "." + fn.Name()
	}
	return fn.String()
}

func keyPkg(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Name() + "."
	}
	return ""
}
func keyName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// methodKey names an interface method: pkg.I.M
func methodKey(m *types.Func) string {
	recv := m.Type().(*types.Signature).Recv()
	if recv != nil {
		if n, ok := types.Unalias(recv.Type()).(*types.Named); ok {
			if n.Obj().Pkg() == nil {
				return n.Obj().Name() + "." + m.Name()
			}
			return n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + m.Name()
		}
	}
	return "interface." + m.Name()
}

func (P *Prog) loops(fn *ssa.Function) *loopInfo {
	P.mu.Lock()
	defer P.mu.Unlock()
	if l, ok := P.loopC[fn]; ok {
		return l
	}
	l := &loopInfo{headers: map[*ssa.BasicBlock]bool{}, body: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l.headers[s] = true
				bd := l.body[s]
				if bd == nil {
					bd = map[*ssa.BasicBlock]bool{s: true}
					l.body[s] = bd
				}
				stk := []*ssa.BasicBlock{b}
				for len(stk) > 0 {
					x := stk[len(stk)-1]
					stk = stk[:len(stk)-1]
					if bd[x] {
						continue
					}
					bd[x] = true
					stk = append(stk, x.Preds...)
				}
			}
		}
	}
	P.loopC[fn] = l
	return l
}

func (P *Prog) globalRef(g *ssa.Global) *Term {
	P.mu.Lock()
	defer P.mu.Unlock()
	id, ok := P.gref[g]
	if !ok {
		id = -int64(len(P.gref)) - 10
		P.gref[g] = id
		P.gname[id] = g
	}
	return I(id)
}

// initStores: the single value stored to g by an init function, if g is
// never written or address-taken elsewhere.
func (P *Prog) globalInfo(g *ssa.Global) *gconstInfo {
	P.mu.Lock()
	defer P.mu.Unlock()
	if i, ok := P.gconst[g]; ok {
		return i
	}
	info := &gconstInfo{ok: true}
	P.gconst[g] = info
	if g.Pkg == nil || !P.inRepo(g.Pkg.Pkg) {
		// a dependency's variable: treated as constant when it is an error
		return info
	}
	n := 0
	for _, fn := range P.allFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if x.Addr == ssa.Value(g) && fn.Name() == "init" && fn.Synthetic != "" {
							n++
							info.val = x.Val
							continue
						}
					case *ssa.DebugRef:
						continue
					}
					info.ok = false
				}
			}
		}
	}
	if n > 1 {
		info.ok = false
	}
	return info
}

// onlyInit tells whether nothing but the package's init functions writes the
// variable or takes its address.
func (P *Prog) onlyInit(g *ssa.Global) bool {
	for _, fn := range P.allFns {
		if fn.Pkg == g.Pkg && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch in.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
						continue
					}
					return false
				}
			}
		}
	}
	return true
}

// globalConst gives the constant value of a package variable that is only
// assigned by its initialiser.
func (P *Prog) globalConst(ex *Exec, g *ssa.Global) (Value, bool) {
	info := P.globalInfo(g)
	if !info.ok {
		return nil, false
	}
	t := g.Type().(*types.Pointer).Elem()
	ref := P.globalRef(g)
	uniq := I(ref.Int.Int64() - 1000000)
	if g.Pkg == nil || !P.inRepo(g.Pkg.Pkg) {
		if typeKey(t) == "error" {
			ex.note("package variable " + g.String() + " is a fixed non-nil error")
			return IfaceV{Tag: tagOf(P.errStringType()), Val: uniq}, true
		}
		return nil, false
	}
	switch v := info.val.(type) {
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && fnKey(f) == "errors.New" {
			return IfaceV{Tag: tagOf(P.errStringType()), Val: uniq}, true
		}
	case *ssa.MakeInterface:
		if c, ok := v.X.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && fnKey(f) == "errors.New" {
				return IfaceV{Tag: tagOf(P.errStringType()), Val: uniq}, true
			}
		}
	case *ssa.Const:
		return ex.constVal(v.Value, v.Type()), true
	case *ssa.MakeMap:
		// constant map: only filled by the initialiser
		if ents, ok := P.initMap(ex, v); ok {
			for _, fn := range P.allFns {
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if mu, ok := in.(*ssa.MapUpdate); ok {
							if u, ok := mu.Map.(*ssa.UnOp); ok && u.X == ssa.Value(g) {
								return nil, false
							}
						}
					}
				}
			}
			P.mu.Lock()
			P.cmaps[uniq.Int.Int64()] = ents
			P.mu.Unlock()
			return uniq, true
		}
	case *ssa.Slice:
		// composite literal of constants
		if al, ok := v.X.(*ssa.Alloc); ok {
			at, ok := under(al.Type().(*types.Pointer).Elem()).(*types.Array)
			if !ok || v.Low != nil || v.High != nil {
				return nil, false
			}
			ec := flatten(at.Elem())
			if len(ec) != 1 {
				return nil, false
			}
			vals := make([]*Term, at.Len())
			for i := range vals {
				vals[i] = boxTerm(zeroTerm(ec[0]))
			}
			for _, r := range *al.Referrers() {
				ia, ok := r.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				c, ok := ia.Index.(*ssa.Const)
				if !ok {
					return nil, false
				}
				for _, rr := range *ia.Referrers() {
					if s, ok := rr.(*ssa.Store); ok {
						cv, ok := s.Val.(*ssa.Const)
						if !ok {
							return nil, false
						}
						vals[c.Int64()] = boxTerm(ex.constVal(cv.Value, cv.Type()).(*Term))
					}
				}
			}
			P.noteConstSlice(ex, uniq, at.Elem(), ec[0], Lit(vals...))
			n := I(at.Len())
			return SliceV{uniq, I(0), n, n}, true
		}
	}
	return nil, false
}

// constant backing arrays are recorded as a fact about the initial heap
func (P *Prog) noteConstSlice(ex *Exec, ref *Term, et types.Type, c comp, content *Term) {
	nm := "E:" + typeKey(et) + c.suf
	for _, x := range ex.constArrs {
		if x.ref == ref {
			return
		}
	}
	ex.constArrs = append(ex.constArrs, constArr{nm, ref, content, c})
}

type constArr struct {
	name    string
	ref     *Term
	content *Term
	comp    comp
}

func (P *Prog) errStringType() types.Type {
	if t, ok := P.Types["errors.errorString"]; ok {
		return types.NewPointer(t)
	}
	return types.Typ[types.UnsafePointer]
}

func (P *Prog) constMap(m *Term) ([]constEntry, bool) {
	if !m.IsConst() || !m.Int.IsInt64() {
		return nil, false
	}
	P.mu.Lock()
	defer P.mu.Unlock()
	e, ok := P.cmaps[m.Int.Int64()]
	return e, ok
}

func (P *Prog) initMap(ex *Exec, mm *ssa.MakeMap) ([]constEntry, bool) {
	var out []constEntry
	mt := under(mm.Type()).(*types.Map)
	for _, r := range *mm.Referrers() {
		switch x := r.(type) {
		case *ssa.MapUpdate:
			k, ok1 := P.initVal(ex, x.Key, mt.Key())
			v, ok2 := P.initVal(ex, x.Value, mt.Elem())
			if !ok1 || !ok2 {
				return nil, false
			}
			out = append(out, constEntry{k, v})
		case *ssa.Store, *ssa.DebugRef:
		default:
			return nil, false
		}
	}
	return out, true
}

func (P *Prog) initVal(ex *Exec, v ssa.Value, t types.Type) (Value, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x.Value, x.Type()), true
	case *ssa.MakeInterface:
		iv, ok := P.initVal(ex, x.X, x.X.Type())
		if !ok {
			return nil, false
		}
		return ex.mkIface(iv, x.X.Type()), true
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok {
			return P.globalConst(ex, g)
		}
	case *ssa.ChangeInterface:
		return P.initVal(ex, x.X, x.X.Type())
	}
	return nil, false
}

// readOnlySlice: the slice of an embedded array is only read.
func (P *Prog) readOnlySlice(s *ssa.Slice) bool {
	seen := map[ssa.Value]bool{}
	var ro func(v ssa.Value) bool
	ro = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.DebugRef, *ssa.BinOp:
			case *ssa.UnOp:
			case *ssa.IndexAddr:
				for _, rr := range *x.Referrers() {
					if _, ok := rr.(*ssa.UnOp); !ok {
						return false
					}
				}
			case *ssa.Slice:
				if !ro(x) {
					return false
				}
			case *ssa.Phi:
				if !ro(x) {
					return false
				}
			case *ssa.Store:
				// argument of a variadic call
				if x.Val != v {
					return false
				}
				ia, ok := x.Addr.(*ssa.IndexAddr)
				if !ok {
					return false
				}
				al, ok := ia.X.(*ssa.Alloc)
				if !ok || al.Comment != "varargs" {
					return false
				}
				for _, q := range *al.Referrers() {
					if sl, ok := q.(*ssa.Slice); ok {
						for _, c := range *sl.Referrers() {
							cc, ok := c.(*ssa.Call)
							if !ok {
								return false
							}
							if f := cc.Call.StaticCallee(); f == nil || !readOnlyFn[fnKey(f)] {
								return false
							}
						}
					}
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "copy":
						if x.Call.Args[0] == v {
							return false
						}
					case "append":
						if x.Call.Args[0] == v {
							return false
						}
					case "len", "cap":
					default:
						return false
					}
					continue
				}
				f := x.Call.StaticCallee()
				if f == nil || !readOnlyFn[fnKey(f)] {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return ro(s)
}

// functions that neither write nor keep the byte slices given to them
var readOnlyFn = map[string]bool{"crypto.Digest": true, "bytes.Equal": true, "sha3.ShakeSum256": true, "sha512.Sum512": true,
	"binary.Write": true, "hex.EncodeToString": true, "base64.StdEncoding": true, "ed25519.Verify": true}

// ---- write sets ----

// mapNames: heap maps that hold a value of type t rooted at base
func mapNames(base string, t types.Type, out map[string]bool) {
	for _, c := range flatten(t) {
		out[base+c.suf] = true
		if strings.HasPrefix(base, "E:") {
			cc := c
			regLayout(base+c.suf, heapInfo{sort: arrSort(SInt, SSeq), comp: cc, elem: true})
		} else {
			regLayout(base+c.suf, heapInfo{sort: arrSort(SInt, c.sort), comp: c})
		}
	}
}

func addrMaps(P *Prog, a ssa.Value, out map[string]bool) {
	// the address expression: collect the field path
	var path []int
	cur := a
	t := under(a.Type()).(*types.Pointer).Elem()
	for {
		switch x := cur.(type) {
		case *ssa.FieldAddr:
			path = append([]int{x.Field}, path...)
			cur = x.X
			continue
		case *ssa.IndexAddr:
			switch u := under(x.X.Type()).(type) {
			case *types.Slice:
				pn, _ := pathName(u.Elem(), path)
				mapNames("E:"+typeKey(u.Elem())+pn, t, out)
				return
			case *types.Pointer:
				at := under(u.Elem()).(*types.Array)
				if fa, ok := x.X.(*ssa.FieldAddr); ok && len(path) == 0 {
					// element of an array embedded in an object
					addrMaps(P, fa, out)
					return
				}
				pn, _ := pathName(at.Elem(), path)
				mapNames("E:"+typeKey(at.Elem())+pn, t, out)
				return
			}
		}
		break
	}
	root := under(cur.Type()).(*types.Pointer).Elem()
	if at, ok := under(root).(*types.Array); ok && len(path) == 0 {
		mapNames("E:"+typeKey(at.Elem()), at.Elem(), out)
		return
	}
	pn, _ := pathName(root, path)
	mapNames(objMap(root)+pn, t, out)
	switch cur.(type) {
	case *ssa.Alloc, *ssa.Global:
		return
	}
	if len(path) == 0 {
		// the pointer may be an interior one
		P.interiorMaps(root, out)
	}
}

func (P *Prog) interiorMaps(t types.Type, out map[string]bool) {
	for _, nt := range P.Named {
		st, ok := nt.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if types.Identical(st.Field(i).Type(), t) {
				if _, ok := under(t).(*types.Struct); ok {
					mapNames("F:"+typeKey(nt)+"."+st.Field(i).Name(), t, out)
				}
			}
		}
	}
	mapNames("E:"+typeKey(t), t, out)
}

func (P *Prog) instrMods(in ssa.Instruction, out map[string]bool, stack map[*ssa.Function]bool) {
	switch x := in.(type) {
	case *ssa.Store:
		addrMaps(P, x.Addr, out)
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		if at, ok := under(t).(*types.Array); ok {
			mapNames("E:"+typeKey(at.Elem()), at.Elem(), out)
		} else {
			mapNames(objMap(t), t, out)
		}
		for k := range P.Specs.Ghosts[typeKey(t)] {
			out["G:"+typeKey(t)+"."+k] = true
		}
	case *ssa.MakeSlice:
		et := under(x.Type()).(*types.Slice).Elem()
		mapNames("E:"+typeKey(et), et, out)
	case *ssa.Slice:
		if pt, ok := under(x.X.Type()).(*types.Pointer); ok {
			if at, ok := under(pt.Elem()).(*types.Array); ok {
				mapNames("E:"+typeKey(at.Elem()), at.Elem(), out)
			}
		}
	case *ssa.Convert:
		if s, ok := under(x.Type()).(*types.Slice); ok {
			mapNames("E:"+typeKey(s.Elem()), s.Elem(), out)
		}
	case *ssa.MakeMap, *ssa.MapUpdate:
		var mt *types.Map
		if m, ok := x.(*ssa.MakeMap); ok {
			mt = under(m.Type()).(*types.Map)
		} else {
			mt = under(x.(*ssa.MapUpdate).Map.Type()).(*types.Map)
		}
		mapMods(mt, out)
	case ssa.CallInstruction:
		P.callMods(x, out, stack)
	}
}

func mapMods(mt *types.Map, out map[string]bool) {
	b := typeKey(mt)
	ks := keySort(mt)
	out["MD:"+b] = true
	regLayout("MD:"+b, heapInfo{sort: arrSort(SInt, arrSort(ks, SBool))})
	for _, c := range flatten(mt.Elem()) {
		out["MV:"+b+c.suf] = true
		regLayout("MV:"+b+c.suf, heapInfo{sort: arrSort(SInt, arrSort(ks, c.sort)), comp: c})
	}
}

func (P *Prog) callMods(ci ssa.CallInstruction, out map[string]bool, stack map[*ssa.Function]bool) {
	c := ci.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append", "copy":
			if s, ok := under(c.Args[0].Type()).(*types.Slice); ok {
				mapNames("E:"+typeKey(s.Elem()), s.Elem(), out)
			}
		case "delete":
			mapMods(under(c.Args[0].Type()).(*types.Map), out)
		}
		return
	}
	if c.IsInvoke() {
		for _, f := range P.implementers(c.Method, c.Value.Type()) {
			P.addFnMods(f, out, stack)
		}
		if sp := P.Specs.Fns[methodKey(c.Method)]; sp != nil {
			P.ghostMods(sp, out)
		}
		for _, k := range []string{typeKey(c.Value.Type()) + "." + c.Method.Name(), methodKey(c.Method)} {
			if mods, ok := modelMods[k]; ok {
				for _, m := range mods {
					out[m] = true
				}
			}
		}
		if len(P.implementers(c.Method, c.Value.Type())) > 0 && typeKey(c.Value.Type()) != "error" {
			return
		}
		extMods(P, c.Signature(), out)
		return
	}
	if f := c.StaticCallee(); f != nil {
		if _, ok := decodeArg[fnKey(f)]; ok {
			P.decodeMods(ci.Parent(), out)
			return
		}
		P.addFnMods(f, out, stack)
		return
	}
	// function value: every function of that signature whose value is taken
	for _, f := range P.allFns {
		if types.Identical(f.Signature, c.Signature()) {
			P.addFnMods(f, out, stack)
		}
	}
	extMods(P, c.Signature(), out)
}

func (P *Prog) ghostMods(sp *FnSpec, out map[string]bool) {
	for _, c := range sp.Clauses {
		if c.Kind == "modifies" {
			for _, m := range c.Mods {
				ghostNames(m, out)
			}
		}
	}
}

// names of ghost maps mentioned in a modifies target are added by field name
func ghostNames(e *Expr, out map[string]bool) {
	if e == nil {
		return
	}
	if e.Op == "call" && (e.Str == "all" || e.Str == "each") && len(e.Args) > 0 && e.Args[0].Op == "str" {
		out["*"+e.Args[0].Str] = true
	}
	if e.Op == "field" {
		out["*."+e.Str] = true
	}
}

func (P *Prog) addFnMods(f *ssa.Function, out map[string]bool, stack map[*ssa.Function]bool) {
	for k := range P.fnMods(f, stack) {
		out[k] = true
	}
}

func extMods(P *Prog, sig *types.Signature, out map[string]bool) {
	mapNames("E:uint8", types.Typ[types.Uint8], out)
	seen := map[types.Type]bool{}
	for i := 0; i < sig.Results().Len(); i++ {
		P.reachMaps(sig.Results().At(i).Type(), out, seen, 0)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if s, ok := under(sig.Params().At(i).Type()).(*types.Slice); ok && !isInterface(s.Elem()) {
			mapNames("E:"+typeKey(s.Elem()), s.Elem(), out)
		}
	}
}

// reachMaps: the maps of every object type reachable from a type
func (P *Prog) reachMaps(t types.Type, out map[string]bool, seen map[types.Type]bool, d int) {
	if seen[t] || d > 8 {
		return
	}
	seen[t] = true
	switch u := under(t).(type) {
	case *types.Pointer:
		if at, ok := under(u.Elem()).(*types.Array); ok {
			mapNames("E:"+typeKey(at.Elem()), at.Elem(), out)
		} else {
			mapNames(objMap(u.Elem()), u.Elem(), out)
		}
		P.reachMaps(u.Elem(), out, seen, d+1)
	case *types.Slice:
		mapNames("E:"+typeKey(u.Elem()), u.Elem(), out)
		P.reachMaps(u.Elem(), out, seen, d+1)
	case *types.Map:
		mapMods(u, out)
		P.reachMaps(u.Elem(), out, seen, d+1)
		P.reachMaps(u.Key(), out, seen, d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			P.reachMaps(u.Field(i).Type(), out, seen, d+1)
		}
	case *types.Array:
		P.reachMaps(u.Elem(), out, seen, d+1)
	case *types.Interface:
		if u.NumMethods() == 0 {
			return
		}
		for _, nt := range P.Named {
			for _, c := range []types.Type{nt, types.NewPointer(nt)} {
				if _, isI := nt.Underlying().(*types.Interface); !isI && types.Implements(c, u) {
					P.reachMaps(c, out, seen, d+1)
				}
			}
		}
	}
}

// fnMods: names of heap maps a call of fn may write or extend.
func (P *Prog) fnMods(fn *ssa.Function, stack map[*ssa.Function]bool) map[string]bool {
	P.mu.Lock()
	if m, ok := P.modC[fn]; ok {
		P.mu.Unlock()
		return m
	}
	P.mu.Unlock()
	if stack == nil {
		stack = map[*ssa.Function]bool{}
	}
	if stack[fn] {
		return nil
	}
	top := len(stack) == 0
	stack[fn] = true
	out := map[string]bool{}
	k := fnKey(fn)
	if mods, ok := modelMods[k]; ok {
		for _, m := range mods {
			out[m] = true
		}
		mapNames("E:uint8", types.Typ[types.Uint8], out)
	} else if fn.Blocks == nil || fn.Pkg != nil && !P.inRepo(fn.Pkg.Pkg) {
		extMods(P, fn.Signature, out)
	} else {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				P.instrMods(in, out, stack)
			}
		}
	}
	if sp := P.Specs.Fns[k]; sp != nil {
		P.ghostMods(sp, out)
	}
	if top {
		P.mu.Lock()
		P.modC[fn] = out
		P.mu.Unlock()
	}
	return out
}

// implementers of an interface method among the repository's types
func (P *Prog) implementers(m *types.Func, it types.Type) []*ssa.Function {
	iface, ok := under(it).(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, nt := range P.Named {
		if _, isI := nt.Underlying().(*types.Interface); isI {
			continue
		}
		for _, t := range []types.Type{nt, types.NewPointer(nt)} {
			if !types.Implements(t, iface) {
				continue
			}
			if _, ok := t.(*types.Pointer); !ok || !types.Implements(nt, iface) {
				sel := P.SSA.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
				if sel == nil {
					continue
				}
				if fn := P.SSA.MethodValue(sel); fn != nil {
					out = append(out, fn)
				}
			}
		}
	}
	return out
}

func (P *Prog) implTypes(it types.Type) []types.Type {
	iface, ok := under(it).(*types.Interface)
	if !ok {
		return nil
	}
	var out []types.Type
	for _, nt := range P.Named {
		if _, isI := nt.Underlying().(*types.Interface); isI {
			continue
		}
		for _, t := range []types.Type{nt, types.NewPointer(nt)} {
			if types.Implements(t, iface) {
				out = append(out, t)
			}
		}
	}
	return out
}
