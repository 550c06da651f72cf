package main

// Calls: builtins, contracts, inlining, dynamic dispatch.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) call(fr *Frame, site ssa.Instruction, c *ssa.CallCommon, st *State) []Outcome {
	var args []Value
	for _, a := range c.Args {
		args = append(args, ex.val(fr, st, a))
	}
	fv := ex.val(fr, st, c.Value)
	return ex.callValue(fr, site, c, fv, args, st)
}

func (ex *Exec) callValue(fr *Frame, site ssa.Instruction, c *ssa.CallCommon, fv Value, args []Value, st *State) []Outcome {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return ex.builtin(fr, site, b.Name(), c, args, st)
	}
	if c.IsInvoke() {
		return ex.invoke(fr, site, c, fv.(IfaceV), args, st)
	}
	f, ok := fv.(FuncV)
	if !ok {
		if t, isT := fv.(*Term); isT {
			f = FuncV{T: t}
		} else {
			unsup("call of %T", fv)
		}
	}
	if f.Fn != nil {
		return ex.callFn(fr, site, f.Fn, args, f.Bind, st)
	}
	return ex.callUnknown(fr, site, c, f, args, st)
}

// callUnknown: a function value of unknown origin
func (ex *Exec) callUnknown(fr *Frame, site ssa.Instruction, c *ssa.CallCommon, f FuncV, args []Value, st *State) []Outcome {
	if f.Conf != nil {
		sp := f.Conf.Spec
		var vs []Value
		var ts []types.Type
		for _, v := range f.Conf.Pre {
			vs = append(vs, v.V)
			ts = append(ts, v.T)
		}
		mods := map[string]bool{}
		extMods(ex.P, c.Signature(), mods)
		return ex.applyContract(fr, site, sp, c.Signature(), sp.Names, append(vs, args...), append(ts, argTypes(c)...), mods, st, nil)
	}
	key := f.Key
	if key == "" {
		switch v := c.Value.(type) {
		case *ssa.Parameter:
			key = fnKey(v.Parent()) + "/" + v.Name()
		case *ssa.UnOp:
			if fa, ok := v.X.(*ssa.FieldAddr); ok {
				s := under(under(fa.X.Type()).(*types.Pointer).Elem()).(*types.Struct)
				key = "field:" + typeKey(under(fa.X.Type()).(*types.Pointer).Elem()) + "." + s.Field(fa.Field).Name()
			}
		}
	}
	if sp := ex.P.Specs.Fns[key]; sp != nil {
		names := sigNames(c.Signature(), "")
		mods := map[string]bool{}
		extMods(ex.P, c.Signature(), mods)
		return ex.applyContract(fr, site, sp, c.Signature(), names, args, argTypes(c), mods, st, nil)
	}
	ex.note("call through an unknown function value (" + key + ") is assumed not to modify the verified state")
	return ex.opaque(fr, site, c.Signature(), st, key)
}

func argTypes(c *ssa.CallCommon) []types.Type {
	var ts []types.Type
	if c.IsInvoke() {
		ts = append(ts, c.Value.Type())
	}
	for _, a := range c.Args {
		ts = append(ts, a.Type())
	}
	return ts
}

func sigNames(sig *types.Signature, recv string) []string {
	var ns []string
	if recv != "" {
		ns = append(ns, recv)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ns = append(ns, sig.Params().At(i).Name())
	}
	return ns
}

// opaque: arbitrary results, nothing else
func (ex *Exec) opaque(fr *Frame, site ssa.Instruction, sig *types.Signature, st *State, what string) []Outcome {
	mods := map[string]bool{}
	extMods(ex.P, sig, mods)
	ex.bumpHeap(st, mods, nil)
	var rs []Value
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, ex.freshValue(st, "ext", sig.Results().At(i).Type()))
	}
	return []Outcome{{st: st, ret: rs}}
}

// clobber: an unknown external function may overwrite slices it is given
func (ex *Exec) clobber(st *State, args []Value, sig *types.Signature) {
	var ts []types.Type
	if sig.Recv() != nil && len(args) == sig.Params().Len()+1 {
		ts = append(ts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	for i, a := range args {
		if i >= len(ts) {
			break
		}
		sv, ok := a.(SliceV)
		if !ok {
			continue
		}
		sl, ok := under(ts[i]).(*types.Slice)
		if !ok {
			continue
		}
		if isInterface(sl.Elem()) {
			continue
		}
		for _, cc := range flatten(sl.Elem()) {
			n, e := ex.elemMap(st, sl.Elem(), cc)
			f := ex.fresh("clob", SSeq)
			st.assume(Eq(Len(f), Len(Select(e, sv.Arr))))
			st.heap[n] = Store(e, sv.Arr, f)
		}
	}
}

func isInterface(t types.Type) bool { _, ok := under(t).(*types.Interface); return ok }

func isInternalErr(t types.Type) bool { return typeKey(t) == "error" }

func (ex *Exec) contractFor(fn *ssa.Function) (*FnSpec, bool) {
	k := fnKey(fn)
	if sp := ex.P.Specs.Fns[k]; sp != nil {
		if sp.Opts["inline"] != "" {
			return nil, false
		}
		return sp, false
	}
	// behavioural contract of an interface method
	if m := ex.P.ifaceContract(fn); m != nil {
		return m, true
	}
	return nil, false
}

// ifaceContract: contract of an interface method that fn implements
func (P *Prog) ifaceContract(fn *ssa.Function) *FnSpec {
	recv := fn.Signature.Recv()
	if recv == nil || fn.Synthetic != "" {
		return nil
	}
	for k, sp := range P.Specs.Fns {
		if sp.Iface == "" || !strings.HasSuffix(k, "."+fn.Name()) {
			continue
		}
		it, _ := P.resolveType(sp.Iface)
		if it == nil {
			continue
		}
		ifc, ok := under(it).(*types.Interface)
		if ok && types.Implements(recv.Type(), ifc) {
			return sp
		}
	}
	return nil
}

func (ex *Exec) callFn(fr *Frame, site ssa.Instruction, fn *ssa.Function, args []Value, bind []Value, st *State) []Outcome {
	k := fnKey(fn)
	if m, ok := models[k]; ok {
		ex.usedModel(k)
		return m(&callCtx{ex: ex, fr: fr, site: site, fn: fn, args: args, st: st})
	}
	sp, viaIface := ex.contractFor(fn)
	if sp != nil {
		names := paramNames(fn)
		var ts []types.Type
		for _, p := range fn.Params {
			ts = append(ts, p.Type())
		}
		a := args
		if viaIface {
			names = append([]string{"self"}, names[1:]...)
			it, _ := ex.P.resolveType(sp.Iface)
			a = append([]Value{ex.mkIface(args[0], ts[0])}, args[1:]...)
			ts = append([]types.Type{it}, ts[1:]...)
		}
		if fn.Blocks == nil && len(ts) == 0 {
			// external function: types from its signature
			names, ts = sigParams(fn)
		}
		return ex.applyContract(fr, site, sp, fn.Signature, names, a, ts, ex.P.fnMods(fn, nil), st, fn)
	}
	if fn.Blocks != nil && (fn.Pkg == nil || ex.P.inRepo(fn.Pkg.Pkg)) {
		ex.mu.Lock()
		ex.inlined[k] = true
		ex.mu.Unlock()
		return ex.runFunc(fn, args, bind, st, fr, site)
	}
	ex.note("external function " + k + ": arbitrary result, assumed not to panic and to modify at most the slices it is given")
	ex.clobber(st, args, fn.Signature)
	return ex.opaque(fr, site, fn.Signature, st, k)
}

func sigParams(fn *ssa.Function) ([]string, []types.Type) {
	var ns []string
	var ts []types.Type
	if r := fn.Signature.Recv(); r != nil {
		ns = append(ns, "self")
		ts = append(ts, r.Type())
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		ns = append(ns, fn.Signature.Params().At(i).Name())
		ts = append(ts, fn.Signature.Params().At(i).Type())
	}
	return ns, ts
}

func paramNames(fn *ssa.Function) []string {
	if len(fn.Params) == 0 {
		ns, _ := sigParams(fn)
		return ns
	}
	var ns []string
	for _, p := range fn.Params {
		ns = append(ns, p.Name())
	}
	return ns
}

func (ex *Exec) usedModel(k string) {
	ex.mu.Lock()
	ex.modelsUsed[k] = true
	ex.mu.Unlock()
}

func (ex *Exec) invoke(fr *Frame, site ssa.Instruction, c *ssa.CallCommon, recv IfaceV, args []Value, st *State) []Outcome {
	g := Not(Eq(recv.Tag, I(0)))
	if g != TRUE && !st.known[g] {
		ex.check(st, g, "nil-deref", "non-nil interface "+describe(c.Value), site.Pos(), nil)
	}
	if recv.Dyn != nil {
		sel := ex.P.SSA.MethodSets.MethodSet(recv.Dyn).Lookup(c.Method.Pkg(), c.Method.Name())
		if sel != nil {
			if fn := ex.P.SSA.MethodValue(sel); fn != nil {
				return ex.callFn(fr, site, fn, append([]Value{recv.DynV}, args...), nil, st)
			}
		}
	}
	mk := methodKey(c.Method)
	// the static interface may embed the one that declares the method
	if m, ok := models[typeKey(c.Value.Type())+"."+c.Method.Name()]; ok {
		k := typeKey(c.Value.Type()) + "." + c.Method.Name()
		ex.usedModel(k)
		return m(&callCtx{ex: ex, fr: fr, site: site, args: append([]Value{recv}, args...), st: st, sig: c.Signature()})
	}
	if m, ok := models[mk]; ok {
		ex.usedModel(mk)
		return m(&callCtx{ex: ex, fr: fr, site: site, args: append([]Value{recv}, args...), st: st, sig: c.Signature()})
	}
	if sp := ex.P.Specs.Fns[mk]; sp != nil {
		mods := map[string]bool{}
		for _, f := range ex.P.implementers(c.Method, c.Value.Type()) {
			for k := range ex.P.fnMods(f, nil) {
				mods[k] = true
			}
		}
		names := sigNames(c.Signature(), "self")
		return ex.applyContract(fr, site, sp, c.Signature(), names, append([]Value{recv}, args...), argTypes(c), mods, st, nil)
	}
	impls := ex.P.implementers(c.Method, c.Value.Type())
	if len(impls) == 0 || isInternalErr(c.Value.Type()) {
		ex.note("external method " + mk + ": arbitrary result, assumed not to panic and not to modify the verified state")
		return ex.opaque(fr, site, c.Signature(), st, mk)
	}
	var outs []Outcome
	rest := TRUE
	for _, f := range impls {
		rt := f.Signature.Recv().Type()
		cond := Eq(recv.Tag, tagOf(rt))
		rest = And(rest, Not(cond))
		if !ex.feasible(st, cond) {
			continue
		}
		s := st.clone()
		s.assume(cond)
		rv := ex.unIface(s, recv, rt)
		ex.typeFacts(s, rv, rt)
		outs = append(outs, ex.callFn(fr, site, f, append([]Value{rv}, args...), nil, s)...)
	}
	if rest != FALSE && ex.feasible(st, rest) {
		ex.note("dynamic call of " + mk + " reaches only the implementations in the repository")
	}
	return outs
}

// ---- frames ----

type frameInfo struct {
	base    *Term // heap before
	aold    *Term // allocation bound before
	targets []*Term
	conds   []condTarget
	all     bool
	own     bool // objects the function under verification allocated
}

type condTarget struct {
	v *Term
	c *Term
}

func oldRef(r, a *Term) bool {
	if r.Op == "int" && r.Int.Sign() <= 0 {
		return true
	}
	d := Sub(a, r)
	if d.IsConst() {
		return d.Int.Sign() > 0
	}
	// a = A_g + k
	g, ok := freshRef(a)
	if !ok {
		return false
	}
	if rb, ok := refBound(r); ok && rb <= g {
		return true
	}
	return false
}

// through: the array a select at r can be read from instead of t
func (fi *frameInfo) through(r *Term) bool {
	if fi.all || !oldRef(r, fi.aold) {
		return false
	}
	for _, t := range fi.targets {
		if Eq(t, r) != FALSE {
			return false
		}
	}
	if fi.own {
		if g, ok := refBound(r); !ok || g > 1 {
			return false
		}
	}
	for _, c := range fi.conds {
		if Subst(c.c, map[*Term]*Term{c.v: r}) != FALSE {
			return false
		}
	}
	return true
}

type modTarget struct {
	ref  *Term
	cond *condTarget
	all  bool
	own  bool
}

// bumpHeap gives new contents to the maps in mods: existing objects keep
// theirs except for the targets; objects allocated meanwhile are arbitrary.
func (ex *Exec) bumpHeap(st *State, mods map[string]bool, targets map[string][]modTarget) {
	names := map[string]bool{}
	for k := range mods {
		if strings.HasPrefix(k, "*") {
			for _, g := range ex.expandGhost(k) {
				names[g] = true
			}
			continue
		}
		names[k] = true
	}
	for k := range targets {
		names[k] = true
	}
	if len(names) == 0 {
		return
	}
	aold := st.alloc()
	ex.newAlloc(st)
	for _, n := range sortedSet(names) {
		h, ok := st.heap[n]
		if !ok {
			h, ok = ex.touch(st, n)
			if !ok {
				unsup("layout of %s unknown", n)
			}
		}
		if n == "G:rand" {
			// the random source advances
			old := Select(h, I(0))
			ex.bumpMap(st, n, h, aold, append(targets[n], modTarget{ref: I(0)}))
			st.assume(Le(old, Select(st.heap[n], I(0))))
			continue
		}
		if len(targets[n]) == 0 {
			// no existing object changes
			keepMap(h)
			continue
		}
		ex.bumpMap(st, n, h, aold, targets[n])
	}
}

func (ex *Exec) bumpMap(st *State, n string, h *Term, aold *Term, ts []modTarget) {
	info := ex.hinfo[n]
	t := ex.fresh("H:"+n, h.Sort)
	t.gen = st.allocG.agen
	fi := &frameInfo{base: h, aold: aold}
	ex.attachFacts(t, n, info, st.allocG)
	r := BVar("r", SInt)
	cond := Lt(r, aold)
	for _, m := range ts {
		switch {
		case m.all:
			fi.all = true
		case m.own:
			fi.own = true
			cond = And(cond, Lt(r, Sym("A!1", SInt)))
		case m.cond != nil:
			fi.conds = append(fi.conds, *m.cond)
			cond = And(cond, Not(Subst(m.cond.c, map[*Term]*Term{m.cond.v: r})))
		default:
			fi.targets = append(fi.targets, m.ref)
			cond = And(cond, Not(Eq(r, m.ref)))
		}
	}
	t.fi = fi
	if info.elem && (fi.all || fi.own || len(fi.targets) > 0 || len(fi.conds) > 0) {
		// backing arrays never change their length
		sel := mkSelect(t, r)
		var fs []*Term
		if v, ok := symFacts.Load(t); ok {
			fs = v.([]*Term)
		}
		fs = append(fs[:len(fs):len(fs)], Forall([]*Term{r}, [][]*Term{{sel}}, Imp(Lt(r, aold), Eq(Len(sel), Len(Select(h, r))))))
		symFacts.Store(t, fs)
	}
	if !fi.all {
		sel := mkSelect(t, r)
		var fs []*Term
		if v, ok := symFacts.Load(t); ok {
			fs = v.([]*Term)
		}
		fs = append(fs[:len(fs):len(fs)], Forall([]*Term{r}, [][]*Term{{sel}}, Imp(cond, Eq(sel, Select(h, r)))))
		symFacts.Store(t, fs)
	}
	st.heap[n] = t
}

// touch creates the entry symbol of a map by name when its layout is known
func (ex *Exec) touch(st *State, n string) (*Term, bool) {
	if info, ok := ex.hinfo[n]; ok {
		h := ex.H(st, n, info.sort, info)
		return h, true
	}
	if l, ok := ex.P.layout(n); ok {
		return ex.H(st, n, l.sort, l), true
	}
	if strings.HasPrefix(n, "G:") {
		i := strings.LastIndex(n, ".")
		tk, f := n[2:i], n[i+1:]
		if gt, ok := ex.P.Specs.Ghosts[tk][f]; ok {
			_, c, s := ex.P.ghostSort(tk, f, gt)
			l := heapInfo{sort: arrSort(SInt, s), comp: c}
			return ex.H(st, n, l.sort, l), true
		}
	}
	return nil, false
}

// layout of a heap map from its name
var layoutCache = map[string]heapInfo{}

func keySort(mt *types.Map) string {
	kc := flatten(mt.Key())
	if len(kc) > 1 {
		return SInt
	}
	return kc[0].sort
}

func regLayout(n string, info heapInfo) {
	termMu2.Lock()
	layoutCache[n] = info
	termMu2.Unlock()
}

func (P *Prog) layout(n string) (heapInfo, bool) {
	termMu2.Lock()
	defer termMu2.Unlock()
	i, ok := layoutCache[n]
	return i, ok
}

func (ex *Exec) expandGhost(k string) []string {
	k = strings.TrimPrefix(k, "*")
	var out []string
	for tk, fs := range ex.P.Specs.Ghosts {
		for f := range fs {
			n := tk + "." + f
			if n == k || strings.HasSuffix(n, k) && strings.HasPrefix(k, ".") {
				out = append(out, "G:"+n)
			}
		}
	}
	return out
}

func sortedSet(m map[string]bool) []string { return sortedStrings(m) }

// modTargets evaluates the modifies clauses of a contract.
func (ex *Exec) modTargets(sp *FnSpec, env *SEnv) map[string][]modTarget {
	out := map[string][]modTarget{}
	add := func(n string, t modTarget) { out[n] = append(out[n], t) }
	for _, c := range sp.Clauses {
		if c.Kind != "modifies" {
			continue
		}
		for _, m := range c.Mods {
			ex.modTarget(m, env, add)
		}
	}
	return out
}

func (ex *Exec) modTarget(m *Expr, env *SEnv, add func(string, modTarget)) {
	switch {
	case m.Op == "field":
		v := env.eval(m.Args[0])
		if v.T == nil {
			env.fail(m, "modifies target")
		}
		pt, ok := under(v.T).(*types.Pointer)
		if !ok {
			env.fail(m, "modifies target is not a field of a pointer")
		}
		p := ex.ptr(v.V, pt.Elem())
		tk := typeKey(pt.Elem())
		if m.Str == "*" {
			for f, gt := range ex.P.Specs.Ghosts[tk] {
				n, _, _, _ := env.ghostMap(tk, f, gt)
				add(n, modTarget{ref: p.Ref})
			}
			pn, t := pathName(p.Root, p.Path)
			for _, cc := range flatten(t) {
				_, _ = ex.fieldMap(env.st, p.Root, p.Path, cc)
				add(objMap(p.Root)+pn+cc.suf, modTarget{ref: p.Ref})
			}
			return
		}
		if gt, ok := ex.P.Specs.Ghosts[tk][m.Str]; ok {
			n, _, _, _ := env.ghostMap(tk, m.Str, gt)
			add(n, modTarget{ref: p.Ref})
			return
		}
		path, _, _ := findField(pt.Elem(), m.Str)
		if path == nil {
			env.fail(m, "no field %s", m.Str)
		}
		// follow embedded pointers
		cur := p
		t := pt.Elem()
		for k, i := range path {
			st := under(t).(*types.Struct)
			cur.Path = append(append([]int{}, cur.Path...), i)
			t = st.Field(i).Type()
			if k < len(path)-1 {
				if q, ok := under(t).(*types.Pointer); ok {
					cur = ex.ptr(env.load(cur), q.Elem())
					t = q.Elem()
				}
			}
		}
		pn, ft := pathName(cur.Root, cur.Path)
		for _, cc := range flatten(ft) {
			ex.fieldMap(env.st, cur.Root, cur.Path, cc)
			add(objMap(cur.Root)+pn+cc.suf, modTarget{ref: cur.Ref})
		}
	case m.Op == "call" && m.Str == "elems":
		v := env.eval(m.Args[0])
		switch u := under(v.T).(type) {
		case *types.Slice:
			for _, cc := range flatten(u.Elem()) {
				n, _ := ex.elemMap(env.st, u.Elem(), cc)
				add(n, modTarget{ref: v.V.(SliceV).Arr})
			}
		case *types.Pointer:
			at := under(u.Elem()).(*types.Array)
			for _, cc := range flatten(at.Elem()) {
				n, _ := ex.elemMap(env.st, at.Elem(), cc)
				add(n, modTarget{ref: env.scalar(m, v)})
			}
		default:
			env.fail(m, "elems of %s", v.T)
		}
	case m.Op == "call" && m.Str == "map":
		v := env.eval(m.Args[0])
		mt := under(v.T).(*types.Map)
		dn, _, vn, _, _ := ex.mapMaps(env.st, mt)
		r := env.scalar(m, v)
		add(dn, modTarget{ref: r})
		for _, n := range vn {
			add(n, modTarget{ref: r})
		}
	case m.Op == "call" && (m.Str == "all" || m.Str == "each"):
		name := m.Args[0].Str
		for _, n := range ex.namedMaps(env, name, m) {
			if m.Str == "all" {
				add(n, modTarget{all: true})
				continue
			}
			// each("T.f", n, cond)
			v := BVar("each?"+m.Args[1].Str, SInt)
			ne := env.child()
			i := strings.LastIndex(name, ".")
			tn := name[:i]
			if strings.HasPrefix(name, "E:") {
				ne.vars[m.Args[1].Str] = SVal{V: v, S: SInt}
			} else {
				t, _ := ex.P.resolveType(tn)
				ne.vars[m.Args[1].Str] = SVal{V: v, T: types.NewPointer(t)}
			}
			add(n, modTarget{cond: &condTarget{v, ne.boolT(m.Args[2])}})
		}
	case m.Op == "call" && m.Str == "global":
		name := m.Args[0].Str
		g := ex.P.findGlobal(name)
		if g == nil {
			env.fail(m, "unknown variable %s", name)
		}
		t := g.Type().(*types.Pointer).Elem()
		for _, cc := range flatten(t) {
			n, _ := ex.fieldMap(env.st, t, nil, cc)
			add(n, modTarget{ref: ex.P.globalRef(g)})
		}
	case m.Op == "un" && m.Str == "*":
		v := env.eval(m.Args[0])
		pt := under(v.T).(*types.Pointer)
		p := ex.ptr(v.V, pt.Elem())
		pn, t := pathName(p.Root, p.Path)
		for _, cc := range flatten(t) {
			n, _ := ex.fieldMap(env.st, p.Root, p.Path, cc)
			_ = pn
			add(n, modTarget{ref: p.Ref})
		}
	case m.Op == "call" && m.Str == "ghost":
		n := "G:" + m.Args[0].Str
		if _, ok := ex.touch(env.st, n); !ok {
			env.fail(m, "unknown ghost %s", n)
		}
		v := env.eval(m.Args[1])
		if iv, ok := v.V.(IfaceV); ok {
			add(n, modTarget{ref: iv.Val})
		} else {
			add(n, modTarget{ref: env.scalar(m, v)})
		}
	case m.Op == "call" && m.Str == "lock":
		v := env.eval(m.Args[0])
		env.ex.H(env.st, "G:lock", arrSort(SInt, SInt), heapInfo{comp: comp{sort: SInt, kind: "ghost"}})
		add("G:lock", modTarget{ref: env.lockOf(m, v)})
	default:
		env.fail(m, "cannot interpret modifies target")
	}
}

func (ex *Exec) namedMaps(env *SEnv, name string, m *Expr) []string {
	var out []string
	if strings.HasPrefix(name, "E:") {
		t, _ := ex.P.resolveType(name[2:])
		if t == nil {
			env.fail(m, "unknown type %s", name)
		}
		for _, cc := range flatten(t) {
			n, _ := ex.elemMap(env.st, t, cc)
			out = append(out, n)
		}
		return out
	}
	i := strings.LastIndex(name, ".")
	t, _ := ex.P.resolveType(name[:i])
	if t == nil {
		env.fail(m, "unknown type %s", name[:i])
	}
	f := name[i+1:]
	tk := typeKey(t)
	for g, gt := range ex.P.Specs.Ghosts[tk] {
		if g == f || f == "*" {
			n, _, _, _ := env.ghostMap(tk, g, gt)
			out = append(out, n)
		}
	}
	st, ok := under(t).(*types.Struct)
	if ok {
		for k := 0; k < st.NumFields(); k++ {
			if f == "*" || st.Field(k).Name() == f {
				for _, cc := range flatten(st.Field(k).Type()) {
					n, _ := ex.fieldMap(env.st, t, []int{k}, cc)
					out = append(out, n)
				}
			}
		}
		if len(out) == 0 {
			if path, ft, _ := findField(t, f); path != nil {
				for _, cc := range flatten(ft) {
					n, _ := ex.fieldMap(env.st, t, path, cc)
					out = append(out, n)
				}
			}
		}
	}
	if len(out) == 0 {
		env.fail(m, "no field %s", name)
	}
	return out
}

func (ex *Exec) bindParams(sp *FnSpec, names []string, args []Value, ts []types.Type) map[string]SVal {
	vars := map[string]SVal{}
	for i := range args {
		v := SVal{V: args[i], T: ts[i]}
		if i < len(sp.Names) {
			vars[sp.Names[i]] = v
		} else if i < len(names) && names[i] != "" {
			vars[names[i]] = v
		}
		vars[fmt.Sprintf("arg%d", i)] = v
	}
	if len(args) > 0 && len(names) > 0 && names[0] == "self" {
		vars["self"] = SVal{V: args[0], T: ts[0]}
	}
	return vars
}

func (ex *Exec) applyContract(fr *Frame, site ssa.Instruction, sp *FnSpec, sig *types.Signature, names []string, args []Value, ts []types.Type, mods map[string]bool, st *State, fn *ssa.Function) []Outcome {
	ex.mu.Lock()
	ex.used[sp.Key] = true
	ex.mu.Unlock()
	if len(ts) < len(args) {
		unsup("argument types of %s", sp.Key)
	}
	for i, a := range args {
		ex.exclDrop(st, a, ts[i])
	}
	vars := ex.bindParams(sp, names, args, ts)
	pre := st.clone()
	env := &SEnv{ex: ex, st: st, old: pre, vars: vars}
	for _, c := range sp.Clauses {
		if c.Kind == "requires" {
			g := env.boolT(c.E)
			if g != TRUE {
				ex.check(st, g, "precondition", sp.Key+" requires "+clip(c.Raw), site.Pos(), c.Prop)
			}
		}
	}
	for _, c := range sp.Clauses {
		switch c.Kind {
		case "limit":
			// a bound on the length of the history (number of epochs)
			if ex.lockinv > 0 {
				st.assume(env.boolT(c.E))
				ex.note(sp.Key + " is called within its limit: " + clip(c.Raw))
			} else if g := env.boolT(c.E); g != TRUE {
				ex.check(st, g, "precondition", sp.Key+" requires "+clip(c.Raw), site.Pos(), c.Prop)
			}
		case "lockinv":
			// what a lock protects is in order whenever the lock is taken
			if ex.lockinv > 0 {
				st.assume(env.boolT(c.E))
			} else if g := env.boolT(c.E); g != TRUE {
				ex.check(st, g, "precondition", sp.Key+" requires "+clip(c.Raw), site.Pos(), c.Prop)
			}
		case "conforms":
			v, ok := vars[c.Key]
			if !ok {
				unsup("contract %s: no parameter %s", c.Pos, c.Key)
			}
			cs, pre := ex.confArgs(env, c)
			ex.checkConforms(fr, site, v, cs, pre, st)
		}
	}
	pre = st.clone()
	env.old = pre
	penv := &SEnv{ex: ex, st: pre, old: pre, vars: vars}
	var outs []Outcome
	for _, c := range sp.Clauses {
		if c.Kind == "maypanic" || c.Kind == "panics" {
			g := penv.boolT(c.E)
			if ex.feasible(st, g) {
				s := st.clone()
				s.assume(g)
				outs = append(outs, Outcome{st: s, panic: true, pos: site.Pos(), pval: ex.freshValue(s, "pv", types.NewInterfaceType(nil, nil))})
			}
			if c.Kind == "panics" {
				// proved of the callee: it returns only otherwise
				st.assume(Not(g))
			}
		}
	}
	targets := ex.modTargets(sp, penv)
	if sp.Opts["pure"] == "" || len(targets) > 0 {
		ex.bumpHeap(st, mods, targets)
	}
	// results
	var rs []Value
	env.st = st
	freshRes := map[int]bool{}
	for _, c := range sp.Clauses {
		if c.Kind == "ensures" || c.Kind == "assume" {
			for _, i := range freshResults(c.E) {
				freshRes[i] = true
			}
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		var v Value
		if freshRes[i] {
			switch u := under(rt).(type) {
			case *types.Pointer:
				v = ex.newRef(st)
			case *types.Map:
				v = ex.newRef(st)
			case *types.Slice:
				r := ex.newRef(st)
				n := ex.fresh("len", SInt)
				cp := ex.fresh("cap", SInt)
				n.lo, n.hi, cp.lo, cp.hi = big.NewInt(0), maxLen, big.NewInt(0), maxLen
				st.assume(Le(n, cp))
				for _, cc := range flatten(u.Elem()) {
					_, e := ex.elemMap(st, u.Elem(), cc)
					st.assume(Eq(Len(Select(e, r)), cp))
				}
				v = SliceV{r, I(0), n, cp}
			}
		}
		if v == nil {
			v = ex.freshValue(st, "ret", rt)
		}
		rs = append(rs, v)
		env.ret = append(env.ret, SVal{V: v, T: rt})
	}
	for i := 0; i < sig.Results().Len(); i++ {
		if n := sig.Results().At(i).Name(); n != "" {
			if _, dup := env.vars[n]; !dup {
				env.vars[n] = env.ret[i]
			}
		}
	}
	for _, c := range sp.Clauses {
		if c.Kind == "ensures" || c.Kind == "assume" || c.Kind == "lockinv" {
			st.assume(env.boolT(c.E))
		}
	}
	outs = append(outs, Outcome{st: st, ret: rs})
	return outs
}

// confArgs: the contract and the leading arguments a conforms clause names
func (ex *Exec) confArgs(env *SEnv, c *Clause) (*FnSpec, []SVal) {
	sp := ex.P.Specs.Fns[c.E.Str]
	if c.E.Op != "call" || sp == nil {
		unsup("contract %s: unknown contract %s", c.Pos, c.Raw)
	}
	var pre []SVal
	for _, a := range c.E.Args {
		pre = append(pre, env.eval(a))
	}
	return sp, pre
}

// checkConforms: the function value behaves as the contract sp whose first
// parameters are pre, whenever it is called later.
func (ex *Exec) checkConforms(fr *Frame, site ssa.Instruction, v SVal, sp *FnSpec, pre []SVal, st *State) {
	f, ok := v.V.(FuncV)
	if !ok {
		unsup("function argument %T", v.V)
	}
	if f.Conf != nil {
		if f.Conf.Spec != sp || len(pre) != len(f.Conf.Pre) {
			ex.check(st, FALSE, "precondition", "function argument behaves as "+sp.Key, site.Pos(), sp.Props)
			return
		}
		var gs []*Term
		for i := range pre {
			gs = append(gs, ex.eqVal(pre[i].V, f.Conf.Pre[i].V, pre[i].T))
		}
		ex.check(st, And(gs...), "precondition", "function argument behaves as "+sp.Key, site.Pos(), sp.Props)
		return
	}
	if f.Fn == nil {
		ex.check(st, FALSE, "precondition", "function argument behaves as "+sp.Key, site.Pos(), sp.Props)
		return
	}
	s := st.clone()
	s.defers = map[int][]*deferred{}
	ex.anyLocks(s)
	sig := v.T.Underlying().(*types.Signature)
	var args []Value
	vars := map[string]SVal{}
	for i, p := range pre {
		vars[sp.Names[i]] = p
	}
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		a := ex.freshValue(s, "arg", t)
		ex.typeFacts(s, a, t)
		args = append(args, a)
		if k := len(pre) + i; k < len(sp.Names) {
			vars[sp.Names[k]] = SVal{V: a, T: t}
		}
	}
	env := &SEnv{ex: ex, st: s, old: s, vars: vars}
	for _, c := range sp.Clauses {
		if c.Kind == "requires" || c.Kind == "lockinv" {
			s.assume(env.boolT(c.E))
		}
	}
	old := s.clone()
	ex.lockinv++
	outs := ex.callFn(fr, site, f.Fn, args, f.Bind, s)
	ex.lockinv--
	for _, o := range outs {
		if o.back {
			continue
		}
		if o.panic {
			continue
		}
		oe := &SEnv{ex: ex, st: o.st, old: old, vars: vars}
		for i := 0; i < sig.Results().Len(); i++ {
			oe.ret = append(oe.ret, SVal{V: o.ret[i], T: sig.Results().At(i).Type()})
		}
		for _, c := range sp.Clauses {
			if c.Kind == "ensures" || c.Kind == "lockinv" {
				ex.check(o.st, oe.boolT(c.E), "postcondition", sp.Key+" "+c.Name+": "+clip(c.Raw), site.Pos(), sp.Props)
			}
		}
		// every lock is as it was
		if h, ok := o.st.heap["G:lock"]; ok && h != old.heap["G:lock"] {
			r := ex.fresh("anylock", SInt)
			ex.check(o.st, Eq(Select(h, r), Select(old.heap["G:lock"], r)), "lock", "locks are released", site.Pos(), sp.Props)
		}
	}
}

// anyLocks forgets which locks the running goroutine holds
func (ex *Exec) anyLocks(s *State) {
	n := "G:lock"
	h := ex.H(s, n, arrSort(SInt, SInt), heapInfo{comp: comp{sort: SInt, kind: "ghost"}})
	s.heap[n] = ex.fresh("H:"+n, h.Sort)
}

func clip(s string) string {
	if len(s) > 160 {
		return s[:160] + "…"
	}
	return s
}

// freshResults: indices i with a top-level conjunct fresh(ret_i)
func freshResults(e *Expr) []int {
	switch {
	case e.Op == "bin" && e.Str == "&&":
		return append(freshResults(e.Args[0]), freshResults(e.Args[1])...)
	case e.Op == "call" && e.Str == "fresh" && e.Args[0].Op == "id":
		switch e.Args[0].Str {
		case "result", "ret0":
			return []int{0}
		case "ret1":
			return []int{1}
		}
	}
	return nil
}

// ---- builtins ----

func (ex *Exec) builtin(fr *Frame, site ssa.Instruction, name string, c *ssa.CallCommon, args []Value, st *State) []Outcome {
	switch name {
	case "len":
		switch v := args[0].(type) {
		case SliceV:
			return one(st, v.Len)
		case *Term:
			if v.Sort == SSeq {
				return one(st, Len(v))
			}
			if _, ok := under(c.Args[0].Type()).(*types.Map); ok {
				n := ex.fresh("maplen", SInt)
				n.lo, n.hi = big.NewInt(0), maxLen
				return one(st, n)
			}
			if _, ok := under(c.Args[0].Type()).(*types.Chan); ok {
				return one(st, ex.freshValue(st, "chanlen", types.Typ[types.Int]))
			}
		}
		if pt, ok := under(c.Args[0].Type()).(*types.Pointer); ok {
			return one(st, I(under(pt.Elem()).(*types.Array).Len()))
		}
	case "cap":
		if v, ok := args[0].(SliceV); ok {
			return one(st, v.Cap)
		}
		if pt, ok := under(c.Args[0].Type()).(*types.Pointer); ok {
			return one(st, I(under(pt.Elem()).(*types.Array).Len()))
		}
	case "append":
		return ex.appendB(fr, site, c, args, st)
	case "copy":
		return ex.copyB(fr, site, c, args, st)
	case "delete":
		mt := under(c.Args[0].Type()).(*types.Map)
		m := args[0].(*Term)
		// delete on a nil map is a no-op
		if m.IsConst() && m.Int.Sign() == 0 {
			return one(st)
		}
		if _, ok := freshRef(m); ok || ex.qprove(st, Not(Eq(m, I(0)))) {
			ex.mapDelete(st, m, mt, args[1])
			return one(st)
		}
		dn, d, _, _, _ := ex.mapMaps(st, mt)
		kk := ex.mapKey(args[1], mt.Key())
		st.heap[dn] = Store(d, m, Ite(Eq(m, I(0)), Select(d, m), Store(Select(d, m), kk, FALSE)))
		return one(st)
	case "print", "println":
		return one(st)
	case "recover":
		unsup("recover")
	case "close":
		return one(st)
	case "ssa:wrapnilchk":
		r := ex.ptr(args[0], under(c.Args[0].Type()).(*types.Pointer).Elem())
		ex.nonnil(st, r.Ref, site.Pos(), "receiver")
		return one(st, args[0])
	case "min", "max":
		a, b := args[0].(*Term), args[1].(*Term)
		if name == "min" {
			return one(st, Ite(Le(a, b), a, b))
		}
		return one(st, Ite(Ge(a, b), a, b))
	}
	unsup("builtin %s", name)
	return nil
}

func (ex *Exec) appendB(fr *Frame, site ssa.Instruction, c *ssa.CallCommon, args []Value, st *State) []Outcome {
	s := args[0].(SliceV)
	et := under(c.Args[0].Type()).(*types.Slice).Elem()
	cs := flatten(et)
	var add []*Term
	var n *Term
	switch y := args[1].(type) {
	case *Term: // string appended to []byte
		add = []*Term{y}
		n = Len(y)
	case SliceV:
		n = y.Len
		for _, cc := range cs {
			_, e := ex.elemMap(st, et, cc)
			if k, ok := n.ConstInt(); ok && k <= 16 && !isByteElem(et) {
				vs := make([]*Term, k)
				for i := range vs {
					vs[i] = At(Select(e, y.Arr), AddI(y.Off, int64(i)))
				}
				add = append(add, Lit(vs...))
				continue
			}
			add = append(add, ex.sliceSeq(e, y))
		}
	}
	if n.IsConst() && n.Int.Sign() == 0 {
		return one(st, s)
	}
	newLen := Add(s.Len, n)
	st.assume(Le(newLen, IB(maxLen)))
	mkNew := func(q *State) Value {
		var cont []*Term
		for i, cc := range cs {
			_, e := ex.elemMap(q, et, cc)
			old := SEMPTY
			if !(s.Len.IsConst() && s.Len.Int.Sign() == 0) {
				old = ex.sliceSeq(e, s)
			}
			cont = append(cont, Cat(old, add[i]))
		}
		r := ex.newSlice(q, et, cont, newLen, false)
		q.excl = exclAdd(q.excl, r.Arr)
		return r
	}
	// an append that fits is indistinguishable from a reallocation when
	// nothing else can see the backing array
	fits := Le(newLen, s.Cap)
	if s.Arr.IsConst() && s.Arr.Int.Sign() == 0 {
		if n.IsConst() {
			return one(st, mkNew(st))
		}
		// appending nothing to nil leaves nil
		z := Eq(n, I(0))
		var outs []Outcome
		if ex.feasible(st, z) {
			q := st.clone()
			q.assume(z)
			outs = append(outs, Outcome{st: q, ret: []Value{s}})
		}
		if nz := Not(z); ex.feasible(st, nz) {
			q := st.clone()
			q.assume(nz)
			outs = append(outs, Outcome{st: q, ret: []Value{mkNew(q)}})
		}
		return outs
	}
	if fits == FALSE {
		return one(st, mkNew(st))
	}
	if st.excl[s.Arr] && ex.deadAfter(c.Args[0], site, fr) {
		return one(st, mkNew(st))
	}
	// appending nothing to a nil slice
	var outs []Outcome
	if ex.feasible(st, Not(fits)) {
		q := st.clone()
		q.assume(Not(fits))
		outs = append(outs, Outcome{st: q, ret: []Value{mkNew(q)}})
	}
	if ex.feasible(st, fits) {
		q := st.clone()
		q.assume(fits)
		if !n.IsConst() {
			// n may be 0 with a nil slice: nothing written
		}
		for i, cc := range cs {
			nm, e := ex.elemMap(q, et, cc)
			q.heap[nm] = Store(e, s.Arr, Splice(Select(e, s.Arr), Add(s.Off, s.Len), add[i], n))
		}
		outs = append(outs, Outcome{st: q, ret: []Value{SliceV{s.Arr, s.Off, newLen, s.Cap}}})
	}
	return outs
}

// Splice overwrites a[at:at+n] with b (length n)
func Splice(a, at, b, n *Term) *Term {
	if k, ok := n.ConstInt(); ok && k == 1 {
		return Upd(a, at, At(b, I(0)))
	}
	return Cat(SubSeq(a, I(0), at), b, SubSeq(a, Add(at, n), Len(a)))
}

func exclAdd(m map[*Term]bool, r *Term) map[*Term]bool {
	n := make(map[*Term]bool, len(m)+1)
	for k := range m {
		n[k] = true
	}
	n[r] = true
	return n
}

// exclDrop: v escapes, so its backing arrays may be reachable elsewhere
func (ex *Exec) exclDrop(st *State, v Value, t types.Type) {
	if len(st.excl) == 0 {
		return
	}
	for i, c := range flatten(t) {
		if c.kind != "arr" {
			continue
		}
		a := toTerms(v, t)[i]
		if st.excl[a] {
			n := map[*Term]bool{}
			for k := range st.excl {
				if k != a {
					n[k] = true
				}
			}
			st.excl = n
		}
	}
}

// deadAfter: after the append at site no other SSA value can reach the
// backing array of v (v is an accumulator).
func (ex *Exec) deadAfter(v ssa.Value, site ssa.Instruction, fr *Frame) bool {
	seen := map[ssa.Value]bool{}
	var origin func(v ssa.Value) bool
	origin = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			return true
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !origin(e) {
					return false
				}
			}
		case *ssa.Call:
		case *ssa.MakeSlice, *ssa.Convert:
		case *ssa.Extract:
		case *ssa.Slice:
			al, ok := x.X.(*ssa.Alloc)
			if !ok {
				return false
			}
			for _, r := range *al.Referrers() {
				switch y := r.(type) {
				case *ssa.IndexAddr, *ssa.DebugRef:
				case *ssa.Slice:
					if y != x {
						return false
					}
				default:
					return false
				}
			}
		default:
			return false
		}
		for _, r := range *v.Referrers() {
			switch y := r.(type) {
			case *ssa.DebugRef, *ssa.Phi:
			case *ssa.Call:
				if b, ok := y.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap" || b.Name() == "append") {
					if b.Name() == "append" && r != site && y.Call.Args[0] == v && reaches(site, r, v) {
						return false
					}
					continue
				}
				if reaches(site, r, v) || true {
					// handed to another function that might keep it
					if !reaches(r, site, nil) && !reaches(site, r, v) {
						continue
					}
					return false
				}
			case *ssa.Return, *ssa.Store, *ssa.MakeInterface:
				if reaches(r, site, nil) {
					return false
				}
				if reaches(site, r, v) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return origin(v)
}

// reaches: can instruction b execute after a without passing the
// definition of v again?
func reaches(a, b ssa.Instruction, v ssa.Value) bool {
	ab, bb := a.Block(), b.Block()
	if ab == bb {
		ia, ib := -1, -1
		for i, in := range ab.Instrs {
			if in == a {
				ia = i
			}
			if in == b {
				ib = i
			}
		}
		if ib > ia {
			return true
		}
	}
	var def *ssa.BasicBlock
	if in, ok := v.(ssa.Instruction); ok && v != nil {
		def = in.Block()
	}
	seen := map[*ssa.BasicBlock]bool{}
	stk := append([]*ssa.BasicBlock{}, ab.Succs...)
	for len(stk) > 0 {
		x := stk[len(stk)-1]
		stk = stk[:len(stk)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == def {
			continue
		}
		if x == bb {
			return true
		}
		stk = append(stk, x.Succs...)
	}
	return false
}

func (ex *Exec) copyB(fr *Frame, site ssa.Instruction, c *ssa.CallCommon, args []Value, st *State) []Outcome {
	d := args[0].(SliceV)
	et := under(c.Args[0].Type()).(*types.Slice).Elem()
	cs := flatten(et)
	var src []*Term
	var sn *Term
	switch y := args[1].(type) {
	case *Term:
		src = []*Term{y}
		sn = Len(y)
	case SliceV:
		sn = y.Len
		for _, cc := range cs {
			_, e := ex.elemMap(st, et, cc)
			src = append(src, ex.sliceSeq(e, y))
		}
	}
	do := func(q *State, n *Term) Outcome {
		if n.IsConst() && n.Int.Sign() == 0 {
			return Outcome{st: q, ret: []Value{n}}
		}
		for i, cc := range cs {
			nm, e := ex.elemMap(q, et, cc)
			a := Select(e, d.Arr)
			q.heap[nm] = Store(e, d.Arr, Splice(a, d.Off, SubSeq(src[i], I(0), n), n))
		}
		return Outcome{st: q, ret: []Value{n}}
	}
	le := Le(sn, d.Len)
	if le == TRUE || ex.qprove(st, le) {
		return []Outcome{do(st, sn)}
	}
	ge := Ge(sn, d.Len)
	if ge == TRUE || ex.qprove(st, ge) {
		return []Outcome{do(st, d.Len)}
	}
	q := st.clone()
	q.assume(le)
	st.assume(Not(le))
	return []Outcome{do(q, sn), do(st, d.Len)}
}

// goStmt: a new goroutine is run on a copy of the state, holding no lock; its
// obligations are checked, its effects are not seen by the others.
func (ex *Exec) goStmt(fr *Frame, x *ssa.Go, st *State) {
	if fv, ok := ex.val(fr, st, x.Call.Value).(FuncV); ok && fv.Fn != nil && fv.Fn.Blocks != nil && !x.Call.IsInvoke() && ex.P.inRepoFn(fv.Fn) {
		s := st.clone()
		n := "G:lock"
		ex.H(s, n, arrSort(SInt, SInt), heapInfo{comp: comp{sort: SInt, kind: "ghost"}})
		ex.H(st, n, arrSort(SInt, SInt), heapInfo{comp: comp{sort: SInt, kind: "ghost"}})
		s.heap[n] = ConstArr(arrSort(SInt, SInt), I(0))
		s.defers = map[int][]*deferred{}
		var args []Value
		for _, a := range x.Call.Args {
			args = append(args, ex.val(fr, st, a))
		}
		outs := ex.callFn(fr, x, fv.Fn, args, fv.Bind, s)
		for _, o := range outs {
			if o.back || o.panic {
				continue
			}
			h := o.st.heap[n]
			r := ex.fresh("anylock", SInt)
			if g := Eq(Select(h, r), I(0)); g != TRUE {
				ex.check(o.st, g, "lock", "goroutine releases its locks", x.Pos(), nil)
			}
		}
		return
	}
	// spec hook: obligations on goroutine start are expressed on the
	// started function's own contract
	if f := x.Call.StaticCallee(); f != nil {
		if sp := ex.P.Specs.Fns[fnKey(f)]; sp != nil {
			var args []Value
			var ts []types.Type
			for _, a := range x.Call.Args {
				args = append(args, ex.val(fr, st, a))
				ts = append(ts, a.Type())
			}
			env := &SEnv{ex: ex, st: st, old: st, vars: ex.bindParams(sp, paramNames(f), args, ts)}
			for _, c := range sp.Clauses {
				if c.Kind == "requires" {
					ex.check(st, env.boolT(c.E), "precondition", "go "+sp.Key+" requires "+clip(c.Raw), x.Pos(), c.Prop)
				}
			}
		}
	}
}

// ghost assignments at allocations
func (ex *Exec) atAlloc(fr *Frame, st *State, t types.Type, r *Term) {
	tk := typeKey(t)
	for g, gt := range ex.P.Specs.Ghosts[tk] {
		// ghost fields of new objects are zero unless assigned
		env := &SEnv{ex: ex, st: st, old: st, vars: map[string]SVal{}}
		n, h, gty, s := env.ghostMap(tk, g, gt)
		var z *Term
		switch {
		case gty != nil:
			z = zeroTerm(flatten(gty)[0])
		default:
			z = zeroSort(s)
		}
		st.heap[n] = Store(h, r, z)
	}
	if ex.Spec == nil {
		return
	}
	for _, c := range ex.Spec.Clauses {
		if c.Kind == "atalloc" && c.Key == tk {
			vars := map[string]SVal{}
			for k, v := range ex.params {
				vars[k] = v
			}
			vars["self"] = SVal{V: r, T: types.NewPointer(t)}
			env := &SEnv{ex: ex, st: st, old: ex.pre, vars: vars}
			ex.ghostAssign(env, c)
		}
	}
}

func zeroSort(s string) *Term {
	switch s {
	case SInt:
		return I(0)
	case SBool:
		return FALSE
	case SSeq:
		return SEMPTY
	}
	_, v := arrSplit(s)
	return ConstArr(s, zeroSort(v))
}

func (ex *Exec) ghostAssign(env *SEnv, c *Clause) {
	lhs, rhs := c.E.Args[0], c.E.Args[1]
	if lhs.Op != "field" {
		unsup("contract %s: ghost assignment target", c.Pos)
	}
	v := env.eval(lhs.Args[0])
	pt := under(v.T).(*types.Pointer)
	tk := typeKey(pt.Elem())
	gt, ok := ex.P.Specs.Ghosts[tk][lhs.Str]
	if !ok {
		unsup("contract %s: %s.%s is not a ghost field", c.Pos, tk, lhs.Str)
	}
	n, h, _, s := env.ghostMap(tk, lhs.Str, gt)
	val := env.eval(rhs)
	var vt *Term
	if s == SSeq {
		vt = env.seqOf(rhs, val)
	} else {
		vt = env.scalar(rhs, val)
	}
	env.st.heap[n] = Store(h, env.scalar(lhs, v), vt)
}

var _ = token.NoPos
