package main

// Path-wise symbolic execution over go/ssa.

import (
	"context"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Wall float64
	Fn, Name, Kind, Pos string
	Props               []string
	Hyps                []*Term
	Goal                *Term
	Res                 SolveResult
	Trace               []string
	Text                string
}

type Outcome struct {
	st    *State
	panic bool
	ret   []Value
	pval  Value
	back  bool // reached the back edge of the loop under analysis
	pos   token.Pos
}

type Frame struct {
	id     int
	fn     *ssa.Function
	parent *Frame
	loops  *loopInfo
	unroll map[*ssa.BasicBlock]int
	active *activeLoop
	free   []Value
	site   ssa.Instruction
	entry  *State
}

type activeLoop struct {
	header *ssa.BasicBlock
	up     *activeLoop
	onBack func(st *State, from *ssa.BasicBlock)
	body   map[*ssa.BasicBlock]bool
	trial  bool
}

type Exec struct {
	lockinv int // >0: state protected by locks is assumed to be in order
	P       *Prog
	Key     string
	nskolem int
	Root    *ssa.Function
	Spec    *FnSpec
	SpecFns []*FnSpec
	heap0   map[string]*Term
	hinfo   map[string]heapInfo
	pre     *State
	params  map[string]SVal
	obls    []*Obl
	wg      sync.WaitGroup
	mu      sync.Mutex
	trial   int
	fidN    int
	allocN  int
	symN    int
	quick   *QuickZ3
	assum   map[string]bool
	inlined map[string]bool
	used    map[string]bool // contracts used
	budget  time.Duration
	paths   int
	curProp []string
	rootFr  *Frame
	deadline time.Time
	noPanic bool
	err     string
	Self    *SVal
	loopLog []string
	termKey string
	constArrs []constArr
	bvN     int
	modelsUsed map[string]bool
	symMark int
	id int
}

func (ex *Exec) fresh(name, sort string) *Term {
	ex.symN++
	t := Sym(fmt.Sprintf("%s!%d.%d", name, ex.id, ex.symN), sort)
	t.symN = ex.symN
	return t
}

func (ex *Exec) note(s string) {
	ex.mu.Lock()
	ex.assum[s] = true
	ex.mu.Unlock()
}

// newAlloc introduces a new allocation symbol not below the current one.
func (ex *Exec) newAlloc(st *State) {
	ex.allocN++
	nm := "A!1"
	if ex.allocN > 1 {
		nm = fmt.Sprintf("A!%d.%d", ex.id, ex.allocN)
	}
	a := Sym(nm, SInt)
	if ex.allocN > 1 {
		ex.symN++
		a.symN = ex.symN
	}
	a.agen = ex.allocN
	a.lo = big.NewInt(1)
	{
		r := BVar("r", SInt)
		nb := App("nb", SInt, r)
		symFacts.Store(a, []*Term{Forall([]*Term{r}, [][]*Term{{nb}}, Imp(Lt(r, a), Le(nb, a)))})
	}
	if st.allocG != nil {
		st.assume(Ge(a, st.alloc()))
	} else {
		st.assume(Ge(a, I(1)))
	}
	st.allocG = a
	st.allocK = 0
}

func (ex *Exec) newRef(st *State) *Term {
	r := st.alloc()
	st.allocK++
	return r
}

// symFacts: quantified typing facts attached to heap symbols.
var symFacts sync.Map // *Term -> []*Term

func (ex *Exec) hname(root types.Type, path []int, c comp) string {
	p, _ := pathName(root, path)
	return objMap(root) + p + c.suf
}

func (ex *Exec) heapSym(st *State, name string, sort string, info heapInfo, g *Term) *Term {
	t := ex.fresh("H:"+name, sort)
	t.gen = g.agen
	ex.attachFacts(t, name, info, g)
	return t
}

func (ex *Exec) attachFacts(t *Term, name string, info heapInfo, A *Term) {
	lt := func(x *Term) *Term { return Lt(x, A) }
	if fs := ex.mapFacts(t, name, info, func(r *Term) func(*Term) *Term { return lt }); len(fs) > 0 {
		symFacts.Store(t, fs)
		// once the map outlives an allocation: an object created later may
		// point to whatever existed then
		fk := ex.mapFacts(t, name, info, func(r *Term) func(*Term) *Term {
			return func(x *Term) *Term { return Or(Lt(x, A), Lt(x, App("nb", SInt, r))) }
		})
		keptFacts.Store(t, keptAlt{n: len(fs), fs: fk})
	}
}

// keptMaps: heap symbols that stand for the heap across later allocations (a
// call or loop that changes no existing object leaves the symbol in place; its
// contents at references not yet allocated are arbitrary).
var keptMaps, keptFacts sync.Map

type keptAlt struct {
	n  int // the first n facts of the symbol are replaced by fs
	fs []*Term
}

func keepMap(h *Term) {
	switch h.Op {
	case "store":
		keepMap(h.Args[0])
	case "ite":
		keepMap(h.Args[1])
		keepMap(h.Args[2])
	case "sym":
		keptMaps.Store(h, true)
	}
}

func isKept(h *Term) bool {
	_, ok := keptMaps.Load(h)
	return ok
}

// typing facts of a symbol for a query
func factsOf(t *Term) []*Term {
	v, ok := symFacts.Load(t)
	if !ok {
		return nil
	}
	fs := v.([]*Term)
	if isKept(t) {
		if k, ok := keptFacts.Load(t); ok {
			alt := k.(keptAlt)
			return append(append([]*Term{}, alt.fs...), fs[alt.n:]...)
		}
	}
	return fs
}

func (ex *Exec) mapFacts(t *Term, name string, info heapInfo, ltOf func(*Term) func(*Term) *Term) []*Term {
	var fs []*Term
	switch info.comp.kind {
	case "int":
		if lo, hi, ok := intRange(info.comp.typ); ok {
			t.elo, t.ehi = lo, hi
		}
	case "off", "len", "cap":
		t.elo, t.ehi = new(big.Int), maxLen
	case "bool":
		if info.elem {
			t.elo, t.ehi = new(big.Int), big.NewInt(1)
		}
	case "tag":
		t.elo = new(big.Int)
	}
	r := BVar("r", SInt)
	A := ltOf(r)
	if strings.HasPrefix(name, "M") {
		k, _ := arrSplit(func() string { _, v := arrSplit(t.Sort); return v }())
		kv := BVar("k", k)
		sel := Select(Select(t, r), kv)
		if f := scalarFact(sel, info.comp, A); f != TRUE && strings.HasPrefix(name, "MV:") {
			fs = append(fs, Forall([]*Term{r, kv}, [][]*Term{{sel}}, f))
		}
	} else if info.elem {
		i := BVar("i", SInt)
		sel := Select(t, r)
		at := mk("at", SInt, "", nil, nil, []*Term{sel, i}, nil)
		if f := elemFact(at, info.comp, A); f != TRUE {
			fs = append(fs, Forall([]*Term{r, i}, [][]*Term{{at}}, f))
		}
	} else {
		sel := Select(t, r)
		if f := scalarFact(sel, info.comp, A); f != TRUE {
			fs = append(fs, Forall([]*Term{r}, [][]*Term{{sel}}, f))
		}
	}
	return fs
}

func ltAlloc(st *State) func(*Term) *Term {
	a := st.alloc()
	return func(x *Term) *Term { return Lt(x, a) }
}

func elemFact(t *Term, c comp, A func(*Term) *Term) *Term {
	switch c.kind {
	case "bool":
		return And(Ge(t, I(0)), Le(t, I(1)))
	case "str", "array":
		return TRUE
	}
	return scalarFact(t, c, A)
}

func scalarFact(t *Term, c comp, A func(*Term) *Term) *Term {
	switch c.kind {
	case "int":
		if lo, hi, ok := intRange(c.typ); ok {
			return And(Le(IB(lo), t), Le(t, IB(hi)))
		}
	case "ref", "arr":
		return A(t)
	case "off", "len", "cap":
		return And(Ge(t, I(0)), Le(t, IB(maxLen)))
	case "tag":
		return Ge(t, I(0))
	case "array":
		at := under(c.typ).(*types.Array)
		f := Eq(mk("len", SInt, "", nil, nil, []*Term{t}, nil), I(at.Len()))
		if t.Op == "slit" || t.Op == "rep" {
			f = TRUE
		}
		ec := flatten(at.Elem())
		if len(ec) == 1 && ec[0].sort != SSeq {
			if t.bound || true {
				i := BVar("i", SInt)
				atv := mk("at", SInt, "", nil, nil, []*Term{t, i}, nil)
				ef := elemFact(atv, ec[0], A)
				f = And(f, Forall([]*Term{i}, [][]*Term{{atv}}, ef))
			}
		}
		return f
	case "str":
		i := BVar("i", SInt)
		atv := mk("at", SInt, "", nil, nil, []*Term{t, i}, nil)
		return And(Forall([]*Term{i}, [][]*Term{{atv}}, And(Ge(atv, I(0)), Le(atv, I(255)))), Le(Len(t), IB(maxLen)))
	}
	return TRUE
}

func (ex *Exec) H(st *State, name, sort string, info heapInfo) *Term {
	if t, ok := st.heap[name]; ok {
		return t
	}
	t, ok := ex.heap0[name]
	if !ok {
		a1 := Sym("A!1", SInt)
		info.sort = sort
		ex.hinfo[name] = info
		t = ex.heapSym(nil, name, sort, info, a1)
		ex.heap0[name] = t
	}
	st.heap[name] = t
	return t
}

func (ex *Exec) fieldMap(st *State, root types.Type, path []int, c comp) (string, *Term) {
	n := ex.hname(root, path, c)
	if a, ok := under(root).(*types.Array); ok && len(path) == 0 {
		ec := flatten(a.Elem())
		for _, x := range ec {
			if len(ec) == 1 || "@"+x.suf == c.suf {
				return ex.elemMap(st, a.Elem(), x)
			}
		}
	}
	return n, ex.H(st, n, arrSort(SInt, c.sort), heapInfo{comp: c})
}

func (ex *Exec) elemMap(st *State, et types.Type, c comp) (string, *Term) {
	n := "E:" + typeKey(et) + c.suf
	return n, ex.H(st, n, arrSort(SInt, SSeq), heapInfo{comp: c, elem: true})
}

func (ex *Exec) mapMaps(st *State, mt *types.Map) (dn string, d *Term, vn []string, vs []*Term, vc []comp) {
	kc := flatten(mt.Key())
	ks := kc[0].sort
	if len(kc) > 1 {
		ks = SInt // boxed pair
	}
	base := typeKey(mt)
	dn = "MD:" + base
	d = ex.H(st, dn, arrSort(SInt, arrSort(ks, SBool)), heapInfo{})
	vc = flatten(mt.Elem())
	for _, c := range vc {
		n := "MV:" + base + c.suf
		vn = append(vn, n)
		vs = append(vs, ex.H(st, n, arrSort(SInt, arrSort(ks, c.sort)), heapInfo{comp: c}))
	}
	return
}

func (ex *Exec) mapKey(k Value, t types.Type) *Term {
	ts := toTerms(k, t)
	if len(ts) == 1 {
		return ts[0]
	}
	if len(ts) == 2 {
		return App("pair", SInt, ts...)
	}
	unsup("map key %s", t)
	return nil
}

// typeFacts assumes what the type says about a value held in state st.
func (ex *Exec) typeFacts(st *State, v Value, t types.Type) {
	cs := flatten(t)
	ts := toTerms(v, t)
	for i, c := range cs {
		x := ts[i]
		if x.IsConst() {
			continue
		}
		if c.kind == "ref" || c.kind == "arr" {
			if _, ok := freshRef(x); !ok {
				st.assume(Lt(x, st.alloc()))
			}
		} else {
			st.assume(scalarFact(x, c, ltAlloc(st)))
		}
		if c.kind == "arr" {
			off, ln, cp := ts[i+1], ts[i+2], ts[i+3]
			st.assume(Ge(off, I(0)))
			st.assume(Ge(ln, I(0)))
			st.assume(Le(ln, cp))
			st.assume(Le(Add(off, cp), IB(maxLen)))
			st.assume(Imp(Eq(x, I(0)), Eq(cp, I(0))))
			sl, ok := under(c.typ).(*types.Slice)
			if ok {
				ecs := flatten(sl.Elem())
				if len(ecs) > 0 {
					_, e := ex.elemMap(st, sl.Elem(), ecs[0])
					st.assume(Imp(Not(Eq(x, I(0))), Ge(Len(Select(e, x)), Add(off, cp))))
				}
			}
		}
	}
}

// freshValue is an arbitrary value of type t.
func (ex *Exec) freshValue(st *State, name string, t types.Type) Value {
	var ts []*Term
	for _, c := range flatten(t) {
		s := ex.fresh(name+c.suf, c.sort)
		switch c.kind {
		case "int":
			if lo, hi, ok := intRange(c.typ); ok {
				s.lo, s.hi = lo, hi
			}
		case "ref", "arr", "val":
			if st.allocK == 0 {
				s.gen = st.allocG.agen
			}
		case "off", "len", "cap":
			s.lo, s.hi = big.NewInt(0), maxLen
		case "tag":
			s.lo = big.NewInt(0)
		}
		ts = append(ts, s)
	}
	v, _ := fromTerms(ts, t)
	ex.typeFacts(st, v, t)
	return v
}

func (ex *Exec) load(st *State, p PtrV) Value {
	var ts []*Term
	var t types.Type
	if p.Elem != nil {
		_, t = pathName(p.Root, p.Path)
		pn, _ := pathName(p.Root, p.Path)
		for _, c := range flatten(t) {
			cc := c
			cc.suf = pn + c.suf
			_, e := ex.elemMap(st, p.Root, cc)
			ts = append(ts, unboxTerm(At(Select(e, p.Ref), p.Elem), c.sort))
		}
	} else {
		_, t = pathName(p.Root, p.Path)
		for _, c := range flatten(t) {
			_, h := ex.fieldMap(st, p.Root, p.Path, c)
			ts = append(ts, Select(h, p.Ref))
		}
	}
	if p.AIdx != nil {
		at := under(t).(*types.Array)
		ec := flatten(at.Elem())
		var es []*Term
		for i, c := range ec {
			es = append(es, unboxTerm(At(ts[i], p.AIdx), c.sort))
		}
		v, _ := fromTerms(es, at.Elem())
		ex.typeFacts(st, v, at.Elem())
		return v
	}
	v, _ := fromTerms(ts, t)
	ex.typeFacts(st, v, t)
	return v
}

func (ex *Exec) store(st *State, p PtrV, v Value) {
	pn, t := pathName(p.Root, p.Path)
	if p.AIdx != nil {
		at := under(t).(*types.Array)
		q := p
		q.AIdx = nil
		cur := toTerms(ex.load(st, q), t)
		nv := toTerms(v, at.Elem())
		for i := range nv {
			cur[i] = Upd(cur[i], p.AIdx, boxTerm(nv[i]))
		}
		w, _ := fromTerms(cur, t)
		ex.store(st, q, w)
		return
	}
	ex.exclDrop(st, v, t)
	ts := toTerms(v, t)
	cs := flatten(t)
	for i, c := range cs {
		if p.Elem != nil {
			cc := c
			cc.suf = pn + c.suf
			n, e := ex.elemMap(st, p.Root, cc)
			st.heap[n] = Store(e, p.Ref, Upd(Select(e, p.Ref), p.Elem, boxTerm(ts[i])))
		} else {
			n, h := ex.fieldMap(st, p.Root, p.Path, c)
			st.heap[n] = Store(h, p.Ref, ts[i])
		}
	}
}

func (ex *Exec) ptr(v Value, elem types.Type) PtrV {
	switch x := v.(type) {
	case PtrV:
		return x
	case *Term:
		return PtrV{Ref: x, Root: elem}
	}
	unsup("pointer value %T", v)
	return PtrV{}
}

// contents of a slice / string / array value as a sequence term
func (ex *Exec) content(st *State, v Value, t types.Type) *Term {
	switch x := v.(type) {
	case *Term:
		if x.Sort == SSeq {
			return x
		}
		if pt, ok := under(t).(*types.Pointer); ok {
			return ex.load(st, PtrV{Ref: x, Root: pt.Elem()}).(*Term)
		}
	case SliceV:
		et := under(t).(*types.Slice).Elem()
		cs := flatten(et)
		if len(cs) != 1 {
			unsup("content of %s", t)
		}
		_, e := ex.elemMap(st, et, cs[0])
		return ex.sliceSeq(e, x)
	case PtrV:
		return ex.load(st, x).(*Term)
	}
	unsup("content %T %s", v, t)
	return nil
}

func (ex *Exec) sliceSeq(e *Term, x SliceV) *Term {
	if x.Len.IsConst() && x.Len.Int.Sign() == 0 {
		return SEMPTY
	}
	s := SubSeq(Select(e, x.Arr), x.Off, Add(x.Off, x.Len))
	if k, ok := x.Len.ConstInt(); ok && k > 0 && k <= 8 && s.Op == "sub" && s.Args[0].Op == "upd" {
		vs := make([]*Term, k)
		for i := range vs {
			vs[i] = At(s, I(int64(i)))
		}
		return Lit(vs...)
	}
	return s
}

// newSlice allocates a backing array with the given content (one sequence per component).
func (ex *Exec) newSlice(st *State, et types.Type, contents []*Term, n *Term, exact bool) SliceV {
	r := ex.newRef(st)
	cp := n
	cs := flatten(et)
	var pad *Term
	if !exact {
		cp = ex.fresh("cap", SInt)
		cp.lo, cp.hi = big.NewInt(0), maxLen
		st.assume(Le(n, cp))
		pad = ex.fresh("pad", SSeq)
		st.assume(Eq(Len(pad), Sub(cp, n)))
	}
	for i, c := range cs {
		nm, e := ex.elemMap(st, et, c)
		ct := contents[i]
		if pad != nil {
			ct = Cat(ct, App("padof", SSeq, pad, I(int64(i))))
			if i == 0 {
				ct = Cat(contents[i], pad)
			} else {
				st.assume(Eq(Len(App("padof", SSeq, pad, I(int64(i)))), Sub(cp, n)))
			}
		}
		st.heap[nm] = Store(e, r, ct)
	}
	return SliceV{r, I(0), n, cp}
}

func (ex *Exec) newBytes(st *State, s *Term, exact bool) SliceV {
	return ex.newSlice(st, types.Typ[types.Uint8], []*Term{s}, Len(s), exact)
}

func (ex *Exec) allocObj(st *State, t types.Type) *Term {
	r := ex.newRef(st)
	ex.store(st, PtrV{Ref: r, Root: t}, zeroValue(t))
	return r
}

// ---- obligations ----

func (ex *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := ex.P.Fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, ex.P.Root+"/"); i >= 0 {
		f = f[i+len(ex.P.Root)+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (ex *Exec) check(st *State, goal *Term, kind, name string, p token.Pos, props []string) {
	if ex.trial > 0 {
		st.assume(goal)
		return
	}
	o := &Obl{Fn: ex.Key, Name: name, Kind: kind, Pos: ex.pos(p), Props: props, Goal: goal, Hyps: append([]*Term{}, st.pc...), Trace: st.trace}
	ex.mu.Lock()
	ex.obls = append(ex.obls, o)
	ex.mu.Unlock()
	ex.submit(o)
	st.assume(goal)
}

func (ex *Exec) submit(o *Obl) {
	job := newJob(o.Hyps, o.Goal)
	if len(job.qs) == 0 {
		o.Res = SolveResult{Status: "unsat", Solver: "simplifier"}
		return
	}
	ex.wg.Add(1)
	go func() {
		defer ex.wg.Done()
		t0 := time.Now()
		o.Res = job.run(ex.budget)
		o.Wall = time.Since(t0).Seconds()
	}()
}

// job: the queries of one obligation (one per conjunct), built up front so
// that term construction stays on one goroutine.
// alt, when present, is the same query over propagated hypotheses.
type qent struct {
	q   string
	alt *job
	orig *job
}

type job struct {
	qs   []qent
	noup bool
	splits int
}

func newJob(h []*Term, g *Term) *job {
	j := &job{}
	j.add(h, g)
	return j
}

func (j *job) add(h []*Term, g *Term) []*Term {
	if g == TRUE {
		return h
	}
	if g.Op == "and" {
		hh := append([]*Term{}, h...)
		for _, a := range g.Args {
			hh = j.add(hh, a)
		}
		return hh
	}
	for _, x := range h {
		if x == FALSE || x == g {
			return h
		}
	}
	if h2, g2, ok := goalStep(h, g); ok {
		if !j.noup {
			h3 := unitProp(h2)
			if !sameHyps(h2, h3) {
				// both ways: the sub-goals as they are, or after propagation
				a, b := &job{}, &job{noup: true}
				a.addUP(h, g)
				b.add(h2, g2)
				j.qs = append(j.qs, qent{alt: a, q: ""})
				j.qs[len(j.qs)-1].orig = b
				return append(h[:len(h):len(h)], g)
			}
		}
		j.add(h2, g2)
		return append(h[:len(h):len(h)], g)
	}
	q := qent{q: buildQuery(append(h[:len(h):len(h)], matchInst(h, g)...), g)}
	if !j.noup {
		if h3 := unitProp(h); !sameHyps(h, h3) {
			a := &job{noup: true}
			a.addUP(h, g)
			q.alt = a
		}
	}
	j.qs = append(j.qs, q)
	return append(h[:len(h):len(h)], g)
}

func sameHyps(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// addUP is add with propagation before every step.
func (j *job) addUP(h []*Term, g *Term) {
	j.noup = true
	if g == TRUE {
		return
	}
	h = unitProp(h)
	if g.Op == "and" {
		for _, a := range g.Args {
			j.addUP(h, a)
			h = append(h[:len(h):len(h)], a)
		}
		return
	}
	for _, x := range h {
		if x == FALSE || x == g {
			return
		}
	}
	if h2, g2, ok := goalStep(h, g); ok {
		j.addUP(h2, g2)
		return
	}
	// case split on a disjunction that hides a quantifier
	if j.splits < 3 {
		qc := map[*Term]bool{}
		for i, x := range h {
			if x.Op != "or" || len(x.Args) > 3 || !hasForall(x, qc) {
				continue
			}
			j.splits++
			for _, a := range x.Args {
				h2 := append([]*Term{}, h...)
				h2[i] = a
				if a.Op == "and" {
					h2[i] = a.Args[0]
					h2 = append(h2, a.Args[1:]...)
				}
				for _, b := range x.Args {
					if b != a && !hasForall(b, qc) && hasForall(a, qc) {
						h2 = append(h2, Not(b))
					}
				}
				j.addUP(h2, g)
			}
			j.splits--
			return
		}
	}
	j.qs = append(j.qs, qent{q: buildQuery(append(h[:len(h):len(h)], matchInst(h, g)...), g)})
}

var skolemN int64

// goalStep opens a quantified or disjunctive goal: universal variables become
// constants, at which the universal hypotheses are also instantiated.
func goalStep(h []*Term, g *Term) ([]*Term, *Term, bool) {
	if g.Op == "forall" {
		n := len(g.Args) - 1
		m := map[*Term]*Term{}
		var sks []*Term
		for _, v := range g.Args[:n] {
			s := Sym(fmt.Sprintf("sk!%d", atomic.AddInt64(&skolemN, 1)), v.Sort)
			m[v] = s
			sks = append(sks, s)
		}
		h2 := append([]*Term{}, h...)
		h2 = append(h2, instances(h, sks)...)
		g2 := Subst(g.Args[n], m)
		for _, t := range smallMods(g2, sks) {
			k, _ := t.Args[1].ConstInt()
			var cs []*Term
			for i := int64(0); i < k; i++ {
				cs = append(cs, Eq(t, I(i)))
			}
			h2 = append(h2, mk("or", SBool, "", nil, nil, cs, nil))
		}
		h2 = append(h2, rangeHints(g2, sks)...)
		return h2, g2, true
	}
	if g.Op == "not" && (g.Args[0].Op == "and" || g.Args[0].Op == "forall") {
		h2 := h[:len(h):len(h)]
		if g.Args[0].Op == "and" {
			h2 = append(h2, g.Args[0].Args...)
		} else {
			h2 = append(h2, g.Args[0])
		}
		return h2, FALSE, true
	}
	if g.Op == "=" && g.Args[0].Sort == SBool && hasForall(g, map[*Term]bool{}) {
		return h, mk("and", SBool, "", nil, nil, []*Term{Or(Not(g.Args[0]), g.Args[1]), Or(g.Args[0], Not(g.Args[1]))}, nil), true
	}
	if g.Op == "or" {
		// assumptions that are conjunctions or universally quantified
		var rest []*Term
		h2 := h[:len(h):len(h)]
		for _, a := range g.Args {
			if a.Op == "not" && (a.Args[0].Op == "and" || a.Args[0].Op == "forall") {
				if a.Args[0].Op == "and" {
					h2 = append(h2, a.Args[0].Args...)
				} else {
					h2 = append(h2, a.Args[0])
				}
				continue
			}
			rest = append(rest, a)
		}
		if len(rest) < len(g.Args) {
			return h2, Or(rest...), true
		}
		k := -1
		for i, a := range g.Args {
			if a.Op == "and" || a.Op == "forall" {
				k = i
				break
			}
		}
		if k < 0 {
			return nil, nil, false
		}
		h2 = append([]*Term{}, h...)
		for i, a := range g.Args {
			if i != k {
				h2 = append(h2, Not(a))
			}
		}
		return h2, g.Args[k], true
	}
	return nil, nil, false
}

// smallMods: terms sk mod c (c <= 8) of a goal; their values are enumerated.
func smallMods(g *Term, sks []*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "mod" && len(t.Args) == 2 {
			if c, ok := t.Args[1].ConstInt(); ok && c > 1 && c <= 8 {
				for _, s := range sks {
					if occurs(s, t) {
						out = append(out, t)
						break
					}
				}
			}
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(g)
	return out
}

// rangeHints: constants the goal confines to at most 8 integers are enumerated.
func rangeHints(g *Term, sks []*Term) []*Term {
	if g.Op != "or" {
		return nil
	}
	lo, hi := map[*Term]*big.Int{}, map[*Term]*big.Int{}
	var atom func(t *Term)
	atom = func(t *Term) {
		if t.Op == "and" {
			for _, a := range t.Args {
				atom(a)
			}
			return
		}
		if t.Op != "le0" {
			return
		}
		m, k := linOf(t.Args[0])
		if len(m) != 1 {
			return
		}
		for a, c := range m {
			if c.IsInt64() && c.Int64() == 1 {
				hi[a] = new(big.Int).Neg(k)
			} else if c.IsInt64() && c.Int64() == -1 {
				lo[a] = new(big.Int).Set(k)
			}
		}
	}
	for _, a := range g.Args {
		atom(Not(a))
	}
	var out []*Term
	for _, s := range sks {
		l, h := lo[s], hi[s]
		if l == nil || h == nil {
			continue
		}
		d := new(big.Int).Sub(h, l)
		if !d.IsInt64() || d.Int64() < 1 || d.Int64() > 7 {
			continue
		}
		var cs []*Term
		for i := int64(0); i <= d.Int64(); i++ {
			cs = append(cs, Eq(s, IB(new(big.Int).Add(l, big.NewInt(i)))))
		}
		cs = append(cs, Lt(s, IB(l)), Gt(s, IB(h)))
		out = append(out, mk("or", SBool, "", nil, nil, cs, nil))
	}
	return out
}

func instances(h []*Term, sks []*Term) []*Term {
	var out []*Term
	for _, x := range h {
		if x.Op != "forall" {
			continue
		}
		n := len(x.Args) - 1
		if n > 2 || n > len(sks) {
			continue
		}
		body := x.Args[n]
		switch n {
		case 1:
			for _, s := range sks {
				if s.Sort == x.Args[0].Sort {
					out = append(out, Subst(body, map[*Term]*Term{x.Args[0]: s}))
				}
			}
		case 2:
			for _, s := range sks {
				for _, t := range sks {
					if s != t && s.Sort == x.Args[0].Sort && t.Sort == x.Args[1].Sort {
						out = append(out, Subst(body, map[*Term]*Term{x.Args[0]: s, x.Args[1]: t}))
					}
				}
			}
		}
		if len(out) > 200 {
			break
		}
	}
	return out
}

func (j *job) run(budget time.Duration) SolveResult {
	return j.runMode(context.Background(), budget, false)
}

// runMode: quick tries one solver with a short limit only.
func (j *job) runMode(ctx context.Context, budget time.Duration, quick bool) SolveResult {
	r := SolveResult{Status: "unsat", Solver: "simplifier"}
	tot := time.Duration(0)
	for _, e := range j.qs {
		switch {
		case e.orig != nil:
			r = race(ctx, e.orig, e.alt, budget, quick)
		case e.alt != nil:
			r = race(ctx, &job{qs: []qent{{q: e.q}}}, e.alt, budget, quick)
		default:
			dumpQuery(e.q)
			r = solveText(ctx, e.q, budget, quick)
			if r.Status != "unsat" {
				r.Query = e.q
			}
		}
		tot += r.Dur
		if r.Status != "unsat" {
			break
		}
	}
	r.Dur = tot
	return r
}

// race runs two ways of proving the same goal; the first success counts.
func race(ctx context.Context, a, b *job, budget time.Duration, quick bool) SolveResult {
	var last SolveResult
	for _, q := range []bool{true, false} {
		if quick && !q {
			break
		}
		c, cancel := context.WithCancel(ctx)
		ch := make(chan SolveResult, 2)
		for _, j := range []*job{a, b} {
			go func(j *job) { ch <- j.runMode(c, budget, q) }(j)
		}
		r := <-ch
		if r.Status != "unsat" {
			r2 := <-ch
			if r2.Status == "unsat" || r2.Status == "sat" && r.Status != "sat" {
				r = r2
			}
		}
		cancel()
		if r.Status == "unsat" {
			return r
		}
		last = r
	}
	return last
}

// SolveNow proves hyps |= goal synchronously.
func SolveNow(h []*Term, g *Term, budget time.Duration) SolveResult {
	return newJob(h, g).run(budget)
}

func (ex *Exec) nonnil(st *State, r *Term, p token.Pos, what string) {
	if r.IsConst() && r.Int.Sign() != 0 {
		return
	}
	if _, ok := freshRef(r); ok {
		return
	}
	g := Not(Eq(r, I(0)))
	if g == TRUE || st.known[g] {
		return
	}
	ex.check(st, g, "nil-deref", "non-nil "+what, p, nil)
}

// feasible reports whether cond may hold in st (quick check).
func (ex *Exec) feasible(st *State, cond *Term) bool {
	if cond == FALSE {
		return false
	}
	if cond == TRUE {
		return true
	}
	if st.known[cond] {
		return true
	}
	if st.known[Not(cond)] {
		return false
	}
	return !ex.quick.unsat(append(st.pc[:len(st.pc):len(st.pc)], cond))
}

func (ex *Exec) qprove(st *State, g *Term) bool {
	if g == TRUE || st.known[g] {
		return true
	}
	if g == FALSE {
		return false
	}
	return ex.quick.unsat(append(st.pc[:len(st.pc):len(st.pc)], Not(g)))
}

// ---- running functions ----

func (ex *Exec) runFunc(fn *ssa.Function, args []Value, free []Value, st *State, parent *Frame, site ssa.Instruction) []Outcome {
	if fn.Blocks == nil {
		unsup("no body: %s", fn)
	}
	d := 0
	for f := parent; f != nil; f = f.parent {
		d++
		if f.fn == fn && d > 0 {
			unsup("recursive call of %s without contract", fn)
		}
	}
	if d > 24 {
		unsup("inlining too deep at %s", fn)
	}
	ex.fidN++
	fr := &Frame{id: ex.fidN, fn: fn, parent: parent, loops: ex.P.loops(fn), unroll: map[*ssa.BasicBlock]int{}, free: free, site: site}
	for i, p := range fn.Params {
		st.env[envKey{fr.id, p}] = args[i]
	}
	for i, p := range fn.FreeVars {
		st.env[envKey{fr.id, p}] = free[i]
	}
	if parent == nil {
		ex.rootFr = fr
	} else if sp := ex.P.Specs.Fns[fnKey(fn)]; sp != nil {
		fr.entry = st.clone()
	}
	outs := ex.enterBlock(fr, fn.Blocks[0], nil, st)
	// drop the frame's bindings
	for i := range outs {
		if !outs[i].back && parent != nil {
			for k := range outs[i].st.env {
				if k.f == fr.id {
					delete(outs[i].st.env, k)
				}
			}
		}
	}
	return outs
}

func (ex *Exec) tick() {
	ex.paths++
	if ex.paths > 60000 {
		unsup("too many execution steps")
	}
	if !ex.deadline.IsZero() && time.Now().After(ex.deadline) {
		unsup("time budget for symbolic execution exhausted")
	}
}

func (ex *Exec) enterBlock(fr *Frame, b, from *ssa.BasicBlock, st *State) []Outcome {
	ex.tick()
	// back edge of an active invariant-loop?
	for al := fr.active; al != nil; al = al.up {
		if al.header == b && from != nil && al.body[from] {
			ex.bindPhis(fr, b, from, st)
			al.onBack(st, from)
			return nil
		}
		if al.trial && !al.body[b] {
			return nil
		}
	}
	if fr.loops.headers[b] {
		if from != nil && !fr.loops.body[b][from] || from == nil {
			// entering the loop
			return ex.enterLoop(fr, b, from, st)
		}
		// back edge while unrolling
		return ex.unrollStep(fr, b, from, st)
	}
	ex.bindPhis(fr, b, from, st)
	return ex.execFrom(fr, b, ex.firstNonPhi(b), st, from)
}

func (ex *Exec) firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func (ex *Exec) bindPhis(fr *Frame, b, from *ssa.BasicBlock, st *State) {
	if from == nil {
		return
	}
	idx := -1
	for i, p := range b.Preds {
		if p == from {
			idx = i
		}
	}
	var vs []Value
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vs = append(vs, ex.val(fr, st, ph.Edges[idx]))
	}
	for i, ph := range phis {
		st.env[envKey{fr.id, ph}] = vs[i]
	}
}

func (ex *Exec) set(fr *Frame, st *State, v ssa.Value, x Value) { st.env[envKey{fr.id, v}] = x }

func (ex *Exec) val(fr *Frame, st *State, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x.Value, x.Type())
	case *ssa.Function:
		return FuncV{Fn: x}
	case *ssa.Global:
		return PtrV{Ref: ex.P.globalRef(x), Root: x.Type().(*types.Pointer).Elem(), Path: nil}
	case *ssa.Builtin:
		return FuncV{Key: "builtin." + x.Name()}
	}
	r, ok := st.env[envKey{fr.id, v}]
	if !ok {
		unsup("unbound value %s in %s", v.Name(), fr.fn)
	}
	return r
}

func strTerm(s string) *Term {
	if len(s) <= 40 {
		var vs []*Term
		for i := 0; i < len(s); i++ {
			vs = append(vs, I(int64(s[i])))
		}
		return Lit(vs...)
	}
	return mk("strlit", SSeq, s, nil, nil, nil, nil)
}

func (ex *Exec) constVal(c constant.Value, t types.Type) Value {
	if c == nil {
		return zeroValue(t)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return B(constant.BoolVal(c))
		case u.Info()&types.IsString != 0:
			return strTerm(constant.StringVal(c))
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(c)
			if i, ok := constant.Int64Val(v); ok {
				return I(i)
			}
			b, ok := new(big.Int).SetString(v.ExactString(), 10)
			if ok {
				return IB(b)
			}
		case u.Info()&types.IsFloat != 0:
			return App("float!"+c.ExactString(), SInt)
		}
	case *types.Interface, *types.Pointer:
		return zeroValue(t)
	}
	unsup("constant %s of %s", c, t)
	return nil
}

func (ex *Exec) branchTrace(st *State, p token.Pos, taken bool) {
	s := ex.pos(p)
	if s == "" {
		return
	}
	if taken {
		s += " T"
	} else {
		s += " F"
	}
	st.trace = append(st.trace, s)
}

func (ex *Exec) execFrom(fr *Frame, b *ssa.BasicBlock, i int, st *State, from *ssa.BasicBlock) []Outcome {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.If:
			c := ex.val(fr, st, x.Cond).(*Term)
			var outs []Outcome
			if c == TRUE {
				return ex.enterBlock(fr, b.Succs[0], b, st)
			}
			if c == FALSE {
				return ex.enterBlock(fr, b.Succs[1], b, st)
			}
			ft := ex.feasible(st, c)
			ff := ex.feasible(st, Not(c))
			if ft && ff {
				s2 := st.clone()
				st.assume(c)
				ex.branchTrace(st, x.Cond.Pos(), true)
				outs = append(outs, ex.enterBlock(fr, b.Succs[0], b, st)...)
				s2.assume(Not(c))
				ex.branchTrace(s2, x.Cond.Pos(), false)
				outs = append(outs, ex.enterBlock(fr, b.Succs[1], b, s2)...)
				return outs
			}
			if ft {
				st.assume(c)
				return ex.enterBlock(fr, b.Succs[0], b, st)
			}
			if ff {
				st.assume(Not(c))
				return ex.enterBlock(fr, b.Succs[1], b, st)
			}
			return nil // infeasible path
		case *ssa.Jump:
			return ex.enterBlock(fr, b.Succs[0], b, st)
		case *ssa.Return:
			var rs []Value
			for _, r := range x.Results {
				rs = append(rs, ex.val(fr, st, r))
			}
			return []Outcome{{st: st, ret: rs, pos: x.Pos()}}
		case *ssa.Panic:
			return []Outcome{{st: st, panic: true, pval: ex.val(fr, st, x.X), pos: x.Pos()}}
		case *ssa.Call:
			outs := ex.call(fr, x, &x.Call, st)
			return ex.cont(fr, b, i, x, outs, from)
		case *ssa.Defer:
			d := &deferred{call: &x.Call, in: x}
			if !x.Call.IsInvoke() {
				d.fn = ex.val(fr, st, x.Call.Value)
			} else {
				d.fn = ex.val(fr, st, x.Call.Value)
			}
			for _, a := range x.Call.Args {
				d.args = append(d.args, ex.val(fr, st, a))
			}
			st.defers[fr.id] = append(st.defers[fr.id], d)
		case *ssa.RunDefers:
			ds := st.defers[fr.id]
			st.defers[fr.id] = nil
			outs := []Outcome{{st: st}}
			for k := len(ds) - 1; k >= 0; k-- {
				var nx []Outcome
				for _, o := range outs {
					if o.panic {
						nx = append(nx, o)
						continue
					}
					nx = append(nx, ex.callValue(fr, ds[k].in, ds[k].call, ds[k].fn, ds[k].args, o.st)...)
				}
				outs = nx
			}
			return ex.cont(fr, b, i, nil, outs, from)
		case *ssa.Go:
			ex.note("each goroutine is verified separately: what one writes is not seen by the others, except for state a lock protects")
			ex.goStmt(fr, x, st)
		default:
			if outs, forked := ex.instr(fr, in, st); forked {
				v, _ := in.(ssa.Value)
				return ex.cont(fr, b, i, v, outs, from)
			}
		}
	}
	return nil
}

// cont resumes after instruction i for every outcome of it.
func (ex *Exec) cont(fr *Frame, b *ssa.BasicBlock, i int, v ssa.Value, outs []Outcome, from *ssa.BasicBlock) []Outcome {
	var res []Outcome
	for _, o := range outs {
		if o.panic || o.back {
			res = append(res, o)
			continue
		}
		if v != nil {
			switch len(o.ret) {
			case 0:
				ex.set(fr, o.st, v, TupleV{})
			case 1:
				ex.set(fr, o.st, v, o.ret[0])
			default:
				ex.set(fr, o.st, v, TupleV{o.ret})
			}
		}
		res = append(res, ex.execFrom(fr, b, i+1, o.st, from)...)
	}
	return res
}

func one(st *State, vs ...Value) []Outcome { return []Outcome{{st: st, ret: vs}} }

// wrap gives the machine value of the exact integer x for type t.
func (ex *Exec) wrap(st *State, x *Term, t types.Type, op token.Token) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return x
	}
	l, h := Bounds(x)
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return x
	}
	inr := And(Le(IB(lo), x), Le(x, IB(hi)))
	if inr == TRUE || ex.qprove(st, inr) {
		return x
	}
	mod := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	if op == token.ADD || op == token.SUB {
		// at most one wrap
		return Ite(Gt(x, IB(hi)), Sub(x, IB(mod)), Ite(Lt(x, IB(lo)), Add(x, IB(mod)), x))
	}
	return Add(ModF(Sub(x, IB(lo)), IB(mod)), IB(lo))
}

func (ex *Exec) instr(fr *Frame, in ssa.Instruction, st *State) ([]Outcome, bool) {
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		r := ex.allocObj(st, t)
		ex.set(fr, st, x, r)
		ex.atAlloc(fr, st, t, r)
	case *ssa.BinOp:
		return ex.binop(fr, x, st)
	case *ssa.UnOp:
		return ex.unop(fr, x, st)
	case *ssa.ChangeType:
		ex.set(fr, st, x, ex.val(fr, st, x.X))
	case *ssa.ChangeInterface:
		ex.set(fr, st, x, ex.val(fr, st, x.X))
	case *ssa.Convert:
		ex.set(fr, st, x, ex.convert(fr, st, ex.val(fr, st, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		ex.set(fr, st, x, ex.convert(fr, st, ex.val(fr, st, x.X), x.X.Type(), x.Type()))
	case *ssa.MakeInterface:
		v := ex.val(fr, st, x.X)
		ex.exclDrop(st, v, x.X.Type())
		ex.set(fr, st, x, ex.mkIface(v, x.X.Type()))
	case *ssa.Extract:
		ex.set(fr, st, x, ex.val(fr, st, x.Tuple).(TupleV).V[x.Index])
	case *ssa.Field:
		ex.set(fr, st, x, ex.val(fr, st, x.X).(StructV).F[x.Field])
	case *ssa.FieldAddr:
		et := under(x.X.Type()).(*types.Pointer).Elem()
		p := ex.ptr(ex.val(fr, st, x.X), et)
		if len(p.Path) == 0 && p.Elem == nil {
			ex.nonnil(st, p.Ref, x.Pos(), describe(x.X))
		}
		q := p
		q.Path = append(append([]int{}, p.Path...), x.Field)
		ex.set(fr, st, x, q)
	case *ssa.Index:
		s := ex.val(fr, st, x.X)
		i := ex.val(fr, st, x.Index).(*Term)
		switch u := under(x.X.Type()).(type) {
		case *types.Basic: // string
			ex.bounds(st, i, Len(s.(*Term)), x.Pos())
			r := At(s.(*Term), i)
			st.assume(And(Ge(r, I(0)), Le(r, I(255))))
			ex.set(fr, st, x, r)
		case *types.Array:
			ex.bounds(st, i, I(u.Len()), x.Pos())
			ec := flatten(u.Elem())
			var es []*Term
			var ts []*Term
			ts = toTerms(s, x.X.Type())
			for k, c := range ec {
				es = append(es, unboxTerm(At(ts[k], i), c.sort))
			}
			v, _ := fromTerms(es, u.Elem())
			ex.typeFacts(st, v, u.Elem())
			ex.set(fr, st, x, v)
		}
	case *ssa.IndexAddr:
		i := ex.val(fr, st, x.Index).(*Term)
		switch u := under(x.X.Type()).(type) {
		case *types.Slice:
			s := ex.val(fr, st, x.X).(SliceV)
			ex.bounds(st, i, s.Len, x.Pos())
			ex.set(fr, st, x, PtrV{Ref: s.Arr, Root: u.Elem(), Elem: Add(s.Off, i)})
		case *types.Pointer:
			at := under(u.Elem()).(*types.Array)
			p := ex.ptr(ex.val(fr, st, x.X), u.Elem())
			ex.bounds(st, i, I(at.Len()), x.Pos())
			if p.Elem == nil && len(p.Path) == 0 && p.AIdx == nil {
				ex.nonnil(st, p.Ref, x.Pos(), describe(x.X))
				ex.set(fr, st, x, PtrV{Ref: p.Ref, Root: at.Elem(), Elem: i})
			} else {
				if p.AIdx != nil {
					unsup("nested array element address")
				}
				p.AIdx = i
				ex.set(fr, st, x, p)
			}
		}
	case *ssa.Slice:
		ex.set(fr, st, x, ex.slice(fr, x, st))
	case *ssa.MakeSlice:
		n := ex.val(fr, st, x.Len).(*Term)
		c := ex.val(fr, st, x.Cap).(*Term)
		ex.check(st, And(Ge(n, I(0)), Le(n, c), Le(c, IB(new(big.Int).Lsh(maxLen, 12)))), "make-size", "make with valid size", x.Pos(), nil)
		et := under(x.Type()).(*types.Slice).Elem()
		r := ex.newRef(st)
		for _, cc := range flatten(et) {
			nm, e := ex.elemMap(st, et, cc)
			st.heap[nm] = Store(e, r, Rep(boxTerm(zeroTerm(cc)), c))
		}
		ex.set(fr, st, x, SliceV{r, I(0), n, c})
	case *ssa.MakeMap:
		r := ex.newRef(st)
		mt := under(x.Type()).(*types.Map)
		dn, d, _, _, _ := ex.mapMaps(st, mt)
		_, inner := arrSplit(d.Sort)
		st.heap[dn] = Store(d, r, ConstArr(inner, FALSE))
		ex.set(fr, st, x, r)
	case *ssa.MakeChan:
		ex.set(fr, st, x, ex.newRef(st))
	case *ssa.MakeClosure:
		var bs []Value
		for _, b := range x.Bindings {
			bs = append(bs, ex.val(fr, st, b))
		}
		ex.set(fr, st, x, FuncV{Fn: x.Fn.(*ssa.Function), Bind: bs})
	case *ssa.Store:
		a := ex.val(fr, st, x.Addr)
		et := under(x.Addr.Type()).(*types.Pointer).Elem()
		p := ex.ptr(a, et)
		if len(p.Path) == 0 && p.Elem == nil {
			ex.nonnil(st, p.Ref, x.Pos(), describe(x.Addr))
		}
		ex.store(st, p, ex.val(fr, st, x.Val))
	case *ssa.MapUpdate:
		m := ex.val(fr, st, x.Map).(*Term)
		mt := under(x.Map.Type()).(*types.Map)
		ex.nonnil(st, m, x.Pos(), "map "+describe(x.Map))
		ex.mapUpdate(st, m, mt, ex.val(fr, st, x.Key), ex.val(fr, st, x.Value))
	case *ssa.Lookup:
		return ex.lookup(fr, x, st)
	case *ssa.TypeAssert:
		return ex.typeAssert(fr, x, st)
	case *ssa.Range:
		switch u := under(x.X.Type()).(type) {
		case *types.Map:
			ex.symN++
			k := fmt.Sprintf("visited!%d!%s", fr.id, x.Name())
			kc := flatten(u.Key())
			m := ex.val(fr, st, x.X).(*Term)
			st.iters[k] = ConstArr(arrSort(kc[0].sort, SBool), FALSE)
			ex.set(fr, st, x, IterV{Map: m, MT: u, Key: k})
		default:
			unsup("range over string")
		}
	case *ssa.Next:
		it := ex.val(fr, st, x.Iter).(IterV)
		ok := ex.fresh("next.ok", SBool)
		kt := it.MT.Key()
		k := ex.freshValue(st, "next.key", kt)
		kk := ex.mapKey(k, kt)
		_, d, _, _, _ := ex.mapMaps(st, it.MT)
		dom := Select(d, it.Map)
		vis := st.iters[it.Key]
		st.assume(Imp(ok, And(Select(dom, kk), Not(Select(vis, kk)))))
		bv := BVar("k", kk.Sort)
		st.assume(Imp(Not(ok), Forall([]*Term{bv}, [][]*Term{{Select(dom, bv)}}, Imp(Select(dom, bv), Select(vis, bv)))))
		st.iters[it.Key] = Ite(ok, Store(vis, kk, TRUE), vis)
		if st.iters[it.Key].Op == "ite" {
			// keep arrays simple: name it
			s := ex.fresh("vis", vis.Sort)
			st.assume(Imp(ok, Eq(s, Store(vis, kk, TRUE))))
			st.assume(Imp(Not(ok), Eq(s, vis)))
			st.iters[it.Key] = s
		}
		v := ex.mapGet(st, it.Map, it.MT, kk)
		ex.set(fr, st, x, TupleV{[]Value{ok, k, v}})
	case *ssa.Select:
		return ex.selectStmt(fr, x, st), true
	case *ssa.Send:
		ex.note("channel send is not modelled")
	case *ssa.SliceToArrayPointer:
		unsup("slice to array pointer")
	default:
		unsup("instruction %T", in)
	}
	return nil, false
}

func describe(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Parameter:
		return x.Name()
	case *ssa.UnOp:
		if f, ok := x.X.(*ssa.FieldAddr); ok {
			st := under(under(f.X.Type()).(*types.Pointer).Elem()).(*types.Struct)
			return describe(f.X) + "." + st.Field(f.Field).Name()
		}
		return describe(x.X)
	case *ssa.IndexAddr:
		return describe(x.X) + "[]"
	case *ssa.FieldAddr:
		st := under(under(x.X.Type()).(*types.Pointer).Elem()).(*types.Struct)
		return describe(x.X) + "." + st.Field(x.Field).Name()
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			return f.Name() + "()"
		}
	case *ssa.Phi:
		return x.Comment
	case *ssa.Extract:
		return describe(x.Tuple)
	case *ssa.TypeAssert:
		return describe(x.X) + ".(" + typeKey(x.AssertedType) + ")"
	case *ssa.Global:
		return x.Name()
	}
	return "value of type " + typeKey(v.Type())
}

func (ex *Exec) bounds(st *State, i, n *Term, p token.Pos) {
	g := And(Ge(i, I(0)), Lt(i, n))
	if g == TRUE {
		return
	}
	ex.check(st, g, "bounds", "index in range", p, nil)
}

func (ex *Exec) selectStmt(fr *Frame, x *ssa.Select, st *State) []Outcome {
	n := len(x.States)
	var outs []Outcome
	lim := n
	if !x.Blocking {
		lim = n + 1
	}
	for k := 0; k < lim; k++ {
		s := st.clone()
		idx := int64(k)
		if k == n {
			idx = -1
		}
		tv := []Value{I(idx), ex.fresh("recvok", SBool)}
		for j, c := range x.States {
			if c.Dir == types.RecvOnly {
				_ = j
				et := under(c.Chan.Type()).(*types.Chan).Elem()
				tv = append(tv, ex.freshValue(s, "recv", et))
			}
		}
		outs = append(outs, Outcome{st: s, ret: []Value{TupleV{tv}}})
	}
	return outs
}

func (ex *Exec) mkIface(v Value, t types.Type) Value {
	ts := toTerms(v, t)
	tag := tagOf(t)
	var val *Term
	switch len(ts) {
	case 1:
		val = boxTerm(ts[0])
	case 0:
		val = I(0)
	default:
		val = App("box!"+typeKey(t), SInt, ts...)
	}
	return IfaceV{Tag: tag, Val: val, Dyn: t, DynV: v}
}

func (ex *Exec) unIface(st *State, v IfaceV, t types.Type) Value {
	if v.Dyn != nil && types.Identical(v.Dyn, t) {
		return v.DynV
	}
	cs := flatten(t)
	var ts []*Term
	if len(cs) == 1 {
		ts = []*Term{unboxTerm(v.Val, cs[0].sort)}
	} else {
		if v.Val.Op == "app" && v.Val.Name == "box!"+typeKey(t) {
			ts = v.Val.Args
		} else {
			for i, c := range cs {
				ts = append(ts, App(fmt.Sprintf("unbox!%s!%d", typeKey(t), i), c.sort, v.Val))
			}
			if len(ts) > 0 {
				st.assume(Imp(Eq(v.Tag, tagOf(t)), Eq(v.Val, App("box!"+typeKey(t), SInt, ts...))))
			}
		}
	}
	r, _ := fromTerms(ts, t)
	return r
}

func (ex *Exec) typeAssert(fr *Frame, x *ssa.TypeAssert, st *State) ([]Outcome, bool) {
	v := ex.val(fr, st, x.X).(IfaceV)
	t := x.AssertedType
	var ok *Term
	var res Value
	if it, isI := under(t).(*types.Interface); isI {
		// to interface: tag's method set
		if v.Dyn != nil {
			ok = B(types.Implements(v.Dyn, it))
		} else if types.AssignableTo(x.X.Type(), t) {
			ok = Not(Eq(v.Tag, I(0)))
		} else {
			ok = And(Not(Eq(v.Tag, I(0))), App("implements!"+typeKey(t), SBool, v.Tag))
		}
		res = v
	} else {
		ok = Eq(v.Tag, tagOf(t))
	}
	get := func(s *State) Value {
		if res != nil {
			return res
		}
		r := ex.unIface(s, v, t)
		ex.typeFacts(s, r, t)
		return r
	}
	if !x.CommaOk {
		ex.check(st, ok, "type-assert", "interface holds "+typeKey(t), x.Pos(), nil)
		ex.set(fr, st, x, get(st))
		return nil, false
	}
	if ok == TRUE || st.known[ok] {
		ex.set(fr, st, x, TupleV{[]Value{get(st), TRUE}})
		return nil, false
	}
	if ok == FALSE || st.known[Not(ok)] {
		ex.set(fr, st, x, TupleV{[]Value{zeroValue(t), FALSE}})
		return nil, false
	}
	ft := ex.feasible(st, ok)
	ff := ex.feasible(st, Not(ok))
	var outs []Outcome
	if ft {
		s := st.clone()
		s.assume(ok)
		outs = append(outs, Outcome{st: s, ret: []Value{get(s), TRUE}})
	}
	if ff {
		s := st.clone()
		s.assume(Not(ok))
		outs = append(outs, Outcome{st: s, ret: []Value{zeroValue(t), FALSE}})
	}
	return outs, true
}

func (ex *Exec) ifaceEq(a, b IfaceV) *Term {
	if a.Tag.IsConst() && a.Tag.Int.Sign() == 0 {
		return Eq(b.Tag, I(0))
	}
	if b.Tag.IsConst() && b.Tag.Int.Sign() == 0 {
		return Eq(a.Tag, I(0))
	}
	if a.Dyn != nil && b.Dyn != nil {
		if !types.Identical(a.Dyn, b.Dyn) {
			return FALSE
		}
		return ex.eqVal(a.DynV, b.DynV, a.Dyn)
	}
	return And(Eq(a.Tag, b.Tag), Eq(a.Val, b.Val))
}

func (ex *Exec) eqVal(a, b Value, t types.Type) *Term {
	switch x := a.(type) {
	case IfaceV:
		return ex.ifaceEq(x, b.(IfaceV))
	case StructV:
		r := TRUE
		s := under(t).(*types.Struct)
		for i := range x.F {
			r = And(r, ex.eqVal(x.F[i], b.(StructV).F[i], s.Field(i).Type()))
		}
		return r
	case SliceV:
		y := b.(SliceV)
		// only comparison with nil is possible
		if y.Arr.IsConst() {
			return Eq(x.Arr, I(0))
		}
		return Eq(y.Arr, I(0))
	}
	xs, ys := toTerms(a, t), toTerms(b, t)
	r := TRUE
	for i := range xs {
		r = And(r, Eq(xs[i], ys[i]))
	}
	return r
}

func (ex *Exec) binop(fr *Frame, x *ssa.BinOp, st *State) ([]Outcome, bool) {
	a, b := ex.val(fr, st, x.X), ex.val(fr, st, x.Y)
	t := x.X.Type()
	switch x.Op {
	case token.EQL, token.NEQ:
		// comparing an interface with a concrete value
		if ia, ok := a.(IfaceV); ok {
			if _, ok := b.(IfaceV); !ok {
				b = ex.mkIface(b, x.Y.Type())
			}
			a = ia
		} else if _, ok := b.(IfaceV); ok {
			a = ex.mkIface(a, x.X.Type())
			t = x.Y.Type()
		}
		if f, ok := a.(FuncV); ok {
			ex.set(fr, st, x, B((f.Fn == nil && f.Key == "") == (x.Op == token.EQL)))
			return nil, false
		}
		r := ex.eqVal(a, b, t)
		if x.Op == token.NEQ {
			r = Not(r)
		}
		ex.set(fr, st, x, r)
		return nil, false
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsup("binop %s on %T", x.Op, a)
	}
	if p.Sort == SSeq {
		switch x.Op {
		case token.ADD:
			r := Cat(p, q)
			st.assume(Le(Len(r), IB(maxLen)))
			ex.set(fr, st, x, r)
			return nil, false
		}
		// string ordering: uninterpreted total order
		ex.set(fr, st, x, App("strcmp"+x.Op.String(), SBool, p, q))
		return nil, false
	}
	var r *Term
	rt := x.Type()
	switch x.Op {
	case token.ADD:
		r = ex.wrap(st, Add(p, q), rt, x.Op)
	case token.SUB:
		r = ex.wrap(st, Sub(p, q), rt, x.Op)
	case token.MUL:
		r = ex.wrap(st, Mul(p, q), rt, x.Op)
	case token.LSS:
		r = Lt(p, q)
	case token.LEQ:
		r = Le(p, q)
	case token.GTR:
		r = Gt(p, q)
	case token.GEQ:
		r = Ge(p, q)
	case token.QUO, token.REM:
		ex.check(st, Not(Eq(q, I(0))), "div-zero", "divisor is not zero", x.Pos(), nil)
		lo, _ := Bounds(p)
		lq, _ := Bounds(q)
		if lo == nil || lo.Sign() < 0 {
			if ex.qprove(st, Ge(p, I(0))) {
				lo = big.NewInt(0)
			}
		}
		if lo != nil && lo.Sign() >= 0 && lq != nil && lq.Sign() > 0 {
			if x.Op == token.QUO {
				r = DivF(p, q)
			} else {
				r = ModF(p, q)
			}
		} else if q.IsConst() && q.Int.Sign() > 0 {
			// truncated division
			if x.Op == token.QUO {
				r = Ite(Ge(p, I(0)), DivF(p, q), Neg(DivF(Neg(p), q)))
			} else {
				r = Ite(Ge(p, I(0)), ModF(p, q), Neg(ModF(Neg(p), q)))
			}
		} else {
			r = ex.fresh("quo", SInt)
			ex.typeFacts(st, r, rt)
		}
	case token.SHL, token.SHR:
		return ex.shift(fr, x, p, q, st)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if p.Sort == SBool {
			switch x.Op {
			case token.AND:
				r = And(p, q)
			case token.OR:
				r = Or(p, q)
			default:
				unsup("bool op")
			}
			break
		}
		r = ex.bitop(st, x.Op, p, q, rt)
	default:
		unsup("binop %s", x.Op)
	}
	ex.set(fr, st, x, r)
	return nil, false
}

func pow2(k int64) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(k)) }

// single bit 2^k ?
func isPow2(v *big.Int) (int64, bool) {
	if v.Sign() <= 0 {
		return 0, false
	}
	k := v.BitLen() - 1
	return int64(k), v.Cmp(pow2(int64(k))) == 0
}

func (ex *Exec) bitop(st *State, op token.Token, p, q *Term, t types.Type) *Term {
	if p.IsConst() && !q.IsConst() && op != token.AND_NOT {
		p, q = q, p
	}
	lo, _, _ := intRange(t)
	nonneg := lo.Sign() == 0
	if !nonneg {
		l, _ := Bounds(p)
		nonneg = l != nil && l.Sign() >= 0 || ex.qprove(st, Ge(p, I(0)))
	}
	if p.IsConst() && q.IsConst() {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(p.Int, q.Int)
		case token.OR:
			r.Or(p.Int, q.Int)
		case token.XOR:
			r.Xor(p.Int, q.Int)
		case token.AND_NOT:
			r.AndNot(p.Int, q.Int)
		}
		return IB(r)
	}
	if q.IsConst() && q.Int.Sign() == 0 {
		if op == token.AND {
			return I(0)
		}
		return p
	}
	if q.IsConst() && nonneg {
		bit := func(k int64) *Term { return ModF(DivF(p, IB(pow2(k))), I(2)) }
		if op == token.AND_NOT {
			if k, ok := isPow2(q.Int); ok {
				return Sub(p, Scale(bit(k), pow2(k)))
			}
		}
		if k, ok := isPow2(new(big.Int).Add(q.Int, big.NewInt(1))); ok && op == token.AND {
			return ModF(p, IB(pow2(k)))
		}
		if k, ok := isPow2(q.Int); ok {
			switch op {
			case token.AND:
				return Scale(bit(k), pow2(k))
			case token.OR:
				if k < 8 && ex.P.Specs.Funcs["orbit"] != nil {
					if n, _ := intBits(under(t).(*types.Basic)); n == 8 && nonneg {
						r := App("orbit", SInt, p, q)
						ex.typeFacts(st, r, t)
						return r
					}
				}
				return Add(p, Scale(Sub(I(1), bit(k)), pow2(k)))
			case token.XOR:
				return Add(p, Scale(Sub(I(1), Scale(bit(k), big.NewInt(2))), pow2(k)))
			}
		}
		if op == token.AND && q.Int.Sign() > 0 && q.Int.BitLen() <= 64 {
			// sum of bits / bit runs
			r := I(0)
			k := 0
			for k < q.Int.BitLen() {
				if q.Int.Bit(k) == 0 {
					k++
					continue
				}
				j := k
				for j < q.Int.BitLen() && q.Int.Bit(j) == 1 {
					j++
				}
				r = Add(r, Scale(ModF(DivF(p, IB(pow2(int64(k)))), IB(pow2(int64(j-k)))), pow2(int64(k))))
				k = j
			}
			return r
		}
	}
	name := map[token.Token]string{token.AND: "band", token.OR: "bor", token.XOR: "bxor", token.AND_NOT: "bandnot"}[op]
	b := under(t).(*types.Basic)
	n, sg := intBits(b)
	r := App(fmt.Sprintf("%s%d%v", name, n, sg), SInt, p, q)
	ex.typeFacts(st, r, t)
	return r
}

func (ex *Exec) shift(fr *Frame, x *ssa.BinOp, p, q *Term, st *State) ([]Outcome, bool) {
	b := under(x.Type()).(*types.Basic)
	bits, signed := intBits(b)
	do := func(s *State, k int64) *Term {
		if x.Op == token.SHL {
			if k >= int64(bits) {
				return I(0)
			}
			v := Scale(p, pow2(k))
			return ex.wrap(s, v, x.Type(), token.MUL)
		}
		if k >= int64(bits) {
			k = int64(bits) - 1
			if !signed {
				return I(0)
			}
		}
		return DivF(p, IB(pow2(k)))
	}
	if k, ok := q.ConstInt(); ok {
		if k < 0 {
			ex.check(st, FALSE, "shift", "shift count is not negative", x.Pos(), nil)
			return nil, true
		}
		ex.set(fr, st, x, do(st, k))
		return nil, false
	}
	lo, _ := Bounds(q)
	if lo == nil || lo.Sign() < 0 {
		if _, unsig, _ := intRange(x.Y.Type()); unsig == nil || !ex.qprove(st, Ge(q, I(0))) {
			ex.check(st, Ge(q, I(0)), "shift", "shift count is not negative", x.Pos(), nil)
		}
	}
	// small symbolic range: fork
	if ex.qprove(st, Lt(q, I(64))) {
		var outs []Outcome
		for k := int64(0); k < 64; k++ {
			c := Eq(q, I(k))
			if !ex.feasible(st, c) {
				continue
			}
			s := st.clone()
			s.assume(c)
			outs = append(outs, Outcome{st: s, ret: []Value{do(s, k)}})
		}
		return outs, true
	}
	r := ex.fresh("shift", SInt)
	ex.typeFacts(st, r, x.Type())
	ex.set(fr, st, x, r)
	return nil, false
}

func (ex *Exec) unop(fr *Frame, x *ssa.UnOp, st *State) ([]Outcome, bool) {
	v := ex.val(fr, st, x.X)
	switch x.Op {
	case token.MUL:
		if g, ok := x.X.(*ssa.Global); ok {
			if gv, ok := ex.P.globalConst(ex, g); ok {
				ex.assumeConstArrs(st)
				ex.set(fr, st, x, gv)
				return nil, false
			}
		}
		et := under(x.X.Type()).(*types.Pointer).Elem()
		p := ex.ptr(v, et)
		if len(p.Path) == 0 && p.Elem == nil {
			ex.nonnil(st, p.Ref, x.Pos(), describe(x.X))
		}
		r := ex.load(st, p)
		if f, ok := r.(FuncV); ok && f.Fn == nil && f.Key == "" {
			pn, _ := pathName(p.Root, p.Path)
			f.Key = "field:" + typeKey(p.Root) + pn
			r = f
		}
		ex.set(fr, st, x, r)
	case token.NOT:
		ex.set(fr, st, x, Not(v.(*Term)))
	case token.SUB:
		ex.set(fr, st, x, ex.wrap(st, Neg(v.(*Term)), x.Type(), token.SUB))
	case token.XOR:
		lo, hi, _ := intRange(x.Type())
		if lo.Sign() == 0 {
			ex.set(fr, st, x, Sub(IB(hi), v.(*Term)))
		} else {
			ex.set(fr, st, x, Sub(I(-1), v.(*Term)))
		}
	case token.ARROW:
		et := under(x.X.Type()).(*types.Chan).Elem()
		r := ex.freshValue(st, "recv", et)
		ex.note("channel receive yields an arbitrary value")
		if x.CommaOk {
			ex.set(fr, st, x, TupleV{[]Value{r, ex.fresh("recvok", SBool)}})
		} else {
			ex.set(fr, st, x, r)
		}
	default:
		unsup("unop %s", x.Op)
	}
	return nil, false
}

func (ex *Exec) convert(fr *Frame, st *State, v Value, from, to types.Type) Value {
	fu, tu := under(from), under(to)
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	switch {
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		x := v.(*Term)
		lo, hi, _ := intRange(to)
		l, h := Bounds(x)
		fl, fh, _ := intRange(from)
		if l == nil {
			l = fl
		}
		if h == nil {
			h = fh
		}
		if l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
			return x
		}
		// same width signed/unsigned reinterpretation: one wrap at most
		w := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
		if new(big.Int).Sub(h, hi).Cmp(w) <= 0 && new(big.Int).Sub(lo, l).Cmp(w) <= 0 {
			return ex.wrap(st, x, to, token.ADD)
		}
		return ex.wrap(st, x, to, token.MUL)
	case fok && tok && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return v
	case fok && fb.Info()&types.IsString != 0:
		if s, ok := tu.(*types.Slice); ok && isByteElem(s.Elem()) {
			x := v.(*Term)
			return ex.newBytes(st, x, false)
		}
	case tok && tb.Info()&types.IsString != 0:
		if s, ok := fu.(*types.Slice); ok && isByteElem(s.Elem()) {
			return ex.content(st, v, from)
		}
		if fok && fb.Info()&types.IsInteger != 0 {
			return App("runestr", SSeq, v.(*Term))
		}
	case fok && tok:
		// floats and the like: opaque
		r := App("conv!"+typeKey(from)+"!"+typeKey(to), SInt, v.(*Term))
		return r
	}
	if types.Identical(fu, tu) {
		return v
	}
	unsup("conversion %s -> %s", from, to)
	return nil
}

func isByteElem(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (ex *Exec) slice(fr *Frame, x *ssa.Slice, st *State) Value {
	v := ex.val(fr, st, x.X)
	lo := I(0)
	if x.Low != nil {
		lo = ex.val(fr, st, x.Low).(*Term)
	}
	var hi, mx *Term
	if x.High != nil {
		hi = ex.val(fr, st, x.High).(*Term)
	}
	if x.Max != nil {
		mx = ex.val(fr, st, x.Max).(*Term)
	}
	switch u := under(x.X.Type()).(type) {
	case *types.Basic:
		s := v.(*Term)
		if hi == nil {
			hi = Len(s)
		}
		ex.check(st, And(Ge(lo, I(0)), Le(lo, hi), Le(hi, Len(s))), "bounds", "slice bounds in range", x.Pos(), nil)
		return SubSeq(s, lo, hi)
	case *types.Slice:
		s := v.(SliceV)
		if hi == nil {
			hi = s.Len
		}
		cp := s.Cap
		if mx != nil {
			ex.check(st, And(Le(hi, mx), Le(mx, s.Cap)), "bounds", "slice bounds in range", x.Pos(), nil)
			cp = mx
		}
		g := And(Ge(lo, I(0)), Le(lo, hi), Le(hi, s.Cap))
		if g != TRUE {
			ex.check(st, g, "bounds", "slice bounds in range", x.Pos(), nil)
		}
		return SliceV{s.Arr, Add(s.Off, lo), Sub(hi, lo), Sub(cp, lo)}
	case *types.Pointer:
		at := under(u.Elem()).(*types.Array)
		p := ex.ptr(v, u.Elem())
		n := I(at.Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		g := And(Ge(lo, I(0)), Le(lo, hi), Le(hi, mx), Le(mx, n))
		if g != TRUE {
			ex.check(st, g, "bounds", "slice bounds in range", x.Pos(), nil)
		}
		if p.Elem == nil && len(p.Path) == 0 {
			ex.nonnil(st, p.Ref, x.Pos(), describe(x.X))
			return SliceV{p.Ref, lo, Sub(hi, lo), Sub(mx, lo)}
		}
		// slice of an array embedded in an object: a read-only snapshot
		if !ex.P.readOnlySlice(x) {
			unsup("slice of an embedded array that may be written")
		}
		arr := ex.load(st, p).(*Term)
		s := ex.newSlice(st, at.Elem(), []*Term{arr}, n, true)
		return SliceV{s.Arr, lo, Sub(hi, lo), Sub(mx, lo)}
	}
	unsup("slice of %s", x.X.Type())
	return nil
}

// ---- maps ----

func (ex *Exec) mapUpdate(st *State, m *Term, mt *types.Map, k, v Value) {
	ex.exclDrop(st, v, mt.Elem())
	kk := ex.mapKey(k, mt.Key())
	dn, d, vn, vs, _ := ex.mapMaps(st, mt)
	st.heap[dn] = Store(d, m, Store(Select(d, m), kk, TRUE))
	ts := toTerms(v, mt.Elem())
	for i := range vn {
		st.heap[vn[i]] = Store(vs[i], m, Store(Select(vs[i], m), kk, ts[i]))
	}
}

func (ex *Exec) mapDelete(st *State, m *Term, mt *types.Map, k Value) {
	kk := ex.mapKey(k, mt.Key())
	dn, d, _, _, _ := ex.mapMaps(st, mt)
	st.heap[dn] = Store(d, m, Store(Select(d, m), kk, FALSE))
}

// mapGet: the value at a key known to be present
func (ex *Exec) mapGet(st *State, m *Term, mt *types.Map, kk *Term) Value {
	_, _, _, vs, _ := ex.mapMaps(st, mt)
	var ts []*Term
	for _, h := range vs {
		ts = append(ts, Select(Select(h, m), kk))
	}
	v, _ := fromTerms(ts, mt.Elem())
	return v
}

func (ex *Exec) lookup(fr *Frame, x *ssa.Lookup, st *State) ([]Outcome, bool) {
	if b, ok := under(x.X.Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s := ex.val(fr, st, x.X).(*Term)
		i := ex.val(fr, st, x.Index).(*Term)
		ex.bounds(st, i, Len(s), x.Pos())
		ex.set(fr, st, x, At(s, i))
		return nil, false
	}
	mt := under(x.X.Type()).(*types.Map)
	m := ex.val(fr, st, x.X).(*Term)
	k := ex.val(fr, st, x.Index)
	if cm, ok := ex.P.constMap(m); ok {
		return ex.constLookup(fr, x, cm, mt, k, st)
	}
	kk := ex.mapKey(k, mt.Key())
	_, d, _, _, _ := ex.mapMaps(st, mt)
	in := And(Not(Eq(m, I(0))), Select(Select(d, m), kk))
	emit := func(s *State, ok *Term, v Value) []Value {
		if x.CommaOk {
			return []Value{v, ok}
		}
		return []Value{v}
	}
	if in == TRUE || in == FALSE || st.known[in] || st.known[Not(in)] {
		t := in == TRUE || st.known[in]
		v := zeroValue(mt.Elem())
		if t {
			v = ex.mapGet(st, m, mt, kk)
			ex.typeFacts(st, v, mt.Elem())
		}
		r := emit(st, B(t), v)
		if len(r) == 1 {
			ex.set(fr, st, x, r[0])
		} else {
			ex.set(fr, st, x, TupleV{r})
		}
		return nil, false
	}
	// single boolean component: no fork needed
	vc := flatten(mt.Elem())
	if len(vc) == 1 && vc[0].sort == SBool && !x.CommaOk {
		ex.set(fr, st, x, And(in, ex.mapGet(st, m, mt, kk).(*Term)))
		return nil, false
	}
	var outs []Outcome
	if ex.feasible(st, in) {
		s := st.clone()
		s.assume(in)
		v := ex.mapGet(s, m, mt, kk)
		ex.typeFacts(s, v, mt.Elem())
		outs = append(outs, Outcome{st: s, ret: emit(s, TRUE, v)})
	}
	if ex.feasible(st, Not(in)) {
		s := st.clone()
		s.assume(Not(in))
		outs = append(outs, Outcome{st: s, ret: emit(s, FALSE, zeroValue(mt.Elem()))})
	}
	return outs, true
}

func (ex *Exec) constLookup(fr *Frame, x *ssa.Lookup, cm []constEntry, mt *types.Map, k Value, st *State) ([]Outcome, bool) {
	vc := flatten(mt.Elem())
	zero := toTerms(zeroValue(mt.Elem()), mt.Elem())
	in := FALSE
	res := append([]*Term{}, zero...)
	for _, e := range cm {
		c := ex.eqVal(k, e.K, mt.Key())
		in = Or(in, c)
		vt := toTerms(e.V, mt.Elem())
		for i := range vc {
			res[i] = Ite(c, vt[i], res[i])
		}
	}
	v, _ := fromTerms(res, mt.Elem())
	if x.CommaOk {
		ex.set(fr, st, x, TupleV{[]Value{v, in}})
	} else {
		ex.set(fr, st, x, v)
	}
	return nil, false
}

func sortedStrings(m map[string]bool) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

func debugf(f string, a ...interface{}) {
	if os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

// matchInst instantiates universal hypotheses at ground terms that match their
// triggers modulo linear integer arithmetic (which E-matching cannot see).
func matchInst(h []*Term, g *Term) []*Term {
	var qs []*Term
	for _, x := range h {
		if x.Op == "forall" && len(x.Args) <= 3 && len(x.Trig) > 0 {
			qs = append(qs, x)
		}
	}
	if len(qs) == 0 {
		return nil
	}
	byHead := map[string][]*Term{}
	seen := map[*Term]bool{}
	var scan func(t *Term)
	scan = func(t *Term) {
		if seen[t] || t.bound {
			if t.bound && !seen[t] {
				seen[t] = true
				for _, a := range t.Args {
					scan(a)
				}
			}
			return
		}
		seen[t] = true
		if isPattern(t) {
			k := t.Op + ":" + t.Name
			byHead[k] = append(byHead[k], t)
		}
		for _, a := range t.Args {
			scan(a)
		}
	}
	scan(g)
	for _, x := range h {
		if x.Op != "forall" {
			scan(x)
		}
	}
	var out []*Term
	have := map[*Term]bool{}
	for _, x := range h {
		have[x] = true
	}
	for round := 0; round < 2; round++ {
		n0 := len(out)
		for _, q := range qs {
			n := len(q.Args) - 1
			for _, ts := range q.Trig {
				if len(ts) != 1 || !nonlinPat(ts[0]) {
					continue
				}
				for _, gt := range byHead[ts[0].Op+":"+ts[0].Name] {
					m := map[*Term]*Term{}
					if !matchTerm(ts[0], gt, m) || len(m) < n {
						continue
					}
					ok := true
					for _, v := range q.Args[:n] {
						if b, has := m[v]; !has || b.Sort != v.Sort {
							ok = false
						}
					}
					if !ok {
						continue
					}
					in := Subst(q.Args[n], m)
					if in == TRUE || have[in] {
						continue
					}
					have[in] = true
					out = append(out, in)
					if len(out) > 120 {
						return out
					}
				}
			}
		}
		for _, x := range out[n0:] {
			scan(x)
		}
	}
	return out
}

// nonlinPat: the trigger contains an arithmetic term over a bound variable
func nonlinPat(t *Term) bool {
	if t.Op == "lin" && t.bound {
		return true
	}
	for _, a := range t.Args {
		if nonlinPat(a) {
			return true
		}
	}
	return false
}

func matchTerm(p, g *Term, m map[*Term]*Term) bool {
	if p == g {
		return true
	}
	if !p.bound {
		return false
	}
	if p.Op == "bvar" {
		if b, ok := m[p]; ok {
			return b == g
		}
		m[p] = g
		return true
	}
	if p.Op == "lin" || g.Op == "lin" && p.Sort == SInt && p.Op == "lin" {
		if g.Sort != SInt {
			return false
		}
		pm, k := linOf(p)
		var uv *Term
		var uc *big.Int
		rest := IB(k)
		for a, c := range pm {
			if !a.bound {
				rest = Add(rest, Scale(a, c))
				continue
			}
			if b, ok := m[a]; ok {
				rest = Add(rest, Scale(b, c))
				continue
			}
			if a.Op != "bvar" || uv != nil {
				return false
			}
			uv, uc = a, c
		}
		if uv == nil {
			return rest == g
		}
		d := Sub(g, rest)
		if uc.CmpAbs(big.NewInt(1)) != 0 {
			return false
		}
		m[uv] = Scale(d, uc)
		return true
	}
	if p.Op != g.Op || p.Name != g.Name || p.Sort != g.Sort || len(p.Args) != len(g.Args) {
		return false
	}
	for i := range p.Args {
		if !matchTerm(p.Args[i], g.Args[i], m) {
			return false
		}
	}
	return true
}
