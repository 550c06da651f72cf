package main

// Loops: unrolling while the condition is concrete, otherwise inference of
// an inductive invariant from candidates (Houdini).

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

const maxUnroll = 520

type loopKey struct {
	f int
	b *ssa.BasicBlock
}

// concreteHeader: the loop condition evaluates to a constant in st
func (ex *Exec) concreteHeader(fr *Frame, b *ssa.BasicBlock, st *State) bool {
	n := len(b.Instrs)
	iff, ok := b.Instrs[n-1].(*ssa.If)
	if !ok {
		return false
	}
	vals := map[ssa.Value]*Term{}
	get := func(v ssa.Value) *Term {
		if t, ok := vals[v]; ok {
			return t
		}
		if c, ok := v.(*ssa.Const); ok {
			t, _ := ex.constVal(c.Value, c.Type()).(*Term)
			return t
		}
		t, _ := st.env[envKey{fr.id, v}].(*Term)
		return t
	}
	for _, in := range b.Instrs[:n-1] {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			if v, ok := in.(ssa.Value); ok {
				delete(vals, v)
			}
		case *ssa.BinOp:
			p, q := get(x.X), get(x.Y)
			if p == nil || q == nil || p.Sort != SInt || q.Sort != SInt {
				vals[x] = nil
				continue
			}
			vals[x] = nil
			switch x.Op {
			case token.ADD:
				vals[x] = Add(p, q)
			case token.SUB:
				vals[x] = Sub(p, q)
			case token.LSS:
				vals[x] = Lt(p, q)
			case token.LEQ:
				vals[x] = Le(p, q)
			case token.GTR:
				vals[x] = Gt(p, q)
			case token.GEQ:
				vals[x] = Ge(p, q)
			case token.NEQ:
				vals[x] = Not(Eq(p, q))
			case token.EQL:
				vals[x] = Eq(p, q)
			}
		case *ssa.Call:
			vals[x] = nil
			if bl, ok := x.Call.Value.(*ssa.Builtin); ok && bl.Name() == "len" {
				switch y := ex.valSoft(fr, st, x.Call.Args[0]).(type) {
				case SliceV:
					vals[x] = y.Len
				case *Term:
					if y.Sort == SSeq {
						vals[x] = Len(y)
					}
				}
				continue
			}
			return false
		case *ssa.UnOp, *ssa.FieldAddr:
			vals[in.(ssa.Value)] = nil
		default:
			return false
		}
	}
	c := get(iff.Cond)
	return c == TRUE || c == FALSE
}

func (ex *Exec) valSoft(fr *Frame, st *State, v ssa.Value) Value {
	if r, ok := st.env[envKey{fr.id, v}]; ok {
		return r
	}
	return nil
}

func (ex *Exec) enterLoop(fr *Frame, b, from *ssa.BasicBlock, st *State) []Outcome {
	ex.bindPhis(fr, b, from, st)
	st.unrolled = copyUnroll(st.unrolled)
	st.unrolled[loopKey{fr.id, b}] = 0
	if ex.concreteHeader(fr, b, st) {
		return ex.execFrom(fr, b, ex.firstNonPhi(b), st, from)
	}
	return ex.loopInv(fr, b, st)
}

func copyUnroll(m map[loopKey]int) map[loopKey]int {
	n := make(map[loopKey]int, len(m)+1)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (ex *Exec) unrollStep(fr *Frame, b, from *ssa.BasicBlock, st *State) []Outcome {
	ex.bindPhis(fr, b, from, st)
	k := loopKey{fr.id, b}
	st.unrolled = copyUnroll(st.unrolled)
	st.unrolled[k]++
	if st.unrolled[k] < maxUnroll && ex.concreteHeader(fr, b, st) {
		return ex.execFrom(fr, b, ex.firstNonPhi(b), st, from)
	}
	return ex.loopInv(fr, b, st)
}

type cand struct {
	desc string
	mk   func(st *State) *Term // evaluated with phis bound in st
	dead bool
	spec bool
}

type mapFrame struct {
	name    string
	level   int // 0 nothing modified, 1 targets, 2 function's own objects, 3 everything
	targets []*Term
}

// loopInv handles a loop by an inductive invariant; phis hold entry values.
func (ex *Exec) loopInv(fr *Frame, b *ssa.BasicBlock, st *State) []Outcome {
	body := fr.loops.body[b]
	// write set of the body
	mods := map[string]bool{}
	var blocks []*ssa.BasicBlock
	for x := range body {
		blocks = append(blocks, x)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	hasDefer := false
	var iters []string
	for _, x := range blocks {
		for _, in := range x.Instrs {
			ex.P.instrMods(in, mods, map[*ssa.Function]bool{})
			switch y := in.(type) {
			case *ssa.Defer:
				hasDefer = true
			case *ssa.Next:
				if it, ok := ex.valSoft(fr, st, y.Iter).(IterV); ok {
					iters = append(iters, it.Key)
				}
			}
		}
	}
	if ex.Spec != nil {
		for _, c := range ex.Spec.Clauses {
			if c.Kind == "atalloc" || c.Kind == "atcall" {
				ghostNames(c.E.Args[0], mods)
			}
		}
	}
	if hasDefer {
		unsup("defer inside a loop")
	}
	names := map[string]bool{}
	for k := range mods {
		if strings.HasPrefix(k, "*") {
			for _, g := range ex.expandGhost(k) {
				names[g] = true
			}
			continue
		}
		names[k] = true
	}
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			phis = append(phis, ph)
		}
	}
	// accumulators (slices only this loop can see): two cases, nil or not
	var accs []*ssa.Phi
	for _, ph := range phis {
		if _, ok := under(ph.Type()).(*types.Slice); !ok {
			continue
		}
		sv, ok := st.env[envKey{fr.id, ph}].(SliceV)
		if !ok {
			continue
		}
		if !(sv.Arr.IsConst() && sv.Arr.Int.Sign() == 0 || st.excl[sv.Arr] || ex.soleOwner(ph, sv)) {
			continue
		}
		if ex.isAcc(fr, ph, b) {
			accs = append(accs, ph)
		}
	}
	entry := st.clone()
	frames := map[string]*mapFrame{}
	for n := range names {
		frames[n] = &mapFrame{name: n}
	}
	cands := ex.loopCands(fr, b, phis, entry, blocks)
	// which hold on entry
	for _, c := range cands {
		g := ex.tryCand(c, entry)
		if g == nil || !ex.prove(entry, g, 2*time.Second) {
			c.dead = true
			if c.spec {
				ex.logLoop("%s: candidate fails on entry: %s", ex.pos(blockPos(b)), c.desc)
			}
		}
	}
	entry.symMark = ex.symN
	nilCase := make([]bool, len(accs)) // entry value may be nil
	for i, ph := range accs {
		sv := entry.env[envKey{fr.id, ph}].(SliceV)
		nilCase[i] = sv.Arr.IsConst() && sv.Arr.Int.Sign() == 0
	}
	// assignments of nil / non-nil to accumulators
	var cases [][]bool
	var gen func(i int, cur []bool)
	gen = func(i int, cur []bool) {
		if i == len(accs) {
			cases = append(cases, append([]bool{}, cur...))
			return
		}
		gen(i+1, append(cur, false))
		if nilCase[i] {
			gen(i+1, append(cur, true))
		}
	}
	gen(0, nil)
	havoc := func(cs []bool) *State {
		s := entry.clone()
		ex.loopHavoc(fr, s, entry, phis, accs, cs, frames, iters)
		for _, c := range cands {
			if c.dead {
				continue
			}
			if g := ex.tryCand(c, s); g != nil {
				s.assume(g)
			}
		}
		return s
	}
	saveActive := fr.active
	defer func() { fr.active = saveActive }()
	rounds := 0
	for {
		rounds++
		if rounds > 40 {
			unsup("loop invariant inference did not converge at %s", ex.pos(blockPos(b)))
		}
		changed := false
		backs := 0
		for _, cs := range cases {
			s := havoc(cs)
			start := s.clone()
			al := &activeLoop{header: b, up: saveActive, body: body, trial: true}
			al.onBack = func(bs *State, _ *ssa.BasicBlock) {
				backs++
				if ex.checkBack(fr, bs, start, entry, cands, frames) {
					changed = true
				}
			}
			fr.active = al
			ex.trial++
			so := ex.oblN()
			ex.execFrom(fr, b, ex.firstNonPhi(b), s, nil)
			_ = so
			ex.trial--
			if changed {
				break
			}
		}
		if !changed {
			break
		}
	}
	var live []string
	for _, c := range cands {
		if !c.dead {
			live = append(live, c.desc)
		}
	}
	ex.logLoop("%s: %d rounds, invariant: %s", ex.pos(blockPos(b)), rounds, strings.Join(live, " && "))
	if ex.trial == 0 {
		ex.loopObl(b, live, frames)
	}
	var outs []Outcome
	for _, cs := range cases {
		s := havoc(cs)
		al := &activeLoop{header: b, up: saveActive, body: body}
		al.onBack = func(*State, *ssa.BasicBlock) {}
		fr.active = al
		outs = append(outs, ex.execFrom(fr, b, ex.firstNonPhi(b), s, nil)...)
	}
	return outs
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

func (ex *Exec) oblN() int { return len(ex.obls) }

func (ex *Exec) logLoop(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	ex.loopLog = append(ex.loopLog, s)
	debugf("LOOP %s", s)
}

// the inferred invariants count as discharged obligations (they were proved
// preserved by the solver in the last round)
func (ex *Exec) loopObl(b *ssa.BasicBlock, live []string, frames map[string]*mapFrame) {
	for _, d := range live {
		ex.obls = append(ex.obls, &Obl{Fn: ex.Key, Name: "loop invariant " + d, Kind: "loop-inv", Pos: ex.pos(blockPos(b)), Goal: TRUE, Res: SolveResult{Status: "unsat", Solver: "houdini"}})
	}
}

func (ex *Exec) tryCand(c *cand, st *State) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				if c.spec {
					ex.logLoop("candidate not applicable: %s (%s)", c.desc, u.msg)
				}
				t = nil
				return
			}
			panic(r)
		}
	}()
	return c.mk(st)
}

// isAcc: every back edge of the phi carries the result of appending to it
// (directly or through other phis of the loop body)
func (ex *Exec) isAcc(fr *Frame, ph *ssa.Phi, b *ssa.BasicBlock) bool {
	body := fr.loops.body[b]
	seen := map[ssa.Value]bool{}
	app := false
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if v == ssa.Value(ph) || seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Call:
			if bl, isB := x.Call.Value.(*ssa.Builtin); isB && bl.Name() == "append" {
				app = true
				if !ex.deadAfter(x.Call.Args[0], x, fr) {
					return false
				}
				return ok(x.Call.Args[0])
			}
		case *ssa.Phi:
			if !body[x.Block()] {
				return false
			}
			for _, e := range x.Edges {
				if !ok(e) {
					return false
				}
			}
			return true
		}
		return false
	}
	for i, p := range b.Preds {
		if body[p] && !ok(ph.Edges[i]) {
			return false
		}
	}
	return app
}

func (ex *Exec) soleOwner(ph *ssa.Phi, sv SliceV) bool {
	for i, p := range ph.Block().Preds {
		_ = p
		if m, ok := ph.Edges[i].(*ssa.MakeSlice); ok {
			n := 0
			for _, r := range *m.Referrers() {
				if _, ok := r.(*ssa.DebugRef); !ok {
					n++
				}
			}
			if n == 1 {
				_, f := freshRef(sv.Arr)
				return f
			}
		}
		// make with constant size is a slice of a new array
		if s, ok := ph.Edges[i].(*ssa.Slice); ok {
			if al, ok := s.X.(*ssa.Alloc); ok && len(*al.Referrers()) == 1 && len(*s.Referrers()) == 1 {
				_, f := freshRef(sv.Arr)
				return f
			}
		}
	}
	return false
}

func (ex *Exec) loopHavoc(fr *Frame, s, entry *State, phis, accs []*ssa.Phi, cs []bool, frames map[string]*mapFrame, iters []string) {
	aold := s.alloc()
	ex.newAlloc(s)
	var ns []string
	for n := range frames {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		h, ok := s.heap[n]
		if !ok {
			h, ok = ex.touch(s, n)
			if !ok {
				unsup("layout of %s unknown", n)
			}
			entry.heap[n] = h
		}
		f := frames[n]
		var ts []modTarget
		switch f.level {
		case 1:
			for _, t := range f.targets {
				ts = append(ts, modTarget{ref: t})
			}
		case 2:
			ts = append(ts, modTarget{own: true})
		case 3:
			ts = append(ts, modTarget{all: true})
		}
		if len(ts) == 0 && n != "G:rand" {
			keepMap(h)
			continue
		}
		ex.bumpMap(s, n, h, aold, ts)
	}
	for _, k := range iters {
		s.iters[k] = ex.fresh("visited", s.iters[k].Sort)
	}
	for _, ph := range phis {
		acc := -1
		for i, a := range accs {
			if a == ph {
				acc = i
			}
		}
		if acc >= 0 {
			if cs[acc] {
				ex.set(fr, s, ph, SliceV{I(0), I(0), I(0), I(0)})
				continue
			}
			et := under(ph.Type()).(*types.Slice).Elem()
			r := ex.newRef(s)
			n := ex.fresh("acclen", SInt)
			cp := ex.fresh("acccap", SInt)
			n.lo, n.hi, cp.lo, cp.hi = big.NewInt(0), maxLen, big.NewInt(0), maxLen
			s.assume(Le(n, cp))
			for _, cc := range flatten(et) {
				nm, e := ex.elemMap(s, et, cc)
				ct := ex.fresh("acc", SSeq)
				s.assume(Eq(Len(ct), cp))
				iv := BVar("i", SInt)
				at := mk("at", SInt, "", nil, nil, []*Term{ct, iv}, nil)
				if f := elemFact(at, cc, ltAlloc(s)); f != TRUE {
					s.assume(Forall([]*Term{iv}, [][]*Term{{at}}, f))
				}
				s.heap[nm] = Store(e, r, ct)
			}
			s.excl = exclAdd(s.excl, r)
			ex.set(fr, s, ph, SliceV{r, I(0), n, cp})
			continue
		}
		old := entry.env[envKey{fr.id, ph}]
		if f, ok := old.(FuncV); ok {
			_ = f
			unsup("function value changes in a loop")
		}
		if p, ok := old.(PtrV); ok {
			_ = p
			unsup("interior pointer changes in a loop")
		}
		ex.set(fr, s, ph, ex.freshValue(s, ph.Comment, ph.Type()))
	}
}

// checkBack drops candidates that a back edge does not re-establish.
func (ex *Exec) checkBack(fr *Frame, bs, start, entry *State, cands []*cand, frames map[string]*mapFrame) bool {
	changed := false
	// frames
	var ns []string
	for n := range frames {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		f := frames[n]
		if f.level == 3 {
			continue
		}
		if bs.heap[n] == start.heap[n] {
			continue
		}
		for {
			ok, bad := ex.frameHolds(bs, start, entry, n, f)
			if ok {
				break
			}
			changed = true
			if f.level <= 1 && len(bad) > 0 {
				f.level = 1
				f.targets = append(f.targets, bad...)
				if len(f.targets) > 12 {
					f.level = 2
				}
			} else if f.level < 2 {
				f.level = 2
			} else {
				f.level = 3
			}
			if f.level == 3 {
				break
			}
			// the assumptions of this run are gone; start over
			break
		}
	}
	if changed {
		ex.logLoop("frames changed")
		for _, n := range ns {
			if frames[n].level > 0 {
				debugf("   %s level %d %v", n, frames[n].level, frames[n].targets)
			}
		}
		return true
	}
	var gs []*Term
	var live []*cand
	for _, c := range cands {
		if c.dead {
			continue
		}
		g := ex.tryCand(c, bs)
		if g == nil {
			c.dead = true
			changed = true
			continue
		}
		if g == TRUE || bs.known[g] {
			continue
		}
		gs = append(gs, g)
		live = append(live, c)
	}
	for i, g := range gs {
		to := 2 * time.Second
		if live[i].spec {
			to = ex.loopBudget()
		}
		if !ex.prove(bs, g, to) {
			live[i].dead = true
			changed = true
			if live[i].spec {
				ex.logLoop("dropped: %s", live[i].desc)
				debugf("   goal %s", g)
			}
		}
	}
	return changed
}

func (ex *Exec) loopBudget() time.Duration {
	return 10 * time.Second
}

// frameHolds: everything allocated before the loop and not a target keeps
// its contents at this back edge; bad lists loop-invariant counterexamples.
func (ex *Exec) frameHolds(bs, start, entry *State, n string, f *mapFrame) (bool, []*Term) {
	h0, h1 := entry.heap[n], bs.heap[n]
	r := ex.fresh("r", SInt)
	r.gen = start.allocG.agen // r < entry.alloc() <= every later allocation bound
	aold := entry.alloc()
	q := bs.clone()
	q.assume(Lt(r, aold))
	switch f.level {
	case 1:
		for _, t := range f.targets {
			q.assume(Not(Eq(r, t)))
		}
	case 2:
		a1 := Sym("A!1", SInt)
		q.assume(Lt(r, a1))
		r.gen = 1
	}
	goal := Eq(Select(h1, r), Select(h0, r))
	if goal == TRUE || ex.prove(q, goal, 1500*time.Millisecond) {
		return true, nil
	}
	// collect written references
	var bad []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	inv := func(x *Term) bool { return !ex.newerThan(x, entry) }
	addRef := func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		for _, t := range f.targets {
			if t == x {
				return
			}
		}
		if inv(x) {
			bad = append(bad, x)
		}
	}
	walk = func(t *Term) {
		for t != h0 {
			switch {
			case t.Op == "store":
				addRef(t.Args[1])
				t = t.Args[0]
			case t.Op == "ite":
				walk(t.Args[1])
				walk(t.Args[2])
				return
			case t.fi != nil:
				for _, x := range t.fi.targets {
					addRef(x)
				}
				t = t.fi.base
			default:
				return
			}
		}
	}
	walk(h1)
	var real []*Term
	for _, x := range bad {
		// only references that may be old matter
		if oldCand := ex.feasible(bs, Lt(x, aold)); oldCand {
			real = append(real, x)
		}
	}
	return false, real
}

// newerThan: the term mentions a symbol created after the state entry
func (ex *Exec) newerThan(x *Term, entry *State) bool {
	mark := entry.symMark
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.Op == "sym" && t.symN > mark {
			return true
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(x)
}

// prove tries the quick solver, then a full query.
func (ex *Exec) prove(st *State, g *Term, to time.Duration) bool {
	if g == TRUE || st.known[g] {
		return true
	}
	if g == FALSE {
		// the path itself may be infeasible
		return ex.quick.unsat(st.pc) || SolveNow(st.pc, FALSE, to).Status == "unsat"
	}
	if g.Op == "and" {
		for _, a := range g.Args {
			if !ex.prove(st, a, to) {
				return false
			}
		}
		return true
	}
	if ex.qprove(st, g) {
		return true
	}
	t0 := time.Now()
	if ex.proveAppended(st, g, to) {
		return true
	}
	r := SolveNow(st.pc, g, to)
	debugf("PROVE %s %v %v", r.Status, time.Since(t0), to)
	if d := time.Since(t0); d > time.Second && os.Getenv("GOVC_PROF") != "" {
		fmt.Fprintf(os.Stderr, "PROF %.1fs %s %s pc=%d %.300s\n", d.Seconds(), r.Status, r.Solver, len(st.pc), g)
	}
	return r.Status == "unsat"
}

// ---- candidates ----

func (ex *Exec) loopCands(fr *Frame, b *ssa.BasicBlock, phis []*ssa.Phi, entry *State, blocks []*ssa.BasicBlock) []*cand {
	var out []*cand
	get := func(st *State, v ssa.Value) Value {
		if c, ok := v.(*ssa.Const); ok {
			return ex.constVal(c.Value, c.Type())
		}
		return st.env[envKey{fr.id, v}]
	}
	body := fr.loops.body[b]
	outside := func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
			return true
		case ssa.Instruction:
			return !body[x.Block()]
		}
		return false
	}
	// range over a map whose visited entries are removed
	for _, x := range blocks {
		for _, in := range x.Instrs {
			nx, ok := in.(*ssa.Next)
			if !ok {
				continue
			}
			it, ok := ex.valSoft(fr, entry, nx.Iter).(IterV)
			if !ok || it.Map == nil || x != b {
				continue
			}
			out = append(out, &cand{desc: "only entries not yet visited remain", mk: func(st *State) *Term {
				_, d, _, _, _ := ex.mapMaps(st, it.MT)
				vis := st.iters[it.Key]
				if vis == nil {
					return nil
				}
				kc := flatten(it.MT.Key())
				kv := BVar("k", kc[0].sort)
				return Forall([]*Term{kv}, [][]*Term{{Select(Select(d, it.Map), kv)}}, Imp(Select(Select(d, it.Map), kv), Not(Select(vis, kv))))
			}})
		}
	}
	for _, ph := range phis {
		ph := ph
		e0, ok := entry.env[envKey{fr.id, ph}].(*Term)
		if !ok || e0.Sort != SInt {
			continue
		}
		if bt, ok := under(ph.Type()).(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
			continue
		}
		nm := ph.Comment
		if nm == "" {
			nm = ph.Name()
		}
		out = append(out, &cand{desc: nm + " >= its initial value", mk: func(st *State) *Term { return Ge(get(st, ph).(*Term), e0) }})
		out = append(out, &cand{desc: nm + " <= its initial value", mk: func(st *State) *Term { return Le(get(st, ph).(*Term), e0) }})
		out = append(out, &cand{desc: nm + " >= 0", mk: func(st *State) *Term { return Ge(get(st, ph).(*Term), I(0)) }})
		out = append(out, &cand{desc: nm + " >= -1", mk: func(st *State) *Term { return Ge(get(st, ph).(*Term), I(-1)) }})
		// relations with other integer phis: constant difference
		for _, qh := range phis {
			qh := qh
			if qh == ph {
				continue
			}
			switch q0 := entry.env[envKey{fr.id, qh}].(type) {
			case *Term:
				if q0.Sort != SInt {
					continue
				}
				if bt, ok := under(qh.Type()).(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
					continue
				}
				d := Sub(e0, q0)
				if qh.Name() > ph.Name() {
					out = append(out, &cand{desc: nm + " - " + qh.Comment + " constant", mk: func(st *State) *Term {
						return Eq(Sub(get(st, ph).(*Term), get(st, qh).(*Term)), d)
					}})
				}
			case SliceV:
				// length of an accumulator
				for k := int64(0); k <= 1; k++ {
					k := k
					out = append(out, &cand{desc: fmt.Sprintf("len(%s) = %s - initial + %d", qh.Comment, nm, k), mk: func(st *State) *Term {
						return Eq(get(st, qh).(SliceV).Len, Add(Sub(get(st, ph).(*Term), e0), Add(q0.Len, I(0))))
					}})
					if k == 0 {
						continue
					}
					out = append(out, &cand{desc: fmt.Sprintf("len(%s) <= %s - initial", qh.Comment, nm), mk: func(st *State) *Term {
						return Le(get(st, qh).(SliceV).Len, Add(Sub(get(st, ph).(*Term), e0), q0.Len))
					}})
				}
			}
		}
		// bounds taken from comparisons in the loop with outside values
		for _, bl := range blocks {
			for _, in := range bl.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok {
					continue
				}
				switch bo.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
				default:
					continue
				}
				for _, o := range []ssa.Value{bo.X, bo.Y} {
					o := o
					if t, ok := under(o.Type()).(*types.Basic); !ok || t.Info()&types.IsInteger == 0 {
						continue
					}
					if !outside(o) {
						// len(x) of an outside value, or a field load
						if c, ok := o.(*ssa.Call); ok {
							if bi, isB := c.Call.Value.(*ssa.Builtin); isB && bi.Name() == "len" && outside(c.Call.Args[0]) {
								a := c.Call.Args[0]
								out = append(out, &cand{desc: nm + " <= len", mk: func(st *State) *Term {
									switch y := get(st, a).(type) {
									case SliceV:
										return Le(get(st, ph).(*Term), y.Len)
									case *Term:
										if y.Sort == SSeq {
											return Le(get(st, ph).(*Term), Len(y))
										}
									}
									return nil
								}})
							}
						}
						continue
					}
					for d := int64(-1); d <= 1; d++ {
						d := d
						out = append(out, &cand{desc: fmt.Sprintf("%s <= bound%+d", nm, d), mk: func(st *State) *Term {
							y, ok := get(st, o).(*Term)
							if !ok || y.Sort != SInt {
								return nil
							}
							return Le(get(st, ph).(*Term), AddI(y, d))
						}})
						out = append(out, &cand{desc: fmt.Sprintf("%s >= bound%+d", nm, d), mk: func(st *State) *Term {
							y, ok := get(st, o).(*Term)
							if !ok || y.Sort != SInt {
								return nil
							}
							return Ge(get(st, ph).(*Term), AddI(y, d))
						}})
					}
				}
			}
		}
	}
	for _, ph := range phis {
		ph := ph
		switch under(ph.Type()).(type) {
		case *types.Slice:
			if _, ok := entry.env[envKey{fr.id, ph}].(SliceV); ok {
				l0 := entry.env[envKey{fr.id, ph}].(SliceV).Len
				out = append(out, &cand{desc: "len(" + ph.Comment + ") constant", mk: func(st *State) *Term {
					v, ok := get(st, ph).(SliceV)
					if !ok {
						return nil
					}
					return Eq(v.Len, l0)
				}})
			}
		case *types.Pointer:
			out = append(out, &cand{desc: ph.Comment + " non-nil", mk: func(st *State) *Term {
				v, ok := get(st, ph).(*Term)
				if !ok {
					return nil
				}
				return Not(Eq(v, I(0)))
			}})
		case *types.Interface:
			out = append(out, &cand{desc: ph.Comment + " non-nil", mk: func(st *State) *Term {
				v, ok := get(st, ph).(IfaceV)
				if !ok {
					return nil
				}
				return Not(Eq(v.Tag, I(0)))
			}})
		}
		// unchanged
	}
	// non-nil facts for nilness of outside pointers are already in the path
	out = append(out, ex.specCands(fr, b, phis, entry, blocks, get)...)
	// dedupe by entry term and description
	seen := map[string]bool{}
	var res []*cand
	for _, c := range out {
		k := c.desc
		if t := ex.tryCandQuiet(c, entry); t != nil {
			k += fmt.Sprint(t.ID)
		} else {
			continue
		}
		if seen[k] && !c.spec {
			continue
		}
		seen[k] = true
		res = append(res, c)
	}
	return res
}

func (ex *Exec) tryCandQuiet(c *cand, st *State) *Term { return ex.tryCand(c, st) }

// hole: a value a loop clause may speak about; next: an index before its
// increment at the loop header
type hole struct {
	v    ssa.Value
	next bool
}

func (h hole) get(get func(*State, ssa.Value) Value, st *State) Value {
	x := get(st, h.v)
	if t, ok := x.(*Term); ok && h.next {
		return AddI(t, 1)
	}
	return x
}

// specCands instantiates the loop clauses of the contracts in force.
func (ex *Exec) specCands(fr *Frame, b *ssa.BasicBlock, phis []*ssa.Phi, entry *State, blocks []*ssa.BasicBlock, get func(*State, ssa.Value) Value) []*cand {
	var out []*cand
	use := func(sp *FnSpec, vars map[string]SVal, old *State) {
		for _, c := range sp.Clauses {
			if c.Kind != "loop" {
				continue
			}
			c := c
			// possible values of each hole
			var opts [][]hole
			for _, h := range c.Bind {
				t, s := ex.P.resolveType(h.Type)
				var vs []ssa.Value
				match := func(vt types.Type) bool {
					if t != nil {
						if types.Identical(vt, t) {
							return true
						}
						return false
					}
					switch s {
					case SInt:
						bt, ok := under(vt).(*types.Basic)
						return ok && bt.Info()&types.IsInteger != 0
					case SBool:
						bt, ok := under(vt).(*types.Basic)
						return ok && bt.Info()&types.IsBoolean != 0
					case SSeq:
						switch u := under(vt).(type) {
						case *types.Slice:
							return isByteElem(u.Elem())
						}
					}
					return false
				}
				for _, ph := range phis {
					if match(ph.Type()) {
						vs = append(vs, ph)
					}
				}
				// values defined outside and used inside
				seen := map[ssa.Value]bool{}
				for _, bl := range blocks {
					for _, in := range bl.Instrs {
						for _, op := range in.Operands(nil) {
							if *op == nil {
								continue
							}
							v := *op
							if seen[v] {
								continue
							}
							seen[v] = true
							if _, isC := v.(*ssa.Const); isC {
								continue
							}
							if in2, ok := v.(ssa.Instruction); ok && fr.loops.body[b][in2.Block()] {
								continue
							}
							if _, ok := entry.env[envKey{fr.id, v}]; !ok {
								continue
							}
							if match(v.Type()) && !sliceHas(vs, v) {
								vs = append(vs, v)
							}
						}
					}
				}
				if len(vs) > 6 {
					vs = vs[:6]
				}
				var hs []hole
				for _, v := range vs {
					if p, ok := v.(*ssa.Phi); ok && p.Comment == "rangeindex" {
						// the index of the next element
						hs = append(hs, hole{v, true})
						continue
					}
					hs = append(hs, hole{v, false})
				}
				// a variable that still has the name used in the clause
				// is the one meant; otherwise every value of the type is
				// tried
				for _, x := range hs {
					nm := x.v.Name()
					if p, ok := x.v.(*ssa.Phi); ok {
						nm = p.Comment
					}
					if nm == h.Name {
						hs = []hole{x}
						break
					}
				}
				opts = append(opts, hs)
			}
			var inst func(i int, cur []hole)
			n := 0
			inst = func(i int, cur []hole) {
				if n > 120 {
					return
				}
				if i == len(opts) {
					n++
					sel := append([]hole{}, cur...)
					d := c.Raw
					for k, h := range c.Bind {
						nm := sel[k].v.Name()
						if p, ok := sel[k].v.(*ssa.Phi); ok && p.Comment != "" {
							nm = p.Comment
						}
						d += " [" + h.Name + "=" + nm + "]"
					}
					out = append(out, &cand{desc: d, spec: true, mk: func(st *State) *Term {
						vv := map[string]SVal{}
						for k, v := range vars {
							vv[k] = v
						}
						for k, h := range c.Bind {
							x := sel[k].get(get, st)
							if x == nil {
								return nil
							}
							vv[h.Name] = SVal{V: x, T: sel[k].v.Type()}
							vv[h.Name+"@pre"] = SVal{V: sel[k].get(get, entry), T: sel[k].v.Type()}
						}
						env := &SEnv{ex: ex, st: st, old: old, vars: vv}
						env.entry = entry
						return env.boolT(c.E)
					}})
					return
				}
				for _, v := range opts[i] {
					dup := false
					for _, y := range cur {
						dup = dup || y == v
					}
					if dup {
						continue
					}
					inst(i+1, append(cur, v))
				}
			}
			inst(0, nil)
		}
	}
	if ex.Spec != nil {
		use(ex.Spec, ex.params, ex.pre)
	}
	for f := fr; f != nil && f.parent != nil; f = f.parent {
		if sp := ex.P.Specs.Fns[fnKey(f.fn)]; sp != nil && sp != ex.Spec {
			vars := map[string]SVal{}
			for i, p := range f.fn.Params {
				if v, ok := entry.env[envKey{f.id, p}]; ok {
					sv := SVal{V: v, T: p.Type()}
					vars[p.Name()] = sv
					if i < len(sp.Names) {
						vars[sp.Names[i]] = sv
					}
				}
			}
			use(sp, vars, f.entry)
		}
	}
	return out
}

func sliceHas(vs []ssa.Value, v ssa.Value) bool {
	for _, x := range vs {
		if x == v {
			return true
		}
	}
	return false
}

// proveAppended proves a ∀ over the indices of s ++ [x] ++ … by cases: an index
// of s, the index of x, and the indices outside.
func (ex *Exec) proveAppended(st *State, g *Term, to time.Duration) bool {
	if g.Op != "forall" || len(g.Args) != 2 || g.Args[0].Sort != SInt {
		return false
	}
	q, body := g.Args[0], g.Args[1]
	var base *Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if base != nil || seen[t] || t.Op == "forall" || t.Op == "exists" {
			return
		}
		seen[t] = true
		if t.Op == "at" && t.Args[1] == q && t.Args[0].Op == "cat" && len(t.Args[0].Args) >= 2 && !occurs(q, t.Args[0]) {
			for _, u := range t.Args[0].Args[:2] {
				if u.Op == "slit" && len(u.Args) == 1 {
					base = t.Args[0]
					return
				}
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(body)
	if base == nil {
		return false
	}
	ex.nskolem++
	k := Sym(fmt.Sprintf("idx!%d", ex.nskolem), SInt)
	x, elem := base.Args[0], base.Args[1]
	if x.Op == "slit" {
		x, elem = SEMPTY, x
	}
	n := Len(x)
	inst := func(i, v *Term) *Term {
		m := map[*Term]*Term{q: i}
		if v != nil {
			m[mk("at", SInt, "", nil, nil, []*Term{base, q}, nil)] = v
		}
		return Subst(body, m)
	}
	at := At(x, k)
	if x.Op == "sub" && x.Args[1] == I(0) {
		at = At(x.Args[0], k)
	}
	sub := func(g *Term, hs ...*Term) bool {
		s2 := st.clone()
		for _, h := range hs {
			s2.assume(h)
		}
		return ex.prove(s2, g, to)
	}
	// outside of the indices the guard alone should do
	guard := body
	if guard.Op == "or" {
		guard = FALSE
		for _, a := range body.Args {
			if !mentions(a, base) {
				guard = Or(guard, a)
			}
		}
	}
	out := Subst(guard, map[*Term]*Term{q: k})
	return sub(out, Lt(k, I(0))) && sub(out, Gt(k, n)) &&
		(x == SEMPTY || sub(inst(k, at), Ge(k, I(0)), Lt(k, n))) && sub(inst(n, elem.Args[0]))
}

func mentions(t, x *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}
