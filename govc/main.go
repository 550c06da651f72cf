package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type OblRep struct {
	Wall float64 `json:"-"`
	Name   string   `json:"name"`
	Kind   string   `json:"kind"`
	Pos    string   `json:"pos"`
	Props  []string `json:"props,omitempty"`
	Status string   `json:"status"` // proved failed
	Solver string   `json:"solver"`
	Secs   float64  `json:"secs"`
	Trace  []string `json:"trace,omitempty"`
	Goal   string   `json:"goal,omitempty"`
	Out    string   `json:"out,omitempty"`
	Query  string   `json:"query,omitempty"`
}

type FnReport struct {
	Key      string   `json:"key"`
	Pos      string   `json:"pos"`
	Obls     []OblRep `json:"obligations"`
	Proved   int      `json:"proved"`
	Failed   int      `json:"failed"`
	Paths    int      `json:"paths"`
	Error    string   `json:"error,omitempty"`
	Used     []string `json:"uses,omitempty"`
	Inlined  []string `json:"inlined,omitempty"`
	Models   []string `json:"models,omitempty"`
	Assume   []string `json:"assumptions,omitempty"`
	Loops    []string `json:"loops,omitempty"`
	Secs     float64  `json:"secs"`
	Skipped  string   `json:"skipped,omitempty"`
	Props    []string `json:"props,omitempty"`
	Trusted  bool     `json:"trusted,omitempty"`
	Clauses  []string `json:"clauses,omitempty"`
}

var execN int

func newExec(P *Prog, key string) *Exec {
	execN++
	ex := &Exec{P: P, Key: key, heap0: map[string]*Term{}, hinfo: map[string]heapInfo{}, params: map[string]SVal{},
		assum: map[string]bool{}, inlined: map[string]bool{}, used: map[string]bool{}, modelsUsed: map[string]bool{}, quick: newQuick(), id: execN}
	return ex
}

// verifyIn is verify with an end: a function that takes too long is reported
// as not decided (a failed obligation), never left without an answer.
func (P *Prog) verifyIn(key string, fn *ssa.Function, sp *FnSpec, viaIface bool, budget, limit time.Duration, end time.Time) *FnReport {
	t0 := time.Now()
	late := func(why string) *FnReport {
		pos := ""
		if p := P.Fset.Position(fn.Pos()); p.IsValid() {
			pos = fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, P.Root+"/"), p.Line)
		}
		return &FnReport{Key: key, Pos: pos, Failed: 1, Error: why, Secs: time.Since(t0).Seconds(),
			Obls: []OblRep{{Name: why, Kind: "unsupported", Pos: pos, Status: "failed", Out: "not decided"}}}
	}
	left := time.Until(end)
	if left <= 0 {
		return late("not attempted: the run's time is over")
	}
	wall := limit + 90*time.Second
	if left < wall {
		wall = left
	}
	ch := make(chan *FnReport, 1)
	go func() { ch <- P.verify(key, fn, sp, viaIface, budget, limit) }()
	select {
	case r := <-ch:
		return r
	case <-time.After(wall):
		return late("verification does not end in time")
	}
}

func (P *Prog) verify(key string, fn *ssa.Function, sp *FnSpec, viaIface bool, budget, limit time.Duration) *FnReport {
	ex := newExec(P, key)
	ex.Spec = sp
	ex.Root = fn
	ex.budget = budget
	ex.deadline = time.Now().Add(limit)
	start := time.Now()
	rep := &FnReport{Key: key, Pos: ex.pos(fn.Pos())}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					rep.Error = u.msg
				} else {
					rep.Error = fmt.Sprintf("internal error: %v", r)
					if os.Getenv("GOVC_DEBUG") != "" {
						debug.PrintStack()
					}
				}
			}
		}()
		ex.verifyFn(fn, sp, viaIface)
	}()
	ex.wg.Wait()
	ex.quick.close()
	for _, o := range ex.obls {
		r := OblRep{Name: o.Name, Kind: o.Kind, Pos: o.Pos, Props: o.Props, Solver: o.Res.Solver, Secs: o.Res.Dur.Seconds(), Wall: o.Wall}
		if o.Res.Status == "unsat" {
			r.Status = "proved"
			rep.Proved++
		} else {
			r.Status = "failed"
			rep.Failed++
			r.Trace = o.Trace
			r.Goal = o.Goal.String()
			if len(r.Goal) > 1500 {
				r.Goal = r.Goal[:1500]
			}
			r.Out = o.Res.Status
			r.Query = o.Res.Query
		}
		rep.Obls = append(rep.Obls, r)
	}
	if rep.Error != "" {
		rep.Failed++
		rep.Obls = append(rep.Obls, OblRep{Name: "function within the verifier's reach", Kind: "unsupported", Pos: rep.Pos, Status: "failed", Goal: rep.Error})
	}
	rep.Paths = ex.paths
	rep.Used = sortedStrings(ex.used)
	rep.Inlined = sortedStrings(ex.inlined)
	rep.Models = sortedStrings(ex.modelsUsed)
	rep.Assume = sortedStrings(ex.assum)
	rep.Loops = ex.loopLog
	rep.Secs = time.Since(start).Seconds()
	return rep
}

func (ex *Exec) verifyFn(fn *ssa.Function, sp *FnSpec, viaIface bool) {
	st := &State{heap: map[string]*Term{}, env: map[envKey]Value{}, iters: map[string]*Term{}, known: map[*Term]bool{}, defers: map[int][]*deferred{}}
	ex.newAlloc(st)
	var args []Value
	var ts []types.Type
	for i, p := range fn.Params {
		nm := p.Name()
		if nm == "" || nm == "_" {
			nm = fmt.Sprintf("arg%d", i)
		}
		v := ex.freshValue(st, nm, p.Type())
		if sv, ok := v.(SliceV); ok {
			if k, ok := fixedLen(sp, fn, i); ok {
				// the contract fixes the number of elements
				st.assume(Eq(sv.Len, I(k)))
				sv.Len = I(k)
				v = sv
			}
		}
		args = append(args, v)
		ts = append(ts, p.Type())
	}
	var free []Value
	for _, p := range fn.FreeVars {
		v := ex.freshValue(st, "free."+p.Name(), p.Type())
		if t, ok := v.(*Term); ok {
			st.assume(Gt(t, I(0)))
		}
		free = append(free, v)
	}
	names := paramNames(fn)
	sargs, sts := args, ts
	if viaIface {
		it, _ := ex.P.resolveType(sp.Iface)
		names = append([]string{"self"}, names[1:]...)
		sargs = append([]Value{ex.mkIface(args[0], ts[0])}, args[1:]...)
		sts = append([]types.Type{it}, ts[1:]...)
	} else if recv := fn.Signature.Recv(); recv != nil {
		ex.params["self"] = SVal{V: args[0], T: ts[0]}
	}
	for k, v := range ex.bindParams(sp, names, sargs, sts) {
		ex.params[k] = v
	}
	for i, p := range fn.FreeVars {
		et := p.Type()
		ex.params["free_"+p.Name()] = SVal{V: free[i], T: et}
	}
	ex.pre = st
	env := &SEnv{ex: ex, st: st, old: st, vars: ex.params}
	for _, c := range sp.Clauses {
		switch c.Kind {
		case "requires", "lockinv", "limit":
			st.assume(env.boolT(c.E))
		case "initially":
			// what package initialisation leaves in a variable nobody else writes
			for _, g := range exprGlobals(c.E) {
				goal := FALSE
				if v := ex.P.findGlobal(g); v != nil && ex.P.onlyInit(v) {
					goal = TRUE
				}
				ex.check(st, goal, "initialisation", g+" is written by package initialisation only", fn.Pos(), c.Prop)
			}
			st.assume(env.boolT(c.E))
			ex.note("package initialisation establishes " + clip(c.Raw))
		case "conforms":
			v := ex.params[c.Key]
			f, ok := v.V.(FuncV)
			if !ok || f.T == nil {
				unsup("contract %s: %s is not a function parameter", c.Pos, c.Key)
			}
			cs, pre := ex.confArgs(env, c)
			f.Conf = &Conf{Spec: cs, Pre: pre}
			f.Key = "conforms:" + cs.Key
			termMu2.Lock()
			funcVals[f.T] = f
			termMu2.Unlock()
			v.V = f
			ex.params[c.Key] = v
			for i := range args {
				if g, ok := args[i].(FuncV); ok && g.T == f.T {
					args[i] = f
				}
			}
		}
	}
	if d := sp.Opts["defs"]; d != "" {
		st.assume(App("defs_"+d, SBool, I(0)))
	}
	ex.pre = st.clone()
	env.st, env.old = ex.pre, ex.pre
	// vacuity of the precondition
	if len(sp.Clauses) > 0 {
		if r := SolveNow(st.pc, FALSE, time.Second); r.Status == "unsat" {
			ex.obls = append(ex.obls, &Obl{Fn: ex.Key, Name: "precondition is satisfiable", Kind: "vacuity", Pos: ex.pos(fn.Pos()), Goal: TRUE, Res: SolveResult{Status: "sat"}})
			return
		}
	}
	mayPanic := FALSE
	for _, c := range sp.Clauses {
		if c.Kind == "maypanic" || c.Kind == "panics" {
			mayPanic = Or(mayPanic, env.boolT(c.E))
		}
	}
	// evaluated early so that the maps exist in the pre-state
	targets := ex.modTargets(sp, &SEnv{ex: ex, st: ex.pre, old: ex.pre, vars: ex.params})
	outs := ex.runFunc(fn, args, free, st, nil, nil)
	normal := 0
	live := false
	for _, o := range outs {
		if o.back {
			continue
		}
		if o.panic {
			p := o.pos
			if !p.IsValid() {
				p = fn.Pos()
			}
			ex.check(o.st, mayPanic, "panic", "does not panic", p, nil)
			continue
		}
		normal++
		ex.atExit(fn, sp, o, targets)
		if !live {
			if r := SolveNow(o.st.pc, FALSE, time.Second); r.Status != "unsat" {
				live = true
			}
		}
	}
	if !live && mayPanic == FALSE && sp.Opts["noreturn"] == "" {
		ex.obls = append(ex.obls, &Obl{Fn: ex.Key, Name: "some execution returns", Kind: "vacuity", Pos: ex.pos(fn.Pos()), Goal: TRUE, Res: SolveResult{Status: "sat"}})
	}
}

// fixedLen: requires len(param) == constant
func fixedLen(sp *FnSpec, fn *ssa.Function, i int) (int64, bool) {
	names := map[string]bool{fn.Params[i].Name(): true}
	if i < len(sp.Names) {
		names = map[string]bool{sp.Names[i]: true}
	}
	for _, c := range sp.Clauses {
		if c.Kind != "requires" || c.E.Op != "bin" || c.E.Str != "==" {
			continue
		}
		a, b := c.E.Args[0], c.E.Args[1]
		if a.Op == "call" && a.Str == "len" && len(a.Args) == 1 && a.Args[0].Op == "id" && names[a.Args[0].Str] && b.Op == "int" {
			if k, err := strconv.ParseInt(b.Int, 10, 64); err == nil {
				return k, true
			}
		}
	}
	return 0, false
}

func (ex *Exec) atExit(fn *ssa.Function, sp *FnSpec, o Outcome, targets map[string][]modTarget) {
	st := o.st
	pos := o.pos
	if !pos.IsValid() {
		pos = fn.Pos()
	}
	vars := map[string]SVal{}
	for k, v := range ex.params {
		vars[k] = v
	}
	env := &SEnv{ex: ex, st: st, old: ex.pre, vars: vars}
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		v := SVal{V: o.ret[i], T: res.At(i).Type()}
		// keep statically known interface contents readable
		env.ret = append(env.ret, v)
		if n := res.At(i).Name(); n != "" && n != "_" {
			if _, dup := vars[n]; !dup {
				vars[n] = v
			}
		}
	}
	for _, c := range sp.Clauses {
		if c.Kind == "atexit" {
			ex.ghostAssign(env, c)
		}
	}
	for _, c := range sp.Clauses {
		if c.Kind == "panics" {
			penv := &SEnv{ex: ex, st: ex.pre, old: ex.pre, vars: ex.params}
			if g := penv.boolT(c.E); g != FALSE {
				ex.check(st, Not(g), "panic", "panics when "+clip(c.Raw), pos, nil)
			}
		}
	}
	for _, c := range sp.Clauses {
		if c.Kind == "ensures" || c.Kind == "lockinv" {
			ex.check(st, env.boolT(c.E), "postcondition", c.Name+": "+clip(c.Raw), pos, c.Prop)
		}
	}
	if sp.Opts["noframe"] == "" {
		ex.frameCheck(st, targets, pos)
	}
}

func (ex *Exec) frameCheck(st *State, targets map[string][]modTarget, pos token.Pos) {
	a1 := Sym("A!1", SInt)
	for _, n := range sortedKeys(st.heap) {
		h0, ok := ex.heap0[n]
		if !ok || h0 == st.heap[n] || n == "G:rand" {
			continue
		}
		h1 := st.heap[n]
		r := ex.fresh("frame", SInt)
		r.gen = 1
		hyp := []*Term{Lt(r, a1)}
		skip := false
		for _, t := range targets[n] {
			switch {
			case t.all:
				skip = true
			case t.cond != nil:
				hyp = append(hyp, Not(Subst(t.cond.c, map[*Term]*Term{t.cond.v: r})))
			default:
				hyp = append(hyp, Not(Eq(r, t.ref)))
			}
		}
		if skip {
			continue
		}
		g := Eq(Select(h1, r), Select(h0, r))
		if g == TRUE {
			ex.obls = append(ex.obls, &Obl{Fn: ex.Key, Name: "writes only what modifies allows: " + n, Kind: "frame", Pos: ex.pos(pos), Goal: TRUE, Res: SolveResult{Status: "unsat", Solver: "simplifier"}})
			continue
		}
		s := st.clone()
		for _, h := range hyp {
			s.assume(h)
		}
		// writes at references that are themselves targets are fine
		ex.check(s, g, "frame", "writes only what modifies allows: "+n, pos, nil)
	}
}

// ---- driver ----

type Report struct {
	Fns     []*FnReport        `json:"functions"`
	Lemmas  []OblRep           `json:"lemmas"`
	Trusted []string           `json:"trusted"`
	Solver  map[string]float64 `json:"solver_secs"`
	Queries map[string]int64   `json:"solver_queries"`
	Secs    float64            `json:"secs"`
	Missing []string           `json:"missing"`
}

func main() {
	root := flag.String("root", "/repo", "tree under verification")
	specs := flag.String("specs", "/verif/contracts", "contract directory")
	prop := flag.String("prop", "", "property")
	fnre := flag.String("fn", "", "regexp of function keys")
	out := flag.String("json", "", "report file")
	budget := flag.Duration("budget", 20*time.Second, "solver time per obligation")
	total := flag.Duration("total", 24*time.Hour, "time for the whole run; what is left then is reported as not decided")
	limit := flag.Duration("limit", 150*time.Second, "symbolic execution time per function")
	ext := flag.Bool("externals", false, "list external callees")
	list := flag.Bool("list", false, "list functions")
	deps := flag.Bool("deps", true, "also verify the contracts used")
	lemmas := flag.Bool("lemmas", true, "prove lemmas")
	verbose := flag.Bool("v", false, "verbose")
	flag.Parse()
	start := time.Now()
	P, err := loadProg(*root, "./...")
	if err != nil {
		fmt.Fprintln(os.Stderr, "govc:", err)
		os.Exit(3)
	}
	if *list {
		var ks []string
		for k, f := range P.Fns {
			if f.Pkg != nil && P.inRepo(f.Pkg.Pkg) {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, "\n"))
		return
	}
	if *ext {
		P.externals()
		return
	}
	P.Specs, err = parseSpecs(*specs)
	if err != nil {
		fmt.Fprintln(os.Stderr, "govc:", err)
		os.Exit(3)
	}
	P.setupAxioms()
	var re *regexp.Regexp
	if *fnre != "" {
		re = regexp.MustCompile(*fnre)
	}
	rep := &Report{Solver: map[string]float64{}, Queries: map[string]int64{}}
	done := map[string]bool{}
	var queue []string
	for _, k := range P.Specs.Order {
		sp := P.Specs.Fns[k]
		sel := false
		if re != nil {
			sel = re.MatchString(k)
		} else if *prop != "" {
			sel = sp.hasProp(*prop)
		} else {
			sel = true
		}
		if sel && !sp.Trusted && sp.Opts["functype"] == "" {
			queue = append(queue, k)
		}
	}
	trusted := map[string]bool{}
	for len(queue) > 0 {
		k := queue[0]
		queue = queue[1:]
		if done[k] {
			continue
		}
		done[k] = true
		sp := P.Specs.Fns[k]
		if sp == nil {
			continue
		}
		if sp.Opts["functype"] != "" {
			continue
		}
		if sp.Trusted {
			trusted[k] = true
			continue
		}
		var rs []*FnReport
		if sp.Iface != "" {
			m := P.ifaceMethod(k, sp)
			if m == nil {
				rep.Missing = append(rep.Missing, k)
				continue
			}
			it, _ := P.resolveType(sp.Iface)
			for _, f := range P.implementers(m, it) {
				rs = append(rs, P.verifyIn(fnKey(f)+" as "+k, f, sp, true, *budget, *limit, start.Add(*total)))
			}
		} else {
			f := P.Fns[k]
			if f == nil || f.Blocks == nil {
				rep.Missing = append(rep.Missing, k)
				continue
			}
			if sp.Opts["noverify"] != "" {
				continue
			}
			rs = append(rs, P.verifyIn(k, f, sp, false, *budget, *limit, start.Add(*total)))
		}
		for _, r := range rs {
			for _, c := range sp.Clauses {
				if c.Kind == "requires" || c.Kind == "ensures" || c.Kind == "maypanic" {
					r.Clauses = append(r.Clauses, c.Kind+" "+c.Raw)
				}
			}
			r.Props = sp.props()
			rep.Fns = append(rep.Fns, r)
			if *verbose || *out == "" {
				printRep(r, *verbose)
			}
			if *deps && (re == nil) {
				queue = append(queue, r.Used...)
			} else {
				for _, u := range r.Used {
					if P.Specs.Fns[u] != nil && P.Specs.Fns[u].Trusted {
						trusted[u] = true
					}
				}
			}
		}
	}
	if *lemmas {
		rep.Lemmas = P.proveLemmas(*budget)
		for _, l := range rep.Lemmas {
			if *out == "" && (l.Status != "proved" || *verbose) {
				fmt.Printf("lemma %s: %s (%s %.2fs)\n", l.Name, l.Status, l.Solver, l.Secs)
			}
		}
	}
	rep.Trusted = sortedStrings(trusted)
	solverTime.Range(func(k, v interface{}) bool {
		rep.Solver[k.(string)] = time.Duration(*v.(*int64)).Seconds()
		return true
	})
	solverCnt.Range(func(k, v interface{}) bool {
		rep.Queries[k.(string)] = *v.(*int64)
		return true
	})
	rep.Secs = time.Since(start).Seconds()
	fail := 0
	for _, r := range rep.Fns {
		fail += r.Failed
	}
	for _, l := range rep.Lemmas {
		if l.Status != "proved" {
			fail++
		}
	}
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*out, b, 0644)
	} else {
		n := 0
		for _, r := range rep.Fns {
			n += r.Proved
		}
		fmt.Printf("TOTAL functions %d proved %d failed %d missing %v in %.1fs\n", len(rep.Fns), n, fail, rep.Missing, rep.Secs)
	}
	if fail > 0 {
		os.Exit(1)
	}
}

func printRep(r *FnReport, verbose bool) {
	fmt.Printf("%-60s proved %d failed %d paths %d %.1fs\n", r.Key, r.Proved, r.Failed, r.Paths, r.Secs)
	for _, o := range r.Obls {
		if verbose && o.Wall > 4 {
			fmt.Printf("   slow %.1fs/%.1fs %s %s: %s %s\n", o.Wall, o.Secs, o.Pos, o.Kind, o.Name, o.Solver)
		}
		if o.Status == "failed" {
			fmt.Printf("   FAILED %s %s: %s [%s] %s\n", o.Pos, o.Kind, o.Name, o.Out, strings.Join(o.Trace, " ; "))
			if o.Kind == "unsupported" || verbose {
				fmt.Printf("       %s\n", o.Goal)
			}
		}
	}
	if verbose {
		for _, l := range r.Loops {
			fmt.Printf("   loop %s\n", l)
		}
		for _, l := range r.Assume {
			fmt.Printf("   assume %s\n", l)
		}
		fmt.Printf("   uses %v inlined %v models %v\n", r.Used, r.Inlined, r.Models)
	}
}

func (sp *FnSpec) props() []string {
	m := map[string]bool{}
	for _, p := range sp.Props {
		m[p] = true
	}
	for _, c := range sp.Clauses {
		for _, p := range c.Prop {
			m[p] = true
		}
	}
	return sortedStrings(m)
}

func (sp *FnSpec) hasProp(p string) bool {
	for _, q := range sp.props() {
		if q == p {
			return true
		}
	}
	return false
}

func (P *Prog) ifaceMethod(k string, sp *FnSpec) *types.Func {
	it, _ := P.resolveType(sp.Iface)
	if it == nil {
		return nil
	}
	i, ok := under(it).(*types.Interface)
	if !ok {
		return nil
	}
	nm := k[strings.LastIndex(k, ".")+1:]
	for j := 0; j < i.NumMethods(); j++ {
		if i.Method(j).Name() == nm {
			return i.Method(j)
		}
	}
	return nil
}

func (P *Prog) externals() {
	cnt := map[string][]string{}
	for _, fn := range P.allFns {
		if fn.Pkg == nil || !P.inRepo(fn.Pkg.Pkg) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c := ci.Common()
				k := ""
				if c.IsInvoke() {
					if c.Method.Pkg() != nil && P.inRepo(c.Method.Pkg()) {
						continue
					}
					k = methodKey(c.Method)
				} else if f := c.StaticCallee(); f != nil {
					if f.Blocks != nil && (f.Pkg == nil || P.inRepo(f.Pkg.Pkg)) {
						continue
					}
					k = fnKey(f)
				} else {
					continue
				}
				cnt[k] = append(cnt[k], fnKey(fn))
			}
		}
	}
	var ks []string
	for k := range cnt {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c := cnt[k]
		if len(c) > 4 {
			c = append(c[:4:4], "…")
		}
		fmt.Printf("%s  <- %s\n", k, strings.Join(c, ", "))
	}
}
