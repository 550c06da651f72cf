package main

// Axioms and lemmas written in the contract files.

import (
	"sync"
	"time"
)

// setupAxioms turns axiom and lemma statements into background facts.
func (P *Prog) setupAxioms() {
	ex := newExec(P, "axioms")
	st := emptyState(ex)
	for _, a := range P.Specs.Axioms {
		env := &SEnv{ex: ex, st: st, old: st, vars: map[string]SVal{}}
		t := env.boolT(a.E)
		a.T = t
		if a.Manual {
			continue
		}
		if a.In != "" {
			addAxiom(a.Name, []string{"defs_" + a.In}, t)
			continue
		}
		addAxiom(a.Name, appNames(t), t)
	}
}

func emptyState(ex *Exec) *State {
	st := &State{heap: map[string]*Term{}, env: map[envKey]Value{}, iters: map[string]*Term{}, known: map[*Term]bool{}, defers: map[int][]*deferred{}}
	ex.newAlloc(st)
	return st
}

// appNames: function names whose occurrence makes an axiom relevant. An
// axiom is relevant when one of its trigger functions occurs.
func appNames(t *Term) []string {
	m := map[string]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "app" {
			m[t.Name] = true
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	trig := false
	var trigs func(t *Term)
	seen2 := map[*Term]bool{}
	trigs = func(t *Term) {
		if seen2[t] {
			return
		}
		seen2[t] = true
		for _, ts := range t.Trig {
			for _, a := range ts {
				trig = true
				rec(a)
			}
		}
		for _, a := range t.Args {
			trigs(a)
		}
	}
	trigs(t)
	if !trig || len(m) == 0 {
		rec(t)
	}
	return sortedStrings(m)
}

// proveLemmas discharges every lemma from the axioms (and the lemmas stated
// before it), by induction on a natural-number variable when asked to.
func (P *Prog) proveLemmas(budget time.Duration) []OblRep {
	all := axioms
	defer func() { axioms = all }()
	type work struct {
		o   OblRep
		job *job
	}
	var ws []*work
	for _, a := range P.Specs.Axioms {
		if !a.Lemma {
			continue
		}
		// axioms available: everything stated before this lemma
		var av []*Axiom
		for _, x := range all {
			if x.Name == a.Name {
				break
			}
			av = append(av, x)
		}
		axioms = av
		for _, g := range a.goals() {
			if a.In != "" {
				g.hyps = append(g.hyps, App("defs_"+a.In, SBool, I(0)))
			}
			ws = append(ws, &work{OblRep{Name: a.Name + g.name, Kind: "lemma", Pos: a.Pos}, newJob(g.hyps, g.goal)})
		}
	}
	axioms = all
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for _, w := range ws {
		wg.Add(1)
		sem <- true
		go func(w *work) {
			defer func() { <-sem; wg.Done() }()
			r := w.job.run(budget)
			w.o.Solver, w.o.Secs, w.o.Status = r.Solver, r.Dur.Seconds(), "proved"
			if r.Status != "unsat" {
				w.o.Status = "failed"
				w.o.Out = r.Status
				w.o.Query = r.Query
			}
		}(w)
	}
	wg.Wait()
	var out []OblRep
	for _, w := range ws {
		out = append(out, w.o)
	}
	return out
}

type lemGoal struct {
	name string
	hyps []*Term
	goal *Term
}

// goals of a lemma: the statement with its outer variables replaced by
// constants; with "by n", base case and step.
func (a *AxiomDef) goals() []lemGoal {
	t := a.T
	if t.Op != "forall" {
		return []lemGoal{{"", nil, t}}
	}
	nv := len(t.Args) - 1
	m := map[*Term]*Term{}
	var iv, ic *Term
	for _, v := range t.Args[:nv] {
		c := Sym("lem!"+a.Name+"!"+v.Name, v.Sort)
		m[v] = c
		if a.By != "" && len(v.Name) > len(a.By) && v.Name[:len(a.By)] == a.By && v.Name[len(a.By)] == '?' {
			iv, ic = v, c
		}
	}
	body := t.Args[nv]
	if iv == nil {
		var sks []*Term
		for _, c := range m {
			sks = append(sks, c)
		}
		g := Subst(body, m)
		return []lemGoal{{"", rangeHints(g, sks), g}}
	}
	// induction on iv over the naturals; the other variables are generalised
	var others []*Term
	for _, v := range t.Args[:nv] {
		if v != iv {
			others = append(others, v)
		}
	}
	at := func(x *Term) *Term {
		mm := map[*Term]*Term{}
		for k, v := range m {
			mm[k] = v
		}
		mm[iv] = x
		return Subst(body, mm)
	}
	// hypothesis: the statement for iv = ic, all others
	ih := Forall(others, substTrig(t.Trig, iv, ic), Subst(body, map[*Term]*Term{iv: ic}))
	return []lemGoal{
		{" (base)", nil, at(I(0))},
		{" (step)", []*Term{Ge(ic, I(0)), ih}, at(AddI(ic, 1))},
		{" (negative)", []*Term{Lt(ic, I(0))}, at(ic)},
	}
}

func substTrig(tr [][]*Term, v, c *Term) [][]*Term {
	var out [][]*Term
	for _, ts := range tr {
		var x []*Term
		for _, t := range ts {
			x = append(x, Subst(t, map[*Term]*Term{v: c}))
		}
		out = append(out, x)
	}
	return out
}
