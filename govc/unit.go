package main

import (
	"fmt"
	"sync/atomic"
)

// unitProp simplifies hypotheses that hide a quantifier below a connective
// (such as A <==> forall ...) with the facts among the hypotheses, so that the
// quantifier surfaces; every step is an equivalence under the hypotheses.
func unitProp(h []*Term) []*Term {
	any := false
	qc := map[*Term]bool{}
	nested := func(x *Term) bool {
		return x.Op != "forall" && hasForall(x, qc)
	}
	for _, x := range h {
		if nested(x) {
			any = true
			break
		}
	}
	if !any {
		return h
	}
	known := map[*Term]bool{}
	consts := map[*Term]*Term{}
	var facts func(x *Term)
	facts = func(x *Term) {
		if x.Op == "and" {
			for _, a := range x.Args {
				facts(a)
			}
			return
		}
		known[x] = true
		if x.Op == "=" && x.Args[1].IsConst() {
			consts[x.Args[0]] = x.Args[1]
		}
	}
	for _, x := range h {
		facts(x)
	}
	out := append([]*Term{}, h...)
	for round := 0; round < 4; round++ {
		changed := false
		var add []*Term
		for i, x := range out {
			if !nested(x) {
				continue
			}
			y := x
			if x.Op == "not" && x.Args[0].Op == "forall" {
				y = skolemNeg(x.Args[0])
			} else {
				y = unitSimp(x, known, consts, qc, true)
			}
			if y == x {
				continue
			}
			changed = true
			delete(known, x)
			if y.Op == "and" {
				out[i] = y.Args[0]
				add = append(add, y.Args[1:]...)
			} else {
				out[i] = y
			}
			facts(y)
		}
		out = append(out, add...)
		if !changed {
			break
		}
	}
	return out
}

func skolemNeg(q *Term) *Term {
	n := len(q.Args) - 1
	m := map[*Term]*Term{}
	for _, v := range q.Args[:n] {
		m[v] = Sym(fmt.Sprintf("sk!%d", atomic.AddInt64(&skolemN, 1)), v.Sort)
	}
	return Not(Subst(q.Args[n], m))
}

// unitSimp rewrites the boolean structure of t; top: t itself is among the facts.
func unitSimp(t *Term, known map[*Term]bool, consts map[*Term]*Term, qc map[*Term]bool, top bool) *Term {
	if t.Sort != SBool || t == TRUE || t == FALSE {
		return t
	}
	if !top {
		if known[t] {
			return TRUE
		}
		if known[Not(t)] {
			return FALSE
		}
	}
	switch t.Op {
	case "not":
		return Not(unitSimp(t.Args[0], known, consts, qc, false))
	case "and":
		var as []*Term
		for _, a := range t.Args {
			as = append(as, unitSimp(a, known, consts, qc, top))
		}
		return And(as...)
	case "or":
		var as []*Term
		for _, a := range t.Args {
			b := unitSimp(a, known, consts, qc, false)
			if b == TRUE && !hasForall(t, qc) {
				return TRUE
			}
			as = append(as, b)
		}
		return Or(as...)
	case "=":
		if c := consts[t.Args[0]]; !top && c != nil && t.Args[1].IsConst() {
			return B(c.Int.Cmp(t.Args[1].Int) == 0)
		}
		if t.Args[0].Sort == SBool {
			return Eq(unitSimp(t.Args[0], known, consts, qc, false), unitSimp(t.Args[1], known, consts, qc, false))
		}
	}
	return t
}

func hasForall(t *Term, memo map[*Term]bool) bool {
	if t.Sort != SBool {
		return false
	}
	if v, ok := memo[t]; ok {
		return v
	}
	r := t.Op == "forall"
	if !r && (t.Op == "and" || t.Op == "or" || t.Op == "not" || t.Op == "=") {
		for _, a := range t.Args {
			if hasForall(a, memo) {
				r = true
				break
			}
		}
	}
	memo[t] = r
	return r
}
