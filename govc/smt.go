package main

// Printing of verification conditions to SMT-LIB and the solver portfolio.

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// global axioms about uninterpreted functions, added to a query when
// all the functions they mention (key) occur in it.
type Axiom struct {
	Name  string
	Needs []string // uninterpreted function names, any of which triggers inclusion
	T     *Term
}

var axioms []*Axiom

func addAxiom(name string, needs []string, t *Term) {
	axioms = append(axioms, &Axiom{name, needs, t})
}

type printer struct {
	b      strings.Builder
	names  map[*Term]string
	refs   map[*Term]int
	syms   map[string]string
	apps   map[string][]string // name -> arg sorts + result
	lits   []*Term
	litSet map[*Term]bool
	useSeq bool
	appTs  []*Term
	seqEqs bool
}

func newPrinter() *printer {
	return &printer{names: map[*Term]string{}, refs: map[*Term]int{}, syms: map[string]string{}, apps: map[string][]string{}, litSet: map[*Term]bool{}}
}

func (p *printer) count(t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	if strings.Contains(t.Sort, SSeq) {
		p.useSeq = true
	}
	switch t.Op {
	case "sym":
		p.syms[t.Name] = t.Sort
	case "app":
		var s []string
		for _, a := range t.Args {
			s = append(s, a.Sort)
		}
		p.apps[t.Name] = append(s, t.Sort)
		p.appTs = append(p.appTs, t)
	case "slit", "strlit":
		if !t.bound && !p.litSet[t] {
			p.litSet[t] = true
			p.lits = append(p.lits, t)
		}
	}
	for _, a := range t.Args {
		p.count(a)
	}
	for _, ts := range t.Trig {
		for _, a := range ts {
			p.count(a)
		}
	}
}

func (p *printer) pr(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	s := p.pr1(t)
	if !t.bound && p.refs[t] > 1 && len(s) > 24 {
		n := "d!" + strconv.Itoa(t.ID)
		fmt.Fprintf(&p.b, "(define-fun %s () %s %s)\n", n, t.Sort, s)
		p.names[t] = n
		return n
	}
	if !t.bound {
		p.names[t] = s
	}
	return s
}

func (p *printer) list(op string, as []*Term) string {
	var b strings.Builder
	b.WriteByte('(')
	b.WriteString(op)
	for _, a := range as {
		b.WriteByte(' ')
		b.WriteString(p.pr(a))
	}
	b.WriteByte(')')
	return b.String()
}

func (p *printer) pr1(t *Term) string {
	switch t.Op {
	case "int":
		return bigSMT(t.Int)
	case "sym":
		return smtName(t.Name)
	case "bvar":
		return smtName(t.Name)
	case "true", "false":
		return t.Op
	case "sempty":
		return "sempty"
	case "lin":
		var parts []string
		for i, a := range t.Args {
			c := t.Coef[i]
			if c.IsInt64() && c.Int64() == 1 {
				parts = append(parts, p.pr(a))
			} else {
				parts = append(parts, "(* "+bigSMT(c)+" "+p.pr(a)+")")
			}
		}
		if t.Int.Sign() != 0 {
			parts = append(parts, bigSMT(t.Int))
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(+ " + strings.Join(parts, " ") + ")"
	case "le0":
		a := t.Args[0]
		if a.Op == "lin" {
			// move negative parts to the right for readability
			var l, r []string
			for i, x := range a.Args {
				c := a.Coef[i]
				s := p.pr(x)
				if c.Sign() > 0 {
					if c.IsInt64() && c.Int64() == 1 {
						l = append(l, s)
					} else {
						l = append(l, "(* "+c.String()+" "+s+")")
					}
				} else {
					if c.IsInt64() && c.Int64() == -1 {
						r = append(r, s)
					} else {
						r = append(r, "(* "+c.String()[1:]+" "+s+")")
					}
				}
			}
			if a.Int.Sign() > 0 {
				l = append(l, a.Int.String())
			} else if a.Int.Sign() < 0 {
				r = append(r, a.Int.String()[1:])
			}
			sum := func(x []string) string {
				if len(x) == 0 {
					return "0"
				}
				if len(x) == 1 {
					return x[0]
				}
				return "(+ " + strings.Join(x, " ") + ")"
			}
			return "(<= " + sum(l) + " " + sum(r) + ")"
		}
		return "(<= " + p.pr(a) + " 0)"
	case "=":
		if t.Args[0].Sort == SSeq {
			p.seqEqs = true
			return p.list("seqeq", t.Args)
		}
		return p.list("=", t.Args)
	case "not", "and", "or", "ite", "*", "div", "mod", "select", "store":
		return p.list(t.Op, t.Args)
	case "constarr":
		return "((as const " + t.Sort + ") " + p.pr(t.Args[0]) + ")"
	case "len":
		return p.list("slen", t.Args)
	case "at":
		return p.list("sat", t.Args)
	case "sub":
		return p.list("ssub", t.Args)
	case "upd":
		return p.list("supd", t.Args)
	case "rep":
		return p.list("srep", t.Args)
	case "cat":
		s := p.pr(t.Args[len(t.Args)-1])
		for i := len(t.Args) - 2; i >= 0; i-- {
			s = "(scat " + p.pr(t.Args[i]) + " " + s + ")"
		}
		return s
	case "slit", "strlit":
		if t.bound {
			s := "sempty"
			for i := len(t.Args) - 1; i >= 0; i-- {
				u := "(srep " + p.pr(t.Args[i]) + " 1)"
				if s == "sempty" {
					s = u
				} else {
					s = "(scat " + u + " " + s + ")"
				}
			}
			return s
		}
		return "lit!" + strconv.Itoa(t.ID)
	case "app":
		if len(t.Args) == 0 {
			return smtName(t.Name)
		}
		return p.list(smtName(t.Name), t.Args)
	case "forall":
		n := len(t.Args) - 1
		var vs []string
		for _, v := range t.Args[:n] {
			vs = append(vs, "("+smtName(v.Name)+" "+v.Sort+")")
		}
		body := p.pr(t.Args[n])
		if len(t.Trig) > 0 {
			var tr []string
			for _, ts := range t.Trig {
				var xs []string
				for _, a := range ts {
					xs = append(xs, p.pr(a))
				}
				tr = append(tr, ":pattern ("+strings.Join(xs, " ")+")")
			}
			body = "(! " + body + " " + strings.Join(tr, " ") + ")"
		}
		return "(forall (" + strings.Join(vs, " ") + ") " + body + ")"
	}
	panic("pr: " + t.Op)
}

const seqPrelude = `(declare-fun slen (BSq) Int)
(declare-fun sat (BSq Int) Int)
(declare-fun ssub (BSq Int Int) BSq)
(declare-fun supd (BSq Int Int) BSq)
(declare-fun scat (BSq BSq) BSq)
(declare-fun srep (Int Int) BSq)
(declare-fun sempty () BSq)
(declare-fun seqeq (BSq BSq) Bool)
(declare-fun hintb (Bool) Bool)
(assert (forall ((s BSq)) (! (>= (slen s) 0) :pattern ((slen s)))))
(assert (= (slen sempty) 0))
(assert (forall ((s BSq)) (! (=> (= (slen s) 0) (= s sempty)) :pattern ((slen s)))))
(assert (forall ((a BSq)) (! (= (scat a sempty) a) :pattern ((scat a sempty)))))
(assert (forall ((a BSq) (b BSq)) (! (= (slen (scat a b)) (+ (slen a) (slen b))) :pattern ((scat a b)))))
(assert (forall ((a BSq) (b BSq) (i Int)) (! (=> (and (<= 0 i) (< i (slen a))) (= (sat (scat a b) i) (sat a i))) :pattern ((sat (scat a b) i)) :pattern ((scat a b) (sat a i)))))
(assert (forall ((a BSq) (b BSq) (i Int)) (! (=> (<= (slen a) i) (= (sat (scat a b) i) (sat b (- i (slen a))))) :pattern ((sat (scat a b) i)))))
(assert (forall ((s BSq) (i Int) (j Int)) (! (= (slen (ssub s i j)) (ite (<= i j) (- j i) 0)) :pattern ((ssub s i j)))))
(assert (forall ((s BSq) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 k) (< k (- j i))) (= (sat (ssub s i j) k) (sat s (+ i k)))) :pattern ((sat (ssub s i j) k)))))
(assert (forall ((s BSq) (i Int) (v Int)) (! (= (slen (supd s i v)) (slen s)) :pattern ((supd s i v)))))
(assert (forall ((s BSq) (i Int) (v Int) (k Int)) (! (=> (or (not (= i k)) (and (<= 0 i) (< i (slen s)))) (= (sat (supd s i v) k) (ite (= i k) v (sat s k)))) :pattern ((sat (supd s i v) k)))))
(assert (forall ((v Int) (n Int)) (! (= (slen (srep v n)) (ite (< n 0) 0 n)) :pattern ((srep v n)))))
(assert (forall ((v Int) (n Int) (k Int)) (! (=> (and (<= 0 k) (< k n)) (= (sat (srep v n) k) v)) :pattern ((sat (srep v n) k)))))
(assert (forall ((a BSq) (b BSq)) (! (=> (seqeq a b) (= a b)) :pattern ((seqeq a b)))))
(assert (forall ((a BSq) (b BSq)) (! (=> (and (= (slen a) (slen b)) (forall ((i Int)) (! (=> (and (<= 0 i) (< i (slen a))) (= (sat a i) (sat b i))) :pattern ((sat a i)) :pattern ((sat b i))))) (seqeq a b)) :pattern ((seqeq a b)))))
`

// Query builds the SMT text asserting hyps and the negation of goal.
func buildQuery(hyps []*Term, goal *Term) string {
	p := newPrinter()
	all := append([]*Term{}, hyps...)
	ng := Not(goal)
	all = append(all, ng)
	for _, h := range all {
		p.count(h)
	}
	// axioms, to a fixpoint
	used := map[*Axiom]bool{}
	var axs []*Term
	var symT []*Term
	seenFact := map[*Term]bool{}
	for ch := true; ch; {
		ch = false
		for t := range p.refs {
			if t.Op != "sym" && (t.Op != "select" && t.Op != "at" || t.bound) || seenFact[t] {
				continue
			}
			seenFact[t] = true
			if facts := factsOf(t); len(facts) > 0 {
				symT = append(symT, t)
				for _, f := range facts {
					p.count(f)
				}
				ch = true
			}
		}
		for _, a := range axioms {
			if used[a] {
				continue
			}
			for _, n := range a.Needs {
				if _, ok := p.apps[n]; ok {
					used[a] = true
					ch = true
					axs = append(axs, a.T)
					p.count(a.T)
					break
				}
			}
		}
	}
	sort.Slice(symT, func(i, j int) bool { return symT[i].ID < symT[j].ID })
	for _, t := range symT {
		axs = append(axs, factsOf(t)...)
	}
	// bounds of symbols
	var head strings.Builder
	head.WriteString("(set-option :print-success false)\n(set-logic ALL)\n")
	if p.useSeq {
		head.WriteString("(declare-sort BSq 0)\n")
		head.WriteString(seqPrelude)
	}
	var sn []string
	for n := range p.syms {
		sn = append(sn, n)
	}
	sort.Strings(sn)
	for _, n := range sn {
		fmt.Fprintf(&head, "(declare-fun %s () %s)\n", smtName(n), p.syms[n])
	}
	var an []string
	for n := range p.apps {
		an = append(an, n)
	}
	sort.Strings(an)
	for _, n := range an {
		s := p.apps[n]
		fmt.Fprintf(&head, "(declare-fun %s (%s) %s)\n", smtName(n), strings.Join(s[:len(s)-1], " "), s[len(s)-1])
	}
	for _, l := range p.lits {
		fmt.Fprintf(&head, "(declare-fun lit!%d () BSq)\n", l.ID)
	}
	for _, l := range p.lits {
		if l.Op == "strlit" {
			fmt.Fprintf(&p.b, "(assert (= (slen lit!%d) %d))\n", l.ID, len(l.Name))
			continue
		}
		fmt.Fprintf(&p.b, "(assert (= (slen lit!%d) %d))\n", l.ID, len(l.Args))
		for i, a := range l.Args {
			s := p.pr(a)
			fmt.Fprintf(&p.b, "(assert (= (sat lit!%d %d) %s))\n", l.ID, i, s)
		}
	}
	strl := []string{}
	for _, l := range p.lits {
		if l.Op == "strlit" {
			strl = append(strl, "lit!"+strconv.Itoa(l.ID))
		}
	}
	if len(strl) > 1 {
		fmt.Fprintf(&p.b, "(assert (distinct %s))\n", strings.Join(strl, " "))
	}
	for _, h := range axs {
		s := p.pr(h)
		fmt.Fprintf(&p.b, "(assert %s)\n", s)
	}
	for _, h := range hyps {
		s := p.pr(h)
		fmt.Fprintf(&p.b, "(assert %s)\n", s)
	}
	s := p.pr(ng)
	fmt.Fprintf(&p.b, "(assert %s)\n", s)
	// symbol bounds
	seen := map[*Term]bool{}
	for t := range p.refs {
		if t.Op == "sym" && t.Sort == SInt && (t.lo != nil || t.hi != nil) && !seen[t] {
			seen[t] = true
		}
	}
	// ranges known from the element type of a heap map (simplified away in the hypotheses)
	var sel []*Term
	for t := range p.refs {
		if (t.Op == "select" || t.Op == "at") && t.Sort == SInt && !t.bound {
			if lo, hi := Bounds(t); lo != nil || hi != nil {
				sel = append(sel, t)
			}
		}
	}
	sort.Slice(sel, func(i, j int) bool { return sel[i].ID < sel[j].ID })
	for _, t := range sel {
		lo, hi := Bounds(t)
		x := p.pr(t)
		if lo != nil {
			fmt.Fprintf(&p.b, "(assert (<= %s %s))\n", bigSMT(lo), x)
		}
		if hi != nil {
			fmt.Fprintf(&p.b, "(assert (<= %s %s))\n", x, bigSMT(hi))
		}
	}
	var bs []string
	for t := range seen {
		if t.lo != nil {
			bs = append(bs, fmt.Sprintf("(assert (<= %s %s))\n", bigSMT(t.lo), smtName(t.Name)))
		}
		if t.hi != nil {
			bs = append(bs, fmt.Sprintf("(assert (<= %s %s))\n", smtName(t.Name), bigSMT(t.hi)))
		}
	}
	sort.Strings(bs)
	// congruence hints for sequence arguments of uninterpreted functions
	if p.useSeq {
		p.hints()
	}
	return head.String() + strings.Join(bs, "") + p.b.String() + "(check-sat)\n"
}

func (p *printer) hints() {
	byName := map[string][]*Term{}
	for _, t := range p.appTs {
		if t.bound {
			continue
		}
		for _, a := range t.Args {
			if a.Sort == SSeq {
				byName[t.Name] = append(byName[t.Name], t)
				break
			}
		}
	}
	names := make([]string, 0)
	for n := range byName {
		names = append(names, n)
	}
	sort.Strings(names)
	done := map[[2]*Term]bool{}
	n := 0
	for _, nm := range names {
		ts := byName[nm]
		for i := 0; i < len(ts); i++ {
			for j := i + 1; j < len(ts); j++ {
				for k := range ts[i].Args {
					a, b := ts[i].Args[k], ts[j].Args[k]
					if a.Sort != SSeq || a == b {
						continue
					}
					if done[[2]*Term{a, b}] || done[[2]*Term{b, a}] {
						continue
					}
					done[[2]*Term{a, b}] = true
					if seqEqSimp(a, b) == FALSE {
						continue
					}
					n++
					if n > 60 {
						return
					}
					x, y := p.pr(a), p.pr(b)
					fmt.Fprintf(&p.b, "(assert (hintb (seqeq %s %s)))\n", x, y)
				}
			}
		}
	}
}

// ---- solvers ----

type SolveResult struct {
	Status string // unsat sat unknown
	Solver string
	Dur    time.Duration
	Out    string
	Query  string
}

var (
	solverTime sync.Map // name -> *int64 (ns)
	solverCnt  sync.Map
)

func addSolverTime(name string, d time.Duration) {
	v, _ := solverTime.LoadOrStore(name, new(int64))
	atomic.AddInt64(v.(*int64), int64(d))
	c, _ := solverCnt.LoadOrStore(name, new(int64))
	atomic.AddInt64(c.(*int64), 1)
}

var procSem = make(chan struct{}, 8)

func runSolver(ctx context.Context, name string, argv []string, q string, to time.Duration) SolveResult {
	procSem <- struct{}{}
	defer func() { <-procSem }()
	if ctx.Err() != nil {
		return SolveResult{Status: "unknown", Solver: name}
	}
	start := time.Now()
	c, cancel := context.WithTimeout(ctx, to+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(c, argv[0], argv[1:]...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Stdin = strings.NewReader(q)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	d := time.Since(start)
	addSolverTime(name, d)
	st := "unknown"
	o := out.String()
	for _, l := range strings.Split(o, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "(error") {
			// a rejected statement makes any later answer meaningless
			st = "unknown"
			if os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "SOLVER ERROR", name, l)
			}
			break
		}
		if l == "unsat" || l == "sat" {
			st = l
			break
		}
	}
	return SolveResult{Status: st, Solver: name, Dur: d, Out: o}
}

func z3args(bin string, to time.Duration, extra ...string) []string {
	a := []string{bin, "-in", "-t:" + strconv.Itoa(int(to.Milliseconds())), "smt.auto_config=false", "smt.mbqi=false"}
	return append(a, extra...)
}

func dumpQuery(q string) {
	if d := os.Getenv("GOVC_DUMP"); d != "" {
		n := atomic.AddInt64(&dumpN, 1)
		os.WriteFile(fmt.Sprintf("%s/q%05d.smt2", d, n), []byte(q), 0644)
	}
}

var dumpN int64

func solveText(parent context.Context, q string, budget time.Duration, quick bool) SolveResult {
	first := 3 * time.Second
	if budget < first {
		first = budget
	}
	r := runSolver(parent, "z3-new", z3args("z3-new", first), q, first)
	if r.Status != "unknown" || budget <= first || quick || parent.Err() != nil {
		return r
	}
	ctx, cancel := context.WithCancel(parent)
	defer cancel()
	type job struct {
		name string
		argv []string
	}
	jobs := []job{
		{"cvc5", []string{"cvc5", "--lang=smt2", "--tlimit=" + strconv.Itoa(int(budget.Milliseconds())), "-"}},
		{"z3", z3args("z3", budget)},
		{"z3-new", z3args("z3-new", budget, "smt.random_seed=7", "smt.arith.solver=2")},
		{"z3-new", z3args("z3-new", budget, "smt.random_seed=3", "smt.case_split=3")},
		// model-based instantiation
		{"z3-new", []string{"z3-new", "-in", "-t:" + strconv.Itoa(int(budget.Milliseconds()))}},
	}
	ch := make(chan SolveResult, len(jobs))
	for _, j := range jobs {
		go func(j job) { ch <- runSolver(ctx, j.name, j.argv, q, budget) }(j)
	}
	last := r
	for range jobs {
		x := <-ch
		if x.Status == "unsat" {
			return x
		}
		if x.Status == "sat" {
			last = x
		}
	}
	return last
}
