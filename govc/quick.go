package main

// A persistent solver for quick, quantifier-free infeasibility checks. Only
// "unsat" answers are used, so dropping facts is sound.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"syscall"
	"time"
)

type QuickZ3 struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	memo map[string]bool
	n    int
	dur  time.Duration
}

func newQuick() *QuickZ3 { return &QuickZ3{memo: map[string]bool{}} }

func (q *QuickZ3) start() {
	q.cmd = exec.Command("z3-new", "-in", "-t:300", "smt.auto_config=false", "smt.mbqi=false")
	q.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, err := q.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := q.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := q.cmd.Start(); err != nil {
		panic(err)
	}
	q.in, q.out = in, bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintln(q.in, "(declare-sort BSq 0)")
}

func (q *QuickZ3) close() {
	if q.cmd != nil {
		q.in.Close()
		q.cmd.Process.Kill()
		q.cmd.Wait()
		q.cmd = nil
	}
}

func (q *QuickZ3) unsat(ts []*Term) bool {
	var use []*Term
	var key strings.Builder
	for _, t := range ts {
		if t == FALSE {
			return true
		}
		if t.nq || t == TRUE {
			continue
		}
		use = append(use, t)
		fmt.Fprintf(&key, "%d,", t.ID)
	}
	k := key.String()
	if r, ok := q.memo[k]; ok {
		return r
	}
	r := q.run(use)
	q.memo[k] = r
	return r
}

const quickDecl = `(declare-fun slen (BSq) Int)
(declare-fun sat (BSq Int) Int)
(declare-fun ssub (BSq Int Int) BSq)
(declare-fun supd (BSq Int Int) BSq)
(declare-fun scat (BSq BSq) BSq)
(declare-fun srep (Int Int) BSq)
(declare-fun sempty () BSq)
(assert (= (slen sempty) 0))
(define-fun seqeq ((a BSq) (b BSq)) Bool (= a b))
`

func (q *QuickZ3) run(ts []*Term) bool {
	start := time.Now()
	if q.cmd == nil || q.n > 2000 {
		q.close()
		q.start()
		q.n = 0
	}
	q.n++
	p := newPrinter()
	for _, t := range ts {
		p.count(t)
	}
	var b strings.Builder
	b.WriteString("(push)\n")
	b.WriteString(quickDecl)
	var names []string
	for n, s := range p.syms {
		names = append(names, fmt.Sprintf("(declare-fun %s () %s)\n", smtName(n), s))
	}
	for n, s := range p.apps {
		names = append(names, fmt.Sprintf("(declare-fun %s (%s) %s)\n", smtName(n), strings.Join(s[:len(s)-1], " "), s[len(s)-1]))
	}
	for _, l := range p.lits {
		n := len(l.Args)
		if l.Op == "strlit" {
			n = len(l.Name)
		}
		names = append(names, fmt.Sprintf("(declare-fun lit!%d () BSq)\n(assert (= (slen lit!%d) %d))\n", l.ID, l.ID, n))
	}
	sort.Strings(names)
	b.WriteString(strings.Join(names, ""))
	var extra []string
	for t := range p.refs {
		if t.bound {
			continue
		}
		if t.Op == "sym" && t.Sort == SInt {
			if t.lo != nil {
				extra = append(extra, fmt.Sprintf("(assert (<= %s %s))\n", bigSMT(t.lo), smtName(t.Name)))
			}
			if t.hi != nil {
				extra = append(extra, fmt.Sprintf("(assert (<= %s %s))\n", smtName(t.Name), bigSMT(t.hi)))
			}
		}
	}
	sort.Strings(extra)
	var lens []*Term
	for t := range p.refs {
		if t.Op == "len" && !t.bound {
			lens = append(lens, t)
		}
	}
	sort.Slice(lens, func(i, j int) bool { return lens[i].ID < lens[j].ID })
	for _, t := range ts {
		s := p.pr(t)
		fmt.Fprintf(&p.b, "(assert %s)\n", s)
	}
	for _, t := range lens {
		s := p.pr(t)
		fmt.Fprintf(&p.b, "(assert (>= %s 0))\n", s)
	}
	b.WriteString(strings.Join(extra, ""))
	b.WriteString(p.b.String())
	b.WriteString("(check-sat)\n(pop)\n(echo \"=done\")\n")
	if _, err := io.WriteString(q.in, b.String()); err != nil {
		q.cmd = nil
		return false
	}
	res, bad := false, false
	for {
		l, err := q.out.ReadString('\n')
		if err != nil {
			q.cmd = nil
			return false
		}
		l = strings.TrimSpace(l)
		if l == "unsat" {
			res = true
		}
		if strings.HasPrefix(l, "(error") {
			bad = true
			if os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "QUICK ERROR", l)
			}
		}
		if l == "=done" || l == `"=done"` {
			break
		}
	}
	q.dur += time.Since(start)
	return res && !bad
}
