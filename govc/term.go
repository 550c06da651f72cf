package main

// Hash-consed first-order terms with light simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

type Term struct {
	ID    int
	Op    string
	Sort  string
	Args  []*Term
	Name  string     // symbols, bound variables, uninterpreted functions
	Int   *big.Int   // integer constants; constant part of lin
	Coef  []*big.Int // lin
	Trig  [][]*Term  // forall/exists
	nq    bool       // contains quantifier
	bound bool       // contains bound variable
	qlev  int        // nesting level of quantifiers
	gen   int        // for ref symbols: value < alloc symbol of generation gen (0: unknown)
	agen  int        // for allocation symbols: own generation
	lo    *big.Int   // known bounds of symbols
	hi    *big.Int
	fi    *frameInfo
	symN  int
	elo   *big.Int // heap maps: bounds of the integers they hold
	ehi   *big.Int
}

const (
	SInt  = "Int"
	SBool = "Bool"
	SSeq  = "BSq"
)

func arrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

func arrSplit(s string) (string, string) {
	// "(Array K V)"
	in := s[len("(Array ") : len(s)-1]
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

var (
	termMu  sync.Mutex
	termTab = map[string]*Term{}
	termN   int
)

func mk(op, sort, name string, ival *big.Int, coef []*big.Int, args []*Term, trig [][]*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(sort)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	if ival != nil {
		b.WriteString(ival.String())
	}
	for _, c := range coef {
		b.WriteByte(';')
		b.WriteString(c.String())
	}
	b.WriteByte('|')
	for _, a := range args {
		b.WriteString(strconv.Itoa(a.ID))
		b.WriteByte(',')
	}
	for _, ts := range trig {
		b.WriteByte('{')
		for _, a := range ts {
			b.WriteString(strconv.Itoa(a.ID))
			b.WriteByte(',')
		}
	}
	k := b.String()
	termMu.Lock()
	defer termMu.Unlock()
	if t, ok := termTab[k]; ok {
		return t
	}
	termN++
	t := &Term{ID: termN, Op: op, Sort: sort, Name: name, Int: ival, Coef: coef, Args: args, Trig: trig}
	for _, a := range args {
		t.nq = t.nq || a.nq
		t.bound = t.bound || a.bound
		if a.qlev > t.qlev {
			t.qlev = a.qlev
		}
	}
	if op == "forall" {
		t.qlev++
		for _, a := range args[:len(args)-1] {
			if l := canonLevel(a.Name); l > t.qlev {
				t.qlev = l
			}
		}
	}
	if op == "forall" || op == "exists" {
		t.nq = true
	}
	if op == "bvar" {
		t.bound = true
	}
	termTab[k] = t
	return t
}

func (t *Term) IsConst() bool { return t.Op == "int" }
func (t *Term) ConstInt() (int64, bool) {
	if t.Op == "int" && t.Int.IsInt64() {
		return t.Int.Int64(), true
	}
	return 0, false
}

var bigCache = map[int64]*big.Int{}

func I(v int64) *Term        { return mk("int", SInt, "", big.NewInt(v), nil, nil, nil) }
func IB(v *big.Int) *Term    { return mk("int", SInt, "", v, nil, nil, nil) }
func Sym(name, sort string) *Term {
	return mk("sym", sort, name, nil, nil, nil, nil)
}
func BVar(name, sort string) *Term { return mk("bvar", sort, name, nil, nil, nil, nil) }

var TRUE = mk("true", SBool, "", nil, nil, nil, nil)
var FALSE = mk("false", SBool, "", nil, nil, nil, nil)

func B(b bool) *Term {
	if b {
		return TRUE
	}
	return FALSE
}

// App applies an uninterpreted function.
func App(name, sort string, args ...*Term) *Term {
	return mk("app", sort, name, nil, nil, args, nil)
}

// ---- linear integer arithmetic ----

func linOf(t *Term) (map[*Term]*big.Int, *big.Int) {
	m := map[*Term]*big.Int{}
	switch t.Op {
	case "int":
		return m, new(big.Int).Set(t.Int)
	case "lin":
		for i, a := range t.Args {
			m[a] = new(big.Int).Set(t.Coef[i])
		}
		return m, new(big.Int).Set(t.Int)
	}
	m[t] = big.NewInt(1)
	return m, new(big.Int)
}

func mkLin(m map[*Term]*big.Int, k *big.Int) *Term {
	var at []*Term
	for a, c := range m {
		if c.Sign() != 0 {
			at = append(at, a)
		}
	}
	if len(at) == 0 {
		return IB(k)
	}
	if len(at) == 1 && k.Sign() == 0 && m[at[0]].Cmp(big.NewInt(1)) == 0 {
		return at[0]
	}
	sort.Slice(at, func(i, j int) bool { return at[i].ID < at[j].ID })
	cs := make([]*big.Int, len(at))
	for i, a := range at {
		cs[i] = m[a]
	}
	return mk("lin", SInt, "", k, cs, at, nil)
}

func Add(a, b *Term) *Term {
	m, k := linOf(a)
	m2, k2 := linOf(b)
	for t, c := range m2 {
		if d, ok := m[t]; ok {
			d.Add(d, c)
		} else {
			m[t] = c
		}
	}
	return mkLin(m, k.Add(k, k2))
}

func Scale(a *Term, c *big.Int) *Term {
	m, k := linOf(a)
	for _, d := range m {
		d.Mul(d, c)
	}
	return mkLin(m, k.Mul(k, c))
}
func Neg(a *Term) *Term    { return Scale(a, big.NewInt(-1)) }
func Sub(a, b *Term) *Term { return Add(a, Neg(b)) }
func AddI(a *Term, k int64) *Term {
	return Add(a, I(k))
}

func Mul(a, b *Term) *Term {
	if a.IsConst() {
		return Scale(b, a.Int)
	}
	if b.IsConst() {
		return Scale(a, b.Int)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("*", SInt, "", nil, nil, []*Term{a, b}, nil)
}

// Euclidean division and modulus by a positive constant (floor semantics).
func DivF(a, b *Term) *Term {
	if b.IsConst() && b.Int.Sign() > 0 {
		if b.Int.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		if a.IsConst() {
			q, m := new(big.Int), new(big.Int)
			q.DivMod(a.Int, b.Int, m)
			return IB(q)
		}
		lo, hi := Bounds(a)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.Int) < 0 {
			return I(0)
		}
		// (c*x + r) / c
		if a.Op == "lin" {
			m, k := linOf(a)
			q := map[*Term]*big.Int{}
			r := map[*Term]*big.Int{}
			for t, c := range m {
				d, e := new(big.Int), new(big.Int)
				d.DivMod(c, b.Int, e)
				if e.Sign() == 0 {
					q[t] = d
				} else {
					r[t] = c
				}
			}
			if len(q) > 0 {
				kd, ke := new(big.Int), new(big.Int)
				kd.DivMod(k, b.Int, ke)
				rt := mkLin(r, ke)
				return Add(mkLin(q, kd), DivF(rt, b))
			}
		}
	}
	return mk("div", SInt, "", nil, nil, []*Term{a, b}, nil)
}

func ModF(a, b *Term) *Term {
	if b.IsConst() && b.Int.Sign() > 0 {
		if a.IsConst() {
			return IB(new(big.Int).Mod(a.Int, b.Int))
		}
		lo, hi := Bounds(a)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.Int) < 0 {
			return a
		}
		if a.Op == "lin" {
			m, k := linOf(a)
			ch := false
			for t, c := range m {
				e := new(big.Int).Mod(c, b.Int)
				if e.Sign() == 0 {
					delete(m, t)
					ch = true
				}
			}
			ke := new(big.Int).Mod(k, b.Int)
			if ke.Cmp(k) != 0 {
				ch = true
			}
			if ch {
				return ModF(mkLin(m, ke), b)
			}
		}
	}
	return mk("mod", SInt, "", nil, nil, []*Term{a, b}, nil)
}

// Bounds gives syntactic bounds of an integer term (nil: unknown).
func Bounds(t *Term) (lo, hi *big.Int) {
	switch t.Op {
	case "int":
		return t.Int, t.Int
	case "sym", "app":
		return t.lo, t.hi
	case "mod":
		if t.Args[1].IsConst() && t.Args[1].Int.Sign() > 0 {
			return big.NewInt(0), new(big.Int).Sub(t.Args[1].Int, big.NewInt(1))
		}
	case "div":
		if t.Args[1].IsConst() && t.Args[1].Int.Sign() > 0 {
			l, h := Bounds(t.Args[0])
			if l != nil {
				lo = new(big.Int).Div(l, t.Args[1].Int)
			}
			if h != nil {
				hi = new(big.Int).Div(h, t.Args[1].Int)
			}
			return
		}
	case "lin":
		l, h := new(big.Int).Set(t.Int), new(big.Int).Set(t.Int)
		lok, hok := true, true
		for i, a := range t.Args {
			al, ah := Bounds(a)
			c := t.Coef[i]
			if c.Sign() < 0 {
				al, ah = ah, al
			}
			if al == nil {
				lok = false
			} else if lok {
				l.Add(l, new(big.Int).Mul(c, al))
			}
			if ah == nil {
				hok = false
			} else if hok {
				h.Add(h, new(big.Int).Mul(c, ah))
			}
			if !lok && !hok {
				return nil, nil
			}
		}
		if lok {
			lo = l
		}
		if hok {
			hi = h
		}
		return
	case "ite":
		al, ah := Bounds(t.Args[1])
		bl, bh := Bounds(t.Args[2])
		if al != nil && bl != nil {
			lo = al
			if bl.Cmp(al) < 0 {
				lo = bl
			}
		}
		if ah != nil && bh != nil {
			hi = ah
			if bh.Cmp(ah) > 0 {
				hi = bh
			}
		}
		return
	case "len":
		return big.NewInt(0), nil
	case "at":
		return seqBounds(t.Args[0], 0)
	case "select":
		return mapBounds(t.Args[0], 0)
	}
	return nil, nil
}

func joinB(al, ah, bl, bh *big.Int) (lo, hi *big.Int) {
	if al != nil && bl != nil {
		lo = al
		if bl.Cmp(al) < 0 {
			lo = bl
		}
	}
	if ah != nil && bh != nil {
		hi = ah
		if bh.Cmp(ah) > 0 {
			hi = bh
		}
	}
	return
}

// mapBounds: bounds of the integers held by an array term (possibly nested)
func mapBounds(t *Term, d int) (lo, hi *big.Int) {
	if d > 12 {
		return nil, nil
	}
	switch t.Op {
	case "sym":
		return t.elo, t.ehi
	case "select":
		return mapBounds(t.Args[0], d+1)
	case "store":
		al, ah := mapBounds(t.Args[0], d+1)
		if al == nil && ah == nil {
			return nil, nil
		}
		var bl, bh *big.Int
		v := t.Args[2]
		switch {
		case v.Sort == SInt:
			bl, bh = Bounds(v)
		case v.Sort == SSeq:
			bl, bh = seqBounds(v, d+1)
		default:
			bl, bh = mapBounds(v, d+1)
		}
		return joinB(al, ah, bl, bh)
	}
	return nil, nil
}

// seqBounds: bounds of the elements of a sequence (0 outside of it)
func seqBounds(t *Term, d int) (lo, hi *big.Int) {
	if d > 12 {
		return nil, nil
	}
	z := new(big.Int)
	switch t.Op {
	case "select":
		lo, hi = mapBounds(t.Args[0], d+1)
	case "sub":
		lo, hi = seqBounds(t.Args[0], d+1)
	case "rep":
		lo, hi = Bounds(t.Args[0])
	case "upd":
		al, ah := seqBounds(t.Args[0], d+1)
		bl, bh := Bounds(t.Args[2])
		lo, hi = joinB(al, ah, bl, bh)
	case "sempty":
		return z, z
	case "strlit":
		return z, big.NewInt(255)
	case "slit":
		lo, hi = z, z
		for _, a := range t.Args {
			bl, bh := Bounds(a)
			lo, hi = joinB(lo, hi, bl, bh)
			if lo == nil && hi == nil {
				return
			}
		}
	case "cat":
		lo, hi = z, z
		for _, a := range t.Args {
			bl, bh := seqBounds(a, d+1)
			lo, hi = joinB(lo, hi, bl, bh)
			if lo == nil && hi == nil {
				return
			}
		}
	}
	return joinB(lo, hi, z, z)
}

// le0: t <= 0
func le0(t *Term) *Term {
	if t.IsConst() {
		return B(t.Int.Sign() <= 0)
	}
	lo, hi := Bounds(t)
	if hi != nil && hi.Sign() <= 0 {
		return TRUE
	}
	if lo != nil && lo.Sign() > 0 {
		return FALSE
	}
	// divide by gcd of coefficients (tighten)
	m, k := linOf(t)
	g := new(big.Int)
	for _, c := range m {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	if g.Cmp(big.NewInt(1)) > 0 {
		for _, c := range m {
			c.Quo(c, g)
		}
		// sum <= -k  -> sum/g <= floor(-k/g)
		nk := new(big.Int).Neg(k)
		q, r := new(big.Int), new(big.Int)
		q.DivMod(nk, g, r)
		k = q.Neg(q)
		t = mkLin(m, k)
	}
	return mk("le0", SBool, "", nil, nil, []*Term{t}, nil)
}

func Le(a, b *Term) *Term { return le0(Sub(a, b)) }
func Lt(a, b *Term) *Term { return le0(AddI(Sub(a, b), 1)) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

// fresh reference A_g + k, k >= 0 ?
func freshRef(t *Term) (int, bool) {
	if t.Op == "sym" && t.agen > 0 {
		return t.agen, true
	}
	if t.Op == "lin" && len(t.Args) == 1 && t.Args[0].agen > 0 && t.Coef[0].Cmp(big.NewInt(1)) == 0 && t.Int.Sign() >= 0 {
		return t.Args[0].agen, true
	}
	return 0, false
}

// refBound: g such that t < A_g is a recorded fact.
func refBound(t *Term) (int, bool) {
	if t.Op == "int" && t.Int.Sign() <= 0 {
		return 1, true
	}
	if t.gen > 0 {
		return t.gen, true
	}
	if t.Op == "select" {
		b := t.Args[0]
		for b.Op == "store" {
			b = b.Args[0]
		}
		if b == t.Args[0] && b.gen > 0 {
			if isKept(b) {
				// the object may be younger than the map
				g, ok := refBound(t.Args[1])
				if !ok {
					return 0, false
				}
				if g < b.gen {
					g = b.gen
				}
				return g, true
			}
			return b.gen, true
		}
	}
	return 0, false
}

func distinctRefs(a, b *Term) bool {
	// two allocations of different generations
	if g, ok := freshRef(a); ok {
		if h, ok := freshRef(b); ok && g != h {
			return true
		}
	}
	if g, ok := freshRef(a); ok {
		if h, ok := refBound(b); ok && h <= g {
			return true
		}
	}
	if g, ok := freshRef(b); ok {
		if h, ok := refBound(a); ok && h <= g {
			return true
		}
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return TRUE
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sort mismatch: %s:%s vs %s:%s", a, a.Sort, b, b.Sort))
	}
	switch a.Sort {
	case SInt:
		if distinctRefs(a, b) {
			return FALSE
		}
		d := Sub(a, b)
		if d.IsConst() {
			return B(d.Int.Sign() == 0)
		}
		lo, hi := Bounds(d)
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return FALSE
		}
		m, k := linOf(d)
		// normalise sign by the smallest atom id
		var first *Term
		for t := range m {
			if first == nil || t.ID < first.ID {
				first = t
			}
		}
		if m[first].Sign() < 0 {
			for _, c := range m {
				c.Neg(c)
			}
			k.Neg(k)
		}
		g := new(big.Int)
		for _, c := range m {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(big.NewInt(1)) > 0 {
			if new(big.Int).Mod(k, g).Sign() != 0 {
				return FALSE
			}
			for _, c := range m {
				c.Quo(c, g)
			}
			k.Quo(k, g)
		}
		// keep as lhs = rhs with rhs the constant
		lhs := mkLin(m, new(big.Int))
		return mk("=", SBool, "", nil, nil, []*Term{lhs, IB(new(big.Int).Neg(k))}, nil)
	case SBool:
		if a == TRUE {
			return b
		}
		if b == TRUE {
			return a
		}
		if a == FALSE {
			return Not(b)
		}
		if b == FALSE {
			return Not(a)
		}
	case SSeq:
		if r := seqEqSimp(a, b); r != nil {
			return r
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("=", SBool, "", nil, nil, []*Term{a, b}, nil)
}

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return FALSE
	case "false":
		return TRUE
	case "not":
		return a.Args[0]
	case "le0":
		return le0(AddI(Neg(a.Args[0]), 1))
	}
	return mk("not", SBool, "", nil, nil, []*Term{a}, nil)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == FALSE {
			return false
		}
		if a == TRUE || seen[a] {
			return true
		}
		if a.Op == "and" {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return FALSE
		}
	}
	if len(out) == 0 {
		return TRUE
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", SBool, "", nil, nil, out, nil)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a == TRUE {
			return TRUE
		}
		if a == FALSE || seen[a] {
			continue
		}
		if a.Op == "or" {
			for _, x := range a.Args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		if seen[Not(a)] {
			return TRUE
		}
		seen[a] = true
		out = append(out, a)
	}
	if len(out) == 0 {
		return FALSE
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", SBool, "", nil, nil, out, nil)
}

func Imp(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c == TRUE || a == b {
		return a
	}
	if c == FALSE {
		return b
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if a.Sort == SBool {
		if a == TRUE && b == FALSE {
			return c
		}
		if a == FALSE && b == TRUE {
			return Not(c)
		}
		return And(Imp(c, a), Imp(Not(c), b))
	}
	return mk("ite", a.Sort, "", nil, nil, []*Term{c, a, b}, nil)
}

func Forall(vs []*Term, trig [][]*Term, body *Term) *Term {
	if body == TRUE || body == FALSE {
		return body
	}
	if len(vs) == 0 {
		return body
	}
	var used []*Term
	some := false
	for _, v := range vs {
		in := occurs(v, body)
		if in {
			some = true
		}
		for _, ts := range trig {
			for _, t := range ts {
				in = in || occurs(v, t)
			}
		}
		if in {
			used = append(used, v)
		}
	}
	if !some {
		return body
	}
	// canonical names, so that equal formulas are the same term; the level
	// keeps nested quantifiers apart
	lev := body.qlev + 1
	ren := map[*Term]*Term{}
	for i, v := range used {
		c := BVar(fmt.Sprintf("q%d_%d", lev, i), v.Sort)
		if c != v {
			ren[v] = c
			used[i] = c
		}
	}
	if len(ren) > 0 {
		body = Subst(body, ren)
		var nt [][]*Term
		for _, ts := range trig {
			var x []*Term
			for _, t := range ts {
				x = append(x, Subst(t, ren))
			}
			nt = append(nt, x)
		}
		trig = nt
		if body == TRUE || body == FALSE {
			return body
		}
	}
	args := append(append([]*Term{}, used...), body)
	return mk("forall", SBool, strconv.Itoa(len(used)), nil, nil, args, trig)
}

func Exists(vs []*Term, body *Term) *Term {
	return Not(Forall(vs, nil, Not(body)))
}

// canonLevel is the level in a canonical bound variable's name, or 0.
func canonLevel(name string) int {
	if len(name) < 4 || name[0] != 'q' {
		return 0
	}
	l := 0
	for i := 1; i < len(name); i++ {
		c := name[i]
		if c == '_' {
			return l
		}
		if c < '0' || c > '9' {
			return 0
		}
		l = l*10 + int(c-'0')
	}
	return 0
}

func occurs(v, t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == v {
			return true
		}
		if !t.bound || seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// ---- arrays ----

func mkSelect(a, i *Term) *Term {
	_, v := arrSplit(a.Sort)
	return mk("select", v, "", nil, nil, []*Term{a, i}, nil)
}

func Select(a, i *Term) *Term {
	_, v := arrSplit(a.Sort)
	for {
		if a.Op == "sym" && a.fi != nil && a.fi.through(i) {
			a = a.fi.base
			continue
		}
		if a.Op != "store" {
			break
		}
		if a.Args[1] == i {
			return a.Args[2]
		}
		e := Eq(a.Args[1], i)
		if e == TRUE {
			return a.Args[2]
		}
		if e == FALSE {
			a = a.Args[0]
			continue
		}
		break
	}
	if a.Op == "constarr" {
		return a.Args[0]
	}
	if a.Op == "ite" && false {
		return Ite(a.Args[0], Select(a.Args[1], i), Select(a.Args[2], i))
	}
	return mk("select", v, "", nil, nil, []*Term{a, i}, nil)
}

func Store(a, i, v *Term) *Term {
	if a.Op == "store" && a.Args[1] == i {
		return Store(a.Args[0], i, v)
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return mk("store", a.Sort, "", nil, nil, []*Term{a, i, v}, nil)
}

func ConstArr(sort string, v *Term) *Term {
	return mk("constarr", sort, "", nil, nil, []*Term{v}, nil)
}

// ---- sequences ----

var SEMPTY = mk("sempty", SSeq, "", nil, nil, nil, nil)

func Len(s *Term) *Term {
	switch s.Op {
	case "sempty":
		return I(0)
	case "slit":
		return I(int64(len(s.Args)))
	case "strlit":
		return I(int64(len(s.Name)))
	case "cat":
		r := I(0)
		for _, a := range s.Args {
			r = Add(r, Len(a))
		}
		return r
	case "upd":
		return Len(s.Args[0])
	case "rep":
		if lo, _ := Bounds(s.Args[1]); lo != nil && lo.Sign() >= 0 {
			return s.Args[1]
		}
	case "sub":
		// s[i:j] is defined for all i, j: elements beyond s are 0
		d := Sub(s.Args[2], s.Args[1])
		if lo, _ := Bounds(d); lo != nil && lo.Sign() >= 0 {
			return d
		}
	case "app":
		if s.Name == "xof" {
			if lo, _ := Bounds(s.Args[3]); lo != nil && lo.Sign() >= 0 {
				return s.Args[3]
			}
		}
		if n, ok := fixedLenApps[s.Name]; ok {
			return I(n)
		}
	case "ite":
		l1, l2 := Len(s.Args[1]), Len(s.Args[2])
		if l1 == l2 {
			return l1
		}
	}
	return mk("len", SInt, "", nil, nil, []*Term{s}, nil)
}

// functions whose Seq result always has the given length
var fixedLenApps = map[string]int64{"le8": 8, "le4": 4}

func Lit(vs ...*Term) *Term {
	if len(vs) == 0 {
		return SEMPTY
	}
	return mk("slit", SSeq, "", nil, nil, vs, nil)
}

func Rep(v, n *Term) *Term {
	if k, ok := n.ConstInt(); ok {
		if k <= 0 {
			return SEMPTY
		}
		if k <= 16 {
			vs := make([]*Term, k)
			for i := range vs {
				vs[i] = v
			}
			return Lit(vs...)
		}
	}
	return mk("rep", SSeq, "", nil, nil, []*Term{v, n}, nil)
}

func At(s, i *Term) *Term {
	switch s.Op {
	case "slit":
		if k, ok := i.ConstInt(); ok && k >= 0 && k < int64(len(s.Args)) {
			return s.Args[k]
		}
	case "strlit":
		if k, ok := i.ConstInt(); ok && k >= 0 && k < int64(len(s.Name)) {
			return I(int64(s.Name[k]))
		}
	case "upd":
		e := Eq(s.Args[1], i)
		if e == TRUE {
			return s.Args[2]
		}
		if e == FALSE {
			return At(s.Args[0], i)
		}
	case "cat":
		off := I(0)
		for _, a := range s.Args {
			n := Len(a)
			c := Lt(i, Add(off, n))
			c2 := Ge(i, off)
			if c == TRUE && c2 == TRUE {
				return At(a, Sub(i, off))
			}
			if c != FALSE {
				break
			}
			off = Add(off, n)
		}
	case "sub":
		if Ge(i, I(0)) == TRUE && Lt(Add(i, s.Args[1]), s.Args[2]) == TRUE {
			return At(s.Args[0], Add(i, s.Args[1]))
		}
	}
	return mk("at", SInt, "", nil, nil, []*Term{s, i}, nil)
}

func Upd(s, i, v *Term) *Term {
	if s.Op == "slit" {
		if k, ok := i.ConstInt(); ok && k >= 0 && k < int64(len(s.Args)) {
			vs := append([]*Term{}, s.Args...)
			vs[k] = v
			return Lit(vs...)
		}
	}
	if s.Op == "upd" && s.Args[1] == i {
		return Upd(s.Args[0], i, v)
	}
	return mk("upd", SSeq, "", nil, nil, []*Term{s, i, v}, nil)
}

func Cat(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		if a.Op == "cat" {
			for _, x := range a.Args {
				out = catPush(out, x)
			}
			continue
		}
		out = catPush(out, a)
	}
	if len(out) == 0 {
		return SEMPTY
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("cat", SSeq, "", nil, nil, out, nil)
}

func catPush(out []*Term, a *Term) []*Term {
	if a == SEMPTY {
		return out
	}
	if n := len(out); n > 0 {
		p := out[n-1]
		if p.Op == "slit" && a.Op == "slit" {
			out[n-1] = Lit(append(append([]*Term{}, p.Args...), a.Args...)...)
			return out
		}
		if p.Op == "sub" && a.Op == "sub" && p.Args[0] == a.Args[0] && p.Args[2] == a.Args[1] && Le(p.Args[1], p.Args[2]) == TRUE && Le(a.Args[1], a.Args[2]) == TRUE {
			out[n-1] = SubSeq(p.Args[0], p.Args[1], a.Args[2])
			return out
		}
	}
	return append(out, a)
}

// SubSeq s[i:j]
func SubSeq(s, i, j *Term) *Term {
	if Eq(i, j) == TRUE {
		return SEMPTY
	}
	if Eq(i, I(0)) == TRUE && Eq(j, Len(s)) == TRUE {
		return s
	}
	switch s.Op {
	case "slit":
		a, ok1 := i.ConstInt()
		b, ok2 := j.ConstInt()
		if ok1 && ok2 && 0 <= a && a <= b && b <= int64(len(s.Args)) {
			return Lit(s.Args[a:b]...)
		}
	case "sub":
		// s.Args[0][lo:hi][i:j]
		if Ge(i, I(0)) == TRUE && Le(Add(j, s.Args[1]), s.Args[2]) == TRUE {
			return SubSeq(s.Args[0], Add(s.Args[1], i), Add(s.Args[1], j))
		}
	case "rep":
		if Ge(i, I(0)) == TRUE && Le(j, s.Args[1]) == TRUE && Le(i, j) == TRUE {
			return Rep(s.Args[0], Sub(j, i))
		}
	case "cat":
		off := I(0)
		var out []*Term
		ok := true
		started := false
		done := false
		for _, a := range s.Args {
			end := Add(off, Len(a))
			if !started {
				if Le(end, i) == TRUE {
					off = end
					continue
				}
				if Le(off, i) == TRUE && Lt(i, end) == TRUE {
					started = true
					if Le(j, end) == TRUE {
						return SubSeq(a, Sub(i, off), Sub(j, off))
					}
					if Ge(j, end) != TRUE {
						ok = false
						break
					}
					out = append(out, SubSeq(a, Sub(i, off), Len(a)))
					off = end
					continue
				}
				if Eq(off, i) == TRUE {
					started = true
				} else {
					ok = false
					break
				}
			}
			if Le(end, j) == TRUE {
				out = append(out, a)
				off = end
				if Eq(end, j) == TRUE {
					done = true
					break
				}
				continue
			}
			if Le(j, off) == TRUE {
				done = true
				break
			}
			if Le(j, end) == TRUE {
				out = append(out, SubSeq(a, I(0), Sub(j, off)))
				done = true
				break
			}
			ok = false
			break
		}
		if ok && started && (done || Eq(off, j) == TRUE) {
			return Cat(out...)
		}
	case "upd":
		// update outside of the window
		if Lt(s.Args[1], i) == TRUE || Ge(s.Args[1], j) == TRUE {
			return SubSeq(s.Args[0], i, j)
		}
	}
	return mk("sub", SSeq, "", nil, nil, []*Term{s, i, j}, nil)
}

// seqEqSimp: syntactic decisions on sequence equality (nil: unknown)
func seqEqSimp(a, b *Term) *Term {
	d := Eq(Len(a), Len(b))
	if d == FALSE {
		return FALSE
	}
	if a.Op == "slit" && b.Op == "slit" {
		r := TRUE
		for i := range a.Args {
			r = And(r, Eq(a.Args[i], b.Args[i]))
		}
		return r
	}
	if a.Op == "strlit" && b.Op == "strlit" {
		return FALSE
	}
	if a == SEMPTY && b.Op != "app" {
		if b.Op == "cat" || b.Op == "slit" {
			return Eq(Len(b), I(0))
		}
	}
	if b == SEMPTY {
		if a.Op == "cat" || a.Op == "slit" {
			return Eq(Len(a), I(0))
		}
	}
	// strip equal heads and tails of equal length
	as, bs := catArgs(a), catArgs(b)
	ch := false
	for len(as) > 0 && len(bs) > 0 && as[0] == bs[0] {
		as, bs = as[1:], bs[1:]
		ch = true
	}
	for len(as) > 0 && len(bs) > 0 && as[len(as)-1] == bs[len(bs)-1] {
		as, bs = as[:len(as)-1], bs[:len(bs)-1]
		ch = true
	}
	if ch {
		return Eq(Cat(as...), Cat(bs...))
	}
	if len(as) > 0 && len(bs) > 0 && (len(as) > 1 || len(bs) > 1) {
		l1, l2 := Len(as[0]), Len(bs[0])
		if l1 == l2 {
			return And(Eq(as[0], bs[0]), Eq(Cat(as[1:]...), Cat(bs[1:]...)))
		}
		l1, l2 = Len(as[len(as)-1]), Len(bs[len(bs)-1])
		if l1 == l2 {
			return And(Eq(as[len(as)-1], bs[len(bs)-1]), Eq(Cat(as[:len(as)-1]...), Cat(bs[:len(bs)-1]...)))
		}
	}
	return nil
}

func catArgs(a *Term) []*Term {
	if a.Op == "cat" {
		return append([]*Term{}, a.Args...)
	}
	if a == SEMPTY {
		return nil
	}
	return []*Term{a}
}

// ---- substitution ----

func Subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		var trig [][]*Term
		for _, ts := range t.Trig {
			var x []*Term
			for _, a := range ts {
				n := rec(a)
				ch = ch || n != a
				x = append(x, n)
			}
			trig = append(trig, x)
		}
		r := t
		if ch {
			r = rebuild(t, args, trig)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term, trig [][]*Term) *Term {
	switch t.Op {
	case "lin":
		r := IB(t.Int)
		for i, a := range args {
			r = Add(r, Scale(a, t.Coef[i]))
		}
		return r
	case "*":
		return Mul(args[0], args[1])
	case "div":
		return DivF(args[0], args[1])
	case "mod":
		return ModF(args[0], args[1])
	case "le0":
		return le0(args[0])
	case "=":
		return Eq(args[0], args[1])
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "constarr":
		return ConstArr(t.Sort, args[0])
	case "len":
		return Len(args[0])
	case "at":
		return At(args[0], args[1])
	case "cat":
		return Cat(args...)
	case "sub":
		return SubSeq(args[0], args[1], args[2])
	case "upd":
		return Upd(args[0], args[1], args[2])
	case "slit":
		return Lit(args...)
	case "rep":
		return Rep(args[0], args[1])
	case "forall":
		n := len(args) - 1
		return Forall(args[:n], trig, args[n])
	}
	r := mk(t.Op, t.Sort, t.Name, t.Int, t.Coef, args, trig)
	if r.lo == nil {
		r.lo, r.hi = t.lo, t.hi
	}
	return r
}

// ---- printing ----

func smtName(s string) string {
	ok := len(s) > 0
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.' || c == '$') {
			ok = false
		}
	}
	if ok && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	return "|" + strings.ReplaceAll(s, "|", "_") + "|"
}

func bigSMT(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func (t *Term) String() string {
	s := t.str(0)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func (t *Term) str(d int) string {
	if d > 12 {
		return "…"
	}
	switch t.Op {
	case "int":
		return t.Int.String()
	case "sym", "bvar", "strlit":
		return t.Name
	case "true", "false":
		return t.Op
	case "sempty":
		return "⟨⟩"
	case "lin":
		var p []string
		for i, a := range t.Args {
			c := t.Coef[i].String()
			if c == "1" {
				p = append(p, a.str(d+1))
			} else {
				p = append(p, c+"*"+a.str(d+1))
			}
		}
		if t.Int.Sign() != 0 {
			p = append(p, t.Int.String())
		}
		return "(" + strings.Join(p, " + ") + ")"
	case "le0":
		return t.Args[0].str(d+1) + "<=0"
	case "forall":
		n := len(t.Args) - 1
		var vs []string
		for _, v := range t.Args[:n] {
			vs = append(vs, v.Name)
		}
		return "(∀" + strings.Join(vs, ",") + " :: " + t.Args[n].str(d+1) + ")"
	}
	nm := t.Op
	if t.Op == "app" {
		nm = t.Name
	}
	var p []string
	for _, a := range t.Args {
		p = append(p, a.str(d+1))
	}
	return nm + "(" + strings.Join(p, ", ") + ")"
}
