package main

// Evaluation of contract expressions to terms.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SVal is a value in a specification: a Go value with its type, or a
// mathematical value (T nil) of sort S.
type SVal struct {
	V Value
	T types.Type
	S string
	// pointer to an interface-typed spec value keeps T
}

type SEnv struct {
	ex   *Exec
	st   *State
	old  *State
	vars map[string]SVal
	ret  []SVal
	// bound variables in scope: loads must not add facts
	pos string
	dep int
	binders []*Term
	rows [][2]*Term // freshness bound
	freshFrom *Term
	entry *State
}

func (e *SEnv) child() *SEnv {
	n := *e
	n.vars = make(map[string]SVal, len(e.vars)+4)
	for k, v := range e.vars {
		n.vars[k] = v
	}
	return &n
}

func (e *SEnv) fail(x *Expr, f string, a ...interface{}) {
	unsup("contract %s: %s", x.Pos, fmt.Sprintf(f, a...))
}

func mathI(t *Term) SVal { return SVal{V: t, S: t.Sort} }

// resolveType parses a type written in a contract.
func (P *Prog) resolveType(s string) (types.Type, string) {
	s = strings.TrimSpace(s)
	switch s {
	case "int", "mathint", "":
		return nil, SInt
	case "bool":
		return nil, SBool
	case "seq":
		return nil, SSeq
	case "error":
		return types.Universe.Lookup("error").Type(), ""
	case "any":
		return types.NewInterfaceType(nil, nil), ""
	case "string":
		return types.Typ[types.String], ""
	case "uint64":
		return types.Typ[types.Uint64], ""
	case "uint32":
		return types.Typ[types.Uint32], ""
	case "byte", "uint8":
		return types.Typ[types.Uint8], ""
	case "goint":
		return types.Typ[types.Int], ""
	case "gobool":
		return types.Typ[types.Bool], ""
	}
	if strings.HasPrefix(s, "*") {
		t, _ := P.resolveType(s[1:])
		if t == nil {
			return nil, ""
		}
		return types.NewPointer(t), ""
	}
	if strings.HasPrefix(s, "[]") {
		t, so := P.resolveType(s[2:])
		if t == nil {
			if so == SBool {
				t = types.Typ[types.Bool]
			} else {
				t = types.Typ[types.Int]
			}
		}
		return types.NewSlice(t), ""
	}
	if strings.HasPrefix(s, "map[") {
		d, i := 0, 3
		for ; i < len(s); i++ {
			if s[i] == '[' {
				d++
			}
			if s[i] == ']' {
				d--
				if d == 0 {
					break
				}
			}
		}
		k, v := s[4:i], s[i+1:]
		kt, ks := P.resolveType(k)
		vt, vs := P.resolveType(v)
		if kt == nil && vt == nil && ks != "" && vs != "" {
			return nil, arrSort(ks, vs)
		}
		if kt == nil && vt != nil {
			// map to references
			c := flatten(vt)
			if len(c) == 1 {
				return nil, arrSort(ks, c[0].sort)
			}
		}
		if kt != nil && vt != nil {
			return types.NewMap(kt, vt), ""
		}
		return nil, ""
	}
	if strings.HasPrefix(s, "[") {
		i := strings.Index(s, "]")
		n := new(big.Int)
		n.SetString(s[1:i], 10)
		t, _ := P.resolveType(s[i+1:])
		if t == nil {
			return nil, ""
		}
		return types.NewArray(t, n.Int64()), ""
	}
	if t, ok := P.Types[s]; ok {
		return t, ""
	}
	return nil, ""
}

func (e *SEnv) eval(x *Expr) SVal {
	switch x.Op {
	case "int":
		v, ok := new(big.Int).SetString(x.Int, 0)
		if !ok {
			e.fail(x, "bad integer %s", x.Int)
		}
		return mathI(IB(v))
	case "str":
		return mathI(strTerm(x.Str))
	case "bool":
		return mathI(B(x.Str == "true"))
	case "nil":
		return SVal{V: nil, S: "nil"}
	case "id":
		return e.ident(x)
	case "un":
		switch x.Str {
		case "!":
			return mathI(Not(e.boolT(x.Args[0])))
		case "-":
			return mathI(Neg(e.intT(x.Args[0])))
		case "*":
			v := e.eval(x.Args[0])
			pt, ok := under(v.T).(*types.Pointer)
			if !ok {
				e.fail(x, "dereference of %s", v.T)
			}
			return SVal{V: e.load(e.ex.ptr(v.V, pt.Elem())), T: pt.Elem()}
		}
		e.fail(x, "operator %s", x.Str)
	case "bin":
		return e.bin(x)
	case "field":
		return e.field(x, e.eval(x.Args[0]), x.Str)
	case "index":
		return e.index(x)
	case "slice":
		s := e.seqOf(x.Args[0], e.eval(x.Args[0]))
		lo, hi := I(0), Len(s)
		if x.Args[1] != nil {
			lo = e.intT(x.Args[1])
		}
		if x.Args[2] != nil {
			hi = e.intT(x.Args[2])
		}
		return mathI(SubSeq(s, lo, hi))
	case "if":
		c := e.boolT(x.Args[0])
		a, b := e.eval(x.Args[1]), e.eval(x.Args[2])
		return e.iteS(x, c, a, b)
	case "let":
		n := e.child()
		n.vars[x.Str] = e.eval(x.Args[0])
		return n.eval(x.Args[1])
	case "forall", "exists":
		return e.quant(x)
	case "call":
		return e.callS(x)
	}
	e.fail(x, "cannot evaluate %s", x.Op)
	return SVal{}
}

func (e *SEnv) iteS(x *Expr, c *Term, a, b SVal) SVal {
	if c == TRUE {
		return a
	}
	if c == FALSE {
		return b
	}
	if a.S == "nil" && b.T != nil {
		a = SVal{V: zeroValue(b.T), T: b.T}
	}
	if b.S == "nil" && a.T != nil {
		b = SVal{V: zeroValue(a.T), T: a.T}
	}
	if a.T != nil && b.T != nil && types.Identical(a.T, b.T) {
		ta, tb := toTerms(a.V, a.T), toTerms(b.V, b.T)
		r := make([]*Term, len(ta))
		for i := range ta {
			r[i] = Ite(c, ta[i], tb[i])
		}
		v, _ := fromTerms(r, a.T)
		return SVal{V: v, T: a.T}
	}
	ta, tb := e.scalar(x, a), e.scalar(x, b)
	return mathI(Ite(c, ta, tb))
}

func (e *SEnv) ident(x *Expr) SVal {
	if v, ok := e.vars[x.Str]; ok {
		return v
	}
	switch x.Str {
	case "result":
		if len(e.ret) > 0 {
			return e.ret[0]
		}
		e.fail(x, "no result")
	case "ret0", "ret1", "ret2", "ret3":
		i := int(x.Str[3] - '0')
		if i < len(e.ret) {
			return e.ret[i]
		}
		e.fail(x, "no result %d", i)
	}
	if d, ok := e.ex.P.Specs.Funcs[x.Str]; ok && len(d.Args) == 0 {
		t, s := e.ex.P.resolveType(d.Res)
		if t != nil {
			s = flatten(t)[0].sort
		}
		return SVal{V: App(x.Str, s), T: t, S: s}
	}
	if d, ok := e.ex.P.Specs.Preds[x.Str]; ok && len(d.Params) == 0 {
		return e.pred(x, d, nil)
	}
	if x.Str == "err" {
		for _, r := range e.ret {
			if r.T != nil && types.Identical(r.T, types.Universe.Lookup("error").Type()) {
				return r
			}
		}
	}
	e.fail(x, "unknown name %s", x.Str)
	return SVal{}
}

func (e *SEnv) boolT(x *Expr) *Term {
	v := e.eval(x)
	t, ok := v.V.(*Term)
	if !ok || t.Sort != SBool {
		e.fail(x, "boolean expected, got %T %v", v.V, v.T)
	}
	return t
}

func (e *SEnv) intT(x *Expr) *Term {
	v := e.eval(x)
	return e.intOf(x, v)
}

func (e *SEnv) intOf(x *Expr, v SVal) *Term {
	t, ok := v.V.(*Term)
	if !ok || t.Sort != SInt {
		e.fail(x, "integer expected, got %T %v", v.V, v.T)
	}
	return t
}

// scalar: the single term of a value
func (e *SEnv) scalar(x *Expr, v SVal) *Term {
	switch y := v.V.(type) {
	case *Term:
		return y
	case nil:
		if v.S == "nil" {
			return I(0)
		}
	case PtrV:
		if len(y.Path) == 0 && y.Elem == nil {
			return y.Ref
		}
		return interiorTerm(y)
	case SliceV:
		return e.seqOf(x, v)
	case IfaceV:
		return y.Val
	}
	e.fail(x, "scalar expected, got %T %v", v.V, v.T)
	return nil
}

// seqOf: the contents of a string, slice or array
func (e *SEnv) seqOf(x *Expr, v SVal) *Term {
	switch y := v.V.(type) {
	case *Term:
		if y.Sort == SSeq {
			return y
		}
	case SliceV:
		return e.contentOf(v)
	case nil:
		if v.S == "nil" {
			return SEMPTY
		}
	}
	e.fail(x, "sequence expected, got %T %v", v.V, v.T)
	return nil
}

func (e *SEnv) contentOf(v SVal) *Term {
	s := v.V.(SliceV)
	et := under(v.T).(*types.Slice).Elem()
	cs := flatten(et)
	if len(cs) != 1 {
		unsup("content of %s in a contract", v.T)
	}
	_, h := e.ex.elemMap(e.st, et, cs[0])
	return e.ex.sliceSeq(h, s)
}

func (e *SEnv) load(p PtrV) Value {
	v := e.ex.loadRaw(e.st, p)
	if s, ok := v.(SliceV); ok && !s.Len.bound && (s.Len.Op == "select" || s.Len.Op == "at") {
		// a nil slice is empty
		if f := Imp(Eq(s.Arr, I(0)), Eq(s.Len, I(0))); f != TRUE {
			symFacts.Store(s.Len, []*Term{f})
		}
	}
	return v
}

func (e *SEnv) field(x *Expr, v SVal, name string) SVal {
	if v.T == nil {
		e.fail(x, "field %s of a mathematical value", name)
	}
	// interface holding a known pointer
	t := v.T
	if pt, ok := under(t).(*types.Pointer); ok {
		tk := typeKey(pt.Elem())
		if gf, ok := e.ex.P.Specs.Ghosts[tk]; ok {
			if gt, ok := gf[name]; ok {
				return e.ghost(tk, name, gt, e.scalar(x, v))
			}
		}
		p := e.ex.ptr(v.V, pt.Elem())
		path, ft, viaPtr := findField(pt.Elem(), name)
		if path == nil {
			e.fail(x, "no field %s in %s", name, t)
		}
		return e.walk(p, path, ft, viaPtr, pt.Elem())
	}
	if st, ok := under(t).(*types.Struct); ok {
		sv := v.V.(StructV)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return SVal{V: sv.F[i], T: st.Field(i).Type()}
			}
		}
		// promoted
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if f.Embedded() {
				if p, _, _ := findField(derefT(f.Type()), name); p != nil {
					return e.field(x, SVal{V: sv.F[i], T: f.Type()}, name)
				}
			}
		}
	}
	e.fail(x, "no field %s in %s", name, t)
	return SVal{}
}

func derefT(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// walk loads a field along a path that may pass through embedded pointers
func (e *SEnv) walk(p PtrV, path []int, ft types.Type, via bool, root types.Type) SVal {
	cur := p
	t := root
	for k, i := range path {
		st := under(t).(*types.Struct)
		f := st.Field(i)
		cur.Path = append(append([]int{}, cur.Path...), i)
		t = f.Type()
		if k < len(path)-1 {
			if pt, ok := under(t).(*types.Pointer); ok {
				v := e.load(cur)
				cur = e.ex.ptr(v, pt.Elem())
				t = pt.Elem()
			}
		}
	}
	return SVal{V: e.load(cur), T: t}
}

// findField: breadth-first through embedded fields
func findField(t types.Type, name string) ([]int, types.Type, bool) {
	st, ok := under(t).(*types.Struct)
	if !ok {
		return nil, nil, false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return []int{i}, st.Field(i).Type(), false
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Embedded() {
			if p, ft, _ := findField(derefT(f.Type()), name); p != nil {
				return append([]int{i}, p...), ft, true
			}
		}
	}
	return nil, nil, false
}

func (P *Prog) ghostSort(tk, name, gt string) (types.Type, comp, string) {
	t, s := P.resolveType(gt)
	if t != nil {
		c := flatten(t)
		if len(c) != 1 {
			unsup("ghost field %s.%s of type %s", tk, name, gt)
		}
		s = c[0].sort
	}
	if s == "" {
		unsup("ghost field %s.%s has unknown type %s", tk, name, gt)
	}
	c := comp{sort: s, kind: "ghost"}
	if t != nil {
		c = flatten(t)[0]
	}
	return t, c, s
}

func (e *SEnv) ghostMap(tk, name, gt string) (string, *Term, types.Type, string) {
	t, c, s := e.ex.P.ghostSort(tk, name, gt)
	n := "G:" + tk + "." + name
	return n, e.ex.H(e.st, n, arrSort(SInt, s), heapInfo{comp: c}), t, s
}

func (e *SEnv) ghost(tk, name, gt string, r *Term) SVal {
	_, h, t, s := e.ghostMap(tk, name, gt)
	return SVal{V: Select(h, r), T: t, S: s}
}

func (e *SEnv) index(x *Expr) SVal {
	v := e.eval(x.Args[0])
	if v.T == nil || v.T != nil && v.S != "" && strings.HasPrefix(v.S, "(Array") {
		t := v.V.(*Term)
		if t.Sort == SSeq {
			return mathI(At(t, e.intT(x.Args[1])))
		}
		if strings.HasPrefix(t.Sort, "(Array") {
			ks, _ := arrSplit(t.Sort)
			k := e.eval(x.Args[1])
			kt := e.scalar(x, k)
			if ks == SSeq && kt.Sort != SSeq {
				kt = e.seqOf(x, k)
			}
			return mathI(Select(t, kt))
		}
		e.fail(x, "index of %s", t.Sort)
	}
	switch u := under(v.T).(type) {
	case *types.Slice:
		i := e.intT(x.Args[1])
		s := v.V.(SliceV)
		r := e.load(PtrV{Ref: s.Arr, Root: u.Elem(), Elem: Add(s.Off, i)})
		return SVal{V: r, T: u.Elem()}
	case *types.Array:
		i := e.intT(x.Args[1])
		return SVal{V: unboxTerm(At(v.V.(*Term), i), flatten(u.Elem())[0].sort), T: u.Elem()}
	case *types.Pointer:
		at := under(u.Elem()).(*types.Array)
		i := e.intT(x.Args[1])
		p := e.ex.ptr(v.V, u.Elem())
		r := e.load(PtrV{Ref: p.Ref, Root: at.Elem(), Elem: i})
		return SVal{V: r, T: at.Elem()}
	case *types.Map:
		k := e.eval(x.Args[1])
		m := e.scalar(x, v)
		return SVal{V: e.ex.mapGet(e.st, m, u, e.mapKeyS(x, k, u.Key())), T: u.Elem()}
	case *types.Basic:
		return mathI(At(v.V.(*Term), e.intT(x.Args[1])))
	}
	e.fail(x, "index of %s", v.T)
	return SVal{}
}

func (e *SEnv) mapKeyS(x *Expr, k SVal, kt types.Type) *Term {
	switch k.V.(type) {
	case SliceV:
		return e.seqOf(x, k)
	}
	if k.T != nil {
		return e.ex.mapKey(k.V, kt)
	}
	return e.scalar(x, k)
}

func (e *SEnv) bin(x *Expr) SVal {
	switch x.Str {
	case "&&":
		return mathI(And(e.boolT(x.Args[0]), e.boolT(x.Args[1])))
	case "||":
		return mathI(Or(e.boolT(x.Args[0]), e.boolT(x.Args[1])))
	case "==>":
		return mathI(Imp(e.boolT(x.Args[0]), e.boolT(x.Args[1])))
	case "<==>":
		return mathI(Eq(e.boolT(x.Args[0]), e.boolT(x.Args[1])))
	}
	a, b := e.eval(x.Args[0]), e.eval(x.Args[1])
	switch x.Str {
	case "==":
		return mathI(e.equal(x, a, b))
	case "!=":
		return mathI(Not(e.equal(x, a, b)))
	}
	p, q := e.intOf(x.Args[0], a), e.intOf(x.Args[1], b)
	switch x.Str {
	case "<":
		return mathI(Lt(p, q))
	case "<=":
		return mathI(Le(p, q))
	case ">":
		return mathI(Gt(p, q))
	case ">=":
		return mathI(Ge(p, q))
	case "+":
		return mathI(Add(p, q))
	case "-":
		return mathI(Sub(p, q))
	case "*":
		return mathI(Mul(p, q))
	case "/":
		return mathI(DivF(p, q))
	case "%":
		return mathI(ModF(p, q))
	}
	e.fail(x, "operator %s", x.Str)
	return SVal{}
}

func (e *SEnv) equal(x *Expr, a, b SVal) *Term {
	if a.S == "nil" {
		a, b = b, a
	}
	if b.S == "nil" {
		switch v := a.V.(type) {
		case SliceV:
			return Eq(v.Arr, I(0))
		case IfaceV:
			return Eq(v.Tag, I(0))
		case PtrV:
			if len(v.Path) > 0 || v.Elem != nil {
				return FALSE
			}
			return Eq(v.Ref, I(0))
		case *Term:
			if v.Sort == SInt {
				return Eq(v, I(0))
			}
		case FuncV:
			return B(v.Fn == nil && v.Key == "")
		case nil:
			return TRUE
		}
		e.fail(x, "comparison of %v with nil", a.T)
	}
	ia, oka := a.V.(IfaceV)
	ib, okb := b.V.(IfaceV)
	if oka && okb {
		return e.ex.ifaceEq(ia, ib)
	}
	if oka && b.T != nil {
		return e.ex.ifaceEq(ia, e.ex.mkIface(b.V, b.T).(IfaceV))
	}
	if okb && a.T != nil {
		return e.ex.ifaceEq(e.ex.mkIface(a.V, a.T).(IfaceV), ib)
	}
	_, sa := a.V.(SliceV)
	_, sb := b.V.(SliceV)
	if sa || sb {
		return Eq(e.seqOf(x, a), e.seqOf(x, b))
	}
	if a.T != nil && b.T != nil {
		if _, ok := a.V.(StructV); ok {
			return e.ex.eqVal(a.V, b.V, a.T)
		}
		if ta, ok := a.V.(TupleV); ok {
			r := TRUE
			for i, v := range ta.V {
				r = And(r, Eq(v.(*Term), b.V.(TupleV).V[i].(*Term)))
			}
			return r
		}
	}
	p, q := e.scalar(x, a), e.scalar(x, b)
	if p.Sort != q.Sort {
		e.fail(x, "comparison of %s and %s", p.Sort, q.Sort)
	}
	return Eq(p, q)
}

var bvN int

func (e *SEnv) quant(x *Expr) SVal {
	n := e.child()
	var vs []*Term
	guard := TRUE
	for _, b := range x.Binds {
		t, s := e.ex.P.resolveType(b.Type)
		if t == nil && s == "" {
			e.fail(x, "unknown type %q", b.Type)
		}
		e.ex.bvN++
		nm := fmt.Sprintf("%s?%d", b.Name, e.ex.bvN)
		if t == nil {
			v := BVar(nm, s)
			vs = append(vs, v)
			n.vars[b.Name] = SVal{V: v, S: s}
			continue
		}
		var ts []*Term
		for _, c := range flatten(t) {
			v := BVar(nm+c.suf, c.sort)
			vs = append(vs, v)
			ts = append(ts, v)
			if c.kind == "int" {
				if lo, hi, ok := intRange(c.typ); ok {
					guard = And(guard, Le(IB(lo), v), Le(v, IB(hi)))
				}
			}
		}
		val, _ := fromTerms(ts, t)
		n.vars[b.Name] = SVal{V: val, T: t}
	}
	var trig [][]*Term
	for _, ts := range x.Trig {
		var tt []*Term
		for _, a := range ts {
			v := n.eval(a)
			t := n.trigTerm(a, v)
			tt = append(tt, t)
		}
		trig = append(trig, tt)
	}
	// drop trigger groups that lost all bound variables or are not patterns
	var good [][]*Term
	for _, ts := range trig {
		ok := len(ts) > 0
		for _, t := range ts {
			if !t.bound || !isPattern(t) {
				ok = false
			}
		}
		if ok {
			for _, v := range vs {
				occ := false
				for _, t := range ts {
					occ = occ || occurs(v, t)
				}
				if !occ {
					ok = false
				}
			}
		}
		if ok {
			good = append(good, ts)
		}
	}
	body := n.boolT(x.Args[0])
	if x.Op == "forall" {
		b := Imp(guard, body)
		vs, good, b = shiftIndex(vs, good, b)
		return mathI(Forall(vs, good, b))
	}
	b := Imp(guard, Not(body))
	vs, good, b = shiftIndex(vs, good, b)
	return mathI(Not(Forall(vs, good, b)))
}

// shiftIndex replaces a bound variable i that the triggers use only as X[c+i]
// by j = c+i, so that E-matching finds X[t] for every term t.
func shiftIndex(vs []*Term, trig [][]*Term, body *Term) ([]*Term, [][]*Term, *Term) {
	out := append([]*Term{}, vs...)
	for k, v := range vs {
		if v.Sort != SInt {
			continue
		}
		var idx *Term
		ok := true
		var walk func(t *Term)
		walk = func(t *Term) {
			if !t.bound || !ok {
				return
			}
			if t == v {
				ok = false
				return
			}
			if (t.Op == "at" || t.Op == "select") && t.Args[1].Op == "lin" && occurs(v, t.Args[1]) {
				if idx != nil && idx != t.Args[1] {
					ok = false
					return
				}
				idx = t.Args[1]
				walk(t.Args[0])
				return
			}
			for _, a := range t.Args {
				walk(a)
			}
		}
		for _, ts := range trig {
			for _, t := range ts {
				walk(t)
			}
		}
		if !ok || idx == nil {
			continue
		}
		m, _ := linOf(idx)
		if c := m[v]; c == nil || c.Cmp(big.NewInt(1)) != 0 {
			continue
		}
		rest := Sub(idx, v)
		for _, w := range out {
			if occurs(w, rest) {
				ok = false
			}
		}
		if !ok {
			continue
		}
		nv := BVar(v.Name+"+", v.Sort)
		sm := map[*Term]*Term{v: Sub(nv, rest)}
		body = Subst(body, sm)
		var nt [][]*Term
		for _, ts := range trig {
			var r []*Term
			for _, t := range ts {
				r = append(r, Subst(t, sm))
			}
			nt = append(nt, r)
		}
		trig = nt
		out[k] = nv
	}
	return out, trig, body
}

func isPattern(t *Term) bool {
	switch t.Op {
	case "select", "at", "app", "len", "sub", "cat", "upd", "rep":
		return true
	}
	return false
}

func (e *SEnv) trigTerm(x *Expr, v SVal) *Term {
	switch y := v.V.(type) {
	case *Term:
		return y
	case IfaceV:
		return y.Val
	case SliceV:
		return y.Arr
	}
	return e.scalar(x, v)
}

func (e *SEnv) pred(x *Expr, d *PredDef, args []SVal) SVal {
	if e.dep > 40 {
		e.fail(x, "predicate %s recurses", d.Name)
	}
	n := *e
	n.dep++
	n.vars = map[string]SVal{}
	if len(args) != len(d.Params) {
		e.fail(x, "%s takes %d arguments", d.Name, len(d.Params))
	}
	for i, p := range d.Params {
		v := args[i]
		if v.S == "nil" {
			if t, _ := e.ex.P.resolveType(p.Type); t != nil {
				v = SVal{V: zeroValue(t), T: t}
			}
		}
		if p.Type == "seq" {
			v = mathI(e.seqOf(x, v))
		}
		n.vars[p.Name] = v
	}
	return n.eval(d.Body)
}

func (e *SEnv) callS(x *Expr) SVal {
	P := e.ex.P
	arg := func(i int) SVal {
		if i >= len(x.Args) {
			e.fail(x, "missing argument of %s", x.Str)
		}
		return e.eval(x.Args[i])
	}
	switch x.Str {
	case "old":
		n := *e
		if e.old == nil {
			e.fail(x, "old() not available here")
		}
		n.st = e.old
		return n.eval(x.Args[0])
	case "pre":
		// value at loop entry
		if e.entry == nil {
			e.fail(x, "pre() not available here")
		}
		n := e.child()
		n.st = e.entry
		for k, v := range e.vars {
			if strings.HasSuffix(k, "@pre") {
				n.vars[strings.TrimSuffix(k, "@pre")] = v
			}
		}
		return n.eval(x.Args[0])
	case "len":
		v := arg(0)
		switch y := v.V.(type) {
		case SliceV:
			return mathI(y.Len)
		case *Term:
			if y.Sort == SSeq {
				return mathI(Len(y))
			}
		case nil:
			return mathI(I(0))
		}
		if at, ok := under(v.T).(*types.Array); ok {
			return mathI(I(at.Len()))
		}
		e.fail(x, "len of %v", v.T)
	case "bytes", "content":
		if v := arg(0); v.T != nil {
			if pt, ok := under(v.T).(*types.Pointer); ok {
				if _, ok := under(pt.Elem()).(*types.Array); ok {
					// what a pointer to an array of bytes points to
					if t, ok := e.load(e.ex.ptr(v.V, pt.Elem())).(*Term); ok && t.Sort == SSeq {
						return mathI(t)
					}
				}
			}
		}
		return mathI(e.seqOf(x, arg(0)))
	case "has":
		m := arg(0)
		mt, ok := under(m.T).(*types.Map)
		if !ok {
			e.fail(x, "has: not a map")
		}
		k := e.mapKeyS(x, arg(1), mt.Key())
		r := e.scalar(x, m)
		if cm, ok := P.constMap(r); ok {
			in := FALSE
			kv := arg(1)
			for _, c := range cm {
				in = Or(in, e.ex.eqVal(kv.V, c.K, mt.Key()))
			}
			return mathI(in)
		}
		_, d, _, _, _ := e.ex.mapMaps(e.st, mt)
		return mathI(And(Not(Eq(r, I(0))), Select(Select(d, r), k)))
	case "dom":
		m := arg(0)
		mt := under(m.T).(*types.Map)
		_, d, _, _, _ := e.ex.mapMaps(e.st, mt)
		return mathI(Select(d, e.scalar(x, m)))
	case "is":
		v := arg(0)
		if x.Args[1].Op != "str" {
			e.fail(x, "is(x, \"type\")")
		}
		t, _ := P.resolveType(x.Args[1].Str)
		if t == nil {
			e.fail(x, "unknown type %s", x.Args[1].Str)
		}
		iv, ok := v.V.(IfaceV)
		if !ok {
			if v.T != nil {
				return mathI(B(types.Identical(v.T, t)))
			}
			e.fail(x, "is: not an interface")
		}
		return mathI(Eq(iv.Tag, tagOf(t)))
	case "as":
		v := arg(0)
		t, _ := P.resolveType(x.Args[1].Str)
		if t == nil {
			e.fail(x, "unknown type %s", x.Args[1].Str)
		}
		if iv, ok := v.V.(IfaceV); ok {
			return SVal{V: e.ex.unIfaceRaw(iv, t), T: t}
		}
		if tt, ok := v.V.(*Term); ok {
			return SVal{V: tt, T: t}
		}
		return SVal{V: v.V, T: t}
	case "iface":
		v := arg(0)
		return SVal{V: e.ex.mkIface(v.V, v.T), T: types.NewInterfaceType(nil, nil)}
	case "tag":
		v := arg(0)
		return mathI(v.V.(IfaceV).Tag)
	case "typetag":
		t, _ := P.resolveType(x.Args[0].Str)
		return mathI(tagOf(t))
	case "ref":
		v := arg(0)
		switch y := v.V.(type) {
		case SliceV:
			return mathI(y.Arr)
		case IfaceV:
			return mathI(y.Val)
		}
		return mathI(e.scalar(x, v))
	case "same":
		a, b := arg(0), arg(1)
		pa, oka := a.V.(SliceV)
		pb, okb := b.V.(SliceV)
		if oka && okb {
			return mathI(And(Eq(pa.Arr, pb.Arr), Eq(pa.Off, pb.Off), Eq(pa.Len, pb.Len)))
		}
		return mathI(Eq(e.scalar(x, a), e.scalar(x, b)))
	case "fresh":
		v := arg(0)
		r := e.refOf(x, v)
		from := e.old
		if from == nil {
			e.fail(x, "fresh() not available here")
		}
		return mathI(And(Ge(r, from.alloc()), Lt(r, e.st.alloc())))
	case "allocated":
		r := e.refOf(x, arg(0))
		return mathI(And(Lt(r, e.st.alloc()), Gt(r, I(0))))
	case "allocnow":
		return mathI(e.st.alloc())
	case "cat":
		var ss []*Term
		for i := range x.Args {
			ss = append(ss, e.seqOf(x, arg(i)))
		}
		return mathI(Cat(ss...))
	case "lit":
		var ss []*Term
		for i := range x.Args {
			ss = append(ss, boxTerm(e.scalar(x, arg(i))))
		}
		return mathI(Lit(ss...))
	case "sub":
		return mathI(SubSeq(e.seqOf(x, arg(0)), e.intT(x.Args[1]), e.intT(x.Args[2])))
	case "rep":
		return mathI(Rep(boxTerm(e.scalar(x, arg(0))), e.intT(x.Args[1])))
	case "upd":
		a := e.scalar(x, arg(0))
		if a.Sort == SSeq {
			return mathI(Upd(a, e.intT(x.Args[1]), boxTerm(e.scalar(x, arg(2)))))
		}
		k := arg(1)
		kt := e.scalar(x, k)
		ks, _ := arrSplit(a.Sort)
		if ks == SSeq && kt.Sort != SSeq {
			kt = e.seqOf(x, k)
		}
		return mathI(Store(a, kt, e.scalar(x, arg(2))))
	case "box":
		return mathI(boxTerm(e.scalar(x, arg(0))))
	case "unboxseq":
		return mathI(unboxTerm(e.intT(x.Args[0]), SSeq))
	case "unboxbool":
		return mathI(unboxTerm(e.intT(x.Args[0]), SBool))
	case "at":
		return mathI(At(e.seqOf(x, arg(0)), e.intT(x.Args[1])))
	case "atS": // element sequence of a slice of byte arrays
		return mathI(unboxTerm(At(e.seqOf(x, arg(0)), e.intT(x.Args[1])), SSeq))
	case "constarr":
		_, s := P.resolveType(x.Args[0].Str)
		return mathI(ConstArr(s, e.scalar(x, arg(1))))
	case "global":
		// global("pkg.Var"): value of a package variable
		name := x.Args[0].Str
		g := P.findGlobal(name)
		if g == nil {
			e.fail(x, "unknown variable %s", name)
		}
		t := g.Type().(*types.Pointer).Elem()
		if v, ok := P.globalConst(e.ex, g); ok {
			e.ex.assumeConstArrs(e.st)
			return SVal{V: v, T: t}
		}
		return SVal{V: e.load(PtrV{Ref: P.globalRef(g), Root: t}), T: t}
	case "const":
		name := x.Args[0].Str
		for _, sp := range P.Pkgs {
			pk, nm := name[:strings.Index(name, ".")], name[strings.Index(name, ".")+1:]
			if sp.Pkg.Name() == pk {
				if c, ok := sp.Pkg.Scope().Lookup(nm).(*types.Const); ok {
					return SVal{V: e.ex.constVal(c.Val(), c.Type()), T: c.Type()}
				}
			}
		}
		e.fail(x, "unknown constant %s", name)
	case "member":
		// member("pkg.Type.name"): number of a member messages are decoded into
		return mathI(memberID(x.Args[0].Str))
	case "toint":
		v := arg(0)
		return mathI(e.scalar(x, v))
	case "b2i":
		return mathI(boxTerm(e.boolT(x.Args[0])))
	case "max":
		a, b := e.intT(x.Args[0]), e.intT(x.Args[1])
		return mathI(Ite(Ge(a, b), a, b))
	case "min":
		a, b := e.intT(x.Args[0]), e.intT(x.Args[1])
		return mathI(Ite(Le(a, b), a, b))
	case "rawfield":
		// rawfield("T", "f", ref): field of an object given by reference number
		t, _ := P.resolveType(x.Args[0].Str)
		return e.field(x, SVal{V: e.scalar(x, arg(2)), T: types.NewPointer(t)}, x.Args[1].Str)
	case "ptr":
		// ptr("T", r): reference number as *T
		t, _ := P.resolveType(x.Args[0].Str)
		if t == nil {
			e.fail(x, "unknown type %s", x.Args[0].Str)
		}
		return SVal{V: e.scalar(x, arg(1)), T: types.NewPointer(t)}
	case "ghost":
		// ghost("name", x): ghost state a model attaches to an object
		n := "G:" + x.Args[0].Str
		l, ok := P.layout(n)
		if !ok {
			e.fail(x, "unknown ghost %s", n)
		}
		h := e.ex.H(e.st, n, l.sort, l)
		r := I(0)
		if len(x.Args) > 1 {
			v := arg(1)
			if iv, ok := v.V.(IfaceV); ok {
				r = iv.Val
			} else {
				r = e.scalar(x, v)
			}
		}
		return mathI(Select(h, r))
	case "lockheld":
		// ghost lock state: 0 free, 1 shared, 2 exclusive
		v := arg(0)
		n := "G:lock"
		h := e.ex.H(e.st, n, arrSort(SInt, SInt), heapInfo{comp: comp{sort: SInt, kind: "ghost"}})
		return mathI(Select(h, e.lockOf(x, v)))
	}
	if d, ok := P.Specs.Preds[x.Str]; ok {
		var as []SVal
		for i := range x.Args {
			as = append(as, arg(i))
		}
		return e.pred(x, d, as)
	}
	if d, ok := P.Specs.Funcs[x.Str]; ok {
		var ts []*Term
		for i := range x.Args {
			v := arg(i)
			want := SInt
			if i < len(d.Args) {
				t, s := P.resolveType(d.Args[i])
				if t != nil {
					s = flatten(t)[0].sort
				}
				want = s
			}
			var t *Term
			if want == SSeq {
				t = e.seqOf(x, v)
			} else {
				t = e.scalar(x, v)
			}
			if t.Sort != want {
				e.fail(x, "argument %d of %s: %s expected, got %s", i, x.Str, want, t.Sort)
			}
			ts = append(ts, t)
		}
		t, s := P.resolveType(d.Res)
		if t != nil {
			s = flatten(t)[0].sort
		}
		return SVal{V: App(x.Str, s, ts...), T: t, S: s}
	}
	e.fail(x, "unknown function %s", x.Str)
	return SVal{}
}

func (e *SEnv) refOf(x *Expr, v SVal) *Term {
	switch y := v.V.(type) {
	case SliceV:
		return y.Arr
	case IfaceV:
		return y.Val
	}
	return e.scalar(x, v)
}

func (P *Prog) findGlobal(name string) *ssa.Global {
	i := strings.Index(name, ".")
	for _, sp := range P.Pkgs {
		if sp.Pkg.Name() == name[:i] {
			if g, ok := sp.Members[name[i+1:]].(*ssa.Global); ok {
				return g
			}
		}
	}
	return nil
}

// loadRaw reads memory without recording typing facts.
func (ex *Exec) loadRaw(st *State, p PtrV) Value {
	var ts []*Term
	var t types.Type
	pn, t := pathName(p.Root, p.Path)
	if p.Elem != nil {
		for _, c := range flatten(t) {
			cc := c
			cc.suf = pn + c.suf
			_, e := ex.elemMap(st, p.Root, cc)
			ts = append(ts, unboxTerm(At(Select(e, p.Ref), p.Elem), c.sort))
		}
	} else {
		for _, c := range flatten(t) {
			_, h := ex.fieldMap(st, p.Root, p.Path, c)
			ts = append(ts, Select(h, p.Ref))
		}
	}
	if p.AIdx != nil {
		at := under(t).(*types.Array)
		var es []*Term
		for i, c := range flatten(at.Elem()) {
			es = append(es, unboxTerm(At(ts[i], p.AIdx), c.sort))
		}
		v, _ := fromTerms(es, at.Elem())
		return v
	}
	v, _ := fromTerms(ts, t)
	return v
}

func (ex *Exec) unIfaceRaw(v IfaceV, t types.Type) Value {
	if v.Dyn != nil && types.Identical(v.Dyn, t) {
		return v.DynV
	}
	cs := flatten(t)
	var ts []*Term
	if len(cs) == 1 {
		ts = []*Term{unboxTerm(v.Val, cs[0].sort)}
	} else if v.Val.Op == "app" && v.Val.Name == "box!"+typeKey(t) {
		ts = v.Val.Args
	} else {
		for i, c := range cs {
			ts = append(ts, App(fmt.Sprintf("unbox!%s!%d", typeKey(t), i), c.sort, v.Val))
		}
	}
	r, _ := fromTerms(ts, t)
	return r
}

// assumeConstArrs records the contents of constant backing arrays
func (ex *Exec) assumeConstArrs(st *State) {
	for _, c := range ex.constArrs {
		h := ex.H(st, c.name, arrSort(SInt, SSeq), heapInfo{comp: c.comp, elem: true})
		t := Select(h, c.ref)
		if t != c.content {
			st.assume(Eq(t, c.content))
		}
	}
}

// lockOf: the mutex inside an object, in the form lockRef gives
func (e *SEnv) lockOf(x *Expr, v SVal) *Term {
	r := e.scalar(x, v)
	if v.T == nil {
		return r
	}
	pt, ok := under(v.T).(*types.Pointer)
	if !ok {
		return r
	}
	st, ok := under(pt.Elem()).(*types.Struct)
	if !ok {
		return r
	}
	for i := 0; i < st.NumFields(); i++ {
		if k := typeKey(st.Field(i).Type()); k == "sync.RWMutex" || k == "sync.Mutex" {
			return App("mutexin", SInt, r, I(int64(i)))
		}
	}
	return r
}

// exprGlobals names the package variables an expression mentions.
func exprGlobals(x *Expr) []string {
	if x == nil {
		return nil
	}
	var out []string
	if x.Op == "call" && x.Str == "global" && len(x.Args) > 0 {
		out = append(out, x.Args[0].Str)
	}
	for _, a := range x.Args {
		out = append(out, exprGlobals(a)...)
	}
	return out
}
