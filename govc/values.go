package main

// Symbolic values, type layout and heap access.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type SliceV struct{ Arr, Off, Len, Cap *Term }
type IfaceV struct {
	Tag, Val *Term
	Dyn      types.Type // statically known dynamic type, if any
	DynV     Value
}
type StructV struct{ F []Value }
type PtrV struct {
	Ref  *Term
	Root types.Type // type of the object (element type if Elem != nil)
	Elem *Term
	Path []int
	AIdx *Term // index into an embedded array
}
type FuncV struct {
	Fn    *ssa.Function
	Bind  []Value
	Key   string // provenance of an unknown function value
	T     *Term
	Model string
	Conf  *Conf // the behaviour a contract promises of this value
}

// Conf: a function value behaves as the contract Spec, whose first parameters are Pre
type Conf struct {
	Spec *FnSpec
	Pre  []SVal
}
type TupleV struct{ V []Value }
type IterV struct {
	Map   *Term
	MT    *types.Map
	Key   string // ghost visited map name in state
	IsStr bool
	Str   *Term
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

type comp struct {
	suf  string
	sort string
	typ  types.Type // leaf type
	kind string     // int bool seq arr off len cap tag val ref
}

func under(t types.Type) types.Type { return t.Underlying() }

func isByteLike(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
}

var termMu2 sync.Mutex

var flatCache = map[string][]comp{}

func typeKey(t types.Type) string {
	t = types.Unalias(t)
	switch x := t.(type) {
	case *types.Named:
		o := x.Obj()
		if o.Pkg() == nil {
			return o.Name()
		}
		s := o.Pkg().Name() + "." + o.Name()
		if ta := x.TypeArgs(); ta != nil && ta.Len() > 0 {
			s = types.TypeString(x, func(p *types.Package) string { return p.Name() })
		}
		if o.Parent() != nil && o.Parent() != o.Pkg().Scope() {
			s += fmt.Sprintf("@%d", o.Pos())
		}
		return s
	case *types.Pointer:
		return "*" + typeKey(x.Elem())
	case *types.Slice:
		return "[]" + typeKey(x.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", x.Len(), typeKey(x.Elem()))
	case *types.Map:
		return "map[" + typeKey(x.Key()) + "]" + typeKey(x.Elem())
	case *types.Basic:
		if x.Kind() == types.Uint8 {
			return "uint8"
		}
		if x.Kind() == types.Int32 {
			return "int32"
		}
		return x.Name()
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func flatten(t types.Type) []comp {
	termMu2.Lock()
	defer termMu2.Unlock()
	return flatten1(t)
}

func flatten1(t types.Type) []comp {
	k := typeKey(t)
	if c, ok := flatCache[k]; ok {
		return c
	}
	c := flatten0(t)
	flatCache[k] = c
	return c
}

func flatten0(t types.Type) []comp {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []comp{{"", SBool, t, "bool"}}
		case u.Info()&types.IsString != 0:
			return []comp{{"", SSeq, t, "str"}}
		}
		return []comp{{"", SInt, t, "int"}}
	case *types.Pointer, *types.Map, *types.Chan:
		return []comp{{"", SInt, t, "ref"}}
	case *types.Signature:
		return []comp{{"", SInt, t, "func"}}
	case *types.Slice:
		return []comp{{".arr", SInt, t, "arr"}, {".off", SInt, t, "off"}, {".len", SInt, t, "len"}, {".cap", SInt, t, "cap"}}
	case *types.Interface:
		return []comp{{".tag", SInt, t, "tag"}, {".val", SInt, t, "val"}}
	case *types.Array:
		ec := flatten1(u.Elem())
		if len(ec) == 1 {
			return []comp{{"", SSeq, t, "array"}}
		}
		var out []comp
		for _, c := range ec {
			out = append(out, comp{"@" + c.suf, SSeq, t, "array"})
		}
		return out
	case *types.Struct:
		var out []comp
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, c := range flatten1(f.Type()) {
				c.suf = "." + f.Name() + c.suf
				out = append(out, c)
			}
		}
		return out
	case *types.Tuple:
		return nil
	}
	return []comp{{"", SInt, t, "int"}}
}

// element encoding inside sequences: every component is an Int
func boxTerm(t *Term) *Term {
	switch t.Sort {
	case SInt:
		return t
	case SBool:
		if t == TRUE {
			return I(1)
		}
		if t == FALSE {
			return I(0)
		}
		return Ite(t, I(1), I(0))
	case SSeq:
		return App("boxseq", SInt, t)
	}
	panic("boxTerm " + t.Sort)
}
func unboxTerm(t *Term, sort string) *Term {
	switch sort {
	case SInt:
		return t
	case SBool:
		return Eq(t, I(1))
	case SSeq:
		if t.Op == "app" && t.Name == "boxseq" {
			return t.Args[0]
		}
		return App("unboxseq", SSeq, t)
	}
	panic("unboxTerm " + sort)
}

func toTerms(v Value, t types.Type) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case SliceV:
		return []*Term{x.Arr, x.Off, x.Len, x.Cap}
	case IfaceV:
		return []*Term{x.Tag, x.Val}
	case StructV:
		var out []*Term
		st := under(t).(*types.Struct)
		for i, f := range x.F {
			out = append(out, toTerms(f, st.Field(i).Type())...)
		}
		return out
	case FuncV:
		if x.T != nil {
			return []*Term{x.T}
		}
		return []*Term{funcTerm(x)}
	case TupleV: // arrays of multi-component elements
		var out []*Term
		for _, y := range x.V {
			out = append(out, y.(*Term))
		}
		return out
	case PtrV:
		return []*Term{interiorTerm(x)}
	}
	unsup("toTerms %T of %s", v, t)
	return nil
}

var funcVals = map[*Term]FuncV{}
var interVals = map[*Term]PtrV{}

func funcTerm(f FuncV) *Term {
	termMu2.Lock()
	defer termMu2.Unlock()
	k := f.Key
	if f.Fn != nil {
		k = f.Fn.String()
	}
	funcN++
	t := Sym(fmt.Sprintf("fn!%s!%d", k, funcN), SInt)
	t.gen = 1
	t.lo = big.NewInt(1)
	funcVals[t] = f
	return t
}

func interiorTerm(p PtrV) *Term {
	termMu2.Lock()
	defer termMu2.Unlock()
	funcN++
	t := Sym(fmt.Sprintf("iptr!%d", funcN), SInt)
	t.gen = 1
	t.lo = big.NewInt(1)
	interVals[t] = p
	return t
}

var funcN int

func fromTerms(ts []*Term, t types.Type) (Value, []*Term) {
	switch u := under(t).(type) {
	case *types.Slice:
		return SliceV{ts[0], ts[1], ts[2], ts[3]}, ts[4:]
	case *types.Interface:
		return IfaceV{Tag: ts[0], Val: ts[1]}, ts[2:]
	case *types.Struct:
		var fs []Value
		for i := 0; i < u.NumFields(); i++ {
			var v Value
			v, ts = fromTerms(ts, u.Field(i).Type())
			fs = append(fs, v)
		}
		return StructV{fs}, ts
	case *types.Array:
		n := len(flatten(u.Elem()))
		if n == 1 {
			return ts[0], ts[1:]
		}
		var vs []Value
		for i := 0; i < n; i++ {
			vs = append(vs, ts[i])
		}
		return TupleV{vs}, ts[n:]
	case *types.Signature:
		termMu2.Lock()
		f, ok := funcVals[ts[0]]
		termMu2.Unlock()
		if ok {
			return f, ts[1:]
		}
		return FuncV{T: ts[0]}, ts[1:]
	case *types.Pointer:
		termMu2.Lock()
		p, ok := interVals[ts[0]]
		termMu2.Unlock()
		if ok {
			return p, ts[1:]
		}
	}
	return ts[0], ts[1:]
}

func zeroTerm(c comp) *Term {
	switch c.sort {
	case SBool:
		return FALSE
	case SSeq:
		if c.kind == "array" {
			at := under(c.typ).(*types.Array)
			return Rep(I(0), I(at.Len()))
		}
		return SEMPTY
	}
	return I(0)
}

func zeroValue(t types.Type) Value {
	var ts []*Term
	for _, c := range flatten(t) {
		if c.kind == "array" {
			at := under(c.typ).(*types.Array)
			if ec := flatten(at.Elem()); len(ec) == 1 && ec[0].sort == SSeq {
				ts = append(ts, Rep(boxTerm(zeroTerm(ec[0])), I(at.Len())))
				continue
			}
		}
		ts = append(ts, zeroTerm(c))
	}
	v, _ := fromTerms(ts, t)
	return v
}

// ---- type tags ----

var tagIDs = map[string]int64{}
var tagTypes = map[int64]types.Type{}

func tagOf(t types.Type) *Term {
	termMu2.Lock()
	defer termMu2.Unlock()
	k := typeKey(t)
	id, ok := tagIDs[k]
	if !ok {
		id = int64(len(tagIDs) + 1)
		tagIDs[k] = id
		tagTypes[id] = t
	}
	return I(id)
}

// ---- integers ----

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits, signed := intBits(b)
	one := big.NewInt(1)
	if signed {
		h := new(big.Int).Lsh(one, uint(bits-1))
		return new(big.Int).Neg(h), new(big.Int).Sub(h, one), true
	}
	h := new(big.Int).Lsh(one, uint(bits))
	return new(big.Int), new(big.Int).Sub(h, one), true
}

func intBits(b *types.Basic) (int, bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 64, false
}

var maxLen = new(big.Int).Lsh(big.NewInt(1), 47)

// ---- heap ----

type State struct {
	pc     []*Term
	heap   map[string]*Term
	allocG *Term // current allocation symbol
	allocK int64
	env    map[envKey]Value
	iters  map[string]*Term
	known  map[*Term]bool // facts for quick membership
	defers map[int][]*deferred
	depth  int
	trace  []string
	excl   map[*Term]bool // backing arrays only one live value can reach
	unrolled map[loopKey]int
	symMark int
}

type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
	in   ssa.Instruction
}

type envKey struct {
	f int
	v ssa.Value
}

func (s *State) clone() *State {
	n := &State{pc: s.pc[:len(s.pc):len(s.pc)], heap: make(map[string]*Term, len(s.heap)), allocG: s.allocG, allocK: s.allocK,
		env: make(map[envKey]Value, len(s.env)), iters: make(map[string]*Term, len(s.iters)), known: make(map[*Term]bool, len(s.known)), defers: map[int][]*deferred{}, depth: s.depth,
		trace: s.trace[:len(s.trace):len(s.trace)], excl: s.excl, unrolled: s.unrolled}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.iters {
		n.iters[k] = v
	}
	for k := range s.known {
		n.known[k] = true
	}
	for k, v := range s.defers {
		n.defers[k] = v[:len(v):len(v)]
	}
	return n
}

func (s *State) assume(t *Term) {
	if t == TRUE || s.known[t] {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	s.known[t] = true
	s.pc = append(s.pc, t)
}

func (s *State) alloc() *Term { return AddI(s.allocG, s.allocK) }

func refKind(k string) bool { return k == "ref" || k == "arr" }

// heapMapSort: name -> sort is recorded on first use
type heapInfo struct {
	sort string
	ref  bool
	comp comp
	elem bool // backing array contents
}

func sortedKeys(m map[string]*Term) []string {
	var k []string
	for n := range m {
		k = append(k, n)
	}
	sort.Strings(k)
	return k
}

func pathName(root types.Type, path []int) (string, types.Type) {
	t := root
	var b strings.Builder
	for _, i := range path {
		st, ok := under(t).(*types.Struct)
		if !ok {
			unsup("path into %s", t)
		}
		b.WriteString("." + st.Field(i).Name())
		t = st.Field(i).Type()
	}
	return b.String(), t
}

func objMap(root types.Type) string {
	if _, ok := under(root).(*types.Array); ok {
		return "E:" + typeKey(under(root).(*types.Array).Elem())
	}
	return "F:" + typeKey(root)
}
