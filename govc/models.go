package main

// Models of external functions that cannot be written as plain contracts.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	ex   *Exec
	fr   *Frame
	site ssa.Instruction
	fn   *ssa.Function
	args []Value
	st   *State
	sig  *types.Signature
}

func (c *callCtx) check(g *Term, kind, what string) {
	c.ex.check(c.st, g, kind, what, c.site.Pos(), nil)
}

// bytes of argument i (slice of bytes or string)
func (c *callCtx) seq(i int) *Term {
	switch v := c.args[i].(type) {
	case *Term:
		return v
	case SliceV:
		_, e := c.ex.elemMap(c.st, types.Typ[types.Uint8], flatten(types.Typ[types.Uint8])[0])
		return c.ex.sliceSeq(e, v)
	}
	unsup("byte argument %T", c.args[i])
	return nil
}

// write overwrites the first Len(s) elements of a byte slice
func (c *callCtx) write(v SliceV, off *Term, s *Term) {
	n, e := c.ex.elemMap(c.st, types.Typ[types.Uint8], flatten(types.Typ[types.Uint8])[0])
	c.st.heap[n] = Store(e, v.Arr, Splice(Select(e, v.Arr), Add(v.Off, off), s, Len(s)))
}

func (c *callCtx) newBytes(s *Term) SliceV { return c.ex.newBytes(c.st, s, false) }

// gmap: ghost map of models
func (c *callCtx) gmap(name, sort string) (string, *Term) {
	n := "G:" + name
	return n, c.ex.H(c.st, n, arrSort(SInt, sort), heapInfo{comp: comp{sort: sort, kind: "ghost"}})
}
func (c *callCtx) gget(name, sort string, r *Term) *Term {
	_, h := c.gmap(name, sort)
	return Select(h, r)
}
func (c *callCtx) gset(name, sort string, r, v *Term) {
	n, h := c.gmap(name, sort)
	c.st.heap[n] = Store(h, r, v)
}

// err branches: success and failure outcomes
func (c *callCtx) errIface(st *State) Value {
	e := c.ex.freshValue(st, "err", types.Universe.Lookup("error").Type()).(IfaceV)
	st.assume(Not(Eq(e.Tag, I(0))))
	return e
}

func nilErr() Value { return IfaceV{Tag: I(0), Val: I(0)} }

// xof: n bytes at position pos of the output stream of an extendable-output
// function applied to input abs
func xof(alg int64, abs, pos, n *Term) *Term {
	t := App("xof", SSeq, I(alg), abs, pos, n)
	return t
}

var models = map[string]func(*callCtx) []Outcome{}

// heap maps written by a model (the default for an external function is its
// results' object graph)
var modelMods = map[string][]string{}

var synthTypes = map[string]types.Type{}

func synthType(pkg, name string) types.Type {
	termMu2.Lock()
	defer termMu2.Unlock()
	k := pkg + "." + name
	if t, ok := synthTypes[k]; ok {
		return t
	}
	p := types.NewPackage(pkg, pkg)
	t := types.NewNamed(types.NewTypeName(0, p, name, nil), types.NewStruct(nil, nil), nil)
	synthTypes[k] = t
	return t
}

func leBytes(v *Term, n int) *Term {
	var bs []*Term
	for i := 0; i < n; i++ {
		bs = append(bs, ModF(DivF(v, IB(pow2(int64(8*i)))), I(256)))
	}
	return Lit(bs...)
}

func beBytes(v *Term, n int) *Term {
	var bs []*Term
	for i := n - 1; i >= 0; i-- {
		bs = append(bs, ModF(DivF(v, IB(pow2(int64(8*i)))), I(256)))
	}
	return Lit(bs...)
}

func putUint(n int, le bool) func(*callCtx) []Outcome {
	return func(c *callCtx) []Outcome {
		b := c.args[1].(SliceV)
		c.check(Ge(b.Len, I(int64(n))), "bounds", fmt.Sprintf("buffer of at least %d bytes", n))
		v := c.args[2].(*Term)
		s := leBytes(v, n)
		if !le {
			s = beBytes(v, n)
		}
		c.write(b, I(0), s)
		return one(c.st)
	}
}

func init() {

	m := models
	m["bytes.Equal"] = func(c *callCtx) []Outcome { return one(c.st, Eq(c.seq(0), c.seq(1))) }
	m["hmac.Equal"] = m["bytes.Equal"]
	m["subtle.ConstantTimeCompare"] = func(c *callCtx) []Outcome {
		return one(c.st, Ite(Eq(c.seq(0), c.seq(1)), I(1), I(0)))
	}
	m["bytes.Compare"] = func(c *callCtx) []Outcome {
		t := App("bytescmp", SInt, c.seq(0), c.seq(1))
		c.st.assume(And(Le(I(-1), t), Le(t, I(1))))
		return one(c.st, t)
	}
	m["bytes.Join"] = func(c *callCtx) []Outcome {
		s := c.args[0].(SliceV)
		n, ok := s.Len.ConstInt()
		if !ok || n > 64 {
			unsup("bytes.Join of a slice of unknown length")
		}
		bt := types.NewSlice(types.Typ[types.Uint8])
		sep := c.seq(1)
		var parts []*Term
		for i := int64(0); i < n; i++ {
			v := c.ex.load(c.st, PtrV{Ref: s.Arr, Root: bt, Elem: AddI(s.Off, i)})
			if i > 0 && sep != SEMPTY {
				parts = append(parts, sep)
			}
			parts = append(parts, c.ex.content(c.st, v, bt))
		}
		return one(c.st, c.newBytes(Cat(parts...)))
	}
	m["binary.littleEndian.PutUint64"] = putUint(8, true)
	m["binary.littleEndian.PutUint32"] = putUint(4, true)
	m["binary.littleEndian.PutUint16"] = putUint(2, true)
	m["binary.bigEndian.PutUint64"] = putUint(8, false)
	m["binary.bigEndian.PutUint32"] = putUint(4, false)
	m["binary.bigEndian.PutUint16"] = putUint(2, false)

	// ---- SHAKE ----
	newShake := func(alg int64) func(*callCtx) []Outcome {
		return func(c *callCtx) []Outcome {
			r := c.ex.newRef(c.st)
			c.gset("shake.alg", SInt, r, I(alg))
			c.gset("shake.abs", SSeq, r, SEMPTY)
			c.gset("shake.pos", SInt, r, I(0))
			return one(c.st, IfaceV{Tag: tagOf(types.NewPointer(synthType("sha3", "state"))), Val: r})
		}
	}
	shakeMods := []string{"G:shake.alg", "G:shake.abs", "G:shake.pos"}
	m["sha3.NewShake128"] = newShake(128)
	m["sha3.NewShake256"] = newShake(256)
	modelMods["sha3.NewShake128"] = shakeMods
	modelMods["sha3.NewShake256"] = shakeMods
	regLayout("G:shake.alg", heapInfo{sort: arrSort(SInt, SInt), comp: comp{sort: SInt, kind: "ghost"}})
	regLayout("G:shake.pos", heapInfo{sort: arrSort(SInt, SInt), comp: comp{sort: SInt, kind: "ghost"}})
	regLayout("G:shake.abs", heapInfo{sort: arrSort(SInt, SSeq), comp: comp{sort: SSeq, kind: "ghost"}})
	shakeWrite := func(c *callCtx) []Outcome {
		r := c.args[0].(IfaceV).Val
		c.check(Eq(c.gget("shake.pos", SInt, r), I(0)), "precondition", "hash is still absorbing (no Write after Read)")
		s := c.seq(1)
		c.gset("shake.abs", SSeq, r, Cat(c.gget("shake.abs", SSeq, r), s))
		return one(c.st, Len(s), nilErr())
	}
	shakeXof := func(c *callCtx, r, pos, n *Term) *Term {
		alg := c.gget("shake.alg", SInt, r)
		t := App("xof", SSeq, alg, c.gget("shake.abs", SSeq, r), pos, n)
		return t
	}
	shakeRead := func(c *callCtx) []Outcome {
		r := c.args[0].(IfaceV).Val
		b := c.args[1].(SliceV)
		pos := c.gget("shake.pos", SInt, r)
		t := shakeXof(c, r, pos, b.Len)
		c.st.assume(Eq(Len(t), b.Len))
		c.writeN(b, t, b.Len)
		// reading nothing still ends the absorbing phase
		c.gset("shake.pos", SInt, r, Add(pos, b.Len))
		return one(c.st, b.Len, nilErr())
	}
	shakeSum := func(c *callCtx) []Outcome {
		r := c.args[0].(IfaceV).Val
		alg := c.gget("shake.alg", SInt, r)
		n := Ite(Eq(alg, I(128)), I(32), I(64))
		t := shakeXof(c, r, c.gget("shake.pos", SInt, r), n)
		c.st.assume(Eq(Len(t), n))
		return one(c.st, c.newBytes(Cat(c.seq(1), t)))
	}
	shakeReset := func(c *callCtx) []Outcome {
		r := c.args[0].(IfaceV).Val
		c.gset("shake.abs", SSeq, r, SEMPTY)
		c.gset("shake.pos", SInt, r, I(0))
		return one(c.st)
	}
	m["sha3.ShakeHash.Write"] = shakeWrite
	m["sha3.ShakeHash.Read"] = shakeRead
	m["sha3.ShakeHash.Sum"] = shakeSum
	m["sha3.ShakeHash.Reset"] = shakeReset
	for _, k := range []string{"Write", "Read", "Sum", "Reset"} {
		modelMods["sha3.ShakeHash."+k] = shakeMods
	}
	sumXof := func(alg int64) func(c *callCtx) []Outcome {
		return func(c *callCtx) []Outcome {
			b := c.args[0].(SliceV)
			t := xof(alg, c.seq(1), I(0), b.Len)
			c.st.assume(Eq(Len(t), b.Len))
			c.writeN(b, t, b.Len)
			return one(c.st)
		}
	}
	m["sha3.ShakeSum256"] = sumXof(256)
	m["sha3.ShakeSum128"] = sumXof(128)

	// ---- Ed25519 signatures (library) ----
	m["ed25519.Sign"] = func(c *callCtx) []Outcome {
		k := c.seq(0)
		return c.panicUnless(Eq(c.args[0].(SliceV).Len, I(64)), func() Value {
			return c.newBytes(App("edsig", SSeq, k, c.seq(1)))
		})
	}
	m["ed25519.Verify"] = func(c *callCtx) []Outcome {
		return c.panicUnless(Eq(c.args[0].(SliceV).Len, I(32)), func() Value {
			return App("edver", SBool, c.seq(0), c.seq(1), c.seq(2))
		})
	}
	m["ed25519.PrivateKey.Public"] = func(c *callCtx) []Outcome {
		// copies the last 32 bytes; panics on shorter keys
		k := c.args[0].(SliceV)
		return c.panicUnless(Ge(k.Len, I(32)), func() Value {
			s := c.seq(0)
			pk := c.newBytes(Ite(Ge(Len(s), I(64)), SubSeq(s, I(32), I(64)), Cat(SubSeq(s, I(32), Len(s)), Rep(I(0), Sub(I(64), Len(s))))))
			t := c.ex.P.extType("ed25519", "PublicKey")
			if t == nil {
				unsup("ed25519.PublicKey not found")
			}
			return c.ex.mkIface(pk, t)
		})
	}
	m["ed25519.GenerateKey"] = func(c *callCtx) []Outcome {
		f := c.st.clone()
		bt := types.NewSlice(types.Typ[types.Uint8])
		e := c.errIface(f)
		z := zeroValue(bt)
		sk := App("edgen", SSeq, c.rnd())
		c.st.assume(Eq(Len(sk), I(64)))
		pk := c.newBytes(SubSeq(sk, I(32), I(64)))
		skv := c.newBytes(sk)
		return []Outcome{{st: c.st, ret: []Value{pk, skv, nilErr()}}, {st: f, ret: []Value{z, z, e}}}
	}
	// ---- randomness ----
	m["rand.Read"] = func(c *callCtx) []Outcome {
		b := c.args[0].(SliceV)
		f := c.st.clone()
		t := App("rndbytes", SSeq, c.rnd(), b.Len)
		c.st.assume(Eq(Len(t), b.Len))
		c.writeN(b, t, b.Len)
		cf := *c
		cf.st = f
		t2 := c.ex.fresh("rndfail", SSeq)
		f.assume(Eq(Len(t2), b.Len))
		cf.writeN(b, t2, b.Len)
		n := c.ex.freshValue(f, "n", types.Typ[types.Int])
		return []Outcome{{st: c.st, ret: []Value{b.Len, nilErr()}}, {st: f, ret: []Value{n, c.errIface(f)}}}
	}
	modelMods["rand.Read"] = []string{"G:rand"}
	modelMods["ed25519.GenerateKey"] = []string{"G:rand"}
	regLayout("G:rand", heapInfo{sort: arrSort(SInt, SInt), comp: comp{sort: SInt, kind: "ghost"}})

	// ---- connections ----
	// what has been written to a connection
	regLayout("G:conn.out", heapInfo{sort: arrSort(SInt, SSeq), comp: comp{sort: SSeq, kind: "ghost"}})
	connWrite := func(c *callCtx) []Outcome {
		var r *Term
		switch v := c.args[0].(type) {
		case IfaceV:
			r = v.Val
		case PtrV:
			r = v.Ref
		case *Term:
			r = v
		}
		s := c.seq(1)
		c.gset("conn.out", SSeq, r, Cat(c.gget("conn.out", SSeq, r), s))
		n := c.ex.freshValue(c.st, "n", types.Typ[types.Int])
		f := c.st.clone()
		return []Outcome{{st: c.st, ret: []Value{n, nilErr()}}, {st: f, ret: []Value{n, c.errIface(f)}}}
	}
	for _, k := range []string{"net.Conn.Write", "net.(*conn).Write", "net.(*UnixConn).Write", "tls.(*Conn).Write"} {
		m[k] = connWrite
		modelMods[k] = []string{"G:conn.out"}
	}

	// ---- misc ----
	m["sync.(*RWMutex).Lock"] = lockModel(0, 2)
	m["sync.(*RWMutex).RLock"] = lockModel(0, 1)
	m["sync.(*RWMutex).Unlock"] = lockModel(2, 0)
	m["sync.(*RWMutex).RUnlock"] = lockModel(1, 0)
	m["sync.(*Mutex).Lock"] = lockModel(0, 2)
	m["sync.(*Mutex).Unlock"] = lockModel(2, 0)
	for _, k := range []string{"sync.(*RWMutex).Lock", "sync.(*RWMutex).RLock", "sync.(*RWMutex).Unlock", "sync.(*RWMutex).RUnlock", "sync.(*Mutex).Lock", "sync.(*Mutex).Unlock"} {
		modelMods[k] = []string{"G:lock"}
	}
	regLayout("G:lock", heapInfo{sort: arrSort(SInt, SInt), comp: comp{sort: SInt, kind: "ghost"}})
}

// writeN overwrites the first n elements of a byte slice with s (length n)
func (c *callCtx) writeN(v SliceV, s, n *Term) {
	nm, e := c.ex.elemMap(c.st, types.Typ[types.Uint8], flatten(types.Typ[types.Uint8])[0])
	a := Select(e, v.Arr)
	if v.Off.IsConst() && v.Off.Int.Sign() == 0 && Len(a) == n {
		c.st.heap[nm] = Store(e, v.Arr, s)
		return
	}
	c.st.heap[nm] = Store(e, v.Arr, Splice(a, v.Off, s, n))
}

// rnd: a fresh index into the environment's random source
func (c *callCtx) rnd() *Term {
	k := c.gget("rand", SInt, I(0))
	c.gset("rand", SInt, I(0), AddI(k, 1))
	return k
}

// panicUnless: the call panics when ok does not hold
func (c *callCtx) panicUnless(ok *Term, f func() Value) []Outcome {
	var outs []Outcome
	if bad := Not(ok); c.ex.feasible(c.st, bad) {
		s := c.st.clone()
		s.assume(bad)
		outs = append(outs, Outcome{st: s, panic: true, pos: c.site.Pos(), pval: c.ex.freshValue(s, "pv", types.NewInterfaceType(nil, nil))})
	}
	c.st.assume(ok)
	if !c.ex.feasible(c.st, TRUE) {
		return outs
	}
	return append(outs, Outcome{st: c.st, ret: []Value{f()}})
}

// lockRef identifies a mutex by the object that contains it (the verified
// code has at most one mutex per object).
func lockRef(v Value) *Term {
	switch x := v.(type) {
	case PtrV:
		if len(x.Path) == 0 {
			return x.Ref
		}
		return App("mutexin", SInt, x.Ref, I(int64(x.Path[len(x.Path)-1])))
	case *Term:
		return x
	}
	unsup("mutex %T", v)
	return nil
}

// lock state of a mutex from the point of view of the running goroutine:
// 0 not held, 1 held shared, 2 held exclusively
func lockModel(from, to int64) func(*callCtx) []Outcome {
	return func(c *callCtx) []Outcome {
		r := lockRef(c.args[0])
		n, h := c.gmap("lock", SInt)
		what := map[int64]string{0: "lock is not already held by this goroutine", 1: "lock is held shared", 2: "lock is held exclusively"}[from]
		c.check(Eq(Select(h, r), I(from)), "lock", what)
		c.st.heap[n] = Store(h, r, I(to))
		return one(c.st)
	}
}

// extType finds a named type of any loaded package by package name
func (P *Prog) extType(pkg, name string) types.Type {
	for _, sp := range P.SSA.AllPackages() {
		if sp.Pkg.Name() == pkg {
			if o, ok := sp.Pkg.Scope().Lookup(name).(*types.TypeName); ok {
				return o.Type()
			}
		}
	}
	return nil
}
