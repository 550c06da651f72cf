package main

// Model of the decoding library functions (json.Unmarshal, toml.Decode*):
// whatever the input, the object decoded into and every object reachable from
// it may hold any value of its type afterwards; new objects are new; unexported
// fields are left alone (zero in new objects); nothing else changes.

import (
	"go/types"
	"hash/fnv"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// decodeArg: index of the decoding target among a function's arguments
var decodeArg = map[string]int{
	"json.Unmarshal":  1,
	"toml.DecodeFile": 1,
	"toml.Decode":     1,
}

// decodedMaps: heap maps (name -> decoded) of an object of type t at map
// prefix base; unexported components are listed as not decoded.
func decodedMaps(base string, t types.Type, ok bool, key string, out map[string]bool) {
	if st, is := under(t).(*types.Struct); is {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get(key)
			fok := ok && (f.Exported() || f.Embedded() && isStructType(f.Type())) && tag != "-"
			decodedMaps(base+"."+f.Name(), f.Type(), fok, key, out)
		}
		return
	}
	for _, c := range flatten(t) {
		out[base+c.suf] = ok
	}
}

func isStructType(t types.Type) bool { _, ok := under(t).(*types.Struct); return ok }

// decodedReach adds the maps of every object type decoding into a t may create
func (P *Prog) decodedReach(t types.Type, key string, out map[string]bool, seen map[string]bool) {
	k := typeKey(t)
	if seen[k] {
		return
	}
	seen[k] = true
	switch u := under(t).(type) {
	case *types.Pointer:
		if at, ok := under(u.Elem()).(*types.Array); ok {
			m := map[string]bool{}
			mapNames("E:"+typeKey(at.Elem()), at.Elem(), m)
			decodedMaps("E:"+typeKey(at.Elem()), at.Elem(), true, key, out)
		} else {
			m := map[string]bool{}
			mapNames(objMap(u.Elem()), u.Elem(), m)
			decodedMaps(objMap(u.Elem()), u.Elem(), true, key, out)
		}
		P.decodedReach(u.Elem(), key, out, seen)
	case *types.Slice:
		m := map[string]bool{}
		mapNames("E:"+typeKey(u.Elem()), u.Elem(), m)
		decodedMaps("E:"+typeKey(u.Elem()), u.Elem(), true, key, out)
		P.decodedReach(u.Elem(), key, out, seen)
	case *types.Map:
		m := map[string]bool{}
		mapMods(u, m)
		for n := range m {
			out[n] = true
		}
		P.decodedReach(u.Elem(), key, out, seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if f.Exported() && reflect.StructTag(u.Tag(i)).Get(key) != "-" {
				P.decodedReach(f.Type(), key, out, seen)
			}
		}
	case *types.Array:
		P.decodedReach(u.Elem(), key, out, seen)
	}
}

// decodeMods: maps a call to a decoding function may write, by static types
func (P *Prog) decodeMods(f *ssa.Function, out map[string]bool) {
	m := map[string]bool{}
	seen, seenT := map[string]bool{}, map[string]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if mi, ok := in.(*ssa.MakeInterface); ok {
				P.decodedReach(mi.X.Type(), "json", m, seen)
				P.decodedReach(mi.X.Type(), "toml", m, seenT)
			}
		}
	}
	for n := range m {
		out[n] = true
	}
}

type decodeTarget struct {
	ref *Term
	typ types.Type
}

// key names the struct tag the format uses; in toml an existing pointer is
// always decoded through, in JSON it may also be reset or replaced.
func (c *callCtx) decode(arg int, key string) (leaves []decodedLeaf, into string) {
	ex, st := c.ex, c.st
	iv, ok := c.args[arg].(IfaceV)
	if !ok {
		unsup("decoding target %T", c.args[arg])
	}
	maps := map[string]bool{}
	targets := map[string][]modTarget{}
	seen := map[string]bool{}
	type ifc struct {
		p        PtrV
		typ      types.Type
		tag, val *Term
		id       string
	}
	var names []string
	var kept, generic []ifc
	empty := func(r *Term, what string) {
		if r != I(0) {
			c.check(Eq(r, I(0)), "decode", "decoding into an empty "+what)
		}
	}
	// an object reached from the argument or an interface is named by its
	// type and the place of the interface
	roots, place := false, ""
	var object func(p PtrV, t types.Type)
	var fields func(p PtrV, t types.Type, id string)
	var iface func(v IfaceV)
	fields = func(p PtrV, t types.Type, id string) {
		if id != "" && leafKind(t) != "" {
			leaves = append(leaves, decodedLeaf{p: p, t: t, id: id, old: c.leafTerm(p, t)})
		}
		switch u := under(t).(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				if !(f.Exported() || f.Embedded() && isStructType(f.Type())) || reflect.StructTag(u.Tag(i)).Get(key) == "-" {
					continue
				}
				q := p
				q.Path = append(append([]int{}, p.Path...), i)
				fid := ""
				if id != "" && !f.Embedded() {
					name, _, _ := strings.Cut(reflect.StructTag(u.Tag(i)).Get(key), ",")
					if name == "" {
						name = f.Name()
					}
					fid = id + "." + name
				}
				fields(q, f.Type(), fid)
			}
		case *types.Pointer:
			v := ex.load(st, p)
			q := ex.ptr(v, u.Elem())
			if q.Ref == I(0) || st.known[Eq(q.Ref, I(0))] {
				return
			}
			object(q, u.Elem())
		case *types.Slice:
			if _, isMsg := t.(*types.Named); isMsg && typeKey(t) == "json.RawMessage" {
				return // replaced as a whole
			}
			empty(ex.load(st, p).(SliceV).Arr, "slice")
		case *types.Map:
			empty(ex.load(st, p).(*Term), "map")
		case *types.Interface:
			v := ex.load(st, p).(IfaceV)
			if v.Tag == I(0) {
				if u.NumMethods() == 0 && key == "json" {
					generic = append(generic, ifc{p: p})
				}
				return
			}
			if strings.Contains(id[strings.LastIndex(id, "/")+1:], ".") {
				place = id + ":"
			}
			n := len(names)
			iface(v)
			place = ""
			id = ""
			if len(names) > n {
				id = names[n]
			}
			kept = append(kept, ifc{p, t, v.Tag, v.Val, id})
		}
	}
	object = func(p PtrV, t types.Type) {
		P := ex.P
		m := map[string]bool{}
		pn, _ := pathName(p.Root, p.Path)
		decodedMaps(objMap(p.Root)+pn, t, true, key, m)
		mm := map[string]bool{}
		mapNames(objMap(p.Root), p.Root, mm)
		for n, ok := range m {
			if ok {
				maps[n] = true
				targets[n] = append(targets[n], modTarget{ref: p.Ref})
			} else if _, has := maps[n]; !has {
				maps[n] = false
			}
		}
		P.decodedReach(t, key, maps, seen)
		id := ""
		if roots {
			id = place + typeKey(t)
			names = append(names, id)
		}
		roots, place = false, ""
		fields(p, t, id)
	}
	iface = func(v IfaceV) {
		dt := v.Dyn
		if dt == nil {
			if id, ok := v.Tag.ConstInt(); ok {
				termMu2.Lock()
				dt = tagTypes[id]
				termMu2.Unlock()
			}
		}
		if dt == nil {
			unsup("decoding into a value of unknown type")
		}
		pt, ok := under(dt).(*types.Pointer)
		if !ok {
			return // replaced as a whole
		}
		pv := v.DynV
		if pv == nil {
			pv = ex.unIface(st, v, dt)
		}
		q := ex.ptr(pv, pt.Elem())
		roots = true
		object(q, pt.Elem())
	}
	iface(iv)
	if key != "json" {
		leaves = nil
	}
	mods := map[string]bool{}
	for n := range maps {
		mods[n] = true
	}
	aold := st.alloc()
	hold := map[string]*Term{}
	for n := range maps {
		if h, ok := st.heap[n]; ok {
			hold[n] = h
		} else if h, ok := ex.touch(st, n); ok {
			hold[n] = h
		}
	}
	// every new map version differs from the old one only at targets and new objects
	ex.bumpHeap(st, mods, targets)
	for n, dec := range maps {
		h, ok := st.heap[n]
		if !ok {
			continue
		}
		info := ex.hinfo[n]
		r := BVar("r", SInt)
		if !dec && !strings.HasPrefix(n, "M") {
			if !info.elem {
				sel := mkSelect(h, r)
				var z *Term
				switch sel.Sort {
				case SInt:
					z = I(0)
				case SBool:
					z = FALSE
				case SSeq:
					continue
				}
				st.assume(Forall([]*Term{r}, [][]*Term{{sel}}, Imp(Ge(r, aold), Eq(sel, z))))
			}
			continue
		}
		if info.comp.kind != "ref" && info.comp.kind != "arr" {
			continue
		}
		isNew := func(x *Term) *Term { return Or(Eq(x, I(0)), Ge(x, aold)) }
		at := func(r *Term) *Term {
			s := mkSelect(h, r)
			if info.elem {
				i := BVar("i", SInt)
				e := mk("at", SInt, "", nil, nil, []*Term{s, i}, nil)
				return Forall([]*Term{i}, [][]*Term{{e}}, isNew(e))
			}
			return isNew(s)
		}
		if strings.HasPrefix(n, "M") {
			continue
		}
		if info.elem {
			i := BVar("i", SInt)
			e := mk("at", SInt, "", nil, nil, []*Term{mkSelect(h, r), i}, nil)
			st.assume(Forall([]*Term{r, i}, [][]*Term{{e}}, Imp(Ge(r, aold), isNew(e))))
		} else {
			sel := mkSelect(h, r)
			st.assume(Forall([]*Term{r}, [][]*Term{{sel}}, Imp(Ge(r, aold), isNew(sel))))
		}
		for _, m := range targets[n] {
			if m.ref == nil {
				continue
			}
			if info.elem {
				st.assume(at(m.ref))
			} else {
				// an existing pointer may be kept and decoded through
				old := mkSelect(hold[n], m.ref)
				if key == "toml" && info.comp.kind == "ref" {
					st.assume(Imp(Not(Eq(old, I(0))), Eq(mkSelect(h, m.ref), old)))
				}
				st.assume(Or(at(m.ref), Eq(mkSelect(h, m.ref), old)))
			}
		}
	}
	// an interface that holds a pointer is decoded into the pointee, or reset
	for _, k := range kept {
		v := ex.load(st, k.p).(IfaceV)
		if k.id != "" && key == "json" {
			leaves = append(leaves, decodedLeaf{iface: &v, tag: k.tag, id: k.id})
		}
		st.assume(Or(And(Eq(v.Tag, k.tag), Eq(v.Val, k.val)), And(Eq(v.Tag, I(0)), Eq(v.Val, I(0)))))
	}
	// JSON decoded into an empty interface gives only these
	for _, k := range generic {
		v := ex.load(st, k.p).(IfaceV)
		anyT := types.NewInterfaceType(nil, nil)
		or := Eq(v.Tag, I(0))
		for _, t := range []types.Type{types.Typ[types.Bool], types.Typ[types.Float64], types.Typ[types.String], types.NewSlice(anyT), types.NewMap(types.Typ[types.String], anyT)} {
			or = Or(or, Eq(v.Tag, tagOf(t)))
		}
		st.assume(or)
	}
	return leaves, strings.Join(names, "+")
}

// A decodedLeaf is a number, string, byte slice or raw message that decoding
// sets: decoding is a function of the bytes and of the type decoded into.
type decodedLeaf struct {
	p   PtrV
	t   types.Type
	id  string
	old *Term

	// or an interface, which is left as it is or reset
	iface *IfaceV
	tag   *Term
}

func leafKind(t types.Type) string {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return "int"
		case u.Info()&types.IsString != 0:
			return "str"
		}
	case *types.Slice:
		if b, ok := u.Elem().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return "str"
		}
	}
	return ""
}

func (c *callCtx) leafTerm(p PtrV, t types.Type) *Term {
	switch v := c.ex.load(c.st, p).(type) {
	case *Term:
		return v
	case SliceV:
		_, e := c.ex.elemMap(c.st, types.Typ[types.Uint8], flatten(types.Typ[types.Uint8])[0])
		return c.ex.sliceSeq(e, v)
	}
	unsup("decoded value")
	return nil
}

// memberID numbers the members ("type.member") messages are decoded into
func memberID(name string) *Term {
	h := fnv.New64a()
	h.Write([]byte(name))
	return I(int64(h.Sum64() >> 4))
}

// decodedFacts: what decoding src without an error leaves in the leaves
func (c *callCtx) decodedFacts(src, ok *Term, leaves []decodedLeaf) {
	for _, l := range leaves {
		id := memberID(l.id)
		if l.iface != nil {
			c.st.assume(Imp(ok, Imp(App("jset", SBool, src, id), Eq(l.iface.Tag, l.tag))))
			continue
		}
		var v *Term
		if leafKind(l.t) == "int" {
			v = App("jint", SInt, src, id)
		} else {
			v = App("jstr", SSeq, src, id)
		}
		c.st.assume(Imp(ok, Eq(c.leafTerm(l.p, l.t), Ite(App("jhas", SBool, src, id), v, l.old))))
	}
}

func init() {
	models["json.Unmarshal"] = func(c *callCtx) []Outcome {
		src := c.seq(0)
		leaves, into := c.decode(1, "json")
		e := c.ex.freshValue(c.st, "err", types.Universe.Lookup("error").Type())
		c.st.assume(Imp(Eq(e.(IfaceV).Tag, I(0)), App("decodes", SBool, src)))
		ok := Eq(e.(IfaceV).Tag, I(0))
		if into != "" {
			c.st.assume(Eq(ok, App("jok", SBool, src, memberID(into))))
		}
		c.decodedFacts(src, ok, leaves)
		return one(c.st, e)
	}
	tomlModel := func(c *callCtx) []Outcome {
		c.decode(1, "toml")
		sig := c.fn.Signature
		md := c.ex.freshValue(c.st, "meta", sig.Results().At(0).Type())
		e := c.ex.freshValue(c.st, "err", sig.Results().At(1).Type())
		return one(c.st, md, e)
	}
	models["toml.DecodeFile"] = tomlModel
	models["toml.Decode"] = tomlModel
}
