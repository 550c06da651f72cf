package merkletree

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"testing"

	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
)

type zzvBinding struct {
	key   string
	value []byte
}

// a reference tree: the bindings by index
type zzvModel map[string]zzvBinding

func (m zzvModel) copy() zzvModel {
	c := zzvModel{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

func zzvJSON(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "error " + err.Error()
	}
	return string(b)
}

// what a lookup of idx in a tree with the bindings m and the root hash must return
func zzvLookupOK(ap *AuthenticationPath, m zzvModel, idx, root []byte) string {
	if ap == nil || ap.Leaf == nil {
		return "no proof"
	}
	if !bytes.Equal(ap.LookupIndex, idx) {
		return "proof is for another index"
	}
	b, ok := m[string(idx)]
	if !ok {
		if ap.ProofType() != ProofOfAbsence {
			return "proof of inclusion for an index that was never stored"
		}
		if ap.Leaf.Value != nil {
			return "proof of absence with a value"
		}
		if c := ap.Leaf.Commitment; c != nil && c.Salt != nil {
			return "proof of absence with the salt of a commitment"
		}
		if !zzvAccept(ap, []byte("any name"), []byte("any value"), root) {
			return "proof of absence is wrong"
		}
		if err := ap.Verify([]byte("any name"), []byte("any value"), root); err != nil {
			return "proof of absence does not verify: " + err.Error()
		}
		for _, o := range m {
			if len(o.value) >= 6 && bytes.Contains([]byte(zzvDump(ap)+zzvJSON(ap)), o.value) {
				return "proof of absence discloses a stored value"
			}
		}
		return ""
	}
	if ap.ProofType() != ProofOfInclusion {
		return "proof of absence for an index that was stored"
	}
	if !bytes.Equal(ap.Leaf.Value, b.value) {
		return fmt.Sprintf("value %q, stored was %q", ap.Leaf.Value, b.value)
	}
	if !zzvAccept(ap, []byte(b.key), b.value, root) {
		return "proof of inclusion is wrong"
	}
	if err := ap.Verify([]byte(b.key), b.value, root); err != nil {
		return "proof of inclusion does not verify: " + err.Error()
	}
	return ""
}

// an index with few or many bits in common with one already stored
func zzvNearIndex(r *rand.Rand, m zzvModel, order [][]byte) []byte {
	if len(order) == 0 || r.Intn(3) == 0 {
		return zzvIndex(r, nil, 0)
	}
	b := order[r.Intn(len(order))]
	switch r.Intn(4) {
	case 0:
		return zzvIndex(r, b, r.Intn(256))
	case 1:
		return zzvIndex(r, b, 248+r.Intn(8))
	case 2:
		return zzvIndex(r, b, 8*r.Intn(32)+7*r.Intn(2))
	default:
		return zzvIndex(r, b, r.Intn(12))
	}
}

// TestZZVTree runs histories of insertions, updates, clones and lookups against a map.
func TestZZVTree(t *testing.T) {
	r := rand.New(rand.NewSource(zzvSeed()))
	cases := 0
	for it := 0; it < zzvScale(120); it++ {
		m, err := NewMerkleTree()
		if err != nil {
			t.Fatal(err)
		}
		type snap struct {
			tree *MerkleTree
			m    zzvModel
			root []byte
		}
		model := zzvModel{}
		var order [][]byte
		var snaps []*snap
		var log []string
		add := func(tr *MerkleTree, mod zzvModel, tag string) {
			var idx []byte
			if len(order) > 0 && r.Intn(3) == 0 {
				idx = order[r.Intn(len(order))]
			} else {
				idx = zzvNearIndex(r, mod, order)
			}
			key := fmt.Sprintf("name-%x", idx[:4])
			value := make([]byte, 6+r.Intn(30))
			r.Read(value)
			if r.Intn(15) == 0 {
				value = []byte{}
			}
			given := append([]byte(nil), value...)
			gidx := append([]byte(nil), idx...)
			if err := tr.Set(gidx, key, given); err != nil {
				t.Fatal(err)
			}
			// the caller's buffer is the caller's own afterwards
			for i := range given {
				given[i] ^= 0xff
			}
			mod[string(idx)] = zzvBinding{key, value}
			order = append(order, idx)
			log = append(log, fmt.Sprintf("%sSet(%x, %q, %x)", tag, idx, key, value))
		}
		check := func(tr *MerkleTree, mod zzvModel, what string) {
			lks := append([][]byte(nil), order...)
			for i := 0; i < 4; i++ {
				lks = append(lks, zzvNearIndex(r, mod, order))
			}
			for _, idx := range lks {
				cases++
				func() {
					defer func() {
						if e := recover(); e != nil {
							t.Fatalf("REPLAY %s: Get(%x) crashes (%v) after %v", what, idx, e, log)
						}
					}()
					ap := tr.Get(idx)
					if p := zzvLookupOK(ap, mod, idx, tr.hash); p != "" {
						t.Fatalf("REPLAY %s: Get(%x): %s, after %v", what, idx, p, log)
					}
					if a, b := zzvJSON(ap), zzvJSON(tr.Get(idx)); a != b {
						t.Fatalf("REPLAY %s: two lookups of %x differ: %s and %s, after %v", what, idx, a, b, log)
					}
				}()
			}
		}
		for rounds := 1 + r.Intn(4); rounds > 0; rounds-- {
			for n := r.Intn(9); n > 0; n-- {
				func() {
					defer func() {
						if e := recover(); e != nil {
							t.Fatalf("REPLAY Set crashes (%v) after %v", e, log)
						}
					}()
					add(m, model, "")
				}()
				if r.Intn(6) == 0 {
					m.recomputeHash()
					log = append(log, "recompute")
				}
			}
			m.recomputeHash()
			h := append([]byte(nil), m.hash...)
			m.recomputeHash()
			if !bytes.Equal(h, m.hash) {
				t.Fatalf("REPLAY recomputing the hash again changes it, after %v", log)
			}
			check(m, model, "tree")
			c := m.Clone()
			log = append(log, fmt.Sprintf("clone %d", len(snaps)))
			snaps = append(snaps, &snap{c, model.copy(), append([]byte(nil), m.hash...)})
			// a clone may be changed too
			if r.Intn(3) == 0 {
				s := &snap{c.Clone(), model.copy(), nil}
				add(s.tree, s.m, "clone-of-clone.")
				s.tree.recomputeHash()
				s.root = append([]byte(nil), s.tree.hash...)
				snaps = append(snaps, s)
			}
		}
		m.recomputeHash()
		check(m, model, "tree at the end")
		for i, s := range snaps {
			if !bytes.Equal(s.tree.hash, s.root) {
				t.Fatalf("REPLAY root hash of clone %d changed, after %v", i, log)
			}
			check(s.tree, s.m, fmt.Sprintf("clone %d", i))
			s.tree.recomputeHash()
			if !bytes.Equal(s.tree.hash, s.root) {
				t.Fatalf("REPLAY recomputed root hash of clone %d differs, after %v", i, log)
			}
		}
	}
	fmt.Printf("CASES=%d\n", cases)
}

type zzvAd struct{ b []byte }

func (a *zzvAd) Serialize() []byte { return a.b }

func zzvULong(n uint64) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, n)
	return b
}

// zzvSTR: the contents a signature must cover
func zzvSTR(s *SignedTreeRoot, ad []byte) []byte {
	b := zzvULong(s.Epoch)
	if s.Epoch > 0 {
		b = append(b, zzvULong(s.PreviousEpoch)...)
	}
	b = append(b, s.TreeHash...)
	b = append(b, s.PreviousSTRHash...)
	return append(b, ad...)
}

func zzvFlat(s *SignedTreeRoot) string {
	return fmt.Sprintf("%d %d %x %x %x %x", s.Epoch, s.PreviousEpoch, s.TreeHash, s.PreviousSTRHash, s.Signature, s.Ad.Serialize())
}

// TestZZVPAD runs histories of Set, Update and lookups against a reference.
func TestZZVPAD(t *testing.T) {
	r := rand.New(rand.NewSource(zzvSeed()))
	cases := 0
	for it := 0; it < zzvScale(40); it++ {
		seed := make([]byte, 64)
		r.Read(seed)
		sk, err := sign.GenerateKey(bytes.NewReader(seed))
		if err != nil {
			t.Fatal(err)
		}
		r.Read(seed)
		vk, err := vrf.GenerateKey(bytes.NewReader(seed))
		if err != nil {
			t.Fatal(err)
		}
		pub, ok := sk.Public()
		if !ok {
			t.Fatal("no public key")
		}
		vpub, ok := vk.Public()
		if !ok {
			t.Fatal("no public key")
		}
		size := uint64([]int{0, 1, 2, 3, 4, 5, 7, 10}[r.Intn(8)])
		ads := []*zzvAd{{[]byte("policies 0")}}
		inForce := ads[0]
		pad, err := NewPAD(ads[0], sk, vk, size)
		if err != nil {
			t.Fatal(err)
		}
		log := []string{fmt.Sprintf("NewPAD(size %d)", size)}
		type epoch struct {
			m   zzvModel
			str *SignedTreeRoot
			txt string
		}
		var eps []*epoch
		cur := zzvModel{}
		names := []string{""}
		fail := func(f string, a ...interface{}) {
			t.Helper()
			t.Fatalf("REPLAY %s, after %v", fmt.Sprintf(f, a...), log)
		}
		issued := func() {
			s := pad.LatestSTR()
			e := uint64(len(eps))
			if s == nil || s.Epoch != e {
				fail("latest root of epoch %v, expected %d", s, e)
			}
			for _, x := range eps {
				if x.str == s {
					fail("root of epoch %d reused", s.Epoch)
				}
			}
			if !pub.Verify(zzvSTR(s, inForce.b), s.Signature) {
				fail("signature of epoch %d does not cover its contents with policies %q", e, inForce.b)
			}
			if s.Ad != AssocData(inForce) {
				fail("epoch %d has policies %q, in force are %q", e, s.Ad.Serialize(), inForce.b)
			}
			if e > 0 {
				p := eps[e-1].str
				if s.PreviousEpoch != e-1 || !bytes.Equal(s.PreviousSTRHash, zzvDigest(p.Signature)) {
					fail("epoch %d does not follow epoch %d", e, e-1)
				}
				if !s.VerifyHashChain(p) {
					fail("VerifyHashChain refuses epoch %d", e)
				}
			} else if s.PreviousEpoch != 0 || len(s.PreviousSTRHash) != 32 {
				fail("first root names epoch %d and %x", s.PreviousEpoch, s.PreviousSTRHash)
			}
			eps = append(eps, &epoch{cur.copy(), s, zzvFlat(s)})
		}
		verifyLookup := func(name string, e uint64, ap *AuthenticationPath) {
			cases++
			idx := vk.Compute([]byte(name))
			if p := zzvLookupOK(ap, eps[e].m, idx, eps[e].str.TreeHash); p != "" {
				fail("lookup of %q in epoch %d: %s", name, e, p)
			}
			if !vpub.Verify([]byte(name), ap.LookupIndex, ap.VrfProof) {
				fail("index proof for %q does not verify", name)
			}
		}
		audit := func() {
			last := uint64(len(eps) - 1)
			kept := true
			for d := uint64(0); d <= last; d++ {
				e := last - d
				s := pad.GetSTR(e)
				if s == nil {
					if d == 0 {
						fail("latest root lost")
					}
					kept = false
				} else {
					if !kept {
						fail("epoch %d is retained, a later one is not", e)
					}
					if s != eps[e].str || zzvFlat(s) != eps[e].txt {
						fail("root of epoch %d changed to %s", e, zzvFlat(s))
					}
				}
				for n := 0; n < 3; n++ {
					name := names[r.Intn(len(names))]
					if r.Intn(4) == 0 {
						name = fmt.Sprintf("nobody%d", r.Intn(1000))
					}
					ap, err := pad.LookupInEpoch(name, e)
					if s == nil {
						if err != ErrSTRNotFound || ap != nil {
							fail("lookup in epoch %d, no longer retained: %v, %v", e, ap, err)
						}
						continue
					}
					if err != nil {
						fail("lookup of %q in epoch %d: %v", name, e, err)
					}
					verifyLookup(name, e, ap)
				}
			}
			for _, name := range names {
				ap, err := pad.Lookup(name)
				if err != nil {
					fail("lookup of %q: %v", name, err)
				}
				verifyLookup(name, last, ap)
			}
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					fail("crash: %v", e)
				}
			}()
			issued()
			for steps := 4 + r.Intn(40); steps > 0; steps-- {
				switch r.Intn(4) {
				case 0, 1:
					name := fmt.Sprintf("user%d@service", r.Intn(30))
					if r.Intn(10) == 0 {
						name = names[r.Intn(len(names))]
					}
					value := make([]byte, 8+r.Intn(20))
					r.Read(value)
					given := append([]byte(nil), value...)
					if err := pad.Set(name, given); err != nil {
						t.Fatal(err)
					}
					for i := range given {
						given[i]++
					}
					idx := vk.Compute([]byte(name))
					if !bytes.Equal(idx, pad.Index(name)) {
						fail("Index(%q) is not the VRF output", name)
					}
					cur[string(idx)] = zzvBinding{name, value}
					names = append(names, name)
					log = append(log, fmt.Sprintf("Set(%q)", name))
				case 2:
					var ad *zzvAd
					if r.Intn(2) == 0 {
						ad = &zzvAd{[]byte(fmt.Sprintf("policies %d", len(ads)))}
						ads = append(ads, ad)
						pad.Update(ad)
					} else {
						pad.Update(nil)
					}
					log = append(log, fmt.Sprintf("Update(%v)", ad != nil))
					issued()
					if ad != nil {
						inForce = ad
					}
				default:
					audit()
				}
			}
			audit()
			for e := uint64(0); e < uint64(len(eps)); e++ {
				if zzvFlat(eps[e].str) != eps[e].txt {
					fail("root of epoch %d changed after it was issued", e)
				}
			}
		}()
	}
	fmt.Printf("CASES=%d\n", cases)
}
