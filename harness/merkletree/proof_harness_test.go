package merkletree

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/coniks-sys/coniks-go/crypto"
	"golang.org/x/crypto/sha3"
)

func zzvSeed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func zzvScale(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 10 * n
	}
	return n
}

func zzvDigest(ms ...[]byte) []byte {
	r := make([]byte, 32)
	sha3.ShakeSum128(r, bytes.Join(ms, nil))
	return r
}

func zzvBit(b []byte, i int) bool { return b[i/8]>>uint(7-i%8)&1 == 1 }

// root hash recomputed from a proof, written from the description of the format
func zzvRoot(ap *AuthenticationPath) []byte {
	l := ap.Leaf
	lv := make([]byte, 4)
	binary.LittleEndian.PutUint32(lv, l.Level)
	var h []byte
	if l.IsEmpty {
		h = zzvDigest([]byte("E"), ap.TreeNonce, l.Index, lv)
	} else {
		h = zzvDigest([]byte("L"), ap.TreeNonce, l.Index, lv, l.Commitment.Value)
	}
	for d := int(l.Level) - 1; d >= 0; d-- {
		if zzvBit(l.Index, d) {
			h = zzvDigest(ap.PrunedTree[d][:], h)
		} else {
			h = zzvDigest(h, ap.PrunedTree[d][:])
		}
	}
	return h
}

// what the property says about acceptance
func zzvAccept(ap *AuthenticationPath, key, value, root []byte) bool {
	l := ap.Leaf
	if len(ap.LookupIndex) != 32 || len(ap.TreeNonce) != 32 || l.Level > 256 || len(ap.PrunedTree) != int(l.Level) {
		return false
	}
	if l.IsEmpty {
		if len(l.Index) != int(l.Level+7)/8 {
			return false
		}
	} else if len(l.Index) != 32 || l.Commitment == nil || len(l.Commitment.Value) != 32 {
		return false
	}
	if !bytes.Equal(zzvRoot(ap), root) {
		return false
	}
	if !l.IsEmpty && bytes.Equal(l.Index, ap.LookupIndex) {
		c := l.Commitment
		return bytes.Equal(l.Value, value) && len(c.Salt) == 32 && bytes.Equal(c.Value, zzvDigest(c.Salt, key, value))
	}
	for i := 0; i < int(l.Level); i++ {
		if zzvBit(l.Index, i) != zzvBit(ap.LookupIndex, i) {
			return false
		}
	}
	return l.Value == nil
}

func zzvCopy(ap *AuthenticationPath) *AuthenticationPath {
	c := &AuthenticationPath{
		TreeNonce:   append([]byte(nil), ap.TreeNonce...),
		PrunedTree:  append([][crypto.HashSizeByte]byte(nil), ap.PrunedTree...),
		LookupIndex: append([]byte(nil), ap.LookupIndex...),
	}
	l := *ap.Leaf
	l.Index = append([]byte(nil), l.Index...)
	if l.Value != nil {
		l.Value = append([]byte{}, l.Value...)
	}
	if l.Commitment != nil {
		l.Commitment = &crypto.Commit{Salt: append([]byte(nil), l.Commitment.Salt...), Value: append([]byte(nil), l.Commitment.Value...)}
	}
	c.Leaf = &l
	return c
}

// an index sharing k leading bits with base
func zzvIndex(r *rand.Rand, base []byte, k int) []byte {
	x := make([]byte, 32)
	r.Read(x)
	if base == nil {
		return x
	}
	for i := 0; i < k && i < 256; i++ {
		m := byte(1) << uint(7-i%8)
		x[i/8] = x[i/8]&^m | base[i/8]&m
	}
	if k < 256 {
		m := byte(1) << uint(7-k%8)
		x[k/8] = x[k/8]&^m | ^base[k/8]&m
	}
	return x
}

func zzvDump(ap *AuthenticationPath) string {
	s := fmt.Sprintf("nonce=%x lookup=%x pruned=%d leaf{level=%d index=%x value=%q empty=%v", ap.TreeNonce, ap.LookupIndex, len(ap.PrunedTree), ap.Leaf.Level, ap.Leaf.Index, ap.Leaf.Value, ap.Leaf.IsEmpty)
	if c := ap.Leaf.Commitment; c != nil {
		s += fmt.Sprintf(" salt=%x commit=%x", c.Salt, c.Value)
	}
	return s + "}"
}

func zzvCheck(t *testing.T, what string, ap *AuthenticationPath, key, value, root []byte) {
	want := zzvAccept(ap, key, value, root)
	func() {
		defer func() {
			if e := recover(); e != nil {
				t.Fatalf("REPLAY %s: Verify panics (%v) on %s", what, e, zzvDump(ap))
			}
		}()
		c := zzvCopy(ap)
		pt := c.ProofType()
		if inc := !ap.Leaf.IsEmpty && bytes.Equal(ap.LookupIndex, ap.Leaf.Index); inc != (pt == ProofOfInclusion) {
			t.Fatalf("REPLAY %s: proof type %d of %s", what, pt, zzvDump(ap))
		}
		if err := c.Verify(key, value, root); (err == nil) != want {
			t.Fatalf("REPLAY %s: Verify(key=%q value=%q root=%x) = %v, must accept: %v, proof %s", what, key, value, root, err, want, zzvDump(ap))
		}
		if c.ProofType() != pt {
			t.Fatalf("REPLAY %s: proof type changed", what)
		}
	}()
}

// TestZZVProofs compares Verify with the acceptance rule on honest and forged proofs.
func TestZZVProofs(t *testing.T) {
	r := rand.New(rand.NewSource(zzvSeed()))
	cases := 0
	for it := 0; it < zzvScale(60); it++ {
		m, err := NewMerkleTree()
		if err != nil {
			t.Fatal(err)
		}
		type bind struct {
			idx   []byte
			key   string
			value []byte
		}
		var bs []bind
		n := 1 + r.Intn(8)
		for i := 0; i < n; i++ {
			var base []byte
			k := 0
			if len(bs) > 0 && r.Intn(3) > 0 {
				base = bs[r.Intn(len(bs))].idx
				k = r.Intn(256)
				if r.Intn(2) == 0 {
					k = r.Intn(20)
				}
			}
			b := bind{zzvIndex(r, base, k), fmt.Sprintf("name%d", i), []byte(fmt.Sprintf("value%d", i))}
			if err := m.Set(b.idx, b.key, b.value); err != nil {
				t.Fatal(err)
			}
			bs = append(bs, b)
		}
		m.recomputeHash()
		var lookups [][]byte
		for _, b := range bs {
			lookups = append(lookups, b.idx, zzvIndex(r, b.idx, r.Intn(256)), zzvIndex(r, nil, 0))
		}
		for _, lk := range lookups {
			ap := m.Get(lk)
			key, value := []byte("name"), []byte("value")
			for _, b := range bs {
				if bytes.Equal(b.idx, lk) {
					key, value = []byte(b.key), b.value
				}
			}
			zzvCheck(t, "honest proof", ap, key, value, m.hash)
			cases++
			for f := 0; f < 40; f++ {
				c := zzvCopy(ap)
				k, v, root := key, value, m.hash
				what := zzvForge(r, c, &k, &v)
				cases++
				zzvCheck(t, what, c, k, v, root)
				// with the root hash the forged proof leads to
				func() {
					defer func() { recover() }()
					root = zzvRoot(c)
				}()
				zzvCheck(t, what+" (matching root)", c, k, v, root)
			}
		}
	}
	fmt.Printf("CASES=%d\n", cases)
}

func zzvForge(r *rand.Rand, c *AuthenticationPath, key, value *[]byte) string {
	flip := func(b []byte) {
		if len(b) > 0 {
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		}
	}
	switch r.Intn(20) {
	case 0:
		flip(c.TreeNonce)
		return "nonce changed"
	case 1:
		flip(c.LookupIndex)
		return "lookup index changed"
	case 2:
		if n := len(c.PrunedTree); n > 0 {
			c.PrunedTree[r.Intn(n)][r.Intn(32)] ^= 1 << uint(r.Intn(8))
		}
		return "sibling changed"
	case 3:
		flip(c.Leaf.Index)
		return "leaf index changed"
	case 4:
		if l := int(c.Leaf.Level); l > 0 && len(c.Leaf.Index)*8 >= l {
			i := r.Intn(l)
			if r.Intn(2) == 0 {
				i = l - 1
			}
			c.Leaf.Index[i/8] ^= 1 << uint(7-i%8)
		}
		return "leaf index changed within its level"
	case 5:
		if l := int(c.Leaf.Level); len(c.LookupIndex) == 32 && l > 0 {
			i := r.Intn(l)
			if r.Intn(2) == 0 {
				i = l - 1
			}
			c.LookupIndex[i/8] ^= 1 << uint(7-i%8)
		}
		return "lookup index changed within the level"
	case 6:
		c.Leaf.Level = uint32(r.Intn(300))
		return "level changed"
	case 7:
		l := uint32(r.Intn(257))
		c.Leaf.Level = l
		c.PrunedTree = make([][crypto.HashSizeByte]byte, l)
		for i := range c.PrunedTree {
			r.Read(c.PrunedTree[i][:])
		}
		if c.Leaf.IsEmpty {
			c.Leaf.Index = append([]byte(nil), c.LookupIndex...)[:(l+7)/8]
		}
		return "other level with matching siblings"
	case 8:
		c.Leaf.IsEmpty = !c.Leaf.IsEmpty
		return "leaf kind changed"
	case 9:
		c.Leaf.Value = append([]byte(nil), *value...)
		return "value disclosed"
	case 10:
		c.Leaf.Value = nil
		return "value removed"
	case 11:
		flip(*value)
		*value = append([]byte(nil), *value...)
		flip(*value)
		return "other expected value"
	case 12:
		*key = append([]byte(nil), *key...)
		flip(*key)
		return "other expected key"
	case 13:
		if c.Leaf.Commitment != nil {
			flip(c.Leaf.Commitment.Salt)
		}
		return "salt changed"
	case 14:
		if c.Leaf.Commitment != nil {
			flip(c.Leaf.Commitment.Value)
		}
		return "commitment changed"
	case 15:
		// a commitment that opens to another value
		if !c.Leaf.IsEmpty {
			salt := make([]byte, r.Intn(40))
			r.Read(salt)
			c.Leaf.Value = []byte("forged")
			*value = c.Leaf.Value
			c.Leaf.Commitment = &crypto.Commit{Salt: salt, Value: zzvDigest(salt, *key, *value)}
		}
		return "commitment to another value"
	case 16:
		c.Leaf.Index = append([]byte(nil), c.LookupIndex...)
		return "leaf index replaced by the lookup index"
	case 17:
		c.Leaf.Commitment = nil
		return "commitment removed"
	case 18:
		c.LookupIndex = append([]byte(nil), c.Leaf.Index...)
		return "lookup index replaced by the leaf index"
	default:
		if n := len(c.Leaf.Index); n > 0 {
			c.Leaf.Index = c.Leaf.Index[:r.Intn(n)]
		}
		return "leaf index shortened"
	}
}
