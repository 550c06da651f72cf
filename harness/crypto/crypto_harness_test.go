package crypto

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"golang.org/x/crypto/sha3"
)

func zzvSeed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func zzvScale(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 10 * n
	}
	return n
}

func zzvDigest(b []byte) []byte {
	r := make([]byte, 32)
	sha3.ShakeSum128(r, b)
	return r
}

// TestZZVCrypto (C14): digests and commitments against an independent
// computation, for argument lists of every shape.
func TestZZVCrypto(t *testing.T) {
	rnd := rand.New(rand.NewSource(zzvSeed()))
	cases := 0
	lens := []int{0, 1, 2, 31, 32, 33, 63, 64, 135, 136, 137, 167, 168, 169, 255, 256, 335, 336, 337, 1000}
	part := func() []byte {
		if rnd.Intn(12) == 0 {
			return nil
		}
		n := lens[rnd.Intn(len(lens))]
		if rnd.Intn(2) == 0 {
			n = rnd.Intn(40)
		}
		b := make([]byte, n, n+rnd.Intn(8))
		rnd.Read(b)
		if rnd.Intn(5) == 0 {
			for i := range b {
				b[i] = 0
			}
		}
		return b
	}
	clone := func(ms [][]byte) [][]byte {
		r := make([][]byte, len(ms))
		for i := range ms {
			r[i] = append([]byte{}, ms[i]...)
		}
		return r
	}
	same := func(a, b [][]byte) bool {
		for i := range a {
			if !bytes.Equal(a[i], b[i]) {
				return false
			}
		}
		return len(a) == len(b)
	}
	fail := func(f string, a ...interface{}) {
		t.Fatalf("REPLAY "+f, a...)
	}
	for i := 0; i < zzvScale(6000); i++ {
		cases++
		ms := make([][]byte, rnd.Intn(9))
		for j := range ms {
			ms[j] = part()
		}
		before := clone(ms)
		got := Digest(ms...)
		want := zzvDigest(bytes.Join(before, nil))
		if !bytes.Equal(got, want) {
			fail("Digest(%x) = %x, the 32-byte SHAKE128 of the concatenation is %x", before, got, want)
		}
		if !same(ms, before) {
			fail("Digest(%x) changed its arguments to %x", before, ms)
		}
		// a second call must not disturb the first result
		Digest([]byte("other"))
		if !bytes.Equal(got, want) {
			fail("the digest of %x changed when another digest was computed", before)
		}
	}
	salts := map[string]bool{}
	for i := 0; i < zzvScale(2000); i++ {
		cases++
		ms := [][]byte{part(), part()}
		if i < 64 {
			// every pair of short lengths
			ms = [][]byte{make([]byte, i%8), make([]byte, i/8)}
			rnd.Read(ms[0])
			rnd.Read(ms[1])
		}
		before := clone(ms)
		// arguments handed over in a list with spare room
		args := make([][]byte, 2, 4)
		copy(args, ms)
		args[:3][2] = []byte("sentinel")
		c, err := NewCommit(args...)
		if err != nil {
			fail("NewCommit: %v", err)
		}
		if string(args[:3][2]) != "sentinel" || !same(args, before) {
			fail("NewCommit changed its argument list")
		}
		if len(c.Salt) != 32 || salts[string(c.Salt)] {
			fail("NewCommit: salt %x has length %d or was used before", c.Salt, len(c.Salt))
		}
		salts[string(c.Salt)] = true
		if bytes.Equal(c.Salt, make([]byte, 32)) {
			fail("NewCommit: zero salt")
		}
		want := zzvDigest(append(append(append([]byte{}, c.Salt...), before[0]...), before[1]...))
		if !bytes.Equal(c.Value, want) {
			fail("NewCommit(%x): value %x, digest of salt and parts is %x", before, c.Value, want)
		}
		check := func(c *Commit, p [][]byte, what string) {
			cases++
			exp := len(c.Salt) == 32 && bytes.Equal(c.Value, zzvDigest(append(append(append([]byte{}, c.Salt...), p[0]...), p[1]...)))
			s0, v0 := append([]byte{}, c.Salt...), append([]byte{}, c.Value...)
			if got := c.Verify(p...); got != exp {
				fail("%s: Verify(salt %x, value %x, parts %x) = %v, want %v", what, c.Salt, c.Value, p, got, exp)
			}
			if !bytes.Equal(s0, c.Salt) || !bytes.Equal(v0, c.Value) {
				fail("%s: Verify changed the commitment", what)
			}
		}
		cp := func() *Commit {
			return &Commit{append([]byte{}, c.Salt...), append([]byte{}, c.Value...)}
		}
		check(cp(), ms, "honest")
		for k := 0; k < 6; k++ {
			d := cp()
			q := clone(ms)
			what := ""
			switch rnd.Intn(12) {
			case 0:
				what = "salt bit"
				d.Salt[rnd.Intn(32)] ^= 1 << uint(rnd.Intn(8))
			case 1:
				what = "value bit"
				d.Value[rnd.Intn(32)] ^= 1 << uint(rnd.Intn(8))
			case 2:
				what = "short value"
				d.Value = d.Value[:rnd.Intn(32)]
			case 3:
				what = "long value"
				d.Value = append(d.Value, byte(rnd.Intn(256)))
			case 4:
				what = "part bit"
				j := rnd.Intn(2)
				if len(q[j]) > 0 {
					q[j][rnd.Intn(len(q[j]))] ^= 1 << uint(rnd.Intn(8))
				}
			case 5:
				what = "part shortened"
				j := rnd.Intn(2)
				if len(q[j]) > 0 {
					q[j] = q[j][:len(q[j])-1]
				}
			case 6:
				what = "part lengthened"
				j := rnd.Intn(2)
				q[j] = append(q[j], 0)
			case 7:
				what = "parts swapped"
				q[0], q[1] = q[1], q[0]
			case 8:
				what = "salt byte moved into the first part"
				q[0] = append([]byte{d.Salt[31]}, q[0]...)
				d.Salt = d.Salt[:31]
			case 9:
				what = "byte of the first part moved into the salt"
				if len(q[0]) > 0 {
					d.Salt = append(d.Salt, q[0][0])
					q[0] = q[0][1:]
				}
			case 10:
				what = "no salt"
				q[0] = append(append([]byte{}, d.Salt...), q[0]...)
				d.Salt = nil
			case 11:
				what = "no value"
				d.Value = nil
			}
			check(d, q, what)
		}
	}
	rs := map[string]bool{}
	for i := 0; i < zzvScale(500); i++ {
		cases++
		r, err := MakeRand()
		if err != nil || len(r) != 32 || rs[string(r)] {
			fail("MakeRand: %x %v (repeated %v)", r, err, rs[string(r)])
		}
		rs[string(r)] = true
	}
	// every byte position varies
	for p := 0; p < 32; p++ {
		seen := map[byte]bool{}
		for r := range rs {
			seen[r[p]] = true
		}
		if len(seen) < 64 {
			fail("byte %d of MakeRand takes only %d values in %d calls", p, len(seen), len(rs))
		}
	}
	fmt.Printf("CASES=%d\n", cases)
}
