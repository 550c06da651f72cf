package kv

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

func zzvSeed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func zzvScale(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 10 * n
	}
	return n
}

// TestZZVKeyRange (C18): the successor of a prefix against the number it is.
func TestZZVKeyRange(t *testing.T) {
	rnd := rand.New(rand.NewSource(zzvSeed()))
	cases := 0
	fail := func(f string, a ...interface{}) { t.Fatalf("REPLAY "+f, a...) }
	check := func(p []byte) {
		cases++
		in := append([]byte{}, p...)
		// independent: drop trailing 0xff, add one to what is left
		want := append([]byte{}, p...)
		for len(want) > 0 && want[len(want)-1] == 255 {
			want = want[:len(want)-1]
		}
		if len(want) == 0 {
			want = nil
		} else {
			want[len(want)-1]++
		}
		got := IncrementKey(p)
		if !bytes.Equal(p, in) {
			fail("IncrementKey(%x) changed the prefix to %x", in, p)
		}
		if !bytes.Equal(got, want) || (got == nil) != (want == nil) {
			fail("IncrementKey(%x) = %x, want %x", in, got, want)
		}
		r := BytesPrefix(p)
		if !bytes.Equal(p, in) {
			fail("BytesPrefix(%x) changed the prefix to %x", in, p)
		}
		if !bytes.Equal(r.Start, in) || !bytes.Equal(r.Limit, want) || (r.Limit == nil) != (want == nil) {
			fail("BytesPrefix(%x) = [%x, %x), want limit %x", in, r.Start, r.Limit, want)
		}
		// the result does not share memory with the prefix
		if len(got) > 0 {
			got[0] ^= 1
			if !bytes.Equal(p, in) {
				fail("IncrementKey(%x) returned the prefix's own memory", in)
			}
		}
	}
	check(nil)
	al := []byte{0, 1, 2, 127, 128, 253, 254, 255}
	var rec func(p []byte, n int)
	rec = func(p []byte, n int) {
		check(append(make([]byte, 0, len(p)+rnd.Intn(3)), p...))
		if n == 0 {
			return
		}
		for _, b := range al {
			rec(append(append([]byte{}, p...), b), n-1)
		}
	}
	rec(nil, 4)
	for i := 0; i < zzvScale(3000); i++ {
		p := make([]byte, rnd.Intn(40))
		rnd.Read(p)
		for j := rnd.Intn(len(p) + 1); j < len(p); j++ {
			p[j] = 255
		}
		check(p)
	}
	fmt.Printf("CASES=%d\n", cases)
}
