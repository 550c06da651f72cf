package edwards25519_test

// Bounded differential check of the verifiable random function against its
// definition over the reference curve.

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"testing"

	"github.com/coniks-sys/coniks-go/crypto/internal/ed25519/edwards25519"
	"github.com/coniks-sys/coniks-go/crypto/internal/ed25519/extra25519"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"golang.org/x/crypto/sha3"
)

type zzReader struct {
	r    *rand.Rand
	left int
}

func (z *zzReader) Read(b []byte) (int, error) {
	if z.left <= 0 {
		return 0, fmt.Errorf("no more randomness")
	}
	n := len(b)
	if n > z.left {
		n = z.left
	}
	if n > 7 && z.r.Intn(2) == 0 {
		n = 7
	}
	z.left -= n
	return z.r.Read(b[:n])
}

func zzShake(n int, parts ...[]byte) []byte {
	h := sha3.NewShake256()
	for _, p := range parts {
		h.Write(p)
	}
	out := make([]byte, n)
	h.Read(out)
	return out
}

func zzH2C(m []byte) edwards25519.ZZPoint {
	return edwards25519.ZZMul(big.NewInt(8), edwards25519.ZZElligator(zzShake(32, m)))
}

func zzSecret(sk []byte) *big.Int {
	x := zzShake(32, sk[:32])
	x[0] &= 248
	x[31] = x[31]&127 | 64
	return edwards25519.ZZLE(x)
}

func zzVerify(pk, m, out, proof []byte) bool {
	if len(pk) != 32 || len(out) != 32 || len(proof) != 96 {
		return false
	}
	if !bytes.Equal(out, zzShake(32, proof[64:], m)) {
		return false
	}
	p, ok := edwards25519.ZZBaseGroup(pk)
	if !ok {
		return false
	}
	v, ok := edwards25519.ZZBaseGroup(proof[64:])
	if !ok {
		return false
	}
	s, t := edwards25519.ZZLE(proof[:32]), edwards25519.ZZLE(proof[32:64])
	h := zzH2C(m)
	a := edwards25519.ZZAdd(edwards25519.ZZMul(s, p), edwards25519.ZZMul(t, edwards25519.ZZBase()))
	b := edwards25519.ZZAdd(edwards25519.ZZMul(t, h), edwards25519.ZZMul(s, v))
	c := edwards25519.ZZLE(zzShake(64, edwards25519.ZZEncode(edwards25519.ZZBase()), edwards25519.ZZEncode(h), pk, proof[64:],
		edwards25519.ZZEncode(a), edwards25519.ZZEncode(b), m))
	return c.Mod(c, edwards25519.ZZOrder()).Cmp(s) == 0
}

// a proof for any key and point (the honest one for the honest point)
func zzForge(r *rand.Rand, x *big.Int, pk, m []byte, v edwards25519.ZZPoint, ve []byte) (out, proof []byte) {
	k := new(big.Int).Rand(r, edwards25519.ZZOrder())
	h := zzH2C(m)
	g := edwards25519.ZZBase()
	c := edwards25519.ZZLE(zzShake(64, edwards25519.ZZEncode(g), edwards25519.ZZEncode(h), pk, ve,
		edwards25519.ZZEncode(edwards25519.ZZMul(k, g)), edwards25519.ZZEncode(edwards25519.ZZMul(k, h)), m))
	c.Mod(c, edwards25519.ZZOrder())
	t := new(big.Int).Sub(k, new(big.Int).Mul(c, x))
	t.Mod(t, edwards25519.ZZOrder())
	proof = append(append(edwards25519.ZZBytes(c, 32), edwards25519.ZZBytes(t, 32)...), ve...)
	return zzShake(32, ve, m), proof
}

func TestZZVElligator(t *testing.T) {
	r, n := edwards25519.ZZSetup()
	for it := 0; it < 3000*n; it++ {
		var h, s [32]byte
		r.Read(h[:])
		switch r.Intn(6) {
		case 0:
			copy(h[:], edwards25519.ZZBytes(new(big.Int).Add(edwards25519.ZZPrime(), big.NewInt(int64(r.Intn(37)-18))), 32))
			h[31] |= byte(r.Intn(2)) << 7
		case 1:
			h = [32]byte{byte(r.Intn(4))}
			h[31] |= byte(r.Intn(2)) << 7
		}
		var out edwards25519.ExtendedGroupElement
		extra25519.HashToEdwards(&out, &h)
		out.ToBytes(&s)
		if !bytes.Equal(s[:], edwards25519.ZZEncode(edwards25519.ZZElligator(h[:]))) {
			t.Fatalf("REPLAY property=C13 HashToEdwards(%x) = %x", h, s)
		}
	}
}

func TestZZVVRF(t *testing.T) {
	r, n := edwards25519.ZZSetup()
	low := edwards25519.ZZLowOrder()
	for it := 0; it < 60*n; it++ {
		if it%10 == 0 {
			if sk, err := vrf.GenerateKey(&zzReader{r, r.Intn(32)}); err == nil {
				t.Fatalf("REPLAY property=C12 GenerateKey made %x from too little randomness", sk)
			}
		}
		seed := r.Int63()
		sk, err := vrf.GenerateKey(&zzReader{rand.New(rand.NewSource(seed)), 32})
		if err != nil || len(sk) != 64 {
			t.Fatalf("REPLAY property=C12 GenerateKey fails: %v", err)
		}
		pk, ok := sk.Public()
		x := zzSecret(sk)
		if !ok || !bytes.Equal(pk, sk[32:]) || !bytes.Equal(pk, edwards25519.ZZEncode(edwards25519.ZZMul(x, edwards25519.ZZBase()))) {
			t.Fatalf("REPLAY property=C12 Public(%x) = %x", []byte(sk), []byte(pk))
		}
		m := make([]byte, []int{0, 1, 2, 7, 31, 32, 33, 64, 100, 136, 137, 300}[r.Intn(12)])
		r.Read(m)
		v := edwards25519.ZZMul(x, zzH2C(m))
		ve := edwards25519.ZZEncode(v)
		want := zzShake(32, ve, m)
		keep := append([]byte{}, sk...)
		keepm := append([]byte{}, m...)
		out, proof := sk.Prove(m)
		out2, proof2 := sk.Prove(m)
		c1, c2 := sk.Compute(m), sk.Compute(m)
		if !bytes.Equal(out, want) || !bytes.Equal(c1, want) || !bytes.Equal(c2, want) || !bytes.Equal(out2, want) ||
			!bytes.Equal(keep, sk) || !bytes.Equal(keepm, m) {
			t.Fatalf("REPLAY property=C12 key %x name %x: prove %x %x compute %x %x want %x", []byte(sk), m, out, out2, c1, c2, want)
		}
		if !zzVerify(pk, m, out, proof) || !zzVerify(pk, m, out2, proof2) {
			t.Fatalf("REPLAY property=C12 key %x name %x: the proof %x is wrong", []byte(sk), m, proof)
		}
		judge := func(what string, pk vrf.PublicKey, m, out, proof []byte) {
			w := zzVerify(pk, m, out, proof)
			if got := pk.Verify(m, out, proof); got != w {
				t.Fatalf("REPLAY property=C12 %s: Verify(key %x, name %x, output %x, proof %x) = %v", what, []byte(pk), m, out, proof, got)
			}
		}
		judge("honest", pk, m, out, proof)
		other := []byte("another name")
		for k := 0; k < 4; k++ {
			p2, m2, o2, f2 := append([]byte{}, pk...), append([]byte{}, m...), append([]byte{}, out...), append([]byte{}, proof...)
			switch r.Intn(8) {
			case 0:
				f2[r.Intn(96)] ^= 1 << uint(r.Intn(8))
				f2[63] &= 127
				f2[31] &= 127
				o2 = zzShake(32, f2[64:], m2)
				judge("changed proof", p2, m2, o2, f2)
			case 1:
				o2[r.Intn(32)] ^= 1 << uint(r.Intn(8))
				judge("changed output", p2, m2, o2, f2)
			case 2:
				p2[r.Intn(32)] ^= 1 << uint(r.Intn(8))
				judge("changed key", p2, m2, o2, f2)
			case 3:
				judge("another name", p2, other, o2, f2)
				judge("another name", p2, other, zzShake(32, f2[64:], other), f2)
			case 4:
				cut := func(b []byte) []byte {
					switch r.Intn(4) {
					case 0:
						return b[:r.Intn(len(b))]
					case 1:
						return append(b, byte(r.Intn(256)))
					case 2:
						return nil
					}
					return append(b, b...)
				}
				judge("key of another length", cut(p2), m2, o2, f2)
				judge("output of another length", p2, m2, cut(o2), f2)
				judge("proof of another length", p2, m2, o2, cut(f2))
			case 5: // scalars that are not reduced
				s := new(big.Int).Add(edwards25519.ZZLE(f2[:32]), edwards25519.ZZOrder())
				q := new(big.Int).Add(edwards25519.ZZLE(f2[32:64]), edwards25519.ZZOrder())
				copy(f2[:32], edwards25519.ZZBytes(s, 32))
				judge("challenge not reduced", p2, m2, o2, f2)
				copy(f2, proof)
				copy(f2[32:64], edwards25519.ZZBytes(q, 32))
				judge("answer not reduced", p2, m2, o2, f2)
			case 6: // points outside the subgroup
				w := edwards25519.ZZAdd(v, low[1+r.Intn(7)])
				for try := 0; try < 8; try++ {
					o, f := zzForge(r, x, pk, m, w, edwards25519.ZZEncode(w))
					judge("point outside the subgroup", p2, m2, o, f)
				}
				w = low[r.Intn(8)]
				o, f := zzForge(r, x, pk, m, w, edwards25519.ZZEncode(w))
				judge("point of low order", p2, m2, o, f)
			case 7: // key outside the subgroup; a forged point
				pp := edwards25519.ZZEncode(edwards25519.ZZAdd(edwards25519.ZZMul(x, edwards25519.ZZBase()), low[1+r.Intn(7)]))
				for try := 0; try < 8; try++ {
					o, f := zzForge(r, x, pp, m, v, ve)
					judge("key outside the subgroup", pp, m2, o, f)
				}
				w := edwards25519.ZZAdd(v, edwards25519.ZZBase())
				o, f := zzForge(r, x, pk, m, w, edwards25519.ZZEncode(w))
				judge("forged point", p2, m2, o, f)
				id := edwards25519.ZZEncode(edwards25519.ZZId())
				o, f = zzForge(r, big.NewInt(0), id, m, edwards25519.ZZId(), id)
				judge("neutral key", id, m2, o, f)
				o, f = zzForge(r, big.NewInt(0), pk, m, edwards25519.ZZId(), id)
				judge("neutral point", p2, m2, o, f)
			}
		}
		o, f := zzForge(r, x, pk, m, v, ve)
		judge("another honest proof", pk, m, o, f)
		// the caller's buffers now hold another name and another key
		for i := range m {
			m[i] ^= byte(1 + r.Intn(255))
		}
		if it%2 == 0 {
			k2, _ := vrf.GenerateKey(&zzReader{rand.New(rand.NewSource(seed + 1)), 32})
			copy(sk, k2)
			copy(pk, k2[32:])
		}
		want = zzShake(32, edwards25519.ZZEncode(edwards25519.ZZMul(zzSecret(sk), zzH2C(m))), m)
		out, proof = sk.Prove(m)
		if c := sk.Compute(m); !bytes.Equal(out, want) || !bytes.Equal(c, want) || !zzVerify(pk, m, out, proof) || !pk.Verify(m, out, proof) {
			t.Fatalf("REPLAY property=C12 key %x name %x, in buffers used before: prove %x compute %x want %x proof %x", []byte(sk), m, out, c, want, proof)
		}
	}
}
