package utils

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

func zzvSeed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func zzvScale(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 10 * n
	}
	return n
}

// TestZZVUtils (C18): bit and integer encodings against a definition bit by bit.
func TestZZVUtils(t *testing.T) {
	rnd := rand.New(rand.NewSource(zzvSeed()))
	cases := 0
	fail := func(f string, a ...interface{}) { t.Fatalf("REPLAY "+f, a...) }
	bit := func(b []byte, n int) bool {
		v := int(b[n/8])
		for k := 0; k < 7-n%8; k++ {
			v /= 2
		}
		return v%2 == 1
	}
	checkBits := func(bits []bool) {
		cases++
		in := append([]bool{}, bits...)
		bs := ToBytes(bits)
		for i := range in {
			if in[i] != bits[i] {
				fail("ToBytes(%v) changed its argument", in)
			}
		}
		if len(bs) != (len(bits)+7)/8 {
			fail("ToBytes of %d bits has %d bytes", len(bits), len(bs))
		}
		back := ToBits(bs)
		if len(back) != 8*len(bs) {
			fail("ToBits of %d bytes has %d bits", len(bs), len(back))
		}
		for i := 0; i < 8*len(bs); i++ {
			want := i < len(bits) && bits[i]
			if bit(bs, i) != want {
				fail("ToBytes(%v) = %x: bit %d is %v", bits, bs, i, !want)
			}
			if back[i] != want {
				fail("ToBits(%x): bit %d is %v", bs, i, back[i])
			}
			if GetNthBit(bs, uint32(i)) != want {
				fail("GetNthBit(%x, %d) = %v", bs, i, !want)
			}
		}
	}
	for n := 0; n <= 12; n++ {
		for v := 0; v < 1<<uint(n); v++ {
			bits := make([]bool, n)
			for i := range bits {
				bits[i] = v>>uint(i)&1 == 1
			}
			checkBits(bits)
		}
	}
	for i := 0; i < zzvScale(3000); i++ {
		bits := make([]bool, rnd.Intn(300))
		for j := range bits {
			bits[j] = rnd.Intn(2) == 1
		}
		checkBits(bits)
	}
	le := func(v uint64, n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(v % 256)
			v /= 256
		}
		return b
	}
	nums := []uint64{0, 1, 127, 128, 255, 256, 257, 65535, 65536, math.MaxInt32, 1 << 31, math.MaxUint32, 1 << 32,
		math.MaxInt64 - 1, math.MaxInt64, 1 << 63, 1<<63 + 1, math.MaxUint64 - 1, math.MaxUint64}
	for i := uint(0); i < 64; i++ {
		nums = append(nums, 1<<i, 1<<i-1, ^(uint64(1) << i))
	}
	for i := 0; i < zzvScale(3000); i++ {
		nums = append(nums, rnd.Uint64()>>uint(rnd.Intn(64)))
	}
	var last []byte
	var lastv uint64
	for _, v := range nums {
		cases++
		if got := ULongToBytes(v); !bytes.Equal(got, le(v, 8)) {
			fail("ULongToBytes(%d) = %x", v, got)
		}
		got := LongToBytes(int64(v))
		if !bytes.Equal(got, le(v, 8)) {
			fail("LongToBytes(%d) = %x", int64(v), got)
		}
		if last != nil && !bytes.Equal(last, le(lastv, 8)) {
			fail("the encoding of %d was overwritten by that of %d", lastv, v)
		}
		last, lastv = got, v
		if got := UInt32ToBytes(uint32(v)); !bytes.Equal(got, le(v%(1<<32), 4)) {
			fail("UInt32ToBytes(%d) = %x", uint32(v), got)
		}
	}
	fmt.Printf("CASES=%d\n", cases)
}
