package edwards25519

// Bounded differential checks of the field, scalar and group arithmetic against
// math/big, and a reference curve for the other harnesses of this directory.

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

var (
	zzP    = zzInt("57896044618658097711785492504343953926634992332820282019728792003956564819949")
	zzL    = zzInt("7237005577332262213973186563042994240857116359379907606001950938285454250989")
	zzD    = zzMod(new(big.Int).Mul(big.NewInt(-121665), new(big.Int).ModInverse(big.NewInt(121666), zzP)))
	zz1    = big.NewInt(1)
	zzI    = new(big.Int).Exp(big.NewInt(2), new(big.Int).Rsh(new(big.Int).Sub(zzP, zz1), 2), zzP)
	zzBase = ZZDecodeMust()
)

func zzInt(s string) *big.Int {
	v, _ := new(big.Int).SetString(s, 10)
	return v
}

func zzMod(x *big.Int) *big.Int { return x.Mod(x, zzP) }

func zzMul(xs ...*big.Int) *big.Int {
	r := big.NewInt(1)
	for _, x := range xs {
		r.Mul(r, x)
		r.Mod(r, zzP)
	}
	return r
}

func zzAddm(a, b *big.Int) *big.Int { return zzMod(new(big.Int).Add(a, b)) }
func zzSubm(a, b *big.Int) *big.Int { return zzMod(new(big.Int).Sub(a, b)) }

// ZZPoint is an affine point.
type ZZPoint struct{ X, Y *big.Int }

// ZZId is the neutral element.
func ZZId() ZZPoint { return ZZPoint{big.NewInt(0), big.NewInt(1)} }

func zzInv(x *big.Int) *big.Int {
	if x.Sign() == 0 {
		return big.NewInt(0)
	}
	return new(big.Int).ModInverse(x, zzP)
}

// ZZOn tells whether the point is on -x^2 + y^2 = 1 + d x^2 y^2.
func ZZOn(p ZZPoint) bool {
	xx, yy := zzMul(p.X, p.X), zzMul(p.Y, p.Y)
	return zzSubm(yy, xx).Cmp(zzAddm(zz1, zzMul(zzD, xx, yy))) == 0
}

// ZZAdd is the addition law.
func ZZAdd(p, q ZZPoint) ZZPoint {
	t := zzMul(zzD, p.X, q.X, p.Y, q.Y)
	x := zzMul(zzAddm(zzMul(p.X, q.Y), zzMul(p.Y, q.X)), zzInv(zzAddm(zz1, t)))
	y := zzMul(zzAddm(zzMul(p.Y, q.Y), zzMul(p.X, q.X)), zzInv(zzSubm(zz1, t)))
	return ZZPoint{x, y}
}

// ZZNeg is the negative.
func ZZNeg(p ZZPoint) ZZPoint { return ZZPoint{zzSubm(big.NewInt(0), p.X), p.Y} }

// ZZMul is a multiple, computed on fractions (no inversion until the end).
func ZZMul(k *big.Int, p ZZPoint) ZZPoint {
	type ext struct{ x, y, z, t *big.Int }
	add := func(p, q ext) ext {
		a := zzMul(zzSubm(p.y, p.x), zzSubm(q.y, q.x))
		b := zzMul(zzAddm(p.y, p.x), zzAddm(q.y, q.x))
		c := zzMul(p.t, q.t, zzD, big.NewInt(2))
		d := zzMul(p.z, q.z, big.NewInt(2))
		e, f, g, h := zzSubm(b, a), zzSubm(d, c), zzAddm(d, c), zzAddm(b, a)
		return ext{zzMul(e, f), zzMul(g, h), zzMul(f, g), zzMul(e, h)}
	}
	r := ext{big.NewInt(0), big.NewInt(1), big.NewInt(1), big.NewInt(0)}
	e := ext{p.X, p.Y, zz1, zzMul(p.X, p.Y)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = add(r, r)
		if k.Bit(i) == 1 {
			r = add(r, e)
		}
	}
	zi := zzInv(r.z)
	return ZZPoint{zzMul(r.x, zi), zzMul(r.y, zi)}
}

// ZZEq compares.
func ZZEq(p, q ZZPoint) bool { return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0 }

// ZZLE is a little-endian integer.
func ZZLE(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

// ZZBytes is the little-endian encoding in n bytes.
func ZZBytes(x *big.Int, n int) []byte {
	r := make([]byte, n)
	b := x.Bytes()
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return r
}

// ZZEncode is the 32-byte encoding.
func ZZEncode(p ZZPoint) []byte {
	r := ZZBytes(p.Y, 32)
	r[31] |= byte(p.X.Bit(0)) << 7
	return r
}

// ZZFromY finds the point with that y and that parity of x.
func ZZFromY(y *big.Int, bit uint) (ZZPoint, bool) {
	yy := zzMul(y, y)
	xx := zzMul(zzSubm(yy, zz1), zzInv(zzAddm(zzMul(zzD, yy), zz1)))
	x := new(big.Int).ModSqrt(xx, zzP)
	if x == nil {
		return ZZPoint{}, false
	}
	if x.Bit(0) != bit {
		x = zzSubm(big.NewInt(0), x)
	}
	return ZZPoint{x, new(big.Int).Mod(y, zzP)}, true
}

// ZZDecode decodes 32 bytes (also non-canonical ones).
func ZZDecode(b []byte) (ZZPoint, bool) {
	c := append([]byte{}, b...)
	bit := uint(c[31] >> 7)
	c[31] &= 127
	return ZZFromY(zzMod(ZZLE(c)), bit)
}

// ZZDecodeMust is the base point (y = 4/5, x even).
func ZZDecodeMust() ZZPoint {
	p, _ := ZZFromY(zzMul(big.NewInt(4), zzInv(big.NewInt(5))), 0)
	return p
}

// ZZBaseGroup is the canonical, non-neutral, prime-order decoding.
func ZZBaseGroup(b []byte) (ZZPoint, bool) {
	p, ok := ZZDecode(b)
	if !ok || ZZEq(p, ZZId()) || string(ZZEncode(p)) != string(b) || !ZZEq(ZZMul(zzL, p), ZZId()) {
		return ZZPoint{}, false
	}
	return p, true
}

// ZZBase is the base point.
func ZZBase() ZZPoint { return zzBase }

// ZZOrder is the group order.
func ZZOrder() *big.Int { return zzL }

// ZZPrime is the field's order.
func ZZPrime() *big.Int { return zzP }

// ZZElligator maps 32 bytes to a point.
func ZZElligator(h []byte) ZZPoint {
	c := append([]byte{}, h...)
	bit := uint(c[31] >> 7)
	c[31] &= 127
	r := zzMod(ZZLE(c))
	a := big.NewInt(486662)
	v := zzMul(zzSubm(big.NewInt(0), a), zzInv(zzAddm(zzMul(big.NewInt(2), r, r), zz1)))
	e := zzMul(v, zzAddm(zzAddm(zzMul(v, v), zzMul(a, v)), zz1))
	if big.Jacobi(e, zzP) == -1 {
		v = zzSubm(zzSubm(big.NewInt(0), v), a)
	}
	y := zzMul(zzSubm(v, zz1), zzInv(zzAddm(v, zz1)))
	p, ok := ZZFromY(y, bit)
	if !ok {
		panic("no such point")
	}
	return p
}

// ZZLowOrder are points of order 8, 4, 2 and 1.
func ZZLowOrder() []ZZPoint {
	var out []ZZPoint
	for y := int64(2); ; y++ {
		if p, ok := ZZFromY(big.NewInt(y), 0); ok {
			q := ZZMul(zzL, p)
			if !ZZEq(ZZMul(big.NewInt(4), q), ZZId()) {
				for i := int64(0); i < 8; i++ {
					out = append(out, ZZMul(big.NewInt(i), q))
				}
				return out
			}
		}
	}
}

// ZZSetup gives the seed and the effort.
func ZZSetup() (*rand.Rand, int) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	n := 1
	if os.Getenv("VERIF_TIER") == "thorough" {
		n = 10
	}
	return rand.New(rand.NewSource(seed*7919 + 13)), n
}

func zzVal(f *FieldElement) *big.Int {
	r := new(big.Int)
	sh := []uint{0, 26, 51, 77, 102, 128, 153, 179, 204, 230}
	for i := range f {
		r.Add(r, new(big.Int).Lsh(big.NewInt(int64(f[i])), sh[i]))
	}
	return zzMod(r)
}

// limbs within +-num/10 of 2^26 (even) and 2^25 (odd), with extremes and patterns
func zzLimbs(r *rand.Rand, num int64) FieldElement {
	var f FieldElement
	mode := r.Intn(8)
	for i := range f {
		b := num * (1 << 25) / 10
		if i%2 == 0 {
			b *= 2
		}
		switch m := mode; {
		case m == 0:
			f[i] = int32(b)
		case m == 1:
			f[i] = int32(-b)
		case m == 2 || (m == 3 && r.Intn(3) > 0):
			f[i] = int32([]int64{b, -b, 0, 1, -1, b - 1, 1 - b, 1 << 24, -(1 << 24), 1 << 25, -(1 << 25)}[r.Intn(11)])
			if int64(f[i]) > b || int64(f[i]) < -b {
				f[i] = 0
			}
		default:
			f[i] = int32(r.Int63n(2*b+1) - b)
		}
	}
	return f
}

func zzIn(f *FieldElement, num int64) bool {
	for i := range f {
		b := num * (1 << 25) / 100
		if i%2 == 0 {
			b *= 2
		}
		if int64(f[i]) > b || int64(f[i]) < -b {
			return false
		}
	}
	return true
}

func zz32(r *rand.Rand) []byte {
	b := make([]byte, 32)
	switch r.Intn(8) {
	case 0:
		return ZZBytes(new(big.Int).Mod(new(big.Int).Add(zzP, big.NewInt(int64(r.Intn(21)-10))), new(big.Int).Lsh(zz1, 256)), 32)
	case 1:
		return ZZBytes(new(big.Int).Add(zzL, big.NewInt(int64(r.Intn(21)-10))), 32)
	case 2:
		for i := range b {
			b[i] = []byte{0, 255, 1, 128, 127}[r.Intn(5)]
		}
	case 3:
		for i := range b {
			b[i] = 255
		}
		b[r.Intn(32)] = byte(r.Intn(256))
	case 4:
		b[r.Intn(32)] = byte(r.Intn(256))
	case 5:
		k := big.NewInt(int64(r.Intn(16)))
		k.Mul(k, zzL).Add(k, big.NewInt(int64(r.Intn(5)-2)))
		if k.Sign() < 0 {
			k.SetInt64(0)
		}
		return ZZBytes(k.Mod(k, new(big.Int).Lsh(zz1, 256)), 32)
	default:
		r.Read(b)
	}
	return b
}

func zzFail(t *testing.T, what string, args ...interface{}) {
	t.Fatalf("REPLAY property=C13 %s: %s", what, fmt.Sprint(args...))
}

func TestZZVField(t *testing.T) {
	r, n := ZZSetup()
	for it := 0; it < 60000*n; it++ {
		f, g := zzLimbs(r, 16), zzLimbs(r, 16)
		fv, gv := zzVal(&f), zzVal(&g)
		var h FieldElement
		alias := r.Intn(4)
		dst, a, b := &h, f, g
		pa, pb := &a, &b
		switch alias {
		case 1:
			dst = pa
		case 2:
			dst = pb
		}
		check := func(what string, want *big.Int, bound int64) {
			if zzVal(dst).Cmp(want) != 0 || (bound > 0 && !zzIn(dst, bound)) {
				zzFail(t, what, " of ", f, " and ", g, " (aliasing ", alias, ") gives ", *dst)
			}
			h, a, b = FieldElement{}, f, g
		}
		FeMul(dst, pa, pb)
		check("FeMul", zzMul(fv, gv), 102)
		FeSquare(dst, pa)
		check("FeSquare", zzMul(fv, fv), 102)
		FeSquare2(dst, pa)
		check("FeSquare2", zzMul(fv, fv, big.NewInt(2)), 102)
		FeAdd(dst, pa, pb)
		check("FeAdd", zzAddm(fv, gv), 0)
		FeSub(dst, pa, pb)
		check("FeSub", zzSubm(fv, gv), 0)
		FeNeg(dst, pa)
		check("FeNeg", zzSubm(big.NewInt(0), fv), 160)
		FeCopy(dst, pa)
		check("FeCopy", fv, 160)
		bit := r.Intn(2)
		a, b = f, g
		FeCMove(&a, &b, int32(bit))
		if (bit == 1 && a != g) || (bit == 0 && a != f) || b != g {
			zzFail(t, "FeCMove", f, g, bit, a)
		}
		k := zzLimbs(r, 11)
		kv := zzVal(&k)
		kk := k
		var s [32]byte
		FeToBytes(&s, &kk)
		if string(s[:]) != string(ZZBytes(kv, 32)) {
			zzFail(t, "FeToBytes", k, s)
		}
		kk = k
		if int(FeIsNegative(&kk)) != int(kv.Bit(0)) {
			zzFail(t, "FeIsNegative", k)
		}
		kk = k
		if it%7 == 0 { // a representation of zero
			kk = FieldElement{}
			FeFromBytes(&kk, (*[32]byte)(zzArr(ZZBytes(zzP, 32))))
		}
		z := zzVal(&kk).Sign()
		if (FeIsNonZero(&kk) != 0) != (z != 0) {
			zzFail(t, "FeIsNonZero", k, z)
		}
		in := zz32(r)
		FeFromBytes(&h, zzArr(in))
		in[31] &= 127
		if zzVal(&h).Cmp(zzMod(ZZLE(in))) != 0 || !zzIn(&h, 102) {
			zzFail(t, "FeFromBytes", in, h)
		}
		if it%100 == 0 {
			a = f
			FeInvert(&h, &a)
			if zzVal(&h).Cmp(zzInv(fv)) != 0 {
				zzFail(t, "FeInvert", f, h)
			}
			e := new(big.Int).Rsh(zzSubm(zzP, big.NewInt(5)), 3)
			e = new(big.Int).Rsh(new(big.Int).Sub(zzP, big.NewInt(5)), 3)
			fePow22523(&h, &a)
			if zzVal(&h).Cmp(new(big.Int).Exp(fv, e, zzP)) != 0 {
				zzFail(t, "fePow22523", f, h)
			}
		}
	}
}

func zzArr(b []byte) *[32]byte {
	var r [32]byte
	copy(r[:], b)
	return &r
}

func TestZZVScalar(t *testing.T) {
	r, n := ZZSetup()
	for it := 0; it < 60000*n; it++ {
		a, b, c := zz32(r), zz32(r), zz32(r)
		var s [32]byte
		ScMulAdd(&s, zzArr(a), zzArr(b), zzArr(c))
		w := new(big.Int).Mul(ZZLE(a), ZZLE(b))
		w.Add(w, ZZLE(c)).Mod(w, zzL)
		if string(s[:]) != string(ZZBytes(w, 32)) {
			zzFail(t, "ScMulAdd", a, b, c, s)
		}
		var x [64]byte
		copy(x[:], a)
		copy(x[32:], b)
		y := x
		ScReduce(&s, &y)
		w = ZZLE(x[:])
		w.Mod(w, zzL)
		if string(s[:]) != string(ZZBytes(w, 32)) {
			zzFail(t, "ScReduce", x, s)
		}
		if it%4 == 0 {
			w = new(big.Int).Mul(zzL, new(big.Int).SetBytes(a[:31]))
			w.Add(w, big.NewInt(int64(r.Intn(5)-2)))
			if w.Sign() >= 0 {
				copy(y[:], ZZBytes(w, 64))
				ScReduce(&s, &y)
				if string(s[:]) != string(ZZBytes(new(big.Int).Mod(w, zzL), 32)) {
					zzFail(t, "ScReduce", w, s)
				}
			}
		}
		q := new(big.Int).Mod(ZZLE(c), zzL)
		if q.Sign() != 0 {
			ScNeg(&s, zzArr(ZZBytes(q, 32)))
			if string(s[:]) != string(ZZBytes(new(big.Int).Sub(zzL, q), 32)) {
				zzFail(t, "ScNeg", q, s)
			}
		}
	}
}

func zzAffine(x, y, z *FieldElement) ZZPoint {
	zi := zzInv(zzVal(z))
	return ZZPoint{zzMul(zzVal(x), zi), zzMul(zzVal(y), zi)}
}

func zzExtOK(p *ExtendedGroupElement, want ZZPoint) bool {
	return zzVal(&p.Z).Sign() != 0 && ZZEq(zzAffine(&p.X, &p.Y, &p.Z), want) &&
		zzMul(zzVal(&p.X), zzVal(&p.Y)).Cmp(zzMul(zzVal(&p.T), zzVal(&p.Z))) == 0
}

func zzFe(v *big.Int) (f FieldElement) {
	FeFromBytes(&f, zzArr(ZZBytes(v, 32)))
	return
}

// a point with a random denominator
func zzExt(r *rand.Rand, p ZZPoint) *ExtendedGroupElement {
	z := new(big.Int).Add(new(big.Int).Rand(r, new(big.Int).Sub(zzP, zz1)), zz1)
	if r.Intn(4) == 0 {
		z = big.NewInt(1)
	}
	return &ExtendedGroupElement{X: zzFe(zzMul(p.X, z)), Y: zzFe(zzMul(p.Y, z)), Z: zzFe(z), T: zzFe(zzMul(p.X, p.Y, z))}
}

func zzRandPoint(r *rand.Rand, low []ZZPoint) ZZPoint {
	switch r.Intn(6) {
	case 0:
		return low[r.Intn(8)]
	case 1:
		return ZZAdd(zzSmall[r.Intn(len(zzSmall))], low[r.Intn(8)])
	case 2, 3:
		return zzSmall[r.Intn(len(zzSmall))]
	}
	for {
		if p, ok := ZZFromY(new(big.Int).Rand(r, zzP), uint(r.Intn(2))); ok {
			return p
		}
	}
}

var zzSmall []ZZPoint

func zzPre(p ZZPoint) PreComputedGroupElement {
	return PreComputedGroupElement{yPlusX: zzFe(zzAddm(p.Y, p.X)), yMinusX: zzFe(zzSubm(p.Y, p.X)), xy2d: zzFe(zzMul(p.X, p.Y, zzD, big.NewInt(2)))}
}

func zzPreOK(q *PreComputedGroupElement, p ZZPoint) bool {
	w := zzPre(p)
	return zzVal(&q.yPlusX).Cmp(zzVal(&w.yPlusX)) == 0 && zzVal(&q.yMinusX).Cmp(zzVal(&w.yMinusX)) == 0 &&
		zzVal(&q.xy2d).Cmp(zzVal(&w.xy2d)) == 0 && zzIn(&q.yPlusX, 102) && zzIn(&q.yMinusX, 102) && zzIn(&q.xy2d, 102)
}

// The constants, exhaustively.
func TestZZVTables(t *testing.T) {
	if zzVal(&d).Cmp(zzD) != 0 || zzVal(&d2).Cmp(zzMul(zzD, big.NewInt(2))) != 0 || zzVal(&A).Cmp(big.NewInt(486662)) != 0 ||
		zzMul(zzVal(&SqrtM1), zzVal(&SqrtM1)).Cmp(zzSubm(big.NewInt(0), zz1)) != 0 || !zzExtOK(&extendedBaseEl, zzBase) ||
		string(BaseBytes[:]) != string(ZZEncode(zzBase)) || string(BasePointOrder[:]) != string(ZZBytes(zzL, 32)) {
		zzFail(t, "constants")
	}
	if !ZZOn(zzBase) || !ZZEq(ZZMul(zzL, zzBase), ZZId()) || !ZZEq(ZZMul(big.NewInt(3), zzBase), ZZAdd(zzBase, ZZAdd(zzBase, zzBase))) {
		t.Fatal("the reference is wrong")
	}
	for i := range bi {
		if !zzPreOK(&bi[i], ZZMul(big.NewInt(int64(2*i+1)), zzBase)) {
			zzFail(t, "bi", i)
		}
	}
	p := zzBase
	for i := range base {
		q := p
		for j := range base[i] {
			if !zzPreOK(&base[i][j], q) {
				zzFail(t, "base", i, " ", j)
			}
			q = ZZAdd(q, p)
		}
		for k := int32(-8); k <= 8; k++ {
			var s PreComputedGroupElement
			selectPoint(&s, int32(i), k)
			w := ZZMul(big.NewInt(int64(k)*int64(k)), ZZId())
			if k > 0 {
				w = ZZMul(big.NewInt(int64(k)), p)
			} else if k < 0 {
				w = ZZNeg(ZZMul(big.NewInt(int64(-k)), p))
			}
			if !zzPreOK(&s, w) {
				zzFail(t, "selectPoint", i, " ", k)
			}
		}
		p = ZZMul(big.NewInt(256), p)
	}
}

func TestZZVGroup(t *testing.T) {
	r, n := ZZSetup()
	low := ZZLowOrder()
	zzSmall = nil
	for i, p := 0, zzBase; i < 40; i, p = i+1, ZZAdd(p, zzBase) {
		zzSmall = append(zzSmall, p, ZZNeg(p))
	}
	for it := 0; it < 2500*n; it++ {
		p, q := zzRandPoint(r, low), zzRandPoint(r, low)
		switch r.Intn(6) {
		case 0:
			q = p
		case 1:
			q = ZZNeg(p)
		}
		if !ZZOn(p) || !ZZOn(q) {
			t.Fatal("the reference is wrong")
		}
		a, b := zzExt(r, p), zzExt(r, q)
		ctx := func(w string) string { return fmt.Sprint(w, " of ", p.X, ",", p.Y, " and ", q.X, ",", q.Y) }
		var e ExtendedGroupElement
		var c CompletedGroupElement
		var pr ProjectiveGroupElement
		var ca CachedGroupElement
		GeAdd(&e, a, b)
		if !zzExtOK(&e, ZZAdd(p, q)) {
			zzFail(t, ctx("GeAdd"))
		}
		e = *a
		GeAdd(&e, &e, b)
		if !zzExtOK(&e, ZZAdd(p, q)) {
			zzFail(t, ctx("GeAdd (aliased)"))
		}
		GeDouble(&e, a)
		if !zzExtOK(&e, ZZAdd(p, p)) {
			zzFail(t, ctx("GeDouble"))
		}
		e = *a
		GeDouble(&e, &e)
		if !zzExtOK(&e, ZZAdd(p, p)) {
			zzFail(t, ctx("GeDouble (aliased)"))
		}
		b.ToCached(&ca)
		geSub(&c, a, &ca)
		c.ToExtended(&e)
		if !zzExtOK(&e, ZZAdd(p, ZZNeg(q))) {
			zzFail(t, ctx("geSub"))
		}
		c.ToProjective(&pr)
		if !ZZEq(zzAffine(&pr.X, &pr.Y, &pr.Z), ZZAdd(p, ZZNeg(q))) {
			zzFail(t, ctx("ToProjective"))
		}
		m := zzPre(q)
		geMixedAdd(&c, a, &m)
		c.ToExtended(&e)
		if !zzExtOK(&e, ZZAdd(p, q)) {
			zzFail(t, ctx("geMixedAdd"))
		}
		geMixedSub(&c, a, &m)
		c.ToExtended(&e)
		if !zzExtOK(&e, ZZAdd(p, ZZNeg(q))) {
			zzFail(t, ctx("geMixedSub"))
		}
		a.Double(&c)
		c.ToExtended(&e)
		if !zzExtOK(&e, ZZAdd(p, p)) {
			zzFail(t, ctx("Double"))
		}
		var s [32]byte
		a.ToBytes(&s)
		if string(s[:]) != string(ZZEncode(p)) {
			zzFail(t, ctx("ToBytes"))
		}
		a = zzExt(r, p)
		a.ToProjective(&pr)
		pr.ToBytes(&s)
		if string(s[:]) != string(ZZEncode(p)) {
			zzFail(t, ctx("projective ToBytes"))
		}
		a.ToProjective(&pr)
		pr.ToExtended(&e)
		if !zzExtOK(&e, p) {
			zzFail(t, ctx("projective ToExtended"))
		}
		if !e.FromBytes(&s) || !zzExtOK(&e, p) {
			zzFail(t, ctx("FromBytes"))
		}
		in := zz32(r)
		w, ok := ZZDecode(in)
		if got := e.FromBytes(zzArr(in)); got != ok || (ok && !zzExtOK(&e, w)) {
			zzFail(t, "FromBytes", in, got)
		}
		if it%10 == 0 {
			enc := [][]byte{in, s[:], ZZEncode(q), ZZEncode(ZZMul(big.NewInt(8), q))}[r.Intn(4)]
			w, ok := ZZBaseGroup(enc)
			if got := e.FromBytesBaseGroup(zzArr(enc)); got != ok || (ok && !zzExtOK(&e, w)) {
				zzFail(t, "FromBytesBaseGroup", enc, got)
			}
			k := zz32(r)
			k[31] &= 127
			a = zzExt(r, p)
			GeScalarMult(&e, zzArr(k), a)
			if !zzExtOK(&e, ZZMul(ZZLE(k), p)) {
				zzFail(t, ctx("GeScalarMult"), k)
			}
			GeScalarMultBase(&e, zzArr(k))
			if !zzExtOK(&e, ZZMul(ZZLE(k), zzBase)) {
				zzFail(t, "GeScalarMultBase", k)
			}
			l := zz32(r)
			l[31] &= 127
			a = zzExt(r, p)
			GeDoubleScalarMultVartime(&pr, zzArr(k), a, zzArr(l))
			if !ZZEq(zzAffine(&pr.X, &pr.Y, &pr.Z), ZZAdd(ZZMul(ZZLE(k), p), ZZMul(ZZLE(l), zzBase))) {
				zzFail(t, ctx("GeDoubleScalarMultVartime"), k, l)
			}
		}
	}
}
