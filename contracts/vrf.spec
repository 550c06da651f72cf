# Verifiable random function (C12, C20, C10)

# output of the function under a private key, and what verifies (opaque to users;
# the axioms "in vrf" below are their definitions)
func vrfidx(seq, seq) seq
func vrfver(seq, seq, seq, seq) bool
# key pairs as GenerateKey makes them
func vrfkeyok(seq) bool
# names whose hash is not the neutral element of the group (nobody can find another)
func vrfname(seq) bool
axiom vrfidx_len: forall k seq, m seq :: {vrfidx(k, m)} len(vrfidx(k, m)) == 32

# ---- the group (trusted; see C13): points are opaque, scalars are 32 bytes, little-endian
ghost edwards25519.ExtendedGroupElement.pt int
ghost edwards25519.ProjectiveGroupElement.pt int
func gbase() int
func gid() int
func gadd(int, int) int
func gneg(int) int
func gdbl(int) int
# multiple of a point by a scalar below 2^255
func gmul(seq, int) int
# a*A + b*base as GeDoubleScalarMultVartime computes it
func gdsm(seq, int, seq) int
func penc(int) seq
func pdec(seq) int
# encodings of points other than the neutral element in the subgroup the base generates
func inbase(seq) bool
func insub(int) bool
func elli(seq) int
func scred(seq) seq
func scneg(seq) seq
# less than the group order
func red(seq) bool
func scmuladd(seq, seq, seq) seq
# the secret scalar a seed expands to
func secx(seq) seq

pred fits(a seq) = len(a) == 32 && at(a, 31) <= 127
pred h2c(m seq) = gdbl(gdbl(gdbl(elli(xof(256, m, 0, 32)))))
# the challenge
pred chal(pk seq, m seq, hx seq, a seq, b seq) = scred(xof(256, cat(penc(gbase()), penc(h2c(m)), pk, hx, a, b, m), 0, 64))

axiom penc_len: forall p int :: {penc(p)} len(penc(p)) == 32
axiom scred_len: forall s seq :: {scred(s)} fits(scred(s)) && red(scred(s))
axiom scneg_len: forall s seq :: {scneg(s)} red(s) ==> fits(scneg(s))
axiom scmuladd_len: forall a seq, b seq, c seq :: {scmuladd(a, b, c)} fits(scmuladd(a, b, c))
axiom secx_len in vrf: forall k seq :: {secx(k)} len(secx(k)) == 32
axiom secx_0 in vrf: forall k seq :: {secx(k)} at(secx(k), 0) == at(xof(256, k, 0, 32), 0) - at(xof(256, k, 0, 32), 0) % 8
axiom secx_31 in vrf: forall k seq :: {secx(k)} at(secx(k), 31) == at(xof(256, k, 0, 32), 31) % 64 + 64
axiom secx_i in vrf: forall k seq, i int :: {at(secx(k), i)} 0 < i && i < 31 ==> at(secx(k), i) == at(xof(256, k, 0, 32), i)

# definitions
axiom vrfidx_def in vrf: forall k seq, m seq :: {vrfidx(k, m)} vrfidx(k, m) == xof(256, cat(penc(gmul(secx(sub(k, 0, 32)), h2c(m))), m), 0, 32)
axiom vrfname_def in vrf: forall m seq :: {vrfname(m)} vrfname(m) <==> h2c(m) != gid()
axiom vrfkeyok_def in vrf: forall k seq :: {vrfkeyok(k)} vrfkeyok(k) <==> len(k) == 64 && sub(k, 32, 64) == penc(gmul(secx(sub(k, 0, 32)), gbase()))
axiom vrfver_def in vrf: forall pk seq, m seq, v seq, p seq :: {vrfver(pk, m, v, p)} vrfver(pk, m, v, p) <==> len(p) == 96 && len(v) == 32 && len(pk) == 32 && v == xof(256, cat(sub(p, 64, 96), m), 0, 32) && inbase(pk) && inbase(sub(p, 64, 96)) && sub(p, 0, 32) == chal(pk, m, sub(p, 64, 96), penc(gdsm(sub(p, 0, 32), pdec(pk), sub(p, 32, 64))), penc(gadd(gdsm(sub(p, 32, 64), h2c(m), rep(0, 32)), gdsm(sub(p, 0, 32), pdec(sub(p, 64, 96)), rep(0, 32)))))

# facts about the group and its scalars
axiom sub_base in vrf: insub(gbase()) && gbase() != gid()
axiom sub_h2c in vrf: forall p int :: {gdbl(gdbl(gdbl(p)))} insub(gdbl(gdbl(gdbl(p))))
axiom sub_mul in vrf: forall a seq, p int :: {gmul(a, p)} insub(p) ==> insub(gmul(a, p))
# a secret scalar is a multiple of 8 between 2^254 and 2^255, so no multiple of the group order
axiom mul_secx in vrf: forall k seq, p int :: {gmul(secx(k), p)} insub(p) && p != gid() ==> gmul(secx(k), p) != gid()
axiom dec_enc in vrf: forall p int :: {penc(p)} insub(p) && p != gid() ==> inbase(penc(p)) && pdec(penc(p)) == p
axiom dsm in vrf: forall a seq, p int, b seq :: {gdsm(a, p, b)} fits(a) && fits(b) ==> gdsm(a, p, b) == gadd(gmul(a, p), gmul(b, gbase()))
axiom dsm_0 in vrf: forall a seq, p int :: {gdsm(a, p, rep(0, 32))} fits(a) ==> gdsm(a, p, rep(0, 32)) == gmul(a, p)
axiom mul_muladd in vrf: forall a seq, b seq, c seq, p int :: {gmul(scmuladd(a, b, c), p)} insub(p) ==> gmul(scmuladd(a, b, c), p) == gadd(gmul(a, gmul(b, p)), gmul(c, p))
axiom mul_neg in vrf: forall a seq, p int :: {gmul(scneg(a), p)} insub(p) && red(a) ==> gmul(scneg(a), p) == gneg(gmul(a, p))
axiom mul_of_neg in vrf: forall a seq, p int :: {gmul(a, gneg(p))} gmul(a, gneg(p)) == gneg(gmul(a, p))
axiom mul_comm in vrf: forall a seq, b seq, p int :: {gmul(a, gmul(b, p))} gmul(a, gmul(b, p)) == gmul(b, gmul(a, p))
axiom add_comm in vrf: forall p int, q int :: {gadd(p, q)} gadd(p, q) == gadd(q, p)
axiom add_cancel in vrf: forall p int, q int :: {gadd(gneg(p), q)} gadd(p, gadd(gneg(p), q)) == q

lemma sub_all in vrf: forall s seq :: {sub(s, 0, 32)} len(s) == 32 ==> sub(s, 0, 32) == s

lemma sub_sub in vrf: forall s seq, a int, b int, c int, d int :: {sub(sub(s, a, b), c, d)} 0 <= a && 0 <= c && c <= d && a + d <= b ==> sub(sub(s, a, b), c, d) == sub(s, a + c, a + d)
lemma sub_cat_l in vrf: forall s seq, t seq, c int, d int :: {sub(cat(s, t), c, d)} 0 <= c && c <= d && d <= len(s) ==> sub(cat(s, t), c, d) == sub(s, c, d)
lemma sub_cat_r in vrf: forall s seq, t seq, c int, d int :: {sub(cat(s, t), c, d)} len(s) <= c && c <= d && d <= len(s) + len(t) ==> sub(cat(s, t), c, d) == sub(t, c - len(s), d - len(s))

# the verifier's two commitments are the prover's
lemma commitment in vrf: forall x seq, s seq, r seq, p int :: {scmuladd(x, scneg(s), r), gmul(x, p)} insub(p) && red(s) ==> gadd(gmul(s, gmul(x, p)), gmul(scmuladd(x, scneg(s), r), p)) == gmul(r, p)

trusted fn edwards25519.(*ExtendedGroupElement).ToBytes :: p, s
  modifies elems(s)
  ensures bytes(s) == penc(p.pt)
trusted fn edwards25519.(*ProjectiveGroupElement).ToBytes :: p, s
  modifies elems(s)
  ensures bytes(s) == penc(p.pt)
trusted fn edwards25519.(*ProjectiveGroupElement).ToExtended :: p, s
  modifies s.*
  ensures s.pt == p.pt
trusted fn edwards25519.(*ExtendedGroupElement).FromBytesBaseGroup :: p, s
  modifies p.*
  ensures result <==> inbase(bytes(s))
  ensures result ==> p.pt == pdec(bytes(s))
trusted fn edwards25519.GeDouble :: r, p
  modifies r.*
  ensures r.pt == gdbl(old(p.pt))
trusted fn edwards25519.GeAdd :: r, a, b
  modifies r.*
  ensures r.pt == gadd(old(a.pt), old(b.pt))
trusted fn edwards25519.GeScalarMult :: r, a, A
  requires fits(bytes(a))
  modifies r.*
  ensures r.pt == gmul(bytes(a), old(A.pt))
trusted fn edwards25519.GeScalarMultBase :: h, a
  requires fits(bytes(a))
  modifies h.*
  ensures h.pt == gmul(bytes(a), gbase())
trusted fn edwards25519.GeDoubleScalarMultVartime :: r, a, A, b
  modifies r.*
  ensures r.pt == gdsm(bytes(a), A.pt, bytes(b))
trusted fn edwards25519.ScReduce :: out, s
  modifies elems(out)
  ensures bytes(out) == scred(bytes(s))
trusted fn edwards25519.ScNeg :: r, s
  modifies elems(r)
  ensures bytes(r) == scneg(bytes(s))
trusted fn edwards25519.ScMulAdd :: s, a, b, c
  modifies elems(s)
  ensures bytes(s) == scmuladd(bytes(a), bytes(b), bytes(c))
trusted fn extra25519.HashToEdwards :: out, h
  modifies out.*
  ensures out.pt == elli(bytes(h))

fn vrf.hashToCurve :: m
  prop C12
  opt defs vrf
  ensures fresh(result) && result.pt == h2c(bytes(m))

fn vrf.PrivateKey.expandSecret :: sk
  prop C12
  opt defs vrf
  requires len(sk) == 64
  ensures fresh(ret0) && fresh(ret1)
  ensures [secret_scalar] bytes(ret0) == secx(sub(bytes(sk), 0, 32))
  ensures [nonce_seed] bytes(ret1) == xof(256, sub(bytes(sk), 0, 32), 32, 32)

fn vrf.PrivateKey.Compute :: sk, m
  prop C12
  opt defs vrf
  requires len(sk) == 64
  ensures [value] bytes(result) == vrfidx(bytes(sk), bytes(m)) && len(result) == 32 && fresh(result)

fn vrf.PrivateKey.Prove :: sk, m
  prop C12
  opt defs vrf
  requires len(sk) == 64
  initially bytes(global("edwards25519.BaseBytes")) == penc(gbase())
  ensures [same_value_as_compute] bytes(ret0) == vrfidx(bytes(sk), bytes(m)) && len(ret0) == 32 && fresh(ret0)
  ensures [proof_verifies] vrfkeyok(bytes(sk)) && vrfname(bytes(m)) ==> vrfver(sub(bytes(sk), 32, 64), bytes(m), bytes(ret0), bytes(ret1))
  ensures len(ret1) == 96 && fresh(ret1)

fn vrf.PublicKey.Verify :: pkBytes, m, vrfBytes, proof
  prop C12 C10
  opt defs vrf
  initially bytes(global("edwards25519.BaseBytes")) == penc(gbase())
  ensures [accepts_exactly] result <==> vrfver(bytes(pkBytes), bytes(m), bytes(vrfBytes), bytes(proof))

fn vrf.GenerateKey :: rnd
  prop C12
  opt defs vrf
  ensures [key_pair] err == nil ==> len(sk) == 64 && fresh(sk) && vrfkeyok(bytes(sk))

fn vrf.PrivateKey.Public :: sk
  prop C12 C20
  requires len(sk) == 64
  ensures len(sk) == 64 ==> ret1 && bytes(ret0) == sub(bytes(sk), 32, 64) && fresh(ret0)

trusted fn edwards25519.(*ExtendedGroupElement).FromBytes :: p, s
  modifies p.*
trusted fn edwards25519.(*ExtendedGroupElement).FromParityAndY :: p, bit, y
  modifies p.*
