# Mathematical vocabulary shared by all contracts.

# --- hashing: n bytes at position pos of SHAKE-alg's output on input abs ---
func xof(int, seq, int, int) seq
axiom xof_len: forall a int, s seq, p int, n int :: {xof(a, s, p, n)} n >= 0 ==> len(xof(a, s, p, n)) == n
axiom xof_byte: forall a int, s seq, p int, n int, i int :: {at(xof(a, s, p, n), i)} 0 <= at(xof(a, s, p, n), i) && at(xof(a, s, p, n), i) <= 255

# the 32-byte digest used throughout CONIKS
pred digest(m seq) = xof(128, m, 0, 32)

# --- Ed25519 (library): signature on m under key k, and its verification ---
func edsig(seq, seq) seq
func edver(seq, seq, seq) bool
func edgen(int) seq
axiom edsig_len: forall k seq, m seq :: {edsig(k, m)} len(edsig(k, m)) == 64

# --- environment randomness: i-th block drawn ---
func rndbytes(int, int) seq
axiom rnd_len: forall i int, n int :: {rndbytes(i, n)} n >= 0 ==> len(rndbytes(i, n)) == n

# --- integers as little-endian bytes ---
func le64(int) seq
func le32(int) seq
axiom le64_len: forall n int :: {le64(n)} len(le64(n)) == 8
axiom le32_len: forall n int :: {le32(n)} len(le32(n)) == 4
axiom le64_at0: forall n int :: {at(le64(n), 0)} at(le64(n), 0) == n % 256
axiom le64_at1: forall n int :: {at(le64(n), 1)} at(le64(n), 1) == (n / 256) % 256
axiom le64_at2: forall n int :: {at(le64(n), 2)} at(le64(n), 2) == (n / 65536) % 256
axiom le64_at3: forall n int :: {at(le64(n), 3)} at(le64(n), 3) == (n / 16777216) % 256
axiom le64_at4: forall n int :: {at(le64(n), 4)} at(le64(n), 4) == (n / 4294967296) % 256
axiom le64_at5: forall n int :: {at(le64(n), 5)} at(le64(n), 5) == (n / 1099511627776) % 256
axiom le64_at6: forall n int :: {at(le64(n), 6)} at(le64(n), 6) == (n / 281474976710656) % 256
axiom le64_at7: forall n int :: {at(le64(n), 7)} at(le64(n), 7) == (n / 72057594037927936) % 256
axiom le32_at0: forall n int :: {at(le32(n), 0)} at(le32(n), 0) == n % 256
axiom le32_at1: forall n int :: {at(le32(n), 1)} at(le32(n), 1) == (n / 256) % 256
axiom le32_at2: forall n int :: {at(le32(n), 2)} at(le32(n), 2) == (n / 65536) % 256
axiom le32_at3: forall n int :: {at(le32(n), 3)} at(le32(n), 3) == (n / 16777216) % 256
