package auditor

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"testing"

	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
	"golang.org/x/crypto/sha3"
)

func zzvSeed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func zzvScale(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 10 * n
	}
	return n
}

func zzvDigest(b []byte) []byte {
	r := make([]byte, 32)
	sha3.ShakeSum128(r, b)
	return r
}

func zzvU64(n uint64) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, n)
	return b
}

// the bytes a root's signature must cover
func zzvSer(s *protocol.DirSTR) []byte {
	var b []byte
	b = append(b, zzvU64(s.Epoch)...)
	if s.Epoch > 0 {
		b = append(b, zzvU64(s.PreviousEpoch)...)
	}
	b = append(b, s.TreeHash...)
	b = append(b, s.PreviousSTRHash...)
	p := s.Policies
	b = append(b, []byte(p.Version)...)
	b = append(b, []byte(p.HashID)...)
	b = append(b, p.VrfPublicKey...)
	return append(b, zzvU64(uint64(p.EpochDeadline))...)
}

func zzvRand(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

type zzvWorld struct {
	r  *rand.Rand
	sk sign.PrivateKey
	pk sign.PublicKey
	sx sign.PrivateKey
}

func zzvNewWorld(r *rand.Rand) *zzvWorld {
	sk, _ := sign.GenerateKey(bytes.NewReader(zzvRand(r, 64)))
	sx, _ := sign.GenerateKey(bytes.NewReader(zzvRand(r, 64)))
	pk, _ := sk.Public()
	return &zzvWorld{r, sk, pk, sx}
}

func (w *zzvWorld) next(prev *protocol.DirSTR) *protocol.DirSTR {
	s := &protocol.DirSTR{SignedTreeRoot: &merkletree.SignedTreeRoot{TreeHash: zzvRand(w.r, 32)},
		Policies: &protocol.Policies{Version: "0.2.0", HashID: "SHAKE128", VrfPublicKey: zzvRand(w.r, 32), EpochDeadline: protocol.Timestamp(w.r.Intn(1000))}}
	if prev != nil {
		s.Epoch = prev.Epoch + 1
		s.PreviousEpoch = prev.Epoch
		s.PreviousSTRHash = zzvDigest(prev.Signature)
	} else {
		s.PreviousSTRHash = zzvRand(w.r, 32)
	}
	s.Signature = w.sk.Sign(zzvSer(s))
	return s
}

func (w *zzvWorld) chain(first *protocol.DirSTR, n int) []*protocol.DirSTR {
	var c []*protocol.DirSTR
	p := first
	for i := 0; i < n; i++ {
		p = w.next(p)
		c = append(c, p)
	}
	return c
}

func zzvClone(s *protocol.DirSTR) *protocol.DirSTR {
	t := *s.SignedTreeRoot
	p := *s.Policies
	cp := func(b []byte) []byte { return append([]byte(nil), b...) }
	t.TreeHash, t.PreviousSTRHash, t.Signature = cp(t.TreeHash), cp(t.PreviousSTRHash), cp(t.Signature)
	p.VrfPublicKey = cp(p.VrfPublicKey)
	return &protocol.DirSTR{SignedTreeRoot: &t, Policies: &p}
}

// tamper with one field; sometimes sign again with the right or another key
func (w *zzvWorld) tamper(s *protocol.DirSTR) (*protocol.DirSTR, string) {
	r := w.r
	s = zzvClone(s)
	flip := func(b []byte) { b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8)) }
	what := ""
	switch r.Intn(11) {
	case 0:
		s.Epoch += uint64(1 + r.Intn(3))
		what = "epoch"
	case 1:
		s.Epoch--
		what = "epoch"
	case 2:
		s.PreviousEpoch += uint64(r.Intn(5)) - 2
		what = "previous epoch"
	case 3:
		flip(s.TreeHash)
		what = "tree hash"
	case 4:
		flip(s.PreviousSTRHash)
		what = "previous hash"
	case 5:
		flip(s.Signature)
		what = "signature"
	case 6:
		s.Policies.Version += "x"
		what = "version"
	case 7:
		s.Policies.HashID = "SHAKE256"
		what = "hash id"
	case 8:
		flip(s.Policies.VrfPublicKey)
		what = "vrf key"
	case 9:
		s.Policies.EpochDeadline++
		what = "deadline"
	default:
		what = "nothing"
	}
	switch r.Intn(4) {
	case 0:
		s.Signature = w.sk.Sign(zzvSer(s))
		what += ", signed again"
	case 1:
		s.Signature = w.sx.Sign(zzvSer(s))
		what += ", signed with another key"
	}
	return s, what
}

func (w *zzvWorld) succ(p, s *protocol.DirSTR) bool {
	return w.pk.Verify(zzvSer(s), s.Signature) && s.Epoch == p.Epoch+1 && s.PreviousEpoch == p.Epoch && bytes.Equal(s.PreviousSTRHash, zzvDigest(p.Signature))
}

func zzvEqual(a, b *protocol.DirSTR) bool {
	return a.Epoch == b.Epoch && a.PreviousEpoch == b.PreviousEpoch && bytes.Equal(a.TreeHash, b.TreeHash) && bytes.Equal(a.PreviousSTRHash, b.PreviousSTRHash) &&
		bytes.Equal(a.Signature, b.Signature) && a.Policies.Version == b.Policies.Version && a.Policies.HashID == b.Policies.HashID &&
		bytes.Equal(a.Policies.VrfPublicKey, b.Policies.VrfPublicKey) && a.Policies.EpochDeadline == b.Policies.EpochDeadline
}

func zzvShow(s *protocol.DirSTR) string {
	if s == nil {
		return "nil"
	}
	return fmt.Sprintf("{epoch %d prev %d tree %x prevhash %x sig %x pol %v}", s.Epoch, s.PreviousEpoch, s.TreeHash, s.PreviousSTRHash, s.Signature, *s.Policies)
}

// TestZZVAudit compares the audit of honest and tampered root ranges with the rule of C06.
func TestZZVAudit(t *testing.T) {
	r := rand.New(rand.NewSource(zzvSeed()))
	cases := 0
	for it := 0; it < zzvScale(400); it++ {
		w := zzvNewWorld(r)
		base := w.chain(nil, 1+r.Intn(5))
		v := base[len(base)-1]
		fut := w.chain(v, 6)
		all := append(append([]*protocol.DirSTR{}, base...), fut...)
		for k := 0; k < 6; k++ {
			start := len(base) - 1 + r.Intn(3) - 1
			if r.Intn(3) > 0 {
				start = len(base) - 1 + r.Intn(2)
			}
			if start < 0 {
				start = 0
			}
			n := 1 + r.Intn(5)
			if start+n > len(all) {
				n = len(all) - start
			}
			rng := append([]*protocol.DirSTR{}, all[start:start+n]...)
			what := "honest"
			switch r.Intn(8) {
			case 0, 1, 2:
				i := r.Intn(n)
				rng[i], what = w.tamper(rng[i])
				what = fmt.Sprintf("element %d of %d: %s", i, n, what)
			case 3:
				if n > 2 {
					i := r.Intn(n - 1)
					rng[i], rng[i+1] = rng[i+1], rng[i]
					what = "swapped"
				}
			case 4:
				if n > 2 {
					i := 1 + r.Intn(n-2)
					rng = append(rng[:i], rng[i+1:]...)
					what = "gap"
				}
			case 5:
				i := r.Intn(n)
				rng = append(rng[:i+1], append([]*protocol.DirSTR{zzvClone(rng[i])}, rng[i+1:]...)...)
				what = "duplicate"
			case 6:
				// a fork: a different chain signed by the same key
				i := r.Intn(n)
				var p *protocol.DirSTR
				if i > 0 {
					p = rng[i-1]
				} else {
					p, _ = w.tamper(v)
				}
				copy(rng[i:], w.chain(w.next(p), n-i))
				what = "fork"
			}
			if len(rng) > 0 && rng[0] == v && r.Intn(2) == 0 {
				rng[0] = zzvClone(v)
			}
			want := zzvEqual(rng[0], v) || w.succ(v, rng[0])
			for i := 1; i < len(rng); i++ {
				want = want && w.succ(rng[i-1], rng[i])
			}
			a := New(w.pk, v)
			err := a.AuditDirectory(rng)
			cases++
			if (err == nil) != want || a.VerifiedSTR() != v {
				s := ""
				for _, x := range rng {
					s += "\n  " + zzvShow(x)
				}
				t.Fatalf("REPLAY %s: AuditDirectory = %v, must accept: %v; verified %s; range:%s", what, err, want, zzvShow(v), s)
			}
			for i := range rng {
				err := a.CheckSTRAgainstVerified(rng[i])
				want := zzvEqual(rng[i], v) || w.succ(v, rng[i])
				if (err == nil) != want {
					t.Fatalf("REPLAY %s: CheckSTRAgainstVerified = %v, must accept: %v; verified %s, root %s", what, err, want, zzvShow(v), zzvShow(rng[i]))
				}
			}
			p := all[r.Intn(len(all))]
			wantR := true
			q := p
			for _, x := range rng {
				wantR = wantR && w.succ(q, x)
				q = x
			}
			if err := a.VerifySTRRange(p, rng); (err == nil) != wantR {
				t.Fatalf("REPLAY %s: VerifySTRRange = %v, must accept: %v", what, err, wantR)
			}
		}
		// the serialisation covers every field
		s, _ := w.tamper(v)
		if !bytes.Equal(s.Serialize(), zzvSer(s)) {
			t.Fatalf("REPLAY Serialize of %s = %x, want %x", zzvShow(s), s.Serialize(), zzvSer(s))
		}
		// degenerate messages are rejected
		a := New(w.pk, v)
		for _, m := range [][]*protocol.DirSTR{nil, {}} {
			if a.AuditDirectory(m) == nil {
				t.Fatal("REPLAY an empty range is accepted")
			}
		}
		if len(fut) > 1 && a.VerifySTRRange(v, []*protocol.DirSTR{fut[0], nil}) == nil {
			t.Fatal("REPLAY a range with a missing root is accepted")
		}
		if id := ComputeDirectoryIdentity(base[0]); !bytes.Equal(id[:], zzvDigest(base[0].Signature)) {
			t.Fatalf("REPLAY identity %x of a directory whose first root hashes to %x", id, zzvDigest(base[0].Signature))
		}
		if !reflect.DeepEqual(a.VerifiedSTR(), v) {
			t.Fatal("REPLAY verified root changed")
		}
	}
	fmt.Printf("CASES=%d\n", cases)
}
