package auditlog

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
	"golang.org/x/crypto/sha3"
)

func zzvSeed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func zzvScale(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 10 * n
	}
	return n
}

func zzvDigest(b []byte) []byte {
	r := make([]byte, 32)
	sha3.ShakeSum128(r, b)
	return r
}

func zzvU64(n uint64) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, n)
	return b
}

// the bytes a root's signature must cover
func zzvSer(s *protocol.DirSTR) []byte {
	var b []byte
	b = append(b, zzvU64(s.Epoch)...)
	if s.Epoch > 0 {
		b = append(b, zzvU64(s.PreviousEpoch)...)
	}
	b = append(b, s.TreeHash...)
	b = append(b, s.PreviousSTRHash...)
	p := s.Policies
	b = append(b, []byte(p.Version)...)
	b = append(b, []byte(p.HashID)...)
	b = append(b, p.VrfPublicKey...)
	return append(b, zzvU64(uint64(p.EpochDeadline))...)
}

func zzvRand(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

type zzvWorld struct {
	r  *rand.Rand
	sk sign.PrivateKey
	pk sign.PublicKey
	sx sign.PrivateKey
}

func zzvNewWorld(r *rand.Rand) *zzvWorld {
	sk, _ := sign.GenerateKey(bytes.NewReader(zzvRand(r, 64)))
	sx, _ := sign.GenerateKey(bytes.NewReader(zzvRand(r, 64)))
	pk, _ := sk.Public()
	return &zzvWorld{r, sk, pk, sx}
}

func (w *zzvWorld) next(prev *protocol.DirSTR) *protocol.DirSTR {
	s := &protocol.DirSTR{SignedTreeRoot: &merkletree.SignedTreeRoot{TreeHash: zzvRand(w.r, 32)},
		Policies: &protocol.Policies{Version: "0.2.0", HashID: "SHAKE128", VrfPublicKey: zzvRand(w.r, 32), EpochDeadline: protocol.Timestamp(w.r.Intn(1000))}}
	if prev != nil {
		s.Epoch = prev.Epoch + 1
		s.PreviousEpoch = prev.Epoch
		s.PreviousSTRHash = zzvDigest(prev.Signature)
	} else {
		s.PreviousSTRHash = zzvRand(w.r, 32)
	}
	s.Signature = w.sk.Sign(zzvSer(s))
	return s
}

func (w *zzvWorld) chain(first *protocol.DirSTR, n int) []*protocol.DirSTR {
	var c []*protocol.DirSTR
	p := first
	for i := 0; i < n; i++ {
		p = w.next(p)
		c = append(c, p)
	}
	return c
}

func zzvClone(s *protocol.DirSTR) *protocol.DirSTR {
	t := *s.SignedTreeRoot
	p := *s.Policies
	cp := func(b []byte) []byte { return append([]byte(nil), b...) }
	t.TreeHash, t.PreviousSTRHash, t.Signature = cp(t.TreeHash), cp(t.PreviousSTRHash), cp(t.Signature)
	p.VrfPublicKey = cp(p.VrfPublicKey)
	return &protocol.DirSTR{SignedTreeRoot: &t, Policies: &p}
}

// tamper with one field; sometimes sign again with the right or another key
func (w *zzvWorld) tamper(s *protocol.DirSTR) (*protocol.DirSTR, string) {
	r := w.r
	s = zzvClone(s)
	flip := func(b []byte) { b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8)) }
	what := ""
	switch r.Intn(11) {
	case 0:
		s.Epoch += uint64(1 + r.Intn(3))
		what = "epoch"
	case 1:
		s.Epoch--
		what = "epoch"
	case 2:
		s.PreviousEpoch += uint64(r.Intn(5)) - 2
		what = "previous epoch"
	case 3:
		flip(s.TreeHash)
		what = "tree hash"
	case 4:
		flip(s.PreviousSTRHash)
		what = "previous hash"
	case 5:
		flip(s.Signature)
		what = "signature"
	case 6:
		s.Policies.Version += "x"
		what = "version"
	case 7:
		s.Policies.HashID = "SHAKE256"
		what = "hash id"
	case 8:
		flip(s.Policies.VrfPublicKey)
		what = "vrf key"
	case 9:
		s.Policies.EpochDeadline++
		what = "deadline"
	default:
		what = "nothing"
	}
	switch r.Intn(4) {
	case 0:
		s.Signature = w.sk.Sign(zzvSer(s))
		what += ", signed again"
	case 1:
		s.Signature = w.sx.Sign(zzvSer(s))
		what += ", signed with another key"
	}
	return s, what
}

func (w *zzvWorld) succ(p, s *protocol.DirSTR) bool {
	return w.pk.Verify(zzvSer(s), s.Signature) && s.Epoch == p.Epoch+1 && s.PreviousEpoch == p.Epoch && bytes.Equal(s.PreviousSTRHash, zzvDigest(p.Signature))
}

func zzvEqual(a, b *protocol.DirSTR) bool {
	return a.Epoch == b.Epoch && a.PreviousEpoch == b.PreviousEpoch && bytes.Equal(a.TreeHash, b.TreeHash) && bytes.Equal(a.PreviousSTRHash, b.PreviousSTRHash) &&
		bytes.Equal(a.Signature, b.Signature) && a.Policies.Version == b.Policies.Version && a.Policies.HashID == b.Policies.HashID &&
		bytes.Equal(a.Policies.VrfPublicKey, b.Policies.VrfPublicKey) && a.Policies.EpochDeadline == b.Policies.EpochDeadline
}

func zzvShow(s *protocol.DirSTR) string {
	if s == nil {
		return "nil"
	}
	return fmt.Sprintf("{epoch %d prev %d tree %x prevhash %x sig %x pol %v}", s.Epoch, s.PreviousEpoch, s.TreeHash, s.PreviousSTRHash, s.Signature, *s.Policies)
}


type zzvHist struct {
	w    *zzvWorld
	strs []*protocol.DirSTR
	id   [32]byte
}

// TestZZVAuditLog drives an audit log and a model of it with the same operations.
func TestZZVAuditLog(t *testing.T) {
	r := rand.New(rand.NewSource(zzvSeed()))
	cases := 0
	for it := 0; it < zzvScale(60); it++ {
		l := New()
		var model []*zzvHist
		var pool []*zzvHist
		for i := 0; i < 4; i++ {
			w := zzvNewWorld(r)
			h := &zzvHist{w: w, strs: w.chain(nil, 1)}
			copy(h.id[:], zzvDigest(h.strs[0].Signature))
			pool = append(pool, h)
		}
		check := func(op string) {
			if len(l) != len(model) {
				t.Fatalf("REPLAY after %s: %d directories in the log, want %d", op, len(l), len(model))
			}
			for _, h := range model {
				g, ok := l[h.id]
				if !ok || g.VerifiedSTR() != h.strs[len(h.strs)-1] || len(g.snapshots) != len(h.strs) {
					t.Fatalf("REPLAY after %s: log of %x has %d roots, want %d, or another verified root", op, h.id[:4], len(g.snapshots), len(h.strs))
				}
				for i, s := range h.strs {
					if g.snapshots[uint64(i)] != s {
						t.Fatalf("REPLAY after %s: log of %x: another root for epoch %d", op, h.id[:4], i)
					}
				}
			}
			for q := 0; q < 6; q++ {
				req := &protocol.AuditingRequest{}
				var h *zzvHist
				if k := r.Intn(len(model) + 1); k < len(model) {
					h = model[k]
					req.DirInitSTRHash = h.id
				} else {
					r.Read(req.DirInitSTRHash[:])
				}
				n := 3
				if h != nil {
					n = len(h.strs)
				}
				req.StartEpoch = uint64(r.Intn(n + 2))
				req.EndEpoch = uint64(r.Intn(n + 2))
				if r.Intn(3) == 0 && n > 0 {
					req.EndEpoch = uint64(n - 1)
				}
				res := l.GetObservedSTRs(req)
				cases++
				switch {
				case h == nil:
					if res.Error != protocol.ReqUnknownDirectory || res.DirectoryResponse != nil {
						t.Fatalf("REPLAY query of an unknown directory gives %v", res.Error)
					}
				case req.EndEpoch >= uint64(n) || req.StartEpoch > req.EndEpoch:
					if res.Error != protocol.ErrMalformedMessage || res.DirectoryResponse != nil {
						t.Fatalf("REPLAY query %d..%d of a log up to %d gives %v", req.StartEpoch, req.EndEpoch, n-1, res.Error)
					}
				default:
					d, ok := res.DirectoryResponse.(*protocol.STRHistoryRange)
					if res.Error != protocol.ReqSuccess || !ok || len(d.STR) != int(req.EndEpoch-req.StartEpoch)+1 {
						t.Fatalf("REPLAY query %d..%d of a log up to %d gives %v %v", req.StartEpoch, req.EndEpoch, n-1, res.Error, res.DirectoryResponse)
					}
					for i, s := range d.STR {
						if s != h.strs[int(req.StartEpoch)+i] {
							t.Fatalf("REPLAY query %d..%d: wrong root at position %d", req.StartEpoch, req.EndEpoch, i)
						}
					}
				}
			}
		}
		for op := 0; op < 25; op++ {
			switch k := r.Intn(6); {
			case k == 0 || len(model) == 0: // create
				h := pool[r.Intn(len(pool))]
				known := false
				for _, x := range model {
					known = known || x == h
				}
				snaps := append([]*protocol.DirSTR{}, h.w.chain(h.strs[len(h.strs)-1], r.Intn(3))...)
				snaps = append([]*protocol.DirSTR{h.strs[0]}, snaps...)
				if len(h.strs) > 1 {
					snaps = snaps[:1]
				}
				bad := false
				switch r.Intn(5) {
				case 0:
					snaps, bad = nil, true
				case 1:
					s := h.w.next(h.strs[0])
					snaps, bad = []*protocol.DirSTR{s}, true
				case 2:
					snaps, bad = []*protocol.DirSTR{nil}, true
				}
				pk := h.w.pk
				if known && r.Intn(2) == 0 {
					pk = pool[r.Intn(len(pool))].w.pk
				}
				err := l.InitHistory([]string{"addr", "other", ""}[r.Intn(3)], pk, snaps)
				want := !known && !bad
				if (err == nil) != want {
					t.Fatalf("REPLAY InitHistory with %d roots (known: %v, bad: %v) gives %v", len(snaps), known, bad, err)
				}
				if want {
					h.strs = append([]*protocol.DirSTR{}, snaps...)
					model = append(model, h)
				}
				check("InitHistory")
			default: // audit
				h := model[r.Intn(len(model))]
				v := h.strs[len(h.strs)-1]
				ext := h.w.chain(v, 4)
				all := append(append([]*protocol.DirSTR{}, h.strs...), ext...)
				start := len(h.strs) - 1 + r.Intn(3) - 1
				if start < 0 {
					start = 0
				}
				n := 1 + r.Intn(4)
				if start+n > len(all) {
					n = len(all) - start
				}
				rng := append([]*protocol.DirSTR{}, all[start:start+n]...)
				what := "honest"
				switch r.Intn(5) {
				case 0, 1:
					i := r.Intn(n)
					rng[i], what = h.w.tamper(rng[i])
				case 2:
					o := model[r.Intn(len(model))]
					rng = append(rng, o.w.next(rng[n-1]))
					what = "one more root, of another directory"
				}
				want := zzvEqual(rng[0], v) || h.w.succ(v, rng[0])
				for i := 1; i < len(rng); i++ {
					want = want && h.w.succ(rng[i-1], rng[i])
				}
				var msg *protocol.Response
				switch r.Intn(8) {
				case 0:
					msg, want = &protocol.Response{Error: protocol.ReqSuccess, DirectoryResponse: &protocol.DirectoryProof{STR: rng}}, false
				case 1:
					msg, want = &protocol.Response{Error: protocol.ReqSuccess}, false
				case 2:
					msg, want = protocol.NewErrorResponse(protocol.ErrDirectory), false
				default:
					msg = protocol.NewSTRHistoryRange(rng)
				}
				var err error
				func() {
					defer func() {
						if e := recover(); e != nil {
							t.Fatalf("REPLAY Audit (%s) panics: %v", what, e)
						}
					}()
					err = l[h.id].Audit(msg)
				}()
				if (err == nil) != want {
					t.Fatalf("REPLAY Audit of %d roots (%s) after epoch %d gives %v, must accept: %v", len(rng), what, v.Epoch, err, want)
				}
				if want {
					if !zzvEqual(rng[0], v) {
						h.strs = append(h.strs, rng...)
					} else {
						h.strs[len(h.strs)-1] = rng[0]
						h.strs = append(h.strs, rng[1:]...)
					}
				}
				check("Audit (" + what + ")")
			}
		}
	}
	fmt.Printf("CASES=%d\n", cases)
}
