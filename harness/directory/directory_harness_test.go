package directory

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"testing"

	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
	"golang.org/x/crypto/sha3"
)

func zzvSeed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func zzvScale(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 10 * n
	}
	return n
}

func zzvDigest(b []byte) []byte {
	r := make([]byte, 32)
	sha3.ShakeSum128(r, b)
	return r
}

func zzvU64(n uint64) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, n)
	return b
}

func zzvSer(s *protocol.DirSTR) []byte {
	b := zzvU64(s.Epoch)
	if s.Epoch > 0 {
		b = append(b, zzvU64(s.PreviousEpoch)...)
	}
	b = append(b, s.TreeHash...)
	b = append(b, s.PreviousSTRHash...)
	p := s.Policies
	b = append(b, []byte(p.Version)...)
	b = append(b, []byte(p.HashID)...)
	b = append(b, p.VrfPublicKey...)
	return append(b, zzvU64(uint64(p.EpochDeadline))...)
}

func zzvText(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "error " + err.Error()
	}
	return string(b)
}

type zzvWorld struct {
	t     *testing.T
	r     *rand.Rand
	d     *ConiksDirectory
	pk    sign.PublicKey
	vpk   vrf.PublicKey
	vk    vrf.PrivateKey
	log   []string
	roots []*protocol.DirSTR           // by epoch
	texts []string                     // their contents when issued
	state []map[string][]byte          // bindings by epoch
	cur   map[string][]byte            // bindings of the coming epoch
	tbs   map[string]string            // promises of this epoch, as text
	keys  map[string][]byte            // and their keys
	dead  protocol.Timestamp           // policies set last
	ad    protocol.Timestamp           // policies of the coming root
	kept  map[uint64]bool              // epochs seen to be evicted
	n     int
}

func (w *zzvWorld) fail(f string, a ...interface{}) {
	w.t.Helper()
	w.t.Fatalf("REPLAY %s, after %v", fmt.Sprintf(f, a...), w.log)
}

func (w *zzvWorld) latest() uint64 { return uint64(len(w.roots) - 1) }

func (w *zzvWorld) issued() {
	s := w.d.LatestSTR()
	e := uint64(len(w.roots))
	if s.Epoch != e {
		w.fail("latest root has epoch %d, expected %d", s.Epoch, e)
	}
	if s.Policies.EpochDeadline != w.ad || s.Policies.Version != protocol.Version || !bytes.Equal(s.Policies.VrfPublicKey, w.vpk) {
		w.fail("epoch %d has policies %+v, deadline in force is %d", e, *s.Policies, w.ad)
	}
	if w.d.EpochDeadline() != w.ad {
		w.fail("epoch deadline %d, in force is %d", w.d.EpochDeadline(), w.ad)
	}
	if !w.pk.Verify(zzvSer(s), s.Signature) {
		w.fail("signature of epoch %d does not cover its contents", e)
	}
	if e > 0 {
		p := w.roots[e-1]
		if s.PreviousEpoch != e-1 || !bytes.Equal(s.PreviousSTRHash, zzvDigest(p.Signature)) {
			w.fail("epoch %d does not follow epoch %d", e, e-1)
		}
	}
	w.roots = append(w.roots, s)
	w.texts = append(w.texts, zzvText(s))
	st := map[string][]byte{}
	for k, v := range w.cur {
		st[k] = v
	}
	w.state = append(w.state, st)
	w.tbs = map[string]string{}
	w.keys = map[string][]byte{}
	w.ad = w.dead
}

func (w *zzvWorld) checkRoot(what string, s *protocol.DirSTR, e uint64) {
	if s == nil || s.SignedTreeRoot == nil || s.Policies == nil || zzvText(s) != w.texts[e] {
		w.fail("%s: root %s, expected that of epoch %d: %s", what, zzvText(s), e, w.texts[e])
	}
}

// checkProof: ap must be what epoch e says about the name
func (w *zzvWorld) checkProof(what, name string, ap *merkletree.AuthenticationPath, e uint64) {
	w.n++
	if ap == nil || ap.Leaf == nil {
		w.fail("%s: no proof", what)
	}
	idx := w.vk.Compute([]byte(name))
	if !bytes.Equal(ap.LookupIndex, idx) {
		w.fail("%s: proof for index %x, that of %q is %x", what, ap.LookupIndex, name, idx)
	}
	if !w.vpk.Verify([]byte(name), ap.LookupIndex, ap.VrfProof) {
		w.fail("%s: index proof does not verify", what)
	}
	key, ok := w.state[e][name]
	if ok != (ap.ProofType() == merkletree.ProofOfInclusion) {
		w.fail("%s: proof type %d of %q in epoch %d, bound: %v", what, ap.ProofType(), name, e, ok)
	}
	if err := ap.Verify([]byte(name), key, w.roots[e].TreeHash); err != nil {
		w.fail("%s: proof for %q does not verify against epoch %d: %v", what, name, e, err)
	}
	if !ok {
		if ap.Leaf.Value != nil || (ap.Leaf.Commitment != nil && ap.Leaf.Commitment.Salt != nil) {
			w.fail("%s: proof of absence of %q discloses value %x or a salt", what, name, ap.Leaf.Value)
		}
		txt := []byte(fmt.Sprintf("%x", zzvText(ap)))
		for n, k := range w.cur {
			if bytes.Contains(txt, []byte(fmt.Sprintf("%x", k))) {
				w.fail("%s: proof of absence of %q discloses the key of %q", what, name, n)
			}
		}
	} else if !bytes.Equal(ap.Leaf.Value, key) {
		w.fail("%s: value %x of %q in epoch %d, bound to %x", what, ap.Leaf.Value, name, e, key)
	}
}

func (w *zzvWorld) proof(what string, res *protocol.Response, code protocol.ErrorCode, aps, strs int) *protocol.DirectoryProof {
	if res == nil {
		w.fail("%s: no response", what)
	}
	if res.Error != code {
		w.fail("%s: status %d (%v), expected %d", what, res.Error, res.Error, code)
	}
	df, ok := res.DirectoryResponse.(*protocol.DirectoryProof)
	if !ok || df == nil {
		w.fail("%s: payload %T", what, res.DirectoryResponse)
	}
	if len(df.AP) != aps || len(df.STR) != strs {
		w.fail("%s: %d proofs and %d roots, expected %d and %d", what, len(df.AP), len(df.STR), aps, strs)
	}
	return df
}

func (w *zzvWorld) bare(what string, res *protocol.Response, code protocol.ErrorCode) {
	if res == nil || res.Error != code || res.DirectoryResponse != nil {
		w.fail("%s: %s, expected bare status %d", what, zzvText(res), code)
	}
}

func (w *zzvWorld) checkTB(what, name string, key []byte, tb *protocol.TemporaryBinding) {
	if tb == nil {
		w.fail("%s: no promise", what)
	}
	idx := w.vk.Compute([]byte(name))
	if !bytes.Equal(tb.Index, idx) || !bytes.Equal(tb.Value, key) {
		w.fail("%s: promise %s, expected index %x and key %x", what, zzvText(tb), idx, key)
	}
	msg := append(append(append([]byte(nil), w.roots[w.latest()].Signature...), idx...), key...)
	if !w.pk.Verify(msg, tb.Signature) {
		w.fail("%s: promise %s is not signed over the latest root, index and key", what, zzvText(tb))
	}
}

func (w *zzvWorld) retained(e uint64) bool {
	if e >= w.latest() {
		return true
	}
	res := w.d.GetSTRHistory(&protocol.STRHistoryRequest{StartEpoch: e, EndEpoch: e})
	if res.Error == protocol.ReqSuccess {
		if w.kept[e] {
			w.fail("epoch %d came back", e)
		}
		return true
	}
	w.bare(fmt.Sprintf("root of epoch %d", e), res, protocol.ErrDirectory)
	w.kept[e] = true
	return false
}

func (w *zzvWorld) register(name string, key []byte) {
	w.log = append(w.log, fmt.Sprintf("Register(%q, %x)", name, key))
	what := fmt.Sprintf("Register(%q)", name)
	given := append([]byte(nil), key...)
	res := w.d.Register(&protocol.RegistrationRequest{Username: name, Key: given})
	if len(name) == 0 || len(key) == 0 {
		w.bare(what, res, protocol.ErrMalformedMessage)
		return
	}
	if _, ok := w.state[w.latest()][name]; ok {
		df := w.proof(what, res, protocol.ReqNameExisted, 1, 1)
		w.checkProof(what, name, df.AP[0], w.latest())
		w.checkRoot(what, df.STR[0], w.latest())
		if df.TB != nil {
			w.fail("%s: promise for a published name", what)
		}
		return
	}
	if txt, ok := w.tbs[name]; ok {
		df := w.proof(what, res, protocol.ReqNameExisted, 1, 1)
		w.checkProof(what, name, df.AP[0], w.latest())
		w.checkRoot(what, df.STR[0], w.latest())
		if zzvText(df.TB) != txt {
			w.fail("%s: promise %s, the original was %s", what, zzvText(df.TB), txt)
		}
		return
	}
	df := w.proof(what, res, protocol.ReqSuccess, 1, 1)
	w.checkProof(what, name, df.AP[0], w.latest())
	w.checkRoot(what, df.STR[0], w.latest())
	w.checkTB(what, name, key, df.TB)
	w.tbs[name] = zzvText(df.TB)
	w.keys[name] = key
	w.cur[name] = key
}

func (w *zzvWorld) lookup(name string) {
	what := fmt.Sprintf("KeyLookup(%q)", name)
	w.log = append(w.log, what)
	res := w.d.KeyLookup(&protocol.KeyLookupRequest{Username: name})
	if len(name) == 0 {
		w.bare(what, res, protocol.ErrMalformedMessage)
		return
	}
	_, bound := w.state[w.latest()][name]
	txt, pending := w.tbs[name]
	code := protocol.ReqSuccess
	if !bound && !pending {
		code = protocol.ReqNameNotFound
	}
	df := w.proof(what, res, code, 1, 1)
	w.checkProof(what, name, df.AP[0], w.latest())
	w.checkRoot(what, df.STR[0], w.latest())
	if bound || !pending {
		if df.TB != nil {
			w.fail("%s: promise %s", what, zzvText(df.TB))
		}
	} else if zzvText(df.TB) != txt {
		w.fail("%s: promise %s, the original was %s", what, zzvText(df.TB), txt)
	}
}

func (w *zzvWorld) lookupIn(name string, e uint64) {
	what := fmt.Sprintf("KeyLookupInEpoch(%q, %d)", name, e)
	w.log = append(w.log, what)
	res := w.d.KeyLookupInEpoch(&protocol.KeyLookupInEpochRequest{Username: name, Epoch: e})
	if len(name) == 0 || e > w.latest() {
		w.bare(what, res, protocol.ErrMalformedMessage)
		return
	}
	if !w.retained(e) {
		w.bare(what, res, protocol.ErrDirectory)
		return
	}
	code := protocol.ReqNameNotFound
	if _, ok := w.state[e][name]; ok {
		code = protocol.ReqSuccess
	}
	df := w.proof(what, res, code, 1, int(w.latest()-e)+1)
	w.checkProof(what, name, df.AP[0], e)
	for i, s := range df.STR {
		w.checkRoot(what, s, e+uint64(i))
	}
	if df.TB != nil {
		w.fail("%s: promise", what)
	}
}

func (w *zzvWorld) monitor(name string, a, b uint64) {
	what := fmt.Sprintf("Monitor(%q, %d, %d)", name, a, b)
	w.log = append(w.log, what)
	res := w.d.Monitor(&protocol.MonitoringRequest{Username: name, StartEpoch: a, EndEpoch: b})
	if len(name) == 0 || a > w.latest() || a > b {
		w.bare(what, res, protocol.ErrMalformedMessage)
		return
	}
	if !w.retained(a) {
		w.bare(what, res, protocol.ErrDirectory)
		return
	}
	if b > w.latest() {
		b = w.latest()
	}
	n := int(b-a) + 1
	df := w.proof(what, res, protocol.ReqSuccess, n, n)
	for i := range df.STR {
		w.checkProof(what, name, df.AP[i], a+uint64(i))
		w.checkRoot(what, df.STR[i], a+uint64(i))
	}
}

func (w *zzvWorld) history(a, b uint64) {
	what := fmt.Sprintf("GetSTRHistory(%d, %d)", a, b)
	w.log = append(w.log, what)
	res := w.d.GetSTRHistory(&protocol.STRHistoryRequest{StartEpoch: a, EndEpoch: b})
	if a > w.latest() || a > b {
		w.bare(what, res, protocol.ErrMalformedMessage)
		return
	}
	if !w.retained(a) {
		w.bare(what, res, protocol.ErrDirectory)
		return
	}
	if b > w.latest() {
		b = w.latest()
	}
	if res.Error != protocol.ReqSuccess {
		w.fail("%s: status %d", what, res.Error)
	}
	sr, ok := res.DirectoryResponse.(*protocol.STRHistoryRange)
	if !ok || sr == nil || len(sr.STR) != int(b-a)+1 {
		w.fail("%s: %s, expected %d roots", what, zzvText(res), b-a+1)
	}
	for i, s := range sr.STR {
		w.checkRoot(what, s, a+uint64(i))
	}
}

func (w *zzvWorld) epoch() uint64 {
	switch w.r.Intn(6) {
	case 0:
		return w.latest() + uint64(w.r.Intn(3))
	case 1:
		return 1<<64 - 1 - uint64(w.r.Intn(2))
	default:
		return uint64(w.r.Intn(int(w.latest()) + 1))
	}
}

// TestZZVDirectory runs histories of requests, updates and policy changes against a reference directory.
func TestZZVDirectory(t *testing.T) {
	r := rand.New(rand.NewSource(zzvSeed()))
	cases := 0
	for it := 0; it < zzvScale(24); it++ {
		seed := make([]byte, 64)
		r.Read(seed)
		sk, err := sign.GenerateKey(bytes.NewReader(seed))
		if err != nil {
			t.Fatal(err)
		}
		r.Read(seed)
		vk, err := vrf.GenerateKey(bytes.NewReader(seed))
		if err != nil {
			t.Fatal(err)
		}
		w := &zzvWorld{t: t, r: r, vk: vk, cur: map[string][]byte{}, kept: map[uint64]bool{}, dead: 7, ad: 7}
		w.pk, _ = sk.Public()
		w.vpk, _ = vk.Public()
		size := uint64([]int{1, 2, 3, 4, 6, 10}[r.Intn(6)])
		w.d = New(7, vk, sk, size, true)
		w.log = []string{fmt.Sprintf("New(size %d)", size)}
		func() {
			defer func() {
				if e := recover(); e != nil {
					w.fail("crash: %v", e)
				}
			}()
			w.issued()
			name := func() string {
				if r.Intn(25) == 0 {
					return ""
				}
				return []string{"a", "A", "alice", "alice@", "bob", "ab", "a b", "\x00", "carol"}[r.Intn(9)] + []string{"", "1", "2"}[r.Intn(3)]
			}
			for steps := 30 + r.Intn(60); steps > 0; steps-- {
				switch r.Intn(9) {
				case 0, 1, 2:
					key := make([]byte, 8+r.Intn(16))
					r.Read(key)
					if r.Intn(20) == 0 {
						key = nil
					}
					w.register(name(), key)
				case 3:
					w.lookup(name())
				case 4:
					w.lookupIn(name(), w.epoch())
				case 5:
					w.monitor(name(), w.epoch(), w.epoch())
				case 6:
					w.history(w.epoch(), w.epoch())
				case 7:
					if r.Intn(3) == 0 {
						w.dead = protocol.Timestamp(r.Intn(1000))
						w.d.SetPolicies(w.dead)
						w.log = append(w.log, fmt.Sprintf("SetPolicies(%d)", w.dead))
						if got := w.d.EpochDeadline(); got != w.roots[w.latest()].Policies.EpochDeadline {
							w.fail("deadline %d is announced before it is in force", got)
						}
					}
				default:
					w.d.Update()
					w.log = append(w.log, "Update")
					w.issued()
				}
				if !reflect.DeepEqual(zzvText(w.d.LatestSTR()), w.texts[w.latest()]) {
					w.fail("latest root changed to %s", zzvText(w.d.LatestSTR()))
				}
			}
			// at the end everything is still what it was
			for e := uint64(0); e <= w.latest(); e++ {
				for _, n := range []string{"a", "alice1", "bob", "nobody"} {
					w.lookupIn(n, e)
				}
				w.monitor("alice", e, w.latest()+5)
				w.history(e, 1<<64-1)
			}
			for n := range w.cur {
				w.lookup(n)
			}
		}()
		cases += w.n
	}
	fmt.Printf("CASES=%d\n", cases)
}
