package client

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"testing"

	"github.com/coniks-sys/coniks-go/crypto"
	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/directory"
	"golang.org/x/crypto/sha3"
)

func zzvSeed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func zzvScale(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 10 * n
	}
	return n
}

func zzvDigest(b []byte) []byte {
	r := make([]byte, 32)
	sha3.ShakeSum128(r, b)
	return r
}

// over the wire and back
func zzvWire(t *testing.T, m *protocol.Response) *protocol.Response {
	b, err := json.Marshal(m)
	if err != nil {
		t.Fatal(err)
	}
	var raw struct {
		Error             protocol.ErrorCode
		DirectoryResponse json.RawMessage
	}
	if err := json.Unmarshal(b, &raw); err != nil {
		t.Fatal(err)
	}
	d := new(protocol.DirectoryProof)
	if err := json.Unmarshal(raw.DirectoryResponse, &d); err != nil {
		t.Fatal(err)
	}
	return &protocol.Response{Error: raw.Error, DirectoryResponse: d}
}

func zzvIncl(ap *merkletree.AuthenticationPath) bool {
	return !ap.Leaf.IsEmpty && bytes.Equal(ap.Leaf.Index, ap.LookupIndex)
}

func zzvSucc(pk sign.PublicKey, p, s *protocol.DirSTR) bool {
	return pk.Verify(s.Serialize(), s.Signature) && s.Epoch == p.Epoch+1 && s.PreviousEpoch == p.Epoch && bytes.Equal(s.PreviousSTRHash, zzvDigest(p.Signature))
}

func zzvSame(a, b *protocol.DirSTR) bool { return reflect.DeepEqual(a, b) }

type zzvState struct {
	pk       sign.PublicKey
	verified *protocol.DirSTR
	tbs      map[string]protocol.TemporaryBinding
	keys     map[string][]byte
}

// evidence says whether every piece of evidence of m checks out (C10)
func (st *zzvState) evidence(typ int, m *protocol.Response, name string, key []byte) (bool, string) {
	d, ok := m.DirectoryResponse.(*protocol.DirectoryProof)
	if !ok || d == nil || len(d.AP) != 1 || len(d.STR) != 1 || d.AP[0] == nil || d.AP[0].Leaf == nil || d.STR[0] == nil || d.STR[0].SignedTreeRoot == nil || d.STR[0].Policies == nil {
		return false, "shape"
	}
	ap, s, tb := d.AP[0], d.STR[0], d.TB
	if !zzvSame(s, st.verified) && !zzvSucc(st.pk, st.verified, s) {
		return false, "root"
	}
	inc := zzvIncl(ap)
	switch typ {
	case protocol.RegistrationType:
		if !(m.Error == protocol.ReqNameExisted || m.Error == protocol.ReqSuccess && !inc) {
			return false, "status"
		}
	case protocol.KeyLookupType:
		if !(m.Error == protocol.ReqSuccess || m.Error == protocol.ReqNameNotFound && !inc) {
			return false, "status"
		}
	}
	if len(ap.VrfProof) != vrf.ProofSize || !s.Policies.VrfPublicKey.Verify([]byte(name), ap.LookupIndex, ap.VrfProof) {
		return false, "vrf"
	}
	k := key
	if k == nil {
		k = ap.Leaf.Value
	}
	c := &merkletree.AuthenticationPath{TreeNonce: ap.TreeNonce, PrunedTree: ap.PrunedTree, LookupIndex: ap.LookupIndex, VrfProof: ap.VrfProof, Leaf: ap.Leaf}
	if c.Verify([]byte(name), k, s.TreeHash) != nil {
		return false, "path"
	}
	old, had := st.tbs[name]
	if inc {
		if had && (!bytes.Equal(old.Index, ap.LookupIndex) || !bytes.Equal(old.Value, ap.Leaf.Value)) {
			return false, "fulfilment"
		}
		return true, ""
	}
	if m.Error == protocol.ReqNameNotFound {
		return !had, "pending promise"
	}
	if tb == nil || !st.pk.Verify(bytes.Join([][]byte{s.Signature, tb.Index, tb.Value}, nil), tb.Signature) || !bytes.Equal(tb.Index, ap.LookupIndex) || key != nil && !bytes.Equal(tb.Value, key) {
		return false, "promise"
	}
	if had && (!bytes.Equal(tb.Index, old.Index) || !bytes.Equal(tb.Value, old.Value) ||
		!st.pk.Verify(bytes.Join([][]byte{s.Signature, old.Index, old.Value}, nil), old.Signature)) {
		return false, "pending promise"
	}
	return true, ""
}

func zzvTamper(r *rand.Rand, m *protocol.Response, sk, sx sign.PrivateKey, other *protocol.Response) string {
	d := m.DirectoryResponse.(*protocol.DirectoryProof)
	flip := func(b []byte) {
		if len(b) > 0 {
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		}
	}
	ap, s := d.AP[0], d.STR[0]
	switch r.Intn(26) {
	case 0:
		flip(ap.LookupIndex)
		return "lookup index"
	case 1:
		flip(ap.VrfProof)
		return "vrf proof"
	case 2:
		flip(ap.TreeNonce)
		return "nonce"
	case 3:
		if n := len(ap.PrunedTree); n > 0 {
			ap.PrunedTree[r.Intn(n)][r.Intn(32)] ^= 1
		}
		return "sibling"
	case 4:
		flip(ap.Leaf.Value)
		return "value"
	case 5:
		ap.Leaf.Value = []byte("other value")
		return "value"
	case 6:
		if ap.Leaf.Commitment != nil {
			flip(ap.Leaf.Commitment.Salt)
			flip(ap.Leaf.Commitment.Value)
		}
		return "commitment"
	case 7:
		flip(s.TreeHash)
		return "tree hash"
	case 8:
		flip(s.Signature)
		return "root signature"
	case 9:
		s.Epoch++
		s.PreviousEpoch = s.Epoch - 1
		return "epoch"
	case 10:
		flip(s.TreeHash)
		s.Signature = sx.Sign(s.Serialize())
		return "root signed with another key"
	case 11:
		s.Policies.EpochDeadline++
		return "policies"
	case 12:
		m.Error = protocol.ReqSuccess
		return "status"
	case 13:
		m.Error = protocol.ReqNameExisted
		return "status"
	case 14:
		m.Error = protocol.ReqNameNotFound
		return "status"
	case 15:
		d.TB = nil
		return "promise removed"
	case 16:
		if d.TB != nil {
			flip(d.TB.Signature)
		}
		return "promise signature"
	case 17:
		if d.TB != nil {
			d.TB.Value = []byte("another key")
			d.TB.Signature = sk.Sign(bytes.Join([][]byte{s.Signature, d.TB.Index, d.TB.Value}, nil))
		}
		return "promise for another key"
	case 18:
		if d.TB != nil {
			flip(d.TB.Index)
			d.TB.Signature = sk.Sign(bytes.Join([][]byte{s.Signature, d.TB.Index, d.TB.Value}, nil))
		}
		return "promise for another index"
	case 19:
		if d.TB != nil {
			d.TB.Signature = sx.Sign(bytes.Join([][]byte{s.Signature, d.TB.Index, d.TB.Value}, nil))
		}
		return "promise signed with another key"
	case 20:
		if d.TB != nil {
			d.TB.Signature = sk.Sign(bytes.Join([][]byte{[]byte("another root"), d.TB.Index, d.TB.Value}, nil))
		}
		return "promise over another root"
	case 21:
		if other != nil {
			o := other.DirectoryResponse.(*protocol.DirectoryProof)
			d.AP[0] = o.AP[0]
		}
		return "path of another response"
	case 22:
		if other != nil {
			o := other.DirectoryResponse.(*protocol.DirectoryProof)
			d.TB = o.TB
		}
		return "promise of another response"
	case 23:
		if other != nil {
			o := other.DirectoryResponse.(*protocol.DirectoryProof)
			d.STR[0] = o.STR[0]
		}
		return "root of another response"
	case 24:
		d.AP = append(d.AP, d.AP[0])
		return "two paths"
	default:
		d.STR = append(d.STR, d.STR[0])
		return "two roots"
	}
}

// TestZZVClient feeds a client honest and tampered responses of a real directory
// and compares its verdict and its bindings with C10.
func TestZZVClient(t *testing.T) {
	r := rand.New(rand.NewSource(zzvSeed()))
	cases, accepted := 0, 0
	for it := 0; it < zzvScale(25); it++ {
		vk := crypto.NewStaticTestVRFKey()
		sk := crypto.NewStaticTestSigningKey()
		pk, _ := sk.Public()
		sx, _ := sign.GenerateKey(bytes.NewReader([]byte("another key that is 256 bits lng")))
		d := directory.New(1, vk, sk, 10, true)
		var last *protocol.Response
		init := d.LatestSTR()
		pinned := &protocol.DirSTR{SignedTreeRoot: &merkletree.SignedTreeRoot{}, Policies: init.Policies}
		{
			b, _ := json.Marshal(init)
			pinned = new(protocol.DirSTR)
			if err := json.Unmarshal(b, pinned); err != nil {
				t.Fatal(err)
			}
		}
		cc := New(pinned, true, pk)
		st := &zzvState{pk: pk, verified: pinned, tbs: map[string]protocol.TemporaryBinding{}, keys: map[string][]byte{}}
		names := []string{"alice", "bob", "carol", "dave"}
		for op := 0; op < 40; op++ {
			if r.Intn(5) == 0 {
				d.Update()
			}
			name := names[r.Intn(len(names))]
			key := []byte("key of " + name)
			typ := protocol.KeyLookupType
			var res *protocol.Response
			if r.Intn(2) == 0 {
				typ = protocol.RegistrationType
				res = d.Register(&protocol.RegistrationRequest{Username: name, Key: key})
			} else {
				res = d.KeyLookup(&protocol.KeyLookupRequest{Username: name})
			}
			if r.Intn(4) == 0 {
				key = nil
			} else if r.Intn(6) == 0 {
				key = []byte("wrong key")
			}
			m := zzvWire(t, res)
			keep := zzvWire(t, res)
			what := "honest"
			if r.Intn(3) > 0 {
				what = zzvTamper(r, m, sk, sx, last)
			}
			qname := name
			if r.Intn(12) == 0 {
				qname = names[r.Intn(len(names))]
			}
			last = keep
			want, why := st.evidence(typ, m, qname, key)
			before := map[string][]byte{}
			for n, k := range cc.Bindings {
				before[n] = k
			}
			tbBefore := map[string]*protocol.TemporaryBinding{}
			for n, x := range cc.TBs {
				tbBefore[n] = x
			}
			verBefore := cc.VerifiedSTR()
			var err error
			func() {
				defer func() {
					if e := recover(); e != nil {
						t.Fatalf("REPLAY %s (type %d, name %s): HandleResponse panics: %v", what, typ, qname, e)
					}
				}()
				err = cc.HandleResponse(typ, m, qname, key)
			}()
			cases++
			if (err == nil) != want {
				js, _ := json.Marshal(m)
				t.Fatalf("REPLAY %s (type %d, name %s, key %q): HandleResponse = %v, must accept: %v (%s); verified epoch %d; response %s", what, typ, qname, key, err, want, why, st.verified.Epoch, js)
			}
			for n := range before {
				if n != qname && !bytes.Equal(before[n], cc.Bindings[n]) {
					t.Fatalf("REPLAY %s: response for %s changed the binding of %s", what, qname, n)
				}
			}
			for n := range tbBefore {
				if n != qname && tbBefore[n] != cc.TBs[n] {
					t.Fatalf("REPLAY %s: response for %s changed the promise for %s", what, qname, n)
				}
			}
			dp, _ := m.DirectoryResponse.(*protocol.DirectoryProof)
			if want {
				accepted++
				st.verified = dp.STR[0]
				if cc.VerifiedSTR() != dp.STR[0] {
					t.Fatalf("REPLAY %s: verified root not updated", what)
				}
				ap := dp.AP[0]
				switch {
				case zzvIncl(ap):
					delete(st.tbs, qname)
					if !bytes.Equal(cc.Bindings[qname], ap.Leaf.Value) || cc.TBs[qname] != nil {
						t.Fatalf("REPLAY %s: %s bound to %q, proof says %q", what, qname, cc.Bindings[qname], ap.Leaf.Value)
					}
				case m.Error == protocol.ReqNameNotFound:
					if !bytes.Equal(cc.Bindings[qname], before[qname]) {
						t.Fatalf("REPLAY %s: not-found changed the binding of %s", what, qname)
					}
				default:
					st.tbs[qname] = *dp.TB
					if cc.TBs[qname] != dp.TB || !bytes.Equal(cc.Bindings[qname], dp.TB.Value) {
						t.Fatalf("REPLAY %s: promise or promised key of %s not recorded", what, qname)
					}
				}
			} else {
				if !bytes.Equal(before[qname], cc.Bindings[qname]) || tbBefore[qname] != cc.TBs[qname] {
					t.Fatalf("REPLAY %s: rejected response changed the binding or promise of %s", what, qname)
				}
				if v := cc.VerifiedSTR(); v != verBefore {
					if dp == nil || len(dp.STR) == 0 || v != dp.STR[0] || !zzvSame(v, verBefore) && !zzvSucc(pk, verBefore, v) {
						t.Fatalf("REPLAY %s: verified root replaced by one that is not its successor", what)
					}
				}
				st.verified = cc.VerifiedSTR()
			}
		}
	}
	fmt.Printf("CASES=%d ACCEPTED=%d\n", cases, accepted)
}
