package server

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	stdlog "log"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/application/bots"
	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/auditlog"
	"github.com/coniks-sys/coniks-go/protocol/client"
	"github.com/coniks-sys/coniks-go/protocol/directory"
	"golang.org/x/crypto/sha3"
)

func zzvSeed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func zzvScale(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 10 * n
	}
	return n
}

func zzvRand(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func zzvDigest(ms ...[]byte) []byte {
	d := make([]byte, 32)
	sha3.ShakeSum128(d, bytes.Join(ms, nil))
	return d
}

// a random change somewhere in a JSON document
func zzvChange(r *rand.Rand, v interface{}, depth int) interface{} {
	odd := []interface{}{nil, map[string]interface{}{}, []interface{}{}, []interface{}{nil}, 0, -1, 1, 3, 4, 5, 99, 100, 101, 102, 103, 104, 105, 106, 107, 110,
		1e300, json.Number("18446744073709551615"), json.Number("18446744073709551616"), json.Number("4294967295"), json.Number("4294967296"), "", "AA==", "AAAA", "x", true, []interface{}{[]interface{}{}}}
	switch x := v.(type) {
	case map[string]interface{}:
		if len(x) > 0 && r.Intn(depth+6) > 1 {
			keys := []string{}
			for k := range x {
				keys = append(keys, k)
			}
			for i := range keys { // map order is random: sort by insertion
				for j := i + 1; j < len(keys); j++ {
					if keys[j] < keys[i] {
						keys[i], keys[j] = keys[j], keys[i]
					}
				}
			}
			k := keys[r.Intn(len(keys))]
			if r.Intn(8) == 0 {
				delete(x, k)
			} else {
				x[k] = zzvChange(r, x[k], depth+1)
			}
			return x
		}
	case []interface{}:
		if len(x) > 0 && r.Intn(6) > 0 {
			i := r.Intn(len(x))
			switch r.Intn(6) {
			case 0:
				return append(x[:i:i], x[i+1:]...)
			case 1:
				return append(append(x[:i:i], x[i]), x[i:]...)
			case 2:
				return append(append([]interface{}{}, x...), nil)
			case 3:
				return x[:i]
			}
			x[i] = zzvChange(r, x[i], depth+1)
			return x
		}
	case json.Number:
		if r.Intn(3) > 0 {
			n, _ := strconv.ParseUint(string(x), 10, 64)
			return json.Number(strconv.FormatUint(n+uint64(r.Intn(5))-2, 10))
		}
	case string:
		switch r.Intn(4) {
		case 0:
			return x[:r.Intn(len(x)+1)/4*4]
		case 1:
			return "AAAA" + x
		}
	}
	return odd[r.Intn(len(odd))]
}

func zzvMutate(r *rand.Rand, msg []byte) []byte {
	if r.Intn(5) > 0 {
		d := json.NewDecoder(bytes.NewReader(msg))
		d.UseNumber()
		var v interface{}
		if d.Decode(&v) == nil {
			for k := 0; k < 1+r.Intn(2); k++ {
				v = zzvChange(r, v, 0)
			}
			b, _ := json.Marshal(v)
			return b
		}
	}
	b := append([]byte{}, msg...)
	for k := 0; k < 1+r.Intn(3) && len(b) > 0; k++ {
		i := r.Intn(len(b))
		switch r.Intn(4) {
		case 0:
			b[i] = byte(r.Intn(256))
		case 1:
			b = b[:i]
		case 2:
			b = append(b[:i:i], b[i+r.Intn(len(b)-i):]...)
		case 3:
			b = append(append(b[:i:i], []string{"null", "[", "]", "{}", "0", ",", `"":`}[r.Intn(7)]...), b[i:]...)
		}
	}
	return b
}

// what the bytes of a response hold, read without the code under test:
// whether a directory proof or a root history is complete
func zzvComplete(t int, msg []byte) bool {
	var top struct {
		Error             int
		DirectoryResponse struct {
			AP  json.RawMessage
			STR []map[string]interface{}
		}
	}
	if json.Unmarshal(msg, &top) != nil {
		return false
	}
	d := top.DirectoryResponse
	if len(d.STR) == 0 {
		return false
	}
	if t != protocol.STRType {
		var aps []*struct{ Leaf *struct{ Level uint32 } }
		if json.Unmarshal(d.AP, &aps) != nil || len(aps) == 0 {
			return false
		}
		for _, a := range aps {
			if a == nil || a.Leaf == nil {
				return false
			}
		}
	}
	for _, s := range d.STR {
		if s == nil {
			return false
		}
		if p, ok := zzvMember(s, "Policies"); !ok || p == nil {
			return false
		}
		any := false
		for _, f := range []string{"TreeHash", "Epoch", "PreviousEpoch", "PreviousSTRHash", "Signature"} {
			if _, ok := zzvMember(s, f); ok {
				any = true
			}
		}
		if !any {
			return false
		}
	}
	return true
}

func zzvMember(m map[string]interface{}, name string) (interface{}, bool) {
	if v, ok := m[name]; ok {
		return v, true
	}
	for k, v := range m {
		if strings.EqualFold(k, name) {
			return v, true
		}
	}
	return nil, false
}

// a malicious server signs whatever it likes as the successor of its root
func zzvForge(r *rand.Rand, m *protocol.Response, prev *protocol.DirSTR, sk sign.PrivateKey, name string, vk vrf.PrivateKey) {
	d, ok := m.DirectoryResponse.(*protocol.DirectoryProof)
	if !ok || len(d.AP) == 0 || len(d.STR) == 0 {
		return
	}
	ap, s := d.AP[0], d.STR[0]
	s.Epoch, s.PreviousEpoch, s.PreviousSTRHash = prev.Epoch+1, prev.Epoch, zzvDigest(prev.Signature)
	odd := func(n int) []byte {
		switch r.Intn(6) {
		case 0:
			return nil
		case 1:
			return zzvRand(r, r.Intn(2*n+1))
		case 2:
			return bytes.Repeat([]byte{255}, n)
		case 3:
			return make([]byte, n)
		}
		return zzvRand(r, n)
	}
	lens := []uint32{0, 1, 7, 8, 31, 32, 255, 256, 257, 1000, math.MaxUint32}
	switch r.Intn(3) {
	case 0: // the real index proof, so that the path itself gets checked
		ap.LookupIndex, ap.VrfProof = vk.Prove([]byte(name))
	case 1:
		s.Policies.VrfPublicKey = odd(32)
	case 2:
		ap.LookupIndex, ap.VrfProof = odd(32), odd(96)
		if r.Intn(2) == 0 {
			h := sha3.NewShake256()
			if len(ap.VrfProof) == 96 {
				h.Write(ap.VrfProof[64:])
				h.Write([]byte(name))
				ap.LookupIndex = make([]byte, 32)
				h.Read(ap.LookupIndex)
			}
		}
	}
	for k := 0; k < 1+r.Intn(3); k++ {
		switch r.Intn(9) {
		case 0:
			ap.Leaf.Level = lens[r.Intn(len(lens))]
		case 1:
			ap.Leaf.Index = odd(32)
		case 2:
			ap.Leaf.Index = ap.LookupIndex
		case 3:
			ap.Leaf.IsEmpty = !ap.Leaf.IsEmpty
		case 4:
			ap.Leaf.Commitment = nil
		case 5:
			ap.PrunedTree = ap.PrunedTree[:r.Intn(len(ap.PrunedTree)+1)]
		case 6:
			for i := r.Intn(300); i > 0; i-- {
				ap.PrunedTree = append(ap.PrunedTree, [32]byte{1})
			}
		case 7:
			ap.Leaf.Value = odd(3)
		case 8:
			ap.TreeNonce = odd(32)
		}
	}
	if n := len(ap.PrunedTree); n <= 256 && r.Intn(3) > 0 {
		// make the root fit
		ap.Leaf.Level = uint32(n)
		if r.Intn(2) == 0 {
			ap.Leaf.Index = append([]byte{}, ap.LookupIndex...)
		}
		if len(ap.Leaf.Index) == 32 {
			lv := make([]byte, 4)
			binary.LittleEndian.PutUint32(lv, ap.Leaf.Level)
			var h []byte
			if ap.Leaf.IsEmpty {
				h = zzvDigest([]byte("E"), ap.TreeNonce, ap.Leaf.Index, lv)
			} else if ap.Leaf.Commitment != nil {
				h = zzvDigest([]byte("L"), ap.TreeNonce, ap.Leaf.Index, lv, ap.Leaf.Commitment.Value)
			}
			for i := n - 1; i >= 0; i-- {
				if ap.Leaf.Index[i/8]>>uint(7-i%8)&1 == 1 {
					h = zzvDigest(ap.PrunedTree[i][:], h)
				} else {
					h = zzvDigest(h, ap.PrunedTree[i][:])
				}
			}
			s.TreeHash = h
		}
	}
	if r.Intn(3) == 0 {
		d.TB = &protocol.TemporaryBinding{Index: odd(32), Value: odd(4), Signature: odd(64)}
	}
	s.Signature = sk.Sign(s.Serialize())
	if d.TB != nil && r.Intn(2) == 0 {
		d.TB.Index = ap.LookupIndex
		d.TB.Signature = sk.Sign(bytes.Join([][]byte{s.Signature, d.TB.Index, d.TB.Value}, nil))
	}
}

// TestZZVCrash feeds clients, auditors, servers, bots and the loader of the
// initial root with genuine, damaged and maliciously signed messages.
func TestZZVCrash(t *testing.T) {
	r := rand.New(rand.NewSource(zzvSeed()))
	dir, err := os.MkdirTemp("", "zzv")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	signKey, _ := sign.GenerateKey(bytes.NewReader(zzvRand(r, 64)))
	pk, _ := signKey.Public()
	vrfKey, err := vrf.GenerateKey(bytes.NewReader(zzvRand(r, 64)))
	if err != nil {
		t.Fatal(err)
	}
	conf := NewConfig(filepath.Join(dir, "config.toml"), "toml", []*Address{{ServerAddress: &application.ServerAddress{Address: "unix://" + filepath.Join(dir, "s")}, AllowRegistration: true}},
		&application.LoggerConfig{Environment: "production", Path: filepath.Join(dir, "log")},
		100, NewPolicies(3600, "", "", vrfKey, signKey), "init.str")
	conf.EpochDeadline = 3600
	srv := NewConiksServer(conf)
	stdlog.SetOutput(io.Discard)
	rounds := zzvScale(6000)
	cases := 0
	names := []string{"alice", "bob", "carol@twitter", "dave"}
	first := srv.dir.LatestSTR()
	var state string
	guard := func(what string, msg []byte, f func()) {
		cases++
		defer func() {
			if e := recover(); e != nil {
				st := string(debug.Stack())
				if i := strings.Index(st, "panic("); i >= 0 {
					st = st[i:]
				}
				fmt.Printf("REPLAY seed=%d: %s crashed on %q (%s): %v\n%.1500s\n", zzvSeed(), what, msg, state, e, st)
				t.Fatal("stopped")
			}
		}()
		f()
	}
	fail := func(what string, msg []byte, f string, a ...interface{}) {
		fmt.Printf("REPLAY seed=%d: %s on %q (%s): %s\n", zzvSeed(), what, msg, state, fmt.Sprintf(f, a...))
		t.Fatal("stopped")
	}
	// genuine messages
	type resp struct {
		t    int
		msg  []byte
		name string
	}
	var reqs [][]byte
	var resps []resp
	ask := func(ty int, body interface{}, name string) {
		b, err := application.MarshalRequest(ty, body)
		if err != nil {
			t.Fatal(err)
		}
		reqs = append(reqs, b)
		a := srv.HandleRequests(&protocol.Request{Type: ty, Request: body})
		m, err := application.MarshalResponse(a)
		if err != nil {
			t.Fatal(err)
		}
		resps = append(resps, resp{ty, m, name})
	}
	for e := 0; e < 4; e++ {
		for i, n := range names {
			ask(protocol.KeyLookupType, &protocol.KeyLookupRequest{Username: n}, n)
			if i <= e {
				ask(protocol.RegistrationType, &protocol.RegistrationRequest{Username: n, Key: []byte{1, 2, byte(i)}}, n)
				ask(protocol.KeyLookupType, &protocol.KeyLookupRequest{Username: n}, n)
			}
			ask(protocol.KeyLookupInEpochType, &protocol.KeyLookupInEpochRequest{Username: n, Epoch: uint64(e)}, n)
			ask(protocol.MonitoringType, &protocol.MonitoringRequest{Username: n, StartEpoch: 0, EndEpoch: uint64(e)}, n)
		}
		h, err := application.MarshalResponse(srv.dir.GetSTRHistory(&protocol.STRHistoryRequest{StartEpoch: 0, EndEpoch: uint64(e)}))
		if err != nil {
			t.Fatal(err)
		}
		resps = append(resps, resp{protocol.STRType, h, ""})
		srv.dir.Update()
	}
	_ = directory.ConiksDirectory{}
	types := []int{protocol.RegistrationType, protocol.KeyLookupType, protocol.KeyLookupInEpochType, protocol.MonitoringType, protocol.STRType}
	strBytes, err := json.Marshal(first)
	if err != nil {
		t.Fatal(err)
	}
	cc := client.New(first, true, pk)
	log := auditlog.New()
	log.InitHistory("server", pk, []*protocol.DirSTR{first})
	var id [32]byte
	for i := 0; i < rounds; i++ {
		q := resps[r.Intn(len(resps))]
		if r.Intn(40) == 0 {
			cc = client.New(first, true, pk)
		}
		if r.Intn(40) == 0 {
			log = auditlog.New()
			hist := []*protocol.DirSTR{first}
			if err := log.InitHistory("server", pk, hist); err != nil {
				t.Fatal(err)
			}
		}
		msg := q.msg
		state = "genuine"
		forged := false
		switch r.Intn(6) {
		case 0:
		case 1, 2:
			m := application.UnmarshalResponse(q.t, q.msg)
			zzvForge(r, m, cc.VerifiedSTR(), signKey, q.name, vrfKey)
			msg, _ = application.MarshalResponse(m)
			state, forged = "signed by a malicious server", true
			if r.Intn(3) == 0 {
				msg = zzvMutate(r, msg)
				forged = false
			}
		default:
			msg = zzvMutate(r, msg)
			state = "damaged"
		}
		_ = forged
		ty := q.t
		if r.Intn(5) == 0 {
			ty = types[r.Intn(len(types))]
		}
		var m *protocol.Response
		guard(fmt.Sprintf("UnmarshalResponse(%d)", ty), msg, func() { m = application.UnmarshalResponse(ty, msg) })
		if m == nil {
			fail("UnmarshalResponse", msg, "no response")
		}
		complete := zzvComplete(ty, msg)
		name := q.name
		if r.Intn(5) == 0 {
			name = names[r.Intn(len(names))]
		}
		var key []byte
		if r.Intn(2) == 0 {
			key = zzvRand(r, r.Intn(4))
		}
		if r.Intn(3) == 0 {
			key = []byte{1, 2, byte(r.Intn(4))}
		}
		if ty == protocol.RegistrationType || ty == protocol.KeyLookupType || r.Intn(4) == 0 {
			ct := []int{protocol.RegistrationType, protocol.KeyLookupType}[r.Intn(2)]
			guard(fmt.Sprintf("HandleResponse(%d, %q)", ct, name), msg, func() {
				err := cc.HandleResponse(ct, m, name, key)
				if err == nil && (!complete || ty == protocol.STRType) {
					fail("HandleResponse", msg, "accepted an incomplete response")
				}
			})
		}
		guard("GetKey", msg, func() {
			if k, err := m.GetKey(); err == nil && (!complete || ty == protocol.STRType) {
				fail("GetKey", msg, "returned key %x of an incomplete response", k)
			}
		})
		if ty == protocol.STRType || r.Intn(8) == 0 {
			guard("CheckEquivocation", msg, func() {
				if cc.CheckEquivocation(m) == nil && (!complete || ty != protocol.STRType) {
					fail("CheckEquivocation", msg, "accepted an incomplete response")
				}
			})
			guard("Audit", msg, func() {
				for _, h := range log {
					if h.Audit(m) == nil && (!complete || ty != protocol.STRType) {
						fail("Audit", msg, "accepted an incomplete response")
					}
				}
			})
			guard("GetObservedSTRs", msg, func() {
				r.Read(id[:])
				log.GetObservedSTRs(&protocol.AuditingRequest{DirInitSTRHash: id, StartEpoch: uint64(r.Intn(5)), EndEpoch: uint64(r.Intn(9))})
				for k := range log {
					log.GetObservedSTRs(&protocol.AuditingRequest{DirInitSTRHash: k, StartEpoch: []uint64{0, 1, 2, 5, math.MaxUint64 - 1, math.MaxUint64}[r.Intn(6)], EndEpoch: []uint64{0, 1, 2, 5, math.MaxUint64 - 1, math.MaxUint64}[r.Intn(6)]})
				}
			})
		}
		if r.Intn(16) == 0 {
			ext := []uint64{0, 1, 2, 3, 1 << 20, 1 << 50, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64 - 1, math.MaxUint64}
			from, to := ext[r.Intn(10)], ext[r.Intn(10)]
			guard(fmt.Sprintf("history of epochs %d to %d", from, to), nil, func() {
				srv.dir.GetSTRHistory(&protocol.STRHistoryRequest{StartEpoch: from, EndEpoch: to})
				srv.dir.Monitor(&protocol.MonitoringRequest{Username: "alice", StartEpoch: from, EndEpoch: to})
				srv.dir.KeyLookupInEpoch(&protocol.KeyLookupInEpochRequest{Username: "alice", Epoch: from})
			})
		}
		// requests
		rq := reqs[r.Intn(len(reqs))]
		state = "genuine"
		if r.Intn(4) > 0 {
			rq = zzvMutate(r, rq)
			state = "damaged"
		}
		guard("the server", rq, func() {
			req, err := application.UnmarshalRequest(rq)
			if err != nil {
				return
			}
			res := srv.HandleRequests(req)
			if res == nil {
				fail("HandleRequests", rq, "no response")
			}
			if _, err := application.MarshalResponse(res); err != nil {
				fail("HandleRequests", rq, "response does not encode: %v", err)
			}
		})
		if r.Intn(4) == 0 {
			guard("the bot", rq, func() {
				bot := &bots.TwitterBot{}
				bot.HandleRegistration([]string{"alice", "carol", ""}[r.Intn(3)], rq)
			})
		}
		if r.Intn(6) == 0 {
			sb := zzvMutate(r, strBytes)
			state = "damaged root file"
			if err := os.WriteFile(filepath.Join(dir, "root"), sb, 0600); err != nil {
				t.Fatal(err)
			}
			guard("the loader", sb, func() {
				s, err := application.LoadInitSTR("root", filepath.Join(dir, "config.toml"))
				if err != nil {
					return
				}
				c := client.New(s, true, pk)
				c.HandleResponse(protocol.KeyLookupType, application.UnmarshalResponse(protocol.KeyLookupType, resps[0].msg), "alice", nil)
				auditlog.New().InitHistory("x", pk, []*protocol.DirSTR{s})
			})
		}
	}
	_ = merkletree.ProofOfAbsence
	fmt.Printf("ZZV-CASES %d\n", cases)
}
