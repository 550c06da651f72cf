package application_test

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/application/client"
	"github.com/coniks-sys/coniks-go/crypto"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
)

func zzvSeed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func zzvScale(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 10 * n
	}
	return n
}

type zzvGen struct{ r *rand.Rand }

func (g zzvGen) bytes(n int) []byte {
	if n == 0 && g.r.Intn(2) == 0 {
		return nil
	}
	b := make([]byte, n)
	g.r.Read(b)
	return b
}

func (g zzvGen) name() string {
	parts := []string{"alice", "bob", "@twitter", "", " ", "\"", "\\", "\u2028", "é", "日本", "\x00", "\n", "<>&", "a/b", "null", "{}", "Ünï"}
	s := ""
	for i := g.r.Intn(4); i >= 0; i-- {
		s += parts[g.r.Intn(len(parts))]
	}
	return s
}

func (g zzvGen) epoch() uint64 {
	l := []uint64{0, 1, 2, 255, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 - 1, 1 << 53, 1<<53 + 1, math.MaxInt64, 1 << 63, math.MaxUint64 - 1, math.MaxUint64}
	if g.r.Intn(2) == 0 {
		return l[g.r.Intn(len(l))]
	}
	return g.r.Uint64() >> uint(g.r.Intn(64))
}

func (g zzvGen) ap() *merkletree.AuthenticationPath {
	n := g.r.Intn(5)
	ap := &merkletree.AuthenticationPath{
		TreeNonce:   g.bytes(32),
		LookupIndex: g.bytes(32),
		VrfProof:    g.bytes(g.r.Intn(3) * 64),
		Leaf: &merkletree.ProofNode{
			Level:      uint32(n),
			Index:      g.bytes(g.r.Intn(33)),
			Value:      g.bytes(g.r.Intn(40)),
			IsEmpty:    g.r.Intn(2) == 0,
			Commitment: &crypto.Commit{Salt: g.bytes(32), Value: g.bytes(32)},
		},
	}
	for i := 0; i < n; i++ {
		var h [crypto.HashSizeByte]byte
		g.r.Read(h[:])
		ap.PrunedTree = append(ap.PrunedTree, h)
	}
	return ap
}

func (g zzvGen) str() *protocol.DirSTR {
	p := &protocol.Policies{Version: g.name(), HashID: g.name(), VrfPublicKey: g.bytes(32), EpochDeadline: protocol.Timestamp(g.epoch())}
	return &protocol.DirSTR{
		SignedTreeRoot: &merkletree.SignedTreeRoot{TreeHash: g.bytes(32), Epoch: g.epoch(), PreviousEpoch: g.epoch(),
			PreviousSTRHash: g.bytes(32), Signature: g.bytes(64)},
		Policies: p,
	}
}

func (g zzvGen) tb() *protocol.TemporaryBinding {
	if g.r.Intn(3) == 0 {
		return nil
	}
	return &protocol.TemporaryBinding{Index: g.bytes(32), Value: g.bytes(g.r.Intn(40)), Signature: g.bytes(64)}
}

// equal up to nil and empty byte strings
func zzvShow(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	return strings.Replace(string(b), ":\"\"", ":null", -1)
}

func zzvMutate(r *rand.Rand, msg []byte) []byte {
	s := append([]byte{}, msg...)
	for k := 0; k < 1+r.Intn(3); k++ {
		if len(s) == 0 {
			break
		}
		switch r.Intn(9) {
		case 0:
			s[r.Intn(len(s))] ^= 1 << uint(r.Intn(8))
		case 1:
			i := r.Intn(len(s))
			s = s[:i]
		case 2:
			i := r.Intn(len(s))
			j := i + r.Intn(len(s)-i)
			s = append(append([]byte{}, s[:i]...), s[j:]...)
		case 3:
			lits := []string{"null", "{}", "[]", "0", "-1", "\"\"", "true", "1e400", "[null]", "3", "5", "103", "106"}
			i := r.Intn(len(s))
			s = append(append(append([]byte{}, s[:i]...), lits[r.Intn(len(lits))]...), s[i:]...)
		default:
			// replace one JSON value
			lits := []string{"null", "{}", "[]", "0", "-1", "\"\"", "\"AA==\"", "[null]", "[[1,2]]", "true", "100", "104", "99999999999999999999"}
			var idx []int
			for i := range s {
				if s[i] == ':' || s[i] == '[' {
					idx = append(idx, i+1)
				}
			}
			if len(idx) == 0 {
				break
			}
			i := idx[r.Intn(len(idx))]
			j, depth, str := i, 0, false
			for ; j < len(s); j++ {
				c := s[j]
				if str {
					if c == '\\' {
						j++
					} else if c == '"' {
						str = false
					}
					continue
				}
				if c == '"' {
					str = true
				} else if c == '{' || c == '[' {
					depth++
				} else if c == '}' || c == ']' {
					if depth == 0 {
						break
					}
					depth--
				} else if c == ',' && depth == 0 {
					break
				}
			}
			if j > len(s) {
				j = len(s)
			}
			s = append(append(append([]byte{}, s[:i]...), lits[r.Intn(len(lits))]...), s[j:]...)
		}
	}
	return s
}

func zzvNewPayload(typ int) interface{} {
	switch typ {
	case protocol.RegistrationType:
		return new(protocol.RegistrationRequest)
	case protocol.KeyLookupType:
		return new(protocol.KeyLookupRequest)
	case protocol.KeyLookupInEpochType:
		return new(protocol.KeyLookupInEpochRequest)
	case protocol.MonitoringType:
		return new(protocol.MonitoringRequest)
	}
	return nil
}

// zzvRequest compares what UnmarshalRequest says with a decoding in two
// independent steps.
func zzvRequest(t *testing.T, msg []byte) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("REPLAY UnmarshalRequest(%s) crashed: %v", msg, e)
		}
	}()
	var outer struct {
		Type    int
		Request json.RawMessage
	}
	werr := json.Unmarshal(msg, &outer)
	var want interface{}
	if werr == nil {
		if want = zzvNewPayload(outer.Type); want != nil {
			werr = json.Unmarshal(outer.Request, want)
		} else {
			werr = json.Unmarshal(outer.Request, &want)
		}
	}
	req, err := application.UnmarshalRequest(msg)
	if string(outer.Request) == "null" {
		// no payload: an error (or an earlier payload under the same key)
		if err == nil && zzvNewPayload(req.Type) != nil && reflect.TypeOf(req.Request) != reflect.TypeOf(zzvNewPayload(req.Type)) {
			t.Fatalf("REPLAY UnmarshalRequest(%s): payload %T", msg, req.Request)
		}
		return
	}
	if (err != nil) != (werr != nil) {
		t.Fatalf("REPLAY UnmarshalRequest(%s): error %v, want %v", msg, err, werr)
	}
	if err != nil {
		if req != nil {
			t.Fatalf("REPLAY UnmarshalRequest(%s): error and a request", msg)
		}
		return
	}
	if req.Type != outer.Type {
		t.Fatalf("REPLAY UnmarshalRequest(%s): tag %d, announced %d", msg, req.Type, outer.Type)
	}
	if !reflect.DeepEqual(req.Request, want) {
		t.Fatalf("REPLAY UnmarshalRequest(%s): payload %#v, want %#v", msg, req.Request, want)
	}
}

func zzvIsErr(e protocol.ErrorCode) bool {
	return e == protocol.ErrMalformedMessage || e == protocol.ErrDirectory || e == protocol.ErrAuditLog || e == protocol.ReqUnknownDirectory
}

func zzvResponse(t *testing.T, typ int, msg []byte) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("REPLAY UnmarshalResponse(%d, %s) crashed: %v", typ, msg, e)
		}
	}()
	malformed := &protocol.Response{Error: protocol.ErrMalformedMessage}
	var outer struct {
		Error             protocol.ErrorCode
		DirectoryResponse json.RawMessage
	}
	want := &protocol.Response{}
	if err := json.Unmarshal(msg, &outer); err != nil {
		want = malformed
	} else if outer.DirectoryResponse == nil {
		want.Error = protocol.ErrMalformedMessage
		if zzvIsErr(outer.Error) {
			want.Error = outer.Error
		}
	} else {
		want.Error = outer.Error
		if typ == protocol.STRType {
			var p *protocol.STRHistoryRange
			err = json.Unmarshal(outer.DirectoryResponse, &p)
			want.DirectoryResponse = p
		} else {
			var p *protocol.DirectoryProof
			err = json.Unmarshal(outer.DirectoryResponse, &p)
			want.DirectoryResponse = p
		}
		if err != nil {
			want = malformed
		}
	}
	got := application.UnmarshalResponse(typ, msg)
	if !reflect.DeepEqual(got, want) {
		t.Fatalf("REPLAY UnmarshalResponse(%d, %s) = %s, want %s", typ, msg, zzvShow(got), zzvShow(want))
	}
	// no crash in what a receiver does next
	got.Validate()
	got.GetKey()
}

// TestZZVCodec (C16, C11): round trips and decoding of arbitrary bytes.
func TestZZVCodec(t *testing.T) {
	r := rand.New(rand.NewSource(zzvSeed()))
	g := zzvGen{r}
	cases := 0
	var reqs, resps [][]byte
	for i := 0; i < zzvScale(1200); i++ {
		cases++
		name, key := g.name(), g.bytes(r.Intn(70))
		var msg []byte
		var err error
		var want interface{}
		var typ int
		switch r.Intn(6) {
		case 0:
			msg, err = client.CreateRegistrationMsg(name, key)
			typ, want = protocol.RegistrationType, &protocol.RegistrationRequest{Username: name, Key: key}
		case 1:
			msg, err = client.CreateKeyLookupMsg(name)
			typ, want = protocol.KeyLookupType, &protocol.KeyLookupRequest{Username: name}
		case 2:
			typ, want = protocol.RegistrationType, &protocol.RegistrationRequest{Username: name, Key: key, AllowUnsignedKeychange: r.Intn(2) == 0, AllowPublicLookup: r.Intn(2) == 0}
			msg, err = application.MarshalRequest(typ, want)
		case 3:
			typ, want = protocol.KeyLookupType, &protocol.KeyLookupRequest{Username: name}
			msg, err = application.MarshalRequest(typ, want)
		case 4:
			typ, want = protocol.KeyLookupInEpochType, &protocol.KeyLookupInEpochRequest{Username: name, Epoch: g.epoch()}
			msg, err = application.MarshalRequest(typ, want)
		case 5:
			typ, want = protocol.MonitoringType, &protocol.MonitoringRequest{Username: name, StartEpoch: g.epoch(), EndEpoch: g.epoch()}
			msg, err = application.MarshalRequest(typ, want)
		}
		if err != nil {
			t.Fatalf("REPLAY creating request %d %s: %v", typ, zzvShow(want), err)
		}
		req, err := application.UnmarshalRequest(msg)
		if err != nil {
			t.Fatalf("REPLAY decoding %s: %v", msg, err)
		}
		if req.Type != typ || reflect.TypeOf(req.Request) != reflect.TypeOf(want) || zzvShow(req.Request) != zzvShow(want) {
			t.Fatalf("REPLAY request %d %s was decoded as %d %T %s", typ, zzvShow(want), req.Type, req.Request, zzvShow(req.Request))
		}
		if len(reqs) < 300 {
			reqs = append(reqs, msg)
		}
		zzvRequest(t, msg)
	}
	for i := 0; i < zzvScale(1200); i++ {
		cases++
		codes := []protocol.ErrorCode{protocol.ReqSuccess, protocol.ReqNameExisted, protocol.ReqNameNotFound, protocol.CheckBadSTR}
		e := codes[r.Intn(len(codes))]
		ap, str, tb := g.ap(), g.str(), g.tb()
		var aps []*merkletree.AuthenticationPath
		var strs []*protocol.DirSTR
		for k := r.Intn(4); k >= 0; k-- {
			aps = append(aps, g.ap())
			strs = append(strs, g.str())
		}
		var m *protocol.Response
		var want interface{}
		var typ int
		switch r.Intn(6) {
		case 0:
			typ, m = protocol.RegistrationType, protocol.NewRegistrationProof(ap, str, tb, e)
			want = &protocol.DirectoryProof{AP: []*merkletree.AuthenticationPath{ap}, STR: []*protocol.DirSTR{str}, TB: tb}
		case 1:
			typ, m = protocol.KeyLookupType, protocol.NewKeyLookupProof(ap, str, tb, e)
			want = &protocol.DirectoryProof{AP: []*merkletree.AuthenticationPath{ap}, STR: []*protocol.DirSTR{str}, TB: tb}
		case 2:
			typ, m = protocol.KeyLookupInEpochType, protocol.NewKeyLookupInEpochProof(ap, strs, e)
			want = &protocol.DirectoryProof{AP: []*merkletree.AuthenticationPath{ap}, STR: strs}
		case 3:
			e = protocol.ReqSuccess
			typ, m = protocol.MonitoringType, protocol.NewMonitoringProof(aps, strs)
			want = &protocol.DirectoryProof{AP: aps, STR: strs}
		case 4:
			e = protocol.ReqSuccess
			typ, m = protocol.STRType, protocol.NewSTRHistoryRange(strs)
			want = &protocol.STRHistoryRange{STR: strs}
		case 5:
			codes := []protocol.ErrorCode{protocol.ErrMalformedMessage, protocol.ErrDirectory, protocol.ErrAuditLog, protocol.ReqUnknownDirectory}
			e = codes[r.Intn(len(codes))]
			typ, m = []int{0, 1, 2, 3, 5}[r.Intn(5)], protocol.NewErrorResponse(e)
		}
		if m.Error != e || !reflect.DeepEqual(m.DirectoryResponse, want) && !(want == nil && m.DirectoryResponse == nil) {
			t.Fatalf("REPLAY response of type %d built with status %d and %s carries %s", typ, e, zzvShow(want), zzvShow(m))
		}
		msg, err := application.MarshalResponse(m)
		if err != nil {
			t.Fatalf("REPLAY encoding %s: %v", zzvShow(m), err)
		}
		got := application.UnmarshalResponse(typ, msg)
		if got.Error != e || reflect.TypeOf(got.DirectoryResponse) != reflect.TypeOf(m.DirectoryResponse) || zzvShow(got) != zzvShow(m) {
			t.Fatalf("REPLAY response of type %d %s was decoded as %s", typ, zzvShow(m), zzvShow(got))
		}
		if len(resps) < 300 {
			resps = append(resps, msg)
		}
		for _, ty := range []int{0, 1, 2, 3, 5} {
			zzvResponse(t, ty, msg)
		}
	}
	special := []string{"", "null", "{}", "[]", "0", "\"\"", "{\"Type\":0}", "{\"Request\":{}}", "{\"Type\":0,\"Request\":null}",
		"{\"Type\":1,\"Request\":{}}", "{\"Type\":4,\"Request\":{}}", "{\"Type\":5,\"Request\":{}}", "{\"Type\":-1,\"Request\":[]}", "{\"Type\":\"0\",\"Request\":{}}",
		"{\"Type\":99,\"Request\":{\"Username\":\"a\"}}", "{\"Error\":100}", "{\"Error\":104}", "{\"Error\":103}", "{\"Error\":105}", "{\"Error\":106}", "{\"Error\":200}",
		"{\"Error\":100,\"DirectoryResponse\":null}", "{\"Error\":100,\"DirectoryResponse\":{}}", "{\"Error\":100,\"DirectoryResponse\":{\"AP\":[null],\"STR\":[null]}}",
		"{\"Error\":100,\"DirectoryResponse\":{\"STR\":[{}]}}", "{\"Error\":100,\"DirectoryResponse\":{\"AP\":[{}],\"STR\":[{\"Policies\":null}]}}",
		"{\"Error\":104,\"DirectoryResponse\":{}}", "{\"Error\":0,\"DirectoryResponse\":[]}", "{\"Error\":100,\"DirectoryResponse\":\"\"}"}
	for _, s := range special {
		cases++
		zzvRequest(t, []byte(s))
		for _, ty := range []int{0, 1, 2, 3, 5} {
			zzvResponse(t, ty, []byte(s))
		}
	}
	for i := 0; i < zzvScale(20000); i++ {
		cases++
		zzvRequest(t, zzvMutate(r, reqs[r.Intn(len(reqs))]))
		zzvResponse(t, []int{0, 1, 2, 3, 5}[r.Intn(5)], zzvMutate(r, resps[r.Intn(len(resps))]))
	}
	fmt.Printf("CASES=%d\n", cases)
}
