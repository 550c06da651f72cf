package server

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"testing"
	"time"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/protocol"
)

func zzvSeed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func zzvScale(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 10 * n
	}
	return n
}

func zzvRand(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func zzvAsk(path string, msg []byte) ([]byte, error) {
	conn, err := net.Dial("unix", path)
	if err != nil {
		return nil, err
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(20 * time.Second))
	if _, err := conn.Write(msg); err != nil {
		return nil, err
	}
	conn.(*net.UnixConn).CloseWrite()
	var b bytes.Buffer
	if _, err := io.Copy(&b, conn); err != nil {
		return nil, err
	}
	return b.Bytes(), nil
}

// TestZZVServer runs a key server with several addresses against a model of
// which requests are permitted and of what is registered.
func TestZZVServer(t *testing.T) {
	r := rand.New(rand.NewSource(zzvSeed()))
	cases := 0
	for round := 0; round < zzvScale(6); round++ {
		dir, err := os.MkdirTemp("", "zzv")
		if err != nil {
			t.Fatal(err)
		}
		defer os.RemoveAll(dir)
		signKey, _ := sign.GenerateKey(bytes.NewReader(zzvRand(r, 64)))
		vrfKey, err := vrf.GenerateKey(bytes.NewReader(zzvRand(r, 64)))
		if err != nil {
			t.Fatal(err)
		}
		n := 1 + r.Intn(4)
		var addrs []*Address
		for i := 0; i < n; i++ {
			addrs = append(addrs, &Address{
				ServerAddress:     &application.ServerAddress{Address: "unix://" + filepath.Join(dir, fmt.Sprintf("s%d", i))},
				AllowRegistration: r.Intn(2) == 0,
			})
		}
		conf := NewConfig(filepath.Join(dir, "config.toml"), "toml", addrs,
			&application.LoggerConfig{Environment: "production", Path: filepath.Join(dir, "log")},
			100, NewPolicies(3600, "", "", vrfKey, signKey), "init.str")
		conf.EpochDeadline = 3600
		srv := NewConiksServer(conf)
		srv.Run(conf.Addresses)
		fail := func(f string, a ...interface{}) {
			fmt.Printf("REPLAY seed=%d round=%d: %s\n", zzvSeed(), round, fmt.Sprintf(f, a...))
			t.Fatal("stopped")
		}
		if _, err := application.LoadInitSTR("init.str", filepath.Join(dir, "config.toml")); err != nil {
			fail("the initial root is not saved beside the configuration: %v", err)
		}
		registered := map[string]bool{}
		check := func(how string, ty int, name string, permitted, wellformed bool, code protocol.ErrorCode, ap *json.RawMessage) {
			want := protocol.ErrMalformedMessage
			switch {
			case !permitted || !wellformed || name == "":
			case ty == protocol.RegistrationType:
				want = protocol.ReqSuccess
				if registered[name] {
					want = protocol.ReqNameExisted
				}
				registered[name] = true
			case ty == protocol.KeyLookupType:
				want = protocol.ReqNameNotFound
				if registered[name] {
					// promised only: the lookup shows the promise
					want = protocol.ReqSuccess
				}
			case ty == protocol.KeyLookupInEpochType:
				want = protocol.ReqNameNotFound
			case ty == protocol.MonitoringType:
				want = protocol.ReqSuccess
			}
			if code != want {
				fail("%s: answer %v, expected %v", how, code, want)
			}
		}
		payload := func(ty int, name string) interface{} {
			switch ty {
			case protocol.RegistrationType:
				return &protocol.RegistrationRequest{Username: name, Key: []byte{1, 2}}
			case protocol.KeyLookupType:
				return &protocol.KeyLookupRequest{Username: name}
			case protocol.KeyLookupInEpochType:
				return &protocol.KeyLookupInEpochRequest{Username: name, Epoch: 0}
			case protocol.MonitoringType:
				return &protocol.MonitoringRequest{Username: name, StartEpoch: 0, EndEpoch: 0}
			}
			return &protocol.AuditingRequest{StartEpoch: 0, EndEpoch: 0}
		}
		for q := 0; q < 50; q++ {
			i, ty, name := r.Intn(n), r.Intn(7)-1, fmt.Sprintf("user%d", r.Intn(12))
			msg, err := json.Marshal(&protocol.Request{Type: ty, Request: payload(ty, name)})
			if err != nil {
				t.Fatal(err)
			}
			out, err := zzvAsk(filepath.Join(dir, fmt.Sprintf("s%d", i)), msg)
			if err != nil {
				fail("no reply to %s: %v", msg, err)
			}
			var res struct {
				Error *protocol.ErrorCode
				AP    *json.RawMessage
			}
			if json.Unmarshal(out, &res) != nil || res.Error == nil {
				fail("reply to %s: %q", msg, out)
			}
			permitted := ty >= protocol.KeyLookupType && ty <= protocol.MonitoringType ||
				ty == protocol.RegistrationType && addrs[i].AllowRegistration
			check(fmt.Sprintf("%s at an address with registration allowed: %v", msg, addrs[i].AllowRegistration), ty, name, permitted, true, *res.Error, nil)
			cases++
			// dispatch: payloads of another kind, and of no kind
			pt := r.Intn(6) - 1
			name = fmt.Sprintf("user%d", r.Intn(12))
			var p interface{} = payload(pt, name)
			switch r.Intn(6) {
			case 0:
				p, pt = nil, -2
			case 1:
				p, pt = "text", -2
			case 2:
				p, pt = map[string]interface{}{"Username": name}, -2
			}
			ty = r.Intn(7) - 1
			if ty == protocol.RegistrationType {
				srv.Lock()
			} else {
				srv.RLock()
			}
			resp := srv.HandleRequests(&protocol.Request{Type: ty, Request: p})
			if ty == protocol.RegistrationType {
				srv.Unlock()
			} else {
				srv.RUnlock()
			}
			if resp == nil {
				fail("no answer to a request of type %d with payload %T", ty, p)
			}
			known := ty >= protocol.RegistrationType && ty <= protocol.MonitoringType
			check(fmt.Sprintf("type %d with payload %T %v", ty, p, p), ty, name, known, pt == ty, resp.Error, nil)
			cases++
		}
		srv.Shutdown()
		os.RemoveAll(dir)
	}
	fmt.Printf("CASES=%d\n", cases)
}
