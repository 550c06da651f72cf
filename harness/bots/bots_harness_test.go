package bots

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/coniks-sys/coniks-go/protocol"
)

func zzvSeed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func zzvScale(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 10 * n
	}
	return n
}

// a key server that records what it is sent and answers what it is told to
type zzvServer struct {
	sync.Mutex
	got    [][]byte
	answer []byte
	done   chan bool
	ln     net.Listener
}

func zzvListen(path string) (*zzvServer, error) {
	ln, err := net.Listen("unix", path)
	if err != nil {
		return nil, err
	}
	s := &zzvServer{ln: ln, done: make(chan bool, 1000)}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			var b bytes.Buffer
			io.Copy(&b, c)
			s.Lock()
			s.got = append(s.got, b.Bytes())
			a := s.answer
			s.Unlock()
			c.Write(a)
			c.Close()
			s.done <- true
		}
	}()
	return s, nil
}

func (s *zzvServer) take() [][]byte {
	s.Lock()
	defer s.Unlock()
	g := s.got
	s.got = nil
	return g
}

// what the message says, read without the code under test
func zzvOwn(msg []byte, account string) bool {
	var top struct {
		Type    int
		Request json.RawMessage
	}
	if json.Unmarshal(msg, &top) != nil || top.Type != 0 || len(top.Request) == 0 || string(top.Request) == "null" {
		return false
	}
	var r struct {
		Username               string
		Key                    []byte
		AllowUnsignedKeychange bool
		AllowPublicLookup      bool
	}
	if json.Unmarshal(top.Request, &r) != nil {
		return false
	}
	if len(r.Username) < 8 || strings.ToLower(r.Username[len(r.Username)-8:]) != "@twitter" {
		return false
	}
	return strings.ToLower(r.Username[:len(r.Username)-8]) == strings.ToLower(account)
}

func zzvCase(r *rand.Rand, s string) string {
	b := []byte(s)
	for i := range b {
		if r.Intn(3) == 0 {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
	}
	return string(b)
}

func zzvMessage(r *rand.Rand, account string) []byte {
	names := []string{account + "@twitter", account, account + "@twitter ", " " + account + "@twitter", account + "x@twitter", "x" + account + "@twitter",
		"eve@twitter", account + "@facebook", account + "@twitterx", account + "@twitter@twitter", "", "@twitter", account[:len(account)/2] + "@twitter",
		"eve@twitter" + account + "@twitter", account + "@twitter\x00", account + "\x00@twitter", account + "@twitter/eve"}
	name := names[0]
	if r.Intn(2) == 0 {
		name = names[r.Intn(len(names))]
	}
	if r.Intn(3) == 0 {
		name = zzvCase(r, name)
	}
	key := make([]byte, r.Intn(40))
	r.Read(key)
	ty := 0
	if r.Intn(4) == 0 {
		ty = []int{-1, 1, 2, 3, 4, 5, 6, 1 << 20}[r.Intn(8)]
	}
	enc := func(v interface{}) string { b, _ := json.Marshal(v); return string(b) }
	body := fmt.Sprintf(`{"Username":%s,"Key":%s}`, enc(name), enc(key))
	switch r.Intn(12) {
	case 0:
		body = fmt.Sprintf(`{"Key":%s}`, enc(key))
	case 1:
		body = []string{"null", "[]", "{}", "7", `"x"`, "true", ""}[r.Intn(7)]
	case 2:
		body = fmt.Sprintf(`{"Username":%s,"Key":%s,"Username":%s}`, enc(name), enc(key), enc(names[r.Intn(len(names))]))
	case 3:
		body = fmt.Sprintf(`{"username":%s,"KEY":%s,"Other":[1,{"Username":"eve@twitter"}]}`, enc(name), enc(key))
	case 4:
		body = fmt.Sprintf(`{"Username":%s,"Key":%s,"AllowPublicLookup":%v,"AllowUnsignedKeychange":%v}`, enc(name), enc(key), r.Intn(2) == 0, r.Intn(2) == 0)
	case 5:
		body = fmt.Sprintf(`{"Username":[%s],"Key":%s}`, enc(name), enc(key))
	}
	msg := fmt.Sprintf(`{"type":%d,"request":%s}`, ty, body)
	switch r.Intn(14) {
	case 0:
		msg = fmt.Sprintf(`{"request":%s}`, body)
	case 1:
		msg = fmt.Sprintf(`{"request":%s,"Type":%d,"sender":"eve"}`, body, ty)
	case 2:
		msg = msg[:r.Intn(len(msg)+1)]
	case 3:
		msg += []string{" ", "x", "{}", "\n", msg}[r.Intn(5)]
	case 4:
		b := []byte(msg)
		b[r.Intn(len(b))] = byte(r.Intn(256))
		msg = string(b)
	case 5:
		msg = []string{"", "null", "[]", "{}", "0", `"?CONIKS?"`}[r.Intn(6)]
	case 6:
		msg = " \n" + msg + "\n  "
	case 7:
		msg = strings.Replace(msg, `{"type"`, `{"pad":"`+strings.Repeat("x", r.Intn(20000))+`","type"`, 1)
	}
	return []byte(msg)
}

func zzvStatus(b string) protocol.ErrorCode {
	var x struct{ Error protocol.ErrorCode }
	if json.Unmarshal([]byte(b), &x) != nil {
		return -1
	}
	return x.Error
}

// TestZZVBot sends the registration bot messages and watches what reaches
// the key server.
func TestZZVBot(t *testing.T) {
	r := rand.New(rand.NewSource(zzvSeed()))
	dir, err := os.MkdirTemp("", "zzv")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	a := filepath.Join(dir, "a")
	other := filepath.Join(dir, "b")
	srv, err := zzvListen(a)
	if err != nil {
		t.Fatal(err)
	}
	defer srv.ln.Close()
	decoy, err := zzvListen(other)
	if err != nil {
		t.Fatal(err)
	}
	defer decoy.ln.Close()
	bot := &TwitterBot{coniksAddress: a, handle: "conikstest"}
	down := &TwitterBot{coniksAddress: filepath.Join(dir, "nobody"), handle: "conikstest"}
	accounts := []string{"alice", "Bob_9", "EVE", "a", "twitter", "conikstest", "al"}
	n, forwarded := zzvScale(3000), 0
	for i := 0; i < n; i++ {
		acc := accounts[r.Intn(len(accounts))]
		msg := zzvMessage(r, acc)
		sent := append([]byte{}, msg...)
		who := acc
		if r.Intn(4) == 0 {
			who = accounts[r.Intn(len(accounts))]
		}
		ans := make([]byte, r.Intn(9000))
		for j := range ans {
			ans[j] = byte(' ' + r.Intn(90))
		}
		srv.Lock()
		srv.answer = ans
		srv.Unlock()
		fail := func(f string, x ...interface{}) {
			fmt.Printf("REPLAY seed=%d case=%d account=%q msg=%q: %s\n", zzvSeed(), i, who, sent, fmt.Sprintf(f, x...))
			t.Fatal("stopped")
		}
		b := bot
		lost := r.Intn(10) == 0
		if lost {
			b = down
		}
		var res string
		func() {
			defer func() {
				if e := recover(); e != nil {
					fail("the bot crashed: %v", e)
				}
			}()
			res = b.HandleRegistration(who, msg)
		}()
		if !bytes.Equal(msg, sent) {
			fail("the message was changed to %q", msg)
		}
		own := zzvOwn(sent, who)
		if own && !lost {
			select {
			case <-srv.done:
			case <-time.After(10 * time.Second):
				fail("the account's own registration did not reach the key server; the reply is %q", res)
			}
		}
		got := srv.take()
		if len(decoy.take()) > 0 {
			fail("something was sent to another server")
		}
		switch {
		case !own:
			if len(got) != 0 {
				fail("not a registration of the account's own name, yet the server was sent %q", got[0])
			}
			if zzvStatus(res) != protocol.ErrMalformedMessage {
				fail("the refusal was %q", res)
			}
		case lost:
			if zzvStatus(res) != protocol.ErrDirectory {
				fail("the key server is down, the reply is %q", res)
			}
		default:
			forwarded++
			if len(got) != 1 || !bytes.Equal(got[0], sent) {
				fail("the key server was sent %q", got)
			}
			want := ans
			if len(want) > 8192 {
				want = want[:8192]
			}
			if res != string(want) {
				fail("the server answered %q, the reply is %q", ans, res)
			}
		}
	}
	if forwarded < n/20 {
		t.Fatal("too few forwarded messages", forwarded)
	}
	fmt.Printf("ZZV-CASES %d\n", n)
}
