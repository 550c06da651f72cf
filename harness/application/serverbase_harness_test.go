package application

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/signal"
	"path/filepath"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/coniks-sys/coniks-go/protocol"
)

func zzvSBSeed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func zzvSBScale(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 10 * n
	}
	return n
}

func zzvAsk(path string, msg []byte) ([]byte, error) {
	conn, err := net.Dial("unix", path)
	if err != nil {
		return nil, err
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(20 * time.Second))
	if _, err := conn.Write(msg); err != nil {
		return nil, err
	}
	conn.(*net.UnixConn).CloseWrite()
	var b bytes.Buffer
	if _, err := io.Copy(&b, conn); err != nil {
		return nil, err
	}
	return b.Bytes(), nil
}

func zzvReader(t int) bool {
	return t == protocol.KeyLookupType || t == protocol.KeyLookupInEpochType || t == protocol.MonitoringType
}

// lock probes from another goroutine: 0 free, 1 shared, 2 exclusive
func zzvProbe(sb *ServerBase) int {
	c := make(chan int)
	go func() {
		if sb.TryLock() {
			sb.Unlock()
			c <- 0
			return
		}
		if sb.TryRLock() {
			sb.RUnlock()
			c <- 1
			return
		}
		c <- 2
	}()
	return <-c
}

// A probe can be disturbed by another probe or by a lock that waits; look
// again before believing that a lock is weaker than needed.
func zzvHeld(sb *ServerBase, want int) bool {
	for i := 0; i < 3; i++ {
		if zzvProbe(sb) >= want {
			return true
		}
		time.Sleep(time.Millisecond)
	}
	return false
}

// TestZZVServerBase drives a server base over Unix sockets with random
// permissions and requests.
func TestZZVServerBase(t *testing.T) {
	// a server that does not listen for the signal must not end the test
	sig := make(chan os.Signal, 8)
	signal.Notify(sig, syscall.SIGUSR2)
	r := rand.New(rand.NewSource(zzvSBSeed()))
	cases := 0
	for round := 0; round < zzvSBScale(4); round++ {
		dir, err := os.MkdirTemp("", "zzv")
		if err != nil {
			t.Fatal(err)
		}
		defer os.RemoveAll(dir)
		n := 2 + r.Intn(3)
		perms := map[*ServerAddress]map[int]bool{}
		var addrs []*ServerAddress
		var may []map[int]bool
		for i := 0; i < n; i++ {
			a := &ServerAddress{Address: "unix://" + filepath.Join(dir, fmt.Sprintf("s%d", i))}
			m := map[int]bool{}
			c := map[int]bool{}
			for ty := -1; ty < 8; ty++ {
				if r.Intn(2) == 0 {
					v := r.Intn(4) != 0
					m[ty] = v
					c[ty] = v
				}
			}
			if i == 0 {
				for ty := 0; ty < 4; ty++ {
					m[ty], c[ty] = true, true
				}
			}
			if r.Intn(6) == 0 && i > 0 {
				c = map[int]bool{}
			} else {
				perms[a] = m
			}
			addrs = append(addrs, a)
			may = append(may, c)
		}
		sb := NewServerBase(&CommonConfig{Path: filepath.Join(dir, "config.toml"), Encoding: "toml",
			Logger: &LoggerConfig{Environment: "production", Path: filepath.Join(dir, "log")}}, "Listen", perms)
		var handled, readers, writers int64
		var bad atomic.Value
		check := func(ok bool, f string, a ...interface{}) {
			if !ok {
				bad.CompareAndSwap(nil, fmt.Sprintf(f, a...))
			}
		}
		var last sync.Map
		handlers := make([]func(*protocol.Request) *protocol.Response, n)
		for i := 0; i < n; i++ {
			i := i
			handlers[i] = func(req *protocol.Request) *protocol.Response {
				k := atomic.AddInt64(&handled, 1)
				check(may[i][req.Type], "a request of type %d was handled at an address that does not permit it", req.Type)
				if zzvReader(req.Type) {
					atomic.AddInt64(&readers, 1)
					check(zzvHeld(sb, 1), "a read-only request (type %d) is handled without the lock", req.Type)
					check(atomic.LoadInt64(&writers) == 0, "a request of type %d is handled while another may change the directory", req.Type)
					time.Sleep(time.Duration(k%3) * time.Millisecond)
					atomic.AddInt64(&readers, -1)
				} else {
					w := atomic.AddInt64(&writers, 1)
					check(w == 1 && atomic.LoadInt64(&readers) == 0, "a request of type %d is handled together with others", req.Type)
					check(zzvHeld(sb, 2), "a request of type %d is handled without holding the lock exclusively", req.Type)
					time.Sleep(time.Duration(k%3) * time.Millisecond)
					atomic.AddInt64(&writers, -1)
				}
				e := []protocol.ErrorCode{protocol.ReqSuccess, protocol.ReqNameExisted, protocol.ReqNameNotFound, protocol.ErrDirectory}[k%4]
				last.Store(k, e)
				return &protocol.Response{Error: e}
			}
			sb.ListenAndHandle(addrs[i], handlers[i])
		}
		path := func(i int) string { return filepath.Join(dir, fmt.Sprintf("s%d", i)) }
		ask := func(i, ty int, body string) (bool, protocol.ErrorCode, string) {
			msg := fmt.Sprintf(`{"Type":%d,"Request":%s}`, ty, body)
			out, err := zzvAsk(path(i), []byte(msg))
			if err != nil {
				return false, 0, msg + ": " + err.Error()
			}
			var res struct{ Error *protocol.ErrorCode }
			if json.Unmarshal(out, &res) != nil || res.Error == nil {
				return false, 0, fmt.Sprintf("%s: reply %q", msg, out)
			}
			return true, *res.Error, msg
		}
		good := func(ty int) string {
			switch ty {
			case 0:
				return `{"Username":"a","Key":"AQ=="}`
			case 1:
				return `{"Username":"a"}`
			case 2:
				return `{"Username":"a","Epoch":0}`
			case 3:
				return `{"Username":"a","StartEpoch":0,"EndEpoch":0}`
			}
			return []string{`{}`, `[1]`, `"x"`, `3`}[r.Intn(4)]
		}
		fail := func(f string, a ...interface{}) {
			fmt.Printf("REPLAY seed=%d round=%d: %s\n", zzvSBSeed(), round, fmt.Sprintf(f, a...))
			t.Fatal("stopped")
		}
		// one request at a time
		for q := 0; q < 60; q++ {
			i, ty := r.Intn(n), r.Intn(9)-1
			body := good(ty)
			decodes := true
			if r.Intn(8) == 0 {
				body, decodes = []string{`"x"`, `17`, `[`, ``}[r.Intn(4)], false
			}
			before := atomic.LoadInt64(&handled)
			ok, code, msg := ask(i, ty, body)
			after := atomic.LoadInt64(&handled)
			cases++
			if b := bad.Load(); b != nil {
				fail("%v (request %s)", b, msg)
			}
			if !ok {
				fail("no readable reply to %s", msg)
			}
			if ty > 3 || ty < 0 {
				// the payload of an unknown type decodes as anything
				decodes = decodes || body == `"x"` || body == `17`
			}
			if may[i][ty] && decodes {
				if after != before+1 {
					fail("the permitted request %s was handled %d times", msg, after-before)
				}
				if e, _ := last.Load(after); e != code {
					fail("the answer to %s was %v but the reply says %v", msg, e, code)
				}
			} else if after != before {
				fail("request %s (type permitted: %v) reached the handler", msg, may[i][ty])
			} else if code != protocol.ErrMalformedMessage {
				fail("refusing %s: reply %v instead of a malformed-message error", msg, code)
			}
			free := false
			for k := 0; k < 200 && !free; k++ {
				free = zzvProbe(sb) == 0
				if !free {
					time.Sleep(time.Millisecond)
				}
			}
			if !free {
				fail("the lock is still held after request %s", msg)
			}
		}
		// many at once
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			tys := make([]int, 12)
			for k := range tys {
				tys[k] = r.Intn(4)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, ty := range tys {
					msg := fmt.Sprintf(`{"Type":%d,"Request":%s}`, ty, good2(ty))
					zzvAsk(path(0), []byte(msg))
				}
			}()
		}
		cases += 96
		wg.Wait()
		if b := bad.Load(); b != nil {
			fail("%v (concurrent requests)", b)
		}
		// policy reload and epoch updates
		done := make(chan bool, 16)
		sb.RunInBackground(func() {
			sb.HotReload(func() {
				check(zzvHeld(sb, 2), "policies are reloaded without holding the lock exclusively")
				select {
				case done <- true:
				default:
				}
			})
		})
		syscall.Kill(os.Getpid(), syscall.SIGUSR2)
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			fail("policies are not reloaded on SIGUSR2")
		}
		cases++
		if round%4 == 0 {
			ep := NewEpochTimer(1)
			upd := make(chan bool, 16)
			sb.RunInBackground(func() {
				sb.EpochUpdate(ep, func() {
					check(zzvHeld(sb, 2), "an epoch update runs without holding the lock exclusively")
					select {
					case upd <- true:
					default:
					}
				})
			})
			for k := 0; k < 2; k++ {
				select {
				case <-upd:
				case <-time.After(15 * time.Second):
					fail("no epoch update")
				}
			}
			cases++
		}
		free := false
		for k := 0; k < 500 && !free; k++ {
			free = zzvProbe(sb) == 0
			if !free {
				time.Sleep(time.Millisecond)
			}
		}
		if !free {
			fail("the lock is still held after an update")
		}
		if b := bad.Load(); b != nil {
			fail("%v", b)
		}
		sb.Shutdown()
		os.RemoveAll(dir)
	}
	fmt.Printf("CASES=%d\n", cases)
}

func good2(ty int) string {
	return []string{`{"Username":"a","Key":"AQ=="}`, `{"Username":"a"}`, `{"Username":"a","Epoch":0}`, `{"Username":"a","StartEpoch":0,"EndEpoch":0}`}[ty]
}
