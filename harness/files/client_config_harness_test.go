package client

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"testing"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
)

func zzvCSeed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func zzvCScale(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 10 * n
	}
	return n
}

// TestZZVClientConfig: saving, moving and loading client configurations, key
// and root files, in scratch directories.
func TestZZVClientConfig(t *testing.T) {
	r := rand.New(rand.NewSource(zzvCSeed()))
	cases := 0
	old, err := os.Getwd()
	if err != nil {
		t.Fatal(err)
	}
	defer os.Chdir(old)
	rb := func(n int) []byte {
		b := make([]byte, n)
		r.Read(b)
		return b
	}
	str := func(ep uint64) *protocol.DirSTR {
		return &protocol.DirSTR{
			SignedTreeRoot: &merkletree.SignedTreeRoot{TreeHash: rb(32), Epoch: ep, PreviousSTRHash: rb(32), Signature: rb(64)},
			Policies:       &protocol.Policies{Version: "v", HashID: "h", VrfPublicKey: vrf.PublicKey(rb(32)), EpochDeadline: 60},
		}
	}
	for round := 0; round < zzvCScale(200); round++ {
		dir, err := os.MkdirTemp("", "zzv")
		if err != nil {
			t.Fatal(err)
		}
		defer os.RemoveAll(dir)
		fail := func(f string, a ...interface{}) {
			fmt.Printf("REPLAY seed=%d round=%d: %s\n", zzvCSeed(), round, fmt.Sprintf(f, a...))
			os.Chdir(old)
			t.Fatal("stopped")
		}
		a, b := filepath.Join(dir, "a"), filepath.Join(dir, "b")
		os.MkdirAll(filepath.Join(a, "keys"), 0700)
		os.MkdirAll(filepath.Join(b, "keys"), 0700)
		os.Chdir(dir)
		place := func(name string) (string, string) {
			switch r.Intn(3) {
			case 0:
				return "keys/" + name, filepath.Join(b, "keys", name)
			case 1:
				return filepath.Join(dir, name), filepath.Join(dir, name)
			}
			return name, filepath.Join(b, name)
		}
		kp, kat := place("sign.pub")
		key, kok := rb(32), true
		switch r.Intn(6) {
		case 0:
			key, kok = rb([]int{0, 1, 31, 33, 64}[r.Intn(5)]), false
		case 1:
			key, kok = nil, false
		}
		if key != nil {
			os.WriteFile(kat, key, 0600)
		}
		rp, rat := place("init.str")
		root, rok := str(0), true
		data := []byte(nil)
		switch r.Intn(8) {
		case 0:
			root, rok = str([]uint64{1, 7, 1 << 63}[r.Intn(3)]), false
		case 1:
			data, rok = []byte([]string{"", "null", "{}", "[]", "3", `"x"`, `{"Epoch":0}`, `{"Policies":{}}`, `{"Epoch":0,"Policies":null}`, `{"Epoch":-1,"Policies":{}}`}[r.Intn(10)]), false
		case 2:
			rok = false
		case 3:
			d, _ := json.Marshal(root)
			data, rok = d[:r.Intn(len(d))], false
		}
		if rok || data != nil || root.Epoch != 0 {
			if data == nil {
				// the writer of the real root file
				if err := application.SaveSTR(rat, root); err != nil {
					fail("SaveSTR: %v", err)
				}
				was, _ := os.ReadFile(rat)
				if err := application.SaveSTR(rat, str(0)); err == nil {
					fail("saving a root over an existing file reports no error")
				}
				if now, _ := os.ReadFile(rat); !bytes.Equal(was, now) {
					fail("saving a root replaced an existing file")
				}
			} else {
				os.WriteFile(rat, data, 0600)
			}
		}
		from := []string{"a/config.toml", filepath.Join(a, "config.toml")}[r.Intn(2)]
		conf := NewConfig(from, "toml", kp, rp, "unix:///tmp/r", "tcp://127.0.0.1:3000")
		save := conf.Save
		if r.Intn(2) == 0 {
			save = func() error { return application.SaveConfig(from, conf) }
		}
		if err := save(); err != nil {
			fail("Save: %v", err)
		}
		was, _ := os.ReadFile("a/config.toml")
		conf.Address = "other"
		if err := save(); err == nil {
			fail("saving over an existing configuration reports no error")
		}
		if now, _ := os.ReadFile("a/config.toml"); !bytes.Equal(now, was) {
			fail("saving replaced an existing configuration")
		}
		if err := os.Rename("a/config.toml", "b/config.toml"); err != nil {
			t.Fatal(err)
		}
		file := []string{"b/config.toml", filepath.Join(b, "config.toml")}[r.Intn(2)]
		var got Config
		func() {
			defer func() {
				if p := recover(); p != nil {
					fail("loading panics: %v (root file %q)", p, data)
				}
			}()
			err = got.Load(file, "toml")
		}()
		cases++
		if err == nil != (kok && rok) {
			fail("key usable: %v (%d bytes), root usable: %v (epoch %d, contents %q), but Load says %v", kok, len(key), rok, root.Epoch, data, err)
		}
		k, kerr := application.LoadSigningPubKey(kp, file)
		if kerr == nil != kok || kerr == nil && !bytes.Equal(k, key) || kerr != nil && k != nil {
			fail("LoadSigningPubKey: %v, %v; the file has %d bytes", k, kerr, len(key))
		}
		s, serr := application.LoadInitSTR(rp, file)
		if serr == nil != rok || serr != nil && s != nil {
			fail("LoadInitSTR: %v, %v; root usable: %v (epoch %d, contents %q)", s, serr, rok, root.Epoch, data)
		}
		if serr == nil && (!bytes.Equal(s.Signature, root.Signature) || !bytes.Equal(s.TreeHash, root.TreeHash) || s.Policies.Version != "v") {
			fail("LoadInitSTR took another root")
		}
		if err == nil {
			if !bytes.Equal(got.SigningPubKey, key) || !bytes.Equal(got.InitSTR.Signature, root.Signature) {
				fail("Load took another key or root than the configuration names (%s, %s, file %s)", kp, rp, file)
			}
			if got.GetPath() != file {
				fail("configuration %s says its path is %s", file, got.GetPath())
			}
		}
		cases += 2
		os.Chdir(old)
		os.RemoveAll(dir)
	}
	fmt.Printf("CASES=%d\n", cases)
}
