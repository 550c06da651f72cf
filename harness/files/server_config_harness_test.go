package server

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"testing"

	"github.com/coniks-sys/coniks-go/application"
)

func zzvCSeed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func zzvCScale(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 10 * n
	}
	return n
}

// TestZZVServerConfig: saving, moving and loading server configurations and
// key files, in scratch directories.
func TestZZVServerConfig(t *testing.T) {
	r := rand.New(rand.NewSource(zzvCSeed()))
	cases := 0
	old, err := os.Getwd()
	if err != nil {
		t.Fatal(err)
	}
	defer os.Chdir(old)
	for round := 0; round < zzvCScale(150); round++ {
		dir, err := os.MkdirTemp("", "zzv")
		if err != nil {
			t.Fatal(err)
		}
		defer os.RemoveAll(dir)
		fail := func(f string, a ...interface{}) {
			fmt.Printf("REPLAY seed=%d round=%d: %s\n", zzvCSeed(), round, fmt.Sprintf(f, a...))
			os.Chdir(old)
			t.Fatal("stopped")
		}
		a, b := filepath.Join(dir, "a"), filepath.Join(dir, "b")
		os.MkdirAll(filepath.Join(a, "keys"), 0700)
		os.MkdirAll(filepath.Join(b, "keys"), 0700)
		os.Chdir(dir)
		mk := func(base, name string) (string, []byte, bool) {
			// where the configuration says the key is, and what is there
			spec, at := name, filepath.Join(base, name)
			switch r.Intn(3) {
			case 0:
				spec, at = "keys/"+name, filepath.Join(base, "keys", name)
			case 1:
				spec, at = filepath.Join(dir, name), filepath.Join(dir, name)
			}
			n, ok := 64, true
			switch r.Intn(8) {
			case 0:
				n, ok = []int{0, 1, 32, 63, 65, 96, 128}[r.Intn(7)], false
			case 1:
				return spec, nil, false // no file
			case 2:
				if r.Intn(3) == 0 {
					os.Mkdir(at, 0700)
					return spec, nil, false
				}
			}
			k := make([]byte, n)
			r.Read(k)
			if err := os.WriteFile(at, k, 0600); err != nil {
				t.Fatal(err)
			}
			if spec == name && r.Intn(2) == 0 {
				// the same name where the process runs: must not be used
				os.WriteFile(filepath.Join(dir, name), make([]byte, 64), 0600)
			}
			return spec, k, ok
		}
		sp, sk, sok := mk(b, "sign.priv")
		vp, vk, vok := mk(b, "vrf.priv")
		addrs := []*Address{
			{ServerAddress: &application.ServerAddress{Address: "unix:///tmp/x"}, AllowRegistration: true},
			{ServerAddress: &application.ServerAddress{Address: "tcp://127.0.0.1:3000", TLSCertPath: "server.pem", TLSKeyPath: filepath.Join(dir, "server.key")}},
		}
		from := []string{"a/config.toml", filepath.Join(a, "config.toml")}[r.Intn(2)]
		conf := NewConfig(from, "toml", addrs, &application.LoggerConfig{Environment: "production", Path: "log"},
			10, &Policies{EpochDeadline: 60, SignKeyPath: sp, VRFKeyPath: vp}, "init.str")
		if err := conf.Save(); err != nil {
			fail("Save: %v", err)
		}
		first, _ := os.ReadFile("a/config.toml")
		conf.LoadedHistoryLength = 11
		if err := conf.Save(); err == nil {
			fail("saving over an existing configuration reports no error")
		}
		if now, _ := os.ReadFile("a/config.toml"); !bytes.Equal(now, first) {
			fail("saving replaced an existing configuration")
		}
		if err := os.Rename("a/config.toml", "b/config.toml"); err != nil {
			t.Fatal(err)
		}
		file := []string{"b/config.toml", filepath.Join(b, "config.toml")}[r.Intn(2)]
		base := filepath.Dir(file)
		var got Config
		err = got.Load(file, "toml")
		cases++
		if err == nil != (sok && vok) {
			fail("signing key usable: %v (%d bytes), VRF key usable: %v (%d bytes), but Load says %v", sok, len(sk), vok, len(vk), err)
		}
		if err == nil {
			if !bytes.Equal(got.Policies.signKey, sk) || !bytes.Equal(got.Policies.vrfKey, vk) {
				fail("Load took other keys than those named in the configuration (%s, %s, file %s)", sp, vp, file)
			}
			if got.GetPath() != file {
				fail("configuration %s says its path is %s", file, got.GetPath())
			}
			if p := got.Addresses[1].TLSCertPath; p != filepath.Join(base, "server.pem") {
				fail("the certificate path server.pem became %s (file %s)", p, file)
			}
			if p := got.Addresses[1].TLSKeyPath; p != filepath.Join(dir, "server.key") {
				fail("the absolute key path became %s", p)
			}
			if p := got.Logger.Path; p != filepath.Join(base, "log") {
				fail("the log path became %s (file %s)", p, file)
			}
		}
		// broken configurations
		broken := []string{"", "x", "[policies]\n", "[logger]\n", "policies = 3\n", "[[addresses]]\n[policies]\n[logger]\n", "addresses = [3]\n"}[r.Intn(7)]
		os.WriteFile("b/broken.toml", []byte(broken), 0600)
		for _, f := range []string{"b/broken.toml", "b/none.toml", "b"} {
			var c Config
			cases++
			func() {
				defer func() {
					if p := recover(); p != nil {
						fail("loading %s (%q) panics: %v", f, broken, p)
					}
				}()
				if err := c.Load(f, "toml"); err == nil {
					fail("loading %s (%q) reports no error", f, broken)
				}
			}()
		}
		os.Chdir(old)
		os.RemoveAll(dir)
	}
	fmt.Printf("CASES=%d\n", cases)
}
