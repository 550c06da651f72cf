package utils

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
)

func zzvFSeed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func zzvFScale(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 10 * n
	}
	return n
}

// zzvSnap: every regular file below dir and its contents
func zzvSnap(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			m[p] = string(b)
		}
		return nil
	})
	return m
}

// TestZZVFiles: WriteFile against a snapshot of a scratch directory, and
// ResolvePath against its definition.
func TestZZVFiles(t *testing.T) {
	r := rand.New(rand.NewSource(zzvFSeed()))
	cases := 0
	for round := 0; round < zzvFScale(30); round++ {
		dir, err := os.MkdirTemp("", "zzv")
		if err != nil {
			t.Fatal(err)
		}
		defer os.RemoveAll(dir)
		fail := func(f string, a ...interface{}) {
			fmt.Printf("REPLAY seed=%d round=%d: %s\n", zzvFSeed(), round, fmt.Sprintf(f, a...))
			t.Fatal("stopped")
		}
		os.Mkdir(filepath.Join(dir, "d"), 0700)
		os.WriteFile(filepath.Join(dir, "full"), []byte("old contents"), 0600)
		os.WriteFile(filepath.Join(dir, "empty"), nil, 0600)
		os.WriteFile(filepath.Join(dir, "ro"), []byte("read only"), 0400)
		os.WriteFile(filepath.Join(dir, "noperm"), []byte("x"), 0)
		os.Symlink("full", filepath.Join(dir, "link"))
		os.Symlink("nowhere", filepath.Join(dir, "dangling"))
		names := []string{"full", "empty", "ro", "noperm", "d", "link", "dangling", "new", "new2", "d/new", "missing/new", "full/new", "", "."}
		for q := 0; q < 20; q++ {
			nm := names[r.Intn(len(names))]
			p := filepath.Join(dir, nm)
			buf := make([]byte, r.Intn(100))
			r.Read(buf)
			before := zzvSnap(dir)
			_, serr := os.Stat(p)
			err := WriteFile(p, buf, 0600)
			after := zzvSnap(dir)
			cases++
			for f, c := range before {
				if d, ok := after[f]; !ok || d != c {
					fail("WriteFile(%q) replaced the existing file %s", nm, f)
				}
			}
			if serr == nil && err == nil {
				fail("WriteFile(%q): the file exists, but no error is reported", nm)
			}
			if err == nil {
				b, rerr := os.ReadFile(p)
				if rerr != nil || !bytes.Equal(b, buf) {
					fail("WriteFile(%q) reports success, but the file does not hold the contents", nm)
				}
			}
			if serr != nil && err != nil && nm != "missing/new" && nm != "full/new" {
				fail("WriteFile(%q): %v", nm, err)
			}
		}
		os.RemoveAll(dir)
	}
	elems := []string{"a", "b.key", "..", ".", "x y", "deep/er", ""}
	pick := func() string {
		var s []string
		for i := r.Intn(4); i >= 0; i-- {
			s = append(s, elems[r.Intn(len(elems))])
		}
		p := strings.Join(s, "/")
		if r.Intn(3) == 0 {
			p = "/" + p
		}
		return p
	}
	for i := 0; i < zzvFScale(2000); i++ {
		f, o := pick(), pick()
		want := f
		if !strings.HasPrefix(f, "/") {
			d := "."
			if k := strings.LastIndex(o, "/"); k >= 0 {
				d = o[:k+1]
			}
			want = filepath.Clean(d + "/" + f)
			if d == "." {
				want = filepath.Clean("./" + f)
			}
		}
		got := ResolvePath(f, o)
		cases++
		if got != want {
			fmt.Printf("REPLAY seed=%d: ResolvePath(%q, %q) = %q, expected %q\n", zzvFSeed(), f, o, got, want)
			t.Fatal("stopped")
		}
	}
	fmt.Printf("CASES=%d\n", cases)
}
