package files

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"
)

var v5alpha = []string{".", ".", "..", "...", "/", "../", "/..", "%", "%2e", "%2f", "2e", "a", "b", ".data", "1.data", "\x00", "\xff", "etc", "é", "~", "\\"}

func v5name(h *vh) string {
	n := 1 + h.r.Intn(8)
	s := ""
	for i := 0; i < n; i++ {
		if h.r.Intn(12) == 0 {
			s += string([]byte{byte(h.r.Intn(256))})
		} else {
			s += v5alpha[h.r.Intn(len(v5alpha))]
		}
	}
	return s
}

func v5clean(d string) string {
	switch {
	case d == "":
		return "is empty"
	case strings.Contains(d, "."):
		return "contains a dot"
	case strings.HasPrefix(d, "/"), strings.HasSuffix(d, "/"):
		return "begins or ends with a separator"
	case strings.Contains(d, "//"):
		return "has an empty component"
	}
	return ""
}

func v5check(h *vh, name string) bool {
	h.did("%q", name)
	ok := true
	bad := func(key, f string, a ...interface{}) { ok = false; h.fail(key, f, a...) }
	h.within(10*time.Second, "panic", func() string { return fmt.Sprintf("metric %q", name) }, func() {
		d := string(metricToDir(nil, name))
		if why := v5clean(d); why != "" {
			bad("dir", "the directory %q of metric %q %s", d, name, why)
			return
		}
		num := h.r.Intn(2000) - 5
		base := []string{"", "/db", "db", "/a/b", "/tmp/x.y"}[h.r.Intn(5)]
		buf := []byte(nil)
		want := fmt.Sprintf("%s/%d.data", d, num)
		if got := string(metricToPath(buf, name, num)); got != want {
			bad("path", "metricToPath(%q, %d) = %q, want %q", name, num, got, want)
			return
		}
		var fb filenameBuf
		if h.r.Intn(2) == 0 {
			fb = make(filenameBuf, h.r.Intn(40), 40)
		}
		for i := 0; i < 2; i++ {
			dir := base + "/" + d
			if h.r.Intn(2) == 0 {
				dir += "/"
			}
			if got, want := fb.metricFilenameAt(dir, num+i), fmt.Sprintf("%s/%d.data", strings.TrimSuffix(dir, "/"), num+i); got != want {
				bad("filename", "metricFilenameAt(%q, %d) = %q, want %q", dir, num+i, got, want)
				return
			}
		}
	})
	return ok
}

func TestVerifPaths(t *testing.T) {
	h := vhNew(t, 60)
	defer h.done()
	syms := []byte{'.', '/', '%', 'a', '2', 'e', 0}
	var rec func(s []byte) bool
	rec = func(s []byte) bool {
		if len(s) > 0 && (!h.more(10000) || !v5check(h, string(s))) {
			return false
		}
		if len(s) == 5 {
			return true
		}
		for _, c := range syms {
			if !rec(append(s[:len(s):len(s)], c)) {
				return false
			}
		}
		return true
	}
	rec(nil)
	for h.more(0) && v5check(h, v5name(h)) {
	}
}

// the files really made lie below the database directory
func TestVerifContained(t *testing.T) {
	h := vhNew(t, 40)
	defer h.done()
	root := h.dir()
	defer os.RemoveAll(root)
	for h.more(200) {
		name := v5name(h)
		if strings.Contains(name, "\x00") {
			continue // no file name has a NUL byte
		}
		h.did("%q", name)
		if why := v5clean(string(metricToDir(nil, name))); why != "" {
			h.fail("dir", "the directory of metric %q %s", name, why)
			return
		}
		db := filepath.Join(root, "x", "db")
		fc := newFileCache(fileCacheOptions{Handles: 0, Size: 64, Cap: 2})
		dir := db
		if h.r.Intn(2) == 0 {
			dir += "/"
		}
		_, err := newMetric(context.Background(), metricOptions{fch: fc, dir: dir, name: name})
		fc.Close()
		if err != nil {
			h.fail("open", "metric %q: %v", name, err)
			return
		}
		found := 0
		filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				found++
				want := db + "/" + string(metricToDir(nil, name)) + "/1.data"
				if p != want {
					h.fail("outside", "metric %q made the file %q, want %q", name, p, want)
				}
			}
			return nil
		})
		if found != 1 {
			h.fail("files", "metric %q made %d files", name, found)
			return
		}
		os.RemoveAll(filepath.Join(root, "x"))
	}
}
