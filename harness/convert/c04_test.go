package files

import (
	"bytes"
	"fmt"
	"testing"
	"time"
)

var v4alpha = []string{".", ".", "..", "/", "%", "%2e", "%2f", "%25", "2e", "2", "e", "f", "5", "a", "b", ".data", "\x00", "\xff", " ", "%%", "é", "1", "A", "%2", "%2E", "\\", "-", "\n"}

func v4name(h *vh) string {
	n := 1 + h.r.Intn(8)
	s := ""
	for i := 0; i < n; i++ {
		switch h.r.Intn(12) {
		case 0:
			s += string([]byte{byte(h.r.Intn(256))})
		case 1:
			for k := h.r.Intn(5); k >= 0; k-- {
				s += "."
			}
		default:
			s += v4alpha[h.r.Intn(len(v4alpha))]
		}
	}
	return s
}

// v4all calls f for every string of up to n symbols.
func v4all(n int, f func(string) bool) {
	syms := []byte{'.', '/', '%', 'a', '2', 'e', 'f', '5', 0, 0xff}
	var rec func(s []byte) bool
	rec = func(s []byte) bool {
		if len(s) > 0 && !f(string(s)) {
			return false
		}
		if len(s) == n {
			return true
		}
		for _, c := range syms {
			if !rec(append(s[:len(s):len(s)], c)) {
				return false
			}
		}
		return true
	}
	rec(nil)
}

func v4check(h *vh, seen map[string]string, name string) bool {
	h.did("%q", name)
	ok := true
	bad := func(key, f string, a ...interface{}) { ok = false; h.fail(key, f, a...) }
	h.within(10*time.Second, "panic", func() string { return fmt.Sprintf("metric %q", name) }, func() {
		prefix := []byte("pre/fix")[:h.r.Intn(8)]
		buf := append(make([]byte, 0, h.r.Intn(40)), prefix...)
		out := metricToDir(buf, name)
		if !bytes.HasPrefix(out, prefix) {
			bad("prefix", "metricToDir(%q, %q) = %q does not extend its buffer", prefix, name, out)
			return
		}
		dir := string(out[len(prefix):])
		if fresh := string(metricToDir(nil, name)); fresh != dir {
			bad("context", "metricToDir(nil, %q) = %q but %q with a buffer", name, fresh, dir)
			return
		}
		if other, dup := seen[dir]; dup && other != name {
			bad("collision", "metrics %q and %q share the directory %q", other, name, dir)
			return
		}
		if len(seen) < 1000000 {
			seen[dir] = name
		}
		pre2 := append(make([]byte, 0, h.r.Intn(40)), []byte("x.y")[:h.r.Intn(4)]...)
		keep := string(pre2)
		back, err := dirToMetric(pre2, []byte(dir))
		if err != nil || string(back) != keep+name {
			bad("roundtrip", "metric %q is stored in directory %q, which reads back as %q, %v (after the prefix %q)", name, dir, back, err, keep)
			return
		}
	})
	return ok
}

func TestVerifDirSmall(t *testing.T) {
	h := vhNew(t, 60)
	defer h.done()
	seen := map[string]string{}
	v4all(6, func(s string) bool { return h.more(20000) && v4check(h, seen, s) })
}

func TestVerifDirRandom(t *testing.T) {
	h := vhNew(t, 25)
	defer h.done()
	seen := map[string]string{}
	for h.more(3000) && v4check(h, seen, v4name(h)) {
	}
}

// a directory name that is not one of ours never stands for another metric
func TestVerifDirArbitrary(t *testing.T) {
	h := vhNew(t, 15)
	defer h.done()
	for h.more(3000) {
		d := v4name(h)
		h.did("%q", d)
		h.within(10*time.Second, "panic", func() string { return fmt.Sprintf("directory %q", d) }, func() {
			name, err := dirToMetric(nil, []byte(d))
			if err != nil {
				return
			}
			if bytes.IndexByte([]byte(d), '.') >= 0 {
				h.fail("arbitrary", "directory %q with a dot is accepted as %q", d, name)
			}
		})
	}
}
