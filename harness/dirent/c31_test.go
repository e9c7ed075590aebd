package system

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"
)

type vEnt struct {
	ino    uint64
	reclen int
	name   []byte // up to reclen-19 bytes, raw
}

func (e vEnt) bytes() []byte {
	b := make([]byte, 19, e.reclen)
	for i := 0; i < 8; i++ {
		b[i] = byte(e.ino >> uint(8*i))
	}
	b[16], b[17] = byte(e.reclen), byte(e.reclen>>8)
	b[8], b[12], b[18] = 7, 9, 4
	b = append(b, e.name...)
	for len(b) < e.reclen {
		b = append(b, 0)
	}
	return b
}

func vName(h *vh, max int) []byte {
	names := []string{".", "..", "...", "a", "x.data", "0.data", ".a", "..a", "%2e", "a\x00", ".\x00", "..\x00b", "\x00", "\x00a", "a\x00b", "\xff\x80"}
	var n []byte
	if h.r.Intn(3) > 0 {
		n = []byte(names[h.r.Intn(len(names))])
	} else {
		n = make([]byte, h.r.Intn(max+1))
		for i := range n {
			n[i] = byte(1 + h.r.Intn(255))
		}
	}
	if len(n) > max {
		n = n[:max]
	}
	return n
}

// vWalk decodes a whole buffer the way PopulateMetrics does.
func vWalk(h *vh, buf []byte, desc func() string) (names [][]byte, ok bool) {
	ok = h.within(10*time.Second, "hang", desc, func() {
		// the capacity is cut so that any read past the end panics
		b := append(make([]byte, 0, len(buf)), buf...)
		b = b[:len(b):len(b)]
		for len(b) > 0 {
			rest, name, good := NextDirent(b)
			if len(rest) >= len(b) {
				h.fail("progress", "no progress: %d bytes left of %d on %s", len(rest), len(b), desc())
				return
			}
			if !bytes.Equal(rest, b[len(b)-len(rest):]) {
				h.fail("rest", "the rest is not the end of the buffer on %s", desc())
				return
			}
			if good {
				names = append(names, append([]byte{}, name...))
			}
			b = rest
		}
	})
	return names, ok && h.bad == 0
}

func TestVerifWellFormed(t *testing.T) {
	h := vhNew(t, 40)
	defer h.done()
	for h.more(2000) {
		var buf []byte
		var want []string
		var tr []string
		for i := h.r.Intn(6); i >= 0; i-- {
			e := vEnt{ino: uint64(1 + h.r.Intn(5))}
			switch h.r.Intn(6) {
			case 0:
				e.ino = 0
			case 1:
				e.ino = 1 << uint(h.r.Intn(64))
			}
			e.reclen = 20 + h.r.Intn(40)
			if h.r.Intn(8) == 0 {
				e.reclen = 200 + h.r.Intn(400)
			}
			e.name = vName(h, e.reclen-20)
			if h.r.Intn(6) == 0 {
				e.name = vName(h, e.reclen-19) // not NUL terminated when full
			}
			n := e.name
			if k := bytes.IndexByte(n, 0); k >= 0 {
				n = n[:k]
			}
			if e.ino != 0 && string(n) != "." && string(n) != ".." {
				want = append(want, string(n))
			}
			buf = append(buf, e.bytes()...)
			tr = append(tr, fmt.Sprintf("{ino %d reclen %d name %q}", e.ino, e.reclen, e.name))
		}
		desc := func() string { return strings.Join(tr, " ") }
		got, ok := vWalk(h, buf, desc)
		if !ok {
			return
		}
		var g []string
		for _, x := range got {
			g = append(g, string(x))
		}
		if fmt.Sprintf("%q", g) != fmt.Sprintf("%q", want) {
			h.fail("names", "entries %s decode to %q, want %q", desc(), g, want)
		}
		h.did("%s", desc())
	}
}

func TestVerifArbitrary(t *testing.T) {
	h := vhNew(t, 50)
	defer h.done()
	for h.more(2000) {
		buf := make([]byte, h.r.Intn(64))
		h.r.Read(buf)
		if h.r.Intn(2) == 0 {
			e := vEnt{ino: 1, reclen: 19 + h.r.Intn(20)}
			e.name = vName(h, e.reclen-19)
			buf = append(e.bytes(), buf...)
			for i := h.r.Intn(4); i > 0 && len(buf) > 0; i-- {
				buf[h.r.Intn(len(buf))] = byte(h.r.Intn(256))
			}
			buf = buf[:h.r.Intn(len(buf)+1)]
		}
		if len(buf) > 18 && h.r.Intn(3) > 0 {
			l := []int{0, 1, 8, 16, 17, 18, 19, 20, len(buf) - 1, len(buf), len(buf) + 1, 65535}[h.r.Intn(12)]
			buf[16], buf[17] = byte(l), byte(l>>8)
		}
		desc := func() string { return fmt.Sprintf("buffer %q", buf) }
		if _, ok := vWalk(h, buf, desc); !ok {
			return
		}
		h.did("%q", buf)
	}
}

func TestVerifRealDirectory(t *testing.T) {
	h := vhNew(t, 10)
	defer h.done()
	for h.more(3) {
		d := h.dir()
		var want []string
		for i := h.r.Intn(300); i > 0; i-- {
			n := fmt.Sprintf("%s%d", strings.Repeat("n", h.r.Intn(60)), i)
			if ioutil.WriteFile(filepath.Join(d, n), nil, 0600) == nil {
				want = append(want, n)
			}
		}
		fd, err := Open(append([]byte(d), 0))
		if err != nil {
			h.fail("open", "Open of a directory: %v", err)
			return
		}
		var got []string
		buf := make([]byte, 4096)
		for {
			n, err := syscall.ReadDirent(int(fd), buf)
			if err != nil || n <= 0 {
				break
			}
			names, ok := vWalk(h, buf[:n], func() string { return "a directory of " + fmt.Sprint(len(want)) })
			if !ok {
				return
			}
			for _, x := range names {
				got = append(got, string(x))
			}
		}
		Close(fd)
		sort.Strings(want)
		sort.Strings(got)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			h.fail("directory", "directory with %d files lists %d: %q", len(want), len(got), got)
		}
		os.RemoveAll(d)
		h.did("%v", want)
	}
}
