package files

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/vivint/rothko/database/files/internal/meta"
)

// a stored value
type vhVal struct {
	start, end int64
	data       []byte
	at         int // first slot
}

func (v vhVal) String() string { return fmt.Sprintf("[%d,%d)x%d", v.start, v.end, len(v.data)) }

// one data file of the model: its shape and values, oldest first
type vhFile struct {
	num, size, cap, used int
	vals                 []vhVal
}

// vhStore is a metric on disk and the model of what it has to hold.
type vhStore struct {
	h     *vh
	key   string
	dir   string
	name  string
	opts  fileCacheOptions
	max   int
	fch   *fileCache
	files []vhFile
	log   []string
	tick  int64
	tag   byte
}

func (s *vhStore) logf(format string, args ...interface{}) {
	s.log = append(s.log, fmt.Sprintf(format, args...))
}

func (s *vhStore) desc() string {
	l := s.log
	if len(l) > 45 {
		l = append(append([]string{}, l[0]), append([]string{fmt.Sprintf("...%d steps...", len(l)-44)}, l[len(l)-44:]...)...)
	}
	return strings.Join(l, "; ")
}

func (s *vhStore) fail(format string, args ...interface{}) {
	s.h.fail(s.key, "%s AFTER %s", fmt.Sprintf(format, args...), s.desc())
}

func vhOpts(h *vh) fileCacheOptions {
	o := fileCacheOptions{
		Handles: h.r.Intn(5),
		Size:    80 + h.r.Intn(40),
		Cap:     1 + h.r.Intn(6),
	}
	switch h.r.Intn(12) {
	case 0:
		o.Size = 100 + h.r.Intn(900)
	case 1:
		o.Cap = 1 + h.r.Intn(30)
	case 2:
		o.Cap = 1
	}
	return o
}

func vhOpen(h *vh, key string) *vhStore {
	s := &vhStore{h: h, key: key, dir: h.dir(), name: "a.metric", max: h.r.Intn(5), opts: vhOpts(h)}
	s.tick = 1 + int64(h.r.Intn(5))
	if h.r.Intn(10) == 0 {
		s.tick = -int64(h.r.Intn(100))
	}
	s.fch = newFileCache(s.opts)
	s.logf("new store size=%d cap=%d handles=%d files=%d", s.opts.Size, s.opts.Cap, s.opts.Handles, s.max)
	return s
}

func (s *vhStore) close() {
	s.fch.Close()
	os.RemoveAll(s.dir)
}

func (s *vhStore) reopen(change bool) {
	s.fch.Close()
	if change {
		s.opts = vhOpts(s.h)
		s.max = s.h.r.Intn(5)
	} else {
		s.opts.Handles = s.h.r.Intn(5)
	}
	s.fch = newFileCache(s.opts)
	s.logf("reopen size=%d cap=%d handles=%d files=%d", s.opts.Size, s.opts.Cap, s.opts.Handles, s.max)
}

func (s *vhStore) metric(ro bool) *metric {
	m, err := newMetric(ctxT, metricOptions{fch: s.fch, dir: s.dir, name: s.name, max: s.max, ro: ro})
	if err != nil {
		if ro && len(s.files) == 0 {
			return nil
		}
		s.fail("opening the metric (read only %v): %v", ro, err)
		return nil
	}
	return m
}

var ctxT = context.Background()

func vhRecs(n, size int) int {
	c := size - 24
	if n == 0 {
		return 1
	}
	return (n + c - 1) / c
}

func (s *vhStore) payload() []byte {
	n := s.h.r.Intn(3 * s.opts.Size)
	switch s.h.r.Intn(8) {
	case 0:
		n = s.h.r.Intn(s.opts.Size * (s.opts.Cap + 2))
	case 1:
		n = (1 + s.h.r.Intn(s.opts.Cap+1)) * (s.opts.Size - 24)
		n += s.h.r.Intn(3) - 1
	case 2:
		n = s.h.r.Intn(3)
	case 3:
		n = s.opts.Size - 24
	}
	b := make([]byte, n)
	s.tag++
	for i := range b {
		b[i] = byte(s.h.r.Intn(256))
		if s.h.r.Intn(3) == 0 {
			b[i] = s.tag
		}
	}
	return b
}

// newest is the end of the newest value, if there is one.
func (s *vhStore) newest() (int64, bool) {
	for i := len(s.files) - 1; i >= 0; i-- {
		if v := s.files[i].vals; len(v) > 0 {
			return v[len(v)-1].end, true
		}
	}
	return 0, false
}

// write does one write and compares its outcome with the model.
func (s *vhStore) write(m *metric) {
	data := s.payload()
	end := s.tick + int64(s.h.r.Intn(4))
	if s.h.r.Intn(7) == 0 {
		end = s.tick - int64(s.h.r.Intn(6))
	}
	if s.h.r.Intn(60) == 0 {
		end = 0
	}
	start := end - int64(s.h.r.Intn(5))
	if s.h.r.Intn(20) == 0 {
		start = end + int64(s.h.r.Intn(5))
	}
	if s.h.r.Intn(12) == 0 {
		start = 0
	}
	s.writeVal(m, start, end, data)
}

func (s *vhStore) writeVal(m *metric, start, end int64, data []byte) {
	s.logf("Write(%d,%d,%d bytes)", start, end, len(data))
	keep := append([]byte(nil), data...)
	var ok bool
	var err error
	if !s.h.noPanic(s.key, s.desc, func() { ok, err = m.Write(ctxT, start, end, data) }) {
		return
	}
	s.logf("=%v,%v", ok, err != nil)
	if !bytes.Equal(keep, data) {
		s.fail("Write changed the caller's data")
	}
	if len(s.files) == 0 {
		s.files = append(s.files, vhFile{num: 1, size: s.opts.Size, cap: s.opts.Cap})
	}
	// trailing files without values may be dropped
	for len(s.files) > 1 && len(s.files[len(s.files)-1].vals) == 0 {
		s.files = s.files[:len(s.files)-1]
	}
	if last, some := s.newest(); some && last >= end {
		if ok || err != nil {
			s.fail("Write of end %d after end %d gave ok=%v err=%v, want a refusal", end, last, ok, err)
		}
		return
	}
	f := &s.files[len(s.files)-1]
	if nr := vhRecs(len(data), f.size); f.used+nr > f.cap {
		if vhRecs(len(data), s.opts.Size) > s.opts.Cap {
			if ok || err == nil {
				s.fail("Write of a value that fits no file gave ok=%v err=%v", ok, err)
			}
			return
		}
		if s.max > 0 && len(s.files)-1 >= s.max {
			s.files = s.files[1:]
		}
		s.files = append(s.files, vhFile{num: f.num + 1, size: s.opts.Size, cap: s.opts.Cap})
		f = &s.files[len(s.files)-1]
	}
	if !ok || err != nil {
		s.fail("Write of a newer value that fits gave ok=%v err=%v", ok, err)
		return
	}
	f.used += vhRecs(len(data), f.size)
	f.vals = append(f.vals, vhVal{start, end, keep, f.cap - f.used})
	s.tick = end + 1
}

// want are the values before end, newest first.
func (s *vhStore) want(end int64) (out []vhVal) {
	for i := len(s.files) - 1; i >= 0; i-- {
		vs := s.files[i].vals
		for j := len(vs) - 1; j >= 0; j-- {
			if vs[j].end < end {
				out = append(out, vs[j])
			}
		}
	}
	return out
}

func (s *vhStore) read(m *metric) {
	end := int64(1<<63 - 1)
	if s.h.r.Intn(3) > 0 {
		end = s.tick - int64(s.h.r.Intn(30))
	}
	want := s.want(end)
	stop, stopErr := -1, error(nil)
	if s.h.r.Intn(3) == 0 {
		stop = s.h.r.Intn(len(want) + 1)
		if s.h.r.Intn(2) == 0 {
			stopErr = errors.New("stop here")
		}
	}
	ctx, cancel := context.WithCancel(ctxT)
	defer cancel()
	kill := -1
	if s.h.r.Intn(8) == 0 {
		kill = s.h.r.Intn(len(want) + 1)
	}
	s.logf("Read(%d) stop=%d,%v cancel=%d", end, stop, stopErr != nil, kill)
	var buf []byte
	if s.h.r.Intn(2) == 0 {
		buf = make([]byte, s.h.r.Intn(300))
	}
	n := 0
	var err error
	s.h.noPanic(s.key, s.desc, func() {
		err = m.Read(ctx, end, buf, func(_ context.Context, st, en int64, data []byte) (bool, error) {
			if n >= len(want) {
				s.fail("Read(%d) gave value %d of %d: [%d,%d)x%d", end, n, len(want), st, en, len(data))
				return false, nil
			}
			w := want[n]
			if st != w.start || en != w.end || !bytes.Equal(data, w.data) {
				s.fail("Read(%d) gave [%d,%d)x%d as value %d, want %v (bytes equal: %v)", end, st, en, len(data), n, w, bytes.Equal(data, w.data))
				return false, nil
			}
			n++
			if n-1 == kill {
				cancel()
			}
			if n-1 == stop {
				return false, stopErr
			}
			return true, nil
		})
	})
	if s.h.bad > 0 {
		return
	}
	total, wantErr := len(want), error(nil)
	if kill >= 0 && kill < total {
		total, wantErr = kill+1, context.Canceled
	}
	if stop >= 0 && stop < total {
		total, wantErr = stop+1, stopErr
	}
	if n != total || err != wantErr {
		s.fail("Read(%d) gave %d values and error %v, want %d and %v", end, n, err, total, wantErr)
	}
}

func (s *vhStore) readLast(m *metric) {
	want := s.want(1<<63 - 1)
	s.logf("ReadLast")
	var st, en int64
	var data []byte
	var err error
	s.h.noPanic(s.key, s.desc, func() { st, en, data, err = m.ReadLast(ctxT, nil) })
	if err != nil {
		s.fail("ReadLast: %v", err)
	} else if len(want) == 0 {
		if st != 0 || en != 0 || data != nil {
			s.fail("ReadLast gave [%d,%d)x%d, want nothing", st, en, len(data))
		}
	} else if w := want[0]; st != w.start || en != w.end || !bytes.Equal(data, w.data) {
		s.fail("ReadLast gave [%d,%d)x%d, want %v", st, en, len(data), w)
	}
}

// dataFiles lists the numbers of the data files, in increasing order.
func (s *vhStore) dataFiles() (out []int) {
	ds, _ := os.ReadDir(filepath.Join(s.dir, "a", "metric"))
	for _, d := range ds {
		var n int
		if _, err := fmt.Sscanf(d.Name(), "%d.data", &n); err == nil {
			out = append(out, n)
		}
	}
	sort.Ints(out)
	return out
}

func (s *vhStore) checkFiles() {
	var want []int
	for _, f := range s.files {
		want = append(want, f.num)
	}
	if got := s.dataFiles(); fmt.Sprint(got) != fmt.Sprint(want) {
		s.fail("data files %v, want %v", got, want)
	}
}

// onFile opens the data file of the model's file i and passes it to fn.
func (s *vhStore) onFile(i int, fn func(f file)) {
	path := fmt.Sprintf("%s/a/metric/%d.data", s.dir, s.files[i].num)
	f, err := openFile(ctxT, path)
	if err != nil {
		s.fail("opening %s: %v", path, err)
		return
	}
	fn(f)
	f.Close()
}

// stale changes what the metadata of a file says apart from the record size.
func (s *vhStore) stale() {
	if len(s.files) == 0 {
		return
	}
	i := s.h.r.Intn(len(s.files))
	if s.h.r.Intn(2) == 0 {
		i = len(s.files) - 1
	}
	s.onFile(i, func(f file) {
		m, err := f.Metadata(ctxT)
		if err != nil {
			s.fail("metadata: %v", err)
			return
		}
		m.Head = s.h.r.Intn(f.cap+3) - 2
		switch s.h.r.Intn(8) {
		case 0:
			m.Head = 1 << 40
		case 1:
			m.Head = -1 << 40
		}
		s.logf("file %d: head hint %d", s.files[i].num, m.Head)
		if err := f.SetMetadata(ctxT, m); err != nil {
			s.fail("set metadata: %v", err)
		}
	})
}

// twin keeps the metadata of before a write, as if it had been lost in a crash.
func (s *vhStore) crashed(m *metric) {
	if len(s.files) == 0 {
		return
	}
	i := len(s.files) - 1
	var old meta.Metadata
	num := s.files[i].num
	s.onFile(i, func(f file) { old, _ = f.Metadata(ctxT) })
	if s.h.bad > 0 {
		return
	}
	s.write(m)
	if s.h.bad > 0 {
		return
	}
	for j := range s.files {
		if s.files[j].num == num {
			s.logf("metadata of file %d lost", num)
			s.onFile(j, func(f file) {
				if err := f.SetMetadata(ctxT, old); err != nil {
					s.fail("set metadata: %v", err)
				}
			})
		}
	}
}

// damage breaks slots of the values with odd payload tags and takes these
// values out of the model. Only values that are not the newest are hit.
func (s *vhStore) damage() {
	if len(s.files) == 0 {
		return
	}
	i := s.h.r.Intn(len(s.files))
	mf := &s.files[i]
	if len(mf.vals) < 2 {
		return
	}
	k := s.h.r.Intn(len(mf.vals) - 1)
	at := mf.vals[k].at
	nr := vhRecs(len(mf.vals[k].data), mf.size)
	kind := s.h.r.Intn(3)
	s.logf("file %d: damage %d of value %v in slots %d+%d", mf.num, kind, mf.vals[k], at, nr)
	s.onFile(i, func(f file) {
		n := at + s.h.r.Intn(nr)
		switch kind {
		case 0: // a byte of the record, but not the version
			off := f.offset(n)
			used := 24 + (len(mf.vals[k].data))
			if used > f.size || nr > 1 {
				used = 24
			}
			p := 1 + s.h.r.Intn(used-1)
			f.slice()[off+p] ^= byte(1 + s.h.r.Intn(255))
		case 1: // an unusual kind with a good checksum
			r, err := f.Record(ctxT, n)
			if err != nil {
				s.fail("record %d: %v", n, err)
				return
			}
			r.data = append([]byte(nil), r.data...)
			old := r.kind
			for r.kind == old || r.kind == recordKind_complete {
				r.kind = recordKind([]int{0, 1, 2, 3, 4, 5, 17, 255}[s.h.r.Intn(8)])
			}
			if r.kind == recordKind_begin && old == recordKind_complete {
				r.kind = 99
			}
			if nr > 1 && (r.kind == recordKind_begin || r.kind == recordKind_continue || r.kind == recordKind_end) {
				// would still read as a shorter value
				r.kind = 99
			}
			f.SetRecord(ctxT, n, r)
		case 2: // half of the value was never written
			r := record{version: recordVersion, kind: 77}
			f.SetRecord(ctxT, n, r)
		}
	})
	mf.vals = append(append([]vhVal{}, mf.vals[:k]...), mf.vals[k+1:]...)
}

func vhRunStore(h *vh, key string, steps int, stale, damage bool) {
	s := vhOpen(h, key)
	defer s.close()
	n := 1 + h.r.Intn(steps)
	var m *metric
	damaged := false
	for i := 0; i < n && h.bad == 0; i++ {
		if m == nil || h.r.Intn(3) == 0 {
			m = s.metric(false)
			if m == nil {
				return
			}
			if len(s.files) == 0 {
				s.files = append(s.files, vhFile{num: 1, size: s.opts.Size, cap: s.opts.Cap})
			}
		}
		switch k := h.r.Intn(40); {
		case k < 22:
			if damaged {
				continue
			}
			s.write(m)
			if stale && h.bad == 0 && k < 4 {
				s.crashed(m)
			}
		case k < 30:
			s.read(m)
		case k < 32:
			s.readLast(m)
		case k < 34:
			s.reopen(h.r.Intn(2) == 0)
			m = nil
		case k < 37:
			if stale {
				s.stale()
			}
		case k < 38:
			if r := s.metric(true); r != nil && h.bad == 0 {
				s.read(r)
			}
		case k < 40:
			if damage && i > n/2 {
				damaged = true
				s.damage()
			}
		}
		if h.bad == 0 && !stale && !damaged {
			s.checkFiles()
		}
	}
	if m != nil && h.bad == 0 {
		s.read(m)
		s.readLast(m)
		s.checkFiles()
	}
	h.did("%s", strings.Join(s.log, ";"))
}

func TestVerifC08(t *testing.T) {
	h := vhNew(t, 100)
	for h.more(200) {
		vhRunStore(h, "write", 60, h.r.Intn(3) == 0, false)
	}
	h.done()
}

func TestVerifC09(t *testing.T) {
	h := vhNew(t, 100)
	for h.more(200) {
		vhRunStore(h, "read", 60, h.r.Intn(3) == 0, h.r.Intn(2) == 0)
	}
	h.done()
}

func TestVerifC10(t *testing.T) {
	h := vhNew(t, 100)
	for h.more(200) {
		s := vhOpen(h, "retention")
		s.opts.Cap = 1 + h.r.Intn(3)
		s.fch.Close()
		s.fch = newFileCache(s.opts)
		s.logf("cap=%d", s.opts.Cap)
		n := 1 + h.r.Intn(50)
		for i := 0; i < n && h.bad == 0; i++ {
			if h.r.Intn(12) == 0 {
				s.reopen(h.r.Intn(2) == 0)
			}
			m := s.metric(false)
			if m == nil {
				break
			}
			before := s.dataFiles()
			for j := 1 + h.r.Intn(3); j > 0 && h.bad == 0; j-- {
				s.write(m)
				after := s.dataFiles()
				if len(after) > len(before) && len(before) > s.max && s.max > 0 {
					s.fail("a new file left %d files, %d before, with %d historical files configured", len(after), len(before), s.max)
				}
				before = after
				s.checkFiles()
			}
			if h.bad == 0 {
				s.read(m)
			}
		}
		s.close()
		h.did("%s", strings.Join(s.log, ";"))
	}
	h.done()
}

func TestVerifC07(t *testing.T) {
	h := vhNew(t, 100)
	for h.more(500) {
		capn := 1 + h.r.Intn(12)
		if h.r.Intn(60) == 0 {
			capn = 1 + h.r.Intn(3000)
		}
		size := 80 + h.r.Intn(40)
		dir := h.dir()
		f, err := createFile(ctxT, dir+"/f", size, capn)
		if err != nil {
			h.fail("head", "createFile(%d, %d): %v", size, capn, err)
			break
		}
		log := fmt.Sprintf("size %d cap %d", size, capn)
		clean := h.r.Intn(4) > 0
		want := h.r.Intn(capn+1) - 1
		if clean {
			for i := want + 1; i < capn; i++ {
				f.SetRecord(ctxT, i, record{version: recordVersion, size: 1, data: []byte{byte(i)}})
			}
			log += fmt.Sprintf(" records after %d", want)
		} else {
			for i := 0; i < capn; i++ {
				if h.r.Intn(2) == 0 {
					f.SetRecord(ctxT, i, record{version: recordVersion, size: 1, data: []byte{byte(i)}})
					log += fmt.Sprintf(" record %d", i)
				}
			}
		}
		for j := 0; j < 6 && h.bad == 0; j++ {
			hint := h.r.Intn(capn+6) - 3
			switch h.r.Intn(12) {
			case 3:
				hint = want - 600 + h.r.Intn(1200)
			case 0:
				hint = 1<<62 + h.r.Intn(5)
			case 1:
				hint = -1<<62 - h.r.Intn(5)
			case 2:
				hint = capn
			}
			if err := f.SetMetadata(ctxT, meta.Metadata{Size_: size, Head: hint}); err != nil {
				h.fail("head", "SetMetadata: %v", err)
			}
			was := append([]byte(nil), f.slice()...)
			var got int
			var gerr error
			desc := func() string { return fmt.Sprintf("%s, hint %d", log, hint) }
			if !h.within(5*time.Second, "head", desc, func() { got, gerr = getHeadPointer(ctxT, f) }) {
				return
			}
			if gerr != nil || got < -1 || got >= capn || clean && got != want {
				h.fail("head", "head %d, error %v, want %d (clean %v) with %s", got, gerr, want, clean, desc())
			}
			if !bytes.Equal(was, f.slice()) {
				h.fail("head", "the file was modified with %s", desc())
			}
			h.did("%s", desc())
		}
		f.Close()
		os.RemoveAll(dir)
	}
	h.done()
}
