package files

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/vivint/rothko/database/files/internal/meta"
)

var ctxT = context.Background()

// vhMapped counts the mappings of files below dir and sums their lengths.
func vhMapped(dir string) (n int, bytes int, at map[uintptr]bool) {
	at = map[uintptr]bool{}
	b, err := os.ReadFile("/proc/self/maps")
	if err != nil {
		return -1, 0, at
	}
	for _, l := range strings.Split(string(b), "\n") {
		fs := strings.Fields(l)
		if len(fs) < 6 || !strings.HasPrefix(fs[5], dir+"/") {
			continue
		}
		p := strings.Split(fs[0], "-")
		lo, _ := strconv.ParseUint(p[0], 16, 64)
		hi, _ := strconv.ParseUint(p[1], 16, 64)
		n++
		bytes += int(hi - lo)
		at[uintptr(lo)] = true
	}
	return n, bytes, at
}

func vhPages(n int) int { return (n + 4095) / 4096 * 4096 }

func vhRawRecord(version, kind byte, data []byte) []byte {
	b := make([]byte, 24+len(data))
	b[0], b[1] = version, kind
	binary.BigEndian.PutUint16(b[18:], uint16(len(data)))
	copy(b[24:], data)
	c := crc32.Update(0, crc32.MakeTable(crc32.Castagnoli), b[:20])
	c = crc32.Update(c, crc32.MakeTable(crc32.Castagnoli), data)
	binary.BigEndian.PutUint32(b[20:], c)
	return b
}

func vhUvarint(v uint64) []byte {
	b := make([]byte, 10)
	return b[:binary.PutUvarint(b, v)]
}

// slots: every accessor against a plain byte array
func TestVerifC06Slots(t *testing.T) {
	h := vhNew(t, 50)
	for h.more(100) {
		capn, size := 1+h.r.Intn(8), 71+h.r.Intn(60)
		if h.r.Intn(8) == 0 {
			capn, size = 1+h.r.Intn(60), 71+h.r.Intn(500)
		}
		dir := h.dir()
		log := fmt.Sprintf("size %d cap %d", size, capn)
		desc := func() string { return log }
		f, err := createFile(ctxT, dir+"/f", size, capn)
		if err != nil {
			h.fail("slots", "createFile: %v with %s", err, log)
			break
		}
		if f.Capacity() != capn || f.Size() != size || f.len != size*(capn+1) {
			h.fail("slots", "created capacity %d size %d length %d with %s", f.Capacity(), f.Size(), f.len, log)
			break
		}
		if m, err := f.Metadata(ctxT); err != nil || m != (meta.Metadata{Size_: size, Head: capn - 1}) {
			h.fail("slots", "metadata %+v %v with %s", m, err, log)
		}
		model := append([]byte(nil), f.slice()...)
		recs := map[int]record{}
		cur := meta.Metadata{Size_: size, Head: capn - 1}
		for i := 0; i < 40 && h.bad == 0; i++ {
			n := h.r.Intn(capn+4) - 2
			switch h.r.Intn(20) {
			case 0:
				n = 1<<62 + h.r.Intn(3)
			case 1:
				n = -1 << 63
			case 2:
				n = capn
			}
			in := 0 <= n && n < capn
			if h.r.Intn(2) == 0 && in {
				n = h.r.Intn(capn)
			}
			switch h.r.Intn(6) {
			case 0, 1, 2:
				l := h.r.Intn(size - 24 + 2)
				if h.r.Intn(3) == 0 {
					l = size - 24 - h.r.Intn(2)
				}
				r := record{version: recordVersion, kind: recordKind(h.r.Intn(7)), start: h.r.Int63() - h.r.Int63(), end: h.r.Int63() - h.r.Int63(), size: uint16(l), data: make([]byte, l)}
				h.r.Read(r.data)
				log += fmt.Sprintf("; SetRecord(%d, %d bytes)", n, l)
				var err error
				h.noPanic("slots", desc, func() { err = f.SetRecord(ctxT, n, r) })
				if want := in && 24+l <= size; (err == nil) != want {
					h.fail("slots", "error %v, want success %v with %s", err, want, log)
				} else if want {
					off := (n + 1) * size
					got := f.slice()
					if bytes.Equal(got[off:off+24], model[off:off+24]) && len(r.data) > 4 {
						h.fail("slots", "nothing was written with %s", log)
					}
					copy(model[off:off+24+l], got[off:off+24+l])
					recs[n] = r
				}
			case 3:
				log += fmt.Sprintf("; Record(%d)", n)
				var r record
				var err error
				h.noPanic("slots", desc, func() { r, err = f.Record(ctxT, n) })
				w, some := recs[n]
				if (err == nil) != some {
					h.fail("slots", "error %v, want success %v with %s", err, some, log)
				} else if some && (r.version != w.version || r.kind != w.kind || r.start != w.start || r.end != w.end || !bytes.Equal(r.data, w.data)) {
					h.fail("slots", "record %+v, want %+v with %s", r, w, log)
				}
			case 4:
				log += fmt.Sprintf("; HasRecord(%d)", n)
				var ok bool
				h.noPanic("slots", desc, func() { ok = f.HasRecord(ctxT, n) })
				if _, want := recs[n]; ok != want {
					h.fail("slots", "%v, want %v with %s", ok, want, log)
				}
			case 5:
				m := meta.Metadata{Size_: size, Head: h.r.Intn(capn+2) - 1, Start: h.r.Int63(), End: h.r.Int63(), SmallestEnd: h.r.Int63()}
				if h.r.Intn(2) == 0 {
					m.Start, m.SmallestEnd = 0, -1
				}
				log += fmt.Sprintf("; SetMetadata(%+v)", m)
				var err error
				var got meta.Metadata
				h.noPanic("slots", desc, func() {
					err = f.SetMetadata(ctxT, m)
					got, _ = f.Metadata(ctxT)
				})
				if err == nil {
					cur = m
				}
				if got != cur || err != nil && m.Size() <= size-24 {
					h.fail("slots", "metadata %+v, error %v, want %+v with %s", got, err, cur, log)
				}
				copy(model[:size], f.slice()[:size])
			}
			if !bytes.Equal(model, f.slice()) {
				for p := range model {
					if model[p] != f.slice()[p] {
						h.fail("slots", "byte %d (slot %d) was changed with %s", p, p/size-1, log)
						break
					}
				}
			}
		}
		if h.bad == 0 {
			g, err := openFile(ctxT, dir+"/f")
			if err != nil || g.Capacity() != capn || g.Size() != size || !bytes.Equal(g.slice(), model) {
				h.fail("slots", "opening again: %v capacity %d size %d with %s", err, g.Capacity(), g.Size(), log)
			} else {
				g.Close()
			}
		}
		f.Close()
		os.RemoveAll(dir)
		h.did("%s", log)
	}
	h.done()
}

// open: arbitrary contents
func TestVerifC06Open(t *testing.T) {
	h := vhNew(t, 50)
	dir := h.dir()
	for h.more(500) {
		path := dir + "/f"
		size := 24 + h.r.Intn(60)
		switch h.r.Intn(8) {
		case 0:
			size = h.r.Intn(80) - 20
		case 1:
			size = 1 << uint(h.r.Intn(63))
		case 2:
			size = -1 << uint(h.r.Intn(63))
		}
		var body []byte
		if size != 0 || h.r.Intn(2) == 0 {
			body = append(append(body, 8), vhUvarint(uint64(size))...)
		}
		if h.r.Intn(2) == 0 {
			body = append(append(body, 16), vhUvarint(uint64(h.r.Intn(20)-5))...)
		}
		if h.r.Intn(12) == 0 {
			// fields of other kinds
			junk := [][]byte{{0x30, 1}, {0x3a, 2, 1, 1}, {0x3a, 200, 1}, {0x0a, 1}, {0x3b}, {0x3c}, {0x39, 1, 2, 3, 4, 5, 6, 7, 8}, {0x3d, 1, 2, 3}, {0xff},
				append([]byte{0x3a}, vhUvarint(1<<63-1)...), append([]byte{0x3a}, vhUvarint(1<<63+5)...)}
			body = append(body, junk[h.r.Intn(len(junk))]...)
		}
		rec := vhRawRecord(1, byte(h.r.Intn(6)), body)
		switch h.r.Intn(10) {
		case 0:
			rec[h.r.Intn(len(rec))] ^= byte(1 + h.r.Intn(255))
		case 1:
			rec[0] = byte(h.r.Intn(4))
		}
		l := len(rec)
		switch h.r.Intn(6) {
		case 0:
			l = h.r.Intn(len(rec) + 4)
		case 1:
			if size > 0 && size < 10000 {
				l = size*2 - 1 + h.r.Intn(3)
			}
		case 2:
			if size > 0 && size < 10000 {
				l = size * (1 + h.r.Intn(4))
			}
		case 3:
			l = len(rec) + h.r.Intn(300)
		case 4:
			l = h.r.Intn(100)
		}
		cont := make([]byte, l)
		copy(cont, rec)
		if h.r.Intn(10) == 0 {
			h.r.Read(cont)
			if len(cont) > 0 {
				cont[0] = 1
			}
		}
		if err := os.WriteFile(path, cont, 0644); err != nil {
			fmt.Println("VERIF-ENV", err)
			t.FailNow()
		}
		desc := func() string { return fmt.Sprintf("a file of %d bytes: %x", len(cont), cont) }
		var f file
		var err error
		ok := h.within(5*time.Second, "open", desc, func() {
			f, err = openFile(ctxT, path)
			if err != nil {
				return
			}
			if f.size < 24 || f.cap < 1 || (f.cap+1)*f.size > l || (f.cap+2)*f.size <= l || f.len != l {
				h.fail("open", "opened with record size %d, capacity %d, length %d: %s", f.size, f.cap, f.len, desc())
				return
			}
			was := append([]byte(nil), f.slice()...)
			for n := -2; n < f.cap+2; n++ {
				if n == 50 {
					n = f.cap - 2
				}
				f.HasRecord(ctxT, n)
				f.Record(ctxT, n)
			}
			f.Metadata(ctxT)
			head, err := getHeadPointer(ctxT, f)
			if err == nil && (head < -1 || head >= f.cap) {
				h.fail("open", "head pointer %d of %d for %s", head, f.cap, desc())
			}
			if !bytes.Equal(was, f.slice()) {
				h.fail("open", "reading changed %s", desc())
			}
			f.Close()
		})
		if !ok {
			break
		}
		// valid files have to be accepted
		good := len(cont) >= len(rec) && bytes.Equal(cont[:len(rec)], rec) && rec[0] == 1 &&
			bytes.Equal(rec, vhRawRecord(1, rec[1], body)) && len(body) <= 2+len(vhUvarint(uint64(size)))+11 && size >= 24 && size <= l/2
		var m meta.Metadata
		if good && m.Unmarshal(body) == nil && err != nil {
			h.fail("open", "refused (%v) %s", err, desc())
		}
		if n, _, _ := vhMapped(dir); n > 0 {
			h.fail("open", "a mapping is left (error %v) of %s", err, desc())
		}
		h.did("%x", cont)
	}
	os.RemoveAll(dir)
	h.done()
}

// create: arbitrary shapes
func TestVerifC06Create(t *testing.T) {
	h := vhNew(t, 10)
	dir := h.dir()
	for h.more(100) {
		size, capn := h.r.Intn(200)-20, h.r.Intn(12)-3
		switch h.r.Intn(6) {
		case 0:
			size = 1 << uint(28+h.r.Intn(35))
		case 1:
			capn = 1 << uint(31+h.r.Intn(32))
		case 2:
			size, capn = -size, -capn
		}
		desc := func() string { return fmt.Sprintf("record size %d, capacity %d", size, capn) }
		h.noPanic("create", desc, func() {
			f, err := createFile(ctxT, dir+"/f", size, capn)
			if err == nil {
				if f.Capacity() != capn || f.Size() != size || capn < 1 || f.len != size*(capn+1) || len(f.slice()) != f.len {
					h.fail("create", "got %+v for %s", f, desc())
				}
				f.Close()
			} else if size >= 71 && size < 1000 && capn > 0 && capn < 1000 {
				h.fail("create", "%v for %s", err, desc())
			}
		})
		if n, _, _ := vhMapped(dir); n > 0 {
			h.fail("create", "a mapping is left of %s", desc())
		}
		h.did("%s", desc())
	}
	os.RemoveAll(dir)
	h.done()
}

// the file cache: which contents a handle shows, and which mappings exist
func TestVerifC33(t *testing.T) {
	h := vhNew(t, 60)
	for h.more(100) {
		dir := h.dir()
		opts := fileCacheOptions{Handles: h.r.Intn(5), Size: 71 + h.r.Intn(40), Cap: 1 + h.r.Intn(5)}
		fch := newFileCache(opts)
		log := fmt.Sprintf("handles %d size %d cap %d", opts.Handles, opts.Size, opts.Cap)
		desc := func() string { return log }
		tags := map[string]byte{} // the content of the files on disk
		held := map[string]file{}
		bad := func(format string, args ...interface{}) { h.fail("handles", "%s with %s", fmt.Sprintf(format, args...), log) }
		tag := byte(0)
		mark := func(f file) byte {
			tag++
			f.SetRecord(ctxT, 0, record{version: recordVersion, size: 1, data: []byte{tag}})
			return tag
		}
		check := func(p string, f file) {
			r, err := f.Record(ctxT, 0)
			if err != nil || len(r.data) != 1 || r.data[0] != tags[p] {
				bad("the handle of %s shows %v (%v), the file holds %d", p, r.data, err, tags[p])
			}
		}
		n := 1 + h.r.Intn(60)
		h.noPanic("handles", desc, func() {
			for i := 0; i < n && h.bad == 0; i++ {
				p := fmt.Sprintf("%s/%d", dir, h.r.Intn(6))
				name := p[len(dir)+1:]
				f, have := held[p]
				_, disk := tags[p]
				switch k := h.r.Intn(20); {
				case k < 8 && !have:
					exists := disk
					if h.r.Intn(10) == 0 {
						exists = true
					}
					log += fmt.Sprintf("; acquire %s %v", name, exists)
					g, err := fch.acquireFile(ctxT, p, exists)
					if (err == nil) != (disk || !exists) {
						bad("error %v", err)
						return
					}
					if err != nil {
						continue
					}
					held[p] = g
					if disk {
						check(p, g)
					} else {
						tags[p] = mark(g)
					}
				case k < 14 && have:
					log += fmt.Sprintf("; release %s", name)
					check(p, f)
					if h.r.Intn(2) == 0 {
						tags[p] = mark(f)
					}
					fch.releaseFile(p, f)
					delete(held, p)
				case k < 17 && !have && disk:
					log += fmt.Sprintf("; evict and remove %s", name)
					fch.evictFile(p)
					os.Remove(p)
					delete(tags, p)
					if h.r.Intn(2) == 0 {
						g, err := createFile(ctxT, p, opts.Size, opts.Cap)
						if err != nil {
							bad("%v", err)
							return
						}
						log += "; create it"
						tags[p] = mark(g)
						g.Close()
					}
				case k < 18 && !have:
					log += fmt.Sprintf("; evict %s", name)
					fch.evictFile(p)
				case k < 19:
					log += "; close"
					fch.Close()
					if m, _, at := vhMapped(dir); m >= 0 {
						for q, f := range held {
							if vhPages(f.len) == 4096 && len(at) == len(held) && !at[f.data] {
								bad("the mapping of %s in use is gone", q)
							}
						}
					}
				}
				if h.bad > 0 {
					return
				}
				_, b, _ := vhMapped(dir)
				want := 0
				for _, f := range held {
					want += vhPages(f.len)
				}
				one := vhPages(opts.Size * (opts.Cap + 1))
				if b < want || b > want+opts.Handles*one {
					bad("%d bytes mapped, %d in use, %d handles of %d bytes", b, want, opts.Handles, one)
				}
				for q, f := range held {
					check(q, f)
				}
			}
			for p, f := range held {
				fch.releaseFile(p, f)
			}
			fch.Close()
			if _, b, _ := vhMapped(dir); b != 0 && h.bad == 0 {
				bad("%d bytes are mapped after closing the cache", b)
			}
		})
		os.RemoveAll(dir)
		h.did("%s", log)
	}
	h.done()
}

// the same through the metric: nothing is lost and no mapping is left,
// whatever happens to the data files
func TestVerifC33Metric(t *testing.T) {
	h := vhNew(t, 40)
	for h.more(50) {
		dir := h.dir()
		opts := fileCacheOptions{Handles: h.r.Intn(4), Size: 80 + h.r.Intn(20), Cap: 1 + h.r.Intn(3)}
		max := h.r.Intn(3)
		fch := newFileCache(opts)
		log := fmt.Sprintf("handles %d size %d cap %d files %d", opts.Handles, opts.Size, opts.Cap, max)
		desc := func() string { return log }
		ends := map[string]int64{}
		h.noPanic("handles", desc, func() {
			for i := 1 + h.r.Intn(60); i > 0 && h.bad == 0; i-- {
				name := fmt.Sprintf("m%d", h.r.Intn(4))
				m, err := newMetric(ctxT, metricOptions{fch: fch, dir: dir, name: name, max: max})
				if err != nil {
					log += fmt.Sprintf("; open %s: %v", name, err)
					continue
				}
				switch k := h.r.Intn(20); {
				case k < 12:
					data := make([]byte, h.r.Intn(2*opts.Size*opts.Cap))
					ok, err := m.Write(ctxT, 1, int64(i*-1+1000), data)
					log += fmt.Sprintf("; write %s %d bytes: %v %v", name, len(data), ok, err != nil)
					if ok && err == nil {
						ends[name] = int64(i*-1 + 1000)
					}
				case k < 16:
					_, end, _, err := m.ReadLast(ctxT, nil)
					log += fmt.Sprintf("; read %s: %d %v", name, end, err != nil)
					if end != ends[name] && err == nil && ends[name] > 0 {
						h.fail("handles", "newest end %d of %s, want %d with %s", end, name, ends[name], log)
					}
				case k == 16:
					// lose the contents of the last file, or break it
					p := fmt.Sprintf("%s/%s/%d.data", dir, name, m.last)
					log += fmt.Sprintf("; break %s/%d", name, m.last)
					fch.evictFile(p)
					b, _ := os.ReadFile(p)
					if len(b) > 10 {
						b[5] ^= 0x55
						os.WriteFile(p, b, 0644)
					}
					delete(ends, name)
				case k == 17 && h.r.Intn(3) == 0:
					// the same while it is mapped
					p := fmt.Sprintf("%s/%s/%d.data", dir, name, m.last)
					log += fmt.Sprintf("; break mapped %s/%d", name, m.last)
					if f, err := fch.acquireFile(ctxT, p, true); err == nil {
						f.slice()[5] ^= 0x55
						fch.releaseFile(p, f)
					}
					delete(ends, name)
				case k == 17:
					// a crash after the next file was made leaves it empty
					p := fmt.Sprintf("%s/%s/%d.data", dir, name, m.last+1)
					log += fmt.Sprintf("; empty %s/%d", name, m.last+1)
					if f, err := createFile(ctxT, p, opts.Size, opts.Cap); err == nil {
						f.Close()
					}
				default:
					m.Read(ctxT, 1<<62, nil, func(ctx context.Context, s, e int64, d []byte) (bool, error) {
						if h.r.Intn(2) == 0 {
							return true, context.Canceled
						}
						return h.r.Intn(2) == 0, nil
					})
					log += "; iterate"
				}
				if _, b, _ := vhMapped(dir); b > opts.Handles*vhPages(opts.Size*(opts.Cap+1)) {
					h.fail("handles", "%d bytes stay mapped with %d handles after %s", b, opts.Handles, log)
				}
			}
			fch.Close()
			if _, b, _ := vhMapped(dir); b != 0 && h.bad == 0 {
				h.fail("handles", "%d bytes are mapped after closing the cache with %s", b, log)
			}
			// everything is in the files
			fch = newFileCache(opts)
			for name, want := range ends {
				m, err := newMetric(ctxT, metricOptions{fch: fch, dir: dir, name: name, max: max, ro: true})
				if err != nil {
					continue
				}
				if _, end, _, err := m.ReadLast(ctxT, nil); end != want && err == nil && h.bad == 0 {
					h.fail("handles", "newest end %d of %s on disk, want %d with %s", end, name, want, log)
				}
			}
			fch.Close()
		})
		os.RemoveAll(dir)
		h.did("%s", log)
	}
	h.done()
}
