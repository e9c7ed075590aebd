package files

import (
	"bytes"
	"errors"
	"fmt"
	"testing"
	"time"
)

func TestVerifSplit(t *testing.T) {
	h := vhNew(t, 100)
	defer h.done()
	boom := errors.New("boom")
	for h.more(5000) {
		var n, size int
		switch h.r.Intn(4) {
		case 0:
			size = []int{-1, 0, 1, 23, 24, 25, 26, 65558, 65559, 65560, 65561, 131072 + 24, 131072 + 30, 65536, 1 << 40, -(1 << 40)}[h.r.Intn(16)]
		case 1:
			size = 24 + h.r.Intn(66000)
		default:
			size = 24 + h.r.Intn(40)
		}
		chunk := size - 24
		switch h.r.Intn(5) {
		case 0:
			n = h.r.Intn(10)
		case 1:
			n = h.r.Intn(200000)
		case 2:
			if chunk > 0 && chunk < 70000 {
				n = chunk*h.r.Intn(6) + h.r.Intn(3) - 1
				if n < 0 {
					n = 0
				}
			}
		default:
			n = h.r.Intn(300)
		}
		if chunk > 0 && n/chunk > 3000 {
			n = chunk * 3000
		}
		data := make([]byte, n)
		h.r.Read(data)
		start, end := int64(h.r.Uint64()), int64(h.r.Uint64())
		good := chunk >= 1 && chunk <= 65535
		wantN := 0
		if good {
			wantN = (n + chunk - 1) / chunk
			if n == 0 {
				wantN = 1
			}
		}
		failAt := -1
		if h.r.Intn(2) == 0 && wantN > 0 {
			failAt = h.r.Intn(wantN)
		}
		desc := func() string { return fmt.Sprintf("len %d size %d callback failing at %d", n, size, failAt) }
		h.did("%d %d %d", n, size, failAt)
		h.within(20*time.Second, "panic", desc, func() {
			if got := numRecords(n, size); got != wantN {
				h.fail("count", "numRecords = %d, want %d for %s", got, wantN, desc())
				return
			}
			var all []byte
			calls := 0
			bad := false
			err := iterateRecords(start, end, data, size, func(rec record) error {
				i := calls
				calls++
				if calls > wantN+3 {
					return errors.New("too many")
				}
				kind := recordKind_continue
				if wantN == 1 {
					kind = recordKind_complete
				} else if i == 0 {
					kind = recordKind_begin
				} else if i == wantN-1 {
					kind = recordKind_end
				}
				if rec.version != 1 || rec.start != start || rec.end != end || int(rec.size) != len(rec.data) || rec.Size() > size || rec.kind != kind {
					bad = true
					h.fail("record", "callback %d of %d got version %d kind %d (want %d) start %d end %d size %d with %d bytes for %s", i, wantN, rec.version, rec.kind, kind, rec.start, rec.end, rec.size, len(rec.data), desc())
				}
				all = append(all, rec.data...)
				if i == failAt {
					return boom
				}
				return nil
			})
			if bad {
				return
			}
			switch {
			case !good:
				if err == nil || calls != 0 {
					h.fail("invalid", "err %v and %d callbacks for the invalid size in %s", err, calls, desc())
				}
			case failAt >= 0:
				if err != boom || calls != failAt+1 || !bytes.Equal(all, data[:len(all)]) {
					h.fail("stop", "err %v after %d callbacks for %s", err, calls, desc())
				}
			default:
				if err != nil || calls != wantN || !bytes.Equal(all, data) {
					h.fail("pieces", "err %v, %d callbacks (want %d), concatenation equal: %v for %s", err, calls, wantN, bytes.Equal(all, data), desc())
				}
			}
		})
	}
}
