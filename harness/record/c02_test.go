package files

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"testing"
)

func v2Valid(b []byte) bool {
	if len(b) < 24 || b[0] != 1 {
		return false
	}
	n := int(binary.BigEndian.Uint16(b[18:]))
	if len(b) < 24+n {
		return false
	}
	tab := crc32.MakeTable(crc32.Castagnoli)
	return binary.BigEndian.Uint32(b[20:]) == crc32.Update(crc32.Checksum(b[:20], tab), tab, b[24:24+n])
}

func TestVerifParse(t *testing.T) {
	h := vhNew(t, 100)
	defer h.done()
	tab := crc32.MakeTable(crc32.Castagnoli)
	for h.more(5000) {
		var n int
		switch h.r.Intn(5) {
		case 0:
			n = h.r.Intn(30)
		case 1:
			n = h.r.Intn(70000)
		default:
			n = h.r.Intn(200)
		}
		b := make([]byte, n)
		h.r.Read(b)
		mode := h.r.Intn(6)
		if mode > 0 && n >= 24 {
			b[0] = 1
			size := h.r.Intn(n - 24 + 1)
			if size > 65535 {
				size = 65535
			}
			if h.r.Intn(3) == 0 && n-24 <= 65535 {
				size = n - 24
			}
			binary.BigEndian.PutUint16(b[18:], uint16(size))
			if h.r.Intn(6) == 0 {
				for i := 24; i < 24+size; i++ {
					b[i] = 0
				}
			}
			sum := crc32.Update(crc32.Checksum(b[:20], tab), tab, b[24:24+size])
			if h.r.Intn(10) == 0 { // a plausible but wrong range
				sum = crc32.Checksum(b[:24+size], tab)
			}
			binary.BigEndian.PutUint32(b[20:], sum)
			switch mode {
			case 1: // one flipped bit anywhere in the record
				b[h.r.Intn(24+size)] ^= 1 << uint(h.r.Intn(8))
			case 2: // truncated
				b = b[:h.r.Intn(24+size+1)]
			case 3: // another version
				b[0] = byte(h.r.Intn(4))
				binary.BigEndian.PutUint32(b[20:], crc32.Update(crc32.Checksum(b[:20], tab), tab, b[24:24+size]))
			case 4: // announced size off by a little, checksum of header recomputed over what is there
				s2 := size + h.r.Intn(5) - 2
				if s2 >= 0 && s2 < 65536 {
					binary.BigEndian.PutUint16(b[18:], uint16(s2))
					e := 24 + s2
					if e > len(b) {
						e = len(b)
					}
					binary.BigEndian.PutUint32(b[20:], crc32.Update(crc32.Checksum(b[:20], tab), tab, b[24:e]))
				}
			}
		}
		b = b[:len(b):len(b)]
		keep := append([]byte{}, b...)
		h.did("%x", b[:min2(len(b), 64)])
		desc := func() string { return fmt.Sprintf("%d bytes %x", len(b), keep[:min2(len(keep), 300)]) }
		h.noPanic("panic", desc, func() {
			for i, f := range []func([]byte) (record, error){parse, readRecord} {
				out, err := f(b)
				if (err == nil) != v2Valid(b) {
					h.fail("verdict", "%s: err %v, valid %v for %s", []string{"parse", "readRecord"}[i], err, v2Valid(b), desc())
					return
				}
				if !bytes.Equal(b, keep) {
					h.fail("input", "the buffer was modified: %s", desc())
				}
				if err != nil {
					continue
				}
				sz := int(binary.BigEndian.Uint16(b[18:]))
				if int(out.version) != 1 || out.kind != recordKind(int8(b[1])) || out.start != int64(binary.BigEndian.Uint64(b[2:])) || out.end != int64(binary.BigEndian.Uint64(b[10:])) || int(out.size) != sz || !bytes.Equal(out.data, b[24:24+sz]) {
					h.fail("fields", "wrong record %+v for %s", out, desc())
				}
			}
		})
	}
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}
