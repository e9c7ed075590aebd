package files

import (
	"fmt"
	"bytes"
	"encoding/binary"
	"hash/crc32"
	"testing"
)

// vEncode is the independent oracle for the layout of a record.
func vEncode(version, kind int8, start, end int64, data []byte) []byte {
	out := make([]byte, 24+len(data))
	out[0], out[1] = byte(version), byte(kind)
	binary.BigEndian.PutUint64(out[2:], uint64(start))
	binary.BigEndian.PutUint64(out[10:], uint64(end))
	binary.BigEndian.PutUint16(out[18:], uint16(len(data)))
	copy(out[24:], data)
	tab := crc32.MakeTable(crc32.Castagnoli)
	binary.BigEndian.PutUint32(out[20:], crc32.Update(crc32.Checksum(out[:20], tab), tab, data))
	return out
}

func (h *vh) vInt64() int64 {
	switch h.r.Intn(6) {
	case 0:
		return []int64{0, 1, -1, 255, 256, 1 << 32, 1<<63 - 1, -1 << 63, 1<<32 - 1, -1 << 32}[h.r.Intn(10)]
	case 1:
		return int64(h.r.Intn(1000))
	}
	return int64(h.r.Uint64())
}

func (h *vh) vLen() int {
	switch h.r.Intn(8) {
	case 0:
		return []int{0, 1, 2, 23, 24, 25, 255, 256, 257, 65535, 65534, 32767, 32768}[h.r.Intn(13)]
	case 1:
		return h.r.Intn(65536)
	}
	return h.r.Intn(300)
}

func (h *vh) vBytes(n int) []byte {
	b := make([]byte, n)
	h.r.Read(b)
	if h.r.Intn(8) == 0 {
		for i := range b {
			b[i] = 0
		}
	}
	return b
}

func TestVerifRecordRoundTrip(t *testing.T) {
	h := vhNew(t, 100)
	defer h.done()
	for h.more(3000) {
		data := h.vBytes(h.vLen())
		extra := 0
		if h.r.Intn(3) == 0 {
			extra = h.r.Intn(20)
		}
		kind := int8(1 + h.r.Intn(5))
		if h.r.Intn(5) == 0 {
			kind = int8(h.r.Intn(256))
		}
		start, end := h.vInt64(), h.vInt64()
		full := append(append([]byte{}, data...), h.vBytes(extra)...)
		rec := record{version: 1, kind: recordKind(kind), start: start, end: end, size: uint16(len(data)), data: full}
		// destination buffer: any capacity, surrounded by sentinels
		capn := 24 + len(data)
		switch h.r.Intn(5) {
		case 0:
			capn = 0
		case 1:
			capn = h.r.Intn(capn + 1)
		case 2:
			capn += h.r.Intn(30)
		case 3:
			capn--
		}
		back := make([]byte, capn+32)
		for i := range back {
			back[i] = 0xa5
		}
		var buf []byte
		if capn > 0 || h.r.Intn(2) == 0 {
			buf = back[16 : 16 : 16+capn]
		}
		desc := func() string { return vfmt(kind, start, end, data, capn) }
		h.did("kind %d start %d end %d len %d extra %d cap %d", kind, start, end, len(data), extra, capn)
		h.noPanic("marshal-panic", desc, func() {
			want := vEncode(1, kind, start, end, data)
			if rec.Size() != len(want) {
				h.fail("size", "Size() = %d, want %d for %s", rec.Size(), len(want), desc())
			}
			got := rec.Marshal(buf)
			if !bytes.Equal(got, want) {
				h.fail("encoding", "Marshal gives %x, want %x for %s", got, want, desc())
				return
			}
			fits := capn >= len(want) && buf != nil
			if fits && &got[0] != &back[16] {
				h.fail("reuse", "Marshal did not use the buffer of sufficient capacity: %s", desc())
			}
			for i := range back {
				in := fits && i >= 16 && i < 16+len(want)
				if !in && back[i] != 0xa5 {
					h.fail("overrun", "Marshal changed byte %d of the backing array (buffer at 16, encoding of %d bytes): %s", i, len(want), desc())
					return
				}
			}
			if !bytes.Equal(full[:len(data)], data) {
				h.fail("input", "Marshal changed the payload: %s", desc())
			}
			// decoding, also with bytes following
			tail := h.r.Intn(20)
			out, err := parse(append(append([]byte{}, got...), h.vBytes(tail)...))
			if err != nil {
				h.fail("parse", "parse of the encoding fails: %v for %s", err, desc())
				return
			}
			if out.version != 1 || out.kind != rec.kind || out.start != start || out.end != end || int(out.size) != len(data) || !bytes.Equal(out.data, data) {
				h.fail("roundtrip", "parse gives %d %d %d %d %d %x for %s", out.version, out.kind, out.start, out.end, out.size, out.data, desc())
				return
			}
			// a slot
			slot := make([]byte, len(want)+h.r.Intn(3))
			slot = append(slot, 0xa5, 0xa5)[:len(slot):len(slot)]
			if err := writeRecord(slot, rec); err != nil {
				h.fail("slot", "writeRecord into a slot of %d bytes fails: %v for %s", len(slot), err, desc())
				return
			}
			if !bytes.Equal(slot[:len(want)], want) {
				h.fail("slot", "writeRecord stored %x for %s", slot, desc())
			}
			small := make([]byte, h.r.Intn(len(want)))
			keep := append([]byte{}, small...)
			if err := writeRecord(small, rec); err == nil || !bytes.Equal(small, keep) {
				h.fail("small", "writeRecord into %d bytes: err %v for %s", len(small), err, desc())
			}
			cp := out
			cp.Copy(h.vBytes(h.r.Intn(len(want))))
			if !bytes.Equal(cp.data, data) {
				h.fail("copy", "Copy changed the payload for %s", desc())
			}
		})
	}
}

func vfmt(kind int8, start, end int64, data []byte, capn int) string {
	d := data
	if len(d) > 100 {
		d = d[:100]
	}
	return fmt.Sprintf("kind %d start %d end %d payload of %d bytes %x, buffer capacity %d", kind, start, end, len(data), d, capn)
}
