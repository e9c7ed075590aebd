package meta

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"
	"time"
)

func vhInt(h *vh) int64 {
	switch h.r.Intn(6) {
	case 0:
		return 0
	case 1:
		return int64(h.r.Intn(300)) - 100
	case 2:
		return int64(1)<<uint(h.r.Intn(64)) - int64(h.r.Intn(3))
	case 3:
		return -(int64(1) << uint(h.r.Intn(64))) + int64(h.r.Intn(3)) - 1
	}
	return int64(h.r.Uint64())
}

func vhUv(v uint64) []byte {
	b := make([]byte, 10)
	return b[:binary.PutUvarint(b, v)]
}

// vhUnknown is a well-formed field (or group) with an unknown number.
func vhUnknown(h *vh, depth int) []byte {
	num := uint64(5 + 1 + h.r.Intn(100))
	switch k := h.r.Intn(5); {
	case k == 0:
		return append(vhUv(num<<3), vhUv(uint64(vhInt(h)))...)
	case k == 1:
		return append(vhUv(num<<3|1), 1, 2, 3, 4, 5, 6, 7, 255)
	case k == 2:
		n := h.r.Intn(200)
		b := append(vhUv(num<<3|2), vhUv(uint64(n))...)
		c := make([]byte, n)
		h.r.Read(c)
		return append(b, c...)
	case k == 3 && depth < 5:
		b := vhUv(num<<3 | 3)
		for i := h.r.Intn(4); i > 0; i-- {
			b = append(b, vhUnknown(h, depth+1)...)
		}
		return append(b, vhUv(num<<3|4)...)
	}
	return append(vhUv(num<<3|5), 4, 3, 2, 255)
}

// vhEvil are fields whose lengths go out of bounds.
func vhEvil(h *vh) []byte {
	num := uint64(1 + h.r.Intn(5+4))
	ln := uint64(vhInt(h))
	switch h.r.Intn(4) {
	case 0:
		ln = 1<<63 - 1 - uint64(h.r.Intn(20))
	case 1:
		ln = uint64(h.r.Intn(40))
	}
	b := append(vhUv(num<<3|2), vhUv(ln)...)
	if h.r.Intn(2) == 0 {
		b = append(vhUv(50<<3|3), b...)
	}
	return b
}

func vhSafe(h *vh, m interface{ Unmarshal([]byte) error }, in []byte) (err error, ok bool) {
	keep := append(make([]byte, 0, len(in)), in...)[:len(in):len(in)]
	desc := func() string { return fmt.Sprintf("decoding %x", keep) }
	if h.r.Intn(20) == 0 {
		ok = h.within(20*time.Second, "decode", desc, func() { err = m.Unmarshal(keep) })
	} else {
		ok = h.noPanic("decode", desc, func() { err = m.Unmarshal(keep) })
	}
	if ok && !bytes.Equal(keep, in) {
		h.fail("decode", "the input was changed %s", desc())
	}
	return err, ok
}

func vhMeta(h *vh) Metadata {
	return Metadata{Size_: int(vhInt(h)), Head: int(vhInt(h)), Start: vhInt(h), End: vhInt(h), SmallestEnd: vhInt(h)}
}

func vhFields(m *Metadata) (out [][]byte) {
	for i, x := range []int64{int64(m.Size_), int64(m.Head), m.Start, m.End, m.SmallestEnd} {
		out = append(out, append(vhUv(uint64((i+1)<<3)), vhUv(uint64(x))...))
	}
	return out
}

func TestVerifC14(t *testing.T) {
	h := vhNew(t, 100)
	for h.more(500) {
		m := vhMeta(h)
		desc := func() string { return fmt.Sprintf("%+v", m) }
		var enc []byte
		var n int
		var err error
		extra := h.r.Intn(3) * h.r.Intn(40)
		h.noPanic("encode", desc, func() {
			enc = make([]byte, m.Size()+extra)
			for i := range enc {
				enc[i] = 0xaa
			}
			n, err = m.MarshalTo(enc)
		})
		if h.bad > 0 {
			break
		}
		if err != nil || n != m.Size() || !bytes.Equal(enc[n:], bytes.Repeat([]byte{0xaa}, extra)) {
			h.fail("encode", "wrote %d of %d bytes, error %v for %s", n, m.Size(), err, desc())
			break
		}
		mb, _ := m.Marshal()
		if !bytes.Equal(mb, enc[:n]) {
			h.fail("encode", "Marshal gives %x, MarshalTo %x for %s", mb, enc[:n], desc())
		}
		var got Metadata
		if err, ok := vhSafe(h, &got, enc[:n]); !ok {
			break
		} else if err != nil || got != m {
			h.fail("roundtrip", "got %+v (%v) for %s", got, err, desc())
			break
		}
		fs := vhFields(&m)
		h.r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
		old := vhMeta(h)
		var in []byte
		for _, f := range vhFields(&old)[:h.r.Intn(5)] {
			in = append(in, f...)
		}
		for _, f := range fs {
			if h.r.Intn(3) == 0 {
				in = append(in, vhUnknown(h, 0)...)
			}
			in = append(in, f...)
		}
		got = vhMeta(h)
		if err, ok := vhSafe(h, &got, in); !ok {
			break
		} else if err != nil || got != m {
			h.fail("decode", "got %+v (%v) for %s from %x", got, err, desc(), in)
			break
		}
		for i := 0; i < 8 && h.bad == 0; i++ {
			bad := append([]byte(nil), in...)
			switch h.r.Intn(4) {
			case 0:
				bad = bad[:h.r.Intn(len(bad)+1)]
			case 1:
				for j := 1 + h.r.Intn(3); j > 0; j-- {
					bad[h.r.Intn(len(bad))] = byte(h.r.Intn(256))
				}
			case 2:
				bad = append(bad[:h.r.Intn(2)*len(bad)], vhEvil(h)...)
				bad = append(bad, make([]byte, h.r.Intn(20))...)
			case 3:
				bad = make([]byte, h.r.Intn(30))
				h.r.Read(bad)
			}
			var x Metadata
			vhSafe(h, &x, bad)
			h.did("%x", bad)
		}
		h.did("%x", in)
	}
	if h.bad == 0 {
		var x Metadata
		vhSafe(h, &x, bytes.Repeat([]byte{0x33}, 3<<20))
	}
	h.done()
}
