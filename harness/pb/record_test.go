package data

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"testing"
	"time"
)

func vhInt(h *vh) int64 {
	switch h.r.Intn(6) {
	case 0:
		return 0
	case 1:
		return int64(h.r.Intn(300)) - 100
	case 2:
		return int64(1)<<uint(h.r.Intn(64)) - int64(h.r.Intn(3))
	case 3:
		return -(int64(1) << uint(h.r.Intn(64))) + int64(h.r.Intn(3)) - 1
	}
	return int64(h.r.Uint64())
}

func vhUv(v uint64) []byte {
	b := make([]byte, 10)
	return b[:binary.PutUvarint(b, v)]
}

// vhUnknown is a well-formed field (or group) with an unknown number.
func vhUnknown(h *vh, depth int) []byte {
	num := uint64(10 + 1 + h.r.Intn(100))
	switch k := h.r.Intn(5); {
	case k == 0:
		return append(vhUv(num<<3), vhUv(uint64(vhInt(h)))...)
	case k == 1:
		return append(vhUv(num<<3|1), 1, 2, 3, 4, 5, 6, 7, 255)
	case k == 2:
		n := h.r.Intn(200)
		b := append(vhUv(num<<3|2), vhUv(uint64(n))...)
		c := make([]byte, n)
		h.r.Read(c)
		return append(b, c...)
	case k == 3 && depth < 5:
		b := vhUv(num<<3 | 3)
		for i := h.r.Intn(4); i > 0; i-- {
			b = append(b, vhUnknown(h, depth+1)...)
		}
		return append(b, vhUv(num<<3|4)...)
	}
	return append(vhUv(num<<3|5), 4, 3, 2, 255)
}

// vhEvil are fields whose lengths go out of bounds.
func vhEvil(h *vh) []byte {
	num := uint64(1 + h.r.Intn(10+4))
	ln := uint64(vhInt(h))
	switch h.r.Intn(4) {
	case 0:
		ln = 1<<63 - 1 - uint64(h.r.Intn(20))
	case 1:
		ln = uint64(h.r.Intn(40))
	}
	b := append(vhUv(num<<3|2), vhUv(ln)...)
	if h.r.Intn(2) == 0 {
		b = append(vhUv(50<<3|3), b...)
	}
	return b
}

func vhSafe(h *vh, m interface{ Unmarshal([]byte) error }, in []byte) (err error, ok bool) {
	keep := append(make([]byte, 0, len(in)), in...)[:len(in):len(in)]
	desc := func() string { return fmt.Sprintf("decoding %x", keep) }
	if h.r.Intn(20) == 0 {
		ok = h.within(20*time.Second, "decode", desc, func() { err = m.Unmarshal(keep) })
	} else {
		ok = h.noPanic("decode", desc, func() { err = m.Unmarshal(keep) })
	}
	if ok && !bytes.Equal(keep, in) {
		h.fail("decode", "the input was changed %s", desc())
	}
	return err, ok
}

func vhBytes(h *vh) []byte {
	n := h.r.Intn(4)
	switch h.r.Intn(6) {
	case 0:
		n = 120 + h.r.Intn(20)
	case 1:
		n = h.r.Intn(2000)
	case 2:
		n = 16370 + h.r.Intn(30)
	}
	b := make([]byte, n)
	h.r.Read(b)
	return b
}

func vhFloat(h *vh) float64 {
	switch h.r.Intn(5) {
	case 0:
		return 0
	case 1:
		return []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.SmallestNonzeroFloat64, -math.MaxFloat64}[h.r.Intn(5)]
	case 2:
		return math.Float64frombits(h.r.Uint64())
	}
	return h.r.NormFloat64()
}

func vhRecord(h *vh) Record {
	return Record{StartTime: vhInt(h), EndTime: vhInt(h), Observations: vhInt(h), Distribution: vhBytes(h), Kind: string(vhBytes(h)), Min: vhFloat(h), Max: vhFloat(h), MinId: vhBytes(h), MaxId: vhBytes(h), Merged: vhInt(h)}
}

// vhSame compares bit by bit, but a negative zero is stored as zero.
func vhSame(a, b *Record) bool {
	f := func(x float64) uint64 { return math.Float64bits(x + 0) }
	return a.StartTime == b.StartTime && a.EndTime == b.EndTime && a.Observations == b.Observations && bytes.Equal(a.Distribution, b.Distribution) &&
		a.Kind == b.Kind && (f(a.Min) == f(b.Min) || a.Min == 0 && b.Min == 0) && (f(a.Max) == f(b.Max) || a.Max == 0 && b.Max == 0) && bytes.Equal(a.MinId, b.MinId) && bytes.Equal(a.MaxId, b.MaxId) && a.Merged == b.Merged
}

// vhFields are the encodings of the single fields of m.
func vhFields(m *Record) (out [][]byte) {
	v := func(n int, x int64) { out = append(out, append(vhUv(uint64(n<<3)), vhUv(uint64(x))...)) }
	s := func(n int, b []byte) {
		out = append(out, append(append(vhUv(uint64(n<<3|2)), vhUv(uint64(len(b)))...), b...))
	}
	f := func(n int, x float64) {
		b := make([]byte, 8)
		binary.LittleEndian.PutUint64(b, math.Float64bits(x))
		out = append(out, append(vhUv(uint64(n<<3|1)), b...))
	}
	v(1, m.StartTime)
	v(2, m.EndTime)
	v(3, m.Observations)
	s(4, m.Distribution)
	s(5, []byte(m.Kind))
	f(6, m.Min)
	f(7, m.Max)
	s(8, m.MinId)
	s(9, m.MaxId)
	v(10, m.Merged)
	return out
}

func TestVerifC14(t *testing.T) {
	h := vhNew(t, 100)
	for h.more(500) {
		m := vhRecord(h)
		desc := func() string { return fmt.Sprintf("%+v", m) }
		var enc []byte
		var n int
		var err error
		extra := h.r.Intn(3) * h.r.Intn(40)
		h.noPanic("encode", desc, func() {
			enc = make([]byte, m.Size()+extra)
			for i := range enc {
				enc[i] = 0xaa
			}
			n, err = m.MarshalTo(enc)
		})
		if h.bad > 0 {
			break
		}
		if err != nil || n != m.Size() || !bytes.Equal(enc[n:], bytes.Repeat([]byte{0xaa}, extra)) {
			h.fail("encode", "wrote %d of %d bytes, error %v for %s", n, m.Size(), err, desc())
			break
		}
		mb, _ := m.Marshal()
		if !bytes.Equal(mb, enc[:n]) {
			h.fail("encode", "Marshal gives %x, MarshalTo %x for %s", mb, enc[:n], desc())
		}
		var got Record
		if err, ok := vhSafe(h, &got, enc[:n]); !ok {
			break
		} else if err != nil || !vhSame(&m, &got) {
			h.fail("roundtrip", "got %+v (%v) for %s", got, err, desc())
			break
		}
		// other orders, repeated fields, unknown fields
		fs := vhFields(&m)
		h.r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
		old := vhRecord(h)
		var in []byte
		for _, f := range vhFields(&old)[:h.r.Intn(10)] {
			in = append(in, f...)
		}
		for _, f := range fs {
			if h.r.Intn(3) == 0 {
				in = append(in, vhUnknown(h, 0)...)
			}
			in = append(in, f...)
		}
		got = vhRecord(h)
		if err, ok := vhSafe(h, &got, in); !ok {
			break
		} else if err != nil || !vhSame(&m, &got) {
			h.fail("decode", "got %+v (%v) for %s from %x", got, err, desc(), in)
			break
		}
		// cut, damaged and crafted
		for i := 0; i < 8 && h.bad == 0; i++ {
			bad := append([]byte(nil), in...)
			switch h.r.Intn(4) {
			case 0:
				bad = bad[:h.r.Intn(len(bad)+1)]
			case 1:
				for j := 1 + h.r.Intn(3); j > 0; j-- {
					bad[h.r.Intn(len(bad))] = byte(h.r.Intn(256))
				}
			case 2:
				bad = append(bad[:h.r.Intn(2)*len(bad)], vhEvil(h)...)
				bad = append(bad, make([]byte, h.r.Intn(20))...)
			case 3:
				bad = make([]byte, h.r.Intn(30))
				h.r.Read(bad)
			}
			var x Record
			vhSafe(h, &x, bad)
			h.did("%x", bad)
		}
		h.did("%x", in)
	}
	if h.bad == 0 {
		var x Record
		vhSafe(h, &x, bytes.Repeat([]byte{0x7b}, 3<<20))
	}
	h.done()
}
