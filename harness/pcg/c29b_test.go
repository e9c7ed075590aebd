package files

import (
	"math"
	"testing"
)

func TestVerifFastMod(t *testing.T) {
	h := vhNew(t, 50)
	defer h.done()
	ms := []int{1, 2, 3, 7, 10, 100, 65535, 65536, 1 << 20, math.MaxInt32, math.MaxInt32 - 1}
	ns := []uint32{0, 1, 2, 1<<16 - 1, 1 << 16, 1<<31 - 1, 1 << 31, math.MaxUint32 - 1, math.MaxUint32}
	try := func(n uint32, m int) (r int, ok bool) {
		ok = h.noPanic("panic", func() string { return "fastMod" }, func() { r = fastMod(n, m) })
		if ok && (r < 0 || r >= m) {
			h.fail("range", "fastMod(%d, %d) = %d", n, m, r)
			ok = false
		}
		return
	}
	for h.more(2000) {
		m := 1 + h.r.Intn(math.MaxInt32)
		if h.r.Intn(2) == 0 {
			m = ms[h.r.Intn(len(ms))]
		} else if h.r.Intn(2) == 0 {
			m = 1 + h.r.Intn(20)
		}
		n := h.r.Uint32()
		if h.r.Intn(2) == 0 {
			n = ns[h.r.Intn(len(ns))]
		}
		a, ok := try(n, m)
		if !ok {
			return
		}
		n2 := n + h.r.Uint32()>>uint(h.r.Intn(32))
		if n2 >= n {
			b, ok := try(n2, m)
			if !ok {
				return
			}
			if b < a {
				h.fail("monotone", "fastMod(%d, %d) = %d but fastMod(%d, %d) = %d", n, m, a, n2, m, b)
			}
		}
		h.did("%d %d", n, m)
	}
}
