package pcg

import (
	"math/bits"
	"testing"
)

const vMul = 6364136223846793005

// reference PCG-XSH-RR 64/32
type vRef struct{ state, inc uint64 }

func vNew(state, inc uint64) vRef {
	r := vRef{0, inc<<1 | 1}
	r.next()
	r.state += state
	r.next()
	return r
}

func (r *vRef) next() uint32 {
	o := r.state
	r.state = o*vMul + r.inc
	return bits.RotateLeft32(uint32(((o>>18)^o)>>27), -int(o>>59))
}

func vWord(h *vh) uint64 {
	switch h.r.Intn(5) {
	case 0:
		return uint64(h.r.Intn(4))
	case 1:
		return ^uint64(h.r.Intn(4))
	case 2:
		return 1 << uint(h.r.Intn(64))
	default:
		return h.r.Uint64()
	}
}

func TestVerifPCG(t *testing.T) {
	h := vhNew(t, 50)
	defer h.done()
	for h.more(2000) {
		s, i := vWord(h), vWord(h)
		p, q := New(s, i), vNew(s, i)
		which := "New(%d,%d)"
		if h.r.Intn(20) == 0 {
			p, q, s, i = PCG{}, vNew(0, 0), 0, 0
			which = "PCG{} (%d %d)"
		}
		n := 1 + h.r.Intn(20)
		for k := 0; k < n; k++ {
			a, b := p.Uint32(), q.next()
			if a != b {
				h.fail("output", which+": output %d is %d, want %d", s, i, k, a, b)
				return
			}
		}
		h.did("%d %d %d", s, i, n)
	}
}
