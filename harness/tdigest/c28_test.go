package tdigest

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"testing"

	"github.com/vivint/rothko/dist"
	"github.com/zeebo/tdigest"
)

func vValues(h *vh) []float64 {
	n := 1 + h.r.Intn(6)
	if h.r.Intn(4) == 0 {
		n = 1 + h.r.Intn(400)
	}
	out := make([]float64, n)
	mode := h.r.Intn(5)
	for i := range out {
		switch mode {
		case 0:
			out[i] = h.r.NormFloat64()
		case 1:
			out[i] = float64(h.r.Intn(4))
		case 2:
			out[i] = -math.Abs(h.r.NormFloat64()) * 1e6
		case 3:
			out[i] = math.Exp(h.r.NormFloat64() * 8)
		default:
			out[i] = 7
		}
	}
	return out
}

func TestVerifC28(t *testing.T) {
	h := vhNew(t, 100)
	for h.more(200) {
		vals := vValues(h)
		comp := []float64{1, 5, 20, 100}[h.r.Intn(4)]
		desc := func() string { return fmt.Sprintf("compression %v values %v", comp, vals) }
		h.did("%s", desc())
		h.noPanic("digest", desc, func() {
			if _, err := (Params{}).New(); err == nil {
				h.fail("new", "New with compression zero gave no error")
			}
			d, err := (Params{Compression: comp}).New()
			if err != nil || d == nil {
				h.fail("new", "New(%v): %v", comp, err)
				return
			}
			ref := tdigest.New(comp)
			for _, v := range vals {
				d.Observe(v)
				ref.Add(v)
			}
			if len(vals) > 6 {
				// compression is randomized, so compare with the digest itself
				if n := int64(len(vals)); d.Len() != n {
					h.fail("len", "%s: Len %d, want %d", desc(), d.Len(), n)
				}
				ref = d.(*Wrapper).Underlying()
			}
			check := func(d dist.Dist, what string) {
				if d.Kind() != "tdigest" || (Params{Compression: comp}).Kind() != "tdigest" {
					h.fail("kind", "kind %q", d.Kind())
				}
				if d.Len() != int64(ref.Count()) {
					h.fail("len", "%s %s: Len %d, want %d", what, desc(), d.Len(), ref.Count())
				}
				pre := []byte("prefix")[:h.r.Intn(7)]
				if got, want := d.Marshal(append([]byte(nil), pre...)), ref.Marshal(append([]byte(nil), pre...)); !bytes.Equal(got, want) {
					h.fail("marshal", "%s %s: Marshal %x, want %x", what, desc(), got, want)
				}
				for i := 0; i <= 20; i++ {
					q := float64(i) / 20
					if got, want := d.Query(q), ref.Quantile(q); got != want {
						h.fail("query", "%s %s: Query(%v) %v, want %v", what, desc(), q, got, want)
					}
				}
				lo, hi := ref.Quantile(0), ref.Quantile(1)
				xs := append([]float64{lo, hi, math.Nextafter(lo, math.Inf(-1)), math.Nextafter(lo, math.Inf(1)),
					math.Nextafter(hi, math.Inf(-1)), math.Nextafter(hi, math.Inf(1)), math.Inf(1), math.Inf(-1), 0, lo + (hi-lo)*h.r.Float64(), lo + (hi-lo)*h.r.Float64(), (lo + hi) / 2}, vals[:1+h.r.Intn(len(vals))]...)
				for i := 0; i <= 64; i++ {
					xs = append(xs, ref.Quantile(float64(i)/64))
				}
				h.r.Shuffle(len(xs), func(i, j int) { xs[i], xs[j] = xs[j], xs[i] })
				got := map[float64]float64{}
				mono := true
				for i := 0; i < 64; i++ {
					if ref.Quantile(float64(i)/64) > ref.Quantile(float64(i+1)/64) {
						mono = false
					}
				}
				for _, x := range xs {
					c := d.CDF(x)
					if !(c >= 0 && c <= 1) {
						h.fail("range", "%s %s: CDF(%v) = %v", what, desc(), x, c)
					}
					if x <= lo && c != 0 {
						h.fail("low", "%s %s: CDF(%v) = %v at or below the 0-quantile %v", what, desc(), x, c, lo)
					}
					if x > lo && x >= hi && c != 1 {
						h.fail("high", "%s %s: CDF(%v) = %v at or above the 1-quantile %v", what, desc(), x, c, hi)
					}
					if old, ok := got[x]; ok && old != c {
						h.fail("repeat", "%s %s: CDF(%v) = %v, then %v", what, desc(), x, old, c)
					}
					got[x] = c
				}
				sort.Float64s(xs)
				for i := 1; i < len(xs) && mono; i++ {
					if got[xs[i-1]] > got[xs[i]] {
						h.fail("monotone", "%s %s: CDF(%v) = %v but CDF(%v) = %v", what, desc(), xs[i-1], got[xs[i-1]], xs[i], got[xs[i]])
					}
				}
				if c := d.CDF(math.NaN()); !(c >= 0 && c <= 1) {
					h.fail("range", "%s %s: CDF(NaN) = %v", what, desc(), c)
				}
			}
			check(d, "observed")
			if h.r.Intn(2) == 0 {
				more := vValues(h)
				if len(more) > 5 {
					more = more[:5]
				}
				for _, v := range more {
					d.Observe(v)
					if ref != d.(*Wrapper).Underlying() {
						ref.Add(v)
					}
				}
				vals = append(append([]float64(nil), vals...), more...)
				if len(vals) > 6 {
					ref = d.(*Wrapper).Underlying()
				}
				check(d, "observed more")
			}
			buf := d.Marshal(nil)
			d2, err := (Params{Compression: 1}).Unmarshal(buf)
			if err != nil {
				h.fail("unmarshal", "%s: %v", desc(), err)
				return
			}
			if r2, err := tdigest.FromBytes(buf); err == nil {
				ref = r2
				check(d2, "unmarshalled")
			}
		})
	}
	h.done()
}
