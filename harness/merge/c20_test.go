package merge_test

import (
	"context"
	"fmt"
	"math"
	"testing"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/draw"
	"github.com/vivint/rothko/merge"
)

// mDist encodes a digest of n values around v.
func mDist(t *testing.T, v float64, n int, spread float64) []byte {
	d, err := tdigest.Params{Compression: 20}.New()
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < n; i++ {
		d.Observe(v + spread*float64(i%7-3)/3)
	}
	return d.Marshal(nil)
}

func mClone(r data.Record) data.Record {
	r.Distribution = append([]byte(nil), r.Distribution...)
	r.MinId = append([]byte(nil), r.MinId...)
	r.MaxId = append([]byte(nil), r.MaxId...)
	return r
}

// mPixel is the pixel of a time: every pixel is ps wide, the last one ends now.
func mPixel(width int, now, ps, at int64) int {
	d := now - at + ps - 1
	px := int64(width) - d/ps
	if px < 0 {
		px = 0
	}
	return int(px)
}

func mLayout(rs []data.Record, start, end []int) string {
	s := ""
	for i, r := range rs {
		s += fmt.Sprintf("\n  push [%d, %d] (pixels %d to %d) observations %d merged %d", r.StartTime, r.EndTime, start[i], end[i], r.Observations, r.Merged)
	}
	return s
}

func TestVerifC20(t *testing.T) {
	h := vhNew(t, 100)
	ctx := context.Background()
	params := tdigest.Params{Compression: 50}
	var dists [][]byte
	for i := 0; i < 8; i++ {
		dists = append(dists, mDist(t, 100*float64(i+1), 10, 1))
	}
	for h.more(100) {
		width := 1 + h.r.Intn(40)
		var dur int64
		switch h.r.Intn(6) {
		case 0:
			dur = int64(h.r.Intn(width + 2))
		case 1:
			dur = int64(width) * int64(1+h.r.Intn(5))
		case 2:
			dur = int64(24 * time.Hour)
		default:
			dur = int64(1 + h.r.Intn(20*width))
		}
		ps := int64(1)
		if dur > int64(width) {
			ps = dur / int64(width)
		}
		now := int64(1500000000000000000)
		switch h.r.Intn(4) {
		case 0:
			now = int64(h.r.Intn(1000))
		case 1:
			now = -int64(h.r.Intn(1000))
		}
		span := ps * int64(width)
		n := h.r.Intn(8)
		var rs []data.Record
		var start, end []int
		at := now
		if h.r.Intn(4) == 0 {
			at = now + h.r.Int63n(2*ps+1)
		}
		for i := 0; i < n; i++ {
			// records do not end later than the one before
			switch h.r.Intn(5) {
			case 0:
			case 1:
				at -= h.r.Int63n(ps + 1)
			case 2:
				at -= h.r.Int63n(span/2 + 1)
			default:
				at -= h.r.Int63n(span/8 + 2)
			}
			var l int64
			switch h.r.Intn(4) {
			case 0:
				l = h.r.Int63n(ps + 1)
			case 1:
				l = h.r.Int63n(2*span + 1)
			default:
				l = h.r.Int63n(span/4 + 1)
			}
			if l == 0 {
				l = 1
			}
			r := data.Record{
				StartTime:    at - l,
				EndTime:      at,
				Observations: int64(1 + h.r.Intn(1<<uint(1+h.r.Intn(20)))),
				Merged:       int64(h.r.Intn(3)),
				Kind:         "tdigest",
				Distribution: dists[i],
			}
			rs = append(rs, r)
			start = append(start, mPixel(width, now, ps, r.StartTime))
			end = append(end, mPixel(width, now, ps, r.EndTime))
		}
		samples := 1 + h.r.Intn(10)
		desc := func() string {
			return fmt.Sprintf("width %d duration %d now %d samples %d%s", width, dur, now, samples, mLayout(rs, start, end))
		}

		m := merge.NewMerger(merge.MergerOptions{Samples: samples, Now: now, Duration: time.Duration(dur), Params: params})
		var cols []draw.Column
		var err error
		early := h.r.Intn(10) == 0
		if !h.noPanic("panic", desc, func() {
			if early && n > 0 {
				if h.r.Intn(2) == 0 {
					m.SetWidth(-h.r.Intn(3))
				}
				if m.Push(ctx, rs[0]) == nil {
					h.fail("no-width", "a record was accepted without a width: %s", desc())
					return
				}
			}
			m.SetWidth(width)
			for _, r := range rs {
				if err = m.Push(ctx, mClone(r)); err != nil {
					return
				}
			}
			cols, err = m.Finish(ctx)
		}) {
			return
		}
		h.did("width %d %d records", width, n)
		if h.bad > 0 {
			return
		}
		if err != nil {
			h.fail("error", "pushing fails with %v: %s", err, desc())
			return
		}

		// which column covers each pixel
		owner := make([]int, width)
		for i := range owner {
			owner[i] = -1
		}
		for i, c := range cols {
			if c.W < 1 || c.X < 0 || c.X+c.W > width {
				h.fail("range", "column %d is [%d, %d): %s", i, c.X, c.X+c.W, desc())
				return
			}
			if i > 0 && c.X+c.W > cols[i-1].X {
				h.fail("order", "column %d [%d, %d) is not left of the one before [%d, ...): %s", i, c.X, c.X+c.W, cols[i-1].X, desc())
				return
			}
			if len(c.Data) != samples+1 {
				h.fail("samples", "column %d has %d samples: %s", i, len(c.Data), desc())
				return
			}
			for p := c.X; p < c.X+c.W; p++ {
				owner[p] = i
			}
		}
		checked := map[int]bool{}
		for p := 0; p < width; p++ {
			var touching []data.Record
			rate := 0.0
			for i, r := range rs {
				if start[i] <= p && p <= end[i] {
					touching = append(touching, r)
					merged := r.Merged
					if merged == 0 {
						merged = 1
					}
					rate += float64(r.Observations) / float64(merged) / (float64(r.EndTime-r.StartTime) / 1e9)
				}
			}
			if (len(touching) > 0) != (owner[p] >= 0) {
				h.fail("cover", "%d records touch pixel %d, and it is covered by column %d of %d: %s", len(touching), p, owner[p], len(cols), desc())
				return
			}
			if owner[p] < 0 {
				continue
			}
			c := cols[owner[p]]
			rate /= float64(len(touching))
			if !(math.Abs(c.ObsSec-rate) <= 1e-6*rate) {
				h.fail("rate", "column [%d, %d) has rate %v but the records at pixel %d have %v: %s", c.X, c.X+c.W, c.ObsSec, p, rate, desc())
				return
			}
			if checked[owner[p]] {
				continue
			}
			checked[owner[p]] = true
			// record i has values about 100*(i+1)
			lo, hi := math.Inf(1), math.Inf(-1)
			for i := range rs {
				if start[i] <= p && p <= end[i] {
					lo, hi = math.Min(lo, 100*float64(i+1)), math.Max(hi, 100*float64(i+1))
				}
			}
			for j, v := range c.Data {
				if !(v >= lo-5 && v <= hi+5) || (j > 0 && v < c.Data[j-1]) {
					h.fail("data", "column [%d, %d) has samples %v from records with values about %v to %v: %s", c.X, c.X+c.W, c.Data, lo, hi, desc())
					return
				}
			}
			if a, b := c.Data[0], c.Data[samples]; math.Abs(a-lo) > 5 || math.Abs(b-hi) > 5 {
				h.fail("data", "column [%d, %d) has samples %v from records with values about %v to %v: %s", c.X, c.X+c.W, c.Data, lo, hi, desc())
				return
			}
			if samples >= 2 && len(touching) == 2 {
				h.did("two")
			}
		}
	}
	h.done()
}
