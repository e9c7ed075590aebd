package merge_test

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"reflect"
	"sort"
	"testing"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/merge"
)

// mDist encodes a digest of n values around v.
func mDist(t *testing.T, v float64, n int, spread float64) []byte {
	d, err := tdigest.Params{Compression: 20}.New()
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < n; i++ {
		d.Observe(v + spread*float64(i%7-3)/3)
	}
	return d.Marshal(nil)
}

func mClone(r data.Record) data.Record {
	r.Distribution = append([]byte(nil), r.Distribution...)
	r.MinId = bytes.Clone(r.MinId)
	r.MaxId = bytes.Clone(r.MaxId)
	return r
}

func mShow(rs []data.Record) string {
	s := ""
	for i, r := range rs {
		s += fmt.Sprintf("\n  record %d: [%d, %d] observations %d merged %d min %v (%q) max %v (%q) kind %q digest of %d bytes", i, r.StartTime, r.EndTime, r.Observations, r.Merged, r.Min, r.MinId, r.Max, r.MaxId, r.Kind, len(r.Distribution))
	}
	return s
}

func TestVerifC19(t *testing.T) {
	h := vhNew(t, 100)
	ctx := context.Background()
	for h.more(50) {
		n := 1 + h.r.Intn(6)
		if h.r.Intn(20) == 0 {
			n = 0
		}
		small := h.r.Intn(2) == 0
		num := func() int64 {
			switch h.r.Intn(8) {
			case 0:
				return h.r.Int63()
			case 1:
				return -h.r.Int63()
			}
			if small {
				return int64(h.r.Intn(4))
			}
			return int64(h.r.Intn(1000))
		}
		flt := func() float64 {
			switch h.r.Intn(16) {
			case 0:
				return math.Inf(1)
			case 1:
				return math.Inf(-1)
			case 2:
				return 0
			}
			return float64(h.r.Intn(9)-4) * 1.5
		}
		var rs []data.Record
		var counts []int
		perm := h.r.Perm(n)
		total := 0
		for i := 0; i < n; i++ {
			c := 100 + h.r.Intn(100)
			total += c
			counts = append(counts, c)
			r := data.Record{
				StartTime:    num(),
				EndTime:      num(),
				Observations: num(),
				Distribution: mDist(t, 1000*float64(perm[i]), c, 5),
				Kind:         "tdigest",
				Min:          flt(),
				Max:          flt(),
				MinId:        []byte(fmt.Sprintf("min %d", i)),
				MaxId:        []byte(fmt.Sprintf("max %d", i)),
				Merged:       int64(h.r.Intn(4)),
			}
			if h.r.Intn(3) == 0 {
				r.Merged = num()
			}
			for _, id := range []*[]byte{&r.MinId, &r.MaxId} {
				switch h.r.Intn(8) {
				case 0:
					*id = nil
				case 1:
					*id = []byte{}
				case 2:
					*id = []byte("id")
				}
			}
			rs = append(rs, r)
		}
		bad := -1
		if n > 0 && h.r.Intn(6) == 0 {
			bad = h.r.Intn(n)
			if h.r.Intn(2) == 0 {
				rs[bad].Kind = []string{"", "tdigest2", "hist", "Tdigest"}[h.r.Intn(4)]
			} else {
				// the version number and compression are plausible, but the
				// number of centroids is not
				rs[bad].Distribution = append([]byte{0, 0, 0, 99}, rs[bad].Distribution[4:]...)
			}
		}
		var before []data.Record
		for _, r := range rs {
			before = append(before, mClone(r))
		}
		compression := 50.0
		if h.r.Intn(30) == 0 {
			compression = 0
		}

		var out data.Record
		var err error
		desc := func() string { return "Merge of" + mShow(before) }
		if !h.noPanic("panic", desc, func() {
			out, err = merge.Merge(ctx, merge.MergeOptions{Params: tdigest.Params{Compression: compression}, Records: rs})
		}) {
			return
		}
		h.did("merge")
		if !reflect.DeepEqual(rs, before) {
			h.fail("inputs", "%s\n changed its inputs to %s", desc(), mShow(rs))
			return
		}
		if n == 0 || bad >= 0 || compression == 0 {
			h.did("refused")
			if err == nil {
				h.fail("accepted", "no records, an unknown kind (%d), an undecodable distribution or compression %v was accepted: %s", bad, compression, desc())
				return
			}
			continue
		}
		if err != nil {
			h.fail("error", "%s\n gave error %q", desc(), err.Error())
			return
		}

		want := data.Record{StartTime: math.MaxInt64, EndTime: math.MinInt64}
		minv, maxv := math.Inf(1), math.Inf(-1)
		for _, r := range before {
			if r.StartTime < want.StartTime {
				want.StartTime = r.StartTime
			}
			if r.EndTime > want.EndTime {
				want.EndTime = r.EndTime
			}
			want.Observations += r.Observations
			m := r.Merged
			if m == 0 {
				m = 1
			}
			want.Merged += m
			minv, maxv = math.Min(minv, r.Min), math.Max(maxv, r.Max)
		}
		if out.StartTime != want.StartTime || out.EndTime != want.EndTime {
			h.fail("times", "%s\n spans [%d, %d], want [%d, %d]", desc(), out.StartTime, out.EndTime, want.StartTime, want.EndTime)
			return
		}
		if out.Observations != want.Observations || out.Merged != want.Merged {
			h.fail("counts", "%s\n has %d observations of %d merged, want %d of %d", desc(), out.Observations, out.Merged, want.Observations, want.Merged)
			return
		}
		if out.Min != minv || out.Max != maxv {
			h.fail("extremes", "%s\n has extremes %v and %v, want %v and %v", desc(), out.Min, out.Max, minv, maxv)
			return
		}
		okMin, okMax := false, false
		for _, r := range before {
			okMin = okMin || r.Min == minv && string(r.MinId) == string(out.MinId)
			okMax = okMax || r.Max == maxv && string(r.MaxId) == string(out.MaxId)
		}
		if !okMin || !okMax {
			h.fail("ids", "%s\n has min %v by %q and max %v by %q", desc(), out.Min, out.MinId, out.Max, out.MaxId)
			return
		}
		if out.Kind != "tdigest" {
			h.fail("kind", "%s\n has kind %q", desc(), out.Kind)
			return
		}
		d, err := tdigest.Params{}.Unmarshal(out.Distribution)
		if err != nil {
			h.fail("undecodable", "%s\n has a distribution that does not decode: %q", desc(), err.Error())
			return
		}
		if d.Len() != int64(total) {
			h.fail("len", "%s\n holds %d values, want %d", desc(), d.Len(), total)
			return
		}
		// the middle of the ranks of each record is near its values
		idx := make([]int, n)
		for i := range idx {
			idx[i] = i
		}
		sort.Slice(idx, func(a, b int) bool { return perm[idx[a]] < perm[idx[b]] })
		at := 0
		for _, i := range idx {
			q := (float64(at) + float64(counts[i])/2) / float64(total)
			at += counts[i]
			if v := d.Query(q); math.Abs(v-1000*float64(perm[i])) > 300 {
				h.fail("values", "%s\n has value %v at %v, want about %v (record %d)", desc(), v, q, 1000*perm[i], i)
				return
			}
		}
		h.did("merged")
	}
	h.done()
}
