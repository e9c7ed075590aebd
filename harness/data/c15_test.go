package data

import (
	"errors"
	"fmt"
	"math"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/vivint/rothko/dist"
)

// vParams makes distributions that remember what they observe; New fails for
// as long as fail is positive.
type vParams struct {
	fail  int32
	calls int32
}

func (p *vParams) Kind() string { return "v" }
func (p *vParams) New() (dist.Dist, error) {
	atomic.AddInt32(&p.calls, 1)
	if atomic.AddInt32(&p.fail, -1) >= 0 {
		return nil, errors.New("no distribution")
	}
	return &vDist{}, nil
}
func (p *vParams) Unmarshal([]byte) (dist.Dist, error) { return &vDist{}, nil }

// vDist is not safe for concurrent use, like a real one.
type vDist struct {
	vals []float64
	n    int
}

func (d *vDist) Kind() string          { return "v" }
func (d *vDist) Query(float64) float64 { return 0 }
func (d *vDist) CDF(float64) float64   { return 0 }
func (d *vDist) Len() int64            { return int64(len(d.vals)) }
func (d *vDist) Observe(v float64) {
	n := d.n
	if n%3 == 0 {
		runtime.Gosched()
	}
	d.vals = append(d.vals, v)
	d.n = n + 1
}
func (d *vDist) text() string {
	vs := append([]float64(nil), d.vals...)
	sort.Float64s(vs)
	return fmt.Sprint(d.n, vs)
}
func (d *vDist) Marshal(buf []byte) []byte { return append(buf, d.text()...) }

type vObs struct {
	val float64
	id  string
	nil bool
}

func vIDs(obs []vObs, v float64) map[string]bool {
	out := map[string]bool{}
	for _, o := range obs {
		if o.val == v {
			out[o.id] = true
		}
	}
	return out
}

// vExpect compares the finished record with the counted observations.
func vExpect(rec Record, obs []vObs, order bool) string {
	if rec.Observations != int64(len(obs)) {
		return fmt.Sprintf("%d observations were counted as %d", len(obs), rec.Observations)
	}
	d := &vDist{}
	min, max := math.Inf(1), math.Inf(-1)
	for _, o := range obs {
		d.vals = append(d.vals, o.val)
		d.n++
		min, max = math.Min(min, o.val), math.Max(max, o.val)
	}
	if len(obs) == 0 {
		return ""
	}
	if rec.Min != min || rec.Max != max {
		return fmt.Sprintf("min %v max %v reported as %v %v", min, max, rec.Min, rec.Max)
	}
	if !vIDs(obs, min)[string(rec.MinId)] {
		return fmt.Sprintf("min id %q was not observed with %v", rec.MinId, min)
	}
	if !vIDs(obs, max)[string(rec.MaxId)] {
		return fmt.Sprintf("max id %q was not observed with %v", rec.MaxId, max)
	}
	if got := string(rec.Distribution); got != d.text() {
		return fmt.Sprintf("distribution holds %s, want %s", got, d.text())
	}
	if rec.Kind != "v" || rec.Merged != 1 {
		return fmt.Sprintf("kind %q merged %d", rec.Kind, rec.Merged)
	}
	return ""
}

func vGen(h *vh) []vObs {
	vals := []float64{0, 1, -1, 0.5, -0.5, 100, -100, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1e9}
	n := h.r.Intn(9)
	if h.r.Intn(5) == 0 {
		n = h.r.Intn(60)
	}
	var out []vObs
	sign := h.r.Intn(3)
	for i := 0; i < n; i++ {
		o := vObs{val: vals[h.r.Intn(len(vals))]}
		if h.r.Intn(2) == 0 {
			o.val = h.r.NormFloat64() * 10
		}
		switch sign {
		case 0:
			o.val = math.Abs(o.val)
		case 1:
			o.val = -math.Abs(o.val)
		}
		o.val += 0 // no negative zero: sorting does not order it
		switch h.r.Intn(5) {
		case 0:
			o.nil = true
		case 1:
			o.id = ""
		default:
			o.id = fmt.Sprintf("id%d", h.r.Intn(1000))
		}
		out = append(out, o)
	}
	return out
}

func vObserve(a *agg, o vObs) {
	var id []byte
	if !o.nil {
		id = []byte(o.id)
	}
	a.Observe(o.val, id)
	for i := range id {
		id[i] = '!' // the id must have been copied
	}
}

func TestVerifC15Sequential(t *testing.T) {
	h := vhNew(t, 40)
	for h.more(300) {
		obs := vGen(h)
		p := &vParams{fail: 0}
		if h.r.Intn(3) == 0 {
			p.fail = int32(h.r.Intn(4))
		}
		fail := int(p.fail)
		start := time.Unix(int64(h.r.Intn(1e9)), int64(h.r.Intn(1e9)))
		desc := func() string { return fmt.Sprintf("observe %+v with the first %d distributions failing", obs, fail) }
		h.did("%s", desc())
		h.within(5*time.Second, "aggregate", desc, func() {
			a := newAgg(p, start)
			var counted []vObs
			buf := make([]byte, h.r.Intn(10), 10+h.r.Intn(20))
			cut := h.r.Intn(len(obs) + 1)
			for i := 0; i <= len(obs); i++ {
				if i == cut || i == len(obs) {
					end := start.Add(time.Duration(i) * time.Second)
					var rec Record
					buf, rec = a.Finish(buf, end)
					if msg := vExpect(rec, counted, true); msg != "" {
						h.fail("aggregate", "%s: after %d: %s", desc(), i, msg)
						return
					}
					if rec.StartTime != start.UnixNano() || rec.EndTime != end.UnixNano() {
						h.fail("times", "%s: range %d %d", desc(), rec.StartTime, rec.EndTime)
						return
					}
				}
				if i < len(obs) {
					vObserve(a, obs[i])
					if i >= fail {
						counted = append(counted, obs[i])
					}
				}
			}
			// a later observation leaves an id copied by an earlier record alone
		})
	}
	h.done()
}

func TestVerifC15Concurrent(t *testing.T) {
	h := vhNew(t, 60)
	for h.more(100) {
		workers := 2 + h.r.Intn(5)
		p := &vParams{}
		if h.r.Intn(3) == 0 {
			p.fail = int32(h.r.Intn(3))
		}
		fail := int(p.fail)
		var per [][]vObs
		var all []vObs
		for i := 0; i < workers; i++ {
			o := vGen(h)
			if h.r.Intn(2) == 0 {
				// growing values keep moving the maximum
				for j := range o {
					o[j].val = float64(j*workers+i) + 1
					o[j].id, o[j].nil = fmt.Sprint(o[j].val), false
				}
			}
			per = append(per, o)
			all = append(all, o...)
		}
		desc := func() string { return fmt.Sprintf("%d workers observe %+v, %d failing", workers, per, fail) }
		h.did("%s", desc())
		h.within(10*time.Second, "concurrent", desc, func() {
			a := newAgg(p, time.Unix(1, 0))
			var wg sync.WaitGroup
			var mu sync.Mutex
			msg := ""
			stop := make(chan bool)
			for i := range per {
				wg.Add(1)
				go func(o []vObs) {
					defer wg.Done()
					for _, x := range o {
						vObserve(a, x)
					}
				}(per[i])
			}
			var fin sync.WaitGroup
			fin.Add(1)
			go func() {
				defer fin.Done()
				var buf []byte
				last := int64(0)
				for k := 0; k < 50; k++ {
					select {
					case <-stop:
						return
					default:
					}
					var rec Record
					buf, rec = a.Finish(buf, time.Unix(2, 0))
					bad := ""
					if rec.Observations > 0 {
						if !strings.HasPrefix(string(rec.Distribution), fmt.Sprint(rec.Observations)+" [") {
							bad = fmt.Sprintf("a record says %d observations but its distribution is %s", rec.Observations, rec.Distribution)
						}
						if rec.Min > rec.Max {
							bad = fmt.Sprintf("min %v above max %v", rec.Min, rec.Max)
						}
						if !vIDs(all, rec.Min)[string(rec.MinId)] || !vIDs(all, rec.Max)[string(rec.MaxId)] {
							bad = fmt.Sprintf("ids %q %q do not belong to %v %v", rec.MinId, rec.MaxId, rec.Min, rec.Max)
						}
					}
					if rec.Observations < last {
						bad = "the number of observations went down"
					}
					last = rec.Observations
					if bad != "" {
						mu.Lock()
						msg = bad
						mu.Unlock()
					}
					runtime.Gosched()
				}
			}()
			wg.Wait()
			close(stop)
			fin.Wait()
			if msg != "" {
				h.fail("concurrent", "%s: %s", desc(), msg)
				return
			}
			_, rec := a.Finish(nil, time.Unix(3, 0))
			want := len(all) - fail
			if want < 0 {
				want = 0
			}
			if rec.Observations != int64(want) {
				h.fail("concurrent", "%s: %d observations counted, want %d", desc(), rec.Observations, want)
				return
			}
			if fail == 0 {
				if msg := vExpect(rec, all, false); msg != "" {
					h.fail("concurrent", "%s: %s", desc(), msg)
				}
			}
		})
	}
	h.done()
}
