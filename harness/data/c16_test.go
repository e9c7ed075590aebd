package data_test

import (
	"context"
	"errors"
	"fmt"
	"math"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/dist"
)

type wParams struct{}

func (wParams) Kind() string                          { return "w" }
func (wParams) New() (dist.Dist, error)               { return &wDist{}, nil }
func (wParams) Unmarshal(b []byte) (dist.Dist, error) { return nil, errors.New("no") }

type wDist struct{ vals []float64 }

func (d *wDist) Kind() string          { return "w" }
func (d *wDist) Query(float64) float64 { return 0 }
func (d *wDist) CDF(float64) float64   { return 0 }
func (d *wDist) Len() int64            { return int64(len(d.vals)) }
func (d *wDist) Observe(v float64) {
	if len(d.vals)%3 == 1 {
		runtime.Gosched()
	}
	d.vals = append(d.vals, v)
}
func (d *wDist) Marshal(buf []byte) []byte {
	vs := append([]float64(nil), d.vals...)
	sort.Float64s(vs)
	return append(buf, fmt.Sprint(vs)...)
}

// wModel is what a page holds.
type wModel map[string]*wDist

func (m wModel) add(metric string, v float64) {
	if math.IsNaN(v) || math.IsInf(v, 0) {
		return
	}
	if m[metric] == nil {
		m[metric] = &wDist{}
	}
	m[metric].vals = append(m[metric].vals, v)
}

func (m wModel) text() string {
	var out []string
	for k, d := range m {
		out = append(out, fmt.Sprintf("%q=%s", k, d.Marshal(nil)))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func wValue(h *vh) float64 {
	vals := []float64{0, 1, -1, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64}
	if h.r.Intn(2) == 0 {
		return float64(h.r.Intn(1000)) / 4
	}
	return vals[h.r.Intn(len(vals))]
}

var wNames = []string{"", "a", "b", "A", "a.b", "a ", "metric.with.many.parts", "\xff\x00", "é"}

func TestVerifC16Sequential(t *testing.T) {
	h := vhNew(t, 60)
	type wKey struct{}
	for h.more(300) {
		n := 1 + h.r.Intn(25)
		names := wNames[:1+h.r.Intn(len(wNames))]
		kinds := 4 + h.r.Intn(12)
		var trace []string
		desc := func() string { return strings.Join(trace, "; ") }
		h.within(10*time.Second, "history", desc, func() {
			w := data.NewWriter(wParams{})
			model := wModel{}
			var from int64 // when the current page started; 0 for not yet known
			var lo int64   // no page existed before this time
			for i := 0; i < n; i++ {
				switch k := h.r.Intn(kinds); {
				case k < 2:
					stop := -1
					if h.r.Intn(3) == 0 {
						stop = h.r.Intn(4)
					}
					name := []string{"Capture", "Iterate"}[k]
					trace = append(trace, fmt.Sprintf("%s stopping at %d", name, stop))
					ctx := context.WithValue(context.Background(), wKey{}, i)
					before := time.Now().UnixNano()
					got := wModel{}
					calls := 0
					var end int64
					fn := func(c context.Context, metric string, rec data.Record) bool {
						calls++
						now := time.Now().UnixNano()
						want := model[metric]
						switch {
						case c != ctx:
							h.fail("context", "%s: the callback got another context", desc())
						case stop >= 0 && calls > stop+1:
							h.fail("stop", "%s: called %d times", desc(), calls)
						case got[metric] != nil:
							h.fail("twice", "%s: %q reported twice", desc(), metric)
						case want == nil:
							h.fail("wrong", "%s: %q reported with %+v, nothing was added", desc(), metric, rec)
						case rec.Observations != want.Len() || string(rec.Distribution) != string(want.Marshal(nil)):
							h.fail("wrong", "%s: %q reported with %d of %s, want %s", desc(), metric, rec.Observations, rec.Distribution, want.Marshal(nil))
						case rec.EndTime < before || rec.EndTime > now || (end != 0 && end != rec.EndTime):
							h.fail("time", "%s: %q ends at %d, between %d and %d", desc(), metric, rec.EndTime, before, now)
						case rec.StartTime < lo || rec.StartTime > rec.EndTime || (from != 0 && rec.StartTime != from):
							h.fail("time", "%s: %q starts at %d, want %d or from %d", desc(), metric, rec.StartTime, from, lo)
						}
						if from == 0 {
							from = rec.StartTime
						}
						end = rec.EndTime
						got[metric] = want
						if want == nil {
							got[metric] = &wDist{}
						}
						return calls != stop+1
					}
					if k == 0 {
						w.Capture(ctx, fn)
					} else {
						w.Iterate(ctx, fn)
					}
					want := len(model)
					if stop >= 0 && stop+1 < want {
						want = stop + 1
					}
					if calls != want {
						h.fail("missing", "%s: %d of %d metrics reported: %s of %s", desc(), calls, want, got.text(), model.text())
					}
					if k == 0 {
						model = wModel{}
						if from != 0 && end != 0 {
							from = end
						} else {
							from, lo = 0, 0
						}
					}
				default:
					metric, v := names[h.r.Intn(len(names))], wValue(h)
					trace = append(trace, fmt.Sprintf("Add(%q, %v)", metric, v))
					if len(model) == 0 && from == 0 && lo == 0 {
						lo = 1
					}
					w.Add(context.Background(), metric, v, []byte(metric))
					model.add(metric, v)
				}
				if h.bad > 0 {
					return
				}
			}
			got := wModel{}
			w.Iterate(context.Background(), func(_ context.Context, metric string, rec data.Record) bool {
				got[metric] = model[metric]
				if got[metric] == nil || got[metric].Len() != rec.Observations {
					h.fail("end", "%s: at the end %q has %d observations: %s", desc(), metric, rec.Observations, model.text())
				}
				return true
			})
			if len(got) != len(model) {
				h.fail("end", "%s: at the end %s, want %s", desc(), got.text(), model.text())
			}
		})
		h.did("%s", desc())
	}
	h.done()
}

// Adds without a concurrent Capture are all recorded, and captures that
// overlap report every observation once.
func TestVerifC16Concurrent(t *testing.T) {
	h := vhNew(t, 40)
	for h.more(60) {
		workers := 2 + h.r.Intn(6)
		names := wNames[:1+h.r.Intn(len(wNames))]
		type add struct {
			metric string
			v      float64
		}
		per := make([][]add, workers)
		model := wModel{}
		for i := range per {
			for k := h.r.Intn(12); k >= 0; k-- {
				a := add{names[h.r.Intn(len(names))], wValue(h)}
				per[i] = append(per[i], a)
				model.add(a.metric, a.v)
			}
		}
		desc := func() string { return fmt.Sprintf("%d workers add %q", workers, fmt.Sprint(per)) }
		h.did("%s", desc())
		h.within(10*time.Second, "concurrent", desc, func() {
			w := data.NewWriter(wParams{})
			var wg sync.WaitGroup
			start := make(chan bool)
			for i := range per {
				wg.Add(1)
				go func(as []add) {
					defer wg.Done()
					<-start
					for _, a := range as {
						w.Add(context.Background(), a.metric, a.v, nil)
					}
				}(per[i])
			}
			done := make(chan bool)
			go func() { // reading takes nothing away
				defer close(done)
				<-start
				for k := 0; k < 5; k++ {
					w.Iterate(context.Background(), func(_ context.Context, metric string, rec data.Record) bool {
						if m := model[metric]; m == nil || rec.Observations > m.Len() || rec.Observations <= 0 {
							h.fail("concurrent", "%s: %q has %d observations", desc(), metric, rec.Observations)
						}
						return true
					})
				}
			}()
			close(start)
			wg.Wait()
			<-done
			var mu sync.Mutex
			got := map[string]string{}
			again := make(chan bool)
			for i := 0; i < 3; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-again
					w.Capture(context.Background(), func(_ context.Context, metric string, rec data.Record) bool {
						mu.Lock()
						defer mu.Unlock()
						got[metric] += string(rec.Distribution)
						return true
					})
				}()
			}
			close(again)
			wg.Wait()
			for k, d := range model {
				if got[k] != string(d.Marshal(nil)) {
					h.fail("concurrent", "%s: %q was captured as %s, want %s", desc(), k, got[k], d.Marshal(nil))
					return
				}
				delete(got, k)
			}
			if len(got) > 0 {
				h.fail("concurrent", "%s: captured %q that was not added", desc(), got)
			}
		})
	}
	h.done()
}
