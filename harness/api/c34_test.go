package api_test

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"image/png"
	"math"
	"net/http/httptest"
	"net/url"
	"reflect"
	"sort"
	"testing"
	"time"

	"github.com/vivint/rothko/api"
	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/data/load"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/draw"
	"github.com/vivint/rothko/draw/graph"
	"github.com/vivint/rothko/merge"
)

type rRec struct {
	start, end int64
	data       []byte
}

// rDB keeps the records of one metric in memory, the latest first. The memory
// it gives is used again for the next record.
type rDB struct {
	metric  string
	recs    []rRec
	err     error
	errAt   int
	metrics []string
	ends    []int64
	given   int
}

func (d *rDB) Query(ctx context.Context, metric string, end int64, buf []byte, cb database.ResultCallback) error {
	d.metrics = append(d.metrics, metric)
	d.ends = append(d.ends, end)
	for i, r := range d.recs {
		if metric != d.metric || r.end >= end {
			continue
		}
		if d.err != nil && i >= d.errAt {
			return d.err
		}
		buf = append(buf[:0], r.data...)
		d.given++
		more, err := cb(ctx, r.start, r.end, buf)
		for i := range buf {
			buf[i] = 0xff
		}
		if err != nil {
			return err
		}
		if !more {
			return nil
		}
	}
	if d.err != nil {
		return d.err
	}
	return nil
}
func (d *rDB) QueryLatest(ctx context.Context, metric string, buf []byte) (int64, int64, []byte, error) {
	return 0, 0, nil, errors.New("not asked for")
}
func (d *rDB) Metrics(ctx context.Context, cb func(name string) (bool, error)) error {
	return errors.New("not asked for")
}
func (d *rDB) Queue(ctx context.Context, metric string, start, end int64, data []byte, cb func(bool, error)) error {
	return errors.New("not asked for")
}
func (d *rDB) Run(ctx context.Context) error { return nil }

// rSame: the same columns, with the same values if those are certain.
func rSame(a, b []draw.Column) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].X != b[i].X || a[i].W != b[i].W || a[i].ObsSec != b[i].ObsSec || len(a[i].Data) != len(b[i].Data) {
			return false
		}
		certain := true
		for _, v := range b[i].Data {
			if v != b[i].Data[0] {
				certain = false
			}
		}
		if certain && !reflect.DeepEqual(a[i].Data, b[i].Data) {
			return false
		}
	}
	return true
}

// The answer to a render request is made of the records it covers.
func TestVerifRender(t *testing.T) {
	h := vhNew(t, 70)
	defer h.done()
	ctx := context.Background()
	for h.more(150) {
		db := &rDB{metric: "a.b c"}
		now := int64(1700000000000000000) + h.r.Int63n(1000000)
		unit := int64(1) << uint(20+h.r.Intn(26))
		end := now + h.r.Int63n(3)*unit
		for n := h.r.Intn(12); n > 0; n-- {
			start := end - 1 - h.r.Int63n(unit)
			d, err := tdigest.Params{Compression: 5}.New()
			if err != nil {
				t.Fatal(err)
			}
			// one value each, so that what is merged of one record is certain
			obs, val := 1+h.r.Intn(40), float64(len(db.recs)+1)
			for i := 0; i < obs; i++ {
				d.Observe(val)
			}
			rec := data.Record{StartTime: start, EndTime: end, Observations: int64(obs), Distribution: d.Marshal(nil), Kind: "tdigest", Merged: 1}
			b, err := rec.Marshal()
			if err != nil {
				t.Fatal(err)
			}
			db.recs = append(db.recs, rRec{start, end, b})
			end = start - h.r.Int63n(2)*h.r.Int63n(unit)
			if end == start && h.r.Intn(2) == 0 {
				end--
			}
		}
		sort.SliceStable(db.recs, func(i, j int) bool { return db.recs[i].end > db.recs[j].end })
		dur := time.Duration(1 + h.r.Int63n(10*unit))
		if len(db.recs) > 0 && h.r.Intn(3) == 0 {
			// up to exactly the end of a record
			if d := now - db.recs[h.r.Intn(len(db.recs))].end; d > 0 {
				dur = time.Duration(d)
			}
		}
		if h.r.Intn(8) == 0 && len(db.recs) > 0 {
			db.err, db.errAt = errors.New("database broke"), h.r.Intn(len(db.recs)+1)
		}
		width, height, samples := 200+h.r.Intn(600), 60+h.r.Intn(300), 1+h.r.Intn(20)
		if h.r.Intn(10) == 0 {
			width = h.r.Intn(150)
		}
		padding := h.r.Intn(10)

		// what the database gives, and what the answer is made of
		var used []rRec
		stopped := false
		for _, r := range db.recs {
			if r.end >= now {
				continue
			}
			used = append(used, r)
			if r.end < now-int64(dur) {
				stopped = true
				break
			}
		}
		fails := false
		if db.err != nil {
			last := 0
			for i, r := range db.recs {
				if r.end < now && len(used) > 0 && r.end >= used[len(used)-1].end {
					last = i
				}
			}
			fails = !stopped || db.errAt <= last
		}
		broken := -1
		if h.r.Intn(12) == 0 && len(used) > 0 && !fails {
			// one that cannot be decoded
			broken = h.r.Intn(len(used))
			for i := range db.recs {
				if db.recs[i].end == used[broken].end {
					db.recs[i].data = []byte{0xff, 0xff, 0xff}
				}
			}
		}

		vals := url.Values{}
		vals.Set("metric", db.metric)
		vals.Set("now", fmt.Sprint(now))
		vals.Set("duration", dur.String())
		vals.Set("width", fmt.Sprint(width))
		vals.Set("height", fmt.Sprint(height))
		vals.Set("padding", fmt.Sprint(padding))
		vals.Set("samples", fmt.Sprint(samples))
		desc := fmt.Sprintf("now %d, duration %s, %dx%d, %d samples, records ending at", now, dur, width, height, samples)
		for _, r := range db.recs {
			desc += fmt.Sprintf(" now%+d", r.end-now)
		}
		desc += fmt.Sprintf(", error %v from %d, undecodable %d", db.err, db.errAt, broken)
		h.did("%s", desc)
		ask := func(json bool) *httptest.ResponseRecorder {
			db.metrics, db.ends, db.given = nil, nil, 0
			req := httptest.NewRequest("GET", "http://h/api/render?"+vals.Encode(), nil)
			if json {
				req.Header.Set("Accept", "application/json")
			}
			w := httptest.NewRecorder()
			if !h.noPanic("panic", func() string { return desc }, func() { api.New(db, nil, api.Options{}).ServeHTTP(w, req) }) {
				return nil
			}
			if len(db.metrics) != 1 || db.metrics[0] != db.metric || db.ends[0] != now {
				h.fail("query", "%s: the database was asked for %q before %v", desc, db.metrics, db.ends)
			}
			return w
		}

		w := ask(true)
		if w == nil || h.bad > 0 {
			return
		}
		// the width of the heatmap decides
		mo := graph.MeasureOptions{Now: now, Duration: dur, Width: width, Height: height, Padding: padding}
		var want []draw.Column
		fits := true
		if !fails && broken < 0 {
			m := merge.NewMerger(merge.MergerOptions{Samples: samples, Now: now, Duration: dur, Params: tdigest.Params{Compression: 5}})
			for i, r := range used {
				var rec data.Record
				if err := rec.Unmarshal(r.data); err != nil {
					t.Fatal(err)
				}
				if i == 0 {
					d, err := load.Load(ctx, rec)
					if err != nil {
						t.Fatal(err)
					}
					mo.Earliest = d
					me, ok := graph.Measure(ctx, mo)
					if fits = ok; !ok {
						break
					}
					m.SetWidth(me.Width)
				}
				if err := m.Push(ctx, rec); err != nil {
					t.Fatal(err)
				}
			}
			if fits {
				var err error
				if want, err = m.Finish(ctx); err != nil {
					t.Fatal(err)
				}
			}
		}
		if fails || broken >= 0 || !fits {
			if w.Code < 400 {
				h.fail("error", "%s: status %d although the query fails %v, a record is undecodable %v, too small %v", desc, w.Code, fails, broken >= 0, !fits)
			}
			if h.bad > 0 {
				return
			}
			continue
		}
		var got struct {
			Metric                 string
			Columns                []draw.Column
			Earliest               []byte
			Now, Duration          int64
			Width, Height, Padding int
		}
		if err := json.Unmarshal(w.Body.Bytes(), &got); err != nil || w.Code != 200 {
			h.fail("answer", "%s: status %d, %v, body %q", desc, w.Code, err, w.Body.String())
			return
		}
		if !rSame(got.Columns, want) {
			h.fail("columns", "%s: %d columns, want %d made of the first %d records", desc, len(got.Columns), len(want), len(used))
		}
		var first []byte
		if len(used) > 0 {
			first = used[0].data
		}
		if !bytes.Equal(got.Earliest, first) {
			h.fail("earliest", "%s: the earliest record is %x, want %x", desc, got.Earliest, first)
		}
		if got.Metric != db.metric || got.Now != now || got.Duration != int64(dur) || got.Width != width || got.Height != height || got.Padding != padding {
			h.fail("echo", "%s: got %+v", desc, got)
		}
		if db.given != len(used) {
			h.fail("given", "%s: %d records were taken, want %d", desc, db.given, len(used))
		}
		if h.r.Intn(4) == 0 {
			w := ask(false)
			if w == nil {
				return
			}
			if w.Code >= 400 {
				if _, ok := graph.Measure(ctx, mo); ok {
					h.fail("image", "%s: status %d, body %q", desc, w.Code, w.Body.String())
				}
			} else {
				img, err := png.Decode(w.Body)
				if err != nil || img.Bounds().Dx() != width+2*padding || img.Bounds().Dy() != height+2*padding {
					h.fail("image", "%s: the image is bad: %v", desc, err)
				}
			}
		}
		if h.bad > 0 {
			return
		}
	}
}

// No parameters make it panic or hang; what cannot be drawn is refused.
func TestVerifRenderParams(t *testing.T) {
	h := vhNew(t, 30)
	defer h.done()
	d, _ := tdigest.Params{Compression: 5}.New()
	for i := 0; i < 50; i++ {
		d.Observe(float64(i))
	}
	base := int64(1700000000000000000)
	db := &rDB{metric: "m"}
	for i := int64(0); i < 3; i++ {
		rec := data.Record{StartTime: base - (i+1)*1e12, EndTime: base - i*1e12 - 1, Observations: 50, Distribution: d.Marshal(nil), Kind: "tdigest", Merged: 1}
		b, _ := rec.Marshal()
		db.recs = append(db.recs, rRec{rec.StartTime, rec.EndTime, b})
	}
	ints := []string{"", "0", "1", "-1", "2", "7", "99", "100", "120", "200", "-100", "300", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "x", "1e3"}
	nows := []string{"", "0", "1", "-1", "-9223372036854775808", "-9223372036854775000", "9223372036854775807", fmt.Sprint(base), fmt.Sprint(base + 5e12), "4611686018427387904", "4611686018427387905", fmt.Sprint(base - 2e12)}
	durs := []string{"", "0", "1ns", "-1ns", "1s", "24h", "-24h", "2562047h47m16.854775807s", "-2562047h47m16.854775808s", "876000h", "876001h", "1000h", "x"}
	comps := []string{"", "0", "1", "-1", "5", "NaN", "Inf", "-Inf", "1e300", "10000", "1e-320"}
	pick := func(s []string, def string) string {
		if h.r.Intn(3) > 0 {
			return def
		}
		return s[h.r.Intn(len(s))]
	}
	for h.more(100) {
		vals := url.Values{"metric": {"m"}}
		vals.Set("width", pick(ints, "300"))
		vals.Set("height", pick(ints, "120"))
		vals.Set("padding", pick(ints, "0"))
		vals.Set("samples", pick(ints, "10"))
		vals.Set("now", pick(nows, fmt.Sprint(base)))
		vals.Set("duration", pick(durs, "1h"))
		vals.Set("compression", pick(comps, "5"))
		desc := vals.Encode()
		h.did("%s", desc)
		js := h.r.Intn(2) == 0
		var w *httptest.ResponseRecorder
		db.metrics = nil
		if !h.noPanic("panic", func() string { return desc }, func() {
			h.within(20*time.Second, "hang", func() string { return desc }, func() {
				req := httptest.NewRequest("GET", "http://h/api/render?"+vals.Encode(), nil)
				if js {
					req.Header.Set("Accept", "application/json")
				}
				r := httptest.NewRecorder()
				api.New(db, nil, api.Options{}).ServeHTTP(r, req)
				w = r
			})
		}) || w == nil {
			return
		}
		if w.Code == 400 && len(db.metrics) > 0 {
			h.fail("bad request", "%s: the database was asked for a bad request", desc)
		}
		if w.Code == 200 && js {
			var got struct{ Columns []draw.Column }
			if err := json.Unmarshal(w.Body.Bytes(), &got); err != nil {
				h.fail("answer", "%s: %v", desc, err)
			}
			for _, c := range got.Columns {
				for _, v := range c.Data {
					if math.IsNaN(v) {
						h.fail("answer", "%s: not a number", desc)
					}
				}
			}
		}
		if h.bad > 0 {
			return
		}
	}
}
