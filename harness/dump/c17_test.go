package dump_test

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/dump"
)

// dParams makes distributions whose encoding is as long as the sum of what
// they observed.
type dParams struct{}

func (dParams) Kind() string                          { return "d" }
func (dParams) New() (dist.Dist, error)               { return &dDist{}, nil }
func (dParams) Unmarshal(b []byte) (dist.Dist, error) { return nil, errors.New("no") }

type dDist struct {
	sum, n int
}

func (d *dDist) Kind() string          { return "d" }
func (d *dDist) Query(float64) float64 { return 0 }
func (d *dDist) CDF(float64) float64   { return 0 }
func (d *dDist) Len() int64            { return int64(d.n) }
func (d *dDist) Observe(v float64)     { d.sum += int(v); d.n++ }
func (d *dDist) Marshal(buf []byte) []byte {
	for i := 0; i < d.sum; i++ {
		buf = append(buf, byte('a'+(i+d.sum)%26))
	}
	return buf
}

// dCall is one record given to the database.
type dCall struct {
	metric     string
	start, end int64
	data       []byte // as given
	copy       []byte // its contents then
	done       func(bool, error)
}

// dDB answers calls as it is told: at once, later, or with an error.
type dDB struct {
	database.DB
	h    *vh
	desc func() string

	mu      sync.Mutex
	how     func(i int) int // 0 later, 1 at once, 2 error, 3 in a goroutine
	calls   []*dCall
	pending []*dCall
	refused int
	open    int // not yet answered
	onQueue func(i int)
}

func (db *dDB) finish(c *dCall, written bool, err error) {
	if !bytes.Equal(c.data, c.copy) {
		db.h.fail("buffer", "%s: the bytes queued for %q changed from %q to %q before the database was done with them", db.desc(), c.metric, c.copy, c.data)
	}
	db.mu.Lock()
	db.open--
	db.mu.Unlock()
	c.done(written, err)
}

func (db *dDB) Queue(ctx context.Context, metric string, start, end int64, d []byte, cb func(bool, error)) error {
	db.mu.Lock()
	i := len(db.calls)
	c := &dCall{metric, start, end, d, append([]byte(nil), d...), cb}
	db.calls = append(db.calls, c)
	for _, p := range db.pending {
		if !bytes.Equal(p.data, p.copy) {
			db.h.fail("buffer", "%s: the bytes queued for %q changed from %q to %q before the database was done with them", db.desc(), p.metric, p.copy, p.data)
		}
	}
	how := db.how(i)
	if how == 2 {
		db.refused++
		db.mu.Unlock()
		if db.onQueue != nil {
			db.onQueue(i)
		}
		return errors.New("refused")
	}
	db.open++
	if how == 0 {
		db.pending = append(db.pending, c)
	}
	db.mu.Unlock()
	if db.onQueue != nil {
		db.onQueue(i)
	}
	switch how {
	case 1:
		db.finish(c, i%2 == 0, nil)
	case 3:
		go func() {
			runtime.Gosched()
			db.finish(c, i%3 == 0, errors.New("disk"))
		}()
	}
	return nil
}

// drain answers everything that waits, in a random order.
func (db *dDB) drain() {
	db.mu.Lock()
	ps := db.pending
	db.pending = nil
	db.mu.Unlock()
	for i := range ps {
		j := (i*7 + 3) % len(ps)
		if len(ps)%7 == 0 {
			j = i
		}
		db.finish(ps[j], true, nil)
	}
}

func TestVerifC17Dump(t *testing.T) {
	h := vhNew(t, 100)
	for h.more(150) {
		rounds := 1 + h.r.Intn(3)
		bufsize := []int{0, 1, 16, 64, 200}[h.r.Intn(5)]
		var trace []string
		desc := func() string { return fmt.Sprintf("bufsize %d: %s", bufsize, strings.Join(trace, "; ")) }
		db := &dDB{h: h, desc: desc}
		d := dump.New(dump.Options{DB: db, Bufsize: bufsize, Period: time.Hour})
		w := data.NewWriter(dParams{})
		for r := 0; r < rounds && h.bad == 0; r++ {
			type want struct {
				n   int64
				enc string
				min float64
			}
			model := map[string]*dDist{}
			n := h.r.Intn(14)
			var adds []string
			for i := 0; i < n; i++ {
				metric := fmt.Sprintf("m%d", h.r.Intn(8))
				v := h.r.Intn(40)
				if h.r.Intn(6) == 0 {
					v = h.r.Intn(400)
				}
				w.Add(context.Background(), metric, float64(v), []byte(metric))
				if model[metric] == nil {
					model[metric] = &dDist{}
				}
				model[metric].Observe(float64(v))
				adds = append(adds, fmt.Sprintf("%s %d", metric, v))
			}
			// the calls are answered in one way, or in any way
			mode := h.r.Intn(7)
			hows := make([]int, len(model)+1)
			for i := range hows {
				if mode < 4 {
					hows[i] = mode
				} else {
					hows[i] = h.r.Intn(4)
				}
			}
			cancelAt := -1
			if h.r.Intn(4) == 0 {
				cancelAt = h.r.Intn(len(model) + 1)
			}
			trace = append(trace, fmt.Sprintf("add %v, dump answered %v, cancelled at %d", adds, hows, cancelAt))
			ctx, cancel := context.WithCancel(context.Background())
			if cancelAt == 0 {
				cancel()
			}
			db.mu.Lock()
			db.calls, db.pending, db.refused, db.open = nil, nil, 0, 0
			db.how = func(i int) int {
				if i >= len(hows) {
					return 2
				}
				return hows[i]
			}
			db.onQueue = func(i int) {
				if i == cancelAt-1 {
					cancel()
				}
			}
			db.mu.Unlock()
			before := time.Now().UnixNano()
			returned := make(chan bool)
			var openAtReturn int
			go func() {
				defer close(returned)
				h.noPanic("panic", desc, func() {
					d.Dump(ctx, w)
					db.mu.Lock()
					openAtReturn = db.open
					db.mu.Unlock()
				})
			}()
			// let Dump run into its wait, then answer
			wantCalls := len(model)
			if cancelAt >= 0 && cancelAt < wantCalls {
				wantCalls = cancelAt
			}
			dead := time.Now().Add(20 * time.Second)
			early := false
		wait:
			for {
				db.mu.Lock()
				n, p := len(db.calls), len(db.pending)
				db.mu.Unlock()
				select {
				case <-returned:
					early = p > 0
					break wait
				default:
				}
				if n >= wantCalls && p > 0 {
					if h.r.Intn(4) == 0 {
						time.Sleep(200 * time.Microsecond)
					} else {
						runtime.Gosched()
					}
					select {
					case <-returned:
						early = true
						break wait
					default:
					}
					db.drain()
				}
				if time.Now().After(dead) {
					h.fail("hang", "%s: Dump does not return", desc())
					break wait
				}
				runtime.Gosched()
			}
			cancel()
			if h.bad > 0 {
				break
			}
			if early || openAtReturn != 0 {
				h.fail("early", "%s: Dump returned before every record was answered", desc())
				break
			}
			seen := map[string]bool{}
			for _, c := range db.calls {
				var rec data.Record
				m := model[c.metric]
				switch err := rec.Unmarshal(c.copy); {
				case m == nil || seen[c.metric]:
					h.fail("record", "%s: %q was queued twice or not captured", desc(), c.metric)
				case err != nil:
					h.fail("record", "%s: %q was queued with bytes %q that do not decode: %v", desc(), c.metric, c.copy, err)
				case rec.Observations != m.Len() || string(rec.Distribution) != string(m.Marshal(nil)) || rec.Kind != "d" || rec.Merged != 1 || string(rec.MinId) != c.metric || string(rec.MaxId) != c.metric:
					h.fail("record", "%s: %q was queued with %+v", desc(), c.metric, rec)
				case rec.StartTime != c.start || rec.EndTime != c.end || c.end < before || c.start > c.end:
					h.fail("times", "%s: %q was queued for %d to %d, its record says %d to %d", desc(), c.metric, c.start, c.end, rec.StartTime, rec.EndTime)
				case rec.Size() != len(c.copy):
					h.fail("record", "%s: %q was queued with %d bytes for a record of %d", desc(), c.metric, len(c.copy), rec.Size())
				}
				seen[c.metric] = true
			}
			if len(db.calls) != wantCalls {
				var names []string
				for k := range model {
					names = append(names, k)
				}
				sort.Strings(names)
				h.fail("missing", "%s: %d of %d records queued (%v)", desc(), len(db.calls), wantCalls, names)
			}
			if h.bad > 0 {
				break
			}
		}
		h.did("%s", desc())
	}
	h.done()
}
