package files

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// one value given to Queue
type vqVal struct {
	metric     string
	start, end int64
	data       []byte
	big        bool
	answers    int32
	ok         int32 // 1 when the answer was true
	failed     int32 // 1 when the answer was an error
}

func vqData(h *vh, n int, tag int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(tag*31 + i*7 + tag>>8)
	}
	return b
}

func (v *vqVal) cb(ok bool, err error) {
	if ok {
		atomic.StoreInt32(&v.ok, 1)
	}
	if err != nil {
		atomic.StoreInt32(&v.failed, 1)
	}
	atomic.AddInt32(&v.answers, 1)
}

func (v *vqVal) String() string {
	return fmt.Sprintf("%s[%d,%d)x%d", v.metric, v.start, v.end, len(v.data))
}

// stored reports the bytes the database holds for the value.
func vqStored(db *DB, metric string, end int64) (start int64, data []byte, found bool, err error) {
	err = db.Query(context.Background(), metric, end+1, nil, func(ctx context.Context, s, e int64, d []byte) (bool, error) {
		if e == end {
			start, data, found = s, append([]byte{}, d...), true
		}
		return false, nil
	})
	if err != nil && !found {
		if _, e := os.Stat(db.dir + "/" + metricDirT(metric)); os.IsNotExist(e) {
			err = nil // nothing was ever written
		}
	}
	return
}

func metricDirT(metric string) string { return string(metricToDir(nil, metric)) }

func vqWait(d time.Duration, f func() bool) bool {
	for t := time.Now().Add(d); time.Now().Before(t); time.Sleep(200 * time.Microsecond) {
		if f() {
			return true
		}
	}
	return f()
}

// TestVerifC18Steps: one caller, so that every outcome is known.
func TestVerifC18Steps(t *testing.T) {
	h := vhNew(t, 60)
	defer h.done()
	for h.more(25) {
		dir := h.dir()
		opts := Options{Size: 100 + h.r.Intn(60), Cap: 2 + h.r.Intn(20), Files: 4}
		opts.Tuning = Tuning{Buffer: h.r.Intn(6), Drop: h.r.Intn(2) == 0, Handles: 1 + h.r.Intn(3), Workers: 1 + h.r.Intn(2)}
		log := fmt.Sprintf("db size=%d cap=%d buffer=%d drop=%v workers=%d", opts.Size, opts.Cap, opts.Tuning.Buffer, opts.Tuning.Drop, opts.Tuning.Workers)
		fail := func(format string, args ...interface{}) {
			h.fail("queue", "%s AFTER %s", fmt.Sprintf(format, args...), log)
		}
		db := New(dir, opts)
		var waiting []*vqVal
		tag := h.r.Intn(1000)
		mk := func() *vqVal {
			tag++
			v := &vqVal{metric: fmt.Sprintf("m%d", tag), start: int64(tag) * 10}
			v.end = v.start + 5
			n := h.r.Intn(150)
			v.data = vqData(h, n, tag)
			if h.r.Intn(12) == 0 { // more than the file can hold
				v.data = vqData(h, opts.Size*(opts.Cap+2), tag)
				v.big = true
			}
			return v
		}
		check := func(v *vqVal, stored bool) {
			start, data, found, err := vqStored(db, v.metric, v.end)
			if err != nil {
				fail("reading %v: %v", v, err)
			}
			if found != stored {
				fail("%v stored=%v, want %v", v, found, stored)
			} else if found && (start != v.start || !bytes.Equal(data, v.data)) {
				fail("%v was stored as start %d and %d bytes %.40x, want %.40x", v, start, len(data), data, v.data)
			}
		}
		wrote := false // the running Run has written something
		queue := func(running bool, nilcb bool) {
			v := mk()
			ctx, cancel := context.WithCancel(context.Background())
			full := !running && len(waiting) >= opts.Tuning.Buffer
			dead := false
			if full && !opts.Tuning.Drop {
				dead = true
				if h.r.Intn(2) == 0 {
					cancel()
				} else {
					time.AfterFunc(time.Millisecond, cancel)
				}
			}
			log += fmt.Sprintf("; queue %v running=%v dead=%v nil=%v", v, running, dead, nilcb)
			give := append([]byte{}, v.data...)
			cb := v.cb
			if nilcb {
				cb = nil
			}
			var err error
			if !h.within(20*time.Second, "queue", func() string { return log }, func() {
				err = db.Queue(ctx, v.metric, v.start, v.end, give, cb)
			}) {
				cancel()
				return
			}
			cancel()
			if err != nil {
				fail("Queue returned %v", err)
			}
			if !bytes.Equal(give, v.data) {
				fail("Queue changed its argument")
			}
			for i := range give { // the caller does what it likes with it
				give[i] = 0xEE
			}
			switch {
			case nilcb:
				if !full && !running {
					waiting = append(waiting, v)
					v.answers = 1 // nobody to count
				}
			case full:
				if v.answers != 1 || v.ok != 0 || v.failed != 0 {
					fail("refused %v got %d answers ok=%d err=%d", v, v.answers, v.ok, v.failed)
				}
				check(v, false)
			case running:
				// Drop may refuse it when no worker is ready
				if !vqWait(20*time.Second, func() bool { return atomic.LoadInt32(&v.answers) > 0 }) {
					fail("%v got no answer", v)
					return
				}
				time.Sleep(time.Duration(h.r.Intn(3)) * 100 * time.Microsecond)
				if n := atomic.LoadInt32(&v.answers); n != 1 {
					fail("%v got %d answers", v, n)
				}
				ok, failed := atomic.LoadInt32(&v.ok) == 1, atomic.LoadInt32(&v.failed) == 1
				if failed != v.big && (failed || !opts.Tuning.Drop) {
					fail("%v answered with an error: %v", v, failed)
				}
				if !ok && !failed && !opts.Tuning.Drop {
					fail("%v was not written", v)
				}
				check(v, ok)
				wrote = wrote || ok
			default:
				if v.answers != 0 {
					fail("waiting %v got %d answers", v, v.answers)
				}
				waiting = append(waiting, v)
			}
		}
		for round := 0; round < 1+h.r.Intn(3) && h.bad == 0; round++ {
			for i, n := 0, h.r.Intn(opts.Tuning.Buffer+5); i < n && h.bad == 0; i++ {
				queue(false, h.r.Intn(8) == 0)
			}
			ctx, cancel := context.WithCancel(context.Background())
			early := h.r.Intn(4) == 0
			wrote = false
			if early {
				cancel()
			}
			log += fmt.Sprintf("; run early=%v", early)
			done := make(chan error, 1)
			go func() { done <- db.Run(ctx) }()
			if !early {
				if !vqWait(20*time.Second, func() bool {
					for _, v := range waiting {
						if atomic.LoadInt32(&v.answers) == 0 {
							return false
						}
					}
					return true
				}) {
					fail("waiting values got no answer from the workers")
				}
				for i, n := 0, h.r.Intn(6); i < n && h.bad == 0; i++ {
					queue(true, false)
				}
				if wrote && h.r.Intn(2) == 0 && h.bad == 0 {
					// a second Run has to fail and change nothing
					log += "; run again"
					c2, cancel2 := context.WithCancel(context.Background())
					cancel2()
					if db.Run(c2) == nil {
						fail("two Run calls at once")
					}
					queue(true, false)
				}
			}
			cancel()
			select {
			case <-done:
			case <-time.After(20 * time.Second):
				fail("Run does not return")
				return
			}
			log += "; stopped"
			for _, v := range waiting {
				if v.metric == "" {
					continue
				}
				ok, failed := v.ok == 1, v.failed == 1
				if v.answers != 1 {
					fail("%v got %d answers", v, v.answers)
				}
				if !early && v.big != failed && !(v.answers == 1 && !ok && !failed) {
					fail("%v answered with error=%v", v, failed)
				}
				if ok {
					check(v, true)
				} else if _, _, found, _ := vqStored(db, v.metric, v.end); found && failed {
					fail("%v is stored but was answered with an error", v)
				} else if found { // only right without a callback
					start, data, _, _ := vqStored(db, v.metric, v.end)
					if start != v.start || !bytes.Equal(data, v.data) {
						fail("%v was stored as start %d and %d bytes %.40x, want %.40x", v, start, len(data), data, v.data)
					}
				}
			}
			waiting = nil
		}
		h.did("%s", log)
		os.RemoveAll(dir)
	}
}

// TestVerifC18Many: callers, workers and shutdown all at once.
func TestVerifC18Many(t *testing.T) {
	h := vhNew(t, 40)
	defer h.done()
	for h.more(8) {
		dir := h.dir()
		opts := Options{Size: 120, Cap: 8, Files: 4}
		opts.Tuning = Tuning{Buffer: h.r.Intn(4), Drop: h.r.Intn(2) == 0, Handles: 4, Workers: 1 + h.r.Intn(4)}
		db := New(dir, opts)
		log := fmt.Sprintf("db buffer=%d drop=%v workers=%d", opts.Tuning.Buffer, opts.Tuning.Drop, opts.Tuning.Workers)
		var mu sync.Mutex
		var all []*vqVal
		ctx, cancel := context.WithCancel(context.Background())
		qctx, qcancel := context.WithCancel(context.Background())
		done := make(chan error, 1)
		go func() { done <- db.Run(ctx) }()
		var wg sync.WaitGroup
		per := 20 + h.r.Intn(40)
		for g := 0; g < 4; g++ {
			seed := h.r.Intn(100000)
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < per; i++ {
					v := &vqVal{metric: fmt.Sprintf("g%d.%d", g, i), start: int64(i), end: int64(i) + 1}
					v.data = vqData(h, (seed+i*13)%90, seed+i)
					mu.Lock()
					all = append(all, v)
					mu.Unlock()
					give := append([]byte{}, v.data...)
					db.Queue(qctx, v.metric, v.start, v.end, give, v.cb)
					for k := range give {
						give[k] = 0xDD
					}
				}
			}(g)
		}
		time.Sleep(time.Duration(h.r.Intn(4000)) * time.Microsecond)
		cancel()
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			h.fail("queue-many", "Run does not return; %s", log)
			return
		}
		time.Sleep(time.Duration(h.r.Intn(1000)) * time.Microsecond)
		qcancel()
		if !h.within(20*time.Second, "queue-many", func() string { return "Queue after cancel; " + log }, wg.Wait) {
			return
		}
		// what was put in the new queue is for the next Run
		ctx, cancel = context.WithCancel(context.Background())
		go func() { done <- db.Run(ctx) }()
		vqWait(20*time.Second, func() bool {
			for _, v := range all {
				if atomic.LoadInt32(&v.answers) == 0 {
					return false
				}
			}
			return true
		})
		cancel()
		<-done
		written := 0
		for _, v := range all {
			n, ok := atomic.LoadInt32(&v.answers), atomic.LoadInt32(&v.ok) == 1
			if n != 1 || v.failed != 0 {
				h.fail("queue-many", "%v got %d answers, error=%d; %s", v, n, v.failed, log)
				break
			}
			start, data, found, err := vqStored(db, v.metric, v.end)
			if err != nil || found != ok || found && (start != v.start || !bytes.Equal(data, v.data)) {
				h.fail("queue-many", "%v answered %v but stored=%v err=%v %.40x want %.40x; %s", v, ok, found, err, data, v.data, log)
				break
			}
			if ok {
				written++
			}
		}
		h.did("%s %d values %d written", log, len(all), written)
		os.RemoveAll(dir)
	}
}
