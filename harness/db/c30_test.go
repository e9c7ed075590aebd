package files

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// TestVerifC30Pool: many users of a few keys.
func TestVerifC30Pool(t *testing.T) {
	h := vhNew(t, 35)
	defer h.done()
	for h.more(20) {
		l := newLockPool()
		keys := make([]string, 1+h.r.Intn(4))
		for i := range keys {
			keys[i] = strings.Repeat("k", i)
		}
		inside := make([]int32, len(keys))
		plain := make([]int, len(keys)) // only touched under the lock
		users, rounds := 2+h.r.Intn(7), 30+h.r.Intn(100)
		mode := h.r.Intn(4)
		var wrong int32
		var wg sync.WaitGroup
		var total [8]int32
		for u := 0; u < users; u++ {
			wg.Add(1)
			seed := h.r.Intn(1000)
			go func(u int) {
				defer wg.Done()
				h.noPanic("lockpool", func() string { return "Lock and Unlock" }, func() {
					for i := 0; i < rounds; i++ {
						k := (seed + i*i + u*i) % len(keys)
						l.Lock(keys[k])
						if atomic.AddInt32(&inside[k], 1) != 1 {
							atomic.StoreInt32(&wrong, 1)
						}
						p := plain[k]
						switch mode {
						case 0:
							runtime.Gosched()
						case 1:
							time.Sleep(time.Microsecond)
						case 2:
							if i%7 == 0 {
								runtime.Gosched()
							}
						}
						plain[k] = p + 1
						atomic.AddInt32(&total[k], 1)
						atomic.AddInt32(&inside[k], -1)
						l.Unlock(keys[k])
					}
				})
			}(u)
		}
		desc := fmt.Sprintf("%d users of %d keys, %d rounds, mode %d", users, len(keys), rounds, mode)
		if !h.within(30*time.Second, "lockpool", func() string { return desc }, wg.Wait) {
			return
		}
		if wrong != 0 {
			h.fail("lockpool", "two users held the lock of one key: %s", desc)
		}
		for k := range keys {
			if plain[k] != int(total[k]) {
				h.fail("lockpool", "lost update under the lock of key %d: %d of %d: %s", k, plain[k], total[k], desc)
			}
		}
		if n := len(l.locks); n != 0 {
			h.fail("lockpool", "%d entries left behind: %s", n, desc)
		}
		h.did("%s", desc)
	}
}

// TestVerifC30Held: nothing of a metric runs while a reader of it is in its callback,
// everything of other metrics does, and every way out leaves the lock free.
func TestVerifC30Held(t *testing.T) {
	h := vhNew(t, 65)
	defer h.done()
	for h.more(6) {
		dir := h.dir()
		opts := Options{Size: 100, Cap: 2 + h.r.Intn(6), Files: 3}
		opts.Tuning = Tuning{Buffer: 4, Handles: h.r.Intn(4), Workers: 4}
		db := New(dir, opts)
		log := fmt.Sprintf("db cap=%d handles=%d", opts.Cap, opts.Tuning.Handles)
		fail := func(format string, args ...interface{}) {
			h.fail("held", "%s AFTER %s", fmt.Sprintf(format, args...), log)
		}
		ctx, cancel := context.WithCancel(context.Background())
		done := make(chan error, 1)
		go func() { done <- db.Run(ctx) }()
		names := []string{"a", "a.b", "b", strings.Repeat("c", 255)}
		clock := map[string]int64{}
		type answer struct {
			ok  bool
			err error
		}
		put := func(name string, n int) chan answer {
			clock[name]++
			c := make(chan answer, 1)
			qctx, qcancel := context.WithTimeout(ctx, 10*time.Second)
			defer qcancel()
			db.Queue(qctx, name, clock[name]*10, clock[name]*10+10, bytes.Repeat([]byte{byte(clock[name])}, n), func(ok bool, err error) { c <- answer{ok, err} })
			return c
		}
		// get waits for an answer
		get := func(what string, c chan answer) (a answer, ok bool) {
			select {
			case a = <-c:
				return a, true
			case <-time.After(10 * time.Second):
				fail("%s has no answer", what)
				return a, false
			}
		}
		for i, n := 0, 1+h.r.Intn(5); i < n; i++ {
			for _, name := range names[:3] {
				if a, ok := get("write of "+name, put(name, h.r.Intn(150))); ok && (!a.ok || a.err != nil) {
					fail("write of %s: %v %v", name, a.ok, a.err)
				}
			}
		}
		for step, n := 0, 3+h.r.Intn(4); step < n && h.bad == 0; step++ {
			name := names[h.r.Intn(3)]
			h.within(60*time.Second, "held", func() string { return "a step; " + log }, func() {
				switch kind := h.r.Intn(8); kind {
				case 0, 1, 2: // while one reads, the others wait
					other := h.r.Intn(3)
					log += fmt.Sprintf("; %s read with %d waiting", name, other)
					finished := make(chan string, 1)
					var inside int32
					calls := 0
					err := db.Query(ctx, name, 1<<60, nil, func(_ context.Context, s, e int64, d []byte) (bool, error) {
						calls++
						if calls > 1 {
							return false, nil
						}
						atomic.StoreInt32(&inside, 1)
						before := append([]byte{}, d...)
						go func() {
							switch other {
							case 0:
								db.Query(ctx, name, 1<<60, nil, func(context.Context, int64, int64, []byte) (bool, error) { return false, nil })
								finished <- "Query"
							case 1:
								db.QueryLatest(ctx, name, nil)
								finished <- "QueryLatest"
							case 2:
								get("write", put(name, 3))
								finished <- "write"
							}
						}()
						select {
						case w := <-finished:
							fail("%s of %q went on while a Query of it was in its callback", w, name)
							finished <- w
						case <-time.After(8 * time.Millisecond):
						}
						// the other metrics are not held up
						for _, o := range names[:3] {
							if o != name {
								if _, _, _, err := db.QueryLatest(ctx, o, nil); err != nil {
									fail("QueryLatest of %q: %v", o, err)
								}
								if other != 2 {
									get("write of "+o+" during a query of "+name, put(o, h.r.Intn(100)))
								}
							}
						}
						if !bytes.Equal(before, d) {
							fail("the bytes given to the callback changed")
						}
						return h.r.Intn(2) == 0, nil
					})
					if err != nil || calls == 0 {
						fail("Query of %q: %v, %d calls", name, err, calls)
					}
					select {
					case <-finished:
					case <-time.After(10 * time.Second):
						fail("the waiting call on %q never went on", name)
					}
				case 3: // a callback that fails
					log += "; failing callback"
					if err := db.Query(ctx, name, 1<<60, nil, func(context.Context, int64, int64, []byte) (bool, error) {
						return true, errors.New("stop")
					}); err == nil {
						fail("the error of the callback is gone")
					}
				case 4: // a value that is too large
					log += "; too large"
					if a, ok := get("too large write", put(name, opts.Size*(opts.Cap+3))); ok && (a.ok || a.err == nil) {
						fail("a value larger than a file was accepted")
					}
				case 5: // a metric that cannot be made or does not exist
					log += "; impossible metric"
					bad := strings.Repeat("x", 300)
					if a, ok := get("impossible write", put(bad, 1)); ok && a.ok {
						fail("impossible write accepted")
					}
					db.Query(ctx, bad, 10, nil, func(context.Context, int64, int64, []byte) (bool, error) { return true, nil })
					db.QueryLatest(ctx, bad, nil)
					name = bad
				case 6: // a metric whose file is damaged
					log += "; damaged"
					if a, ok := get("write", put(names[3], 5)); ok && a.ok {
						p := dir + "/" + string(metricToDir(nil, names[3]))
						fs, _ := os.ReadDir(p)
						for _, f := range fs {
							os.WriteFile(p+"/"+f.Name(), make([]byte, 7), 0644)
						}
						db.Query(ctx, names[3], 1<<60, nil, func(context.Context, int64, int64, []byte) (bool, error) { return true, nil })
						db.QueryLatest(ctx, names[3], nil)
						get("write to a damaged metric", put(names[3], 5))
						os.RemoveAll(p)
					}
					name = names[3]
				case 7: // a write that is not newer
					log += "; old write"
					clock[name]--
					if a, ok := get("old write", put(name, 5)); ok && (a.ok || a.err != nil) {
						fail("an old write was answered %v %v", a.ok, a.err)
					}
				}
			})
			// the lock is free again
			if h.bad == 0 {
				h.within(10*time.Second, "held", func() string { return "QueryLatest afterwards; " + log }, func() { db.QueryLatest(ctx, name, nil) })
			}
			if h.bad == 0 && len(name) < 255 {
				if a, ok := get("write afterwards", put(name, 1)); ok && (!a.ok || a.err != nil) {
					fail("write to %q afterwards: %v %v", name, a.ok, a.err)
				}
			}
		}
		cancel()
		if h.bad == 0 {
			<-done
			if n := len(db.locks.locks); n != 0 {
				fail("%d lock entries left behind", n)
			}
		}
		h.did("%s", log)
		os.RemoveAll(dir)
	}
}
