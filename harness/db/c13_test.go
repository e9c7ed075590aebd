package files

import (
	"context"
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// vnList calls Metrics and checks the order.
func vnList(h *vh, db *DB, desc func() string) map[string]bool {
	out := map[string]bool{}
	last, first := "", true
	err := db.Metrics(context.Background(), func(name string) (bool, error) {
		if !first && name <= last {
			h.fail("metrics", "%q listed after %q; %s", name, last, desc())
		}
		last, first = name, false
		out[name] = true
		return true, nil
	})
	if err != nil {
		h.fail("metrics", "Metrics: %v; %s", err, desc())
	}
	return out
}

var vnNames = []string{"a", "b", "a.b", "a..b", ".a", "a.", "..", ".", "a/b", "%", "a%2eb", "z z", "A", "\x01", "\xff\xfe", strings.Repeat("long.", 20)}

func vnName(h *vh) string {
	if h.r.Intn(2) == 0 {
		return vnNames[h.r.Intn(len(vnNames))]
	}
	return fmt.Sprintf("m%d.%d", h.r.Intn(3), h.r.Intn(6))
}

// TestVerifC13Steps: one caller; what has to be listed is known exactly.
func TestVerifC13Steps(t *testing.T) {
	h := vhNew(t, 50)
	defer h.done()
	for h.more(15) {
		dir := h.dir()
		opts := Options{Size: 100, Cap: 4, Files: 1}
		opts.Tuning = Tuning{Buffer: h.r.Intn(3), Handles: 2, Workers: 1 + h.r.Intn(4)}
		stored := map[string]bool{}
		clock := int64(0)
		log := fmt.Sprintf("workers=%d", opts.Tuning.Workers)
		desc := func() string { return log }
		for open, n := 0, 1+h.r.Intn(3); open < n && h.bad == 0; open++ {
			db := New(dir, opts)
			ctx, cancel := context.WithCancel(context.Background())
			done := make(chan error, 1)
			fresh := map[string]bool{} // written since it was opened
			populated := false
			log += "; open"
			running := h.r.Intn(5) > 0
			if running {
				go func() { done <- db.Run(ctx) }()
			}
			check := func(what string) {
				got := vnList(h, db, desc)
				for name := range fresh {
					if !got[name] {
						h.fail("metrics", "%s: %q is not listed; %s", what, name, log)
					}
				}
				for name := range got {
					if !stored[name] {
						h.fail("metrics", "%s: %q is listed but never stored; %s", what, name, log)
					}
				}
				if populated {
					for name := range stored {
						if !got[name] {
							h.fail("metrics", "%s: stored %q is not listed; %s", what, name, log)
						}
					}
				}
			}
			write := func() {
				if !running {
					return
				}
				name := vnName(h)
				clock++
				log += fmt.Sprintf("; write %q", name)
				stored[name] = true
				c := make(chan bool, 1)
				qctx, qcancel := context.WithTimeout(ctx, 20*time.Second)
				defer qcancel()
				var werr error
				db.Queue(qctx, name, clock*10, clock*10+5, []byte{1, 2, 3}, func(ok bool, err error) { werr = err; c <- ok })
				if !<-c {
					h.fail("metrics", "write of %q failed: %v; %s", name, werr, log)
				}
				fresh[name] = true
			}
			for step, n := 0, h.r.Intn(14); step < n && h.bad == 0; step++ {
				switch h.r.Intn(9) {
				case 0, 1, 2, 3:
					write()
				case 4:
					check("listing")
				case 5:
					log += "; populate"
					if err := db.PopulateMetrics(ctx); err != nil {
						h.fail("metrics", "PopulateMetrics: %v; %s", err, log)
					}
					populated = true
					check("after populate")
				case 6: // reading adds no names
					name := "read." + vnName(h)
					log += fmt.Sprintf("; read %q", name)
					db.Query(ctx, name, 100, nil, func(context.Context, int64, int64, []byte) (bool, error) { return true, nil })
					db.QueryLatest(ctx, name, nil)
					check("after a read")
				case 7: // stopping early, and writing while it lists
					all := len(vnList(h, db, desc))
					at, fails := h.r.Intn(6), h.r.Intn(2) == 0
					log += fmt.Sprintf("; list to %d", at)
					stop := errors.New("stop")
					calls := 0
					err := db.Metrics(ctx, func(name string) (bool, error) {
						calls++
						if h.r.Intn(3) == 0 {
							write()
						}
						if calls > at {
							if fails {
								return h.r.Intn(2) == 0, stop
							}
							return false, nil
						}
						return true, nil
					})
					// the names found by Run may come in at any time
					if calls > at+1 || calls < all && calls < at+1 || (calls == at+1 && fails) != (err == stop) || err != nil && err != stop {
						h.fail("metrics", "stopping after %d of %d: %d calls, error %v; %s", at, all, calls, err, log)
					}
				case 8:
					vnList(h, db, desc)
					vnList(h, db, desc)
					check("listed again")
				}
			}
			check("at the end")
			cancel()
			if running {
				<-done
			}
			log += "; close"
		}
		if h.bad == 0 {
			db := New(dir, opts)
			if err := db.PopulateMetrics(context.Background()); err != nil {
				h.fail("metrics", "PopulateMetrics: %v; %s", err, log)
			}
			got := vnList(h, db, desc)
			if len(got) != len(stored) {
				h.fail("metrics", "a new database lists %v, stored %v; %s", vnKeys(got), vnKeys(stored), log)
			}
			for name := range stored {
				if !got[name] {
					h.fail("metrics", "a new database does not list %q; %s", name, log)
				}
			}
		}
		h.did("%s", log)
		os.RemoveAll(dir)
	}
}

func vnKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// TestVerifC13Many: writers, listers and populates at once. A name whose write was
// answered before a listing starts has to be in it.
func TestVerifC13Many(t *testing.T) {
	h := vhNew(t, 50)
	defer h.done()
	for h.more(6) {
		dir := h.dir()
		opts := Options{Size: 80, Cap: 4, Files: 1}
		opts.Tuning = Tuning{Buffer: 8, Handles: 16, Workers: 1 + h.r.Intn(4)}
		db := New(dir, opts)
		ctx, cancel := context.WithCancel(context.Background())
		done := make(chan error, 1)
		go func() { done <- db.Run(ctx) }()
		const writers, per = 3, 40
		var upto [writers]int64
		desc := fmt.Sprintf("workers=%d, %d writers", opts.Tuning.Workers, writers)
		var stop int32
		var wg, lw sync.WaitGroup
		for w := 0; w < writers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for i := 0; i < per; i++ {
					c := make(chan bool, 1)
					db.Queue(ctx, fmt.Sprintf("w%d-%03d", w, i), 1, 2, []byte{byte(i)}, func(ok bool, err error) { c <- ok })
					if !<-c {
						h.fail("metrics", "write failed; %s", desc)
						return
					}
					atomic.StoreInt64(&upto[w], int64(i+1))
				}
			}(w)
		}
		for l, n := 0, 1+h.r.Intn(3); l < n; l++ {
			lw.Add(1)
			go func() {
				defer lw.Done()
				for atomic.LoadInt32(&stop) == 0 && h.bad == 0 {
					var at [writers]int64
					for w := range at {
						at[w] = atomic.LoadInt64(&upto[w])
					}
					got := vnList(h, db, func() string { return desc })
					for w := range at {
						for i := int64(0); i < at[w]; i++ {
							if name := fmt.Sprintf("w%d-%03d", w, i); !got[name] {
								h.fail("metrics", "%s was written before the listing and is not in it; %s", name, desc)
								return
							}
						}
					}
				}
			}()
		}
		if h.r.Intn(3) > 0 {
			lw.Add(1)
			go func() {
				defer lw.Done()
				for atomic.LoadInt32(&stop) == 0 {
					if err := db.PopulateMetrics(ctx); err != nil {
						h.fail("metrics", "PopulateMetrics: %v", err)
						return
					}
				}
			}()
		}
		h.within(60*time.Second, "metrics", func() string { return desc }, wg.Wait)
		atomic.StoreInt32(&stop, 1)
		h.within(60*time.Second, "metrics", func() string { return desc }, lw.Wait)
		got := vnList(h, db, func() string { return desc })
		if len(got) != writers*per && h.bad == 0 {
			h.fail("metrics", "%d of %d names listed; %s", len(got), writers*per, desc)
		}
		cancel()
		<-done
		h.did("%s", desc)
		os.RemoveAll(dir)
	}
}
