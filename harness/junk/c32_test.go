package junk

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func TestVerifFlag(t *testing.T) {
	h := vhNew(t, 50)
	defer h.done()
	for h.more(500) {
		var f Flag
		on := false
		tr := ""
		h.within(10*time.Second, "hang", func() string { return tr }, func() {
			for i := h.r.Intn(20); i > 0 && h.bad == 0; i-- {
				if h.r.Intn(2) == 0 {
					err := f.Start()
					tr += fmt.Sprintf("Start=%v ", err)
					if (err == nil) == on {
						h.fail("start", "%s: flag was on=%v", tr, on)
					}
					on = true
				} else {
					f.Stop()
					tr += "Stop "
					on = false
				}
			}
			// concurrent starts: exactly one succeeds
			if !on && h.r.Intn(4) == 0 {
				var wg sync.WaitGroup
				var won int32
				start := make(chan bool)
				for i := 0; i < 4; i++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						<-start
						if f.Start() == nil {
							atomic.AddInt32(&won, 1)
						}
					}()
				}
				close(start)
				wg.Wait()
				if won != 1 {
					h.fail("race", "%s then 4 concurrent Starts: %d succeed", tr, won)
				}
				tr += "4xStart "
			}
		})
		h.did("%s", tr)
	}
}

func TestVerifLauncher(t *testing.T) {
	h := vhNew(t, 50)
	defer h.done()
	for h.more(300) {
		var l Launcher
		tr := ""
		h.within(20*time.Second, "hang", func() string { return tr }, func() {
			for round := h.r.Intn(3); round >= 0 && h.bad == 0; round-- {
				n := h.r.Intn(6)
				conc := h.r.Intn(2) == 0
				bad := -1
				if n > 0 && h.r.Intn(3) == 0 {
					bad = h.r.Intn(n)
				}
				tr += fmt.Sprintf("Queue x%d (concurrently %v, failing %d) Run; ", n, conc, bad)
				runs := make([]int32, n)
				boom := errors.New("boom")
				gate := make(chan bool)
				var started int32
				task := func(i int) func(context.Context) error {
					return func(ctx context.Context) error {
						atomic.AddInt32(&runs[i], 1)
						// nobody returns before all have started
						if int(atomic.AddInt32(&started, 1)) == n {
							close(gate)
						}
						select {
						case <-gate:
						case <-time.After(10 * time.Second):
							return errors.New("not all tasks were started")
						}
						if i == bad {
							return boom
						}
						if bad >= 0 {
							<-ctx.Done()
						}
						return nil
					}
				}
				var wg sync.WaitGroup
				for i := 0; i < n; i++ {
					if conc {
						i := i
						wg.Add(1)
						go func() { defer wg.Done(); l.Queue(task(i)) }()
					} else {
						l.Queue(task(i))
					}
				}
				wg.Wait()
				err := l.Run(context.Background())
				var want error
				if bad >= 0 {
					want = boom
				}
				if err != want {
					h.fail("err", "%s gives %v, want %v", tr, err, want)
				}
				for i := range runs {
					if c := atomic.LoadInt32(&runs[i]); c != 1 {
						h.fail("runs", "%s: task %d ran %d times", tr, i, c)
					}
				}
				if h.r.Intn(3) == 0 {
					tr += "Run (empty); "
					if err := l.Run(context.Background()); err != nil {
						h.fail("err", "%s gives %v", tr, err)
					}
					for i := range runs {
						if c := atomic.LoadInt32(&runs[i]); c != 1 {
							h.fail("runs", "%s: task %d ran %d times", tr, i, c)
						}
					}
				}
			}
		})
		h.did("%s", tr)
	}
}
