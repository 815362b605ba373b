package heartbeater

// Searches for schedules in which a watch ends twice, without its action, or too early, or takes requests after its end.

import (
	"context"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

var base = time.Now()

func TestVerifP18(t *testing.T) {
	var cases, fails atomic.Int64
	fail := func(f string, a ...any) {
		if fails.Add(1) < 4 {
			t.Errorf("VERIF-FAIL "+f, a...)
		}
	}
	if h, err := New(time.Second, nil, nil); err == nil || h != nil {
		fail("New without a timeout action: %v, %v", h, err)
	}
	one := func(seed int64) {
		defer func() {
			if p := recover(); p != nil {
				fail("seed %d: panic %v", seed, p)
			}
		}()
		r := rand.New(rand.NewSource(seed))
		timeout := time.Duration(5+r.Intn(40)) * time.Millisecond
		var timeouts, shutdowns atomic.Int64
		var lastTaken atomic.Int64 // when the last accepted heartbeat (or the start) was asked for
		var early atomic.Int64
		var shut func()
		if r.Intn(4) > 0 {
			shut = func() { shutdowns.Add(1) }
		}
		h, err := New(timeout, shut, func() {
			timeouts.Add(1)
			if d := int64(time.Since(base)) - lastTaken.Load(); d < int64(timeout)-int64(time.Millisecond) {
				early.Store(d)
			}
		})
		if err != nil {
			fail("New: %v", err)
			return
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		done := make(chan error, 1)
		go func() { done <- h.Execute(ctx) }()
		mode := r.Intn(5) // 0 time out, 1 stop, 2 shutdown, 3 all at once, 4 stop before the start
		var wg sync.WaitGroup
		var stops, starts atomic.Int64
		if mode != 4 {
			for i := 0; i < 1+r.Intn(2); i++ {
				lastTaken.Store(int64(time.Since(base)))
				if h.Start() {
					starts.Add(1)
				}
			}
			if starts.Load() != 1 {
				fail("seed %d: Start reported true %d times", seed, starts.Load())
			}
		}
		if mode != 4 {
			// the watch survives several timeouts as long as it hears heartbeats
			for i := 0; i < r.Intn(6); i++ {
				time.Sleep(timeout / time.Duration(4+r.Intn(20)))
				at := int64(time.Since(base))
				if h.Heartbeat() {
					lastTaken.Store(at)
				}
			}
		}
		if mode == 1 || mode == 3 || mode == 4 {
			for i := 0; i < 3; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					if h.Stop() {
						stops.Add(1)
					}
				}()
			}
		}
		if mode == 2 || mode == 3 {
			cancel()
		}
		if mode == 3 {
			for i := 0; i < 3; i++ {
				wg.Add(1)
				go func() { defer wg.Done(); h.Heartbeat() }()
			}
		}
		select {
		case err := <-done:
			if err != nil {
				fail("seed %d: Execute returns %v", seed, err)
			}
		case <-time.After(20 * time.Second):
			fail("seed %d mode %d: the watch does not end", seed, mode)
			return
		}
		wg.Wait()
		for i := 0; i < 2; i++ {
			if h.Heartbeat() {
				fail("seed %d mode %d: a heartbeat is accepted after the end", seed, mode)
			}
			if h.Stop() {
				fail("seed %d mode %d: a stop is accepted after the end", seed, mode)
			}
			if mode != 4 && h.Start() {
				fail("seed %d mode %d: a start is accepted after the end", seed, mode)
			}
		}
		tn, sn, st := timeouts.Load(), shutdowns.Load(), stops.Load()
		if shut == nil && mode != 0 && mode != 1 && mode != 4 && tn+st == 0 {
			sn = 1
		}
		if tn+sn+st != 1 {
			fail("seed %d mode %d: the watch ended by %d timeouts, %d shutdowns, %d stops", seed, mode, tn, sn, st)
		}
		if mode == 0 && tn != 1 || mode == 4 && st != 1 {
			fail("seed %d mode %d: the watch ended by %d timeouts, %d shutdowns, %d stops", seed, mode, tn, sn, st)
		}
		if d := early.Load(); d != 0 {
			fail("seed %d mode %d: timed out %v after the last heartbeat, the timeout is %v", seed, mode, time.Duration(d), timeout)
		}
		cases.Add(1)
	}
	var wg sync.WaitGroup
	for w := 0; w < 16; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := 0; i < 25; i++ {
				one(int64(w*1000 + i))
			}
		}(w)
	}
	wg.Wait()
	fmt.Println("VERIF-CASES watches", cases.Load())
}
