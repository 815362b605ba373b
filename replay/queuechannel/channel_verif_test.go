package memory

// Compares histories of one queue channel with a plain model: order, accounting with the limiter, retries.

import (
	"context"
	"fmt"
	"math/rand"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	limiterclient "github.com/DanLavine/willow/pkg/clients/limiter_client"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
	"github.com/DanLavine/willow/testhelpers"
)

type vlimiter struct {
	limiterclient.LimiterClient
	mu            sync.Mutex
	enq, run      int64
	refuseEnq     bool
	refuseRun     bool
	bad           string
	channelValues datatypes.KeyValues
}

func (l *vlimiter) kind(c *v1limiter.Counter) string {
	if err := c.ValidateSpecOnly(); err != nil && *c.Spec.Properties.Counters != 0 {
		l.bad = fmt.Sprintf("an invalid counter %+v: %v", c.Spec.DBDefinition.KeyValues, err)
	}
	kv := c.Spec.DBDefinition.KeyValues
	_, e := kv["_willow_enqueued"]
	_, r := kv["_willow_running"]
	if e == r || kv["_willow_queue_name"] != datatypes.String("q") || len(kv) != len(l.channelValues)+2 {
		l.bad = fmt.Sprintf("a counter of %v", kv)
	}
	for k, v := range l.channelValues {
		if e {
			k = "_willow_" + k
		}
		if kv[k] != v {
			l.bad = fmt.Sprintf("a counter of %v", kv)
		}
	}
	if e {
		return "e"
	}
	return "r"
}

func (l *vlimiter) UpdateCounter(_ context.Context, c *v1limiter.Counter) error {
	l.mu.Lock()
	defer l.mu.Unlock()
	n := *c.Spec.Properties.Counters
	if l.kind(c) == "e" {
		if n > 0 && l.refuseEnq {
			return fmt.Errorf("limit")
		}
		l.enq += n
	} else {
		if n > 0 && l.refuseRun {
			return fmt.Errorf("limit")
		}
		l.run += n
	}
	return nil
}

func (l *vlimiter) SetCounters(_ context.Context, c *v1limiter.Counter) error {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.kind(c) == "e" {
		l.enq = *c.Spec.Properties.Counters
	} else {
		l.run = *c.Spec.Properties.Counters
	}
	return nil
}

type vitem struct {
	data    string
	upd     bool
	max     uint64
	retries uint64
	pos     string
	timeout time.Duration
}

func (v *vitem) String() string {
	return fmt.Sprintf("%q updateable %t retries %d to the %s timeout %s", v.data, v.upd, v.max, v.pos, v.timeout)
}

func TestVerifP14Channel(t *testing.T) { verifChannel(t) }

func TestVerifP15Channel(t *testing.T) { verifChannel(t) }

func verifChannel(t *testing.T) {
	var cases, fails atomic.Int64
	fail := func(f string, a ...any) {
		if fails.Add(1) < 4 {
			t.Errorf("VERIF-FAIL "+f, a...)
		}
	}
	var wg sync.WaitGroup
	for w := 0; w < 16; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for h := 0; h < 60 && fails.Load() < 4; h++ {
				verifChannelHistory(int64(w*1000+h), h%6 == 0, fail, &cases)
			}
		}(w)
	}
	wg.Wait()
	t.Logf("VERIF-CASES channel-histories %d", cases.Load())
}

func verifChannelHistory(seed int64, timeouts bool, failT func(string, ...any), cases *atomic.Int64) {
	var log []string
	fail := func(f string, a ...any) {
		failT("history %d: %s: "+f, append([]any{seed, strings.Join(log, "; ")}, a...)...)
	}
	defer func() {
		if p := recover(); p != nil {
			fail("panic %v", p)
		}
	}()
	r := rand.New(rand.NewSource(seed))
	ctx := testhelpers.NewContextWithMiddlewareSetup()
	kv := datatypes.KeyValues{"one": datatypes.Int(1), "two": datatypes.String("x")}
	lim := &vlimiter{channelValues: kv}
	mqc := New(lim, func() {}, "q", kv)
	actx, cancel := context.WithCancel(context.Background())
	defer cancel()
	go func() { _ = mqc.asyncManager.Run(actx) }()
	go func() { // the loop of the channel, waiting for the answer of a dequeue
		for {
			select {
			case <-mqc.dequeueResponseChan:
			case <-actx.Done():
				return
			}
		}
	}()
	defer mqc.notifier.ForceStop()

	var list []string
	items := map[string]*vitem{}
	running := map[string]bool{}
	anyRunning := func() string {
		for _, id := range sortedKeys(running) {
			if r.Intn(len(running)) == 0 || len(running) == 1 {
				return id
			}
		}
		return ""
	}
	timeout := time.Hour
	if timeouts {
		timeout = 15 * time.Millisecond
	}
	requeue := func(id string) { // a failed item
		it := items[id]
		delete(running, id)
		it.retries++
		if it.retries > it.max {
			delete(items, id)
			return
		}
		switch {
		case it.pos == "front" && len(list) > 0 && it.upd:
			delete(items, id)
		case it.pos == "front":
			list = append([]string{id}, list...)
		case len(list) > 0 && items[list[len(list)-1]].upd:
			delete(items, list[len(list)-1])
			list[len(list)-1] = id
		default:
			list = append(list, id)
		}
	}
	for step := 0; step < 30; step++ {
		cases.Add(1)
		lim.mu.Lock()
		lim.refuseEnq, lim.refuseRun = r.Intn(6) == 0, r.Intn(6) == 0
		lim.mu.Unlock()
		switch c := r.Intn(9); {
		case c < 3: // enqueue
			it := &vitem{data: fmt.Sprint("d", step), upd: r.Intn(2) == 0, max: uint64(r.Intn(3)), pos: []string{"front", "back"}[r.Intn(2)], timeout: timeout + time.Duration(step)}
			log = append(log, "enqueue "+it.String())
			in := *it
			err := mqc.Enqueue(ctx, &v1willow.Item{Spec: &v1willow.ItemSpec{DBDefinition: &v1willow.ItemDBDefinition{KeyValues: datatypes.TypedKeyValues(kv)},
				Properties: &v1willow.ItemProperties{Data: []byte(in.data), Updateable: &in.upd, RetryAttempts: &in.max, RetryPosition: &in.pos, TimeoutDuration: &in.timeout}}})
			switch {
			case len(list) > 0 && items[list[len(list)-1]].upd:
				if err != nil {
					fail("an update in place is refused: %v", err)
					return
				}
				items[list[len(list)-1]] = it
			case lim.refuseEnq:
				if err == nil || err.StatusCode != http.StatusConflict {
					fail("the limiter refuses, but the answer is %v", err)
					return
				}
			default:
				if err != nil || len(mqc.itemIDsEnqueued) == 0 {
					fail("answered %v", err)
					return
				}
				id := mqc.itemIDsEnqueued[len(mqc.itemIDsEnqueued)-1]
				if items[id] != nil {
					fail("the identifier %s is used twice", id)
					return
				}
				items[id] = it
				list = append(list, id)
			}
		case c < 5: // dequeue
			if len(list) == 0 {
				continue
			}
			log = append(log, "dequeue")
			select { // the turn
			case <-mqc.notifier.Ready():
			case <-time.After(2 * time.Second):
				fail("%d items wait, but none is offered", len(list))
				return
			}
			got, ok, nok := mqc.dequeue(ctx)
			if lim.refuseRun {
				if got != nil || ok != nil || nok != nil {
					fail("the limiter refuses, but an item is given")
					return
				}
				break
			}
			id := list[0]
			it := items[id]
			if got == nil || got.State == nil || got.State.ID != id || string(got.Spec.Properties.Data) != it.data || *got.Spec.Properties.Updateable != it.upd || *got.Spec.Properties.RetryAttempts != it.max ||
				*got.Spec.Properties.RetryPosition != it.pos || *got.Spec.Properties.TimeoutDuration != it.timeout || fmt.Sprint(got.Spec.DBDefinition.KeyValues) != fmt.Sprint(kv) {
				fail("the item given is %+v, want %s %s", got, id, it)
				return
			}
			list = append([]string{}, list[1:]...)
			if r.Intn(4) == 0 {
				log = append(log, "the client is gone")
				nok()
				if it.upd && len(list) > 0 {
					delete(items, id)
				} else {
					list = append([]string{id}, list...)
				}
			} else {
				ok()
				running[id] = true
				if timeouts { // the watch ends by itself
					log = append(log, "wait for the timeout of "+id)
					for end := time.Now().Add(20 * time.Second); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
						lim.mu.Lock()
						n := lim.run
						lim.mu.Unlock()
						if n == 0 {
							break
						}
					}
					mqc.itemsLock.Lock() // the handling of the timeout is over
					mqc.itemsLock.Unlock()
					requeue(id)
				}
			}
		case c < 8: // acknowledge
			id := anyRunning()
			if x := r.Intn(6); x == 0 && len(list) > 0 {
				id = list[r.Intn(len(list))]
			} else if x == 1 || id == "" {
				id = "no-such-item"
			}
			passed := r.Intn(3) == 0
			log = append(log, fmt.Sprintf("acknowledge %s passed %t", id, passed))
			wasRunning := running[id]
			empty, err := mqc.ACK(ctx, &v1willow.ACK{ItemID: id, Passed: passed})
			if wasRunning != (err == nil) || err != nil && err.StatusCode != http.StatusNotFound {
				fail("answered %v, item processing: %t", err, wasRunning)
				return
			}
			if wasRunning && passed {
				delete(running, id)
				delete(items, id)
			} else if wasRunning {
				requeue(id)
			}
			if empty != (len(items) == 0) {
				fail("the channel is said to be empty: %t, with %d items", empty, len(items))
				return
			}
		default: // heartbeat
			id := anyRunning()
			if r.Intn(4) == 0 && len(list) > 0 {
				id = list[0]
			}
			if timeouts {
				continue
			}
			log = append(log, "heartbeat "+id)
			if err := mqc.Heartbeat(ctx, &v1willow.Heartbeat{ItemID: id}); (err == nil) != running[id] {
				fail("answered %v, item processing: %t", err, running[id])
				return
			}
		}
		mqc.itemsLock.Lock()
		got := append([]string{}, mqc.itemIDsEnqueued...)
		mqc.itemsLock.Unlock()
		lim.mu.Lock()
		enq, run, bad := lim.enq, lim.run, lim.bad
		lim.mu.Unlock()
		if bad != "" {
			fail("the limiter is asked for %s", bad)
			return
		}
		if strings.Join(got, ",") != strings.Join(list, ",") {
			fail("the waiting items are %v, want %v", got, list)
			return
		}
		if enq != int64(len(items)) || run != int64(len(running)) {
			fail("the limiter counts %d enqueued and %d running items, there are %d and %d", enq, run, len(items), len(running))
			return
		}
		if mqc.items.Empty() != (len(items) == 0) {
			fail("the channel is empty: %t, with %d items", mqc.items.Empty(), len(items))
			return
		}
	}
	log = append(log, "force delete")
	mqc.ForceDelete(ctx)
	if lim.enq != 0 || lim.run != 0 || !mqc.items.Empty() {
		fail("afterwards %d enqueued and %d running items are counted", lim.enq, lim.run)
	}
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}
