package lockmanager

// Searches for histories in which two sessions hold one lock, a session that does not hold it is served, a lease ends
// early, or a request never returns.

import (
	"context"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	v1locker "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
	"github.com/DanLavine/willow/testhelpers"
)

type vsess struct{ lock, id string }

type vkey struct {
	mu     sync.Mutex
	holder string // session that surely holds the lock
	old    []vsess
	lastOK time.Time // start of the last accepted heartbeat (or of the obtaining call)
	lease  time.Duration
	gotAt  time.Time // when the last obtaining call had returned
	gotBy  string
}

func TestVerifP17(t *testing.T) {
	var cases, fails atomic.Int64
	fail := func(f string, a ...any) {
		if fails.Add(1) < 4 {
			t.Errorf("VERIF-FAIL "+f, a...)
		}
	}
	seeds := int64(24)
	if testing.Short() {
		seeds = 8
	}
	var wg sync.WaitGroup
	sem := make(chan struct{}, 6)
	for s := int64(1); s <= seeds; s++ {
		s := s
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			done := make(chan struct{})
			go func() {
				defer close(done)
				verifHistory(s, fail, &cases)
			}()
			select {
			case <-done:
			case <-time.After(30 * time.Second):
				fail("history %d: a request never returned", s)
			}
		}()
	}
	wg.Wait()
	t.Logf("VERIF-CASES locker-histories %d", cases.Load())
}

func verifHistory(seed int64, fail func(string, ...any), cases *atomic.Int64) {
	defer func() {
		if p := recover(); p != nil {
			fail("history %d: panic %v", seed, p)
		}
	}()
	base := testhelpers.NewContextWithMiddlewareSetup()
	srv, stop := context.WithCancel(base)
	lk := NewExclusiveLocker()
	over := make(chan struct{})
	go func() { defer close(over); lk.Execute(srv) }()
	keys := []datatypes.KeyValues{
		{"a": datatypes.String("x")},
		{"a": datatypes.String("x"), "b": datatypes.Int(int(seed))},
	}
	st := []*vkey{{}, {}}
	var wg sync.WaitGroup
	clients := 3 + int(seed%4)
	for c := 0; c < clients; c++ {
		r := rand.New(rand.NewSource(seed*100 + int64(c)))
		wg.Add(1)
		go func(c int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					fail("history %d: panic %v", seed, p)
				}
			}()
			for n := 0; n < 14; n++ {
				k := r.Intn(len(keys))
				if r.Intn(3) > 0 {
					k = 0
				}
				verifStep(lk, base, r, keys[k], st[k], fmt.Sprintf("history %d client %d step %d", seed, c, n), fail)
				cases.Add(1)
			}
		}(c)
	}
	wg.Wait()
	// nothing is held any more: expired leases are gone soon
	all := &queryassociatedaction.AssociatedActionQuery{}
	for end := time.Now().Add(8 * time.Second); ; {
		ls := lk.LocksQuery(base, all)
		if len(ls) == 0 {
			break
		}
		if time.Now().After(end) {
			fail("history %d: %d lock(s) remain although every session released or timed out: %+v", seed, len(ls), *ls[0].State)
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	stop()
	<-over
}

func verifStep(lk *exclusiveLocker, base context.Context, r *rand.Rand, kv datatypes.KeyValues, st *vkey, what string, fail func(string, ...any)) {
	timeout := 20 * time.Second
	expire := r.Intn(4) == 0
	if expire {
		timeout = time.Duration(20+r.Intn(40)) * time.Millisecond
	}
	ctx := base
	if r.Intn(4) == 0 {
		c, cancel := context.WithTimeout(base, time.Duration(r.Intn(6))*time.Millisecond)
		defer cancel()
		ctx = c
	}
	stale := func() {
		st.mu.Lock()
		var o vsess
		if len(st.old) > 0 {
			o = st.old[r.Intn(len(st.old))]
		}
		st.mu.Unlock()
		for _, id := range []string{o.id, "nobody"} {
			if o.lock == "" || id == "" {
				continue
			}
			if err := lk.Heartbeat(base, o.lock, &v1locker.LockClaim{SessionID: id}); err == nil {
				fail("%s: a heartbeat of the ended session %s was accepted", what, id)
			} else if err.StatusCode != 409 && err.StatusCode != 404 && err.StatusCode != 503 {
				fail("%s: a heartbeat of an ended session: %v", what, err)
			}
			if err := lk.Release(base, o.lock, &v1locker.LockClaim{SessionID: id}); err == nil {
				fail("%s: a release of the ended session %s was accepted", what, id)
			}
		}
	}
	stale()
	asked := time.Now()
	l := lk.ObtainLock(ctx, &v1locker.Lock{Spec: &v1locker.LockSpec{DBDefinition: &v1locker.LockDBDefinition{KeyValues: kv}, Properties: &v1locker.LockProperties{Timeout: &timeout}}})
	if l == nil {
		if ctx.Err() == nil {
			fail("%s: the lock was refused although the client waited and the server runs", what)
		}
		return
	}
	sid, id := l.State.SessionID, l.State.LockID
	got := time.Now()
	st.mu.Lock()
	if st.holder != "" {
		fail("%s: session %s obtained the lock that session %s still holds", what, sid, st.holder)
	}
	for _, o := range st.old {
		if o.id == sid {
			fail("%s: the session id %s was given twice", what, sid)
		}
	}
	if st.lease != 0 && got.Before(st.lastOK.Add(st.lease)) {
		fail("%s: obtained %s after the last accepted heartbeat of a lease of %s", what, got.Sub(st.lastOK), st.lease)
	}
	st.lease = 0
	if got.After(st.gotAt) {
		st.gotAt, st.gotBy = got, sid
	}
	if expire {
		st.lease, st.lastOK = timeout, asked
	} else {
		st.holder = sid
	}
	st.mu.Unlock()
	if sid == "" || id == "" || l.State.TimeTillExipre != timeout {
		fail("%s: obtained %+v", what, *l.State)
	}
	claim := &v1locker.LockClaim{SessionID: sid}
	for i := r.Intn(3); i > 0; i-- {
		time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
		h := time.Now()
		err := lk.Heartbeat(base, id, claim)
		if err != nil && !expire {
			fail("%s: the heartbeat of the session that holds the lock was refused: %v", what, err)
		}
		if err == nil && expire {
			st.mu.Lock()
			if st.gotBy != sid && st.gotAt.Before(h) && st.gotAt.After(got) {
				fail("%s: a heartbeat was accepted after another session obtained the lock", what)
			} else if st.lease == timeout && !st.lastOK.Before(asked) && h.After(st.lastOK) {
				st.lastOK = h
			}
			st.mu.Unlock()
		}
		if r.Intn(3) == 0 {
			stale()
		}
	}
	if expire {
		// the lease runs out; afterwards the session is refused
		time.Sleep(timeout + 5*time.Millisecond)
		for end := time.Now().Add(5 * time.Second); ; {
			err := lk.Heartbeat(base, id, &v1locker.LockClaim{SessionID: "nobody"})
			h := time.Now()
			rel := lk.Heartbeat(base, id, claim)
			if rel != nil {
				break
			}
			st.mu.Lock()
			if st.lease == timeout && !st.lastOK.Before(asked) {
				st.lastOK = h
			}
			st.mu.Unlock()
			_ = err
			if time.Now().After(end) {
				fail("%s: the lease of %s never ended", what, timeout)
				break
			}
			time.Sleep(timeout + 10*time.Millisecond)
		}
		if err := lk.Release(base, id, claim); err == nil {
			fail("%s: a release was accepted after the lease ended", what)
		}
		st.mu.Lock()
		st.old = append(st.old, vsess{id, sid})
		st.mu.Unlock()
		return
	}
	st.mu.Lock()
	st.holder = ""
	st.mu.Unlock()
	if err := lk.Release(base, id, claim); err != nil {
		fail("%s: the release of the session that holds the lock was refused: %v", what, err)
	}
	st.mu.Lock()
	st.old = append(st.old, vsess{id, sid})
	st.mu.Unlock()
}
