package lockerclient

import (
	"context"
	"fmt"
	"net/http"
	"sync"
	"testing"
	"time"

	btreeassociated "github.com/DanLavine/willow/internal/datastructures/btree_associated"
	v1locker "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

func vlockDoc(kv datatypes.KeyValues, timeout *time.Duration, state bool) *v1locker.Lock {
	l := &v1locker.Lock{Spec: &v1locker.LockSpec{DBDefinition: &v1locker.LockDBDefinition{}, Properties: &v1locker.LockProperties{Timeout: timeout}}}
	l.Spec.DBDefinition.KeyValues = datatypes.TypedKeyValues(kv)
	if state {
		l.State = &v1locker.LockState{LockID: "7", SessionID: "s", LocksHeldOrWaiting: 1}
	}
	return l
}

func vlocker(rt *vrt) *LockClient {
	return &LockClient{url: "http://h", client: &http.Client{Transport: rt, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}, locks: btreeassociated.NewThreadSafe()}
}

func TestVerifP20Locker(t *testing.T) {
	rt := &vrt{}
	kv := datatypes.KeyValues{"a": datatypes.Int(1)}
	hour := vp(time.Hour)
	noProps := vlockDoc(kv, nil, true)
	noProps.Spec.Properties = nil
	ctx := context.Background()
	ops := []vop{
		{"Healthy", "GET", "/health", 200, nil, nil, nil, nil, func(d any) (any, error) { return nil, vlocker(rt).Healthy() }},
		{"ObtainLock", "POST", "/v1/locks", 200, []any{vlockDoc(kv, nil, false), vlockDoc(kv, hour, false)},
			[]any{&v1locker.Lock{}, &v1locker.Lock{Spec: &v1locker.LockSpec{}}, vlockDoc(nil, nil, false), vlockDoc(datatypes.KeyValues{"a": datatypes.Any()}, nil, false), vlockDoc(kv, vp(time.Duration(0)), false), vlockDoc(kv, hour, true)},
			[]any{vlockDoc(kv, hour, true)}, []string{`{}`, `{"Spec":{}}`, `null`, vjson(vlockDoc(kv, nil, true)), vjson(noProps), vjson(vlockDoc(kv, hour, false))}, func(d any) (any, error) {
				l, err := vlocker(rt).ObtainLock(ctx, d.(*v1locker.Lock), nil)
				if err == nil && l == nil {
					return nil, nil
				}
				if err == nil {
					k := l.(*lock)
					if k.lockID != "7" || k.sessionID != "s" || k.timeout != time.Hour || k.url != "http://h" {
						return nil, fmt.Errorf("wrong lock %+v", k)
					}
					k.stop()
				}
				return nil, err
			}},
	}
	vrunOps(t, rt, ops)
	// release
	n := 0
	for _, st := range vstatuses {
		for _, body := range []string{`{"Message":"x"}`, ``, `{`} {
			n++
			ok := &vrt{status: 200, body: vjson(vlockDoc(kv, hour, true))}
			c := vlocker(ok)
			l, err := c.ObtainLock(ctx, vlockDoc(kv, nil, false), func(datatypes.KeyValues, error) {})
			if err != nil || l == nil {
				t.Fatalf("VERIF-FAIL the lock granted by the service was not returned: %v", err)
			}
			again, err := c.ObtainLock(ctx, vlockDoc(kv, nil, false), nil)
			if err != nil || again != l || len(ok.method) != 1 {
				t.Fatalf("VERIF-FAIL obtaining a held lock again: %v %v, %d requests", again, err, len(ok.method))
			}
			ok.mu.Lock()
			ok.status, ok.body, ok.method, ok.path, ok.ctype, ok.doc = st, body, nil, nil, nil, nil
			ok.mu.Unlock()
			err = l.Release(ctx)
			if (err == nil) != (st == 204) {
				t.Fatalf("VERIF-FAIL releasing a lock: status %d body %q gave %v", st, body, err)
			}
			if len(ok.method) != 1 || ok.method[0] != "DELETE" || ok.path[0] != "/v1/locks/7" || ok.ctype[0] == "" || !vsame(ok.doc[0], vjson(v1locker.LockClaim{SessionID: "s"})) {
				t.Fatalf("VERIF-FAIL release sent %v %v %v %v", ok.method, ok.path, ok.ctype, ok.doc)
			}
			select {
			case <-l.Done():
			case <-time.After(time.Second):
				t.Fatalf("VERIF-FAIL a released lock is not done")
			}
			if l.Release(ctx) == nil || len(ok.method) != 1 {
				t.Fatalf("VERIF-FAIL a lock was released twice")
			}
		}
	}
	fmt.Println("VERIF-CASES release", n)
}

func TestVerifP20LockerHeartbeats(t *testing.T) {
	var wg sync.WaitGroup
	for _, timeout := range []time.Duration{1, 2, 3, 2 * time.Second} {
		for _, st := range []int{0, 200, 400, 409, 500} {
			for _, cb := range []func(datatypes.KeyValues, error){nil, func(datatypes.KeyValues, error) {}} {
				wg.Add(1)
				go func() {
					defer wg.Done()
					vheartbeat(t, timeout, st, cb)
				}()
			}
		}
	}
	wg.Wait()
}

func vheartbeat(t *testing.T, timeout time.Duration, st int, cb func(datatypes.KeyValues, error)) {
	kv := datatypes.KeyValues{"a": datatypes.Int(1)}
	rt := &vrt{status: 200, body: vjson(vlockDoc(kv, vp(timeout), true))}
	first := true
	rt.hook = func(*http.Request) {
		if !first {
			rt.status, rt.body = st, `{"Message":"no"}`
		}
		first = false
	}
	l, err := vlocker(rt).ObtainLock(context.Background(), vlockDoc(kv, nil, false), cb)
	if err != nil {
		t.Errorf("VERIF-FAIL obtain: %v", err)
		return
	}
	lost, heartbeats := false, 0
	for start := time.Now(); time.Since(start) < 5*time.Second && !lost; time.Sleep(10 * time.Millisecond) {
		select {
		case <-l.Done():
			lost = true
		default:
		}
		rt.mu.Lock()
		heartbeats = len(rt.method) - 1
		rt.mu.Unlock()
		if st == 200 && heartbeats > 1 {
			break
		}
	}
	if timeout > time.Millisecond && st != 200 && !lost {
		t.Errorf("VERIF-FAIL heartbeats answered with %d: the lock is not reported as lost", st)
	}
	if !lost {
		l.Release(context.Background())
	}
	rt.mu.Lock()
	defer rt.mu.Unlock()
	for k := range rt.method {
		if k > 0 && rt.method[k] == "POST" && (rt.path[k] != "/v1/locks/7/heartbeat" || rt.ctype[k] != "application/json" || !vsame(rt.doc[k], vjson(v1locker.LockClaim{SessionID: "s"}))) {
			t.Errorf("VERIF-FAIL heartbeat sent %s %s %q %s", rt.method[k], rt.path[k], rt.ctype[k], rt.doc[k])
			return
		}
	}
	if timeout > time.Millisecond && heartbeats < 1 {
		t.Errorf("VERIF-FAIL no heartbeat sent")
	}
}
