package willowclient

import (
	"context"
	"fmt"
	"net/http"
	"sync"
	"testing"
	"time"

	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

func vitem(timeout time.Duration, id string) *v1willow.Item {
	i := &v1willow.Item{Spec: &v1willow.ItemSpec{DBDefinition: &v1willow.ItemDBDefinition{KeyValues: datatypes.KeyValues{"a": datatypes.Int(1)}}, Properties: &v1willow.ItemProperties{Data: []byte("x"), Updateable: vp(false), RetryAttempts: vp[uint64](1), RetryPosition: vp("front"), TimeoutDuration: vp(timeout)}}}
	if id != "" {
		i.State = &v1willow.ItemState{ID: id}
	}
	return i
}

func TestVerifP20Willow(t *testing.T) {
	rt := &vrt{}
	c := &WillowClient{url: "http://h", client: &http.Client{Transport: rt, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}}
	ctx := context.Background()
	q := func(st bool) *v1willow.Queue {
		q := &v1willow.Queue{Spec: &v1willow.QueueSpec{DBDefinition: &v1willow.QueueDBDefinition{Name: vp("q")}, Properties: &v1willow.QueueProperties{MaxItems: vp[int64](3)}}}
		if st {
			q.State = &v1willow.QueueState{}
		}
		return q
	}
	qs := []any{&queryassociatedaction.AssociatedActionQuery{}, &queryassociatedaction.AssociatedActionQuery{Selection: &queryassociatedaction.Selection{IDs: []string{"x"}}}}
	qbad := []any{&queryassociatedaction.AssociatedActionQuery{Selection: &queryassociatedaction.Selection{}}}
	bad := []string{`{}`, `{"Spec":{}}`, `null`}
	badLists := []string{`[null]`, `[{}]`, `[{"Spec":{}}]`}
	qp := "/v1/queues"
	ops := []vop{
		{"CreateQueue", "POST", qp, 201, []any{q(false)}, []any{&v1willow.Queue{}, q(true)}, nil, nil, func(d any) (any, error) { return nil, c.CreateQueue(ctx, d.(*v1willow.Queue)) }},
		{"ListQueues", "GET", qp, 200, nil, nil, []any{v1willow.Queues{q(true)}, v1willow.Queues{}}, badLists, func(d any) (any, error) { return c.ListQueues(ctx) }},
		{"GetQueue", "GET", qp + "/q", 200, qs, qbad, []any{q(true)}, bad, func(d any) (any, error) {
			return c.GetQueue(ctx, "q", d.(*queryassociatedaction.AssociatedActionQuery))
		}},
		{"UpdateQueue", "PUT", qp + "/q", 200, []any{&v1willow.QueueProperties{MaxItems: vp[int64](1)}}, []any{&v1willow.QueueProperties{}}, nil, nil, func(d any) (any, error) {
			return nil, c.UpdateQueue(ctx, "q", d.(*v1willow.QueueProperties))
		}},
		{"DeleteQueue", "DELETE", qp + "/q", 204, nil, nil, nil, nil, func(d any) (any, error) { return nil, c.DeleteQueue(ctx, "q") }},
		{"EnqueueQueueItem", "POST", qp + "/q/channels/items", 201, []any{vitem(time.Hour, "")}, []any{&v1willow.Item{}, vitem(time.Hour, "7")}, nil, nil, func(d any) (any, error) {
			return nil, c.EnqueueQueueItem(ctx, "q", d.(*v1willow.Item))
		}},
		{"DequeueQueueItem", "GET", qp + "/q/channels/items", 200, qs, qbad, []any{vitem(time.Hour, "7")}, append(bad, vjson(vitem(time.Hour, "")), vjson(vitem(-1, "7"))), func(d any) (any, error) {
			i, err := c.DequeueQueueItem(ctx, "q", d.(*queryassociatedaction.AssociatedActionQuery))
			if err == nil {
				defer i.stop()
				if i.itemID != "7" || i.queueName != "q" || i.url != "http://h" || string(i.Data()) != "x" || len(i.keyValues) != 1 || i.heartbeatTimeout != time.Hour {
					return nil, fmt.Errorf("wrong item %+v", i)
				}
			}
			return nil, err
		}},
		{"DeleteQueueChannel", "DELETE", qp + "/q/channels", 204, []any{datatypes.KeyValues{"a": datatypes.Int(1)}}, []any{datatypes.KeyValues{}, datatypes.KeyValues{"a": datatypes.Any()}, datatypes.KeyValues{"a": {}}}, nil, nil, func(d any) (any, error) {
			return nil, c.DeleteQueueChannel(ctx, "q", d.(datatypes.KeyValues))
		}},
		{"Healthy", "GET", "/health", 200, nil, nil, nil, nil, func(d any) (any, error) { return nil, c.Healthy() }},
	}
	for _, passed := range []bool{true, false} {
		for _, id := range []string{"7", ""} {
			ack := v1willow.ACK{ItemID: id, KeyValues: datatypes.KeyValues{"a": datatypes.Int(1)}, Passed: passed}
			o := vop{"ACK", "POST", qp + "/q/channels/items/ack", 200, []any{ack}, nil, nil, nil, func(d any) (any, error) {
				i := &Item{doneOnce: new(sync.Once), done: make(chan struct{}), url: "http://h", client: c.client, itemID: id, keyValues: ack.KeyValues, queueName: "q", heartbeatErrorLock: new(sync.RWMutex)}
				err := i.ACK(ctx, passed)
				select {
				case <-i.Done():
				default:
					return nil, fmt.Errorf("an acknowledged item is not done")
				}
				return nil, err
			}}
			if id == "" {
				o.good, o.bad = []any{}, []any{ack}
			}
			ops = append(ops, o)
		}
	}
	vrunOps(t, rt, ops)
}

// heartbeats: what is sent, for every status, with and without an error callback, and across an acknowledgement
func TestVerifP20WillowHeartbeats(t *testing.T) {
	var wg sync.WaitGroup
	for _, timeout := range []time.Duration{1, 2, 3, 2 * time.Second} {
		for _, st := range []int{0, 200, 400, 404, 409, 500, 503} {
			for _, cb := range []bool{true, false} {
				for _, during := range []bool{false, true} {
					wg.Add(1)
					go func() {
						defer wg.Done()
						vheartbeat(t, timeout, st, cb, during)
					}()
				}
			}
		}
	}
	wg.Wait()
	time.Sleep(50 * time.Millisecond)
}

func vheartbeat(t *testing.T, timeout time.Duration, st int, cb, during bool) {
	rt := &vrt{status: st, body: `{"Message":"no"}`}
	c := &http.Client{Transport: rt}
	sent := make(chan struct{}, 1000)
	var i *Item
	rt.hook = func(*http.Request) {
		if during && i != nil {
			i.stop()
		}
		select {
		case sent <- struct{}{}:
		default:
		}
	}
	rt.mu.Lock()
	i = newItem("http://h", c, "q", vitem(timeout, "7"))
	if cb {
		i.SetHeartbeatErrorCallback(func(error) {})
	}
	rt.mu.Unlock()
	select {
	case <-sent:
	case <-i.Done():
	case <-time.After(5 * time.Second):
	}
	i.stop()
	rt.mu.Lock()
	defer rt.mu.Unlock()
	for k := range rt.method {
		if rt.method[k] != "POST" || rt.path[k] != "/v1/queues/q/channels/items/heartbeat" || rt.ctype[k] != "application/json" || !vsame(rt.doc[k], vjson(v1willow.Heartbeat{ItemID: "7", KeyValues: datatypes.KeyValues{"a": datatypes.Int(1)}})) {
			t.Errorf("VERIF-FAIL heartbeat sent %s %s content type %q document %s", rt.method[k], rt.path[k], rt.ctype[k], rt.doc[k])
			return
		}
	}
	if timeout > time.Millisecond && len(rt.method) == 0 {
		t.Errorf("VERIF-FAIL no heartbeat sent")
	}
}

// an item none of whose heartbeats is accepted is reported as done once its timeout passed
func TestVerifP20WillowHeartbeatDeadline(t *testing.T) {
	var wg sync.WaitGroup
	for _, st := range []int{0, 202, 400, 404, 409, 500, 503} {
		for _, cb := range []bool{true, false} {
			wg.Add(1)
			go func() {
				defer wg.Done()
				rt := &vrt{status: st, body: `{"Message":"no"}`}
				i := newItem("http://h", &http.Client{Transport: rt}, "q", vitem(time.Second, "7"))
				if cb {
					i.SetHeartbeatErrorCallback(func(error) {})
				}
				select {
				case <-i.Done():
				case <-time.After(15 * time.Second):
					t.Errorf("VERIF-FAIL every heartbeat of an item with a timeout of 1s is answered with %d for 15s: the item is not reported as done", st)
					i.stop()
				}
			}()
		}
	}
	wg.Wait()
}
