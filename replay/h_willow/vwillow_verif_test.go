package router

import (
	"context"
	"fmt"
	"testing"

	"github.com/DanLavine/urlrouter"
	"github.com/DanLavine/willow/internal/willow/api/v1/handlers"
	"github.com/DanLavine/willow/pkg/models/api/common/errors"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
	"time"
)

type vq struct{ *vbroker }

func vqueue() *v1willow.Queue {
	return &v1willow.Queue{Spec: &v1willow.QueueSpec{DBDefinition: &v1willow.QueueDBDefinition{Name: vp("q")}, Properties: &v1willow.QueueProperties{MaxItems: vp[int64](3)}}, State: &v1willow.QueueState{}}
}
func (b vq) CreateQueue(ctx context.Context, q *v1willow.Queue) *errors.ServerError {
	return b.got("CreateQueue", "", "", q)
}
func (b vq) GetQueue(ctx context.Context, n string) (*v1willow.Queue, *errors.ServerError) {
	return vqueue(), b.got("GetQueue", n, "", nil)
}
func (b vq) ListQueues(ctx context.Context) (v1willow.Queues, *errors.ServerError) {
	return v1willow.Queues{vqueue()}, b.got("ListQueues", "", "", nil)
}
func (b vq) UpdateQueue(ctx context.Context, n string, u *v1willow.QueueProperties) *errors.ServerError {
	return b.got("UpdateQueue", n, "", u)
}
func (b vq) DeleteQueue(ctx context.Context, n string) *errors.ServerError {
	return b.got("DeleteQueue", n, "", nil)
}
func (b vq) QueryChannels(ctx context.Context, n string, q *queryassociatedaction.AssociatedActionQuery) (v1willow.Channels, *errors.ServerError) {
	return v1willow.Channels{{Spec: &v1willow.ChannelSpec{DBDefinition: &v1willow.ChannelDBDefinition{KeyValues: datatypes.TypedKeyValues{"a": datatypes.Int(1)}}}, State: &v1willow.ChannelState{EnqueuedItems: 1}}}, b.got("QueryChannels", n, "", q)
}
func (b vq) DeleteChannel(ctx context.Context, n string, kv datatypes.KeyValues) *errors.ServerError {
	return b.got("DeleteChannel", n, "", kv)
}
func (b vq) Enqueue(ctx context.Context, n string, i *v1willow.Item) *errors.ServerError {
	return b.got("Enqueue", n, "", i)
}
func (b vq) Dequeue(ctx context.Context, n string, q *queryassociatedaction.AssociatedActionQuery) (*v1willow.Item, func(), func(), *errors.ServerError) {
	err := b.got("Dequeue", n, "", q)
	if err != nil {
		return nil, nil, nil, err
	}
	return &v1willow.Item{Spec: &v1willow.ItemSpec{DBDefinition: &v1willow.ItemDBDefinition{KeyValues: datatypes.TypedKeyValues{"a": datatypes.Int(1)}}, Properties: &v1willow.ItemProperties{Data: []byte("d"), Updateable: vp(true), RetryAttempts: vp(uint64(1)), RetryPosition: vp("front"), TimeoutDuration: vp(time.Second)}}, State: &v1willow.ItemState{ID: "i"}},
		func() { b.got("kept", "", "", nil) }, func() { b.got("free", "", "", nil) }, nil
}
func (b vq) Ack(ctx context.Context, n string, a *v1willow.ACK) *errors.ServerError {
	return b.got("Ack", n, "", a)
}
func (b vq) Heartbeat(ctx context.Context, n string, h *v1willow.Heartbeat) *errors.ServerError {
	return b.got("Heartbeat", n, "", h)
}

func TestVerifP19Willow(t *testing.T) {
	b := &vbroker{}
	query := []string{`{}`, `{"Selection":{"KeyValues":{"a":{"Value":{"Type":8,"Data":"1"},"Comparison":"=","TypeRestrictions":{"MinDataType":8,"MaxDataType":8}}}}}`}
	badQuery := []string{`{"Selection":{"KeyValues":{"a":{"Value":{"Type":8,"Data":"1"},"Comparison":"~","TypeRestrictions":{"MinDataType":8,"MaxDataType":8}}}}}`}
	kv := `{"a":{"Type":8,"Data":"1"}}`
	item := func(retry, dur string) string {
		return `{"Spec":{"DBDefinition":{"KeyValues":` + kv + `},"Properties":{"Data":"ZA==","Updateable":true,"RetryAttempts":0,"RetryPosition":"` + retry + `","TimeoutDuration":` + dur + `}}}`
	}
	claims := []string{`{}`, `null`, `{"ItemID":"","KeyValues":` + kv + `}`, `{"ItemID":"i","KeyValues":{}}`, `{"ItemID":"i","KeyValues":{"a":{"Type":1024,"Data":""}}}`}
	ch := "/v1/queues/n/channels"
	n := vrun(t, b, func(m *urlrouter.Router) { AddV1WillowRoutes(vlog, m, handlers.NewV1QueueHandler(vq{b}, "x")) }, []vroute{
		{method: "POST", path: "/v1/queues", op: "CreateQueue", ok: 201, same: true, good: []string{`{"Spec":{"DBDefinition":{"Name":"q"},"Properties":{"MaxItems":-1}}}`},
			bad: []string{`{}`, `null`, `{"Spec":{}}`, `{"Spec":{"DBDefinition":{"Name":"q"}}}`, `{"Spec":{"DBDefinition":{"Name":""}}}`, `{"Spec":{"DBDefinition":{"Name":"q"},"Properties":{}}}`, `{"Spec":{"DBDefinition":{"Name":"q"}},"State":{}}`}},
		{method: "GET", path: "/v1/queues", op: "ListQueues", ok: 200},
		{method: "GET", path: "/v1/queues/n", op: "GetQueue", name: "n", ok: 200},
		{method: "PUT", path: "/v1/queues/n", op: "UpdateQueue", name: "n", ok: 200, same: true, good: []string{`{"MaxItems":0}`, `{"MaxItems":7}`}, bad: []string{`{}`, `null`}},
		{method: "DELETE", path: "/v1/queues/n", op: "DeleteQueue", name: "n", ok: 204},
		{method: "GET", path: ch, op: "QueryChannels", name: "n", ok: 200, good: query, bad: badQuery},
		{method: "DELETE", path: ch, op: "DeleteChannel", name: "n", ok: 204, same: true, good: []string{kv}, bad: []string{`{}`, `null`, `{"a":{"Type":1024,"Data":""}}`, `{"a":{"Type":99,"Data":"1"}}`}},
		{method: "POST", path: ch + "/items", op: "Enqueue", name: "n", ok: 201, same: true, good: []string{item("front", "1"), item("back", "1000000000")}, bad: []string{`{}`, `null`, item("x", "1"), item("front", "0"), item("front", "-1")}},
		{method: "GET", path: ch + "/items", op: "Dequeue", name: "n", ok: 200, good: query, bad: badQuery},
		{method: "POST", path: ch + "/items/ack", op: "Ack", name: "n", ok: 200, good: []string{`{"ItemID":"i","KeyValues":` + kv + `,"Passed":true}`}, bad: claims},
		{method: "POST", path: ch + "/items/heartbeat", op: "Heartbeat", name: "n", ok: 200, good: []string{`{"ItemID":"i","KeyValues":` + kv + `}`}, bad: claims},
	}, func(r vroute, w *vwriter) string {
		if r.op == "Dequeue" && b.answer == nil {
			want := "kept"
			if w.broken {
				want = "free"
			}
			if len(b.calls) != 2 || b.calls[1].op != want {
				return "the dequeued item has to be settled once as " + want
			}
		}
		return ""
	})
	fmt.Println("VERIF-CASES handler-requests", n)
}
