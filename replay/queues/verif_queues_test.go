package queues

// Runs random histories of queue operations, with failures of the limiter and of the channels, against a plain model.

import (
	"context"
	"fmt"
	"math/rand"
	"net/http"
	"sync"
	"testing"
	"time"

	queuechannels "github.com/DanLavine/willow/internal/willow/brokers/queue_channels"
	limiterclient "github.com/DanLavine/willow/pkg/clients/limiter_client"
	"github.com/DanLavine/willow/pkg/models/api/common/errors"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
	"github.com/DanLavine/willow/testhelpers"
)

const verifRule = "the-rule"

type voverride struct {
	id    string
	kvs   datatypes.KeyValues
	limit int64
}

// a limiter of overrides for one rule
type vlimiter struct {
	limiterclient.LimiterClient
	mu    sync.Mutex
	next  int
	all   map[string]*voverride
	fail  string
	empty bool // the query finds nothing
	bad   string
}

func (l *vlimiter) rule(name string) {
	if name != verifRule {
		l.bad = "the rule " + name
	}
}

func (l *vlimiter) CreateOverride(_ context.Context, rule string, o *v1limiter.Override) (*v1limiter.Override, error) {
	l.rule(rule)
	if err := o.ValidateSpecOnly(); err != nil {
		return nil, err
	}
	if l.fail == "create" {
		return nil, fmt.Errorf("the limiter is down")
	}
	for _, other := range l.all {
		if fmt.Sprint(other.kvs) == fmt.Sprint(o.Spec.DBDefinition.GroupByKeyValues) {
			return nil, fmt.Errorf("conflict")
		}
	}
	l.next++
	id := fmt.Sprint("id", l.next)
	l.all[id] = &voverride{id: id, kvs: o.Spec.DBDefinition.GroupByKeyValues, limit: *o.Spec.Properties.Limit}
	return &v1limiter.Override{Spec: o.Spec, State: &v1limiter.OverrideState{ID: id}}, nil
}

func (l *vlimiter) QueryOverrides(_ context.Context, rule string, q *queryassociatedaction.AssociatedActionQuery) (v1limiter.Overrides, error) {
	l.rule(rule)
	if err := q.Validate(); err != nil {
		l.bad = err.Error()
		return nil, err
	}
	if l.fail == "query" {
		return nil, fmt.Errorf("the limiter is down")
	}
	found := v1limiter.Overrides{}
	if l.empty {
		return found, nil
	}
	for _, o := range l.all {
		if q.MatchTags(o.kvs) {
			limit := o.limit
			found = append(found, &v1limiter.Override{
				Spec:  &v1limiter.OverrideSpec{DBDefinition: &v1limiter.OverrideDBDefinition{GroupByKeyValues: o.kvs}, Properties: &v1limiter.OverrideProperties{Limit: &limit}},
				State: &v1limiter.OverrideState{ID: o.id},
			})
		}
	}
	return found, nil
}

func (l *vlimiter) UpdateOverride(_ context.Context, rule string, id string, p *v1limiter.OverrideProperties) error {
	l.rule(rule)
	if l.fail == "update" || l.all[id] == nil {
		return fmt.Errorf("the limiter is down")
	}
	if err := p.Validate(); err != nil {
		return err
	}
	l.all[id].limit = *p.Limit
	return nil
}

func (l *vlimiter) DeleteOverride(_ context.Context, rule string, id string) error {
	l.rule(rule)
	if l.fail == "delete" || l.all[id] == nil {
		return fmt.Errorf("the limiter is down")
	}
	delete(l.all, id)
	return nil
}

// the channels of the queues
type vchannels struct {
	queuechannels.QueueChannelsClient
	calls    []string
	fail     bool
	channels map[string]int
}

var verifRefusal = &errors.ServerError{Message: "refused", StatusCode: http.StatusTeapot}

func (c *vchannels) called(op, name string) *errors.ServerError {
	c.calls = append(c.calls, op+" "+name)
	if c.fail {
		return verifRefusal
	}
	return nil
}
func (c *vchannels) Channels(_ context.Context, name string, _ *queryassociatedaction.AssociatedActionQuery) v1willow.Channels {
	c.called("channels", name)
	return v1willow.Channels{&v1willow.Channel{}}
}
func (c *vchannels) EnqueueQueueItem(_ context.Context, name string, _ *v1willow.Item) *errors.ServerError {
	err := c.called("enqueue", name)
	if err == nil {
		c.channels[name]++
	}
	return err
}
func (c *vchannels) DequeueQueueItem(_ context.Context, name string, _ *queryassociatedaction.AssociatedActionQuery) (*v1willow.Item, func(), func(), *errors.ServerError) {
	if err := c.called("dequeue", name); err != nil {
		return nil, nil, nil, err
	}
	return &v1willow.Item{}, func() {}, func() {}, nil
}
func (c *vchannels) DestroyChannelsForQueue(_ context.Context, name string) *errors.ServerError {
	err := c.called("destroy", name)
	if err == nil {
		c.channels[name] = 0
	}
	return err
}
func (c *vchannels) DeleteChannel(_ context.Context, name string, _ datatypes.KeyValues) *errors.ServerError {
	return c.called("delete", name)
}
func (c *vchannels) ACK(_ context.Context, name string, _ *v1willow.ACK) *errors.ServerError {
	return c.called("ack", name)
}
func (c *vchannels) Heartbeat(_ context.Context, name string, _ *v1willow.Heartbeat) *errors.ServerError {
	return c.called("heartbeat", name)
}

func verifStatus(err *errors.ServerError) int {
	if err == nil {
		return 0
	}
	return err.StatusCode
}

func TestVerifP16(t *testing.T) {
	cases := 0
	for seed := int64(1); seed <= 40 && !t.Failed(); seed++ {
		rnd := rand.New(rand.NewSource(seed))
		history := ""
		fail := func(format string, args ...any) {
			t.Errorf("VERIF-FAIL %s; the history (seed %d):%s", fmt.Sprintf(format, args...), seed, history)
		}
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer func() {
				if r := recover(); r != nil {
					fail("panic: %v", r)
				}
			}()
			lim := &vlimiter{all: map[string]*voverride{}}
			chs := &vchannels{channels: map[string]int{}}
			cons, err := NewQueueConstructor("memory", lim)
			if err != nil {
				t.Error(err)
				return
			}
			qcl := NewLocalQueueClient(cons, chs, verifRule)
			ctx := testhelpers.NewContextWithMiddlewareSetup()
			model := map[string]int64{}
			for step := 0; step < 60; step++ {
				cases++
				name := string("abcdefgh"[rnd.Intn(2+int(seed)%7)])
				limit := int64(rnd.Intn(8)) - 1
				lim.fail = []string{"", "", "", "", "create", "query", "update", "delete"}[rnd.Intn(8)]
				lim.empty = rnd.Intn(12) == 0
				chs.fail = rnd.Intn(6) == 0
				chs.calls = nil
				had, exists := model[name]
				chans := chs.channels[name]
				op := rnd.Intn(11)
				history += fmt.Sprintf("\n %s of %q limit %d (limiter failing %q, finding nothing %v, channels failing %v): ", []string{"create", "create", "update", "get", "list", "delete", "enqueue", "dequeue", "channels", "ack+heartbeat", "delete channel"}[op], name, limit, lim.fail, lim.empty, chs.fail)
				wantCalls := []string(nil)
				forwarded := func(what string, got int) {
					want := 404
					if exists {
						wantCalls = append(wantCalls, what+" "+name)
						want = 0
						if chs.fail {
							want = http.StatusTeapot
						}
					}
					if got != want {
						fail("%s answered %d, not %d", what, got, want)
					}
				}
				switch op {
				case 0, 1:
					got := verifStatus(qcl.CreateQueue(ctx, &v1willow.Queue{Spec: &v1willow.QueueSpec{DBDefinition: &v1willow.QueueDBDefinition{Name: &name}, Properties: &v1willow.QueueProperties{MaxItems: &limit}}}))
					history += fmt.Sprint(got)
					switch {
					case exists && got != http.StatusConflict:
						fail("creating a queue that exists answered %d", got)
					case !exists && (got == 0) != (lim.fail != "create"):
						fail("creating a queue answered %d", got)
					case !exists && got == 0:
						model[name] = limit
					}
				case 2:
					got := verifStatus(qcl.UpdateQueue(ctx, name, &v1willow.QueueProperties{MaxItems: &limit}))
					history += fmt.Sprint(got)
					bad := lim.fail == "query" || lim.fail == "update" || lim.empty
					switch {
					case !exists && got != 404:
						fail("updating a queue that does not exist answered %d", got)
					case exists && (got == 0) == bad:
						fail("updating a queue answered %d", got)
					case exists && got == 0:
						model[name] = limit
					}
				case 3:
					queue, err := qcl.GetQueue(ctx, name)
					got := verifStatus(err)
					history += fmt.Sprint(got)
					if exists && (got != 0 || queue == nil || *queue.Spec.DBDefinition.Name != name || *queue.Spec.Properties.MaxItems != had) {
						fail("reading a queue answered %d", got)
					}
					if !exists && (got != 404 || queue != nil) {
						fail("reading a queue that does not exist answered %d", got)
					}
				case 4:
				case 5:
					got := verifStatus(qcl.DeleteQueue(ctx, name))
					history += fmt.Sprint(got)
					bad := chs.fail || lim.fail == "query" || lim.fail == "delete" || lim.empty
					if !exists {
						if got != 0 {
							fail("deleting a queue that does not exist answered %d", got)
						}
					} else {
						wantCalls = append(wantCalls, "destroy "+name)
						if (got == 0) == bad {
							fail("deleting a queue answered %d", got)
						}
						if got == 0 {
							delete(model, name)
							if chs.channels[name] != 0 {
								fail("the channels of a deleted queue are still there")
							}
						}
						chans = chs.channels[name]
					}
				case 6:
					got := verifStatus(qcl.Enqueue(ctx, name, &v1willow.Item{}))
					history += fmt.Sprint(got)
					forwarded("enqueue", got)
					if exists && got == 0 {
						chans++
					}
				case 7:
					item, ok, bad, err := qcl.Dequeue(ctx, name, &queryassociatedaction.AssociatedActionQuery{})
					forwarded("dequeue", verifStatus(err))
					if (item != nil) != (err == nil) || (ok != nil) != (err == nil) || (bad != nil) != (err == nil) {
						fail("a dequeue without its callbacks")
					}
				case 8:
					found, err := qcl.QueryChannels(ctx, name, &queryassociatedaction.AssociatedActionQuery{})
					if exists {
						wantCalls = append(wantCalls, "channels "+name)
					}
					if err != nil || (len(found) == 1) != exists {
						fail("querying channels answered %v %v", found, err)
					}
				case 9:
					forwarded("ack", verifStatus(qcl.Ack(ctx, name, &v1willow.ACK{})))
					forwarded("heartbeat", verifStatus(qcl.Heartbeat(ctx, name, &v1willow.Heartbeat{})))
				case 10:
					forwarded("delete", verifStatus(qcl.DeleteChannel(ctx, name, datatypes.KeyValues{"a": datatypes.Int(1)})))
				}
				if fmt.Sprint(chs.calls) != fmt.Sprint(wantCalls) {
					fail("the channels were told %v, not %v", chs.calls, wantCalls)
				}
				if chs.channels[name] != chans {
					fail("the channels of the queue changed")
				}
				// the queues and their limits are those of the model
				list, err := qcl.ListQueues(ctx)
				if err != nil || len(list) != len(model) {
					fail("%d queues are listed, not %d (%v)", len(list), len(model), err)
				}
				for _, q := range list {
					if limit, ok := model[*q.Spec.DBDefinition.Name]; !ok || *q.Spec.Properties.MaxItems != limit {
						fail("the queue %q has the limit %d, asked for was %d (%v)", *q.Spec.DBDefinition.Name, *q.Spec.Properties.MaxItems, limit, ok)
					}
				}
				// and the limiter enforces them
				if len(lim.all) != len(model) {
					fail("the limiter has %d limits for %d queues", len(lim.all), len(model))
				}
				for _, o := range lim.all {
					q, _ := o.kvs["_willow_queue_name"].Data.(string)
					if limit, ok := model[q]; !ok || limit != o.limit || len(o.kvs) != 2 || o.kvs["_willow_enqueued"] != datatypes.String("true") {
						fail("the limiter holds %d for %v", o.limit, o.kvs)
					}
				}
				if lim.bad != "" {
					fail("the limiter was asked for %s", lim.bad)
				}
				if t.Failed() {
					return
				}
			}
		}()
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			t.Errorf("VERIF-FAIL an operation does not return; the history (seed %d):%s", seed, history)
			return
		}
	}
	fmt.Println("VERIF-CASES P16", cases)
}
