package queuechannels

// Runs random histories of channel operations with stand-in channels against a plain model. A fatal log entry counts
// as the end of the service.

import (
	"context"
	"fmt"
	"math/rand"
	"net/http"
	"testing"
	"time"

	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"

	"github.com/DanLavine/willow/internal/helpers"
	"github.com/DanLavine/willow/internal/middleware"
	"github.com/DanLavine/willow/internal/willow/brokers/queue_channels/constructor"
	"github.com/DanLavine/willow/pkg/models/api/common/errors"
	v1 "github.com/DanLavine/willow/pkg/models/api/common/v1"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

type vchannel struct {
	queue, key string
	timeout    func()
	items      int
	forced     int
	acks       int
	beats      int
	race       bool // an item arrives right after the acknowledgement of the last one
	late       bool // the timeout fires while the channel is being removed
	fail       *errors.ServerError
	asked      []string
	ch         chan func(ctx context.Context) (*v1willow.Item, func(), func())
}

func (c *vchannel) Delete() bool { return c.items == 0 }
func (c *vchannel) ForceDelete(ctx context.Context) {
	c.forced++
	if c.late {
		c.timeout()
	}
}
func (c *vchannel) Execute(ctx context.Context) error { <-ctx.Done(); return nil }
func (c *vchannel) Enqueue(ctx context.Context, item *v1willow.Item) *errors.ServerError {
	if c.fail == nil {
		c.items++
	}
	return c.fail
}
func (c *vchannel) Dequeue() <-chan func(ctx context.Context) (*v1willow.Item, func(), func()) {
	return c.ch
}
func (c *vchannel) ACK(ctx context.Context, ack *v1willow.ACK) (bool, *errors.ServerError) {
	c.acks++
	if c.fail != nil {
		return false, c.fail
	}
	if c.items > 0 {
		c.items--
	}
	last := c.items == 0
	if last && c.race {
		c.items = 1 // another client enqueues before the channel is removed
	}
	return last, nil
}
func (c *vchannel) Heartbeat(ctx context.Context, hb *v1willow.Heartbeat) *errors.ServerError {
	c.beats++
	return c.fail
}

type vconstructor struct {
	fail *errors.ServerError
	made *vchannel
}

func (vc *vconstructor) New(deleteCallback func(), queueName string, kvs datatypes.KeyValues) constructor.QueueChannel {
	vc.made = &vchannel{queue: queueName, key: vkey(kvs), timeout: deleteCallback, fail: vc.fail, ch: make(chan func(ctx context.Context) (*v1willow.Item, func(), func()))}
	return vc.made
}

func vkey(kvs datatypes.KeyValues) string {
	s := ""
	for _, k := range kvs.SortedKeys() {
		s += fmt.Sprintf("%s=%v/%v;", k, kvs[k].Type, kvs[k].Data)
	}
	return s
}

func vfatalContext() context.Context {
	core := zapcore.NewCore(zapcore.NewJSONEncoder(zap.NewProductionEncoderConfig()), zapcore.AddSync(vnull{}), zapcore.DebugLevel)
	core = zapcore.RegisterHooks(core, func(e zapcore.Entry) error {
		if e.Level == zapcore.FatalLevel {
			panic("a fatal log entry ends the service: " + e.Message)
		}
		return nil
	})
	ctx, _ := middleware.GetNamedMiddlewareLogger(context.WithValue(context.Background(), middleware.LoggerCtxKey, zap.New(core)), "verif")
	return ctx
}

type vnull struct{}

func (vnull) Write(b []byte) (int, error) { return len(b), nil }

func vitem(kvs datatypes.KeyValues) *v1willow.Item {
	return &v1willow.Item{Spec: &v1willow.ItemSpec{
		DBDefinition: &v1willow.ItemDBDefinition{KeyValues: kvs},
		Properties: &v1willow.ItemProperties{Data: []byte("d"), Updateable: helpers.PointerOf(false), RetryAttempts: helpers.PointerOf[uint64](0),
			RetryPosition: helpers.PointerOf("front"), TimeoutDuration: helpers.PointerOf(time.Second)},
	}}
}

func vkvs(r *rand.Rand) datatypes.KeyValues {
	kvs := datatypes.KeyValues{}
	for len(kvs) == 0 {
		for _, k := range []string{"a", "b"} {
			switch r.Intn(4) {
			case 0:
				kvs[k] = datatypes.Int(r.Intn(2))
			case 1:
				kvs[k] = datatypes.String(fmt.Sprint(r.Intn(2)))
			}
		}
	}
	return kvs
}

func vrun(seed int64, n int) (fail string) {
	var log []string
	defer func() {
		if p := recover(); p != nil {
			fail = fmt.Sprint("panic: ", p)
		}
		if fail != "" {
			fail = fmt.Sprintf("seed %d after %v: %s", seed, log, fail)
		}
	}()
	r := rand.New(rand.NewSource(seed))
	ctx := vfatalContext()
	vc := &vconstructor{}
	client := NewLocalQueueChannelsClient(vc)
	model := map[string]map[string]*vchannel{}
	wasFail := &errors.ServerError{Message: "refused", StatusCode: http.StatusConflict}
	all := &queryassociatedaction.AssociatedActionQuery{}
	for i := 0; i < n; i++ {
		q := []string{"q", "r"}[r.Intn(2)]
		kvs := vkvs(r)
		k := vkey(kvs)
		have := model[q][k]
		var refuse *errors.ServerError
		if r.Intn(4) == 0 {
			refuse = wasFail
		}
		counts := func() (s string) {
			for _, qq := range []string{"q", "r"} {
				for _, c := range model[qq] {
					if qq != q || c.key != k {
						s += fmt.Sprintf("%d.%d.%d.%d ", c.items, c.acks, c.beats, c.forced)
					}
				}
			}
			return fmt.Sprint(len(s), sum(s))
		}
		before := counts()
		op := r.Intn(7)
		switch op {
		case 0, 1:
			log = append(log, fmt.Sprintf("Enqueue(%s %s refuse=%v)", q, k, refuse != nil))
			vc.fail, vc.made = refuse, nil
			items := 0
			if have != nil {
				have.fail, items = refuse, have.items
			}
			err := client.EnqueueQueueItem(ctx, q, vitem(kvs))
			if (err != nil) != (refuse != nil) {
				return fmt.Sprintf("the channel answered %v, the client %v", refuse, err)
			}
			if have == nil {
				if vc.made == nil || vc.made.queue != q || vc.made.key != k {
					return "no channel of these key values was made"
				}
				if err == nil {
					if model[q] == nil {
						model[q] = map[string]*vchannel{}
					}
					model[q][k] = vc.made
					have = vc.made
				}
			} else if vc.made != nil {
				return "a second channel of these key values was made"
			}
			if err == nil && have.items != items+1 {
				return fmt.Sprintf("the channel holds %d items, before %d", have.items, items)
			}
		case 2:
			log = append(log, fmt.Sprintf("ACK(%s %s refuse=%v)", q, k, refuse != nil))
			acks := 0
			if have != nil {
				have.fail, acks = refuse, have.acks
				have.race = r.Intn(2) == 0
			}
			err := client.ACK(ctx, q, &v1willow.ACK{ItemID: "id", KeyValues: kvs, Passed: true})
			switch {
			case have == nil:
				if err == nil || err.StatusCode != http.StatusNotFound {
					return fmt.Sprintf("no such channel, but %v", err)
				}
			case have.acks != acks+1 || (err != nil) != (refuse != nil):
				return fmt.Sprintf("the channel was asked %d times and answered %v, the client %v", have.acks-acks, refuse, err)
			case err == nil && have.items == 0:
				delete(model[q], k)
			}
		case 3:
			log = append(log, fmt.Sprintf("Heartbeat(%s %s refuse=%v)", q, k, refuse != nil))
			beats := 0
			if have != nil {
				have.fail, beats = refuse, have.beats
			}
			err := client.Heartbeat(ctx, q, &v1willow.Heartbeat{ItemID: "id", KeyValues: kvs})
			switch {
			case have == nil:
				if err == nil || err.StatusCode != http.StatusNotFound {
					return fmt.Sprintf("no such channel, but %v", err)
				}
			case have.beats != beats+1 || (err != nil) != (refuse != nil):
				return fmt.Sprintf("the channel was asked %d times and answered %v, the client %v", have.beats-beats, refuse, err)
			}
		case 4:
			log = append(log, fmt.Sprintf("DeleteChannel(%s %s)", q, k))
			if err := client.DeleteChannel(ctx, q, kvs); err != nil {
				return err.Error()
			}
			if have != nil {
				if have.forced != 1 {
					return fmt.Sprintf("the channel was removed %d times", have.forced)
				}
				delete(model[q], k)
			}
		case 5:
			if have == nil {
				continue
			}
			log = append(log, fmt.Sprintf("timeout(%s %s)", q, k))
			have.timeout()
			if have.items == 0 {
				delete(model[q], k)
			}
		case 6:
			if r.Intn(3) != 0 {
				continue
			}
			late := r.Intn(2) == 0
			log = append(log, fmt.Sprintf("DestroyChannelsForQueue(%s late timeout=%v)", q, late))
			for _, c := range model[q] {
				c.late = late
			}
			if err := client.DestroyChannelsForQueue(ctx, q); err != nil {
				return err.Error()
			}
			for _, c := range model[q] {
				if c.forced != 1 {
					return fmt.Sprintf("the channel %s was removed %d times", c.key, c.forced)
				}
			}
			delete(model, q)
			continue
		}
		if after := counts(); op != 6 && op != 4 && op != 5 && op != 2 && have != nil && after != before {
			return "another channel was changed"
		}
		for _, qq := range []string{"q", "r"} {
			found := map[string]bool{}
			for _, c := range client.Channels(ctx, qq, all) {
				found[vkey(c.Spec.DBDefinition.KeyValues)] = true
			}
			for key := range model[qq] {
				if !found[key] {
					return fmt.Sprintf("channel %s of %s is not listed", key, qq)
				}
			}
			if len(found) != len(model[qq]) {
				return fmt.Sprintf("%d channels of %s listed, not %d", len(found), qq, len(model[qq]))
			}
		}
	}
	return ""
}

func sum(s string) (n int) {
	for _, b := range []byte(s) {
		n = n + int(b)
	}
	return n
}

func TestVerifP16Channels(t *testing.T) {
	_ = v1.Equals
	cases := 0
	for seed := int64(1); seed <= 400; seed++ {
		done := make(chan string, 1)
		go func() { done <- vrun(seed, 60) }()
		select {
		case f := <-done:
			if f != "" {
				fmt.Println("VERIF-FAIL P16 channels of a queue:", f)
				t.FailNow()
			}
		case <-time.After(20 * time.Second):
			fmt.Println("VERIF-FAIL P16 channels of a queue: no answer, seed", seed)
			t.FailNow()
		}
		cases++
	}
	fmt.Println("VERIF-CASES P16channels", cases)
}
