package v1

import (
	"fmt"
	"testing"
	"time"

	"github.com/DanLavine/willow/pkg/models/datatypes"
)

func vcheck(t *testing.T, n *int, what any, f func() bool, want bool) {
	*n++
	defer func() {
		if p := recover(); p != nil {
			t.Fatalf("VERIF-FAIL panic: %v on %+v", p, what)
		}
	}()
	if got := f(); got != want {
		t.Fatalf("VERIF-FAIL %+v accepted=%v, want %v", what, got, want)
	}
}

func vp[T any](v T) *T { return &v }

type vkv struct {
	kv datatypes.KeyValues
	ok bool
}

var vkvs = []vkv{{nil, false}, {datatypes.KeyValues{}, false}, {datatypes.KeyValues{"a": datatypes.Int(1)}, true}, {datatypes.KeyValues{"a": datatypes.Int(1), "b": datatypes.Any()}, false}, {datatypes.KeyValues{"a": {Type: datatypes.T_int, Data: "x"}}, false}}

func TestVerifP05Willow(t *testing.T) {
	n := 0
	for _, k := range vkvs {
		for _, id := range []string{"", "i"} {
			vcheck(t, &n, k.kv, func() bool { return (ACK{ItemID: id, KeyValues: k.kv}).Validate() == nil }, k.ok && id != "")
			vcheck(t, &n, k.kv, func() bool { return (Heartbeat{ItemID: id, KeyValues: k.kv}).Validate() == nil }, k.ok && id != "")
		}
	}
	// queues
	type qs struct {
		s  *QueueSpec
		ok bool
	}
	specs := []qs{{nil, false}, {&QueueSpec{}, false}, {&QueueSpec{Properties: &QueueProperties{MaxItems: vp(int64(1))}}, false}}
	for _, name := range []*string{nil, vp(""), vp("q")} {
		d := &QueueDBDefinition{Name: name}
		ok := name != nil && *name != ""
		specs = append(specs, qs{&QueueSpec{DBDefinition: d}, false}, qs{&QueueSpec{DBDefinition: d, Properties: &QueueProperties{}}, false}, qs{&QueueSpec{DBDefinition: d, Properties: &QueueProperties{MaxItems: vp(int64(-1))}}, ok})
	}
	goodQ := &Queue{Spec: specs[len(specs)-1].s, State: &QueueState{}}
	vcheck(t, &n, "null entry", func() bool { return Queues{goodQ, nil}.Validate() == nil }, false)
	for _, s := range specs {
		for _, st := range []*QueueState{nil, {}} {
			q := &Queue{Spec: s.s, State: st}
			vcheck(t, &n, s.s, func() bool { return q.ValidateSpecOnly() == nil }, s.ok && st == nil)
			vcheck(t, &n, s.s, func() bool { return q.Validate() == nil }, s.ok && st != nil)
			vcheck(t, &n, s.s, func() bool { return Queues{goodQ, q}.Validate() == nil }, s.ok && st != nil)
			vcheck(t, &n, s.s, func() bool { return Queues{q, goodQ}.Validate() == nil }, s.ok && st != nil)
		}
	}
	// channels
	goodC := &Channel{Spec: &ChannelSpec{DBDefinition: &ChannelDBDefinition{KeyValues: vkvs[2].kv}}, State: &ChannelState{EnqueuedItems: 1}}
	vcheck(t, &n, "null entry", func() bool { return Channels{goodC, nil}.Validate() == nil }, false)
	cspecs := []struct {
		s  *ChannelSpec
		ok bool
	}{{nil, false}, {&ChannelSpec{}, false}}
	for _, k := range vkvs {
		cspecs = append(cspecs, struct {
			s  *ChannelSpec
			ok bool
		}{&ChannelSpec{DBDefinition: &ChannelDBDefinition{KeyValues: k.kv}}, k.ok})
	}
	for _, s := range cspecs {
		for _, st := range []*ChannelState{nil, {}, {EnqueuedItems: 1}, {ProcessingItems: 1}, {EnqueuedItems: 2, ProcessingItems: 3}} {
			ok := s.ok && st != nil && st.EnqueuedItems+st.ProcessingItems != 0
			c := &Channel{Spec: s.s, State: st}
			vcheck(t, &n, s.s, func() bool { return c.Validate() == nil }, ok)
			vcheck(t, &n, s.s, func() bool { return Channels{goodC, c}.Validate() == nil }, ok)
			vcheck(t, &n, s.s, func() bool { return Channels{c, goodC}.Validate() == nil }, ok)
		}
	}
	// items: one deviation at a time and pairs of deviations
	mk := func() *Item {
		return &Item{Spec: &ItemSpec{DBDefinition: &ItemDBDefinition{KeyValues: vkvs[2].kv}, Properties: &ItemProperties{Data: []byte("x"), Updateable: vp(false), RetryAttempts: vp(uint64(0)), RetryPosition: vp("front"), TimeoutDuration: vp(time.Second)}}}
	}
	type dev struct {
		name string
		f    func(i *Item)
		ok   bool
	}
	devs := []dev{
		{"none", func(i *Item) {}, true}, {"no spec", func(i *Item) { i.Spec = nil }, false},
		{"no definition", func(i *Item) { i.Spec.DBDefinition = nil }, false}, {"no properties", func(i *Item) { i.Spec.Properties = nil }, false},
		{"no data", func(i *Item) { i.Spec.Properties.Data = nil }, false}, {"empty data", func(i *Item) { i.Spec.Properties.Data = []byte{} }, false},
		{"no updateable", func(i *Item) { i.Spec.Properties.Updateable = nil }, false}, {"no attempts", func(i *Item) { i.Spec.Properties.RetryAttempts = nil }, false},
		{"no position", func(i *Item) { i.Spec.Properties.RetryPosition = nil }, false}, {"position ''", func(i *Item) { i.Spec.Properties.RetryPosition = vp("") }, false},
		{"position middle", func(i *Item) { i.Spec.Properties.RetryPosition = vp("middle") }, false}, {"position Front", func(i *Item) { i.Spec.Properties.RetryPosition = vp("Front") }, false},
		{"position back", func(i *Item) { i.Spec.Properties.RetryPosition = vp("back") }, true},
		{"no timeout", func(i *Item) { i.Spec.Properties.TimeoutDuration = nil }, false}, {"timeout 0", func(i *Item) { i.Spec.Properties.TimeoutDuration = vp(time.Duration(0)) }, false},
		{"timeout -1", func(i *Item) { i.Spec.Properties.TimeoutDuration = vp(time.Duration(-1)) }, false}, {"updateable true", func(i *Item) { i.Spec.Properties.Updateable = vp(true) }, true},
		{"attempts max", func(i *Item) { i.Spec.Properties.RetryAttempts = vp(^uint64(0)) }, true},
	}
	for _, k := range vkvs {
		k := k
		devs = append(devs, dev{fmt.Sprint("keys ", k.kv), func(i *Item) { i.Spec.DBDefinition.KeyValues = k.kv }, k.ok})
	}
	for _, a := range devs {
		for _, b := range devs {
			for _, st := range []*ItemState{nil, {}, {ID: "i"}} {
				i := mk()
				// properties first, then what removes them
				func() {
					defer func() { recover() }()
					a.f(i)
				}()
				func() {
					defer func() { recover() }()
					b.f(i)
				}()
				i.State = st
				ok := a.ok && b.ok
				if a.ok != b.ok || ok || a.name != b.name { // later deviations may undo earlier ones of the same field
					ok = vitemOK(i)
				}
				vcheck(t, &n, a.name+"/"+b.name, func() bool { return i.ValidateSpecOnly() == nil }, ok && st == nil)
				vcheck(t, &n, a.name+"/"+b.name, func() bool { return i.Validate() == nil }, ok && st != nil && st.ID != "")
			}
		}
	}
	fmt.Println("VERIF-CASES P05 willow documents", n)
}

func vitemOK(i *Item) bool {
	if i.Spec == nil || i.Spec.DBDefinition == nil || i.Spec.Properties == nil {
		return false
	}
	kv := i.Spec.DBDefinition.KeyValues
	p := i.Spec.Properties
	return len(kv) == 1 && kv["a"].Data == 1 && len(p.Data) > 0 && p.Updateable != nil && p.RetryAttempts != nil && p.RetryPosition != nil && (*p.RetryPosition == "front" || *p.RetryPosition == "back") && p.TimeoutDuration != nil && *p.TimeoutDuration > 0
}
