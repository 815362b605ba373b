package v1

import (
	"fmt"
	"testing"
	"time"

	"github.com/DanLavine/willow/pkg/models/datatypes"
)

type vspec struct {
	s  *LockSpec
	ok bool
}

func vd(d time.Duration) *time.Duration { return &d }

func vcheck(t *testing.T, n *int, what any, f func() bool, want bool) {
	*n++
	defer func() {
		if p := recover(); p != nil {
			t.Fatalf("VERIF-FAIL panic: %v on %+v", p, what)
		}
	}()
	if got := f(); got != want {
		t.Fatalf("VERIF-FAIL %+v accepted=%v, want %v", what, got, want)
	}
}

func TestVerifP05Locker(t *testing.T) {
	n := 0
	for _, s := range []string{"", "x"} {
		vcheck(t, &n, s, func() bool { return (&LockClaim{SessionID: s}).Validate() == nil }, s != "")
	}
	specs := []vspec{{nil, false}, {&LockSpec{}, false}, {&LockSpec{Properties: &LockProperties{Timeout: vd(1)}}, false}}
	for _, kv := range []datatypes.KeyValues{nil, {}, {"a": datatypes.Int(1)}, {"a": datatypes.Int(1), "b": datatypes.Any()}, {"a": {Type: datatypes.T_int, Data: "x"}}} {
		ok := len(kv) == 1 && kv["a"].Data == 1
		d := &LockDBDefinition{KeyValues: kv}
		specs = append(specs, vspec{&LockSpec{DBDefinition: d}, ok}, vspec{&LockSpec{DBDefinition: d, Properties: &LockProperties{}}, ok})
		for _, x := range []time.Duration{-1 << 63, -time.Second, 0, 1, time.Hour} {
			specs = append(specs, vspec{&LockSpec{DBDefinition: d, Properties: &LockProperties{Timeout: vd(x)}}, ok && x > 0})
		}
	}
	states := []struct {
		s  *LockState
		ok bool
	}{{nil, false}, {&LockState{}, false}, {&LockState{LockID: "a", SessionID: "b", LocksHeldOrWaiting: 1}, true}, {&LockState{SessionID: "b", LocksHeldOrWaiting: 1}, false}, {&LockState{LockID: "a", LocksHeldOrWaiting: 1}, false}, {&LockState{LockID: "a", SessionID: "b"}, false}}
	good := &Lock{Spec: &LockSpec{DBDefinition: &LockDBDefinition{KeyValues: datatypes.KeyValues{"a": datatypes.Int(1)}}}, State: states[2].s}
	vcheck(t, &n, "null entry", func() bool { return Locks{good, nil}.Validate() == nil }, false)
	for _, s := range specs {
		for _, st := range states {
			l := &Lock{Spec: s.s, State: st.s}
			vcheck(t, &n, l.Spec, func() bool { return l.ValidateSpecOnly() == nil }, s.ok && st.s == nil)
			vcheck(t, &n, l.Spec, func() bool { return l.Validate() == nil }, s.ok && st.ok)
			vcheck(t, &n, l.Spec, func() bool { return Locks{good, l}.Validate() == nil }, s.ok && st.ok)
			vcheck(t, &n, l.Spec, func() bool { return Locks{l, good}.Validate() == nil }, s.ok && st.ok)
		}
		if s.s != nil {
			var given *time.Duration
			if s.s.Properties != nil {
				given = s.s.Properties.Timeout
			}
			def := vd(77)
			l := &Lock{Spec: s.s}
			vcheck(t, &n, "defaults", func() bool {
				l.SetDefaultProperties(&LockProperties{Timeout: def})
				want := given
				if want == nil {
					want = def
				}
				return l.Spec.Properties != nil && l.Spec.Properties.Timeout == want
			}, true)
		}
	}
	fmt.Println("VERIF-CASES P05 locker documents", n)
}
