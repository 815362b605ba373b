package btreeonetomany

// Runs random histories of the one-to-many index against a plain list of items and compares every answer.

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"testing"
	"time"

	v1common "github.com/DanLavine/willow/pkg/models/api/common/v1"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	querymatchaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

type vitem struct {
	one, id string
	kvs     datatypes.KeyValues
	val     any
}

type votm struct {
	t     *testing.T
	r     *rand.Rand
	tree  *threadsafeOneToManyTree
	items []*vitem
	hist  []string
	next  int
}

func (v *votm) failf(format string, args ...any) {
	h := v.hist
	if len(h) > 40 {
		h = h[len(h)-40:]
	}
	v.t.Fatalf("VERIF-FAIL one-to-many index: %s\nhistory: %s", fmt.Sprintf(format, args...), strings.Join(h, "; "))
}

func (v *votm) note(format string, args ...any) {
	v.hist = append(v.hist, fmt.Sprintf(format, args...))
}

// every call has to come back
func (v *votm) timed(what string, f func()) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case p := <-done:
		if p != nil {
			v.failf("%s: panic: %v", what, p)
		}
	case <-time.After(20 * time.Second):
		v.failf("%s: never answered", what)
	}
}

func (v *votm) kv() datatypes.KeyValues {
	kv := datatypes.KeyValues{}
	for n := 1 + v.r.Intn(3); n > 0; n-- {
		k := string("abc"[v.r.Intn(3)])
		switch v.r.Intn(3) {
		case 0:
			kv[k] = datatypes.Int(v.r.Intn(2))
		case 1:
			kv[k] = datatypes.String(fmt.Sprintf("s%d", v.r.Intn(2)))
		default:
			kv[k] = datatypes.Uint8(1)
		}
	}
	return kv
}

func vsame(a, b datatypes.KeyValues) bool {
	if len(a) != len(b) {
		return false
	}
	for k, x := range a {
		if y, ok := b[k]; !ok || x != y {
			return false
		}
	}
	return true
}

func (v *votm) find(one string, kvs datatypes.KeyValues) int {
	for i, it := range v.items {
		if it.one == one && vsame(it.kvs, kvs) {
			return i
		}
	}
	return -1
}

func (v *votm) drop(i int) { v.items = append(v.items[:i:i], v.items[i+1:]...) }

// an item handed to a callback must be the stored one
func (v *votm) check(what string, a OneToManyItem, w *vitem) {
	if a.Value() != w.val || a.OneID() != w.one || a.ManyID() != w.id || !vsame(a.ManyKeyValues(), w.kvs) {
		v.failf("%s: handed out value %v of %q id %q keys %v, stored is %v of %q id %q keys %v", what, a.Value(), a.OneID(), a.ManyID(), a.ManyKeyValues(), w.val, w.one, w.id, w.kvs)
	}
	kv := a.ManyKeyValues()
	kv["changed"] = datatypes.Int(1)
	if _, ok := a.ManyKeyValues()["changed"]; ok {
		v.failf("%s: the key values handed out are the stored ones", what)
	}
}

func (v *votm) lookup(what string, a OneToManyItem) *vitem {
	for _, it := range v.items {
		if it.val == a.Value() {
			v.check(what, a, it)
			return it
		}
	}
	v.failf("%s: handed out %v, which is not stored", what, a.Value())
	return nil
}

func (v *votm) visit(what, one string, want func(*vitem) bool, call func(OneToManyTreeIterate) error) {
	exp := []string{}
	for _, it := range v.items {
		if it.one == one && want(it) {
			exp = append(exp, it.id)
		}
	}
	stop := -1
	if v.r.Intn(4) == 0 {
		stop = 1 + v.r.Intn(3)
	}
	got := []string{}
	var err error
	v.timed(what, func() {
		err = call(func(a OneToManyItem) bool {
			it := v.lookup(what, a)
			if it.one != one {
				v.failf("%s: item of relation %q handed out for %q", what, it.one, one)
			}
			got = append(got, it.id)
			return len(got) != stop
		})
	})
	if err != nil {
		v.failf("%s: error %v", what, err)
	}
	if stop > 0 && len(exp) >= stop {
		if len(got) != stop {
			v.failf("%s: asked to stop after %d items, handed out %d", what, stop, len(got))
		}
		for _, id := range got {
			if !strings.Contains(" "+strings.Join(exp, " ")+" ", " "+id+" ") {
				v.failf("%s: handed out %q, expected one of %v", what, id, exp)
			}
		}
		return
	}
	sort.Strings(exp)
	sort.Strings(got)
	if strings.Join(exp, " ") != strings.Join(got, " ") {
		v.failf("%s: handed out %v, stored and asked for are %v", what, got, exp)
	}
}

func (v *votm) step() {
	one := fmt.Sprintf("rel%d", v.r.Intn(3))
	kvs := v.kv()
	anyTR := v1common.TypeRestrictions{MinDataType: datatypes.MinDataType, MaxDataType: datatypes.MaxDataType}
	switch v.r.Intn(12) {
	case 0, 1, 2, 3, 4:
		giveUp := v.r.Intn(8) == 0
		v.note("CreateOrFind(%s, %v, give up %v)", one, kvs, giveUp)
		passed := datatypes.KeyValues{}
		for k, x := range kvs {
			passed[k] = x
		}
		at := v.find(one, kvs)
		v.next++
		val := fmt.Sprintf("v%d", v.next)
		created, found := 0, 0
		var id string
		var err error
		v.timed("CreateOrFind", func() {
			id, err = v.tree.CreateOrFind(one, passed, func() any {
				created++
				if giveUp {
					return nil
				}
				return val
			}, func(a OneToManyItem) {
				found++
				if at < 0 {
					v.failf("CreateOrFind: found %v under keys nothing is stored under", a.Value())
				}
				v.check("CreateOrFind", a, v.items[at])
			})
		})
		if err != nil {
			v.failf("CreateOrFind: error %v", err)
		}
		if at >= 0 {
			if created != 0 || found != 1 || id != v.items[at].id {
				v.failf("CreateOrFind of a stored item: created %d times, found %d times, id %q for %q", created, found, id, v.items[at].id)
			}
		} else {
			if created != 1 || found != 0 {
				v.failf("CreateOrFind of a new item: created %d times, found %d times", created, found)
			}
			if !giveUp {
				for _, it := range v.items {
					if it.id == id {
						v.failf("CreateOrFind: identifier %q given twice", id)
					}
				}
				if id == "" {
					v.failf("CreateOrFind: no identifier for a new item")
				}
				v.items = append(v.items, &vitem{one: one, id: id, kvs: kvs, val: val})
			}
		}
		// what the caller does with its map afterwards is its own business
		passed["a"] = datatypes.String("later")
		passed["z"] = datatypes.Int(9)
	case 5:
		v.note("CreateOrFind(refused)")
		called := false
		create := func() any { called = true; return "x" }
		find := func(OneToManyItem) { called = true }
		reserved := v.kv()
		reserved["_associated_id"] = datatypes.String("x")
		for i, f := range []func() (string, error){
			func() (string, error) { return v.tree.CreateOrFind("", kvs, create, find) },
			func() (string, error) { return v.tree.CreateOrFind(one, datatypes.KeyValues{}, create, find) },
			func() (string, error) { return v.tree.CreateOrFind(one, reserved, create, find) },
			func() (string, error) { return v.tree.CreateOrFind(one, kvs, nil, find) },
			func() (string, error) { return v.tree.CreateOrFind(one, kvs, create, nil) },
		} {
			v.timed("CreateOrFind", func() {
				if id, err := f(); err == nil || id != "" || called {
					v.failf("CreateOrFind with arguments to refuse (%d): id %q, error %v, callbacks run: %v", i, id, err, called)
				}
			})
		}
		if err := v.tree.QueryAction("", &queryassociatedaction.AssociatedActionQuery{}, func(OneToManyItem) bool { called = true; return true }); err == nil || called {
			v.failf("QueryAction without a relation answered")
		}
		if err := v.tree.DestroyOneOfManyByID(one, "", func(OneToManyItem) bool { called = true; return true }); err == nil || called {
			v.failf("DestroyOneOfManyByID without an identifier answered")
		}
		if err := v.tree.DestroyOne("", func(OneToManyItem) bool { called = true; return true }); err == nil || called {
			v.failf("DestroyOne without a relation answered")
		}
		if err := v.tree.DeleteOneOfManyByKeyValues("", kvs, func(OneToManyItem) bool { called = true; return true }); err == nil || called {
			v.failf("DeleteOneOfManyByKeyValues without a relation answered")
		}
	case 6, 7:
		v.note("QueryAction(%s, %v)", one, kvs)
		sel := queryassociatedaction.SelectionKeyValues{}
		for k, x := range kvs {
			sel[k] = queryassociatedaction.ValueQuery{Value: x, Comparison: v1common.Equals, TypeRestrictions: anyTR}
		}
		q := &queryassociatedaction.AssociatedActionQuery{Selection: &queryassociatedaction.Selection{KeyValues: sel}}
		v.visit("QueryAction", one, func(it *vitem) bool {
			for k, x := range kvs {
				if y, ok := it.kvs[k]; !ok || y != x {
					return false
				}
			}
			return true
		}, func(f OneToManyTreeIterate) error { return v.tree.QueryAction(one, q, f) })
	case 8:
		v.note("MatchAction(%s, %v)", one, kvs)
		m := &querymatchaction.MatchActionQuery{KeyValues: querymatchaction.MatchKeyValues{}}
		for k, x := range kvs {
			m.KeyValues[k] = querymatchaction.MatchValue{Value: x, TypeRestrictions: anyTR}
		}
		v.visit("MatchAction", one, func(it *vitem) bool {
			for k, y := range it.kvs {
				if x, ok := kvs[k]; !ok || y != x {
					return false
				}
			}
			return true
		}, func(f OneToManyTreeIterate) error { return v.tree.MatchAction(one, m, f) })
	case 9:
		allow, ask := v.r.Intn(3) > 0, v.r.Intn(4) > 0
		if len(v.items) > 0 && v.r.Intn(2) == 0 {
			it := v.items[v.r.Intn(len(v.items))]
			one, kvs = it.one, it.kvs
		}
		v.note("DeleteOneOfManyByKeyValues(%s, %v, allow %v, ask %v)", one, kvs, allow, ask)
		v.remove("DeleteOneOfManyByKeyValues", v.find(one, kvs), allow, ask, func(f OneToManyTreeRemove) error {
			return v.tree.DeleteOneOfManyByKeyValues(one, kvs, f)
		})
	case 10:
		allow, ask := v.r.Intn(3) > 0, v.r.Intn(4) > 0
		id := "nothing"
		at := -1
		if len(v.items) > 0 {
			at = v.r.Intn(len(v.items))
			id = v.items[at].id
			if v.r.Intn(3) > 0 {
				one = v.items[at].one
			}
			if one != v.items[at].one {
				at = -1
			}
		}
		v.note("DestroyOneOfManyByID(%s, %s, allow %v, ask %v)", one, id, allow, ask)
		v.remove("DestroyOneOfManyByID", at, allow, ask, func(f OneToManyTreeRemove) error {
			return v.tree.DestroyOneOfManyByID(one, id, f)
		})
	case 11:
		if v.r.Intn(3) > 0 {
			return
		}
		refuse := -1
		if v.r.Intn(2) == 0 {
			refuse = v.r.Intn(4)
		}
		v.note("DestroyOne(%s, refuse %d)", one, refuse)
		calls := 0
		total := 0
		for _, it := range v.items {
			if it.one == one {
				total++
			}
		}
		gone := map[any]bool{}
		var err error
		v.timed("DestroyOne", func() {
			err = v.tree.DestroyOne(one, func(a OneToManyItem) bool {
				it := v.lookup("DestroyOne", a)
				if it.one != one || gone[it.val] {
					v.failf("DestroyOne(%s): offered %v of %q (already gone: %v)", one, it.val, it.one, gone[it.val])
				}
				calls++
				if calls-1 == refuse {
					return false
				}
				gone[it.val] = true
				return true
			})
		})
		if err != nil {
			v.failf("DestroyOne: error %v", err)
		}
		if want := total; calls != want && !(refuse >= 0 && refuse < total && calls == refuse+1) {
			v.failf("DestroyOne: offered %d of %d items (refusing number %d)", calls, total, refuse)
		}
		still := false
		v.timed("Find of the relation", func() {
			_ = v.tree.oneKeys.Find(datatypes.String(one), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, func(_ datatypes.EncapsulatedValue, _ any) bool {
				still = true
				return true
			})
		})
		if still != (refuse >= 0 && refuse < total) {
			v.failf("DestroyOne of %d items (refusing number %d): the relation is still there: %v", total, refuse, still)
		}
		kept := []*vitem{}
		for _, it := range v.items {
			if !gone[it.val] {
				kept = append(kept, it)
			}
		}
		v.items = kept
	}
}

func (v *votm) remove(what string, at int, allow, ask bool, call func(OneToManyTreeRemove) error) {
	calls := 0
	var f OneToManyTreeRemove
	if ask {
		f = func(a OneToManyItem) bool {
			calls++
			if at < 0 {
				v.failf("%s: offered %v, which was not asked for", what, a.Value())
			}
			v.check(what, a, v.items[at])
			return allow
		}
	}
	var err error
	v.timed(what, func() { err = call(f) })
	if err != nil {
		v.failf("%s: error %v", what, err)
	}
	if want := 0; ask {
		if at >= 0 {
			want = 1
		}
		if calls != want {
			v.failf("%s: asked %d times, %d expected", what, calls, want)
		}
	}
	if at >= 0 && (allow || !ask) {
		v.drop(at)
	}
}

// every stored item is there, and nothing else
func (v *votm) all() {
	for n := 0; n < 3; n++ {
		one := fmt.Sprintf("rel%d", n)
		got := map[string]bool{}
		v.timed("QueryAction", func() {
			err := v.tree.QueryAction(one, &queryassociatedaction.AssociatedActionQuery{}, func(a OneToManyItem) bool {
				it := v.lookup("QueryAction for all", a)
				if it.one != one || got[it.id] {
					v.failf("QueryAction for all of %q: %v of %q, again: %v", one, it.val, it.one, got[it.id])
				}
				got[it.id] = true
				return true
			})
			if err != nil {
				v.failf("QueryAction for all: error %v", err)
			}
		})
		for _, it := range v.items {
			if it.one == one && !got[it.id] {
				v.failf("%v stored in %q under %v is not found by a query for all", it.val, one, it.kvs)
			}
		}
	}
}

func TestVerifP22Histories(t *testing.T) {
	runs, length := 150, 60
	if os.Getenv("VERIF_TIER") == "thorough" {
		runs, length = 4000, 150
	}
	n := 0
	for seed := 0; seed < runs; seed++ {
		v := &votm{t: t, r: rand.New(rand.NewSource(int64(seed))), tree: NewThreadSafe()}
		for i := 0; i < length; i++ {
			v.step()
			n++
			if i%6 == 0 || i == length-1 {
				v.all()
			}
		}
	}
	t.Logf("VERIF-CASES onetomany-histories %d", n)
	fmt.Printf("VERIF-CASES onetomany-histories %d\n", n)
}

// While a relation or an item is being destroyed, other requests for it are refused at once, without callbacks.
// (Requests for other relations may wait for the end.)
func TestVerifP22Busy(t *testing.T) {
	runs := 40
	if os.Getenv("VERIF_TIER") == "thorough" {
		runs = 600
	}
	all := &queryassociatedaction.AssociatedActionQuery{}
	n := 0
	for seed := 0; seed < runs; seed++ {
		v := &votm{t: t, r: rand.New(rand.NewSource(int64(seed))), tree: NewThreadSafe()}
		kvs, others := v.kv(), v.kv()
		others["d"] = datatypes.Int(1)
		count := func(err error, id string, create, find int) func(string, string, error, int, int) {
			return func(what, gotID string, got error, c, f int) {
				n++
				if got != err || (err != nil && (c != 0 || f != 0)) || (err == nil && (c != create || f != find)) {
					v.failf("%s: error %v, created %d times, found %d times; expected error %v, created %d, found %d", what, got, c, f, err, create, find)
				}
			}
		}
		make := func(one string, kv datatypes.KeyValues) (string, error, int, int) {
			c, f := 0, 0
			var id string
			var err error
			v.timed("CreateOrFind "+one, func() {
				id, err = v.tree.CreateOrFind(one, kv, func() any { c++; return one + fmt.Sprint(kv) }, func(OneToManyItem) { f++ })
			})
			return id, err, c, f
		}
		visits := func(what string, want error, atLeast int, call func(func(OneToManyItem) bool) error) {
			n++
			calls := 0
			var err error
			v.timed(what, func() { err = call(func(OneToManyItem) bool { calls++; return false }) })
			if err != want || (want != nil && calls != 0) || (want == nil && calls < atLeast) {
				v.failf("%s: error %v after %d callbacks; expected error %v", what, err, calls, want)
			}
		}
		id, _, _, _ := make("rel", kvs)
		make("rel", others)
		make("other", kvs)

		// an item is being destroyed
		entered, leave, done := makeChans()
		go func() {
			defer close(done)
			_ = v.tree.DestroyOneOfManyByID("rel", id, func(OneToManyItem) bool { close(entered); <-leave; return false })
		}()
		v.timed("DestroyOneOfManyByID", func() { <-entered })
		visits("DestroyOneOfManyByID of an item being destroyed", ErrorManyIDDestroying, 0, func(g func(OneToManyItem) bool) error { return v.tree.DestroyOneOfManyByID("rel", id, g) })
		visits("DeleteOneOfManyByKeyValues of an item being destroyed", ErrorManyKeyValuesDestroying, 0, func(g func(OneToManyItem) bool) error { return v.tree.DeleteOneOfManyByKeyValues("rel", kvs, g) })
		visits("DeleteOneOfManyByKeyValues of the same key values in another relation", nil, 1, func(g func(OneToManyItem) bool) error { return v.tree.DeleteOneOfManyByKeyValues("other", kvs, g) })
		close(leave)
		v.timed("the end of DestroyOneOfManyByID", func() { <-done })
		i, err, c, f := make("rel", kvs)
		count(nil, "", 0, 1)("CreateOrFind after a refused removal", i, err, c, f)

		// the relation is being destroyed
		entered, leave, done = makeChans()
		first := true
		go func() {
			defer close(done)
			_ = v.tree.DestroyOne("rel", func(OneToManyItem) bool {
				if first {
					first = false
					close(entered)
					<-leave
				}
				return true
			})
		}()
		v.timed("DestroyOne", func() { <-entered })
		i, err, c, f = make("rel", kvs)
		count(ErrorOneIDDestroying, "", 0, 0)("CreateOrFind in a relation being destroyed", i, err, c, f)
		visits("QueryAction of a relation being destroyed", ErrorOneIDDestroying, 0, func(g func(OneToManyItem) bool) error { return v.tree.QueryAction("rel", all, g) })
		visits("MatchAction of a relation being destroyed", ErrorOneIDDestroying, 0, func(g func(OneToManyItem) bool) error {
			return v.tree.MatchAction("rel", querymatchaction.KeyValuesToAnyMatchActionQuery(kvs), g)
		})
		visits("DestroyOneOfManyByID in a relation being destroyed", ErrorOneIDDestroying, 0, func(g func(OneToManyItem) bool) error { return v.tree.DestroyOneOfManyByID("rel", id, g) })
		visits("DeleteOneOfManyByKeyValues in a relation being destroyed", ErrorOneIDDestroying, 0, func(g func(OneToManyItem) bool) error { return v.tree.DeleteOneOfManyByKeyValues("rel", kvs, g) })
		visits("DestroyOne of a relation being destroyed", ErrorOneIDDestroying, 0, func(g func(OneToManyItem) bool) error { return v.tree.DestroyOne("rel", g) })
		close(leave)
		v.timed("the end of DestroyOne", func() { <-done })
		i, err, c, f = make("rel", kvs)
		count(nil, "", 1, 0)("CreateOrFind after the relation was destroyed", i, err, c, f)
	}
	fmt.Printf("VERIF-CASES onetomany-busy %d\n", n)
}

func makeChans() (chan struct{}, chan struct{}, chan struct{}) {
	return make(chan struct{}), make(chan struct{}), make(chan struct{})
}

// An item reports exactly the key values it was created under, of every type.
func TestVerifP22Keys(t *testing.T) {
	v := &votm{t: t, tree: NewThreadSafe()}
	kvs := datatypes.KeyValues{}
	for i, x := range []datatypes.EncapsulatedValue{datatypes.Any(), datatypes.Int(0), datatypes.Int64(-1), datatypes.Uint(0), datatypes.Float32(0), datatypes.String(""), datatypes.String("s")} {
		kvs[fmt.Sprintf("k%d", i)] = x
	}
	for n := 1; n <= len(kvs); n++ {
		want := datatypes.KeyValues{}
		for i := 0; i < n; i++ {
			k := fmt.Sprintf("k%d", (i+n)%len(kvs))
			want[k] = kvs[k]
		}
		id, err := v.tree.CreateOrFind("rel", want, func() any { return n }, func(OneToManyItem) { v.failf("CreateOrFind: found an item under new key values") })
		if err != nil {
			v.failf("CreateOrFind(%v): error %v", want, err)
		}
		it := &vitem{one: "rel", id: id, kvs: want, val: n}
		seen := 0
		v.timed("CreateOrFind", func() {
			_, err = v.tree.CreateOrFind("rel", want, func() any { v.failf("CreateOrFind: created under stored key values"); return nil }, func(a OneToManyItem) { v.check("CreateOrFind", a, it); seen++ })
		})
		if err != nil || seen != 1 {
			v.failf("CreateOrFind(%v) again: error %v, found %d times", want, err, seen)
		}
	}
	fmt.Printf("VERIF-CASES onetomany-keys %d\n", len(kvs))
}
