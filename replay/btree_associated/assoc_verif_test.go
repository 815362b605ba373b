package btreeassociated

// Runs random histories of the associated index against a plain list of items and compares every answer, the stored
// sub-indexes and every lock after every call.

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	v1common "github.com/DanLavine/willow/pkg/models/api/common/v1"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	querymatchaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

type vitem struct {
	id  string
	kvs datatypes.KeyValues
	val any
}

type vassoc struct {
	t     *testing.T
	r     *rand.Rand
	tree  *threadsafeAssociatedTree
	items []*vitem
	hist  []string
	grow  bool // create more than is removed
	few   bool // many items that share few values, with more keys each
}

var vkeys = []string{"a", "b", "c", "d", "e"}

func (v *vassoc) value(any bool) datatypes.EncapsulatedValue {
	if v.few {
		return datatypes.Int(v.r.Intn(2))
	}
	switch n := v.r.Intn(9); {
	case n < 3:
		return datatypes.Int(n)
	case n < 6:
		return datatypes.String(fmt.Sprintf("s%d", n-3))
	case n == 6:
		return datatypes.Uint8(1)
	case n == 7 && any:
		return datatypes.Any()
	default:
		return datatypes.Float64(1.5)
	}
}

func (v *vassoc) keyValues() datatypes.KeyValues {
	kv := datatypes.KeyValues{}
	n := 1 + v.r.Intn(3)
	if v.few {
		n = 1 + v.r.Intn(6)
	}
	for ; n > 0; n-- {
		kv[vkeys[v.r.Intn(len(vkeys))]] = v.value(true)
	}
	return kv
}

func vshow(kv datatypes.KeyValues) string {
	var s []string
	for _, k := range kv.SortedKeys() {
		s = append(s, fmt.Sprintf("%s=%d:%v", k, kv[k].Type, kv[k].Data))
	}
	return "{" + strings.Join(s, " ") + "}"
}

func (v *vassoc) find(kv datatypes.KeyValues) *vitem {
	for _, it := range v.items {
		if vshow(it.kvs) == vshow(kv) {
			return it
		}
	}
	return nil
}

func (v *vassoc) byID(id string) *vitem {
	for _, it := range v.items {
		if it.id == id {
			return it
		}
	}
	return nil
}

func (v *vassoc) drop(it *vitem) {
	for i, o := range v.items {
		if o == it {
			v.items = append(v.items[:i:i], v.items[i+1:]...)
			return
		}
	}
}

// the stored sub-indexes say exactly what the items say, and nothing is locked or marked as being created
func (v *vassoc) audit() string {
	want := map[string]string{} // key, value and number of keys -> sorted ids
	add := func(m map[string][]string, k, id string) { m[k] = append(m[k], id) }
	exp, got := map[string][]string{}, map[string][]string{}
	for _, it := range v.items {
		for k, val := range it.kvs {
			add(exp, fmt.Sprintf("%s %d:%v %d", k, val.Type, val.Data, len(it.kvs)), it.id)
		}
	}
	for k, ids := range exp {
		sort.Strings(ids)
		want[k] = strings.Join(ids, ",")
	}
	all := v1common.TypeRestrictions{MinDataType: datatypes.MinDataType, MaxDataType: datatypes.MaxDataType}
	bad := ""
	ids := map[string]bool{}
	_ = v.tree.associatedIDs.Find(datatypes.Any(), all, func(k datatypes.EncapsulatedValue, item any) bool {
		a := item.(*associatedKeyValues)
		it := v.byID(a.associatedID)
		if it == nil || k != datatypes.String(a.associatedID) || vshow(it.kvs) != vshow(a.keyValues) || it.val != a.value {
			bad = fmt.Sprintf("the item stored under identifier %v is not one that was created", k.Data)
		}
		ids[a.associatedID] = true
		return true
	})
	if bad == "" && len(ids) != len(v.items) {
		bad = fmt.Sprintf("%d items are stored, %d were created and not deleted", len(ids), len(v.items))
	}
	_ = v.tree.keys.Find(datatypes.Any(), all, func(k datatypes.EncapsulatedValue, item any) bool {
		vn := item.(*threadsafeValuesNode)
		values := 0
		_ = vn.values.Find(datatypes.Any(), all, func(val datatypes.EncapsulatedValue, item any) bool {
			values++
			n := item.(*threadsafeIDNode)
			if !n.lock.TryLock() {
				bad = fmt.Sprintf("the identifiers of %v=%v are still locked", k.Data, val.Data)
				return false
			}
			n.lock.Unlock()
			if c := n.creating.Load(); c != 0 {
				bad = fmt.Sprintf("%v=%v is still marked as being created (%d)", k.Data, val.Data, c)
			}
			if len(n.ids) == 0 {
				bad = fmt.Sprintf("%v=%v is kept without any identifier", k.Data, val.Data)
			}
			for i, l := range n.ids {
				for _, id := range l {
					add(got, fmt.Sprintf("%v %d:%v %d", k.Data, val.Type, val.Data, i+1), id)
				}
			}
			return true
		})
		if values == 0 && bad == "" {
			bad = fmt.Sprintf("key %v is kept without any value", k.Data)
		}
		return true
	})
	if bad != "" {
		return bad
	}
	if len(got) != len(want) {
		return fmt.Sprintf("the index lists %d combinations of key, value and size, the items have %d", len(got), len(want))
	}
	for k, ids := range got {
		sort.Strings(ids)
		if strings.Join(ids, ",") != want[k] {
			return fmt.Sprintf("the identifiers listed for %s are not those of the items", k)
		}
	}
	return ""
}

func (v *vassoc) selection(sound bool) *queryassociatedaction.Selection {
	s := &queryassociatedaction.Selection{}
	if len(v.items) > 0 && v.r.Intn(5) == 0 {
		for i := 1 + v.r.Intn(2); i > 0; i-- {
			s.IDs = append(s.IDs, v.items[v.r.Intn(len(v.items))].id)
		}
		if v.r.Intn(3) == 0 {
			s.IDs = append(s.IDs, "unknown")
		}
	}
	if len(s.IDs) == 0 || v.r.Intn(3) == 0 {
		s.KeyValues = queryassociatedaction.SelectionKeyValues{}
		cmps := []v1common.DataComparison{v1common.Equals, v1common.NotEquals, v1common.LessThan, v1common.LessThanOrEqual, v1common.GreaterThan, v1common.GreaterThanOrEqual}
		for i := 1 + v.r.Intn(3); i > 0; i-- {
			q := queryassociatedaction.ValueQuery{Comparison: cmps[v.r.Intn(len(cmps))]}
			q.Value = v.value(q.Comparison == v1common.Equals || q.Comparison == v1common.NotEquals)
			q.TypeRestrictions = v1common.TypeRestrictions{MinDataType: q.Value.Type, MaxDataType: q.Value.Type}
			switch v.r.Intn(4) {
			case 0:
				q.TypeRestrictions.MaxDataType = datatypes.MaxDataType
			case 1:
				q.TypeRestrictions = v1common.TypeRestrictions{MinDataType: datatypes.MinDataType, MaxDataType: datatypes.MaxDataType}
			case 2:
				q.TypeRestrictions.MinDataType = datatypes.MinDataType
			}
			s.KeyValues[vkeys[v.r.Intn(len(vkeys))]] = q
		}
	}
	if v.r.Intn(4) == 0 {
		n := v.r.Intn(4)
		s.MinNumberOfKeyValues = &n
	}
	if v.r.Intn(4) == 0 {
		n := 3 + v.r.Intn(2)
		if s.MinNumberOfKeyValues == nil {
			n = v.r.Intn(4)
		}
		s.MaxNumberOfKeyValues = &n
	}
	return s
}

func (v *vassoc) query(depth int) *queryassociatedaction.AssociatedActionQuery {
	q := &queryassociatedaction.AssociatedActionQuery{}
	if v.r.Intn(5) != 0 {
		q.Selection = v.selection(true)
	}
	if depth > 0 {
		for i := v.r.Intn(4) - 1; i > 0; i-- {
			q.And = append(q.And, v.query(depth-1))
		}
		for i := v.r.Intn(4) - 1; i > 0; i-- {
			q.Or = append(q.Or, v.query(depth-1))
		}
	}
	return q
}

// the oracle: identifiers and key values together
func vmatches(q *queryassociatedaction.AssociatedActionQuery, it *vitem) bool {
	matched := q.Selection != nil || len(q.And) != 0 || len(q.Or) == 0
	if q.Selection != nil {
		if len(q.Selection.IDs) != 0 {
			matched = q.Selection.MatchKeyValues(it.kvs)
		} else {
			// among stored items, "not equal" on several keys leaves out the items that have all of the values
			pos, neg, not := *q.Selection, *q.Selection, 0
			pos.KeyValues, neg.KeyValues = queryassociatedaction.SelectionKeyValues{}, queryassociatedaction.SelectionKeyValues{}
			for k, x := range q.Selection.KeyValues {
				if x.Comparison == v1common.NotEquals {
					x.Comparison = v1common.Equals
					neg.KeyValues[k] = x
					not++
				} else {
					pos.KeyValues[k] = x
				}
			}
			matched = pos.MatchKeyValues(it.kvs) && !(not > 0 && neg.MatchKeyValues(it.kvs))
		}
		if matched && len(q.Selection.IDs) != 0 {
			matched = false
			for _, id := range q.Selection.IDs {
				matched = matched || id == it.id
			}
		}
	}
	for _, a := range q.And {
		matched = matched && vmatches(a, it)
	}
	for _, o := range q.Or {
		matched = matched || vmatches(o, it)
	}
	return matched
}

func vselection(s *queryassociatedaction.Selection) string {
	if s == nil {
		return "-"
	}
	r := fmt.Sprintf("%d ids", len(s.IDs))
	for _, k := range s.SortedKeys() {
		q := s.KeyValues[k]
		r += fmt.Sprintf(" %s %s %d:%v types %d..%d", k, q.Comparison, q.Value.Type, q.Value.Data, q.TypeRestrictions.MinDataType, q.TypeRestrictions.MaxDataType)
	}
	if s.MinNumberOfKeyValues != nil {
		r += fmt.Sprintf(" at least %d keys", *s.MinNumberOfKeyValues)
	}
	if s.MaxNumberOfKeyValues != nil {
		r += fmt.Sprintf(" at most %d keys", *s.MaxNumberOfKeyValues)
	}
	return r
}

func vquery(q *queryassociatedaction.AssociatedActionQuery) string {
	r := "(" + vselection(q.Selection)
	for _, a := range q.And {
		r += " and " + vquery(a)
	}
	for _, a := range q.Or {
		r += " or " + vquery(a)
	}
	return r + ")"
}

func (v *vassoc) names(ids []string) string {
	var s []string
	for _, id := range ids {
		if it := v.byID(id); it != nil {
			s = append(s, vshow(it.kvs))
		} else {
			s = append(s, "<not stored>")
		}
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// visits of a lookup against the items expected, with an early stop
func (v *vassoc) visits(expected []string, stop int, run func(visit BTreeAssociatedIterate) error) string {
	var seen []string
	bad := ""
	once := map[string]bool{}
	err := run(func(a AssociatedKeyValues) bool {
		it := v.byID(a.AssociatedID())
		if it == nil || it.val != a.Value() || vshow(it.kvs) != vshow(a.KeyValues()) {
			bad = "visited something that is not stored"
		}
		if once[a.AssociatedID()] {
			bad = "visited an item twice"
		}
		once[a.AssociatedID()] = true
		seen = append(seen, a.AssociatedID())
		if len(seen) > stop && stop > 0 {
			bad = "visited another item after it was asked to stop"
		}
		return len(seen) != stop
	})
	if err != nil {
		return "answered " + err.Error()
	}
	if bad != "" {
		return bad
	}
	want := len(expected)
	if stop > 0 && stop < want {
		want = stop
	}
	exp := map[string]bool{}
	for _, id := range expected {
		exp[id] = true
	}
	for _, id := range seen {
		if !exp[id] {
			return fmt.Sprintf("visited %s, which does not match", v.names([]string{id}))
		}
	}
	if len(seen) != want {
		return fmt.Sprintf("visited [%s], the items that match are [%s]", v.names(seen), v.names(expected))
	}
	return ""
}

func (v *vassoc) call(f func()) string {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Sprintf("panicked: %v", r)
			}
		}()
		f()
		done <- ""
	}()
	select {
	case s := <-done:
		return s
	case <-time.After(8 * time.Second):
		return "does not return"
	}
}

var vnext = 0

func (v *vassoc) step() (string, string) {
	kv := v.keyValues()
	if len(v.items) > 0 && v.r.Intn(2) == 0 && !(v.grow && v.r.Intn(2) == 0) {
		kv = v.items[v.r.Intn(len(v.items))].kvs
	}
	passed := datatypes.KeyValues{}
	for k, x := range kv {
		passed[k] = x
	}
	old := v.find(kv)
	vnext++
	val := any(vnext)
	giveUp := v.r.Intn(6) == 0
	refuse := v.r.Intn(5) == 0
	created, found, removing := 0, 0, 0
	bad := ""
	onCreate := func() any {
		created++
		if giveUp {
			return nil
		}
		return val
	}
	onFind := func(a AssociatedKeyValues) {
		found++
		if old == nil || a.Value() != old.val || a.AssociatedID() != old.id {
			bad = "found something that is not stored under these key values"
		}
	}
	target := old
	canDelete := BTreeAssociatedRemove(func(a AssociatedKeyValues) bool {
		removing++
		if target == nil || a.Value() != target.val || a.AssociatedID() != target.id {
			bad = "asked to delete something else"
		}
		return !refuse
	})
	if v.r.Intn(4) == 0 {
		canDelete, refuse = nil, false
	}
	var id string
	var err error
	n := v.r.Intn(20)
	if v.grow && n >= 7 && n < 13 && v.r.Intn(3) != 0 {
		n = 5
	}
	switch {
	case n < 3:
		name := "Create(" + vshow(kv) + ")"
		if giveUp {
			name += " given up"
		}
		if p := v.call(func() { id, err = v.tree.Create(passed, onCreate) }); p != "" {
			return name, p
		}
		switch {
		case old != nil:
			if err != ErrorKeyValuesAlreadyExists || created != 0 || id != "" {
				return name, fmt.Sprintf("answered %v with id %q and asked to create %d times although the key values exist", err, id, created)
			}
		case created != 1 || err != nil || (id == "") != giveUp:
			return name, fmt.Sprintf("answered %v with id %q, asked to create %d times", err, id, created)
		case !giveUp:
			v.items = append(v.items, &vitem{id: id, kvs: kv, val: val})
		}
		for k := range passed { // the caller's map is its own
			delete(passed, k)
		}
		return name, bad
	case n < 7:
		name := "CreateOrFind(" + vshow(kv) + ")"
		if giveUp {
			name += " given up"
		}
		if p := v.call(func() { id, err = v.tree.CreateOrFind(passed, onCreate, onFind) }); p != "" {
			return name, p
		}
		switch {
		case old != nil:
			if err != nil || created != 0 || found != 1 || id != old.id {
				return name, fmt.Sprintf("answered %v with id %q, found %d, created %d, although the key values exist", err, id, found, created)
			}
		case created != 1 || found != 0 || err != nil || (id == "" && !giveUp):
			return name, fmt.Sprintf("answered %v with id %q, found %d, created %d, although the key values do not exist", err, id, found, created)
		case !giveUp:
			v.items = append(v.items, &vitem{id: id, kvs: kv, val: val})
		}
		for k := range passed {
			delete(passed, k)
		}
		return name, bad
	case n < 10:
		name := "Delete(" + vshow(kv) + ")"
		if p := v.call(func() { err = v.tree.Delete(passed, canDelete) }); p != "" {
			return name, p
		}
		if err != nil || removing > 0 && old == nil || canDelete != nil && old != nil && removing != 1 {
			return name, fmt.Sprintf("answered %v, asked %d times", err, removing)
		}
		if old != nil && !refuse {
			v.drop(old)
		}
		return name, bad
	case n < 13:
		if len(v.items) == 0 {
			return "", ""
		}
		target = v.items[v.r.Intn(len(v.items))]
		name := "DeleteByAssociatedID(" + vshow(target.kvs) + ")"
		del := v.tree.DeleteByAssociatedID
		if n == 12 {
			name = "DestroyByAssociatedID(" + vshow(target.kvs) + ")"
			del = v.tree.DestroyByAssociatedID
		}
		if p := v.call(func() { err = del(target.id, canDelete) }); p != "" {
			return name, p
		}
		if err != nil || canDelete != nil && removing != 1 {
			return name, fmt.Sprintf("answered %v, asked %d times", err, removing)
		}
		if !refuse {
			v.drop(target)
		}
		return name, bad
	case n < 17:
		q := v.query(2)
		name := "QueryAction(" + vquery(q) + ")"
		var exp []string
		for _, it := range v.items {
			if vmatches(q, it) {
				exp = append(exp, it.id)
			}
		}
		stop := 0
		if v.r.Intn(3) == 0 {
			stop = 1 + v.r.Intn(3)
		}
		res := ""
		if p := v.call(func() {
			res = v.visits(exp, stop, func(visit BTreeAssociatedIterate) error { return v.tree.QueryAction(q, visit) })
		}); p != "" {
			return name, p
		}
		return name, res
	default:
		m := &querymatchaction.MatchActionQuery{KeyValues: querymatchaction.MatchKeyValues{}}
		name := "MatchAction("
		for k, x := range kv {
			if v.r.Intn(3) != 0 || len(m.KeyValues) == 0 {
				mx := x.Type
				if v.r.Intn(2) == 0 {
					mx = datatypes.MaxDataType
				}
				mn := x.Type
				if v.r.Intn(4) == 0 {
					mn = datatypes.MinDataType
				}
				m.KeyValues[k] = querymatchaction.MatchValue{Value: x, TypeRestrictions: v1common.TypeRestrictions{MinDataType: mn, MaxDataType: mx}}
				name += fmt.Sprintf("%s=%d:%v types %d..%d ", k, x.Type, x.Data, mn, mx)
			}
		}
		if v.r.Intn(3) == 0 {
			n := v.r.Intn(3)
			m.MinNumberOfPermutationKeyValues = &n
			name += fmt.Sprintf("min %d ", n)
		}
		if v.r.Intn(3) == 0 {
			n := 2 + v.r.Intn(2)
			m.MaxNumberOfPermutationKeyValues = &n
			name += fmt.Sprintf("max %d ", n)
		}
		name += ")"
		var exp []string
		for _, it := range v.items {
			ok := m.MinNumberOfPermutationKeyValues == nil || len(it.kvs) >= *m.MinNumberOfPermutationKeyValues
			ok = ok && (m.MaxNumberOfPermutationKeyValues == nil || len(it.kvs) <= *m.MaxNumberOfPermutationKeyValues)
			for k, x := range it.kvs {
				q, has := m.KeyValues[k]
				ok = ok && has && q.TypeRestrictions.MinDataType <= x.Type && x.Type <= q.TypeRestrictions.MaxDataType && (q.Value == x || q.Value.Type == datatypes.T_any || x.Type == datatypes.T_any)
			}
			if ok {
				exp = append(exp, it.id)
			}
		}
		stop := 0
		if v.r.Intn(3) == 0 {
			stop = 1 + v.r.Intn(3)
		}
		res := ""
		if p := v.call(func() {
			res = v.visits(exp, stop, func(visit BTreeAssociatedIterate) error { return v.tree.MatchAction(m, visit) })
		}); p != "" {
			return name, p
		}
		return name, res
	}
}

func verifAssoc(t *testing.T, prop string) {
	rounds := 250
	if os.Getenv("VERIF_TIER") == "thorough" {
		rounds = 2500
	}
	cases, fails := 0, 0
	r := rand.New(rand.NewSource(11))
	for round := 0; round < rounds; round++ {
		v := &vassoc{t: t, r: r, tree: NewThreadSafe(), few: round%3 == 2}
		steps := 60
		if v.few {
			steps = 160
		}
		for step := 0; step < steps; step++ {
			v.grow = v.few && step < 90
			name, bad := v.step()
			if name == "" {
				continue
			}
			cases++
			v.hist = append(v.hist, name)
			if bad == "" || bad == "does not return" {
				if bad == "" {
					if p := v.call(func() { bad = v.audit() }); p != "" {
						bad = "afterwards a lookup of everything " + p
					}
				}
			}
			if bad != "" {
				var items []string
				for _, it := range v.items {
					items = append(items, vshow(it.kvs))
				}
				h := v.hist
				if len(h) > 6 {
					h = h[len(h)-6:]
				}
				fmt.Printf("VERIF-FAIL %s %s: %s; items now %v; last calls %v\n", prop, name, bad, items, h)
				if fails++; fails >= 5 {
					t.Fatal(bad)
				}
				break
			}
		}
	}
	fmt.Printf("VERIF-CASES associated-histories %d\n", cases)
	if fails > 0 {
		t.Fail()
	}
}

// while an item is being destroyed other requests for it are refused, and the destruction goes on
func verifDestroying(t *testing.T, prop string) {
	r := rand.New(rand.NewSource(5))
	cases, fails := 0, 0
	for round := 0; round < 60 && fails < 3; round++ {
		v := &vassoc{t: t, r: r, tree: NewThreadSafe()}
		for i := 0; i < 5; i++ {
			kv := v.keyValues()
			if v.find(kv) != nil {
				continue
			}
			val := any(i)
			id, err := v.tree.Create(kv, func() any { return val })
			if err != nil {
				t.Fatal(err)
			}
			v.items = append(v.items, &vitem{id: id, kvs: kv, val: val})
		}
		target := v.items[r.Intn(len(v.items))]
		refuse := round%3 == 0
		what, bad := "", ""
		p := v.call(func() {
			err := v.tree.DestroyByAssociatedID(target.id, func(AssociatedKeyValues) bool {
				note := func(name, p string, err error) {
					cases++
					if bad == "" && (p != "" || err == nil) {
						what, bad = name, fmt.Sprintf("%s (%v)", p, err)
					}
				}
				var err error
				p := v.call(func() { err = v.tree.Delete(target.kvs, nil) })
				note("Delete", p, err)
				p = v.call(func() { err = v.tree.DestroyByAssociatedID(target.id, nil) })
				note("DestroyByAssociatedID", p, err)
				return !refuse
			})
			if err != nil {
				what, bad = "DestroyByAssociatedID", err.Error()
			}
		})
		if p != "" {
			what, bad = "DestroyByAssociatedID", p
		}
		if !refuse {
			v.drop(target)
		}
		if bad == "" {
			if p := v.call(func() { bad = v.audit() }); p != "" {
				what, bad = "a lookup of everything", p
			}
		}
		if bad != "" {
			fails++
			fmt.Printf("VERIF-FAIL %s while %s is being destroyed (refused: %v): %s %s\n", prop, vshow(target.kvs), refuse, what, bad)
		}
	}
	fmt.Printf("VERIF-CASES associated-destroying %d\n", cases)
	if fails > 0 {
		t.Fail()
	}
}

// requests for the same key values race: each is answered exactly once, with the item that is stored, and at no time
// are two items stored under the same key values
func verifRaces(t *testing.T, prop string) {
	rounds := 150
	if os.Getenv("VERIF_TIER") == "thorough" {
		rounds = 1500
	}
	cases, fails := int64(0), int64(0)
	fail := func(format string, args ...any) {
		if atomic.AddInt64(&fails, 1) <= 5 {
			fmt.Printf("VERIF-FAIL %s requests for the same key values at the same time: %s\n", prop, fmt.Sprintf(format, args...))
		}
	}
	type stored struct {
		n int
	}
	for round := 0; round < rounds && atomic.LoadInt64(&fails) == 0; round++ {
		tree := NewThreadSafe()
		kvs := []datatypes.KeyValues{
			{"a": datatypes.Int(1)},
			{"a": datatypes.Int(1), "b": datatypes.Int(1)},
			{"a": datatypes.Int(1), "b": datatypes.Int(2)},
			{"a": datatypes.Int(1), "b": datatypes.Int(1), "c": datatypes.Int(1)},
			{"b": datatypes.Int(1), "c": datatypes.Int(1)},
			{"b": datatypes.Int(2)},
		}
		live := make([]atomic.Pointer[stored], len(kvs))
		refused := make([]atomic.Bool, len(kvs))
		creations := round%3 == 0 // nothing is removed, and most creations are given up
		ids := make([]atomic.Pointer[string], len(kvs))
		run := func(r *rand.Rand, step int) {
			atomic.AddInt64(&cases, 1)
			i := r.Intn(len(kvs))
			if step < 3 {
				i = round % len(kvs)
			}
			kv := datatypes.KeyValues{}
			for k, x := range kvs[i] {
				kv[k] = x
			}
			giveUp, mine := r.Intn(3) == 0 || creations && r.Intn(10) != 0, &stored{n: step}
			created, found := 0, 0
			var got *stored
			gotID := ""
			onCreate := func() any {
				created++
				if r.Intn(2) == 0 {
					time.Sleep(time.Duration(r.Intn(40)) * time.Microsecond)
				}
				if giveUp {
					return nil
				}
				if !live[i].CompareAndSwap(nil, mine) {
					fail("asked to create %s although it is stored", vshow(kvs[i]))
				}
				return mine
			}
			onFind := func(a AssociatedKeyValues) {
				found++
				got, gotID = a.Value().(*stored), a.AssociatedID()
				if vshow(a.KeyValues()) != vshow(kvs[i]) {
					fail("a request for %s found %s", vshow(kvs[i]), vshow(a.KeyValues()))
				}
			}
			removed := 0
			canDelete := func(a AssociatedKeyValues) bool {
				if vshow(a.KeyValues()) != vshow(kvs[i]) {
					fail("a request to remove %s was asked about %s", vshow(kvs[i]), vshow(a.KeyValues()))
					return false
				}
				removed++
				ids[i].Store(nil)
				if !live[i].CompareAndSwap(a.Value().(*stored), nil) {
					fail("%s is removed although it is not what is stored", vshow(kvs[i]))
				}
				return true
			}
			n := r.Intn(8)
			if creations {
				n = r.Intn(6)
			}
			switch {
			case n < 5 || step == 0:
				id, err := tree.CreateOrFind(kv, onCreate, onFind)
				switch {
				case err == ErrorTreeItemDestroying && !creations:
				case err != nil:
					fail("CreateOrFind(%s) answered %v", vshow(kvs[i]), err)
				case created+found != 1:
					fail("CreateOrFind(%s) was created %d times and found %d times", vshow(kvs[i]), created, found)
				case found == 1 && (gotID != id || got == nil):
					fail("CreateOrFind(%s) answered identifier %q but found %q", vshow(kvs[i]), id, gotID)
				case created == 1 && !giveUp && id == "":
					fail("CreateOrFind(%s) created an item without an identifier", vshow(kvs[i]))
				}
				if err == nil && id != "" && !giveUp {
					ids[i].Store(&id)
				}
			case n == 5:
				id, err := tree.Create(kv, onCreate)
				if err == ErrorKeyValuesAlreadyExists {
					refused[i].Store(true)
				}
				if !(err == ErrorKeyValuesAlreadyExists && created == 0 && id == "") && !(err == nil && created == 1 && (id == "") == giveUp) {
					fail("Create(%s) answered %q, %v and was created %d times", vshow(kvs[i]), id, err, created)
				}
			case n == 6:
				if err := tree.Delete(kv, canDelete); err != nil && err != ErrorTreeItemDestroying {
					fail("Delete(%s) answered %v", vshow(kvs[i]), err)
				}
			default:
				if id := ids[i].Load(); id != nil {
					if err := tree.DestroyByAssociatedID(*id, canDelete); err != nil && err != ErrorTreeItemDestroying {
						fail("DestroyByAssociatedID(%s) answered %v", vshow(kvs[i]), err)
					}
				}
			}
			if removed > 1 {
				fail("removing %s asked %d times", vshow(kvs[i]), removed)
			}
		}
		v := &vassoc{t: t, r: rand.New(rand.NewSource(int64(round))), tree: tree}
		if p := v.call(func() {
			for step := 0; step < 8; step++ {
				var wg sync.WaitGroup
				start := make(chan struct{})
				for g := 0; g < 6; g++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer func() {
							if r := recover(); r != nil {
								fail("panicked: %v", r)
							}
						}()
						r := rand.New(rand.NewSource(int64(round*1000 + step*10 + g)))
						<-start
						run(r, step)
					}()
				}
				close(start)
				wg.Wait()
			}
		}); p != "" {
			fail("%s", p)
			break
		}
		for i := range kvs {
			if creations && refused[i].Load() && live[i].Load() == nil {
				fail("Create(%s) answered that the key values exist, and they do not", vshow(kvs[i]))
			}
			if x := live[i].Load(); x != nil {
				n := 0
				if err := tree.QueryAction(queryassociatedaction.KeyValuesToExactAssociatedActionQuery(kvs[i]), func(a AssociatedKeyValues) bool {
					n++
					if a.Value() != x {
						fail("%s holds something else afterwards", vshow(kvs[i]))
					}
					v.items = append(v.items, &vitem{id: a.AssociatedID(), kvs: kvs[i], val: x})
					return true
				}); n != 1 || err != nil {
					fail("%s is found %d times afterwards", vshow(kvs[i]), n)
				}
			}
		}
		if atomic.LoadInt64(&fails) == 0 {
			if bad := v.audit(); bad != "" {
				fail("afterwards %s", bad)
			}
		}
	}
	fmt.Printf("VERIF-CASES associated-races %d\n", atomic.LoadInt64(&cases))
	if fails > 0 {
		t.Fail()
	}
}

func TestVerifP09Races(t *testing.T)                { verifRaces(t, "P09") }
func TestVerifP10AssociatedDestroying(t *testing.T) { verifDestroying(t, "P10") }
func TestVerifP10AssociatedHistories(t *testing.T)  { verifAssoc(t, "P10") }
func TestVerifP09Histories(t *testing.T)            { verifAssoc(t, "P09") }
