package btree

// Runs random histories of the ordered index against a plain sorted map, over node sizes 2 to 6 and keys of several
// types, and checks after every call the visited entries, the shape of the tree and that every lock is free.

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	v1common "github.com/DanLavine/willow/pkg/models/api/common/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

type vpair struct {
	key datatypes.EncapsulatedValue
	val any
}

type vmodel map[datatypes.EncapsulatedValue]any

var verifUniverse = func() []datatypes.EncapsulatedValue {
	keys := []datatypes.EncapsulatedValue{datatypes.Any()}
	for i := 0; i < 12; i++ {
		keys = append(keys, datatypes.Int(i), datatypes.String(fmt.Sprintf("k%02d", i)), datatypes.Uint8(uint8(i)))
	}
	return append(keys, datatypes.Float64(1.5), datatypes.Float64(2.5), datatypes.Int8(-3), datatypes.Int8(4))
}()

func verifLess(a, b datatypes.EncapsulatedValue) bool {
	if a.Type != b.Type {
		return a.Type < b.Type
	}
	switch x := a.Data.(type) {
	case int:
		return x < b.Data.(int)
	case int8:
		return x < b.Data.(int8)
	case uint8:
		return x < b.Data.(uint8)
	case float64:
		return x < b.Data.(float64)
	case string:
		return x < b.Data.(string)
	}
	return false
}

func (m vmodel) sorted() []vpair {
	var all []vpair
	for k, v := range m {
		all = append(all, vpair{k, v})
	}
	sort.Slice(all, func(i, j int) bool { return verifLess(all[i].key, all[j].key) })
	return all
}

// every lock of the tree is free, and the tree is a well-formed B tree holding exactly the model
func verifTree(tree *threadSafeBTree, m vmodel) string {
	if !tree.lock.TryLock() {
		return "the lock of the tree is still held"
	}
	tree.lock.Unlock()
	if !tree.destroyingKeysLock.TryLock() {
		return "the lock of the destroying keys is still held"
	}
	tree.destroyingKeysLock.Unlock()
	if len(tree.destroyingKeys) != 0 {
		return "a destroying key is left behind"
	}
	idle := make(chan struct{})
	go func() { tree.readWriteWG.Wait(); close(idle) }()
	select {
	case <-idle:
	case <-time.After(5 * time.Second):
		return "the count of running operations is not zero"
	}
	var found []vpair
	depth := -1
	var walk func(n *threadSafeBNode, level int, root bool) string
	walk = func(n *threadSafeBNode, level int, root bool) string {
		if n == nil {
			return "a missing child"
		}
		if !n.lock.TryLock() {
			return fmt.Sprintf("the lock of a node at level %d is still held", level)
		}
		n.lock.Unlock()
		if n.numberOfValues > n.maxValues() {
			return "a node has too many values"
		}
		if !root && n.numberOfValues < n.minValues() {
			return "a node has too few values"
		}
		if n.numberOfChildren != 0 && n.numberOfChildren != n.numberOfValues+1 {
			return "a node has the wrong number of children"
		}
		if n.numberOfChildren == 0 {
			if depth == -1 {
				depth = level
			} else if depth != level {
				return "leaves at different depths"
			}
		}
		for i := 0; i < n.numberOfValues; i++ {
			if n.numberOfChildren != 0 {
				if bad := walk(n.children[i], level+1, false); bad != "" {
					return bad
				}
			}
			if n.keyValues[i] == nil {
				return "a missing value"
			}
			found = append(found, vpair{n.keyValues[i].key, n.keyValues[i].value})
		}
		for i := n.numberOfValues; i < len(n.keyValues); i++ {
			if n.keyValues[i] != nil {
				return "a value past the end of its node"
			}
		}
		for i := n.numberOfChildren; i < len(n.children); i++ {
			if n.children[i] != nil {
				return "a child past the end of its node"
			}
		}
		if n.numberOfChildren != 0 {
			return walk(n.children[n.numberOfValues], level+1, false)
		}
		return ""
	}
	if tree.root != nil {
		if bad := walk(tree.root, 0, true); bad != "" {
			return bad
		}
	}
	if (len(m) == 0) != tree.Empty() {
		return fmt.Sprintf("Empty() is %v with %d entries", tree.Empty(), len(m))
	}
	want := m.sorted()
	if len(want) != len(found) {
		return fmt.Sprintf("the tree holds %d entries instead of %d", len(found), len(want))
	}
	for i := range want {
		if want[i] != found[i] {
			return fmt.Sprintf("the entry at position %d is %v instead of %v", i, found[i], want[i])
		}
	}
	return ""
}

func verifKey(key datatypes.EncapsulatedValue) string {
	return fmt.Sprintf("%d:%v", key.Type, key.Data)
}

// op runs with a time limit; a call that never returns is a failure
func verifCall(op func()) string {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Sprintf("panic: %v", r)
			}
		}()
		op()
		done <- ""
	}()
	select {
	case bad := <-done:
		return bad
	case <-time.After(10 * time.Second):
		return "the call never returned"
	}
}

func verifBuild(r *rand.Rand, nodeSize int) (*threadSafeBTree, vmodel, string) {
	tree, err := NewThreadSafe(nodeSize)
	if err != nil {
		return nil, nil, err.Error()
	}
	m := vmodel{}
	for n := r.Intn(45); n > 0; n-- {
		key := verifUniverse[r.Intn(len(verifUniverse))]
		val := r.Int()
		_, had := m[key]
		err := tree.Create(key, func() any { return val })
		if had != (err != nil) {
			return tree, m, fmt.Sprintf("Create(%s) answered %v", verifKey(key), err)
		}
		if !had {
			m[key] = val
		}
	}
	return tree, m, ""
}

func verifReads(t *testing.T, prop string) {
	r := rand.New(rand.NewSource(6))
	types := []datatypes.DataType{datatypes.MinDataType, datatypes.T_uint8, datatypes.T_uint16, datatypes.T_int8, datatypes.T_int, datatypes.T_float64, datatypes.T_string, datatypes.T_any}
	cases := 0
	fails := 0
	for round := 0; round < 1500 && fails < 5; round++ {
		nodeSize := 2 + r.Intn(5)
		tree, m, bad := verifBuild(r, nodeSize)
		if bad != "" {
			fmt.Printf("VERIF-FAIL %s building a tree: %s\n", prop, bad)
			t.FailNow()
		}
		for q := 0; q < 12; q++ {
			key := verifUniverse[r.Intn(len(verifUniverse))]
			min, max := types[r.Intn(len(types))], types[r.Intn(len(types))]
			if max < min {
				min, max = max, min
			}
			restrict := v1common.TypeRestrictions{MinDataType: min, MaxDataType: max}
			kind := r.Intn(6)
			stopAt := -1
			if r.Intn(2) == 0 {
				stopAt = r.Intn(6)
			}
			inRange := func(k datatypes.EncapsulatedValue) bool { return min <= k.Type && k.Type <= max }
			match := func(k datatypes.EncapsulatedValue) bool { return true }
			var op func(datatypes.EncapsulatedValue, v1common.TypeRestrictions, BTreeIterate) error
			var name string
			valid := key.Type != datatypes.T_any
			switch kind {
			case 0:
				name, op, valid = "Find", tree.Find, true
				if key.Type != datatypes.T_any {
					match = func(k datatypes.EncapsulatedValue) bool { return k == key || k.Type == datatypes.T_any }
				}
			case 1:
				name, op = "FindNotEqual", tree.FindNotEqual
				match = func(k datatypes.EncapsulatedValue) bool { return k != key }
			case 2:
				name, op = "FindLessThan", tree.FindLessThan
				match = func(k datatypes.EncapsulatedValue) bool { return verifLess(k, key) || k.Type == datatypes.T_any }
			case 3:
				name, op = "FindLessThanOrEqual", tree.FindLessThanOrEqual
				match = func(k datatypes.EncapsulatedValue) bool {
					return verifLess(k, key) || k == key || k.Type == datatypes.T_any
				}
			case 4:
				name, op = "FindGreaterThan", tree.FindGreaterThan
				match = func(k datatypes.EncapsulatedValue) bool { return verifLess(key, k) }
			case 5:
				name, op = "FindGreaterThanOrEqual", tree.FindGreaterThanOrEqual
				match = func(k datatypes.EncapsulatedValue) bool { return verifLess(key, k) || k == key }
			}
			want := map[datatypes.EncapsulatedValue]any{}
			if valid {
				for k, v := range m {
					if inRange(k) && match(k) {
						want[k] = v
					}
				}
			}
			visited := map[datatypes.EncapsulatedValue]any{}
			problem := ""
			count := 0
			stopped := false
			var err error
			bad := verifCall(func() {
				err = op(key, restrict, func(k datatypes.EncapsulatedValue, v any) bool {
					if stopped {
						problem = "the visitor was called after it asked to stop"
					}
					if _, ok := visited[k]; ok {
						problem = "visited twice: " + verifKey(k)
					}
					visited[k] = v
					if w, ok := want[k]; !ok {
						problem = "visited an entry not asked for: " + verifKey(k)
					} else if w != v {
						problem = "visited the wrong value of " + verifKey(k)
					}
					count++
					if count-1 == stopAt {
						stopped = true
						return false
					}
					return true
				})
			})
			cases++
			if bad == "" && problem != "" {
				bad = problem
			}
			if bad == "" && valid != (err == nil) {
				bad = fmt.Sprintf("answered %v", err)
			}
			if bad == "" && !stopped && len(visited) != len(want) {
				for k := range want {
					if _, ok := visited[k]; !ok {
						bad = "did not visit " + verifKey(k)
					}
				}
			}
			if bad == "" {
				bad = verifTree(tree, m)
			}
			if bad != "" {
				fmt.Printf("VERIF-FAIL %s %s(key %s, types %d..%d, stop at visit %d) on a tree of %d entries with node size %d: %s\n", prop, name, verifKey(key), min, max, stopAt, len(m), nodeSize, bad)
				t.Fail()
				fails++
				break
			}
		}
	}
	fmt.Printf("VERIF-CASES btree-reads %d\n", cases)
}

func TestVerifP06Reads(t *testing.T) { verifReads(t, "P06") }
func TestVerifP10Reads(t *testing.T) { verifReads(t, "P10") }

func verifUpdates(t *testing.T, prop string) {
	r := rand.New(rand.NewSource(7))
	cases := 0
	for round := 0; round < 400; round++ {
		nodeSize := 2 + r.Intn(5)
		if round%6 == 5 {
			nodeSize = 7 + r.Intn(4)
		}
		tree, err := NewThreadSafe(nodeSize)
		if err != nil {
			t.Fatal(err)
		}
		m := vmodel{}
		size := 5 + r.Intn(len(verifUniverse)-5)
		if nodeSize > 6 {
			size = len(verifUniverse)
		}
		grow := 5 + r.Intn(4)
		history := ""
		for step := 0; step < 150; step++ {
			if step == 75 {
				grow = 10 - grow
			}
			key := verifUniverse[r.Intn(size)]
			val := any(r.Int())
			old, had := m[key]
			nilValue := r.Intn(8) == 0
			name := ""
			problem := ""
			created, found := 0, 0
			onCreate := func() any {
				created++
				if had {
					problem = "asked to create an entry that exists"
				}
				if nilValue {
					return nil
				}
				return val
			}
			onFind := func(item any) {
				found++
				if !had {
					problem = "found an entry that is not there"
				} else if item != old {
					problem = "found the wrong value"
				}
			}
			refuse := r.Intn(6) == 0
			deleted := 0
			canDelete := BTreeRemove(func(k datatypes.EncapsulatedValue, v any) bool {
				deleted++
				if !had {
					problem = "asked to delete an entry that is not there"
				} else if k != key || v != old {
					problem = fmt.Sprintf("asked to delete %s instead of %s", verifKey(k), verifKey(key))
				}
				return !refuse
			})
			var err error
			var bad string
			switch c := r.Intn(20); {
			case c < grow:
				name = "Create"
				bad = verifCall(func() { err = tree.Create(key, onCreate) })
				if bad == "" && (err != nil) != had {
					bad = fmt.Sprintf("answered %v", err)
				}
				if bad == "" && !had && created != 1 {
					bad = "did not ask for the value once"
				}
				if !had && !nilValue {
					m[key] = val
				}
			case c < 10:
				name = "CreateOrFind"
				bad = verifCall(func() { err = tree.CreateOrFind(key, onCreate, onFind) })
				if bad == "" && err != nil {
					bad = fmt.Sprintf("answered %v", err)
				}
				if bad == "" && (had && (found != 1 || created != 0) || !had && (created != 1 || found != 0)) {
					bad = fmt.Sprintf("created %d times and found %d times", created, found)
				}
				if !had && !nilValue {
					m[key] = val
				}
			case c < 19:
				name = "Delete"
				if r.Intn(4) == 0 {
					canDelete, refuse = nil, false
				}
				if r.Intn(4) == 0 {
					name = "Destroy"
				}
				bad = verifCall(func() {
					if name == "Destroy" {
						err = tree.Destroy(key, canDelete)
					} else {
						err = tree.Delete(key, canDelete)
					}
				})
				if bad == "" && err != nil {
					bad = fmt.Sprintf("answered %v", err)
				}
				if bad == "" && canDelete != nil && had && deleted != 1 {
					bad = "did not ask once whether to delete"
				}
				if had && !refuse {
					delete(m, key)
				}
			default:
				if r.Intn(6) != 0 {
					continue
				}
				name = "DestroyAll"
				stop := r.Intn(len(m) + 2)
				bad = verifCall(func() {
					err = tree.DestroyAll(func(k datatypes.EncapsulatedValue, v any) bool {
						if w, ok := m[k]; !ok || w != v {
							problem = "asked to delete an entry that is not there: " + verifKey(k)
						}
						if stop == 0 {
							return false
						}
						stop--
						delete(m, k)
						return true
					})
				})
				if bad == "" && err != nil {
					bad = fmt.Sprintf("answered %v", err)
				}
				if bad == "" && stop > 0 && len(m) != 0 {
					bad = "not every entry was deleted"
				}
			}
			cases++
			history += fmt.Sprintf(" %s(%s)", name, verifKey(key))
			if nilValue && created > 0 {
				history += "=given-up"
			}
			if refuse && deleted > 0 {
				history += "=refused"
			}
			if bad == "" && problem != "" {
				bad = problem
			}
			if bad == "" {
				bad = verifTree(tree, m)
			}
			if bad != "" {
				if len(history) > 1500 {
					history = "..." + history[len(history)-1500:]
				}
				fmt.Printf("VERIF-FAIL %s with node size %d, after%s: %s\n", prop, nodeSize, history, bad)
				t.FailNow()
			}
		}
	}
	fmt.Printf("VERIF-CASES btree-updates %d\n", cases)
}

// requests race: each is answered exactly once, with the entry that is stored, and the tree holds what was created and
// not deleted
func verifTreeRaces(t *testing.T, prop string) {
	rounds := 300
	if os.Getenv("VERIF_TIER") == "thorough" {
		rounds = 600
	}
	type stored struct {
		key datatypes.EncapsulatedValue
	}
	cases, fails := int64(0), int64(0)
	keys := verifUniverse[1:] // without the wildcard
	for round := 0; round < rounds && atomic.LoadInt64(&fails) == 0; round++ {
		nodeSize := 2 + round%4
		fail := func(format string, args ...any) {
			if atomic.AddInt64(&fails, 1) <= 5 {
				fmt.Printf("VERIF-FAIL %s requests at the same time, node size %d: %s\n", prop, nodeSize, fmt.Sprintf(format, args...))
			}
		}
		tree, err := NewThreadSafe(nodeSize)
		if err != nil {
			t.Fatal(err)
		}
		size := 3 + (round*5)%(len(keys)-3)
		live := make([]atomic.Pointer[stored], len(keys))
		run := func(r *rand.Rand, i int) {
			atomic.AddInt64(&cases, 1)
			key, mine, giveUp, refuse := keys[i], &stored{keys[i]}, r.Intn(8) == 0, r.Intn(6) == 0
			created, found, removing := 0, 0, 0
			onCreate := func() any {
				created++
				if giveUp {
					return nil
				}
				if !live[i].CompareAndSwap(nil, mine) {
					fail("asked to create %s although it is stored", verifKey(key))
				}
				return mine
			}
			see := func(item any) {
				found++
				if item.(*stored).key != key {
					fail("a request for %s found %s", verifKey(key), verifKey(item.(*stored).key))
				}
			}
			canDelete := func(k datatypes.EncapsulatedValue, item any) bool {
				removing++
				if k != key || item.(*stored).key != key {
					fail("a request to remove %s was asked about %s", verifKey(key), verifKey(k))
					return false
				}
				if refuse {
					return false
				}
				if !live[i].CompareAndSwap(item.(*stored), nil) {
					fail("%s is removed although it is not what is stored", verifKey(key))
				}
				return true
			}
			exact := v1common.TypeRestrictions{MinDataType: key.Type, MaxDataType: key.Type}
			switch n := r.Intn(10); {
			case n < 4:
				if err := tree.CreateOrFind(key, onCreate, see); err != ErrorKeyDestroying && (err != nil || created+found != 1) {
					fail("CreateOrFind(%s) answered %v, created %d times and found %d times", verifKey(key), err, created, found)
				}
			case n < 5:
				if err := tree.Create(key, onCreate); err != ErrorKeyDestroying && !(err == ErrorKeyAlreadyExists && created == 0) && !(err == nil && created == 1) {
					fail("Create(%s) answered %v and was created %d times", verifKey(key), err, created)
				}
			case n < 7:
				if err := tree.Delete(key, canDelete); err != ErrorKeyDestroying && (err != nil || removing > 1) {
					fail("Delete(%s) answered %v and asked %d times", verifKey(key), err, removing)
				}
			case n < 8:
				if err := tree.Destroy(key, canDelete); err != ErrorKeyDestroying && (err != nil || removing > 1) {
					fail("Destroy(%s) answered %v and asked %d times", verifKey(key), err, removing)
				}
			case n < 9:
				if err := tree.Find(key, exact, func(_ datatypes.EncapsulatedValue, item any) bool { see(item); return true }); err != ErrorKeyDestroying && (err != nil || found > 1) {
					fail("Find(%s) answered %v and found %d", verifKey(key), err, found)
				}
			default:
				seen := map[datatypes.EncapsulatedValue]bool{}
				all := v1common.TypeRestrictions{MinDataType: datatypes.MinDataType, MaxDataType: datatypes.MaxDataType}
				if err := tree.FindNotEqual(key, all, func(k datatypes.EncapsulatedValue, item any) bool {
					if item.(*stored).key != k || k == key {
						fail("a lookup of everything but %s found %s holding %s", verifKey(key), verifKey(k), verifKey(item.(*stored).key))
					}
					if seen[k] {
						fail("a lookup of everything but %s visited %s twice", verifKey(key), verifKey(k))
					}
					seen[k] = true
					return true
				}); err != nil && err != ErrorKeyDestroying {
					fail("FindNotEqual(%s) answered %v", verifKey(key), err)
				}
			}
		}
		if bad := verifCall(func() {
			for step := 0; step < 6; step++ {
				var wg sync.WaitGroup
				start := make(chan struct{})
				for g := 0; g < 8; g++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer func() {
							if r := recover(); r != nil {
								fail("panicked: %v", r)
							}
						}()
						r := rand.New(rand.NewSource(int64(round*1000 + step*10 + g)))
						same := rand.New(rand.NewSource(int64(round*1000 + step)))
						<-start
						for n := 0; n < 25; n++ {
							i := same.Intn(size)
							if n%3 == 2 {
								i = r.Intn(size)
							}
							run(r, i)
						}
					}()
				}
				close(start)
				wg.Wait()
			}
		}); bad != "" {
			fail("%s", bad)
			break
		}
		m := vmodel{}
		for i := range keys {
			if x := live[i].Load(); x != nil {
				m[keys[i]] = x
			}
		}
		if atomic.LoadInt64(&fails) == 0 {
			if bad := verifTree(tree, m); bad != "" {
				fail("afterwards %s", bad)
			}
		}
	}
	fmt.Printf("VERIF-CASES tree-races %d\n", atomic.LoadInt64(&cases))
	if fails > 0 {
		t.Fail()
	}
}

func TestVerifP07Races(t *testing.T)   { verifTreeRaces(t, "P07") }
func TestVerifP07Updates(t *testing.T) { verifUpdates(t, "P07") }
func TestVerifP10Updates(t *testing.T) { verifUpdates(t, "P10") }
