# The ordered index: a B tree of typed keys.
package internal/datastructures/btree
import datatypes pkg/models/datatypes
import v1common pkg/models/api/common/v1

# ----- what the tree holds -----
# The entries of the tree in order: ot_seq[0..ot_len) are the keys, ot_pos is the position of a key, ot_at its value.
ghost ot_nodes set[*threadSafeBNode]
ghost ot_len int
ghost ot_seq smap[int]datatypes.EncapsulatedValue
ghost ot_pos smap[datatypes.EncapsulatedValue]int
ghost ot_at smap[datatypes.EncapsulatedValue]any
# every node covers the positions lo..hi-1
ghost ot_lo smap[*threadSafeBNode]int
ghost ot_hi smap[*threadSafeBNode]int
ghost ot_parent smap[*threadSafeBNode]*threadSafeBNode
ghost ot_index smap[*threadSafeBNode]int
declare ot_owner(l *sync.RWMutex) *threadSafeBNode
# the first key of n at position p or later is number ot_slot(n, p)
declare ot_slot(lo smap[*threadSafeBNode]int, n *threadSafeBNode, p int) int

define ot_kpos(n *threadSafeBNode, i int) int = ot_pos[elems(n.keyValues)[i].key]
define ot_stored(k datatypes.EncapsulatedValue) bool = 0 <= ot_pos[k] && ot_pos[k] < ot_len && ot_seq[ot_pos[k]] == k
define ot_same(a datatypes.EncapsulatedValue, b datatypes.EncapsulatedValue) bool = !evLT(a, b) && !evLT(b, a)

define ot_shape(n *threadSafeBNode) bool =
  n != nil && n.lock != nil && ot_owner(n.lock) == n && 0 <= n.numberOfValues && n.numberOfValues < len(n.keyValues) && len(n.children) == len(n.keyValues) + 1 && off(n.keyValues) == 0 && off(n.children) == 0 &&
  (n.numberOfChildren == 0 || n.numberOfChildren == n.numberOfValues + 1) && 0 <= ot_lo[n] && ot_lo[n] <= ot_hi[n] && ot_hi[n] <= ot_len &&
  (n.numberOfChildren == 0 ==> ot_hi[n] == ot_lo[n] + n.numberOfValues)
define ot_key(n *threadSafeBNode, i int) bool =
  elems(n.keyValues)[i] != nil && ot_lo[n] <= ot_kpos(n, i) && ot_kpos(n, i) < ot_hi[n] && ot_seq[ot_kpos(n, i)] == elems(n.keyValues)[i].key && ot_at[elems(n.keyValues)[i].key] == elems(n.keyValues)[i].value &&
  (n.numberOfChildren == 0 ==> ot_kpos(n, i) == ot_lo[n] + i)
define ot_child(n *threadSafeBNode, i int) bool =
  (elems(n.children)[i] in ot_nodes) && ot_parent[elems(n.children)[i]] == n && ot_index[elems(n.children)[i]] == i &&
  ot_lo[elems(n.children)[i]] == (i == 0 ? ot_lo[n] : ot_kpos(n, i - 1) + 1) && ot_hi[elems(n.children)[i]] == (i == n.numberOfValues ? ot_hi[n] : ot_kpos(n, i))

define treeok() bool =
  (forall n *threadSafeBNode {n in ot_nodes} :: n in ot_nodes ==> ot_shape(n)) &&
  (forall n *threadSafeBNode, i int {elems(n.keyValues)[i]} :: n in ot_nodes && 0 <= i && i < n.numberOfValues ==> ot_key(n, i)) &&
  (forall n *threadSafeBNode, i int, j int {elems(n.keyValues)[i], elems(n.keyValues)[j]} :: n in ot_nodes && 0 <= i && i < j && j < n.numberOfValues ==> ot_kpos(n, i) < ot_kpos(n, j)) &&
  (forall n *threadSafeBNode, i int {elems(n.children)[i]} :: n in ot_nodes && 0 <= i && i < n.numberOfChildren ==> ot_child(n, i)) &&
  (forall n *threadSafeBNode, p int {ot_slot(ot_lo, n, p)} :: n in ot_nodes && ot_lo[n] <= p && p < ot_hi[n] ==>
     0 <= ot_slot(ot_lo, n, p) && ot_slot(ot_lo, n, p) <= n.numberOfValues && (ot_slot(ot_lo, n, p) < n.numberOfValues ==> p <= ot_kpos(n, ot_slot(ot_lo, n, p))) &&
     (ot_slot(ot_lo, n, p) > 0 ==> ot_kpos(n, ot_slot(ot_lo, n, p) - 1) < p)) &&
  (forall p int {ot_seq[p]} :: 0 <= p && p < ot_len ==> ot_pos[ot_seq[p]] == p && wfEV(ot_seq[p]))
define ot_tied() bool = (forall c *threadSafeBNode, p int {ot_slot(ot_lo, ot_parent[c], p)} :: (c in ot_nodes) && ot_parent[c] != nil && ot_lo[c] <= p && p < ot_hi[c] ==> ot_slot(ot_lo, ot_parent[c], p) == ot_index[c] && ot_lo[ot_parent[c]] <= p && p < ot_hi[ot_parent[c]]) &&
  (forall c *threadSafeBNode {c in ot_nodes} :: (c in ot_nodes) && ot_parent[c] != nil ==> (ot_parent[c] in ot_nodes) && 0 <= ot_index[c] && ot_index[c] < ot_parent[c].numberOfChildren && elems(ot_parent[c].children)[ot_index[c]] == c)
define ot_count() bool = forall l *sync.RWMutex {RL(l)} :: RL(l) >= 0
define ot_types() bool = forall p int, q int {ot_seq[p], ot_seq[q]} :: 0 <= p && p < q && q < ot_len ==> ot_seq[p].Type <= ot_seq[q].Type
define ot_sorted() bool = forall p int, q int {ot_seq[p], ot_seq[q]} :: 0 <= p && p < q && q < ot_len ==> evLT(ot_seq[p], ot_seq[q])
# how the entries lie around a key
define ot_around(key datatypes.EncapsulatedValue) bool =
  (forall p int, q int {ot_seq[p], ot_seq[q]} :: 0 <= p && p < q && q < ot_len ==>
     (evLT(ot_seq[q], key) ==> evLT(ot_seq[p], key)) && (evLT(key, ot_seq[p]) ==> evLT(key, ot_seq[q])) && (evLT(ot_seq[p], key) || evLT(key, ot_seq[q])) && ot_seq[p].Type <= ot_seq[q].Type) &&
  (forall p int {ot_seq[p]} :: 0 <= p && p < ot_len ==> (evLT(ot_seq[p], key) ==> ot_seq[p].Type <= key.Type && !evLT(key, ot_seq[p])) && (evLT(key, ot_seq[p]) ==> key.Type <= ot_seq[p].Type) &&
     (ot_seq[p].Type < key.Type ==> evLT(ot_seq[p], key)) && (key.Type < ot_seq[p].Type ==> evLT(key, ot_seq[p])))

# the position of the entry for a key, or -1
declare ot_hit(seq smap[int]datatypes.EncapsulatedValue, n int, key datatypes.EncapsulatedValue) int
define ot_find(key datatypes.EncapsulatedValue) int = ot_hit(ot_seq, ot_len, key)
axiom {btree} forall s smap[int]datatypes.EncapsulatedValue, n int, k datatypes.EncapsulatedValue {ot_hit(s, n, k)} :: ot_hit(s, n, k) == -1 || (0 <= ot_hit(s, n, k) && ot_hit(s, n, k) < n && ot_same(s[ot_hit(s, n, k)], k))
axiom {btree} forall s smap[int]datatypes.EncapsulatedValue, n int, k datatypes.EncapsulatedValue, p int {ot_hit(s, n, k), s[p]} :: 0 <= p && p < n && ot_same(s[p], k) ==> ot_hit(s, n, k) >= 0

# ----- reading nodes -----
func *threadSafeBNode.findMatchType(bn, key, onFind)
  property P06,P10
  option opaque wfEV,evLT
  requires treeok() && ot_count() && (bn in ot_nodes) && wfEV(key) && ot_around(key) && RL(bn.lock) > 0 && onFind != nil
  calls onFind(v any) once if ot_lo[bn] <= ot_find(key) && ot_find(key) < ot_hi[bn]
    where [the-value-of-the-key] v == ot_at[ot_seq[ot_find(key)]]
  modifies locks
  ensures [releases-exactly-its-lock] RLocks() == upd(old(RLocks()), bn.lock, old(RL(bn.lock)) - 1) && WLocks() == old(WLocks())
  loop 1
    invariant [below] 0 <= index && index <= bn.numberOfValues && (forall i int {elems(bn.keyValues)[i]} :: 0 <= i && i < index ==> evLT(elems(bn.keyValues)[i].key, key) || (bn.numberOfChildren == 0 && evLT(key, elems(bn.keyValues)[i].key)))

# ch is the part of the children of n that starts at number c
define ot_kids(n *threadSafeBNode, ch []*threadSafeBNode, c int) bool =
  0 <= c && c + len(ch) <= n.numberOfChildren && (forall p int {elems(ch)[p]} :: off(ch) <= p && p < off(ch) + len(ch) ==> elems(ch)[p] == elems(n.children)[p - off(ch) + c])
# l is the lock of one of the children from..to-1 of n
define ot_kid(n *threadSafeBNode, from int, to int, l *sync.RWMutex) bool =
  (ot_owner(l) in ot_nodes) && ot_owner(l).lock == l && ot_parent[ot_owner(l)] == n && from <= ot_index[ot_owner(l)] && ot_index[ot_owner(l)] < to
# the entry k is one of the keys of n itself
define ot_own(n *threadSafeBNode, k datatypes.EncapsulatedValue) bool = ot_slot(ot_lo, n, ot_pos[k]) < n.numberOfValues && ot_kpos(n, ot_slot(ot_lo, n, ot_pos[k])) == ot_pos[k]
define ot_in(n *threadSafeBNode, k datatypes.EncapsulatedValue) bool = ot_stored(k) && ot_lo[n] <= ot_pos[k] && ot_pos[k] < ot_hi[n]
define ot_first(ch []*threadSafeBNode) int = ot_index[ch[0]]

func *threadSafeBNode.iterate(bn, typeRestrictions, callback) (result)
  property P06,P10
  option opaque wfEV,evLT
  requires treeok() && ot_count() && ot_tied() && ot_types() && (bn in ot_nodes) && RL(bn.lock) > 0 && callback != nil
  calls callback(k datatypes.EncapsulatedValue, v any) many all stop
    where [an-entry-of-the-range] ot_in(bn, k) && v == ot_at[k] && inRange(typeRestrictions, k.Type)
  modifies locks
  ensures [releases-exactly-its-lock] RLocks() == upd(old(RLocks()), bn.lock, old(RL(bn.lock)) - 1) && WLocks() == old(WLocks())
  ensures [says-whether-stopped] result == !stopped_callback
  loop 1
    invariant [index] 0 <= i && i <= bn.numberOfValues && !stopped_callback
    invariant [kids] ot_kids(bn, children, i - len(children)) && (bn.numberOfChildren == 0 ==> len(children) == 0) || bn.numberOfChildren == 0 && len(children) == 0
    invariant [skipped] bn.numberOfChildren != 0 && i > len(children) ==> bn.keyValues[i - len(children) - 1].key.Type < typeRestrictions.MinDataType
    invariant [visited] forall j int {elems(bn.keyValues)[j]} :: 0 <= j && j < i && inRange(typeRestrictions, elems(bn.keyValues)[j].key.Type) ==> (elems(bn.keyValues)[j].key in called_callback)
    invariant [only] forall k datatypes.EncapsulatedValue {k in called_callback} :: (k in called_callback) ==> ot_in(bn, k) && ot_own(bn, k) && ot_slot(ot_lo, bn, ot_pos[k]) < i
    invariant [locks] WLocks() == old(WLocks()) && (forall l *sync.RWMutex {RL(l)} :: RL(l) == old(RL(l)) + (ot_kid(bn, i - len(children), i, l) ? 1 : 0))
    invariant [started] len(children) > 0 ==> bn.keyValues[i - 1].key.Type >= typeRestrictions.MinDataType
  loop 2
    invariant [locks] WLocks() == old(WLocks()) && (forall l *sync.RWMutex {RL(l)} :: RL(l) == old(RL(l)) + (ot_kid(bn, ot_first(children) + $k, ot_first(children) + len(children), l) ? 1 : 0))
  loop 3
    invariant [index] 0 <= $k && $k <= len(children) && !stopped_callback
    invariant [only] forall k datatypes.EncapsulatedValue {k in called_callback} :: (k in called_callback) ==> ot_in(bn, k) && (ot_own(bn, k) || ot_slot(ot_lo, bn, ot_pos[k]) < ot_first(children) + $k)
    invariant [visited] forall k datatypes.EncapsulatedValue {k in called_callback} :: ot_in(bn, k) && inRange(typeRestrictions, k.Type) && (ot_own(bn, k) || ot_slot(ot_lo, bn, ot_pos[k]) < ot_first(children) + $k) ==> (k in called_callback)
    invariant [rest] forall k datatypes.EncapsulatedValue {k in called_callback} :: ot_in(bn, k) && inRange(typeRestrictions, k.Type) ==> ot_own(bn, k) || ot_slot(ot_lo, bn, ot_pos[k]) < ot_first(children) + len(children)
    invariant [locks] WLocks() == old(WLocks()) && (forall l *sync.RWMutex {RL(l)} :: RL(l) == old(RL(l)) - (l == bn.lock ? 1 : 0) + (ot_kid(bn, ot_first(children) + $k, ot_first(children) + len(children), l) ? 1 : 0))
  loop 4
    invariant [only] forall k datatypes.EncapsulatedValue {k in called_callback} :: (k in called_callback) ==> $seen[k] || ot_in(bn, k) && (ot_own(bn, k) || ot_slot(ot_lo, bn, ot_pos[k]) < ot_first(children) + $k3)
    invariant [seen] !stopped_callback && (forall k datatypes.EncapsulatedValue {$seen[k]} :: $seen[k] ==> (k in called_callback) && ot_in(bn, k) && ot_slot(ot_lo, bn, ot_pos[k]) == ot_first(children) + $k3)
    invariant [visited] forall k datatypes.EncapsulatedValue {k in called_callback} :: ot_in(bn, k) && inRange(typeRestrictions, k.Type) && (ot_own(bn, k) || ot_slot(ot_lo, bn, ot_pos[k]) < ot_first(children) + $k3) ==> (k in called_callback)
  loop 5
    invariant [locks] 0 < unlockIndex && unlockIndex <= len(children) && WLocks() == old(WLocks()) && (forall l *sync.RWMutex {RL(l)} :: RL(l) == old(RL(l)) - (l == bn.lock ? 1 : 0) + (ot_kid(bn, ot_first(children) + unlockIndex, ot_first(children) + len(children), l) ? 1 : 0))

func *threadSafeBNode.findLessThan(bn, key, typeRestrictions, onIterate) (result)
  property P06,P10
  option opaque wfEV,evLT
  requires treeok() && ot_count() && ot_tied() && ot_types() && wfEV(key) && ot_around(key) && (bn in ot_nodes) && RL(bn.lock) > 0 && onIterate != nil
  calls onIterate(k datatypes.EncapsulatedValue, v any) many all stop
    where [an-entry-below-the-key] ot_in(bn, k) && v == ot_at[k] && inRange(typeRestrictions, k.Type) && evLT(k, key)
  modifies locks
  ensures [releases-exactly-its-lock] RLocks() == upd(old(RLocks()), bn.lock, old(RL(bn.lock)) - 1) && WLocks() == old(WLocks())
  ensures [says-whether-stopped] result == !stopped_onIterate
  loop 1
    invariant [index] 0 <= index && index <= bn.numberOfValues && !stopped_onIterate
    invariant [kids] ot_kids(bn, children, index - len(children)) && (bn.numberOfChildren == 0 ==> len(children) == 0) || bn.numberOfChildren == 0 && len(children) == 0
    invariant [skipped] bn.numberOfChildren != 0 && index > len(children) ==> bn.keyValues[index - len(children) - 1].key.Type < typeRestrictions.MinDataType
    invariant [visited] forall j int {elems(bn.keyValues)[j]} :: 0 <= j && j < index && inRange(typeRestrictions, elems(bn.keyValues)[j].key.Type) && evLT(elems(bn.keyValues)[j].key, key) ==> (elems(bn.keyValues)[j].key in called_onIterate)
    invariant [visited-own] forall k datatypes.EncapsulatedValue {k in called_onIterate} :: ot_in(bn, k) && ot_own(bn, k) && ot_slot(ot_lo, bn, ot_pos[k]) < index && inRange(typeRestrictions, k.Type) && evLT(k, key) ==> (k in called_onIterate)
    invariant [only] forall k datatypes.EncapsulatedValue {k in called_onIterate} :: (k in called_onIterate) ==> ot_in(bn, k) && ot_own(bn, k) && ot_slot(ot_lo, bn, ot_pos[k]) < index
    invariant [locks] WLocks() == old(WLocks()) && (forall l *sync.RWMutex {RL(l)} :: RL(l) == old(RL(l)) + (ot_kid(bn, index - len(children), index, l) ? 1 : 0))
    invariant [started] len(children) > 0 ==> bn.keyValues[index - 1].key.Type >= typeRestrictions.MinDataType
  loop 2
    invariant [locks] WLocks() == old(WLocks()) && (forall l *sync.RWMutex {RL(l)} :: RL(l) == old(RL(l)) + (ot_kid(bn, ot_first(children) + $k, ot_first(children) + len(children), l) ? 1 : 0))
  loop 3
    invariant [index] 0 <= $k && $k <= len(children) && !stopped_onIterate
    invariant [only] forall k datatypes.EncapsulatedValue {k in called_onIterate} :: (k in called_onIterate) ==> ot_in(bn, k) && (ot_own(bn, k) || ot_slot(ot_lo, bn, ot_pos[k]) < ot_first(children) + $k)
    invariant [visited] forall k datatypes.EncapsulatedValue {k in called_onIterate} :: ot_in(bn, k) && inRange(typeRestrictions, k.Type) && evLT(k, key) && (ot_own(bn, k) || ot_slot(ot_lo, bn, ot_pos[k]) < ot_first(children) + $k) ==> (k in called_onIterate)
    invariant [rest] forall k datatypes.EncapsulatedValue {k in called_onIterate} :: ot_in(bn, k) && inRange(typeRestrictions, k.Type) && evLT(k, key) ==> ot_own(bn, k) || ot_slot(ot_lo, bn, ot_pos[k]) < ot_first(children) + len(children)
    invariant [locks] WLocks() == old(WLocks()) && (forall l *sync.RWMutex {RL(l)} :: RL(l) == old(RL(l)) - (l == bn.lock ? 1 : 0) + (ot_kid(bn, ot_first(children) + $k, ot_first(children) + len(children), l) ? 1 : 0))
  loop 4
    invariant [only] forall k datatypes.EncapsulatedValue {k in called_onIterate} :: (k in called_onIterate) ==> $seen[k] || ot_in(bn, k) && (ot_own(bn, k) || ot_slot(ot_lo, bn, ot_pos[k]) < ot_first(children) + $k3)
    invariant [seen] !stopped_onIterate && (forall k datatypes.EncapsulatedValue {$seen[k]} :: $seen[k] ==> (k in called_onIterate) && ot_in(bn, k) && ot_slot(ot_lo, bn, ot_pos[k]) == ot_first(children) + $k3)
    invariant [visited] forall k datatypes.EncapsulatedValue {k in called_onIterate} :: ot_in(bn, k) && inRange(typeRestrictions, k.Type) && evLT(k, key) && (ot_own(bn, k) || ot_slot(ot_lo, bn, ot_pos[k]) < ot_first(children) + $k3) ==> (k in called_onIterate)
  loop 5
    invariant [locks] 0 < unlockIndex && unlockIndex <= len(children) && WLocks() == old(WLocks()) && (forall l *sync.RWMutex {RL(l)} :: RL(l) == old(RL(l)) - (l == bn.lock ? 1 : 0) + (ot_kid(bn, ot_first(children) + unlockIndex, ot_first(children) + len(children), l) ? 1 : 0))

func *threadSafeBNode.findLessThanOrEqual(bn, key, typeRestrictions, onIterate) (result)
  property P06,P10
  option opaque wfEV,evLT
  requires treeok() && ot_count() && ot_tied() && ot_types() && wfEV(key) && ot_around(key) && (bn in ot_nodes) && RL(bn.lock) > 0 && onIterate != nil
  calls onIterate(k datatypes.EncapsulatedValue, v any) many all stop
    where [an-entry-not-above-the-key] ot_in(bn, k) && v == ot_at[k] && inRange(typeRestrictions, k.Type) && !evLT(key, k)
  modifies locks
  ensures [releases-exactly-its-lock] RLocks() == upd(old(RLocks()), bn.lock, old(RL(bn.lock)) - 1) && WLocks() == old(WLocks())
  ensures [says-whether-stopped] result == !stopped_onIterate
  loop 1
    invariant [index] 0 <= index && index <= bn.numberOfValues && !stopped_onIterate
    invariant [kids] ot_kids(bn, children, index - len(children)) && (bn.numberOfChildren == 0 ==> len(children) == 0) || bn.numberOfChildren == 0 && len(children) == 0
    invariant [skipped] bn.numberOfChildren != 0 && index > len(children) ==> bn.keyValues[index - len(children) - 1].key.Type < typeRestrictions.MinDataType
    invariant [visited] forall j int {elems(bn.keyValues)[j]} :: 0 <= j && j < index && inRange(typeRestrictions, elems(bn.keyValues)[j].key.Type) && !evLT(key, elems(bn.keyValues)[j].key) ==> (elems(bn.keyValues)[j].key in called_onIterate)
    invariant [visited-own] forall k datatypes.EncapsulatedValue {k in called_onIterate} :: ot_in(bn, k) && ot_own(bn, k) && ot_slot(ot_lo, bn, ot_pos[k]) < index && inRange(typeRestrictions, k.Type) && !evLT(key, k) ==> (k in called_onIterate)
    invariant [only] forall k datatypes.EncapsulatedValue {k in called_onIterate} :: (k in called_onIterate) ==> ot_in(bn, k) && ot_own(bn, k) && ot_slot(ot_lo, bn, ot_pos[k]) < index
    invariant [locks] WLocks() == old(WLocks()) && (forall l *sync.RWMutex {RL(l)} :: RL(l) == old(RL(l)) + (ot_kid(bn, index - len(children), index, l) ? 1 : 0))
    invariant [started] len(children) > 0 ==> bn.keyValues[index - 1].key.Type >= typeRestrictions.MinDataType
  loop 2
    invariant [locks] WLocks() == old(WLocks()) && (forall l *sync.RWMutex {RL(l)} :: RL(l) == old(RL(l)) + (ot_kid(bn, ot_first(children) + $k, ot_first(children) + len(children), l) ? 1 : 0))
  loop 3
    invariant [locks] WLocks() == old(WLocks()) && (forall l *sync.RWMutex {RL(l)} :: RL(l) == old(RL(l)) + (ot_kid(bn, ot_first(children) + $k, ot_first(children) + len(children), l) ? 1 : 0))
  loop 4
    invariant [index] 0 <= $k && $k <= len(children) && !stopped_onIterate
    invariant [only] forall k datatypes.EncapsulatedValue {k in called_onIterate} :: (k in called_onIterate) ==> ot_in(bn, k) && (ot_own(bn, k) || ot_slot(ot_lo, bn, ot_pos[k]) < ot_first(children) + $k)
    invariant [visited] forall k datatypes.EncapsulatedValue {k in called_onIterate} :: ot_in(bn, k) && inRange(typeRestrictions, k.Type) && !evLT(key, k) && (ot_own(bn, k) || ot_slot(ot_lo, bn, ot_pos[k]) < ot_first(children) + $k) ==> (k in called_onIterate)
    invariant [rest] forall k datatypes.EncapsulatedValue {k in called_onIterate} :: ot_in(bn, k) && inRange(typeRestrictions, k.Type) && !evLT(key, k) ==> ot_own(bn, k) || ot_slot(ot_lo, bn, ot_pos[k]) < ot_first(children) + len(children)
    invariant [locks] WLocks() == old(WLocks()) && (forall l *sync.RWMutex {RL(l)} :: RL(l) == old(RL(l)) - (l == bn.lock ? 1 : 0) + (ot_kid(bn, ot_first(children) + $k, ot_first(children) + len(children), l) ? 1 : 0))
  loop 5
    invariant [only] forall k datatypes.EncapsulatedValue {k in called_onIterate} :: (k in called_onIterate) ==> $seen[k] || ot_in(bn, k) && (ot_own(bn, k) || ot_slot(ot_lo, bn, ot_pos[k]) < ot_first(children) + $k4)
    invariant [seen] !stopped_onIterate && (forall k datatypes.EncapsulatedValue {$seen[k]} :: $seen[k] ==> (k in called_onIterate) && ot_in(bn, k) && ot_slot(ot_lo, bn, ot_pos[k]) == ot_first(children) + $k4)
    invariant [visited] forall k datatypes.EncapsulatedValue {k in called_onIterate} :: ot_in(bn, k) && inRange(typeRestrictions, k.Type) && !evLT(key, k) && (ot_own(bn, k) || ot_slot(ot_lo, bn, ot_pos[k]) < ot_first(children) + $k4) ==> (k in called_onIterate)
  loop 6
    invariant [locks] 0 < unlockIndex && unlockIndex <= len(children) && WLocks() == old(WLocks()) && (forall l *sync.RWMutex {RL(l)} :: RL(l) == old(RL(l)) - (l == bn.lock ? 1 : 0) + (ot_kid(bn, ot_first(children) + unlockIndex, ot_first(children) + len(children), l) ? 1 : 0))

func *threadSafeBNode.findGreaterThan(bn, key, typeRestrictions, onIterate) (result)
  property P06,P10
  option opaque wfEV,evLT
  requires treeok() && ot_count() && ot_tied() && ot_types() && wfEV(key) && ot_around(key) && (bn in ot_nodes) && RL(bn.lock) > 0 && onIterate != nil
  calls onIterate(k datatypes.EncapsulatedValue, v any) many all stop
    where [an-entry-above-the-key] ot_in(bn, k) && v == ot_at[k] && inRange(typeRestrictions, k.Type) && evLT(key, k)
  modifies locks
  ensures [releases-exactly-its-lock] RLocks() == upd(old(RLocks()), bn.lock, old(RL(bn.lock)) - 1) && WLocks() == old(WLocks())
  ensures [says-whether-stopped] result == !stopped_onIterate
  loop 1
    invariant [index] 0 <= index && index <= bn.numberOfValues && !stopped_onIterate
    invariant [kids] ot_kids(bn, children, index - len(children)) && (bn.numberOfChildren == 0 ==> len(children) == 0) || bn.numberOfChildren == 0 && len(children) == 0
    invariant [skipped] bn.numberOfChildren != 0 && index > len(children) ==> (bn.keyValues[index - len(children) - 1].key.Type < typeRestrictions.MinDataType || !evLT(key, bn.keyValues[index - len(children) - 1].key))
    invariant [visited] forall j int {elems(bn.keyValues)[j]} :: 0 <= j && j < index && inRange(typeRestrictions, elems(bn.keyValues)[j].key.Type) && evLT(key, elems(bn.keyValues)[j].key) ==> (elems(bn.keyValues)[j].key in called_onIterate)
    invariant [visited-own] forall k datatypes.EncapsulatedValue {k in called_onIterate} :: ot_in(bn, k) && ot_own(bn, k) && ot_slot(ot_lo, bn, ot_pos[k]) < index && inRange(typeRestrictions, k.Type) && evLT(key, k) ==> (k in called_onIterate)
    invariant [only] forall k datatypes.EncapsulatedValue {k in called_onIterate} :: (k in called_onIterate) ==> ot_in(bn, k) && ot_own(bn, k) && ot_slot(ot_lo, bn, ot_pos[k]) < index
    invariant [locks] WLocks() == old(WLocks()) && (forall l *sync.RWMutex {RL(l)} :: RL(l) == old(RL(l)) + (ot_kid(bn, index - len(children), index, l) ? 1 : 0))
    invariant [started] len(children) > 0 ==> bn.keyValues[index - 1].key.Type >= typeRestrictions.MinDataType && evLT(key, bn.keyValues[index - 1].key)
  loop 2
    invariant [locks] WLocks() == old(WLocks()) && (forall l *sync.RWMutex {RL(l)} :: RL(l) == old(RL(l)) + (ot_kid(bn, ot_first(children) + $k, ot_first(children) + len(children), l) ? 1 : 0))
  loop 3
    invariant [index] 0 <= $k && $k <= len(children) && !stopped_onIterate
    invariant [only] forall k datatypes.EncapsulatedValue {k in called_onIterate} :: (k in called_onIterate) ==> ot_in(bn, k) && (ot_own(bn, k) || ot_slot(ot_lo, bn, ot_pos[k]) < ot_first(children) + $k)
    invariant [visited] forall k datatypes.EncapsulatedValue {k in called_onIterate} :: ot_in(bn, k) && inRange(typeRestrictions, k.Type) && evLT(key, k) && (ot_own(bn, k) || ot_slot(ot_lo, bn, ot_pos[k]) < ot_first(children) + $k) ==> (k in called_onIterate)
    invariant [rest] forall k datatypes.EncapsulatedValue {k in called_onIterate} :: ot_in(bn, k) && inRange(typeRestrictions, k.Type) && evLT(key, k) ==> ot_own(bn, k) || ot_slot(ot_lo, bn, ot_pos[k]) < ot_first(children) + len(children)
    invariant [locks] WLocks() == old(WLocks()) && (forall l *sync.RWMutex {RL(l)} :: RL(l) == old(RL(l)) - (l == bn.lock ? 1 : 0) + (ot_kid(bn, ot_first(children) + $k, ot_first(children) + len(children), l) ? 1 : 0))
  loop 4
    invariant [only] forall k datatypes.EncapsulatedValue {k in called_onIterate} :: (k in called_onIterate) ==> $seen[k] || ot_in(bn, k) && (ot_own(bn, k) || ot_slot(ot_lo, bn, ot_pos[k]) < ot_first(children) + $k3)
    invariant [seen] !stopped_onIterate && (forall k datatypes.EncapsulatedValue {$seen[k]} :: $seen[k] ==> (k in called_onIterate) && ot_in(bn, k) && ot_slot(ot_lo, bn, ot_pos[k]) == ot_first(children) + $k3)
    invariant [visited] forall k datatypes.EncapsulatedValue {k in called_onIterate} :: ot_in(bn, k) && inRange(typeRestrictions, k.Type) && evLT(key, k) && (ot_own(bn, k) || ot_slot(ot_lo, bn, ot_pos[k]) < ot_first(children) + $k3) ==> (k in called_onIterate)
  loop 5
    invariant [locks] 0 < unlockIndex && unlockIndex <= len(children) && WLocks() == old(WLocks()) && (forall l *sync.RWMutex {RL(l)} :: RL(l) == old(RL(l)) - (l == bn.lock ? 1 : 0) + (ot_kid(bn, ot_first(children) + unlockIndex, ot_first(children) + len(children), l) ? 1 : 0))

func *threadSafeBNode.findGreaterThanOrEqual(bn, key, typeRestrictions, onIterate) (result)
  property P06,P10
  option opaque wfEV,evLT
  requires treeok() && ot_count() && ot_tied() && ot_types() && wfEV(key) && ot_around(key) && (bn in ot_nodes) && RL(bn.lock) > 0 && onIterate != nil
  calls onIterate(k datatypes.EncapsulatedValue, v any) many all stop
    where [an-entry-not-below-the-key] ot_in(bn, k) && v == ot_at[k] && inRange(typeRestrictions, k.Type) && !evLT(k, key)
  modifies locks
  ensures [releases-exactly-its-lock] RLocks() == upd(old(RLocks()), bn.lock, old(RL(bn.lock)) - 1) && WLocks() == old(WLocks())
  ensures [says-whether-stopped] result == !stopped_onIterate
  loop 1
    invariant [index] 0 <= index && index <= bn.numberOfValues && !stopped_onIterate
    invariant [kids] ot_kids(bn, children, index - len(children)) && (bn.numberOfChildren == 0 ==> len(children) == 0) || bn.numberOfChildren == 0 && len(children) == 0
    invariant [skipped] bn.numberOfChildren != 0 && index > len(children) ==> (bn.keyValues[index - len(children) - 1].key.Type < typeRestrictions.MinDataType || !evLT(key, bn.keyValues[index - len(children) - 1].key))
    invariant [visited] forall j int {elems(bn.keyValues)[j]} :: 0 <= j && j < index && inRange(typeRestrictions, elems(bn.keyValues)[j].key.Type) && !evLT(elems(bn.keyValues)[j].key, key) ==> (elems(bn.keyValues)[j].key in called_onIterate)
    invariant [visited-own] forall k datatypes.EncapsulatedValue {k in called_onIterate} :: ot_in(bn, k) && ot_own(bn, k) && ot_slot(ot_lo, bn, ot_pos[k]) < index && inRange(typeRestrictions, k.Type) && !evLT(k, key) ==> (k in called_onIterate)
    invariant [only] forall k datatypes.EncapsulatedValue {k in called_onIterate} :: (k in called_onIterate) ==> ot_in(bn, k) && ot_own(bn, k) && ot_slot(ot_lo, bn, ot_pos[k]) < index
    invariant [locks] WLocks() == old(WLocks()) && (forall l *sync.RWMutex {RL(l)} :: RL(l) == old(RL(l)) + (ot_kid(bn, index - len(children), index, l) ? 1 : 0))
    invariant [started] len(children) > 0 ==> bn.keyValues[index - 1].key.Type >= typeRestrictions.MinDataType && evLT(key, bn.keyValues[index - 1].key)
  loop 2
    invariant [locks] WLocks() == old(WLocks()) && (forall l *sync.RWMutex {RL(l)} :: RL(l) == old(RL(l)) + (ot_kid(bn, ot_first(children) + $k, ot_first(children) + len(children), l) ? 1 : 0))
  loop 3
    invariant [locks] WLocks() == old(WLocks()) && (forall l *sync.RWMutex {RL(l)} :: RL(l) == old(RL(l)) + (ot_kid(bn, ot_first(children) + $k, ot_first(children) + len(children), l) ? 1 : 0))
  loop 4
    invariant [index] 0 <= $k && $k <= len(children) && !stopped_onIterate
    invariant [only] forall k datatypes.EncapsulatedValue {k in called_onIterate} :: (k in called_onIterate) ==> ot_in(bn, k) && (ot_own(bn, k) || ot_slot(ot_lo, bn, ot_pos[k]) < ot_first(children) + $k)
    invariant [visited] forall k datatypes.EncapsulatedValue {k in called_onIterate} :: ot_in(bn, k) && inRange(typeRestrictions, k.Type) && !evLT(k, key) && (ot_own(bn, k) || ot_slot(ot_lo, bn, ot_pos[k]) < ot_first(children) + $k) ==> (k in called_onIterate)
    invariant [rest] forall k datatypes.EncapsulatedValue {k in called_onIterate} :: ot_in(bn, k) && inRange(typeRestrictions, k.Type) && !evLT(k, key) ==> ot_own(bn, k) || ot_slot(ot_lo, bn, ot_pos[k]) < ot_first(children) + len(children)
    invariant [locks] WLocks() == old(WLocks()) && (forall l *sync.RWMutex {RL(l)} :: RL(l) == old(RL(l)) - (l == bn.lock ? 1 : 0) + (ot_kid(bn, ot_first(children) + $k, ot_first(children) + len(children), l) ? 1 : 0))
  loop 5
    invariant [only] forall k datatypes.EncapsulatedValue {k in called_onIterate} :: (k in called_onIterate) ==> $seen[k] || ot_in(bn, k) && (ot_own(bn, k) || ot_slot(ot_lo, bn, ot_pos[k]) < ot_first(children) + $k4)
    invariant [seen] !stopped_onIterate && (forall k datatypes.EncapsulatedValue {$seen[k]} :: $seen[k] ==> (k in called_onIterate) && ot_in(bn, k) && ot_slot(ot_lo, bn, ot_pos[k]) == ot_first(children) + $k4)
    invariant [visited] forall k datatypes.EncapsulatedValue {k in called_onIterate} :: ot_in(bn, k) && inRange(typeRestrictions, k.Type) && !evLT(k, key) && (ot_own(bn, k) || ot_slot(ot_lo, bn, ot_pos[k]) < ot_first(children) + $k4) ==> (k in called_onIterate)
  loop 6
    invariant [locks] 0 < unlockIndex && unlockIndex <= len(children) && WLocks() == old(WLocks()) && (forall l *sync.RWMutex {RL(l)} :: RL(l) == old(RL(l)) - (l == bn.lock ? 1 : 0) + (ot_kid(bn, ot_first(children) + unlockIndex, ot_first(children) + len(children), l) ? 1 : 0))

# ----- the lookups -----
define ot_tree(t *threadSafeBTree) bool =
  t != nil && t.lock != nil && t.destroyingKeysLock != nil && t.lock != t.destroyingKeysLock && t.readWriteWG != nil && t.destroying != nil && ot_owner(t.lock) == nil && ot_owner(t.destroyingKeysLock) == nil &&
  (t.root == nil ==> ot_len == 0) && (t.root != nil ==> (t.root in ot_nodes) && ot_lo[t.root] == 0 && ot_hi[t.root] == ot_len)
define ot_well(t *threadSafeBTree) bool = ot_tree(t) && treeok() && ot_tied() && ot_types() && ot_sorted() && ot_count()
define ot_dying(t *threadSafeBTree, key datatypes.EncapsulatedValue) bool = exists i int :: 0 <= i && i < len(t.destroyingKeys) && t.destroyingKeys[i] == key
define ot_free(t *threadSafeBTree) bool = WL(t.lock) == 0 && WL(t.destroyingKeysLock) == 0

func *threadSafeBTree.checkDestroying(btree) (err)
  property P06,P10
  requires btree.destroying != nil
  ensures (err == nil) == (load(btree.destroying) == 0)

func *threadSafeBTree.checkDestroyingWithKey(btree, key) (err)
  property P06,P10
  requires btree.destroying != nil && btree.destroyingKeysLock != nil
  requires wfEV(key)
  modifies locks
  ensures locks_unchanged()
  ensures (err == nil) == (load(btree.destroying) == 0 && !ot_dying(btree, key))
  loop 1
    invariant forall i int {btree.destroyingKeys[i]} :: 0 <= i && i < $k ==> btree.destroyingKeys[i] != key

func *threadSafeBTree.Find(btree, key, typeRestrictions, onIterate) (err)
  property P06,P10
  requires ot_well(btree)
  let ok = wfEV(key) && trValid(typeRestrictions) && onIterate != nil && load(btree.destroying) == 0 && !ot_dying(btree, key)
  calls onIterate(k datatypes.EncapsulatedValue, v any) many all stop if ok
    where [asked-for] inRange(typeRestrictions, k.Type) &&
      (key.Type == datatypes.T_any ? ot_stored(k) && v == ot_at[k] : (k == key || k.Type == datatypes.T_any && k.Data == nil) && ot_find(k) >= 0 && v == ot_at[ot_seq[ot_find(k)]])
  modifies locks
  ensures [answers] (err == nil) == ok
  ensures [no-lock-left] locks_unchanged()
  loop 1
    invariant [passed-on] !stopped_onIterate && (forall k datatypes.EncapsulatedValue {k in called_onIterate} :: (k in called_onIterate) == ($seen[k])) && (forall k datatypes.EncapsulatedValue {$seen[k]} :: (k in called_onIterate) == ($seen[k]))

func *threadSafeBTree.FindNotEqual(btree, key, typeRestrictions, onIterate) (err)
  property P06,P10
  requires ot_well(btree)
  let ok = wfEV(key) && key.Type != datatypes.T_any && trValid(typeRestrictions) && onIterate != nil && load(btree.destroying) == 0
  calls onIterate(k datatypes.EncapsulatedValue, v any) many all stop if ok
    where [asked-for] inRange(typeRestrictions, k.Type) && ot_stored(k) && v == ot_at[k] && !ot_same(k, key)
  modifies locks
  ensures [answers] (err == nil) == ok
  ensures [no-lock-left] locks_unchanged()
  loop 1
    invariant [passed-on] !stopped_onIterate && (forall k datatypes.EncapsulatedValue {k in called_onIterate} :: (k in called_onIterate) == ($seen[k] && !ot_same(k, key))) && (forall k datatypes.EncapsulatedValue {$seen[k]} :: (k in called_onIterate) == ($seen[k] && !ot_same(k, key)))

func *threadSafeBTree.FindLessThan(btree, key, typeRestrictions, onIterate) (err)
  property P06,P10
  requires ot_well(btree)
  let ok = wfEV(key) && key.Type != datatypes.T_any && trValid(typeRestrictions) && onIterate != nil && load(btree.destroying) == 0
  calls onIterate(k datatypes.EncapsulatedValue, v any) many all stop if ok
    where [asked-for] inRange(typeRestrictions, k.Type) && (ot_stored(k) && v == ot_at[k] && evLT(k, key) || k.Type == datatypes.T_any && k.Data == nil && ot_find(k) >= 0 && v == ot_at[ot_seq[ot_find(k)]])
  modifies locks
  ensures [answers] (err == nil) == ok
  ensures [no-lock-left] locks_unchanged()
  loop 1
    invariant [passed-on] !stopped_onIterate && (forall k datatypes.EncapsulatedValue {k in called_onIterate} :: (k in called_onIterate) == ($seen[k])) && (forall k datatypes.EncapsulatedValue {$seen[k]} :: (k in called_onIterate) == ($seen[k]))
    invariant [below] forall k datatypes.EncapsulatedValue {k in called_onIterate} :: (k in called_onIterate) ==> evLT(k, key)

func *threadSafeBTree.FindLessThanOrEqual(btree, key, typeRestrictions, onIterate) (err)
  property P06,P10
  requires ot_well(btree)
  let ok = wfEV(key) && key.Type != datatypes.T_any && trValid(typeRestrictions) && onIterate != nil && load(btree.destroying) == 0
  calls onIterate(k datatypes.EncapsulatedValue, v any) many all stop if ok
    where [asked-for] inRange(typeRestrictions, k.Type) && (ot_stored(k) && v == ot_at[k] && !evLT(key, k) || k.Type == datatypes.T_any && k.Data == nil && ot_find(k) >= 0 && v == ot_at[ot_seq[ot_find(k)]])
  modifies locks
  ensures [answers] (err == nil) == ok
  ensures [no-lock-left] locks_unchanged()
  loop 1
    invariant [passed-on] !stopped_onIterate && (forall k datatypes.EncapsulatedValue {k in called_onIterate} :: (k in called_onIterate) == ($seen[k])) && (forall k datatypes.EncapsulatedValue {$seen[k]} :: (k in called_onIterate) == ($seen[k]))
    invariant [below] forall k datatypes.EncapsulatedValue {k in called_onIterate} :: (k in called_onIterate) ==> !evLT(key, k)

func *threadSafeBTree.FindGreaterThan(btree, key, typeRestrictions, onIterate) (err)
  property P06,P10
  requires ot_well(btree)
  let ok = wfEV(key) && key.Type != datatypes.T_any && trValid(typeRestrictions) && onIterate != nil && load(btree.destroying) == 0
  calls onIterate(k datatypes.EncapsulatedValue, v any) many all stop if ok
    where [asked-for] inRange(typeRestrictions, k.Type) && ot_stored(k) && v == ot_at[k] && evLT(key, k)
  modifies locks
  ensures [answers] (err == nil) == ok
  ensures [no-lock-left] locks_unchanged()
  loop 1
    invariant [passed-on] !stopped_onIterate && (forall k datatypes.EncapsulatedValue {k in called_onIterate} :: (k in called_onIterate) == ($seen[k])) && (forall k datatypes.EncapsulatedValue {$seen[k]} :: (k in called_onIterate) == ($seen[k]))

func *threadSafeBTree.FindGreaterThanOrEqual(btree, key, typeRestrictions, onIterate) (err)
  property P06,P10
  requires ot_well(btree)
  let ok = wfEV(key) && key.Type != datatypes.T_any && trValid(typeRestrictions) && onIterate != nil && load(btree.destroying) == 0
  calls onIterate(k datatypes.EncapsulatedValue, v any) many all stop if ok
    where [asked-for] inRange(typeRestrictions, k.Type) && ot_stored(k) && v == ot_at[k] && !evLT(k, key)
  modifies locks
  ensures [answers] (err == nil) == ok
  ensures [no-lock-left] locks_unchanged()
  loop 1
    invariant [passed-on] !stopped_onIterate && (forall k datatypes.EncapsulatedValue {k in called_onIterate} :: (k in called_onIterate) == ($seen[k])) && (forall k datatypes.EncapsulatedValue {$seen[k]} :: (k in called_onIterate) == ($seen[k]))
