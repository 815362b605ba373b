# Updates of the ordered index, node by node: what every insertion, removal, split, merge and rotation does to the entries.
package internal/datastructures/btree
import datatypes pkg/models/datatypes

define up_node(n *threadSafeBNode) bool =
  n != nil && n.lock != nil && len(n.keyValues) >= 3 && cap(n.keyValues) == len(n.keyValues) && len(n.children) == len(n.keyValues) + 1 && len(n.keyValues) < 4611686018427387904 &&
  off(n.keyValues) == 0 && off(n.children) == 0 && 0 <= n.numberOfValues && n.numberOfValues <= len(n.keyValues) && (n.numberOfChildren == 0 || n.numberOfChildren == n.numberOfValues + 1)
define up_vals(n *threadSafeBNode) bool = forall i int {elems(n.keyValues)[i]} :: 0 <= i && i < n.numberOfValues ==> elems(n.keyValues)[i] != nil && wfEV(elems(n.keyValues)[i].key)
define up_kids(n *threadSafeBNode) bool = forall i int {elems(n.children)[i]} :: 0 <= i && i < n.numberOfChildren ==> elems(n.children)[i] != nil && elems(n.children)[i].lock != nil
# the entries of n are sorted, and sorted around the key
define up_around(n *threadSafeBNode, key datatypes.EncapsulatedValue) bool = forall i int, j int {elems(n.keyValues)[i], elems(n.keyValues)[j]} :: 0 <= i && i < j && j < n.numberOfValues ==>
  evLT(elems(n.keyValues)[i].key, elems(n.keyValues)[j].key) && (evLT(key, elems(n.keyValues)[i].key) ==> evLT(key, elems(n.keyValues)[j].key) && !evLT(elems(n.keyValues)[j].key, key)) &&
  (evLT(elems(n.keyValues)[j].key, key) ==> evLT(elems(n.keyValues)[i].key, key) && !evLT(key, elems(n.keyValues)[i].key))
define up_sep(n *threadSafeBNode, key datatypes.EncapsulatedValue) bool = forall i int {elems(n.keyValues)[i]} :: 0 <= i && i < n.numberOfValues ==> !(evLT(elems(n.keyValues)[i].key, key) && evLT(key, elems(n.keyValues)[i].key))
# no entry of n has the key
define up_absent(n *threadSafeBNode, key datatypes.EncapsulatedValue) bool = forall i int {elems(n.keyValues)[i]} :: 0 <= i && i < n.numberOfValues ==> evLT(elems(n.keyValues)[i].key, key) || evLT(key, elems(n.keyValues)[i].key)

func newBTreeNode(nodeSize) (n)
  property P07
  requires 2 <= nodeSize && nodeSize < 4611686018427387904
  ensures [an-empty-node] n != nil && isfresh(n) && n.lock != nil && isfresh(n.lock) && n.numberOfValues == 0 && n.numberOfChildren == 0
  ensures [room-for-one-more] len(n.keyValues) == nodeSize + 1 && cap(n.keyValues) == nodeSize + 1 && len(n.children) == nodeSize + 2 && off(n.keyValues) == 0 && off(n.children) == 0
  ensures isfresh(arr(n.keyValues)) && isfresh(arr(n.children))

func *threadSafeBNode.appendTreeItem(bn, key, value)
  property P07
  requires bn != nil && off(bn.keyValues) == 0 && 0 <= bn.numberOfValues && bn.numberOfValues < len(bn.keyValues) && len(bn.keyValues) < 4611686018427387904
  modifies bn.numberOfValues, elems(bn.keyValues)
  ensures [one-more] bn.numberOfValues == old(bn.numberOfValues) + 1
  ensures [at-the-end] elems(bn.keyValues)[old(bn.numberOfValues)] != nil && elems(bn.keyValues)[old(bn.numberOfValues)].key == key && elems(bn.keyValues)[old(bn.numberOfValues)].value == value
  ensures [others-kept] forall i int {elems(bn.keyValues)[i]} :: 0 <= i && i < old(bn.numberOfValues) ==> elems(bn.keyValues)[i] == old(elems(bn.keyValues)[i])

func *threadSafeBNode.createTreeItem(bn, key, onCreate) (err)
  property P07
  option elements typed
  option opaque wfEV,evLT
  requires up_node(bn) && up_vals(bn) && bn.numberOfValues < len(bn.keyValues) && wfEV(key) && onCreate != nil && up_around(bn, key) && up_sep(bn, key)
  calls onCreate() once if up_absent(bn, key)
  modifies bn.numberOfValues, elems(bn.keyValues)
  ensures [refused-exactly-when-stored] (err == nil) == old(up_absent(bn, key)) && (err != nil ==> err == ErrorKeyAlreadyExists)
  ensures [one-more-when-made] bn.numberOfValues == old(bn.numberOfValues) + (called_onCreate && ret_onCreate != nil ? 1 : 0)
  ensures [otherwise-unchanged] bn.numberOfValues == old(bn.numberOfValues) ==> (forall i int {elems(bn.keyValues)[i]} :: 0 <= i && i < old(bn.numberOfValues) ==> elems(bn.keyValues)[i] == old(elems(bn.keyValues)[i]))
  ensures [lower-entries-stay] forall i int {elems(bn.keyValues)[i]} {old(elems(bn.keyValues)[i])} :: 0 <= i && i < old(bn.numberOfValues) && evLT(old(elems(bn.keyValues)[i].key), key) ==> elems(bn.keyValues)[i] == old(elems(bn.keyValues)[i])
  ensures [greater-entries-move-up] bn.numberOfValues > old(bn.numberOfValues) ==> (forall i int {old(elems(bn.keyValues)[i])} :: 0 <= i && i < old(bn.numberOfValues) && evLT(key, old(elems(bn.keyValues)[i].key)) ==> elems(bn.keyValues)[i+1] == old(elems(bn.keyValues)[i]))
  ensures [new-entry-between] bn.numberOfValues > old(bn.numberOfValues) ==> (forall i int {elems(bn.keyValues)[i]} :: 0 <= i && i <= old(bn.numberOfValues) && (i == 0 || evLT(old(elems(bn.keyValues)[i-1].key), key)) && (i == old(bn.numberOfValues) || evLT(key, old(elems(bn.keyValues)[i].key))) ==>
    elems(bn.keyValues)[i] != nil && elems(bn.keyValues)[i].key == key && elems(bn.keyValues)[i].value == ret_onCreate)
  ensures [sorted] forall i int, j int {elems(bn.keyValues)[i], elems(bn.keyValues)[j]} :: 0 <= i && i < j && j < bn.numberOfValues ==> evLT(elems(bn.keyValues)[i].key, elems(bn.keyValues)[j].key)
  loop 1
    invariant [below] 0 <= index && index <= bn.numberOfValues && (forall i int {elems(bn.keyValues)[i]} :: 0 <= i && i < index ==> evLT(elems(bn.keyValues)[i].key, key))
  loop 2
    invariant [range] index <= i && i <= bn.numberOfValues && 0 <= index
    invariant [moved] forall p int {elems(bn.keyValues)[p]} {old(elems(bn.keyValues)[p-1])} :: i < p && p <= bn.numberOfValues ==> elems(bn.keyValues)[p] == old(elems(bn.keyValues)[p-1])
    invariant [kept] forall p int {elems(bn.keyValues)[p]} :: 0 <= p && p <= i && p < bn.numberOfValues ==> elems(bn.keyValues)[p] == old(elems(bn.keyValues)[p])

func *threadSafeBNode.removeLeafItem(bn, index, canDelete) (under)
  property P07
  requires up_node(bn) && up_vals(bn) && 0 <= index && index < bn.numberOfValues && bn.numberOfChildren == 0
  calls canDelete(k datatypes.EncapsulatedValue, v any) once if canDelete != nil
    where [the-entry-to-remove] k == elems(bn.keyValues)[index].key && v == elems(bn.keyValues)[index].value
  modifies bn.numberOfValues, elems(bn.keyValues)
  ensures [removed-when-allowed] bn.numberOfValues == old(bn.numberOfValues) - (canDelete == nil || ret_canDelete ? 1 : 0)
  ensures [otherwise-unchanged] bn.numberOfValues == old(bn.numberOfValues) ==> !under && (forall i int {elems(bn.keyValues)[i]} :: 0 <= i && i < bn.numberOfValues ==> elems(bn.keyValues)[i] == old(elems(bn.keyValues)[i]))
  ensures [lower-entries-stay] forall i int {elems(bn.keyValues)[i]} :: 0 <= i && i < index ==> elems(bn.keyValues)[i] == old(elems(bn.keyValues)[i])
  ensures [greater-entries-move-down] bn.numberOfValues < old(bn.numberOfValues) ==> (forall i int {elems(bn.keyValues)[i]} {old(elems(bn.keyValues)[i+1])} :: index <= i && i < bn.numberOfValues ==> elems(bn.keyValues)[i] == old(elems(bn.keyValues)[i+1]))
  ensures [says-whether-too-small] bn.numberOfValues < old(bn.numberOfValues) ==> under == (bn.numberOfValues < (cap(bn.keyValues) + 1) / 2 - 1)
  loop 1
    invariant index <= shiftIndex && shiftIndex < bn.numberOfValues
    invariant forall i int {elems(bn.keyValues)[i]} {old(elems(bn.keyValues)[i+1])} :: index <= i && i < shiftIndex ==> elems(bn.keyValues)[i] == old(elems(bn.keyValues)[i+1])
    invariant forall i int {elems(bn.keyValues)[i]} :: (0 <= i && i < index || shiftIndex <= i && i < len(bn.keyValues)) ==> elems(bn.keyValues)[i] == old(elems(bn.keyValues)[i])

func *threadSafeBNode.createOrFindTreeItem(bn, key, onFind, onCreate)
  property P07
  option elements typed
  option opaque wfEV,evLT
  requires up_node(bn) && up_vals(bn) && bn.numberOfValues < len(bn.keyValues) && wfEV(key) && onCreate != nil && onFind != nil && up_around(bn, key) && up_sep(bn, key)
  calls onCreate() once if up_absent(bn, key)
  calls onFind(v any) once if !up_absent(bn, key)
    where [the-value-of-the-key] exists i int {elems(bn.keyValues)[i]} :: 0 <= i && i < bn.numberOfValues && ot_same(elems(bn.keyValues)[i].key, key) && v == elems(bn.keyValues)[i].value
  modifies bn.numberOfValues, elems(bn.keyValues)
  ensures [one-more-when-made] bn.numberOfValues == old(bn.numberOfValues) + (called_onCreate && ret_onCreate != nil ? 1 : 0)
  ensures [otherwise-unchanged] bn.numberOfValues == old(bn.numberOfValues) ==> (forall i int {elems(bn.keyValues)[i]} :: 0 <= i && i < old(bn.numberOfValues) ==> elems(bn.keyValues)[i] == old(elems(bn.keyValues)[i]))
  ensures [lower-entries-stay] forall i int {elems(bn.keyValues)[i]} {old(elems(bn.keyValues)[i])} :: 0 <= i && i < old(bn.numberOfValues) && evLT(old(elems(bn.keyValues)[i].key), key) ==> elems(bn.keyValues)[i] == old(elems(bn.keyValues)[i])
  ensures [greater-entries-move-up] bn.numberOfValues > old(bn.numberOfValues) ==> (forall i int {old(elems(bn.keyValues)[i])} :: 0 <= i && i < old(bn.numberOfValues) && evLT(key, old(elems(bn.keyValues)[i].key)) ==> elems(bn.keyValues)[i+1] == old(elems(bn.keyValues)[i]))
  ensures [new-entry-between] bn.numberOfValues > old(bn.numberOfValues) ==> (forall i int {elems(bn.keyValues)[i]} :: 0 <= i && i <= old(bn.numberOfValues) && (i == 0 || evLT(old(elems(bn.keyValues)[i-1].key), key)) && (i == old(bn.numberOfValues) || evLT(key, old(elems(bn.keyValues)[i].key))) ==>
    elems(bn.keyValues)[i] != nil && elems(bn.keyValues)[i].key == key && elems(bn.keyValues)[i].value == ret_onCreate)
  ensures [sorted] forall i int, j int {elems(bn.keyValues)[i], elems(bn.keyValues)[j]} :: 0 <= i && i < j && j < bn.numberOfValues ==> evLT(elems(bn.keyValues)[i].key, elems(bn.keyValues)[j].key)
  loop 1
    invariant [below] 0 <= index && index <= bn.numberOfValues && (forall i int {elems(bn.keyValues)[i]} :: 0 <= i && i < index ==> evLT(elems(bn.keyValues)[i].key, key))
  loop 2
    invariant [range] index <= i && i <= bn.numberOfValues && 0 <= index
    invariant [moved] forall p int {elems(bn.keyValues)[p]} {old(elems(bn.keyValues)[p-1])} :: i < p && p <= bn.numberOfValues ==> elems(bn.keyValues)[p] == old(elems(bn.keyValues)[p-1])
    invariant [kept] forall p int {elems(bn.keyValues)[p]} :: 0 <= p && p <= i && p < bn.numberOfValues ==> elems(bn.keyValues)[p] == old(elems(bn.keyValues)[p])

func *threadSafeBNode.dropGreatest(bn)
  property P07,P10
  requires up_node(bn) && bn.numberOfValues > 0 && up_kids(bn)
  modifies bn.numberOfValues, bn.numberOfChildren, elems(bn.keyValues), elems(bn.children), locks
  ensures {P07} [one-less] bn.numberOfValues == old(bn.numberOfValues) - 1 && bn.numberOfChildren == (old(bn.numberOfChildren) == 0 ? 0 : old(bn.numberOfChildren) - 1)
  ensures {P07} [other-entries-stay] forall i int {elems(bn.keyValues)[i]} :: 0 <= i && i < bn.numberOfValues ==> elems(bn.keyValues)[i] == old(elems(bn.keyValues)[i])
  ensures {P07} [other-children-stay] forall i int {elems(bn.children)[i]} :: 0 <= i && i < bn.numberOfChildren ==> elems(bn.children)[i] == old(elems(bn.children)[i])
  ensures {P10} [locks-given-back] locks_unchanged()

func *threadSafeBNode.shiftNodeRight(bn, startIndex, count)
  property P07
  requires up_node(bn) && 0 <= startIndex && 1 <= count && count <= len(bn.keyValues) - bn.numberOfValues
  modifies bn.numberOfValues, bn.numberOfChildren, elems(bn.keyValues), elems(bn.children)
  ensures [more] bn.numberOfValues == old(bn.numberOfValues) + count && bn.numberOfChildren == (old(bn.numberOfChildren) == 0 ? 0 : old(bn.numberOfChildren) + count)
  ensures [entries-move-up] forall i int {elems(bn.keyValues)[i]} {old(elems(bn.keyValues)[i-count])} :: startIndex + count <= i && i < bn.numberOfValues ==> elems(bn.keyValues)[i] == old(elems(bn.keyValues)[i-count])
  ensures [children-move-up] forall i int {elems(bn.children)[i]} {old(elems(bn.children)[i-count])} :: startIndex + count <= i && i < bn.numberOfChildren ==> elems(bn.children)[i] == old(elems(bn.children)[i-count])
  ensures [lower-stay] (forall i int {elems(bn.keyValues)[i]} :: 0 <= i && i < startIndex ==> elems(bn.keyValues)[i] == old(elems(bn.keyValues)[i])) && (forall i int {elems(bn.children)[i]} :: 0 <= i && i < startIndex ==> elems(bn.children)[i] == old(elems(bn.children)[i]))
  loop 1
    invariant index < bn.numberOfValues && (index >= startIndex - 1 || index == bn.numberOfValues - 1)
    invariant forall i int {elems(bn.keyValues)[i]} {old(elems(bn.keyValues)[i-count])} :: index + count < i && i < bn.numberOfValues + count ==> startIndex + count > i || elems(bn.keyValues)[i] == old(elems(bn.keyValues)[i-count])
    invariant forall i int {elems(bn.keyValues)[i]} :: 0 <= i && (i <= index || i < startIndex) ==> elems(bn.keyValues)[i] == old(elems(bn.keyValues)[i])
  loop 2
    invariant index < bn.numberOfChildren && (index >= startIndex - 1 || index == bn.numberOfChildren - 1)
    invariant forall i int {elems(bn.children)[i]} {old(elems(bn.children)[i-count])} :: index + count < i && i < bn.numberOfChildren + count ==> startIndex + count > i || elems(bn.children)[i] == old(elems(bn.children)[i-count])
    invariant forall i int {elems(bn.children)[i]} :: 0 <= i && (i <= index || i < startIndex) ==> elems(bn.children)[i] == old(elems(bn.children)[i])

func *threadSafeBNode.shiftNodeLeft(bn, startIndex, count)
  property P07,P10
  requires up_node(bn) && startIndex == 0 && count == 1 && 1 <= bn.numberOfValues && bn.numberOfValues < len(bn.keyValues) && up_kids(bn)
  modifies bn.numberOfValues, bn.numberOfChildren, elems(bn.keyValues), elems(bn.children), locks
  ensures {P07} [less] bn.numberOfValues == old(bn.numberOfValues) - 1 && bn.numberOfChildren == (old(bn.numberOfChildren) == 0 ? 0 : old(bn.numberOfChildren) - 1)
  ensures {P07} [entries-move-down] forall i int {elems(bn.keyValues)[i]} {old(elems(bn.keyValues)[i+1])} :: 0 <= i && i < bn.numberOfValues ==> elems(bn.keyValues)[i] == old(elems(bn.keyValues)[i+1])
  ensures {P07} [children-move-down] forall i int {elems(bn.children)[i]} {old(elems(bn.children)[i+1])} :: 0 <= i && i < bn.numberOfChildren ==> elems(bn.children)[i] == old(elems(bn.children)[i+1])
  ensures {P10} [locks-given-back] locks_unchanged()
  loop 1
    invariant 0 <= index && index < len(bn.keyValues)
    invariant forall i int {elems(bn.keyValues)[i]} {old(elems(bn.keyValues)[i+1])} :: 0 <= i && i < index && i < bn.numberOfValues - 1 ==> elems(bn.keyValues)[i] == old(elems(bn.keyValues)[i+1])
    invariant forall i int {elems(bn.keyValues)[i]} :: index <= i && i < bn.numberOfValues ==> elems(bn.keyValues)[i] == old(elems(bn.keyValues)[i])
  loop 2
    invariant 0 <= index && index <= bn.numberOfChildren
    invariant locks_unchanged()
    invariant forall i int {elems(bn.children)[i]} {old(elems(bn.children)[i+1])} :: 0 <= i && i < index && i < bn.numberOfChildren - 1 ==> elems(bn.children)[i] == old(elems(bn.children)[i+1])
    invariant forall i int {elems(bn.children)[i]} :: index <= i && i < bn.numberOfChildren ==> elems(bn.children)[i] == old(elems(bn.children)[i])

# the entries and children of different nodes are kept apart
define up_apart(a *threadSafeBNode, b *threadSafeBNode) bool = a != b && arr(a.keyValues) != arr(b.keyValues) && arr(a.children) != arr(b.children)

func *threadSafeBNode.splitLeaf(bn) (parent)
  property P07
  requires up_node(bn) && up_vals(bn) && bn.numberOfValues == len(bn.keyValues) && bn.numberOfChildren == 0
  let m = (len(bn.keyValues) - 1) / 2
  ensures [parent] parent != nil && isfresh(parent) && parent.numberOfValues == 1 && parent.numberOfChildren == 2 && up_node(parent) && len(parent.keyValues) == len(bn.keyValues)
  ensures [middle] elems(parent.keyValues)[0] != nil && elems(parent.keyValues)[0].key == elems(bn.keyValues)[m].key && elems(parent.keyValues)[0].value == elems(bn.keyValues)[m].value
  ensures [left-part] up_node(elems(parent.children)[0]) && elems(parent.children)[0].numberOfValues == m && elems(parent.children)[0].numberOfChildren == 0 && len(elems(parent.children)[0].keyValues) == len(bn.keyValues) && isfresh(elems(parent.children)[0])
  ensures [left-entries] forall i int {elems(elems(parent.children)[0].keyValues)[i]} {elems(bn.keyValues)[i]} :: 0 <= i && i < m ==> elems(elems(parent.children)[0].keyValues)[i] != nil && elems(elems(parent.children)[0].keyValues)[i].key == elems(bn.keyValues)[i].key && elems(elems(parent.children)[0].keyValues)[i].value == elems(bn.keyValues)[i].value
  ensures [right-part] up_node(elems(parent.children)[1]) && elems(parent.children)[1].numberOfValues == bn.numberOfValues - m - 1 && elems(parent.children)[1].numberOfChildren == 0 && len(elems(parent.children)[1].keyValues) == len(bn.keyValues) && isfresh(elems(parent.children)[1])
  ensures [right-entries] forall i int {elems(elems(parent.children)[1].keyValues)[i]} {elems(bn.keyValues)[i+m+1]} :: 0 <= i && i < bn.numberOfValues - m - 1 ==> elems(elems(parent.children)[1].keyValues)[i] != nil && elems(elems(parent.children)[1].keyValues)[i].key == elems(bn.keyValues)[i+m+1].key && elems(elems(parent.children)[1].keyValues)[i].value == elems(bn.keyValues)[i+m+1].value
  ensures [apart] up_apart(elems(parent.children)[0], elems(parent.children)[1]) && up_apart(parent, elems(parent.children)[0]) && up_apart(parent, elems(parent.children)[1])
  loop 1
    invariant 0 <= i && i <= m && m < len(bn.keyValues) - 1
    invariant parentNode != nil && isfresh(parentNode) && up_node(parentNode) && isfresh(arr(parentNode.children)) && isfresh(arr(parentNode.keyValues))
    invariant len(parentNode.keyValues) == len(bn.keyValues) && parentNode.numberOfValues == 1 && parentNode.numberOfChildren == 2 && up_apart(parentNode, elems(parentNode.children)[0])
    invariant elems(parentNode.keyValues)[0] != nil && elems(parentNode.keyValues)[0].key == elems(bn.keyValues)[m].key && elems(parentNode.keyValues)[0].value == elems(bn.keyValues)[m].value
    invariant up_node(elems(parentNode.children)[0]) && elems(parentNode.children)[0].numberOfValues == i && elems(parentNode.children)[0].numberOfChildren == 0 && len(elems(parentNode.children)[0].keyValues) == len(bn.keyValues)
    invariant forall p int {elems(elems(parentNode.children)[0].keyValues)[p]} {elems(bn.keyValues)[p]} :: 0 <= p && p < i ==> elems(elems(parentNode.children)[0].keyValues)[p] != nil && elems(elems(parentNode.children)[0].keyValues)[p].key == elems(bn.keyValues)[p].key && elems(elems(parentNode.children)[0].keyValues)[p].value == elems(bn.keyValues)[p].value
  loop 2
    invariant m + 1 <= i && i <= len(bn.keyValues)
    invariant parentNode != nil && isfresh(parentNode) && up_node(parentNode) && isfresh(arr(parentNode.children)) && isfresh(arr(parentNode.keyValues))
    invariant len(parentNode.keyValues) == len(bn.keyValues) && parentNode.numberOfValues == 1 && parentNode.numberOfChildren == 2 && up_apart(parentNode, elems(parentNode.children)[0]) && up_apart(parentNode, elems(parentNode.children)[1]) && up_apart(elems(parentNode.children)[0], elems(parentNode.children)[1])
    invariant elems(parentNode.keyValues)[0] != nil && elems(parentNode.keyValues)[0].key == elems(bn.keyValues)[m].key && elems(parentNode.keyValues)[0].value == elems(bn.keyValues)[m].value
    invariant up_node(elems(parentNode.children)[0]) && elems(parentNode.children)[0].numberOfValues == m && elems(parentNode.children)[0].numberOfChildren == 0 && len(elems(parentNode.children)[0].keyValues) == len(bn.keyValues)
    invariant up_node(elems(parentNode.children)[1]) && elems(parentNode.children)[1].numberOfValues == i - m - 1 && elems(parentNode.children)[1].numberOfChildren == 0 && len(elems(parentNode.children)[1].keyValues) == len(bn.keyValues)
    invariant forall p int {elems(elems(parentNode.children)[0].keyValues)[p]} {elems(bn.keyValues)[p]} :: 0 <= p && p < m ==> elems(elems(parentNode.children)[0].keyValues)[p] != nil && elems(elems(parentNode.children)[0].keyValues)[p].key == elems(bn.keyValues)[p].key && elems(elems(parentNode.children)[0].keyValues)[p].value == elems(bn.keyValues)[p].value
    invariant forall p int {elems(elems(parentNode.children)[1].keyValues)[p]} {elems(bn.keyValues)[p+m+1]} :: 0 <= p && p < i - m - 1 ==> elems(elems(parentNode.children)[1].keyValues)[p] != nil && elems(elems(parentNode.children)[1].keyValues)[p].key == elems(bn.keyValues)[p+m+1].key && elems(elems(parentNode.children)[1].keyValues)[p].value == elems(bn.keyValues)[p+m+1].value

func *threadSafeBNode.rotateLeft(bn, rotateChildIndex)
  property P07,P10
  let l = elems(bn.children)[rotateChildIndex]
  let r = elems(bn.children)[rotateChildIndex + 1]
  requires up_node(bn) && 0 <= rotateChildIndex && rotateChildIndex + 1 < bn.numberOfChildren && up_node(l) && up_node(r) && up_kids(r) && up_apart(l, r) && up_apart(bn, l) && up_apart(bn, r)
  requires l.numberOfValues < len(l.keyValues) && r.numberOfValues >= 1 && r.numberOfValues < len(r.keyValues) && (l.numberOfChildren == 0) == (r.numberOfChildren == 0)
  modifies l.numberOfValues, l.numberOfChildren, r.numberOfValues, r.numberOfChildren, elems(bn.keyValues), elems(l.keyValues), elems(r.keyValues), elems(l.children), elems(r.children), locks
  ensures {P07} [counts] l.numberOfValues == old(l.numberOfValues) + 1 && r.numberOfValues == old(r.numberOfValues) - 1 && l.numberOfChildren == (old(l.numberOfChildren) == 0 ? 0 : old(l.numberOfChildren) + 1) && r.numberOfChildren == (old(r.numberOfChildren) == 0 ? 0 : old(r.numberOfChildren) - 1)
  ensures {P07} [left-kept] forall i int {elems(l.keyValues)[i]} :: 0 <= i && i < old(l.numberOfValues) ==> elems(l.keyValues)[i] == old(elems(l.keyValues)[i])
  ensures {P07} [separator-goes-left] elems(l.keyValues)[old(l.numberOfValues)] == old(elems(bn.keyValues)[rotateChildIndex])
  ensures {P07} [least-of-the-right-separates] elems(bn.keyValues)[rotateChildIndex] == old(elems(r.keyValues)[0])
  ensures {P07} [other-separators-kept] forall i int {elems(bn.keyValues)[i]} :: 0 <= i && i < len(bn.keyValues) && i != rotateChildIndex ==> elems(bn.keyValues)[i] == old(elems(bn.keyValues)[i])
  ensures {P07} [right-moves-down] forall i int {elems(r.keyValues)[i]} {old(elems(r.keyValues)[i+1])} :: 0 <= i && i < r.numberOfValues ==> elems(r.keyValues)[i] == old(elems(r.keyValues)[i+1])
  ensures {P07} [left-children-kept] forall i int {elems(l.children)[i]} :: 0 <= i && i < old(l.numberOfChildren) ==> elems(l.children)[i] == old(elems(l.children)[i])
  ensures {P07} [first-child-goes-left] old(l.numberOfChildren) != 0 ==> elems(l.children)[old(l.numberOfChildren)] == old(elems(r.children)[0])
  ensures {P07} [right-children-move-down] forall i int {elems(r.children)[i]} {old(elems(r.children)[i+1])} :: 0 <= i && i < r.numberOfChildren ==> elems(r.children)[i] == old(elems(r.children)[i+1])
  ensures {P10} [locks-given-back] locks_unchanged()

func *threadSafeBNode.rotateRight(bn, rotateChildIndex)
  property P07,P10
  let l = elems(bn.children)[rotateChildIndex - 1]
  let r = elems(bn.children)[rotateChildIndex]
  requires up_node(bn) && 1 <= rotateChildIndex && rotateChildIndex < bn.numberOfChildren && up_node(l) && up_node(r) && up_kids(l) && up_apart(l, r) && up_apart(bn, l) && up_apart(bn, r)
  requires r.numberOfValues < len(r.keyValues) && l.numberOfValues >= 1 && (l.numberOfChildren == 0) == (r.numberOfChildren == 0)
  modifies l.numberOfValues, l.numberOfChildren, r.numberOfValues, r.numberOfChildren, elems(bn.keyValues), elems(l.keyValues), elems(r.keyValues), elems(l.children), elems(r.children), locks
  ensures {P07} [counts] l.numberOfValues == old(l.numberOfValues) - 1 && r.numberOfValues == old(r.numberOfValues) + 1 && l.numberOfChildren == (old(l.numberOfChildren) == 0 ? 0 : old(l.numberOfChildren) - 1) && r.numberOfChildren == (old(r.numberOfChildren) == 0 ? 0 : old(r.numberOfChildren) + 1)
  ensures {P07} [left-kept] forall i int {elems(l.keyValues)[i]} :: 0 <= i && i < l.numberOfValues ==> elems(l.keyValues)[i] == old(elems(l.keyValues)[i])
  ensures {P07} [separator-goes-right] elems(r.keyValues)[0] == old(elems(bn.keyValues)[rotateChildIndex - 1])
  ensures {P07} [greatest-of-the-left-separates] elems(bn.keyValues)[rotateChildIndex - 1] == old(elems(l.keyValues)[l.numberOfValues - 1])
  ensures {P07} [other-separators-kept] forall i int {elems(bn.keyValues)[i]} :: 0 <= i && i < len(bn.keyValues) && i != rotateChildIndex - 1 ==> elems(bn.keyValues)[i] == old(elems(bn.keyValues)[i])
  ensures {P07} [right-moves-up] forall i int {elems(r.keyValues)[i]} {old(elems(r.keyValues)[i-1])} :: 1 <= i && i < r.numberOfValues ==> elems(r.keyValues)[i] == old(elems(r.keyValues)[i-1])
  ensures {P07} [left-children-kept] forall i int {elems(l.children)[i]} :: 0 <= i && i < l.numberOfChildren ==> elems(l.children)[i] == old(elems(l.children)[i])
  ensures {P07} [last-child-goes-right] old(r.numberOfChildren) != 0 ==> elems(r.children)[0] == old(elems(l.children)[l.numberOfChildren - 1])
  ensures {P07} [right-children-move-up] forall i int {elems(r.children)[i]} {old(elems(r.children)[i-1])} :: 1 <= i && i < r.numberOfChildren ==> elems(r.children)[i] == old(elems(r.children)[i-1])
  ensures {P10} [locks-given-back] locks_unchanged()

func *threadSafeBNode.splitNode(bn) (parent)
  property P07
  requires up_node(bn) && up_vals(bn) && bn.numberOfValues == len(bn.keyValues) && bn.numberOfChildren == bn.numberOfValues + 1
  let m = (len(bn.keyValues) - 1) / 2
  ensures [parent] parent != nil && isfresh(parent) && parent.numberOfValues == 1 && parent.numberOfChildren == 2 && up_node(parent) && len(parent.keyValues) == len(bn.keyValues)
  ensures [middle] elems(parent.keyValues)[0] != nil && elems(parent.keyValues)[0].key == elems(bn.keyValues)[m].key && elems(parent.keyValues)[0].value == elems(bn.keyValues)[m].value
  ensures [left-part] up_node(elems(parent.children)[0]) && elems(parent.children)[0].numberOfValues == m && elems(parent.children)[0].numberOfChildren == m + 1 && len(elems(parent.children)[0].keyValues) == len(bn.keyValues)
  ensures [left-entries] forall i int {elems(elems(parent.children)[0].keyValues)[i]} {elems(bn.keyValues)[i]} :: 0 <= i && i < m ==> elems(elems(parent.children)[0].keyValues)[i] != nil && elems(elems(parent.children)[0].keyValues)[i].key == elems(bn.keyValues)[i].key && elems(elems(parent.children)[0].keyValues)[i].value == elems(bn.keyValues)[i].value
  ensures [left-children] forall i int {elems(elems(parent.children)[0].children)[i]} {elems(bn.children)[i]} :: 0 <= i && i <= m ==> elems(elems(parent.children)[0].children)[i] == elems(bn.children)[i]
  ensures [right-part] up_node(elems(parent.children)[1]) && elems(parent.children)[1].numberOfValues == bn.numberOfValues - m - 1 && elems(parent.children)[1].numberOfChildren == bn.numberOfValues - m && len(elems(parent.children)[1].keyValues) == len(bn.keyValues)
  ensures [right-entries] forall i int {elems(elems(parent.children)[1].keyValues)[i]} {elems(bn.keyValues)[i+m+1]} :: 0 <= i && i < bn.numberOfValues - m - 1 ==> elems(elems(parent.children)[1].keyValues)[i] != nil && elems(elems(parent.children)[1].keyValues)[i].key == elems(bn.keyValues)[i+m+1].key && elems(elems(parent.children)[1].keyValues)[i].value == elems(bn.keyValues)[i+m+1].value
  ensures [right-children] forall i int {elems(elems(parent.children)[1].children)[i]} {elems(bn.children)[i+m+1]} :: 0 <= i && i < bn.numberOfValues - m ==> elems(elems(parent.children)[1].children)[i] == elems(bn.children)[i+m+1]
  ensures [apart] up_apart(elems(parent.children)[0], elems(parent.children)[1]) && up_apart(parent, elems(parent.children)[0]) && up_apart(parent, elems(parent.children)[1])
  loop 1
    invariant 0 <= index && index <= m && m < len(bn.keyValues) - 1
    invariant parentNode != nil && isfresh(parentNode) && up_node(parentNode) && isfresh(arr(parentNode.children)) && isfresh(arr(parentNode.keyValues)) && len(parentNode.keyValues) == len(bn.keyValues) && parentNode.numberOfValues == 1 && parentNode.numberOfChildren == 2
    invariant up_apart(parentNode, elems(parentNode.children)[0])
    invariant elems(parentNode.keyValues)[0] != nil && elems(parentNode.keyValues)[0].key == elems(bn.keyValues)[m].key && elems(parentNode.keyValues)[0].value == elems(bn.keyValues)[m].value
    invariant elems(parentNode.children)[0] != nil && isfresh(elems(parentNode.children)[0]) && len(elems(parentNode.children)[0].keyValues) == len(bn.keyValues) && cap(elems(parentNode.children)[0].keyValues) == len(bn.keyValues) && len(elems(parentNode.children)[0].children) == len(bn.keyValues) + 1 && off(elems(parentNode.children)[0].keyValues) == 0 && off(elems(parentNode.children)[0].children) == 0 && elems(parentNode.children)[0].lock != nil && isfresh(arr(elems(parentNode.children)[0].keyValues)) && isfresh(arr(elems(parentNode.children)[0].children))
    invariant elems(parentNode.children)[0].numberOfValues == index && elems(parentNode.children)[0].numberOfChildren == index
    invariant forall p int {elems(elems(parentNode.children)[0].keyValues)[p]} {elems(bn.keyValues)[p]} :: 0 <= p && p < index ==> elems(elems(parentNode.children)[0].keyValues)[p] != nil && elems(elems(parentNode.children)[0].keyValues)[p].key == elems(bn.keyValues)[p].key && elems(elems(parentNode.children)[0].keyValues)[p].value == elems(bn.keyValues)[p].value
    invariant forall p int {elems(elems(parentNode.children)[0].children)[p]} {elems(bn.children)[p]} :: 0 <= p && p < index ==> elems(elems(parentNode.children)[0].children)[p] == elems(bn.children)[p]
  loop 2
    invariant m + 1 <= index && index <= len(bn.keyValues)
    invariant parentNode != nil && isfresh(parentNode) && up_node(parentNode) && isfresh(arr(parentNode.children)) && isfresh(arr(parentNode.keyValues)) && len(parentNode.keyValues) == len(bn.keyValues) && parentNode.numberOfValues == 1 && parentNode.numberOfChildren == 2
    invariant up_apart(parentNode, elems(parentNode.children)[0]) && up_apart(parentNode, elems(parentNode.children)[1]) && up_apart(elems(parentNode.children)[0], elems(parentNode.children)[1])
    invariant elems(parentNode.keyValues)[0] != nil && elems(parentNode.keyValues)[0].key == elems(bn.keyValues)[m].key && elems(parentNode.keyValues)[0].value == elems(bn.keyValues)[m].value
    invariant elems(parentNode.children)[0] != nil && isfresh(elems(parentNode.children)[0]) && len(elems(parentNode.children)[0].keyValues) == len(bn.keyValues) && cap(elems(parentNode.children)[0].keyValues) == len(bn.keyValues) && len(elems(parentNode.children)[0].children) == len(bn.keyValues) + 1 && off(elems(parentNode.children)[0].keyValues) == 0 && off(elems(parentNode.children)[0].children) == 0 && elems(parentNode.children)[0].lock != nil && isfresh(arr(elems(parentNode.children)[0].keyValues)) && isfresh(arr(elems(parentNode.children)[0].children))
    invariant elems(parentNode.children)[0].numberOfValues == m && elems(parentNode.children)[0].numberOfChildren == m + 1
    invariant forall p int {elems(elems(parentNode.children)[0].keyValues)[p]} {elems(bn.keyValues)[p]} :: 0 <= p && p < m ==> elems(elems(parentNode.children)[0].keyValues)[p] != nil && elems(elems(parentNode.children)[0].keyValues)[p].key == elems(bn.keyValues)[p].key && elems(elems(parentNode.children)[0].keyValues)[p].value == elems(bn.keyValues)[p].value
    invariant forall p int {elems(elems(parentNode.children)[0].children)[p]} {elems(bn.children)[p]} :: 0 <= p && p < m + 1 ==> elems(elems(parentNode.children)[0].children)[p] == elems(bn.children)[p]
    invariant elems(parentNode.children)[1] != nil && isfresh(elems(parentNode.children)[1]) && len(elems(parentNode.children)[1].keyValues) == len(bn.keyValues) && cap(elems(parentNode.children)[1].keyValues) == len(bn.keyValues) && len(elems(parentNode.children)[1].children) == len(bn.keyValues) + 1 && off(elems(parentNode.children)[1].keyValues) == 0 && off(elems(parentNode.children)[1].children) == 0 && elems(parentNode.children)[1].lock != nil && isfresh(arr(elems(parentNode.children)[1].keyValues)) && isfresh(arr(elems(parentNode.children)[1].children))
    invariant elems(parentNode.children)[1].numberOfValues == index - m - 1 && elems(parentNode.children)[1].numberOfChildren == index - m - 1
    invariant forall p int {elems(elems(parentNode.children)[1].keyValues)[p]} {elems(bn.keyValues)[p+m+1]} :: 0 <= p && p < index - m - 1 ==> elems(elems(parentNode.children)[1].keyValues)[p] != nil && elems(elems(parentNode.children)[1].keyValues)[p].key == elems(bn.keyValues)[p+m+1].key && elems(elems(parentNode.children)[1].keyValues)[p].value == elems(bn.keyValues)[p+m+1].value
    invariant forall p int {elems(elems(parentNode.children)[1].children)[p]} {elems(bn.children)[p+m+1]} :: 0 <= p && p < index - m - 1 ==> elems(elems(parentNode.children)[1].children)[p] == elems(bn.children)[p+m+1]

func *threadSafeBNode.insertNode(bn, node)
  property P07,P10
  option opaque wfEV,evLT,evLess
  let key = elems(node.keyValues)[0].key
  requires up_node(bn) && up_vals(bn) && up_kids(bn) && bn.numberOfChildren == bn.numberOfValues + 1 && bn.numberOfValues < len(bn.keyValues)
  requires up_node(node) && up_vals(node) && up_kids(node) && node.numberOfValues == 1 && node.numberOfChildren == 2 && up_apart(bn, node)
  requires [only-the-greatest-key-is-any] forall i int {elems(bn.keyValues)[i]} :: 0 <= i && i < bn.numberOfValues ==> evLess(key, elems(bn.keyValues)[i].key) == evLT(key, elems(bn.keyValues)[i].key)
  requires up_around(bn, key) && up_absent(bn, key)
  modifies bn.numberOfValues, bn.numberOfChildren, elems(bn.keyValues), elems(bn.children), locks
  ensures {P07} [one-more] bn.numberOfValues == old(bn.numberOfValues) + 1 && bn.numberOfChildren == old(bn.numberOfChildren) + 1
  ensures {P07} [lower-entries-stay] forall i int {elems(bn.keyValues)[i]} {old(elems(bn.keyValues)[i])} :: 0 <= i && i < old(bn.numberOfValues) && !evLT(key, old(elems(bn.keyValues)[i].key)) ==> elems(bn.keyValues)[i] == old(elems(bn.keyValues)[i]) && elems(bn.children)[i] == old(elems(bn.children)[i])
  ensures {P07} [greater-entries-move-up] forall i int {old(elems(bn.keyValues)[i])} :: 0 <= i && i < old(bn.numberOfValues) && evLT(key, old(elems(bn.keyValues)[i].key)) ==> elems(bn.keyValues)[i+1] == old(elems(bn.keyValues)[i]) && elems(bn.children)[i+2] == old(elems(bn.children)[i+1])
  ensures {P07} [new-entry-between] forall i int {elems(bn.keyValues)[i]} :: 0 <= i && i <= old(bn.numberOfValues) && (i == 0 || !evLT(key, old(elems(bn.keyValues)[i-1].key))) && (i == old(bn.numberOfValues) || evLT(key, old(elems(bn.keyValues)[i].key))) ==>
    elems(bn.keyValues)[i] == elems(node.keyValues)[0] && elems(bn.children)[i] == elems(node.children)[0] && elems(bn.children)[i+1] == elems(node.children)[1]
  ensures {P10} [locks-given-back] locks_unchanged()
  loop 1
    invariant [below] 0 <= index && index <= bn.numberOfValues && (forall i int {elems(bn.keyValues)[i]} :: 0 <= i && i < index ==> !evLT(key, elems(bn.keyValues)[i].key))
  loop 2
    invariant [range] index <= i && i <= bn.numberOfValues && 0 <= index
    invariant [moved] forall p int {elems(bn.keyValues)[p]} {old(elems(bn.keyValues)[p-1])} :: i < p && p <= bn.numberOfValues ==> elems(bn.keyValues)[p] == old(elems(bn.keyValues)[p-1])
    invariant [kept] forall p int {elems(bn.keyValues)[p]} :: 0 <= p && p <= i && p < bn.numberOfValues ==> elems(bn.keyValues)[p] == old(elems(bn.keyValues)[p])
  loop 3
    invariant [range] index <= i && i <= bn.numberOfChildren && 0 <= index
    invariant [locks] locks_unchanged()
    invariant [moved] forall p int {elems(bn.children)[p]} {old(elems(bn.children)[p-1])} :: i < p && p <= bn.numberOfChildren ==> elems(bn.children)[p] == old(elems(bn.children)[p-1])
    invariant [kept] forall p int {elems(bn.children)[p]} :: 0 <= p && p <= i && p < bn.numberOfChildren ==> elems(bn.children)[p] == old(elems(bn.children)[p])

define up_pair(bn *threadSafeBNode, l *threadSafeBNode, r *threadSafeBNode) bool = up_node(l) && up_node(r) && up_kids(l) && up_kids(r) && up_apart(l, r) && up_apart(bn, l) && up_apart(bn, r) && (l.numberOfChildren == 0) == (r.numberOfChildren == 0) &&
  l.numberOfValues < len(l.keyValues) && r.numberOfValues < len(r.keyValues)
define up_left(childIndex int) int = childIndex == 0 ? 0 : childIndex - 1

func *threadSafeBNode.mergeDown(bn, childIndex)
  property P07,P10
  let k = up_left(childIndex)
  let l = elems(bn.children)[k]
  let r = elems(bn.children)[k + 1]
  requires up_node(bn) && up_kids(bn) && 0 <= childIndex && childIndex < bn.numberOfChildren && bn.numberOfValues >= 1 && bn.numberOfValues < len(bn.keyValues) && elems(bn.children)[bn.numberOfChildren] == nil
  requires up_pair(bn, l, r) && l.numberOfValues + r.numberOfValues + 1 <= len(l.keyValues)
  modifies bn.numberOfValues, bn.numberOfChildren, elems(bn.keyValues), elems(bn.children), l.numberOfValues, l.numberOfChildren, elems(l.keyValues), elems(l.children), locks
  ensures {P07} [counts] bn.numberOfValues == old(bn.numberOfValues) - 1 && bn.numberOfChildren == old(bn.numberOfChildren) - 1 && l.numberOfValues == old(l.numberOfValues) + 1 + old(r.numberOfValues) && l.numberOfChildren == old(l.numberOfChildren) + old(r.numberOfChildren)
  ensures {P07} [left-kept] forall i int {elems(l.keyValues)[i]} :: 0 <= i && i < old(l.numberOfValues) ==> elems(l.keyValues)[i] == old(elems(l.keyValues)[i])
  ensures {P07} [separator-goes-down] elems(l.keyValues)[old(l.numberOfValues)] == old(elems(bn.keyValues)[k])
  ensures {P07} [right-joined] forall i int {old(elems(r.keyValues)[i])} :: 0 <= i && i < old(r.numberOfValues) ==> elems(l.keyValues)[old(l.numberOfValues) + 1 + i] == old(elems(r.keyValues)[i])
  ensures {P07} [left-children-kept] forall i int {elems(l.children)[i]} :: 0 <= i && i < old(l.numberOfChildren) ==> elems(l.children)[i] == old(elems(l.children)[i])
  ensures {P07} [right-children-joined] forall i int {old(elems(r.children)[i])} :: 0 <= i && i < old(r.numberOfChildren) ==> elems(l.children)[old(l.numberOfChildren) + i] == old(elems(r.children)[i])
  ensures {P07} [lower-separators-kept] (forall i int {elems(bn.keyValues)[i]} :: 0 <= i && i < k ==> elems(bn.keyValues)[i] == old(elems(bn.keyValues)[i])) && (forall i int {elems(bn.children)[i]} :: 0 <= i && i <= k ==> elems(bn.children)[i] == old(elems(bn.children)[i]))
  ensures {P07} [greater-separators-move-down] (forall i int {elems(bn.keyValues)[i]} {old(elems(bn.keyValues)[i+1])} :: k <= i && i < bn.numberOfValues ==> elems(bn.keyValues)[i] == old(elems(bn.keyValues)[i+1])) &&
    (forall i int {elems(bn.children)[i]} {old(elems(bn.children)[i+1])} :: k < i && i < bn.numberOfChildren ==> elems(bn.children)[i] == old(elems(bn.children)[i+1]))
  ensures {P07} [last-slot-empty] elems(bn.children)[bn.numberOfChildren] == nil
  ensures {P10} [locks-given-back] locks_unchanged()
  loop 1
    invariant 0 <= index && index <= r.numberOfValues && l.numberOfValues == old(l.numberOfValues) + 1 && locks_unchanged()
    invariant forall i int {elems(l.keyValues)[i]} :: 0 <= i && i < old(l.numberOfValues) ==> elems(l.keyValues)[i] == old(elems(l.keyValues)[i])
    invariant elems(l.keyValues)[old(l.numberOfValues)] == old(elems(bn.keyValues)[k])
    invariant forall i int {old(elems(r.keyValues)[i])} :: 0 <= i && i < index ==> elems(l.keyValues)[l.numberOfValues + i] == old(elems(r.keyValues)[i])
    invariant forall i int {elems(l.children)[i]} :: 0 <= i && i < old(l.numberOfChildren) ==> elems(l.children)[i] == old(elems(l.children)[i])
    invariant forall i int {old(elems(r.children)[i])} :: 0 <= i && i < index && r.numberOfChildren != 0 ==> elems(l.children)[l.numberOfChildren + i] == old(elems(r.children)[i])
  loop 2
    invariant k <= index && index <= bn.numberOfValues
    invariant forall i int {elems(bn.keyValues)[i]} {old(elems(bn.keyValues)[i+1])} :: k <= i && i < index ==> elems(bn.keyValues)[i] == old(elems(bn.keyValues)[i+1])
    invariant forall i int {elems(bn.keyValues)[i]} :: 0 <= i && i < len(bn.keyValues) && (i < k || index <= i) ==> elems(bn.keyValues)[i] == old(elems(bn.keyValues)[i])
  loop 3
    invariant k < clearChildIndex && clearChildIndex <= bn.numberOfChildren && locks_unchanged()
    invariant forall i int {elems(bn.children)[i]} {old(elems(bn.children)[i+1])} :: k < i && i < clearChildIndex ==> elems(bn.children)[i] == old(elems(bn.children)[i+1])
    invariant forall i int {elems(bn.children)[i]} :: 0 <= i && i < len(bn.children) && (i <= k || clearChildIndex <= i) ==> elems(bn.children)[i] == old(elems(bn.children)[i])

define up_min(n *threadSafeBNode) int = (cap(n.keyValues) + 1) / 2 - 1
func *threadSafeBNode.rebalance(bn, releaseParentLock, childIndex) (under)
  property P07,P10
  let c = elems(bn.children)[childIndex]
  let l = elems(bn.children)[childIndex - 1]
  let r = elems(bn.children)[childIndex + 1]
  let hasLeft = childIndex > 0
  let hasRight = childIndex < bn.numberOfValues
  requires up_node(bn) && up_kids(bn) && 0 <= childIndex && childIndex < bn.numberOfChildren && bn.numberOfValues >= 1 && bn.numberOfValues < len(bn.keyValues) && elems(bn.children)[bn.numberOfChildren] == nil && releaseParentLock != nil
  requires hasLeft ==> up_pair(bn, l, c) && len(l.keyValues) == len(bn.keyValues) && l.numberOfValues >= up_min(bn)
  requires hasRight ==> up_pair(bn, c, r) && len(r.keyValues) == len(bn.keyValues) && r.numberOfValues >= up_min(bn)
  requires hasLeft && hasRight ==> up_apart(l, r)
  requires len(c.keyValues) == len(bn.keyValues) && c.numberOfValues == up_min(bn) - 1
  calls releaseParentLock() maybe
  modifies all threadSafeBNode.numberOfValues, all threadSafeBNode.numberOfChildren, all elems *keyValue, all elems *threadSafeBNode, locks
  ensures {P07} [says-whether-too-small] under ==> bn.numberOfValues < up_min(bn)
  ensures {P07} [moves-when-a-neighbour-can-spare-one] (hasLeft && old(l.numberOfValues) > up_min(bn)) || (hasRight && old(r.numberOfValues) > up_min(bn)) ==>
    bn.numberOfValues == old(bn.numberOfValues) && !under && c.numberOfValues == old(c.numberOfValues) + 1
  ensures {P07} [merges-otherwise] !(hasLeft && old(l.numberOfValues) > up_min(bn)) && !(hasRight && old(r.numberOfValues) > up_min(bn)) ==>
    bn.numberOfValues == old(bn.numberOfValues) - 1 && under == (bn.numberOfValues < up_min(bn)) && !called_releaseParentLock
  ensures {P10} [locks-given-back] locks_unchanged()
