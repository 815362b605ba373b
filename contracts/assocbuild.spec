# The parts of the associated index itself that do not depend on how its trees are built.
package internal/datastructures/btree_associated
import datatypes pkg/models/datatypes

func *associatedKeyValues.Value(a) (v)
  property P09
  requires a != nil
  ensures [what-was-stored] v == a.value

func *associatedKeyValues.AssociatedID(a) (id)
  property P09
  requires a != nil
  ensures [its-identifier] id == a.associatedID

func *associatedKeyValues.KeyValues(a) (m)
  property P09
  requires a != nil
  ensures [a-copy] m != nil && isfresh(m)
  ensures [every-key-value] forall k string {k in m} {k in a.keyValues} :: (k in m) == (k in a.keyValues)
  ensures [unchanged-values] forall k string {m[k]} :: k in m ==> m[k] == a.keyValues[k]
  loop 1
    invariant newKeyValues != nil && isfresh(newKeyValues)
    invariant forall k string {k in newKeyValues} :: (k in newKeyValues) == $seen[k]
    invariant forall k string {newKeyValues[k]} :: k in newKeyValues ==> newKeyValues[k] == a.keyValues[k]

func newIDNode() (n)
  property P09
  ensures [an-empty-node] n != nil && isfresh(n) && n.lock != nil && isfresh(n.lock) && n.creating != nil && isfresh(n.creating) && load(n.creating) == 0 && len(n.ids) == 0

define ab_node(item any) bool = is(item, *threadsafeIDNode) && as(item, *threadsafeIDNode) != nil && as(item, *threadsafeIDNode).lock != nil && as(item, *threadsafeIDNode).creating != nil && load(as(item, *threadsafeIDNode).creating) < 4611686018427387904
define ab_collected(l []*threadsafeIDNode, was []*threadsafeIDNode, n *threadsafeIDNode) bool = len(l) == len(was) + 1 && l[len(l) - 1] == n
func findValue(idNodes) (f)
  property P09,P10
  requires idNodes != nil
  ensures f != nil
  returned f(item any)
    where ab_node(item)
    yields {P09} [noted-as-being-filled] load(as(item, *threadsafeIDNode).creating) == old(load(as(item, *threadsafeIDNode).creating)) + 1
    yields {P09} [collected-once] len(*idNodes) == old(len(*idNodes)) + 1 && (*idNodes)[len(*idNodes) - 1] == as(item, *threadsafeIDNode)
    yields {P09} [others-kept] forall i int :: 0 <= i && i < old(len(*idNodes)) ==> (*idNodes)[i] == old((*idNodes)[i])
    yields {P10} [lock-given-back] locks_unchanged()

func createValue(idNodes) (f)
  option inline findValue
  property P09,P10
  requires idNodes != nil
  ensures f != nil
  returned f()
    yields {P09} [a-node] is(ret, *threadsafeIDNode) && as(ret, *threadsafeIDNode) != nil && len(as(ret, *threadsafeIDNode).ids) == 0
    yields {P09} [noted-as-being-filled] load(as(ret, *threadsafeIDNode).creating) == 1
    yields {P09} [collected-once] len(*idNodes) == old(len(*idNodes)) + 1 && (*idNodes)[len(*idNodes) - 1] == as(ret, *threadsafeIDNode)
    yields {P09} [others-kept] forall i int :: 0 <= i && i < old(len(*idNodes)) ==> (*idNodes)[i] == old((*idNodes)[i])
    yields {P10} [lock-given-back] locks_unchanged()
