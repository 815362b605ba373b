# The one-to-many index: every operation works on the relation it names and on nothing else.
package internal/datastructures/btree
import datatypes pkg/models/datatypes
import otm internal/datastructures/btree_one_to_many
# the relation an operation names (each function below is checked for every value of it), the relations
# there are, the ones another request is destroying, and the index of the items of the named relation
ghost on_one string
ghost on_ops int
ghost on_has bool
ghost on_dying bool
ghost on_node any
define onKey(key datatypes.EncapsulatedValue) bool = skOK(key) && sk(key) == on_one
define onNode(v any) bool = v != nil && is(v, *otm.threadsafeValuesNode) && as(v, *otm.threadsafeValuesNode) != nil && as(v, *otm.threadsafeValuesNode).associaedTree != nil
define onTree() any = as(on_node, *otm.threadsafeValuesNode).associaedTree
func BTree.CreateOrFind(t, key, onCreate, onFind) (err) for internal/datastructures/btree_one_to_many
  requires [the-relation-named] onKey(key) && onCreate != nil && onFind != nil
  calls onCreate() once if !on_has && !on_dying
    yields [a-relation] onNode(ret)
  calls onFind(v any) once if on_has && !on_dying
    where v == on_node && onNode(v)
  set on_ops = on_ops + 1
  set on_has = on_has || called_onCreate
  set on_node = ret_onCreate when called_onCreate
  ensures err == (on_dying ? ErrorKeyDestroying : nil)
func BTree.Find(t, key, tr, callback) (err) for internal/datastructures/btree_one_to_many
  requires [the-relation-named] onKey(key) && tr.MinDataType <= datatypes.T_string && datatypes.T_string <= tr.MaxDataType && tr.MaxDataType < datatypes.T_any && callback != nil
  calls callback(k, v) once if on_has && !on_dying
    where k == key && v == on_node && onNode(v)
  set on_ops = on_ops + 1
  ensures err == (on_dying ? ErrorKeyDestroying : nil)
func BTree.Destroy(t, key, canDelete) (err) for internal/datastructures/btree_one_to_many
  requires [the-relation-named] onKey(key)
  calls canDelete(k, v) once if on_has && !on_dying
    where k == key && v == on_node && onNode(v)
  set on_ops = on_ops + 1
  set on_has = on_has && !(called_canDelete && ret_canDelete)
  ensures err == (on_dying ? ErrorKeyDestroying : nil)

package internal/datastructures/btree_associated
import qa pkg/models/api/common/v1/query_associated_action
import qm pkg/models/api/common/v1/query_match_action
import datatypes pkg/models/datatypes
import otm internal/datastructures/btree_one_to_many
# the one operation done on the items: on which index, what was asked, which entries were passed on
ghost oa_ops int
ghost oa_op string
ghost oa_tree any
ghost oa_id string
ghost oa_err error
ghost oa_seen set[any]
ghost oa_count int
ghost oa_stopped bool
ghost oa_made any
ghost oa_new bool
ghost oa_found bool
ghost oa_removed bool
# the entry an item is kept in: an item is kept in one entry
declare oaEntry(v any) any
axiom [one-entry-per-item] forall a any {akvValue(a)} :: oaEntry(akvValue(a)) == a
declare oaFiled(v any, kvs map[string]datatypes.EncapsulatedValue) bool
declare oaNamed(v any, id string) bool
declare oaSelected(v any, q *qa.AssociatedActionQuery) bool
declare oaMatched(v any, m *qm.MatchActionQuery) bool
define oaItem(v any) bool = v != nil && is(v, *otm.oneToManyItem) && as(v, *otm.oneToManyItem) != nil && as(v, *otm.oneToManyItem).oneID == on_one
define oaKept(v any) bool = oaEntry(v) != nil && akvValue(oaEntry(v)) == v
func BTreeAssociated.CreateOrFind(t, kvs, onCreate, onFind) (id, err) for internal/datastructures/btree_one_to_many
  requires [keys] anyKVs(kvs) && onCreate != nil && onFind != nil
  calls onCreate() maybe
    yields [an-item-of-this-relation] ret == nil || oaItem(ret)
  calls onFind(a AssociatedKeyValues) maybe if !called_onCreate
    where a != nil && oaItem(akvValue(a)) && oaFiled(akvValue(a), kvs)
  set oa_ops = oa_ops + 1
  set oa_op = "CreateOrFind"
  set oa_tree = t
  set oa_id = id
  set oa_err = err
  set oa_made = ret_onCreate
  set oa_new = called_onCreate
  set oa_found = called_onFind
  ensures err == nil || err == ErrorTreeItemDestroying || err == ErrorKeyValuesAlreadyExists || err == ErrorAssociatedIDAlreadyExists
  ensures (err == nil) == (called_onCreate || called_onFind)
  ensures err == nil ==> id != ""
func BTreeAssociated.Delete(t, kvs, canDelete) (err) for internal/datastructures/btree_one_to_many
  requires [keys] anyKVs(kvs)
  calls canDelete(a AssociatedKeyValues) maybe
    where a != nil && oaItem(akvValue(a)) && oaFiled(akvValue(a), kvs)
  set oa_ops = oa_ops + 1
  set oa_op = "Delete"
  set oa_tree = t
  set oa_new = called_canDelete
  set oa_removed = called_canDelete && ret_canDelete
  set oa_err = err
  ensures err == nil || err == ErrorTreeItemDestroying
  ensures called_canDelete ==> err == nil
func BTreeAssociated.DestroyByAssociatedID(t, id, canDelete) (err) for internal/datastructures/btree_one_to_many
  requires [named] id != ""
  calls canDelete(a AssociatedKeyValues) maybe
    where a != nil && oaItem(akvValue(a)) && oaNamed(akvValue(a), id)
  set oa_ops = oa_ops + 1
  set oa_op = "DestroyByAssociatedID"
  set oa_tree = t
  set oa_new = called_canDelete
  set oa_removed = called_canDelete && ret_canDelete
  set oa_err = err
  ensures err == nil || err == ErrorTreeItemDestroying
  ensures called_canDelete ==> err == nil
func BTreeAssociated.DestroyTree(t, canDelete) (err) for internal/datastructures/btree_one_to_many
  calls canDelete(a AssociatedKeyValues) many all stop
    where a != nil && oaItem(akvValue(a))
  set oa_ops = oa_ops + 1
  set oa_op = "DestroyTree"
  set oa_tree = t
  set oa_seen = called_canDelete
  set oa_stopped = stopped_canDelete
  ensures err == nil
func BTreeAssociated.QueryAction(t, query, onIterate) (err) for internal/datastructures/btree_one_to_many
  requires [a-query] query != nil && qvalid(query)
  calls onIterate(a AssociatedKeyValues) many all stop
    where a != nil && oaItem(akvValue(a)) && oaSelected(akvValue(a), query)
  set oa_ops = oa_ops + 1
  set oa_op = "QueryAction"
  set oa_tree = t
  set oa_seen = called_onIterate
  set oa_stopped = stopped_onIterate
  ensures err == nil
func BTreeAssociated.MatchAction(t, match, onIterate) (err) for internal/datastructures/btree_one_to_many
  requires [a-match] match != nil && matchOK(match)
  calls onIterate(a AssociatedKeyValues) many all stop
    where a != nil && oaItem(akvValue(a)) && oaMatched(akvValue(a), match)
  set oa_ops = oa_ops + 1
  set oa_op = "MatchAction"
  set oa_tree = t
  set oa_seen = called_onIterate
  set oa_stopped = stopped_onIterate
  ensures err == nil

package internal/datastructures/btree_one_to_many
import qa pkg/models/api/common/v1/query_associated_action
import qm pkg/models/api/common/v1/query_match_action
import datatypes pkg/models/datatypes
import btree internal/datastructures/btree
import assoc internal/datastructures/btree_associated
define oneDone(name string) bool = on_ops == old(on_ops) + 1 && oa_ops == old(oa_ops) + 1 && oa_op == name && oa_tree == onTree()
define oneNothing() bool = oa_ops == old(oa_ops) && on_has == old(on_has)
func hasResevedKeys(keyValues) (r)
  property P22
  ensures [exact] r == ("_associated_id" in keyValues)
  loop 1
    invariant forall k string {$seen[k]} :: $seen[k] ==> k != "_associated_id"
func *oneToManyItem.Value(a) (v)
  property P22
  ensures [the-value] v == a.value
func *oneToManyItem.OneID(a) (v)
  property P22
  ensures [the-relation] v == a.oneID
func *oneToManyItem.ManyID(a) (v)
  property P22
  ensures [the-identifier] v == a.manyID
func *oneToManyItem.ManyKeyValues(a) (m)
  property P22
  requires a.manyKeyValues != nil
  ensures [a-copy] m != nil && isfresh(m)
  ensures [the-key-values] forall k string {k in m} {k in a.manyKeyValues} :: (k in m) == (k in a.manyKeyValues) && (k in m ==> m[k] == a.manyKeyValues[k])
  loop 1
    local newKeyValues datatypes.KeyValues
    invariant newKeyValues != nil && isfresh(newKeyValues)
    invariant forall k string {k in newKeyValues} {$seen[k]} :: (k in newKeyValues) == $seen[k] && ($seen[k] ==> k in a.manyKeyValues && newKeyValues[k] == a.manyKeyValues[k])
func newThreadsafeValuesNode() (n)
  property P22
  ensures [empty-relation] n != nil && isfresh(n) && n.associaedTree != nil
func *threadsafeOneToManyTree.QueryAction(tree, oneID, query, onIterate) (err)
  property P22
  requires tree.oneKeys != nil && on_one == oneID && query != nil
  requires [definition-unfold] unfold(query)
  requires [definition-qvalid] forall x *qa.AssociatedActionQuery {unfold(x)} :: unfold(x) ==> qvalidEq(x)
  let ok = oneID != "" && qvalid(query) && onIterate != nil && !on_dying
  let done = ok && on_has
  calls onIterate(a OneToManyItem) many all stop if done
    where [asked-for] oaItem(a) && oaKept(a) && oaSelected(a, query)
  modifies ghosts
  ensures [answers] (err == nil) == ok
  ensures [that-relation] done ==> oneDone("QueryAction") && (forall a any {a in called_onIterate} :: (a in called_onIterate) == (oaEntry(a) in oa_seen && oaKept(a))) && stopped_onIterate == oa_stopped
  ensures [nothing-else] !done ==> oneNothing()
  loop 1
    invariant [passed-on] !stopped_onIterate && (forall a any {a in called_onIterate} {oaEntry(a)} :: (a in called_onIterate) == ($seen[oaEntry(a)] && oaKept(a)))

func *threadsafeOneToManyTree.MatchAction(tree, oneID, match, onIterate) (err)
  property P22
  requires tree.oneKeys != nil && on_one == oneID && match != nil
  let ok = oneID != "" && matchOK(match) && onIterate != nil && !on_dying
  let done = ok && on_has
  calls onIterate(a OneToManyItem) many all stop if done
    where [asked-for] oaItem(a) && oaKept(a) && oaMatched(a, match)
  modifies ghosts
  ensures [answers] (err == nil) == ok
  ensures [that-relation] done ==> oneDone("MatchAction") && (forall a any {a in called_onIterate} :: (a in called_onIterate) == (oaEntry(a) in oa_seen && oaKept(a))) && stopped_onIterate == oa_stopped
  ensures [nothing-else] !done ==> oneNothing()
  loop 1
    invariant [passed-on] !stopped_onIterate && (forall a any {a in called_onIterate} {oaEntry(a)} :: (a in called_onIterate) == ($seen[oaEntry(a)] && oaKept(a)))

func *threadsafeOneToManyTree.DestroyOne(tree, oneID, canDelete) (err)
  property P22
  requires tree.oneKeys != nil && on_one == oneID
  let ok = oneID != "" && !on_dying
  let done = ok && on_has
  calls canDelete(a OneToManyItem) many all stop if done && canDelete != nil
    where [of-that-relation] oaItem(a) && oaKept(a)
  modifies ghosts
  ensures [answers] (err == nil) == ok
  ensures [that-relation] done ==> on_ops == old(on_ops) + 1 && oa_ops == old(oa_ops) + 1 && oa_op == "DestroyTree" && oa_tree == onTree()
  ensures [gone-only-when-all-agreed] done ==> on_has == (canDelete != nil && stopped_canDelete)
  ensures [nothing-else] !done ==> oneNothing()
  loop 1
    local deleted bool
    invariant [passed-on] (canDelete != nil ==> !stopped_canDelete && (forall a any {a in called_canDelete} {oaEntry(a)} :: (a in called_canDelete) == ($seen[oaEntry(a)] && oaKept(a)))) && deleted

func *threadsafeOneToManyTree.DeleteOneOfManyByKeyValues(tree, oneID, kvs, canDelete) (err)
  property P22
  requires tree.oneKeys != nil && on_one == oneID
  let ok = oneID != "" && anyKVs(kvs) && !on_dying
  let done = ok && on_has
  calls canDelete(a OneToManyItem) maybe if done && canDelete != nil
    where [the-one-named] oaItem(a) && oaFiled(a, kvs)
  modifies ghosts
  ensures [refused] !ok ==> err != nil && oneNothing()
  ensures [no-relation] ok && !on_has ==> err == nil && oneNothing()
  ensures [that-relation] done ==> oneDone("Delete") && on_has && err == (oa_err == nil ? nil : ErrorManyKeyValuesDestroying)
  ensures [as-answered] done && canDelete != nil ==> called_canDelete == oa_new && (oa_removed == (called_canDelete && ret_canDelete))
  ensures [unasked] done && canDelete == nil ==> oa_removed == oa_new

func *threadsafeOneToManyTree.DestroyOneOfManyByID(tree, oneID, manyID, canDelete) (err)
  property P22
  requires tree.oneKeys != nil && on_one == oneID
  let ok = oneID != "" && manyID != "" && !on_dying
  let done = ok && on_has
  calls canDelete(a OneToManyItem) maybe if done && canDelete != nil
    where [the-one-named] oaItem(a) && oaNamed(a, manyID)
  modifies ghosts
  ensures [refused] !ok ==> err != nil && oneNothing()
  ensures [no-relation] ok && !on_has ==> err == nil && oneNothing()
  ensures [that-relation] done ==> oneDone("DestroyByAssociatedID") && on_has && err == (oa_err == nil ? nil : ErrorManyIDDestroying)
  ensures [as-answered] done && canDelete != nil ==> called_canDelete == oa_new && (oa_removed == (called_canDelete && ret_canDelete))
  ensures [unasked] done && canDelete == nil ==> oa_removed == oa_new

func *threadsafeOneToManyTree.CreateOrFind(otm, oneID, kvs, onCreate, onFind) (id, err)
  property P22
  requires otm.oneKeys != nil && on_one == oneID
  let ok = oneID != "" && anyKVs(kvs) && !("_associated_id" in kvs) && onCreate != nil && onFind != nil && !on_dying
  calls onCreate() maybe if ok
  calls onFind(a OneToManyItem) maybe if ok
    where [the-one-asked-for] oaItem(a) && oaFiled(a, kvs)
  modifies ghosts
  ensures [refused] !ok ==> err != nil && id == "" && oneNothing()
  ensures [that-relation] ok ==> on_ops == old(on_ops) + 1 && oa_ops == old(oa_ops) + 1 && oa_op == "CreateOrFind" && oa_tree == onTree() && on_has
  ensures [once-each] ok ==> !(called_onCreate && called_onFind) && called_onCreate == oa_new && called_onFind == oa_found
  ensures [answers] ok ==> id == oa_id && (err == nil) == (oa_err == nil) && (oa_err == assoc.ErrorTreeItemDestroying ==> err == ErrorManyIDDestroying)
  ensures [filed-under-that-relation] called_onCreate && ret_onCreate != nil ==> oaItem(oa_made) && as(oa_made, *oneToManyItem).value == ret_onCreate && as(oa_made, *oneToManyItem).manyID == id && (forall k string {k in kvs} :: (k in kvs) == (k in as(oa_made, *oneToManyItem).manyKeyValues) && (k in kvs ==> as(oa_made, *oneToManyItem).manyKeyValues[k] == kvs[k]))
  ensures [keys-kept-apart] called_onCreate && ret_onCreate != nil ==> isfresh(as(oa_made, *oneToManyItem).manyKeyValues)
  ensures [given-up] called_onCreate && ret_onCreate == nil ==> oa_made == nil
  loop 1
    local itemKeyValues datatypes.KeyValues
    invariant itemKeyValues != nil && isfresh(itemKeyValues)
    invariant forall k string {k in itemKeyValues} {$seen[k]} :: (k in itemKeyValues) == $seen[k] && ($seen[k] ==> k in kvs && itemKeyValues[k] == kvs[k])
