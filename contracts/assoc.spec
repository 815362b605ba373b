# The associated index as its callers see it.
package internal/datastructures/btree_associated
import qa pkg/models/api/common/v1/query_associated_action
import qm pkg/models/api/common/v1/query_match_action
import datatypes pkg/models/datatypes
declare stored(t any, v any) bool
declare akvValue(a any) any
declare akvID(a any) string
declare akvHas(a any, k string) bool
declare typedKeys(a any) bool
declare typedTree(t any) bool
declare matches(t any, m *qm.MatchActionQuery, a any) bool
declare selects(t any, q *qa.AssociatedActionQuery, a any) bool
axiom {assoc,rules} [one-item-per-identifier] forall a any, b any {akvID(a), akvID(b)} :: akvID(a) == akvID(b) ==> a == b
ghost ix_query *qa.AssociatedActionQuery
ghost ix_match *qm.MatchActionQuery
ghost ix_stopped bool
declare filedUnder(a any, kvs map[string]datatypes.EncapsulatedValue) bool
# what the last operation on the index was asked and gave to its callbacks
ghost ix_ops int
ghost ix_op string
ghost ix_kvs map[string]datatypes.EncapsulatedValue
ghost ix_id string
ghost ix_calls int
ghost ix_removed bool
ghost ix_err error
# an identifier is given to one item only, ever: what it stands for does not change
declare storedAs(t any, id string) any
define soleID(q *qa.AssociatedActionQuery) bool = q.Selection != nil && len(q.Selection.IDs) == 1 && len(q.And) == 0 && len(q.Or) == 0
define plainQuery(q *qa.AssociatedActionQuery) bool = q.Selection != nil && len(q.And) == 0 && len(q.Or) == 0
func AssociatedKeyValues.Value(a) (v)
  ensures v == akvValue(a)
func AssociatedKeyValues.AssociatedID(a) (id)
  ensures id == akvID(a) && id != ""
func AssociatedKeyValues.KeyValues(a) (m)
  ensures m != nil && isfresh(m) && anyKVs(m) && (typedKeys(a) ==> typedKVs(m))
  ensures forall k string {k in m} :: k in m ==> akvHas(a, k)
  ensures forall k string {akvHas(a, k)} :: akvHas(a, k) ==> k in m
func BTreeAssociated.CreateOrFind(t, kvs, onCreate, onFind) (id, err)
  calls onCreate() maybe
    yields [result-belongs-to-the-index] ret == nil || stored(t, ret)
  calls onFind(a AssociatedKeyValues) maybe if !called_onCreate
    where a != nil && stored(t, akvValue(a)) && filedUnder(a, kvs) && (typedTree(t) ==> typedKeys(a))
  set ix_ops = ix_ops + 1
  set ix_op = "CreateOrFind"
  set ix_kvs = kvs
  set ix_id = id
  ensures err != nil ==> !called_onCreate && !called_onFind
  ensures err == nil ==> called_onCreate || called_onFind
  ensures err == nil ==> id != ""
func BTreeAssociated.Delete(t, kvs, canDelete) (err)
  calls canDelete(a AssociatedKeyValues) maybe
    where a != nil && stored(t, akvValue(a)) && filedUnder(a, kvs) && (typedTree(t) ==> typedKeys(a))
  set ix_ops = ix_ops + 1
  set ix_op = "Delete"
  set ix_kvs = kvs
  set ix_calls = called_canDelete ? 1 : 0
  set ix_removed = called_canDelete && ret_canDelete
func BTreeAssociated.DeleteByAssociatedID(t, id, canDelete) (err)
  calls canDelete(a AssociatedKeyValues) maybe
    where a != nil && stored(t, akvValue(a)) && akvID(a) == id && akvValue(a) == storedAs(t, id)
  set ix_ops = ix_ops + 1
  set ix_op = "DeleteByAssociatedID"
  set ix_id = id
  set ix_calls = called_canDelete ? 1 : 0
  set ix_removed = called_canDelete && ret_canDelete
func BTreeAssociated.QueryAction(t, query, onIterate) (err)
  requires [a-query] query != nil && (qvalid(query) || plainQuery(query) && selValid(query.Selection))
  calls onIterate(a AssociatedKeyValues) many all stop
    where a != nil && stored(t, akvValue(a)) && (typedTree(t) ==> typedKeys(a)) && (soleID(query) ==> akvID(a) == query.Selection.IDs[0]) && selects(t, query, a) && akvValue(a) == storedAs(t, akvID(a))
  set ix_ops = ix_ops + 1
  set ix_query = query
  set ix_stopped = stopped_onIterate
  set ix_op = "QueryAction"
  set ix_calls = count_onIterate
  ensures err == nil
func BTreeAssociated.MatchAction(t, match, onIterate) (err)
  requires [a-match] match != nil && matchOK(match)
  calls onIterate(a AssociatedKeyValues) many all stop
    where a != nil && stored(t, akvValue(a)) && akvValue(a) == storedAs(t, akvID(a)) && (typedTree(t) ==> typedKeys(a)) && matches(t, match, a) && (forall k string {akvHas(a, k)} :: akvHas(a, k) ==> k in match.KeyValues)
  set ix_ops = ix_ops + 1
  set ix_op = "MatchAction"
  set ix_calls = count_onIterate
  set ix_match = match
  set ix_stopped = stopped_onIterate
  ensures err == nil
func BTreeAssociated.Create(t, kvs, onCreate) (id, err)
  calls onCreate() maybe
    yields [result-belongs-to-the-index] ret == nil || stored(t, ret)
  set ix_ops = ix_ops + 1
  set ix_op = "Create"
  set ix_kvs = kvs
  set ix_id = id
  set ix_err = err
  ensures (err == nil) == called_onCreate
  ensures err == nil ==> id != ""
func BTreeAssociated.DestroyByAssociatedID(t, id, canDelete) (err)
  calls canDelete(a AssociatedKeyValues) maybe
    where a != nil && stored(t, akvValue(a)) && akvID(a) == id && akvValue(a) == storedAs(t, id)
  set ix_ops = ix_ops + 1
  set ix_op = "DestroyByAssociatedID"
  set ix_id = id
  set ix_err = err
  set ix_calls = called_canDelete ? 1 : 0
  set ix_removed = called_canDelete && ret_canDelete
  ensures err != nil ==> !called_canDelete
