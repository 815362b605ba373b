# Queries over key values: what is a valid query, and what it matches.
package pkg/models/api/common/v1
import errors pkg/models/api/common/errors
import datatypes pkg/models/datatypes

define typeKnown(t datatypes.DataType) bool = general(t) || t == datatypes.T_any
define trValid(r TypeRestrictions) bool = typeKnown(r.MinDataType) && typeKnown(r.MaxDataType) && r.MinDataType <= r.MaxDataType
define inRange(r TypeRestrictions, t datatypes.DataType) bool = r.MinDataType <= t && t <= r.MaxDataType
define cmpValid(c DataComparison) bool = c == Equals || c == NotEquals || c == LessThan || c == LessThanOrEqual || c == GreaterThan || c == GreaterThanOrEqual

func DataComparison.Validate(dataComparison) (err)
  property P05
  ensures [exact] (err == nil) == cmpValid(dataComparison)
  ensures [model-error] err != nil ==> is(err, *errors.ModelError) && as(err, *errors.ModelError) != nil

func TypeRestrictions.Validate(valueTypeRestrictions) (err)
  property P05
  ensures [exact] (err == nil) == trValid(valueTypeRestrictions)

func TypeRestrictions.TypeWithinRange(valueTypeRestrictions, checkType) (result)
  property P04
  ensures [exact] result == inRange(valueTypeRestrictions, checkType)

package pkg/models/api/common/v1/query_associated_action
import datatypes pkg/models/datatypes
import v1 pkg/models/api/common/v1
import errors pkg/models/api/common/errors

define ordering(c v1.DataComparison) bool = c == v1.LessThan || c == v1.LessThanOrEqual || c == v1.GreaterThan || c == v1.GreaterThanOrEqual
define vqValid(v ValueQuery) bool = cmpValid(v.Comparison) && wfEV(v.Value) && (ordering(v.Comparison) ==> v.Value.Type != datatypes.T_any) && trValid(v.TypeRestrictions)

func ValueQuery.Validate(valueQuery) (err)
  property P05
  ensures [exact] (err == nil) == vqValid(valueQuery)
  ensures [model-error] err != nil ==> is(err, *errors.ModelError) && as(err, *errors.ModelError) != nil

define selNonEmpty(s *Selection) bool = len(s.IDs) != 0 || len(s.KeyValues) != 0 || s.MinNumberOfKeyValues != nil || s.MaxNumberOfKeyValues != nil
define selBounds(s *Selection) bool = s.MinNumberOfKeyValues == nil || s.MaxNumberOfKeyValues == nil || *s.MinNumberOfKeyValues <= *s.MaxNumberOfKeyValues
define selKeys(s *Selection) bool = forall k string :: k in s.KeyValues ==> vqValid(s.KeyValues[k])
define selValid(s *Selection) bool = selNonEmpty(s) && selBounds(s) && selKeys(s)

func *Selection.Validate(associatedSelection) (err)
  property P05
  ensures [exact] (err == nil) == selValid(associatedSelection)
  ensures [model-error] err != nil ==> is(err, *errors.ModelError) && as(err, *errors.ModelError) != nil
  loop 1
    invariant forall k string :: $seen[k] ==> vqValid(associatedSelection.KeyValues[k])

# proof hint: the tree equations are unfolded at the nodes named by unfold (true of every node)
declare unfold(q *AssociatedActionQuery) bool
axiom [unfold-is-true] forall x *AssociatedActionQuery {unfold(x)} :: unfold(x)

# the query tree is valid: the solution of the equation below on a finite tree
declare qvalid(q *AssociatedActionQuery) bool
define qvalidEq(x *AssociatedActionQuery) bool = qvalid(x) == (x == nil || ((x.Selection == nil || selValid(x.Selection)) &&
  (forall i int :: 0 <= i && i < len(x.Or) ==> x.Or[i] != nil && qvalid(x.Or[i])) &&
  (forall i int :: 0 <= i && i < len(x.And) ==> x.And[i] != nil && qvalid(x.And[i]))))

func *AssociatedActionQuery.Validate(query) (err)
  property P05
  requires [definition-qvalid] forall x *AssociatedActionQuery {unfold(x)} :: unfold(x) ==> qvalidEq(x)
  requires [definition-unfold] unfold(query)
  ensures [exact] (err == nil) == qvalid(query)
  loop 1
    invariant forall i int :: 0 <= i && i < $k ==> query.Or[i] != nil && qvalid(query.Or[i])
  loop 2
    invariant forall i int :: 0 <= i && i < $k ==> query.And[i] != nil && qvalid(query.And[i])

# ----- matching -----
define wfKVs(kv datatypes.KeyValues) bool = forall k string :: k in kv ==> wfEV(kv[k])
# one key of the query, against the value stored under that key
define valueMatch(q ValueQuery, mv datatypes.EncapsulatedValue) bool = inRange(q.TypeRestrictions, mv.Type) && (
  (q.Comparison == v1.Equals && !evLess(mv, q.Value) && !evLess(q.Value, mv)) ||
  (q.Comparison == v1.LessThan && (mv.Type == datatypes.T_any || evLT(mv, q.Value))) ||
  (q.Comparison == v1.LessThanOrEqual && (mv.Type == datatypes.T_any || !evLT(q.Value, mv))) ||
  (q.Comparison == v1.GreaterThan && (mv.Type == datatypes.T_any || evLT(q.Value, mv))) ||
  (q.Comparison == v1.GreaterThanOrEqual && (mv.Type == datatypes.T_any || !evLT(mv, q.Value))))
define sameOrAny(q ValueQuery, mv datatypes.EncapsulatedValue) bool = inRange(q.TypeRestrictions, mv.Type) && !evLess(mv, q.Value) && !evLess(q.Value, mv)
define keyMatch(q ValueQuery, kv datatypes.KeyValues, k string) bool =
  (q.Comparison == v1.NotEquals && !(k in kv && sameOrAny(q, kv[k]))) ||
  (q.Comparison != v1.NotEquals && k in kv && valueMatch(q, kv[k]))
define selMatch(s *Selection, kv datatypes.KeyValues) bool =
  (s.MinNumberOfKeyValues == nil || len(kv) >= *s.MinNumberOfKeyValues) &&
  (s.MaxNumberOfKeyValues == nil || len(kv) <= *s.MaxNumberOfKeyValues) &&
  (forall k string :: k in s.KeyValues ==> keyMatch(s.KeyValues[k], kv, k))

func *Selection.MatchKeyValues(associatedSelection, matchKeyValues) (result)
  property P04
  requires selKeys(associatedSelection)
  requires wfKVs(matchKeyValues)
  ensures [is-the-meaning] result == selMatch(associatedSelection, matchKeyValues)
  loop 1
    invariant forall k string :: $seen[k] ==> keyMatch(associatedSelection.KeyValues[k], matchKeyValues, k)

# the query tree matches the key values: the solution of the equation below on a finite tree
declare qmatch(q *AssociatedActionQuery, kv datatypes.KeyValues) bool
define qbase(x *AssociatedActionQuery, kv datatypes.KeyValues) bool =
  (x.Selection == nil || selMatch(x.Selection, kv)) && (forall i int :: 0 <= i && i < len(x.And) ==> qmatch(x.And[i], kv))
define qmatchEq(x *AssociatedActionQuery, kv datatypes.KeyValues) bool = qmatch(x, kv) == (
  ((x.Selection != nil || len(x.And) != 0 || len(x.Or) == 0) && qbase(x, kv)) ||
  (exists i int :: 0 <= i && i < len(x.Or) && qmatch(x.Or[i], kv)))

func *AssociatedActionQuery.MatchTags(q, tags) (result)
  property P04
  requires [definition-qvalid] forall x *AssociatedActionQuery {unfold(x)} :: unfold(x) ==> qvalidEq(x)
  requires [definition-unfold] unfold(q)
  requires [definition-qmatch] forall x *AssociatedActionQuery {unfold(x)} :: unfold(x) && x != nil ==> qmatchEq(x, tags)
  requires q != nil && qvalid(q)
  requires wfKVs(tags)
  ensures [is-the-meaning] result == qmatch(q, tags)
  loop 1
    invariant matched == (q.Selection == nil || selMatch(q.Selection, tags))
    invariant matched
    invariant forall i int :: 0 <= i && i < $k ==> qmatch(q.And[i], tags)
  loop 2
    invariant forall i int :: 0 <= i && i < $k ==> !qmatch(q.Or[i], tags)

func StringToAssociatedActionQuery(id) (result)
  property P04
  ensures [selects-the-id] result != nil && result.Selection != nil && len(result.Selection.IDs) == 1 && result.Selection.IDs[0] == id
  ensures [nothing-else] len(result.Or) == 0 && len(result.And) == 0 && len(result.Selection.KeyValues) == 0 && (forall k string :: !(k in result.Selection.KeyValues)) && result.Selection.MinNumberOfKeyValues == nil && result.Selection.MaxNumberOfKeyValues == nil

func KeyValuesToExactAssociatedActionQuery(keyValues) (result)
  property P04
  requires wfKVs(keyValues)
  ensures [shape] result != nil && result.Selection != nil && len(result.Or) == 0 && len(result.And) == 0 && len(result.Selection.IDs) == 0
  ensures [number-of-keys] result.Selection.MinNumberOfKeyValues != nil && *result.Selection.MinNumberOfKeyValues == len(keyValues) && result.Selection.MaxNumberOfKeyValues != nil && *result.Selection.MaxNumberOfKeyValues == len(keyValues)
  ensures [one-for-each-key] len(result.Selection.KeyValues) == len(keyValues)
  ensures [keys] forall k string :: (k in result.Selection.KeyValues) == (k in keyValues)
  ensures [values] forall k string :: k in keyValues ==> result.Selection.KeyValues[k].Comparison == v1.Equals && result.Selection.KeyValues[k].Value == keyValues[k] && result.Selection.KeyValues[k].TypeRestrictions.MinDataType == keyValues[k].Type && result.Selection.KeyValues[k].TypeRestrictions.MaxDataType == keyValues[k].Type
  loop 1
    invariant query.Selection.KeyValues != nil && len(query.Selection.KeyValues) == $n
    invariant forall k string :: (k in query.Selection.KeyValues) == $seen[k]
    invariant forall k string :: $seen[k] ==> query.Selection.KeyValues[k].Comparison == v1.Equals && query.Selection.KeyValues[k].Value == keyValues[k] && query.Selection.KeyValues[k].TypeRestrictions.MinDataType == keyValues[k].Type && query.Selection.KeyValues[k].TypeRestrictions.MaxDataType == keyValues[k].Type

package pkg/models/api/common/v1/query_match_action
import datatypes pkg/models/datatypes
import v1 pkg/models/api/common/v1

define mvValid(m MatchValue) bool = trValid(m.TypeRestrictions) && wfEV(m.Value)
func MatchValue.Validate(matchValue) (err)
  property P05
  ensures [exact] (err == nil) == mvValid(matchValue)

func MatchKeyValues.Validate(matchValue) (err)
  property P05
  ensures [exact] (err == nil) == (forall k string :: k in matchValue ==> mvValid(matchValue[k]))
  loop 1
    invariant forall k string :: $seen[k] ==> mvValid(matchValue[k])

func *MatchActionQuery.Validate(matchActionQuery) (err)
  property P05
  ensures [exact] (err == nil) == (len(matchActionQuery.KeyValues) != 0 && (forall k string :: k in matchActionQuery.KeyValues ==> mvValid(matchActionQuery.KeyValues[k])) &&
    (matchActionQuery.MaxNumberOfPermutationKeyValues == nil || *matchActionQuery.MaxNumberOfPermutationKeyValues == -1 || *matchActionQuery.MaxNumberOfPermutationKeyValues >= (matchActionQuery.MinNumberOfPermutationKeyValues == nil ? 0 : *matchActionQuery.MinNumberOfPermutationKeyValues)))

func KeyValuesToAnyMatchActionQuery(keyValues) (result)
  property P04
  ensures [shape] result != nil && result.MinNumberOfPermutationKeyValues == nil && result.MaxNumberOfPermutationKeyValues == nil
  ensures [as-many] len(result.KeyValues) == len(keyValues)
  ensures [keys] forall k string :: (k in result.KeyValues) == (k in keyValues)
  ensures [values] forall k string :: k in keyValues ==> result.KeyValues[k].Value == keyValues[k] && result.KeyValues[k].TypeRestrictions.MinDataType == keyValues[k].Type && result.KeyValues[k].TypeRestrictions.MaxDataType == datatypes.T_any
  loop 1
    invariant matchActionQuery.KeyValues != nil
    invariant forall k string :: (k in matchActionQuery.KeyValues) == $seen[k]
    invariant len(matchActionQuery.KeyValues) == $n
    invariant forall k string :: $seen[k] ==> matchActionQuery.KeyValues[k].Value == keyValues[k] && matchActionQuery.KeyValues[k].TypeRestrictions.MinDataType == keyValues[k].Type && matchActionQuery.KeyValues[k].TypeRestrictions.MaxDataType == datatypes.T_any
