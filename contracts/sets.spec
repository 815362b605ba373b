# Sets of identifiers: every operation does to the members what mathematics says.
# The bodies are generic: they are verified once, for every type of member.
package internal/datastructures/set

func New(initValues) (s)
  property P08
  ensures [fresh-set] s != nil && isfresh(s) && s.values != nil && isfresh(s.values)
  ensures [every-given-value] forall p int {elems(initValues)[p]} :: off(initValues) <= p && p < off(initValues) + len(initValues) ==> elems(initValues)[p] in s.values
  ensures [nothing-but-given-values] forall v T {v in s.values} :: v in s.values ==> (exists p int {elems(initValues)[p]} :: off(initValues) <= p && p < off(initValues) + len(initValues) && elems(initValues)[p] == v)
  loop 1
    invariant initMap != nil && isfresh(initMap)
    invariant forall p int {elems(initValues)[p]} :: off(initValues) <= p && p < off(initValues) + $k ==> elems(initValues)[p] in initMap
    invariant forall v T {v in initMap} :: v in initMap ==> (exists p int {elems(initValues)[p]} :: off(initValues) <= p && p < off(initValues) + $k && elems(initValues)[p] == v)

func *set.Add(s, value) ()
  property P08
  requires s.values != nil
  modifies map(s.values)
  ensures [adds-only-this-member] dom(s.values) == add(old(dom(s.values)), value)

func *set.AddBulk(s, values) ()
  property P08
  requires s.values != nil
  modifies map(s.values)
  ensures [keeps-members] forall v T {v in s.values} {old(v in s.values)} :: old(v in s.values) ==> v in s.values
  ensures [every-given-value] forall p int {elems(values)[p]} :: off(values) <= p && p < off(values) + len(values) ==> elems(values)[p] in s.values
  ensures [nothing-else] forall v T {v in s.values} :: v in s.values ==> old(v in s.values) || (exists p int {elems(values)[p]} :: off(values) <= p && p < off(values) + len(values) && elems(values)[p] == v)
  loop 1
    invariant forall v T {v in s.values} {old(v in s.values)} :: old(v in s.values) ==> v in s.values
    invariant forall p int {elems(values)[p]} :: off(values) <= p && p < off(values) + $k ==> elems(values)[p] in s.values
    invariant forall v T {v in s.values} :: v in s.values ==> old(v in s.values) || (exists p int {elems(values)[p]} :: off(values) <= p && p < off(values) + $k && elems(values)[p] == v)

func *set.Clear(s) ()
  property P08
  modifies s.values
  ensures [no-member-left] s.values != nil && isfresh(s.values) && len(s.values) == 0
  ensures [no-member-left-2] forall v T {v in s.values} :: !(v in s.values)

func *set.Intersection(s, values) ()
  property P08
  modifies s.values
  ensures [usable] s.values != nil && isfresh(s.values)
  ensures [common-members-kept] forall p int {elems(values)[p]} :: off(values) <= p && p < off(values) + len(values) && old(elems(values)[p] in s.values) ==> elems(values)[p] in s.values
  ensures [only-common-members] forall v T {v in s.values} :: v in s.values ==> old(v in s.values) && (exists p int {elems(values)[p]} :: off(values) <= p && p < off(values) + len(values) && elems(values)[p] == v)
  loop 1
    invariant newValues != nil && isfresh(newValues)
    invariant forall p int {elems(values)[p]} :: off(values) <= p && p < off(values) + $k && old(elems(values)[p] in s.values) ==> elems(values)[p] in newValues
    invariant forall v T {v in newValues} :: v in newValues ==> old(v in s.values) && (exists p int {elems(values)[p]} :: off(values) <= p && p < off(values) + $k && elems(values)[p] == v)

func *set.Remove(s, value) ()
  property P08
  modifies map(s.values)
  ensures [removes-only-this-member] forall v T {v in s.values} {old(v in s.values)} :: v in s.values <==> old(v in s.values) && v != value

func *set.Values(s) (l)
  property P08
  ensures [as-many-as-members] len(l) == len(s.values) && isfresh(arr(l)) && off(l) == 0
  ensures [members-only] forall p int {elems(l)[p]} :: 0 <= p && p < len(l) ==> elems(l)[p] in s.values
  ensures [every-member] forall v T {v in s.values} :: v in s.values ==> (exists p int {elems(l)[p]} :: 0 <= p && p < len(l) && elems(l)[p] == v)
  ensures [no-repeats] forall p int, q int {elems(l)[p], elems(l)[q]} :: 0 <= p && p < q && q < len(l) ==> elems(l)[p] != elems(l)[q]
  loop 1
    invariant len(values) == $n && off(values) == 0 && isfresh(arr(values))
    invariant forall p int {elems(values)[p]} :: 0 <= p && p < len(values) ==> elems(values)[p] in s.values && $seen[elems(values)[p]]
    invariant forall v T {$seen[v]} :: $seen[v] ==> (exists p int {elems(values)[p]} :: 0 <= p && p < len(values) && elems(values)[p] == v)
    invariant forall p int, q int {elems(values)[p], elems(values)[q]} :: 0 <= p && p < q && q < len(values) ==> elems(values)[p] != elems(values)[q]

func *set.Size(s) (n)
  property P08
  ensures [number-of-members] n == len(s.values)
