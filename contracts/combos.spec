# Combinations of keys. The list of keys and an arbitrary set of them are ghosts that nothing
# changes, so what is proved for them holds for every list and every set of its keys.
package pkg/datamanipulation

# the keys all combinations are made from and how many
ghost kc_keys smap[int]string
ghost kc_n int
# any set of keys
ghost kc_set set[string]

# how many of the keys in front of a position are in the set
ghost kc_before smap[int]int
define counted() bool = kc_before[0] == 0 && (forall j int {kc_keys[j]} :: 0 <= j && j < kc_n ==> kc_before[j + 1] == kc_before[j] + (kc_keys[j] in kc_set ? 1 : 0)) && (forall a int, b int {kc_before[a], kc_before[b]} :: 0 <= a && a <= b && b <= kc_n ==> kc_before[a] <= kc_before[b])
# the list holds the keys of the set among the first k keys, in order, and nothing else
define holds(r []string, k int) bool = len(r) == kc_before[k] && (forall j int {kc_keys[j]} :: 0 <= j && j < k && kc_keys[j] in kc_set ==> elems(r)[off(r) + kc_before[j]] == kc_keys[j])
# the list is the keys from position k on
define tail(l []string) bool = len(l) <= kc_n && (forall p int {elems(l)[p]} :: off(l) <= p && p < off(l) + len(l) ==> elems(l)[p] == kc_keys[kc_n - len(l) + p - off(l)])
define inBounds(c int, minKeys int, maxKeys int) bool = minKeys <= c && (c <= maxKeys || maxKeys == -1)
func generateStringGroups(prefix, suffix, minKeys, maxKeys) (result)
  property P08
  option elements typed
  requires counted() && tail(suffix)
  requires len(prefix) > 0
  ensures off(result) == 0 && isfresh(arr(result))
  ensures [every-combination] holds(prefix, kc_n - len(suffix)) && inBounds(kc_before[kc_n], minKeys, maxKeys) ==> (exists p int {elems(result)[p]} :: 0 <= p && p < len(result) && holds(elems(result)[p], kc_n))
  ensures [right-size] forall p int {elems(result)[p]} :: 0 <= p && p < len(result) ==> len(elems(result)[p]) >= len(prefix) && inBounds(len(elems(result)[p]), minKeys, maxKeys)
  loop 1
    local prefixCopy []string, allKeyPairs [][]string
    invariant off(allKeyPairs) == 0 && isfresh(arr(allKeyPairs))
    invariant len(prefixCopy) == len(prefix) && cap(prefixCopy) == len(prefixCopy) && off(prefixCopy) == 0 && isfresh(arr(prefixCopy))
    invariant forall t int {elems(prefixCopy)[t]} :: 0 <= t && t < len(prefix) ==> elems(prefixCopy)[t] == elems(prefix)[off(prefix) + t]
    invariant holds(prefix, kc_n - len(suffix)) && inBounds(kc_before[kc_n], minKeys, maxKeys) && (kc_before[kc_n - len(suffix)] == kc_before[kc_n] || kc_before[kc_n - len(suffix)] < kc_before[kc_n - len(suffix) + i]) ==> (exists p int {elems(allKeyPairs)[p]} :: 0 <= p && p < len(allKeyPairs) && holds(elems(allKeyPairs)[p], kc_n))
    invariant forall p int {elems(allKeyPairs)[p]} :: 0 <= p && p < len(allKeyPairs) ==> len(elems(allKeyPairs)[p]) >= len(prefix) && inBounds(len(elems(allKeyPairs)[p]), minKeys, maxKeys)

func generateStringPairs(keys, minKeys, maxKeys) (keyPairs)
  property P08
  option elements typed
  requires counted() && tail(keys)
  ensures off(keyPairs) == 0 && isfresh(arr(keyPairs))
  ensures [every-combination] kc_before[kc_n - len(keys)] == 0 && kc_before[kc_n] > 0 && inBounds(kc_before[kc_n], minKeys, maxKeys) ==> (exists p int {elems(keyPairs)[p]} :: 0 <= p && p < len(keyPairs) && holds(elems(keyPairs)[p], kc_n))
  ensures [right-size] forall p int {elems(keyPairs)[p]} :: 0 <= p && p < len(keyPairs) ==> len(elems(keyPairs)[p]) > 0 && inBounds(len(elems(keyPairs)[p]), minKeys, maxKeys)
  loop 1
    invariant 1 <= i && i <= len(keys)
    invariant kc_before[kc_n - len(keys) + i] <= kc_before[kc_n] && kc_before[kc_n - len(keys)] <= kc_before[kc_n - len(keys) + i]
    invariant off(keyPairs) == 0 && isfresh(arr(keyPairs))
    invariant kc_before[kc_n - len(keys)] == 0 && kc_before[kc_n] > 0 && inBounds(kc_before[kc_n], minKeys, maxKeys) && (kc_before[kc_n - len(keys) + 1] == 0 || kc_before[kc_n] == 1 || kc_before[kc_n - len(keys) + i] > 1) ==> (exists p int {elems(keyPairs)[p]} :: 0 <= p && p < len(keyPairs) && holds(elems(keyPairs)[p], kc_n))
    invariant forall p int {elems(keyPairs)[p]} :: 0 <= p && p < len(keyPairs) ==> len(elems(keyPairs)[p]) > 0 && inBounds(len(elems(keyPairs)[p]), minKeys, maxKeys)

func GenerateStringPermutations(strings, minKeys, maxKeys) (keyPermutations, err)
  property P08
  requires counted() && tail(strings) && len(strings) == kc_n
  ensures [bounds-that-make-sense] (err != nil) == (minKeys > maxKeys && maxKeys != -1)
