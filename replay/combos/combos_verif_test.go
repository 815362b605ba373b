package datamanipulation

import (
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
	"testing"
)

// TestVerifP08Combinations compares the combinations of every number of keys up to a bound, for all
// minimums and maximums, with the subsets counted out one by one.
func TestVerifP08Combinations(t *testing.T) {
	most := 9
	if os.Getenv("VERIF_TIER") == "thorough" {
		most = 13
	}
	n := 0
	names := []string{"d", "a", "m", "", "b", "zz", "c", "e", "k", "y", "x", "aa", "q"}
	for size := 0; size <= most; size++ {
		for order := 0; order < 3; order++ {
			keys := append([]string{}, names[:size]...)
			switch order {
			case 1:
				sort.Strings(keys)
			case 2:
				sort.Sort(sort.Reverse(sort.StringSlice(keys)))
			}
			given := append([]string{}, keys...)
			for lo := -1; lo <= size+1; lo++ {
				for hi := -1; hi <= size+1; hi++ {
					n++
					show := fmt.Sprintf("keys %q, from %d to %d keys", given, lo, hi)
					in := append(make([]string, 0, size+3), given...)
					got, err := GenerateStringPermutations(in, lo, hi)
					if refuse := lo > hi && hi != -1; refuse != (err != nil) {
						t.Fatalf("VERIF-FAIL %s: error %v", show, err)
					} else if refuse {
						continue
					}
					if !reflect.DeepEqual(in, given) {
						t.Fatalf("VERIF-FAIL %s: the given keys changed to %q", show, in)
					}
					seen := map[string]int{}
					for _, g := range got {
						s := append([]string{}, g...)
						sort.Strings(s)
						seen[fmt.Sprintf("%d:%s", len(s), strings.Join(s, "|"))]++
					}
					want := 0
					for m := 1; m < 1<<size; m++ {
						var s []string
						for i := range given {
							if m>>i&1 == 1 {
								s = append(s, given[i])
							}
						}
						if len(s) < lo || hi != -1 && len(s) > hi {
							continue
						}
						want++
						sort.Strings(s)
						if c := seen[fmt.Sprintf("%d:%s", len(s), strings.Join(s, "|"))]; c != 1 {
							t.Fatalf("VERIF-FAIL %s: %q is among the combinations %d times", show, s, c)
						}
					}
					if len(got) != want {
						t.Fatalf("VERIF-FAIL %s: %d combinations instead of %d", show, len(got), want)
					}
					for i := 1; i < len(got); i++ {
						if len(got[i-1]) > len(got[i]) {
							t.Fatalf("VERIF-FAIL %s: the shorter %q comes after %q", show, got[i], got[i-1])
						}
					}
				}
			}
		}
	}
	fmt.Println("VERIF-CASES P08 combinations", n)
}
