package set

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"testing"
)

// TestVerifP08Sets runs random histories of operations against a list of flags.
func TestVerifP08Sets(t *testing.T) {
	n, runs := 0, 2000
	if os.Getenv("VERIF_TIER") == "thorough" {
		runs = 40000
	}
	rnd := rand.New(rand.NewSource(1))
	for run := 0; run < runs; run++ {
		size := 1 + rnd.Intn(8)
		list := func() []int {
			var l []int
			for i := rnd.Intn(2 * size); i > 0; i-- {
				l = append(l, rnd.Intn(size))
			}
			return l
		}
		first := list()
		s := New(first...)
		want := make([]bool, size)
		for _, v := range first {
			want[v] = true
		}
		history := fmt.Sprintf("New(%v)", first)
		for step := 0; step < 12; step++ {
			switch rnd.Intn(6) {
			case 0:
				v := rnd.Intn(size)
				s.Add(v)
				want[v] = true
				history += fmt.Sprintf(", Add(%d)", v)
			case 1:
				v := rnd.Intn(size)
				s.Remove(v)
				want[v] = false
				history += fmt.Sprintf(", Remove(%d)", v)
			case 2:
				l := list()
				s.AddBulk(l)
				for _, v := range l {
					want[v] = true
				}
				history += fmt.Sprintf(", AddBulk(%v)", l)
			case 3, 4:
				l := list()
				s.Intersection(l)
				in := make([]bool, size)
				for _, v := range l {
					in[v] = true
				}
				for v := range want {
					want[v] = want[v] && in[v]
				}
				history += fmt.Sprintf(", Intersection(%v)", l)
			case 5:
				if rnd.Intn(4) == 0 {
					s.Clear()
					want = make([]bool, size)
					history += ", Clear()"
				}
			}
			var all []int
			for v, in := range want {
				if in {
					all = append(all, v)
				}
			}
			n++
			got := append([]int{}, s.Values()...)
			sort.Ints(got)
			if fmt.Sprint(got) != fmt.Sprint(append([]int{}, all...)) || s.Size() != len(all) {
				t.Fatalf("VERIF-FAIL after %s the set has %d members %v instead of %v", history, s.Size(), got, all)
			}
			if sorted := s.SortedValues(); fmt.Sprint(sorted) != fmt.Sprint(append([]int{}, all...)) {
				t.Fatalf("VERIF-FAIL after %s the sorted members are %v instead of %v", history, sorted, all)
			}
		}
	}
	fmt.Println("VERIF-CASES P08 set histories", n)
}
