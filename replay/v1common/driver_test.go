package v1

import (
	"fmt"
	"testing"

	"github.com/DanLavine/willow/pkg/models/datatypes"
)

var vts = []datatypes.DataType{-1, 0, 1, 2, 7, 12, 13, 14, 1023, 1024, 1025}

func TestVerifP05Restrictions(t *testing.T) {
	known := func(t datatypes.DataType) bool { return t >= 1 && t <= 13 || t == datatypes.T_any }
	n := 0
	for _, lo := range vts {
		for _, hi := range vts {
			n++
			if got, want := (TypeRestrictions{lo, hi}).Validate() == nil, known(lo) && known(hi) && lo <= hi; got != want {
				t.Fatalf("VERIF-FAIL type restriction %d..%d accepted=%v, want %v", lo, hi, got, want)
			}
		}
	}
	for _, c := range []string{"", "=", "!=", "<", "<=", ">", ">=", "==", "=<", "=>", " ="} {
		want := c == "=" || c == "!=" || c == "<" || c == "<=" || c == ">" || c == ">="
		n++
		if got := DataComparison(c).Validate() == nil; got != want {
			t.Fatalf("VERIF-FAIL comparison %q accepted=%v, want %v", c, got, want)
		}
	}
	fmt.Println("VERIF-CASES P05 restrictions", n)
}

func TestVerifP04Range(t *testing.T) {
	n := 0
	for _, lo := range vts {
		for _, hi := range vts {
			for _, x := range vts {
				n++
				if got, want := (TypeRestrictions{lo, hi}).TypeWithinRange(x), lo <= x && x <= hi; got != want {
					t.Fatalf("VERIF-FAIL type %d within %d..%d: %v, want %v", x, lo, hi, got, want)
				}
			}
		}
	}
	fmt.Println("VERIF-CASES P04 ranges", n)
}
