package querymatchaction

import (
	"fmt"
	"testing"

	v1 "github.com/DanLavine/willow/pkg/models/api/common/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

var vts = []datatypes.DataType{-1, 0, 1, 7, 13, 14, 1023, 1024, 1025}

func vknown(t datatypes.DataType) bool { return t >= 1 && t <= 13 || t == datatypes.T_any }

func TestVerifP05Match(t *testing.T) {
	n := 0
	vals := []datatypes.EncapsulatedValue{datatypes.Int(1), datatypes.Any(), datatypes.String("a"), {Type: datatypes.T_int, Data: "x"}, {}, {Type: datatypes.T_any, Data: 1}}
	for _, lo := range vts {
		for _, hi := range vts {
			for _, v := range vals {
				tr := v1.TypeRestrictions{MinDataType: lo, MaxDataType: hi}
				want := vknown(lo) && vknown(hi) && lo <= hi && v.Validate(datatypes.MinDataType, datatypes.MaxDataType) == nil
				for _, extra := range []bool{false, true} {
					m := MatchKeyValues{"k": {Value: v, TypeRestrictions: tr}}
					if extra {
						m["other"] = MatchValue{Value: datatypes.Int(1), TypeRestrictions: v1.TypeRestrictions{MinDataType: 1, MaxDataType: 1024}}
					}
					n++
					if got := (&MatchActionQuery{KeyValues: m}).Validate() == nil; got != want {
						t.Fatalf("VERIF-FAIL match query %v: accepted=%v, want %v", m, got, want)
					}
				}
			}
		}
	}
	if (&MatchActionQuery{}).Validate() == nil {
		t.Fatalf("VERIF-FAIL a match query without key values is accepted")
	}
	// the numbers of keys to match: a missing minimum is zero, a missing maximum or -1 is no maximum
	nums := []*int{nil}
	for _, i := range []int{-2, -1, 0, 1, 2, 5, 1 << 40} {
		i := i
		nums = append(nums, &i)
	}
	for _, lo := range nums {
		for _, hi := range nums {
			least := 0
			if lo != nil {
				least = *lo
			}
			want := hi == nil || *hi == -1 || *hi >= least
			q := &MatchActionQuery{KeyValues: MatchKeyValues{"k": {Value: datatypes.Int(1), TypeRestrictions: v1.TypeRestrictions{MinDataType: 1, MaxDataType: 1024}}}, MinNumberOfPermutationKeyValues: lo, MaxNumberOfPermutationKeyValues: hi}
			n++
			if got := q.Validate() == nil; got != want {
				show := func(p *int) string {
					if p == nil {
						return "none"
					}
					return fmt.Sprint(*p)
				}
				t.Fatalf("VERIF-FAIL match query for %s to %s keys: accepted=%v, want %v", show(lo), show(hi), got, want)
			}
		}
	}
	fmt.Println("VERIF-CASES P05 match queries", n)
}

func TestVerifP04MatchBuild(t *testing.T) {
	kv := datatypes.KeyValues{"a": datatypes.Int(1), "b": datatypes.String("x"), "c": datatypes.Any()}
	q := KeyValuesToAnyMatchActionQuery(kv)
	if q.MinNumberOfPermutationKeyValues != nil || q.MaxNumberOfPermutationKeyValues != nil || len(q.KeyValues) != len(kv) {
		t.Fatalf("VERIF-FAIL match query for %v is %v", kv, q)
	}
	for k, v := range kv {
		m := q.KeyValues[k]
		if m.Value != v || m.TypeRestrictions.MinDataType != v.Type || m.TypeRestrictions.MaxDataType != datatypes.T_any {
			t.Fatalf("VERIF-FAIL match query for %v has %v under %s", kv, m, k)
		}
	}
	fmt.Println("VERIF-CASES P04 match query built", 1)
}
