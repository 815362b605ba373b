package queryassociatedaction

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	v1 "github.com/DanLavine/willow/pkg/models/api/common/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

func vseed() *rand.Rand {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(n)*7919 + 17))
}

var vvals = []datatypes.EncapsulatedValue{
	datatypes.Uint8(0), datatypes.Uint8(1), datatypes.Uint8(200), datatypes.Uint16(7), datatypes.Uint64(1 << 63), datatypes.Int8(-3), datatypes.Int8(3),
	datatypes.Int(-1), datatypes.Int(0), datatypes.Int(1), datatypes.Int(2), datatypes.Int64(5), datatypes.Float32(1.5), datatypes.Float64(-2.5), datatypes.Float64(2.5),
	datatypes.String(""), datatypes.String("a"), datatypes.String("b"), datatypes.Any(),
}
var vtypes = []datatypes.DataType{datatypes.T_uint8, datatypes.T_uint16, datatypes.T_int8, datatypes.T_int, datatypes.T_int64, datatypes.T_float64, datatypes.T_string, datatypes.T_any}
var vcmps = []v1.DataComparison{v1.Equals, v1.NotEquals, v1.LessThan, v1.LessThanOrEqual, v1.GreaterThan, v1.GreaterThanOrEqual}

// reference order: -1, 0, 1; the wildcard is the greatest value
func vcmp(a, b datatypes.EncapsulatedValue) int {
	if a.Type != b.Type {
		if a.Type < b.Type {
			return -1
		}
		return 1
	}
	lt := func(x, y bool) int {
		if x {
			return -1
		}
		if y {
			return 1
		}
		return 0
	}
	switch x := a.Data.(type) {
	case uint8:
		y := b.Data.(uint8)
		return lt(x < y, y < x)
	case uint16:
		y := b.Data.(uint16)
		return lt(x < y, y < x)
	case uint64:
		y := b.Data.(uint64)
		return lt(x < y, y < x)
	case int8:
		y := b.Data.(int8)
		return lt(x < y, y < x)
	case int:
		y := b.Data.(int)
		return lt(x < y, y < x)
	case int64:
		y := b.Data.(int64)
		return lt(x < y, y < x)
	case float32:
		y := b.Data.(float32)
		return lt(x < y, y < x)
	case float64:
		y := b.Data.(float64)
		return lt(x < y, y < x)
	case string:
		y := b.Data.(string)
		return lt(x < y, y < x)
	}
	return 0
}

func vkeyMatch(q ValueQuery, mv datatypes.EncapsulatedValue, has bool) bool {
	in := has && q.TypeRestrictions.MinDataType <= mv.Type && mv.Type <= q.TypeRestrictions.MaxDataType
	any := mv.Type == datatypes.T_any || q.Value.Type == datatypes.T_any
	c := vcmp(mv, q.Value)
	switch q.Comparison {
	case v1.Equals:
		return in && (any || c == 0)
	case v1.NotEquals:
		return !(in && (any || c == 0))
	case v1.LessThan:
		return in && (any || c < 0)
	case v1.LessThanOrEqual:
		return in && (any || c <= 0)
	case v1.GreaterThan:
		return in && (any || c > 0)
	default:
		return in && (any || c >= 0)
	}
}

func vselMatch(s *Selection, kv datatypes.KeyValues) bool {
	if s.MinNumberOfKeyValues != nil && len(kv) < *s.MinNumberOfKeyValues || s.MaxNumberOfKeyValues != nil && len(kv) > *s.MaxNumberOfKeyValues {
		return false
	}
	for k, q := range s.KeyValues {
		mv, ok := kv[k]
		if !vkeyMatch(q, mv, ok) {
			return false
		}
	}
	return true
}

func vmatch(q *AssociatedActionQuery, kv datatypes.KeyValues) bool {
	if q.Selection != nil || len(q.And) > 0 || len(q.Or) == 0 {
		ok := q.Selection == nil || vselMatch(q.Selection, kv)
		for _, a := range q.And {
			ok = ok && vmatch(a, kv)
		}
		if ok {
			return true
		}
	}
	for _, o := range q.Or {
		if vmatch(o, kv) {
			return true
		}
	}
	return false
}

func vrandVQ(r *rand.Rand) ValueQuery {
	for {
		q := ValueQuery{Value: vvals[r.Intn(len(vvals))], Comparison: vcmps[r.Intn(len(vcmps))]}
		a, b := r.Intn(len(vtypes)), r.Intn(len(vtypes))
		if a > b {
			a, b = b, a
		}
		q.TypeRestrictions = v1.TypeRestrictions{MinDataType: vtypes[a], MaxDataType: vtypes[b]}
		if r.Intn(3) == 0 {
			q.TypeRestrictions = v1.TypeRestrictions{MinDataType: datatypes.MinDataType, MaxDataType: datatypes.MaxDataType}
		}
		if q.Value.Type == datatypes.T_any && q.Comparison != v1.Equals && q.Comparison != v1.NotEquals {
			continue
		}
		return q
	}
}

func vrandKVs(r *rand.Rand) datatypes.KeyValues {
	kv := datatypes.KeyValues{}
	for _, k := range []string{"a", "b", "c"} {
		if r.Intn(2) == 0 {
			kv[k] = vvals[r.Intn(len(vvals))]
		}
	}
	return kv
}

func vrandQuery(r *rand.Rand, depth int) *AssociatedActionQuery {
	q := &AssociatedActionQuery{}
	if r.Intn(3) > 0 {
		s := &Selection{KeyValues: SelectionKeyValues{}}
		for _, k := range []string{"a", "b", "c"} {
			if r.Intn(3) == 0 {
				s.KeyValues[k] = vrandVQ(r)
			}
		}
		if r.Intn(3) == 0 {
			n := r.Intn(3)
			s.MinNumberOfKeyValues = &n
		}
		if r.Intn(3) == 0 {
			n := 2 + r.Intn(3)
			s.MaxNumberOfKeyValues = &n
		}
		if selNon := len(s.KeyValues) != 0 || s.MinNumberOfKeyValues != nil || s.MaxNumberOfKeyValues != nil; !selNon {
			s.IDs = []string{"x"}
		}
		q.Selection = s
	}
	if depth > 0 {
		for i := r.Intn(3); i > 0; i-- {
			q.And = append(q.And, vrandQuery(r, depth-1))
		}
		for i := r.Intn(3); i > 0; i-- {
			q.Or = append(q.Or, vrandQuery(r, depth-1))
		}
	}
	return q
}

func vshow(q *AssociatedActionQuery) string {
	s := "{"
	if q.Selection != nil {
		s += fmt.Sprintf("sel ids=%v keys=%v", q.Selection.IDs, q.Selection.KeyValues)
		if q.Selection.MinNumberOfKeyValues != nil {
			s += fmt.Sprintf(" min=%d", *q.Selection.MinNumberOfKeyValues)
		}
		if q.Selection.MaxNumberOfKeyValues != nil {
			s += fmt.Sprintf(" max=%d", *q.Selection.MaxNumberOfKeyValues)
		}
	}
	for _, a := range q.And {
		s += " and " + vshow(a)
	}
	for _, a := range q.Or {
		s += " or " + vshow(a)
	}
	return s + "}"
}

func vtry(t *testing.T, what string, f func()) {
	defer func() {
		if p := recover(); p != nil {
			t.Fatalf("VERIF-FAIL panic: %v on %s", p, what)
		}
	}()
	f()
}

func TestVerifP04Match(t *testing.T) {
	n := 0
	// every pair of values, every comparison, several restrictions
	for _, mv := range vvals {
		for _, qv := range vvals {
			for _, c := range vcmps {
				for i, lo := range vtypes {
					for _, hi := range vtypes[i:] {
						q := ValueQuery{Value: qv, Comparison: c, TypeRestrictions: v1.TypeRestrictions{MinDataType: lo, MaxDataType: hi}}
						if qv.Type == datatypes.T_any && c != v1.Equals && c != v1.NotEquals {
							continue
						}
						s := &Selection{KeyValues: SelectionKeyValues{"k": q}}
						for _, kv := range []datatypes.KeyValues{{"k": mv}, {"other": mv}} {
							n++
							vtry(t, fmt.Sprint(q, kv), func() {
								if got, want := s.MatchKeyValues(kv), vselMatch(s, kv); got != want {
									t.Fatalf("VERIF-FAIL query k %s %v in types %d..%d on %v: matched=%v, want %v", c, qv, lo, hi, kv, got, want)
								}
							})
						}
					}
				}
			}
		}
	}
	r := vseed()
	for i := 0; i < 60000; i++ {
		q, kv := vrandQuery(r, 3), vrandKVs(r)
		n++
		vtry(t, vshow(q)+fmt.Sprint(" on ", kv), func() {
			if got, want := q.MatchTags(kv), vmatch(q, kv); got != want {
				t.Fatalf("VERIF-FAIL query %s on %v: matched=%v, want %v", vshow(q), kv, got, want)
			}
		})
	}
	for i := 0; i < 2000; i++ {
		kv, other := vrandKVs(r), vrandKVs(r)
		n++
		q := KeyValuesToExactAssociatedActionQuery(kv)
		want := len(kv) == len(other)
		for k, v := range kv {
			o, ok := other[k]
			want = want && ok && o.Type == v.Type && vcmp(o, v) == 0
		}
		if got := q.MatchTags(other); got != want {
			t.Fatalf("VERIF-FAIL exact query for %v on %v: matched=%v, want %v", kv, other, got, want)
		}
		id := StringToAssociatedActionQuery("id7")
		if id.Selection == nil || len(id.Selection.IDs) != 1 || id.Selection.IDs[0] != "id7" || len(id.Or)+len(id.And)+len(id.Selection.KeyValues) != 0 || id.Validate() != nil {
			t.Fatalf("VERIF-FAIL query for identifier id7 is %s", vshow(id))
		}
	}
	fmt.Println("VERIF-CASES P04 queries on key values", n)
}

func vvqValid(q ValueQuery) bool {
	okC := false
	ord := false
	for i, c := range vcmps {
		if c == q.Comparison {
			okC, ord = true, i > 1
		}
	}
	if !okC || q.Value.Validate(datatypes.MinDataType, datatypes.MaxDataType) != nil || ord && q.Value.Type == datatypes.T_any {
		return false
	}
	known := func(t datatypes.DataType) bool { return t >= 1 && t <= 13 || t == datatypes.T_any }
	return known(q.TypeRestrictions.MinDataType) && known(q.TypeRestrictions.MaxDataType) && q.TypeRestrictions.MinDataType <= q.TypeRestrictions.MaxDataType
}

func vselValid(s *Selection) bool {
	if len(s.IDs) == 0 && len(s.KeyValues) == 0 && s.MinNumberOfKeyValues == nil && s.MaxNumberOfKeyValues == nil {
		return false
	}
	if s.MinNumberOfKeyValues != nil && s.MaxNumberOfKeyValues != nil && *s.MinNumberOfKeyValues > *s.MaxNumberOfKeyValues {
		return false
	}
	for _, q := range s.KeyValues {
		if !vvqValid(q) {
			return false
		}
	}
	return true
}

func vqValid(q *AssociatedActionQuery) bool {
	if q == nil {
		return true
	}
	if q.Selection != nil && !vselValid(q.Selection) {
		return false
	}
	for _, l := range [][]*AssociatedActionQuery{q.And, q.Or} {
		for _, x := range l {
			if x == nil || !vqValid(x) {
				return false
			}
		}
	}
	return true
}

// corrupt makes a random defect somewhere in the query
func vcorrupt(r *rand.Rand, q *AssociatedActionQuery) {
	for _, l := range [][]*AssociatedActionQuery{q.And, q.Or} {
		for i := range l {
			switch r.Intn(6) {
			case 0:
				l[i] = nil
			case 1, 2, 3:
				vcorrupt(r, l[i])
			}
		}
	}
	if q.Selection != nil && r.Intn(2) == 0 {
		switch r.Intn(4) {
		case 0:
			*q.Selection = Selection{}
		case 1:
			a, b := r.Intn(3), r.Intn(3)
			q.Selection.MinNumberOfKeyValues, q.Selection.MaxNumberOfKeyValues = &a, &b
		default:
			for k, v := range q.Selection.KeyValues {
				switch r.Intn(6) {
				case 0:
					v.Comparison = v1.DataComparison([]string{"", "==", "<>", "=<"}[r.Intn(4)])
				case 1:
					v.TypeRestrictions.MinDataType = []datatypes.DataType{0, -1, 14, 1023, 1024, 1025}[r.Intn(6)]
				case 2:
					v.TypeRestrictions.MaxDataType = []datatypes.DataType{0, -1, 14, 1023, 1024, 1025}[r.Intn(6)]
				case 3:
					v.Value.Type = []datatypes.DataType{0, 5, 14, 1024}[r.Intn(4)]
				case 4:
					v.Value.Data = nil
				case 5:
					v.Value = datatypes.Any()
				}
				q.Selection.KeyValues[k] = v
			}
		}
	}
}

func TestVerifP05Queries(t *testing.T) {
	r := vseed()
	n := 0
	var nilq *AssociatedActionQuery
	vtry(t, "nil query", func() {
		if nilq.Validate() != nil {
			t.Fatalf("VERIF-FAIL a missing query is not accepted")
		}
	})
	for i := 0; i < 60000; i++ {
		q := vrandQuery(r, 2)
		if r.Intn(4) > 0 {
			vcorrupt(r, q)
		}
		n++
		vtry(t, "a query", func() {
			if got, want := q.Validate() == nil, vqValid(q); got != want {
				t.Fatalf("VERIF-FAIL query %+v (selection %+v): accepted=%v, want %v", q, q.Selection, got, want)
			}
		})
	}
	fmt.Println("VERIF-CASES P05 queries", n)
}
