package datatypes

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"testing"
	"time"
)

func vseed() *rand.Rand {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(n)*7919 + 17))
}

func vcase(t *testing.T, name string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("VERIF-FAIL %s: panic: %v", name, r)
		}
	}()
	f()
}

type named string
type namedInt int64

func vvalues() []EncapsulatedValue {
	var r []EncapsulatedValue
	for _, n := range []uint64{0, 1, 2, 127, 128, 255} {
		r = append(r, Uint8(uint8(n)))
	}
	for _, n := range []uint64{0, 1, 255, 256, 65535} {
		r = append(r, Uint16(uint16(n)))
	}
	for _, n := range []uint64{0, 1, 65536, math.MaxUint32} {
		r = append(r, Uint32(uint32(n)))
	}
	for _, n := range []uint64{0, 1, math.MaxUint32 + 1, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64} {
		r = append(r, Uint64(n), Uint(uint(n)))
	}
	for _, n := range []int64{-128, -1, 0, 1, 127} {
		r = append(r, Int8(int8(n)))
	}
	for _, n := range []int64{-32768, -129, -1, 0, 1, 32767} {
		r = append(r, Int16(int16(n)))
	}
	for _, n := range []int64{math.MinInt32, -1, 0, 1, math.MaxInt32} {
		r = append(r, Int32(int32(n)))
	}
	for _, n := range []int64{math.MinInt64, -1 << 53, -1, 0, 1, 1<<53 + 1, math.MaxInt64} {
		r = append(r, Int64(n), Int(int(n)))
	}
	for _, f := range []float64{math.Inf(-1), -1.5, math.Copysign(0, -1), 0, 1e-40, 0.1, 1, 16777217, math.MaxFloat32, math.Inf(1)} {
		r = append(r, Float32(float32(f)), Float64(f))
	}
	r = append(r, Float64(math.MaxFloat64), Float64(5e-324))
	for _, s := range []string{"", "a", "A", "aa", "b", "10", "9", "é", "\x00", "z\xff"} {
		r = append(r, String(s))
	}
	return append(r, Any())
}

// reference order: by type, then by value
func vdataLess(a, b EncapsulatedValue) bool {
	x, y := reflect.ValueOf(a.Data), reflect.ValueOf(b.Data)
	if !x.IsValid() {
		return false
	}
	switch {
	case x.CanInt():
		return x.Int() < y.Int()
	case x.CanUint():
		return x.Uint() < y.Uint()
	case x.CanFloat():
		return x.Float() < y.Float()
	}
	return x.String() < y.String()
}

func TestVerifP01Order(t *testing.T) {
	vs := vvalues()
	rng := vseed()
	for i := 0; i < 60; i++ {
		vs = append(vs, Uint64(rng.Uint64()), Int64(int64(rng.Uint64())), Float64(rng.NormFloat64()), Float32(float32(rng.NormFloat64())), Uint8(uint8(rng.Intn(256))), String(strconv.Itoa(rng.Intn(100))))
	}
	n := 0
	for _, a := range vs {
		for _, b := range vs {
			n++
			lt := a.Type < b.Type || (a.Type == b.Type && vdataLess(a, b))
			vcase(t, fmt.Sprintf("LessMatchType(%v,%v)", a, b), func() {
				if g := a.LessMatchType(b); g != lt {
					t.Errorf("VERIF-FAIL LessMatchType(%v, %v) = %v, the order says %v", a, b, g, lt)
				}
			})
			noAny := a.Type != T_any && b.Type != T_any
			vcase(t, fmt.Sprintf("Less(%v,%v)", a, b), func() {
				if g := a.Less(b); g != (lt && noAny) {
					t.Errorf("VERIF-FAIL Less(%v, %v) = %v, the order says %v", a, b, g, lt && noAny)
				}
			})
			if g := a.Type.LessMatchType(b.Type); g != (a.Type < b.Type) {
				t.Errorf("VERIF-FAIL DataType.LessMatchType(%d, %d) = %v", a.Type, b.Type, g)
			}
			if g := a.Type.Less(b.Type); g != (a.Type < b.Type && noAny) {
				t.Errorf("VERIF-FAIL DataType.Less(%d, %d) = %v", a.Type, b.Type, g)
			}
			if t.Failed() {
				return
			}
		}
	}
	fmt.Println("VERIF-CASES order", n)
}

var vgo = map[DataType]reflect.Type{T_uint8: reflect.TypeOf(uint8(0)), T_uint16: reflect.TypeOf(uint16(0)), T_uint32: reflect.TypeOf(uint32(0)), T_uint64: reflect.TypeOf(uint64(0)), T_uint: reflect.TypeOf(uint(0)),
	T_int8: reflect.TypeOf(int8(0)), T_int16: reflect.TypeOf(int16(0)), T_int32: reflect.TypeOf(int32(0)), T_int64: reflect.TypeOf(int64(0)), T_int: reflect.TypeOf(int(0)),
	T_float32: reflect.TypeOf(float32(0)), T_float64: reflect.TypeOf(float64(0)), T_string: reflect.TypeOf("")}

func vok(dt DataType, d any) bool {
	if dt == 1024 {
		return d == nil
	}
	gt, ok := vgo[dt]
	if !ok || d == nil || reflect.TypeOf(d) != gt {
		return false
	}
	if v := reflect.ValueOf(d); v.CanFloat() && v.Float() != v.Float() {
		return false
	}
	return true
}

func TestVerifP02Validation(t *testing.T) {
	datas := []any{nil, true, named("x"), namedInt(3), time.Second, []int{1}, map[string]int{}, struct{}{}, math.NaN(), float32(math.NaN()), &struct{}{}, complex(1, 1), DataType(1), uintptr(1), 'a', byte(1)}
	for _, v := range vvalues() {
		datas = append(datas, v.Data)
	}
	types := []DataType{-1, 0, 14, 15, 1023, 1025}
	for i := DataType(1); i <= 13; i++ {
		types = append(types, i)
	}
	types = append(types, 1024)
	bounds := [][2]DataType{{1, 1024}, {1, 13}, {13, 13}, {5, 9}, {1024, 1024}, {9, 5}, {0, 0}, {2, 1023}}
	n := 0
	for _, dt := range types {
		for _, b := range bounds {
			in := b[0] <= dt && dt <= b[1]
			if g, w := dt.Validate(b[0], b[1]) == nil, in && (dt >= 1 && dt <= 13 || dt == 1024); g != w {
				t.Errorf("VERIF-FAIL DataType(%d).Validate(%d, %d) accepts=%v, want %v", dt, b[0], b[1], g, w)
				return
			}
			for _, d := range datas {
				n++
				w := in && vok(dt, d)
				ev := EncapsulatedValue{Type: dt, Data: d}
				vcase(t, fmt.Sprintf("Validate(%v)", ev), func() {
					if g := ValidateTypeAndData(dt, b[0], b[1], d) == nil; g != w {
						t.Errorf("VERIF-FAIL ValidateTypeAndData(%d, %d, %d, %T(%v)) accepts=%v, want %v", dt, b[0], b[1], d, d, g, w)
					}
					if g := ev.Validate(b[0], b[1]) == nil; g != w {
						t.Errorf("VERIF-FAIL %T(%v) as type %d: Validate(%d, %d) accepts=%v, want %v", d, d, dt, b[0], b[1], g, w)
					}
					if g := (KeyValues{"k": ev}).Validate(b[0], b[1]) == nil; g != w {
						t.Errorf("VERIF-FAIL KeyValues{k: %d %T(%v)}.Validate(%d, %d) accepts=%v, want %v", dt, d, d, b[0], b[1], g, w)
					}
					// a bad entry is found among good ones, whatever the order of iteration
					for i := 0; i < 6; i++ {
						g := (KeyValues{"a": Uint8(1), "b": Uint8(2), "c": ev, "d": Uint8(3), "e": Uint8(4)}).Validate(b[0], b[1]) == nil
						w2 := w && b[0] <= 1 && 1 <= b[1]
						if g != w2 {
							t.Errorf("VERIF-FAIL KeyValues with c: %d %T(%v).Validate(%d, %d) accepts=%v, want %v", dt, d, d, b[0], b[1], g, w2)
						}
					}
				})
				if t.Failed() {
					return
				}
			}
		}
	}
	if (KeyValues{}).Validate(1, 1024) == nil || KeyValues(nil).Validate(1, 1024) == nil {
		t.Errorf("VERIF-FAIL empty key values are accepted")
	}
	fmt.Println("VERIF-CASES validation", n)
}

// reference decoding of a text
func vdecode(dt DataType, s string) (any, bool) {
	gt, ok := vgo[dt]
	if !ok {
		return nil, false
	}
	v := reflect.New(gt).Elem()
	switch {
	case v.CanUint():
		u, err := strconv.ParseUint(s, 10, gt.Bits())
		if err != nil {
			return nil, false
		}
		v.SetUint(u)
	case v.CanInt():
		u, err := strconv.ParseInt(s, 10, gt.Bits())
		if err != nil {
			return nil, false
		}
		v.SetInt(u)
	case v.CanFloat():
		u, err := strconv.ParseFloat(s, gt.Bits())
		if err != nil {
			return nil, false
		}
		v.SetFloat(u)
	default:
		v.SetString(s)
	}
	return v.Interface(), true
}

func vsame(a, b any) bool {
	if a == nil || b == nil {
		return a == b
	}
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.Type() != y.Type() {
		return false
	}
	if x.CanFloat() {
		return math.Float64bits(x.Float()) == math.Float64bits(y.Float()) || x.Float() != x.Float() && y.Float() != y.Float()
	}
	return a == b
}

func TestVerifP03Wire(t *testing.T) {
	n := 0
	vs := vvalues()
	rng := vseed()
	for i := 0; i < 300; i++ {
		vs = append(vs, Uint64(rng.Uint64()), Int64(int64(rng.Uint64())), Int(int(rng.Uint64())), Float64(math.Float64frombits(rng.Uint64())), Float32(math.Float32frombits(rng.Uint32())), Int16(int16(rng.Intn(65536))))
	}
	for _, v := range vs {
		if s, ok := v.Data.(string); ok && s == "z\xff" {
			continue
		}
		if f := reflect.ValueOf(v.Data); f.IsValid() && f.CanFloat() && f.Float() != f.Float() {
			continue
		}
		n++
		vcase(t, fmt.Sprintf("round trip of %v", v), func() {
			b, err := json.Marshal(v)
			if err != nil {
				t.Errorf("VERIF-FAIL %v does not encode: %v", v, err)
				return
			}
			var got EncapsulatedValue
			if err := json.Unmarshal(b, &got); err != nil || got.Type != v.Type || !vsame(got.Data, v.Data) {
				t.Errorf("VERIF-FAIL %d %T(%v) comes back from %s as %d %T(%v), error %v", v.Type, v.Data, v.Data, b, got.Type, got.Data, got.Data, err)
			}
			kb, err := json.Marshal(KeyValues{"k": v, "other": Int(3)})
			if err != nil {
				t.Errorf("VERIF-FAIL key values with %v do not encode: %v", v, err)
				return
			}
			var kv KeyValues
			if err := json.Unmarshal(kb, &kv); err != nil || len(kv) != 2 || kv["k"].Type != v.Type || !vsame(kv["k"].Data, v.Data) || kv["other"] != Int(3) {
				t.Errorf("VERIF-FAIL key values %s come back as %v, error %v", kb, kv, err)
			}
		})
		if t.Failed() {
			return
		}
	}
	texts := []string{"", "0", "1", "-0", "+1", "-1", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
		"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "0x10", "1_000", " 1", "1 ", "1.0", "1.5", "1e3", "1e39", "-1e39", "1e309", "3.4028235e38", "abc", "é", "0.1", "16777217", "1e-46"}
	for dt := DataType(-1); dt < 1030; dt++ {
		if dt == 20 {
			dt = 1020
		}
		for _, s := range texts {
			n++
			want, ok := vdecode(dt, s)
			doc, _ := json.Marshal(map[string]any{"Type": dt, "Data": s})
			vcase(t, fmt.Sprintf("decode %s", doc), func() {
				ev := EncapsulatedValue{Type: 77, Data: "before"}
				err := json.Unmarshal(doc, &ev)
				if (err == nil) != ok {
					t.Errorf("VERIF-FAIL decoding %s: error %v, accepted=%v, want accepted=%v", doc, err, err == nil, ok)
				} else if ok && (ev.Type != dt || !vsame(ev.Data, want)) {
					t.Errorf("VERIF-FAIL decoding %s gives %d %T(%v), want %T(%v)", doc, ev.Type, ev.Data, ev.Data, want, want)
				} else if !ok && (ev.Type != 77 || ev.Data != "before") {
					t.Errorf("VERIF-FAIL a rejected document %s changed the value to %v", doc, ev)
				}
				var kv KeyValues
				err = json.Unmarshal([]byte(`{"a":{"Type":13,"Data":"x"},"b":`+string(doc)+`,"c":{"Type":5,"Data":"7"}}`), &kv)
				if (err == nil) != ok {
					t.Errorf("VERIF-FAIL key values with %s: error %v, want accepted=%v", doc, err, ok)
				} else if ok && (len(kv) != 3 || kv["b"].Type != dt || !vsame(kv["b"].Data, want) || kv["a"] != String("x") || kv["c"] != Uint(7)) {
					t.Errorf("VERIF-FAIL key values with %s come back as %v", doc, kv)
				}
			})
			if t.Failed() {
				return
			}
		}
		for _, d := range []any{nil, true, 1.5, 1, []int{1}, map[string]any{"a": 1}} {
			n++
			doc, _ := json.Marshal(map[string]any{"Type": dt, "Data": d})
			ok := dt == 1024 && d == nil
			vcase(t, fmt.Sprintf("decode %s", doc), func() {
				var ev EncapsulatedValue
				if err := json.Unmarshal(doc, &ev); (err == nil) != ok {
					t.Errorf("VERIF-FAIL decoding %s: error %v, want accepted=%v", doc, err, ok)
				}
				if _, err := StringDecoding(dt, d); (err == nil) != ok {
					t.Errorf("VERIF-FAIL StringDecoding(%d, %v): error %v, want accepted=%v", dt, d, err, ok)
				}
			})
		}
	}
	fmt.Println("VERIF-CASES wire", n)
}
