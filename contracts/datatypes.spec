# Typed values: the order, validation and wire encoding of EncapsulatedValue.
package pkg/models/datatypes

# d is a value of exactly the dynamic type that t announces; NaN is not an ordered value
define wfData(t DataType, d any) bool =
  (t == T_uint8 && is(d, uint8)) || (t == T_uint16 && is(d, uint16)) || (t == T_uint32 && is(d, uint32)) ||
  (t == T_uint64 && is(d, uint64)) || (t == T_uint && is(d, uint)) || (t == T_int8 && is(d, int8)) ||
  (t == T_int16 && is(d, int16)) || (t == T_int32 && is(d, int32)) || (t == T_int64 && is(d, int64)) ||
  (t == T_int && is(d, int)) || (t == T_float32 && is(d, float32) && !isNaN(as(d, float32))) ||
  (t == T_float64 && is(d, float64) && !isNaN(as(d, float64))) ||
  (t == T_string && is(d, string)) || (t == T_any && d == nil)
define wfEV(e EncapsulatedValue) bool = wfData(e.Type, e.Data)

define dataLess(t DataType, a any, b any) bool =
  (t == T_uint8 && as(a, uint8) < as(b, uint8)) || (t == T_uint16 && as(a, uint16) < as(b, uint16)) ||
  (t == T_uint32 && as(a, uint32) < as(b, uint32)) || (t == T_uint64 && as(a, uint64) < as(b, uint64)) ||
  (t == T_uint && as(a, uint) < as(b, uint)) || (t == T_int8 && as(a, int8) < as(b, int8)) ||
  (t == T_int16 && as(a, int16) < as(b, int16)) || (t == T_int32 && as(a, int32) < as(b, int32)) ||
  (t == T_int64 && as(a, int64) < as(b, int64)) || (t == T_int && as(a, int) < as(b, int)) ||
  (t == T_float32 && as(a, float32) < as(b, float32)) || (t == T_float64 && as(a, float64) < as(b, float64)) ||
  (t == T_string && as(a, string) < as(b, string))

# the strict order (Any is the greatest value)
define evLT(a EncapsulatedValue, b EncapsulatedValue) bool = a.Type < b.Type || (a.Type == b.Type && dataLess(a.Type, a.Data, b.Data))
# the order in which Any is never less and never greater
define evLess(a EncapsulatedValue, b EncapsulatedValue) bool = a.Type != T_any && b.Type != T_any && evLT(a, b)
# equality of values (floats: numeric equality, so 0 == -0)
define evSame(a EncapsulatedValue, b EncapsulatedValue) bool = a.Type == b.Type &&
  ((a.Type == T_float32 && feq(as(a.Data, float32), as(b.Data, float32))) || (a.Type == T_float64 && feq(as(a.Data, float64), as(b.Data, float64))) ||
   (a.Type != T_float32 && a.Type != T_float64 && a.Data == b.Data))

func DataType.Less(dt, compare) (result)
  property P01
  ensures result == (dt != T_any && compare != T_any && dt < compare)

func DataType.LessMatchType(dt, compare) (result)
  property P01
  ensures result == (dt < compare)

func EncapsulatedValue.Less(ev, o) (result)
  property P01
  requires wfEV(ev) && wfEV(o)
  ensures [is-the-order] result == evLess(ev, o)

func EncapsulatedValue.LessMatchType(ev, o) (result)
  property P01
  requires wfEV(ev) && wfEV(o)
  ensures [is-the-strict-order] result == evLT(ev, o)

lemma {P01} [irreflexive] forall a EncapsulatedValue :: wfEV(a) ==> !evLT(a, a)
lemma {P01} [asymmetric] forall a EncapsulatedValue, b EncapsulatedValue :: wfEV(a) && wfEV(b) && evLT(a, b) ==> !evLT(b, a)
lemma {P01} [transitive] forall a EncapsulatedValue, b EncapsulatedValue, c EncapsulatedValue :: wfEV(a) && wfEV(b) && wfEV(c) && evLT(a, b) && evLT(b, c) ==> evLT(a, c)
lemma {P01} [total] forall a EncapsulatedValue, b EncapsulatedValue :: wfEV(a) && wfEV(b) ==> evLT(a, b) || evLT(b, a) || evSame(a, b)
lemma {P01} [same-not-less] forall a EncapsulatedValue, b EncapsulatedValue :: wfEV(a) && wfEV(b) && evSame(a, b) ==> !evLT(a, b)
lemma {P01} [any-greatest] forall a EncapsulatedValue, b EncapsulatedValue :: wfEV(a) && wfEV(b) && b.Type == T_any && a.Type != T_any ==> evLT(a, b)


# ----- validation -----
define general(t DataType) bool = 1 <= t && t <= 13

func DataType.ToString(dt) (result)
  property P02,P03
  ensures true

func DataType.Validate(dt, min, max) (err)
  property P02,P05
  ensures [exact] (err == nil) == (min <= dt && dt <= max && (general(dt) || dt == T_any))

func ValidateTypeAndData(dataType, minAllowedKeyType, maxAllowedKeyType, data) (err)
  property P02,P05
  ensures [exact] (err == nil) == (wfData(dataType, data) && minAllowedKeyType <= dataType && dataType <= maxAllowedKeyType)

func EncapsulatedValue.Validate(ev, minAllowedKeyType, maxAllowedKeyType) (err)
  property P02,P05
  ensures [exact] (err == nil) == (wfEV(ev) && minAllowedKeyType <= ev.Type && ev.Type <= maxAllowedKeyType)

define validKVs(kv KeyValues, min DataType, max DataType) bool = len(kv) != 0 && (forall k string :: k in kv ==> wfEV(kv[k]) && min <= kv[k].Type && kv[k].Type <= max)

func KeyValues.Validate(kv, minAllowedKeyType, maxAllowedKeyType) (err)
  property P02,P05
  ensures [exact] (err == nil) == validKVs(kv, minAllowedKeyType, maxAllowedKeyType)
  loop 1
    invariant forall k string :: $seen[k] ==> wfEV(kv[k]) && minAllowedKeyType <= kv[k].Type && kv[k].Type <= maxAllowedKeyType

# ----- wire encoding -----
# text to number, as strconv reads it
declare is_int(s string) bool
declare int_of(s string) int
declare is_float(s string, bits int) bool
declare float_of(s string, bits int) float64
declare utf8(s string) bool

# the text s stands for the value d of type t
define textFor(t DataType, s string, d any) bool =
  (t == T_uint8 && is(d, uint8) && is_int(s) && 0 <= int_of(s) && int_of(s) <= 255 && as(d, uint8) == int_of(s)) ||
  (t == T_uint16 && is(d, uint16) && is_int(s) && 0 <= int_of(s) && int_of(s) <= 65535 && as(d, uint16) == int_of(s)) ||
  (t == T_uint32 && is(d, uint32) && is_int(s) && 0 <= int_of(s) && int_of(s) <= 4294967295 && as(d, uint32) == int_of(s)) ||
  (t == T_uint64 && is(d, uint64) && is_int(s) && 0 <= int_of(s) && int_of(s) <= 18446744073709551615 && as(d, uint64) == int_of(s)) ||
  (t == T_uint && is(d, uint) && is_int(s) && 0 <= int_of(s) && int_of(s) <= 18446744073709551615 && as(d, uint) == int_of(s)) ||
  (t == T_int8 && is(d, int8) && is_int(s) && -128 <= int_of(s) && int_of(s) <= 127 && as(d, int8) == int_of(s)) ||
  (t == T_int16 && is(d, int16) && is_int(s) && -32768 <= int_of(s) && int_of(s) <= 32767 && as(d, int16) == int_of(s)) ||
  (t == T_int32 && is(d, int32) && is_int(s) && -2147483648 <= int_of(s) && int_of(s) <= 2147483647 && as(d, int32) == int_of(s)) ||
  (t == T_int64 && is(d, int64) && is_int(s) && -9223372036854775808 <= int_of(s) && int_of(s) <= 9223372036854775807 && as(d, int64) == int_of(s)) ||
  (t == T_int && is(d, int) && is_int(s) && -9223372036854775808 <= int_of(s) && int_of(s) <= 9223372036854775807 && as(d, int) == int_of(s)) ||
  (t == T_float32 && is(d, float32) && is_float(s, 32) && as(d, float32) == tof32(float_of(s, 32))) ||
  (t == T_float64 && is(d, float64) && is_float(s, 64) && as(d, float64) == float_of(s, 64)) ||
  (t == T_string && is(d, string) && as(d, string) == s)
# the text s stands for some value of type t
define textOK(t DataType, s string) bool =
  (t == T_uint8 && is_int(s) && 0 <= int_of(s) && int_of(s) <= 255) ||
  (t == T_uint16 && is_int(s) && 0 <= int_of(s) && int_of(s) <= 65535) ||
  (t == T_uint32 && is_int(s) && 0 <= int_of(s) && int_of(s) <= 4294967295) ||
  (t == T_uint64 && is_int(s) && 0 <= int_of(s) && int_of(s) <= 18446744073709551615) ||
  (t == T_uint && is_int(s) && 0 <= int_of(s) && int_of(s) <= 18446744073709551615) ||
  (t == T_int8 && is_int(s) && -128 <= int_of(s) && int_of(s) <= 127) ||
  (t == T_int16 && is_int(s) && -32768 <= int_of(s) && int_of(s) <= 32767) ||
  (t == T_int32 && is_int(s) && -2147483648 <= int_of(s) && int_of(s) <= 2147483647) ||
  (t == T_int64 && is_int(s) && -9223372036854775808 <= int_of(s) && int_of(s) <= 9223372036854775807) ||
  (t == T_int && is_int(s) && -9223372036854775808 <= int_of(s) && int_of(s) <= 9223372036854775807) ||
  (t == T_float32 && is_float(s, 32)) || (t == T_float64 && is_float(s, 64)) || t == T_string
# e is the wire form of the value d of type t
define wireFor(t DataType, e any, d any) bool = (t == T_any && e == nil && d == nil) || (is(e, string) && textFor(t, as(e, string), d))
define wireOK(t DataType, e any) bool = (t == T_any && e == nil) || (is(e, string) && textOK(t, as(e, string)))
# wire forms survive a JSON document: numbers do, text has to be valid UTF-8
define wireClean(e any) bool = e == nil || (is(e, string) && utf8(as(e, string)))

func StringEncoding(dataType, data) (result)
  property P03
  requires wfData(dataType, data)
  ensures [stands-for-the-value] wireFor(dataType, result, data)
  ensures [survives-json] dataType == T_string || wireClean(result)

func StringDecoding(dataType, data) (result, err)
  property P03
  requires !is(data, string) ==> kindof(data) != 24
  ensures [accepts-exactly] (err == nil) == wireOK(dataType, data)
  ensures [decodes] err == nil ==> wireFor(dataType, data, result)

declare json_Type(b smap[int]uint8, off int, len int) DataType
declare json_Data(b smap[int]uint8, off int, len int) any
define docType(b []byte) DataType = json_Type(elems(b), off(b), len(b))
define docData(b []byte) any = json_Data(elems(b), off(b), len(b))

func EncapsulatedValue.MarshalJSON(ev) (result, err)
  modifies ghosts
  property P03
  requires wfEV(ev)
  ensures [type] err == nil ==> docType(result) == ev.Type
  ensures [data] err == nil && (ev.Type != T_string || utf8(as(ev.Data, string))) ==> wireFor(ev.Type, docData(result), ev.Data)

func *EncapsulatedValue.UnmarshalJSON(ev, b) (err)
  property P03
  modifies ev.Type, ev.Data
  ensures [decodes] err == nil ==> ev.Type == old(docType(b)) && wireFor(old(docType(b)), old(docData(b)), ev.Data)
  ensures [rejects-bad-data] err == nil ==> old(wireOK(docType(b), docData(b)))
  ensures [untouched-on-error] err != nil ==> ev.Type == old(ev.Type) && ev.Data == old(ev.Data)

declare json_has(b smap[int]uint8, off int, len int, k string) bool
declare json_at_Type(b smap[int]uint8, off int, len int, k string) DataType
declare json_at_Data(b smap[int]uint8, off int, len int, k string) any
define docHas(b []byte, k string) bool = json_has(elems(b), off(b), len(b), k)
define docTypeAt(b []byte, k string) DataType = json_at_Type(elems(b), off(b), len(b), k)
define docDataAt(b []byte, k string) any = json_at_Data(elems(b), off(b), len(b), k)

func *KeyValues.UnmarshalJSON(kv, b) (err)
  property P03
  modifies *kv, map(*kv)
  ensures [every-entry] err == nil ==> forall k string :: old(docHas(b, k)) ==> k in *kv && (*kv)[k].Type == old(docTypeAt(b, k)) && wireFor(old(docTypeAt(b, k)), old(docDataAt(b, k)), (*kv)[k].Data)
  ensures [nothing-else] err == nil ==> forall k string :: k in *kv ==> old(docHas(b, k)) || old(*kv != nil && k in *kv)
  loop 1
    invariant forall k string :: $seen[k] ==> k in *kv && (*kv)[k].Type == old(docTypeAt(b, k)) && wireFor(old(docTypeAt(b, k)), old(docDataAt(b, k)), (*kv)[k].Data)
    invariant forall k string :: k in *kv ==> $seen[k] || old(*kv != nil && k in *kv)
    invariant *kv != nil

lemma {P03} [round-trip] forall t DataType, e any, d any, d2 any :: wfData(t, d) && wireFor(t, e, d) && wireFor(t, e, d2) ==> d == d2
lemma {P03} [accepted] forall t DataType, e any, d any :: wireFor(t, e, d) ==> wireOK(t, e)
