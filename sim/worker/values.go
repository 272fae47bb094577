package main

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strings"
	"time"
)

var (
	typTime = reflect.TypeOf(time.Time{})
	typErr  = reflect.TypeOf((*error)(nil)).Elem()
)

var spicy = []string{
	"", " ", "a", "ä", "日本", "\"q\"", "back\\slash", "line\nfeed", "tab\t", "\u2028", "<b>&amp;</b>", "null", "0", "{}", "[]",
	"emoji 😀", "\x00nul", "\x7f", "very " + strings.Repeat("long ", 60), "%s%d", "true", "-1", "'", "/", "\u200f rtl",
}

// genString draws a string that is unique per draw with high probability.
func genString(r *rng) string {
	switch r.n(8) {
	case 0:
		return spicy[r.n(len(spicy))]
	case 1:
		return spicy[r.n(len(spicy))] + fmt.Sprintf("%x", r.u64()&0xffffff)
	default:
		return fmt.Sprintf("v%x", r.u64()&0xffffffffff)
	}
}

func genInt(r *rng, bits int) int64 {
	lo, hi := int64(-1)<<(bits-1), int64(uint64(1)<<(bits-1)-1)
	switch r.n(10) {
	case 0:
		return 0
	case 1:
		return lo
	case 2:
		return hi
	case 3:
		return -1
	case 4:
		return int64(r.n(256)) - 128
	default:
		v := int64(r.u64())
		if bits < 64 {
			v = v << (64 - bits) >> (64 - bits)
		}
		return v
	}
}

func genUint(r *rng, bits int) uint64 {
	hi := uint64(math.MaxUint64) >> (64 - bits)
	switch r.n(8) {
	case 0:
		return 0
	case 1:
		return hi
	case 2:
		return hi>>1 + 1
	case 3:
		return uint64(r.n(300)) & hi
	default:
		return r.u64() & hi
	}
}

func genFloat(r *rng) float64 {
	switch r.n(8) {
	case 0:
		return 0
	case 1:
		return float64(r.n(1000))
	case 2:
		return -float64(r.n(1000)) / 7
	case 3:
		return math.MaxFloat64
	case 4:
		return math.SmallestNonzeroFloat64
	case 5:
		return 1e21 + float64(r.n(1000))*1e16
	default:
		return (float64(int64(r.u64()>>11)) - (1 << 52)) / float64(1+r.n(1<<20))
	}
}

// genValue draws a value of type t. size bounds the nesting.
func genValue(r *rng, t reflect.Type, size int) reflect.Value {
	v := reflect.New(t).Elem()
	fill(r, v, size)
	return v
}

func fill(r *rng, v reflect.Value, size int) {
	t := v.Type()
	if t == typTime {
		ms := []int64{0, 1, 999, -1, 1700000000123, 4102444800000, -62135596800000, 951782400000}[r.n(8)]
		if r.n(2) == 0 {
			ms = int64(r.u64()%4102444800000) - 1000000000000
		}
		v.Set(reflect.ValueOf(time.UnixMilli(ms).UTC()))
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.n(2) == 0)
	case reflect.Int, reflect.Int64:
		v.SetInt(genInt(r, 64))
	case reflect.Int32:
		v.SetInt(genInt(r, 32))
	case reflect.Int16:
		v.SetInt(genInt(r, 16))
	case reflect.Int8:
		v.SetInt(genInt(r, 8))
	case reflect.Uint, reflect.Uint64:
		v.SetUint(genUint(r, 64))
	case reflect.Uint32:
		v.SetUint(genUint(r, 32))
	case reflect.Uint16:
		v.SetUint(genUint(r, 16))
	case reflect.Uint8:
		v.SetUint(genUint(r, 8))
	case reflect.Float64:
		v.SetFloat(genFloat(r))
	case reflect.Float32:
		f := float32(genFloat(r))
		if math.IsInf(float64(f), 0) {
			f = math.MaxFloat32
		}
		v.SetFloat(float64(f))
	case reflect.String:
		v.SetString(genString(r))
	case reflect.Slice:
		if r.n(6) == 0 {
			return // nil
		}
		n := 0
		if size > 0 {
			n = r.n(size + 1)
		}
		if k := t.Elem().Kind(); r.n(12) == 0 && k != reflect.Struct && k != reflect.Ptr {
			n = r.n(40)
		}
		v.Set(reflect.MakeSlice(t, n, n))
		for i := 0; i < n; i++ {
			fill(r, v.Index(i), size-1)
		}
	case reflect.Map:
		if r.n(6) == 0 {
			return
		}
		n := 0
		if size > 0 {
			n = r.n(size + 1)
		}
		v.Set(reflect.MakeMap(t))
		for i := 0; i < n; i++ {
			k := reflect.New(t.Key()).Elem()
			fill(r, k, 0)
			e := reflect.New(t.Elem()).Elem()
			fill(r, e, size-1)
			v.SetMapIndex(k, e)
		}
	case reflect.Ptr:
		if size <= 0 || r.n(4) == 0 {
			return
		}
		v.Set(reflect.New(t.Elem()))
		fill(r, v.Elem(), size-1)
		if t.Elem() == typTime && v.Elem().Interface().(time.Time).IsZero() {
			v.SetZero() // see mode zerotime
		}
		if k := t.Elem().Kind(); (k == reflect.Slice || k == reflect.Map) && v.Elem().IsNil() {
			v.SetZero() // both encodings have one nil only
		}
	case reflect.Struct:
		if isUnion(t) {
			if i := r.n(t.NumField() + 1); i < t.NumField() {
				v.Field(i).Set(reflect.New(t.Field(i).Type.Elem()))
				if r.n(6) > 0 { // or nothing but its kind
					fill(r, v.Field(i).Elem(), max(size, 1))
				}
			}
			return
		}
		defer zeroHidden(v)
		if size > 0 && r.n(30) == 0 {
			defer deepen(r, v, 15+r.n(120))
		}
		for i := 0; i < t.NumField(); i++ {
			if f := t.Field(i); f.PkgPath == "" {
				if f.Anonymous && f.Type.Kind() == reflect.Ptr && r.n(3) > 0 { // its fields are sent, so it comes back
					v.Field(i).Set(reflect.New(f.Type.Elem()))
					fill(r, v.Field(i).Elem(), size-1)
					continue
				}
				fill(r, v.Field(i), size-1)
				// an empty value of an optional field is not sent; a negative
				// zero is by some of the codec's ways
				if k := f.Type.Kind(); strings.Contains(f.Tag.Get("json"), ",omitempty") &&
					((k == reflect.Slice || k == reflect.Map) && v.Field(i).Len() == 0 || v.Field(i).CanFloat() && v.Field(i).Float() == 0) {
					v.Field(i).SetZero()
				}
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(r, v.Index(i), size-1)
		}
	case reflect.Interface:
		if t.NumMethod() == 0 {
			if x := genAny(r, size); x != nil {
				v.Set(reflect.ValueOf(x))
			}
		}
	default:
		panic("no generator for " + t.String())
	}
}

// deepen hangs a long chain of values of its own type on a struct.
func deepen(r *rng, v reflect.Value, depth int) {
	t := v.Type()
	var own []int
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if k := f.Type.Kind(); f.PkgPath == "" && !f.Anonymous && jsonName(f) != "-" &&
			(k == reflect.Ptr || k == reflect.Slice) && f.Type.Elem() == t {
			own = append(own, i)
		}
	}
	if len(own) == 0 {
		return
	}
	for ; depth > 0; depth-- {
		f := v.Field(own[r.n(len(own))])
		if f.Kind() == reflect.Ptr {
			f.Set(reflect.New(t))
			v = f.Elem()
		} else {
			f.Set(reflect.MakeSlice(f.Type(), 1, 1))
			v = f.Index(0)
		}
		fill(r, v, 0)
	}
}

// equiv compares two values of the same static type the way a caller would:
// instants by instant, everything else exactly; a nil slice or map is the same
// as an empty one only when loose is set.
func equiv(a, b reflect.Value, loose bool) (bool, string) { return eqv(a, b, loose, "") }

func eqv(a, b reflect.Value, loose bool, at string) (bool, string) {
	if a.IsValid() != b.IsValid() {
		return false, at + ": one side missing"
	}
	if !a.IsValid() {
		return true, ""
	}
	if a.Type() != b.Type() {
		return false, fmt.Sprintf("%s: type %s vs %s", at, a.Type(), b.Type())
	}
	t := a.Type()
	if t == typTime {
		x, y := a.Interface().(time.Time), b.Interface().(time.Time)
		if !x.Equal(y) {
			return false, fmt.Sprintf("%s: %v vs %v", at, x, y)
		}
		return true, ""
	}
	switch t.Kind() {
	case reflect.Slice:
		if a.IsNil() != b.IsNil() && !(loose && a.Len() == 0 && b.Len() == 0) {
			return false, fmt.Sprintf("%s: nil %v vs %v", at, a.IsNil(), b.IsNil())
		}
		fallthrough
	case reflect.Array:
		if a.Len() != b.Len() {
			return false, fmt.Sprintf("%s: len %d vs %d", at, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if ok, w := eqv(a.Index(i), b.Index(i), loose, fmt.Sprintf("%s[%d]", at, i)); !ok {
				return false, w
			}
		}
		return true, ""
	case reflect.Map:
		if a.IsNil() != b.IsNil() && !(loose && a.Len() == 0 && b.Len() == 0) {
			return false, fmt.Sprintf("%s: nil %v vs %v", at, a.IsNil(), b.IsNil())
		}
		if a.Len() != b.Len() {
			return false, fmt.Sprintf("%s: len %d vs %d", at, a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			bv := b.MapIndex(k)
			if !bv.IsValid() {
				return false, fmt.Sprintf("%s: key %q missing", at, fmt.Sprint(k))
			}
			if ok, w := eqv(a.MapIndex(k), bv, loose, fmt.Sprintf("%s[%v]", at, k)); !ok {
				return false, w
			}
		}
		return true, ""
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return false, fmt.Sprintf("%s: nil pointer %v vs %v", at, a.IsNil(), b.IsNil())
			}
			return true, ""
		}
		return eqv(a.Elem(), b.Elem(), loose, at)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath != "" || t.Field(i).Tag.Get("json") == "-" {
				continue
			}
			x, y := a.Field(i), b.Field(i)
			if f := t.Field(i); f.Anonymous && f.Type.Kind() == reflect.Ptr && strings.Split(f.Tag.Get("json"), ",")[0] == "" && x.IsNil() != y.IsNil() {
				// only the fields are sent: none is as good as one with nothing in it
				if x.IsNil() {
					x = reflect.New(f.Type.Elem())
				} else {
					y = reflect.New(f.Type.Elem())
				}
			}
			if ok, w := eqv(x, y, loose, at+"."+t.Field(i).Name); !ok {
				return false, w
			}
		}
		return true, ""
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return false, at + ": nil interface mismatch"
			}
			return true, ""
		}
		return anyEq(a.Elem(), b.Elem(), at)
	default:
		if a.Interface() != b.Interface() {
			return false, fmt.Sprintf("%s: %s vs %s", at, clip(fmt.Sprintf("%#v", a.Interface())), clip(fmt.Sprintf("%#v", b.Interface())))
		}
		return true, ""
	}
}

// equivAny compares two lists of values held in interfaces.
func equivAny(a, b []any, loose bool) (bool, string) {
	if len(a) != len(b) {
		return false, fmt.Sprintf("count %d vs %d", len(a), len(b))
	}
	for i := range a {
		if x, y := reflect.ValueOf(a[i]), reflect.ValueOf(b[i]); x.IsValid() && y.IsValid() && x.Type() != y.Type() {
			// only values of interface type differ in type
			if ok, w := anyEq(x, y, fmt.Sprintf("#%d", i)); !ok {
				return false, w
			}
			continue
		}
		if ok, w := eqv(reflect.ValueOf(a[i]), reflect.ValueOf(b[i]), loose, fmt.Sprintf("#%d", i)); !ok {
			return false, w
		}
	}
	return true, ""
}

// deepCopy snapshots a value so later mutation by the code under test shows.
func deepCopy(v reflect.Value) reflect.Value {
	if !v.IsValid() {
		return v
	}
	t := v.Type()
	out := reflect.New(t).Elem()
	if t == typTime {
		out.Set(v)
		return out
	}
	switch t.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return out
		}
		out.Set(reflect.MakeSlice(t, v.Len(), v.Len()))
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(deepCopy(v.Index(i)))
		}
	case reflect.Map:
		if v.IsNil() {
			return out
		}
		out.Set(reflect.MakeMap(t))
		for _, k := range v.MapKeys() {
			out.SetMapIndex(k, deepCopy(v.MapIndex(k)))
		}
	case reflect.Ptr:
		if v.IsNil() {
			return out
		}
		out.Set(reflect.New(t.Elem()))
		out.Elem().Set(deepCopy(v.Elem()))
	case reflect.Interface:
		if !v.IsNil() {
			out.Set(deepCopy(v.Elem()))
		}
	case reflect.Struct:
		out.Set(v)
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath == "" {
				out.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
	default:
		out.Set(v)
	}
	return out
}

func copyAny(a []any) []any {
	out := make([]any, len(a))
	for i, v := range a {
		if v == nil {
			continue
		}
		if _, ok := v.(error); ok {
			out[i] = v
			continue
		}
		out[i] = deepCopy(reflect.ValueOf(v)).Interface()
	}
	return out
}

func clip(s string) string {
	if len(s) > 160 {
		return s[:160] + "…"
	}
	return s
}

// genAny draws a value of no particular type.
func genAny(r *rng, size int) any {
	k := r.n(8)
	if size <= 0 {
		k = r.n(6)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return r.n(2) == 0
	case 2:
		if r.n(4) == 0 {
			return genInt(r, 64)
		}
		return int64(r.n(2000)) - 500
	case 3:
		return float64(r.n(1000)) + 0.5
	case 4, 5:
		return genString(r)
	case 6:
		l := []any{}
		for n := r.n(4); n > 0; n-- {
			l = append(l, genAny(r, size-1))
		}
		return l
	default:
		m := map[string]any{}
		for n := r.n(4); n > 0; n-- {
			m[genString(r)] = genAny(r, size-1)
		}
		return m
	}
}

// anyEq compares what interfaces hold: numbers by value, lists and maps by content.
func anyEq(a, b reflect.Value, at string) (bool, string) {
	for a.IsValid() && a.Kind() == reflect.Interface {
		a = a.Elem()
	}
	for b.IsValid() && b.Kind() == reflect.Interface {
		b = b.Elem()
	}
	if a.IsValid() != b.IsValid() {
		return false, at + ": one side nil"
	}
	if !a.IsValid() {
		return true, ""
	}
	if x, ok := whole(a); ok {
		if y, ok := whole(b); ok { // a float64 does not hold all of them
			if x.Cmp(y) != 0 {
				return false, fmt.Sprintf("%s: %v vs %v", at, a, b)
			}
			return true, ""
		}
	}
	if x, ok := number(a); ok {
		if y, ok := number(b); !ok || x != y {
			return false, fmt.Sprintf("%s: %v vs %v", at, a, b)
		}
		return true, ""
	}
	if a.Kind() != b.Kind() {
		return false, fmt.Sprintf("%s: a %s vs a %s", at, a.Type(), b.Type())
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false, fmt.Sprintf("%s: len %d vs %d", at, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if ok, w := anyEq(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", at, i)); !ok {
				return false, w
			}
		}
		return true, ""
	case reflect.Map:
		if a.Len() != b.Len() {
			return false, fmt.Sprintf("%s: len %d vs %d", at, a.Len(), b.Len())
		}
		if a.Type() != b.Type() {
			return false, fmt.Sprintf("%s: a %s vs a %s", at, a.Type(), b.Type())
		}
		vals := map[string]reflect.Value{}
		for _, k := range b.MapKeys() {
			vals[fmt.Sprint(k.Interface())] = b.MapIndex(k)
		}
		for _, k := range a.MapKeys() {
			x, ok := vals[fmt.Sprint(k.Interface())]
			if !ok {
				return false, fmt.Sprintf("%s: key %q missing", at, fmt.Sprint(k.Interface()))
			}
			if ok, w := anyEq(a.MapIndex(k), x, fmt.Sprintf("%s[%v]", at, k)); !ok {
				return false, w
			}
		}
		return true, ""
	}
	if a.Type() != b.Type() || a.Interface() != b.Interface() {
		return false, fmt.Sprintf("%s: %s vs %s", at, clip(fmt.Sprintf("%#v", a.Interface())), clip(fmt.Sprintf("%#v", b.Interface())))
	}
	return true, ""
}

func whole(v reflect.Value) (*big.Int, bool) {
	switch {
	case v.CanInt():
		return big.NewInt(v.Int()), true
	case v.CanUint():
		return new(big.Int).SetUint64(v.Uint()), true
	case v.CanFloat() && !math.IsInf(v.Float(), 0) && !math.IsNaN(v.Float()):
		i, acc := big.NewFloat(v.Float()).Int(nil)
		return i, acc == big.Exact
	}
	return nil, false
}

func number(v reflect.Value) (float64, bool) {
	switch {
	case v.CanInt():
		return float64(v.Int()), true
	case v.CanUint():
		return float64(v.Uint()), true
	case v.CanFloat():
		return v.Float(), true
	}
	return 0, false
}

func isUnion(t reflect.Type) bool {
	return t.Kind() == reflect.Struct && t.NumField() > 0 && t.Field(0).Tag.Get("gotsrpc") == "union"
}

// zeroHidden clears the fields of embedded structs which are not sent, because
// a field of the struct around them has their name.
func zeroHidden(v reflect.Value) {
	names := map[string]bool{}
	for i := 0; i < v.NumField(); i++ {
		if f := v.Type().Field(i); !f.Anonymous && f.PkgPath == "" && f.Tag.Get("json") != "-" {
			names[jsonName(f)] = true
		}
	}
	var clear func(x reflect.Value)
	clear = func(x reflect.Value) {
		for x.Kind() == reflect.Ptr {
			if x.IsNil() {
				return
			}
			x = x.Elem()
		}
		if x.Kind() != reflect.Struct {
			return
		}
		for i := 0; i < x.NumField(); i++ {
			f := x.Type().Field(i)
			switch {
			case f.Anonymous && inlined(f):
				clear(x.Field(i))
			case f.PkgPath == "" && names[jsonName(f)]:
				x.Field(i).SetZero()
			}
		}
	}
	for i := 0; i < v.NumField(); i++ {
		if f := v.Type().Field(i); f.Anonymous && inlined(f) {
			clear(v.Field(i))
		}
	}
}

func inlined(f reflect.StructField) bool {
	name, _, _ := strings.Cut(f.Tag.Get("json"), ",")
	return name == ""
}

func jsonName(f reflect.StructField) string {
	name, _, _ := strings.Cut(f.Tag.Get("json"), ",")
	if name == "" {
		return f.Name
	}
	return name
}
