package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"
)

// jsonWant is what a value stands for in JSON: times are milliseconds, bytes
// are base64, a union is the one of its fields which is set.
func jsonWant(v reflect.Value) any {
	if !v.IsValid() {
		return nil
	}
	if v.Type() == typTime {
		return json.Number(strconv.FormatInt(v.Interface().(time.Time).UnixMilli(), 10))
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return jsonWant(v.Elem())
	case reflect.Slice:
		if v.IsNil() {
			return nil
		}
		if v.Type().Elem() == reflect.TypeOf(byte(0)) {
			return base64.StdEncoding.EncodeToString(v.Bytes())
		}
		fallthrough
	case reflect.Array:
		l := []any{}
		for i := 0; i < v.Len(); i++ {
			l = append(l, jsonWant(v.Index(i)))
		}
		return l
	case reflect.Map:
		if v.IsNil() {
			return nil
		}
		m := map[string]any{}
		for _, k := range v.MapKeys() {
			m[fmt.Sprint(k.Interface())] = jsonWant(v.MapIndex(k))
		}
		return m
	case reflect.Struct:
		if isUnion(v.Type()) {
			for i := 0; i < v.NumField(); i++ {
				if !v.Field(i).IsNil() {
					return jsonWant(v.Field(i))
				}
			}
			return nil
		}
		m := map[string]any{}
		jsonFields(v, m)
		return m
	case reflect.Bool:
		return v.Bool()
	case reflect.String:
		return v.String()
	case reflect.Float64:
		return v.Float()
	case reflect.Float32:
		return float32(v.Float())
	}
	if v.CanInt() {
		return json.Number(strconv.FormatInt(v.Int(), 10))
	}
	return json.Number(strconv.FormatUint(v.Uint(), 10))
}

func jsonFields(v reflect.Value, m map[string]any) {
	// fields of embedded structs first, they are hidden by others of their name
	for n := 0; n < 2*v.NumField(); n++ {
		i := n % v.NumField()
		f := v.Type().Field(i)
		if f.Anonymous != (n < v.NumField()) {
			continue
		}
		name, opts, _ := strings.Cut(f.Tag.Get("json"), ",")
		if f.PkgPath != "" || f.Tag.Get("json") == "-" {
			continue
		}
		x := v.Field(i)
		if f.Anonymous && name == "" && x.Kind() == reflect.Ptr {
			if x.IsNil() { // its fields are sent as null
				n := map[string]any{}
				jsonFields(reflect.New(f.Type.Elem()).Elem(), n)
				for k := range n {
					m[k] = nil
				}
				continue
			}
			x = x.Elem()
		}
		if f.Anonymous && name == "" && x.Kind() == reflect.Struct {
			jsonFields(x, m)
			continue
		}
		if strings.Contains(opts, "omitempty") {
			if k := x.Kind(); x.IsZero() || (k == reflect.Slice || k == reflect.Map) && x.Len() == 0 || x.CanFloat() && x.Float() == 0 {
				continue
			}
		}
		if name == "" {
			name = f.Name
		}
		m[name] = jsonWant(x)
	}
}

func jsonParse(b []byte) (x any, err error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	err = d.Decode(&x)
	return
}

// jsonEq compares what was to be sent with what was parsed; nothing and an
// empty list or object are the same.
func jsonEq(want, got any, at string) (bool, string) {
	empty := func(x any) bool {
		switch x := x.(type) {
		case nil:
			return true
		case []any:
			return len(x) == 0
		case map[string]any:
			return len(x) == 0
		case string:
			return x == ""
		}
		return false
	}
	if (want == nil || got == nil) && empty(want) && empty(got) {
		return true, ""
	}
	diff := func() (bool, string) {
		return false, fmt.Sprintf("%s: %s, want %s", at, clip(fmt.Sprint(got)), clip(fmt.Sprint(want)))
	}
	switch w := want.(type) {
	case []any:
		g, ok := got.([]any)
		if !ok || len(g) != len(w) {
			return diff()
		}
		for i := range w {
			if ok, where := jsonEq(w[i], g[i], fmt.Sprintf("%s[%d]", at, i)); !ok {
				return false, where
			}
		}
		return true, ""
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok {
			return diff()
		}
		for k := range g {
			if _, ok := w[k]; !ok {
				return false, fmt.Sprintf("%s: has %q (%s)", at, k, clip(fmt.Sprint(g[k])))
			}
		}
		for k := range w {
			x, ok := g[k]
			if !ok {
				return false, fmt.Sprintf("%s: has no %q (%s)", at, k, clip(fmt.Sprint(w[k])))
			}
			if ok, where := jsonEq(w[k], x, at+"."+k); !ok {
				return false, where
			}
		}
		return true, ""
	case json.Number:
		g, ok := got.(json.Number)
		if !ok {
			return diff()
		}
		if g == w {
			return true, ""
		}
		a, err := g.Int64()
		b, err2 := w.Int64()
		if err == nil && err2 == nil && a == b {
			return true, ""
		}
		return diff()
	case float64:
		if g, ok := got.(json.Number); ok {
			if f, err := g.Float64(); err == nil && f == w {
				return true, ""
			}
		}
		return diff()
	case float32:
		if g, ok := got.(json.Number); ok {
			if f, err := strconv.ParseFloat(string(g), 32); err == nil && float32(f) == w {
				return true, ""
			}
		}
		return diff()
	}
	if want != got {
		return diff()
	}
	return true, ""
}
