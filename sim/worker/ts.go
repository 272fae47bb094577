package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
)

// TypeScript callers. toolchain/tstable.js has run the generated TypeScript
// clients over a recording transport and asked TypeScript's checker for what
// they declare; toolchain/sigs has read the services' Go sources. Callers of the
// simulated network act by the first table and are held against the second.

type tsType struct {
	K     string             `json:"k"`
	Name  string             `json:"name"`
	Of    []int              `json:"of"`
	Elem  int                `json:"elem"`
	Num   bool               `json:"num"`
	Props map[string]*tsProp `json:"props"`
	Odd   string             `json:"odd"`
}

type tsProp struct {
	T   int  `json:"t"`
	Opt bool `json:"opt"`
}

type tsMethod struct {
	Params []struct {
		Name string `json:"name"`
		T    int    `json:"t"`
		Opt  bool   `json:"opt"`
	} `json:"params"`
	Calls []struct {
		Method string `json:"method"`
		Args   []int  `json:"args"`
	} `json:"calls"`
	Ret     int    `json:"ret"`
	RetText string `json:"retText"`
	Error   string `json:"error"`
	Result  *struct {
		Void   bool `json:"void"`
		Single *int `json:"single"`
		Fields []struct {
			Name string `json:"name"`
			Ret  int    `json:"ret"`
			T    int    `json:"t"`
		} `json:"fields"`
	} `json:"result"`
}

type tsService struct {
	Endpoint *string              `json:"endpoint"`
	Methods  map[string]*tsMethod `json:"methods"`
	Error    string               `json:"error"`
}

type tsTable struct {
	Diags    []string                          `json:"diags"`
	Services map[string]*tsService             `json:"services"`
	Types    []tsType                          `json:"types"`
	Enums    map[string]map[string]interface{} `json:"enums"`
	Aliases  map[string]string                 `json:"aliases"`

	sigs   tsSigs
	static []string
	known  []string
}

// tsSigs is what the Go sources say.
type tsSigs struct {
	Services map[string]struct { // by key
		File    string `json:"file"` // of the client, without .ts
		Class   string `json:"class"`
		Methods map[string]struct {
			Params  []string `json:"params"`
			Results []string `json:"results"`
		} `json:"methods"`
	} `json:"services"`
	Enums  map[string]map[string]interface{} `json:"enums"`  // "file:Type" -> constant -> value
	Listed []string                          `json:"listed"` // types which mappings ask for
}

var tsTab *tsTable

func tsInit() {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	dir := filepath.Dir(exe)
	t := &tsTable{}
	for name, dst := range map[string]any{"ts.json": t, "sigs.json": &t.sigs} {
		b, err := os.ReadFile(filepath.Join(dir, name))
		if err == nil {
			err = json.Unmarshal(b, dst)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "ts table:", err)
			os.Exit(2)
		}
	}
	tsTab = t
	t.check()
}

func lcfirst(s string) string { return strings.ToLower(s[:1]) + s[1:] }

// check is what can be said without a call.
func (t *tsTable) check() {
	bad := func(f string, a ...any) { t.static = append(t.static, fmt.Sprintf(f, a...)) }
	for _, d := range t.Diags {
		if x, ok := strings.CutPrefix(d, "UNDECLARED-ERROR "); ok {
			t.known = append(t.known, "a TypeScript client names Go's error type, which nothing declares: "+x)
			continue
		}
		bad("the generated TypeScript does not compile: %s", d)
	}
	for key, s := range t.sigs.Services {
		c := t.Services[s.File+":"+s.Class]
		if c == nil {
			bad("%s: no class %s in %s.ts", key, s.Class, s.File)
			continue
		}
		if c.Error != "" {
			bad("%s: %s", key, c.Error)
		}
		if c.Endpoint == nil || *c.Endpoint != "/rpc/"+key {
			bad("%s: %s.defaultEndpoint is %v", key, s.Class, deref(c.Endpoint))
		}
		for name, m := range s.Methods {
			tm := c.named(name)
			if tm == nil {
				bad("%s: %s has no method %s", key, s.Class, lcfirst(name))
				continue
			}
			if tm.Error != "" || len(tm.Calls) != 1 || tm.Result == nil {
				bad("%s: %s.%s made %d requests (%s)", key, s.Class, lcfirst(name), len(tm.Calls), tm.Error)
				continue
			}
			var params []string
			same := len(tm.Params) == len(m.Params)
			for i, p := range tm.Params {
				params = append(params, p.Name)
				// underscores set it apart from words which TypeScript keeps to itself
				want := strings.Trim(m.Params[i], "_") // nothing, if it has no name
				same = same && (want == "" || strings.Trim(p.Name, "_") == want)
			}
			if !same {
				bad("%s: %s.%s takes (%s), the service (%s)", key, s.Class, lcfirst(name), strings.Join(params, ", "), strings.Join(m.Params, ", "))
			}
			if r := tm.Result; len(m.Results) == 0 && !r.Void || len(m.Results) == 1 && (r.Single == nil || *r.Single != 0) || len(m.Results) > 1 && len(r.Fields) != len(m.Results) {
				bad("%s: %s.%s returns something else than the service's %d results", key, s.Class, lcfirst(name), len(m.Results))
			} else {
				at := map[int]string{}
				for _, f := range r.Fields {
					at[f.Ret] = f.Name
				}
				for i, n := range m.Results {
					if len(m.Results) > 1 && (at[i] == "" || n != "" && n != "_" && at[i] != n) {
						bad("%s: %s.%s returns the service's result %d (%s) as %q", key, s.Class, lcfirst(name), i, n, at[i])
					}
				}
			}
		}
		for name := range c.Methods {
			_, ok := s.Methods[strings.ToUpper(name[:1])+name[1:]]
			if l := norm(name); !ok && (l == "transport" || l == "constructor") {
				_, ok = s.Methods[strings.ToUpper(l[:1])+l[1:]]
			}
			if !ok {
				bad("%s: %s.%s is no method of the service", key, s.Class, name)
			}
		}
	}
	for _, name := range t.sigs.Listed {
		if t.Enums[name] == nil && t.Aliases[name] == "" {
			bad("%s is listed in the configuration, but not declared", name)
		}
	}
	for name, consts := range t.sigs.Enums {
		en, ok := t.Enums[name]
		if !ok {
			if a, ok := t.Aliases[name]; ok {
				bad("%s is declared as %s, its constants are lost", name, a)
			}
			continue
		}
		if len(en) != len(consts) {
			bad("%s has %d members for %d constants", name, len(en), len(consts))
		}
		_, typ, _ := strings.Cut(name, ":")
		for k, v := range consts {
			found, n := false, norm(k)
			ascii := !strings.ContainsFunc(k, func(r rune) bool { return r > 127 }) // members have ASCII names only
			for _, want := range []string{n, strings.TrimPrefix(n, norm(typ))} {
				for mk, mv := range en {
					if !ascii {
						found = found || fmt.Sprint(mv) == fmt.Sprint(v)
					} else if norm(mk) == want && !found {
						found = true
						if fmt.Sprint(mv) != fmt.Sprint(v) {
							bad("%s.%s is %v, the constant %s is %v", name, mk, mv, k, v)
						}
					}
				}
			}
			if !found {
				bad("%s has no member for the constant %s", name, k)
			}
		}
	}
	sort.Strings(t.static)
	sort.Strings(t.known)
}

func deref(s *string) string {
	if s == nil {
		return "not set"
	}
	return *s
}

func norm(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

// named is the method for one of the service: underscores set it apart from
// what else classes and clients have.
func (c *tsService) named(name string) *tsMethod {
	if l := lcfirst(name); l == "transport" || l == "constructor" {
		for have, m := range c.Methods {
			if have != l && norm(have) == l {
				return m
			}
		}
	}
	return c.Methods[lcfirst(name)]
}

func (t *tsTable) method(key, name string) (*tsService, *tsMethod) {
	s := t.sigs.Services[key]
	c := t.Services[s.File+":"+s.Class]
	if c == nil {
		return nil, nil
	}
	m := c.named(name)
	if m == nil || len(m.Calls) != 1 {
		return c, nil
	}
	return c, m
}

// tsMiss is why a value does not have its declared type; known ones are named.
type tsMiss struct{ at, what, known string }

// conforms holds a parsed JSON value, of a Go value of type gt, against a type.
func (t *tsTable) conforms(v any, ti int, gt reflect.Type, at string) (out []tsMiss) {
	if ti < 0 || ti >= len(t.Types) {
		return []tsMiss{{at, "has no declared type", ""}}
	}
	nilable := gt == nil
	if gt != nil {
		switch gt.Kind() {
		case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Interface, reflect.Array:
			nilable = true
		}
	}
	for gt != nil && gt.Kind() == reflect.Ptr {
		gt = gt.Elem()
	}
	ty := &t.Types[ti]
	miss := func(f string, a ...any) []tsMiss { return append(out, tsMiss{at, fmt.Sprintf(f, a...), ""}) }
	got := func() string { return clipN(fmt.Sprint(v), 60) }
	switch ty.K {
	case "any":
		if gt != nil && gt.Kind() != reflect.Interface {
			return miss("is declared as anything, is always a %s", gt)
		}
		return nil
	case "string":
		if _, ok := v.(string); !ok {
			return miss("is declared string, is %s", got())
		}
		return nil
	case "number":
		switch v.(type) {
		case json.Number, float64, float32:
			return nil
		}
		return miss("is declared number, is %q", got())
	case "boolean":
		if _, ok := v.(bool); !ok {
			return miss("is declared boolean, is %s", got())
		}
		return nil
	case "null", "undefined": // both say: nothing
		if v != nil {
			return miss("is declared %s, is %s", ty.K, got())
		}
		return nil
	case "union":
		for _, u := range ty.Of {
			if !nilable && t.Types[u].K == "null" {
				return miss("is declared to be null at times, a %s never is", gt)
			}
		}
		best, rank := []tsMiss(nil), 1<<30
		for _, u := range ty.Of {
			m := t.conforms(v, u, gt, at)
			n := 0
			for _, x := range m {
				n += pick2(x.known == "", 1000, 1)
			}
			if k := t.Types[u].K; n > 0 && (k == "null" || k == "undefined") {
				n += 1 << 20
			}
			if n < rank {
				best, rank = m, n
			}
		}
		if rank == 1<<30 {
			return miss("is declared as an empty union")
		}
		return best
	case "array":
		l, ok := v.([]any)
		if !ok {
			return miss("is declared as an array, is %s", got())
		}
		for i, x := range l {
			out = append(out, t.conforms(x, ty.Elem, elemOf(gt), fmt.Sprintf("%s[%d]", at, i))...)
		}
		return out
	case "record":
		o, ok := v.(map[string]any)
		if !ok {
			return miss("is declared as a record, is %s", got())
		}
		for _, k := range tsKeys(o) {
			if ty.Num && strings.Trim(k, "-0123456789") != "" {
				out = miss("is declared to have numbers as keys, has %q", k)
			}
			out = append(out, t.conforms(o[k], ty.Elem, elemOf(gt), at+"["+k+"]")...)
		}
		return out
	case "object-value":
		if gt != nil && isUnion(gt) {
			return []tsMiss{{at, "is declared as the object of all constants", "a union of constants is declared as the object that holds them all"}}
		}
		return miss("is declared as the type of a constant object")
	case "object":
		o, ok := v.(map[string]any)
		if !ok {
			return miss("is declared as %s, is %s", ty.Name, got())
		}
		for _, k := range sortedProps(ty.Props) {
			p := ty.Props[k]
			x, ok := o[k]
			if !ok {
				if !p.Opt && !t.nothing(p.T) {
					out = miss("lacks %q, which %s declares", k, ty.Name)
				}
				continue
			}
			if p.Opt && alwaysThere(gt, k) {
				out = miss("has %q, which %s declares as optional though it is always there", k, ty.Name)
			}
			out = append(out, t.conforms(x, p.T, fieldOf(gt, k), at+"."+k)...)
		}
		for _, k := range tsKeys(o) {
			if ty.Props[k] != nil {
				continue
			}
			if gt != nil && embeddedKey(gt, k) {
				out = append(out, tsMiss{at, "", "the fields of a struct embedded without the inline tag are not declared"})
				continue
			}
			out = miss("has %q, which %s does not declare", k, ty.Name)
		}
		return out
	}
	return miss("has a type of kind %q", ty.K)
}

func (t *tsTable) nothing(ti int) bool {
	if ti < 0 {
		return false
	}
	ty := &t.Types[ti]
	if ty.K == "undefined" || ty.K == "any" {
		return true
	}
	for _, u := range ty.Of {
		if t.nothing(u) {
			return true
		}
	}
	return false
}

func elemOf(t reflect.Type) reflect.Type {
	if t != nil {
		switch t.Kind() {
		case reflect.Slice, reflect.Array, reflect.Map:
			return t.Elem()
		}
	}
	return nil
}

// jsonField finds a struct's field by its name in JSON, and whether it is there
// through a struct embedded without the inline tag.
func jsonField(t reflect.Type, key string) (reflect.Type, bool, bool) {
	if t == nil || t.Kind() != reflect.Struct {
		return nil, false, false
	}
	// fields of embedded structs last, they are hidden by others of their name
	for n := 0; n < 2*t.NumField(); n++ {
		i := n % t.NumField()
		f := t.Field(i)
		tag, opts, _ := strings.Cut(f.Tag.Get("json"), ",")
		if f.Anonymous != (n >= t.NumField()) {
			continue
		}
		if f.PkgPath != "" && !f.Anonymous || f.Tag.Get("json") == "-" {
			continue
		}
		if f.Anonymous {
			ft := f.Type
			for ft.Kind() == reflect.Ptr {
				ft = ft.Elem()
			}
			inline := strings.Contains(opts, "inline")
			if tag != "" {
				if tag == key {
					return f.Type, true, true
				}
				continue
			}
			if x, emb, ok := jsonField(ft, key); ok {
				return x, emb || !inline, true
			}
			continue
		}
		if tag == "" {
			tag = f.Name
		}
		if tag == key {
			return f.Type, false, true
		}
	}
	return nil, false, false
}

// alwaysThere tells whether a struct's JSON has a property whatever its value.
func alwaysThere(t reflect.Type, key string) bool {
	if t == nil || t.Kind() != reflect.Struct {
		return false
	}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag, opts, _ := strings.Cut(f.Tag.Get("json"), ",")
		if f.PkgPath != "" || f.Anonymous || f.Tag.Get("json") == "-" {
			continue
		}
		if tag == "" {
			tag = f.Name
		}
		if tag == key {
			return f.Type.Kind() != reflect.Ptr && f.Tag.Get("gotsrpc") == "" && !strings.Contains(opts, "omitempty")
		}
	}
	return false
}

func fieldOf(t reflect.Type, key string) reflect.Type {
	x, _, _ := jsonField(t, key)
	return x
}

func embeddedKey(t reflect.Type, key string) bool {
	_, emb, ok := jsonField(t, key)
	return ok && emb
}

func tsKeys(m map[string]any) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

func sortedProps(m map[string]*tsProp) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

// tsArgs are the arguments as the client's method puts them into the request.
func (t *tsTable) tsArgs(m *tsMethod, want []any) []any {
	list := []any{}
	for _, a := range m.Calls[0].Args {
		if a < 0 || a >= len(want) {
			list = append(list, nil)
			continue
		}
		list = append(list, want[a])
	}
	return list
}

func (rr *rawRec) ts() bool { return rr.variant == "ts" || rr.variant == "ts-err" }

// prop is the property which a raw exchange's misbehaviour breaks.
func (rr *rawRec) prop(p string) string { return pick2(rr.ts(), "C19", p) }

func (w *world) tsReport(o *opRec, l []tsMiss, what string) {
	n := 0
	for _, m := range l {
		if m.known != "" {
			w.known[m.known]++
		} else if n++; n < 4 {
			w.violate("C19", "%s: %s.%s: %s%s %s", o.op.ID, o.raw.svc, o.raw.svcMeth, what, m.at, m.what)
		}
	}
}

// judgeTSArgs: a Go value of each parameter's type has the declared type.
func (w *world) judgeTSArgs(o *opRec, m *tsMethod, in []reflect.Type) {
	for i, p := range m.Params {
		if i >= len(o.args) {
			break
		}
		b, err := json.Marshal(jsonWant(reflect.ValueOf(o.args[i])))
		if err != nil {
			panic(err)
		}
		x, err := jsonParse(b)
		if err != nil {
			panic(err)
		}
		w.tsMisses = append(w.tsMisses, func() { w.tsReport(o, tsTab.conforms(x, p.T, in[i], ""), "argument "+p.Name) })
	}
}

// judgeTSReply: the values in a reply have the types declared for them.
func (w *world) judgeTSReply(o *opRec, parts []json.RawMessage) {
	_, m := tsTab.method(o.raw.svc, o.raw.svcMeth)
	if m == nil || m.Result == nil {
		return
	}
	types := map[int]int{}
	if m.Result.Single != nil {
		types[*m.Result.Single] = m.Ret
	}
	for _, f := range m.Result.Fields {
		types[f.Ret] = f.T
	}
	for i, t := range o.raw.out {
		ti, ok := types[i]
		if !ok {
			w.violate("C19", "%s: %s.%s: result %d does not reach a TypeScript caller", o.op.ID, o.raw.svc, o.raw.svcMeth, i)
			continue
		}
		if t == typErr {
			if k := tsTab.Types[max(ti, 0)].K; ti >= 0 && k != "any" {
				w.violate("C19", "%s: %s.%s: result %d is an error, declared %s", o.op.ID, o.raw.svc, o.raw.svcMeth, i, k)
			}
			continue
		}
		x, err := jsonParse(parts[i])
		if err != nil {
			continue // C04's
		}
		w.tsReport(o, tsTab.conforms(x, ti, t, ""), fmt.Sprintf("result %d", i))
	}
}

// judgeTS is what the tables say by themselves, and the arguments prepared.
func (w *world) judgeTS() {
	if tsTab == nil {
		return
	}
	for _, x := range tsTab.static {
		w.violate("C19", "%s", x)
	}
	if len(tsTab.known) > 0 {
		w.known["a TypeScript client names Go's error type, which nothing declares"]++
	}
	for _, f := range w.tsMisses {
		f()
	}
}
