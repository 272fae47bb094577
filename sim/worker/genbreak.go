package main

import (
	"path/filepath"
	"regexp"
	"strings"

	"gopkg.in/yaml.v2"
)

// GenBreak is a change of the input after which it does not define what its
// configuration asks for: somebody is in the middle of a change.
type GenBreak struct {
	Kind string `json:"kind"`
	Pos  uint64 `json:"pos"`
}

var breakKinds = []string{"service", "service", "service-and-lists", "list", "package", "mapping", "listed-struct", "listed-scalar", "syntax", "type", "type", "gomod", "yaml", "config-gone"}

func ymlGet(m yaml.MapSlice, key string) any {
	for _, e := range m {
		if e.Key == key {
			return e.Value
		}
	}
	return nil
}

func ymlMap(v any) yaml.MapSlice {
	m, _ := v.(yaml.MapSlice)
	return m
}

// a change of one value, at a random one of the places it can be made at
type ymlSpot func()

// broken gives the contents of the sources which the change touches; an
// absent file's is nil. It may find nothing to break.
func (c *genCase) broken(b *GenBreak) map[string]*string {
	conf := filepath.Join(c.cwd, c.args[len(c.args)-1])
	r := newRng(b.Pos, 3)
	set := func(p, s string) map[string]*string { return map[string]*string{p: &s} }
	var y yaml.MapSlice
	must(yaml.Unmarshal([]byte(c.sources[conf]), &y))
	var spots []ymlSpot
	targets, mappings := ymlMap(ymlGet(y, "targets")), ymlMap(ymlGet(y, "mappings"))
	switch b.Kind {
	case "yaml":
		return set(conf, c.sources[conf]+r.pick("\n x: [", "\n\ttargets: 1\n", "\ntargets: 7\n", "\n- a\n"))
	case "config-gone":
		return map[string]*string{conf: nil}
	case "gomod":
		mod, _ := ymlGet(ymlMap(ymlGet(y, "module")), "path").(string)
		f := filepath.Join(c.cwd, mod, "go.mod")
		if _, ok := c.sources[f]; !ok || filepath.IsAbs(mod) {
			return nil
		}
		return set(f, "this is no module\n"+c.sources[f])
	case "syntax", "type":
		var files []string
		decl := map[string][]string{}
		re := regexp.MustCompile(`(?m)^type (\w+) struct \{`)
		dirs := map[string]bool{}
		for f := range c.allowed {
			if strings.HasSuffix(f, "_gen.go") {
				dirs[filepath.Dir(f)] = true
			}
		}
		for _, f := range sortedKeys(c.sources) {
			if !strings.HasSuffix(f, ".go") || strings.HasSuffix(f, "_test.go") {
				continue
			}
			if dirs[filepath.Dir(f)] {
				files = append(files, f)
			}
			for _, m := range re.FindAllStringSubmatch(c.sources[f], -1) {
				decl[m[1]] = append(decl[m[1]], f)
			}
		}
		if b.Kind == "syntax" {
			if len(files) == 0 {
				return nil
			}
			f := files[r.n(len(files))]
			return set(f, c.sources[f]+r.pick("\ntype Broken struct {\n", "\nfunc broken( {}\n", "\n)\n", "\nvar broken = \"\n"))
		}
		var names []string
		for _, n := range sortedKeys(decl) {
			if len(decl[n]) != 1 || strings.Contains(c.sources[decl[n][0]], "func (s *"+n+")") {
				continue
			}
			for f, s := range c.refOut {
				if strings.HasSuffix(f, ".ts") && strings.Contains(s, "export interface "+n+" {") {
					names = append(names, n)
					break
				}
			}
		}
		if len(names) == 0 {
			return nil
		}
		n := names[r.n(len(names))]
		f := decl[n][0]
		return set(f, strings.Replace(c.sources[f], "type "+n+" struct {", "type "+n+"Old struct {", 1))
	case "service", "service-and-lists", "list", "package":
		for _, t := range targets {
			t := ymlMap(t.Value)
			for i := range t {
				switch key := t[i].Key; {
				case key == "services" && b.Kind != "package" && b.Kind != "list":
					m := ymlMap(t[i].Value)
					for j := range m {
						spots = append(spots, func() {
							old, _ := m[j].Value.(string)
							m[j].Value = old + r.pick("Gone", "X", "s")
							if b.Kind == "service" {
								return
							}
							for _, e := range t {
								l, _ := e.Value.([]any)
								for k := range l {
									if l[k] == old {
										l[k] = m[j].Value
									}
								}
							}
						})
					}
				case (key == "tsrpc" || key == "gorpc") && b.Kind == "list":
					l, _ := t[i].Value.([]any)
					for j := range l {
						spots = append(spots, func() { l[j] = l[j].(string) + "Gone" })
					}
				case key == "package" && b.Kind == "package":
					spots = append(spots, func() { t[i].Value = t[i].Value.(string) + "gone" })
				}
			}
		}
	case "mapping":
		outs := map[any]int{}
		for _, m := range mappings {
			outs[ymlGet(ymlMap(m.Value), "out")]++
		}
		for i, m := range mappings {
			v := ymlMap(m.Value)
			out, _ := ymlGet(v, "out").(string)
			if len(v) != 1 || out == "" || outs[out] > 1 {
				continue // lists types itself, or shares its file
			}
			if _, ok := c.refOut[c.abs(out)]; !ok {
				continue // nothing of it is used
			}
			spots = append(spots, func() {
				mappings = append(append(yaml.MapSlice{}, mappings[:i]...), mappings[i+1:]...)
			})
		}
	case "listed-struct", "listed-scalar":
		key := b.Kind[len("listed-"):] + "s"
		for i := range mappings {
			spots = append(spots, func() {
				v := ymlMap(mappings[i].Value)
				gone := mappings[i].Key.(string) + ".NotThere"
				for j := range v {
					if v[j].Key == key {
						l, _ := v[j].Value.([]any)
						at := r.n(len(l) + 1)
						v[j].Value = append(append(append([]any{}, l[:at]...), gone), l[at:]...)
						return
					}
				}
				mappings[i].Value = append(v, yaml.MapItem{Key: key, Value: []any{gone}})
			})
		}
	}
	if len(spots) == 0 {
		return nil
	}
	spots[r.n(len(spots))]()
	for i := range y {
		if y[i].Key == "mappings" {
			y[i].Value = mappings
		}
	}
	out, err := yaml.Marshal(y)
	must(err)
	return set(conf, string(out))
}
