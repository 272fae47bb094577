package main

import (
	"fmt"
	"sort"
	"strings"
)

// A random module for the generator: packages of types which refer to each
// other, services over them and a configuration with several targets.

type gsType struct {
	pkg  *gsPkg
	name string
	kind string // struct | enum | num | slice | map | union | error
}

type gsPkg struct {
	dir, name string
	deps      []*gsPkg
	types     []*gsType
	files     map[string]*strings.Builder
	imports   map[string]map[string]string // file -> import path -> alias
}

type gsGen struct {
	r    *rng
	mod  string
	pkgs []*gsPkg
	used bool // time.Time occurs
	n    int
}

func (g *gsGen) name(prefix string) string {
	g.n++
	return fmt.Sprintf("%s%s%d", prefix, g.r.pick("Item", "Order", "Node", "Info", "Ref", "Part"), g.n)
}

func (g *gsGen) path(p *gsPkg) string {
	if strings.HasPrefix(p.dir, "lib/") {
		return "dep.test/" + p.dir
	}
	return g.mod + "/" + p.dir
}

// ref names type t inside package p's file f.
func (g *gsGen) ref(p *gsPkg, f string, t *gsType) string {
	if t.pkg == p {
		return t.name
	}
	path := g.path(t.pkg)
	a, ok := p.imports[f][path]
	if !ok {
		a = t.pkg.name
		taken := false
		for _, x := range p.imports[f] {
			taken = taken || x == a
		}
		if taken || g.r.p(25) {
			a = strings.ReplaceAll(t.pkg.dir, "/", "") + "x"
		}
		p.imports[f][path] = a
	}
	return a + "." + t.name
}

func (g *gsGen) visible(p *gsPkg) (l []*gsType) {
	l = append(l, p.types...)
	for _, d := range p.deps {
		l = append(l, d.types...)
	}
	return
}

func (g *gsGen) pickType(p *gsPkg, kinds string) *gsType {
	var l []*gsType
	for _, t := range g.visible(p) {
		if strings.Contains(kinds, t.kind) {
			l = append(l, t)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[g.r.n(len(l))]
}

func (g *gsGen) expr(p *gsPkg, f string, depth int) string {
	r := g.r
	switch k := r.n(12); {
	case k < 3:
		if r.p(8) {
			return r.pick("uint", "uint8", "int16", "uint64", "uint16", "byte", "int32")
		}
		return r.pick("string", "int", "int64", "float64", "bool", "uint32", "int8", "float32")
	case k < 7:
		if t := g.pickType(p, "struct enum num slice map union"); t != nil {
			s := g.ref(p, f, t)
			if r.p(35) {
				s = "*" + s
			}
			return s
		}
		return "string"
	case k == 7 && depth > 0:
		return "[]" + g.expr(p, f, depth-1)
	case k == 8 && depth > 0:
		key := "string"
		if t := g.pickType(p, r.pick("enum", "enum", "num")); t != nil && r.p(40) {
			key = g.ref(p, f, t)
		} else if r.p(20) {
			key = r.pick("int", "int64", "uint32", "float64", "bool")
		}
		return "map[" + key + "]" + g.expr(p, f, depth-1)
	case k == 9:
		return r.pick("interface{}", "[]byte", "*string", "*int", "any", "[][]string", "map[string]map[string]int", "[]interface{}", "map[string]interface{}", "[]map[string]any")
	case k == 10 && r.p(40):
		g.used = true
		if p.imports[f]["time"] == "" {
			p.imports[f]["time"] = "time"
		}
		return r.pick("time.Time", "*time.Time", "[]time.Time")
	}
	return "string"
}

func (g *gsGen) file(p *gsPkg) string {
	return g.r.pick("vo.go", "types.go", "a.go")
}

func (g *gsGen) w(p *gsPkg, f string, format string, a ...any) {
	if p.files[f] == nil {
		p.files[f] = &strings.Builder{}
		if p.imports[f] == nil {
			p.imports[f] = map[string]string{}
		}
	}
	fmt.Fprintf(p.files[f], format, a...)
}

func (g *gsGen) fields(p *gsPkg, f string, n, depth int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		nm := fmt.Sprintf("F%d", i)
		e := g.expr(p, f, 2)
		if depth > 0 && g.r.p(6) {
			e = "struct {\n" + g.fields(p, f, g.r.between(1, 2), 0) + "}"
			if g.r.p(40) {
				e = "*" + e
			}
		}
		tag := ""
		switch g.r.n(5) {
		case 0:
			tag = fmt.Sprintf(" `json:\"f%d\"`", i)
		case 1:
			tag = fmt.Sprintf(" `json:\"f%d,omitempty\"`", i)
		case 2:
			if g.r.p(20) {
				tag = " `json:\"-\"`"
			} else if g.r.p(20) {
				tag = fmt.Sprintf(" `json:\"f%d\" gotsrpc:\"type:'K%d'\"`", i, i)
			}
		}
		switch g.r.n(14) {
		case 0:
			fmt.Fprintf(&b, "\t// %s is a field\n", nm)
		case 1:
			nm, tag = nm+", "+nm+"x", ""
		case 2:
			nm, tag = strings.ToLower(nm), ""
		case 3:
			tag += " // " + nm
		}
		fmt.Fprintf(&b, "\t%s %s%s\n", nm, e, tag)
	}
	return b.String()
}

func (g *gsGen) makePkg(p *gsPkg, size int) {
	r := g.r
	for i := 0; i < size; i++ {
		f := g.file(p)
		g.w(p, f, "")
		t := &gsType{pkg: p}
		switch k := r.n(12); {
		case k < 5:
			t.kind, t.name = "struct", g.name("")
			inl := ""
			if r.p(25) {
				if o := g.pickType(p, "struct"); o != nil {
					inl = "\t" + r.pick("", "*") + g.ref(p, f, o) + r.pick(" `json:\",inline\"`", " `json:\",inline\"`", " `json:\",inline\"`", "", " `json:\"-\"`", " `json:\"base\"`") + "\n"
				}
			}
			if r.p(15) { // may contain itself
				p.types = append(p.types, t)
				g.w(p, f, "type %s struct {\n%s\tNext *%s `json:\"next,omitempty\"`\n%s}\n\n", t.name, inl, t.name, g.fields(p, f, r.between(1, 4), 1))
				continue
			}
			g.w(p, f, "type %s struct {\n%s%s}\n\n", t.name, inl, g.fields(p, f, r.between(0, 5), 1))
		case k < 8:
			t.kind, t.name = "enum", g.name("Kind")
			if r.p(20) {
				g.w(p, f, "type (\n\t// %s is grouped\n\t%s string\n)\n\n", t.name, t.name)
			} else {
				g.w(p, f, "type %s string\n\n", t.name)
			}
			cf := f
			if r.p(50) {
				cf = g.file(p)
			}
			if r.p(15) {
				for j := 0; j < r.between(1, 3); j++ {
					g.w(p, cf, "const %sS%d %s = \"w%d\"\n\n", t.name, j, t.name, j)
				}
				break
			}
			g.w(p, cf, "const (\n")
			for j := 0; j < r.between(1, 4); j++ {
				g.w(p, cf, "\t%s%s %s = \"v%d\"\n", t.name, string(rune('A'+(j*7)%5))+fmt.Sprint(j), t.name, j)
			}
			g.w(p, cf, ")\n\n")
		case k == 8:
			t.kind, t.name = "num", g.name("Num")
			base := r.pick("int", "float64", "bool", "string", "int32")
			g.w(p, f, "type %s %s\n\n", t.name, base)
			if base != "bool" && base != "string" && r.p(50) {
				cf := g.file(p)
				g.w(p, cf, "const (\n")
				for j := 0; j < r.between(1, 4); j++ {
					g.w(p, cf, "\t%s%c%d %s = %d\n", t.name, 'A'+(j*7)%5, j, t.name, j*3)
				}
				g.w(p, cf, ")\n\n")
			}
		case k == 9:
			t.kind, t.name = "slice", g.name("List")
			g.w(p, f, "type %s []%s\n\n", t.name, g.expr(p, f, 1))
		case k == 10:
			t.kind, t.name = "map", g.name("Map")
			g.w(p, f, "type %s map[string]%s\n\n", t.name, g.expr(p, f, 1))
		default:
			o, q := g.pickType(p, "struct"), g.pickType(p, "struct")
			if o == nil || q == nil {
				t.kind, t.name = "error", g.name("Err")
				g.w(p, f, "type %s struct {\n\tCode int\n}\n\nfunc (e *%s) Error() string { return \"e\" }\n\n", t.name, t.name)
				break
			}
			t.kind, t.name = "union", g.name("Union")
			if a, b := g.pickType(p, "enum"), g.pickType(p, "enum"); a != nil && a != b && r.p(40) {
				g.w(p, f, "type %s struct {\n\tA *%s `json:\"a,omitempty\" gotsrpc:\"union\"`\n\tB *%s `json:\"b,omitempty\" gotsrpc:\"union\"`\n}\n\n", t.name, g.ref(p, f, a), g.ref(p, f, b))
				break
			}
			g.w(p, f, "type %s struct {\n\tA *%s `json:\"a,omitempty\" gotsrpc:\"union\"`\n\tB *%s `json:\"b,omitempty\" gotsrpc:\"union\"`\n}\n\n", t.name, g.ref(p, f, o), g.ref(p, f, q))
		}
		p.types = append(p.types, t)
	}
}

func (g *gsGen) service(p *gsPkg, name string, grpc bool) {
	f := "service.go"
	g.w(p, f, "")
	var b strings.Builder
	concrete := g.r.p(25) // methods of a struct instead of an interface
	if concrete {
		g.w(p, f, "type %s struct{}\n\n", name)
	} else {
		fmt.Fprintf(&b, "type %s interface {\n", name)
	}
	n := g.r.between(1, 5)
	perm := g.r.n(n)
	for i := 0; i < n; i++ {
		if concrete {
			f = g.r.pick("service.go", "more.go", "vo.go")
			g.w(p, f, "")
		}
		m := fmt.Sprintf("Do%c%d", 'A'+(i*3+perm)%7, i)
		var args, rets []string
		if !grpc && g.r.p(25) {
			p.imports[f]["net/http"] = "http"
			args = append(args, "w http.ResponseWriter", "r *http.Request")
		}
		for j := 0; j < g.r.n(4); j++ {
			nm := fmt.Sprintf("a%d", j)
			if g.r.p(8) {
				nm += fmt.Sprintf(", b%d", j)
			}
			args = append(args, nm+" "+g.expr(p, f, 2))
		}
		for j := 0; j < g.r.n(3); j++ {
			rets = append(rets, fmt.Sprintf("r%d %s", j, g.expr(p, f, 2)))
		}
		bare := g.r.p(15) // results without names
		if e := g.pickType(p, "error"); e != nil && g.r.p(30) {
			rets = append(rets, "err *"+g.ref(p, f, e))
		} else if g.r.p(50) {
			rets = append(rets, "err error")
		}
		if bare {
			for j := range rets {
				rets[j] = rets[j][strings.Index(rets[j], " ")+1:]
			}
		}
		if concrete {
			g.w(p, f, "func (s *%s) ", name)
		}
		fmt.Fprintf(&b, "\t%s(%s)", m, strings.Join(args, ", "))
		if len(rets) > 0 {
			fmt.Fprintf(&b, " (%s)", strings.Join(rets, ", "))
		}
		if concrete {
			g.w(p, f, "%s { panic(0) }\n\n", strings.TrimSpace(b.String()))
			b.Reset()
			continue
		}
		b.WriteString("\n")
	}
	if concrete {
		return
	}
	b.WriteString("}\n\n")
	g.w(p, f, "%s", b.String())
}

// genSources writes a whole module; the same seed gives the same text.
func genSources(seed uint64, size int) (files map[string]string, args []string) {
	g := &gsGen{r: newRng(seed, 0x6e5), mod: "gen.test/m"}
	r := g.r
	dirs := []string{"a/model", "b/model", "common", "shop/cart", "shop/pay"}
	nd := r.between(1, len(dirs))
	dep := r.p(30) // the first package lives in another module
	for i := 0; i < nd; i++ {
		d := dirs[(i+r.n(len(dirs)))%len(dirs)]
		dup := false
		for _, p := range g.pkgs {
			dup = dup || p.dir == d
		}
		if dup {
			continue
		}
		p := &gsPkg{dir: d, name: d[strings.LastIndex(d, "/")+1:], files: map[string]*strings.Builder{}, imports: map[string]map[string]string{}}
		p.deps = append(p.deps, g.pkgs...)
		if dep && len(g.pkgs) == 0 {
			p.dir = "lib/" + p.name
		}
		g.makePkg(p, r.between(1, size))
		g.pkgs = append(g.pkgs, p)
	}
	models := g.pkgs
	files = map[string]string{}
	var yml strings.Builder
	fmt.Fprintf(&yml, "module:\n  name: %s\n  path: ./\n\ntargets:\n", g.mod)
	nt := r.between(1, 3)
	for i := 0; i < nt; i++ {
		d := []string{"svc/one", "svc/two", "api"}[i]
		p := &gsPkg{dir: d, name: d[strings.LastIndex(d, "/")+1:], files: map[string]*strings.Builder{}, imports: map[string]map[string]string{}}
		p.deps = append(p.deps, models...)
		g.makePkg(p, r.between(0, 2))
		mode := r.n(3)
		var names []string
		for s := 0; s < r.between(1, 2); s++ {
			nm := fmt.Sprintf("%s%d", r.pick("Service", "Admin", "Store"), s)
			names = append(names, nm)
			g.service(p, nm, mode != 0)
		}
		fmt.Fprintf(&yml, "  t%d:\n    services:\n", (i*2+1)%3)
		for s, nm := range names {
			fmt.Fprintf(&yml, "      /%s/%d: %s\n", p.name, s, nm)
		}
		fmt.Fprintf(&yml, "    package: %s/%s\n", g.mod, p.dir)
		list := func(k string) {
			fmt.Fprintf(&yml, "    %s:\n", k)
			for _, nm := range names {
				fmt.Fprintf(&yml, "      - %s\n", nm)
			}
		}
		if mode != 1 || r.p(50) {
			fmt.Fprintf(&yml, "    out: %s/svc%d.ts\n", r.pick("./client", "client", "./client/gen", "~/home/client"), i)
		}
		if mode == 0 || mode == 2 {
			list("tsrpc")
			if r.p(15) {
				yml.WriteString("    skipTSRPCClient: true\n")
			}
		}
		if mode > 0 {
			list("gorpc")
		}
		g.pkgs = append(g.pkgs, p)
		// a later target's package may use what this one defines
		if r.p(50) {
			models = append(append([]*gsPkg{}, models...), p)
		}
	}
	yml.WriteString("\nmappings:\n")
	one := r.p(6) // all into one file: the last package by name is in it
	for i, p := range g.pkgs {
		out := fmt.Sprintf("%s/vo%d.ts", r.pick("./client", "client/vo", "./client/../client", "~/home/client"), i)
		if one {
			out = "./client/vo.ts"
		}
		fmt.Fprintf(&yml, "  %s:\n    out: %s\n", g.path(p), out)
		var structs, scalars []string
		for _, t := range p.types {
			if r.p(75) {
				continue
			}
			switch t.kind {
			case "struct":
				structs = append(structs, g.path(p)+"."+t.name)
			case "enum": // its package has to be in use
				if r.p(75) {
					continue
				}
				scalars = append(scalars, g.path(p)+"."+t.name)
			}
		}
		if len(scalars) > 0 {
			fmt.Fprintf(&yml, "    scalars: [%s]\n", strings.Join(scalars, ", "))
		}
		if len(structs) > 0 {
			fmt.Fprintf(&yml, "    structs: [%s]\n", strings.Join(structs, ", "))
		}
	}
	if g.used {
		yml.WriteString("  time:\n    out: ./client/vo-time.ts\n")
	}
	for _, p := range g.pkgs {
		if r.p(12) { // a program of its own in the package's directory
			files[p.dir+"/tool.go"] = "//go:build ignore\n\npackage main\n\ntype Item1 struct{ Odd int }\n\nfunc main() {}\n"
		}
		if len(p.files) == 0 {
			g.w(p, "a.go", "")
		}
		for f, b := range p.files {
			var s strings.Builder
			fmt.Fprintf(&s, "package %s\n\n", p.name)
			var imps []string
			for path, a := range p.imports[f] {
				if a == path[strings.LastIndex(path, "/")+1:] {
					imps = append(imps, fmt.Sprintf("\t%q\n", path))
				} else {
					imps = append(imps, fmt.Sprintf("\t%s %q\n", a, path))
				}
			}
			sort.Strings(imps)
			if len(imps) > 0 {
				s.WriteString("import (\n" + strings.Join(imps, "") + ")\n\n")
			}
			s.WriteString(b.String())
			files[p.dir+"/"+f] = s.String()
		}
	}
	files["go.mod"] = "module " + g.mod + "\n\ngo 1.23.0\n\nrequire github.com/foomo/gotsrpc/v2 v2.0.0\n"
	if dep {
		files["go.mod"] += "\nrequire dep.test/lib v1.2.3\n\nreplace dep.test/lib => ./lib\n"
		files["lib/go.mod"] = "module dep.test/lib\n\ngo 1.23.0\n"
	}
	files["gotsrpc.yml"] = yml.String()
	files["notes.txt"] = "not an output\n"
	files["client/keep.ts"] = "// written by hand\n"
	return files, []string{"gotsrpc.yml"}
}
