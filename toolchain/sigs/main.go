// sigs DIR: what the Go sources of the simulated services say about their
// signatures and constants, as JSON. DIR holds gotsrpc.yml and svc.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

type method struct {
	Params  []string `json:"params"`
	Results []string `json:"results"`
}

type service struct {
	File    string            `json:"file"`
	Class   string            `json:"class"`
	Methods map[string]method `json:"methods"`
}

func main() {
	dir := os.Args[1]
	yml, err := os.ReadFile(filepath.Join(dir, "gotsrpc.yml"))
	check(err)
	dirs := map[string]string{}
	if b, err := os.ReadFile(filepath.Join(dir, "pkgdirs.json")); err == nil {
		check(json.Unmarshal(b, &dirs))
	}
	dirOf := func(pkg string) string {
		if d, ok := dirs[pkg]; ok {
			return d
		}
		return filepath.Join(dir, strings.TrimPrefix(pkg, "gotsrpcsim/"))
	}
	out := map[string]any{}
	services := map[string]service{}
	enums := map[string]map[string]any{}
	section, pkg, file := "", "", ""
	var eps [][2]string
	ts := map[string]bool{}
	list := ""
	var listed []string // "file:Type", which mappings ask for
	base := ""
	flush := func() {
		for _, e := range eps {
			if ts[e[1]] && file != "" {
				services[strings.TrimPrefix(e[0], "/rpc/")] = service{file, e[1] + "Client", methods(dirOf(pkg), e[1])}
			}
		}
		eps, ts, pkg, file = nil, map[string]bool{}, "", ""
	}
	for _, line := range strings.Split(string(yml), "\n") {
		t := strings.TrimSpace(line)
		ind := len(line) - len(strings.TrimLeft(line, " "))
		k, v, _ := strings.Cut(t, ":")
		v = strings.TrimSpace(v)
		switch {
		case t == "":
		case ind == 0:
			flush()
			section = k
		case section == "targets" && ind == 2:
			flush()
		case section == "targets" && ind == 4:
			list = k
			if k == "package" {
				pkg = v
			}
			if k == "out" {
				file = strings.TrimSuffix(filepath.Base(v), ".ts")
			}
		case section == "targets" && list == "services":
			eps = append(eps, [2]string{k, v})
		case section == "targets" && list == "tsrpc":
			ts[strings.TrimSpace(strings.TrimPrefix(t, "-"))] = true
		case section == "mappings" && ind == 2:
			pkg = strings.TrimSuffix(t, ":")
		case section == "mappings" && k == "out" && (strings.HasPrefix(pkg, "gotsrpcsim/") || dirs[pkg] != ""):
			base = strings.TrimSuffix(filepath.Base(v), ".ts")
			for typ, c := range consts(dirOf(pkg)) {
				enums[base+":"+typ] = c
			}
		case section == "mappings" && (k == "structs" || k == "scalars"):
			for _, x := range strings.Split(strings.Trim(v, "[]"), ",") {
				listed = append(listed, base+":"+x[strings.LastIndex(x, ".")+1:])
			}
		}
	}
	out["services"], out["enums"], out["listed"] = services, enums, listed
	b, err := json.Marshal(out)
	check(err)
	fmt.Println(string(b))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func files(dir string) (l []*ast.File) {
	pkgs, err := filepath.Glob(filepath.Join(dir, "*.go"))
	check(err)
	for _, p := range pkgs {
		if strings.HasSuffix(p, "_gen.go") || strings.HasSuffix(p, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		check(err)
		l = append(l, f)
	}
	return
}

func isHTTP(e ast.Expr, name string) bool {
	if s, ok := e.(*ast.StarExpr); ok {
		e = s.X
	}
	s, ok := e.(*ast.SelectorExpr)
	return ok && s.Sel.Name == name
}

func names(l *ast.FieldList, params bool) (out []string) {
	if l == nil {
		return []string{}
	}
	out = []string{}
	for _, f := range l.List {
		if params && (isHTTP(f.Type, "ResponseWriter") || isHTTP(f.Type, "Request")) {
			continue
		}
		if len(f.Names) == 0 {
			out = append(out, "")
		}
		for _, n := range f.Names {
			out = append(out, n.Name)
		}
	}
	return
}

func methods(dir, svc string) map[string]method {
	out := map[string]method{}
	add := func(name string, t *ast.FuncType) {
		if ast.IsExported(name) {
			out[name] = method{names(t.Params, true), names(t.Results, false)}
		}
	}
	for _, f := range files(dir) {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					continue
				}
				if s, ok := d.Recv.List[0].Type.(*ast.StarExpr); ok {
					if i, ok := s.X.(*ast.Ident); ok && i.Name == svc {
						add(d.Name.Name, d.Type)
					}
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					if t, ok := s.(*ast.TypeSpec); ok && t.Name.Name == svc {
						if it, ok := t.Type.(*ast.InterfaceType); ok {
							for _, m := range it.Methods.List {
								if ft, ok := m.Type.(*ast.FuncType); ok {
									for _, n := range m.Names {
										add(n.Name, ft)
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return out
}

func consts(dir string) map[string]map[string]any {
	out := map[string]map[string]any{}
	for _, f := range files(dir) {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.CONST {
				continue
			}
			for _, s := range g.Specs {
				v := s.(*ast.ValueSpec)
				t, ok := v.Type.(*ast.Ident)
				if !ok {
					continue
				}
				for i, n := range v.Names {
					if i >= len(v.Values) {
						continue
					}
					x := literal(v.Values[i])
					if x == nil {
						continue
					}
					if out[t.Name] == nil {
						out[t.Name] = map[string]any{}
					}
					out[t.Name][n.Name] = x
				}
			}
		}
	}
	return out
}

// literal is the value of an expression that is not made of names or sums.
func literal(e ast.Expr) any {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return literal(e.X)
	case *ast.UnaryExpr:
		if f, ok := literal(e.X).(float64); ok && e.Op == token.SUB {
			return -f
		}
	case *ast.BasicLit:
		switch v := constant.MakeFromLiteral(e.Value, e.Kind, 0); e.Kind {
		case token.STRING:
			return constant.StringVal(v)
		default:
			f, _ := constant.Float64Val(constant.ToFloat(v))
			return f
		}
	}
	return nil
}
