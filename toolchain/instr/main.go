// instr rewrites Go source files for the simulator: a scheduling point before
// every statement. Line numbers are kept. instr OUTDIR OVERLAY.json FILE...
// merges its replacements into OVERLAY.json.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	out, overlay := os.Args[1], os.Args[2]
	var ov struct{ Replace map[string]string }
	b, err := os.ReadFile(overlay)
	check(err)
	check(json.Unmarshal(b, &ov))
	for _, f := range os.Args[3:] {
		src, err := os.ReadFile(f)
		check(err)
		res, n, err := rewrite(f, src)
		check(err)
		if n == 0 {
			continue
		}
		dst := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(f, "/"), "/", "__"))
		check(os.WriteFile(dst, res, 0o644))
		ov.Replace[f] = dst
	}
	b, err = json.MarshalIndent(ov, "", " ")
	check(err)
	check(os.WriteFile(overlay, b, 0o644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func rewrite(name string, src []byte) ([]byte, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	for _, c := range f.Comments {
		if strings.Contains(c.Text(), "go:nosplit") {
			return nil, 0, nil
		}
	}
	var at []int
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.LabeledStmt, *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			at = append(at, fset.Position(s.Pos()).Offset)
		}
	}
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if ok && fn.Body == nil {
			continue
		}
		if ok && fn.Recv == nil && fn.Name.Name == "init" {
			continue
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			}
			return true
		})
	}
	if len(at) == 0 {
		return nil, 0, nil
	}
	sort.Ints(at)
	var b bytes.Buffer
	last := 0
	pk := fset.Position(f.Name.End()).Offset
	b.Write(src[:pk])
	b.WriteString("; import simY__ \"runtime\"")
	last = pk
	for _, o := range at {
		b.Write(src[last:o])
		b.WriteString("simY__.SimYield(); ")
		last = o
	}
	b.Write(src[last:])
	b.WriteString("\nvar _ = simY__.SimYield\n")
	return b.Bytes(), len(at), nil
}
