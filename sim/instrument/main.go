// instrument copies Go packages and inserts a call to simrt.Point before every
// statement, on the same line, so that line numbers stay those of the original.
// usage: instrument SRCDIR DSTDIR pkgdir...
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	src, dst := os.Args[1], os.Args[2]
	for _, pkg := range os.Args[3:] {
		if err := os.MkdirAll(filepath.Join(dst, pkg), 0o755); err != nil {
			fatal(err)
		}
		ents, err := os.ReadDir(filepath.Join(src, pkg))
		if err != nil {
			fatal(err)
		}
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			b, err := os.ReadFile(filepath.Join(src, pkg, n))
			if err != nil {
				fatal(err)
			}
			out, err := rewrite(n, b)
			if err != nil {
				fatal(err)
			}
			if err := os.WriteFile(filepath.Join(dst, pkg, n), out, 0o644); err != nil {
				fatal(err)
			}
		}
		if filepath.Base(pkg) == "replication" {
			if err := export(filepath.Join(src, pkg), filepath.Join(dst, pkg)); err != nil {
				fatal(err)
			}
		}
	}
}

func fatal(err error) { fmt.Fprintln(os.Stderr, "instrument:", err); os.Exit(2) }

// export lists the functions of the package that parse the text of a GTID set,
// found by their type: func(string) (GTIDSet, error).
func export(src, dst string) error {
	pkgs, err := parser.ParseDir(token.NewFileSet(), src, func(i os.FileInfo) bool { return !strings.HasSuffix(i.Name(), "_test.go") }, 0)
	if err != nil {
		return err
	}
	var names []string
	for _, p := range pkgs {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || fd.Type.TypeParams != nil || fd.Type.Params.NumFields() != 1 || fd.Type.Results.NumFields() != 2 {
					continue
				}
				is := func(l *ast.FieldList, i int, want string) bool {
					n := 0
					for _, x := range l.List {
						k := len(x.Names)
						if k == 0 {
							k = 1
						}
						if i < n+k {
							id, ok := x.Type.(*ast.Ident)
							return ok && id.Name == want
						}
						n += k
					}
					return false
				}
				if is(fd.Type.Params, 0, "string") && is(fd.Type.Results, 0, "GTIDSet") && is(fd.Type.Results, 1, "error") {
					names = append(names, fd.Name.Name)
				}
			}
		}
	}
	sort.Strings(names)
	return os.WriteFile(filepath.Join(dst, "zz_verif_export.go"), []byte("package replication\n\n// VerifSetParsers parse GTID sets.\nvar VerifSetParsers = []func(string) (GTIDSet, error){"+strings.Join(names, ", ")+"}\n"), 0o644)
}

func rewrite(name string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	type ins struct {
		off  int
		text string
	}
	var list []ins
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			list = append(list, ins{fset.Position(s.Pos()).Offset, "simrt.Point(); "})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		}
		return true
	})
	if len(list) == 0 {
		return src, nil
	}
	list = append(list, ins{fset.Position(f.Name.End()).Offset, "; import simrt \"verif/simrt\""})
	sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
	var out []byte
	last := 0
	for _, i := range list {
		out = append(out, src[last:i.off]...)
		out = append(out, i.text...)
		last = i.off
	}
	return append(out, src[last:]...), nil
}
