package main

import (
	"bytes"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// prune writes copies of the harness files holding just what the wanted
// harnesses need, so that the replay binary compiles quickly. It maps the
// overlay's targets to the copies.
func prune(overlay map[string]string, want map[string]bool, dir string) (map[string]string, error) {
	type file struct {
		dst, src string
		ast      *ast.File
	}
	fset := token.NewFileSet()
	var files []*file
	out := map[string]string{}
	hdir := filepath.Join(repoDir, "internal/zzverif/h")
	for dst, src := range overlay {
		if filepath.Dir(dst) != hdir {
			out[dst] = src
			continue
		}
		f, err := parser.ParseFile(fset, src, nil, 0)
		if err != nil {
			return nil, err
		}
		files = append(files, &file{dst, src, f})
	}
	decls := map[string][]ast.Node{} // by name: what to look at when the name is used
	var initial []ast.Node
	recv := func(d *ast.FuncDecl) string {
		t := d.Recv.List[0].Type
		for {
			switch x := t.(type) {
			case *ast.StarExpr:
				t = x.X
				continue
			case *ast.IndexExpr:
				t = x.X
				continue
			case *ast.IndexListExpr:
				t = x.X
				continue
			case *ast.Ident:
				return x.Name
			}
			return ""
		}
	}
	for _, f := range files {
		for _, d := range f.ast.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				switch {
				case d.Recv != nil:
					decls[recv(d)] = append(decls[recv(d)], d)
				case d.Name.Name == "init":
					var kept []ast.Stmt
					for _, s := range d.Body.List {
						if n := registered(s); n == "" || want[n] {
							kept = append(kept, s)
						}
					}
					d.Body.List = kept
					initial = append(initial, d)
				default:
					decls[d.Name.Name] = append(decls[d.Name.Name], d)
				}
			case *ast.GenDecl:
				if d.Tok == token.IMPORT {
					continue
				}
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						decls[s.Name.Name] = append(decls[s.Name.Name], s)
					case *ast.ValueSpec:
						for _, n := range s.Names {
							decls[n.Name] = append(decls[n.Name], d) // iota needs the whole group
							if n.Name == "_" {
								initial = append(initial, d)
							}
						}
					}
				}
			}
		}
	}
	used := map[string]bool{}
	var visit func(n ast.Node)
	visit = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			if id, is := m.(*ast.Ident); is && !used[id.Name] {
				used[id.Name] = true
				for _, d := range decls[id.Name] {
					visit(d)
				}
			}
			return true
		})
	}
	for _, n := range initial {
		visit(n)
	}
	for i, f := range files {
		var kept []ast.Decl
		for _, d := range f.ast.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Name.Name == "init" && d.Recv == nil && len(d.Body.List) > 0 || d.Recv == nil && d.Name.Name != "init" && used[d.Name.Name] || d.Recv != nil && used[recv(d)] {
					kept = append(kept, d)
				}
			case *ast.GenDecl:
				if d.Tok == token.IMPORT {
					continue
				}
				var specs []ast.Spec
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						if used[s.Name.Name] {
							specs = append(specs, s)
						}
					default:
						specs = append(specs, s)
					}
				}
				if d.Specs = specs; len(specs) > 0 {
					kept = append(kept, d)
				}
			}
		}
		sel := map[string]bool{}
		for _, d := range kept {
			ast.Inspect(d, func(m ast.Node) bool {
				if s, is := m.(*ast.SelectorExpr); is {
					if id, is := s.X.(*ast.Ident); is {
						sel[id.Name] = true
					}
				}
				return true
			})
		}
		var imps []ast.Spec
		for _, s := range f.ast.Imports {
			path, _ := strconv.Unquote(s.Path.Value)
			name := path[strings.LastIndex(path, "/")+1:]
			if s.Name != nil {
				name = s.Name.Name
			}
			if sel[name] || name == "_" {
				imps = append(imps, s)
			}
		}
		f.ast.Decls = kept
		if len(imps) > 0 {
			f.ast.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Specs: imps, Rparen: 1}}, kept...)
		}
		f.ast.Comments = nil
		var b bytes.Buffer
		if err := printer.Fprint(&b, fset, f.ast); err != nil {
			return nil, err
		}
		p := filepath.Join(dir, strconv.Itoa(i)+"_"+filepath.Base(f.src))
		if err := os.WriteFile(p, b.Bytes(), 0o644); err != nil {
			return nil, err
		}
		out[f.dst] = p
	}
	return out, nil
}

// registered is X in Harnesses["X"] = …
func registered(s ast.Stmt) string {
	a, is := s.(*ast.AssignStmt)
	if !is || len(a.Lhs) != 1 {
		return ""
	}
	x, is := a.Lhs[0].(*ast.IndexExpr)
	if !is {
		return ""
	}
	if id, is := x.X.(*ast.Ident); !is || id.Name != "Harnesses" {
		return ""
	}
	l, is := x.Index.(*ast.BasicLit)
	if !is {
		return ""
	}
	n, _ := strconv.Unquote(l.Value)
	return n
}
