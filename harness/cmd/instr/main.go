// Command instr writes instrumented copies of the non-test Go files of a
// source tree and an overlay file for `go build -overlay` that substitutes
// them. Before every statement it inserts a call of yield.Y, a scheduling
// point (a no-op unless a harness has installed a scheduler). In the packages
// named by -os it also replaces the import of "os" by antverif/vos, which
// reports file system operations to the harness and can make them fail.
//
// The instrumentation follows the syntax of Go, not the text of this code
// base: it applies to whatever the files contain.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

func main() {
	root := flag.String("root", "/repo", "module root")
	out := flag.String("out", "", "output directory")
	osPkgs := flag.String("os", "antcache", "comma separated directories whose os import is replaced")
	flag.Parse()
	if *out == "" {
		fmt.Fprintln(os.Stderr, "instr: -out required")
		os.Exit(2)
	}
	osDirs := map[string]bool{}
	for _, d := range strings.Split(*osPkgs, ",") {
		osDirs[d] = true
	}
	replace := map[string]string{}
	sites := 0
	err := filepath.Walk(*root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		name := fi.Name()
		if fi.IsDir() {
			if p != *root && (strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_") || name == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(*root, p)
		dir := filepath.Dir(rel)
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			return err
		}
		// Keep build constraints and directives: only comments before the
		// package clause survive (positions of inserted nodes would scatter
		// the others into the code).
		var keep []*ast.CommentGroup
		for _, c := range f.Comments {
			if c.End() < f.Package {
				keep = append(keep, c)
			}
			for _, cc := range c.List {
				if strings.HasPrefix(cc.Text, "//go:") && c.Pos() > f.Package {
					return nil // directive inside the file: leave it alone
				}
			}
		}
		for _, imp := range f.Imports {
			if imp.Path.Value == `"C"` {
				return nil
			}
		}
		f.Comments = keep
		n := 0
		mk := func(pos token.Pos) ast.Stmt {
			n++
			line := fset.Position(pos).Line
			return &ast.ExprStmt{X: &ast.CallExpr{
				Fun:  &ast.SelectorExpr{X: ast.NewIdent("zzyield"), Sel: ast.NewIdent("Y")},
				Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(fmt.Sprintf("%s:%d", rel, line))}},
			}}
		}
		ins := func(list []ast.Stmt) []ast.Stmt {
			var ret []ast.Stmt
			for _, s := range list {
				switch s.(type) {
				case *ast.EmptyStmt:
				default:
					ret = append(ret, mk(s.Pos()))
				}
				ret = append(ret, s)
			}
			return ret
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if ok && (fd.Body == nil || (fd.Recv == nil && fd.Name.Name == "init")) {
				continue
			}
			var walk func(ast.Node)
			walk = func(root ast.Node) {
				ast.Inspect(root, func(x ast.Node) bool {
					switch b := x.(type) {
					case *ast.SwitchStmt:
						walkSwitch(b.Body, ins, walk)
						if b.Init != nil {
							walk(b.Init)
						}
						if b.Tag != nil {
							walk(b.Tag)
						}
						return false
					case *ast.TypeSwitchStmt:
						walkSwitch(b.Body, ins, walk)
						return false
					case *ast.SelectStmt:
						walkSwitch(b.Body, ins, walk)
						return false
					case *ast.BlockStmt:
						for _, s := range b.List {
							walk(s)
						}
						b.List = ins(b.List)
						return false
					}
					return true
				})
			}
			walk(d)
		}
		swap := false
		for d := range osDirs {
			swap = swap || d != "" && (dir == d || strings.HasPrefix(dir, d+"/"))
		}
		if swap {
			swap = false
			for _, imp := range f.Imports {
				if imp.Path.Value == `"os"` {
					imp.Path.Value = `"antverif/vos"`
					if imp.Name == nil {
						imp.Name = ast.NewIdent("os")
					}
					swap = true
				}
			}
		}
		if n == 0 && !swap {
			return nil
		}
		var buf bytes.Buffer
		if err := format.Node(&buf, fset, f); err != nil {
			return fmt.Errorf("%s: %w", rel, err)
		}
		text := buf.Bytes()
		if n > 0 {
			// A separate import declaration right after the package clause.
			f2, err := parser.ParseFile(token.NewFileSet(), p, text, parser.PackageClauseOnly)
			if err != nil {
				return err
			}
			off := int(f2.Name.End()) - 1
			text = append(append(append([]byte{}, text[:off]...), []byte("\n\nimport zzyield \"antverif/yield\"\n")...), text[off:]...)
		}
		dst := filepath.Join(*out, strings.ReplaceAll(rel, "/", "__"))
		if err := os.WriteFile(dst, text, 0o644); err != nil {
			return err
		}
		replace[p] = dst
		sites += n
		return nil
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
	js, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
	fmt.Printf("instr: %d files, %d scheduling points\n", len(replace), sites)
}

func walkSwitch(body *ast.BlockStmt, ins func([]ast.Stmt) []ast.Stmt, walk func(ast.Node)) {
	for _, c := range body.List {
		switch cc := c.(type) {
		case *ast.CaseClause:
			for _, e := range cc.List {
				walk(e)
			}
			for _, s := range cc.Body {
				walk(s)
			}
			cc.Body = ins(cc.Body)
		case *ast.CommClause:
			for _, s := range cc.Body {
				walk(s)
			}
			cc.Body = ins(cc.Body)
		}
	}
}
