// Command instr copies Go source trees, inserting a scheduler call before every statement
// and an import that puts the process into its simulated world before package variables are initialised.
// usage: instr SRCDIR DSTDIR IMPORTPATH [mainpkgdir:newname]...
//
// Test files are left out. The copied files keep their line structure. Packages named main listed as
// "dir:name" become ordinary packages called name, with an exported SimMain.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func die(f string, a ...interface{}) { fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...); os.Exit(3) }

type ins struct {
	off  int
	text string
}

func instrument(src []byte, name, rt string) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		die("%v", err)
	}
	var list []ins
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	block := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			list = append(list, ins{off(s.Pos()), "simrt_.Y();"})
		}
	}
	used := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Body != nil {
				used = true
				list = append(list, ins{off(x.Body.Lbrace) + 1, "simrt_.Y();"})
			}
		case *ast.FuncLit:
			used = true
			list = append(list, ins{off(x.Body.Lbrace) + 1, "simrt_.Y();"})
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				list = append(list, ins{off(x.Body.Lbrace) + 1, "simrt_.Y();"})
			}
		case *ast.RangeStmt:
			if len(x.Body.List) == 0 {
				list = append(list, ins{off(x.Body.Lbrace) + 1, "simrt_.Y();"})
			}
		case *ast.BlockStmt:
			block(x.List)
		case *ast.CaseClause:
			block(x.Body)
		case *ast.CommClause:
			block(x.Body)
		}
		return true
	})
	// BlockStmt of switch/select holds clauses, not statements: drop insertions in front of clauses
	clause := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CaseClause:
			clause[off(x.Pos())] = true
		case *ast.CommClause:
			clause[off(x.Pos())] = true
		}
		return true
	})
	if used {
		list = append(list, ins{off(f.Name.End()), "; import simrt_ \"" + rt + "\""})
	}
	list = append(list, ins{off(f.Name.End()), "; import _ \"" + filepath.Dir(rt) + "/simboot\""})
	sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
	var out []byte
	last := 0
	for _, i := range list {
		if clause[i.off] {
			continue
		}
		out = append(out, src[last:i.off]...)
		out = append(out, i.text...)
		last = i.off
	}
	return append(out, src[last:]...)
}

func main() {
	if len(os.Args) < 4 {
		die("usage")
	}
	src, dst, rt := os.Args[1], os.Args[2], os.Args[3]
	mains := map[string]string{}
	for _, m := range os.Args[4:] {
		p := strings.SplitN(m, ":", 2)
		mains[p[0]] = p[1]
	}
	err := filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			if rel != "." && (strings.HasPrefix(fi.Name(), ".") || fi.Name() == "testdata" || fi.Name() == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		b = instrument(b, p, rt)
		if nn, ok := mains[filepath.Dir(rel)]; ok {
			fs := token.NewFileSet()
			f, err := parser.ParseFile(fs, p, b, parser.PackageClauseOnly)
			if err != nil {
				die("%v", err)
			}
			if f.Name.Name == "main" {
				o := fs.Position(f.Name.Pos()).Offset
				b = append(append(append([]byte{}, b[:o]...), nn...), b[o+4:]...)
			}
		}
		o := filepath.Join(dst, rel)
		if err := os.MkdirAll(filepath.Dir(o), 0755); err != nil {
			return err
		}
		return os.WriteFile(o, b, 0644)
	})
	if err != nil {
		die("%v", err)
	}
	for d, nn := range mains {
		o := filepath.Join(dst, d, "zz_sim.go")
		if err := os.WriteFile(o, []byte("package "+nn+"\n\n// SimMain runs the command.\nfunc SimMain() { main() }\n"), 0644); err != nil {
			die("%v", err)
		}
	}
}
