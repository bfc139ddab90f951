package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type point struct {
	ID   int
	Pkg  string
	Func string
	Pos  string
}

var points []point
var pkgsDone []string

func memdbVersion() string {
	b, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	m := regexp.MustCompile(`github.com/hashicorp/go-memdb\s+(v[^\s]+)`).FindStringSubmatch(string(b))
	if m == nil {
		die("go.mod: no go-memdb requirement")
	}
	return m[1]
}

// skipFunc names functions whose bodies get no yield points: pure index
// encoders that run inside every radix tree operation.
func skipFunc(pkg string, fd *ast.FuncDecl) bool {
	switch fd.Name.Name {
	case "init", "FromObject", "FromArgs", "PrefixFromArgs", "encodeInt64", "Version":
		return true
	}
	return false
}

func instrumentRepo() error {
	// All non-test packages of the module that take part at run time.
	dirs := map[string]string{}
	for _, root := range []string{".", "internal"} {
		err := filepath.Walk(filepath.Join(*repo, root), func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if fi.IsDir() {
				if root == "." && p != filepath.Join(*repo, root) {
					return filepath.SkipDir
				}
				return nil
			}
			if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			dirs[filepath.Dir(p)] = ""
			return nil
		})
		if err != nil {
			return err
		}
	}
	var list []string
	for d := range dirs {
		list = append(list, d)
	}
	sort.Strings(list)
	for _, d := range list {
		rel, _ := filepath.Rel(*repo, d)
		switch rel {
		case "internal/reqtest", "internal/engine/stub", "internal/metrics", "internal/config", "internal/verifmain":
			continue
		}
		if err := instrumentDir(d, rel, d, ""); err != nil {
			return err
		}
		pkgsDone = append(pkgsDone, rel)
	}

	// The real program, as an importable package.
	main := filepath.Join(*repo, "cmd", "ratus")
	if err := instrumentDir(main, "cmd/ratus", filepath.Join(*repo, "internal", "verifmain"), "verifmain"); err != nil {
		return err
	}
	pkgsDone = append(pkgsDone, "cmd/ratus")
	points = append(points, point{ID: len(points), Pkg: "math/rand", Func: "Source", Pos: "math/rand"})
	put(filepath.Join(*repo, "internal", "verifmain", "zz_main_verif.go"), "package verifmain\n\n// Main runs the real program.\nfunc Main() { main() }\n")
	return nil
}

func instrumentDir(dir, rel, target, rename string) error {
	es, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	gl, err := findGlobals(dir, rel)
	if err != nil {
		return err
	}
	for _, e := range es {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		src, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, filepath.Join(rel, n), src, parser.ParseComments)
		if err != nil {
			return err
		}
		if rel == "internal/engine" && n == "testsuite.go" {
			continue
		}
		out, cnt := instrumentFile(fset, f, src, rel, gl)
		if t := gl.tail(fset, f, src); t != "" {
			out, cnt = out+t, cnt+1
		}
		if rename != "" {
			// package clause
			p := fset.Position(f.Name.Pos()).Offset
			out = strings.Replace(out[:p], "", "", 0) + strings.Replace(out[p:], f.Name.Name, rename, 1)
		}
		if cnt == 0 && rename == "" {
			continue
		}
		put(filepath.Join(target, n), out)
	}
	if s := gl.source(); s != "" {
		if rename == "" {
			rename = gl.pkg
		}
		put(filepath.Join(target, "zz_verif.go"), "package "+rename+"\n\n"+s)
	}
	return nil
}

type insertion struct {
	off  int
	text string
}

func instrumentFile(fset *token.FileSet, f *ast.File, src []byte, rel string, gl *globals) (string, int) {
	var ins []insertion
	cnt := 0
	if !*nopoints {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || skipFunc(rel, fd) {
				continue
			}
			name := fd.Name.Name
			if fd.Recv != nil && len(fd.Recv.List) > 0 {
				if s, ok := fd.Recv.List[0].Type.(*ast.StarExpr); ok {
					if id, ok := s.X.(*ast.Ident); ok {
						name = id.Name + "." + name
					}
				}
			}
			// Chained setters and one-line accessors never touch shared state.
			if len(fd.Body.List) <= 1 && rel == "." {
				continue
			}
			add := func(list []ast.Stmt) {
				for _, s := range list {
					if _, ok := s.(*ast.EmptyStmt); ok {
						continue
					}
					if ls, ok := s.(*ast.LabeledStmt); ok {
						_ = ls
						continue
					}
					if rel == "internal/nonce" && !gl.mentions(s) {
						continue
					}
					p := fset.Position(s.Pos())
					id := len(points)
					points = append(points, point{ID: id, Pkg: rel, Func: name, Pos: fmt.Sprintf("%s:%d", p.Filename, p.Line)})
					ins = append(ins, insertion{p.Offset, fmt.Sprintf("verifhook.Point(%d); ", id)})
					cnt++
				}
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					add(x.List)
				case *ast.CaseClause:
					add(x.Body)
				case *ast.CommClause:
					add(x.Body)
				case *ast.SwitchStmt:
					ast.Inspect(x.Body, func(ast.Node) bool { return true })
				}
				return true
			})
		}
	}
	// Blocks of switch/select hold clauses, not statements: drop insertions there.
	bad := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CaseClause:
			bad[fset.Position(x.Pos()).Offset] = true
		case *ast.CommClause:
			bad[fset.Position(x.Pos()).Offset] = true
		}
		return true
	})
	kept := ins[:0]
	for _, i := range ins {
		if !bad[i.off] {
			kept = append(kept, i)
		} else {
			cnt--
		}
	}
	ins = kept
	if cnt > 0 {
		end := fset.Position(f.Name.End()).Offset
		ins = append(ins, insertion{end, "; import \"verifhook\""})
	}
	// Initialisation repeats at every simulated process start.
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && gl.inits[fset.Position(fd.Pos()).String()] != 0 {
			ins = append(ins, insertion{fset.Position(fd.Name.End()).Offset, fmt.Sprintf("Verif%d", gl.inits[fset.Position(fd.Pos()).String()])})
		}
	}
	// A source of random numbers is not safe for concurrent use.
	for _, im := range f.Imports {
		if im.Path.Value == `"math/rand"` {
			if im.Name == nil {
				ins = append(ins, insertion{fset.Position(im.Pos()).Offset, "rand "})
			}
			ins = append(ins, insertion{fset.Position(im.Path.Pos()).Offset + 1, "verif/"})
			cnt++
		}
	}
	sort.SliceStable(ins, func(a, b int) bool { return ins[a].off < ins[b].off })
	var sb strings.Builder
	last := 0
	for _, i := range ins {
		sb.Write(src[last:i.off])
		sb.WriteString(i.text)
		last = i.off
	}
	sb.Write(src[last:])
	return sb.String(), cnt
}
