package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

// globals are the package-level variables and init functions of one package.
// Simulated processes share one address space, so the simulator gives each its
// own values: they are initialised anew when a process starts and exchanged
// when another process gets to run.
type globals struct {
	pkg   string
	rel   string
	names map[string]bool // all package-level variables
	kept  []string        // those that are exchanged
	order []string        // functions that initialise them, in order
	inits map[string]int  // position of init functions
	specs map[*ast.ValueSpec]string
	texts map[string][]string // file -> functions to append
}

// unkept initialisers have effects that cannot be repeated (registrations) or
// make values whose identity is shared by all packages (errors).
func unkept(src string) bool {
	for _, w := range []string{"errors.New", "fmt.Errorf", "prometheus", "promauto", "metrics."} {
		if strings.Contains(src, w) {
			return true
		}
	}
	return false
}

func findGlobals(dir, rel string) (*globals, error) {
	gl := &globals{rel: rel, names: map[string]bool{}, inits: map[string]int{}, texts: map[string][]string{}}
	es, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	type item struct {
		file    string
		fn      string
		body    string
		names   []string
		mention map[string]bool
	}
	var items []item
	var initFns []string
	var files []*ast.File
	var names []string
	var srcs [][]byte
	fset := token.NewFileSet()
	for _, e := range es {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || rel == "internal/engine" && n == "testsuite.go" {
			continue
		}
		src, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			return nil, err
		}
		f, err := parser.ParseFile(fset, filepath.Join(rel, n), src, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		files, names, srcs = append(files, f), append(names, n), append(srcs, src)
		gl.pkg = f.Name.Name
	}
	k := 0
	for i, f := range files {
		src := srcs[i]
		text := func(n ast.Node) string {
			return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
		}
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Recv == nil && x.Name.Name == "init" && x.Body != nil && !unkept(text(x.Body)) {
					k++
					gl.inits[fset.Position(x.Pos()).String()] = k
					initFns = append(initFns, fmt.Sprintf("initVerif%d", k))
				}
			case *ast.GenDecl:
				if x.Tok != token.VAR || x.Doc != nil && strings.Contains(x.Doc.Text(), "go:embed") {
					continue
				}
				for _, sp := range x.Specs {
					vs := sp.(*ast.ValueSpec)
					embed := false
					for _, cg := range []*ast.CommentGroup{x.Doc, vs.Doc} {
						if cg != nil {
							for _, c := range cg.List {
								embed = embed || strings.HasPrefix(c.Text, "//go:")
							}
						}
					}
					for _, n := range vs.Names {
						if n.Name != "_" {
							gl.names[n.Name] = true
						}
					}
					if embed || unkept(text(vs)) {
						continue
					}
					k++
					it := item{file: names[i], fn: fmt.Sprintf("varVerif%d", k), mention: map[string]bool{}}
					var sb strings.Builder
					var lhs []string
					for _, n := range vs.Names {
						lhs = append(lhs, n.Name)
						if n.Name != "_" {
							it.names = append(it.names, n.Name)
							gl.kept = append(gl.kept, n.Name)
						}
					}
					if len(vs.Values) == 0 {
						for _, n := range it.names {
							fmt.Fprintf(&sb, "%s = *new(%s); ", n, text(vs.Type))
						}
					} else if len(vs.Values) == len(vs.Names) {
						for j, v := range vs.Values {
							fmt.Fprintf(&sb, "%s = %s\n", lhs[j], text(v))
						}
					} else {
						fmt.Fprintf(&sb, "%s = %s\n", strings.Join(lhs, ", "), text(vs.Values[0]))
					}
					for _, v := range vs.Values {
						ast.Inspect(v, func(n ast.Node) bool {
							if id, ok := n.(*ast.Ident); ok {
								it.mention[id.Name] = true
							}
							return true
						})
					}
					it.body = sb.String()
					items = append(items, it)
				}
			}
		}
	}
	// Variables are initialised after the ones their initialisers mention.
	done := map[string]bool{}
	pending := map[string]bool{}
	for _, it := range items {
		for _, n := range it.names {
			pending[n] = true
		}
	}
	for len(items) > 0 {
		pick := 0
		for i, it := range items {
			ok := true
			for n := range it.mention {
				own := false
				for _, m := range it.names {
					own = own || m == n
				}
				if pending[n] && !done[n] && !own {
					ok = false
				}
			}
			if ok {
				pick = i
				break
			}
		}
		it := items[pick]
		items = append(items[:pick:pick], items[pick+1:]...)
		for _, n := range it.names {
			done[n] = true
		}
		gl.texts[it.file] = append(gl.texts[it.file], fmt.Sprintf("\nfunc %s() {\n%s}\n", it.fn, it.body))
		gl.order = append(gl.order, it.fn)
	}
	gl.order = append(gl.order, initFns...)
	return gl, nil
}

// mentions reports whether a statement (not counting blocks nested in it that
// get their own points) refers to a package-level variable.
func (gl *globals) mentions(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && gl.names[id.Name] {
			found = true
		}
		return !found
	})
	return found
}

// tail is the text to append to a file.
func (gl *globals) tail(fset *token.FileSet, f *ast.File, src []byte) string {
	return strings.Join(gl.texts[filepath.Base(fset.Position(f.Pos()).Filename)], "")
}

// source registers the variables with the simulator.
func (gl *globals) source() string {
	if len(gl.order) == 0 {
		return ""
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "import \"verifhook\"\n\nfunc init() {\n\tverifhook.Globals = append(verifhook.Globals, verifhook.GlobalSet{Pkg: %q, Init: verifInit, Ptrs: []any{", gl.rel)
	for _, n := range gl.kept {
		fmt.Fprintf(&sb, "&%s, ", n)
	}
	sb.WriteString("}})\n}\n\nfunc verifInit() {\n")
	for _, f := range gl.order {
		fmt.Fprintf(&sb, "\t%s()\n", f)
	}
	sb.WriteString("}\n")
	// The first initialisation, for code that runs outside any process.
	for _, f := range gl.order {
		if strings.HasPrefix(f, "initVerif") {
			fmt.Fprintf(&sb, "\nfunc init() { %s() }\n", f)
		}
	}
	return sb.String()
}
