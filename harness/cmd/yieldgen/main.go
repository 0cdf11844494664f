// yieldgen writes an overlay in which every statement of the given packages is preceded by a call that may let other
// goroutines run. It reads the current source, so it follows any change to it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	repo, out, yieldSrc := os.Args[1], os.Args[2], os.Args[3]
	pkgs := os.Args[4:]
	module := ""
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		fail(err)
	}
	for _, l := range strings.Split(string(mod), "\n") {
		if strings.HasPrefix(l, "module ") {
			module = strings.TrimSpace(l[7:])
		}
	}
	replace := map[string]string{}
	for _, f := range []string{"yield.go", "yield_race.go"} {
		replace[filepath.Join(repo, "verifyield", f)] = filepath.Join(yieldSrc, f)
	}
	next := 0
	for _, p := range pkgs {
		files, _ := filepath.Glob(filepath.Join(repo, p, "*.go"))
		sort.Strings(files)
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") || strings.HasSuffix(f, ".pb.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				fail(err)
			}
			fset := token.NewFileSet()
			tree, err := parser.ParseFile(fset, f, src, 0)
			if err != nil {
				fail(err)
			}
			offsets := map[int]bool{}
			add := func(list []ast.Stmt) {
				for _, s := range list {
					offsets[fset.Position(s.Pos()).Offset] = true
				}
			}
			ast.Inspect(tree, func(n ast.Node) bool {
				switch b := n.(type) {
				case *ast.BlockStmt:
					// the clauses of a switch or select are not statements of their own
					plain := true
					for _, s := range b.List {
						switch s.(type) {
						case *ast.CaseClause, *ast.CommClause:
							plain = false
						}
					}
					if plain {
						add(b.List)
					}
				case *ast.CaseClause:
					add(b.Body)
				case *ast.CommClause:
					add(b.Body)
				}
				return true
			})
			if len(offsets) == 0 {
				continue
			}
			var sorted []int
			for o := range offsets {
				sorted = append(sorted, o)
			}
			sort.Ints(sorted)
			var b strings.Builder
			head := fset.Position(tree.Name.End()).Offset
			b.Write(src[:head])
			fmt.Fprintf(&b, "; import verifyield %q; ", module+"/verifyield")
			at := head
			for _, o := range sorted {
				b.Write(src[at:o])
				fmt.Fprintf(&b, "verifyield.Y(%d); ", next)
				next++
				at = o
			}
			b.Write(src[at:])
			dst := filepath.Join(out, strings.ReplaceAll(p, "/", "_")+"_"+filepath.Base(f))
			if err := os.WriteFile(dst, []byte(b.String()), 0644); err != nil {
				fail(err)
			}
			replace[f] = dst
		}
	}
	j, _ := json.Marshal(map[string]any{"Replace": replace})
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0644); err != nil {
		fail(err)
	}
	fmt.Printf("%d statements instrumented\n", next)
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, "yieldgen:", err)
	os.Exit(1)
}
