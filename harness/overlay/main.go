// overlay writes copies of the Go files of a package that import "sync" or
// "sync/atomic", with
// that import replaced, and an overlay file for go build.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

var stands = map[string]string{"sync": "verif/amc/ctlsync", "sync/atomic": "verif/amc/ctlsync/ctlatomic"}

func main() {
	repo, out := os.Args[1], os.Args[2]
	files, err := filepath.Glob(filepath.Join(repo, "*.go"))
	check(err)
	repl := map[string]string{}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		fset := token.NewFileSet()
		tree, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
		check(err)
		changed := false
		for _, im := range tree.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			if to, ok := stands[p]; ok {
				im.Path.Value = strconv.Quote(to)
				if im.Name == nil {
					im.Name = ast.NewIdent(filepath.Base(p))
				}
				changed = true
			}
		}
		if !changed {
			continue
		}
		var b bytes.Buffer
		check(format.Node(&b, fset, tree))
		dst := filepath.Join(out, "ovl_"+filepath.Base(f))
		check(os.WriteFile(dst, b.Bytes(), 0o644))
		repl[f] = dst
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	check(os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644))
	fmt.Fprintf(os.Stderr, "%d files import sync\n", len(repl))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
