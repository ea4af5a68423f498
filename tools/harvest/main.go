// Command harvest extracts the Asciidoc sources used by the repository's own
// tests into a corpus of snippets (run by hand; its result is committed).
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

func main() {
	seen := map[string]bool{}
	var res []string
	filepath.Walk(os.Args[1], func(p string, fi os.FileInfo, err error) error {
		if err != nil || !strings.HasSuffix(p, "_test.go") {
			return nil
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, nil, 0)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			as, ok := n.(*ast.AssignStmt)
			if !ok || len(as.Lhs) != 1 {
				return true
			}
			id, ok := as.Lhs[0].(*ast.Ident)
			if !ok || !strings.HasPrefix(strings.ToLower(id.Name), "source") && id.Name != "s" && id.Name != "actualContent" {
				return true
			}
			if s, ok := str(as.Rhs[0]); ok && len(s) < 4000 && len(s) > 3 && !seen[s] {
				seen[s] = true
				res = append(res, s)
			}
			return true
		})
		return nil
	})
	sort.Strings(res)
	b, _ := json.MarshalIndent(res, "", " ")
	os.Stdout.Write(b)
}

func str(e ast.Expr) (string, bool) {
	switch e := e.(type) {
	case *ast.BasicLit:
		s, err := strconv.Unquote(e.Value)
		return s, err == nil && e.Kind == token.STRING
	case *ast.BinaryExpr:
		a, ok1 := str(e.X)
		b, ok2 := str(e.Y)
		return a + b, ok1 && ok2
	}
	return "", false
}
