// corpusgen extracts the strings of the repository's tests into an input
// corpus. Run once by hand; its output (corpus-raw.json) is what is used.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type Entry struct {
	Text string `json:"text"`
	Lang string `json:"lang,omitempty"`
	File string `json:"file"`
}

var rxLang = regexp.MustCompile(`^[a-z]{2,3}(-[A-Za-z]{2,4})?(-[A-Z]{2})?$`)

func eval(e ast.Expr) (string, bool) {
	switch x := e.(type) {
	case *ast.BasicLit:
		if x.Kind == token.STRING {
			s, err := strconv.Unquote(x.Value)
			return s, err == nil
		}
	case *ast.BinaryExpr:
		a, ok := eval(x.X)
		b, ok2 := eval(x.Y)
		return a + b, ok && ok2
	case *ast.ParenExpr:
		return eval(x.X)
	}
	return "", false
}

func main() {
	seen := map[string]bool{}
	var out []Entry
	for _, f := range os.Args[1:] {
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, nil, 0)
		if err != nil {
			panic(err)
		}
		base := f[strings.Index(f, "/repo/")+6:]
		add := func(lang, s string) {
			if len([]rune(s)) < 2 || seen[lang+"|"+s] || rxLang.MatchString(s) {
				return
			}
			seen[lang+"|"+s] = true
			out = append(out, Entry{s, lang, base})
		}
		ast.Inspect(af, func(n ast.Node) bool {
			var args []ast.Expr
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.CompositeLit:
				for _, e := range x.Elts {
					if kv, ok := e.(*ast.KeyValueExpr); ok {
						e = kv.Value
					}
					args = append(args, e)
				}
			case *ast.CallExpr:
				args = x.Args
			}
			lang := ""
			for i, a := range args {
				s, ok := eval(a)
				if !ok {
					continue
				}
				if i == 0 && rxLang.MatchString(s) {
					lang = s
					continue
				}
				add(lang, s)
			}
			return true
		})
	}
	sort.SliceStable(out, func(a, b int) bool { return out[a].File < out[b].File })
	js, _ := json.MarshalIndent(out, "", " ")
	os.Stdout.Write(js)
	fmt.Fprintln(os.Stderr, len(out))
}
