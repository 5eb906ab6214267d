package driver

import (
	"encoding/json"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
)

// mine collects the constants in the library's own source (not in its generated
// parser), as a fuzzer's dictionary: the lengths, characters and words at which
// it may behave differently, for texts to be made of.  What is right or wrong is
// no matter of these.
func mine(t *testing.T) {
	ints, strs := map[int64]bool{}, map[string]bool{}
	filepath.Walk(os.Getenv("DRV_MINE"), func(path string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, nil, parser.ParseComments)
		if err != nil || ast.IsGenerated(f) {
			return nil
		}
		for _, imp := range f.Imports {
			imp.Path.Value = `"fmt"` // paths are no words
		}
		info2 := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{Error: func(error) {}}
		conf.Check("x", fset, []*ast.File{f}, info2)
		for _, tv := range info2.Types {
			if tv.Value == nil {
				continue
			}
			switch tv.Value.Kind() {
			case constant.Int:
				if v, ok := constant.Int64Val(tv.Value); ok {
					ints[v] = true
				}
			case constant.String:
				strs[constant.StringVal(tv.Value)] = true
			}
		}
		ast.Inspect(f, func(n ast.Node) bool { // also where types are not known
			if l, ok := n.(*ast.BasicLit); ok {
				v := constant.MakeFromLiteral(l.Value, l.Kind, 0)
				switch v.Kind() {
				case constant.Int:
					if x, ok := constant.Int64Val(v); ok {
						ints[x] = true
					}
				case constant.String:
					strs[constant.StringVal(v)] = true
				}
			}
			return true
		})
		return nil
	})
	res := struct {
		Ints []int64  `json:"ints"`
		Strs []string `json:"strs"`
	}{[]int64{}, []string{}}
	for v := range ints {
		res.Ints = append(res.Ints, v)
	}
	for v := range strs {
		if len(v) <= 200 {
			res.Strs = append(res.Strs, v)
		}
	}
	sort.Slice(res.Ints, func(i, j int) bool { return res.Ints[i] < res.Ints[j] })
	sort.Strings(res.Strs)
	b, err := json.Marshal(res)
	if err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(os.Getenv("DRV_OUT"), b, 0o644); err != nil {
		t.Fatal(err)
	}
}
