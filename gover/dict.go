package main

import (
	"encoding/json"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// writeDict collects the literals of the source: the search for a failing
// input draws from them too.
func writeDict(out string) {
	words, ints, floats := map[string]bool{}, map[int64]bool{}, map[float64]bool{}
	filepath.WalkDir(filepath.Join(repoDir, "v0"), func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") ||
			strings.Contains(p, "/v0/tools/") || strings.Contains(p, "/v0/gen/") || strings.Contains(p, "/v0/cmd/") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			if b, ok := n.(*ast.BinaryExpr); ok {
				// constants like 1<<16
				if v, err := types.Eval(token.NewFileSet(), nil, token.NoPos, types.ExprString(b)); err == nil && v.Value != nil {
					if i, ok := constant.Int64Val(constant.ToInt(v.Value)); ok && v.Value.Kind() == constant.Int {
						ints[i] = true
					}
				}
				return true
			}
			l, ok := n.(*ast.BasicLit)
			if !ok {
				return true
			}
			switch l.Kind {
			case token.STRING:
				if s, err := strconv.Unquote(l.Value); err == nil && len(s) < 40 {
					words[s] = true
				}
			case token.CHAR:
				if s, err := strconv.Unquote(l.Value); err == nil {
					words[s] = true
				}
			case token.FLOAT:
				if x, err := strconv.ParseFloat(l.Value, 64); err == nil {
					floats[x] = true
				}
			case token.INT:
				if i, err := strconv.ParseInt(l.Value, 0, 64); err == nil {
					ints[i] = true
				}
			}
			return true
		})
		return nil
	})
	var d literals
	for w := range words {
		d.Words = append(d.Words, w)
	}
	for i := range ints {
		d.Ints = append(d.Ints, i)
	}
	for x := range floats {
		d.Floats = append(d.Floats, x)
	}
	sort.Strings(d.Words)
	sort.Slice(d.Ints, func(i, j int) bool { return d.Ints[i] < d.Ints[j] })
	sort.Float64s(d.Floats)
	// what the verified tree did not have is drawn more often
	var was literals
	if b, err := os.ReadFile(filepath.Join(verifDir, "gover", "literals.json")); err == nil && json.Unmarshal(b, &was) == nil {
		old := map[interface{}]bool{}
		for _, w := range was.Words {
			old[w] = true
		}
		for _, i := range was.Ints {
			old[i] = true
		}
		for _, x := range was.Floats {
			old[x] = true
		}
		for _, w := range d.Words {
			if !old[w] {
				d.NewWords = append(d.NewWords, w)
			}
		}
		for _, i := range d.Ints {
			if !old[i] {
				d.NewInts = append(d.NewInts, i)
			}
		}
		for _, x := range d.Floats {
			if !old[x] {
				d.NewFloats = append(d.NewFloats, x)
			}
		}
	}
	b, _ := json.Marshal(d)
	os.WriteFile(out, b, 0644)
}

type literals struct {
	Words     []string
	Ints      []int64
	Floats    []float64
	NewWords  []string  `json:",omitempty"`
	NewInts   []int64   `json:",omitempty"`
	NewFloats []float64 `json:",omitempty"`
}
