package core

import (
	"cmp"
	_ "embed"
	"encoding/json"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// The dictionary: the numbers and strings written in the library's source, as
// fuzzers take them from a binary. Generators mix them in (never the oracles),
// so that a threshold in the code is met on both sides.

var dict struct {
	once          sync.Once
	ints, newInts []int64
	strs, newStrs []string
}

// What the dictionary of the library held when this file was written. Literals
// that came later are drawn more often: they belong to code that is new.
//
//go:embed dict_base.json
var dictBase []byte

type literals struct {
	Ints []int64
	Strs []string
}

// libraryDir finds the library through the module's replace directive.
func libraryDir() string {
	dir, _ := os.Getwd()
	for i := 0; i < 5 && dir != "/"; i++ {
		if b, err := os.ReadFile(filepath.Join(dir, "go.mod")); err == nil {
			for _, l := range strings.Split(string(b), "\n") {
				if strings.Contains(l, "github.com/SKAARHOJ/rawpanel-lib =>") {
					return strings.TrimSpace(strings.SplitN(l, "=>", 2)[1])
				}
			}
		}
		dir = filepath.Dir(dir)
	}
	return ""
}

func value(e ast.Expr) constant.Value {
	switch x := e.(type) {
	case *ast.BasicLit:
		return constant.MakeFromLiteral(x.Value, x.Kind, 0)
	case *ast.ParenExpr:
		return value(x.X)
	case *ast.BinaryExpr:
		a, b := value(x.X), value(x.Y)
		if a == nil || b == nil || a.Kind() != constant.Int || b.Kind() != constant.Int {
			return nil
		}
		switch x.Op {
		case token.ADD, token.SUB, token.MUL, token.OR, token.AND:
			return constant.BinaryOp(a, x.Op, b)
		case token.SHL:
			if n, ok := constant.Uint64Val(b); ok && n < 62 {
				return constant.Shift(a, token.SHL, uint(n))
			}
		}
	}
	return nil
}

// isText leaves out what cannot be in an XML document or a C string.
func isText(s string) bool {
	return utf8.ValidString(s) && strings.IndexFunc(s, func(r rune) bool {
		return unicode.IsControl(r) && r != '\t' && r != '\n' && r != '\r' || r == 0xfeff || r >= 0xfff0 && r <= 0xffff
	}) < 0
}

func mine() {
	ints, strs := map[int64]bool{0: true}, map[string]bool{"": true}
	var files []string
	root := libraryDir()
	for _, d := range []string{"", "topology", "ibeam_lib_monogfx", "gorwp", "rawpanel-lib-c"} {
		f, _ := filepath.Glob(filepath.Join(root, d, "*.go"))
		files = append(files, f...)
	}
	for _, f := range files {
		if root == "" || strings.HasSuffix(f, "_test.go") || strings.HasSuffix(f, ".pb.go") || strings.HasSuffix(f, "fonts.go") {
			continue
		}
		tree, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		for _, decl := range tree.Decls {
			if g, ok := decl.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				continue
			}
			elems := 0
			ast.Inspect(decl, func(n ast.Node) bool {
				if c, ok := n.(*ast.CompositeLit); ok && len(c.Elts) > 64 {
					return false // a table of data
				}
				e, ok := n.(ast.Expr)
				if !ok || elems > 4000 {
					return true
				}
				elems++
				v := value(e)
				if v == nil {
					return true
				}
				switch v.Kind() {
				case constant.Int:
					if i, ok := constant.Int64Val(v); ok {
						ints[i] = true
					}
					if b, ok := e.(*ast.BasicLit); ok && b.Kind == token.CHAR {
						if i, ok := constant.Int64Val(v); ok {
							strs[string(rune(i))] = true
						}
					}
				case constant.String:
					if s := constant.StringVal(v); len(s) <= 40 && isText(s) {
						strs[s] = true
					}
				}
				return true
			})
		}
	}
	lits := literals{Strs: SortedKeys(strs)}
	for i := range ints {
		lits.Ints = append(lits.Ints, i)
	}
	slices.Sort(lits.Ints)
	if f := os.Getenv("VERIF_WRITE_DICT"); f != "" {
		b, _ := json.MarshalIndent(lits, "", " ")
		os.WriteFile(f, append(b, '\n'), 0o644)
	}
	var base literals
	if err := json.Unmarshal(dictBase, &base); err != nil {
		panic(err)
	}
	around := func(from []int64, old bool) (out []int64) {
		for _, i := range from {
			if old || !slices.Contains(base.Ints, i) {
				out = append(out, i-1, i, i+1, -i-1, -i, -i+1)
			}
		}
		slices.SortFunc(out, func(x, y int64) int { // small ones first, for shrinking
			if x < 0 != (y < 0) {
				return cmp.Compare(y, x)
			}
			return cmp.Compare(max(x, -x), max(y, -y))
		})
		return slices.Compact(out)
	}
	dict.ints, dict.newInts = around(lits.Ints, true), around(lits.Ints, false)
	dict.strs = lits.Strs
	for _, s := range lits.Strs {
		if !slices.Contains(base.Strs, s) {
			dict.newStrs = append(dict.newStrs, s)
		}
	}
}

func pick[T any](all, fresh []T, ok func(T) bool, none T) *rapid.Generator[T] {
	keep := func(in []T) (out []T) {
		for _, v := range in {
			if ok == nil || ok(v) {
				out = append(out, v)
			}
		}
		return
	}
	if all = keep(all); len(all) == 0 {
		all = []T{none}
	}
	if fresh = keep(fresh); len(fresh) > 0 {
		return rapid.OneOf(rapid.SampledFrom(all), rapid.SampledFrom(fresh), rapid.SampledFrom(fresh))
	}
	return rapid.SampledFrom(all)
}

var intsOf, stringsOf sync.Map // generators already made

// Ints generates dictionary numbers in lo..hi (lo, if there is none).
func Ints(lo, hi int64) *rapid.Generator[int64] {
	key := [2]int64{lo, hi}
	if g, ok := intsOf.Load(key); ok {
		return g.(*rapid.Generator[int64])
	}
	dict.once.Do(mine)
	g := pick(dict.ints, dict.newInts, func(i int64) bool { return i >= lo && i <= hi }, lo)
	intsOf.Store(key, g)
	return g
}

// Strings generates dictionary strings that ok accepts ("" if there is none).
// What is made is kept under name, if that is not empty.
func Strings(name string, ok func(string) bool) *rapid.Generator[string] {
	if g, found := stringsOf.Load(name); found {
		return g.(*rapid.Generator[string])
	}
	dict.once.Do(mine)
	g := pick(dict.strs, dict.newStrs, ok, "")
	if name != "" {
		stringsOf.Store(name, g)
	}
	return g
}

// Count generates a length: lo..usual mostly, now and then anything up to most.
func Count(t *rapid.T, lo, usual, most int, label string) int {
	if rapid.IntRange(0, 39).Draw(t, label+" rare") != 7 {
		return rapid.IntRange(lo, usual).Draw(t, label)
	}
	if rapid.Bool().Draw(t, label+" dict") {
		return int(Ints(int64(lo), int64(most)).Draw(t, label))
	}
	return rapid.IntRange(lo, most).Draw(t, label)
}
