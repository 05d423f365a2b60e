package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// ---- clients and models, added to the program in memory only ----

const clientFile = "zz_static_client.go"
const modelFile = "zz_static_model.go"

// modelled lists, per package directory, the declarations that a model replaces when the
// layers above are analysed; the declarations themselves are the subject of other
// properties. Every declaration that mentions one of the names is left out.
var modelled = map[string][]string{
	"pkg/tree":      {"Tree", "TreeIterator", "treeNode"},
	"pkg/tree/id16": {"IDSetBuilder", "IDSet", "appendRangeIDs", "compareIDs"},
	"pkg/tree/id32": {"IDSetBuilder", "IDSet", "appendRangeIDs", "compareIDs"},
	"pkg/tree/id64": {"IDSetBuilder", "IDSet", "appendRangeIDs", "compareIDs"},
}

func readClient(name string) string {
	b, _ := clients.ReadFile("clients/" + name)
	return string(b)
}

// overlay adds client functions that call the public interface on arbitrary inputs: the
// analysis reads them together with the package. With model, packages below the one
// analysed are replaced by their specification.
func overlay(dir string, model bool) map[string][]byte {
	out := map[string][]byte{}
	ents, _ := clients.ReadDir("clients")
	intr := readClient("intrinsics.txt")
	add := func(name, text string) {
		file := clientFile
		if strings.HasPrefix(name, "model_") {
			if !model {
				return
			}
			name, file = strings.TrimPrefix(name, "model_"), modelFile
		}
		rel := strings.ReplaceAll(strings.TrimSuffix(name, ".go.txt"), "_", "/")
		if model && file == clientFile && modelled[rel] != nil {
			return // these clients look inside what the model replaces
		}
		d := filepath.Join(dir, rel)
		if _, err := os.Stat(d); err != nil {
			return
		}
		if out[filepath.Join(d, clientFile)] == nil && out[filepath.Join(d, modelFile)] == nil {
			text += intr
		}
		out[filepath.Join(d, file)] = []byte(text)
	}
	for _, en := range ents {
		if !strings.HasSuffix(en.Name(), ".go.txt") {
			continue
		}
		b := readClient(en.Name())
		if !strings.Contains(en.Name(), "NN") {
			add(en.Name(), b)
			continue
		}
		for _, w := range []string{"16", "32", "64"} {
			add(strings.ReplaceAll(en.Name(), "NN", w), strings.ReplaceAll(b, "NN", w))
		}
	}
	if model {
		for rel, names := range modelled {
			files, _ := filepath.Glob(filepath.Join(dir, rel, "*.go"))
			for _, f := range files {
				if strings.HasSuffix(f, "_test.go") {
					continue
				}
				if b, err := os.ReadFile(f); err == nil {
					if nb, ok := without(b, names); ok {
						out[f] = nb
					}
				}
			}
		}
	}
	return out
}

// without is the file without the declarations that mention one of the names, and without
// the imports nothing uses any more.
func without(src []byte, names []string) ([]byte, bool) {
	drop := map[string]bool{}
	for _, n := range names {
		drop[n] = true
	}
	return cut(src, func(fs *token.FileSet, d ast.Decl) bool {
		found := false
		ast.Inspect(d, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok && drop[id.Name] {
				found = true
			}
			return true
		})
		return found
	})
}

func cut(src []byte, drop func(*token.FileSet, ast.Decl) bool) ([]byte, bool) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, false
	}
	out := append([]byte(nil), src...)
	blank := func(a, b token.Pos) {
		for i := fs.Position(a).Offset; i < fs.Position(b).Offset; i++ {
			if out[i] != '\n' {
				out[i] = ' '
			}
		}
	}
	any := false
	used := map[string]bool{}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		if drop(fs, d) {
			any = true
			blank(d.Pos(), d.End())
			continue
		}
		ast.Inspect(d, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok {
					used[id.Name] = true
				}
			}
			return true
		})
	}
	if !any {
		return src, false
	}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		n := p[strings.LastIndex(p, "/")+1:]
		if regexp.MustCompile(`^v[0-9]+$`).MatchString(n) {
			continue
		}
		if im.Name != nil {
			n = im.Name.Name
		}
		if n == "_" || n == "." || used[n] {
			continue
		}
		blank(im.Pos(), im.End())
	}
	return out, true
}

var errPos = regexp.MustCompile(`^(.*/zz_static_(?:client|model)\.go):([0-9]+):`)

// dropBroken removes the client functions that do not compile (the interface they use has
// changed), so that the others are still analysed. It reports whether it could.
func dropBroken(ov map[string][]byte, errs []string) bool {
	lines := map[string]map[int]bool{}
	for _, e := range errs {
		m := errPos.FindStringSubmatch(e)
		if m == nil {
			continue
		}
		if lines[m[1]] == nil {
			lines[m[1]] = map[int]bool{}
		}
		n, _ := strconv.Atoi(m[2])
		lines[m[1]][n] = true
	}
	var fs []string
	for f := range lines {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	done := false
	for _, f := range fs {
		if ov[f] == nil {
			continue
		}
		nb, ok := cut(ov[f], func(fset *token.FileSet, d ast.Decl) bool {
			for l := fset.Position(d.Pos()).Line; l <= fset.Position(d.End()).Line; l++ {
				if lines[f][l] {
					return true
				}
			}
			return false
		})
		if ok {
			ov[f] = nb
			done = true
		}
	}
	return done
}
