package main

import (
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// GoFile is what the Go toolchain says of a generated file.
type GoFile struct {
	Errs    string   `json:"errs"`
	Fmt     bool     `json:"fmt"`
	Pkg     string   `json:"pkg"`
	Imports []string `json:"imports"`
	Java    string   `json:"java"` // package of the Java file
}

var goFiles = token.NewFileSet()
var goImporter = importer.ForCompiler(goFiles, "source", nil)

// checkGo parses, type-checks and formats a generated file.
func checkGo(src string) *GoFile {
	g := &GoFile{Imports: []string{}}
	file, err := parser.ParseFile(goFiles, "x.go", src, parser.ParseComments)
	if err != nil {
		g.Errs = strconv.QuoteToASCII(err.Error())
		return g
	}
	g.Pkg = file.Name.Name
	for _, i := range file.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		g.Imports = append(g.Imports, p)
	}
	sort.Strings(g.Imports)
	b, err := format.Source([]byte(src))
	g.Fmt = err == nil && string(b) == src
	var errs []string
	conf := types.Config{Importer: goImporter, Error: func(err error) { errs = append(errs, err.Error()) }}
	conf.Check(g.Pkg, goFiles, []*ast.File{file}, nil)
	if len(errs) > 3 {
		errs = errs[:3]
	}
	if len(errs) > 0 {
		g.Errs = strconv.QuoteToASCII(strings.Join(errs, "; "))
	}
	return g
}
