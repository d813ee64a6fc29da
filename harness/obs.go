package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"regexp"
	"strconv"
	"strings"
)

// Decl and Field are what the code of a declaration says, see spec/XGen.tla.
type Decl struct {
	ID   string  `json:"id"`
	Form string  `json:"form"`
	XML  string  `json:"xml"`
	Doc  string  `json:"doc"`
	Ext  string  `json:"ext"`
	F    []Field `json:"f"`
	Vals []Val   `json:"vals"`
}
type Field struct {
	R string `json:"r"`
	N string `json:"n"`
	X string `json:"x"`
	B string `json:"b"`
	D int    `json:"d"`
	O bool   `json:"o"`
}
type Val struct {
	N string `json:"n"`
	V string `json:"v"`
}

// File is the abstraction of a generated file.
type File struct {
	Package string
	Imports []string
	Decls   []Decl
}

func junk(s string) Decl {
	if len(s) > 200 {
		s = s[:200]
	}
	return Decl{Form: "junk", Doc: strconv.QuoteToASCII(s), F: []Field{}, Vals: []Val{}}
}

// docOf takes the documentation from the lines of a comment.
func docOf(id string, lines []string) string {
	if len(lines) == 0 {
		return ""
	}
	var b strings.Builder
	for i, l := range lines {
		l = strings.TrimPrefix(l, "//")
		if i == 0 {
			t := strings.TrimSpace(l)
			if t == id+" ..." {
				continue
			}
			if t == id+" is" {
				continue
			}
			if !strings.HasPrefix(t, id+" is ") {
				b.WriteString("[not about " + id + "]")
			} else {
				l = strings.TrimPrefix(t, id+" is ")
			}
		}
		b.WriteString(l)
	}
	return squeeze(b.String())
}

// Observe parses the generated code of a language. Whatever is not of the
// expected form becomes a declaration of form "junk".
func Observe(lang, src string) File {
	var f File
	switch lang {
	case "Go":
		f = observeGo(src)
	default:
		p := &lexer{src: src, lang: lang}
		f = p.file()
	}
	if f.Decls == nil {
		f.Decls = []Decl{}
	}
	for i := range f.Decls {
		if f.Decls[i].F == nil {
			f.Decls[i].F = []Field{}
		}
		if f.Decls[i].Vals == nil {
			f.Decls[i].Vals = []Val{}
		}
	}
	return f
}

func goType(e ast.Expr) (string, int) {
	switch t := e.(type) {
	case *ast.ArrayType:
		if t.Len == nil {
			b, d := goType(t.Elt)
			return b, d + 1
		}
	case *ast.StarExpr:
		b, d := goType(t.X)
		if d == 0 {
			return "*" + b, 0
		}
		return "*" + strings.Repeat("[]", d) + b, 0
	case *ast.Ident:
		return t.Name, 0
	case *ast.SelectorExpr:
		b, _ := goType(t.X)
		return b + "." + t.Sel.Name, 0
	case *ast.InterfaceType:
		return "interface{}", 0
	}
	return fmt.Sprintf("?%T", e), 0
}

func observeGo(src string) (f File) {
	fs := token.NewFileSet()
	file, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
	if err != nil {
		f.Decls = append(f.Decls, junk(err.Error()))
		return
	}
	f.Package = file.Name.Name
	for _, i := range file.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		f.Imports = append(f.Imports, p)
	}
	for _, d := range file.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok {
			f.Decls = append(f.Decls, junk(fmt.Sprintf("%T", d)))
			continue
		}
		if g.Tok == token.IMPORT {
			continue
		}
		if g.Tok != token.TYPE || len(g.Specs) != 1 || g.Lparen.IsValid() {
			f.Decls = append(f.Decls, junk(g.Tok.String()))
			continue
		}
		s := g.Specs[0].(*ast.TypeSpec)
		decl := Decl{ID: s.Name.Name}
		var lines []string
		if g.Doc != nil {
			for _, c := range g.Doc.List {
				lines = append(lines, c.Text)
			}
		}
		decl.Doc = docOf(decl.ID, lines)
		st, ok := s.Type.(*ast.StructType)
		if !ok {
			decl.Form = "alias"
			b, dep := goType(s.Type)
			if s.Assign.IsValid() {
				b = "= " + b
			}
			decl.F = append(decl.F, Field{R: "member", B: b, D: dep})
			f.Decls = append(f.Decls, decl)
			continue
		}
		decl.Form = "struct"
		for _, fl := range st.Fields.List {
			var fd Field
			fd.B, fd.D = goType(fl.Type)
			switch len(fl.Names) {
			case 0:
				fd.R = "base"
			case 1:
				fd.N = fl.Names[0].Name
				fd.R = "member"
			default:
				fd.R = "many"
			}
			if fl.Tag != nil {
				t, _ := strconv.Unquote(fl.Tag.Value)
				m := regexp.MustCompile(`^xml:"([^"]*)"$`).FindStringSubmatch(t)
				if m == nil {
					fd.R = "tag " + t
				} else {
					m[1] = strings.Replace(m[1], "http://www.w3.org/XML/1998/namespace ", "xml:", 1)
					parts := strings.Split(m[1], ",")
					switch {
					case fd.R != "member":
						fd.R = "tagged " + fd.R
					case fd.N == "XMLName" && fd.B == "xml.Name" && len(parts) == 1:
						fd.R, fd.X = "name", parts[0]
					case m[1] == ",chardata":
						fd.R, fd.X = "value", m[1]
					case len(parts) == 1:
						fd.R, fd.X = "elem", parts[0]
					case len(parts) == 2 && parts[1] == "attr":
						fd.R, fd.X = "attr", parts[0]
					case len(parts) == 3 && parts[1] == "attr" && parts[2] == "omitempty":
						fd.R, fd.X, fd.O = "attr", parts[0], true
					default:
						fd.R = "tag " + t
					}
				}
			}
			decl.F = append(decl.F, fd)
		}
		f.Decls = append(f.Decls, decl)
	}
	// Comments may only stand before declarations.
	for i, c := range file.Comments {
		if i == 0 && strings.HasPrefix(c.Text(), "Code generated by xgen. DO NOT EDIT.") {
			continue
		}
		used := false
		for _, d := range file.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Doc == c {
				used = true
			}
		}
		if !used {
			f.Decls = append(f.Decls, junk("stray comment "+c.Text()))
		}
	}
	return
}

// ---- the other languages --------------------------------------------------

type tok struct {
	k    string // id, num, str, punct, comment, eof
	v    string
	line int
}

type lexer struct {
	src  string
	lang string
	toks []tok
	i    int
	bad  string
}

func isIdStart(r byte) bool {
	return r == '_' || r == '$' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= 0x80
}

// prepare does what compilers of the language do before they look for tokens.
func (p *lexer) prepare() {
	switch p.lang {
	case "C":
		p.src = regexp.MustCompile(`\\[ \t]*\r?\n`).ReplaceAllString(p.src, "")
	case "Java":
		var b strings.Builder
		for i := 0; i < len(p.src); i++ {
			c := p.src[i]
			if c != '\\' {
				b.WriteByte(c)
				continue
			}
			if i+1 < len(p.src) && p.src[i+1] == 'u' {
				j := i + 1
				for j < len(p.src) && p.src[j] == 'u' {
					j++
				}
				if j+4 <= len(p.src) {
					if n, err := strconv.ParseUint(p.src[j:j+4], 16, 32); err == nil {
						b.WriteRune(rune(n))
						i = j + 3
						continue
					}
				}
				p.bad = "illegal unicode escape"
			}
			b.WriteByte(c)
			if i+1 < len(p.src) {
				i++
				b.WriteByte(p.src[i])
			}
		}
		p.src = b.String()
	}
}

func (p *lexer) lex() {
	p.prepare()
	s := p.src
	line := 1
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(s[i:], "//"):
			j := i
			for j < len(s) && s[j] != '\n' && !(s[j] == '\r' && p.lang != "C" && p.lang != "Rust") {
				if p.lang == "C" && s[j] == '\\' { // a line that continues on the next one
					k := j + 1
					for k < len(s) && (s[k] == ' ' || s[k] == '\t' || s[k] == '\r') {
						k++
					}
					if k < len(s) && s[k] == '\n' {
						j = k
					}
				}
				if p.lang == "Java" && regexp.MustCompile(`^\\u+000[aAdD]`).MatchString(s[j:]) {
					break
				}
				if p.lang == "TypeScript" && (strings.HasPrefix(s[j:], "\u2028") || strings.HasPrefix(s[j:], "\u2029")) {
					break
				}
				j++
			}
			p.toks = append(p.toks, tok{"comment", strings.TrimSuffix(s[i:j], "\r"), line})
			i = j
		case isIdStart(c):
			j := i
			for j < len(s) && (isIdStart(s[j]) || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			p.toks = append(p.toks, tok{"id", s[i:j], line})
			i = j
		case c >= '0' && c <= '9' || (c == '-' || c == '+' || c == '.') && i+1 < len(s) && (s[i+1] >= '0' && s[i+1] <= '9' || s[i+1] == '.'):
			j := i + 1
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == '.' || s[j] == 'e' || s[j] == 'E' ||
				(s[j] == '-' || s[j] == '+') && (s[j-1] == 'e' || s[j-1] == 'E')) {
				j++
			}
			p.toks = append(p.toks, tok{"num", s[i:j], line})
			i = j
		case c == '"' || c == '\'':
			j := i + 1
			var b strings.Builder
			closed := false
			for j < len(s) && s[j] != '\n' {
				if s[j] == c {
					closed = true
					break
				}
				if s[j] == '\\' && j+1 < len(s) {
					j++
					switch s[j] {
					case 'n':
						b.WriteByte('\n')
					case 'r':
						b.WriteByte('\r')
					case 't':
						b.WriteByte('\t')
					default:
						b.WriteByte(s[j])
					}
				} else {
					b.WriteByte(s[j])
				}
				j++
			}
			if !closed {
				p.bad = "unclosed string"
			}
			p.toks = append(p.toks, tok{"str", b.String(), line})
			i = j + 1
		default:
			p.toks = append(p.toks, tok{"punct", string(c), line})
			i++
		}
	}
	p.toks = append(p.toks, tok{"eof", "", line})
}

type syntaxError string

func (p *lexer) fail(want string) {
	var near []string
	for j := p.i; j < len(p.toks) && j < p.i+8; j++ {
		near = append(near, p.toks[j].v)
	}
	panic(syntaxError("expected " + want + " at: " + strings.Join(near, " ")))
}
func (p *lexer) peek() tok { return p.toks[p.i] }
func (p *lexer) is(v string) bool {
	return (p.peek().k == "id" || p.peek().k == "punct") && p.peek().v == v
}
func (p *lexer) take() tok { t := p.toks[p.i]; p.i++; return t }
func (p *lexer) want(vs ...string) {
	for _, v := range vs {
		if !p.is(v) {
			p.fail("'" + v + "'")
		}
		p.i++
	}
}
func (p *lexer) opt(v string) bool {
	if p.is(v) {
		p.i++
		return true
	}
	return false
}
func (p *lexer) id() string {
	if p.peek().k != "id" {
		p.fail("an identifier")
	}
	return p.take().v
}
func (p *lexer) str() string {
	if p.peek().k != "str" {
		p.fail("a string")
	}
	return p.take().v
}
func (p *lexer) comments() (lines []string) {
	for p.peek().k == "comment" {
		lines = append(lines, p.take().v)
	}
	return
}

func (p *lexer) file() (f File) {
	p.lex()
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(syntaxError)
			if !ok {
				panic(r)
			}
			f.Decls = append(f.Decls, junk(string(e)))
		}
		if p.bad != "" {
			f.Decls = append(f.Decls, junk(p.bad))
		}
	}()
	if p.peek().k != "comment" || p.peek().v != "// Code generated by xgen. DO NOT EDIT." {
		p.fail("the header")
	}
	p.i++
	switch p.lang {
	case "Java":
		p.want("package")
		f.Package = p.dotted()
		p.want(";")
		for p.opt("import") {
			f.Imports = append(f.Imports, p.dotted())
			p.want(";")
		}
	case "Rust":
		p.want("#", "[", "macro_use", "]", "extern", "crate", "serde_derive", ";", "extern", "crate", "serde", ";",
			"extern", "crate", "serde_xml_rs", ";", "use", "serde_xml_rs", ":", ":", "from_reader", ";")
	}
	for {
		lines := p.comments()
		if p.peek().k == "eof" {
			if len(lines) > 0 {
				f.Decls = append(f.Decls, junk("stray comment "+lines[0]))
			}
			return
		}
		var d Decl
		switch p.lang {
		case "TypeScript":
			d = p.ts()
		case "C":
			d = p.c()
		case "Java":
			d = p.java()
		case "Rust":
			d = p.rust()
		}
		d.Doc = docOf(d.ID, lines)
		f.Decls = append(f.Decls, d)
	}
}

func (p *lexer) dotted() string {
	s := p.id()
	for p.opt(".") {
		if p.opt("*") {
			return s + ".*"
		}
		s += "." + p.id()
	}
	return s
}

// generic parses NAME or COLL<...>.
func (p *lexer) generic(coll string) (string, int) {
	b := p.id()
	if b == coll && p.opt("<") {
		i, d := p.generic(coll)
		p.want(">")
		return i, d + 1
	}
	return b, 0
}

func (p *lexer) ts() (d Decl) {
	p.want("export")
	switch p.id() {
	case "type":
		d.Form = "alias"
		d.ID = p.id()
		p.want("=")
		b, dep := p.generic("Array")
		p.want(";")
		d.F = []Field{{R: "member", B: b, D: dep}}
	case "class":
		d.Form = "struct"
		d.ID = p.id()
		if p.opt("extends") {
			d.Ext = p.id()
		}
		p.want("{")
		for !p.opt("}") {
			var f Field
			f.R = "member"
			f.N = p.id()
			p.want(":")
			f.B, f.D = p.generic("Array")
			if p.opt("|") {
				p.want("null")
				f.O = true
			}
			p.want(";")
			d.F = append(d.F, f)
		}
	case "enum":
		d.Form = "enum"
		d.ID = p.id()
		p.want("{")
		for !p.opt("}") {
			var v Val
			switch p.peek().k {
			case "id", "str":
				v.N = p.take().v
			default:
				p.fail("a name")
			}
			p.want("=")
			switch p.peek().k {
			case "str", "num":
				v.V = p.take().v
			default:
				if p.is("+") || p.is("-") {
					v.V = p.take().v
				}
				if !p.is("Infinity") && !p.is("NaN") {
					p.fail("a value")
				}
				v.V += p.take().v
			}
			p.want(",")
			d.Vals = append(d.Vals, v)
		}
	default:
		p.fail("type, class or enum")
	}
	return
}

// cDeclarator parses TYPE NAME [] ;
func (p *lexer) cDeclarator() (f Field) {
	var ids []string
	for p.peek().k == "id" {
		ids = append(ids, p.take().v)
	}
	if len(ids) < 2 {
		p.fail("a type and a name")
	}
	f.R = "member"
	f.N = ids[len(ids)-1]
	f.B = strings.Join(ids[:len(ids)-1], " ")
	if p.opt("[") {
		p.want("]")
		f.D = 1
	}
	if !p.is(";") {
		p.fail("';'")
	}
	line := p.take().line
	if p.peek().k == "comment" && p.peek().line == line {
		switch c := p.take().v; c {
		case "// attr":
			f.R = "attr"
		case "// attr, optional":
			f.R, f.O = "attr", true
		default:
			f.R = c
		}
	}
	return
}

func (p *lexer) c() (d Decl) {
	p.want("typedef")
	if p.opt("struct") {
		d.Form = "struct"
		p.want("{")
		for !p.opt("}") {
			d.F = append(d.F, p.cDeclarator())
		}
		d.ID = p.id()
		p.want(";")
		return
	}
	d.Form = "alias"
	f := p.cDeclarator()
	d.ID, f.N = f.N, ""
	d.F = []Field{f}
	return
}

type annotation struct {
	name string
	args map[string]string
}

func (p *lexer) annotations() (as []annotation) {
	for p.opt("@") {
		a := annotation{p.id(), map[string]string{}}
		if p.opt("(") {
			for !p.opt(")") {
				k := p.dotted()
				v := ""
				if p.opt("=") {
					if p.peek().k == "str" {
						v = p.str()
					} else {
						v = p.id()
					}
				}
				a.args[k] = v
				if !p.is(")") {
					p.want(",")
				}
			}
		}
		as = append(as, a)
	}
	return
}

func (p *lexer) java() (d Decl) {
	as := p.annotations()
	d.Form = "struct"
	for _, a := range as {
		switch a.name {
		case "XmlAttribute", "XmlElement":
			d.Form = "alias"
			d.XML = a.args["name"]
		}
	}
	p.want("public", "class")
	d.ID = p.id()
	if p.opt("extends") {
		d.Ext = p.id()
	}
	p.want("{")
	for !p.opt("}") {
		var f Field
		f.R = "member"
		for _, a := range p.annotations() {
			name, named := a.args["name"]
			switch {
			case a.name == "XmlAttribute" && named:
				f.R, f.X, f.O = "attr", name, a.args["required"] != "true"
			case a.name == "XmlElement" && named:
				f.R, f.X = "elem", name
			case a.name == "XmlElement":
			case a.name == "XmlValue":
				f.R = "value"
			default:
				f.R = "@" + a.name
			}
		}
		p.want("protected")
		f.B, f.D = p.generic("List")
		f.N = p.id()
		p.want(";")
		d.F = append(d.F, f)
	}
	return
}

func (p *lexer) rust() (d Decl) {
	d.Form = "struct"
	p.want("#", "[", "derive", "(")
	for !p.opt(")") {
		p.id()
		p.opt(",")
	}
	p.want("]", "pub", "struct")
	d.ID = p.id()
	p.want("{")
	for !p.opt("}") {
		var f Field
		p.want("#", "[", "serde", "(")
		switch p.id() {
		case "rename":
			p.want("=")
			f.R, f.X = "member", p.str()
		case "flatten":
			f.R = "base"
		default:
			p.fail("rename or flatten")
		}
		p.want(")", "]", "pub")
		f.N = p.id()
		p.want(":")
		if p.is("Option") {
			p.i++
			p.want("<")
			f.O = true
		}
		f.B, f.D = p.generic("Vec")
		if f.O {
			p.want(">")
		}
		p.want(",")
		d.F = append(d.F, f)
	}
	return
}

// stripComments removes comments and white space: what remains is code.
func stripComments(lang, src string) string {
	if lang == "Go" {
		fs := token.NewFileSet()
		if _, err := parser.ParseFile(fs, "x.go", src, 0); err != nil {
			return "unparsable: " + src
		}
		var b strings.Builder
		for _, l := range strings.Split(src, "\n") {
			if !strings.HasPrefix(strings.TrimSpace(l), "//") {
				b.WriteString(squeeze(l) + "\n")
			}
		}
		return regexp.MustCompile("\n+").ReplaceAllString(b.String(), "\n")
	}
	p := &lexer{src: src, lang: lang}
	p.lex()
	var b strings.Builder
	for _, t := range p.toks {
		if t.k != "comment" {
			b.WriteString(t.k + " " + strconv.Quote(t.v) + "\n")
		} else if lang == "C" && (t.v == "// attr" || t.v == "// attr, optional") {
			b.WriteString(t.v + "\n")
		}
	}
	return b.String()
}
