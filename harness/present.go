package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// A project is a set of documents, the first of which is generated; see
// spec/XPresent.tla.
type pfile struct {
	Name string `json:"name"`
	Doc  *rawNode
}

type project struct {
	Files []pfile `json:"files"`
}

// rawNode is a node whose text is kept as it is.
type rawNode struct{ *Node }

func (n *rawNode) MarshalJSON() ([]byte, error) {
	k := []*rawNode{}
	for _, c := range n.K {
		k = append(k, &rawNode{c})
	}
	return json.Marshal(struct {
		T string                 `json:"t"`
		A map[string]interface{} `json:"a"`
		K []*rawNode             `json:"k"`
		X string                 `json:"x"`
	}{n.T, n.A, k, n.X})
}

func (p pfile) MarshalJSON() ([]byte, error) {
	return json.Marshal(map[string]interface{}{"name": p.Name, "doc": p.Doc})
}

type qname struct{ P, N string }
type ptok struct {
	K, P, N, V string
	A          []struct {
		P, N, V string
		Q       []qname
	}
}

// tokens of TLC: an empty sequence may be written as an empty object.
type presentation struct {
	P int
	S map[string]string
	C int
	F []struct {
		Name string
		Toks []ptok
	}
}

type penc struct {
	b       bytes.Buffer
	style   map[string]string
	charset string // "", latin1, ascii, cp1252
}

func (e *penc) representable(r rune) bool {
	switch e.charset {
	case "latin1":
		return r < 0x100 && !(r >= 0x80 && r < 0xa0) // Latin-1 is read as windows-1252
	case "cp1252":
		return r < 0x80 || r >= 0xa0 && r < 0x100 || r == '\u20ac'
	case "ascii":
		return r < 0x80
	}
	return true
}

func (e *penc) raw(s string) {
	for _, r := range s {
		switch {
		case e.charset == "" || r < 0x80:
			e.b.WriteRune(r)
		case r == '\u20ac':
			e.b.WriteByte(0x80)
		default:
			e.b.WriteByte(byte(r))
		}
	}
}

func (e *penc) ref(r rune, form string) {
	if form == "hex" {
		e.raw(fmt.Sprintf("&#x%X;", r))
	} else {
		e.raw(fmt.Sprintf("&#%d;", r))
	}
}

// chars writes characters, as references where they have to be, or as asked.
func (e *penc) chars(s, form, quote string) {
	rs := []rune(s)
	for i, r := range rs {
		switch {
		case !e.representable(r) || r == '\r' || quote != "" && (r == '\n' || r == '\t'):
			e.ref(r, form)
		case (form == "dec" || form == "hex") && (i%3 == 0 || i == len(rs)-1):
			e.ref(r, form)
		case r == '<':
			e.raw("&lt;")
		case r == '>':
			e.raw("&gt;")
		case r == '&':
			e.raw("&amp;")
		case r == '"' && quote == "\"":
			e.raw("&quot;")
		case r == '\'' && quote == "'":
			e.raw("&apos;")
		default:
			e.raw(string(r))
		}
	}
}

func (e *penc) cdata(s string) {
	open := false
	for i, r := range s {
		if r == '\r' || !e.representable(r) {
			if open {
				e.raw("]]>")
				open = false
			}
			e.ref(r, "dec")
			continue
		}
		if r == '>' && strings.HasSuffix(s[:i], "]]") && open {
			e.raw("]]>")
			open = false
		}
		if !open {
			e.raw("<![CDATA[")
			open = true
		}
		e.raw(string(r))
	}
	if open {
		e.raw("]]>")
	}
}

func (q qname) String() string {
	if q.P == "" {
		return q.N
	}
	return q.P + ":" + q.N
}

func halves(s string) (string, string) {
	rs := []rune(s)
	return string(rs[:len(rs)/2]), string(rs[len(rs)/2:])
}

// render writes tokens down, byte by byte.
func render(style map[string]string, toks []ptok) []byte {
	e := &penc{style: style}
	switch style["encoding"] {
	case "iso-8859-1", "ISO-8859-1":
		e.charset = "latin1"
	case "windows-1252":
		e.charset = "cp1252"
	case "us-ascii":
		e.charset = "ascii"
	}
	depth := 0
	tag := func(t ptok) {
		e.raw("<" + qname{t.P, t.N}.String())
		for i, a := range t.A {
			v, list := a.V, ""
			if len(a.Q) > 0 || a.N == "memberTypes" {
				var qs []string
				for _, q := range a.Q {
					qs = append(qs, q.String())
				}
				v = strings.Join(qs, " ")
				if a.N == "memberTypes" {
					switch style["lists"] {
					case "double":
						v = strings.Join(qs, "  ")
					case "newline", "tab":
						list = strings.Join(qs, map[string]string{"newline": "\n    ", "tab": "\t"}[style["lists"]])
					case "padded":
						v = " " + v + "  "
					}
				}
			}
			q := "\""
			if style["quote"] == "single" || style["quote"] == "mixed" && i%2 == 0 {
				q = "'"
			}
			eq := "="
			switch style["intag"] {
			case "newline":
				e.raw("\n      ")
			case "tabs":
				e.raw("\t\t")
			case "equals":
				e.raw(" ")
				eq = " \n= "
			default:
				e.raw(" ")
			}
			pad := map[string]string{"spaces": "  ", "newlines": "\n     ", "tabs": "\t\t"}[style["pads"]]
			if a.P != "" || a.N == "xmlns" || a.N == "value" || a.N == "default" || a.N == "fixed" {
				pad = ""
			}
			e.raw(qname{a.P, a.N}.String() + eq + q + pad)
			if list != "" {
				e.raw(list)
			} else {
				e.chars(v, style["value"], q)
			}
			e.raw(pad + q)
		}
		if style["intag"] == "end" {
			e.raw(" \n")
		}
	}
	for _, t := range toks {
		switch t.K {
		case "bom":
			e.b.WriteString("\xef\xbb\xbf")
		case "declaration":
			switch t.V {
			case "bom-utf-8":
				e.raw("<?xml version=\"1.0\" encoding=\"utf-8\"?>")
			case "standalone":
				e.raw("<?xml version='1.0' encoding='UTF-8' standalone='yes'?>")
			default:
				e.raw("<?xml version=\"1.0\" encoding=\"" + t.V + "\"?>")
			}
		case "doctype":
			e.raw("<!DOCTYPE schema>\n")
		case "pi":
			e.raw("<?" + t.V + "?>")
		case "comment":
			e.raw("<!--" + t.V + "-->")
		case "white":
			switch t.V {
			case "crlf":
				e.raw("\r\n" + strings.Repeat("  ", depth))
			case "tabs":
				e.raw("\n" + strings.Repeat("\t", depth))
			case "wide":
				e.raw(" \n\n\n    \t \r ")
			default:
				e.raw("\n" + strings.Repeat("  ", depth))
			}
		case "text":
			if style["text"] == "cdata" {
				e.cdata(t.V)
			} else {
				e.chars(t.V, style["text"], "")
			}
		case "half1":
			a, _ := halves(t.V)
			e.chars(a, "", "")
		case "half2":
			_, b := halves(t.V)
			e.chars(b, "", "")
		case "cdatahalf2":
			_, b := halves(t.V)
			e.cdata(b)
		case "start":
			tag(t)
			e.raw(">")
			depth++
		case "empty":
			tag(t)
			if t.V == "space" {
				e.raw(" ")
			}
			e.raw("/>")
		case "end":
			depth--
			e.raw("</" + qname{t.P, t.N}.String())
			if style["intag"] == "end" {
				e.raw(" \t")
			}
			e.raw(">")
		default:
			panic("token " + t.K)
		}
	}
	return e.b.Bytes()
}

func digest(res Result) string {
	var names []string
	for n := range res.Out {
		names = append(names, n)
	}
	sort.Strings(names)
	h := sha256.New()
	for _, n := range names {
		fmt.Fprintf(h, "%s\n%d\n%s", n, len(res.Out[n]), res.Out[n])
	}
	return fmt.Sprintf("%d files %x", len(names), h.Sum(nil)[:10])
}

// richDoc has everything that may be written in different ways.
func richDoc() *Node {
	return N("schema", "elementFormDefault", "qualified",
		documented("About the schema: caf\u00e9 & <b>, \u4e2d\u6587", N("complexType", "name", "Order",
			N("sequence",
				N("element", "name", "Item", "type", "Line", "maxOccurs", "unbounded"),
				N("choice", "maxOccurs", "2", N("element", "name", "A", "type", "int"), N("element", "name", "B", "type", "Kind")),
				N("group", "ref", "Extra"), N("any")),
			N("attribute", "name", "id", "type", "ID", "use", "required"), N("attribute", "ref", "xml:lang"),
			N("attributeGroup", "ref", "Common"))),
		N("complexType", "name", "Line", N("simpleContent", N("extension", "base", "Money",
			documented("of the line", N("attribute", "name", "unit", "type", "Kind", "use", "optional"))))),
		N("simpleType", "name", "Money", N("restriction", "base", "decimal", N("fractionDigits", "value", "2"))),
		documented("  Kinds,\n  with \"quotes\" and 'apostrophes';\r\n]]> is no end ", N("simpleType", "name", "Kind", N("restriction", "base", "token",
			N("enumeration", "value", "a<b>&\"c\"'d'"), documented("e\u0301\u20ac", N("enumeration", "value", "\u00e9t\u00e9")), N("enumeration", "value", "  x\ty\n")))),
		N("simpleType", "name", "Kinds", N("list", "itemType", "Kind")),
		N("simpleType", "name", "Any", N("union", "memberTypes", []string{"Kind", "int", "Kinds", "Money"})),
		N("group", "name", "Extra", N("sequence", N("element", "name", "C", N("complexType", N("attribute", "name", "x", N("simpleType", N("restriction", "base", "string"))))))),
		documented("all have", N("attributeGroup", "name", "Common", N("attribute", "name", "y", "type", "date"), N("anyAttribute"))),
		N("element", "name", "order", "type", "Order"),
		N("element", "name", "empty", N("complexType")),
		N("attribute", "name", "z", "type", "NMTOKENS"),
		N("notation", "name", "n", "public", "p"))
}

func importingProject() project {
	main := N("schema", "foreign", "urn:foreign",
		N("import", "namespace", "urn:foreign", "schemaLocation", "other.xsd"),
		N("include", "schemaLocation", "part.xsd"),
		N("complexType", "name", "Main",
			N("sequence", N("element", "name", "a", "type", "f:Code"), N("element", "name", "b", "type", "f:Deep"),
				N("element", "name", "c", "type", "Part"), N("element", "name", "d", "type", "PartCode")),
			N("attribute", "name", "e", "type", "f:Code")),
		N("element", "name", "root", "type", "Main"))
	other := N("schema", "tns", "urn:foreign",
		N("include", "schemaLocation", "deep.xsd"),
		N("simpleType", "name", "Code", N("restriction", "base", "int")),
		N("complexType", "name", "Deep", N("sequence", N("element", "name", "x", "type", "DeepCode"))))
	deep := N("schema", "tns", "urn:foreign", N("simpleType", "name", "DeepCode", N("restriction", "base", "double")))
	part := N("schema",
		N("complexType", "name", "Part", N("attribute", "name", "p", "type", "PartCode")),
		N("simpleType", "name", "PartCode", N("restriction", "base", "boolean")))
	return project{Files: []pfile{{"main.xsd", &rawNode{main}}, {"other.xsd", &rawNode{other}}, {"deep.xsd", &rawNode{deep}}, {"part.xsd", &rawNode{part}}}}
}

func checkC12(c *Check) {
	projects := []project{{Files: []pfile{{"s.xsd", &rawNode{richDoc()}}}}, importingProject()}
	p := baseProfile()
	p.Comps, p.Docs, p.OddDocs, p.Members = [2]int{3, 6}, 30, true, 3
	random := func(n int) (ps []project) {
		for _, n := range RandomDocs(c.Seed, p, n) {
			ps = append(ps, project{Files: []pfile{{"s.xsd", &rawNode{n}}}})
		}
		return
	}
	if !c.Thorough() {
		c.presentations(append(projects, random(4)...), 2)
		return
	}
	c.presentations(append(projects, random(40)...), 2)
	c.Seed += 1000
	c.presentations(append(projects, random(1)...), 3)
	c.Seed -= 1000
}

// presentations writes the projects in all styles that differ from the plain
// one in up to depth dimensions.
func (c *Check) presentations(projects []project, depth int) {
	path := filepath.Join(c.S.Dir, "projects.ndjson")
	f, err := os.Create(path)
	check(err)
	enc := json.NewEncoder(f)
	enc.SetEscapeHTML(false)
	for _, p := range projects {
		check(enc.Encode(p))
	}
	check(f.Close())
	t := &TLC{Module: "XPresent", Env: map[string]string{"XV_PROJECTS": path, "XV_DEPTH": strconv.Itoa(depth)},
		Config: "SPECIFICATION Spec\nINVARIANTS ReadBack Printed\nCHECK_DEADLOCK FALSE\n"}
	t.Each = func(l string) bool { return false }
	var jobs []Job
	var shown []presentation
	var sources []map[string][]byte
	perDepth := map[int]int{}
	take := func(l string) {
		var p presentation
		l = regexp.MustCompile(`"(a|q|toks)":\{\}`).ReplaceAllString(l, `"$1":[]`)
		check(json.Unmarshal([]byte(l), &p))
		j := Job{ID: len(jobs), Raw: map[string][]byte{}}
		for _, f := range p.F {
			j.Raw[f.Name] = render(p.S, f.Toks)
		}
		for _, l := range langs {
			j.Runs = append(j.Runs, Run{Lang: l, File: p.F[0].Name})
		}
		jobs = append(jobs, j)
		for i := range p.F {
			p.F[i].Toks = nil
		}
		perDepth[p.C]++
		shown = append(shown, p)
		sources = append(sources, j.Raw)
	}
	t.Each = func(l string) bool {
		if strings.HasPrefix(l, "XV-PRES ") {
			take(strings.TrimPrefix(l, "XV-PRES "))
			return true
		}
		return false
	}
	c.TLC(t)
	if t.Violated != "" {
		panic("the model is wrong: " + t.Violated + t.LastState())
	}
	// The plain style comes first.
	order := make([]int, len(jobs))
	for i := range order {
		order[i] = i
	}
	sort.SliceStable(order, func(a, b int) bool { return shown[order[a]].C < shown[order[b]].C })
	results := c.S.RunJobs(jobs)
	type rec struct {
		ID  int               `json:"id"`
		P   int               `json:"p"`
		S   map[string]string `json:"s"`
		Out map[string]string `json:"out"`
		Err map[string]string `json:"err"`
	}
	recPath := filepath.Join(c.S.Dir, "recs.ndjson")
	rf, err := os.Create(recPath)
	check(err)
	renc := json.NewEncoder(rf)
	for _, i := range order {
		r := rec{i, shown[i].P, shown[i].S, map[string]string{}, map[string]string{}}
		for k, l := range langs {
			res := results[i][k]
			r.Out[l], r.Err[l] = digest(res)+" "+strconv.QuoteToASCII(res.Err), strconv.QuoteToASCII(res.Err)
			if res.Err == "" {
				r.Err[l] = ""
			}
			c.Traces++
		}
		check(renc.Encode(r))
	}
	check(rf.Close())
	c.Coverage[fmt.Sprintf("projects_to_depth_%d", depth)] = len(projects)
	c.Coverage[fmt.Sprintf("presentations_to_depth_%d", depth)] = perDepth
	for _, i := range []int{order[0], order[len(order)/2], order[len(order)-1]} {
		for n, b := range sources[i] {
			if len(b) > 900 {
				b = b[:900]
			}
			c.sample(map[string]interface{}{"style": changes(shown[i].S, shown[order[0]].S), "file": n, "text": string(b)})
			break
		}
	}
	v := &TLC{Module: "XPresentTrace", Env: map[string]string{"XV_RECS": recPath}, Workers: 1,
		Config: "SPECIFICATION Spec\nINVARIANT OnlyInfoset\nCHECK_DEADLOCK FALSE\n"}
	c.TLC(v)
	if v.Violated == "" {
		return
	}
	m := regexp.MustCompile(`rec = (\d+)`).FindStringSubmatch(v.LastState())
	n, _ := strconv.Atoi(m[1])
	i := order[n-1]
	base := -1
	for _, k := range order {
		if shown[k].P == shown[i].P {
			base = k
			break
		}
	}
	replay := map[string]string{"tlc.txt": v.LastState(), "style.txt": changes(shown[i].S, shown[base].S)}
	for n, b := range sources[i] {
		replay["schema/"+n] = string(b)
	}
	for n, b := range sources[base] {
		replay["schema-plain/"+n] = string(b)
	}
	for k, l := range langs {
		for n, s := range results[i][k].Out {
			replay["observed/"+n] = s
		}
		for n, s := range results[base][k].Out {
			replay["observed-plain/"+n] = s
		}
		replay["observed/error-"+l+".txt"] = results[i][k].Err
	}
	c.Violation("written with "+changes(shown[i].S, shown[base].S)+" the schema gives other output: "+v.LastState(), replay)
}

func changes(s, plain map[string]string) string {
	var cs []string
	for k, v := range s {
		if plain[k] != v {
			cs = append(cs, k+"="+v)
		}
	}
	sort.Strings(cs)
	if cs == nil {
		return "the plain style"
	}
	return strings.Join(cs, ", ")
}

func init() { checks["C12"] = checkC12 }
