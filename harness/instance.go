package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Inst is an instance document, see spec/XInstance.tla.
type Inst struct {
	N string            `json:"n"`
	A map[string]string `json:"a"`
	K []*Inst           `json:"k"`
	X string            `json:"x"`
}

func (t *Inst) UnmarshalJSON(b []byte) error {
	var j struct {
		N string
		A json.RawMessage
		K []*Inst
		X string
	}
	if err := json.Unmarshal(b, &j); err != nil {
		return err
	}
	t.N, t.K, t.X, t.A = j.N, j.K, j.X, map[string]string{}
	if len(j.A) > 0 && j.A[0] == '{' {
		return json.Unmarshal(j.A, &t.A)
	}
	return nil
}

func escaped(s string) string {
	var b bytes.Buffer
	check(xml.EscapeText(&b, []byte(s)))
	return b.String()
}

// XML writes the instance, now and then with another presentation.
func (t *Inst) XML(r *rand.Rand, root bool) string {
	var names []string
	for n := range t.A {
		names = append(names, n)
	}
	sort.Strings(names)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	s := "<" + t.N
	if root && r.Intn(2) == 0 {
		s += ` xmlns="urn:example"`
	}
	for _, n := range names {
		s += fmt.Sprintf(" %s=\"%s\"", n, escaped(t.A[n]))
	}
	if len(t.K) == 0 && t.X == "" && r.Intn(2) == 0 {
		return s + "/>"
	}
	s += ">" + escaped(t.X)
	for _, k := range t.K {
		if r.Intn(4) == 0 && t.X == "" {
			s += "\n  "
		}
		if r.Intn(8) == 0 && t.X == "" {
			s += "<!-- <a>b</a> -->"
		}
		s += k.XML(r, false)
	}
	return s + "</" + t.N + ">"
}

// parseInst reads a document back.
func parseInst(s string) (*Inst, error) {
	d := xml.NewDecoder(strings.NewReader(s))
	var stack []*Inst
	var root *Inst
	for {
		t, err := d.Token()
		if err == io.EOF {
			if root == nil {
				return nil, fmt.Errorf("no element")
			}
			return root, nil
		}
		if err != nil {
			return nil, err
		}
		name := func(n xml.Name) string {
			switch n.Space {
			case "":
				return n.Local
			case "http://www.w3.org/XML/1998/namespace", "xml":
				return "xml:" + n.Local
			}
			return "{" + n.Space + "}" + n.Local
		}
		switch v := t.(type) {
		case xml.StartElement:
			n := &Inst{N: name(v.Name), A: map[string]string{}, K: []*Inst{}}
			for _, a := range v.Attr {
				n.A[name(a.Name)] = a.Value
			}
			if len(stack) > 0 {
				top := stack[len(stack)-1]
				top.K = append(top.K, n)
			} else {
				root = n
			}
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) > 0 {
				stack[len(stack)-1].X += string(v)
			}
		}
	}
}

const instanceMain = `package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"os"
	"reflect"
)

type in struct {
	Doc           string
	Id, Root, XML string
}
type out struct{ Err, XML string }

func run(i in) (o out) {
	defer func() {
		if r := recover(); r != nil {
			o = out{Err: fmt.Sprint("panic: ", r)}
		}
	}()
	v := roots[i.Doc][i.Id]()
	if err := xml.Unmarshal([]byte(i.XML), v); err != nil {
		return out{Err: "decoding: " + err.Error()}
	}
	var b bytes.Buffer
	e := xml.NewEncoder(&b)
	var err error
	if reflect.TypeOf(v).Elem().Kind() == reflect.Struct {
		err = e.Encode(v)
	} else {
		err = e.EncodeElement(v, xml.StartElement{Name: xml.Name{Local: i.Root}})
	}
	if err == nil {
		err = e.Flush()
	}
	if err != nil {
		return out{Err: "encoding: " + err.Error()}
	}
	return out{XML: b.String()}
}

func main() {
	d := json.NewDecoder(bufio.NewReader(os.Stdin))
	w := bufio.NewWriter(os.Stdout)
	e := json.NewEncoder(w)
	for d.More() {
		var i in
		if err := d.Decode(&i); err != nil {
			panic(err)
		}
		if err := e.Encode(run(i)); err != nil {
			panic(err)
		}
	}
	w.Flush()
}
`

type instRec struct {
	Doc   int    `json:"doc"`
	ID    string `json:"id"`
	Known string `json:"known"`
	Want  *Inst  `json:"want"`
	Got   *Inst  `json:"got"`
	Err   string `json:"err"`
	xml   string
	out   string
}

// throughGo takes the instances through the generated code of their documents.
func (c *Check) throughGo(code map[int]string, recs []*instRec) {
	dir := filepath.Join(c.S.Dir, "instances")
	defer os.RemoveAll(dir)
	files := map[string]string{"go.mod": "module instances\n\ngo 1.20\n", "main.go": instanceMain}
	ids := map[int]map[string]bool{}
	broken := map[int]string{}
	for _, r := range recs {
		if ids[r.Doc] == nil {
			ids[r.Doc] = map[string]bool{}
			if g := checkGo(code[r.Doc]); g.Errs != "" {
				broken[r.Doc] = "doesn't compile: " + g.Errs
			}
		}
		// The types are looked up in the code: a missing one is a violation.
		if !ids[r.Doc][r.ID] && broken[r.Doc] == "" && !regexp.MustCompile(`(?m)^type `+r.ID+` `).MatchString(code[r.Doc]) {
			broken[r.Doc] = "no type " + r.ID
		}
		ids[r.Doc][r.ID] = true
	}
	var all, imports strings.Builder
	var order []int
	for d := range ids {
		order = append(order, d)
	}
	sort.Ints(order)
	for _, d := range order {
		if broken[d] != "" {
			continue
		}
		p := fmt.Sprintf("d%d", d)
		files[p+"/s.go"] = code[d]
		var names []string
		for id := range ids[d] {
			names = append(names, id)
		}
		sort.Strings(names)
		s := "package " + p + "\n\nvar XVRoots = map[string]func() interface{}{\n"
		for _, id := range names {
			s += fmt.Sprintf("\t%q: func() interface{} { return new(%s) },\n", id, id)
		}
		files[p+"/r.go"] = s + "}\n"
		fmt.Fprintf(&imports, "\t\"instances/%s\"\n", p)
		fmt.Fprintf(&all, "\t%q: %s.XVRoots,\n", p, p)
	}
	files["roots.go"] = "package main\n\nimport (\n" + imports.String() + ")\n\nvar roots = map[string]map[string]func() interface{}{\n" + all.String() + "}\n"
	check(writeTree(dir, files))
	build := exec.Command("go", "build", "-o", "instances", ".")
	build.Dir = dir
	build.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off")
	if out, err := build.CombinedOutput(); err != nil {
		panic(fmt.Sprintf("the program of the generated packages doesn't build: %v\n%.3000s", err, out))
	}
	var input bytes.Buffer
	enc := json.NewEncoder(&input)
	var sent []*instRec
	for _, r := range recs {
		if b := broken[r.Doc]; b != "" {
			r.Err = b
			continue
		}
		check(enc.Encode(map[string]string{"Doc": fmt.Sprintf("d%d", r.Doc), "Id": r.ID, "Root": r.Want.N, "XML": r.xml}))
		sent = append(sent, r)
	}
	run := exec.Command(filepath.Join(dir, "instances"))
	run.Stdin = &input
	timer := time.AfterFunc(5*time.Minute, func() { run.Process.Kill() })
	out, err := run.Output()
	timer.Stop()
	if err != nil {
		panic(fmt.Sprintf("the program of the generated packages failed: %v", err))
	}
	sc := bufio.NewScanner(bytes.NewReader(out))
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for _, r := range sent {
		if !sc.Scan() {
			panic("no answer for an instance")
		}
		var o struct{ Err, XML string }
		check(json.Unmarshal(sc.Bytes(), &o))
		r.Err, r.out = o.Err, o.XML
		if o.Err == "" {
			if r.Got, err = parseInst(o.XML); err != nil {
				r.Err = "what is written isn't XML: " + err.Error()
			}
		}
	}
}

func instanceProfile() Profile {
	p := baseProfile()
	p.Capital, p.Instance, p.Names, p.Foreign = true, true, "mixed", 8
	p.Comps = [2]int{4, 11}
	p.Kinds = map[string]int{"restriction": 3, "enum": 2, "list": 1, "complex": 8, "element": 5, "anonelement": 3, "inlineelement": 1, "attribute": 2, "noise": 1}
	p.Facets, p.Docs, p.Repeats, p.Anon = 0, 5, 0, 25
	p.Builtins = builtinsBut("QName", "time")
	return p
}

func builtinsBut(not ...string) []string {
	var l []string
next:
	for _, b := range builtinList {
		for _, n := range not {
			if b == n {
				continue next
			}
		}
		if !strings.HasPrefix(b, "xml:") {
			l = append(l, b)
		}
	}
	return l
}

func checkC20(c *Check) {
	docs := wrap(RandomDocs(c.Seed, instanceProfile(), c.N(250, 1500)), "random", c.Seed, defaultStyle)
	docs = append(docs, wrap(c.enumerated("C20"), "enumerated", c.Seed, defaultStyle)...)
	known := knownInstances()
	for _, k := range known {
		docs = append(docs, &Doc{Node: k.schema, Style: plainStyle, Origin: "curated"})
	}
	path := filepath.Join(c.S.Dir, "docs.ndjson")
	writeNDJSON(path, len(docs), func(i int) interface{} { return docs[i].Node })
	var recs []*instRec
	seen := map[string]bool{}
	t := &TLC{Module: "XInstance", Env: map[string]string{"XV_DOCS": path, "XV_N": strconv.Itoa(c.N(4, 12))},
		Config: "SPECIFICATION Spec\nINVARIANTS Valid RoundTrip\nCHECK_DEADLOCK FALSE\n"}
	t.Each = func(l string) bool {
		if !strings.HasPrefix(l, "XV-INST ") {
			return false
		}
		if !seen[l] {
			seen[l] = true
			var i struct {
				Doc int
				ID  string
				T   *Inst
			}
			check(json.Unmarshal([]byte(strings.TrimPrefix(l, "XV-INST ")), &i))
			recs = append(recs, &instRec{Doc: i.Doc, ID: i.ID, Want: i.T})
		}
		return true
	}
	c.TLC(t)
	if t.Violated != "" {
		panic("the model is wrong: " + t.Violated + t.Trace)
	}
	sort.SliceStable(recs, func(i, j int) bool {
		if recs[i].Doc != recs[j].Doc {
			return recs[i].Doc < recs[j].Doc
		}
		return recs[i].ID < recs[j].ID
	})
	for i, k := range known {
		want, err := parseInst(k.xml)
		check(err)
		recs = append(recs, &instRec{Doc: len(docs) - len(known) + i + 1, ID: k.root, Known: k.id, Want: want})
	}
	r := rand.New(rand.NewSource(c.Seed))
	var jobs []Job
	for i, d := range docs {
		d.xml = fixStyle(d.Style).XML(d.Node)
		jobs = append(jobs, Job{ID: i, Files: map[string]string{"s.xsd": d.xml}, Runs: []Run{{Lang: "Go", File: "s.xsd", Pkg: fmt.Sprintf("d%d", i+1)}}})
	}
	results := c.S.RunJobs(jobs)
	code := map[int]string{}
	for i := range docs {
		code[i+1] = results[i][0].Out["s.xsd.go"]
	}
	nodes := 0
	per := map[int]bool{}
	for _, rec := range recs {
		rec.xml = rec.Want.XML(r, true)
		rec.Got = rec.Want
		nodes += rec.Want.size()
		per[rec.Doc] = true
	}
	c.throughGo(code, recs)
	c.Traces += len(recs)
	c.Coverage["schemas"] = len(per)
	c.Coverage["instances"] = len(recs)
	c.Coverage["elements_of_instances"] = nodes
	for i := 0; i < 3 && i < len(recs); i++ {
		rec := recs[(2*i+1)*len(recs)/6]
		s := docs[rec.Doc-1].xml
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		c.sample(map[string]string{"schema": s, "instance": rec.xml, "written": rec.out})
	}
	c.judgeInstances(docs, code, recs)
}

type knownInstance struct {
	id, root, xml string
	schema        *Node
}

// knownInstances are the schemas and documents of the known findings.
func knownInstances() []knownInstance {
	el := func(kv ...interface{}) *Node { return N("element", kv...) }
	root := func(kv ...interface{}) *Node { return N("element", "name", "Root", N("complexType", kv...)) }
	one := func(typ string) *Node {
		return N("schema", root(N("sequence", el("name", "a", "type", typ))))
	}
	return []knownInstance{
		{"lower-case-type", "Root", "<Root><a><b>1</b></a></Root>", N("schema", root(N("sequence", el("name", "a", "type", "item"))),
			N("complexType", "name", "item", N("sequence", el("name", "b", "type", "int"))))},
		{"group-members", "Root", "<Root><b>1</b></Root>", N("schema", root(N("group", "ref", "Gr")),
			N("group", "name", "Gr", N("sequence", el("name", "b", "type", "int"))))},
		{"attribute-group-members", "Root", `<Root b="1"/>`, N("schema", root(N("attributeGroup", "ref", "Ag")),
			N("attributeGroup", "name", "Ag", N("attribute", "name", "b", "type", "int")))},
		{"qname", "Root", "<Root><a>b</a></Root>", one("QName")},
		{"time", "Root", "<Root><a>23:59:59</a></Root>", one("time")},
		{"unsigned-byte-collection", "Root", "<Root><a>1</a><a>2</a></Root>",
			N("schema", root(N("sequence", el("name", "a", "type", "unsignedByte", "maxOccurs", "2"))))},
		{"list-of-numbers", "Root", "<Root><a>1 2</a></Root>", N("schema", root(N("sequence", el("name", "a", "type", "Li"))),
			N("simpleType", "name", "Li", N("list", "itemType", "int")))},
		{"union", "Root", "<Root><a>1</a></Root>", N("schema", root(N("sequence", el("name", "a", "type", "Un"))),
			N("simpleType", "name", "Un", N("union", "memberTypes", []string{"int", "string"})))},
		{"list-content", "Root", "<Root>a b</Root>", N("schema", root(N("simpleContent", N("extension", "base", "NMTOKENS"))))},
		{"absent-scalar", "Root", "<Root><a>1</a></Root>", N("schema", root(N("choice", el("name", "a", "type", "int"), el("name", "b", "type", "int"))))},
		{"zero-attribute", "Root", `<Root a="0"/>`, N("schema", root(N("attribute", "name", "a", "type", "int")))},
		{"mixed-content", "Root", "<Root>text</Root>", N("schema", root("mixed", "true", N("sequence")))},
		{"decimal-exponent", "Root", "<Root><a>12345678</a></Root>", one("decimal")},
		{"integer-range", "Root", "<Root><a>18446744073709551616</a></Root>", one("integer")},
		{"complex-restriction", "Root", "<Root>1</Root>", N("schema", root(N("simpleContent", N("restriction", "base", "Ba"))),
			N("complexType", "name", "Ba", N("simpleContent", N("extension", "base", "int"))))},
	}
}

func (t *Inst) size() int {
	n := 1
	for _, k := range t.K {
		n += k.size()
	}
	return n
}

func (c *Check) judgeInstances(docs []*Doc, code map[int]string, recs []*instRec) {
	path := filepath.Join(c.S.Dir, "instances.ndjson")
	for start := 0; start < len(recs) && c.Violations == 0; start += 20000 {
		part := recs[start:]
		if len(part) > 20000 {
			part = part[:20000]
		}
		writeNDJSON(path, len(part), func(i int) interface{} { return part[i] })
		t := &TLC{Module: "XInstanceTrace", Env: map[string]string{"XV_DOCS": "/dev/null", "XV_N": "1", "XV_RECS": path},
			Config: "SPECIFICATION TraceSpec\nINVARIANT Conforming\nALIAS Shown\nCHECK_DEADLOCK FALSE\n"}
		c.TLC(t)
		for _, l := range t.Lines {
			if strings.HasPrefix(l, "XV-KNOWN ") {
				c.Known(strings.TrimPrefix(l, "XV-KNOWN "))
			}
		}
		if t.Violated == "" {
			continue
		}
		n, _ := strconv.Atoi(regexp.MustCompile(`rec = (\d+)`).FindStringSubmatch(t.LastState())[1])
		rec := part[n-1]
		what := fmt.Sprintf("a document of element %s isn't the same after it went through the generated Go type %s: %s\n%s\n%s", rec.Want.N, rec.ID, rec.Err, rec.xml, rec.out)
		c.Violation(what, map[string]string{"schema.xsd": docs[rec.Doc-1].xml, "instance.xml": rec.xml, "written.xml": rec.out, "generated.go": code[rec.Doc], "error.txt": rec.Err})
	}
}

func init() { checks["C20"] = checkC20 }

var _ = ioutil.Discard
