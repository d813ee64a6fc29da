package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

// Rec is a record of runs on a document, see spec/XProps.tla.
type Rec struct {
	ID    int               `json:"id"`
	Doc   *Node             `json:"doc"`
	Known string            `json:"known"` // the known finding this document shows
	Err   map[string]string `json:"err"`
	Out   map[string][]Decl `json:"out"`
	Tree  map[string][]Comp `json:"tree"`
	Same  map[string]bool   `json:"same"`
	Pkg   string            `json:"pkg"`
	Go    *GoFile           `json:"go,omitempty"`
	Tools map[string][]Diag `json:"tools,omitempty"`
}

// Doc is a document to run.
type Doc struct {
	Node   *Node
	Style  Style
	Known  string
	Origin string
	Pkg    string
	xml    string
	raw    map[string]Result
}

func defaultStyle(r *rand.Rand) Style {
	return Style{Prefix: []string{"xs", "xsd", "", "x"}[r.Intn(4)], Target: []string{"t", "tns", "-", ""}[r.Intn(4)], Indent: r.Intn(4) != 0}
}

// plainStyles makes sure that unprefixed references to components don't fall
// into the namespace of XML Schema.
func fixStyle(s Style) Style {
	if s.Prefix == "" && (s.Target == "-" || s.Target == "") {
		s.Target = "t"
	}
	return s
}

// runDocs runs the documents in every language and makes the records.
func (c *Check) runDocs(docs []*Doc, stripDocs, toolchain bool) []*Rec {
	var jobs []Job
	for i, d := range docs {
		d.xml = fixStyle(d.Style).XML(d.Node)
		j := Job{ID: i, Files: map[string]string{"s.xsd": d.xml}}
		for _, l := range langs {
			j.Runs = append(j.Runs, Run{Lang: l, File: "s.xsd", Tree: true, Pkg: d.Pkg})
		}
		if stripDocs {
			n := d.Node.Clone()
			n.Walk(func(n *Node) {
				var k []*Node
				for _, m := range n.K {
					if m.T != "annotation" {
						k = append(k, m)
					}
				}
				n.K = k
			})
			j.Files["bare.xsd"] = fixStyle(d.Style).XML(n)
			for _, l := range langs {
				j.Runs = append(j.Runs, Run{Lang: l, File: "bare.xsd", Pkg: d.Pkg})
			}
		}
		jobs = append(jobs, j)
	}
	results := c.S.RunJobs(jobs)
	var recs []*Rec
	for i, d := range docs {
		r := &Rec{ID: i + 1, Doc: d.Node, Known: d.Known, Err: map[string]string{}, Out: map[string][]Decl{}, Tree: map[string][]Comp{}, Same: map[string]bool{}}
		d.raw = map[string]Result{}
		for k, l := range langs {
			res := results[i][k]
			d.raw[l] = res
			r.Err[l] = strconv.QuoteToASCII(res.Err)
			if res.Err == "" {
				r.Err[l] = ""
			}
			out, ok := res.Out["s.xsd"+extOf[l]]
			if !ok && res.Err == "" {
				r.Err[l] = "no output"
			}
			r.Out[l] = Observe(l, out).Decls
			r.Tree[l] = res.Tree
			if r.Tree[l] == nil {
				r.Tree[l] = []Comp{}
			}
			r.Same[l] = true
			if stripDocs {
				bare := results[i][len(langs)+k]
				r.Same[l] = bare.Err == res.Err && stripComments(l, out) == stripComments(l, bare.Out["bare.xsd"+extOf[l]])
			}
			c.Traces++
		}
		r.Pkg = d.Pkg
		if toolchain {
			r.Go = checkGo(results[i][0].Out["s.xsd.go"])
			r.Go.Java = Observe("Java", results[i][3].Out["s.xsd.java"]).Package
		}
		recs = append(recs, r)
	}
	return recs
}

func writeRecs(path string, recs []*Rec) {
	f, err := os.Create(path)
	check(err)
	defer f.Close()
	enc := json.NewEncoder(f)
	enc.SetEscapeHTML(false)
	for _, r := range recs {
		check(enc.Encode(r))
	}
}

// validate lets TLC check the records of the runs; it reports what is violated.
func (c *Check) validate(docs []*Doc, recs []*Rec) {
	const chunk = 60000 // nodes; TLC holds the records of a run in memory
	for i, j := 0, 0; i < len(recs) && c.Violations == 0; i = j {
		for n := 0; j < len(recs) && n < chunk; j++ {
			n += docs[j].Node.Count()
		}
		c.validateChunk(docs, recs[i:j])
	}
}

func (c *Check) validateChunk(docs []*Doc, recs []*Rec) {
	path := filepath.Join(c.S.Dir, "recs.ndjson")
	writeRecs(path, recs)
	t := &TLC{Module: "XTrace", Env: map[string]string{"XV_RECS": path, "XV_PROP": c.ID},
		Config: "SPECIFICATION Spec\nINVARIANTS BalancedInv MachineInv ModelInv PropertyInv\nALIAS Alias\nCHECK_DEADLOCK FALSE\n"}
	c.TLC(t)
	for _, l := range t.Lines {
		if strings.HasPrefix(l, "XV-KNOWN ") {
			c.Known(strings.TrimPrefix(l, "XV-KNOWN "))
		}
	}
	switch t.Violated {
	case "":
		return
	case "PropertyInv":
		last := t.LastState()
		m := regexp.MustCompile(`rec = (\d+)`).FindStringSubmatch(last)
		if m == nil {
			panic("no record in the state: " + last)
		}
		n, _ := strconv.Atoi(m[1])
		c.docViolation(docs[n-1], last)
	default:
		last := t.LastState()
		if m := regexp.MustCompile(`rec = (\d+)`).FindStringSubmatch(last); m != nil {
			n, _ := strconv.Atoi(m[1])
			last += "\n" + docs[n-1].xml
			for _, r := range docs[n-1].raw {
				for _, s := range r.Out {
					last += "\n" + s
				}
			}
		}
		panic(fmt.Sprintf("the model is wrong: %s\n%s", t.Violated, last))
	}
}

func (c *Check) docViolation(d *Doc, what string) {
	replay := map[string]string{"schema.xsd": d.xml, "tlc.txt": what}
	for _, l := range langs {
		for n, s := range d.raw[l].Out {
			replay["observed/"+n] = s
		}
		if d.raw[l].Err != "" {
			replay["observed/error-"+l+".txt"] = d.raw[l].Err
		}
	}
	c.Violation(what, replay)
}

func wrap(nodes []*Node, origin string, seed int64, style func(*rand.Rand) Style) []*Doc {
	var docs []*Doc
	r := rand.New(rand.NewSource(seed))
	for _, n := range nodes {
		docs = append(docs, &Doc{Node: n, Style: style(r), Origin: origin})
	}
	return docs
}

// profileFor is what the random schemas of a property are made of.
func profileFor(id string) Profile {
	p := baseProfile()
	switch id {
	case "C01":
		p.Anon, p.Comps, p.Folds, p.Namesakes = 25, [2]int{6, 20}, 10, 25
	case "C02":
		p.Anon, p.Members, p.Depth, p.AttrMax = 20, 5, 4, 4
		p.Kinds["complex"], p.Kinds["group"], p.Kinds["agroup"] = 10, 4, 4
	case "C03":
		p.Kinds["complex"], p.Inline, p.Extend = 8, 30, 35
	case "C04":
		p.Kinds["restriction"], p.Kinds["complex"] = 8, 10
		p.Names, p.Namesakes, p.Foreign = "typed", 30, 5
	case "C05":
		p.Plural, p.Depth, p.Repeats, p.Anon = 40, 4, 30, 25
		p.Kinds["group"] = 4
	case "C06":
		p.AttrMax, p.Kinds["agroup"], p.Extend = 6, 5, 40
	case "C07":
		p.Extend, p.Kinds["complex"], p.Kinds["restriction"] = 75, 14, 6
	case "C08":
		p.Kinds = map[string]int{"restriction": 6, "enum": 7, "list": 5, "union": 6, "complex": 3, "element": 1, "inlineelement": 2, "attribute": 2, "agroup": 1, "noise": 1}
		p.Inline = 40
	case "C09":
		p.Names, p.Foreign = "odd", 15
	case "C10":
		p.Docs, p.OddDocs = 70, true
	case "C11":
		p.Names, p.OddDocs, p.Docs, p.Foreign = "typed", true, 30, 5
	case "C22":
		p.Names, p.OddDocs, p.Docs, p.Foreign = "typed", true, 30, 5
	case "C21":
		p.Docs, p.Folds = 40, 10
	}
	return p
}

func structural(c *Check) {
	p := profileFor(c.ID)
	n := c.N(160, 2500)
	if v, err := strconv.Atoi(os.Getenv("XV_RANDOM")); err == nil {
		n = v
	}
	docs := wrap(RandomDocs(c.Seed, p, n), "random", c.Seed, defaultStyle)
	docs = append(docs, curated(c.ID)...)
	large := largeDocs(c.ID, c.Seed)
	docs = append(docs, large...)
	docs = append(docs, wrap(c.enumerated(c.ID), "enumerated", c.Seed, defaultStyle)...)
	if c.ID == "C11" {
		for i, d := range docs {
			d.Pkg = []string{"", "main", "my_pkg", "p2", "xsd", "schema"}[i%6]
		}
	}
	recs := c.runDocs(docs, c.ID == "C10", c.ID == "C11")
	if c.ID == "C22" {
		c.compile(docs, recs)
	}
	nodes := 0
	for i, d := range docs {
		nodes += d.Node.Count()
		if i < 2 || i >= len(docs)-2 {
			s := d.xml
			if len(s) > 1500 {
				s = s[:1500] + "..."
			}
			c.sample(map[string]string{"origin": d.Origin, "schema": s})
		}
	}
	c.Coverage["random_documents"] = n
	c.Coverage["curated_documents"] = len(curated(c.ID))
	c.Coverage["large_documents"] = len(large)
	c.Coverage["nodes"] = nodes
	c.validate(docs, recs)
	if c.ID == "C21" && c.Violations == 0 {
		c.projectTrees()
	}
}

func init() {
	for _, id := range []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C21", "C22"} {
		checks[id] = structural
	}
}

var _ = ioutil.Discard
