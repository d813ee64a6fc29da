package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Project is a project of spec/XProject.tla.
type Project struct {
	Files []struct {
		Dir string `json:"dir"`
		NS  string `json:"ns"`
		Pre string `json:"pre"`
		XS  string `json:"xs"`
		Inc []int  `json:"inc"`
		Imp []struct {
			F  int    `json:"f"`
			NS string `json:"ns"`
			P  string `json:"p"`
		} `json:"imp"`
		Types []struct {
			N    string              `json:"n"`
			K    string              `json:"k"`
			Refs []map[string]string `json:"refs"`
		} `json:"types"`
	} `json:"files"`
	Docs []*Node `json:"docs"`
}

type projectRec struct {
	Files  interface{}       `json:"files"`
	D      int               `json:"d"`
	Err    map[string]string `json:"err"`
	Out    map[string][]Decl `json:"out"`
	Strays []string          `json:"strays"`
	what   string
	replay map[string]string
}

// path is where a file of the project is, below "in".
func (p *Project) path(k int) string {
	return strings.TrimPrefix(strings.TrimPrefix(p.Files[k-1].Dir, "in")+"/", "/") + fmt.Sprintf("f%d.xsd", k)
}

func (p *Project) sources(r *rand.Rand) map[string]string {
	files := map[string]string{}
	for i, f := range p.Files {
		doc := p.Docs[i].Clone()
		location := func(g int) string {
			if g == 0 {
				return "missing.xsd"
			}
			if g == remote {
				return "http://xgen.invalid/schemas/far.xsd"
			}
			rel, err := filepath.Rel(f.Dir, filepath.Join("in", p.path(g)))
			check(err)
			return rel
		}
		var head []*Node
		extra := ""
		for _, m := range f.Imp {
			imp := N("import", "namespace", m.NS, "schemaLocation", location(m.F))
			if m.F == remote && r.Intn(2) == 0 {
				delete(imp.A, "schemaLocation")
			}
			switch {
			case m.NS == "":
				delete(imp.A, "namespace")
			case m.P == "":
				extra += fmt.Sprintf(" xmlns=%q", m.NS)
			default:
				extra += fmt.Sprintf(" xmlns:%s=%q", m.P, m.NS)
			}
			head = append(head, imp)
		}
		for _, g := range f.Inc {
			head = append(head, N("include", "schemaLocation", location(g)))
		}
		r.Shuffle(len(head), func(a, b int) { head[a], head[b] = head[b], head[a] })
		doc.K = append(head, doc.K...)
		st := Style{Prefix: f.XS, Target: f.Pre, Extra: extra, Indent: true}
		if f.NS == "" {
			st.Target = "-"
		}
		s := strings.Replace(st.XML(doc), "urn:example", f.NS, -1)
		files[p.path(i+1)] = unprefixed.ReplaceAllString(s, "$1$2")
	}
	return files
}

// unprefixed are the references that stand for the default namespace.
var unprefixed = regexp.MustCompile(`([" ]):(T\d|Code|Gone|Far)`)

// remote is Remote of spec/XProject.tla.
const remote = 9

type projectSize struct{ files, types, n int }

// projects are drawn by TLC.
func (c *Check) projects(sizes []projectSize, env ...string) []*Project {
	var ps []*Project
	seen := map[string]bool{}
	for _, s := range sizes {
		t := &TLC{Module: "XProject", Workers: 1,
			Env:    map[string]string{"XV_FILES": strconv.Itoa(s.files), "XV_TYPES": strconv.Itoa(s.types), "XV_HOMONYMS": "yes"},
			Config: "SPECIFICATION Spec\nINVARIANT Ends\nINVARIANT Told\nCHECK_DEADLOCK FALSE\n",
			Args:   []string{"-simulate", fmt.Sprintf("num=%d", s.n), "-seed", fmt.Sprint(c.Seed), "-depth", "200"}}
		for _, e := range env {
			t.Env[e] = "yes"
		}
		t.Each = func(l string) bool {
			if !strings.HasPrefix(l, "XV-PROJECT ") {
				return false
			}
			if !seen[l] {
				seen[l] = true
				p := &Project{}
				check(json.Unmarshal([]byte(strings.TrimPrefix(l, "XV-PROJECT ")), p))
				ps = append(ps, p)
			}
			return true
		}
		c.TLC(t)
		if t.Violated != "" {
			panic("the model is wrong: " + t.Violated + t.Trace)
		}
	}
	return ps
}

func checkC16(c *Check) {
	ps := c.projects([]projectSize{{2, 3, c.N(250, 2500)}, {3, 3, c.N(500, 5000)}, {4, 2, c.N(250, 3000)}, {6, 1, c.N(80, 1500)}})
	r := rand.New(rand.NewSource(c.Seed))
	var jobs []Job
	for i, p := range ps {
		j := Job{ID: i, Files: p.sources(r)}
		for k := range p.Files {
			for _, l := range langs {
				j.Runs = append(j.Runs, Run{Lang: l, File: p.path(k + 1)})
			}
		}
		jobs = append(jobs, j)
	}
	results := c.S.RunJobs(jobs)
	var recs []projectRec
	kinds := map[string]int{}
	for i, p := range ps {
		res := results[i]
		own := func(k, l int) Result { return res[k*len(langs)+l] }
		for k := range p.Files {
			rec := projectRec{Files: p.Files, D: k + 1, Err: map[string]string{}, Out: map[string][]Decl{}, Strays: []string{}, replay: map[string]string{}}
			for f, s := range jobs[i].Files {
				rec.replay["in/"+f] = s
			}
			rec.what = p.path(k + 1)
			for _, m := range p.Files[k].Imp {
				kinds["imports"]++
				if m.F == 0 {
					kinds["missing"]++
				}
				if m.F == remote {
					kinds["remote"]++
				}
			}
			kinds["includes"] += len(p.Files[k].Inc)
			for l, lang := range langs {
				run := own(k, l)
				c.Traces++
				rec.Err[lang] = ""
				if run.Err != "" {
					rec.Err[lang] = strconv.QuoteToASCII(run.Err)
					rec.replay["observed/error-"+lang+".txt"] = run.Err
				}
				out, ok := run.Out[p.path(k+1)+extOf[lang]]
				if !ok && run.Err == "" {
					rec.Err[lang] = "no output"
				}
				rec.Out[lang] = Observe(lang, out).Decls
				rec.replay["observed/"+p.path(k+1)+extOf[lang]] = out
				if run.Err != "" {
					continue
				}
				for name, s := range run.Out {
					known := false
					for g := range p.Files {
						o := own(g, l)
						if name == p.path(g+1)+extOf[lang] {
							known = o.Err == "" && o.Out[name] == s
						}
					}
					if !known {
						rec.Strays = append(rec.Strays, name)
						rec.replay["observed/stray/"+name] = s
					}
				}
			}
			sort.Strings(rec.Strays)
			recs = append(recs, rec)
		}
	}
	c.Coverage["projects"] = len(ps)
	c.Coverage["files_of_projects"] = len(recs)
	c.Coverage["dependencies"] = kinds
	for i := 0; i < 3; i++ {
		c.sample(jobs[i*len(jobs)/3].Files)
	}
	for start := 0; start < len(recs) && c.Violations == 0; start += 6000 {
		part := recs[start:]
		if len(part) > 6000 {
			part = part[:6000]
		}
		path := filepath.Join(c.S.Dir, "projects.ndjson")
		writeNDJSON(path, len(part), func(i int) interface{} { return part[i] })
		t := &TLC{Module: "XProjectTrace", Env: map[string]string{"XV_FILES": "2", "XV_TYPES": "1", "XV_HOMONYMS": "no", "XV_RECS": path},
			Config: "SPECIFICATION TraceSpec\nINVARIANT Conforms\nALIAS Shown\nCHECK_DEADLOCK FALSE\n"}
		c.TLC(t)
		for _, l := range t.Lines {
			if strings.HasPrefix(l, "XV-KNOWN ") {
				c.Known(strings.TrimPrefix(l, "XV-KNOWN "))
			}
		}
		if t.Violated == "" {
			continue
		}
		n, _ := strconv.Atoi(regexp.MustCompile(`rec = (\d+)`).FindStringSubmatch(t.LastState())[1])
		rec := part[n-1]
		rec.replay["tlc.txt"] = t.LastState()
		c.Violation("the code of "+rec.what+" isn't what the schemas it imports and includes mean: "+t.LastState(), rec.replay)
	}
}

type parseTree struct {
	Err   string `json:"err"`
	Tree  []Comp `json:"tree"`
	Wrote int    `json:"wrote"`
}

type treeRec struct {
	Files interface{}          `json:"files"`
	D     int                  `json:"d"`
	Gen   map[string]parseTree `json:"gen"`
	Ext   map[string]parseTree `json:"ext"`
	job   int
}

// extractHomonym is a project that shows the known finding of this name: an
// attribute whose imported type has the name of a local one.
const extractHomonym = `{"files":[{"inc":[],"types":[{"k":"attribute","n":"T1","refs":[{"m":"Code","p":"t"}]},{"k":"restr","n":"Code","refs":[{"m":"int","p":"."}]},{"k":"refs","n":"T3","refs":[{"m":"","p":"."},{"m":"","p":"."},{"m":"T1","p":"."},{"m":"","p":"."}]}],
"imp":[{"p":"t","f":2,"ns":"urn:a"}],"pre":"x","xs":"xs","dir":"in","ns":"urn:b"},{"inc":[],"types":[{"k":"restr","n":"Code","refs":[{"m":"QName","p":"."}]}],
"imp":[],"pre":"q","xs":"xs","dir":"in/sub","ns":"urn:a"}],
"docs":[{"t":"schema","a":[],"k":[{"t":"attribute","a":{"name":"T1","type":"t:Code"},"k":[],"x":""},{"t":"simpleType","a":{"name":"Code"},"k":[{"t":"restriction","a":{"base":"int"},"k":[],"x":""}],"x":""},
{"t":"complexType","a":{"name":"T3"},"k":[{"t":"sequence","a":[],"k":[],"x":""},{"t":"attribute","a":{"ref":"T1"},"k":[],"x":""}],"x":""}],"x":""},{"t":"schema","a":[],"k":[{"t":"simpleType","a":{"name":"Code"},"k":[{"t":"restriction","a":{"base":"QName"},"k":[],"x":""}],"x":""}],"x":""}]}`

// projectTrees checks the proto trees of files that import and include others.
func (c *Check) projectTrees() {
	ps := c.projects([]projectSize{{2, 3, c.N(100, 1500)}, {3, 2, c.N(200, 3000)}, {5, 1, c.N(40, 800)}})
	known := &Project{}
	check(json.Unmarshal([]byte(extractHomonym), known))
	ps = append(ps, known)
	r := rand.New(rand.NewSource(c.Seed))
	var jobs []Job
	for i, p := range ps {
		j := Job{ID: i, Files: p.sources(r)}
		for k := range p.Files {
			for _, l := range langs {
				j.Runs = append(j.Runs, Run{Lang: l, File: p.path(k + 1), Tree: true}, Run{Lang: l, File: p.path(k + 1), Tree: true, Extract: true})
			}
		}
		jobs = append(jobs, j)
	}
	results := c.S.RunJobs(jobs)
	of := func(res Result) parseTree {
		t := parseTree{Tree: res.Tree, Wrote: len(res.Out)}
		if res.Err != "" {
			t.Err = strconv.QuoteToASCII(res.Err)
		}
		if t.Tree == nil {
			t.Tree = []Comp{}
		}
		return t
	}
	var recs []treeRec
	for i, p := range ps {
		for k := range p.Files {
			rec := treeRec{Files: p.Files, D: k + 1, Gen: map[string]parseTree{}, Ext: map[string]parseTree{}, job: i}
			for n, l := range langs {
				at := 2 * (k*len(langs) + n)
				rec.Gen[l], rec.Ext[l] = of(results[i][at]), of(results[i][at+1])
				c.Traces += 2
			}
			recs = append(recs, rec)
		}
	}
	c.Coverage["files_of_projects"] = len(recs)
	for start := 0; start < len(recs) && c.Violations == 0; start += 4000 {
		part := recs[start:]
		if len(part) > 4000 {
			part = part[:4000]
		}
		path := filepath.Join(c.S.Dir, "trees.ndjson")
		writeNDJSON(path, len(part), func(i int) interface{} { return part[i] })
		t := &TLC{Module: "XTreeTrace", Env: map[string]string{"XV_FILES": "2", "XV_TYPES": "1", "XV_HOMONYMS": "no", "XV_RECS": path},
			Config: "SPECIFICATION TraceSpec\nINVARIANT Conforms\nALIAS Shown\nCHECK_DEADLOCK FALSE\n"}
		c.TLC(t)
		for _, l := range t.Lines {
			if strings.HasPrefix(l, "XV-KNOWN ") {
				c.Known(strings.TrimPrefix(l, "XV-KNOWN "))
			}
		}
		if t.Violated == "" {
			continue
		}
		n, _ := strconv.Atoi(regexp.MustCompile(`rec = (\d+)`).FindStringSubmatch(t.LastState())[1])
		rec := part[n-1]
		b, _ := json.MarshalIndent(rec, "", " ")
		replay := map[string]string{"tlc.txt": t.LastState(), "record.json": string(b)}
		for f, s := range jobs[rec.job].Files {
			replay["in/"+f] = s
		}
		c.Violation("the proto tree of "+ps[rec.job].path(rec.D)+" isn't what the file declares: "+t.LastState(), replay)
	}
}

func init() { checks["C16"] = checkC16 }
