package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Task is a schema file in a language, see spec/XHistory.tla.
type Task struct {
	ID    int      `json:"id"`
	File  string   `json:"file"`
	Lang  string   `json:"lang"`
	Pkg   string   `json:"pkg"`
	Names []string `json:"names"` // identifiers of its declarations, before they are numbered
	Ends  string   `json:"ends"`  // well, badly
}

// Op is a parse in a process; D is what is on disk before.
type Op struct {
	T int    `json:"t"`
	D string `json:"d"`
}

// Parsed is the record of an Op.
type Parsed struct {
	T    int    `json:"t"`
	P    int    `json:"p"` // process
	D    string `json:"d"`
	Err  string `json:"err"`
	Out  string `json:"out"`
	Ends string `json:"ends"`
	text string
}

type plan struct {
	Tasks []Task
	Ops   []Op
	Log   string
	Texts string // directory for the texts that came out
}

// history runs the operations of a plan in this process.
func history(file string) {
	b, err := ioutil.ReadFile(file)
	check(err)
	var p plan
	check(json.Unmarshal(b, &p))
	log, err := os.Create(p.Log)
	check(err)
	enc := json.NewEncoder(log)
	last := map[int]string{}
	seen := map[string]bool{}
	for _, op := range p.Ops {
		t := p.Tasks[op.T-1]
		path := filepath.Join("out", t.File+extOf[t.Lang])
		os.RemoveAll("out")
		stale := ""
		switch op.D {
		case "same":
			stale = last[op.T]
		case "longer":
			stale = strings.Repeat("// stale output of an earlier run, much longer than any new one\n", 3000)
		case "other":
			stale = "stale"
		}
		if stale != "" {
			check(writeTree(".", map[string]string{path: stale}))
		}
		o := newOptions(filepath.Join("in", t.File), "in", "out", t.Lang, t.Pkg)
		r := Parsed{T: op.T, D: op.D, Err: parseGuarded(o), Ends: t.Ends}
		out := readTree("out")
		if r.Err == "" {
			last[op.T] = out[t.File+extOf[t.Lang]]
		}
		if s, ok := out[t.File+extOf[t.Lang]]; ok && s == stale && op.D != "same" {
			delete(out, t.File+extOf[t.Lang])
		}
		if r.Err != "" && op.D == "same" {
			delete(out, t.File+extOf[t.Lang])
		}
		d := digest(Result{Out: out})
		if len(out) == 0 {
			d = "untouched"
		}
		tree, _ := json.Marshal(treeOf(o.ProtoTree))
		r.Out = fmt.Sprintf("%s, tree %x", d, sha256.Sum256(tree))[:len(d)+20]
		r.Err = strconv.QuoteToASCII(r.Err)
		if r.Err == `""` {
			r.Err = ""
		}
		if !seen[fmt.Sprint(op.T, r.Out)] {
			seen[fmt.Sprint(op.T, r.Out)] = true
			check(writeTree(p.Texts, map[string]string{fmt.Sprintf("%d-%x.txt", op.T, sha256.Sum256([]byte(r.Out))): fmt.Sprintf("%v\n%s", out, tree)}))
		}
		check(enc.Encode(r))
	}
	check(log.Close())
}

// runHistory runs operations in a process of their own.
func (c *Check) runHistory(p int, files map[string]string, tasks []Task, ops []Op) []Parsed {
	dir := c.S.Sub(fmt.Sprintf("h%d", p))
	defer os.RemoveAll(dir)
	check(writeTree(filepath.Join(dir, "in"), files))
	texts := c.S.Sub("texts")
	pl := plan{tasks, ops, filepath.Join(dir, "log"), texts}
	b, err := json.Marshal(pl)
	check(err)
	check(ioutil.WriteFile(filepath.Join(dir, "plan"), b, 0644))
	cmd := c.S.Command(dir, c.S.exe, "history", "plan")
	msg, rerr := cmd.CombinedOutput()
	var recs []Parsed
	if f, err := os.Open(pl.Log); err == nil {
		dec := json.NewDecoder(f)
		for {
			var r Parsed
			if dec.Decode(&r) != nil {
				break
			}
			r.P = p
			recs = append(recs, r)
		}
		f.Close()
	}
	if len(recs) < len(ops) { // the process ended
		op := ops[len(recs)]
		m := string(msg)
		if len(m) > 300 {
			m = m[:300]
		}
		recs = append(recs, Parsed{T: op.T, P: p, D: op.D, Err: strconv.QuoteToASCII(fmt.Sprintf("the process ended: %v %s", rerr, m)), Out: "nothing", Ends: tasks[op.T-1].Ends})
	}
	return recs
}

type edge struct {
	From []int
	T    int
	D    string
}

// tour walks all edges of the model that begin after a parse, in one process
// (every state has as many edges in as out).
func tour(edges []edge, window int, r *rand.Rand) []Op {
	out := map[string][]edge{}
	key := func(s []int) string { return fmt.Sprint(s) }
	for _, e := range edges {
		out[key(e.From)] = append(out[key(e.From)], e)
	}
	var keys []string
	for k := range out {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		es := out[k]
		sort.Slice(es, func(i, j int) bool { return fmt.Sprint(es[i]) < fmt.Sprint(es[j]) })
		r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
	}
	next := func(from []int, t int) []int {
		n := append(append([]int{}, from...), t)
		if len(n) > window {
			n = n[len(n)-window:]
		}
		return n
	}
	// Hierholzer's algorithm; from the empty state there is one way out only.
	type step struct {
		at []int
		op Op
	}
	var stack []step
	var ops []Op
	at := []int{}
	for len(at) < window {
		es := out[key(at)]
		e := es[len(es)-1]
		ops = append(ops, Op{e.T, e.D})
		at = next(at, e.T)
	}
	first := append([]Op{}, ops...)
	ops = nil
	stack = append(stack, step{at, Op{}})
	for len(stack) > 0 {
		s := stack[len(stack)-1]
		k := key(s.at)
		if es := out[k]; len(es) > 0 {
			e := es[len(es)-1]
			out[k] = es[:len(es)-1]
			stack = append(stack, step{next(s.at, e.T), Op{e.T, e.D}})
			continue
		}
		stack = stack[:len(stack)-1]
		if s.op.T != 0 {
			ops = append(ops, s.op)
		}
	}
	for i, j := 0, len(ops)-1; i < j; i, j = i+1, j-1 {
		ops[i], ops[j] = ops[j], ops[i]
	}
	return append(first, ops...)
}

// historyFiles are schemas that leave most behind, or have parts whose order
// may vary; and the names they declare.
func (c *Check) historyFiles() (map[string]string, []Task) {
	st := plainStyle
	files := map[string]string{}
	var tasks []Task
	add := func(name string, doc *Node, ends string, extra string) {
		s := st
		s.Extra = extra
		files[name] = s.XML(doc)
		var names []string
		for _, k := range doc.K {
			if n := k.Str("name"); n != "" && k.T != "import" && k.T != "include" {
				names = append(names, title(strings.NewReplacer("-", "", "_", "", ".", "").Replace(n)))
			}
		}
		if names == nil {
			names = []string{}
		}
		for _, l := range langs {
			tasks = append(tasks, Task{len(tasks) + 1, name, l, "", names, ends})
		}
	}
	big := func() *Node {
		var ms []string
		n := N("schema")
		for i := 0; i < 9; i++ {
			m := fmt.Sprintf("M%d", (i*5)%9)
			n.Add(N("simpleType", "name", m, N("restriction", "base", []string{"string", "int"}[i%2])))
			ms = append(ms, m)
		}
		return n.Add(N("simpleType", "name", "All", N("union", "memberTypes", ms)), N("simpleType", "name", "Again", N("union", "memberTypes", ms[2:7])))
	}
	add("union.xsd", big(), "well", "")
	add("clash.xsd", N("schema", N("complexType", "name", "Foo-bar", N("attribute", "name", "a", "type", "string")),
		N("complexType", "name", "FooBar", N("attribute", "name", "b", "type", "string")),
		N("element", "name", "Foo-Bar", "type", "int"), N("group", "name", "fooBar", N("sequence", N("element", "name", "x", "type", "int")))), "well", "")
	add("same.xsd", N("schema", N("simpleType", "name", "FooBar", N("restriction", "base", "int")), N("complexType", "name", "M1",
		N("sequence", N("element", "name", "y", "type", "FooBar", "maxOccurs", "9"))), N("attribute", "name", "All", "type", "date")), "well", "")
	add("include.xsd", N("schema", N("include", "schemaLocation", "part2.xsd"), N("include", "schemaLocation", "part1.xsd"), N("include", "schemaLocation", "part3.xsd"),
		N("complexType", "name", "M2", N("sequence", N("element", "name", "p", "type", "Twice"), N("element", "name", "q", "type", "Once"), N("element", "name", "r", "type", "Third")))), "well", "")
	files["part1.xsd"] = st.XML(N("schema", N("simpleType", "name", "Twice", N("restriction", "base", "int")), N("simpleType", "name", "Once", N("restriction", "base", "Third"))))
	files["part2.xsd"] = st.XML(N("schema", N("simpleType", "name", "Twice", N("restriction", "base", "boolean")), N("simpleType", "name", "Third", N("restriction", "base", "double"))))
	files["part3.xsd"] = st.XML(N("schema", N("simpleType", "name", "Third", N("restriction", "base", "date")), N("simpleType", "name", "Twice", N("restriction", "base", "string"))))
	add("import.xsd", N("schema", N("import", "namespace", "urn:o", "schemaLocation", "o.xsd"),
		N("complexType", "name", "M3", N("sequence", N("element", "name", "p", "type", "o:Code"), N("element", "name", "M0", "type", "o:Thing")))), "well", ` xmlns:o="urn:o"`)
	files["o.xsd"] = strings.Replace(st.XML(N("schema", N("simpleType", "name", "Code", N("restriction", "base", "int")), N("complexType", "name", "Thing"))), "urn:example", "urn:o", -1)
	add("torn.xsd", N("schema", N("complexType", "name", "M4", N("sequence", N("element", "name", "p", "type", "int")))), "badly", "")
	files["torn.xsd"] = strings.Replace(files["torn.xsd"], "</xs:sequence>", "", 1)
	add("bounds.xsd", N("schema", N("simpleType", "name", "FooBar", N("restriction", "base", "int")), N("group", "name", "G", N("choice", "maxOccurs", "unbounded", N("element", "name", "p", "type", "int", "maxOccurs", "x")))), "badly", "")
	add("missing.xsd", N("schema", N("import", "namespace", "urn:o", "schemaLocation", "nowhere.xsd"), N("element", "name", "M5", "type", "o:Thing")), "badly", ` xmlns:o="urn:o"`)
	add("open.xsd", N("schema", N("simpleType", "name", "M6", N("restriction", "base", "string", N("enumeration", "value", "x"))), N("attributeGroup", "name", "M7", N("attribute", "name", "z", "type", "int"))), "badly", "")
	files["open.xsd"] = files["open.xsd"][:strings.Index(files["open.xsd"], "<xs:attribute ")]
	add("empty.xsd", N("schema"), "well", "")
	p := baseProfile()
	p.Names = "odd"
	for i, n := range RandomDocs(c.Seed, p, 2) {
		add(fmt.Sprintf("random%d.xsd", i), n, "well", "")
	}
	return files, tasks
}

func writeTasks(path string, tasks []Task) {
	f, err := os.Create(path)
	check(err)
	defer f.Close()
	enc := json.NewEncoder(f)
	for _, t := range tasks {
		check(enc.Encode(t))
	}
}

// edgesOf lets TLC explore the model of the histories; it returns its
// transitions.
func (c *Check) edgesOf(tasks []Task, window int) []edge {
	path := filepath.Join(c.S.Dir, "tasks.ndjson")
	writeTasks(path, tasks)
	var edges []edge
	t := &TLC{Module: "XHistory", Env: map[string]string{"XV_TASKS": path, "XV_WINDOW": strconv.Itoa(window), "XV_RESET": "yes"},
		Config: "SPECIFICATION Spec\nINVARIANT FunctionOfInput\nVIEW View\nCHECK_DEADLOCK FALSE\n"}
	t.Each = func(l string) bool {
		if !strings.HasPrefix(l, "XV-EDGE ") {
			return false
		}
		var e edge
		l = strings.Replace(strings.TrimPrefix(l, "XV-EDGE "), `"from":{}`, `"from":[]`, 1)
		check(json.Unmarshal([]byte(l), &e))
		edges = append(edges, e)
		return true
	}
	c.TLC(t)
	if t.Violated != "" {
		panic("the model is wrong: " + t.Violated + t.LastState())
	}
	return edges
}

// judgeHistory lets TLC check recorded histories.
func (c *Check) judgeHistory(files map[string]string, tasks []Task, recs []Parsed) {
	c.Traces += len(recs)
	path := filepath.Join(c.S.Dir, "history.ndjson")
	f, err := os.Create(path)
	check(err)
	enc := json.NewEncoder(f)
	for _, r := range recs {
		check(enc.Encode(r))
	}
	check(f.Close())
	t := &TLC{Module: "XHistoryTrace", Env: map[string]string{"XV_RECS": path}, Workers: 1,
		Config: "SPECIFICATION Spec\nINVARIANT FunctionOfInput\nALIAS Alias\nCHECK_DEADLOCK FALSE\n"}
	c.TLC(t)
	if t.Violated == "" {
		return
	}
	m := regexp.MustCompile(`rec = (\d+)`).FindStringSubmatch(t.LastState())
	n, _ := strconv.Atoi(m[1])
	r := recs[n-1]
	task := tasks[r.T-1]
	replay := map[string]string{"tlc.txt": t.LastState()}
	for n, s := range files {
		replay["schema/"+n] = s
	}
	var hist []string
	for i, x := range recs[:n] {
		if x.P == r.P || i < 5 {
			hist = append(hist, fmt.Sprintf("process %d: parse %s in %s, on disk: %s; error %s, output %s", x.P, tasks[x.T-1].File, tasks[x.T-1].Lang, x.D, x.Err, x.Out))
		}
	}
	replay["history.txt"] = strings.Join(hist, "\n")
	texts, _ := filepath.Glob(filepath.Join(c.S.Dir, "texts", fmt.Sprintf("%d-*.txt", r.T)))
	for i, f := range texts {
		if b, err := ioutil.ReadFile(f); err == nil && i < 5 {
			replay["observed/"+filepath.Base(f)] = string(b)
		}
	}
	c.Violation(fmt.Sprintf("%s in %s gives another result after this history (%s): %s", task.File, task.Lang, "process "+strconv.Itoa(r.P), t.LastState()), replay)
}

// parallel runs functions at the same time, as many as there are processors.
func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer wg.Done()
			f(i)
			<-sem
		}(i)
	}
	wg.Wait()
}

// checkC13: every task again and again, in several processes, with all that
// may be on disk.
func checkC13(c *Check) {
	files, tasks := c.historyFiles()
	// More random schemas, of which each is a task of its own.
	p := baseProfile()
	p.Kinds["union"], p.Kinds["list"], p.Members = 6, 4, 6
	for i, n := range RandomDocs(c.Seed+7, p, c.N(40, 300)) {
		name := fmt.Sprintf("more%d.xsd", i)
		files[name] = fixStyle(plainStyle).XML(n)
		for _, l := range langs {
			tasks = append(tasks, Task{len(tasks) + 1, name, l, []string{"", "p"}[i%2], []string{}, "well"})
		}
	}
	// The histories of a single task.
	edges := c.edgesOf(tasks[:1], 2)
	r := rand.New(rand.NewSource(c.Seed))
	processes := c.N(4, 12)
	all := make([][]Parsed, processes)
	repeats := c.N(2, 4)
	plans := make([][]Op, processes)
	for i := range plans {
		for _, t := range r.Perm(len(tasks)) {
			for k := 0; k < repeats; k++ {
				for _, op := range tour(edges, 2, r) {
					plans[i] = append(plans[i], Op{tasks[t].ID, op.D})
				}
			}
		}
	}
	parallel(processes, func(i int) { all[i] = c.runHistory(i+1, files, tasks, plans[i]) })
	var recs []Parsed
	for _, a := range all {
		recs = append(recs, a...)
	}
	c.Coverage["tasks"] = len(tasks)
	c.Coverage["processes"] = processes
	c.Coverage["parses_per_task_and_process"] = len(plans[0]) / len(tasks)
	for i := 0; i < 3; i++ {
		c.sample(recs[i*len(recs)/3])
	}
	c.judgeHistory(files, tasks, recs)
}

// checkC14: tours through all sequences of tasks, and directories.
func checkC14(c *Check) {
	files, tasks := c.historyFiles()
	if !c.Thorough() { // each file in two languages, but the most telling ones
		var few []Task
		for i, t := range tasks {
			if i < 10 || i%5 == (i/5)%5 || i%5 == (i/5+2+int(c.Seed))%5 {
				t.ID = len(few) + 1
				few = append(few, t)
			}
		}
		tasks = few
	}
	r := rand.New(rand.NewSource(c.Seed))
	edges := c.edgesOf(tasks, 1)
	solo := make([][]Parsed, len(tasks))
	parallel(len(tasks), func(i int) { solo[i] = c.runHistory(i+1, files, tasks, []Op{{tasks[i].ID, "nothing"}}) })
	var recs []Parsed
	for _, s := range solo {
		recs = append(recs, s...)
	}
	ops := tour(edges, 1, r)
	recs = append(recs, c.runHistory(len(tasks)+1, files, tasks, ops)...)
	c.Coverage["tasks"] = len(tasks)
	c.Coverage["tour_over_pairs"] = len(ops)
	// Longer windows, on fewer tasks.
	small, window := 6, 3
	if c.Thorough() {
		small = 12
	}
	for k := 0; k < c.N(1, 3); k++ {
		var sub []Task
		for _, i := range r.Perm(len(tasks))[:small] {
			sub = append(sub, tasks[i])
		}
		es := c.edgesOf(sub, window)
		var t []Op
		for _, op := range tour(es, window, r) {
			t = append(t, Op{sub[op.T-1].ID, op.D})
		}
		recs = append(recs, c.runHistory(len(tasks)+2+k, files, tasks, t)...)
		c.Coverage[fmt.Sprintf("tour_over_sequences_of_%d_%d", window+1, k)] = len(t)
	}
	for i := 0; i < 3; i++ {
		c.sample(recs[i*len(recs)/3])
	}
	c.judgeHistory(files, tasks, recs)
	if c.Violations == 0 {
		c.directories(files, tasks, r)
	}
	if c.Violations == 0 {
		c.neighbours(r)
	}
}

// buildTool builds the command.
func (c *Check) buildTool(flags ...string) string {
	bin := filepath.Join(c.S.Dir, "xgen")
	cmd := exec.Command("go", append(append([]string{"build"}, flags...), "-o", bin, "github.com/xuri/xgen/cmd/xgen")...)
	cmd.Dir = filepath.Join(verifDir, "harness")
	if out, err := cmd.CombinedOutput(); err != nil {
		panic(fmt.Sprintf("the command doesn't build: %v\n%s", err, out))
	}
	return bin
}

// directories runs the command on directories in which the files of tasks are
// in every order, and compares with what it gives for a file alone.
func (c *Check) directories(files map[string]string, tasks []Task, r *rand.Rand) {
	tool := c.buildTool()
	var names []string
	ends := map[string]string{}
	for _, t := range tasks {
		if ends[t.File] == "" {
			ends[t.File] = t.Ends
			names = append(names, t.File)
		}
	}
	aux := map[string]string{}
	for n, s := range files {
		if ends[n] == "" {
			aux[n] = s
		}
	}
	ids := map[string]int{}
	var dtasks []Task
	for _, n := range names {
		for _, l := range langs {
			ids[n+l] = len(dtasks) + 1
			dtasks = append(dtasks, Task{ID: len(dtasks) + 1, File: n, Lang: l, Ends: ends[n], Names: []string{}})
		}
	}
	type dir struct {
		seq  []string
		lang string
		recs []Parsed
	}
	var dirs []*dir
	for _, n := range names {
		for _, l := range langs {
			dirs = append(dirs, &dir{seq: []string{n}, lang: l})
		}
	}
	for _, a := range names { // all pairs
		for _, b := range names {
			if a != b {
				dirs = append(dirs, &dir{seq: []string{a, b}, lang: langs[r.Intn(5)]})
			}
		}
	}
	for i := 0; i < c.N(40, 600); i++ {
		d := &dir{lang: langs[r.Intn(5)]}
		for _, k := range r.Perm(len(names))[:3+r.Intn(4)] {
			d.seq = append(d.seq, names[k])
		}
		dirs = append(dirs, d)
	}
	parallel(len(dirs), func(i int) {
		d := dirs[i]
		root := c.S.Sub(fmt.Sprintf("d%d", i))
		defer os.RemoveAll(root)
		in := map[string]string{}
		for n, s := range aux {
			in[filepath.Join("in", "zz", n)] = s // dependencies come last, and are there for all
		}
		for k, n := range d.seq {
			s := files[n]
			s = strings.Replace(s, `schemaLocation="part`, `schemaLocation="zz/part`, -1)
			s = strings.Replace(s, `schemaLocation="o.xsd`, `schemaLocation="zz/o.xsd`, -1)
			in[filepath.Join("in", fmt.Sprintf("%c-%s", 'a'+k, n))] = s
		}
		check(writeTree(root, in))
		cmd := c.S.Command(root, tool, "-i", "in", "-o", "out", "-l", d.lang)
		msg, _ := cmd.CombinedOutput()
		out := readTree(filepath.Join(root, "out"))
		failed := false
		for k, n := range d.seq {
			name := fmt.Sprintf("%c-%s", 'a'+k, n)
			rec := Parsed{T: ids[n+d.lang], P: i + 1, D: "nothing", Ends: ends[n]}
			if text, ok := out[name+extOf[d.lang]]; ok {
				rec.Out = fmt.Sprintf("%x", sha256.Sum256([]byte(text)))[:20]
				rec.text = text
			} else if failed { // the run ended before
				continue
			} else {
				failed = true
				rec.Out = "nothing"
				rec.Err = "no output"
				if !strings.Contains(string(msg), name) {
					rec.Err = "no output, and no message: " + strconv.QuoteToASCII(string(msg))
				}
			}
			d.recs = append(d.recs, rec)
		}
	})
	var recs []Parsed
	for _, d := range dirs {
		recs = append(recs, d.recs...)
	}
	c.Coverage["directories"] = len(dirs)
	c.judgeHistory(files, dtasks, recs)
}

type ndir struct {
	projects []int
	stems    []int
	own      bool // each project has a directory of its own
	lang     string
	fails    bool // the last one does
	recs     []Parsed
}

var stem = regexp.MustCompile(`f\d\.xsd`)

// place is where file f of the k-th project is.
func (d *ndir) place(k int, f string) string {
	if d.fails && k == len(d.projects)-1 {
		return filepath.Join("z", f)
	}
	if d.own {
		return filepath.Join(string(rune('a'+k)), f)
	}
	dir, base := filepath.Split(f)
	return filepath.Join(dir, string(rune('f'+d.stems[k]))+base[1:])
}

// neighbours are projects whose files, namespaces, prefixes and types have the
// same names and differ in all else.  They share a directory of the command,
// or the processes of a library, and are compared with each file alone.
func (c *Check) neighbours(r *rand.Rand) {
	ps := c.projects([]projectSize{{2, 3, c.N(60, 500)}, {3, 3, c.N(90, 900)}, {4, 2, c.N(50, 600)}})
	tool := filepath.Join(c.S.Dir, "xgen")
	type file struct {
		project int
		path    string
		ids     map[string]int
	}
	var files []*file
	var tasks []Task
	sources := make([]map[string]string, len(ps))
	all := map[string]string{}
	for i, p := range ps {
		sources[i] = p.sources(r)
		for f, s := range sources[i] {
			all[fmt.Sprintf("%d/%s", i, f)] = s
		}
		for k := range p.Files {
			f := &file{i, p.path(k + 1), map[string]int{}}
			for j := 0; j < 2; j++ {
				l := langs[(i+j*2)%5]
				tasks = append(tasks, Task{ID: len(tasks) + 1, File: fmt.Sprintf("%d/%s", i, f.path), Lang: l, Names: []string{}})
				f.ids[l] = len(tasks)
			}
			files = append(files, f)
		}
	}
	record := func(t, p int, text string, ok bool) Parsed {
		rec := Parsed{T: t, P: p, D: "nothing", Err: "no output", Out: "nothing", text: text}
		if ok {
			rec.Err, rec.Out = "", fmt.Sprintf("%x", sha256.Sum256([]byte(text)))[:20]
			check(writeTree(c.S.Sub("texts"), map[string]string{fmt.Sprintf("%d-%s.txt", t, rec.Out): text}))
		}
		return rec
	}
	// Alone.
	recs := make([]Parsed, len(tasks))
	parallel(len(files), func(i int) {
		f := files[i]
		root := c.S.Sub(fmt.Sprintf("n%d", i))
		defer os.RemoveAll(root)
		check(writeTree(filepath.Join(root, "in"), sources[f.project]))
		for l, t := range f.ids {
			cmd := c.S.Command(root, tool, "-i", filepath.Join("in", f.path), "-o", "out-"+l, "-l", l)
			msg, err := cmd.CombinedOutput()
			out, rerr := ioutil.ReadFile(filepath.Join(root, "out-"+l+extOf[l]))
			if rerr != nil && err == nil {
				panic(fmt.Sprintf("%s alone: no output: %s", f.path, msg))
			}
			recs[t-1] = record(t, t, string(out), err == nil)
		}
	})
	for i := range recs {
		tasks[i].Ends = "well"
		if recs[i].Err != "" {
			tasks[i].Ends = "badly"
		}
		recs[i].Ends = tasks[i].Ends
	}
	byLang := map[string][]int{} // projects that end well
	failing := map[string][]int{}
	for i := range ps {
		for j := 0; j < 2; j++ {
			l := langs[(i+j*2)%5]
			well := true
			for _, f := range files {
				if f.project == i {
					well = well && recs[f.ids[l]-1].Err == ""
				}
			}
			if well {
				byLang[l] = append(byLang[l], i)
			} else {
				failing[l] = append(failing[l], i)
			}
		}
	}
	ids := map[string]int{}
	for _, f := range files {
		for l, t := range f.ids {
			ids[fmt.Sprintf("%d/%s/%s", f.project, l, f.path)] = t
		}
	}
	// Together: directories of the command.
	var dirs []*ndir
	for _, l := range langs {
		for i := 0; i < c.N(60, 500); i++ {
			d := &ndir{lang: l, own: i%3 == 0, stems: r.Perm(8)}
			for k := 2 + r.Intn(4); k > 0 && len(byLang[l]) > 0; k-- {
				d.projects = append(d.projects, byLang[l][r.Intn(len(byLang[l]))])
			}
			if len(failing[l]) > 0 && i%8 == 0 { // what fails comes last
				d.projects = append(d.projects, failing[l][r.Intn(len(failing[l]))])
				d.fails = true
			}
			dirs = append(dirs, d)
		}
	}
	parallel(len(dirs), func(i int) {
		d := dirs[i]
		root := c.S.Sub(fmt.Sprintf("m%d", i))
		defer os.RemoveAll(root)
		for k, p := range d.projects {
			in := map[string]string{}
			for f, s := range sources[p] {
				in[d.place(k, f)] = s
				if !d.own && !(d.fails && k == len(d.projects)-1) {
					in[d.place(k, f)] = stem.ReplaceAllStringFunc(s, func(m string) string { return string(rune('f'+d.stems[k])) + m[1:] })
				}
			}
			check(writeTree(filepath.Join(root, "in"), in))
		}
		cmd := c.S.Command(root, tool, "-i", "in", "-o", "out", "-l", d.lang)
		_, _ = cmd.CombinedOutput()
		out := readTree(filepath.Join(root, "out"))
		for k, p := range d.projects {
			paths := sortedKeys(sources[p])
			for _, f := range paths {
				t := ids[fmt.Sprintf("%d/%s/%s", p, d.lang, f)]
				text, ok := out[d.place(k, f)+extOf[d.lang]]
				if !ok && tasks[t-1].Ends == "well" && d.fails && k == len(d.projects)-1 {
					continue // after what failed
				}
				rec := record(t, len(tasks)+1+i, text, ok)
				rec.Ends = tasks[t-1].Ends
				d.recs = append(d.recs, rec)
			}
		}
	})
	for _, d := range dirs {
		recs = append(recs, d.recs...)
	}
	c.Coverage["projects_as_neighbours"] = len(ps)
	c.Coverage["directories_of_projects"] = len(dirs)
	c.judgeHistory(all, tasks, recs)
	if c.Violations > 0 {
		return
	}
	// Together: processes that parse one file after the other, in orders of their own.
	lib := make([][]Parsed, 4)
	orders := make([][]Op, len(lib))
	for i := range orders {
		for _, t := range r.Perm(len(tasks)) {
			orders[i] = append(orders[i], Op{t + 1, "nothing"})
		}
	}
	parallel(len(lib), func(i int) { lib[i] = c.runHistory(1000000+i, all, tasks, orders[i]) })
	recs = nil
	for _, l := range lib {
		recs = append(recs, l...)
	}
	c.judgeHistory(all, tasks, recs)
}

func init() {
	checks["C13"] = checkC13
	checks["C14"] = checkC14
}
