package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"
)

// PathConf is a configuration of spec/XPaths.tla.
type PathConf struct {
	Files []struct {
		Path    []string `json:"path"`
		Imports []int    `json:"imports"`
	} `json:"files"`
	In     []string `json:"in"`
	Abs    bool     `json:"abs"`
	Out    []string `json:"out"`
	Lang   string   `json:"lang"`
	Before string   `json:"before"`
}

type outFile struct {
	Path []string `json:"path"`
	Who  []int    `json:"who"`
}

type pathRec struct {
	Conf    PathConf  `json:"conf"`
	Outs    []outFile `json:"outs"`
	Kept    bool      `json:"kept"`
	Success bool      `json:"success"`
	msg     string
}

// runTool runs the command with a limit of time.
func (c *Check) runTool(dir, tool string, args ...string) (stdout, stderr string, status int) {
	cmd := c.S.Command(dir, tool, args...)
	var o, e strings.Builder
	cmd.Stdout, cmd.Stderr = &o, &e
	check(cmd.Start())
	timer := time.AfterFunc(30*time.Second, func() { cmd.Process.Kill() })
	cmd.Wait()
	timer.Stop()
	return o.String(), e.String(), cmd.ProcessState.ExitCode()
}

// relPath is how a file refers to another one.
func relPath(from, to []string) string {
	r, err := filepath.Rel("/"+strings.Join(from[:len(from)-1], "/"), "/"+strings.Join(to, "/"))
	check(err)
	return r
}

// whoDeclares are the numbers of the types T1, T2, ... a file declares.
func whoDeclares(lang, src string) []int {
	who := []int{}
	for _, d := range Observe(lang, src).Decls {
		m := regexp.MustCompile(`^T(\d+)$`).FindStringSubmatch(d.ID)
		if m == nil {
			who = append(who, 0)
			continue
		}
		n, _ := strconv.Atoi(m[1])
		who = append(who, n)
	}
	return who
}

func (c *Check) runPaths(i int, tool string, p PathConf) pathRec {
	root := c.S.Sub(fmt.Sprintf("p%d", i))
	defer os.RemoveAll(root)
	files := map[string]string{}
	for k, f := range p.Files {
		ns, body := "", ""
		imports := ""
		for _, j := range f.Imports {
			ns += fmt.Sprintf(` xmlns:p%d="urn:f%d"`, j, j)
			imports += fmt.Sprintf(`<xs:import namespace="urn:f%d" schemaLocation="%s"/>`, j, relPath(f.Path, p.Files[j-1].Path))
			body += fmt.Sprintf(`<xs:element name="e%d" type="p%d:T%d"/>`, j, j, j)
		}
		files[strings.Join(f.Path, "/")] = fmt.Sprintf(`<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:f%d"%s>%s<xs:complexType name="T%d"><xs:sequence>%s<xs:element name="v" type="xs:int"/></xs:sequence></xs:complexType></xs:schema>`, k+1, ns, imports, k+1, body)
	}
	check(writeTree(root, files))
	cwd := filepath.Join(root, "r", "w")
	for _, d := range []string{"in/sub", "in/in", "inn", "../ext"} {
		check(os.MkdirAll(filepath.Join(cwd, d), 0755))
	}
	arg := func(segs []string) string {
		s := strings.Join(segs, "/")
		if p.Abs {
			return root + "/" + s
		}
		if s == "" {
			return "."
		}
		return s
	}
	if p.Before == "dir" {
		d := arg(p.Out)
		if !p.Abs {
			d = filepath.Join(cwd, d)
		}
		check(os.MkdirAll(d, 0755))
	}
	c.own(root)
	before := readTree(root)
	out, msg, status := c.runTool(cwd, tool, "-i", arg(p.In), "-o", arg(p.Out), "-l", p.Lang)
	if p.Before == "stale" {
		out, msg, status = c.runTool(cwd, tool, "-i", arg(p.In), "-o", arg(p.Out), "-l", p.Lang)
	}
	r := pathRec{Conf: p, Outs: []outFile{}, Kept: true, Success: status == 0 && strings.Contains(out, "done"), msg: out + msg}
	after := readTree(root)
	for f, s := range before {
		if t, ok := after[f]; !ok || s != t {
			r.Kept = false
		}
	}
	for f, s := range after {
		if _, ok := before[f]; !ok {
			r.Outs = append(r.Outs, outFile{strings.Split(f, "/"), whoDeclares(p.Lang, s)})
		}
	}
	return r
}

// own gives a tree to the unprivileged user.
func (c *Check) own(root string) {
	if c.S.uid == 0 {
		return
	}
	check(filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		check(err)
		return os.Lchown(p, c.S.uid, c.S.uid)
	}))
}

func checkC17(c *Check) {
	tool := c.buildTool()
	var confs []PathConf
	seen := map[string]bool{}
	for _, size := range []int{2, 5} {
		t := &TLC{Module: "XPaths", Env: map[string]string{"XV_FILES": strconv.Itoa(size)}, Workers: 1,
			Config: "SPECIFICATION Spec\nINVARIANT Inside\nINVARIANT InputsKept\nINVARIANT AtTheEnd\nINVARIANT Told\nCHECK_DEADLOCK FALSE\n",
			Args:   []string{"-simulate", fmt.Sprintf("num=%d", c.N(1500, 15000)), "-seed", fmt.Sprint(c.Seed), "-depth", "100"}}
		t.Each = func(l string) bool {
			if !strings.HasPrefix(l, "XV-PATHS ") || seen[l] {
				return strings.HasPrefix(l, "XV-PATHS ")
			}
			seen[l] = true
			var p PathConf
			check(json.Unmarshal([]byte(strings.TrimPrefix(l, "XV-PATHS ")), &p))
			confs = append(confs, p)
			return true
		}
		c.TLC(t)
		if t.Violated != "" {
			panic("the model is wrong: " + t.Violated + t.Trace)
		}
	}
	recs := make([]pathRec, len(confs))
	parallel(len(confs), func(i int) { recs[i] = c.runPaths(i, tool, confs[i]) })
	c.Coverage["trees_and_arguments"] = len(recs)
	for i := 0; i < 3; i++ {
		c.sample(recs[i*len(recs)/3])
	}
	for start := 0; start < len(recs); start += 4000 {
		part := recs[start:]
		if len(part) > 4000 {
			part = part[:4000]
		}
		c.Traces += len(part)
		path := filepath.Join(c.S.Dir, "paths.ndjson")
		writeNDJSON(path, len(part), func(i int) interface{} { return part[i] })
		t := &TLC{Module: "XPathsTrace", Env: map[string]string{"XV_FILES": "1", "XV_RECS": path}, Workers: 1,
			Config: "SPECIFICATION TraceSpec\nINVARIANT Conforms\nALIAS Expected\nCHECK_DEADLOCK FALSE\n"}
		c.TLC(t)
		if t.Violated == "" {
			continue
		}
		n, _ := strconv.Atoi(regexp.MustCompile(`rec = (\d+)`).FindStringSubmatch(t.LastState())[1])
		r := part[n-1]
		b, _ := json.MarshalIndent(r, "", " ")
		c.Violation(fmt.Sprintf("a run with input %v and output %v (absolute: %v) in %s writes other files than it should: %s\n%s", r.Conf.In, r.Conf.Out, r.Conf.Abs, r.Conf.Lang, t.LastState(), r.msg),
			map[string]string{"record.json": string(b), "message.txt": r.msg, "tlc.txt": t.LastState()})
		return
	}
}

// CliConf is an invocation of spec/XCli.tla.
type CliConf struct {
	H     bool     `json:"h"`
	V     bool     `json:"v"`
	I     string   `json:"i"`
	L     string   `json:"l"`
	O     string   `json:"o"`
	P     string   `json:"p"`
	Files []string `json:"files"`
}

type cliRec struct {
	Conf    CliConf         `json:"conf"`
	Status  int             `json:"status"`
	Says    [][]interface{} `json:"says"`
	Written []int           `json:"written"`
	Extra   bool            `json:"extra"`
	msg     string
	args    []string
}

func cliSchema(k int, fate string) string {
	s := fmt.Sprintf(`<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:p="urn:p" targetNamespace="urn:f%d"><xs:complexType name="T%d"><xs:sequence><xs:element name="v" type="xs:int"/></xs:sequence></xs:complexType></xs:schema>`, k, k)
	switch fate {
	case "malformed":
		s = strings.Replace(s, "</xs:sequence>", "", 1)
	case "bounds":
		s = strings.Replace(s, `name="v"`, `name="v" maxOccurs="x"`, 1)
	case "noimport", "badimport":
		location := "missing.xsd"
		if fate == "badimport" {
			location = "../malformed.xsd"
		}
		s = strings.Replace(s, `<xs:complexType`, `<xs:import namespace="urn:p" schemaLocation="`+location+`"/><xs:complexType`, 1)
		s = strings.Replace(s, `xs:int`, `p:Type`, 1)
	}
	return s
}

func (c *Check) runCli(i int, tool string, conf CliConf, want map[string]string) cliRec {
	root := c.S.Sub(fmt.Sprintf("p%d", i))
	defer os.RemoveAll(root)
	ext := extOf[conf.L]
	base := "xgen_out"
	if conf.O == "given" {
		base = "result"
	}
	names := make([]string, len(conf.Files))
	outs := make([]string, len(conf.Files))
	files := map[string]string{}
	for k, fate := range conf.Files {
		names[k] = fmt.Sprintf("f%d.xsd", k+1)
		if fate == "nodir" && conf.I == "dir" {
			names[k] = fmt.Sprintf("sub%d/f%d.xsd", k+1, k+1)
		}
		outs[k] = filepath.Join(base, names[k]) + ext
		if conf.I == "file" {
			outs[k] = base + ext
			if fate == "nodir" && conf.O == "given" {
				base = "resdir/result"
				outs[k] = base + ext
			}
		}
		if fate != "dangling" {
			files[filepath.Join("schemas", names[k])] = cliSchema(k+1, fate)
		}
	}
	files["malformed.xsd"] = `<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:p"><xs:simpleType name="Type"><xs:restriction base="xs:int"/></xs:schema>`
	check(writeTree(root, files))
	check(os.MkdirAll(filepath.Join(root, "schemas"), 0755))
	for k, fate := range conf.Files {
		out := filepath.Join(root, outs[k])
		file := filepath.Join(root, "schemas", names[k])
		switch fate {
		case "noread":
			check(os.Chmod(file, 0))
		case "dangling":
			check(os.Symlink("nothing-there", file))
		case "nowrite":
			check(os.MkdirAll(out, 0755))
		case "full":
			check(os.MkdirAll(filepath.Dir(out), 0755))
			check(os.Symlink("/dev/full", out))
		case "nodir":
			if d := filepath.Dir(out); d == root {
				check(os.MkdirAll(out, 0755))
			} else {
				check(os.MkdirAll(filepath.Dir(d), 0755))
				check(ioutil.WriteFile(d, []byte("in the way"), 0644))
			}
		}
	}
	c.own(root)
	before := readTree(root)
	args := []string{}
	if conf.H {
		args = append(args, "-h")
	}
	if conf.V {
		args = append(args, "-v")
	}
	switch conf.I {
	case "empty":
		args = append(args, "-i", "")
	case "nowhere":
		args = append(args, "-i", "nowhere")
	case "file":
		args = append(args, "-i", "schemas/"+names[0])
	case "dir":
		args = append(args, "-i", "schemas")
	}
	switch conf.L {
	case "absent":
	case "empty":
		args = append(args, "-l", "")
	default:
		args = append(args, "-l", conf.L)
	}
	if conf.O == "given" {
		args = append(args, "-o", base)
	}
	pkg := "schema"
	if conf.P == "given" {
		pkg = "other"
		args = append(args, "-p", pkg)
	}
	out, msg, status := c.runTool(root, tool, args...)
	r := cliRec{Conf: conf, Status: status, Says: [][]interface{}{}, Written: []int{}, msg: out + msg, args: args}
	say := func(ok bool, what ...interface{}) {
		if ok {
			r.Says = append(r.Says, what)
		}
	}
	all := out + msg
	low := strings.ToLower(all)
	done := false
	for _, l := range strings.Split(out, "\n") {
		done = done || strings.TrimSpace(l) == "done"
	}
	say(done, "done")
	if conf.H || conf.V {
		say(strings.Contains(low, "usage"), "help")
		say(!strings.Contains(low, "usage") && regexp.MustCompile(`version:? *\d`).MatchString(low), "version")
	} else {
		say(strings.Contains(low, "input"), "input")
		say(strings.Contains(low, "language"), "language")
		if conf.L != "absent" && conf.L != "empty" {
			say(strings.Contains(all, conf.L), "unsupported", conf.L)
		}
		say(strings.Contains(all, "nowhere"), "nowhere")
		for k, n := range names {
			say(strings.Contains(all, filepath.Base(n)), "file", k+1)
		}
	}
	after := readTree(root)
	for k := range names {
		if after[outs[k]] != "" && after[outs[k]] == want[fmt.Sprintf("%s %s %d", conf.L, pkg, k+1)] {
			r.Written = append(r.Written, k+1)
		}
	}
	r.Extra = len(after) != len(before)
	if _, err := os.Stat(filepath.Join(root, base)); err == nil && !r.Extra {
		fi, err := ioutil.ReadDir(filepath.Join(root, base))
		r.Extra = err != nil || len(fi) > 0 || conf.Files == nil
	}
	return r
}

func checkC18(c *Check) {
	tool := c.buildTool()
	files := c.N(2, 4)
	var confs []CliConf
	t := &TLC{Module: "XCli", Env: map[string]string{"XV_FILES": strconv.Itoa(files), "XV_DEEP": []string{"no", "yes"}[c.N(0, 1)]},
		Config: "SPECIFICATION Spec\nINVARIANT Truthful\nINVARIANT Told\nCHECK_DEADLOCK FALSE\n"}
	t.Each = func(l string) bool {
		if !strings.HasPrefix(l, "XV-CLI ") {
			return false
		}
		var p CliConf
		check(json.Unmarshal([]byte(strings.TrimPrefix(l, "XV-CLI ")), &p))
		confs = append(confs, p)
		return true
	}
	c.TLC(t)
	if t.Violated != "" {
		panic("the model is wrong: " + t.Violated + t.Trace)
	}
	if !c.Thorough() { // some longer sequences
		r := rand.New(rand.NewSource(c.Seed))
		fates := []string{"well", "well", "well", "malformed", "bounds", "noimport", "badimport", "noread", "dangling", "nowrite", "full", "nodir"}
		for i := 0; i < 400; i++ {
			p := CliConf{I: "dir", L: langs[r.Intn(5)], O: []string{"absent", "given"}[r.Intn(2)], P: []string{"absent", "given"}[r.Intn(2)]}
			for k := 3 + r.Intn(4); k > 0; k-- {
				p.Files = append(p.Files, fates[r.Intn(len(fates))])
			}
			confs = append(confs, p)
		}
	}
	// What the output of a file should be.
	want := map[string]string{}
	var jobs []Job
	const most = 7
	for k := 1; k <= most; k++ {
		j := Job{ID: k, Files: map[string]string{"f.xsd": cliSchema(k, "well")}}
		for _, l := range langs {
			for _, p := range []string{"schema", "other"} {
				j.Runs = append(j.Runs, Run{Lang: l, Pkg: p, File: "f.xsd"})
			}
		}
		jobs = append(jobs, j)
	}
	results := c.S.RunJobs(jobs)
	for _, j := range jobs {
		for i, r := range j.Runs {
			res := results[j.ID][i]
			if res.Err != "" {
				panic("the library fails on a simple schema: " + res.Err)
			}
			want[fmt.Sprintf("%s %s %d", r.Lang, r.Pkg, j.ID)] = res.Out["f.xsd"+extOf[r.Lang]]
		}
	}
	recs := make([]cliRec, len(confs))
	parallel(len(confs), func(i int) { recs[i] = c.runCli(i, tool, confs[i], want) })
	c.Coverage["invocations"] = len(recs)
	for i := 0; i < 5; i++ {
		c.sample(recs[i*len(recs)/5])
	}
	for start := 0; start < len(recs); start += 10000 {
		part := recs[start:]
		if len(part) > 10000 {
			part = part[:10000]
		}
		c.Traces += len(part)
		path := filepath.Join(c.S.Dir, "cli.ndjson")
		writeNDJSON(path, len(part), func(i int) interface{} { return part[i] })
		t := &TLC{Module: "XCliTrace", Env: map[string]string{"XV_FILES": "0", "XV_DEEP": "no", "XV_RECS": path}, Workers: 1,
			Config: "SPECIFICATION TraceSpec\nINVARIANT Conforms\nALIAS Observed\nCHECK_DEADLOCK FALSE\n"}
		c.TLC(t)
		if t.Violated == "" {
			continue
		}
		n, _ := strconv.Atoi(regexp.MustCompile(`rec = (\d+)`).FindStringSubmatch(t.LastState())[1])
		r := part[n-1]
		b, _ := json.MarshalIndent(r, "", " ")
		c.Violation(fmt.Sprintf("xgen %q on files %v ends with status %d, says %q, has written %v", r.args, r.Conf.Files, r.Status, r.msg, r.Written),
			map[string]string{"record.json": string(b), "message.txt": r.msg, "tlc.txt": t.LastState()})
		return
	}
}

func init() {
	checks["C17"] = checkC17
	checks["C18"] = checkC18
}
