package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/xuri/xgen"
)

// PTask is what a parser does, see spec/XConcurrent.tla.
type PTask struct {
	ID     int               `json:"id"`
	File   string            `json:"file"`
	Lang   string            `json:"lang"`
	Names  []string          `json:"names"`
	Pieces int               `json:"pieces"`
	Ends   string            `json:"ends"` // well, reading, writing
	Alone  string            `json:"alone"`
	Texts  []string          `json:"-"`
	Aux    map[string]string `json:"-"`
}

// PEvent is an event of a group of parsers.
type PEvent struct {
	Op  string `json:"op"`
	P   int    `json:"p"`
	Res string `json:"res"`
}

// Group are parsers that run together.
type Group struct {
	Ts   []int    `json:"ts"`
	N    int      `json:"n"` // pieces
	Free bool     `json:"free"`
	Evs  []PEvent `json:"evs"`
}

type cplan struct {
	Tasks  []PTask
	Texts  [][]string
	Aux    []map[string]string
	Groups []Group // Evs are the schedule
	Log    string
	Keep   string // directory for results in full
}

// concurrent runs groups of parsers in this process.
func concurrent(file string) {
	b, err := ioutil.ReadFile(file)
	check(err)
	var p cplan
	check(json.Unmarshal(b, &p))
	log, err := os.Create(p.Log)
	check(err)
	enc := json.NewEncoder(log)
	seen := map[string]bool{}
	for n, g := range p.Groups {
		r, full := runGroup(&p, g, n)
		for q, f := range full {
			t := g.Ts[q]
			k := fmt.Sprint(t, f)
			if !seen[k] {
				seen[k] = true
				ioutil.WriteFile(filepath.Join(p.Keep, fmt.Sprintf("%d-%s.txt", t, shortHash(f))), []byte(f), 0644)
			}
		}
		check(enc.Encode(r))
		for _, e := range r.Evs {
			if e.Op == "stuck" {
				os.Exit(8)
			}
		}
	}
	check(log.Close())
}

func runGroup(p *cplan, g Group, n int) (Group, []string) {
	k := len(g.Ts)
	root, _ := filepath.Abs(fmt.Sprintf("g%d", n))
	defer os.RemoveAll(root)
	rec := Group{Ts: g.Ts, N: g.N, Free: g.Free, Evs: []PEvent{}}
	full := make([]string, k)
	res := make([]string, k)
	done := make([]chan bool, k)
	finished := make([]int32, k)
	var mu sync.Mutex
	opts := make([]*xgen.Options, k)
	pipes := make([]*os.File, k)
	fds := make([]int, k)
	for q, ti := range g.Ts {
		t := p.Tasks[ti-1]
		dir := filepath.Join(root, strconv.Itoa(q))
		aux := map[string]string{}
		for f, s := range p.Aux[ti-1] {
			aux[filepath.Join("in", f)] = s
		}
		check(os.MkdirAll(filepath.Join(dir, "in"), 0755))
		check(writeTree(dir, aux))
		path := filepath.Join(dir, "in", t.File)
		if t.Ends == "writing" {
			check(os.MkdirAll(filepath.Join(dir, "out", t.File+extOf[t.Lang]), 0755))
		}
		if g.Free {
			check(ioutil.WriteFile(path, []byte(strings.Join(p.Texts[ti-1], "")), 0644))
		} else {
			check(syscall.Mkfifo(path, 0644))
			fd, err := syscall.Open(path, syscall.O_RDWR, 0)
			check(err)
			fds[q] = fd
			pipes[q] = os.NewFile(uintptr(fd), path)
		}
		opts[q] = newOptions(path, filepath.Join(dir, "in"), filepath.Join(dir, "out"), t.Lang, "")
		done[q] = make(chan bool)
	}
	start := make(chan bool)
	for q := range g.Ts {
		go func(q int) {
			<-start
			err := parseGuarded(opts[q])
			dir := filepath.Join(root, strconv.Itoa(q))
			tree, _ := json.Marshal(treeOf(opts[q].ProtoTree))
			out := ""
			for _, f := range sortedKeys(readTree(filepath.Join(dir, "out"))) {
				out += "file " + f + "\n" + readTree(filepath.Join(dir, "out"))[f] + "\n"
			}
			f := fmt.Sprintf("error %s\ntree %s\n%s", strings.Replace(err, dir, "", -1), tree, out)
			mu.Lock()
			full[q], res[q] = f, shortHash(f)
			finished[q] = 1
			mu.Unlock()
			close(done[q])
		}(q)
	}
	stuck := func(q int) (Group, []string) {
		rec.Evs = append(rec.Evs, PEvent{Op: "stuck", P: q + 1})
		return rec, nil
	}
	wait := func(q int) bool {
		select {
		case <-done[q]:
			return true
		case <-time.After(30 * time.Second):
			return false
		}
	}
	close(start)
	if g.Free {
		for q := range g.Ts {
			rec.Evs = append(rec.Evs, PEvent{Op: "close", P: q + 1})
		}
		for q := range g.Ts {
			if !wait(q) {
				return stuck(q)
			}
			rec.Evs = append(rec.Evs, PEvent{"end", q + 1, res[q]})
		}
		return rec, full
	}
	drain := func(q int) { // until the parser has read what is in its pipe
		for i := 0; i < 500000; i++ {
			mu.Lock()
			over := finished[q] == 1
			mu.Unlock()
			if over || pending(fds[q]) == 0 {
				break
			}
			time.Sleep(20 * time.Microsecond)
		}
	}
	fed := make([]int, k)
	for _, e := range g.Evs {
		q := e.P - 1
		switch e.Op {
		case "feed":
			ts := p.Texts[g.Ts[q]-1]
			s := strings.Join(ts[fed[q]*len(ts)/g.N:(fed[q]+1)*len(ts)/g.N], "")
			fed[q]++
			// The pipe holds any piece, nothing blocks here.
			_, err := syscall.Write(fds[q], []byte(s))
			check(err)
			drain(q)
			time.Sleep(30 * time.Microsecond)
			rec.Evs = append(rec.Evs, PEvent{Op: "feed", P: e.P})
		case "close":
			if g.N == 0 {
				syscall.Write(fds[q], []byte(strings.Join(p.Texts[g.Ts[q]-1], "")))
				drain(q)
			}
			pipes[q].Close()
			rec.Evs = append(rec.Evs, PEvent{Op: "close", P: e.P})
		case "end":
			if !wait(q) {
				return stuck(q)
			}
			mu.Lock()
			rec.Evs = append(rec.Evs, PEvent{"end", e.P, res[q]})
			mu.Unlock()
		}
	}
	return rec, full
}

// pending is the number of bytes in a pipe.
func pending(fd int) int {
	var n int32
	syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), 0x541B, uintptr(unsafe.Pointer(&n)))
	return int(n)
}

// pieces cuts a text at tags into n parts.
func pieces(s string, n int, r *rand.Rand) []string {
	at := regexp.MustCompile(`<`).FindAllStringIndex(s, -1)
	var cuts []int
	for i := 1; i < n; i++ {
		cuts = append(cuts, at[r.Intn(len(at))][0])
	}
	cuts = append(cuts, len(s))
	for i := range cuts {
		for j := range cuts[:i] {
			if cuts[j] > cuts[i] {
				cuts[i], cuts[j] = cuts[j], cuts[i]
			}
		}
	}
	var out []string
	last := 0
	for _, c := range cuts {
		out = append(out, s[last:c])
		last = c
	}
	return out
}

// ptasks are what the parsers do.
func (c *Check) ptasks(n int, r *rand.Rand) []PTask {
	files, tasks := c.historyFiles()
	var out []PTask
	for _, t := range tasks {
		p := PTask{ID: len(out) + 1, File: t.File, Lang: t.Lang, Names: t.Names, Pieces: n, Ends: "well", Aux: map[string]string{}}
		if t.Ends != "well" {
			p.Ends = "reading"
		}
		if t.File == "same.xsd" && (t.Lang == "Go" || t.Lang == "Rust") || t.File == "union.xsd" && t.Lang == "C" || t.File == "clash.xsd" && (t.Lang == "Java" || t.Lang == "TypeScript") {
			p.Ends = "writing"
		}
		for f, s := range files {
			if strings.HasPrefix(f, "part") || f == "o.xsd" {
				p.Aux[f] = s
			}
		}
		p.Texts = pieces(files[t.File], n, r)
		out = append(out, p)
	}
	return out
}

// runGroups runs groups in a process of their own.
func (c *Check) runGroups(id string, exe string, tasks []PTask, groups []Group) ([]Group, string) {
	dir := c.S.Sub("c" + id)
	defer os.RemoveAll(dir)
	pl := cplan{Tasks: tasks, Groups: groups, Log: filepath.Join(dir, "log"), Keep: c.S.Sub("texts")}
	for _, t := range tasks {
		pl.Texts = append(pl.Texts, t.Texts)
		pl.Aux = append(pl.Aux, t.Aux)
	}
	b, err := json.Marshal(pl)
	check(err)
	check(ioutil.WriteFile(filepath.Join(dir, "plan"), b, 0644))
	cmd := c.S.Command(dir, exe, "concurrent", "plan")
	cmd.Env = append(cmd.Env, "GORACE=halt_on_error=1 exitcode=66")
	msg, rerr := cmd.CombinedOutput()
	var recs []Group
	if lb, err := ioutil.ReadFile(pl.Log); err == nil {
		dec := json.NewDecoder(bytes.NewReader(lb))
		for {
			var g Group
			if dec.Decode(&g) != nil {
				break
			}
			recs = append(recs, g)
		}
	}
	if len(recs) < len(groups) {
		g := groups[len(recs)]
		what := "ended"
		if strings.Contains(string(msg), "DATA RACE") {
			what = "race"
		}
		m := string(msg)
		if len(m) > 6000 {
			m = m[:6000]
		}
		stuck := len(recs) > 0 && len(recs[len(recs)-1].Evs) > 0 && recs[len(recs)-1].Evs[len(recs[len(recs)-1].Evs)-1].Op == "stuck"
		if !stuck {
			recs = append(recs, Group{Ts: g.Ts, N: g.N, Free: g.Free, Evs: []PEvent{{Op: what, P: 1}}})
			return recs, fmt.Sprintf("%v\n%s", rerr, m)
		}
		return recs, m
	}
	return recs, ""
}

func writeNDJSON(path string, n int, f func(i int) interface{}) {
	w, err := os.Create(path)
	check(err)
	defer w.Close()
	enc := json.NewEncoder(w)
	for i := 0; i < n; i++ {
		check(enc.Encode(f(i)))
	}
}

// modelConcurrent checks the model itself, with and without the lock.
func (c *Check) modelConcurrent() {
	path := filepath.Join(c.S.Dir, "ptasks.ndjson")
	ts := []PTask{{Names: []string{"A", "B", "A"}, Pieces: 1, Ends: "well"}, {Names: []string{"A", "A"}, Pieces: 1, Ends: "writing"},
		{Names: []string{"B", "A2", "A"}, Pieces: 1, Ends: "well"}}
	if c.Thorough() {
		ts = append(ts, PTask{Names: []string{"A2", "A"}, Pieces: 1, Ends: "reading"})
	}
	writeNDJSON(path, len(ts), func(i int) interface{} { return ts[i] })
	for _, m := range []struct{ lock, prop, want string }{
		{"lock", "INVARIANT Alone\nINVARIANT NoRace\nPROPERTY AllEnd\n", ""},
		{"nolock", "INVARIANT Alone\n", "Alone"},
		{"nolock", "INVARIANT NoRace\n", "NoRace"},
		{"leak", "PROPERTY AllEnd\n", "temporal"}} {
		t := &TLC{Module: "XConcurrent", Env: map[string]string{"XV_TASKS": path, "XV_LOCK": m.lock, "XV_SCHEDULES": "no"},
			Config: "SPECIFICATION Spec\n" + m.prop + "CHECK_DEADLOCK FALSE\n"}
		c.TLC(t)
		if t.Violated != m.want && !(m.want == "temporal" && t.Violated != "") {
			panic(fmt.Sprintf("the model with %q: expected %q to be violated, got %q", m.lock, m.want, t.Violated))
		}
	}
	c.Coverage["models"] = "with the lock all three properties hold; without it Alone and NoRace don't, with a leak AllEnd doesn't"
}

// schedules lets TLC enumerate the schedules of parsers with n pieces.
func (c *Check) schedules(parsers, n int) [][]PEvent {
	path := filepath.Join(c.S.Dir, "ptasks.ndjson")
	writeNDJSON(path, parsers, func(i int) interface{} { return PTask{Names: []string{}, Pieces: n, Ends: "well"} })
	var out [][]PEvent
	t := &TLC{Module: "XConcurrent", Env: map[string]string{"XV_TASKS": path, "XV_LOCK": "lock", "XV_SCHEDULES": "yes"},
		Config: "SPECIFICATION Spec\nINVARIANT Told\nCHECK_DEADLOCK FALSE\n", Workers: 1}
	t.Each = func(l string) bool {
		if !strings.HasPrefix(l, "XV-SCHED ") {
			return false
		}
		var evs []PEvent
		check(json.Unmarshal([]byte(strings.TrimPrefix(l, "XV-SCHED ")), &evs))
		out = append(out, evs)
		return true
	}
	c.TLC(t)
	if t.Violated != "" {
		panic("the model is wrong: " + t.Violated)
	}
	return out
}

func checkC15(c *Check) {
	r := rand.New(rand.NewSource(c.Seed))
	c.modelConcurrent()
	race := filepath.Join(c.S.Dir, "xv-race")
	cmd := exec.Command("go", "build", "-race", "-o", race, ".")
	cmd.Dir = filepath.Join(verifDir, "harness")
	cmd.Env = append(os.Environ(), "CGO_ENABLED=1")
	if out, err := cmd.CombinedOutput(); err != nil {
		panic(fmt.Sprintf("the harness doesn't build with the race detector: %v\n%s", err, out))
	}
	const width = 12
	tasks := c.ptasks(width, r)
	// Alone.
	parallel(len(tasks), func(i int) {
		recs, msg := c.runGroups(fmt.Sprintf("alone%d", i), c.S.exe, tasks, []Group{{Ts: []int{i + 1}, Free: true}})
		g := recs[0]
		e := g.Evs[len(g.Evs)-1]
		tasks[i].Alone = e.Op + e.Res
		if e.Op == "end" {
			tasks[i].Alone = e.Res
		} else {
			panic(fmt.Sprintf("%s in %s alone: %s %s", tasks[i].File, tasks[i].Lang, e.Op, msg))
		}
	})
	// The schedules, each with other tasks.
	var groups []Group
	perm := []int{}
	next := func() int {
		if len(perm) == 0 {
			perm = r.Perm(len(tasks))
		}
		t := perm[0]
		perm = perm[1:]
		return t + 1
	}
	addAll := func(parsers, n, most int) {
		ss := c.schedules(parsers, n)
		c.Coverage[fmt.Sprintf("schedules_of_%d_parsers_with_%d_pieces", parsers, n)] = len(ss)
		if len(ss) > most {
			r.Shuffle(len(ss), func(i, j int) { ss[i], ss[j] = ss[j], ss[i] })
			ss = ss[:most]
			c.Coverage[fmt.Sprintf("of_these_run_%d_%d", parsers, n)] = most
		}
		for _, s := range ss {
			g := Group{N: n, Evs: s}
			for p := 0; p < parsers; p++ {
				g.Ts = append(g.Ts, next())
			}
			groups = append(groups, g)
		}
	}
	addAll(2, 4, 1000)
	addAll(3, 1, 1700)
	addAll(4, 0, c.N(1500, 2600))
	if c.Thorough() {
		addAll(2, 6, 13000)
		addAll(3, 2, 35000)
	}
	for i := 0; i < c.N(150, 3000); i++ {
		g := Group{Free: true}
		for k := 2 + r.Intn(14); k > 0; k-- {
			g.Ts = append(g.Ts, next())
		}
		groups = append(groups, g)
	}
	r.Shuffle(len(groups), func(i, j int) { groups[i], groups[j] = groups[j], groups[i] })
	n := 6
	parts := make([][]Group, n)
	for i, g := range groups {
		parts[i%n] = append(parts[i%n], g)
	}
	all := make([][]Group, n)
	msgs := make([]string, n)
	parallel(n, func(i int) { all[i], msgs[i] = c.runGroups(fmt.Sprintf("race%d", i), race, tasks, parts[i]) })
	var recs []Group
	var msg string
	for i := range all {
		recs = append(recs, all[i]...)
		if msgs[i] != "" && msg == "" {
			msg = msgs[i]
		}
	}
	// Processes whose very first parsers run at the same time.
	fresh := c.N(60, 400)
	firsts := make([]Group, fresh)
	for i := range firsts {
		firsts[i].Free = true
		for k := 2 + i%9; k > 0; k-- {
			firsts[i].Ts = append(firsts[i].Ts, next())
		}
	}
	fall := make([][]Group, fresh)
	fmsgs := make([]string, fresh)
	parallel(fresh, func(i int) { fall[i], fmsgs[i] = c.runGroups(fmt.Sprintf("first%d", i), race, tasks, firsts[i:i+1]) })
	for i := range fall {
		recs = append(recs, fall[i]...)
		if fmsgs[i] != "" && msg == "" {
			msg = fmsgs[i]
		}
	}
	c.Coverage["processes_that_begin_with_concurrent_parsers"] = fresh
	if os.Getenv("XV_DEBUG") != "" {
		fmt.Println("groups", len(groups), "records", len(recs), msgs)
	}
	c.Coverage["groups_of_parsers"] = len(recs)
	for i := 0; i < 3; i++ {
		c.sample(recs[i*len(recs)/3])
	}
	c.judgeConcurrent(tasks, recs, msg)
}

func (c *Check) judgeConcurrent(tasks []PTask, recs []Group, msg string) {
	tp, rp := filepath.Join(c.S.Dir, "ptasks.ndjson"), filepath.Join(c.S.Dir, "groups.ndjson")
	writeNDJSON(tp, len(tasks), func(i int) interface{} { return tasks[i] })
	for len(recs) > 0 {
		part := recs
		if len(part) > 4000 {
			part = part[:4000]
		}
		recs = recs[len(part):]
		c.Traces += len(part)
		writeNDJSON(rp, len(part), func(i int) interface{} { return part[i] })
		t := &TLC{Module: "XConcurrentTrace", Env: map[string]string{"XV_TASKS": tp, "XV_RECS": rp}, Workers: 1,
			Config: "SPECIFICATION Spec\nINVARIANT Conforms\nCHECK_DEADLOCK FALSE\n"}
		c.TLC(t)
		if t.Violated == "" {
			continue
		}
		m := regexp.MustCompile(`rec = (\d+)`).FindStringSubmatch(t.LastState())
		e := regexp.MustCompile(`ev = (\d+)`).FindStringSubmatch(t.LastState())
		n, _ := strconv.Atoi(m[1])
		k, _ := strconv.Atoi(e[1])
		g := part[n-1]
		replay := map[string]string{"tlc.txt": t.LastState(), "message.txt": msg}
		b, _ := json.MarshalIndent(g, "", " ")
		replay["group.json"] = string(b)
		what := "parsers that run at the same time:"
		for p, ti := range g.Ts {
			t := tasks[ti-1]
			what += fmt.Sprintf(" %s in %s;", t.File, t.Lang)
			replay[fmt.Sprintf("%d-%s", p+1, t.File)] = strings.Join(t.Texts, "")
			for f, s := range t.Aux {
				replay["aux/"+f] = s
			}
		}
		if k > 0 && k <= len(g.Evs) {
			ev := g.Evs[k-1]
			what += fmt.Sprintf(" event %d: %s %d", k, ev.Op, ev.P)
			if ev.Op == "end" {
				ti := g.Ts[ev.P-1]
				what += ": another result than alone"
				for _, h := range []string{tasks[ti-1].Alone, ev.Res} {
					b, _ := ioutil.ReadFile(filepath.Join(c.S.Dir, "texts", fmt.Sprintf("%d-%s.txt", ti, h)))
					replay[fmt.Sprintf("result-%s.txt", h)] = string(b)
				}
			}
		}
		c.Violation(what+"\n"+msg, replay)
		return
	}
}

func init() { checks["C15"] = checkC15 }

func shortHash(s string) string { return fmt.Sprintf("%x", sha256.Sum256([]byte(s)))[:16] }

func sortedKeys(m map[string]string) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}
