package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/xuri/xgen"
)

var langs = []string{"Go", "TypeScript", "C", "Java", "Rust"}
var extOf = map[string]string{"Go": ".go", "TypeScript": ".ts", "C": ".h", "Java": ".java", "Rust": ".rs"}

// Job is a set of files and the parses to run on them, in order.
type Job struct {
	ID    int               `json:"id"`
	Files map[string]string `json:"files"` // below in/
	Raw   map[string][]byte `json:"raw"`   // the same, for what is no UTF-8
	Runs  []Run             `json:"runs"`
	Keep  bool              `json:"keep"` // the directory is kept from run to run
}

// Run is one parse.
type Run struct {
	Lang  string `json:"lang"`
	Pkg   string `json:"pkg"`
	File  string `json:"file"` // FilePath, below in/
	Input string `json:"input"`
	Tree  bool   `json:"tree"`
	// Extract has the parser leave a tree and write nothing.
	Extract bool `json:"extract"`
}

// Result is what a Run did.
type Result struct {
	ID   int               `json:"id"`
	Run  int               `json:"run"`
	Err  string            `json:"err"`
	Out  map[string]string `json:"out"` // files below out/
	Tree []Comp            `json:"tree"`
}

func newOptions(file, in, out, lang, pkg string) *xgen.Options {
	return xgen.NewParser(&xgen.Options{
		FilePath: file, InputDir: in, OutputDir: out, Lang: lang, Package: pkg,
		IncludeMap: make(map[string]bool), LocalNameNSMap: make(map[string]string),
		NSSchemaLocationMap: make(map[string]string), ParseFileList: make(map[string]bool),
		ParseFileMap: make(map[string][]interface{}), ProtoTree: make([]interface{}, 0),
		RemoteSchema: make(map[string][]byte),
	})
}

func parseGuarded(o *xgen.Options) (err string) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Sprintf("panic: %v", r)
		}
	}()
	if e := o.Parse(); e != nil {
		return "error: " + e.Error()
	}
	return ""
}

func readTree(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, _ := ioutil.ReadFile(p)
			r, _ := filepath.Rel(dir, p)
			m[r] = string(b)
		}
		return nil
	})
	return m
}

func writeTree(dir string, files map[string]string) error {
	for n, s := range files {
		p := filepath.Join(dir, n)
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			return err
		}
		if err := ioutil.WriteFile(p, []byte(s), 0644); err != nil {
			return err
		}
	}
	return nil
}

// worker runs the jobs of a file, in the current directory, and writes one
// result per line.
func worker(in, out string) {
	f, err := os.Open(in)
	check(err)
	o, err := os.OpenFile(out, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0644)
	check(err)
	enc := json.NewEncoder(o)
	dec := json.NewDecoder(bufio.NewReader(f))
	cwd, _ := os.Getwd()
	for n := 0; ; n++ {
		var j Job
		if dec.Decode(&j) != nil {
			break
		}
		dir := filepath.Join(cwd, fmt.Sprintf("j%d", j.ID))
		for i, r := range j.Runs {
			watch := time.AfterFunc(20*time.Second, func() {
				enc.Encode(Result{ID: j.ID, Run: i, Err: "hang: no end after 20 s"})
				os.Exit(7)
			})
			if i == 0 || !j.Keep {
				os.RemoveAll(dir)
				check(writeTree(filepath.Join(dir, "in"), j.Files))
				raw := map[string]string{}
				for n, b := range j.Raw {
					raw[n] = string(b)
				}
				check(writeTree(filepath.Join(dir, "in"), raw))
			}
			input := filepath.Join(dir, "in")
			if r.Input != "" {
				input = filepath.Join(dir, "in", r.Input)
			}
			opt := newOptions(filepath.Join(dir, "in", r.File), input, filepath.Join(dir, "out"), r.Lang, r.Pkg)
			opt.Extract = r.Extract
			res := Result{ID: j.ID, Run: i}
			res.Err = parseGuarded(opt)
			watch.Stop()
			res.Out = readTree(filepath.Join(dir, "out"))
			if r.Tree {
				res.Tree = treeOf(opt.ProtoTree)
			}
			check(enc.Encode(res))
		}
		os.RemoveAll(dir)
	}
	o.Close()
}

// Scratch is a directory that belongs to the unprivileged user.
type Scratch struct {
	Dir string
	exe string
	uid int
}

func NewScratch() *Scratch {
	dir, err := ioutil.TempDir("", "xv-")
	check(err)
	check(os.Chmod(dir, 0755))
	s := &Scratch{Dir: dir}
	if os.Geteuid() == 0 {
		s.uid = 65534
	}
	exe, err := os.Executable()
	check(err)
	s.exe = filepath.Join(dir, "xv")
	b, err := ioutil.ReadFile(exe)
	check(err)
	check(ioutil.WriteFile(s.exe, b, 0755))
	return s
}

func (s *Scratch) Close() { os.RemoveAll(s.Dir) }

// Sub makes a directory the unprivileged user owns.
func (s *Scratch) Sub(name string) string {
	d := filepath.Join(s.Dir, name)
	check(os.MkdirAll(d, 0755))
	if s.uid != 0 {
		check(os.Chown(d, s.uid, s.uid))
	}
	return d
}

// Command runs a program as the unprivileged user.
func (s *Scratch) Command(dir, name string, args ...string) *exec.Cmd {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir, "TMPDIR=" + dir}
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if s.uid != 0 {
		c.SysProcAttr.Credential = &syscall.Credential{Uid: uint32(s.uid), Gid: uint32(s.uid)}
	}
	return c
}

// RunJobs runs the jobs in processes of their own. Jobs that end the process
// are reported as such.
func (s *Scratch) RunJobs(jobs []Job) map[int]map[int]Result {
	results := map[int]map[int]Result{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	const n = 7
	for w := 0; w < n; w++ {
		var part []Job
		for i := w; i < len(jobs); i += n {
			part = append(part, jobs[i])
		}
		if len(part) == 0 {
			continue
		}
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			dir := s.Sub(fmt.Sprintf("w%d-%d", w, time.Now().UnixNano()))
			for round := 0; len(part) > 0; round++ {
				in := filepath.Join(s.Dir, fmt.Sprintf("%s-%d.in", filepath.Base(dir), round))
				out := filepath.Join(dir, fmt.Sprintf("results-%d", round))
				f, err := os.Create(in)
				check(err)
				enc := json.NewEncoder(f)
				for _, j := range part {
					check(enc.Encode(j))
				}
				check(f.Close())
				msg, err := s.Command(dir, s.exe, "worker", in, out).CombinedOutput()
				os.Remove(in)
				last := map[int]map[int]Result{}
				if rf, e := os.Open(out); e == nil {
					dec := json.NewDecoder(bufio.NewReader(rf))
					for {
						var r Result
						if dec.Decode(&r) != nil {
							break
						}
						if last[r.ID] == nil {
							last[r.ID] = map[int]Result{}
						}
						last[r.ID][r.Run] = r
					}
					rf.Close()
					os.Remove(out)
				}
				mu.Lock()
				for id, rs := range last {
					results[id] = rs
				}
				mu.Unlock()
				// A job without all of its results is the one that stopped the worker.
				var rest []Job
				blamed := false
				for _, j := range part { // a run that was stopped, the last one of its job
					for _, r := range last[j.ID] {
						if strings.HasPrefix(r.Err, "hang:") && len(last[j.ID]) == len(j.Runs) {
							blamed = true
						}
					}
				}
				for _, j := range part {
					if len(last[j.ID]) == len(j.Runs) {
						continue
					}
					if !blamed {
						blamed = true
						if last[j.ID] == nil {
							last[j.ID] = map[int]Result{}
						}
						why := fmt.Sprintf("the process ended: %v", err)
						if m := string(msg); m != "" {
							if len(m) > 300 {
								m = m[:300]
							}
							why += " " + m
						}
						for i := range j.Runs {
							if _, ok := last[j.ID][i]; !ok {
								last[j.ID][i] = Result{ID: j.ID, Run: i, Err: why}
							}
						}
						mu.Lock()
						results[j.ID] = last[j.ID]
						mu.Unlock()
						continue
					}
					rest = append(rest, j)
				}
				if blamed && round > 20 {
					fmt.Fprintln(os.Stderr, "the worker stops again and again:", string(msg), err)
					for _, j := range rest {
						rs := map[int]Result{}
						for i := range j.Runs {
							rs[i] = Result{ID: j.ID, Run: i, Err: "the process ended"}
						}
						mu.Lock()
						results[j.ID] = rs
						mu.Unlock()
					}
					rest = nil
				}
				part = rest
			}
			os.RemoveAll(dir)
		}(w)
	}
	wg.Wait()
	return results
}

func check(err error) {
	if err != nil {
		panic(err)
	}
}
