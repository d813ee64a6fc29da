package main

import (
	"bufio"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"
)

var verifDir = "/verif"

const tlaLib = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

// TLC is a run of the model checker.
type TLC struct {
	Module  string
	Config  string // text of the configuration
	Env     map[string]string
	Args    []string
	Workers int
	Timeout time.Duration
	HeapGB  int
	Each    func(line string) bool // takes a line the specification printed

	Out      string
	Lines    []string // printed by the specification ("XV-...")
	States   int
	Distinct int
	Violated string // name of the violated invariant or property
	Trace    string // the behaviour that violates it
	Finished bool
	Wall     time.Duration
}

// Run runs TLC on the specification in /verif/spec.
func (t *TLC) Run(scratch string) error {
	start := time.Now()
	dir, err := ioutil.TempDir(scratch, "tlc-")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	specs, err := filepath.Glob(filepath.Join(verifDir, "spec", "*.tla"))
	if err != nil {
		return err
	}
	for _, f := range specs {
		b, err := ioutil.ReadFile(f)
		if err != nil {
			return err
		}
		if err := ioutil.WriteFile(filepath.Join(dir, filepath.Base(f)), b, 0644); err != nil {
			return err
		}
	}
	if err := ioutil.WriteFile(filepath.Join(dir, "MC.cfg"), []byte(t.Config), 0644); err != nil {
		return err
	}
	if t.Workers == 0 {
		t.Workers = 8
	}
	if t.HeapGB == 0 {
		t.HeapGB = 10
	}
	if t.Timeout == 0 {
		t.Timeout = 10 * time.Minute
	}
	args := []string{"-XX:+UseParallelGC", fmt.Sprintf("-Xmx%dg", t.HeapGB), "-Xss64m", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8",
		"-Djava.io.tmpdir=" + dir, "-cp", tlaLib, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", filepath.Join(dir, "states"),
		"-config", "MC.cfg", "-workers", strconv.Itoa(t.Workers), "-deadlock"}
	args = append(args, t.Args...)
	args = append(args, t.Module+".tla")
	cmd := exec.Command("java", args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "LC_ALL=C.UTF-8")
	for k, v := range t.Env {
		cmd.Env = append(cmd.Env, k+"="+v)
	}
	stdout, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	cmd.Stderr = cmd.Stdout
	if err := cmd.Start(); err != nil {
		return err
	}
	timer := time.AfterFunc(t.Timeout, func() { cmd.Process.Kill() })
	var out strings.Builder
	sc := bufio.NewScanner(stdout)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		l := sc.Text()
		if s, err := strconv.Unquote(l); err == nil && strings.HasPrefix(s, "XV-") {
			t.line(s)
			continue
		}
		if strings.HasPrefix(l, "\"XV-") { // TLC doesn't quote like Go
			s := strings.TrimSuffix(strings.TrimPrefix(l, "\""), "\"")
			s = strings.NewReplacer("\\\\", "\\", "\\\"", "\"").Replace(s)
			t.line(s)
			continue
		}
		if strings.HasPrefix(l, "Progress(") {
			continue
		}
		out.WriteString(l + "\n")
	}
	werr := cmd.Wait()
	timer.Stop()
	t.Out = out.String()
	t.Wall = time.Since(start)
	if m := regexp.MustCompile(`(\d+) states generated, (\d+) distinct states found`).FindAllStringSubmatch(t.Out, -1); m != nil {
		last := m[len(m)-1]
		t.States, _ = strconv.Atoi(last[1])
		t.Distinct, _ = strconv.Atoi(last[2])
	}
	t.Finished = strings.Contains(t.Out, "Model checking completed. No error has been found.") ||
		strings.Contains(t.Out, "Finished in") && werr == nil
	if m := regexp.MustCompile(`Error: (?:Invariant|Action property|Temporal property) (\S+) (?:is|was) violated`).FindStringSubmatch(t.Out); m != nil {
		t.Violated = m[1]
	} else if strings.Contains(t.Out, "Temporal properties were violated") {
		t.Violated = "temporal"
	}
	if t.Violated != "" {
		if i := strings.Index(t.Out, "Error: The behavior up to this point is:"); i >= 0 {
			t.Trace = t.Out[i:]
		}
		if m := regexp.MustCompile(`Invariant (\S+) is violated by the initial state:\n((?s).*)`).FindStringSubmatch(t.Out); m != nil {
			t.Trace = m[2]
		}
		return nil
	}
	if werr != nil || !t.Finished {
		tail := t.Out
		if i := strings.Index(tail, "Error:"); i >= 0 {
			tail = tail[i:]
		}
		if len(tail) > 3000 {
			tail = tail[:3000]
		}
		return fmt.Errorf("TLC failed on %s: %v\n%s", t.Module, werr, tail)
	}
	return nil
}

func (t *TLC) line(s string) {
	if t.Each == nil || !t.Each(s) {
		t.Lines = append(t.Lines, s)
	}
}

// LastState is the last state of the trace, as printed.
func (t *TLC) LastState() string {
	i := strings.LastIndex(t.Trace, "\nState ")
	s := t.Trace
	if i >= 0 {
		s = t.Trace[i+1:]
	}
	if j := strings.Index(s, "\n\n"); j >= 0 {
		s = s[:j]
	}
	return s
}
