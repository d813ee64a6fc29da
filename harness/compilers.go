package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
)

// Diag is an error that a compiler reports: its code, and the identifier of
// the declaration it is about.
type Diag struct {
	Code string `json:"code"`
	At   string `json:"at"`
	What string `json:"what"`
}

// Compilers are the compilers of languages other than Go, with stand-ins for
// the libraries that generated code uses.
type Compilers struct{ dir string }

func must(cmd *exec.Cmd) {
	var e bytes.Buffer
	cmd.Stderr = &e
	if err := cmd.Run(); err != nil {
		panic(fmt.Sprintf("%v: %v: %s", cmd.Args, err, e.String()))
	}
}

// NewCompilers builds the stand-ins in a scratch directory.
func NewCompilers(scratch string) *Compilers {
	k := &Compilers{filepath.Join(scratch, "compilers")}
	check(os.MkdirAll(k.dir, 0755))
	tools := filepath.Join(verifDir, "tools")
	must(exec.Command("rustc", "--edition", "2018", "--crate-type", "proc-macro", "--crate-name", "serde_derive", "--out-dir", k.dir, filepath.Join(tools, "rust", "serde_derive.rs")))
	for _, n := range []string{"serde", "serde_xml_rs"} {
		must(exec.Command("rustc", "--edition", "2018", "--crate-type", "rlib", "--crate-name", n, "--out-dir", k.dir, filepath.Join(tools, "rust", n+".rs")))
	}
	stubs, err := filepath.Glob(filepath.Join(tools, "java", "stub", "javax", "xml", "bind", "annotation", "*.java"))
	check(err)
	must(exec.Command("javac", append([]string{"-proc:none", "-d", filepath.Join(k.dir, "stubs")}, stubs...)...))
	must(exec.Command("javac", "-proc:none", "-d", filepath.Join(k.dir, "driver"), filepath.Join(tools, "java", "Compile.java")))
	return k
}

var compiled = []string{"TypeScript", "Rust", "Java"}

var declLines = map[string]*regexp.Regexp{
	"TypeScript": regexp.MustCompile(`^export (?:class|type|enum) ([\pL\pN_]+)`),
	"Rust":       regexp.MustCompile(`^pub struct ([\pL\pN_]+)`),
	"Java":       regexp.MustCompile(`^public class ([\pL\pN_]+)`),
}

// at is the identifier of the declaration that a line belongs to: to the one
// that starts last, or, if that has ended, to the next one.
func at(lang, src string, line int) string {
	id := ""
	for i, l := range strings.Split(src, "\n") {
		if i+1 > line && id != "" {
			break
		}
		if m := declLines[lang].FindStringSubmatch(l); m != nil {
			id = m[1]
		}
		if i+1 < line && strings.HasPrefix(l, "}") {
			id = ""
		}
	}
	return id
}

// Check compiles the files of a language, each on its own.
func (k *Compilers) Check(lang string, srcs []string) [][]Diag {
	res := make([][]Diag, len(srcs))
	dir := filepath.Join(k.dir, lang)
	check(os.RemoveAll(dir))
	check(os.MkdirAll(dir, 0755))
	defer os.RemoveAll(dir)
	file := func(i int) string { return filepath.Join(dir, strconv.Itoa(i)+extOf[lang]) }
	for i, s := range srcs {
		check(os.WriteFile(file(i), []byte(s), 0644))
	}
	collect := func(out string) {
		for _, l := range strings.Split(strings.TrimSpace(out), "\n") {
			f := strings.SplitN(l, " ", 4)
			if len(f) < 4 {
				if l != "" {
					panic("the compiler says: " + l)
				}
				continue
			}
			i, err := strconv.Atoi(f[0])
			if err != nil || i < 0 || i >= len(srcs) {
				panic("the compiler says: " + l)
			}
			line, _ := strconv.Atoi(f[1])
			res[i] = append(res[i], Diag{f[2], at(lang, srcs[i], line), strconv.QuoteToASCII(f[3])})
		}
	}
	switch lang {
	case "TypeScript":
		cmd := exec.Command("node", "--max-old-space-size=8000", filepath.Join(verifDir, "tools", "ts.js"), dir)
		cmd.Env = append(os.Environ(), "XV_TYPESCRIPT=/opt/veriftools/node/node_modules/typescript")
		collect(output(cmd))
	case "Java":
		collect(output(exec.Command("java", "-Xmx6g", "-cp", filepath.Join(k.dir, "driver"), "Compile", filepath.Join(k.dir, "stubs"), dir)))
	case "Rust":
		var wg sync.WaitGroup
		var mu sync.Mutex
		next := make(chan int)
		for w := 0; w < runtime.NumCPU(); w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range next {
					ds := k.rust(file(i), srcs[i])
					mu.Lock()
					res[i] = ds
					mu.Unlock()
				}
			}()
		}
		for i := range srcs {
			next <- i
		}
		close(next)
		wg.Wait()
	}
	for i := range res {
		if res[i] == nil {
			res[i] = []Diag{}
		}
		if len(res[i]) > 60 {
			res[i] = res[i][:60]
		}
	}
	return res
}

func output(cmd *exec.Cmd) string {
	var e bytes.Buffer
	cmd.Stderr = &e
	b, err := cmd.Output()
	if err != nil {
		panic(fmt.Sprintf("%v: %v: %s", cmd.Args, err, e.String()))
	}
	return string(b)
}

var rustLine = regexp.MustCompile(`^[^:]*:(\d+):\d+: error(?:\[(E\d+)\])?: (.*)`)

// rust checks a file without generating code for it.
func (k *Compilers) rust(file, src string) []Diag {
	cmd := exec.Command("rustc", "--edition", "2015", "--crate-type", "lib", "--crate-name", "x", "--emit=metadata", "--error-format=short",
		"--cap-lints=allow", "-L", k.dir, "-o", file+".rmeta", file)
	b, err := cmd.CombinedOutput()
	os.Remove(file + ".rmeta")
	if err == nil {
		return nil
	}
	if _, ok := err.(*exec.ExitError); !ok {
		panic(err)
	}
	var ds []Diag
	for _, l := range strings.Split(string(b), "\n") {
		if m := rustLine.FindStringSubmatch(l); m != nil {
			line, _ := strconv.Atoi(m[1])
			code := m[2]
			if code == "" {
				code = "error"
			}
			ds = append(ds, Diag{code, at("Rust", src, line), strconv.QuoteToASCII(m[3])})
		}
	}
	if len(ds) == 0 {
		ds = append(ds, Diag{"error", "", strconv.QuoteToASCII(string(b))})
	}
	return ds
}

// compile adds what the compilers say to the records.
func (c *Check) compile(docs []*Doc, recs []*Rec) {
	k := NewCompilers(c.S.Dir)
	for _, l := range compiled {
		var srcs []string
		for _, d := range docs {
			srcs = append(srcs, d.raw[l].Out["s.xsd"+extOf[l]])
		}
		for i, ds := range k.Check(l, srcs) {
			if recs[i].Tools == nil {
				recs[i].Tools = map[string][]Diag{}
			}
			recs[i].Tools[l] = ds
		}
		c.Coverage["compiled_"+l] = len(srcs)
	}
}
