package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Check is the run of a property's check.
type Check struct {
	ID                          string
	Tier                        string
	Seed                        int64
	S                           *Scratch
	Start                       time.Time
	Coverage                    map[string]interface{}
	Samples                     []interface{}
	Assume                      []string
	States, Transitions, Traces int
	Violations                  int
	known                       map[string]bool   // known findings that were seen
	findings                    map[string]string // finding id -> what fails
}

func (c *Check) Thorough() bool { return c.Tier == "thorough" }

// N is a number for the quick tier, and one for the thorough tier.
func (c *Check) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

func (c *Check) sample(s interface{}) {
	if len(c.Samples) < 6 {
		c.Samples = append(c.Samples, s)
	}
}

func (c *Check) TLC(t *TLC) {
	if err := t.Run(c.S.Dir); err != nil {
		panic(err)
	}
	if os.Getenv("XV_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "%s: %d states, %.1f s\n", t.Module, t.Distinct, t.Wall.Seconds())
	}
	c.States += t.Distinct
	c.Transitions += t.States
}

// Violation reports a violation; replay holds everything to see it again.
func (c *Check) Violation(what string, replay map[string]string) {
	c.Violations++
	dir := filepath.Join(verifDir, "evidence", "replays", fmt.Sprintf("%s-%d", c.ID, c.Violations))
	os.RemoveAll(dir)
	replay["what.txt"] = what + "\n"
	if err := writeTree(dir, replay); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	short := what
	if len(short) > 600 {
		short = short[:600] + "..."
	}
	fmt.Printf("%s: %s\n", c.ID, short)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, dir)
}

// Known reports a known finding.
func (c *Check) Known(id string) {
	if c.known[id] {
		return
	}
	what, ok := c.findings[id]
	if !ok {
		panic("the finding " + id + " isn't in known-findings.txt")
	}
	c.known[id] = true
	fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, what)
}

func (c *Check) loadFindings() {
	c.known = map[string]bool{}
	c.findings = map[string]string{}
	b, err := ioutil.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	check(err)
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=C05 id=ts-scalar what fails
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[0] == "finding:" && f[1] == "property="+c.ID {
			c.findings[strings.TrimPrefix(f[2], "id=")] = f[3]
		}
	}
}

func (c *Check) writeEvidence() {
	cov := c.Coverage
	cov["states"] = c.States
	cov["transitions"] = c.Transitions
	cov["traces_validated_against_impl"] = c.Traces
	if c.Samples == nil {
		c.Samples = []interface{}{}
	}
	cov["samples"] = c.Samples
	var known []string
	for k := range c.known {
		known = append(known, k)
	}
	sort.Strings(known)
	if known != nil {
		cov["known_findings_seen"] = known
	}
	ev := map[string]interface{}{"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": "model_checking",
		"coverage": cov, "assumptions": c.Assume, "wall_s": time.Since(c.Start).Seconds(), "violations": c.Violations}
	if c.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	check(err)
	check(os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755))
	check(ioutil.WriteFile(filepath.Join(verifDir, "evidence", c.ID+".json"), append(b, '\n'), 0644))
}

var checks = map[string]func(*Check){}

func runCheck(id string) int {
	c := &Check{ID: id, Tier: os.Getenv("VERIF_TIER"), Seed: 1, Start: time.Now(), Coverage: map[string]interface{}{}}
	if c.Tier != "thorough" {
		c.Tier = "quick"
	}
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		c.Seed = s
	}
	f, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such check:", id)
		return 2
	}
	os.RemoveAll(filepath.Join(verifDir, "evidence", "replays"))
	c.loadFindings()
	c.S = NewScratch()
	code := func() (code int) {
		defer c.S.Close()
		defer func() {
			if r := recover(); r != nil {
				fmt.Fprintf(os.Stderr, "the check failed: %v\n", r)
				if os.Getenv("XV_DEBUG") != "" {
					panic(r)
				}
				code = 3
			}
		}()
		f(c)
		c.writeEvidence()
		if c.Violations > 0 {
			return 1
		}
		return 0
	}()
	if code == 0 {
		fmt.Printf("%s holds on everything explored: %d runs of the real code checked, %d states, %.1f s\n", id, c.Traces, c.States, time.Since(c.Start).Seconds())
	}
	return code
}
