package main

import (
	"encoding/json"
	"math/rand"
	"sort"
	"strconv"
	"strings"
)

// The budgets of spec/XBuild.tla: units and top-level components, for the
// quick and the thorough tier; and how many documents of these are taken.
var budgets = map[string]struct{ quick, thorough [3]int }{
	"C01": {[3]int{3, 3, 1500}, [3]int{4, 3, 12000}},
	"C02": {[3]int{4, 2, 1300}, [3]int{5, 2, 12000}},
	"C03": {[3]int{3, 2, 1800}, [3]int{3, 2, 20000}},
	"C04": {[3]int{3, 3, 1500}, [3]int{5, 3, 10000}},
	"C05": {[3]int{4, 2, 1500}, [3]int{5, 2, 15000}},
	"C06": {[3]int{3, 2, 1200}, [3]int{4, 2, 12000}},
	"C07": {[3]int{3, 3, 1500}, [3]int{4, 3, 12000}},
	"C08": {[3]int{4, 3, 1500}, [3]int{5, 3, 12000}},
	"C09": {[3]int{2, 2, 1500}, [3]int{3, 2, 12000}},
	"C10": {[3]int{3, 2, 1500}, [3]int{4, 2, 12000}},
	"C11": {[3]int{3, 2, 2500}, [3]int{4, 2, 15000}},
	"C22": {[3]int{3, 2, 1000}, [3]int{4, 2, 8000}},
	"C19": {[3]int{3, 3, 1500}, [3]int{3, 3, 40000}},
	"C20": {[3]int{4, 2, 700}, [3]int{5, 2, 5000}},
	"C21": {[3]int{3, 3, 1500}, [3]int{4, 3, 12000}},
}

// enumerated takes documents of the grammar of a property: all those of up to
// two units less than the budget, and a seeded sample of the others.
func (c *Check) enumerated(gram string) []*Node {
	b := budgets[gram].quick
	if c.Thorough() {
		b = budgets[gram].thorough
	}
	t := &TLC{Module: "XBuild", Env: map[string]string{"XV_GRAM": gram, "XV_UNITS": strconv.Itoa(b[0]), "XV_TOP": strconv.Itoa(b[1])},
		Config: "SPECIFICATION Spec\nINVARIANT TypeOK\nCHECK_DEADLOCK FALSE\n"}
	c.TLC(t)
	if t.Violated != "" {
		panic("the model is wrong: " + t.Violated)
	}
	lines := map[string]bool{}
	for _, l := range t.Lines {
		if strings.HasPrefix(l, "XV-DOC ") {
			lines[strings.TrimPrefix(l, "XV-DOC ")] = true
		}
	}
	var all []string
	for l := range lines {
		all = append(all, l)
	}
	sort.Slice(all, func(i, j int) bool {
		if len(all[i]) != len(all[j]) {
			return len(all[i]) < len(all[j])
		}
		return all[i] < all[j]
	})
	c.Coverage["enumerated_documents"] = len(all)
	if len(all) > b[2] { // the shortest third, and a sample of the rest
		keep := b[2] / 3
		rest := all[keep:]
		r := rand.New(rand.NewSource(c.Seed))
		r.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
		all = append(all[:keep:keep], rest[:b[2]-keep]...)
	}
	c.Coverage["enumerated_documents_run"] = len(all)
	var nodes []*Node
	for _, l := range all {
		n := &Node{}
		check(json.Unmarshal([]byte(l), n))
		nodes = append(nodes, n)
	}
	return nodes
}
