package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// largeDocs are documents that are large in one respect each: what holds for
// three of something has to hold for dozens. They're shuffled by the seed.
func largeDocs(id string, seed int64) []*Doc {
	r := rand.New(rand.NewSource(seed*7919 + 5))
	n := 0
	name := func(prefix string) string { // distinct identifiers in all languages
		n++
		s := ""
		for i := n; i > 0; i /= 26 {
			s = string(rune('a'+i%26)) + s
		}
		return prefix + s
	}
	names := func(prefix string, k int) []string {
		var res []string
		for i := 0; i < k; i++ {
			res = append(res, name(prefix))
		}
		return res
	}
	word := func() string {
		return []string{"string", "int", "boolean", "decimal", "date", "long", "anyURI", "base64Binary", "double", "token"}[r.Intn(10)]
	}
	var docs []*Doc
	doc := func(ns ...*Node) {
		for _, shuffle := range []int{0, 1, 2} {
			k := append([]*Node{}, ns...)
			switch shuffle {
			case 1:
				for i, j := 0, len(k)-1; i < j; i, j = i+1, j-1 {
					k[i], k[j] = k[j], k[i]
				}
			case 2:
				r.Shuffle(len(k), func(i, j int) { k[i], k[j] = k[j], k[i] })
			}
			docs = append(docs, &Doc{Style: plainStyle, Origin: "large", Node: N("schema").Add(k...)})
		}
	}
	restr := func(n, base string, k ...*Node) *Node {
		return N("simpleType", "name", n, N("restriction", "base", base).Add(k...))
	}
	el := func(n, t string) *Node { return N("element", "name", n, "type", t) }
	at := func(n, t string) *Node { return N("attribute", "name", n, "type", t) }

	// A chain of restrictions, and what uses its ends.
	var ns []*Node
	chain := names("Lim", 24+r.Intn(20))
	ns = append(ns, restr(chain[0], word()))
	for i := 1; i < len(chain); i++ {
		ns = append(ns, restr(chain[i], chain[i-1]))
	}
	last := chain[len(chain)-1]
	ns = append(ns, N("simpleType", "name", name("Lis"), N("list", "itemType", last)),
		N("simpleType", "name", name("Uni"), N("union", "memberTypes", []string{last, chain[7], chain[13]})),
		el(name("Ele"), last), at(name("Att"), last),
		N("complexType", "name", name("Con"), N("simpleContent", N("extension", "base", last, at(name("att"), last)))),
		N("complexType", "name", name("Str"), N("sequence", el(name("ele"), last), el(name("ele"), chain[17])), at(name("att"), last)))
	doc(ns...)

	// A chain of extensions.
	ns = nil
	chain = names("Ext", 16+r.Intn(10))
	ns = append(ns, N("complexType", "name", chain[0], N("sequence", el(name("ele"), word()))))
	for i := 1; i < len(chain); i++ {
		ns = append(ns, N("complexType", "name", chain[i], N("complexContent", N("extension", "base", chain[i-1], N("sequence", el(name("ele"), word())), at(name("att"), word())))))
	}
	doc(ns...)

	// Types within types.
	var anon func(depth int) *Node
	anon = func(depth int) *Node {
		c := N("complexType")
		s := N([]string{"sequence", "choice"}[r.Intn(2)], el(name("ele"), word()))
		if depth > 0 {
			e := N("element", "name", name("Ano"), anon(depth-1))
			if r.Intn(3) == 0 {
				e.A["maxOccurs"] = "unbounded"
			}
			s.Add(e, el(name("ele"), word()))
		}
		a := at(name("att"), word())
		if r.Intn(2) == 0 {
			a.A["use"] = "required"
		}
		return c.Add(s, a)
	}
	doc(N("complexType", "name", name("Out"), N("sequence", N("element", "name", name("Ano"), anon(13)), el(name("ele"), word())), at(name("att"), word())),
		N("element", "name", name("Top"), anon(9)), restr(name("Sim"), word()))

	// Compositors within compositors.
	var comp func(depth int) *Node
	comp = func(depth int) *Node {
		c := N([]string{"sequence", "choice"}[depth%2], el(name("ele"), word()))
		if depth > 0 {
			c.Add(comp(depth-1), el(name("ele"), word()))
		}
		if r.Intn(9) == 0 {
			c.A["maxOccurs"] = []string{"unbounded", "2", "17"}[r.Intn(3)]
		}
		return c
	}
	doc(N("complexType", "name", name("Dee"), comp(18), at(name("att"), word())), N("group", "name", name("Gro"), comp(14)),
		N("complexType", "name", name("Fla"), N("sequence", el(name("ele"), word()))))

	// A type with many members, and groups with as many.
	seq, gseq := N("sequence"), N("choice")
	typ := N("complexType", "name", name("Big"), seq)
	ag := N("attributeGroup", "name", name("Agr"))
	gro := N("group", "name", name("Gro"), gseq)
	ns = []*Node{typ, ag, gro}
	for i := 0; i < 40; i++ {
		e := el(name("ele"), word())
		if r.Intn(4) == 0 {
			e.A["maxOccurs"] = []string{"unbounded", "1", "2", "100"}[r.Intn(4)]
		}
		if r.Intn(6) == 0 {
			x := name("gre")
			gro := N("group", "ref", x)
			if r.Intn(2) == 0 {
				gro.A["maxOccurs"] = "12"
			}
			seq.Add(gro)
			ns = append(ns, N("group", "name", x, N("sequence", el(name("ele"), word()))))
		}
		seq.Add(e)
		gseq.Add(el(name("ele"), word()))
		for j, to := range []*Node{typ, ag} {
			a := at(name("att"), word())
			if r.Intn(2) == 0 {
				a.A["use"] = []string{"required", "optional"}[r.Intn(2)]
			}
			to.Add(a)
			if j == 0 && i%8 == 0 {
				x := name("agr")
				to.Add(N("attributeGroup", "ref", x))
				ns = append(ns, N("attributeGroup", "name", x, at(name("att"), word())))
			}
		}
	}
	doc(ns...)

	// Groups of groups.
	ns = nil
	gs, as := names("Gro", 14), names("Agr", 14)
	for i := range gs {
		g, a := N("sequence", el(name("ele"), word())), N("attributeGroup", "name", as[i], at(name("att"), word()))
		if i > 0 {
			g.Add(N("group", "ref", gs[i-1]))
			a.Add(N("attributeGroup", "ref", as[i-1]))
		}
		ns = append(ns, N("group", "name", gs[i], g), a)
	}
	ns = append(ns, N("complexType", "name", name("All"), N("group", "ref", gs[13]), N("attributeGroup", "ref", as[13])))
	doc(ns...)

	// Many values, facets, member types.
	e1, e2 := restr(name("Enu"), "string"), restr(name("Num"), "int")
	var mem []string
	ns = []*Node{e1, e2}
	for i := 0; i < 70; i++ {
		e1.K[0].Add(N("enumeration", "value", name("v")))
		e2.K[0].Add(N("enumeration", "value", fmt.Sprint(i*3)))
		if i%4 == 0 {
			m := name("Mem")
			mem = append(mem, m)
			ns = append(ns, restr(m, word(), N("pattern", "value", "a"), N("maxLength", "value", "3")))
		}
	}
	ns = append(ns, N("simpleType", "name", name("Uni"), N("union", "memberTypes", mem)))
	doc(ns...)

	// Many components of all kinds.
	ns = nil
	prev := name("Sim")
	ns = append(ns, restr(prev, word()))
	for i := 0; i < 60; i++ {
		switch r.Intn(7) {
		case 0:
			prev = name("Sim")
			ns = append(ns, restr(prev, word()))
		case 1:
			ns = append(ns, N("simpleType", "name", name("Lis"), N("list", "itemType", prev)))
		case 2:
			ns = append(ns, el(name("Ele"), prev))
		case 3:
			ns = append(ns, at(name("Att"), prev))
		case 4:
			ns = append(ns, N("complexType", "name", name("Com"), N("sequence", el(name("ele"), prev)), at(name("att"), prev)))
		case 5:
			ns = append(ns, N("group", "name", name("Gro"), N("sequence", el(name("ele"), prev))))
		case 6:
			ns = append(ns, N("attributeGroup", "name", name("Agr"), at(name("att"), prev)))
		}
	}
	doc(ns...)

	// Many names for one identifier.
	if id == "C01" || id == "C09" {
		ns = nil
		for i := 1; i < 13; i++ {
			x := "kebabfoldednam"[:i] + "-" + "kebabfoldednam"[i:]
			switch i % 4 {
			case 0:
				ns = append(ns, restr(x, word()))
			case 1:
				ns = append(ns, N("complexType", "name", x, N("sequence", el(name("ele"), word()))))
			case 2:
				ns = append(ns, N("simpleType", "name", x, N("list", "itemType", word())))
			case 3:
				ns = append(ns, N("attributeGroup", "name", x, at(name("att"), word())))
			}
		}
		ns = append(ns, restr("kebabfoldednam2", "int"), restr("kebabfoldednam11", "string"))
		doc(ns...)
	}

	// Long names, long documentation.
	long := func(p string) string {
		var b strings.Builder
		b.WriteString(name(p))
		for b.Len() < 90+r.Intn(200) {
			b.WriteString([]string{"Segment", "part", ".Dotted", "UPPER", "x", "9"}[r.Intn(6)])
		}
		return b.String() + "End" + name("z")
	}
	l1, l2 := long("Typ"), long("Typ")
	c1 := N("complexType", "name", l1, N("sequence", el(long("ele"), l2), el(long("ele"), word())), at(long("att"), l2))
	c2 := restr(l2, "string")
	if id == "C10" {
		var lines []string
		for i := 0; i < 150; i++ {
			lines = append(lines, strings.TrimSpace(strings.Repeat(word()+" ", 1+r.Intn(12))))
		}
		documented(strings.Join(lines, "\n"), c1)
		documented(strings.Repeat("word ", 1200)+"end", c2)
	}
	doc(c1, c2, N("element", "name", long("Ele"), "type", l1))
	return docs
}
