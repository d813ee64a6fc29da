package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"unicode"
)

// Profile says what a random schema is made of.
type Profile struct {
	Comps     [2]int         // number of components
	Kinds     map[string]int // weight of kinds of components
	Names     string         // plain, mixed, odd
	Docs      int            // percentage of nodes that are documented
	OddDocs   bool
	Facets    int // percentage of restrictions with facets
	Enums     int
	Namesakes int // percentage of the global elements that are called as their type
	Depth     int // of compositors
	Members   int // at most, per compositor
	Plural    int // percentage of particles with maxOccurs > 1
	Anon      int // percentage of elements with anonymous types
	Inline    int // percentage of members with inline simple types
	Extend    int // percentage of complex types that are extensions
	AttrMax   int
	Foreign   int // percentage of names that begin with an underscore or have letters beyond ASCII
	XMLAttrs  bool
	Repeats   int // percentage of elements that are listed once more
	NoTypes   map[string]bool
	Builtins  []string
	Folds     int  // percentage of names that differ from another in the case of letters only, more than usual
	Capital   bool // all names of types begin with a capital
	Instance  bool // only what C20 can instantiate
}

func baseProfile() Profile {
	return Profile{Comps: [2]int{4, 14},
		Kinds: map[string]int{"restriction": 4, "enum": 2, "list": 2, "union": 2, "complex": 7, "element": 4, "anonelement": 2,
			"inlineelement": 1, "attribute": 2, "group": 2, "agroup": 2, "noise": 1},
		Names: "mixed", Docs: 25, Facets: 50, Enums: 40, Depth: 3, Members: 4, Plural: 30, Anon: 15, Inline: 15, Extend: 30,
		AttrMax: 3, XMLAttrs: true, Repeats: 5, Namesakes: 8}
}

type G struct {
	r                                                               *rand.Rand
	p                                                               Profile
	used                                                            map[string]bool
	names                                                           []string // of components
	simple, complex, list, union, group, agroup, element, attribute []string
	simpleRank                                                      map[string]int
	baseRank                                                        map[string]int
	grpRank                                                         map[string]int
	current                                                         int // rank of the component
	anyCount                                                        int
	ends                                                            map[string]string // where a restricted type's chain ends
}

func (g *G) pct(n int) bool         { return g.r.Intn(100) < n }
func (g *G) pick(s []string) string { return s[g.r.Intn(len(s))] }

// key is the same for names that may be mapped to the same identifier.
func key(s string) string {
	return strings.ToLower(prefixed(strings.NewReplacer(".", "", "-", "", "_", "", ":", "").Replace(s)))
}

// prefixed gives what can't begin an exported identifier an X.
func prefixed(s string) string {
	if r := []rune(s); len(r) == 0 || !unicode.IsUpper(r[0]) && !unicode.IsLower(r[0]) || r[0] == 'ß' {
		return "X" + s
	}
	return s
}

// identifier is what a name is mapped to in the languages that drop most.
func identifier(s string) string {
	out, up := "", true
	for _, c := range s {
		switch {
		case c == '.' || c == ':':
			up = true
		case c == '-' || c == '_':
			up = false
		case up:
			out, up = out+strings.ToUpper(string(c)), false
		default:
			out += string(c)
		}
	}
	return prefixed(out)
}

var syllables = strings.Fields("ka lo mir ten sa vu dor ne pil ras ti gom ber qua lin fex od ar um el zy hop wen jat cru")

// Names that mean something else in one of the target languages.
var reservedNames = func() map[string]bool {
	m := map[string]bool{}
	for _, s := range strings.Fields(`value string any array boolean number void null undefined uint8array byte character list
		float integer short qname long vec option bool char int enum double unsigned signed struct interface complex64 complex128
		xmlname error object this super class public protected u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 usize isize self time xml
		deserialize serialize arraylist xmlattribute xmlelement xmltype xmlvalue xmlaccesstype xmlaccessortype xmlschematype debug partialeq never symbol
		reader fromreader unknown bigint`) {
		m[s] = true
	}
	for b := range builtins {
		m[strings.ToLower(b)] = true
	}
	return m
}()

func (g *G) word() string {
	s := ""
	for i := 1 + g.r.Intn(3); i > 0; i-- {
		s += g.pick(syllables)
	}
	return s
}

func title(s string) string {
	r := []rune(s)
	return strings.ToUpper(string(r[:1])) + string(r[1:])
}

// foreign makes something of a name that begins with an underscore or has
// letters beyond ASCII, of those that spec/XNames.tla knows.
func (g *G) foreign(w string) string {
	switch g.r.Intn(6) {
	case 0:
		return "_" + w
	case 1:
		return "_" + fmt.Sprint(g.r.Intn(100)) + w
	case 2:
		return g.pick(strings.Fields("é ü ä ø ж É Ü Ä Ø Ж")) + w
	case 3:
		return g.pick(strings.Fields("名 前 名前 ß _é __ _名")) + w
	case 4:
		return w + g.pick(strings.Fields("ß é ü名 Ü Éa ä-É .é .Ü _ж ß.ø -前")) + g.word()
	}
	return g.pick(strings.Fields("_ __ _1 é ж 名 名前 _-é _.a"))
}

var rustWords = strings.Fields(`as break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub ref
	return self static struct super trait true type unsafe use where while abstract async await become box do final macro override priv try
	typeof unsized virtual yield`)

// otherWords are keywords elsewhere, or no keywords at all.
var otherWords = strings.Fields(`func go defer chan range package import var select switch case default fallthrough goto map int_ gen union auto raw
	delete export new throw with void_ instanceof function synchronized throws native transient volatile extends implements register sizeof
	typedef signed_ static_ type_ self_ match_attr`)

var keywordSet = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range append(append([]string{}, rustWords...), otherWords...) {
		m[key(w)] = true
	}
	return m
}()

// shouted are names of types that differ from the languages' own in letter case only.
var shouted = strings.Fields("ANY BOOLEAN NUMBER STRING INT LONG FLOAT CHAR VOID BOOL DATE LIST OBJECT INTEGER VEC OPTION TIME U8")

var shoutedSet = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range shouted {
		m[w] = true
	}
	return m
}()

// keyword is a name that's mapped to a keyword, or nearly so.
func (g *G) keyword() string {
	w := g.pick(rustWords)
	switch g.r.Intn(7) {
	case 0:
		return g.pick(otherWords)
	case 1:
		return title(w)
	case 2:
		k := 1 + g.r.Intn(len(w))
		return w[:k] + "-" + w[k:]
	case 3:
		return w + g.pick([]string{"s", "2", "_", "."}) // not a keyword
	}
	return w
}

// rawName makes a name of the profile's kind.
func (g *G) rawName(member bool) string {
	w := g.word()
	if g.p.Names != "plain" && (member || !g.p.Capital) && g.pct(g.p.Foreign) {
		return g.foreign(w)
	}
	switch g.p.Names {
	case "plain":
		return title(w)
	case "odd", "typed":
		switch g.r.Intn(11) {
		case 0:
			if member {
				return g.keyword()
			}
			return title(w) + "." + g.word()
		case 1:
			return w + "." + g.word()
		case 2:
			return w + "-" + g.word()
		case 3:
			return w + "_" + g.word()
		case 4:
			return title(w) + fmt.Sprint(g.r.Intn(12))
		case 5:
			return strings.ToUpper(w)
		case 6:
			return w + title(g.word()) + strings.ToUpper(g.word()[:1]) + "." + title(g.word()) + "-" + g.word()
		case 7:
			return w + "_" + g.word() + "-" + fmt.Sprint(g.r.Intn(10)) + "." + fmt.Sprint(g.r.Intn(10)) + g.word()
		case 8:
			return w + g.pick([]string{"HTTPServer", "ID", "XMLId2Url", "A1B2", "aB", "_X", "-Y", ".z", "--q", "__w", "1.2-3_4", "ABCd", "AbCD"})
		case 9:
			return g.pick(shouted)
		default:
			if g.pct(50) {
				return w
			}
			return g.manyParts(w)
		}
	default:
		switch g.r.Intn(6) {
		case 0:
			return w
		case 1:
			return w + title(g.word())
		case 2:
			return title(w) + title(g.word())
		case 3:
			return title(w) + fmt.Sprint(1+g.r.Intn(9))
		case 4:
			if member {
				return w
			}
			return title(w)
		}
		return title(w)
	}
}

// manyParts makes a name of up to seven parts.
func (g *G) manyParts(w string) string {
	seps := []string{g.pick([]string{"-", "_", "."})}
	if g.pct(40) {
		seps = []string{"-", "_", "."}
	}
	for n := 2 + g.r.Intn(5); n > 0; n-- {
		w += g.pick(seps) + g.pick([]string{g.word(), title(g.word()), fmt.Sprint(g.r.Intn(10)), g.word()[:1]})
	}
	return w
}

// flip changes the case of a letter inside of the name.
func (g *G) flip(n string) string {
	b := []byte(n)
	for i := 0; i < 8 && len(b) > 1; i++ {
		k := 1 + g.r.Intn(len(b)-1)
		before := b[k-1] // a letter after a hyphen, say, is a capital in identifiers
		if c := b[k] | 0x20; c >= 'a' && c <= 'z' && before != '-' && before != '_' && before != '.' {
			b[k] ^= 0x20
			return string(b)
		}
	}
	return n
}

// twin is another name that may be mapped to the same identifier.
func (g *G) twin(n string) string {
	switch g.r.Intn(6) {
	case 0:
		return title(n)
	case 1:
		r := []rune(n)
		return strings.ToLower(string(r[:1])) + string(r[1:])
	case 2:
		return n + fmt.Sprint(2+g.r.Intn(2))
	default:
		r := []rune(n)
		k := 1 + g.r.Intn(len(r))
		return string(r[:k]) + g.pick([]string{"-", "_", "."}) + string(r[k:])
	}
}

func (g *G) name() string {
	for try := 0; ; try++ {
		n := g.rawName(false)
		if len(g.names) > 0 && try < 20 {
			other := ""
			if g.p.Names == "odd" && g.pct(25) {
				other = g.twin(g.pick(g.names))
			} else if !g.p.Instance && g.pct(4+g.p.Folds) {
				switch other = g.pick(g.names); {
				case g.pct(60):
					other = g.flip(other)
				case g.pct(50):
					other = strings.ToLower(other)
				default:
					other = strings.ToUpper(other)
				}
				// Names that differ in their first letters are mapped to the same identifier.
				if g.p.Names != "odd" && len(g.names) > 0 {
					for _, x := range g.names {
						if identifier(x) == identifier(other) {
							other = ""
							break
						}
					}
				}
			}
			ok := other != ""
			for _, x := range g.names {
				ok = ok && x != other
			}
			if ok && !reservedNames[key(other)] {
				g.used[key(other)] = true
				g.names = append(g.names, other)
				return other
			}
		}
		if g.p.Capital {
			n = title(n)
		}
		k := key(n)
		if !g.used[k] && (!reservedNames[k] || shoutedSet[n]) {
			g.used[k] = true
			g.names = append(g.names, n)
			return n
		}
	}
}

// local names are unique in their structure only.
func (g *G) local(used map[string]bool) string {
	for {
		n := g.rawName(true)
		k := key(n)
		if !used[k] && (!reservedNames[k] || keywordSet[k]) {
			used[k] = true
			return n
		}
	}
}

// anonymous types need a name that's unique in the file.
func (g *G) anonName(used map[string]bool) string {
	for {
		n := g.name()
		if k := key(n); !used[k] {
			used[k] = true
			return n
		}
	}
}

func (g *G) builtin() string {
	if g.p.Builtins != nil {
		return g.pick(g.p.Builtins)
	}
	if g.pct(40) {
		return g.pick([]string{"string", "int", "boolean", "decimal", "date", "anyURI", "NMTOKENS"})
	}
	return g.pick(builtinList)
}

var builtinList = func() []string {
	var l []string
	for b := range builtins {
		l = append(l, b)
	}
	sort.Strings(l)
	return l
}()

func (g *G) anySimple() string {
	var c []string
	c = append(c, g.simple...)
	c = append(c, g.list...)
	c = append(c, g.union...)
	if len(c) == 0 || g.pct(45) {
		return g.builtin()
	}
	return g.pick(c)
}

func (g *G) anyType() string {
	if len(g.complex) > 0 && g.pct(45) {
		return g.pick(g.complex)
	}
	return g.anySimple()
}

var plainWords = strings.Fields(`the a value of this element holds every customer's name, address; and (optionally) number:
	see also RFC-1234. It must not be empty! "quoted" text & more <tags> 100% true #5 x=y [1] {curly} a/b`)
var oddWords = append(strings.Fields(`*/ /* // } { ; \ \n %s %d %! $1 ${x} <!-- --> &amp; ]]> ' " () [] => -> :: @Foo #[x] export
	type struct class }; // pub é ü 漢字 😀 "; '); \\ \t \" \' \x #include #define package import`), plainWords...)

func (g *G) docText() string {
	words := plainWords
	if g.p.OddDocs {
		words = oddWords
	}
	var b strings.Builder
	for i := 2 + g.r.Intn(10); i > 0; i-- {
		if b.Len() > 0 {
			sep := " "
			if g.pct(15) {
				sep = "\n"
			} else if g.pct(8) {
				sep = "\n      "
			} else if g.p.OddDocs && g.pct(12) {
				sep = g.pick([]string{"\t", "\r", "\r\n", "\n\n", "\u2028", "\u2029", "\u0085", "\n\t", "  "})
			}
			b.WriteString(sep)
		}
		w := g.pick(words)
		// gofmt rewrites the layout of comments that look like lists or headings;
		// lines begin with a word.
		if s := b.String(); (s == "" || strings.ContainsAny(s[len(s)-1:], "\n\t ") || !strings.HasSuffix(s, " ")) && strings.ContainsAny(w[:1], "-*+#[/0123456789:") {
			w = "so " + w
		}
		b.WriteString(w)
	}
	if g.p.OddDocs && g.pct(8) {
		b.WriteString(g.pick([]string{"\n+build ignore", "\n\t+build ignore\nand more", "\n +\tbuild never", "\ngo:build ignore", "\n//go:build ignore"}))
	}
	s := b.String()
	if strings.HasSuffix(s, "\\") {
		s += "."
	}
	// A backslash at the end of a line continues the comment in C.
	for _, nl := range []string{"\n", "\r", "\t", " "} {
		s = strings.ReplaceAll(s, "\\"+nl, "\\."+nl)
	}
	s = strings.ReplaceAll(s, "\\\u2028", "\\.\u2028")
	s = strings.ReplaceAll(s, "\\\u2029", "\\.\u2029")
	s = strings.ReplaceAll(s, "\\\u0085", "\\.\u0085")
	s = strings.ReplaceAll(s, "\\u", "\\v")
	for strings.Contains(s, "''") || strings.Contains(s, "``") {
		s = strings.NewReplacer("''", "'", "``", "`").Replace(s)
	}
	return s
}

// annotation documents a node, now and then.
func (g *G) annotation() *Node {
	if !g.pct(g.p.Docs) {
		return nil
	}
	a := N("annotation")
	if g.pct(20) {
		info := N("appinfo")
		info.X = g.docText()
		if g.pct(50) {
			info.Add(N("element", "name", "Nothing", "type", "string"))
		}
		if g.pct(30) {
			info.Add(N("documentation"))
			info.K[len(info.K)-1].X = "not documentation"
		}
		a.Add(info)
	}
	for i := 1; i > 0; i-- {
		d := N("documentation")
		d.X = g.docText()
		if g.pct(10) {
			d.Add(N("b"))
			d.K[0].X = g.docText()
		}
		a.Add(d)
		if g.pct(15) {
			i++
		}
		if g.pct(10) {
			d.A["xml:lang"] = "en"
		}
	}
	return a
}

func (g *G) note(n *Node) *Node {
	if a := g.annotation(); a != nil {
		n.K = append([]*Node{a}, n.K...)
	}
	if g.pct(8) {
		n.A["id"] = g.word()
	}
	return n
}

var facetNames = strings.Fields(`length minLength maxLength pattern whiteSpace maxInclusive maxExclusive minInclusive minExclusive totalDigits fractionDigits`)

func (g *G) facets(r *Node, enum bool) {
	if enum {
		for i, n := 0, 1+g.r.Intn(4); i < n; i++ {
			r.Add(g.note(N("enumeration", "value", g.enumValue(r.Str("base"), i))))
		}
	}
	if g.pct(g.p.Facets) {
		fs := append([]string{}, facetNames...)
		g.r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
		for i := 1 + g.r.Intn(3); i > 0; i-- {
			v := fmt.Sprint(1 + g.r.Intn(9))
			if fs[i] == "pattern" {
				v = "[A-Z]{2,4}\\d*"
			} else if fs[i] == "whiteSpace" {
				v = "collapse"
			}
			r.Add(g.note(N(fs[i], "value", v)))
			if fs[i] == "pattern" && g.pct(30) {
				r.Add(N("pattern", "value", "x|y"))
			}
		}
	}
	if enum && g.pct(30) {
		g.r.Shuffle(len(r.K), func(i, j int) { r.K[i], r.K[j] = r.K[j], r.K[i] })
	}
}

// enumValue is a value that can be told apart from the others of the type.
func (g *G) enumValue(base string, i int) string {
	b := base
	for g.ends[b] != "" {
		b = g.ends[b]
	}
	switch b {
	case "boolean":
		return []string{"true", "false", "1", "0"}[i%4]
	case "int", "integer", "long", "short", "decimal", "double", "float", "negativeInteger", "nonNegativeInteger", "nonPositiveInteger",
		"positiveInteger", "unsignedInt", "unsignedLong", "unsignedShort", "byte", "unsignedByte":
		v := i*10 + g.r.Intn(10)
		if g.pct(25) && !g.p.Instance { // as XML Schema has numbers, but other languages don't
			if (b == "double" || b == "float") && g.pct(40) {
				return []string{"INF", "-INF", "NaN", fmt.Sprint(v) + "E2"}[i%4]
			}
			return fmt.Sprintf(g.pick([]string{"%03d", "-%02d", "+%d", "0%d", "%d.50", "00%d", "-%d"}), v)
		}
		return fmt.Sprint(v)
	}
	w := g.word()
	if i == 0 && g.pct(8) {
		return g.pick([]string{"", " ", "  x", "x ", "\u00a0", "%", "%s", "\t", "'", "\\", "\n"})
	}
	if g.pct(30) {
		w = g.pick([]string{title(w), w + " " + w, w + "-1", fmt.Sprint(i) + w, "'" + w + "'", w + "\\", w + "/x", "\"" + w, "-" + w, w + ".z", "é" + w, strings.ToUpper(w), w + "*", "+" + w, w + "=1,"})
	}
	return w + fmt.Sprint(i)
}

func (g *G) restriction(base string, enum bool) *Node {
	r := N("restriction", "base", base)
	g.facets(r, enum)
	return r
}

func (g *G) inlineSimple() *Node {
	base := g.builtin()
	if len(g.simple) > 0 && g.pct(30) {
		base = g.pick(g.simple)
	}
	return g.note(N("simpleType", g.note(g.restriction(base, g.pct(g.p.Enums)))))
}

// inlineType is the type of a member that is defined in place: mostly a
// restriction.
func (g *G) inlineType() *Node {
	if g.p.Instance || !g.pct(20) {
		return g.inlineSimple()
	}
	item := g.builtin()
	if len(g.simple) > 0 && g.pct(40) {
		item = g.pick(g.simple)
	}
	switch g.r.Intn(5) {
	case 0:
		return g.note(N("simpleType", N("list", "itemType", item)))
	case 1:
		return g.note(N("simpleType", N("list", g.inlineSimple())))
	case 2:
		r := N("restriction")
		g.facets(r, g.pct(30))
		r.K = append([]*Node{N("simpleType", N("list", "itemType", item))}, r.K...)
		return N("simpleType", r)
	case 3:
		u := N("union", "memberTypes", []string{item})
		if g.pct(50) {
			u.Add(g.inlineSimple())
		}
		return N("simpleType", u)
	default:
		return N("simpleType", N("union", g.inlineSimple(), N("simpleType", N("list", "itemType", item))))
	}
}

func (g *G) occurs(n *Node, pct int) {
	if g.pct(pct) {
		n.A["maxOccurs"] = g.pick([]string{"unbounded", "2", "10", "99"})
		if g.pct(8) && !g.p.Instance {
			n.A["maxOccurs"] = g.pick([]string{"99999999999999999999", "+2", " 3 ", "007", " unbounded", "4294967296"})
		}
	} else if g.pct(20) {
		n.A["maxOccurs"] = "1"
		if g.pct(8) && !g.p.Instance {
			n.A["maxOccurs"] = g.pick([]string{"01", "+1", " 1", "1 ", "0001", "00", " 0 "})
		}
	} else if g.pct(3) && !g.p.Instance {
		n.A["maxOccurs"] = "0"
	}
	if g.pct(25) {
		n.A["minOccurs"] = g.pick([]string{"0", "1"})
	}
}

func (g *G) noiseAttrs(n *Node) {
	if g.pct(10) {
		n.A["nillable"] = "true"
	}
	if g.pct(8) {
		n.A["form"] = "qualified"
	}
	if n.Str("ref") == "" && g.pct(8) {
		n.A["default"] = "1"
	}
}

// localElement makes an element of a structure.
func (g *G) localElement(used map[string]bool, depth int) *Node {
	var e *Node
	switch {
	case g.pct(g.p.Anon) && depth < 3:
		e = N("element", "name", g.anonName(used), g.complexBody(N("complexType"), depth+1))
	case g.pct(g.p.Inline):
		e = N("element", "name", g.local(used), g.inlineType())
	case len(g.element) > 0 && g.pct(15):
		n := g.pick(g.element)
		if used[key(n)] {
			return g.localElement(used, depth)
		}
		used[key(n)] = true
		e = N("element", "ref", n)
	default:
		e = N("element", "name", g.local(used))
		if !g.pct(5) {
			e.A["type"] = g.anyType()
		}
	}
	g.occurs(e, g.p.Plural)
	// What may contain itself has to be optional.
	if rank, ok := g.baseRank[e.Str("type")]; g.p.Instance && (e.Str("ref") != "" || ok && rank >= g.current) {
		e.A["minOccurs"] = "0"
	}
	g.noiseAttrs(e)
	if e.Str("ref") == "" && g.pct(5) {
		e.Add(N("key", "name", g.word(), N("selector", "xpath", "a/b"), N("field", "xpath", "@id")))
	}
	return g.note(e)
}

func (g *G) compositor(used map[string]bool, level, depth int, inGroup bool) *Node {
	c := N(g.pick([]string{"sequence", "choice", "sequence", "choice", "all"}))
	if level > 0 && c.T == "all" {
		c.T = "sequence"
	}
	if c.T != "all" {
		g.occurs(c, g.p.Plural/2)
	}
	if c.T == "choice" && g.p.Instance && g.pct(70) {
		c.A["maxOccurs"] = "unbounded"
	}
	var els []*Node
	members := g.r.Intn(g.p.Members + 1)
	if members == 0 && g.p.Instance {
		members = 1
	}
	for i := members; i > 0; i-- {
		switch {
		case c.T != "all" && level < g.p.Depth && g.pct(25):
			c.Add(g.compositor(used, level+1, depth, inGroup))
		case c.T != "all" && len(g.group) > 0 && g.pct(15) && !(g.p.Instance):
			n := g.pick(g.group)
			if used[key(n)] && !(used["group "+n] && g.pct(3*g.p.Repeats)) {
				continue
			}
			used[key(n)], used["group "+n] = true, true
			gr := N("group", "ref", n)
			g.occurs(gr, g.p.Plural)
			c.Add(g.note(gr))
		case g.pct(4) && !g.p.Instance:
			c.Add(g.note(N("any", "processContents", "lax", "minOccurs", "0")))
		default:
			e := g.localElement(used, depth)
			c.Add(e)
			if e.Str("type") != "" {
				els = append(els, e)
			}
		}
	}
	if len(els) > 0 && g.pct(g.p.Repeats) {
		again := N("element", "name", els[0].Str("name"), "type", els[0].Str("type"))
		if g.pct(30) && !g.p.Instance { // it's another one if the case differs
			again.A["name"] = g.flip(els[0].Str("name"))
		}
		g.occurs(again, g.p.Plural)
		inner := N("sequence", again)
		g.occurs(inner, g.p.Plural/2)
		if c.T == "all" {
			c.T = "choice"
		}
		c.Add(inner)
	}
	return g.note(c)
}

// elementNames are the names of the elements that a structure declares.
func elementNames(n *Node) []string {
	var res []string
	for _, k := range n.K {
		if k.T == "element" {
			if s := k.Str("name"); s != "" {
				res = append(res, s)
			}
		} else {
			res = append(res, elementNames(k)...)
		}
	}
	return res
}

func (g *G) attributes(n *Node, used map[string]bool, inAgroup string) {
	for i := g.r.Intn(g.p.AttrMax + 1); i > 0; i-- {
		var a *Node
		switch {
		case g.p.XMLAttrs && g.pct(10):
			x := g.pick([]string{"xml:lang", "xml:space", "xml:base", "xml:id"})
			if used[key(x)] {
				continue
			}
			used[key(x)] = true
			a = N("attribute", "ref", x)
		case len(g.attribute) > 0 && g.pct(20):
			x := g.pick(g.attribute)
			if used[key(x)] {
				continue
			}
			used[key(x)] = true
			a = N("attribute", "ref", x)
		case g.pct(g.p.Inline):
			a = N("attribute", "name", g.local(used), g.inlineType())
		default:
			name := ""
			if g.pct(8) { // called as an element, or as the content
				name = g.pick(append(elementNames(n), "value"))
				if used["@"+key(name)] || (name == "value" && (g.p.Instance || used[key(name)])) {
					name = ""
				}
			}
			if name == "" {
				name = g.local(used)
			}
			used["@"+key(name)] = true
			a = N("attribute", "name", name)
			if !g.pct(8) {
				a.A["type"] = g.anySimple()
			}
		}
		if g.pct(40) {
			a.A["use"] = "required"
		} else if g.pct(30) {
			a.A["use"] = g.pick([]string{"optional", "optional", "prohibited"})
		}
		if a.A["use"] == "prohibited" && g.p.Instance {
			delete(a.A, "use")
		}
		if g.pct(10) && !g.p.Instance {
			a.A["fixed"] = "required"
		}
		n.Add(g.note(a))
	}
	if len(g.agroup) > 0 && g.pct(25) && !g.p.Instance {
		x := g.pick(g.agroup)
		if !used[key(x)] && (inAgroup == "" || g.grpRank[x] < g.grpRank[inAgroup]) {
			used[key(x)] = true
			n.Add(g.note(N("attributeGroup", "ref", x)))
		}
	}
	if g.pct(30) {
		g.r.Shuffle(len(n.K), func(i, j int) {
			ok := func(t string) bool { return t == "attribute" || t == "attributeGroup" }
			if ok(n.K[i].T) && ok(n.K[j].T) {
				n.K[i], n.K[j] = n.K[j], n.K[i]
			}
		})
	}
	if g.pct(5) && !g.p.Instance {
		n.Add(N("anyAttribute", "namespace", "##other"))
	}
}

// complexBody fills a complex type.
func (g *G) complexBody(c *Node, depth int) *Node {
	used := map[string]bool{}
	name := c.Str("name")
	if g.pct(g.p.Extend) {
		// extension or restriction of something
		var complexBases []string
		for _, b := range g.complex {
			if name == "" || g.baseRank[b] < g.baseRank[name] {
				complexBases = append(complexBases, b)
			}
		}
		if len(complexBases) > 0 && g.pct(50) {
			if g.pct(20) && !g.p.Instance {
				r := N("restriction", "base", g.pick(complexBases))
				r.Add(g.compositor(used, 0, depth, false))
				g.attributes(r, used, "")
				c.Add(N("complexContent", r))
			} else {
				e := N("extension", "base", g.pick(complexBases))
				if g.pct(70) {
					e.Add(g.compositor(used, 0, depth, false))
				}
				g.attributes(e, used, "")
				cc := N("complexContent", e)
				if g.pct(20) {
					cc.A["mixed"] = "false"
				}
				c.Add(cc)
			}
		} else {
			e := N("extension", "base", g.anySimple())
			g.attributes(e, used, "")
			c.Add(N("simpleContent", e))
		}
		return g.note(c)
	}
	if g.pct(85) {
		c.Add(g.compositor(used, 0, depth, false))
	} else if len(g.group) > 0 && !g.p.Instance && g.pct(50) {
		n := g.pick(g.group)
		used[key(n)] = true
		gr := N("group", "ref", n)
		g.occurs(gr, g.p.Plural)
		c.Add(g.note(gr))
	}
	g.attributes(c, used, "")
	if g.pct(8) {
		c.A["mixed"] = "true"
	}
	return g.note(c)
}

// Schema makes a random schema.
func (g *G) Schema() *Node {
	g.used, g.names = map[string]bool{}, nil
	g.simple, g.complex, g.list, g.union, g.group, g.agroup, g.element, g.attribute = nil, nil, nil, nil, nil, nil, nil, nil
	g.baseRank, g.grpRank, g.simpleRank, g.ends = map[string]int{}, map[string]int{}, map[string]int{}, map[string]string{}
	n := g.p.Comps[0] + g.r.Intn(g.p.Comps[1]-g.p.Comps[0]+1)
	type plan struct{ kind, name string }
	var plans []plan
	var kinds []string
	total := 0
	for k := range g.p.Kinds {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	for _, k := range kinds {
		total += g.p.Kinds[k]
	}
	for i := 0; i < n; i++ {
		x := g.r.Intn(total)
		kind := ""
		for _, k := range kinds {
			if x < g.p.Kinds[k] {
				kind = k
				break
			}
			x -= g.p.Kinds[k]
		}
		name := g.name()
		plans = append(plans, plan{kind, name})
		switch kind {
		case "restriction", "enum":
			g.simple = append(g.simple, name)
			g.simpleRank[name] = i
		case "list":
			g.list = append(g.list, name)
		case "union":
			g.union = append(g.union, name)
		case "complex":
			g.complex = append(g.complex, name)
			g.baseRank[name] = i
		case "element", "anonelement", "inlineelement":
			g.element = append(g.element, name)
		case "attribute":
			g.attribute = append(g.attribute, name)
		case "group":
			g.group = append(g.group, name)
			g.grpRank[name] = i
		case "agroup":
			g.agroup = append(g.agroup, name)
			g.grpRank[name] = i
		}
	}
	sames := g.namesakes(func(f func(kind string, name *string)) {
		for i := range plans {
			f(plans[i].kind, &plans[i].name)
		}
	})
	root := N("schema")
	for i, p := range plans {
		g.current = i
		if p.kind == "anonelement" {
			g.current = n
		}
		switch p.kind {
		case "restriction", "enum":
			base := g.builtin()
			var lower []string
			for _, s := range g.simple {
				if g.simpleRank[s] < i {
					lower = append(lower, s)
				}
			}
			if len(lower) > 0 && g.pct(45) {
				base = g.pick(lower)
			} else if len(g.list)+len(g.union) > 0 && g.pct(8) && !g.p.Instance {
				base = g.pick(append(append([]string{}, g.list...), g.union...))
			}
			g.ends[p.name] = base
			root.Add(g.note(N("simpleType", "name", p.name, g.note(g.restriction(base, p.kind == "enum")))))
		case "list":
			item := g.builtin()
			if len(g.simple) > 0 && g.pct(50) {
				item = g.pick(g.simple)
			} else if len(g.union) > 0 && g.pct(20) {
				item = g.pick(g.union)
			}
			list := N("list", "itemType", item)
			switch {
			case g.p.Instance:
			case g.pct(15): // of a type that's defined in place
				list = N("list", g.inlineSimple())
			case g.pct(15): // restricted
				list = N("restriction", N("simpleType", list))
				g.facets(list, false)
			}
			root.Add(g.note(N("simpleType", "name", p.name, g.note(list))))
		case "union":
			seen := map[string]bool{}
			var ms []string
			for i := 1 + g.r.Intn(4); i > 0; i-- {
				m := g.builtin()
				if c := append(append([]string{}, g.simple...), g.list...); len(c) > 0 && g.pct(60) {
					m = g.pick(c)
				}
				if !seen[key(m)] {
					seen[key(m)] = true
					ms = append(ms, m)
				}
			}
			u := N("union", "memberTypes", ms)
			if g.pct(15) && !g.p.Instance {
				u = N("union", g.inlineSimple())
			}
			if g.pct(20) {
				u.Add(g.inlineSimple())
				for g.pct(40) {
					switch g.r.Intn(3) {
					case 0:
						u.Add(g.inlineSimple())
					case 1:
						u.Add(N("simpleType", N("list", "itemType", g.builtin())))
					case 2:
						inner := N("union", "memberTypes", []string{g.builtin()})
						if g.pct(50) {
							inner.Add(g.inlineSimple())
						}
						u.Add(N("simpleType", inner))
					}
				}
			}
			root.Add(g.note(N("simpleType", "name", p.name, g.note(u))))
		case "complex":
			c := N("complexType", "name", p.name)
			if g.pct(8) && !g.p.Instance {
				c.A["abstract"] = "true"
			}
			root.Add(g.complexBody(c, 0))
		case "element":
			e := N("element", "name", p.name)
			if sames[p.kind+p.name] {
				e.A["type"] = p.name
			} else if !g.pct(6) {
				e.A["type"] = g.anyType()
			}
			g.noiseAttrs(e)
			delete(e.A, "form")
			root.Add(g.note(e))
		case "anonelement":
			root.Add(g.note(N("element", "name", p.name, g.complexBody(N("complexType"), 0))))
		case "inlineelement":
			root.Add(g.note(N("element", "name", p.name, g.inlineType())))
		case "attribute":
			a := N("attribute", "name", p.name)
			if sames[p.kind+p.name] {
				a.A["type"] = p.name
			} else if g.pct(25) {
				a.Add(g.inlineType())
			} else if !g.pct(8) {
				a.A["type"] = g.anySimple()
			}
			root.Add(g.note(a))
		case "group":
			used := map[string]bool{}
			gr := N("group", "name", p.name)
			saved := g.group
			g.group = nil
			for _, x := range saved {
				if g.grpRank[x] < i {
					g.group = append(g.group, x)
				}
			}
			gr.Add(g.compositor(used, 0, 0, true))
			g.group = saved
			root.Add(g.note(gr))
		case "agroup":
			ag := N("attributeGroup", "name", p.name)
			g.attributes(ag, map[string]bool{}, p.name)
			root.Add(g.note(ag))
		case "noise":
			if a := g.annotation(); a != nil {
				root.Add(a)
			} else {
				root.Add(N("notation", "name", p.name, "public", "image/gif"))
			}
		}
	}
	g.r.Shuffle(len(root.K), func(i, j int) { root.K[i], root.K[j] = root.K[j], root.K[i] })
	return root
}

// namesakes gives some of the global elements and attributes the name of a
// type, which they'll have.
func (g *G) namesakes(plans func(func(kind string, name *string))) map[string]bool {
	sames := map[string]bool{}
	if g.p.Namesakes == 0 {
		return sames
	}
	rename := func(kind string, name *string, names, types []string) {
		if len(types) == 0 || !g.pct(g.p.Namesakes) {
			return
		}
		t := g.pick(types)
		if sames[kind+t] {
			return
		}
		sames[kind+t] = true
		for i := range names {
			if names[i] == *name {
				names[i] = t
			}
		}
		*name = t
	}
	simple := append(append(append([]string{}, g.simple...), g.list...), g.union...)
	plans(func(kind string, name *string) {
		switch kind {
		case "element":
			rename(kind, name, g.element, append(append([]string{}, g.complex...), simple...))
		case "attribute":
			rename(kind, name, g.attribute, simple)
		}
	})
	return sames
}

// RandomDocs draws n schemas.
func RandomDocs(seed int64, p Profile, n int) []*Node {
	var docs []*Node
	for i := 0; i < n; i++ {
		g := &G{r: rand.New(rand.NewSource(seed*1000003 + int64(i))), p: p}
		docs = append(docs, g.Schema())
	}
	return docs
}
