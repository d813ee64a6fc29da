package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"unicode"
)

// Node is a node of a schema document, see spec/XDoc.tla. References are by
// local name; prefixes are a matter of the presentation.
type Node struct {
	T   string
	A   map[string]interface{} // string, or []string for memberTypes
	K   []*Node
	X   string // text as written (documentation)
	Raw string // markup that is written after the start tag as it is (not part of the model)
}

func N(t string, kv ...interface{}) *Node {
	n := &Node{T: t, A: map[string]interface{}{}}
	for i := 0; i < len(kv); i++ {
		switch v := kv[i].(type) {
		case *Node:
			if v != nil {
				n.K = append(n.K, v)
			}
		case []*Node:
			n.K = append(n.K, v...)
		case string:
			n.A[v] = kv[i+1]
			i++
		}
	}
	return n
}

func (n *Node) Add(k ...*Node) *Node {
	for _, c := range k {
		if c != nil {
			n.K = append(n.K, c)
		}
	}
	return n
}

func (n *Node) Str(k string) string {
	s, _ := n.A[k].(string)
	return s
}

func (n *Node) Clone() *Node {
	m := &Node{T: n.T, A: map[string]interface{}{}, X: n.X, Raw: n.Raw}
	for k, v := range n.A {
		m.A[k] = v
	}
	for _, c := range n.K {
		m.K = append(m.K, c.Clone())
	}
	return m
}

func (n *Node) Count() int {
	c := 1
	for _, k := range n.K {
		c += k.Count()
	}
	return c
}

func (n *Node) Walk(f func(*Node)) {
	f(n)
	for _, k := range n.K {
		k.Walk(f)
	}
}

// squeeze removes all white space, which is immaterial in documentation, and
// undoes what gofmt makes of quotes in comments.
func squeeze(s string) string {
	s = strings.NewReplacer("\u201c", "``", "\u201d", "''").Replace(s)
	return strings.Map(func(r rune) rune {
		if unicode.IsSpace(r) || r == 0x2028 || r == 0x2029 || r == 0x85 {
			return -1
		}
		return r
	}, s)
}

type jnode struct {
	T string                 `json:"t"`
	A map[string]interface{} `json:"a"`
	K []*Node                `json:"k"`
	X string                 `json:"x"`
}

func (n *Node) MarshalJSON() ([]byte, error) {
	k := n.K
	if k == nil {
		k = []*Node{}
	}
	a := n.A
	if a == nil {
		a = map[string]interface{}{}
	}
	return json.Marshal(jnode{n.T, a, k, squeeze(n.X)})
}

func (n *Node) UnmarshalJSON(b []byte) error {
	var j struct {
		T string
		A json.RawMessage
		K []*Node
		X string
	}
	if err := json.Unmarshal(b, &j); err != nil {
		return err
	}
	n.T, n.K, n.X = j.T, j.K, j.X
	n.A = map[string]interface{}{}
	if len(j.A) > 0 && j.A[0] == '{' { // TLC writes an empty record as []
		var a map[string]interface{}
		if err := json.Unmarshal(j.A, &a); err != nil {
			return err
		}
		for k, v := range a {
			if l, ok := v.([]interface{}); ok {
				var ss []string
				for _, x := range l {
					ss = append(ss, fmt.Sprint(x))
				}
				n.A[k] = ss
			} else {
				n.A[k] = fmt.Sprint(v)
			}
		}
	}
	return nil
}

var builtins = func() map[string]bool {
	m := map[string]bool{}
	for _, n := range strings.Fields(`anyType ENTITIES ENTITY ID IDREF IDREFS NCName NMTOKEN NMTOKENS NOTATION Name QName
		anyURI base64Binary boolean byte date dateTime decimal double duration float gDay gMonth gMonthDay gYear gYearMonth
		hexBinary int integer language long negativeInteger nonNegativeInteger normalizedString nonPositiveInteger
		positiveInteger short string time token unsignedByte unsignedInt unsignedLong unsignedShort`) {
		m[n] = true
	}
	return m
}()

// Style is how a document is written.
type Style struct {
	Prefix  string // of the XML Schema namespace
	Target  string // prefix of the schema's own namespace, "-" for no namespace
	Extra   string // further attributes of the schema element
	Prolog  string
	Indent  bool
	Tag     func(n *Node, start bool) string    // prefix of a tag, if it differs
	Attr    func(k string) (quote string)       // quote of an attribute
	Order   func(keys []string) []string        // order of the attributes
	Between func() string                       // between tags
	InTag   func() string                       // white space between attributes
	Empty   func() bool                         // write an empty element as <a></a>
	Text    func(s string) string               // escapes text
	Value   func(s string, quote string) string // escapes an attribute's value
}

func escText(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\r", "&#13;").Replace(s)
}

func escAttr(s, quote string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", "\"", "&quot;", "'", "&apos;", "\n", "&#10;", "\t", "&#9;", "\r", "&#13;").Replace(s)
}

var refAttrs = map[string]bool{"type": true, "ref": true, "base": true, "itemType": true, "memberTypes": true,
	"substitutionGroup": true, "refer": true}

// Qualified gives a reference its prefix.
func (st *Style) Qualified(name string) string {
	if strings.HasPrefix(name, "xml:") || strings.Contains(name, ":") && !builtins[name] {
		return name
	}
	p := st.Target
	if builtins[name] {
		p = st.Prefix
	}
	if p == "" || p == "-" {
		return name
	}
	return p + ":" + name
}

func (st *Style) value(k string, v interface{}) string {
	switch x := v.(type) {
	case []string:
		var ss []string
		for _, s := range x {
			ss = append(ss, st.Qualified(s))
		}
		return strings.Join(ss, " ")
	case string:
		if refAttrs[k] {
			return st.Qualified(x)
		}
		return x
	}
	return fmt.Sprint(v)
}

// XML writes the document down.
func (st Style) XML(root *Node) string {
	if st.Text == nil {
		st.Text = escText
	}
	if st.Value == nil {
		st.Value = escAttr
	}
	var b strings.Builder
	b.WriteString(st.Prolog)
	st.write(&b, root, 0)
	b.WriteString("\n")
	return b.String()
}

func (st *Style) sep(b *strings.Builder, depth int) {
	if st.Indent {
		b.WriteString("\n" + strings.Repeat("  ", depth))
	}
	if st.Between != nil {
		b.WriteString(st.Between())
	}
}

func (st *Style) write(b *strings.Builder, n *Node, depth int) {
	p := st.Prefix
	if i := strings.Index(n.T, ":"); i >= 0 { // foreign element
		p = ""
	}
	tag := n.T
	if p != "" {
		tag = p + ":" + n.T
	}
	b.WriteString("<" + tag)
	ws := func() string {
		if st.InTag != nil {
			return st.InTag()
		}
		return " "
	}
	type kv struct{ k, v string }
	attrs := map[string]string{}
	var keys []string
	for k, v := range n.A {
		if k == "memberTypes" {
			if l, ok := v.([]string); ok && len(l) == 0 {
				continue
			}
		}
		keys = append(keys, k)
		attrs[k] = st.value(k, v)
	}
	sort.Strings(keys)
	if depth == 0 {
		xs := "xmlns"
		if st.Prefix != "" {
			xs = "xmlns:" + st.Prefix
		}
		keys = append(keys, xs)
		attrs[xs] = "http://www.w3.org/2001/XMLSchema"
		if st.Target != "-" {
			t := "xmlns"
			if st.Target != "" {
				t = "xmlns:" + st.Target
			}
			keys = append(keys, t, "targetNamespace")
			attrs[t] = "urn:example"
			attrs["targetNamespace"] = "urn:example"
		}
	}
	if st.Order != nil {
		keys = st.Order(keys)
	}
	for _, k := range keys {
		q := "\""
		if st.Attr != nil {
			q = st.Attr(k)
		}
		b.WriteString(ws() + k + "=" + q + st.Value(attrs[k], q) + q)
	}
	if depth == 0 {
		b.WriteString(st.Extra)
	}
	if len(n.K) == 0 && n.X == "" && n.Raw == "" {
		if st.Empty == nil || !st.Empty() {
			b.WriteString("/>")
			return
		}
	}
	b.WriteString(">")
	b.WriteString(n.Raw)
	if n.X != "" {
		b.WriteString(st.Text(n.X))
	}
	for _, k := range n.K {
		st.sep(b, depth+1)
		st.write(b, k, depth+1)
	}
	if len(n.K) > 0 {
		st.sep(b, depth)
	}
	b.WriteString("</" + tag + ">")
}
