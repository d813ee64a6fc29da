package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Token is a token of spec/XInput.tla.
type Token struct {
	K string `json:"k"`
	S string `json:"s"`
	N string `json:"n"`
	F string `json:"f"`
}

var placeholders = regexp.MustCompile(`\{(n|t|x[0-9A-F]{2})\}`)

func (t Token) bytes() string {
	return placeholders.ReplaceAllStringFunc(t.S, func(p string) string {
		switch p {
		case "{n}":
			return "\n"
		case "{t}":
			return "\t"
		}
		b, err := strconv.ParseUint(p[2:4], 16, 8)
		check(err)
		return string([]byte{byte(b)})
	})
}

func textOf(toks []Token) string {
	var b strings.Builder
	for _, t := range toks {
		b.WriteString(t.bytes())
	}
	return b.String()
}

// tokensOf are the tokens of a document without faults.
func tokensOf(n *Node, root bool) []Token {
	tag := "xs:" + n.T
	s := "<" + tag
	if root {
		s += " xmlns:xs='http://www.w3.org/2001/XMLSchema' xmlns:t='urn:t' targetNamespace='urn:t'"
	}
	st := Style{Prefix: "xs", Target: "t"}
	var keys []string
	for k := range n.A {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		s += fmt.Sprintf(" %s='%s'", k, escAttr(st.value(k, n.A[k]), "'"))
	}
	f := "ok"
	switch n.T {
	case "element", "complexType", "simpleType", "attribute", "group", "attributeGroup":
		if n.Str("name") == "" {
			f = "may"
		}
	}
	toks := []Token{{"start", s + ">", tag, f}}
	if n.X != "" {
		toks = append(toks, Token{"text", escText(n.X), "", "ok"})
	}
	for _, k := range n.K {
		toks = append(toks, tokensOf(k, false)...)
	}
	return append(toks, Token{"end", "</" + tag + ">", tag, "ok"})
}

// input is a text to run.
type input struct {
	text  []Token // or nil
	j, c  int     // cut off in token j, or 0
	bytes string
	langs []string
	what  string
	files map[string]string // of a project, instead of bytes
	file  string
}

type inputRec struct {
	Text     int      `json:"text"`
	J        int      `json:"j"`
	C        int      `json:"c"`
	Outcomes []string `json:"outcomes"`
}

func (c *Check) inputTexts(env map[string]string, args ...string) [][]Token {
	var lines []string
	seen := map[string]bool{}
	t := &TLC{Module: "XInput", Env: env, Args: args,
		Config: "SPECIFICATION Spec\nINVARIANT Consistent\nINVARIANT Told\nCHECK_DEADLOCK FALSE\n"}
	if args != nil {
		t.Workers = 1
	}
	t.Each = func(l string) bool {
		if !strings.HasPrefix(l, "XV-INPUT ") {
			return false
		}
		if !seen[l] {
			seen[l] = true
			lines = append(lines, strings.TrimPrefix(l, "XV-INPUT "))
		}
		return true
	}
	c.TLC(t)
	if t.Violated != "" {
		panic("the model is wrong: " + t.Violated + t.Trace)
	}
	sort.Strings(lines)
	var texts [][]Token
	for _, l := range lines {
		var toks []Token
		check(json.Unmarshal([]byte(l), &toks))
		texts = append(texts, toks)
	}
	return texts
}

func checkC19(c *Check) {
	r := rand.New(rand.NewSource(c.Seed))
	var ins []input
	one := func() []string { return []string{langs[r.Intn(5)]} }

	// All small texts with at most one fault, or a sample of them.
	small := c.inputTexts(map[string]string{"XV_RANDOM": "no", "XV_TOKENS": "4", "XV_FAULTS": "2"})
	c.Coverage["small_texts"] = len(small)
	r.Shuffle(len(small), func(i, j int) { small[i], small[j] = small[j], small[i] })
	if n := c.N(9000, 120000); len(small) > n {
		small = small[:n]
	}
	c.Coverage["small_texts_run"] = len(small)
	for _, t := range small {
		ins = append(ins, input{text: t, bytes: textOf(t), langs: one(), what: "a small text"})
	}
	// Long ones, by simulation.
	var long [][]Token
	for f := 1; f <= 3; f++ {
		long = append(long, c.inputTexts(map[string]string{"XV_RANDOM": "yes", "XV_TOKENS": "40", "XV_FAULTS": strconv.Itoa(f)},
			"-simulate", fmt.Sprintf("num=%d", c.N(2000, 20000)), "-seed", fmt.Sprint(c.Seed+int64(f)), "-depth", "200")...)
	}
	c.Coverage["long_texts"] = len(long)
	for _, t := range long {
		ins = append(ins, input{text: t, bytes: textOf(t), langs: langs, what: "a long text"})
	}
	// Documents over the vocabulary of schemas in any nesting.
	for _, n := range c.enumerated("C19") {
		t := tokensOf(n, true)
		ins = append(ins, input{text: t, bytes: textOf(t), langs: langs, what: "any nesting"})
	}
	// Real schemas and texts, cut off after every byte.
	var whole [][]Token
	for _, n := range RandomDocs(c.Seed, profileFor("C21"), c.N(8, 60)) {
		whole = append(whole, tokensOf(n, true))
	}
	for _, t := range long[:c.N(40, 400)] {
		whole = append(whole, t)
	}
	cuts := 0
	for _, t := range whole {
		text := textOf(t)
		if len(text) > c.N(2500, 8000) {
			continue
		}
		n := 0
		ins = append(ins, input{text: nil, bytes: "", langs: langs, what: "the empty text"})
		for j, tok := range t {
			b := tok.bytes()
			for k := 1; k <= len(b); k++ {
				n++
				at := k
				if k == len(b) {
					at = len(tok.S)
				} else if at >= len(tok.S) {
					at = len(tok.S) - 1
				}
				ins = append(ins, input{text: t, j: j + 1, c: at, bytes: text[:n], langs: one(), what: "a text cut off"})
				cuts++
			}
		}
	}
	c.Coverage["cut_texts"] = cuts
	// Anything at all: changed bytes, noise, deep and wide texts.
	odd := 0
	add := func(what, s string, ls []string) {
		ins = append(ins, input{bytes: s, langs: ls, what: what})
		odd++
	}
	pool := append(append([][]Token{}, whole...), long...)
	for i := 0; i < c.N(6000, 80000); i++ {
		b := []byte(textOf(pool[r.Intn(len(pool))]))
		other := []byte(textOf(pool[r.Intn(len(pool))]))
		for k := 1 + r.Intn(4); k > 0 && len(b) > 0; k-- {
			at := r.Intn(len(b))
			to := at + r.Intn(len(b)-at)
			if to > at+60 {
				to = at + 60
			}
			switch r.Intn(6) {
			case 0:
				b[at] = byte(r.Intn(256))
			case 1:
				b = append(b[:at:at], b[to:]...)
			case 2:
				b = append(b[:to:to], b[at:]...)
			case 3:
				b[at] = `<>/"'=& :!-[]?;x0`[r.Intn(17)]
			case 4:
				if len(other) > 0 {
					b = append(b[:at:at], other[r.Intn(len(other)):]...)
				}
			case 5:
				b[at], b[to] = b[to], b[at]
			}
		}
		add("changed bytes", string(b), one())
	}
	for i := 0; i < 300; i++ {
		b := make([]byte, r.Intn(200))
		r.Read(b)
		add("noise", string(b), one())
	}
	deep := c.N(3000, 30000)
	for _, tag := range []string{"choice", "sequence", "element", "complexType", "simpleType", "group", "attributeGroup", "annotation", "attribute", "union", "restriction", "extension", "foo"} {
		for _, attr := range []string{"", " name='n'"} {
			open := "<xs:" + tag + attr + ">"
			root := "<xs:schema xmlns:xs='http://www.w3.org/2001/XMLSchema'>"
			s := root + strings.Repeat(open, deep) + strings.Repeat("</xs:"+tag+">", deep) + "</xs:schema>"
			add("deep nesting", s, one())
			add("deep nesting, cut off", root+strings.Repeat(open, deep), one())
			add("many siblings", root+strings.Repeat("<xs:"+tag+attr+"/>", deep)+"</xs:schema>", one())
		}
	}
	add("a long name", "<xs:schema xmlns:xs='http://www.w3.org/2001/XMLSchema'><xs:complexType name='"+strings.Repeat("n", 1<<20)+"'/></xs:schema>", langs)
	c.Coverage["other_texts"] = odd
	// Projects whose references go in circles, and such with broken files.
	around := append(c.projects([]projectSize{{2, 2, c.N(300, 3000)}, {3, 2, c.N(300, 3000)}}, "XV_CIRCULAR"),
		c.projects([]projectSize{{3, 2, c.N(150, 1500)}})...)
	for i, p := range around {
		files := p.sources(r)
		what := "a project"
		if broken := p.path(1 + r.Intn(len(p.Files))); i%3 == 0 {
			what = "a project with a broken file"
			b := []byte(files[broken])
			at := r.Intn(len(b))
			switch r.Intn(3) {
			case 0:
				b = b[:at]
			case 1:
				b[at] = `<>/"'=& :!-[]?;x0`[r.Intn(17)]
			case 2:
				b = append(b[:at:at], b[at+r.Intn(len(b)-at):]...)
			}
			files[broken] = string(b)
		}
		for k := range p.Files {
			ins = append(ins, input{files: files, file: p.path(k + 1), langs: one(), what: what + ", " + p.path(k+1)})
		}
	}
	c.Coverage["projects"] = len(around)

	var jobs []Job
	for i, in := range ins {
		j := Job{ID: i, Raw: map[string][]byte{"s.xsd": []byte(in.bytes)}}
		if in.files != nil {
			j.Raw = map[string][]byte{}
			for f, b := range in.files {
				j.Raw[f] = []byte(b)
			}
		} else {
			ins[i].file = "s.xsd"
		}
		for _, l := range in.langs {
			j.Runs = append(j.Runs, Run{Lang: l, File: ins[i].file})
		}
		jobs = append(jobs, j)
	}
	results := c.S.RunJobs(jobs)
	for start := 0; start < len(ins) && c.Violations == 0; start += 30000 {
		part := ins[start:]
		if len(part) > 30000 {
			part = part[:30000]
		}
		var texts [][]Token
		index := map[*Token]int{}
		recs := make([]inputRec, len(part))
		why := make([]string, len(part))
		for i, in := range part {
			rec := &recs[i]
			rec.Outcomes = []string{}
			if len(in.text) > 0 {
				if index[&in.text[0]] == 0 {
					texts = append(texts, in.text)
					index[&in.text[0]] = len(texts)
				}
				rec.Text = index[&in.text[0]]
			}
			rec.J, rec.C = in.j, in.c
			seen := map[string]bool{}
			for k, l := range in.langs {
				c.Traces++
				res := results[start+i][k]
				out, ok := res.Out[in.file+extOf[l]]
				o := "ok"
				switch {
				case res.Err == "" && (!ok || out == ""):
					o = "nothing written"
				case strings.HasPrefix(res.Err, "error:"):
					o = "error"
				case strings.HasPrefix(res.Err, "hang:"):
					o = "hang"
				case res.Err != "":
					o = "crash"
				}
				why[i] += l + ": " + o + " " + res.Err + "\n"
				if !seen[o] {
					seen[o] = true
					rec.Outcomes = append(rec.Outcomes, o)
				}
			}
			sort.Strings(rec.Outcomes)
		}
		if len(texts) == 0 {
			texts = append(texts, []Token{})
		}
		tpath, rpath := filepath.Join(c.S.Dir, "texts.ndjson"), filepath.Join(c.S.Dir, "outcomes.ndjson")
		writeNDJSON(tpath, len(texts), func(i int) interface{} { return texts[i] })
		writeNDJSON(rpath, len(recs), func(i int) interface{} { return recs[i] })
		t := &TLC{Module: "XInputTrace", Env: map[string]string{"XV_RANDOM": "no", "XV_TOKENS": "1", "XV_FAULTS": "1", "XV_TEXTS": tpath, "XV_RECS": rpath},
			Config: "SPECIFICATION TraceSpec\nINVARIANT Conforms\nALIAS Shown\nCHECK_DEADLOCK FALSE\n"}
		c.TLC(t)
		if t.Violated == "" {
			continue
		}
		n, _ := strconv.Atoi(regexp.MustCompile(`rec = (\d+)`).FindStringSubmatch(t.LastState())[1])
		in := part[n-1]
		shown := in.bytes
		if len(shown) > 600 {
			shown = shown[:600] + "..."
		}
		replay := map[string]string{"outcomes.txt": why[n-1], "tlc.txt": t.LastState()}
		if in.files == nil {
			replay["in/s.xsd"] = in.bytes
		}
		for f, s := range in.files {
			replay["in/"+f] = s
		}
		c.Violation(fmt.Sprintf("%s (%q): %s%s", in.what, shown, why[n-1], t.LastState()), replay)
	}
	for i := 0; i < 6; i++ {
		in := ins[i*len(ins)/6]
		s := in.bytes
		if len(s) > 800 {
			s = s[:800] + "..."
		}
		c.sample(map[string]string{"what": in.what, "text": strings.ToValidUTF8(s, "?")})
	}
}

func init() { checks["C19"] = checkC19 }
