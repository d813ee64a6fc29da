package main

func documented(text string, n *Node) *Node {
	d := N("documentation")
	d.X = text
	n.K = append([]*Node{N("annotation", d)}, n.K...)
	return n
}

var plainStyle = Style{Prefix: "xs", Target: "t", Indent: true}

// curated documents show known findings, or are odd in a way of their own.
func curated(id string) []*Doc {
	switch id {
	case "C09":
		return keywordDocs()
	case "C10":
		return []*Doc{
			{Known: "c-line-continues", Style: plainStyle, Origin: "curated", Node: N("schema",
				documented("first \\\n second \\", N("complexType", "name", "Foo", N("attribute", "name", "a", "type", "string"))),
				N("simpleType", "name", "Bar", N("restriction", "base", "int")))},
			{Known: "c-line-continues", Style: plainStyle, Origin: "curated", Node: N("schema",
				documented("ends in \\", N("simpleType", "name", "Foo", N("restriction", "base", "int"))))},
			{Known: "java-unicode-escape", Style: plainStyle, Origin: "curated", Node: N("schema",
				documented("says \\u000a class Evil {}", N("complexType", "name", "Foo", N("attribute", "name", "a", "type", "string"))))},
		}
	case "C11":
		return []*Doc{
			{Known: "base-named-member", Style: plainStyle, Origin: "curated", Node: N("schema",
				N("complexType", "name", "Bar", N("attribute", "name", "a", "type", "string")),
				N("complexType", "name", "Foo", N("complexContent", N("extension", "base", "Bar",
					N("sequence", N("element", "name", "Bar", "type", "string"))))))},
		}
	}
	return nil
}

// keywordDocs have every keyword as the name of members of every kind.
func keywordDocs() []*Doc {
	var docs []*Doc
	for _, words := range [][]string{rustWords, otherWords} {
		seq, attrs, group := N("sequence"), N("complexType", "name", "Foo"), N("sequence")
		agroup := N("attributeGroup", "name", "Qux")
		root := N("schema")
		for i, w := range words {
			seq.Add(N("element", "name", w, "type", "int"))
			group.Add(N("element", "name", w, "type", "int"))
			if i%2 == 1 {
				group.K[len(group.K)-1].A["maxOccurs"] = "unbounded"
			}
			a := N("attribute", "name", w, "type", "string")
			if i%3 == 1 {
				a.A["use"] = "required"
			}
			attrs.Add(a)
			agroup.Add(N("attribute", "name", w, "type", "string"))
		}
		root.Add(attrs, N("complexType", "name", "Bar", seq), N("group", "name", "Baz", group), agroup)
		docs = append(docs, &Doc{Style: plainStyle, Origin: "curated", Node: root})
		// and of components that aren't structures of their own
		root = N("schema")
		for i, w := range words {
			switch i % 4 {
			case 0:
				root.Add(N("simpleType", "name", w+"x", N("restriction", "base", "int")), N("element", "name", w, "type", w+"x"))
			case 1:
				root.Add(N("attribute", "name", w, "type", "int"))
			case 2:
				root.Add(N("simpleType", "name", w, N("list", "itemType", "int")))
			case 3:
				root.Add(N("simpleType", "name", w, N("restriction", "base", "int", N("enumeration", "value", "1"))))
			}
		}
		docs = append(docs, &Doc{Style: plainStyle, Origin: "curated", Node: root})
	}
	for _, w := range []string{"self", "Self", "se-lf", "SELF", "self_", "self.a"} {
		docs = append(docs, &Doc{Style: plainStyle, Origin: "curated", Node: N("schema",
			N("complexType", "name", w, N("sequence", N("element", "name", "a", "type", "int"))),
			N("complexType", "name", "Bar", N("sequence", N("element", "name", "b", "type", w), N("element", "name", "c", "type", w, "maxOccurs", "2"))),
			N("complexType", "name", "Baz", N("complexContent", N("extension", "base", w, N("attribute", "name", "d", "type", "int")))))})
	}
	return docs
}
