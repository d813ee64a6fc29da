package main

import (
	"sort"

	"github.com/xuri/xgen"
)

// Comp is an entry of the proto tree, see spec/XDoc.tla.
type Comp struct {
	K       string   `json:"k"`
	Name    string   `json:"name"`
	Doc     string   `json:"doc"`
	Variety string   `json:"variety"`
	Base    string   `json:"base"`
	Type    string   `json:"type"`
	Pl      bool     `json:"pl"`
	Opt     bool     `json:"opt"`
	Ref     string   `json:"ref"`
	Mem     []Mem    `json:"mem"`
	Enum    []string `json:"enum"`
	Els     []Comp   `json:"els"`
	Ats     []Comp   `json:"ats"`
	Grs     []Comp   `json:"grs"`
	Ags     []Comp   `json:"ags"`
}
type Mem struct {
	Name string `json:"name"`
	Type string `json:"type"`
}

func comp(k, name, doc string) Comp {
	return Comp{K: k, Name: name, Doc: squeeze(doc), Opt: true, Mem: []Mem{}, Enum: []string{},
		Els: []Comp{}, Ats: []Comp{}, Grs: []Comp{}, Ags: []Comp{}}
}

func treeOf(tree []interface{}) []Comp {
	out := []Comp{}
	for _, e := range tree {
		switch v := e.(type) {
		case *xgen.SimpleType:
			c := comp("simple", v.Name, v.Doc)
			c.Base = v.Base
			switch {
			case v.Union:
				c.Variety = "union"
			case v.List:
				c.Variety = "list"
			default:
				c.Variety = "restriction"
			}
			for n, t := range v.MemberTypes {
				c.Mem = append(c.Mem, Mem{n, t})
			}
			sort.Slice(c.Mem, func(i, j int) bool { return c.Mem[i].Name < c.Mem[j].Name })
			c.Enum = append(c.Enum, v.Restriction.Enum...)
			out = append(out, c)
		case *xgen.ComplexType:
			c := comp("complex", v.Name, v.Doc)
			c.Base = v.Base
			for _, e := range v.Elements {
				c.Els = append(c.Els, elementOf(&e))
			}
			for _, a := range v.Attributes {
				c.Ats = append(c.Ats, attributeOf(&a))
			}
			for _, g := range v.Groups {
				c.Grs = append(c.Grs, groupOf(&g))
			}
			for _, g := range v.AttributeGroup {
				c.Ags = append(c.Ags, agroupOf(&g))
			}
			out = append(out, c)
		case *xgen.Element:
			out = append(out, elementOf(v))
		case *xgen.Attribute:
			out = append(out, attributeOf(v))
		case *xgen.Group:
			out = append(out, groupOf(v))
		case *xgen.AttributeGroup:
			out = append(out, agroupOf(v))
		default:
			out = append(out, comp("unknown", "", ""))
		}
	}
	return out
}

func elementOf(v *xgen.Element) Comp {
	c := comp("element", v.Name, v.Doc)
	c.Type, c.Pl = v.Type, v.Plural
	return c
}

func attributeOf(v *xgen.Attribute) Comp {
	c := comp("attribute", v.Name, v.Doc)
	c.Type, c.Opt, c.Pl = v.Type, v.Optional, v.Plural
	return c
}

func groupOf(v *xgen.Group) Comp {
	c := comp("group", v.Name, v.Doc)
	c.Pl, c.Type, c.Ref = v.Plural, v.Ref, v.Ref
	for _, e := range v.Elements {
		c.Els = append(c.Els, elementOf(&e))
	}
	for _, g := range v.Groups {
		c.Grs = append(c.Grs, groupOf(&g))
	}
	return c
}

func agroupOf(v *xgen.AttributeGroup) Comp {
	c := comp("agroup", v.Name, v.Doc)
	c.Type, c.Ref = v.Ref, v.Ref
	for _, a := range v.Attributes {
		c.Ats = append(c.Ats, attributeOf(&a))
	}
	for _, g := range v.AttributeGroup {
		c.Ags = append(c.Ags, agroupOf(&g))
	}
	return c
}
