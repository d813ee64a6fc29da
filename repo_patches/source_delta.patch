From aa38b4b07f40b775f2d8e8167df512533ed840de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:39 +0000
Subject: [PATCH 01/58] fix: give inline types to the element or attribute that
 declares them

Elements were pushed twice or left on the stack, so that facets, documentation
and the ends of inline simple types were applied to stale elements: members
got replaced or moved to the top level, simple types got lost and others were
invented. Push every element once, pop it at its end tag, and set it aside
while its anonymous complex type is being read.
---
 parser.go         |  3 +++
 xmlComplexType.go | 38 +++++++++++++++++++++-----------------
 xmlElement.go     | 40 +++++++++++++++++++++-------------------
 xmlRestriction.go |  5 -----
 xmlSimpleType.go  | 21 ++++++++++++---------
 xmlUnion.go       |  4 +---
 6 files changed, 58 insertions(+), 53 deletions(-)

diff --git a/parser.go b/parser.go
index 781c36a..3a88962 100644
--- a/parser.go
+++ b/parser.go
@@ -50,6 +50,8 @@ type Options struct {
 	Group          *Stack
 	AttributeGroup *Stack
 	Choice         *Stack
+
+	typeOwner *Stack
 }
 
 // NewParser creates a new parser options for the Parse. Useful for XML schema
@@ -96,6 +98,7 @@ func (opt *Options) Parse() (err error) {
 	opt.Group = NewStack()
 	opt.AttributeGroup = NewStack()
 	opt.Choice = NewStack()
+	opt.typeOwner = NewStack()
 
 	decoder := xml.NewDecoder(xmlFile)
 	decoder.CharsetReader = charset.NewReaderLabel
diff --git a/xmlComplexType.go b/xmlComplexType.go
index ff477e0..6cd6085 100644
--- a/xmlComplexType.go
+++ b/xmlComplexType.go
@@ -13,33 +13,37 @@ import "encoding/xml"
 // OnComplexType handles parsing event on the complex start elements. A
 // complex element contains other elements and/or attributes.
 func (opt *Options) OnComplexType(ele xml.StartElement, protoTree []interface{}) (err error) {
-	if opt.ComplexType.Len() > 0 {
-		e := opt.Element.Pop().(*Element)
-		opt.ComplexType.Push(&ComplexType{
-			Name: e.Name,
-		})
+	c := ComplexType{}
+	for _, attr := range ele.Attr {
+		if attr.Name.Local == "name" {
+			c.Name = attr.Value
+		}
 	}
-
 	if opt.ComplexType.Len() == 0 {
-		c := ComplexType{}
 		opt.CurrentEle = opt.InElement
-		for _, attr := range ele.Attr {
-			if attr.Name.Local == "name" {
-				c.Name = attr.Value
-			}
-		}
-		if c.Name == "" {
-			e := opt.Element.Pop().(*Element)
-			c.Name = e.Name
-		}
-		opt.ComplexType.Push(&c)
 	}
+	// An anonymous type is named after its element. The element is set aside
+	// until the end of its type, so that it doesn't take part in the content.
+	var owner *Element
+	if c.Name == "" && opt.Element.Len() > 0 {
+		owner = opt.Element.Pop().(*Element)
+		owner.Type = owner.Name
+		c.Name = owner.Name
+	}
+	opt.typeOwner.Push(owner)
+	opt.ComplexType.Push(&c)
 	return
 }
 
 // EndComplexType handles parsing event on the complex end elements.
 func (opt *Options) EndComplexType(ele xml.EndElement, protoTree []interface{}) (err error) {
+	if opt.ComplexType.Len() == 0 {
+		return
+	}
 	opt.ProtoTree = append(opt.ProtoTree, opt.ComplexType.Pop())
+	if owner := opt.typeOwner.Pop().(*Element); owner != nil {
+		opt.Element.Push(owner)
+	}
 	opt.CurrentEle = ""
 	return
 }
diff --git a/xmlElement.go b/xmlElement.go
index ffc3c84..c5d9a42 100644
--- a/xmlElement.go
+++ b/xmlElement.go
@@ -50,20 +50,30 @@ func (opt *Options) OnElement(ele xml.StartElement, protoTree []interface{}) (er
 		}
 	}
 
+	if opt.Choice.Len() > 0 {
+		e.Plural = e.Plural || opt.Choice.Peek().(*Choice).Plural
+	}
+
+	opt.Element.Push(&e)
+	return
+}
+
+// EndElement handles parsing event on the element end elements. The type of
+// the element is complete by now, including a type defined inline.
+func (opt *Options) EndElement(ele xml.EndElement, protoTree []interface{}) (err error) {
+	if opt.Element.Len() == 0 {
+		return
+	}
+	e := opt.Element.Pop().(*Element)
 	if e.Type == "" {
-		e.Type, err = opt.GetValueType(e.Name, protoTree)
-		if err != nil {
+		// An element without a type may have any content.
+		if e.Type, err = opt.GetValueType("anyType", protoTree); err != nil {
 			return
 		}
-		opt.Element.Push(&e)
-	}
-
-	if opt.Choice.Len() > 0 {
-		e.Plural = e.Plural || opt.Choice.Peek().(*Choice).Plural
 	}
 
 	if opt.ComplexType.Len() > 0 {
-		element, i := findElement(&e, opt.ComplexType.Peek().(*ComplexType).Elements)
+		element, i := findElement(e, opt.ComplexType.Peek().(*ComplexType).Elements)
 		// Handle a case where two elements with the same name and type are present in the same complex type
 		// This can happen with a Choice that includes a definition for a single value of a type along with
 		// an alternative that is an array of the same type with the same name. This tends to happen for backward
@@ -75,27 +85,19 @@ func (opt *Options) OnElement(ele xml.StartElement, protoTree []interface{}) (er
 			element.Plural = element.Plural || e.Plural
 			opt.ComplexType.Peek().(*ComplexType).Elements[i] = *element
 		} else {
-			opt.ComplexType.Peek().(*ComplexType).Elements = append(opt.ComplexType.Peek().(*ComplexType).Elements, e)
+			opt.ComplexType.Peek().(*ComplexType).Elements = append(opt.ComplexType.Peek().(*ComplexType).Elements, *e)
 		}
 		return
 	}
 
 	if opt.InGroup > 0 {
 		if opt.Group.Len() > 0 {
-			opt.Group.Peek().(*Group).Elements = append(opt.Group.Peek().(*Group).Elements, e)
+			opt.Group.Peek().(*Group).Elements = append(opt.Group.Peek().(*Group).Elements, *e)
 		}
 		return
 	}
 
-	opt.Element.Push(&e)
-	return
-}
-
-// EndElement handles parsing event on the element end elements.
-func (opt *Options) EndElement(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.Element.Len() > 0 && opt.ComplexType.Len() == 0 {
-		opt.ProtoTree = append(opt.ProtoTree, opt.Element.Pop())
-	}
+	opt.ProtoTree = append(opt.ProtoTree, e)
 	return
 }
 
diff --git a/xmlRestriction.go b/xmlRestriction.go
index 8f2880c..5bddc31 100644
--- a/xmlRestriction.go
+++ b/xmlRestriction.go
@@ -44,10 +44,5 @@ func (opt *Options) EndRestriction(ele xml.EndElement, protoTree []interface{})
 		}
 		opt.CurrentEle = ""
 	}
-	if !opt.Element.Empty() {
-		if !opt.ComplexType.Empty() && len(opt.ComplexType.Peek().(*ComplexType).Elements) > 0 {
-			opt.ComplexType.Peek().(*ComplexType).Elements[len(opt.ComplexType.Peek().(*ComplexType).Elements)-1] = *opt.Element.Peek().(*Element)
-		}
-	}
 	return
 }
diff --git a/xmlSimpleType.go b/xmlSimpleType.go
index 45f9e25..c4a4116 100644
--- a/xmlSimpleType.go
+++ b/xmlSimpleType.go
@@ -31,18 +31,21 @@ func (opt *Options) OnSimpleType(ele xml.StartElement, protoTree []interface{})
 
 // EndSimpleType handles parsing event on the simpleType end elements.
 func (opt *Options) EndSimpleType(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Attribute.Len() > 0 {
-		opt.Attribute.Peek().(*Attribute).Type = opt.SimpleType.Pop().(*SimpleType).Base
+	if opt.SimpleType.Len() == 0 || opt.InUnion {
 		return
 	}
-	if ele.Name.Local == opt.CurrentEle && opt.ComplexType.Len() == 1 {
-		opt.ProtoTree = append(opt.ProtoTree, opt.ComplexType.Pop())
-		opt.CurrentEle = ""
+	simpleType := opt.SimpleType.Pop().(*SimpleType)
+	opt.CurrentEle = ""
+	// An inline simple type is the type of the attribute or the element that
+	// contains it.
+	if opt.Attribute.Len() > 0 {
+		opt.Attribute.Peek().(*Attribute).Type = simpleType.Base
+		return
 	}
-
-	if ele.Name.Local == opt.CurrentEle && !opt.InUnion {
-		opt.ProtoTree = append(opt.ProtoTree, opt.SimpleType.Pop())
-		opt.CurrentEle = ""
+	if opt.Element.Len() > 0 {
+		opt.Element.Peek().(*Element).Type = simpleType.Base
+		return
 	}
+	opt.ProtoTree = append(opt.ProtoTree, simpleType)
 	return
 }
diff --git a/xmlUnion.go b/xmlUnion.go
index dce084f..b9653ab 100644
--- a/xmlUnion.go
+++ b/xmlUnion.go
@@ -40,8 +40,6 @@ func (opt *Options) OnUnion(ele xml.StartElement, protoTree []interface{}) (err
 
 // EndUnion handles parsing event on the union end elements.
 func (opt *Options) EndUnion(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 {
-		opt.InUnion = false
-	}
+	opt.InUnion = false
 	return
 }
-- 
2.43.0


From 482606716d676baf8a4060916839209dea21fa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:40 +0000
Subject: [PATCH 02/58] fix: treat attributes without a type as anyType

They were rendered as void fields in C and Java.
---
 xmlAttribute.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xmlAttribute.go b/xmlAttribute.go
index 74adf1a..e17340d 100644
--- a/xmlAttribute.go
+++ b/xmlAttribute.go
@@ -48,6 +48,12 @@ func (opt *Options) EndAttribute(ele xml.EndElement, protoTree []interface{}) (e
 	if opt.Attribute.Len() == 0 {
 		return
 	}
+	if attribute := opt.Attribute.Peek().(*Attribute); attribute.Type == "" {
+		// An attribute without a type may have any value.
+		if attribute.Type, err = opt.GetValueType("anyType", protoTree); err != nil {
+			return
+		}
+	}
 	if opt.AttributeGroup.Len() > 0 {
 		opt.AttributeGroup.Peek().(*AttributeGroup).Attributes = append(opt.AttributeGroup.Peek().(*AttributeGroup).Attributes, *opt.Attribute.Pop().(*Attribute))
 		return
-- 
2.43.0


From e2c4f141dbcc4c7a69752548a84d560d56b8d03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:41 +0000
Subject: [PATCH 03/58] fix: don't inherit plurality from outside an anonymous
 type

The members of an anonymous type inside a repeated choice became collections.
---
 xmlComplexType.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xmlComplexType.go b/xmlComplexType.go
index 6cd6085..eb29da9 100644
--- a/xmlComplexType.go
+++ b/xmlComplexType.go
@@ -32,6 +32,8 @@ func (opt *Options) OnComplexType(ele xml.StartElement, protoTree []interface{})
 	}
 	opt.typeOwner.Push(owner)
 	opt.ComplexType.Push(&c)
+	// Members don't inherit plurality from the choices around their type.
+	opt.Choice.Push(&Choice{})
 	return
 }
 
@@ -41,6 +43,7 @@ func (opt *Options) EndComplexType(ele xml.EndElement, protoTree []interface{})
 		return
 	}
 	opt.ProtoTree = append(opt.ProtoTree, opt.ComplexType.Pop())
+	opt.Choice.Pop()
 	if owner := opt.typeOwner.Pop().(*Element); owner != nil {
 		opt.Element.Push(owner)
 	}
-- 
2.43.0


From 7d6df5c7f67c719ae02555414f00d46039c906b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 04/58] fix: make members of repeated sequences plural

Only the occurrences of choices were taken into account.
---
 xmlChoice.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/xmlChoice.go b/xmlChoice.go
index 539ad9a..316aa5f 100644
--- a/xmlChoice.go
+++ b/xmlChoice.go
@@ -46,4 +46,14 @@ func (opt *Options) EndChoice(ele xml.EndElement, protoTree []interface{}) (err
 	opt.Choice.Pop()
 
 	return
-}
\ No newline at end of file
+}
+// OnSequence handles parsing event on the sequence start elements. Like a
+// choice, a sequence that may occur several times makes its members plural.
+func (opt *Options) OnSequence(ele xml.StartElement, protoTree []interface{}) (err error) {
+	return opt.OnChoice(ele, protoTree)
+}
+
+// EndSequence handles parsing event on the sequence end elements.
+func (opt *Options) EndSequence(ele xml.EndElement, protoTree []interface{}) (err error) {
+	return opt.EndChoice(ele, protoTree)
+}
-- 
2.43.0


From bd544c011ce29058db65d8ccfb72f67e0cb1ef94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:05 +0000
Subject: [PATCH 05/58] fix: a group referred to with maxOccurs 1 is not plural

---
 xmlGroup.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/xmlGroup.go b/xmlGroup.go
index 2a463e6..123adc2 100644
--- a/xmlGroup.go
+++ b/xmlGroup.go
@@ -8,7 +8,10 @@
 
 package xgen
 
-import "encoding/xml"
+import (
+	"encoding/xml"
+	"strconv"
+)
 
 // OnGroup handles parsing event on the group start elements. The group
 // element is used to define a group of elements to be used in complex type
@@ -27,9 +30,11 @@ func (opt *Options) OnGroup(ele xml.StartElement, protoTree []interface{}) (err
 			}
 		}
 		if attr.Name.Local == "maxOccurs" {
-			if attr.Value != "0" {
-				group.Plural = true
+			var maxOccurs int
+			if maxOccurs, err = strconv.Atoi(attr.Value); attr.Value != "unbounded" && err != nil {
+				return
 			}
+			group.Plural, err = attr.Value == "unbounded" || maxOccurs > 1, nil
 		}
 	}
 	if opt.Choice.Len() > 0 {
-- 
2.43.0


From 3f8e6f6905060ae4e9e088e0c5a946b767cb1225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:05 +0000
Subject: [PATCH 06/58] fix: end groups that contain inline types

The end of an inline type reset CurrentEle, so that the enclosing group was
never completed and later groups were taken for nested ones.
---
 xmlGroup.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xmlGroup.go b/xmlGroup.go
index 123adc2..ebcc8de 100644
--- a/xmlGroup.go
+++ b/xmlGroup.go
@@ -66,13 +66,13 @@ func (opt *Options) OnGroup(ele xml.StartElement, protoTree []interface{}) (err
 
 // EndGroup handles parsing event on the group end elements.
 func (opt *Options) EndGroup(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if ele.Name.Local == opt.CurrentEle && opt.InGroup == 1 {
+	if opt.ComplexType.Len() > 0 || opt.InGroup == 0 {
+		return
+	}
+	opt.InGroup--
+	if opt.InGroup == 0 {
 		opt.ProtoTree = append(opt.ProtoTree, opt.Group.Pop())
 		opt.CurrentEle = ""
-		opt.InGroup--
-	}
-	if ele.Name.Local == opt.CurrentEle {
-		opt.InGroup--
 	}
 	return
 }
-- 
2.43.0


From 8f633fbccf68208dc10b1a37ba043af3d467aaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:07 +0000
Subject: [PATCH 07/58] fix: keep references between attribute groups

---
 genC.go              | 4 ++++
 genGo.go             | 4 ++++
 genJava.go           | 4 ++++
 genRust.go           | 4 ++++
 genTypeScript.go     | 4 ++++
 proto.go             | 9 +++++----
 xmlAttributeGroup.go | 9 ++++++++-
 7 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/genC.go b/genC.go
index 09e2a88..9cb8c62 100644
--- a/genC.go
+++ b/genC.go
@@ -225,6 +225,10 @@ func (gen *CodeGenerator) CGroup(v *Group) {
 func (gen *CodeGenerator) CAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := "struct {\n"
+		for _, attrGroup := range v.AttributeGroup {
+			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
+			content += fmt.Sprintf("\t%s %s;\n", genCFieldType(fieldType), genCFieldName(attrGroup.Name, false))
+		}
 		for _, attribute := range v.Attributes {
 			var optional, plural, fieldType string
 			var ok bool
diff --git a/genGo.go b/genGo.go
index c27fa36..2a9ab1d 100644
--- a/genGo.go
+++ b/genGo.go
@@ -286,6 +286,10 @@ func (gen *CodeGenerator) GoAttributeGroup(v *AttributeGroup) {
 			gen.ImportEncodingXML = true
 			content += fmt.Sprintf("\tXMLName\txml.Name\t`xml:\"%s\"`\n", v.Name)
 		}
+		for _, attrGroup := range v.AttributeGroup {
+			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
+			content += fmt.Sprintf("\t%s\t%s\n", genGoFieldName(attrGroup.Name, false), genGoFieldType(fieldType))
+		}
 		for _, attribute := range v.Attributes {
 			var optional string
 			if attribute.Optional {
diff --git a/genJava.go b/genJava.go
index 70cbc87..e921fc1 100644
--- a/genJava.go
+++ b/genJava.go
@@ -228,6 +228,10 @@ func (gen *CodeGenerator) JavaGroup(v *Group) {
 func (gen *CodeGenerator) JavaAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " {\n"
+		for _, attrGroup := range v.AttributeGroup {
+			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
+			content += fmt.Sprintf("\t@XmlElement(required = true)\n\tprotected %s %s;\n", genJavaFieldType(fieldType), genJavaFieldName(attrGroup.Name, false))
+		}
 		for _, attribute := range v.Attributes {
 			var required = ", required = true"
 			if attribute.Optional {
diff --git a/genRust.go b/genRust.go
index f3b9cb6..7a466ab 100644
--- a/genRust.go
+++ b/genRust.go
@@ -301,6 +301,10 @@ func (gen *CodeGenerator) RustGroup(v *Group) {
 func (gen *CodeGenerator) RustAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		var content string
+		for _, attrGroup := range v.AttributeGroup {
+			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
+			content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", attrGroup.Name, genRustFieldName(attrGroup.Name), genRustFieldType(fieldType))
+		}
 		for _, attribute := range v.Attributes {
 			if attribute.Optional {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", attribute.Name, genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
diff --git a/genTypeScript.go b/genTypeScript.go
index b5f9d38..e0a3319 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -215,6 +215,10 @@ func (gen *CodeGenerator) TypeScriptGroup(v *Group) {
 func (gen *CodeGenerator) TypeScriptAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " {\n"
+		for _, attrGroup := range v.AttributeGroup {
+			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
+			content += fmt.Sprintf("\t%s: %s;\n", genTypeScriptFieldName(attrGroup.Name, false), genTypeScriptFieldType(fieldType, false))
+		}
 		for _, attribute := range v.Attributes {
 			var optional string
 			if attribute.Optional {
diff --git a/proto.go b/proto.go
index 5af61e7..1173b98 100644
--- a/proto.go
+++ b/proto.go
@@ -117,10 +117,11 @@ type Choice struct {
 // <attributeGroup>).
 // https://www.w3.org/TR/xmlschema-1/structures.html#Attribute_Group_Definition
 type AttributeGroup struct {
-	Doc        string
-	Name       string
-	Ref        string
-	Attributes []Attribute
+	Doc            string
+	Name           string
+	Ref            string
+	Attributes     []Attribute
+	AttributeGroup []AttributeGroup
 }
 
 // Restriction are used to define acceptable values for XML elements or
diff --git a/xmlAttributeGroup.go b/xmlAttributeGroup.go
index 1e1cc57..f245a22 100644
--- a/xmlAttributeGroup.go
+++ b/xmlAttributeGroup.go
@@ -45,7 +45,14 @@ func (opt *Options) OnAttributeGroup(ele xml.StartElement, protoTree []interface
 // EndAttributeGroup handles parsing event on the attributeGroup end elements.
 func (opt *Options) EndAttributeGroup(ele xml.EndElement, protoTree []interface{}) (err error) {
 	if opt.AttributeGroup.Len() > 0 {
-		opt.ProtoTree = append(opt.ProtoTree, opt.AttributeGroup.Pop())
+		attributeGroup := opt.AttributeGroup.Pop().(*AttributeGroup)
+		if opt.AttributeGroup.Len() > 0 {
+			// A reference inside the definition of another attribute group.
+			outer := opt.AttributeGroup.Peek().(*AttributeGroup)
+			outer.AttributeGroup = append(outer.AttributeGroup, *attributeGroup)
+			return
+		}
+		opt.ProtoTree = append(opt.ProtoTree, attributeGroup)
 		opt.CurrentEle = ""
 		opt.InAttributeGroup = false
 	}
-- 
2.43.0


From 5b7f21d9e046322d048723fe62a346c848d57188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:12 +0000
Subject: [PATCH 08/58] fix: name references after the component, without its
 prefix

---
 utils.go             | 10 ++++++++++
 xmlAttribute.go      |  2 +-
 xmlAttributeGroup.go |  2 +-
 xmlElement.go        |  2 +-
 xmlGroup.go          |  2 +-
 5 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/utils.go b/utils.go
index 459a8e9..916c69c 100644
--- a/utils.go
+++ b/utils.go
@@ -183,6 +183,16 @@ func trimNSPrefix(str string) (name string) {
 	return
 }
 
+// refName returns the name of the component that is referred to. The prefix is
+// a matter of the referring document and no part of that name, except for the
+// attributes of the XML namespace.
+func refName(ref string) string {
+	if getNSPrefix(ref) == "xml" {
+		return ref
+	}
+	return trimNSPrefix(ref)
+}
+
 // MakeFirstUpperCase make the first letter of a string uppercase.
 func MakeFirstUpperCase(s string) string {
 	return ToTitle(s)
diff --git a/xmlAttribute.go b/xmlAttribute.go
index e17340d..858ee15 100644
--- a/xmlAttribute.go
+++ b/xmlAttribute.go
@@ -18,7 +18,7 @@ func (opt *Options) OnAttribute(ele xml.StartElement, protoTree []interface{}) (
 	}
 	for _, attr := range ele.Attr {
 		if attr.Name.Local == "ref" {
-			attribute.Name = attr.Value
+			attribute.Name = refName(attr.Value)
 			attribute.Type, err = opt.GetValueType(attr.Value, protoTree)
 			if err != nil {
 				return
diff --git a/xmlAttributeGroup.go b/xmlAttributeGroup.go
index f245a22..8b97897 100644
--- a/xmlAttributeGroup.go
+++ b/xmlAttributeGroup.go
@@ -21,7 +21,7 @@ func (opt *Options) OnAttributeGroup(ele xml.StartElement, protoTree []interface
 			attributeGroup.Name = attr.Value
 		}
 		if attr.Name.Local == "ref" {
-			attributeGroup.Name = attr.Value
+			attributeGroup.Name = refName(attr.Value)
 			attributeGroup.Ref, err = opt.GetValueType(attr.Value, protoTree)
 			if err != nil {
 				return
diff --git a/xmlElement.go b/xmlElement.go
index c5d9a42..aef212d 100644
--- a/xmlElement.go
+++ b/xmlElement.go
@@ -18,7 +18,7 @@ func (opt *Options) OnElement(ele xml.StartElement, protoTree []interface{}) (er
 	e := Element{}
 	for _, attr := range ele.Attr {
 		if attr.Name.Local == "ref" {
-			e.Name = attr.Value
+			e.Name = refName(attr.Value)
 			e.Type, err = opt.GetValueType(attr.Value, protoTree)
 			if err != nil {
 				return
diff --git a/xmlGroup.go b/xmlGroup.go
index ebcc8de..d34720e 100644
--- a/xmlGroup.go
+++ b/xmlGroup.go
@@ -23,7 +23,7 @@ func (opt *Options) OnGroup(ele xml.StartElement, protoTree []interface{}) (err
 			group.Name = attr.Value
 		}
 		if attr.Name.Local == "ref" {
-			group.Name = attr.Value
+			group.Name = refName(attr.Value)
 			group.Ref, err = opt.GetValueType(attr.Value, protoTree)
 			if err != nil {
 				return
-- 
2.43.0


From bb3c577ba4df49387dda8a02a022aa882d0fa4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:13 +0000
Subject: [PATCH 09/58] fix: look up the attributes of the XML namespace with
 their prefix

---
 parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.go b/parser.go
index 3a88962..4ae1eea 100644
--- a/parser.go
+++ b/parser.go
@@ -157,6 +157,10 @@ func (opt *Options) Parse() (err error) {
 // GetValueType convert XSD schema value type to the build-in type for the
 // given value and proto tree.
 func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueType string, err error) {
+	if buildType, ok := getBuildInTypeByLang(value, opt.Lang); ok {
+		valueType = buildType
+		return
+	}
 	if buildType, ok := getBuildInTypeByLang(trimNSPrefix(value), opt.Lang); ok {
 		valueType = buildType
 		return
-- 
2.43.0


From 56bc62309817a1ba3cbaf2e321baa9ff62480138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:18 +0000
Subject: [PATCH 10/58] fix: map built-in types once only

---
 xmlEnumeration.go    |  8 ++------
 xmlExtension.go      | 10 ++--------
 xmlFractionDigits.go |  4 +---
 xmlLength.go         |  4 +---
 xmlMaxExclusive.go   |  4 +---
 xmlMaxInclusive.go   |  4 +---
 xmlMaxLength.go      |  4 +---
 xmlMinExclusive.go   |  4 +---
 xmlMinInclusive.go   |  4 +---
 xmlMinLength.go      |  4 +---
 xmlPattern.go        |  9 ++-------
 xmlRestriction.go    | 10 ++--------
 xmlTotalDigits.go    |  4 +---
 xmlWhiteSpace.go     |  4 +---
 14 files changed, 18 insertions(+), 59 deletions(-)

diff --git a/xmlEnumeration.go b/xmlEnumeration.go
index 5bebc70..76f3d08 100644
--- a/xmlEnumeration.go
+++ b/xmlEnumeration.go
@@ -26,15 +26,11 @@ func (opt *Options) OnEnumeration(ele xml.StartElement, protoTree []interface{})
 // Enumeration defines a list of acceptable values.
 func (opt *Options) EndEnumeration(ele xml.EndElement, protoTree []interface{}) (err error) {
 	if opt.Attribute.Len() > 0 && opt.SimpleType.Peek() != nil {
-		if opt.Attribute.Peek().(*Attribute).Type, err = opt.GetValueType(opt.SimpleType.Peek().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
+		opt.Attribute.Peek().(*Attribute).Type = opt.SimpleType.Peek().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Peek().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
+		opt.Element.Peek().(*Element).Type = opt.SimpleType.Peek().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	return
diff --git a/xmlExtension.go b/xmlExtension.go
index 4e3803d..6cb88bd 100644
--- a/xmlExtension.go
+++ b/xmlExtension.go
@@ -22,10 +22,7 @@ func (opt *Options) OnExtension(ele xml.StartElement, protoTree []interface{}) (
 			}
 			if opt.ComplexType.Peek() != nil {
 				var complexType = opt.ComplexType.Peek().(*ComplexType)
-				complexType.Base, err = opt.GetValueType(valueType, protoTree)
-				if err != nil {
-					return
-				}
+				complexType.Base = valueType
 				if complexType.Name == "" {
 					complexType.Name = attr.Value
 				}
@@ -38,10 +35,7 @@ func (opt *Options) OnExtension(ele xml.StartElement, protoTree []interface{}) (
 // EndExtension handles parsing event on the extension end elements.
 func (opt *Options) EndExtension(ele xml.EndElement, protoTree []interface{}) (err error) {
 	if opt.Attribute.Len() > 0 && opt.SimpleType.Peek() != nil {
-		opt.Attribute.Peek().(*Attribute).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree)
-		if err != nil {
-			return
-		}
+		opt.Attribute.Peek().(*Attribute).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	return
diff --git a/xmlFractionDigits.go b/xmlFractionDigits.go
index bbc87e9..f322cb2 100644
--- a/xmlFractionDigits.go
+++ b/xmlFractionDigits.go
@@ -16,9 +16,7 @@ import "encoding/xml"
 // than zero.
 func (opt *Options) EndFractionDigits(ele xml.EndElement, protoTree []interface{}) (err error) {
 	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
+		opt.Element.Peek().(*Element).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	return
diff --git a/xmlLength.go b/xmlLength.go
index d091fc3..38226ab 100644
--- a/xmlLength.go
+++ b/xmlLength.go
@@ -15,9 +15,7 @@ import "encoding/xml"
 // equal to or greater than zero.
 func (opt *Options) EndLength(ele xml.EndElement, protoTree []interface{}) (err error) {
 	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
+		opt.Element.Peek().(*Element).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	return
diff --git a/xmlMaxExclusive.go b/xmlMaxExclusive.go
index d8c4d78..441aa83 100644
--- a/xmlMaxExclusive.go
+++ b/xmlMaxExclusive.go
@@ -15,9 +15,7 @@ import "encoding/xml"
 // be less than this value).
 func (opt *Options) EndMaxExclusive(ele xml.EndElement, protoTree []interface{}) (err error) {
 	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
+		opt.Element.Peek().(*Element).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	return
diff --git a/xmlMaxInclusive.go b/xmlMaxInclusive.go
index d50fac9..1740a7b 100644
--- a/xmlMaxInclusive.go
+++ b/xmlMaxInclusive.go
@@ -15,9 +15,7 @@ import "encoding/xml"
 // be less than or equal to this value).
 func (opt *Options) EndMaxInclusive(ele xml.EndElement, protoTree []interface{}) (err error) {
 	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
+		opt.Element.Peek().(*Element).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	return
diff --git a/xmlMaxLength.go b/xmlMaxLength.go
index c0ee22e..588c2f3 100644
--- a/xmlMaxLength.go
+++ b/xmlMaxLength.go
@@ -15,9 +15,7 @@ import "encoding/xml"
 // equal to or greater than zero.
 func (opt *Options) EndMaxLength(ele xml.EndElement, protoTree []interface{}) (err error) {
 	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
+		opt.Element.Peek().(*Element).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	return
diff --git a/xmlMinExclusive.go b/xmlMinExclusive.go
index 1f46897..819007d 100644
--- a/xmlMinExclusive.go
+++ b/xmlMinExclusive.go
@@ -15,9 +15,7 @@ import "encoding/xml"
 // be greater than this value).
 func (opt *Options) EndMinExclusive(ele xml.EndElement, protoTree []interface{}) (err error) {
 	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
+		opt.Element.Peek().(*Element).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	return
diff --git a/xmlMinInclusive.go b/xmlMinInclusive.go
index a9bd4f0..2baac2b 100644
--- a/xmlMinInclusive.go
+++ b/xmlMinInclusive.go
@@ -15,9 +15,7 @@ import "encoding/xml"
 // be greater than or equal to this value).
 func (opt *Options) EndMinInclusive(ele xml.EndElement, protoTree []interface{}) (err error) {
 	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
+		opt.Element.Peek().(*Element).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	return
diff --git a/xmlMinLength.go b/xmlMinLength.go
index b60ea67..71dca42 100644
--- a/xmlMinLength.go
+++ b/xmlMinLength.go
@@ -15,9 +15,7 @@ import "encoding/xml"
 // equal to or greater than zero.
 func (opt *Options) EndMinLength(ele xml.EndElement, protoTree []interface{}) (err error) {
 	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
+		opt.Element.Peek().(*Element).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	return
diff --git a/xmlPattern.go b/xmlPattern.go
index 53d63ce..6f24fcb 100644
--- a/xmlPattern.go
+++ b/xmlPattern.go
@@ -14,16 +14,11 @@ import "encoding/xml"
 // defines the exact sequence of characters that are acceptable.
 func (opt *Options) EndPattern(ele xml.EndElement, protoTree []interface{}) (err error) {
 	if opt.Attribute.Len() > 0 && opt.SimpleType.Peek() != nil {
-		opt.Attribute.Peek().(*Attribute).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree)
-		if err != nil {
-			return
-		}
+		opt.Attribute.Peek().(*Attribute).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
+		opt.Element.Peek().(*Element).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	return
diff --git a/xmlRestriction.go b/xmlRestriction.go
index 5bddc31..d00ce63 100644
--- a/xmlRestriction.go
+++ b/xmlRestriction.go
@@ -22,10 +22,7 @@ func (opt *Options) OnRestriction(ele xml.StartElement, protoTree []interface{})
 				return
 			}
 			if opt.SimpleType.Peek() != nil {
-				opt.SimpleType.Peek().(*SimpleType).Base, err = opt.GetValueType(valueType, protoTree)
-				if err != nil {
-					return
-				}
+				opt.SimpleType.Peek().(*SimpleType).Base = valueType
 				if opt.SimpleType.Peek().(*SimpleType).Name == "" {
 					opt.SimpleType.Peek().(*SimpleType).Name = attr.Value
 				}
@@ -38,10 +35,7 @@ func (opt *Options) OnRestriction(ele xml.StartElement, protoTree []interface{})
 // EndRestriction handles parsing event on the restriction end elements.
 func (opt *Options) EndRestriction(ele xml.EndElement, protoTree []interface{}) (err error) {
 	if opt.Attribute.Len() > 0 && opt.SimpleType.Peek() != nil {
-		opt.Attribute.Peek().(*Attribute).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree)
-		if err != nil {
-			return
-		}
+		opt.Attribute.Peek().(*Attribute).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	return
diff --git a/xmlTotalDigits.go b/xmlTotalDigits.go
index ae4e7de..014ddeb 100644
--- a/xmlTotalDigits.go
+++ b/xmlTotalDigits.go
@@ -15,9 +15,7 @@ import "encoding/xml"
 // than zero.
 func (opt *Options) EndTotalDigits(ele xml.EndElement, protoTree []interface{}) (err error) {
 	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
+		opt.Element.Peek().(*Element).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	return
diff --git a/xmlWhiteSpace.go b/xmlWhiteSpace.go
index 4ec2b78..60bc71c 100644
--- a/xmlWhiteSpace.go
+++ b/xmlWhiteSpace.go
@@ -15,9 +15,7 @@ import "encoding/xml"
 // carriage returns) is handled.
 func (opt *Options) EndWhiteSpace(ele xml.EndElement, protoTree []interface{}) (err error) {
 	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
+		opt.Element.Peek().(*Element).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	return
-- 
2.43.0


From 99cd78c36c332d0fbbc60da1f562e5e2b5f61ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 11/58] fix: follow chains of restrictions to the end

---
 utils.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/utils.go b/utils.go
index 916c69c..46c08a5 100644
--- a/utils.go
+++ b/utils.go
@@ -144,7 +144,22 @@ func getBuildInTypeByLang(value, lang string) (buildType string, ok bool) {
 	return
 }
 
+// getBasefromSimpleType follows the restrictions that a simple type, or the
+// type of an attribute or element, is derived by to the end.
 func getBasefromSimpleType(name string, XSDSchema []interface{}) string {
+	// A chain of restrictions is not longer than the schema, unless it is
+	// circular.
+	for range XSDSchema {
+		base := trimNSPrefix(getDirectBase(name, XSDSchema))
+		if base == name {
+			break
+		}
+		name = base
+	}
+	return name
+}
+
+func getDirectBase(name string, XSDSchema []interface{}) string {
 	for _, ele := range XSDSchema {
 		switch v := ele.(type) {
 		case *SimpleType:
-- 
2.43.0


From 5ecd5fde1c548d748daf78c864e8dda31e2e27bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:00 +0000
Subject: [PATCH 12/58] fix: resolve extension bases declared later in the
 schema

---
 genGo.go         | 7 ++++---
 genJava.go       | 9 +++++----
 genRust.go       | 5 +++--
 genTypeScript.go | 9 +++++----
 4 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/genGo.go b/genGo.go
index 2a9ab1d..1c4e6ae 100644
--- a/genGo.go
+++ b/genGo.go
@@ -228,10 +228,11 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			// If the type is a built-in type, generate a Value field as chardata.
 			// If it's not built-in one, embed the base type in the struct for the child type
 			// to effectively inherit all of the base type's fields
-			if isGoBuiltInType(v.Base) {
-				content += fmt.Sprintf("\tValue\t%s\t`xml:\",chardata\"`\n", genGoFieldType(v.Base))
+			base := getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)
+			if isGoBuiltInType(base) {
+				content += fmt.Sprintf("\tValue\t%s\t`xml:\",chardata\"`\n", genGoFieldType(base))
 			} else {
-				content += fmt.Sprintf("\t%s\n", genGoFieldType(v.Base))
+				content += fmt.Sprintf("\t%s\n", genGoFieldType(base))
 			}
 		}
 		content += "}\n"
diff --git a/genJava.go b/genJava.go
index e921fc1..d517e23 100644
--- a/genJava.go
+++ b/genJava.go
@@ -172,8 +172,9 @@ func (gen *CodeGenerator) JavaComplexType(v *ComplexType) {
 			content += fmt.Sprintf("\t@XmlElement(required = true, name = \"%s\")\n\tprotected %s %s;\n", element.Name, fieldType, genJavaFieldName(element.Name, false))
 		}
 
-		if len(v.Base) > 0 && isBuiltInJavaType(v.Base) {
-			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))
+		base := getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)
+		if len(base) > 0 && isBuiltInJavaType(base) {
+			fieldType := genJavaFieldType(base)
 			content += fmt.Sprintf("\t@XmlValue\n\tprotected %s value;\n", fieldType)
 		}
 
@@ -182,8 +183,8 @@ func (gen *CodeGenerator) JavaComplexType(v *ComplexType) {
 		fieldName := genJavaFieldName(v.Name, true)
 
 		typeExtension := ""
-		if len(v.Base) > 0 && !isBuiltInJavaType(v.Base) {
-			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))
+		if len(base) > 0 && !isBuiltInJavaType(base) {
+			fieldType := genJavaFieldType(base)
 			typeExtension = fmt.Sprintf(" extends %s ", fieldType)
 		}
 
diff --git a/genRust.go b/genRust.go
index 7a466ab..c7a7e4e 100644
--- a/genRust.go
+++ b/genRust.go
@@ -248,8 +248,9 @@ func (gen *CodeGenerator) RustComplexType(v *ComplexType) {
 			}
 		}
 		if len(v.Base) > 0 {
-			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))
-			if isRustBuiltInType(v.Base) {
+			base := getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)
+			fieldType := genRustFieldType(base)
+			if isRustBuiltInType(base) {
 				content += fmt.Sprintf("\t#[serde(rename = \"$value\")]\n\tpub value: %s,\n", fieldType)
 			} else {
 				fieldName := genRustFieldName(fieldType)
diff --git a/genTypeScript.go b/genTypeScript.go
index e0a3319..1677e72 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -168,16 +168,17 @@ func (gen *CodeGenerator) TypeScriptComplexType(v *ComplexType) {
 			content += fmt.Sprintf("\t%s: %s;\n", genTypeScriptFieldName(element.Name, false), fieldType)
 		}
 
-		if len(v.Base) > 0 && isBuiltInTypeScriptType(v.Base) {
-			fieldType := genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree), false)
+		base := getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)
+		if len(base) > 0 && isBuiltInTypeScriptType(base) {
+			fieldType := genTypeScriptFieldType(base, false)
 			content += fmt.Sprintf("\tValue: %s;\n", fieldType)
 		}
 		content += "}\n"
 		gen.StructAST[v.Name] = content
 		fieldName := genTypeScriptFieldName(v.Name, true)
 		typeExtension := ""
-		if len(v.Base) > 0 && !isBuiltInTypeScriptType(v.Base) {
-			fieldType := genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree), false)
+		if len(base) > 0 && !isBuiltInTypeScriptType(base) {
+			fieldType := genTypeScriptFieldType(base, false)
 			content += fmt.Sprintf("\tValue: %s;\n", fieldType)
 			typeExtension = fmt.Sprintf(" extends %s ", fieldType)
 		}
-- 
2.43.0


From a41db74e2f986b0cf10aedf2f88b5f76aa297dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:44 +0000
Subject: [PATCH 13/58] fix: keep lists of built-in types lists in TypeScript

---
 genTypeScript.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/genTypeScript.go b/genTypeScript.go
index 1677e72..72a6ae2 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -89,8 +89,8 @@ func genTypeScriptFieldType(name string, plural bool) (fieldType string) {
 func (gen *CodeGenerator) TypeScriptSimpleType(v *SimpleType) {
 	if v.List {
 		if _, ok := gen.StructAST[v.Name]; !ok {
-			fieldType := genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree), true)
-			content := fmt.Sprintf(" = %s;\n", fieldType)
+			fieldType := genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree), false)
+			content := fmt.Sprintf(" = Array<%s>;\n", fieldType)
 			gen.StructAST[v.Name] = content
 			fieldName := genTypeScriptFieldName(v.Name, true)
 			gen.Field += fmt.Sprintf("%sexport type %s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
-- 
2.43.0


From f5afaf9a72b8adabc2b0c2d85cc533505dd82d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:45 +0000
Subject: [PATCH 14/58] fix: treat any and Array as built-in bases in
 TypeScript

---
 genTypeScript.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genTypeScript.go b/genTypeScript.go
index 72a6ae2..20a584e 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -189,7 +189,7 @@ func (gen *CodeGenerator) TypeScriptComplexType(v *ComplexType) {
 
 func isBuiltInTypeScriptType(typeName string) bool {
 	_, builtIn := typeScriptBuildInType[typeName]
-	return builtIn
+	return builtIn || typeName == "any" || strings.HasPrefix(typeName, "Array<")
 }
 
 // TypeScriptGroup generates code for group XML schema in TypeScript language syntax.
-- 
2.43.0


From bcd6290bd1453baa182fdf094d3e0bce689cdebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:06 +0000
Subject: [PATCH 15/58] fix: import the packages every kind of Go declaration
 needs

---
 genGo.go | 55 ++++++++++++++++++++++++++++---------------------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/genGo.go b/genGo.go
index 1c4e6ae..d5147b3 100644
--- a/genGo.go
+++ b/genGo.go
@@ -129,15 +129,25 @@ func genGoFieldType(name string) string {
 	return "interface{}"
 }
 
+// goFieldType returns the Go type for the given type and takes note of the
+// packages it needs.
+func (gen *CodeGenerator) goFieldType(name string) string {
+	fieldType := genGoFieldType(name)
+	switch fieldType {
+	case "time.Time":
+		gen.ImportTime = true
+	case "xml.Name":
+		gen.ImportEncodingXML = true
+	}
+	return fieldType
+}
+
 // GoSimpleType generates code for simple type XML schema in Go language
 // syntax.
 func (gen *CodeGenerator) GoSimpleType(v *SimpleType) {
 	if v.List {
 		if _, ok := gen.StructAST[v.Name]; !ok {
-			fieldType := genGoFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))
-			if fieldType == "time.Time" {
-				gen.ImportTime = true
-			}
+			fieldType := gen.goFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))
 			content := fmt.Sprintf(" []%s\n", genGoFieldType(fieldType))
 			gen.StructAST[v.Name] = content
 			fieldName := genGoFieldName(v.Name, true)
@@ -160,7 +170,7 @@ func (gen *CodeGenerator) GoSimpleType(v *SimpleType) {
 				if memberType == "" { // fix order issue
 					memberType = getBasefromSimpleType(memberName, gen.ProtoTree)
 				}
-				content += fmt.Sprintf("\t%s\t%s\n", genGoFieldName(memberName, false), genGoFieldType(memberType))
+				content += fmt.Sprintf("\t%s\t%s\n", genGoFieldName(memberName, false), gen.goFieldType(memberType))
 			}
 			content += "}\n"
 			gen.StructAST[v.Name] = content
@@ -169,7 +179,7 @@ func (gen *CodeGenerator) GoSimpleType(v *SimpleType) {
 		return
 	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
-		content := fmt.Sprintf(" %s\n", genGoFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)))
+		content := fmt.Sprintf(" %s\n", gen.goFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)))
 		gen.StructAST[v.Name] = content
 		fieldName := genGoFieldName(v.Name, true)
 		gen.Field += fmt.Sprintf("%stype %s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
@@ -188,10 +198,7 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 		}
 		for _, attrGroup := range v.AttributeGroup {
 			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
-			if fieldType == "time.Time" {
-				gen.ImportTime = true
-			}
-			content += fmt.Sprintf("\t%s\t%s\n", genGoFieldName(attrGroup.Name, false), genGoFieldType(fieldType))
+			content += fmt.Sprintf("\t%s\t%s\n", genGoFieldName(attrGroup.Name, false), gen.goFieldType(fieldType))
 		}
 
 		for _, attribute := range v.Attributes {
@@ -199,10 +206,7 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			if attribute.Optional {
 				optional = `,omitempty`
 			}
-			fieldType := genGoFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
-			if fieldType == "time.Time" {
-				gen.ImportTime = true
-			}
+			fieldType := gen.goFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
 			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), fieldType, attribute.Name, optional)
 		}
 		for _, group := range v.Groups {
@@ -210,7 +214,7 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			if group.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s\t%s%s\n", genGoFieldName(group.Name, false), plural, genGoFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)))
+			content += fmt.Sprintf("\t%s\t%s%s\n", genGoFieldName(group.Name, false), plural, gen.goFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)))
 		}
 
 		for _, element := range v.Elements {
@@ -218,10 +222,7 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			if element.Plural {
 				plural = "[]"
 			}
-			fieldType := genGoFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))
-			if fieldType == "time.Time" {
-				gen.ImportTime = true
-			}
+			fieldType := gen.goFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))
 			content += fmt.Sprintf("\t%s\t%s%s\t`xml:\"%s\"`\n", genGoFieldName(element.Name, false), plural, fieldType, element.Name)
 		}
 		if len(v.Base) > 0 {
@@ -230,9 +231,9 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			// to effectively inherit all of the base type's fields
 			base := getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)
 			if isGoBuiltInType(base) {
-				content += fmt.Sprintf("\tValue\t%s\t`xml:\",chardata\"`\n", genGoFieldType(base))
+				content += fmt.Sprintf("\tValue\t%s\t`xml:\",chardata\"`\n", gen.goFieldType(base))
 			} else {
-				content += fmt.Sprintf("\t%s\n", genGoFieldType(base))
+				content += fmt.Sprintf("\t%s\n", gen.goFieldType(base))
 			}
 		}
 		content += "}\n"
@@ -260,7 +261,7 @@ func (gen *CodeGenerator) GoGroup(v *Group) {
 			if element.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s\t%s%s\n", genGoFieldName(element.Name, false), plural, genGoFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree)))
+			content += fmt.Sprintf("\t%s\t%s%s\n", genGoFieldName(element.Name, false), plural, gen.goFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree)))
 		}
 
 		for _, group := range v.Groups {
@@ -268,7 +269,7 @@ func (gen *CodeGenerator) GoGroup(v *Group) {
 			if group.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s\t%s%s\n", genGoFieldName(group.Name, false), plural, genGoFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)))
+			content += fmt.Sprintf("\t%s\t%s%s\n", genGoFieldName(group.Name, false), plural, gen.goFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)))
 		}
 
 		content += "}\n"
@@ -289,14 +290,14 @@ func (gen *CodeGenerator) GoAttributeGroup(v *AttributeGroup) {
 		}
 		for _, attrGroup := range v.AttributeGroup {
 			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
-			content += fmt.Sprintf("\t%s\t%s\n", genGoFieldName(attrGroup.Name, false), genGoFieldType(fieldType))
+			content += fmt.Sprintf("\t%s\t%s\n", genGoFieldName(attrGroup.Name, false), gen.goFieldType(fieldType))
 		}
 		for _, attribute := range v.Attributes {
 			var optional string
 			if attribute.Optional {
 				optional = `,omitempty`
 			}
-			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), genGoFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)), attribute.Name, optional)
+			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), gen.goFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)), attribute.Name, optional)
 		}
 		content += "}\n"
 		gen.StructAST[v.Name] = content
@@ -311,7 +312,7 @@ func (gen *CodeGenerator) GoElement(v *Element) {
 		if v.Plural {
 			plural = "[]"
 		}
-		content := fmt.Sprintf("\t%s%s\n", plural, genGoFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree)))
+		content := fmt.Sprintf("\t%s%s\n", plural, gen.goFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree)))
 		gen.StructAST[v.Name] = content
 		fieldName := genGoFieldName(v.Name, false)
 		gen.Field += fmt.Sprintf("%stype %s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
@@ -325,7 +326,7 @@ func (gen *CodeGenerator) GoAttribute(v *Attribute) {
 		if v.Plural {
 			plural = "[]"
 		}
-		content := fmt.Sprintf("\t%s%s\n", plural, genGoFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree)))
+		content := fmt.Sprintf("\t%s%s\n", plural, gen.goFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree)))
 		gen.StructAST[v.Name] = content
 		fieldName := genGoFieldName(v.Name, true)
 		gen.Field += fmt.Sprintf("%stype %s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
-- 
2.43.0


From 11985813b137dfc38208487097408f0ef510974b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:09 +0000
Subject: [PATCH 16/58] fix: lists of generated types are no pointers to
 pointers in Go

---
 genGo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genGo.go b/genGo.go
index d5147b3..83bc726 100644
--- a/genGo.go
+++ b/genGo.go
@@ -148,7 +148,7 @@ func (gen *CodeGenerator) GoSimpleType(v *SimpleType) {
 	if v.List {
 		if _, ok := gen.StructAST[v.Name]; !ok {
 			fieldType := gen.goFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))
-			content := fmt.Sprintf(" []%s\n", genGoFieldType(fieldType))
+			content := fmt.Sprintf(" []%s\n", fieldType)
 			gen.StructAST[v.Name] = content
 			fieldName := genGoFieldName(v.Name, true)
 			gen.Field += fmt.Sprintf("%stype %s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
-- 
2.43.0


From 54e09349081ab87eb04a993f2731cb7236835c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:11 +0000
Subject: [PATCH 17/58] fix: global elements and attributes have names of their
 own in Go and Rust

---
 genGo.go   | 2 +-
 genRust.go | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/genGo.go b/genGo.go
index 83bc726..f51d0d3 100644
--- a/genGo.go
+++ b/genGo.go
@@ -314,7 +314,7 @@ func (gen *CodeGenerator) GoElement(v *Element) {
 		}
 		content := fmt.Sprintf("\t%s%s\n", plural, gen.goFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree)))
 		gen.StructAST[v.Name] = content
-		fieldName := genGoFieldName(v.Name, false)
+		fieldName := genGoFieldName(v.Name, true)
 		gen.Field += fmt.Sprintf("%stype %s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
 	}
 }
diff --git a/genRust.go b/genRust.go
index c7a7e4e..b649af2 100644
--- a/genRust.go
+++ b/genRust.go
@@ -329,7 +329,8 @@ func (gen *CodeGenerator) RustElement(v *Element) {
 		} else {
 			gen.StructAST[v.Name] = fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", v.Name, fieldName, fieldType)
 		}
-		gen.Field += fmt.Sprintf("\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
+		structName := genRustStructName(v.Name, true)
+		gen.Field += fmt.Sprintf("\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genFieldComment(structName, v.Doc, "//"), structName, gen.StructAST[v.Name])
 	}
 }
 
@@ -343,6 +344,7 @@ func (gen *CodeGenerator) RustAttribute(v *Attribute) {
 		} else {
 			gen.StructAST[v.Name] = fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", v.Name, fieldName, fieldType)
 		}
-		gen.Field += fmt.Sprintf("\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
+		structName := genRustStructName(v.Name, true)
+		gen.Field += fmt.Sprintf("\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genFieldComment(structName, v.Doc, "//"), structName, gen.StructAST[v.Name])
 	}
 }
-- 
2.43.0


From 15dcb812eeab675c949627bee2dded0b830b05f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:28 +0000
Subject: [PATCH 18/58] fix: suffix the name, not the type, of grouped
 attributes in Java

---
 genJava.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genJava.go b/genJava.go
index d517e23..351cff1 100644
--- a/genJava.go
+++ b/genJava.go
@@ -239,7 +239,7 @@ func (gen *CodeGenerator) JavaAttributeGroup(v *AttributeGroup) {
 				required = ""
 			}
 			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
-			content += fmt.Sprintf("\t@XmlAttribute(name = \"%s\"%s)\n\tprotected %sAttr %s;\n", attribute.Name, required, fieldType, genJavaFieldName(attribute.Name, false))
+			content += fmt.Sprintf("\t@XmlAttribute(name = \"%s\"%s)\n\tprotected %s %sAttr;\n", attribute.Name, required, fieldType, genJavaFieldName(attribute.Name, false))
 		}
 		content += "}\n"
 		gen.StructAST[v.Name] = content
-- 
2.43.0


From 48baa8662c6dc38e25b33736fefc3ae5b930d180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:30 +0000
Subject: [PATCH 19/58] fix: members of a Rust group are plural each on their
 own

---
 genRust.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/genRust.go b/genRust.go
index b649af2..9f7a74a 100644
--- a/genRust.go
+++ b/genRust.go
@@ -276,7 +276,7 @@ func (gen *CodeGenerator) RustGroup(v *Group) {
 		for _, element := range v.Elements {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))
 			fieldName := genRustFieldName(element.Name)
-			if v.Plural {
+			if element.Plural {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", element.Name, fieldName, fieldType)
 			} else {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", element.Name, fieldName, fieldType)
@@ -285,7 +285,7 @@ func (gen *CodeGenerator) RustGroup(v *Group) {
 		for _, group := range v.Groups {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree))
 			fieldName := genRustFieldName(group.Name)
-			if v.Plural {
+			if group.Plural {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", group.Name, fieldName, fieldType)
 			} else {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", group.Name, fieldName, fieldType)
-- 
2.43.0


From c200decd1c356249291b19e3c99f4a32306c37ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:31 +0000
Subject: [PATCH 20/58] fix: required attributes of a group hold one value in
 Rust

---
 genRust.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genRust.go b/genRust.go
index 9f7a74a..b0acc7a 100644
--- a/genRust.go
+++ b/genRust.go
@@ -310,7 +310,7 @@ func (gen *CodeGenerator) RustAttributeGroup(v *AttributeGroup) {
 			if attribute.Optional {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", attribute.Name, genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
 			} else {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", attribute.Name, genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", attribute.Name, genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
 			}
 		}
 		gen.StructAST[v.Name] = content
-- 
2.43.0


From 3c354e5e6b752f7ca42edc632f6d0eeb4bef1368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:33 +0000
Subject: [PATCH 21/58] fix: members of a Rust union carry their own name

---
 genRust.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genRust.go b/genRust.go
index b0acc7a..299e372 100644
--- a/genRust.go
+++ b/genRust.go
@@ -192,7 +192,7 @@ func (gen *CodeGenerator) RustSimpleType(v *SimpleType) {
 				if memberType == "" { // fix order issue
 					memberType = getBasefromSimpleType(memberName, gen.ProtoTree)
 				}
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", v.Name, genRustFieldName(memberName), genRustFieldType(memberType))
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", memberName, genRustFieldName(memberName), genRustFieldType(memberType))
 			}
 			gen.StructAST[v.Name] = content
 			gen.Field += fmt.Sprintf("\n#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genRustStructName(v.Name, true), gen.StructAST[v.Name])
-- 
2.43.0


From be16a1361c320f5dfda21d58a89a93e3732ca208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:01 +0000
Subject: [PATCH 22/58] fix: member types of a union are separated by any white
 space

---
 xmlUnion.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmlUnion.go b/xmlUnion.go
index b9653ab..c069648 100644
--- a/xmlUnion.go
+++ b/xmlUnion.go
@@ -25,7 +25,7 @@ func (opt *Options) OnUnion(ele xml.StartElement, protoTree []interface{}) (err
 	opt.SimpleType.Peek().(*SimpleType).MemberTypes = make(map[string]string)
 	for _, attr := range ele.Attr {
 		if attr.Name.Local == "memberTypes" {
-			memberTypes := strings.Split(attr.Value, " ")
+			memberTypes := strings.Fields(attr.Value)
 			for _, memberType := range memberTypes {
 				opt.SimpleType.Peek().(*SimpleType).MemberTypes[trimNSPrefix(memberType)], err = opt.GetValueType(memberType, protoTree)
 				if err != nil {
-- 
2.43.0


From 0c9841afe9558307c0ac360fc6d712d12b3fbacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 23/58] fix: resolve member types declared after the union

---
 genC.go          | 3 ++-
 genGo.go         | 3 ++-
 genJava.go       | 3 ++-
 genRust.go       | 3 ++-
 genTypeScript.go | 3 ++-
 5 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/genC.go b/genC.go
index 9cb8c62..d368cc4 100644
--- a/genC.go
+++ b/genC.go
@@ -117,8 +117,9 @@ func (gen *CodeGenerator) CSimpleType(v *SimpleType) {
 				memberType := member.value
 
 				if memberType == "" { // fix order issue
-					memberType = getBasefromSimpleType(memberName, gen.ProtoTree)
+					memberType = memberName
 				}
+				memberType = getBasefromSimpleType(memberType, gen.ProtoTree)
 				var plural, fieldType string
 				var ok bool
 				if fieldType, ok = innerArray(genCFieldType(memberType)); ok {
diff --git a/genGo.go b/genGo.go
index f51d0d3..865ad94 100644
--- a/genGo.go
+++ b/genGo.go
@@ -168,8 +168,9 @@ func (gen *CodeGenerator) GoSimpleType(v *SimpleType) {
 				memberType := member.value
 
 				if memberType == "" { // fix order issue
-					memberType = getBasefromSimpleType(memberName, gen.ProtoTree)
+					memberType = memberName
 				}
+				memberType = getBasefromSimpleType(memberType, gen.ProtoTree)
 				content += fmt.Sprintf("\t%s\t%s\n", genGoFieldName(memberName, false), gen.goFieldType(memberType))
 			}
 			content += "}\n"
diff --git a/genJava.go b/genJava.go
index 351cff1..6871859 100644
--- a/genJava.go
+++ b/genJava.go
@@ -117,8 +117,9 @@ func (gen *CodeGenerator) JavaSimpleType(v *SimpleType) {
 				memberType := member.value
 
 				if memberType == "" { // fix order issue
-					memberType = getBasefromSimpleType(memberName, gen.ProtoTree)
+					memberType = memberName
 				}
+				memberType = getBasefromSimpleType(memberType, gen.ProtoTree)
 				fieldType := genJavaFieldType(memberType)
 				content += fmt.Sprintf("\t@XmlElement(required = true)\n\tprotected %s %s;\n", fieldType, genJavaFieldName(memberName, false))
 			}
diff --git a/genRust.go b/genRust.go
index 299e372..62420ff 100644
--- a/genRust.go
+++ b/genRust.go
@@ -190,8 +190,9 @@ func (gen *CodeGenerator) RustSimpleType(v *SimpleType) {
 				memberType := member.value
 
 				if memberType == "" { // fix order issue
-					memberType = getBasefromSimpleType(memberName, gen.ProtoTree)
+					memberType = memberName
 				}
+				memberType = getBasefromSimpleType(memberType, gen.ProtoTree)
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", memberName, genRustFieldName(memberName), genRustFieldType(memberType))
 			}
 			gen.StructAST[v.Name] = content
diff --git a/genTypeScript.go b/genTypeScript.go
index 20a584e..2a1fa4a 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -105,8 +105,9 @@ func (gen *CodeGenerator) TypeScriptSimpleType(v *SimpleType) {
 				memberType := member.value
 
 				if memberType == "" { // fix order issue
-					memberType = getBasefromSimpleType(memberName, gen.ProtoTree)
+					memberType = memberName
 				}
+				memberType = getBasefromSimpleType(memberType, gen.ProtoTree)
 				content += fmt.Sprintf("\t%s: %s;\n", genTypeScriptFieldName(memberName, false), genTypeScriptFieldType(memberType, false))
 			}
 			content += "}\n"
-- 
2.43.0


From dd7fbf702daf5deb5e92a64d8cfc03dc6744edf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:05 +0000
Subject: [PATCH 24/58] fix: comment Java lists and Rust unions, too

---
 genJava.go | 3 ++-
 genRust.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/genJava.go b/genJava.go
index 6871859..ae0e987 100644
--- a/genJava.go
+++ b/genJava.go
@@ -105,7 +105,8 @@ func (gen *CodeGenerator) JavaSimpleType(v *SimpleType) {
 			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))
 			content := fmt.Sprintf("\tprotected List<%s> %s;\n", fieldType, genJavaFieldName(v.Name, false))
 			gen.StructAST[v.Name] = content
-			gen.Field += fmt.Sprintf("\n@XmlAccessorType(XmlAccessType.FIELD)\n@XmlAttribute(required = true, name = \"%s\")\npublic class %s {\n%s}\n", v.Name, genJavaFieldName(v.Name, true), gen.StructAST[v.Name])
+			fieldName := genJavaFieldName(v.Name, true)
+			gen.Field += fmt.Sprintf("%s@XmlAccessorType(XmlAccessType.FIELD)\n@XmlAttribute(required = true, name = \"%s\")\npublic class %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), v.Name, fieldName, gen.StructAST[v.Name])
 			return
 		}
 	}
diff --git a/genRust.go b/genRust.go
index 62420ff..74e5f0f 100644
--- a/genRust.go
+++ b/genRust.go
@@ -196,7 +196,8 @@ func (gen *CodeGenerator) RustSimpleType(v *SimpleType) {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", memberName, genRustFieldName(memberName), genRustFieldType(memberType))
 			}
 			gen.StructAST[v.Name] = content
-			gen.Field += fmt.Sprintf("\n#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genRustStructName(v.Name, true), gen.StructAST[v.Name])
+			fieldName := genRustStructName(v.Name, true)
+			gen.Field += fmt.Sprintf("\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
 		}
 		return
 	}
-- 
2.43.0


From 9d7496ccca4e40c46f99b60e60ee9c1124c0c6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:38 +0000
Subject: [PATCH 25/58] fix: declare the unique name of simple types, elements
 and attributes in C

---
 genC.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/genC.go b/genC.go
index d368cc4..463ea14 100644
--- a/genC.go
+++ b/genC.go
@@ -102,9 +102,9 @@ func (gen *CodeGenerator) CSimpleType(v *SimpleType) {
 	if v.List {
 		if _, ok := gen.StructAST[v.Name]; !ok {
 			fieldType := genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))
-			content := fmt.Sprintf("%s %s[];\n", genCFieldType(fieldType), genCFieldName(v.Name, false))
-			gen.StructAST[v.Name] = content
 			fieldName := genCFieldName(v.Name, true)
+			content := fmt.Sprintf("%s %s[];\n", genCFieldType(fieldType), fieldName)
+			gen.StructAST[v.Name] = content
 			gen.Field += fmt.Sprintf("%stypedef %s", genFieldComment(fieldName, v.Doc, "//"), gen.StructAST[v.Name])
 			return
 		}
@@ -140,8 +140,8 @@ func (gen *CodeGenerator) CSimpleType(v *SimpleType) {
 		if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))); ok {
 			plural = "[]"
 		}
-		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, genCFieldName(v.Name, false), plural)
 		fieldName := genCFieldName(v.Name, true)
+		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, fieldName, plural)
 		gen.Field += fmt.Sprintf("%stypedef %s;\n", genFieldComment(fieldName, v.Doc, "//"), gen.StructAST[v.Name])
 	}
 }
@@ -256,7 +256,8 @@ func (gen *CodeGenerator) CElement(v *Element) {
 		if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree))); ok || v.Plural {
 			plural = "[]"
 		}
-		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, genCFieldName(v.Name, false), plural)
+		fieldName := genCFieldName(v.Name, true)
+		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, fieldName, plural)
 		gen.Field += fmt.Sprintf("\ntypedef %s;\n", gen.StructAST[v.Name])
 	}
 }
@@ -269,8 +270,8 @@ func (gen *CodeGenerator) CAttribute(v *Attribute) {
 		if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree))); ok || v.Plural {
 			plural = "[]"
 		}
-		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, genCFieldName(v.Name, false), plural)
 		fieldName := genCFieldName(v.Name, true)
+		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, fieldName, plural)
 		gen.Field += fmt.Sprintf("%stypedef %s;\n", genFieldComment(fieldName, v.Doc, "//"), gen.StructAST[v.Name])
 	}
 }
-- 
2.43.0


From d9c5a192f5a82f1508199f96712f094a539b81f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:39 +0000
Subject: [PATCH 26/58] fix: write arrays in C lists and groups after the name

---
 genC.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/genC.go b/genC.go
index 463ea14..151a00a 100644
--- a/genC.go
+++ b/genC.go
@@ -101,9 +101,9 @@ func genCFieldType(name string) string {
 func (gen *CodeGenerator) CSimpleType(v *SimpleType) {
 	if v.List {
 		if _, ok := gen.StructAST[v.Name]; !ok {
-			fieldType := genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))
+			fieldType, _ := innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)))
 			fieldName := genCFieldName(v.Name, true)
-			content := fmt.Sprintf("%s %s[];\n", genCFieldType(fieldType), fieldName)
+			content := fmt.Sprintf("%s %s[];\n", fieldType, fieldName)
 			gen.StructAST[v.Name] = content
 			gen.Field += fmt.Sprintf("%stypedef %s", genFieldComment(fieldName, v.Doc, "//"), gen.StructAST[v.Name])
 			return
@@ -199,11 +199,12 @@ func (gen *CodeGenerator) CGroup(v *Group) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := "struct {\n"
 		for _, element := range v.Elements {
-			var plural string
-			if element.Plural {
+			var plural, fieldType string
+			var ok bool
+			if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))); ok || element.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s %s%s;\n", genCFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree)), genCFieldName(element.Name, false), plural)
+			content += fmt.Sprintf("\t%s %s%s;\n", fieldType, genCFieldName(element.Name, false), plural)
 		}
 
 		for _, group := range v.Groups {
-- 
2.43.0


From e3a026970489d7af5b04b647ba693ded41874255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:14 +0000
Subject: [PATCH 27/58] fix: write legal TypeScript for all enumeration values

---
 genTypeScript.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/genTypeScript.go b/genTypeScript.go
index 2a1fa4a..08be364 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -12,6 +12,7 @@ import (
 	"fmt"
 	"os"
 	"reflect"
+	"regexp"
 	"strings"
 )
 
@@ -84,6 +85,27 @@ func genTypeScriptFieldType(name string, plural bool) (fieldType string) {
 	return
 }
 
+var (
+	matchTypeScriptName   = regexp.MustCompile("^[A-Za-z_$][A-Za-z0-9_$]*$")
+	matchTypeScriptNumber = regexp.MustCompile("^[-+.0-9]|^$|^Infinity$|^NaN$")
+)
+
+// genTypeScriptEnumName generates the name of an enum member. Any name that
+// isn't an identifier is quoted, and none of them may look like a number.
+func genTypeScriptEnumName(enum string) string {
+	if matchTypeScriptNumber.MatchString(enum) {
+		enum = "Enum" + enum
+	}
+	if matchTypeScriptName.MatchString(enum) {
+		return enum
+	}
+	return quoteTypeScript(enum)
+}
+
+func quoteTypeScript(value string) string {
+	return "'" + strings.NewReplacer("\\", "\\\\", "'", "\\'", "\n", "\\n", "\r", "\\r").Replace(value) + "'"
+}
+
 // TypeScriptSimpleType generates code for simple type XML schema in TypeScript language
 // syntax.
 func (gen *CodeGenerator) TypeScriptSimpleType(v *SimpleType) {
@@ -123,11 +145,11 @@ func (gen *CodeGenerator) TypeScriptSimpleType(v *SimpleType) {
 		for _, enum := range v.Restriction.Enum {
 			switch baseType {
 			case "string":
-				content += fmt.Sprintf("\t%s = '%s',\n", enum, enum)
+				content += fmt.Sprintf("\t%s = %s,\n", genTypeScriptEnumName(enum), quoteTypeScript(enum))
 			case "number":
-				content += fmt.Sprintf("\tEnum%s = %s,\n", enum, enum)
+				content += fmt.Sprintf("\t%s = %s,\n", genTypeScriptEnumName("Enum"+enum), enum)
 			default:
-				content += fmt.Sprintf("\tEnum%s = '%s',\n", enum, enum)
+				content += fmt.Sprintf("\t%s = %s,\n", genTypeScriptEnumName("Enum"+enum), quoteTypeScript(enum))
 			}
 		}
 		fieldName := genTypeScriptFieldName(v.Name, true)
-- 
2.43.0


From ded38369db4aa80090e3bdecc958f2cc86016b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:38 +0000
Subject: [PATCH 28/58] fix: documentation belongs to the component it is
 written in

---
 parser.go      | 23 +++++++++++---
 xmlCharData.go | 82 ++++++++++++++++++++++++++++++++------------------
 2 files changed, 70 insertions(+), 35 deletions(-)

diff --git a/parser.go b/parser.go
index 4ae1eea..097ba9e 100644
--- a/parser.go
+++ b/parser.go
@@ -51,7 +51,10 @@ type Options struct {
 	AttributeGroup *Stack
 	Choice         *Stack
 
-	typeOwner *Stack
+	typeOwner  *Stack
+	openEle    *Stack
+	annotation int
+	docText    strings.Builder
 }
 
 // NewParser creates a new parser options for the Parse. Useful for XML schema
@@ -99,6 +102,8 @@ func (opt *Options) Parse() (err error) {
 	opt.AttributeGroup = NewStack()
 	opt.Choice = NewStack()
 	opt.typeOwner = NewStack()
+	opt.openEle = NewStack()
+	opt.annotation = 0
 
 	decoder := xml.NewDecoder(xmlFile)
 	decoder.CharsetReader = charset.NewReaderLabel
@@ -110,7 +115,10 @@ func (opt *Options) Parse() (err error) {
 
 		switch element := token.(type) {
 		case xml.StartElement:
-
+			if opt.onAnnotation(element.Name.Local) {
+				continue
+			}
+			opt.openEle.Push(element.Name.Local)
 			opt.InElement = element.Name.Local
 			funcName := fmt.Sprintf("On%s", MakeFirstUpperCase(opt.InElement))
 			if err = callFuncByName(opt, funcName, []reflect.Value{reflect.ValueOf(element), reflect.ValueOf(opt.ProtoTree)}); err != nil {
@@ -118,14 +126,19 @@ func (opt *Options) Parse() (err error) {
 			}
 
 		case xml.EndElement:
+			if opt.annotation > 0 {
+				if err = opt.endAnnotation(element.Name.Local); err != nil {
+					return
+				}
+				continue
+			}
+			opt.openEle.Pop()
 			funcName := fmt.Sprintf("End%s", MakeFirstUpperCase(element.Name.Local))
 			if err = callFuncByName(opt, funcName, []reflect.Value{reflect.ValueOf(element), reflect.ValueOf(opt.ProtoTree)}); err != nil {
 				return
 			}
 		case xml.CharData:
-			if err = opt.OnCharData(string(element), opt.ProtoTree); err != nil {
-				return
-			}
+			opt.docText.Write(element)
 		default:
 		}
 
diff --git a/xmlCharData.go b/xmlCharData.go
index f934af5..85b65b3 100644
--- a/xmlCharData.go
+++ b/xmlCharData.go
@@ -10,51 +10,73 @@ package xgen
 
 import "strings"
 
+// onAnnotation reports if a start element is an annotation or belongs to one.
+// What is inside of an annotation isn't part of the schema, even if it looks
+// like.
+func (opt *Options) onAnnotation(name string) bool {
+	if opt.annotation == 0 && name != "annotation" {
+		return false
+	}
+	opt.annotation++
+	if opt.annotation == 2 {
+		opt.docText.Reset()
+	}
+	return true
+}
+
+// endAnnotation handles the end of an element inside of an annotation, and the
+// end of the annotation.
+func (opt *Options) endAnnotation(name string) (err error) {
+	opt.annotation--
+	if opt.annotation == 1 && name == "documentation" {
+		err = opt.OnCharData(opt.docText.String(), opt.ProtoTree)
+	}
+	return
+}
+
 // OnCharData handles parsing event on the documentation start elements. The
 // documentation element specifies information to be read or used by users
-// within an annotation element.
+// within an annotation element. It is about the element that contains the
+// annotation, and about no other.
 func (opt *Options) OnCharData(ele string, protoTree []interface{}) (err error) {
-	if strings.TrimSpace(ele) == "" {
+	ele = strings.TrimSpace(ele)
+	if ele == "" {
 		return
 	}
-	ele = strings.TrimSpace(ele)
-	if opt.InAttributeGroup {
+	switch opt.openEle.Peek() {
+	case "attributeGroup":
 		if opt.AttributeGroup.Peek() != nil {
-			opt.AttributeGroup.Peek().(*AttributeGroup).Doc = ele
-			return
+			addDoc(&opt.AttributeGroup.Peek().(*AttributeGroup).Doc, ele)
 		}
-	}
-	if opt.InElement != "" {
+	case "attribute":
+		if opt.Attribute.Peek() != nil {
+			addDoc(&opt.Attribute.Peek().(*Attribute).Doc, ele)
+		}
+	case "element":
 		if opt.Element.Peek() != nil {
-			opt.Element.Peek().(*Element).Doc = ele
-			return
+			addDoc(&opt.Element.Peek().(*Element).Doc, ele)
 		}
-	}
-	if opt.Attribute.Len() > 0 {
-		opt.Attribute.Peek().(*Attribute).Doc = ele
-		return
-	}
-	switch opt.CurrentEle {
 	case "simpleType":
-		if opt.SimpleType.Peek() != nil {
-			opt.SimpleType.Peek().(*SimpleType).Doc = ele
-			return
+		// The types inside of a list or union are not kept.
+		if opt.SimpleType.Peek() != nil && !opt.InUnion && !opt.SimpleType.Peek().(*SimpleType).List {
+			addDoc(&opt.SimpleType.Peek().(*SimpleType).Doc, ele)
 		}
 	case "complexType":
-		if opt.Attribute.Len() > 0 {
-			opt.Attribute.Peek().(*Attribute).Doc = ele
-			return
-		}
 		if opt.ComplexType.Peek() != nil {
-			l := len(opt.ComplexType.Peek().(*ComplexType).Attributes)
-			if l > 0 {
-				opt.ComplexType.Peek().(*ComplexType).Attributes[l-1].Doc = ele
-				return
-			}
-			opt.ComplexType.Peek().(*ComplexType).Doc = ele
-			return
+			addDoc(&opt.ComplexType.Peek().(*ComplexType).Doc, ele)
+		}
+	case "group":
+		if opt.InGroup == 1 && opt.ComplexType.Len() == 0 && opt.Group.Peek() != nil {
+			addDoc(&opt.Group.Peek().(*Group).Doc, ele)
 		}
 	default:
 	}
 	return
 }
+
+func addDoc(doc *string, text string) {
+	if *doc != "" {
+		text = *doc + "\n" + text
+	}
+	*doc = text
+}
-- 
2.43.0


From 4a3d4fd514cb4e02e389c53c327876ddbe290ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:40 +0000
Subject: [PATCH 29/58] fix: no line break leaves the comment of a declaration

---
 utils.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 46c08a5..ec6389a 100644
--- a/utils.go
+++ b/utils.go
@@ -280,7 +280,9 @@ func fetchSchema(URL string) ([]byte, error) {
 }
 
 func genFieldComment(name, doc, prefix string) string {
-	docReplacer := strings.NewReplacer("\n", fmt.Sprintf("\r\n%s ", prefix), "\t", "")
+	docReplacer := strings.NewReplacer("\n", fmt.Sprintf("\r\n%s ", prefix), "\t", "",
+		// These break lines, too, and would end the comment.
+		"\r", " ", "\u0085", " ", "\u2028", " ", "\u2029", " ")
 	if doc == "" {
 		return fmt.Sprintf("\r\n%s %s ...\r\n", prefix, name)
 	}
-- 
2.43.0


From cad9aaed0465034abf8154ea4e8abccc54b73eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:37 +0000
Subject: [PATCH 30/58] fix: an import may give its location before its
 namespace

---
 schema.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schema.go b/schema.go
index de72f46..f15fde7 100644
--- a/schema.go
+++ b/schema.go
@@ -24,6 +24,8 @@ func (opt *Options) prepareNSSchemaLocationMap(element xml.StartElement) {
 		if ele.Name.Local == "namespace" {
 			currentNS = ele.Value
 		}
+	}
+	for _, ele := range element.Attr {
 		if ele.Name.Local == "schemaLocation" {
 			if _, ok := opt.NSSchemaLocationMap[currentNS]; ok {
 				continue
-- 
2.43.0


From 64b40a3e2144384ffe058ac1a97378c8663b5e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:06 +0000
Subject: [PATCH 31/58] fix: interpret imported and included schemas on their
 own

---
 parser.go | 106 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 60 insertions(+), 46 deletions(-)

diff --git a/parser.go b/parser.go
index 097ba9e..cf86d77 100644
--- a/parser.go
+++ b/parser.go
@@ -14,6 +14,7 @@ import (
 	"os"
 	"path/filepath"
 	"reflect"
+	"sort"
 	"strings"
 
 	"golang.org/x/net/html/charset"
@@ -197,48 +198,14 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 	}
 	if fi.IsDir() {
 		// extract type of value from include schema.
-		valueType = ""
-		for include := range opt.IncludeMap {
-			parser := NewParser(&Options{
-				FilePath:            filepath.Join(opt.FileDir, include),
-				OutputDir:           opt.OutputDir,
-				Extract:             true,
-				Lang:                opt.Lang,
-				IncludeMap:          opt.IncludeMap,
-				LocalNameNSMap:      opt.LocalNameNSMap,
-				NSSchemaLocationMap: opt.NSSchemaLocationMap,
-				ParseFileList:       opt.ParseFileList,
-				ParseFileMap:        opt.ParseFileMap,
-				ProtoTree:           make([]interface{}, 0),
-			})
-			if parser.Parse() != nil {
-				return
-			}
-			if vt := getBasefromSimpleType(trimNSPrefix(value), parser.ProtoTree); vt != trimNSPrefix(value) {
-				valueType = vt
-			}
-		}
-		if valueType == "" {
-			valueType = trimNSPrefix(value)
-		}
+		valueType = getBasefromSimpleType(trimNSPrefix(value), opt.dependencies(false))
 		return
 	}
 
 	depXSDSchema, ok := opt.ParseFileMap[xsdFile]
 	if !ok {
-		parser := NewParser(&Options{
-			FilePath:            xsdFile,
-			OutputDir:           opt.OutputDir,
-			Extract:             false,
-			Lang:                opt.Lang,
-			IncludeMap:          opt.IncludeMap,
-			LocalNameNSMap:      opt.LocalNameNSMap,
-			NSSchemaLocationMap: opt.NSSchemaLocationMap,
-			ParseFileList:       opt.ParseFileList,
-			ParseFileMap:        opt.ParseFileMap,
-			ProtoTree:           make([]interface{}, 0),
-		})
-		if parser.Parse() != nil {
+		parser := opt.dependencyParser(xsdFile, false)
+		if err = parser.Parse(); err != nil {
 			return
 		}
 		depXSDSchema = parser.ProtoTree
@@ -247,21 +214,68 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 	if valueType != trimNSPrefix(value) && valueType != "" {
 		return
 	}
-	parser := NewParser(&Options{
-		FilePath:            xsdFile,
+	// The type may be defined in a schema that's included by the imported one,
+	// or the imported one may be in progress yet.
+	parser := opt.dependencyParser(xsdFile, true)
+	if err = parser.Parse(); err != nil {
+		return
+	}
+	valueType = getBasefromSimpleType(trimNSPrefix(value), append(parser.ProtoTree, parser.dependencies(true)...))
+	return
+}
+
+// dependencyParser creates the parser of an imported or included schema. The
+// prefixes and locations in use there are its own.
+func (opt *Options) dependencyParser(file string, extract bool) *Options {
+	return NewParser(&Options{
+		FilePath:            file,
+		InputDir:            opt.InputDir,
 		OutputDir:           opt.OutputDir,
-		Extract:             true,
+		Extract:             extract,
 		Lang:                opt.Lang,
-		IncludeMap:          opt.IncludeMap,
-		LocalNameNSMap:      opt.LocalNameNSMap,
-		NSSchemaLocationMap: opt.NSSchemaLocationMap,
+		Package:             opt.Package,
+		IncludeMap:          make(map[string]bool),
+		LocalNameNSMap:      make(map[string]string),
+		NSSchemaLocationMap: make(map[string]string),
 		ParseFileList:       opt.ParseFileList,
 		ParseFileMap:        opt.ParseFileMap,
+		RemoteSchema:        opt.RemoteSchema,
 		ProtoTree:           make([]interface{}, 0),
 	})
-	if parser.Parse() != nil {
-		return
+}
+
+// dependencies extracts the components of all schemas that are included
+// directly or by an included schema, and on request also those of the imported
+// schemas.
+func (opt *Options) dependencies(imported bool) (protoTree []interface{}) {
+	files := opt.dependencyFiles(imported)
+	visited := map[string]bool{filepath.Clean(opt.FilePath): true}
+	for len(files) > 0 {
+		file := files[0]
+		files = files[1:]
+		if visited[file] {
+			continue
+		}
+		visited[file] = true
+		parser := opt.dependencyParser(file, true)
+		if parser.Parse() != nil {
+			continue
+		}
+		protoTree = append(protoTree, parser.ProtoTree...)
+		files = append(files, parser.dependencyFiles(imported)...)
+	}
+	return
+}
+
+func (opt *Options) dependencyFiles(imported bool) (files []string) {
+	for include := range opt.IncludeMap {
+		files = append(files, filepath.Join(opt.FileDir, include))
+	}
+	if imported {
+		for _, location := range opt.NSSchemaLocationMap {
+			files = append(files, filepath.Join(opt.FileDir, location))
+		}
 	}
-	valueType = getBasefromSimpleType(trimNSPrefix(value), parser.ProtoTree)
+	sort.Strings(files)
 	return
 }
-- 
2.43.0


From cbf044f543ccd17b8c9b7d24ec9ab038a3204601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:07 +0000
Subject: [PATCH 32/58] fix: write below the output directory

---
 parser.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index cf86d77..bea5d68 100644
--- a/parser.go
+++ b/parser.go
@@ -148,10 +148,9 @@ func (opt *Options) Parse() (err error) {
 	if !opt.Extract {
 		opt.ParseFileList[opt.FilePath] = true
 		opt.ParseFileMap[opt.FilePath] = opt.ProtoTree
-		path := filepath.Join(opt.OutputDir, strings.TrimPrefix(opt.FilePath, opt.InputDir))
-		if err := PrepareOutputDir(filepath.Dir(path)); err != nil {
-			fmt.Println(err)
-			os.Exit(1)
+		path := opt.outputPath()
+		if err = PrepareOutputDir(filepath.Dir(path)); err != nil {
+			return
 		}
 		generator := &CodeGenerator{
 			Lang:      opt.Lang,
@@ -168,6 +167,18 @@ func (opt *Options) Parse() (err error) {
 	return
 }
 
+// outputPath returns the path of the generated code without its extension:
+// the same path below the output directory as that of the schema below the
+// input directory. A schema from elsewhere doesn't leave the output directory.
+func (opt *Options) outputPath() string {
+	path, err := filepath.Rel(opt.InputDir, opt.FilePath)
+	if err != nil {
+		path = opt.FilePath
+	}
+	path = filepath.Join(string(filepath.Separator), path)
+	return filepath.Join(opt.OutputDir, strings.TrimPrefix(path, string(filepath.Separator)))
+}
+
 // GetValueType convert XSD schema value type to the build-in type for the
 // given value and proto tree.
 func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueType string, err error) {
-- 
2.43.0


From a5e692cce74bec974305102e2eff1d996b0de9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:36 +0000
Subject: [PATCH 33/58] fix: report XML syntax errors

---
 parser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index bea5d68..3d0e565 100644
--- a/parser.go
+++ b/parser.go
@@ -11,6 +11,7 @@ package xgen
 import (
 	"encoding/xml"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 	"reflect"
@@ -109,10 +110,14 @@ func (opt *Options) Parse() (err error) {
 	decoder := xml.NewDecoder(xmlFile)
 	decoder.CharsetReader = charset.NewReaderLabel
 	for {
-		token, _ := decoder.Token()
-		if token == nil {
+		var token xml.Token
+		if token, err = decoder.Token(); err == io.EOF {
+			err = nil
 			break
 		}
+		if err != nil {
+			return
+		}
 
 		switch element := token.(type) {
 		case xml.StartElement:
-- 
2.43.0


From a6bc03050d367b652dfc86b08c5ba9a8be5a61e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:38 +0000
Subject: [PATCH 34/58] fix: tolerate elements named like a method that is no
 handler

---
 utils.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index ec6389a..84e2c7c 100644
--- a/utils.go
+++ b/utils.go
@@ -231,7 +231,7 @@ func ToTitle(val string) string {
 // reflect by given receiver, name and parameters.
 func callFuncByName(receiver interface{}, name string, params []reflect.Value) (err error) {
 	function := reflect.ValueOf(receiver).MethodByName(name)
-	if function.IsValid() {
+	if function.IsValid() && accepts(function.Type(), params) {
 		rt := function.Call(params)
 		if len(rt) == 0 {
 			return
@@ -244,6 +244,19 @@ func callFuncByName(receiver interface{}, name string, params []reflect.Value) (
 	return
 }
 
+// accepts reports if a function of given type can be called with the params.
+func accepts(function reflect.Type, params []reflect.Value) bool {
+	if function.NumIn() != len(params) {
+		return false
+	}
+	for i, param := range params {
+		if !param.Type().AssignableTo(function.In(i)) {
+			return false
+		}
+	}
+	return true
+}
+
 // isValidUrl tests a string to determine if it is a well-structured url or
 // not.
 func isValidURL(toTest string) bool {
-- 
2.43.0


From 301537749a2f12eb2348d7cd8a87543c41456531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:17 +0000
Subject: [PATCH 35/58] fix: report output that can't be written and input that
 can't be read

---
 genC.go          | 2 +-
 genGo.go         | 2 +-
 genJava.go       | 2 +-
 genRust.go       | 2 +-
 genTypeScript.go | 2 +-
 utils.go         | 3 +++
 6 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/genC.go b/genC.go
index 151a00a..936163e 100644
--- a/genC.go
+++ b/genC.go
@@ -51,7 +51,7 @@ func (gen *CodeGenerator) GenC() error {
 	}
 	defer f.Close()
 	source := []byte(fmt.Sprintf("%s\n%s", copyright, gen.Field))
-	f.Write(source)
+	_, err = f.Write(source)
 	return err
 }
 
diff --git a/genGo.go b/genGo.go
index 865ad94..fe85b21 100644
--- a/genGo.go
+++ b/genGo.go
@@ -91,7 +91,7 @@ func (gen *CodeGenerator) GenGo() error {
 		f.WriteString(fmt.Sprintf("package %s\n%s%s", packageName, importPackage, gen.Field))
 		return err
 	}
-	f.Write(source)
+	_, err = f.Write(source)
 	return err
 }
 
diff --git a/genJava.go b/genJava.go
index ae0e987..14c3db5 100644
--- a/genJava.go
+++ b/genJava.go
@@ -59,7 +59,7 @@ import javax.xml.bind.annotation.XmlSchemaType;
 import javax.xml.bind.annotation.XmlType;
 import javax.xml.bind.annotation.XmlValue;`
 
-	f.Write([]byte(fmt.Sprintf("%s\n\npackage %s;\n\n%s\n%s", copyright, packageName, importPackage, gen.Field)))
+	_, err = f.Write([]byte(fmt.Sprintf("%s\n\npackage %s;\n\n%s\n%s", copyright, packageName, importPackage, gen.Field)))
 	return err
 }
 
diff --git a/genRust.go b/genRust.go
index 74e5f0f..912755c 100644
--- a/genRust.go
+++ b/genRust.go
@@ -116,7 +116,7 @@ extern crate serde_xml_rs;
 
 use serde_xml_rs::from_reader;`
 	source := []byte(fmt.Sprintf("%s\n\n%s\n%s", copyright, extern, gen.Field))
-	f.Write(source)
+	_, err = f.Write(source)
 	return err
 }
 
diff --git a/genTypeScript.go b/genTypeScript.go
index 08be364..7bcedcf 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -43,7 +43,7 @@ func (gen *CodeGenerator) GenTypeScript() error {
 	}
 	defer f.Close()
 	source := []byte(fmt.Sprintf("%s\n%s", copyright, gen.Field))
-	f.Write(source)
+	_, err = f.Write(source)
 	return err
 
 }
diff --git a/utils.go b/utils.go
index 84e2c7c..33e51be 100644
--- a/utils.go
+++ b/utils.go
@@ -47,6 +47,9 @@ func GetFileList(path string) (files []string, err error) {
 	}
 	if fi.IsDir() {
 		err = filepath.Walk(path, func(fp string, info os.FileInfo, err error) error {
+			if err != nil {
+				return err
+			}
 			files = append(files, fp)
 			return nil
 		})
-- 
2.43.0


From afd413053775d1add541eab4d3eb490ed03a222c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:51 +0000
Subject: [PATCH 36/58] fix: generate code in several goroutines

---
 genC.go          | 2 ++
 genGo.go         | 2 ++
 genJava.go       | 2 ++
 genRust.go       | 2 ++
 genTypeScript.go | 2 ++
 utils.go         | 2 ++
 6 files changed, 12 insertions(+)

diff --git a/genC.go b/genC.go
index 936163e..836ccb4 100644
--- a/genC.go
+++ b/genC.go
@@ -37,6 +37,8 @@ var cBuildInType = map[string]bool{
 // GenC generates C programming language source code for XML schema definition
 // files.
 func (gen *CodeGenerator) GenC() error {
+	fieldNameMutex.Lock()
+	defer fieldNameMutex.Unlock()
 	fieldNameCount = make(map[string]int)
 	for _, ele := range gen.ProtoTree {
 		if ele == nil {
diff --git a/genGo.go b/genGo.go
index fe85b21..885fd14 100644
--- a/genGo.go
+++ b/genGo.go
@@ -59,6 +59,8 @@ var goBuildinType = map[string]bool{
 // GenGo generate Go programming language source code for XML schema
 // definition files.
 func (gen *CodeGenerator) GenGo() error {
+	fieldNameMutex.Lock()
+	defer fieldNameMutex.Unlock()
 	fieldNameCount = make(map[string]int)
 	for _, ele := range gen.ProtoTree {
 		if ele == nil {
diff --git a/genJava.go b/genJava.go
index 14c3db5..efd5d79 100644
--- a/genJava.go
+++ b/genJava.go
@@ -32,6 +32,8 @@ var javaBuildInType = map[string]bool{
 // GenJava generate Java programming language source code for XML schema
 // definition files.
 func (gen *CodeGenerator) GenJava() error {
+	fieldNameMutex.Lock()
+	defer fieldNameMutex.Unlock()
 	fieldNameCount = make(map[string]int)
 	for _, ele := range gen.ProtoTree {
 		if ele == nil {
diff --git a/genRust.go b/genRust.go
index 912755c..2c711ab 100644
--- a/genRust.go
+++ b/genRust.go
@@ -96,6 +96,8 @@ var (
 // GenRust generate Go programming language source code for XML schema
 // definition files.
 func (gen *CodeGenerator) GenRust() error {
+	fieldNameMutex.Lock()
+	defer fieldNameMutex.Unlock()
 	fieldNameCount = make(map[string]int)
 	for _, ele := range gen.ProtoTree {
 		if ele == nil {
diff --git a/genTypeScript.go b/genTypeScript.go
index 7bcedcf..e619662 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -29,6 +29,8 @@ var typeScriptBuildInType = map[string]bool{
 // GenTypeScript generate TypeScript programming language source code for XML
 // schema definition files.
 func (gen *CodeGenerator) GenTypeScript() error {
+	fieldNameMutex.Lock()
+	defer fieldNameMutex.Unlock()
 	fieldNameCount = make(map[string]int)
 	for _, ele := range gen.ProtoTree {
 		if ele == nil {
diff --git a/utils.go b/utils.go
index 33e51be..a09f9b0 100644
--- a/utils.go
+++ b/utils.go
@@ -19,6 +19,7 @@ import (
 	"regexp"
 	"sort"
 	"strings"
+	"sync"
 	"unicode"
 	"unicode/utf8"
 )
@@ -28,6 +29,7 @@ var (
 	matchFirstCap  = regexp.MustCompile("([A-Z])([A-Z][a-z])")
 	matchAllCap    = regexp.MustCompile("([a-z0-9])([A-Z])")
 	fieldNameCount map[string]int
+	fieldNameMutex sync.Mutex // held while names are counted
 )
 
 // ToSnakeCase converts the provided string to snake_case.
-- 
2.43.0


From 0e3f8942c238f793d4684665ae0bda1d59899382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:51 +0000
Subject: [PATCH 37/58] fix: format xmlChoice.go

---
 xmlChoice.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xmlChoice.go b/xmlChoice.go
index 316aa5f..1fe1aba 100644
--- a/xmlChoice.go
+++ b/xmlChoice.go
@@ -47,6 +47,7 @@ func (opt *Options) EndChoice(ele xml.EndElement, protoTree []interface{}) (err
 
 	return
 }
+
 // OnSequence handles parsing event on the sequence start elements. Like a
 // choice, a sequence that may occur several times makes its members plural.
 func (opt *Options) OnSequence(ele xml.StartElement, protoTree []interface{}) (err error) {
-- 
2.43.0


From 472469b53183dd42e77b3bb74954238f7aa785e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:15 +0000
Subject: [PATCH 38/58] fix: merge what a group or type lists twice

---
 xmlElement.go | 35 ++++++++++++++++++++---------------
 xmlGroup.go   | 21 ++++++++++++---------
 2 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/xmlElement.go b/xmlElement.go
index aef212d..2b64036 100644
--- a/xmlElement.go
+++ b/xmlElement.go
@@ -73,26 +73,15 @@ func (opt *Options) EndElement(ele xml.EndElement, protoTree []interface{}) (err
 	}
 
 	if opt.ComplexType.Len() > 0 {
-		element, i := findElement(e, opt.ComplexType.Peek().(*ComplexType).Elements)
-		// Handle a case where two elements with the same name and type are present in the same complex type
-		// This can happen with a Choice that includes a definition for a single value of a type along with
-		// an alternative that is an array of the same type with the same name. This tends to happen for backward
-		// compatible XSDs where a chance is introduced to allow multiple items.
-		// In this situation, the version of the element that's preserved is the one with the highest plurality
-		// since generated code for an array of a type should be compatible to unmarshal/marshal arrays of a single
-		// element
-		if element != nil && element.Type == e.Type {
-			element.Plural = element.Plural || e.Plural
-			opt.ComplexType.Peek().(*ComplexType).Elements[i] = *element
-		} else {
-			opt.ComplexType.Peek().(*ComplexType).Elements = append(opt.ComplexType.Peek().(*ComplexType).Elements, *e)
-		}
+		complexType := opt.ComplexType.Peek().(*ComplexType)
+		complexType.Elements = addElement(e, complexType.Elements)
 		return
 	}
 
 	if opt.InGroup > 0 {
 		if opt.Group.Len() > 0 {
-			opt.Group.Peek().(*Group).Elements = append(opt.Group.Peek().(*Group).Elements, *e)
+			group := opt.Group.Peek().(*Group)
+			group.Elements = addElement(e, group.Elements)
 		}
 		return
 	}
@@ -101,6 +90,22 @@ func (opt *Options) EndElement(ele xml.EndElement, protoTree []interface{}) (err
 	return
 }
 
+func addElement(e *Element, elements []Element) []Element {
+	element, i := findElement(e, elements)
+	// Handle a case where two elements with the same name and type are present in the same complex type or group
+	// This can happen with a Choice that includes a definition for a single value of a type along with
+	// an alternative that is an array of the same type with the same name. This tends to happen for backward
+	// compatible XSDs where a chance is introduced to allow multiple items.
+	// In this situation, the version of the element that's preserved is the one with the highest plurality
+	// since generated code for an array of a type should be compatible to unmarshal/marshal arrays of a single
+	// element
+	if element != nil && element.Type == e.Type {
+		elements[i].Plural = element.Plural || e.Plural
+		return elements
+	}
+	return append(elements, *e)
+}
+
 func findElement(element *Element, elements []Element) (existing *Element, index int) {
 	for i, ele := range elements {
 		if element.Name == ele.Name {
diff --git a/xmlGroup.go b/xmlGroup.go
index d34720e..6df78ae 100644
--- a/xmlGroup.go
+++ b/xmlGroup.go
@@ -50,15 +50,15 @@ func (opt *Options) OnGroup(ele xml.StartElement, protoTree []interface{}) (err
 		}
 		if opt.InGroup > 0 {
 			opt.InGroup++
-			opt.Group.Peek().(*Group).Groups = append(opt.Group.Peek().(*Group).Groups, group)
+			outer := opt.Group.Peek().(*Group)
+			outer.Groups = addGroup(group, outer.Groups)
 			return
 		}
 
 	}
 	if opt.ComplexType.Len() > 0 {
-		if !inGroups(&group, opt.ComplexType.Peek().(*ComplexType).Groups) {
-			opt.ComplexType.Peek().(*ComplexType).Groups = append(opt.ComplexType.Peek().(*ComplexType).Groups, group)
-		}
+		complexType := opt.ComplexType.Peek().(*ComplexType)
+		complexType.Groups = addGroup(group, complexType.Groups)
 		return
 	}
 	return
@@ -77,11 +77,14 @@ func (opt *Options) EndGroup(ele xml.EndElement, protoTree []interface{}) (err e
 	return
 }
 
-func inGroups(group *Group, groups []Group) bool {
-	for _, g := range groups {
-		if g.Name == group.Name {
-			return true
+// addGroup adds a reference to a group once, as a plural one if any of the
+// references is plural.
+func addGroup(group Group, groups []Group) []Group {
+	for i := range groups {
+		if groups[i].Name == group.Name {
+			groups[i].Plural = groups[i].Plural || group.Plural
+			return groups
 		}
 	}
-	return false
+	return append(groups, group)
 }
-- 
2.43.0


From 339e9a04ca6b8908db42ca2975c467572bf265eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:39 +0000
Subject: [PATCH 39/58] fix: don't declare the anonymous types of simple
 content

---
 xmlSimpleType.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xmlSimpleType.go b/xmlSimpleType.go
index c4a4116..7ba4772 100644
--- a/xmlSimpleType.go
+++ b/xmlSimpleType.go
@@ -46,6 +46,10 @@ func (opt *Options) EndSimpleType(ele xml.EndElement, protoTree []interface{}) (
 		opt.Element.Peek().(*Element).Type = simpleType.Base
 		return
 	}
+	if opt.ComplexType.Len() > 0 {
+		// The type of simple content that is restricted is not kept.
+		return
+	}
 	opt.ProtoTree = append(opt.ProtoTree, simpleType)
 	return
 }
-- 
2.43.0


From 4a34a40d862ae61fa82afe78b8bb167208ec3d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:41 +0000
Subject: [PATCH 40/58] fix: numbered names don't clash with the names of other
 components

---
 genC.go          |  2 +-
 genGo.go         |  2 +-
 genJava.go       |  2 +-
 genRust.go       |  2 +-
 genTypeScript.go |  2 +-
 utils.go         | 12 ++++++++++++
 6 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/genC.go b/genC.go
index 836ccb4..c9fd1ae 100644
--- a/genC.go
+++ b/genC.go
@@ -77,7 +77,7 @@ func genCFieldName(name string, unique bool) (fieldName string) {
 	if unique {
 		fieldNameCount[fieldName]++
 		if count := fieldNameCount[fieldName]; count != 1 {
-			fieldName = fmt.Sprintf("%s%d", fieldName, count)
+			fieldName = uniqueName(fieldName, count)
 		}
 	}
 	return
diff --git a/genGo.go b/genGo.go
index 885fd14..b41de84 100644
--- a/genGo.go
+++ b/genGo.go
@@ -110,7 +110,7 @@ func genGoFieldName(name string, unique bool) (fieldName string) {
 	if unique {
 		fieldNameCount[fieldName]++
 		if count := fieldNameCount[fieldName]; count != 1 {
-			fieldName = fmt.Sprintf("%s%d", fieldName, count)
+			fieldName = uniqueName(fieldName, count)
 		}
 	}
 	return
diff --git a/genJava.go b/genJava.go
index efd5d79..2cbc6ee 100644
--- a/genJava.go
+++ b/genJava.go
@@ -78,7 +78,7 @@ func genJavaFieldName(name string, unique bool) (fieldName string) {
 	if unique {
 		fieldNameCount[fieldName]++
 		if count := fieldNameCount[fieldName]; count != 1 {
-			fieldName = fmt.Sprintf("%s%d", fieldName, count)
+			fieldName = uniqueName(fieldName, count)
 		}
 	}
 	return
diff --git a/genRust.go b/genRust.go
index 2c711ab..1540b28 100644
--- a/genRust.go
+++ b/genRust.go
@@ -153,7 +153,7 @@ func genRustStructName(name string, unique bool) (structName string) {
 	if unique {
 		fieldNameCount[structName]++
 		if count := fieldNameCount[structName]; count != 1 {
-			structName = fmt.Sprintf("%s%d", structName, count)
+			structName = uniqueName(structName, count)
 		}
 	}
 	return
diff --git a/genTypeScript.go b/genTypeScript.go
index e619662..d9d803b 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -63,7 +63,7 @@ func genTypeScriptFieldName(name string, unique bool) (fieldName string) {
 	if unique {
 		fieldNameCount[fieldName]++
 		if count := fieldNameCount[fieldName]; count != 1 {
-			fieldName = fmt.Sprintf("%s%d", fieldName, count)
+			fieldName = uniqueName(fieldName, count)
 		}
 	}
 	return
diff --git a/utils.go b/utils.go
index a09f9b0..1a68e71 100644
--- a/utils.go
+++ b/utils.go
@@ -297,6 +297,18 @@ func fetchSchema(URL string) ([]byte, error) {
 	return body, err
 }
 
+// uniqueName numbers a name that is in use already. The result isn't in use,
+// neither by a component that has a name with this number.
+func uniqueName(name string, count int) string {
+	unique := fmt.Sprintf("%s%d", name, count)
+	for fieldNameCount[unique] > 0 {
+		fieldNameCount[name]++
+		unique = fmt.Sprintf("%s%d", name, fieldNameCount[name])
+	}
+	fieldNameCount[unique]++
+	return unique
+}
+
 func genFieldComment(name, doc, prefix string) string {
 	docReplacer := strings.NewReplacer("\n", fmt.Sprintf("\r\n%s ", prefix), "\t", "",
 		// These break lines, too, and would end the comment.
-- 
2.43.0


From aa1cc890b73c98c754317a62462cdad2cb40bb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:51 +0000
Subject: [PATCH 41/58] fix: format the Go code once its lines end as in the
 file

---
 genGo.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/genGo.go b/genGo.go
index b41de84..5d4039d 100644
--- a/genGo.go
+++ b/genGo.go
@@ -88,7 +88,9 @@ func (gen *CodeGenerator) GenGo() error {
 	if packageName == "" {
 		packageName = "schema"
 	}
-	source, err := format.Source([]byte(fmt.Sprintf("%s\n\npackage %s\n%s%s", copyright, packageName, importPackage, gen.Field)))
+	// The comments of some documentation aren't formatted the same with CRLF.
+	field := strings.Replace(gen.Field, "\r\n", "\n", -1)
+	source, err := format.Source([]byte(fmt.Sprintf("%s\n\npackage %s\n%s%s", copyright, packageName, importPackage, field)))
 	if err != nil {
 		f.WriteString(fmt.Sprintf("package %s\n%s%s", packageName, importPackage, gen.Field))
 		return err
-- 
2.43.0


From df5701b1e74c043bd954db54a592dfeb4ee798cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:59 +0000
Subject: [PATCH 42/58] fix: documentation doesn't become a build constraint of
 the Go code

---
 utils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 1a68e71..f024235 100644
--- a/utils.go
+++ b/utils.go
@@ -28,6 +28,7 @@ var (
 	copyright      = "// Code generated by xgen. DO NOT EDIT."
 	matchFirstCap  = regexp.MustCompile("([A-Z])([A-Z][a-z])")
 	matchAllCap    = regexp.MustCompile("([a-z0-9])([A-Z])")
+	plusBuild      = regexp.MustCompile(`\r\n//[\s\p{Z}]*\+build`)
 	fieldNameCount map[string]int
 	fieldNameMutex sync.Mutex // held while names are counted
 )
@@ -316,7 +317,10 @@ func genFieldComment(name, doc, prefix string) string {
 	if doc == "" {
 		return fmt.Sprintf("\r\n%s %s ...\r\n", prefix, name)
 	}
-	return fmt.Sprintf("\r\n%s %s is %s\r\n", prefix, name, docReplacer.Replace(doc))
+	doc = docReplacer.Replace(doc)
+	// On a line of its own, this would be a build constraint of the Go file.
+	doc = plusBuild.ReplaceAllString(doc, " +build")
+	return fmt.Sprintf("\r\n%s %s is %s\r\n", prefix, name, doc)
 }
 
 type kvPair struct {
-- 
2.43.0


From a26d946fee48848e19dc608dbd3d51f0c4cecacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:53 +0000
Subject: [PATCH 43/58] fix: an import by way of the name of the working
 directory has one output file

---
 parser.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 3d0e565..4292400 100644
--- a/parser.go
+++ b/parser.go
@@ -176,9 +176,14 @@ func (opt *Options) Parse() (err error) {
 // the same path below the output directory as that of the schema below the
 // input directory. A schema from elsewhere doesn't leave the output directory.
 func (opt *Options) outputPath() string {
-	path, err := filepath.Rel(opt.InputDir, opt.FilePath)
-	if err != nil {
-		path = opt.FilePath
+	path := opt.FilePath
+	// A relative path may leave the working directory and come back to it.
+	inputDir, inputErr := filepath.Abs(opt.InputDir)
+	filePath, fileErr := filepath.Abs(opt.FilePath)
+	if inputErr == nil && fileErr == nil {
+		if rel, err := filepath.Rel(inputDir, filePath); err == nil {
+			path = rel
+		}
 	}
 	path = filepath.Join(string(filepath.Separator), path)
 	return filepath.Join(opt.OutputDir, strings.TrimPrefix(path, string(filepath.Separator)))
-- 
2.43.0


From 5d7878b8aa3d53ad1b96e927fa6a0225cee67095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:41 +0000
Subject: [PATCH 44/58] fix: a reference by prefix is to the imported
 namespace, not to a local component of that name

---
 parser.go | 171 +++++++++++++++++++++++++++++++++---------------------
 1 file changed, 105 insertions(+), 66 deletions(-)

diff --git a/parser.go b/parser.go
index 4292400..b01638d 100644
--- a/parser.go
+++ b/parser.go
@@ -57,6 +57,8 @@ type Options struct {
 	openEle    *Stack
 	annotation int
 	docText    strings.Builder
+	verbatim   bool
+	parsers    map[string]*Options
 }
 
 // NewParser creates a new parser options for the Parse. Useful for XML schema
@@ -106,6 +108,7 @@ func (opt *Options) Parse() (err error) {
 	opt.typeOwner = NewStack()
 	opt.openEle = NewStack()
 	opt.annotation = 0
+	opt.parsers = make(map[string]*Options)
 
 	decoder := xml.NewDecoder(xmlFile)
 	decoder.CharsetReader = charset.NewReaderLabel
@@ -192,23 +195,24 @@ func (opt *Options) outputPath() string {
 // GetValueType convert XSD schema value type to the build-in type for the
 // given value and proto tree.
 func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueType string, err error) {
-	if buildType, ok := getBuildInTypeByLang(value, opt.Lang); ok {
-		valueType = buildType
+	if opt.verbatim {
+		valueType = value
 		return
 	}
-	if buildType, ok := getBuildInTypeByLang(trimNSPrefix(value), opt.Lang); ok {
+	if buildType, ok := opt.buildInType(value); ok {
 		valueType = buildType
 		return
 	}
-	valueType = getBasefromSimpleType(trimNSPrefix(value), XSDSchema)
-	if valueType != trimNSPrefix(value) && valueType != "" {
-		return
-	}
-	if opt.Extract {
-		return
+	schemaLocation, imported := opt.importLocation(value)
+	if !imported {
+		// A component of an imported schema may have the name of a local one.
+		valueType = getBasefromSimpleType(trimNSPrefix(value), XSDSchema)
+		if valueType != trimNSPrefix(value) && valueType != "" {
+			return
+		}
 	}
-	schemaLocation := opt.NSSchemaLocationMap[opt.parseNS(value)]
-	if isValidURL(schemaLocation) {
+	valueType = trimNSPrefix(value)
+	if opt.Extract || isValidURL(schemaLocation) {
 		return
 	}
 	xsdFile := filepath.Join(opt.FileDir, schemaLocation)
@@ -217,31 +221,102 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 	if err != nil {
 		return
 	}
-	if fi.IsDir() {
-		// extract type of value from include schema.
-		valueType = getBasefromSimpleType(trimNSPrefix(value), opt.dependencies(false))
-		return
+	if !fi.IsDir() {
+		if _, ok := opt.ParseFileMap[xsdFile]; !ok {
+			if err = opt.dependencyParser(xsdFile, false).Parse(); err != nil {
+				return
+			}
+		}
 	}
+	valueType = opt.followReference(value)
+	return
+}
 
-	depXSDSchema, ok := opt.ParseFileMap[xsdFile]
-	if !ok {
-		parser := opt.dependencyParser(xsdFile, false)
-		if err = parser.Parse(); err != nil {
-			return
+func (opt *Options) buildInType(value string) (string, bool) {
+	if buildType, ok := getBuildInTypeByLang(value, opt.Lang); ok {
+		return buildType, ok
+	}
+	return getBuildInTypeByLang(trimNSPrefix(value), opt.Lang)
+}
+
+// importLocation returns the location of the imported schema in which the
+// given reference is defined.
+func (opt *Options) importLocation(value string) (location string, imported bool) {
+	location, imported = opt.NSSchemaLocationMap[opt.parseNS(value)]
+	return
+}
+
+// followReference returns the type that a reference to a component of an
+// included or imported schema ends in. References in these schemas are
+// followed in turn, each one with the prefixes and locations in use where it
+// stands.
+func (opt *Options) followReference(value string) string {
+	visited := map[string]bool{}
+	schema := opt
+	for {
+		if buildType, ok := schema.buildInType(value); ok {
+			return buildType
+		}
+		name := trimNSPrefix(value)
+		var files []string
+		if location, imported := schema.importLocation(value); imported {
+			files = []string{filepath.Join(schema.FileDir, location)}
+		} else {
+			if schema != opt {
+				files = []string{filepath.Clean(schema.FilePath)}
+			}
+			files = append(files, schema.includedFiles()...)
+		}
+		base, parser := opt.findBase(name, files)
+		if parser == nil {
+			return name
+		}
+		step := parser.FilePath + " " + name
+		if visited[step] {
+			return name
 		}
-		depXSDSchema = parser.ProtoTree
+		visited[step] = true
+		value, schema = base, parser
 	}
-	valueType = getBasefromSimpleType(trimNSPrefix(value), depXSDSchema)
-	if valueType != trimNSPrefix(value) && valueType != "" {
-		return
+}
+
+// findBase looks for a component in the given schemas and those included by
+// them. It returns the reference to its base and the parser of the schema in
+// which it's found.
+func (opt *Options) findBase(name string, files []string) (string, *Options) {
+	visited := map[string]bool{}
+	for len(files) > 0 {
+		file := files[0]
+		files = files[1:]
+		if visited[file] {
+			continue
+		}
+		visited[file] = true
+		parser, ok := opt.parsers[file]
+		if !ok {
+			parser = opt.dependencyParser(file, true)
+			parser.verbatim = true
+			if parser.Parse() != nil {
+				parser = nil
+			}
+			opt.parsers[file] = parser
+		}
+		if parser == nil {
+			continue
+		}
+		if base := getDirectBase(name, parser.ProtoTree); base != name && base != "" {
+			return base, parser
+		}
+		files = append(files, parser.includedFiles()...)
 	}
-	// The type may be defined in a schema that's included by the imported one,
-	// or the imported one may be in progress yet.
-	parser := opt.dependencyParser(xsdFile, true)
-	if err = parser.Parse(); err != nil {
-		return
+	return "", nil
+}
+
+func (opt *Options) includedFiles() (files []string) {
+	for include := range opt.IncludeMap {
+		files = append(files, filepath.Join(opt.FileDir, include))
 	}
-	valueType = getBasefromSimpleType(trimNSPrefix(value), append(parser.ProtoTree, parser.dependencies(true)...))
+	sort.Strings(files)
 	return
 }
 
@@ -264,39 +339,3 @@ func (opt *Options) dependencyParser(file string, extract bool) *Options {
 		ProtoTree:           make([]interface{}, 0),
 	})
 }
-
-// dependencies extracts the components of all schemas that are included
-// directly or by an included schema, and on request also those of the imported
-// schemas.
-func (opt *Options) dependencies(imported bool) (protoTree []interface{}) {
-	files := opt.dependencyFiles(imported)
-	visited := map[string]bool{filepath.Clean(opt.FilePath): true}
-	for len(files) > 0 {
-		file := files[0]
-		files = files[1:]
-		if visited[file] {
-			continue
-		}
-		visited[file] = true
-		parser := opt.dependencyParser(file, true)
-		if parser.Parse() != nil {
-			continue
-		}
-		protoTree = append(protoTree, parser.ProtoTree...)
-		files = append(files, parser.dependencyFiles(imported)...)
-	}
-	return
-}
-
-func (opt *Options) dependencyFiles(imported bool) (files []string) {
-	for include := range opt.IncludeMap {
-		files = append(files, filepath.Join(opt.FileDir, include))
-	}
-	if imported {
-		for _, location := range opt.NSSchemaLocationMap {
-			files = append(files, filepath.Join(opt.FileDir, location))
-		}
-	}
-	sort.Strings(files)
-	return
-}
-- 
2.43.0


From 2a1c5c036721e9fb65e5cfecb10077e75871cb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:28 +0000
Subject: [PATCH 45/58] fix: an unprefixed reference is to the schema imported
 under the default namespace

---
 schema.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schema.go b/schema.go
index f15fde7..641f95e 100644
--- a/schema.go
+++ b/schema.go
@@ -15,6 +15,9 @@ func (opt *Options) prepareLocalNameNSMap(element xml.StartElement) {
 		if ele.Name.Space == "xmlns" {
 			opt.LocalNameNSMap[ele.Name.Local] = ele.Value
 		}
+		if ele.Name.Space == "" && ele.Name.Local == "xmlns" {
+			opt.LocalNameNSMap[""] = ele.Value
+		}
 	}
 }
 
-- 
2.43.0


From acd55cb14371bfc686bbd8bcfa26198c3aae3da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:48 +0000
Subject: [PATCH 46/58] fix: a document without an element is an error

---
 parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index b01638d..65c79a7 100644
--- a/parser.go
+++ b/parser.go
@@ -112,18 +112,24 @@ func (opt *Options) Parse() (err error) {
 
 	decoder := xml.NewDecoder(xmlFile)
 	decoder.CharsetReader = charset.NewReaderLabel
+	empty := true
 	for {
 		var token xml.Token
-		if token, err = decoder.Token(); err == io.EOF {
+		if token, err = decoder.Token(); err == io.EOF && !empty {
 			err = nil
 			break
 		}
+		if err == io.EOF {
+			// A document has an element, at least.
+			err = io.ErrUnexpectedEOF
+		}
 		if err != nil {
 			return
 		}
 
 		switch element := token.(type) {
 		case xml.StartElement:
+			empty = false
 			if opt.onAnnotation(element.Name.Local) {
 				continue
 			}
-- 
2.43.0


From c89d726fc0767cea8a0bcd48f709e46086048925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:34 +0000
Subject: [PATCH 47/58] fix: the attributes of XML itself are tagged with their
 namespace in Go

---
 genGo.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/genGo.go b/genGo.go
index 5d4039d..e293991 100644
--- a/genGo.go
+++ b/genGo.go
@@ -146,6 +146,16 @@ func (gen *CodeGenerator) goFieldType(name string) string {
 	return fieldType
 }
 
+// goXMLName returns the name of an attribute for its tag: encoding/xml expects
+// the namespace in place of the prefix of the attributes every XML document may
+// have.
+func goXMLName(name string) string {
+	if strings.HasPrefix(name, "xml:") {
+		return "http://www.w3.org/XML/1998/namespace " + strings.TrimPrefix(name, "xml:")
+	}
+	return name
+}
+
 // GoSimpleType generates code for simple type XML schema in Go language
 // syntax.
 func (gen *CodeGenerator) GoSimpleType(v *SimpleType) {
@@ -212,7 +222,7 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 				optional = `,omitempty`
 			}
 			fieldType := gen.goFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
-			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), fieldType, attribute.Name, optional)
+			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), fieldType, goXMLName(attribute.Name), optional)
 		}
 		for _, group := range v.Groups {
 			var plural string
@@ -302,7 +312,7 @@ func (gen *CodeGenerator) GoAttributeGroup(v *AttributeGroup) {
 			if attribute.Optional {
 				optional = `,omitempty`
 			}
-			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), gen.goFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)), attribute.Name, optional)
+			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), gen.goFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)), goXMLName(attribute.Name), optional)
 		}
 		content += "}\n"
 		gen.StructAST[v.Name] = content
-- 
2.43.0


From e02fcd7b7f4cee4f8a1fe1eb56e2e15c303dcd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:53 +0000
Subject: [PATCH 48/58] fix: a component called self has no legal identifier in
 Rust

---
 genRust.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/genRust.go b/genRust.go
index 1540b28..332da02 100644
--- a/genRust.go
+++ b/genRust.go
@@ -150,6 +150,9 @@ func genRustStructName(name string, unique bool) (structName string) {
 	}
 	structName = tmp
 	structName = strings.NewReplacer("-", "", "_", "").Replace(structName)
+	if _, ok := rustKeywords[structName]; ok {
+		structName += "_"
+	}
 	if unique {
 		fieldNameCount[structName]++
 		if count := fieldNameCount[structName]; count != 1 {
-- 
2.43.0


From 1357dda3a81fbb621ee0545f1926d0cdb1deaac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:43 +0000
Subject: [PATCH 49/58] fix: a list or union defined inside a union changes
 that union

---
 parser.go   | 14 ++++++++------
 xmlList.go  |  2 +-
 xmlUnion.go |  9 +++++++++
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/parser.go b/parser.go
index 65c79a7..a7b4093 100644
--- a/parser.go
+++ b/parser.go
@@ -53,12 +53,13 @@ type Options struct {
 	AttributeGroup *Stack
 	Choice         *Stack
 
-	typeOwner  *Stack
-	openEle    *Stack
-	annotation int
-	docText    strings.Builder
-	verbatim   bool
-	parsers    map[string]*Options
+	typeOwner    *Stack
+	openEle      *Stack
+	annotation   int
+	nestedUnions int
+	docText      strings.Builder
+	verbatim     bool
+	parsers      map[string]*Options
 }
 
 // NewParser creates a new parser options for the Parse. Useful for XML schema
@@ -96,6 +97,7 @@ func (opt *Options) Parse() (err error) {
 	opt.CurrentEle = ""
 	opt.InGroup = 0
 	opt.InUnion = false
+	opt.nestedUnions = 0
 	opt.InAttributeGroup = false
 
 	opt.SimpleType = NewStack()
diff --git a/xmlList.go b/xmlList.go
index 0d07154..d4fd6d6 100644
--- a/xmlList.go
+++ b/xmlList.go
@@ -14,7 +14,7 @@ import "encoding/xml"
 // defines a simple type element as a list of values of a specified data
 // type.
 func (opt *Options) OnList(ele xml.StartElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Peek() == nil {
+	if opt.SimpleType.Peek() == nil || opt.InUnion {
 		return
 	}
 	opt.SimpleType.Peek().(*SimpleType).List = true
diff --git a/xmlUnion.go b/xmlUnion.go
index c069648..0cc806a 100644
--- a/xmlUnion.go
+++ b/xmlUnion.go
@@ -17,6 +17,11 @@ import (
 // element defines a simple type as a collection (union) of values from
 // specified simple data types.
 func (opt *Options) OnUnion(ele xml.StartElement, protoTree []interface{}) (err error) {
+	if opt.InUnion {
+		// A member type that's defined in place isn't kept.
+		opt.nestedUnions++
+		return
+	}
 	opt.InUnion = true
 	if opt.SimpleType.Peek() == nil {
 		return
@@ -40,6 +45,10 @@ func (opt *Options) OnUnion(ele xml.StartElement, protoTree []interface{}) (err
 
 // EndUnion handles parsing event on the union end elements.
 func (opt *Options) EndUnion(ele xml.EndElement, protoTree []interface{}) (err error) {
+	if opt.nestedUnions > 0 {
+		opt.nestedUnions--
+		return
+	}
 	opt.InUnion = false
 	return
 }
-- 
2.43.0


From 27226fc90347d8652cdf73624c6fe1c47599e802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:28 +0000
Subject: [PATCH 50/58] fix: an element or attribute called as its type took
 the type's place

---
 genC.go          |  2 +-
 genGo.go         |  2 +-
 genJava.go       |  2 +-
 genRust.go       |  2 +-
 genTypeScript.go |  2 +-
 utils.go         | 44 ++++++++++++++++++++++++++++++++++++++++++--
 6 files changed, 47 insertions(+), 7 deletions(-)

diff --git a/genC.go b/genC.go
index c9fd1ae..4e5b6da 100644
--- a/genC.go
+++ b/genC.go
@@ -41,7 +41,7 @@ func (gen *CodeGenerator) GenC() error {
 	defer fieldNameMutex.Unlock()
 	fieldNameCount = make(map[string]int)
 	for _, ele := range gen.ProtoTree {
-		if ele == nil {
+		if ele == nil || gen.sharesDeclaration(ele) {
 			continue
 		}
 		funcName := fmt.Sprintf("C%s", reflect.TypeOf(ele).String()[6:])
diff --git a/genGo.go b/genGo.go
index e293991..2984dd6 100644
--- a/genGo.go
+++ b/genGo.go
@@ -63,7 +63,7 @@ func (gen *CodeGenerator) GenGo() error {
 	defer fieldNameMutex.Unlock()
 	fieldNameCount = make(map[string]int)
 	for _, ele := range gen.ProtoTree {
-		if ele == nil {
+		if ele == nil || gen.sharesDeclaration(ele) {
 			continue
 		}
 		funcName := fmt.Sprintf("Go%s", reflect.TypeOf(ele).String()[6:])
diff --git a/genJava.go b/genJava.go
index 2cbc6ee..e7da5a4 100644
--- a/genJava.go
+++ b/genJava.go
@@ -36,7 +36,7 @@ func (gen *CodeGenerator) GenJava() error {
 	defer fieldNameMutex.Unlock()
 	fieldNameCount = make(map[string]int)
 	for _, ele := range gen.ProtoTree {
-		if ele == nil {
+		if ele == nil || gen.sharesDeclaration(ele) {
 			continue
 		}
 		funcName := fmt.Sprintf("Java%s", reflect.TypeOf(ele).String()[6:])
diff --git a/genRust.go b/genRust.go
index 332da02..7d63d61 100644
--- a/genRust.go
+++ b/genRust.go
@@ -100,7 +100,7 @@ func (gen *CodeGenerator) GenRust() error {
 	defer fieldNameMutex.Unlock()
 	fieldNameCount = make(map[string]int)
 	for _, ele := range gen.ProtoTree {
-		if ele == nil {
+		if ele == nil || gen.sharesDeclaration(ele) {
 			continue
 		}
 		funcName := fmt.Sprintf("Rust%s", reflect.TypeOf(ele).String()[6:])
diff --git a/genTypeScript.go b/genTypeScript.go
index d9d803b..cfbaa8b 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -33,7 +33,7 @@ func (gen *CodeGenerator) GenTypeScript() error {
 	defer fieldNameMutex.Unlock()
 	fieldNameCount = make(map[string]int)
 	for _, ele := range gen.ProtoTree {
-		if ele == nil {
+		if ele == nil || gen.sharesDeclaration(ele) {
 			continue
 		}
 		funcName := fmt.Sprintf("TypeScript%s", reflect.TypeOf(ele).String()[6:])
diff --git a/utils.go b/utils.go
index f024235..50f0527 100644
--- a/utils.go
+++ b/utils.go
@@ -173,11 +173,11 @@ func getDirectBase(name string, XSDSchema []interface{}) string {
 				return v.Base
 			}
 		case *Attribute:
-			if v.Name == name {
+			if v.Name == name && trimNSPrefix(v.Type) != name {
 				return v.Type
 			}
 		case *Element:
-			if v.Name == name {
+			if v.Name == name && trimNSPrefix(v.Type) != name {
 				return v.Type
 			}
 		}
@@ -185,6 +185,46 @@ func getDirectBase(name string, XSDSchema []interface{}) string {
 	return name
 }
 
+// sharesDeclaration reports whether a component is an element or attribute
+// that is called as its type. Both are represented by the one declaration of
+// this name, that of the type.
+func (gen *CodeGenerator) sharesDeclaration(component interface{}) bool {
+	var name, valueType string
+	switch v := component.(type) {
+	case *Element:
+		name, valueType = v.Name, v.Type
+	case *Attribute:
+		name, valueType = v.Name, v.Type
+	default:
+		return false
+	}
+	valueType = getBasefromSimpleType(trimNSPrefix(valueType), gen.ProtoTree)
+	for _, ele := range gen.ProtoTree {
+		switch v := ele.(type) {
+		case *SimpleType:
+			if v.Name == name && (v.List || v.Union) {
+				return valueType == name
+			}
+			if v.Name == name {
+				return valueType == getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)
+			}
+		case *ComplexType:
+			if v.Name == name {
+				return valueType == name
+			}
+		}
+	}
+	// The type may be defined in another schema.
+	for _, buildInTypes := range BuildInTypes {
+		for _, buildInType := range buildInTypes {
+			if buildInType == name {
+				return false
+			}
+		}
+	}
+	return valueType == name
+}
+
 func getNSPrefix(str string) (ns string) {
 	split := strings.Split(str, ":")
 	if len(split) == 2 {
-- 
2.43.0


From fcdd457454d62ac0243fd7236c844d230bbd1887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:31 +0000
Subject: [PATCH 51/58] fix: Rust structs had two fields of one name for an
 attribute and an element called alike

---
 genRust.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/genRust.go b/genRust.go
index 7d63d61..9fe5d6b 100644
--- a/genRust.go
+++ b/genRust.go
@@ -12,6 +12,7 @@ import (
 	"fmt"
 	"os"
 	"reflect"
+	"regexp"
 	"strings"
 )
 
@@ -38,7 +39,8 @@ var (
 		"char":        true,
 		"String":      true,
 	}
-	rustKeywords = map[string]bool{
+	matchRustField = regexp.MustCompile(`(?m)^\tpub ([^:]+): `)
+	rustKeywords   = map[string]bool{
 		"as":       true,
 		"break":    true,
 		"const":    true,
@@ -174,6 +176,24 @@ func genRustFieldType(name string) string {
 	return "char"
 }
 
+// uniqueRustFields numbers the fields of a struct that are called as one
+// before them, as those of an attribute and an element of the same name are.
+func uniqueRustFields(content string) string {
+	names, seen := make(map[string]bool), make(map[string]bool)
+	for _, field := range matchRustField.FindAllStringSubmatch(content, -1) {
+		names[field[1]] = true
+	}
+	return matchRustField.ReplaceAllStringFunc(content, func(field string) string {
+		name := matchRustField.FindStringSubmatch(field)[1]
+		unique := name
+		for count := 2; seen[name] && names[unique]; count++ {
+			unique = fmt.Sprintf("%s%d", name, count)
+		}
+		names[unique], seen[name] = true, true
+		return fmt.Sprintf("\tpub %s: ", unique)
+	})
+}
+
 // RustSimpleType generates code for simple type XML schema in Rust language
 // syntax.
 func (gen *CodeGenerator) RustSimpleType(v *SimpleType) {
@@ -200,7 +220,7 @@ func (gen *CodeGenerator) RustSimpleType(v *SimpleType) {
 				memberType = getBasefromSimpleType(memberType, gen.ProtoTree)
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", memberName, genRustFieldName(memberName), genRustFieldType(memberType))
 			}
-			gen.StructAST[v.Name] = content
+			gen.StructAST[v.Name] = uniqueRustFields(content)
 			fieldName := genRustStructName(v.Name, true)
 			gen.Field += fmt.Sprintf("\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
 		}
@@ -265,7 +285,7 @@ func (gen *CodeGenerator) RustComplexType(v *ComplexType) {
 				content += fmt.Sprintf("\t#[serde(flatten)]\n\tpub %s: %s,\n", fieldName, fieldType)
 			}
 		}
-		gen.StructAST[v.Name] = content
+		gen.StructAST[v.Name] = uniqueRustFields(content)
 		fieldName := genRustStructName(v.Name, true)
 		gen.Field += fmt.Sprintf("\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
 	}
@@ -298,7 +318,7 @@ func (gen *CodeGenerator) RustGroup(v *Group) {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", group.Name, fieldName, fieldType)
 			}
 		}
-		gen.StructAST[v.Name] = content
+		gen.StructAST[v.Name] = uniqueRustFields(content)
 		fieldName := genRustStructName(v.Name, true)
 		gen.Field += fmt.Sprintf("\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
 	}
@@ -320,7 +340,7 @@ func (gen *CodeGenerator) RustAttributeGroup(v *AttributeGroup) {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", attribute.Name, genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
 			}
 		}
-		gen.StructAST[v.Name] = content
+		gen.StructAST[v.Name] = uniqueRustFields(content)
 		fieldName := genRustStructName(v.Name, true)
 		gen.Field += fmt.Sprintf("\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
 	}
-- 
2.43.0


From 1a8446f3520c12b871b499fc1f5c1f8818011e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:04 +0000
Subject: [PATCH 52/58] fix: Java code with a QName lacked the import

---
 genJava.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/genJava.go b/genJava.go
index e7da5a4..32e7c19 100644
--- a/genJava.go
+++ b/genJava.go
@@ -12,6 +12,7 @@ import (
 	"fmt"
 	"os"
 	"reflect"
+	"regexp"
 	"strings"
 )
 
@@ -29,6 +30,8 @@ var javaBuildInType = map[string]bool{
 	"Long":         true,
 }
 
+var matchJavaQName = regexp.MustCompile(`(?m)^\tprotected (List<)*QName>* `)
+
 // GenJava generate Java programming language source code for XML schema
 // definition files.
 func (gen *CodeGenerator) GenJava() error {
@@ -60,6 +63,9 @@ import javax.xml.bind.annotation.XmlElement;
 import javax.xml.bind.annotation.XmlSchemaType;
 import javax.xml.bind.annotation.XmlType;
 import javax.xml.bind.annotation.XmlValue;`
+	if matchJavaQName.MatchString(gen.Field) {
+		importPackage += "\nimport javax.xml.namespace.QName;"
+	}
 
 	_, err = f.Write([]byte(fmt.Sprintf("%s\n\npackage %s;\n\n%s\n%s", copyright, packageName, importPackage, gen.Field)))
 	return err
-- 
2.43.0


From d601cbb0afdfdc86ac0f9edfdbb4bf14dcf3ce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:07 +0000
Subject: [PATCH 53/58] fix: TypeScript classes extended list types, which are
 no classes

---
 genTypeScript.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/genTypeScript.go b/genTypeScript.go
index cfbaa8b..0e86d92 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -194,7 +194,8 @@ func (gen *CodeGenerator) TypeScriptComplexType(v *ComplexType) {
 		}
 
 		base := getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)
-		if len(base) > 0 && isBuiltInTypeScriptType(base) {
+		isClass := !isBuiltInTypeScriptType(base) && !gen.isList(base)
+		if len(base) > 0 && !isClass {
 			fieldType := genTypeScriptFieldType(base, false)
 			content += fmt.Sprintf("\tValue: %s;\n", fieldType)
 		}
@@ -202,7 +203,7 @@ func (gen *CodeGenerator) TypeScriptComplexType(v *ComplexType) {
 		gen.StructAST[v.Name] = content
 		fieldName := genTypeScriptFieldName(v.Name, true)
 		typeExtension := ""
-		if len(base) > 0 && !isBuiltInTypeScriptType(base) {
+		if len(base) > 0 && isClass {
 			fieldType := genTypeScriptFieldType(base, false)
 			content += fmt.Sprintf("\tValue: %s;\n", fieldType)
 			typeExtension = fmt.Sprintf(" extends %s ", fieldType)
@@ -212,6 +213,17 @@ func (gen *CodeGenerator) TypeScriptComplexType(v *ComplexType) {
 	}
 }
 
+// isList reports whether a type is a list, which is no class that could be
+// extended.
+func (gen *CodeGenerator) isList(typeName string) bool {
+	for _, ele := range gen.ProtoTree {
+		if v, ok := ele.(*SimpleType); ok && v.Name == typeName {
+			return v.List
+		}
+	}
+	return false
+}
+
 func isBuiltInTypeScriptType(typeName string) bool {
 	_, builtIn := typeScriptBuildInType[typeName]
 	return builtIn || typeName == "any" || strings.HasPrefix(typeName, "Array<")
-- 
2.43.0


From 23566be2c2a80dc1baba051d064d9b8e2d006566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:09 +0000
Subject: [PATCH 54/58] fix: TypeScript enumerations had numbers that aren't
 any in TypeScript

---
 genTypeScript.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/genTypeScript.go b/genTypeScript.go
index 0e86d92..a944c6a 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -89,6 +89,7 @@ func genTypeScriptFieldType(name string, plural bool) (fieldType string) {
 
 var (
 	matchTypeScriptName   = regexp.MustCompile("^[A-Za-z_$][A-Za-z0-9_$]*$")
+	matchTypeScriptZeros  = regexp.MustCompile("^([-+]?)0+([0-9])")
 	matchTypeScriptNumber = regexp.MustCompile("^[-+.0-9]|^$|^Infinity$|^NaN$")
 )
 
@@ -104,6 +105,19 @@ func genTypeScriptEnumName(enum string) string {
 	return quoteTypeScript(enum)
 }
 
+// genTypeScriptNumber generates a number as it is written in TypeScript, where
+// 007 is none.
+func genTypeScriptNumber(enum string) string {
+	enum = strings.TrimSpace(enum)
+	switch enum {
+	case "INF", "+INF":
+		return "Infinity"
+	case "-INF":
+		return "-Infinity"
+	}
+	return matchTypeScriptZeros.ReplaceAllString(enum, "$1$2")
+}
+
 func quoteTypeScript(value string) string {
 	return "'" + strings.NewReplacer("\\", "\\\\", "'", "\\'", "\n", "\\n", "\r", "\\r").Replace(value) + "'"
 }
@@ -149,7 +163,7 @@ func (gen *CodeGenerator) TypeScriptSimpleType(v *SimpleType) {
 			case "string":
 				content += fmt.Sprintf("\t%s = %s,\n", genTypeScriptEnumName(enum), quoteTypeScript(enum))
 			case "number":
-				content += fmt.Sprintf("\t%s = %s,\n", genTypeScriptEnumName("Enum"+enum), enum)
+				content += fmt.Sprintf("\t%s = %s,\n", genTypeScriptEnumName("Enum"+enum), genTypeScriptNumber(enum))
 			default:
 				content += fmt.Sprintf("\t%s = %s,\n", genTypeScriptEnumName("Enum"+enum), quoteTypeScript(enum))
 			}
-- 
2.43.0


From d4d58211fdfc0555d1a6cf9ff00df5a0355c1c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:18 +0000
Subject: [PATCH 55/58] fix: white space around names and numbers in attributes
 was taken for a part of them

---
 parser.go |  1 +
 utils.go  | 11 +++++++++++
 2 files changed, 12 insertions(+)

diff --git a/parser.go b/parser.go
index a7b4093..fe910be 100644
--- a/parser.go
+++ b/parser.go
@@ -136,6 +136,7 @@ func (opt *Options) Parse() (err error) {
 				continue
 			}
 			opt.openEle.Push(element.Name.Local)
+			trimAttributes(element.Attr)
 			opt.InElement = element.Name.Local
 			funcName := fmt.Sprintf("On%s", MakeFirstUpperCase(opt.InElement))
 			if err = callFuncByName(opt, funcName, []reflect.Value{reflect.ValueOf(element), reflect.ValueOf(opt.ProtoTree)}); err != nil {
diff --git a/utils.go b/utils.go
index 50f0527..78bdf8b 100644
--- a/utils.go
+++ b/utils.go
@@ -9,6 +9,7 @@
 package xgen
 
 import (
+	"encoding/xml"
 	"fmt"
 	"io/ioutil"
 	"net/http"
@@ -388,3 +389,13 @@ func toSortedPairs(toSort map[string]string) kvPairList {
 	sort.Sort(pl)
 	return pl
 }
+
+// trimAttributes removes the white space around names and numbers, which isn't
+// part of them. That of enumeration values may be.
+func trimAttributes(attrs []xml.Attr) {
+	for i, attr := range attrs {
+		if attr.Name.Local != "value" {
+			attrs[i].Value = strings.Trim(attr.Value, " \t\r\n")
+		}
+	}
+}
-- 
2.43.0


From fb6c5635fbd5f208b4196f63384a7c884dc9746b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:27 +0000
Subject: [PATCH 56/58] fix: a schema with a larger maxOccurs than an int was
 refused

---
 utils.go      | 11 +++++++++++
 xmlChoice.go  |  7 ++-----
 xmlElement.go |  7 ++-----
 xmlGroup.go   |  7 ++-----
 4 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/utils.go b/utils.go
index 78bdf8b..e9045c2 100644
--- a/utils.go
+++ b/utils.go
@@ -19,6 +19,7 @@ import (
 	"reflect"
 	"regexp"
 	"sort"
+	"strconv"
 	"strings"
 	"sync"
 	"unicode"
@@ -399,3 +400,13 @@ func trimAttributes(attrs []xml.Attr) {
 		}
 	}
 }
+
+// parseOccurs parses the value of maxOccurs. Any number is allowed: the largest
+// one stands for those that are larger.
+func parseOccurs(value string) (occurs int, err error) {
+	occurs, err = strconv.Atoi(value)
+	if numError, ok := err.(*strconv.NumError); ok && numError.Err == strconv.ErrRange {
+		err = nil
+	}
+	return
+}
diff --git a/xmlChoice.go b/xmlChoice.go
index 1fe1aba..41d063c 100644
--- a/xmlChoice.go
+++ b/xmlChoice.go
@@ -8,10 +8,7 @@
 
 package xgen
 
-import (
-	"encoding/xml"
-	"strconv"
-)
+import "encoding/xml"
 
 // OnChoice handles parsing event on the choice start elements. The
 // choice element defines that one and only one of the contained element can be present within
@@ -21,7 +18,7 @@ func (opt *Options) OnChoice(ele xml.StartElement, protoTree []interface{}) (err
 	for _, attr := range ele.Attr {
 		if attr.Name.Local == "maxOccurs" {
 			var maxOccurs int
-			if maxOccurs, err = strconv.Atoi(attr.Value); attr.Value != "unbounded" && err != nil {
+			if maxOccurs, err = parseOccurs(attr.Value); attr.Value != "unbounded" && err != nil {
 				return
 			}
 			if attr.Value == "unbounded" || maxOccurs > 1 {
diff --git a/xmlElement.go b/xmlElement.go
index 2b64036..12e597a 100644
--- a/xmlElement.go
+++ b/xmlElement.go
@@ -8,10 +8,7 @@
 
 package xgen
 
-import (
-	"encoding/xml"
-	"strconv"
-)
+import "encoding/xml"
 
 // OnElement handles parsing event on the element start elements.
 func (opt *Options) OnElement(ele xml.StartElement, protoTree []interface{}) (err error) {
@@ -36,7 +33,7 @@ func (opt *Options) OnElement(ele xml.StartElement, protoTree []interface{}) (er
 		}
 		if attr.Name.Local == "maxOccurs" {
 			var maxOccurs int
-			if maxOccurs, err = strconv.Atoi(attr.Value); attr.Value != "unbounded" && err != nil {
+			if maxOccurs, err = parseOccurs(attr.Value); attr.Value != "unbounded" && err != nil {
 				return
 			}
 			if attr.Value == "unbounded" || maxOccurs > 1 {
diff --git a/xmlGroup.go b/xmlGroup.go
index 6df78ae..b8dde22 100644
--- a/xmlGroup.go
+++ b/xmlGroup.go
@@ -8,10 +8,7 @@
 
 package xgen
 
-import (
-	"encoding/xml"
-	"strconv"
-)
+import "encoding/xml"
 
 // OnGroup handles parsing event on the group start elements. The group
 // element is used to define a group of elements to be used in complex type
@@ -31,7 +28,7 @@ func (opt *Options) OnGroup(ele xml.StartElement, protoTree []interface{}) (err
 		}
 		if attr.Name.Local == "maxOccurs" {
 			var maxOccurs int
-			if maxOccurs, err = strconv.Atoi(attr.Value); attr.Value != "unbounded" && err != nil {
+			if maxOccurs, err = parseOccurs(attr.Value); attr.Value != "unbounded" && err != nil {
 				return
 			}
 			group.Plural, err = attr.Value == "unbounded" || maxOccurs > 1, nil
-- 
2.43.0


From c348bbc187433bc82c07396c81ad9a82b54fd7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:16 +0000
Subject: [PATCH 57/58] fix: types defined inside a union changed the member or
 type it belongs to

---
 genTypeScript.go | 10 +++++-----
 parser.go        |  7 +++++++
 xmlSimpleType.go |  6 ++++++
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/genTypeScript.go b/genTypeScript.go
index a944c6a..054f54f 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -208,7 +208,7 @@ func (gen *CodeGenerator) TypeScriptComplexType(v *ComplexType) {
 		}
 
 		base := getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)
-		isClass := !isBuiltInTypeScriptType(base) && !gen.isList(base)
+		isClass := !isBuiltInTypeScriptType(base) && !gen.isAlias(base)
 		if len(base) > 0 && !isClass {
 			fieldType := genTypeScriptFieldType(base, false)
 			content += fmt.Sprintf("\tValue: %s;\n", fieldType)
@@ -227,12 +227,12 @@ func (gen *CodeGenerator) TypeScriptComplexType(v *ComplexType) {
 	}
 }
 
-// isList reports whether a type is a list, which is no class that could be
-// extended.
-func (gen *CodeGenerator) isList(typeName string) bool {
+// isAlias reports whether a type is a list or a union without named members,
+// which are no classes that could be extended.
+func (gen *CodeGenerator) isAlias(typeName string) bool {
 	for _, ele := range gen.ProtoTree {
 		if v, ok := ele.(*SimpleType); ok && v.Name == typeName {
-			return v.List
+			return v.List || v.Union && len(v.MemberTypes) == 0
 		}
 	}
 	return false
diff --git a/parser.go b/parser.go
index fe910be..6323f37 100644
--- a/parser.go
+++ b/parser.go
@@ -136,6 +136,10 @@ func (opt *Options) Parse() (err error) {
 				continue
 			}
 			opt.openEle.Push(element.Name.Local)
+			if opt.InUnion && element.Name.Local != "union" {
+				// A member type that's defined in place isn't kept.
+				continue
+			}
 			trimAttributes(element.Attr)
 			opt.InElement = element.Name.Local
 			funcName := fmt.Sprintf("On%s", MakeFirstUpperCase(opt.InElement))
@@ -151,6 +155,9 @@ func (opt *Options) Parse() (err error) {
 				continue
 			}
 			opt.openEle.Pop()
+			if opt.InUnion && element.Name.Local != "union" {
+				continue
+			}
 			funcName := fmt.Sprintf("End%s", MakeFirstUpperCase(element.Name.Local))
 			if err = callFuncByName(opt, funcName, []reflect.Value{reflect.ValueOf(element), reflect.ValueOf(opt.ProtoTree)}); err != nil {
 				return
diff --git a/xmlSimpleType.go b/xmlSimpleType.go
index 7ba4772..3238365 100644
--- a/xmlSimpleType.go
+++ b/xmlSimpleType.go
@@ -36,6 +36,12 @@ func (opt *Options) EndSimpleType(ele xml.EndElement, protoTree []interface{}) (
 	}
 	simpleType := opt.SimpleType.Pop().(*SimpleType)
 	opt.CurrentEle = ""
+	if simpleType.Union && len(simpleType.MemberTypes) == 0 {
+		// All of the member types are defined in place: it may have any value.
+		if simpleType.Base, err = opt.GetValueType("anyType", protoTree); err != nil {
+			return
+		}
+	}
 	// An inline simple type is the type of the attribute or the element that
 	// contains it.
 	if opt.Attribute.Len() > 0 {
-- 
2.43.0


From 5aa36158a3ca78cde0c7add91810db61eae4ec20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:49 +0000
Subject: [PATCH 58/58] fix: Go fields of names that begin with an underscore
 or a letter without case were not exported

---
 genGo.go   | 18 ++++++++++++++++--
 genJava.go |  7 ++++++-
 genRust.go |  7 +++++--
 3 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/genGo.go b/genGo.go
index 2984dd6..738287f 100644
--- a/genGo.go
+++ b/genGo.go
@@ -11,6 +11,7 @@ package xgen
 import (
 	"fmt"
 	"go/format"
+	"go/token"
 	"os"
 	"reflect"
 	"strings"
@@ -108,7 +109,7 @@ func genGoFieldName(name string, unique bool) (fieldName string) {
 		tmp += MakeFirstUpperCase(str)
 	}
 	fieldName = tmp
-	fieldName = strings.Replace(strings.Replace(fieldName, "-", "", -1), "_", "", -1)
+	fieldName = exportedGoName(fieldName)
 	if unique {
 		fieldNameCount[fieldName]++
 		if count := fieldNameCount[fieldName]; count != 1 {
@@ -118,6 +119,19 @@ func genGoFieldName(name string, unique bool) (fieldName string) {
 	return
 }
 
+// exportedGoName returns the exported identifier for a name, which may begin
+// with an underscore or with a letter that has no upper case.
+func exportedGoName(name string) string {
+	if name == "" {
+		return ""
+	}
+	name = MakeFirstUpperCase(strings.NewReplacer("-", "", "_", "").Replace(name))
+	if !token.IsExported(name) {
+		name = "X" + name
+	}
+	return name
+}
+
 func genGoFieldType(name string) string {
 	if _, ok := goBuildinType[name]; ok {
 		return name
@@ -126,7 +140,7 @@ func genGoFieldType(name string) string {
 	for _, str := range strings.Split(name, ".") {
 		fieldType += MakeFirstUpperCase(str)
 	}
-	fieldType = strings.Replace(MakeFirstUpperCase(strings.Replace(fieldType, "-", "", -1)), "_", "", -1)
+	fieldType = exportedGoName(fieldType)
 	if fieldType != "" {
 		return "*" + fieldType
 	}
diff --git a/genJava.go b/genJava.go
index 32e7c19..98bc95c 100644
--- a/genJava.go
+++ b/genJava.go
@@ -80,7 +80,9 @@ func genJavaFieldName(name string, unique bool) (fieldName string) {
 		tmp += MakeFirstUpperCase(str)
 	}
 	fieldName = tmp
-	fieldName = strings.Replace(fieldName, "-", "", -1)
+	if fieldName = strings.Replace(fieldName, "-", "", -1); fieldName == "_" { // reserved
+		fieldName = "__"
+	}
 	if unique {
 		fieldNameCount[fieldName]++
 		if count := fieldNameCount[fieldName]; count != 1 {
@@ -99,6 +101,9 @@ func genJavaFieldType(name string) string {
 		fieldType += MakeFirstUpperCase(str)
 	}
 	fieldType = MakeFirstUpperCase(strings.Replace(fieldType, "-", "", -1))
+	if fieldType == "_" { // reserved
+		return "__"
+	}
 	if fieldType != "" {
 		return fieldType
 	}
diff --git a/genRust.go b/genRust.go
index 9fe5d6b..e9bf0e2 100644
--- a/genRust.go
+++ b/genRust.go
@@ -39,6 +39,7 @@ var (
 		"char":        true,
 		"String":      true,
 	}
+	matchRustName  = regexp.MustCompile(`^\pL`)
 	matchRustField = regexp.MustCompile(`(?m)^\tpub ([^:]+): `)
 	rustKeywords   = map[string]bool{
 		"as":       true,
@@ -135,7 +136,7 @@ func genRustFieldName(name string) (fieldName string) {
 	}
 	fieldName = tmp
 	fieldName = ToSnakeCase(strings.Replace(fieldName, "-", "", -1))
-	if _, ok := rustKeywords[fieldName]; ok {
+	if _, ok := rustKeywords[fieldName]; ok || fieldName == "_" {
 		fieldName += "_attr"
 	}
 	return
@@ -151,7 +152,9 @@ func genRustStructName(name string, unique bool) (structName string) {
 		tmp += MakeFirstUpperCase(str)
 	}
 	structName = tmp
-	structName = strings.NewReplacer("-", "", "_", "").Replace(structName)
+	if structName = strings.NewReplacer("-", "", "_", "").Replace(structName); name != "" && !matchRustName.MatchString(structName) {
+		structName = "X" + structName
+	}
 	if _, ok := rustKeywords[structName]; ok {
 		structName += "_"
 	}
-- 
2.43.0

