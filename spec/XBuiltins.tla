------------------------------ MODULE XBuiltins ------------------------------
(***************************************************************************)
(* The published correspondence between the built-in types of XML Schema  *)
(* and the types of the target languages.  A type of a language is a base *)
(* type and the depth of the collection around it, "List<List<X>>" being  *)
(* ("X", 2) for example.                                                   *)
(***************************************************************************)
EXTENDS Naturals, TLC

Ty(b, d) == [b |-> b, d |-> d]
Row(g, gd, t, td, c, cd, j, jd, r, rd) ==
  [Go |-> Ty(g, gd), TypeScript |-> Ty(t, td), C |-> Ty(c, cd),
   Java |-> Ty(j, jd), Rust |-> Ty(r, rd)]

Builtin ==
  ("anyType" :> Row("string", 0, "string", 0, "char", 0, "String", 0, "String", 0)) @@
  ("ENTITIES" :> Row("string", 1, "string", 1, "char", 1, "String", 1, "String", 1)) @@
  ("ENTITY" :> Row("string", 0, "string", 0, "char", 0, "String", 0, "String", 0)) @@
  ("ID" :> Row("string", 0, "string", 0, "char", 0, "String", 0, "String", 0)) @@
  ("IDREF" :> Row("string", 0, "string", 0, "char", 0, "String", 0, "String", 0)) @@
  ("IDREFS" :> Row("string", 1, "string", 1, "char", 1, "String", 1, "String", 1)) @@
  ("NCName" :> Row("string", 0, "string", 0, "char", 0, "String", 0, "String", 0)) @@
  ("NMTOKEN" :> Row("string", 0, "string", 0, "char", 0, "String", 0, "String", 0)) @@
  ("NMTOKENS" :> Row("string", 1, "string", 1, "char", 1, "String", 1, "String", 1)) @@
  ("NOTATION" :> Row("string", 1, "string", 1, "char", 1, "String", 1, "String", 1)) @@
  ("Name" :> Row("string", 0, "string", 0, "char", 0, "String", 0, "String", 0)) @@
  ("QName" :> Row("xml.Name", 0, "any", 0, "char", 0, "String", 0, "String", 0)) @@
  ("anyURI" :> Row("string", 0, "string", 0, "char", 0, "QName", 0, "String", 0)) @@
  ("base64Binary" :> Row("string", 0, "Uint8Array", 0, "char", 1, "Byte", 1, "String", 0)) @@
  ("boolean" :> Row("bool", 0, "boolean", 0, "bool", 0, "Boolean", 0, "bool", 0)) @@
  ("byte" :> Row("int8", 0, "any", 0, "char", 1, "Byte", 0, "u8", 0)) @@
  ("date" :> Row("string", 0, "string", 0, "char", 0, "String", 0, "u8", 0)) @@
  ("dateTime" :> Row("string", 0, "string", 0, "char", 0, "String", 0, "u8", 0)) @@
  ("decimal" :> Row("float64", 0, "number", 0, "float", 0, "Float", 0, "f64", 0)) @@
  ("double" :> Row("float64", 0, "number", 0, "float", 0, "Float", 0, "f64", 0)) @@
  ("duration" :> Row("string", 0, "string", 0, "char", 0, "String", 0, "String", 0)) @@
  ("float" :> Row("float32", 0, "number", 0, "float", 0, "Float", 0, "f64", 0)) @@
  ("gDay" :> Row("string", 0, "string", 0, "char", 0, "String", 0, "String", 0)) @@
  ("gMonth" :> Row("string", 0, "string", 0, "char", 0, "String", 0, "String", 0)) @@
  ("gMonthDay" :> Row("string", 0, "string", 0, "char", 0, "String", 0, "String", 0)) @@
  ("gYear" :> Row("string", 0, "string", 0, "char", 0, "String", 0, "String", 0)) @@
  ("gYearMonth" :> Row("string", 0, "string", 0, "char", 0, "String", 0, "String", 0)) @@
  ("hexBinary" :> Row("string", 0, "Uint8Array", 0, "char", 1, "Byte", 1, "String", 0)) @@
  ("int" :> Row("int", 0, "number", 0, "int", 0, "Integer", 0, "i32", 0)) @@
  ("integer" :> Row("int", 0, "number", 0, "int", 0, "Integer", 0, "i32", 0)) @@
  ("language" :> Row("string", 0, "string", 0, "char", 0, "String", 0, "String", 0)) @@
  ("long" :> Row("int64", 0, "number", 0, "int", 0, "Long", 0, "i64", 0)) @@
  ("negativeInteger" :> Row("int", 0, "number", 0, "int", 0, "Integer", 0, "i32", 0)) @@
  ("nonNegativeInteger" :> Row("int", 0, "number", 0, "int", 0, "Integer", 0, "u32", 0)) @@
  ("normalizedString" :> Row("string", 0, "string", 0, "char", 0, "String", 0, "String", 0)) @@
  ("nonPositiveInteger" :> Row("int", 0, "number", 0, "int", 0, "Integer", 0, "i32", 0)) @@
  ("positiveInteger" :> Row("int", 0, "number", 0, "int", 0, "Integer", 0, "u32", 0)) @@
  ("short" :> Row("int16", 0, "number", 0, "int", 0, "Integer", 0, "i16", 0)) @@
  ("string" :> Row("string", 0, "string", 0, "char", 0, "String", 0, "String", 0)) @@
  ("time" :> Row("time.Time", 0, "string", 0, "char", 0, "String", 0, "String", 0)) @@
  ("token" :> Row("string", 0, "string", 0, "char", 0, "String", 0, "String", 0)) @@
  ("unsignedByte" :> Row("uint8", 0, "any", 0, "char", 0, "Byte", 0, "u8", 0)) @@
  ("unsignedInt" :> Row("uint32", 0, "number", 0, "unsigned int", 0, "Integer", 0, "u32", 0)) @@
  ("unsignedLong" :> Row("uint64", 0, "number", 0, "unsigned int", 0, "Long", 0, "u64", 0)) @@
  ("unsignedShort" :> Row("uint16", 0, "number", 0, "unsigned int", 0, "Short", 0, "u16", 0)) @@
  ("xml:lang" :> Row("string", 0, "string", 0, "char", 0, "String", 0, "String", 0)) @@
  ("xml:space" :> Row("string", 0, "string", 0, "char", 0, "String", 0, "String", 0)) @@
  ("xml:base" :> Row("string", 0, "string", 0, "char", 0, "String", 0, "String", 0)) @@
  ("xml:id" :> Row("string", 0, "string", 0, "char", 0, "String", 0, "String", 0))

BuiltinNames == DOMAIN Builtin
IsBuiltin(n) == n \in BuiltinNames
=============================================================================
