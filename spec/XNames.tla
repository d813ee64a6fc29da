------------------------------- MODULE XNames -------------------------------
(***************************************************************************)
(* Identifiers.  XML names are strings; the rules by which xgen turns them *)
(* into identifiers of the target languages are written down character by *)
(* character, independently of the code.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Langs == {"Go", "TypeScript", "C", "Java", "Rust"}

UpperOf ==
  [a |-> "A", b |-> "B", c |-> "C", d |-> "D", e |-> "E", f |-> "F", g |-> "G",
   h |-> "H", i |-> "I", j |-> "J", k |-> "K", l |-> "L", m |-> "M", n |-> "N",
   o |-> "O", p |-> "P", q |-> "Q", r |-> "R", s |-> "S", t |-> "T", u |-> "U",
   v |-> "V", w |-> "W", x |-> "X", y |-> "Y", z |-> "Z"]
LowerOf ==
  [A |-> "a", B |-> "b", C |-> "c", D |-> "d", E |-> "e", F |-> "f", G |-> "g",
   H |-> "h", I |-> "i", J |-> "j", K |-> "k", L |-> "l", M |-> "m", N |-> "n",
   O |-> "o", P |-> "p", Q |-> "q", R |-> "r", S |-> "s", T |-> "t", U |-> "u",
   V |-> "v", W |-> "w", X |-> "x", Y |-> "y", Z |-> "z"]
Lowers == DOMAIN UpperOf
Uppers == DOMAIN LowerOf
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}

Ch(s, i) == SubSeq(s, i, i)
(* Letters beyond ASCII; some have no case.                                  *)
MoreUpper == ("é" :> "É") @@ ("ü" :> "Ü") @@ ("ä" :> "Ä") @@ ("ø" :> "Ø") @@ ("ж" :> "Ж")
MoreLower == ("É" :> "é") @@ ("Ü" :> "ü") @@ ("Ä" :> "ä") @@ ("Ø" :> "ø") @@ ("Ж" :> "ж")
Up(c)    == IF c \in Lowers THEN UpperOf[c] ELSE IF c \in DOMAIN MoreUpper THEN MoreUpper[c] ELSE c
Low(c)   == IF c \in Uppers THEN LowerOf[c] ELSE IF c \in DOMAIN MoreLower THEN MoreLower[c] ELSE c
Capital(c) == c \in Uppers \cup DOMAIN MoreLower

(* The words of a name are separated by ':' and '.'; each begins with a      *)
(* capital letter, the separators and the characters in drop are left out.   *)
RECURSIVE Mangle_(_, _, _, _)
Mangle_(s, i, cap, drop) ==
  IF i > Len(s) THEN ""
  ELSE LET c == Ch(s, i) IN
       IF c \in {":", "."} THEN Mangle_(s, i + 1, TRUE, drop)
       ELSE (IF c \in drop THEN "" ELSE IF cap THEN Up(c) ELSE c)
            \o Mangle_(s, i + 1, FALSE, drop)
Mangle(s, drop) == Mangle_(s, 1, TRUE, drop)

(* snake_case: an underscore before a capital that starts a word.           *)
StartsWord(s, i) ==
  /\ i > 1
  /\ Ch(s, i) \in Uppers
  /\ \/ Ch(s, i - 1) \in (Lowers \cup Digits)
     \/ /\ Ch(s, i - 1) \in Uppers
        /\ i < Len(s)
        /\ Ch(s, i + 1) \in Lowers
RECURSIVE Snake_(_, _)
Snake_(s, i) ==
  IF i > Len(s) THEN ""
  ELSE (IF StartsWord(s, i) THEN "_" ELSE "") \o Low(Ch(s, i)) \o Snake_(s, i + 1)
Snake(s) == Snake_(s, 1)

RustKeywords ==
  {"as", "break", "const", "continue", "crate", "dyn", "else", "enum", "extern",
   "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod",
   "move", "mut", "pub", "ref", "return", "self", "static", "struct", "super",
   "trait", "true", "type", "unsafe", "use", "where", "while", "abstract",
   "async", "await", "become", "box", "do", "final", "macro", "override",
   "priv", "try", "typeof", "unsized", "virtual", "yield", "Self"}

(* What is left of a name in Go begins with a capital letter, in Rust with   *)
(* some letter.                                                              *)
Exported(s) == LET t == IF s = "" THEN s ELSE Up(Ch(s, 1)) \o SubSeq(s, 2, Len(s))
               IN IF t # "" /\ Capital(Ch(t, 1)) THEN t ELSE "X" \o t
Lettered(s) == IF s = "" \/ Ch(s, 1) \in Digits THEN "X" \o s ELSE s

(* Identifier of a declaration, before it is made unique, and of the         *)
(* references to it.                                                         *)
TypeId(l, n) ==
  LET id == Mangle(n, IF l \in {"Go", "Rust"} THEN {"-", "_"} ELSE {"-"})
  IN CASE l = "Go" -> Exported(id)
       [] l = "Rust" -> IF id = "Self" THEN "Self_" ELSE Lettered(id)
       [] l = "Java" /\ id = "_" -> "__"
       [] OTHER -> id

(* Identifier of a member.                                                   *)
FieldId(l, n) ==
  IF l = "Rust"
  THEN LET s == Snake(Mangle(n, {"-"})) IN IF s \in RustKeywords \cup {"_"} THEN s \o "_attr" ELSE s
  ELSE TypeId(l, n)

(* Attributes are told apart from elements of the same name by a suffix,     *)
(* except in Rust.                                                           *)
AttrId(l, n) == IF l = "Rust" THEN FieldId(l, n) ELSE FieldId(l, n) \o "Attr"

(* Identifiers of the declarations of a file: the k-th name mapped to an     *)
(* identifier gets number k, unless that is taken.                           *)
RECURSIVE FreeNumber(_, _, _)
FreeNumber(id, k, used) ==
  IF (id \o ToString(k)) \in used THEN FreeNumber(id, k + 1, used) ELSE k

RECURSIVE Unique_(_, _, _, _)
(* cnt: how many times an identifier was requested or numbers were tried.    *)
Unique_(ids, i, cnt, acc) ==
  IF i > Len(ids) THEN acc
  ELSE LET id == ids[i]
           c  == (IF id \in DOMAIN cnt THEN cnt[id] ELSE 0) + 1
       IN IF c = 1
          THEN Unique_(ids, i + 1, (id :> 1) @@ cnt, Append(acc, id))
          ELSE LET k == FreeNumber(id, c, DOMAIN cnt)
                   u == id \o ToString(k)
               IN Unique_(ids, i + 1, (id :> k) @@ (u :> 1) @@ cnt, Append(acc, u))
Unique(ids) == Unique_(ids, 1, <<>>, <<>>)
=============================================================================
