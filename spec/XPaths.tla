------------------------------- MODULE XPaths -------------------------------
(***************************************************************************)
(* Where a run of the command reads and writes.  A path is a sequence of   *)
(* names from the root; the command works in Cwd.  What is given on the    *)
(* command line or as schemaLocation is a sequence of names too, in which  *)
(* "." and "" stand for nothing and ".." for the directory above.          *)
(*                                                                         *)
(* Building: a tree of schema files is made (AddFile), some import others  *)
(* (Import), then the arguments are chosen (ChooseIn, ChooseOut).          *)
(* Running: files are processed in any order, those that the input path    *)
(* names and those they import (Process); each is written somewhere.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

MaxFiles == CHOOSE n \in 1..8 : ToString(n) = IOEnv.XV_FILES

Cwd == <<"r", "w">>

Dirs  == { <<"r", "w", "in">>, <<"r", "w", "in", "sub">>, <<"r", "w", "in", ".sub">>, <<"r", "w", "in", "sub", "deep.go">>, <<"r", "w", "in", "in">>,
           <<"r", "w", "inn">>, <<"r", "ext">>, <<"r", "w">> }
Names == {"a.xsd", "b.xsd", "a", "x.go", "x.gox.xsd", "y.go.xsd", "c.XSD", "with space.xsd", ".h.xsd", "z.rs", "j.java", "k.ts", "h.h", "a.h.", "up..xsd", "ä.xsd"}

(* Names of the arguments: directories and how they may be written.          *)
InArgs == { <<"in">>, <<"in", "">>, <<".", "in">>, <<"in", ".">>, <<"..", "w", "in">>, <<"in", "", "sub">>, <<"in", "sub", "..">>,
            <<"in", "sub">>, <<".">>, <<"..", "w">>, <<"..", "..", "r", "w", "in">>, <<"in", "in">>, <<"inn">> }
OutArgs == { <<"out">>, <<"out", "">>, <<".", "out">>, <<"deep", "er", "out">>, <<"..", "out">>, <<"out", ".", "x", "..">>,
             <<"inout">>, <<"outs", "in">>, <<"..", "o", "a.xsd">>, <<"out.go">> }
Langs == {"Go", "TypeScript", "C", "Java", "Rust"}
Ext == [Go |-> ".go", TypeScript |-> ".ts", C |-> ".h", Java |-> ".java", Rust |-> ".rs"]

(***************************** paths ***************************************)
RECURSIVE Walk(_, _)
Walk(at, arg) == IF arg = <<>> THEN at
                 ELSE Walk(CASE Head(arg) \in {"", "."} -> at
                             [] Head(arg) = ".."         -> (IF at = <<>> THEN <<>> ELSE Front(at))
                             [] OTHER                    -> Append(at, Head(arg)), Tail(arg))
Resolve(arg, abs) == IF abs THEN Walk(<<>>, arg) ELSE Walk(Cwd, arg)
Below(p, d) == Len(p) > Len(d) /\ SubSeq(p, 1, Len(d)) = d
EndsWith(s, e) == Len(s) >= Len(e) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e
WithExt(p, lang) == IF EndsWith(Last(p), Ext[lang]) THEN p ELSE Append(Front(p), Last(p) \o Ext[lang])

(* How a file at p refers to one at q.                                       *)
RECURSIVE Common(_, _)
Common(p, q) == IF p # <<>> /\ q # <<>> /\ Head(p) = Head(q) THEN 1 + Common(Tail(p), Tail(q)) ELSE 0
Relative(p, q) == LET d == Front(p)
                      n == Common(d, Front(q))
                  IN [k \in 1..(Len(d) - n) |-> ".."] \o SubSeq(q, n + 1, Len(q))

(************************* what a run has to do ****************************)
InPath(c)  == Resolve(c.in, c.abs)
OutPath(c) == Resolve(c.out, c.abs)
IsFile(c)  == \E k \in DOMAIN c.files : c.files[k].path = InPath(c)
(* The files that the input path names.                                      *)
Named(c) == IF IsFile(c) THEN {k \in DOMAIN c.files : c.files[k].path = InPath(c)}
            ELSE {k \in DOMAIN c.files : Below(c.files[k].path, InPath(c))}
Imports(c, k) == {c.files[k].imports[j] : j \in DOMAIN c.files[k].imports}
RECURSIVE Closure(_, _)
Closure(c, S) == LET T == S \cup UNION {Imports(c, k) : k \in S} IN IF T = S THEN S ELSE Closure(c, T)
Needed(c) == Closure(c, Named(c)) \ Named(c)
(* The place of the output of a named file.                                  *)
Place(c, k) == IF IsFile(c) THEN WithExt(OutPath(c), c.lang)
               ELSE WithExt(OutPath(c) \o SubSeq(c.files[k].path, Len(InPath(c)) + 1, Len(c.files[k].path)), c.lang)

(* Trees about which there is nothing to say: files that would have the same *)
(* output, and output among the input.                                       *)
Tells(c) ==
  /\ Named(c) # {}
  /\ \A j, k \in Named(c) : j # k => Place(c, j) # Place(c, k) /\ ~Below(Place(c, j), Place(c, k))
  /\ ~Below(OutPath(c), InPath(c)) /\ OutPath(c) # InPath(c) /\ ~Below(InPath(c), OutPath(c))
  /\ \A j \in DOMAIN c.files : ~Below(c.files[j].path, OutPath(c)) /\ c.files[j].path # OutPath(c) /\ c.files[j].path # WithExt(OutPath(c), c.lang)
  /\ IF IsFile(c) THEN Last(c.out) # "" ELSE TRUE
  /\ IsFile(c) /\ WithExt(OutPath(c), c.lang) = OutPath(c) => Needed(c) = {} /\ c.before # "dir"
  (* what is imported from elsewhere may be put where another file's output is *)
  /\ \A j \in Needed(c), k \in Named(c) \cup Needed(c) : j # k => Last(WithExt(c.files[j].path, c.lang)) # Last(WithExt(c.files[k].path, c.lang))
  /\ Needed(c) = {} \/ ~IsFile(c) \/ ~\E j \in DOMAIN c.files : Below(c.files[j].path, OutPath(c))

(* outs: what is there after the run, [path, who: the files whose            *)
(* declarations it has].                                                     *)
Right(c, outs) ==
  /\ \A k \in Named(c) : \E o \in outs : o.path = Place(c, k) /\ o.who = <<k>>
  /\ \A k \in Needed(c) : \E o \in outs : Below(o.path, OutPath(c)) /\ o.who = <<k>>
  /\ Cardinality(outs) = Cardinality(Named(c)) + Cardinality(Needed(c))

(******************************* the machine *******************************)
VARIABLES conf,   \* the tree and the arguments
          size,   \* number of files of the tree
          todo,   \* files to process
          outs,   \* files written
          pc      \* files, imports, in, out, run, done
vars == <<conf, size, todo, outs, pc>>

Init == /\ conf = [files |-> <<>>, in |-> <<>>, abs |-> FALSE, out |-> <<>>, lang |-> "Go", before |-> "nothing"]
        /\ size \in 1..MaxFiles
        /\ todo = {} /\ outs = {} /\ pc = "files"
AddFile == /\ pc = "files"
           /\ \E d \in Dirs, n \in Names :
                /\ \A k \in DOMAIN conf.files : conf.files[k].path # Append(d, n)
                /\ conf' = [conf EXCEPT !.files = Append(@, [path |-> Append(d, n), imports |-> <<>>])]
           /\ pc' = IF Len(conf.files) + 1 = size THEN "imports" ELSE "files"
           /\ todo' = 1..size
           /\ UNCHANGED <<size, outs>>
Import == /\ pc = "imports"
          /\ LET k == CHOOSE k \in todo : \A j \in todo : k <= j IN
             /\ \E S \in SUBSET ((1..size) \ {k}) :
                  /\ Cardinality(S) < 3
                  /\ conf' = [conf EXCEPT !.files[k].imports = SetToSeq(S)]
             /\ todo' = todo \ {k}
             /\ pc' = IF todo = {k} THEN "in" ELSE "imports"
          /\ UNCHANGED <<size, outs>>
ChooseIn == /\ pc = "in"
            /\ \E i \in InArgs \cup {Relative(Append(Cwd, "x"), conf.files[k].path) : k \in DOMAIN conf.files},
                  abs \in BOOLEAN, l \in Langs :
                 /\ conf' = [conf EXCEPT !.in = (IF abs THEN Resolve(i, FALSE) ELSE i), !.abs = abs, !.lang = l]
                 /\ Named(conf') # {}
            /\ pc' = "out" /\ UNCHANGED <<size, todo, outs>>
ChooseOut == /\ pc = "out"
             /\ \E o \in OutArgs, b \in {"nothing", "dir", "stale"} :
                  /\ conf' = [conf EXCEPT !.out = (IF conf.abs THEN Resolve(o, FALSE) ELSE o), !.before = b]
                  /\ Tells(conf')
             /\ todo' = Named(conf') /\ pc' = "run" /\ UNCHANGED <<size, outs>>
Process == /\ pc = "run" /\ todo # {}
           /\ \E k \in todo :
                LET new == {j \in Imports(conf, k) : ~\E o \in outs : o.who = <<j>>} IN
                /\ todo' = (todo \ {k}) \cup (new \ {k})
                /\ \E p \in (IF k \in Named(conf) THEN {Place(conf, k)}
                             ELSE {OutPath(conf) \o WithExt(<<Last(conf.files[k].path)>>, conf.lang)}) :
                     outs' = {o \in outs : o.path # p} \cup {[path |-> p, who |-> <<k>>]}
           /\ UNCHANGED <<conf, size, pc>>
Finish == pc = "run" /\ todo = {} /\ pc' = "done" /\ UNCHANGED <<conf, size, todo, outs>>
Next == AddFile \/ Import \/ ChooseIn \/ ChooseOut \/ Process \/ Finish
Spec == Init /\ [][Next]_vars

(* Nothing is written outside the output path, or where the input is.        *)
Inside == \A o \in outs : \/ Below(o.path, OutPath(conf))
                          \/ IsFile(conf) /\ o.path = WithExt(OutPath(conf), conf.lang)
InputsKept == \A o \in outs, k \in DOMAIN conf.files : o.path # conf.files[k].path
AtTheEnd == pc = "done" => Right(conf, outs)
Told == pc = "done" => PrintT("XV-PATHS " \o ToJson(conf))
=============================================================================
