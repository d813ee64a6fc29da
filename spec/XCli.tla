-------------------------------- MODULE XCli --------------------------------
(***************************************************************************)
(* The command line: what an invocation has to say and to leave behind.    *)
(* An invocation has flags (absent, empty or with a value) and meets       *)
(* schema files that it can or can't process, fate says which:             *)
(*   well       a schema                                                   *)
(*   malformed  is no XML,           bounds   has a maxOccurs of "x"       *)
(*   noimport   needs an import that isn't there                           *)
(*   badimport needs an import that is malformed                           *)
(*   noread     may not be read,     dangling is a link to nothing         *)
(*   nowrite    a directory is where the output should be                  *)
(*   full       its output is on a full device                             *)
(*   nodir      a file is where the output's directory should be           *)
(* The command looks at the flags one by one, lists the files and          *)
(* processes them; it may stop at the first that fails or go on.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

MaxFiles == CHOOSE n \in 0..8 : ToString(n) = IOEnv.XV_FILES
Deep     == IOEnv.XV_DEEP = "yes"

Langs == {"Go", "TypeScript", "C", "Java", "Rust"}
Fates == {"well", "malformed", "bounds", "noimport", "badimport", "noread", "dangling", "nowrite", "full", "nodir"}

FlagMatrix == [h : BOOLEAN, v : BOOLEAN, i : {"absent", "empty", "nowhere", "file", "dir"},
               l : {"absent", "empty", "go", "Python", "GoC"} \cup Langs, o : {"absent", "given"}, p : {"absent", "given"},
               files : {<<"well">>, <<"malformed">>}]
Directories == [h : {FALSE}, v : {FALSE}, i : {"dir"}, l : Langs, o : (IF Deep THEN {"absent", "given"} ELSE {"given"}), p : {"absent"},
                files : UNION {[1..n -> Fates] : n \in 0..MaxFiles}]
SingleFiles == [h : {FALSE}, v : {FALSE}, i : {"file"}, l : Langs, o : {"absent", "given"}, p : {"absent", "given"},
                files : {<<f>> : f \in Fates \ {"dangling"}}]

VARIABLES conf,    \* the invocation
          pc,      \* flags, list, process, ended
          left,    \* files to process
          written, \* files whose output is written
          status,  \* exit status
          says     \* what is printed: "help", "version", "done", <<"input">>, <<"file", k>>, ...
vars == <<conf, pc, left, written, status, says>>

Init == /\ conf \in FlagMatrix \cup Directories \cup SingleFiles
        /\ pc = "flags" /\ left = {} /\ written = {} /\ status = 0 /\ says = {}
Exit(s, what) == pc' = "ended" /\ status' = s /\ says' = {what}
Flags == /\ pc = "flags"
         /\ CASE conf.h                           -> Exit(0, <<"help">>)
              [] conf.v                           -> Exit(0, <<"version">>)
              [] conf.i \in {"absent", "empty"}   -> Exit(1, <<"input">>)
              [] conf.l \in {"absent", "empty"}   -> Exit(1, <<"language">>)
              [] conf.l \notin Langs              -> Exit(1, <<"unsupported", conf.l>>)
              [] OTHER                            -> pc' = "list" /\ UNCHANGED <<status, says>>
         /\ UNCHANGED <<conf, left, written>>
List == /\ pc = "list"
        /\ IF conf.i = "nowhere" THEN Exit(1, <<"nowhere">>) /\ UNCHANGED left
           ELSE pc' = "process" /\ left' = DOMAIN conf.files /\ UNCHANGED <<status, says>>
        /\ UNCHANGED <<conf, written>>
Process == /\ pc = "process"
           /\ \E k \in left :
                /\ left' = left \ {k}
                /\ IF conf.files[k] = "well" THEN written' = written \cup {k} /\ UNCHANGED <<status, says>>
                   ELSE UNCHANGED written /\ status' = 1 /\ says' = says \cup {<<"file", k>>}
           /\ UNCHANGED <<conf, pc>>
End == /\ pc = "process"
       /\ left = {} \/ status = 1
       /\ pc' = "ended"
       /\ says' = IF status = 0 THEN says \cup {<<"done">>} ELSE says
       /\ UNCHANGED <<conf, left, written, status>>
Next == Flags \/ List \/ Process \/ End
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What holds of an invocation that has ended with exit status st, said    *)
(* what, and has written the output of the files in w.                     *)
(***************************************************************************)
Processes(c) == ~c.h /\ ~c.v /\ c.i \in {"file", "dir"} /\ c.l \in Langs
AllWell(c) == \A k \in DOMAIN c.files : c.files[k] = "well"
Right(c, st, what, w) ==
  /\ (<<"done">> \in what) <=> (Processes(c) /\ AllWell(c))
  /\ st = (IF c.h \/ c.v \/ (Processes(c) /\ AllWell(c)) THEN 0 ELSE 1)
  /\ Processes(c) /\ AllWell(c) => w = DOMAIN c.files
  /\ ~Processes(c) => w = {}
  /\ CASE c.h \/ c.v                       -> what = {IF ~c.v THEN <<"help">> ELSE <<"version">>} \/ (c.h /\ what = {<<"help">>})
       [] c.i \in {"absent", "empty"}      -> <<"input">> \in what
       [] c.l \in {"absent", "empty"}      -> <<"language">> \in what
       [] c.l \notin Langs                 -> <<"unsupported", c.l>> \in what
       [] c.i = "nowhere"                  -> <<"nowhere">> \in what
       [] ~AllWell(c)                      -> \E k \in DOMAIN c.files : c.files[k] # "well" /\ <<"file", k>> \in what
       [] OTHER                            -> TRUE
Truthful == pc = "ended" => Right(conf, status, says, written)
Told == pc = "flags" => PrintT("XV-CLI " \o ToJson(conf))
=============================================================================
