--------------------------- MODULE ExperimentTrace --------------------------
(* Real sweeps with a stand-in for the interpreter that records how it was called. Sweep gives seeds, table (keys,
   values as written and their kind), template, forced flag; Run one call of the interpreter; End how the sweep ended;
   Result / NoResult what the user or the run left in a directory. Items are identified by the directory's name. *)
EXTENDS TraceKit
VARIABLES l, res, sw, ran
Pad2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
SetOf(s) == {s[i] : i \in DOMAIN s}
S == INSTANCE Sweep WITH MaxKeys <- 0, MaxVals <- 0, tbl <- << >>, cur <- << >>, out <- << >>, phase <- "none"
\* all combinations: sequences of [key, text, kind], kind one of "val", "on", "off", "bare"
CombosOf(e) == LET lens == [k \in DOMAIN e.table |-> Len(e.table[k].vals)] IN
  {[k \in DOMAIN e.table |-> [key |-> e.table[k].key, text |-> e.table[k].vals[d[k]].text, kind |-> e.table[k].vals[d[k]].kind]] :
     d \in {S!Digits(lens, i - 1) : i \in 1..S!Prod(lens)}}
Value(seq, key, other) == LET I == {i \in DOMAIN seq : seq[i].key = key} IN IF I = {} THEN other ELSE seq[CHOOSE i \in I : TRUE].text
Pick(e, c, key, other) == Value(c, key, Value(e.template, key, other))
RECURSIVE Joined(_)
Joined(c) == IF c = << >> THEN "" ELSE "_" \o Head(c).key \o "_" \o Head(c).text \o Joined(Tail(c))
NameOf(e, seed, c) == e.base \o "/run_" \o Pad2(seed) \o "_" \o Pick(e, c, "fcn", e.fcn) \o "_" \o Pick(e, c, "shooting_model", e.model) \o Joined(c)
\* options of the command: a set of <<key, text>>, bare options with the text <bare>
Bare == "<bare>"
OptionsOf(e, seed, c) ==
  LET swept == {c[k].key : k \in DOMAIN c}
      fixed == {"output_directory", "seed"}
      own == {<<c[k].key, IF c[k].kind = "val" THEN c[k].text ELSE Bare>> : k \in {k \in DOMAIN c : c[k].kind # "off" /\ c[k].key \notin fixed}}
      tmpl == {<<e.template[k].key, IF e.template[k].kind = "val" THEN e.template[k].text ELSE Bare>> :
                  k \in {k \in DOMAIN e.template : e.template[k].key \notin swept \cup fixed}}
  IN own \cup tmpl \cup {<<"output_directory", NameOf(e, seed, c)>>, <<"seed", ToString(seed)>>}
Work(e) == {[name |-> NameOf(e, sd, c), opts |-> OptionsOf(e, sd, c)] : sd \in e.start..(e.start + e.n - 1), c \in CombosOf(e)}
NoSweep == [all |-> {}, forced |-> FALSE, before |-> {}, script |-> "", gpu |-> "", started |-> FALSE]
RunFails(e) ==
  LET O == {<<e.opts[i][1], e.opts[i][2]>> : i \in DOMAIN e.opts}
      M == {w \in sw.all : w.name = e.dir} IN
  Clause("run-belongs-to-the-sweep", sw.started /\ M # {})
  \cup Clause("at-most-once", e.dir \notin ran)
  \cup Clause("not-if-it-has-a-result", sw.forced \/ e.dir \notin res)
  \cup Clause("arguments", M = {} \/ \E w \in M : O = w.opts)
  \cup Clause("every-argument-once", Len(e.opts) = Cardinality(O))
  \cup Clause("script", e.script = sw.script)
  \cup Clause("requested-interpreter", e.interpreter)
  \cup Clause("requested-gpu", e.gpu = sw.gpu)
  \cup Clause("directory-exists", e.direxists)
EndFails(e) ==
  Clause("every-missing-combination-run", e.how = "finished" => \A w \in sw.all : w.name \in ran \/ (~sw.forced /\ w.name \in res))
  \cup Clause("inputs-unchanged", e.inputs)
Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev \in {"Start", "Sweep", "Result", "NoResult"} -> {}
              [] e.ev = "Run" -> RunFails(e)
              [] e.ev = "Log" -> Clause("output-kept-in-the-log", e.kept)
              [] e.ev = "Kept" -> Clause("existing-files-kept", e.same)
              [] e.ev = "End" -> EndFails(e)
              [] OTHER -> {"unknown-event"}
TraceInit == l = 1 /\ res = {} /\ sw = NoSweep /\ ran = {}
TraceNext == \/ /\ l <= NEvents /\ l' = l + 1
                /\ LET e == Trace[l] IN
                   /\ Report(l, Fails(e))
                   /\ res' = CASE e.ev = "Start" -> {}
                               [] e.ev = "Result" -> res \cup {e.dir}
                               [] e.ev = "NoResult" -> res \ {e.dir}
                               [] e.ev = "Run" /\ e.ok -> res \cup {e.dir}
                               [] OTHER -> res
                   /\ sw' = IF e.ev = "Sweep" THEN [all |-> Work(e), forced |-> e.forced, before |-> res, script |-> e.script, gpu |-> e.gpu, started |-> TRUE]
                            ELSE IF e.ev \in {"Start"} THEN NoSweep ELSE sw
                   /\ ran' = IF e.ev = "Sweep" THEN {} ELSE IF e.ev = "Run" THEN ran \cup {e.dir} ELSE ran
             \/ /\ l = NEvents + 1 /\ Done /\ l' = l + 1 /\ UNCHANGED <<res, sw, ran>>
TraceSpec == TraceInit /\ [][TraceNext]_<<l, res, sw, ran>>
=============================================================================
