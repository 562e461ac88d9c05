------------------------------ MODULE TextTrace -----------------------------
EXTENDS TraceKit, TextOps
VARIABLES l, conf
Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev = "Start" -> {}
              [] e.ev = "Latex" -> Clause("latex-escaped-exactly", e.got = Escape(e.s))
              [] e.ev = "KV" -> Clause("key-value-string", e.got = KV(e.kvs)) \cup Clause("dictionary-untouched", e.same)
              [] e.ev = "Add" -> Clause("item-added-once-escaped", e.got = Add(conf, e.item))
              [] e.ev = "Args" -> Clause("argument-list", e.got = ArgList(e.kvs)) \cup Clause("dictionary-untouched", e.same)
              [] e.ev = "Exec" -> Clause("arguments-passed-exactly", e.got = e.args)
              [] e.ev = "OneString" -> Clause("arguments-in-one-string", e.got = Join(e.args, <<32>>) \o (IF e.args = << >> THEN << >> ELSE <<32>>))
              [] e.ev = "Output" -> Clause("output-shown-without-comments", Join(e.got, <<10>>) = Join(Shown(e.out), <<10>>))
              [] e.ev = "LogName" -> Clause("log-name", e.got = e.dir \o <<47>> \o e.stem \o e.stage \o (IF e.name = Nothing THEN << >> ELSE <<95>> \o e.name) \o <<46, 116, 120, 116>>)
              [] OTHER -> {"unknown-event"}
TraceInit == l = 1 /\ conf = Nothing
TraceNext == \/ /\ l <= NEvents /\ l' = l + 1
                /\ LET e == Trace[l] IN Report(l, Fails(e)) /\ conf' = CASE e.ev = "Start" -> e.conf [] e.ev = "Add" -> Add(conf, e.item) [] OTHER -> conf
             \/ /\ l = NEvents + 1 /\ Done /\ l' = l + 1 /\ UNCHANGED conf
TraceSpec == TraceInit /\ [][TraceNext]_<<l, conf>>
=============================================================================
