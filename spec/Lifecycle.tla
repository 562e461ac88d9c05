------------------------------ MODULE Lifecycle -----------------------------
(* Life of a block: made, run, asked for its parameters. Registration happens when the block is made (particles, layers) and
   in its first forward pass (enlargement), never later. *)
EXTENDS LifeOps, FiniteSets
CONSTANTS Configs, MaxOps
VARIABLES c, registered, forwarded, listed, ops
lvars == <<c, registered, forwarded, listed, ops>>
Item(kind, b, k) == <<kind, b, k>>
OwnItems(cf) == IF cf.free THEN {Item("set", i, 0) : i \in 1..cf.sets}
                ELSE {Item(s, 0, k) : s \in (IF cf.zero THEN {"costate"} ELSE {"state", "costate"}), k \in DOMAIN cf.own}
LayerItems(cf) == {Item("layer", 0, k) : k \in DOMAIN cf.layers}
EnlargeItems(cf) == IF cf.own = << >> THEN {} ELSE
  UNION {{Item(s, b, k) : s \in (IF cf.zero THEN {"costate"} ELSE {"state", "costate"}), k \in {j \in DOMAIN cf.pt[b].cur : cf.pt[b].tgt[j] > cf.pt[b].cur[j]}} : b \in DOMAIN cf.pt}
Size(cf, it) == CASE it[1] = "set" -> cf.setsize
                  [] it[1] = "layer" -> cf.layers[it[3]]
                  [] it[2] = 0 -> cf.own[it[3]]
                  [] OTHER -> cf.pt[it[2]].tgt[it[3]] - cf.pt[it[2]].cur[it[3]]
LInit == c \in Configs /\ registered = OwnItems(c) \cup LayerItems(c) /\ forwarded = FALSE /\ listed = <<"never">> /\ ops = 0
Forward == /\ ops < MaxOps /\ ops' = ops + 1 /\ forwarded' = TRUE /\ UNCHANGED <<c, listed>>
           /\ registered' = IF forwarded THEN registered ELSE registered \cup EnlargeItems(c)
List == /\ ops < MaxOps /\ ops' = ops + 1 /\ listed' = (IF forwarded THEN <<"ok", registered>> ELSE <<"refused">>) /\ UNCHANGED <<c, registered, forwarded>>
LNext == Forward \/ List
LSpec == LInit /\ [][LNext]_lvars
RECURSIVE Total(_, _)
Total(cf, S) == IF S = {} THEN 0 ELSE LET it == CHOOSE x \in S : TRUE IN Size(cf, it) + Total(cf, S \ {it})
Complete == listed[1] = "ok" => Total(c, listed[2]) = Scalars(c)
EnlargementsCounted == Cardinality(EnlargeItems(c)) = EnlargeTensors(c)
NeverBeforeForward == ~forwarded => listed[1] # "ok"
Stable == [][(forwarded /\ listed[1] = "ok" /\ listed'[1] = "ok") => listed'[2] = listed[2]]_lvars
=============================================================================
