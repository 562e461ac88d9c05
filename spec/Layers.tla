------------------------------- MODULE Layers -------------------------------
(* A parameter-free layer: a dictionary of entries, weights per entry and a number type. Its output depends on nothing but
   the current entries and the input. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Values, WeightValues, MaxOps
VARIABLES entry, weight, dtype, out, ops, refused
lvars == <<entry, weight, dtype, out, ops, refused>>
Entries == {"weight", "bias"}
LInit == /\ entry \in [Entries -> Values] /\ \E w \in WeightValues : weight = [k \in Entries |-> w]
         /\ dtype = "f32" /\ out = << >> /\ ops = 0 /\ refused = FALSE
Tick == ops < MaxOps /\ ops' = ops + 1
Replace(k, v) == Tick /\ entry' = [entry EXCEPT ![k] = v] /\ out' = << >> /\ UNCHANGED <<weight, dtype, refused>>
Weigh(k, w) == Tick /\ out' = << >> /\ IF k \in Entries THEN weight' = [weight EXCEPT ![k] = w] /\ UNCHANGED <<entry, dtype, refused>>
                          ELSE refused' = TRUE /\ UNCHANGED <<entry, weight, dtype>>
Convert(d) == Tick /\ dtype' = d /\ out' = << >> /\ UNCHANGED <<entry, weight, refused>>
Apply(x) == Tick /\ out' = <<[x |-> x, y |-> entry["weight"] * x + entry["bias"], d |-> dtype]>> /\ UNCHANGED <<entry, weight, dtype, refused>>
LNext == (\E k \in Entries, v \in Values : Replace(k, v)) \/ (\E k \in Entries \cup {"other"}, w \in WeightValues : Weigh(k, w))
         \/ (\E d \in {"f32", "f64"} : Convert(d)) \/ (\E x \in Values : Apply(x))
LSpec == LInit /\ [][LNext]_lvars
CurrentEntries == out # << >> => out[1].y = entry["weight"] * out[1].x + entry["bias"] /\ out[1].d = dtype
OnlyKnownWeighted == DOMAIN weight = Entries
ConversionKeepsValues == [][dtype' # dtype => entry' = entry /\ weight' = weight]_lvars
WeightsDoNotMatter == [][weight' # weight => entry' = entry]_lvars
=============================================================================
