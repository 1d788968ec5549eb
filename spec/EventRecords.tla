----------------------------- MODULE EventRecords ------------------------------
(* Filters of events (general_filter.py) and seeds of events (seed_loader.py).

   A file has tables with one row for each event, and vectors of any length for
   each event.  A frame has the rows and vectors of a single event.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxEvents, MaxConstraints, Small

VARIABLES n,        \* number of events
          tab,      \* tab[c][e]: value of column c
          vec,      \* vec[e]: vector of event e
          cons,     \* constraints [col, op, thr]
          has,      \* which of the tables "t", "v" exist
          seeds,    \* seed names, in the order of the configuration
          params,   \* parameter names
          srows,    \* srows[s]: columns and rows of the table of seed s
          opt,      \* missing values
          phase
vars == <<n, tab, vec, cons, has, seeds, params, srows, opt, phase>>

NaN == 99           \* undefined value
Nothing == 77       \* no value is configured
Values == {-1, 0, 1, 2, NaN}
Columns == {"a", "b"}
Indices == 0..2
Ops == {"<", "<=", "==", ">=", ">"}
SeedNames == {"sa", "sb", "sc"}
ParamNames == {"x", "azimuth", "energy", "shape"}
Events == 1..n

----------------------------------------------------------------------------
(* Filter *)
Holds(op, v, t) ==
  /\ v # NaN /\ t # NaN
  /\ CASE op = "<"  -> v < t
       [] op = "<=" -> v <= t
       [] op = "==" -> v = t
       [] op = ">=" -> v >= t
       [] op = ">"  -> v > t
InTable(c) == c \in Columns
\* whether the event has what constraint k asks for
Available(k, e) ==
  LET c == cons[k]
  IN IF c.vec THEN "v" \in has /\ c.idx < Len(vec[e])
     ELSE "t" \in has /\ c.col \in DOMAIN tab
ValueOf(k, e) ==
  LET c == cons[k] IN IF c.vec THEN vec[e][c.idx + 1] ELSE tab[c.col][e]
\* decision for a single event
Decision(e) ==
  IF \E k \in DOMAIN cons : ~Available(k, e) THEN "refused"
  ELSE IF \A k \in DOMAIN cons : Holds(cons[k].op, ValueOf(k, e), cons[k].thr)
       THEN "pass" ELSE "drop"
FileRefused == \E e \in Events : Decision(e) = "refused"

----------------------------------------------------------------------------
(* Seeds *)
Range(s) == {s[i] : i \in DOMAIN s}
Known(s, p) == p \in srows[s].cols \/ opt.dict[p] # Nothing
                 \/ opt.value # Nothing
Fill(p) == IF opt.dict[p] # Nothing THEN opt.dict[p] ELSE opt.value
Entry(s, p, e) == IF p \in srows[s].cols THEN srows[s].rows[p][e] ELSE Fill(p)
Skipped == \E s \in Range(seeds) :
             \/ ~srows[s].exists
             \/ \E p \in Range(params) : ~Known(s, p)
Unequal == \E s, r \in Range(seeds) : srows[s].n # srows[r].n
Matrix(s) == [e \in 1..srows[s].n |->
                [i \in DOMAIN params |-> Entry(s, params[i], e)]]
SeedOut == [skipped |-> Skipped, refused |-> ~Skipped /\ Unequal,
            data |-> IF Skipped THEN [s \in {} |-> 0]
                     ELSE [s \in Range(seeds) |-> Matrix(s)]]

----------------------------------------------------------------------------
(* Properties *)
Done == phase = "end"
\* a subset of the constraints lets all events pass that pass all of them
Monotone ==
  Done => \A e \in Events : \A k \in DOMAIN cons :
    Decision(e) = "pass" => Holds(cons[k].op, ValueOf(k, e), cons[k].thr)
\* exactly one of <, ==, > holds for values that are defined
Trichotomy ==
  \A v, t \in Values :
    LET ops == {op \in {"<", "==", ">"} : Holds(op, v, t)}
    IN Cardinality(ops) = (IF v = NaN \/ t = NaN THEN 0 ELSE 1)
\* missing values never replace what is available
NothingReplaced ==
  Done /\ ~Skipped =>
    \A s \in Range(seeds) : \A i \in DOMAIN params : \A e \in 1..srows[s].n :
      params[i] \in srows[s].cols =>
        Matrix(s)[e][i] = srows[s].rows[params[i]][e]
NothingInvented ==
  Done /\ ~Skipped =>
    \A s \in Range(seeds) : \A i \in DOMAIN params : \A e \in 1..srows[s].n :
      Matrix(s)[e][i] # Nothing

----------------------------------------------------------------------------
R(S) == RandomElement(S)
Perms(S) == {p \in [1..Cardinality(S) -> S] : Range(p) = S}
SubSeqs(S) == UNION {Perms(T) : T \in SUBSET S}
RandomCon(z) ==
  TLCEval([vec |-> R(1..3) = 1 /\ z >= 0, idx |-> R(Indices),
           col |-> IF R(1..12) = 1 THEN "c" ELSE R(Columns),
           op |-> R(Ops), thr |-> R({-1, 0, 1, 1, 2, NaN})])
RandomVec(z) ==
  LET k == TLCEval(IF R(1..6) = 1 THEN R(0..3) ELSE 3 + 0 * z)
  IN TLCEval([i \in 1..k |-> R(Values)])
RandomSeed(k) ==
  LET m == TLCEval(IF R(1..12) = 1 THEN k + 1 ELSE k)
      cs == TLCEval(IF R(1..2) = 1 THEN ParamNames ELSE R(SUBSET ParamNames))
  IN TLCEval([exists |-> R(1..16) # 1, n |-> m, cols |-> cs,
              rows |-> [p \in cs |-> [e \in 1..m |-> R(0..60)]]])
Init ==
  /\ n = 0 /\ tab = <<>> /\ vec = <<>> /\ cons = <<>> /\ has = {}
  /\ seeds = <<>> /\ params = <<>> /\ srows = <<>>
  /\ opt = [value |-> Nothing] /\ phase = "start"
NextRandom ==
  /\ phase = "start" /\ phase' = "end"
  /\ \E k \in {R(1..MaxEvents)} : \E m \in {R(0..MaxConstraints)} :
     \E x \in {R(1..15)} :
       /\ n' = k
       /\ tab' = TLCEval([c \in Columns |-> [e \in 1..k |-> R(Values)]])
       /\ vec' = TLCEval([e \in 1..k |-> RandomVec(e)])
       /\ cons' = TLCEval([i \in 1..m |-> RandomCon(i)])
       /\ has' = IF x = 1 THEN {"t"} ELSE IF x = 2 THEN {"v"} ELSE {"t", "v"}
       /\ seeds' = R(SubSeqs(SeedNames) \ {<<>>})
       /\ params' = R(SubSeqs(ParamNames) \ {<<>>})
       /\ srows' = TLCEval([s \in SeedNames |-> RandomSeed(k)])
       /\ \E v \in {R({Nothing, Nothing, 0, 5})} :
            opt' = TLCEval([value |-> v,
                            dict |-> [p \in ParamNames |->
                                        IF R(1..2) = 1 THEN Nothing
                                        ELSE R(0..9)]])
\* all constraints on two events; all missing values of two parameters
NextSmall ==
  \/ /\ phase = "start" /\ phase' = "end"
     /\ n' \in 1..2
     /\ tab' \in [{"a"} -> [1..n' -> {0, 1, NaN}]]
     /\ vec' \in [1..n' -> {<<>>, <<0>>, <<1, 0>>, <<0, NaN>>}]
     /\ \E c \in [vec : BOOLEAN, idx : 0..1, col : {"a"}, op : Ops,
                  thr : {0, 1}] : cons' = <<c>>
     /\ has' \in {{"t", "v"}}
     /\ seeds' = <<"sa">> /\ params' = <<"x">>
     /\ srows' = [s \in SeedNames |->
                    [exists |-> TRUE, n |-> n', cols |-> {"x"},
                     rows |-> [p \in {"x"} |-> [e \in 1..n' |-> e]]]]
     /\ opt' = [value |-> Nothing, dict |-> [p \in ParamNames |-> Nothing]]
  \/ /\ phase = "start" /\ phase' = "end"
     /\ n' = 1 /\ tab' = [c \in {"a"} |-> <<1>>] /\ vec' = <<<<1>>>>
     /\ cons' = <<>> /\ has' = {"t", "v"}
     /\ seeds' \in Perms({"sa", "sb"}) /\ params' \in Perms({"x", "energy"})
     /\ \E cs \in [SeedNames -> SUBSET {"x", "energy"}] :
          srows' = [s \in SeedNames |->
                      [exists |-> TRUE, n |-> 1, cols |-> cs[s],
                       rows |-> [p \in cs[s] |->
                         <<(IF p = "x" THEN 10 ELSE 20) +
                           (IF s = "sa" THEN 1 ELSE 2)>>]]]
     /\ \E v \in {Nothing, 5} : \E d \in [{"x", "energy"} -> {Nothing, 0}] :
          opt' = [value |-> v,
                  dict |-> [p \in ParamNames |->
                              IF p \in DOMAIN d THEN d[p] ELSE Nothing]]
Next == IF Small THEN NextSmall ELSE NextRandom
Spec == Init /\ [][Next]_vars
Emit == Done => PrintT(ToJson(
          [n |-> n, tab |-> tab, vec |-> vec, cons |-> cons, has |-> has,
           decision |-> [e \in Events |-> Decision(e)],
           filerefused |-> FileRefused, seeds |-> seeds, params |-> params,
           srows |-> srows, opt |-> opt, out |-> SeedOut]))
================================================================================
