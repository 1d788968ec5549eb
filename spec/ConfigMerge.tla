------------------------------ MODULE ConfigMerge ------------------------------
(* Merging of configuration files (egenerator/settings/setup_manager.py).

   A file is a sequence of entries <<key, value>>.  A value is
     [t |-> "num", n |-> number]       anything that is not text
     [t |-> "text", s |-> pieces]      text, which may refer to other entries
     [t |-> "list", s |-> pieces]      a list with such a text, left as it is
     [t |-> "sec", e |-> entries]      a section of such values
   and a piece is <<"lit", text>>, <<"brace">>, <<"ref", key>> or
   <<"sub", section, key>>.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxFiles, MaxEntries, Small

VARIABLES files, loads, phase
vars == <<files, loads, phase>>

Keys == {"a", "b", "c", "d", "float_precision"}
Auto == {"config_name", "egenerator_dir", "git_sha"}
Sections == {"s", "t"}
Inner == {"k", "l"}
Names == <<"one", "two", "three">>

Range(s) == {s[i] : i \in DOMAIN s}
KeysOf(f) == {f[i][1] : i \in DOMAIN f}
Get(f, k) == f[CHOOSE i \in DOMAIN f : f[i][1] = k][2]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Twice(f) == Cardinality(KeysOf(f)) # Len(f)

----------------------------------------------------------------------------
(* texts: the pieces that remain, or Bad                                     *)
Bad == << <<"bad">> >>
RECURSIVE Text(_, _, _)
Lookup(all, p, used) ==
  LET path == Tail(p)
      top == path[1]
  IN IF path \in used THEN Bad
     ELSE IF top \in Auto /\ Len(path) = 1 THEN << <<"auto", top>> >>
     ELSE IF top = "float_precision" /\ top \notin KeysOf(all)
     THEN << <<"lit", "float32">> >>
     ELSE IF top \notin KeysOf(all) THEN Bad
     ELSE LET v == Get(all, top)
          IN IF Len(path) = 1
             THEN CASE v.t = "text" ->
                         Text(all, v.s, used \cup {path})
                    [] v.t = "num" -> << <<"num", v.n>> >>
                    [] OTHER -> << <<"odd">> >>
             ELSE IF v.t # "sec" THEN Bad
             ELSE IF path[2] \notin KeysOf(v.e) THEN Bad
             ELSE LET w == Get(v.e, path[2])
                  IN CASE w.t = "text" ->
                            Text(all, w.s, used \cup {path})
                       [] w.t = "num" -> << <<"num", w.n>> >>
                       [] OTHER -> << <<"odd">> >>
Text(all, s, used) ==
  Flat([i \in DOMAIN s |->
          IF s[i][1] \in {"ref", "sub"} THEN Lookup(all, s[i], used)
          ELSE << s[i] >>])
RECURSIVE Final(_, _)
Final(all, v) ==
  CASE v.t = "text" -> [t |-> "text", s |-> Text(all, v.s, {})]
    [] v.t = "sec" ->
         [t |-> "sec", e |-> [i \in DOMAIN v.e |->
                                <<v.e[i][1], Final(all, v.e[i][2])>>]]
    [] OTHER -> v

RECURSIVE Wrong(_), Strange(_)
Wrong(v) == CASE v.t = "text" -> <<"bad">> \in Range(v.s)
              [] v.t = "sec" -> \E i \in DOMAIN v.e : Wrong(v.e[i][2])
              [] OTHER -> FALSE
\* the text of sections and lists is not specified
Strange(v) == CASE v.t = "text" -> <<"odd">> \in Range(v.s)
                [] v.t = "sec" -> \E i \in DOMAIN v.e : Strange(v.e[i][2])
                [] OTHER -> FALSE
SecTwice(v) == v.t = "sec" /\ Twice(v.e)

(* what loading the files fs (indices of files, in this order) gives         *)
Merged(fs) == Flat([i \in DOMAIN fs |-> files[fs[i]]])
Outcome(fs) ==
  LET all == Merged(fs)
      res == [i \in DOMAIN all |-> <<all[i][1], Final(all, all[i][2])>>]
  IN IF fs = <<>> \/ Twice(all) \/
        \E i \in DOMAIN all : SecTwice(all[i][2])
     THEN [ok |-> FALSE, entries |-> <<>>, skip |-> FALSE]
     ELSE IF \E i \in DOMAIN res : Wrong(res[i][2])
     THEN [ok |-> FALSE, entries |-> <<>>, skip |-> FALSE]
     ELSE [ok |-> TRUE, entries |-> res,
           skip |-> \E i \in DOMAIN res : Strange(res[i][2])]
Reverse(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]

----------------------------------------------------------------------------
(* Properties *)
Orders == {s \in UNION {[1..n -> DOMAIN files] : n \in 0..2} : TRUE}
\* the order of the files does not matter
AnyOrder ==
  phase = "end" => \A s \in Orders :
    LET x == Outcome(s)
        y == Outcome(Reverse(s))
    IN x.ok = y.ok /\ Range(x.entries) = Range(y.entries)
\* every entry of every file is there once; nothing is left to be replaced
Complete ==
  phase = "end" => \A s \in Orders :
    LET x == Outcome(s)
    IN x.ok => /\ KeysOf(x.entries) = UNION {KeysOf(files[s[i]]) :
                                               i \in DOMAIN s}
               /\ Len(x.entries) = Cardinality(KeysOf(x.entries))
               /\ \A e \in Range(x.entries) :
                    e[2].t = "text" =>
                      \A p \in Range(e[2].s) : p[1] \notin {"ref", "sub"}
\* a file given twice is refused unless it is empty
NoTwins ==
  phase = "end" => \A i \in DOMAIN files :
    Outcome(<<i, i>>).ok => files[i] = <<>>

----------------------------------------------------------------------------
R(S) == RandomElement(S)
SomePieces(n) ==
  TLCEval([i \in 1..n |->
     LET k == TLCEval(R(1..20))
     IN IF k < 7 THEN <<"lit", R({"x", "y/", "-z"})>>
        ELSE IF k = 7 THEN <<"brace">>
        ELSE IF k < 15 THEN <<"ref", R({"a", "b", "c"})>>
        ELSE IF k < 17 THEN <<"ref", R(Auto \cup {"d", "float_precision"})>>
        ELSE <<"sub", R(Sections), R(Inner)>>])
Plain(n) ==
  LET k == TLCEval(R(1..8))
  IN IF k < 4 THEN [t |-> "num", n |-> R(0..9)]
     ELSE IF k = 4 THEN [t |-> "list", s |-> SomePieces(1)]
     ELSE IF k < 6 THEN [t |-> "text", s |-> << <<"lit", "v">> >>]
     ELSE [t |-> "text", s |-> SomePieces(n)]
SomeEntry(n) ==
  LET k == TLCEval(R(1..9))
  IN IF k < 7 THEN <<R({"a", "b", "c", "d"}), Plain(n)>>
     ELSE IF k = 7 /\ R(1..3) = 1
     THEN <<"float_precision",
            [t |-> "text", s |-> << <<"lit", "float64">> >>]>>
     ELSE <<R(Sections),
            [t |-> "sec", e |-> TLCEval([i \in 1..R(0..2) |->
               <<IF i = 1 \/ R(1..9) = 1 THEN "k" ELSE "l", Plain(n)>>])]>>
SmallTexts == {<< <<"lit", "x">> >>, << <<"ref", "a">> >>,
               << <<"ref", "b">>, <<"lit", "y/">> >>}
SmallFiles ==
  LET vals == {[t |-> "text", s |-> x] : x \in SmallTexts} \cup
              {[t |-> "num", n |-> 3]}
      es == {<<k, v>> : k \in {"a", "b"}, v \in vals}
  IN {<<>>} \cup {<<e>> : e \in es} \cup
     {<<e, <<"s", [t |-> "sec", e |-> << <<"k", v>> >>]>> >> :
        e \in es, v \in vals}
Init == files = <<>> /\ loads = <<>> /\ phase = "build"
InitSmall ==
  /\ phase = "end"
  /\ files \in {<<f, g>> : f \in SmallFiles, g \in SmallFiles}
  /\ loads \in {<< <<1, 2>> >>}
Next ==
  \/ /\ phase = "build" /\ Len(files) < MaxFiles
     /\ \E n \in {R(0..MaxEntries)} :
        \E f \in {TLCEval([i \in 1..n |->
                     SomeEntry(TLCEval(R(1..3)))])} :
          \* most files define entries of their own
          files' = Append(files,
            IF R(1..6) = 1 THEN f
            ELSE SelectSeq(f, LAMBDA e : e[1] \notin
                   UNION {KeysOf(files[j]) : j \in DOMAIN files}))
     /\ UNCHANGED <<loads, phase>>
  \/ /\ phase = "build" /\ Len(files) = MaxFiles
     /\ \E l \in {TLCEval([j \in 1..4 |->
                     IF j < 4
                     THEN TLCEval(R(Permutations(DOMAIN files)))
                     ELSE TLCEval([i \in 1..(IF R(1..12) = 1 THEN 0
                                             ELSE R(1..MaxFiles)) |->
                                     R(DOMAIN files)])])} :
          loads' = << [i \in DOMAIN files |-> i] >> \o l
     /\ phase' = "end" /\ UNCHANGED files
Spec == (IF Small THEN InitSmall ELSE Init) /\ [][Next]_vars
Emit == (phase = "end") =>
          PrintT(ToJson([files |-> files, loads |-> loads,
                         out |-> [i \in DOMAIN loads |->
                                    Outcome(loads[i])]]))
================================================================================
