-------------------------------- MODULE Scan ---------------------------------
(***************************************************************************)
(* Every small document with every shape of a list of shapes: facts about  *)
(* the meaning of selectors and scans that any reading of C25 has to keep, *)
(* and the cases the real code is run on.                                  *)
(***************************************************************************)
EXTENDS ScanObs, Json, TLC
CONSTANTS NE,      \* elements of a document, at most
          Tags, Classes
VARIABLES ps, es, k  \* parents, elements, shape

(* --- documents: NE elements below the root, each with a text first --- *)
Forest(n) == {p \in [1..n -> 0..n - 1] :
                /\ \A i \in 1..n : p[i] < i
                \* document order: the parent is the element before or one of those above it
                /\ \A i \in 2..n : p[i] = i - 1 \/ \E j \in 1..i - 1 : p[j] = p[i] /\ \A h \in j + 1..i - 1 : p[h] >= j}
(* node numbers: root 1, element i is 2i, its text 2i + 1 *)
Up(p, i) == IF p[i] = 0 THEN 1 ELSE 2 * p[i]
Doc == [n \in 1..2 * Len(ps) + 1 |->
   IF n = 1 THEN [p |-> 0, k |-> "d", tag |-> "", cls |-> <<>>, attr |-> <<>>, txt |-> <<>>]
   ELSE LET i == n \div 2 IN
     IF n % 2 = 0 THEN [p |-> Up(ps, i), k |-> "e", tag |-> es[i][1], cls |-> IF es[i][2] = "" THEN <<>> ELSE <<es[i][2]>>,
                        attr |-> IF es[i][1] = "aa" THEN <<<<"key", <<48 + i>>>>>> ELSE <<>>, txt |-> <<>>]
     ELSE [p |-> 2 * i, k |-> "t", tag |-> "", cls |-> <<>>, attr |-> <<>>, txt |-> <<48 + i>>]]

C(t, c) == [tag |-> t, cls |-> c, attr |-> "", comb |-> ""]
R(b, t, c) == [tag |-> t, cls |-> c, attr |-> "", comb |-> b]
S1(c) == <<<<c>>>>
A == S1(C("aa", ""))  B == S1(C("bb", ""))  X == S1(C("", "x"))  AX == S1(C("aa", "x"))
AB == <<<<C("aa", ""), R(" ", "bb", "")>>>>
AcB == <<<<C("aa", ""), R(">", "bb", "")>>>>
AnB == <<<<C("aa", ""), R("+", "bb", "")>>>>
AsX == <<<<C("aa", ""), R("~", "", "x")>>>>
AorX == <<<<C("bb", "x")>>, <<C("aa", "")>>>>
St == [k |-> "s"]  In == [k |-> "i"]  Un == [k |-> "u"]  Fl == [k |-> "f"]  By == [k |-> "b"]
F(s, a, t) == [s |-> s, a |-> a, t |-> t]
T(fs) == [k |-> "st", f |-> fs]
L(t) == [k |-> "sl", el |-> t]
Inner == T(<<F(B, "", St), F(X, "", In)>>)
Shapes == <<
  T(<<F(A, "", St), F(A, "key", In), F(B, "", Un), F(X, "", Fl), F(AX, "key", By)>>),
  T(<<F(A, "", L(St)), F(A, "key", L(In)), F(AB, "", L(St)), F(AcB, "", L(Un)), F(AnB, "", L(St))>>),
  T(<<F(A, "", Inner), F(B, "", St)>>),
  T(<<F(A, "", L(Inner)), F(AsX, "key", L(Fl)), F(AorX, "", L(By))>>),
  T(<<F(A, "", T(<<F(B, "", T(<<F(AX, "key", St), F(X, "", L(St))>>))>>))>>),
  T(<<F(X, "", L(T(<<F(A, "", L(T(<<F(B, "", St)>>)))>>)))>>)
>>
Kinds == DOMAIN Shapes

DInit == /\ Init0 /\ k = 0
         /\ ps \in UNION {Forest(n) : n \in 0..NE}
         /\ es \in [DOMAIN ps -> Tags \X Classes]
DNext == k < Len(Shapes) /\ k' = k + 1 /\ UNCHANGED <<ps, es, viol>>
DSpec == DInit /\ [][DNext]_<<ps, es, k, viol>>

Val == Value(Doc, 1, Shapes[k], "")
Sels == {A, B, X, AX, AB, AcB, AnB, AsX, AorX}
(* facts *)
Order == k = 0 => \A s \in Sels, n \in DOMAIN Doc :
           LET a == All(Doc, n, s) IN
           /\ \A i \in 1..Len(a) - 1 : a[i] < a[i + 1]
           /\ ToSet(a) \subseteq Inside(Doc, n)
           /\ (First(Doc, n, s) = 0) <=> (a = <<>>)
           /\ ToSet(a) = ToSet(All(Doc, 1, s)) \cap Inside(Doc, n)
Combinators == k = 0 =>
           /\ ToSet(All(Doc, 1, AB)) = UNION {ToSet(All(Doc, n, B)) : n \in ToSet(All(Doc, 1, A))}
           /\ ToSet(All(Doc, 1, AcB)) = {m \in ToSet(All(Doc, 1, B)) : Match(Doc, Doc[m].p, A)}
           /\ ToSet(All(Doc, 1, AX)) = ToSet(All(Doc, 1, A)) \cap ToSet(All(Doc, 1, X))
           /\ ToSet(All(Doc, 1, AnB)) \subseteq ToSet(All(Doc, 1, B))
Texts == k = 0 => \A n \in DOMAIN Doc : Len(Text(Doc, n)) = Cardinality({m \in Inside(Doc, n) \cup {n} : Doc[m].k = "t"})
Fields == k = 4 => /\ Len(Val[1]) = Len(All(Doc, 1, A))
                   /\ \A i \in DOMAIN Val[1] : (Val[1][i][1] = <<>>) <=> (All(Doc, All(Doc, 1, A)[i], B) = <<>>)
Missing == (k = 3 /\ First(Doc, 1, A) = 0) => Val[1] = << <<>>, Num0 >>
Sound == k > 0 => ~Bad(Shapes[k])
Out == (k > 0) => PrintT("CASE " \o ToJson([d |-> Doc, t |-> Shapes[k]]))
=============================================================================
