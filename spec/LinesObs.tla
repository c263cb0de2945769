------------------------------ MODULE LinesObs ------------------------------
(***************************************************************************)
(* C23: the JSON scraper. Pages are scraped, some at the same time, into   *)
(* one writer. The first field of every document names its scrape, so that *)
(* a line says whose it is.                                                *)
(*   type   t, struct, sels        the scraper of this run                 *)
(*   sc     o, d, base, body       a scrape starts; body = FALSE: the page *)
(*                                 cannot be read                          *)
(*   line   ok, v                  the writer took a complete line         *)
(*   wfail                         the writer failed                       *)
(*   ret    o, err, werr, r        a scrape returned                       *)
(***************************************************************************)
EXTENDS ScanObs
VARIABLES shape, sels, open, lines, failed
lvars == <<viol, shape, sels, open, lines, failed>>

LInit == viol = {} /\ shape = [k |-> "no"] /\ sels = <<>> /\ open = <<>> /\ lines = <<>> /\ failed = FALSE
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
RECURSIVE AllOf(_, _, _)
AllOf(d, ss, i) == IF i > Len(ss) THEN <<>> ELSE Hrefs(d, All(d, 1, ss[i])) \o AllOf(d, ss, i + 1)
Links(d) == IF sels = <<>> THEN Hrefs(d, All(d, 1, AnchorSel)) ELSE AllOf(d, sels, 1)

Fails == shape.k # "st" \/ Bad(shape)
(* the scrape a line is of, by its first field: a number *)
Of(v) == {o \in DOMAIN open : Value(open[o].d, 1, shape, "")[1] = v[1]}
Line(e) ==
  IF failed THEN UNCHANGED <<viol, lines>>
  ELSE IF ~e.ok THEN viol' = viol \cup {<<"C23", "a line is no complete JSON value of one page">>} /\ UNCHANGED lines
  ELSE IF Fails THEN viol' = viol \cup {<<"C23", "a line for a type that is no struct or cannot be scanned">>} /\ UNCHANGED lines
  ELSE IF Of(e.v) = {} THEN viol' = viol \cup {<<"C23", "a line of no page that is being scraped">>} /\ UNCHANGED lines
  ELSE LET o == CHOOSE o \in Of(e.v) : TRUE IN
       /\ lines' = With(lines, o, lines[o] + 1)
       /\ viol' = viol \cup V("C23", lines[o] = 0, "a second line for a page")
                       \cup V("C23", open[o].body, "a line for a page that could not be read")
                       \cup V("C23", Unclear(open[o].d, 1, shape) \/ Agree(shape, e.v, Value(open[o].d, 1, shape, "")), "a line does not hold the page's data")

Ret(e) ==
  LET o == e.o  s == open[o] IN
  /\ open' = Without(open, o) /\ lines' = Without(lines, o)
  /\ viol' = viol \cup
       (IF Fails \/ ~s.body THEN V("C23", e.err, "scraping a page that cannot be read or scanned gives no error")
                                 \cup V("C23", lines[o] = 0, "a failed scrape wrote a line")
        ELSE IF e.err /\ (Unclear(s.d, 1, shape) \/ Vague(shape, Value(s.d, 1, shape, "")))
        THEN {}      \* floats that may be infinite cannot be written in JSON
        ELSE IF e.err THEN V("C23", failed, "a scrape fails without a reason")
                           \cup V("C23", failed => e.werr, "a scrape does not return the writer's error")
        ELSE V("C23", lines[o] = 1, "a scrape returned without having written its line")
             \cup V("C23", U!LinksAre(U!Parse(s.base), Links(s.d), e.r), "a scrape returns other links than its selectors match"))

LStep(e) ==
  CASE e.e = "begin" -> viol' = {} /\ shape' = [k |-> "no"] /\ sels' = <<>> /\ open' = <<>> /\ lines' = <<>> /\ failed' = FALSE
    [] e.e = "type" -> shape' = e.t /\ sels' = e.sels /\ UNCHANGED <<viol, open, lines, failed>>
    [] e.e = "sc" -> /\ open' = With(open, e.o, [d |-> e.d, base |-> e.base, body |-> e.body])
                     /\ lines' = With(lines, e.o, 0) /\ UNCHANGED <<viol, shape, sels, failed>>
    [] e.e = "line" -> Line(e) /\ UNCHANGED <<shape, sels, open, failed>>
    [] e.e = "wfail" -> failed' = TRUE /\ UNCHANGED <<viol, shape, sels, open, lines>>
    [] e.e = "ret" -> Ret(e) /\ UNCHANGED <<shape, sels, failed>>
    [] e.e \in {"stuck", "hang"} -> viol' = viol \cup {<<"C23", "a scrape never returns">>} /\ UNCHANGED <<shape, sels, open, lines, failed>>
    [] e.e = "panic" -> viol' = viol \cup {<<"C23", "panics">>} /\ UNCHANGED <<shape, sels, open, lines, failed>>
    [] OTHER -> UNCHANGED lvars
=============================================================================
