-------------------------------- MODULE Dcg --------------------------------
(* Grammar rules: the textbook translation of a rule H --> B into a clause  *)
(* over pairs of (input, rest) lists.  Every terminal, {}, ! and [] becomes *)
(* an explicit unification executed where it stands.                        *)
EXTENDS Terms

Eq(x, y) == S("=", <<x, y>>)
Conj(x, y) == S(",", <<x, y>>)
AddTwo(g, x, y) == IF g[1] = "s" THEN S(g[2], g[3] \o <<x, y>>) ELSE S(g[2], <<x, y>>)
(* The body as a goal relating s0 to s: [t, n, e]; n: variables in use,     *)
(* e: <<>> or the error of the translation                                  *)
RECURSIVE DcgBody(_, _, _, _, _)
DcgBody(g0, s0, s, b, n) ==
  LET g == Deref(g0, b)
      ok(t) == [t |-> t, n |-> n, e |-> <<>>]
      bad(e) == [t |-> Nil, n |-> n, e |-> e]
      seq(x, y, f) ==                       \* x then y through a fresh list variable
        LET l == DcgBody(x, s0, V(n + 1), b, n + 1) IN
        IF l.e # <<>> THEN l ELSE
        LET r == DcgBody(y, V(n + 1), s, b, l.n) IN
        IF r.e # <<>> THEN r ELSE [t |-> S(f, <<l.t, r.t>>), n |-> r.n, e |-> <<>>]
  IN
  IF IsV(g) THEN ok(S("phrase", <<g, s0, s>>))
  ELSE IF g = Nil THEN ok(Eq(s0, s))
  ELSE IF IsCons(g) THEN
    LET l == AsList(g, b) IN
    IF l.kind = "list" THEN ok(Eq(s0, ListOf(l.items, s)))
    ELSE IF l.kind = "partial" THEN bad(A("instantiation_error"))
    ELSE bad(S("type_error", <<A("list"), g>>))
  ELSE IF ~IsCallable(g) THEN bad(S("type_error", <<A("callable"), g>>))
  ELSE IF IsF(g, ",", 2) THEN seq(g[3][1], g[3][2], ",")
  ELSE IF IsF(g, "->", 2) \/ IsF(g, "*->", 2) THEN seq(g[3][1], g[3][2], g[2])
  ELSE IF IsF(g, ";", 2) \/ IsF(g, "|", 2) THEN
    LET l == DcgBody(g[3][1], s0, s, b, n) IN
    IF l.e # <<>> THEN l ELSE
    LET r == DcgBody(g[3][2], s0, s, b, l.n) IN
    IF r.e # <<>> THEN r ELSE [t |-> S(";", <<l.t, r.t>>), n |-> r.n, e |-> <<>>]
  ELSE IF IsF(g, "\\+", 1) THEN
    LET l == DcgBody(g[3][1], s0, V(n + 1), b, n + 1) IN
    IF l.e # <<>> THEN l ELSE [t |-> Conj(S("\\+", <<l.t>>), Eq(s0, s)), n |-> l.n, e |-> <<>>]
  ELSE IF g = A("!") THEN ok(Conj(A("!"), Eq(s0, s)))
  ELSE IF IsF(g, "{}", 1) THEN ok(Conj(g[3][1], Eq(s0, s)))
  ELSE ok(AddTwo(g, s0, s))

(* The clause of a rule: [h, b, n, e].                                      *)
DcgRule(h0, b0, b, n) ==
  LET h == Deref(h0, b)
      pb == IsF(h, ",", 2)
      nt == IF pb THEN Deref(h[3][1], b) ELSE h
      push == IF pb THEN AsList(h[3][2], b) ELSE AsList(Nil, b)
      s0 == V(n + 1)
      s == V(n + 2)
      s1 == IF pb THEN V(n + 3) ELSE s
      body == DcgBody(b0, s0, s1, b, n + 3)
      bad(e) == [h |-> Nil, b |-> Nil, n |-> n, e |-> e]
      perr == IF ~pb \/ push.kind = "list" THEN <<>> ELSE IF push.kind = "partial" THEN A("instantiation_error")
              ELSE S("type_error", <<A("list"), IF push.items = <<>> THEN push.tail ELSE Resolve(h[3][2], b)>>)
      nerr == IF IsV(nt) THEN A("instantiation_error") ELSE IF ~IsCallable(nt) THEN S("type_error", <<A("callable"), nt>>) ELSE <<>>
  IN
  IF IsV(h) THEN bad(A("instantiation_error"))
  ELSE IF ~IsCallable(h) THEN bad(S("type_error", <<A("callable"), h>>))
  ELSE IF Cardinality({e \in {perr, nerr, body.e} : e # <<>>}) > 1 THEN bad(A("$open"))     \* which of several errors is reported is left open
  ELSE IF perr # <<>> THEN bad(perr)
  ELSE IF nerr # <<>> THEN bad(nerr)
  ELSE IF body.e # <<>> THEN bad(body.e)
  ELSE [h |-> AddTwo(nt, s0, s), b |-> IF pb THEN Conj(body.t, Eq(s, ListOf(push.items, s1))) ELSE body.t, n |-> body.n, e |-> <<>>]
=============================================================================
