------------------------------- MODULE TwoOpt -------------------------------
(***************************************************************************)
(* Untangling of closed tours (cyclic sequences of distinct points).       *)
(* Two moves:                                                              *)
(*  Uncross  exchanges two edges ab, cd that meet for ac, bd               *)
(*  Hoist    takes a vertex k that lies inside another edge ef out of its  *)
(*           place (p k n becomes p n) and puts it between e and f.        *)
(* Both shorten the tour.  Used by the design model (TwoOptModel) and to   *)
(* judge tours recorded from the real code (C11).                          *)
(***************************************************************************)
EXTENDS Geom

Edges(T) == {{T[i], T[Nx(T, i)]} : i \in 1..Len(T)}
(* edges i < j of the tour share a point other than a common vertex        *)
TourEdgesMeet(T, i, j) ==
  LET a == T[i] b == T[Nx(T, i)] c == T[j] d == T[Nx(T, j)]
  IN Meets(a, a \notin {c, d}, b, b \notin {c, d}, c, c \notin {a, b}, d, d \notin {a, b})
Tangles(T) == {<<i, j>> \in (1..Len(T)) \X (1..Len(T)) : i < j /\ TourEdgesMeet(T, i, j)}

DoUncross(T, i, j) == \* reverse T[i+1 .. j]
  [k \in 1..Len(T) |-> IF k > i /\ k <= j THEN T[i + 1 + j - k] ELSE T[k]]
DoHoist(T, k, e) == \* vertex k goes between e and its successor
  LET n == Len(T)
      R == [x \in 1..(n - 1) |-> T[((k + x - 1) % n) + 1]] \* the others, from k's successor on
      pos == (e - k + n) % n                                \* e is R[pos]
  IN [x \in 1..n |-> IF x <= pos THEN R[x] ELSE IF x = pos + 1 THEN T[k] ELSE R[x - 1]]
CanHoist(T, k, e) ==
  /\ k # e /\ k # Nx(T, e)
  /\ OnSeg(T[k], T[e], FALSE, T[Nx(T, e)], FALSE)
  /\ ~OnClosed(T[k], T[Pv(T, k)], T[Nx(T, k)])
CanUncross(T, i, j) ==
  /\ TourEdgesMeet(T, i, j)
  /\ Crs(Sub(T[Nx(T, i)], T[i]), Sub(T[Nx(T, j)], T[j])) # 0

-----------------------------------------------------------------------------
(* Does T2 come from T1 by one (or several fused) shortening moves?        *)
RECURSIVE ISqrtIn(_, _, _)
ISqrtIn(v, lo, hi) == \* largest r in lo..hi with r*r <= v
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= v THEN ISqrtIn(v, m, hi) ELSE ISqrtIn(v, lo, m - 1)
Milli(T) == \* floor of 500 * edge length, summed (coordinates up to 60)
  SumFT([i \in 1..Len(T) |-> ISqrtIn(250000 * Dist2(T[i], T[Nx(T, i)]), 0, 46340)], 1, Len(T))

OneUncross(R, A) ==
  /\ Cardinality(R) = 2
  /\ \E a, b, c, d \in UNION R :
       /\ R = {{a, b}, {c, d}} /\ A = {{a, c}, {b, d}}
       /\ MeetsClosed(a, b, c, d)
       /\ Cardinality({a, b, c, d}) = 4 /\ ~AllColinear({a, b, c, d})
OneHoist(T1, R, A) ==
  \E k \in 1..Len(T1), e \in 1..Len(T1) :
    /\ CanHoist(T1, k, e)
    /\ LET p == T1[Pv(T1, k)] n == T1[Nx(T1, k)] v == T1[k] x == T1[e] y == T1[Nx(T1, e)]
           del == {{p, v}, {v, n}, {x, y}} ins == {{p, n}, {x, v}, {v, y}}
       IN R = del \ ins /\ A = ins \ del
Shortens(T1, T2) ==
  LET E1 == Edges(T1) E2 == Edges(T2) R == E1 \ E2 A == E2 \ E1
  IN \/ OneUncross(R, A)
     \/ OneHoist(T1, R, A)
     \/ R # A /\ Milli(T2) < Milli(T1) + Len(T1)
=============================================================================
