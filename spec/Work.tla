-------------------------------- MODULE Work --------------------------------
(***************************************************************************)
(* Documented growth of the algorithms, as bounds on the number of         *)
(* predicates plus comparisons evaluated for an input of size n producing  *)
(* a result of size h.  The constants are generous (about five times what  *)
(* is needed): an extra pass is fine, a different growth is not.           *)
(***************************************************************************)
EXTENDS Integers
RECURSIVE Log2Up(_)
Log2Up(n) == IF n <= 1 THEN 0 ELSE 1 + Log2Up((n + 1) \div 2)
WorkBound(op, n, h) ==
  CASE op = "convex-locate" -> 4 * Log2Up(n) + 24
    [] op \in {"triangle", "orient"} -> 40
    [] op = "graham" -> 24 * n * Log2Up(n) + 60
    [] op = "gift" -> 8 * n * (h + 1) + 60
    [] op = "melkman" -> 40 * n + 60
    [] op = "locate" -> 30 * n + 60
    [] op = "bounding-box" -> 20 * n + 40
    [] op = "is-ear" -> 20 * n + 40
    [] op \in {"validate", "new"} -> 20 * n * n + 100
    [] op \in {"earclip", "triangulate"} -> 16 * n * n + 100
=============================================================================
