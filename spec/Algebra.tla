------------------------------ MODULE Algebra ------------------------------
(***************************************************************************)
(* Vectors and matrices as mathematical objects, and the operations that   *)
(* the sparse and dense representations offer.  A vector is a sequence of  *)
(* rationals; a matrix is [nr, nc, a] with a its sequence of rows.         *)
(* Operations are records [op, i, x, o]: indices from 0, scalars, and a    *)
(* second operand.                                                         *)
(***************************************************************************)
EXTENDS Rat, FiniteSets

In(q, e) == \E k \in 1..Len(q) : q[k] = e
Keep(v, idx) == LET js == SelectSeq([j \in 1..Len(v) |-> j], LAMBDA j : ~In(idx, j - 1)) IN [k \in 1..Len(js) |-> v[js[k]]]

\* The vector after an operation
VecAfter(v, op) ==
    CASE op.op = "push" -> Append(v, op.x[1])
      [] op.op = "set" -> [v EXCEPT ![op.i[1] + 1] = op.x[1]]
      [] op.op = "remove" -> Keep(v, op.i)
      [] op.op = "add" -> RAxpy(op.x[1], op.o, v)
      [] op.op \in {"shift", "shiftm"} -> [v EXCEPT ![op.i[1] + 1] = RAdd(v[op.i[1] + 1], op.x[1])]
      [] op.op = "mul" -> RVScale(op.x[1], v)
      [] op.op = "div" -> RVScale(RDiv(R1, op.x[1]), v)
      [] op.op = "extend" -> v \o RVZero(op.i[1])
      [] op.op = "extendv" -> v \o op.o
      [] op.op = "iter" -> op.o
      [] op.op = "basis" -> RUnit(op.i[2], op.i[1] + 1)
      [] op.op = "constant" -> [k \in 1..op.i[1] |-> op.x[1]]
      [] op.op \in {"new", "dot", "dotd", "norm"} -> v
\* What an operation answers: <<>> or <<r>>.  (The second operand of an inner product may
\* have another length: only common indices count.)
Common(u, v) == LET n == IF Len(u) < Len(v) THEN Len(u) ELSE Len(v) IN RDot(SubSeq(u, 1, n), SubSeq(v, 1, n))
VecAnswer(v, op) ==
    CASE op.op \in {"dot", "dotd"} -> <<Common(v, op.o)>>
      [] op.op = "norm" -> <<RNorm2(v)>>
      [] OTHER -> <<>>
\* Operations that make sense
VecCan(v, op) ==
    CASE op.op \in {"set", "shift", "shiftm"} -> op.i[1] < Len(v)
      [] op.op = "remove" -> Len(op.i) < Len(v) /\ \A k \in 1..Len(op.i) : op.i[k] < Len(v)
      [] op.op \in {"add", "dotd"} -> Len(op.o) = Len(v)
      [] OTHER -> TRUE

Mat(nr, nc, a) == [nr |-> nr, nc |-> nc, a |-> a]
MatAfter(M, op) ==
    CASE op.op = "setm" -> Mat(M.nr, M.nc, [M.a EXCEPT ![op.i[1] + 1] = [@ EXCEPT ![op.i[2] + 1] = op.x[1]]])
      [] op.op = "rmrows" -> LET a == Keep(M.a, op.i) IN Mat(Len(a), M.nc, a)
      [] op.op = "rmcols" -> Mat(M.nr, M.nc - Len(op.i), [k \in 1..M.nr |-> Keep(M.a[k], op.i)])
      [] op.op = "below" -> Mat(M.nr + Len(op.o), M.nc, M.a \o op.o)
      [] op.op = "beside" -> Mat(M.nr, M.nc + op.i[1], [k \in 1..M.nr |-> M.a[k] \o op.o[k]])
      [] op.op = "signs" -> Mat(M.nr, M.nc, [k \in 1..M.nr |-> IF In(op.i, k - 1) THEN RVNeg(M.a[k]) ELSE M.a[k]])
      [] op.op = "data" -> Mat(Len(op.o), op.i[1], op.o)
      [] op.op = "identity" -> Mat(op.i[1], op.i[1], RIdentity(op.i[1]))
      [] op.op \in {"new", "flip"} -> M
=============================================================================
