---------------------------------- MODULE Memo ----------------------------------
(* Purity of the evaluation.  The library remembers coefficients between calls; callers own the arrays that they pass and receive.          *)
(* State: the coefficient memory, the contents of every array the caller holds (inputs and results).  Actions: evaluate polynomial p by a   *)
(* method on an input array; overwrite ("scribble") one of the caller's arrays.                                                            *)
(* Design properties: the memory is sound in every reachable state (each remembered row is the true one, so no result depends on history), *)
(* and an action changes exactly the arrays it is meant to change (no sharing).                                                           *)
EXTENDS ZernDefs, TLC, Json

CONSTANTS Polys,        \* ids of polynomials; id p stands for the key (order offset) Key(p)
          Methods,      \* subset of {"value", "radial", "radial_dr", "angular", "angular_dt"}; the last two need no coefficients
          Inputs,       \* number of input arrays
          Depth         \* length of the histories

VARIABLES memo,         \* [radial |-> partial function key -> coefficients, radial_dr |-> ...]
          inputs,       \* contents of the input arrays: 0 = original, 1 = overwritten version
          results,      \* sequence of <<p, method, version of the input, input>> or "scribbled"
          hist
vars == <<memo, inputs, results, hist>>

(* true coefficients by the recurrence, in the small: l, n <= 8 *)
RECURSIVE Coeff(_, _)
CoefAt(s, i) == IF i < 1 \/ i > Len(s) THEN 0 ELSE s[i]
Coeff(l, n) == IF l > n \/ l < 0 THEN <<>>
               ELSE IF n = l THEN <<1>>
               ELSE LET x == Coeff(Abs(l - 1), n - 1) y == Coeff(l + 1, n - 1) z == Coeff(l, n - 2)
                    IN [k \in 1..((n - l) \div 2 + 1) |-> CoefAt(x, k) + CoefAt(y, k) - CoefAt(z, k - 1)]
(* the same recursion consulting the memory first *)
RECURSIVE CoeffM(_, _, _)
CoeffM(l, n, mem) == IF l > n \/ l < 0 THEN <<>>
               ELSE IF <<l, n>> \in DOMAIN mem THEN mem[<<l, n>>]
               ELSE IF n = l THEN <<1>>
               ELSE LET x == CoeffM(Abs(l - 1), n - 1, mem) y == CoeffM(l + 1, n - 1, mem) z == CoeffM(l, n - 2, mem)
                    IN [k \in 1..((n - l) \div 2 + 1) |-> CoefAt(x, k) + CoefAt(y, k) - CoefAt(z, k - 1)]
Derive(c, n) == [k \in 1..Len(c) |-> c[k] * (n - 2 * (k - 1))]
Key(p) == CASE p = 1 -> <<0, 4>> [] p = 2 -> <<1, 5>> [] p = 3 -> <<2, 6>> [] p = 4 -> <<0, 6>> [] OTHER -> <<1, 3>>
Extend(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Init == /\ memo = [radial |-> [x \in {} |-> <<>>], radial_dr |-> [x \in {} |-> <<>>]]
        /\ inputs = [i \in 1..Inputs |-> 0] /\ results = <<>> /\ hist = <<>>
Eval(p, meth, i) ==
   LET k == Key(p) IN
   /\ Len(hist) < Depth
   /\ memo' = IF meth \in {"angular", "angular_dt"} THEN memo
              ELSE IF meth = "radial_dr" THEN [memo EXCEPT !.radial_dr = Extend(@, k, Derive(CoeffM(k[1], k[2], memo.radial), k[2]))]
                                    ELSE [memo EXCEPT !.radial = Extend(@, k, CoeffM(k[1], k[2], @))]
   /\ results' = Append(results, [p |-> p, meth |-> meth, i |-> i, ver |-> inputs[i], ok |-> TRUE])
   /\ inputs' = inputs
   /\ hist' = Append(hist, [a |-> "eval", p |-> p, meth |-> meth, i |-> i])
ScribbleResult(h) == /\ Len(hist) < Depth - 1 /\ h \in 1..Len(results) /\ results[h].ok
                     /\ results' = [results EXCEPT ![h].ok = FALSE]
                     /\ hist' = Append(hist, [a |-> "scribble", p |-> h, meth |-> "", i |-> 0]) /\ UNCHANGED <<memo, inputs>>
ScribbleInput(i) == /\ Len(hist) < Depth - 1 /\ Len(hist) > 0 /\ inputs[i] = 0
                    /\ inputs' = [inputs EXCEPT ![i] = 1]
                    /\ hist' = Append(hist, [a |-> "input", p |-> 0, meth |-> "", i |-> i]) /\ UNCHANGED <<memo, results>>
Next == \/ \E p \in Polys, meth \in Methods, i \in 1..Inputs : Eval(p, meth, i)
        \/ \E h \in 1..Depth : ScribbleResult(h)
        \/ \E i \in 1..Inputs : ScribbleInput(i)

MemoSound == /\ \A k \in DOMAIN memo.radial : memo.radial[k] = Coeff(k[1], k[2])
             /\ \A k \in DOMAIN memo.radial_dr : memo.radial_dr[k] = Derive(Coeff(k[1], k[2]), k[2])
(* what an evaluation would give in any state is the history-free value *)
HistoryFree == \A p \in Polys : CoeffM(Key(p)[1], Key(p)[2], memo.radial) = Coeff(Key(p)[1], Key(p)[2])
Owned == [][ /\ \A h \in 1..Len(results) : results'[h] # results[h] => (hist'[Len(hist')].a = "scribble" /\ hist'[Len(hist')].p = h)
             /\ \A i \in 1..Inputs : inputs'[i] # inputs[i] => hist'[Len(hist')].a = "input" ]_vars
Emit == Len(hist) = Depth => PrintT(ToJson([h |-> hist, r |-> results, i |-> inputs]))
=================================================================================
