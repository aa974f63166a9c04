-------------------------------- MODULE SizeLaws --------------------------------
(* Laws of the estimated kernel size.  The estimation is empirical, but it is a function of the aberration and of the optics only: the sign of a *)
(* coefficient, the orientation of a polynomial, the order in which terms are listed and the unit of length are irrelevant; smaller pixels and   *)
(* additional terms never make the kernel smaller.                                                                                               *)
(* State: a physical configuration.  Actions: the changes whose effect on the size is known.                                                     *)
EXTENDS ZernDefs, Sequences, FiniteSets, TLC, Json
CONSTANTS Pols,        \* pool of polynomials as <<l, n>>, l >= 0
          Coefs,       \* absolute values of coefficients, in 1/64 of the wavelength
          MaxTerms, NAs, Pixels     \* NA in 1/100; pixel in 1/64 of the largest one allowed (Nyquist)
VARIABLES terms,       \* sequence of [m, n, c]
          optics,      \* [na, pix, unit]: unit is the power of two that all lengths are multiplied with
          law          \* what the last step says about the size: "start", "same", "notless"
vars == <<terms, optics, law>>
Term(p, c) == [m |-> p[1], n |-> p[2], c |-> c]
Init == /\ law = "start" /\ optics \in [na : NAs, pix : Pixels, unit : {0}]
        /\ \E k \in 1..MaxTerms : \E ps \in [1..k -> Pols], cs \in [1..k -> Coefs] :
              /\ \A i, j \in 1..k : i # j => ps[i] # ps[j]
              /\ terms = [i \in 1..k |-> Term(ps[i], cs[i])]
First == law = "start"
Flip == /\ First /\ \E I \in SUBSET (1..Len(terms)) : terms' = [i \in 1..Len(terms) |-> IF i \in I THEN [terms[i] EXCEPT !.c = -@] ELSE terms[i]]
        /\ law' = "same" /\ UNCHANGED optics
Turn == /\ First /\ \E I \in SUBSET {i \in 1..Len(terms) : terms[i].m # 0} :
                       terms' = [i \in 1..Len(terms) |-> IF i \in I THEN [terms[i] EXCEPT !.m = -@] ELSE terms[i]]
        /\ law' = "same" /\ UNCHANGED optics
Swap == /\ First /\ \E i, j \in 1..Len(terms) : i < j /\ terms' = [terms EXCEPT ![i] = terms[j], ![j] = terms[i]]
        /\ law' = "same" /\ UNCHANGED optics
Unit == /\ First /\ \E u \in {-3, 5} : optics' = [optics EXCEPT !.unit = u]
        /\ law' = "same" /\ UNCHANGED terms
Finer == /\ First /\ \E p \in Pixels : p < optics.pix /\ optics' = [optics EXCEPT !.pix = p]
         /\ law' = "notless" /\ UNCHANGED terms
More == /\ First /\ Len(terms) < MaxTerms
        /\ \E p \in Pols, c \in Coefs : (\A i \in 1..Len(terms) : <<terms[i].m, terms[i].n>> # p) /\ terms' = Append(terms, Term(p, c))
        /\ law' = "notless" /\ UNCHANGED optics
Next == Flip \/ Turn \/ Swap \/ Unit \/ Finer \/ More
(* the invariant part of a configuration, that a size may depend on *)
Essence(ts, o) == <<{<<Abs(ts[i].m), ts[i].n, Abs(ts[i].c)>> : i \in 1..Len(ts)}, Len(ts), o.na, o.pix>>
SameEssence == [][law' = "same" => Essence(terms', optics') = Essence(terms, optics)]_vars
Grows == [][law' = "notless" => (Essence(terms, optics)[1] \subseteq Essence(terms', optics')[1] /\ optics'.pix <= optics.pix)]_vars
Edge == law = "start" => PrintT(ToJson([t |-> terms, o |-> optics, t2 |-> terms', o2 |-> optics', law |-> law']))
Spec == Init /\ [][Next]_vars
=================================================================================
