------------------------------- MODULE KernelSym -------------------------------
(* The dihedral group of the square, extended by the change of sign of the aberration, acting on (a) signed Zernike terms, (b) kernel pixels.  *)
(* A kernel is K(a)[d] with the pixel d = <<di, dj>> relative to the centre; equivariance is K(g.a)[g.d] = K(a)[d].  The machine walks over the  *)
(* group by its generators  r (quarter of turn of the pupil), f (mirror phi -> -phi), c (sign of the aberration).                                  *)
EXTENDS ZernDefs, TLC, Json
CONSTANTS MaxN,              \* radial orders of the terms
          Half               \* pixels -Half..Half

(* a term is <<m, sign>>: sign * cos(m phi) for m >= 0 and sign * sin(|m| phi) for m < 0; the radial part is not touched *)
(* quarter of turn: the aberration a(phi) becomes a(phi - 90 deg) *)
RotTerm(t) == LET m == t[1] s == t[2] q == Abs(m) % 4 IN
              CASE q = 0 -> t
                [] q = 2 -> <<m, -s>>
                [] q = 1 -> IF m > 0 THEN <<-m, s>> ELSE <<-m, -s>>           \* cos(phi - 90) = sin phi; sin(phi - 90) = -cos phi
                [] q = 3 -> IF m > 0 THEN <<-m, -s>> ELSE <<-m, s>>           \* cos(3 phi - 270) = -sin 3phi; sin(3 phi - 270) = cos 3phi
FlipTerm(t) == IF t[1] < 0 THEN <<t[1], -t[2]>> ELSE t
NegTerm(t) == <<t[1], -t[2]>>
(* pixels: angle of the pixel is atan2(di, dj) + 180 deg *)
RotPix(d) == <<d[2], -d[1]>>                      \* the angle grows by 90 deg: (x, y) = (dj, di) -> (-y, x)
FlipPix(d) == <<-d[1], d[2]>>
NegPix(d) == <<-d[1], -d[2]>>                     \* the conjugate field: K(-a) at the opposite pixel

Pixels == {<<i, j>> : i \in (-Half)..Half, j \in (-Half)..Half}
Ms == (-MaxN)..MaxN
VARIABLES word,              \* generators applied so far
          tmap, pmap         \* images of all terms and pixels under the group element
vars == <<word, tmap, pmap>>
Init == word = <<>> /\ tmap = [m \in Ms |-> <<m, 1>>] /\ pmap = [d \in Pixels |-> d]
Apply(g, ft(_), fp(_)) == word' = Append(word, g) /\ tmap' = [m \in Ms |-> ft(tmap[m])] /\ pmap' = [d \in Pixels |-> fp(pmap[d])]
Next == Apply("r", RotTerm, RotPix) \/ Apply("f", FlipTerm, FlipPix) \/ Apply("c", NegTerm, NegPix)
View == <<tmap, pmap>>
(* pixels alone: the action of c on pixels equals that of r twice, so that the group of pairs has 16 elements *)
Faithful == \A m \in Ms : Abs(tmap[m][1]) = Abs(m) /\ tmap[m][2] \in {1, -1}
Bijective == {pmap[d] : d \in Pixels} = Pixels
Isometric == \A d \in Pixels : pmap[d][1] * pmap[d][1] + pmap[d][2] * pmap[d][2] = d[1] * d[1] + d[2] * d[2]
(* consequences named in the property: an element that fixes a term makes the kernel of this term symmetric *)
Fixes(m) == tmap[m] = <<m, 1>>
EvenCentral == /\ \A m \in Ms : RotTerm(RotTerm(<<m, 1>>)) = <<m, IF m % 2 = 0 THEN 1 ELSE -1>>
               /\ \A d \in Pixels : RotPix(RotPix(d)) = NegPix(d)
CosMirror == \A m \in Ms : m >= 0 => FlipTerm(<<m, 1>>) = <<m, 1>>
OddSineMirror == \A m \in Ms : (m < 0 /\ m % 2 # 0) => FlipTerm(RotTerm(RotTerm(<<m, 1>>))) = <<m, 1>>
                                     /\ \A d \in Pixels : FlipPix(RotPix(RotPix(d))) = <<d[1], -d[2]>>
Relations == /\ \A m \in Ms : RotTerm(RotTerm(RotTerm(RotTerm(<<m, 1>>)))) = <<m, 1>> /\ FlipTerm(RotTerm(FlipTerm(RotTerm(<<m, 1>>)))) = <<m, 1>>
             /\ \A d \in Pixels : RotPix(RotPix(RotPix(RotPix(d)))) = d /\ FlipPix(RotPix(FlipPix(RotPix(d)))) = d
TermSeq == [i \in 1..(2 * MaxN + 1) |-> <<i - 1 - MaxN, tmap[i - 1 - MaxN][1], tmap[i - 1 - MaxN][2]>>]
Emit == PrintT(ToJson([word |-> word, terms |-> TermSeq, pixels |-> {<<d[1], d[2], pmap[d][1], pmap[d][2]>> : d \in Pixels},
                       fixed |-> {m \in Ms : Fixes(m)}]))
=================================================================================
