----------------------------- MODULE LattRaysGen -----------------------------
(* Builds cones by rays: vectors above a hyperplane, then unimodular         *)
(* substitutions, redundant and longer rays, and embeddings into a higher    *)
(* dimension.                                                                *)
EXTENDS LattRays, Json
CONSTANTS MinD, MaxD, Extra, W, Steps, Embed, Thick
VARIABLES n, rays, d, fuel
gvars == <<n, rays, d, fuel>>
RE(S) == RandomElement(S)
MapRays(f(_)) == rays' = [i \in DOMAIN rays |-> f(rays[i])]
GenInit == n = 0 /\ rays = <<>> /\ d = 0 /\ fuel = Steps
Distinct(q) == \A i, j \in DOMAIN q : i < j => Primitive(q[i]) # Primitive(q[j])
Start ==
  \E e \in {RE(MinD..MaxD)}, h \in {RE(1..Thick)}, sm \in {RE(1..3)} : \E m \in {e + RE(0..Extra)} :
    \E q \in {[i \in 1..m |-> TLCEval([k \in 1..e |-> IF k = e THEN RE(1..h) ELSE IF sm = 1 THEN RE({-1, 0, 1}) ELSE RE(-W..W)])]} :
      LET u == SelectSeq([i \in 1..m |-> IF \E j \in 1..(i - 1) : Primitive(q[j]) = Primitive(q[i]) THEN <<>> ELSE Primitive(q[i])], LAMBDA x : x # <<>>)
      IN rays' = u /\ n' = e /\ d' = e
ShearStep ==
  \E i \in {RE(1..n)}, j \in {RE(1..n)}, k \in {RE({-2, -1, 1, 2})} :
    IF i = j THEN MapRays(LAMBDA r : [r EXCEPT ![i] = -@]) ELSE MapRays(LAMBDA r : [r EXCEPT ![i] = @ + k * r[j]])
SumStep == \E i \in {RE(DOMAIN rays)}, j \in {RE(DOMAIN rays)} :
  LET s == Primitive(AddV(rays[i], rays[j])) IN rays' = IF \E k \in DOMAIN rays : Primitive(rays[k]) = s THEN rays ELSE Append(rays, s)
LongStep == \E i \in {RE(DOMAIN rays)}, k \in {RE(2..3)} : rays' = [rays EXCEPT ![i] = ScaleV(k, @)]
ShuffleStep == \E i \in {RE(DOMAIN rays)} : rays' = <<rays[i]>> \o DropAt(rays, i)
EmbedStep == \E a \in {[k \in 1..n |-> RE(-1..1)]}, m \in {RE({1, 1, 2})} :
  /\ rays' = [i \in DOMAIN rays |-> Append(ScaleV(m, rays[i]), Dot(a, rays[i]))] /\ n' = n + 1 /\ UNCHANGED d
GenNext ==
  /\ fuel > 0 /\ fuel' = fuel - 1
  /\ IF rays = <<>> THEN Start
     ELSE \E w \in {RE(1..12)} :
            IF w <= 4 THEN ShearStep /\ UNCHANGED <<n, d>>
            ELSE IF w <= 6 THEN SumStep /\ UNCHANGED <<n, d>>
            ELSE IF w = 7 THEN LongStep /\ UNCHANGED <<n, d>>
            ELSE IF w <= 9 /\ Embed /\ n <= d + 1 THEN EmbedStep
            ELSE ShuffleStep /\ UNCHANGED <<n, d>>
  /\ (fuel' = 0 => PrintT("CASE " \o ToJson([n |-> n', rays |-> rays',
        weights |-> [k \in 1..10 |-> [i \in DOMAIN rays' |-> RE({0, 0} \cup {RE(1..40)})]]])))
GenSpec == GenInit /\ [][GenNext]_gvars
(* every generated cone is pointed: facet normals add up to a positive functional *)
StaysPointed ==
  rays # <<>> /\ Len(rays) <= 6 =>
    LET f == TLCEval(Frame(rays, n))
        Rs == [i \in DOMAIN rays |-> Coordinates(rays[i], f.I)]
        F == ConeFacets(Rs, f.d)
        g == Grading(F, f.d)
    IN \A i \in DOMAIN Rs : Dot(g, Rs[i]) > 0
=============================================================================
