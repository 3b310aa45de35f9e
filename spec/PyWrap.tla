------------------------------- MODULE PyWrap -------------------------------
(* Python objects around the objects of a skeleton and a motion.                *)
(*                                                                              *)
(* Things are what the library's user made: bones, tracks, skeletons, motions   *)
(* and lists of them, told by                                                   *)
(*   kind, name, a b (type and number), dur, ref (the parent, or the list of    *)
(*   bones or tracks), fresh (whether what is asked for is made anew for every  *)
(*   caller), items (of lists) and v (places, in quarters).                     *)
(* Python reaches them through objects, held by references.  An object stands   *)
(* for a thing it borrows (own 0) or owns (1), or for one made for it alone (2).*)
(* What is owned ends with the last reference to the object, and not before.    *)
(* Objects of lists know how far the loop over them is.                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Bone == 1
Bones == 2
Skel == 3
Skels == 4
Track == 5
Tracks == 6
Motion == 7
Motions == 8
TypeName(k) == <<"uni::Bone", "uni::BoneList", "uni::Skeleton", "uni::SkeletonList",
                 "uni::MotionTrack", "uni::MotionTrackList", "uni::Motion", "uni::MotionList">>[k]
Handles == 1..9
Empty == [w |-> <<>>, h |-> [x \in Handles |-> 0], o |-> <<>>]
Thing(s, i) == s.w[s.o[i].t]
Refs(s, i) == Cardinality({x \in Handles : s.h[x] = i})
\* the name an end is told by: of the thing itself, or of one made from it
EndOf(ob) == IF ob.own = 0 THEN <<>> ELSE <<ob.t + (IF ob.own = 2 THEN 1000 ELSE 0)>>
Put(s, x, t, own) ==
  [s EXCEPT !.o = Append(@, [t |-> t, own |-> own, it |-> 0, fps |-> s.w[t].b]),
            !.h[x] = Len(s.o) + 1]
\* a reference is let go: the state, and what ends
Drop(s, x) == [s EXCEPT !.h[x] = 0]
DropEnds(s, x) == IF Refs(s, s.h[x]) = 1 THEN EndOf(s.o[s.h[x]]) ELSE <<>>
Given(th) == IF th.fresh = 1 THEN 2 ELSE 0
IsList(th) == th.kind \in {Bones, Skels, Tracks, Motions}
\* item number n, counted from 0, of a list
Item(s, x, i, n) == Put(s, x, Thing(s, i).items[n + 1], Given(Thing(s, i)))
Has(s, i, n) == n >= 0 /\ n < Len(Thing(s, i).items)
Loop(s, i, at) == [s EXCEPT !.o[i].it = at]

-----------------------------------------------------------------------------
\* what an object answers to a name: a shape and values; "object" for others
Ans(shape, v) == [shape |-> shape, v |-> v]
None == Ans("none", <<>>)
Places(th, n, t) == [k \in 1..n |-> th.v[k] + k * t]
NoName == Ans("error", <<>>)
Transform(th) == CASE th.a = 0 -> Ans("444", Places(th, 12, 0))
                   [] th.a = 1 -> Ans("4444", Places(th, 16, 0))
                   [] OTHER -> None
\* the rate is kept by the thing, where that is not the object's own
RateOwner(s, i) == IF s.o[i].own = 2 THEN s.o[i].fps ELSE Thing(s, i).b
SetRate(s, i, r) == IF s.o[i].own = 2 THEN [s EXCEPT !.o[i].fps = r] ELSE [s EXCEPT !.w[s.o[i].t].b = r]
Attr(s, i, n) ==
  LET th == Thing(s, i) IN
  CASE th.kind \in {Bone, Skel, Motion} /\ n = "name" -> Ans("text", th.name)
    [] th.kind = Bone /\ n = "index" -> Ans("int", <<th.b>>)
    [] th.kind = Bone /\ n = "tm_type" -> Ans("int", <<th.a>>)
    [] th.kind = Bone /\ n = "transform" -> Transform(th)
    [] th.kind = Bone /\ n = "parent" -> IF th.ref = 0 THEN None ELSE Ans(TypeName(Bone), <<>>)
    [] th.kind = Skel /\ n = "bones" -> Ans(TypeName(Bones), <<>>)
    [] th.kind = Motion /\ n = "tracks" -> Ans(TypeName(Tracks), <<>>)
    [] th.kind = Motion /\ n = "duration" -> Ans("float", <<th.dur>>)
    [] th.kind = Motion /\ n = "motion_type" -> Ans("int", <<th.a>>)
    [] th.kind = Motion /\ n = "framerate" -> Ans("int", <<RateOwner(s, i)>>)
    [] th.kind = Track /\ n = "track_type" -> Ans("int", <<th.a>>)
    [] th.kind = Track /\ n = "bone_index" -> Ans("int", <<th.b>>)
    [] OTHER -> NoName
Others == {"parent", "bones", "tracks"}
\* the object a name leads to: parents are borrowed
Led(s, x, i, n) == Put(s, x, Thing(s, i).ref, IF n = "parent" THEN 0 ELSE Given(Thing(s, i)))
\* a track at a time
Value(th, t) ==
  CASE th.a \in {0, 1, 2} -> Ans("4", Places(th, 4, t))
    [] th.a = 3 -> Ans("4444", Places(th, 16, t))
    [] th.a = 4 -> Ans("444", Places(th, 12, t))
    [] OTHER -> Ans("float", Places(th, 1, t))
\* two bones are told apart unless they are one, or number and name are alike
Differ(s, i, j) == ~(\/ s.o[i].t = s.o[j].t /\ s.o[i].own # 2 /\ s.o[j].own # 2
                     \/ /\ Thing(s, i).b = Thing(s, j).b /\ Thing(s, i).name = Thing(s, j).name)
\* the enumerations of the library
Known == [uniBoneTMType |-> <<<<"TMTYPE_RTS", 0>>, <<"TMTYPE_MATRIX", 1>>>>,
          uniMotionTrackType |-> <<<<"Position", 0>>, <<"Rotation", 1>>, <<"Scale", 2>>, <<"Matrix", 3>>,
                                   <<"PositionRotationScale", 4>>, <<"SingleFloat", 5>>>>,
          uniMotionType |-> <<<<"Absolute", 0>>, <<"Relative", 1>>, <<"Additive", 2>>, <<"Delta", 3>>>>]
=============================================================================
