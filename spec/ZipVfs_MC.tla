----------------------------- MODULE ZipVfs_MC -------------------------------
(* Archives of few blocks, and threads taking files out of one stream.           *)
EXTENDS ZipVfs, TLC
CONSTANTS Blocks, Threads, Locked
VARIABLES made,     \* the blocks of the archive
          pos,      \* where the stream is
          owner,    \* the thread holding the lock, 0 when none
          pc, got   \* of every thread
all == <<vars, made, pos, owner, pc, got>>
Names == {<<97>>, <<98, 47>>}
Contents == {<<>>, <<1>>, <<80, 75>>}
Ls(n, v) == Small(n, v)
Local(name, c, x, flag, method) ==
  PK(3, 4) \o Ls(2, 10) \o Ls(2, flag) \o Ls(2, method) \o Ls(4, 0) \o Ls(4, 9) \o Ls(4, Len(c)) \o Ls(4, Len(c))
  \o Ls(2, Len(name)) \o Ls(2, Len(x)) \o name \o x \o c
Entry(name) == PK(1, 2) \o Ls(24, 0) \o Ls(2, Len(name)) \o Ls(2, 1) \o Ls(2, 2) \o Ls(12, 0) \o name \o <<7, 8, 9>>
Central == PK(5, 6) \o Ls(16, 0) \o Ls(2, 2) \o <<80, 75>>
Central64(x) == PK(6, 6) \o Ls(8, 44 + Len(x)) \o Ls(44, 0) \o x
Good == {[t |-> "file", n |-> n, c |-> c, b |-> Local(n, c, x, 2, 0)] : n \in Names, c \in Contents, x \in {<<>>, <<80>>}}
        \cup {[t |-> "other", n |-> <<>>, c |-> <<>>, b |-> b] :
               b \in {Entry(<<97>>), Central, Central64(<<>>), Central64(<<3>>), PK(6, 7) \o Ls(16, 0), PK(5, 5) \o <<1, 0, 5>>,
                      PK(6, 8) \o <<2, 0, 0, 0, 80, 75>>}}
Bad == {[t |-> "bad", n |-> <<>>, c |-> <<>>, b |-> b] :
          b \in {Local(<<97>>, <<1>>, <<>>, 1, 0), Local(<<97>>, <<1>>, <<>>, 0, 8), Local(<<>>, <<1>>, <<>>, 0, 0), PK(7, 8), <<80>>}}
RECURSIVE Cat(_)
Cat(bs) == IF bs = <<>> THEN <<>> ELSE bs[1].b \o Cat(Tail(bs))
Data == Cat(made)

Init == made = <<>> /\ files = [x \in {} |-> 0] /\ open = FALSE /\ handles = [x \in {} |-> 0]
        /\ pos = <<>> /\ owner = 0 /\ pc = [t \in Threads |-> <<"idle">>] /\ got = [t \in Threads |-> <<>>]
Make == ~open /\ Len(made) < Blocks /\ \E b \in Good \cup Bad : made' = Append(made, b)
        /\ UNCHANGED <<vars, pos, owner, pc, got>>
Open == ~open /\ Opened(<<<<Data, Zero(4)>>>>) /\ UNCHANGED <<made, pos, owner, pc, got>>
\* taking a file: under the lock, seek and read
Lock(t, n) == open /\ pc[t] = <<"idle">> /\ got[t] = <<>> /\ (Locked => owner = 0) /\ owner' = t
           /\ pc' = [pc EXCEPT ![t] = <<"locked", n>>] /\ UNCHANGED <<vars, made, pos, got>>
\* the stream is put where the content begins: remembered as the name
Seek(t) == pc[t][1] = "locked" /\ pos' = pc[t][2] /\ pc' = [pc EXCEPT ![t] = <<"at", pc[t][2]>>]
           /\ UNCHANGED <<vars, made, owner, got>>
ReadIt(t) == pc[t][1] = "at" /\ got' = [got EXCEPT ![t] = <<pc[t][2], files[pos].c>>]
             /\ pc' = [pc EXCEPT ![t] = <<"idle">>] /\ owner' = 0 /\ UNCHANGED <<vars, made, pos>>
Next == Make \/ Open \/ \E t \in Threads : (\E n \in DOMAIN files : Lock(t, n)) \/ Seek(t) \/ ReadIt(t)
Spec == Init /\ [][Next]_all

Clean == \A i \in 1..Len(made) : made[i].t # "bad"
FirstOf(n) == CHOOSE i \in 1..Len(made) : made[i].t = "file" /\ made[i].n = n /\ made[i].c # <<>>
              /\ \A j \in 1..(i - 1) : ~(made[j].t = "file" /\ made[j].n = n /\ made[j].c # <<>>)
Named == {made[i].n : i \in {j \in 1..Len(made) : made[j].t = "file" /\ made[j].c # <<>>}}
Taken == LET r == Archive(<<<<Data, Zero(4)>>>>) IN
         r.ok = Clean /\ (r.ok => DOMAIN r.fs = Named /\ \A n \in Named : r.fs[n].c = made[FirstOf(n)].c /\ Whole(r.fs[n]))
Right == \A t \in Threads : got[t] # <<>> => got[t][2] = files[got[t][1]].c
Coded == \A i \in 1..Len(made) : LET k == KindAt(made[i].b, 1) IN k # "none" /\ made[i].t # "bad" =>
            /\ Encode(k, Decode(k, SubSeq(made[i].b, 1, Size(k)))) = SubSeq(made[i].b, 1, Size(k))
            /\ Len(made[i].b) = Size(k) + Rest(k, made[i].b, 1)
               + (IF k = "local" THEN Le16(made[i].b, 27) + Le16(made[i].b, 29) + Len(made[i].c) ELSE 0)
=============================================================================
