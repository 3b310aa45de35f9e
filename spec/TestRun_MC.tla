---------------------------- MODULE TestRun_MC ------------------------------
(* All programs of up to N cases with up to two checks, run step by step.     *)
EXTENDS TestRun
CONSTANTS N, Values
I(v) == [k |-> "n", v |-> v, t |-> "i"]
V(x) == [k |-> "v", x |-> x, t |-> "i"]
Eq(l, r) == [k |-> "b", o |-> "==", l |-> l, r |-> r, t |-> "i"]
Chk(m, a, b, ta, tb, at) == [m |-> m, a |-> a, b |-> b, ta |-> ta, tb |-> tb, at |-> at]
Checks == {Chk("EQUAL", V("a"), I(1), "a", "1", 1), Chk("LE_EQ", V("a"), V("x"), "a", "x", 2),
           Chk("CHECK", Eq(V("a"), V("x")), I(0), "a == x", "", 3), Chk("THROW", V("a"), I(0), "std::exception", "", 4)}
Bodies == {<<>>} \cup {<<c>> : c \in Checks} \cup {<<c, d>> : c \in Checks, d \in Checks}
Cases == [name : {"one"}, x : {0, 1}, checks : Bodies]
E0(a) == [a |-> a, x |-> 0]
VARIABLE p
all == <<vars, p>>
Put(s) == /\ ci' = s.ci /\ ki' = s.ki /\ failed' = s.failed /\ said' = s.said /\ end' = s.end
Now == [ci |-> ci, ki |-> ki, failed |-> failed, said |-> said, end |-> end]
(* the program is written case by case, then it runs *)
Init == /\ p = At(<<>>, E0(0), "f") /\ prog = "written"
        /\ ci = 0 /\ ki = 0 /\ failed = 0 /\ said = <<>> /\ end = FALSE
Write == /\ prog = "written" /\ Len(p.prog) < N
         /\ \E c \in Cases : p' = [p EXCEPT !.prog = Append(@, c)]
         /\ UNCHANGED vars
Begin == /\ prog = "written" /\ prog' = "runs"
         /\ \E a \in Values : p' = [p EXCEPT !.env.a = a]
         /\ Put(Start(p))
Go == prog = "runs" /\ ~end /\ Put(Step(p, Now)) /\ UNCHANGED <<prog, p>>
Next == Write \/ Begin \/ Go
Spec == Init /\ [][Next]_all /\ WF_all(Go)
Bad(i) == \E k \in 1..Len(p.prog[i].checks) : Fails(p.prog[i].checks[k], Environment(p, p.prog[i]))
BadCases == {i \in 1..Len(p.prog) : Bad(i)}
RECURSIVE Size(_)
Size(S) == IF S = {} THEN 0 ELSE 1 + Size(S \ {CHOOSE x \in S : TRUE})
(* the result is the number of cases with a check that fails *)
Result == end => failed = Size(BadCases)
(* each of them is reported once, with one of its checks, and nothing else is *)
Reported == end => Len(said) = 2 + 2 * failed
Told == end => \A i \in 1..failed : said[2 * i + 1] = "ERROR: Method one failed!"
First == end => \A i \in BadCases :
   LET k == CHOOSE k \in 1..Len(p.prog[i].checks) :
              /\ Fails(p.prog[i].checks[k], Environment(p, p.prog[i]))
              /\ \A j \in 1..k - 1 : ~Fails(p.prog[i].checks[j], Environment(p, p.prog[i]))
       n == Size({j \in BadCases : j < i})
   IN said[2 + 2 * n] = Says(p.prog[i].checks[k], Environment(p, p.prog[i]), p.file)
Quiet == (end /\ BadCases = {}) => Len(said) = 2
AtOnce == end => Whole(p) = Now
Ends == (prog = "runs") ~> end
(* a check and its opposite never agree *)
Opposite == \A x, y \in Values : \A m \in {<<"EQUAL", "NOT_EQUAL">>, <<"GT", "LE_EQ">>, <<"LT", "GT_EQ">>, <<"CHECK", "NOT_CHECK">>} :
   LET c(k) == Chk(k, I(x), I(y), "", "", 0) IN Fails(c(m[1]), E0(0)) # Fails(c(m[2]), E0(0))
ASSUME Opposite
=============================================================================
