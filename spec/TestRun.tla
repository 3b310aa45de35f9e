------------------------------ MODULE TestRun -------------------------------
(* Test programs.  A program is a sequence of cases, a case a sequence of     *)
(* checks of expressions.  A case ends at its first check that fails; the     *)
(* program runs all cases, says what failed and where, and results in the     *)
(* number of cases that failed.                                               *)
EXTENDS Integers, Sequences, TLC
(* ------------------------------------------------------------ expressions *)
(* [k |-> "n", v, t]   [k |-> "v", x, t]   [k |-> "u", o, l, t]              *)
(* [k |-> "b", o, l, r, t]   [k |-> "c", q, l, r, t]                          *)
(* t: "i" whole numbers, "f" quarters, "s" strings, "o" objects without text  *)
B(x) == IF x THEN 1 ELSE 0
RECURSIVE Bits(_, _, _, _)
Bit(o, x, y) == CASE o = "&" -> x * y [] o = "|" -> IF x + y > 0 THEN 1 ELSE 0 [] o = "^" -> (x + y) % 2
Bits(o, x, y, n) == IF n = 0 THEN 0 ELSE Bit(o, x % 2, y % 2) + 2 * Bits(o, x \div 2, y \div 2, n - 1)
W == 1048576
Wrap(x) == ((x % W) + W) % W
Signed(x) == IF x >= W \div 2 THEN x - W ELSE x
BitOp(o, x, y) == Signed(Bits(o, Wrap(x), Wrap(y), 20))
RECURSIVE Eval(_, _)
Num(x, e) == IF x.t = "i" THEN 4 * Eval(x, e) ELSE Eval(x, e)
True(x, e) == Eval(x, e) # 0
Cmp(o, x, y) == CASE o = "==" -> x = y [] o = "!=" -> x # y [] o = "<" -> x < y [] o = ">" -> x > y
                  [] o = "<=" -> x <= y [] o = ">=" -> x >= y
Same(x, y, e) == IF x.t \in {"i", "f"} THEN Num(x, e) = Num(y, e) ELSE Eval(x, e) = Eval(y, e)
Binary(x, e) ==
  LET o == x.o
      num == x.l.t \in {"i", "f"}
      l == IF num THEN Num(x.l, e) ELSE Eval(x.l, e)
      r == IF num THEN Num(x.r, e) ELSE Eval(x.r, e)
  IN CASE o \in {"==", "!="} -> B((o = "==") = (l = r))
       [] o \in {"<", ">", "<=", ">="} -> B(Cmp(o, l, r))
       [] o = "&&" -> IF True(x.l, e) THEN B(True(x.r, e)) ELSE 0
       [] o = "||" -> IF True(x.l, e) THEN 1 ELSE B(True(x.r, e))
       [] o \in {"&", "|", "^"} -> BitOp(o, Eval(x.l, e), Eval(x.r, e))
       [] o = "+" -> IF x.t = "i" THEN Eval(x.l, e) + Eval(x.r, e) ELSE IF x.t = "s" THEN Eval(x.l, e) \o Eval(x.r, e) ELSE l + r
       [] o = "-" -> IF x.t = "i" THEN Eval(x.l, e) - Eval(x.r, e) ELSE l - r
       [] o = "*" -> Eval(x.l, e) * Eval(x.r, e)
Eval(x, e) ==
  CASE x.k = "n" -> x.v
    [] x.k = "v" -> e[x.x]
    [] x.k = "u" -> (CASE x.o = "!" -> B(~True(x.l, e)) [] x.o = "-" -> 0 - Eval(x.l, e) [] x.o = "~" -> 0 - 1 - Eval(x.l, e))
    [] x.k = "b" -> Binary(x, e)
    [] x.k = "c" -> IF True(x.q, e) THEN Eval(x.l, e) ELSE Eval(x.r, e)
(* ------------------------------------------------------------------ checks *)
(* [m |-> kind of check, a, b, ta, tb: their texts, at: line]                 *)
(* throws: [m |-> "THROW", a: what is thrown, ta: what is expected]           *)
Against == [EQUAL |-> "!=", NOT_EQUAL |-> "==", GT |-> "<=", LT |-> ">=", GT_EQ |-> "<", LE_EQ |-> ">"]
(* what is thrown: nothing, 1 a runtime error, 2 a range error, 3 a logic error, 4 a number *)
Caught == [x \in {"std::runtime_error", "std::exception", "std::logic_error", "int"} |->
            CASE x = "std::runtime_error" -> {1, 2} [] x = "std::exception" -> {1, 2, 3}
              [] x = "std::logic_error" -> {3} [] x = "int" -> {4}]
Fails(c, e) ==
  CASE c.m = "CHECK" -> ~True(c.a, e)
    [] c.m = "NOT_CHECK" -> True(c.a, e)
    [] c.m = "THROW" -> Eval(c.a, e) \notin Caught[c.ta]
    [] c.m = "EQUAL" -> ~Same(c.a, c.b, e)
    [] c.m = "NOT_EQUAL" -> Same(c.a, c.b, e)
    [] OTHER -> Cmp(Against[c.m], Num(c.a, e), Num(c.b, e))
Quarter(v) == LET p == IF v < 0 THEN 0 - v ELSE v
                  s == IF v < 0 THEN "-" ELSE ""
              IN s \o ToString(p \div 4) \o <<"", ".25", ".5", ".75">>[(p % 4) + 1]
Text(x, t, e) == CASE x.t = "i" -> ToString(Eval(x, e)) [] x.t = "f" -> Quarter(Eval(x, e)) [] x.t = "s" -> Eval(x, e) [] x.t = "o" -> t
Where(file, c) == " " \o file \o "(" \o ToString(c.at) \o ")"
Says(c, e, file) ==
  CASE c.m \in {"CHECK", "NOT_CHECK"} -> "ERROR: Check failed" \o Where(file, c) \o ": " \o c.ta
    [] c.m = "THROW" -> IF Eval(c.a, e) \notin 1..4 THEN "ERROR: Expected throw" \o Where(file, c)
                        ELSE "ERROR: Unhandled exception" \o Where(file, c) \o ": Expected " \o c.ta
    [] OTHER -> LET o == " " \o Against[c.m] \o " "
                IN "ERROR: Check failed" \o Where(file, c) \o ": " \o c.ta \o o \o c.tb \o ", "
                   \o Text(c.a, c.ta, e) \o o \o Text(c.b, c.tb, e)
(* ---------------------------------------------------------------- the run *)
(* cases: [name, x: its argument, checks]                                     *)
VARIABLES prog, ci, ki, failed, said, end
vars == <<prog, ci, ki, failed, said, end>>
At(p, e, f) == [prog |-> p, env |-> e, file |-> f]
Environment(p, c) == [p.env EXCEPT !["x"] = c.x]
Start(p) == [ci |-> 1, ki |-> 1, failed |-> 0, end |-> FALSE,
             said |-> <<"Testing " \o ToString(Len(p.prog)) \o " cases.">>]
Step(p, s) ==
  IF s.ci > Len(p.prog)
  THEN [s EXCEPT !.end = TRUE,
         !.said = Append(@, "Testing result: " \o ToString(Len(p.prog) - s.failed) \o " out of "
                            \o ToString(Len(p.prog)) \o " successed.")]
  ELSE LET c == p.prog[s.ci]
           e == Environment(p, c)
       IN IF s.ki > Len(c.checks) THEN [s EXCEPT !.ci = @ + 1, !.ki = 1]
          ELSE IF Fails(c.checks[s.ki], e)
               THEN [s EXCEPT !.ci = @ + 1, !.ki = 1, !.failed = @ + 1,
                      !.said = @ \o <<Says(c.checks[s.ki], e, p.file), "ERROR: Method " \o c.name \o " failed!">>]
               ELSE [s EXCEPT !.ki = @ + 1]
RECURSIVE Ended(_, _)
Ended(p, s) == IF s.end THEN s ELSE Ended(p, Step(p, s))
Whole(p) == Ended(p, Start(p))
=============================================================================
