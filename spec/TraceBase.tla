------------------------------ MODULE TraceBase ------------------------------
(* Reading a recorded execution and accepting it by postcondition.             *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* got = want, and says what was expected when it is not (TLC cannot print very long values)
Expect(what, got, want) ==
  IF got = want THEN TRUE
  ELSE IF Len(ToString(got)) + Len(ToString(want)) > 8000 THEN PrintT(<<"MISMATCH", what, "long values">>) /\ FALSE
  ELSE PrintT(<<"MISMATCH", what, "got", got, "specified", want>>) /\ FALSE

Holds(what, cond) == IF cond THEN TRUE ELSE PrintT(<<"MISMATCH", what>>) /\ FALSE

Accepted ==
  LET d == TLCGet("stats").diameter
  IN  IF d - 1 = Len(Trace) THEN PrintT("TRACE-ACCEPTED")
                            ELSE PrintT(<<"TRACE-REJECTED-AT", d>>)
=============================================================================
