------------------------------- MODULE Printer -------------------------------
(* The message printer (datas/master_printer.hpp/.cpp): threads write messages,  *)
(* every registered sink receives each of them whole, once, in one common order.  *)
(* A message is a record [text, kind, type]: `text` is everything a sink has to    *)
(* receive for it (thread id prefix, severity prefix, body, line end).            *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES threads,  \* thread -> its message being written ([m, need, got, plain]) or NoMsg
          sinks,    \* sink -> [st: "out"|"adding"|"in", color: BOOLEAN]
          deliv,    \* sink -> what it is receiving: [t, pos] or Idle (t = 0)
          ink,      \* sink -> colour in force: "none", "yellow", "red"
          order,    \* messages <<thread, number>> in the order the first sink started them
          last,     \* sink -> index in order of the latest message it started
          count     \* thread -> number of messages begun
pvars == <<threads, sinks, deliv, ink, order, last, count>>

Idle == [t |-> 0, pos |-> 0]
Busy(t) == threads[t].busy
InkOf(type) == CASE type = "WRN" -> "yellow" [] type = "ERR" -> "red" [] OTHER -> "none"

\* thread t hands over message m; plain: length of the prefix that carries no colour
Begin(t, m, plain) ==
  /\ ~Busy(t)
  /\ threads' = [threads EXCEPT ![t] = [busy |-> TRUE, m |-> m, plain |-> plain,
                    need |-> {s \in DOMAIN sinks : sinks[s].st = "in"}, got |-> {}]]
  /\ count' = [count EXCEPT ![t] = @ + 1]
  /\ UNCHANGED <<sinks, deliv, ink, order, last>>

\* sink s receives the next k characters of the message it is in, or of a new one
MsgId(t) == <<t, count[t]>>
IndexOf(x) == IF \E i \in 1..Len(order) : order[i] = x
              THEN CHOOSE i \in 1..Len(order) : order[i] = x ELSE Len(order) + 1
Matches(full, pos, txt) ==
  /\ pos + Len(txt) <= Len(full)
  /\ SubSeq(full, pos + 1, pos + Len(txt)) = txt
\* the part of the text behind the thread id is coloured by severity
InkRight(s, t, pos, len) ==
  ~sinks[s].color \/ pos + len <= threads[t].plain
                  \/ ink[s] = InkOf(threads[t].m.type)
Receive(s, t, txt) ==
  /\ sinks[s].st # "out" /\ Busy(t)
  /\ IF deliv[s].t = 0
     THEN /\ s \notin threads[t].got
          /\ LET ix == IndexOf(MsgId(t))
             IN /\ ix > last[s] /\ last' = [last EXCEPT ![s] = ix]
                /\ order' = IF ix > Len(order) THEN Append(order, MsgId(t)) ELSE order
     ELSE deliv[s].t = t /\ UNCHANGED <<order, last>>
  /\ LET pos == IF deliv[s].t = 0 THEN 0 ELSE deliv[s].pos
         full == threads[t].m.text
     IN /\ Matches(full, pos, txt)
        /\ InkRight(s, t, pos, Len(txt))
        /\ IF pos + Len(txt) = Len(full)
           THEN /\ deliv' = [deliv EXCEPT ![s] = Idle]
                /\ threads' = [threads EXCEPT ![t].got = @ \cup {s}]
           ELSE /\ deliv' = [deliv EXCEPT ![s] = [t |-> t, pos |-> pos + Len(txt)]]
                /\ UNCHANGED threads
  /\ UNCHANGED <<sinks, ink, count>>

\* the call that writes the message returns
End(t) ==
  /\ Busy(t)
  /\ (Len(threads[t].m.text) > 0 => threads[t].need \subseteq threads[t].got)
  /\ \A s \in DOMAIN sinks : deliv[s].t # t
  /\ threads' = [threads EXCEPT ![t].busy = FALSE]
  /\ UNCHANGED <<sinks, deliv, ink, order, last, count>>

AddBegin(s, c) == /\ sinks' = [sinks EXCEPT ![s] =
                        IF @.st = "out" THEN [st |-> "adding", color |-> c] ELSE @]
                  /\ UNCHANGED <<threads, deliv, ink, order, last, count>>
AddEnd(s) == /\ sinks' = [sinks EXCEPT ![s].st = "in"]
             /\ UNCHANGED <<threads, deliv, ink, order, last, count>>
\* only sinks that asked for colour ever receive colour codes
Ink(s, c) == /\ sinks[s].st # "out" /\ sinks[s].color
             /\ ink' = [ink EXCEPT ![s] = c]
             /\ UNCHANGED <<threads, sinks, deliv, order, last, count>>
Quiet == /\ \A t \in DOMAIN threads : ~Busy(t)
         /\ \A s \in DOMAIN sinks : deliv[s] = Idle /\ ink[s] = "none"
         /\ UNCHANGED pvars
=============================================================================
