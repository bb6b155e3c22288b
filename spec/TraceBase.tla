-------------------------- MODULE TraceBase --------------------------
(* Judging recorded sessions.  One behaviour per session, one step per     *)
(* recorded event; the verdict is total: each event yields the set of      *)
(* clauses of the specification it breaks, and judging goes on.            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS StInit(_),          \* abstract state at the start of a session
          Fails(_, _, _),     \* (session, state, event) -> set of broken clauses
          StNext(_, _, _)     \* (session, state, event) -> next abstract state

Sessions == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES s, l, st

TInit == /\ s \in 1..Len(Sessions)
         /\ l = 1
         /\ st = IF Sessions[s].events[1].ev = "crash" THEN <<>> ELSE StInit(Sessions[s])

TNext == /\ l <= Len(Sessions[s].events)
         /\ LET ses == Sessions[s]
                e   == ses.events[l]
                bad == IF e.ev = "crash" THEN {"the driver could not make sense of what the library did: specified a usable result"} ELSE Fails(ses, st, e)
            IN /\ (IF bad = {} THEN TRUE ELSE PrintT(<<"@BAD@", s, l, bad>>))
               /\ st' = IF e.ev = "crash" THEN st ELSE StNext(ses, st, e)
         /\ l' = l + 1
         /\ s' = s

NoState(ses)       == <<>>
SameState(ses, x, e) == x
Clause(name, ok, exp) == IF ok THEN {} ELSE {name \o ": specified " \o ToString(exp)}
======================================================================
