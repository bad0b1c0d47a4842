----------------------------- MODULE TraceBase -----------------------------
(* Common part of the trace specifications.  A trace is a sequence of recorded calls of the real code; every     *)
(* event carries its case (.c), its name (.e), the call's arguments and the observed results.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* Prints a rejection of event number i: the specification has no behaviour with this observation.
Reject(i, exp) == PrintT("REJECT|" \o ToString(i) \o "|" \o Trace[i].c \o "|" \o Trace[i].e \o " expected " \o ToString(exp))
\* Prints that event i is a listed known deviation.
Known(i, tag) == PrintT("KNOWN|" \o ToString(i) \o "|" \o Trace[i].c \o "|" \o tag)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
