------------------------------ MODULE ChannelQ ------------------------------
(***************************************************************************)
(* One direction of a managed channel (C17): mpc-net/src/channel.rs and    *)
(* Aby3Network::shutdown.                                                  *)
(*                                                                         *)
(* The user posts jobs to a bounded queue; a task takes them one by one    *)
(* and writes them to the stream; the transport carries them, in order, to *)
(* the peer's receive buffer.  The peer's user posts read jobs; a task     *)
(* takes them one by one and answers each with the next message.  The      *)
(* sender's user ends as soon as it has posted its last message; ending    *)
(* closes the queue, waits for the write task, which ends the stream and   *)
(* waits until everything has arrived, and then closes the connection.     *)
(*                                                                         *)
(* Graceful = FALSE closes the connection without waiting: what has not    *)
(* arrived is lost.  Writers = 2 has two tasks take jobs from the queue,   *)
(* and Full = "drop" gives up jobs when the queue is full; both are broken *)
(* variants.                                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Messages, Cap, Window, Graceful, Writers, Full

VARIABLES next,    \* the next message to be sent
          queue, writing, \* the job queue; writer |-> the message it is writing (0: none)
          wire, buffer,   \* on the way; arrived
          reads, answered,\* read jobs posted and not answered; what they were answered with, in the order they were posted
          ending, closed  \* the sender's user has ended; the connection is closed
vars == <<next, queue, writing, wire, buffer, reads, answered, ending, closed>>

Init == /\ next = 1 /\ queue = <<>> /\ writing = [w \in 1..Writers |-> 0] /\ wire = <<>> /\ buffer = <<>>
        /\ reads = 0 /\ answered = <<>> /\ ending = FALSE /\ closed = FALSE
Post == /\ next <= Messages /\ (Len(queue) < Cap \/ Full = "drop")
        /\ queue' = IF Len(queue) < Cap THEN Append(queue, next) ELSE queue
        /\ next' = next + 1 /\ UNCHANGED <<writing, wire, buffer, reads, answered, ending, closed>>
Take(w) == /\ queue # <<>> /\ writing[w] = 0 /\ ~closed
           /\ writing' = [writing EXCEPT ![w] = Head(queue)] /\ queue' = Tail(queue)
           /\ UNCHANGED <<next, wire, buffer, reads, answered, ending, closed>>
Write(w) == /\ writing[w] # 0 /\ Len(wire) + Len(buffer) < Window /\ ~closed
            /\ wire' = Append(wire, writing[w]) /\ writing' = [writing EXCEPT ![w] = 0]
            /\ UNCHANGED <<next, queue, buffer, reads, answered, ending, closed>>
Arrive == /\ wire # <<>> /\ ~closed /\ buffer' = Append(buffer, Head(wire)) /\ wire' = Tail(wire)
          /\ UNCHANGED <<next, queue, writing, reads, answered, ending, closed>>
Ask == /\ reads + Len(answered) < Messages /\ reads < Cap /\ reads' = reads + 1
       /\ UNCHANGED <<next, queue, writing, wire, buffer, answered, ending, closed>>
Serve == /\ reads > 0 /\ buffer # <<>> /\ answered' = Append(answered, Head(buffer)) /\ buffer' = Tail(buffer) /\ reads' = reads - 1
         /\ UNCHANGED <<next, queue, writing, wire, ending, closed>>
End == /\ next > Messages /\ ~ending /\ ending' = TRUE /\ UNCHANGED <<next, queue, writing, wire, buffer, reads, answered, closed>>
Close == /\ ending /\ ~closed
         /\ Graceful => queue = <<>> /\ (\A w \in 1..Writers : writing[w] = 0) /\ wire = <<>>
         /\ closed' = TRUE /\ UNCHANGED <<next, queue, writing, wire, buffer, reads, answered, ending>>
Done == Len(answered) = Messages /\ closed
Next == Post \/ (\E w \in 1..Writers : Take(w) \/ Write(w)) \/ Arrive \/ Ask \/ Serve \/ End \/ Close \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* exactly once, unaltered, in order
Intact == \A i \in 1..Len(answered) : answered[i] = i
\* (deadlock check: everything is delivered, and everyone ends)
=============================================================================
