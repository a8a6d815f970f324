------------------------------ MODULE AsyncPut ------------------------------
\* How one rank's caller and its background thread share the queue of PUTs and
\* the list of their results: two locks and two condition variables. TLC searches
\* all interleavings, for safety and, with fair threads, for progress.
EXTENDS Integers, Sequences, TLC

CONSTANTS
    MaxPuts, MaxFlushes,    \* bounds
    StartAt,                \* queued PUTs the background thread starts at
    Passes,                 \* how often a flush waits for the background thread (2 in the library)
    Wakes,                  \* queueing a PUT wakes the background thread (TRUE in the library)
    Spurious                \* condition variables may wake up by themselves

VARIABLES
    queue,      \* PUTs that are queued
    count,      \* what the caller and the thread compare with StartAt
    flushed, done, running,
    qlock, alock,       \* holders of the locks of the queue and of the results: "", "user", "thread"
    upc, tpc,   \* caller and thread
    pass,       \* waits done by the current flush
    closing,    \* the caller waits in order to close
    batch,      \* PUTs the thread took
    mine,       \* PUTs the caller took
    fresh,      \* results the thread is about to publish
    kept,       \* published results
    ret,        \* results the current flush returns
    executed, returned,     \* history
    puts, flushes

vars == <<queue, count, flushed, done, running, qlock, alock, upc, tpc, pass, closing, batch, mine, fresh, kept, ret, executed, returned, puts, flushes>>

Init ==
    /\ queue = <<>> /\ count = 0 /\ flushed = FALSE /\ done = FALSE /\ running = TRUE
    /\ qlock = "" /\ alock = ""
    /\ upc = "open" /\ tpc = "top"      \* opening waits for the thread like a flush does
    /\ pass = 0 /\ closing = FALSE
    /\ batch = <<>> /\ mine = <<>> /\ fresh = <<>> /\ kept = <<>> /\ ret = <<>>
    /\ executed = <<>> /\ returned = <<>> /\ puts = 0 /\ flushes = 0

WakeThread == tpc' = IF tpc = "asleep" THEN "woken" ELSE tpc

\* ------------------------------------------------------------ caller
Put ==
    /\ upc = "idle" /\ puts < MaxPuts /\ qlock = ""
    /\ puts' = puts + 1 /\ queue' = Append(queue, puts + 1) /\ count' = count + 1
    /\ IF Wakes THEN WakeThread ELSE UNCHANGED tpc
    /\ UNCHANGED <<flushed, done, running, qlock, alock, upc, pass, closing, batch, mine, fresh, kept, ret, executed, returned, flushes>>

StartFlush ==
    /\ upc = "idle" /\ flushes < MaxFlushes
    /\ flushes' = flushes + 1 /\ upc' = "enter"
    /\ UNCHANGED <<queue, count, flushed, done, running, qlock, alock, tpc, pass, closing, batch, mine, fresh, kept, ret, executed, returned, puts>>

\* closing has flushed before; then the thread is told to stop
StartClose ==
    /\ upc = "idle" /\ queue = <<>> /\ batch = <<>> /\ flushes > 0
    /\ running' = FALSE /\ closing' = TRUE /\ upc' = "enter"
    /\ UNCHANGED <<queue, count, flushed, done, qlock, alock, tpc, pass, batch, mine, fresh, kept, ret, executed, returned, puts, flushes>>

Enter ==    \* the results stay locked except while waiting
    /\ upc \in {"open", "enter"} /\ alock = ""
    /\ alock' = "user" /\ pass' = 0 /\ upc' = IF upc = "open" THEN "ask0" ELSE "ask"
    /\ UNCHANGED <<queue, count, flushed, done, running, qlock, tpc, closing, batch, mine, fresh, kept, ret, executed, returned, puts, flushes>>

First == upc \in {"ask0", "wait0", "asleep0", "woken0"}
Name(x) == IF First THEN x \o "0" ELSE x
Ask ==
    /\ upc \in {"ask", "ask0"} /\ qlock = ""
    /\ done' = FALSE /\ flushed' = TRUE
    /\ WakeThread
    /\ upc' = Name("wait")
    /\ UNCHANGED <<queue, count, running, qlock, alock, pass, closing, batch, mine, fresh, kept, ret, executed, returned, puts, flushes>>

Waited ==
    /\ upc \in {"wait", "wait0"} /\ (~running \/ done)
    /\ pass' = pass + 1
    /\ IF pass + 1 < Passes THEN upc' = Name("ask") /\ UNCHANGED alock
       ELSE upc' = (IF closing THEN "join" ELSE IF First THEN "idle" ELSE "collect") /\ alock' = ""
    /\ UNCHANGED <<queue, count, flushed, done, running, qlock, tpc, closing, batch, mine, fresh, kept, ret, executed, returned, puts, flushes>>
Sleep ==
    /\ upc \in {"wait", "wait0"} /\ running /\ ~done
    /\ upc' = Name("asleep") /\ alock' = ""
    /\ UNCHANGED <<queue, count, flushed, done, running, qlock, tpc, pass, closing, batch, mine, fresh, kept, ret, executed, returned, puts, flushes>>
Woken ==
    /\ upc \in {"woken", "woken0"} /\ alock = ""
    /\ upc' = Name("wait") /\ alock' = "user"
    /\ UNCHANGED <<queue, count, flushed, done, running, qlock, tpc, pass, closing, batch, mine, fresh, kept, ret, executed, returned, puts, flushes>>

Collect ==
    /\ upc = "collect" /\ alock = ""
    /\ ret' = kept /\ kept' = <<>> /\ upc' = "take"
    /\ UNCHANGED <<queue, count, flushed, done, running, qlock, alock, tpc, pass, closing, batch, mine, fresh, executed, returned, puts, flushes>>
Take ==     \* the caller executes what is left itself, holding the queue
    /\ upc = "take" /\ qlock = ""
    /\ qlock' = "user" /\ mine' = queue /\ queue' = <<>> /\ upc' = "run"
    /\ UNCHANGED <<count, flushed, done, running, alock, tpc, pass, closing, batch, fresh, kept, ret, executed, returned, puts, flushes>>
RunMine ==
    /\ upc = "run" /\ mine # <<>>
    /\ executed' = Append(executed, Head(mine)) /\ ret' = Append(ret, Head(mine)) /\ mine' = Tail(mine)
    /\ UNCHANGED <<queue, count, flushed, done, running, qlock, alock, upc, tpc, pass, closing, batch, fresh, kept, returned, puts, flushes>>
Return ==
    /\ upc = "run" /\ mine = <<>>
    /\ count' = 0 /\ qlock' = "" /\ returned' = returned \o ret /\ ret' = <<>> /\ upc' = "idle"
    /\ UNCHANGED <<queue, flushed, done, running, alock, tpc, pass, closing, batch, mine, fresh, kept, executed, puts, flushes>>
Join ==
    /\ upc = "join" /\ tpc = "end"
    /\ upc' = "closed"
    /\ UNCHANGED <<queue, count, flushed, done, running, qlock, alock, tpc, pass, closing, batch, mine, fresh, kept, ret, executed, returned, puts, flushes>>

\* ------------------------------------------------------------ background thread
Top ==
    /\ tpc = "top"
    /\ tpc' = IF running THEN "check" ELSE "end"
    /\ UNCHANGED <<queue, count, flushed, done, running, qlock, alock, upc, pass, closing, batch, mine, fresh, kept, ret, executed, returned, puts, flushes>>
Check ==
    /\ tpc \in {"check", "woken"} /\ qlock = ""
    /\ IF ~running \/ count >= StartAt \/ flushed
       THEN /\ batch' = queue /\ queue' = <<>> /\ count' = 0 /\ flushed' = FALSE /\ tpc' = "run"
       ELSE tpc' = "asleep" /\ UNCHANGED <<batch, queue, count, flushed>>
    /\ UNCHANGED <<done, running, qlock, alock, upc, pass, closing, mine, fresh, kept, ret, executed, returned, puts, flushes>>
Run ==
    /\ tpc = "run" /\ batch # <<>>
    /\ executed' = Append(executed, Head(batch)) /\ fresh' = Append(fresh, Head(batch)) /\ batch' = Tail(batch)
    /\ UNCHANGED <<queue, count, flushed, done, running, qlock, alock, upc, tpc, pass, closing, mine, kept, ret, returned, puts, flushes>>
Publish ==
    /\ tpc = "run" /\ batch = <<>> /\ alock = ""
    /\ kept' = kept \o fresh /\ fresh' = <<>> /\ done' = TRUE /\ tpc' = "tell"
    /\ UNCHANGED <<queue, count, flushed, running, qlock, alock, upc, pass, closing, batch, mine, ret, executed, returned, puts, flushes>>
Tell ==
    /\ tpc = "tell"
    /\ upc' = (CASE upc = "asleep" -> "woken" [] upc = "asleep0" -> "woken0" [] OTHER -> upc)
    /\ tpc' = "top"
    /\ UNCHANGED <<queue, count, flushed, done, running, qlock, alock, pass, closing, batch, mine, fresh, kept, ret, executed, returned, puts, flushes>>

Surprise ==
    /\ Spurious
    /\ \/ tpc = "asleep" /\ tpc' = "woken" /\ UNCHANGED upc
       \/ upc \in {"asleep", "asleep0"} /\ upc' = Name("woken") /\ UNCHANGED tpc
    /\ UNCHANGED <<queue, count, flushed, done, running, qlock, alock, pass, closing, batch, mine, fresh, kept, ret, executed, returned, puts, flushes>>

Caller == Enter \/ Ask \/ Waited \/ Sleep \/ Woken \/ Collect \/ Take \/ RunMine \/ Return \/ Join
Thread == Top \/ Check \/ Run \/ Publish \/ Tell
Over == upc \in {"idle", "closed"} /\ UNCHANGED vars       \* the caller may stop at any time
Next == Put \/ StartFlush \/ StartClose \/ Caller \/ Thread \/ Surprise \/ Over
Spec == Init /\ [][Next]_vars /\ SF_vars(Caller) /\ SF_vars(Thread)

\* ------------------------------------------------------------ properties
\* executed in the order they were queued, each once
Order == \A i \in 1..Len(executed) : executed[i] = i
\* nothing is lost on the way
NothingLost == executed \o batch \o mine \o queue = [i \in 1..puts |-> i]
\* every result is returned once, in that order
Results == returned \o ret \o kept \o fresh = executed
\* when a flush has returned everything queued before was executed and its results were returned
\* (the caller queues nothing while it flushes)
Flushed == upc = "run" /\ mine = <<>> => Len(executed) = puts /\ returned \o ret = executed
\* a closed session has no thread and left nothing
Gone == upc = "closed" => tpc = "end" /\ Len(executed) = puts
Locks == (qlock = "user" => upc = "run") /\ (alock = "user" => upc \in {"ask", "wait", "ask0", "wait0"})

\* calls return
Returns == (upc # "idle") ~> (upc \in {"idle", "closed"})
\* PUTs are executed without a flush once enough of them are queued
Starts == \A n \in 1..MaxPuts : (upc = "idle" /\ count >= StartAt /\ puts = n) ~> (Len(executed) >= n)
=============================================================================
