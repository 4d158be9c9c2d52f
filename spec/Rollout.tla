------------------------------ MODULE Rollout ------------------------------
(* A rollout: services run versions of the same schema, change versions one    *)
(* at a time, and send each other messages that take their time. Version n of  *)
(* the schema has type t as declaration n * size + t of the environment.       *)
(*                                                                           *)
(* live[s] is the version service s runs; net the messages in flight, as       *)
(* [ver, t, v, b]: the sender's version, the type, the value, the bytes.       *)
EXTENDS Evolve

VARIABLES live, net

Decl(size, ver, t) == ver * size + t

\* Versions that coexist: those that run, and those of the messages in flight.
Coexist(lv, nt) == {lv[s] : s \in DOMAIN lv} \cup {m.ver : m \in nt}
\* A careful rollout never lets versions coexist that are more than one change apart.
Careful(lv, nt) == \A a, b \in Coexist(lv, nt) : a - b \in -1..1

Change(s, ver, guarded) ==
    /\ ver # live[s]
    /\ live' = [live EXCEPT ![s] = ver]
    /\ guarded => Careful(live', net)
    /\ UNCHANGED net

Message(s, t, v, b) == [ver |-> live[s], t |-> t, v |-> v, b |-> b]
Send(s, t, v, b) ==
    /\ net' = net \cup {Message(s, t, v, b)}
    /\ UNCHANGED live

\* What service s makes of a message.
Result(devs, env, size, s, m) ==
    LET r == DecodeWith(devs, env, Decl(size, live[s], m.t), m.b, 0, Len(m.b)) IN IF IsOk(r) THEN Yes(r[3]) ELSE No
Receive(m) ==
    /\ m \in net
    /\ net' = net \ {m}
    /\ UNCHANGED live

\* No message in flight can fail to be decoded, wherever it arrives, and what arrives is what was sent.
AllReadable(env, size) ==
    \A m \in net : \A s \in DOMAIN live :
        LET x == Decl(size, m.ver, m.t)
            y == Decl(size, live[s], m.t)
            w == View(env, x, y, m.v)
        IN w # No /\ Result({}, env, size, s, m) = w /\ Kept(env, x, y, m.v, w[2])
=============================================================================
