---------------------------- MODULE ReplayModel ------------------------------
(* N clients and N servers of the same accounts.  The network is the attacker's: it keeps every     *)
(* message and hands any of them to anybody, as often as it likes (symbolic: a proof or signature    *)
(* binds the client's and the server's nonce and the account).  Client 1 and 2 may be the same user. *)
(* Nonces are drawn when a session speaks first; they are distinct - that is what the replay of the  *)
(* behaviours on the real code relies on and Fresh.tla checks.                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS N,        \* clients, and servers
          MaxOdd    \* deliveries other than "the next message of the exchange, to the other end"

X == 1..N
VARIABLES user,     \* the account each client logs in to
          cst, sst, \* client and server sessions: what they remember
          net,      \* all messages sent, as <<sender, index>> with contents
          log, odd
vars == <<user, cst, sst, net, log, odd>>

Cst0 == [st |-> "start", k |-> 0, res |-> "open"]
Sst0 == [st |-> "first", c |-> 0, res |-> "open"]
\* c: whose client nonce, k: whose server nonce
Msg(t, c, k) == [t |-> t, c |-> c, k |-> k]

Init == /\ user \in [X -> {"a", "b"}] /\ user[1] = "a"
        /\ cst = [x \in X |-> Cst0] /\ sst = [x \in X |-> Sst0]
        /\ net = <<>> /\ log = <<>> /\ odd = 0

Start(x) == /\ cst[x].st = "start" /\ \A y \in 1..(x - 1) : cst[y].st # "start"
            /\ cst' = [cst EXCEPT ![x].st = "sfirst"]
            /\ net' = Append(net, [from |-> <<"C", x, 0>>, m |-> Msg("cf", x, 0)])
            /\ log' = Append(log, <<"start", x, "", 0, 0>>)
            /\ UNCHANGED <<user, sst, odd>>

\* exchange x is between client x and server x
Usual(e, to, x) == e.from[2] = x /\ e.from[1] # to
                   /\ \A j \in DOMAIN net : (net[j].from[1] = e.from[1] /\ net[j].from[2] = x) => net[j].from[3] <= e.from[3]
Deliver(e, to, x) ==
  /\ odd + (IF Usual(e, to, x) THEN 0 ELSE 1) <= MaxOdd
  /\ odd' = odd + (IF Usual(e, to, x) THEN 0 ELSE 1)
  /\ log' = Append(log, <<to, x, e.from[1], e.from[2], e.from[3]>>)

ToServer(x, e) ==
  LET m == e.m s == sst[x] IN
  /\ s.res = "open" /\ Deliver(e, "S", x)
  /\ CASE s.st = "first" /\ m.t = "cf" ->
            /\ sst' = [sst EXCEPT ![x] = [@ EXCEPT !.st = "final", !.c = m.c]]
            /\ net' = Append(net, [from |-> <<"S", x, 0>>, m |-> Msg("sf", m.c, x)])
       [] s.st = "final" /\ m.t = "cl" /\ m.c = s.c /\ m.k = x ->
            /\ sst' = [sst EXCEPT ![x].res = "ok"]
            /\ net' = Append(net, [from |-> <<"S", x, 1>>, m |-> Msg("sl", m.c, x)])
       [] OTHER -> sst' = [sst EXCEPT ![x].res = "fail"] /\ UNCHANGED net
  /\ UNCHANGED <<user, cst>>

ToClient(x, e) ==
  LET m == e.m c == cst[x] IN
  /\ c.st # "start" /\ c.res = "open" /\ Deliver(e, "C", x)
  /\ CASE c.st = "sfirst" /\ m.t = "sf" /\ m.c = x ->
            /\ cst' = [cst EXCEPT ![x] = [@ EXCEPT !.st = "sfinal", !.k = m.k]]
            /\ net' = Append(net, [from |-> <<"C", x, 1>>, m |-> Msg("cl", x, m.k)])
       [] c.st = "sfinal" /\ m.t = "sl" /\ m.c = x /\ m.k = c.k ->
            cst' = [cst EXCEPT ![x].res = "ok"] /\ UNCHANGED net
       [] OTHER -> cst' = [cst EXCEPT ![x].res = "fail"] /\ UNCHANGED net
  /\ UNCHANGED <<user, sst>>

Over == (\A x \in X : cst[x].res # "open") /\ (\A x \in X : sst[x].res # "open")
Emit == /\ Over /\ odd <= MaxOdd
        /\ PrintT(ToJson([user |-> user, log |-> log, client |-> [x \in X |-> cst[x].res], server |-> [x \in X |-> sst[x].res]]))
        /\ odd' = MaxOdd + 1 /\ UNCHANGED <<user, cst, sst, net, log>>
Next == \/ \E x \in X : Start(x)
        \/ \E x \in X, j \in DOMAIN net : ToServer(x, net[j]) \/ ToClient(x, net[j])
        \/ Emit
Spec == Init /\ [][Next]_vars

(* A server is convinced only in an exchange with the one client whose first message it got, which   *)
(* has answered this very session; and one client convinces at most one server, ever                 *)
Agreement == \A x \in X : sst[x].res = "ok" => cst[sst[x].c].k = x
Injective == \A x, y \in X : sst[x].res = "ok" /\ sst[y].res = "ok" /\ sst[x].c = sst[y].c => x = y
ClientAgreement == \A x \in X : cst[x].res = "ok" => sst[cst[x].k].res = "ok" /\ sst[cst[x].k].c = x
=============================================================================
