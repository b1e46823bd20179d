-------------------------------- MODULE Select ------------------------------
(* Mechanisms, configurations and how a session is started.                                     *)
EXTENDS Bytes

\* <<priority, has client, has server, who speaks first>>
MechInfo ==
     ("SCRAM-SHA-512" :> <<600, TRUE, TRUE, "client">>) @@ ("SCRAM-SHA-256" :> <<600, TRUE, TRUE, "client">>)
  @@ ("SCRAM-SHA-1" :> <<400, TRUE, TRUE, "client">>)
  @@ ("SCRAM-SHA-512-PLUS" :> <<700, TRUE, TRUE, "client">>) @@ ("SCRAM-SHA-256-PLUS" :> <<700, TRUE, TRUE, "client">>)
  @@ ("SCRAM-SHA-1-PLUS" :> <<500, TRUE, TRUE, "client">>)
  @@ ("PLAIN" :> <<300, TRUE, TRUE, "client">>) @@ ("LOGIN" :> <<200, TRUE, TRUE, "server">>)
  @@ ("ANONYMOUS" :> <<100, TRUE, TRUE, "client">>) @@ ("EXTERNAL" :> <<100, TRUE, TRUE, "client">>)
  @@ ("XOAUTH2" :> <<300, TRUE, TRUE, "client">>) @@ ("OAUTHBEARER" :> <<300, TRUE, TRUE, "client">>)
  @@ ("GSSAPI" :> <<300, TRUE, TRUE, "client">>)
  \* mechanisms of the harness
  @@ ("X-CF" :> <<500, TRUE, TRUE, "client">>) @@ ("X-SF" :> <<250, TRUE, TRUE, "server">>)
  @@ ("X-CLIENTONLY" :> <<650, TRUE, FALSE, "client">>) @@ ("X-SERVERONLY" :> <<800, FALSE, TRUE, "client">>)
  @@ ("X-LOW" :> <<0, TRUE, TRUE, "client">>) @@ ("PLAI" :> <<350, TRUE, TRUE, "client">>)
  @@ ("PLAIN-PLUS" :> <<450, TRUE, TRUE, "client">>) @@ ("X-CB" :> <<550, TRUE, TRUE, "server">>)
  @@ ("X-NOSTART" :> <<520, TRUE, TRUE, "client">>) @@ ("X-BOTH" :> <<480, TRUE, TRUE, "client">>)
Prio(m) == MechInfo[m][1]
HasClient(m) == MechInfo[m][2]
HasServer(m) == MechInfo[m][3]
FirstSide(m) == MechInfo[m][4]

Plus == {"SCRAM-SHA-1-PLUS", "SCRAM-SHA-256-PLUS", "SCRAM-SHA-512-PLUS"}

\* these want channel bindings; these another mechanism to be offered with them; these fail to start
NeedsCb == Plus \cup {"X-CB"}
Goes(m, offers) == m = "X-BOTH" => "PLAIN" \in offers
NoStart == {"X-NOSTART"}

\* documented order of preference of the built-in mechanisms
DefaultList == <<"SCRAM-SHA-512", "SCRAM-SHA-256", "SCRAM-SHA-1", "PLAIN", "LOGIN", "ANONYMOUS", "EXTERNAL",
                 "XOAUTH2", "OAUTHBEARER">>
\* with the static registry: all built-in mechanisms and those of other crates, in no particular order
StaticList == DefaultList \o <<"GSSAPI", "X-CF", "X-SF", "X-CLIENTONLY", "X-SERVERONLY", "X-BOTH">>
CredList(authzid) == <<"SCRAM-SHA-512", "SCRAM-SHA-256", "SCRAM-SHA-1", "PLAIN">>
                     \o (IF authzid THEN <<>> ELSE <<"LOGIN">>)

\* The mechanisms a configuration enables
Enabled(cfg) == CASE cfg.regk = "default" -> DefaultList
                  [] cfg.regk = "static" -> StaticList
                  [] cfg.regk = "cred" -> CredList(IsSome(cfg.cred[1]))
                  [] OTHER -> cfg.regs

Candidates(enabled, offers, cb) ==
  {m \in Range(enabled) \cap Range(offers) : HasClient(m) /\ (m \in NeedsCb => cb) /\ Goes(m, Range(offers))}
\* rank by the user's preference; negative: rather nothing
Rank(prefer, m) ==
  IF prefer = None THEN Prio(m)
  ELSE LET M == {j \in DOMAIN prefer[1] : prefer[1][j][1] = m}
       IN IF M = {} THEN 0 ELSE prefer[1][Min(M)][2]
\* any of these may be started; none if empty
ClientChoice(enabled, offers, cb, prefer) ==
  LET K == {m \in Candidates(enabled, offers, cb) : Rank(prefer, m) >= 0}
  IN {m \in K : \A n \in K : Rank(prefer, n) <= Rank(prefer, m)}
Available(enabled) == SelectSeq(enabled, HasServer)
\* the mechanism chosen is the one started, or none is
Starts(allowed) == allowed \ NoStart
MayFail(allowed) == allowed = {} \/ allowed \cap NoStart # {}
=============================================================================
