------------------------------ MODULE BindModel ------------------------------
(* Where the channel binding data of a PLUS exchange comes from, on both sides: from the protocol    *)
(* for some types, from the callback for any, or from nowhere.  The data differs by type and source  *)
(* unless the two sides agree.                                                                     *)
EXTENDS Naturals, FiniteSets, Sequences, SequencesExt, TLC, Json
Types == {"tls-exporter", "tls-unique", "x-own.1"}
CONSTANTS Overrides, ServerData
VARIABLES ovr, proto, cback, sproto, scback, res
vars == <<ovr, proto, cback, sproto, scback, res>>

Init == /\ ovr \in Overrides /\ proto \in SUBSET Types /\ cback \in BOOLEAN
        \* what the server has for the type named: of the protocol, of the callback
        /\ sproto \in ServerData /\ scback \in ServerData
        /\ res = "open"
Has(t) == t \in proto \/ cback
Type == IF ovr # "none" THEN ovr ELSE IF Has("tls-exporter") THEN "tls-exporter" ELSE "tls-unique"
\* the protocol's data goes before the callback's
Server == IF sproto # "none" THEN sproto ELSE scback
Next == /\ res = "open"
        /\ res' = IF ~Has(Type) THEN "client" ELSE IF Server = "same" THEN "ok" ELSE "server"
        /\ PrintT(ToJson([ovr |-> ovr, proto |-> SetToSeq(proto), cback |-> cback, sproto |-> sproto, scback |-> scback,
                          type |-> Type, source |-> IF Type \in proto THEN "proto" ELSE "cback", res |-> res']))
        /\ UNCHANGED <<ovr, proto, cback, sproto, scback>>
Spec == Init /\ [][Next]_vars
BothHold == res = "ok" => Has(Type) /\ Server = "same"
Named == ovr # "none" => Type = ovr
\* missing data fails, at the one who misses it
NeverSilent == res # "open" => ((res = "client") = ~Has(Type))
=============================================================================
