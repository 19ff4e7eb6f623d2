------------------------------- MODULE Config -------------------------------
(* The settings of the recorder: where their values come from (C01), what is printed of them, and what a reload   *)
(* means for sessions (C02).                                                                                        *)
(* A setting is a path.  Its value is a set of leaves << path below the setting, text >>: one leaf with the path   *)
(* << >> for plain values, several for lists.  A layer (file, environment) is a sequence of [ s, v ] records.      *)
(* cfg: file, env.   Events:                                                                                        *)
(*   dump    printing of a setting (key; << >> is all): ok, crash, leaves                                           *)
(*   reload  the file was replaced (file; broken: by something that cannot be read) and the signal sent            *)
(*   req     session n was asked for                                                                                *)
(*   seen    what was observed of the running recorder, or of session n: a sequence of << path, text >>             *)
(*   sess    session n: ok (accepted), grew (media was recorded after the last reload), ended (once, and well)      *)
(*   alive   the recorder: same (identity), subs (subscriptions so far), answered (every request)                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Plain(v) == { << <<>>, v >> }
App == "bbb-webrtc-recorder"
Defaults ==
  ( << "recorder", "directory" >> :> Plain("") ) @@ ( << "recorder", "dirFileMode" >> :> Plain("0700") )
  @@ ( << "recorder", "fileMode" >> :> Plain("0600") ) @@ ( << "recorder", "writeToDevNull" >> :> Plain("false") )
  @@ ( << "recorder", "writeIVFCopy" >> :> Plain("false") ) @@ ( << "recorder", "videoPacketQueueSize" >> :> Plain("256") )
  @@ ( << "recorder", "audioPacketQueueSize" >> :> Plain("32") ) @@ ( << "recorder", "useCustomSampler" >> :> Plain("true") )
  @@ ( << "pubsub", "channels", "subscribe" >> :> Plain("to-" \o App) ) @@ ( << "pubsub", "channels", "publish" >> :> Plain("from-" \o App) )
  @@ ( << "pubsub", "adapter" >> :> Plain("redis") ) @@ ( << "pubsub", "adapters", "redis", "address" >> :> Plain(":6379") )
  @@ ( << "pubsub", "adapters", "redis", "network" >> :> Plain("tcp") ) @@ ( << "pubsub", "adapters", "redis", "password" >> :> Plain("") )
  @@ ( << "webrtc", "iceServers" >> :> Plain("[]") ) @@ ( << "webrtc", "rtcMinPort" >> :> Plain("24577") )
  @@ ( << "webrtc", "rtcMaxPort" >> :> Plain("32768") ) @@ ( << "webrtc", "jitterBuffer" >> :> Plain("512") )
  @@ ( << "webrtc", "jitterBufferPktTimeout" >> :> Plain("200") )
  @@ ( << "http", "enable" >> :> Plain("false") ) @@ ( << "http", "port" >> :> Plain("8080") )
  @@ ( << "prometheus", "enable" >> :> Plain("false") ) @@ ( << "prometheus", "listenAddress" >> :> Plain("127.0.0.1:3200") )
  @@ ( << "livekit", "host" >> :> Plain("ws://localhost:7880") ) @@ ( << "livekit", "apiKey" >> :> Plain("") )
  @@ ( << "livekit", "apiSecret" >> :> Plain("") ) @@ ( << "log", "level" >> :> Plain("") )
Settings == DOMAIN Defaults

Range(s) == { s[i] : i \in DOMAIN s }
In(layer, s) == { r \in Range(layer) : r.s = s }
Has(layer, s) == In(layer, s) # {}
Value(layer, s) == Range((CHOOSE r \in In(layer, s) : TRUE).v)
\* environment over file over defaults
Effective(file, env, s) == IF Has(env, s) THEN Value(env, s) ELSE IF Has(file, s) THEN Value(file, s) ELSE Defaults[s]
All(file, env) == UNION { { << s \o l[1], l[2] >> : l \in Effective(file, env, s) } : s \in Settings }

IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Below(all, key) == { << SubSeq(l[1], Len(key) + 1, Len(l[1])), l[2] >> : l \in { x \in all : IsPrefix(key, x[1]) } }

InitSt(cfg) == [ file |-> cfg.file, env |-> cfg.env, reloads |-> 0, asked |-> <<>> ]
Step(st, ev) ==
  CASE ev.op = "reload" -> [ st EXCEPT !.file = IF ev.broken THEN @ ELSE ev.file, !.reloads = @ + 1 ]
    [] ev.op = "req" -> [ st EXCEPT !.asked = Append(@, [ n |-> ev.n, all |-> All(st.file, st.env) ]) ]
    [] OTHER -> st
Asked(st, n) == (CHOOSE a \in Range(st.asked) : a.n = n).all
Viol(st, ev) ==
  CASE ev.op = "crash" \/ (ev.op = "exit" /\ ev.panic) -> {"crash"}
    [] ev.op = "exit" -> {"C02.exit"}
    [] ev.op = "dump" ->
         LET want == Below(All(st.file, st.env), ev.key) IN
         (IF ev.crash THEN {"C01.crash"} ELSE {})
         \cup (IF want # {} /\ ~ev.ok THEN {"C01.missing"} ELSE {})
         \cup (IF want = {} /\ ev.ok THEN {"C01.phantom"} ELSE {})
         \cup (IF want # {} /\ ev.ok /\ Range(ev.leaves) # want THEN {"C01.value"} ELSE {})
    [] ev.op = "seen" ->
         LET all == IF ev.n = 0 THEN All(st.file, st.env) ELSE Asked(st, ev.n) IN
         IF \A x \in Range(ev.obs) : x \in all THEN {} ELSE IF st.reloads = 0 THEN {"C01.effect!"} ELSE {"C02.effect!"}
    [] ev.op = "sess" ->
         (IF ~ev.ok THEN {"C02.start!"} ELSE {}) \cup (IF ev.ok /\ ~ev.grew THEN {"C02.media!"} ELSE {})
         \cup (IF ev.ok /\ ~ev.ended THEN {"C02.stop!"} ELSE {})
    [] ev.op = "alive" ->
         (IF ~ev.same THEN {"C02.identity"} ELSE {}) \cup (IF ev.subs # 1 THEN {"C02.subscription"} ELSE {})
         \cup (IF ~ev.answered THEN {"C02.answer!"} ELSE {}) \cup (IF ~ev.claims THEN {"C02.claims!"} ELSE {})
    [] OTHER -> {}
=============================================================================
