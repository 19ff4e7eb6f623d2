"""The properties and what decides each."""
from . import engine as E
from .engine import MachineryError

PROPS = {}


def run(pid, only=None):
    if pid not in PROPS:
        raise MachineryError(f"no check for {pid}")
    return E.decide(pid, PROPS[pid], only)


def need_events(op, least, pred=lambda e: True):
    """The recorded traces must contain enough of what the property speaks about."""
    def chk(ctx, traces, only):
        if only:
            return
        n = sum(1 for t in traces for e in t["ev"] if e["op"] == op and pred(e))
        ctx.stats["seen_" + op] = n
        if n < least and not any(e["op"] == "crash" for t in traces for e in t["ev"]):
            raise MachineryError(f"vacuous: only {n} '{op}' events")
    return chk


# ---- in-process components ------------------------------------------------------------------

JB = dict(build=[E.build_unit],
          models=[("MC_JitterBuffer", "MC_JitterBuffer.cfg", ["Add", "PollA", "Skip", "Tick"])],
          models_thorough=[("MC_JitterBuffer", "MC_JitterBuffer_deep.cfg", ["Add", "PollA", "Skip", "Tick"])],
          gens=[("jb", "GenJitterBuffer", "GenJitterBuffer.cfg", 300, 2500, 30)],
          runs=[E.unit("jb", 300, 5000, ["jb"])],
          nontrivial=lambda t: (t["cfg"]["size"], str([e.get("out") for e in t["ev"]])) if any(e.get("skip") for e in t["ev"]) else None,
          rule="schedules of additions (in order, lost, late, duplicated, jumping), polls, give-ups and time; non-trivial: a poll passed over a missing packet; distinct by buffer size and releases",
          vacuity=[need_events("poll", 500, lambda e: e.get("skip"))],
          assumptions=["time is the virtual clock of testing/synctest", "give-ups are issued only for numbers that were not put in, as the NACK loop does"])
PROPS["J01"] = dict(JB, trace=("JitterBufferTrace", "JitterBufferTrace_J01.cfg"))
PROPS["J02"] = dict(JB, trace=("JitterBufferTrace", "JitterBufferTrace_J02.cfg"))

PROPS["J03"] = dict(build=[E.build_unit], models=[("MC_Unwrap", "MC_Unwrap.cfg", ["Next"])],
                    models_thorough=[("MC_Unwrap", "MC_Unwrap_deep.cfg", ["Next"])],
                    gens=[("unwrap", "MC_Unwrap", "GenUnwrap.cfg", 300, 3000, 42)],
                    runs=[E.unit("unwrap", 300, 4000, ["unwrap"])],
                    trace=("UnwrapTrace", "UnwrapTrace_J03.cfg"),
                    nontrivial=lambda t: str([e.get("r") for e in t["ev"]]) if any(e.get("r", 0) >= t["cfg"]["m"] for e in t["ev"]) else None,
                    rule="streams of numbers within half the number space of the highest; non-trivial: the stream wraps around; distinct by output",
                    vacuity=[need_events("unwrap", 1000)],
                    assumptions=["no number precedes the first one (as an integer)"])

PROPS["J04"] = dict(build=[E.build_unit],
                    models=[("MC_ReceiveLog", "MC_ReceiveLog.cfg", ["Ask"]),
                            ("MC_ReceiveLog", "MC_ReceiveLogFull.cfg", ["Ask"])],
                    gens=[("rl", "GenReceiveLog", "GenReceiveLog.cfg", 120, 1500, 62)],
                    runs=[E.unit("rl", 150, 3000, ["rl"])],
                    trace=("ReceiveLogTrace", "ReceiveLogTrace_J04.cfg"),
                    nontrivial=lambda t: str([e.get("out") for e in t["ev"]]) if any(e.get("n") for e in t["ev"]) else None,
                    rule="arrivals in order, with gaps, late, duplicated and jumping, give-ups, and queries; non-trivial: something was reported missing; distinct by the answers",
                    vacuity=[need_events("missing", 300, lambda e: e.get("n", 0) > 0), need_events("get", 300)])

PROPS["J05"] = dict(build=[E.build_unit], models=[("MC_Nack", "MC_Nack.cfg", [])],
                    models_thorough=[("MC_Nack", "MC_Nack_deep.cfg", [])],
                    gens=[("nack", "MC_Nack", "GenNack.cfg", 400, 3000, 2)],
                    runs=[E.unit("nack", 60, 1500, ["nack"])],
                    trace=("NackTrace", "NackTrace_J05.cfg"),
                    nontrivial=lambda t: str([e.get("pairs") for e in t["ev"]]) if any(len(e.get("pairs", [])) > 1 for e in t["ev"]) else None,
                    rule="ascending lists modulo wrap-around and arbitrary pairs; non-trivial: more than one pair; distinct by the pairs",
                    vacuity=[need_events("enc", 500)])

# ---- one recording ----------------------------------------------------------------------------

def lossy(t):
    """The recorded streams in which something was lost and something was recorded."""
    fin = t["ev"][-1]
    if fin["op"] != "final" or not (fin["vb"] or fin["ab"]):
        return None
    rec = (tuple(b["f"] for b in fin["vb"]), tuple(b["a"] for b in fin["ab"]))
    sent = tuple(e.get("seq", 0) for e in t["ev"] if e["op"] in ("v", "a"))
    return hash((rec, sent)) if len(set(rec[0])) < len(t["cfg"]["frames"]) or len(rec[1]) < len(t["cfg"]["snd"]) else None


def need_final(what, least, pred):
    def chk(ctx, traces, only):
        if only:
            return
        n = sum(1 for t in traces for e in t["ev"][-1:] if e["op"] == "final" and pred(t, e))
        ctx.stats["seen_" + what] = n
        if n < least and not any(e["op"] == "crash" for t in traces for e in t["ev"]):
            raise MachineryError(f"vacuous: only {n} recordings with {what}")
    return chk


REC = dict(build=[E.build_unit],
           models=[("MC_Recorder", "MC_Recorder.cfg", ["Deliver", "Lost", "LostNoted", "Note", "Pad", "Tick"])],
           models_thorough=[("MC_Recorder", "MC_Recorder_mid.cfg", ["Bad"]), ("MC_Recorder", "MC_Recorder_deep.cfg", ["Bad"])],
           gens=[("rec", "GenRecorder", "GenRecorder.cfg", 120, 1500, 160)],
           runs=[E.unit("rec", 160, 3000, ["rec"])],
           nontrivial=lossy,
           rule="packet streams (frame structures, packetisations, picture and sequence numbers, timestamps near their wraps, losses notified or not, padding, malformed packets, pauses, audio beside video, storage limits, closes) pushed into one recording; non-trivial: something was lost and something was recorded; distinct by what was sent and recorded",
           vacuity=[need_final("video", 80, lambda t, e: len(e["vb"]) > 2), need_final("audio", 40, lambda t, e: len(e["ab"]) > 2),
                    need_final("gaps", 40, lambda t, e: lossy(t) is not None),
                    need_final("ivf", 30, lambda t, e: e["ivf"]["exists"]), need_events("snap", 300)],
           assumptions=["packets reach the recorder in the order of their sequence numbers, as the jitter buffer releases them",
                        "the frames of the built-in sampler are valid and fit its packet queue",
                        "fewer than 100 frames are lost in a row (7-bit picture numbers wrap at 128)", "time is the virtual clock of testing/synctest"])
for _p in ("V01", "V02", "V03", "V04", "V05", "A01", "F03", "F04", "F05", "F06"):
    PROPS[_p] = dict(REC, trace=("RecorderTrace", f"RecorderTrace_{_p}.cfg"))
    if _p in ("V02", "V03", "V05"):
        PROPS[_p]["models"] = REC["models"] + [("MC_Recorder", "MC_Recorder_invalid.cfg", ["Deliver", "Lost", "LostNoted", "Note", "Tick"])]
    if _p in ("V03", "F04"):  # the known finding
        PROPS[_p]["runs"] = REC["runs"] + [E.unit("rec", 2, 2, [], {"late": "plain"}, name="late")]
    else:
        PROPS[_p]["runs"] = REC["runs"] + [E.unit("rec", 60, 800, [], {"late": "random"}, name="late")]

# ---- sessions, end to end -----------------------------------------------------------------------

def eventful(t):
    """Runs in which a session ended, by what was published."""
    pubs = tuple((e["kind"], e.get("ok"), e.get("reason")) for e in t["ev"] if e["op"] == "pub")
    reqs = tuple((e["kind"], e.get("k"), e.get("s")) for e in t["ev"] if e["op"] == "req")
    return hash((pubs, reqs)) if any(p[0] == "stopped" for p in pubs) else None


def need_pub(kind, least, pred=lambda e: True):
    def chk(ctx, traces, only):
        if only:
            return
        n = sum(1 for t in traces for e in t["ev"] if e["op"] == "pub" and e["kind"] == kind and pred(e))
        ctx.stats["seen_" + kind] = ctx.stats.get("seen_" + kind, 0) + n
        if n < least and not any(e["op"] == "exit" for t in traces for e in t["ev"]):
            raise MachineryError(f"vacuous: only {n} '{kind}' messages")
    return chk


CTL = dict(name="sessions", build=[E.build_e2e],
           models=[("MC_Server", "MC_Server.cfg", ["Start", "Stop", "Check", "Open", "Negotiate", "Failed", "Halt", "CForget", "Transport", "Work"])],
           models_thorough=[("MC_Server", "MC_Server_deep.cfg", ["Halt"])],
           gens=[("ctl", "GenServer", "GenServer.cfg", 24, 300, 90)],
           runs=[E.e2e("ctl", 40, 600, ["ctl"])],
           nontrivial=eventful,
           rule="histories of start, stop, status and malformed requests, as fast as possible or after one another, for sessions whose peers (real WebRTC peers on loopback) connect, send, pause, close, vanish, or are lost just when requests arrive; non-trivial: a session ended; distinct by requests and messages",
           vacuity=[need_pub("stopped", 15), need_pub("resp", 60, lambda e: e["ok"]), need_pub("resp", 40, lambda e: not e["ok"]), need_pub("status", 60)],
           assumptions=["the control channel is a Redis server of the harness; loopback network", "rules about time (marked with !) count when the scenario alone shows them again"])
WEAK = [("MC_Server", f"MC_Server_weak_{w}.cfg") for w in ("claims", "forget", "twice", "flow")]
for _p in ("S01", "S02", "S03", "S04", "S05", "S06", "S07", "S08", "S09", "S10", "S11", "S12", "R01"):
    PROPS[_p] = dict(CTL, trace=("ServerTrace", f"ServerTrace_{_p}.cfg"))
for _p, _w in (("S02", [0, 1]), ("S03", [1, 2]), ("S04", [2, 3]), ("S05", [2])):
    PROPS[_p]["weak"] = [WEAK[i] for i in _w]

# ---- names and files ----------------------------------------------------------------------------

def named(t):
    """Histories in which a recording was written and a name refused."""
    news = tuple((tuple(e["file"]), e.get("ok")) for e in t["ev"] if e["op"] == "new")
    if any(e["op"] == "write" for e in t["ev"]) and any(not ok for _, ok in news) and any(ok for _, ok in news):
        return hash((news, t["cfg"]["umask"], t["cfg"]["fmode"], t["cfg"]["dmode"]))
    return None


FILES = dict(name="names", build=[E.build_unit],
             models=[("MC_Files", "MC_Files.cfg", ["New0", "Write", "Close", "Place", "Rm"]), ("MC_Files", "MC_Files_ivf.cfg", ["New0", "Write", "Close", "Place", "Rm"])],
             models_thorough=[("MC_Files", "MC_Files_deep.cfg", ["New0", "Write", "Close", "Place", "Rm"])],
             gens=[("files", "MC_Files", "GenFiles.cfg", 120, 1500, 28)],
             runs=[E.unit("files", 200, 4000, ["files"])],
             nontrivial=named,
             rule="histories of recordings asked for (plain, nested, equivalent, absolute, climbing and wrongly named ones, one after the other and at the same time), first media, closes, and files put and taken away by others, under many permission modes and masks; the whole tree is compared after every step; non-trivial: something was recorded and something refused; distinct by names and modes",
             vacuity=[need_events("new", 1500, lambda e: e["ok"]), need_events("new", 800, lambda e: not e["ok"]), need_events("write", 500), need_events("race", 50, lambda e: e["oks"] == 1)],
             assumptions=["the file system is the one of the sandbox, used as root", "the modes in the settings are numbers"])
for _p in ("F01", "F02"):
    PROPS[_p] = dict(parts=[dict(FILES, trace=("FilesTrace", f"FilesTrace_{_p}.cfg"), weak=[("MC_Files", f"MC_Files_weak_{w}.cfg") for w in ("table", "trunc", "under", "keep", "tidy")] if _p == "F02" else []),
                            dict(CTL, trace=("ServerTrace", f"ServerTrace_{_p}.cfg"))])
PROPS["F06"] = dict(parts=[dict(PROPS["F06"], name="recording"), dict(FILES, trace=("FilesTrace", "FilesTrace_F06.cfg"))])

# ---- requests and messages ----------------------------------------------------------------------

REQ = dict(name="requests", build=[E.build_unit],
           models=[("MC_Requests", "MC_Requests.cfg", ["Decide"])],
           weak=[("MC_Requests", f"MC_Requests_weak_{w}.cfg") for w in ("room", "legacy")],
           gens=[("req", "MC_Requests", "GenRequests.cfg", 100000, 100000, 0)],
           runs=[E.unit("req", 60, 1500, ["req"])],
           nontrivial=lambda t: hash(str(t["ev"])) if any(e["op"] in ("val", "msg") for e in t["ev"]) else None,
           rule="every start request there is by what is present in it (all 810 of the specification), and well-formed, malformed, mistyped, truncated, oversized and deeply nested messages, given to the recorder's own decoder and validator; non-trivial: judged; distinct by content and outcome",
           vacuity=[need_events("val", 800), need_events("msg", 300), need_events("val", 40, lambda e: e["ok"])])
for _p in ("S07", "S11"):
    PROPS[_p] = dict(parts=[dict(REQ, trace=("RequestsTrace", f"RequestsTrace_{_p}.cfg")), dict(CTL, trace=("ServerTrace", f"ServerTrace_{_p}.cfg"))])

# ---- settings -----------------------------------------------------------------------------------

CONFIG = [("MC_Config", "MC_Config.cfg", []), ("MC_Config", "MC_Config_bool.cfg", [])]


def layered(t):
    """What was printed, or what sessions showed, where more than the defaults was given."""
    if not t["cfg"]["file"] and not t["cfg"]["env"]:
        return None
    return hash(str([(e["op"], e.get("leaves"), e.get("obs")) for e in t["ev"]]))


PROPS["C01"] = dict(build=[E.build_e2e], models=CONFIG, models_thorough=[("MC_Config", "MC_Config_deep.cfg", [])],
                    weak=[("MC_Config", f"MC_Config_weak_{w}.cfg") for w in ("zero", "whole", "order")],
                    gens=[("cfg", "GenConfig", "GenConfig.cfg", 300, 8000, 0)],
                    runs=[E.e2e("cfg", 240, 4000, ["cfg"], par=16)],
                    trace=("ConfigTrace", "ConfigTrace_C01.cfg"), nontrivial=layered,
                    rule="settings given by the file, the environment, both or neither (pairs of settings from the specification, and all at random), printed as a whole, by group and one by one, with names that do not exist; and recorders run with settings from everywhere, judged by what they do; non-trivial: some layer gives something; distinct by what was printed or seen",
                    vacuity=[need_events("dump", 3000, lambda e: e["ok"]), need_events("dump", 300, lambda e: not e["ok"]), need_events("seen", 30), need_events("sess", 15)],
                    assumptions=["values that the configuration library accepts; a list is one setting", "rules about effects (marked with !) count when the scenario alone shows them again"])
PROPS["C02"] = dict(build=[E.build_e2e], models=CONFIG, models_thorough=[("MC_Config", "MC_Config_deep.cfg", [])],
                    weak=[("MC_Config", f"MC_Config_weak_{w}.cfg") for w in ("keep", "half", "live")],
                    gens=[("reload", "GenReload", "GenReload.cfg", 60, 1000, 12)],
                    runs=[E.e2e("reload", 60, 1000, ["reload"], par=16)],
                    trace=("ConfigTrace", "ConfigTrace_C02.cfg"),
                    nontrivial=lambda t: layered(t) if any(e["op"] == "reload" for e in t["ev"]) and any(e["op"] == "sess" for e in t["ev"]) else None,
                    rule="histories of sessions with real peers and reloads of files with other, fewer and no settings, of broken files, and of several signals at once; each session is judged by the settings in force when it was asked for; non-trivial: something was reloaded and a session recorded; distinct by what was seen",
                    vacuity=[need_events("reload", 150), need_events("reload", 20, lambda e: e["broken"]), need_events("sess", 150, lambda e: e["ok"]), need_events("alive", 80)],
                    assumptions=["a reload has been carried out 1.5 s after the signal", "rules about effects (marked with !) count when the scenario alone shows them again"])

PROPS["R02"] = dict(build=[E.build_e2e], models=[("MC_Control", "MC_Control.cfg", [])],
                    weak=[("MC_Control", f"MC_Control_weak_{w}.cfg") for w in ("denied", "swallow", "clean", "patient", "noping")],
                    gens=[("lost", "GenControl", "GenControl.cfg", 1000, 1000, 0)],
                    runs=[E.e2e("lost", 20, 400, ["lost"])],
                    trace=("ControlTrace", "ControlTrace_R02.cfg"),
                    nontrivial=lambda t: hash((t["src"], t["ev"][-1]["t"] // 1000)) if any(e["op"] == "fault" for e in t["ev"]) and any(e["op"] == "exit" for e in t["ev"]) else None,
                    rule="every way to lose the channel (unreachable, closed at once, password, no permission, nonsense, cut, reset, server down, unsubscribed, error, silence) at every time (start, announcement, idle, with a session, with requests under way), with and without the gateway, and none for longer than a ping takes; non-trivial: lost, and the process ended; distinct by kind, time and when it ended",
                    vacuity=[need_events("fault", 60), need_events("look", 2)],
                    assumptions=["10 s to notice, 80 s for a silent server", "rules about time (marked with !) count when the scenario alone shows them again"])

PROPS["H01"] = dict(build=[E.build_e2e], models=[("MC_Gate", "MC_Gate.cfg", ["Posts", "Responds", "Works", "Foreign", "Again", "Listen", "Tick"])],
                    models_thorough=[("MC_Gate", "MC_Gate_deep.cfg", ["Tick"])],
                    weak=[("MC_Gate", f"MC_Gate_weak_{w}.cfg") for w in ("any", "late", "forever", "dup", "failok", "clock", "hasty", "empty")],
                    gens=[("gate", "GenGate", "GenGate.cfg", 60, 1000, 16)],
                    runs=[E.e2e("gate", 40, 600, ["gate"])],
                    trace=("GateTrace", "GateTrace_H01.cfg"),
                    nontrivial=lambda t: hash(str([(e["op"], e.get("k"), e.get("ok"), e.get("status")) for e in t["ev"]])) if any(e["op"] == "reply" and e["r"] > 0 for e in t["ev"]) and any(e["op"] == "reply" and e["status"] >= 400 for e in t["ev"]) else None,
                    rule="histories of posts (plain, odd, large, equal, malformed, abandoned) and of the responses to their start requests (in any order, well, failed, without answer, repeated, late, never), with those of other sessions and other messages between; and posts of real peers' offers answered by the recorder itself, whose recordings are compared with what each peer sent; non-trivial: one post was answered well and one refused; distinct by the order of events",
                    vacuity=[need_events("reply", 150, lambda e: e["r"] > 0), need_events("reply", 40, lambda e: e["status"] >= 500), need_events("reply", 60, lambda e: 400 <= e["status"] < 500), need_events("resp", 60, lambda e: e["r"] > 0), need_events("rec", 40)],
                    assumptions=["rules about time (marked with !) count when the scenario alone shows them again"])

PROPS["F05"] = dict(parts=[dict(PROPS["F05"], name="recording"), dict(CTL, trace=("ServerTrace", "ServerTrace_F05.cfg"))])

# ---- a session over a faulty network ------------------------------------------------------------

def faulty(t):
    """Runs in which something was lost, by what was lost, asked for and recorded."""
    fins = [e for e in t["ev"] if e["op"] == "fin"]
    key = tuple((k, tuple(i for i, p in enumerate(e[k]["pk"]) if p["arr"] < 0), len(e[k]["ask"]), len(e[k]["bl"])) for e in fins for k in ("hv", "ha"))
    return hash(key) if any(e[k]["ask"] and e[k]["bl"] for e in fins for k in ("hv", "ha")) else None


def need_net(ctx, traces, only):
    if only:
        return
    hs = [(e, e[k]) for t in traces for e in t["ev"] if e["op"] == "fin" for k in ("hv", "ha")]
    asks, lost = sum(len(h["ask"]) for _, h in hs), sum(1 for _, h in hs for p in h["pk"] if p["arr"] < 0)
    blocks = sum(len(h["bl"]) for _, h in hs)
    ctx.stats.update(seen_requests=asks, seen_lost=lost, seen_blocks=blocks, seen_packets=sum(len(h["pk"]) for _, h in hs))
    if (asks < 300 or lost < 300 or blocks < 1500) and not any(e["op"] in ("exit", "crash") for t in traces for e in t["ev"]):
        raise MachineryError(f"vacuous: {asks} requests, {lost} lost packets, {blocks} blocks")


NET = dict(build=[E.build_e2e],
           models=[("MC_Net", "MC_Net.cfg", ["Arrives", "Ticks", "End"])],
           models_thorough=[("MC_Net", "MC_Net_deep.cfg", ["End"])],
           gens=[("net", "GenNet", "GenNet.cfg", 10, 80, 120)],
           runs=[E.e2e("net", 24, 240, ["net"], par=16)],
           nontrivial=faulty,
           rule="sessions of the real recorder with real WebRTC peers behind a network that loses (singly and in bursts), delays, reorders and duplicates packets, whose senders answer requests or not, with sequence numbers and times around their wraps; non-trivial: something was asked for again and something was recorded; distinct by losses, requests and blocks",
           vacuity=[need_net],
           assumptions=["requests are judged where the offer has no generic NACK feedback, as the WebRTC stack asks on its own account otherwise",
                        "completeness is judged where every packet arrives at least 150 ms before the jitter buffer's wait for it ends (60 ms if reruns show it again)",
                        "audio and video are both announced before the first keyframe (see the known finding)",
                        "rules about time (marked with !) count when the scenario alone shows them again"])
PROPS["N01"] = dict(NET, trace=("NetTrace", "NetTrace_N01.cfg"), weak=[("MC_Net", f"MC_Net_{w}.cfg") for w in ("again", "ever", "mute")])
PROPS["P01"] = dict(NET, trace=("NetTrace", "NetTrace_P01.cfg"), weak=[("MC_Net", f"MC_Net_{w}.cfg") for w in ("gap", "ref", "dups", "hasty")])

# ---- rooms of LiveKit ---------------------------------------------------------------------------

LKRULE = "histories of start requests for rooms of a LiveKit server of the harness that lets the recorder in, late, never, or not at all, with real WebRTC media, tracks published, taken back, muted and unasked for, connections cut and taken up again, packets lost and reordered; sessions ended by requests, by the server, by both at once, and by a server that is gone; non-trivial: a session ended; distinct by requests and messages"
LKASSUME = ["the LiveKit server is one of the harness that speaks what subscribers need of the protocol; loopback network",
            "completeness is judged where the harness lost nothing, from the first recorded frame of a track to 1.5 s before its end",
            "a full reconnect (a new connection for the same participant) is not simulated",
            "rules about time (marked with !) count when the scenario alone shows them again"]
ROOM = dict(name="rooms", build=[E.build_e2e], models=[("MC_Room", "MC_Room.cfg", ["Begins", "Subs", "Ends", "Leaves", "Tick"])],
            models_thorough=[("MC_Room", "MC_Room_deep.cfg", ["Tick"])], nontrivial=eventful, rule=LKRULE, assumptions=LKASSUME,
            vacuity=[need_pub("stopped", 25), need_pub("stopped", 20, lambda e: e["f"]["exists"]), need_events("subscribe", 30), need_events("join", 30)])
PROPS["L01"] = dict(ROOM, trace=("RoomTrace", "RoomTrace_L01.cfg"), weak=[("MC_Room", f"MC_Room_weak_{w}.cfg") for w in ("room", "auto", "all", "absent", "none")],
                    gens=[("lk", "GenRoom", "GenRoom_short.cfg", 20, 300, 16)], runs=[E.e2e("lk", 28, 400, ["lk"], dict(short=True), par=24)])
PROPS["L02"] = dict(ROOM, trace=("RoomTrace", "RoomTrace_L02.cfg"), weak=[("MC_Room", f"MC_Room_weak_{w}.cfg") for w in ("blind", "fickle", "deaf", "twice", "stay", "ghost")],
                    gens=[("lk", "GenRoom", "GenRoom.cfg", 20, 300, 16)], runs=[E.e2e("lk", 28, 400, ["lk"], par=24)])
FLOW = dict(CTL, name="flow", models=[], models_thorough=[], gens=[], runs=[E.e2e("ctl", 24, 300, args=dict(flow=True), name="flow")],
            rule="sessions with one track whose media stop and set in again", vacuity=[need_pub("flow", 80)])
for _p in ("S03", "S04", "S05", "S06", "S09", "S10"):
    _r = [E.e2e("lk", 12, 200, args=dict(short=True), name="lk", par=24)] if _p != "S09" else [E.e2e("lk", 12, 120, args=dict(flow=True), name="lk", par=24)]
    PROPS[_p] = dict(parts=[PROPS[_p]] + ([dict(FLOW, trace=PROPS[_p]["trace"])] if _p == "S09" else [])
                     + [dict(ROOM, models=[], models_thorough=[], gens=[], runs=_r, trace=PROPS[_p]["trace"], vacuity=[need_pub("stopped", 5)])])
