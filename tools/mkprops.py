#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
W="internal/webrtc/"
SRV="internal/server/server.go"; SES="internal/server/session.go"; WRT=W+"webrtc.go"; LK=W+"livekit/livekit.go"
REC=W+"recorder/recorder.go"; WEBM=W+"recorder/webm.go"; IVF=W+"recorder/ivfwriter.go"
JB=W+"utils/jitter_buffer.go"; SU=W+"utils/sequence_unwrapper.go"; RL=W+"utils/receive_log.go"; NK=W+"utils/nack.go"
EV="internal/pubsub/events/events.go"; DEC="internal/pubsub/events/decode.go"; RED="internal/pubsub/redis.go"; REDC="internal/pubsub/redis/redis.go"
APP="internal/app/app.go"; ACFG="internal/app/config.go"; CFG="internal/config/config.go"; LOAD="internal/config/loader.go"; HTTP="internal/server/http.go"; PROM="internal/prometheus/prometheus.go"
P=[]
def p(id,title,st,over,q,why,files,mech,obs=(),state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))

NOTEST="No existing test starts the recorder, a session or a recording; the tests cover only JSON validation and the packet helpers on a few fixed inputs."
p("S01","Every start request gets exactly one truthful response",
 "Every start-recording request the recorder reads is answered by exactly one start-recording response carrying that request's session id. The response says ok, with the full path of the recording and (for a mediasoup session) an SDP answer, only if a session for that request is then active; otherwise it says failed, with an error and with neither SDP answer nor file name.",
 ["histories","inputs"],"all sequences of start/stop/status requests, valid and invalid, over any set of session ids, file names and adapters",NOTEST,
 [SRV,SES,EV,WRT],[("start handler",SRV+" HandlePubSub case startRecording"),("session start",SES+" StartRecording"),("response constructors",EV+" Success/Fail")],["messages on the publish channel"])
p("S02","A session id is exclusive while active and free otherwise",
 "A start request that names the id of an active session is refused and does not disturb that session, its recording or its media. As soon as a session has been announced as ended, or its start has been answered as failed, its id can be used for a new session, and nothing left over from the earlier session can end or alter the new one.",
 ["histories","schedules"],"all histories of starts, stops, failed starts, transport losses and restarts with the same ids, with ends racing with new starts",NOTEST,
 [SRV,SES],[("session table",SRV+" sessions, CloseSession"),("end of a session",SES)],["messages on the publish channel","recording files"],[("sessions","active sessions by id",SRV)])
p("S03","A stop finalises the file first and is announced exactly once",
 "A stop request for an active session makes the recorder publish one recording-stopped event with reason 'stopped', and when that event is published the recording file is already complete: a well-formed file that never changes afterwards. A stop request for an id that is not active publishes nothing and changes nothing.",
 ["histories","schedules"],"all histories of requests with media flowing or not, at any point of the media stream",NOTEST,
 [SRV,SES,WEBM],[("stop handler",SRV+" HandlePubSub case stopRecording"),("file close before publish",SES+" StopRecording; "+WEBM+" close")],["publish channel","recording file at the moment of the event"])
p("S04","The end of a session is announced once and is final",
 "A successfully started session that has ended has been announced by exactly one recording-stopped event, however many causes of ending (stop request, transport failure, closing of each of its media tracks) occur, in whatever order or at the same time. No event about that session is published after it, and a session that was never started successfully is never announced as stopped.",
 ["schedules","histories"],"all interleavings of stop requests, connection-state changes and track closures, with one or more tracks",NOTEST,
 [SRV,SES,WRT,LK],[("end-once flag",SES+" stopped"),("connection-state and flow callbacks",SES+" StartRecording"),("track closure",WRT+" OnTrack")],["publish channel"],[("stopped","session has ended",SES)])
p("S05","A lost media transport ends the session by itself",
 "When the peer of an active session closes its connection or vanishes, the recorder ends the session without being asked: it finalises the recording file, publishes a recording-stopped event whose reason is not 'stopped', and frees the session id. As long as the transport stays connected and no stop is requested the session stays active.",
 ["histories","fault_sequences"],"peers that close cleanly, vanish silently or never connect media, before, during and after media flow",NOTEST,
 [SES,WRT,LK],[("ICE state callback",WRT+" OnICEConnectionStateChange"),("connection-state callback",SES)],["publish channel","recording file"])
p("S06","The sessions gauge equals the number of active sessions",
 "Whenever the recorder is idle, the exported number of current recorder sessions equals the number of sessions that were started successfully and have not ended. This holds for every mixture of successful, refused and failed starts, stops (repeated ones included) and transport losses.",
 ["histories"],"all histories of starts, failed starts, stops and losses",NOTEST,
 [SES,PROM,SRV],[("gauge",SES+" Inc/Dec"),("metrics endpoint",PROM)],["/metrics recorder_sessions"])
p("S07","No control message or peer can take the recorder down",
 "Any message on the control channel that is not a well-formed known request is ignored: nothing is published and nothing changes. No message, no content of a media packet, and no failure to store one session's recording makes the recorder exit, stop serving requests or disturb another session.",
 ["inputs","fault_sequences"],"all byte strings as messages (malformed, wrong types, unknown ids, missing fields), all RTP payloads, storage errors at any point of a recording",NOTEST,
 [DEC,EV,SRV,WEBM],[("decoder",DEC),("validity check",EV+" IsValid"),("writer error handling",WEBM+" initWriter, close")],["process liveness","publish channel","other sessions' files"])
p("S08","Recorder status is announced at start-up and on every request",
 "Once its subscription to the control channel is active the recorder publishes exactly one recorder status, and afterwards exactly one more per status request. All status messages of a process carry the same non-empty instance id, different from that of any other process, the version of the application, and the time of their generation.",
 ["histories"],"all interleavings of status requests with other requests, all restarts",NOTEST,
 [SRV,APP,EV],[("OnStart",SRV),("status handler",SRV+" case getRecorderStatus"),("instance id",APP+" init")],["publish channel"])
p("S09","RTP flow events mirror whether media is arriving",
 "For an active session with one media track, flow events strictly alternate starting with 'flowing'; 'flowing' appears shortly after media packets start (or resume) arriving and 'not_flowing' shortly after they stop for more than about two seconds. Each carries the session's id and the media time in milliseconds recorded so far, which never decreases.",
 ["schedules","histories"],"all patterns of bursts and pauses of media, including loss and reordering",NOTEST,
 [WRT,LK,SES,EV],[("flow ticker",WRT+" OnTrack"),("flow callback",SES)],["publish channel"])
p("S10","An ended session leaves nothing running behind",
 "After a session has ended for whatever reason, or its start has failed, the recorder closes its media connection (the peer sees it close) and gives back every socket, file handle and background task the session used. Any number of sessions can therefore be run one after the other by one recorder process.",
 ["histories"],"all mixtures and orders of session endings and failed starts, any number of sessions",NOTEST,
 [SES,WRT,LK,WEBM],[("transport close",WRT+" Close"),("track goroutines",WRT+" OnTrack"),("writer close",WEBM+" close")],["peer connection state","/metrics go_goroutines, process_open_fds"])
p("S11","Start requests are accepted exactly when they are complete",
 "A start request is accepted only if it is complete for its adapter: LiveKit needs a room and at least one track id; mediasoup, which is the default when no adapter is named, needs an SDP offer in the mediasoup options or in the legacy field, the former taking precedence. Any other adapter and any incomplete request is answered with a failure, and a refused request opens no connection and creates no file.",
 ["inputs"],"all combinations of adapter, adapter options, legacy fields and missing parts","Tests cover nine hand-picked combinations of the validator and none of the path from message to outcome.",
 [EV,SRV],[("Validate",EV),("GetSDP",EV),("adapter dispatch",SRV)],["publish channel","StartRecording validation"])
p("S12","Media ports stay within the configured range",
 "Every UDP port the recorder opens for a mediasoup session, and so every port in its SDP answer, lies within the configured RTC port range; when no port of the range is left the session is not served on a port outside it. The answer covers each audio and video section of the offer.",
 ["configurations","histories"],"all port ranges (single-port ranges included), offers with audio, video or both, any number of concurrent sessions",NOTEST,
 [WRT,CFG],[("SetEphemeralUDPPortRange",WRT)],["candidates in the SDP answer","open UDP sockets"])
p("F01","Recordings are created only inside the recording directory",
 "A recording is written only to the requested file name resolved inside the configured directory, which is the path reported to the requester; names that leave the directory or whose extension is not .webm are refused. The file and any directories created for it carry the configured permission modes (less the process umask), and with the write-to-/dev/null option nothing is created at all.",
 ["inputs","configurations"],"all file names (nested, absolute, with . and .. segments, other extensions) and all mode settings",NOTEST,
 [REC,WEBM,IVF,CFG],[("ValidateAndPrepareFile",REC),("NewRecorder",REC),("open with mode",WEBM+" initWriter")],["directory tree","startRecordingResponse.fileName"])
p("F02","A recording never overwrites another recording",
 "A start request for a file that already exists is refused, and so is one for the file of another session that is still active, whether or not that file has been created yet. No start request ever changes or truncates the bytes of an earlier or concurrent recording, and a name is available again once a session that wrote nothing under it has ended.",
 ["histories","schedules"],"all histories of starts with equal or equivalent file names, before and after the first media arrives",NOTEST,
 [REC,WEBM],[("existence check",REC+" ValidateAndPrepareFile"),("lazy open",WEBM+" initWriter")],["recording files","publish channel"])
p("F03","A finalised recording is a well-formed WebM with the right tracks",
 "After a recording is closed its file is well-formed WebM: EBML header, segment, exactly one entry for each kind of track announced for the session (VP8 video with the dimensions of the first keyframe, Opus audio at 48 kHz), and blocks that refer only to these tracks. If no recordable media arrived, no file is left under its name.",
 ["inputs","histories"],"all interleavings of audio and video packets with losses, either or both tracks, both video samplers",NOTEST,
 [WEBM],[("initWriter",WEBM),("close",WEBM),("keyframe dimensions",WEBM+" GetVP8KFDimension")],["recording file parsed independently"])
p("F04","A crash at any moment leaves a playable prefix",
 "Once all tracks of a session are announced and the file is opened, bytes are only appended: at every moment the file is a prefix of what it will be when finalised, so what a crash leaves behind is a well-formed header and a sequence of complete blocks, plus at most one partial block. Frames reach the file while recording goes on (bounded reordering delay), not only when it ends.",
 ["crash_points","histories"],"a kill at any point of any recording",NOTEST,
 [WEBM],[("file open",WEBM+" initWriter"),("block writer and sorter",WEBM+" initWriter")],["file content sampled after every step"])
p("F05","Closing is idempotent, final, and reports the last media time",
 "Closing a recording any number of times, also concurrently with arriving media, has the same effect as closing it once: media that arrives afterwards is ignored and the file does not change. Every close returns, and the session's stop event reports in milliseconds, the media time of the last video frame written (of the last audio frame when there is no video).",
 ["schedules","histories"],"all interleavings of close with audio and video packets, repeated closes, audio-only, video-only and empty recordings",NOTEST,
 [WEBM,SES],[("close",WEBM),("closed checks",WEBM+" pushOpus, pushVP8Custom, pushVP8Builtin")],["return value of close","recordingStopped.timestampHR","file"])
p("F06","The optional IVF copy holds exactly the recorded video frames",
 "With the IVF copy enabled, a finished recording with video has next to it an IVF file with a valid VP8 header carrying the keyframe dimensions and the true frame count, followed by exactly the video frames of the WebM file, in order, with their RTP timestamps. It is readable by no one the recording is not readable by.",
 ["inputs","histories"],"all video streams with losses, both samplers, zero to hundreds of frames",NOTEST,
 [IVF,WEBM],[("IVFWriter",IVF),("pushToIVFWriter",WEBM)],["IVF file parsed independently"])
p("V01","Every recorded video frame is exactly one sent frame",
 "Every video block in a recording is byte for byte the payload of one frame the sender sent, never a frame with parts missing, parts of different frames joined, or a frame recorded twice. This holds whatever packets are lost and wherever sequence numbers, timestamps and picture ids start and wrap.",
 ["inputs","fault_sequences"],"all in-order subsequences of all VP8 packet streams (any frame and partition sizes, any loss pattern, any starting numbers), with or without skip notifications, both samplers",NOTEST,
 [WEBM],[("frame assembly",WEBM+" pushVP8Custom"),("skip notification",WEBM+" NotifySkippedPacket")],["video blocks of the file"])
p("V02","Recorded video is decodable from its first frame on",
 "The first video block of a recording is a keyframe and the key flag of every block is true exactly for keyframes. With the default sampler and a sender that numbers its pictures, a delta frame is recorded only if every frame since the preceding recorded keyframe was recorded too, so that after any loss recording resumes only at a keyframe.",
 ["inputs","fault_sequences"],"all loss patterns over all frame structures, all starting picture ids including wraps",NOTEST,
 [WEBM],[("hasKeyFrame gate",WEBM+" pushVP8Custom"),("PictureID continuity",WEBM+" pushVP8Custom")],["video blocks of the file"])
p("V03","No complete, decodable video frame is dropped",
 "Every frame that arrives complete and in time, and whose preceding frames back to a keyframe were all recorded, is recorded, in order and exactly once. In particular a stream without loss is recorded completely from its first keyframe on, across wraps of sequence numbers, timestamps and picture ids, and whether or not audio flows beside it.",
 ["inputs","histories"],"all VP8 streams, with and without audio, any loss pattern, any packetisation, both samplers",NOTEST,
 [WEBM],[("frame assembly and gates",WEBM+" pushVP8Custom"),("writer start",WEBM+" initWriter")],["video blocks of the file"])
p("V04","Video timestamps are the elapsed media time",
 "The timestamp of each video block is the media time elapsed since the first recorded frame as given by the RTP timestamps, to within a millisecond, across timestamp wrap-around, lost frames and irregular intervals. It does not drift however long the recording is, and never decreases.",
 ["inputs","histories"],"all frame intervals, losses, starting timestamps and wraps, thousands of frames",NOTEST,
 [WEBM],[("duration accumulation",WEBM+" pushVP8Custom, pushVP8Builtin")],["video block timecodes"])
p("V05","Losing video sync requests a keyframe, at most once a second",
 "Whenever the default sampler discards a frame or stops recording until the next keyframe, it asks the sender for a keyframe, unless it already asked within the last second. It never asks more than once a second, and does not ask while frames are being recorded without loss.",
 ["schedules","fault_sequences"],"all loss patterns and packet timings",NOTEST,
 [WEBM,WRT,LK],[("RequestKeyframe",WEBM),("PLI",WRT+" RequestKeyframe")],["keyframe requests"])
p("A01","Audio is recorded in order, exactly once, at the right time",
 "Every audio packet is recorded at most once and in sequence order, with its payload unchanged and at the media time given by its RTP timestamp, so that lost packets and pauses leave gaps of the right length and wraps leave none. Every packet that arrives in order once the file is open is recorded, except that after a loss packets may be held back until the configured queue length is reached.",
 ["inputs","histories"],"all Opus packet streams with losses, reordering within the queue, duplicates, wraps, with and without video",NOTEST,
 [WEBM],[("pushOpus",WEBM),("audio sample queue",WEBM+" NewWebmRecorder")],["audio blocks of the file"])
p("J01","The jitter buffer releases packets in order, each at most once",
 "Packets leave the jitter buffer in strictly increasing sequence order, each at most once, and each is one that was put in under that number. Duplicates and packets older than the buffer's window or already passed over are refused or ignored and never disturb others.",
 ["inputs","schedules"],"all arrival orders with loss, duplication, reordering and jumps, all buffer sizes and timeouts, starting numbers including zero, with give-up calls interleaved","The one jitter-buffer test drives a handful of fixed sequences of one size without time passing.",
 [JB],[("Add",JB),("NextPackets",JB),("SkipPacket",JB)],["return values"],[("nextStart","next sequence to release",JB),("end","highest received",JB)])
p("J02","The jitter buffer never stalls and never drops early",
 "A packet that directly continues what was already released is released at the next poll, with everything contiguous behind it. A gap holds later packets back only until the missing packets arrive, are given up, fall out of the window, or have been waited for at least the configured timeout, and it is not passed over before one of these; whenever the poll that releases packets has passed over missing ones because of the timeout it says so and can name the last of them.",
 ["schedules","inputs"],"all arrival orders and all timings relative to the timeout","As J01; no test lets the timeout expire between two polls.",
 [JB],[("missing packet timers",JB+" NextPackets"),("window slide",JB+" Add")],["return values"])
p("J03","Sequence numbers unwrap to one consistent monotone numbering",
 "For a stream of 16-bit sequence numbers in which each differs from the highest seen so far by less than half the number space, each number is mapped to an integer congruent to it whose distance to the highest mapped number is the signed 16-bit distance. Equal numbers of the same cycle map to equal integers over any number of wrap-arounds.",
 ["inputs","histories"],"all sequences with bounded reordering, any start, any number of wraps, excluding late packets that precede the very first number","One test with one fixed list.",
 [SU],[("Unwrap",SU)],["return value"])
p("J04","The receive log reports exactly the missing packets",
 "Once started, the receive log reports as missing exactly the sequence numbers between its last consecutive and its newest packet that lie in its window and were neither received nor given up, excluding the last few the caller asks to exclude, in order and without repetition. Its membership query says yes for exactly the packets in the window that were received or given up, across wrap-around and for packets arriving late.",
 ["inputs","histories"],"all arrival orders with loss, duplication, reordering beyond the window, jumps below half the number space, give-ups, all sizes","One test with a handful of fixed sequences and one size.",
 [RL],[("Add",RL),("MissingSeqNumbers",RL),("IgnoreSeqNum",RL)],["return values"])
p("J05","NACK encoding names exactly the missing packets",
 "Encoding an ascending list of sequence numbers (modulo wrap-around) as NACK pairs and decoding it again yields the same list, nothing missing, nothing added, with no more pairs than needed for 17 numbers per pair. This holds for every list, including those that cross the wrap-around.",
 ["inputs"],"all ascending lists modulo 2^16, all gaps","Two fixed lists.",
 [NK],[("NackPairs",NK),("NackPairsToSequenceNumbers",NK)],["return values"])
p("N01","Missing packets are re-requested, boundedly, and recovered",
 "On a mediasoup session a missing packet that is more than ten behind the newest is requested again from the sender repeatedly until it arrives, at most ten times, and never if it arrived. A retransmission that arrives within the jitter timeout is recorded as if it had never been lost.",
 ["fault_sequences","schedules"],"all patterns of first-transmission loss with or without retransmission",NOTEST,
 [WRT,RL,NK],[("NACK loop",WRT+" OnTrack")],["RTCP at the sender","recording file"])
p("P01","Network faults never corrupt a recording end to end",
 "For a mediasoup session over a network that loses, duplicates, delays and reorders packets, the finished file holds only frames and audio packets of its own peer, each unaltered, at most once, and in the order sent; and if everything is delivered within the jitter timeout it holds all of them from the first keyframe on. Sessions running at the same time do not affect each other's files.",
 ["fault_sequences","schedules"],"all loss, duplication and bounded reordering patterns, several concurrent sessions",NOTEST,
 [WRT,JB,SU,RL,WEBM],[("receive loop",WRT+" OnTrack"),("jitter buffer",JB),("assembler",WEBM)],["recording file vs. what the peer sent"])
p("R01","Control messages are handled in order, once, on the right channels",
 "The recorder handles every message published on the configured control channel after its subscription exactly once and in order, ignores every other channel, and publishes all its events on the configured event channel and nowhere else. Responses to requests appear in the order of the requests.",
 ["histories","configurations"],"all sequences of requests, all channel names, with foreign traffic on the same server",NOTEST,
 [RED,REDC,SRV],[("ListenChannels",REDC),("PublishPubSub",SRV)],["Redis protocol traffic"])
p("R02","A recorder that lost its control channel does not linger",
 "If the control channel cannot be reached at start-up, or its connection is lost or refused later, the recorder process exits with a failure status, so that its supervisor restarts it. It never remains running without being able to receive requests and never reports this as a successful exit.",
 ["fault_sequences"],"loss of the connection at any point: dial, authentication, subscribe, idle, during sessions",NOTEST,
 [RED,REDC,APP],[("Subscribe",RED),("ListenChannels",REDC),("Run",APP)],["process exit status"])
p("C01","Settings resolve as environment over file over defaults",
 "The effective value of every setting is the one from its BBBRECORDER_ environment variable if present, else from the configuration file if present there, else the default; setting one leaves all others as they were. Printing a setting prints its effective value, and fails for settings that do not exist.",
 ["configurations"],"all combinations of layers over all settings",NOTEST,
 [LOAD,CFG,ACFG],[("Load",LOAD),("SetDefaults",CFG),("dumpConfig",ACFG)],["--dump output"])
p("C02","A reload applies to new sessions and leaves running ones alone",
 "After the reload signal, sessions started later use the new settings, including removal of settings from the file, while active sessions continue unchanged and can be stopped as usual. The identity of the process, its subscription and its set of active sessions survive any number of reloads.",
 ["histories","configurations"],"all interleavings of reloads with starts, stops and media",NOTEST,
 [APP,ACFG,SRV],[("sighupHandler",APP),("loadConfig",ACFG)],["recording directory used","publish channel"])
p("H01","The HTTP gateway answers each offer with its own answer",
 "With the HTTP gateway enabled, each SDP offer posted to it is turned into one start request with a session id and file name of its own and is answered with the SDP answer of exactly that session; if the start fails the request ends with an error rather than waiting forever. Traffic on the event channel for other sessions, concurrent posts, and malformed posts do not disturb it.",
 ["histories","schedules"],"all interleavings of concurrent posts and of responses for known and unknown sessions",NOTEST,
 [HTTP,SRV],[("answer channels",HTTP+" Serve"),("/sdp handler",HTTP+" serve")],["HTTP responses","control channel"])
p("L01","LiveKit sessions subscribe to and record exactly the requested tracks",
 "A LiveKit session joins the requested room under an identity derived from its session id and subscribes to exactly those published tracks whose ids were requested. What those tracks deliver is recorded in order, each frame once and unaltered; media of other tracks is never recorded.",
 ["inputs","histories"],"all sets of requested and published tracks, audio and video",NOTEST,
 [LK],[("subscribeToTracks",LK),("onTrackSubscribed",LK)],["signalling received by the server","recording file"])
p("L02","LiveKit sessions end cleanly and exactly once",
 "A LiveKit session whose room connection is lost or closed by the server is ended by the recorder (file finalised, one recording-stopped event), and stopping one leaves the room. A session that cannot join its room is answered with a failure and leaves nothing behind.",
 ["fault_sequences","histories"],"refused joins, server-side disconnects, stops, at any point of the session",NOTEST,
 [LK,SES,SRV],[("onDisconnected",LK),("Close",LK)],["publish channel","signalling received by the server"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
