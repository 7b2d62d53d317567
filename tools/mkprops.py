#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the list stays readable)."""
import json, os
V = "src/modem/vara.rs"; K = "src/rig/elecraft/kx3.rs"; M = "src/main.rs"; FB = "src/fbb.rs"; LZ = "src/lzhuf.rs"; T = "src/types.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
SEAM = "virtual sockets, task scheduler and select order behind cfg(plusendi_sim)"
NOTEST = "No test touches the modem, rig or program code at all: "

p("C01", "Commands reach the modem whole, exactly once and in order",
  "Every modem command that a caller issues appears on the modem control connection as exactly one carriage-return-terminated line with the text for that operation, never split, merged, interleaved with another command, repeated or dropped, and a command issued after another one completed follows it. This holds for every mix of concurrent and abandoned callers (an abandoned command appears whole or not at all) and for every pattern of partial writes and back-pressure; if the connection breaks, what the modem got is a clean prefix.",
  ["schedules", "fault_sequences", "inputs", "histories"],
  "every interleaving of callers, cancellation point, partial write, stall and break of the control connection, and every accepted station identity",
  NOTEST + "ordering and framing depend on task schedules, cancellation points and short writes.",
  [V, T], [("single writer task with an mpsc queue; write_all of one formatted line per command", V + ": manage_modem_thread"), ("station identity validation", T + ": StationId::normalize")],
  [("cmd_buffer", "text of the command being sent", V)], ["bytes received by the simulated modem on the control connection"], SEAM)
p("C02", "Every command call gets the answer to its own command",
  "A command call returns success exactly when the modem answered that very command with OK, and an error when the modem answered WRONG or the control link was lost first; an answer that reached the program before the link was lost still counts. Answers are never given to another call, whatever other calls run concurrently or were abandoned, whatever status lines arrive in between, and however the answers are split or merged into network reads.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of callers, abandonment, status traffic and segmentation of the modem's output",
  NOTEST + "matching of answers depends on cancellation and on how reads split or merge lines.",
  [V], [("FIFO of reply slots popped once per answer", V + ": manage_modem_thread / do_a_thing")],
  [("response_queue", "reply slots of commands sent and not answered yet", V)], ["result of each command call against the simulated modem's answer log"], SEAM)
p("C03", "Losing the control link fails calls promptly and never hangs them",
  "Once the modem closes or resets the control connection, or sends a line the program cannot understand, every outstanding and every later command or connect call completes with an error in a bounded number of steps, and the control connection is released. Nothing waits for ever and no background task spins.",
  ["fault_sequences", "crash_points", "schedules"],
  "every point at which the control connection can end (close, reset, write failure, garbage line), relative to every state of the callers",
  NOTEST + "link loss at arbitrary points and bounded progress afterwards cannot be sampled by a unit test.",
  [V], [("manager task ends with an error, dropping the command queue, the reply slots and the status senders", V + ": manage_modem_thread")],
  [], ["completion of every call once the simulation is quiescent", "simulated sockets still open"], SEAM)
p("C04", "Status readings always follow the modem's reports, in order",
  "Transmit-buffer level, channel-busy state, registration of own callsigns and the transmit/receive orders seen by subscribers always equal the value of some report received so far (or the initial value), never move back to an older report, and equal the latest report once everything received has been processed. This is independent of how the modem's output is split into network reads and of whether readings are taken while reports are being processed.",
  ["schedules", "histories", "inputs"],
  "every report history, every segmentation of it into reads, every interleaving of readers with the processing",
  NOTEST + "segmentation and reader/processor interleavings are unbounded.",
  [V], [("line splitting with retained partial line", V + ": do_a_thing"), ("watch channels per status item", V + ": TncStatusSender / TncStatusReceiver")],
  [("upd_buffer", "received bytes that do not form a complete line yet", V)], ["buffer(), busy_state(), local_registration(), subscribe_rig_command()"], SEAM)
p("C05", "The last-heartbeat time is the time a heartbeat was received",
  "The reported time of the last heartbeat changes only when the modem's alive message is received, is then the time at which that message was received, and never moves backwards. Other traffic, calls and errors leave it unchanged.",
  ["histories", "schedules"],
  "every history of heartbeats and other traffic, with arbitrary delays, stalls and clock positions",
  NOTEST + "it is a statement about time, over all histories.",
  [V], [("heartbeat watch channel set to the clock on IAMALIVE", V + ": do_a_thing")],
  [("last_heartbeat", "time of the most recent heartbeat", V)], ["last_heartbeat()"], "simulated monotonic clock (the harness interposes clock_gettime)")
p("C06", "A connect attempt is decided only by what the modem says about it",
  "A connect call returns a session only if, after accepting that very request, the modem reported the link as connected, and it fails only if after the request the modem refused it, reported a connection state other than connected, or the control link was lost; once the modem has reported the outcome the call completes. Leftovers of earlier sessions or attempts, answers and reports merged into one read, and identities with an SSID do not change the outcome.",
  ["histories", "schedules", "fault_sequences"],
  "every history of earlier sessions and attempts, every merge/split of the modem's output, every interleaving of the caller with report processing",
  NOTEST + "stale state only appears in multi-session histories under particular interleavings.",
  [V, T], [("connect waits for a change of the connection watch channel after the command was accepted", V + ": VaraTnc::connect"), ("report parser", V + ": connected; " + T + ": callsign")],
  [("connection", "last reported connection state", V)], ["result of connect() against the simulated modem's log"], SEAM)
p("C07", "An abandoned connect attempt is called off",
  "If a caller gives up on a connect call (for instance on a timeout), or the call fails for a reason other than the modem ending or refusing the attempt, the program tells the modem to disconnect, so that the modem is never left calling or connected with nobody owning the session. This holds for whatever point the call is abandoned at, as long as the control link works.",
  ["crash_points", "schedules"],
  "every abandonment point of connect() and every state of the modem at that moment",
  NOTEST + "cancellation can strike at any suspension point.",
  [V], [("disconnect task armed for the duration of the attempt", V + ": VaraTnc::connect")],
  [], ["state of the simulated modem at quiescence against the sessions the client holds"], SEAM)
p("C08", "Dropping the modem handle shuts everything down",
  "After the handle to the modem is dropped, commands already accepted are still sent and answered, and then the background tasks end and both modem connections are closed within a bounded number of steps; this also holds when calls were abandoned with answers outstanding. While answers are still outstanding, waiting for them does not occupy the processor.",
  ["schedules", "crash_points", "fault_sequences"],
  "every point at which the handle can be dropped, with any outstanding commands, and every delay or failure of the modem's answers",
  NOTEST + "shutdown races with outstanding answers are schedule dependent.",
  [V], [("manager leaves its loop when all command senders are gone and drains the outstanding answers", V + ": manage_modem_thread")],
  [], ["live tasks and open simulated sockets at quiescence", "polls per unit of simulated time"], SEAM)
p("C09", "Setting up the modem dials the right ports or fails cleanly",
  "Building a modem handle dials the configured control port and data port (by default the port after the control port) of the configured host, and succeeds exactly when both connections were established. If either fails, or setting up is abandoned, or the default data port would not exist, an error is returned (unless abandoned) and no connection or background task is left behind.",
  ["fault_sequences", "configurations", "crash_points"],
  "every host/port configuration, and refusal, delay or abandonment of either connection",
  NOTEST + "connection failures and abandonment are faults.",
  [V], [("sequential TcpStream::connect calls and spawn only afterwards", V + ": VaraTncBuilder::build")],
  [], ["simulated dial log, open sockets and tasks"], SEAM)
p("S01", "Bytes received in a session are intact, ordered and complete",
  "What a session's reader gets is exactly the byte sequence the modem delivered on the data connection, in order, without loss, duplication or change, for every segmentation, read size and scheduling. When the session ends, bytes that had already arrived are still delivered before end-of-stream is reported.",
  ["schedules", "fault_sequences", "histories"],
  "every segmentation and timing of data against the end of the session and against the reader",
  NOTEST + "data/disconnect races are schedule dependent.",
  [V], [("poll_read delegates to the data connection and consults the remote-disconnect signal", V + ": impl AsyncRead for VaraStream")],
  [], ["bytes returned by reads against bytes delivered by the simulated modem"], SEAM)
p("S02", "Bytes written in a session reach the modem intact and in order",
  "The bytes the modem receives on the data connection are exactly the bytes that session writes reported as accepted, in order, without loss, duplication or change, for plain and vectored writes under partial writes, back-pressure and abandoned write calls. Reported counts equal what was accepted.",
  ["schedules", "fault_sequences"],
  "every pattern of partial writes, back-pressure, abandonment and concurrent control traffic",
  NOTEST + "short writes and back-pressure are faults.",
  [V], [("poll_write / poll_write_vectored delegate to the data connection", V + ": impl AsyncWrite for VaraStream")],
  [], ["bytes received by the simulated modem on the data connection"], SEAM)
p("S03", "A remote disconnect ends the session promptly, and for good",
  "Once the modem has reported the link as disconnected, a blocked or later read returns end-of-stream (after any bytes already received) and every write, flush or shutdown fails as aborted, in a bounded number of steps. This stays so however often it is tried, nothing panics, and no disconnect is reported while the link is up.",
  ["schedules", "histories"],
  "every timing of the disconnect report relative to blocked and later reads and writes",
  NOTEST + "wake-ups of blocked readers are schedule dependent.",
  [V], [("task watching the connection state and a one-shot signal to the session", V + ": VaraTnc::connect, VaraStream::poll_*")],
  [("remote_disconnect", "signal that the remote side ended the session", V)], ["results of reads and writes after the report"], SEAM)
p("S04", "Losing the control link ends the open session",
  "If the control connection is lost while a session is open, the session ends as for a remote disconnect: blocked and later reads finish and writes fail within a bounded number of steps. No background task keeps spinning.",
  ["fault_sequences", "schedules"],
  "every point of control-link loss relative to session use",
  NOTEST + "it needs link loss at a particular point.",
  [V], [("the watching task ends when the status sender is gone", V + ": VaraTnc::connect")],
  [], ["results of reads and writes after the loss; polls per unit of simulated time"], SEAM)
p("S05", "Closing a session orders exactly one disconnect",
  "Dropping a live session sends exactly one disconnect order to the modem; closing it explicitly with disconnect or abort sends that one order and no further one once the modem accepted it, and gives it once more if the modem refused it and the session is still live. A session the remote side already ended sends none.",
  ["schedules", "crash_points", "histories"],
  "every way and moment of closing relative to the modem's reports",
  NOTEST + "drop/report races are schedule dependent.",
  [V], [("drop handler and force-disconnect task; explicit disconnect/abort", V + ": PinnedDrop for VaraStream, VaraStream::disconnect/abort")],
  [("force_disconnect", "armed while a drop must order a disconnect", V)], ["DISCONNECT/ABORT lines seen by the simulated modem"], SEAM)
p("S06", "A session is never disturbed by an earlier one",
  "Disconnect orders caused by an earlier session or attempt are sent before the next connect request, never after it, and bytes that had arrived for an earlier session before the next attempt began are never read in the next session. A new session therefore sees only its own traffic and is only closed by its own owner, the remote side or link loss. Shutting down a session's writing side does not close the data connection that later sessions use.",
  ["histories", "schedules"],
  "every history of sessions closed in any way with unread data, followed immediately by further attempts",
  NOTEST + "it needs multi-session histories with particular interleavings.",
  [V], [("connect waits for the pending forced disconnect and discards leftover data", V + ": VaraTnc::connect")],
  [], ["order of CONNECT and DISCONNECT lines; bytes read per session"], SEAM)
p("R01", "Rig orders are sent whole, exactly once and in order",
  "Every transmit or receive order queued for the rig is written to the rig's serial line exactly once, whole and in queue order, whatever the rig sends meanwhile and however the line accepts bytes. Orders queued before the queue is closed are all written.",
  ["schedules", "fault_sequences"],
  "every interleaving of queueing, closing, incoming rig data and partial or stalled writes",
  NOTEST + "partial writes and select interleavings are not sampled.",
  [K], [("single task with write_all per order", K + ": manage_rig_thread")],
  [], ["bytes received by the simulated rig"], "a simulated serial device (generic parameter); select order behind cfg(plusendi_sim)")
p("R02", "Nothing the rig sends can stop rig control",
  "Whatever bytes arrive from the rig (noise, empty or partial responses, invalid text), split in any way, rig control keeps running and continues to deliver orders unchanged. Only failure or end of the serial line itself stops it.",
  ["fault_sequences", "inputs", "schedules"],
  "every byte sequence from the rig, every segmentation, every verbosity",
  NOTEST + "serial noise is a fault and its segmentation is unbounded.",
  [K], [("response splitting with retained partial response", K + ": manage_rig_thread / line")],
  [("upd_buffer", "received bytes without a complete response", K)], ["orders delivered after noise; result of the task"], "as R01")
p("R03", "Rig control ends exactly when it should",
  "When the order queue is closed, rig control writes what was queued and ends successfully; when the serial line fails or reaches its end, it ends with an error in a bounded number of steps instead of spinning. It does not end otherwise.",
  ["fault_sequences", "schedules", "crash_points"],
  "every point of close, end-of-file, read error and write error",
  NOTEST + "device failure at arbitrary points.",
  [K], [("loop condition and error returns", K + ": manage_rig_thread")],
  [], ["result and step count of the task"], "as R01")
p("A01", "The rig follows the modem's transmit/receive orders",
  "In the running program the orders sent to the rig follow the modem's transmit/receive reports in order, and once everything is processed the last order equals the last report (a report overtaken by a newer one may be skipped). If the modem's control link is lost, the rig is put back to receive.",
  ["schedules", "fault_sequences", "histories"],
  "every history of reports, with slow rig, slow tasks, link loss at any point",
  NOTEST + "the relay spans three tasks and two links.",
  [M, V, K], [("relay task between the modem's watch channel and the rig queue", M + ": _thread3")],
  [], ["bytes received by the simulated rig against the simulated modem's reports"], "main.rs compiled unchanged against shim crates")
p("A02", "The terminal shows every line from the remote station once, in order",
  "Every complete line the program receives from the remote station during the session is printed exactly once, in order and unaltered (invalid text shown with replacement characters), including empty lines and lines that arrive together with the prompt; nothing else is printed, and when the program ends without an error nothing received has been left out. The output does not depend on how the data is split into reads.",
  ["schedules", "inputs", "histories"],
  "every remote transcript and every segmentation of it",
  NOTEST + "segmentation of the transcript is unbounded.",
  [M], [("line splitting loops with retained partial line", M + ": main")],
  [("read", "received bytes not printed yet", M)], ["captured standard output"], "main.rs compiled unchanged against shim crates")
p("A03", "The program ends when the session ends and never spins",
  "When the remote station disconnects or a link is lost at any point, the program stops reading and, once the operator has answered what it asks for, ends within a bounded number of steps. It never loops without making progress, and it does not end while the session is up and the operator has not finished.",
  ["fault_sequences", "crash_points", "schedules"],
  "every point at which the session or a link can end",
  NOTEST + "it needs the session to end at a particular point.",
  [M, V], [("end-of-stream checks in the reading loops", M + ": main")],
  [], ["completion of the program in the simulation; polls per unit of simulated time"], "main.rs compiled unchanged against shim crates")
p("A04", "The program logs in in the right order, after the prompt, once",
  "The program dials the modem and opens the rig's serial line that its command line (or its defaults) names. It configures callsign, compression and bandwidth in that order before it requests the connection to the given station, and after the remote station's prompt and the operator's go-ahead it sends its login lines exactly once. Before that it sends nothing to the remote station.",
  ["schedules", "histories", "configurations"],
  "every timing of modem answers, remote prompt and operator input, and every command line",
  NOTEST + "it is an ordering property across modem, remote station and operator.",
  [M, V], [("sequential awaits in main", M + ": main")],
  [], ["lines seen by the simulated modem and remote station"], "main.rs compiled unchanged against shim crates")
p("F01", "Only undamaged message transfers are accepted",
  "A received message transfer is accepted exactly when its framing is well formed and both its checksum and its CRC match its contents; any damage, duplication, loss or truncation on the link that breaks this is rejected, and what is accepted is exactly the title, offset and data that were framed. Once a damaged part has fully arrived the transfer is rejected rather than waited on.",
  ["fault_sequences", "inputs"],
  "every corruption, insertion, deletion, duplication and truncation of transfers of every shape",
  "The tests parse two undamaged captures and two truncations; no damaged transfer is ever parsed.",
  [FB, "src/crc16.rs"], [("verify of checksum and CRC16 over the blocks", FB + ": b2_message_block"), ("header and block grammar", FB)],
  [], ["result of the receiver after each arrival against an independent reference receiver"], "guarded access to the private receiver")
p("F02", "Message reception is independent of segmentation",
  "While a valid transfer is still arriving, the receiver reports it as incomplete, never as bad or finished, and never asks for more bytes than the transfer still has; when the last byte arrives it is accepted. The result and the position of the first byte after it are the same for every segmentation and whatever follows on the link.",
  ["schedules", "inputs", "fault_sequences"],
  "every split of every valid transfer, back-to-back transfers, stalls between segments",
  "Two tests check one split point each of one capture.",
  [FB], [("streaming parsers", FB + ": header, data_block, checksum")],
  [], ["result and size hint of the receiver after each segment"], "guarded access to the private receiver")
p("F03", "A damaged or hostile payload never crashes decompression",
  "Decompressing any received payload, however damaged, truncated or inconsistent with its declared size, ends with exactly the declared number of bytes, or with an end-of-data error if the payload does not hold that many. It never panics, never overruns and always terminates.",
  ["fault_sequences", "inputs"],
  "every flipped, dropped, inserted or truncated byte of payloads and every declared size",
  "The tests decompress four intact payloads.",
  [LZ, FB], [("bounds of the output buffer and end-of-input handling", LZ + ": Decoder::decode")],
  [], ["result of decompression"], "guarded access to the private decoder")
p("F04", "A message transferred end to end arrives identical",
  "A message of any content and length that is compressed, framed and sent through a session arrives byte-identical after reception and decompression, in both directions against a standard peer, whatever the segmentation, delays and back-pressure of the link; if the session or link breaks first, nothing but a prefix-incomplete or rejected transfer results.",
  ["schedules", "fault_sequences", "inputs"],
  "every message, segmentation, stall and link break",
  "The tests round one 291-byte capture and three tiny inputs; long matches, distant matches and tree rebuilds are never reached, and no link is involved.",
  [LZ, FB, V], [("LZHUF encoder and decoder sharing one adaptive state", LZ), ("framing", FB), ("session streams", V)],
  [("frequency_table / parents / children", "adaptive Huffman tree", LZ)], ["bytes delivered by the receiving side"], "guarded access to encoder, receiver and decoder")
p("X01", "Logging verbosity never changes behaviour",
  "For the same inputs, faults and schedule, the modem client, rig control, message receiver and program behave identically (same calls, bytes, results and output) at every logging verbosity. Turning on trace logging never causes a failure.",
  ["configurations", "inputs", "schedules"],
  "every run of the other properties, repeated at another verbosity",
  "Tests run at one verbosity with valid input only.",
  [V, K, M, FB], [("log arguments are free of side effects and failures", "all tracing call sites")],
  [], ["event history of the same simulated run at two verbosities"], SEAM)
p("X02", "No input from modem, remote station or rig causes a panic",
  "Whatever bytes the modem sends on its control and data connections, the remote station sends in a session and the rig sends on its serial line, and whenever connections end, no part of the program panics: errors are reported as errors. This holds for repeated use of an ended session and at every logging verbosity.",
  ["inputs", "fault_sequences", "schedules"],
  "every byte sequence, segmentation and connection end on every link",
  "Tests use valid captures only and no link at all.",
  [V, K, M, FB, LZ], [("error returns instead of unwraps on peer-controlled data", "all parsers and loops")],
  [], ["absence of unwinding in any simulated task"], SEAM)
# not simulation targets
p("N01", "Station identities are validated and normalised",
  "A station identity is accepted only if it contains a well-formed callsign and no character that could break a command line, and is stored in upper case; equal identities compare equal whatever case they were entered in.",
  ["inputs"], "every text", "Two examples are tested.", [T], [("regex and upper-casing", T + ": StationId::normalize")])
p("N02", "Proposal, selection and traffic lines are parsed to what they say",
  "A message proposal, selection or control line of the forwarding protocol, however a session cuts it into reads, is parsed to exactly the type, sender, addressee, identifier, sizes and offsets (numbers of one to six digits) or choices written in it once all of it is there. As long as it is incomplete it is neither taken for complete nor rejected, and no more bytes are asked for than complete it; a whole line that is malformed is rejected.",
  ["inputs", "segmentations"], "every line, every way of cutting it, every damage on the way", "No test parses a proposal or selection.", [FB], [("proposal and selection grammars", FB + ": fbb_proposal, winlink_proposal, selection")])
p("N03", "Digipeater paths are written in the modem's syntax",
  "A connect command through one or two relays reaches the modem as one line with origin, target, the word via and the relays, separated by single spaces, whatever other commands run concurrently or are abandoned.",
  ["inputs", "schedules"], "every path, station and mix of concurrent commands", "No test formats a command.", [V], [("Display for ConnectPath", V)])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
