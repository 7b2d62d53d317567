SEAMS = ["8b1fb29", "9d2c8b2", "7a33457", "31fc9eb", "b6aac8f"]
V = "Seeded exploration, no proof: the real client code under simulated scheduler, clock, sockets and modem; oracle over the recorded history. "
CLAIMED = {
 "C01": ("lines received by the simulated modem are matched against the calls", V + "Calls, abandonments, partial writes, back-pressure, stalls and link loss are drawn per run."),
 "C02": ("answers of the simulated modem are matched against call results", V + "The modem answers late, in bursts, split, with refusals, or not at all."),
 "C03": ("bounded liveness after injected loss of the control link", V + "End, reset and garbage are injected at drawn commands, lines and times."),
 "C04": ("readings and watchers are checked as a forward walk over the modem's reports", V + "Readings are taken by other tasks between any two operations of the manager."),
 "C05": ("heartbeat readings against the windows in which alive messages were handled, on the simulated clock", V),
 "C06": ("connect results against what the modem reported after accepting the request", V + "Outcomes, odd states, earlier sessions' leftovers and merged reads are drawn."),
 "C07": ("state of the simulated modem once everything is settled after abandoned or failed connects", V + "Abandonment after a drawn number of polls or a drawn time."),
 "C08": ("tasks and connections left after the handle is dropped; processor use while waiting", V),
 "C09": ("dialed addresses and what is left behind after injected refusals and abandonment", V),
 "S01": ("position-coded data stream compared with what readers got", V),
 "S02": ("position-coded written bytes compared with what the modem got", V),
 "S03": ("reads and writes after the modem reported the disconnect, bounded liveness", V),
 "S04": ("reads and writes after injected loss of the control link, bounded liveness", V),
 "S05": ("orders to disconnect counted at the simulated modem per session", V),
 "R01": ("orders received by the simulated rig against the orders queued", "Seeded exploration: the real rig-control task on a simulated serial line with partial writes, tiny buffers, stalls, noise and abandoned senders."),
 "R02": ("rig control must outlive and ignore injected noise from the rig", "Seeded exploration: noise of all kinds split in any way, at every verbosity."),
 "R03": ("bounded liveness and result of rig control after closing the queue or losing the line", "Seeded exploration: end, read errors and write errors of the line at drawn times."),
 "A01": ("orders at the simulated rig against the simulated modem's reports", "Seeded exploration of the real main function with modem, remote station, rig and operator simulated."),
 "A02": ("terminal output against the remote station's transcript", "Seeded exploration of the real main function; every way of cutting the transcript into reads."),
 "A03": ("bounded liveness of the program after injected ends of session and links", "Seeded exploration of the real main function; the session, links or line end at drawn points."),
 "A04": ("commands at the simulated modem and bytes at the remote station against prompt and go-ahead", "Seeded exploration of the real main function; timing of prompt, operator and modem drawn."),
 "F01": ("results of the receiver after every read against an independent reference receiver", "Seeded exploration: real modem client, receiver and decoder; a simulated remote station sends transfers over a session and the simulator damages them on the way (21 kinds of damage)."),
 "F02": ("incomplete results and size hints after every read against the transfer's true length", "Seeded exploration: every segmentation a session can produce (segments, reads, stalls, back-to-back transfers)."),
 "F03": ("results of decompression of damaged and hostile payloads against a reference decoder; panics and runaways", "Seeded exploration: payloads altered, truncated, extended, random, or with another declared size, in proper framing."),
 "F04": ("messages received and bytes sent through a session against the messages given, with a reference codec as the standard peer", "Seeded exploration: real session, receiver, decoder and encoder; remote station and its codec simulated; includes rebuilds of the code tree and codes longer than 16 bits."),
 "X01": ("event histories of the same simulated run at two verbosities", "Seeded exploration over all five simulated systems by turns; every run is executed twice on the same decisions."),
 "X02": ("absence of panics in any simulated task", "Seeded exploration over all five simulated systems by turns, with damaged, hostile and cut-off input on every link, at both verbosities."),
  "N02": ("results of the line parsers after every read against an independent reference grammar", "Seeded exploration: real modem client and parsers; a simulated remote station sends proposals, answers and control lines over a session that cuts them anywhere and damages them (10 kinds of damage)."),
  "N03": ("relayed connect commands received by the simulated modem are matched against the calls", V + "The commands enter through a guarded hook, since no public call issues them yet; they run concurrently with other commands, are abandoned, split and refused."),
 "S06": ("order of disconnects and connects at the modem; bytes read against what had arrived before", V),
}
NOT_APPLICABLE = {
 "N01": "A pure, sequential function of one string: there is no schedule, clock, I/O or fault it could depend on. (The simulated callers of C01 do use identities with line ends and control characters, so its effect on command lines is covered there.)",
}
