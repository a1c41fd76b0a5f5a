#!/usr/bin/env python3
"""Single source of the property list; writes /verif/properties.jsonl."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

R = "client/repl/server.go"; RP = "client/repl/player_management.go"; RC = "client/repl/client.go"
PM = "client/system/process_management.go"; OSC = "client/transmitter/osc.go"
NOTEST = "No test in the repository starts a REPL server, a player or a CLI process: client/repl, client/system, client/transmitter and client/cmd have no tests at all. "

prop("C01", "REPL requests take effect one at a time",
 "However many clients are connected to an Alda REPL server and however their requests race, every response and every score read-back (score text, data, events, syntax tree) equals what a single shared score would give if the requests had been executed one at a time in some order consistent with real time. An accepted request's input appears in the score exactly once, in that order, and is never lost, duplicated or interleaved with another's.",
 ["schedules", "histories"], "all interleavings of requests from any number of clients with each other and with the server's background player management, and all network delays",
 NOTEST + "Serialisation is a statement over all interleavings of connections, handlers and background loops.",
 [R, "client/model/score.go"], [("a single request queue drained by one handler", R+":handleRequests"), ("input, score and event index updated together", R+":updateScoreWithInput")],
 [("input/score/eventIndex", "the shared score and how much of it has been sent", R+":Server")], ["nREPL responses on each client connection"])

prop("C02", "Each REPL request gets exactly one response, its own",
 "Every well-formed request a client sends to an Alda REPL server gets exactly one final response, on the connection it came from, in the order that connection sent them, carrying that request's id and session if it had them and nothing of any other request's. This holds however the bytes are split, delayed or coalesced in transit (including several requests sent back to back), and whatever other clients do; unknown operations and invalid requests get an error response rather than silence.",
 ["schedules", "inputs", "histories"], "all segmentations and coalescings of the byte stream, all mixes of operations and clients",
 NOTEST + "Unit tests hand over whole messages; the guarantee is over every segmentation and every history of other requests.",
 [R, "client/repl/validation.go"], [("per-connection decoder", R+":listen"), ("id/session echo", R+":respond")], None, ["nREPL responses on each client connection"])

prop("C03", "A failed REPL request leaves the score untouched",
 "When an Alda REPL server answers a request with an error - invalid input, input that fails part-way through evaluation, a player that cannot be reached, an export that does not complete - the score is exactly what it was before that request: score text, data and events are unchanged. Everything played or exported afterwards is as if the failed request had never been sent.",
 ["histories", "fault_sequences", "inputs"], "all histories containing failing requests, at every point where evaluation or player communication can fail",
 NOTEST + "Model tests check that an error is returned, never what state is left behind, and no test injects a player failure.",
 [R, RP, "client/model/score.go"], [("score is updated before input is recorded", R+":updateScoreWithInput"), ("state reset before reload", R+":load, replay, export")],
 [("input/score/eventIndex", "shared score state", R+":Server")], ["score-text, score-data, score-events responses; OSC messages at the player"])

prop("C04", "Each new note reaches the player exactly once, in time",
 "In a REPL session every note added by an accepted evaluation is sent to the server's player exactly once with the instrument, pitch, length, velocity and channel settings the score gives it, timed so that it continues its part exactly where the part's previously sent material ended (message offset = score offset minus the part's offset before the evaluation, to the millisecond; voice groups are entered within one input). Notes sent earlier are not sent again except by an explicit replay, and a replay, load, or one-shot play sends each note in the requested range exactly once at its score offset, with the tempo changes that apply.",
 ["histories", "inputs"], "all sequences of evaluations, over any parts, with replays, loads and resets in between and with player replacement",
 NOTEST + "The sync arithmetic spans the whole history of a session: what was sent before, to which player, per part.",
 [R, OSC, "client/transmitter/transmitter.go", "client/model/score.go", "client/model/midi.go"], [("events sent from the event index on, part offsets subtracted", OSC+":ScoreToOSCBundle"), ("SyncOffsets/TransmitFromIndex", R+":updateScoreWithInput")],
 [("eventIndex", "first event not yet sent", R)], ["OSC packets received by the player process"])

prop("C05", "A session's score equals its text evaluated at once",
 "The score an Alda REPL session has built up from many inputs is the same score - same parts, notes, offsets, tempos and markers - as evaluating the session's score text in one go, so saving, reloading, replaying or exporting a session reproduces what was entered. It does not matter in how many pieces complete lines were entered, nor what failed, reset or reloaded in between.",
 ["histories", "inputs"], "all ways of dividing a score into complete inputs and all interleaved operations",
 NOTEST + "Model tests evaluate one update list from an empty score; the equality is over every split of every history.",
 ["client/model/score.go", "client/model/part.go", "client/model/attributes.go", R], [("Score.Update is applied incrementally", "client/model/score.go:Update"), ("input concatenation", R+":updateScoreWithInput")], None, ["score-data/score-events responses vs. a fresh evaluation"])

prop("C06", "The REPL recovers from the loss of its player",
 "If the player process an Alda REPL server is using dies, hangs, restarts or loses its state file, the server notices and switches to another player, without being restarted and without losing the score. Once a player can be started and reached again, requests that need one succeed within a bounded time, and while none is available they fail with an error within a bounded time instead of hanging.",
 ["fault_sequences", "crash_points", "schedules"], "all sequences of player crashes, stalls and restarts at any moment, relative to any request",
 NOTEST + "Recovery is bounded liveness over fault sequences.",
 [RP, PM], [("managePlayers loop", RP+":managePlayers"), ("withTransmitter waits a bounded time", RP+":withTransmitter"), ("dead players' state files removed", PM+":FindAvailablePlayer")],
 [("player", "the player in use", R+":Server")], ["nREPL responses; OSC packets at players"])

prop("C07", "No client can take the REPL server down",
 "No bytes a client sends to an Alda REPL server - malformed, truncated, oversized or deeply nested messages, or well-formed messages with any content - and no moment at which a client disconnects or stops reading its responses crashes the server or keeps it from answering other clients within a bounded time (code whose evaluation itself needs unbounded time or memory excepted). The worst a client can do is lose its own connection.",
 ["inputs", "fault_sequences", "schedules"], "all byte strings, all disconnection and stall points",
 NOTEST + "Robustness is over every byte sequence and every disconnect point on a shared server.",
 [R], [("connection closed on a decode error", R+":listen"), ("serial handler", R+":handleRequests")], None, ["responses to other clients; server process exit"])

prop("C08", "A fresh score never mixes with the old player's playback",
 "When a REPL client starts a new score, loads one or replays, the player that was playing the old score is told to shut down, and from then on no part of the new score is ever sent to that player; everything for the new score goes to a different, live player. This holds however the reset interleaves with the server's background player management.",
 ["schedules", "fault_sequences"], "all interleavings of resets with the background ping and state refresh, and with slow state-file updates by players",
 NOTEST + "The hazard is a race between the request handler and the management loop.",
 [RP, R], [("shutdownPlayer then unsetPlayer", RP+":shutdownPlayer")], [("player", "the player in use", R)], ["OSC packets at each player"])

prop("C09", "REPL export returns the complete current score or an error",
 "A successful export from an Alda REPL server carries the entire MIDI file the player wrote for exactly the current score - never an empty, truncated, stale or foreign file - however slowly or in however many steps the player writes it. If the file cannot be obtained the client gets an error within a bounded time.",
 ["schedules", "fault_sequences", "crash_points"], "all timings of the player's non-atomic file writes, and player crashes or disk errors during them",
 NOTEST + "The hazard is reading a file while another process is still writing it.",
 [R], [("wait for the file then read it", R+":export")], None, ["binary-data in the export response"])

prop("C10", "alda ps and the port file tell the truth about REPL servers",
 "As long as an Alda REPL server is running, `alda ps` lists it with the port it listens on, and the port file in its directory names the port of the server last started there. When it exits normally, by end of input, quit command or interrupt, it removes its own state file and port file and nobody else's, and a server that died without cleaning up disappears from `alda ps` within a few minutes.",
 ["schedules", "crash_points", "fault_sequences"], "any number of servers starting, stopping, crashing or stalling (e.g. a sleeping laptop) in any order in the same or different directories",
 NOTEST + "Depends on clocks, file times and the order of other processes' starts and exits.",
 [R, "client/cmd/repl.go", "client/cmd/ps.go", PM], [("state file written once then touched", R+":manageStateFile"), ("Close removes files", R+":Close"), ("stale clean-up after two minutes", PM+":cleanUpStaleStateFiles")], None, ["output of alda ps; files in the cache and working directories"])

prop("C11", "A REPL client shows the answer to what was typed, or an error",
 "An interactive Alda REPL client, and `alda repl --message`, reports for each command the server's answer to that very command - never a late answer to an earlier one - or a clear error, and returns to the prompt within a bounded time. After a slow answer, a lost connection or an error it stays usable, and a save, load or export command never reports success unless the file was completely written or the server accepted the score.",
 ["histories", "fault_sequences", "schedules"], "all sequences of commands, server delays, disconnections and disk errors",
 NOTEST + "Depends on response timing across a session and on injected network and disk faults.",
 [RC, "client/cmd/repl.go"], [("id check and read deadline", RC+":sendRequest"), ("save/export write files", RC)], None, ["client standard output; the file system"])

prop("C12", "Scores are only handed to ready, reachable players",
 "When an Alda command looks for a player it picks one that reports itself ready and answers a ping, skipping dead, starting, active and unreadable entries, and it succeeds whenever such a player exists or can be started within the waiting period. Entries of ready-looking players that turn out to be unreachable are removed so that they do not slow down later commands, entries of live players are not.",
 ["schedules", "fault_sequences", "histories"], "all populations of player state files, all player deaths, restarts and startup timings",
 NOTEST + "Depends on other processes' life cycles and on clocks.",
 [PM], [("FindAvailablePlayer", PM+":FindAvailablePlayer"), ("PingPlayer", PM+":PingPlayer")], None, ["which player process receives the score; state files"])

prop("C13", "The player pool fills up and stays bounded",
 "Alda commands that may need a player top the pool up to three ready or starting players: one run never spawns more players than are missing, spawns none while enough are starting or ready, and after idle time enough players are ready again even if some died or could not be spawned. Commands documented not to spawn players (ps, shutdown, doctor's own checks aside) and sessions with spawning disabled never do.",
 ["schedules", "histories", "fault_sequences"], "all populations of player states, all spawn failures and player lifetimes",
 NOTEST + "Depends on the concurrent life cycle of many processes.",
 [PM, "client/cmd/root.go", RP], [("FillPlayerPool", PM+":FillPlayerPool"), ("spawn in the background of every command", "client/cmd/root.go:fillPlayerPool")], None, ["spawned processes"])

prop("C14", "Stale state is cleaned up, live state never",
 "Any Alda command that reads process state deletes state files that have not been touched for more than two minutes and never deletes, truncates or alters a file that was more recent when the command looked at it. Empty, half-written, malformed, unreadable or vanishing state files never make a command crash or fail, nor hide the other processes.",
 ["schedules", "fault_sequences", "inputs"], "all file ages, contents and concurrent creations, rewrites and deletions by other processes",
 NOTEST + "Depends on file times and on races between independent processes sharing a directory.",
 [PM, "client/cmd/ps.go"], [("cleanUpStaleStateFiles", PM), ("unreadable entries are skipped", PM+":ReadPlayerStates")], None, ["state directory; alda ps output"])

prop("C15", "stop, shutdown and resume reach every player they should",
 "`alda stop` and `alda shutdown` without a target send their message exactly once to every listed player that can be reached, and `alda play` without input resumes every active one, even when other players in the list are dead, hung, starting up or disappear meanwhile; with a player ID or port they reach that player and no other. A player that could not be reached does not keep the rest from being told.",
 ["fault_sequences", "schedules", "configurations"], "all populations of live, dead and hung players and all orders of their listing",
 NOTEST + "Depends on which of several external processes fail and when.",
 ["client/cmd/stop.go", "client/cmd/shutdown.go", "client/cmd/play.go", PM], [("loop over listed players", "client/cmd/stop.go, client/cmd/shutdown.go, client/cmd/play.go")], None, ["OSC packets at each player; exit code"])

prop("C16", "alda play delivers the whole score once or fails",
 "A successful `alda play` has delivered the complete requested score - every note in range once, at its offset, with its tempo changes, a play message, and a delayed shutdown after the last audible note - to exactly one player. If it could not deliver it, it exits with an error in bounded time, having started playback on no second player.",
 ["fault_sequences", "schedules", "inputs"], "all scores, player populations, network faults and timings",
 NOTEST + "End-to-end delivery spans discovery, ping, spawn, network and clocks.",
 ["client/cmd/play.go", OSC, PM], [("find, then TransmitScore", "client/cmd/play.go")], None, ["OSC packets at each player; exit code"])

prop("C17", "alda export: success means a complete MIDI file",
 "If `alda export` exits successfully, the requested file (relative names resolved in the user's directory), or standard output, holds the complete MIDI file for exactly the given score - never an empty, partial or pre-existing one. If the player never finishes writing it the command fails with an error within a bounded time, and in every case the player it used is shut down, without having been told to play.",
 ["schedules", "fault_sequences", "crash_points"], "all timings of the player's writes, player crashes, full disks, existing target files and working directories",
 NOTEST + "Depends on another process's write timing and failures.",
 ["client/cmd/export.go"], [("wait for the target file", "client/cmd/export.go"), ("deferred shutdown message", "client/cmd/export.go")], None, ["target file, standard output, exit code"])

prop("C18", "An interrupted update never leaves Alda broken",
 "At every instant during `alda update`, including after a crash, a lost or truncated download, an HTTP error or a full disk, the paths of the alda and alda-player executables hold either the complete old or the complete new program, executable, never a missing or partial one. The update reports success only if the complete new versions are in place, and leftovers are removed by later runs without touching anything else.",
 ["crash_points", "fault_sequences"], "a crash or fault at any file system or network operation of an update",
 NOTEST + "Crash consistency is over every crash point.",
 ["client/cmd/update.go", "client/system/dirs.go"], [("download to a temporary directory, rename away, copy in", "client/cmd/update.go:installAsset")], None, ["the executables on disk at every step; exit code"])

prop("C19", "Telemetry opt-out is never overridden",
 "Once a user has turned telemetry off, no Alda command sends a telemetry request or turns it back on unless the user explicitly enables it - whatever concurrent commands, crashes, or unreadable or damaged status files occur. Nothing is sent before the user has been informed, what is sent contains only the documented fields (os, arch, version, command), and telemetry problems never make a command fail or hang.",
 ["schedules", "crash_points", "fault_sequences", "histories"], "all interleavings of commands, crash points in status writes, read and write errors and server behaviours",
 NOTEST + "Depends on races between processes sharing the status file and on injected file and network faults.",
 ["client/cmd/telemetry.go", "client/cmd/root.go"], [("status file read before sending", "client/cmd/root.go:sendTelemetry"), ("first-run notice", "client/cmd/telemetry.go:informUserOfTelemetryIfNeeded")], [("telemetry-status file", "enabled/disabled", "client/cmd/telemetry.go")], ["HTTP requests; status file"])

prop("C20", "Formatting or importing never destroys the user's file",
 "`alda format -f FILE -o` (overwrite) and `alda import -o FILE` leave FILE with either its complete previous content or the complete new output, whatever goes wrong: invalid options, input that does not parse, an I/O error, a full disk or a crash at any point. They report success only if the new content is completely written.",
 ["crash_points", "fault_sequences", "inputs"], "a fault or crash at every file operation, all invalid options and inputs",
 NOTEST + "Crash and error consistency is over every fault point.",
 ["client/cmd/format.go", "client/cmd/import.go"], [("output is produced in memory and then written", "client/cmd/format.go")], None, ["the file at every step; exit code"])

prop("C21", "Alda commands finish and report failure",
 "Every non-interactive Alda command ends in bounded time, whatever its background work (filling the player pool, telemetry, clean-up) meets - unreachable networks, hung servers, failing spawns, missing players - and background trouble never changes its exit code or output. A command's own failure, including output that cannot be written, yields a non-zero exit status and an error message, and its background work is completed before it exits.",
 ["fault_sequences", "schedules"], "all commands, all faults in background activities and all interleavings with the foreground",
 NOTEST + "Termination and completion are over every schedule of background activities.",
 ["client/cmd/root.go", "client/main.go"], [("AwaitBackgroundActivities", "client/cmd/root.go")], None, ["exit code, stderr, spawned processes, HTTP requests"])

prop("C22", "Only leftovers of updates are ever cleaned up",
 "The background clean-up every Alda command performs removes the renamed old executables that a previous update left next to the installed ones, and nothing else in any directory, whatever files and names exist there. Failing to remove one is never fatal and is retried by later commands.",
 ["configurations", "fault_sequences", "histories"], "all directory contents, permission errors and repeated runs",
 NOTEST + "Depends on directory contents, on the location of the executable, and on injected delete failures.",
 ["client/system/dirs.go", "client/cmd/root.go"], [("FindRenamedExecutables", "client/system/dirs.go"), ("cleanUpRenamedExecutables", "client/cmd/root.go")], None, ["file system after each command"])

prop("C23", "The same score always plays the same",
 "Evaluating the same Alda source always yields the same messages to the player, the same score data and the same error, and importing the same MusicXML document always yields the same Alda code, in every run: nothing about parts, groups, aliases, attributes, tempos, tracks or channels depends on incidental ordering such as hash-map iteration or on what other scores the process handled.",
 ["schedules", "inputs"], "all orders in which unordered collections may be traversed, for all scores",
 "Go randomises map iteration, so each unit test run sees one order and passes if that one is right.",
 ["client/model/part.go", "client/model/score.go", "client/model/midi.go", "client/model/key.go", OSC], [("maps traversed only where order cannot matter", "client/model/")], None, ["OSC packets for one source under many iteration orders"])

prop("C24", "alda doctor diagnoses correctly",
 "`alda doctor` passes every check on a healthy installation, however slow but within its documented waits its player is, and exits with failure naming the failed check when the player is missing, of the wrong version, unreachable, or cannot play or export. It ends in bounded time, it leaves no more player processes running than there were (apart from those that fill the player pool, as after any command), and the files it created for its checks do not remain.",
 ["fault_sequences", "schedules"], "all player behaviours and timings within the waits, and all single component failures",
 NOTEST + "Depends on a player process's timing and failures.",
 ["client/cmd/doctor.go"], [("sequence of checks", "client/cmd/doctor.go")], None, ["output, exit code, spawned processes"])

# --- pure functions of their input: no schedule, clock, fault or interleaving (not applicable) ---
prop("N01", "Formatting preserves the meaning of a score",
 "For every valid score, formatting it yields a score with the same meaning, and formatting the result again changes nothing.",
 ["inputs"], "all valid scores and wrap widths", "Tests sample a few scores.",
 ["client/parser/format.go", "client/parser/gen.go"], [("FormatASTToCode", "client/parser/format.go")])
prop("N02", "MusicXML import preserves the music",
 "Importing a MusicXML document yields an Alda score that plays the same notes with the same timing.",
 ["inputs"], "all MusicXML documents", "Tests sample a few documents.",
 ["client/interop/musicxml/importer/importer.go"], [("importer", "client/interop/musicxml/importer/importer.go")])
prop("N03", "The parser accepts the documented language",
 "Every score following the documented syntax parses to the documented structure, and every other input yields an error with the right source position, without crashing.",
 ["inputs"], "all source texts", "Tests sample a few texts.",
 ["client/parser/scanner.go", "client/parser/parser.go"], [("recursive descent parser", "client/parser/parser.go")])
prop("N04", "Lisp attribute functions behave as documented",
 "Every built-in attribute and function of alda-lisp has its documented effect, locally or globally, and rejects wrong arguments with an error.",
 ["inputs"], "all calls and arguments", "Tests sample some calls.",
 ["client/model/lisp.go", "client/model/attributes.go"], [("lisp environment", "client/model/lisp.go")])
prop("N05", "At most fifteen melodic channels are shared fairly",
 "MIDI channels are assigned so that parts sounding simultaneously with different instruments never share a channel, and percussion uses channel ten only; if more are needed an error is reported.",
 ["inputs"], "all scores", "Tests sample some scores.",
 ["client/model/midi.go"], [("channel assignment", "client/model/midi.go")])
prop("N06", "Key signatures, pitches and transposition are exact",
 "Every combination of note name, accidentals, key signature, octave and transposition yields the documented MIDI note number.",
 ["inputs"], "all combinations", "Tests sample some combinations.",
 ["client/model/pitch.go", "client/model/key.go"], [("pitch calculation", "client/model/pitch.go")])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
