import subprocess,json
m={"2f29b13":["C21"],"617f024":["C05"],"0b979bc":["C19"],"76f2195":["C02"],"8c1be32":["C02"],"bc5aa18":["C08"],"5669d27":["C08"],"c9db333":["C03"],"d3efbce":["C07"],"e352913":["C07"],"939fe5a":["C07"],"1565238":["C07"],"052c9a0":["C21"],"3e69d5d":["C21"],"4a2b84c":["C21","C13"],"965795f":["C09"],"7287906":["C17"],"813175c":["C20"],"d242596":["C10"],"419542e":["C11"],"ceed6c8":["C19"],"949250f":["C19"],"da3d9fd":["C22"],"410e1d3":["C18"],"2ea0b52":["C15"],"4324f27":["C14"],"5a4b457":["C14"],"4edc5ce":["C12"],"4a8c205":["C24"],"ce4e153":["C05"],"6a0f513":["C04"],"9ebe5df":["C06"],"f823492":["C08"],"4eb1a74":["C10"],"21c4c7d":["C12","C16"],"2fe35d9":["C13"],"02f3a24":["C20"],"1986055":["C20"],"d338e3d":["C21"],"6f4d7df":["C24","C21"],"b8e328c":["C24"],"115d8c1":["C23"],"2d51008":["C23"]}
what={
"2f29b13":"parse, instruments, ps, version and repl --message exited 0 although their output could not be written",
"617f024":"in the REPL, V0: at the start of an input opened a voice 0 instead of ending the voice group",
"115d8c1":"importing the same MusicXML document wrote its key signatures in a different order every time",
"2d51008":"score data showed one of several attributes at (nearly) the same offset, which one depending on map order",
"b8e328c":"alda doctor left a player process running if the player did not shut down (or a check failed) after being told to",
"02f3a24":"format -o/import -o replaced a file whose permissions could not be determined, changing them",
"1986055":"a truncated MusicXML file was imported in part (or looped for ever, or panicked) and replaced the user's file",
"d338e3d":"stop/shutdown with --port or --player-id reported success although the player could not be reached",
"6f4d7df":"a prompt nobody could answer (end of input) crashed the command",
"76f2195":"several requests arriving in one read: all but the first were dropped without a response",
"8c1be32":"describe responses carried the id and session of another client's earlier request",
"bc5aa18":"after new-score/load/replay the background loop could put the shut-down player back and the new score was sent to it",
"5669d27":"the server abandoned a healthy player when it read the state file while the player was rewriting it",
"c9db333":"an input that failed part-way (or whose player could not be reached) stayed in the score",
"d3efbce":"malformed bencode from one client crashed the server process",
"e352913":"a client that does not read its responses blocked all other clients for ever",
"939fe5a":"a request whose handling panics took the whole server down",
"1565238":"deeply nested code overflowed the stack and killed the process",
"052c9a0":"empty S-expressions and cram expressions panicked",
"3e69d5d":"sending to a hung player blocked for ever",
"4a2b84c":"a hanging `alda-player info` hung every command",
"965795f":"REPL export returned empty/partial files, or files of an earlier export",
"7287906":"alda export reported success for missing, partial or pre-existing files",
"813175c":"format -o/import -o truncated the user's file before failing",
"d242596":"REPL state/port files were left behind, removed from other servers, or not recreated",
"4eb1a74":"two running REPL servers could get the same three-letter ID and then shared, overwrote and removed one state file",
"419542e":"the REPL client stopped being usable after a failed or late request",
"ceed6c8":"telemetry opt-out was lost when the status file could not be read or was damaged",
"949250f":"telemetry sent a field that the user was not told about",
"da3d9fd":"clean-up deleted files that merely resemble renamed executables",
"410e1d3":"an interrupted or failed update left missing or partial executables",
"2ea0b52":"one unreachable player kept the other players from being resumed",
"4324f27":"one stale file that cannot be removed kept all others from being cleaned up",
"5a4b457":"commands failed when a state directory vanished meanwhile; errors listing REPL servers were hidden",
"4edc5ce":"a failure to spawn players hid players that were available",
"4a8c205":"doctor failed because it read the MIDI file while it was being written",
"ce4e153":"sending a score reordered its events (unstable sort of the score itself)",
"6a0f513":"after a voice group, notes entered next in the REPL were sent at the wrong time",
"9ebe5df":"a state file without a port left the server without a player for ever",
"21c4c7d":"play and export pinged (and thereby used up) a player just to decide whether to print a message; with one player available and none to be started they failed",
"2fe35d9":"alda repl filled the player pool twice at the same time and spawned six players; so did looking in vain for a player",
"0b979bc":"telemetry was enabled although the notice about it could not be written",
"f823492":"after a few loads/replays within ten seconds the server had no player for 20 s and requests failed, although players could be started",
}
lines=[]
for c in subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h"],text=True).split():
    for p in m.get(c,[]): lines.append(f"fixed: property={p} {c} {what[c]}")
json.dump({"findings":[],"fixed":lines},open("/verif/known_findings.json","w"),indent=1)
