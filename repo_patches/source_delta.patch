From 76f21951a65b71702a0366fdd400f2a6b79bd579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:35 +0000
Subject: [PATCH 01/43] fix: don't lose pipelined nREPL messages

Each call to bencode.Decode(conn) wrapped the connection in a new buffered
reader, so the bytes of any following messages that had arrived together with
the current one were thrown away: those requests were never answered, or the
connection was dropped because decoding resumed in the middle of a message.
---
 client/repl/server.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/client/repl/server.go b/client/repl/server.go
index b783404..6348c6d 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -1,6 +1,7 @@
 package repl
 
 import (
+	"bufio"
 	encjson "encoding/json"
 	"fmt"
 	"io"
@@ -291,8 +292,14 @@ func (server *Server) listen(l net.Listener) {
 		go func() {
 			defer conn.Close()
 
+			// The same buffered reader must be used for every message. If we were to
+			// pass `conn` to `bencode.Decode` instead, each call would use a buffered
+			// reader of its own and throw away whatever bytes of the next message(s)
+			// it had already read, i.e. we would lose pipelined messages.
+			reader := bufio.NewReader(conn)
+
 			for {
-				decoded, err := bencode.Decode(conn)
+				decoded, err := bencode.Decode(reader)
 
 				// I think this means the client disconnected? So assuming I'm right
 				// about that, we should stop reading and close the connection.
-- 
2.43.0


From 8c1be32dcfeac8f6074b19271d13ffaf76139c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:35 +0000
Subject: [PATCH 02/43] fix: don't leak the id and session of earlier requests
 into describe responses

The describe operation passed a package-level map to respond(), which added
the id and session of the request to that very map. A later describe request
without an id or session got those of the last one that had them.
---
 client/repl/server.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/client/repl/server.go b/client/repl/server.go
index 6348c6d..51f3f0d 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -65,24 +65,27 @@ func (server *Server) stateFile() string {
 func (server *Server) respond(
 	req nREPLRequest, status []string, data map[string]interface{},
 ) {
-	if data == nil {
-		data = make(map[string]interface{})
+	// NOTE: `data` is copied because it might be shared between responses (see
+	// `describeResponse`). The fields that we add here are only for this response.
+	response := make(map[string]interface{}, len(data)+3)
+	for k, v := range data {
+		response[k] = v
 	}
 
-	data["status"] = status
+	response["status"] = status
 
 	if session, present := req.msg["session"]; present {
-		data["session"] = session
+		response["session"] = session
 	}
 
 	if id, present := req.msg["id"]; present {
-		data["id"] = id
+		response["id"] = id
 	}
 
-	log.Info().Interface("data", data).Msg("Sending response.")
+	log.Info().Interface("data", response).Msg("Sending response.")
 
-	if err := bencode.Marshal(req.conn, data); err != nil {
-		log.Warn().Interface("data", data).Msg("Failed to send response.")
+	if err := bencode.Marshal(req.conn, response); err != nil {
+		log.Warn().Interface("data", response).Msg("Failed to send response.")
 	}
 }
 
-- 
2.43.0


From bc5aa18b6589bdec21615ef8d98393377cfc3ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:57 +0000
Subject: [PATCH 03/43] fix: don't let the REPL server go back to a player that
 it has shut down

---
 client/repl/player_management.go    | 104 +++++++++++++++++++---------
 client/repl/server.go               |  29 +++++---
 client/system/process_management.go |  12 +++-
 3 files changed, 100 insertions(+), 45 deletions(-)

diff --git a/client/repl/player_management.go b/client/repl/player_management.go
index 06d24a1..000a7d7 100644
--- a/client/repl/player_management.go
+++ b/client/repl/player_management.go
@@ -16,12 +16,12 @@ const playerPoolFillInterval = 10 * time.Second
 const pingTimeout = 5 * time.Second
 const pingInterval = 1 * time.Second
 
-func findAvailablePlayer() (system.PlayerState, error) {
+func (server *Server) findAvailablePlayer() (system.PlayerState, error) {
 	var player system.PlayerState
 
 	if err := util.Await(
 		func() error {
-			availablePlayer, err := system.FindAvailablePlayer()
+			availablePlayer, err := system.FindAvailablePlayerExcept(server.isRetired)
 			if err != nil {
 				return err
 			}
@@ -38,12 +38,14 @@ func findAvailablePlayer() (system.PlayerState, error) {
 }
 
 func (server *Server) transmitter() (transmitter.OSCTransmitter, error) {
-	if !server.hasPlayer() {
+	player := server.currentPlayer()
+
+	if player.Port == 0 {
 		return transmitter.OSCTransmitter{},
 			fmt.Errorf("no player process is available")
 	}
 
-	return transmitter.OSCTransmitter{Port: server.player.Port}, nil
+	return transmitter.OSCTransmitter{Port: player.Port}, nil
 }
 
 // Player management happens asynchronously (see the loop in `managePlayers`),
@@ -84,7 +86,32 @@ func (server *Server) withTransmitter(
 // For practical purposes, if Port is 0, then we can be reasonably certain that
 // the server doesn't have a player to talk to.
 func (server *Server) hasPlayer() bool {
-	return server.player.Port != 0
+	return server.currentPlayer().Port != 0
+}
+
+func (server *Server) currentPlayer() system.PlayerState {
+	server.playerMutex.Lock()
+	defer server.playerMutex.Unlock()
+
+	return server.player
+}
+
+// Replaces the `old` player with the `new` one, unless the server has switched
+// to a different player in the meantime or the new one has been told to shut
+// down.
+//
+// Each update that the `managePlayers` loop makes is based on information that
+// it took a while to gather (e.g. reading state files, sending pings), and a
+// request that shuts down the player can be handled during that time. If we were
+// to update the player unconditionally, we would resurrect the player that was
+// shut down, and the new score would be sent to it.
+func (server *Server) replacePlayer(old system.PlayerState, new system.PlayerState) {
+	server.playerMutex.Lock()
+	defer server.playerMutex.Unlock()
+
+	if server.player.ID == old.ID && !server.retiredPlayers[new.ID] {
+		server.player = new
+	}
 }
 
 // The `managePlayers` loop regularly checks to see if the player process that
@@ -96,8 +123,26 @@ func (server *Server) hasPlayer() bool {
 // the zero value (`system.PlayerState{}`). At that point, `server.hasPlayer()`
 // will return false, and the player process will be replaced and
 // `server.player` will be set to the current state of the new player process.
-func (server *Server) unsetPlayer() {
-	server.player = system.PlayerState{}
+func (server *Server) unsetPlayer(player system.PlayerState) {
+	server.replacePlayer(player, system.PlayerState{})
+}
+
+// Unsets a player that has been told to shut down, and ensures that the server
+// never uses it again.
+func (server *Server) retirePlayer(player system.PlayerState) {
+	server.unsetPlayer(player)
+
+	server.playerMutex.Lock()
+	defer server.playerMutex.Unlock()
+
+	server.retiredPlayers[player.ID] = true
+}
+
+func (server *Server) isRetired(player system.PlayerState) bool {
+	server.playerMutex.Lock()
+	defer server.playerMutex.Unlock()
+
+	return server.retiredPlayers[player.ID]
 }
 
 // The server has two responsibilities when it comes to managing player
@@ -133,8 +178,8 @@ func (server *Server) managePlayers() {
 
 		// If the server already has a player process that it's using, fetch updated
 		// state information about that player process.
-		if server.hasPlayer() {
-			updatedState, err := system.FindPlayerByID(server.player.ID)
+		if player := server.currentPlayer(); player.Port != 0 {
+			updatedState, err := system.FindPlayerByID(player.ID)
 
 			// FIXME: We are brittly depending on the verbiage in the error messages
 			// returned by `system.FindPlayerByID`.
@@ -142,34 +187,33 @@ func (server *Server) managePlayers() {
 			// TODO: Maybe UserFacingErrors could have an optional error code that we
 			// can depend on here?
 			if err == nil {
-				server.player = updatedState
+				server.replacePlayer(player, updatedState)
 			} else if strings.HasPrefix(err.Error(), "No player was found") {
 				// If the state information tells us that the player process no longer
 				// exists, then we forget about that player process and a new one will be
 				// found to replace it shortly.
 				log.Warn().
-					Interface("player", server.player).
+					Interface("player", player).
 					Msg("Player process is offline.")
-				server.unsetPlayer()
+				server.unsetPlayer(player)
 			} else {
 				log.Warn().Err(err).Msg("Failed to update player state information.")
 			}
 		}
 
 		if !server.hasPlayer() {
-			player, err := findAvailablePlayer()
+			player, err := server.findAvailablePlayer()
 			if err != nil {
 				log.Warn().Err(err).Msg("No player processes available.")
 			} else {
 				log.Info().Interface("player", player).Msg("Found player process.")
-				server.player = player
+				server.replacePlayer(system.PlayerState{}, player)
 			}
 		}
 
-		if server.hasPlayer() && now.Sub(lastPing) > pingInterval {
-			// We can safely ignore `err` here because it should always be nil, given
-			// that we just checked that `server.hasPlayer()` is true.
-			transmitter, _ := server.transmitter()
+		if player := server.currentPlayer(); player.Port != 0 &&
+			now.Sub(lastPing) > pingInterval {
+			transmitter := transmitter.OSCTransmitter{Port: player.Port}
 
 			if err := util.Await(
 				func() error { return transmitter.TransmitPingMessage() },
@@ -177,13 +221,13 @@ func (server *Server) managePlayers() {
 			); err != nil {
 				log.Warn().
 					Err(err).
-					Interface("player", server.player).
+					Interface("player", player).
 					Msg("Player process unreachable.")
 
-				server.unsetPlayer()
+				server.unsetPlayer(player)
 			} else {
 				log.Debug().
-					Interface("player", server.player).
+					Interface("player", player).
 					Msg("Sent ping to player process.")
 			}
 
@@ -194,12 +238,10 @@ func (server *Server) managePlayers() {
 	}
 }
 
-func (server *Server) shutdownPlayer() error {
-	if err := server.withTransmitter(
-		func(transmitter transmitter.OSCTransmitter) error {
-			return transmitter.TransmitShutdownMessage(0)
-		},
-	); err != nil {
+func (server *Server) shutdownPlayer(player system.PlayerState) error {
+	transmitter := transmitter.OSCTransmitter{Port: player.Port}
+
+	if err := transmitter.TransmitShutdownMessage(0); err != nil {
 		return err
 	}
 
@@ -207,13 +249,7 @@ func (server *Server) shutdownPlayer() error {
 	// the same player process while it's in the process of shutting down. (This
 	// might also speed up the process of the `managePlayers` loop discovering
 	// that there is no player available, prompting it to find a replacement.)
-	//
-	// (Technically, there is still a potential race condition here where the
-	// `managePlayers` loop un-sets the player before we get to this line, so
-	// we double-unset it. But the risk is low because even if that happens, the
-	// worst case scenario is that we would end up replacing the player twice, and
-	// even if that happens, we would still end up with a player to use below.)
-	server.unsetPlayer()
+	server.retirePlayer(player)
 
 	return nil
 }
diff --git a/client/repl/server.go b/client/repl/server.go
index 51f3f0d..28ecb82 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -12,6 +12,7 @@ import (
 	"path/filepath"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/google/uuid"
@@ -50,7 +51,16 @@ type Server struct {
 	// any new events that are added to the score when input is added.
 	eventIndex int
 	// The server's most recent information about the player process it is using.
+	//
+	// Requests and the `managePlayers` loop run concurrently and both of them can
+	// change this, so it must only be accessed via `currentPlayer` and
+	// `replacePlayer` (see repl/player_management.go).
 	player system.PlayerState
+	// The IDs of player processes that the server has told to shut down, and that
+	// it therefore must not use again.
+	retiredPlayers map[string]bool
+	// Guards `player` and `retiredPlayers`.
+	playerMutex sync.Mutex
 	// A queue onto which bdecoded messages from clients are placed in one
 	// routine. In another routine, the messages are handled synchronously, one at
 	// a time. Therefore, messages can be received asynchronously, but results are
@@ -113,8 +123,8 @@ func (server *Server) respondError(
 }
 
 func (server *Server) resetState() error {
-	if server.hasPlayer() {
-		if err := server.shutdownPlayer(); err != nil {
+	if player := server.currentPlayer(); player.Port != 0 {
+		if err := server.shutdownPlayer(player); err != nil {
 			return err
 		}
 	}
@@ -142,9 +152,10 @@ func generateId() string {
 // NewServer returns an initialized instance of an Alda REPL server.
 func NewServer(port int) *Server {
 	server := &Server{
-		id:           generateId(),
-		Port:         port,
-		requestQueue: make(chan nREPLRequest),
+		id:             generateId(),
+		Port:           port,
+		retiredPlayers: map[string]bool{},
+		requestQueue:   make(chan nREPLRequest),
 	}
 	server.resetState()
 	return server
@@ -530,7 +541,7 @@ var ops = map[string]func(*Server, nREPLRequest){
 		if err := server.withTransmitter(
 			func(transmitter transmitter.OSCTransmitter) error {
 				log.Info().
-					Interface("player", server.player).
+					Interface("player", server.currentPlayer()).
 					Msg("Sending \"stop\" message to player process.")
 				return transmitter.TransmitStopMessage()
 			},
@@ -636,7 +647,7 @@ func (server *Server) evalAndPlay(
 			}
 
 			log.Info().
-				Interface("player", server.player).
+				Interface("player", server.currentPlayer()).
 				Msg("Sending OSC messages to player.")
 
 			return transmitter.TransmitScore(
@@ -662,7 +673,7 @@ func (server *Server) load(input string) error {
 			transmitOpts = append(transmitOpts, transmitter.LoadOnly())
 
 			log.Info().
-				Interface("player", server.player).
+				Interface("player", server.currentPlayer()).
 				Msg("Transmitting score to player.")
 
 			err = t.TransmitScore(server.score, transmitOpts...)
@@ -679,7 +690,7 @@ func (server *Server) load(input string) error {
 			}
 
 			log.Info().
-				Interface("player", server.player).
+				Interface("player", server.currentPlayer()).
 				Int32("newOffset", newOffset).
 				Msg("Transmitting new offset to player.")
 
diff --git a/client/system/process_management.go b/client/system/process_management.go
index 2630ac1..c6771c8 100644
--- a/client/system/process_management.go
+++ b/client/system/process_management.go
@@ -379,13 +379,21 @@ func PingPlayer(port int) (*osc.Client, error) {
 // Returns `ErrNoPlayersAvailable` if no player is currently in an available
 // state.
 func FindAvailablePlayer() (PlayerState, error) {
+	return FindAvailablePlayerExcept(func(PlayerState) bool { return false })
+}
+
+// FindAvailablePlayerExcept is like FindAvailablePlayer, but it skips players
+// for which `excluded` returns true.
+func FindAvailablePlayerExcept(
+	excluded func(PlayerState) bool,
+) (PlayerState, error) {
 	players, err := ReadPlayerStates()
 	if err != nil {
 		return PlayerState{}, err
 	}
 
 	for _, player := range players {
-		if player.State != "ready" {
+		if player.State != "ready" || excluded(player) {
 			continue
 		}
 
@@ -403,7 +411,7 @@ func FindAvailablePlayer() (PlayerState, error) {
 				return PlayerState{}, err
 			}
 
-			return FindAvailablePlayer()
+			return FindAvailablePlayerExcept(excluded)
 		}
 
 		return player, nil
-- 
2.43.0


From 5669d27203b519a9f900c7716fc35f1aff646474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:00 +0000
Subject: [PATCH 04/43] fix: don't abandon a player while it is rewriting its
 state file

---
 client/repl/player_management.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/client/repl/player_management.go b/client/repl/player_management.go
index 000a7d7..975fe87 100644
--- a/client/repl/player_management.go
+++ b/client/repl/player_management.go
@@ -15,6 +15,7 @@ const findPlayerTimeout = 20 * time.Second
 const playerPoolFillInterval = 10 * time.Second
 const pingTimeout = 5 * time.Second
 const pingInterval = 1 * time.Second
+const playerLostTimeout = 1 * time.Second
 
 func (server *Server) findAvailablePlayer() (system.PlayerState, error) {
 	var player system.PlayerState
@@ -179,13 +180,33 @@ func (server *Server) managePlayers() {
 		// If the server already has a player process that it's using, fetch updated
 		// state information about that player process.
 		if player := server.currentPlayer(); player.Port != 0 {
-			updatedState, err := system.FindPlayerByID(player.ID)
-
+			var updatedState system.PlayerState
+			var err error
+
+			// Player processes rewrite their state files in place, so there are
+			// moments when a state file is empty or incomplete and we can't read it.
+			// To avoid concluding too hastily that the player process is gone (and
+			// abandoning it while it's playing), we make sure that the state file is
+			// still missing a little while later.
+			//
 			// FIXME: We are brittly depending on the verbiage in the error messages
 			// returned by `system.FindPlayerByID`.
 			//
 			// TODO: Maybe UserFacingErrors could have an optional error code that we
 			// can depend on here?
+			util.Await(
+				func() error {
+					updatedState, err = system.FindPlayerByID(player.ID)
+					if err != nil && strings.HasPrefix(err.Error(), "No player was found") &&
+						server.currentPlayer().ID == player.ID {
+						return err
+					}
+
+					return nil
+				},
+				playerLostTimeout,
+			)
+
 			if err == nil {
 				server.replacePlayer(player, updatedState)
 			} else if strings.HasPrefix(err.Error(), "No player was found") {
-- 
2.43.0


From c9db3331ce64cb8ef8b947e92ea65b2c9366b548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 05/43] fix: keep the score when a REPL request fails

---
 client/repl/server.go | 143 +++++++++++++++++++++++++++++++++---------
 1 file changed, 115 insertions(+), 28 deletions(-)

diff --git a/client/repl/server.go b/client/repl/server.go
index 28ecb82..c1d61ed 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -44,6 +44,9 @@ type Server struct {
 	// The string of input that is built up over time as clients submit code, line
 	// by line, to be evaluated and added to the score.
 	input string
+	// The individual strings of code that `input` consists of. In the event that a
+	// request fails after changing the score, these are used to restore it.
+	inputs []string
 	// The stateful score object that should correspond to the input received so
 	// far.
 	score *model.Score
@@ -129,11 +132,64 @@ func (server *Server) resetState() error {
 		}
 	}
 
+	server.resetScore()
+
+	return nil
+}
+
+func (server *Server) resetScore() {
 	server.input = ""
+	server.inputs = nil
 	server.score = model.NewScore()
 	server.eventIndex = 0
+}
 
-	return nil
+// Restores the score to what it was when it consisted of the provided `inputs`.
+//
+// This undoes the effects of input that was added to the score (in part or in
+// full) before something went wrong.
+func (server *Server) restoreScore(inputs []string) {
+	server.resetScore()
+
+	for _, input := range inputs {
+		scoreUpdates, err := parseInput(input)
+		if err == nil {
+			err = server.addToScore(input, scoreUpdates)
+		}
+		if err != nil {
+			log.Error().Err(err).Msg("Failed to restore score.")
+		}
+	}
+}
+
+// Resets the server state and then runs `execute`, a function that builds up the
+// state again.
+//
+// If `execute` returns an error, the previous score is restored. Also, if the
+// server has a new player at that point, that player is abandoned, because it
+// might have received part of the score that we failed to build up.
+func (server *Server) startingFresh(execute func() error) error {
+	input, inputs := server.input, server.inputs
+	score, eventIndex := server.score, server.eventIndex
+
+	if err := server.resetState(); err != nil {
+		return err
+	}
+
+	err := execute()
+	if err != nil {
+		if player := server.currentPlayer(); player.Port != 0 {
+			if shutdownErr := server.shutdownPlayer(player); shutdownErr != nil {
+				log.Warn().Err(shutdownErr).Msg("Failed to shut down player process.")
+				server.retirePlayer(player)
+			}
+		}
+
+		server.input, server.inputs = input, inputs
+		server.score, server.eventIndex = score, eventIndex
+	}
+
+	return err
 }
 
 // Adapted from: https://www.calhoun.io/creating-random-strings-in-go/
@@ -579,6 +635,36 @@ func (server *Server) handleRequests() {
 	}
 }
 
+func parseInput(input string) ([]model.ScoreUpdate, error) {
+	ast, err := parser.ParseString(input)
+	if err != nil {
+		return nil, err
+	}
+
+	return ast.Updates()
+}
+
+// Applies the updates that a string of `input` results in to the server's score
+// and adds the input to the server's input.
+func (server *Server) addToScore(
+	input string, scoreUpdates []model.ScoreUpdate,
+) error {
+	if err := server.score.Update(scoreUpdates...); err != nil {
+		return err
+	}
+
+	// Add the provided `input` to our total string of input representing the
+	// entire score.
+	server.input += strings.TrimSpace(input) + "\n"
+	server.inputs = append(server.inputs, input)
+
+	// Update the starting index so that the next invocation of `evalAndPlay` for
+	// this same score will result in only playing newly added events.
+	server.eventIndex = len(server.score.Events)
+
+	return nil
+}
+
 // Parses a string of `input`, updates the server's score and related state, and
 // returns a list of transmission options that would make it so that we're
 // transmitting only the new events that resulted from this string of input.
@@ -594,28 +680,19 @@ func (server *Server) updateScoreWithInput(
 	// playing from when we want to play the new events.
 	eventIndex := server.eventIndex
 
-	ast, err := parser.ParseString(input)
+	scoreUpdates, err := parseInput(input)
 	if err != nil {
 		return nil, err
 	}
 
-	scoreUpdates, err := ast.Updates()
-	if err != nil {
+	inputs := server.inputs
+	if err := server.addToScore(input, scoreUpdates); err != nil {
+		// Evaluation can fail part-way through the input, in which case the score
+		// already includes the part before that.
+		server.restoreScore(inputs)
 		return nil, err
 	}
 
-	if err := server.score.Update(scoreUpdates...); err != nil {
-		return nil, err
-	}
-
-	// Add the provided `input` to our total string of input representing the
-	// entire score.
-	server.input += strings.TrimSpace(input) + "\n"
-
-	// Update the starting index so that the next invocation of `evalAndPlay` for
-	// this same score will result in only playing newly added events.
-	server.eventIndex = len(server.score.Events)
-
 	return []transmitter.TransmissionOption{
 		// Transmit only the new events, i.e. events added as a result of parsing
 		// the provided `input` and applying the resulting updates to the score.
@@ -641,6 +718,8 @@ func (server *Server) evalAndPlay(
 ) error {
 	return server.withTransmitter(
 		func(transmitter transmitter.OSCTransmitter) error {
+			inputs := server.inputs
+
 			transmitOpts, err := server.updateScoreWithInput(input)
 			if err != nil {
 				return err
@@ -650,19 +729,29 @@ func (server *Server) evalAndPlay(
 				Interface("player", server.currentPlayer()).
 				Msg("Sending OSC messages to player.")
 
-			return transmitter.TransmitScore(
+			if err := transmitter.TransmitScore(
 				server.score,
 				(append(transmitOpts, additionalTransmitOpts...))...,
-			)
+			); err != nil {
+				server.restoreScore(inputs)
+				return err
+			}
+
+			return nil
 		},
 	)
 }
 
 func (server *Server) load(input string) error {
-	if err := server.resetState(); err != nil {
+	// There is no need to reset anything if the input isn't valid to begin with.
+	if _, err := parseInput(input); err != nil {
 		return err
 	}
 
+	return server.startingFresh(func() error { return server.loadScore(input) })
+}
+
+func (server *Server) loadScore(input string) error {
 	return server.withTransmitter(
 		func(t transmitter.OSCTransmitter) error {
 			transmitOpts, err := server.updateScoreWithInput(input)
@@ -722,15 +811,13 @@ func (server *Server) replay(
 	// between the user entering each line of REPL input, which we are presuming
 	// is not what the user wants. (This would also be a departure from the
 	// behavior of `:play` in the Alda v1 REPL.)
-	if err := server.resetState(); err != nil {
-		return err
-	}
-
-	// At this point, the `managePlayers` loop should find a replacement for the
-	// player, and this should generally happen quickly. `server.evalAndPlay` will
-	// handle the case that a player process isn't immediately available, so it's
-	// OK for us to call it immediately after resetting the state.
-	return server.evalAndPlay(input, transmitOpts...)
+	return server.startingFresh(func() error {
+		// At this point, the `managePlayers` loop should find a replacement for the
+		// player, and this should generally happen quickly. `server.evalAndPlay`
+		// will handle the case that a player process isn't immediately available, so
+		// it's OK for us to call it immediately after resetting the state.
+		return server.evalAndPlay(input, transmitOpts...)
+	})
 }
 
 // Reloads the score into a fresh player, sends a "MIDI export" message to the
-- 
2.43.0


From d3efbce03e372ac7f978508dfd345af4de8cf675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 06/43] fix: survive malformed nREPL messages

---
 client/repl/bencode.go | 146 +++++++++++++++++++++++++++++++++++++++++
 client/repl/server.go  |  10 +--
 2 files changed, 151 insertions(+), 5 deletions(-)
 create mode 100644 client/repl/bencode.go

diff --git a/client/repl/bencode.go b/client/repl/bencode.go
new file mode 100644
index 0000000..675ba2d
--- /dev/null
+++ b/client/repl/bencode.go
@@ -0,0 +1,146 @@
+package repl
+
+import (
+	"bufio"
+	"bytes"
+	"errors"
+	"io"
+	"strconv"
+
+	bencode "github.com/jackpal/bencode-go"
+)
+
+// These limits are far beyond anything that a client could reasonably send. They
+// exist to prevent a malformed message from exhausting the memory or the stack
+// of the server process.
+const maxMessageSize = 64 * 1024 * 1024
+const maxMessageDepth = 100
+
+var errMalformedMessage = errors.New("malformed message")
+var errMessageTooLarge = errors.New("message is too large")
+var errMessageTooDeep = errors.New("message is nested too deeply")
+
+// readMessage reads and bdecodes a single message.
+//
+// Returns `io.EOF` if there are no more messages to read.
+//
+// The bencode library trusts its input, e.g. it allocates as many bytes as the
+// length prefix of a string says. So before we hand over the message to it, we
+// make sure that the message is complete, well-formed, and reasonably sized.
+func readMessage(reader *bufio.Reader) (interface{}, error) {
+	message := &bytes.Buffer{}
+
+	if err := readValue(reader, message, 0); err != nil {
+		if err == io.EOF && message.Len() > 0 {
+			err = io.ErrUnexpectedEOF
+		}
+
+		return nil, err
+	}
+
+	return bencode.Decode(message)
+}
+
+// readValue reads a single bencoded value and appends it to `message`.
+func readValue(
+	reader *bufio.Reader, message *bytes.Buffer, depth int,
+) error {
+	if depth > maxMessageDepth {
+		return errMessageTooDeep
+	}
+
+	if message.Len() >= maxMessageSize {
+		return errMessageTooLarge
+	}
+
+	c, err := reader.ReadByte()
+	if err != nil {
+		return err
+	}
+	message.WriteByte(c)
+
+	switch {
+	case c == 'i':
+		_, err := readUntil(reader, message, 'e')
+		return err
+
+	case c == 'l' || c == 'd':
+		for i := 0; ; i++ {
+			next, err := reader.Peek(1)
+			if err != nil {
+				return err
+			}
+
+			// The keys in a dictionary are strings, and each one has a value.
+			isKey := c == 'd' && i%2 == 0
+			isValue := c == 'd' && i%2 == 1
+
+			if next[0] == 'e' && !isValue {
+				reader.ReadByte()
+				message.WriteByte('e')
+				return nil
+			}
+
+			if isKey && !isDigit(next[0]) {
+				return errMalformedMessage
+			}
+
+			if err := readValue(reader, message, depth+1); err != nil {
+				return err
+			}
+		}
+
+	case isDigit(c):
+		digits, err := readUntil(reader, message, ':')
+		if err != nil {
+			return err
+		}
+
+		length, err := strconv.Atoi(string(c) + digits)
+		if err != nil || length < 0 {
+			return errMalformedMessage
+		}
+
+		if length > maxMessageSize-message.Len() {
+			return errMessageTooLarge
+		}
+
+		_, err = io.CopyN(message, reader, int64(length))
+		return err
+
+	default:
+		return errMalformedMessage
+	}
+}
+
+func isDigit(c byte) bool {
+	return c >= '0' && c <= '9'
+}
+
+// readUntil reads a number that is terminated by `delim`, appends it (including
+// the delimiter) to `message`, and returns it (excluding the delimiter).
+func readUntil(
+	reader *bufio.Reader, message *bytes.Buffer, delim byte,
+) (string, error) {
+	const maxLength = 64
+
+	number := []byte{}
+
+	for {
+		c, err := reader.ReadByte()
+		if err != nil {
+			return "", err
+		}
+		message.WriteByte(c)
+
+		if c == delim {
+			return string(number), nil
+		}
+
+		if len(number) == maxLength {
+			return "", errMalformedMessage
+		}
+
+		number = append(number, c)
+	}
+}
diff --git a/client/repl/server.go b/client/repl/server.go
index c1d61ed..d3449b9 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -362,14 +362,14 @@ func (server *Server) listen(l net.Listener) {
 		go func() {
 			defer conn.Close()
 
-			// The same buffered reader must be used for every message. If we were to
-			// pass `conn` to `bencode.Decode` instead, each call would use a buffered
-			// reader of its own and throw away whatever bytes of the next message(s)
-			// it had already read, i.e. we would lose pipelined messages.
+			// The same buffered reader must be used for every message. If each message
+			// were read with a buffered reader of its own, we would throw away whatever
+			// bytes of the next message(s) it had already read, i.e. we would lose
+			// pipelined messages.
 			reader := bufio.NewReader(conn)
 
 			for {
-				decoded, err := bencode.Decode(reader)
+				decoded, err := readMessage(reader)
 
 				// I think this means the client disconnected? So assuming I'm right
 				// about that, we should stop reading and close the connection.
-- 
2.43.0


From e3529132ee66f9b2ac5ee4844a9f09591b26fc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 07/43] fix: don't let a client that doesn't read its responses
 block the REPL server

---
 client/repl/server.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/client/repl/server.go b/client/repl/server.go
index d3449b9..f7c4816 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -2,6 +2,7 @@ package repl
 
 import (
 	"bufio"
+	"bytes"
 	encjson "encoding/json"
 	"fmt"
 	"io"
@@ -29,6 +30,7 @@ import (
 )
 
 const midiExportTimeout = 20 * time.Second
+const responseTimeout = 5 * time.Second
 
 type nREPLRequest struct {
 	conn net.Conn
@@ -97,8 +99,23 @@ func (server *Server) respond(
 
 	log.Info().Interface("data", response).Msg("Sending response.")
 
-	if err := bencode.Marshal(req.conn, response); err != nil {
-		log.Warn().Interface("data", response).Msg("Failed to send response.")
+	var encoded bytes.Buffer
+	if err := bencode.Marshal(&encoded, response); err != nil {
+		log.Warn().Err(err).Interface("data", response).Msg("Failed to encode response.")
+		return
+	}
+
+	// Requests from all clients are handled one at a time, so if we were to wait
+	// indefinitely for a client that isn't reading its responses, that client would
+	// be preventing all of the other ones from using the server.
+	req.conn.SetWriteDeadline(time.Now().Add(responseTimeout))
+
+	if _, err := req.conn.Write(encoded.Bytes()); err != nil {
+		log.Warn().Err(err).Interface("data", response).Msg("Failed to send response.")
+
+		// The client might have received part of the response, so there is no way to
+		// send it any further responses.
+		req.conn.Close()
 	}
 }
 
-- 
2.43.0


From 939fe5a68d9a5edbc15e90acee469d3d09d586d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:17 +0000
Subject: [PATCH 08/43] fix: don't let a request that panics take down the REPL
 server

---
 client/repl/server.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/client/repl/server.go b/client/repl/server.go
index f7c4816..d1e7760 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -648,10 +648,31 @@ func (server *Server) handleRequests() {
 			continue
 		}
 
-		handler(server, req)
+		server.handle(handler, req)
 	}
 }
 
+// Handles a single request. If the handler panics, the client gets an error
+// response and the server carries on.
+func (server *Server) handle(
+	handler func(*Server, nREPLRequest), req nREPLRequest,
+) {
+	inputs := server.inputs
+
+	defer func() {
+		if problem := recover(); problem != nil {
+			log.Error().
+				Interface("problem", problem).
+				Msg("Failed to handle request.")
+
+			server.restoreScore(inputs)
+			server.respondError(req, fmt.Sprintf("internal error: %v", problem), nil)
+		}
+	}()
+
+	handler(server, req)
+}
+
 func parseInput(input string) ([]model.ScoreUpdate, error) {
 	ast, err := parser.ParseString(input)
 	if err != nil {
-- 
2.43.0


From 1565238c70b6c78398a27c6ed962a74bf234cc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 09/43] fix: don't overflow the stack on deeply nested code

---
 client/parser/parser.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/client/parser/parser.go b/client/parser/parser.go
index 817c83e..932037e 100644
--- a/client/parser/parser.go
+++ b/client/parser/parser.go
@@ -20,8 +20,15 @@ type parser struct {
 	// useful for testing, e.g. for checking the equality of a list of expected
 	// tokens, agnostic of source context like line and column numbers.
 	suppressSourceContext bool
+	// How many event sequences, cram expressions, S-expressions, etc. we are
+	// currently inside of.
+	depth int
 }
 
+// Arbitrarily deep nesting would make us (and everything else that processes the
+// AST recursively) run out of stack space, which is a fatal error in Go.
+const maxNestingDepth = 500
+
 // A parseOption is a function that customizes a parser instance.
 type parseOption func(*parser)
 
@@ -130,6 +137,22 @@ func (p *parser) consume(tokenType TokenType, context string) (Token, error) {
 	return Token{}, p.unexpectedTokenError(p.peek(), context)
 }
 
+// Keeps track of nesting while running `parse`, a function that parses something
+// that can be nested. Returns an error if the nesting is too deep.
+func (p *parser) nested(parse func() (ASTNode, error)) (ASTNode, error) {
+	if p.depth == maxNestingDepth {
+		return ASTNode{}, p.errorAtToken(
+			p.previous(),
+			fmt.Sprintf("nested too deeply (more than %d levels)", maxNestingDepth),
+		)
+	}
+
+	p.depth++
+	defer func() { p.depth-- }()
+
+	return parse()
+}
+
 func (p *parser) lispForm(context string) (ASTNode, error) {
 	if token, matched := p.match(Symbol); matched {
 		return ASTNode{
@@ -156,7 +179,7 @@ func (p *parser) lispForm(context string) (ASTNode, error) {
 	}
 
 	if _, matched := p.match(LeftParen); matched {
-		return p.lispList()
+		return p.nested(p.lispList)
 	}
 
 	return ASTNode{}, p.unexpectedTokenError(p.peek(), context)
@@ -425,7 +448,7 @@ func (p *parser) variableReference() (ASTNode, error) {
 func (p *parser) variableDefinitionOrReference() (ASTNode, error) {
 	// NB: This assumes the initial Name token was already consumed.
 	if p.check(Equals) {
-		return p.variableDefinition()
+		return p.nested(p.variableDefinition)
 	}
 
 	return p.variableReference()
@@ -1038,11 +1061,11 @@ func (p *parser) innerEvent() (ASTNode, error) {
 	}
 
 	if _, matched := p.match(EventSeqOpen); matched {
-		return p.eventSeq()
+		return p.nested(p.eventSeq)
 	}
 
 	if _, matched := p.match(CramOpen); matched {
-		return p.cram()
+		return p.nested(p.cram)
 	}
 
 	if _, matched := p.match(VoiceMarker); matched {
-- 
2.43.0


From 052c9a004caa1a597efbee553016c6e8831fc3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 10/43] fix: report an error instead of panicking on empty cram
 and S-expressions

---
 client/model/lisp.go    | 10 +++++++---
 client/parser/parser.go |  5 ++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/client/model/lisp.go b/client/model/lisp.go
index c8965fc..1a8b6db 100644
--- a/client/model/lisp.go
+++ b/client/model/lisp.go
@@ -1671,6 +1671,10 @@ func (l LispList) Eval() (LispForm, error) {
 		}
 	}
 
+	if len(l.Elements) == 0 {
+		return nil, sourceError(fmt.Errorf("empty S-expression"))
+	}
+
 	operator, err := l.Elements[0].Eval()
 	if err != nil {
 		return nil, err
@@ -1680,10 +1684,10 @@ func (l LispList) Eval() (LispForm, error) {
 	// TODO: consider turning this into an interface?
 	switch operator.(type) {
 	case LispSpecialFormQuote:
-		if len(l.Elements[1:]) > 1 {
-			return nil, fmt.Errorf(
+		if len(l.Elements[1:]) != 1 {
+			return nil, sourceError(fmt.Errorf(
 				"expected 1 argument to quote, got %d", len(l.Elements[1:]),
-			)
+			))
 		}
 
 		return l.Elements[1], nil
diff --git a/client/parser/parser.go b/client/parser/parser.go
index 932037e..dd03fdc 100644
--- a/client/parser/parser.go
+++ b/client/parser/parser.go
@@ -925,9 +925,12 @@ func (p *parser) cram() (ASTNode, error) {
 
 	eventsNode := ASTNode{
 		Type:          EventSequenceNode,
-		SourceContext: allEvents[0].SourceContext,
+		SourceContext: p.sourceContext(cramOpenToken),
 		Children:      allEvents,
 	}
+	if len(allEvents) > 0 {
+		eventsNode.SourceContext = allEvents[0].SourceContext
+	}
 
 	cram := ASTNode{
 		Type:          CramNode,
-- 
2.43.0


From 3e69d5d5702c4bb3937595b1d04346b42762f782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 11/43] fix: don't hang when sending messages to a player that
 hangs

---
 client/system/process_management.go |  3 +-
 client/transmitter/osc.go           | 46 +++++++++++++++++++++++------
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/client/system/process_management.go b/client/system/process_management.go
index c6771c8..4cb0c85 100644
--- a/client/system/process_management.go
+++ b/client/system/process_management.go
@@ -15,6 +15,7 @@ import (
 	"alda.io/client/generated"
 	"alda.io/client/help"
 	log "alda.io/client/logging"
+	"alda.io/client/transmitter"
 	"alda.io/client/util"
 
 	"github.com/daveyarwood/go-osc/osc"
@@ -357,7 +358,7 @@ func PingPlayer(port int) (*osc.Client, error) {
 
 	err := util.Await(
 		func() error {
-			return client.Send(osc.NewMessage("/ping"))
+			return transmitter.OSCTransmitter{Port: port}.TransmitPingMessage()
 		},
 		reasonableTimeout,
 	)
diff --git a/client/transmitter/osc.go b/client/transmitter/osc.go
index 804e543..c491276 100644
--- a/client/transmitter/osc.go
+++ b/client/transmitter/osc.go
@@ -3,6 +3,7 @@ package transmitter
 import (
 	"fmt"
 	"math"
+	"net"
 	"sort"
 	"time"
 
@@ -11,6 +12,9 @@ import (
 	"github.com/daveyarwood/go-osc/osc"
 )
 
+const connectTimeout = 5 * time.Second
+const sendTimeout = 10 * time.Second
+
 // OSCTransmitter sends OSC messages to a player process.
 type OSCTransmitter struct {
 	Port int
@@ -91,38 +95,62 @@ func midiPanningMsg(track int32, channel int32, offset int32, panning int32) *os
 	return msg
 }
 
-func oscClient(port int) *osc.Client {
-	return osc.NewClient("127.0.0.1", int(port), osc.ClientProtocol(osc.TCP))
+// Sends an OSC packet to a player process.
+//
+// A player process that hangs still has a listening socket, so (depending on how
+// full the socket's backlog and buffers are) connecting to it and writing to the
+// connection can block indefinitely. To avoid hanging along with it, we give up
+// after a reasonable amount of time.
+func (oe OSCTransmitter) send(packet osc.Packet) error {
+	data, err := packet.MarshalBinary()
+	if err != nil {
+		return err
+	}
+
+	conn, err := net.DialTimeout(
+		"tcp", fmt.Sprintf("127.0.0.1:%d", oe.Port), connectTimeout,
+	)
+	if err != nil {
+		return err
+	}
+	defer conn.Close()
+
+	if err := conn.SetWriteDeadline(time.Now().Add(sendTimeout)); err != nil {
+		return err
+	}
+
+	_, err = conn.Write(data)
+	return err
 }
 
 // TransmitMidiExportMessage sends a "MIDI export" message to a player process.
 func (oe OSCTransmitter) TransmitMidiExportMessage(filename string) error {
-	return oscClient(oe.Port).Send(systemMidiExportMsg(filename))
+	return oe.send(systemMidiExportMsg(filename))
 }
 
 // TransmitPingMessage sends a "ping" message to a player process.
 func (oe OSCTransmitter) TransmitPingMessage() error {
-	return oscClient(oe.Port).Send(pingMsg())
+	return oe.send(pingMsg())
 }
 
 // TransmitPlayMessage sends a "play" message to a player process.
 func (oe OSCTransmitter) TransmitPlayMessage() error {
-	return oscClient(oe.Port).Send(systemPlayMsg())
+	return oe.send(systemPlayMsg())
 }
 
 // TransmitStopMessage sends a "stop" message to a player process.
 func (oe OSCTransmitter) TransmitStopMessage() error {
-	return oscClient(oe.Port).Send(systemStopMsg())
+	return oe.send(systemStopMsg())
 }
 
 // TransmitShutdownMessage sends a "shutdown" message to a player process.
 func (oe OSCTransmitter) TransmitShutdownMessage(offset int32) error {
-	return oscClient(oe.Port).Send(systemShutdownMsg(offset))
+	return oe.send(systemShutdownMsg(offset))
 }
 
 // TransmitOffsetMessage sends an "offset" message to a player process.
 func (oe OSCTransmitter) TransmitOffsetMessage(offset int32) error {
-	return oscClient(oe.Port).Send(systemOffsetMsg(offset))
+	return oe.send(systemOffsetMsg(offset))
 }
 
 func tempoMessages(
@@ -443,5 +471,5 @@ func (oe OSCTransmitter) TransmitScore(
 		Interface("bundle", bundle).
 		Msg("Sending OSC bundle.")
 
-	return oscClient(oe.Port).Send(bundle)
+	return oe.send(bundle)
 }
-- 
2.43.0


From 4a2b84c1406847778d8287cee9ba078586a19803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:00 +0000
Subject: [PATCH 12/43] fix: don't hang when alda-player info hangs

---
 client/system/process_management.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/client/system/process_management.go b/client/system/process_management.go
index 4cb0c85..161187a 100644
--- a/client/system/process_management.go
+++ b/client/system/process_management.go
@@ -1,6 +1,7 @@
 package system
 
 import (
+	"context"
 	"encoding/json"
 	"errors"
 	"fmt"
@@ -476,7 +477,11 @@ func AldaPlayerPath() (playerPath string, sameVersion bool, err error) {
 		return "", false, ErrAldaPlayerNotFoundOnPath
 	}
 
-	infoCmd := exec.Command(aldaPlayer, "info")
+	// If the player hangs, we don't want to hang along with it.
+	ctx, cancel := context.WithTimeout(context.Background(), reasonableTimeout)
+	defer cancel()
+
+	infoCmd := exec.CommandContext(ctx, aldaPlayer, "info")
 	infoCmd.Stdout = nil
 	infoCmd.Stderr = nil
 	outputBytes, err := infoCmd.Output()
-- 
2.43.0


From 965795fd7e3fa806b63f1fc1d39e395451db70e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 13/43] fix: don't return incomplete or foreign MIDI files from
 REPL exports

---
 client/repl/server.go | 78 ++++++++++++++++++++++++-------------------
 client/util/files.go  | 76 +++++++++++++++++++++++++++++++++++++++++
 client/util/midi.go   | 67 +++++++++++++++++++++++++++++++++++++
 3 files changed, 187 insertions(+), 34 deletions(-)
 create mode 100644 client/util/files.go
 create mode 100644 client/util/midi.go

diff --git a/client/repl/server.go b/client/repl/server.go
index d1e7760..1f49d0c 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -781,15 +781,29 @@ func (server *Server) evalAndPlay(
 }
 
 func (server *Server) load(input string) error {
+	return server.loadAndThen(
+		input, func(transmitter.OSCTransmitter) error { return nil },
+	)
+}
+
+// Loads the score into a fresh player and then runs `execute`, a function that
+// uses an OSCTransmitter that transmits to that very player.
+func (server *Server) loadAndThen(
+	input string, execute func(transmitter.OSCTransmitter) error,
+) error {
 	// There is no need to reset anything if the input isn't valid to begin with.
 	if _, err := parseInput(input); err != nil {
 		return err
 	}
 
-	return server.startingFresh(func() error { return server.loadScore(input) })
+	return server.startingFresh(
+		func() error { return server.loadScoreAndThen(input, execute) },
+	)
 }
 
-func (server *Server) loadScore(input string) error {
+func (server *Server) loadScoreAndThen(
+	input string, execute func(transmitter.OSCTransmitter) error,
+) error {
 	return server.withTransmitter(
 		func(t transmitter.OSCTransmitter) error {
 			transmitOpts, err := server.updateScoreWithInput(input)
@@ -821,15 +835,15 @@ func (server *Server) loadScore(input string) error {
 				Int32("newOffset", newOffset).
 				Msg("Transmitting new offset to player.")
 
-			return t.TransmitOffsetMessage(newOffset)
+			if err := t.TransmitOffsetMessage(newOffset); err != nil {
+				return err
+			}
+
+			return execute(t)
 		},
 	)
 }
 
-func (server *Server) reload() error {
-	return server.load(server.input)
-}
-
 func (server *Server) replay(
 	transmitOpts ...transmitter.TransmissionOption,
 ) error {
@@ -864,23 +878,11 @@ func (server *Server) replay(
 //
 // Returns an error if something goes wrong somewhere along the way.
 func (server *Server) export() ([]byte, error) {
-	// Reloading the score is important because of the subtleties of the tempo
-	// messages in the MIDI sequence.
-	//
-	// When we're evaluating Alda code interactively at the REPL, we suppress
-	// tempo messages because they serve no immediate purpose.
-	//
-	// When it comes time to export the score, we reload the input into the MIDI
-	// sequencer, which does include sending tempo messages, so that the MIDI
-	// sequence includes tempo changes in the places where we want them.
-	if err := server.reload(); err != nil {
-		return nil, err
-	}
-
 	tmpdir, err := os.MkdirTemp("", "alda-repl-server")
 	if err != nil {
 		return nil, err
 	}
+	defer os.RemoveAll(tmpdir)
 
 	midiFilename := filepath.Join(
 		tmpdir, fmt.Sprintf(
@@ -890,30 +892,38 @@ func (server *Server) export() ([]byte, error) {
 		),
 	)
 
-	if err := server.withTransmitter(
-		func(transmitter transmitter.OSCTransmitter) error {
-			return transmitter.TransmitMidiExportMessage(midiFilename)
-		},
-	); err != nil {
-		return nil, err
-	}
+	var midiData []byte
 
-	var midiFile *os.File
+	// Reloading the score is important because of the subtleties of the tempo
+	// messages in the MIDI sequence.
+	//
+	// When we're evaluating Alda code interactively at the REPL, we suppress
+	// tempo messages because they serve no immediate purpose.
+	//
+	// When it comes time to export the score, we reload the input into the MIDI
+	// sequencer, which does include sending tempo messages, so that the MIDI
+	// sequence includes tempo changes in the places where we want them.
+	//
+	// NOTE: The "export" message must go to the player that we loaded the score
+	// into, even if the server switches to a different player in the meantime.
+	if err := server.loadAndThen(
+		server.input,
+		func(transmitter transmitter.OSCTransmitter) error {
+			if err := transmitter.TransmitMidiExportMessage(midiFilename); err != nil {
+				return err
+			}
 
-	if err := util.Await(
-		func() error {
-			mf, err := os.Open(midiFilename)
+			data, err := util.AwaitMidiFile(midiFilename, midiExportTimeout)
 			if err != nil {
 				return err
 			}
 
-			midiFile = mf
+			midiData = data
 			return nil
 		},
-		midiExportTimeout,
 	); err != nil {
 		return nil, err
 	}
 
-	return io.ReadAll(midiFile)
+	return midiData, nil
 }
diff --git a/client/util/files.go b/client/util/files.go
new file mode 100644
index 0000000..9238bdc
--- /dev/null
+++ b/client/util/files.go
@@ -0,0 +1,76 @@
+package util
+
+import (
+	"fmt"
+	"math/rand"
+	"os"
+	"path/filepath"
+	"time"
+)
+
+// WriteFileAtomically writes data to a file like os.WriteFile does, except that
+// if something goes wrong at any point (e.g. the disk is full, or the process is
+// killed), any previous contents of the file are left intact.
+//
+// This is done by writing to a temporary file in the same directory, and then
+// renaming that file to the desired filename.
+func WriteFileAtomically(
+	filename string, data []byte, perm os.FileMode,
+) error {
+	target := filename
+	if resolved, err := filepath.EvalSymlinks(filename); err == nil {
+		target = resolved
+	}
+
+	info, err := os.Lstat(target)
+	exists := err == nil
+
+	if exists {
+		// Things like /dev/stdout and named pipes can't be replaced, only written to.
+		if !info.Mode().IsRegular() {
+			return os.WriteFile(target, data, perm)
+		}
+
+		// We are about to replace the file, which is possible even if writing to it
+		// isn't allowed.
+		f, err := os.OpenFile(target, os.O_WRONLY, 0)
+		if err != nil {
+			return err
+		}
+		f.Close()
+	}
+
+	rng := rand.New(rand.NewSource(time.Now().UnixNano()))
+	tmpFilename := filepath.Join(
+		filepath.Dir(target),
+		fmt.Sprintf(".%s.%d.%d.tmp", filepath.Base(target), os.Getpid(), rng.Int63()),
+	)
+
+	f, err := os.OpenFile(tmpFilename, os.O_WRONLY|os.O_CREATE|os.O_EXCL, perm)
+	if os.IsPermission(err) && exists {
+		// We're allowed to write to the file, but not to the directory it's in.
+		return os.WriteFile(target, data, perm)
+	}
+	if err != nil {
+		return err
+	}
+
+	_, err = f.Write(data)
+	if err == nil {
+		err = f.Sync()
+	}
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil && exists {
+		err = os.Chmod(tmpFilename, info.Mode().Perm())
+	}
+	if err == nil {
+		err = os.Rename(tmpFilename, target)
+	}
+	if err != nil {
+		os.Remove(tmpFilename)
+	}
+
+	return err
+}
diff --git a/client/util/midi.go b/client/util/midi.go
new file mode 100644
index 0000000..987c6f0
--- /dev/null
+++ b/client/util/midi.go
@@ -0,0 +1,67 @@
+package util
+
+import (
+	"encoding/binary"
+	"fmt"
+	"os"
+	"time"
+)
+
+// checkMidiComplete returns an error if the provided data isn't an entire MIDI
+// file, i.e. a header followed by as many tracks as the header announces.
+func checkMidiComplete(data []byte) error {
+	tracks, tracksExpected := 0, -1
+
+	for rest := data; tracksExpected == -1 || tracks < tracksExpected; {
+		if len(rest) < 8 {
+			return fmt.Errorf("incomplete MIDI file (%d bytes)", len(data))
+		}
+
+		chunkType, length := string(rest[:4]), uint64(binary.BigEndian.Uint32(rest[4:]))
+
+		if tracksExpected == -1 && (chunkType != "MThd" || length < 6) {
+			return fmt.Errorf("not a MIDI file")
+		}
+
+		if uint64(len(rest)) < 8+length {
+			return fmt.Errorf("incomplete MIDI file (%d bytes)", len(data))
+		}
+
+		if tracksExpected == -1 {
+			tracksExpected = int(binary.BigEndian.Uint16(rest[10:]))
+		} else if chunkType == "MTrk" {
+			tracks++
+		}
+
+		rest = rest[8+length:]
+	}
+
+	return nil
+}
+
+// AwaitMidiFile waits for a player process to finish writing a MIDI file, and
+// returns the contents of the file.
+//
+// The file becomes visible as soon as the player process starts writing it, so
+// it isn't enough to wait until the file exists.
+func AwaitMidiFile(filename string, timeout time.Duration) ([]byte, error) {
+	var midiData []byte
+
+	err := Await(
+		func() error {
+			data, err := os.ReadFile(filename)
+			if err != nil {
+				return err
+			}
+
+			midiData = data
+			return checkMidiComplete(data)
+		},
+		timeout,
+	)
+	if err != nil {
+		return nil, err
+	}
+
+	return midiData, nil
+}
-- 
2.43.0


From 7287906bc2cc072f02a79d11a8e775e4e901b08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:45 +0000
Subject: [PATCH 14/43] fix: don't report success for incomplete or failed
 exports

---
 client/cmd/export.go | 99 ++++++++++++++++++++------------------------
 1 file changed, 45 insertions(+), 54 deletions(-)

diff --git a/client/cmd/export.go b/client/cmd/export.go
index 1017df9..8c1b3e2 100644
--- a/client/cmd/export.go
+++ b/client/cmd/export.go
@@ -2,7 +2,6 @@ package cmd
 
 import (
 	"fmt"
-	"io"
 	"math/rand"
 	"os"
 	"path/filepath"
@@ -164,14 +163,6 @@ Currently, the only supported output format is %s.`,
 
 		transmitter := transmitter.OSCTransmitter{Port: player.Port}
 
-		if err := transmitter.TransmitScore(score, transmitOpts...); err != nil {
-			return err
-		}
-
-		log.Info().
-			Interface("player", player).
-			Msg("Transmitted score to player.")
-
 		// Ensure that the player process doesn't hang around with the score loaded.
 		// This avoids an unexpected behavior where if you run `alda export ...`
 		// followed by `alda play` without arguments (i.e. to un-pause playback),
@@ -186,33 +177,33 @@ Currently, the only supported output format is %s.`,
 				Msg("Sent shutdown message to player.")
 		}()
 
-		// When no output filename is specified, we write the result to stdout. But
-		// first, we need to ask the player to export to a file, so we use a
-		// temporary file.
-		tmpFilename := ""
-		if outputFilename == "" {
-			tmpdir, err := os.MkdirTemp("", "alda-export")
-			if err != nil {
-				return err
-			}
-
-			tmpFilename = filepath.Join(
-				tmpdir, fmt.Sprintf(
-					"export-%d-%d.mid",
-					time.Now().Unix(),
-					rand.Intn(10000),
-				),
-			)
+		if err := transmitter.TransmitScore(score, transmitOpts...); err != nil {
+			return err
 		}
 
-		var targetFilename string
-		if outputFilename != "" {
-			targetFilename = outputFilename
-		} else {
-			targetFilename = tmpFilename
+		log.Info().
+			Interface("player", player).
+			Msg("Transmitted score to player.")
+
+		// We always ask the player to export to a temporary file first. We can't have
+		// it write to the output file directly because we wouldn't be able to tell
+		// whether the output file was written by the player or it was there all
+		// along. (Also, the player process might be running in another directory.)
+		tmpdir, err := os.MkdirTemp("", "alda-export")
+		if err != nil {
+			return err
 		}
+		defer os.RemoveAll(tmpdir)
 
-		err = transmitter.TransmitMidiExportMessage(targetFilename)
+		tmpFilename := filepath.Join(
+			tmpdir, fmt.Sprintf(
+				"export-%d-%d.mid",
+				time.Now().Unix(),
+				rand.Intn(10000),
+			),
+		)
+
+		err = transmitter.TransmitMidiExportMessage(tmpFilename)
 		if err != nil {
 			return err
 		}
@@ -222,40 +213,40 @@ Currently, the only supported output format is %s.`,
 			Msg("Transmitted \"export\" message.")
 
 		log.Debug().
-			Str("targetFilename", targetFilename).
-			Msg("Waiting for target file to be written.")
+			Str("tmpFilename", tmpFilename).
+			Msg("Waiting for temporary file to be written.")
 
 		// There can be a noticeable delay while we wait for the player process to
-		// finish writing the target file. So, we display a message here to give the
+		// finish writing the file. So, we display a message here to give the
 		// user some incremental feedback and avoid making it look like Alda is
 		// "hanging."
 		fmt.Fprintln(os.Stderr, "Exporting...")
 
-		var midiFile *os.File
+		midiData, err := util.AwaitMidiFile(tmpFilename, midiExportTimeout)
+		if err != nil {
+			return help.UserFacingErrorf(
+				`The player process didn't finish exporting the score within %s.
 
-		if err := util.Await(
-			func() error {
-				mf, err := os.Open(targetFilename)
-				if err != nil {
-					return err
-				}
+The problem was: %s`,
+				midiExportTimeout.String(),
+				err.Error(),
+			)
+		}
 
-				midiFile = mf
-				return nil
-			},
-			midiExportTimeout,
-		); err != nil {
-			return nil
+		// When no output filename is specified, we write the result to stdout.
+		if outputFilename == "" {
+			_, err := os.Stdout.Write(midiData)
+			return err
 		}
 
-		if outputFilename != "" {
-			fmt.Fprintf(os.Stderr, "Exported score to %s\n", outputFilename)
-		} else {
-			if _, err := io.Copy(os.Stdout, midiFile); err != nil {
-				return err
-			}
+		if err := util.WriteFileAtomically(
+			outputFilename, midiData, 0664, // default rw-rw-r perms
+		); err != nil {
+			return err
 		}
 
+		fmt.Fprintf(os.Stderr, "Exported score to %s\n", outputFilename)
+
 		return nil
 	},
 }
-- 
2.43.0


From 813175ca94b7d1718b4d9b8e6e057d6d2431251f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 15/43] fix: don't destroy the file if format or import fails

---
 client/cmd/format.go | 33 ++++++++++++++++++++-------------
 client/cmd/import.go | 27 ++++++++++++++++-----------
 2 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/client/cmd/format.go b/client/cmd/format.go
index da5a827..8f6165f 100644
--- a/client/cmd/format.go
+++ b/client/cmd/format.go
@@ -5,6 +5,8 @@ import (
 	"alda.io/client/help"
 	log "alda.io/client/logging"
 	"alda.io/client/parser"
+	"alda.io/client/util"
+	"bytes"
 	"fmt"
 	"github.com/spf13/cobra"
 	"io"
@@ -70,21 +72,12 @@ Currently, formatting cannot handle comments (i.e. all comments are dropped)
 			return err
 		}
 
+		// The formatted code is only written to the file once we have all of it, so
+		// that we don't destroy the file in the event that something goes wrong.
 		var out io.Writer
+		var formatted bytes.Buffer
 		if formatOverwrite {
-			f, err := os.OpenFile(
-				formatInputFile,
-				os.O_WRONLY|os.O_TRUNC,
-				0664, // default rw-rw-r perms
-			)
-			if err != nil {
-				return help.UserFacingErrorf(
-					`Issue opening file %s.`,
-					color.Aurora.BrightYellow(outputAldaFilename),
-				)
-			}
-			defer f.Close()
-			out = f
+			out = &formatted
 		} else {
 			out = os.Stdout
 		}
@@ -126,6 +119,20 @@ Currently, formatting cannot handle comments (i.e. all comments are dropped)
 			)
 		}
 
+		if formatOverwrite {
+			if err := util.WriteFileAtomically(
+				formatInputFile,
+				formatted.Bytes(),
+				0664, // default rw-rw-r perms
+			); err != nil {
+				return help.UserFacingErrorf(
+					`Issue writing to file %s: %s.`,
+					color.Aurora.BrightYellow(formatInputFile),
+					err.Error(),
+				)
+			}
+		}
+
 		return nil
 	},
 }
diff --git a/client/cmd/import.go b/client/cmd/import.go
index a8da784..10ed28c 100644
--- a/client/cmd/import.go
+++ b/client/cmd/import.go
@@ -7,6 +7,8 @@ import (
 	"alda.io/client/model"
 	"alda.io/client/parser"
 	"alda.io/client/system"
+	"alda.io/client/util"
+	"bytes"
 	"fmt"
 	"github.com/spf13/cobra"
 	"os"
@@ -136,23 +138,26 @@ Currently, the only supported input format is %s.`,
 				)
 			}
 		} else {
-			out, err := os.OpenFile(
-				outputAldaFilename,
-				os.O_WRONLY|os.O_CREATE|os.O_TRUNC,
-				0664, // default rw-rw-r perms
-			)
+			// The code is only written to the file once we have all of it, so that we
+			// don't destroy any existing file in the event that something goes wrong.
+			var out bytes.Buffer
+
+			err = parser.FormatASTToCode(root, &out)
 			if err != nil {
 				return help.UserFacingErrorf(
-					`Issue opening output file %s.`,
-					color.Aurora.BrightYellow(outputAldaFilename),
+					`Issue formatting imported Alda: %s.`,
+					err.Error(),
 				)
 			}
-			defer out.Close()
 
-			err = parser.FormatASTToCode(root, out)
-			if err != nil {
+			if err := util.WriteFileAtomically(
+				outputAldaFilename,
+				out.Bytes(),
+				0664, // default rw-rw-r perms
+			); err != nil {
 				return help.UserFacingErrorf(
-					`Issue formatting imported Alda: %s.`,
+					`Issue writing to output file %s: %s.`,
+					color.Aurora.BrightYellow(outputAldaFilename),
 					err.Error(),
 				)
 			}
-- 
2.43.0


From d2425968202b6510131d4adc3136e5dd04da3550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 16/43] fix: keep the REPL server's state file and port file
 accurate

---
 client/cmd/repl.go    |  1 +
 client/repl/server.go | 40 ++++++++++++++++++++++++++++++++++++----
 2 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/client/cmd/repl.go b/client/cmd/repl.go
index 12598c3..6b74415 100644
--- a/client/cmd/repl.go
+++ b/client/cmd/repl.go
@@ -186,6 +186,7 @@ Examples:
 				go func() {
 					<-signals
 					server.Close()
+					os.Exit(1)
 				}()
 			} else {
 				<-signals
diff --git a/client/repl/server.go b/client/repl/server.go
index 1f49d0c..2a3b6ae 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -71,6 +71,11 @@ type Server struct {
 	// a time. Therefore, messages can be received asynchronously, but results are
 	// processed synchronously to avoid concurrency issues due to global state.
 	requestQueue chan nREPLRequest
+	// Whether `Close` has been called, in which case we must not (re)create any of
+	// the files that it removed.
+	closed bool
+	// Guards `closed` and the files that `Close` removes.
+	filesMutex sync.Mutex
 }
 
 func (server *Server) stateFile() string {
@@ -278,28 +283,51 @@ func (server *Server) writeStateFile() {
 func (server *Server) touchStateFile() {
 	now := time.Now()
 
-	if err := os.Chtimes(server.stateFile(), now, now); err != nil {
+	err := os.Chtimes(server.stateFile(), now, now)
+
+	// Other processes delete our state file if we don't touch it for a while, which
+	// can happen even though we're alive, e.g. if the computer goes to sleep.
+	if os.IsNotExist(err) {
+		server.writeStateFile()
+		return
+	}
+
+	if err != nil {
 		log.Warn().
 			Err(err).
 			Msg("Failed to touch REPL server state file.")
 	}
 }
 
+func (server *Server) unlessClosed(execute func()) {
+	server.filesMutex.Lock()
+	defer server.filesMutex.Unlock()
+
+	if !server.closed {
+		execute()
+	}
+}
+
 func (server *Server) manageStateFile() {
 	// NOTE: We don't yet have a use case for exposing information about the
 	// server that updates regularly. Therefore, to avoid doing unnecessary work,
 	// we will just write the state file once and then we'll just continuously
 	// update the last modified time without re-writing the file.
-	server.writeStateFile()
+	server.unlessClosed(server.writeStateFile)
 
 	for {
-		server.touchStateFile()
+		server.unlessClosed(server.touchStateFile)
 		time.Sleep(10 * time.Second)
 	}
 }
 
 func (server *Server) removePortFile() {
-	os.Remove(nREPLPortFile)
+	// If another server was started in the same directory in the meantime, then the
+	// file is about that server.
+	contents, err := os.ReadFile(nREPLPortFile)
+	if err == nil && string(contents) == strconv.Itoa(server.Port) {
+		os.Remove(nREPLPortFile)
+	}
 }
 
 func (server *Server) removeStateFile() {
@@ -310,6 +338,10 @@ func (server *Server) removeStateFile() {
 //
 // This includes actions like removing the nREPL port file.
 func (server *Server) Close() {
+	server.filesMutex.Lock()
+	defer server.filesMutex.Unlock()
+
+	server.closed = true
 	server.removePortFile()
 	server.removeStateFile()
 }
-- 
2.43.0


From 419542ebd9842ae922822d3c85c88af61081c613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 17/43] fix: keep the REPL client usable after a request fails

---
 client/repl/client.go | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/client/repl/client.go b/client/repl/client.go
index fff59ec..ed05226 100644
--- a/client/repl/client.go
+++ b/client/repl/client.go
@@ -42,6 +42,7 @@ func aldaVersionText(serverVersion string) string {
 }
 
 const serverConnectTimeout = 5 * time.Second
+const requestTimeout = 30 * time.Second
 
 // Client is a stateful Alda REPL client object.
 type Client struct {
@@ -113,7 +114,7 @@ func init() {
 				}
 				binaryData := []byte(res["binary-data"].(string))
 
-				return os.WriteFile(filename, binaryData, 0644)
+				return util.WriteFileAtomically(filename, binaryData, 0644)
 			},
 		},
 
@@ -377,7 +378,9 @@ arguments will save the updated score to the same file.`,
 					return err
 				}
 
-				return os.WriteFile(client.inputFilepath, []byte(scoreText), 0644)
+				return util.WriteFileAtomically(
+					client.inputFilepath, []byte(scoreText), 0644,
+				)
 			},
 		},
 
@@ -554,6 +557,7 @@ func (client *Client) handleCommand(name string, args string) error {
 func (client *Client) Disconnect() {
 	if client.serverConn != nil {
 		client.serverConn.Close()
+		client.serverConn = nil
 	}
 }
 
@@ -563,7 +567,9 @@ func (client *Client) connect() error {
 
 	if err := util.Await(
 		func() error {
-			conn, err := net.DialTCP("tcp", nil, client.serverAddr)
+			conn, err := net.DialTimeout(
+				"tcp", client.serverAddr.String(), serverConnectTimeout,
+			)
 			if err != nil {
 				return err
 			}
@@ -611,6 +617,19 @@ func suppressErrorPrinting() replClientRequestOption {
 	}
 }
 
+func (client *Client) exchange(
+	req map[string]interface{},
+) (interface{}, error) {
+	// Avoid hanging forever if the server doesn't respond.
+	client.serverConn.SetDeadline(time.Now().Add(requestTimeout))
+
+	if err := bencode.Marshal(client.serverConn, req); err != nil {
+		return nil, err
+	}
+
+	return bencode.Decode(client.serverConn)
+}
+
 // Sends a request as a bencoded payload to the server, awaits a response from
 // the server, and returns the bdecoded response.
 //
@@ -646,15 +665,18 @@ func (client *Client) sendRequest(
 
 	log.Debug().Interface("request", req).Msg("Sending request.")
 
-	if err := bencode.Marshal(client.serverConn, req); err != nil {
-		return nil, err
+	// If the previous request failed, then the response to it might still arrive
+	// (in full or in part) on the connection that we used. To avoid confusing that
+	// with the response to this request, we start over with a new connection.
+	if client.serverConn == nil {
+		if err := client.connect(); err != nil {
+			return nil, err
+		}
 	}
 
-	// Avoid hanging forever if the server doesn't respond.
-	client.serverConn.SetReadDeadline(time.Now().Add(30 * time.Second))
-
-	response, err := bencode.Decode(client.serverConn)
+	response, err := client.exchange(req)
 	if err != nil {
+		client.Disconnect()
 		return nil, err
 	}
 
@@ -669,6 +691,7 @@ func (client *Client) sendRequest(
 	log.Debug().Interface("response", res).Msg("Received response.")
 
 	if res["id"] != messageID {
+		client.Disconnect()
 		return nil,
 			fmt.Errorf(
 				"unexpected \"id\" in response. Expected %s, got %s",
-- 
2.43.0


From ceed6c8a8775abdb42ab86b94f42d8d90c0848cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:41 +0000
Subject: [PATCH 18/43] fix: never override the user's telemetry preference

---
 client/cmd/root.go      |  5 ++--
 client/cmd/telemetry.go | 61 +++++++++++++++++++++++++++++++++++------
 2 files changed, 56 insertions(+), 10 deletions(-)

diff --git a/client/cmd/root.go b/client/cmd/root.go
index 5565d34..1b04202 100644
--- a/client/cmd/root.go
+++ b/client/cmd/root.go
@@ -107,8 +107,9 @@ func sendTelemetry(command string) {
 		return
 	}
 
-	// Don't record telemetry if the user has opted out.
-	if status == TelemetryDisabled {
+	// Don't record telemetry if the user has opted out, or if we have no record of
+	// them having been informed, in which case they might not be able to opt out.
+	if status != TelemetryEnabled {
 		return
 	}
 
diff --git a/client/cmd/telemetry.go b/client/cmd/telemetry.go
index a8c353c..4d207e9 100644
--- a/client/cmd/telemetry.go
+++ b/client/cmd/telemetry.go
@@ -17,6 +17,7 @@ import (
 	log "alda.io/client/logging"
 	"alda.io/client/system"
 	"alda.io/client/text"
+	"alda.io/client/util"
 	"github.com/spf13/cobra"
 )
 
@@ -106,7 +107,37 @@ func writeTelemetryStatus(status string) error {
 		Str("filepath", telemetryStatusFilepath).
 		Msg("Writing telemetry status file.")
 
-	return os.WriteFile(telemetryStatusFilepath, []byte(status), 0644)
+	return util.WriteFileAtomically(
+		telemetryStatusFilepath, []byte(status), 0644,
+	)
+}
+
+// initializeTelemetryStatus is like writeTelemetryStatus, but it doesn't touch
+// the telemetry status file if there already is one.
+func initializeTelemetryStatus(status string) error {
+	telemetryStatusFilepath := system.ConfigPath(telemetryStatusFileName)
+
+	err := os.MkdirAll(filepath.Dir(telemetryStatusFilepath), os.ModePerm)
+	if err != nil {
+		return err
+	}
+
+	f, err := os.OpenFile(
+		telemetryStatusFilepath, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0644,
+	)
+	if os.IsExist(err) {
+		return nil
+	}
+	if err != nil {
+		return err
+	}
+
+	_, err = f.WriteString(status)
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+
+	return err
 }
 
 func informUserOfTelemetry() {
@@ -125,19 +156,23 @@ If you wish to disable anonymous usage reporting, you can run:
 		)+"\n\n",
 	)
 
-	if err := enableTelemetry(); err != nil {
+	// It's possible that telemetry was disabled (by another process) since we
+	// determined that the user needs to be informed. We must not re-enable it.
+	if err := initializeTelemetryStatus("enabled"); err != nil {
 		log.Warn().Err(err).Msg("Failed to enable telemetry.")
 	}
 }
 
 func informUserOfTelemetryIfNeeded() {
-	var status TelemetryStatus
-
 	status, err := readTelemetryStatus()
 	if err != nil {
-		// If we can't read the telemetry status file for some reason, the only
-		// reasonable thing we can do is assume they still need to be informed.
-		status = TelemetryNotInformed
+		// There is a telemetry status file, but we can't tell what it says. The user
+		// might have disabled telemetry, so the only reasonable thing we can do is
+		// leave it alone. (We don't send telemetry in this case. See sendTelemetry.)
+		log.Warn().
+			Err(err).
+			Msg("Couldn't determine whether the user was informed of telemetry.")
+		return
 	}
 
 	if status == TelemetryNotInformed {
@@ -167,7 +202,17 @@ func showTelemetryStatus() error {
 	case TelemetryNotInformed:
 		informUserOfTelemetry()
 		fmt.Println()
-		reportTelemetryStatus("enabled")
+
+		status, err := readTelemetryStatus()
+		if err != nil {
+			return err
+		}
+
+		if status == TelemetryEnabled {
+			reportTelemetryStatus("enabled")
+		} else {
+			reportTelemetryStatus("disabled")
+		}
 	case TelemetryEnabled:
 		reportTelemetryStatus("enabled")
 	case TelemetryDisabled:
-- 
2.43.0


From 949250fc7857e8154ba30dcf1f6fa9ca97d18237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:41 +0000
Subject: [PATCH 19/43] fix: disclose that telemetry includes the CPU
 architecture

---
 client/cmd/telemetry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/cmd/telemetry.go b/client/cmd/telemetry.go
index 4d207e9..dea50bf 100644
--- a/client/cmd/telemetry.go
+++ b/client/cmd/telemetry.go
@@ -224,7 +224,7 @@ func showTelemetryStatus() error {
 
 const telemetryExplanation = `The Alda CLI collects the following anonymous usage statistics:
 
-  • Operating system
+  • Operating system and CPU architecture
   • Alda version
   • Command run, without arguments/options (e.g. alda play)
 
-- 
2.43.0


From da3d9fd73d2b119b75f634187b61af0c9a574294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:41 +0000
Subject: [PATCH 20/43] fix: don't delete files that merely resemble renamed
 executables

---
 client/system/dirs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/system/dirs.go b/client/system/dirs.go
index 1737590..38f86f1 100644
--- a/client/system/dirs.go
+++ b/client/system/dirs.go
@@ -53,7 +53,7 @@ func RenamedExecutable(path string) string {
 // "alda.1615061099.2081.old") looks like it's a renamed Alda executable.
 func IsRenamedExecutable(basename string) bool {
 	return regexp.MustCompile(
-		`alda(-player)?(\.exe)?\.\d+\.\d+\.old`,
+		`^alda(-player)?(\.exe)?\.\d+\.\d+\.old$`,
 	).MatchString(basename)
 }
 
-- 
2.43.0


From 410e1d302f47b6310c33b0a48cd5a5f471ba7515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 21/43] fix: don't leave missing or partial executables behind
 when an update fails

Assets are now downloaded completely (and the length is verified; a truncated
download used to hang forever waiting for the progress bar), staged next to the
installed executables, and only then put into place by renaming.
---
 client/cmd/update.go | 228 +++++++++++++++++++++++++++----------------
 1 file changed, 143 insertions(+), 85 deletions(-)

diff --git a/client/cmd/update.go b/client/cmd/update.go
index 064231f..32e6961 100644
--- a/client/cmd/update.go
+++ b/client/cmd/update.go
@@ -83,12 +83,8 @@ type releaseAsset struct {
 	assetUrl  string
 }
 
-func downloadAssets(assets []releaseAsset) (assetsDir string, err error) {
-	outdir, err := os.MkdirTemp("", "alda-update")
-	if err != nil {
-		return "", err
-	}
-
+// downloadAssets downloads each asset completely into the provided directory.
+func downloadAssets(assets []releaseAsset, outdir string) error {
 	maxAssetNameLength := -1
 	for _, asset := range assets {
 		nameLength := len(asset.assetName)
@@ -106,13 +102,13 @@ func downloadAssets(assets []releaseAsset) (assetsDir string, err error) {
 		mpb.WithWaitGroup(&waitGroup),
 	)
 
-	var downloadError error
+	downloadErrors := make([]error, len(assets))
 
-	for _, asset := range assets {
+	for i, asset := range assets {
 		client := &http.Client{Timeout: 10 * time.Second}
 		response, err := client.Get(asset.assetUrl)
 		if err != nil {
-			return "", err
+			return err
 		}
 		defer response.Body.Close()
 
@@ -127,7 +123,7 @@ func downloadAssets(assets []releaseAsset) (assetsDir string, err error) {
 					Msg("Asset HTTP response")
 			}
 
-			return "", fmt.Errorf(
+			return fmt.Errorf(
 				"unexpected HTTP response (%d)", response.StatusCode,
 			)
 		}
@@ -154,79 +150,61 @@ func downloadAssets(assets []releaseAsset) (assetsDir string, err error) {
 
 		out, err := os.Create(filepath.Join(outdir, asset.assetName))
 		if err != nil {
-			return "", err
+			return err
 		}
-		defer out.Close()
+
+		downloadError := &downloadErrors[i]
+		expectedLength := response.ContentLength
 
 		go func() {
 			defer waitGroup.Done()
 
-			if _, err := io.Copy(out, proxyReader); err != nil {
-				downloadError = err
+			length, err := io.Copy(out, proxyReader)
+			if closeErr := out.Close(); err == nil {
+				err = closeErr
+			}
+			if err == nil && expectedLength != -1 && length != expectedLength {
+				err = io.ErrUnexpectedEOF
+			}
+
+			if err != nil {
+				*downloadError = err
+
+				// The progress bar will never be completed, and we would wait for it
+				// forever.
+				bar.Abort(false)
 			}
 		}()
 	}
 
 	progress.Wait()
 
-	if downloadError != nil {
-		return "", downloadError
+	for _, err := range downloadErrors {
+		if err != nil {
+			return err
+		}
 	}
 
-	return outdir, nil
+	return nil
 }
 
-func installAsset(indir string, asset releaseAsset) error {
+// stageAsset copies an asset that was downloaded into the directory where it
+// will be installed and makes it executable, but doesn't put it at the path
+// where the executable is expected yet. Returns the path of the copy.
+func stageAsset(
+	indir string, outdir string, asset releaseAsset,
+) (_ string, err error) {
 	if asset.assetType != "executable" {
-		return fmt.Errorf(
+		return "", fmt.Errorf(
 			"unexpected asset type: %s (%s)", asset.assetType, asset.assetName,
 		)
 	}
 
-	aldaPath, err := system.AldaExecutablePath()
-	if err != nil {
-		return err
-	}
-
-	outdir := filepath.Dir(aldaPath)
-
-	fmt.Printf(
-		"%s\n",
-		color.Aurora.Bold(fmt.Sprintf("Installing %s...", asset.assetName)),
-	)
-
-	// Naïvely, you would think we could simply replace `alda` with the new
-	// version that we downloaded. However, this doesn't always work, especially
-	// given that we're currently _running_ the old version in this very process.
-	//
-	// We're doing something safer here, following the advice here:
-	// https://stackoverflow.com/a/7198760/2338327
-	//
-	// (That StackOverflow question is specifically about Windows, but this is a
-	// safer method in general, and it works regardless of OS.)
-
 	inpath := filepath.Join(indir, asset.assetName)
-	outpath := filepath.Join(outdir, asset.assetName)
-
-	oldRenamed := system.RenamedExecutable(outpath)
-
-	// Move the old (and probably currently running) executable, giving it a new
-	// name that also designates it as an old version to be cleaned up.
-	//
-	// NOTE: The Alda CLI checks for the existence of these old executable
-	// versions and cleans them up on each run.
-	log.Debug().
-		Str("old-name", outpath).
-		Str("new-name", oldRenamed).
-		Msg("Renaming existing executable.")
-
-	err = os.Rename(outpath, oldRenamed)
-	if err != nil && !errors.Is(err, os.ErrNotExist) {
-		return err
-	}
 
-	// Now that we've moved the existing executable, we create a new one at the
-	// same location and copy the new version into it.
+	// The name designates the file as one to be cleaned up by a subsequent run of
+	// the Alda CLI, in case we're interrupted before we can install it.
+	stagedPath := system.RenamedExecutable(filepath.Join(outdir, asset.assetName))
 
 	log.Debug().
 		Str("source", inpath).
@@ -234,31 +212,35 @@ func installAsset(indir string, asset releaseAsset) error {
 
 	in, err := os.Open(inpath)
 	if err != nil {
-		return err
+		return "", err
 	}
 	defer in.Close()
 
 	log.Debug().
-		Str("destination", outpath).
+		Str("destination", stagedPath).
 		Msg("Opening destination.")
 
-	out, err := os.Create(outpath)
+	out, err := os.OpenFile(stagedPath, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
 	if err != nil {
-		return err
+		return "", err
 	}
-	defer out.Close()
+
+	defer func() {
+		if closeErr := out.Close(); err == nil {
+			err = closeErr
+		}
+
+		if err != nil {
+			_ = os.Remove(stagedPath)
+		}
+	}()
 
 	log.Debug().Msg("Copying file.")
 
 	if _, err := io.Copy(out, in); err != nil {
-		return err
+		return "", err
 	}
 
-	// The copy was successful, so now we can remove the temporary file that we
-	// copied in. (It isn't really a problem if this fails, because it's a temp
-	// file, so we're ignoring `err` here.)
-	_ = os.Remove(inpath)
-
 	if runtime.GOOS != "windows" {
 		// Here, we make the file executable. The code below should be equivalent to
 		// running `chmod +x ...` on the file, i.e. ensuring that the "execute" bit
@@ -273,43 +255,119 @@ func installAsset(indir string, asset releaseAsset) error {
 		// operand.
 		fileInfo, err := out.Stat()
 		if err != nil {
-			return err
+			return "", err
 		}
 		perms := fileInfo.Mode().Perm()
 
 		log.Debug().
-			Str("filename", outpath).
+			Str("filename", stagedPath).
 			Str("perms", fmt.Sprintf("%#o", perms)).
 			Msg("Before making file executable")
 
-		if err := os.Chmod(outpath, perms|0111); err != nil {
-			return err
+		if err := os.Chmod(stagedPath, perms|0111); err != nil {
+			return "", err
 		}
+	}
 
-		fileInfo, err = out.Stat()
-		if err != nil {
+	return stagedPath, out.Sync()
+}
+
+// installAsset puts a staged asset (see above) into place. At no point is there
+// anything other than a complete executable at the path of the asset.
+func installAsset(stagedPath string, outdir string, asset releaseAsset) error {
+	fmt.Printf(
+		"%s\n",
+		color.Aurora.Bold(fmt.Sprintf("Installing %s...", asset.assetName)),
+	)
+
+	outpath := filepath.Join(outdir, asset.assetName)
+
+	// Replacing a file by renaming another file is atomic and it is fine to do
+	// that to an executable that is currently running. (We're currently _running_
+	// the old version of `alda` in this very process.)
+	if runtime.GOOS != "windows" {
+		log.Debug().
+			Str("old-name", stagedPath).
+			Str("new-name", outpath).
+			Msg("Replacing existing executable.")
+
+		return os.Rename(stagedPath, outpath)
+	}
+
+	// On Windows, an executable that is currently running can't be replaced, but
+	// it can be renamed, following the advice here:
+	// https://stackoverflow.com/a/7198760/2338327
+	//
+	// Move the old (and probably currently running) executable, giving it a new
+	// name that also designates it as an old version to be cleaned up.
+	//
+	// NOTE: The Alda CLI checks for the existence of these old executable
+	// versions and cleans them up on each run.
+	oldRenamed := system.RenamedExecutable(outpath)
+
+	log.Debug().
+		Str("old-name", outpath).
+		Str("new-name", oldRenamed).
+		Msg("Renaming existing executable.")
+
+	existing := true
+
+	if err := os.Rename(outpath, oldRenamed); err != nil {
+		if !errors.Is(err, os.ErrNotExist) {
 			return err
 		}
-		perms = fileInfo.Mode().Perm()
+		existing = false
+	}
 
-		log.Debug().
-			Str("filename", outpath).
-			Str("perms", fmt.Sprintf("%#o", perms)).
-			Msg("After making file executable")
+	if err := os.Rename(stagedPath, outpath); err != nil {
+		if existing {
+			_ = os.Rename(oldRenamed, outpath)
+		}
+		return err
 	}
 
 	return nil
 }
 
 func downloadAndInstallAssets(assets []releaseAsset) error {
-	assetsDir, err := downloadAssets(assets)
+	aldaPath, err := system.AldaExecutablePath()
+	if err != nil {
+		return err
+	}
+
+	outdir := filepath.Dir(aldaPath)
+
+	assetsDir, err := os.MkdirTemp("", "alda-update")
 	if err != nil {
 		return err
 	}
+	defer os.RemoveAll(assetsDir)
+
+	if err := downloadAssets(assets, assetsDir); err != nil {
+		return err
+	}
+
+	stagedPaths := []string{}
+
+	// If something goes wrong, we don't want to leave anything behind. (This does
+	// nothing in the case of assets that we've installed.)
+	defer func() {
+		for _, stagedPath := range stagedPaths {
+			_ = os.Remove(stagedPath)
+		}
+	}()
 
 	for _, asset := range assets {
+		stagedPath, err := stageAsset(assetsDir, outdir, asset)
+		if err != nil {
+			return err
+		}
+		stagedPaths = append(stagedPaths, stagedPath)
+	}
+
+	for i, asset := range assets {
 		fmt.Println()
-		if err := installAsset(assetsDir, asset); err != nil {
+		if err := installAsset(stagedPaths[i], outdir, asset); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 2ea0b52c240852a4aa074c0f065a2aa06fb96639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:49 +0000
Subject: [PATCH 22/43] fix: resume the other players if one of them can't be
 reached

---
 client/cmd/play.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/client/cmd/play.go b/client/cmd/play.go
index c196ba5..a8f400c 100644
--- a/client/cmd/play.go
+++ b/client/cmd/play.go
@@ -283,22 +283,32 @@ var playCmd = &cobra.Command{
 			Str("action", action).
 			Msg("Sending messages to players.")
 
+		var unpauseError error
+
 		for _, player := range players {
 			xmitter := transmitter.OSCTransmitter{Port: player.Port}
 
-			var transmissionError error
 			if action == "unpause" {
-				transmissionError = xmitter.TransmitPlayMessage()
+				// If one of the players can't be reached, that shouldn't keep us from
+				// telling the others to resume playing.
+				if err := xmitter.TransmitPlayMessage(); err != nil {
+					log.Warn().
+						Interface("player", player).
+						Err(err).
+						Msg("Failed to send \"play\" message to player process.")
+
+					unpauseError = err
+					continue
+				}
 			} else {
-				transmissionError = xmitter.TransmitScore(
+				if err := xmitter.TransmitScore(
 					score,
 					transmitter.TransmitFrom(optionFrom),
 					transmitter.TransmitTo(optionTo),
 					transmitter.OneOff(),
-				)
-			}
-			if transmissionError != nil {
-				return transmissionError
+				); err != nil {
+					return err
+				}
 			}
 
 			log.Info().
@@ -306,6 +316,10 @@ var playCmd = &cobra.Command{
 				Msg("Sent OSC messages to player.")
 		}
 
+		if unpauseError != nil {
+			return unpauseError
+		}
+
 		// We don't have to print something here, but it's a good idea because it
 		// indicates to the user that we did what they asked. Otherwise, it might
 		// not be obvious that we did anything, especially in cases where there is
-- 
2.43.0


From 4324f2764be75f2b59f211164ae6d2526541f134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:49 +0000
Subject: [PATCH 23/43] fix: clean up the other stale state files if one of
 them can't be removed

---
 client/system/process_management.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/client/system/process_management.go b/client/system/process_management.go
index 161187a..c462cd1 100644
--- a/client/system/process_management.go
+++ b/client/system/process_management.go
@@ -41,6 +41,10 @@ func DeletePlayerStateFile(playerID string) error {
 }
 
 func cleanUpStaleStateFiles(stateDir string) error {
+	// If we have trouble with one file or directory, we move on to the others and
+	// return the error in the end.
+	var cleanUpError error
+
 	if err := filepath.WalkDir(
 		stateDir,
 		func(path string, info os.DirEntry, err error) error {
@@ -49,7 +53,8 @@ func cleanUpStaleStateFiles(stateDir string) error {
 			}
 
 			if err != nil {
-				return err
+				cleanUpError = err
+				return nil
 			}
 
 			if info.IsDir() {
@@ -60,7 +65,8 @@ func cleanUpStaleStateFiles(stateDir string) error {
 			if errors.Is(err, os.ErrNotExist) {
 				return nil
 			} else if err != nil {
-				return err
+				cleanUpError = err
+				return nil
 			}
 
 			timeSinceModified := time.Since(fileInfo.ModTime())
@@ -73,7 +79,7 @@ func cleanUpStaleStateFiles(stateDir string) error {
 
 				err := os.Remove(path)
 				if err != nil && !errors.Is(err, os.ErrNotExist) {
-					return err
+					cleanUpError = err
 				}
 				return nil
 			}
@@ -95,7 +101,7 @@ func cleanUpStaleStateFiles(stateDir string) error {
 	// seems to behave well, so we don't need to include the deletion of empty
 	// directories part here in the client.
 
-	return nil
+	return cleanUpError
 }
 
 // Each `alda-player` process creates a state file where it tracks its own
@@ -110,16 +116,18 @@ func cleanUpStaleStateFiles(stateDir string) error {
 // can clean up their own state files, both `alda-player` and `alda` routinely
 // check for and clean up stale player state files.
 func CleanUpStaleStateFiles() error {
+	var cleanUpError error
+
 	for _, stateDir := range []string{
 		CachePath("state", "players"),
 		CachePath("state", "repl-servers"),
 	} {
 		if err := cleanUpStaleStateFiles(stateDir); err != nil {
-			return err
+			cleanUpError = err
 		}
 	}
 
-	return nil
+	return cleanUpError
 }
 
 // PlayerState describes the current state of a player process. These states are
-- 
2.43.0


From 5a4b457f5e588f8d9290fadb89cfe55bfed17703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:50 +0000
Subject: [PATCH 24/43] fix: don't fail or omit REPL servers when state
 directories come and go

---
 client/system/process_management.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/client/system/process_management.go b/client/system/process_management.go
index c462cd1..d4cfa09 100644
--- a/client/system/process_management.go
+++ b/client/system/process_management.go
@@ -158,6 +158,11 @@ func processFiles(
 	}
 
 	files, err := os.ReadDir(directory)
+	// Player processes delete empty state directories, so the directory might have
+	// been deleted again in the meantime.
+	if errors.Is(err, os.ErrNotExist) {
+		return nil
+	}
 	if err != nil {
 		return err
 	}
@@ -251,7 +256,7 @@ func ReadPlayerStates() ([]PlayerState, error) {
 func ReadREPLServerStates() ([]REPLServerState, error) {
 	states := []REPLServerState{}
 
-	processFiles(
+	if err := processFiles(
 		CachePath("state", "repl-servers"),
 		func(filename string, contents []byte, readError error) {
 			// It's common for these files to be empty, e.g. when a REPL server
@@ -288,7 +293,9 @@ func ReadREPLServerStates() ([]REPLServerState, error) {
 
 			states = append(states, state)
 		},
-	)
+	); err != nil {
+		return nil, err
+	}
 
 	return states, nil
 }
-- 
2.43.0


From 4edc5ced4c00357cf56079fd5660236c29bda916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:50 +0000
Subject: [PATCH 25/43] fix: keep looking for available players if spawning
 more of them fails

---
 client/system/process_management.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client/system/process_management.go b/client/system/process_management.go
index d4cfa09..ca08685 100644
--- a/client/system/process_management.go
+++ b/client/system/process_management.go
@@ -424,8 +424,10 @@ func FindAvailablePlayerExcept(
 				return PlayerState{}, err
 			}
 
+			// There might be other players available, even if we're unable to spawn
+			// more of them.
 			if err := FillPlayerPool(); err != nil {
-				return PlayerState{}, err
+				log.Warn().Err(err).Msg("Failed to fill the player pool.")
 			}
 
 			return FindAvailablePlayerExcept(excluded)
-- 
2.43.0


From 4a8c2056053059c26e1fa8cff8f06beaabe25c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:50 +0000
Subject: [PATCH 26/43] fix: don't fail alda doctor because of a MIDI file that
 is still being written

Also, don't leave the temporary directory and, if a step fails, player processes
behind.
---
 client/cmd/doctor.go | 78 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 60 insertions(+), 18 deletions(-)

diff --git a/client/cmd/doctor.go b/client/cmd/doctor.go
index f976c58..e19e1c3 100644
--- a/client/cmd/doctor.go
+++ b/client/cmd/doctor.go
@@ -1,7 +1,7 @@
 package cmd
 
 import (
-	"bufio"
+	"bytes"
 	"fmt"
 	"os"
 	"os/exec"
@@ -46,6 +46,26 @@ func sendShutdownMessage(client *osc.Client) error {
 	return client.Send(msg)
 }
 
+// stopPlayerProcess stops a player process that we spawned, either by telling it
+// to shut down via the port number provided, or if that isn't possible, by
+// killing it. Does nothing if `process` is nil.
+func stopPlayerProcess(process *os.Process, port int) {
+	if process == nil {
+		return
+	}
+
+	transmitter := transmitter.OSCTransmitter{Port: port}
+
+	if err := transmitter.TransmitShutdownMessage(0); err != nil {
+		log.Warn().
+			Int("port", port).
+			Err(err).
+			Msg("Failed to send \"shutdown\" message to player process. Killing it.")
+
+		_ = process.Kill()
+	}
+}
+
 // OSCPacketForwarder is a simple Dispatcher that puts each OSC packet that it
 // receives onto a channel.
 type OSCPacketForwarder struct {
@@ -302,6 +322,9 @@ version of %s.`,
 
 		//////////////////////////////////////////////////
 
+		// The player process that we spawned and didn't shut down yet.
+		var playerProcess *os.Process
+
 		if err := step(
 			"Spawn a player process",
 			func() error {
@@ -325,12 +348,21 @@ version of %s.`,
 					cmd.Stderr = os.Stderr
 				}
 
-				return cmd.Start()
+				if err := cmd.Start(); err != nil {
+					return err
+				}
+
+				playerProcess = cmd.Process
+				return nil
 			},
 		); err != nil {
 			return err
 		}
 
+		// Ensure that we don't leave the player process behind if one of the steps
+		// below fails.
+		defer func() { stopPlayerProcess(playerProcess, playerPort) }()
+
 		//////////////////////////////////////////////////
 
 		var client *osc.Client
@@ -377,6 +409,7 @@ version of %s.`,
 					if err != nil {
 						return err
 					}
+					defer os.RemoveAll(tmpdir)
 
 					midiFilename := filepath.Join(
 						tmpdir, fmt.Sprintf("%d.mid", time.Now().Unix()),
@@ -389,24 +422,12 @@ version of %s.`,
 						return err
 					}
 
-					var midiFile *os.File
-
-					if err := util.Await(
-						func() error {
-							mf, err := os.Open(midiFilename)
-							if err != nil {
-								return err
-							}
-
-							midiFile = mf
-							return nil
-						},
-						reasonableTimeout,
-					); err != nil {
+					midiData, err := util.AwaitMidiFile(midiFilename, reasonableTimeout)
+					if err != nil {
 						return err
 					}
 
-					rdr := midireader.New(bufio.NewReader(midiFile), nil)
+					rdr := midireader.New(bytes.NewReader(midiData), nil)
 
 					// NB: For some reason, the contents of the MIDI sequence (at least,
 					// according to the library we're using to parse the MIDI file) appear
@@ -526,8 +547,13 @@ version of %s.`,
 			return err
 		}
 
+		playerProcess = nil
+
 		//////////////////////////////////////////////////
 
+		// Same as `playerProcess`, but for the second player process.
+		var secondPlayerProcess *os.Process
+
 		if err := step(
 			"Spawn a player on an unknown port",
 			func() error {
@@ -536,7 +562,14 @@ version of %s.`,
 					playerArgs = append(playerArgs, "--lazy-audio")
 				}
 
-				return exec.Command(aldaPlayer, playerArgs...).Start()
+				cmd := exec.Command(aldaPlayer, playerArgs...)
+
+				if err := cmd.Start(); err != nil {
+					return err
+				}
+
+				secondPlayerProcess = cmd.Process
+				return nil
 			},
 		); err != nil {
 			return err
@@ -546,6 +579,11 @@ version of %s.`,
 
 		var player system.PlayerState
 
+		// Ensure that we don't leave this player process behind either. (Until we
+		// discover it, we don't know which port it's listening on.)
+		secondPlayerPort := -1
+		defer func() { stopPlayerProcess(secondPlayerProcess, secondPlayerPort) }()
+
 		if err := step(
 			"Discover the player",
 			func() error {
@@ -597,6 +635,8 @@ version of %s.`,
 			return err
 		}
 
+		secondPlayerPort = player.Port
+
 		//////////////////////////////////////////////////
 
 		if err := step(
@@ -624,6 +664,8 @@ version of %s.`,
 					return err
 				}
 
+				secondPlayerProcess = nil
+
 				return util.Await(
 					func() error {
 						players, err := system.ReadPlayerStates()
-- 
2.43.0


From ce4e1536f8dc70f56389631da9ce75074a22679b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:01 +0000
Subject: [PATCH 27/43] fix: don't reorder the score's events when sending them
 to a player

---
 client/transmitter/osc.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/client/transmitter/osc.go b/client/transmitter/osc.go
index c491276..3867511 100644
--- a/client/transmitter/osc.go
+++ b/client/transmitter/osc.go
@@ -242,7 +242,9 @@ func (oe OSCTransmitter) ScoreToOSCBundle(
 		Str("ctx", fmt.Sprintf("%#v", ctx)).
 		Msg("Transmission options applied.")
 
-	events := score.Events[ctx.fromIndex:ctx.toIndex]
+	events := append(
+		[]model.ScoreEvent{}, score.Events[ctx.fromIndex:ctx.toIndex]...,
+	)
 
 	startOffset := 0.0
 	endOffset := math.MaxFloat64
@@ -276,7 +278,10 @@ func (oe OSCTransmitter) ScoreToOSCBundle(
 	//
 	// ...we sort the events in the score by offset and schedule them in
 	// chronological order.
-	sort.Slice(events, func(i, j int) bool {
+	//
+	// (We sort a copy, as the order of the events in the score isn't ours to
+	// change, and events that happen at the same time are kept in order.)
+	sort.SliceStable(events, func(i, j int) bool {
 		return events[i].EventOffset() < events[j].EventOffset()
 	})
 
-- 
2.43.0


From 6a0f51321db331790c8f696e7a4de09024ada3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:03 +0000
Subject: [PATCH 28/43] fix: keep time in the REPL after a voice group has
 ended

The offset of a part that has had voices was that of the start of the voices, so
everything entered after that was delayed more and more, and loading a score that
contains voices moved the player to the wrong offset.
---
 client/model/score.go | 22 +++++++++++++++++++++-
 client/repl/server.go |  8 +-------
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/client/model/score.go b/client/model/score.go
index 0473d9d..ded75f1 100644
--- a/client/model/score.go
+++ b/client/model/score.go
@@ -1,6 +1,7 @@
 package model
 
 import (
+	"math"
 	"regexp"
 	"strconv"
 
@@ -162,12 +163,31 @@ func (score *Score) PartOffsets() map[*Part]float64 {
 	offsets := map[*Part]float64{}
 
 	for _, part := range score.Parts {
-		offsets[part.origin] = part.origin.CurrentOffset
+		// NOTE: If the part has had multiple voices, then `part` is the last one of
+		// them to finish, and it is further along than `part.origin`, which is still
+		// at the offset where the voices started.
+		offsets[part.origin] = part.CurrentOffset
 	}
 
 	return offsets
 }
 
+// EndOffset returns the latest current offset of all parts in the score,
+// including the voices of a voice group that hasn't ended yet.
+func (score *Score) EndOffset() float64 {
+	endOffset := 0.0
+
+	for _, part := range score.Parts {
+		endOffset = math.Max(endOffset, part.CurrentOffset)
+
+		for _, voice := range part.voices.voices {
+			endOffset = math.Max(endOffset, voice.CurrentOffset)
+		}
+	}
+
+	return endOffset
+}
+
 // InterpretOffsetReference interprets a string as a specific offset in the
 // score in milliseconds.
 //
diff --git a/client/repl/server.go b/client/repl/server.go
index 2a3b6ae..7951662 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -854,13 +854,7 @@ func (server *Server) loadScoreAndThen(
 				return err
 			}
 
-			newOffset := int32(0)
-			for _, offset := range server.score.PartOffsets() {
-				offsetRounded := int32(math.Round(offset))
-				if offsetRounded > newOffset {
-					newOffset = offsetRounded
-				}
-			}
+			newOffset := int32(math.Round(server.score.EndOffset()))
 
 			log.Info().
 				Interface("player", server.currentPlayer()).
-- 
2.43.0


From 9ebe5df605f42a891caea1d4d08bed11356e77af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:47 +0000
Subject: [PATCH 29/43] fix: replace a player whose state file is corrupted

---
 client/repl/player_management.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client/repl/player_management.go b/client/repl/player_management.go
index 975fe87..a1b7a28 100644
--- a/client/repl/player_management.go
+++ b/client/repl/player_management.go
@@ -110,6 +110,11 @@ func (server *Server) replacePlayer(old system.PlayerState, new system.PlayerSta
 	server.playerMutex.Lock()
 	defer server.playerMutex.Unlock()
 
+	// A state without a port is of no use, e.g. if the state file is corrupted.
+	if new.Port == 0 {
+		new = system.PlayerState{}
+	}
+
 	if server.player.ID == old.ID && !server.retiredPlayers[new.ID] {
 		server.player = new
 	}
-- 
2.43.0


From f823492d78af5641f0488d6b94f8e8227da36d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:47 +0000
Subject: [PATCH 30/43] fix: keep filling the player pool while the REPL server
 waits for a player

---
 client/repl/player_management.go | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/client/repl/player_management.go b/client/repl/player_management.go
index a1b7a28..ed88de8 100644
--- a/client/repl/player_management.go
+++ b/client/repl/player_management.go
@@ -1,6 +1,7 @@
 package repl
 
 import (
+	"errors"
 	"fmt"
 	"strings"
 	"time"
@@ -18,24 +19,7 @@ const pingInterval = 1 * time.Second
 const playerLostTimeout = 1 * time.Second
 
 func (server *Server) findAvailablePlayer() (system.PlayerState, error) {
-	var player system.PlayerState
-
-	if err := util.Await(
-		func() error {
-			availablePlayer, err := system.FindAvailablePlayerExcept(server.isRetired)
-			if err != nil {
-				return err
-			}
-
-			player = availablePlayer
-			return nil
-		},
-		findPlayerTimeout,
-	); err != nil {
-		return system.PlayerState{}, err
-	}
-
-	return player, nil
+	return system.FindAvailablePlayerExcept(server.isRetired)
 }
 
 func (server *Server) transmitter() (transmitter.OSCTransmitter, error) {
@@ -227,10 +211,14 @@ func (server *Server) managePlayers() {
 			}
 		}
 
+		// We don't wait here for a player process to become available, because if
+		// we did, we wouldn't be able to fill the player pool while we're waiting.
 		if !server.hasPlayer() {
 			player, err := server.findAvailablePlayer()
-			if err != nil {
-				log.Warn().Err(err).Msg("No player processes available.")
+			if errors.Is(err, system.ErrNoPlayersAvailable) {
+				log.Debug().Msg("No player processes available.")
+			} else if err != nil {
+				log.Warn().Err(err).Msg("Failed to find a player process.")
 			} else {
 				log.Info().Interface("player", player).Msg("Found player process.")
 				server.replacePlayer(system.PlayerState{}, player)
-- 
2.43.0


From 4eb1a7477917e31d2a5330644e7262b2fcb85a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 31/43] fix: don't share a state file between REPL servers

The IDs of REPL servers are only three letters long, and a server with the ID
of another running server would overwrite and remove the other's state file.
---
 client/repl/server.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/client/repl/server.go b/client/repl/server.go
index 7951662..75a5e67 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -78,8 +78,12 @@ type Server struct {
 	filesMutex sync.Mutex
 }
 
+func stateFile(id string) string {
+	return system.CachePath("state", "repl-servers", id+".json")
+}
+
 func (server *Server) stateFile() string {
-	return system.CachePath("state", "repl-servers", server.id+".json")
+	return stateFile(server.id)
 }
 
 func (server *Server) respond(
@@ -227,10 +231,21 @@ func generateId() string {
 	return string(b)
 }
 
+// IDs are short, so we need to make sure that we don't pick one that another
+// server is using. Otherwise, the two servers would share a state file.
+func generateUnusedId() string {
+	for {
+		id := generateId()
+		if _, err := os.Stat(stateFile(id)); err != nil {
+			return id
+		}
+	}
+}
+
 // NewServer returns an initialized instance of an Alda REPL server.
 func NewServer(port int) *Server {
 	server := &Server{
-		id:             generateId(),
+		id:             generateUnusedId(),
 		Port:           port,
 		retiredPlayers: map[string]bool{},
 		requestQueue:   make(chan nREPLRequest),
-- 
2.43.0


From 21c4c7da5456135144130c6d71a1d642c3550f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 32/43] fix: alda play and export don't use up a player process
 just to see if there is one

To decide whether to print "Starting player processes...", we looked for an
available player, which pings it, which makes it "active". When it was the only
one, there was none left to play the score.
---
 client/system/process_management.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/client/system/process_management.go b/client/system/process_management.go
index ca08685..4ebc652 100644
--- a/client/system/process_management.go
+++ b/client/system/process_management.go
@@ -619,8 +619,21 @@ func FillPlayerPool() error {
 // To avoid making it look like Alda is "hanging" here while we wait for player
 // processes come up, we print a message to make it clear what we're waiting
 // for.
+//
+// We only look at the state files here. Pinging a player process makes it
+// "active", i.e. it would no longer be available when we look for a player to
+// use right after this.
 func StartingPlayerProcesses() {
-	if _, err := FindAvailablePlayer(); err == ErrNoPlayersAvailable {
-		fmt.Fprintln(os.Stderr, "Starting player processes...")
+	players, err := ReadPlayerStates()
+	if err != nil {
+		return
+	}
+
+	for _, player := range players {
+		if player.State == "ready" {
+			return
+		}
 	}
+
+	fmt.Fprintln(os.Stderr, "Starting player processes...")
 }
-- 
2.43.0


From 2fe35d9bd37078fa21f0d237e6dffff429c4aa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 33/43] fix: don't spawn twice as many player processes as
 needed

alda repl fills the player pool in the background like any other command, and so
does its server at the same time, so it spawned six players when there were none.
The same happened when the pool was filled again right after looking in vain for a
player. Also, wait for all of the players to be spawned if one of them can't be.
---
 client/system/process_management.go | 34 +++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/client/system/process_management.go b/client/system/process_management.go
index 4ebc652..b58a21a 100644
--- a/client/system/process_management.go
+++ b/client/system/process_management.go
@@ -10,6 +10,7 @@ import (
 	"path/filepath"
 	"regexp"
 	"strings"
+	"sync"
 	"time"
 
 	"alda.io/client/color"
@@ -546,6 +547,15 @@ func spawnPlayer(playerPath string) error {
 	return nil
 }
 
+// It can take a player process this long to come up far enough that it has a
+// state file.
+const playerStartupPeriod = 5 * time.Second
+
+var (
+	fillPlayerPoolMutex sync.Mutex
+	playersLastSpawned  time.Time
+)
+
 // FillPlayerPool ensures that a minimum desired number of player processes is
 // available. Spawns as many player processes as it takes to make that happen.
 //
@@ -567,6 +577,19 @@ func FillPlayerPool() error {
 		return err
 	}
 
+	// Different parts of the program might fill the player pool around the same
+	// time, e.g. `alda repl` does it in the background like any other command, and
+	// so does the server that it runs. If players were spawned just now, there
+	// aren't any state files for them yet, so we can't tell how many more players
+	// we need. In that case, we leave it at that.
+	fillPlayerPoolMutex.Lock()
+	defer fillPlayerPoolMutex.Unlock()
+
+	if time.Since(playersLastSpawned) < playerStartupPeriod {
+		log.Debug().Msg("Players were just spawned.")
+		return nil
+	}
+
 	players, err := ReadPlayerStates()
 	if err != nil {
 		return err
@@ -596,14 +619,17 @@ func FillPlayerPool() error {
 		go func() { result <- spawnPlayer(playerPath) }()
 	}
 
+	var spawnError error
+
 	for _, result := range results {
-		err := <-result
-		if err != nil {
-			return err
+		if err := <-result; err != nil {
+			spawnError = err
+		} else {
+			playersLastSpawned = time.Now()
 		}
 	}
 
-	return nil
+	return spawnError
 }
 
 // Alda starts player processes in the background as needed when running
-- 
2.43.0


From 0b979bc488b722faea6ef885e9a26d75699acacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:51 +0000
Subject: [PATCH 34/43] fix: don't enable telemetry if the user couldn't be
 told about it

---
 client/cmd/telemetry.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/client/cmd/telemetry.go b/client/cmd/telemetry.go
index dea50bf..85b2c18 100644
--- a/client/cmd/telemetry.go
+++ b/client/cmd/telemetry.go
@@ -141,7 +141,7 @@ func initializeTelemetryStatus(status string) error {
 }
 
 func informUserOfTelemetry() {
-	fmt.Fprintf(
+	_, err := fmt.Fprintf(
 		os.Stderr,
 		text.Boxed(
 			fmt.Sprintf(
@@ -156,6 +156,13 @@ If you wish to disable anonymous usage reporting, you can run:
 		)+"\n\n",
 	)
 
+	// If we couldn't tell the user about telemetry, then we must not enable it. We
+	// will try to inform them again the next time.
+	if err != nil {
+		log.Warn().Err(err).Msg("Failed to inform the user of telemetry.")
+		return
+	}
+
 	// It's possible that telemetry was disabled (by another process) since we
 	// determined that the user needs to be informed. We must not re-enable it.
 	if err := initializeTelemetryStatus("enabled"); err != nil {
-- 
2.43.0


From 02f3a2425728fb6da3961048cf5df33ff5fddcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:51 +0000
Subject: [PATCH 35/43] fix: don't replace a file whose permissions couldn't be
 determined

---
 client/util/files.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client/util/files.go b/client/util/files.go
index 9238bdc..6edc4e3 100644
--- a/client/util/files.go
+++ b/client/util/files.go
@@ -18,11 +18,17 @@ func WriteFileAtomically(
 	filename string, data []byte, perm os.FileMode,
 ) error {
 	target := filename
-	if resolved, err := filepath.EvalSymlinks(filename); err == nil {
+	resolved, err := filepath.EvalSymlinks(filename)
+	if err == nil {
 		target = resolved
+	} else if !os.IsNotExist(err) {
+		return err
 	}
 
 	info, err := os.Lstat(target)
+	if err != nil && !os.IsNotExist(err) {
+		return err
+	}
 	exists := err == nil
 
 	if exists {
-- 
2.43.0


From 198605549ee916a9c1f50b75ba939c16bc167c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:38 +0000
Subject: [PATCH 36/43] fix: don't import the intact part of damaged MusicXML

---
 client/interop/musicxml/importer/importer.go | 23 +++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/client/interop/musicxml/importer/importer.go b/client/interop/musicxml/importer/importer.go
index a8ce6f2..e7442d2 100644
--- a/client/interop/musicxml/importer/importer.go
+++ b/client/interop/musicxml/importer/importer.go
@@ -2,7 +2,10 @@ package importer
 
 import (
 	log "alda.io/client/logging"
+	"bytes"
+	"encoding/xml"
 	"fmt"
+	"io"
 	"sort"
 
 	"alda.io/client/color"
@@ -405,12 +408,30 @@ func findLastWithStateRecursive(
 	return nil, nestedIndex{indices: nil}, curr
 }
 
+// checkWellFormed returns an error if the provided XML is incomplete or its tags
+// don't match, which etree doesn't notice.
+func checkWellFormed(b []byte) error {
+	decoder := xml.NewDecoder(bytes.NewReader(b))
+	for {
+		_, err := decoder.Token()
+		if err == io.EOF {
+			return nil
+		}
+		if err != nil {
+			return err
+		}
+	}
+}
+
 // ImportMusicXML translates a MusicXML file into Alda score updates
 // ImportMusicXML requires valid MusicXML with a "score-partwise" root tag
 func ImportMusicXML(b []byte) ([]model.ScoreUpdate, error) {
 	doc := etree.NewDocument()
 
-	err := doc.ReadFromBytes(b)
+	err := checkWellFormed(b)
+	if err == nil {
+		err = doc.ReadFromBytes(b)
+	}
 	if err != nil {
 		return nil, help.UserFacingErrorf(
 			"Failed to read from input: %s.", err.Error(),
-- 
2.43.0


From d338e3d1415b7403a4dab6e6ca35aacd93667da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 37/43] fix: report failure to reach the player that was asked
 for

---
 client/cmd/shutdown.go | 6 ++++++
 client/cmd/stop.go     | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/client/cmd/shutdown.go b/client/cmd/shutdown.go
index 6f4a0c6..54d7028 100644
--- a/client/cmd/shutdown.go
+++ b/client/cmd/shutdown.go
@@ -62,6 +62,12 @@ var shutdownCmd = &cobra.Command{
 					Interface("player", player).
 					Err(err).
 					Msg("Failed to send \"shutdown\" message to player process.")
+
+				// When the user asks for one particular player process, not being able
+				// to reach it means that the command failed.
+				if playerPort != -1 || playerID != "" {
+					return err
+				}
 			} else {
 				log.Info().
 					Interface("player", player).
diff --git a/client/cmd/stop.go b/client/cmd/stop.go
index 48fc24d..a0873f1 100644
--- a/client/cmd/stop.go
+++ b/client/cmd/stop.go
@@ -70,6 +70,12 @@ var stopCmd = &cobra.Command{
 					Interface("player", player).
 					Err(err).
 					Msg("Failed to send \"stop\" message to player process.")
+
+				// When the user asks for one particular player process, not being able
+				// to reach it means that the command failed.
+				if playerPort != -1 || playerID != "" {
+					return err
+				}
 			} else {
 				log.Info().
 					Interface("player", player).
-- 
2.43.0


From 6f4d7df0dbb4e1ea109185326d97b95b81243d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:20 +0000
Subject: [PATCH 38/43] fix: don't crash if there's nobody to answer a prompt

---
 client/text/interaction.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client/text/interaction.go b/client/text/interaction.go
index 01d6ff4..ef05401 100644
--- a/client/text/interaction.go
+++ b/client/text/interaction.go
@@ -20,7 +20,9 @@ func PromptForConfirmation(prompt string, defaultToYes bool) bool {
 
 		response, err := reader.ReadString('\n')
 		if err != nil {
-			panic(err)
+			// There is nobody there to answer, e.g. because stdin isn't a terminal.
+			fmt.Println()
+			return false
 		}
 
 		switch strings.ToLower(strings.TrimSpace(response)) {
-- 
2.43.0


From b8e328cbdabaf2d5864a90fc0a3a77063be80c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:01 +0000
Subject: [PATCH 39/43] fix: don't leave behind a player that doesn't shut down

---
 client/cmd/doctor.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/client/cmd/doctor.go b/client/cmd/doctor.go
index e19e1c3..9739ebd 100644
--- a/client/cmd/doctor.go
+++ b/client/cmd/doctor.go
@@ -47,8 +47,9 @@ func sendShutdownMessage(client *osc.Client) error {
 }
 
 // stopPlayerProcess stops a player process that we spawned, either by telling it
-// to shut down via the port number provided, or if that isn't possible, by
-// killing it. Does nothing if `process` is nil.
+// to shut down via the port number provided, or if that isn't possible or the
+// player process doesn't comply, by killing it. Does nothing if `process` is
+// nil.
 func stopPlayerProcess(process *os.Process, port int) {
 	if process == nil {
 		return
@@ -61,9 +62,24 @@ func stopPlayerProcess(process *os.Process, port int) {
 			Int("port", port).
 			Err(err).
 			Msg("Failed to send \"shutdown\" message to player process. Killing it.")
+	} else {
+		exited := make(chan bool, 1)
+		go func() {
+			_, _ = process.Wait()
+			exited <- true
+		}()
 
-		_ = process.Kill()
+		select {
+		case <-exited:
+			return
+		case <-time.After(reasonableTimeout):
+			log.Warn().
+				Int("port", port).
+				Msg("Player process did not shut down. Killing it.")
+		}
 	}
+
+	_ = process.Kill()
 }
 
 // OSCPacketForwarder is a simple Dispatcher that puts each OSC packet that it
@@ -664,9 +680,7 @@ version of %s.`,
 					return err
 				}
 
-				secondPlayerProcess = nil
-
-				return util.Await(
+				if err := util.Await(
 					func() error {
 						players, err := system.ReadPlayerStates()
 						if err != nil {
@@ -682,7 +696,12 @@ version of %s.`,
 						return nil
 					},
 					reasonableTimeout,
-				)
+				); err != nil {
+					return err
+				}
+
+				secondPlayerProcess = nil
+				return nil
 			},
 		); err != nil {
 			return err
-- 
2.43.0


From 115d8c1f1bdf9fa80274c2abc2fa4f1e0ccfa057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:45 +0000
Subject: [PATCH 40/43] fix: import key signatures the same way every time

---
 client/model/key.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/client/model/key.go b/client/model/key.go
index 9e71c43..2daf3de 100644
--- a/client/model/key.go
+++ b/client/model/key.go
@@ -49,7 +49,14 @@ type KeySignature map[NoteLetter][]Accidental
 func (ks KeySignature) String() string {
 	laas := []string{}
 
-	for note, accidentals := range ks {
+	// The order must not depend on the order in which a map is traversed, so that
+	// importing the same document always results in the same Alda code.
+	for _, note := range []NoteLetter{A, B, C, D, E, F, G} {
+		accidentals, inKeySig := ks[note]
+		if !inKeySig {
+			continue
+		}
+
 		laa := strings.Builder{}
 		laa.WriteRune(rune(note + 'a'))
 
-- 
2.43.0


From 2d51008cd16a6e09df3c1a0b67982c312a1b3d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:10 +0000
Subject: [PATCH 41/43] fix: don't let score data depend on the order of a map

---
 client/model/attributes.go | 13 +++++++++++--
 client/model/part.go       | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/client/model/attributes.go b/client/model/attributes.go
index bc53be3..ba483c8 100644
--- a/client/model/attributes.go
+++ b/client/model/attributes.go
@@ -71,13 +71,22 @@ type GlobalAttributes struct {
 // JSON implements RepresentableAsJSON.JSON.
 func (ga *GlobalAttributes) JSON() *json.Container {
 	object := json.Object()
-	for offset, updates := range ga.itinerary {
+
+	// Offsets that are very close together can share a key. In that case, we
+	// include the updates at all of them, in order.
+	updatesByKey := map[string][]PartUpdate{}
+	for _, offset := range ga.offsets {
+		key := fmt.Sprintf("%f", offset)
+		updatesByKey[key] = append(updatesByKey[key], ga.itinerary[offset]...)
+	}
+
+	for key, updates := range updatesByKey {
 		updatesArray := json.Array()
 		for _, update := range updates {
 			updatesArray.ArrayAppend(update.JSON())
 		}
 
-		object.Set(updatesArray, fmt.Sprintf("%f", offset))
+		object.Set(updatesArray, key)
 	}
 
 	return object
diff --git a/client/model/part.go b/client/model/part.go
index a925f04..e591330 100644
--- a/client/model/part.go
+++ b/client/model/part.go
@@ -2,6 +2,7 @@ package model
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"alda.io/client/json"
@@ -104,9 +105,17 @@ func (part *Part) ID() string {
 
 // JSON implements RepresentableAsJSON.JSON.
 func (part *Part) JSON() *json.Container {
+	offsets := []float64{}
+	for offset := range part.TempoValues {
+		offsets = append(offsets, offset)
+	}
+	sort.Float64s(offsets)
+
+	// Offsets that are very close together can share a key. In that case, the
+	// last tempo is the one that counts.
 	tempoValues := json.Object()
-	for offset, tempo := range part.TempoValues {
-		tempoValues.Set(tempo, fmt.Sprintf("%f", offset))
+	for _, offset := range offsets {
+		tempoValues.Set(part.TempoValues[offset], fmt.Sprintf("%f", offset))
 	}
 
 	return json.Object(
-- 
2.43.0


From 617f024253983052f6837ca7062008f82d786bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:37 +0000
Subject: [PATCH 42/43] fix: end a voice group that was started in an earlier
 REPL input

---
 client/parser/gen.go    |  3 +++
 client/parser/parser.go | 24 ++++++++++++++----------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/client/parser/gen.go b/client/parser/gen.go
index 828c765..1bdc4e1 100644
--- a/client/parser/gen.go
+++ b/client/parser/gen.go
@@ -348,6 +348,9 @@ func mapInnerEvents(updates []model.ScoreUpdate) ([]ASTNode, error) {
 			currentNode = &currentVoiceGroup.Children[currIndex].Children[1]
 
 		case model.VoiceGroupEndMarker:
+			if currentVoiceGroup == nil {
+				currentVoiceGroup = &ASTNode{Type: VoiceGroupNode}
+			}
 			currentVoiceGroup.Children = append(currentVoiceGroup.Children,
 				ASTNode{Type: VoiceGroupEndMarkerNode},
 			)
diff --git a/client/parser/parser.go b/client/parser/parser.go
index dd03fdc..f8a665c 100644
--- a/client/parser/parser.go
+++ b/client/parser/parser.go
@@ -999,7 +999,18 @@ func (p *parser) voiceGroup() (ASTNode, error) {
 		Children:      []ASTNode{},
 	}
 
-	for {
+	for voiceMarker := firstVoiceMarkerToken; ; {
+		// NB: The first voice marker can be the one that ends the voice group, for
+		// example in a REPL session where the group was started in an earlier input.
+		if voiceMarker.literal.(int32) == 0 {
+			voiceGroupNode.Children = append(voiceGroupNode.Children, ASTNode{
+				Type:          VoiceGroupEndMarkerNode,
+				SourceContext: p.sourceContext(voiceMarker),
+			})
+
+			break
+		}
+
 		voice, err := p.voice()
 		if err != nil {
 			return ASTNode{}, err
@@ -1007,19 +1018,12 @@ func (p *parser) voiceGroup() (ASTNode, error) {
 
 		voiceGroupNode.Children = append(voiceGroupNode.Children, voice)
 
-		voiceMarker, matched := p.match(VoiceMarker)
+		nextVoiceMarker, matched := p.match(VoiceMarker)
 		if !matched {
 			break
 		}
 
-		if voiceMarker.literal.(int32) == 0 {
-			voiceGroupNode.Children = append(voiceGroupNode.Children, ASTNode{
-				Type:          VoiceGroupEndMarkerNode,
-				SourceContext: p.sourceContext(voiceMarker),
-			})
-
-			break
-		}
+		voiceMarker = nextVoiceMarker
 	}
 
 	return voiceGroupNode, nil
-- 
2.43.0


From 2f29b13316ab0e292ef010b57ca491a60b2281b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:56 +0000
Subject: [PATCH 43/43] fix: Report an error when the output of a command can't
 be written

parse, instruments, ps, version and repl --message exited successfully when
standard output couldn't be written to, e.g. because the disk is full.
---
 client/cmd/instruments.go |  4 ++--
 client/cmd/parse.go       | 16 ++++++++--------
 client/cmd/ps.go          | 16 +++++++++++-----
 client/cmd/repl.go        |  4 +++-
 client/cmd/version.go     |  4 ++--
 5 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/client/cmd/instruments.go b/client/cmd/instruments.go
index 85cb25c..367c1c3 100644
--- a/client/cmd/instruments.go
+++ b/client/cmd/instruments.go
@@ -12,7 +12,7 @@ var instrumentsCmd = &cobra.Command{
 	Use:   "instruments",
 	Short: "Display the list of available instruments",
 	RunE: func(_ *cobra.Command, args []string) error {
-		fmt.Println(strings.Join(model.InstrumentsList(), "\n"))
-		return nil
+		_, err := fmt.Println(strings.Join(model.InstrumentsList(), "\n"))
+		return err
 	},
 }
diff --git a/client/cmd/parse.go b/client/cmd/parse.go
index bdbdcb2..6269719 100644
--- a/client/cmd/parse.go
+++ b/client/cmd/parse.go
@@ -142,9 +142,9 @@ Please choose one of:
 		}
 
 		if outputType == "ast" {
-			fmt.Println(ast.JSON().String())
+			_, err := fmt.Println(ast.JSON().String())
 
-			return nil
+			return err
 		}
 
 		if outputType == "ast-human" {
@@ -164,9 +164,9 @@ Please choose one of:
 				return err
 			}
 
-			fmt.Println(parser.HumanReadableAST(parsedJsonObj))
+			_, err = fmt.Println(parser.HumanReadableAST(parsedJsonObj))
 
-			return nil
+			return err
 		}
 
 		scoreUpdates, err = ast.Updates()
@@ -189,9 +189,9 @@ Please choose one of:
 				updates.ArrayAppend(update.JSON())
 			}
 
-			fmt.Println(updates.String())
+			_, err := fmt.Println(updates.String())
 
-			return nil
+			return err
 		}
 
 		score := model.NewScore()
@@ -216,8 +216,8 @@ Please choose one of:
 			Str("took", time.Since(start).String()).
 			Msg("Constructed score.")
 
-		fmt.Println(score.JSON().String())
+		_, err = fmt.Println(score.JSON().String())
 
-		return nil
+		return err
 	},
 }
diff --git a/client/cmd/ps.go b/client/cmd/ps.go
index 7bf3785..68ba017 100644
--- a/client/cmd/ps.go
+++ b/client/cmd/ps.go
@@ -23,22 +23,28 @@ var psCmd = &cobra.Command{
 			return err
 		}
 
-		fmt.Println("id\tport\tstate\texpiry\ttype\tpid")
+		if _, err := fmt.Println("id\tport\tstate\texpiry\ttype\tpid"); err != nil {
+			return err
+		}
 
 		for _, state := range playerStates {
 			expiry := humanize.Time(time.Unix(state.Expiry/1000, 0))
 
-			fmt.Printf(
+			if _, err := fmt.Printf(
 				"%s\t%d\t%s\t%s\t%s\t%d\n",
 				state.ID, state.Port, state.State, expiry, "player", state.PID,
-			)
+			); err != nil {
+				return err
+			}
 		}
 
 		for _, state := range replServerStates {
-			fmt.Printf(
+			if _, err := fmt.Printf(
 				"%s\t%d\t%s\t%s\t%s\t%d\n",
 				state.ID, state.Port, "-", "-", "repl-server", state.PID,
-			)
+			); err != nil {
+				return err
+			}
 		}
 
 		return nil
diff --git a/client/cmd/repl.go b/client/cmd/repl.go
index 6b74415..a5e5599 100644
--- a/client/cmd/repl.go
+++ b/client/cmd/repl.go
@@ -84,7 +84,9 @@ func sendREPLMessage(host string, port int, message string) error {
 		return err
 	}
 
-	fmt.Println(json.ToJSON(res))
+	if _, err := fmt.Println(json.ToJSON(res)); err != nil {
+		return err
+	}
 
 	if len(repl.ResponseErrors(res)) > 0 {
 		return help.UserFacingErrorf(
diff --git a/client/cmd/version.go b/client/cmd/version.go
index 047602b..f9871d4 100644
--- a/client/cmd/version.go
+++ b/client/cmd/version.go
@@ -11,7 +11,7 @@ var versionCmd = &cobra.Command{
 	Use:   "version",
 	Short: "Print Alda version information",
 	RunE: func(_ *cobra.Command, args []string) error {
-		fmt.Printf("alda %s\n", generated.ClientVersion)
-		return nil
+		_, err := fmt.Printf("alda %s\n", generated.ClientVersion)
+		return err
 	},
 }
-- 
2.43.0

