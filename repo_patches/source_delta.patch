From cd2c6025815974846e391a1aa667e08ad2641107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 01/25] fix: encode text formats 10 and 11 without a
 TextStyling sub-message

The font size of the unformatted text modes was read from the optional
TextStyling sub-message without checking for its presence.
---
 converterFunctions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index 3c4d2d6..a7f49ca 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -870,7 +870,7 @@ func InboundMessagesToRawPanelASCIIstrings(inboundMsgs []*rwp.InboundMessage) []
 							if !su.IsIntIn(int(stateRec.HWCText.Formatting), []int{7, 10, 11}) {
 								stringSlice[0] = strconv.Itoa(int(stateRec.HWCText.IntegerValue))
 							} else if su.IsIntIn(int(stateRec.HWCText.Formatting), []int{10, 11}) {
-								stringSlice[0] = strconv.Itoa(int(stateRec.HWCText.TextStyling.UnformattedFontSize))
+								stringSlice[0] = strconv.Itoa(int(stateRec.HWCText.GetTextStyling().GetUnformattedFontSize()))
 							} else { // Formatting == 7
 								stringSlice[1] = ""
 								stringSlice[0] = ""
-- 
2.43.0


From 812e0320a1e1ffa7c157ec2159d8f061bd7ccc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 02/25] fix: decode Raw events of a panel in ASCII mode

The event expression did not list Raw, so the lines the panel side emits for
raw analog values were dropped, and the decoding case read its value with the
expression of another command.
---
 converterFunctions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index a7f49ca..5a9cdeb 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -964,7 +964,7 @@ func InboundMessagesToRawPanelASCIIstrings(inboundMsgs []*rwp.InboundMessage) []
 
 var regex_map = regexp.MustCompile("^map=([0-9]+):([0-9]+)$")
 var regex_genericSingle_inbound = regexp.MustCompile("^(_model|_serial|_version|_platform|_bluePillReady|_name|_panelType|_support|_isSleeping|_sleepTimer|_panelTopology_svgbase|_panelTopology_HWC|_burninProfile|_networkConfig|_calibrationProfile|_defaultCalibrationProfile|_serverModeLockToIP|_serverModeMaxClients|_heartBeatTimer|DimmedGain|_connections|_bootsCount|_totalUptimeMin|_sessionUptimeMin|_screenSaverOnMin|ErrorMsg|Msg|EnvironmentalHealth|SysStat)=(.+)$")
-var regex_cmd_inbound = regexp.MustCompile("^HWC#([0-9]+)(|.([0-9]+))=(Down|Up|Press|Abs|Speed|Enc)(|:([-0-9]+))$")
+var regex_cmd_inbound = regexp.MustCompile("^HWC#([0-9]+)(|.([0-9]+))=(Down|Up|Press|Abs|Speed|Enc|Raw)(|:([-0-9]+))$")
 var regex_registersOut = regexp.MustCompile("^(Flag#|Mem|Shift|State)([A-Z0-9]*)=([0-9]+)$")
 
 // Converts Raw Panel 1.0 ASCII Strings into proto OutboundMessage structs
@@ -1087,7 +1087,7 @@ func RawPanelASCIIstringsToOutboundMessages(rp20_ascii []string) []*rwp.Outbound
 						},
 					}
 				case "Raw":
-					value := su.Intval(regex_cmd.FindStringSubmatch(inputString)[6])
+					value := su.Intval(regex_cmd_inbound.FindStringSubmatch(inputString)[6])
 					msg = &rwp.OutboundMessage{
 						Events: []*rwp.HWCEvent{
 							&rwp.HWCEvent{
-- 
2.43.0


From 623d57e6453b9f95580623f648160567733d3101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 03/25] fix: only a dot separates the edge from the id of an
 event line

The unescaped dot of the event expression accepted any character there, so
keys that are not part of the grammar (HWC#5x4=Down) produced events.
---
 converterFunctions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index 5a9cdeb..abc40bd 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -964,7 +964,7 @@ func InboundMessagesToRawPanelASCIIstrings(inboundMsgs []*rwp.InboundMessage) []
 
 var regex_map = regexp.MustCompile("^map=([0-9]+):([0-9]+)$")
 var regex_genericSingle_inbound = regexp.MustCompile("^(_model|_serial|_version|_platform|_bluePillReady|_name|_panelType|_support|_isSleeping|_sleepTimer|_panelTopology_svgbase|_panelTopology_HWC|_burninProfile|_networkConfig|_calibrationProfile|_defaultCalibrationProfile|_serverModeLockToIP|_serverModeMaxClients|_heartBeatTimer|DimmedGain|_connections|_bootsCount|_totalUptimeMin|_sessionUptimeMin|_screenSaverOnMin|ErrorMsg|Msg|EnvironmentalHealth|SysStat)=(.+)$")
-var regex_cmd_inbound = regexp.MustCompile("^HWC#([0-9]+)(|.([0-9]+))=(Down|Up|Press|Abs|Speed|Enc|Raw)(|:([-0-9]+))$")
+var regex_cmd_inbound = regexp.MustCompile("^HWC#([0-9]+)(|\\.([0-9]+))=(Down|Up|Press|Abs|Speed|Enc|Raw)(|:([-0-9]+))$")
 var regex_registersOut = regexp.MustCompile("^(Flag#|Mem|Shift|State)([A-Z0-9]*)=([0-9]+)$")
 
 // Converts Raw Panel 1.0 ASCII Strings into proto OutboundMessage structs
-- 
2.43.0


From ac8d948acc3c9ee4c0fb679722baa0d069b57948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 04/25] fix: keep the text of SVG lines that do not end in a
 tag

Flattening an SVG document replaced every line not ending in '>' with a
space instead of adding a space to it, which lost attributes, path data and
text broken over several lines.
---
 converterFunctions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index abc40bd..573d4fd 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -1827,7 +1827,7 @@ func stripLineBreaksSvg(svg string) string {
 	for i := range parts {
 		parts[i] = strings.TrimSpace(parts[i])
 		if !strings.HasSuffix(parts[i], ">") {
-			parts[i] = " " // Add a single space at the end if it's not tags. This is to secure integrity of such as a SVG path defined over multiple lines which is sometimes the case....
+			parts[i] += " " // Add a single space at the end if it's not tags. This is to secure integrity of such as a SVG path defined over multiple lines which is sometimes the case....
 		}
 	}
 	return strings.Join(parts, "")
-- 
2.43.0


From af0a33624bd2ede37f19e0afa711bf6643841960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 05/25] fix: never produce an ASCII string with a line feed in
 it

Titles, labels, identity strings, address lists and register ids were written
as they are, so a line feed in one of them split the string into two lines on
the wire.
---
 converterFunctions.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/converterFunctions.go b/converterFunctions.go
index 573d4fd..e923e12 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -931,6 +931,7 @@ func InboundMessagesToRawPanelASCIIstrings(inboundMsgs []*rwp.InboundMessage) []
 			}
 		}
 	}
+	ensureSingleLines(returnStrings)
 
 	if DebugRWPhelpers {
 		DebugRWPhelpersMU.Lock()
@@ -1748,6 +1749,7 @@ func OutboundMessagesToRawPanelASCIIstrings(outboundMsgs []*rwp.OutboundMessage)
 			}
 		}
 	}
+	ensureSingleLines(returnStrings)
 
 	if DebugRWPhelpers {
 		DebugRWPhelpersMU.Lock()
@@ -1841,6 +1843,13 @@ func stripLineBreaks(in string) string {
 	return strings.Join(parts, "")
 }
 
+// Text fields may carry line breaks, but every string is exactly one line on the wire
+func ensureSingleLines(lines []string) {
+	for i := range lines {
+		lines[i] = strings.ReplaceAll(lines[i], "\n", " ")
+	}
+}
+
 func networkConfigFromString(str string) *rwp.NetworkConfig {
 
 	networkConfig := &rwp.NetworkConfig{}
-- 
2.43.0


From 7aae497e31e98ad68f0831a2e07c57c63544b112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 06/25] fix: deliver only complete graphics transfers, and each
 only once

A chunk with the wrong index advanced the expected index, so a skipped chunk
followed by a repeated one delivered an image with a part missing. After a
transfer was complete its state stayed in place: further chunks were appended
to the image that had already been returned, or delivered the image again.
---
 converterFunctions.go |  8 ++++++--
 rawpanelhelpers.go    | 11 ++++++-----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index e923e12..535b6a7 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -377,8 +377,8 @@ func RawPanelASCIIstringsToInboundMessages(rp20_ascii []string) []*rwp.InboundMe
 				}
 				if temp_HWCGfx_ImageType == imageType {
 					if submatches[2] == temp_HWCGfx_HWClist { // Check that HWC list is the same as last one
-						temp_HWCGfx_count++
-						if gPartIndex == temp_HWCGfx_count { // Make sure index is the next in line
+						if gPartIndex == temp_HWCGfx_count+1 { // Make sure index is the next in line
+							temp_HWCGfx_count++
 							temp_HWCGfx.ImageData = append(temp_HWCGfx.ImageData, decodedSlice...)
 							if gPartIndex == temp_HWCGfx_max { // If we have reached the final one, wrap it up:
 								msg = &rwp.InboundMessage{
@@ -390,6 +390,10 @@ func RawPanelASCIIstringsToInboundMessages(rp20_ascii []string) []*rwp.InboundMe
 									},
 								}
 								//fmt.Println("DID IT! ", submatches)
+
+								// The image is handed over now, later lines need a new transfer:
+								temp_HWCGfx = &rwp.HWCGfx{}
+								temp_HWCGfx_HWClist = ""
 							}
 						} else {
 							//fmt.Println("gPartIndex didn't match expected")
diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index 6f7f0c6..57be574 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -653,15 +653,16 @@ func (ar *ASCIIreader) Parse(inputString string) []*rwp.InboundMessage {
 
 		if ar.HWCGfx_ImageType == submatches[1] {
 			if ar.HWCGfx_HWClist == submatches[2] { // Check that HWC list is the same as last one
-				ar.HWCGfx_count++
-				if gPartIndex == ar.HWCGfx_count { // Make sure index is the next in line
+				if gPartIndex == ar.HWCGfx_count+1 { // Make sure index is the next in line
+					ar.HWCGfx_count++
 					ar.HWCGfx = append(ar.HWCGfx, inputString)
 					if gPartIndex == ar.HWCGfx_max { // If we have reached the final one, wrap it up:
-						ar.HWCGfx_count = -1 // Reset
-						return RawPanelASCIIstringsToInboundMessages(ar.HWCGfx)
+						imageLines := ar.HWCGfx
+						*ar = ASCIIreader{HWCGfx_count: -1} // Reset, later lines need a new transfer
+						return RawPanelASCIIstringsToInboundMessages(imageLines)
 					}
 				} else {
-					log.Warnf("gPartIndex %d didn't match expected %d\n", gPartIndex, ar.HWCGfx_count)
+					log.Warnf("gPartIndex %d didn't match expected %d\n", gPartIndex, ar.HWCGfx_count+1)
 				}
 			} else {
 				log.Warnf("Wrong HWC %s addressed! Should be %s\n", submatches[2], ar.HWCGfx_HWClist)
-- 
2.43.0


From 0fa40b4b5cb753d0e68afa5ae5d40e458c63a188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 07/25] fix: a null in a JSON array of messages is no message

Decoding the line [null] put a nil *InboundMessage in the result.
---
 converterFunctions.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index 535b6a7..82bab2e 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -173,7 +173,11 @@ func RawPanelASCIIstringsToInboundMessages(rp20_ascii []string) []*rwp.InboundMe
 				myStateMsgs := []*rwp.InboundMessage{}
 				json.Unmarshal([]byte(inputString), &myStateMsgs)
 				msg = nil
-				returnMsgs = append(returnMsgs, myStateMsgs...)
+				for _, myStateMsg := range myStateMsgs {
+					if myStateMsg != nil { // A "null" in the JSON array is no message
+						returnMsgs = append(returnMsgs, myStateMsg)
+					}
+				}
 			} else if regex_cmd.MatchString(inputString) {
 				HWCidArray := su.IntExplode(regex_cmd.FindStringSubmatch(inputString)[2], ",")
 				switch regex_cmd.FindStringSubmatch(inputString)[1] {
-- 
2.43.0


From 7f00d7cdfb6fa6b44ff56a938a256a34e65f0770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 08/25] fix: time out a frame that stalls inside its header

The 2 s in-frame deadline was armed only after the complete four byte header
had arrived, so a panel stalling after one to three header bytes kept the
connection open for ever.
---
 connecttopanel.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/connecttopanel.go b/connecttopanel.go
index e471b34..fc3f079 100644
--- a/connecttopanel.go
+++ b/connecttopanel.go
@@ -179,7 +179,11 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 				for {
 					conn.SetReadDeadline(time.Time{}) // Reset deadline, waiting for header
 					headerArray := make([]byte, 4)
-					_, err := io.ReadFull(conn, headerArray) // Read 4 header bytes
+					_, err := io.ReadFull(conn, headerArray[:1]) // Read the first header byte, which may be long in coming
+					if err == nil {
+						conn.SetReadDeadline(time.Now().Add(2 * time.Second)) // A frame has begun, so the rest of its header must not stall either
+						_, err = io.ReadFull(conn, headerArray[1:])
+					}
 					if err != nil {
 						log.Debugln("Binary: ", err)
 						break
-- 
2.43.0


From e54ab43d20a4d9768adb6848076b8e62571e6ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:42 +0000
Subject: [PATCH 09/25] fix: return promptly when the context is cancelled,
 whatever the phase

Dialing and the wait between a loss and the next attempt ignored the context,
and so did the sending goroutine while blocked in a write to a panel that does
not read: the call did not return and its socket stayed open. The sending
goroutine was also added to the wait group only after it had started.
---
 connecttopanel.go | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/connecttopanel.go b/connecttopanel.go
index fc3f079..2a498ce 100644
--- a/connecttopanel.go
+++ b/connecttopanel.go
@@ -53,7 +53,8 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 	// Main loop for continuous connection attempts:
 	for {
 		log.Debugln("Trying to connect to panel on " + panelIPAndPort)
-		conn, err := net.Dial("tcp", panelIPAndPort)
+		var dialer net.Dialer
+		conn, err := dialer.DialContext(ctx, "tcp", panelIPAndPort) // A pending dial ends when the context is cancelled
 
 		if err != nil {
 			//fmt.Println(err)
@@ -129,21 +130,33 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 				binaryPanel = false
 			}
 
-			// This goroutine is reading the msgsToPanel channel and sending over the panel in the proper encoding (binary or ASCII)
 			var exit atomic.Bool
 			quit := make(chan bool)
+			if wg != nil {
+				wg.Add(2) // Done before the goroutines start, so that a Wait() can't miss them
+			}
+
+			// This goroutine waits for context shutdown. It is separate from the sending one, which may be blocked in a write to a panel that doesn't read.
+			go func() {
+				if wg != nil {
+					defer wg.Done()
+				}
+				select {
+				case <-ctx.Done(): // Context shutdown.
+					log.Debugln("Closing network connection because context was done, ", panelIPAndPort)
+					exit.Store(true)
+					conn.Close() // The implications of closing the connection should be that the listening code below will also fail and exit - but it might not happen if the msgsFromPanel channel reader outside this function has been stopped prematurely, so watch out for that.
+				case <-quit:
+				}
+			}()
+
+			// This goroutine is reading the msgsToPanel channel and sending over the panel in the proper encoding (binary or ASCII)
 			go func() {
 				if wg != nil {
-					wg.Add(1)
 					defer wg.Done()
 				}
 				for {
 					select {
-					case <-ctx.Done(): // Context shutdown.
-						log.Debugln("Closing network connection because context was done, ", panelIPAndPort)
-						exit.Store(true)
-						conn.Close() // The implications of closing the connection should be that the listening code below will also fail and exit - but it might not happen if the msgsFromPanel channel reader outside this function has been stopped prematurely, so watch out for that.
-						return
 					case <-quit:
 						return
 					case incomingMessages := <-msgsToPanel:
@@ -239,7 +252,11 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 			}
 
 			log.Debugf("Retrying in %d seconds for %s\n", reConnectionRetryPeriod, panelIPAndPort)
-			time.Sleep(time.Duration(reConnectionRetryPeriod) * time.Second)
+			select {
+			case <-ctx.Done():
+				return
+			case <-time.After(time.Duration(reConnectionRetryPeriod) * time.Second):
+			}
 		}
 	}
 }
-- 
2.43.0


From b64ab312f5b950f092d6bb0029e751e4fccdd3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:07 +0000
Subject: [PATCH 10/25] fix: recognize probe replies in several segments or
 with CRLF

An acknowledge frame whose bytes came in two segments was taken for an ASCII
reply (client) or left half read (detector), the detector took "RDY\r\n" for a
binary panel, and an error message ending in CRLF kept its CR.
---
 connecttopanel.go  |  6 +++---
 rawpanelhelpers.go | 38 +++++++++++++++++++++++++++++++++++---
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/connecttopanel.go b/connecttopanel.go
index 2a498ce..372e84b 100644
--- a/connecttopanel.go
+++ b/connecttopanel.go
@@ -85,10 +85,10 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 			log.Should(err)
 
 			// Prepare reception of the response (times out after two seconds)
-			byteArray := make([]byte, 1000)
 			err = conn.SetReadDeadline(time.Now().Add(2000 * time.Millisecond))
 			log.Should(err)
-			byteCount, err := conn.Read(byteArray) // Should timeout after 2 seconds if ascii panel, otherwise respond promptly with an ACK message
+			byteArray, err := readProbeReply(conn) // Should timeout after 2 seconds if ascii panel, otherwise respond promptly with an ACK message
+			byteCount := len(byteArray)
 			assumeASCII := false
 			binaryPanel := true
 			if err == nil {
@@ -121,7 +121,7 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 			if assumeASCII {
 				parts := strings.Split(string(byteArray[:byteCount]), "\n")
 				if strings.HasPrefix(parts[0], "ErrorMsg=") {
-					errorMsg = parts[0][9:]
+					errorMsg = strings.TrimSuffix(parts[0][9:], "\r")
 				}
 
 				log.Debugf("Reply from panel was: %s\n", strings.ReplaceAll(string(byteArray[:byteCount]), "\n", "\\n"))
diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index 57be574..586edb3 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -676,6 +676,37 @@ func (ar *ASCIIreader) Parse(inputString string) []*rwp.InboundMessage {
 	return nil
 }
 
+// Reads the reply to the binary ping of the auto detection. It may arrive in several segments,
+// so this reads on (until the read deadline) for as long as it has got only the first part of a frame
+// or of the words that ASCII panels issue.
+func readProbeReply(c net.Conn) ([]byte, error) {
+	byteArray := make([]byte, 1000)
+	byteCount := 0
+	for {
+		n, err := c.Read(byteArray[byteCount:])
+		byteCount += n
+		if err != nil && byteCount == 0 {
+			return nil, err
+		}
+		reply := byteArray[:byteCount]
+		if err != nil || byteCount == len(byteArray) {
+			return reply, nil
+		}
+
+		header := make([]byte, 4)
+		copy(header, reply)
+		frameLength := 4 + uint64(binary.LittleEndian.Uint32(header))
+		partOfFrame := byteCount < 4 || uint64(byteCount) < frameLength
+		partOfWord := false
+		for _, word := range []string{"RDY\n", "RDY\r\n", "map="} {
+			partOfWord = partOfWord || (byteCount < len(word) && strings.HasPrefix(word, string(reply)))
+		}
+		if !partOfWord && !(partOfFrame && frameLength <= uint64(len(byteArray))) {
+			return reply, nil
+		}
+	}
+}
+
 // Is server mode panel ASCII or Binary? Test by sending a binary ping to the panel.
 // Background: Since it's possible that a panel auto detects binary or ascii protocol mode itself, it's best to probe with a binary package since otherwise a binary capable panel/system pair in auto mode would negotiate to use ASCII which is not as efficient and complete an encoding.
 // Returns true if binary panel. May hang for a few seconds waiting for reply
@@ -695,11 +726,10 @@ func AutoDetectIfPanelEncodingIsBinary(c net.Conn, panelIPAndPort string) bool {
 
 	_, err = c.Write(pbdata) // Send "ping" and wait one second for a reply:
 	log.Should(err)
-	byteArray := make([]byte, 1000)
 	err = c.SetReadDeadline(time.Now().Add(2000 * time.Millisecond))
 	log.Should(err)
 
-	byteCount, err := c.Read(byteArray) // Should timeout after 2 seconds if ascii panel, otherwise respond promptly with an ACK message
+	byteArray, err := readProbeReply(c) // Should timeout after 2 seconds if ascii panel, otherwise respond promptly with an ACK message
 	if err != nil {
 		log.WithError(err).Debug("tried to connected in binarymode failed, trying asciimode...")
 		log.Infoln("Using ASCII Protocol Mode for panel", panelIPAndPort)
@@ -708,7 +738,9 @@ func AutoDetectIfPanelEncodingIsBinary(c net.Conn, panelIPAndPort string) bool {
 		return false
 	}
 
-	if byteCount >= 4 && (string(byteArray[0:4]) == "RDY\n" || string(byteArray[0:4]) == "map=") {
+	byteCount := len(byteArray)
+	firstLine, _, _ := strings.Cut(string(byteArray), "\n")
+	if strings.TrimSuffix(firstLine, "\r") == "RDY" || strings.HasPrefix(firstLine, "map=") {
 		log.Debugln("Detected map or RDY message issued by UniSketch ASCII panels - we conclude ASCII")
 		_, err = c.Write([]byte("\n")) // Clearing an ASCII panels buffer with a newline since we sent it binary stuff
 		log.Should(err)
-- 
2.43.0


From d63d20a169fb9717c16563ee0ac1cd3e9c64feb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:35 +0000
Subject: [PATCH 11/25] fix: never renumber a component type to 0

Type 0 means disabled: RandomizeTypes could draw it as the new random id of
a type, whose components then counted as disabled.
---
 topology/topology.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/topology/topology.go b/topology/topology.go
index 6d7ce7e..a3a7dd4 100644
--- a/topology/topology.go
+++ b/topology/topology.go
@@ -276,8 +276,8 @@ func (topology *Topology) RandomizeTypes(sequence bool) {
 	r1 := rand.New(s1)
 	seq := uint32(1)
 	for typeNum, typeStruct := range topology.TypeIndex {
-		// Find new random index not used:
-		typeMapping[typeNum] = uint32(r1.Intn(1000000))
+		// Find new random index not used (never 0, which means disabled):
+		typeMapping[typeNum] = uint32(1 + r1.Intn(999999))
 		if sequence {
 			typeMapping[typeNum] = seq
 		}
@@ -289,7 +289,7 @@ func (topology *Topology) RandomizeTypes(sequence bool) {
 					//fmt.Println("Had to find new type instead of ", typeMapping[typeNum])
 				} else {
 					fmt.Println("Had to find new type instead of ", typeMapping[typeNum])
-					typeMapping[typeNum] = uint32(r1.Intn(1000000))
+					typeMapping[typeNum] = uint32(1 + r1.Intn(999999))
 				}
 			} else {
 				break
-- 
2.43.0


From 749b06a1f6c4f138123288c85d06dc4ace823c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:05 +0000
Subject: [PATCH 12/25] fix: clip drawing at the left and top as well

A pixel left of the canvas was written to the row above, and pixels left of
or above the bounding box were drawn. Comparing before the offset is added
also keeps huge coordinates and boxes from overflowing.
---
 ibeam_lib_monogfx/monogfx.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ibeam_lib_monogfx/monogfx.go b/ibeam_lib_monogfx/monogfx.go
index d734fdd..04b2c2b 100644
--- a/ibeam_lib_monogfx/monogfx.go
+++ b/ibeam_lib_monogfx/monogfx.go
@@ -234,13 +234,14 @@ func (img *MonoImg) SetOLEDPixelColor(color int) {
 
 // Draws pixel in a given position
 func (img *MonoImg) DrawPixel(x int, y int, color bool) {
+	if x < 0 || y < 0 || x >= img.bbox_width || y >= img.bbox_height { // Clip to bounding box
+		return
+	}
 	x += img.bbox_x
 	y += img.bbox_y
-	widthMax := su.Qint(img.bbox_width+img.bbox_x > img.Width, img.Width, img.bbox_width+img.bbox_x)
-	heightMax := su.Qint(img.bbox_height+img.bbox_y > img.Height, img.Height, img.bbox_height+img.bbox_y)
-	if x < widthMax && y < heightMax {
+	if x >= 0 && y >= 0 && x < img.Width && y < img.Height { // Clip to canvas
 		index := y*img.widthInBytes + x/8
-		if index >= 0 && index < len(img.imgBytes) { // Check we are not writing out of bounds
+		if index < len(img.imgBytes) { // Check we are not writing out of bounds
 			if color != img.invertPixels { // XOR of the two...
 				img.imgBytes[index] |= byte(0b1 << (7 - x%8))
 			} else {
-- 
2.43.0


From 785d9d2d0b041de959e0b0582f4ba141961ffb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:59 +0000
Subject: [PATCH 13/25] fix: filled rectangles at huge coordinates loop forever

x+w overflowed, so that FillRoundRect at an x close to the largest integer
never returned.
---
 ibeam_lib_monogfx/monogfx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ibeam_lib_monogfx/monogfx.go b/ibeam_lib_monogfx/monogfx.go
index 04b2c2b..db726fd 100644
--- a/ibeam_lib_monogfx/monogfx.go
+++ b/ibeam_lib_monogfx/monogfx.go
@@ -253,8 +253,8 @@ func (img *MonoImg) DrawPixel(x int, y int, color bool) {
 
 // Draws a filled rectangle
 func (img *MonoImg) FillRect(x int, y int, w int, h int, color bool) {
-	for i := x; i < x+w; i++ {
-		img.DrawFastVLine(i, y, h, color)
+	for i := 0; i < w; i++ {
+		img.DrawFastVLine(x+i, y, h, color)
 	}
 }
 
-- 
2.43.0


From 0ca9cef399d06e675cbd9ab82140acc02f479ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:14 +0000
Subject: [PATCH 14/25] fix: keep the available data of a mono image that is
 too short

CreateFromBytes left the image blank when the data did not cover it, so that
ConvertGfxStateToPngBytes lost the pixels RwpImgToImage shows.
---
 ibeam_lib_monogfx/monogfx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ibeam_lib_monogfx/monogfx.go b/ibeam_lib_monogfx/monogfx.go
index db726fd..ec62978 100644
--- a/ibeam_lib_monogfx/monogfx.go
+++ b/ibeam_lib_monogfx/monogfx.go
@@ -90,6 +90,7 @@ func (img *MonoImg) CreateFromImage(src image.Image) {
 func (img *MonoImg) CreateFromBytes(width int, height int, bytes []byte) error {
 	img.NewImage(width, height)
 	if img.widthInBytes*height > len(bytes) {
+		copy(img.imgBytes, bytes) // Keep what is there
 		return fmt.Errorf("addressable dimensions larger than provided byte slice")
 	}
 	img.imgBytes = bytes
-- 
2.43.0


From 2053af3ece56f4039ece284686d7b8fe82dc65b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:38 +0000
Subject: [PATCH 15/25] fix: colour indexes beyond the table render as the
 default colour

---
 rawpanelhelpers.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index 586edb3..f26bd16 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -218,7 +218,10 @@ func convertToColorRGB16bit(colorObj rwp.Color) int {
 			uint32((su.MapAndConstrainValue(int(colorObj.ColorRGB.Blue), 0, 0xFF, 0, 0x3)&0x3)<<0))
 	} else if colorObj.ColorIndex != nil {
 		outputInteger := uint32(colorObj.ColorIndex.Index & 0x1F)
-		output = su.Qint(len(buttonColors) > int(outputInteger), int(buttonColors[outputInteger]), int(buttonColors[0]))
+		output = int(buttonColors[0])
+		if int(outputInteger) < len(buttonColors) {
+			output = int(buttonColors[outputInteger])
+		}
 	}
 	return output
 }
-- 
2.43.0


From 347ce5a11b5c13b1271181fe9a271dea6bd4cc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:39 +0000
Subject: [PATCH 16/25] fix: compute the range of a scale without 32-bit
 overflow

---
 rawpanelhelpers.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index f26bd16..ea3977a 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -560,7 +560,7 @@ func WriteDisplayTileNew(textStruct *rwp.HWCText, width int, height int, shrink
 
 				// Render scale line in bottom of tile
 				if a == 0 {
-					rangeDiff := int(textStruct.Scale.RangeHigh - textStruct.Scale.RangeLow)
+					rangeDiff := int(textStruct.Scale.RangeHigh) - int(textStruct.Scale.RangeLow)
 					if textStruct.Scale != nil && textStruct.Scale.ScaleType > 0 && rangeDiff != 0 {
 						disp.DrawRoundRect(0, activeHeight-1, int(width), 1, 0, WHITE) // Base rectangle
 
@@ -580,11 +580,11 @@ func WriteDisplayTileNew(textStruct *rwp.HWCText, width int, height int, shrink
 						}
 
 						if textStruct.Scale.RangeHigh > textStruct.Scale.LimitHigh {
-							wBar = su.ConstrainValue(int(float64(textStruct.Scale.LimitHigh-textStruct.Scale.RangeLow)/float64(rangeDiff)*float64(activeWidth)), 0, activeWidth)
+							wBar = su.ConstrainValue(int(float64(int(textStruct.Scale.LimitHigh)-int(textStruct.Scale.RangeLow))/float64(rangeDiff)*float64(activeWidth)), 0, activeWidth)
 							disp.FillRoundRect(su.ConstrainValue(wBar, 0, activeWidth-1), activeHeight-4, 1, 3, 0, WHITE) // In-fill
 						}
 						if textStruct.Scale.RangeLow < textStruct.Scale.LimitLow {
-							wBar = su.ConstrainValue(int(float64(textStruct.Scale.LimitLow-textStruct.Scale.RangeLow)/float64(rangeDiff)*float64(activeWidth)), 0, activeWidth)
+							wBar = su.ConstrainValue(int(float64(int(textStruct.Scale.LimitLow)-int(textStruct.Scale.RangeLow))/float64(rangeDiff)*float64(activeWidth)), 0, activeWidth)
 							disp.FillRoundRect(su.ConstrainValue(wBar, 0, activeWidth-1), activeHeight-4, 1, 3, 0, WHITE) // In-fill
 						}
 					}
-- 
2.43.0


From 0c25976fd62bc691509bbb287978be249c319569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:39 +0000
Subject: [PATCH 17/25] fix: the width of a string ends with its last character

---
 ibeam_lib_monogfx/monogfx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ibeam_lib_monogfx/monogfx.go b/ibeam_lib_monogfx/monogfx.go
index ec62978..fb5a354 100644
--- a/ibeam_lib_monogfx/monogfx.go
+++ b/ibeam_lib_monogfx/monogfx.go
@@ -573,6 +573,10 @@ func (img *MonoImg) StrWidth(str string) int {
 		width += int(img.GetCharWidth(byte(char)))*img.textsizeH + int(img.charSpacingCompensation)
 	}
 
+	if width > 0 {
+		width -= int(img.charSpacingCompensation) // No spacing after the last character
+	}
+
 	return width - img.textsizeH // " - textsizeH" is because we assume the last pixel column is probably blank and we prefer to write text all the way to the edge
 }
 func (img *MonoImg) LineHeight() uint32 {
-- 
2.43.0


From 0d42e7a32bfcc82e38702db71c1623e150b254ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:12 +0000
Subject: [PATCH 18/25] fix: the width of a string that ends with an unknown
 character

---
 ibeam_lib_monogfx/monogfx.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ibeam_lib_monogfx/monogfx.go b/ibeam_lib_monogfx/monogfx.go
index fb5a354..3898633 100644
--- a/ibeam_lib_monogfx/monogfx.go
+++ b/ibeam_lib_monogfx/monogfx.go
@@ -569,15 +569,17 @@ func (img *MonoImg) SetCharSpacingCompensation(c byte) {
 
 func (img *MonoImg) StrWidth(str string) int {
 	width := 0
+	lastColumn := img.textsizeH // " - textsizeH" is because we assume the last pixel column is probably blank and we prefer to write text all the way to the edge
 	for _, char := range str {
-		width += int(img.GetCharWidth(byte(char)))*img.textsizeH + int(img.charSpacingCompensation)
+		c := byte(char)
+		width += int(img.GetCharWidth(c))*img.textsizeH + int(img.charSpacingCompensation)
+		lastColumn = su.Qint(c < img.fontASCIIstart || c > img.fontASCIIend, 0, img.textsizeH) // The rectangle of unknown characters has no blank column
 	}
-
 	if width > 0 {
 		width -= int(img.charSpacingCompensation) // No spacing after the last character
 	}
 
-	return width - img.textsizeH // " - textsizeH" is because we assume the last pixel column is probably blank and we prefer to write text all the way to the edge
+	return width - lastColumn
 }
 func (img *MonoImg) LineHeight() uint32 {
 	return uint32(img.textsizeV)*uint32(img.fontBBHeight) + uint32(img.lineSpacingCompensation)
-- 
2.43.0


From 474c6d1e2001f3fa6d1ef02181aa00829cf15b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 19/25] fix: handlers that send feedback no longer stall the
 dispatch

---
 gorwp/rawpanel.go | 92 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 67 insertions(+), 25 deletions(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index 079674a..78ff5df 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -149,51 +149,89 @@ func (rp *RawPanel) init(ctx context.Context) error {
 
 func (rp *RawPanel) listen(ctx context.Context) {
 
-	// Listening for messages to/from panel
+	// Closing the connection when we are done, this also ends reading and writing:
+	go func() {
+		<-ctx.Done()
+		rp.connection.Close()
+	}()
+
+	// Sending messages to the panel. This is independent of processing the messages from the panel, because the handlers called there send messages to the panel themselves:
 	go func() {
 		ticker := time.NewTicker(1000 * time.Millisecond)
+		defer ticker.Stop()
 		for {
 			select {
 			case <-ctx.Done():
 				//fmt.Println("Stops listening for toPanel messages")
 				return
 			case messagesToPanel := <-rp.toPanel: // Messages from us to the panel.
-				if rp.binaryPanel {
-					for _, msg := range messagesToPanel {
-						pbdata, _ := proto.Marshal(msg) // Encode data
-						log.Debugln("System -> Panel: ", pbdata)
-
-						header := make([]byte, 4)                                  // Create a 4-bytes header
-						binary.LittleEndian.PutUint32(header, uint32(len(pbdata))) // Fill it in
-						pbdata = append(header, pbdata...)                         // and concatenate it with the binary message
-						rp.connection.Write(pbdata)
-					}
-				} else {
-					lines := helpers.InboundMessagesToRawPanelASCIIstrings(messagesToPanel)
-					for _, line := range lines {
-						log.Debugln(string("System -> Panel: " + strings.TrimSpace(string(line))))
-						rp.connection.Write([]byte(line + "\n"))
-					}
-				}
+				rp.writeToPanel(messagesToPanel)
 			case <-ticker.C: // Sending a ping periodically to the panel to make sure TCP will close connection if it doesn't get through. Strictly, the panel should answer back with ACK, but we don't check for that (seems this is enough)
-				rp.toPanel <- []*rwp.InboundMessage{{
+				rp.writeToPanel([]*rwp.InboundMessage{{
 					FlowMessage: rwp.InboundMessage_PING,
-				}}
-			case messagesFromPanel := <-rp.fromPanel:
+				}})
+			}
+		}
+	}()
+
+	// Processing messages from the panel:
+	processed := make(chan struct{})
+	go func() {
+		defer close(processed)
+		for {
+			select {
+			case <-ctx.Done():
+				return
+			case messagesFromPanel, ok := <-rp.fromPanel:
+				if !ok {
+					return
+				}
 				rp.procesMessagesFromPanel(messagesFromPanel)
 			}
 		}
 	}()
 
 	// Read from panel. This will send into the rp.fromPanel channel. It returns when there is an error:
-	err := rp.readFromPanel()
+	err := rp.readFromPanel(ctx)
 	log.Should(err)
 
 	rp.connection.Close()
+	close(rp.fromPanel)
+	<-processed // What was received before the error is processed still
 	(*rp.cancel)()
 }
 
-func (rp *RawPanel) readFromPanel() error {
+func (rp *RawPanel) writeToPanel(messagesToPanel []*rwp.InboundMessage) {
+	if rp.binaryPanel {
+		for _, msg := range messagesToPanel {
+			pbdata, _ := proto.Marshal(msg) // Encode data
+			log.Debugln("System -> Panel: ", pbdata)
+
+			header := make([]byte, 4)                                  // Create a 4-bytes header
+			binary.LittleEndian.PutUint32(header, uint32(len(pbdata))) // Fill it in
+			pbdata = append(header, pbdata...)                         // and concatenate it with the binary message
+			rp.connection.Write(pbdata)
+		}
+	} else {
+		lines := helpers.InboundMessagesToRawPanelASCIIstrings(messagesToPanel)
+		for _, line := range lines {
+			log.Debugln(string("System -> Panel: " + strings.TrimSpace(string(line))))
+			rp.connection.Write([]byte(line + "\n"))
+		}
+	}
+}
+
+// Forwards messages for processing, false if that ended
+func (rp *RawPanel) forwardFromPanel(ctx context.Context, messagesFromPanel []*rwp.OutboundMessage) bool {
+	select {
+	case rp.fromPanel <- messagesFromPanel:
+		return true
+	case <-ctx.Done():
+		return false
+	}
+}
+
+func (rp *RawPanel) readFromPanel(ctx context.Context) error {
 	// Reading from panel:
 	if rp.binaryPanel {
 		for {
@@ -220,7 +258,9 @@ func (rp *RawPanel) readFromPanel() error {
 						outgoingMessage := &rwp.OutboundMessage{}
 						proto.Unmarshal(payload, outgoingMessage)
 						if outgoingMessage.FlowMessage != 2 { // ack
-							rp.fromPanel <- []*rwp.OutboundMessage{outgoingMessage}
+							if !rp.forwardFromPanel(ctx, []*rwp.OutboundMessage{outgoingMessage}) {
+								return ctx.Err()
+							}
 						}
 					}
 				} else {
@@ -249,7 +289,9 @@ func (rp *RawPanel) readFromPanel() error {
 				switch netDataStr {
 				case "ack":
 				default:
-					rp.fromPanel <- helpers.RawPanelASCIIstringsToOutboundMessages([]string{netDataStr})
+					if !rp.forwardFromPanel(ctx, helpers.RawPanelASCIIstringsToOutboundMessages([]string{netDataStr})) {
+						return ctx.Err()
+					}
 				}
 			}
 		}
-- 
2.43.0


From b6415d017c11324b7b37787683cbb525dd1c7131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 20/25] fix: end the connection on a broken or over-limit frame

---
 gorwp/rawpanel.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index 78ff5df..a2a6b60 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -253,10 +253,14 @@ func (rp *RawPanel) readFromPanel(ctx context.Context) error {
 					_, err := io.ReadFull(rp.connection, payload)
 					if err != nil {
 						log.Errorln(err)
-						break
+						return err
 					} else {
 						outgoingMessage := &rwp.OutboundMessage{}
-						proto.Unmarshal(payload, outgoingMessage)
+						err := proto.Unmarshal(payload, outgoingMessage)
+						if err != nil {
+							log.Errorln(err)
+							return err
+						}
 						if outgoingMessage.FlowMessage != 2 { // ack
 							if !rp.forwardFromPanel(ctx, []*rwp.OutboundMessage{outgoingMessage}) {
 								return ctx.Err()
@@ -265,6 +269,7 @@ func (rp *RawPanel) readFromPanel(ctx context.Context) error {
 					}
 				} else {
 					log.Println("Error: Payload", currentPayloadLength, "exceed limit")
+					return fmt.Errorf("payload of %d bytes exceeds limit", currentPayloadLength)
 				}
 			}
 		}
@@ -296,8 +301,6 @@ func (rp *RawPanel) readFromPanel(ctx context.Context) error {
 			}
 		}
 	}
-
-	return nil
 }
 
 func (rp *RawPanel) procesMessagesFromPanel(messagesFromPanel []*rwp.OutboundMessage) {
-- 
2.43.0


From 597b6942909cfe22bb027517b87a2e3718a6f38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 21/25] fix: dispatch events that come together with an ACK

---
 gorwp/rawpanel.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index a2a6b60..8d04962 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -261,10 +261,8 @@ func (rp *RawPanel) readFromPanel(ctx context.Context) error {
 							log.Errorln(err)
 							return err
 						}
-						if outgoingMessage.FlowMessage != 2 { // ack
-							if !rp.forwardFromPanel(ctx, []*rwp.OutboundMessage{outgoingMessage}) {
-								return ctx.Err()
-							}
+						if !rp.forwardFromPanel(ctx, []*rwp.OutboundMessage{outgoingMessage}) {
+							return ctx.Err()
 						}
 					}
 				} else {
-- 
2.43.0


From 2a43c6c7f97b918aa87b4efda46fccd7eb5229fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 22/25] fix: connecting fails when the connection ends before
 initialization

---
 gorwp/rawpanel.go | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index 8d04962..b13452b 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -124,27 +124,23 @@ func (rp *RawPanel) init(ctx context.Context) error {
 		},
 	}}
 
-	// Check for initialization, if we get it, return in channel:
-	initialized := make(chan bool, 1)
-	go func() {
-		for {
+	// Wait until we are initialized - or return an error after two seconds where it did not happen, or if the connection ends:
+	timeout := time.After(2 * time.Second)
+	poll := time.NewTicker(10 * time.Millisecond)
+	defer poll.Stop()
+	for !rp.IsInitialized() {
+		select {
+		case <-ctx.Done():
 			if rp.IsInitialized() {
-				initialized <- true
-				return
+				return nil
 			}
-			time.Sleep(time.Millisecond * 10)
+			return fmt.Errorf("connection closed before the panel responded to initialization")
+		case <-timeout:
+			return fmt.Errorf("panel did not respond to initialization timely")
+		case <-poll.C:
 		}
-	}()
-
-	// Wait for either signal that init was OK - or return after two seconds where it did not happen
-	select {
-	case <-ctx.Done():
-		return nil
-	case <-initialized:
-		return nil
-	case <-time.After(2 * time.Second):
-		return fmt.Errorf("panel did not respond to initialization timely")
 	}
+	return nil
 }
 
 func (rp *RawPanel) listen(ctx context.Context) {
-- 
2.43.0


From 034f2a8cc479b71e545d3ad6b005f95376b74214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:02 +0000
Subject: [PATCH 23/25] fix: register handlers safely while events are
 dispatched

---
 gorwp/inputs.go   | 25 ++++++++++++++++++++-----
 gorwp/rawpanel.go | 12 +++++++-----
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/gorwp/inputs.go b/gorwp/inputs.go
index 4de80cd..de2b4a3 100644
--- a/gorwp/inputs.go
+++ b/gorwp/inputs.go
@@ -34,6 +34,21 @@ const (
 	Encoder            = 16
 )
 
+// Registers a handler, also while events are being dispatched
+func setBinding[F any](rp *RawPanel, bindings map[uint32]F, hwc uint32, f F) {
+	rp.bindingsMutex.Lock()
+	defer rp.bindingsMutex.Unlock()
+	bindings[hwc] = f
+}
+
+// Returns the handler registered for a hardware component
+func getBinding[F any](rp *RawPanel, bindings map[uint32]F, hwc uint32) (F, bool) {
+	rp.bindingsMutex.RLock()
+	defer rp.bindingsMutex.RUnlock()
+	f, exists := bindings[hwc]
+	return f, exists
+}
+
 // Type BinaryFunc is a function signature used for callbacks on
 // Binary events. When a specified event happens, the BinaryFunc is
 // called with parameters specifying which button was pushed and what
@@ -44,7 +59,7 @@ type BinaryFunc func(uint32, BinaryStatus, BinaryEdge)
 // binary trigger.  When the binary trigger is pushed down, then the provided
 // BinaryFunc is called.
 func (rp *RawPanel) BindBinary(hwc uint32, f BinaryFunc) {
-	rp.binaryBindings[hwc] = f
+	setBinding(rp, rp.binaryBindings, hwc, f)
 }
 
 // Type PulsedFunc is a function signature used for callbacks on encoder
@@ -56,7 +71,7 @@ type PulsedFunc func(uint32, int)
 // encoder. When the encoder is turned then the provided
 // PulsedFunc is called.
 func (rp *RawPanel) BindPulsed(hwc uint32, f PulsedFunc) {
-	rp.pulsedBindings[hwc] = f
+	setBinding(rp, rp.pulsedBindings, hwc, f)
 }
 
 // Type AbsoluteFunc is a function signature used for callbacks on fader
@@ -67,7 +82,7 @@ type AbsoluteFunc func(uint32, int)
 // fader.  When the fader is moved then the provided
 // AbsoluteFunc is called.
 func (rp *RawPanel) BindAbsolute(hwc uint32, f AbsoluteFunc) {
-	rp.absoluteBindings[hwc] = f
+	setBinding(rp, rp.absoluteBindings, hwc, f)
 }
 
 // Type IntensityFunc is a function signature used for callbacks on joystick
@@ -79,7 +94,7 @@ type IntensityFunc func(uint32, int)
 // joystick. When the joystick axis is manipulated then the provided
 // IntensityFunc is called.
 func (rp *RawPanel) BindIntensity(hwc uint32, f IntensityFunc) {
-	rp.intensityBindings[hwc] = f
+	setBinding(rp, rp.intensityBindings, hwc, f)
 }
 
 // Type TriggerFunc is a function signature used for callbacks on generic
@@ -90,5 +105,5 @@ type TriggerFunc func(uint32, *rwp.HWCEvent)
 // Function BindTrigger sets a general callback for actions on a specific
 // hardware component.
 func (rp *RawPanel) BindTrigger(hwc uint32, f TriggerFunc) {
-	rp.triggerBindings[hwc] = f
+	setBinding(rp, rp.triggerBindings, hwc, f)
 }
diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index b13452b..da8b114 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -23,6 +23,7 @@ import (
 	"io"
 	"net"
 	"strings"
+	"sync"
 	"time"
 
 	"google.golang.org/protobuf/proto"
@@ -47,6 +48,7 @@ type RawPanel struct {
 	fromPanel chan []*rwp.OutboundMessage
 
 	// Trigger Bindings
+	bindingsMutex     sync.RWMutex
 	binaryBindings    map[uint32]BinaryFunc
 	pulsedBindings    map[uint32]PulsedFunc
 	absoluteBindings  map[uint32]AbsoluteFunc
@@ -358,19 +360,19 @@ func (rp *RawPanel) procesMessagesFromPanel(messagesFromPanel []*rwp.OutboundMes
 		// Events:
 		if len(msg.Events) > 0 {
 			for _, event := range msg.Events {
-				if receiverFunc, exists := rp.triggerBindings[event.HWCID]; exists {
+				if receiverFunc, exists := getBinding(rp, rp.triggerBindings, event.HWCID); exists {
 					receiverFunc(event.HWCID, event)
 				}
-				if receiverFunc, exists := rp.binaryBindings[event.HWCID]; exists && event.Binary != nil {
+				if receiverFunc, exists := getBinding(rp, rp.binaryBindings, event.HWCID); exists && event.Binary != nil {
 					receiverFunc(event.HWCID, BinaryStatus(su.Qint(event.Binary.Pressed, 1, 0)), BinaryEdge(event.Binary.Edge))
 				}
-				if receiverFunc, exists := rp.pulsedBindings[event.HWCID]; exists && event.Pulsed != nil {
+				if receiverFunc, exists := getBinding(rp, rp.pulsedBindings, event.HWCID); exists && event.Pulsed != nil {
 					receiverFunc(event.HWCID, int(event.Pulsed.Value))
 				}
-				if receiverFunc, exists := rp.absoluteBindings[event.HWCID]; exists && event.Absolute != nil {
+				if receiverFunc, exists := getBinding(rp, rp.absoluteBindings, event.HWCID); exists && event.Absolute != nil {
 					receiverFunc(event.HWCID, int(event.Absolute.Value))
 				}
-				if receiverFunc, exists := rp.intensityBindings[event.HWCID]; exists && event.Speed != nil {
+				if receiverFunc, exists := getBinding(rp, rp.intensityBindings, event.HWCID); exists && event.Speed != nil {
 					receiverFunc(event.HWCID, int(event.Speed.Value))
 				}
 			}
-- 
2.43.0


From 9096c3d5c4aaa1739512df95b8a98b955fc6bb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:49 +0000
Subject: [PATCH 24/25] fix: read the whole error message that answers the
 probe

An error message whose bytes came in two segments was handed to the connect
callback cut short, or not at all.
---
 rawpanelhelpers.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index ea3977a..8584a54 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -681,7 +681,7 @@ func (ar *ASCIIreader) Parse(inputString string) []*rwp.InboundMessage {
 
 // Reads the reply to the binary ping of the auto detection. It may arrive in several segments,
 // so this reads on (until the read deadline) for as long as it has got only the first part of a frame
-// or of the words that ASCII panels issue.
+// or of the words or error message that ASCII panels issue.
 func readProbeReply(c net.Conn) ([]byte, error) {
 	byteArray := make([]byte, 1000)
 	byteCount := 0
@@ -701,9 +701,12 @@ func readProbeReply(c net.Conn) ([]byte, error) {
 		frameLength := 4 + uint64(binary.LittleEndian.Uint32(header))
 		partOfFrame := byteCount < 4 || uint64(byteCount) < frameLength
 		partOfWord := false
-		for _, word := range []string{"RDY\n", "RDY\r\n", "map="} {
+		for _, word := range []string{"RDY\n", "RDY\r\n", "map=", "ErrorMsg="} {
 			partOfWord = partOfWord || (byteCount < len(word) && strings.HasPrefix(word, string(reply)))
 		}
+		if strings.HasPrefix(string(reply), "ErrorMsg=") && !strings.Contains(string(reply), "\n") {
+			partOfWord = true // The rest of the error message is yet to come
+		}
 		if !partOfWord && !(partOfFrame && frameLength <= uint64(len(byteArray))) {
 			return reply, nil
 		}
-- 
2.43.0


From a6f91bf9b9fd02c1d8f5f226c6c1d32568629e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:43 +0000
Subject: [PATCH 25/25] fix: accept acknowledge frames of any length as answer
 to the probe

One of more than 1000 bytes was taken for an ASCII reply by the client, and left
half read on the connection by the detector.
---
 rawpanelhelpers.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index 8584a54..8a52880 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -692,7 +692,7 @@ func readProbeReply(c net.Conn) ([]byte, error) {
 			return nil, err
 		}
 		reply := byteArray[:byteCount]
-		if err != nil || byteCount == len(byteArray) {
+		if err != nil {
 			return reply, nil
 		}
 
@@ -707,9 +707,15 @@ func readProbeReply(c net.Conn) ([]byte, error) {
 		if strings.HasPrefix(string(reply), "ErrorMsg=") && !strings.Contains(string(reply), "\n") {
 			partOfWord = true // The rest of the error message is yet to come
 		}
-		if !partOfWord && !(partOfFrame && frameLength <= uint64(len(byteArray))) {
+		if !partOfWord && !(partOfFrame && frameLength < 4+500000) { // The limit is that of all other frames
 			return reply, nil
 		}
+		if byteCount == len(byteArray) {
+			if byteCount >= 4+500000 {
+				return reply, nil
+			}
+			byteArray = append(byteArray, make([]byte, byteCount)...)
+		}
 	}
 }
 
-- 
2.43.0

