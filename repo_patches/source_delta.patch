From 007e338b28b2335d5fe649f91a1b04c3e5cea8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 01/44] fix: guard the outstanding requests of a connection and
 deliver only the first response

Concurrent Sends accessed the maps without a lock (fatal concurrent map
access), and a late or duplicate response blocked the reading of the
connection forever on an unbuffered channel.
---
 ws/conn.go | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/ws/conn.go b/ws/conn.go
index b85bc00..b365959 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -30,6 +30,7 @@ type Conn struct {
 	cancelCtx context.CancelFunc
 	*websocket.Conn
 	sendMux      sync.Mutex
+	sentMux      sync.Mutex // guards sentMessages and responsesOf
 	sentMessages map[MessageID]*CallMessage
 	requests     chan struct {
 		messages.Request
@@ -187,8 +188,11 @@ func (c *Conn) ReadMessage() error {
 
 	log.Debug("Received a message, parsed: %v", msg)
 
+	var call *CallMessage
+	var responseCh chan CallResponse
 	if msg.Type() == CallResult || msg.Type() == CallError {
-		_, ok := c.sentMessages[msg.ID()]
+		var ok bool
+		call, responseCh, ok = c.takeSentMessage(msg.ID())
 		if !ok {
 			return errors.New("received call error/result without sending any call message")
 		}
@@ -209,13 +213,13 @@ func (c *Conn) ReadMessage() error {
 		}{req, msg.ID()}
 	case *CallResultMessage:
 		var resp messages.Response
-		resp, wserr = c.callResultToResponse(m)
-		c.responsesOf[m.ID()] <- CallResponse{
+		resp, wserr = c.callResultToResponse(m, call)
+		responseCh <- CallResponse{
 			response: resp,
 			err:      wserr,
 		}
 	case *CallErrorMessage:
-		c.responsesOf[m.ID()] <- CallResponse{
+		responseCh <- CallResponse{
 			response: nil,
 			err:      m,
 		}
@@ -239,12 +243,19 @@ func (c *Conn) callToRequest(call *CallMessage) (messages.Request, ErrorCode) {
 	return req, Nil
 }
 
-func (c *Conn) callResultToResponse(result *CallResultMessage) (messages.Response, ErrorCode) {
-	id := result.ID()
+// takeSentMessage removes and returns the outstanding message with the given ID,
+// so that only the first response to a message is delivered
+func (c *Conn) takeSentMessage(id MessageID) (*CallMessage, chan CallResponse, bool) {
+	c.sentMux.Lock()
+	defer c.sentMux.Unlock()
 	call, ok := c.sentMessages[id]
-	if !ok {
-		return nil, GenericError
-	}
+	responseCh := c.responsesOf[id]
+	delete(c.sentMessages, id)
+	delete(c.responsesOf, id)
+	return call, responseCh, ok
+}
+
+func (c *Conn) callResultToResponse(result *CallResultMessage, call *CallMessage) (messages.Response, ErrorCode) {
 	if call == nil {
 		return nil, NotSupported
 	}
@@ -292,16 +303,19 @@ func (c *Conn) SendRequest(request messages.Request) (messages.Response, error)
 	if err != nil {
 		return nil, err
 	}
+	// buffered, because the response may arrive when nobody waits for it anymore
+	responseCh := make(chan CallResponse, 1)
+	c.sentMux.Lock()
 	c.sentMessages[id] = msg
-	c.responsesOf[id] = make(chan CallResponse)
+	c.responsesOf[id] = responseCh
+	c.sentMux.Unlock()
+	defer c.takeSentMessage(id)
 	err = c.sendMessage(msg)
 	if err != nil {
 		return nil, err
 	}
 	select {
-	case callResponse := <-c.responsesOf[id]:
-		delete(c.sentMessages, id)
-		delete(c.responsesOf, id)
+	case callResponse := <-responseCh:
 		if callResponse.err != Nil {
 			return nil, callResponse.err
 		}
-- 
2.43.0


From 1c651efd5db63ce395dde81a6932f5f6ab62033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 02/44] fix: reject short messages and unknown message types
 instead of panicking

Any peer could crash the process by sending [] or [9,"id",{}].
---
 ws/conn.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ws/conn.go b/ws/conn.go
index b365959..8614abe 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -120,6 +120,9 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 	if err != nil {
 		return nil, fmt.Errorf("on unmarshalling websocket message: %w", err)
 	}
+	if len(frame) < 3 {
+		return nil, fmt.Errorf("message has only %d fields", len(frame))
+	}
 	msgType, ok := frame[0].(float64)
 	if !ok {
 		return nil, fmt.Errorf("first field is not a message type: %w", err)
@@ -131,6 +134,9 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 	id := MessageID(idStr)
 	switch MessageType(msgType) {
 	case Call:
+		if len(frame) < 4 {
+			return nil, fmt.Errorf("call has only %d fields", len(frame))
+		}
 		actionStr, ok := frame[2].(string)
 		if !ok {
 			return nil, fmt.Errorf("third field is not action: %w", err)
@@ -148,6 +154,9 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 		}
 		return &CallResultMessage{id, payload}, nil
 	case CallError:
+		if len(frame) < 5 {
+			return nil, fmt.Errorf("call error has only %d fields", len(frame))
+		}
 		codeStr, ok := frame[2].(string)
 		if !ok {
 			return nil, fmt.Errorf("third field is not error code: %w", err)
@@ -162,7 +171,7 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 		}
 		return &CallErrorMessage{id, ErrorCode(codeStr), description, details}, nil
 	}
-	return nil, nil
+	return nil, fmt.Errorf("unknown message type: %v", msgType)
 }
 
 func (c *Conn) ReadMessageAsync() <-chan error {
-- 
2.43.0


From aae5c5e1dba8330fe6688d4d266b0bf2afe1d28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 03/44] fix: decode a response by the request that was sent,
 not by its action name

The action DataTransfer exists in both directions and has no entry in
FromActionName, so the response to a DataTransfer crashed the process.
---
 ws/conn.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/ws/conn.go b/ws/conn.go
index 8614abe..3fab2da 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -31,7 +31,7 @@ type Conn struct {
 	*websocket.Conn
 	sendMux      sync.Mutex
 	sentMux      sync.Mutex // guards sentMessages and responsesOf
-	sentMessages map[MessageID]*CallMessage
+	sentMessages map[MessageID]messages.Request
 	requests     chan struct {
 		messages.Request
 		MessageID
@@ -43,7 +43,7 @@ func newConn(socket *websocket.Conn) *Conn {
 	ctx, cancel := context.WithCancel(context.Background())
 	return &Conn{
 		Conn:         socket,
-		sentMessages: make(map[MessageID]*CallMessage, 0),
+		sentMessages: make(map[MessageID]messages.Request, 0),
 		requests: make(chan struct {
 			messages.Request
 			MessageID
@@ -197,11 +197,11 @@ func (c *Conn) ReadMessage() error {
 
 	log.Debug("Received a message, parsed: %v", msg)
 
-	var call *CallMessage
+	var request messages.Request
 	var responseCh chan CallResponse
 	if msg.Type() == CallResult || msg.Type() == CallError {
 		var ok bool
-		call, responseCh, ok = c.takeSentMessage(msg.ID())
+		request, responseCh, ok = c.takeSentMessage(msg.ID())
 		if !ok {
 			return errors.New("received call error/result without sending any call message")
 		}
@@ -222,7 +222,7 @@ func (c *Conn) ReadMessage() error {
 		}{req, msg.ID()}
 	case *CallResultMessage:
 		var resp messages.Response
-		resp, wserr = c.callResultToResponse(m, call)
+		resp, wserr = c.callResultToResponse(m, request)
 		responseCh <- CallResponse{
 			response: resp,
 			err:      wserr,
@@ -252,23 +252,23 @@ func (c *Conn) callToRequest(call *CallMessage) (messages.Request, ErrorCode) {
 	return req, Nil
 }
 
-// takeSentMessage removes and returns the outstanding message with the given ID,
+// takeSentMessage removes and returns the outstanding request with the given ID,
 // so that only the first response to a message is delivered
-func (c *Conn) takeSentMessage(id MessageID) (*CallMessage, chan CallResponse, bool) {
+func (c *Conn) takeSentMessage(id MessageID) (messages.Request, chan CallResponse, bool) {
 	c.sentMux.Lock()
 	defer c.sentMux.Unlock()
-	call, ok := c.sentMessages[id]
+	request, ok := c.sentMessages[id]
 	responseCh := c.responsesOf[id]
 	delete(c.sentMessages, id)
 	delete(c.responsesOf, id)
-	return call, responseCh, ok
+	return request, responseCh, ok
 }
 
-func (c *Conn) callResultToResponse(result *CallResultMessage, call *CallMessage) (messages.Response, ErrorCode) {
-	if call == nil {
+func (c *Conn) callResultToResponse(result *CallResultMessage, request messages.Request) (messages.Response, ErrorCode) {
+	if request == nil {
 		return nil, NotSupported
 	}
-	resp := req.FromActionName(string(call.Action)).GetResponse()
+	resp := request.GetResponse()
 	originalPayload, err := json.Marshal(result.Payload)
 	if err != nil {
 		return nil, GenericError
@@ -315,7 +315,7 @@ func (c *Conn) SendRequest(request messages.Request) (messages.Response, error)
 	// buffered, because the response may arrive when nobody waits for it anymore
 	responseCh := make(chan CallResponse, 1)
 	c.sentMux.Lock()
-	c.sentMessages[id] = msg
+	c.sentMessages[id] = request
 	c.responsesOf[id] = responseCh
 	c.sentMux.Unlock()
 	defer c.takeSentMessage(id)
-- 
2.43.0


From 3f7254bdb3c710095f945f9e936204c0364104bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 04/44] fix: read each connection in one goroutine of its own

ReadMessageAsync left a goroutine behind for every handled request, and
responses were not read while a request was being handled: a slow handler
made concurrent Sends time out, and a handler could not Send at all.
---
 cp/json.go |  3 +--
 cs/cs.go   |  9 ++-------
 ws/conn.go | 29 +++++++++++++++++++++++++----
 3 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/cp/json.go b/cp/json.go
index 15a0ceb..3c41d34 100644
--- a/cp/json.go
+++ b/cp/json.go
@@ -23,6 +23,7 @@ func (cp *chargePoint) getNewWebsocketConnection() error {
 	if err != nil {
 		return err
 	}
+	go conn.ReadMessages()
 	cp.conn = conn
 	cp.CentralSystem = service.NewCentralSystemJSON(cp.conn)
 	// closing the channel will make the reads non blocking
@@ -49,8 +50,6 @@ func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageH
 					break
 				}
 			}
-		case <-cp.conn.ReadMessageAsync():
-			continue
 		case req := <-cp.conn.Requests():
 			cprequest, ok := req.Request.(csreq.CentralSystemRequest)
 			if !ok {
diff --git a/cs/cs.go b/cs/cs.go
index b9a2412..c88f389 100644
--- a/cs/cs.go
+++ b/cs/cs.go
@@ -136,6 +136,8 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 		csys.connMux.Unlock()
 	}()
 
+	go conn.ReadMessages()
+
 	for {
 		select {
 		case req := <-conn.Requests():
@@ -154,13 +156,6 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 			}
 		case <-conn.WaitClose():
 			return
-		case err := <-conn.ReadMessageAsync():
-			if err != nil {
-				if !ws.IsCloseError(err) {
-					continue
-				}
-				return
-			}
 		}
 	}
 }
diff --git a/ws/conn.go b/ws/conn.go
index 3fab2da..fa1d939 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -20,6 +20,10 @@ import (
 	"github.com/voltbras/go-ocpp"
 )
 
+// how many received requests may wait to be handled
+// before we stop reading from the connection
+const maxQueuedRequests = 256
+
 type CallResponse struct {
 	response messages.Response
 	err      error
@@ -47,7 +51,7 @@ func newConn(socket *websocket.Conn) *Conn {
 		requests: make(chan struct {
 			messages.Request
 			MessageID
-		}, 0),
+		}, maxQueuedRequests),
 		ctx:         ctx,
 		cancelCtx:   cancel,
 		responsesOf: make(map[MessageID]chan CallResponse),
@@ -175,13 +179,27 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 }
 
 func (c *Conn) ReadMessageAsync() <-chan error {
-	readMessageResultChannel := make(chan error)
+	readMessageResultChannel := make(chan error, 1)
 	go func() {
 		readMessageResultChannel <- c.ReadMessage()
 	}()
 	return readMessageResultChannel
 }
 
+// ReadMessages reads messages until the connection is closed. It has its own
+// goroutine, so that responses are also delivered while a request is handled
+func (c *Conn) ReadMessages() {
+	for {
+		err := c.ReadMessage()
+		if c.ctx.Err() != nil {
+			return
+		}
+		if err != nil {
+			log.Error("on reading message: %w", err)
+		}
+	}
+}
+
 func (c *Conn) ReadMessage() error {
 	_, messageBytes, err := c.Conn.ReadMessage()
 	if err != nil {
@@ -216,10 +234,13 @@ func (c *Conn) ReadMessage() error {
 			msg := NewCallErrorMessage(msg.ID(), wserr, "on handling message")
 			return c.sendMessage(msg)
 		}
-		c.requests <- struct {
+		select {
+		case c.requests <- struct {
 			messages.Request
 			MessageID
-		}{req, msg.ID()}
+		}{req, msg.ID()}:
+		case <-c.ctx.Done():
+		}
 	case *CallResultMessage:
 		var resp messages.Response
 		resp, wserr = c.callResultToResponse(m, request)
-- 
2.43.0


From 2f3896c4b4b0e999aeb4c261f2ef65f09a13590d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 05/44] fix: a Send fails at once when its connection is closed

It waited for the whole request timeout, although no response could come.
---
 ws/conn.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ws/conn.go b/ws/conn.go
index fa1d939..25c17ee 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -344,13 +344,17 @@ func (c *Conn) SendRequest(request messages.Request) (messages.Response, error)
 	if err != nil {
 		return nil, err
 	}
+	timeout := time.NewTimer(internal.DefaultRequestTimeout)
+	defer timeout.Stop()
 	select {
 	case callResponse := <-responseCh:
 		if callResponse.err != Nil {
 			return nil, callResponse.err
 		}
 		return callResponse.response, nil
-	case <-time.After(internal.DefaultRequestTimeout):
+	case <-c.ctx.Done():
+		return nil, errors.New("connection closed before the response was received")
+	case <-timeout.C:
 		return nil, fmt.Errorf("request timeout exceeded")
 	}
 }
-- 
2.43.0


From 1278332a61fbd1c8d3414ff23a29dd4ad6d7f79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 06/44] fix: do not wait forever for a peer that has stopped
 reading

Once the buffers of the transport were full, every Send and every response
on that connection blocked without any timeout.
---
 ws/conn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ws/conn.go b/ws/conn.go
index 25c17ee..f047554 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -312,8 +312,14 @@ func (c *Conn) sendMessage(msg Message) error {
 		return fmt.Errorf("on marshalling message: %w", err)
 	}
 	log.Debug("Sending message [raw]: %v", string(bts))
+	err = c.Conn.SetWriteDeadline(time.Now().Add(internal.DefaultRequestTimeout))
+	if err != nil {
+		return fmt.Errorf("on sending message: %w", err)
+	}
 	err = c.Conn.WriteMessage(websocket.TextMessage, bts)
 	if err != nil {
+		// the connection is unusable, a part of the message may have been sent
+		c.Close()
 		return fmt.Errorf("on sending message: %w", err)
 	}
 	log.Debug("Sent message!")
-- 
2.43.0


From c8a54e9835e4b65569a8056d7ff3617c1ee298d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:27 +0000
Subject: [PATCH 07/44] fix: a response that arrives right before the end of
 its connection is delivered

---
 ws/conn.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ws/conn.go b/ws/conn.go
index f047554..7df4bdc 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -352,15 +352,21 @@ func (c *Conn) SendRequest(request messages.Request) (messages.Response, error)
 	}
 	timeout := time.NewTimer(internal.DefaultRequestTimeout)
 	defer timeout.Stop()
+	var callResponse CallResponse
 	select {
-	case callResponse := <-responseCh:
-		if callResponse.err != Nil {
-			return nil, callResponse.err
-		}
-		return callResponse.response, nil
+	case callResponse = <-responseCh:
 	case <-c.ctx.Done():
-		return nil, errors.New("connection closed before the response was received")
+		// the response may have been the last message of the connection
+		select {
+		case callResponse = <-responseCh:
+		default:
+			return nil, errors.New("connection closed before the response was received")
+		}
 	case <-timeout.C:
 		return nil, fmt.Errorf("request timeout exceeded")
 	}
+	if callResponse.err != Nil {
+		return nil, callResponse.err
+	}
+	return callResponse.response, nil
 }
-- 
2.43.0


From e0739d16c4bd0569e07e3fca5e4f1fb09fcf08ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 08/44] fix: WriteMessage must not write concurrently with Send

The websocket library allows one writer at a time and panics otherwise.
---
 ws/conn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ws/conn.go b/ws/conn.go
index 7df4bdc..6efa432 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -103,6 +103,12 @@ func (c *Conn) WriteJSON(data interface{}) error {
 	return c.Conn.WriteJSON(data)
 }
 
+func (c *Conn) WriteMessage(messageType int, data []byte) error {
+	c.sendMux.Lock()
+	defer c.sendMux.Unlock()
+	return c.Conn.WriteMessage(messageType, data)
+}
+
 func (c *Conn) Close() error {
 	err := c.Conn.Close()
 	c.cancelCtx()
-- 
2.43.0


From f59be8acaecafd6ba70d3d6011163a3902a59d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 09/44] fix: answer with a call error when the response of the
 handler cannot be encoded

The peer got no answer at all, or a null payload that is not an answer, and
waited for the request timeout.
---
 ws/message.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ws/message.go b/ws/message.go
index 05f53d2..ed48f0f 100644
--- a/ws/message.go
+++ b/ws/message.go
@@ -2,6 +2,7 @@ package ws
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 
 	"github.com/voltbras/go-ocpp/messages"
@@ -132,10 +133,17 @@ func (err *CallErrorMessage) MarshalJSON() ([]byte, error) {
 }
 
 func unmarshalResponse(id MessageID, resp messages.Response, err error) Message {
+	var payload json.RawMessage
+	if err == nil {
+		payload, err = json.Marshal(resp)
+	}
+	if err == nil && string(payload) == "null" {
+		err = errors.New("no response")
+	}
 	if err != nil {
 		return NewCallErrorMessage(id, InternalError, err.Error())
 	}
-	return NewCallResult(id, resp)
+	return NewCallResult(id, payload)
 }
 
 func UnmarshalRequest(id MessageID, req messages.Request) (*CallMessage, error) {
-- 
2.43.0


From e58b248ea9072bf43b18c27898d6fefa3ba2a9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 10/44] fix: leave optional properties that are not set out of
 the payload

The generated MarshalJSON methods ignore omitempty, so that messages with
unset optional properties were sent with null, "" or 0 in their place, which
the OCPP 1.6 schemas do not allow (e.g. an expiryDate null or a reason "").
---
 ws/message.go | 15 +++++---------
 ws/payload.go | 57 +++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 62 insertions(+), 10 deletions(-)
 create mode 100644 ws/payload.go

diff --git a/ws/message.go b/ws/message.go
index ed48f0f..b48903b 100644
--- a/ws/message.go
+++ b/ws/message.go
@@ -133,11 +133,11 @@ func (err *CallErrorMessage) MarshalJSON() ([]byte, error) {
 }
 
 func unmarshalResponse(id MessageID, resp messages.Response, err error) Message {
-	var payload json.RawMessage
+	var payload map[string]interface{}
 	if err == nil {
-		payload, err = json.Marshal(resp)
+		payload, err = marshalPayload(resp)
 	}
-	if err == nil && string(payload) == "null" {
+	if err == nil && payload == nil {
 		err = errors.New("no response")
 	}
 	if err != nil {
@@ -147,14 +147,9 @@ func unmarshalResponse(id MessageID, resp messages.Response, err error) Message
 }
 
 func UnmarshalRequest(id MessageID, req messages.Request) (*CallMessage, error) {
-	var inInterface map[string]interface{}
-	inrec, err := json.Marshal(req)
+	payload, err := marshalPayload(req)
 	if err != nil {
 		return nil, err
 	}
-	err = json.Unmarshal(inrec, &inInterface)
-	if err != nil {
-		return nil, err
-	}
-	return NewCallMessage(id, Action(req.Action()), inInterface), nil
+	return NewCallMessage(id, Action(req.Action()), payload), nil
 }
diff --git a/ws/payload.go b/ws/payload.go
new file mode 100644
index 0000000..0562de4
--- /dev/null
+++ b/ws/payload.go
@@ -0,0 +1,57 @@
+package ws
+
+import (
+	"bytes"
+	"encoding/json"
+	"reflect"
+	"strings"
+)
+
+// marshalPayload encodes a message as a payload, without the optional
+// properties that are not set: the generated MarshalJSON methods of the
+// messages write those too, as null, "" or 0
+func marshalPayload(msg interface{}) (map[string]interface{}, error) {
+	bts, err := json.Marshal(msg)
+	if err != nil {
+		return nil, err
+	}
+	var payload map[string]interface{}
+	decoder := json.NewDecoder(bytes.NewReader(bts))
+	decoder.UseNumber()
+	err = decoder.Decode(&payload)
+	if err != nil {
+		return nil, err
+	}
+	omitUnset(payload, reflect.ValueOf(msg))
+	return payload, nil
+}
+
+// omitUnset removes from an encoded value the properties that are tagged
+// omitempty and not set, and encodes required lists that are nil as empty
+func omitUnset(encoded interface{}, value reflect.Value) {
+	for value.Kind() == reflect.Ptr || value.Kind() == reflect.Interface {
+		value = value.Elem()
+	}
+	switch encoded := encoded.(type) {
+	case []interface{}:
+		for i := 0; value.Kind() == reflect.Slice && i < value.Len() && i < len(encoded); i++ {
+			omitUnset(encoded[i], value.Index(i))
+		}
+	case map[string]interface{}:
+		for i := 0; value.Kind() == reflect.Struct && i < value.NumField(); i++ {
+			tag := strings.Split(value.Type().Field(i).Tag.Get("json"), ",")
+			field := value.Field(i)
+			if _, ok := encoded[tag[0]]; !ok {
+				continue
+			}
+			unset := field.IsZero() || field.Kind() == reflect.Slice && field.Len() == 0
+			if unset && len(tag) > 1 && tag[1] == "omitempty" {
+				delete(encoded, tag[0])
+			} else if field.Kind() == reflect.Slice && field.IsNil() {
+				encoded[tag[0]] = []interface{}{}
+			} else {
+				omitUnset(encoded[tag[0]], field)
+			}
+		}
+	}
+}
-- 
2.43.0


From 9ef248a2a5daf4a9eff1c00283496153d2db3e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 11/44] fix: do not take null for the value of a required
 property

json.Unmarshal does nothing for null, so a required property that was null
counted as received and reached the handler as a zero value, or, in a list, as
a nil pointer.
---
 ws/conn.go    |  6 ++++++
 ws/payload.go | 21 +++++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/ws/conn.go b/ws/conn.go
index 6efa432..34fbed3 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -268,6 +268,9 @@ func (c *Conn) callToRequest(call *CallMessage) (messages.Request, ErrorCode) {
 	if req == nil {
 		return nil, NotSupported
 	}
+	if !removeNulls(call.Payload) {
+		return nil, FormationViolation
+	}
 	originalPayload, err := json.Marshal(call.Payload)
 	if err != nil {
 		return nil, GenericError
@@ -296,6 +299,9 @@ func (c *Conn) callResultToResponse(result *CallResultMessage, request messages.
 		return nil, NotSupported
 	}
 	resp := request.GetResponse()
+	if !removeNulls(result.Payload) {
+		return nil, FormationViolation
+	}
 	originalPayload, err := json.Marshal(result.Payload)
 	if err != nil {
 		return nil, GenericError
diff --git a/ws/payload.go b/ws/payload.go
index 0562de4..1b8bb26 100644
--- a/ws/payload.go
+++ b/ws/payload.go
@@ -55,3 +55,24 @@ func omitUnset(encoded interface{}, value reflect.Value) {
 		}
 	}
 }
+
+// removeNulls removes the properties that are null from a received payload, as
+// if they were absent. It says if there was no null in a list
+func removeNulls(payload interface{}) bool {
+	ok := true
+	switch payload := payload.(type) {
+	case []interface{}:
+		for _, v := range payload {
+			ok = ok && v != nil && removeNulls(v)
+		}
+	case map[string]interface{}:
+		for k, v := range payload {
+			if v == nil {
+				delete(payload, k)
+			} else {
+				ok = ok && removeNulls(v)
+			}
+		}
+	}
+	return ok
+}
-- 
2.43.0


From 28651a4291f038c4c1eee19050210a60ac4a7f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 12/44] fix: struct tags of the DataTransfer and
 StopTransaction responses

They were malformed, so data and idTagInfo had neither a JSON nor an XML name:
over SOAP they were sent as Data and IdTagInfo, and not understood.
---
 messages/v1x/cpresp/messages.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/messages/v1x/cpresp/messages.go b/messages/v1x/cpresp/messages.go
index 597de5e..933a6ba 100644
--- a/messages/v1x/cpresp/messages.go
+++ b/messages/v1x/cpresp/messages.go
@@ -30,7 +30,7 @@ type DataTransfer struct {
 	chargepointResponse
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ dataTransferResponse"`
 
-	Data   string `json:"data, xml:"data,omitempty"omitempty"`
+	Data   string `json:"data,omitempty" xml:"data,omitempty"`
 	Status string `json:"status" xml:"status,omitempty"`
 }
 
@@ -87,5 +87,5 @@ type StopTransaction struct {
 	chargepointResponse
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ stopTransactionResponse"`
 
-	IdTagInfo *IdTagInfo `json:"idTagInfo, xml:"idTagInfo,omitempty"omitempty"`
+	IdTagInfo *IdTagInfo `json:"idTagInfo,omitempty" xml:"idTagInfo,omitempty"`
 }
-- 
2.43.0


From 1e56fd1896cd07d1d0f102263dc71f551d794a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 13/44] fix: check the properties of received remote start and
 stop requests

The other messages have an UnmarshalJSON that rejects missing and unknown
properties, RemoteStartTransaction and RemoteStopTransaction did not: {} was
handled as stopping transaction 0.
---
 messages/v1x/csreq/json_encode.go | 58 +++++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/messages/v1x/csreq/json_encode.go b/messages/v1x/csreq/json_encode.go
index 924e656..9c73242 100644
--- a/messages/v1x/csreq/json_encode.go
+++ b/messages/v1x/csreq/json_encode.go
@@ -1891,3 +1891,61 @@ func (m *UpdateFirmware) UnmarshalJSON(b []byte) error {
 	}
 	return nil
 }
+
+func (m *RemoteStartTransaction) UnmarshalJSON(b []byte) error {
+	idTagReceived := false
+	var jsonMap map[string]json.RawMessage
+	if err := json.Unmarshal(b, &jsonMap); err != nil {
+		return err
+	}
+	// parse all the defined properties
+	for k, v := range jsonMap {
+		switch k {
+		case "chargingProfile":
+			if err := json.Unmarshal([]byte(v), &m.ChargingProfile); err != nil {
+				return err
+			}
+		case "connectorId":
+			if err := json.Unmarshal([]byte(v), &m.ConnectorId); err != nil {
+				return err
+			}
+		case "idTag":
+			if err := json.Unmarshal([]byte(v), &m.IdTag); err != nil {
+				return err
+			}
+			idTagReceived = true
+		default:
+			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+		}
+	}
+	// check if idTag (a required property) was received
+	if !idTagReceived {
+		return errors.New("\"idTag\" is required but was not present")
+	}
+	return nil
+}
+
+func (m *RemoteStopTransaction) UnmarshalJSON(b []byte) error {
+	transactionIdReceived := false
+	var jsonMap map[string]json.RawMessage
+	if err := json.Unmarshal(b, &jsonMap); err != nil {
+		return err
+	}
+	// parse all the defined properties
+	for k, v := range jsonMap {
+		switch k {
+		case "transactionId":
+			if err := json.Unmarshal([]byte(v), &m.TransactionId); err != nil {
+				return err
+			}
+			transactionIdReceived = true
+		default:
+			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+		}
+	}
+	// check if transactionId (a required property) was received
+	if !transactionIdReceived {
+		return errors.New("\"transactionId\" is required but was not present")
+	}
+	return nil
+}
-- 
2.43.0


From 881cd23cd10aed9f94cdba61d2fe2fc5b00b6456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 14/44] fix: receive DataTransfer requests over WebSocket

Both sides may send DataTransfer, so its action name alone does not say which
type to decode it into, and it was answered with NotSupported. Which side the
peer is on does say it.
---
 ws/conn.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/ws/conn.go b/ws/conn.go
index 34fbed3..7d0c0fa 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -15,6 +15,8 @@ import (
 	"github.com/voltbras/go-ocpp/internal/log"
 	"github.com/voltbras/go-ocpp/messages"
 	"github.com/voltbras/go-ocpp/messages/req"
+	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
+	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
 
 	"github.com/gorilla/websocket"
 	"github.com/voltbras/go-ocpp"
@@ -33,10 +35,12 @@ type Conn struct {
 	ctx       context.Context
 	cancelCtx context.CancelFunc
 	*websocket.Conn
-	sendMux      sync.Mutex
-	sentMux      sync.Mutex // guards sentMessages and responsesOf
-	sentMessages map[MessageID]messages.Request
-	requests     chan struct {
+	// which of the two DataTransfer requests the peer sends
+	newDataTransfer func() messages.Request
+	sendMux         sync.Mutex
+	sentMux         sync.Mutex // guards sentMessages and responsesOf
+	sentMessages    map[MessageID]messages.Request
+	requests        chan struct {
 		messages.Request
 		MessageID
 	}
@@ -66,7 +70,9 @@ func Dial(identity, csURL string, version ocpp.Version) (*Conn, error) {
 	if err != nil {
 		return nil, err
 	}
-	return newConn(socket), err
+	conn := newConn(socket)
+	conn.newDataTransfer = func() messages.Request { return &csreq.DataTransfer{} }
+	return conn, err
 }
 
 var upgrader = websocket.Upgrader{
@@ -94,6 +100,7 @@ func Handshake(w http.ResponseWriter, r *http.Request, supportedVersions []ocpp.
 	}
 	socket, err := upgrader.Upgrade(w, r, upgraderHeader)
 	conn := newConn(socket)
+	conn.newDataTransfer = func() messages.Request { return &cpreq.DataTransfer{} }
 	return conn, err
 }
 
@@ -265,6 +272,9 @@ func (c *Conn) ReadMessage() error {
 
 func (c *Conn) callToRequest(call *CallMessage) (messages.Request, ErrorCode) {
 	req := req.FromActionName(string(call.Action))
+	if call.Action == "DataTransfer" {
+		req = c.newDataTransfer()
+	}
 	if req == nil {
 		return nil, NotSupported
 	}
-- 
2.43.0


From ebdf5bc978874024aa453e25b0f50d8e80ec9905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:30 +0000
Subject: [PATCH 15/44] fix: Run uses a handler of its own instead of the
 process-wide one

A second central system in a process panicked ("multiple registrations for /"),
the first one's handler answered on every port that serves the default mux,
and the mux redirected charge points whose identity it found unclean.
---
 cs/cs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cs/cs.go b/cs/cs.go
index c88f389..481a35b 100644
--- a/cs/cs.go
+++ b/cs/cs.go
@@ -69,7 +69,7 @@ func New() CentralSystem {
 }
 
 func (csys *centralSystem) Run(port string, cphandler ChargePointMessageHandler) error {
-	http.HandleFunc("/", func(w http.ResponseWriter, r *http.Request) {
+	handler := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
 		if ws.IsWebSocketUpgrade(r) {
 			csys.handleWebsocket(w, r, cphandler)
 		} else if r.Method == http.MethodGet {
@@ -89,7 +89,7 @@ func (csys *centralSystem) Run(port string, cphandler ChargePointMessageHandler)
 
 	})
 	log.Debug("Central system running on port: %s", port)
-	return http.ListenAndServe(port, nil)
+	return http.ListenAndServe(port, handler)
 }
 
 func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Request, cphandler ChargePointMessageHandler) {
-- 
2.43.0


From c08131107928c9c8755ae1fd1a8971e4dd5fe908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 16/44] fix: keep track of every open connection of a charge
 point

When the newer of two connections of a charge point closed first,
GetServiceOf kept returning it. When the connection closed while a request was
being handled, the charge point stayed registered until the handler returned.
The map was read without the lock for the status page and the debug log, and
kept an entry for every charge point that ever connected.
---
 cs/cs.go | 101 +++++++++++++++++++++++++++++++++----------------------
 1 file changed, 61 insertions(+), 40 deletions(-)

diff --git a/cs/cs.go b/cs/cs.go
index 481a35b..d76966b 100644
--- a/cs/cs.go
+++ b/cs/cs.go
@@ -47,11 +47,10 @@ type CentralSystem interface {
 }
 
 type centralSystem struct {
-	conns map[string]*ws.Conn
-	// used to symbolize if the connection is connected
+	// open connections of each charge point, the newest last
+	conns map[string][]*ws.Conn
+	// closed when the charge point, that isn't connected yet, connects
 	connChans       map[string]chan struct{}
-	connsConnected  map[string]bool
-	connsCount      map[string]int
 	connMux         sync.Mutex
 	connListener    ChargePointConnectionListener
 	disconnListener ChargePointConnectionListener
@@ -59,10 +58,8 @@ type centralSystem struct {
 
 func New() CentralSystem {
 	return &centralSystem{
-		conns:           make(map[string]*ws.Conn, 0),
+		conns:           make(map[string][]*ws.Conn, 0),
 		connChans:       make(map[string]chan struct{}, 0),
-		connsCount:      make(map[string]int, 0),
-		connsConnected:  make(map[string]bool, 0),
 		connListener:    func(cpID string) {},
 		disconnListener: func(cpID string) {},
 	}
@@ -80,7 +77,7 @@ func (csys *centralSystem) Run(port string, cphandler ChargePointMessageHandler)
 				`<h1>OCPP Central System</h1>
 				<p>currently connected with %d OCPP-J stations, and more OCPP-S stations</p>
 				<i>Central System using <a href="https://github.com/voltbras/go-ocpp"/>https://github.com/voltbras/go-ocpp</i>`,
-				len(csys.conns),
+				csys.connectedCount(),
 			)
 			w.Write([]byte(body))
 		} else {
@@ -93,7 +90,7 @@ func (csys *centralSystem) Run(port string, cphandler ChargePointMessageHandler)
 }
 
 func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Request, cphandler ChargePointMessageHandler) {
-	log.Debug("Current WS connections map: %v", csys.conns)
+	log.Debug("Current WS connections: %d", csys.connectedCount())
 	cpID := strings.TrimPrefix(r.URL.Path, "/")
 
 	rawReq, _ := httputil.DumpRequest(r, true)
@@ -106,34 +103,24 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 	}
 
 	csys.connMux.Lock()
-	csys.conns[cpID] = conn
-	csys.connsCount[cpID]++
-	if csys.connChans[cpID] == nil {
-		csys.connChans[cpID] = make(chan struct{})
+	csys.conns[cpID] = append(csys.conns[cpID], conn)
+	if connCh, ok := csys.connChans[cpID]; ok {
+		close(connCh)
+		delete(csys.connChans, cpID)
 	}
-	if !csys.connsConnected[cpID] {
-		close(csys.connChans[cpID])
-	}
-	csys.connsConnected[cpID] = true
 	csys.connMux.Unlock()
 
 	log.Debug("Connected with %s", cpID)
 	go csys.connListener(cpID)
 
-	defer func() {
-		conn.Close()
+	defer conn.Close()
+	// in a goroutine of its own, as a request may still be
+	// being handled when the connection is closed
+	go func() {
+		<-conn.WaitClose()
 		log.Debug("Closed connection of: %s", cpID)
 		go csys.disconnListener(cpID)
-		csys.connMux.Lock()
-		csys.connsCount[cpID]--
-		// if the same CP connected more times before we do the
-		// connection cleanup, don't remove the connection reference
-		if csys.connsCount[cpID] == 0 {
-			delete(csys.conns, cpID)
-			csys.connChans[cpID] = make(chan struct{})
-			csys.connsConnected[cpID] = false
-		}
-		csys.connMux.Unlock()
+		csys.removeConn(cpID, conn)
 	}()
 
 	go conn.ReadMessages()
@@ -160,6 +147,39 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 	}
 }
 
+// removeConn removes only the given connection, as the
+// same CP may have connected more times
+func (csys *centralSystem) removeConn(cpID string, conn *ws.Conn) {
+	csys.connMux.Lock()
+	defer csys.connMux.Unlock()
+	for i, c := range csys.conns[cpID] {
+		if c == conn {
+			csys.conns[cpID] = append(csys.conns[cpID][:i:i], csys.conns[cpID][i+1:]...)
+			break
+		}
+	}
+	if len(csys.conns[cpID]) == 0 {
+		delete(csys.conns, cpID)
+	}
+}
+
+// currentConn is the newest connection of the charge point, nil if there is none
+func (csys *centralSystem) currentConn(cpID string) *ws.Conn {
+	csys.connMux.Lock()
+	defer csys.connMux.Unlock()
+	conns := csys.conns[cpID]
+	if len(conns) == 0 {
+		return nil
+	}
+	return conns[len(conns)-1]
+}
+
+func (csys *centralSystem) connectedCount() int {
+	csys.connMux.Lock()
+	defer csys.connMux.Unlock()
+	return len(csys.conns)
+}
+
 func (csys *centralSystem) handleSoap(w http.ResponseWriter, r *http.Request, cphandler ChargePointMessageHandler) {
 	log.Debug("New SOAP request")
 	err := soap.Handle(w, r, func(request messages.Request, cpID string) (messages.Response, error) {
@@ -186,10 +206,8 @@ func (csys *centralSystem) GetServiceOf(cpID string, version ocpp.Version, url s
 		}), nil
 	}
 	if version == ocpp.V16 {
-		csys.connMux.Lock()
-		conn := csys.conns[cpID]
-		csys.connMux.Unlock()
-		if conn == nil { // TODO: or conn closed
+		conn := csys.currentConn(cpID)
+		if conn == nil {
 			return nil, errors.New("no connection to this charge point")
 		}
 		return service.NewChargePointJSON(conn), nil
@@ -206,9 +224,7 @@ func (csys *centralSystem) SetChargePointDisconnectionListener(f ChargePointConn
 }
 
 func (csys *centralSystem) WaitDisconnect(cpID string) <-chan struct{} {
-	csys.connMux.Lock()
-	conn := csys.conns[cpID]
-	csys.connMux.Unlock()
+	conn := csys.currentConn(cpID)
 
 	ch := make(chan struct{})
 	if conn == nil {
@@ -220,10 +236,15 @@ func (csys *centralSystem) WaitDisconnect(cpID string) <-chan struct{} {
 
 func (csys *centralSystem) WaitConnect(cpID string) <-chan struct{} {
 	csys.connMux.Lock()
-	if csys.connChans[cpID] == nil {
-		csys.connChans[cpID] = make(chan struct{})
+	defer csys.connMux.Unlock()
+	connCh, ok := csys.connChans[cpID]
+	if !ok {
+		connCh = make(chan struct{})
+		if len(csys.conns[cpID]) > 0 {
+			close(connCh)
+		} else {
+			csys.connChans[cpID] = connCh
+		}
 	}
-	connCh := csys.connChans[cpID]
-	csys.connMux.Unlock()
 	return connCh
 }
-- 
2.43.0


From 11d074e7431f393ffa1d0f62edc538cb1c45f4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 17/44] fix: setting a listener while charge points connect is
 not a race

---
 cs/cs.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cs/cs.go b/cs/cs.go
index d76966b..b0fb3f5 100644
--- a/cs/cs.go
+++ b/cs/cs.go
@@ -111,7 +111,8 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 	csys.connMux.Unlock()
 
 	log.Debug("Connected with %s", cpID)
-	go csys.connListener(cpID)
+	connListener, _ := csys.listeners()
+	go connListener(cpID)
 
 	defer conn.Close()
 	// in a goroutine of its own, as a request may still be
@@ -119,7 +120,8 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 	go func() {
 		<-conn.WaitClose()
 		log.Debug("Closed connection of: %s", cpID)
-		go csys.disconnListener(cpID)
+		_, disconnListener := csys.listeners()
+		go disconnListener(cpID)
 		csys.removeConn(cpID, conn)
 	}()
 
@@ -216,13 +218,23 @@ func (csys *centralSystem) GetServiceOf(cpID string, version ocpp.Version, url s
 }
 
 func (csys *centralSystem) SetChargePointConnectionListener(f ChargePointConnectionListener) {
+	csys.connMux.Lock()
+	defer csys.connMux.Unlock()
 	csys.connListener = f
 }
 
 func (csys *centralSystem) SetChargePointDisconnectionListener(f ChargePointConnectionListener) {
+	csys.connMux.Lock()
+	defer csys.connMux.Unlock()
 	csys.disconnListener = f
 }
 
+func (csys *centralSystem) listeners() (conn, disconn ChargePointConnectionListener) {
+	csys.connMux.Lock()
+	defer csys.connMux.Unlock()
+	return csys.connListener, csys.disconnListener
+}
+
 func (csys *centralSystem) WaitDisconnect(cpID string) <-chan struct{} {
 	conn := csys.currentConn(cpID)
 
-- 
2.43.0


From 902bda81e7963fab5ccc8452529c98865f665867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 18/44] fix: answer requests that are meant for the other side
 with NotSupported

The central system did not answer them at all, the charge point called its
handler with a nil request.
---
 cp/json.go | 5 +++++
 cs/cs.go   | 4 ++++
 ws/conn.go | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/cp/json.go b/cp/json.go
index 3c41d34..249e2a9 100644
--- a/cp/json.go
+++ b/cp/json.go
@@ -54,6 +54,11 @@ func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageH
 			cprequest, ok := req.Request.(csreq.CentralSystemRequest)
 			if !ok {
 				log.Error(csreq.ErrorNotCentralSystemRequest.Error())
+				err := cp.conn.SendError(req.MessageID, ws.NotSupported, csreq.ErrorNotCentralSystemRequest.Error())
+				if err != nil {
+					log.Error(err.Error())
+				}
+				continue
 			}
 			cpresponse, err := cshandler(cprequest)
 			err = cp.conn.SendResponse(req.MessageID, cpresponse, err)
diff --git a/cs/cs.go b/cs/cs.go
index b0fb3f5..49c454a 100644
--- a/cs/cs.go
+++ b/cs/cs.go
@@ -133,6 +133,10 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 			cprequest, ok := req.Request.(cpreq.ChargePointRequest)
 			if !ok {
 				log.Error(cpreq.ErrorNotChargePointRequest.Error())
+				err := conn.SendError(req.MessageID, ws.NotSupported, cpreq.ErrorNotChargePointRequest.Error())
+				if err != nil {
+					log.Error(err.Error())
+				}
 				continue
 			}
 			cpresponse, err := cphandler(cprequest, ChargePointRequestMetadata{
diff --git a/ws/conn.go b/ws/conn.go
index 7d0c0fa..8f385ae 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -325,6 +325,9 @@ func (c *Conn) callResultToResponse(result *CallResultMessage, request messages.
 func (c *Conn) SendResponse(id MessageID, response messages.Response, err error) error {
 	return c.sendMessage(unmarshalResponse(id, response, err))
 }
+func (c *Conn) SendError(id MessageID, code ErrorCode, description string) error {
+	return c.sendMessage(NewCallErrorMessage(id, code, description))
+}
 func (c *Conn) sendMessage(msg Message) error {
 	c.sendMux.Lock()
 	defer c.sendMux.Unlock()
-- 
2.43.0


From a1c5811ca7a4e41589acf285fd7c83b905e3aba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 19/44] fix: select only a subprotocol that the client offered

The handshake was answered with ocpp1.6 to every client, also to those that
offered other subprotocols or none, which must fail the connection then.
---
 ws/conn.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ws/conn.go b/ws/conn.go
index 8f385ae..5cadd6b 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -94,11 +94,12 @@ func ocppVersionToProtocol(version ocpp.Version) string {
 }
 
 func Handshake(w http.ResponseWriter, r *http.Request, supportedVersions []ocpp.Version) (*Conn, error) {
-	upgraderHeader := http.Header{}
+	// selects one only if the client offered it
+	upgrader := upgrader
 	for _, v := range supportedVersions {
-		upgraderHeader.Add("Sec-WebSocket-Protocol", ocppVersionToProtocol(v))
+		upgrader.Subprotocols = append(upgrader.Subprotocols, ocppVersionToProtocol(v))
 	}
-	socket, err := upgrader.Upgrade(w, r, upgraderHeader)
+	socket, err := upgrader.Upgrade(w, r, nil)
 	conn := newConn(socket)
 	conn.newDataTransfer = func() messages.Request { return &cpreq.DataTransfer{} }
 	return conn, err
-- 
2.43.0


From b776438688cef82727939d7ad9dd103b40ba3645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:23 +0000
Subject: [PATCH 20/44] fix: escape the identity of the charge point in the URL
 it dials

An identity with a character such as ?, #, % or a space could not connect, or
was known to the central system under another name.
---
 ws/conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ws/conn.go b/ws/conn.go
index 5cadd6b..3835168 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -7,6 +7,8 @@ import (
 	"errors"
 	"fmt"
 	"net/http"
+	"net/url"
+	"strings"
 	"sync"
 	"time"
 
@@ -66,7 +68,7 @@ func Dial(identity, csURL string, version ocpp.Version) (*Conn, error) {
 	dialer := websocket.Dialer{
 		Subprotocols: []string{ocppVersionToProtocol(version)},
 	}
-	socket, _, err := dialer.Dial(csURL+"/"+identity, http.Header{})
+	socket, _, err := dialer.Dial(strings.TrimSuffix(csURL, "/")+"/"+url.PathEscape(identity), http.Header{})
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 09687e4aadaaa084d47b87529dfd7cf42244af03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 21/44] fix: stop retrying to connect when the context of the
 charge point is cancelled

Without a handshake timeout, a dial to a central system that accepts but does
not answer also hung forever, which ended the reconnecting as well.
---
 cp/json.go | 8 ++++++--
 ws/conn.go | 9 +++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/cp/json.go b/cp/json.go
index 249e2a9..04294cf 100644
--- a/cp/json.go
+++ b/cp/json.go
@@ -19,7 +19,7 @@ func (cp *chargePoint) Connection() *ws.Conn {
 
 // tries to reach CS, if succeeded handle
 func (cp *chargePoint) getNewWebsocketConnection() error {
-	conn, err := ws.Dial(cp.identity, cp.centralSystemURL, cp.version)
+	conn, err := ws.DialContext(cp.ctx, cp.identity, cp.centralSystemURL, cp.version)
 	if err != nil {
 		return err
 	}
@@ -45,7 +45,11 @@ func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageH
 				err := cp.getNewWebsocketConnection()
 				if err != nil {
 					log.Error("On restarting connection with Central System: %w", err)
-					<-time.After(websocketConnectionRetryInterval)
+					select {
+					case <-time.After(websocketConnectionRetryInterval):
+					case <-cp.ctx.Done():
+						return
+					}
 				} else {
 					break
 				}
diff --git a/ws/conn.go b/ws/conn.go
index 3835168..c105fdf 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -65,10 +65,15 @@ func newConn(socket *websocket.Conn) *Conn {
 }
 
 func Dial(identity, csURL string, version ocpp.Version) (*Conn, error) {
+	return DialContext(context.Background(), identity, csURL, version)
+}
+
+func DialContext(ctx context.Context, identity, csURL string, version ocpp.Version) (*Conn, error) {
 	dialer := websocket.Dialer{
-		Subprotocols: []string{ocppVersionToProtocol(version)},
+		HandshakeTimeout: internal.DefaultRequestTimeout,
+		Subprotocols:     []string{ocppVersionToProtocol(version)},
 	}
-	socket, _, err := dialer.Dial(strings.TrimSuffix(csURL, "/")+"/"+url.PathEscape(identity), http.Header{})
+	socket, _, err := dialer.DialContext(ctx, strings.TrimSuffix(csURL, "/")+"/"+url.PathEscape(identity), http.Header{})
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 450b24147cce84f9b242c3affc61ba4b48f1a90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 22/44] fix: guard the connection of a charge point while it
 reconnects

Send, Connection, WaitConnect and WaitDisconnect raced with the reconnecting,
and WaitConnect stayed signalled until the loss of the connection was noticed.
---
 cp/cp.go   | 13 ++++++++++++-
 cp/json.go | 34 +++++++++++++++++++++++++++-------
 ws/conn.go |  4 ++++
 3 files changed, 43 insertions(+), 8 deletions(-)

diff --git a/cp/cp.go b/cp/cp.go
index 79cb293..5311e96 100644
--- a/cp/cp.go
+++ b/cp/cp.go
@@ -4,9 +4,12 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"sync"
 
 	"github.com/voltbras/go-ocpp"
 	"github.com/voltbras/go-ocpp/internal/service"
+	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
+	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
 	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
 	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
 	"github.com/voltbras/go-ocpp/soap"
@@ -32,8 +35,9 @@ type chargePoint struct {
 	centralSystemURL string
 	version          ocpp.Version
 	transport        ocpp.Transport
-	conn             *ws.Conn
 	ctx              context.Context
+	connMux          sync.Mutex // guards CentralSystem, conn and connectedChan
+	conn             *ws.Conn
 	connectedChan    chan struct{}
 }
 
@@ -65,6 +69,13 @@ func New(ctx context.Context, identity, csURL string, version ocpp.Version, tran
 	return cp, nil
 }
 
+func (cp *chargePoint) Send(req cpreq.ChargePointRequest) (cpresp.ChargePointResponse, error) {
+	cp.connMux.Lock()
+	centralSystem := cp.CentralSystem
+	cp.connMux.Unlock()
+	return centralSystem.Send(req)
+}
+
 func (cp *chargePoint) Identity() string {
 	return cp.identity
 }
diff --git a/cp/json.go b/cp/json.go
index 04294cf..af07531 100644
--- a/cp/json.go
+++ b/cp/json.go
@@ -14,6 +14,8 @@ const (
 )
 
 func (cp *chargePoint) Connection() *ws.Conn {
+	cp.connMux.Lock()
+	defer cp.connMux.Unlock()
 	return cp.conn
 }
 
@@ -24,6 +26,8 @@ func (cp *chargePoint) getNewWebsocketConnection() error {
 		return err
 	}
 	go conn.ReadMessages()
+	cp.connMux.Lock()
+	defer cp.connMux.Unlock()
 	cp.conn = conn
 	cp.CentralSystem = service.NewCentralSystemJSON(cp.conn)
 	// closing the channel will make the reads non blocking
@@ -33,13 +37,14 @@ func (cp *chargePoint) getNewWebsocketConnection() error {
 
 func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageHandler) {
 	for {
+		conn := cp.Connection()
 		select {
 		case <-cp.ctx.Done():
-			cp.conn.Close()
+			conn.Close()
 			return
-		case <-cp.conn.WaitClose():
+		case <-conn.WaitClose():
 			log.Debug("Closed connection of Central System")
-			cp.connectedChan = make(chan struct{})
+			cp.updateConnectedChan()
 			// try to connect until it is established
 			for {
 				err := cp.getNewWebsocketConnection()
@@ -54,18 +59,18 @@ func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageH
 					break
 				}
 			}
-		case req := <-cp.conn.Requests():
+		case req := <-conn.Requests():
 			cprequest, ok := req.Request.(csreq.CentralSystemRequest)
 			if !ok {
 				log.Error(csreq.ErrorNotCentralSystemRequest.Error())
-				err := cp.conn.SendError(req.MessageID, ws.NotSupported, csreq.ErrorNotCentralSystemRequest.Error())
+				err := conn.SendError(req.MessageID, ws.NotSupported, csreq.ErrorNotCentralSystemRequest.Error())
 				if err != nil {
 					log.Error(err.Error())
 				}
 				continue
 			}
 			cpresponse, err := cshandler(cprequest)
-			err = cp.conn.SendResponse(req.MessageID, cpresponse, err)
+			err = conn.SendResponse(req.MessageID, cpresponse, err)
 			if err != nil {
 				log.Error(err.Error())
 			}
@@ -74,9 +79,24 @@ func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageH
 }
 
 func (cp *chargePoint) WaitConnect() <-chan struct{} {
+	return cp.updateConnectedChan()
+}
+
+// updateConnectedChan returns the channel that is closed while
+// connected, a new one if the connection was closed meanwhile
+func (cp *chargePoint) updateConnectedChan() <-chan struct{} {
+	cp.connMux.Lock()
+	defer cp.connMux.Unlock()
+	if cp.conn != nil && cp.conn.IsClosed() {
+		select {
+		case <-cp.connectedChan:
+			cp.connectedChan = make(chan struct{})
+		default:
+		}
+	}
 	return cp.connectedChan
 }
 
 func (cp *chargePoint) WaitDisconnect() <-chan struct{} {
-	return cp.conn.WaitClose()
+	return cp.Connection().WaitClose()
 }
diff --git a/ws/conn.go b/ws/conn.go
index c105fdf..286742e 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -130,6 +130,10 @@ func (c *Conn) Close() error {
 	return err
 }
 
+func (c *Conn) IsClosed() bool {
+	return c.ctx.Err() != nil
+}
+
 func (c *Conn) WaitClose() <-chan struct{} {
 	return c.ctx.Done()
 }
-- 
2.43.0


From 75e0edc0fbc68709926960a6b0c5ad474479d687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 23/44] fix: close the connection as soon as the context of a
 charge point is cancelled

It stayed open while a request was being handled, and requests that had been
received before were still handled afterwards. As select picks any of the
cases that are ready, the charge point could also dial once more.
---
 cp/json.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cp/json.go b/cp/json.go
index af07531..e1f9fb0 100644
--- a/cp/json.go
+++ b/cp/json.go
@@ -26,6 +26,13 @@ func (cp *chargePoint) getNewWebsocketConnection() error {
 		return err
 	}
 	go conn.ReadMessages()
+	go func() {
+		select {
+		case <-cp.ctx.Done():
+			conn.Close()
+		case <-conn.WaitClose():
+		}
+	}()
 	cp.connMux.Lock()
 	defer cp.connMux.Unlock()
 	cp.conn = conn
@@ -43,6 +50,9 @@ func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageH
 			conn.Close()
 			return
 		case <-conn.WaitClose():
+			if cp.ctx.Err() != nil {
+				return
+			}
 			log.Debug("Closed connection of Central System")
 			cp.updateConnectedChan()
 			// try to connect until it is established
@@ -60,6 +70,9 @@ func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageH
 				}
 			}
 		case req := <-conn.Requests():
+			if cp.ctx.Err() != nil {
+				continue
+			}
 			cprequest, ok := req.Request.(csreq.CentralSystemRequest)
 			if !ok {
 				log.Error(csreq.ErrorNotCentralSystemRequest.Error())
-- 
2.43.0


From 5cb36f2587ad1c3596d0df4fb7c03def9441d8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 24/44] fix: close the SOAP server of a charge point when its
 context is cancelled

The listener stayed open, kept serving requests, and its goroutine never ended.
---
 cp/soap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cp/soap.go b/cp/soap.go
index 4a791dd..b68f2ef 100644
--- a/cp/soap.go
+++ b/cp/soap.go
@@ -15,13 +15,13 @@ func handleSoap(ctx context.Context, port string, cshandler CentralSystemMessage
 	handler := soapHandler{cshandler}
 	server := &http.Server{Addr: port, Handler: handler}
 
-	serverErrorCh := make(chan error)
+	serverErrorCh := make(chan error, 1)
 	go func() {
 		serverErrorCh <- server.ListenAndServe()
 	}()
 	select {
 	case <-ctx.Done():
-		return nil
+		return server.Close()
 	case err := <-serverErrorCh:
 		return err
 	}
-- 
2.43.0


From 3468cde1ab3de4a874a3d07dbf81f8a2acb17eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 25/44] fix: wait before reconnecting to a central system that
 closes connections at once

The charge point dialled it in a busy loop.
---
 cp/json.go | 9 +++++++++
 ws/conn.go | 8 ++++++++
 2 files changed, 17 insertions(+)

diff --git a/cp/json.go b/cp/json.go
index e1f9fb0..d6cc1ec 100644
--- a/cp/json.go
+++ b/cp/json.go
@@ -55,6 +55,15 @@ func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageH
 			}
 			log.Debug("Closed connection of Central System")
 			cp.updateConnectedChan()
+			// don't hurry back if the central system, although
+			// it accepts connections, isn't working
+			if !conn.HasReceived() {
+				select {
+				case <-time.After(websocketConnectionRetryInterval):
+				case <-cp.ctx.Done():
+					return
+				}
+			}
 			// try to connect until it is established
 			for {
 				err := cp.getNewWebsocketConnection()
diff --git a/ws/conn.go b/ws/conn.go
index 286742e..3c48b53 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -10,6 +10,7 @@ import (
 	"net/url"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/google/uuid"
@@ -47,6 +48,7 @@ type Conn struct {
 		MessageID
 	}
 	responsesOf map[MessageID]chan CallResponse
+	received    int32 // atomic, 1 after the first message
 }
 
 func newConn(socket *websocket.Conn) *Conn {
@@ -134,6 +136,11 @@ func (c *Conn) IsClosed() bool {
 	return c.ctx.Err() != nil
 }
 
+// HasReceived says if any message was received
+func (c *Conn) HasReceived() bool {
+	return atomic.LoadInt32(&c.received) != 0
+}
+
 func (c *Conn) WaitClose() <-chan struct{} {
 	return c.ctx.Done()
 }
@@ -231,6 +238,7 @@ func (c *Conn) ReadMessage() error {
 		c.Close()
 		return err
 	}
+	atomic.StoreInt32(&c.received, 1)
 	messageBytes = bytes.TrimSpace(bytes.Replace(messageBytes, newline, space, -1))
 	log.Debug("Received a message, raw: %v", string(messageBytes))
 	msg, err := UnmarshalMessage(messageBytes)
-- 
2.43.0


From e1466dbf148c0ae3d7811a674a696f9c87760518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 26/44] fix: answer SOAP requests that cannot be handled with a
 fault

They were answered with 200 and an empty body, and a request without a header
made the server panic.
---
 soap/marshal.go |  3 ++-
 soap/server.go  | 28 +++++++++++++++++++++++++---
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/soap/marshal.go b/soap/marshal.go
index 5ce64a4..7f8717b 100644
--- a/soap/marshal.go
+++ b/soap/marshal.go
@@ -23,8 +23,9 @@ func Marshal(data interface{}, err error, NS string) ([]byte, error) {
 	respEnv := toSendEnvelope{XMLNS: NS}
 	if err != nil {
 		respEnv.Body.Fault = &toSendFault{Reason: err.Error()}
+	} else {
+		respEnv.Body.Content = data
 	}
-	respEnv.Body.Content = data
 
 	return xml.Marshal(respEnv)
 }
diff --git a/soap/server.go b/soap/server.go
index c0fba7a..52aa5b0 100644
--- a/soap/server.go
+++ b/soap/server.go
@@ -22,21 +22,27 @@ func Handle(w http.ResponseWriter, r *http.Request, handle ocpp.MessageHandler)
 	reqEnv, err := Unmarshal(rawReq)
 
 	if err != nil {
-		return fmt.Errorf("couldn't decode request %w", err)
+		return reject(w, http.StatusBadRequest, fmt.Errorf("couldn't decode request %w", err))
 	}
 
 	req, ok := reqEnv.Body.Content.(messages.Request)
 	if !ok {
-		return errors.New("received message is not a request")
+		return reject(w, http.StatusBadRequest, errors.New("received message is not a request"))
+	}
+	if reqEnv.Header == nil {
+		return reject(w, http.StatusBadRequest, errors.New("received message has no header"))
 	}
 
 	resp, err := handle(req, reqEnv.Header.ChargeBoxIdentity)
+	if err == nil && resp == nil {
+		err = errors.New("no response")
+	}
 	if err != nil {
 		log.Error("couldn't handle request: %w", err)
 	}
 	rawResp, err := Marshal(resp, err, "http://www.w3.org/2003/05/soap-envelope")
 	if err != nil {
-		return fmt.Errorf("couldn't encode response: %w", err)
+		return reject(w, http.StatusInternalServerError, fmt.Errorf("couldn't encode response: %w", err))
 	}
 
 	log.Debug("Sending response with %d bytes", len(rawResp))
@@ -48,3 +54,19 @@ func Handle(w http.ResponseWriter, r *http.Request, handle ocpp.MessageHandler)
 	_, err = w.Write(rawResp)
 	return err
 }
+
+// reject answers a request that couldn't be handled with a
+// fault, and returns the error that was the reason for it
+func reject(w http.ResponseWriter, status int, reason error) error {
+	rawResp, err := Marshal(nil, reason, "http://www.w3.org/2003/05/soap-envelope")
+	if err != nil {
+		return err
+	}
+	w.Header().Set("Content-Type", "application/soap+xml")
+	w.WriteHeader(status)
+	_, err = w.Write(rawResp)
+	if err != nil {
+		return err
+	}
+	return reason
+}
-- 
2.43.0


From e8ae6438541f0291e3c538edf1c3404f5e4fa77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 27/44] fix: HTTP headers that do not describe the SOAP message

Responses claimed to be deflated, which they never were, and requests had two
different Content-Type headers.
---
 soap/client.go | 3 +--
 soap/server.go | 1 -
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/soap/client.go b/soap/client.go
index 8600153..8a9e0e1 100644
--- a/soap/client.go
+++ b/soap/client.go
@@ -77,8 +77,7 @@ func (s *Client) Call(soapAction string, request messages.Request, response mess
 		return err
 	}
 
-	req.Header.Add("Content-Type", "application/soap+xml")
-	req.Header.Add("Content-Type", "application/xml; charset=utf-8")
+	req.Header.Set("Content-Type", "application/soap+xml; charset=utf-8")
 
 	req.Close = true
 
diff --git a/soap/server.go b/soap/server.go
index 52aa5b0..8204175 100644
--- a/soap/server.go
+++ b/soap/server.go
@@ -49,7 +49,6 @@ func Handle(w http.ResponseWriter, r *http.Request, handle ocpp.MessageHandler)
 	log.Debug("Sending raw response: %s", string(rawResp))
 
 	w.Header().Set("Content-Type", "application/soap+xml")
-	w.Header().Set("Content-Encoding", "deflate")
 
 	_, err = w.Write(rawResp)
 	return err
-- 
2.43.0


From 1d931e013fcc95a545b63262f0db49356e6358da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 28/44] fix: SOAP faults have the structure that SOAP 1.2
 defines

The text of the error was in an element that no receiver, including this
library, looks at, so Send returned an error without text.
---
 soap/marshal.go |  2 +-
 soap/models.go  | 24 ++++++++++++++++++------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/soap/marshal.go b/soap/marshal.go
index 7f8717b..0bafa20 100644
--- a/soap/marshal.go
+++ b/soap/marshal.go
@@ -22,7 +22,7 @@ func Unmarshal(data []byte) (receivedEnvelope, error) {
 func Marshal(data interface{}, err error, NS string) ([]byte, error) {
 	respEnv := toSendEnvelope{XMLNS: NS}
 	if err != nil {
-		respEnv.Body.Fault = &toSendFault{Reason: err.Error()}
+		respEnv.Body.Fault = newFault(err)
 	} else {
 		respEnv.Body.Content = data
 	}
diff --git a/soap/models.go b/soap/models.go
index c1be438..39605b9 100644
--- a/soap/models.go
+++ b/soap/models.go
@@ -49,6 +49,9 @@ type receivedFault struct {
 }
 
 func (f *receivedFault) Error() string {
+	if f.Reason.Text == "" {
+		return f.String
+	}
 	return f.Reason.Text
 }
 
@@ -86,13 +89,22 @@ type toSendBody struct {
 type toSendFault struct {
 	XMLName xml.Name `xml:"S:Fault,omitempty"`
 
-	Code   string `xml:"Code,omitempty"`
-	Reason string `xml:"reason,omitempty"`
-	String string `xml:"faultstring,omitempty"`
-	Actor  string `xml:"faultactor,omitempty"`
-	Detail string `xml:"detail,omitempty"`
+	Code   string          `xml:"S:Code>S:Value"`
+	Reason toSendFaultText `xml:"S:Reason>S:Text"`
+}
+
+type toSendFaultText struct {
+	Lang string `xml:"xml:lang,attr"`
+	Text string `xml:",chardata"`
+}
+
+func newFault(err error) *toSendFault {
+	return &toSendFault{
+		Code:   "S:Receiver",
+		Reason: toSendFaultText{Lang: "en", Text: err.Error()},
+	}
 }
 
 func (f *toSendFault) Error() string {
-	return f.Reason
+	return f.Reason.Text
 }
-- 
2.43.0


From 3d44d74420c1a2dcfbcbde776dcd9542ddb7efce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 29/44] fix: a SOAP response that is not the expected one is an
 error

An empty or mismatched response made Send panic, and the HTTP status was
ignored unless the body was empty.
---
 soap/client.go | 14 ++++++++++++--
 soap/server.go |  8 +++++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/soap/client.go b/soap/client.go
index 8a9e0e1..f516a79 100644
--- a/soap/client.go
+++ b/soap/client.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/xml"
 	"errors"
+	"fmt"
 	"io/ioutil"
 	"net"
 	"net/http"
@@ -94,7 +95,10 @@ func (s *Client) Call(soapAction string, request messages.Request, response mess
 	}
 	defer res.Body.Close()
 
-	rawbody, _ := ioutil.ReadAll(res.Body)
+	rawbody, err := ioutil.ReadAll(res.Body)
+	if err != nil {
+		return err
+	}
 
 	if len(rawbody) == 0 && res.StatusCode != http.StatusOK {
 		return errors.New("response returned with a non-OK status code: " + res.Status)
@@ -109,10 +113,16 @@ func (s *Client) Call(soapAction string, request messages.Request, response mess
 	if fault != nil {
 		return fault
 	}
+	if res.StatusCode != http.StatusOK {
+		return errors.New("response returned with a non-OK status code: " + res.Status)
+	}
+	if respEnvelope.Body.Content == nil {
+		return errors.New("response is empty")
+	}
 
 	respVal, contentVal := reflect.ValueOf(response), reflect.ValueOf(respEnvelope.Body.Content)
 	if respVal.Type() != contentVal.Type() {
-		panic("incompatible types:" + respVal.Type().String() + contentVal.Type().String())
+		return fmt.Errorf("expected %v as response, got %v", respVal.Type(), contentVal.Type())
 	}
 
 	respVal.Elem().Set(contentVal.Elem())
diff --git a/soap/server.go b/soap/server.go
index 8204175..8226a72 100644
--- a/soap/server.go
+++ b/soap/server.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io/ioutil"
 	"net/http"
+	"reflect"
 
 	"github.com/voltbras/go-ocpp/internal/log"
 
@@ -34,7 +35,7 @@ func Handle(w http.ResponseWriter, r *http.Request, handle ocpp.MessageHandler)
 	}
 
 	resp, err := handle(req, reqEnv.Header.ChargeBoxIdentity)
-	if err == nil && resp == nil {
+	if err == nil && isNil(resp) {
 		err = errors.New("no response")
 	}
 	if err != nil {
@@ -54,6 +55,11 @@ func Handle(w http.ResponseWriter, r *http.Request, handle ocpp.MessageHandler)
 	return err
 }
 
+func isNil(resp messages.Response) bool {
+	v := reflect.ValueOf(resp)
+	return !v.IsValid() || v.Kind() == reflect.Ptr && v.IsNil()
+}
+
 // reject answers a request that couldn't be handled with a
 // fault, and returns the error that was the reason for it
 func reject(w http.ResponseWriter, status int, reason error) error {
-- 
2.43.0


From d9f479edc6e0cbdf57efbb1413d1e2c206ade243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 30/44] fix: send required SOAP elements also when they are
 zero

connectorId 0 (the charge point itself), meterStart 0, heartbeatInterval 0
and so on were left out, although OCPP 1.5 requires these elements.
---
 messages/v1x/cpreq/messages.go  | 30 +++++++++++++++---------------
 messages/v1x/cpresp/messages.go | 10 +++++-----
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/messages/v1x/cpreq/messages.go b/messages/v1x/cpreq/messages.go
index 3ad9bb2..25023d9 100644
--- a/messages/v1x/cpreq/messages.go
+++ b/messages/v1x/cpreq/messages.go
@@ -14,7 +14,7 @@ type Authorize struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ authorizeRequest"`
 
-	IdTag string `json:"idTag" xml:"idTag,omitempty"`
+	IdTag string `json:"idTag" xml:"idTag"`
 }
 
 // BootNotification
@@ -23,9 +23,9 @@ type BootNotification struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ bootNotificationRequest"`
 
 	ChargeBoxSerialNumber   string `json:"chargeBoxSerialNumber,omitempty" xml:"chargeBoxSerialNumber,omitempty"`
-	ChargePointModel        string `json:"chargePointModel" xml:"chargePointModel,omitempty"`
+	ChargePointModel        string `json:"chargePointModel" xml:"chargePointModel"`
 	ChargePointSerialNumber string `json:"chargePointSerialNumber,omitempty" xml:"chargePointSerialNumber,omitempty"`
-	ChargePointVendor       string `json:"chargePointVendor" xml:"chargePointVendor,omitempty"`
+	ChargePointVendor       string `json:"chargePointVendor" xml:"chargePointVendor"`
 	FirmwareVersion         string `json:"firmwareVersion,omitempty" xml:"firmwareVersion,omitempty"`
 	Iccid                   string `json:"iccid,omitempty" xml:"iccid,omitempty"`
 	Imsi                    string `json:"imsi,omitempty" xml:"imsi,omitempty"`
@@ -40,7 +40,7 @@ type DataTransfer struct {
 
 	Data      string `json:"data,omitempty" xml:"data,omitempty"`
 	MessageId string `json:"messageId,omitempty" xml:"messageId,omitempty"`
-	VendorId  string `json:"vendorId" xml:"vendorId,omitempty"`
+	VendorId  string `json:"vendorId" xml:"vendorId"`
 }
 
 // DiagnosticsStatusNotification
@@ -48,7 +48,7 @@ type DiagnosticsStatusNotification struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ diagnosticsStatusNotificationRequest"`
 
-	Status string `json:"status" xml:"status,omitempty"`
+	Status string `json:"status" xml:"status"`
 }
 
 // FirmwareStatusNotification
@@ -56,7 +56,7 @@ type FirmwareStatusNotification struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ firmwareStatusNotificationRequest"`
 
-	Status string `json:"status" xml:"status,omitempty"`
+	Status string `json:"status" xml:"status"`
 }
 
 // Heartbeat
@@ -77,7 +77,7 @@ type MeterValues struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ meterValuesRequest"`
 
-	ConnectorId int `json:"connectorId" xml:"connectorId,omitempty"`
+	ConnectorId int `json:"connectorId" xml:"connectorId"`
 	// MeterValue in OCPP v1.5 is values
 	MeterValue    []*MeterValueItems `json:"meterValue" xml:"values,omitempty"`
 	TransactionId int32              `json:"transactionId,omitempty" xml:"transactionId,omitempty"`
@@ -101,9 +101,9 @@ type StartTransaction struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ startTransactionRequest"`
 
-	ConnectorId   int       `json:"connectorId" xml:"connectorId,omitempty"`
-	IdTag         string    `json:"idTag" xml:"idTag,omitempty"`
-	MeterStart    int       `json:"meterStart" xml:"meterStart,omitempty"`
+	ConnectorId   int       `json:"connectorId" xml:"connectorId"`
+	IdTag         string    `json:"idTag" xml:"idTag"`
+	MeterStart    int       `json:"meterStart" xml:"meterStart"`
 	ReservationId int       `json:"reservationId,omitempty" xml:"reservationId,omitempty"`
 	Timestamp     time.Time `json:"timestamp" xml:"timestamp,omitempty"`
 }
@@ -113,10 +113,10 @@ type StatusNotification struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ statusNotificationRequest"`
 
-	ConnectorId     int                `json:"connectorId" xml:"connectorId,omitempty"`
-	ErrorCode       cpstatus.ErrorCode `json:"errorCode" xml:"errorCode,omitempty"`
+	ConnectorId     int                `json:"connectorId" xml:"connectorId"`
+	ErrorCode       cpstatus.ErrorCode `json:"errorCode" xml:"errorCode"`
 	Info            string             `json:"info,omitempty" xml:"info,omitempty"`
-	Status          string             `json:"status" xml:"status,omitempty"`
+	Status          string             `json:"status" xml:"status"`
 	Timestamp       *time.Time         `json:"timestamp,omitempty" xml:"timestamp,omitempty"`
 	VendorErrorCode string             `json:"vendorErrorCode,omitempty" xml:"vendorErrorCode,omitempty"`
 	VendorId        string             `json:"vendorId,omitempty" xml:"vendorId,omitempty"`
@@ -128,11 +128,11 @@ type StopTransaction struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ stopTransactionRequest"`
 
 	IdTag           string                  `json:"idTag,omitempty" xml:"idTag,omitempty"`
-	MeterStop       int                     `json:"meterStop" xml:"meterStop,omitempty"`
+	MeterStop       int                     `json:"meterStop" xml:"meterStop"`
 	Reason          string                  `json:"reason,omitempty" xml:"reason,omitempty"`
 	Timestamp       time.Time               `json:"timestamp" xml:"timestamp,omitempty"`
 	TransactionData []*TransactionDataItems `json:"transactionData,omitempty" xml:"transactionData,omitempty"`
-	TransactionId   int                     `json:"transactionId" xml:"transactionId,omitempty"`
+	TransactionId   int                     `json:"transactionId" xml:"transactionId"`
 }
 
 // TransactionDataItems
diff --git a/messages/v1x/cpresp/messages.go b/messages/v1x/cpresp/messages.go
index 933a6ba..ae77795 100644
--- a/messages/v1x/cpresp/messages.go
+++ b/messages/v1x/cpresp/messages.go
@@ -18,11 +18,11 @@ type BootNotification struct {
 	chargepointResponse
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ bootNotificationResponse"`
 
-	Status   string  `json:"status" xml:"status,omitempty"`
+	Status   string  `json:"status" xml:"status"`
 	CurrentTime time.Time `json:"currentTime" xml:"currentTime,omitempty"`
 
 	// Interval in 1.5 is heartbeatInterval
-	Interval float64 `json:"interval" xml:"heartbeatInterval,omitempty"`
+	Interval float64 `json:"interval" xml:"heartbeatInterval"`
 }
 
 // DataTransfer
@@ -31,7 +31,7 @@ type DataTransfer struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ dataTransferResponse"`
 
 	Data   string `json:"data,omitempty" xml:"data,omitempty"`
-	Status string `json:"status" xml:"status,omitempty"`
+	Status string `json:"status" xml:"status"`
 }
 
 // DiagnosticsStatusNotification
@@ -58,7 +58,7 @@ type Heartbeat struct {
 type IdTagInfo struct {
 	ExpiryDate  *time.Time `json:"expiryDate,omitempty" xml:"expiryDate,omitempty"`
 	ParentIdTag string     `json:"parentIdTag,omitempty" xml:"parentIdTag,omitempty"`
-	Status      string     `json:"status" xml:"status,omitempty"`
+	Status      string     `json:"status" xml:"status"`
 }
 
 // MeterValues
@@ -73,7 +73,7 @@ type StartTransaction struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ startTransactionResponse"`
 
 	IdTagInfo     *IdTagInfo `json:"idTagInfo" xml:"idTagInfo,omitempty"`
-	TransactionId int32      `json:"transactionId" xml:"transactionId,omitempty"`
+	TransactionId int32      `json:"transactionId" xml:"transactionId"`
 }
 
 // StatusNotification
-- 
2.43.0


From 707f200307280424bdaf2f3d2e5bb4076550e4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 31/44] fix: names of the OCPP 1.5 elements of transaction data
 and local list

They were sent under the names of OCPP 1.6, and therefore neither understood
by other implementations nor understood when those sent them.
---
 messages/v1x/cpreq/messages.go | 14 ++++++++------
 messages/v1x/csreq/messages.go |  5 +++--
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/messages/v1x/cpreq/messages.go b/messages/v1x/cpreq/messages.go
index 25023d9..2a29d82 100644
--- a/messages/v1x/cpreq/messages.go
+++ b/messages/v1x/cpreq/messages.go
@@ -127,17 +127,19 @@ type StopTransaction struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ stopTransactionRequest"`
 
-	IdTag           string                  `json:"idTag,omitempty" xml:"idTag,omitempty"`
-	MeterStop       int                     `json:"meterStop" xml:"meterStop"`
-	Reason          string                  `json:"reason,omitempty" xml:"reason,omitempty"`
-	Timestamp       time.Time               `json:"timestamp" xml:"timestamp,omitempty"`
-	TransactionData []*TransactionDataItems `json:"transactionData,omitempty" xml:"transactionData,omitempty"`
+	IdTag     string    `json:"idTag,omitempty" xml:"idTag,omitempty"`
+	MeterStop int       `json:"meterStop" xml:"meterStop"`
+	Reason    string    `json:"reason,omitempty" xml:"reason,omitempty"`
+	Timestamp time.Time `json:"timestamp" xml:"timestamp,omitempty"`
+	// TransactionData in OCPP v1.5 has a list of values
+	TransactionData []*TransactionDataItems `json:"transactionData,omitempty" xml:"transactionData>values,omitempty"`
 	TransactionId   int                     `json:"transactionId" xml:"transactionId"`
 }
 
 // TransactionDataItems
 type TransactionDataItems struct {
-	SampledValues []*SampledValue `json:"sampledValue" xml:"sampledValue,omitempty"`
+	// SampledValues in OCPP v1.5 is value
+	SampledValues []*SampledValue `json:"sampledValue" xml:"value,omitempty"`
 	Timestamp     time.Time       `json:"timestamp" xml:"timestamp,omitempty"`
 }
 
diff --git a/messages/v1x/csreq/messages.go b/messages/v1x/csreq/messages.go
index b06c35d..dd17bec 100644
--- a/messages/v1x/csreq/messages.go
+++ b/messages/v1x/csreq/messages.go
@@ -182,8 +182,9 @@ type SendLocalList struct {
 	centralSystemRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ sendLocalListRequest"`
 
-	ListVersion            int                            `json:"listVersion" xml:"listVersion"`
-	LocalAuthorizationList []*LocalAuthorizationListItems `json:"localAuthorizationList,omitempty" xml:"localAuthorizationList,omitempty"`
+	ListVersion int `json:"listVersion" xml:"listVersion"`
+	// LocalAuthorizationList in OCPP v1.5 is localAuthorisationList
+	LocalAuthorizationList []*LocalAuthorizationListItems `json:"localAuthorizationList,omitempty" xml:"localAuthorisationList,omitempty"`
 	UpdateType             string                         `json:"updateType" xml:"updateType"`
 }
 
-- 
2.43.0


From 5feb1662143b7132ea7f9226a4d6a549072e6b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:20 +0000
Subject: [PATCH 32/44] fix: send the chargeBoxIdentity in the namespace of the
 central system

To a central system it was sent in the namespace of the charge point service.
---
 soap/client.go | 13 ++++++++++++-
 soap/models.go |  7 ++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/soap/client.go b/soap/client.go
index f516a79..eca60d6 100644
--- a/soap/client.go
+++ b/soap/client.go
@@ -14,10 +14,17 @@ import (
 	"github.com/voltbras/go-ocpp/internal"
 	"github.com/voltbras/go-ocpp/internal/log"
 	"github.com/voltbras/go-ocpp/messages"
+	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
 
 	"github.com/google/uuid"
 )
 
+// namespaces of the OCPP v1.5 services
+const (
+	chargePointNS   = "urn://Ocpp/Cp/2012/06/"
+	centralSystemNS = "urn://Ocpp/Cs/2012/06/"
+)
+
 type Client struct {
 	url string
 }
@@ -50,7 +57,11 @@ func (s *Client) Call(soapAction string, request messages.Request, response mess
 	}
 	if options != nil {
 		envelope.Header.From = toSendFrom(options.From)
-		envelope.Header.ChargeBoxIdentity = options.ChargeBoxIdentity
+		envelope.Header.ChargeBoxIdentity.Identity = options.ChargeBoxIdentity
+	}
+	envelope.Header.ChargeBoxIdentity.XMLName = xml.Name{Space: chargePointNS, Local: "chargeBoxIdentity"}
+	if _, ok := request.(cpreq.ChargePointRequest); ok {
+		envelope.Header.ChargeBoxIdentity.XMLName.Space = centralSystemNS
 	}
 	envelope.Body.Content = request
 	buffer := new(bytes.Buffer)
diff --git a/soap/models.go b/soap/models.go
index 39605b9..e93c037 100644
--- a/soap/models.go
+++ b/soap/models.go
@@ -76,7 +76,12 @@ type toSendHeader struct {
 	Action            string `xml:"wsa5:Action"`
 	MessageID         string `xml:"wsa5:MessageID"`
 	From              toSendFrom
-	ChargeBoxIdentity string `xml:"urn://Ocpp/Cp/2012/06/ chargeBoxIdentity"`
+	ChargeBoxIdentity toSendIdentity
+}
+
+type toSendIdentity struct {
+	XMLName  xml.Name // in the namespace of the receiving service
+	Identity string   `xml:",chardata"`
 }
 
 type toSendBody struct {
-- 
2.43.0


From 9ff480b4ffd4d559415b28cd16edfec834e1ac31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 33/44] fix: an ID tag without expiry date can be sent in a
 local list

---
 messages/v1x/csreq/json_encode.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/messages/v1x/csreq/json_encode.go b/messages/v1x/csreq/json_encode.go
index 9c73242..56023a1 100644
--- a/messages/v1x/csreq/json_encode.go
+++ b/messages/v1x/csreq/json_encode.go
@@ -823,16 +823,18 @@ func (m *IdTagInfo) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "expiryDate" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"expiryDate\": ")
-	if tmp, err := json.Marshal(m.ExpiryDate.Format(time.RFC3339)); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ExpiryDate != nil {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"expiryDate\": ")
+		if tmp, err := json.Marshal(m.ExpiryDate.Format(time.RFC3339)); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "parentIdTag" field
 	if comma {
 		buf.WriteString(",")
-- 
2.43.0


From 488bfe803a67c55d29712a9a2ca6d169f8ac68ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 34/44] fix: decode expiry date and parent of ID tags in
 received local lists

---
 messages/v1x/csreq/json_encode.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/messages/v1x/csreq/json_encode.go b/messages/v1x/csreq/json_encode.go
index 56023a1..76957b7 100644
--- a/messages/v1x/csreq/json_encode.go
+++ b/messages/v1x/csreq/json_encode.go
@@ -874,6 +874,14 @@ func (m *IdTagInfo) UnmarshalJSON(b []byte) error {
 	// parse all the defined properties
 	for k, v := range jsonMap {
 		switch k {
+		case "expiryDate":
+			if err := json.Unmarshal([]byte(v), &m.ExpiryDate); err != nil {
+				return err
+			}
+		case "parentIdTag":
+			if err := json.Unmarshal([]byte(v), &m.ParentIdTag); err != nil {
+				return err
+			}
 		case "status":
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
-- 
2.43.0


From 01b511ed797757af88299268f20130eec04ffe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 35/44] fix: consider every line of the subprotocols a charge
 point offers

---
 ws/conn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ws/conn.go b/ws/conn.go
index 3c48b53..bda2644 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -108,6 +108,12 @@ func Handshake(w http.ResponseWriter, r *http.Request, supportedVersions []ocpp.
 	for _, v := range supportedVersions {
 		upgrader.Subprotocols = append(upgrader.Subprotocols, ocppVersionToProtocol(v))
 	}
+	// it looks only at the first line of the offer
+	if offers := r.Header.Values("Sec-WebSocket-Protocol"); len(offers) > 1 {
+		r = r.WithContext(r.Context())
+		r.Header = r.Header.Clone()
+		r.Header.Set("Sec-WebSocket-Protocol", strings.Join(offers, ","))
+	}
 	socket, err := upgrader.Upgrade(w, r, nil)
 	conn := newConn(socket)
 	conn.newDataTransfer = func() messages.Request { return &cpreq.DataTransfer{} }
-- 
2.43.0


From 96a3adad3fef853b46c3b6f362fbb2c2720eccf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 36/44] fix: tell the two DataTransfer messages apart over SOAP

---
 soap/marshal.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/soap/marshal.go b/soap/marshal.go
index 0bafa20..a71d30d 100644
--- a/soap/marshal.go
+++ b/soap/marshal.go
@@ -111,6 +111,9 @@ func (b *receivedBody) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 				msg = new(csreq.CancelReservation)
 			case "dataTransferRequest":
 				msg = new(csreq.DataTransfer)
+				if tt.Name.Space == centralSystemNS {
+					msg = new(cpreq.DataTransfer)
+				}
 			case "getConfigurationRequest":
 				msg = new(csreq.GetConfiguration)
 			case "getLocalListVersionRequest":
@@ -143,6 +146,9 @@ func (b *receivedBody) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 				msg = new(csresp.CancelReservation)
 			case "dataTransferResponse":
 				msg = new(csresp.DataTransfer)
+				if tt.Name.Space == centralSystemNS {
+					msg = new(cpresp.DataTransfer)
+				}
 			case "getConfigurationResponse":
 				msg = new(csresp.GetConfiguration)
 			case "getLocalListVersionResponse":
-- 
2.43.0


From 0b13d1ee27f7489b6080876aea9bf334f3e0f888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 37/44] fix: order of the elements of OCPP 1.5 messages

---
 messages/v1x/cpreq/messages.go  | 36 ++++++++++++++++-----------------
 messages/v1x/cpresp/messages.go |  8 ++++----
 messages/v1x/csreq/messages.go  | 18 ++++++++---------
 messages/v1x/csresp/messages.go |  2 +-
 4 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/messages/v1x/cpreq/messages.go b/messages/v1x/cpreq/messages.go
index 2a29d82..dbf1b0d 100644
--- a/messages/v1x/cpreq/messages.go
+++ b/messages/v1x/cpreq/messages.go
@@ -22,15 +22,15 @@ type BootNotification struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ bootNotificationRequest"`
 
-	ChargeBoxSerialNumber   string `json:"chargeBoxSerialNumber,omitempty" xml:"chargeBoxSerialNumber,omitempty"`
+	ChargePointVendor       string `json:"chargePointVendor" xml:"chargePointVendor"`
 	ChargePointModel        string `json:"chargePointModel" xml:"chargePointModel"`
 	ChargePointSerialNumber string `json:"chargePointSerialNumber,omitempty" xml:"chargePointSerialNumber,omitempty"`
-	ChargePointVendor       string `json:"chargePointVendor" xml:"chargePointVendor"`
+	ChargeBoxSerialNumber   string `json:"chargeBoxSerialNumber,omitempty" xml:"chargeBoxSerialNumber,omitempty"`
 	FirmwareVersion         string `json:"firmwareVersion,omitempty" xml:"firmwareVersion,omitempty"`
 	Iccid                   string `json:"iccid,omitempty" xml:"iccid,omitempty"`
 	Imsi                    string `json:"imsi,omitempty" xml:"imsi,omitempty"`
-	MeterSerialNumber       string `json:"meterSerialNumber,omitempty" xml:"meterSerialNumber,omitempty"`
 	MeterType               string `json:"meterType,omitempty" xml:"meterType,omitempty"`
+	MeterSerialNumber       string `json:"meterSerialNumber,omitempty" xml:"meterSerialNumber,omitempty"`
 }
 
 // DataTransfer
@@ -38,9 +38,9 @@ type DataTransfer struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ dataTransferRequest"`
 
-	Data      string `json:"data,omitempty" xml:"data,omitempty"`
-	MessageId string `json:"messageId,omitempty" xml:"messageId,omitempty"`
 	VendorId  string `json:"vendorId" xml:"vendorId"`
+	MessageId string `json:"messageId,omitempty" xml:"messageId,omitempty"`
+	Data      string `json:"data,omitempty" xml:"data,omitempty"`
 }
 
 // DiagnosticsStatusNotification
@@ -67,9 +67,9 @@ type Heartbeat struct {
 
 // MeterValueItems
 type MeterValueItems struct {
+	Timestamp time.Time `json:"timestamp" xml:"timestamp,omitempty"`
 	// SampledValues in OCPP v1.5 is value
 	SampledValues []*SampledValue `json:"sampledValue" xml:"value,omitempty"`
-	Timestamp     time.Time       `json:"timestamp" xml:"timestamp,omitempty"`
 }
 
 // MeterValues
@@ -77,10 +77,10 @@ type MeterValues struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ meterValuesRequest"`
 
-	ConnectorId int `json:"connectorId" xml:"connectorId"`
+	ConnectorId   int   `json:"connectorId" xml:"connectorId"`
+	TransactionId int32 `json:"transactionId,omitempty" xml:"transactionId,omitempty"`
 	// MeterValue in OCPP v1.5 is values
-	MeterValue    []*MeterValueItems `json:"meterValue" xml:"values,omitempty"`
-	TransactionId int32              `json:"transactionId,omitempty" xml:"transactionId,omitempty"`
+	MeterValue []*MeterValueItems `json:"meterValue" xml:"values,omitempty"`
 }
 
 // SampledValue
@@ -103,9 +103,9 @@ type StartTransaction struct {
 
 	ConnectorId   int       `json:"connectorId" xml:"connectorId"`
 	IdTag         string    `json:"idTag" xml:"idTag"`
+	Timestamp     time.Time `json:"timestamp" xml:"timestamp,omitempty"`
 	MeterStart    int       `json:"meterStart" xml:"meterStart"`
 	ReservationId int       `json:"reservationId,omitempty" xml:"reservationId,omitempty"`
-	Timestamp     time.Time `json:"timestamp" xml:"timestamp,omitempty"`
 }
 
 // StatusNotification
@@ -114,12 +114,12 @@ type StatusNotification struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ statusNotificationRequest"`
 
 	ConnectorId     int                `json:"connectorId" xml:"connectorId"`
+	Status          string             `json:"status" xml:"status"`
 	ErrorCode       cpstatus.ErrorCode `json:"errorCode" xml:"errorCode"`
 	Info            string             `json:"info,omitempty" xml:"info,omitempty"`
-	Status          string             `json:"status" xml:"status"`
 	Timestamp       *time.Time         `json:"timestamp,omitempty" xml:"timestamp,omitempty"`
-	VendorErrorCode string             `json:"vendorErrorCode,omitempty" xml:"vendorErrorCode,omitempty"`
 	VendorId        string             `json:"vendorId,omitempty" xml:"vendorId,omitempty"`
+	VendorErrorCode string             `json:"vendorErrorCode,omitempty" xml:"vendorErrorCode,omitempty"`
 }
 
 // StopTransaction
@@ -127,20 +127,20 @@ type StopTransaction struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ stopTransactionRequest"`
 
-	IdTag     string    `json:"idTag,omitempty" xml:"idTag,omitempty"`
-	MeterStop int       `json:"meterStop" xml:"meterStop"`
-	Reason    string    `json:"reason,omitempty" xml:"reason,omitempty"`
-	Timestamp time.Time `json:"timestamp" xml:"timestamp,omitempty"`
+	TransactionId int       `json:"transactionId" xml:"transactionId"`
+	IdTag         string    `json:"idTag,omitempty" xml:"idTag,omitempty"`
+	Timestamp     time.Time `json:"timestamp" xml:"timestamp,omitempty"`
+	MeterStop     int       `json:"meterStop" xml:"meterStop"`
 	// TransactionData in OCPP v1.5 has a list of values
 	TransactionData []*TransactionDataItems `json:"transactionData,omitempty" xml:"transactionData>values,omitempty"`
-	TransactionId   int                     `json:"transactionId" xml:"transactionId"`
+	Reason          string                  `json:"reason,omitempty" xml:"reason,omitempty"`
 }
 
 // TransactionDataItems
 type TransactionDataItems struct {
+	Timestamp time.Time `json:"timestamp" xml:"timestamp,omitempty"`
 	// SampledValues in OCPP v1.5 is value
 	SampledValues []*SampledValue `json:"sampledValue" xml:"value,omitempty"`
-	Timestamp     time.Time       `json:"timestamp" xml:"timestamp,omitempty"`
 }
 
 func (m *Authorize) Action() string                     { return "Authorize" }
diff --git a/messages/v1x/cpresp/messages.go b/messages/v1x/cpresp/messages.go
index ae77795..0e986a7 100644
--- a/messages/v1x/cpresp/messages.go
+++ b/messages/v1x/cpresp/messages.go
@@ -18,7 +18,7 @@ type BootNotification struct {
 	chargepointResponse
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ bootNotificationResponse"`
 
-	Status   string  `json:"status" xml:"status"`
+	Status      string    `json:"status" xml:"status"`
 	CurrentTime time.Time `json:"currentTime" xml:"currentTime,omitempty"`
 
 	// Interval in 1.5 is heartbeatInterval
@@ -30,8 +30,8 @@ type DataTransfer struct {
 	chargepointResponse
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ dataTransferResponse"`
 
-	Data   string `json:"data,omitempty" xml:"data,omitempty"`
 	Status string `json:"status" xml:"status"`
+	Data   string `json:"data,omitempty" xml:"data,omitempty"`
 }
 
 // DiagnosticsStatusNotification
@@ -56,9 +56,9 @@ type Heartbeat struct {
 
 // IdTagInfo
 type IdTagInfo struct {
+	Status      string     `json:"status" xml:"status"`
 	ExpiryDate  *time.Time `json:"expiryDate,omitempty" xml:"expiryDate,omitempty"`
 	ParentIdTag string     `json:"parentIdTag,omitempty" xml:"parentIdTag,omitempty"`
-	Status      string     `json:"status" xml:"status"`
 }
 
 // MeterValues
@@ -72,8 +72,8 @@ type StartTransaction struct {
 	chargepointResponse
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ startTransactionResponse"`
 
-	IdTagInfo     *IdTagInfo `json:"idTagInfo" xml:"idTagInfo,omitempty"`
 	TransactionId int32      `json:"transactionId" xml:"transactionId"`
+	IdTagInfo     *IdTagInfo `json:"idTagInfo" xml:"idTagInfo,omitempty"`
 }
 
 // StatusNotification
diff --git a/messages/v1x/csreq/messages.go b/messages/v1x/csreq/messages.go
index dd17bec..bac7ed6 100644
--- a/messages/v1x/csreq/messages.go
+++ b/messages/v1x/csreq/messages.go
@@ -85,9 +85,9 @@ type DataTransfer struct {
 	centralSystemRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ dataTransferRequest"`
 
-	Data      string `json:"data,omitempty" xml:"data,omitempty"`
-	MessageId string `json:"messageId,omitempty" xml:"messageId,omitempty"`
 	VendorId  string `json:"vendorId" xml:"vendorId"`
+	MessageId string `json:"messageId,omitempty" xml:"messageId,omitempty"`
+	Data      string `json:"data,omitempty" xml:"data,omitempty"`
 }
 
 // GetCompositeSchedule
@@ -114,10 +114,10 @@ type GetDiagnostics struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ getDiagnosticsRequest"`
 
 	Location      string     `json:"location" xml:"location"`
-	Retries       int        `json:"retries,omitempty" xml:"retries,omitempty"`
-	RetryInterval int        `json:"retryInterval,omitempty" xml:"retryInterval,omitempty"`
 	StartTime     *time.Time `json:"startTime,omitempty" xml:"startTime,omitempty"`
 	StopTime      *time.Time `json:"stopTime,omitempty" xml:"stopTime,omitempty"`
+	Retries       int        `json:"retries,omitempty" xml:"retries,omitempty"`
+	RetryInterval int        `json:"retryInterval,omitempty" xml:"retryInterval,omitempty"`
 }
 
 // GetLocalListVersion
@@ -128,9 +128,9 @@ type GetLocalListVersion struct {
 
 // IdTagInfo
 type IdTagInfo struct {
+	Status      string     `json:"status" xml:"status"`
 	ExpiryDate  *time.Time `json:"expiryDate,omitempty" xml:"expiryDate,omitempty"`
 	ParentIdTag string     `json:"parentIdTag,omitempty" xml:"parentIdTag,omitempty"`
-	Status      string     `json:"status" xml:"status"`
 }
 
 // LocalAuthorizationListItems
@@ -145,8 +145,8 @@ type RemoteStartTransaction struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ remoteStartTransactionRequest"`
 
 	IdTag           string           `json:"idTag" xml:"idTag"`
-	ChargingProfile *ChargingProfile `json:"chargingProfile,omitempty" xml:"chargingProfile,omitempty"`
 	ConnectorId     int32            `json:"connectorId,omitempty" xml:"connectorId,omitempty"`
+	ChargingProfile *ChargingProfile `json:"chargingProfile,omitempty" xml:"chargingProfile,omitempty"`
 }
 
 // RemoteStopTransaction
@@ -182,10 +182,10 @@ type SendLocalList struct {
 	centralSystemRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ sendLocalListRequest"`
 
-	ListVersion int `json:"listVersion" xml:"listVersion"`
+	UpdateType  string `json:"updateType" xml:"updateType"`
+	ListVersion int    `json:"listVersion" xml:"listVersion"`
 	// LocalAuthorizationList in OCPP v1.5 is localAuthorisationList
 	LocalAuthorizationList []*LocalAuthorizationListItems `json:"localAuthorizationList,omitempty" xml:"localAuthorisationList,omitempty"`
-	UpdateType             string                         `json:"updateType" xml:"updateType"`
 }
 
 // TriggerMessage
@@ -210,9 +210,9 @@ type UpdateFirmware struct {
 	centralSystemRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ updateFirmwareRequest"`
 
+	RetrieveDate  time.Time `json:"retrieveDate" xml:"retrieveDate"`
 	Location      string    `json:"location" xml:"location"`
 	Retries       float64   `json:"retries,omitempty" xml:"retries,omitempty"`
-	RetrieveDate  time.Time `json:"retrieveDate" xml:"retrieveDate"`
 	RetryInterval float64   `json:"retryInterval,omitempty" xml:"retryInterval,omitempty"`
 }
 
diff --git a/messages/v1x/csresp/messages.go b/messages/v1x/csresp/messages.go
index 59c126a..3f299a4 100644
--- a/messages/v1x/csresp/messages.go
+++ b/messages/v1x/csresp/messages.go
@@ -73,8 +73,8 @@ type DataTransfer struct {
 	centralSystemResponse
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ dataTransferResponse"`
 
-	Data   string `json:"data,omitempty" xml:"data,omitempty"`
 	Status string `json:"status" xml:"status"`
+	Data   string `json:"data,omitempty" xml:"data,omitempty"`
 }
 
 // GetCompositeSchedule
-- 
2.43.0


From c2acf0e38235d4a23d99ab71b816a22049924b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 38/44] fix: keep empty keys in the lists of GetConfiguration
 over SOAP

---
 messages/v1x/csreq/messages.go  | 2 +-
 messages/v1x/csresp/messages.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/messages/v1x/csreq/messages.go b/messages/v1x/csreq/messages.go
index bac7ed6..31a2f1f 100644
--- a/messages/v1x/csreq/messages.go
+++ b/messages/v1x/csreq/messages.go
@@ -105,7 +105,7 @@ type GetConfiguration struct {
 	centralSystemRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ getConfigurationRequest"`
 
-	Key []string `json:"key,omitempty" xml:"key,omitempty"`
+	Key []string `json:"key,omitempty" xml:"key"`
 }
 
 // GetDiagnostics
diff --git a/messages/v1x/csresp/messages.go b/messages/v1x/csresp/messages.go
index 3f299a4..53c8008 100644
--- a/messages/v1x/csresp/messages.go
+++ b/messages/v1x/csresp/messages.go
@@ -94,7 +94,7 @@ type GetConfiguration struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ getConfigurationResponse"`
 
 	ConfigurationKey []*ConfigurationKeyItems `json:"configurationKey,omitempty" xml:"configurationKey,omitempty"`
-	UnknownKey       []string                 `json:"unknownKey,omitempty" xml:"unknownKey,omitempty"`
+	UnknownKey       []string                 `json:"unknownKey,omitempty" xml:"unknownKey"`
 }
 
 // GetDiagnostics
-- 
2.43.0


From 5f44999cc122becad4ddc9913a5aed139ff1eed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 39/44] fix: integers of OCPP 1.5 messages without an exponent

---
 messages/v1x/cpresp/xml_encode.go | 28 ++++++++++++++++++++++++++++
 messages/v1x/csreq/xml_encode.go  | 30 ++++++++++++++++++++++++++++++
 2 files changed, 58 insertions(+)
 create mode 100644 messages/v1x/cpresp/xml_encode.go
 create mode 100644 messages/v1x/csreq/xml_encode.go

diff --git a/messages/v1x/cpresp/xml_encode.go b/messages/v1x/cpresp/xml_encode.go
new file mode 100644
index 0000000..665183e
--- /dev/null
+++ b/messages/v1x/cpresp/xml_encode.go
@@ -0,0 +1,28 @@
+package cpresp
+
+import (
+	"encoding/xml"
+	"strconv"
+	"time"
+)
+
+// integer is a number that OCPP 1.5 defines as xs:int, which has no exponent
+type integer float64
+
+func (i integer) MarshalText() ([]byte, error) {
+	return strconv.AppendFloat(nil, float64(i), 'f', -1, 64), nil
+}
+
+// MarshalXML implements xml.Marshaler
+func (m BootNotification) MarshalXML(e *xml.Encoder, _ xml.StartElement) error {
+	return e.Encode(struct {
+		XMLName     xml.Name  `xml:"urn://Ocpp/Cs/2012/06/ bootNotificationResponse"`
+		Status      string    `xml:"status"`
+		CurrentTime time.Time `xml:"currentTime"`
+		Interval    integer   `xml:"heartbeatInterval"`
+	}{
+		Status:      m.Status,
+		CurrentTime: m.CurrentTime,
+		Interval:    integer(m.Interval),
+	})
+}
diff --git a/messages/v1x/csreq/xml_encode.go b/messages/v1x/csreq/xml_encode.go
new file mode 100644
index 0000000..0f81ad3
--- /dev/null
+++ b/messages/v1x/csreq/xml_encode.go
@@ -0,0 +1,30 @@
+package csreq
+
+import (
+	"encoding/xml"
+	"strconv"
+	"time"
+)
+
+// integer is a number that OCPP 1.5 defines as xs:int, which has no exponent
+type integer float64
+
+func (i integer) MarshalText() ([]byte, error) {
+	return strconv.AppendFloat(nil, float64(i), 'f', -1, 64), nil
+}
+
+// MarshalXML implements xml.Marshaler
+func (m UpdateFirmware) MarshalXML(e *xml.Encoder, _ xml.StartElement) error {
+	return e.Encode(struct {
+		XMLName       xml.Name  `xml:"urn://Ocpp/Cp/2012/06/ updateFirmwareRequest"`
+		RetrieveDate  time.Time `xml:"retrieveDate"`
+		Location      string    `xml:"location"`
+		Retries       integer   `xml:"retries,omitempty"`
+		RetryInterval integer   `xml:"retryInterval,omitempty"`
+	}{
+		RetrieveDate:  m.RetrieveDate,
+		Location:      m.Location,
+		Retries:       integer(m.Retries),
+		RetryInterval: integer(m.RetryInterval),
+	})
+}
-- 
2.43.0


From ebc5b67dfa1a2f5af552a4903d14bc897d5614b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:26 +0000
Subject: [PATCH 40/44] fix: stop a handshake in progress when the context is
 cancelled

---
 ws/conn.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ws/conn.go b/ws/conn.go
index bda2644..1dd68b2 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"net"
 	"net/http"
 	"net/url"
 	"strings"
@@ -75,6 +76,23 @@ func DialContext(ctx context.Context, identity, csURL string, version ocpp.Versi
 		HandshakeTimeout: internal.DefaultRequestTimeout,
 		Subprotocols:     []string{ocppVersionToProtocol(version)},
 	}
+	// the dialer looks at the context only until the handshake begins
+	finished := make(chan struct{})
+	defer close(finished)
+	dialer.NetDialContext = func(dialCtx context.Context, network, addr string) (net.Conn, error) {
+		conn, err := (&net.Dialer{}).DialContext(dialCtx, network, addr)
+		if err != nil {
+			return nil, err
+		}
+		go func() {
+			select {
+			case <-ctx.Done():
+				conn.Close()
+			case <-finished:
+			}
+		}()
+		return conn, nil
+	}
 	socket, _, err := dialer.DialContext(ctx, strings.TrimSuffix(csURL, "/")+"/"+url.PathEscape(identity), http.Header{})
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 137bf7b3eb82b50b3235252b0f53f6b9ed23c133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:34 +0000
Subject: [PATCH 41/44] fix: data race between setting the loggers and logging,
 percent signs in logged errors

---
 internal/log/log.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/internal/log/log.go b/internal/log/log.go
index 8b065d4..16af98b 100644
--- a/internal/log/log.go
+++ b/internal/log/log.go
@@ -1,10 +1,14 @@
 package log
 
-import "fmt"
+import (
+	"fmt"
+	"sync"
+)
 
 type nilLogger struct {}
 func (nl *nilLogger) Printf(format string, v ...interface{}) {}
 
+var mux sync.RWMutex // guards the loggers
 var errorLog Logger = new(nilLogger)
 var debugLog Logger = new(nilLogger)
 
@@ -12,12 +16,26 @@ type Logger interface {
 	Printf(format string, v ...interface{})
 }
 
-func SetErrorLogger(logger Logger) { errorLog = logger }
-func SetDebugLogger(logger Logger) { debugLog = logger }
+func SetErrorLogger(logger Logger) {
+	mux.Lock()
+	defer mux.Unlock()
+	errorLog = logger
+}
+func SetDebugLogger(logger Logger) {
+	mux.Lock()
+	defer mux.Unlock()
+	debugLog = logger
+}
 
 func Debug(format string, v ...interface{}) {
-	debugLog.Printf(format, v...)
+	mux.RLock()
+	logger := debugLog
+	mux.RUnlock()
+	logger.Printf(format, v...)
 }
 func Error(format string, v ...interface{}) {
-	errorLog.Printf(fmt.Errorf(format, v...).Error())
+	mux.RLock()
+	logger := errorLog
+	mux.RUnlock()
+	logger.Printf("%s", fmt.Errorf(format, v...).Error())
 }
\ No newline at end of file
-- 
2.43.0


From fd412d52115a56143b968451559c7604e89172d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:35 +0000
Subject: [PATCH 42/44] fix: numbers of received messages that do not fit into
 a float64

---
 ws/conn.go    | 19 +++++++++++++++----
 ws/payload.go | 30 ++++++++++++++++++++++++------
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/ws/conn.go b/ws/conn.go
index 1dd68b2..5d5f047 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"io"
 	"net"
 	"net/http"
 	"net/url"
@@ -176,15 +177,25 @@ var (
 
 func UnmarshalMessage(msg []byte) (Message, error) {
 	var frame []interface{}
-	err := json.Unmarshal(msg, &frame)
+	// numbers that don't fit into a float64 are kept as they are
+	decoder := json.NewDecoder(bytes.NewReader(msg))
+	decoder.UseNumber()
+	err := decoder.Decode(&frame)
 	if err != nil {
 		return nil, fmt.Errorf("on unmarshalling websocket message: %w", err)
 	}
+	if _, err := decoder.Token(); err != io.EOF {
+		return nil, errors.New("websocket message has data after its end")
+	}
 	if len(frame) < 3 {
 		return nil, fmt.Errorf("message has only %d fields", len(frame))
 	}
-	msgType, ok := frame[0].(float64)
+	typeNumber, ok := frame[0].(json.Number)
 	if !ok {
+		return nil, errors.New("first field is not a message type")
+	}
+	msgType, err := typeNumber.Float64()
+	if err != nil {
 		return nil, fmt.Errorf("first field is not a message type: %w", err)
 	}
 	idStr, ok := frame[1].(string)
@@ -322,7 +333,7 @@ func (c *Conn) callToRequest(call *CallMessage) (messages.Request, ErrorCode) {
 	if req == nil {
 		return nil, NotSupported
 	}
-	if !removeNulls(call.Payload) {
+	if !normalize(call.Payload) {
 		return nil, FormationViolation
 	}
 	originalPayload, err := json.Marshal(call.Payload)
@@ -353,7 +364,7 @@ func (c *Conn) callResultToResponse(result *CallResultMessage, request messages.
 		return nil, NotSupported
 	}
 	resp := request.GetResponse()
-	if !removeNulls(result.Payload) {
+	if !normalize(result.Payload) {
 		return nil, FormationViolation
 	}
 	originalPayload, err := json.Marshal(result.Payload)
diff --git a/ws/payload.go b/ws/payload.go
index 1b8bb26..15a35b5 100644
--- a/ws/payload.go
+++ b/ws/payload.go
@@ -56,23 +56,41 @@ func omitUnset(encoded interface{}, value reflect.Value) {
 	}
 }
 
-// removeNulls removes the properties that are null from a received payload, as
-// if they were absent. It says if there was no null in a list
-func removeNulls(payload interface{}) bool {
+// normalize prepares a received payload for being decoded into a message. It
+// removes the properties that are null, as if they were absent, and writes
+// integers such as 1e2 or 3.0 without exponent and fraction. It says if there
+// was no null in a list
+func normalize(payload interface{}) bool {
 	ok := true
 	switch payload := payload.(type) {
 	case []interface{}:
-		for _, v := range payload {
-			ok = ok && v != nil && removeNulls(v)
+		for i, v := range payload {
+			payload[i] = plainNumber(v)
+			ok = ok && v != nil && normalize(v)
 		}
 	case map[string]interface{}:
 		for k, v := range payload {
 			if v == nil {
 				delete(payload, k)
 			} else {
-				ok = ok && removeNulls(v)
+				payload[k] = plainNumber(v)
+				ok = ok && normalize(v)
 			}
 		}
 	}
 	return ok
 }
+
+// plainNumber returns a number in its usual notation if it is
+// written with an exponent or a fraction, and other values as they are
+func plainNumber(v interface{}) interface{} {
+	number, ok := v.(json.Number)
+	if !ok || !strings.ContainsAny(number.String(), ".eE") {
+		return v
+	}
+	f, err := number.Float64()
+	if err != nil {
+		return v
+	}
+	return f
+}
-- 
2.43.0


From 03521e6a58bd7bbfea4719ffb91d333954b90820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:44 +0000
Subject: [PATCH 43/44] fix: instant of timestamps in zones with seconds

RFC 3339 can't express a zone such as +00:19:32 (local mean time), the
encodings left the seconds out and so shifted the instant. Such timestamps
are now sent in UTC.
---
 internal/timestamp.go | 22 ++++++++++++++++
 soap/client.go        |  2 +-
 soap/marshal.go       | 58 ++++++++++++++++++++++++++++++++++++++++++-
 ws/payload.go         |  8 +++++-
 4 files changed, 87 insertions(+), 3 deletions(-)
 create mode 100644 internal/timestamp.go

diff --git a/internal/timestamp.go b/internal/timestamp.go
new file mode 100644
index 0000000..10437f6
--- /dev/null
+++ b/internal/timestamp.go
@@ -0,0 +1,22 @@
+package internal
+
+import (
+	"reflect"
+	"time"
+)
+
+// HasZoneWithSeconds says if the value is a timestamp, or points to one, whose
+// zone isn't a whole number of minutes away from UTC. RFC 3339 can't express it
+// and time.Time's encodings silently leave the seconds out
+func HasZoneWithSeconds(value reflect.Value) (time.Time, bool) {
+	value = reflect.Indirect(value)
+	if !value.IsValid() || !value.CanInterface() {
+		return time.Time{}, false
+	}
+	t, ok := value.Interface().(time.Time)
+	if !ok {
+		return time.Time{}, false
+	}
+	_, offset := t.Zone()
+	return t, offset%60 != 0
+}
diff --git a/soap/client.go b/soap/client.go
index eca60d6..865c709 100644
--- a/soap/client.go
+++ b/soap/client.go
@@ -63,7 +63,7 @@ func (s *Client) Call(soapAction string, request messages.Request, response mess
 	if _, ok := request.(cpreq.ChargePointRequest); ok {
 		envelope.Header.ChargeBoxIdentity.XMLName.Space = centralSystemNS
 	}
-	envelope.Body.Content = request
+	envelope.Body.Content = encodable(request)
 	buffer := new(bytes.Buffer)
 
 	encoder := xml.NewEncoder(buffer)
diff --git a/soap/marshal.go b/soap/marshal.go
index a71d30d..f352793 100644
--- a/soap/marshal.go
+++ b/soap/marshal.go
@@ -3,7 +3,9 @@ package soap
 import (
 	"encoding/xml"
 	"errors"
+	"reflect"
 
+	"github.com/voltbras/go-ocpp/internal"
 	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
 	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
 	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
@@ -24,12 +26,66 @@ func Marshal(data interface{}, err error, NS string) ([]byte, error) {
 	if err != nil {
 		respEnv.Body.Fault = newFault(err)
 	} else {
-		respEnv.Body.Content = data
+		respEnv.Body.Content = encodable(data)
 	}
 
 	return xml.Marshal(respEnv)
 }
 
+// encodable returns the message with all its timestamps in zones that can be encoded
+func encodable(message interface{}) interface{} {
+	if copied, changed := withEncodableZones(reflect.ValueOf(message)); changed {
+		return copied.Interface()
+	}
+	return message
+}
+
+// withEncodableZones returns a copy of the message with the timestamps whose
+// zone has no encoding in UTC, or the message itself if there are none
+func withEncodableZones(value reflect.Value) (reflect.Value, bool) {
+	changed := false
+	switch value.Kind() {
+	case reflect.Ptr:
+		if value.IsNil() {
+			break
+		}
+		elem, ok := withEncodableZones(value.Elem())
+		if ok {
+			value = reflect.New(elem.Type())
+			value.Elem().Set(elem)
+		}
+		return value, ok
+	case reflect.Slice:
+		copied := reflect.MakeSlice(value.Type(), value.Len(), value.Len())
+		for i := 0; i < value.Len(); i++ {
+			elem, ok := withEncodableZones(value.Index(i))
+			copied.Index(i).Set(elem)
+			changed = changed || ok
+		}
+		if changed {
+			return copied, true
+		}
+	case reflect.Struct:
+		if t, ok := internal.HasZoneWithSeconds(value); ok {
+			return reflect.ValueOf(t.UTC()), true
+		}
+		copied := reflect.New(value.Type()).Elem()
+		copied.Set(value)
+		for i := 0; i < value.NumField(); i++ {
+			if !copied.Field(i).CanSet() {
+				continue
+			}
+			field, ok := withEncodableZones(value.Field(i))
+			copied.Field(i).Set(field)
+			changed = changed || ok
+		}
+		if changed {
+			return copied, true
+		}
+	}
+	return value, false
+}
+
 func (b *receivedBody) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	// decode inner elements
 	for {
diff --git a/ws/payload.go b/ws/payload.go
index 15a35b5..ab1b86f 100644
--- a/ws/payload.go
+++ b/ws/payload.go
@@ -5,6 +5,9 @@ import (
 	"encoding/json"
 	"reflect"
 	"strings"
+	"time"
+
+	"github.com/voltbras/go-ocpp/internal"
 )
 
 // marshalPayload encodes a message as a payload, without the optional
@@ -27,7 +30,8 @@ func marshalPayload(msg interface{}) (map[string]interface{}, error) {
 }
 
 // omitUnset removes from an encoded value the properties that are tagged
-// omitempty and not set, and encodes required lists that are nil as empty
+// omitempty and not set, encodes required lists that are nil as empty and
+// timestamps in zones that have no encoding in UTC
 func omitUnset(encoded interface{}, value reflect.Value) {
 	for value.Kind() == reflect.Ptr || value.Kind() == reflect.Interface {
 		value = value.Elem()
@@ -49,6 +53,8 @@ func omitUnset(encoded interface{}, value reflect.Value) {
 				delete(encoded, tag[0])
 			} else if field.Kind() == reflect.Slice && field.IsNil() {
 				encoded[tag[0]] = []interface{}{}
+			} else if t, ok := internal.HasZoneWithSeconds(field); ok {
+				encoded[tag[0]] = t.UTC().Format(time.RFC3339)
 			} else {
 				omitUnset(encoded[tag[0]], field)
 			}
-- 
2.43.0


From 0918433202fbded14ab1033c9d05464245f18994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:52 +0000
Subject: [PATCH 44/44] fix: reconnect of a charge point whose handler is still
 running

A handler that took long kept the loop that dials again from noticing that
the connection was lost. Requests now have their own goroutine.
---
 cp/json.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/cp/json.go b/cp/json.go
index d6cc1ec..c5a6ada 100644
--- a/cp/json.go
+++ b/cp/json.go
@@ -42,7 +42,10 @@ func (cp *chargePoint) getNewWebsocketConnection() error {
 	return nil
 }
 
+// keeps the connection up until the context is done. Requests have their own
+// goroutine, as one may still be handled when the connection is closed
 func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageHandler) {
+	go cp.handleRequests(cshandler)
 	for {
 		conn := cp.Connection()
 		select {
@@ -78,9 +81,26 @@ func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageH
 					break
 				}
 			}
+		}
+	}
+}
+
+// handleRequests handles the requests of one connection after the other, one at a time
+func (cp *chargePoint) handleRequests(cshandler CentralSystemMessageHandler) {
+	for {
+		select {
+		case <-cp.ctx.Done():
+			return
+		case <-cp.WaitConnect():
+		}
+		conn := cp.Connection()
+		select {
+		case <-cp.ctx.Done():
+			return
+		case <-conn.WaitClose():
 		case req := <-conn.Requests():
 			if cp.ctx.Err() != nil {
-				continue
+				return
 			}
 			cprequest, ok := req.Request.(csreq.CentralSystemRequest)
 			if !ok {
-- 
2.43.0

