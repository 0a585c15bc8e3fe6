From 1abc0c63e007c164fe892e44907e6dae51a2daa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:43 +0000
Subject: [PATCH 01/37] fix: make subscription cancellation safe against
 concurrent transmissions and cancellations

Transmitting a message while a subscription was being cancelled panicked (send
on closed channel) or blocked forever, a second cancellation panicked, and a
cancellation request could be read back by its own sender.
---
 pkg/extensions/broker.go | 53 ++++++++++++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 7 deletions(-)

diff --git a/pkg/extensions/broker.go b/pkg/extensions/broker.go
index 123ec3d..de01a3e 100644
--- a/pkg/extensions/broker.go
+++ b/pkg/extensions/broker.go
@@ -3,6 +3,7 @@ package extensions
 import (
 	"context"
 	"fmt"
+	"sync"
 )
 
 // BrokerChannelSubscription is a struct that contains every returned structures
@@ -10,6 +11,18 @@ import (
 type BrokerChannelSubscription struct {
 	messages chan AcknowledgeableBrokerMessage
 	cancel   chan any
+	state    *subscriptionState
+}
+
+// subscriptionState is shared between every copies of a subscription and
+// synchronizes the transmissions with the cancellation.
+type subscriptionState struct {
+	// transmissions is held (for reading) by transmissions in progress.
+	transmissions sync.RWMutex
+	// closing is closed when messages are not accepted anymore.
+	closing chan struct{}
+	// done is closed when the cancellation is complete.
+	done chan struct{}
 }
 
 // NewBrokerChannelSubscription creates a new broker channel subscription based
@@ -21,13 +34,32 @@ func NewBrokerChannelSubscription(
 	return BrokerChannelSubscription{
 		messages: messages,
 		cancel:   cancel,
+		state: &subscriptionState{
+			closing: make(chan struct{}),
+			done:    make(chan struct{}),
+		},
 	}
 }
 
 // TransmitReceivedMessage should only be used by the broker to transmit the
-// new received messages to the user.
+// new received messages to the user. Messages received when the subscription is
+// cancelled are dropped.
 func (bcs BrokerChannelSubscription) TransmitReceivedMessage(msg AcknowledgeableBrokerMessage) {
-	bcs.messages <- msg
+	// Avoid the messages channel to be closed during the transmission
+	bcs.state.transmissions.RLock()
+	defer bcs.state.transmissions.RUnlock()
+
+	// Check that the messages channel is not closed
+	select {
+	case <-bcs.state.closing:
+		return
+	default:
+	}
+
+	select {
+	case bcs.messages <- msg:
+	case <-bcs.state.closing:
+	}
 }
 
 // MessagesChannel returns the channel that will get the received messages from
@@ -46,11 +78,14 @@ func (bcs BrokerChannelSubscription) WaitForCancellationAsync(cleanup func()) {
 		// Execute cleanup function
 		cleanup()
 
-		// Close messages in order to avoid new messages
+		// Stop transmissions, then close messages in order to avoid new messages
+		close(bcs.state.closing)
+		bcs.state.transmissions.Lock()
 		close(bcs.messages)
+		bcs.state.transmissions.Unlock()
 
-		// Close cancel to let listeners know that the cancellation is complete
-		close(bcs.cancel)
+		// Let listeners know that the cancellation is complete
+		close(bcs.state.done)
 	}()
 }
 
@@ -59,11 +94,15 @@ func (bcs BrokerChannelSubscription) WaitForCancellationAsync(cleanup func()) {
 // as non-existent queue listeners on (broker) server side.
 func (bcs BrokerChannelSubscription) Cancel(ctx context.Context) {
 	// Send a cancellation request
-	bcs.cancel <- true
+	select {
+	case bcs.cancel <- true:
+	case <-bcs.state.done:
+		return
+	}
 
 	// Wait for the cancellation to be effective
 	select {
-	case <-bcs.cancel:
+	case <-bcs.state.done:
 	case <-ctx.Done():
 	}
 }
-- 
2.43.0


From 13773b0b0128903733d4e0ef15946a661ba9337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:12 +0000
Subject: [PATCH 02/37] fix: versioning wrapper deadlocks

The version mutex stayed locked after a message with an unregistered version,
the two mutexes were taken in opposite orders by subscriptions and
cancellations, and the context of a message leaked in the following ones.
---
 .../versioning/broker_subscription.go         | 37 +++++++++----------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/pkg/extensions/versioning/broker_subscription.go b/pkg/extensions/versioning/broker_subscription.go
index 49a837c..c6ec245 100644
--- a/pkg/extensions/versioning/broker_subscription.go
+++ b/pkg/extensions/versioning/broker_subscription.go
@@ -50,19 +50,18 @@ func (bs *brokerSubscription) createVersionListener(ctx context.Context, version
 }
 
 func (bs *brokerSubscription) removeVersionListener(ctx context.Context, vs *versionSubcription) {
-	// Lock the versions to avoid conflict
-	bs.versionsMutex.Lock()
-	defer bs.versionsMutex.Unlock()
-
-	// Remove the version from the channelsByBroker
-	delete(bs.versionsChannels, vs.version)
-
-	// Lock the channels to avoid conflict
+	// Lock the channels to avoid conflict, always before the versions
 	bs.parent.channelsMutex.Lock()
 	defer bs.parent.channelsMutex.Unlock()
 
+	// Remove the version from the channelsByBroker and check if there is some left
+	bs.versionsMutex.Lock()
+	delete(bs.versionsChannels, vs.version)
+	remaining := len(bs.versionsChannels)
+	bs.versionsMutex.Unlock()
+
 	// If there is still version channels, do nothing
-	if len(bs.versionsChannels) > 0 {
+	if remaining > 0 {
 		return
 	}
 
@@ -92,30 +91,28 @@ func (bs *brokerSubscription) launchListener(ctx context.Context) {
 				if bs.parent.defaultVersion != nil {
 					version = *bs.parent.defaultVersion
 				} else {
-					ctx = context.WithValue(ctx, extensions.ContextKeyIsBrokerMessage, msg)
-					bs.parent.logger.Error(ctx, "no version in the message and no default version")
+					msgCtx := context.WithValue(ctx, extensions.ContextKeyIsBrokerMessage, msg)
+					bs.parent.logger.Error(msgCtx, "no version in the message and no default version")
 					continue
 				}
 			}
 
-			// Lock the versions to avoid conflict
+			// Get the correct channel based on the version, with a lock on the
+			// versions to avoid conflict
 			bs.versionsMutex.Lock()
-
-			// Get the correct channel based on the version
 			vc, exists := bs.versionsChannels[version]
+			bs.versionsMutex.Unlock()
+
 			if !exists {
 				// Set context
-				ctx = context.WithValue(ctx, extensions.ContextKeyIsBrokerMessage, msg)
-				ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, version)
+				msgCtx := context.WithValue(ctx, extensions.ContextKeyIsBrokerMessage, msg)
+				msgCtx = context.WithValue(msgCtx, extensions.ContextKeyIsVersion, version)
 
 				// Log the error
-				bs.parent.logger.Error(ctx, fmt.Sprintf("version %q is not registered", version))
+				bs.parent.logger.Error(msgCtx, fmt.Sprintf("version %q is not registered", version))
 				continue
 			}
 
-			// Unlock the versions
-			bs.versionsMutex.Unlock()
-
 			// Send the message to the correct channel
 			vc.subscription.TransmitReceivedMessage(msg)
 		}
-- 
2.43.0


From ad30dda51c8cc705b03257cb7f46074e1dcad31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:16 +0000
Subject: [PATCH 03/37] fix: versioning wrapper publishes messages without
 headers

It panicked on nil headers, and modified the headers map of its caller.
---
 pkg/extensions/versioning/wrapper.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/extensions/versioning/wrapper.go b/pkg/extensions/versioning/wrapper.go
index e8a0b21..eacfcd2 100644
--- a/pkg/extensions/versioning/wrapper.go
+++ b/pkg/extensions/versioning/wrapper.go
@@ -77,9 +77,14 @@ func WithVersionHeaderKey(headerKey string) WrapperOption {
 
 // Publish a message to the broker.
 func (w *Wrapper) Publish(ctx context.Context, channel string, mw extensions.BrokerMessage) error {
-	// Add version to message
+	// Add version to message, without modifying the headers of the caller
 	extensions.IfContextSetWith(ctx, extensions.ContextKeyIsVersion, func(version string) {
-		mw.Headers[w.versionHeaderKey] = []byte(version)
+		headers := make(map[string][]byte, len(mw.Headers)+1)
+		for k, v := range mw.Headers {
+			headers[k] = v
+		}
+		headers[w.versionHeaderKey] = []byte(version)
+		mw.Headers = headers
 	})
 
 	// Send message
-- 
2.43.0


From ab867e04ac93238529b65e54fba77a32717cdf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 04/37] fix: payloads and headers of every type survive the
 wire

Integers and numbers were encoded as big endian and decoded as little endian
(or not at all), short payloads panicked, and booleans, dates, types defined in
components and headers that are not strings did not compile or were not decoded.
Date-times lost their fraction of second.
---
 .../v2/templates/marshaling/time.tmpl         |   8 +-
 .../generators/v2/templates/message.tmpl      | 170 ++++++++---------
 .../v3/templates/marshaling/time.tmpl         |   8 +-
 .../generators/v3/templates/message.tmpl      | 178 ++++++++----------
 4 files changed, 174 insertions(+), 190 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/marshaling/time.tmpl b/pkg/codegen/generators/v2/templates/marshaling/time.tmpl
index b83e7f9..b8e296d 100644
--- a/pkg/codegen/generators/v2/templates/marshaling/time.tmpl
+++ b/pkg/codegen/generators/v2/templates/marshaling/time.tmpl
@@ -1,12 +1,12 @@
 {{define "marshaling-time" -}}
-// MarshalJSON will override the marshal as this is not a normal 'time.Time' type
+// MarshalJSON will override the marshal as this is not a normal '{{template "schema-name" .}}' type
 func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
-    return json.Marshal(time.Time(t))
+    return json.Marshal({{template "schema-name" .}}(t))
 }
 
-// UnmarshalJSON will override the unmarshal as this is not a normal 'time.Time' type
+// UnmarshalJSON will override the unmarshal as this is not a normal '{{template "schema-name" .}}' type
 func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
-    var timeFormat time.Time
+    var timeFormat {{template "schema-name" .}}
     if err := json.Unmarshal(data, &timeFormat);  err != nil {
         return err
     }
diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 9b0e128..85ca826 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -53,29 +53,47 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
 
     {{- /* Handle payload based on type */}}
     {{- if eq $payload.Type "string"}}
-        // Convert to string
-        {{- if isDateOrDateTimeGenerated $payload.Format }}
-            t, err := time.Parse(time.RFC3339, string(bMsg.Payload))
+        {{- if and (isDateOrDateTimeGenerated $payload.Format) (eq $payload.Format "date-time") }}
+            // Convert to time
+            payload, err := time.Parse(time.RFC3339, string(bMsg.Payload))
             if err != nil {
-                return {{namify .Name}}{}, err
+                return msg, err
+            }
+        {{- else if and (isDateOrDateTimeGenerated $payload.Format) (eq $payload.Format "date") }}
+            // Convert to date
+            payload, err := civil.ParseDate(string(bMsg.Payload))
+            if err != nil {
+                return msg, err
             }
-            payload := t
         {{- else}}
+            // Convert to string
             payload := string(bMsg.Payload)
         {{- end}}
     {{- else if eq $payload.Type "integer"}}
         // Convert to integer
         {{- if and $payload.Format (eq $payload.Format "int32")}}
-            payload := int32(binary.LittleEndian.Uint32(bMsg.Payload))
+            if len(bMsg.Payload) != 4 {
+                return msg, fmt.Errorf("%w: payload should be 4 bytes long, is %d", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := int32(binary.BigEndian.Uint32(bMsg.Payload))
         {{- else}}
-            payload := int64(binary.LittleEndian.Uint64(bMsg.Payload))
+            if len(bMsg.Payload) != 8 {
+                return msg, fmt.Errorf("%w: payload should be 8 bytes long, is %d", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := int64(binary.BigEndian.Uint64(bMsg.Payload))
         {{- end}}
     {{- else if eq $payload.Type "number"}}
         // Convert to float
-        {{- if and $payload.Format (eq $payload.Format "float") -}}
-            payload := math.Float32frombits(binary.LittleEndian.Uint32(bMsg.Payload))
+        {{- if and $payload.Format (eq $payload.Format "float")}}
+            if len(bMsg.Payload) != 4 {
+                return msg, fmt.Errorf("%w: payload should be 4 bytes long, is %d", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := math.Float32frombits(binary.BigEndian.Uint32(bMsg.Payload))
         {{- else}}
-            payload := math.Float64frombits(binary.LittleEndian.Uint64(bMsg.Payload))
+            if len(bMsg.Payload) != 8 {
+                return msg, fmt.Errorf("%w: payload should be 8 bytes long, is %d", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := math.Float64frombits(binary.BigEndian.Uint64(bMsg.Payload))
         {{- end}}
     {{- else}}
         // Unmarshal payload to expected message payload format
@@ -85,14 +103,9 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
         }
     {{- end -}}
 
-    {{- /* If that's a string, an integer or a numeric, there maybe some more operation to do */}}
-    {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "numeric")}}
-        {{- /* If that's a reference, then there will be a conversion to struct to add */}}
-        {{- if .Payload.Reference}}
-            msg.Payload = {{ .Payload.ReferenceTo.Name }}(payload)
-        {{- else}}
-            msg.Payload = payload // No need for type conversion to reference
-        {{- end}}
+    {{- /* Convert string, integer and number to the type of the payload, that can be a reference */}}
+    {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "number")}}
+        msg.Payload = {{template "schema-name" .Payload}}(payload)
     {{- end}}
 
     {{ if .Headers -}}
@@ -109,39 +122,27 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             {{- /* For each header */}}
             {{- $headers := .Headers -}}
             {{- range  $key, $value := $headerProperties}}
+            {{- $header := $value.Follow}}
             case k == "{{$key}}": // Retrieving {{namify $key}} header
-                {{- if isFieldPointer $headers $key $value }}
-                    {{- if eq $value.Type "object" }}
-                        err := json.Unmarshal(v, msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return msg, err
-                        }
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        t, err := time.Parse(time.RFC3339, string(v))
-                        if err != nil {
-                            return msg, err
-                        }
-                        msg.Headers.{{ namify $key}} = &t
+                {{- if and (eq $header.Type "string") (isDateOrDateTimeGenerated $header.Format) }}
+                    {{- if eq $header.Format "date-time" }}
+                    t, err := time.Parse(time.RFC3339, string(v))
                     {{- else}}
-                        h := {{$value.Type}}(v)
-                        msg.Headers.{{ namify $key}} = &h
+                    t, err := civil.ParseDate(string(v))
                     {{- end}}
+                    if err != nil {
+                        return msg, err
+                    }
+                    h := {{template "schema-name" $value}}(t)
+                {{- else if eq $header.Type "string" }}
+                    h := {{template "schema-name" $value}}(v)
                 {{- else}}
-                    {{- if eq $value.Type "object" }}
-                        err := json.Unmarshal(v, &msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return msg, err
-                        }
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        t, err := time.Parse(time.RFC3339, string(v))
-                        if err != nil {
-                            return msg, err
-                        }
-                        msg.Headers.{{ namify $key}} = t
-                    {{- else}}
-                        msg.Headers.{{ namify $key}} = {{$value.Type}}(v)
-                    {{- end}}
+                    var h {{template "schema-name" $value}}
+                    if err := json.Unmarshal(v, &h); err != nil {
+                        return msg, err
+                    }
                 {{- end}}
+                msg.Headers.{{ namify $key}} = {{if isFieldPointer $headers $key $value }}&{{end}}h
             {{- end}}
         default:
             // TODO: log unknown error
@@ -165,15 +166,9 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
     {{- end}}
 
     {{/* Handle payload based on type */}}
-    {{- if or (eq $payload.Type "object") (eq $payload.Type "array")}}
-        // Marshal payload to JSON
-        payload, err := json.Marshal(msg.Payload)
-        if err != nil {
-            return extensions.BrokerMessage{}, err
-        }
-    {{- else if eq $payload.Type "integer"}}
+    {{- if eq $payload.Type "integer"}}
         // Convert to []byte{}
-        {{- if and .Payload.Format (eq .Payload.Format "int32")}}
+        {{- if and $payload.Format (eq $payload.Format "int32")}}
             payload := make([]byte, 4)
             binary.BigEndian.PutUint32(payload, uint32(msg.Payload))
         {{- else}}
@@ -184,17 +179,26 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         // Convert to []byte{}
         {{- if and $payload.Format (eq $payload.Format "float")}}
             payload := make([]byte, 4)
-            binary.BigEndian.PutUint32(payload, math.Float32bits(msg.Payload))
+            binary.BigEndian.PutUint32(payload, math.Float32bits(float32(msg.Payload)))
         {{- else}}
             payload := make([]byte, 8)
-            binary.BigEndian.PutUint64(payload, math.Float64bits(msg.Payload))
+            binary.BigEndian.PutUint64(payload, math.Float64bits(float64(msg.Payload)))
         {{- end}}
-    {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) }}
+    {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) (eq $payload.Format "date-time") }}
         // Convert to RFC3339 and to []byte
-        payload := []byte(msg.Payload.Format(time.RFC3339))
-    {{- else}}
+        payload := []byte(time.Time(msg.Payload).Format(time.RFC3339Nano))
+    {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) (eq $payload.Format "date") }}
+        // Convert to []byte
+        payload := []byte(civil.Date(msg.Payload).String())
+    {{- else if eq $payload.Type "string"}}
         // Convert to []byte
         payload := []byte(msg.Payload)
+    {{- else}}
+        // Marshal payload to JSON
+        payload, err := json.Marshal(msg.Payload)
+        if err != nil {
+            return extensions.BrokerMessage{}, err
+        }
     {{- end}}
 
     {{/* Handle headers, if defined */}}
@@ -212,40 +216,32 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         {{- range  $key, $value := $headerProperties }}
 
             // Adding {{ namify $key}} header
-            {{- if $value.IsRequired }}
-                {{- $dereferenceOp := "" -}}
-                {{- if isFieldPointer $headers $key $value -}}
-                    {{- $dereferenceOp = "*" }}
-                    if msg.Headers.{{ namify $key}} == nil {
-                        return extensions.BrokerMessage{}, fmt.Errorf("field {{ namify $key}} should not be nil")
-                    }
-                {{- end -}}
-                {{- if eq $value.Type "object" }}
-                    h, err := json.Marshal({{ $dereferenceOp }}msg.Headers.{{ namify $key}})
+            {{- $header := $value.Follow}}
+            {{- $pointer := isFieldPointer $headers $key $value }}
+            {{- if not $value.IsRequired }}
+                if msg.Headers.{{namify $key}} != nil {
+            {{- else}}
+                {{- if $pointer }}
+                if msg.Headers.{{ namify $key}} == nil {
+                    return extensions.BrokerMessage{}, fmt.Errorf("field {{ namify $key}} should not be nil")
+                }
+                {{- end}}
+                {
+            {{- end}}
+                {{- if and (eq $header.Type "string") (isDateOrDateTimeGenerated $header.Format) (eq $header.Format "date-time") }}
+                    headers["{{$key}}"] = []byte(time.Time({{if $pointer}}*{{end}}msg.Headers.{{namify $key}}).Format(time.RFC3339Nano))
+                {{- else if and (eq $header.Type "string") (isDateOrDateTimeGenerated $header.Format) }}
+                    headers["{{$key}}"] = []byte(civil.Date({{if $pointer}}*{{end}}msg.Headers.{{namify $key}}).String())
+                {{- else if eq $header.Type "string" }}
+                    headers["{{$key}}"] = []byte({{if $pointer}}*{{end}}msg.Headers.{{namify $key}})
+                {{- else }}
+                    h, err := json.Marshal({{if $pointer}}*{{end}}msg.Headers.{{namify $key}})
                     if err != nil {
                         return extensions.BrokerMessage{}, err
                     }
                     headers["{{$key}}"] = h
-                {{- else if isDateOrDateTimeGenerated $value.Format }}
-                    headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}}.Format(time.RFC3339))
-                {{- else }}
-                    headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
                 {{- end }}
-            {{- else}}
-                if msg.Headers.{{namify $key}} != nil {
-                    {{- if eq $value.Type "object" }}
-                        h, err := json.Marshal(*msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return extensions.BrokerMessage{}, err
-                        }
-                        headers["{{$key}}"] = h
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        headers["{{$key}}"] = []byte(msg.Headers.{{namify $key}}.Format(time.RFC3339))
-                    {{- else }}
-                        headers["{{$key}}"] = []byte(*msg.Headers.{{namify $key}})
-                    {{- end }}
                 }
-            {{- end }}
         {{- end}}
         {{ else -}}
         // There is no headers here
diff --git a/pkg/codegen/generators/v3/templates/marshaling/time.tmpl b/pkg/codegen/generators/v3/templates/marshaling/time.tmpl
index b83e7f9..b8e296d 100644
--- a/pkg/codegen/generators/v3/templates/marshaling/time.tmpl
+++ b/pkg/codegen/generators/v3/templates/marshaling/time.tmpl
@@ -1,12 +1,12 @@
 {{define "marshaling-time" -}}
-// MarshalJSON will override the marshal as this is not a normal 'time.Time' type
+// MarshalJSON will override the marshal as this is not a normal '{{template "schema-name" .}}' type
 func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
-    return json.Marshal(time.Time(t))
+    return json.Marshal({{template "schema-name" .}}(t))
 }
 
-// UnmarshalJSON will override the unmarshal as this is not a normal 'time.Time' type
+// UnmarshalJSON will override the unmarshal as this is not a normal '{{template "schema-name" .}}' type
 func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
-    var timeFormat time.Time
+    var timeFormat {{template "schema-name" .}}
     if err := json.Unmarshal(data, &timeFormat);  err != nil {
         return err
     }
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index e9dd4ed..fb6c95f 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -62,29 +62,47 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
 
     {{- /* Handle payload based on type */}}
     {{- if eq $payload.Type "string"}}
-        // Convert to string
-        {{- if isDateOrDateTimeGenerated $payload.Format }}
-            t, err := time.Parse(time.RFC3339, string(bMsg.Payload))
+        {{- if and (isDateOrDateTimeGenerated $payload.Format) (eq $payload.Format "date-time") }}
+            // Convert to time
+            payload, err := time.Parse(time.RFC3339, string(bMsg.Payload))
             if err != nil {
-                return {{namify .Name}}{}, err
+                return msg, err
+            }
+        {{- else if and (isDateOrDateTimeGenerated $payload.Format) (eq $payload.Format "date") }}
+            // Convert to date
+            payload, err := civil.ParseDate(string(bMsg.Payload))
+            if err != nil {
+                return msg, err
             }
-            payload := t
         {{- else}}
+            // Convert to string
             payload := string(bMsg.Payload)
         {{- end}}
     {{- else if eq $payload.Type "integer"}}
         // Convert to integer
         {{- if and $payload.Format (eq $payload.Format "int32")}}
-            payload := int32(binary.LittleEndian.Uint32(bMsg.Payload))
+            if len(bMsg.Payload) != 4 {
+                return msg, fmt.Errorf("%w: payload should be 4 bytes long, is %d", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := int32(binary.BigEndian.Uint32(bMsg.Payload))
         {{- else}}
-            payload := int64(binary.LittleEndian.Uint64(bMsg.Payload))
+            if len(bMsg.Payload) != 8 {
+                return msg, fmt.Errorf("%w: payload should be 8 bytes long, is %d", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := int64(binary.BigEndian.Uint64(bMsg.Payload))
         {{- end}}
     {{- else if eq $payload.Type "number"}}
         // Convert to float
-        {{- if and $payload.Format (eq $payload.Format "float") -}}
-            payload := math.Float32frombits(binary.LittleEndian.Uint32(bMsg.Payload))
+        {{- if and $payload.Format (eq $payload.Format "float")}}
+            if len(bMsg.Payload) != 4 {
+                return msg, fmt.Errorf("%w: payload should be 4 bytes long, is %d", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := math.Float32frombits(binary.BigEndian.Uint32(bMsg.Payload))
         {{- else}}
-            payload := math.Float64frombits(binary.LittleEndian.Uint64(bMsg.Payload))
+            if len(bMsg.Payload) != 8 {
+                return msg, fmt.Errorf("%w: payload should be 8 bytes long, is %d", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := math.Float64frombits(binary.BigEndian.Uint64(bMsg.Payload))
         {{- end}}
     {{- else}}
         // Unmarshal payload to expected message payload format
@@ -94,14 +112,9 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
         }
     {{- end -}}
 
-    {{- /* If that's a string, an integer or a numeric, there maybe some more operation to do */}}
-    {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "numeric")}}
-        {{- /* If that's a reference, then there will be a conversion to struct to add */}}
-        {{- if .Payload.Reference}}
-            msg.Payload = {{ .Payload.Follow.Name }}(payload)
-        {{- else}}
-            msg.Payload = payload // No need for type conversion to reference
-        {{- end}}
+    {{- /* Convert string, integer and number to the type of the payload, that can be a reference */}}
+    {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "number")}}
+        msg.Payload = {{template "schema-name" .Payload}}(payload)
     {{- end}}
 
     {{ if .Headers -}}
@@ -118,47 +131,27 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             {{- /* For each header */}}
             {{- $headers := .Headers -}}
             {{- range  $key, $value := $headerProperties}}
+            {{- $header := $value.Follow}}
             case k == "{{$key}}": // Retrieving {{namify $key}} header
-                {{- if isFieldPointer $headers $key $value }}
-                    {{- if eq $value.Type "object" }}
-                        err := json.Unmarshal(v, msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return msg, err
-                        }
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        t, err := time.Parse(time.RFC3339, string(v))
-                        if err != nil {
-                            return msg, err
-                        }
-                        msg.Headers.{{ namify $key}} = &t
+                {{- if and (eq $header.Type "string") (isDateOrDateTimeGenerated $header.Format) }}
+                    {{- if eq $header.Format "date-time" }}
+                    t, err := time.Parse(time.RFC3339, string(v))
                     {{- else}}
-                        {{- if $value.Reference }}
-                        h := {{$value.ReferenceTo.Name}}(v)
-                        {{- else }}
-                        h := {{$value.Type}}(v)
-                        {{- end}}
-                        msg.Headers.{{ namify $key}} = &h
+                    t, err := civil.ParseDate(string(v))
                     {{- end}}
+                    if err != nil {
+                        return msg, err
+                    }
+                    h := {{template "schema-name" $value}}(t)
+                {{- else if eq $header.Type "string" }}
+                    h := {{template "schema-name" $value}}(v)
                 {{- else}}
-                    {{- if eq $value.Type "object" }}
-                        err := json.Unmarshal(v, &msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return msg, err
-                        }
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        t, err := time.Parse(time.RFC3339, string(v))
-                        if err != nil {
-                            return msg, err
-                        }
-                        msg.Headers.{{ namify $key}} = t
-                    {{- else}}
-                        {{- if $value.Reference }}
-                        msg.Headers.{{ namify $key}} = {{$value.ReferenceTo.Name}}(v)
-                        {{- else }}
-                        msg.Headers.{{ namify $key}} = {{$value.Type}}(v)
-                        {{- end}}
-                    {{- end}}
+                    var h {{template "schema-name" $value}}
+                    if err := json.Unmarshal(v, &h); err != nil {
+                        return msg, err
+                    }
                 {{- end}}
+                msg.Headers.{{ namify $key}} = {{if isFieldPointer $headers $key $value }}&{{end}}h
             {{- end}}
         default:
             // TODO: log unknown error
@@ -182,15 +175,9 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
     {{- end}}
 
     {{/* Handle payload based on type */}}
-    {{- if or (eq $payload.Type "object") (eq $payload.Type "array")}}
-        // Marshal payload to JSON
-        payload, err := json.Marshal(msg.Payload)
-        if err != nil {
-            return extensions.BrokerMessage{}, err
-        }
-    {{- else if eq $payload.Type "integer"}}
+    {{- if eq $payload.Type "integer"}}
         // Convert to []byte{}
-        {{- if and .Payload.Format (eq .Payload.Format "int32")}}
+        {{- if and $payload.Format (eq $payload.Format "int32")}}
             payload := make([]byte, 4)
             binary.BigEndian.PutUint32(payload, uint32(msg.Payload))
         {{- else}}
@@ -201,17 +188,26 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         // Convert to []byte{}
         {{- if and $payload.Format (eq $payload.Format "float")}}
             payload := make([]byte, 4)
-            binary.BigEndian.PutUint32(payload, math.Float32bits(msg.Payload))
+            binary.BigEndian.PutUint32(payload, math.Float32bits(float32(msg.Payload)))
         {{- else}}
             payload := make([]byte, 8)
-            binary.BigEndian.PutUint64(payload, math.Float64bits(msg.Payload))
+            binary.BigEndian.PutUint64(payload, math.Float64bits(float64(msg.Payload)))
         {{- end}}
-    {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) }}
+    {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) (eq $payload.Format "date-time") }}
         // Convert to RFC3339 and to []byte
-        payload := []byte(msg.Payload.Format(time.RFC3339))
-    {{- else}}
+        payload := []byte(time.Time(msg.Payload).Format(time.RFC3339Nano))
+    {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) (eq $payload.Format "date") }}
+        // Convert to []byte
+        payload := []byte(civil.Date(msg.Payload).String())
+    {{- else if eq $payload.Type "string"}}
         // Convert to []byte
         payload := []byte(msg.Payload)
+    {{- else}}
+        // Marshal payload to JSON
+        payload, err := json.Marshal(msg.Payload)
+        if err != nil {
+            return extensions.BrokerMessage{}, err
+        }
     {{- end}}
 
     {{/* Handle headers, if defined */}}
@@ -230,40 +226,32 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         {{- range  $key, $value := $headerProperties }}
 
             // Adding {{ namify $key}} header
-            {{- if $value.IsRequired }}
-                {{- $dereferenceOp := "" -}}
-                {{- if isFieldPointer $headers $key $value -}}
-                    {{- $dereferenceOp = "*" }}
-                     if msg.Headers.{{ namify $key}} == nil {
-                        return extensions.BrokerMessage{}, fmt.Errorf("field {{ namify $key}} should not be nil")
-                     }
-                {{- end -}}
-                {{- if eq $value.Type "object" }}
-                    h, err := json.Marshal({{ $dereferenceOp }}msg.Headers.{{ namify $key}})
+            {{- $header := $value.Follow}}
+            {{- $pointer := isFieldPointer $headers $key $value }}
+            {{- if not $value.IsRequired }}
+                if msg.Headers.{{namify $key}} != nil {
+            {{- else}}
+                {{- if $pointer }}
+                if msg.Headers.{{ namify $key}} == nil {
+                    return extensions.BrokerMessage{}, fmt.Errorf("field {{ namify $key}} should not be nil")
+                }
+                {{- end}}
+                {
+            {{- end}}
+                {{- if and (eq $header.Type "string") (isDateOrDateTimeGenerated $header.Format) (eq $header.Format "date-time") }}
+                    headers["{{$key}}"] = []byte(time.Time({{if $pointer}}*{{end}}msg.Headers.{{namify $key}}).Format(time.RFC3339Nano))
+                {{- else if and (eq $header.Type "string") (isDateOrDateTimeGenerated $header.Format) }}
+                    headers["{{$key}}"] = []byte(civil.Date({{if $pointer}}*{{end}}msg.Headers.{{namify $key}}).String())
+                {{- else if eq $header.Type "string" }}
+                    headers["{{$key}}"] = []byte({{if $pointer}}*{{end}}msg.Headers.{{namify $key}})
+                {{- else }}
+                    h, err := json.Marshal({{if $pointer}}*{{end}}msg.Headers.{{namify $key}})
                     if err != nil {
                         return extensions.BrokerMessage{}, err
                     }
                     headers["{{$key}}"] = h
-                {{- else if isDateOrDateTimeGenerated $value.Format }}
-                    headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}}.Format(time.RFC3339))
-                {{- else }}
-                    headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
                 {{- end }}
-            {{- else}}
-                if msg.Headers.{{namify $key}} != nil {
-                    {{- if eq $value.Type "object" }}
-                        h, err := json.Marshal(*msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return extensions.BrokerMessage{}, err
-                        }
-                        headers["{{$key}}"] = h
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        headers["{{$key}}"] = []byte(msg.Headers.{{namify $key}}.Format(time.RFC3339))
-                    {{- else }}
-                        headers["{{$key}}"] = []byte(*msg.Headers.{{namify $key}})
-                    {{- end }}
                 }
-            {{- end }}
         {{- end}}
         {{ else -}}
         // There is no headers here
-- 
2.43.0


From a46cefe0b81d4f30d3f4881a4e81b49e3ea1a18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:36 +0000
Subject: [PATCH 05/37] fix: additional properties keep their values and
 coexist with declared properties

---
 .../marshaling/additional_properties.tmpl     | 26 ++++++++++++++++---
 .../marshaling/additional_properties.tmpl     | 14 +++++++---
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl b/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
index 314980c..7336f9c 100644
--- a/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
+++ b/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
@@ -13,9 +13,25 @@ func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
     // Remove the end of the json (i.e. '}')
     b = b[:len(b)-1]
 
+    // When there are no properties, we cant start with a separator
+    needSeparator := len(b) > 1
+
     // Add additional properties
     for k, v := range t.AdditionalProperties {
-        b = append(b,[]byte(fmt.Sprintf(",%q:%q", k, v))...)
+        if needSeparator {
+            b = append(b, ',')
+        }
+        needSeparator = true
+
+        kBytes, err := json.Marshal(k)
+        if err != nil {
+            return nil, err
+        }
+        vBytes, err := json.Marshal(v)
+        if err != nil {
+            return nil, err
+        }
+        b = append(append(append(b, kBytes...), ':'), vBytes...)
     }
 
     // Close JSON and return
@@ -27,7 +43,7 @@ func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
     type alias {{ .Name }}
 
     // Unmarshal to map to get all fields
-    var m map[string]{{template "schema-name" .AdditionalProperties}}
+    var m map[string]json.RawMessage
     if err := json.Unmarshal(data, &m);  err != nil {
         return err
     }
@@ -49,7 +65,11 @@ func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
                     continue
             {{ end -}}
         default:
-            t.AdditionalProperties[k] = v
+            var value {{template "schema-name" .AdditionalProperties}}
+            if err := json.Unmarshal(v, &value); err != nil {
+                return err
+            }
+            t.AdditionalProperties[k] = value
         }
     }
 
diff --git a/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl b/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
index d520a29..3bfefe4 100644
--- a/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
+++ b/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
@@ -23,11 +23,15 @@ func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
     	}
     	needSeparator = true
 	
+    	kBytes, err := json.Marshal(k)
+    	if err != nil {
+    	    return nil, err
+    	}
     	vBytes, err := json.Marshal(v)
     	if err != nil {
     	    return nil, err
     	}
-    	b = append(b, fmt.Sprintf("%q:%s", k, vBytes)...)
+    	b = append(append(append(b, kBytes...), ':'), vBytes...)
 	}
 
     // Close JSON and return
@@ -39,7 +43,7 @@ func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
     type alias {{ .Name }}
 
     // Unmarshal to map to get all fields
-    var m map[string]{{template "schema-name" .AdditionalProperties}}
+    var m map[string]json.RawMessage
     if err := json.Unmarshal(data, &m);  err != nil {
         return err
     }
@@ -61,7 +65,11 @@ func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
                     continue
             {{ end -}}
         default:
-            t.AdditionalProperties[k] = v
+            var value {{template "schema-name" .AdditionalProperties}}
+            if err := json.Unmarshal(v, &value); err != nil {
+                return err
+            }
+            t.AdditionalProperties[k] = value
         }
     }
 
-- 
2.43.0


From b155712e3d7aceb619efbd482cfe3393064307fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 06/37] fix: custom imports of every schema are collected, once
 and in order

---
 pkg/asyncapi/v2/extensions.go        | 81 +++++++++++++++++++++++-----
 pkg/asyncapi/v3/extensions.go        | 68 +++++++++++++++++++----
 pkg/codegen/generators/v2/imports.go | 19 +++++++
 pkg/codegen/generators/v3/imports.go | 19 +++++++
 4 files changed, 163 insertions(+), 24 deletions(-)

diff --git a/pkg/asyncapi/v2/extensions.go b/pkg/asyncapi/v2/extensions.go
index 29861a5..304dd71 100644
--- a/pkg/asyncapi/v2/extensions.go
+++ b/pkg/asyncapi/v2/extensions.go
@@ -2,6 +2,7 @@ package asyncapiv2
 
 import (
 	"fmt"
+	"slices"
 	"strings"
 )
 
@@ -37,7 +38,14 @@ type GoTypeImportName string
 // goTypeImports collects custom imports in this Schema Object set by x-go-type-import key
 // into the imports map.
 // Reports error when the same import path is assigned multiple import names.
+//
+//nolint:cyclop // Not necessary to reduce cyclop
 func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) error {
+	// Prevent modification if nil
+	if s == nil {
+		return nil
+	}
+
 	// Process Properties
 	for _, p := range s.Properties {
 		if err := p.goTypeImports(imports); err != nil {
@@ -52,6 +60,13 @@ func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) er
 		}
 	}
 
+	// Process Additional Properties
+	if s.AdditionalProperties != nil {
+		if err := s.AdditionalProperties.goTypeImports(imports); err != nil {
+			return err
+		}
+	}
+
 	if s.ExtGoTypeImport != nil {
 		name, exists := imports[s.ExtGoTypeImport.Path]
 		if exists && name != s.ExtGoTypeImport.Name {
@@ -72,38 +87,75 @@ func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) er
 // in all Schema Objects in the Specification.
 // Returns import strings like `alias "abc.xyz/repo/package"` for code generation.
 // Returns error when import name conflicts.
-func (s Specification) CustomImports() ([]string, error) { //nolint:cyclop
+func (s Specification) CustomImports() ([]string, error) {
 	importsSet := make(map[GoTypeImportPath]GoTypeImportName)
+	if err := s.addCustomImports(importsSet); err != nil {
+		return nil, err
+	}
+
+	return importsMapToList(importsSet), nil
+}
+
+// goTypeImports collects custom imports in this Message payload and headers.
+func (msg *Message) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) error {
+	// Prevent modification if nil
+	if msg == nil {
+		return nil
+	}
+
+	if err := msg.Payload.goTypeImports(imports); err != nil {
+		return fmt.Errorf("payload custom import error: %w", err)
+	}
 
+	if err := msg.Headers.goTypeImports(imports); err != nil {
+		return fmt.Errorf("headers custom import error: %w", err)
+	}
+
+	return nil
+}
+
+//nolint:cyclop // Not necessary to reduce cyclop
+func (s Specification) addCustomImports(importsSet map[GoTypeImportPath]GoTypeImportName) error {
 	for _, v := range s.Components.Schemas {
 		if err := v.goTypeImports(importsSet); err != nil {
-			return nil, fmt.Errorf("/components/schemas custom import error: %w", err)
+			return fmt.Errorf("/components/schemas custom import error: %w", err)
 		}
 	}
 
 	for _, v := range s.Components.Messages {
-		if v.Payload != nil {
-			if err := v.Payload.goTypeImports(importsSet); err != nil {
-				return nil, fmt.Errorf("/components/messages payload custom import error: %w", err)
-			}
-		}
-
-		if v.Headers != nil {
-			if err := v.Headers.goTypeImports(importsSet); err != nil {
-				return nil, fmt.Errorf("/components/messages headers custom import error: %w", err)
-			}
+		if err := v.goTypeImports(importsSet); err != nil {
+			return fmt.Errorf("/components/messages %w", err)
 		}
 	}
 
 	for _, v := range s.Components.Parameters {
 		if v.Schema != nil {
 			if err := v.Schema.goTypeImports(importsSet); err != nil {
-				return nil, fmt.Errorf("/components/parameters custom import error: %w", err)
+				return fmt.Errorf("/components/parameters custom import error: %w", err)
 			}
 		}
 	}
 
-	return importsMapToList(importsSet), nil
+	// Process messages from channels
+	for _, ch := range s.Channels {
+		for _, op := range []*Operation{ch.Publish, ch.Subscribe} {
+			if op == nil {
+				continue
+			}
+			if err := op.Message.goTypeImports(importsSet); err != nil {
+				return fmt.Errorf("/channels %w", err)
+			}
+		}
+	}
+
+	// Process dependencies
+	for _, dep := range s.dependencies {
+		if err := dep.addCustomImports(importsSet); err != nil {
+			return err
+		}
+	}
+
+	return nil
 }
 
 func importsMapToList(importsSet map[GoTypeImportPath]GoTypeImportName) []string {
@@ -114,5 +166,6 @@ func importsMapToList(importsSet map[GoTypeImportPath]GoTypeImportName) []string
 		}
 		imports = append(imports, strings.TrimSpace(fmt.Sprintf(`%s "%s"`, name, path)))
 	}
+	slices.Sort(imports)
 	return imports
 }
diff --git a/pkg/asyncapi/v3/extensions.go b/pkg/asyncapi/v3/extensions.go
index dbe16bf..1f4a0d2 100644
--- a/pkg/asyncapi/v3/extensions.go
+++ b/pkg/asyncapi/v3/extensions.go
@@ -2,6 +2,7 @@ package asyncapiv3
 
 import (
 	"fmt"
+	"slices"
 	"strings"
 )
 
@@ -37,7 +38,14 @@ type GoTypeImportName string
 // goTypeImports collects custom imports in this Schema Object set by x-go-type-import key
 // into the imports map.
 // Reports error when the same import path is assigned multiple import names.
+//
+//nolint:cyclop // Not necessary to reduce cyclop
 func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) error {
+	// Prevent modification if nil
+	if s == nil {
+		return nil
+	}
+
 	// Process Properties
 	for _, p := range s.Properties {
 		if err := p.goTypeImports(imports); err != nil {
@@ -52,6 +60,13 @@ func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) er
 		}
 	}
 
+	// Process Additional Properties
+	if s.AdditionalProperties != nil {
+		if err := s.AdditionalProperties.goTypeImports(imports); err != nil {
+			return err
+		}
+	}
+
 	if s.ExtGoTypeImport != nil {
 		name, exists := imports[s.ExtGoTypeImport.Path]
 		if exists && name != s.ExtGoTypeImport.Name {
@@ -74,30 +89,62 @@ func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) er
 // Returns error when import name conflicts.
 func (s Specification) CustomImports() ([]string, error) {
 	importsSet := make(map[GoTypeImportPath]GoTypeImportName)
+	if err := s.addCustomImports(importsSet); err != nil {
+		return nil, err
+	}
+
+	return importsMapToList(importsSet), nil
+}
+
+// goTypeImports collects custom imports in this Message payload and headers.
+func (msg *Message) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) error {
+	// Prevent modification if nil
+	if msg == nil {
+		return nil
+	}
+
+	if err := msg.Payload.goTypeImports(imports); err != nil {
+		return fmt.Errorf("payload custom import error: %w", err)
+	}
 
+	if err := msg.Headers.goTypeImports(imports); err != nil {
+		return fmt.Errorf("headers custom import error: %w", err)
+	}
+
+	return nil
+}
+
+//nolint:cyclop // Not necessary to reduce cyclop
+func (s Specification) addCustomImports(importsSet map[GoTypeImportPath]GoTypeImportName) error {
 	for _, v := range s.Components.Schemas {
 		if err := v.goTypeImports(importsSet); err != nil {
-			return nil, fmt.Errorf("/components/schemas custom import error: %w", err)
+			return fmt.Errorf("/components/schemas custom import error: %w", err)
 		}
 	}
 
 	for _, v := range s.Components.Messages {
-		if v.Payload != nil {
-			if err := v.Payload.goTypeImports(importsSet); err != nil {
-				return nil, fmt.Errorf("/components/messages payload custom import error: %w", err)
-			}
+		if err := v.goTypeImports(importsSet); err != nil {
+			return fmt.Errorf("/components/messages %w", err)
 		}
+	}
 
-		if v.Headers != nil {
-			if err := v.Headers.goTypeImports(importsSet); err != nil {
-				return nil, fmt.Errorf("/components/messages headers custom import error: %w", err)
+	// Process messages from channels
+	for _, ch := range s.Channels {
+		for _, v := range ch.Follow().Messages {
+			if err := v.goTypeImports(importsSet); err != nil {
+				return fmt.Errorf("/channels %w", err)
 			}
 		}
 	}
 
-	// TODO: support Parameters
+	// Process dependencies
+	for _, dep := range s.dependencies {
+		if err := dep.addCustomImports(importsSet); err != nil {
+			return err
+		}
+	}
 
-	return importsMapToList(importsSet), nil
+	return nil
 }
 
 func importsMapToList(importsSet map[GoTypeImportPath]GoTypeImportName) []string {
@@ -108,5 +155,6 @@ func importsMapToList(importsSet map[GoTypeImportPath]GoTypeImportName) []string
 		}
 		imports = append(imports, strings.TrimSpace(fmt.Sprintf(`%s "%s"`, name, path)))
 	}
+	slices.Sort(imports)
 	return imports
 }
diff --git a/pkg/codegen/generators/v2/imports.go b/pkg/codegen/generators/v2/imports.go
index 615bc7a..a7995c1 100644
--- a/pkg/codegen/generators/v2/imports.go
+++ b/pkg/codegen/generators/v2/imports.go
@@ -2,8 +2,22 @@ package generatorv2
 
 import (
 	"bytes"
+	"slices"
 )
 
+// defaultImports are the imports that can also be requested as custom imports.
+var defaultImports = []string{
+	`"encoding/json"`,
+	`"time"`,
+	`"errors"`,
+	`"fmt"`,
+	`"context"`,
+	`"encoding/binary"`,
+	`"math"`,
+	`"github.com/google/uuid"`,
+	`"cloud.google.com/go/civil"`,
+}
+
 // ImportsGenerator is a code generator for imports that will add needed imports
 // to the code, being asyncapi-codegen packages, standard library packages or
 // custom packages.
@@ -21,6 +35,11 @@ func (ig ImportsGenerator) Generate() (string, error) {
 		return "", err
 	}
 
+	// Remove custom imports that are always present
+	ig.CustomImports = slices.DeleteFunc(ig.CustomImports, func(imp string) bool {
+		return slices.Contains(defaultImports, imp)
+	})
+
 	buf := new(bytes.Buffer)
 	if err := tmplt.Execute(buf, ig); err != nil {
 		return "", err
diff --git a/pkg/codegen/generators/v3/imports.go b/pkg/codegen/generators/v3/imports.go
index 3a4cf46..5197bc5 100644
--- a/pkg/codegen/generators/v3/imports.go
+++ b/pkg/codegen/generators/v3/imports.go
@@ -2,8 +2,22 @@ package generatorv3
 
 import (
 	"bytes"
+	"slices"
 )
 
+// defaultImports are the imports that can also be requested as custom imports.
+var defaultImports = []string{
+	`"encoding/json"`,
+	`"time"`,
+	`"errors"`,
+	`"fmt"`,
+	`"context"`,
+	`"encoding/binary"`,
+	`"math"`,
+	`"github.com/google/uuid"`,
+	`"cloud.google.com/go/civil"`,
+}
+
 // ImportsGenerator is a code generator for imports that will add needed imports
 // to the code, being asyncapi-codegen packages, standard library packages or
 // custom packages.
@@ -21,6 +35,11 @@ func (ig ImportsGenerator) Generate() (string, error) {
 		return "", err
 	}
 
+	// Remove custom imports that are always present
+	ig.CustomImports = slices.DeleteFunc(ig.CustomImports, func(imp string) bool {
+		return slices.Contains(defaultImports, imp)
+	})
+
 	buf := new(bytes.Buffer)
 	if err := tmplt.Execute(buf, ig); err != nil {
 		return "", err
-- 
2.43.0


From a930d210e235432045a0b3c6dbd10543df330798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 07/37] fix: namifier keeps non ASCII characters and gives
 exported names for every naming scheme

---
 pkg/utils/template/helpers.go | 44 ++++++++++++++---------------------
 1 file changed, 18 insertions(+), 26 deletions(-)

diff --git a/pkg/utils/template/helpers.go b/pkg/utils/template/helpers.go
index b9553c5..f7f9fc6 100644
--- a/pkg/utils/template/helpers.go
+++ b/pkg/utils/template/helpers.go
@@ -21,7 +21,8 @@ var convertKeyFuncs = map[string]namingSchemeFn{
 }
 
 var namifyPerScheme = map[string]namingSchemeFn{
-	"camel": strcase.ToCamel,
+	// NOTE: the result should always be a valid identifier
+	"camel": func(s string) string { return DefaultNamifier(strcase.ToCamel(s)) },
 	"none":  DefaultNamifier,
 }
 
@@ -32,7 +33,7 @@ var namify = namifyPerScheme["none"]
 // and will remove all parameters that can appear between '{' and '}'.
 func NamifyWithoutParams(sentence string) string {
 	// Remove parameters
-	re := regexp.MustCompile("{[^()]*}")
+	re := regexp.MustCompile("{[^{}]*}")
 	sentence = string(re.ReplaceAll([]byte(sentence), []byte("_")))
 
 	return namify(sentence)
@@ -40,35 +41,26 @@ func NamifyWithoutParams(sentence string) string {
 
 // DefaultNamifier will convert a sentence to a golang conventional type name.
 func DefaultNamifier(sentence string) string {
-	// Check if empty
-	if len(sentence) == 0 {
-		return sentence
-	}
-
-	// Upper letters that are preceded with an underscore
+	// Keep only alphanumerics and upper letters that follow something else
+	var b strings.Builder
 	previous := '_'
-	for i, r := range sentence {
-		if !unicode.IsLetter(previous) && !unicode.IsDigit(previous) {
-			sentence = sentence[:i] + strings.ToUpper(string(r)) + sentence[i+1:]
+	for _, r := range sentence {
+		isASCIILetter := (r >= 'a' && r <= 'z') || (r >= 'A' && r <= 'Z')
+		isASCIIDigit := r >= '0' && r <= '9'
+
+		switch {
+		// Remove everything except alphanumerics and remove leading numbers
+		case !isASCIILetter && (!isASCIIDigit || b.Len() == 0):
+		// Upper first letter and letters that are preceded with an underscore
+		case b.Len() == 0, !unicode.IsLetter(previous) && !unicode.IsDigit(previous):
+			b.WriteRune(unicode.ToUpper(r))
+		default:
+			b.WriteRune(r)
 		}
 		previous = r
 	}
 
-	// Remove everything except alphanumerics
-	re := regexp.MustCompile("[^a-zA-Z0-9]")
-	sentence = string(re.ReplaceAll([]byte(sentence), []byte("")))
-
-	// Remove leading numbers
-	re = regexp.MustCompile("^[0-9]+")
-	sentence = string(re.ReplaceAll([]byte(sentence), []byte("")))
-	if len(sentence) == 0 {
-		return sentence
-	}
-
-	// Upper first letter
-	sentence = strings.ToUpper(sentence[:1]) + sentence[1:]
-
-	return sentence
+	return b.String()
 }
 
 // ConvertKey is used in template to convert schema property key name
-- 
2.43.0


From 7e8e7f2e3183e4901edefa964b13ed7ec7a4ac7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 08/37] fix: v3 controllers unsubscribe from actual
 subscriptions and return wait errors

---
 pkg/codegen/generators/v3/common.go           |  3 +-
 .../generators/v3/templates/controller.tmpl   | 67 ++++++++++++-------
 2 files changed, 43 insertions(+), 27 deletions(-)

diff --git a/pkg/codegen/generators/v3/common.go b/pkg/codegen/generators/v3/common.go
index 42878b2..2e1fa5e 100644
--- a/pkg/codegen/generators/v3/common.go
+++ b/pkg/codegen/generators/v3/common.go
@@ -43,8 +43,7 @@ func NewActionOperations(side generators.Side, spec asyncapi.Specification) Acti
 
 		// Add a artificial operation for reply if the controller should respond to a reply
 		if shouldControllerRespondToReply(side, op) {
-			ch := op.Reply.Channel.Follow()
-			ao.Send[ch.Name] = op.ReplyIs
+			ao.Send[op.ReplyIs.Name] = op.ReplyIs
 		}
 	}
 
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 902c2fc..0285fb6 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -86,7 +86,7 @@ func (c {{ .Prefix }}Controller) executeMiddlewares(ctx context.Context, msg *ex
 }
 
 func add{{ .Prefix }}ContextValues(ctx context.Context, addr string) context.Context {
-    ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, "{{ .Version }}")
+    ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, {{ printf "%q" .Version }})
     ctx = context.WithValue(ctx, extensions.ContextKeyIsProvider, "{{ snakeCase .Prefix }}")
     return context.WithValue(ctx, extensions.ContextKeyIsChannel, addr)
 }
@@ -123,11 +123,18 @@ func (c *{{ .Prefix }}Controller) SubscribeToAllChannels(ctx context.Context, as
 
 // UnsubscribeFromAllChannels will stop the subscription of all remaining subscribed channels
 func (c *{{ .Prefix }}Controller) UnsubscribeFromAllChannels(ctx context.Context) {
-    {{- range  $key, $value := .Operations.Receive}}
-    {{- if not .Channel.Follow.Parameters}}
-    c.UnsubscribeFrom{{ namify $value.Follow.Name }}(ctx)
-    {{- end}}
-    {{- end}}
+    for addr, sub := range c.subscriptions {
+        // Set context
+        subCtx := add{{ .Prefix }}ContextValues(ctx, addr)
+
+        // Stop the subscription
+        sub.Cancel(subCtx)
+
+        // Remove if from the receivers
+        delete(c.subscriptions, addr)
+
+        c.logger.Info(subCtx, "Unsubscribed from channel")
+    }
 }
 {{- end}}
 
@@ -254,7 +261,7 @@ func (c *{{ $.Prefix }}Controller) listenTo{{ namify $value.Follow.Name }}NextMe
 func (c *{{ $.Prefix }}Controller) ReplyTo{{ namify $value.Follow.Name }}(ctx context.Context, recvMsg {{opToMsgTypeName $value}}, fn func(replyMsg *{{opToMsgTypeName $value.ReplyIs}})) error {
     // Create reply message
     replyMsg := New{{opToMsgTypeName $value.ReplyIs }}()
-    {{if $value.GetMessage.HaveCorrelationID -}}
+    {{if and $value.GetMessage.HaveCorrelationID $value.ReplyIs.GetMessage.HaveCorrelationID -}}
 	replyMsg.SetAsResponseFrom(&recvMsg)
     {{- end}}
 
@@ -264,7 +271,7 @@ func (c *{{ $.Prefix }}Controller) ReplyTo{{ namify $value.Follow.Name }}(ctx co
     // Publish reply
     {{- /* Use reply address if needed */}}
     {{- if and .Reply.Address (eq .Reply.Channel.Address "") }}
-        {{- if .Reply.Address.LocationRequired }}
+        {{- if not (isLocationPointer .Reply.Address.LocationRequired) }}
             chanAddr := recvMsg.{{referenceToStructAttributePath .Reply.Address.Location}}
         {{- else }}
             if recvMsg.{{referenceToStructAttributePath .Reply.Address.Location}} == nil {
@@ -374,6 +381,9 @@ func (c *{{ $.Prefix }}Controller) Send{{ if eq $.Prefix "User" }}To{{else}}As{{
 
 {{if .Reply -}}
 
+{{- /* The response can be identified only if both messages have a correlation ID */}}
+{{- $correlated := and $value.GetMessage.HaveCorrelationID $value.ReplyIs.GetMessage.HaveCorrelationID}}
+
 // Request{{ if eq $.Prefix "User" }}To{{else}}As{{end}}{{ namify $value.Follow.Name }} will send a {{ cutSuffix (opToMsgTypeName $value) "Message" }} message on {{ cutSuffix (opToChannelTypeName $value) "Channel" }} channel
 // and wait for a {{ cutSuffix (opToMsgTypeName $value.ReplyIs) "Message" }} message from {{ cutSuffix (opToChannelTypeName $value.ReplyIs) "Channel" }} channel.
 //
@@ -389,14 +399,14 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
     params {{namifyWithoutParam $value.Channel.Follow.Name}}Parameters,
     {{- end}}
     msg {{opToMsgTypeName $value}},
-) ({{channelToMessageTypeName .Reply.Channel}}, error) {
+) ({{opToMsgTypeName $value.ReplyIs}}, error) {
     // Get receiving channel address
     {{- if and .Reply.Address (eq .Reply.Channel.Address "") }}
-        {{- if .Reply.Address.LocationRequired }}
+        {{- if not (isLocationPointer .Reply.Address.LocationRequired) }}
             addr := msg.{{referenceToStructAttributePath .Reply.Address.Location}}
         {{- else }}
             if msg.{{referenceToStructAttributePath .Reply.Address.Location}} == nil {
-                return {{channelToMessageTypeName .Reply.Channel}}{}, fmt.Errorf("%w: {{.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
+                return {{opToMsgTypeName $value.ReplyIs}}{}, fmt.Errorf("%w: {{.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
             }
             addr := *msg.{{referenceToStructAttributePath .Reply.Address.Location}}
         {{- end }}
@@ -412,7 +422,7 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
     sub, err := c.broker.Subscribe(ctx, addr)
     if err != nil {
         c.logger.Error(ctx, err.Error())
-        return {{channelToMessageTypeName .Reply.Channel}}{}, err
+        return {{opToMsgTypeName $value.ReplyIs}}{}, err
     }
     c.logger.Info(ctx, "Subscribed to channel")
 
@@ -435,23 +445,24 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
     // Send the message 
     if err := c.Send{{ if eq $.Prefix "User" }}To{{else}}As{{end}}{{ namify $value.Follow.Name }}(ctx, {{- if .Channel.Follow.Parameters}}params,{{- end}} msg); err != nil {
         c.logger.Error(ctx, "error happened when sending message", extensions.LogInfo{Key: "error", Value: err.Error()})
-        return {{channelToMessageTypeName .Reply.Channel}}{}, fmt.Errorf("error happened when sending message: %w", err)
+        return {{opToMsgTypeName $value.ReplyIs}}{}, fmt.Errorf("error happened when sending message: %w", err)
     }
 
     // Wait for corresponding response
     for {
         // Listen to next message
-        msg, err := c.waitFor{{ namify $value.Follow.Name }}NextResponse(ctx, addr, sub{{if $value.GetMessage.HaveCorrelationID}}, msg{{end}})
+        rmsg, err := c.waitFor{{ namify $value.Follow.Name }}NextResponse(ctx, addr, sub{{if $correlated}}, msg{{end}})
         if err != nil {
             c.logger.Error(ctx, err.Error())
+            return {{opToMsgTypeName $value.ReplyIs}}{}, err
         }
 
         // Continue if the message hasn't been received
-        if msg == nil {
+        if rmsg == nil {
             continue
         }
 
-        return *msg, nil
+        return *rmsg, nil
     }
 }
 
@@ -459,15 +470,15 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
     ctx context.Context,
     addr string,
     sub extensions.BrokerChannelSubscription,
-    {{- if $value.GetMessage.HaveCorrelationID}}
+    {{- if $correlated}}
     msg {{opToMsgTypeName $value}},
     {{- end}}
-) (*{{channelToMessageTypeName .Reply.Channel}}, error) {
+) (*{{opToMsgTypeName $value.ReplyIs}}, error) {
     // Create a context for the received response
     msgCtx, cancel := context.WithCancel(context.Background())
     msgCtx = add{{ $.Prefix }}ContextValues(msgCtx, addr)
     msgCtx = context.WithValue(msgCtx, extensions.ContextKeyIsDirection, "wait-for")      
-    {{if $value.GetMessage.HaveCorrelationID -}}
+    {{if $correlated -}}
         msgCtx = context.WithValue(msgCtx, extensions.ContextKeyIsCorrelationID, msg.CorrelationID())
     {{end -}}
     defer cancel()
@@ -482,16 +493,19 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
             return nil, extensions.ErrSubscriptionCanceled
         }
 
-        {{if $value.GetMessage.HaveCorrelationID -}}
+        {{if $correlated -}}
         // Get new message
-        rmsg, err := brokerMessageTo{{channelToMessageTypeName .Reply.Channel}}(acknowledgeableBrokerMessage.BrokerMessage)
-        if err != nil {
-            c.logger.Error(msgCtx, err.Error())
-        }
+        rmsg, err := brokerMessageTo{{opToMsgTypeName $value.ReplyIs}}(acknowledgeableBrokerMessage.BrokerMessage)
 
         // Acknowledge the message
         acknowledgeableBrokerMessage.Ack()
 
+        // If message cannot be read, then it cannot be identified: ignore and continue
+        if err != nil {
+            c.logger.Error(msgCtx, err.Error())
+            return nil, nil
+        }
+
         // If message doesn't have corresponding correlation ID, then ingore and continue
         if msg.CorrelationID() != rmsg.CorrelationID() {
             return nil, nil
@@ -499,6 +513,9 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
         {{- else}}
         // There is correlation no ID, so it will automatically return at
         // the first received message.
+
+        // Acknowledge the message
+        acknowledgeableBrokerMessage.Ack()
         {{- end}}
 
         // Set context with received values as it is the expected message
@@ -513,7 +530,7 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
         //
         // NOTE: it is transformed from the broker again, as it could have
         // been modified by middlewares
-        rmsg, err {{ if not $value.GetMessage.HaveCorrelationID}}:{{end}}= brokerMessageTo{{channelToMessageTypeName .Reply.Channel}}(acknowledgeableBrokerMessage.BrokerMessage)
+        rmsg, err {{ if not $correlated}}:{{end}}= brokerMessageTo{{opToMsgTypeName $value.ReplyIs}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             return nil, err
         }
-- 
2.43.0


From e16a1d86a226581cc09db49a4d2ca81dab6d8f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 09/37] fix: v3 references, compositions and dependencies are
 resolved once and followed to their target

---
 pkg/asyncapi/v3/channel.go                    |  40 ++++-
 pkg/asyncapi/v3/correlation_id.go             |   7 +-
 pkg/asyncapi/v3/message.go                    | 154 +++++++++++-------
 pkg/asyncapi/v3/message_trait.go              |  25 ++-
 pkg/asyncapi/v3/operation.go                  |  40 ++++-
 pkg/asyncapi/v3/operation_reply.go            |   7 +
 pkg/asyncapi/v3/operation_reply_address.go    |   4 +-
 pkg/asyncapi/v3/schema.go                     |  63 +++++--
 pkg/asyncapi/v3/specification.go              |  24 +++
 .../generators/v3/templates/definitions.go    |  99 +++++++++++
 .../generators/v3/templates/helpers.go        |  41 +++--
 .../generators/v3/templates/message.tmpl      |  38 ++---
 .../v3/templates/schema_definition.tmpl       |  17 +-
 .../generators/v3/templates/schema_name.tmpl  |   2 +-
 .../generators/v3/templates/types.tmpl        |  29 +++-
 15 files changed, 449 insertions(+), 141 deletions(-)
 create mode 100644 pkg/codegen/generators/v3/templates/definitions.go

diff --git a/pkg/asyncapi/v3/channel.go b/pkg/asyncapi/v3/channel.go
index 7e27d0d..41965d2 100644
--- a/pkg/asyncapi/v3/channel.go
+++ b/pkg/asyncapi/v3/channel.go
@@ -38,6 +38,8 @@ type Channel struct {
 
 	Name        string   `json:"-"`
 	ReferenceTo *Channel `json:"-"`
+
+	dependenciesSet bool // True when the dependencies have been set (or are being set)
 }
 
 // generateMetadata generates metadata for the Channel.
@@ -82,10 +84,11 @@ func (ch *Channel) generateMetadata(parentName, name string) error {
 //
 //nolint:cyclop
 func (ch *Channel) setDependencies(spec Specification) error {
-	// Prevent modification if nil
-	if ch == nil {
+	// Prevent modification if nil, or if already done
+	if ch == nil || ch.dependenciesSet {
 		return nil
 	}
+	ch.dependenciesSet = true
 
 	// Set reference
 	if err := ch.setReference(spec); err != nil {
@@ -141,21 +144,44 @@ func (ch *Channel) setReference(spec Specification) error {
 	}
 	ch.ReferenceTo = refTo
 
+	// Set dependencies of the referenced channel first, as it can be a reference too
+	if err := refTo.setDependencies(spec); err != nil {
+		return err
+	}
+
+	// Check that this reference does not lead to itself
+	for r := refTo; r != nil; r = r.ReferenceTo {
+		if r == ch {
+			return fmt.Errorf("%w: circular reference %q", ErrInvalidReference, ch.Reference)
+		}
+	}
+
 	return nil
 }
 
 // Follow returns referenced channel if specified or the actual channel.
 func (ch *Channel) Follow() *Channel {
-	if ch.ReferenceTo != nil {
-		return ch.ReferenceTo
+	for ch.ReferenceTo != nil {
+		ch = ch.ReferenceTo
 	}
 	return ch
 }
 
 // GetMessage will return the channel message.
 func (ch Channel) GetMessage() (*Message, error) {
-	for _, m := range ch.Follow().Messages {
-		return m.Follow(), nil // TODO: change
+	messages := ch.Follow().Messages
+
+	// Get the first message, by order of the keys
+	var first *string
+	for k := range messages {
+		if first == nil || k < *first {
+			key := k
+			first = &key
+		}
+	}
+	if first == nil || messages[*first] == nil {
+		return nil, fmt.Errorf("%w: channel %q", ErrNoMessageInChannel, ch.Name)
 	}
-	return nil, fmt.Errorf("%w: channel %q", ErrNoMessageInChannel, ch.Name)
+
+	return messages[*first].Follow(), nil // TODO: change
 }
diff --git a/pkg/asyncapi/v3/correlation_id.go b/pkg/asyncapi/v3/correlation_id.go
index 720d21e..5ce970f 100644
--- a/pkg/asyncapi/v3/correlation_id.go
+++ b/pkg/asyncapi/v3/correlation_id.go
@@ -12,8 +12,8 @@ type CorrelationID struct {
 
 	// --- Non AsyncAPI fields -------------------------------------------------
 
-	Name        string   `json:"-"`
-	ReferenceTo *Channel `json:"-"`
+	Name        string         `json:"-"`
+	ReferenceTo *CorrelationID `json:"-"`
 }
 
 // generateMetadata generates metadata for the CorrelationID.
@@ -36,11 +36,12 @@ func (c *CorrelationID) setDependencies(spec Specification) error {
 
 	// Add pointer to reference if there is one
 	if c.Reference != "" {
-		refTo, err := spec.ReferenceChannel(c.Reference)
+		refTo, err := spec.ReferenceCorrelationID(c.Reference)
 		if err != nil {
 			return err
 		}
 		c.ReferenceTo = refTo
+		c.Location = refTo.Location
 	}
 
 	return nil
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 5cea676..b32ec64 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -6,7 +6,6 @@ import (
 
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils"
-	"github.com/mohae/deepcopy"
 )
 
 // MessageField is a structure that represents the type of a field.
@@ -60,6 +59,8 @@ type Message struct {
 	// CorrelationIDLocation will indicate where the correlation id is
 	// According to: https://www.asyncapi.com/docs/reference/specification/v3.0.0#correlationIdObject
 	CorrelationIDRequired bool `json:"-"`
+
+	dependenciesSet bool // True when the dependencies have been set (or are being set)
 }
 
 // generateMetadata generates metadata for the Message.
@@ -101,23 +102,16 @@ func (msg *Message) generateMetadata(parentName, name string, number *int) error
 	msg.generateExamplesMetadata()
 
 	// Generate traits metadata
-	if err := msg.generateTraitsMetadata(); err != nil {
-		return err
-	}
-
-	// Process correlation ID
-	msg.createCorrelationIDFieldIfMissing()
-	msg.CorrelationIDRequired = msg.isCorrelationIDRequired()
-
-	return nil
+	return msg.generateTraitsMetadata()
 }
 
 // setDependencies sets dependencies between the different elements of the Message.
 func (msg *Message) setDependencies(spec Specification) error {
-	// Prevent modification if nil
-	if msg == nil {
+	// Prevent modification if nil, or if already done
+	if msg == nil || msg.dependenciesSet {
 		return nil
 	}
+	msg.dependenciesSet = true
 
 	// Add pointer to reference if there is one
 	if err := msg.setReference(spec); err != nil {
@@ -160,7 +154,22 @@ func (msg *Message) setDependencies(spec Specification) error {
 	}
 
 	// Set traits dependencies
-	return msg.setTraitsDependencies(spec)
+	if err := msg.setTraitsDependencies(spec); err != nil {
+		return err
+	}
+
+	// Set correlation ID dependencies
+	if err := msg.CorrelationID.setDependencies(spec); err != nil {
+		return err
+	}
+
+	// Process correlation ID
+	// NOTE: this is done when everything else is set, as the location can be in
+	// references or come from traits
+	msg.createCorrelationIDFieldIfMissing()
+	msg.CorrelationIDRequired = msg.isCorrelationIDRequired()
+
+	return nil
 }
 
 func (msg *Message) setReference(spec Specification) error {
@@ -174,6 +183,18 @@ func (msg *Message) setReference(spec Specification) error {
 	}
 	msg.ReferenceTo = refMsg
 
+	// Set dependencies of the referenced message first, as it can be a reference too
+	if err := refMsg.setDependencies(spec); err != nil {
+		return err
+	}
+
+	// Check that this reference does not lead to itself
+	for r := refMsg; r != nil; r = r.ReferenceTo {
+		if r == msg {
+			return fmt.Errorf("%w: circular reference %q", ErrInvalidReference, msg.Reference)
+		}
+	}
+
 	return nil
 }
 
@@ -214,7 +235,15 @@ func (msg *Message) generateHeadersMetadata() error {
 		return nil
 	}
 
-	if err := msg.Headers.generateMetadata(msg.Name, "Headers", nil, false); err != nil {
+	return msg.Headers.generateMetadata(msg.Name, "Headers", nil, false)
+}
+
+func (msg *Message) setHeadersDependencies(spec Specification) error {
+	if msg.Headers == nil {
+		return nil
+	}
+
+	if err := msg.Headers.setDependencies(spec); err != nil {
 		return err
 	}
 
@@ -227,14 +256,6 @@ func (msg *Message) generateHeadersMetadata() error {
 	return nil
 }
 
-func (msg *Message) setHeadersDependencies(spec Specification) error {
-	if msg.Headers == nil {
-		return nil
-	}
-
-	return msg.Headers.setDependencies(spec)
-}
-
 func (msg *Message) generateOneOfMetadata() error {
 	for i, v := range msg.OneOf {
 		if err := v.generateMetadata(msg.Name, "", &i); err != nil {
@@ -331,24 +352,29 @@ func (msg *Message) createTreeUntilLocationFromMessageType(t MessageField, locat
 		placeholder = &msg.Payload
 	}
 
-	var child *Schema
-	switch {
-	case (*placeholder) != nil && (*placeholder).ReferenceTo != nil: // If there is a reference
-		// Use it as child
-		child = (*placeholder).ReferenceTo
-	case (*placeholder) == nil: // If there is no header and no reference
-		// Create a default one for the message
+	// If there is nothing and no reference, create a default one for the message
+	if (*placeholder) == nil {
 		(*placeholder) = utils.ToPointer(NewSchema())
-		(*placeholder).Name = MessageFieldIsHeader.String()
+		if t == MessageFieldIsHeader {
+			(*placeholder).Name = msg.headersName()
+		} else {
+			(*placeholder).Name = msg.payloadName()
+		}
 		(*placeholder).Type = SchemaTypeIsObject.String()
-		fallthrough
-	default:
-		// Set the child as the message headers
-		child = (*placeholder)
 	}
 
 	// Go down the path to correlation ID
-	return msg.downToLocation(child, location)
+	return msg.downToLocation(*placeholder, location)
+}
+
+// headersName returns the name of the type for the headers of the message.
+func (msg Message) headersName() string {
+	return generateFullName(msg.Name, "Headers", "", nil)
+}
+
+// payloadName returns the name of the type for the payload of the message.
+func (msg Message) payloadName() string {
+	return generateFullName("", msg.Name+"_Payload", "", nil)
 }
 
 func (msg Message) downToLocation(child *Schema, location string) (locationParent *Schema) {
@@ -357,18 +383,19 @@ func (msg Message) downToLocation(child *Schema, location string) (locationParen
 	path := strings.Split(location, "/")
 	for i, v := range path[1:] {
 		// Keep the parent
-		locationParent = child
+		locationParent = child.Follow()
 
 		// Get the corresponding child
 		child, exists = locationParent.Properties[v]
 		if !exists { // If it doesn't exist
 			// Create child
 			child = utils.ToPointer(NewSchema())
-			child.Name = v
+			child.Name = generateFullName(locationParent.Name, v+"_Property", "", nil)
+			child.IsRequired = locationParent.IsFieldRequired(v)
 			if i == len(path)-2 { // As there is -1 in the loop slice
 				child.Type = SchemaTypeIsString.String()
 			} else {
-				child.Type = MessageFieldIsHeader.String()
+				child.Type = SchemaTypeIsObject.String()
 			}
 
 			// Add it to parent
@@ -388,10 +415,13 @@ func (msg *Message) referenceFrom(ref []string) any {
 	}
 
 	var next *Schema
-	if ref[0] == "payload" {
-		next = msg.Payload
-	} else if ref[0] == MessageFieldIsHeader.String() {
-		next = msg.Headers
+	if msg != nil {
+		switch ref[0] {
+		case MessageFieldIsPayload.String():
+			next = msg.Payload
+		case "headers", MessageFieldIsHeader.String():
+			next = msg.Headers
+		}
 	}
 
 	return next.referenceFrom(ref[1:])
@@ -462,7 +492,7 @@ func (msg *Message) mergeWithMessageFromReference(msg2 Message, spec Specificati
 func (msg *Message) mergeWithMessagePayload(msg2 Message, spec Specification) error {
 	if msg2.Payload != nil {
 		if msg.Payload == nil {
-			msg.Payload = deepcopy.Copy(msg2.Payload).(*Schema)
+			msg.Payload = msg2.Payload.copyWithName(msg.payloadName())
 		} else {
 			if err := msg.Payload.MergeWith(spec, *msg2.Payload); err != nil {
 				return err
@@ -476,7 +506,7 @@ func (msg *Message) mergeWithMessagePayload(msg2 Message, spec Specification) er
 func (msg *Message) mergeWithMessageHeaders(msg2 Message, spec Specification) error {
 	if msg2.Headers != nil {
 		if msg.Headers == nil {
-			msg.Headers = deepcopy.Copy(msg2.Headers).(*Schema)
+			msg.Headers = msg2.Headers.copyWithName(msg.headersName())
 		} else {
 			if err := msg.Headers.MergeWith(spec, *msg2.Headers); err != nil {
 				return err
@@ -488,8 +518,8 @@ func (msg *Message) mergeWithMessageHeaders(msg2 Message, spec Specification) er
 
 // Follow returns referenced message if specified or the actual message.
 func (msg *Message) Follow() *Message {
-	if msg.ReferenceTo != nil {
-		return msg.ReferenceTo
+	for msg.ReferenceTo != nil {
+		msg = msg.ReferenceTo
 	}
 	return msg
 }
@@ -561,14 +591,15 @@ func (msg *Message) mergeHeaders(spec Specification, headers *Schema) error {
 		return nil
 	}
 
-	// Check if message headers are nil, then create them
+	// Use a copy of the trait headers if there is no headers
 	if msg.Headers == nil {
-		newHeaders := utils.ToValue(headers.Follow())
-		msg.Headers = &newHeaders
-		if err := newHeaders.generateMetadata(msg.Name, "Headers", nil, false); err != nil {
-			return err
-		}
-		return newHeaders.setDependencies(spec)
+		msg.Headers = headers.copyWithName(msg.headersName())
+		return nil
+	}
+
+	// Do not modify the referenced headers, as they can be used elsewhere
+	if msg.Headers.ReferenceTo != nil {
+		msg.Headers = msg.Headers.copyWithName(msg.headersName())
 	}
 
 	// Merge headers
@@ -581,18 +612,19 @@ func (msg *Message) mergePayload(spec Specification, payload *Schema) error {
 		return nil
 	}
 
-	// Check if message payload is nil, then create them
+	// Use a copy of the trait payload if there is no payload
 	if msg.Payload == nil {
-		newPayload := utils.ToValue(payload.Follow())
-		msg.Payload = &newPayload
-		if err := newPayload.generateMetadata(msg.Name, "Payload", nil, false); err != nil {
-			return err
-		}
-		return newPayload.setDependencies(spec)
+		msg.Payload = payload.copyWithName(msg.payloadName())
+		return nil
+	}
+
+	// Do not modify the referenced payload, as it can be used elsewhere
+	if msg.Payload.ReferenceTo != nil {
+		msg.Payload = msg.Payload.copyWithName(msg.payloadName())
 	}
 
 	// Merge payload
-	return msg.Headers.MergeWith(spec, *payload)
+	return msg.Payload.MergeWith(spec, *payload)
 }
 
 // HaveCorrelationID check that the message have a correlation ID.
diff --git a/pkg/asyncapi/v3/message_trait.go b/pkg/asyncapi/v3/message_trait.go
index 821a2ef..a60be47 100644
--- a/pkg/asyncapi/v3/message_trait.go
+++ b/pkg/asyncapi/v3/message_trait.go
@@ -1,5 +1,7 @@
 package asyncapiv3
 
+import "fmt"
+
 // MessageTrait is a representation of the corresponding asyncapi object filled
 // from an asyncapi specification that will be used to generate code.
 // Source: https://www.asyncapi.com/docs/reference/specification/v3.0.0#messageTraitObject
@@ -28,6 +30,8 @@ type MessageTrait struct {
 	// According to: https://www.asyncapi.com/docs/reference/specification/v3.0.0#correlationIdObject
 	CorrelationIDLocation string `json:"-"`
 	CorrelationIDRequired bool   `json:"-"`
+
+	dependenciesSet bool // True when the dependencies have been set (or are being set)
 }
 
 // generateMetadata generates metadata for the MessageTrait.
@@ -73,10 +77,11 @@ func (mt *MessageTrait) generateMetadata(parentName, name string, number *int) e
 //
 //nolint:cyclop
 func (mt *MessageTrait) setDependencies(spec Specification) error {
-	// Prevent modification if nil
-	if mt == nil {
+	// Prevent modification if nil, or if already done
+	if mt == nil || mt.dependenciesSet {
 		return nil
 	}
+	mt.dependenciesSet = true
 
 	// Set reference
 	if err := mt.setReference(spec); err != nil {
@@ -131,13 +136,25 @@ func (mt *MessageTrait) setReference(spec Specification) error {
 	}
 	mt.ReferenceTo = refTo
 
+	// Set dependencies of the referenced trait first, as it can be a reference too
+	if err := refTo.setDependencies(spec); err != nil {
+		return err
+	}
+
+	// Check that this reference does not lead to itself
+	for r := refTo; r != nil; r = r.ReferenceTo {
+		if r == mt {
+			return fmt.Errorf("%w: circular reference %q", ErrInvalidReference, mt.Reference)
+		}
+	}
+
 	return nil
 }
 
 // Follow returns referenced MessageTrait if specified or the actual MessageTrait.
 func (mt *MessageTrait) Follow() *MessageTrait {
-	if mt.ReferenceTo != nil {
-		return mt.ReferenceTo
+	for mt.ReferenceTo != nil {
+		mt = mt.ReferenceTo
 	}
 	return mt
 }
diff --git a/pkg/asyncapi/v3/operation.go b/pkg/asyncapi/v3/operation.go
index 8f95f64..7c3c5e7 100644
--- a/pkg/asyncapi/v3/operation.go
+++ b/pkg/asyncapi/v3/operation.go
@@ -1,5 +1,11 @@
 package asyncapiv3
 
+import (
+	"fmt"
+
+	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
+)
+
 // OperationAction represents an OperationAction.
 type OperationAction string
 
@@ -95,6 +101,11 @@ func (op *Operation) setDependencies(spec Specification) error {
 		return err
 	}
 
+	// Check that there is a channel
+	if op.Channel == nil && op.ReferenceTo == nil {
+		return fmt.Errorf("%w: operation %q has no channel", extensions.ErrAsyncAPI, op.Name)
+	}
+
 	// Set channel dependencies if there is one
 	if err := op.Channel.setDependencies(spec); err != nil {
 		return err
@@ -135,9 +146,7 @@ func (op *Operation) setDependencies(spec Specification) error {
 	}
 
 	// Generate reply
-	op.generateReply()
-
-	return nil
+	return op.generateReply()
 }
 
 func (op *Operation) setReference(spec Specification) error {
@@ -167,25 +176,38 @@ func (op *Operation) setTraitsDependenciesAndApply(spec Specification) error {
 	return nil
 }
 
-func (op *Operation) generateReply() {
+func (op *Operation) generateReply() error {
 	// Return if there is no reply
 	if op == nil || op.Reply == nil {
-		return
+		return nil
+	}
+
+	// Check that there is a channel
+	if op.Reply.Channel == nil {
+		return fmt.Errorf("%w: reply of operation %q has no channel", extensions.ErrAsyncAPI, op.Name)
 	}
 
 	// Generate reply
-	ch := op.Reply.Channel.Follow()
 	op.ReplyIs = &Operation{
 		Name:    "ReplyTo" + op.Name,
-		Channel: ch,
-		ReplyOf: op,
+		Channel: op.Reply.Channel.Follow(),
+		// Messages expected in reply, if there are specified amongst the ones of the channel
+		Messages: op.Reply.Messages,
+		ReplyOf:  op,
 	}
+
+	return nil
 }
 
 // GetMessage will return the operation message.
 func (op Operation) GetMessage() (*Message, error) {
 	if len(op.Messages) > 0 {
-		return op.Messages[0], nil // TODO: change
+		return op.Messages[0].Follow(), nil // TODO: change
+	}
+
+	// Check that there is a channel
+	if op.Channel == nil {
+		return nil, fmt.Errorf("%w: operation %q has no channel", extensions.ErrAsyncAPI, op.Name)
 	}
 
 	return op.Channel.GetMessage()
diff --git a/pkg/asyncapi/v3/operation_reply.go b/pkg/asyncapi/v3/operation_reply.go
index 1bbb975..6fad83d 100644
--- a/pkg/asyncapi/v3/operation_reply.go
+++ b/pkg/asyncapi/v3/operation_reply.go
@@ -47,6 +47,13 @@ func (or *OperationReply) setDependencies(op *Operation, spec Specification) err
 			return err
 		}
 		or.ReferenceTo = refTo
+
+		// Use what is in the referenced reply
+		or.Channel, or.Messages = refTo.Channel, refTo.Messages
+		if refTo.Address != nil {
+			address := *refTo.Address
+			or.Address = &address
+		}
 	}
 
 	// Set channel dependencies if there is one
diff --git a/pkg/asyncapi/v3/operation_reply_address.go b/pkg/asyncapi/v3/operation_reply_address.go
index 9152f4b..27f9ec6 100644
--- a/pkg/asyncapi/v3/operation_reply_address.go
+++ b/pkg/asyncapi/v3/operation_reply_address.go
@@ -46,6 +46,7 @@ func (ora *OperationReplyAddress) setDependencies(op *Operation, spec Specificat
 			return err
 		}
 		ora.ReferenceTo = refTo
+		ora.Location = refTo.Location
 	}
 
 	// Get location to schema
@@ -59,7 +60,8 @@ func (ora *OperationReplyAddress) setDependencies(op *Operation, spec Specificat
 }
 
 func (ora OperationReplyAddress) isLocationRequired(op *Operation) (bool, error) {
-	if ora.Location == "" {
+	// NOTE: there is no operation channel when the address is in components
+	if ora.Location == "" || op.Channel == nil {
 		return false, nil
 	}
 
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index e44558f..b7ea688 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -1,6 +1,8 @@
 package asyncapiv3
 
 import (
+	"fmt"
+
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 )
@@ -60,6 +62,8 @@ type Schema struct {
 	Name        string  `json:"-"`
 	ReferenceTo *Schema `json:"-"`
 
+	dependenciesSet bool // True when the dependencies have been set (or are being set)
+
 	// Embedded validation fields
 	asyncapi.Validations[Schema]
 
@@ -169,10 +173,11 @@ func (s *Schema) generateMetadata(parentName, name string, number *int, isRequir
 //
 //nolint:funlen,cyclop // Not necessary to reduce length and cyclop
 func (s *Schema) setDependencies(spec Specification) error {
-	// Prevent modification if nil
-	if s == nil {
+	// Prevent modification if nil, or if already done
+	if s == nil || s.dependenciesSet {
 		return nil
 	}
+	s.dependenciesSet = true
 
 	// Set reference
 	if err := s.setReference(spec); err != nil {
@@ -298,7 +303,24 @@ func (s *Schema) setReference(spec Specification) error {
 		return err
 	}
 	s.ReferenceTo = refTo
+
+	// Set dependencies of the referenced schema first, as it can be a reference too
+	if err := refTo.setDependencies(spec); err != nil {
+		return err
+	}
+
+	// Check that this reference does not lead to itself
+	for r := refTo; r != nil; r = r.ReferenceTo {
+		if r == s {
+			return fmt.Errorf("%w: circular reference %q", ErrInvalidReference, s.Reference)
+		}
+	}
+
+	// Get validations from the referenced schema, but not its composition that
+	// is already merged in it
+	allOf, anyOf, oneOf := s.AllOf, s.AnyOf, s.OneOf
 	s.Validations.Merge(refTo.Validations)
+	s.AllOf, s.AnyOf, s.OneOf = allOf, anyOf, oneOf
 
 	return nil
 }
@@ -309,13 +331,28 @@ func (s Schema) IsFieldRequired(field string) bool {
 }
 
 func (s *Schema) referenceFrom(ref []string) *Schema {
-	if len(ref) == 0 {
+	if len(ref) == 0 || s == nil {
 		return s
 	}
 
 	return s.Properties[ref[0]].referenceFrom(ref[1:])
 }
 
+// copyWithName returns a copy of the schema (or of the one that is referenced),
+// with the given name. Inner schemas are shared between the schema and its copy.
+func (s *Schema) copyWithName(name string) *Schema {
+	c := *s.Follow()
+	c.Name = name
+	c.Required = append([]string(nil), c.Required...)
+
+	c.Properties = make(map[string]*Schema, len(s.Follow().Properties))
+	for k, v := range s.Follow().Properties {
+		c.Properties[k] = v
+	}
+
+	return &c
+}
+
 // MergeWith merges the given Schema structure with another one
 // (basically for AllOf, AnyOf, OneOf, etc).
 func (s *Schema) MergeWith(spec Specification, s2 Schema) error {
@@ -325,6 +362,11 @@ func (s *Schema) MergeWith(spec Specification, s2 Schema) error {
 
 	s.Type = SchemaTypeIsObject.String()
 
+	// Go directly to the last reference
+	if s2.ReferenceTo != nil {
+		s2.ReferenceTo = s2.ReferenceTo.Follow()
+	}
+
 	// Merge with other fields
 	s.mergeWithSchemaAllOf(s2)
 	s.mergeWithSchemaAnyOf(s2)
@@ -450,16 +492,7 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 		}
 
 		// Add the property
-		if v.Type == "object" {
-			s.Properties[k] = &Schema{
-				Validations: asyncapi.Validations[Schema]{
-					IsRequired: v.IsRequired,
-				},
-				ReferenceTo: v,
-			}
-		} else {
-			s.Properties[k] = v
-		}
+		s.Properties[k] = v
 
 		// Add to required if it is required
 		if v.IsRequired {
@@ -470,8 +503,8 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 
 // Follow returns referenced schema if specified or the actual schema.
 func (s *Schema) Follow() *Schema {
-	if s.ReferenceTo != nil {
-		return s.ReferenceTo
+	for s.ReferenceTo != nil {
+		s = s.ReferenceTo
 	}
 	return s
 }
diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index 0d5cc17..9163d30 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -242,6 +242,30 @@ func (s Specification) ReferenceChannelBindings(ref string) (*ChannelBindings, e
 	return bindings, nil
 }
 
+// ReferenceCorrelationID returns the CorrelationID struct corresponding to the given reference.
+func (s Specification) ReferenceCorrelationID(ref string) (*CorrelationID, error) {
+	// Get object pointed by reference
+	obj, err := s.reference(ref)
+	if err != nil {
+		return nil, err
+	}
+
+	// Cast to correlation ID
+	correlationID, ok := obj.(*CorrelationID)
+	if !ok {
+		return nil, fmt.Errorf(
+			"%w: cannot cast %q into 'CorrelationID' (type is %q)",
+			ErrInvalidReference, ref, reflect.TypeOf(obj))
+	}
+
+	// Check that correlation ID is not nil
+	if correlationID == nil {
+		return nil, fmt.Errorf("%w: empty target for correlation ID reference %q", ErrInvalidReference, ref)
+	}
+
+	return correlationID, nil
+}
+
 // ReferenceExternalDocumentation returns the ExternalDocumentation struct corresponding to the given reference.
 func (s Specification) ReferenceExternalDocumentation(ref string) (*ExternalDocumentation, error) {
 	// Get object pointed by reference
diff --git a/pkg/codegen/generators/v3/templates/definitions.go b/pkg/codegen/generators/v3/templates/definitions.go
new file mode 100644
index 0000000..fc83f26
--- /dev/null
+++ b/pkg/codegen/generators/v3/templates/definitions.go
@@ -0,0 +1,99 @@
+package templates
+
+import (
+	"text/template"
+
+	asyncapi "github.com/lerenn/asyncapi-codegen/pkg/asyncapi/v3"
+	templateutil "github.com/lerenn/asyncapi-codegen/pkg/utils/template"
+)
+
+// definitions keeps track of the types that are defined and used by a generation,
+// in order to define everything that is used, exactly once.
+type definitions struct {
+	defined  map[any]struct{}
+	names    map[string]struct{}
+	schemas  []*asyncapi.Schema
+	messages []*asyncapi.Message
+}
+
+// isFirst returns true if this is the first definition of the given object.
+func (d *definitions) isFirst(obj any) bool {
+	if _, exists := d.defined[obj]; exists {
+		return false
+	}
+
+	d.defined[obj] = struct{}{}
+	switch o := obj.(type) {
+	case *asyncapi.Schema:
+		d.names[templateutil.Namify(o.Name)] = struct{}{}
+	case *asyncapi.Message:
+		d.names[templateutil.Namify(o.Name)] = struct{}{}
+	}
+
+	return true
+}
+
+// isDefined returns true if there is already a definition for the object, or for
+// another one that has the same name (i.e. same name in this document and in a dependency).
+func (d *definitions) isDefined(obj any, name string) bool {
+	if _, exists := d.defined[obj]; exists {
+		return true
+	}
+
+	_, exists := d.names[templateutil.Namify(name)]
+	return exists
+}
+
+// use registers the use of an object. It returns an empty string as it should be
+// possible to use it anywhere in a template.
+func (d *definitions) use(obj any) string {
+	switch o := obj.(type) {
+	case *asyncapi.Schema:
+		d.schemas = append(d.schemas, o)
+	case *asyncapi.Message:
+		d.messages = append(d.messages, o)
+	}
+
+	return ""
+}
+
+// missingSchemas returns the schemas that have been used but that are not defined.
+func (d *definitions) missingSchemas() []*asyncapi.Schema {
+	var missing []*asyncapi.Schema
+	for _, s := range d.schemas {
+		if !d.isDefined(s, s.Name) {
+			missing = append(missing, s)
+		}
+	}
+
+	d.schemas = nil
+	return missing
+}
+
+// missingMessages returns the messages that have been used but that are not defined.
+func (d *definitions) missingMessages() []*asyncapi.Message {
+	var missing []*asyncapi.Message
+	for _, m := range d.messages {
+		if !d.isDefined(m, m.Name) {
+			missing = append(missing, m)
+		}
+	}
+
+	d.messages = nil
+	return missing
+}
+
+// definitionsFunctions returns the functions used to define everything once.
+func definitionsFunctions() template.FuncMap {
+	d := definitions{
+		defined: make(map[any]struct{}),
+		names:   make(map[string]struct{}),
+	}
+
+	return template.FuncMap{
+		"isFirstDefinition": d.isFirst,
+		"useDefinition":     d.use,
+		"missingSchemas":    d.missingSchemas,
+		"missingMessages":   d.missingMessages,
+	}
+}
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index b37b96a..c60024e 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -2,20 +2,30 @@ package templates
 
 import (
 	"fmt"
+	"maps"
 	"regexp"
+	"slices"
 	"strings"
 	"text/template"
 
 	asyncapi "github.com/lerenn/asyncapi-codegen/pkg/asyncapi/v3"
 	"github.com/lerenn/asyncapi-codegen/pkg/codegen/generators"
-	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 	templateutil "github.com/lerenn/asyncapi-codegen/pkg/utils/template"
 )
 
 // GetChildrenObjectSchemas will return all the children object schemas of a
 // schema, only from first level and without AnyOf, AllOf and OneOf.
 func GetChildrenObjectSchemas(s asyncapi.Schema) []*asyncapi.Schema {
-	allSchemas := utils.MapToList(s.Properties)
+	keys := make([]string, 0, len(s.Properties))
+	for k := range s.Properties {
+		keys = append(keys, k)
+	}
+	slices.Sort(keys)
+
+	allSchemas := make([]*asyncapi.Schema, 0, len(keys))
+	for _, k := range keys {
+		allSchemas = append(allSchemas, s.Properties[k])
+	}
 
 	if s.Items != nil {
 		allSchemas = append(allSchemas, s.Items)
@@ -25,15 +35,15 @@ func GetChildrenObjectSchemas(s asyncapi.Schema) []*asyncapi.Schema {
 		allSchemas = append(allSchemas, s.AdditionalProperties)
 	}
 
-	// Only keep object schemas
+	// Only keep object schemas, that can be items of arrays
 	filteredSchemas := make([]*asyncapi.Schema, 0, len(allSchemas))
 	for _, schema := range allSchemas {
+		for schema.Type == asyncapi.SchemaTypeIsArray.String() && schema.Items != nil {
+			schema = schema.Items
+		}
+
 		if schema.Type == asyncapi.SchemaTypeIsObject.String() {
 			filteredSchemas = append(filteredSchemas, schema)
-		} else if schema.Type == asyncapi.SchemaTypeIsArray.String() &&
-			schema.Items != nil &&
-			schema.Items.Type == asyncapi.SchemaTypeIsObject.String() {
-			filteredSchemas = append(filteredSchemas, schema.Items)
 		}
 	}
 
@@ -117,11 +127,11 @@ func GenerateChannelAddr(ch *asyncapi.Channel) string {
 	parameterRegexp := regexp.MustCompile("{[^{}]*}")
 
 	matches := parameterRegexp.FindAllString(ch.Address, -1)
-	format := parameterRegexp.ReplaceAllString(ch.Address, "%s")
+	format := parameterRegexp.ReplaceAllString(strings.ReplaceAll(ch.Address, "%", "%%"), "%s")
 
 	sprint := fmt.Sprintf("fmt.Sprintf(%q, ", format)
 	for _, m := range matches {
-		sprint += fmt.Sprintf("params.%s,", templateutil.Namify(m))
+		sprint += fmt.Sprintf("params.%s,", templateutil.Namify(strings.Trim(m, "{}")))
 	}
 
 	return sprint[:len(sprint)-1] + ")"
@@ -131,27 +141,38 @@ var isFieldPointer = func(parent asyncapi.Schema, field string, schema asyncapi.
 	return !(IsRequired(parent, field) || schema.IsRequired) && schema.Type != "array"
 }
 
+// isLocationPointer returns true if the field at the location of a correlation ID or
+// of a reply address is a pointer, based on the fact that it is required or not.
+var isLocationPointer = func(isRequired bool) bool {
+	return !isRequired
+}
+
 // ForcePointerOnFields is used to force the generation of all fields as pointers, except for arrays.
 func ForcePointerOnFields() {
 	isFieldPointer = func(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
 		return schema.Type != "array"
 	}
+	isLocationPointer = func(_ bool) bool { return true }
 }
 
 // HelpersFunctions returns the functions that can be used as helpers
 // in a golang template.
 func HelpersFunctions() template.FuncMap {
-	return template.FuncMap{
+	funcs := template.FuncMap{
 		"getChildrenObjectSchemas":       GetChildrenObjectSchemas,
 		"channelToMessageTypeName":       ChannelToMessageTypeName,
 		"opToMsgTypeName":                OpToMsgTypeName,
 		"opToChannelTypeName":            OpToChannelTypeName,
 		"isRequired":                     IsRequired,
 		"isFieldPointer":                 isFieldPointer,
+		"isLocationPointer":              isLocationPointer,
 		"generateChannelAddr":            GenerateChannelAddr,
 		"generateChannelAddrFromOp":      GenerateChannelAddrFromOp,
 		"referenceToStructAttributePath": ReferenceToStructAttributePath,
 		"generateValidateTags":           generators.GenerateValidateTags[asyncapi.Schema],
 		"generateJSONTags":               generators.GenerateJSONTags[asyncapi.Schema],
 	}
+	maps.Copy(funcs, definitionsFunctions())
+
+	return funcs
 }
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index fb6c95f..183e6cd 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -1,6 +1,8 @@
 {{define "message" -}}
 
+{{- if isFirstDefinition . -}}
 {{if $.Reference }}
+{{- useDefinition .Follow }}
 
 // Message '{{namify .Name}}' reference another one at '{{$.Reference}}'.
 // This should be fixed in a future version to allow message override.
@@ -44,7 +46,7 @@ func New{{namify .Name}}() {{namify .Name}} {
     {{if $.HaveCorrelationID -}}
     // Set correlation ID
     u := uuid.New().String()
-    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if not $.CorrelationIDRequired}}&{{end}}u
+    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if isLocationPointer $.CorrelationIDRequired}}&{{end}}u
     {{- end}}
 
     return msg
@@ -55,10 +57,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     var msg {{namify .Name}}
 
     {{/* Get payload by reference, or not*/}}
-    {{- $payload := .Payload}}
-    {{- if .Payload.Reference }}
-    {{- $payload = .Payload.ReferenceTo }}
-    {{- end}}
+    {{- $payload := .Payload.Follow}}
 
     {{- /* Handle payload based on type */}}
     {{- if eq $payload.Type "string"}}
@@ -117,19 +116,16 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
         msg.Payload = {{template "schema-name" .Payload}}(payload)
     {{- end}}
 
-    {{ if .Headers -}}
+    {{ if and .Headers .Headers.Follow.Properties -}}
     // Get each headers from broker message
     for k, v := range bMsg.Headers {
         switch {
 
             {{- /* Get headers by reference, or not*/}}
-            {{- $headerProperties := .Headers.Properties}}
-            {{- if .Headers.Reference }}
-                {{- $headerProperties = .Headers.ReferenceTo.Properties}}
-            {{- end}}
+            {{- $headerProperties := .Headers.Follow.Properties}}
 
             {{- /* For each header */}}
-            {{- $headers := .Headers -}}
+            {{- $headers := .Headers.Follow -}}
             {{- range  $key, $value := $headerProperties}}
             {{- $header := $value.Follow}}
             case k == "{{$key}}": // Retrieving {{namify $key}} header
@@ -169,10 +165,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
     // TODO: implement checks on message
 
     {{/* Get payload by reference, or not*/}}
-    {{- $payload := .Payload}}
-    {{- if .Payload.Reference }}
-    {{- $payload = .Payload.ReferenceTo }}
-    {{- end}}
+    {{- $payload := .Payload.Follow}}
 
     {{/* Handle payload based on type */}}
     {{- if eq $payload.Type "integer"}}
@@ -214,14 +207,11 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
     {{ if .Headers -}}
 
         {{- /* Get headers by reference, or not*/}}
-        {{- $headerProperties := .Headers.Properties}}
-        {{if .Headers.Reference }}
-            {{- $headerProperties = .Headers.ReferenceTo.Properties}}
-        {{- end -}}
+        {{- $headerProperties := .Headers.Follow.Properties}}
 
         // Add each headers to broker message
         headers := make(map[string][]byte, {{ len $headerProperties }})
-        {{- $headers := .Headers -}}
+        {{- $headers := .Headers.Follow -}}
         {{/* For each header */ -}}
         {{- range  $key, $value := $headerProperties }}
 
@@ -267,7 +257,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
 {{if $.HaveCorrelationID -}}
 // CorrelationID will give the correlation ID of the message, based on AsyncAPI spec
 func (msg {{namify .Name}}) CorrelationID() string {
-    {{if $.CorrelationIDRequired -}}
+    {{if not (isLocationPointer $.CorrelationIDRequired) -}}
         return msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}}
     {{- else -}}
     if msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} != nil{
@@ -280,7 +270,7 @@ func (msg {{namify .Name}}) CorrelationID() string {
 
 // SetCorrelationID will set the correlation ID of the message, based on AsyncAPI spec
 func (msg *{{namify .Name}}) SetCorrelationID(id string) {
-    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if not $.CorrelationIDRequired -}}&{{end}}id
+    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if isLocationPointer $.CorrelationIDRequired -}}&{{end}}id
 }
 
 // SetAsResponseFrom will correlate the message with the one passed in parameter.
@@ -288,10 +278,12 @@ func (msg *{{namify .Name}}) SetCorrelationID(id string) {
 // both specified in AsyncAPI spec.
 func (msg *{{namify .Name}}) SetAsResponseFrom(req MessageWithCorrelationID) {
     id := req.CorrelationID()
-    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if not $.CorrelationIDRequired -}}&{{end}}id
+    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if isLocationPointer $.CorrelationIDRequired -}}&{{end}}id
 }
 {{- end -}}
 
 {{- end -}}
 
+{{- end -}}
+
 {{- end }}
diff --git a/pkg/codegen/generators/v3/templates/schema_definition.tmpl b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
index eab7057..6722c85 100644
--- a/pkg/codegen/generators/v3/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
@@ -1,4 +1,5 @@
 {{define "schema-definition" -}}
+{{- if isFirstDefinition . -}}
 
 // {{ .Name }} is a schema from the AsyncAPI specification required in messages
 {{if .Description -}}
@@ -12,8 +13,8 @@ type {{ namify .Name }} struct {
     {{- range $key, $value := .Properties -}}
     {{if $value.Description}}
     // Description: {{multiLineComment $value.Description}}
-    {{else if and $value.ReferenceTo $value.ReferenceTo.Description}}
-    // Description: {{multiLineComment $value.ReferenceTo.Description}}
+    {{else if and $value.ReferenceTo $value.Follow.Description}}
+    // Description: {{multiLineComment $value.Follow.Description}}
     {{end -}}
     {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags $value.Validations $key}}{{generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Type }}`
     {{end -}}
@@ -30,9 +31,18 @@ type {{ namify .Name }} struct {
 {{- end}}
 
 {{- /* ----------------------------- Others ----------------------------- */ -}}
+{{- else if .ReferenceTo -}}
+
+{{- /* Use an alias to have everything that is defined on the referenced type */ -}}
+{{- if eq (namify .Name) (namify .Follow.Name) -}}
+{{ useDefinition .Follow }}
+{{- else -}}
+type {{ namify .Name }} = {{template "schema-name" .}}
+{{- end }}
+
 {{- else -}}
 
-type {{ .Name }} {{template "schema-name" .}}
+type {{ namify .Name }} {{template "schema-name" .}}
 
 {{/* Create specific marshaling for time */ -}}
 {{- if isDateOrDateTimeGenerated .Format -}}
@@ -49,3 +59,4 @@ type {{ .Name }} {{template "schema-name" .}}
 {{- end}}
 
 {{- end -}}
+{{- end -}}
diff --git a/pkg/codegen/generators/v3/templates/schema_name.tmpl b/pkg/codegen/generators/v3/templates/schema_name.tmpl
index 03bc71a..a2a1a89 100644
--- a/pkg/codegen/generators/v3/templates/schema_name.tmpl
+++ b/pkg/codegen/generators/v3/templates/schema_name.tmpl
@@ -69,7 +69,7 @@ struct {
 
 {{- /* ---------------------------- Reference --------------------------- */ -}}
 {{- else if .ReferenceTo -}}
-{{ namify .Follow.Name }}
+{{ namify .Follow.Name }}{{ useDefinition .Follow }}
 
 {{- /* ----------------------- Unsupported usecase ---------------------- */ -}}
 {{- else -}}
diff --git a/pkg/codegen/generators/v3/templates/types.tmpl b/pkg/codegen/generators/v3/templates/types.tmpl
index d247648..dfcfeee 100644
--- a/pkg/codegen/generators/v3/templates/types.tmpl
+++ b/pkg/codegen/generators/v3/templates/types.tmpl
@@ -1,5 +1,5 @@
 // AsyncAPIVersion is the version of the used AsyncAPI document
-const AsyncAPIVersion = "{{ .Info.Version }}"
+const AsyncAPIVersion = {{ printf "%q" .Info.Version }}
 
 // controller is the controller that will be used to communicate with the broker
 // It will be used internally by AppController and UserController
@@ -56,7 +56,11 @@ func (e *Error) Error() string {
     return fmt.Sprintf("channel %q: err %v", e.Channel, e.Err)
 }
 
-{{range $key, $value := .Channels -}}
+{{range $key, $ref := .Channels -}}
+
+{{- /* NOTE: use the referenced channel if there is one, only once */ -}}
+{{- with $value := $ref.Follow -}}
+{{- if isFirstDefinition $value -}}
 
 {{- if $value.Parameters -}}
 // {{ namifyWithoutParam .Name }}Parameters represents {{ namify .Name }} channel parameters
@@ -72,6 +76,8 @@ type {{ namifyWithoutParam .Name }}Parameters struct {
 {{template "message" $value}}
 {{end -}}
 
+{{- end}}
+{{- end}}
 {{- end}}
 
 {{/* NOTE: No need to generate messages from operation as they are only references */}}
@@ -84,11 +90,17 @@ type {{ namifyWithoutParam .Name }}Parameters struct {
 {{template "schema-definition" $value}}
 {{- end}}
 
+{{- /* Generate what is used but not in this document (i.e. in dependencies) */}}
+{{range missingMessages}}
+{{template "message" .}}
+{{- end}}
+{{template "missing-schemas"}}
+
 {{- if .Channels}}
 const(
 {{- range $key, $value := .Channels}}
     // {{ namifyWithoutParam .Follow.Name }}Path is the constant representing the '{{ .Follow.Name }}' channel path.
-    {{ namifyWithoutParam .Follow.Name }}Path = "{{ .Follow.Address }}"
+    {{ namifyWithoutParam .Follow.Name }}Path = {{ printf "%q" .Follow.Address }}
 {{- end}}
 )
 
@@ -98,4 +110,13 @@ var ChannelsPaths = []string{
     {{ namifyWithoutParam .Follow.Name }}Path,
 {{- end}}
 }
-{{- end}}
\ No newline at end of file
+{{- end}}
+
+{{- define "missing-schemas" -}}
+{{- with missingSchemas -}}
+{{- range .}}
+{{template "schema-definition" .}}
+{{- end}}
+{{template "missing-schemas"}}
+{{- end -}}
+{{- end -}}
-- 
2.43.0


From 1e548bd085ed8a25cae5b9265b5fa9108b48006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 10/37] fix: references that are too short and empty channels
 are rejected instead of crashing

---
 pkg/asyncapi/v2/specification.go |  9 +++++++++
 pkg/asyncapi/v3/specification.go | 11 ++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/pkg/asyncapi/v2/specification.go b/pkg/asyncapi/v2/specification.go
index 4cad206..b81b855 100644
--- a/pkg/asyncapi/v2/specification.go
+++ b/pkg/asyncapi/v2/specification.go
@@ -82,6 +82,10 @@ func (s *Specification) generateMetadata() error {
 	}
 
 	for path, ch := range s.Channels {
+		if ch == nil {
+			return fmt.Errorf("%w: channel %q is empty", extensions.ErrAsyncAPI, path)
+		}
+
 		if err := ch.generateMetadata(path); err != nil {
 			return err
 		}
@@ -235,6 +239,11 @@ func (s Specification) reference(ref string) (any, error) {
 	ref = strings.TrimPrefix(ref, "/")
 	refPath := strings.Split(ref, "/")
 
+	// Check that there are enough parts to have something to point at
+	if len(refPath) < 3 {
+		return nil, fmt.Errorf("%w: reference %q is too short", ErrInvalidReference, ref)
+	}
+
 	switch refPath[0] {
 	case "components":
 		switch refPath[1] {
diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index 9163d30..f589b76 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -713,6 +713,11 @@ func (s Specification) reference(ref string) (any, error) {
 	ref = strings.TrimPrefix(ref, "/")
 	refPath := strings.Split(ref, "/")
 
+	// Check that there are enough parts to have something to point at
+	if len(refPath) < 2 || (refPath[0] == "components" && len(refPath) < 3) {
+		return nil, fmt.Errorf("%w: reference %q is too short", ErrInvalidReference, ref)
+	}
+
 	switch refPath[0] {
 	case "components":
 		switch refPath[1] {
@@ -765,7 +770,11 @@ func (s Specification) reference(ref string) (any, error) {
 		}
 		switch refPath[2] {
 		case "messages":
-			msg := usedSpec.Channels[refPath[1]].Messages[refPath[3]]
+			ch := usedSpec.Channels[refPath[1]]
+			if ch == nil || len(refPath) < 4 {
+				return nil, fmt.Errorf("%w: no message at reference %q", ErrInvalidReference, ref)
+			}
+			msg := ch.Messages[refPath[3]]
 			return msg.referenceFrom(refPath[4:]), nil
 		default:
 			return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, refPath[2], ref)
-- 
2.43.0


From 1fbe13616767dfe0843b9c23f17b8e799e49f72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 11/37] fix: v2 controllers use the message of the right
 direction, unsubscribe from actual subscriptions and return wait errors

---
 .../generators/v2/templates/controller.tmpl   | 73 ++++++++++++-------
 .../generators/v2/templates/subscriber.tmpl   |  8 +-
 2 files changed, 53 insertions(+), 28 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/controller.tmpl b/pkg/codegen/generators/v2/templates/controller.tmpl
index 57a862e..deffe74 100644
--- a/pkg/codegen/generators/v2/templates/controller.tmpl
+++ b/pkg/codegen/generators/v2/templates/controller.tmpl
@@ -1,3 +1,11 @@
+{{- /* Channels directions are reverse on application side */ -}}
+{{- $subscribe := "subscribe" -}}
+{{- $publish := "publish" -}}
+{{- if eq .Prefix "App" -}}
+{{- $subscribe = "publish" -}}
+{{- $publish = "subscribe" -}}
+{{- end -}}
+
 // {{ .Prefix }}Controller is the structure that provides publishing capabilities to the
 // developer and and connect the broker with the {{ .Prefix }}
 type {{ .Prefix }}Controller struct {
@@ -86,7 +94,7 @@ func (c {{ .Prefix }}Controller) executeMiddlewares(ctx context.Context, msg *ex
 }
 
 func add{{ .Prefix }}ContextValues(ctx context.Context, path string) context.Context {
-    ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, "{{ .Version }}")
+    ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, {{ printf "%q" .Version }})
     ctx = context.WithValue(ctx, extensions.ContextKeyIsProvider, "{{ snakeCase .Prefix }}")
     return context.WithValue(ctx, extensions.ContextKeyIsChannel, path)
 }
@@ -122,11 +130,18 @@ func (c *{{ .Prefix }}Controller) SubscribeAll(ctx context.Context, as {{ .Prefi
 
 // UnsubscribeAll will unsubscribe all remaining subscribed channels
 func (c *{{ .Prefix }}Controller) UnsubscribeAll(ctx context.Context) {
-    {{- range  $key, $value := .SubscribeChannels}}
-    {{- if not .Parameters}}
-    c.Unsubscribe{{operationName $value}}(ctx)
-    {{- end}}
-    {{- end}}
+    for path, sub := range c.subscriptions {
+        // Set context
+        subCtx := add{{ .Prefix }}ContextValues(ctx, path)
+
+        // Stop the subscription
+        sub.Cancel(subCtx)
+
+        // Remove if from the subscribers
+        delete(c.subscriptions, path)
+
+        c.logger.Info(subCtx, "Unsubscribed from channel")
+    }
 }
 {{- end}}
 
@@ -137,9 +152,9 @@ func (c *{{ .Prefix }}Controller) UnsubscribeAll(ctx context.Context) {
 func (c *{{ $.Prefix }}Controller) Subscribe{{operationName $value}}(
     ctx context.Context,
     {{- if .Parameters}}
-    params {{namifyWithoutParam $key}}Parameters,
+    params {{namifyWithoutParam .Name}}Parameters,
     {{- end }}
-    fn func (ctx context.Context, msg {{(channelToMessage $value "subscribe").Name}}) error,
+    fn func (ctx context.Context, msg {{(channelToMessage $value $subscribe).Name}}) error,
 ) error {
     // Get channel path
     path := {{ generateChannelPath $value }}
@@ -189,7 +204,7 @@ func (c *{{ $.Prefix }}Controller) Subscribe{{operationName $value}}(
 func (c *{{ $.Prefix }}Controller) listenTo{{operationName $value}}NextMessage(
     path string,
     sub extensions.BrokerChannelSubscription,
-    fn func (ctx context.Context, msg {{(channelToMessage $value "subscribe").Name}}) error,
+    fn func (ctx context.Context, msg {{(channelToMessage $value $subscribe).Name}}) error,
 ) (stop bool, err error) {
     // Create a context for the received response
     msgCtx, cancel := context.WithCancel(context.Background())
@@ -212,12 +227,12 @@ func (c *{{ $.Prefix }}Controller) listenTo{{operationName $value}}NextMessage(
     // Execute middlewares before handling the message
     if err := c.executeMiddlewares(msgCtx, &acknowledgeableBrokerMessage.BrokerMessage, func(middlewareCtx context.Context) error {
         // Process message
-        msg, err := brokerMessageTo{{(channelToMessage $value "subscribe").Name}}(acknowledgeableBrokerMessage.BrokerMessage)
+        msg, err := brokerMessageTo{{(channelToMessage $value $subscribe).Name}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             return err
         }
 
-        {{if ne (channelToMessage $value "subscribe").CorrelationIDLocation "" -}}
+        {{if ne (channelToMessage $value $subscribe).CorrelationIDLocation "" -}}
             // Add correlation ID to context if it exists
             if id := msg.CorrelationID(); id != "" {
                 middlewareCtx = context.WithValue(middlewareCtx, extensions.ContextKeyIsCorrelationID, id)
@@ -245,7 +260,7 @@ func (c *{{ $.Prefix }}Controller) listenTo{{operationName $value}}NextMessage(
 // Unsubscribe{{operationName $value}} will unsubscribe messages from '{{$key}}' channel.
 // A timeout can be set in context to avoid blocking operation, if needed.
 {{- if .Parameters}}
-func (c *{{ $.Prefix }}Controller) Unsubscribe{{operationName $value}}(ctx context.Context, params {{namifyWithoutParam $key}}Parameters) {
+func (c *{{ $.Prefix }}Controller) Unsubscribe{{operationName $value}}(ctx context.Context, params {{namifyWithoutParam .Name}}Parameters) {
 {{- else}}
 func (c *{{ $.Prefix }}Controller) Unsubscribe{{operationName $value}}(ctx context.Context) {
 {{- end}}
@@ -276,14 +291,14 @@ func (c *{{ $.Prefix }}Controller) Unsubscribe{{operationName $value}}(ctx conte
 func (c *{{ $.Prefix }}Controller) Publish{{operationName $value}}(
     ctx context.Context,
     {{- if .Parameters }}
-    params {{namifyWithoutParam $key}}Parameters,
+    params {{namifyWithoutParam .Name}}Parameters,
     {{- end}}
-    msg {{(channelToMessage $value "publish").Name}},
+    msg {{(channelToMessage $value $publish).Name}},
 ) error {
     // Get channel path
     path := {{ generateChannelPath $value }}
 
-    {{if ne (channelToMessage $value "publish").CorrelationIDLocation "" -}}
+    {{if ne (channelToMessage $value $publish).CorrelationIDLocation "" -}}
     // Set correlation ID if it does not exist
     if id := msg.CorrelationID(); id == "" {
         msg.SetCorrelationID(uuid.New().String())
@@ -293,7 +308,7 @@ func (c *{{ $.Prefix }}Controller) Publish{{operationName $value}}(
     // Set context
     ctx = add{{ $.Prefix }}ContextValues(ctx, path)
     ctx = context.WithValue(ctx, extensions.ContextKeyIsDirection, "publication")
-    {{if ne (channelToMessage $value "publish").CorrelationIDLocation "" -}}
+    {{if ne (channelToMessage $value $publish).CorrelationIDLocation "" -}}
     ctx = context.WithValue(ctx, extensions.ContextKeyIsCorrelationID, msg.CorrelationID())
     {{- end}}
 
@@ -315,7 +330,7 @@ func (c *{{ $.Prefix }}Controller) Publish{{operationName $value}}(
 
 {{if eq .Prefix "User" -}}
 {{- range  $key, $value := .SubscribeChannels -}}
-{{- if ne $value.Subscribe.Message.CorrelationIDLocation ""}}
+{{- if ne (channelToMessage $value $subscribe).CorrelationIDLocation ""}}
 // WaitFor{{operationName $value}} will wait for a specific message by its correlation ID.
 //
 // The pub function is the publication function that should be used to send the message.
@@ -325,11 +340,11 @@ func (c *{{ $.Prefix }}Controller) Publish{{operationName $value}}(
 func (c *UserController) WaitFor{{operationName $value}}(
     ctx context.Context,
     {{- if .Parameters}}
-    params {{namifyWithoutParam $key}}Parameters,
+    params {{namifyWithoutParam .Name}}Parameters,
     {{- end}}
     publishMsg MessageWithCorrelationID,
     pub func(ctx context.Context) error,
-) ({{(channelToMessage $value "subscribe").Name}}, error) {
+) ({{(channelToMessage $value $subscribe).Name}}, error) {
     // Get channel path
     path := {{ generateChannelPath $value }}
 
@@ -341,7 +356,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
     sub, err := c.broker.Subscribe(ctx, path)
     if err != nil {
         c.logger.Error(ctx, err.Error())
-        return {{(channelToMessage $value "subscribe").Name}}{}, err
+        return {{(channelToMessage $value $subscribe).Name}}{}, err
     }
     c.logger.Info(ctx, "Subscribed to channel")
 
@@ -356,7 +371,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
 
     // Execute callback for publication
     if err = pub(ctx); err != nil {
-        return {{(channelToMessage $value "subscribe").Name}}{}, err
+        return {{(channelToMessage $value $subscribe).Name}}{}, err
     }
 
     // Wait for corresponding response
@@ -365,6 +380,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
         msg, err := c.waitFor{{operationName $value}}NextMessage(ctx, path, sub, publishMsg)
         if err != nil {
             c.logger.Error(ctx, err.Error())
+            return {{(channelToMessage $value $subscribe).Name}}{}, err
         }
 
         // Continue if the message hasn't been received
@@ -381,7 +397,7 @@ func (c *UserController) waitFor{{operationName $value}}NextMessage(
     path string,
     sub extensions.BrokerChannelSubscription,
     publishMsg MessageWithCorrelationID,
-) (*{{(channelToMessage $value "subscribe").Name}}, error) {
+) (*{{(channelToMessage $value $subscribe).Name}}, error) {
     // Create a context for the received response
     msgCtx, cancel := context.WithCancel(context.Background())
     msgCtx = add{{ $.Prefix }}ContextValues(msgCtx, path)
@@ -400,14 +416,17 @@ func (c *UserController) waitFor{{operationName $value}}NextMessage(
         }
 
         // Get new message
-        msg, err := brokerMessageTo{{(channelToMessage $value "subscribe").Name}}(acknowledgeableBrokerMessage.BrokerMessage)
-        if err != nil {
-            c.logger.Error(msgCtx, err.Error())
-        }
+        msg, err := brokerMessageTo{{(channelToMessage $value $subscribe).Name}}(acknowledgeableBrokerMessage.BrokerMessage)
 
         // Acknowledge message
         acknowledgeableBrokerMessage.Ack()
 
+        // If message cannot be read, then it cannot be identified: ignore and continue
+        if err != nil {
+            c.logger.Error(msgCtx, err.Error())
+            return nil, nil
+        }
+
         // If message doesn't have corresponding correlation ID, then continue
         if publishMsg.CorrelationID() != msg.CorrelationID() {
             return nil, nil
@@ -422,7 +441,7 @@ func (c *UserController) waitFor{{operationName $value}}NextMessage(
         }
 
         // Return the message to the caller from the broker that could have been modified by middlewares
-        msg, err = brokerMessageTo{{(channelToMessage $value "subscribe").Name}}(acknowledgeableBrokerMessage.BrokerMessage)
+        msg, err = brokerMessageTo{{(channelToMessage $value $subscribe).Name}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             return nil, err
         }
diff --git a/pkg/codegen/generators/v2/templates/subscriber.tmpl b/pkg/codegen/generators/v2/templates/subscriber.tmpl
index d429d44..bee3f3c 100644
--- a/pkg/codegen/generators/v2/templates/subscriber.tmpl
+++ b/pkg/codegen/generators/v2/templates/subscriber.tmpl
@@ -1,9 +1,15 @@
+{{- /* Channels directions are reverse on application side */ -}}
+{{- $direction := "subscribe" -}}
+{{- if eq .Prefix "App" -}}
+{{- $direction = "publish" -}}
+{{- end -}}
+
 {{if .MethodCount -}}
 // {{ .Prefix }}Subscriber represents all handlers that are expecting messages for {{ .Prefix }}
 type {{ .Prefix }}Subscriber interface {
 {{- range  $key, $value := .Channels}}
     // {{operationName $value}} subscribes to messages placed on the '{{ $key }}' channel
-    {{operationName $value}}(ctx context.Context, msg {{(channelToMessage $value "subscribe").Name}}) error
+    {{operationName $value}}(ctx context.Context, msg {{(channelToMessage $value $direction).Name}}) error
 {{end}}
 }
 {{- end}}
-- 
2.43.0


From 925c24e53571e40416ab02aa35c9aeddf16241c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 12/37] fix: v2 references, compositions, parameters and
 dependencies are resolved once and followed to their target

---
 pkg/asyncapi/v2/message.go                    | 159 ++++++++++--------
 pkg/asyncapi/v2/operation.go                  |   3 +-
 pkg/asyncapi/v2/parameter.go                  |  15 +-
 pkg/asyncapi/v2/schema.go                     |  95 ++++++++---
 .../generators/v2/templates/definitions.go    |  99 +++++++++++
 .../generators/v2/templates/helpers.go        |  41 +++--
 .../generators/v2/templates/message.tmpl      |  51 +++---
 .../generators/v2/templates/parameter.tmpl    |  14 +-
 .../v2/templates/schema_definition.tmpl       |  17 +-
 .../generators/v2/templates/schema_name.tmpl  |   4 +-
 .../generators/v2/templates/types.tmpl        |  29 +++-
 11 files changed, 382 insertions(+), 145 deletions(-)
 create mode 100644 pkg/codegen/generators/v2/templates/definitions.go

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index e83b756..03a758a 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -8,7 +8,6 @@ import (
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils/template"
-	"github.com/mohae/deepcopy"
 )
 
 const (
@@ -53,15 +52,22 @@ type Message struct {
 	// According to: https://www.asyncapi.com/docs/reference/specification/v2.6.0#correlationIDObject
 	CorrelationIDLocation string `json:"-"`
 	CorrelationIDRequired bool   `json:"-"`
+
+	dependenciesSet bool // True when the dependencies have been set (or are being set)
 }
 
 // generateMetadata generates the metadata for the Message and its children.
 func (msg *Message) generateMetadata(name string) error {
+	// Prevent modification if nil
+	if msg == nil {
+		return nil
+	}
+
 	msg.Name = template.Namify(name)
 
 	// Generate Payload metadata
 	if msg.Payload != nil {
-		if err := msg.Payload.generateMetadata(msg.Name+"_Payload", false); err != nil {
+		if err := msg.Payload.generateMetadata(msg.payloadName(), false); err != nil {
 			return err
 		}
 	}
@@ -72,31 +78,27 @@ func (msg *Message) generateMetadata(name string) error {
 	}
 
 	// Generate OneOf metadata
-	if err := msg.generateOneOfMetadata(); err != nil {
-		return err
-	}
-
-	// Generate CorrelationID metadata
-	msg.generateCorrelationIDMetadata()
-	return nil
+	return msg.generateOneOfMetadata()
 }
 
 // setDependencies sets the dependencies for the Message and its children from the specification.
 func (msg *Message) setDependencies(spec Specification) error {
-	// Set Payload dependencies
-	if msg.Payload != nil {
-		if err := msg.Payload.setDependencies(spec); err != nil {
-			return err
-		}
+	// Prevent modification if nil, or if already done
+	if msg == nil || msg.dependenciesSet {
+		return nil
 	}
+	msg.dependenciesSet = true
 
 	// Add pointer to reference if there is one
-	if msg.Reference != "" {
-		refTo, err := spec.ReferenceMessage(msg.Reference)
-		if err != nil {
+	if err := msg.setReference(spec); err != nil {
+		return err
+	}
+
+	// Set Payload dependencies
+	if msg.Payload != nil {
+		if err := msg.Payload.setDependencies(spec); err != nil {
 			return err
 		}
-		msg.ReferenceTo = refTo
 	}
 
 	// Set Headers dependencies
@@ -109,8 +111,37 @@ func (msg *Message) setDependencies(spec Specification) error {
 		return err
 	}
 
-	// Set CorrelationID dependencies
-	return msg.setCorrelationIDDependencies(spec)
+	// Process CorrelationID
+	// NOTE: this is done when everything else is set, as the location can be in references
+	msg.processCorrelationID()
+
+	return nil
+}
+
+func (msg *Message) setReference(spec Specification) error {
+	if msg.Reference == "" {
+		return nil
+	}
+
+	refTo, err := spec.ReferenceMessage(msg.Reference)
+	if err != nil {
+		return err
+	}
+	msg.ReferenceTo = refTo
+
+	// Set dependencies of the referenced message first, as it can be a reference too
+	if err := refTo.setDependencies(spec); err != nil {
+		return err
+	}
+
+	// Check that this reference does not lead to itself
+	for r := refTo; r != nil; r = r.ReferenceTo {
+		if r == msg {
+			return fmt.Errorf("%w: circular reference %q", ErrInvalidReference, msg.Reference)
+		}
+	}
+
+	return nil
 }
 
 func (msg *Message) generateHeadersMetadata() error {
@@ -120,7 +151,7 @@ func (msg *Message) generateHeadersMetadata() error {
 	}
 
 	// Process headers
-	if err := msg.Headers.generateMetadata(msg.Name+"_Headers", false); err != nil {
+	if err := msg.Headers.generateMetadata(msg.headersName(), false); err != nil {
 		return err
 	}
 
@@ -146,19 +177,10 @@ func (msg *Message) setHeadersDependencies(spec Specification) error {
 	return nil
 }
 
-func (msg *Message) generateCorrelationIDMetadata() {
+func (msg *Message) processCorrelationID() {
 	msg.createCorrelationIDFieldIfMissing()
 	msg.CorrelationIDRequired = msg.isCorrelationIDRequired()
-}
-
-func (msg *Message) setCorrelationIDDependencies(spec Specification) error {
-	loc, err := msg.getCorrelationIDLocation(spec)
-	if err != nil {
-		return err
-	}
-	msg.CorrelationIDLocation = loc
-
-	return nil
+	msg.CorrelationIDLocation = msg.getCorrelationIDLocation()
 }
 
 func (msg *Message) generateOneOfMetadata() error {
@@ -179,7 +201,7 @@ func (msg *Message) setOneOfDependencies(spec Specification) error {
 		}
 
 		// Merge the OneOf as one payload
-		if err := msg.MergeWith(spec, *v); err != nil {
+		if err := msg.MergeWith(spec, *v.Follow()); err != nil {
 			return err
 		}
 	}
@@ -187,26 +209,18 @@ func (msg *Message) setOneOfDependencies(spec Specification) error {
 	return nil
 }
 
-func (msg Message) getCorrelationIDLocation(spec Specification) (string, error) {
+func (msg Message) getCorrelationIDLocation() string {
 	// Let's check the message before the reference
 	if msg.CorrelationID != nil {
-		return msg.CorrelationID.Location, nil
+		return msg.CorrelationID.Location
 	}
 
 	// If there is a reference, check it
-	if msg.Reference != "" {
-		msg, err := spec.ReferenceMessage(msg.Reference)
-		if err != nil {
-			return "", err
-		}
-
-		correlationID := msg.CorrelationID
-		if correlationID != nil {
-			return correlationID.Location, nil
-		}
+	if correlationID := msg.Follow().CorrelationID; correlationID != nil {
+		return correlationID.Location
 	}
 
-	return "", nil
+	return ""
 }
 
 func (msg Message) isCorrelationIDRequired() bool {
@@ -252,24 +266,29 @@ func (msg *Message) createTreeUntilCorrelationIDFromMessageType(t MessageField)
 		placeholder = &msg.Payload
 	}
 
-	var child *Schema
-	switch {
-	case (*placeholder) != nil && (*placeholder).ReferenceTo != nil: // If there is a reference
-		// Use it as child
-		child = (*placeholder).ReferenceTo
-	case (*placeholder) == nil: // If there is no header and no reference
-		// Create a default one for the message
+	// If there is nothing and no reference, create a default one for the message
+	if (*placeholder) == nil {
 		(*placeholder) = utils.ToPointer(NewSchema())
-		(*placeholder).Name = MessageFieldIsHeader.String()
+		if t == MessageFieldIsHeader {
+			(*placeholder).Name = msg.headersName()
+		} else {
+			(*placeholder).Name = msg.payloadName()
+		}
 		(*placeholder).Type = SchemaTypeIsObject.String()
-		fallthrough
-	default:
-		// Set the child as the message headers
-		child = (*placeholder)
 	}
 
 	// Go down the path to correlation ID
-	return msg.downToCorrelationID(child)
+	return msg.downToCorrelationID(*placeholder)
+}
+
+// headersName returns the name of the type for the headers of the message.
+func (msg Message) headersName() string {
+	return template.Namify(msg.Name + "_Headers")
+}
+
+// payloadName returns the name of the type for the payload of the message.
+func (msg Message) payloadName() string {
+	return template.Namify(msg.Name + "_Payload")
 }
 
 func (msg Message) downToCorrelationID(child *Schema) (correlationIDParent *Schema) {
@@ -278,18 +297,19 @@ func (msg Message) downToCorrelationID(child *Schema) (correlationIDParent *Sche
 	path := strings.Split(msg.CorrelationID.Location, "/")
 	for i, v := range path[1:] {
 		// Keep the parent
-		correlationIDParent = child
+		correlationIDParent = child.Follow()
 
 		// Get the corresponding child
 		child, exists = correlationIDParent.Properties[v]
 		if !exists { // If it doesn't exist
 			// Create child
 			child = utils.ToPointer(NewSchema())
-			child.Name = v
+			child.Name = correlationIDParent.Name + template.Namify(v)
+			child.IsRequired = correlationIDParent.IsFieldRequired(v)
 			if i == len(path)-2 { // As there is -1 in the loop slice
 				child.Type = SchemaTypeIsString.String()
 			} else {
-				child.Type = MessageFieldIsHeader.String()
+				child.Type = SchemaTypeIsObject.String()
 			}
 
 			// Add it to parent
@@ -309,10 +329,13 @@ func (msg *Message) referenceFrom(ref []string) any {
 	}
 
 	var next *Schema
-	if ref[0] == "payload" {
-		next = msg.Payload
-	} else if ref[0] == MessageFieldIsHeader.String() {
-		next = msg.Headers
+	if msg != nil {
+		switch ref[0] {
+		case MessageFieldIsPayload.String():
+			next = msg.Payload
+		case "headers", MessageFieldIsHeader.String():
+			next = msg.Headers
+		}
 	}
 
 	return next.referenceFrom(ref[1:])
@@ -383,7 +406,7 @@ func (msg *Message) mergeWithMessageFromReference(msg2 Message, spec Specificati
 func (msg *Message) mergeWithMessagePayload(msg2 Message, spec Specification) error {
 	if msg2.Payload != nil {
 		if msg.Payload == nil {
-			msg.Payload = deepcopy.Copy(msg2.Payload).(*Schema)
+			msg.Payload = msg2.Payload.copyWithName(msg.payloadName())
 		} else {
 			if err := msg.Payload.MergeWith(spec, *msg2.Payload); err != nil {
 				return err
@@ -397,7 +420,7 @@ func (msg *Message) mergeWithMessagePayload(msg2 Message, spec Specification) er
 func (msg *Message) mergeWithMessageHeaders(msg2 Message, spec Specification) error {
 	if msg2.Headers != nil {
 		if msg.Headers == nil {
-			msg.Headers = deepcopy.Copy(msg2.Headers).(*Schema)
+			msg.Headers = msg2.Headers.copyWithName(msg.headersName())
 		} else {
 			if err := msg.Headers.MergeWith(spec, *msg2.Headers); err != nil {
 				return err
diff --git a/pkg/asyncapi/v2/operation.go b/pkg/asyncapi/v2/operation.go
index be5a925..6a95072 100644
--- a/pkg/asyncapi/v2/operation.go
+++ b/pkg/asyncapi/v2/operation.go
@@ -27,7 +27,8 @@ func (op *Operation) generateMetadata(name string) error {
 	// Get message name
 	var msgName string
 	if op.Message.Reference != "" {
-		msgName = strings.Split(op.Message.Reference, "/")[3]
+		parts := strings.Split(op.Message.Reference, "/")
+		msgName = parts[len(parts)-1]
 	} else {
 		msgName = op.Name
 	}
diff --git a/pkg/asyncapi/v2/parameter.go b/pkg/asyncapi/v2/parameter.go
index e226e12..62fbe5a 100644
--- a/pkg/asyncapi/v2/parameter.go
+++ b/pkg/asyncapi/v2/parameter.go
@@ -9,7 +9,7 @@ type Parameter struct {
 	// --- AsyncAPI fields -----------------------------------------------------
 
 	Description string  `json:"description"`
-	Schema      *Schema `json:"schema-name"`
+	Schema      *Schema `json:"schema"`
 	Location    string  `json:"location"`
 	Reference   string  `json:"$ref"`
 
@@ -36,5 +36,18 @@ func (p *Parameter) setDependencies(spec Specification) error {
 		p.ReferenceTo = refTo
 	}
 
+	// Set schema dependencies
+	if err := p.Schema.setDependencies(spec); err != nil {
+		return err
+	}
+
 	return nil
 }
+
+// Follow returns referenced parameter if specified or the actual parameter.
+func (p *Parameter) Follow() *Parameter {
+	if p.ReferenceTo != nil {
+		return p.ReferenceTo
+	}
+	return p
+}
diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index 104c530..d227b6e 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -1,6 +1,8 @@
 package asyncapiv2
 
 import (
+	"fmt"
+
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils/template"
@@ -43,6 +45,8 @@ type Schema struct {
 	Name        string  `json:"-"`
 	ReferenceTo *Schema `json:"-"`
 
+	dependenciesSet bool // True when the dependencies have been set (or are being set)
+
 	// Embedded validation fields
 	asyncapi.Validations[Schema]
 
@@ -62,6 +66,11 @@ func NewSchema() Schema {
 
 // generateMetadata generates metadata for the schema and its children.
 func (s *Schema) generateMetadata(name string, isRequired bool) error {
+	// Prevent modification if nil
+	if s == nil {
+		return nil
+	}
+
 	s.Name = template.Namify(name)
 
 	// Generate Properties metadata
@@ -111,19 +120,54 @@ func (s *Schema) setValidationsFromReferenced(refTo *Schema) {
 	if refTo == nil {
 		return
 	}
+
+	// Get validations from the referenced schema, but not its composition that
+	// is already merged in it
+	allOf, anyOf, oneOf := s.AllOf, s.AnyOf, s.OneOf
 	s.Validations.Merge(refTo.Validations)
+	s.AllOf, s.AnyOf, s.OneOf = allOf, anyOf, oneOf
+}
+
+// setReference sets the schema that is referenced, if there is one.
+func (s *Schema) setReference(spec Specification) error {
+	if s.Reference == "" {
+		return nil
+	}
+
+	refTo, err := spec.ReferenceSchema(s.Reference)
+	if err != nil {
+		return err
+	}
+	s.ReferenceTo = refTo
+
+	// Set dependencies of the referenced schema first, as it can be a reference too
+	if err := refTo.setDependencies(spec); err != nil {
+		return err
+	}
+
+	// Check that this reference does not lead to itself
+	for r := refTo; r != nil; r = r.ReferenceTo {
+		if r == s {
+			return fmt.Errorf("%w: circular reference %q", ErrInvalidReference, s.Reference)
+		}
+	}
+
+	s.setValidationsFromReferenced(refTo)
+
+	return nil
 }
 
 // setDependencies sets dependencies for the schema from the specification.
 func (s *Schema) setDependencies(spec Specification) error {
+	// Prevent modification if nil, or if already done
+	if s == nil || s.dependenciesSet {
+		return nil
+	}
+	s.dependenciesSet = true
+
 	// Reference to another schema if specified
-	if s.Reference != "" {
-		refTo, err := spec.ReferenceSchema(s.Reference)
-		if err != nil {
-			return err
-		}
-		s.ReferenceTo = refTo
-		s.setValidationsFromReferenced(refTo)
+	if err := s.setReference(spec); err != nil {
+		return err
 	}
 
 	// Set properties dependencies
@@ -306,13 +350,28 @@ func (s Schema) IsFieldRequired(field string) bool {
 }
 
 func (s *Schema) referenceFrom(ref []string) *Schema {
-	if len(ref) == 0 {
+	if len(ref) == 0 || s == nil {
 		return s
 	}
 
 	return s.Properties[ref[0]].referenceFrom(ref[1:])
 }
 
+// copyWithName returns a copy of the schema (or of the one that is referenced),
+// with the given name. Inner schemas are shared between the schema and its copy.
+func (s *Schema) copyWithName(name string) *Schema {
+	c := *s.Follow()
+	c.Name = name
+	c.Required = append([]string(nil), c.Required...)
+
+	c.Properties = make(map[string]*Schema, len(s.Follow().Properties))
+	for k, v := range s.Follow().Properties {
+		c.Properties[k] = v
+	}
+
+	return &c
+}
+
 // MergeWith merges the given Schema structure with another one
 // (basically for AllOf, AnyOf, OneOf, etc).
 func (s *Schema) MergeWith(spec Specification, s2 Schema) error {
@@ -322,6 +381,11 @@ func (s *Schema) MergeWith(spec Specification, s2 Schema) error {
 
 	s.Type = SchemaTypeIsObject.String()
 
+	// Go directly to the last reference
+	if s2.ReferenceTo != nil {
+		s2.ReferenceTo = s2.ReferenceTo.Follow()
+	}
+
 	// Merge with other fields
 	s.mergeWithSchemaAllOf(s2)
 	s.mergeWithSchemaAnyOf(s2)
@@ -447,16 +511,7 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 		}
 
 		// Add the property
-		if v.Type == "object" {
-			s.Properties[k] = &Schema{
-				Validations: asyncapi.Validations[Schema]{
-					IsRequired: v.IsRequired,
-				},
-				ReferenceTo: v,
-			}
-		} else {
-			s.Properties[k] = v
-		}
+		s.Properties[k] = v
 
 		// Add to required if it is required
 		if v.IsRequired {
@@ -467,8 +522,8 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 
 // Follow returns referenced schema if specified or the actual schema.
 func (s *Schema) Follow() *Schema {
-	if s.ReferenceTo != nil {
-		return s.ReferenceTo
+	for s.ReferenceTo != nil {
+		s = s.ReferenceTo
 	}
 	return s
 }
diff --git a/pkg/codegen/generators/v2/templates/definitions.go b/pkg/codegen/generators/v2/templates/definitions.go
new file mode 100644
index 0000000..e7ca06b
--- /dev/null
+++ b/pkg/codegen/generators/v2/templates/definitions.go
@@ -0,0 +1,99 @@
+package templates
+
+import (
+	"text/template"
+
+	asyncapi "github.com/lerenn/asyncapi-codegen/pkg/asyncapi/v2"
+	templateutil "github.com/lerenn/asyncapi-codegen/pkg/utils/template"
+)
+
+// definitions keeps track of the types that are defined and used by a generation,
+// in order to define everything that is used, exactly once.
+type definitions struct {
+	defined  map[any]struct{}
+	names    map[string]struct{}
+	schemas  []*asyncapi.Schema
+	messages []*asyncapi.Message
+}
+
+// isFirst returns true if this is the first definition of the given object.
+func (d *definitions) isFirst(obj any) bool {
+	if _, exists := d.defined[obj]; exists {
+		return false
+	}
+
+	d.defined[obj] = struct{}{}
+	switch o := obj.(type) {
+	case *asyncapi.Schema:
+		d.names[templateutil.Namify(o.Name)] = struct{}{}
+	case *asyncapi.Message:
+		d.names[templateutil.Namify(o.Name)] = struct{}{}
+	}
+
+	return true
+}
+
+// isDefined returns true if there is already a definition for the object, or for
+// another one that has the same name (i.e. same name in this document and in a dependency).
+func (d *definitions) isDefined(obj any, name string) bool {
+	if _, exists := d.defined[obj]; exists {
+		return true
+	}
+
+	_, exists := d.names[templateutil.Namify(name)]
+	return exists
+}
+
+// use registers the use of an object. It returns an empty string as it should be
+// possible to use it anywhere in a template.
+func (d *definitions) use(obj any) string {
+	switch o := obj.(type) {
+	case *asyncapi.Schema:
+		d.schemas = append(d.schemas, o)
+	case *asyncapi.Message:
+		d.messages = append(d.messages, o)
+	}
+
+	return ""
+}
+
+// missingSchemas returns the schemas that have been used but that are not defined.
+func (d *definitions) missingSchemas() []*asyncapi.Schema {
+	var missing []*asyncapi.Schema
+	for _, s := range d.schemas {
+		if !d.isDefined(s, s.Name) {
+			missing = append(missing, s)
+		}
+	}
+
+	d.schemas = nil
+	return missing
+}
+
+// missingMessages returns the messages that have been used but that are not defined.
+func (d *definitions) missingMessages() []*asyncapi.Message {
+	var missing []*asyncapi.Message
+	for _, m := range d.messages {
+		if !d.isDefined(m, m.Name) {
+			missing = append(missing, m)
+		}
+	}
+
+	d.messages = nil
+	return missing
+}
+
+// definitionsFunctions returns the functions used to define everything once.
+func definitionsFunctions() template.FuncMap {
+	d := definitions{
+		defined: make(map[any]struct{}),
+		names:   make(map[string]struct{}),
+	}
+
+	return template.FuncMap{
+		"isFirstDefinition": d.isFirst,
+		"useDefinition":     d.use,
+		"missingSchemas":    d.missingSchemas,
+		"missingMessages":   d.missingMessages,
+	}
+}
diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index 8e4d603..7f691be 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -2,20 +2,30 @@ package templates
 
 import (
 	"fmt"
+	"maps"
 	"regexp"
+	"slices"
 	"strings"
 	"text/template"
 
 	asyncapi "github.com/lerenn/asyncapi-codegen/pkg/asyncapi/v2"
 	"github.com/lerenn/asyncapi-codegen/pkg/codegen/generators"
-	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 	templateutil "github.com/lerenn/asyncapi-codegen/pkg/utils/template"
 )
 
 // GetChildrenObjectSchemas will return all the children object schemas of a
 // schema, only from first level and without AnyOf, AllOf and OneOf.
 func GetChildrenObjectSchemas(s asyncapi.Schema) []*asyncapi.Schema {
-	allSchemas := utils.MapToList(s.Properties)
+	keys := make([]string, 0, len(s.Properties))
+	for k := range s.Properties {
+		keys = append(keys, k)
+	}
+	slices.Sort(keys)
+
+	allSchemas := make([]*asyncapi.Schema, 0, len(keys))
+	for _, k := range keys {
+		allSchemas = append(allSchemas, s.Properties[k])
+	}
 
 	if s.Items != nil {
 		allSchemas = append(allSchemas, s.Items)
@@ -25,15 +35,15 @@ func GetChildrenObjectSchemas(s asyncapi.Schema) []*asyncapi.Schema {
 		allSchemas = append(allSchemas, s.AdditionalProperties)
 	}
 
-	// Only keep object schemas
+	// Only keep object schemas, that can be items of arrays
 	filteredSchemas := make([]*asyncapi.Schema, 0, len(allSchemas))
 	for _, schema := range allSchemas {
+		for schema.Type == asyncapi.SchemaTypeIsArray.String() && schema.Items != nil {
+			schema = schema.Items
+		}
+
 		if schema.Type == asyncapi.SchemaTypeIsObject.String() {
 			filteredSchemas = append(filteredSchemas, schema)
-		} else if schema.Type == asyncapi.SchemaTypeIsArray.String() &&
-			schema.Items != nil &&
-			schema.Items.Type == asyncapi.SchemaTypeIsObject.String() {
-			filteredSchemas = append(filteredSchemas, schema.Items)
 		}
 	}
 
@@ -114,11 +124,11 @@ func GenerateChannelPath(ch asyncapi.Channel) string {
 	parameterRegexp := regexp.MustCompile("{[^{}]*}")
 
 	matches := parameterRegexp.FindAllString(ch.Path, -1)
-	format := parameterRegexp.ReplaceAllString(ch.Path, "%v")
+	format := parameterRegexp.ReplaceAllString(strings.ReplaceAll(ch.Path, "%", "%%"), "%v")
 
 	sprint := fmt.Sprintf("fmt.Sprintf(%q, ", format)
 	for _, m := range matches {
-		sprint += fmt.Sprintf("params.%s,", templateutil.Namify(m))
+		sprint += fmt.Sprintf("params.%s,", templateutil.Namify(strings.Trim(m, "{}")))
 	}
 
 	return sprint[:len(sprint)-1] + ")"
@@ -145,21 +155,29 @@ var isFieldPointer = func(parent asyncapi.Schema, field string, schema asyncapi.
 	return !(IsRequired(parent, field) || schema.IsRequired) && schema.Type != "array"
 }
 
+// isLocationPointer returns true if the field at the location of a correlation ID
+// is a pointer, based on the fact that it is required or not.
+var isLocationPointer = func(isRequired bool) bool {
+	return !isRequired
+}
+
 // ForcePointerOnFields is used to force the generation of all fields as pointers, except for arrays.
 func ForcePointerOnFields() {
 	isFieldPointer = func(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
 		return schema.Type != "array"
 	}
+	isLocationPointer = func(_ bool) bool { return true }
 }
 
 // HelpersFunctions returns the functions that can be used as helpers
 // in a golang template.
 func HelpersFunctions() template.FuncMap {
-	return template.FuncMap{
+	funcs := template.FuncMap{
 		"getChildrenObjectSchemas":       GetChildrenObjectSchemas,
 		"channelToMessage":               ChannelToMessage,
 		"isRequired":                     IsRequired,
 		"isFieldPointer":                 isFieldPointer,
+		"isLocationPointer":              isLocationPointer,
 		"generateChannelPath":            GenerateChannelPath,
 		"referenceToStructAttributePath": ReferenceToStructAttributePath,
 		"operationName":                  OperationName,
@@ -167,4 +185,7 @@ func HelpersFunctions() template.FuncMap {
 		"generateValidateTags":           generators.GenerateValidateTags[asyncapi.Schema],
 		"generateJSONTags":               generators.GenerateJSONTags[asyncapi.Schema],
 	}
+	maps.Copy(funcs, definitionsFunctions())
+
+	return funcs
 }
diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 85ca826..4969a87 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -1,5 +1,16 @@
 {{define "message" -}}
 
+{{- if isFirstDefinition . -}}
+{{if $.Reference }}
+{{- useDefinition .Follow }}
+
+// Message '{{namify .Name}}' reference another one at '{{$.Reference}}'.
+// This should be fixed in a future version to allow message override.
+// If you encounter this message, feel free to open an issue on this subject
+// to let know that you need this functionnality.
+
+{{else}}
+
 {{- if and .Headers (not .Headers.ReferenceTo) }}
 {{template "schema-definition" .Headers}}
 {{- end}}
@@ -35,7 +46,7 @@ func New{{namify .Name}}() {{namify .Name}} {
     {{if ne $.CorrelationIDLocation "" -}}
     // Set correlation ID
     u := uuid.New().String()
-    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if not $.CorrelationIDRequired}}&{{end}}u
+    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if isLocationPointer $.CorrelationIDRequired}}&{{end}}u
     {{- end}}
 
     return msg
@@ -46,10 +57,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     var msg {{namify .Name}}
 
     {{/* Get payload by reference, or not*/}}
-    {{- $payload := .Payload}}
-    {{- if .Payload.Reference }}
-    {{- $payload = .Payload.ReferenceTo }}
-    {{- end}}
+    {{- $payload := .Payload.Follow}}
 
     {{- /* Handle payload based on type */}}
     {{- if eq $payload.Type "string"}}
@@ -108,19 +116,16 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
         msg.Payload = {{template "schema-name" .Payload}}(payload)
     {{- end}}
 
-    {{ if .Headers -}}
+    {{ if and .Headers .Headers.Follow.Properties -}}
     // Get each headers from broker message
     for k, v := range bMsg.Headers {
         switch {
 
             {{- /* Get headers by reference, or not*/}}
-            {{- $headerProperties := .Headers.Properties}}
-            {{- if .Headers.Reference }}
-                {{- $headerProperties = .Headers.ReferenceTo.Properties}}
-            {{- end}}
+            {{- $headerProperties := .Headers.Follow.Properties}}
 
             {{- /* For each header */}}
-            {{- $headers := .Headers -}}
+            {{- $headers := .Headers.Follow -}}
             {{- range  $key, $value := $headerProperties}}
             {{- $header := $value.Follow}}
             case k == "{{$key}}": // Retrieving {{namify $key}} header
@@ -160,10 +165,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
     // TODO: implement checks on message
 
     {{/* Get payload by reference, or not*/}}
-    {{- $payload := .Payload}}
-    {{- if .Payload.Reference }}
-    {{- $payload = .Payload.ReferenceTo }}
-    {{- end}}
+    {{- $payload := .Payload.Follow}}
 
     {{/* Handle payload based on type */}}
     {{- if eq $payload.Type "integer"}}
@@ -203,15 +205,13 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
 
     {{/* Handle headers, if defined */}}
     {{ if .Headers -}}
+
         {{- /* Get headers by reference, or not*/}}
-        {{- $headerProperties := .Headers.Properties}}
-        {{if .Headers.Reference }}
-            {{- $headerProperties = .Headers.ReferenceTo.Properties}}
-        {{- end -}}
+        {{- $headerProperties := .Headers.Follow.Properties}}
 
         // Add each headers to broker message
         headers := make(map[string][]byte, {{ len $headerProperties }})
-        {{- $headers := .Headers -}}
+        {{- $headers := .Headers.Follow -}}
         {{/* For each header */ -}}
         {{- range  $key, $value := $headerProperties }}
 
@@ -257,7 +257,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
 {{if ne $.CorrelationIDLocation "" -}}
 // CorrelationID will give the correlation ID of the message, based on AsyncAPI spec
 func (msg {{namify .Name}}) CorrelationID() string {
-    {{if $.CorrelationIDRequired -}}
+    {{if not (isLocationPointer $.CorrelationIDRequired) -}}
         return msg.{{referenceToStructAttributePath $.CorrelationIDLocation}}
     {{- else -}}
     if msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} != nil{
@@ -270,7 +270,7 @@ func (msg {{namify .Name}}) CorrelationID() string {
 
 // SetCorrelationID will set the correlation ID of the message, based on AsyncAPI spec
 func (msg *{{namify .Name}}) SetCorrelationID(id string) {
-    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if not $.CorrelationIDRequired -}}&{{end}}id
+    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if isLocationPointer $.CorrelationIDRequired -}}&{{end}}id
 }
 
 // SetAsResponseFrom will correlate the message with the one passed in parameter.
@@ -278,7 +278,12 @@ func (msg *{{namify .Name}}) SetCorrelationID(id string) {
 // both specified in AsyncAPI spec.
 func (msg *{{namify .Name}}) SetAsResponseFrom(req MessageWithCorrelationID) {
     id := req.CorrelationID()
-    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if not $.CorrelationIDRequired -}}&{{end}}id
+    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if isLocationPointer $.CorrelationIDRequired -}}&{{end}}id
 }
 {{- end -}}
+
+{{- end -}}
+
+{{- end -}}
+
 {{- end }}
diff --git a/pkg/codegen/generators/v2/templates/parameter.tmpl b/pkg/codegen/generators/v2/templates/parameter.tmpl
index f714ad4..8b71147 100644
--- a/pkg/codegen/generators/v2/templates/parameter.tmpl
+++ b/pkg/codegen/generators/v2/templates/parameter.tmpl
@@ -1,16 +1,10 @@
 {{define "parameter"}}
 
-{{- if $.Description}}
-// Description: {{multiLineComment $.Description}}
+{{- if $.Follow.Description}}
+// Description: {{multiLineComment $.Follow.Description}}
 {{- end}}
 
-{{- /* Set parameter if defined */}}
-{{- if .Schema}}
-{{namify $.Name }} {{template "schema-name" $.Schema}}
-
-{{- /* Set parameter from reference if defined */}}
-{{- else if .ReferenceTo }}
-{{- template "parameter" $.ReferenceTo}}
-{{end -}}
+{{- /* Use the schema of the parameter if defined, directly or by reference */}}
+{{namify $.Name }} {{if $.Follow.Schema}}{{template "schema-name" $.Follow.Schema}}{{else}}string{{end}}
 
 {{- end}}
diff --git a/pkg/codegen/generators/v2/templates/schema_definition.tmpl b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
index eab7057..6722c85 100644
--- a/pkg/codegen/generators/v2/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
@@ -1,4 +1,5 @@
 {{define "schema-definition" -}}
+{{- if isFirstDefinition . -}}
 
 // {{ .Name }} is a schema from the AsyncAPI specification required in messages
 {{if .Description -}}
@@ -12,8 +13,8 @@ type {{ namify .Name }} struct {
     {{- range $key, $value := .Properties -}}
     {{if $value.Description}}
     // Description: {{multiLineComment $value.Description}}
-    {{else if and $value.ReferenceTo $value.ReferenceTo.Description}}
-    // Description: {{multiLineComment $value.ReferenceTo.Description}}
+    {{else if and $value.ReferenceTo $value.Follow.Description}}
+    // Description: {{multiLineComment $value.Follow.Description}}
     {{end -}}
     {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags $value.Validations $key}}{{generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Type }}`
     {{end -}}
@@ -30,9 +31,18 @@ type {{ namify .Name }} struct {
 {{- end}}
 
 {{- /* ----------------------------- Others ----------------------------- */ -}}
+{{- else if .ReferenceTo -}}
+
+{{- /* Use an alias to have everything that is defined on the referenced type */ -}}
+{{- if eq (namify .Name) (namify .Follow.Name) -}}
+{{ useDefinition .Follow }}
+{{- else -}}
+type {{ namify .Name }} = {{template "schema-name" .}}
+{{- end }}
+
 {{- else -}}
 
-type {{ .Name }} {{template "schema-name" .}}
+type {{ namify .Name }} {{template "schema-name" .}}
 
 {{/* Create specific marshaling for time */ -}}
 {{- if isDateOrDateTimeGenerated .Format -}}
@@ -49,3 +59,4 @@ type {{ .Name }} {{template "schema-name" .}}
 {{- end}}
 
 {{- end -}}
+{{- end -}}
diff --git a/pkg/codegen/generators/v2/templates/schema_name.tmpl b/pkg/codegen/generators/v2/templates/schema_name.tmpl
index 79c6940..a2a1a89 100644
--- a/pkg/codegen/generators/v2/templates/schema_name.tmpl
+++ b/pkg/codegen/generators/v2/templates/schema_name.tmpl
@@ -69,9 +69,9 @@ struct {
 
 {{- /* ---------------------------- Reference --------------------------- */ -}}
 {{- else if .ReferenceTo -}}
-{{ namify .Follow.Name }}
+{{ namify .Follow.Name }}{{ useDefinition .Follow }}
 
-{{- /* ----------------------- Unsupported use case ---------------------- */ -}}
+{{- /* ----------------------- Unsupported usecase ---------------------- */ -}}
 {{- else -}}
 interface{}
 // WARNING: potential error in AsyncAPI generation
diff --git a/pkg/codegen/generators/v2/templates/types.tmpl b/pkg/codegen/generators/v2/templates/types.tmpl
index eb1eb3b..fbc2c12 100644
--- a/pkg/codegen/generators/v2/templates/types.tmpl
+++ b/pkg/codegen/generators/v2/templates/types.tmpl
@@ -1,5 +1,5 @@
 // AsyncAPIVersion is the version of the used AsyncAPI document
-const AsyncAPIVersion = "{{ .Info.Version }}"
+const AsyncAPIVersion = {{ printf "%q" .Info.Version }}
 
 // controller is the controller that will be used to communicate with the broker
 // It will be used internally by AppController and UserController
@@ -67,12 +67,12 @@ type {{ namifyWithoutParam .Name }}Parameters struct {
 }
 {{end}}
 
-{{- if and $value.Subscribe $value.Subscribe.Message.Payload}}
-{{template "message" $value.Subscribe.Message}}
+{{- if $value.Subscribe}}
+{{template "message" $value.Subscribe.Message.Follow}}
 {{end -}}
 
-{{- if and $value.Publish $value.Publish.Message.Payload}}
-{{template "message" $value.Publish.Message}}
+{{- if $value.Publish}}
+{{template "message" $value.Publish.Message.Follow}}
 {{end -}}
 {{- end}}
 
@@ -84,11 +84,17 @@ type {{ namifyWithoutParam .Name }}Parameters struct {
 {{template "schema-definition" $value}}
 {{- end}}
 
+{{- /* Generate what is used but not in this document (i.e. in dependencies) */}}
+{{range missingMessages}}
+{{template "message" .}}
+{{- end}}
+{{template "missing-schemas"}}
+
 {{- if .Channels}}
 const(
 {{- range $key, $value := .Channels}}
     // {{ namifyWithoutParam .Name }}Path is the constant representing the '{{ .Name }}' channel path.
-    {{ namifyWithoutParam .Name }}Path = "{{$key}}"
+    {{ namifyWithoutParam .Name }}Path = {{ printf "%q" $key }}
 {{- end}}
 )
 
@@ -98,4 +104,13 @@ var ChannelsPaths = []string{
     {{ namifyWithoutParam .Name }}Path,
 {{- end}}
 }
-{{- end}}
\ No newline at end of file
+{{- end}}
+
+{{- define "missing-schemas" -}}
+{{- with missingSchemas -}}
+{{- range .}}
+{{template "schema-definition" .}}
+{{- end}}
+{{template "missing-schemas"}}
+{{- end -}}
+{{- end -}}
-- 
2.43.0


From 87a5a1ee234679867cb124990dc472c06b4ad71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:15 +0000
Subject: [PATCH 13/37] fix: recovery middleware reports the panic as an error

---
 pkg/extensions/errors.go               | 3 +++
 pkg/extensions/middlewares/recovery.go | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/extensions/errors.go b/pkg/extensions/errors.go
index af97810..375f3b4 100644
--- a/pkg/extensions/errors.go
+++ b/pkg/extensions/errors.go
@@ -34,4 +34,7 @@ var (
 	// ErrChannelAddressEmpty is raised when a given channel address is empty,
 	// when dynamically set from message.
 	ErrChannelAddressEmpty = fmt.Errorf("%w: channel address empty", ErrAsyncAPI)
+
+	// ErrPanicRecovered is given by the recovery middleware when a panic happened.
+	ErrPanicRecovered = fmt.Errorf("%w: panic recovered", ErrAsyncAPI)
 )
diff --git a/pkg/extensions/middlewares/recovery.go b/pkg/extensions/middlewares/recovery.go
index b5e7782..9b2d9cc 100644
--- a/pkg/extensions/middlewares/recovery.go
+++ b/pkg/extensions/middlewares/recovery.go
@@ -10,11 +10,14 @@ import (
 // Recovery is a middleware that recovers from panic in middlewares coming after
 // it and user code from subscription.
 func Recovery(logger extensions.Logger) extensions.Middleware {
-	return func(ctx context.Context, msg *extensions.BrokerMessage, next extensions.NextMiddleware) error {
+	return func(ctx context.Context, msg *extensions.BrokerMessage, next extensions.NextMiddleware) (err error) {
 		// Recover in case of panic
 		defer func() {
 			if r := recover(); r != nil {
 				logger.Error(ctx, fmt.Sprintf("Recovered from panic: %v", r))
+
+				// The operation has been interrupted, it should not be seen as a success
+				err = fmt.Errorf("%w: %v", extensions.ErrPanicRecovered, r)
 			}
 		}()
 
-- 
2.43.0


From 80e35efad12ff33fc13a120cd22635054f0ea2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:15 +0000
Subject: [PATCH 14/37] fix: a message whose error was handled by a middleware
 is acknowledged

---
 pkg/codegen/generators/v2/templates/controller.tmpl | 3 +++
 pkg/codegen/generators/v3/templates/controller.tmpl | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/codegen/generators/v2/templates/controller.tmpl b/pkg/codegen/generators/v2/templates/controller.tmpl
index deffe74..203f2f8 100644
--- a/pkg/codegen/generators/v2/templates/controller.tmpl
+++ b/pkg/codegen/generators/v2/templates/controller.tmpl
@@ -252,6 +252,9 @@ func (c *{{ $.Prefix }}Controller) listenTo{{operationName $value}}NextMessage(
         // On error execute the acknowledgeableBrokerMessage nack() function and
         // let the BrokerAcknowledgment decide what is the right nack behavior for the broker
         acknowledgeableBrokerMessage.Nak()
+    } else {
+        // If a middleware has handled an error, then the message has not been acknowledged yet
+        acknowledgeableBrokerMessage.Ack()
     }
 
     return false, nil
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 0285fb6..afe5937 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -250,6 +250,9 @@ func (c *{{ $.Prefix }}Controller) listenTo{{ namify $value.Follow.Name }}NextMe
         // On error execute the acknowledgeableBrokerMessage nack() function and
         // let the BrokerAcknowledgment decide what is the right nack behavior for the broker
         acknowledgeableBrokerMessage.Nak()
+    } else {
+        // If a middleware has handled an error, then the message has not been acknowledged yet
+        acknowledgeableBrokerMessage.Ack()
     }
 
     return false, nil
-- 
2.43.0


From d0d8e749c40fa8539d5a362a85ec1e17508ad308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:38 +0000
Subject: [PATCH 15/37] fix: validation tags keep zero bounds, large numbers,
 special characters and the property's own requirement

---
 pkg/asyncapi/schema.go                        | 44 ++++-----
 pkg/asyncapi/v2/schema.go                     |  4 +
 pkg/asyncapi/v3/schema.go                     |  4 +
 pkg/codegen/generators/helpers.go             | 92 ++++++++++++++-----
 .../v2/templates/schema_definition.tmpl       |  2 +-
 .../v3/templates/schema_definition.tmpl       |  2 +-
 6 files changed, 101 insertions(+), 47 deletions(-)

diff --git a/pkg/asyncapi/schema.go b/pkg/asyncapi/schema.go
index b691b5c..bd6b126 100644
--- a/pkg/asyncapi/schema.go
+++ b/pkg/asyncapi/schema.go
@@ -4,19 +4,19 @@ package asyncapi
 // These fields are in common for v2 and v3.
 type Validations[T any] struct {
 	Required         []string `json:"required"`
-	MultipleOf       []string `json:"multipleOf"`
-	Maximum          float64  `json:"maximum"`
-	ExclusiveMaximum float64  `json:"exclusiveMaximum"`
-	Minimum          float64  `json:"minimum"`
-	ExclusiveMinimum float64  `json:"exclusiveMinimum"`
-	MaxLength        uint     `json:"maxLength"`
-	MinLength        uint     `json:"minLength"`
+	MultipleOf       *float64 `json:"multipleOf"`
+	Maximum          *float64 `json:"maximum"`
+	ExclusiveMaximum *float64 `json:"exclusiveMaximum"`
+	Minimum          *float64 `json:"minimum"`
+	ExclusiveMinimum *float64 `json:"exclusiveMinimum"`
+	MaxLength        *uint    `json:"maxLength"`
+	MinLength        *uint    `json:"minLength"`
 	Pattern          string   `json:"pattern"`
-	MaxItems         uint     `json:"maxItems"`
-	MinItems         uint     `json:"minItems"`
+	MaxItems         *uint    `json:"maxItems"`
+	MinItems         *uint    `json:"minItems"`
 	UniqueItems      bool     `json:"uniqueItems"`
-	MaxProperties    uint     `json:"maxProperties"`
-	MinProperties    uint     `json:"minProperties"`
+	MaxProperties    *uint    `json:"maxProperties"`
+	MinProperties    *uint    `json:"minProperties"`
 	Enum             []any    `json:"enum"`
 	Const            any      `json:"const"`
 
@@ -36,43 +36,43 @@ func (v *Validations[T]) Merge(newV Validations[T]) {
 	if len(newV.Required) > 0 {
 		v.Required = newV.Required
 	}
-	if len(newV.MultipleOf) > 0 {
+	if newV.MultipleOf != nil {
 		v.MultipleOf = newV.MultipleOf
 	}
-	if newV.Maximum != 0 {
+	if newV.Maximum != nil {
 		v.Maximum = newV.Maximum
 	}
-	if newV.ExclusiveMaximum != 0 {
+	if newV.ExclusiveMaximum != nil {
 		v.ExclusiveMaximum = newV.ExclusiveMaximum
 	}
-	if newV.Minimum != 0 {
+	if newV.Minimum != nil {
 		v.Minimum = newV.Minimum
 	}
-	if newV.ExclusiveMinimum != 0 {
+	if newV.ExclusiveMinimum != nil {
 		v.ExclusiveMinimum = newV.ExclusiveMinimum
 	}
-	if newV.MaxLength != 0 {
+	if newV.MaxLength != nil {
 		v.MaxLength = newV.MaxLength
 	}
-	if newV.MinLength != 0 {
+	if newV.MinLength != nil {
 		v.MinLength = newV.MinLength
 	}
 	if newV.Pattern != "" {
 		v.Pattern = newV.Pattern
 	}
-	if newV.MaxItems != 0 {
+	if newV.MaxItems != nil {
 		v.MaxItems = newV.MaxItems
 	}
-	if newV.MinItems != 0 {
+	if newV.MinItems != nil {
 		v.MinItems = newV.MinItems
 	}
 	if newV.UniqueItems {
 		v.UniqueItems = newV.UniqueItems
 	}
-	if newV.MaxProperties != 0 {
+	if newV.MaxProperties != nil {
 		v.MaxProperties = newV.MaxProperties
 	}
-	if newV.MinProperties != 0 {
+	if newV.MinProperties != nil {
 		v.MinProperties = newV.MinProperties
 	}
 	if len(newV.Enum) > 0 {
diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index d227b6e..b86aa7f 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -124,8 +124,12 @@ func (s *Schema) setValidationsFromReferenced(refTo *Schema) {
 	// Get validations from the referenced schema, but not its composition that
 	// is already merged in it
 	allOf, anyOf, oneOf := s.AllOf, s.AnyOf, s.OneOf
+	isRequired := s.IsRequired
 	s.Validations.Merge(refTo.Validations)
 	s.AllOf, s.AnyOf, s.OneOf = allOf, anyOf, oneOf
+
+	// Being required is decided where the reference is, not where it leads to
+	s.IsRequired = isRequired
 }
 
 // setReference sets the schema that is referenced, if there is one.
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index b7ea688..0427e2b 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -319,9 +319,13 @@ func (s *Schema) setReference(spec Specification) error {
 	// Get validations from the referenced schema, but not its composition that
 	// is already merged in it
 	allOf, anyOf, oneOf := s.AllOf, s.AnyOf, s.OneOf
+	isRequired := s.IsRequired
 	s.Validations.Merge(refTo.Validations)
 	s.AllOf, s.AnyOf, s.OneOf = allOf, anyOf, oneOf
 
+	// Being required is decided where the reference is, not where it leads to
+	s.IsRequired = isRequired
+
 	return nil
 }
 
diff --git a/pkg/codegen/generators/helpers.go b/pkg/codegen/generators/helpers.go
index 7617e01..031881d 100644
--- a/pkg/codegen/generators/helpers.go
+++ b/pkg/codegen/generators/helpers.go
@@ -2,19 +2,43 @@ package generators
 
 import (
 	"fmt"
+	"math"
+	"strconv"
 	"strings"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils/template"
 )
 
-func appendDirectiveIfDefined(directives []string, tagName string, value float64) []string {
-	if value != 0 {
-		return append(directives, fmt.Sprintf("%s=%g", tagName, value))
+func appendLengthDirectiveIfDefined(directives []string, tagName string, value *uint) []string {
+	if value != nil {
+		return append(directives, fmt.Sprintf("%s=%d", tagName, *value))
 	}
 	return directives
 }
 
+// appendBoundDirectiveIfDefined appends the directive of a numeric bound. The bounds
+// of integers are rounded with the given function, as the validator only accepts
+// integers for them.
+func appendBoundDirectiveIfDefined(
+	directives []string, tagName string, value *float64, schemaType string, round func(float64) float64,
+) []string {
+	if value == nil {
+		return directives
+	}
+
+	bound := *value
+	if schemaType == "integer" {
+		bound = round(bound)
+		if bound >= math.MaxInt64 || bound < math.MinInt64 {
+			// Out of the values that the validator and the field can hold
+			return directives
+		}
+	}
+
+	return append(directives, tagName+"="+strconv.FormatFloat(bound, 'f', -1, 64))
+}
+
 // GenerateJSONTags returns the "json" tag for a given field in a struct, based on the asyncapi contract.
 func GenerateJSONTags[T any](schema asyncapi.Validations[T], field string) string {
 	directives := []string{
@@ -44,12 +68,12 @@ func GenerateValidateTags[T any](schema asyncapi.Validations[T], isPointer bool,
 		directives = append(directives, "required")
 	}
 
-	directives = appendDirectiveIfDefined(directives, "min", float64(schema.MinLength))
-	directives = appendDirectiveIfDefined(directives, "max", float64(schema.MaxLength))
-	directives = appendDirectiveIfDefined(directives, "gte", schema.Minimum)
-	directives = appendDirectiveIfDefined(directives, "lte", schema.Maximum)
-	directives = appendDirectiveIfDefined(directives, "gt", schema.ExclusiveMinimum)
-	directives = appendDirectiveIfDefined(directives, "lt", schema.ExclusiveMaximum)
+	directives = appendLengthDirectiveIfDefined(directives, "min", schema.MinLength)
+	directives = appendLengthDirectiveIfDefined(directives, "max", schema.MaxLength)
+	directives = appendBoundDirectiveIfDefined(directives, "gte", schema.Minimum, schemaType, math.Ceil)
+	directives = appendBoundDirectiveIfDefined(directives, "lte", schema.Maximum, schemaType, math.Floor)
+	directives = appendBoundDirectiveIfDefined(directives, "gt", schema.ExclusiveMinimum, schemaType, math.Floor)
+	directives = appendBoundDirectiveIfDefined(directives, "lt", schema.ExclusiveMaximum, schemaType, math.Ceil)
 
 	if schema.UniqueItems {
 		directives = append(directives, "unique")
@@ -59,7 +83,7 @@ func GenerateValidateTags[T any](schema asyncapi.Validations[T], isPointer bool,
 	if schema.Const != nil {
 		if cStr, ok := schema.Const.(string); ok {
 			// Only generate enum if the elements is a string, otherwise this is unsupported
-			directives = append(directives, fmt.Sprintf("eq=%s", cStr))
+			directives = append(directives, "eq="+escapeParam(cStr))
 		}
 	}
 
@@ -68,31 +92,53 @@ func GenerateValidateTags[T any](schema asyncapi.Validations[T], isPointer bool,
 			directives = append([]string{"omitempty"}, directives...)
 		}
 
-		return fmt.Sprintf(" validate:\"%s\"", strings.Join(directives, ","))
+		return " validate:" + quoteTag(strings.Join(directives, ","))
 	} else {
 		return ""
 	}
 }
 
+// quoteTag quotes the value of a tag that will be written in a raw string.
+func quoteTag(value string) string {
+	return strings.ReplaceAll(strconv.Quote(value), "`", `\x60`)
+}
+
+// escapeParam escapes the characters that separate the directives in the tag.
+func escapeParam(s string) string {
+	s = strings.ReplaceAll(s, ",", "0x2C")
+	return strings.ReplaceAll(s, "|", "0x7C")
+}
+
 // singleQuote prepends and appends a single quote to the provided string.
 func singleQuote(s string) string {
 	return "'" + s + "'"
 }
 
 func appendEnumDirectives[T any](schema asyncapi.Validations[T], directives []string) []string {
-	if len(schema.Enum) > 0 {
-		var enumsStr []string
-		for _, e := range schema.Enum {
-			if eStr, ok := e.(string); ok {
-				// single quotes are mandatory in order to handle values with spaces
-				enumsStr = append(enumsStr, singleQuote(eStr))
-			}
-		}
+	if len(schema.Enum) == 0 {
+		return directives
+	}
 
-		// Only generate enum if all elements are string, otherwise this is unsupported
-		if len(schema.Enum) == len(enumsStr) {
-			directives = append(directives, fmt.Sprintf("oneof=%s", strings.Join(enumsStr, " ")))
+	var withQuote bool
+	var oneOf, eq []string
+	for _, e := range schema.Enum {
+		eStr, ok := e.(string)
+		if !ok {
+			// Only generate enum if all elements are string, otherwise this is unsupported
+			return directives
 		}
+
+		withQuote = withQuote || strings.Contains(eStr, "'")
+		eStr = escapeParam(eStr)
+
+		// single quotes are mandatory in order to handle values with spaces
+		oneOf = append(oneOf, singleQuote(eStr))
+		eq = append(eq, "eq="+eStr)
 	}
-	return directives
+
+	// A value with a single quote can not be given to the oneof directive
+	if withQuote {
+		return append(directives, strings.Join(eq, "|"))
+	}
+	return append(directives, "oneof="+strings.Join(oneOf, " "))
 }
diff --git a/pkg/codegen/generators/v2/templates/schema_definition.tmpl b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
index 6722c85..1da8bf1 100644
--- a/pkg/codegen/generators/v2/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
@@ -16,7 +16,7 @@ type {{ namify .Name }} struct {
     {{else if and $value.ReferenceTo $value.Follow.Description}}
     // Description: {{multiLineComment $value.Follow.Description}}
     {{end -}}
-    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags $value.Validations $key}}{{generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Type }}`
+    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags $value.Validations $key}}{{generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Follow.Type }}`
     {{end -}}
 
     {{- if .AdditionalProperties}}
diff --git a/pkg/codegen/generators/v3/templates/schema_definition.tmpl b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
index 6722c85..1da8bf1 100644
--- a/pkg/codegen/generators/v3/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
@@ -16,7 +16,7 @@ type {{ namify .Name }} struct {
     {{else if and $value.ReferenceTo $value.Follow.Description}}
     // Description: {{multiLineComment $value.Follow.Description}}
     {{end -}}
-    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags $value.Validations $key}}{{generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Type }}`
+    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags $value.Validations $key}}{{generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Follow.Type }}`
     {{end -}}
 
     {{- if .AdditionalProperties}}
-- 
2.43.0


From 3dfa4ae3d46b3b3892194c4d1c8939663ae83531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:25 +0000
Subject: [PATCH 16/37] fix: correlation IDs and reply addresses whose schema
 is a named type

---
 pkg/asyncapi/v2/message.go                         | 14 ++++++++++++++
 pkg/asyncapi/v3/message.go                         | 14 ++++++++++++++
 pkg/codegen/generators/v2/templates/message.tmpl   | 13 +++++++------
 .../generators/v3/templates/controller.tmpl        |  8 ++++----
 pkg/codegen/generators/v3/templates/message.tmpl   | 13 +++++++------
 5 files changed, 46 insertions(+), 16 deletions(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index 03a758a..faa8d49 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -53,6 +53,9 @@ type Message struct {
 	CorrelationIDLocation string `json:"-"`
 	CorrelationIDRequired bool   `json:"-"`
 
+	// CorrelationIDSchema is the schema of the field where the correlation id is
+	CorrelationIDSchema *Schema `json:"-"`
+
 	dependenciesSet bool // True when the dependencies have been set (or are being set)
 }
 
@@ -180,6 +183,7 @@ func (msg *Message) setHeadersDependencies(spec Specification) error {
 func (msg *Message) processCorrelationID() {
 	msg.createCorrelationIDFieldIfMissing()
 	msg.CorrelationIDRequired = msg.isCorrelationIDRequired()
+	msg.CorrelationIDSchema = msg.getCorrelationIDSchema()
 	msg.CorrelationIDLocation = msg.getCorrelationIDLocation()
 }
 
@@ -233,6 +237,16 @@ func (msg Message) isCorrelationIDRequired() bool {
 	return correlationIDParent.IsFieldRequired(path[len(path)-1])
 }
 
+func (msg Message) getCorrelationIDSchema() *Schema {
+	if msg.CorrelationID == nil || msg.CorrelationID.Location == "" {
+		return nil
+	}
+
+	correlationIDParent := msg.createTreeUntilCorrelationID()
+	path := strings.Split(msg.CorrelationID.Location, "/")
+	return correlationIDParent.Follow().Properties[path[len(path)-1]]
+}
+
 func (msg *Message) createCorrelationIDFieldIfMissing() {
 	_ = msg.createTreeUntilCorrelationID()
 }
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index b32ec64..ea1eb94 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -60,6 +60,9 @@ type Message struct {
 	// According to: https://www.asyncapi.com/docs/reference/specification/v3.0.0#correlationIdObject
 	CorrelationIDRequired bool `json:"-"`
 
+	// CorrelationIDSchema is the schema of the field where the correlation id is
+	CorrelationIDSchema *Schema `json:"-"`
+
 	dependenciesSet bool // True when the dependencies have been set (or are being set)
 }
 
@@ -168,6 +171,7 @@ func (msg *Message) setDependencies(spec Specification) error {
 	// references or come from traits
 	msg.createCorrelationIDFieldIfMissing()
 	msg.CorrelationIDRequired = msg.isCorrelationIDRequired()
+	msg.CorrelationIDSchema = msg.getCorrelationIDSchema()
 
 	return nil
 }
@@ -315,6 +319,16 @@ func (msg Message) isCorrelationIDRequired() bool {
 	return correlationIDParent.IsFieldRequired(path[len(path)-1])
 }
 
+func (msg Message) getCorrelationIDSchema() *Schema {
+	if msg.CorrelationID == nil || msg.CorrelationID.Location == "" {
+		return nil
+	}
+
+	correlationIDParent := msg.createTreeUntilLocation(msg.CorrelationID.Location)
+	path := strings.Split(msg.CorrelationID.Location, "/")
+	return correlationIDParent.Follow().Properties[path[len(path)-1]]
+}
+
 func (msg *Message) createCorrelationIDFieldIfMissing() {
 	if msg.CorrelationID == nil {
 		return
diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 4969a87..e99a7db 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -45,7 +45,7 @@ func New{{namify .Name}}() {{namify .Name}} {
 
     {{if ne $.CorrelationIDLocation "" -}}
     // Set correlation ID
-    u := uuid.New().String()
+    u := {{template "schema-name" $.CorrelationIDSchema}}(uuid.New().String())
     msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if isLocationPointer $.CorrelationIDRequired}}&{{end}}u
     {{- end}}
 
@@ -258,10 +258,10 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
 // CorrelationID will give the correlation ID of the message, based on AsyncAPI spec
 func (msg {{namify .Name}}) CorrelationID() string {
     {{if not (isLocationPointer $.CorrelationIDRequired) -}}
-        return msg.{{referenceToStructAttributePath $.CorrelationIDLocation}}
+        return string(msg.{{referenceToStructAttributePath $.CorrelationIDLocation}})
     {{- else -}}
     if msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} != nil{
-        return *msg.{{referenceToStructAttributePath $.CorrelationIDLocation}}
+        return string(*msg.{{referenceToStructAttributePath $.CorrelationIDLocation}})
     }
 
     return ""
@@ -270,15 +270,16 @@ func (msg {{namify .Name}}) CorrelationID() string {
 
 // SetCorrelationID will set the correlation ID of the message, based on AsyncAPI spec
 func (msg *{{namify .Name}}) SetCorrelationID(id string) {
-    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if isLocationPointer $.CorrelationIDRequired -}}&{{end}}id
+    v := {{template "schema-name" $.CorrelationIDSchema}}(id)
+    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if isLocationPointer $.CorrelationIDRequired -}}&{{end}}v
 }
 
 // SetAsResponseFrom will correlate the message with the one passed in parameter.
 // It will assign the 'req' message correlation ID to the message correlation ID,
 // both specified in AsyncAPI spec.
 func (msg *{{namify .Name}}) SetAsResponseFrom(req MessageWithCorrelationID) {
-    id := req.CorrelationID()
-    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if isLocationPointer $.CorrelationIDRequired -}}&{{end}}id
+    v := {{template "schema-name" $.CorrelationIDSchema}}(req.CorrelationID())
+    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if isLocationPointer $.CorrelationIDRequired -}}&{{end}}v
 }
 {{- end -}}
 
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index afe5937..af5383d 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -275,12 +275,12 @@ func (c *{{ $.Prefix }}Controller) ReplyTo{{ namify $value.Follow.Name }}(ctx co
     {{- /* Use reply address if needed */}}
     {{- if and .Reply.Address (eq .Reply.Channel.Address "") }}
         {{- if not (isLocationPointer .Reply.Address.LocationRequired) }}
-            chanAddr := recvMsg.{{referenceToStructAttributePath .Reply.Address.Location}}
+            chanAddr := string(recvMsg.{{referenceToStructAttributePath .Reply.Address.Location}})
         {{- else }}
             if recvMsg.{{referenceToStructAttributePath .Reply.Address.Location}} == nil {
                 return fmt.Errorf("%w: {{.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
             }
-            chanAddr := *recvMsg.{{referenceToStructAttributePath .Reply.Address.Location}}
+            chanAddr := string(*recvMsg.{{referenceToStructAttributePath .Reply.Address.Location}})
         {{- end }}
 
         return c.Send{{ if eq $.Prefix "User" }}To{{else}}As{{end}}ReplyTo{{ namify $value.Follow.Name }}(ctx, chanAddr, replyMsg)
@@ -406,12 +406,12 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
     // Get receiving channel address
     {{- if and .Reply.Address (eq .Reply.Channel.Address "") }}
         {{- if not (isLocationPointer .Reply.Address.LocationRequired) }}
-            addr := msg.{{referenceToStructAttributePath .Reply.Address.Location}}
+            addr := string(msg.{{referenceToStructAttributePath .Reply.Address.Location}})
         {{- else }}
             if msg.{{referenceToStructAttributePath .Reply.Address.Location}} == nil {
                 return {{opToMsgTypeName $value.ReplyIs}}{}, fmt.Errorf("%w: {{.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
             }
-            addr := *msg.{{referenceToStructAttributePath .Reply.Address.Location}}
+            addr := string(*msg.{{referenceToStructAttributePath .Reply.Address.Location}})
         {{- end }}
     {{- else }}
         addr := {{ generateChannelAddr .Reply.Channel }}
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index 183e6cd..827676f 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -45,7 +45,7 @@ func New{{namify .Name}}() {{namify .Name}} {
 
     {{if $.HaveCorrelationID -}}
     // Set correlation ID
-    u := uuid.New().String()
+    u := {{template "schema-name" $.CorrelationIDSchema}}(uuid.New().String())
     msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if isLocationPointer $.CorrelationIDRequired}}&{{end}}u
     {{- end}}
 
@@ -258,10 +258,10 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
 // CorrelationID will give the correlation ID of the message, based on AsyncAPI spec
 func (msg {{namify .Name}}) CorrelationID() string {
     {{if not (isLocationPointer $.CorrelationIDRequired) -}}
-        return msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}}
+        return string(msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}})
     {{- else -}}
     if msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} != nil{
-        return *msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}}
+        return string(*msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}})
     }
 
     return ""
@@ -270,15 +270,16 @@ func (msg {{namify .Name}}) CorrelationID() string {
 
 // SetCorrelationID will set the correlation ID of the message, based on AsyncAPI spec
 func (msg *{{namify .Name}}) SetCorrelationID(id string) {
-    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if isLocationPointer $.CorrelationIDRequired -}}&{{end}}id
+    v := {{template "schema-name" $.CorrelationIDSchema}}(id)
+    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if isLocationPointer $.CorrelationIDRequired -}}&{{end}}v
 }
 
 // SetAsResponseFrom will correlate the message with the one passed in parameter.
 // It will assign the 'req' message correlation ID to the message correlation ID,
 // both specified in AsyncAPI spec.
 func (msg *{{namify .Name}}) SetAsResponseFrom(req MessageWithCorrelationID) {
-    id := req.CorrelationID()
-    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if isLocationPointer $.CorrelationIDRequired -}}&{{end}}id
+    v := {{template "schema-name" $.CorrelationIDSchema}}(req.CorrelationID())
+    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if isLocationPointer $.CorrelationIDRequired -}}&{{end}}v
 }
 {{- end -}}
 
-- 
2.43.0


From c0aa1d658163ffa748617fc16c45eef48137d8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:25 +0000
Subject: [PATCH 17/37] fix: v3 chains of references are followed and
 operations that are references are generated

---
 pkg/asyncapi/v3/correlation_id.go          |  3 +-
 pkg/asyncapi/v3/operation.go               |  3 +-
 pkg/asyncapi/v3/operation_reply.go         |  3 +-
 pkg/asyncapi/v3/operation_reply_address.go |  3 +-
 pkg/asyncapi/v3/specification.go           |  4 +--
 pkg/asyncapi/v3/utils.go                   | 37 ++++++++++++++++++++++
 pkg/codegen/generators/v3/common.go        |  3 ++
 7 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/pkg/asyncapi/v3/correlation_id.go b/pkg/asyncapi/v3/correlation_id.go
index 5ce970f..3ecbcd4 100644
--- a/pkg/asyncapi/v3/correlation_id.go
+++ b/pkg/asyncapi/v3/correlation_id.go
@@ -36,7 +36,8 @@ func (c *CorrelationID) setDependencies(spec Specification) error {
 
 	// Add pointer to reference if there is one
 	if c.Reference != "" {
-		refTo, err := spec.ReferenceCorrelationID(c.Reference)
+		refTo, err := followReferences(spec, c.Reference, Specification.ReferenceCorrelationID,
+			func(target *CorrelationID) string { return target.Reference })
 		if err != nil {
 			return err
 		}
diff --git a/pkg/asyncapi/v3/operation.go b/pkg/asyncapi/v3/operation.go
index 7c3c5e7..cb8d4b5 100644
--- a/pkg/asyncapi/v3/operation.go
+++ b/pkg/asyncapi/v3/operation.go
@@ -155,7 +155,8 @@ func (op *Operation) setReference(spec Specification) error {
 	}
 
 	// Add pointer to reference if there is one
-	refTo, err := spec.ReferenceOperation(op.Reference)
+	refTo, err := followReferences(spec, op.Reference, Specification.ReferenceOperation,
+		func(target *Operation) string { return target.Reference })
 	if err != nil {
 		return err
 	}
diff --git a/pkg/asyncapi/v3/operation_reply.go b/pkg/asyncapi/v3/operation_reply.go
index 6fad83d..8dbaeab 100644
--- a/pkg/asyncapi/v3/operation_reply.go
+++ b/pkg/asyncapi/v3/operation_reply.go
@@ -42,7 +42,8 @@ func (or *OperationReply) setDependencies(op *Operation, spec Specification) err
 
 	// Add pointer to reference if there is one
 	if or.Reference != "" {
-		refTo, err := spec.ReferenceOperationReply(or.Reference)
+		refTo, err := followReferences(spec, or.Reference, Specification.ReferenceOperationReply,
+			func(target *OperationReply) string { return target.Reference })
 		if err != nil {
 			return err
 		}
diff --git a/pkg/asyncapi/v3/operation_reply_address.go b/pkg/asyncapi/v3/operation_reply_address.go
index 27f9ec6..93327c7 100644
--- a/pkg/asyncapi/v3/operation_reply_address.go
+++ b/pkg/asyncapi/v3/operation_reply_address.go
@@ -41,7 +41,8 @@ func (ora *OperationReplyAddress) setDependencies(op *Operation, spec Specificat
 
 	// Add pointer to reference if there is one
 	if ora.Reference != "" {
-		refTo, err := spec.ReferenceOperationReplyAddress(ora.Reference)
+		refTo, err := followReferences(spec, ora.Reference, Specification.ReferenceOperationReplyAddress,
+			func(target *OperationReplyAddress) string { return target.Reference })
 		if err != nil {
 			return err
 		}
diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index f589b76..fa279de 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -181,12 +181,12 @@ func (s *Specification) setDependencies() error {
 func (s Specification) GetOperationCountByAction() (sendCount, receiveCount uint) {
 	for _, op := range s.Operations {
 		// Check that the publish channel is present
-		if op.Action.IsSend() {
+		if op.Follow().Action.IsSend() {
 			sendCount++
 		}
 
 		// Check that the subscribe channel is present
-		if op.Action.IsReceive() {
+		if op.Follow().Action.IsReceive() {
 			receiveCount++
 		}
 	}
diff --git a/pkg/asyncapi/v3/utils.go b/pkg/asyncapi/v3/utils.go
index 6cf19c4..22770d8 100644
--- a/pkg/asyncapi/v3/utils.go
+++ b/pkg/asyncapi/v3/utils.go
@@ -27,3 +27,40 @@ func generateFullName(parentName, name, typeName string, number *int) string {
 	// Return the name with the number
 	return template.Namify(name + "_" + typeName + "_" + parentName)
 }
+
+// followReferences gives the object at the end of a chain of references that
+// starts with the given one, resolving each reference from the specification
+// where it is written. The get function gives the target of a reference, and
+// the next one gives the reference that a target holds, if any.
+func followReferences[T any](
+	spec Specification,
+	ref string,
+	get func(spec Specification, ref string) (*T, error),
+	next func(target *T) string,
+) (*T, error) {
+	seen := make(map[*T]bool)
+	for {
+		target, err := get(spec, ref)
+		if err != nil {
+			return nil, err
+		}
+
+		// Return target if it is not a reference
+		if next(target) == "" {
+			return target, nil
+		}
+
+		// Check that the references are not looping
+		if seen[target] {
+			return nil, fmt.Errorf("%w: %q is referencing itself", ErrInvalidReference, ref)
+		}
+		seen[target] = true
+
+		// Continue from the specification of the target
+		targetSpec, _, err := spec.getDependencyBasedOnRef(ref)
+		if err != nil {
+			return nil, err
+		}
+		spec, ref = *targetSpec, next(target)
+	}
+}
diff --git a/pkg/codegen/generators/v3/common.go b/pkg/codegen/generators/v3/common.go
index 2e1fa5e..21fe9d9 100644
--- a/pkg/codegen/generators/v3/common.go
+++ b/pkg/codegen/generators/v3/common.go
@@ -31,6 +31,9 @@ func NewActionOperations(side generators.Side, spec asyncapi.Specification) Acti
 	ao.Receive = make(map[string]*asyncapi.Operation)
 	ao.Send = make(map[string]*asyncapi.Operation)
 	for name, op := range spec.Operations {
+		// Use the referenced operation, if this is a reference
+		op = op.Follow()
+
 		// Add channel to receive channels based on operation action and side
 		if isControllerReceiveOperation(side, op) {
 			ao.Receive[name] = op
-- 
2.43.0


From 0dbe759cfc5a43d6c3331c95b743c933287bef4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:25 +0000
Subject: [PATCH 18/37] fix: v2 generated code uses each name as it is declared
 with the camel naming scheme

---
 .../generators/v2/templates/controller.tmpl   | 22 +++++++++----------
 .../marshaling/additional_properties.tmpl     | 10 ++++-----
 .../v2/templates/marshaling/time.tmpl         |  6 ++---
 .../generators/v2/templates/parameter.tmpl    |  2 +-
 .../generators/v2/templates/subscriber.tmpl   |  2 +-
 5 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/controller.tmpl b/pkg/codegen/generators/v2/templates/controller.tmpl
index 203f2f8..a7dbdbc 100644
--- a/pkg/codegen/generators/v2/templates/controller.tmpl
+++ b/pkg/codegen/generators/v2/templates/controller.tmpl
@@ -154,7 +154,7 @@ func (c *{{ $.Prefix }}Controller) Subscribe{{operationName $value}}(
     {{- if .Parameters}}
     params {{namifyWithoutParam .Name}}Parameters,
     {{- end }}
-    fn func (ctx context.Context, msg {{(channelToMessage $value $subscribe).Name}}) error,
+    fn func (ctx context.Context, msg {{namify (channelToMessage $value $subscribe).Name}}) error,
 ) error {
     // Get channel path
     path := {{ generateChannelPath $value }}
@@ -204,7 +204,7 @@ func (c *{{ $.Prefix }}Controller) Subscribe{{operationName $value}}(
 func (c *{{ $.Prefix }}Controller) listenTo{{operationName $value}}NextMessage(
     path string,
     sub extensions.BrokerChannelSubscription,
-    fn func (ctx context.Context, msg {{(channelToMessage $value $subscribe).Name}}) error,
+    fn func (ctx context.Context, msg {{namify (channelToMessage $value $subscribe).Name}}) error,
 ) (stop bool, err error) {
     // Create a context for the received response
     msgCtx, cancel := context.WithCancel(context.Background())
@@ -227,7 +227,7 @@ func (c *{{ $.Prefix }}Controller) listenTo{{operationName $value}}NextMessage(
     // Execute middlewares before handling the message
     if err := c.executeMiddlewares(msgCtx, &acknowledgeableBrokerMessage.BrokerMessage, func(middlewareCtx context.Context) error {
         // Process message
-        msg, err := brokerMessageTo{{(channelToMessage $value $subscribe).Name}}(acknowledgeableBrokerMessage.BrokerMessage)
+        msg, err := brokerMessageTo{{namify (channelToMessage $value $subscribe).Name}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             return err
         }
@@ -296,7 +296,7 @@ func (c *{{ $.Prefix }}Controller) Publish{{operationName $value}}(
     {{- if .Parameters }}
     params {{namifyWithoutParam .Name}}Parameters,
     {{- end}}
-    msg {{(channelToMessage $value $publish).Name}},
+    msg {{namify (channelToMessage $value $publish).Name}},
 ) error {
     // Get channel path
     path := {{ generateChannelPath $value }}
@@ -347,7 +347,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
     {{- end}}
     publishMsg MessageWithCorrelationID,
     pub func(ctx context.Context) error,
-) ({{(channelToMessage $value $subscribe).Name}}, error) {
+) ({{namify (channelToMessage $value $subscribe).Name}}, error) {
     // Get channel path
     path := {{ generateChannelPath $value }}
 
@@ -359,7 +359,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
     sub, err := c.broker.Subscribe(ctx, path)
     if err != nil {
         c.logger.Error(ctx, err.Error())
-        return {{(channelToMessage $value $subscribe).Name}}{}, err
+        return {{namify (channelToMessage $value $subscribe).Name}}{}, err
     }
     c.logger.Info(ctx, "Subscribed to channel")
 
@@ -374,7 +374,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
 
     // Execute callback for publication
     if err = pub(ctx); err != nil {
-        return {{(channelToMessage $value $subscribe).Name}}{}, err
+        return {{namify (channelToMessage $value $subscribe).Name}}{}, err
     }
 
     // Wait for corresponding response
@@ -383,7 +383,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
         msg, err := c.waitFor{{operationName $value}}NextMessage(ctx, path, sub, publishMsg)
         if err != nil {
             c.logger.Error(ctx, err.Error())
-            return {{(channelToMessage $value $subscribe).Name}}{}, err
+            return {{namify (channelToMessage $value $subscribe).Name}}{}, err
         }
 
         // Continue if the message hasn't been received
@@ -400,7 +400,7 @@ func (c *UserController) waitFor{{operationName $value}}NextMessage(
     path string,
     sub extensions.BrokerChannelSubscription,
     publishMsg MessageWithCorrelationID,
-) (*{{(channelToMessage $value $subscribe).Name}}, error) {
+) (*{{namify (channelToMessage $value $subscribe).Name}}, error) {
     // Create a context for the received response
     msgCtx, cancel := context.WithCancel(context.Background())
     msgCtx = add{{ $.Prefix }}ContextValues(msgCtx, path)
@@ -419,7 +419,7 @@ func (c *UserController) waitFor{{operationName $value}}NextMessage(
         }
 
         // Get new message
-        msg, err := brokerMessageTo{{(channelToMessage $value $subscribe).Name}}(acknowledgeableBrokerMessage.BrokerMessage)
+        msg, err := brokerMessageTo{{namify (channelToMessage $value $subscribe).Name}}(acknowledgeableBrokerMessage.BrokerMessage)
 
         // Acknowledge message
         acknowledgeableBrokerMessage.Ack()
@@ -444,7 +444,7 @@ func (c *UserController) waitFor{{operationName $value}}NextMessage(
         }
 
         // Return the message to the caller from the broker that could have been modified by middlewares
-        msg, err = brokerMessageTo{{(channelToMessage $value $subscribe).Name}}(acknowledgeableBrokerMessage.BrokerMessage)
+        msg, err = brokerMessageTo{{namify (channelToMessage $value $subscribe).Name}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             return nil, err
         }
diff --git a/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl b/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
index 7336f9c..63e81f8 100644
--- a/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
+++ b/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
@@ -1,8 +1,8 @@
 {{define "marshaling-additional-properties" -}}
 
 // MarshalJSON marshals the schema into JSON with support for additional properties.
-func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
-    type alias {{ .Name }}
+func (t {{ namify .Name }}) MarshalJSON() ([]byte, error) {
+    type alias {{ namify .Name }}
 
     // Copy original into alias and marshal the alias to avoid JSON marshal recursion
     b, err := json.Marshal(alias(t))
@@ -39,8 +39,8 @@ func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
 }
 
 // UnmarshalJSON unmarshals schema from JSON with support for additional properties.
-func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
-    type alias {{ .Name }}
+func (t *{{ namify .Name }}) UnmarshalJSON(data []byte) error {
+    type alias {{ namify .Name }}
 
     // Unmarshal to map to get all fields
     var m map[string]json.RawMessage
@@ -54,7 +54,7 @@ func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
     if err := json.Unmarshal(data, &a);  err != nil {
         return err
     }
-    *t = {{ .Name }}(a)
+    *t = {{ namify .Name }}(a)
 
     // Get all fields that are additional and add them to the AdditionalProperties field.
     t.AdditionalProperties = make(map[string]{{template "schema-name" .AdditionalProperties}}, len(m))
diff --git a/pkg/codegen/generators/v2/templates/marshaling/time.tmpl b/pkg/codegen/generators/v2/templates/marshaling/time.tmpl
index b8e296d..e4c73ff 100644
--- a/pkg/codegen/generators/v2/templates/marshaling/time.tmpl
+++ b/pkg/codegen/generators/v2/templates/marshaling/time.tmpl
@@ -1,17 +1,17 @@
 {{define "marshaling-time" -}}
 // MarshalJSON will override the marshal as this is not a normal '{{template "schema-name" .}}' type
-func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
+func (t {{ namify .Name }}) MarshalJSON() ([]byte, error) {
     return json.Marshal({{template "schema-name" .}}(t))
 }
 
 // UnmarshalJSON will override the unmarshal as this is not a normal '{{template "schema-name" .}}' type
-func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
+func (t *{{ namify .Name }}) UnmarshalJSON(data []byte) error {
     var timeFormat {{template "schema-name" .}}
     if err := json.Unmarshal(data, &timeFormat);  err != nil {
         return err
     }
 
-    *t = {{ .Name }}(timeFormat)
+    *t = {{ namify .Name }}(timeFormat)
     return nil
 }
 {{- end}}
\ No newline at end of file
diff --git a/pkg/codegen/generators/v2/templates/parameter.tmpl b/pkg/codegen/generators/v2/templates/parameter.tmpl
index 8b71147..c2557d3 100644
--- a/pkg/codegen/generators/v2/templates/parameter.tmpl
+++ b/pkg/codegen/generators/v2/templates/parameter.tmpl
@@ -5,6 +5,6 @@
 {{- end}}
 
 {{- /* Use the schema of the parameter if defined, directly or by reference */}}
-{{namify $.Name }} {{if $.Follow.Schema}}{{template "schema-name" $.Follow.Schema}}{{else}}string{{end}}
+{{$.Name}} {{if $.Follow.Schema}}{{template "schema-name" $.Follow.Schema}}{{else}}string{{end}}
 
 {{- end}}
diff --git a/pkg/codegen/generators/v2/templates/subscriber.tmpl b/pkg/codegen/generators/v2/templates/subscriber.tmpl
index bee3f3c..5c1b5af 100644
--- a/pkg/codegen/generators/v2/templates/subscriber.tmpl
+++ b/pkg/codegen/generators/v2/templates/subscriber.tmpl
@@ -9,7 +9,7 @@
 type {{ .Prefix }}Subscriber interface {
 {{- range  $key, $value := .Channels}}
     // {{operationName $value}} subscribes to messages placed on the '{{ $key }}' channel
-    {{operationName $value}}(ctx context.Context, msg {{(channelToMessage $value $direction).Name}}) error
+    {{operationName $value}}(ctx context.Context, msg {{namify (channelToMessage $value $direction).Name}}) error
 {{end}}
 }
 {{- end}}
-- 
2.43.0


From 1457b3cffcdd204e9e304e2bfef1298268a06460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 19/37] fix: loggers do not write in the array of fields they
 are given

---
 pkg/extensions/loggers/ecs.go  | 4 ++++
 pkg/extensions/loggers/text.go | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/extensions/loggers/ecs.go b/pkg/extensions/loggers/ecs.go
index 8450f46..595d834 100644
--- a/pkg/extensions/loggers/ecs.go
+++ b/pkg/extensions/loggers/ecs.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"slices"
 	"time"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
@@ -74,6 +75,9 @@ func (ecs ECS) formatLog(ctx context.Context, msg string, info ...extensions.Log
 }
 
 func (ecs ECS) logWithLevel(ctx context.Context, level string, msg string, info ...extensions.LogInfo) {
+	// Avoid writing in the array of the caller
+	info = slices.Clip(info)
+
 	// Add additional keys
 	info = append(info, extensions.LogInfo{Key: "log.level", Value: level})
 
diff --git a/pkg/extensions/loggers/text.go b/pkg/extensions/loggers/text.go
index cde8e9f..bbde20f 100644
--- a/pkg/extensions/loggers/text.go
+++ b/pkg/extensions/loggers/text.go
@@ -3,6 +3,7 @@ package loggers
 import (
 	"context"
 	"fmt"
+	"slices"
 	"strings"
 	"time"
 
@@ -94,7 +95,8 @@ func (tl Text) setInfoFromContext(ctx context.Context, msg string, info ...exten
 }
 
 func (tl Text) formatLog(ctx context.Context, msgFmt *color.Color, msg string, info ...extensions.LogInfo) string {
-	// Set additional fields
+	// Set additional fields, without writing in the array of the caller
+	info = slices.Clip(info)
 	info = tl.setInfoFromContext(ctx, msg, info...)
 
 	// Structure log
-- 
2.43.0


From 4844212618fe538c930b959eece7eb418f0d9b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 20/37] fix: options of a generation do not apply to the
 following ones

---
 pkg/codegen/codegen.go                         |  5 +++++
 pkg/codegen/generators/v2/templates/helpers.go | 18 +++++++++++++++---
 pkg/codegen/generators/v3/templates/helpers.go | 18 +++++++++++++++---
 pkg/utils/template/helpers.go                  | 10 +++++++++-
 4 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index df377fb..9608fb1 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -90,6 +90,11 @@ func (cg CodeGen) Generate(opt options.Options) error {
 		return err
 	}
 
+	// Options of a previous generation should not apply to this one
+	template.ResetDateOrTimeGeneration()
+	templatesv2.ResetPointerOnFields()
+	templatesv3.ResetPointerOnFields()
+
 	if opt.IgnoreStringFormat {
 		template.DisableDateOrTimeGeneration()
 	}
diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index 7f691be..4bb4d44 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -151,13 +151,18 @@ func OperationName(channel asyncapi.Channel) string {
 	return templateutil.Namify(name)
 }
 
-var isFieldPointer = func(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
+var (
+	isFieldPointer    = defaultIsFieldPointer
+	isLocationPointer = defaultIsLocationPointer
+)
+
+func defaultIsFieldPointer(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
 	return !(IsRequired(parent, field) || schema.IsRequired) && schema.Type != "array"
 }
 
-// isLocationPointer returns true if the field at the location of a correlation ID
+// defaultIsLocationPointer returns true if the field at the location of a correlation ID
 // is a pointer, based on the fact that it is required or not.
-var isLocationPointer = func(isRequired bool) bool {
+func defaultIsLocationPointer(isRequired bool) bool {
 	return !isRequired
 }
 
@@ -169,6 +174,13 @@ func ForcePointerOnFields() {
 	isLocationPointer = func(_ bool) bool { return true }
 }
 
+// ResetPointerOnFields is used to go back to the default generation of fields, where
+// only the ones that are not required are generated as pointers.
+func ResetPointerOnFields() {
+	isFieldPointer = defaultIsFieldPointer
+	isLocationPointer = defaultIsLocationPointer
+}
+
 // HelpersFunctions returns the functions that can be used as helpers
 // in a golang template.
 func HelpersFunctions() template.FuncMap {
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index c60024e..19c5425 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -137,13 +137,18 @@ func GenerateChannelAddr(ch *asyncapi.Channel) string {
 	return sprint[:len(sprint)-1] + ")"
 }
 
-var isFieldPointer = func(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
+var (
+	isFieldPointer    = defaultIsFieldPointer
+	isLocationPointer = defaultIsLocationPointer
+)
+
+func defaultIsFieldPointer(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
 	return !(IsRequired(parent, field) || schema.IsRequired) && schema.Type != "array"
 }
 
-// isLocationPointer returns true if the field at the location of a correlation ID or
+// defaultIsLocationPointer returns true if the field at the location of a correlation ID or
 // of a reply address is a pointer, based on the fact that it is required or not.
-var isLocationPointer = func(isRequired bool) bool {
+func defaultIsLocationPointer(isRequired bool) bool {
 	return !isRequired
 }
 
@@ -155,6 +160,13 @@ func ForcePointerOnFields() {
 	isLocationPointer = func(_ bool) bool { return true }
 }
 
+// ResetPointerOnFields is used to go back to the default generation of fields, where
+// only the ones that are not required are generated as pointers.
+func ResetPointerOnFields() {
+	isFieldPointer = defaultIsFieldPointer
+	isLocationPointer = defaultIsLocationPointer
+}
+
 // HelpersFunctions returns the functions that can be used as helpers
 // in a golang template.
 func HelpersFunctions() template.FuncMap {
diff --git a/pkg/utils/template/helpers.go b/pkg/utils/template/helpers.go
index f7f9fc6..1c911e8 100644
--- a/pkg/utils/template/helpers.go
+++ b/pkg/utils/template/helpers.go
@@ -136,7 +136,9 @@ func CutSuffix(s, suffix string) string {
 	return s
 }
 
-var isDateOrDateTimeGenerated = func(format string) bool {
+var isDateOrDateTimeGenerated = defaultIsDateOrDateTimeGenerated
+
+func defaultIsDateOrDateTimeGenerated(format string) bool {
 	return format == "date" || format == "date-time"
 }
 
@@ -145,6 +147,12 @@ func DisableDateOrTimeGeneration() {
 	isDateOrDateTimeGenerated = func(_ string) bool { return false }
 }
 
+// ResetDateOrTimeGeneration is used to go back to the default generation of
+// date/date-time formats within types.
+func ResetDateOrTimeGeneration() {
+	isDateOrDateTimeGenerated = defaultIsDateOrDateTimeGenerated
+}
+
 // HelpersFunctions returns the functions that can be used as helpers
 // in a golang template.
 func HelpersFunctions() template.FuncMap {
-- 
2.43.0


From 37f11d9af1fd77bf7dd8d4515cb63e6533451801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:08 +0000
Subject: [PATCH 21/37] fix: x-go-type on payloads, headers and named schemas

---
 .../generators/v2/templates/message.tmpl      | 47 +++++++++++++++++--
 .../v2/templates/schema_definition.tmpl       | 14 +++++-
 .../generators/v3/templates/message.tmpl      | 47 +++++++++++++++++--
 .../v3/templates/schema_definition.tmpl       | 14 +++++-
 pkg/utils/template/helpers.go                 |  9 ++++
 5 files changed, 119 insertions(+), 12 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index e99a7db..619a7de 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -60,7 +60,16 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     {{- $payload := .Payload.Follow}}
 
     {{- /* Handle payload based on type */}}
-    {{- if eq $payload.Type "string"}}
+    {{- if and $payload.ExtGoType (eq $payload.Type "string")}}
+        // Convert to custom type, as if it was a JSON string
+        payload, err := json.Marshal(string(bMsg.Payload))
+        if err != nil {
+            return msg, err
+        }
+        if err := json.Unmarshal(payload, &msg.Payload); err != nil {
+            return msg, err
+        }
+    {{- else if eq $payload.Type "string"}}
         {{- if and (isDateOrDateTimeGenerated $payload.Format) (eq $payload.Format "date-time") }}
             // Convert to time
             payload, err := time.Parse(time.RFC3339, string(bMsg.Payload))
@@ -112,7 +121,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     {{- end -}}
 
     {{- /* Convert string, integer and number to the type of the payload, that can be a reference */}}
-    {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "number")}}
+    {{- if or (and (eq $payload.Type "string") (not $payload.ExtGoType)) (eq $payload.Type "integer") (eq $payload.Type "number")}}
         msg.Payload = {{template "schema-name" .Payload}}(payload)
     {{- end}}
 
@@ -129,7 +138,16 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             {{- range  $key, $value := $headerProperties}}
             {{- $header := $value.Follow}}
             case k == "{{$key}}": // Retrieving {{namify $key}} header
-                {{- if and (eq $header.Type "string") (isDateOrDateTimeGenerated $header.Format) }}
+                {{- if and $header.ExtGoType (eq $header.Type "string") }}
+                    b, err := json.Marshal(string(v))
+                    if err != nil {
+                        return msg, err
+                    }
+                    var h {{template "schema-name" $value}}
+                    if err := json.Unmarshal(b, &h); err != nil {
+                        return msg, err
+                    }
+                {{- else if and (eq $header.Type "string") (isDateOrDateTimeGenerated $header.Format) }}
                     {{- if eq $header.Format "date-time" }}
                     t, err := time.Parse(time.RFC3339, string(v))
                     {{- else}}
@@ -186,6 +204,17 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
             payload := make([]byte, 8)
             binary.BigEndian.PutUint64(payload, math.Float64bits(float64(msg.Payload)))
         {{- end}}
+    {{- else if and $payload.ExtGoType (eq $payload.Type "string")}}
+        // Convert to the content of the corresponding JSON string
+        b, err := json.Marshal(msg.Payload)
+        if err != nil {
+            return extensions.BrokerMessage{}, err
+        }
+        var s string
+        if err := json.Unmarshal(b, &s); err != nil {
+            return extensions.BrokerMessage{}, err
+        }
+        payload := []byte(s)
     {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) (eq $payload.Format "date-time") }}
         // Convert to RFC3339 and to []byte
         payload := []byte(time.Time(msg.Payload).Format(time.RFC3339Nano))
@@ -228,7 +257,17 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
                 {{- end}}
                 {
             {{- end}}
-                {{- if and (eq $header.Type "string") (isDateOrDateTimeGenerated $header.Format) (eq $header.Format "date-time") }}
+                {{- if and $header.ExtGoType (eq $header.Type "string") }}
+                    b, err := json.Marshal({{if $pointer}}*{{end}}msg.Headers.{{namify $key}})
+                    if err != nil {
+                        return extensions.BrokerMessage{}, err
+                    }
+                    var h string
+                    if err := json.Unmarshal(b, &h); err != nil {
+                        return extensions.BrokerMessage{}, err
+                    }
+                    headers["{{$key}}"] = []byte(h)
+                {{- else if and (eq $header.Type "string") (isDateOrDateTimeGenerated $header.Format) (eq $header.Format "date-time") }}
                     headers["{{$key}}"] = []byte(time.Time({{if $pointer}}*{{end}}msg.Headers.{{namify $key}}).Format(time.RFC3339Nano))
                 {{- else if and (eq $header.Type "string") (isDateOrDateTimeGenerated $header.Format) }}
                     headers["{{$key}}"] = []byte(civil.Date({{if $pointer}}*{{end}}msg.Headers.{{namify $key}}).String())
diff --git a/pkg/codegen/generators/v2/templates/schema_definition.tmpl b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
index 1da8bf1..b416be9 100644
--- a/pkg/codegen/generators/v2/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
@@ -6,8 +6,18 @@
 // Description: {{multiLineComment .Description}}
 {{end -}}
 
+{{- /* ------------------------- Custom Go type ------------------------- */ -}}
+{{- if .ExtGoType -}}
+
+{{- /* Use an alias, if it is not a basic type, to have everything that is defined on the custom type */ -}}
+{{- if isPredeclaredType .ExtGoType -}}
+type {{ namify .Name }} {{ .ExtGoType }}
+{{- else if ne (namify .Name) .ExtGoType -}}
+type {{ namify .Name }} = {{ .ExtGoType }}
+{{- end }}
+
 {{- /* ----------------------------- Object ----------------------------- */ -}}
-{{- if eq .Type "object" -}}
+{{- else if eq .Type "object" -}}
 
 type {{ namify .Name }} struct {
     {{- range $key, $value := .Properties -}}
@@ -52,7 +62,7 @@ type {{ namify .Name }} {{template "schema-name" .}}
 {{- end -}}
 
 {{- /* ------------------------- SubDefinitions ------------------------- */ -}}
-{{ if or (eq .Type "object") (eq .Type "array") -}}
+{{ if and (or (eq .Type "object") (eq .Type "array")) (not .ExtGoType) -}}
     {{- range $key, $value := getChildrenObjectSchemas . }}
         {{template "schema-definition" $value }}
     {{- end}}
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index 827676f..71afbee 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -60,7 +60,16 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     {{- $payload := .Payload.Follow}}
 
     {{- /* Handle payload based on type */}}
-    {{- if eq $payload.Type "string"}}
+    {{- if and $payload.ExtGoType (eq $payload.Type "string")}}
+        // Convert to custom type, as if it was a JSON string
+        payload, err := json.Marshal(string(bMsg.Payload))
+        if err != nil {
+            return msg, err
+        }
+        if err := json.Unmarshal(payload, &msg.Payload); err != nil {
+            return msg, err
+        }
+    {{- else if eq $payload.Type "string"}}
         {{- if and (isDateOrDateTimeGenerated $payload.Format) (eq $payload.Format "date-time") }}
             // Convert to time
             payload, err := time.Parse(time.RFC3339, string(bMsg.Payload))
@@ -112,7 +121,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     {{- end -}}
 
     {{- /* Convert string, integer and number to the type of the payload, that can be a reference */}}
-    {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "number")}}
+    {{- if or (and (eq $payload.Type "string") (not $payload.ExtGoType)) (eq $payload.Type "integer") (eq $payload.Type "number")}}
         msg.Payload = {{template "schema-name" .Payload}}(payload)
     {{- end}}
 
@@ -129,7 +138,16 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             {{- range  $key, $value := $headerProperties}}
             {{- $header := $value.Follow}}
             case k == "{{$key}}": // Retrieving {{namify $key}} header
-                {{- if and (eq $header.Type "string") (isDateOrDateTimeGenerated $header.Format) }}
+                {{- if and $header.ExtGoType (eq $header.Type "string") }}
+                    b, err := json.Marshal(string(v))
+                    if err != nil {
+                        return msg, err
+                    }
+                    var h {{template "schema-name" $value}}
+                    if err := json.Unmarshal(b, &h); err != nil {
+                        return msg, err
+                    }
+                {{- else if and (eq $header.Type "string") (isDateOrDateTimeGenerated $header.Format) }}
                     {{- if eq $header.Format "date-time" }}
                     t, err := time.Parse(time.RFC3339, string(v))
                     {{- else}}
@@ -186,6 +204,17 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
             payload := make([]byte, 8)
             binary.BigEndian.PutUint64(payload, math.Float64bits(float64(msg.Payload)))
         {{- end}}
+    {{- else if and $payload.ExtGoType (eq $payload.Type "string")}}
+        // Convert to the content of the corresponding JSON string
+        b, err := json.Marshal(msg.Payload)
+        if err != nil {
+            return extensions.BrokerMessage{}, err
+        }
+        var s string
+        if err := json.Unmarshal(b, &s); err != nil {
+            return extensions.BrokerMessage{}, err
+        }
+        payload := []byte(s)
     {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) (eq $payload.Format "date-time") }}
         // Convert to RFC3339 and to []byte
         payload := []byte(time.Time(msg.Payload).Format(time.RFC3339Nano))
@@ -228,7 +257,17 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
                 {{- end}}
                 {
             {{- end}}
-                {{- if and (eq $header.Type "string") (isDateOrDateTimeGenerated $header.Format) (eq $header.Format "date-time") }}
+                {{- if and $header.ExtGoType (eq $header.Type "string") }}
+                    b, err := json.Marshal({{if $pointer}}*{{end}}msg.Headers.{{namify $key}})
+                    if err != nil {
+                        return extensions.BrokerMessage{}, err
+                    }
+                    var h string
+                    if err := json.Unmarshal(b, &h); err != nil {
+                        return extensions.BrokerMessage{}, err
+                    }
+                    headers["{{$key}}"] = []byte(h)
+                {{- else if and (eq $header.Type "string") (isDateOrDateTimeGenerated $header.Format) (eq $header.Format "date-time") }}
                     headers["{{$key}}"] = []byte(time.Time({{if $pointer}}*{{end}}msg.Headers.{{namify $key}}).Format(time.RFC3339Nano))
                 {{- else if and (eq $header.Type "string") (isDateOrDateTimeGenerated $header.Format) }}
                     headers["{{$key}}"] = []byte(civil.Date({{if $pointer}}*{{end}}msg.Headers.{{namify $key}}).String())
diff --git a/pkg/codegen/generators/v3/templates/schema_definition.tmpl b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
index 1da8bf1..b416be9 100644
--- a/pkg/codegen/generators/v3/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
@@ -6,8 +6,18 @@
 // Description: {{multiLineComment .Description}}
 {{end -}}
 
+{{- /* ------------------------- Custom Go type ------------------------- */ -}}
+{{- if .ExtGoType -}}
+
+{{- /* Use an alias, if it is not a basic type, to have everything that is defined on the custom type */ -}}
+{{- if isPredeclaredType .ExtGoType -}}
+type {{ namify .Name }} {{ .ExtGoType }}
+{{- else if ne (namify .Name) .ExtGoType -}}
+type {{ namify .Name }} = {{ .ExtGoType }}
+{{- end }}
+
 {{- /* ----------------------------- Object ----------------------------- */ -}}
-{{- if eq .Type "object" -}}
+{{- else if eq .Type "object" -}}
 
 type {{ namify .Name }} struct {
     {{- range $key, $value := .Properties -}}
@@ -52,7 +62,7 @@ type {{ namify .Name }} {{template "schema-name" .}}
 {{- end -}}
 
 {{- /* ------------------------- SubDefinitions ------------------------- */ -}}
-{{ if or (eq .Type "object") (eq .Type "array") -}}
+{{ if and (or (eq .Type "object") (eq .Type "array")) (not .ExtGoType) -}}
     {{- range $key, $value := getChildrenObjectSchemas . }}
         {{template "schema-definition" $value }}
     {{- end}}
diff --git a/pkg/utils/template/helpers.go b/pkg/utils/template/helpers.go
index 1c911e8..beb38af 100644
--- a/pkg/utils/template/helpers.go
+++ b/pkg/utils/template/helpers.go
@@ -2,6 +2,7 @@ package template
 
 import (
 	"fmt"
+	"go/types"
 	"html/template"
 	"reflect"
 	"regexp"
@@ -153,6 +154,13 @@ func ResetDateOrTimeGeneration() {
 	isDateOrDateTimeGenerated = defaultIsDateOrDateTimeGenerated
 }
 
+// IsPredeclaredType returns true if the golang type is a predeclared one (int,
+// string, etc.), that have no method of their own.
+func IsPredeclaredType(name string) bool {
+	_, ok := types.Universe.Lookup(name).(*types.TypeName)
+	return ok
+}
+
 // HelpersFunctions returns the functions that can be used as helpers
 // in a golang template.
 func HelpersFunctions() template.FuncMap {
@@ -167,5 +175,6 @@ func HelpersFunctions() template.FuncMap {
 		"multiLineComment":          MultiLineComment,
 		"cutSuffix":                 CutSuffix,
 		"args":                      Args,
+		"isPredeclaredType":         IsPredeclaredType,
 	}
 }
-- 
2.43.0


From 11059e1e0fe10c3d3faec9987fa00009b887300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 22/37] fix: locations with dots, '#' or 'header' in the names
 of properties

---
 pkg/codegen/generators/v2/templates/helpers.go | 10 +++++-----
 pkg/codegen/generators/v3/templates/helpers.go | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index 4bb4d44..6e16480 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -51,11 +51,11 @@ func GetChildrenObjectSchemas(s asyncapi.Schema) []*asyncapi.Schema {
 }
 
 // referenceToSlicePath will convert a reference to a slice where each element is a
-// step of the path.
+// step of the path. The part before the '#' is separated by dots, the one after it
+// by slashes: the names it is made of can contain dots and '#'.
 func referenceToSlicePath(ref string) []string {
-	ref = strings.ReplaceAll(ref, ".", "/")
-	ref = strings.ReplaceAll(ref, "#", "")
-	return strings.Split(ref, "/")[1:]
+	source, pointer, _ := strings.Cut(ref, "#")
+	return append(strings.Split(source, ".")[1:], strings.Split(pointer, "/")[1:]...)
 }
 
 // ReferenceToStructAttributePath will convert a reference to a struct attribute
@@ -66,7 +66,7 @@ func ReferenceToStructAttributePath(ref string) string {
 
 	for k, v := range path {
 		// If this is concerning the header, then it will be named "headers"
-		if v == asyncapi.MessageFieldIsHeader.String() {
+		if k == 0 && v == asyncapi.MessageFieldIsHeader.String() {
 			v = "headers"
 		}
 
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index 19c5425..576caa6 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -51,11 +51,11 @@ func GetChildrenObjectSchemas(s asyncapi.Schema) []*asyncapi.Schema {
 }
 
 // referenceToSlicePath will convert a reference to a slice where each element is a
-// step of the path.
+// step of the path. The part before the '#' is separated by dots, the one after it
+// by slashes: the names it is made of can contain dots and '#'.
 func referenceToSlicePath(ref string) []string {
-	ref = strings.ReplaceAll(ref, ".", "/")
-	ref = strings.ReplaceAll(ref, "#", "")
-	return strings.Split(ref, "/")[1:]
+	source, pointer, _ := strings.Cut(ref, "#")
+	return append(strings.Split(source, ".")[1:], strings.Split(pointer, "/")[1:]...)
 }
 
 // ReferenceToStructAttributePath will convert a reference to a struct attribute
@@ -66,7 +66,7 @@ func ReferenceToStructAttributePath(ref string) string {
 
 	for k, v := range path {
 		// If this is concerning the header, then it will be named "headers"
-		if v == asyncapi.MessageFieldIsHeader.String() {
+		if k == 0 && v == asyncapi.MessageFieldIsHeader.String() {
 			v = "headers"
 		}
 
-- 
2.43.0


From 46f4bcc28ad552577104196d5913e856ba4bf41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:50 +0000
Subject: [PATCH 23/37] fix: no input file is an error, not a crash

---
 cmd/asyncapi-codegen/config.go | 2 ++
 cmd/asyncapi-codegen/main.go   | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/cmd/asyncapi-codegen/config.go b/cmd/asyncapi-codegen/config.go
index 1d09fd8..d0ea55d 100644
--- a/cmd/asyncapi-codegen/config.go
+++ b/cmd/asyncapi-codegen/config.go
@@ -10,6 +10,8 @@ import (
 )
 
 var (
+	// ErrInvalidInput happens when using an invalid input argument.
+	ErrInvalidInput = errors.New("invalid input argument")
 	// ErrInvalidGenerate happens when using an invalid generation argument.
 	ErrInvalidGenerate = errors.New("invalid generate argument")
 )
diff --git a/cmd/asyncapi-codegen/main.go b/cmd/asyncapi-codegen/main.go
index cc35f61..72ffc65 100644
--- a/cmd/asyncapi-codegen/main.go
+++ b/cmd/asyncapi-codegen/main.go
@@ -19,6 +19,10 @@ Just plug your application to your favorite message broker!
 More info on README: https://github.com/lerenn/asyncapi-codegen
 `,
 	RunE: func(cmd *cobra.Command, args []string) (err error) {
+		if len(flags.InputPaths) == 0 {
+			return fmt.Errorf("%w: no input file", ErrInvalidInput)
+		}
+
 		cg, err := codegen.FromFile(flags.InputPaths[0], flags.InputPaths[1:]...)
 		if err != nil {
 			return err
-- 
2.43.0


From c3d2526d035e37a24d7a660279ca00198fca9086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:50 +0000
Subject: [PATCH 24/37] fix: crashes on null entries and on schemas composed of
 themselves; references of operation tags are checked

---
 pkg/asyncapi/v2/extensions.go       |  2 +-
 pkg/asyncapi/v2/message.go          | 15 ++++++----
 pkg/asyncapi/v2/parameter.go        | 10 +++++++
 pkg/asyncapi/v2/schema.go           | 45 ++++++++++++++++++++++++++++-
 pkg/asyncapi/v3/extensions.go       |  5 ++++
 pkg/asyncapi/v3/message.go          | 20 +++++++++----
 pkg/asyncapi/v3/operation.go        | 16 ++++++++++
 pkg/asyncapi/v3/schema.go           | 43 ++++++++++++++++++++++++++-
 pkg/asyncapi/v3/security_scheme.go  |  5 ++++
 pkg/asyncapi/v3/specification.go    |  5 ++++
 pkg/asyncapi/v3/tag.go              |  5 ++++
 pkg/codegen/generators/v3/common.go |  5 ++++
 12 files changed, 161 insertions(+), 15 deletions(-)

diff --git a/pkg/asyncapi/v2/extensions.go b/pkg/asyncapi/v2/extensions.go
index 304dd71..fde6a36 100644
--- a/pkg/asyncapi/v2/extensions.go
+++ b/pkg/asyncapi/v2/extensions.go
@@ -129,7 +129,7 @@ func (s Specification) addCustomImports(importsSet map[GoTypeImportPath]GoTypeIm
 	}
 
 	for _, v := range s.Components.Parameters {
-		if v.Schema != nil {
+		if v != nil && v.Schema != nil {
 			if err := v.Schema.goTypeImports(importsSet); err != nil {
 				return fmt.Errorf("/components/parameters custom import error: %w", err)
 			}
diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index faa8d49..3c27cae 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -200,6 +200,11 @@ func (msg *Message) generateOneOfMetadata() error {
 
 func (msg *Message) setOneOfDependencies(spec Specification) error {
 	for _, v := range msg.OneOf {
+		// Skip if nil
+		if v == nil {
+			continue
+		}
+
 		if err := v.setDependencies(spec); err != nil {
 			return err
 		}
@@ -258,12 +263,12 @@ func (msg *Message) createTreeUntilCorrelationID() (correlationIDParent *Schema)
 	}
 
 	// Check that the correlation ID is in header
-	if strings.HasPrefix(msg.CorrelationID.Location, "$message.header#") {
+	if strings.HasPrefix(msg.CorrelationID.Location, "$message.header#/") {
 		return msg.createTreeUntilCorrelationIDFromMessageType(MessageFieldIsHeader)
 	}
 
 	// Check that the correlation ID is in payload
-	if strings.HasPrefix(msg.CorrelationID.Location, "$message.payload#") {
+	if strings.HasPrefix(msg.CorrelationID.Location, "$message.payload#/") {
 		return msg.createTreeUntilCorrelationIDFromMessageType(MessageFieldIsPayload)
 	}
 
@@ -306,16 +311,14 @@ func (msg Message) payloadName() string {
 }
 
 func (msg Message) downToCorrelationID(child *Schema) (correlationIDParent *Schema) {
-	var exists bool
-
 	path := strings.Split(msg.CorrelationID.Location, "/")
 	for i, v := range path[1:] {
 		// Keep the parent
 		correlationIDParent = child.Follow()
 
 		// Get the corresponding child
-		child, exists = correlationIDParent.Properties[v]
-		if !exists { // If it doesn't exist
+		child = correlationIDParent.Properties[v]
+		if child == nil { // If it doesn't exist
 			// Create child
 			child = utils.ToPointer(NewSchema())
 			child.Name = correlationIDParent.Name + template.Namify(v)
diff --git a/pkg/asyncapi/v2/parameter.go b/pkg/asyncapi/v2/parameter.go
index 62fbe5a..11ea29a 100644
--- a/pkg/asyncapi/v2/parameter.go
+++ b/pkg/asyncapi/v2/parameter.go
@@ -21,12 +21,22 @@ type Parameter struct {
 
 // generateMetadata generate metadata for the parameter.
 func (p *Parameter) generateMetadata(name string) {
+	// Prevent modification if nil
+	if p == nil {
+		return
+	}
+
 	// Add parameter name
 	p.Name = template.Namify(name)
 }
 
 // setDependencies set dependencies for the parameter from specification.
 func (p *Parameter) setDependencies(spec Specification) error {
+	// Prevent modification if nil
+	if p == nil {
+		return nil
+	}
+
 	// Add pointer to reference if there is one
 	if p.Reference != "" {
 		refTo, err := spec.ReferenceParameter(p.Reference)
diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index b86aa7f..d7be9d0 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -162,6 +162,8 @@ func (s *Schema) setReference(spec Specification) error {
 }
 
 // setDependencies sets dependencies for the schema from the specification.
+//
+//nolint:cyclop // Not necessary to reduce cyclop
 func (s *Schema) setDependencies(spec Specification) error {
 	// Prevent modification if nil, or if already done
 	if s == nil || s.dependenciesSet {
@@ -204,9 +206,35 @@ func (s *Schema) setDependencies(spec Specification) error {
 		return err
 	}
 
+	// Check that the schema has not become a part of itself by merging
+	if s.hasPart(s, make(map[*Schema]bool)) {
+		return fmt.Errorf("%w: recursive composition in %q", ErrInvalidReference, s.Name)
+	}
+
 	return nil
 }
 
+// hasPart checks if the given schema is amongst the children of this one, at any level.
+func (s *Schema) hasPart(part *Schema, seen map[*Schema]bool) bool {
+	if s == nil || seen[s] {
+		return false
+	}
+	seen[s] = true
+
+	children := []*Schema{s.Items, s.AdditionalProperties}
+	for _, p := range s.Properties {
+		children = append(children, p)
+	}
+
+	for _, c := range children {
+		if c == part || c.hasPart(part, seen) {
+			return true
+		}
+	}
+
+	return false
+}
+
 func (s *Schema) generatePropertiesMetadata() error {
 	for n, p := range s.Properties {
 		if err := p.generateMetadata(
@@ -262,6 +290,11 @@ func (s *Schema) generateaAnyOfMetadata() error {
 
 func (s *Schema) setAnyOfDependencies(spec Specification) error {
 	for _, v := range s.AnyOf {
+		// Skip if nil
+		if v == nil {
+			continue
+		}
+
 		// Set dependencies
 		if err := v.setDependencies(spec); err != nil {
 			return err
@@ -288,6 +321,11 @@ func (s *Schema) generateOneOfMetadata() error {
 
 func (s *Schema) setOneOfDependencies(spec Specification) error {
 	for _, v := range s.OneOf {
+		// Skip if nil
+		if v == nil {
+			continue
+		}
+
 		// Set dependencies
 		if err := v.setDependencies(spec); err != nil {
 			return err
@@ -314,6 +352,11 @@ func (s *Schema) generateAllOfMetadata() error {
 
 func (s *Schema) setAllOfDependencies(spec Specification) error {
 	for _, v := range s.AllOf {
+		// Skip if nil
+		if v == nil {
+			continue
+		}
+
 		// Set dependencies
 		if err := v.setDependencies(spec); err != nil {
 			return err
@@ -518,7 +561,7 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 		s.Properties[k] = v
 
 		// Add to required if it is required
-		if v.IsRequired {
+		if v != nil && v.IsRequired {
 			s.Required = append(s.Required, k)
 		}
 	}
diff --git a/pkg/asyncapi/v3/extensions.go b/pkg/asyncapi/v3/extensions.go
index 1f4a0d2..233e1ea 100644
--- a/pkg/asyncapi/v3/extensions.go
+++ b/pkg/asyncapi/v3/extensions.go
@@ -130,6 +130,11 @@ func (s Specification) addCustomImports(importsSet map[GoTypeImportPath]GoTypeIm
 
 	// Process messages from channels
 	for _, ch := range s.Channels {
+		// Skip if nil
+		if ch == nil {
+			continue
+		}
+
 		for _, v := range ch.Follow().Messages {
 			if err := v.goTypeImports(importsSet); err != nil {
 				return fmt.Errorf("/channels %w", err)
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index ea1eb94..53a1cd5 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -272,6 +272,11 @@ func (msg *Message) generateOneOfMetadata() error {
 
 func (msg *Message) setOneOfDependencies(spec Specification) error {
 	for _, v := range msg.OneOf {
+		// Skip if nil
+		if v == nil {
+			continue
+		}
+
 		// Set OneOf dependencies
 		if err := v.setDependencies(spec); err != nil {
 			return err
@@ -298,6 +303,11 @@ func (msg *Message) generateTraitsMetadata() error {
 
 func (msg *Message) setTraitsDependencies(spec Specification) error {
 	for _, t := range msg.Traits {
+		// Skip if nil
+		if t == nil {
+			continue
+		}
+
 		if err := t.setDependencies(spec); err != nil {
 			return err
 		}
@@ -344,12 +354,12 @@ func (msg *Message) createTreeUntilLocation(location string) (locationParent *Sc
 	}
 
 	// Check that the correlation ID is in header
-	if strings.HasPrefix(location, "$message.header#") {
+	if strings.HasPrefix(location, "$message.header#/") {
 		return msg.createTreeUntilLocationFromMessageType(MessageFieldIsHeader, location)
 	}
 
 	// Check that the correlation ID is in payload
-	if strings.HasPrefix(location, "$message.payload#") {
+	if strings.HasPrefix(location, "$message.payload#/") {
 		return msg.createTreeUntilLocationFromMessageType(MessageFieldIsPayload, location)
 	}
 
@@ -392,16 +402,14 @@ func (msg Message) payloadName() string {
 }
 
 func (msg Message) downToLocation(child *Schema, location string) (locationParent *Schema) {
-	var exists bool
-
 	path := strings.Split(location, "/")
 	for i, v := range path[1:] {
 		// Keep the parent
 		locationParent = child.Follow()
 
 		// Get the corresponding child
-		child, exists = locationParent.Properties[v]
-		if !exists { // If it doesn't exist
+		child = locationParent.Properties[v]
+		if child == nil { // If it doesn't exist
 			// Create child
 			child = utils.ToPointer(NewSchema())
 			child.Name = generateFullName(locationParent.Name, v+"_Property", "", nil)
diff --git a/pkg/asyncapi/v3/operation.go b/pkg/asyncapi/v3/operation.go
index cb8d4b5..1639778 100644
--- a/pkg/asyncapi/v3/operation.go
+++ b/pkg/asyncapi/v3/operation.go
@@ -118,6 +118,13 @@ func (op *Operation) setDependencies(spec Specification) error {
 		}
 	}
 
+	// Set tags dependencies
+	for _, t := range op.Tags {
+		if err := t.setDependencies(spec); err != nil {
+			return err
+		}
+	}
+
 	// Set external doc dependencies if there is one
 	if err := op.ExternalDocs.setDependencies(spec); err != nil {
 		return err
@@ -167,6 +174,11 @@ func (op *Operation) setReference(spec Specification) error {
 
 func (op *Operation) setTraitsDependenciesAndApply(spec Specification) error {
 	for _, t := range op.Traits {
+		// Skip if nil
+		if t == nil {
+			continue
+		}
+
 		if err := t.setDependencies(spec); err != nil {
 			return err
 		}
@@ -203,6 +215,10 @@ func (op *Operation) generateReply() error {
 // GetMessage will return the operation message.
 func (op Operation) GetMessage() (*Message, error) {
 	if len(op.Messages) > 0 {
+		if op.Messages[0] == nil {
+			return nil, fmt.Errorf("%w: operation %q has an empty message", extensions.ErrAsyncAPI, op.Name)
+		}
+
 		return op.Messages[0].Follow(), nil // TODO: change
 	}
 
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index 0427e2b..39d9ff9 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -244,11 +244,42 @@ func (s *Schema) setDependencies(spec Specification) error {
 		return err
 	}
 
+	// Check that the schema has not become a part of itself by merging
+	if s.hasPart(s, make(map[*Schema]bool)) {
+		return fmt.Errorf("%w: recursive composition in %q", ErrInvalidReference, s.Name)
+	}
+
 	return nil
 }
 
+// hasPart checks if the given schema is amongst the children of this one, at any level.
+func (s *Schema) hasPart(part *Schema, seen map[*Schema]bool) bool {
+	if s == nil || seen[s] {
+		return false
+	}
+	seen[s] = true
+
+	children := []*Schema{s.Items, s.AdditionalProperties}
+	for _, p := range s.Properties {
+		children = append(children, p)
+	}
+
+	for _, c := range children {
+		if c == part || c.hasPart(part, seen) {
+			return true
+		}
+	}
+
+	return false
+}
+
 func (s *Schema) setAllOfDependenciesAndMerge(spec Specification) error {
 	for _, v := range s.AllOf {
+		// Skip if nil
+		if v == nil {
+			continue
+		}
+
 		if err := v.setDependencies(spec); err != nil {
 			return err
 		}
@@ -264,6 +295,11 @@ func (s *Schema) setAllOfDependenciesAndMerge(spec Specification) error {
 
 func (s *Schema) setOneOfDependenciesAndMerge(spec Specification) error {
 	for _, v := range s.OneOf {
+		// Skip if nil
+		if v == nil {
+			continue
+		}
+
 		if err := v.setDependencies(spec); err != nil {
 			return err
 		}
@@ -279,6 +315,11 @@ func (s *Schema) setOneOfDependenciesAndMerge(spec Specification) error {
 
 func (s *Schema) setAnyOfDependenciesAndMerge(spec Specification) error {
 	for _, v := range s.AnyOf {
+		// Skip if nil
+		if v == nil {
+			continue
+		}
+
 		if err := v.setDependencies(spec); err != nil {
 			return err
 		}
@@ -499,7 +540,7 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 		s.Properties[k] = v
 
 		// Add to required if it is required
-		if v.IsRequired {
+		if v != nil && v.IsRequired {
 			s.Required = append(s.Required, k)
 		}
 	}
diff --git a/pkg/asyncapi/v3/security_scheme.go b/pkg/asyncapi/v3/security_scheme.go
index 3638c60..50621fc 100644
--- a/pkg/asyncapi/v3/security_scheme.go
+++ b/pkg/asyncapi/v3/security_scheme.go
@@ -84,6 +84,11 @@ func (s *SecurityScheme) setDependencies(spec Specification) error {
 func RemoveDuplicateSecuritySchemes(securities []*SecurityScheme) []*SecurityScheme {
 	newList := make([]*SecurityScheme, 0)
 	for _, s := range securities {
+		// Skip if nil
+		if s == nil {
+			continue
+		}
+
 		present := false
 		for _, ps := range newList {
 			if ps.Name == s.Name {
diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index fa279de..9528de3 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -180,6 +180,11 @@ func (s *Specification) setDependencies() error {
 // of 'reception' operations inside the Specification.
 func (s Specification) GetOperationCountByAction() (sendCount, receiveCount uint) {
 	for _, op := range s.Operations {
+		// Skip if nil
+		if op == nil {
+			continue
+		}
+
 		// Check that the publish channel is present
 		if op.Follow().Action.IsSend() {
 			sendCount++
diff --git a/pkg/asyncapi/v3/tag.go b/pkg/asyncapi/v3/tag.go
index 199e144..24a18ed 100644
--- a/pkg/asyncapi/v3/tag.go
+++ b/pkg/asyncapi/v3/tag.go
@@ -58,6 +58,11 @@ func (t *Tag) setDependencies(spec Specification) error {
 func RemoveDuplicateTags(tags []*Tag) []*Tag {
 	newList := make([]*Tag, 0)
 	for _, t := range tags {
+		// Skip if nil
+		if t == nil {
+			continue
+		}
+
 		present := false
 		for _, pt := range newList {
 			if pt.Name == t.Name {
diff --git a/pkg/codegen/generators/v3/common.go b/pkg/codegen/generators/v3/common.go
index 21fe9d9..8835f1a 100644
--- a/pkg/codegen/generators/v3/common.go
+++ b/pkg/codegen/generators/v3/common.go
@@ -31,6 +31,11 @@ func NewActionOperations(side generators.Side, spec asyncapi.Specification) Acti
 	ao.Receive = make(map[string]*asyncapi.Operation)
 	ao.Send = make(map[string]*asyncapi.Operation)
 	for name, op := range spec.Operations {
+		// Skip if nil
+		if op == nil {
+			continue
+		}
+
 		// Use the referenced operation, if this is a reference
 		op = op.Follow()
 
-- 
2.43.0


From 88f8e4d4cfd2028c37ecb6564d0d8064251d5acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 25/37] fix: NATS subscriptions are in place on the server when
 Subscribe returns

---
 pkg/extensions/brokers/nats/nats.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/extensions/brokers/nats/nats.go b/pkg/extensions/brokers/nats/nats.go
index 1380540..a00a437 100644
--- a/pkg/extensions/brokers/nats/nats.go
+++ b/pkg/extensions/brokers/nats/nats.go
@@ -114,6 +114,13 @@ func (c *Controller) Subscribe(ctx context.Context, channel string) (extensions.
 		return extensions.BrokerChannelSubscription{}, err
 	}
 
+	// Flush the queue, in order to not miss the messages published (from other
+	// connections) after the return
+	if err := c.connection.Flush(); err != nil {
+		_ = natsSub.Unsubscribe()
+		return extensions.BrokerChannelSubscription{}, err
+	}
+
 	// Wait for cancellation and drain the NATS subscription
 	sub.WaitForCancellationAsync(func() {
 		if err := natsSub.Drain(); err != nil {
-- 
2.43.0


From 2df0530c68be9e12e67302f82592f75fed732661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:55 +0000
Subject: [PATCH 26/37] fix: JetStream subscriptions can be cancelled at any
 time, and one subject subscribed several times

---
 .../brokers/natsjetstream/natsjetstream.go    | 131 +++++++++++++++---
 1 file changed, 108 insertions(+), 23 deletions(-)

diff --git a/pkg/extensions/brokers/natsjetstream/natsjetstream.go b/pkg/extensions/brokers/natsjetstream/natsjetstream.go
index 108423c..acce992 100644
--- a/pkg/extensions/brokers/natsjetstream/natsjetstream.go
+++ b/pkg/extensions/brokers/natsjetstream/natsjetstream.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
@@ -26,20 +27,31 @@ type Controller struct {
 	streamName     string
 	consumerName   string
 	consumeContext jetstream.ConsumeContext
-	channels       map[string]chan jetstream.Msg
+	channels       map[string]*subscribedChannel
+	mutex          sync.Mutex // protects channels and consumeContext
 	streamConfig   *jetstream.StreamConfig
 	consumerConfig *jetstream.ConsumerConfig
 
 	nakDelay time.Duration
 }
 
+// subscribedChannel is a channel with at least one subscription.
+type subscribedChannel struct {
+	// messages carries the messages to one of the subscriptions.
+	messages chan jetstream.Msg
+	// subscriptions is the number of subscriptions to the channel.
+	subscriptions int
+	// done is closed when there is no subscription anymore.
+	done chan struct{}
+}
+
 // NewController creates a new NATS JetStream controller.
 func NewController(url string, options ...ControllerOption) (*Controller, error) {
 	// Creates default controller
 	controller := &Controller{
 		url:            url,
 		logger:         extensions.DummyLogger{},
-		channels:       make(map[string]chan jetstream.Msg),
+		channels:       make(map[string]*subscribedChannel),
 		consumeContext: nil,
 		nakDelay:       time.Second * 5,
 	}
@@ -230,33 +242,73 @@ func (c *Controller) Subscribe(ctx context.Context, channel string) (extensions.
 		make(chan any, 1),
 	)
 
-	if c.channels[channel] == nil {
-		c.channels[channel] = make(chan jetstream.Msg)
-	}
-	if err := c.ConsumeIfNeeded(ctx); err != nil {
+	subscribed, err := c.registerSubscription(ctx, channel)
+	if err != nil {
 		return extensions.BrokerChannelSubscription{}, err
 	}
 
+	cancelled := make(chan struct{})
 	go func() {
-		for message := range c.channels[channel] {
-			c.logger.Info(ctx, fmt.Sprintf("Received message for %s", channel), extensions.LogInfo{
-				Key:   "message",
-				Value: message,
-			})
-			c.HandleMessage(ctx, message, sub)
+		for {
+			select {
+			case <-cancelled:
+				return
+			case message := <-subscribed.messages:
+				c.logger.Info(ctx, fmt.Sprintf("Received message for %s", channel), extensions.LogInfo{
+					Key:   "message",
+					Value: message,
+				})
+				c.HandleMessage(ctx, message, sub)
+			}
 		}
 	}()
 
 	// Wait for cancellation and drain the NATS subscription
 	sub.WaitForCancellationAsync(func() {
-		close(c.channels[channel])
-		delete(c.channels, channel)
-		c.StopConsumeIfNeeded()
+		close(cancelled)
+		c.unregisterSubscription(channel)
 	})
 
 	return sub, nil
 }
 
+// registerSubscription adds a subscription to the channel and starts consuming
+// messages if needed.
+func (c *Controller) registerSubscription(ctx context.Context, channel string) (*subscribedChannel, error) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	if err := c.consumeIfNeeded(ctx); err != nil {
+		return nil, err
+	}
+
+	if c.channels[channel] == nil {
+		c.channels[channel] = &subscribedChannel{
+			messages: make(chan jetstream.Msg),
+			done:     make(chan struct{}),
+		}
+	}
+	c.channels[channel].subscriptions++
+
+	return c.channels[channel], nil
+}
+
+// unregisterSubscription removes a subscription from the channel and stops
+// consuming messages if there is no other subscription.
+func (c *Controller) unregisterSubscription(channel string) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	subscribed := c.channels[channel]
+	subscribed.subscriptions--
+	if subscribed.subscriptions == 0 {
+		delete(c.channels, channel)
+		close(subscribed.done)
+	}
+
+	c.stopConsumeIfNeeded()
+}
+
 // HandleMessage handles a message received from a stream.
 func (c *Controller) HandleMessage(ctx context.Context, msg jetstream.Msg, sub extensions.BrokerChannelSubscription) {
 	// Get headers
@@ -296,6 +348,13 @@ func (c *Controller) Close() {
 
 // ConsumeIfNeeded starts consuming messages if needed.
 func (c *Controller) ConsumeIfNeeded(ctx context.Context) error {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	return c.consumeIfNeeded(ctx)
+}
+
+func (c *Controller) consumeIfNeeded(ctx context.Context) error {
 	if c.consumeContext == nil {
 		consumer, err := c.jetStream.Consumer(ctx, c.streamName, c.consumerName)
 		if err != nil {
@@ -313,6 +372,13 @@ func (c *Controller) ConsumeIfNeeded(ctx context.Context) error {
 
 // StopConsumeIfNeeded stops consuming messages if needed (there is no other subscription).
 func (c *Controller) StopConsumeIfNeeded() {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	c.stopConsumeIfNeeded()
+}
+
+func (c *Controller) stopConsumeIfNeeded() {
 	if len(c.channels) == 0 && c.consumeContext != nil {
 		c.consumeContext.Stop()
 		c.consumeContext = nil
@@ -324,14 +390,12 @@ func (c *Controller) StopConsumeIfNeeded() {
 func (c *Controller) ConsumeMessage(ctx context.Context) jetstream.MessageHandler {
 	return func(msg jetstream.Msg) {
 		msgSubj := msg.Subject() // pull this into a var for debuggability
-		var responsibleSubscription string
-		for subjectSubscriptionPattern := range c.channels {
-			if MatchSubjectSubscription(subjectSubscriptionPattern, msgSubj) {
-				responsibleSubscription = subjectSubscriptionPattern
-				break
-			}
+		responsibleSubscription, consuming := c.responsibleSubscription(msgSubj)
+		if !consuming {
+			// Every subscription has been cancelled, leave the message on the stream
+			return
 		}
-		if responsibleSubscription == "" {
+		if responsibleSubscription == nil {
 			c.logger.Warning(
 				ctx,
 				fmt.Sprintf(
@@ -346,10 +410,31 @@ func (c *Controller) ConsumeMessage(ctx context.Context) jetstream.MessageHandle
 
 			return
 		}
-		c.channels[responsibleSubscription] <- msg
+
+		// Transmit the message, except if all the subscriptions to the channel are
+		// cancelled in the meantime: then it stays on the stream.
+		select {
+		case responsibleSubscription.messages <- msg:
+		case <-responsibleSubscription.done:
+		}
 	}
 }
 
+// responsibleSubscription returns the subscribed channel that corresponds to the
+// subject, or nil if there is none, and if there is any subscribed channel.
+func (c *Controller) responsibleSubscription(subject string) (*subscribedChannel, bool) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	for subjectSubscriptionPattern, subscribed := range c.channels {
+		if MatchSubjectSubscription(subjectSubscriptionPattern, subject) {
+			return subscribed, true
+		}
+	}
+
+	return nil, len(c.channels) > 0
+}
+
 // MatchSubjectSubscription checks whether a NATS subject matches a subscription string.
 func MatchSubjectSubscription(pattern string, subject string) bool {
 	if pattern == "" || subject == "" {
-- 
2.43.0


From 298f3ded8365b5951a37032628783f66c3bc3265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:35 +0000
Subject: [PATCH 27/37] fix: options of a Kafka controller do not apply to the
 others

---
 pkg/extensions/brokers/kafka/kafka.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index 99c83ac..dd54ee9 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -44,6 +44,15 @@ type MessagesHandler func(
 // Examples: WithGroupID(), WithPartition(), WithMaxBytes(), WithLogger().
 type ControllerOption func(controller *Controller)
 
+// newDialer creates a dialer with the default settings of kafka-go. It belongs to
+// one controller: its options shall not modify kafka.DefaultDialer.
+func newDialer() *kafka.Dialer {
+	return &kafka.Dialer{
+		Timeout:   kafka.DefaultDialer.Timeout,
+		DualStack: kafka.DefaultDialer.DualStack,
+	}
+}
+
 // NewController creates a new KafkaController that fulfill the BrokerLinker interface.
 func NewController(hosts []string, options ...ControllerOption) (*Controller, error) {
 	// Create default controller
@@ -51,7 +60,7 @@ func NewController(hosts []string, options ...ControllerOption) (*Controller, er
 		hosts:          hosts,
 		logger:         extensions.DummyLogger{},
 		groupID:        brokers.DefaultQueueGroupID,
-		dialer:         kafka.DefaultDialer,
+		dialer:         newDialer(),
 		partition:      0,
 		maxBytes:       10e6, // 10MB
 		autoCommit:     true,
-- 
2.43.0


From e876abd8af690f2d5d8a0c01bf494093bcafb98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:17 +0000
Subject: [PATCH 28/37] fix: Kafka publications wait for their storage, leave
 no connection and find new topics at once

---
 pkg/extensions/brokers/kafka/kafka.go | 28 +++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index dd54ee9..0e78a6f 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -151,17 +151,22 @@ func WithConnectionTest(enabled bool) ControllerOption {
 
 // Publish a message to the broker.
 func (c *Controller) Publish(ctx context.Context, channel string, um extensions.BrokerMessage) error {
-	// Create new writer
+	// Create the transport, whose connections are not closed by the writer
+	transport := &kafka.Transport{
+		// reuse the optionally TLS and SASLMechanism from dialer provided by the user to pass it to the writer
+		// it can be nil
+		TLS:  c.dialer.TLS.Clone(),
+		SASL: c.dialer.SASLMechanism,
+	}
+	defer transport.CloseIdleConnections()
+
+	// Create new writer, that waits for messages to be stored
 	w := kafka.Writer{
-		Addr:     kafka.TCP(c.hosts...),
-		Topic:    channel,
-		Balancer: &kafka.LeastBytes{},
-		Transport: &kafka.Transport{
-			// reuse the optionally TLS and SASLMechanism from dialer provided by the user to pass it to the writer
-			// it can be nil
-			TLS:  c.dialer.TLS.Clone(),
-			SASL: c.dialer.SASLMechanism,
-		},
+		Addr:         kafka.TCP(c.hosts...),
+		Topic:        channel,
+		Balancer:     &kafka.LeastBytes{},
+		RequiredAcks: kafka.RequireAll,
+		Transport:    transport,
 	}
 
 	defer w.Close()
@@ -194,6 +199,9 @@ func (c *Controller) Publish(ctx context.Context, channel string, um extensions.
 				return err
 			}
 
+			// Forget what was known by the transport, as it does not know the new topic
+			transport.CloseIdleConnections()
+
 			continue
 		}
 
-- 
2.43.0


From 3f25c155abd5af241387e6aa0dc914138d467929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:43 +0000
Subject: [PATCH 29/37] fix: Kafka topics are created by the controller of the
 cluster, as long as the context lasts

---
 pkg/extensions/brokers/kafka/kafka.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index 0e78a6f..8e484ba 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -6,6 +6,8 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"net"
+	"strconv"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers"
@@ -252,20 +254,37 @@ func (c *Controller) Subscribe(ctx context.Context, channel string) (extensions.
 
 func (c *Controller) checkTopicExistOrCreateIt(ctx context.Context, topic string) error {
 	// Get connection to first host
-	conn, err := c.dialer.Dial("tcp", c.hosts[0])
+	conn, err := c.dialer.DialContext(ctx, "tcp", c.hosts[0])
 	if err != nil {
 		return err
 	}
 	defer conn.Close()
 
+	// Get connection to the controller of the cluster, the only one that creates topics
+	controller, err := conn.Controller()
+	if err != nil {
+		return err
+	}
+	controllerConn, err := c.dialer.DialContext(ctx, "tcp",
+		net.JoinHostPort(controller.Host, strconv.Itoa(controller.Port)))
+	if err != nil {
+		return err
+	}
+	defer controllerConn.Close()
+
 	for i := 0; ; i++ {
+		// Stop waiting for the topic when nobody does anymore
+		if err := ctx.Err(); err != nil {
+			return err
+		}
+
 		// Create topic
 		topicConfigs := []kafka.TopicConfig{{
 			Topic:             topic,
 			NumPartitions:     1,
 			ReplicationFactor: 1,
 		}}
-		err = conn.CreateTopics(topicConfigs...)
+		err = controllerConn.CreateTopics(topicConfigs...)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 6065505fc7d0c7d66f260cccbb093f716822c96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:40 +0000
Subject: [PATCH 30/37] fix: invalid Kafka configurations are errors, not
 crashes

---
 pkg/extensions/brokers/kafka/kafka.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index 8e484ba..d5f889d 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -15,6 +15,9 @@ import (
 	"github.com/segmentio/kafka-go/sasl"
 )
 
+// ErrNoHost is returned when a controller is created without any host.
+var ErrNoHost = errors.New("no kafka host")
+
 // Check that it still fills the interface.
 var _ extensions.BrokerController = (*Controller)(nil)
 
@@ -74,6 +77,11 @@ func NewController(hosts []string, options ...ControllerOption) (*Controller, er
 		option(controller)
 	}
 
+	// Check that there is a host to connect to
+	if len(controller.hosts) == 0 {
+		return nil, ErrNoHost
+	}
+
 	// kafka has no ping or something like this to test if dialer can create a successful connection to kafka
 	// so if connectionTest is enabled create a connection and try to list brokers from kafka and validate
 	// we can make a connection to kafka
@@ -83,11 +91,12 @@ func NewController(hosts []string, options ...ControllerOption) (*Controller, er
 			return nil, fmt.Errorf("failed to create dialer for kafka: %w", err)
 		}
 
+		defer conn.Close()
+
 		_, err = conn.Brokers()
 		if err != nil {
 			return nil, fmt.Errorf("failed to connect to kafka: %w", err)
 		}
-		conn.Close()
 	}
 
 	return controller, nil
@@ -219,15 +228,19 @@ func (c *Controller) Subscribe(ctx context.Context, channel string) (extensions.
 		return extensions.BrokerChannelSubscription{}, err
 	}
 
-	// Create reader
-	r := kafka.NewReader(kafka.ReaderConfig{
+	// Create reader, that accepts valid configurations only
+	config := kafka.ReaderConfig{
 		Brokers:   c.hosts,
 		Topic:     channel,
 		Partition: c.partition,
 		MaxBytes:  c.maxBytes,
 		GroupID:   c.groupID,
 		Dialer:    c.dialer,
-	})
+	}
+	if err := config.Validate(); err != nil {
+		return extensions.BrokerChannelSubscription{}, fmt.Errorf("invalid kafka configuration: %w", err)
+	}
+	r := kafka.NewReader(config)
 
 	// Create subscription
 	sub := extensions.NewBrokerChannelSubscription(
-- 
2.43.0


From e0dc42dc3e40470bc883bb2407ba24b135078837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:48 +0000
Subject: [PATCH 31/37] fix: Kafka messages can be acknowledged after the
 cancellation of their subscription

---
 pkg/extensions/brokers/kafka/kafka.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index d5f889d..05e2c5f 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -248,6 +248,9 @@ func (c *Controller) Subscribe(ctx context.Context, channel string) (extensions.
 		make(chan any, 1),
 	)
 
+	// End the acknowledgements that nobody handles once the reader is closed
+	ctx, stop := context.WithCancel(ctx)
+
 	// Handle events
 	if c.autoCommit {
 		go autoCommitMessagesHandler(&c.logger)(ctx, r, sub)
@@ -260,6 +263,7 @@ func (c *Controller) Subscribe(ctx context.Context, channel string) (extensions.
 		if err := r.Close(); err != nil {
 			c.logger.Error(ctx, err.Error())
 		}
+		stop()
 	})
 
 	return sub, nil
-- 
2.43.0


From b3f4bfe0de9b6cecbb4e4a7fb4fad252a82c8c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:48 +0000
Subject: [PATCH 32/37] fix: Kafka subscriptions survive the errors their
 reader recovers from, and failed commits lose no message

---
 pkg/extensions/brokers/kafka/kafka.go | 31 +++++++++++++++++++--------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index 05e2c5f..df69675 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -337,14 +337,24 @@ func autoCommitMessagesHandler(
 ) func(ctx context.Context, r *kafka.Reader, sub extensions.BrokerChannelSubscription) {
 	return func(ctx context.Context, r *kafka.Reader, sub extensions.BrokerChannelSubscription) {
 		for {
-			msg, err := r.ReadMessage(ctx)
+			msg, err := r.FetchMessage(ctx)
 			if err != nil {
-				// If the error is not io.EOF, then it is a real error
-				if !errors.Is(err, io.EOF) {
-					(*logger).Warning(ctx, fmt.Sprintf("Error when reading message: %q", err.Error()))
+				// Stop when the reader is closed or when nobody listens anymore
+				if errors.Is(err, io.EOF) || ctx.Err() != nil {
+					return
 				}
 
-				return
+				// The reader recovers from the other errors (and waits before retrying)
+				(*logger).Warning(ctx, fmt.Sprintf("Error when reading message: %q", err.Error()))
+
+				continue
+			}
+
+			// Commit the message, that is transmitted even if this fails
+			if r.Config().GroupID != "" {
+				if err := r.CommitMessages(ctx, msg); err != nil {
+					(*logger).Error(ctx, fmt.Sprintf("error on committing message: %q", err.Error()))
+				}
 			}
 
 			// Get headers
@@ -373,12 +383,15 @@ func manualCommitMessagesHandler(
 		for {
 			msg, err := r.FetchMessage(ctx)
 			if err != nil {
-				// If the error is not io.EOF, then it is a real error
-				if !errors.Is(err, io.EOF) {
-					(*logger).Warning(ctx, fmt.Sprintf("Error when reading message: %q", err.Error()))
+				// Stop when the reader is closed or when nobody listens anymore
+				if errors.Is(err, io.EOF) || ctx.Err() != nil {
+					return
 				}
 
-				return
+				// The reader recovers from the other errors (and waits before retrying)
+				(*logger).Warning(ctx, fmt.Sprintf("Error when reading message: %q", err.Error()))
+
+				continue
 			}
 
 			// Get headers
-- 
2.43.0


From ebb9e4192e33d2a5e0619a514e31bae03cfb3527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:21 +0000
Subject: [PATCH 33/37] fix: a property required by another part of an allOf is
 required for real

Its field was not a pointer, but was omitted when empty, was not validated as
required, and, in headers, led to code that does not compile.
---
 pkg/codegen/generators/v2/templates/helpers.go       | 12 ++++++++++++
 pkg/codegen/generators/v2/templates/message.tmpl     |  2 +-
 .../generators/v2/templates/schema_definition.tmpl   |  2 +-
 pkg/codegen/generators/v3/templates/helpers.go       | 12 ++++++++++++
 pkg/codegen/generators/v3/templates/message.tmpl     |  2 +-
 .../generators/v3/templates/schema_definition.tmpl   |  2 +-
 6 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index 6e16480..e6fe008 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -8,6 +8,7 @@ import (
 	"strings"
 	"text/template"
 
+	validations "github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	asyncapi "github.com/lerenn/asyncapi-codegen/pkg/asyncapi/v2"
 	"github.com/lerenn/asyncapi-codegen/pkg/codegen/generators"
 	templateutil "github.com/lerenn/asyncapi-codegen/pkg/utils/template"
@@ -160,6 +161,16 @@ func defaultIsFieldPointer(parent asyncapi.Schema, field string, schema asyncapi
 	return !(IsRequired(parent, field) || schema.IsRequired) && schema.Type != "array"
 }
 
+// fieldValidations returns the validations of the field of an object. The field can be required
+// by another part of the object than the one that describes it (i.e. another member of an allOf).
+func fieldValidations(
+	parent asyncapi.Schema, field string, schema asyncapi.Schema,
+) validations.Validations[asyncapi.Schema] {
+	v := schema.Validations
+	v.IsRequired = v.IsRequired || IsRequired(parent, field)
+	return v
+}
+
 // defaultIsLocationPointer returns true if the field at the location of a correlation ID
 // is a pointer, based on the fact that it is required or not.
 func defaultIsLocationPointer(isRequired bool) bool {
@@ -189,6 +200,7 @@ func HelpersFunctions() template.FuncMap {
 		"channelToMessage":               ChannelToMessage,
 		"isRequired":                     IsRequired,
 		"isFieldPointer":                 isFieldPointer,
+		"fieldValidations":               fieldValidations,
 		"isLocationPointer":              isLocationPointer,
 		"generateChannelPath":            GenerateChannelPath,
 		"referenceToStructAttributePath": ReferenceToStructAttributePath,
diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 619a7de..40565e0 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -247,7 +247,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
             // Adding {{ namify $key}} header
             {{- $header := $value.Follow}}
             {{- $pointer := isFieldPointer $headers $key $value }}
-            {{- if not $value.IsRequired }}
+            {{- if not (fieldValidations $headers $key $value).IsRequired }}
                 if msg.Headers.{{namify $key}} != nil {
             {{- else}}
                 {{- if $pointer }}
diff --git a/pkg/codegen/generators/v2/templates/schema_definition.tmpl b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
index b416be9..d64d77c 100644
--- a/pkg/codegen/generators/v2/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
@@ -26,7 +26,7 @@ type {{ namify .Name }} struct {
     {{else if and $value.ReferenceTo $value.Follow.Description}}
     // Description: {{multiLineComment $value.Follow.Description}}
     {{end -}}
-    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags $value.Validations $key}}{{generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Follow.Type }}`
+    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags (fieldValidations $ $key $value) $key}}{{generateValidateTags (fieldValidations $ $key $value) (isFieldPointer $ $key $value) $value.Follow.Type }}`
     {{end -}}
 
     {{- if .AdditionalProperties}}
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index 576caa6..36898ea 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -8,6 +8,7 @@ import (
 	"strings"
 	"text/template"
 
+	validations "github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	asyncapi "github.com/lerenn/asyncapi-codegen/pkg/asyncapi/v3"
 	"github.com/lerenn/asyncapi-codegen/pkg/codegen/generators"
 	templateutil "github.com/lerenn/asyncapi-codegen/pkg/utils/template"
@@ -146,6 +147,16 @@ func defaultIsFieldPointer(parent asyncapi.Schema, field string, schema asyncapi
 	return !(IsRequired(parent, field) || schema.IsRequired) && schema.Type != "array"
 }
 
+// fieldValidations returns the validations of the field of an object. The field can be required
+// by another part of the object than the one that describes it (i.e. another member of an allOf).
+func fieldValidations(
+	parent asyncapi.Schema, field string, schema asyncapi.Schema,
+) validations.Validations[asyncapi.Schema] {
+	v := schema.Validations
+	v.IsRequired = v.IsRequired || IsRequired(parent, field)
+	return v
+}
+
 // defaultIsLocationPointer returns true if the field at the location of a correlation ID or
 // of a reply address is a pointer, based on the fact that it is required or not.
 func defaultIsLocationPointer(isRequired bool) bool {
@@ -177,6 +188,7 @@ func HelpersFunctions() template.FuncMap {
 		"opToChannelTypeName":            OpToChannelTypeName,
 		"isRequired":                     IsRequired,
 		"isFieldPointer":                 isFieldPointer,
+		"fieldValidations":               fieldValidations,
 		"isLocationPointer":              isLocationPointer,
 		"generateChannelAddr":            GenerateChannelAddr,
 		"generateChannelAddrFromOp":      GenerateChannelAddrFromOp,
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index 71afbee..42cfe4d 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -247,7 +247,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
             // Adding {{ namify $key}} header
             {{- $header := $value.Follow}}
             {{- $pointer := isFieldPointer $headers $key $value }}
-            {{- if not $value.IsRequired }}
+            {{- if not (fieldValidations $headers $key $value).IsRequired }}
                 if msg.Headers.{{namify $key}} != nil {
             {{- else}}
                 {{- if $pointer }}
diff --git a/pkg/codegen/generators/v3/templates/schema_definition.tmpl b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
index b416be9..d64d77c 100644
--- a/pkg/codegen/generators/v3/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
@@ -26,7 +26,7 @@ type {{ namify .Name }} struct {
     {{else if and $value.ReferenceTo $value.Follow.Description}}
     // Description: {{multiLineComment $value.Follow.Description}}
     {{end -}}
-    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags $value.Validations $key}}{{generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Follow.Type }}`
+    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags (fieldValidations $ $key $value) $key}}{{generateValidateTags (fieldValidations $ $key $value) (isFieldPointer $ $key $value) $value.Follow.Type }}`
     {{end -}}
 
     {{- if .AdditionalProperties}}
-- 
2.43.0


From 533752e7780c94f0e8b353ab4968805e15b25704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:26 +0000
Subject: [PATCH 34/37] fix: the payload of a message example can be any value

---
 pkg/asyncapi/v3/message_example.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/asyncapi/v3/message_example.go b/pkg/asyncapi/v3/message_example.go
index b6b6458..df56d3f 100644
--- a/pkg/asyncapi/v3/message_example.go
+++ b/pkg/asyncapi/v3/message_example.go
@@ -7,7 +7,7 @@ type MessageExample struct {
 	// --- AsyncAPI fields -----------------------------------------------------
 
 	Headers   map[string]any `json:"headers"`
-	Payload   map[string]any `json:"payload"`
+	Payload   any            `json:"payload"`
 	Name      string         `json:"name"`
 	Summary   string         `json:"summary"`
 	Reference string         `json:"$ref"`
-- 
2.43.0


From 3089f1ac0e5ba0d202cfb0503507acb5b6fe4460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:26 +0000
Subject: [PATCH 35/37] fix: the security of a server is a list

---
 pkg/asyncapi/v3/server.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/asyncapi/v3/server.go b/pkg/asyncapi/v3/server.go
index c2f53b0..d36f652 100644
--- a/pkg/asyncapi/v3/server.go
+++ b/pkg/asyncapi/v3/server.go
@@ -14,7 +14,7 @@ type Server struct {
 	Title           string                     `json:"title"`
 	Summary         string                     `json:"summary"`
 	Variables       map[string]*ServerVariable `json:"variables"`
-	Security        *SecurityScheme            `json:"security"`
+	Security        []*SecurityScheme          `json:"security"`
 	Tags            []*Tag                     `json:"tags"`
 	ExternalDocs    *ExternalDocumentation     `json:"externalDocs"`
 	Bindings        *ServerBindings            `json:"bindings"`
@@ -42,7 +42,9 @@ func (srv *Server) generateMetadata(parentName, name string) {
 	}
 
 	// Generate security metadata
-	srv.Security.generateMetadata(srv.Name, "", nil)
+	for i, sec := range srv.Security {
+		sec.generateMetadata(srv.Name, "", &i)
+	}
 
 	// Generate tags metadata
 	for i, t := range srv.Tags {
@@ -76,8 +78,10 @@ func (srv *Server) setDependencies(spec Specification) error {
 	}
 
 	// Set security dependencies
-	if err := srv.Security.setDependencies(spec); err != nil {
-		return err
+	for _, sec := range srv.Security {
+		if err := sec.setDependencies(spec); err != nil {
+			return err
+		}
 	}
 
 	// Set tags dependencies
-- 
2.43.0


From b7743b697046498549ba7d3278fd840e76d1f231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:11 +0000
Subject: [PATCH 36/37] fix: references to the servers of the document

---
 pkg/asyncapi/v3/specification.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index 9528de3..73da166 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -769,6 +769,8 @@ func (s Specification) reference(ref string) (any, error) {
 		default:
 			return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, refPath[1], ref)
 		}
+	case "servers":
+		return usedSpec.Servers[refPath[1]], nil
 	case "channels":
 		if len(refPath) < 3 {
 			return usedSpec.Channels[refPath[1]], nil
-- 
2.43.0


From 3b74781dc87504e5cc67db185545c782667618f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:34 +0000
Subject: [PATCH 37/37] fix: additional properties whose names differ from the
 ones of properties by case only

---
 .../marshaling/additional_properties.tmpl     | 31 ++++++++++++-------
 .../marshaling/additional_properties.tmpl     | 31 ++++++++++++-------
 2 files changed, 38 insertions(+), 24 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl b/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
index 63e81f8..ba4e1c9 100644
--- a/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
+++ b/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
@@ -48,31 +48,38 @@ func (t *{{ namify .Name }}) UnmarshalJSON(data []byte) error {
         return err
     }
 
-    // Unmarshal into the alias then copy the alias content into the original
-    // object. This is done to avoid JSON unmarshal recursion.
-    var a alias
-    if err := json.Unmarshal(data, &a);  err != nil {
-        return err
-    }
-    *t = {{ namify .Name }}(a)
-
-    // Get all fields that are additional and add them to the AdditionalProperties field.
-    t.AdditionalProperties = make(map[string]{{template "schema-name" .AdditionalProperties}}, len(m))
+    // Separate properties of the schema from additional ones, as the names of
+    // fields are not case-sensitive when unmarshaling
+    properties := make(map[string]json.RawMessage, len(m))
+    additionalProperties := make(map[string]{{template "schema-name" .AdditionalProperties}}, len(m))
     for k, v := range m {
         switch k {
             {{ range $key, $value := .Properties -}}
                 case "{{convertKey $key}}":
-                    continue
+                    properties[k] = v
             {{ end -}}
         default:
             var value {{template "schema-name" .AdditionalProperties}}
             if err := json.Unmarshal(v, &value); err != nil {
                 return err
             }
-            t.AdditionalProperties[k] = value
+            additionalProperties[k] = value
         }
     }
 
+    // Unmarshal properties into the alias then copy the alias content into the
+    // original object. This is done to avoid JSON unmarshal recursion.
+    b, err := json.Marshal(properties)
+    if err != nil {
+        return err
+    }
+    var a alias
+    if err := json.Unmarshal(b, &a);  err != nil {
+        return err
+    }
+    *t = {{ namify .Name }}(a)
+    t.AdditionalProperties = additionalProperties
+
     return nil
 }
 
diff --git a/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl b/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
index 3bfefe4..95e8140 100644
--- a/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
+++ b/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
@@ -48,31 +48,38 @@ func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
         return err
     }
 
-    // Unmarshal into the alias then copy the alias content into the original
-    // object. This is done to avoid JSON unmarshal recursion.
-    var a alias
-    if err := json.Unmarshal(data, &a);  err != nil {
-        return err
-    }
-    *t = {{ .Name }}(a)
-
-    // Get all fields that are additional and add them to the AdditionalProperties field.
-    t.AdditionalProperties = make(map[string]{{template "schema-name" .AdditionalProperties}}, len(m))
+    // Separate properties of the schema from additional ones, as the names of
+    // fields are not case-sensitive when unmarshaling
+    properties := make(map[string]json.RawMessage, len(m))
+    additionalProperties := make(map[string]{{template "schema-name" .AdditionalProperties}}, len(m))
     for k, v := range m {
         switch k {
             {{ range $key, $value := .Properties -}}
                 case "{{convertKey $key}}":
-                    continue
+                    properties[k] = v
             {{ end -}}
         default:
             var value {{template "schema-name" .AdditionalProperties}}
             if err := json.Unmarshal(v, &value); err != nil {
                 return err
             }
-            t.AdditionalProperties[k] = value
+            additionalProperties[k] = value
         }
     }
 
+    // Unmarshal properties into the alias then copy the alias content into the
+    // original object. This is done to avoid JSON unmarshal recursion.
+    b, err := json.Marshal(properties)
+    if err != nil {
+        return err
+    }
+    var a alias
+    if err := json.Unmarshal(b, &a);  err != nil {
+        return err
+    }
+    *t = {{ .Name }}(a)
+    t.AdditionalProperties = additionalProperties
+
     return nil
 }
 
-- 
2.43.0

