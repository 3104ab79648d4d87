From 5d4847e4d4c05e7ea7cbcd8bb62481d1dce757fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:07 +0000
Subject: [PATCH 01/98] fix: emit elicitation requests under the method name
 the decoder accepts

---
 src/shared/protocol_helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/protocol_helpers.rs b/src/shared/protocol_helpers.rs
index 36ed2b9..33e7069 100644
--- a/src/shared/protocol_helpers.rs
+++ b/src/shared/protocol_helpers.rs
@@ -195,7 +195,7 @@ fn server_request_to_jsonrpc(req: ServerRequest) -> (String, Option<Value>) {
         ),
         ServerRequest::ListRoots => ("roots/list".to_string(), None),
         ServerRequest::ElicitInput(params) => (
-            "elicitation/input".to_string(),
+            "elicitation/elicitInput".to_string(),
             Some(serde_json::to_value(params).unwrap()),
         ),
     }
-- 
2.43.0


From fb2c99528a6f7f2d278c7da7044a656febaae1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:07 +0000
Subject: [PATCH 02/98] fix: accept absent and empty params alike when decoding
 requests and notifications

---
 src/shared/protocol_helpers.rs | 52 ++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/src/shared/protocol_helpers.rs b/src/shared/protocol_helpers.rs
index 33e7069..de30b34 100644
--- a/src/shared/protocol_helpers.rs
+++ b/src/shared/protocol_helpers.rs
@@ -103,43 +103,47 @@ pub fn create_notification(notification: Notification) -> JSONRPCNotification<Va
 
 // Helper functions for parsing
 
-fn parse_client_request(method: &str, params: &Value) -> Result<ClientRequest> {
-    let request_json = serde_json::json!({
-        "method": method,
-        "params": params,
-    });
+/// Decode an adjacently tagged message, treating absent (or null) and empty parameters alike.
+fn parse_message<T: serde::de::DeserializeOwned>(
+    method: &str,
+    params: &Value,
+) -> serde_json::Result<T> {
+    let parse = |params: &Value| {
+        serde_json::from_value(serde_json::json!({
+            "method": method,
+            "params": params,
+        }))
+    };
+
+    let result = parse(params);
+    if result.is_ok() {
+        return result;
+    }
 
-    serde_json::from_value(request_json)
+    match params {
+        Value::Null => parse(&Value::Object(serde_json::Map::new())).or(result),
+        Value::Object(map) if map.is_empty() => parse(&Value::Null).or(result),
+        _ => result,
+    }
+}
+
+fn parse_client_request(method: &str, params: &Value) -> Result<ClientRequest> {
+    parse_message(method, params)
         .map_err(|e| Error::parse(format!("Invalid client request: {}", e)))
 }
 
 fn parse_server_request(method: &str, params: &Value) -> Result<ServerRequest> {
-    let request_json = serde_json::json!({
-        "method": method,
-        "params": params,
-    });
-
-    serde_json::from_value(request_json)
+    parse_message(method, params)
         .map_err(|e| Error::parse(format!("Invalid server request: {}", e)))
 }
 
 fn parse_client_notification(method: &str, params: &Value) -> Result<ClientNotification> {
-    let notif_json = serde_json::json!({
-        "method": method,
-        "params": params,
-    });
-
-    serde_json::from_value(notif_json)
+    parse_message(method, params)
         .map_err(|e| Error::parse(format!("Invalid client notification: {}", e)))
 }
 
 fn parse_server_notification(method: &str, params: &Value) -> Result<ServerNotification> {
-    let notif_json = serde_json::json!({
-        "method": method,
-        "params": params,
-    });
-
-    serde_json::from_value(notif_json)
+    parse_message(method, params)
         .map_err(|e| Error::parse(format!("Invalid server notification: {}", e)))
 }
 
-- 
2.43.0


From 3dc5609600260a1f8279905305ade52c31e4c90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:56 +0000
Subject: [PATCH 03/98] fix: do not allocate a stdio frame's claimed length
 before its bytes arrive

---
 src/shared/stdio.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/shared/stdio.rs b/src/shared/stdio.rs
index 72fdc56..d479429 100644
--- a/src/shared/stdio.rs
+++ b/src/shared/stdio.rs
@@ -205,11 +205,19 @@ impl StdioTransport {
     /// Read message body with specified content length.
     async fn read_message_body(&self, content_length: usize) -> Result<Vec<u8>> {
         let mut stdin = self.stdin.lock().await;
-        let mut buffer = vec![0u8; content_length];
-        stdin
-            .read_exact(&mut buffer)
+        // Grow the buffer as bytes arrive: the peer-supplied length must not size an allocation.
+        let mut buffer = Vec::new();
+        (&mut *stdin)
+            .take(content_length as u64)
+            .read_to_end(&mut buffer)
             .await
             .map_err(TransportError::from)?;
+        if buffer.len() < content_length {
+            return Err(TransportError::from(std::io::Error::from(
+                std::io::ErrorKind::UnexpectedEof,
+            ))
+            .into());
+        }
         drop(stdin);
         Ok(buffer)
     }
-- 
2.43.0


From 4ef8280f6f2a0e2b04ba640df741d6f370e31b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:31 +0000
Subject: [PATCH 04/98] fix: address a batch timeout error to the request that
 timed out

---
 src/utils/parallel_batch.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/parallel_batch.rs b/src/utils/parallel_batch.rs
index 8422dc2..cf03980 100644
--- a/src/utils/parallel_batch.rs
+++ b/src/utils/parallel_batch.rs
@@ -147,6 +147,7 @@ where
                 let _permit = semaphore.acquire().await.unwrap();
 
                 // Create the handler future
+                let request_id = request.id.clone();
                 let handler_future = handler(request);
 
                 // Apply timeout if configured
@@ -162,7 +163,7 @@ where
                             // Create timeout error response
                             JSONRPCResponse {
                                 jsonrpc: "2.0".to_string(),
-                                id: crate::types::RequestId::from("null"),
+                                id: request_id,
                                 payload: crate::types::jsonrpc::ResponsePayload::Error(
                                     crate::types::jsonrpc::JSONRPCError {
                                         code: -32603,
-- 
2.43.0


From d7752e78c328fdce188af9c85d21bf43a89db4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:31 +0000
Subject: [PATCH 05/98] fix: keep a handler's protocol error code, message and
 data in the server's response

---
 src/server/mod.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index fb83de4..29e6e7e 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -604,13 +604,7 @@ impl Server {
             Err(e) => JSONRPCResponse {
                 jsonrpc: "2.0".to_string(),
                 id,
-                payload: crate::types::jsonrpc::ResponsePayload::Error(
-                    crate::types::jsonrpc::JSONRPCError {
-                        code: -32603,
-                        message: e.to_string(),
-                        data: None,
-                    },
-                ),
+                payload: crate::types::jsonrpc::ResponsePayload::Error(e.into()),
             },
         }
     }
-- 
2.43.0


From cb584a73fd38405c1cdcd735304fcf7b25b0428f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:06 +0000
Subject: [PATCH 06/98] fix: keep serving after an undecodable message and
 return when the connection closes

---
 src/server/mod.rs | 51 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index 29e6e7e..ef9fa02 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -1,6 +1,6 @@
 //! MCP server implementation.
 
-use crate::error::{Error, Result};
+use crate::error::{Error, ErrorCode, Result, TransportError};
 use crate::shared::{Protocol, ProtocolOptions, TransportMessage};
 use crate::types::{
     CallToolRequest, CallToolResult, ClientCapabilities, ClientRequest, GetPromptRequest,
@@ -388,18 +388,22 @@ impl Server {
         let transport = Arc::new(RwLock::new(transport));
         let protocol = Arc::new(RwLock::new(Protocol::new(ProtocolOptions::default())));
 
-        Self::spawn_notification_handler(transport.clone(), notification_rx);
-        Self::spawn_message_handler(server.clone(), transport.clone(), protocol);
+        let notification_task =
+            Self::spawn_notification_handler(transport.clone(), notification_rx);
 
-        // Keep the main task alive
-        Self::run_main_loop().await
+        // Serve until the connection closes
+        let result = Self::spawn_message_handler(server.clone(), transport.clone(), protocol)
+            .await
+            .map_err(|e| Error::internal(format!("Message handler failed: {}", e)));
+        notification_task.abort();
+        result
     }
 
     /// Spawn task to handle outgoing notifications.
     fn spawn_notification_handler(
         transport: Arc<RwLock<impl crate::shared::Transport + 'static>>,
         mut notification_rx: mpsc::Receiver<Notification>,
-    ) {
+    ) -> tokio::task::JoinHandle<()> {
         tokio::spawn(async move {
             while let Some(notification) = notification_rx.recv().await {
                 if let Err(e) =
@@ -408,7 +412,7 @@ impl Server {
                     Self::log_error(&format!("Failed to send notification: {}", e)).await;
                 }
             }
-        });
+        })
     }
 
     /// Spawn task to handle incoming messages.
@@ -416,13 +420,17 @@ impl Server {
         server: Arc<Self>,
         transport: Arc<RwLock<impl crate::shared::Transport + 'static>>,
         _protocol: Arc<RwLock<Protocol>>,
-    ) {
+    ) -> tokio::task::JoinHandle<()> {
         tokio::spawn(async move {
             loop {
                 let message = match Self::receive_message_from_transport(&transport).await {
                     Ok(msg) => msg,
                     Err(e) => {
                         Self::log_error(&format!("Transport receive error: {}", e)).await;
+                        // One undecodable message does not end the connection
+                        if Self::is_message_error(&e) && transport.read().await.is_connected() {
+                            continue;
+                        }
                         break;
                     },
                 };
@@ -432,7 +440,25 @@ impl Server {
                     break;
                 }
             }
-        });
+        })
+    }
+
+    /// Whether a receive error concerns a single message rather than the connection.
+    fn is_message_error(error: &Error) -> bool {
+        match error {
+            Error::Serialization(_)
+            | Error::Transport(
+                TransportError::InvalidMessage(_) | TransportError::Deserialization(_),
+            ) => true,
+            Error::Protocol { code, .. } => matches!(
+                *code,
+                ErrorCode::PARSE_ERROR
+                    | ErrorCode::INVALID_REQUEST
+                    | ErrorCode::METHOD_NOT_FOUND
+                    | ErrorCode::INVALID_PARAMS
+            ),
+            _ => false,
+        }
     }
 
     /// Send a notification through the transport.
@@ -500,13 +526,6 @@ impl Server {
         crate::log(crate::types::protocol::LogLevel::Debug, message, None).await;
     }
 
-    /// Run the main event loop.
-    async fn run_main_loop() -> Result<()> {
-        loop {
-            tokio::time::sleep(tokio::time::Duration::from_secs(1)).await;
-        }
-    }
-
     async fn handle_request(&self, id: RequestId, request: Request) -> JSONRPCResponse {
         match request {
             Request::Client(ref boxed_req)
-- 
2.43.0


From 1cd3bda39482df48e1b4e739822e7eac91b34476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:58 +0000
Subject: [PATCH 07/98] fix: let the client sample when the server announces
 sampling

---
 src/client/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 6fb240e..dff097b 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -1298,6 +1298,10 @@ impl<T: Transport> Client<T> {
                 .server_capabilities
                 .as_ref()
                 .is_some_and(|c| c.completions.is_some()),
+            "sampling" => self
+                .server_capabilities
+                .as_ref()
+                .is_some_and(|c| c.sampling.is_some()),
             _ => false,
         };
 
-- 
2.43.0


From ce98b60e7b4a2fe5ec7b2edd37e4a6223f109d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:58 +0000
Subject: [PATCH 08/98] fix: leave the client uninitialized when its
 initialized notification cannot be sent

---
 src/client/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index dff097b..d095d04 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -278,11 +278,11 @@ impl<T: Transport> Client<T> {
                     self.server_capabilities = Some(init_result.capabilities.clone());
                     self.server_version = Some(init_result.server_info.clone());
                     self.instructions.clone_from(&init_result.instructions);
-                    self.initialized = true;
 
                     // Send initialized notification
                     self.send_notification(Notification::Client(ClientNotification::Initialized))
                         .await?;
+                    self.initialized = true;
 
                     Ok(init_result)
                 } else {
-- 
2.43.0


From e15cff70b1ffe51aa928d1806c37a5f647a6bf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:58 +0000
Subject: [PATCH 09/98] fix: refuse roots-changed notifications the client did
 not announce

---
 src/client/mod.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index d095d04..4f47c94 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -1100,14 +1100,15 @@ impl<T: Transport> Client<T> {
     /// - Network or protocol errors occur
     pub async fn send_roots_list_changed(&self) -> Result<()> {
         self.ensure_initialized()?;
-        if let Some(roots) = &self.capabilities.as_ref().and_then(|c| c.roots.as_ref()) {
-            if roots.list_changed {
-                // OK, we support it
-            } else {
-                return Err(Error::capability(
-                    "Client does not support roots list changed notifications",
-                ));
-            }
+        let announced = self
+            .capabilities
+            .as_ref()
+            .and_then(|c| c.roots.as_ref())
+            .is_some_and(|roots| roots.list_changed);
+        if !announced {
+            return Err(Error::capability(
+                "Client does not support roots list changed notifications",
+            ));
         }
 
         self.send_notification(Notification::Client(ClientNotification::RootsListChanged))
-- 
2.43.0


From 9ddfaa7334329d28c059b601807fea8b82ba41a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:22 +0000
Subject: [PATCH 10/98] fix: give each client call the answer to its own
 request

---
 src/client/mod.rs | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 4f47c94..b706b1a 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -1335,24 +1335,34 @@ impl<T: Transport> Client<T> {
             request,
         };
 
-        self.transport.write().await.send(message).await?;
-
-        // Wait for response (this would be implemented with proper response routing)
-        // For now, receive next message and assume it's our response
-        let response_message = self.transport.write().await.receive().await?;
-
-        // Remove from active requests
-        self.active_requests.write().await.remove(&request_id);
+        // Hold the transport until the answer is in, so that another caller sharing this
+        // client cannot take it.
+        let mut transport = self.transport.write().await;
+        if let Err(e) = transport.send(message).await {
+            self.active_requests.write().await.remove(&request_id);
+            return Err(e);
+        }
 
-        match response_message {
-            crate::types::TransportMessage::Response(response) => Ok(response),
-            _ => Err(Error::protocol_msg(
-                "Expected response, got different message type",
-            )),
+        loop {
+            match transport.receive().await {
+                Ok(crate::types::TransportMessage::Response(response)) => {
+                    // The late answer to an earlier call whose caller has gone
+                    let mut active = self.active_requests.write().await;
+                    if response.id != request_id && active.remove(&response.id).is_some() {
+                        continue;
+                    }
+                    active.remove(&request_id);
+                    drop(active);
+                    return Ok(response);
+                },
+                // Notifications and requests from the server do not answer this call
+                Ok(_) => {},
+                // Its answer may still come, so it stays tracked
+                Err(e) => return Err(e),
+            }
         }
     }
 
-    /// Send a notification.
     async fn send_notification(&self, notification: Notification) -> Result<()> {
         let message = crate::types::TransportMessage::Notification(notification);
         self.transport.write().await.send(message).await
-- 
2.43.0


From 6328e11a640f78d4bf3d248cfdd3c9766066e03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 11/98] fix: answer a completion request with a completion
 result

---
 src/server/mod.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index ef9fa02..ff20791 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -3,11 +3,12 @@
 use crate::error::{Error, ErrorCode, Result, TransportError};
 use crate::shared::{Protocol, ProtocolOptions, TransportMessage};
 use crate::types::{
-    CallToolRequest, CallToolResult, ClientCapabilities, ClientRequest, GetPromptRequest,
-    Implementation, InitializeResult, JSONRPCResponse, ListPromptsRequest, ListPromptsResult,
-    ListResourceTemplatesRequest, ListResourceTemplatesResult, ListResourcesRequest,
-    ListResourcesResult, ListToolsRequest, ListToolsResult, Notification, ProtocolVersion,
-    ReadResourceRequest, Request, RequestId, ServerCapabilities, ServerNotification,
+    CallToolRequest, CallToolResult, ClientCapabilities, ClientRequest, CompleteResult,
+    CompletionResult, GetPromptRequest, Implementation, InitializeResult, JSONRPCResponse,
+    ListPromptsRequest, ListPromptsResult, ListResourceTemplatesRequest,
+    ListResourceTemplatesResult, ListResourcesRequest, ListResourcesResult, ListToolsRequest,
+    ListToolsResult, Notification, ProtocolVersion, ReadResourceRequest, Request, RequestId,
+    ServerCapabilities, ServerNotification,
 };
 use async_trait::async_trait;
 use serde_json::Value;
@@ -598,9 +599,16 @@ impl Server {
             },
             ClientRequest::Subscribe(_)
             | ClientRequest::Unsubscribe(_)
-            | ClientRequest::Complete(_)
             | ClientRequest::SetLoggingLevel { level: _ }
             | ClientRequest::Ping => Ok(serde_json::json!({})),
+            // No completion handlers can be registered: there is nothing to suggest
+            ClientRequest::Complete(_) => Ok(serde_json::to_value(CompleteResult {
+                completion: CompletionResult {
+                    values: Vec::new(),
+                    total: None,
+                    has_more: false,
+                },
+            })?),
             ClientRequest::CreateMessage(req) => self.handle_create_message(request_id, req).await,
             ClientRequest::ElicitInputResponse(response) => {
                 // Handle elicitation response if we have a manager
-- 
2.43.0


From eb4f459ec0d53029a084233d1fce4c29e70f3313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:20 +0000
Subject: [PATCH 12/98] fix: let Server::cancel_request cancel the token of a
 running handler

---
 src/server/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index ff20791..3be0c3b 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -573,7 +573,13 @@ impl Server {
         id: RequestId,
         request: ClientRequest,
     ) -> JSONRPCResponse {
+        // Lets `cancel_request` reach the handler while it runs
+        let request_key = id.to_string();
+        self.cancellation_manager
+            .create_token(request_key.clone())
+            .await;
         let result = self.process_client_request(id.clone(), request).await;
+        self.cancellation_manager.remove_token(&request_key).await;
         Self::create_response(id, result)
     }
 
-- 
2.43.0


From c98f101918104e73ce1a4642a5fac1dd7df7734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:20 +0000
Subject: [PATCH 13/98] fix: refuse an elicitation whose id is already pending

---
 src/server/elicitation.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/server/elicitation.rs b/src/server/elicitation.rs
index 047653d..3f5f954 100644
--- a/src/server/elicitation.rs
+++ b/src/server/elicitation.rs
@@ -61,6 +61,12 @@ impl ElicitationManager {
         // Store pending request
         {
             let mut pending = self.pending.write().await;
+            if pending.contains_key(&request.elicitation_id) {
+                return Err(Error::protocol(
+                    ErrorCode::INVALID_REQUEST,
+                    "Elicitation ID is already pending",
+                ));
+            }
             pending.insert(request.elicitation_id.clone(), tx);
         }
 
-- 
2.43.0


From bd6076eddbd26d8a18423120956cc46cfb37416f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:49 +0000
Subject: [PATCH 14/98] fix: apply the elicitation timeout to sending the
 request as well

---
 src/server/elicitation.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/server/elicitation.rs b/src/server/elicitation.rs
index 3f5f954..74f9b96 100644
--- a/src/server/elicitation.rs
+++ b/src/server/elicitation.rs
@@ -72,32 +72,38 @@ impl ElicitationManager {
 
         let elicitation_id = request.elicitation_id.clone();
 
-        // Send elicitation request
+        // Send the request and wait for the response, both within the timeout
         let server_request = ServerRequest::ElicitInput(Box::new(request));
-        if let Err(e) = request_tx.send(server_request).await {
-            // Remove from pending on send error
-            self.pending.write().await.remove(&elicitation_id);
-            return Err(Error::protocol(
-                ErrorCode::INTERNAL_ERROR,
-                format!("Failed to send elicitation request: {}", e),
-            ));
-        }
+        let exchange = async {
+            request_tx.send(server_request).await.map_err(|e| {
+                Error::protocol(
+                    ErrorCode::INTERNAL_ERROR,
+                    format!("Failed to send elicitation request: {}", e),
+                )
+            })?;
+
+            debug!("Sent elicitation request: {}", elicitation_id);
 
-        debug!("Sent elicitation request: {}", elicitation_id);
+            Ok::<_, Error>(rx.await)
+        };
 
-        // Wait for response with timeout
-        match timeout(self.timeout_duration, rx).await {
-            Ok(Ok(response)) => {
+        match timeout(self.timeout_duration, exchange).await {
+            Ok(Ok(Ok(response))) => {
                 debug!("Received elicitation response: {}", elicitation_id);
                 Ok(response)
             },
-            Ok(Err(_)) => {
+            Ok(Ok(Err(_))) => {
                 warn!("Elicitation channel closed: {}", elicitation_id);
                 Err(Error::protocol(
                     ErrorCode::INTERNAL_ERROR,
                     "Elicitation channel closed",
                 ))
             },
+            Ok(Err(e)) => {
+                // Remove from pending on send error
+                self.pending.write().await.remove(&elicitation_id);
+                Err(e)
+            },
             Err(_) => {
                 warn!("Elicitation timeout: {}", elicitation_id);
                 self.pending.write().await.remove(&elicitation_id);
-- 
2.43.0


From 63e55c8613fd3b1fe5ba97fd4f3435103c579a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:55 +0000
Subject: [PATCH 15/98] fix: make a root's unregister function remove its own
 registration

---
 src/server/roots.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/server/roots.rs b/src/server/roots.rs
index 93522b3..69f86f5 100644
--- a/src/server/roots.rs
+++ b/src/server/roots.rs
@@ -35,7 +35,7 @@ pub struct RootsListChangedParams {}
 #[derive(Clone)]
 pub struct RootsManager {
     /// The registered roots.
-    roots: Arc<RwLock<Vec<Root>>>,
+    roots: Arc<RwLock<Vec<Arc<Root>>>>,
     /// Optional callback for sending notifications.
     notification_sender: Option<Arc<dyn Fn(ServerNotification) + Send + Sync>>,
 }
@@ -103,13 +103,13 @@ impl RootsManager {
             ));
         }
 
-        let root = Root {
+        let root = Arc::new(Root {
             uri: uri.clone(),
             name,
-        };
+        });
 
         {
-            self.roots.write().await.push(root);
+            self.roots.write().await.push(root.clone());
             info!("Registered root: {}", uri);
         }
 
@@ -128,7 +128,7 @@ impl RootsManager {
 
             tokio::spawn(async move {
                 let mut roots_guard = roots.write().await;
-                if let Some(pos) = roots_guard.iter().position(|r| r.uri == uri) {
+                if let Some(pos) = roots_guard.iter().position(|r| Arc::ptr_eq(r, &root)) {
                     roots_guard.remove(pos);
                     drop(roots_guard);
                     info!("Unregistered root: {}", uri);
@@ -144,7 +144,12 @@ impl RootsManager {
 
     /// Get a copy of all registered roots.
     pub async fn get_roots(&self) -> Vec<Root> {
-        self.roots.read().await.clone()
+        self.roots
+            .read()
+            .await
+            .iter()
+            .map(|root| Root::clone(root))
+            .collect()
     }
 
     /// Request the list of roots from the client.
-- 
2.43.0


From 2120d2f3ba00b241d7a5828029487ac9ad1e4362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:30 +0000
Subject: [PATCH 16/98] fix: deliver flushed notifications only once

---
 src/server/notification_debouncer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index 0133a34..2cb26a1 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -296,15 +296,15 @@ async fn flush_all(
     pending: &Arc<RwLock<HashMap<String, PendingNotification>>>,
     output_tx: &mpsc::Sender<ServerNotification>,
 ) {
-    let pending_map = pending.write().await;
+    let mut pending_map = pending.write().await;
 
-    for (_, pending_notif) in pending_map.iter() {
+    for (_, pending_notif) in pending_map.drain() {
         // Send the main notification
-        let _ = output_tx.send(pending_notif.notification.clone()).await;
+        let _ = output_tx.send(pending_notif.notification).await;
 
         // Send any merged notifications
-        for merged in &pending_notif.mergeable {
-            let _ = output_tx.send(merged.clone()).await;
+        for merged in pending_notif.mergeable {
+            let _ = output_tx.send(merged).await;
         }
     }
 }
-- 
2.43.0


From 0633c83239c06f0f9f7cee0de7a745c2548f8645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:29 +0000
Subject: [PATCH 17/98] fix: keep a key's notifications in order when debouncer
 flushes overlap

---
 src/server/notification_debouncer.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index 2cb26a1..cb7fb58 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -9,7 +9,7 @@ use crate::types::protocol::ServerNotification;
 use std::collections::HashMap;
 use std::sync::Arc;
 use std::time::Duration;
-use tokio::sync::{mpsc, RwLock};
+use tokio::sync::{mpsc, Mutex, RwLock};
 use tokio::time::{interval, sleep, Instant};
 use tracing::{debug, trace, warn};
 
@@ -58,6 +58,8 @@ pub struct NotificationDebouncer {
     config: NotificationDebouncerConfig,
     pending: Arc<RwLock<HashMap<String, PendingNotification>>>,
     output_tx: mpsc::Sender<ServerNotification>,
+    /// Held by a flush until its notifications are sent, so that flushes keep their order
+    flush_lock: Arc<Mutex<()>>,
     shutdown_tx: Option<mpsc::Sender<()>>,
 }
 
@@ -90,6 +92,7 @@ impl NotificationDebouncer {
             config,
             pending: Arc::new(RwLock::new(HashMap::new())),
             output_tx,
+            flush_lock: Arc::new(Mutex::new(())),
             shutdown_tx: None,
         }
     }
@@ -101,6 +104,7 @@ impl NotificationDebouncer {
 
         let pending = self.pending.clone();
         let output_tx = self.output_tx.clone();
+        let flush_lock = self.flush_lock.clone();
         let config = self.config.clone();
 
         // Spawn the flush task
@@ -114,13 +118,13 @@ impl NotificationDebouncer {
                         break;
                     }
                     _ = interval.tick() => {
-                        flush_pending(&pending, &output_tx, &config).await;
+                        flush_pending(&pending, &output_tx, &flush_lock, &config).await;
                     }
                 }
             }
 
             // Final flush on shutdown
-            flush_all(&pending, &output_tx).await;
+            flush_all(&pending, &output_tx, &flush_lock).await;
         });
 
         Ok(())
@@ -173,7 +177,7 @@ impl NotificationDebouncer {
 
     /// Force flush all pending notifications
     pub async fn flush(&self) -> Result<()> {
-        flush_all(&self.pending, &self.output_tx).await;
+        flush_all(&self.pending, &self.output_tx, &self.flush_lock).await;
         Ok(())
     }
 
@@ -239,8 +243,10 @@ fn notification_key(notification: &ServerNotification) -> String {
 async fn flush_pending(
     pending: &Arc<RwLock<HashMap<String, PendingNotification>>>,
     output_tx: &mpsc::Sender<ServerNotification>,
+    flush_lock: &Mutex<()>,
     config: &NotificationDebouncerConfig,
 ) {
+    let _flushing = flush_lock.lock().await;
     let now = Instant::now();
     let mut to_flush = Vec::new();
 
@@ -295,10 +301,12 @@ async fn flush_pending(
 async fn flush_all(
     pending: &Arc<RwLock<HashMap<String, PendingNotification>>>,
     output_tx: &mpsc::Sender<ServerNotification>,
+    flush_lock: &Mutex<()>,
 ) {
-    let mut pending_map = pending.write().await;
+    let _flushing = flush_lock.lock().await;
+    let to_flush = std::mem::take(&mut *pending.write().await);
 
-    for (_, pending_notif) in pending_map.drain() {
+    for pending_notif in to_flush.into_values() {
         // Send the main notification
         let _ = output_tx.send(pending_notif.notification).await;
 
-- 
2.43.0


From a612ca118ca30b6f218c0e7faaa2d583950b4f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:29 +0000
Subject: [PATCH 18/98] fix: keep the latest notification when the debouncer's
 merge limit is reached

---
 src/server/notification_debouncer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index cb7fb58..71b6634 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -153,6 +153,12 @@ impl NotificationDebouncer {
                 // Merge if possible
                 if existing.mergeable.len() < self.config.max_batch_size {
                     existing.mergeable.push(notification);
+                } else {
+                    // Full: the latest state replaces the one before it
+                    match existing.mergeable.last_mut() {
+                        Some(last) => *last = notification,
+                        None => existing.notification = notification,
+                    }
                 }
             } else {
                 // Replace with latest
-- 
2.43.0


From 05b341d4d649925add2c0eb6f7853e1e5bacfbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:29 +0000
Subject: [PATCH 19/98] fix: debounce each notification type separately and by
 its own interval

---
 src/server/notification_debouncer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index 71b6634..7fee142 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -236,9 +236,11 @@ fn notification_key(notification: &ServerNotification) -> String {
         ServerNotification::ResourceUpdated(params) => {
             format!("resource_updated:{}", params.uri)
         },
-        ServerNotification::ResourcesChanged => "resource_list_changed".to_string(),
+        ServerNotification::ResourcesChanged => "resources/list_changed".to_string(),
         ServerNotification::ToolsChanged => "tool_list_changed".to_string(),
         ServerNotification::PromptsChanged => "prompt_list_changed".to_string(),
+        ServerNotification::RootsListChanged => "roots_list_changed".to_string(),
+        ServerNotification::LogMessage(_) => "log".to_string(),
         #[allow(unreachable_patterns)]
         _ => "unknown".to_string(),
     }
@@ -264,6 +266,11 @@ async fn flush_pending(
             let interval = config
                 .type_intervals
                 .get(key)
+                .or_else(|| {
+                    // Keyed notifications take the interval of their type
+                    let (kind, _) = key.split_once(':')?;
+                    config.type_intervals.get(kind)
+                })
                 .copied()
                 .unwrap_or(config.default_interval);
 
-- 
2.43.0


From fcce52d3275e6900e3d7908bea1e51a268934a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:29 +0000
Subject: [PATCH 20/98] fix: send notification batches in the order they were
 filled

---
 src/server/notification_debouncer.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index 7fee142..87a66ce 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -371,9 +371,8 @@ impl NotificationBatcher {
         // Check if batch is full
         if batch.len() >= self.max_batch_size {
             let full_batch = std::mem::take(batch);
-            drop(batches);
 
-            // Send the batch
+            // Send the batch before any later one can be taken
             let _ = self.output_tx.send(full_batch).await;
         } else {
             // Schedule timeout for this batch
-- 
2.43.0


From ada4f6c8e5ec50922b34616c8575a72a46693a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:29 +0000
Subject: [PATCH 21/98] fix: send message batches in the order they were filled

---
 src/utils/batching.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/utils/batching.rs b/src/utils/batching.rs
index bca427a..0dfb7c5 100644
--- a/src/utils/batching.rs
+++ b/src/utils/batching.rs
@@ -116,14 +116,13 @@ impl MessageBatcher {
 
         if pending.len() >= self.config.max_batch_size {
             let batch = std::mem::take(&mut *pending);
-            drop(pending);
+            // Sent under the lock so that a later batch cannot overtake this one
             self.tx
                 .send(batch)
                 .await
                 .map_err(|_| crate::error::Error::Internal("Failed to send batch".to_string()))?;
-        } else {
-            drop(pending);
         }
+        drop(pending);
 
         Ok(())
     }
@@ -168,11 +167,11 @@ impl MessageBatcher {
                 let mut pending_guard = pending.lock().await;
                 if !pending_guard.is_empty() {
                     let batch = std::mem::take(&mut *pending_guard);
-                    drop(pending_guard);
                     if tx.send(batch).await.is_err() {
                         break;
                     }
                 }
+                drop(pending_guard);
             }
         });
     }
-- 
2.43.0


From 7d3a9f83bd72d5d2a31a3cd7f83fd89795767fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:29 +0000
Subject: [PATCH 22/98] fix: do not lose a due debounced message when its timer
 is cancelled

---
 src/utils/batching.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/utils/batching.rs b/src/utils/batching.rs
index 0dfb7c5..f91c6de 100644
--- a/src/utils/batching.rs
+++ b/src/utils/batching.rs
@@ -355,15 +355,14 @@ impl MessageDebouncer {
         let handle = tokio::spawn(async move {
             sleep(wait_time).await;
 
-            // Send the notification
-            let notification = {
+            // Send the notification; it stays pending until there is room for it, so that
+            // cancelling this timer cannot lose it
+            if let Ok(permit) = tx.reserve().await {
                 let mut pending = pending.lock().await;
-                pending.remove(&key_clone)
-            };
-
-            if let Some(notification) = notification {
-                debug!("Sending debounced notification: {}", key_clone);
-                let _ = tx.send(notification).await;
+                if let Some(notification) = pending.remove(&key_clone) {
+                    debug!("Sending debounced notification: {}", key_clone);
+                    permit.send(notification);
+                }
             }
 
             // Remove timer handle
-- 
2.43.0


From f0375553d7f1f59d2812a3d93981e4e57691c53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:29 +0000
Subject: [PATCH 23/98] fix: restart a debounced message's wait even while its
 last timer finishes

---
 src/utils/batching.rs | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/utils/batching.rs b/src/utils/batching.rs
index f91c6de..beed24e 100644
--- a/src/utils/batching.rs
+++ b/src/utils/batching.rs
@@ -332,24 +332,25 @@ impl MessageDebouncer {
             .copied()
             .unwrap_or(self.config.wait_time);
 
+        // Held until the new timer is stored, so that a timer that is just finishing
+        // cannot remove its successor's handle
+        let mut timers = self.timers.lock().await;
+
+        // Cancel existing timer
+        if let Some(handle) = timers.remove(&key) {
+            handle.abort();
+        }
+
         // Store the latest notification
         {
             let mut pending = self.pending.lock().await;
             pending.insert(key.clone(), notification);
         }
 
-        // Cancel existing timer
-        {
-            let mut timers = self.timers.lock().await;
-            if let Some(handle) = timers.remove(&key) {
-                handle.abort();
-            }
-        }
-
         // Start new timer
         let pending = self.pending.clone();
         let tx = self.tx.clone();
-        let timers = self.timers.clone();
+        let timer_handles = self.timers.clone();
         let key_clone = key.clone();
 
         let handle = tokio::spawn(async move {
@@ -366,15 +367,12 @@ impl MessageDebouncer {
             }
 
             // Remove timer handle
-            let mut timers = timers.lock().await;
-            timers.remove(&key_clone);
+            timer_handles.lock().await.remove(&key_clone);
         });
 
         // Store timer handle
-        {
-            let mut timers = self.timers.lock().await;
-            timers.insert(key, handle);
-        }
+        timers.insert(key, handle);
+        drop(timers);
 
         Ok(())
     }
-- 
2.43.0


From 3e74610d22b40cda0437d4648822fcf2daa9cd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:08 +0000
Subject: [PATCH 24/98] fix: never move the sequence counter back when resuming

---
 src/shared/event_store.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/shared/event_store.rs b/src/shared/event_store.rs
index b5b7f74..f5f35b8 100644
--- a/src/shared/event_store.rs
+++ b/src/shared/event_store.rs
@@ -301,7 +301,10 @@ impl ResumptionManager {
             .ok_or_else(|| Error::Internal("Invalid or expired resumption token".into()))?;
 
         // Update sequence counter
-        *self.sequence_counter.write() = state.next_sequence;
+        {
+            let mut counter = self.sequence_counter.write();
+            *counter = (*counter).max(state.next_sequence);
+        }
 
         // Get events since the last acknowledged event
         self.event_store
-- 
2.43.0


From 0a44ece4c8b8f314fe72c089340e3f04a157748b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:08 +0000
Subject: [PATCH 25/98] fix: resume a token with its own session's events only

---
 src/shared/event_store.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/shared/event_store.rs b/src/shared/event_store.rs
index f5f35b8..cb94d55 100644
--- a/src/shared/event_store.rs
+++ b/src/shared/event_store.rs
@@ -306,10 +306,13 @@ impl ResumptionManager {
             *counter = (*counter).max(state.next_sequence);
         }
 
-        // Get events since the last acknowledged event
-        self.event_store
+        // Get the session's events since the last acknowledged event
+        let mut events = self
+            .event_store
             .get_events_since(&state.last_event_id, None)
-            .await
+            .await?;
+        events.retain(|event| event.session_id == state.session_id);
+        Ok(events)
     }
 
     /// Get pending events that need to be resent.
-- 
2.43.0


From 01e458d66e29302292ed043b3a2c104296bd27de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:08 +0000
Subject: [PATCH 26/98] fix: do not undo concurrent session changes when
 reading a session

---
 src/shared/session.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/shared/session.rs b/src/shared/session.rs
index 180f3c5..db8748e 100644
--- a/src/shared/session.rs
+++ b/src/shared/session.rs
@@ -172,18 +172,11 @@ impl SessionManager {
 
     /// Get a session by ID.
     pub fn get_session(&self, session_id: &str) -> Option<Session> {
-        self.sessions.get(session_id).map(|entry| {
-            let mut session = entry.clone();
-
-            // Update last activity
+        self.sessions.get_mut(session_id).map(|mut session| {
+            // Update last activity in place, leaving concurrent changes alone
             session.last_activity = Utc::now();
 
-            // Update in storage
-            drop(entry);
-            self.sessions
-                .insert(session_id.to_string(), session.clone());
-
-            session
+            session.clone()
         })
     }
 
-- 
2.43.0


From d84a65b134a21ff81f6c2ba3352eb08368cbb3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:01 +0000
Subject: [PATCH 27/98] fix: keep to the session limit when sessions are
 created concurrently

---
 src/shared/session.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/shared/session.rs b/src/shared/session.rs
index db8748e..3064fe2 100644
--- a/src/shared/session.rs
+++ b/src/shared/session.rs
@@ -6,6 +6,7 @@
 use crate::error::{Error, ErrorCode, Result};
 use chrono::{DateTime, Duration, Utc};
 use dashmap::DashMap;
+use parking_lot::Mutex;
 use serde::{Deserialize, Serialize};
 use std::sync::Arc;
 use tracing::{debug, info};
@@ -84,6 +85,9 @@ pub struct SessionManager {
     /// Session storage.
     sessions: Arc<DashMap<String, Session>>,
 
+    /// Held while a session is added, so that the limit is checked and taken in one step.
+    create_lock: Mutex<()>,
+
     /// Configuration.
     config: SessionConfig,
 
@@ -132,6 +136,7 @@ impl SessionManager {
     pub fn new(config: SessionConfig) -> Self {
         Self {
             sessions: Arc::new(DashMap::new()),
+            create_lock: Mutex::new(()),
             config,
             callbacks: Arc::new(SessionCallbacks::default()),
         }
@@ -139,6 +144,8 @@ impl SessionManager {
 
     /// Create a new session.
     pub fn create_session(&self, client_info: Option<ClientInfo>) -> Result<Session> {
+        let creating = self.create_lock.lock();
+
         // Check session limit
         if self.sessions.len() >= self.config.max_sessions {
             return Err(Error::protocol(
@@ -160,6 +167,7 @@ impl SessionManager {
         };
 
         self.sessions.insert(session.id.clone(), session.clone());
+        drop(creating);
 
         // Call creation callback
         if let Some(callback) = &self.callbacks.on_create {
-- 
2.43.0


From c92f0d50f2eb1208ed6591c068a07bfd40b9ee39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:01 +0000
Subject: [PATCH 28/98] fix: do not destroy a session that was renewed while
 found expired

---
 src/shared/session.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/shared/session.rs b/src/shared/session.rs
index 3064fe2..f038f11 100644
--- a/src/shared/session.rs
+++ b/src/shared/session.rs
@@ -196,7 +196,13 @@ impl SessionManager {
 
         // Check if expired
         if session.expires_at < Utc::now() {
-            self.destroy_session(session_id)?;
+            // Unless it was renewed in the meantime
+            let removed = self
+                .sessions
+                .remove_if(session_id, |_, session| session.expires_at < Utc::now());
+            if let (Some((_, session)), Some(callback)) = (removed, &self.callbacks.on_destroy) {
+                callback(&session);
+            }
             return Err(Error::protocol(
                 ErrorCode::INVALID_REQUEST,
                 "Session expired",
@@ -261,7 +267,11 @@ impl SessionManager {
             .collect();
 
         for session_id in expired {
-            if let Some((_, session)) = self.sessions.remove(&session_id) {
+            // Unless it was renewed in the meantime
+            if let Some((_, session)) = self
+                .sessions
+                .remove_if(&session_id, |_, session| session.expires_at < now)
+            {
                 // Call expiry callback
                 if let Some(callback) = &self.callbacks.on_expire {
                     callback(&session);
-- 
2.43.0


From ea84ac3c0480dc0cf290e3abe34c543fecf0bfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:01 +0000
Subject: [PATCH 29/98] fix: do not accept expired sessions in the session
 middleware

---
 src/shared/session.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/session.rs b/src/shared/session.rs
index f038f11..6896d4a 100644
--- a/src/shared/session.rs
+++ b/src/shared/session.rs
@@ -363,7 +363,7 @@ impl SessionMiddleware {
         F: FnOnce(Option<Session>) -> R,
     {
         let session = if let Some(session_id) = extract_session_id(headers) {
-            self.manager.get_session(&session_id)
+            self.manager.validate_session(&session_id).ok()
         } else {
             None
         };
-- 
2.43.0


From 69833490fbd9d4e2590115cd8caa4b530a0e0054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 30/98] fix: recognise every line end of an event stream, also
 after multi-byte text

---
 src/shared/sse_parser.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/shared/sse_parser.rs b/src/shared/sse_parser.rs
index 5a38d7f..f3809e1 100644
--- a/src/shared/sse_parser.rs
+++ b/src/shared/sse_parser.rs
@@ -118,6 +118,8 @@ pub struct SseParser {
     buffer: String,
     current_event: EventBuilder,
     last_event_id: Option<String>,
+    /// Whether the last line ended in a carriage return that a line feed may follow.
+    after_cr: bool,
 }
 
 impl SseParser {
@@ -136,6 +138,7 @@ impl SseParser {
             buffer: String::new(),
             current_event: EventBuilder::new(),
             last_event_id: None,
+            after_cr: false,
         }
     }
 
@@ -170,19 +173,26 @@ impl SseParser {
         self.buffer.push_str(data);
         let mut events = Vec::new();
 
-        while let Some(line_end) = self.buffer.find('\n') {
-            let line = if line_end > 0 && self.buffer.chars().nth(line_end - 1) == Some('\r') {
-                self.buffer[..line_end - 1].to_string()
-            } else {
-                self.buffer[..line_end].to_string()
+        let buffer = std::mem::take(&mut self.buffer);
+        let mut rest = buffer.as_str();
+        loop {
+            if self.after_cr && !rest.is_empty() {
+                // A line feed right after a carriage return belongs to the same line end
+                rest = rest.strip_prefix('\n').unwrap_or(rest);
+                self.after_cr = false;
+            }
+            let Some(line_end) = rest.find(['\n', '\r']) else {
+                break;
             };
 
-            if let Some(event) = self.process_line(&line) {
+            if let Some(event) = self.process_line(&rest[..line_end]) {
                 events.push(event);
             }
 
-            self.buffer.drain(..=line_end);
+            self.after_cr = rest.as_bytes()[line_end] == b'\r';
+            rest = &rest[line_end + 1..];
         }
+        self.buffer = rest.to_string();
 
         events
     }
@@ -274,6 +284,7 @@ impl SseParser {
     /// Reset the parser state.
     pub fn reset(&mut self) {
         self.buffer.clear();
+        self.after_cr = false;
         self.current_event = EventBuilder::new();
     }
 }
-- 
2.43.0


From 7bded344601486baed53aeb05de8d34eb8aa6b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 31/98] fix: keep empty data lines of an event

---
 src/shared/sse_parser.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/shared/sse_parser.rs b/src/shared/sse_parser.rs
index f3809e1..46773fb 100644
--- a/src/shared/sse_parser.rs
+++ b/src/shared/sse_parser.rs
@@ -227,11 +227,11 @@ impl SseParser {
                 self.current_event.event = Some(value.to_string());
             },
             "data" => {
-                if self.current_event.data.is_empty() {
-                    self.current_event.data = value.to_string();
+                if let Some(data) = &mut self.current_event.data {
+                    data.push('\n');
+                    data.push_str(value);
                 } else {
-                    self.current_event.data.push('\n');
-                    self.current_event.data.push_str(value);
+                    self.current_event.data = Some(value.to_string());
                 }
             },
             "id" => {
@@ -255,11 +255,11 @@ impl SseParser {
 
     /// Dispatch the current event if it has data.
     fn dispatch_event(&mut self) -> Option<SseEvent> {
-        if self.current_event.data.is_empty() {
+        let Some(data) = self.current_event.data.take() else {
             // No data, don't dispatch
             self.current_event = EventBuilder::new();
             return None;
-        }
+        };
 
         let event = SseEvent {
             id: self
@@ -268,7 +268,7 @@ impl SseParser {
                 .clone()
                 .or_else(|| self.last_event_id.clone()),
             event: self.current_event.event.clone(),
-            data: self.current_event.data.clone(),
+            data,
             retry: self.current_event.retry,
         };
 
@@ -300,7 +300,7 @@ impl Default for SseParser {
 struct EventBuilder {
     id: Option<String>,
     event: Option<String>,
-    data: String,
+    data: Option<String>,
     retry: Option<u64>,
 }
 
@@ -309,7 +309,7 @@ impl EventBuilder {
         Self {
             id: None,
             event: None,
-            data: String::new(),
+            data: None,
             retry: None,
         }
     }
-- 
2.43.0


From e4a0172cf792d10e65727f964a6c525e767bcc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 32/98] fix: ignore retry fields that are not digits only

---
 src/shared/sse_parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/shared/sse_parser.rs b/src/shared/sse_parser.rs
index 46773fb..b0bfcd8 100644
--- a/src/shared/sse_parser.rs
+++ b/src/shared/sse_parser.rs
@@ -241,8 +241,10 @@ impl SseParser {
                 }
             },
             "retry" => {
-                if let Ok(retry) = value.parse::<u64>() {
-                    self.current_event.retry = Some(retry);
+                if value.bytes().all(|b| b.is_ascii_digit()) {
+                    if let Ok(retry) = value.parse::<u64>() {
+                        self.current_event.retry = Some(retry);
+                    }
                 }
             },
             _ => {
-- 
2.43.0


From 2611f6232f377a410ad1730846f22cdcf401d225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 33/98] fix: render events so that they parse back and cannot
 inject fields

---
 src/shared/sse_parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/shared/sse_parser.rs b/src/shared/sse_parser.rs
index b0bfcd8..4a709f4 100644
--- a/src/shared/sse_parser.rs
+++ b/src/shared/sse_parser.rs
@@ -93,17 +93,17 @@ impl SseEvent {
 impl fmt::Display for SseEvent {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         if let Some(id) = &self.id {
-            writeln!(f, "id: {}", id)?;
+            writeln!(f, "id: {}", id.replace(['\r', '\n'], ""))?;
         }
         if let Some(event) = &self.event {
-            writeln!(f, "event: {}", event)?;
+            writeln!(f, "event: {}", event.replace(['\r', '\n'], ""))?;
         }
         if let Some(retry) = self.retry {
             writeln!(f, "retry: {}", retry)?;
         }
 
-        // Split data by newlines and write each line
-        for line in self.data.lines() {
+        // Split data at every line end, also the last, and write each line
+        for line in self.data.replace("\r\n", "\n").split(['\r', '\n']) {
             writeln!(f, "data: {}", line)?;
         }
 
-- 
2.43.0


From d96d1c05f20a32dab2bdce18f6951451042ef2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 34/98] fix: skip the byte order mark that may open an event
 stream

---
 src/shared/sse_parser.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/shared/sse_parser.rs b/src/shared/sse_parser.rs
index 4a709f4..1f42457 100644
--- a/src/shared/sse_parser.rs
+++ b/src/shared/sse_parser.rs
@@ -120,6 +120,8 @@ pub struct SseParser {
     last_event_id: Option<String>,
     /// Whether the last line ended in a carriage return that a line feed may follow.
     after_cr: bool,
+    /// Whether any text was fed yet.
+    started: bool,
 }
 
 impl SseParser {
@@ -139,6 +141,7 @@ impl SseParser {
             current_event: EventBuilder::new(),
             last_event_id: None,
             after_cr: false,
+            started: false,
         }
     }
 
@@ -170,6 +173,13 @@ impl SseParser {
     /// assert_eq!(events[0].event, Some("ping".to_string()));
     /// ```
     pub fn feed(&mut self, data: &str) -> Vec<SseEvent> {
+        let data = if self.started {
+            data
+        } else {
+            // A byte order mark may open the stream
+            self.started = !data.is_empty();
+            data.strip_prefix('\u{feff}').unwrap_or(data)
+        };
         self.buffer.push_str(data);
         let mut events = Vec::new();
 
@@ -287,6 +297,7 @@ impl SseParser {
     pub fn reset(&mut self) {
         self.buffer.clear();
         self.after_cr = false;
+        self.started = false;
         self.current_event = EventBuilder::new();
     }
 }
-- 
2.43.0


From 3857bd52f88129726458d086b245bdb93f928bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:11 +0000
Subject: [PATCH 35/98] fix: accept standard JSON-RPC bodies in the streamable
 HTTP server

---
 src/server/streamable_http_server.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index d0232fa..f661be7 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -4,7 +4,7 @@ use crate::server::Server;
 use crate::shared::http_constants::{
     APPLICATION_JSON, LAST_EVENT_ID, MCP_PROTOCOL_VERSION, MCP_SESSION_ID, TEXT_EVENT_STREAM,
 };
-use crate::shared::TransportMessage;
+use crate::shared::{StdioTransport, TransportMessage};
 use crate::types::{ClientRequest, Request};
 use axum::{
     async_trait,
@@ -542,6 +542,11 @@ fn validate_protocol_version(
     Ok(())
 }
 
+/// Parse a request body: a JSON-RPC message, or its `{"id", "request"}` form.
+fn parse_body(body: &str) -> std::result::Result<TransportMessage, serde_json::Error> {
+    StdioTransport::parse_message(body.as_bytes()).or_else(|_| serde_json::from_str(body))
+}
+
 /// Handle POST requests
 async fn handle_post_request(
     State(state): State<ServerState>,
@@ -554,7 +559,7 @@ async fn handle_post_request(
     }
 
     // Parse the JSON body
-    let message: TransportMessage = match serde_json::from_str(&body) {
+    let message = match parse_body(&body) {
         Ok(msg) => msg,
         Err(e) => {
             return create_error_response(
-- 
2.43.0


From 8f6129becfa844adda55246c17e197576e5955ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:12 +0000
Subject: [PATCH 36/98] fix: compare media types of HTTP requests exactly and
 without regard to case

---
 src/server/streamable_http_server.rs | 30 +++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index f661be7..e138bae 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -284,14 +284,29 @@ impl StreamableHttpServer {
     }
 }
 
+/// Whether a media type, its parameters aside, is one of those given.
+fn names_media_type(value: &str, media_types: &[&str]) -> bool {
+    let essence = value.split(';').next().unwrap_or("").trim();
+    media_types.iter().any(|t| essence.eq_ignore_ascii_case(t))
+}
+
+/// Whether the Accept headers list one of the given media types.
+fn accepts(headers: &HeaderMap, media_types: &[&str]) -> bool {
+    headers
+        .get_all(header::ACCEPT)
+        .iter()
+        .filter_map(|accept| accept.to_str().ok())
+        .flat_map(|accept| accept.split(','))
+        .any(|range| names_media_type(range, media_types))
+}
+
 /// Validate request headers and return appropriate error response
 fn validate_headers(headers: &HeaderMap, method: &str) -> std::result::Result<(), Response> {
     match method {
         "POST" => {
             // Validate Content-Type
             if let Some(content_type) = headers.get(header::CONTENT_TYPE) {
-                let ct = content_type.to_str().unwrap_or("");
-                if !ct.contains(APPLICATION_JSON) {
+                if !names_media_type(content_type.to_str().unwrap_or(""), &[APPLICATION_JSON]) {
                     return Err(create_error_response(
                         StatusCode::UNSUPPORTED_MEDIA_TYPE,
                         -32700,
@@ -307,10 +322,8 @@ fn validate_headers(headers: &HeaderMap, method: &str) -> std::result::Result<()
             }
 
             // Validate Accept
-            if let Some(accept) = headers.get(header::ACCEPT) {
-                let accept_str = accept.to_str().unwrap_or("");
-                if !accept_str.contains(APPLICATION_JSON) && !accept_str.contains(TEXT_EVENT_STREAM)
-                {
+            if headers.contains_key(header::ACCEPT) {
+                if !accepts(headers, &[APPLICATION_JSON, TEXT_EVENT_STREAM]) {
                     return Err(create_error_response(
                         StatusCode::NOT_ACCEPTABLE,
                         -32700,
@@ -327,9 +340,8 @@ fn validate_headers(headers: &HeaderMap, method: &str) -> std::result::Result<()
         },
         "GET" => {
             // Validate Accept for SSE
-            if let Some(accept) = headers.get(header::ACCEPT) {
-                let accept_str = accept.to_str().unwrap_or("");
-                if !accept_str.contains(TEXT_EVENT_STREAM) {
+            if headers.contains_key(header::ACCEPT) {
+                if !accepts(headers, &[TEXT_EVENT_STREAM]) {
                     return Err(create_error_response(
                         StatusCode::NOT_ACCEPTABLE,
                         -32700,
-- 
2.43.0


From 333c5a2b5a6f3e111b25a68540cabf6ec8d06f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:12 +0000
Subject: [PATCH 37/98] fix: refuse to initialize an unknown HTTP session

---
 src/server/streamable_http_server.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index e138bae..7864174 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -372,18 +372,21 @@ fn process_init_session(
         // Stateful mode
         if let Some(sid) = session_id {
             // Check if session already exists and is initialized
-            if let Some(session_info) = state.sessions.read().get(&sid) {
-                if session_info.initialized {
-                    // Session already initialized - reject re-initialization
-                    return Err(create_error_response(
-                        StatusCode::BAD_REQUEST,
-                        -32600,
-                        "Session already initialized",
-                    ));
-                }
+            match state.sessions.read().get(&sid) {
+                // Session already initialized - reject re-initialization
+                Some(session_info) if session_info.initialized => Err(create_error_response(
+                    StatusCode::BAD_REQUEST,
+                    -32600,
+                    "Session already initialized",
+                )),
+                // Use existing session ID
+                Some(_) => Ok((Some(sid), false)),
+                None => Err(create_error_response(
+                    StatusCode::NOT_FOUND,
+                    -32600,
+                    "Unknown session ID",
+                )),
             }
-            // Use existing session ID
-            Ok((Some(sid), false))
         } else {
             // Generate new session ID
             let new_id = generator();
-- 
2.43.0


From 02f11ca6d775395f0a44e33a150895ccb1aabdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:12 +0000
Subject: [PATCH 38/98] fix: let only one of several concurrent deletions end
 an HTTP session

---
 src/server/streamable_http_server.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index 7864174..9a370b5 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -826,8 +826,8 @@ async fn handle_delete_session(
         .map(|s| s.to_string());
 
     if let Some(sid) = session_id {
-        // Check if session exists
-        let session_exists = state.sessions.read().contains_key(&sid);
+        // Remove session from tracking
+        let session_exists = state.sessions.write().remove(&sid).is_some();
 
         if !session_exists && state.config.session_id_generator.is_some() {
             // Unknown session in stateful mode
@@ -837,9 +837,6 @@ async fn handle_delete_session(
         // Remove SSE stream if exists
         state.sse_streams.write().remove(&sid);
 
-        // Remove session from tracking
-        state.sessions.write().remove(&sid);
-
         // Notify callback
         if let Some(callback) = &state.config.on_session_closed {
             callback(&sid);
-- 
2.43.0


From 3e340003aba8848447ace591572e285cd7c15cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:37 +0000
Subject: [PATCH 39/98] fix: keep one live event stream per HTTP session and
 let a disconnected one be replaced

---
 src/server/streamable_http_server.rs | 81 ++++++++++++++++------------
 1 file changed, 47 insertions(+), 34 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index 9a370b5..acd1812 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -486,28 +486,34 @@ fn build_response(
     } else {
         // SSE streaming mode
         if let Some(sid) = session_id {
-            if let Some(sender) = state.sse_streams.read().get(sid) {
-                // Send to existing SSE stream
-                let _ = sender.send(response);
-                StatusCode::ACCEPTED.into_response()
+            // Send to existing SSE stream
+            let sender = state.sse_streams.read().get(sid).cloned();
+            let response = if let Some(sender) = sender {
+                match sender.send(response) {
+                    Ok(()) => return StatusCode::ACCEPTED.into_response(),
+                    // The stream disconnected
+                    Err(mpsc::error::SendError(response)) => response,
+                }
             } else {
-                // Return as SSE stream
-                let (tx, rx) = mpsc::unbounded_channel();
-                tx.send(response).unwrap();
+                response
+            };
 
-                let stream = UnboundedReceiverStream::new(rx);
-                let sse = Sse::new(stream.map(|msg| {
-                    let event_id = Uuid::new_v4().to_string();
-                    Ok::<_, Infallible>(
-                        Event::default()
-                            .id(event_id)
-                            .event("message")
-                            .data(serde_json::to_string(&msg).unwrap()),
-                    )
-                }));
-
-                sse.into_response()
-            }
+            // Return as SSE stream
+            let (tx, rx) = mpsc::unbounded_channel();
+            tx.send(response).unwrap();
+
+            let stream = UnboundedReceiverStream::new(rx);
+            let sse = Sse::new(stream.map(|msg| {
+                let event_id = Uuid::new_v4().to_string();
+                Ok::<_, Infallible>(
+                    Event::default()
+                        .id(event_id)
+                        .event("message")
+                        .data(serde_json::to_string(&msg).unwrap()),
+                )
+            }));
+
+            sse.into_response()
         } else {
             // No session, return JSON
             (StatusCode::OK, Json(response)).into_response()
@@ -739,21 +745,28 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
         );
     };
 
-    // Check if stream already exists for this session
-    if state.sse_streams.read().contains_key(&session_id) {
-        return create_error_response(
-            StatusCode::CONFLICT,
-            -32600,
-            "SSE stream already exists for this session",
-        );
-    }
-
-    // Create SSE stream
+    // Create SSE stream, unless a connected one already exists for this session
     let (tx, rx) = mpsc::unbounded_channel();
-    state
-        .sse_streams
-        .write()
-        .insert(session_id.clone(), tx.clone());
+    {
+        let mut streams = state.sse_streams.write();
+        if streams
+            .get(&session_id)
+            .is_some_and(|stream| !stream.is_closed())
+        {
+            return create_error_response(
+                StatusCode::CONFLICT,
+                -32600,
+                "SSE stream already exists for this session",
+            );
+        }
+        // The session may have been deleted in the meantime, together with its stream
+        if state.config.session_id_generator.is_some()
+            && !state.sessions.read().contains_key(&session_id)
+        {
+            return create_error_response(StatusCode::NOT_FOUND, -32600, "Unknown session ID");
+        }
+        streams.insert(session_id.clone(), tx.clone());
+    }
 
     // Check for Last-Event-ID for resumability
     if let Some(last_event_id) = headers.get(LAST_EVENT_ID) {
-- 
2.43.0


From 49f31190763945e7b37669060b6e0638e9389024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:39 +0000
Subject: [PATCH 40/98] fix: send stored events under their stored ids and
 replay a session's own only

---
 src/server/streamable_http_server.rs | 61 +++++++++++++---------------
 1 file changed, 29 insertions(+), 32 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index acd1812..9854443 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -17,7 +17,7 @@ use axum::{
 use futures_util::StreamExt;
 use parking_lot::RwLock;
 use serde_json::json;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::convert::Infallible;
 use std::net::SocketAddr;
 use std::sync::Arc;
@@ -49,6 +49,9 @@ pub trait EventStore: Send + Sync {
 /// Type alias for event list
 type EventList = Vec<(String, TransportMessage)>;
 
+/// Type alias for an event of a stream: its ID and message
+type StreamEvent = (String, TransportMessage);
+
 /// Type alias for events map
 type EventsMap = HashMap<String, EventList>;
 
@@ -210,7 +213,7 @@ struct ServerState {
     server: Arc<tokio::sync::Mutex<Server>>,
     config: Arc<StreamableHttpServerConfig>,
     /// Active SSE streams by session ID
-    sse_streams: Arc<RwLock<HashMap<String, mpsc::UnboundedSender<TransportMessage>>>>,
+    sse_streams: Arc<RwLock<HashMap<String, mpsc::UnboundedSender<StreamEvent>>>>,
     /// Session tracking (session ID -> session info)
     sessions: Arc<RwLock<HashMap<String, SessionInfo>>>,
 }
@@ -477,6 +480,7 @@ fn update_session_after_init(
 /// Build response with appropriate format (JSON or SSE)
 fn build_response(
     state: &ServerState,
+    event_id: String,
     response: TransportMessage,
     session_id: Option<&String>,
 ) -> Response {
@@ -488,23 +492,22 @@ fn build_response(
         if let Some(sid) = session_id {
             // Send to existing SSE stream
             let sender = state.sse_streams.read().get(sid).cloned();
-            let response = if let Some(sender) = sender {
-                match sender.send(response) {
+            let event = if let Some(sender) = sender {
+                match sender.send((event_id, response)) {
                     Ok(()) => return StatusCode::ACCEPTED.into_response(),
                     // The stream disconnected
-                    Err(mpsc::error::SendError(response)) => response,
+                    Err(mpsc::error::SendError(event)) => event,
                 }
             } else {
-                response
+                (event_id, response)
             };
 
             // Return as SSE stream
             let (tx, rx) = mpsc::unbounded_channel();
-            tx.send(response).unwrap();
+            tx.send(event).unwrap();
 
             let stream = UnboundedReceiverStream::new(rx);
-            let sse = Sse::new(stream.map(|msg| {
-                let event_id = Uuid::new_v4().to_string();
+            let sse = Sse::new(stream.map(|(event_id, msg)| {
                 Ok::<_, Infallible>(
                     Event::default()
                         .id(event_id)
@@ -649,15 +652,15 @@ async fn handle_post_request(
             };
 
             // Store event if we have an event store
+            let event_id = Uuid::new_v4().to_string();
             if let Some(event_store) = &state.config.event_store {
                 if let Some(sid) = &response_session_id {
-                    let event_id = Uuid::new_v4().to_string();
                     let _ = event_store.store_event(sid, &event_id, &response).await;
                 }
             }
 
             // Build response with headers
-            let mut response = build_response(&state, response, session_id.as_ref());
+            let mut response = build_response(&state, event_id, response, session_id.as_ref());
 
             // Always add session header in stateful mode
             if let Some(sid) = &response_session_id {
@@ -765,40 +768,34 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
         {
             return create_error_response(StatusCode::NOT_FOUND, -32600, "Unknown session ID");
         }
-        streams.insert(session_id.clone(), tx.clone());
+        streams.insert(session_id.clone(), tx);
     }
 
     // Check for Last-Event-ID for resumability
+    let mut replayed = Vec::new();
     if let Some(last_event_id) = headers.get(LAST_EVENT_ID) {
         if let Ok(last_id) = last_event_id.to_str() {
             if let Some(event_store) = &state.config.event_store {
-                // Replay events after the last event ID
+                // Replay the session's events after the last event ID
                 if let Ok(events) = event_store.replay_events_after(last_id).await {
-                    for (_event_id, msg) in events {
-                        let _ = tx.send(msg);
+                    for (event_id, msg) in events {
+                        let stream_id = event_store.get_stream_for_event(&event_id).await;
+                        if matches!(stream_id, Ok(Some(id)) if id == session_id) {
+                            replayed.push((event_id, msg));
+                        }
                     }
                 }
             }
         }
     }
 
-    let stream = UnboundedReceiverStream::new(rx);
-    let session_id_header = session_id.clone();
-
-    let sse = Sse::new(stream.map(move |msg| {
-        let event_id = Uuid::new_v4().to_string();
-
-        // Store event if we have an event store
-        if let Some(event_store) = &state.config.event_store {
-            let sid = session_id.clone();
-            let msg_clone = msg.clone();
-            let store = event_store.clone();
-            let event_id_clone = event_id.clone();
-            tokio::spawn(async move {
-                let _ = store.store_event(&sid, &event_id_clone, &msg_clone).await;
-            });
-        }
+    // Events are stored before they are sent here, so those sent meanwhile may be replayed ones
+    let replayed_ids: HashSet<String> = replayed.iter().map(|(id, _)| id.clone()).collect();
+    let stream = UnboundedReceiverStream::new(rx)
+        .filter(move |(id, _)| futures_util::future::ready(!replayed_ids.contains(id)));
+    let stream = futures_util::stream::iter(replayed).chain(stream);
 
+    let sse = Sse::new(stream.map(|(event_id, msg)| {
         Ok::<_, Infallible>(
             Event::default()
                 .id(event_id)
@@ -812,7 +809,7 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
     // Add session ID header
     response
         .headers_mut()
-        .insert(MCP_SESSION_ID, session_id_header.parse().unwrap());
+        .insert(MCP_SESSION_ID, session_id.parse().unwrap());
 
     // Add SSE-specific headers for hardening
     response.headers_mut().insert(
-- 
2.43.0


From ac1dfad749211405649ace64310f7849ff166b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 41/98] fix: do not deadlock replaying HTTP events while others
 are stored

---
 src/server/streamable_http_server.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index 9854443..d33b726 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -90,6 +90,9 @@ impl EventStore for InMemoryEventStore {
         &self,
         last_event_id: &str,
     ) -> Result<Vec<(String, TransportMessage)>> {
+        // Locked in the order in which events are stored
+        let events = self.events.read();
+        let event_to_stream = self.event_to_stream.read();
         let event_order = self.event_order.read();
         let mut result = Vec::new();
 
@@ -100,9 +103,6 @@ impl EventStore for InMemoryEventStore {
             .map_or(0, |pos| pos + 1);
 
         // Collect all events after that position
-        let events = self.events.read();
-        let event_to_stream = self.event_to_stream.read();
-
         for i in start_pos..event_order.len() {
             let event_id = &event_order[i];
             if let Some(stream_id) = event_to_stream.get(event_id) {
-- 
2.43.0


From fb2d91dd127384ccade57a6183bd683fe72c57f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:58 +0000
Subject: [PATCH 42/98] fix: keep characters split over frames of an event
 stream whole

---
 src/shared/http.rs       |  3 +--
 src/shared/sse_parser.rs | 29 +++++++++++++++++++++++++++++
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/shared/http.rs b/src/shared/http.rs
index 8e0a3a7..6367fe9 100644
--- a/src/shared/http.rs
+++ b/src/shared/http.rs
@@ -141,8 +141,7 @@ impl HttpTransport {
                     match chunk {
                         Ok(frame) => {
                             if let Some(data) = frame.data_ref() {
-                                let text = String::from_utf8_lossy(data);
-                                let events = sse_parser.feed(&text);
+                                let events = sse_parser.feed_bytes(data);
 
                                 for event in events {
                                     // Process SSE event data as JSON-RPC message
diff --git a/src/shared/sse_parser.rs b/src/shared/sse_parser.rs
index 1f42457..141c967 100644
--- a/src/shared/sse_parser.rs
+++ b/src/shared/sse_parser.rs
@@ -122,6 +122,8 @@ pub struct SseParser {
     after_cr: bool,
     /// Whether any text was fed yet.
     started: bool,
+    /// Bytes of a character that is not complete yet.
+    partial: Vec<u8>,
 }
 
 impl SseParser {
@@ -142,6 +144,7 @@ impl SseParser {
             last_event_id: None,
             after_cr: false,
             started: false,
+            partial: Vec::new(),
         }
     }
 
@@ -207,6 +210,31 @@ impl SseParser {
         events
     }
 
+    /// Feed bytes to the parser and get parsed events.
+    ///
+    /// A character whose bytes are split over several calls is kept whole.
+    pub fn feed_bytes(&mut self, data: &[u8]) -> Vec<SseEvent> {
+        self.partial.extend_from_slice(data);
+        // Keep an incomplete character at the end for the next call
+        let mut tail = 0;
+        for (back, byte) in self.partial.iter().rev().take(3).enumerate() {
+            let width = match byte {
+                0xc0..=0xdf => 2,
+                0xe0..=0xef => 3,
+                0xf0..=0xf7 => 4,
+                0x80..=0xbf => continue,
+                _ => break,
+            };
+            if width > back + 1 {
+                tail = back + 1;
+            }
+            break;
+        }
+        let rest = self.partial.split_off(self.partial.len() - tail);
+        let complete = std::mem::replace(&mut self.partial, rest);
+        self.feed(&String::from_utf8_lossy(&complete))
+    }
+
     /// Process a single line and potentially emit an event.
     fn process_line(&mut self, line: &str) -> Option<SseEvent> {
         // Empty line dispatches the event
@@ -298,6 +326,7 @@ impl SseParser {
         self.buffer.clear();
         self.after_cr = false;
         self.started = false;
+        self.partial.clear();
         self.current_event = EventBuilder::new();
     }
 }
-- 
2.43.0


From 7941566cb6c66448d06a476efa2c25d200911b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:02 +0000
Subject: [PATCH 43/98] fix: deliver messages of an HTTP event stream as they
 arrive

---
 src/shared/streamable_http.rs | 76 ++++++++++++++---------------------
 1 file changed, 30 insertions(+), 46 deletions(-)

diff --git a/src/shared/streamable_http.rs b/src/shared/streamable_http.rs
index f54f7f7..4069a14 100644
--- a/src/shared/streamable_http.rs
+++ b/src/shared/streamable_http.rs
@@ -147,6 +147,34 @@ impl Debug for StreamableHttpTransport {
     }
 }
 
+/// Deliver the messages of an SSE response as they arrive.
+async fn read_sse(
+    mut response: Response,
+    sender: mpsc::UnboundedSender<TransportMessage>,
+    on_resumption: Option<Arc<dyn Fn(String) + Send + Sync>>,
+    last_event_id: Arc<RwLock<Option<String>>>,
+) {
+    let mut sse_parser = SseParser::new();
+    while let Ok(Some(chunk)) = response.chunk().await {
+        for event in sse_parser.feed_bytes(&chunk) {
+            // Update last event ID and notify callback
+            if let Some(id) = &event.id {
+                *last_event_id.write() = Some(id.clone());
+                if let Some(callback) = &on_resumption {
+                    callback(id.clone());
+                }
+            }
+
+            // Only process "message" events or no event type
+            if event.event.as_deref() == Some("message") || event.event.is_none() {
+                if let Ok(msg) = serde_json::from_str::<TransportMessage>(&event.data) {
+                    let _ = sender.send(msg);
+                }
+            }
+        }
+    }
+}
+
 impl StreamableHttpTransport {
     /// Creates a new `StreamableHttpTransport`.
     pub fn new(config: StreamableHttpTransportConfig) -> Self {
@@ -232,29 +260,7 @@ impl StreamableHttpTransport {
         let on_resumption = self.config.read().on_resumption_token.clone();
         let last_event_id = self.last_event_id.clone();
 
-        let handle = tokio::spawn(async move {
-            let mut sse_parser = SseParser::new();
-            let body = response.text().await.unwrap_or_default();
-
-            // For now, parse the whole body - later we can stream with hyper Body
-            let events = sse_parser.feed(&body);
-            for event in events {
-                // Update last event ID and notify callback
-                if let Some(id) = &event.id {
-                    *last_event_id.write() = Some(id.clone());
-                    if let Some(callback) = &on_resumption {
-                        callback(id.clone());
-                    }
-                }
-
-                // Only process "message" events or no event type
-                if event.event.as_deref() == Some("message") || event.event.is_none() {
-                    if let Ok(msg) = serde_json::from_str::<TransportMessage>(&event.data) {
-                        let _ = sender.send(msg);
-                    }
-                }
-            }
-        });
+        let handle = tokio::spawn(read_sse(response, sender, on_resumption, last_event_id));
 
         *self.abort_handle.write() = Some(handle);
         Ok(())
@@ -395,29 +401,7 @@ impl StreamableHttpTransport {
             let on_resumption = self.config.read().on_resumption_token.clone();
             let last_event_id = self.last_event_id.clone();
 
-            tokio::spawn(async move {
-                let mut sse_parser = SseParser::new();
-                let body = response.text().await.unwrap_or_default();
-
-                // Parse the SSE body
-                let events = sse_parser.feed(&body);
-                for event in events {
-                    // Update last event ID and notify callback
-                    if let Some(id) = &event.id {
-                        *last_event_id.write() = Some(id.clone());
-                        if let Some(callback) = &on_resumption {
-                            callback(id.clone());
-                        }
-                    }
-
-                    // Only process "message" events
-                    if event.event.as_deref() == Some("message") || event.event.is_none() {
-                        if let Ok(msg) = serde_json::from_str::<TransportMessage>(&event.data) {
-                            let _ = sender.send(msg);
-                        }
-                    }
-                }
-            });
+            tokio::spawn(read_sse(response, sender, on_resumption, last_event_id));
         } else if response.status().as_u16() == 202 {
             // 202 Accepted with no body is valid
             return Ok(());
-- 
2.43.0


From c1fe41e4cf1123f36f37cdfa52d4c01298a42a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:05 +0000
Subject: [PATCH 44/98] fix: exchange standard JSON-RPC messages over
 streamable HTTP

---
 src/shared/streamable_http.rs | 36 +++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/shared/streamable_http.rs b/src/shared/streamable_http.rs
index 4069a14..fe7b300 100644
--- a/src/shared/streamable_http.rs
+++ b/src/shared/streamable_http.rs
@@ -4,7 +4,7 @@ use crate::shared::http_constants::{
     MCP_SESSION_ID, TEXT_EVENT_STREAM,
 };
 use crate::shared::sse_parser::SseParser;
-use crate::shared::{Transport, TransportMessage};
+use crate::shared::{StdioTransport, Transport, TransportMessage};
 use async_trait::async_trait;
 use parking_lot::RwLock;
 use reqwest::{Client, RequestBuilder, Response};
@@ -147,6 +147,14 @@ impl Debug for StreamableHttpTransport {
     }
 }
 
+/// Parse a JSON-RPC message, or its `{"id", "request"}` form.
+fn parse_message(json: &[u8]) -> Result<TransportMessage> {
+    StdioTransport::parse_message(json).or_else(|_| {
+        serde_json::from_slice(json)
+            .map_err(|e| Error::Transport(TransportError::Deserialization(e.to_string())))
+    })
+}
+
 /// Deliver the messages of an SSE response as they arrive.
 async fn read_sse(
     mut response: Response,
@@ -167,7 +175,7 @@ async fn read_sse(
 
             // Only process "message" events or no event type
             if event.event.as_deref() == Some("message") || event.event.is_none() {
-                if let Ok(msg) = serde_json::from_str::<TransportMessage>(&event.data) {
+                if let Ok(msg) = parse_message(event.data.as_bytes()) {
                     let _ = sender.send(msg);
                 }
             }
@@ -332,8 +340,7 @@ impl StreamableHttpTransport {
             return Ok(());
         }
 
-        let body = serde_json::to_string(&message)
-            .map_err(|e| Error::Transport(TransportError::Serialization(e.to_string())))?;
+        let body = StdioTransport::serialize_message(&message)?;
 
         let url = self.config.read().url.clone();
         let builder = self.build_request(reqwest::Method::POST, url).await?;
@@ -380,19 +387,20 @@ impl StreamableHttpTransport {
                 .map_err(|e| Error::Transport(TransportError::Request(e.to_string())))?;
 
             // Try to parse as array first (batch response)
-            if let Ok(batch) = serde_json::from_slice::<Vec<TransportMessage>>(&response_bytes) {
-                for msg in batch {
-                    self.sender
-                        .send(msg)
-                        .map_err(|e| Error::Transport(TransportError::Send(e.to_string())))?;
-                }
+            let messages = if let Ok(batch) =
+                serde_json::from_slice::<Vec<serde_json::Value>>(&response_bytes)
+            {
+                batch
+                    .iter()
+                    .map(|message| parse_message(message.to_string().as_bytes()))
+                    .collect::<Result<Vec<_>>>()?
             } else {
                 // Single message
-                let message = serde_json::from_slice(&response_bytes).map_err(|e| {
-                    Error::Transport(TransportError::Deserialization(e.to_string()))
-                })?;
+                vec![parse_message(&response_bytes)?]
+            };
+            for msg in messages {
                 self.sender
-                    .send(message)
+                    .send(msg)
                     .map_err(|e| Error::Transport(TransportError::Send(e.to_string())))?;
             }
         } else if content_type.contains(TEXT_EVENT_STREAM) {
-- 
2.43.0


From 47b350d4a0c2c1c55818b43a2d4f3c820eae67d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:09 +0000
Subject: [PATCH 45/98] fix: accept a 202 reply without body whatever its
 content type

---
 src/shared/streamable_http.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/shared/streamable_http.rs b/src/shared/streamable_http.rs
index fe7b300..b56de99 100644
--- a/src/shared/streamable_http.rs
+++ b/src/shared/streamable_http.rs
@@ -381,10 +381,15 @@ impl StreamableHttpTransport {
 
         if content_type.contains(APPLICATION_JSON) {
             // JSON response (single or batch)
+            let status = response.status().as_u16();
             let response_bytes = response
                 .bytes()
                 .await
                 .map_err(|e| Error::Transport(TransportError::Request(e.to_string())))?;
+            if status == 202 && response_bytes.is_empty() {
+                // 202 Accepted with no body is valid
+                return Ok(());
+            }
 
             // Try to parse as array first (batch response)
             let messages = if let Ok(batch) =
-- 
2.43.0


From 52503f232e5c42c0eba950f30d59e4b0c51f7d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:02 +0000
Subject: [PATCH 46/98] fix: open no event streams in stateless mode, with or
 without a session id

---
 src/server/streamable_http_server.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index d33b726..4733071 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -718,10 +718,10 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
         .map(|s| s.to_string());
 
     // Validate or generate session ID
-    let session_id = if let Some(sid) = session_id {
+    let session_id = if let (Some(sid), Some(_)) = (session_id, &state.config.session_id_generator)
+    {
         // Validate session exists
-        if state.config.session_id_generator.is_some() && !state.sessions.read().contains_key(&sid)
-        {
+        if !state.sessions.read().contains_key(&sid) {
             return create_error_response(StatusCode::NOT_FOUND, -32600, "Unknown session ID");
         }
         sid
-- 
2.43.0


From 664ab819752f37907bab5ab38347381f05eb9f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:00 +0000
Subject: [PATCH 47/98] fix: retry OIDC discovery when the server cannot be
 reached

---
 src/client/auth.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/auth.rs b/src/client/auth.rs
index fbe7450..6c0171f 100644
--- a/src/client/auth.rs
+++ b/src/client/auth.rs
@@ -177,7 +177,7 @@ impl OidcDiscoveryClient {
             .map_err(|e| {
                 Error::protocol(
                     ErrorCode::INTERNAL_ERROR,
-                    format!("Failed to fetch discovery document: {}", e),
+                    format!("Failed to fetch discovery document: network error: {}", e),
                 )
             })?;
 
-- 
2.43.0


From 394695e7f43863e872e25049679dd924e78527de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:00 +0000
Subject: [PATCH 48/98] fix: attempt OIDC discovery once when retries are off

---
 src/client/auth.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/auth.rs b/src/client/auth.rs
index 6c0171f..a09c516 100644
--- a/src/client/auth.rs
+++ b/src/client/auth.rs
@@ -142,7 +142,7 @@ impl OidcDiscoveryClient {
         let mut attempts = 0;
         let mut last_error = None;
 
-        while attempts < self.max_retries {
+        while attempts < self.max_retries.max(1) {
             match self.fetch_discovery(&discovery_url).await {
                 Ok(metadata) => return Ok(metadata),
                 Err(e) => {
-- 
2.43.0


From d88c7728c0541eabedebdd39abcc2aa44529125d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:00 +0000
Subject: [PATCH 49/98] fix: send the configured headers with HTTP requests

---
 src/shared/http.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/shared/http.rs b/src/shared/http.rs
index 6367fe9..6830bbc 100644
--- a/src/shared/http.rs
+++ b/src/shared/http.rs
@@ -104,9 +104,8 @@ impl HttpTransport {
                 .map_err(|e| crate::error::TransportError::InvalidMessage(e.to_string()))?;
             info!("Connecting to SSE endpoint: {}", sse_url);
 
-            let req = Request::builder()
-                .method(Method::GET)
-                .uri(sse_url.as_str())
+            let req = self
+                .request_builder(Method::GET, &sse_url)
                 .header("Accept", "text/event-stream")
                 .header("Cache-Control", "no-cache")
                 .body(Full::new(Bytes::new()))
@@ -178,6 +177,15 @@ impl HttpTransport {
         Ok(())
     }
 
+    /// Start a request carrying the configured headers.
+    fn request_builder(&self, method: Method, url: &Url) -> hyper::http::request::Builder {
+        let mut builder = Request::builder().method(method).uri(url.as_str());
+        for (name, value) in &self.config.headers {
+            builder = builder.header(name, value);
+        }
+        builder
+    }
+
     async fn send_request(&self, message: &TransportMessage) -> Result<()> {
         let json_bytes = crate::shared::stdio::StdioTransport::serialize_message(message)?;
         let json = String::from_utf8(json_bytes).map_err(|e| {
@@ -187,9 +195,8 @@ impl HttpTransport {
             )))
         })?;
 
-        let req = Request::builder()
-            .method(Method::POST)
-            .uri(self.config.base_url.as_str())
+        let req = self
+            .request_builder(Method::POST, &self.config.base_url)
             .header("Content-Type", "application/json")
             .body(Full::new(Bytes::from(json)))
             .map_err(|e| crate::error::TransportError::InvalidMessage(e.to_string()))?;
-- 
2.43.0


From d5470154fb1e9c75bdc43caf9f7e466b9fded82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:00 +0000
Subject: [PATCH 50/98] fix: apply the HTTP request timeout to the whole reply

---
 src/shared/http.rs | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/shared/http.rs b/src/shared/http.rs
index 6830bbc..7b609da 100644
--- a/src/shared/http.rs
+++ b/src/shared/http.rs
@@ -201,14 +201,25 @@ impl HttpTransport {
             .body(Full::new(Bytes::from(json)))
             .map_err(|e| crate::error::TransportError::InvalidMessage(e.to_string()))?;
 
-        let response = timeout(self.config.timeout, self.client.request(req))
+        let response_msg = timeout(self.config.timeout, self.request_reply(req))
             .await
-            .map_err(|_| crate::error::Error::Timeout(self.config.timeout.as_secs() * 1000))?
-            .map_err(|e| {
-                crate::error::Error::Transport(crate::error::TransportError::InvalidMessage(
-                    e.to_string(),
-                ))
-            })?;
+            .map_err(|_| crate::error::Error::Timeout(self.config.timeout.as_millis() as u64))??;
+
+        // Send response through message queue
+        self.message_tx.send(response_msg).await.map_err(|_| {
+            crate::error::Error::Transport(crate::error::TransportError::ConnectionClosed)
+        })?;
+
+        Ok(())
+    }
+
+    /// Send a request and read its whole reply.
+    async fn request_reply(&self, req: Request<Full<Bytes>>) -> Result<TransportMessage> {
+        let response = self.client.request(req).await.map_err(|e| {
+            crate::error::Error::Transport(crate::error::TransportError::InvalidMessage(
+                e.to_string(),
+            ))
+        })?;
 
         if response.status() != StatusCode::OK {
             return Err(crate::error::Error::Transport(
@@ -229,14 +240,7 @@ impl HttpTransport {
                 ))
             })?
             .to_bytes();
-        let response_msg = crate::shared::stdio::StdioTransport::parse_message(&body_bytes)?;
-
-        // Send response through message queue
-        self.message_tx.send(response_msg).await.map_err(|_| {
-            crate::error::Error::Transport(crate::error::TransportError::ConnectionClosed)
-        })?;
-
-        Ok(())
+        crate::shared::stdio::StdioTransport::parse_message(&body_bytes)
     }
 }
 
-- 
2.43.0


From 90b560a0bc0415f088fd2120b0ef5155e3674445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:17 +0000
Subject: [PATCH 51/98] fix: compare the media type of HTTP replies without
 regard to case

---
 src/shared/streamable_http.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shared/streamable_http.rs b/src/shared/streamable_http.rs
index b56de99..b6bbb67 100644
--- a/src/shared/streamable_http.rs
+++ b/src/shared/streamable_http.rs
@@ -377,7 +377,8 @@ impl StreamableHttpTransport {
             .headers()
             .get(CONTENT_TYPE)
             .and_then(|v| v.to_str().ok())
-            .unwrap_or("");
+            .unwrap_or("")
+            .to_ascii_lowercase();
 
         if content_type.contains(APPLICATION_JSON) {
             // JSON response (single or batch)
-- 
2.43.0


From e9aaf4295ef322f51cf3bd027f7256b2a3420b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:54 +0000
Subject: [PATCH 52/98] fix: end the SIMD position scans when the last lane
 matches

---
 src/simd/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simd/mod.rs b/src/simd/mod.rs
index 7261e61..56fc0de 100644
--- a/src/simd/mod.rs
+++ b/src/simd/mod.rs
@@ -63,7 +63,7 @@ pub mod json {
             let mask = _mm256_movemask_epi8(ws_mask);
 
             // Find positions of set bits
-            let mut m = mask;
+            let mut m = mask as u32;
             let mut bit_pos = 0;
             while m != 0 {
                 if m & 1 != 0 {
@@ -275,7 +275,7 @@ pub mod json {
 
             let mask = _mm256_movemask_epi8(escape_mask);
 
-            let mut m = mask;
+            let mut m = mask as u32;
             let mut bit_pos = 0;
             while m != 0 {
                 if m & 1 != 0 {
@@ -467,7 +467,7 @@ pub mod compression {
 
             if mask != 0 {
                 // Found potential matches, check each one
-                let mut m = mask;
+                let mut m = mask as u32;
                 let mut bit_pos = 0;
                 while m != 0 {
                     if m & 1 != 0 {
-- 
2.43.0


From d90b1db18fd913c739a7cd4193a8fe631c1c77c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:54 +0000
Subject: [PATCH 53/98] fix: validate UTF-8 across and within SIMD chunks

---
 src/simd/mod.rs | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/simd/mod.rs b/src/simd/mod.rs
index 56fc0de..550dd88 100644
--- a/src/simd/mod.rs
+++ b/src/simd/mod.rs
@@ -95,15 +95,15 @@ pub mod json {
     fn validate_multibyte_sequence(input: &[u8], start: usize, first_byte: u8) -> bool {
         let len = input.len();
 
-        if first_byte < 0xC0 {
-            false // Invalid continuation byte
+        if first_byte < 0xC2 {
+            false // Continuation byte, or start of an overlong sequence
         } else if first_byte < 0xE0 {
             // 2-byte sequence
             validate_2byte_sequence(input, start, len)
         } else if first_byte < 0xF0 {
             // 3-byte sequence
             validate_3byte_sequence(input, start, len)
-        } else if first_byte < 0xF8 {
+        } else if first_byte < 0xF5 {
             // 4-byte sequence
             validate_4byte_sequence(input, start, len)
         } else {
@@ -121,7 +121,11 @@ pub mod json {
     #[inline]
     fn validate_3byte_sequence(input: &[u8], start: usize, len: usize) -> bool {
         start + 2 < len
-            && is_valid_continuation_byte(input[start + 1])
+            && match input[start] {
+                0xE0 => (0xA0..=0xBF).contains(&input[start + 1]), // not overlong
+                0xED => (0x80..=0x9F).contains(&input[start + 1]), // not a surrogate
+                _ => is_valid_continuation_byte(input[start + 1]),
+            }
             && is_valid_continuation_byte(input[start + 2])
     }
 
@@ -129,23 +133,29 @@ pub mod json {
     #[inline]
     fn validate_4byte_sequence(input: &[u8], start: usize, len: usize) -> bool {
         start + 3 < len
-            && is_valid_continuation_byte(input[start + 1])
+            && match input[start] {
+                0xF0 => (0x90..=0xBF).contains(&input[start + 1]), // not overlong
+                0xF4 => (0x80..=0x8F).contains(&input[start + 1]), // not past U+10FFFF
+                _ => is_valid_continuation_byte(input[start + 1]),
+            }
             && is_valid_continuation_byte(input[start + 2])
             && is_valid_continuation_byte(input[start + 3])
     }
 
     /// Processes a 32-byte chunk with SIMD, falling back to scalar for non-ASCII
+    ///
+    /// Returns the position after the last sequence starting in the chunk, if all are valid.
     #[cfg(target_arch = "x86_64")]
     #[target_feature(enable = "avx2")]
-    unsafe fn process_simd_chunk(input: &[u8], offset: usize) -> bool {
+    unsafe fn process_simd_chunk(input: &[u8], offset: usize) -> Option<usize> {
         let data = _mm256_loadu_si256(input.as_ptr().add(offset) as *const __m256i);
 
         // Check for ASCII bytes (< 0x80) - fast path
         let ascii_mask = _mm256_cmpgt_epi8(_mm256_setzero_si256(), data);
         let is_ascii = _mm256_movemask_epi8(ascii_mask);
 
-        if is_ascii == -1 {
-            return true; // All bytes are ASCII
+        if is_ascii == 0 {
+            return Some(offset + 32); // All bytes are ASCII
         }
 
         // Fall back to scalar validation for non-ASCII bytes
@@ -153,7 +163,9 @@ pub mod json {
     }
 
     /// Validates a chunk using scalar processing
-    fn validate_chunk_scalar(input: &[u8], start: usize, chunk_size: usize) -> bool {
+    ///
+    /// Returns the position after the last sequence starting in the chunk, if all are valid.
+    fn validate_chunk_scalar(input: &[u8], start: usize, chunk_size: usize) -> Option<usize> {
         let len = input.len();
         let end = std::cmp::min(start + chunk_size, len);
 
@@ -167,14 +179,14 @@ pub mod json {
 
             // Multi-byte sequence - validate and advance
             if !validate_multibyte_sequence(input, i, byte) {
-                return false;
+                return None;
             }
 
             // Advance by the correct number of bytes for this sequence
             i += get_utf8_sequence_length(byte);
         }
 
-        true
+        Some(i)
     }
 
     /// Gets the length of a UTF-8 sequence from its first byte
@@ -219,10 +231,10 @@ pub mod json {
 
         // Process 32 bytes at a time with SIMD
         while i + 32 <= len {
-            if !process_simd_chunk(input, i) {
+            let Some(next) = process_simd_chunk(input, i) else {
                 return false;
-            }
-            i += 32;
+            };
+            i = next;
         }
 
         // Process remaining bytes with scalar validation
-- 
2.43.0


From 20bf69ec24dc23d8302a1bede35e16cf8cd5890c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:54 +0000
Subject: [PATCH 54/98] fix: compare batch lengths unsigned and inclusive in
 SIMD lanes

---
 src/simd/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simd/mod.rs b/src/simd/mod.rs
index 550dd88..23cce30 100644
--- a/src/simd/mod.rs
+++ b/src/simd/mod.rs
@@ -521,7 +521,8 @@ pub mod batch {
         for i in 0..chunks {
             let offset = i * 8;
             let data = _mm256_loadu_si256(lengths.as_ptr().add(offset) as *const __m256i);
-            let cmp = _mm256_cmpgt_epi32(max_vec, data);
+            // Unsigned data <= max
+            let cmp = _mm256_cmpeq_epi32(_mm256_min_epu32(data, max_vec), data);
 
             // Extract comparison results
             let mask = _mm256_movemask_ps(_mm256_castsi256_ps(cmp));
-- 
2.43.0


From 28043ae39e51eb7d23ce9b1b6821136754bd3517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:54 +0000
Subject: [PATCH 55/98] fix: keep the whitespace that separates JSON tokens

---
 src/utils/json_simd.rs | 42 +-----------------------------------------
 1 file changed, 1 insertion(+), 41 deletions(-)

diff --git a/src/utils/json_simd.rs b/src/utils/json_simd.rs
index b03cbe8..c9a2d65 100644
--- a/src/utils/json_simd.rs
+++ b/src/utils/json_simd.rs
@@ -21,47 +21,7 @@ pub fn parse_json_fast<T: for<'de> Deserialize<'de>>(input: &[u8]) -> Result<T,
             }
         }
 
-        // Use optimized whitespace skipping
-        let ws_positions = unsafe { crate::simd::json::find_whitespace_simd(input) };
-
-        // If there's minimal whitespace, parse directly
-        if ws_positions.len() < input.len() / 10 {
-            serde_json::from_slice(input)
-        } else {
-            // Strip unnecessary whitespace first
-            let mut cleaned = Vec::with_capacity(input.len() - ws_positions.len());
-            let mut in_string = false;
-            let mut escape_next = false;
-
-            for (i, &byte) in input.iter().enumerate() {
-                if escape_next {
-                    escape_next = false;
-                    cleaned.push(byte);
-                    continue;
-                }
-
-                if byte == b'\\' && in_string {
-                    escape_next = true;
-                    cleaned.push(byte);
-                    continue;
-                }
-
-                if byte == b'"' && !escape_next {
-                    in_string = !in_string;
-                    cleaned.push(byte);
-                    continue;
-                }
-
-                if !in_string && ws_positions.binary_search(&i).is_ok() {
-                    // Skip whitespace outside strings
-                    continue;
-                }
-
-                cleaned.push(byte);
-            }
-
-            serde_json::from_slice(&cleaned)
-        }
+        serde_json::from_slice(input)
     } else {
         // Fallback to standard parsing
         serde_json::from_slice(input)
-- 
2.43.0


From a66f8ba421f43a8569357498ce73a08f0729fbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:54 +0000
Subject: [PATCH 56/98] fix: keep non-ASCII text intact when pretty-printing
 JSON

---
 src/utils/json_simd.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/utils/json_simd.rs b/src/utils/json_simd.rs
index c9a2d65..7b1bcaf 100644
--- a/src/utils/json_simd.rs
+++ b/src/utils/json_simd.rs
@@ -80,7 +80,7 @@ pub fn pretty_print_fast(value: &Value) -> Result<String, JsonError> {
             let escapes = unsafe { crate::simd::json::find_escapes_simd(&compact) };
 
             // Allocate with estimated size
-            let mut result = String::with_capacity(compact.len() * 2);
+            let mut result = Vec::with_capacity(compact.len() * 2);
             let mut indent = 0;
             let mut in_string = false;
             let mut escape_next = false;
@@ -88,7 +88,7 @@ pub fn pretty_print_fast(value: &Value) -> Result<String, JsonError> {
             for (i, &byte) in compact.iter().enumerate() {
                 if escape_next {
                     escape_next = false;
-                    result.push(byte as char);
+                    result.push(byte);
                     continue;
                 }
 
@@ -103,38 +103,38 @@ pub fn pretty_print_fast(value: &Value) -> Result<String, JsonError> {
                 if !in_string {
                     match byte {
                         b'{' | b'[' => {
-                            result.push(byte as char);
+                            result.push(byte);
                             indent += 2;
-                            result.push('\n');
-                            result.push_str(&" ".repeat(indent));
+                            result.push(b'\n');
+                            result.resize(result.len() + indent, b' ');
                         },
                         b'}' | b']' => {
                             indent = indent.saturating_sub(2);
-                            result.push('\n');
-                            result.push_str(&" ".repeat(indent));
-                            result.push(byte as char);
+                            result.push(b'\n');
+                            result.resize(result.len() + indent, b' ');
+                            result.push(byte);
                         },
                         b',' => {
-                            result.push(',');
-                            result.push('\n');
-                            result.push_str(&" ".repeat(indent));
+                            result.push(b',');
+                            result.push(b'\n');
+                            result.resize(result.len() + indent, b' ');
                         },
                         b':' => {
-                            result.push_str(": ");
+                            result.extend_from_slice(b": ");
                         },
                         b' ' | b'\t' | b'\n' | b'\r' => {
                             // Skip whitespace
                         },
                         _ => {
-                            result.push(byte as char);
+                            result.push(byte);
                         },
                     }
                 } else {
-                    result.push(byte as char);
+                    result.push(byte);
                 }
             }
 
-            return Ok(result);
+            return String::from_utf8(result).map_err(serde::ser::Error::custom);
         }
     }
 
-- 
2.43.0


From b997f74fa3c03182760e51862b63e44b4cf3f349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:54 +0000
Subject: [PATCH 57/98] fix: inject contexts whose span id is short

---
 src/shared/context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shared/context.rs b/src/shared/context.rs
index c7a53bb..d3ab4c5 100644
--- a/src/shared/context.rs
+++ b/src/shared/context.rs
@@ -212,7 +212,8 @@ impl RequestContext {
         // Standard trace context headers
         // Trace ID should be 32 hex chars, Span ID should be 16 hex chars
         let trace_id_hex = self.trace_id.replace('-', "");
-        let span_id_hex = self.span_id.replace('-', "")[..16].to_string();
+        let span_id_hex = self.span_id.replace('-', "");
+        let span_id_hex: String = span_id_hex.chars().take(16).collect();
         headers.insert(
             "traceparent".to_string(),
             format!("00-{}-{}-01", trace_id_hex, span_id_hex),
-- 
2.43.0


From a225d145bd92f9e8e244b6be73e020c91637a878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:54 +0000
Subject: [PATCH 58/98] fix: extract contexts from non-ASCII trace headers
 without panicking

---
 src/shared/context.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/context.rs b/src/shared/context.rs
index d3ab4c5..00bae60 100644
--- a/src/shared/context.rs
+++ b/src/shared/context.rs
@@ -246,7 +246,7 @@ impl RequestContext {
             if parts.len() >= 4 {
                 // Restore UUIDs from hex format
                 let trace_id_hex = parts[1];
-                let trace_id = if trace_id_hex.len() == 32 {
+                let trace_id = if trace_id_hex.len() == 32 && trace_id_hex.is_ascii() {
                     format!(
                         "{}-{}-{}-{}-{}",
                         &trace_id_hex[0..8],
@@ -260,7 +260,7 @@ impl RequestContext {
                 };
 
                 let span_id_hex = parts[2];
-                let span_id = if span_id_hex.len() == 16 {
+                let span_id = if span_id_hex.len() == 16 && span_id_hex.is_ascii() {
                     format!(
                         "{}-{}-{}-{}-{}",
                         &span_id_hex[0..8],
-- 
2.43.0


From 2f2124adfe2e9da8d312ca5e9e60e86f6c3bee79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:54 +0000
Subject: [PATCH 59/98] fix: keep textual request ids when extracting a context

---
 src/shared/context.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/shared/context.rs b/src/shared/context.rs
index 00bae60..1b1dea1 100644
--- a/src/shared/context.rs
+++ b/src/shared/context.rs
@@ -273,13 +273,13 @@ impl RequestContext {
                     span_id_hex.to_string()
                 };
 
-                let request_id = headers
-                    .get("x-request-id")
-                    .and_then(|id| id.parse::<i64>().ok())
-                    .map_or_else(
-                        || RequestId::from(uuid::Uuid::new_v4().as_u128() as i64),
-                        RequestId::from,
-                    );
+                let request_id = headers.get("x-request-id").map_or_else(
+                    || RequestId::from(uuid::Uuid::new_v4().as_u128() as i64),
+                    |id| {
+                        id.parse::<i64>()
+                            .map_or_else(|_| RequestId::from(id.clone()), RequestId::from)
+                    },
+                );
 
                 let mut context = Self::new(request_id);
                 context.trace_id = trace_id;
-- 
2.43.0


From c3c7518264b9a38b320ec6d4bbdf44b0943491e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:54 +0000
Subject: [PATCH 60/98] fix: percent-encode what reserved expansion does not
 allow

---
 src/shared/uri_template.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/shared/uri_template.rs b/src/shared/uri_template.rs
index 3a6d111..f2b3121 100644
--- a/src/shared/uri_template.rs
+++ b/src/shared/uri_template.rs
@@ -392,8 +392,24 @@ impl UriTemplate {
     /// Encode a value for URI inclusion
     fn encode_value(value: &str, allow_reserved: bool) -> String {
         if allow_reserved {
-            // Allow reserved characters
-            value.to_string()
+            // Allow reserved characters and percent-encoded triplets
+            let bytes = value.as_bytes();
+            let mut encoded = String::with_capacity(value.len());
+            for (i, &byte) in bytes.iter().enumerate() {
+                let triplet = byte == b'%'
+                    && bytes
+                        .get(i + 1..i + 3)
+                        .is_some_and(|hex| hex.iter().all(u8::is_ascii_hexdigit));
+                if triplet
+                    || byte.is_ascii_alphanumeric()
+                    || b"-._~:/?#[]@!$&'()*+,;=".contains(&byte)
+                {
+                    encoded.push(byte as char);
+                } else {
+                    write!(encoded, "%{byte:02X}").unwrap();
+                }
+            }
+            encoded
         } else {
             // Percent-encode reserved characters
             urlencoding::encode(value).into_owned()
-- 
2.43.0


From d4a549a095713bd42b7753c3dd18fd8b78123490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:54 +0000
Subject: [PATCH 61/98] fix: allow reserved characters in fragment expansion

---
 src/shared/uri_template.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/shared/uri_template.rs b/src/shared/uri_template.rs
index f2b3121..7be8583 100644
--- a/src/shared/uri_template.rs
+++ b/src/shared/uri_template.rs
@@ -328,19 +328,20 @@ impl UriTemplate {
     /// Expand multiple variables with an operator
     fn expand_multiple(op: Operator, specs: &[VarSpec], vars: &HashMap<String, String>) -> String {
         let mut parts = Vec::new();
+        let allow_reserved = matches!(op, Operator::Reserved | Operator::Fragment);
 
         for spec in specs {
             if let Some(value) = vars.get(&spec.name) {
                 let encoded = match spec.modifier {
                     Some(Modifier::Prefix(len)) => {
                         let truncated = value.chars().take(len).collect::<String>();
-                        Self::encode_value(&truncated, op == Operator::Reserved)
+                        Self::encode_value(&truncated, allow_reserved)
                     },
                     Some(Modifier::Explode) => {
                         // For simplicity, treat explode as normal expansion
-                        Self::encode_value(value, op == Operator::Reserved)
+                        Self::encode_value(value, allow_reserved)
                     },
-                    None => Self::encode_value(value, op == Operator::Reserved),
+                    None => Self::encode_value(value, allow_reserved),
                 };
 
                 match op {
-- 
2.43.0


From 3b1c72c0132e04a35c2b8c5976eb1c3b0eb100db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:54 +0000
Subject: [PATCH 62/98] fix: omit the equals sign of empty path parameters

---
 src/shared/uri_template.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shared/uri_template.rs b/src/shared/uri_template.rs
index 7be8583..200efbf 100644
--- a/src/shared/uri_template.rs
+++ b/src/shared/uri_template.rs
@@ -354,6 +354,9 @@ impl UriTemplate {
                     Operator::PathSegment => {
                         parts.push(encoded);
                     },
+                    Operator::PathParameter if encoded.is_empty() => {
+                        parts.push(spec.name.clone());
+                    },
                     Operator::PathParameter | Operator::Query | Operator::QueryContinuation => {
                         parts.push(format!("{}={}", spec.name, encoded));
                     },
-- 
2.43.0


From dfa570c9db12289f6d8dbf6a4ee838fabe4391ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:54 +0000
Subject: [PATCH 63/98] fix: reject URI templates with unbalanced or empty
 braces

---
 src/shared/uri_template.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/shared/uri_template.rs b/src/shared/uri_template.rs
index 200efbf..be43dd3 100644
--- a/src/shared/uri_template.rs
+++ b/src/shared/uri_template.rs
@@ -127,6 +127,15 @@ impl UriTemplate {
 
     /// Parse template string into expressions
     fn parse_template(template: &str) -> Result<Vec<Expression>> {
+        let literal = |text: &str| {
+            if text.contains(['{', '}']) {
+                return Err(Error::Validation(format!(
+                    "Unbalanced or empty braces in template: {}",
+                    text
+                )));
+            }
+            Ok(Expression::Literal(text.to_string()))
+        };
         let mut expressions = Vec::new();
         let mut last_end = 0;
 
@@ -135,9 +144,7 @@ impl UriTemplate {
 
             // Add literal text before this expression
             if match_range.start() > last_end {
-                expressions.push(Expression::Literal(
-                    template[last_end..match_range.start()].to_string(),
-                ));
+                expressions.push(literal(&template[last_end..match_range.start()])?);
             }
 
             // Parse the expression
@@ -149,7 +156,7 @@ impl UriTemplate {
 
         // Add remaining literal text
         if last_end < template.len() {
-            expressions.push(Expression::Literal(template[last_end..].to_string()));
+            expressions.push(literal(&template[last_end..])?);
         }
 
         Ok(expressions)
-- 
2.43.0


From 4be14faa7a50c9130ca8c55eb5a4fbdbf2f68b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:06 +0000
Subject: [PATCH 64/98] fix: match every variable of URI template expressions
 with several

---
 src/shared/uri_template.rs | 49 +++++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/src/shared/uri_template.rs b/src/shared/uri_template.rs
index be43dd3..541d5e3 100644
--- a/src/shared/uri_template.rs
+++ b/src/shared/uri_template.rs
@@ -449,9 +449,9 @@ impl UriTemplate {
         // Extract variable values from captures
         let mut capture_index = 1;
         for expr in &self.expressions {
-            if let Some(var_name) = Self::get_var_name(expr) {
+            for var_name in Self::get_var_names(expr) {
                 if let Some(value) = captures.get(capture_index) {
-                    vars.insert(var_name, value.as_str().to_string());
+                    vars.insert(var_name.clone(), value.as_str().to_string());
                 }
                 capture_index += 1;
             }
@@ -520,8 +520,7 @@ impl UriTemplate {
                             },
                         }
                     } else {
-                        // Complex matching for multiple vars - simplified
-                        pattern.push_str("(.+)");
+                        Self::push_multiple_pattern(&mut pattern, *op, specs);
                     }
                 },
             }
@@ -531,8 +530,40 @@ impl UriTemplate {
         pattern
     }
 
-    /// Get variable name from expression
-    fn get_var_name(expr: &Expression) -> Option<String> {
+    /// Append the pattern of several variables, with one capture for each.
+    fn push_multiple_pattern(pattern: &mut String, op: Operator, specs: &[VarSpec]) {
+        let (first, next, value) = match op {
+            Operator::Simple => ("", ",", "([^/,]+)"),
+            Operator::Reserved => ("", ",", "(.+)"),
+            Operator::Fragment => ("#", ",", "(.+)"),
+            Operator::Label => (r"\.", r"\.", r"([^.]+)"),
+            Operator::PathSegment => ("/", "/", "([^/]+)"),
+            Operator::PathParameter | Operator::Query | Operator::QueryContinuation => {
+                // Named variables may be missing anywhere
+                let lead = match op {
+                    Operator::PathParameter => ";",
+                    Operator::Query => "[?&]",
+                    _ => "&",
+                };
+                for spec in specs {
+                    write!(pattern, "(?:{lead}{}=([^;&]+))?", regex::escape(&spec.name)).unwrap();
+                }
+                return;
+            },
+        };
+        // Unnamed variables may be missing at the end
+        for i in 0..specs.len() {
+            if i > 0 {
+                pattern.push_str("(?:");
+            }
+            pattern.push_str(if i == 0 { first } else { next });
+            pattern.push_str(value);
+        }
+        pattern.push_str(&")?".repeat(specs.len() - 1));
+    }
+
+    /// Get variable names from expression
+    fn get_var_names(expr: &Expression) -> Vec<&String> {
         match expr {
             Expression::Simple(name)
             | Expression::Reserved(name)
@@ -541,9 +572,9 @@ impl UriTemplate {
             | Expression::PathSegment(name)
             | Expression::PathParameter(name)
             | Expression::Query(name)
-            | Expression::QueryContinuation(name) => Some(name.clone()),
-            Expression::Multiple(_, specs) if specs.len() == 1 => Some(specs[0].name.clone()),
-            _ => None,
+            | Expression::QueryContinuation(name) => vec![name],
+            Expression::Multiple(_, specs) => specs.iter().map(|spec| &spec.name).collect(),
+            Expression::Literal(_) => vec![],
         }
     }
 
-- 
2.43.0


From b1c45515f086e03f7883375cf1905288785f2582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:06 +0000
Subject: [PATCH 65/98] fix: match slashes in reserved URI template variables

---
 src/shared/uri_template.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/shared/uri_template.rs b/src/shared/uri_template.rs
index 541d5e3..609f64c 100644
--- a/src/shared/uri_template.rs
+++ b/src/shared/uri_template.rs
@@ -494,9 +494,12 @@ impl UriTemplate {
                     // Handle based on operator type
                     if specs.len() == 1 {
                         match op {
-                            Operator::Simple | Operator::Reserved => {
+                            Operator::Simple => {
                                 pattern.push_str("([^/]+)");
                             },
+                            Operator::Reserved => {
+                                pattern.push_str("(.+)");
+                            },
                             Operator::Fragment => {
                                 pattern.push_str("#(.+)");
                             },
-- 
2.43.0


From 9d1c5e12e00cf05ec7ade38d9ccdcfa0732abe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:06 +0000
Subject: [PATCH 66/98] fix: return decoded values that reproduce the URI from
 template matches

---
 src/shared/uri_template.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/shared/uri_template.rs b/src/shared/uri_template.rs
index 609f64c..7671a4f 100644
--- a/src/shared/uri_template.rs
+++ b/src/shared/uri_template.rs
@@ -451,13 +451,32 @@ impl UriTemplate {
         for expr in &self.expressions {
             for var_name in Self::get_var_names(expr) {
                 if let Some(value) = captures.get(capture_index) {
-                    vars.insert(var_name.clone(), value.as_str().to_string());
+                    let value = Self::decode_value(expr, value.as_str())?;
+                    vars.insert(var_name.clone(), value);
                 }
                 capture_index += 1;
             }
         }
 
-        Some(vars)
+        // Only values that give the URI again are a match
+        let expanded = self.expand_with_map(&vars).ok()?;
+        let same = urlencoding::decode_binary(expanded.as_bytes())
+            == urlencoding::decode_binary(uri.as_bytes());
+        same.then_some(vars)
+    }
+
+    /// Decode a matched value to what it was expanded from.
+    fn decode_value(expr: &Expression, value: &str) -> Option<String> {
+        let decoded = urlencoding::decode(value).ok()?.into_owned();
+        let allow_reserved = matches!(
+            expr,
+            Expression::Multiple(Operator::Reserved | Operator::Fragment, _)
+        );
+        if allow_reserved && Self::encode_value(&decoded, true) != value {
+            // Percent-encoded reserved characters stay as they are
+            return Some(value.to_string());
+        }
+        Some(decoded)
     }
 
     /// Convert template to regex pattern for matching
-- 
2.43.0


From daec2d67983fbe8580911c62e4158581cea419ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:16 +0000
Subject: [PATCH 67/98] fix: prefer the shortest URI template values so that
 later variables match

---
 src/shared/uri_template.rs | 42 +++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/shared/uri_template.rs b/src/shared/uri_template.rs
index 7671a4f..e502d86 100644
--- a/src/shared/uri_template.rs
+++ b/src/shared/uri_template.rs
@@ -489,56 +489,56 @@ impl UriTemplate {
                     pattern.push_str(&regex::escape(text));
                 },
                 Expression::Simple(_) | Expression::Reserved(_) => {
-                    pattern.push_str("([^/]+)");
+                    pattern.push_str("([^/]+?)");
                 },
                 Expression::Fragment(_) => {
-                    pattern.push_str("#(.+)");
+                    pattern.push_str("#(.+?)");
                 },
                 Expression::Label(_) => {
-                    pattern.push_str(r"\.([^.]+)");
+                    pattern.push_str(r"\.([^.]+?)");
                 },
                 Expression::PathSegment(_) => {
-                    pattern.push_str("/([^/]+)");
+                    pattern.push_str("/([^/]+?)");
                 },
                 Expression::PathParameter(name) => {
-                    write!(pattern, ";{}=([^;&]+)", regex::escape(name)).unwrap();
+                    write!(pattern, ";{}=([^;&]+?)", regex::escape(name)).unwrap();
                 },
                 Expression::Query(name) => {
-                    write!(pattern, r"\?{}=([^&]+)", regex::escape(name)).unwrap();
+                    write!(pattern, r"\?{}=([^&]+?)", regex::escape(name)).unwrap();
                 },
                 Expression::QueryContinuation(name) => {
-                    write!(pattern, "&{}=([^&]+)", regex::escape(name)).unwrap();
+                    write!(pattern, "&{}=([^&]+?)", regex::escape(name)).unwrap();
                 },
                 Expression::Multiple(op, specs) => {
                     // Handle based on operator type
                     if specs.len() == 1 {
                         match op {
                             Operator::Simple => {
-                                pattern.push_str("([^/]+)");
+                                pattern.push_str("([^/]+?)");
                             },
                             Operator::Reserved => {
-                                pattern.push_str("(.+)");
+                                pattern.push_str("(.+?)");
                             },
                             Operator::Fragment => {
-                                pattern.push_str("#(.+)");
+                                pattern.push_str("#(.+?)");
                             },
                             Operator::Label => {
-                                pattern.push_str(r"\.([^.]+)");
+                                pattern.push_str(r"\.([^.]+?)");
                             },
                             Operator::PathSegment => {
-                                pattern.push_str("/([^/]+)");
+                                pattern.push_str("/([^/]+?)");
                             },
                             Operator::PathParameter => {
                                 let name = &specs[0].name;
-                                write!(pattern, ";{}=([^;&]+)", regex::escape(name)).unwrap();
+                                write!(pattern, ";{}=([^;&]+?)", regex::escape(name)).unwrap();
                             },
                             Operator::Query => {
                                 let name = &specs[0].name;
-                                write!(pattern, r"\?{}=([^&]+)", regex::escape(name)).unwrap();
+                                write!(pattern, r"\?{}=([^&]+?)", regex::escape(name)).unwrap();
                             },
                             Operator::QueryContinuation => {
                                 let name = &specs[0].name;
-                                write!(pattern, "&{}=([^&]+)", regex::escape(name)).unwrap();
+                                write!(pattern, "&{}=([^&]+?)", regex::escape(name)).unwrap();
                             },
                         }
                     } else {
@@ -555,11 +555,11 @@ impl UriTemplate {
     /// Append the pattern of several variables, with one capture for each.
     fn push_multiple_pattern(pattern: &mut String, op: Operator, specs: &[VarSpec]) {
         let (first, next, value) = match op {
-            Operator::Simple => ("", ",", "([^/,]+)"),
-            Operator::Reserved => ("", ",", "(.+)"),
-            Operator::Fragment => ("#", ",", "(.+)"),
-            Operator::Label => (r"\.", r"\.", r"([^.]+)"),
-            Operator::PathSegment => ("/", "/", "([^/]+)"),
+            Operator::Simple => ("", ",", "([^/,]+?)"),
+            Operator::Reserved => ("", ",", "(.+?)"),
+            Operator::Fragment => ("#", ",", "(.+?)"),
+            Operator::Label => (r"\.", r"\.", r"([^.]+?)"),
+            Operator::PathSegment => ("/", "/", "([^/]+?)"),
             Operator::PathParameter | Operator::Query | Operator::QueryContinuation => {
                 // Named variables may be missing anywhere
                 let lead = match op {
@@ -568,7 +568,7 @@ impl UriTemplate {
                     _ => "&",
                 };
                 for spec in specs {
-                    write!(pattern, "(?:{lead}{}=([^;&]+))?", regex::escape(&spec.name)).unwrap();
+                    write!(pattern, "(?:{lead}{}=([^;&]+?))?", regex::escape(&spec.name)).unwrap();
                 }
                 return;
             },
-- 
2.43.0


From db6bf6ecfed4b92cbd3caf879b6fdefb02c1b02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:45 +0000
Subject: [PATCH 68/98] fix: send and end WebSocket client connections for real

Messages were accepted but never written, the end of the connection was not
noticed by receivers or senders, and closing did not close it.
---
 src/shared/websocket.rs | 79 +++++++++++++++++++++++++++++++----------
 1 file changed, 60 insertions(+), 19 deletions(-)

diff --git a/src/shared/websocket.rs b/src/shared/websocket.rs
index 7be0a17..a5cc42e 100644
--- a/src/shared/websocket.rs
+++ b/src/shared/websocket.rs
@@ -51,10 +51,28 @@ impl Default for WebSocketConfig {
 pub struct WebSocketTransport {
     config: WebSocketConfig,
     state: Arc<RwLock<ConnectionState>>,
-    message_tx: mpsc::Sender<TransportMessage>,
+    message_tx: Arc<RwLock<Outgoing>>,
     message_rx: Arc<AsyncMutex<mpsc::Receiver<TransportMessage>>>,
 }
 
+/// Queue of messages to the peer.
+#[derive(Debug)]
+struct Outgoing {
+    tx: mpsc::Sender<Message>,
+    /// Kept here while no connection's writer takes from the queue
+    _unconnected: Option<mpsc::Receiver<Message>>,
+}
+
+impl Outgoing {
+    fn unconnected() -> Self {
+        let (tx, rx) = mpsc::channel(100);
+        Self {
+            tx,
+            _unconnected: Some(rx),
+        }
+    }
+}
+
 #[derive(Debug)]
 enum ConnectionState {
     Disconnected,
@@ -75,11 +93,12 @@ impl std::fmt::Debug for WebSocketTransport {
 impl WebSocketTransport {
     /// Create a new WebSocket transport with the given configuration.
     pub fn new(config: WebSocketConfig) -> Self {
-        let (tx, rx) = mpsc::channel(100);
+        // Closed until there is a connection to receive from
+        let (_, rx) = mpsc::channel(1);
         Self {
             config,
             state: Arc::new(RwLock::new(ConnectionState::Disconnected)),
-            message_tx: tx,
+            message_tx: Arc::new(RwLock::new(Outgoing::unconnected())),
             message_rx: Arc::new(AsyncMutex::new(rx)),
         }
     }
@@ -138,15 +157,25 @@ impl WebSocketTransport {
             .map_err(crate::error::TransportError::from)?;
         let (sink, stream) = ws_stream.split();
 
+        let (message_tx, message_rx) = mpsc::channel(100);
+        let (write_tx, mut write_rx) = mpsc::channel::<Message>(100);
+        let connection = write_tx.downgrade();
+        *self.message_rx.lock().await = message_rx;
         {
-            let mut state = self.state.write();
-            *state = ConnectionState::Connected;
+            let mut outgoing = self.message_tx.write();
+            *outgoing = Outgoing {
+                tx: write_tx,
+                _unconnected: None,
+            };
+            *self.state.write() = ConnectionState::Connected;
         }
 
         info!("WebSocket connected");
 
         // Spawn reader task
-        let message_tx = self.message_tx.clone();
+        let outgoing = self.message_tx.clone();
+        let state = self.state.clone();
+        let reader_connection = connection.clone();
         let _reader_handle = tokio::spawn(async move {
             let mut stream = stream;
             while let Some(result) = stream.next().await {
@@ -196,10 +225,18 @@ impl WebSocketTransport {
                     },
                 }
             }
+
+            // Nothing can be sent any more either, unless on a newer connection
+            if let Some(tx) = reader_connection.upgrade() {
+                let mut outgoing = outgoing.write();
+                if outgoing.tx.same_channel(&tx) {
+                    *outgoing = Outgoing::unconnected();
+                    *state.write() = ConnectionState::Disconnected;
+                }
+            }
         });
 
         // Spawn writer task
-        let (write_tx, mut write_rx) = mpsc::channel::<Message>(100);
         let _writer_handle = tokio::spawn(async move {
             let mut sink = sink;
             while let Some(msg) = write_rx.recv().await {
@@ -208,6 +245,7 @@ impl WebSocketTransport {
                     break;
                 }
             }
+            let _ = sink.close().await;
         });
 
         // Spawn ping task if configured
@@ -216,6 +254,9 @@ impl WebSocketTransport {
                 let mut ticker = interval(ping_interval);
                 loop {
                     ticker.tick().await;
+                    let Some(write_tx) = connection.upgrade() else {
+                        break;
+                    };
                     if write_tx.send(Message::Ping(vec![].into())).await.is_err() {
                         break;
                     }
@@ -223,9 +264,6 @@ impl WebSocketTransport {
             });
         }
 
-        // Store the writer channel for sending messages
-        // This is a simplified approach - in production you'd want better state management
-
         Ok(())
     }
 }
@@ -241,17 +279,17 @@ impl Transport for WebSocketTransport {
             )))
         })?;
 
-        // In a real implementation, we'd need to store the write channel
-        // This is simplified for the example
-        match &*self.state.read() {
-            ConnectionState::Connected => {
-                debug!("Sending WebSocket message: {}", json);
-                Ok(())
-            },
-            _ => Err(crate::error::Error::Transport(
+        if !self.is_connected() {
+            return Err(crate::error::Error::Transport(
                 crate::error::TransportError::ConnectionClosed,
-            )),
+            ));
         }
+
+        debug!("Sending WebSocket message: {}", json);
+        let tx = self.message_tx.read().tx.clone();
+        tx.send(Message::Text(json.into())).await.map_err(|_| {
+            crate::error::Error::Transport(crate::error::TransportError::ConnectionClosed)
+        })
     }
 
     async fn receive(&mut self) -> Result<TransportMessage> {
@@ -269,6 +307,9 @@ impl Transport for WebSocketTransport {
 
         info!("Closing WebSocket connection");
 
+        // The writer ends the connection after sending what is queued
+        *self.message_tx.write() = Outgoing::unconnected();
+
         {
             let mut state = self.state.write();
             *state = ConnectionState::Disconnected;
-- 
2.43.0


From 0658641a95d44b84e837f754ee722914b9572892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:45 +0000
Subject: [PATCH 69/98] fix: end the WebSocket connection when the server
 transport closes it

---
 src/server/transport/websocket.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/server/transport/websocket.rs b/src/server/transport/websocket.rs
index 1f5b1b7..b4c2309 100644
--- a/src/server/transport/websocket.rs
+++ b/src/server/transport/websocket.rs
@@ -115,7 +115,11 @@ impl WebSocketServerTransport {
         tokio::spawn(async move {
             loop {
                 tokio::select! {
-                    Some(msg) = outgoing_rx.recv() => {
+                    msg = outgoing_rx.recv() => {
+                        let Some(msg) = msg else {
+                            // The transport was closed
+                            break;
+                        };
                         let json_bytes = match crate::shared::stdio::StdioTransport::serialize_message(&msg)
                         {
                             Ok(bytes) => bytes,
@@ -144,9 +148,9 @@ impl WebSocketServerTransport {
                             break;
                         }
                     }
-                    else => break,
                 }
             }
+            let _ = ws_sink.close().await;
         });
 
         // Spawn task to handle incoming messages
-- 
2.43.0


From f59a5dab97bee52250c32cb07758906fd41909b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:45 +0000
Subject: [PATCH 70/98] fix: apply the configured WebSocket server limits

---
 src/server/transport/websocket.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/server/transport/websocket.rs b/src/server/transport/websocket.rs
index b4c2309..88d23a4 100644
--- a/src/server/transport/websocket.rs
+++ b/src/server/transport/websocket.rs
@@ -8,7 +8,10 @@ use std::net::SocketAddr;
 use std::sync::Arc;
 use tokio::net::TcpListener;
 use tokio::sync::{mpsc, Mutex};
-use tokio_tungstenite::{accept_async, tungstenite::protocol::Message};
+use tokio_tungstenite::{
+    accept_async_with_config,
+    tungstenite::protocol::{Message, WebSocketConfig},
+};
 use tracing::{error, info, warn};
 
 /// Configuration for WebSocket server transport.
@@ -92,7 +95,11 @@ impl WebSocketServerTransport {
         info!("Accepting WebSocket connection from {}", peer_addr);
 
         // Accept the WebSocket handshake
-        let ws_stream = accept_async(tcp_stream)
+        let limits = WebSocketConfig::default()
+            .max_frame_size(self.config.max_frame_size)
+            .max_message_size(self.config.max_message_size)
+            .accept_unmasked_frames(self.config.accept_unmasked_frames);
+        let ws_stream = accept_async_with_config(tcp_stream, Some(limits))
             .await
             .map_err(|e| Error::internal(format!("WebSocket handshake failed: {}", e)))?;
 
-- 
2.43.0


From 2c262dae45f623672fc88dc0ae848b884a1cb1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:08 +0000
Subject: [PATCH 71/98] fix: format the URI template query pattern

---
 src/shared/uri_template.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/shared/uri_template.rs b/src/shared/uri_template.rs
index e502d86..b66c19b 100644
--- a/src/shared/uri_template.rs
+++ b/src/shared/uri_template.rs
@@ -568,7 +568,12 @@ impl UriTemplate {
                     _ => "&",
                 };
                 for spec in specs {
-                    write!(pattern, "(?:{lead}{}=([^;&]+?))?", regex::escape(&spec.name)).unwrap();
+                    write!(
+                        pattern,
+                        "(?:{lead}{}=([^;&]+?))?",
+                        regex::escape(&spec.name)
+                    )
+                    .unwrap();
                 }
                 return;
             },
-- 
2.43.0


From 4b6a5aa161405ee95d2029f5e37f6a67bb5434f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:44 +0000
Subject: [PATCH 72/98] fix: answer the WebSocket client that closes the
 connection

---
 src/server/transport/websocket.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/server/transport/websocket.rs b/src/server/transport/websocket.rs
index 88d23a4..14d6a9c 100644
--- a/src/server/transport/websocket.rs
+++ b/src/server/transport/websocket.rs
@@ -149,7 +149,12 @@ impl WebSocketServerTransport {
                             break;
                         }
                     }
-                    Some(data) = pong_rx.recv() => {
+                    data = pong_rx.recv(), if !outgoing_rx.is_closed() => {
+                        let Some(data) = data else {
+                            // The peer ended the connection
+                            outgoing_rx.close();
+                            continue;
+                        };
                         if let Err(e) = ws_sink.send(Message::Pong(data.into())).await {
                             error!("Failed to send pong: {}", e);
                             break;
-- 
2.43.0


From 27650f37ade389f8fe35095947a90f8f285bf6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:44 +0000
Subject: [PATCH 73/98] fix: apply the retry limit after the reconnection
 circuit closes too

---
 src/shared/reconnect.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/shared/reconnect.rs b/src/shared/reconnect.rs
index 4c61f29..92a1622 100644
--- a/src/shared/reconnect.rs
+++ b/src/shared/reconnect.rs
@@ -227,7 +227,7 @@ impl ReconnectManager {
                             callback();
                         }
 
-                        true
+                        self.retries_left()
                     } else {
                         false
                     }
@@ -235,17 +235,17 @@ impl ReconnectManager {
                     false
                 }
             },
-            _ => {
-                // Check retry limit
-                if let Some(max_retries) = self.config.max_retries {
-                    self.retry_count.load(Ordering::Relaxed) < max_retries
-                } else {
-                    true
-                }
-            },
+            _ => self.retries_left(),
         }
     }
 
+    /// Check the retry limit.
+    fn retries_left(&self) -> bool {
+        self.config
+            .max_retries
+            .is_none_or(|max| self.retry_count.load(Ordering::Relaxed) < max)
+    }
+
     /// Calculate next retry delay with exponential backoff and jitter.
     pub fn calculate_delay(&self) -> Duration {
         let retry_count = self.retry_count.load(Ordering::Relaxed);
-- 
2.43.0


From 9f05de2e72bee7bc9a59936534b26691694c35e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:44 +0000
Subject: [PATCH 74/98] fix: close the reconnection circuit once when several
 callers ask

---
 src/shared/reconnect.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/shared/reconnect.rs b/src/shared/reconnect.rs
index 92a1622..187757f 100644
--- a/src/shared/reconnect.rs
+++ b/src/shared/reconnect.rs
@@ -216,11 +216,11 @@ impl ReconnectManager {
             ConnectionState::Connected | ConnectionState::Connecting => false,
             ConnectionState::CircuitOpen => {
                 // Check if circuit should be closed
-                let opened_at_opt = *self.circuit_opened_at.lock().await;
-                if let Some(opened_at) = opened_at_opt {
+                let mut opened_at_opt = self.circuit_opened_at.lock().await;
+                if let Some(opened_at) = *opened_at_opt {
                     if opened_at.elapsed() >= self.config.circuit_breaker_timeout {
                         info!("Circuit breaker timeout reached, closing circuit");
-                        *self.circuit_opened_at.lock().await = None;
+                        *opened_at_opt = None;
                         *self.state.write().await = ConnectionState::Disconnected;
 
                         if let Some(callback) = &self.callbacks.on_circuit_close {
@@ -322,8 +322,10 @@ impl ReconnectManager {
         // Check circuit breaker
         if let Some(threshold) = self.config.circuit_breaker_threshold {
             if failure_count >= threshold {
+                let mut opened_at = self.circuit_opened_at.lock().await;
+                *opened_at = Some(Instant::now());
                 *self.state.write().await = ConnectionState::CircuitOpen;
-                *self.circuit_opened_at.lock().await = Some(Instant::now());
+                drop(opened_at);
 
                 warn!("Circuit breaker opened after {} failures", failure_count);
 
-- 
2.43.0


From 905ff3367aee0cbea557feaf013223ff8fe6e310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:44 +0000
Subject: [PATCH 75/98] fix: keep the reconnection circuit open when a
 connection loss is reported

---
 src/shared/reconnect.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/shared/reconnect.rs b/src/shared/reconnect.rs
index 187757f..1566f7c 100644
--- a/src/shared/reconnect.rs
+++ b/src/shared/reconnect.rs
@@ -355,7 +355,11 @@ impl ReconnectManager {
             }
         }
 
-        *self.state.write().await = ConnectionState::Disconnected;
+        let mut state = self.state.write().await;
+        if *state != ConnectionState::CircuitOpen {
+            *state = ConnectionState::Disconnected;
+        }
+        drop(state);
         info!("Connection lost");
     }
 
-- 
2.43.0


From c80016fb7057ed6e5e8fc107ad9f81390e146805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:44 +0000
Subject: [PATCH 76/98] fix: run operations behind a circuit breaker once, and
 only while it admits them

---
 src/error/recovery.rs | 55 ++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/src/error/recovery.rs b/src/error/recovery.rs
index bc438c5..12d11ca 100644
--- a/src/error/recovery.rs
+++ b/src/error/recovery.rs
@@ -464,10 +464,29 @@ impl RecoveryExecutor {
         F: Fn() -> Fut,
         Fut: Future<Output = Result<serde_json::Value>>,
     {
+        // An open circuit admits nothing
+        let breaker = self
+            .circuit_breakers
+            .read()
+            .await
+            .get(operation_id)
+            .cloned();
+        if let Some(cb) = &breaker {
+            if !cb.allow_request().await {
+                if self.policy.log_attempts {
+                    warn!("Circuit breaker open for operation: {}", operation_id);
+                }
+                return Err(Error::protocol(
+                    ErrorCode::INTERNAL_ERROR,
+                    "Circuit breaker is open",
+                ));
+            }
+        }
+
         match operation().await {
             Ok(result) => {
                 // Record success if using circuit breaker
-                if let Some(cb) = self.circuit_breakers.read().await.get(operation_id) {
+                if let Some(cb) = breaker {
                     cb.record_success().await;
                 }
                 Ok(result)
@@ -510,7 +529,6 @@ impl RecoveryExecutor {
                             *failure_threshold,
                             *success_threshold,
                             *timeout,
-                            operation,
                         )
                         .await
                     },
@@ -623,19 +641,14 @@ impl RecoveryExecutor {
         }
     }
 
-    async fn circuit_breaker<F, Fut>(
+    async fn circuit_breaker(
         &self,
-        _error: Error,
+        error: Error,
         operation_id: &str,
         failure_threshold: u32,
         success_threshold: u32,
         timeout: Duration,
-        operation: F,
-    ) -> Result<serde_json::Value>
-    where
-        F: Fn() -> Fut,
-        Fut: Future<Output = Result<serde_json::Value>>,
-    {
+    ) -> Result<serde_json::Value> {
         // Get or create circuit breaker
         let cb = {
             let mut breakers = self.circuit_breakers.write().await;
@@ -651,26 +664,8 @@ impl RecoveryExecutor {
                 .clone()
         };
 
-        if !cb.allow_request().await {
-            if self.policy.log_attempts {
-                warn!("Circuit breaker open for operation: {}", operation_id);
-            }
-            return Err(Error::protocol(
-                ErrorCode::INTERNAL_ERROR,
-                "Circuit breaker is open",
-            ));
-        }
-
-        match operation().await {
-            Ok(result) => {
-                cb.record_success().await;
-                Ok(result)
-            },
-            Err(e) => {
-                cb.record_failure().await;
-                Err(e)
-            },
-        }
+        cb.record_failure().await;
+        Err(error)
     }
 }
 
-- 
2.43.0


From f6b210b50ffd7119e689e6aae4f81c1927a96bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:44 +0000
Subject: [PATCH 77/98] fix: keep an open circuit open when an earlier request
 succeeds

---
 src/error/recovery.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/error/recovery.rs b/src/error/recovery.rs
index 12d11ca..aeaa2e9 100644
--- a/src/error/recovery.rs
+++ b/src/error/recovery.rs
@@ -377,9 +377,7 @@ impl CircuitBreaker {
                 }
             },
             CircuitState::Open => {
-                // Shouldn't happen, but reset anyway
-                *self.state.write().await = CircuitState::Closed;
-                *self.failure_count.write().await = 0;
+                // Late result of a request admitted before the circuit opened
             },
         }
     }
-- 
2.43.0


From b6952e1b875c8f91888b9420b9c275e94d1febf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:44 +0000
Subject: [PATCH 78/98] fix: decide each circuit breaker transition under one
 lock

---
 src/error/recovery.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/error/recovery.rs b/src/error/recovery.rs
index aeaa2e9..64e2dce 100644
--- a/src/error/recovery.rs
+++ b/src/error/recovery.rs
@@ -334,16 +334,16 @@ impl CircuitBreaker {
     /// # }
     /// ```
     pub async fn allow_request(&self) -> bool {
-        let state = *self.state.read().await;
+        let mut state = self.state.write().await;
 
-        match state {
+        match *state {
             CircuitState::Closed => true,
             CircuitState::Open => {
                 // Check if we should transition to half-open
                 let last_failure_opt = *self.last_failure_time.read().await;
                 if let Some(last_failure) = last_failure_opt {
                     if last_failure.elapsed() >= self.config.timeout {
-                        *self.state.write().await = CircuitState::HalfOpen;
+                        *state = CircuitState::HalfOpen;
                         *self.success_count.write().await = 0;
                         info!("Circuit breaker transitioning to half-open");
                         true
@@ -360,9 +360,9 @@ impl CircuitBreaker {
 
     /// Record a success.
     pub async fn record_success(&self) {
-        let state = *self.state.read().await;
+        let mut state = self.state.write().await;
 
-        match state {
+        match *state {
             CircuitState::Closed => {
                 *self.failure_count.write().await = 0;
             },
@@ -371,7 +371,7 @@ impl CircuitBreaker {
                 *success_count += 1;
 
                 if *success_count >= self.config.success_threshold {
-                    *self.state.write().await = CircuitState::Closed;
+                    *state = CircuitState::Closed;
                     *self.failure_count.write().await = 0;
                     info!("Circuit breaker closed after successful recovery");
                 }
@@ -384,21 +384,21 @@ impl CircuitBreaker {
 
     /// Record a failure.
     pub async fn record_failure(&self) {
-        let state = *self.state.read().await;
+        let mut state = self.state.write().await;
 
-        match state {
+        match *state {
             CircuitState::Closed => {
                 let mut failure_count = self.failure_count.write().await;
                 *failure_count += 1;
 
                 if *failure_count >= self.config.failure_threshold {
-                    *self.state.write().await = CircuitState::Open;
+                    *state = CircuitState::Open;
                     *self.last_failure_time.write().await = Some(std::time::Instant::now());
                     warn!("Circuit breaker opened after {} failures", failure_count);
                 }
             },
             CircuitState::HalfOpen => {
-                *self.state.write().await = CircuitState::Open;
+                *state = CircuitState::Open;
                 *self.last_failure_time.write().await = Some(std::time::Instant::now());
                 *self.failure_count.write().await = 1;
                 warn!("Circuit breaker reopened after failure in half-open state");
-- 
2.43.0


From 314836802fc49d952698d914fcbd8b18dde36fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:44 +0000
Subject: [PATCH 79/98] fix: use each refresh token at most once

---
 src/server/auth/oauth2.rs | 38 +++++++++++++-------------------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/src/server/auth/oauth2.rs b/src/server/auth/oauth2.rs
index da623e3..81415f8 100644
--- a/src/server/auth/oauth2.rs
+++ b/src/server/auth/oauth2.rs
@@ -640,37 +640,25 @@ impl OAuthProvider for InMemoryOAuthProvider {
     }
 
     async fn refresh_token(&self, refresh_token: &str) -> Result<AccessToken> {
-        // Get associated access token
-        let refresh_tokens = self.refresh_tokens.read().await;
-        let old_token = refresh_tokens
-            .get(refresh_token)
-            .ok_or_else(|| Error::protocol(ErrorCode::INVALID_REQUEST, "Invalid refresh_token"))?
-            .clone();
-
-        // Get token info
-        let tokens = self.tokens.read().await;
-        let token_info = tokens
-            .get(&old_token)
-            .ok_or_else(|| Error::protocol(ErrorCode::INVALID_REQUEST, "Invalid refresh_token"))?;
+        // Remove the refresh token together with the access token it belongs to
+        let mut tokens = self.tokens.write().await;
+        let mut refresh_tokens = self.refresh_tokens.write().await;
 
-        let client_id = token_info.client_id.clone();
-        let user_id = token_info.user_id.clone();
-        let scopes = token_info.scopes.clone();
+        let token_info = refresh_tokens
+            .remove(refresh_token)
+            .and_then(|old_token| tokens.remove(&old_token))
+            .ok_or_else(|| Error::protocol(ErrorCode::INVALID_REQUEST, "Invalid refresh_token"))?;
 
-        drop(tokens);
         drop(refresh_tokens);
-
-        // Remove old tokens
-        let mut tokens = self.tokens.write().await;
-        tokens.remove(&old_token);
         drop(tokens);
 
-        let mut refresh_tokens = self.refresh_tokens.write().await;
-        refresh_tokens.remove(refresh_token);
-        drop(refresh_tokens);
-
         // Create new token
-        self.create_access_token(&client_id, &user_id, scopes).await
+        self.create_access_token(
+            &token_info.client_id,
+            &token_info.user_id,
+            token_info.scopes,
+        )
+        .await
     }
 
     async fn revoke_token(&self, token: &str) -> Result<()> {
-- 
2.43.0


From 7a71c9028ac2700ad262f5e711ce8de35840cdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:44 +0000
Subject: [PATCH 80/98] fix: take the OAuth token locks in one order

---
 src/server/auth/oauth2.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/server/auth/oauth2.rs b/src/server/auth/oauth2.rs
index 81415f8..6b213b1 100644
--- a/src/server/auth/oauth2.rs
+++ b/src/server/auth/oauth2.rs
@@ -667,12 +667,10 @@ impl OAuthProvider for InMemoryOAuthProvider {
         if tokens.remove(token).is_some() {
             return Ok(());
         }
-        drop(tokens);
 
         // Try to revoke as refresh token
         let mut refresh_tokens = self.refresh_tokens.write().await;
         if let Some(access_token) = refresh_tokens.remove(token) {
-            let mut tokens = self.tokens.write().await;
             tokens.remove(&access_token);
         }
 
-- 
2.43.0


From cbeb1fea290ca7710fe9655a30721017769f3ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:44 +0000
Subject: [PATCH 81/98] fix: refuse a wrong client secret when exchanging a
 code

---
 src/server/auth/oauth2.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/server/auth/oauth2.rs b/src/server/auth/oauth2.rs
index 6b213b1..17a6f79 100644
--- a/src/server/auth/oauth2.rs
+++ b/src/server/auth/oauth2.rs
@@ -566,6 +566,17 @@ impl OAuthProvider for InMemoryOAuthProvider {
             ));
         }
 
+        // Validate the client secret if one is presented
+        if let Some(secret) = &request.client_secret {
+            let client = self.get_client(client_id).await?;
+            if client.and_then(|c| c.client_secret).as_ref() != Some(secret) {
+                return Err(Error::protocol(
+                    ErrorCode::INVALID_REQUEST,
+                    "Invalid client_secret",
+                ));
+            }
+        }
+
         // Validate redirect URI
         let redirect_uri = request
             .redirect_uri
-- 
2.43.0


From 3bc821f045e1b6b9b7c9602cf27c0cf157af92d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:44 +0000
Subject: [PATCH 82/98] fix: limit authorization requests to the scopes allowed
 for the client

---
 src/server/auth/oauth2.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/auth/oauth2.rs b/src/server/auth/oauth2.rs
index 17a6f79..da15c25 100644
--- a/src/server/auth/oauth2.rs
+++ b/src/server/auth/oauth2.rs
@@ -491,7 +491,8 @@ impl OAuthProvider for InMemoryOAuthProvider {
         // Validate scopes
         let requested_scopes: Vec<&str> = request.scope.split_whitespace().collect();
         for scope in &requested_scopes {
-            if !self.supported_scopes.iter().any(|s| s == scope) {
+            let allowed = client.scopes.is_empty() || client.scopes.iter().any(|s| s == scope);
+            if !allowed || !self.supported_scopes.iter().any(|s| s == scope) {
                 return Err(Error::protocol(ErrorCode::INVALID_REQUEST, "Invalid scope"));
             }
         }
-- 
2.43.0


From 4288de22b8073c809dbbb104e43aa39c9092c63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:49 +0000
Subject: [PATCH 83/98] fix: deliver what was sent before the WebSocket server
 transport closes

---
 src/server/transport/websocket.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/server/transport/websocket.rs b/src/server/transport/websocket.rs
index 14d6a9c..15eee7e 100644
--- a/src/server/transport/websocket.rs
+++ b/src/server/transport/websocket.rs
@@ -12,7 +12,7 @@ use tokio_tungstenite::{
     accept_async_with_config,
     tungstenite::protocol::{Message, WebSocketConfig},
 };
-use tracing::{error, info, warn};
+use tracing::{debug, error, info, warn};
 
 /// Configuration for WebSocket server transport.
 #[derive(Debug, Clone)]
@@ -172,9 +172,10 @@ impl WebSocketServerTransport {
                     Ok(Message::Text(text)) => {
                         match crate::shared::stdio::StdioTransport::parse_message(text.as_bytes()) {
                             Ok(msg) => {
+                                // Read on until the peer ends the connection too: dropping
+                                // it early would lose what the peer has not received yet
                                 if let Err(e) = incoming_tx.send(msg).await {
-                                    error!("Failed to queue incoming message: {}", e);
-                                    break;
+                                    debug!("Discarding incoming message: {}", e);
                                 }
                             },
                             Err(e) => {
@@ -192,8 +193,7 @@ impl WebSocketServerTransport {
                     Ok(Message::Ping(data)) => {
                         // Queue pong response
                         if let Err(e) = pong_tx.send(data.to_vec()).await {
-                            error!("Failed to queue pong: {}", e);
-                            break;
+                            debug!("Discarding pong: {}", e);
                         }
                     },
                     Ok(_) => {
-- 
2.43.0


From d0bab5e837ce2df1d5c9d316be7989fd93719164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:07 +0000
Subject: [PATCH 84/98] fix: never wait in the WebSocket server transport's
 is_connected

---
 src/server/transport/websocket.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/transport/websocket.rs b/src/server/transport/websocket.rs
index 15eee7e..b19c369 100644
--- a/src/server/transport/websocket.rs
+++ b/src/server/transport/websocket.rs
@@ -256,8 +256,8 @@ impl Transport for WebSocketServerTransport {
     }
 
     fn is_connected(&self) -> bool {
-        // Check if we have active channels
-        futures::executor::block_on(async { self.outgoing_tx.lock().await.is_some() })
+        // Check if we have active channels; only a connection in use is locked
+        self.outgoing_tx.try_lock().map_or(true, |tx| tx.is_some())
     }
 
     fn transport_type(&self) -> &'static str {
-- 
2.43.0


From 425531b518c924f8e3ce52167f6c29ac289c5879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:54 +0000
Subject: [PATCH 85/98] fix: complete file names after the last separator of
 the partial text

---
 src/types/completable.rs | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/src/types/completable.rs b/src/types/completable.rs
index fd9b7d1..22eb8ce 100644
--- a/src/types/completable.rs
+++ b/src/types/completable.rs
@@ -307,25 +307,19 @@ impl CompletionProviderTrait for FileCompletionProvider {
     ) -> crate::error::Result<CompletionResponse> {
         use std::path::Path;
 
-        let partial_path = Path::new(&request.partial);
-        let (dir_path, file_prefix) = if request.partial.ends_with(std::path::MAIN_SEPARATOR) {
-            (partial_path, "")
-        } else {
-            (
-                partial_path.parent().unwrap_or_else(|| Path::new(".")),
-                partial_path
-                    .file_name()
-                    .and_then(|s| s.to_str())
-                    .unwrap_or(""),
-            )
+        // What follows the last separator begins a name, also if it is "." or ".."
+        let (dir, file_prefix) = match request.partial.rfind(std::path::is_separator) {
+            Some(at) => request.partial.split_at(at + 1),
+            None => ("", request.partial.as_str()),
         };
+        let dir_path = Path::new(dir);
 
         let search_dir = if dir_path.is_absolute() {
             dir_path.to_path_buf()
         } else if let Some(base) = &self.base_dir {
             base.join(dir_path)
         } else {
-            dir_path.to_path_buf()
+            Path::new(".").join(dir_path)
         };
 
         let mut completions = Vec::new();
@@ -350,11 +344,7 @@ impl CompletionProviderTrait for FileCompletionProvider {
                             }
                         }
 
-                        let value = if request.partial.is_empty() {
-                            name.to_string()
-                        } else {
-                            dir_path.join(name).to_string_lossy().to_string()
-                        };
+                        let value = dir_path.join(name).to_string_lossy().to_string();
 
                         completions.push(CompletionItem {
                             value,
-- 
2.43.0


From 1fdf522ec3c182c2fbe38481d0edaaf64f42a7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:54 +0000
Subject: [PATCH 86/98] fix: report every file of a burst of changes

---
 src/server/resource_watcher.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/resource_watcher.rs b/src/server/resource_watcher.rs
index 7866e79..5a7b907 100644
--- a/src/server/resource_watcher.rs
+++ b/src/server/resource_watcher.rs
@@ -289,7 +289,8 @@ impl ResourceWatcher {
             let mut watcher = RecommendedWatcher::new(
                 move |res| {
                     if let Ok(event) = res {
-                        let _ = tx.try_send(event);
+                        // Called on the watcher's own thread: wait rather than lose changes
+                        let _ = tx.blocking_send(event);
                     }
                 },
                 Config::default(),
-- 
2.43.0


From 06aa7b840502ecdbd0cd78f2df276e5d53f74795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:54 +0000
Subject: [PATCH 87/98] fix: allow registering resources while an update waits
 to be taken

---
 src/server/resource_watcher.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/resource_watcher.rs b/src/server/resource_watcher.rs
index 5a7b907..e1294ac 100644
--- a/src/server/resource_watcher.rs
+++ b/src/server/resource_watcher.rs
@@ -147,8 +147,8 @@ async fn process_events(
         for (path, kind) in events_to_process {
             let uri = format!("file://{}", path.display());
 
-            let resources = resources.read().await;
-            if resources.contains_key(&uri) {
+            let watched = resources.read().await.contains_key(&uri);
+            if watched {
                 debug!("Resource {:?} changed: {}", kind, uri);
 
                 // Send resource update notification
-- 
2.43.0


From 420da727d8cf734fb6bf9ee4c8a46ade3258e345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:54 +0000
Subject: [PATCH 88/98] fix: watch the directory when ResourceWatcher::start
 returns, or fail

---
 src/server/resource_watcher.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/server/resource_watcher.rs b/src/server/resource_watcher.rs
index e1294ac..d6c38f4 100644
--- a/src/server/resource_watcher.rs
+++ b/src/server/resource_watcher.rs
@@ -6,7 +6,7 @@ use std::collections::HashMap;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 use std::time::Duration;
-use tokio::sync::{mpsc, RwLock};
+use tokio::sync::{mpsc, oneshot, RwLock};
 use tokio::time::{interval, Instant};
 use tracing::{debug, error, info, warn};
 
@@ -201,6 +201,7 @@ impl ResourceWatcher {
 
         // Spawn file watcher task
         let event_tx_clone = event_tx.clone();
+        let (ready_tx, ready_rx) = oneshot::channel();
         tokio::spawn(async move {
             if let Err(e) = Self::watch_filesystem(
                 base_dir,
@@ -208,12 +209,16 @@ impl ResourceWatcher {
                 ignore_patterns,
                 event_tx_clone,
                 &mut shutdown_rx,
+                ready_tx,
             )
             .await
             {
                 error!("File system watcher error: {}", e);
             }
         });
+        ready_rx
+            .await
+            .map_err(|_| Error::internal("Failed to start file system watcher"))?;
 
         // Start event processor
         let resources = self.resources.clone();
@@ -278,6 +283,7 @@ impl ResourceWatcher {
         ignore_patterns: Vec<String>,
         event_tx: mpsc::Sender<FileEvent>,
         shutdown_rx: &mut mpsc::Receiver<()>,
+        ready_tx: oneshot::Sender<()>,
     ) -> Result<()> {
         #[cfg(feature = "resource-watcher")]
         {
@@ -311,6 +317,7 @@ impl ResourceWatcher {
                         format!("Failed to watch directory: {}", e),
                     )
                 })?;
+            let _ = ready_tx.send(());
 
             loop {
                 tokio::select! {
@@ -353,6 +360,7 @@ impl ResourceWatcher {
         #[cfg(not(feature = "resource-watcher"))]
         {
             warn!("Resource watching is not enabled (requires 'resource-watcher' feature)");
+            let _ = ready_tx.send(());
             Ok(())
         }
     }
-- 
2.43.0


From f503b3fa04daad6a16e6c865869b88e55b8ff191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:54 +0000
Subject: [PATCH 89/98] fix: end the event processing of a stopped resource
 watcher

---
 src/server/resource_watcher.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/server/resource_watcher.rs b/src/server/resource_watcher.rs
index d6c38f4..a1cd0d6 100644
--- a/src/server/resource_watcher.rs
+++ b/src/server/resource_watcher.rs
@@ -120,10 +120,19 @@ async fn process_events(
         timer.tick().await;
 
         // Check for new events
+        let mut stopped = false;
         if let Some(rx) = &mut *event_rx.write().await {
-            while let Ok(event) = rx.try_recv() {
-                let mut pending = pending_events.write().await;
-                pending.insert(event.path.clone(), event);
+            loop {
+                match rx.try_recv() {
+                    Ok(event) => {
+                        let mut pending = pending_events.write().await;
+                        pending.insert(event.path.clone(), event);
+                    },
+                    Err(e) => {
+                        stopped = e == mpsc::error::TryRecvError::Disconnected;
+                        break;
+                    },
+                }
             }
         }
 
@@ -161,6 +170,10 @@ async fn process_events(
                 }
             }
         }
+
+        if stopped && pending_events.read().await.is_empty() {
+            break;
+        }
     }
 }
 
-- 
2.43.0


From 282d6c926dadaf5e10e3d98c22e1d4322e4080e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:23 +0000
Subject: [PATCH 90/98] fix: fail instead of panicking when logging is
 initialized again

---
 src/shared/logging.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/logging.rs b/src/shared/logging.rs
index 0cb9958..301db39 100644
--- a/src/shared/logging.rs
+++ b/src/shared/logging.rs
@@ -186,7 +186,7 @@ pub fn init_logging(config: LogConfig) -> Result<(), Box<dyn std::error::Error>>
         .with(env_filter)
         .with(fmt_layer)
         .with(CorrelationLayer::new(config))
-        .init();
+        .try_init()?;
 
     Ok(())
 }
-- 
2.43.0


From 902c7ea397de5f4d0fa5295181d3958ac94ee48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:23 +0000
Subject: [PATCH 91/98] fix: write logs to standard error, not into the stdio
 transport's stream

---
 src/shared/logging.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/shared/logging.rs b/src/shared/logging.rs
index 301db39..6752f59 100644
--- a/src/shared/logging.rs
+++ b/src/shared/logging.rs
@@ -171,7 +171,9 @@ pub fn init_logging(config: LogConfig) -> Result<(), Box<dyn std::error::Error>>
         LogLevel::Error => EnvFilter::new("error"),
     };
 
+    // Standard output belongs to the stdio transport
     let fmt_layer = tracing_subscriber::fmt::layer()
+        .with_writer(std::io::stderr)
         .with_target(config.source_location)
         .with_thread_ids(true)
         .with_thread_names(true);
-- 
2.43.0


From 375cc326fd84d8880564d41543d9bf1ca6b57882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:23 +0000
Subject: [PATCH 92/98] fix: write timestamps and source locations to the log
 as configured

---
 src/shared/logging.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/shared/logging.rs b/src/shared/logging.rs
index 6752f59..73088c3 100644
--- a/src/shared/logging.rs
+++ b/src/shared/logging.rs
@@ -174,14 +174,27 @@ pub fn init_logging(config: LogConfig) -> Result<(), Box<dyn std::error::Error>>
     // Standard output belongs to the stdio transport
     let fmt_layer = tracing_subscriber::fmt::layer()
         .with_writer(std::io::stderr)
-        .with_target(config.source_location)
         .with_thread_ids(true)
         .with_thread_names(true);
 
+    macro_rules! configured {
+        ($layer:expr) => {{
+            let layer = $layer
+                .with_target(config.source_location)
+                .with_file(config.source_location)
+                .with_line_number(config.source_location);
+            if config.timestamps {
+                layer.boxed()
+            } else {
+                layer.without_time().boxed()
+            }
+        }};
+    }
+
     let fmt_layer = match config.format {
-        LogFormat::Json => fmt_layer.with_ansi(false).boxed(),
-        LogFormat::Pretty => fmt_layer.pretty().boxed(),
-        LogFormat::Compact => fmt_layer.compact().boxed(),
+        LogFormat::Json => configured!(fmt_layer.with_ansi(false)),
+        LogFormat::Pretty => configured!(fmt_layer.pretty()),
+        LogFormat::Compact => configured!(fmt_layer.compact()),
     };
 
     tracing_subscriber::registry()
-- 
2.43.0


From 0fc44de76c57b3121831982a163d880c0db160d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:33 +0000
Subject: [PATCH 93/98] fix: keep the average batch time usable after an empty
 batch

---
 src/utils/parallel_batch.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/parallel_batch.rs b/src/utils/parallel_batch.rs
index cf03980..5cb6350 100644
--- a/src/utils/parallel_batch.rs
+++ b/src/utils/parallel_batch.rs
@@ -436,7 +436,9 @@ impl BatchProcessor {
             (metrics.total_requests - request_count) as f64,
             processing_time_ms as f64,
         );
-        metrics.avg_processing_time_ms = total_time / metrics.total_requests as f64;
+        if metrics.total_requests > 0 {
+            metrics.avg_processing_time_ms = total_time / metrics.total_requests as f64;
+        }
 
         Ok(responses)
     }
-- 
2.43.0


From 5a932887e7c4c432f1bed26fac01f0220941b8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:49 +0000
Subject: [PATCH 94/98] fix: keep tracking a cancelled client request, whose
 response may still arrive

---
 src/client/mod.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index b706b1a..f8bad56 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -1218,12 +1218,8 @@ impl<T: Transport> Client<T> {
         }))
         .await?;
 
-        // Cancel any local tracking
-        let sender = self.active_requests.write().await.remove(request_id);
-        if let Some(sender) = sender {
-            let _ = sender.send(());
-        }
-
+        // The request stays tracked: its response may still arrive, and must not be taken for
+        // the response to a later request
         Ok(())
     }
 
-- 
2.43.0


From ce2a04ad4f247881995f0a7761564734fb59839c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:36 +0000
Subject: [PATCH 95/98] fix: forget elicitations whose caller has gone

---
 src/server/elicitation.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/server/elicitation.rs b/src/server/elicitation.rs
index 74f9b96..767ef7c 100644
--- a/src/server/elicitation.rs
+++ b/src/server/elicitation.rs
@@ -61,6 +61,8 @@ impl ElicitationManager {
         // Store pending request
         {
             let mut pending = self.pending.write().await;
+            // One whose caller has gone is no longer pending
+            pending.retain(|_, tx| !tx.is_closed());
             if pending.contains_key(&request.elicitation_id) {
                 return Err(Error::protocol(
                     ErrorCode::INVALID_REQUEST,
@@ -101,12 +103,12 @@ impl ElicitationManager {
             },
             Ok(Err(e)) => {
                 // Remove from pending on send error
-                self.pending.write().await.remove(&elicitation_id);
+                self.pending.write().await.retain(|_, tx| !tx.is_closed());
                 Err(e)
             },
             Err(_) => {
                 warn!("Elicitation timeout: {}", elicitation_id);
-                self.pending.write().await.remove(&elicitation_id);
+                self.pending.write().await.retain(|_, tx| !tx.is_closed());
                 Err(Error::protocol(
                     ErrorCode::REQUEST_TIMEOUT,
                     "Elicitation request timed out",
@@ -179,7 +181,8 @@ impl ElicitationManager {
 
     /// Get the number of pending elicitation requests.
     pub async fn pending_count(&self) -> usize {
-        self.pending.read().await.len()
+        let pending = self.pending.read().await;
+        pending.values().filter(|tx| !tx.is_closed()).count()
     }
 }
 
-- 
2.43.0


From 5e8d63046a2f61c16cd819bc57a692fc32d1769e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:15 +0000
Subject: [PATCH 96/98] fix: an HTTP transport is connected as soon as its
 event stream is, and not again after closing

---
 src/shared/http.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/shared/http.rs b/src/shared/http.rs
index 7b609da..47d2d29 100644
--- a/src/shared/http.rs
+++ b/src/shared/http.rs
@@ -130,9 +130,10 @@ impl HttpTransport {
             let message_tx = self.message_tx.clone();
             let connected = self.connected.clone();
 
-            tokio::spawn(async move {
-                *connected.write() = true;
+            // Before the reader runs, which may be after the transport is closed again
+            *connected.write() = true;
 
+            tokio::spawn(async move {
                 let mut body = response.into_body();
                 let mut sse_parser = SseParser::new();
 
-- 
2.43.0


From 68800f13a824dc24ecbba9d2d7744a789cccd6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:48 +0000
Subject: [PATCH 97/98] fix: accept request metadata on methods without
 parameters

---
 src/shared/protocol_helpers.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shared/protocol_helpers.rs b/src/shared/protocol_helpers.rs
index de30b34..b4c2179 100644
--- a/src/shared/protocol_helpers.rs
+++ b/src/shared/protocol_helpers.rs
@@ -104,6 +104,8 @@ pub fn create_notification(notification: Notification) -> JSONRPCNotification<Va
 // Helper functions for parsing
 
 /// Decode an adjacently tagged message, treating absent (or null) and empty parameters alike.
+///
+/// Any message may carry metadata (`_meta`), also one that takes no parameters of its own.
 fn parse_message<T: serde::de::DeserializeOwned>(
     method: &str,
     params: &Value,
@@ -122,7 +124,7 @@ fn parse_message<T: serde::de::DeserializeOwned>(
 
     match params {
         Value::Null => parse(&Value::Object(serde_json::Map::new())).or(result),
-        Value::Object(map) if map.is_empty() => parse(&Value::Null).or(result),
+        Value::Object(_) => parse(&Value::Null).or(result),
         _ => result,
     }
 }
-- 
2.43.0


From 77fc097e86e1fe59bb4a51cac0dc8444d3793920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:19 +0000
Subject: [PATCH 98/98] fix: end the WebSocket connection when its client
 transport is dropped

---
 src/shared/websocket.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/shared/websocket.rs b/src/shared/websocket.rs
index a5cc42e..827c5eb 100644
--- a/src/shared/websocket.rs
+++ b/src/shared/websocket.rs
@@ -173,7 +173,7 @@ impl WebSocketTransport {
         info!("WebSocket connected");
 
         // Spawn reader task
-        let outgoing = self.message_tx.clone();
+        let outgoing = Arc::downgrade(&self.message_tx);
         let state = self.state.clone();
         let reader_connection = connection.clone();
         let _reader_handle = tokio::spawn(async move {
@@ -188,9 +188,11 @@ impl WebSocketTransport {
                                     text.as_bytes(),
                                 ) {
                                     Ok(msg) => {
+                                        // Read on until the peer ends the connection too:
+                                        // dropping it early would lose what the peer has
+                                        // not received yet
                                         if message_tx.send(msg).await.is_err() {
-                                            error!("Failed to send message to channel");
-                                            break;
+                                            debug!("Discarding incoming message");
                                         }
                                     },
                                     Err(e) => {
@@ -227,7 +229,7 @@ impl WebSocketTransport {
             }
 
             // Nothing can be sent any more either, unless on a newer connection
-            if let Some(tx) = reader_connection.upgrade() {
+            if let (Some(tx), Some(outgoing)) = (reader_connection.upgrade(), outgoing.upgrade()) {
                 let mut outgoing = outgoing.write();
                 if outgoing.tx.same_channel(&tx) {
                     *outgoing = Outgoing::unconnected();
-- 
2.43.0

