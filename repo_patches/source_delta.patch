From 0da55dbf562043f24963768c98196689c8bf588f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:33 +0000
Subject: [PATCH 01/17] fix: import WorkspaceDiagnosticRefresh in
 Client::workspace_diagnostic_refresh

The type only exists in lsp_types::request for the lsp-types versions Cargo
can select, so the crate did not compile.
---
 src/service/client.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/service/client.rs b/src/service/client.rs
index dd7e843..41bfe02 100644
--- a/src/service/client.rs
+++ b/src/service/client.rs
@@ -347,6 +347,7 @@ impl Client {
     ///
     /// This request was introduced in specification version 3.17.0.
     pub async fn workspace_diagnostic_refresh(&self) -> jsonrpc::Result<()> {
+        use lsp_types::request::WorkspaceDiagnosticRefresh;
         self.send_request::<WorkspaceDiagnosticRefresh>(()).await
     }
 
-- 
2.43.0


From 4e2b23732f1feab284b12c89a4fcead5415fe0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:23 +0000
Subject: [PATCH 02/17] fix: ignore late responses to abandoned client requests
 instead of panicking

---
 src/service/client/pending.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/service/client/pending.rs b/src/service/client/pending.rs
index af7ad06..e8a1941 100644
--- a/src/service/client/pending.rs
+++ b/src/service/client/pending.rs
@@ -32,7 +32,9 @@ impl Pending {
                         _ => entry.get_mut().remove(0),
                     };
 
-                    tx.send(r).expect("receiver already dropped");
+                    if let Err(r) = tx.send(r) {
+                        warn!("received response for abandoned request ID: {}", r.id());
+                    }
                 }
             },
         }
-- 
2.43.0


From 0f2be6b865793edfdd2e6bfc28c72662d4c9ba07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:55 +0000
Subject: [PATCH 03/17] fix: decode messages buffered behind a zero-length
 message

---
 src/codec.rs | 46 +++++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/codec.rs b/src/codec.rs
index 7d1d896..ae440dd 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -167,29 +167,34 @@ impl<T: DeserializeOwned> Decoder for LanguageServerCodec<T> {
     type Error = ParseError;
 
     fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
-        if let Some(content_len) = self.content_len {
-            if src.len() < content_len {
-                return Ok(None);
-            }
+        loop {
+            if let Some(content_len) = self.content_len {
+                if src.len() < content_len {
+                    return Ok(None);
+                }
 
-            let bytes = &src[..content_len];
-            let message = std::str::from_utf8(bytes)?;
+                let bytes = &src[..content_len];
+                let message = std::str::from_utf8(bytes)?;
 
-            let result = if message.is_empty() {
-                Ok(None)
-            } else {
-                trace!("<- {}", message);
-                match serde_json::from_str(message) {
-                    Ok(parsed) => Ok(Some(parsed)),
-                    Err(err) => Err(err.into()),
-                }
-            };
+                let result = if message.is_empty() {
+                    Ok(None)
+                } else {
+                    trace!("<- {}", message);
+                    match serde_json::from_str(message) {
+                        Ok(parsed) => Ok(Some(parsed)),
+                        Err(err) => Err(err.into()),
+                    }
+                };
+
+                src.advance(content_len);
+                self.content_len = None; // Reset state in preparation for parsing next message.
 
-            src.advance(content_len);
-            self.content_len = None; // Reset state in preparation for parsing next message.
+                match result {
+                    Ok(None) => continue, // Empty message, the next one may be buffered already.
+                    result => return result,
+                }
+            }
 
-            result
-        } else {
             let mut dst = [httparse::EMPTY_HEADER; 2];
 
             let (headers_len, headers) = match httparse::parse_headers(src, &mut dst)? {
@@ -201,7 +206,6 @@ impl<T: DeserializeOwned> Decoder for LanguageServerCodec<T> {
                 Ok(content_len) => {
                     src.advance(headers_len);
                     self.content_len = Some(content_len);
-                    self.decode(src) // Recurse right back in, now that `Content-Length` is known.
                 }
                 Err(err) => {
                     match err {
@@ -211,7 +215,7 @@ impl<T: DeserializeOwned> Decoder for LanguageServerCodec<T> {
 
                     // Skip any garbage bytes by scanning ahead for another potential message.
                     src.advance(memmem::find(src, b"Content-Length").unwrap_or_default());
-                    Err(err)
+                    return Err(err);
                 }
             }
         }
-- 
2.43.0


From 76328987020aff34eaaeb8e7334af8626d41cfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:55 +0000
Subject: [PATCH 04/17] fix: always skip malformed input when decoding, so that
 later messages are read

---
 src/codec.rs | 52 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/src/codec.rs b/src/codec.rs
index ae440dd..f3c31c0 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -173,17 +173,16 @@ impl<T: DeserializeOwned> Decoder for LanguageServerCodec<T> {
                     return Ok(None);
                 }
 
-                let bytes = &src[..content_len];
-                let message = std::str::from_utf8(bytes)?;
-
-                let result = if message.is_empty() {
-                    Ok(None)
-                } else {
-                    trace!("<- {}", message);
-                    match serde_json::from_str(message) {
-                        Ok(parsed) => Ok(Some(parsed)),
-                        Err(err) => Err(err.into()),
+                let result = match std::str::from_utf8(&src[..content_len]) {
+                    Ok("") => Ok(None),
+                    Ok(message) => {
+                        trace!("<- {}", message);
+                        match serde_json::from_str(message) {
+                            Ok(parsed) => Ok(Some(parsed)),
+                            Err(err) => Err(err.into()),
+                        }
                     }
+                    Err(err) => Err(err.into()),
                 };
 
                 src.advance(content_len);
@@ -197,9 +196,13 @@ impl<T: DeserializeOwned> Decoder for LanguageServerCodec<T> {
 
             let mut dst = [httparse::EMPTY_HEADER; 2];
 
-            let (headers_len, headers) = match httparse::parse_headers(src, &mut dst)? {
-                httparse::Status::Complete(output) => output,
-                httparse::Status::Partial => return Ok(None),
+            let (headers_len, headers) = match httparse::parse_headers(src, &mut dst) {
+                Ok(httparse::Status::Complete(output)) => output,
+                Ok(httparse::Status::Partial) => return Ok(None),
+                Err(err) => {
+                    skip_garbage(src, 1);
+                    return Err(err.into());
+                }
             };
 
             match decode_headers(headers) {
@@ -209,12 +212,10 @@ impl<T: DeserializeOwned> Decoder for LanguageServerCodec<T> {
                 }
                 Err(err) => {
                     match err {
-                        ParseError::MissingContentLength => {}
-                        _ => src.advance(headers_len),
+                        ParseError::MissingContentLength => skip_garbage(src, 1),
+                        _ => skip_garbage(src, headers_len),
                     }
 
-                    // Skip any garbage bytes by scanning ahead for another potential message.
-                    src.advance(memmem::find(src, b"Content-Length").unwrap_or_default());
                     return Err(err);
                 }
             }
@@ -222,6 +223,23 @@ impl<T: DeserializeOwned> Decoder for LanguageServerCodec<T> {
     }
 }
 
+/// Skips the first `start` bytes of `src` together with any garbage that follows, by scanning
+/// ahead for another potential message.
+fn skip_garbage(src: &mut BytesMut, start: usize) {
+    const HEADER: &[u8] = b"Content-Length";
+
+    src.advance(start);
+
+    let garbage_len = memmem::find(src, HEADER).unwrap_or_else(|| {
+        // The next message may have been received only in part, so keep its first few bytes.
+        let max_len = src.len().min(HEADER.len() - 1);
+        let partial_len = (1..=max_len).rev().find(|&n| src.ends_with(&HEADER[..n]));
+        src.len() - partial_len.unwrap_or(0)
+    });
+
+    src.advance(garbage_len);
+}
+
 fn decode_headers(headers: &[httparse::Header<'_>]) -> Result<usize, ParseError> {
     let mut content_len = None;
 
-- 
2.43.0


From 46bf963a6f9de93d4ce05a39cbec493bfdbd769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 05/17] fix: keep serving after a malformed message instead of
 stopping at the first one

---
 src/codec.rs     | 17 +++++++++++++++++
 src/transport.rs | 25 +++++++++++--------------
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/codec.rs b/src/codec.rs
index f3c31c0..af8b273 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -223,6 +223,23 @@ impl<T: DeserializeOwned> Decoder for LanguageServerCodec<T> {
     }
 }
 
+/// Decoder adapter which reports malformed messages as ordinary items instead of errors.
+///
+/// `FramedRead` terminates its stream on the first decoding error, but a server is expected to
+/// answer a malformed message and then resume processing the messages that follow it.
+pub struct Recoverable<D>(pub D);
+
+impl<D: Decoder> Decoder for Recoverable<D> {
+    type Item = Result<D::Item, D::Error>;
+    type Error = D::Error;
+
+    fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
+        self.0
+            .decode(src)
+            .map_or_else(|e| Ok(Some(Err(e))), |msg| Ok(msg.map(Ok)))
+    }
+}
+
 /// Skips the first `start` bytes of `src` together with any garbage that follows, by scanning
 /// ahead for another potential message.
 fn skip_garbage(src: &mut BytesMut, start: usize) {
diff --git a/src/transport.rs b/src/transport.rs
index a8bda1d..85cf16e 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -15,7 +15,7 @@ use futures::{future, join, stream, FutureExt, Sink, SinkExt, Stream, StreamExt,
 use tower::Service;
 use tracing::error;
 
-use crate::codec::{LanguageServerCodec, ParseError};
+use crate::codec::{LanguageServerCodec, ParseError, Recoverable};
 use crate::jsonrpc::{Error, Id, Message, Request, Response};
 use crate::service::{ClientSocket, RequestStream, ResponseSink};
 
@@ -110,7 +110,8 @@ where
         let (mut responses_tx, responses_rx) = mpsc::channel(0);
         let (mut server_tasks_tx, server_tasks_rx) = mpsc::channel(MESSAGE_QUEUE_SIZE);
 
-        let mut framed_stdin = FramedRead::new(self.stdin, LanguageServerCodec::default());
+        let decoder = Recoverable(LanguageServerCodec::default());
+        let mut framed_stdin = FramedRead::new(self.stdin, decoder);
         let framed_stdout = FramedWrite::new(self.stdout, LanguageServerCodec::default());
 
         let process_server_tasks = server_tasks_rx
@@ -128,7 +129,7 @@ where
         let read_input = async {
             while let Some(msg) = framed_stdin.next().await {
                 match msg {
-                    Ok(Message::Request(req)) => {
+                    Ok(Ok(Message::Request(req))) => {
                         if let Err(err) = future::poll_fn(|cx| service.poll_ready(cx)).await {
                             error!("{}", display_sources(err.into().as_ref()));
                             return;
@@ -141,17 +142,22 @@ where
 
                         server_tasks_tx.send(fut).await.unwrap();
                     }
-                    Ok(Message::Response(res)) => {
+                    Ok(Ok(Message::Response(res))) => {
                         if let Err(err) = client_responses.send(res).await {
                             error!("{}", display_sources(&err));
                             return;
                         }
                     }
-                    Err(err) => {
+                    Ok(Err(err)) => {
                         error!("failed to decode message: {}", err);
                         let res = Response::from_error(Id::Null, to_jsonrpc_error(err));
                         responses_tx.send(Message::Response(res)).await.unwrap();
                     }
+                    Err(err) => {
+                        error!("failed to read message: {}", err);
+                        let res = Response::from_error(Id::Null, Error::parse_error());
+                        responses_tx.send(Message::Response(res)).await.unwrap();
+                    }
                 }
             }
 
@@ -172,7 +178,6 @@ fn display_sources(error: &dyn std::error::Error) -> String {
     }
 }
 
-#[cfg(feature = "runtime-tokio")]
 fn to_jsonrpc_error(err: ParseError) -> Error {
     match err {
         ParseError::Body(err) if err.is_data() => Error::invalid_request(),
@@ -180,14 +185,6 @@ fn to_jsonrpc_error(err: ParseError) -> Error {
     }
 }
 
-#[cfg(feature = "runtime-agnostic")]
-fn to_jsonrpc_error(err: impl std::error::Error) -> Error {
-    match err.source().and_then(|e| e.downcast_ref()) {
-        Some(ParseError::Body(err)) if err.is_data() => Error::invalid_request(),
-        _ => Error::parse_error(),
-    }
-}
-
 #[cfg(test)]
 mod tests {
     use std::task::{Context, Poll};
-- 
2.43.0


From 5573af7a857aea4e716a70e27d3870520dcd6359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:37 +0000
Subject: [PATCH 06/17] fix: finish serving once the service or client socket
 refuses a message

---
 src/transport.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transport.rs b/src/transport.rs
index 85cf16e..64a865b 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -132,7 +132,7 @@ where
                     Ok(Ok(Message::Request(req))) => {
                         if let Err(err) = future::poll_fn(|cx| service.poll_ready(cx)).await {
                             error!("{}", display_sources(err.into().as_ref()));
-                            return;
+                            break;
                         }
 
                         let fut = service.call(req).unwrap_or_else(|err| {
@@ -145,7 +145,7 @@ where
                     Ok(Ok(Message::Response(res))) => {
                         if let Err(err) = client_responses.send(res).await {
                             error!("{}", display_sources(&err));
-                            return;
+                            break;
                         }
                     }
                     Ok(Err(err)) => {
-- 
2.43.0


From 727e08b5221e5d7e0c86d1e102c709e695a0db32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:40 +0000
Subject: [PATCH 07/17] fix: stop serving instead of panicking when output
 fails

---
 src/transport.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/transport.rs b/src/transport.rs
index 64a865b..93b067f 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -118,7 +118,11 @@ where
             .buffer_unordered(self.max_concurrency)
             .filter_map(future::ready)
             .map(|res| Ok(Message::Response(res)))
-            .forward(responses_tx.clone().sink_map_err(|_| unreachable!()))
+            .forward(
+                responses_tx
+                    .clone()
+                    .sink_map_err(|_| error!("output has been closed")),
+            )
             .map(|_| ());
 
         let print_output = stream::select(responses_rx, client_requests.map(Message::Request))
@@ -140,7 +144,9 @@ where
                             None
                         });
 
-                        server_tasks_tx.send(fut).await.unwrap();
+                        if server_tasks_tx.send(fut).await.is_err() {
+                            break; // Responses can no longer be written.
+                        }
                     }
                     Ok(Ok(Message::Response(res))) => {
                         if let Err(err) = client_responses.send(res).await {
@@ -151,12 +157,16 @@ where
                     Ok(Err(err)) => {
                         error!("failed to decode message: {}", err);
                         let res = Response::from_error(Id::Null, to_jsonrpc_error(err));
-                        responses_tx.send(Message::Response(res)).await.unwrap();
+                        if responses_tx.send(Message::Response(res)).await.is_err() {
+                            break; // Responses can no longer be written.
+                        }
                     }
                     Err(err) => {
                         error!("failed to read message: {}", err);
                         let res = Response::from_error(Id::Null, Error::parse_error());
-                        responses_tx.send(Message::Response(res)).await.unwrap();
+                        if responses_tx.send(Message::Response(res)).await.is_err() {
+                            break; // Responses can no longer be written.
+                        }
                     }
                 }
             }
-- 
2.43.0


From eda014c8574a94ac0a2553b0e7d253b85f0648ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:59 +0000
Subject: [PATCH 08/17] fix: deliver messages to the client until all handlers
 complete after end of input

---
 src/transport.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/transport.rs b/src/transport.rs
index 93b067f..18841d3 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -123,7 +123,7 @@ where
                     .clone()
                     .sink_map_err(|_| error!("output has been closed")),
             )
-            .map(|_| ());
+            .map(|_| client_abort.abort()); // Handlers may message the client until completion.
 
         let print_output = stream::select(responses_rx, client_requests.map(Message::Request))
             .map(Ok)
@@ -173,7 +173,6 @@ where
 
             server_tasks_tx.disconnect();
             responses_tx.disconnect();
-            client_abort.abort();
         };
 
         join!(print_output, read_input, process_server_tasks);
-- 
2.43.0


From d7c073df392b1e984327059c001c8b5bd63a0087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:00 +0000
Subject: [PATCH 09/17] fix: wake senders waiting on the client socket once the
 server has exited

---
 src/service/client/socket.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/service/client/socket.rs b/src/service/client/socket.rs
index 5006895..e6255b2 100644
--- a/src/service/client/socket.rs
+++ b/src/service/client/socket.rs
@@ -42,7 +42,10 @@ impl Stream for ClientSocket {
     type Item = Request;
 
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if self.state.get() == State::Exited || self.rx.is_terminated() {
+        if self.state.get() == State::Exited {
+            self.rx.close(); // Wake any senders waiting for capacity, so that they may observe this.
+            Poll::Ready(None)
+        } else if self.rx.is_terminated() {
             Poll::Ready(None)
         } else {
             self.rx.poll_next_unpin(cx)
@@ -98,7 +101,10 @@ impl Stream for RequestStream {
     type Item = Request;
 
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if self.state.get() == State::Exited || self.rx.is_terminated() {
+        if self.state.get() == State::Exited {
+            self.rx.close(); // Wake any senders waiting for capacity, so that they may observe this.
+            Poll::Ready(None)
+        } else if self.rx.is_terminated() {
             Poll::Ready(None)
         } else {
             self.rx.poll_next_unpin(cx)
-- 
2.43.0


From 87915e080b101bf9f5af25914b0f21bd5b4c08ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:27 +0000
Subject: [PATCH 10/17] fix: finish serving upon the exit notification instead
 of awaiting further input

---
 src/transport.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/transport.rs b/src/transport.rs
index 18841d3..c8a8e18 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -13,7 +13,7 @@ use tokio_util::codec::{FramedRead, FramedWrite};
 use futures::channel::mpsc;
 use futures::{future, join, stream, FutureExt, Sink, SinkExt, Stream, StreamExt, TryFutureExt};
 use tower::Service;
-use tracing::error;
+use tracing::{debug, error};
 
 use crate::codec::{LanguageServerCodec, ParseError, Recoverable};
 use crate::jsonrpc::{Error, Id, Message, Request, Response};
@@ -147,6 +147,14 @@ where
                         if server_tasks_tx.send(fut).await.is_err() {
                             break; // Responses can no longer be written.
                         }
+
+                        // Do not wait for further input if that message was the last one, i.e. the
+                        // service has exited.
+                        let ready = future::poll_fn(|cx| service.poll_ready(cx)).now_or_never();
+                        if let Some(Err(err)) = ready {
+                            debug!("{}", display_sources(err.into().as_ref()));
+                            break;
+                        }
                     }
                     Ok(Ok(Message::Response(res))) => {
                         if let Err(err) = client_responses.send(res).await {
-- 
2.43.0


From 3e6804dde584afc844f5f61c8344fefb57e2b621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:43 +0000
Subject: [PATCH 11/17] fix: execute initialize only once at a time and never
 leave the exited state

---
 src/service.rs        |  1 -
 src/service/layers.rs | 21 ++++++++++++++++-----
 src/service/state.rs  |  7 +++++++
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index 9c3c759..3c99a62 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -107,7 +107,6 @@ impl<S: LanguageServer> Service<Request> for LspService<S> {
 
     fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
         match self.state.get() {
-            State::Initializing => Poll::Pending,
             State::Exited => Poll::Ready(Err(ExitedError(()))),
             _ => self.inner.poll_ready(cx),
         }
diff --git a/src/service/layers.rs b/src/service/layers.rs
index 512ed00..33a5ac9 100644
--- a/src/service/layers.rs
+++ b/src/service/layers.rs
@@ -62,16 +62,17 @@ where
     }
 
     fn call(&mut self, req: Request) -> Self::Future {
-        if self.state.get() == State::Uninitialized {
-            let state = self.state.clone();
+        let (init, uninit) = (State::Initializing, State::Uninitialized);
+
+        if self.state.transition(uninit, init) {
+            let attempt = InitializeAttempt(self.state.clone());
             let fut = self.inner.call(req);
 
             Box::pin(async move {
                 let response = fut.await?;
 
-                match &response {
-                    Some(res) if res.is_ok() => state.set(State::Initialized),
-                    _ => state.set(State::Uninitialized),
+                if response.as_ref().map_or(false, Response::is_ok) {
+                    attempt.0.transition(init, State::Initialized);
                 }
 
                 Ok(response)
@@ -84,6 +85,16 @@ where
     }
 }
 
+/// Returns to the uninitialized state when dropped, unless `initialize` succeeded or the server has
+/// exited in the meantime.
+struct InitializeAttempt(Arc<ServerState>);
+
+impl Drop for InitializeAttempt {
+    fn drop(&mut self) {
+        self.0.transition(State::Initializing, State::Uninitialized);
+    }
+}
+
 /// Middleware which implements `shutdown` request semantics.
 ///
 /// # Specification
diff --git a/src/service/state.rs b/src/service/state.rs
index e404e8d..2ad11cd 100644
--- a/src/service/state.rs
+++ b/src/service/state.rs
@@ -31,6 +31,13 @@ impl ServerState {
         self.0.store(state as u8, Ordering::SeqCst);
     }
 
+    /// Changes the state to `new` if it is `current`, returning whether it was.
+    pub fn transition(&self, current: State, new: State) -> bool {
+        self.0
+            .compare_exchange(current as u8, new as u8, Ordering::SeqCst, Ordering::SeqCst)
+            .is_ok()
+    }
+
     pub fn get(&self) -> State {
         match self.0.load(Ordering::SeqCst) {
             0 => State::Uninitialized,
-- 
2.43.0


From 27d9b9b29e02dc30e734b3c5cf5b950182154dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:07 +0000
Subject: [PATCH 12/17] fix: answer unknown requests whose method starts with
 "$/"

---
 src/service.rs | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index 3c99a62..2234080 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -10,12 +10,11 @@ use std::sync::Arc;
 use std::task::{Context, Poll};
 
 use futures::future::{self, BoxFuture, FutureExt};
-use serde_json::Value;
 use tower::Service;
 
-use crate::jsonrpc::{
-    Error, ErrorCode, FromParams, IntoResponse, Method, Request, Response, Router,
-};
+#[cfg(test)]
+use crate::jsonrpc::Error;
+use crate::jsonrpc::{FromParams, IntoResponse, Method, Request, Response, Router};
 use crate::LanguageServer;
 
 pub(crate) mod layers;
@@ -117,20 +116,7 @@ impl<S: LanguageServer> Service<Request> for LspService<S> {
             return future::err(ExitedError(())).boxed();
         }
 
-        let fut = self.inner.call(req);
-
-        Box::pin(async move {
-            let response = fut.await?;
-
-            match response.as_ref().and_then(|res| res.error()) {
-                Some(Error {
-                    code: ErrorCode::MethodNotFound,
-                    data: Some(Value::String(m)),
-                    ..
-                }) if m.starts_with("$/") => Ok(None),
-                _ => Ok(response),
-            }
-        })
+        self.inner.call(req)
     }
 }
 
-- 
2.43.0


From 3d78657025c4b1b9e6af575a423b688288711250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:09 +0000
Subject: [PATCH 13/17] fix: keep a request cancellable when its ID was used by
 a cancelled request

---
 src/service/pending.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/service/pending.rs b/src/service/pending.rs
index f0c446f..02aa4c7 100644
--- a/src/service/pending.rs
+++ b/src/service/pending.rs
@@ -38,10 +38,8 @@ impl Pending {
 
             let requests = self.0.clone();
             Either::Left(async move {
-                let abort_result = handler_fut.await;
-                requests.remove(&id); // Remove abort handle now to avoid double cancellation.
-
-                if let Ok(handler_result) = abort_result {
+                if let Ok(handler_result) = handler_fut.await {
+                    requests.remove(&id); // Remove abort handle now to avoid double cancellation.
                     handler_result
                 } else {
                     Ok(Some(Response::from_error(id, Error::request_cancelled())))
-- 
2.43.0


From 16372f2c8d751bfeab7b9d7bc079a217f60de50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:53 +0000
Subject: [PATCH 14/17] fix: fail outstanding client requests when the
 connection ends, so that serving can finish

---
 src/service/client.rs         |  4 +++-
 src/service/client/pending.rs | 25 ++++++++++++++++++++++---
 src/service/client/socket.rs  |  2 ++
 src/transport.rs              |  5 +++++
 4 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/service/client.rs b/src/service/client.rs
index 41bfe02..dae959c 100644
--- a/src/service/client.rs
+++ b/src/service/client.rs
@@ -67,12 +67,14 @@ impl Client {
     ///
     /// Closing the client is not required, but doing so will ensure that no more messages can be
     /// produced. The receiver of the messages will be able to consume any in-flight messages and
-    /// then will observe the end of the stream.
+    /// then will observe the end of the stream. Any requests which are still awaiting a response from
+    /// the client will fail with an "internal error".
     ///
     /// If the client is never closed and never dropped, the receiver of the messages will never
     /// observe the end of the stream.
     pub(crate) fn close(&self) {
         self.inner.tx.clone().close_channel();
+        self.inner.pending.close();
     }
 }
 
diff --git a/src/service/client/pending.rs b/src/service/client/pending.rs
index e8a1941..edb2306 100644
--- a/src/service/client/pending.rs
+++ b/src/service/client/pending.rs
@@ -2,20 +2,21 @@
 
 use std::fmt::{self, Debug, Formatter};
 use std::future::Future;
+use std::sync::atomic::{AtomicBool, Ordering};
 
 use dashmap::{mapref::entry::Entry, DashMap};
 use futures::channel::oneshot;
 use tracing::warn;
 
-use crate::jsonrpc::{Id, Response};
+use crate::jsonrpc::{Error, Id, Response};
 
 /// A hashmap containing pending client requests, keyed by request ID.
-pub struct Pending(DashMap<Id, Vec<oneshot::Sender<Response>>>);
+pub struct Pending(DashMap<Id, Vec<oneshot::Sender<Response>>>, AtomicBool);
 
 impl Pending {
     /// Creates a new pending client requests map.
     pub fn new() -> Self {
-        Pending(DashMap::new())
+        Pending(DashMap::new(), AtomicBool::new(false))
     }
 
     /// Inserts the given response into the map.
@@ -59,8 +60,26 @@ impl Pending {
             }
         }
 
+        if self.1.load(Ordering::SeqCst) {
+            self.close(); // No response is ever going to arrive.
+        }
+
         async { rx.await.expect("sender already dropped") }
     }
+
+    /// Resolves all current and future `.wait()` futures to an "internal error" response.
+    ///
+    /// This is to be called once the client is no longer able to send any responses.
+    pub fn close(&self) {
+        self.1.store(true, Ordering::SeqCst);
+
+        self.0.retain(|id, txs| {
+            for tx in txs.drain(..) {
+                let _ = tx.send(Response::from_error(id.clone(), Error::internal_error()));
+            }
+            false
+        });
+    }
 }
 
 impl Debug for Pending {
diff --git a/src/service/client/socket.rs b/src/service/client/socket.rs
index e6255b2..701a89f 100644
--- a/src/service/client/socket.rs
+++ b/src/service/client/socket.rs
@@ -85,6 +85,7 @@ impl Sink<Response> for ClientSocket {
     }
 
     fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
+        self.pending.close();
         Poll::Ready(Ok(()))
     }
 }
@@ -150,6 +151,7 @@ impl Sink<Response> for ResponseSink {
     }
 
     fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
+        self.pending.close();
         Poll::Ready(Ok(()))
     }
 }
diff --git a/src/transport.rs b/src/transport.rs
index c8a8e18..b121a32 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -181,6 +181,11 @@ where
 
             server_tasks_tx.disconnect();
             responses_tx.disconnect();
+
+            // No more responses are going to arrive, so do not leave any handlers waiting for one.
+            if let Err(err) = client_responses.close().await {
+                error!("{}", display_sources(&err));
+            }
         };
 
         join!(print_output, read_input, process_server_tasks);
-- 
2.43.0


From e0a073944ebb9f10de82b86279c30536cf18991c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:36 +0000
Subject: [PATCH 15/17] fix: deliver messages handlers sent to the client
 before the last of them completed

---
 src/transport.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/transport.rs b/src/transport.rs
index b121a32..0922a20 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -10,7 +10,7 @@ use tokio::io::{AsyncRead, AsyncWrite};
 #[cfg(feature = "runtime-tokio")]
 use tokio_util::codec::{FramedRead, FramedWrite};
 
-use futures::channel::mpsc;
+use futures::channel::{mpsc, oneshot};
 use futures::{future, join, stream, FutureExt, Sink, SinkExt, Stream, StreamExt, TryFutureExt};
 use tower::Service;
 use tracing::{debug, error};
@@ -106,7 +106,7 @@ where
         T::Future: Send,
     {
         let (client_requests, mut client_responses) = self.loopback.split();
-        let (client_requests, client_abort) = stream::abortable(client_requests);
+        let (handlers_done_tx, handlers_done_rx) = oneshot::channel::<()>();
         let (mut responses_tx, responses_rx) = mpsc::channel(0);
         let (mut server_tasks_tx, server_tasks_rx) = mpsc::channel(MESSAGE_QUEUE_SIZE);
 
@@ -123,9 +123,18 @@ where
                     .clone()
                     .sink_map_err(|_| error!("output has been closed")),
             )
-            .map(|_| client_abort.abort()); // Handlers may message the client until completion.
-
-        let print_output = stream::select(responses_rx, client_requests.map(Message::Request))
+            .map(|_| drop(handlers_done_tx)); // Handlers may message the client until completion.
+
+        // Once all handlers are done, deliver what they have already told the client before ending.
+        let client_requests = stream::select_with_strategy(
+            client_requests.map(|req| Some(Message::Request(req))),
+            handlers_done_rx.map(|_| None).into_stream(),
+            |_: &mut ()| stream::PollNext::Left,
+        )
+        .take_while(|msg| future::ready(msg.is_some()))
+        .filter_map(future::ready);
+
+        let print_output = stream::select(responses_rx, client_requests)
             .map(Ok)
             .forward(framed_stdout.sink_map_err(|e| error!("failed to encode message: {}", e)))
             .map(|_| ());
-- 
2.43.0


From ed5f81e0d414450d8cc6675c14a95d5813518f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:53 +0000
Subject: [PATCH 16/17] fix: keep an explicit null in the data of an error when
 parsing it

---
 src/jsonrpc/error.rs   | 3 +++
 src/jsonrpc/request.rs | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jsonrpc/error.rs b/src/jsonrpc/error.rs
index 4ce7358..a89606e 100644
--- a/src/jsonrpc/error.rs
+++ b/src/jsonrpc/error.rs
@@ -6,6 +6,8 @@ use std::fmt::{self, Display, Formatter};
 use serde::{Deserialize, Serialize};
 use serde_json::Value;
 
+use super::request::deserialize_some;
+
 /// A specialized [`Result`] error type for JSON-RPC handlers.
 ///
 /// [`Result`]: enum@std::result::Result
@@ -108,6 +110,7 @@ pub struct Error {
     /// A short description of the error.
     pub message: Cow<'static, str>,
     /// Additional information about the error, if any.
+    #[serde(default, deserialize_with = "deserialize_some")]
     #[serde(skip_serializing_if = "Option::is_none")]
     pub data: Option<Value>,
 }
diff --git a/src/jsonrpc/request.rs b/src/jsonrpc/request.rs
index c211458..00407a0 100644
--- a/src/jsonrpc/request.rs
+++ b/src/jsonrpc/request.rs
@@ -7,7 +7,7 @@ use serde_json::Value;
 
 use super::{Id, Version};
 
-fn deserialize_some<'de, T, D>(deserializer: D) -> Result<Option<T>, D::Error>
+pub(super) fn deserialize_some<'de, T, D>(deserializer: D) -> Result<Option<T>, D::Error>
 where
     T: Deserialize<'de>,
     D: Deserializer<'de>,
-- 
2.43.0


From 3faaf63db8a7f593180462599f04a66a6f7a7d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 17/17] fix: keep a completing request from removing the entry
 of a later one with the same ID

---
 src/service/pending.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/service/pending.rs b/src/service/pending.rs
index 02aa4c7..d7b7aec 100644
--- a/src/service/pending.rs
+++ b/src/service/pending.rs
@@ -34,12 +34,14 @@ impl Pending {
     {
         if let Entry::Vacant(entry) = self.0.entry(id.clone()) {
             let (handler_fut, abort_handle) = future::abortable(fut);
-            entry.insert(abort_handle);
+            entry.insert(abort_handle.clone());
 
             let requests = self.0.clone();
             Either::Left(async move {
                 if let Ok(handler_result) = handler_fut.await {
-                    requests.remove(&id); // Remove abort handle now to avoid double cancellation.
+                    // Remove abort handle now to avoid double cancellation, unless it was cancelled
+                    // meanwhile: then the entry, if any, belongs to a later request with this ID.
+                    requests.remove_if(&id, |_, _| !abort_handle.is_aborted());
                     handler_result
                 } else {
                     Ok(Some(Response::from_error(id, Error::request_cancelled())))
@@ -55,8 +57,13 @@ impl Pending {
     /// This will force the future to resolve to a "canceled" error response. If the future has
     /// already completed, this method call will do nothing.
     pub fn cancel(&self, id: &Id) {
-        if let Some((_, handle)) = self.0.remove(id) {
+        let abort = |_: &Id, handle: &future::AbortHandle| {
             handle.abort();
+            true
+        };
+
+        // Aborts while the entry is locked, so that a completing handler sees either both or neither.
+        if self.0.remove_if(id, abort).is_some() {
             info!("successfully cancelled request with ID: {}", id);
         } else {
             debug!(
-- 
2.43.0

