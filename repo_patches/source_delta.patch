From 326f2be9748a5ee6a4b7d845cb1dd5db61a2de78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 01/10] fix: send queued responses after an internally created
 response

The server waited for input after sending a literal go-ahead or rejection
although more responses were already queued.
---
 src/server.rs | 44 +++++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 1150ae9..c82b232 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -180,28 +180,30 @@ impl Server {
     }
 
     fn progress_send(&mut self) -> Result<Option<Event>, Interrupt<Error>> {
-        match self.send_state.next() {
-            Ok(Some(ServerSendEvent::Greeting { greeting })) => {
-                // The initial greeting was sucessfully sent, inform the caller
-                Ok(Some(Event::GreetingSent { greeting }))
-            }
-            Ok(Some(ServerSendEvent::Response {
-                handle: Some(handle),
-                response,
-            })) => {
-                // A response was sucessfully sent, inform the caller
-                Ok(Some(Event::ResponseSent { handle, response }))
-            }
-            Ok(Some(ServerSendEvent::Response { handle: None, .. })) => {
-                // An internally created response was sent, don't inform the caller
-                Ok(None)
-            }
-            Ok(_) => {
-                // No progress yet
-                Ok(None)
+        loop {
+            match self.send_state.next() {
+                Ok(Some(ServerSendEvent::Greeting { greeting })) => {
+                    // The initial greeting was sucessfully sent, inform the caller
+                    return Ok(Some(Event::GreetingSent { greeting }));
+                }
+                Ok(Some(ServerSendEvent::Response {
+                    handle: Some(handle),
+                    response,
+                })) => {
+                    // A response was sucessfully sent, inform the caller
+                    return Ok(Some(Event::ResponseSent { handle, response }));
+                }
+                Ok(Some(ServerSendEvent::Response { handle: None, .. })) => {
+                    // An internally created response was sent, don't inform the caller.
+                    // There might be more queued responses, so continue with sending.
+                }
+                Ok(None) => {
+                    // No progress yet
+                    return Ok(None);
+                }
+                Err(Interrupt::Io(io)) => return Err(Interrupt::Io(io)),
+                Err(Interrupt::Error(_)) => unreachable!(),
             }
-            Err(Interrupt::Io(io)) => Err(Interrupt::Io(io)),
-            Err(Interrupt::Error(_)) => unreachable!(),
         }
     }
 
-- 
2.43.0


From 3ac65377d24c1557f628a0a72e5c5a2b45800cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:35 +0000
Subject: [PATCH 02/10] fix: send TLS messages that exceed the buffer of rustls

---
 src/stream.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index a5c4316..426973e 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -298,13 +298,25 @@ fn encrypt(
     write_buffer: &mut BytesMut,
     plain_bytes: Vec<u8>,
 ) -> Result<(), DecryptEncryptError> {
-    if !plain_bytes.is_empty() {
-        tls.writer().write_all(&plain_bytes)?;
-    }
+    let mut plain_bytes = plain_bytes.as_slice();
+
+    loop {
+        while tls.wants_write() {
+            let mut encrypted_bytes = write_buffer.writer();
+            tls.write_tls(&mut encrypted_bytes)?;
+        }
 
-    while tls.wants_write() {
-        let mut encrypted_bytes = write_buffer.writer();
-        tls.write_tls(&mut encrypted_bytes)?;
+        if plain_bytes.is_empty() {
+            break;
+        }
+
+        // `rustls` limits the size of its internal buffer. Therefore, it might not accept all
+        // bytes at once.
+        let byte_count = tls.writer().write(plain_bytes)?;
+        if byte_count == 0 {
+            return Err(DecryptEncryptError::Io(ErrorKind::WriteZero.into()));
+        }
+        plain_bytes = &plain_bytes[byte_count..];
     }
 
     Ok(())
-- 
2.43.0


From f2161d6db71a8bf4722ea62ade38cb6e6f1a8cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:31 +0000
Subject: [PATCH 03/10] fix: deliver TLS data that arrived together with the
 handshake

---
 src/stream.rs | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index 426973e..b25d71f 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -269,30 +269,43 @@ fn decrypt(
 ) -> Result<Vec<u8>, DecryptEncryptError> {
     let mut plain_bytes = Vec::new();
 
+    // The peer might have sent data together with the end of the handshake. `rustls` has already
+    // decrypted these bytes and doesn't want to read more until we took them.
+    read_plain_bytes(tls, &mut plain_bytes)?;
+
     while tls.wants_read() && !read_buffer.is_empty() {
         let mut encrypted_bytes = read_buffer.reader();
         tls.read_tls(&mut encrypted_bytes)?;
         tls.process_new_packets()?;
 
-        loop {
-            let mut plain_bytes_chunk = [0; 128];
-            match tls.reader().read(&mut plain_bytes_chunk) {
-                Err(err) if err.kind() == ErrorKind::WouldBlock => {
-                    // `rustls` doesn't have more data to yield, but it believes the
-                    // connection is open. Not sure why an error needs to be handled for
-                    // that case, but `tokio_rustls` does the same, see
-                    // https://github.com/rustls/tokio-rustls/blob/7448a86b7b5eb69b438dae0782c179e55a2d3e4f/src/common/mod.rs#L226
-                    break;
-                }
-                Err(err) => return Err(DecryptEncryptError::Io(err)),
-                Ok(n) => plain_bytes.extend(&plain_bytes_chunk[0..n]),
-            };
-        }
+        read_plain_bytes(tls, &mut plain_bytes)?;
     }
 
     Ok(plain_bytes)
 }
 
+fn read_plain_bytes(
+    tls: &mut rustls::Connection,
+    plain_bytes: &mut Vec<u8>,
+) -> Result<(), DecryptEncryptError> {
+    loop {
+        let mut plain_bytes_chunk = [0; 128];
+        match tls.reader().read(&mut plain_bytes_chunk) {
+            Err(err) if err.kind() == ErrorKind::WouldBlock => {
+                // `rustls` doesn't have more data to yield, but it believes the
+                // connection is open. Not sure why an error needs to be handled for
+                // that case, but `tokio_rustls` does the same, see
+                // https://github.com/rustls/tokio-rustls/blob/7448a86b7b5eb69b438dae0782c179e55a2d3e4f/src/common/mod.rs#L226
+                break;
+            }
+            Err(err) => return Err(DecryptEncryptError::Io(err)),
+            Ok(n) => plain_bytes.extend(&plain_bytes_chunk[0..n]),
+        };
+    }
+
+    Ok(())
+}
+
 fn encrypt(
     tls: &mut rustls::Connection,
     write_buffer: &mut BytesMut,
-- 
2.43.0


From 4825a177ea8c7b421f15201fc8b7c504209b5a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 04/10] fix: deliver received messages before reporting that
 the stream ended

Also stop spinning after the TLS peer announced the end of its data.
---
 src/stream.rs | 114 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 76 insertions(+), 38 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index b25d71f..4317b06 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -23,6 +23,8 @@ pub struct Stream {
     tls: Option<rustls::Connection>,
     read_buffer: BytesMut,
     write_buffer: BytesMut,
+    /// Error that occurred while progressing the stream but wasn't returned yet.
+    error: Option<Error<Infallible>>,
 }
 
 impl Stream {
@@ -32,6 +34,7 @@ impl Stream {
             tls: None,
             read_buffer: BytesMut::default(),
             write_buffer: BytesMut::default(),
+            error: None,
         }
     }
 
@@ -68,6 +71,7 @@ impl Stream {
             tls: Some(tls),
             read_buffer: BytesMut::default(),
             write_buffer: BytesMut::default(),
+            error: None,
         }
     }
 
@@ -97,7 +101,10 @@ impl Stream {
                 }
                 Some(tls) => {
                     // Decrypt input bytes
-                    let plain_bytes = decrypt(tls, &mut self.read_buffer)?;
+                    let mut plain_bytes = Vec::new();
+                    if let Err(err) = decrypt(tls, &mut self.read_buffer, &mut plain_bytes) {
+                        self.error.get_or_insert(err.into());
+                    }
 
                     // Provide input bytes to the client/server
                     if !plain_bytes.is_empty() {
@@ -121,6 +128,14 @@ impl Stream {
                 Interrupt::Error(err) => return Err(Error::State(err)),
             };
 
+            // Return errors of the stream as soon as the client/server has nothing to do anymore.
+            // Otherwise we would lose messages that were received before the error occurred.
+            if let Io::NeedMoreInput = io {
+                if let Some(err) = self.error.take() {
+                    return Err(err.into_state_error());
+                }
+            }
+
             match &mut self.tls {
                 None => {
                     // Handle the output bytes from the client/server
@@ -137,13 +152,20 @@ impl Stream {
                     };
 
                     // Encrypt output bytes
-                    encrypt(tls, &mut self.write_buffer, plain_bytes)?;
+                    if let Err(err) = encrypt(tls, &mut self.write_buffer, plain_bytes) {
+                        self.error.get_or_insert(err.into());
+                    }
                 }
             }
 
+            // Don't do IO anymore if an error occurred
+            if self.error.is_some() {
+                continue;
+            }
+
             // Progress the stream
-            if self.write_buffer.is_empty() {
-                read(&mut self.stream, &mut self.read_buffer).await?;
+            let result = if self.write_buffer.is_empty() {
+                read(&mut self.stream, &mut self.read_buffer).await
             } else {
                 // We read and write the stream simultaneously because otherwise
                 // a deadlock between client and server might occur if both sides
@@ -152,8 +174,12 @@ impl Stream {
                 select! {
                     result = read(read_stream, &mut self.read_buffer) => result,
                     result = write(write_stream, &mut self.write_buffer) => result,
-                }?;
+                }
             };
+
+            if let Err(err) = result {
+                self.error = Some(err.into());
+            }
         };
 
         Ok(event)
@@ -199,6 +225,17 @@ pub enum Error<E> {
     State(E),
 }
 
+impl Error<Infallible> {
+    fn into_state_error<E>(self) -> Error<E> {
+        match self {
+            Error::Closed => Error::Closed,
+            Error::Io(err) => Error::Io(err),
+            Error::Tls(err) => Error::Tls(err),
+            Error::State(err) => match err {},
+        }
+    }
+}
+
 async fn read<S: AsyncRead + Unpin>(
     mut stream: S,
     read_buffer: &mut BytesMut,
@@ -266,44 +303,42 @@ impl<E> From<ReadWriteError> for Error<E> {
 fn decrypt(
     tls: &mut rustls::Connection,
     read_buffer: &mut BytesMut,
-) -> Result<Vec<u8>, DecryptEncryptError> {
-    let mut plain_bytes = Vec::new();
+    plain_bytes: &mut Vec<u8>,
+) -> Result<(), DecryptEncryptError> {
+    loop {
+        // The peer might have sent data together with the end of the handshake. In this case
+        // `rustls` has already decrypted these bytes and doesn't want to read more until we took
+        // them. Therefore, we need to do this before we check whether there is more to read.
+        let result = tls.process_new_packets();
+
+        loop {
+            let mut plain_bytes_chunk = [0; 128];
+            match tls.reader().read(&mut plain_bytes_chunk) {
+                // `rustls` doesn't have more data to yield because the peer closed the connection.
+                Ok(0) => break,
+                Ok(n) => plain_bytes.extend(&plain_bytes_chunk[0..n]),
+                Err(err) if err.kind() == ErrorKind::WouldBlock => {
+                    // `rustls` doesn't have more data to yield, but it believes the
+                    // connection is open. Not sure why an error needs to be handled for
+                    // that case, but `tokio_rustls` does the same, see
+                    // https://github.com/rustls/tokio-rustls/blob/7448a86b7b5eb69b438dae0782c179e55a2d3e4f/src/common/mod.rs#L226
+                    break;
+                }
+                Err(err) => return Err(DecryptEncryptError::Io(err)),
+            };
+        }
 
-    // The peer might have sent data together with the end of the handshake. `rustls` has already
-    // decrypted these bytes and doesn't want to read more until we took them.
-    read_plain_bytes(tls, &mut plain_bytes)?;
+        if result?.peer_has_closed() {
+            return Err(DecryptEncryptError::Closed);
+        }
+
+        if !tls.wants_read() || read_buffer.is_empty() {
+            return Ok(());
+        }
 
-    while tls.wants_read() && !read_buffer.is_empty() {
         let mut encrypted_bytes = read_buffer.reader();
         tls.read_tls(&mut encrypted_bytes)?;
-        tls.process_new_packets()?;
-
-        read_plain_bytes(tls, &mut plain_bytes)?;
     }
-
-    Ok(plain_bytes)
-}
-
-fn read_plain_bytes(
-    tls: &mut rustls::Connection,
-    plain_bytes: &mut Vec<u8>,
-) -> Result<(), DecryptEncryptError> {
-    loop {
-        let mut plain_bytes_chunk = [0; 128];
-        match tls.reader().read(&mut plain_bytes_chunk) {
-            Err(err) if err.kind() == ErrorKind::WouldBlock => {
-                // `rustls` doesn't have more data to yield, but it believes the
-                // connection is open. Not sure why an error needs to be handled for
-                // that case, but `tokio_rustls` does the same, see
-                // https://github.com/rustls/tokio-rustls/blob/7448a86b7b5eb69b438dae0782c179e55a2d3e4f/src/common/mod.rs#L226
-                break;
-            }
-            Err(err) => return Err(DecryptEncryptError::Io(err)),
-            Ok(n) => plain_bytes.extend(&plain_bytes_chunk[0..n]),
-        };
-    }
-
-    Ok(())
 }
 
 fn encrypt(
@@ -337,6 +372,8 @@ fn encrypt(
 
 #[derive(Debug, Error)]
 enum DecryptEncryptError {
+    #[error("Stream was closed")]
+    Closed,
     #[error(transparent)]
     Io(#[from] tokio::io::Error),
     #[error(transparent)]
@@ -346,6 +383,7 @@ enum DecryptEncryptError {
 impl<E> From<DecryptEncryptError> for Error<E> {
     fn from(value: DecryptEncryptError) -> Self {
         match value {
+            DecryptEncryptError::Closed => Error::Closed,
             DecryptEncryptError::Io(err) => Error::Io(err),
             DecryptEncryptError::Tls(err) => Error::Tls(err),
         }
-- 
2.43.0


From c3df501656e89cf8b620d1f8350fa78ab4d0fffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 05/10] fix: filter capabilities in responses to AUTHENTICATE
 and IDLE

---
 proxy/src/proxy.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 105d023..3e18dfa 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -396,19 +396,23 @@ fn handle_server_event(
             trace!(role = "p2s", ?handle, "--->");
         }
         client::Event::AuthenticateContinuationRequestReceived {
-            continuation_request,
+            mut continuation_request,
             ..
         } => {
             trace!(role = "s2p", authenticate_continuation_request=%format!("{:?}", continuation_request).blue(), "<--|");
 
+            util::filter_capabilities_in_continuation(&mut continuation_request);
+
             let handle = client_to_proxy
                 .authenticate_continue(continuation_request)
                 .unwrap();
             trace!(role = "p2c", ?handle, "authenticate_continue");
         }
-        client::Event::AuthenticateStatusReceived { status, .. } => {
+        client::Event::AuthenticateStatusReceived { mut status, .. } => {
             trace!(role = "s2p", authenticate_status=%format!("{:?}", status).blue(), "<--|");
 
+            util::filter_capabilities_in_status(&mut status);
+
             // TODO(#145): Fix unwrap
             let handle = client_to_proxy.authenticate_finish(status).unwrap();
             trace!(role = "p2c", ?handle, "authenticate_finish");
@@ -444,7 +448,7 @@ fn handle_server_event(
         }
         client::Event::IdleAccepted {
             handle,
-            continuation_request,
+            mut continuation_request,
         } => {
             trace!(
                 role = "s2p",
@@ -453,13 +457,17 @@ fn handle_server_event(
                 "<--|"
             );
 
+            util::filter_capabilities_in_continuation(&mut continuation_request);
+
             // TODO(#145): Fix unwrap
             let handle = client_to_proxy.idle_accept(continuation_request).unwrap();
             trace!(role = "p2c", ?handle, "idle_accept");
         }
-        client::Event::IdleRejected { handle, status } => {
+        client::Event::IdleRejected { handle, mut status } => {
             trace!(role = "s2p", ?handle, idle_rejected_status=%format!("{:?}", status).blue(), "<--|");
 
+            util::filter_capabilities_in_status(&mut status);
+
             // TODO(#145): Fix unwrap
             let handle = client_to_proxy.idle_reject(status).unwrap();
             trace!(role = "p2c", ?handle, "idle_reject");
-- 
2.43.0


From fa62b3c6b06dbcf5e0799ee7fe2501454fdeebf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 06/10] fix: end the session instead of panicking on unexpected
 messages

---
 proxy/src/proxy.rs | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 3e18dfa..3e61413 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -299,10 +299,10 @@ fn handle_client_event(
         server::Event::AuthenticateDataReceived { authenticate_data } => {
             trace!(role = "c2p", authenticate_data=%format!("{:?}", authenticate_data).red(), "|-->");
 
-            // TODO(#145): Fix unwrap
-            let handle = proxy_to_server
-                .set_authenticate_data(authenticate_data)
-                .unwrap();
+            let Ok(handle) = proxy_to_server.set_authenticate_data(authenticate_data) else {
+                error!(role = "c2p", "Unexpected authenticate data");
+                return ControlFlow::Abort;
+            };
             trace!(role = "p2s", ?handle, "set_authenticate_data");
         }
         server::Event::IdleCommandReceived { tag } => {
@@ -403,9 +403,10 @@ fn handle_server_event(
 
             util::filter_capabilities_in_continuation(&mut continuation_request);
 
-            let handle = client_to_proxy
-                .authenticate_continue(continuation_request)
-                .unwrap();
+            let Ok(handle) = client_to_proxy.authenticate_continue(continuation_request) else {
+                error!(role = "s2p", "Unexpected authenticate continuation request");
+                return ControlFlow::Abort;
+            };
             trace!(role = "p2c", ?handle, "authenticate_continue");
         }
         client::Event::AuthenticateStatusReceived { mut status, .. } => {
@@ -413,8 +414,10 @@ fn handle_server_event(
 
             util::filter_capabilities_in_status(&mut status);
 
-            // TODO(#145): Fix unwrap
-            let handle = client_to_proxy.authenticate_finish(status).unwrap();
+            let Ok(handle) = client_to_proxy.authenticate_finish(status) else {
+                error!(role = "s2p", "Unexpected authenticate status");
+                return ControlFlow::Abort;
+            };
             trace!(role = "p2c", ?handle, "authenticate_finish");
         }
         client::Event::DataReceived { mut data } => {
@@ -459,8 +462,10 @@ fn handle_server_event(
 
             util::filter_capabilities_in_continuation(&mut continuation_request);
 
-            // TODO(#145): Fix unwrap
-            let handle = client_to_proxy.idle_accept(continuation_request).unwrap();
+            let Ok(handle) = client_to_proxy.idle_accept(continuation_request) else {
+                error!(role = "s2p", "Unexpected idle continuation request");
+                return ControlFlow::Abort;
+            };
             trace!(role = "p2c", ?handle, "idle_accept");
         }
         client::Event::IdleRejected { handle, mut status } => {
@@ -468,8 +473,10 @@ fn handle_server_event(
 
             util::filter_capabilities_in_status(&mut status);
 
-            // TODO(#145): Fix unwrap
-            let handle = client_to_proxy.idle_reject(status).unwrap();
+            let Ok(handle) = client_to_proxy.idle_reject(status) else {
+                error!(role = "s2p", "Unexpected idle status");
+                return ControlFlow::Abort;
+            };
             trace!(role = "p2c", ?handle, "idle_reject");
         }
         client::Event::IdleDoneSent { handle } => {
-- 
2.43.0


From 5c3bdb0c31c818012596dd7341699bd5f948b55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 07/10] fix: report an invalid server name instead of panicking

---
 proxy/src/proxy.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 3e61413..5ad1dd8 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -16,7 +16,10 @@ use once_cell::sync::Lazy;
 use thiserror::Error;
 use tokio::net::{TcpListener, TcpStream};
 use tokio_rustls::{
-    rustls::{pki_types::ServerName, ClientConfig, RootCertStore, ServerConfig},
+    rustls::{
+        pki_types::{InvalidDnsNameError, ServerName},
+        ClientConfig, RootCertStore, ServerConfig,
+    },
     TlsAcceptor, TlsConnector,
 };
 use tracing::{error, info, trace};
@@ -48,6 +51,8 @@ pub enum ProxyError {
     Identity(#[from] IdentityError),
     #[error(transparent)]
     Tls(#[from] tokio_rustls::rustls::Error),
+    #[error(transparent)]
+    ServerName(#[from] InvalidDnsNameError),
 }
 
 pub trait State: Send + 'static {}
@@ -156,7 +161,7 @@ impl Proxy<ClientAcceptedState> {
                 };
 
                 let connector = TlsConnector::from(Arc::new(config));
-                let dnsname = ServerName::try_from(host.clone()).unwrap();
+                let dnsname = ServerName::try_from(host.clone())?;
 
                 info!(?server_addr_port, "Starting TLS with server");
                 Stream::tls(connector.connect(dnsname, stream_to_server).await?.into())
-- 
2.43.0


From bb7bd8160bca5e7231ab9da1a22b5462228221fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 08/10] fix: don't block other clients during a TLS handshake

---
 proxy/src/main.rs  |  1 +
 proxy/src/proxy.rs | 47 +++++++++++++++++++++++++++++++++-------------
 2 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/proxy/src/main.rs b/proxy/src/main.rs
index 24624b4..9976ca1 100644
--- a/proxy/src/main.rs
+++ b/proxy/src/main.rs
@@ -89,6 +89,7 @@ async fn handle_service(service: Service) {
 
 #[instrument(name = "client", skip_all, fields(addr = %proxy.client_addr()))]
 async fn handle_client(proxy: Proxy<ClientAcceptedState>) -> Result<()> {
+    let proxy = proxy.secure_client().await?;
     let proxy = proxy.connect_to_server().await?;
     proxy.start_conversation().await;
     Ok(())
diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 5ad1dd8..9aa37e9 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -85,6 +85,35 @@ impl Proxy<BoundState> {
         let (client_to_proxy, client_addr) = self.state.listener.accept().await?;
         info!(?client_addr, "Accepted client");
 
+        Ok(Proxy {
+            service: self.service.clone(),
+            state: ClientAcceptedState {
+                client_addr,
+                client_to_proxy,
+            },
+        })
+    }
+}
+
+pub struct ClientAcceptedState {
+    client_addr: SocketAddr,
+    client_to_proxy: TcpStream,
+}
+
+impl State for ClientAcceptedState {}
+
+impl Proxy<ClientAcceptedState> {
+    pub fn client_addr(&self) -> SocketAddr {
+        self.state.client_addr
+    }
+
+    /// Establishes the configured encryption with the client.
+    ///
+    /// Note: This must not be done while accepting clients because a client that does not finish
+    /// the handshake would block all other clients.
+    pub async fn secure_client(self) -> Result<Proxy<ClientSecuredState>, ProxyError> {
+        let client_to_proxy = self.state.client_to_proxy;
+
         let client_to_proxy = match &self.service.bind {
             Bind::Tls { identity, .. } => {
                 let config = {
@@ -121,27 +150,19 @@ impl Proxy<BoundState> {
         };
 
         Ok(Proxy {
-            service: self.service.clone(),
-            state: ClientAcceptedState {
-                client_addr,
-                client_to_proxy,
-            },
+            service: self.service,
+            state: ClientSecuredState { client_to_proxy },
         })
     }
 }
 
-pub struct ClientAcceptedState {
-    client_addr: SocketAddr,
+pub struct ClientSecuredState {
     client_to_proxy: Stream,
 }
 
-impl State for ClientAcceptedState {}
-
-impl Proxy<ClientAcceptedState> {
-    pub fn client_addr(&self) -> SocketAddr {
-        self.state.client_addr
-    }
+impl State for ClientSecuredState {}
 
+impl Proxy<ClientSecuredState> {
     pub async fn connect_to_server(self) -> Result<Proxy<ConnectedState>, ProxyError> {
         let server_addr_port = self.service.connect.addr_port();
         info!(%server_addr_port, "Connecting to server");
-- 
2.43.0


From 1e162596dbefc0fe4eee241325b24f2928fe14dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 09/10] fix: deliver received messages before closing the other
 connection

---
 proxy/src/proxy.rs | 56 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 54 insertions(+), 2 deletions(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 9aa37e9..7b22379 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -1,10 +1,11 @@
-use std::{net::SocketAddr, sync::Arc};
+use std::{net::SocketAddr, sync::Arc, time::Duration};
 
 use colored::Colorize;
 use imap_next::{
     client::{self, Client},
     server::{self, Server},
     stream::{self, Stream},
+    Interrupt, Io,
 };
 use imap_types::{
     bounded_static::ToBoundedStatic,
@@ -14,7 +15,10 @@ use imap_types::{
 };
 use once_cell::sync::Lazy;
 use thiserror::Error;
-use tokio::net::{TcpListener, TcpStream};
+use tokio::{
+    net::{TcpListener, TcpStream},
+    time::timeout,
+};
 use tokio_rustls::{
     rustls::{
         pki_types::{InvalidDnsNameError, ServerName},
@@ -43,6 +47,9 @@ const LITERAL_ACCEPT_TEXT: &str = "proxy: Literal accepted by proxy";
 const LITERAL_REJECT_TEXT: &str = "proxy: Literal rejected by proxy";
 const COMMAND_REJECTED_TEXT: &str = "proxy: Command rejected by server";
 
+/// Maximum duration for sending enqueued messages after the conversation ended.
+const SEND_ENQUEUED_TIMEOUT: Duration = Duration::from_secs(30);
+
 #[derive(Debug, Error)]
 pub enum ProxyError {
     #[error(transparent)]
@@ -259,6 +266,51 @@ impl Proxy<ConnectedState> {
                 break;
             }
         }
+
+        // Messages that were received before the conversation ended must not get lost. However,
+        // don't wait forever for a peer that doesn't read.
+        let _ = timeout(SEND_ENQUEUED_TIMEOUT, async {
+            tokio::join!(
+                send_enqueued(&mut client_to_proxy_stream, &mut client_to_proxy),
+                send_enqueued(&mut proxy_to_server_stream, &mut proxy_to_server),
+            )
+        })
+        .await;
+    }
+}
+
+/// Sends all enqueued messages that don't require an answer of the peer.
+async fn send_enqueued<S: imap_next::State>(stream: &mut Stream, state: &mut S) {
+    loop {
+        match stream.next(SendOnly(state)).await {
+            Ok(Some(_)) | Err(stream::Error::State(_)) => continue,
+            Ok(None) => break,
+            Err(_) => break,
+        }
+    }
+
+    if let Err(error) = stream.flush().await {
+        trace!(%error, "Failed to send enqueued messages");
+    }
+}
+
+/// Wraps a client/server and emits `None` instead of requesting more input.
+struct SendOnly<'a, S>(&'a mut S);
+
+impl<S: imap_next::State> imap_next::State for SendOnly<'_, S> {
+    type Event = Option<S::Event>;
+    type Error = S::Error;
+
+    fn enqueue_input(&mut self, bytes: &[u8]) {
+        self.0.enqueue_input(bytes);
+    }
+
+    fn next(&mut self) -> Result<Self::Event, Interrupt<Self::Error>> {
+        match self.0.next() {
+            Ok(event) => Ok(Some(event)),
+            Err(Interrupt::Io(Io::NeedMoreInput)) => Ok(None),
+            Err(interrupt) => Err(interrupt),
+        }
     }
 }
 
-- 
2.43.0


From 2d51ed52695178f297b5b89c5e1662c04042e262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:15 +0000
Subject: [PATCH 10/10] fix: don't allocate memory for a literal that is only
 announced

---
 src/receive.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/receive.rs b/src/receive.rs
index 5a3ad70..519398a 100644
--- a/src/receive.rs
+++ b/src/receive.rs
@@ -44,8 +44,9 @@ impl<C> ReceiveState<C> {
     }
 
     pub fn start_literal(&mut self, length: u32) {
+        // Note: We must not allocate memory for the literal yet. The peer can announce up to 4 GiB
+        // without ever sending them.
         self.next_fragment = NextFragment::Literal { length };
-        self.read_buffer.reserve(length as usize);
     }
 
     pub fn finish_message(&mut self) {
-- 
2.43.0

