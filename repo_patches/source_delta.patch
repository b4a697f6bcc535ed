From 330a308bbf6d2f20c543869f48decbabe390d1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:10 +0000
Subject: [PATCH 01/15] fix: account for all bytes of a partially written
 stream message

A partial write overwrote the count of written bytes instead of adding to it,
so a message that needed more than one write was corrupted on the wire.
---
 src/transport/stream/transport.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transport/stream/transport.rs b/src/transport/stream/transport.rs
index 722a8f4..cdab6c5 100644
--- a/src/transport/stream/transport.rs
+++ b/src/transport/stream/transport.rs
@@ -235,10 +235,10 @@ where
 		while this.bytes_written < FRAMED_HEADER_LEN + body.len() {
 			let stream = Pin::new(&mut this.stream);
 			if this.bytes_written < FRAMED_HEADER_LEN {
-				this.bytes_written = ready!(stream.poll_write_vectored(context, &[IoSlice::new(&header_buffer[this.bytes_written..]), IoSlice::new(&body.data)]))
+				this.bytes_written += ready!(stream.poll_write_vectored(context, &[IoSlice::new(&header_buffer[this.bytes_written..]), IoSlice::new(&body.data)]))
 					.map_err(TransportError::new_fatal)?;
 			} else {
-				this.bytes_written = ready!(stream.poll_write_vectored(context, &[IoSlice::new(&body.data[this.bytes_written - FRAMED_HEADER_LEN..])]))
+				this.bytes_written += ready!(stream.poll_write_vectored(context, &[IoSlice::new(&body.data[this.bytes_written - FRAMED_HEADER_LEN..])]))
 					.map_err(TransportError::new_fatal)?;
 			}
 		}
-- 
2.43.0


From 9e182f41da9689e595bb147c65bec5de62187b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:10 +0000
Subject: [PATCH 02/15] fix: reject stream frames that are too short to hold a
 message header

The frame length is chosen by the remote peer.
A length below the header length caused an integer underflow when computing the body length.
---
 src/transport/stream/transport.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transport/stream/transport.rs b/src/transport/stream/transport.rs
index cdab6c5..260a6f6 100644
--- a/src/transport/stream/transport.rs
+++ b/src/transport/stream/transport.rs
@@ -4,7 +4,7 @@ use std::task::{Context, Poll};
 use tokio::io::{AsyncRead, AsyncWrite};
 
 use super::{StreamBody, StreamConfig};
-use crate::error::private::check_payload_too_large;
+use crate::error::private::{check_message_too_short, check_payload_too_large};
 use crate::transport::{TransportError, Endian};
 use crate::{Message, MessageHeader};
 
@@ -180,6 +180,8 @@ where
 			if this.bytes_read == FRAMED_HEADER_LEN {
 				// Parse frame and header.
 				let length = this.endian.read_u32(&this.header_buffer[0..]);
+				check_message_too_short(length as usize)
+					.map_err(TransportError::new_fatal)?;
 				this.parsed_header = MessageHeader::decode(&this.header_buffer[4..], this.endian)
 					.map_err(TransportError::new_fatal)?;
 
-- 
2.43.0


From 9a91fabf4c3bdfb5980b6674988dd5f57a5077e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:10 +0000
Subject: [PATCH 03/15] fix: never write a stream message whose length does not
 fit in the frame

With a write limit above MAX_PAYLOAD_LEN, the computation of the frame length could overflow.
---
 src/transport/stream/transport.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transport/stream/transport.rs b/src/transport/stream/transport.rs
index 260a6f6..ff57785 100644
--- a/src/transport/stream/transport.rs
+++ b/src/transport/stream/transport.rs
@@ -222,7 +222,7 @@ where
 		let this = self.get_mut();
 
 		// Make sure the body length doesn't exceed the maximum.
-		check_payload_too_large(body.len(), this.max_body_len as usize)
+		check_payload_too_large(body.len(), this.max_body_len.min(crate::MAX_PAYLOAD_LEN) as usize)
 			.map_err(TransportError::new_non_fatal)?;
 
 		// Encode the header if we haven't done that yet.
-- 
2.43.0


From d64d31b4e289661ac5bd115994428c31b0c80d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:34 +0000
Subject: [PATCH 04/15] fix: drop oversized datagrams instead of delivering
 them truncated

As documented for UnixConfig::max_body_len_read,
an error is reported and the transport remains usable.
---
 src/transport/unix/transport.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/transport/unix/transport.rs b/src/transport/unix/transport.rs
index f5fa41f..bb8a132 100644
--- a/src/transport/unix/transport.rs
+++ b/src/transport/unix/transport.rs
@@ -152,12 +152,15 @@ mod implementation {
 			let mut header_buffer = [0u8; crate::HEADER_LEN as usize];
 			this.body_buffer.resize(this.max_body_len as usize, 0u8);
 
+			// One extra byte, to be able to detect datagrams with a body that is too large.
+			let mut overflow_buffer = [0u8; 1];
+
 			// Prepare a buffer for the ancillary data.
 			// TODO: properly compute size of ancillary buffer.
 			let mut ancillary = vec![0u8; 32 + 16 * this.max_fds as usize];
 
 			// Read the incoming datagram.
-			let mut buffers = [IoSliceMut::new(&mut header_buffer), IoSliceMut::new(&mut this.body_buffer)];
+			let mut buffers = [IoSliceMut::new(&mut header_buffer), IoSliceMut::new(&mut this.body_buffer), IoSliceMut::new(&mut overflow_buffer)];
 			let (bytes_read, ancillary) = ready!(this.socket.poll_recv_vectored_with_ancillary(context, &mut buffers, &mut ancillary))
 				.map_err(TransportError::new_fatal)?;
 
@@ -178,6 +181,11 @@ mod implementation {
 			check_message_too_short(bytes_read)
 				.map_err(TransportError::new_fatal)?;
 
+			// Drop messages with a body that is too large.
+			// The body was already truncated by the kernel, but the socket remains usable.
+			check_payload_too_large(bytes_read - crate::HEADER_LEN as usize, this.max_body_len as usize)
+				.map_err(TransportError::new_non_fatal)?;
+
 			// Parse the header.
 			let header = MessageHeader::decode(&header_buffer, this.endian)
 				.map_err(TransportError::new_fatal)?;
-- 
2.43.0


From b00501b148b87ef19e0bd079e528155e54889d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:40 +0000
Subject: [PATCH 05/15] fix: enforce the maximum number of file descriptors per
 message

The limits were only used to size the ancillary buffer, which has room for more.
Excess file descriptors beyond that were silently dropped while the message was still delivered.
---
 src/transport/unix/transport.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/transport/unix/transport.rs b/src/transport/unix/transport.rs
index bb8a132..9c3b67c 100644
--- a/src/transport/unix/transport.rs
+++ b/src/transport/unix/transport.rs
@@ -142,6 +142,14 @@ mod implementation {
 	use crate::transport::TransportError;
 	use crate::{Message, MessageHeader, UnixBody};
 
+	/// Create an error for a message with too many file descriptors.
+	fn too_many_fds(max_fds: u32) -> std::io::Error {
+		std::io::Error::new(
+			std::io::ErrorKind::Other,
+			format!("too many file descriptors in message: the maximum is {max_fds}"),
+		)
+	}
+
 	impl crate::transport::TransportReadHalf for UnixReadHalf<&tokio_seqpacket::UnixSeqpacket> {
 		type Body = UnixBody;
 
@@ -166,6 +174,7 @@ mod implementation {
 
 			// Immediately wrap all file descriptors to prevent leaking any of them.
 			// We must always do this directly after a successful read.
+			let fds_truncated = ancillary.is_truncated();
 			let mut fds = Vec::new();
 			for msg in ancillary.into_messages() {
 				if let OwnedAncillaryMessage::FileDescriptors(msg) = msg {
@@ -186,6 +195,11 @@ mod implementation {
 			check_payload_too_large(bytes_read - crate::HEADER_LEN as usize, this.max_body_len as usize)
 				.map_err(TransportError::new_non_fatal)?;
 
+			// Drop messages with too many file descriptors, or for which we did not get all file descriptors.
+			if fds_truncated || fds.len() > this.max_fds as usize {
+				return Poll::Ready(Err(TransportError::new_non_fatal(too_many_fds(this.max_fds))));
+			}
+
 			// Parse the header.
 			let header = MessageHeader::decode(&header_buffer, this.endian)
 				.map_err(TransportError::new_fatal)?;
@@ -208,6 +222,11 @@ mod implementation {
 			check_payload_too_large(body.data.len(), this.max_body_len as usize)
 				.map_err(TransportError::new_non_fatal)?;
 
+			// Check the number of outgoing file descriptors.
+			if body.fds.len() > this.max_fds as usize {
+				return Poll::Ready(Err(TransportError::new_non_fatal(too_many_fds(this.max_fds))));
+			}
+
 			// Prepare a buffer for the message header.
 			let mut header_buffer = [0; crate::HEADER_LEN as usize];
 			header.encode(&mut header_buffer, this.endian);
-- 
2.43.0


From 0e28f9436b0333c7d370cab365f8fa9b219696cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:40 +0000
Subject: [PATCH 06/15] fix: release the request ID of automatically rejected
 requests

When the read handle is dropped, requests get an automatic error response,
but they stayed registered as open request.
A later request with the same ID was considered a duplicate and never got a response.
---
 src/peer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/peer.rs b/src/peer.rs
index 15f0200..7e15c05 100644
--- a/src/peer.rs
+++ b/src/peer.rs
@@ -375,6 +375,7 @@ where
 				ReceivedMessage::Request(request, _body) => {
 					let error_msg = format!("unexpected request for service {}", request.service_id());
 					let response = Message::error_response(request.request_id(), &error_msg);
+					let _: Result<_, _> = self.request_tracker.remove_received_request(request.request_id());
 					if self.write_message(&response).await.is_err() {
 						// If we can't send the error to the remote peer, just close the connection.
 						// Even if the transport doesn't say that the write error is fatal.
-- 
2.43.0


From 9e7cf2f6f9c11792b5ed46cf39d74e8f1f88c328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:10 +0000
Subject: [PATCH 07/15] fix: never send anything for a request after its
 response, and keep it open if the response fails

Messages for a received request are queued for the peer loop, but the closed flag was only checked when queueing.
So multiple responses (or updates after the response) could be sent if they were queued before the first was processed.

The request was also closed before trying to write the response.
When that failed with a non-fatal error, the request could never be answered anymore.
---
 src/peer.rs        | 26 +++++++++++++++++++++++---
 src/peer_handle.rs |  2 +-
 src/request.rs     |  4 ++--
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/peer.rs b/src/peer.rs
index 7e15c05..62b56c1 100644
--- a/src/peer.rs
+++ b/src/peer.rs
@@ -1,3 +1,4 @@
+use std::sync::{Arc, atomic::{AtomicBool, Ordering}};
 use tokio::sync::{mpsc, oneshot};
 
 use crate::{
@@ -8,6 +9,7 @@ use crate::{
 	ReceivedMessage,
 	SentRequestHandle,
 };
+use crate::error::private::InnerError;
 use crate::request_tracker::RequestTracker;
 use crate::util::{select, Either};
 
@@ -322,9 +324,12 @@ where
 
 	/// Process a SendRawMessage command.
 	async fn send_raw_message(&mut self, command: crate::peer::SendRawMessage<W::Body>) -> LoopFlow {
-		// Remove tracked received requests when we send a response.
-		if command.message.header.message_type.is_response() {
-			let _: Result<_, _> = self.request_tracker.remove_received_request(command.message.header.request_id);
+		// The request may have been closed between queueing and processing the command.
+		if let Some(closed) = &command.request_closed {
+			if closed.load(Ordering::Acquire) {
+				let _: Result<_, _> = command.result_tx.send(Err(InnerError::RequestClosed.into()));
+				return LoopFlow::Continue;
+			}
 		}
 
 		// TODO: replace SendRawMessage with specific command for different message types.
@@ -339,6 +344,15 @@ where
 			return flow;
 		}
 
+		// Close the request and remove it from the tracker when we have sent the response.
+		// If sending the response failed, the request stays open.
+		if command.message.header.message_type.is_response() {
+			if let Some(closed) = &command.request_closed {
+				closed.store(true, Ordering::Release);
+			}
+			let _: Result<_, _> = self.request_tracker.remove_received_request(command.message.header.request_id);
+		}
+
 		let _: Result<_, _> = command.result_tx.send(Ok(()));
 		LoopFlow::Continue
 	}
@@ -443,6 +457,12 @@ pub struct SendRawMessage<Body> {
 	/// The message to send.
 	pub message: Message<Body>,
 
+	/// The `closed` flag of the request that the message belongs to (if any).
+	///
+	/// If the flag is set, the message will not be sent.
+	/// The flag is set when a response message has been sent.
+	pub request_closed: Option<Arc<AtomicBool>>,
+
 	/// One-shot channel to receive the result of sending the message.
 	pub result_tx: oneshot::Sender<Result<(), Error>>,
 }
diff --git a/src/peer_handle.rs b/src/peer_handle.rs
index afa9058..e5d9706 100644
--- a/src/peer_handle.rs
+++ b/src/peer_handle.rs
@@ -171,7 +171,7 @@ impl<Body> PeerWriteHandle<Body> {
 		let (result_tx, result_rx) = oneshot::channel();
 		let message = Message::stream(0, service_id, body);
 		self.command_tx
-			.send(SendRawMessage { message, result_tx }.into())
+			.send(SendRawMessage { message, request_closed: None, result_tx }.into())
 			.map_err(|_| connection_aborted())?;
 
 		result_rx.await.map_err(|_| connection_aborted())?
diff --git a/src/request.rs b/src/request.rs
index 7384523..4795f10 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -208,7 +208,7 @@ impl<Body> SentRequestWriteHandle<Body> {
 		let (result_tx, result_rx) = oneshot::channel();
 		let message = Message::requester_update(self.request_id, service_id, body);
 		self.command_tx
-			.send(SendRawMessage { message, result_tx }.into())
+			.send(SendRawMessage { message, request_closed: Some(self.closed.clone()), result_tx }.into())
 			.map_err(|_| connection_aborted())?;
 		result_rx.await.map_err(|_| connection_aborted())??;
 		Ok(())
@@ -328,7 +328,7 @@ impl<Body> ReceivedRequestWriteHandle<Body> {
 
 		let (result_tx, result_rx) = oneshot::channel();
 		self.command_tx
-			.send(SendRawMessage { message, result_tx }.into())
+			.send(SendRawMessage { message, request_closed: Some(self.closed.clone()), result_tx }.into())
 			.map_err(|_| connection_aborted())?;
 		result_rx.await.map_err(|_| connection_aborted())??;
 		Ok(())
-- 
2.43.0


From 981ad3dda0393452cdac5a666975155ce28f1c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:20 +0000
Subject: [PATCH 08/15] fix: don't stop the listener when a client resets its
 connection before it is accepted

---
 src/listener.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/listener.rs b/src/listener.rs
index 8104683..66e5ac3 100644
--- a/src/listener.rs
+++ b/src/listener.rs
@@ -113,9 +113,15 @@ impl<Socket: ListeningSocket> Listener<Socket> {
 	/// A [`Peer`] is spawned for the new connection,
 	/// and a [`PeerHandle`] is returned to allow interaction with the peer.
 	pub async fn accept(&mut self) -> std::io::Result<(PeerHandle<Socket::Body>, Socket::TransportInfo)> {
-		let (connection, _addr) = self.listener.accept().await?;
-		let transport = Socket::into_transport(connection, self.config.clone());
-		let info = Socket::transport_info(&transport)?;
-		Ok((Socket::spawn(transport), info))
+		loop {
+			let (connection, _addr) = self.listener.accept().await?;
+			let transport = Socket::into_transport(connection, self.config.clone());
+			// If we can't get the info, the connection is already broken.
+			// For example: the remote peer of a TCP stream may have reset the connection before we accepted it.
+			// That says nothing about the listening socket, so ignore the connection and wait for the next.
+			if let Ok(info) = Socket::transport_info(&transport) {
+				return Ok((Socket::spawn(transport), info));
+			}
+		}
 	}
 }
-- 
2.43.0


From 20013add7fa6a471548a2e128f732fa3bf774b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:40 +0000
Subject: [PATCH 09/15] fix: don't panic in the interface macro when a name is
 used more than twice

The indices of items with a duplicate name could contain duplicates or be out of order,
so removing them one by one could remove the wrong item or panic instead of giving a proper error.
---
 macros/src/interface/parse.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/macros/src/interface/parse.rs b/macros/src/interface/parse.rs
index 44b3589..9177a70 100644
--- a/macros/src/interface/parse.rs
+++ b/macros/src/interface/parse.rs
@@ -204,13 +204,9 @@ pub mod cooked {
 				}
 			}
 
-			for i in remove_services.into_iter().rev() {
-				services.remove(i);
-			}
+			remove_indices(&mut services, remove_services);
 
-			for i in remove_streams.into_iter().rev() {
-				streams.remove(i);
-			}
+			remove_indices(&mut streams, remove_streams);
 
 			Self {
 				visibility: raw.visibility,
@@ -307,13 +303,9 @@ pub mod cooked {
 				}
 			}
 
-			for i in remove_request_updates.into_iter().rev() {
-				request_updates.remove(i);
-			}
+			remove_indices(&mut request_updates, remove_request_updates);
 
-			for i in remove_response_updates.into_iter().rev() {
-				response_updates.remove(i);
-			}
+			remove_indices(&mut response_updates, remove_response_updates);
 
 			Self {
 				service_id: parse_i32(errors, raw.service_id),
@@ -436,6 +428,17 @@ pub mod cooked {
 		}
 	}
 
+	/// Remove the elements at the given indices from a vector.
+	///
+	/// The indices may be in any order and may contain duplicates.
+	fn remove_indices<T>(data: &mut Vec<T>, mut indices: Vec<usize>) {
+		indices.sort_unstable();
+		indices.dedup();
+		for i in indices.into_iter().rev() {
+			data.remove(i);
+		}
+	}
+
 	/// Parse an integer literal into an i32.
 	fn parse_i32(errors: &mut Vec<syn::Error>, literal: syn::LitInt) -> WithSpan<i32> {
 		match literal.base10_parse() {
-- 
2.43.0


From 9e91ba422c97e98d99d4b9a453e8c773fa5e9080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:46 +0000
Subject: [PATCH 10/15] Add verification hooks, enabled by --cfg
 fizyr_rpc_verif

Constructors for the stream halves over arbitrary byte streams and control over the next request ID.
---
 src/peer.rs                 |  7 +++++++
 src/request_tracker.rs      |  6 ++++++
 src/transport/mod.rs        |  4 ++++
 src/transport/stream/mod.rs | 20 ++++++++++++++++++++
 4 files changed, 37 insertions(+)

diff --git a/src/peer.rs b/src/peer.rs
index 62b56c1..8e4fa53 100644
--- a/src/peer.rs
+++ b/src/peer.rs
@@ -175,6 +175,13 @@ impl<Transport: crate::transport::Transport> Peer<Transport> {
 		}
 	}
 
+	/// Set the next request ID to use for sent requests (verification hook).
+	#[cfg(fizyr_rpc_verif)]
+	#[doc(hidden)]
+	pub fn verif_set_next_request_id(&mut self, request_id: u32) {
+		self.request_tracker.verif_set_next_request_id(request_id);
+	}
+
 	/// Get direct access to the underlying transport.
 	pub fn transport(&self) -> &Transport {
 		&self.transport
diff --git a/src/request_tracker.rs b/src/request_tracker.rs
index 19b6aaa..285f948 100644
--- a/src/request_tracker.rs
+++ b/src/request_tracker.rs
@@ -54,6 +54,12 @@ impl<Body> RequestTracker<Body> {
 		}
 	}
 
+	/// Set the next request ID to use for sent requests (verification hook).
+	#[cfg(fizyr_rpc_verif)]
+	pub fn verif_set_next_request_id(&mut self, request_id: u32) {
+		self.next_sent_request_id = request_id;
+	}
+
 	/// Allocate a request ID and register a new sent request.
 	pub fn allocate_sent_request(&mut self, service_id: i32) -> Result<SentRequestHandle<Body>, Error> {
 		// Try to find a free ID a bunch of times.
diff --git a/src/transport/mod.rs b/src/transport/mod.rs
index 7552530..68615fa 100644
--- a/src/transport/mod.rs
+++ b/src/transport/mod.rs
@@ -18,6 +18,10 @@ pub use endian::Endian;
 pub(crate) mod stream;
 pub use stream::StreamTransport;
 
+#[cfg(fizyr_rpc_verif)]
+#[doc(hidden)]
+pub use stream::{verif_read_half, verif_write_half};
+
 #[cfg(feature = "tcp")]
 pub use stream::TcpStreamInfo;
 
diff --git a/src/transport/stream/mod.rs b/src/transport/stream/mod.rs
index cdda80a..3e565c2 100644
--- a/src/transport/stream/mod.rs
+++ b/src/transport/stream/mod.rs
@@ -6,6 +6,26 @@ pub use body::StreamBody;
 pub use config::StreamConfig;
 pub use transport::{StreamReadHalf, StreamTransport, StreamWriteHalf};
 
+/// Create a read half over an arbitrary byte stream (verification hook).
+#[cfg(fizyr_rpc_verif)]
+#[doc(hidden)]
+pub fn verif_read_half<R>(stream: R, max_body_len: u32, endian: crate::transport::Endian) -> impl crate::transport::TransportReadHalf<Body = StreamBody>
+where
+	R: tokio::io::AsyncRead + Send + Unpin,
+{
+	StreamReadHalf::new(stream, max_body_len, endian)
+}
+
+/// Create a write half over an arbitrary byte stream (verification hook).
+#[cfg(fizyr_rpc_verif)]
+#[doc(hidden)]
+pub fn verif_write_half<W>(stream: W, max_body_len: u32, endian: crate::transport::Endian) -> impl crate::transport::TransportWriteHalf<Body = StreamBody>
+where
+	W: tokio::io::AsyncWrite + Send + Unpin,
+{
+	StreamWriteHalf::new(stream, max_body_len, endian)
+}
+
 /// Information about the remote peer of a Unix stream.
 #[derive(Debug, Clone)]
 #[cfg(feature = "unix-stream")]
-- 
2.43.0


From e40204752e4040f78bc24a143b512ec358e1dfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:46 +0000
Subject: [PATCH 11/15] Let the verification hook change the next request ID
 while the peer runs

---
 src/peer.rs            |  6 +++---
 src/request_tracker.rs | 17 ++++++++++++++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/peer.rs b/src/peer.rs
index 8e4fa53..5b9c066 100644
--- a/src/peer.rs
+++ b/src/peer.rs
@@ -175,11 +175,11 @@ impl<Transport: crate::transport::Transport> Peer<Transport> {
 		}
 	}
 
-	/// Set the next request ID to use for sent requests (verification hook).
+	/// Get a slot that overrides the next request ID to use for sent requests (verification hook).
 	#[cfg(fizyr_rpc_verif)]
 	#[doc(hidden)]
-	pub fn verif_set_next_request_id(&mut self, request_id: u32) {
-		self.request_tracker.verif_set_next_request_id(request_id);
+	pub fn verif_next_request_id(&self) -> Arc<std::sync::Mutex<Option<u32>>> {
+		self.request_tracker.verif_next_request_id()
 	}
 
 	/// Get direct access to the underlying transport.
diff --git a/src/request_tracker.rs b/src/request_tracker.rs
index 285f948..33e6243 100644
--- a/src/request_tracker.rs
+++ b/src/request_tracker.rs
@@ -38,6 +38,10 @@ pub struct RequestTracker<Body> {
 
 	/// Map of channels for incoming messages for received requests.
 	received_requests: BTreeMap<u32, TrackedRequest<Body>>,
+
+	/// Override for the next ID to use for sending a request (verification hook).
+	#[cfg(fizyr_rpc_verif)]
+	verif_next_request_id: Arc<std::sync::Mutex<Option<u32>>>,
 }
 
 impl<Body> RequestTracker<Body> {
@@ -51,17 +55,24 @@ impl<Body> RequestTracker<Body> {
 			command_tx,
 			sent_requests: BTreeMap::new(),
 			received_requests: BTreeMap::new(),
+			#[cfg(fizyr_rpc_verif)]
+			verif_next_request_id: Default::default(),
 		}
 	}
 
-	/// Set the next request ID to use for sent requests (verification hook).
+	/// Get a slot that overrides the next request ID to use for sent requests (verification hook).
 	#[cfg(fizyr_rpc_verif)]
-	pub fn verif_set_next_request_id(&mut self, request_id: u32) {
-		self.next_sent_request_id = request_id;
+	pub fn verif_next_request_id(&self) -> Arc<std::sync::Mutex<Option<u32>>> {
+		self.verif_next_request_id.clone()
 	}
 
 	/// Allocate a request ID and register a new sent request.
 	pub fn allocate_sent_request(&mut self, service_id: i32) -> Result<SentRequestHandle<Body>, Error> {
+		#[cfg(fizyr_rpc_verif)]
+		if let Some(request_id) = self.verif_next_request_id.lock().unwrap().take() {
+			self.next_sent_request_id = request_id;
+		}
+
 		// Try to find a free ID a bunch of times.
 		for _ in 0..100 {
 			let request_id = self.next_sent_request_id;
-- 
2.43.0


From 99583e628d5c590ba4fcd4eaa8ba54cd6e212f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:24 +0000
Subject: [PATCH 12/15] fix: fail operations that are queued exactly while the
 peer stops

A command that another thread was pushing while the command channel was
dropped stayed in the channel, and its sender waited for a result forever.
---
 src/peer.rs | 49 ++++++++++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/peer.rs b/src/peer.rs
index 5b9c066..b780203 100644
--- a/src/peer.rs
+++ b/src/peer.rs
@@ -151,28 +151,35 @@ impl<Transport: crate::transport::Transport> Peer<Transport> {
 			write_handles,
 		};
 
-		let read_loop = read_loop.run();
-		let command_loop = command_loop.run();
-
-		// Futures must be pinned in order to poll them.
-		tokio::pin!(read_loop);
-		tokio::pin!(command_loop);
-
-		match select(read_loop, command_loop).await {
-			Either::Left(((), command_loop)) => {
-				// If the read loop stopped we should still flush all queued incoming messages, then stop.
-				command_tx
-					.send(Command::Stop)
-					.map_err(drop)
-					.expect("command loop did not stop yet but command channel is closed");
-				command_loop.await;
-			},
-			Either::Right((_read_loop, ())) => {
-				// If the command loop stopped, the read loop is pointless.
-				// Nobody will ever observe any effects of the read loop without the command loop.
-				// The read loop is dropped here.
-			},
+		{
+			let read_loop = read_loop.run();
+			let command_loop = command_loop.run();
+
+			// Futures must be pinned in order to poll them.
+			tokio::pin!(read_loop);
+			tokio::pin!(command_loop);
+
+			match select(read_loop, command_loop).await {
+				Either::Left(((), command_loop)) => {
+					// If the read loop stopped we should still flush all queued incoming messages, then stop.
+					command_tx
+						.send(Command::Stop)
+						.map_err(drop)
+						.expect("command loop did not stop yet but command channel is closed");
+					command_loop.await;
+				},
+				Either::Right((_read_loop, ())) => {
+					// If the command loop stopped, the read loop is pointless.
+					// Nobody will ever observe any effects of the read loop without the command loop.
+					// The read loop is dropped here.
+				},
+			}
 		}
+
+		// Drop all commands that are still queued, including those that are being queued right now by another thread.
+		// Just dropping the receiver could leave the latter in the channel, and then the sender would wait for the result forever.
+		command_rx.close();
+		while command_rx.recv().await.is_some() {}
 	}
 
 	/// Get a slot that overrides the next request ID to use for sent requests (verification hook).
-- 
2.43.0


From 3ed5a30cc5a3fdc88365652ff5b7dc2fdcb4d241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:51 +0000
Subject: [PATCH 13/15] fix: don't panic in the interface macro on raw
 identifiers and names like _1

---
 macros/src/interface/generate/interface_struct.rs |  9 +++++----
 macros/src/interface/generate/message_enum.rs     | 10 +++++-----
 macros/src/interface/generate/mod.rs              | 13 +++++++++++--
 macros/src/interface/generate/server.rs           |  6 +++---
 macros/src/interface/generate/services.rs         |  6 +++---
 macros/src/interface/generate/streams.rs          |  4 ++--
 6 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/macros/src/interface/generate/interface_struct.rs b/macros/src/interface/generate/interface_struct.rs
index 53648da..00763fe 100644
--- a/macros/src/interface/generate/interface_struct.rs
+++ b/macros/src/interface/generate/interface_struct.rs
@@ -1,11 +1,12 @@
 use proc_macro2::TokenStream;
 use quote::quote;
+use syn::ext::IdentExt;
 
 use crate::{interface::parse::cooked::{InterfaceDefinition, ServiceDefinition, UpdateDefinition, StreamDefinition}, util::WithSpan};
 
 /// Generate a struct representing the interface.
 pub fn generate_interface_struct(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ident, interface: &InterfaceDefinition) {
-	let name = interface.name().to_string();
+	let name = interface.name().unraw().to_string();
 	let doc = to_doc_string(interface.doc());
 	let hidden = interface.hidden().is_some();
 
@@ -88,7 +89,7 @@ pub fn generate_interface_struct(item_tokens: &mut TokenStream, fizyr_rpc: &syn:
 fn service_definitions(format_bounds: &mut TokenStream, fizyr_rpc: &syn::Ident, services: &[ServiceDefinition]) -> TokenStream {
 	let mut push_items = TokenStream::new();
 	for service in services {
-		let name = service.name().to_string();
+		let name = service.name().unraw().to_string();
 		let doc = to_doc_string(service.doc());
 		let hidden = service.hidden().is_some();
 		let service_id = service.service_id().value;
@@ -132,7 +133,7 @@ fn service_definitions(format_bounds: &mut TokenStream, fizyr_rpc: &syn::Ident,
 fn update_definitions(format_bounds: &mut TokenStream, fizyr_rpc: &syn::Ident, updates: &[UpdateDefinition]) -> TokenStream {
 	let mut push_items = TokenStream::new();
 	for update in updates {
-		let name = update.name().to_string();
+		let name = update.name().unraw().to_string();
 		let doc = to_doc_string(update.doc());
 		let hidden = update.hidden().is_some();
 		let service_id = update.service_id().value;
@@ -169,7 +170,7 @@ fn update_definitions(format_bounds: &mut TokenStream, fizyr_rpc: &syn::Ident, u
 fn stream_definitions(format_bounds: &mut TokenStream, fizyr_rpc: &syn::Ident, streams: &[StreamDefinition]) -> TokenStream {
 	let mut push_items = TokenStream::new();
 	for stream in streams {
-		let name = stream.name().to_string();
+		let name = stream.name().unraw().to_string();
 		let doc = to_doc_string(stream.doc());
 		let hidden = stream.hidden().is_some();
 		let service_id = stream.service_id().value;
diff --git a/macros/src/interface/generate/message_enum.rs b/macros/src/interface/generate/message_enum.rs
index a312345..64e7ced 100644
--- a/macros/src/interface/generate/message_enum.rs
+++ b/macros/src/interface/generate/message_enum.rs
@@ -1,5 +1,5 @@
 use proc_macro2::{TokenStream, Span};
-use quote::quote;
+use quote::{format_ident, quote};
 
 use crate::interface::parse::cooked::MessageDefinition;
 
@@ -15,7 +15,7 @@ pub fn generate_message_enum(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ide
 	let mut encode_all = TokenStream::new();
 	let mut impl_tokens = TokenStream::new();
 	for message in messages {
-		let variant_name = to_upper_camel_case(&message.name().to_string());
+		let variant_name = to_upper_camel_case(message.name());
 		let variant_name = syn::Ident::new(&variant_name, message.name().span());
 		let variant_doc = to_doc_attrs(message.doc());
 		let body_type = message.body_type();
@@ -46,13 +46,13 @@ pub fn generate_message_enum(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ide
 			F: #fizyr_rpc::format::EncodeBody<#body_type>,
 		});
 
-		let is_fn_name = syn::Ident::new(&format!("is_{}", message.name()), Span::call_site());
+		let is_fn_name = format_ident!("is_{}", message.name(), span = Span::call_site());
 		let is_fn_doc = format!("Check if the message is a [`Self::{}`].", variant_name);
 
-		let as_fn_name = syn::Ident::new(&format!("as_{}", message.name()), Span::call_site());
+		let as_fn_name = format_ident!("as_{}", message.name(), span = Span::call_site());
 		let as_fn_doc = format!("Get the message as [`Self::{}`] by reference.", variant_name);
 
-		let into_fn_name = syn::Ident::new(&format!("into_{}", message.name()), Span::call_site());
+		let into_fn_name = format_ident!("into_{}", message.name(), span = Span::call_site());
 		let into_fn_doc = format!("Get the message as [`Self::{}`] by value.", variant_name);
 
 		impl_tokens.extend(quote! {
diff --git a/macros/src/interface/generate/mod.rs b/macros/src/interface/generate/mod.rs
index ec374bd..2e3775e 100644
--- a/macros/src/interface/generate/mod.rs
+++ b/macros/src/interface/generate/mod.rs
@@ -1,4 +1,5 @@
 use proc_macro2::TokenStream;
+use syn::ext::IdentExt;
 
 use super::parse::cooked::InterfaceDefinition;
 
@@ -25,7 +26,11 @@ pub fn generate_interface(fizyr_rpc: &syn::Ident, interface: &InterfaceDefinitio
 	item_tokens
 }
 
-fn to_upper_camel_case(input: &str) -> String {
+/// Convert an identifier to UpperCamelCase.
+///
+/// If the converted name would not be a valid identifier, the name is returned unchanged (without `r#` prefix).
+fn to_upper_camel_case(input: &syn::Ident) -> String {
+	let input = input.unraw().to_string();
 	let mut output = String::new();
 	let mut capitalize = true;
 
@@ -39,7 +44,11 @@ fn to_upper_camel_case(input: &str) -> String {
 			output.push(c);
 		}
 	}
-	output
+	if syn::parse_str::<syn::Ident>(&output).is_ok() {
+		output
+	} else {
+		input
+	}
 }
 
 fn to_doc_attrs(docs: &[crate::util::WithSpan<String>]) -> TokenStream {
diff --git a/macros/src/interface/generate/server.rs b/macros/src/interface/generate/server.rs
index 72c84a6..4822d1e 100644
--- a/macros/src/interface/generate/server.rs
+++ b/macros/src/interface/generate/server.rs
@@ -27,7 +27,7 @@ pub fn generate_server(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ident, in
 	for stream in interface.streams() {
 		let service_id = stream.service_id();
 		let stream_name = stream.name();
-		let variant_name = syn::Ident::new(&to_upper_camel_case(&stream_name.to_string()), Span::call_site());
+		let variant_name = syn::Ident::new(&to_upper_camel_case(stream_name), Span::call_site());
 		let body_type = stream.body_type();
 		recv_message_where.extend(quote! {
 			F: #fizyr_rpc::format::DecodeBody<#body_type>,
@@ -66,7 +66,7 @@ pub fn generate_server(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ident, in
 	for service in interface.services() {
 		let service_id = service.service_id();
 		let service_name = service.name();
-		let variant_name = syn::Ident::new(&to_upper_camel_case(&service_name.to_string()), Span::call_site());
+		let variant_name = syn::Ident::new(&to_upper_camel_case(service_name), Span::call_site());
 		let request_type = service.request_type();
 		recv_message_where.extend(quote! {
 			F: #fizyr_rpc::format::DecodeBody<#request_type>,
@@ -205,7 +205,7 @@ fn generate_received_request_enum(item_tokens: &mut TokenStream, fizyr_rpc: &syn
 	let mut debug_tokens = TokenStream::new();
 	for service in interface.services() {
 		let service_name = service.name();
-		let variant_name_string = to_upper_camel_case(&service_name.to_string());
+		let variant_name_string = to_upper_camel_case(service_name);
 		let variant_name = syn::Ident::new(&variant_name_string, Span::call_site());
 		let request_type = service.request_type();
 		let doc = to_doc_attrs(service.doc());
diff --git a/macros/src/interface/generate/services.rs b/macros/src/interface/generate/services.rs
index c105baf..c591080 100644
--- a/macros/src/interface/generate/services.rs
+++ b/macros/src/interface/generate/services.rs
@@ -1,5 +1,5 @@
 use proc_macro2::{TokenStream, Span};
-use quote::quote;
+use quote::{format_ident, quote};
 
 use crate::interface::parse::cooked::{InterfaceDefinition, ServiceDefinition, UpdateDefinition};
 
@@ -450,7 +450,7 @@ fn generate_send_update_functions(impl_tokens: &mut TokenStream, fizyr_rpc: &syn
 	};
 
 	for update in updates {
-		let function_name = syn::Ident::new(&format!("send_{}_update", update.name()), Span::call_site());
+		let function_name = format_ident!("send_{}_update", update.name(), span = Span::call_site());
 		let body_type = update.body_type();
 		let service_id = update.service_id();
 		let doc = format!("Send a `{}` update to the remote peer.", update.name());
@@ -504,7 +504,7 @@ fn generate_recv_update_function(impl_tokens: &mut TokenStream, fizyr_rpc: &syn:
 	for update in updates {
 		let service_id = update.service_id();
 		let body_type = update.body_type();
-		let variant_name = syn::Ident::new(&to_upper_camel_case(&update.name().to_string()), Span::call_site());
+		let variant_name = syn::Ident::new(&to_upper_camel_case(update.name()), Span::call_site());
 		where_clause.extend(quote! {
 			F: #fizyr_rpc::format::DecodeBody<#body_type>,
 		});
diff --git a/macros/src/interface/generate/streams.rs b/macros/src/interface/generate/streams.rs
index cb42a28..11a5cf0 100644
--- a/macros/src/interface/generate/streams.rs
+++ b/macros/src/interface/generate/streams.rs
@@ -1,5 +1,5 @@
 use proc_macro2::{TokenStream, Span};
-use quote::quote;
+use quote::{format_ident, quote};
 
 use crate::interface::parse::cooked::InterfaceDefinition;
 
@@ -18,7 +18,7 @@ pub fn generate_streams(item_tokens: &mut TokenStream, client_impl_tokens: &mut
 	}
 	for stream in interface.streams() {
 		let service_id = stream.service_id();
-		let fn_name = syn::Ident::new(&format!("send_{}", stream.name()), Span::call_site());
+		let fn_name = format_ident!("send_{}", stream.name(), span = Span::call_site());
 		let fn_doc = format!("Send a `{}` stream message to the remote peer.", stream.name());
 		let body_arg;
 		let body_val;
-- 
2.43.0


From c72bc18e3cc29a16a5f3baddb0210215c25ffeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:05 +0000
Subject: [PATCH 14/15] fix: make interfaces without services and streams
 compile

---
 macros/src/interface/generate/server.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/macros/src/interface/generate/server.rs b/macros/src/interface/generate/server.rs
index 4822d1e..def190a 100644
--- a/macros/src/interface/generate/server.rs
+++ b/macros/src/interface/generate/server.rs
@@ -104,6 +104,12 @@ pub fn generate_server(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ident, in
 		});
 	}
 
+	// An enum without variants can only be matched by value.
+	let received_msg_debug_value = match interface.services().is_empty() && interface.streams().is_empty() {
+		true => quote!(*self),
+		false => quote!(self),
+	};
+
 	let visibility = interface.visibility();
 	let server_doc = format!("RPC server for the {} interface.", interface.name());
 	item_tokens.extend(quote! {
@@ -187,7 +193,7 @@ pub fn generate_server(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ident, in
 			#received_msg_where
 		{
 			fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
-				match self {
+				match #received_msg_debug_value {
 					#received_msg_debug_arms
 				}
 			}
-- 
2.43.0


From 8bbcf1e1cbf11ea91693e937542022d15d01d73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:21 +0000
Subject: [PATCH 15/15] fix: give the StreamMessage enum the visibility of the
 interface

---
 macros/src/interface/generate/message_enum.rs | 4 ++--
 macros/src/interface/generate/services.rs     | 2 ++
 macros/src/interface/generate/streams.rs      | 1 +
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/macros/src/interface/generate/message_enum.rs b/macros/src/interface/generate/message_enum.rs
index 64e7ced..9d1d135 100644
--- a/macros/src/interface/generate/message_enum.rs
+++ b/macros/src/interface/generate/message_enum.rs
@@ -6,7 +6,7 @@ use crate::interface::parse::cooked::MessageDefinition;
 use super::{to_upper_camel_case, to_doc_attrs};
 
 /// Generate an enum with all possible body types for a message.
-pub fn generate_message_enum(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ident, messages: &[impl MessageDefinition], enum_name: &syn::Ident, enum_doc: &str) {
+pub fn generate_message_enum(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ident, visibility: &syn::Visibility, messages: &[impl MessageDefinition], enum_name: &syn::Ident, enum_doc: &str) {
 	let mut variants = TokenStream::new();
 	let mut from_message = TokenStream::new();
 	let mut to_message = TokenStream::new();
@@ -89,7 +89,7 @@ pub fn generate_message_enum(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ide
 	item_tokens.extend(quote! {
 		#[doc = #enum_doc]
 		#[derive(Debug)]
-		pub enum #enum_name {
+		#visibility enum #enum_name {
 			#variants
 		}
 
diff --git a/macros/src/interface/generate/services.rs b/macros/src/interface/generate/services.rs
index c591080..5065fcf 100644
--- a/macros/src/interface/generate/services.rs
+++ b/macros/src/interface/generate/services.rs
@@ -144,6 +144,7 @@ fn generate_sent_request(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ident,
 		generate_message_enum(
 			item_tokens,
 			fizyr_rpc,
+			&syn::parse_quote!(pub),
 			service.request_updates(),
 			&syn::Ident::new("RequestUpdate", Span::call_site()),
 			&format!("A request update for the {} service", service.name()),
@@ -155,6 +156,7 @@ fn generate_sent_request(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ident,
 		generate_message_enum(
 			item_tokens,
 			fizyr_rpc,
+			&syn::parse_quote!(pub),
 			service.response_updates(),
 			&syn::Ident::new("ResponseUpdate", Span::call_site()),
 			&format!("A response update for the {} service", service.name()),
diff --git a/macros/src/interface/generate/streams.rs b/macros/src/interface/generate/streams.rs
index 11a5cf0..e7bec1a 100644
--- a/macros/src/interface/generate/streams.rs
+++ b/macros/src/interface/generate/streams.rs
@@ -11,6 +11,7 @@ pub fn generate_streams(item_tokens: &mut TokenStream, client_impl_tokens: &mut
 		generate_message_enum(
 			item_tokens,
 			fizyr_rpc,
+			interface.visibility(),
 			interface.streams(),
 			&syn::Ident::new("StreamMessage", Span::call_site()),
 			&format!("A stream message for the {} interface.", interface.name()),
-- 
2.43.0

