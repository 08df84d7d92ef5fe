From 8930eddb5c10dc56c6f095385025ebd99ba42d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:42 +0000
Subject: [PATCH 01/26] fix: accept non-empty host key blobs in
 KeyExchangeEcdhReply

Key::parse checked the input of KeyBlob::parse for emptiness rather than
what it left unread, so no reply with a host key could ever be parsed.
---
 nora_ssh_core/src/message/key_exchange/ecdh.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nora_ssh_core/src/message/key_exchange/ecdh.rs b/nora_ssh_core/src/message/key_exchange/ecdh.rs
index 3db86c9..7271cc5 100644
--- a/nora_ssh_core/src/message/key_exchange/ecdh.rs
+++ b/nora_ssh_core/src/message/key_exchange/ecdh.rs
@@ -78,8 +78,9 @@ pub struct Key<'a> {
 impl<'a> Key<'a> {
 	fn parse(data: &'a [u8]) -> Option<Self> {
 		let (name, data) = parse_string(data)?;
+		// KeyBlob::parse rejects any unread data
 		let blob = KeyBlob::parse(data)?;
-		data.is_empty().then(|| Self { name, blob })
+		Some(Self { name, blob })
 	}
 
 	fn serialize<'i>(&self, buf: &'i mut [u8]) -> Option<(usize, &'i mut [u8])> {
-- 
2.43.0


From b798267b3d121235496421435e914c834bab6481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:47 +0000
Subject: [PATCH 02/26] fix: reject packets whose body does not fit behind the
 length field

A length between buf.len() - 3 and buf.len() passed the check and made
the slice of the buffer panic.
---
 nora_ssh/src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nora_ssh/src/packet.rs b/nora_ssh/src/packet.rs
index 439b092..34d42aa 100644
--- a/nora_ssh/src/packet.rs
+++ b/nora_ssh/src/packet.rs
@@ -13,7 +13,7 @@ pub async fn parse<'a, Io: AsyncReadExt + Unpin>(
 	let len = u32::from_be_bytes(buf[..4].try_into().unwrap())
 		.try_into()
 		.unwrap();
-	if len > buf.len() {
+	if len > buf.len() - 4 {
 		return Err(PacketParseError::TooLarge(len));
 	} else if len < 8 {
 		return Err(PacketParseError::TooSmall(len));
-- 
2.43.0


From 693447f4d83d97f16a696dc78bc94b0948e4b136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:47 +0000
Subject: [PATCH 03/26] fix: report malformed key exchange messages instead of
 panicking

---
 nora_ssh/src/host.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index 3ea0ae4..9a35566 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -197,11 +197,12 @@ impl Host<p256::NistP256> {
 			.await
 			.map_err(HandleNewClientError::PacketParseError)?;
 		let client_ephermal_public = Message::parse(pkt.payload())
-			.unwrap()
+			.map_err(HandleNewClientError::MessageParseError)?
 			.into_kex_ecdh_init()
-			.unwrap()
+			.ok_or(HandleNewClientError::ExpectedKeyExchangeEcdhInit)?
 			.client_ephermal_public_key;
-		let client_ephermal_public = <[u8; 32]>::try_from(client_ephermal_public).unwrap();
+		let client_ephermal_public = <[u8; 32]>::try_from(client_ephermal_public)
+			.map_err(|_| HandleNewClientError::InvalidEphermalKey)?;
 		let client_ephermal_public = x25519_dalek::PublicKey::from(client_ephermal_public);
 
 		let server_public_key = self.host_key.public.to_encoded_point(false);
@@ -279,7 +280,7 @@ impl Host<p256::NistP256> {
 			.await
 			.map_err(HandleNewClientError::PacketParseError)?;
 		Message::parse(pkt.payload())
-			.unwrap()
+			.map_err(HandleNewClientError::MessageParseError)?
 			.into_new_keys()
 			.ok_or(HandleNewClientError::ExpectedKeys)?;
 
@@ -293,6 +294,8 @@ pub enum HandleNewClientError {
 	MessageParseError(MessageParseError),
 	PacketParseError(PacketParseError),
 	ExpectedKeyExchangeInit,
+	ExpectedKeyExchangeEcdhInit,
+	InvalidEphermalKey,
 	UnsupportedAlgorithms,
 	ExpectedKeys,
 	#[allow(dead_code)]
-- 
2.43.0


From 38e34566d342045f542dc89408354f0b9e92f25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:33 +0000
Subject: [PATCH 04/26] fix: refuse ephemeral keys that give an all-zero shared
 secret (RFC 8731)

---
 nora_ssh/src/host.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index 9a35566..fd0aa42 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -221,6 +221,10 @@ impl Host<p256::NistP256> {
 			.update(client_ephermal_public.as_bytes())
 			.update(server_ephermal_public.as_bytes());
 		let shared_secret = server_ephermal_secret.diffie_hellman(&client_ephermal_public);
+		// RFC 8731: an all-zero secret MUST abort the exchange.
+		if !shared_secret.was_contributory() {
+			return Err(HandleNewClientError::InvalidEphermalKey);
+		}
 		let hash = exchange_hash.update(shared_secret.as_bytes());
 		let sig = self.host_key.secret.sign(&hash);
 
-- 
2.43.0


From 3fd6e493056d8a6573e3f0b54bb50d6e14a1df42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:33 +0000
Subject: [PATCH 05/26] fix: recognise the end of every line before the
 identification string

Only lines in the Ignore state could end, so an empty line (or one that
is a prefix of "SSH") swallowed the line after it. "SSSH-" was taken for
"SSH-".
---
 nora_ssh/src/identifier.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nora_ssh/src/identifier.rs b/nora_ssh/src/identifier.rs
index c45a942..ad74def 100644
--- a/nora_ssh/src/identifier.rs
+++ b/nora_ssh/src/identifier.rs
@@ -30,10 +30,9 @@ where
 		state = match (state, b) {
 			(State::EolLf, b'S') => State::S,
 			(State::S, b'S') => State::SS,
-			(State::SS, b'S') => State::SS,
 			(State::SS, b'H') => State::SSH,
 			(State::SSH, b'-') => break,
-			(State::Ignore, b'\r') => State::EolCr,
+			(_, b'\r') => State::EolCr,
 			(State::EolCr, b'\n') => State::EolLf,
 			_ => State::Ignore,
 		};
-- 
2.43.0


From 3919ef688bfcb8f76881312724812353b2df9530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:33 +0000
Subject: [PATCH 06/26] fix: don't lose wakeups of LocalMutex

A waiter registered its waker only once, so a second failed attempt to
take the lock was never woken, and a wakeup given to a cancelled waiter
was lost to the others. Register on every failed attempt and wake all
registered waiters on release.
---
 nora_ssh/src/sync.rs | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/nora_ssh/src/sync.rs b/nora_ssh/src/sync.rs
index 4e7aff5..39b9315 100644
--- a/nora_ssh/src/sync.rs
+++ b/nora_ssh/src/sync.rs
@@ -17,7 +17,7 @@ impl<T> LocalMutex<T> {
 	}
 
 	pub fn lock(&self) -> LocalMutexGuardFuture<'_, T> {
-		LocalMutexGuardFuture { inner: self, registered: false }
+		LocalMutexGuardFuture { inner: self }
 	}
 
 	fn push_waker(&self, waker: Waker) {
@@ -26,30 +26,20 @@ impl<T> LocalMutex<T> {
 		self.queue.set(q);
 	}
 
-	fn pop_waker(&self) -> Option<Waker> {
-		let mut q = self.queue.take();
-		let w = q.pop();
-		self.queue.set(q);
-		w
-	}
 }
 
 pub struct LocalMutexGuardFuture<'a, T> {
 	inner: &'a LocalMutex<T>,
-	registered: bool,
 }
 
 impl<'a, T> Future for LocalMutexGuardFuture<'a, T> {
 	type Output = LocalMutexGuard<'a, T>;
 
-	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
+	fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
 		match self.inner.inner.try_borrow_mut() {
 			Ok(lock) => Poll::Ready(LocalMutexGuard { inner: self.inner, lock }),
 			Err(_) => {
-				if !self.registered {
-					self.inner.push_waker(cx.waker().clone());
-					self.registered = true;
-				}
+				self.inner.push_waker(cx.waker().clone());
 				Poll::Pending
 			}
 		}
@@ -77,6 +67,7 @@ impl<'a, T> DerefMut for LocalMutexGuard<'a, T> {
 
 impl<'a, T> Drop for LocalMutexGuard<'a, T> {
 	fn drop(&mut self) {
-		self.inner.pop_waker().map(|w| w.wake());
+		// Waiters may have been cancelled since they registered, so waking just one is not enough.
+		self.inner.queue.take().into_iter().for_each(|w| w.wake());
 	}
 }
-- 
2.43.0


From bd19e255f0a90d0361a1c1cae6d525e6c1518c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:57 +0000
Subject: [PATCH 07/26] fix: drop unauthenticated connections on malformed
 messages instead of panicking

---
 nora_ssh/src/server.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 0234c21..fe38af6 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -101,9 +101,9 @@ where
 		let mut pkt_buf_mini = [0; 256];
 
 		// Wait for userauth
-		let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.unwrap();
-		let msg = Message::parse(data).unwrap();
-		let srv = <&[u8]>::from(msg.into_service_request().unwrap());
+		let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
+		let msg = Message::parse(data).map_err(|_| ())?;
+		let srv = <&[u8]>::from(msg.into_service_request().ok_or(())?);
 		match srv {
 			b"ssh-userauth" => {
 				let msg = Message::ServiceAccept(msg::ServiceAccept::new(srv));
@@ -115,9 +115,9 @@ where
 						&mut rng,
 					)
 					.await
-					.unwrap();
+					.map_err(|_| ())?;
 			}
-			_ => todo!(),
+			_ => return Err(()),
 		}
 
 		// Attempt authentication
@@ -126,7 +126,11 @@ where
 			// Wait for userauth request
 			let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
 			let msg = Message::parse(data).map_err(|_| ())?;
-			let ua = msg.into_user_auth().unwrap().into_request().ok_or(())?;
+			let ua = msg
+				.into_user_auth()
+				.ok_or(())?
+				.into_request()
+				.ok_or(())?;
 
 			let auth = match ua.method {
 				Method::None => Auth::None,
@@ -160,7 +164,7 @@ where
 							&mut rng,
 						)
 						.await
-						.unwrap();
+						.map_err(|_| ())?;
 					continue;
 				}
 				Method::PublicKeySigned { algorithm, key: key_blob, signature } => {
@@ -190,7 +194,7 @@ where
 						algorithm,
 						key_blob,
 					)
-					.unwrap_or_else(|| todo!());
+					.ok_or(())?;
 
 					Auth::PublicKey { algorithm, signature, key, message }
 				}
@@ -212,7 +216,7 @@ where
 							&mut rng,
 						)
 						.await
-						.unwrap();
+						.map_err(|_| ())?;
 					return Ok(Client {
 						read: RefCell::new((rd, rd_enc)),
 						write: LocalMutex::new((wr, wr_enc)),
@@ -234,7 +238,7 @@ where
 							&mut rng,
 						)
 						.await
-						.unwrap();
+						.map_err(|_| ())?;
 				}
 			}
 		}
-- 
2.43.0


From a55c9afa2afbd138aeceb090b3be7d858c7df852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:57 +0000
Subject: [PATCH 08/26] fix: make room for public key replies of any size

PublicKeyOk repeats the peer's algorithm and key blob, which need not fit
256 bytes (RSA keys don't), and then panicked.
---
 nora_ssh/src/server.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index fe38af6..3a24b84 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -98,7 +98,9 @@ where
 
 		let mut pkt_buf = Vec::new();
 		pkt_buf.resize(35000, 0);
-		let mut pkt_buf_mini = [0; 256];
+		// Replies may repeat parts of the packet in pkt_buf, hence a buffer of the same size.
+		let mut reply_buf = Vec::new();
+		reply_buf.resize(35000, 0);
 
 		// Wait for userauth
 		let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
@@ -109,7 +111,7 @@ where
 				let msg = Message::ServiceAccept(msg::ServiceAccept::new(srv));
 				wr_enc
 					.send(
-						&mut pkt_buf_mini,
+						&mut reply_buf,
 						|buf| msg.serialize(buf).unwrap().0.len(),
 						&mut wr,
 						&mut rng,
@@ -158,7 +160,7 @@ where
 					);
 					wr_enc
 						.send(
-							&mut pkt_buf_mini,
+							&mut reply_buf,
 							|buf| msg.serialize(buf).unwrap().0.len(),
 							&mut wr,
 							&mut rng,
-- 
2.43.0


From ea31a8387456c46cf7552a0d81a7d8b0c376b585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:27 +0000
Subject: [PATCH 09/26] fix: refuse unsupported authentication methods instead
 of panicking

---
 nora_ssh/src/server.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 3a24b84..0482e6b 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -135,7 +135,7 @@ where
 				.ok_or(())?;
 
 			let auth = match ua.method {
-				Method::None => Auth::None,
+				Method::None => Some(Auth::None),
 				Method::PublicKeyBlob { algorithm, blob } => {
 					let (a, b) = data::parse_string(blob).ok_or(())?;
 					let (key, b) = data::parse_string(b).ok_or(())?;
@@ -198,15 +198,19 @@ where
 					)
 					.ok_or(())?;
 
-					Auth::PublicKey { algorithm, signature, key, message }
+					Some(Auth::PublicKey { algorithm, signature, key, message })
 				}
-				Method::Password { password } => Auth::Password(password),
-				Method::PasswordRenew { .. } => todo!(),
-				Method::HostBased { .. } => todo!(),
-				Method::Other { .. } => todo!(),
+				Method::Password { password } => Some(Auth::Password(password)),
+				Method::PasswordRenew { .. } => None,
+				Method::HostBased { .. } => None,
+				Method::Other { .. } => None,
 			};
 
-			match self.handlers.authenticate(ua.user, ua.service, auth).await {
+			let result = match auth {
+				Some(auth) => self.handlers.authenticate(ua.user, ua.service, auth).await,
+				None => Err(()),
+			};
+			match result {
 				Ok(user) => {
 					// Accept
 					let msg = Message::UserAuth(UserAuth::Success(Success));
-- 
2.43.0


From baed35462765ecf8cac28783d4e5b720153fb40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:16 +0000
Subject: [PATCH 10/26] fix: answer malformed, unsupported and failing channel
 requests with a failure

They made the server panic.
---
 nora_ssh/src/server.rs | 48 +++++++++++-------------------------------
 1 file changed, 12 insertions(+), 36 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 0482e6b..fd0b55e 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -394,29 +394,15 @@ where
 					let mut channels = self.channels.borrow_mut();
 					let ch = channels.get_mut(r.recipient_channel).unwrap();
 					// TODO check if the channel is actually a session channel
-					let req = match SessionRequest::parse(r.ty, r.data) {
-						Err(_) => todo!(),
-						Ok(r) => r,
-					};
-					let (msg, stdout, stderr, wait) = match req {
-						SessionRequest::Shell => {
-							let io = server
+					let io = match SessionRequest::parse(r.ty, r.data) {
+						Ok(SessionRequest::Shell) => {
+							server
 								.handlers
 								.spawn(&mut *self.user.borrow_mut(), SpawnType::Shell, &[])
 								.await
-								.unwrap();
-							ch.stdin = io.stdin;
-							(
-								Message::Channel(msg::Channel::Success(msg::channel::Success {
-									recipient_channel: ch.peer_channel,
-								})),
-								io.stdout,
-								io.stderr,
-								Some(io.wait),
-							)
 						}
-						SessionRequest::Exec { command } => {
-							let io = server
+						Ok(SessionRequest::Exec { command }) => {
+							server
 								.handlers
 								.spawn(
 									&mut *self.user.borrow_mut(),
@@ -424,7 +410,12 @@ where
 									&[],
 								)
 								.await
-								.unwrap();
+						}
+						// Malformed or not supported
+						_ => Err(()),
+					};
+					let (msg, stdout, stderr, wait) = match io {
+						Ok(io) => {
 							ch.stdin = io.stdin;
 							(
 								Message::Channel(msg::Channel::Success(msg::channel::Success {
@@ -435,16 +426,7 @@ where
 								Some(io.wait),
 							)
 						}
-						SessionRequest::Pty { .. } => (
-							Message::Channel(msg::Channel::Failure(msg::channel::Failure {
-								recipient_channel: ch.peer_channel,
-							})),
-							None,
-							None,
-							None,
-						),
-						SessionRequest::X11 { .. } => todo!(),
-						SessionRequest::Env { .. } => (
+						Err(()) => (
 							Message::Channel(msg::Channel::Failure(msg::channel::Failure {
 								recipient_channel: ch.peer_channel,
 							})),
@@ -452,12 +434,6 @@ where
 							None,
 							None,
 						),
-						SessionRequest::Subsystem { .. } => todo!(),
-						SessionRequest::WindowChange { .. } => todo!(),
-						SessionRequest::XonXoff { .. } => todo!(),
-						SessionRequest::Signal { .. } => todo!(),
-						SessionRequest::ExitStatus { .. } => todo!(),
-						SessionRequest::ExitSignal { .. } => todo!(),
 					};
 					let channel = ch.peer_channel;
 					drop(channels);
-- 
2.43.0


From 0ba1513f94380604cee355fc74805b3a4f77eb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:40 +0000
Subject: [PATCH 11/26] fix: don't panic on messages the server cannot act on

Unknown channels, malformed messages, data without a running process and
message kinds the server does not use made it panic. Harmless ones are
ignored, the others end that connection.
---
 nora_ssh/src/server.rs | 54 +++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index fd0b55e..adbf852 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -370,7 +370,7 @@ where
 		let (rd, enc) = &mut *read;
 		loop {
 			let data = enc.recv(buf, rd).await.map_err(ReceiveError::In)?;
-			match Message::parse(data).unwrap() {
+			match Message::parse(data).map_err(ReceiveError::Message)? {
 				Message::Channel(msg::Channel::Open(o)) => {
 					let ch = self.channels.borrow_mut().insert(Channel {
 						peer_channel: o.sender_channel,
@@ -392,7 +392,9 @@ where
 				}
 				Message::Channel(msg::Channel::Request(r)) => {
 					let mut channels = self.channels.borrow_mut();
-					let ch = channels.get_mut(r.recipient_channel).unwrap();
+					let ch = channels
+						.get_mut(r.recipient_channel)
+						.ok_or(ReceiveError::UnknownChannel)?;
 					// TODO check if the channel is actually a session channel
 					let io = match SessionRequest::parse(r.ty, r.data) {
 						Ok(SessionRequest::Shell) => {
@@ -456,39 +458,44 @@ where
 				}
 				Message::Channel(msg::Channel::Data(d)) => {
 					let mut channels = self.channels.borrow_mut();
-					let ch = channels.get_mut(d.recipient_channel).unwrap();
-					ch.stdin.as_mut().unwrap().write(d.data).await.unwrap();
+					let ch = channels
+						.get_mut(d.recipient_channel)
+						.ok_or(ReceiveError::UnknownChannel)?;
+					// The process may not be running or may not accept any input (anymore).
+					if let Some(stdin) = ch.stdin.as_mut() {
+						if stdin.write(d.data).await.is_err() {
+							ch.stdin = None;
+						}
+					}
 				}
-				Message::Channel(msg::Channel::ExtendedData(_)) => todo!(),
+				Message::Channel(msg::Channel::ExtendedData(_)) => {}
 				Message::Channel(msg::Channel::Eof(e)) => {
 					self.channels
 						.borrow_mut()
 						.get_mut(e.recipient_channel)
-						.unwrap()
+						.ok_or(ReceiveError::UnknownChannel)?
 						.stdin
 						.take();
 				}
 				Message::Channel(msg::Channel::Close(c)) => {
 					self.channels.borrow_mut().remove(c.recipient_channel);
 				}
-				Message::Channel(msg::Channel::OpenConfirmation(_)) => todo!(),
-				Message::Channel(msg::Channel::OpenFailure(_)) => todo!(),
-				Message::Channel(msg::Channel::WindowAdjust(_)) => todo!(),
-				Message::Channel(msg::Channel::Success(_)) => todo!(),
-				Message::Channel(msg::Channel::Failure(_)) => todo!(),
+				Message::Channel(msg::Channel::OpenConfirmation(_)) => {}
+				Message::Channel(msg::Channel::OpenFailure(_)) => {}
+				Message::Channel(msg::Channel::WindowAdjust(_)) => {}
+				Message::Channel(msg::Channel::Success(_)) => {}
+				Message::Channel(msg::Channel::Failure(_)) => {}
 				Message::Disconnect(_) => return Ok(Action::Exit),
 				Message::Ignore(_) => {}
-				Message::Unimplemented(_) => todo!(),
-				Message::Debug(_) => todo!(),
-				Message::KeyExchangeInit(_) => todo!(),
-				Message::KeyExchangeEcdhInit(_) => todo!(),
-				Message::KeyExchangeEcdhReply(_) => todo!(),
-				Message::NewKeys(_) => todo!(),
-				Message::ServiceRequest(req) => {
-					todo!("{:?}", core::str::from_utf8(req.into()))
-				}
-				Message::ServiceAccept(_) => todo!(),
-				Message::UserAuth(_) => todo!(),
+				Message::Unimplemented(_) => {}
+				Message::Debug(_) => {}
+				Message::KeyExchangeInit(_)
+				| Message::KeyExchangeEcdhInit(_)
+				| Message::KeyExchangeEcdhReply(_)
+				| Message::NewKeys(_)
+				| Message::ServiceRequest(_)
+				| Message::ServiceAccept(_)
+				| Message::UserAuth(_) => return Err(ReceiveError::UnexpectedMessage),
 			}
 		}
 	}
@@ -544,6 +551,9 @@ pub enum ReceiveError {
 	In(InError),
 	Out(OutError),
 	Io(io::Error),
+	Message(msg::MessageParseError),
+	UnknownChannel,
+	UnexpectedMessage,
 }
 
 #[cfg_attr(not(feature = "no_send"), async_trait::async_trait)]
-- 
2.43.0


From 3905da56019d9dc795bfbe12ffd4998007667317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:40 +0000
Subject: [PATCH 12/26] fix: pass channel data to the process completely

write() may accept only part of it; the rest was dropped.
---
 nora_ssh/src/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index adbf852..60080a6 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -463,7 +463,7 @@ where
 						.ok_or(ReceiveError::UnknownChannel)?;
 					// The process may not be running or may not accept any input (anymore).
 					if let Some(stdin) = ch.stdin.as_mut() {
-						if stdin.write(d.data).await.is_err() {
+						if stdin.write_all(d.data).await.is_err() {
 							ch.stdin = None;
 						}
 					}
-- 
2.43.0


From 9066028d33aa39461d04a71db20d388cabb9b5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:40 +0000
Subject: [PATCH 13/26] fix: don't let the sender write outside the target
 directory

---
 nora_scp/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index b8bf41e..e3be4ee 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -134,6 +134,10 @@ fn receive(to: &[PathBuf], make_dir: bool) -> Result<(), Box<dyn Error>> {
 		while let Some((ty, _mode, size, file)) = read_header(&stdin, &mut header)? {
 			match ty {
 				Type::File => {
+					// The name must not lead out of the directory.
+					if matches!(file, "" | "." | "..") || file.contains('/') {
+						Err(format!("invalid file name {:?}", file))?;
+					}
 					let f = File::create(file)?;
 					ping_ready()?;
 					transfer_file(f, size)?;
-- 
2.43.0


From d54834611a31c3b6adee41828551fd861bbd230c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:40 +0000
Subject: [PATCH 14/26] fix: keep the whole name of received files with spaces
 in it

---
 nora_scp/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index e3be4ee..520ed9f 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -90,7 +90,7 @@ fn receive(to: &[PathBuf], make_dir: bool) -> Result<(), Box<dyn Error>> {
 				stdin.borrow_mut().read_until(b'\n', header)?;
 				// TODO try to support non-UTF8 when possible.
 				let header = str::from_utf8(header)?;
-				let mut parts = header.split(' ');
+				let mut parts = header.splitn(3, ' ');
 				let mode = parts.next().ok_or("missing mode")?;
 				let size = parts.next().ok_or("missing size")?;
 				let mut file = parts.next().ok_or("missing file")?;
-- 
2.43.0


From 9e54c548517cfb31913b8cf64b3667d774024708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:40 +0000
Subject: [PATCH 15/26] fix: report directory headers as an error instead of
 panicking

---
 nora_scp/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index 520ed9f..03c3504 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -101,7 +101,7 @@ fn receive(to: &[PathBuf], make_dir: bool) -> Result<(), Box<dyn Error>> {
 				let size = size.parse::<usize>()?;
 				Ok(Some((Type::File, mode, size, file)))
 			}
-			(_, b'D') => todo!(),
+			(_, b'D') => Err("directories are not supported")?,
 			c => Err(format!("invalid mode {:?}", c))?,
 		}
 	}
-- 
2.43.0


From 2712c30d45f5900fee3234f555b666c970f14361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:40 +0000
Subject: [PATCH 16/26] fix: announce the real size of sent files and terminate
 them

---
 nora_scp/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index 03c3504..b5fd385 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -175,7 +175,7 @@ fn send(from: &[PathBuf]) -> Result<(), Box<dyn Error>> {
 			.unwrap()
 			.to_str()
 			.ok_or("failed to convert path to UTF-8")?;
-		println!("C{:04o} {} {}", 0o644, 42, name);
+		println!("C{:04o} {} {}", 0o644, f.metadata()?.len(), name);
 		let mut out = io::stdout().lock();
 		loop {
 			match f.read(&mut buf)? {
@@ -183,6 +183,7 @@ fn send(from: &[PathBuf]) -> Result<(), Box<dyn Error>> {
 				n => out.write_all(&buf[..n])?,
 			}
 		}
+		out.write_all(b"\0")?;
 	}
 	Ok(())
 }
-- 
2.43.0


From a1e85dea9372080124084b847237a054887aa8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:40 +0000
Subject: [PATCH 17/26] fix: refuse passwords and invalid user names instead of
 panicking

---
 nora_sshd/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nora_sshd/src/main.rs b/nora_sshd/src/main.rs
index 3591409..23d56b1 100644
--- a/nora_sshd/src/main.rs
+++ b/nora_sshd/src/main.rs
@@ -78,7 +78,7 @@ impl ServerHandlers for Handlers {
 		match auth {
 			Auth::None => Err(()),
 			Auth::Password(_pwd) => {
-				todo!()
+				Err(())
 			}
 			Auth::PublicKey { algorithm, key, signature, message } => {
 				if algorithm != b"ssh-ed25519" {
@@ -90,7 +90,7 @@ impl ServerHandlers for Handlers {
 					.map_err(|_| ())?;
 				key.verify(message, &signature.try_into().map_err(|_| ())?)
 					.map_err(|_| ())?;
-				Ok(User { _name: core::str::from_utf8(user).unwrap().into(), shell: None })
+				Ok(User { _name: core::str::from_utf8(user).map_err(|_| ())?.into(), shell: None })
 			}
 		}
 	}
-- 
2.43.0


From f99dc09d1996690da10ec967c9b9d17db4ba2bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:40 +0000
Subject: [PATCH 18/26] fix: refuse commands that cannot be started instead of
 panicking

---
 nora_sshd/src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nora_sshd/src/main.rs b/nora_sshd/src/main.rs
index 23d56b1..92e9730 100644
--- a/nora_sshd/src/main.rs
+++ b/nora_sshd/src/main.rs
@@ -107,13 +107,13 @@ impl ServerHandlers for Handlers {
 		};
 		match ty {
 			SpawnType::Shell => {
-				let shell = std::env::var_os("SHELL").unwrap();
+				let shell = std::env::var_os("SHELL").ok_or(())?;
 				let mut shell = process::Command::new(shell)
 					.stdin(process::Stdio::piped())
 					.stdout(process::Stdio::piped())
 					.stderr(process::Stdio::piped())
 					.spawn()
-					.unwrap();
+					.map_err(|_| ())?;
 				let io = IoSet {
 					stdin: shell.stdin.take(),
 					stdout: shell.stdout.take(),
@@ -128,14 +128,14 @@ impl ServerHandlers for Handlers {
 					.split(|c| c.is_ascii_whitespace())
 					.filter(|s| !s.is_empty())
 					.map(std::ffi::OsStr::from_bytes);
-				let bin = args.next().unwrap();
+				let bin = args.next().ok_or(())?;
 				let mut shell = process::Command::new(bin)
 					.stdin(process::Stdio::piped())
 					.stdout(process::Stdio::piped())
 					.stderr(process::Stdio::piped())
 					.args(args)
 					.spawn()
-					.unwrap();
+					.map_err(|_| ())?;
 				let io = IoSet {
 					stdin: shell.stdin.take(),
 					stdout: shell.stdout.take(),
-- 
2.43.0


From 11de928d8f78a3ddcb04ff6dc176fec2a6f4d49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:46 +0000
Subject: [PATCH 19/26] fix: report a path without a file name instead of
 panicking in scp send mode

---
 nora_scp/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index b5fd385..42795ef 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -172,7 +172,7 @@ fn send(from: &[PathBuf]) -> Result<(), Box<dyn Error>> {
 		// TODO try to support non-UTF8 when possible.
 		let name = path
 			.file_name()
-			.unwrap()
+			.ok_or("path has no file name")?
 			.to_str()
 			.ok_or("failed to convert path to UTF-8")?;
 		println!("C{:04o} {} {}", 0o644, f.metadata()?.len(), name);
-- 
2.43.0


From 8af42769690c6ad668b44521f77f7991de117a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:46 +0000
Subject: [PATCH 20/26] fix: send exactly the announced number of bytes in scp
 send mode

---
 nora_scp/src/main.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index 42795ef..07d0fac 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -175,12 +175,18 @@ fn send(from: &[PathBuf]) -> Result<(), Box<dyn Error>> {
 			.ok_or("path has no file name")?
 			.to_str()
 			.ok_or("failed to convert path to UTF-8")?;
-		println!("C{:04o} {} {}", 0o644, f.metadata()?.len(), name);
+		let mut size = f.metadata()?.len();
+		println!("C{:04o} {} {}", 0o644, size, name);
 		let mut out = io::stdout().lock();
-		loop {
-			match f.read(&mut buf)? {
-				0 => break,
-				n => out.write_all(&buf[..n])?,
+		// Send exactly as many bytes as announced, even if the file has more by now.
+		while size > 0 {
+			let l = size.min(buf.len() as u64) as usize;
+			match f.read(&mut buf[..l])? {
+				0 => Err("file is shorter than announced")?,
+				n => {
+					out.write_all(&buf[..n])?;
+					size -= n as u64;
+				}
 			}
 		}
 		out.write_all(b"\0")?;
-- 
2.43.0


From 7760526be3ac13b401b4003dbe7c1d5bd290b7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:46 +0000
Subject: [PATCH 21/26] fix: refuse to send files whose name would break the
 scp header

---
 nora_scp/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index 07d0fac..7d769bf 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -175,6 +175,10 @@ fn send(from: &[PathBuf]) -> Result<(), Box<dyn Error>> {
 			.ok_or("path has no file name")?
 			.to_str()
 			.ok_or("failed to convert path to UTF-8")?;
+		// The header ends at the first newline.
+		if name.contains('\n') {
+			Err(format!("invalid file name {:?}", name))?;
+		}
 		let mut size = f.metadata()?.len();
 		println!("C{:04o} {} {}", 0o644, size, name);
 		let mut out = io::stdout().lock();
-- 
2.43.0


From 8a32c251dc0cbe4dd5cb3fd94420bee8ed836343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:46 +0000
Subject: [PATCH 22/26] fix: refuse to announce a directory as a file in scp
 send mode

---
 nora_scp/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index 7d769bf..b9f544d 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -179,7 +179,11 @@ fn send(from: &[PathBuf]) -> Result<(), Box<dyn Error>> {
 		if name.contains('\n') {
 			Err(format!("invalid file name {:?}", name))?;
 		}
-		let mut size = f.metadata()?.len();
+		let metadata = f.metadata()?;
+		if metadata.is_dir() {
+			Err("directories are not supported")?;
+		}
+		let mut size = metadata.len();
 		println!("C{:04o} {} {}", 0o644, size, name);
 		let mut out = io::stdout().lock();
 		// Send exactly as many bytes as announced, even if the file has more by now.
-- 
2.43.0


From 4d88cd438043a405f4c8c03f048b0c29b1561c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:31 +0000
Subject: [PATCH 23/26] fix: report malformed scp headers instead of accepting
 them

---
 nora_scp/src/main.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index b9f544d..5c50fb8 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -93,11 +93,14 @@ fn receive(to: &[PathBuf], make_dir: bool) -> Result<(), Box<dyn Error>> {
 				let mut parts = header.splitn(3, ' ');
 				let mode = parts.next().ok_or("missing mode")?;
 				let size = parts.next().ok_or("missing size")?;
-				let mut file = parts.next().ok_or("missing file")?;
-				if file.bytes().last() == Some(b'\n') {
-					file = &file[..file.len() - 1];
+				let file = parts.next().ok_or("missing file")?;
+				let file = file.strip_suffix('\n').ok_or("incomplete header")?;
+				if mode.len() != 5 || !mode[1..].bytes().all(|c| matches!(c, b'0'..=b'7')) {
+					Err("invalid mode")?;
+				}
+				if !size.bytes().all(|c| c.is_ascii_digit()) {
+					Err("invalid size")?;
 				}
-				// TODO check for garbage
 				let size = size.parse::<usize>()?;
 				Ok(Some((Type::File, mode, size, file)))
 			}
-- 
2.43.0


From 5140e5a1a3a4ac4bb9d5c43a230b58611b8f5fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:31 +0000
Subject: [PATCH 24/26] fix: end a process' output when reading it fails
 instead of panicking

---
 nora_ssh/src/server.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 60080a6..c424185 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -306,7 +306,8 @@ where
 			channel: u32,
 		) -> (Io, [u8; 256], usize, u32) {
 			let mut buf = [0; 256];
-			let l = io.read(&mut buf).await.unwrap();
+			// Treat failure as the end of the output.
+			let l = io.read(&mut buf).await.unwrap_or(0);
 			(io, buf, l, channel)
 		}
 		let mut buf = Vec::new();
-- 
2.43.0


From 5793c89469e52b2cfe2e3f9a665825132ee4f530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:31 +0000
Subject: [PATCH 25/26] fix: report the exit status of processes without output
 pipes

---
 nora_ssh/src/server.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index c424185..bc16000 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -445,16 +445,8 @@ where
 							.await
 							.map_err(ReceiveError::Out)?;
 					}
-					match (stdout, stderr) {
-						(None, None) => {}
-						(stdout, stderr) => {
-							return Ok(Action::NewIo {
-								stdout,
-								stderr,
-								wait: wait.unwrap(),
-								channel,
-							})
-						}
+					if let Some(wait) = wait {
+						return Ok(Action::NewIo { stdout, stderr, wait, channel });
 					}
 				}
 				Message::Channel(msg::Channel::Data(d)) => {
-- 
2.43.0


From a607360e659fcdd0678389957e58916092dd6ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:31 +0000
Subject: [PATCH 26/26] fix: keep serving when a connection cannot be accepted

---
 nora_sshd/src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nora_sshd/src/main.rs b/nora_sshd/src/main.rs
index 92e9730..4fa6465 100644
--- a/nora_sshd/src/main.rs
+++ b/nora_sshd/src/main.rs
@@ -52,7 +52,13 @@ impl ServerHandlers for Handlers {
 	type Rng = StdRng;
 
 	async fn accept(&self) -> (Self::Read, Self::Write) {
-		self.listener.accept().await.unwrap().0.split()
+		loop {
+			match self.listener.accept().await {
+				Ok((stream, _)) => return stream.split(),
+				// e.g. too many open connections
+				Err(_) => async_std::task::sleep(std::time::Duration::from_millis(100)).await,
+			}
+		}
 	}
 
 	async fn public_key_exists<'a>(
-- 
2.43.0

