//! Runs random histories over a generated interface and compares every step with what the other side sent.
use crate::format::{DecodeError, EncodeError, TestBody, FAIL_ENCODE};
use crate::types::{Rng, Ty};
use fizyr_rpc::*;
use std::collections::{HashSet, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::time::Duration;

pub type Fut<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;

pub struct TypeRef {
	pub name: &'static str,
	pub arb: fn(&mut Rng) -> Vec<u8>,
	pub check: fn(&[u8]) -> Option<DecodeError>,
}

impl TypeRef {
	pub fn of<T: Ty>() -> Self {
		Self {
			name: std::any::type_name::<T>(),
			arb: |rng| crate::encode(&T::arb(rng)),
			check: |data| crate::decode::<T>(data).err(),
		}
	}
}

pub struct MsgSpec {
	pub id: i32,
	pub ty: TypeRef,
}

pub struct SvcSpec {
	pub id: i32,
	pub req: TypeRef,
	pub resp: TypeRef,
	pub ru: Vec<MsgSpec>,
	pub su: Vec<MsgSpec>,
}

pub struct Spec {
	pub services: Vec<SvcSpec>,
	pub streams: Vec<MsgSpec>,
}

/// A value of one of the generated message enums: the index of the variant and the encoded value.
#[derive(Debug, PartialEq)]
pub struct Upd(pub usize, pub Vec<u8>);

pub enum Called<B> {
	Response(Vec<u8>),
	Handle(Box<dyn Sent<B>>),
}

pub enum Recv<B> {
	Stream(Upd),
	Request(usize, Box<dyn Received<B>>, Vec<u8>),
}

pub trait Client<B> {
	fn dup(&self) -> Box<dyn Client<B>>;
	fn call(&self, i: usize, body: Vec<u8>) -> Fut<'_, Result<Called<B>, Error>>;
	fn stream(&self, i: usize, body: Vec<u8>) -> Fut<'_, Result<(), Error>>;
	fn close(self: Box<Self>);
	fn close_handle(&self) -> PeerCloseHandle<B>;
	fn debug(&self) -> String;
}

pub trait Server<B> {
	fn recv(&mut self) -> Fut<'_, Result<Recv<B>, RecvMessageError<B>>>;
	fn close(self: Box<Self>);
	fn close_handle(&self) -> PeerCloseHandle<B>;
	fn debug(&self) -> String;
}

pub trait Sent<B> {
	fn ids(&self) -> (u32, i32);
	fn recv_response(&mut self) -> Fut<'_, Result<Vec<u8>, Error>>;
	fn recv_update(&mut self) -> Fut<'_, Option<Result<Upd, ParseUpdateError<B>>>>;
	fn send_update(&self, i: usize, body: Vec<u8>, via: bool) -> Fut<'_, Result<(), Error>>;
	fn raw_write(&self) -> SentRequestWriteHandle<B>;
	fn into_raw(self: Box<Self>) -> SentRequestHandle<B>;
}

pub trait Received<B> {
	fn ids(&self) -> (u32, i32);
	fn recv_update(&mut self) -> Fut<'_, Option<Result<Upd, ParseUpdateError<B>>>>;
	fn send_update(&self, i: usize, body: Vec<u8>, via: bool) -> Fut<'_, Result<(), Error>>;
	fn send_response(&self, body: Vec<u8>, via: bool) -> Fut<'_, Result<(), Error>>;
	fn send_error(&self, text: String, via: bool) -> Fut<'_, Result<(), Error>>;
	fn raw_write(&self) -> ReceivedRequestWriteHandle<B>;
	fn into_raw(self: Box<Self>) -> ReceivedRequestHandle<B>;
}

pub trait Iface<B> {
	fn client_write(&self, peer: PeerWriteHandle<B>) -> Box<dyn Client<B>>;
	fn client_peer(&self, peer: PeerHandle<B>) -> Box<dyn Client<B>>;
	fn server_read(&self, peer: PeerReadHandle<B>) -> Box<dyn Server<B>>;
	fn server_peer(&self, peer: PeerHandle<B>) -> Box<dyn Server<B>>;
	/// Check the conversions of the generated message enums with random values.
	fn enums(&self, rng: &mut Rng);
}

pub trait Net: TestBody {
	fn pair() -> (PeerHandle<Self>, PeerHandle<Self>);
	/// A run loop that was not started with its handle, and the other side.
	fn unstarted() -> (Fut<'static, ()>, PeerHandle<Self>, PeerHandle<Self>);
}

impl Net for StreamBody {
	fn pair() -> (PeerHandle<Self>, PeerHandle<Self>) {
		let (a, b) = tokio::net::UnixStream::pair().expect("socket pair");
		(
			UnixStreamPeer::spawn(UnixStreamTransport::new(a, Default::default())),
			UnixStreamPeer::spawn(UnixStreamTransport::new(b, Default::default())),
		)
	}

	fn unstarted() -> (Fut<'static, ()>, PeerHandle<Self>, PeerHandle<Self>) {
		let (a, b) = tokio::net::UnixStream::pair().expect("socket pair");
		let (peer, handle) = UnixStreamPeer::new(UnixStreamTransport::new(a, Default::default()));
		(Box::pin(peer.run()), handle, UnixStreamPeer::spawn(UnixStreamTransport::new(b, Default::default())))
	}
}

impl Net for UnixBody {
	fn pair() -> (PeerHandle<Self>, PeerHandle<Self>) {
		let (a, b) = tokio_seqpacket::UnixSeqpacket::pair().expect("socket pair");
		let mut config = UnixConfig::default();
		config.max_body_len_read = 1 << 18;
		config.max_body_len_write = 1 << 18;
		(
			UnixSeqpacketPeer::spawn(UnixSeqpacketTransport::new(a, config.clone())),
			UnixSeqpacketPeer::spawn(UnixSeqpacketTransport::new(b, config)),
		)
	}

	fn unstarted() -> (Fut<'static, ()>, PeerHandle<Self>, PeerHandle<Self>) {
		let (a, b) = tokio_seqpacket::UnixSeqpacket::pair().expect("socket pair");
		let mut config = UnixConfig::default();
		config.max_body_len_read = 1 << 18;
		config.max_body_len_write = 1 << 18;
		let (peer, handle) = UnixSeqpacketPeer::new(UnixSeqpacketTransport::new(a, config.clone()));
		(Box::pin(peer.run()), handle, UnixSeqpacketPeer::spawn(UnixSeqpacketTransport::new(b, config)))
	}
}

/// Check a value of a generated enum: what the conversion methods say, and how it is encoded and decoded as a message.
/// `is` and `as_` have an entry for each variant; `into` converts a fresh copy with the conversion method of the variant.
pub fn check_enum<B: TestBody>(
	what: &str,
	specs: &[MsgSpec],
	idx: usize,
	body: &[u8],
	is: Vec<bool>,
	as_: Vec<Option<Vec<u8>>>,
	into: Vec<Result<Vec<u8>, Error>>,
	encoded: Result<(i32, B), Box<dyn std::error::Error + Send>>,
	decode: &dyn Fn(Message<B>) -> Result<Upd, Error>,
	message_type: MessageType,
) {
	for j in 0..specs.len() {
		assert_eq!(is[j], j == idx, "{what}: is_{j} of variant {idx}");
		assert_eq!(as_[j].as_deref(), (j == idx).then_some(body), "{what}: as_{j} of variant {idx}");
		match &into[j] {
			Ok(x) => assert!(j == idx && x == body, "{what}: into_{j} of variant {idx} gave {x:?}, expected {body:?}"),
			Err(e) => assert!(
				j != idx && format!("{e:?}") == format!("{:?}", Error::unexpected_service_id(specs[idx].id)),
				"{what}: into_{j} of variant {idx} failed with {e:?}"
			),
		}
	}
	match encoded {
		Err(e) => panic!("{what}: encode_message of variant {idx} failed: {e}"),
		Ok((id, b)) => assert!(
			id == specs[idx].id && b.bytes() == body,
			"{what}: encode_message of variant {idx} gave ID {id} and {:?}, expected {} and {body:?}",
			b.bytes(),
			specs[idx].id
		),
	}
	let msg = |id: i32, b: &[u8]| Message::new(MessageHeader { message_type, request_id: 3, service_id: id }, B::make(b.to_vec()));
	match decode(msg(specs[idx].id, body)) {
		Ok(u) => assert_eq!(u, Upd(idx, body.to_vec()), "{what}: decode_message of variant {idx}"),
		Err(e) => panic!("{what}: decode_message of variant {idx} failed: {e:?}"),
	}
	let mut undeclared = specs[idx].id.wrapping_add(1);
	while specs.iter().any(|x| x.id == undeclared) {
		undeclared = undeclared.wrapping_add(1);
	}
	match decode(msg(undeclared, body)) {
		Ok(u) => panic!("{what}: decode_message with undeclared ID {undeclared} gave {u:?}"),
		Err(e) => assert_eq!(format!("{e:?}"), format!("{:?}", Error::unexpected_service_id(undeclared)), "{what}: decode_message with undeclared ID"),
	}
	let mut bad = body.to_vec();
	bad.push(0x55);
	match decode(msg(specs[idx].id, &bad)) {
		Ok(u) => panic!("{what}: decode_message with a bad body gave {u:?}"),
		Err(e) => {
			let expected = Error::decode_failed(Box::new((specs[idx].ty.check)(&bad).unwrap()));
			assert_eq!(format!("{e:?}"), format!("{expected:?}"), "{what}: decode_message with a bad body");
		},
	}
}

pub struct Info {
	pub labels: HashSet<&'static str>,
	pub delivered: usize,
	pub faults: usize,
	/// A good message was delivered after a fault.
	pub recovered: bool,
}

enum CH<B> {
	Typed(Box<dyn Sent<B>>),
	Raw(SentRequestHandle<B>),
	Pending(tokio::task::JoinHandle<Result<Vec<u8>, Error>>),
	Gone,
}

enum SH<B> {
	NotYet,
	Typed(Box<dyn Received<B>>),
	Raw(ReceivedRequestHandle<B>),
	Gone,
}

struct Req<B> {
	svc: Option<usize>,
	id: i32,
	body: Vec<u8>,
	c: CH<B>,
	s: SH<B>,
	up: VecDeque<(i32, Vec<u8>)>,
	down: VecDeque<(i32, Vec<u8>)>,
	/// Service ID and body of the response.
	/// Service ID and body, and whether it was meant as an error.
	response: Option<(i32, Vec<u8>, bool)>,
}

enum Ev {
	Stream(i32, Vec<u8>),
	Request(usize),
}

enum Srv<B> {
	Typed(Box<dyn Server<B>>),
	Raw(PeerReadHandle<B>),
}

macro_rules! ensure {
	($c:expr, $($t:tt)*) => {
		if !$c {
			return Err(format!($($t)*));
		}
	};
}

async fn within<T>(what: &str, patience: Duration, f: impl Future<Output = T>) -> Result<T, String> {
	crate::gate::timeout(patience, f).await.map_err(|_| format!("{what}: nothing happens"))
}

struct H<'a, B: Net> {
	spec: &'a Spec,
	faults: bool,
	patience: Duration,
	client: Box<dyn Client<B>>,
	cw: Option<PeerWriteHandle<B>>,
	server: Srv<B>,
	inbox: VecDeque<Ev>,
	reqs: Vec<Req<B>>,
	info: &'a mut Info,
	_keep: Vec<Box<dyn std::any::Any>>,
}

fn unknown_id(rng: &mut Rng, declared: &[i32], others: &[i32]) -> i32 {
	loop {
		let id = match rng.below(5) {
			0 => *[0, 1, -1, i32::MIN, i32::MAX].get(rng.below(5)).unwrap(),
			1 | 2 if !declared.is_empty() => declared[rng.below(declared.len())] ^ (1 << rng.below(32)),
			3 if !others.is_empty() => others[rng.below(others.len())],
			_ => rng.next() as i32,
		};
		if !declared.contains(&id) {
			return id;
		}
	}
}

/// A body that does not decode as the given type, if `good` is false, or one that does.
fn body_for(rng: &mut Rng, ty: &TypeRef, good: bool) -> Vec<u8> {
	let mut b = (ty.arb)(rng);
	if good {
		return b;
	}
	match rng.below(4) {
		0 => b = Vec::new(),
		1 => b.push(rng.next() as u8),
		2 => {
			let n = rng.below(b.len());
			b.truncate(n);
		},
		_ => b[0] ^= 0x80,
	}
	if (ty.check)(&b).is_none() {
		b = vec![0xee; 2];
	}
	b
}

fn dbg_eq(e: &Error, expected: Error) -> bool {
	format!("{e:?}") == format!("{expected:?}")
}

/// Kinds of messages to send.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
	Typed,
	EncodeFails,
	RawGood,
	RawBad,
	RawUnknown,
}

impl<B: Net> H<'_, B> {
	fn kind(&mut self, rng: &mut Rng) -> Kind {
		if !self.faults {
			return if rng.below(4) == 0 { Kind::RawGood } else { Kind::Typed };
		}
		match rng.below(10) {
			0..=3 => Kind::Typed,
			4 | 5 => Kind::EncodeFails,
			6 => Kind::RawGood,
			7 => Kind::RawBad,
			_ => Kind::RawUnknown,
		}
	}

	fn fault(&mut self, label: &'static str) {
		self.info.labels.insert(label);
		self.info.faults += 1;
	}

	fn good(&mut self, label: &'static str) {
		self.info.labels.insert(label);
		self.info.delivered += 1;
		self.info.recovered |= self.info.faults > 0;
	}

	/// Check the result of an operation whose encoder was told to fail.
	fn encode_failed<T>(&mut self, what: &str, n: u32, r: Result<T, Error>) -> Result<(), String> {
		let asked = FAIL_ENCODE.with(|x| x.take()).is_none();
		match r {
			Ok(_) => Err(format!("{what}: succeeded although the encoder fails")),
			Err(e) => {
				ensure!(asked, "{what}: failed without using the encoder: {e:?}");
				ensure!(dbg_eq(&e, Error::encode_failed(Box::new(EncodeError(n)))), "{what}: the encoder fails with error {n}, the operation with {e:?}");
				self.fault("encoder fails");
				Ok(())
			},
		}
	}

	async fn op(&mut self, op: [u32; 3]) -> Result<(), String> {
		let mut rng = Rng((op[1] as u64) << 32 | op[2] as u64);
		match op[0] % 12 {
			0 => self.send_stream(&mut rng).await,
			1 | 2 => self.send_request(&mut rng).await,
			3 | 4 => self.server_recv().await,
			k => {
				if self.reqs.is_empty() {
					return Ok(());
				}
				// Mostly one of the latest requests.
				let n = self.reqs.len();
				let r = if rng.below(3) == 0 { rng.below(n) } else { n - 1 - rng.below(n.min(3)) };
				match k {
					5 | 6 => self.update(&mut rng, r, true).await,
					7 | 8 => self.update(&mut rng, r, false).await,
					9 => self.server_recv_update(r).await,
					10 => {
						if rng.below(2) == 0 {
							self.client_recv_update(r).await
						} else {
							self.client_recv_response(r).await
						}
					},
					_ => self.respond(&mut rng, r).await,
				}
			},
		}
	}

	async fn send_stream(&mut self, rng: &mut Rng) -> Result<(), String> {
		let spec = self.spec;
		let mut kind = self.kind(rng);
		if spec.streams.is_empty() && kind != Kind::RawUnknown {
			if !self.faults {
				return Ok(());
			}
			kind = Kind::RawUnknown;
		}
		let raw = match &self.cw {
			Some(x) => x.clone(),
			None if kind == Kind::RawUnknown || kind == Kind::RawBad => return Ok(()),
			None if kind == Kind::RawGood => {
				kind = Kind::Typed;
				return self.send_stream_kind(rng, kind, None).await;
			},
			None => return self.send_stream_kind(rng, kind, None).await,
		};
		self.send_stream_kind(rng, kind, Some(raw)).await
	}

	async fn send_stream_kind(&mut self, rng: &mut Rng, kind: Kind, raw: Option<PeerWriteHandle<B>>) -> Result<(), String> {
		let spec = self.spec;
		let patience = self.patience;
		let (id, body) = match kind {
			Kind::RawUnknown => {
				let declared: Vec<i32> = spec.streams.iter().map(|x| x.id).collect();
				let others: Vec<i32> = spec.services.iter().map(|x| x.id).collect();
				(unknown_id(rng, &declared, &others), rng.next().to_le_bytes()[..rng.below(9)].to_vec())
			},
			_ => {
				let i = rng.below(spec.streams.len());
				let s = &spec.streams[i];
				let body = body_for(rng, &s.ty, kind != Kind::RawBad);
				match kind {
					Kind::Typed => {
						let what = format!("send_stream {i}");
						let client = self.client.dup();
						let r = within(&what, patience, client.stream(i, body.clone())).await?;
						ensure!(r.is_ok(), "{what} failed: {:?}", r.err());
						self.inbox.push_back(Ev::Stream(s.id, body));
						return Ok(());
					},
					Kind::EncodeFails => {
						let n = rng.next() as u32;
						FAIL_ENCODE.with(|x| x.set(Some(n)));
						let what = format!("send_stream {i}");
						let client = self.client.dup();
						let r = within(&what, patience, client.stream(i, body)).await?;
						return self.encode_failed(&what, n, r);
					},
					_ => (s.id, body),
				}
			},
		};
		let r = within("raw send_stream", patience, raw.unwrap().send_stream(id, B::make(body.clone()))).await?;
		ensure!(r.is_ok(), "raw send_stream failed: {:?}", r.err());
		self.inbox.push_back(Ev::Stream(id, body));
		Ok(())
	}

	async fn send_request(&mut self, rng: &mut Rng) -> Result<(), String> {
		if self.reqs.len() >= 60 {
			return Ok(());
		}
		let spec = self.spec;
		let patience = self.patience;
		let mut kind = self.kind(rng);
		if spec.services.is_empty() {
			if !self.faults {
				return Ok(());
			}
			kind = Kind::RawUnknown;
		}
		if self.cw.is_none() {
			match kind {
				Kind::RawUnknown | Kind::RawBad => return Ok(()),
				Kind::RawGood => kind = Kind::Typed,
				_ => (),
			}
		}
		let index = self.reqs.len();
		let (svc, id, body) = match kind {
			Kind::RawUnknown => {
				let declared: Vec<i32> = spec.services.iter().map(|x| x.id).collect();
				let others: Vec<i32> = spec.streams.iter().map(|x| x.id).collect();
				(None, unknown_id(rng, &declared, &others), rng.next().to_le_bytes()[..rng.below(9)].to_vec())
			},
			_ => {
				let i = rng.below(spec.services.len());
				let s = &spec.services[i];
				let body = body_for(rng, &s.req, kind != Kind::RawBad);
				let what = format!("call of service {i}");
				match kind {
					Kind::EncodeFails => {
						let n = rng.next() as u32;
						FAIL_ENCODE.with(|x| x.set(Some(n)));
						let client = self.client.dup();
						let r = within(&what, patience, client.call(i, body)).await?;
						return self.encode_failed(&what, n, r.map(|_| ()));
					},
					Kind::Typed => {
						let client = self.client.dup();
						let c = if s.ru.is_empty() && s.su.is_empty() {
							let b = body.clone();
							let mut f: Fut<'static, Result<Vec<u8>, Error>> = Box::pin(async move {
								match client.call(i, b).await? {
									Called::Response(x) => Ok(x),
									Called::Handle(_) => panic!("service without updates gives a handle"),
								}
							});
							// Poll once: that queues the request before anything that follows.
							let early = std::future::poll_fn(|cx| std::task::Poll::Ready(f.as_mut().poll(cx))).await;
							if let std::task::Poll::Ready(r) = early {
								return Err(format!("{what} finished before there was a response: {r:?}"));
							}
							CH::Pending(tokio::task::spawn_local(f))
						} else {
							match within(&what, patience, client.call(i, body.clone())).await? {
								Ok(Called::Handle(h)) => {
									ensure!(h.ids().1 == s.id, "{what}: the handle has service ID {}, expected {}", h.ids().1, s.id);
									CH::Typed(h)
								},
								Ok(Called::Response(_)) => return Err(format!("{what} gave a response")),
								Err(e) => return Err(format!("{what} failed: {e:?}")),
							}
						};
						self.reqs.push(Req { svc: Some(i), id: s.id, body, c, s: SH::NotYet, up: Default::default(), down: Default::default(), response: None });
						self.inbox.push_back(Ev::Request(index));
						return Ok(());
					},
					_ => (Some(i), s.id, body),
				}
			},
		};
		let raw = self.cw.clone().unwrap();
		let r = within("raw send_request", patience, raw.send_request(id, B::make(body.clone()))).await?;
		let h = r.map_err(|e| format!("raw send_request failed: {e:?}"))?;
		self.reqs.push(Req { svc, id, body, c: CH::Raw(h), s: SH::NotYet, up: Default::default(), down: Default::default(), response: None });
		self.inbox.push_back(Ev::Request(index));
		Ok(())
	}

	async fn server_recv(&mut self) -> Result<(), String> {
		let Some(ev) = self.inbox.pop_front() else { return Ok(()) };
		let spec = self.spec;
		let patience = self.patience;
		match &mut self.server {
			Srv::Raw(read) => {
				let msg = within("recv_message", patience, read.recv_message()).await?.map_err(|e| format!("recv_message failed: {e:?}"))?;
				match (ev, msg) {
					(Ev::Stream(id, body), ReceivedMessage::Stream(m)) => {
						ensure!(m.header.message_type == MessageType::Stream, "stream message arrived as {:?}", m.header);
						ensure!(m.header.service_id == id && m.body.bytes() == body, "stream message with ID {id} and {body:?} arrived as {:?} with {:?}", m.header, m.body.bytes());
						self.good("stream on the wire");
					},
					(Ev::Request(r), ReceivedMessage::Request(h, b)) => {
						let req = &mut self.reqs[r];
						ensure!(h.service_id() == req.id && b.bytes() == req.body, "request with ID {} and {:?} arrived as ID {} with {:?}", req.id, req.body, h.service_id(), b.bytes());
						req.s = SH::Raw(h);
						self.good("request on the wire");
					},
					(Ev::Stream(id, _), other) => return Err(format!("expected stream message {id}, received {other:?}")),
					(Ev::Request(r), other) => return Err(format!("expected request {}, received {other:?}", self.reqs[r].id)),
				}
			},
			Srv::Typed(server) => {
				let msg = within("recv_message", patience, server.recv()).await?;
				match ev {
					Ev::Stream(id, body) => {
						let expected = spec.streams.iter().position(|x| x.id == id);
						match (expected, msg) {
							(Some(i), Ok(Recv::Stream(u))) => {
								ensure!(u.0 == i && u.1 == body, "stream message {i} with value {body:?} arrived as {u:?}");
								self.good("stream");
							},
							(Some(i), Err(RecvMessageError::InvalidStream(header, e))) => {
								let Some(err) = (spec.streams[i].ty.check)(&body) else {
									return Err(format!("valid stream message {i} with body {body:?} is reported as invalid: {e}"));
								};
								ensure!(header.message_type == MessageType::Stream && header.service_id == id, "invalid stream message {id} reported with header {header:?}");
								ensure!(e.to_string() == err.to_string(), "invalid stream message reported with error {e}, expected {err}");
								self.fault("invalid stream");
							},
							(None, Err(err)) => {
								ensure!(err.request_handle().is_none(), "unknown stream message has a request handle");
								let RecvMessageError::UnknownStream(m) = err else {
									return Err(format!("unknown stream message {id} reported as {err:?}"));
								};
								ensure!(m.header.message_type == MessageType::Stream && m.header.service_id == id && m.body.bytes() == body, "unknown stream message with ID {id} and body {body:?} reported as {:?} with {:?}", m.header, m.body.bytes());
								self.fault("unknown stream");
							},
							(_, Ok(Recv::Stream(u))) => return Err(format!("stream message {id} with body {body:?} arrived as {u:?}")),
							(_, Ok(Recv::Request(i, ..))) => return Err(format!("stream message {id} arrived as request of service {i}")),
							(_, Err(e)) => return Err(format!("stream message {id} with body {body:?} arrived as error {e:?}")),
						}
					},
					Ev::Request(r) => {
						let id = self.reqs[r].id;
						let body = self.reqs[r].body.clone();
						let expected = spec.services.iter().position(|x| x.id == id);
						let sh;
						match (expected, msg) {
							(Some(i), Ok(Recv::Request(j, h, b))) => {
								ensure!(i == j && b == body, "request of service {i} with value {body:?} arrived as service {j} with {b:?}");
								ensure!(h.ids().1 == id, "request of service {id} arrived with ID {}", h.ids().1);
								if let CH::Typed(c) = &self.reqs[r].c {
									ensure!(c.ids().0 == h.ids().0, "request ID {} on one side, {} on the other", c.ids().0, h.ids().0);
								}
								sh = SH::Typed(h);
								self.good("request");
							},
							(Some(i), Err(mut err @ RecvMessageError::InvalidRequest(..))) => {
								ensure!(err.request_handle().is_some() && err.request_handle_mut().is_some(), "invalid request without a request handle");
								let RecvMessageError::InvalidRequest(h, e) = err else { unreachable!() };
								let Some(err) = (spec.services[i].req.check)(&body) else {
									return Err(format!("valid request {i} with body {body:?} is reported as invalid: {e}"));
								};
								ensure!(h.service_id() == id, "invalid request {id} reported with handle {h:?}");
								ensure!(e.to_string() == err.to_string(), "invalid request reported with error {e}, expected {err}");
								sh = SH::Raw(h);
								self.fault("invalid request");
							},
							(None, Err(mut err)) => {
								ensure!(err.request_handle().is_some() && err.request_handle_mut().is_some(), "unknown request {id} reported without a request handle: {err:?}");
								let RecvMessageError::UnknownRequest(h, b) = err else {
									return Err(format!("unknown request {id} reported as {err:?}"));
								};
								ensure!(h.service_id() == id && b.bytes() == body, "unknown request with ID {id} and body {body:?} reported as {h:?} with {:?}", b.bytes());
								sh = SH::Raw(h);
								self.fault("unknown request");
							},
							(_, Ok(Recv::Stream(u))) => return Err(format!("request {id} arrived as stream message {u:?}")),
							(_, Ok(Recv::Request(i, _, b))) => return Err(format!("request {id} with body {body:?} arrived as request of service {i} with {b:?}")),
							(_, Err(e)) => return Err(format!("request {id} with body {body:?} arrived as error {e:?}")),
						}
						self.reqs[r].s = sh;
					},
				}
			},
		}
		Ok(())
	}

	/// Send an update; `up` is from the client to the server.
	async fn update(&mut self, rng: &mut Rng, r: usize, up: bool) -> Result<(), String> {
		let spec = self.spec;
		let patience = self.patience;
		let mut kind = self.kind(rng);
		let req = &self.reqs[r];
		if req.response.is_some() {
			return Ok(());
		}
		let none = Vec::new();
		let specs = match req.svc {
			Some(i) if up => &spec.services[i].ru,
			Some(i) => &spec.services[i].su,
			None => &none,
		};
		let typed = match (up, &req.c, &req.s) {
			(true, CH::Typed(_), _) | (false, _, SH::Typed(_)) => true,
			(true, CH::Raw(_), _) | (false, _, SH::Raw(_)) => false,
			_ => return Ok(()),
		};
		if !up && matches!(req.c, CH::Pending(_)) {
			// A call without updates ends with an error if there is one.
			return Ok(());
		}
		if !typed && matches!(kind, Kind::Typed | Kind::EncodeFails) {
			kind = Kind::RawGood;
		}
		if specs.is_empty() && kind != Kind::RawUnknown {
			if !self.faults {
				return Ok(());
			}
			kind = Kind::RawUnknown;
		}
		let via = rng.below(2) == 0;
		let what = format!("update {}", if up { "by the client" } else { "by the server" });
		if kind == Kind::Typed || kind == Kind::EncodeFails {
			let i = rng.below(specs.len());
			let body = body_for(rng, &specs[i].ty, true);
			let n = rng.next() as u32;
			if kind == Kind::EncodeFails {
				FAIL_ENCODE.with(|x| x.set(Some(n)));
			}
			let f = match (up, &req.c, &req.s) {
				(true, CH::Typed(h), _) => h.send_update(i, body.clone(), via),
				(false, _, SH::Typed(h)) => h.send_update(i, body.clone(), via),
				_ => unreachable!(),
			};
			let res = within(&what, patience, f).await?;
			if kind == Kind::EncodeFails {
				return self.encode_failed(&what, n, res);
			}
			ensure!(res.is_ok(), "{what} failed: {:?}", res.err());
			let id = specs[i].id;
			let req = &mut self.reqs[r];
			let queue = if up { &mut req.up } else { &mut req.down };
			queue.push_back((id, body));
			return Ok(());
		}
		let (id, body) = if kind == Kind::RawUnknown {
			let declared: Vec<i32> = specs.iter().map(|x| x.id).collect();
			let mut others = vec![req.id];
			if let Some(i) = req.svc {
				others.extend(spec.services[i].ru.iter().chain(&spec.services[i].su).map(|x| x.id));
			}
			(unknown_id(rng, &declared, &others), rng.next().to_le_bytes()[..rng.below(9)].to_vec())
		} else {
			let i = rng.below(specs.len());
			(specs[i].id, body_for(rng, &specs[i].ty, kind == Kind::RawGood))
		};
		let b = B::make(body.clone());
		let res = match (up, &req.c, &req.s) {
			(true, CH::Typed(h), _) => within(&what, patience, h.raw_write().send_update(id, b)).await?,
			(true, CH::Raw(h), _) => within(&what, patience, h.send_update(id, b)).await?,
			(false, _, SH::Typed(h)) => within(&what, patience, h.raw_write().send_update(id, b)).await?,
			(false, _, SH::Raw(h)) => within(&what, patience, h.send_update(id, b)).await?,
			_ => unreachable!(),
		};
		ensure!(res.is_ok(), "raw {what} failed: {:?}", res.err());
		let req = &mut self.reqs[r];
		let queue = if up { &mut req.up } else { &mut req.down };
		queue.push_back((id, body));
		Ok(())
	}

	fn judge_update(&mut self, what: &str, specs: &[MsgSpec], typ: MessageType, id: i32, body: Vec<u8>, got: Option<Result<Upd, ParseUpdateError<B>>>) -> Result<(), String> {
		let expected = specs.iter().position(|x| x.id == id);
		match (expected, got) {
			(_, None) => Err(format!("{what}: no update, but update {id} with body {body:?} was sent")),
			(Some(i), Some(Ok(u))) => {
				ensure!(u.0 == i && u.1 == body, "{what}: update {i} with value {body:?} arrived as {u:?}");
				self.good(if typ == MessageType::RequesterUpdate { "request update" } else { "response update" });
				Ok(())
			},
			(None, Some(Ok(u))) => Err(format!("{what}: unknown update {id} with body {body:?} arrived as {u:?}")),
			(Some(i), Some(Err(ParseUpdateError::InvalidUpdate(header, e)))) => {
				let Some(err) = (specs[i].ty.check)(&body) else {
					return Err(format!("{what}: valid update {i} with body {body:?} is reported as invalid: {e}"));
				};
				ensure!(header.message_type == typ && header.service_id == id, "{what}: invalid update {id} reported with header {header:?}");
				ensure!(e.to_string() == err.to_string(), "{what}: invalid update reported with error {e}, expected {err}");
				self.fault("invalid update");
				Ok(())
			},
			(None, Some(Err(ParseUpdateError::UnknownUpdate(m)))) => {
				ensure!(m.header.message_type == typ && m.header.service_id == id && m.body.bytes() == body, "{what}: unknown update {id} with body {body:?} reported as {:?} with {:?}", m.header, m.body.bytes());
				self.fault("unknown update");
				Ok(())
			},
			(_, Some(Err(e))) => Err(format!("{what}: update {id} with body {body:?} reported as {e:?}")),
		}
	}

	fn judge_raw_update(&mut self, what: &str, typ: MessageType, id: i32, body: Vec<u8>, got: Option<Message<B>>) -> Result<(), String> {
		match got {
			None => Err(format!("{what}: no update, but update {id} with body {body:?} was sent")),
			Some(m) => {
				ensure!(m.header.message_type == typ && m.header.service_id == id && m.body.bytes() == body, "{what}: update {id} with body {body:?} arrived as {:?} with {:?}", m.header, m.body.bytes());
				self.good(if typ == MessageType::RequesterUpdate { "request update on the wire" } else { "response update on the wire" });
				Ok(())
			},
		}
	}

	async fn server_recv_update(&mut self, r: usize) -> Result<(), String> {
		let spec = self.spec;
		let patience = self.patience;
		let what = "recv_update of the server";
		let req = &mut self.reqs[r];
		if matches!(req.s, SH::NotYet | SH::Gone) {
			return Ok(());
		}
		let Some((id, body)) = req.up.pop_front() else { return Ok(()) };
		if let (SH::Typed(_), Some(i)) = (&req.s, req.svc) {
			if spec.services[i].ru.is_empty() {
				let SH::Typed(h) = std::mem::replace(&mut req.s, SH::Gone) else { unreachable!() };
				req.s = SH::Raw(h.into_raw());
			}
		}
		match &mut req.s {
			SH::Typed(h) => {
				let got = within(what, patience, h.recv_update()).await?;
				self.judge_update(what, &spec.services[self.reqs[r].svc.unwrap()].ru, MessageType::RequesterUpdate, id, body, got)
			},
			SH::Raw(h) => {
				let got = within(what, patience, h.recv_update()).await?;
				self.judge_raw_update(what, MessageType::RequesterUpdate, id, body, got)
			},
			_ => unreachable!(),
		}
	}

	async fn client_recv_update(&mut self, r: usize) -> Result<(), String> {
		let spec = self.spec;
		let patience = self.patience;
		let what = "recv_update of the client";
		let req = &mut self.reqs[r];
		if matches!(req.c, CH::Pending(_) | CH::Gone) {
			return Ok(());
		}
		let Some((id, body)) = req.down.pop_front() else {
			// Only the response is left: there must be no update.
			if req.response.is_some() {
				let nothing = match &mut req.c {
					CH::Typed(h) if !spec.services[req.svc.unwrap()].su.is_empty() => within(what, patience, h.recv_update()).await?.is_none(),
					CH::Raw(h) => within(what, patience, h.recv_update()).await?.is_none(),
					_ => true,
				};
				ensure!(nothing, "{what}: there is an update, but only the response was sent");
			}
			return Ok(());
		};
		if let (CH::Typed(_), Some(i)) = (&req.c, req.svc) {
			if spec.services[i].su.is_empty() {
				let CH::Typed(h) = std::mem::replace(&mut req.c, CH::Gone) else { unreachable!() };
				req.c = CH::Raw(h.into_raw());
			}
		}
		match &mut req.c {
			CH::Typed(h) => {
				let got = within(what, patience, h.recv_update()).await?;
				self.judge_update(what, &spec.services[self.reqs[r].svc.unwrap()].su, MessageType::ResponderUpdate, id, body, got)
			},
			CH::Raw(h) => {
				let got = within(what, patience, h.recv_update()).await?;
				self.judge_raw_update(what, MessageType::ResponderUpdate, id, body, got)
			},
			_ => unreachable!(),
		}
	}

	async fn respond(&mut self, rng: &mut Rng, r: usize) -> Result<(), String> {
		let spec = self.spec;
		let patience = self.patience;
		let faults = self.faults;
		let req = &self.reqs[r];
		if matches!(req.s, SH::NotYet | SH::Gone) || !req.up.is_empty() || req.response.is_some() {
			return Ok(());
		}
		let via = rng.below(2) == 0;
		let what = "response";
		let how = if faults { rng.below(6) } else { 0 };
		let text = match rng.below(4) {
			0 => String::new(),
			1 => String::arb(rng),
			2 => "error \u{1F980}\n\0end".to_string(),
			_ => format!("failure {}", rng.next() % 1000),
		};
		let mut sent = (req.id, Vec::new(), false);
		let value = req.svc.map(|i| body_for(rng, &spec.services[i].resp, true)).unwrap_or_else(|| rng.next().to_le_bytes()[..rng.below(9)].to_vec());
		let res = match (&req.s, how) {
			(SH::Typed(h), 0 | 1) => {
				sent.1 = value.clone();
				within(what, patience, h.send_response(value, via)).await?
			},
			(SH::Raw(h), 0 | 1) => {
				sent.1 = value.clone();
				if via {
					within(what, patience, h.write_handle().send_response(req.id, B::make(value))).await?
				} else {
					within(what, patience, h.send_response(req.id, B::make(value))).await?
				}
			},
			(SH::Typed(h), 2) => {
				sent = (service_id::ERROR, text.clone().into_bytes(), true);
				within(what, patience, h.send_error(text, via)).await?
			},
			(SH::Raw(h), 2) => {
				sent = (service_id::ERROR, text.clone().into_bytes(), true);
				within(what, patience, h.send_error_response(&text)).await?
			},
			(SH::Typed(h), 3) => {
				let n = rng.next() as u32;
				FAIL_ENCODE.with(|x| x.set(Some(n)));
				let res = within(what, patience, h.send_response(value, via)).await?;
				return self.encode_failed(what, n, res);
			},
			(s, _) => {
				// A raw response: a body that does not decode, or an error response with an arbitrary body.
				sent = match (req.svc, how) {
					(Some(i), 3 | 4) => (req.id, body_for(rng, &spec.services[i].resp, false), false),
					(_, 5) if rng.below(2) == 0 => (service_id::ERROR, vec![b'a', 0xff, b'b'], true),
					_ => (service_id::ERROR, value, true),
				};
				let w = match s {
					SH::Typed(h) => h.raw_write(),
					SH::Raw(h) => h.write_handle(),
					_ => unreachable!(),
				};
				within(what, patience, w.send_response(sent.0, B::make(sent.1.clone()))).await?
			},
		};
		ensure!(res.is_ok(), "{what} failed: {:?}", res.err());
		self.reqs[r].response = Some(sent);
		self.reqs[r].s = SH::Gone;
		Ok(())
	}

	fn judge_response(&mut self, svc: usize, sent: (i32, Vec<u8>, bool), got: Result<Vec<u8>, Error>) -> Result<(), String> {
		let (id, body, error) = sent;
		let expected: Result<Vec<u8>, Error> = if error {
			Err(match String::from_utf8(body.clone()) {
				Ok(text) => Error::remote_error(text),
				Err(e) => Error::decode_failed(Box::new(e)),
			})
		} else {
			match (self.spec.services[svc].resp.check)(&body) {
				None => Ok(body.clone()),
				Some(e) => Err(Error::decode_failed(Box::new(e))),
			}
		};
		match (expected, got) {
			(Ok(a), Ok(b)) => {
				ensure!(a == b, "response with value {a:?} arrived as {b:?}");
				self.good("response");
				Ok(())
			},
			(Err(a), Err(b)) => {
				if let Some(text) = a.as_remote_error() {
					ensure!(b.is_remote_error() && b.as_remote_error() == Some(text), "error response {text:?} arrived as {b:?}");
					let text = text.to_string();
					ensure!(b.into_remote_error().as_deref() == Some(&text[..]), "into_remote_error does not give {text:?}");
					self.fault("error response");
				} else {
					ensure!(!b.is_remote_error(), "undecodable response reported as remote error {b:?}");
					ensure!(format!("{a:?}") == format!("{b:?}"), "response with ID {id} and body {body:?}: expected error {a:?}, got {b:?}");
					self.fault("invalid response");
				}
				Ok(())
			},
			(a, b) => Err(format!("response with ID {id} and body {body:?}: expected {a:?}, got {b:?}")),
		}
	}

	async fn client_recv_response(&mut self, r: usize) -> Result<(), String> {
		let patience = self.patience;
		let what = "recv_response";
		let req = &mut self.reqs[r];
		if matches!(req.c, CH::Gone) {
			return Ok(());
		}
		if !req.down.is_empty() {
			// There is an update first: an error, and nothing is lost.
			let e = match &mut req.c {
				CH::Typed(h) => within(what, patience, h.recv_response()).await?.err(),
				CH::Raw(h) => within(what, patience, h.recv_response()).await?.err(),
				_ => return Ok(()),
			};
			ensure!(e.as_ref().is_some_and(|e| e.is_unexpected_message_type()), "{what}: an update is first, but the result is {e:?}");
			self.info.labels.insert("recv_response before the updates");
			return Ok(());
		}
		let Some(sent) = req.response.clone() else { return Ok(()) };
		let svc = req.svc;
		match std::mem::replace(&mut req.c, CH::Gone) {
			CH::Gone => unreachable!(),
			CH::Raw(mut h) => {
				let m = within(what, patience, h.recv_response()).await?.map_err(|e| format!("{what} failed: {e:?}"))?;
				ensure!(m.header.message_type == MessageType::Response && m.header.service_id == sent.0 && m.body.bytes() == sent.1, "response with ID {} and body {:?} arrived as {:?} with {:?}", sent.0, sent.1, m.header, m.body.bytes());
				self.good("response on the wire");
				Ok(())
			},
			CH::Typed(mut h) => {
				let got = within(what, patience, h.recv_response()).await?;
				self.judge_response(svc.unwrap(), sent, got)
			},
			CH::Pending(task) => {
				let got = within("call", patience, task).await?.map_err(|e| format!("call panicked: {e:?}"))?;
				self.judge_response(svc.unwrap(), sent, got)
			},
		}
	}
}

pub async fn history<B: Net>(iface: &dyn Iface<B>, spec: &Spec, ops: &[[u32; 3]], faults: bool, patience: Duration, info: &mut Info) -> Result<(), String> {
	FAIL_ENCODE.with(|x| x.set(None));
	let conf = ops.first().map(|x| x[2]).unwrap_or(0);
	let (a, b) = B::pair();
	let mut keep: Vec<Box<dyn std::any::Any>> = Vec::new();
	let (client, cw) = if conf % 4 == 0 {
		(iface.client_peer(a), None)
	} else {
		let (read, write) = a.split();
		keep.push(Box::new(read));
		let raw = write.clone();
		(iface.client_write(write), Some(raw))
	};
	let server = match (conf / 4) % 5 {
		0 | 1 => {
			let (read, write) = b.split();
			keep.push(Box::new(write));
			Srv::Raw(read)
		},
		2 => Srv::Typed(iface.server_peer(b)),
		_ => {
			let (read, write) = b.split();
			keep.push(Box::new(write));
			Srv::Typed(iface.server_read(read))
		},
	};
	let _ = client.debug();
	let mut h = H { spec, faults, patience, client, cw, server, inbox: Default::default(), reqs: Vec::new(), info, _keep: keep };
	for op in ops.iter().skip(1) {
		h.op(*op).await?;
	}
	// Receive and answer everything that is still open.
	while !h.inbox.is_empty() {
		h.server_recv().await?;
	}
	let mut rng = Rng(conf as u64);
	for r in 0..h.reqs.len() {
		while !h.reqs[r].up.is_empty() {
			h.server_recv_update(r).await?;
		}
		for _ in 0..40 {
			if h.reqs[r].response.is_some() {
				break;
			}
			h.respond(&mut rng, r).await?;
		}
		while !h.reqs[r].down.is_empty() {
			h.client_recv_update(r).await?;
		}
		if rng.below(2) == 0 {
			h.client_recv_update(r).await?;
		}
		h.client_recv_response(r).await?;
	}
	// Nothing else may arrive.
	match conf / 20 % 4 {
		0 => h.client.dup().close(),
		1 => h.client.close_handle().close(),
		2 => {
			if let Srv::Typed(s) = &h.server {
				let _ = s.debug();
				s.close_handle().close();
			}
			h.client.dup().close();
		},
		_ => {
			h.reqs.clear();
			h.cw = None;
			h._keep.clear();
			h.client.dup().close();
		},
	}
	match &mut h.server {
		Srv::Raw(read) => match within("end of the connection", patience, read.recv_message()).await? {
			Ok(m) => return Err(format!("received a message that was not sent: {m:?}")),
			Err(e) => ensure!(e.is_connection_aborted(), "connection ended with {e:?}"),
		},
		Srv::Typed(s) => match within("end of the connection", patience, s.recv()).await? {
			Ok(Recv::Stream(u)) => return Err(format!("received a stream message that was not sent: {u:?}")),
			Ok(Recv::Request(i, ..)) => return Err(format!("received a request for service {i} that was not sent")),
			Err(e) => {
				ensure!(e.is_connection_aborted(), "connection ended with {e:?}");
				ensure!(matches!(e, RecvMessageError::Other(_)), "connection ended with {e:?}");
			},
		},
	}
	Ok(())
}

/// One interface of a program.
pub struct Entry {
	pub name: &'static str,
	/// The kind of history: 0 without faults, 1 with faults, 2 lifetimes of the handles.
	pub run: fn(&[[u32; 3]], u8, Duration, &mut Info) -> Result<(), String>,
	pub enums: fn(u64) -> Result<(), String>,
	/// Check the introspection data.
	pub inspect: fn() -> Result<(), String>,
}

pub(crate) fn catch<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
	thread_local!(static MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });
	std::panic::set_hook(Box::new(|info| MSG.with(|m| *m.borrow_mut() = info.to_string())));
	match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
		Ok(x) => x,
		Err(_) => Err(format!("panic: {}", MSG.with(|m| m.borrow().clone()))),
	}
}

pub fn run_history<B: Net>(iface: &dyn Iface<B>, spec: &Spec, ops: &[[u32; 3]], kind: u8, patience: Duration, info: &mut Info) -> Result<(), String> {
	if kind == 2 {
		return crate::life::run_life(iface, spec, ops, patience, info);
	}
	let faults = kind == 1;
	let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
	let set = tokio::task::LocalSet::new();
	catch(|| set.block_on(&rt, history(iface, spec, ops, faults, patience, info)))
}

pub fn run_enums<B: Net>(iface: &dyn Iface<B>, seed: u64) -> Result<(), String> {
	catch(|| {
		iface.enums(&mut Rng(seed));
		Ok(())
	})
}

fn info() -> Info {
	Info { labels: Default::default(), delivered: 0, faults: 0, recovered: false }
}

fn print_ops(ops: &[[u32; 3]]) -> String {
	ops.iter().map(|o| format!("{}:{}:{}", o[0], o[1], o[2])).collect::<Vec<_>>().join(",")
}

fn parse_ops(s: &str) -> Vec<[u32; 3]> {
	s.split(',')
		.filter(|x| !x.is_empty())
		.map(|o| {
			let v: Vec<u32> = o.split(':').map(|x| x.parse().unwrap()).collect();
			[v[0], v[1], v[2]]
		})
		.collect()
}

fn shrink(e: &Entry, mut ops: Vec<[u32; 3]>, faults: u8, mut msg: String) -> (Vec<[u32; 3]>, String) {
	let began = std::time::Instant::now();
	let mut chunk = (ops.len() / 2).max(1);
	loop {
		let mut i = 1;
		let mut progress = false;
		while i < ops.len() {
			if began.elapsed() > Duration::from_secs(20) {
				return (ops, msg);
			}
			let mut c = ops.clone();
			c.drain(i..(i + chunk).min(ops.len()));
			match (e.run)(&c, faults, Duration::from_secs(2), &mut info()) {
				Err(m) => {
					ops = c;
					msg = m;
					progress = true;
				},
				Ok(()) => i += chunk,
			}
		}
		if chunk > 1 {
			chunk /= 2;
		} else if !progress {
			return (ops, msg);
		}
	}
}

/// Arguments: `inspect`, `run SEED HISTORIES FAULTS SECONDS`, `ops INDEX FAULTS OPS`, `enums INDEX SEED`.
pub fn program(entries: &[Entry]) {
	let args: Vec<String> = std::env::args().skip(1).collect();
	let num = |i: usize| args[i].parse::<u64>().unwrap();
	match &args[0][..] {
		"inspect" => {
			for (i, e) in entries.iter().enumerate() {
				match catch(e.inspect) {
					Ok(()) => println!("OK {i}"),
					Err(m) => println!("FAIL {i} inspect {}", m.replace('\n', "\\n")),
				}
			}
		},
		"ops" => {
			let e = &entries[num(1) as usize];
			match (e.run)(&parse_ops(&args[3]), num(2) as u8, Duration::from_secs(10), &mut info()) {
				Ok(()) => println!("OK {}", args[1]),
				Err(m) => println!("FAIL {} ops {} {}", args[1], args[3], m.replace('\n', "\\n")),
			}
		},
		"enums" => match (entries[num(1) as usize].enums)(num(2)) {
			Ok(()) => println!("OK {}", args[1]),
			Err(m) => println!("FAIL {} enums {} {}", args[1], args[2], m.replace('\n', "\\n")),
		},
		"run" => {
			let (seed, n, faults) = (num(1), num(2), num(3) as u8);
			let deadline = std::time::Instant::now() + Duration::from_secs(num(4));
			let began = std::time::Instant::now();
			let mut failed = false;
			'entries: for (i, e) in entries.iter().enumerate() {
				if failed && began.elapsed() > Duration::from_secs(20) {
					break;
				}
				let mut rng = Rng(seed ^ (i as u64) << 40);
				let mut hashes = Vec::new();
				let mut labels = HashSet::new();
				let mut sample = String::new();
				let (mut ran, mut delivered, mut fault_count) = (0u64, 0, 0);
				for _ in 0..n.div_ceil(8) {
					let s = rng.next();
					if let Err(m) = (e.enums)(s) {
						println!("FAIL {i} enums {s} {}", m.replace('\n', "\\n"));
						failed = true;
						continue 'entries;
					}
				}
				for _ in 0..n {
					if std::time::Instant::now() > deadline {
						break;
					}
					let len = 2 + rng.below(40);
					let ops: Vec<[u32; 3]> = (0..len).map(|_| [rng.below(13) as u32, rng.next() as u32, rng.next() as u32]).collect();
					let mut inf = info();
					if let Err(m) = (e.run)(&ops, faults, Duration::from_secs(10), &mut inf) {
						let (ops, m) = shrink(e, ops, faults, m);
						println!("FAIL {i} ops {} {}", print_ops(&ops), m.replace('\n', "\\n"));
						failed = true;
						continue 'entries;
					}
					ran += 1;
					delivered += inf.delivered;
					fault_count += inf.faults;
					let nontrivial = match faults {
						0 => inf.delivered >= 3 && inf.labels.len() >= 2,
						1 => inf.recovered,
						_ => inf.delivered > 0 && inf.labels.len() >= 4 && inf.labels.iter().any(|x| x.starts_with("client from") || x.starts_with("server from")),
					};
					if nontrivial {
						let mut h = seed ^ 0x1234_5678;
						for o in &ops {
							h = Rng(h ^ (o[0] as u64) ^ ((o[1] as u64) << 32 | o[2] as u64)).next();
						}
						hashes.push(h);
						if sample.is_empty() {
							sample = print_ops(&ops);
						}
					}
					labels.extend(inf.labels);
				}
				println!("STAT {i} {ran} {delivered} {fault_count} {}", if sample.is_empty() { "-" } else { &sample });
				println!("LABELS {i} {}", labels.into_iter().collect::<Vec<_>>().join("|"));
				println!("HASHES {i} {}", hashes.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(" "));
				println!("OK {i}");
			}
		},
		_ => panic!("unknown command"),
	}
}
