//! Two real peers with many concurrent users, under a seeded scheduler on in-memory channels or on real sockets.
//!
//! Transports are wrapped to record what goes over the wire. After the run the recorded history is checked.
use crate::exec::*;
use crate::fw::*;
use crate::limits::AsBytes;
use crate::mem::*;
use crate::util::*;
use fizyr_rpc::transport::{StreamTransport, Transport, TransportError, TransportReadHalf, TransportWriteHalf, UnixTransport};
use fizyr_rpc::{Body, Message, MessageHeader, Peer, PeerReadHandle, PeerWriteHandle, ReceivedMessage, ReceivedRequestHandle, ReceivedRequestWriteHandle, SentRequestHandle};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- cases

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Net {
	/// Capacity of both directions, in messages.
	Mem(u8, u8),
	Unix,
	Tcp,
	Seq,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum RStep {
	Update,
	Respond,
	Error,
	Yield(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ReqPlan {
	side: bool,
	delay: u8,
	/// Cancel sending the request after this many polls.
	cancel: Option<u8>,
	/// Concurrent senders of updates: number of updates and pause between them.
	senders: Vec<(u8, u8)>,
	/// Concurrent responders.
	resp: Vec<Vec<RStep>>,
	/// How the requester receives: bit set means asking for the response.
	how: u8,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Abrupt {
	Close(bool),
	Cut,
	/// Drop of all read and write handles of a side is what ends the peer (in the orderly end).
	None,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
	seed: u64,
	net: Net,
	slow: bool,
	/// Stop and resume accepting data at random moments.
	gates: bool,
	reqs: Vec<ReqPlan>,
	/// Streams: side, number, pause.
	streams: Vec<(bool, u8, u8)>,
	/// Nobody receives until all sends are done.
	late: bool,
	/// Receives are cancelled after up to this many polls (0: never).
	cancel: u8,
	/// Bodies have up to this many bytes.
	big: u16,
	end: Abrupt,
	/// When (in scheduler steps or in tens of microseconds).
	when: u16,
	/// Orderly end: close, or drop the handles.
	drop: bool,
}

// ---------------------------------------------------------------- history

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Ev {
	/// A send begins: side, kind of message, request number (for messages of a request).
	Start { uid: u32, side: u8, t: u8, req: u32 },
	Done { uid: u32, ok: bool },
	Cancelled { uid: u32 },
	/// A write begins.
	Out { side: u8, h: Hdr, uid: u32 },
	OutDone { uid: u32 },
	In { side: u8, h: Hdr, uid: u32 },
	/// Received from the peer handle.
	Main { side: u8, h: Hdr, uid: u32 },
	MainErr { side: u8 },
	/// Received by the handle of a request with this ID. `sent`: by the side that sent the request.
	Got { side: u8, sent: bool, id: u32, h: Hdr, uid: u32 },
	Ended,
}

#[derive(Default)]
struct Log {
	ev: Vec<Ev>,
	/// Contradictions that were seen at once.
	bad: Vec<(&'static str, String)>,
}

/// The number of responses that a peer sends by itself. They are not part of the history.
const AUTO: u32 = u32::MAX - 1;

struct World {
	log: Mutex<Log>,
	uid: AtomicU32,
	/// Running actors that send before anybody receives.
	senders: AtomicUsize,
	/// All running actors but the receivers of the peers.
	actors: AtomicUsize,
	servers: AtomicUsize,
	big: u16,
	spawn: Box<dyn Fn(Pin<Box<dyn Future<Output = ()> + Send>>) + Send + Sync>,
	ended: std::sync::atomic::AtomicBool,
}

impl World {
	fn ev(&self, e: Ev) {
		if let Ev::Out { uid: AUTO, .. } | Ev::OutDone { uid: AUTO } | Ev::In { uid: AUTO, .. } | Ev::Got { uid: AUTO, .. } = e {
			return;
		}
		self.log.lock().unwrap().ev.push(e)
	}
	fn bad(&self, tag: &'static str, m: String) {
		self.log.lock().unwrap().bad.push((tag, m))
	}
	fn uid(&self) -> u32 {
		self.uid.fetch_add(1, Ordering::SeqCst)
	}
	fn content(&self, uid: u32) -> Vec<u8> {
		let len = if self.big == 0 { 0 } else { uid.wrapping_mul(7919) % self.big as u32 };
		let mut b = uid.to_le_bytes().to_vec();
		b.extend(Bd { len, seed: uid }.bytes());
		b
	}
	fn text(&self, uid: u32) -> String {
		format!("uid:{}", uid)
	}
	/// The number of a message, after checking its content.
	fn parse(&self, h: Hdr, b: &[u8]) -> u32 {
		if let Some(n) = b.strip_prefix(b"uid:").and_then(|x| std::str::from_utf8(x).ok()).and_then(|x| x.parse().ok()) {
			return n;
		}
		if b.len() >= 4 {
			let uid = u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
			if self.content(uid) == b {
				return uid;
			}
		}
		if h.t == 1 && h.svc == -1 {
			// The peer refuses a request by itself when the read handle is gone.
			if !self.has_ended() {
				self.bad("C09", format!("request {} was refused: {}", h.id, String::from_utf8_lossy(b)));
			}
			return AUTO;
		}
		self.bad("C09", format!("a message arrived with a body of {} bytes that nobody sent", b.len()));
		u32::MAX
	}
	fn spawn(self: &Arc<Self>, sender: bool, f: impl Future<Output = ()> + Send + 'static) {
		self.actors.fetch_add(1, Ordering::SeqCst);
		if sender {
			self.senders.fetch_add(1, Ordering::SeqCst);
		}
		let w = self.clone();
		(self.spawn)(Box::pin(async move {
			f.await;
			if sender {
				w.senders.fetch_sub(1, Ordering::SeqCst);
			}
			w.actors.fetch_sub(1, Ordering::SeqCst);
		}))
	}
	fn has_bad(&self) -> bool {
		!self.log.lock().unwrap().bad.is_empty()
	}
	fn has_ended(&self) -> bool {
		self.ended.load(Ordering::SeqCst)
	}
}

// ---------------------------------------------------------------- recording transport

struct Spy<T> {
	inner: T,
	w: Arc<World>,
	side: u8,
}
struct SpyHalf<H> {
	inner: H,
	w: Arc<World>,
	side: u8,
	/// The message that is being written.
	writing: Option<u32>,
}

impl<T: Transport> Transport for Spy<T>
where
	T::Body: AsBytes,
{
	type Body = T::Body;
	type Info = T::Info;
	type Config = T::Config;
	type ReadHalf<'a> = SpyHalf<T::ReadHalf<'a>>;
	type WriteHalf<'a> = SpyHalf<T::WriteHalf<'a>>;
	fn split(&mut self) -> (Self::ReadHalf<'_>, Self::WriteHalf<'_>) {
		let (r, x) = self.inner.split();
		(SpyHalf { inner: r, w: self.w.clone(), side: self.side, writing: None }, SpyHalf { inner: x, w: self.w.clone(), side: self.side, writing: None })
	}
	fn info(&self) -> std::io::Result<T::Info> {
		self.inner.info()
	}
}

impl<H: TransportReadHalf> TransportReadHalf for SpyHalf<H>
where
	H::Body: AsBytes,
{
	type Body = H::Body;
	fn poll_read_msg(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<Message<H::Body>, TransportError>> {
		let r = Pin::new(&mut self.inner).poll_read_msg(cx);
		if let Poll::Ready(Ok(m)) = &r {
			let uid = self.w.parse(Hdr::of(&m.header), m.body.bytes());
			self.w.ev(Ev::In { side: self.side, h: Hdr::of(&m.header), uid });
		}
		r
	}
}

impl<H: TransportWriteHalf> TransportWriteHalf for SpyHalf<H>
where
	H::Body: AsBytes,
{
	type Body = H::Body;
	fn poll_write_msg(mut self: Pin<&mut Self>, cx: &mut Context, header: &MessageHeader, body: &H::Body) -> Poll<Result<(), TransportError>> {
		// The message may arrive at the other side before this call returns, so record the start of the write and its success.
		let uid = self.w.parse(Hdr::of(header), body.bytes());
		if self.writing != Some(uid) {
			self.writing = Some(uid);
			self.w.ev(Ev::Out { side: self.side, h: Hdr::of(header), uid });
		}
		let r = Pin::new(&mut self.inner).poll_write_msg(cx, header, body);
		if let Poll::Ready(x) = &r {
			self.writing = None;
			if x.is_ok() {
				self.w.ev(Ev::OutDone { uid });
			}
		}
		r
	}
}

// ---------------------------------------------------------------- helpers for actors

/// Give others a chance to run.
struct Yield(u32);
impl Future for Yield {
	type Output = ();
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
		if self.0 == 0 {
			return Poll::Ready(());
		}
		self.0 -= 1;
		cx.waker().wake_by_ref();
		Poll::Pending
	}
}

/// Drop the future after so many polls.
struct Within<F>(Option<Pin<Box<F>>>, u32);
impl<F: Future> Future for Within<F> {
	type Output = Option<F::Output>;
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<F::Output>> {
		match self.0.as_mut().unwrap().as_mut().poll(cx) {
			Poll::Ready(x) => Poll::Ready(Some(x)),
			Poll::Pending => {
				if self.1 == 0 {
					self.0 = None;
					return Poll::Ready(None);
				}
				self.1 -= 1;
				cx.waker().wake_by_ref();
				Poll::Pending
			},
		}
	}
}

fn mix(a: u64, b: u64) -> u64 {
	let mut z = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15);
	z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
	z ^ (z >> 29)
}

/// Await a receive, which may be cancelled and repeated first.
macro_rules! receive {
	($c:expr, $rng:expr, $e:expr) => {{
		let mut tries = 0;
		loop {
			$rng = mix($rng, 77);
			if $c.cancel > 0 && tries < 4 && $rng % 3 != 0 {
				tries += 1;
				if let Some(x) = Within(Some(Box::pin($e)), ($rng >> 8) as u32 % $c.cancel as u32).await {
					break x;
				}
				Yield(($rng >> 20) as u32 % 4).await;
			} else {
				break $e.await;
			}
		}
	}};
}

/// One recorded send. Gives false if it failed.
async fn send<B: Body + From<Vec<u8>>>(w: &World, side: u8, t: u8, req: u32, f: impl AsyncFnOnce(Vec<u8>) -> Result<(), fizyr_rpc::Error>) -> bool {
	let uid = w.uid();
	w.ev(Ev::Start { uid, side, t, req });
	let ok = f(w.content(uid)).await.is_ok();
	w.ev(Ev::Done { uid, ok });
	ok
}

async fn requester<B: Body + From<Vec<u8>> + AsBytes + Send>(w: Arc<World>, c: Arc<Case>, k: usize, h: PeerWriteHandle<B>) {
	let p = &c.reqs[k];
	let side = p.side as u8;
	Yield(p.delay as u32).await;
	let uid = w.uid();
	w.ev(Ev::Start { uid, side, t: 0, req: u32::MAX });
	let fut = h.send_request(k as i32, w.content(uid));
	let r = match p.cancel {
		Some(n) => match Within(Some(Box::pin(fut)), n as u32).await {
			Some(r) => r,
			None => {
				w.ev(Ev::Cancelled { uid });
				return;
			},
		},
		None => fut.await,
	};
	w.ev(Ev::Done { uid, ok: r.is_ok() });
	drop(h);
	let Ok(sent) = r else { return };
	let id = sent.request_id();
	for (n, pause) in p.senders.clone() {
		let wh = sent.write_handle();
		let w2 = w.clone();
		w.spawn(true, async move {
			for _ in 0..n {
				Yield(pause as u32).await;
				send::<B>(&w2, side, 2, id, async |b| wh.send_update(9, b).await).await;
			}
		});
	}
	w.spawn(false, requester_receive(w.clone(), c.clone(), k, sent));
}

async fn requester_receive<B: Body + AsBytes + Send>(w: Arc<World>, c: Arc<Case>, k: usize, mut h: SentRequestHandle<B>) {
	let p = &c.reqs[k];
	let side = p.side as u8;
	let id = h.request_id();
	let mut rng = mix(c.seed, k as u64 + 1000);
	let mut n = 0u32;
	let got = |m: &Message<B>| w.ev(Ev::Got { side, sent: true, id, h: Hdr::of(&m.header), uid: w.parse(Hdr::of(&m.header), m.body.bytes()) });
	loop {
		n += 1;
		if n > 10_000 {
			w.bad("C14", "a request never gives its response".into());
			return;
		}
		let response = if n > 200 { n % 2 == 0 } else { p.how >> (n % 8) & 1 == 1 };
		if response {
			match receive!(c, rng, h.recv_response()) {
				Ok(m) => {
					got(&m);
					break;
				},
				Err(e) if e.is_unexpected_message_type() => {
					// The same must be available as update, at once.
					let mut f = std::pin::pin!(h.recv_update());
					match futures_poll(f.as_mut()).await {
						Some(Some(m)) => got(&m),
						_ => w.bad("C14", "recv_response reported an update, but recv_update does not give it".into()),
					}
				},
				Err(e) => {
					if !w.has_ended() {
						w.bad("C09", format!("recv_response failed with {} while the connection is up", e));
					} else if !e.is_connection_aborted() {
						w.bad("C15", format!("recv_response reports the end of the connection as {}", e));
					}
					break;
				},
			}
		} else {
			match receive!(c, rng, h.recv_update()) {
				Some(m) => got(&m),
				None => {
					let mut f = std::pin::pin!(h.recv_response());
					match futures_poll(f.as_mut()).await {
						Some(Ok(m)) => got(&m),
						Some(Err(e)) => {
							if !w.has_ended() {
								w.bad("C14", format!("recv_update gave nothing, but then recv_response gave {}", e));
							}
						},
						None => w.bad("C14", "recv_update gave nothing, but the response is not available".into()),
					}
					break;
				},
			}
		}
	}
	// From now on, the end is reported at once.
	for _ in 0..2 {
		match futures_poll(std::pin::pin!(h.recv_update()).as_mut()).await {
			Some(None) => (),
			Some(Some(m)) => w.bad("C14", format!("{:?} received after the response", m.header)),
			None => w.bad("C14", "recv_update waits after the response".into()),
		}
		match futures_poll(std::pin::pin!(h.recv_response()).as_mut()).await {
			Some(Err(_)) => (),
			Some(Ok(m)) => w.bad("C14", format!("{:?} received after the response", m.header)),
			None => w.bad("C14", "recv_response waits after the response".into()),
		}
	}
}

/// Poll once, whatever is left of the budget of the tokio task.
async fn futures_poll<F: Future>(f: Pin<&mut F>) -> Option<F::Output> {
	let mut f = std::pin::pin!(tokio::task::unconstrained(f));
	std::future::poll_fn(|cx| {
		Poll::Ready(match f.as_mut().poll(cx) {
			Poll::Ready(x) => Some(x),
			Poll::Pending => None,
		})
	})
	.await
}

async fn server<B: Body + From<Vec<u8>> + AsBytes + Send>(w: Arc<World>, c: Arc<Case>, side: u8, mut h: PeerReadHandle<B>, mut go: tokio::sync::watch::Receiver<bool>) {
	let mut stop = go.clone();
	if c.late {
		let _ = go.wait_for(|x| *x).await;
	}
	let mut rng = mix(c.seed, side as u64);
	loop {
		// The orderly end by dropping the handles.
		let r = {
			let stopped = async {
				// The sender goes away when it is time to stop.
				while stop.changed().await.is_ok() {}
			};
			let mut stopped = std::pin::pin!(stopped);
			let c = &c;
			let recv = async { receive!(c, rng, h.recv_message()) };
			let mut recv = std::pin::pin!(recv);
			std::future::poll_fn(|cx| {
				if let Poll::Ready(x) = recv.as_mut().poll(cx) {
					return Poll::Ready(Some(x));
				}
				stopped.as_mut().poll(cx).map(|()| None)
			})
			.await
		};
		match r {
			None => break,
			Some(Ok(ReceivedMessage::Stream(m))) => w.ev(Ev::Main { side, h: Hdr::of(&m.header), uid: w.parse(Hdr::of(&m.header), m.body.bytes()) }),
			Some(Ok(ReceivedMessage::Request(r, body))) => {
				let k = r.service_id();
				let hd = Hdr { t: 0, id: r.request_id(), svc: k };
				w.ev(Ev::Main { side, h: hd, uid: w.parse(hd, body.bytes()) });
				match c.reqs.get(k as usize) {
					Some(p) if p.side as u8 != side => respond(&w, &c, k as usize, r),
					_ => w.bad("C09", format!("request received with service ID {}", k)),
				}
			},
			Some(Err(e)) if e.is_connection_aborted() => {
				if !w.has_ended() {
					w.bad("C09", "recv_message reports the end of the connection while it is up".into());
				}
				break;
			},
			Some(Err(e)) => {
				if w.has_ended() {
					// A broken connection can be reported in several ways.
					continue;
				}
				let _ = e;
				w.ev(Ev::MainErr { side });
			},
		}
	}
	w.servers.fetch_sub(1, Ordering::SeqCst);
}

fn respond<B: Body + From<Vec<u8>> + AsBytes + Send>(w: &Arc<World>, c: &Arc<Case>, k: usize, mut r: ReceivedRequestHandle<B>) {
	let p = &c.reqs[k];
	let side = 1 - p.side as u8;
	let id = r.request_id();
	let left = Arc::new(AtomicUsize::new(p.resp.len().max(1)));
	let answered = Arc::new(AtomicUsize::new(0));
	let mut plans = p.resp.clone();
	if plans.is_empty() {
		plans.push(vec![]);
	}
	for steps in plans {
		let wh: ReceivedRequestWriteHandle<B> = r.write_handle();
		let (w2, left, answered) = (w.clone(), left.clone(), answered.clone());
		w.spawn(false, async move {
			for s in steps {
				match s {
					RStep::Yield(n) => Yield(n as u32).await,
					RStep::Update => {
						send::<B>(&w2, side, 3, id, async |b| wh.send_update(8, b).await).await;
					},
					RStep::Respond => {
						if send::<B>(&w2, side, 1, id, async |b| wh.send_response(7, b).await).await {
							answered.fetch_add(1, Ordering::SeqCst);
						}
					},
					RStep::Error => {
						let uid = w2.uid();
						w2.ev(Ev::Start { uid, side, t: 1, req: id });
						let ok = wh.send_error_response(&w2.text(uid)).await.is_ok();
						w2.ev(Ev::Done { uid, ok });
						if ok {
							answered.fetch_add(1, Ordering::SeqCst);
						}
					},
				}
			}
			// The last one makes sure that there is a response.
			if left.fetch_sub(1, Ordering::SeqCst) == 1 && answered.load(Ordering::SeqCst) == 0 {
				let ok = send::<B>(&w2, side, 1, id, async |b| wh.send_response(7, b).await).await;
				if !ok && !w2.has_ended() {
					w2.bad("C11", "an unanswered request can't be answered".into());
				}
			}
		});
	}
	let (w2, c2) = (w.clone(), c.clone());
	w.spawn(false, async move {
		let mut rng = mix(c2.seed, k as u64 + 5000);
		loop {
			match receive!(c2, rng, r.recv_update()) {
				Some(m) => w2.ev(Ev::Got { side, sent: false, id, h: Hdr::of(&m.header), uid: w2.parse(Hdr::of(&m.header), m.body.bytes()) }),
				None => break,
			}
		}
	});
}

// ---------------------------------------------------------------- judging the history

type Bad = (BTreeSet<&'static str>, String);

fn bad<T>(tags: &[&'static str], m: String) -> Result<T, Bad> {
	Err((tags.iter().copied().collect(), m))
}

/// `quiet`: everything had time to finish and the connection was up all the time.
fn judge(w: &World, c: &Case, quiet: bool) -> Result<BTreeMap<&'static str, u64>, Bad> {
	let log = w.log.lock().unwrap();
	if let Some((t, m)) = log.bad.first() {
		return bad(&[t], m.clone());
	}
	let ev = &log.ev;
	let mut stats: BTreeMap<&'static str, u64> = BTreeMap::new();
	struct Send {
		start: usize,
		end: Option<(usize, Option<bool>)>,
		side: u8,
		t: u8,
		req: u32,
		out: Option<usize>,
		inn: Option<usize>,
		got: Option<usize>,
	}
	let mut s: BTreeMap<u32, Send> = BTreeMap::new();
	let mut outs: [Vec<(Hdr, u32)>; 2] = Default::default();
	let mut ins: [Vec<(Hdr, u32)>; 2] = Default::default();
	let mut mains: [Vec<(Hdr, u32)>; 2] = Default::default();
	let mut errs = [0u64; 2];
	let mut got: BTreeMap<(u8, bool, u32), Vec<u32>> = BTreeMap::new();
	// Writes that failed or were never finished don't count.
	let written: BTreeSet<u32> = ev.iter().filter_map(|e| if let Ev::OutDone { uid } | Ev::In { uid, .. } = e { Some(*uid) } else { None }).collect();
	for (i, e) in ev.iter().enumerate() {
		match *e {
			Ev::OutDone { .. } => (),
			Ev::Out { uid, .. } if !written.contains(&uid) => (),
			Ev::Start { uid, side, t, req } => {
				s.insert(uid, Send { start: i, end: None, side, t, req, out: None, inn: None, got: None });
			},
			Ev::Done { uid, ok } => s.get_mut(&uid).unwrap().end = Some((i, Some(ok))),
			Ev::Cancelled { uid } => s.get_mut(&uid).unwrap().end = Some((i, None)),
			Ev::Out { side, h, uid } => {
				let Some(x) = s.get_mut(&uid) else { return bad(&["C09"], format!("{:?} on the wire, which nobody sent", h)) };
				if x.out.is_some() {
					return bad(&["C09"], format!("{:?} written twice", h));
				}
				if x.side != side || x.t != h.t || (h.t != 0 && h.t != 4 && x.req != h.id) {
					return bad(&["C09"], format!("message {} of kind {} for request {} was written as {:?}", uid, x.t, x.req, h));
				}
				let svc = match h.t {
					2 => h.svc == 9,
					3 => h.svc == 8,
					1 => h.svc == 7 || h.svc == -1,
					_ => true,
				};
				if !svc {
					return bad(&["C09"], format!("{:?} has the wrong service ID", h));
				}
				x.out = Some(i);
				outs[side as usize].push((h, uid));
			},
			Ev::In { side, h, uid } => {
				let Some(x) = s.get_mut(&uid) else { return bad(&["C09"], format!("{:?} arrived, which nobody sent", h)) };
				if x.inn.is_some() || x.side == side {
					return bad(&["C09"], format!("{:?} arrived twice", h));
				}
				x.inn = Some(i);
				ins[side as usize].push((h, uid));
			},
			Ev::Main { side, h, uid } => {
				let x = s.get_mut(&uid).ok_or(()).or_else(|_| bad(&["C09"], format!("{:?} received, which nobody sent", h)))?;
				if x.got.is_some() {
					return bad(&["C09", "C14"], format!("{:?} received twice", h));
				}
				x.got = Some(i);
				mains[side as usize].push((h, uid));
			},
			Ev::MainErr { side } => errs[side as usize] += 1,
			Ev::Got { side, sent, id, h, uid } => {
				let x = s.get_mut(&uid).ok_or(()).or_else(|_| bad(&["C09"], format!("{:?} received, which nobody sent", h)))?;
				if x.got.is_some() {
					return bad(&["C09", "C14"], format!("{:?} received twice", h));
				}
				if h.id != id {
					return bad(&["C09"], format!("{:?} received by the handle of request {}", h, id));
				}
				x.got = Some(i);
				got.entry((side, sent, id)).or_default().push(uid);
			},
			Ev::Ended => (),
		}
	}
	let mut orphans: BTreeSet<(u8, u32)> = BTreeSet::new();
	// Sends and what came of them.
	for (uid, x) in &s {
		match x.end {
			None => {
				if quiet || w.has_ended() {
					return bad(if quiet { &["C24", "C09"] } else { &["C15"] }, format!("sending message {} of kind {} never completes", uid, x.t));
				}
			},
			Some((end, Some(true))) => {
				*stats.entry("successful sends").or_default() += 1;
				match x.out {
					Some(out) if out < end && out > x.start => (),
					_ => return bad(&["C11", "C09"], format!("message {} of kind {} was reported as sent, but was not written", uid, x.t)),
				}
			},
			Some((_, Some(false))) => {
				*stats.entry("failed sends").or_default() += 1;
				if x.out.is_some() {
					return bad(&["C11", "C09"], format!("message {} of kind {} was reported as failed, but was written", uid, x.t));
				}
				if quiet && (x.t == 0 || x.t == 4) {
					return bad(&["C09"], format!("message {} of kind {} could not be sent", uid, x.t));
				}
			},
			Some((_, None)) => {
				*stats.entry("cancelled requests").or_default() += 1;
				if let Some(o) = x.out {
					let Ev::Out { h, .. } = ev[o] else { unreachable!() };
					orphans.insert((x.side, h.id));
				}
			},
		}
		if quiet && x.out.is_some() && x.inn.is_none() {
			return bad(&["C09"], format!("message {} of kind {} was written but never arrived", uid, x.t));
		}
	}
	// The wire keeps the order of writing.
	for side in 0..2 {
		let o: Vec<_> = outs[side].iter().map(|x| x.1).collect();
		let i: Vec<_> = ins[1 - side].iter().map(|x| x.1).collect();
		if !o.starts_with(&i) {
			return bad(&["C09"], format!("written: {:?}, arrived: {:?}", o, i));
		}
		// Sends that followed each other are written in that order.
		let mut latest_start = 0;
		let mut last = 0;
		for (_, uid) in outs[side].iter() {
			let x = &s[uid];
			if let Some((end, _)) = x.end {
				if end < latest_start {
					return bad(&["C09"], format!("message {} was written after message {}, but had been sent before", uid, last));
				}
			}
			if x.start > latest_start {
				latest_start = x.start;
				last = *uid;
			}
		}
		// At most one response, and nothing after it.
		let mut answered = BTreeSet::new();
		for (h, uid) in &outs[side] {
			if matches!(h.t, 1 | 3) && answered.contains(&h.id) {
				return bad(&["C11"], format!("message {} ({:?}) was written after the response", uid, h));
			}
			if h.t == 1 {
				answered.insert(h.id);
				*stats.entry("responses").or_default() += 1;
			}
		}
		// Once closed, always closed.
		let mut closed: BTreeMap<u32, usize> = BTreeMap::new();
		for x in s.values().filter(|x| x.side == side as u8 && matches!(x.t, 1..=3)) {
			if let Some((end, Some(false))) = x.end {
				let e = closed.entry(x.req * 2 + u32::from(x.t == 2)).or_insert(end);
				*e = (*e).min(end);
			}
		}
		for (uid, x) in s.iter().filter(|x| x.1.side == side as u8 && matches!(x.1.t, 1..=3)) {
			if let (Some((_, Some(true))), Some(at)) = (x.end, closed.get(&(x.req * 2 + u32::from(x.t == 2)))) {
				if x.start > *at {
					return bad(&["C11"], format!("message {} of kind {} was sent although an earlier one of request {} failed", uid, x.t, x.req));
				}
			}
		}
		// Sends of a received request only fail after its response, and those of a sent request after the arrival of the response.
		for (uid, x) in s.iter().filter(|x| x.1.side == side as u8 && matches!(x.1.t, 1..=3)) {
			if let (true, Some((end, Some(false)))) = (quiet, x.end) {
				let excuse = if x.t == 2 {
					ev[..end].iter().any(|e| matches!(e, Ev::In { side: sd, h, .. } if *sd == side as u8 && h.t == 1 && h.id == x.req))
				} else {
					ev[..end].iter().any(|e| matches!(e, Ev::Out { side: sd, h, .. } if *sd == side as u8 && h.t == 1 && h.id == x.req))
				};
				if !excuse {
					return bad(&["C11", "C09"], format!("message {} of kind {} for request {} failed before the response", uid, x.t, x.req));
				}
			}
		}
		// Updates by the requester after it took the response.
		for (uid, x) in s.iter().filter(|x| x.1.side == side as u8 && x.1.t == 2) {
			let taken = ev[..x.start].iter().any(|e| matches!(e, Ev::Got { side: sd, sent: true, id, h, .. } if *sd == side as u8 && *id == x.req && h.t == 1));
			if taken && x.out.is_some() {
				return bad(&["C11"], format!("update {} was sent after the response was received", uid));
			}
		}
	}
	// Delivery.
	for side in 0..2 {
		let expected: Vec<_> = ins[side].iter().filter(|x| x.0.t == 0 || x.0.t == 4).collect();
		let n = mains[side].len();
		let same = n <= expected.len() && mains[side].iter().zip(&expected).all(|(a, b)| a.1 == b.1 && a.0.t == b.0.t && a.0.svc == b.0.svc && (a.0.t == 4 || a.0.id == b.0.id));
		if !same {
			return bad(&["C09", "C14"], format!("arrived: {:?}, received: {:?}", expected, mains[side]));
		}
		if quiet && n != expected.len() {
			return bad(&["C09", "C14"], format!("{} requests and stream messages arrived, but only {} were received", expected.len(), n));
		}
		// Requests that this side sent.
		let mut lost = 0;
		let mut maybe = 0;
		let mut ids: BTreeSet<(u32, bool)> = BTreeSet::new();
		for (h, _) in &ins[side] {
			match h.t {
				1 | 3 => ids.insert((h.id, true)),
				2 => ids.insert((h.id, false)),
				_ => false,
			};
		}
		for (id, sent) in ids {
			let arrived: Vec<u32> = ins[side].iter().filter(|x| x.0.id == id && if sent { matches!(x.0.t, 1 | 3) } else { x.0.t == 2 }).map(|x| x.1).collect();
			let empty = Vec::new();
			let received = got.get(&(side as u8, sent, id)).unwrap_or(&empty);
			if sent && orphans.contains(&(side as u8, id)) {
				maybe += arrived.len() as u64;
				continue;
			}
			if !arrived.starts_with(received) {
				return bad(&["C09", "C14"], format!("for request {} arrived {:?}, but received {:?}", id, arrived, received));
			}
			let missing = arrived.len() - received.len();
			if quiet && missing > 0 {
				// Updates that arrive after the response was sent are reported.
				let late = !sent && outs[side].iter().any(|x| x.0.t == 1 && x.0.id == id);
				if !late {
					return bad(&["C09", "C14"], format!("for request {} arrived {:?}, but only {:?} was received", id, arrived, received));
				}
				lost += missing as u64;
			}
			*stats.entry("updates and responses received").or_default() += received.len() as u64;
		}
		if quiet && (errs[side] < lost || errs[side] > lost + maybe) {
			return bad(&["C13", "C09"], format!("{} late updates arrived, and {} errors were reported", lost, errs[side]));
		}
		*stats.entry("late updates").or_default() += lost;
	}
	let _ = c;
	Ok(stats)
}

// ---------------------------------------------------------------- running

struct Side<B> {
	read: Option<PeerReadHandle<B>>,
	write: PeerWriteHandle<B>,
}

fn start<B: Body + From<Vec<u8>> + AsBytes + Send>(w: &Arc<World>, c: &Arc<Case>, mut sides: [Side<B>; 2], go: &tokio::sync::watch::Receiver<bool>) -> [fizyr_rpc::PeerCloseHandle<B>; 2] {
	let closes = [sides[0].write.close_handle(), sides[1].write.close_handle()];
	for side in 0..2 {
		w.servers.fetch_add(1, Ordering::SeqCst);
		let f = server(w.clone(), c.clone(), side as u8, sides[side].read.take().unwrap(), go.clone());
		(w.spawn)(Box::pin(f));
	}
	for k in 0..c.reqs.len() {
		let h = sides[c.reqs[k].side as usize].write.clone();
		w.spawn(true, requester(w.clone(), c.clone(), k, h));
	}
	for (side, n, pause) in c.streams.clone() {
		let h = sides[side as usize].write.clone();
		let w2 = w.clone();
		w.spawn(true, async move {
			for i in 0..n {
				Yield(pause as u32).await;
				send::<B>(&w2, side as u8, 4, i as u32, async |b| h.send_stream(5, b).await).await;
			}
		});
	}
	// Keep the write handles until the end.
	let mut go = go.clone();
	w.servers.fetch_add(1, Ordering::SeqCst);
	let w2 = w.clone();
	(w.spawn)(Box::pin(async move {
		while go.changed().await.is_ok() {}
		drop(sides);
		w2.servers.fetch_sub(1, Ordering::SeqCst);
	}));
	closes
}

fn world(c: &Case, spawn: Box<dyn Fn(Pin<Box<dyn Future<Output = ()> + Send>>) + Send + Sync>) -> Arc<World> {
	Arc::new(World {
		log: Default::default(),
		uid: AtomicU32::new(1),
		senders: AtomicUsize::new(0),
		actors: AtomicUsize::new(0),
		servers: AtomicUsize::new(0),
		big: c.big,
		spawn,
		ended: Default::default(),
	})
}

fn run_mem(c: &Arc<Case>, caps: (u8, u8)) -> Result<BTreeMap<&'static str, u64>, Bad> {
	let queue: Arc<Mutex<Vec<Pin<Box<dyn Future<Output = ()> + Send>>>>> = Default::default();
	let q2 = queue.clone();
	let w = world(c, Box::new(move |f| q2.lock().unwrap().push(f)));
	let (ab, ba) = (Chan::new(), Chan::new());
	for (x, cap) in [(&ab, caps.0), (&ba, caps.1)] {
		let mut x = x.lock().unwrap();
		x.cap = cap.max(1) as usize;
		x.slow = c.slow;
	}
	let (pa, ha) = Peer::new(Spy { inner: MemTransport { rx: ba.clone(), tx: ab.clone() }, w: w.clone(), side: 0 });
	let (pb, hb) = Peer::new(Spy { inner: MemTransport { rx: ab.clone(), tx: ba.clone() }, w: w.clone(), side: 1 });
	let mut ex = Exec::new(c.seed);
	let peers = [ex.spawn(pa.run()), ex.spawn(pb.run())];
	let (go_tx, go) = tokio::sync::watch::channel(false);
	let split = |h: fizyr_rpc::PeerHandle<_>| {
		let (read, write) = h.split();
		Side { read: Some(read), write }
	};
	let closes = start(&w, c, [split(ha), split(hb)], &go);
	drop(go);
	let run = |ex: &mut Exec, limit: u64| -> Result<bool, Bad> {
		let mut n = 0;
		loop {
			for f in queue.lock().unwrap().drain(..) {
				ex.spawn(f);
			}
			if n == limit {
				return Ok(false);
			}
			n += 1;
			if n > 400_000 {
				return bad(&["C24", "C15", "C14"], "the peers never come to rest".into());
			}
			if c.gates && ex.rand() % 8 == 0 {
				let r = ex.rand();
				let x = if r & 1 == 0 { &ab } else { &ba };
				x.lock().unwrap().set_open(r & 6 != 0);
			}
			if !ex.step() {
				// Nothing is ready: open the gates before drawing conclusions.
				for x in [&ab, &ba] {
					x.lock().unwrap().set_open(true);
				}
				if !ex.step() && queue.lock().unwrap().is_empty() {
					return Ok(true);
				}
			}
			for x in [&ab, &ba] {
				if let Some(m) = x.lock().unwrap().misuse.take() {
					return bad(&["C24", "C09"], m);
				}
			}
		}
	};
	if c.end != Abrupt::None {
		let _ = go_tx.send(true);
		run(&mut ex, c.when as u64)?;
		w.ended.store(true, Ordering::SeqCst);
		w.ev(Ev::Ended);
		match c.end {
			Abrupt::Close(side) => closes[side as usize].close(),
			_ => {
				for x in [&ab, &ba] {
					let mut x = x.lock().unwrap();
					x.close_writer();
					x.close_reader();
				}
			},
		}
		run(&mut ex, u64::MAX)?;
	} else {
		run(&mut ex, u64::MAX)?;
		let n = w.senders.load(Ordering::SeqCst);
		if n > 0 {
			judge(&w, c, true)?;
			return bad(&["C24", "C09"], format!("{} senders wait although both peers run", n));
		}
		let _ = go_tx.send(true);
		run(&mut ex, u64::MAX)?;
		judge(&w, c, true)?;
		let n = w.actors.load(Ordering::SeqCst);
		if n > 0 {
			return bad(&["C09", "C14"], format!("{} tasks wait for messages although everything was sent and received", n));
		}
		w.ended.store(true, Ordering::SeqCst);
		w.ev(Ev::Ended);
		if !c.drop {
			closes[0].close();
		}
	}
	if c.drop {
		drop(go_tx);
	}
	run(&mut ex, u64::MAX)?;
	let why = if c.drop { "C16" } else { "C15" };
	for (i, p) in peers.iter().enumerate() {
		if !p.ready() {
			return bad(&[why], format!("peer {} still runs after the end of the connection", i));
		}
	}
	let n = w.actors.load(Ordering::SeqCst);
	if n > 0 {
		return bad(&["C15"], format!("{} tasks still wait after the end of the connection", n));
	}
	// The keeper of the write handles waits for the order to drop them.
	let left = w.servers.load(Ordering::SeqCst);
	if left > usize::from(!c.drop) {
		return bad(&["C15"], "recv_message still waits after the end of the connection".into());
	}
	judge(&w, c, false)
}

fn run_real(c: &Arc<Case>) -> Result<BTreeMap<&'static str, u64>, Bad> {
	thread_local!(static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap());
	RT.with(|rt| {
		let handle = rt.handle().clone();
		let w = world(c, Box::new(move |f| drop(handle.spawn(f))));
		rt.block_on(async {
			let tiny = |fd: i32| unsafe {
				if c.gates {
					let n: libc::c_int = 1;
					libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_SNDBUF, &n as *const _ as *const _, 4);
				}
				libc::dup(fd)
			};
			use std::os::fd::AsRawFd;
			match c.net {
				Net::Unix => {
					let (a, b) = tokio::net::UnixStream::pair().unwrap();
					let fd = tiny(a.as_raw_fd());
					libc_close(tiny(b.as_raw_fd()));
					go_real(c, &w, StreamTransport::new(a, Default::default()), StreamTransport::new(b, Default::default()), fd).await
				},
				Net::Seq => {
					let (a, b) = tokio_seqpacket::UnixSeqpacket::pair().unwrap();
					let fd = tiny(a.as_raw_fd());
					libc_close(tiny(b.as_raw_fd()));
					go_real(c, &w, UnixTransport::new(a, Default::default()), UnixTransport::new(b, Default::default()), fd).await
				},
				_ => {
					let (a, b) = crate::stream::tcp_pair().await;
					let fd = tiny(a.as_raw_fd());
					libc_close(tiny(b.as_raw_fd()));
					go_real(c, &w, StreamTransport::new(a, Default::default()), StreamTransport::new(b, Default::default()), fd).await
				},
			}
		})
	})
}

fn libc_close(fd: i32) {
	unsafe { libc::close(fd) };
}

const LIMIT: Duration = Duration::from_secs(25);

async fn until(f: impl Fn() -> bool) -> bool {
	let start = Instant::now();
	let mut n = 0;
	while !f() {
		n += 1;
		if start.elapsed() > LIMIT {
			return false;
		}
		if n < 50 {
			tokio::task::yield_now().await;
		} else {
			tokio::time::sleep(Duration::from_micros(200)).await;
		}
	}
	true
}

/// Wait until the history is complete, or nothing has happened for a long time.
async fn settle(w: &World, c: &Case) {
	let mut last = (0, Instant::now());
	loop {
		let n = w.log.lock().unwrap().ev.len();
		if last.0 != n {
			last = (n, Instant::now());
		}
		if w.has_bad() || (w.actors.load(Ordering::SeqCst) == 0 && judge(w, c, true).is_ok()) || last.1.elapsed() > Duration::from_secs(8) {
			return;
		}
		tokio::time::sleep(Duration::from_micros(200)).await;
	}
}

async fn go_real<T, B>(c: &Arc<Case>, w: &Arc<World>, ta: T, tb: T, fd: i32) -> Result<BTreeMap<&'static str, u64>, Bad>
where
	T: Transport<Body = B>,
	B: Body + From<Vec<u8>> + AsBytes + Send,
{
	let (pa, ha) = Peer::new(Spy { inner: ta, w: w.clone(), side: 0 });
	let (pb, hb) = Peer::new(Spy { inner: tb, w: w.clone(), side: 1 });
	let peers = [tokio::spawn(pa.run()), tokio::spawn(pb.run())];
	let (go_tx, go) = tokio::sync::watch::channel(false);
	let split = |h: fizyr_rpc::PeerHandle<B>| {
		let (read, write) = h.split();
		Side { read: Some(read), write }
	};
	let closes = start(w, c, [split(ha), split(hb)], &go);
	drop(go);
	let mut result = Ok(());
	if c.end != Abrupt::Cut {
		// An open copy of the socket would keep the connection up.
		libc_close(fd);
	}
	if c.end != Abrupt::None {
		let _ = go_tx.send(true);
		tokio::time::sleep(Duration::from_micros(c.when as u64 * 5)).await;
		w.ended.store(true, Ordering::SeqCst);
		w.ev(Ev::Ended);
		match c.end {
			Abrupt::Close(side) => closes[side as usize].close(),
			_ => unsafe {
				libc::shutdown(fd, libc::SHUT_RDWR);
			},
		}
	} else {
		if !until(|| w.senders.load(Ordering::SeqCst) == 0).await {
			result = judge(w, c, true).map(drop).and_then(|()| bad(&["C24", "C09"], "senders wait although both peers run".into()));
		}
		let _ = go_tx.send(true);
		if result.is_ok() {
			settle(w, c).await;
			result = judge(w, c, true).map(drop);
			if result.is_ok() && w.actors.load(Ordering::SeqCst) > 0 {
				result = bad(&["C09", "C14"], "tasks wait for messages although everything was sent and received".into());
			}
		}
		w.ended.store(true, Ordering::SeqCst);
		w.ev(Ev::Ended);
		if !c.drop {
			closes[0].close();
		}
	}
	let mut keep = Some(go_tx);
	if c.drop {
		keep = None;
	}
	let why = if c.drop { "C16" } else { "C15" };
	if result.is_ok() {
		if !until(|| peers.iter().all(|p| p.is_finished())).await {
			result = bad(&[why], "a peer still runs after the end of the connection".into());
		} else if !until(|| w.actors.load(Ordering::SeqCst) == 0).await {
			result = bad(&["C15"], "tasks still wait after the end of the connection".into());
		} else if !until(|| w.servers.load(Ordering::SeqCst) <= usize::from(!c.drop)).await {
			result = bad(&["C15"], "recv_message still waits after the end of the connection".into());
		}
	}
	if c.end == Abrupt::Cut {
		libc_close(fd);
	}
	drop(keep);
	for p in peers {
		if result.is_err() {
			p.abort();
			continue;
		}
		if let Err(e) = p.await {
			if e.is_panic() {
				result = bad(&["C09", "C11", "C14", "C15", "C24"], "the peer panicked".into());
			}
		}
	}
	result?;
	judge(w, c, false)
}

fn run_case(c: &Case) -> Result<BTreeMap<&'static str, u64>, Bad> {
	let c = Arc::new(c.clone());
	match c.net {
		Net::Mem(a, b) => run_mem(&c, (a, b)),
		_ => run_real(&c),
	}
}

// ---------------------------------------------------------------- generation

#[derive(Clone, Copy)]
struct Gen {
	real: bool,
	reqs: usize,
	cancel: bool,
	late: bool,
	gates: bool,
	abrupt: bool,
	tiny: bool,
	many: bool,
}

fn case(g: Gen) -> BoxedStrategy<Case> {
	let step = prop_oneof![4 => Just(RStep::Update), 2 => Just(RStep::Respond), 1 => Just(RStep::Error), 2 => (0u8..6).prop_map(RStep::Yield)];
	let resp = prop::collection::vec(prop::collection::vec(step, 0..6), if g.many { 1..5 } else { 0..3 });
	let cancel = if g.cancel { prop_oneof![4 => Just(None), 1 => (0u8..5).prop_map(Some)].boxed() } else { Just(None).boxed() };
	let req = (any::<bool>(), 0u8..8, cancel, prop::collection::vec((0u8..6, 0u8..4), 0..3), resp, any::<u8>()).prop_map(|(side, delay, cancel, senders, resp, how)| ReqPlan { side, delay, cancel, senders, resp, how });
	let net = if g.real {
		prop_oneof![3 => Just(Net::Unix), 3 => Just(Net::Seq), 1 => Just(Net::Tcp)].boxed()
	} else if g.tiny {
		(1u8..3, 1u8..3).prop_map(|(a, b)| Net::Mem(a, b)).boxed()
	} else {
		prop_oneof![2 => (1u8..4, 1u8..4), 1 => Just((255u8, 255u8))].prop_map(|(a, b)| Net::Mem(a, b)).boxed()
	};
	let end = if g.abrupt { prop_oneof![any::<bool>().prop_map(Abrupt::Close), Just(Abrupt::Cut)].boxed() } else { Just(Abrupt::None).boxed() };
	let streams = prop::collection::vec((any::<bool>(), if g.tiny { 1u8..30 } else { 0u8..6 }, 0u8..4), 0..4);
	let big = if g.real { prop_oneof![Just(0u16), 1u16..100, 1000u16..3500].boxed() } else { Just(8u16).boxed() };
	bx((
		(any::<u64>(), net, any::<bool>(), any::<bool>(), any::<bool>()),
		(prop::collection::vec(req, 0..g.reqs), streams),
		(0u8..6, big, end, prop_oneof![0u16..60, 0u16..400], any::<bool>()),
	)
		.prop_map(move |((seed, net, slow, gates, late), (reqs, streams), (cancel, big, end, when, drop))| Case {
			seed,
			net,
			slow,
			gates: gates && g.gates,
			reqs,
			streams,
			late: late && g.late && end == Abrupt::None,
			cancel: if g.cancel { cancel } else { 0 },
			big,
			end,
			when,
			drop,
		}))
}

fn judge_case(id: &'static str, c: &Case, info: &mut Info, times: u32) -> CaseResult {
	let r = match catch(|| {
		let mut r = run_case(c);
		// On threads, not every run shows the same.
		for _ in 1..times {
			if r.is_err() {
				break;
			}
			r = run_case(c);
		}
		Ok(r)
	}) {
		Ok(r) => r,
		// A peer must not panic, whatever the property.
		Err(e) => return Err(e),
	};
	let n = c.reqs.iter().map(|r| r.senders.len() + r.resp.len()).sum::<usize>() + c.streams.len();
	info.nontrivial = n >= 2;
	match r {
		Ok(stats) => {
			for (k, v) in stats {
				info.count(k, v);
			}
			Ok(())
		},
		Err((tags, m)) => {
			if tags.contains(id) || std::env::var_os("VERIF_ANY").is_some() {
				// Is it the cancelling that breaks it?
				if id == "C14" && !m.contains("recv_") {
					let mut without = c.clone();
					without.cancel = 0;
					without.reqs.iter_mut().for_each(|r| r.cancel = None);
					for k in 0..10 {
						without.seed = c.seed.wrapping_add(k);
						if run_case(&without).is_err() {
							info.label("differences that concern other properties");
							return Ok(());
						}
					}
				}
				return Err(m);
			}
			info.label("differences that concern other properties");
			Ok(())
		},
	}
}

const RULE: &str = "at least two concurrent tasks that send";

pub fn duo(ctx: &Arc<Ctx>, id: &'static str) {
	let base = Gen { real: false, reqs: 6, cancel: false, late: false, gates: false, abrupt: false, tiny: false, many: false };
	let g = match id {
		"C09" => Gen { late: true, gates: true, ..base },
		"C11" => Gen { many: true, reqs: 4, ..base },
		"C14" => Gen { cancel: true, gates: true, ..base },
		"C15" => Gen { abrupt: true, gates: true, cancel: true, ..base },
		"C24" => Gen { late: true, gates: true, tiny: true, ..base },
		_ => unreachable!(),
	};
	ctx.check("two peers", Opts { quick: 15_000, thorough: 200_000, shards: 8, rule: RULE }, move || case(g), move |c, info| judge_case(id, c, info, 1));
	let g = Gen { real: true, ..g };
	let times = if ctx.replay.is_some() { 1000 } else { 1 };
	ctx.check("two peers on sockets", Opts { quick: 1500, thorough: 30_000, shards: 4, rule: RULE }, move || case(g), move |c, info| judge_case(id, c, info, times));
}
