//! Large numbers: many messages, requests, handles, invalid messages, and large bodies, on a real runtime and real sockets.
//!
//! "volume": two peers. "many of everything": one peer against a scripted remote.
use crate::fw::*;
use crate::limits::AsBytes;
use crate::util::*;
use fizyr_rpc::transport::{StreamTransport, Transport, UnixTransport};
use fizyr_rpc::{Body, Peer, PeerHandle, PeerReadHandle, PeerWriteHandle, ReceivedMessage, ReceivedRequestHandle, SentRequestHandle, StreamBody, UnixBody};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Net {
	Unix,
	Tcp,
	Seq,
}

fn net() -> impl Strategy<Value = Net> {
	prop_oneof![4 => Just(Net::Unix), 4 => Just(Net::Seq), 1 => Just(Net::Tcp)]
}

/// Numbers, often just around where counters or queues may have limits.
fn number(max: u32) -> impl Strategy<Value = u32> {
	prop_oneof![
		4 => 0u32..8,
		4 => 8u32..200,
		3 => (6u32..13, 0u32..7).prop_map(|(s, d)| (1u32 << s) + d - 3),
		3 => 200u32..3000,
	]
	.prop_map(move |n| n.min(max))
}

thread_local!(static RTS: (tokio::runtime::Runtime, tokio::runtime::Runtime) = (rt(), tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap()));

fn on<T>(threads: bool, f: impl Future<Output = T>) -> T {
	RTS.with(|(one, many)| if threads { many.block_on(f) } else { one.block_on(f) })
}

// ---------------------------------------------------------------- two peers

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Burst {
	Streams { n: u32, size: u32 },
	/// Requests, for each of them updates in both directions.
	Requests { n: u32, up: u32, down: u32, size: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Volume {
	net: Net,
	threads: bool,
	/// Nobody receives before everything was sent that can be sent.
	late: bool,
	/// How many sends are started at once.
	window: u32,
	bursts: [Vec<Burst>; 2],
	sndbuf: u32,
}

const MOST: u32 = 12_000;

impl Volume {
	/// Keep cases small enough.
	fn plan(&self, side: usize) -> Vec<Burst> {
		let mut left = MOST;
		let mut bytes = 4_000_000u64;
		let mut out = Vec::new();
		for b in &self.bursts[side] {
			let (per, size) = match b {
				Burst::Streams { size, .. } => (1, *size),
				Burst::Requests { up, down, size, .. } => (2 + *up + *down, *size),
			};
			let per = per.min(left.max(1));
			let fit = (left / per).min((bytes / (u64::from(size.max(1)) * u64::from(per)).max(1)) as u32);
			let b = match *b {
				Burst::Streams { n, size } => Burst::Streams { n: n.min(fit), size },
				Burst::Requests { n, up, down, size } => Burst::Requests { n: n.min(fit), up: up.min(3000), down: down.min(3000), size },
			};
			let n = match &b {
				Burst::Streams { n, .. } | Burst::Requests { n, .. } => *n,
			};
			left -= (n * per).min(left);
			bytes = bytes.saturating_sub(u64::from(n * per) * u64::from(size));
			out.push(b);
		}
		out
	}
}

/// What a body says: the kind of its sender's message, and numbers.
fn body_of(kind: u8, burst: usize, a: u32, b: u32, window: u32, size: u32) -> Vec<u8> {
	let mut out = vec![kind, burst as u8];
	out.extend_from_slice(&a.to_le_bytes());
	out.extend_from_slice(&b.to_le_bytes());
	out.extend_from_slice(&window.to_le_bytes());
	let fill = a.wrapping_mul(31).wrapping_add(b).wrapping_mul(7) as u8;
	out.resize(14 + size as usize, fill);
	out
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Said {
	kind: u8,
	burst: usize,
	a: u32,
	b: u32,
	window: u32,
}

fn said(x: &[u8]) -> Result<Said, String> {
	let err = || format!("a body of {} bytes that nobody sent", x.len());
	if x.len() < 14 {
		return Err(err());
	}
	let n = |i: usize| u32::from_le_bytes(x[i..i + 4].try_into().unwrap());
	let s = Said { kind: x[0], burst: x[1] as usize, a: n(2), b: n(6), window: n(10) };
	if x != body_of(s.kind, s.burst, s.a, s.b, s.window, x.len() as u32 - 14) {
		return Err(err());
	}
	Ok(s)
}

struct Shared {
	plans: [Vec<Burst>; 2],
	window: u32,
	late: bool,
	/// Any progress, to tell slow from stuck.
	ticks: AtomicUsize,
	failed: Mutex<Option<String>>,
	failure: tokio::sync::Notify,
	/// Phases that are over: sides that sent everything, requests that were answered.
	sent: AtomicUsize,
	served: AtomicUsize,
	notify: tokio::sync::Notify,
}

impl Shared {
	fn tick(&self) {
		self.ticks.fetch_add(1, Ordering::SeqCst);
	}
	async fn until(&self, f: impl Fn() -> bool) {
		loop {
			let wait = self.notify.notified();
			tokio::pin!(wait);
			wait.as_mut().enable();
			if f() {
				return;
			}
			wait.await
		}
	}
	/// A task's result: an error ends the case at once.
	fn report(&self, r: CaseResult) -> CaseResult {
		if let Err(e) = &r {
			self.failed.lock().unwrap().get_or_insert_with(|| e.clone());
			self.failure.notify_one();
		}
		r
	}
	/// Number of requests of both sides.
	fn requests(&self) -> usize {
		let n = |b: &Burst| if let Burst::Requests { n, .. } = b { *n as usize } else { 0 };
		self.plans.iter().flatten().map(n).sum()
	}
}

/// Run sends `window` at a time.
async fn in_windows<T, F: Future<Output = Result<T, String>>>(s: &Shared, n: u32, mut f: impl FnMut(u32, u32) -> F) -> Result<Vec<T>, String> {
	let mut out = Vec::new();
	let window = s.window.max(1);
	let mut at = 0;
	while at < n {
		let end = (at + window).min(n);
		let mut all: Vec<_> = (at..end).map(|i| Box::pin(f(i, at / window))).collect();
		// Start them all, then wait for one after the other.
		let mut done: Vec<Option<T>> = (at..end).map(|_| None).collect();
		std::future::poll_fn(|cx| {
			for (f, d) in all.iter_mut().zip(&mut done) {
				if let std::task::Poll::Ready(r) = f.as_mut().poll(cx) {
					match r {
						Ok(x) => *d = Some(x),
						Err(e) => return std::task::Poll::Ready(Err(e)),
					}
				}
			}
			std::task::Poll::Ready(Ok(()))
		})
		.await?;
		for (f, d) in all.into_iter().zip(done) {
			out.push(match d {
				Some(x) => x,
				None => f.await?,
			});
			s.tick();
		}
		at = end;
	}
	Ok(out)
}

/// Checks the order of a sequence that was sent in windows.
#[derive(Default)]
struct Order {
	window: u32,
	seen: BTreeSet<u32>,
	all: u32,
}

impl Order {
	fn next(&mut self, what: &str, i: u32, window: u32) -> CaseResult {
		ensure!(window >= self.window, "{what} {i} arrived after a later one");
		if window > self.window {
			self.window = window;
			self.seen.clear();
		}
		ensure!(self.seen.insert(i), "{what} {i} arrived twice");
		self.all += 1;
		Ok(())
	}
}

async fn sender<B: Body + AsBytes + From<Vec<u8>>>(s: Arc<Shared>, side: usize, write: PeerWriteHandle<B>) -> CaseResult {
	let mut readers = Vec::new();
	for (k, b) in s.plans[side].iter().enumerate() {
		match b {
			Burst::Streams { n, size } => {
				in_windows(&s, *n, |i, w| {
					let f = write.send_stream(i as i32, B::from(body_of(4, k, i, 0, w, *size)));
					async move { f.await.map_err(|e| format!("send_stream failed: {e:?}")) }
				})
				.await?;
			},
			Burst::Requests { n, up, size, down } => {
				let handles = in_windows(&s, *n, |i, w| {
					let f = write.send_request(i as i32, B::from(body_of(0, k, i, 0, w, *size)));
					async move { f.await.map_err(|e| format!("send_request failed: {e:?}")) }
				})
				.await?;
				let ids: BTreeSet<u32> = handles.iter().map(|h| h.request_id()).collect();
				ensure!(ids.len() == handles.len(), "{} open requests have only {} IDs", handles.len(), ids.len());
				for (i, h) in handles.into_iter().enumerate() {
					in_windows(&s, *up, |j, w| {
						let f = h.send_update(j as i32, B::from(body_of(2, k, i as u32, j, w, *size)));
						async move { f.await.map_err(|e| format!("send_update of the requester failed: {e:?}")) }
					})
					.await?;
					readers.push((k, i as u32, *down, h));
				}
			},
		}
	}
	s.sent.fetch_add(1, Ordering::SeqCst);
	s.notify.notify_waiters();
	if s.late {
		s.until(|| s.served.load(Ordering::SeqCst) == s.requests()).await;
	}
	for (k, i, down, mut h) in readers {
		let h: &mut SentRequestHandle<B> = &mut h;
		let mut order = Order::default();
		while let Some(m) = h.recv_update().await {
			s.tick();
			let x = said(m.body.bytes())?;
			ensure!((x.kind, x.burst, x.a) == (3, k, i) && m.header.service_id == x.b as i32, "request {i} of burst {k} received {x:?} as update");
			order.next("update", x.b, x.window)?;
		}
		ensure!(order.all == down, "request {i} of burst {k} received {} of {down} updates", order.all);
		let m = h.recv_response().await.map_err(|e| format!("request {i} of burst {k} received no response: {e:?}"))?;
		let x = said(m.body.bytes())?;
		ensure!((x.kind, x.burst, x.a) == (1, k, i) && m.header.service_id == 17, "request {i} of burst {k} received {x:?} as response");
		s.tick();
	}
	Ok(())
}

async fn serve<B: Body + AsBytes + From<Vec<u8>>>(s: Arc<Shared>, from: usize, x: Said, mut r: ReceivedRequestHandle<B>) -> CaseResult {
	let Some(Burst::Requests { up, down, size, .. }) = s.plans[from].get(x.burst).cloned() else {
		return Err(format!("request {x:?} was never sent"));
	};
	in_windows(&s, down, |j, w| {
		let f = r.send_update(j as i32, B::from(body_of(3, x.burst, x.a, j, w, size)));
		async move { f.await.map_err(|e| format!("send_update of the responder failed: {e:?}")) }
	})
	.await?;
	let mut order = Order::default();
	for _ in 0..up {
		let m = r.recv_update().await.ok_or_else(|| format!("request {x:?} received {} of {up} updates", order.all))?;
		s.tick();
		let y = said(m.body.bytes())?;
		ensure!((y.kind, y.burst, y.a) == (2, x.burst, x.a) && m.header.service_id == y.b as i32, "received request {x:?} received {y:?} as update");
		order.next("update", y.b, y.window)?;
	}
	r.send_response(17, B::from(body_of(1, x.burst, x.a, 0, 0, size))).await.map_err(|e| format!("send_response failed: {e:?}"))?;
	ensure!(r.recv_update().await.is_none(), "an update out of nothing");
	s.served.fetch_add(1, Ordering::SeqCst);
	s.notify.notify_waiters();
	s.tick();
	Ok(())
}

async fn receiver<B: Body + AsBytes + From<Vec<u8>>>(s: Arc<Shared>, side: usize, mut read: PeerReadHandle<B>, tasks: tokio::sync::mpsc::UnboundedSender<tokio::task::JoinHandle<CaseResult>>) -> Result<PeerReadHandle<B>, String> {
	if s.late {
		s.until(|| s.sent.load(Ordering::SeqCst) == 2).await;
	}
	let from = 1 - side;
	for (k, b) in s.plans[from].iter().enumerate() {
		let (kind, n) = match b {
			Burst::Streams { n, .. } => (4, *n),
			Burst::Requests { n, .. } => (0, *n),
		};
		let mut order = Order::default();
		for _ in 0..n {
			match read.recv_message().await.map_err(|e| format!("recv_message failed after {} of {n} messages of kind {kind}: {e:?}", order.all))? {
				ReceivedMessage::Stream(m) => {
					let x = said(m.body.bytes())?;
					ensure!((x.kind, kind, x.burst) == (4, 4, k) && m.header.service_id == x.a as i32, "received {x:?} as stream message instead of one of burst {k}");
					order.next("stream message", x.a, x.window)?;
				},
				ReceivedMessage::Request(r, body) => {
					let x = said(body.bytes())?;
					ensure!((x.kind, kind, x.burst) == (0, 0, k) && r.service_id() == x.a as i32, "received {x:?} as request instead of a message of burst {k}");
					order.next("request", x.a, x.window)?;
					let _ = tasks.send(spawned(&s, serve(s.clone(), from, x, r)));
				},
			}
			s.tick();
		}
	}
	Ok(read)
}

fn spawned(s: &Arc<Shared>, f: impl Future<Output = CaseResult> + Send + 'static) -> tokio::task::JoinHandle<CaseResult> {
	let s = s.clone();
	tokio::spawn(async move {
		let r = f.await;
		s.report(r)
	})
}

async fn volume<T: Transport<Body = B> + Send + 'static, B: Body + AsBytes + From<Vec<u8>>>(c: &Volume, ta: T, tb: T, info: &mut Info) -> CaseResult
where
	for<'a> T::ReadHalf<'a>: Send,
	for<'a> T::WriteHalf<'a>: Send,
{
	let s = Arc::new(Shared {
		plans: [c.plan(0), c.plan(1)],
		window: c.window,
		late: c.late,
		ticks: Default::default(),
		failed: Default::default(),
		failure: Default::default(),
		sent: Default::default(),
		served: Default::default(),
		notify: Default::default(),
	});
	let (tasks, mut jobs) = tokio::sync::mpsc::unbounded_channel();
	let mut ends = Vec::new();
	let mut kept = Vec::new();
	for (side, t) in [ta, tb].into_iter().enumerate() {
		let (peer, h): (_, PeerHandle<B>) = Peer::new(t);
		tokio::spawn(peer.run());
		let (read, write) = h.split();
		kept.push(write.clone());
		let _ = tasks.send(spawned(&s, sender(s.clone(), side, write)));
		let (s2, tasks2) = (s.clone(), tasks.clone());
		ends.push(tokio::spawn(async move {
			let r = receiver(s2.clone(), side, read, tasks2).await;
			s2.report(r.as_ref().map(|_| ()).map_err(|e| e.clone())).map(|_| r.unwrap())
		}));
	}
	drop(tasks);
	// Collect the results, as long as something happens.
	let work = {
		let s = s.clone();
		async move {
			let mut reads = Vec::new();
			for e in ends {
				reads.push(e.await.map_err(|e| e.to_string())??);
			}
			while let Some(j) = jobs.recv().await {
				j.await.map_err(|e| e.to_string())??;
				s.tick();
			}
			Ok::<_, String>(reads)
		}
	};
	tokio::pin!(work);
	let mut before = usize::MAX;
	let mut reads = loop {
		tokio::select! {
			r = &mut work => break r?,
			_ = s.failure.notified() => return Err(s.failed.lock().unwrap().take().unwrap_or_default()),
			_ = tokio::time::sleep(Duration::from_secs(12)) => {
				let now = s.ticks.load(Ordering::SeqCst);
				if now == before {
					return Err(format!("nothing happens any more: {} of 2 sides sent everything, {} of {} requests are answered", s.sent.load(Ordering::SeqCst), s.served.load(Ordering::SeqCst), s.requests()));
				}
				before = now;
			}
		}
	};
	info.count("messages", s.ticks.load(Ordering::SeqCst) as u64 / 2);
	// Nothing else arrives, and one side notices the end of the other.
	kept.remove(0).close();
	for r in reads.iter_mut() {
		match timeout(Duration::from_secs(20), r.recv_message()).await {
			Ok(Err(e)) if e.is_connection_aborted() => (),
			x => return Err(format!("after everything was received and the connection was closed, recv_message gives {x:?}")),
		}
	}
	Ok(())
}

fn big_config() -> fizyr_rpc::StreamConfig {
	crate::stream::config(1 << 24, 1 << 24, En::Little)
}

fn seq_config(max: u32) -> fizyr_rpc::UnixConfig {
	let mut c = fizyr_rpc::UnixConfig::default();
	c.max_body_len_read = max;
	c.max_body_len_write = max;
	c
}

pub fn two(ctx: &Arc<Ctx>) {
	let size = || prop_oneof![6 => 0u32..50, 2 => 0u32..3000, 1 => 0u32..9000, 1 => Just(60_000u32)];
	let burst = move || {
		prop_oneof![
			2 => (number(8000), size()).prop_map(|(n, size)| Burst::Streams { n, size }),
			2 => (number(3000), 0u32..4, 0u32..4, size()).prop_map(|(n, up, down, size)| Burst::Requests { n, up, down, size }),
			2 => (1u32..4, number(3000), number(3000), size()).prop_map(|(n, up, down, size)| Burst::Requests { n, up, down, size }),
		]
	};
	let side = move || prop::collection::vec(burst(), 0..4);
	let window = || prop_oneof![2 => Just(1u32), 2 => 2u32..40, 2 => 40u32..3000];
	let strat = move || {
		bx((net(), any::<bool>(), any::<bool>(), window(), [side(), side()], 2000u32..200_000).prop_map(|(net, threads, late, window, bursts, sndbuf)| Volume { net, threads, late, window, bursts, sndbuf }))
	};
	let rule = "at least 300 messages, both directions";
	ctx.check("volume", Opts { quick: 1000, thorough: 30_000, shards: 8, rule }, strat, |c, info| {
		info.label(match c.net {
			Net::Unix => "unix stream",
			Net::Tcp => "tcp",
			Net::Seq => "seqpacket",
		});
		info.label(if c.late { "late receivers" } else { "early receivers" });
		let n = |i: usize| c.plan(i).iter().map(|b| match b {
			Burst::Streams { n, .. } => *n,
			Burst::Requests { n, up, down, .. } => n * (2 + up + down),
		}).sum::<u32>();
		info.nontrivial = n(0) > 0 && n(1) > 0 && n(0) + n(1) >= 300;
		on(c.threads, async {
			match c.net {
				Net::Unix => {
					let (a, b) = tokio::net::UnixStream::pair().unwrap();
					use std::os::fd::AsRawFd;
					crate::stream::set_buf(a.as_raw_fd(), libc::SO_SNDBUF, c.sndbuf);
					volume::<_, StreamBody>(c, StreamTransport::new(a, big_config()), StreamTransport::new(b, big_config()), info).await
				},
				Net::Tcp => {
					let (a, b) = crate::stream::tcp_pair().await;
					volume::<_, StreamBody>(c, StreamTransport::new(a, big_config()), StreamTransport::new(b, big_config()), info).await
				},
				Net::Seq => {
					let (a, b) = tokio_seqpacket::UnixSeqpacket::pair().unwrap();
					volume::<_, UnixBody>(c, UnixTransport::new(a, seq_config(70_000)), UnixTransport::new(b, seq_config(70_000)), info).await
				},
			}
		})
	});
}

// ---------------------------------------------------------------- one peer and a scripted remote

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Last {
	/// The remote closes the connection.
	Remote,
	/// One of the handles closes it.
	Close,
	/// All handles that keep the peer alive are dropped.
	Drop,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
	threads: bool,
	seed: u64,
	/// Clones of the write handle, dropped before the peer runs or later.
	clones: u32,
	clones_early: bool,
	/// Requests of the peer, and updates for each of them.
	sent: u32,
	sent_updates: u32,
	/// Which of them get a response in the first mix, in 1/256.
	sent_answered: u8,
	/// Requests of the remote, and updates for each of them.
	reqs: u32,
	req_updates: u32,
	/// Write handles of each, and tasks that use them.
	writers: u32,
	/// Which of the requests are answered, in 1/256.
	answered: u8,
	streams: u32,
	bad: u32,
	/// Every so many sends are preceded by one that is too large.
	too_large: u32,
	/// Requests without anyone to read them, all sent `rounds` times.
	refused: u32,
	rounds: u32,
	/// The remote closes the connection right after its messages, and they are only received then.
	late: bool,
	last: Last,
}

const LIMIT: u32 = 5000;

impl Many {
	fn fit(mut self) -> Self {
		let left = |n: &mut u32, per: u32, most: u32| *n = (*n).min(most / per.max(1));
		left(&mut self.sent, 1 + self.sent_updates, 9000);
		left(&mut self.reqs, 1 + self.req_updates, 9000);
		left(&mut self.writers, self.reqs, 12_000);
		left(&mut self.refused, self.rounds, 6000);
		self
	}
	fn rid(&self, i: u32) -> u32 {
		(self.seed as u32).wrapping_add(i.wrapping_mul((self.seed >> 32) as u32 | 1))
	}
	fn yes(&self, salt: u32, i: u32, chance: u8) -> bool {
		let x = (self.seed ^ u64::from(salt)).wrapping_add(u64::from(i)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
		((x >> 40) as u8) < chance || chance == 255
	}
}

struct Far {
	write: tokio::net::unix::OwnedWriteHalf,
	seen: Arc<Mutex<(Vec<(Hdr, Vec<u8>)>, bool)>>,
	changed: Arc<tokio::sync::Notify>,
	/// Frames that were looked at already.
	at: usize,
	out: Vec<u8>,
}

const PATIENCE: Duration = Duration::from_secs(15);

impl Far {
	fn new(s: tokio::net::UnixStream) -> Self {
		use tokio::io::AsyncReadExt;
		let (mut read, write) = s.into_split();
		let seen = Arc::new(Mutex::new((Vec::new(), false)));
		let changed = Arc::new(tokio::sync::Notify::new());
		let (seen2, changed2) = (seen.clone(), changed.clone());
		tokio::spawn(async move {
			let mut buf = Vec::new();
			let mut at = 0;
			loop {
				let end = !matches!(read.read_buf(&mut buf).await, Ok(n) if n > 0);
				{
					let mut seen = seen2.lock().unwrap();
					seen.1 |= end;
					loop {
						let x = &buf[at..];
						if x.len() < 16 {
							break;
						}
						let n = |i: usize| En::Little.read_u32(&x[i..i + 4]);
						let len = n(0) as usize;
						if len < 12 || x.len() < 4 + len {
							break;
						}
						let h = Hdr { t: n(4) as u8, id: n(8), svc: n(12) as i32 };
						seen.0.push((h, x[16..4 + len].to_vec()));
						at += 4 + len;
					}
				}
				if at > 1 << 20 {
					buf.drain(..at);
					at = 0;
				}
				changed2.notify_waiters();
				if end {
					return;
				}
			}
		});
		Self { write, seen, changed, at: 0, out: Vec::new() }
	}
	fn queue(&mut self, t: u8, id: u32, svc: i32, body: &[u8]) {
		self.out.extend_from_slice(&frame(&Hdr { t, id, svc }, body, En::Little));
	}
	async fn flush(&mut self) -> CaseResult {
		use tokio::io::AsyncWriteExt;
		let out = std::mem::take(&mut self.out);
		for x in out.chunks(1 << 16) {
			timeout(PATIENCE, self.write.write_all(x)).await.map_err(|_| "the peer does not read any more")?.map_err(|e| format!("cannot send to the peer: {e}"))?;
		}
		Ok(())
	}
	async fn wait(&self, what: &str, mut f: impl FnMut(&[(Hdr, Vec<u8>)], bool) -> bool) -> CaseResult {
		let mut before = None;
		loop {
			let n = self.changed.notified();
			tokio::pin!(n);
			n.as_mut().enable();
			let now = {
				let s = self.seen.lock().unwrap();
				if f(&s.0[self.at..], s.1) {
					return Ok(());
				}
				ensure!(!s.1, "the peer closed the connection, while waiting for {what}");
				s.0.len()
			};
			if tokio::time::timeout(PATIENCE, n).await.is_err() {
				ensure!(before != Some(now), "after {} messages there is no {what}", now - self.at);
				before = Some(now);
			}
		}
	}
	/// Take exactly the next `n` frames.
	async fn take(&mut self, n: usize, what: &str) -> Result<Vec<(Hdr, Vec<u8>)>, String> {
		self.wait(what, |s, _| s.len() >= n).await?;
		let s = self.seen.lock().unwrap();
		let out = s.0[self.at..self.at + n].to_vec();
		drop(s);
		self.at += n;
		Ok(out)
	}
	fn rest(&self) -> Vec<Hdr> {
		self.seen.lock().unwrap().0[self.at..].iter().map(|x| x.0).collect()
	}
}

fn shuffle<T>(v: &mut [T], seed: u64) {
	let mut x = seed | 1;
	for i in (1..v.len()).rev() {
		x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
		v.swap(i, (x >> 33) as usize % (i + 1));
	}
}

fn num(x: &[u8]) -> u32 {
	x.try_into().map(u32::from_le_bytes).unwrap_or(u32::MAX)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
	Req(u32),
	Stream(u32),
	Sent(u32),
	Bad(u32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Main {
	Req(u32),
	Stream(u32),
	Err,
}

async fn patient<T>(what: &str, f: impl Future<Output = T>) -> Result<T, String> {
	timeout(PATIENCE, f).await.map_err(|_| format!("{what} never completes"))
}

async fn many(c: &Many, info: &mut Info) -> CaseResult {
	let (a, b) = tokio::net::UnixStream::pair().unwrap();
	let (peer, handle) = Peer::new(StreamTransport::new(a, crate::stream::config(1 << 20, LIMIT, En::Little)));
	let (mut read, write) = handle.split();
	let mut far = Far::new(b);
	let too_large = vec![1u8; LIMIT as usize + 1];

	// Clones.
	let mut clones: Vec<_> = (0..c.clones).map(|_| write.clone()).collect();
	shuffle(&mut clones, c.seed);
	if c.clones_early {
		clones.clear();
	}
	let run = tokio::spawn(peer.run());
	tokio::task::yield_now().await;
	clones.truncate(c.clones as usize / 2);
	let mut refused_sends = 0u32;

	// Requests of the peer.
	let mut sent = Vec::new();
	for i in 0..c.sent {
		if c.too_large > 0 && i % c.too_large == 0 {
			refused_sends += 1;
			let r = patient("a send", write.send_request(1, too_large.clone())).await?;
			ensure!(r.is_err(), "a too large request was accepted");
		}
		let r = patient("a send", write.send_request(i as i32, i.to_le_bytes().to_vec())).await?;
		sent.push(r.map_err(|e| format!("sending request {i} failed: {e:?}"))?);
	}
	let mut sent_ids = BTreeMap::new();
	for (i, (h, body)) in far.take(c.sent as usize, "request").await?.into_iter().enumerate() {
		ensure!(h.t == 0 && h.svc == i as i32 && num(&body) == i as u32, "{h:?} is on the wire instead of request {i}");
		ensure!(h.id == sent[i].request_id(), "request {i} has ID {} on the wire and {} in its handle", h.id, sent[i].request_id());
		if let Some(before) = sent_ids.insert(h.id, i) {
			return Err(format!("requests {before} and {i} are both open and have the ID {}", h.id));
		}
	}

	// The remote sends a mix.
	let mut events: Vec<Ev> = Vec::new();
	for i in 0..c.reqs {
		events.extend((0..=c.req_updates).map(|_| Ev::Req(i)));
	}
	for i in 0..c.sent {
		let n = c.sent_updates + u32::from(c.yes(1, i, c.sent_answered));
		events.extend((0..n).map(|_| Ev::Sent(i)));
	}
	events.extend((0..c.streams).map(Ev::Stream));
	events.extend((0..c.bad).map(Ev::Bad));
	if c.seed % 4 != 0 {
		shuffle(&mut events, c.seed);
	}
	let mut main = Vec::new();
	let mut updates = vec![0u32; c.reqs as usize];
	let mut opened: Vec<Option<()>> = vec![None; c.reqs as usize];
	let mut some_open = None;
	let mut down = vec![0u32; c.sent as usize];
	let mut done = None;
	let rids: BTreeSet<u32> = (0..c.reqs).map(|i| c.rid(i)).collect();
	ensure!(rids.len() == c.reqs as usize, "harness: IDs");
	for e in &events {
		match *e {
			Ev::Req(i) if opened[i as usize].is_none() => {
				opened[i as usize] = Some(());
				some_open = Some(i);
				far.queue(0, c.rid(i), i as i32, &i.to_le_bytes());
				main.push(Main::Req(i));
			},
			Ev::Req(i) => {
				let n = &mut updates[i as usize];
				far.queue(2, c.rid(i), *n as i32, &i.to_le_bytes());
				*n += 1;
			},
			Ev::Sent(i) if down[i as usize] < c.sent_updates => {
				let n = &mut down[i as usize];
				far.queue(3, sent[i as usize].request_id(), *n as i32, &i.to_le_bytes());
				*n += 1;
			},
			Ev::Sent(i) => {
				done = Some(i);
				far.queue(1, sent[i as usize].request_id(), 5, &i.to_le_bytes());
			},
			Ev::Stream(i) => {
				far.queue(4, i, i as i32, &i.to_le_bytes());
				main.push(Main::Stream(i));
			},
			Ev::Bad(i) => {
				let mut unknown_recv = c.rid(c.reqs + 1000 + i);
				while rids.contains(&unknown_recv) {
					unknown_recv = unknown_recv.wrapping_add(1);
				}
				let mut unknown_sent = c.rid(77 + i);
				while sent_ids.contains_key(&unknown_sent) {
					unknown_sent = unknown_sent.wrapping_add(1);
				}
				match (i % 6, some_open, done) {
					(0, _, _) => far.queue(1, unknown_sent, 5, b"bad"),
					(1, _, _) => far.queue(3, unknown_sent, 5, b"bad"),
					(3, Some(k), _) => far.queue(0, c.rid(k), 5, b"bad"),
					(4, _, Some(k)) => far.queue(1, sent[k as usize].request_id(), 5, b"bad"),
					(5, _, Some(k)) => far.queue(3, sent[k as usize].request_id(), 5, b"bad"),
					_ => far.queue(2, unknown_recv, 5, b"bad"),
				}
				main.push(Main::Err);
			},
		}
	}
	far.flush().await?;
	if c.late {
		use tokio::io::AsyncWriteExt;
		far.write.shutdown().await.map_err(|e| e.to_string())?;
		// Mostly let the peer notice it.
		if c.seed % 3 != 0 {
			patient("the run loop after the remote closed the connection", async {
				while !run.is_finished() {
					tokio::time::sleep(Duration::from_millis(1)).await;
				}
			})
			.await?;
		}
	}

	// Everything arrives.
	let mut received = Vec::new();
	for (n, m) in main.iter().enumerate() {
		let r = patient("recv_message", read.recv_message()).await?;
		match (m, r) {
			(Main::Req(i), Ok(ReceivedMessage::Request(r, body))) if r.request_id() == c.rid(*i) && r.service_id() == *i as i32 && num(&body) == *i => received.push((*i, r)),
			(Main::Stream(i), Ok(ReceivedMessage::Stream(m))) if m.header.service_id == *i as i32 && num(&m.body) == *i => (),
			(Main::Err, Err(e)) if !e.is_connection_aborted() => (),
			(m, r) => return Err(format!("message {n} should be {m:?}, received: {r:?}")),
		}
	}
	for (i, r) in received.iter_mut() {
		for k in 0..c.req_updates {
			let m = patient("recv_update", r.recv_update()).await?;
			ensure!(matches!(&m, Some(m) if m.header.service_id == k as i32 && m.header.request_id == c.rid(*i) && num(&m.body) == *i), "update {k} of received request {i}: {m:?}");
		}
	}
	let mut waiting = Vec::new();
	for (i, mut r) in sent.into_iter().enumerate() {
		for k in 0..c.sent_updates {
			let m = patient("recv_update", r.recv_update()).await?;
			ensure!(matches!(&m, Some(m) if m.header.service_id == k as i32 && num(&m.body) == i as u32), "update {k} of sent request {i}: {m:?}");
		}
		if c.yes(1, i as u32, c.sent_answered) {
			ensure!(patient("recv_update", r.recv_update()).await?.is_none(), "sent request {i} received too many updates");
			let m = patient("recv_response", r.recv_response()).await?;
			ensure!(matches!(&m, Ok(m) if m.header.service_id == 5 && num(&m.body) == i as u32), "response for sent request {i}: {m:?}");
		} else {
			waiting.push((i as u32, r));
		}
	}

	if !c.late {
		// Answer the requests, from many handles at once.
		let handles: Vec<_> = (0..c.writers)
			.map(|w| {
				let mut v: Vec<_> = received.iter().filter(|(i, _)| c.yes(2, *i, c.answered)).map(|(i, r)| (*i, r.write_handle())).collect();
				if w % 3 == 2 {
					shuffle(&mut v, c.seed.wrapping_add(w.into()));
				}
				v
			})
			.collect();
		let left = (0..c.writers).map(|_| c.too_large).max().unwrap_or(0);
		let mut tasks = Vec::new();
		for (w, v) in handles.into_iter().enumerate() {
			let too_large = too_large.clone();
			tasks.push(tokio::spawn(async move {
				let mut out = Vec::new();
				for (n, (i, h)) in v.into_iter().enumerate() {
					if left > 0 && (n as u32 + w as u32) % left == 0 && h.send_response(9, too_large.clone()).await.is_ok() {
						return Err("a too large response was accepted".to_string());
					}
					let body = (w as u32).to_le_bytes().to_vec();
					if w % 2 == 1 {
						out.push((i, 3, w as u32, h.send_update(3, body.clone()).await.is_ok()));
					}
					let r = if w % 5 == 4 { h.send_error_response(&w.to_string()).await } else { h.send_response(9, body).await };
					out.push((i, 1, w as u32, r.is_ok()));
				}
				Ok(out)
			}));
		}
		let mut results = Vec::new();
		for t in tasks {
			let r = patient("answering", t).await?.map_err(|e| format!("panic: {e}"))??;
			results.extend(r);
		}
		let good = results.iter().filter(|r| r.3).count();
		let wire = far.take(good, "update or response").await?;
		let index: BTreeMap<u32, u32> = (0..c.reqs).map(|i| (c.rid(i), i)).collect();
		let mut answered = BTreeSet::new();
		let mut left: BTreeSet<_> = results.iter().filter(|r| r.3).map(|r| (r.0, r.1, r.2)).collect();
		for (h, body) in &wire {
			let Some(i) = index.get(&h.id) else { return Err(format!("{h:?} on the wire for no request")) };
			let w = if h.svc == -1 { std::str::from_utf8(body).ok().and_then(|x| x.parse().ok()).unwrap_or(u32::MAX) } else { num(body) };
			ensure!(left.remove(&(*i, u32::from(h.t), w)), "{h:?} is on the wire, but no such send returned success");
			ensure!(!answered.contains(i), "{h:?} is on the wire after the response for that request");
			if h.t == 1 {
				answered.insert(*i);
			}
		}
		for (i, r) in received.iter_mut().filter(|(i, _)| c.writers > 0 && c.yes(2, *i, c.answered)) {
			ensure!(answered.contains(i), "no handle of request {i} could send a response");
			ensure!(patient("send_update", r.send_update(1, vec![])).await?.is_err(), "an update after the response for request {i} was accepted");
			ensure!(patient("recv_update", r.recv_update()).await?.is_none(), "an update out of nothing");
		}

		// Nobody reads.
		if c.refused > 0 {
			drop(std::mem::replace(&mut clones, vec![write.clone()]));
			let old = std::mem::replace(&mut read, spare_read());
			drop(old);
			let ids: Vec<u32> = (0..).map(|i| c.rid(20_000 + i)).filter(|x| !rids.contains(x)).take(c.refused as usize).collect();
			for round in 0..c.rounds {
				for (n, id) in ids.iter().enumerate() {
					far.queue(0, *id, n as i32, b"");
					if n as u32 % 3 == round {
						far.queue(4, *id, 0, b"");
					}
				}
				let n = waiting.len() / (c.rounds - round) as usize;
				let now: Vec<_> = waiting.drain(..n).collect();
				for (i, r) in &now {
					far.queue(1, r.request_id(), 6, &i.to_le_bytes());
				}
				far.flush().await?;
				let wire = far.take(ids.len(), "refusal of a request").await?;
				let mut seen = BTreeSet::new();
				for (h, _) in &wire {
					ensure!((h.t, h.svc) == (1, -1), "{h:?} instead of an error response for a request that nobody reads");
					ensure!(seen.insert(h.id), "two responses for the refused request {}", h.id);
				}
				ensure!(seen.iter().all(|x| ids.contains(x)) && seen.len() == ids.len(), "responses for requests that were not sent");
				for (i, mut r) in now {
					let m = patient("recv_response", r.recv_response()).await?;
					ensure!(matches!(&m, Ok(m) if m.header.service_id == 6 && num(&m.body) == i), "response for sent request {i} without read handle: {m:?}");
				}
			}
		}

		// The peer lives.
		ensure!(!run.is_finished(), "the peer stopped although nothing ended the connection");
		let i = received.iter().position(|(i, _)| c.writers == 0 || !c.yes(2, *i, c.answered));
		if let Some(i) = i {
			patient("send_update", received[i].1.send_update(12, vec![])).await?.map_err(|e| format!("an update failed: {e:?}"))?;
			let x = far.take(1, "update").await?;
			ensure!((x[0].0.t, x[0].0.svc) == (3, 12), "{:?} instead of an update", x[0].0);
		}
		patient("send_stream", write.send_stream(11, vec![])).await?.map_err(|e| format!("a stream message failed: {e:?}"))?;
		let x = far.take(1, "stream message").await?;
		ensure!((x[0].0.t, x[0].0.svc) == (4, 11), "{:?} instead of a stream message", x[0].0);
	}
	info.count("sends of too large bodies", refused_sends.into());
	info.count("receives that were pending at the end", (waiting.len() + received.len()) as u64);

	// The end.
	let mut pending = Vec::new();
	for (i, mut r) in waiting {
		pending.push(tokio::spawn(async move {
			let m = r.recv_response().await;
			match (m, r.recv_update().await, r.send_update(1, vec![]).await) {
				(Err(e), None, Err(_)) if e.is_connection_aborted() => Ok(()),
				x => Err(format!("sent request {i} at the end of the connection: {x:?}")),
			}
		}));
	}
	for (i, mut r) in received {
		pending.push(tokio::spawn(async move {
			match (r.recv_update().await, r.send_response(1, vec![]).await) {
				(None, Err(_)) => Ok(()),
				x => Err(format!("received request {i} at the end of the connection: {x:?}")),
			}
		}));
	}
	if c.seed % 2 == 0 {
		tokio::task::yield_now().await;
	}
	let mut reader = Some(read);
	match c.last {
		Last::Remote if !c.late => {
			use tokio::io::AsyncWriteExt;
			far.write.shutdown().await.map_err(|e| e.to_string())?;
		},
		Last::Drop => {
			if !c.late {
				ensure!(!run.is_finished(), "the peer stopped although nothing ended the connection");
			}
			reader = None;
		},
		_ => match clones.first() {
			Some(x) if c.seed % 5 == 0 => x.close(),
			_ => write.close(),
		},
	}
	if c.last == Last::Drop {
		// One after the other, the last one ends it.
		for (k, x) in clones.drain(..).enumerate() {
			drop(x);
			if k % 64 == 0 {
				tokio::task::yield_now().await;
			}
		}
		if !c.late {
			patient("send_stream", write.send_stream(13, vec![])).await?.map_err(|e| format!("a stream message failed with one write handle left: {e:?}"))?;
			far.take(1, "stream message").await?;
		}
		drop(write);
	}
	for p in pending {
		patient("an operation on a request at the end of the connection", p).await?.map_err(|e| format!("panic: {e}"))??;
	}
	if let Some(r) = &mut reader {
		if c.refused == 0 || c.late {
			for _ in 0..2 {
				let r = patient("recv_message at the end of the connection", r.recv_message()).await?;
				ensure!(matches!(&r, Err(e) if e.is_connection_aborted()), "recv_message at the end of the connection: {r:?}");
			}
		}
	}
	patient("the run loop", run).await?.map_err(|e| format!("panic: {e}"))?;
	far.wait("end of the connection", |_, end| end).await?;
	let rest = far.rest();
	ensure!(rest.is_empty(), "unexpected messages on the wire: {rest:?}");
	Ok(())
}

/// A read handle of another peer, to have something in place of a dropped one.
fn spare_read() -> PeerReadHandle<StreamBody> {
	let (a, _b) = tokio::net::UnixStream::pair().unwrap();
	Peer::new(StreamTransport::new(a, big_config())).1.split().0
}

pub fn one(ctx: &Arc<Ctx>) {
	let id: &'static str = Box::leak(ctx.origin().into_boxed_str());
	let strat = move || {
		let few = || prop_oneof![1 => Just(0u32), 3 => 1u32..12];
		// What the property is about comes in large numbers.
		let n = move |large: bool, max: u32| if large { number(max).boxed() } else { few().boxed() };
		let is = move |x: &[&str]| x.contains(&id);
		let local = (if is(&["C16"]) { prop_oneof![30 => number(8000), 1 => 60_000u32..70_000].boxed() } else { few().boxed() }, any::<bool>(), n(is(&["C10", "C12", "C15", "C17"]), 8000), n(is(&["C25"]), 300), any::<u8>());
		let remote = (n(is(&["C11", "C12", "C13", "C15", "C25"]), 8000), n(is(&["C25"]), 300), n(is(&["C11"]), 3000), any::<u8>(), n(is(&["C13", "C25"]), 6000), n(is(&["C13"]), 6000));
		let other = (if is(&["C12"]) { (1u32..9).boxed() } else { prop_oneof![4 => Just(0u32), 1 => 1u32..9].boxed() }, n(is(&["C17"]), 3000), if is(&["C17"]) { (1u32..4).boxed() } else { Just(1u32).boxed() });
		let end = (prop::bool::weighted(if is(&["C25"]) { 0.9 } else { 0.1 }), prop_oneof![Just(Last::Remote), Just(Last::Close), Just(Last::Drop)]);
		bx((any::<bool>(), any::<u64>(), local, remote, other, end).prop_map(
			|(threads, seed, (clones, clones_early, sent, sent_updates, sent_answered), (reqs, req_updates, writers, answered, streams, bad), (too_large, refused, rounds), (late, last))| {
				Many { threads, seed, clones, clones_early, sent, sent_updates, sent_answered, reqs, req_updates, writers, answered, streams, bad, too_large, refused, rounds, late, last }.fit()
			},
		))
	};
	let rule = "at least 100 of something";
	ctx.check("many of everything", Opts { quick: 3000, thorough: 80_000, shards: 8, rule }, strat, |c, info| {
		let most = [c.clones, c.sent * (1 + c.sent_updates), c.reqs * (1 + c.req_updates), c.reqs * c.writers, c.streams, c.bad, c.refused].into_iter().max().unwrap();
		info.nontrivial = most >= 100;
		info.label_if(most >= 1000, "at least 1000 of something");
		info.label_if(c.refused > 0 && !c.late, "refused requests");
		info.label_if(c.late, "received after the end");
		on(c.threads, many(c, info))
	});
}
