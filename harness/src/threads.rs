//! Checks on a real runtime. C15: operations that are queued exactly while the connection ends must fail too.
//! C25: bulk of messages before a disconnect.
use crate::fw::*;
use crate::limits::AsBytes;
use crate::mem::Fault;
use fizyr_rpc::transport::{Transport, TransportError, TransportReadHalf, TransportWriteHalf};
use crate::util::*;
use fizyr_rpc::{Message, MessageHeader, Peer, PeerHandle, ReceivedMessage, StreamBody, UnixBody, UnixSeqpacketPeer, UnixSeqpacketTransport, UnixStreamPeer, UnixStreamTransport};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Op {
	Stream,
	Request,
	Update,
	/// Wait for the response to a request that never comes.
	Response,
	/// Clone and drop write handles, in between send.
	Clone,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum End {
	CloseHandle,
	WriteHandle,
	ReadHandle,
	/// The transport reports that the connection was closed.
	ReadFails,
	/// The transport reports the end on writing.
	WriteFails,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
	ops: Vec<Op>,
	end: End,
	/// Microseconds until the end.
	when: u16,
	rounds: u8,
}

/// A transport that accepts everything and never receives anything, until it ends.
#[derive(Default)]
struct Sink {
	read_ended: AtomicBool,
	write_ended: AtomicBool,
	read_error: Mutex<Option<TransportError>>,
	write_error: Mutex<Option<TransportError>>,
	waker: Mutex<Option<Waker>>,
}
struct Half(Arc<Sink>);
struct Endless(Arc<Sink>);

impl Transport for Endless {
	type Body = StreamBody;
	type Info = ();
	type Config = fizyr_rpc::StreamConfig;
	type ReadHalf<'a> = Half;
	type WriteHalf<'a> = Half;
	fn split(&mut self) -> (Half, Half) {
		(Half(self.0.clone()), Half(self.0.clone()))
	}
	fn info(&self) -> std::io::Result<()> {
		Ok(())
	}
}
impl TransportReadHalf for Half {
	type Body = StreamBody;
	fn poll_read_msg(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<Message<StreamBody>, TransportError>> {
		*self.0.waker.lock().unwrap() = Some(cx.waker().clone());
		if self.0.read_ended.load(Ordering::SeqCst) {
			if let Some(e) = self.0.read_error.lock().unwrap().take() {
				return Poll::Ready(Err(e));
			}
		}
		Poll::Pending
	}
}
impl TransportWriteHalf for Half {
	type Body = StreamBody;
	fn poll_write_msg(self: Pin<&mut Self>, _cx: &mut Context, _header: &MessageHeader, body: &StreamBody) -> Poll<Result<(), TransportError>> {
		let _ = body.bytes();
		if self.0.write_ended.load(Ordering::SeqCst) {
			return match self.0.write_error.lock().unwrap().take() {
				Some(e) => Poll::Ready(Err(e)),
				None => Poll::Pending,
			};
		}
		Poll::Ready(Ok(()))
	}
}

async fn round(c: &Case, sink: Arc<Sink>, info: &mut Info) -> CaseResult {
	let (peer, handle) = Peer::new(Endless(sink.clone()));
	let run = tokio::spawn(peer.run());
	let (mut read, write) = handle.split();
	let close = write.close_handle();
	let sent = Arc::new(AtomicUsize::new(0));
	let mut tasks = Vec::new();
	for op in c.ops.iter().copied() {
		let w = write.clone();
		let sent = sent.clone();
		tasks.push(tokio::spawn(async move {
			match op {
				Op::Stream => {
					while w.send_stream(1, vec![1u8]).await.is_ok() {
						sent.fetch_add(1, Ordering::Relaxed);
					}
				},
				Op::Request => {
					while w.send_request(1, vec![1u8]).await.is_ok() {
						sent.fetch_add(1, Ordering::Relaxed);
					}
				},
				Op::Update => {
					if let Ok(r) = w.send_request(1, vec![1u8]).await {
						while r.send_update(1, vec![2u8]).await.is_ok() {
							sent.fetch_add(1, Ordering::Relaxed);
						}
					}
				},
				Op::Response => {
					if let Ok(mut r) = w.send_request(1, vec![1u8]).await {
						let _ = r.recv_response().await;
					}
				},
				Op::Clone => loop {
					let w2 = w.clone();
					if w2.send_stream(1, vec![1u8]).await.is_err() {
						break;
					}
					sent.fetch_add(1, Ordering::Relaxed);
				},
			}
		}));
	}
	tokio::time::sleep(Duration::from_micros(c.when as u64)).await;
	match c.end {
		End::CloseHandle => close.close(),
		End::WriteHandle => write.close(),
		End::ReadHandle => read.close(),
		End::WriteFails if c.ops.iter().any(|o| !matches!(o, Op::Response)) => sink.write_ended.store(true, Ordering::SeqCst),
		_ => {
			sink.read_ended.store(true, Ordering::SeqCst);
			if let Some(w) = sink.waker.lock().unwrap().take() {
				w.wake();
			}
		},
	}
	let limit = Duration::from_secs(8);
	let start = Instant::now();
	let left = |start: Instant| limit.saturating_sub(start.elapsed()).max(Duration::from_millis(200));
	if timeout(left(start), run).await.is_err() {
		return Err("the peer still runs after the end of the connection".into());
	}
	for (i, t) in tasks.into_iter().enumerate() {
		if timeout(left(start), t).await.is_err() {
			return Err(format!("operation {:?} still waits after the connection ended and the peer stopped", c.ops[i]));
		}
	}
	let ended = async {
		loop {
			match read.recv_message().await {
				Err(e) if e.is_connection_aborted() => break,
				_ => (),
			}
		}
	};
	if timeout(left(start), ended).await.is_err() {
		return Err("recv_message still waits after the connection ended".into());
	}
	info.count("messages sent", sent.load(Ordering::Relaxed) as u64);
	Ok(())
}

pub fn c15(ctx: &Arc<Ctx>) {
	let op = || prop_oneof![3 => Just(Op::Stream), 2 => Just(Op::Request), 2 => Just(Op::Update), 1 => Just(Op::Response), 1 => Just(Op::Clone)];
	let end = || prop_oneof![Just(End::CloseHandle), Just(End::WriteHandle), Just(End::ReadHandle), Just(End::ReadFails), Just(End::WriteFails)];
	let strat = move || bx((prop::collection::vec(op(), 4..14), end(), 0u16..500).prop_map(|(ops, end, when)| Case { ops, end, when, rounds: 10 }));
	let again = if ctx.replay.is_some() { 1000 } else { 1 };
	ctx.check(
		"end of the connection while threads send",
		Opts { quick: 3000, thorough: 100_000, shards: 8, rule: "at least four tasks on a multi-threaded runtime keep queueing operations while the connection ends" },
		strat,
		move |c, info| {
			thread_local!(static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_multi_thread().worker_threads(8).enable_all().build().unwrap());
			info.nontrivial = true;
			RT.with(|rt| {
				for _ in 0..c.rounds as u32 * again {
					let sink = Sink {
						read_error: Mutex::new(Some(crate::mem::error(Fault::Eof))),
						write_error: Mutex::new(Some(crate::mem::error(Fault::Broken))),
						..Default::default()
					};
					rt.block_on(round(c, Arc::new(sink), info))?;
				}
				Ok(())
			})
		},
	);
}

// ---------------------------------------------------------------- C25

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Item {
	Stream,
	Request,
	/// Update for the n-th request of the remote.
	Up(u8),
	/// Update for the n-th request of the peer.
	Down(u8),
	/// Response to the n-th request of the peer.
	Response(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Late {
	seqpacket: bool,
	/// Worker threads, or the current thread.
	threads: bool,
	requests: u8,
	/// Runs of messages of one kind, with sizes.
	bulk: Vec<(Item, u16, u16)>,
	/// When the receivers start: as the messages arrive, when everything was sent, or when the peer is long gone.
	start: u8,
	/// Only the sending direction of the remote is closed.
	half: bool,
	eager: bool,
}

enum Wire {
	Stream(tokio::net::UnixStream),
	Seq(tokio_seqpacket::UnixSeqpacket),
}

impl Wire {
	async fn send(&mut self, h: Hdr, body: &[u8]) {
		match self {
			Wire::Stream(s) => {
				use tokio::io::AsyncWriteExt;
				let _ = s.write_all(&frame(&h, body, En::Little)).await;
			},
			Wire::Seq(s) => {
				let mut data = h.bytes(En::Little).to_vec();
				data.extend_from_slice(body);
				let _ = s.send(&data).await;
			},
		}
	}
	/// Request ID of the next message.
	async fn recv_id(&mut self) -> Option<u32> {
		match self {
			Wire::Stream(s) => {
				use tokio::io::AsyncReadExt;
				let mut head = [0; 16];
				s.read_exact(&mut head).await.ok()?;
				let mut body = vec![0; En::Little.read_u32(&head) as usize - 12];
				s.read_exact(&mut body).await.ok()?;
				Some(En::Little.read_u32(&head[8..]))
			},
			Wire::Seq(s) => {
				let mut buf = vec![0; 8192];
				let n = s.recv(&mut buf).await.ok()?;
				(n >= 12).then(|| En::Little.read_u32(&buf[4..]))
			},
		}
	}
}

/// The messages, and which of them every handle has to get.
struct Plan {
	wire: Vec<(Hdr, Vec<u8>)>,
	main: Vec<usize>,
	sent: Vec<Vec<usize>>,
	recvd: Vec<Vec<usize>>,
}

fn plan(c: &Late, ids: &[u32]) -> Plan {
	let mut p = Plan { wire: vec![], main: vec![], sent: vec![vec![]; ids.len()], recvd: vec![] };
	let mut open = vec![true; ids.len()];
	for (item, n, size) in &c.bulk {
		for i in 0..*n {
			let k = p.wire.len();
			let svc = k as i32;
			let mut body = (k as u32).to_le_bytes().to_vec();
			body.resize(4 + (*size as usize * (i as usize % 7)) / 7, k as u8);
			let h = match *item {
				Item::Stream => {
					p.main.push(k);
					Hdr { t: 4, id: i as u32, svc }
				},
				Item::Request => {
					p.main.push(k);
					p.recvd.push(vec![]);
					Hdr { t: 0, id: 5000 + p.recvd.len() as u32 - 1, svc }
				},
				Item::Up(r) => {
					if p.recvd.is_empty() {
						break;
					}
					let r = (r as usize + i as usize / 3) % p.recvd.len();
					p.recvd[r].push(k);
					Hdr { t: 2, id: 5000 + r as u32, svc }
				},
				Item::Down(r) | Item::Response(r) => {
					let left: Vec<usize> = (0..ids.len()).filter(|i| open[*i]).collect();
					if left.is_empty() {
						break;
					}
					let r = left[r as usize % left.len()];
					let response = matches!(item, Item::Response(_));
					if response {
						open[r] = false;
					}
					p.sent[r].push(k);
					Hdr { t: if response { 1 } else { 3 }, id: ids[r], svc }
				},
			};
			p.wire.push((h, body));
			if matches!(item, Item::Response(_)) {
				break;
			}
		}
	}
	p
}

async fn late<B: fizyr_rpc::Body + AsBytes + From<Vec<u8>>>(c: &Late, handle: PeerHandle<B>, mut wire: Wire, info: &mut Info) -> CaseResult {
	let patience = Duration::from_secs(20);
	macro_rules! soon {
		($what:expr, $f:expr) => {
			timeout(patience, $f).await.map_err(|_| format!("{} is still pending although the remote disconnected", $what))?
		};
	}
	let mut sent = Vec::new();
	let mut ids = Vec::new();
	for _ in 0..c.requests {
		sent.push(soon!("send_request", handle.send_request(1, B::from(vec![1u8]))).map_err(|e| format!("send_request failed: {e:?}"))?);
		ids.push(soon!("the request on the wire", wire.recv_id()).ok_or("the request is not on the wire")?);
	}
	let p = Arc::new(plan(c, &ids));
	let all = p.wire.len();
	info.count("messages before the disconnect", all as u64);
	let half = c.half;
	let remote = {
		let p = p.clone();
		tokio::spawn(async move {
			for (h, b) in &p.wire {
				wire.send(*h, b).await;
			}
			if half {
				match &mut wire {
					Wire::Stream(s) => {
						use tokio::io::AsyncWriteExt;
						let _ = s.shutdown().await;
					},
					Wire::Seq(s) => {
						let _ = s.shutdown(std::net::Shutdown::Write);
					},
				}
				return Some(wire);
			}
			None
		})
	};
	let remote = match c.start % 3 {
		0 => remote,
		1 => {
			let w = soon!("sending", remote).map_err(|e| e.to_string())?;
			tokio::spawn(async move { w })
		},
		_ => {
			let w = soon!("sending", remote).map_err(|e| e.to_string())?;
			tokio::time::sleep(Duration::from_millis(20)).await;
			tokio::spawn(async move { w })
		},
	};
	let check = |what: &str, k: usize, h: Hdr, b: &[u8]| -> CaseResult {
		let (eh, eb) = &p.wire[k];
		let same = h.t == eh.t && h.svc == eh.svc && (h.t == 4 || h.id == eh.id) && b == &eb[..];
		if same {
			Ok(())
		} else {
			Err(format!("{what}: got {:?} with {} bytes instead of message {k} of {all}: {:?} with {} bytes", h, b.len(), eh, eb.len()))
		}
	};
	let (mut read, write) = handle.split();
	let mut recvd = Vec::new();
	for &k in &p.main {
		match soon!("recv_message", read.recv_message()) {
			Ok(ReceivedMessage::Stream(m)) => check("recv_message", k, Hdr::of(&m.header), m.body.bytes())?,
			Ok(ReceivedMessage::Request(r, b)) => {
				check("recv_message", k, Hdr { t: 0, id: r.request_id(), svc: r.service_id() }, b.bytes())?;
				recvd.push(r);
			},
			Err(e) => return Err(format!("recv_message reports {e:?} instead of message {k} of {all}")),
		}
		if c.eager {
			tokio::task::yield_now().await;
		}
	}
	for (i, s) in sent.iter_mut().enumerate() {
		for &k in &p.sent[i] {
			let m = match p.wire[k].0.t {
				3 => soon!("recv_update", s.recv_update()).ok_or(format!("recv_update gives nothing instead of message {k} of {all}"))?,
				_ => soon!("recv_response", s.recv_response()).map_err(|e| format!("recv_response gives {e:?} instead of message {k} of {all}"))?,
			};
			check("sent request", k, Hdr::of(&m.header), m.body.bytes())?;
		}
	}
	for (i, s) in recvd.iter_mut().enumerate() {
		for &k in &p.recvd[i] {
			let m = soon!("recv_update", s.recv_update()).ok_or(format!("recv_update gives nothing instead of message {k} of {all}"))?;
			check("received request", k, Hdr::of(&m.header), m.body.bytes())?;
		}
	}
	// And now the end, every time.
	for _ in 0..2 {
		match soon!("recv_message", read.recv_message()) {
			Err(e) if e.is_connection_aborted() => (),
			x => return Err(format!("after the disconnect recv_message gives {:?}", x.map(|_| "a message"))),
		}
	}
	for (i, s) in sent.iter_mut().enumerate() {
		if soon!("recv_update", s.recv_update()).is_some() {
			return Err("an update out of nothing".into());
		}
		let r = soon!("recv_response", s.recv_response());
		let answered = p.sent[i].iter().any(|k| p.wire[*k].0.t == 1);
		if !matches!(&r, Err(e) if e.is_connection_aborted()) {
			return Err(format!("recv_response after the disconnect gives {:?} (response received before: {answered})", r.map(|_| "a response")));
		}
	}
	for s in recvd.iter_mut() {
		if soon!("recv_update", s.recv_update()).is_some() {
			return Err("an update out of nothing".into());
		}
	}
	drop(write);
	drop(soon!("the remote", remote));
	Ok(())
}

pub fn c25(ctx: &Arc<Ctx>) {
	let item = || {
		prop_oneof![
			4 => Just(Item::Stream),
			3 => Just(Item::Request),
			3 => (0u8..10).prop_map(Item::Up),
			3 => (0u8..10).prop_map(Item::Down),
			1 => (0u8..10).prop_map(Item::Response),
		]
	};
	let n = || prop_oneof![3 => 1u16..10, 2 => 1u16..120, 2 => 100u16..600];
	let size = || prop_oneof![4 => 0u16..40, 1 => 0u16..3000];
	let strat = move || {
		bx((any::<bool>(), any::<bool>(), 0u8..5, prop::collection::vec((item(), n(), size()), 1..7), any::<u8>(), any::<bool>(), any::<bool>())
			.prop_map(|(seqpacket, threads, requests, bulk, start, half, eager)| Late { seqpacket, threads, requests, bulk, start, half, eager }))
	};
	ctx.check("bulk before a disconnect", Opts { quick: 2400, thorough: 60_000, shards: 8, rule: "at least 100 messages of at least two kinds" }, strat, move |c, info| {
		thread_local!(static RTS: (tokio::runtime::Runtime, tokio::runtime::Runtime) = (rt(), tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap()));
		let p = plan(c, &vec![0; c.requests as usize]);
		let kinds: std::collections::HashSet<u8> = p.wire.iter().map(|x| x.0.t).collect();
		info.nontrivial = p.wire.len() >= 100 && kinds.len() >= 2;
		info.label(if c.seqpacket { "seqpacket" } else { "stream" });
		RTS.with(|(one, many)| {
			let rt = if c.threads { many } else { one };
			rt.block_on(async {
				if c.seqpacket {
					let (a, b) = tokio_seqpacket::UnixSeqpacket::pair().unwrap();
					late::<UnixBody>(c, UnixSeqpacketPeer::spawn(UnixSeqpacketTransport::new(a, Default::default())), Wire::Seq(b), info).await
				} else {
					let (a, b) = tokio::net::UnixStream::pair().unwrap();
					late::<StreamBody>(c, UnixStreamPeer::spawn(UnixStreamTransport::new(a, Default::default())), Wire::Stream(b), info).await
				}
			})
		})
	});
}
