//! C28: what is finished leaves nothing behind.
//!
//! A generated cycle of complete conversations (or of complete connections) is repeated, and the memory held by the thread
//! must not depend on how often.
use crate::fw::*;
use crate::limits::{kind, AsBytes, Kind};
use crate::util::*;
use fizyr_rpc::transport::{StreamTransport, Transport, UnixTransport};
use fizyr_rpc::{Body, Peer, PeerHandle, PeerReadHandle, PeerWriteHandle, ReceivedMessage, ReceivedRequestHandle};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::sync::Arc;
use std::time::Duration;

const MAX: u32 = 300;

/// Cycles before the first measurement. Two more are made, each after four times as many.
const FIRST: u64 = 24;

pub struct Inconclusive(pub String);
pub type Outcome<T> = Result<T, Inconclusive>;

pub fn other<E: std::fmt::Debug>(what: &'static str) -> impl FnOnce(E) -> Inconclusive {
	move |e| Inconclusive(format!("{what}: {e:?}"))
}

/// Repeat the cycle and say by how much `measure` grew, if it did.
pub async fn growth(mut cycle: impl AsyncFnMut(u64) -> Outcome<()>, measure: impl Fn() -> i64, slack: i64) -> Outcome<Option<String>> {
	let mut at = Vec::new();
	let mut n = 0u64;
	for stop in [FIRST, FIRST * 4, FIRST * 16] {
		// Memory is taken and returned in blocks: only the smallest of several measurements tells something.
		let mut least = i64::MAX;
		while n < stop {
			cycle(n).await?;
			n += 1;
			if n + 10 > stop {
				for _ in 0..4 {
					tokio::task::yield_now().await;
				}
				least = least.min(measure());
			}
		}
		at.push(least);
	}
	let grew = at[1] - at[0] > 0 && at[2] - at[1] > slack;
	Ok(grew.then(|| format!("{} after {} repetitions, {} after {}, {} after {}", at[0], FIRST, at[1], FIRST * 4, at[2], FIRST * 16)))
}

/// Judge a case: errors of other kinds are for other properties.
pub fn verdict(r: Result<Outcome<Option<String>>, &'static str>, what: &str, info: &mut Info) -> CaseResult {
	match &r {
		Ok(Ok(None)) => Ok(()),
		Ok(Ok(Some(e))) => Err(format!("{what} grows with the number of finished conversations: {e}")),
		Ok(Err(_)) | Err(_) => {
			if std::env::var_os("VERIF_DEBUG").is_some() {
				eprintln!("inconclusive: {}", if let Ok(Err(e)) = &r { &e.0 } else { "timeout" });
			}
			info.nontrivial = false;
			info.label("inconclusive");
			Ok(())
		},
	}
}

fn on(f: impl Future<Output = CaseResult>) -> CaseResult {
	let rt = rt();
	let set = tokio::task::LocalSet::new();
	set.block_on(&rt, f)
}

fn transports(k: Kind) -> std::io::Result<Pairs> {
	let stream = || crate::stream::config(MAX, MAX, En::Little);
	Ok(match k {
		Kind::Unix => {
			let (a, b) = tokio::net::UnixStream::pair()?;
			Pairs::Unix(StreamTransport::new(a, stream()), StreamTransport::new(b, stream()))
		},
		Kind::Tcp => {
			let l = std::net::TcpListener::bind("127.0.0.1:0")?;
			let a = std::net::TcpStream::connect(l.local_addr()?)?;
			let (b, _) = l.accept()?;
			let conv = |s: std::net::TcpStream| {
				use std::os::fd::AsRawFd;
				s.set_nonblocking(true)?;
				s.set_nodelay(true)?;
				// No TIME_WAIT: there are many of these.
				let linger = libc::linger { l_onoff: 1, l_linger: 0 };
				unsafe { libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &linger as *const _ as *const _, std::mem::size_of_val(&linger) as _) };
				tokio::net::TcpStream::from_std(s)
			};
			Pairs::Tcp(StreamTransport::new(conv(a)?, stream()), StreamTransport::new(conv(b)?, stream()))
		},
		Kind::Seqpacket => {
			let (a, b) = tokio_seqpacket::UnixSeqpacket::pair()?;
			let c = crate::seq::config(MAX, MAX, 2, 2, En::Little);
			Pairs::Seq(UnixTransport::new(a, c.clone()), UnixTransport::new(b, c))
		},
	})
}

enum Pairs {
	Unix(StreamTransport<tokio::net::UnixStream>, StreamTransport<tokio::net::UnixStream>),
	Tcp(StreamTransport<tokio::net::TcpStream>, StreamTransport<tokio::net::TcpStream>),
	Seq(UnixTransport<tokio_seqpacket::UnixSeqpacket>, UnixTransport<tokio_seqpacket::UnixSeqpacket>),
}

// ---------------------------------------------------------------- conversations between two peers

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Finish {
	Respond,
	Error,
	/// A response over the limit first.
	TooLarge,
	/// By a write handle, when the request handle is gone already.
	ByClone,
	/// An update over the limit first, and another attempt after the response.
	Failures,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Keep {
	All,
	/// The handle of the sent request is dropped before anything comes back.
	DropFirst,
	/// Before the response.
	DropBeforeResponse,
	/// Nothing is read.
	Unread,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Act {
	Stream { side: bool, len: u16 },
	/// Over the limit.
	Refused { side: bool, request: bool },
	Talk { side: bool, up: u8, down: u8, len: u16, finish: Finish, keep: Keep, read_up: bool, clones: u8 },
	/// A send that is given up after some polls.
	CancelSend { side: bool, request: bool, polls: u8 },
	CancelRecv { side: bool },
	/// More write handles for the peer, dropped again.
	Clones { side: bool, n: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Conn {
	kind: Kind,
	/// Requests that stay open meanwhile.
	stay: [u8; 2],
	acts: Vec<Act>,
}

fn act() -> impl Strategy<Value = Act> {
	let finish = prop_oneof![Just(Finish::Respond), Just(Finish::Error), Just(Finish::TooLarge), Just(Finish::ByClone), Just(Finish::Failures)];
	let keep = prop_oneof![3 => Just(Keep::All), 1 => Just(Keep::DropFirst), 1 => Just(Keep::DropBeforeResponse), 1 => Just(Keep::Unread)];
	prop_oneof![
		2 => (any::<bool>(), 0u16..=MAX as u16).prop_map(|(side, len)| Act::Stream { side, len }),
		1 => any::<(bool, bool)>().prop_map(|(side, request)| Act::Refused { side, request }),
		6 => (any::<bool>(), 0u8..4, 0u8..4, 0u16..=MAX as u16, finish, keep, any::<bool>(), 0u8..3)
			.prop_map(|(side, up, down, len, finish, keep, read_up, clones)| Act::Talk { side, up, down, len, finish, keep, read_up, clones }),
		2 => (any::<bool>(), any::<bool>(), 0u8..3).prop_map(|(side, request, polls)| Act::CancelSend { side, request, polls }),
		1 => any::<bool>().prop_map(|side| Act::CancelRecv { side }),
		1 => (any::<bool>(), 1u8..4).prop_map(|(side, n)| Act::Clones { side, n }),
	]
}

const BARRIER: i32 = 77;
const ASKED: i32 = 5;
const GIVEN_UP: i32 = 9;

struct Ends<B> {
	r: PeerReadHandle<B>,
	w: PeerWriteHandle<B>,
}

fn ends<B>(h: PeerHandle<B>) -> Ends<B> {
	let (r, w) = h.split();
	Ends { r, w }
}

fn zeros<B: From<Vec<u8>>>(n: usize) -> B {
	B::from(vec![0u8; n])
}

/// Receive until the request that is wanted, or the barrier. Other requests are answered.
async fn receive<B: Body + From<Vec<u8>>>(h: &mut Ends<B>, want: i32) -> Outcome<Option<ReceivedRequestHandle<B>>> {
	loop {
		match h.r.recv_message().await {
			Err(e) if e.is_connection_aborted() => return Err(Inconclusive("the connection is gone".into())),
			Err(_) => (),
			Ok(ReceivedMessage::Stream(m)) => {
				if m.header.service_id == BARRIER && want == BARRIER {
					return Ok(None);
				}
			},
			Ok(ReceivedMessage::Request(r, _)) => {
				if r.service_id() == want {
					return Ok(Some(r));
				}
				r.send_response(0, zeros::<B>(0)).await.map_err(other("answer"))?;
			},
		}
	}
}

async fn run_act<B: Body + From<Vec<u8>> + 'static>(a: &Act, h: &mut [Ends<B>; 2]) -> Outcome<()> {
	match a {
		Act::Stream { side, len } => h[usize::from(*side)].w.send_stream(1, zeros::<B>(*len as usize)).await.map_err(other("stream")),
		Act::Refused { side, request } => {
			let h = &h[usize::from(*side)].w;
			let over = zeros::<B>(MAX as usize + 1);
			if *request {
				let _ = h.send_request(1, over).await;
			} else {
				let _ = h.send_stream(1, over).await;
			}
			Ok(())
		},
		Act::Talk { side, up, down, len, finish, keep, read_up, clones } => {
			let s = usize::from(*side);
			let body = || zeros::<B>(*len as usize);
			let mut sent = h[s].w.send_request(ASKED, body()).await.map_err(other("request"))?;
			let Some(mut got) = receive(&mut h[1 - s], ASKED).await? else { return Ok(()) };
			let extra: Vec<_> = (0..*clones).map(|_| (sent.write_handle(), got.write_handle())).collect();
			for k in 0..*up {
				match extra.get(k as usize) {
					Some((w, _)) => w.send_update(2, body()).await.map_err(other("update"))?,
					None => sent.send_update(2, body()).await.map_err(other("update"))?,
				}
				if *read_up {
					got.recv_update().await.ok_or(Inconclusive("lost update".into()))?;
				}
			}
			let mut sent = (*keep != Keep::DropFirst).then_some(sent);
			for k in 0..*down {
				match extra.get(k as usize) {
					Some((_, w)) => w.send_update(3, body()).await.map_err(other("update"))?,
					None => got.send_update(3, body()).await.map_err(other("update"))?,
				}
				if *keep == Keep::All {
					sent.as_mut().unwrap().recv_update().await.ok_or(Inconclusive("lost update".into()))?;
				}
			}
			if *keep == Keep::DropBeforeResponse {
				sent = None;
			}
			match finish {
				Finish::Respond => got.send_response(0, body()).await.map_err(other("response"))?,
				Finish::Error => got.send_error_response("no").await.map_err(other("response"))?,
				Finish::TooLarge => {
					let _ = got.send_response(0, zeros::<B>(MAX as usize + 1)).await;
					got.send_response(0, body()).await.map_err(other("response"))?;
				},
				Finish::ByClone => {
					let w = got.write_handle();
					drop(got);
					w.send_response(0, body()).await.map_err(other("response"))?;
				},
				Finish::Failures => {
					let _ = got.send_update(0, zeros::<B>(MAX as usize + 1)).await;
					got.send_response(0, body()).await.map_err(other("response"))?;
					let _ = got.send_update(0, body()).await;
					let _ = got.send_response(0, body()).await;
				},
			}
			if *keep == Keep::All {
				sent.unwrap().recv_response().await.map_err(other("response"))?;
			}
			Ok(())
		},
		Act::CancelSend { side, request, polls } => {
			let h = &h[usize::from(*side)].w;
			async fn part<F: Future>(f: F, polls: u8) {
				let mut f = Box::pin(f);
				for _ in 0..polls {
					if poll_once(&mut f).is_ready() {
						return;
					}
					tokio::task::yield_now().await;
				}
			}
			if *request {
				part(h.send_request(GIVEN_UP, zeros::<B>(3)), *polls).await;
			} else {
				part(h.send_stream(1, zeros::<B>(3)), *polls).await;
			}
			Ok(())
		},
		Act::CancelRecv { side } => {
			let mut done = None;
			{
				let f = h[usize::from(*side)].r.recv_message();
				let mut f = Box::pin(f);
				if let std::task::Poll::Ready(Ok(m)) = poll_once(&mut f) {
					done = Some(m);
				}
			}
			if let Some(ReceivedMessage::Request(r, _)) = done {
				r.send_response(0, zeros::<B>(0)).await.map_err(other("answer"))?;
			}
			Ok(())
		},
		Act::Clones { side, n } => {
			let all: Vec<PeerWriteHandle<B>> = (0..*n).map(|_| h[usize::from(*side)].w.clone()).collect();
			for w in &all {
				w.clone().send_stream(1, zeros::<B>(1)).await.map_err(other("stream"))?;
			}
			Ok(())
		},
	}
}

/// Afterwards everything that was sent before was received and answered.
async fn settle<B: Body + From<Vec<u8>>>(h: &mut [Ends<B>; 2]) -> Outcome<()> {
	for s in [0, 1, 0, 1] {
		h[s].w.send_stream(BARRIER, zeros::<B>(0)).await.map_err(other("barrier"))?;
		receive(&mut h[1 - s], BARRIER).await?;
	}
	Ok(())
}

const LIMIT: Duration = Duration::from_secs(8);

async fn connection<T>(c: &Conn, a: T, b: T, info: &mut Info) -> CaseResult
where
	T: Transport + 'static,
	T::Body: From<Vec<u8>> + AsBytes,
{
	let (pa, ha) = Peer::new(a);
	let (pb, hb) = Peer::new(b);
	let runs = [tokio::task::spawn_local(pa.run()), tokio::task::spawn_local(pb.run())];
	let mut h = [ends(ha), ends(hb)];
	let r = tokio::time::timeout(LIMIT, async {
		let mut stay = Vec::new();
		for s in 0..2 {
			for _ in 0..c.stay[s] {
				let sent = h[s].w.send_request(ASKED, zeros::<T::Body>(3)).await.map_err(other("request"))?;
				stay.push((sent, receive(&mut h[1 - s], ASKED).await?));
			}
		}
		let cycle = async |_| {
			for a in &c.acts {
				run_act(a, &mut h).await?;
			}
			settle(&mut h).await
		};
		growth(cycle, live, 64).await
	})
	.await
	.map_err(|_| "timeout");
	runs.iter().for_each(|r| r.abort());
	verdict(r, "the memory of a connection", info)
}

fn run_conn(c: &Conn, info: &mut Info) -> CaseResult {
	let talks = c.acts.iter().filter(|a| matches!(a, Act::Talk { .. })).count();
	info.nontrivial = talks > 0;
	info.label_if(c.stay != [0, 0], "requests that stay open");
	info.label_if(c.acts.iter().any(|a| matches!(a, Act::Talk { keep, .. } if *keep != Keep::All)), "messages left unread");
	info.label_if(c.acts.iter().any(|a| matches!(a, Act::CancelSend { .. })), "cancelled sends");
	info.label_if(c.acts.iter().any(|a| matches!(a, Act::Refused { .. })), "refused messages");
	info.count("conversations", talks as u64 * FIRST * 16);
	on(async {
		match transports(c.kind).unwrap() {
			Pairs::Unix(a, b) => connection(c, a, b, info).await,
			Pairs::Tcp(a, b) => connection(c, a, b, info).await,
			Pairs::Seq(a, b) => connection(c, a, b, info).await,
		}
	})
}

// ---------------------------------------------------------------- one peer and a remote that keeps no rules

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Odd {
	/// Updates and responses for requests that do not exist.
	Unknown { t: u8, n: u8 },
	/// Requests, which are answered (or refused), with updates before and after.
	Ask { n: u8, up: u8, again: u8, late: u8, same: bool },
	/// The peer sends a request, the remote answers more than once.
	Answer { n: u8, down: u8, extra: u8, dropped: bool },
	Stream { n: u8 },
	/// Seqpacket only: datagrams over the limit.
	Large { n: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Remote {
	seq: bool,
	/// The read handle is gone.
	deaf: bool,
	/// A request of the remote that is never answered (if there is a read handle), and one of the peer.
	stay: [bool; 2],
	acts: Vec<Odd>,
}

fn remote() -> BoxedStrategy<Remote> {
	let odd = prop_oneof![
		1 => (1u8..4, 1u8..4).prop_map(|(t, n)| Odd::Unknown { t, n }),
		3 => (1u8..4, 0u8..3, 0u8..3, 0u8..3, any::<bool>()).prop_map(|(n, up, again, late, same)| Odd::Ask { n, up, again, late, same }),
		3 => (1u8..4, 0u8..3, 0u8..3, any::<bool>()).prop_map(|(n, down, extra, dropped)| Odd::Answer { n, down, extra, dropped }),
		1 => (1u8..4).prop_map(|n| Odd::Stream { n }),
		1 => (1u8..4).prop_map(|n| Odd::Large { n }),
	];
	bx((any::<bool>(), any::<bool>(), any::<[bool; 2]>(), prop::collection::vec(odd, 1..6)).prop_map(|(seq, deaf, stay, acts)| Remote { seq, deaf, stay, acts }))
}

enum Raw {
	Stream(tokio::net::UnixStream),
	Seq(tokio_seqpacket::UnixSeqpacket),
}

impl Raw {
	async fn send(&mut self, t: u8, id: u32, svc: i32, len: usize) -> Outcome<()> {
		use tokio::io::AsyncWriteExt;
		let f = frame(&Hdr { t, id, svc }, &vec![1u8; len], En::Little);
		match self {
			Raw::Stream(s) => s.write_all(&f).await.map_err(other("raw write")),
			Raw::Seq(s) => s.send(&f[4..]).await.map(drop).map_err(other("raw write")),
		}
	}
	async fn recv(&mut self) -> Outcome<Hdr> {
		use tokio::io::AsyncReadExt;
		let mut buf = [0u8; 16 + MAX as usize];
		match self {
			Raw::Stream(s) => {
				s.read_exact(&mut buf[..4]).await.map_err(other("raw read"))?;
				let n = En::Little.read_u32(&buf[..4]) as usize;
				if n < 12 || n > buf.len() - 4 {
					return Err(Inconclusive("bad frame".into()));
				}
				s.read_exact(&mut buf[4..4 + n]).await.map_err(other("raw read"))?;
			},
			Raw::Seq(s) => {
				let n = s.recv(&mut buf[4..]).await.map_err(other("raw read"))?;
				if n < 12 {
					return Err(Inconclusive("bad datagram".into()));
				}
			},
		}
		Ok(Hdr { t: En::Little.read_u32(&buf[4..8]) as u8, id: En::Little.read_u32(&buf[8..12]), svc: En::Little.read_u32(&buf[12..16]) as i32 })
	}
	/// Read until a message of this type and ID.
	async fn until(&mut self, t: u8, id: Option<u32>, svc: Option<i32>) -> Outcome<u32> {
		loop {
			let h = self.recv().await?;
			if h.t == t && id.is_none_or(|i| i == h.id) && svc.is_none_or(|s| s == h.svc) {
				return Ok(h.id);
			}
		}
	}
}

async fn odd_cycle<B: Body + From<Vec<u8>>>(c: &Remote, k: u64, raw: &mut Raw, hear: &mut Option<PeerReadHandle<B>>, say: &PeerWriteHandle<B>) -> Outcome<()> {
	let mut next = k as u32 * 64;
	for a in &c.acts {
		match a {
			Odd::Unknown { t, n } => {
				for _ in 0..*n {
					next += 1;
					raw.send(*t, next.wrapping_add(1 << 31), 3, 5).await?;
				}
			},
			Odd::Ask { n, up, again, late, same } => {
				for i in 0..*n {
					let id = if *same { i as u32 } else { next + 1 };
					next += 1;
					raw.send(0, id, ASKED, 5).await?;
					let Some(hear) = hear else {
						raw.until(1, Some(id), None).await?;
						continue;
					};
					let r = loop {
						match hear.recv_message().await {
							Ok(ReceivedMessage::Request(r, _)) if r.request_id() == id => break r,
							// A repetition that came after the response is a new request.
							Ok(ReceivedMessage::Request(r, _)) => r.send_response(0, zeros::<B>(2)).await.map_err(other("response"))?,
							Ok(_) => (),
							Err(e) if e.is_connection_aborted() => return Err(Inconclusive("gone".into())),
							Err(_) => (),
						}
					};
					for _ in 0..*up {
						raw.send(2, id, 3, 5).await?;
					}
					for _ in 0..*again {
						raw.send(0, id, ASKED, 5).await?;
					}
					// Otherwise the updates may come after the response.
					if i % 2 == 0 {
						tokio::task::yield_now().await;
					}
					r.send_response(0, zeros::<B>(2)).await.map_err(other("response"))?;
					drop(r);
					raw.until(1, Some(id), None).await?;
					for _ in 0..*late {
						raw.send(2, id, 3, 5).await?;
					}
				}
			},
			Odd::Answer { n, down, extra, dropped } => {
				for _ in 0..*n {
					let mut r = Some(say.send_request(ASKED, zeros::<B>(4)).await.map_err(other("request"))?);
					let id = raw.until(0, None, Some(ASKED)).await?;
					if *dropped {
						r = None;
					}
					for _ in 0..*down {
						raw.send(3, id, 3, 5).await?;
					}
					raw.send(1, id, 3, 5).await?;
					for _ in 0..*extra {
						raw.send(1, id, 3, 5).await?;
						raw.send(3, id, 3, 5).await?;
					}
					if let Some(mut r) = r {
						while r.recv_update().await.is_some() {}
						r.recv_response().await.map_err(other("response"))?;
					}
				}
			},
			Odd::Stream { n } => {
				for _ in 0..*n {
					raw.send(4, 0, 3, 9).await?;
				}
			},
			Odd::Large { n } => {
				if c.seq {
					for _ in 0..*n {
						raw.send(4, 0, 3, MAX as usize + 5).await?;
					}
				}
			},
		}
		// The socket's buffer is small: don't fill it.
		odd_settle(raw, hear, say).await?;
	}
	Ok(())
}

async fn odd_settle<B: Body + From<Vec<u8>>>(raw: &mut Raw, hear: &mut Option<PeerReadHandle<B>>, say: &PeerWriteHandle<B>) -> Outcome<()> {
	if let Some(hear) = hear {
		raw.send(4, 0, BARRIER, 0).await?;
		loop {
			match hear.recv_message().await {
				Ok(ReceivedMessage::Stream(m)) if m.header.service_id == BARRIER => break,
				Ok(ReceivedMessage::Request(r, _)) => r.send_response(0, zeros::<B>(2)).await.map_err(other("response"))?,
				Ok(_) => (),
				Err(e) if e.is_connection_aborted() => return Err(Inconclusive("gone".into())),
				Err(_) => (),
			}
		}
	} else {
		raw.send(0, u32::MAX, BARRIER, 0).await?;
		raw.until(1, Some(u32::MAX), None).await?;
	}
	say.send_stream(BARRIER, zeros::<B>(0)).await.map_err(other("barrier"))?;
	raw.until(4, None, Some(BARRIER)).await.map(drop)
}

async fn against<T>(c: &Remote, t: T, mut raw: Raw, info: &mut Info) -> CaseResult
where
	T: Transport + 'static,
	T::Body: From<Vec<u8>>,
{
	let (peer, handle) = Peer::new(t);
	let run = tokio::task::spawn_local(peer.run());
	let (hear, say) = handle.split();
	let mut hear = (!c.deaf).then_some(hear);
	let r = tokio::time::timeout(LIMIT, async {
		let mut stay = (None, None);
		if let Some(hear) = hear.as_mut().filter(|_| c.stay[0]) {
			raw.send(0, u32::MAX - 5, ASKED, 3).await?;
			stay.0 = Some(hear.recv_message().await.map_err(other("request"))?);
		}
		if c.stay[1] {
			stay.1 = Some(say.send_request(1, zeros::<T::Body>(3)).await.map_err(other("request"))?);
			raw.until(0, None, Some(1)).await?;
		}
		growth(async |k| odd_cycle(c, k, &mut raw, &mut hear, &say).await, live, 64).await
	})
	.await
	.map_err(|_| "timeout");
	run.abort();
	verdict(r, "the memory of a connection to a scripted remote", info)
}

fn run_remote(c: &Remote, info: &mut Info) -> CaseResult {
	info.nontrivial = c.acts.iter().any(|a| !matches!(a, Odd::Stream { .. }));
	info.label_if(c.deaf, "requests are refused");
	on(async {
		if c.seq {
			let (a, b) = tokio_seqpacket::UnixSeqpacket::pair().unwrap();
			against(c, UnixTransport::new(a, crate::seq::config(MAX, MAX, 2, 2, En::Little)), Raw::Seq(b), info).await
		} else {
			let (a, b) = tokio::net::UnixStream::pair().unwrap();
			against(c, StreamTransport::new(a, crate::stream::config(MAX, MAX, En::Little)), Raw::Stream(b), info).await
		}
	})
}

// ---------------------------------------------------------------- connections

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Stop {
	DropHandles,
	Close,
	/// The task of the peer is aborted.
	Abort,
	/// The peer is dropped without ever running.
	NeverRun,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Life {
	kind: Kind,
	acts: Vec<Act>,
	/// Things that are left open at the end: requests in both directions, updates that nobody reads, pending sends and receives.
	open: [u8; 2],
	answered: bool,
	updates: u8,
	pending: bool,
	unread: u8,
	/// The request handles outlive the peer.
	outlive: bool,
	stop: [Stop; 2],
}

fn life() -> BoxedStrategy<Life> {
	let stop = || prop_oneof![3 => Just(Stop::DropHandles), 2 => Just(Stop::Close), 1 => Just(Stop::Abort), 1 => Just(Stop::NeverRun)];
	let kind = prop_oneof![4 => Just(Kind::Unix), 4 => Just(Kind::Seqpacket), 1 => Just(Kind::Tcp)];
	bx((kind, prop::collection::vec(act(), 0..3), [0u8..3, 0u8..3], any::<bool>(), 0u8..3, any::<bool>(), 0u8..3, any::<bool>(), [stop(), stop()])
		.prop_map(|(kind, acts, open, answered, updates, pending, unread, outlive, stop)| Life { kind, acts, open, answered, updates, pending, unread, outlive, stop }))
}

async fn live_and_die<T>(c: &Life, a: T, b: T) -> Outcome<()>
where
	T: Transport + 'static,
	T::Body: From<Vec<u8>> + AsBytes,
{
	let (pa, ha) = Peer::new(a);
	let (pb, hb) = Peer::new(b);
	let never = c.stop.iter().any(|s| matches!(s, Stop::NeverRun));
	let mut h = [ends(ha), ends(hb)];
	let mut sent = Vec::new();
	let mut got = Vec::new();
	let mut waiting: Vec<std::pin::Pin<Box<dyn Future<Output = ()>>>> = Vec::new();
	let mut idle = None;
	let mut runs = Vec::new();
	if never {
		idle = Some((pa, pb));
	} else {
		runs = vec![tokio::task::spawn_local(pa.run()), tokio::task::spawn_local(pb.run())];
		for a in &c.acts {
			run_act(a, &mut h).await?;
		}
		settle(&mut h).await?;
		for s in 0..2 {
			for _ in 0..c.open[s] {
				let r = h[s].w.send_request(ASKED, zeros::<T::Body>(7)).await.map_err(other("request"))?;
				if let Some(g) = receive(&mut h[1 - s], ASKED).await? {
					for _ in 0..c.updates {
						r.send_update(1, zeros::<T::Body>(7)).await.map_err(other("update"))?;
						g.send_update(1, zeros::<T::Body>(7)).await.map_err(other("update"))?;
					}
					if c.answered {
						g.send_response(1, zeros::<T::Body>(7)).await.map_err(other("response"))?;
					}
					got.push(g);
				}
				sent.push(r);
			}
			for _ in 0..c.unread {
				let r = h[s].w.send_request(ASKED, zeros::<T::Body>(7)).await.map_err(other("request"))?;
				h[s].w.send_stream(1, zeros::<T::Body>(7)).await.map_err(other("stream"))?;
				sent.push(r);
			}
		}
	}
	if c.pending {
		for h in &h {
			let w = h.w.clone();
			waiting.push(Box::pin(async move { drop(w.send_request(1, zeros::<T::Body>(2)).await) }));
			let w = h.w.clone();
			waiting.push(Box::pin(async move { drop(w.send_stream(1, zeros::<T::Body>(2)).await) }));
		}
		for w in &mut waiting {
			let _ = poll_once(w);
		}
	}
	drop(idle);
	let kept = c.outlive.then_some((sent, got));
	for (k, (s, h)) in c.stop.iter().zip(h).enumerate() {
		match s {
			Stop::DropHandles => drop(h),
			Stop::Close => {
				h.r.close_handle().close();
				drop(h);
			},
			Stop::Abort => {
				if let Some(r) = runs.get(k) {
					r.abort();
				}
			},
			Stop::NeverRun => (),
		}
		if k == 0 {
			tokio::task::yield_now().await;
		}
	}
	drop(waiting);
	for r in runs {
		let _ = r.await;
	}
	drop(kept);
	Ok(())
}

fn run_life(c: &Life, info: &mut Info) -> CaseResult {
	info.nontrivial = c.open.iter().any(|n| *n > 0) || c.pending || c.unread > 0;
	info.label_if(c.outlive, "request handles outlive the peers");
	info.count("connections", FIRST * 16);
	on(async {
		let r = tokio::time::timeout(
			LIMIT,
			growth(
				async |_| match transports(c.kind).map_err(other("sockets"))? {
					Pairs::Unix(a, b) => live_and_die(c, a, b).await,
					Pairs::Tcp(a, b) => live_and_die(c, a, b).await,
					Pairs::Seq(a, b) => live_and_die(c, a, b).await,
				},
				live,
				64,
			),
		)
		.await
		.map_err(|_| "timeout");
		verdict(r, "the memory of ended connections", info)
	})
}

pub fn c28(ctx: &Arc<Ctx>) {
	ctx.assume("Requests that were received and dropped without an answer, and sent requests that were never answered, count as open.");
	ctx.assume("Memory is what the thread allocated and did not free; the harness, the peers and the runtime share that thread.");
	ctx.check(
		"connection",
		Opts { quick: 1_200, thorough: 18_000, shards: 8, rule: "the cycle has a complete conversation" },
		|| bx((kind(), [0u8..2, 0u8..2], prop::collection::vec(act(), 1..6)).prop_map(|(kind, stay, acts)| Conn { kind, stay, acts })),
		run_conn,
	);
	ctx.check("odd remote", Opts { quick: 1_200, thorough: 18_000, shards: 8, rule: "the cycle has a request or a protocol violation" }, remote, run_remote);
	ctx.check("ended connections", Opts { quick: 1_200, thorough: 18_000, shards: 8, rule: "something is still open or pending when the connection ends" }, life, run_life);
	crate::listen::turnover(ctx);
}
