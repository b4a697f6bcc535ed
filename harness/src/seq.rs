//! C06, C07, C08: the Unix seqpacket transport.
use crate::fds::*;
use crate::fw::*;
use crate::util::*;
use filedesc::FileDesc;
use fizyr_rpc::transport::{Transport, TransportReadHalf, TransportWriteHalf, UnixTransport};
use fizyr_rpc::{Message, Peer, PeerHandle, ReceivedMessage, ReceivedRequestHandle, SentRequestHandle, UnixBody, UnixConfig};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use std::time::Duration;
use tokio_seqpacket::UnixSeqpacket;

pub fn config(read: u32, write: u32, fds_read: u32, fds_write: u32, e: En) -> UnixConfig {
	let mut c = UnixConfig::default();
	c.max_body_len_read = read;
	c.max_body_len_write = write;
	c.max_fds_read = fds_read;
	c.max_fds_write = fds_write;
	c.endian = e.get();
	c
}

const LIMIT: Duration = Duration::from_secs(30);

async fn within<F: std::future::Future>(what: &str, f: F) -> Result<F::Output, String> {
	timeout(LIMIT, f).await.map_err(|_| format!("{} never completes", what))
}

fn datagram(h: &Hdr, body: &[u8], e: En) -> Vec<u8> {
	let mut out = h.bytes(e).to_vec();
	out.extend_from_slice(body);
	out
}

/// A pool of open files: memfds, and second descriptions of some of them.
struct Pool(Vec<FileDesc>);

impl Pool {
	fn new() -> Self {
		let mut v: Vec<FileDesc> = (0..5).map(|_| memfd()).collect();
		// Same inode, but another open file description.
		use std::os::fd::IntoRawFd;
		let f = std::fs::OpenOptions::new().read(true).write(true).open(format!("/proc/self/fd/{}", v[0].as_raw_fd())).expect("reopen memfd");
		v.push(unsafe { FileDesc::from_raw_fd(f.into_raw_fd()) });
		Self(v)
	}
	fn dup(&self, which: &[u8]) -> Vec<FileDesc> {
		which.iter().map(|k| self.0[*k as usize % self.0.len()].duplicate().expect("dup")).collect()
	}
	fn fd(&self, k: u8) -> i32 {
		self.0[k as usize % self.0.len()].as_raw_fd()
	}
	fn check_received(&self, which: &[u8], got: &[FileDesc], what: &str) -> CaseResult {
		ensure!(got.len() == which.len(), "{}: {} file descriptors instead of {}", what, got.len(), which.len());
		for (k, (w, g)) in which.iter().zip(got).enumerate() {
			ensure!(same_open_file(self.fd(*w), g.as_raw_fd(), k as i64), "{}: descriptor {} refers to another open file", what, k);
			ensure!(cloexec(g.as_raw_fd()), "{}: descriptor {} is not close-on-exec", what, k);
		}
		Ok(())
	}
	fn check_usable(&self, what: &str) -> CaseResult {
		for f in &self.0 {
			ensure!(identity(f.as_raw_fd()).is_some(), "{}: a descriptor of the sender was closed", what);
		}
		Ok(())
	}
}

// ---------------------------------------------------------------------------------------------- C06

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Seq {
	e: En,
	max_fds: u32,
	sndbuf: u32,
	msgs: Vec<(Hdr, Bd, Vec<u8>)>,
	/// How many messages the reader waits before it starts to read.
	lag: u16,
}

fn seq() -> BoxedStrategy<Seq> {
	let max_fds = prop_oneof![Just(10u32), 0u32..6, Just(253u32), Just(64u32)];
	bx((max_fds, prop::bool::weighted(0.03)).prop_flat_map(|(max_fds, long)| {
		let most = if long { max_fds.min(8) } else { max_fds };
		let n = prop_oneof![3 => Just(0usize), 4 => 0usize..=4, 1 => 0usize..=64, 1 => Just(253usize)].prop_map(move |n| n.min(most as usize));
		let fds = n.prop_flat_map(|n| prop::collection::vec(0u8..6, n));
		let large = if long { 0u32..300 } else { 4097u32..60_000 };
		let body = (prop_oneof![20 => Just(0u32), 40 => 0u32..60, 10 => 0u32..4097, 1 => large], any::<u32>()).prop_map(|(len, seed)| Bd { len, seed });
		let (n, lag) = if long { (20..400, 0u16..300) } else { (1..16, 0u16..12) };
		(endian(), Just(max_fds), prop_oneof![Just(0u32), Just(200_000u32)], prop::collection::vec((hdr(), body, fds), n), lag)
	})
	.prop_map(|(e, max_fds, sndbuf, msgs, lag)| Seq { e, max_fds, sndbuf, msgs, lag }))
}

/// Run a case that uses `n` descriptors in messages.
fn with_room(n: usize, info: &mut Info, f: impl FnOnce(&mut Info) -> CaseResult) -> CaseResult {
	let Some(_room) = Room::take(n) else {
		info.label("skipped: more descriptors than the system allows");
		return Ok(());
	};
	let result = f(info);
	if refused_by_system(&result) {
		info.nontrivial = false;
		info.label("skipped: the system refused more descriptors in flight");
		return Ok(());
	}
	result
}

fn run_seq(c: &Seq, info: &mut Info) -> CaseResult {
	// No more than this many datagrams wait in a socket.
	let most = c.msgs.iter().map(|m| m.2.len()).max().unwrap_or(0);
	let n = c.msgs.iter().map(|m| m.2.len()).sum::<usize>().min(most * 14);
	with_room(n, info, |info| seq_case(c, info))
}

fn seq_case(c: &Seq, info: &mut Info) -> CaseResult {
	let pool = Pool::new();
	info.nontrivial = c.msgs.iter().any(|m| !m.2.is_empty());
	info.label_if(c.msgs.iter().any(|m| m.2.len() > 10), "more than 10 descriptors");
	info.label_if(c.msgs.iter().any(|m| m.1.len == 0), "empty body");
	info.label_if(c.msgs.iter().any(|m| m.1.len > 4096), "large body");
	info.label_if(c.msgs.len() >= 100, "at least 100 messages");
	info.count("messages", c.msgs.len() as u64);
	info.count("descriptors", c.msgs.iter().map(|m| m.2.len() as u64).sum());
	rt_paused().block_on(async {
		let (a, b) = UnixSeqpacket::pair().unwrap();
		let large = c.msgs.iter().any(|m| m.1.len > 4096);
		if c.sndbuf > 0 && !large {
			crate::stream::set_buf(a.as_raw_fd(), libc::SO_SNDBUF, 10_000);
		}
		let limit = if large { 60_000 } else { 4096 };
		let conf = config(limit, limit, c.max_fds, c.max_fds, c.e);
		let (mut a, mut b) = (UnixTransport::new(a, conf.clone()), UnixTransport::new(b, conf));
		let (_ra, mut wa) = a.split();
		let (mut rb, _wb) = b.split();
		let sent = std::cell::Cell::new(0usize);
		let stuck = std::cell::Cell::new(false);
		let writer = async {
			for (k, (h, b, fds)) in c.msgs.iter().enumerate() {
				let body = UnixBody::new(b.bytes(), pool.dup(fds));
				wa.write_msg(&h.get(), &body).await.map_err(|e| format!("write of message {} failed: {}", k, e))?;
				// The descriptors of the message are still owned by the sender.
				for f in &body.fds {
					ensure!(identity(f.as_raw_fd()).is_some(), "message {}: sending closed a descriptor of the sender", k);
				}
				sent.set(k + 1);
			}
			Ok(())
		};
		let reader = async {
			while sent.get() < (c.lag as usize).min(c.msgs.len()) && !stuck.get() {
				if timeout(Duration::from_millis(10), std::future::pending::<()>()).await.is_err() {
					stuck.set(true);
				}
			}
			for (k, (h, b, fds)) in c.msgs.iter().enumerate() {
				let m = rb.read_msg().await.map_err(|e| format!("read of message {} failed: {}", k, e))?;
				ensure!(Hdr::of(&m.header) == *h, "message {}: header {:?}, expected {:?}", k, m.header, h);
				ensure!(m.body.data == b.bytes(), "message {}: body differs: {}", k, diff(&m.body.data, &b.bytes()));
				pool.check_received(fds, &m.body.fds, &format!("message {}", k))?;
			}
			Ok::<(), String>(())
		};
		let (x, y): (CaseResult, CaseResult) = within("exchange", async { tokio::join!(writer, reader) }).await?;
		y?;
		x?;
		pool.check_usable("after the exchange")?;
		// Nothing else arrives.
		drop(wa);
		drop(_ra);
		drop(a);
		match within("last read", rb.read_msg()).await? {
			Ok(m) => Err(format!("extra message {:?}", m.header)),
			Err(e) => {
				ensure!(e.is_fatal() && e.inner().is_connection_aborted(), "end of the connection reported as {}", e);
				Ok(())
			},
		}
	})
}

/// Through peers: every kind of message carries descriptors.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SeqPeer {
	/// Kind (0 stream, 1 request, 2 requester update, 3 responder update, 4 response), direction, body, descriptors.
	ops: Vec<(u8, bool, Bd, Vec<u8>)>,
}

fn seq_peer() -> BoxedStrategy<SeqPeer> {
	let body = (prop_oneof![1 => Just(0u32), 3 => 0u32..60, 1 => 0u32..4097], any::<u32>()).prop_map(|(len, seed)| Bd { len, seed });
	bx(prop::collection::vec((0u8..5, any::<bool>(), body, prop::collection::vec(0u8..6, 0..=10)), 1..12).prop_map(|ops| SeqPeer { ops }))
}

struct Side {
	handle: PeerHandle<UnixBody>,
}

fn run_seq_peer(c: &SeqPeer, info: &mut Info) -> CaseResult {
	with_room(c.ops.iter().map(|m| m.3.len()).sum(), info, |info| seq_peer_case(c, info))
}

fn seq_peer_case(c: &SeqPeer, info: &mut Info) -> CaseResult {
	let pool = Pool::new();
	info.nontrivial = c.ops.iter().any(|m| !m.3.is_empty());
	rt_paused().block_on(tokio::task::LocalSet::new().run_until(async {
		let (a, b) = UnixSeqpacket::pair().unwrap();
		let (pa, ha) = Peer::new(UnixTransport::new_default(a));
		let (pb, hb) = Peer::new(UnixTransport::new_default(b));
		tokio::task::spawn_local(pa.run());
		tokio::task::spawn_local(pb.run());
		let mut sides = [Side { handle: ha }, Side { handle: hb }];
		// Open requests in both directions: (sent by side 0) and (sent by side 1).
		let mut open: [Option<(SentRequestHandle<UnixBody>, ReceivedRequestHandle<UnixBody>)>; 2] = [None, None];
		for (k, (kind, dir, bd, fds)) in c.ops.iter().enumerate() {
			let from = usize::from(*dir);
			let what = format!("operation {} (kind {})", k, kind);
			let body = UnixBody::new(bd.bytes(), pool.dup(fds));
			let svc = k as i32 * 3 - 5;
			// The request this operation belongs to is sent by `req`.
			let req = match kind {
				0 | 1 | 2 => from,
				_ => 1 - from,
			};
			if *kind > 1 && open[req].is_none() {
				let s = within(&what, sides[req].handle.send_request(1, vec![])).await?.map_err(|e| e.to_string())?;
				match within(&what, sides[1 - req].handle.recv_message()).await?.map_err(|e| e.to_string())? {
					ReceivedMessage::Request(r, _) => open[req] = Some((s, r)),
					m => return Err(format!("{}: got {:?}", what, m)),
				}
			}
			let got: Message<UnixBody> = match kind {
				0 => {
					within(&what, sides[from].handle.send_stream(svc, body)).await?.map_err(|e| format!("{}: {}", what, e))?;
					match within(&what, sides[1 - from].handle.recv_message()).await?.map_err(|e| format!("{}: {}", what, e))? {
						ReceivedMessage::Stream(m) => m,
						m => return Err(format!("{}: got {:?}", what, m)),
					}
				},
				1 => {
					let s = within(&what, sides[from].handle.send_request(svc, body)).await?.map_err(|e| format!("{}: {}", what, e))?;
					match within(&what, sides[1 - from].handle.recv_message()).await?.map_err(|e| format!("{}: {}", what, e))? {
						ReceivedMessage::Request(r, body) => {
							let m = Message::request(r.request_id(), r.service_id(), body);
							open[from] = Some((s, r));
							m
						},
						m => return Err(format!("{}: got {:?}", what, m)),
					}
				},
				2 => {
					let (s, r) = open[req].as_mut().unwrap();
					within(&what, s.send_update(svc, body)).await?.map_err(|e| format!("{}: {}", what, e))?;
					within(&what, r.recv_update()).await?.ok_or(format!("{}: no update", what))?
				},
				3 => {
					let (s, r) = open[req].as_mut().unwrap();
					within(&what, r.send_update(svc, body)).await?.map_err(|e| format!("{}: {}", what, e))?;
					within(&what, s.recv_update()).await?.ok_or(format!("{}: no update", what))?
				},
				_ => {
					let (mut s, r) = open[req].take().unwrap();
					within(&what, r.send_response(svc, body)).await?.map_err(|e| format!("{}: {}", what, e))?;
					within(&what, s.recv_response()).await?.map_err(|e| format!("{}: {}", what, e))?
				},
			};
			let t = [4u8, 0, 2, 3, 1][*kind as usize];
			ensure!(Hdr::of(&got.header).t == t && got.header.service_id == svc, "{}: received {:?}", what, got.header);
			ensure!(got.body.data == bd.bytes(), "{}: body differs: {}", what, diff(&got.body.data, &bd.bytes()));
			pool.check_received(fds, &got.body.fds, &what)?;
		}
		pool.check_usable("at the end")
	}))
}

pub fn c06(ctx: &Arc<Ctx>) {
	ctx.check("transport", Opts { quick: 20_000, thorough: 400_000, shards: 8, rule: "at least one message carries file descriptors" }, seq, run_seq);
	ctx.check("peers", Opts { quick: 6_000, thorough: 200_000, shards: 8, rule: "at least one message carries file descriptors" }, seq_peer, run_seq_peer);
	ctx.assume("datagrams fit in the socket buffer and carry at most 253 descriptors (limits of the kernel)");
}

// ---------------------------------------------------------------------------------------------- C07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dgram {
	/// Length of the datagram.
	len: u32,
	t: u32,
	id: u32,
	svc: i32,
	seed: u32,
	fds: Vec<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct HostileSeq {
	e: En,
	limit: u32,
	max_fds: u32,
	grams: Vec<Dgram>,
	peer: bool,
}

fn hostile_seq() -> BoxedStrategy<HostileSeq> {
	let limit = prop_oneof![Just(0u32), 1u32..40, Just(4096u32), 40u32..3000];
	let max_fds = prop_oneof![Just(10u32), 0u32..4, 4u32..40];
	bx((limit, max_fds, prop::bool::weighted(0.03)).prop_flat_map(|(limit, max_fds, long)| {
		let len = prop_oneof![
			80 => (0u32..=limit.min(80)).prop_map(|n| n + 12),
			30 => (0u32..3).prop_map(move |d| 12 + (limit + d).saturating_sub(1)),
			20 => (1u32..2000).prop_map(move |d| 12 + limit + d),
			if long { 1 } else { 10 } => 0u32..12,
		];
		let rare = if long { 3000 } else { 30 };
		let t = prop_oneof![rare => 0u32..5, 1 => 5u32..8, 1 => any::<u32>()];
		let n = prop_oneof![4 => Just(0usize), 3 => 0..=(max_fds as usize), 3 => (max_fds as usize)..=(max_fds as usize + 3), 1 => 0usize..=253, 1 => Just(253usize)];
		let fds = n.prop_flat_map(|n| prop::collection::vec(0u8..6, n));
		let gram = (len, t, edge_u32(), edge_i32(), any::<u32>(), fds).prop_map(|(len, t, id, svc, seed, fds)| Dgram { len, t, id, svc, seed, fds });
		(endian(), Just(limit), Just(max_fds), prop::collection::vec(gram, if long { 30..300 } else { 1..10 }), any::<bool>())
	})
	.prop_map(|(e, limit, max_fds, grams, peer)| HostileSeq { e, limit, max_fds, grams, peer }))
}

fn gram_bytes(g: &Dgram, e: En) -> Vec<u8> {
	let mut d = Vec::new();
	d.extend_from_slice(&e.u32(g.t));
	d.extend_from_slice(&e.u32(g.id));
	d.extend_from_slice(&e.u32(g.svc as u32));
	d.extend_from_slice(&Bd { len: g.len.saturating_sub(12), seed: g.seed }.bytes());
	d.truncate(g.len as usize);
	d
}

#[derive(PartialEq, Clone, Copy)]
enum Expect {
	Msg,
	NonFatal,
	Fatal,
	/// Both over a limit and invalid.
	Either,
}

fn expect(g: &Dgram, limit: u32, max_fds: u32) -> Expect {
	let over = g.len > 12 + limit || g.fds.len() > max_fds as usize;
	let invalid = g.len < 12 || g.t > 4;
	match (over, invalid) {
		(false, false) => Expect::Msg,
		(true, false) => Expect::NonFatal,
		(false, true) => Expect::Fatal,
		(true, true) => Expect::Either,
	}
}

fn run_hostile_seq(c: &HostileSeq, info: &mut Info) -> CaseResult {
	with_room(c.grams.iter().map(|g| g.fds.len()).sum(), info, |info| hostile_seq_case(c, info))
}

fn hostile_seq_case(c: &HostileSeq, info: &mut Info) -> CaseResult {
	let pool = Pool::new();
	for g in &c.grams {
		match expect(g, c.limit, c.max_fds) {
			Expect::NonFatal => {
				info.nontrivial = true;
				info.label_if(g.len > 12 + c.limit, "body over the limit");
				info.label_if(g.fds.len() > c.max_fds as usize, "too many descriptors");
			},
			Expect::Fatal => {
				info.nontrivial = true;
				info.label("invalid datagram");
			},
			_ => (),
		}
		info.label_if(!g.fds.is_empty(), "descriptors attached");
	}
	info.count("datagrams", c.grams.len() as u64);
	rt_paused().block_on(tokio::task::LocalSet::new().run_until(async {
		let (a, b) = UnixSeqpacket::pair().unwrap();
		let conf = config(c.limit, 4096, c.max_fds, 10, c.e);
		let mut at = 0;
		feed(c, &pool, &a, &mut at, 0)?;
		if c.peer {
			return hostile_peer(c, &pool, a, UnixTransport::new(b, conf), at).await;
		}
		let mut b = UnixTransport::new(b, conf);
		let (mut r, _w) = b.split();
		for (k, g) in c.grams.iter().enumerate() {
			let want = expect(g, c.limit, c.max_fds);
			feed(c, &pool, &a, &mut at, k)?;
			match within("read", r.read_msg()).await? {
				Ok(m) => {
					ensure!(want == Expect::Msg, "datagram {} ({} bytes, type {}, {} descriptors) was accepted", k, g.len, g.t, g.fds.len());
					check_gram(g, c.e, &m, &pool, k)?;
				},
				Err(e) if e.is_fatal() => {
					ensure!(want == Expect::Fatal || want == Expect::Either, "datagram {} ({} bytes, type {}, {} descriptors) gives a fatal error: {}", k, g.len, g.t, g.fds.len(), e);
					return Ok(());
				},
				Err(e) => {
					ensure!(want == Expect::NonFatal || want == Expect::Either, "datagram {} ({} bytes, type {}, {} descriptors) gives an error: {}", k, g.len, g.t, g.fds.len(), e);
				},
			}
		}
		drop(a);
		match within("last read", r.read_msg()).await? {
			Ok(m) => Err(format!("extra message {:?}", m.header)),
			Err(e) => {
				ensure!(e.is_fatal(), "end of the connection is not fatal: {}", e);
				pool.check_usable("at the end")
			},
		}
	}))
}

/// Send datagrams as far as they fit, at least up to datagram `k`.
fn feed(c: &HostileSeq, pool: &Pool, raw: &UnixSeqpacket, at: &mut usize, k: usize) -> CaseResult {
	while let Some(g) = c.grams.get(*at) {
		let fds: Vec<i32> = g.fds.iter().map(|k| pool.fd(*k)).collect();
		match send_raw(raw.as_raw_fd(), &gram_bytes(g, c.e), &fds) {
			Ok(n) => ensure!(n == g.len as usize, "harness: short send"),
			// The remote may have ended, which is judged by what it reports.
			Err(libc::EAGAIN | libc::EPIPE | libc::ECONNRESET) if *at > k => return Ok(()),
			Err(e) => return Err(format!("harness: sending datagram {} failed with errno {}", *at, e)),
		}
		*at += 1;
	}
	Ok(())
}

fn check_gram(g: &Dgram, e: En, m: &Message<UnixBody>, pool: &Pool, k: usize) -> CaseResult {
	let data = gram_bytes(g, e);
	let want = Hdr { t: g.t as u8, id: g.id, svc: g.svc };
	ensure!(Hdr::of(&m.header) == want, "datagram {}: header {:?}, expected {:?}", k, m.header, want);
	ensure!(m.body.data == data[12..], "datagram {}: body differs: {}", k, diff(&m.body.data, &data[12..]));
	pool.check_received(&g.fds, &m.body.fds, &format!("datagram {}", k))
}

/// The same datagrams against a running peer. Only requests and streams are delivered by the read handle, other messages are protocol errors.
async fn hostile_peer(c: &HostileSeq, pool: &Pool, raw: UnixSeqpacket, transport: UnixTransport<UnixSeqpacket>, mut at: usize) -> CaseResult {
	let (peer, mut handle) = Peer::new(transport);
	let run = tokio::task::spawn_local(peer.run());
	let mut seen = std::collections::BTreeSet::new();
	let mut kept = Vec::new();
	for (k, g) in c.grams.iter().enumerate() {
		let want = expect(g, c.limit, c.max_fds);
		feed(c, pool, &raw, &mut at, k)?;
		if want == Expect::Msg && g.t == 2 {
			if let Some(r) = kept.iter_mut().find(|r: &&mut ReceivedRequestHandle<UnixBody>| r.request_id() == g.id) {
				let m = within("recv_update", r.recv_update()).await?.ok_or(format!("datagram {}: the update is lost", k))?;
				check_gram(g, c.e, &m, pool, k)?;
				continue;
			}
		}
		let got = within("recv_message", handle.recv_message()).await?;
		let deliver = want == Expect::Msg && (g.t == 4 || (g.t == 0 && seen.insert(g.id)));
		match got {
			Ok(ReceivedMessage::Stream(m)) => {
				ensure!(deliver && g.t == 4, "datagram {} delivered as stream message", k);
				check_gram(g, c.e, &m, pool, k)?;
			},
			Ok(ReceivedMessage::Request(r, body)) => {
				ensure!(deliver && g.t == 0, "datagram {} delivered as request", k);
				check_gram(g, c.e, &Message::request(r.request_id(), r.service_id(), body), pool, k)?;
				kept.push(r);
			},
			Err(e) => {
				ensure!(!deliver, "datagram {} reported as error: {}", k, e);
				if want == Expect::Either {
					// Both outcomes are fine, and which one it was only shows later.
					return Ok(());
				}
				let fatal = want == Expect::Fatal;
				if fatal {
					within("the run loop after a fatal error", run).await?.map_err(|e| format!("peer panicked: {}", e))?;
					match within("recv_message", handle.recv_message()).await? {
						Ok(m) => return Err(format!("message after a fatal error: {:?}", m)),
						Err(e) => ensure!(e.is_connection_aborted(), "second error after a fatal error: {}", e),
					}
					return Ok(());
				}
			},
		}
	}
	// Still usable: a normal message comes through in both directions.
	within("send_stream", handle.send_stream(77, vec![])).await?.map_err(|e| format!("sending after hostile datagrams: {}", e))?;
	let mut buf = [0u8; 64];
	let n = within("raw receive", raw.recv(&mut buf)).await?.map_err(|e| e.to_string())?;
	let want = datagram(&Hdr { t: 4, id: 0, svc: 77 }, &[], c.e);
	ensure!(buf[..n] == want, "stream message arrived as {:?}", &buf[..n]);
	send_raw(raw.as_raw_fd(), &datagram(&Hdr { t: 4, id: 0, svc: 78 }, &[], c.e), &[]).map_err(|e| format!("harness: errno {}", e))?;
	match within("recv_message", handle.recv_message()).await? {
		Ok(ReceivedMessage::Stream(m)) => ensure!(m.header.service_id == 78, "got {:?}", m.header),
		other => return Err(format!("after hostile datagrams: {:?}", other)),
	}
	pool.check_usable("at the end")
}

pub fn c07(ctx: &Arc<Ctx>) {
	ctx.check(
		"datagrams",
		Opts { quick: 60_000, thorough: 1_500_000, shards: 8, rule: "at least one datagram is over a limit or invalid" },
		hostile_seq,
		run_hostile_seq,
	);
}

// ---------------------------------------------------------------------------------------------- C08

#[derive(Clone, Debug, Serialize, Deserialize)]
enum FdOp {
	/// Peer `from` sends a message of a kind with this body length (limit is 100) and descriptors.
	Send { from: bool, kind: u8, len: u32, fds: Vec<u8> },
	/// Start sending without waiting for the result, then drop the future.
	SendCancelled { from: bool, len: u32, fds: Vec<u8> },
	/// Receive on a side, and keep or drop what arrives.
	Recv { on: bool, keep: bool },
	RecvUpdate { sent: bool, keep: bool },
	/// Datagram from the outside to the third peer.
	Raw { t: u32, len: u32, id: u8, fds: Vec<u8> },
	RecvRaw { keep: bool },
	/// Drop the kept messages.
	DropKept,
	DropRequests { sent: bool },
	Canary,
	DropHandle { side: bool },
	CloseRaw,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FdCase {
	max_fds: u32,
	ops: Vec<FdOp>,
}

fn fd_case() -> BoxedStrategy<FdCase> {
	let fds = || prop_oneof![12 => prop::collection::vec(0u8..6, 0..7), 1 => prop::collection::vec(0u8..6, 50..70)];
	let len = || prop_oneof![4 => 0u32..=100, 1 => 101u32..300];
	let op = prop_oneof![
		8 => (any::<bool>(), 0u8..5, len(), fds()).prop_map(|(from, kind, len, fds)| FdOp::Send { from, kind, len, fds }),
		2 => (any::<bool>(), len(), fds()).prop_map(|(from, len, fds)| FdOp::SendCancelled { from, len, fds }),
		5 => (any::<bool>(), any::<bool>()).prop_map(|(on, keep)| FdOp::Recv { on, keep }),
		3 => (any::<bool>(), any::<bool>()).prop_map(|(sent, keep)| FdOp::RecvUpdate { sent, keep }),
		5 => (prop_oneof![9 => 0u32..5, 1 => 5u32..9], prop_oneof![6 => 12u32..112, 2 => 100u32..300, 1 => 0u32..12], 0u8..3, fds()).prop_map(|(t, len, id, fds)| FdOp::Raw { t, len, id, fds }),
		3 => any::<bool>().prop_map(|keep| FdOp::RecvRaw { keep }),
		1 => Just(FdOp::DropKept),
		1 => any::<bool>().prop_map(|sent| FdOp::DropRequests { sent }),
		2 => Just(FdOp::Canary),
		1 => any::<bool>().prop_map(|side| FdOp::DropHandle { side }),
		1 => Just(FdOp::CloseRaw),
	];
	bx((prop_oneof![3 => Just(4u32), 1 => Just(60u32)], prop::collection::vec(op, 1..24)).prop_map(|(max_fds, ops)| FdCase { max_fds, ops }))
}

/// Let everything that can run, run.
async fn settle() {
	tokio::time::sleep(Duration::from_millis(1)).await;
	tokio::time::sleep(Duration::from_millis(1)).await;
}

async fn fd_history(c: &FdCase, pool: &Pool, canaries: &mut Vec<(FileDesc, (u64, u64))>, info: &mut Info) -> CaseResult {
	let conf = config(100, 100, c.max_fds, c.max_fds, En::Little);
	// The receiver accepts less than the sender may send for one of the directions.
	let tight = config(60, 100, c.max_fds / 2, c.max_fds, En::Little);
	let (a, b) = UnixSeqpacket::pair().unwrap();
	let (raw, t) = UnixSeqpacket::pair().unwrap();
	let mut runs = Vec::new();
	let (pa, ha) = Peer::new(UnixTransport::new(a, conf.clone()));
	let (pb, hb) = Peer::new(UnixTransport::new(b, tight));
	let (pt, ht) = Peer::new(UnixTransport::new(t, conf));
	runs.push(tokio::task::spawn_local(pa.run()));
	runs.push(tokio::task::spawn_local(pb.run()));
	runs.push(tokio::task::spawn_local(pt.run()));
	let mut handles = [Some(ha), Some(hb)];
	let mut third = Some(ht);
	let mut raw = Some(raw);
	let mut sent: Vec<SentRequestHandle<UnixBody>> = Vec::new();
	let mut received: Vec<ReceivedRequestHandle<UnixBody>> = Vec::new();
	let mut kept: Vec<(Vec<FileDesc>, Vec<Option<(u64, u64)>>)> = Vec::new();
	let keep_body = |body: UnixBody, keep: bool, kept: &mut Vec<(Vec<FileDesc>, Vec<Option<(u64, u64)>>)>| -> CaseResult {
		for f in &body.fds {
			ensure!(identity(f.as_raw_fd()).is_some(), "a received descriptor is not open");
			ensure!(cloexec(f.as_raw_fd()), "a received descriptor is not close-on-exec");
		}
		if keep {
			let ids = body.fds.iter().map(|f| identity(f.as_raw_fd())).collect();
			kept.push((body.fds, ids));
		}
		Ok(())
	};
	let mut moved = 0u64;
	for (k, op) in c.ops.iter().enumerate() {
		match op {
			FdOp::Send { from, kind, len, fds } => {
				let body = UnixBody::new(vec![1u8; *len as usize], pool.dup(fds));
				moved += fds.len() as u64;
				let numbers: Vec<(i32, (u64, u64))> = body.fds.iter().map(|f| (f.as_raw_fd(), identity(f.as_raw_fd()).unwrap())).collect();
				let h = handles[usize::from(*from)].as_ref();
				let what = format!("operation {} ({:?})", k, op);
				let mut done = true;
				match kind {
					0 => match h {
						Some(h) => drop(within(&what, h.send_stream(1, body)).await?),
						None => done = false,
					},
					1 => match h {
						Some(h) => {
							if let Ok(s) = within(&what, h.send_request(2, body)).await? {
								sent.push(s);
							}
						},
						None => done = false,
					},
					2 => match sent.last() {
						Some(s) => drop(within(&what, s.send_update(3, body)).await?),
						None => done = false,
					},
					3 => match received.last() {
						Some(r) => drop(within(&what, r.send_update(4, body)).await?),
						None => done = false,
					},
					_ => match received.last() {
						Some(r) => drop(within(&what, r.send_response(5, body)).await?),
						None => done = false,
					},
				}
				if done {
					// The message is done: its descriptors are released. A received copy has another number unless the number was free again.
					settle().await;
					let still = numbers.iter().filter(|(fd, id)| identity(*fd) == Some(*id)).count();
					if still > 0 {
						// May be received copies that reuse the numbers: receive with all channels drained decides at the end.
						let open = open_fds();
						info.count("reused descriptor numbers", still as u64);
						ensure!(open.len() < 4000, "descriptors pile up");
					}
				}
			},
			FdOp::SendCancelled { from, len, fds } => {
				if let Some(h) = &handles[usize::from(*from)] {
					let body = UnixBody::new(vec![1u8; *len as usize], pool.dup(fds));
					moved += fds.len() as u64;
					let mut f = Box::pin(h.send_request(9, body));
					let _ = poll_once(&mut f);
					drop(f);
					info.label("cancelled send");
				}
			},
			FdOp::Recv { on, keep } => {
				if let Some(h) = &mut handles[usize::from(*on)] {
					settle().await;
					let r = timeout(Duration::from_millis(5), h.recv_message()).await;
					match r {
						Ok(Ok(ReceivedMessage::Request(r, body))) => {
							received.push(r);
							keep_body(body, *keep, &mut kept)?;
						},
						Ok(Ok(ReceivedMessage::Stream(m))) => keep_body(m.body, *keep, &mut kept)?,
						_ => (),
					}
				}
			},
			FdOp::RecvUpdate { sent: on_sent, keep } => {
				settle().await;
				if *on_sent {
					if let Some(s) = sent.last_mut() {
						match timeout(Duration::from_millis(5), s.recv_update()).await {
							Ok(Some(m)) => keep_body(m.body, *keep, &mut kept)?,
							Ok(None) => {
								if let Ok(Ok(m)) = timeout(Duration::from_millis(5), s.recv_response()).await {
									keep_body(m.body, *keep, &mut kept)?;
								}
							},
							Err(_) => (),
						}
					}
				} else if let Some(r) = received.last_mut() {
					if let Ok(Some(m)) = timeout(Duration::from_millis(5), r.recv_update()).await {
						keep_body(m.body, *keep, &mut kept)?;
					}
				}
			},
			FdOp::Raw { t, len, id, fds } => {
				if let Some(raw) = &raw {
					let g = Dgram { len: *len, t: *t, id: *id as u32, svc: 5, seed: 3, fds: fds.clone() };
					let numbers: Vec<i32> = fds.iter().map(|k| pool.fd(*k)).collect();
					if send_raw(raw.as_raw_fd(), &gram_bytes(&g, En::Little), &numbers).is_ok() {
						moved += fds.len() as u64;
						info.label_if(*len < 12 || *t > 4, "invalid datagram with descriptors");
						info.label_if(*len > 112 || fds.len() > c.max_fds as usize, "over-limit datagram with descriptors");
					}
				}
			},
			FdOp::RecvRaw { keep } => {
				if let Some(h) = &mut third {
					match timeout(Duration::from_millis(5), h.recv_message()).await {
						Ok(Ok(ReceivedMessage::Request(r, body))) => {
							received.push(r);
							keep_body(body, *keep, &mut kept)?;
						},
						Ok(Ok(ReceivedMessage::Stream(m))) => keep_body(m.body, *keep, &mut kept)?,
						_ => (),
					}
				}
			},
			FdOp::DropKept => kept.clear(),
			FdOp::DropRequests { sent: s } => {
				if *s {
					sent.clear()
				} else {
					received.clear()
				}
			},
			FdOp::Canary => {
				for _ in 0..3 {
					let f = memfd();
					let id = identity(f.as_raw_fd()).unwrap();
					canaries.push((f, id));
				}
			},
			FdOp::DropHandle { side } => {
				handles[usize::from(*side)] = None;
				info.label("handle dropped");
			},
			FdOp::CloseRaw => {
				raw = None;
			},
		}
		if k % 4 == 3 {
			check_held(pool, canaries, &kept, &format!("after operation {}", k))?;
		}
	}
	settle().await;
	check_held(pool, canaries, &kept, "at the end")?;
	info.nontrivial = moved > 0;
	info.count("descriptors attached", moved);
	// Drop everything and wait for the peers to end.
	drop((kept, sent, received));
	drop(handles);
	drop(third);
	drop(raw);
	for r in runs {
		within("the run loop after dropping all handles", r).await?.map_err(|e| format!("peer panicked: {}", e))?;
	}
	Ok(())
}

fn check_held(pool: &Pool, canaries: &[(FileDesc, (u64, u64))], kept: &[(Vec<FileDesc>, Vec<Option<(u64, u64)>>)], when: &str) -> CaseResult {
	pool.check_usable(when)?;
	for (f, id) in canaries {
		ensure!(identity(f.as_raw_fd()) == Some(*id), "{}: an unrelated descriptor of the process was closed", when);
	}
	for (fds, ids) in kept {
		for (f, id) in fds.iter().zip(ids) {
			ensure!(identity(f.as_raw_fd()) == *id, "{}: a descriptor owned by the user was closed", when);
		}
	}
	Ok(())
}

fn run_fds(c: &FdCase, info: &mut Info) -> CaseResult {
	let before = open_fds();
	let r = (|| {
		let pool = Pool::new();
		let mut canaries = Vec::new();
		let rt = rt_paused();
		let r = rt.block_on(tokio::task::LocalSet::new().run_until(fd_history(c, &pool, &mut canaries, info)));
		drop(rt);
		check_held(&pool, &canaries, &[], "after the peers are gone")?;
		r
	})();
	r?;
	let after = open_fds();
	ensure!(before == after, "descriptors before {:?} and after {:?} differ: {} leaked", before.keys(), after.keys(), after.len() as i64 - before.len() as i64);
	Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ReleaseCase {
	/// Which operation sends: 0 stream, 1 request, 2 requester update, 3 responder update, 4 response.
	kind: u8,
	fds: Vec<u8>,
	len: u32,
	/// 0: the remote reads; 1: the remote is gone; 2: the own peer was closed; 3: blocked until the remote reads
	how: u8,
}

fn release_case() -> BoxedStrategy<ReleaseCase> {
	bx((0u8..5, prop::collection::vec(0u8..6, 0..7), prop_oneof![3 => 0u32..=100, 1 => 101u32..200], 0u8..4).prop_map(|(kind, fds, len, how)| ReleaseCase { kind, fds, len, how }))
}

/// Exact accounting around a single send: descriptors stay open while the message is pending and are closed once it is done.
fn run_release(c: &ReleaseCase, info: &mut Info) -> CaseResult {
	info.nontrivial = !c.fds.is_empty();
	info.label(["remote reads", "remote gone", "peer closed", "blocked first"][c.how as usize]);
	let pool = Pool::new();
	rt_paused().block_on(tokio::task::LocalSet::new().run_until(async {
		let (a, raw) = UnixSeqpacket::pair().unwrap();
		crate::stream::set_buf(a.as_raw_fd(), libc::SO_SNDBUF, 4000);
		let (peer, mut h) = Peer::new(UnixTransport::new(a, config(100, 100, 4, 4, En::Little)));
		let run = tokio::task::spawn_local(peer.run());
		let s = within("send_request", h.send_request(1, vec![])).await?.map_err(|e| e.to_string())?;
		let mut buf = [0u8; 4096];
		within("raw recv", raw.recv(&mut buf)).await?.unwrap();
		send_raw(raw.as_raw_fd(), &datagram(&Hdr { t: 0, id: 5, svc: 1 }, &[], En::Little), &[]).unwrap();
		let r = match within("recv_message", h.recv_message()).await?.map_err(|e| e.to_string())? {
			ReceivedMessage::Request(r, _) => r,
			m => return Err(format!("got {:?}", m)),
		};
		let (_read, w) = h.split();
		let mut raw = Some(raw);
		let mut blockers = Vec::new();
		match c.how {
			1 => raw = None,
			2 => {
				w.close();
				settle().await;
			},
			3 => {
				// Fill the socket so that the next send has to wait.
				for _ in 0..400 {
					let mut f = Box::pin(w.send_stream(1, vec![0u8; 100]));
					let mut blocked = true;
					for _ in 0..3 {
						if poll_once(&mut f).is_ready() {
							blocked = false;
							break;
						}
						settle().await;
					}
					if blocked {
						blockers.push(f);
						break;
					}
				}
				ensure!(!blockers.is_empty(), "harness: the socket never fills");
			},
			_ => (),
		}
		settle().await;
		let dups = pool.dup(&c.fds);
		let ended_before = run.is_finished();
		let before = open_fds().len() - dups.len();
		let body = UnixBody::new(vec![2u8; c.len as usize], dups);
		let valid = c.len <= 100 && c.fds.len() <= 4;
		let mut f: std::pin::Pin<Box<dyn std::future::Future<Output = Result<(), fizyr_rpc::Error>> + '_>> = match c.kind {
			0 => Box::pin(w.send_stream(1, body)),
			1 => Box::pin(async {
				w.send_request(1, body).await.map(drop)
			}),
			2 => Box::pin(s.send_update(1, body)),
			3 => Box::pin(r.send_update(1, body)),
			_ => Box::pin(r.send_response(1, body)),
		};
		if c.how == 3 {
			ensure!(poll_once(&mut f).is_pending(), "send completes although the connection accepts no data");
			settle().await;
			ensure!(poll_once(&mut f).is_pending(), "send completes although the connection accepts no data");
			ensure!(open_fds().len() == before + c.fds.len(), "descriptors of a waiting message: {} open, expected {}", open_fds().len() - before, c.fds.len());
			// Now read everything.
			loop {
				let got = timeout(Duration::from_millis(5), raw.as_ref().unwrap().recv(&mut buf)).await;
				if !matches!(got, Ok(Ok(n)) if n > 0) {
					break;
				}
			}
		}
		let result = within("send", &mut f).await?;
		drop(f);
		if c.how == 0 || c.how == 3 {
			ensure!(result.is_ok() == valid, "send gives {:?} for {} bytes and {} descriptors", result, c.len, c.fds.len());
		} else {
			ensure!(result.is_err(), "send works without a connection");
		}
		let after = open_fds().len();
		// The socket of a peer that ended is closed as well.
		let gone = usize::from(run.is_finished()) - usize::from(ended_before);
		ensure!(after + gone == before, "{} descriptors open after the send, {} before it (result {:?})", after, before, result.is_ok());
		drop(blockers);
		Ok(())
	}))
}

pub fn c08(ctx: &Arc<Ctx>) {
	// One thread: the checks count the descriptors of the whole process.
	ctx.check("history", Opts { quick: 10_000, thorough: 300_000, shards: 1, rule: "file descriptors were attached to messages" }, fd_case, run_fds);
	ctx.check("release", Opts { quick: 5_000, thorough: 100_000, shards: 1, rule: "file descriptors were attached to the message" }, release_case, run_release);
}
