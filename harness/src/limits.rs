//! C05: body size limits on every transport.
use crate::fw::*;
use crate::util::*;
use fizyr_rpc::transport::{StreamTransport, Transport, UnixTransport};
use fizyr_rpc::util::IntoTransport;
use fizyr_rpc::{Body, Error, Message, Peer, PeerHandle, ReceivedMessage, ReceivedRequestHandle, SentRequestHandle, StreamConfig, UnixConfig};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
	Unix,
	Tcp,
	Seqpacket,
}

pub fn kind() -> impl Strategy<Value = Kind> {
	prop_oneof![4 => Just(Kind::Unix), 4 => Just(Kind::Seqpacket), 1 => Just(Kind::Tcp)]
}

/// Length of a body relative to the limits.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Len {
	Zero,
	WriteLimit(i8),
	ReadLimit(i8),
	FarOver(u16),
	Small(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
	kind: Kind,
	/// Read and write limits of both sides.
	read: [u32; 2],
	write: [u32; 2],
	e: En,
	/// How the transports are made: with a configuration, or with the default.
	make: u8,
	/// Kind of message (see `send`), sender, length, content.
	ops: Vec<(u8, bool, Len, u32)>,
}

fn case() -> BoxedStrategy<Case> {
	let limit = || prop_oneof![1 => Just(0u32), 1 => 1u32..10, 3 => 10u32..300, 2 => 4000u32..9000, 1 => 50_000u32..60_000];
	let len = prop_oneof![
		1 => Just(Len::Zero),
		5 => (-1i8..=1).prop_map(Len::WriteLimit),
		5 => (-1i8..=1).prop_map(Len::ReadLimit),
		1 => (1u16..20_000).prop_map(Len::FarOver),
		3 => any::<u16>().prop_map(Len::Small),
	];
	// Often equal limits, so that the interesting lengths coincide.
	let limits = prop_oneof![
		2 => [limit(), limit(), limit(), limit()].prop_map(|x| x),
		2 => limit().prop_map(|l| [l, l, l, l]),
		3 => (limit(), limit()).prop_map(|(a, b)| [a.min(b), a.min(b), a.max(b), a.max(b)]),
	];
	let make = prop_oneof![8 => 0u8..2, 1 => 2u8..4];
	bx((kind(), limits, endian(), make, prop::collection::vec((0u8..6, any::<bool>(), len, any::<u32>()), 1..10)).prop_map(|(kind, mut l, e, make, ops)| {
		if make >= 2 {
			// What the default configuration says.
			let (read, write) = match kind {
				Kind::Seqpacket => (UnixConfig::default().max_body_len_read, UnixConfig::default().max_body_len_write),
				_ => (StreamConfig::default().max_body_len_read, StreamConfig::default().max_body_len_write),
			};
			l = [read, read, write, write];
		}
		Case { kind, read: [l[0], l[1]], write: [l[2], l[3]], e, make, ops }
	}))
}

macro_rules! transport {
	($make:expr, $t:ty, $s:expr, $config:expr) => {
		match $make {
			0 => <$t>::new($s, $config),
			1 => $s.into_transport($config),
			2 => <$t>::new_default($s),
			_ => $s.into_default_transport(),
		}
	};
}

const LIMIT: Duration = Duration::from_secs(30);

async fn within<F: std::future::Future>(what: &str, f: F) -> Result<F::Output, String> {
	timeout(LIMIT, f).await.map_err(|_| format!("{} never completes", what))
}

async fn go<T, B>(ta: T, tb: T, c: &Case, info: &mut Info) -> CaseResult
where
	T: Transport<Body = B>,
	B: Body + From<Vec<u8>> + AsBytes,
{
	let (pa, ha) = Peer::new(ta);
	let (pb, hb) = Peer::new(tb);
	let mut runs = [Some(tokio::task::spawn_local(pa.run())), Some(tokio::task::spawn_local(pb.run()))];
	let mut h: [PeerHandle<B>; 2] = [ha, hb];
	let mut open: [Option<(SentRequestHandle<B>, ReceivedRequestHandle<B>)>; 2] = [None, None];
	let mut old = Vec::new();
	for (k, (kind, dir, len, seed)) in c.ops.iter().enumerate() {
		let from = usize::from(*dir);
		let to = 1 - from;
		let (wl, rl) = (c.write[from], c.read[to]);
		let len = match len {
			Len::Zero => 0,
			Len::WriteLimit(d) => (wl as i64 + *d as i64).max(0) as u32,
			Len::ReadLimit(d) => (rl as i64 + *d as i64).max(0) as u32,
			Len::FarOver(n) => wl.max(rl) + *n as u32,
			Len::Small(n) => *n as u32 % (wl.min(rl) + 1),
		};
		let mut bytes = Bd { len, seed: *seed }.bytes();
		if *kind == 5 {
			// Error responses are text.
			bytes.iter_mut().for_each(|b| *b = b'a' + *b % 26);
		}
		let what = format!("operation {} (message kind {}, {} bytes, write limit {}, read limit {})", k, kind, len, wl, rl);
		// Side that owns the request.
		let req = if matches!(kind, 0 | 1 | 2) { from } else { to };
		if *kind > 1 && open[req].is_none() {
			let s = within("send_request", h[req].send_request(1, vec![])).await?.map_err(|e| format!("{}: empty request refused: {}", what, e))?;
			match within("recv_message", h[1 - req].recv_message()).await? {
				Ok(ReceivedMessage::Request(r, b)) if b.bytes().is_empty() => open[req] = Some((s, r)),
				other => return Err(format!("{}: empty request arrived as {:?}", what, other)),
			}
		}
		let mut new_request = None;
		let result: Result<(), Error> = match kind {
			0 => within(&what, h[from].send_stream(k as i32, bytes.clone())).await?,
			1 => within(&what, h[from].send_request(k as i32, bytes.clone())).await?.map(|s| new_request = Some(s)),
			2 => within(&what, open[req].as_ref().unwrap().0.send_update(k as i32, bytes.clone())).await?,
			3 => within(&what, open[req].as_ref().unwrap().1.send_update(k as i32, bytes.clone())).await?,
			4 => within(&what, open[req].as_ref().unwrap().1.send_response(k as i32, bytes.clone())).await?,
			_ => within(&what, open[req].as_ref().unwrap().1.send_error_response(std::str::from_utf8(&bytes).unwrap())).await?,
		};
		if len > wl {
			info.label("over the write limit");
			info.nontrivial = true;
			match result {
				Ok(()) => return Err(format!("{}: message over the write limit was sent", what)),
				Err(e) => ensure!(!e.is_connection_aborted(), "{}: {}", what, e),
			}
			// That nothing arrived shows with the next message, or with the sentinel at the end.
			continue;
		}
		ensure!(result.is_ok(), "{}: refused: {:?}", what, result);
		if len > rl {
			info.label("over the read limit");
			info.nontrivial = true;
			match within(&what, h[to].recv_message()).await? {
				Ok(m) => return Err(format!("{}: message over the read limit was delivered: {:?}", what, m)),
				Err(e) => ensure!(!e.is_connection_aborted(), "{}: over the read limit reported as {}", what, e),
			}
			if c.kind == Kind::Seqpacket {
				if matches!(kind, 4 | 5) {
					// The response is lost, so the request never ends.
					old.push(open[req].take());
				}
				continue;
			}
			// A stream connection is closed, on both sides.
			for (i, run) in runs.iter_mut().enumerate() {
				within(&format!("{}: the run loop of side {}", what, i), run.take().unwrap()).await?.map_err(|e| format!("peer panicked: {}", e))?;
			}
			for i in 0..2 {
				match within(&what, h[i].recv_message()).await? {
					Ok(m) => return Err(format!("{}: {:?} after the connection was closed", what, m)),
					Err(_) => (),
				}
				ensure!(within(&what, h[i].send_stream(0, vec![])).await?.is_err(), "{}: sending works after the connection was closed", what);
			}
			return Ok(());
		}
		if len == wl.min(rl) {
			info.label("exactly at the limit");
			info.nontrivial = true;
		}
		let got: Message<B> = match kind {
			0 => match within(&what, h[to].recv_message()).await? {
				Ok(ReceivedMessage::Stream(m)) => m,
				other => return Err(format!("{}: arrived as {:?}", what, other)),
			},
			1 => match within(&what, h[to].recv_message()).await? {
				Ok(ReceivedMessage::Request(r, body)) => {
					let m = Message::request(r.request_id(), r.service_id(), body);
					old.push(open[from].take());
					open[from] = Some((new_request.unwrap(), r));
					m
				},
				other => return Err(format!("{}: arrived as {:?}", what, other)),
			},
			2 => match within(&what, open[req].as_mut().unwrap().1.recv_update()).await? {
				Some(m) => m,
				None => return Err(format!("{}: update lost", what)),
			},
			3 => match within(&what, open[req].as_mut().unwrap().0.recv_update()).await? {
				Some(m) => m,
				None => return Err(format!("{}: update lost", what)),
			},
			_ => match within(&what, open[req].take().unwrap().0.recv_response()).await? {
				Ok(m) => m,
				Err(e) => return Err(format!("{}: response lost: {}", what, e)),
			},
		};
		ensure!(got.header.service_id == if *kind == 5 { -1 } else { k as i32 }, "{}: arrived with header {:?}", what, got.header);
		ensure!(got.body.bytes() == bytes, "{}: body differs: {}", what, diff(got.body.bytes(), &bytes));
	}
	// The connection still works, and nothing else arrived.
	for i in 0..2 {
		within("sentinel", h[i].send_stream(4711, vec![])).await?.map_err(|e| format!("sentinel: {}", e))?;
		match within("sentinel", h[1 - i].recv_message()).await? {
			Ok(ReceivedMessage::Stream(m)) if m.header.service_id == 4711 => (),
			other => return Err(format!("sentinel: got {:?}", other)),
		}
	}
	Ok(())
}

pub trait AsBytes {
	fn bytes(&self) -> &[u8];
}
impl AsBytes for fizyr_rpc::StreamBody {
	fn bytes(&self) -> &[u8] {
		&self.data
	}
}
impl AsBytes for fizyr_rpc::UnixBody {
	fn bytes(&self) -> &[u8] {
		&self.data
	}
}

fn run(c: &Case, info: &mut Info) -> CaseResult {
	info.label(match c.kind {
		Kind::Unix => "unix stream",
		Kind::Tcp => "tcp",
		Kind::Seqpacket => "seqpacket",
	});
	info.label_if(c.make >= 2, "default configuration");
	let local = tokio::task::LocalSet::new();
	match c.kind {
		Kind::Unix => rt_paused().block_on(local.run_until(async {
			let (a, b) = tokio::net::UnixStream::pair().unwrap();
			let conf = |i: usize| crate::stream::config(c.read[i], c.write[i], c.e);
			go(transport!(c.make, StreamTransport<_>, a, conf(0)), transport!(c.make, StreamTransport<_>, b, conf(1)), c, info).await
		})),
		Kind::Tcp => rt().block_on(local.run_until(async {
			let (a, b) = crate::stream::tcp_pair().await;
			a.set_nodelay(true).unwrap();
			b.set_nodelay(true).unwrap();
			let conf = |i: usize| crate::stream::config(c.read[i], c.write[i], c.e);
			go(transport!(c.make, StreamTransport<_>, a, conf(0)), transport!(c.make, StreamTransport<_>, b, conf(1)), c, info).await
		})),
		Kind::Seqpacket => rt_paused().block_on(local.run_until(async {
			let (a, b) = tokio_seqpacket::UnixSeqpacket::pair().unwrap();
			let conf = |i: usize| crate::seq::config(c.read[i], c.write[i], 10, 10, c.e);
			go(transport!(c.make, UnixTransport<_>, a, conf(0)), transport!(c.make, UnixTransport<_>, b, conf(1)), c, info).await
		})),
	}
}

pub fn c05(ctx: &Arc<Ctx>) {
	ctx.check("peers", Opts { quick: 150_000, thorough: 3_000_000, shards: 8, rule: "a body at or over one of the limits was sent" }, case, run);
	if crate::stream::hooks(ctx) {
		crate::stream::frame_overflow(ctx);
	}
	ctx.assume("limits on datagram transports are within what the kernel accepts in one datagram");
}

// ---------------------------------------------------------------- C12

/// Sends on one connection, in batches that run concurrently.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Refusals {
	kind: Kind,
	limit: u32,
	e: En,
	/// Kind of message, number of the request, length relative to the limit, content.
	batches: Vec<Vec<(u8, u8, Rel, u32)>>,
	/// Receive only after this many batches.
	late: u8,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Rel {
	Small(u8),
	At,
	Over(u8),
	Far(u16),
}

fn refusals() -> BoxedStrategy<Refusals> {
	let limit = prop_oneof![1 => Just(0u32), 3 => 1u32..300, 2 => 1000u32..9000];
	let rel = prop_oneof![4 => any::<u8>().prop_map(Rel::Small), 1 => Just(Rel::At), 3 => (1u8..20).prop_map(Rel::Over), 1 => (20u16..9000).prop_map(Rel::Far)];
	let op = (0u8..8, any::<u8>(), rel, any::<u32>());
	bx((kind(), limit, endian(), prop::collection::vec(prop::collection::vec(op, 1..6), 1..10), 0u8..4)
		.prop_map(|(kind, limit, e, batches, late)| Refusals { kind, limit, e, batches, late }))
}

type Sending<B> = std::pin::Pin<Box<dyn std::future::Future<Output = Result<Option<SentRequestHandle<B>>, Error>>>>;

async fn all<T>(mut jobs: Vec<std::pin::Pin<Box<dyn std::future::Future<Output = T>>>>) -> Vec<T> {
	let mut out: Vec<Option<T>> = jobs.iter().map(|_| None).collect();
	std::future::poll_fn(move |cx| {
		for (i, j) in jobs.iter_mut().enumerate() {
			if out[i].is_none() {
				if let std::task::Poll::Ready(x) = j.as_mut().poll(cx) {
					out[i] = Some(x);
				}
			}
		}
		match out.iter().all(|x| x.is_some()) {
			true => std::task::Poll::Ready(out.iter_mut().map(|x| x.take().unwrap()).collect()),
			false => std::task::Poll::Pending,
		}
	})
	.await
}

async fn refuse<T, B>(a: T, b: T, c: &Refusals, info: &mut Info) -> CaseResult
where
	T: Transport<Body = B> + Send + 'static,
	B: Body + AsBytes + From<Vec<u8>> + Send + 'static,
{
	let (pa, a) = Peer::new(a);
	let (pb, mut b) = Peer::new(b);
	tokio::task::spawn_local(pa.run());
	tokio::task::spawn_local(pb.run());
	let (mut ar, aw) = a.split();
	// Requests by A with their handles at B, and requests by B with their handles at A.
	let mut sent: Vec<(SentRequestHandle<B>, Option<ReceivedRequestHandle<B>>)> = Vec::new();
	let mut recvd: Vec<(std::rc::Rc<ReceivedRequestHandle<B>>, SentRequestHandle<B>, bool)> = Vec::new();
	// What B has to receive: messages, updates and responses, by tag.
	let mut main: Vec<(u8, i32, Vec<u8>)> = Vec::new();
	let mut ups: Vec<(usize, i32, Vec<u8>)> = Vec::new();
	let mut downs: Vec<(usize, bool, i32, Vec<u8>)> = Vec::new();
	let mut tag = 0i32;
	let (mut refused, mut after) = (0, 0);
	let last = c.batches.len() - 1;
	for (n, batch) in c.batches.iter().enumerate() {
		let mut jobs: Vec<Sending<B>> = Vec::new();
		let mut meant = Vec::new();
		let mut used = std::collections::HashSet::new();
		for (k, idx, rel, seed) in batch {
			if *k >= 6 {
				// B sends a request.
				let s = within("request of B", b.send_request(1, Vec::new())).await?.map_err(|e| format!("request of B: {e}"))?;
				match within("recv_message", ar.recv_message()).await? {
					Ok(ReceivedMessage::Request(r, _)) => recvd.push((std::rc::Rc::new(r), s, true)),
					other => return Err(format!("request of B arrived as {other:?}")),
				}
				continue;
			}
			let len = match *rel {
				Rel::Small(x) => (x as u32).min(c.limit),
				Rel::At => c.limit,
				Rel::Over(x) => c.limit + x as u32,
				Rel::Far(x) => c.limit + x as u32,
			};
			tag += 1;
			let t = tag;
			let bytes = if *k == 5 { vec![b'e'; len as usize] } else { Bd { len, seed: *seed }.bytes() };
			let body = B::from(bytes.clone());
			let open: Vec<usize> = (0..recvd.len()).filter(|i| recvd[*i].2 && !used.contains(i)).collect();
			let (job, target): (Sending<B>, usize) = match k {
				0 => {
					let w = aw.clone();
					(Box::pin(async move { w.send_stream(t, body).await.map(|()| None) }), 0)
				},
				1 => {
					let w = aw.clone();
					(Box::pin(async move { w.send_request(t, body).await.map(Some) }), 0)
				},
				2 if !sent.is_empty() => {
					let i = *idx as usize % sent.len();
					let w = sent[i].0.write_handle();
					(Box::pin(async move { w.send_update(t, body).await.map(|()| None) }), i)
				},
				3..=5 if !open.is_empty() => {
					let i = open[*idx as usize % open.len()];
					used.insert(i);
					let (w, k) = (recvd[i].0.clone(), *k);
					let text = String::from_utf8_lossy(&bytes).to_string();
					(
						Box::pin(async move {
							match k {
								3 => w.send_update(t, body).await,
								4 => w.send_response(t, body).await,
								_ => w.send_error_response(&text).await,
							}
							.map(|()| None)
						}),
						i,
					)
				},
				_ => continue,
			};
			jobs.push(job);
			meant.push((*k, target, t, bytes));
		}
		let results = within("a batch of sends", all(jobs)).await?;
		for ((k, target, t, bytes), r) in meant.into_iter().zip(results) {
			let what = format!("batch {n}: message {t} (kind {k}, {} bytes, limit {})", bytes.len(), c.limit);
			if bytes.len() > c.limit as usize {
				refused += 1;
				match r {
					Ok(_) => return Err(format!("{what}: message over the limit was sent")),
					Err(e) => ensure!(!e.is_connection_aborted(), "{}: {}", what, e),
				}
				continue;
			}
			after += u32::from(refused > 0);
			let r = r.map_err(|e| format!("{what}: failed with {e:?}"))?;
			match k {
				0 => main.push((4, t, bytes)),
				1 => {
					sent.push((r.unwrap(), None));
					main.push((0, t, bytes));
				},
				2 => ups.push((target, t, bytes)),
				_ => {
					if k != 3 {
						recvd[target].2 = false;
					}
					downs.push((target, k != 3, if k == 5 { -1 } else { t }, bytes));
				},
			}
		}
		if n < c.late as usize && n != last {
			continue;
		}
		// Receive it all.
		for _ in 0..main.len() {
			let (k, svc, id, body, handle) = match within("recv_message of B", b.recv_message()).await? {
				Ok(ReceivedMessage::Stream(m)) => (4, m.header.service_id, 0, m.body, None),
				Ok(ReceivedMessage::Request(r, body)) => (0, r.service_id(), r.request_id(), body, Some(r)),
				Err(e) => return Err(format!("B receives {e:?}")),
			};
			let Some(i) = main.iter().position(|m| m.0 == k && m.1 == svc && m.2 == body.bytes()) else {
				return Err(format!("B received a message of kind {k} with service ID {svc} and {} bytes that was not sent", body.bytes().len()));
			};
			main.remove(i);
			if let Some(r) = handle {
				let Some(s) = sent.iter_mut().find(|s| s.0.service_id() == svc) else { return Err("request without handle".into()) };
				ensure!(s.0.request_id() == id, "request {} arrived with ID {}", s.0.request_id(), id);
				s.1 = Some(r);
			}
		}
		let mut seen = std::collections::HashSet::new();
		while let Some((i, ..)) = ups.first().cloned() {
			let Some(r) = sent[i].1.as_mut() else { return Err("request did not arrive".into()) };
			let Some(m) = within("recv_update of B", r.recv_update()).await? else { return Err("update lost".into()) };
			let Some(k) = ups.iter().position(|u| u.0 == i && u.1 == m.header.service_id && u.2 == m.body.bytes()) else {
				return Err(format!("B received update {:?} that was not sent", m.header));
			};
			ensure!(seen.insert(m.header.service_id), "update received twice");
			ups.remove(k);
		}
		// Updates of a request come before its response, and in order.
		for (i, response, svc, bytes) in downs.drain(..) {
			let s = &mut recvd[i].1;
			let m = match response {
				false => within("recv_update of B", s.recv_update()).await?.ok_or("update lost")?,
				true => within("recv_response of B", s.recv_response()).await?.map_err(|e| format!("response lost: {e:?}"))?,
			};
			ensure!(m.header.service_id == svc && m.body.bytes() == bytes, "B received {:?} with {} bytes instead of service ID {} with {} bytes", m.header, m.body.bytes().len(), svc, bytes.len());
		}
	}
	// Every request is as open as it should be.
	for (i, (r, s, open)) in recvd.iter_mut().enumerate() {
		if *open {
			let x = within("last response", r.send_response(5, Vec::new())).await?;
			ensure!(x.is_ok(), "request {} of B can not be answered: {:?}", i, x);
			let m = within("last response", s.recv_response()).await?.map_err(|e| format!("last response: {e:?}"))?;
			ensure!(m.header.service_id == 5 && m.body.bytes().is_empty(), "request {} of B was answered with {:?}", i, m.header);
		}
	}
	for (i, (s, r)) in sent.iter_mut().enumerate() {
		let Some(r) = r else { return Err(format!("request {i} of A did not arrive")) };
		within("answer", r.send_response(6, vec![1u8])).await?.map_err(|e| format!("request {i} of A can not be answered: {e:?}"))?;
		let m = within("answer", s.recv_response()).await?.map_err(|e| format!("answer to request {i} of A: {e:?}"))?;
		ensure!(m.header.service_id == 6 && m.body.bytes() == [1], "request {} of A: answered with {:?}", i, m.header);
	}
	within("sentinel", aw.send_stream(4711, Vec::new())).await?.map_err(|e| format!("sentinel: {e:?}"))?;
	match within("sentinel", b.recv_message()).await? {
		Ok(ReceivedMessage::Stream(m)) if m.header.service_id == 4711 => (),
		other => return Err(format!("sentinel: got {other:?}")),
	}
	info.count("refused messages", refused as u64);
	info.nontrivial = refused > 0 && after > 0;
	Ok(())
}

pub fn c12(ctx: &Arc<Ctx>) {
	let run = |c: &Refusals, info: &mut Info| {
		let local = tokio::task::LocalSet::new();
		let big = 100_000;
		match c.kind {
			Kind::Unix => rt_paused().block_on(local.run_until(async {
				let (a, b) = tokio::net::UnixStream::pair().unwrap();
				let conf = |w: u32| crate::stream::config(big, w, c.e);
				refuse(StreamTransport::new(a, conf(c.limit)), StreamTransport::new(b, conf(big)), c, info).await
			})),
			Kind::Tcp => rt().block_on(local.run_until(async {
				let (a, b) = crate::stream::tcp_pair().await;
				a.set_nodelay(true).unwrap();
				b.set_nodelay(true).unwrap();
				let conf = |w: u32| crate::stream::config(big, w, c.e);
				refuse(StreamTransport::new(a, conf(c.limit)), StreamTransport::new(b, conf(big)), c, info).await
			})),
			Kind::Seqpacket => rt_paused().block_on(local.run_until(async {
				let (a, b) = tokio_seqpacket::UnixSeqpacket::pair().unwrap();
				let conf = |w: u32| crate::seq::config(big, w, 10, 10, c.e);
				refuse(UnixTransport::new(a, conf(c.limit)), UnixTransport::new(b, conf(big)), c, info).await
			})),
		}
	};
	ctx.check("refusals by the transports", Opts { quick: 20_000, thorough: 500_000, shards: 8, rule: "a message over the limit was refused and another one was sent after it" }, refusals, run);
}
