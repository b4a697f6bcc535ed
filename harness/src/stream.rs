//! C02, C03, C04: framing of byte streams.

use crate::fw::*;
use crate::util::*;
use fizyr_rpc::transport::{StreamTransport, Transport, TransportError, TransportReadHalf, TransportWriteHalf};
use fizyr_rpc::{Peer, ReceivedMessage, StreamBody, StreamConfig};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::future::Future;
use std::io::IoSlice;
use std::pin::Pin;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, ReadBuf};

pub fn config(read: u32, write: u32, e: En) -> StreamConfig {
	let mut c = StreamConfig::default();
	c.max_body_len_read = read;
	c.max_body_len_write = write;
	c.endian = e.get();
	c
}

/// What the inner stream does for one call.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Act {
	/// Transfer at most this many bytes (at least one).
	Some(u32),
	Pending,
}

/// How the inner stream ends after the plan or the data is used up.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum End {
	/// Accept everything (writes), end of file (reads).
	Normal,
	/// Fail with an I/O error when this many bytes were transferred.
	Error(u32),
}

#[derive(Default)]
struct Inner {
	bytes: Vec<u8>,
	pos: usize,
	plan: VecDeque<Act>,
	vectored: bool,
	end: Option<u32>,
	last_pending: bool,
	failed: bool,
	calls: u64,
	pendings: u64,
	partials: u64,
	waker: Option<Waker>,
	/// Stop storing bytes at this length and fail instead.
	cap: Option<usize>,
}

#[derive(Clone)]
struct Scripted(Arc<Mutex<Inner>>);

fn broken() -> std::io::Error {
	std::io::Error::new(std::io::ErrorKind::BrokenPipe, "scripted failure")
}

impl Scripted {
	fn do_write(&self, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<std::io::Result<usize>> {
		let mut i = self.0.lock().unwrap();
		i.calls += 1;
		i.last_pending = false;
		let total: usize = bufs.iter().map(|b| b.len()).sum();
		if i.end == Some(i.bytes.len() as u32) || i.cap.map_or(false, |c| i.bytes.len() >= c) {
			i.failed = true;
			return Poll::Ready(Err(broken()));
		}
		let mut n = match i.plan.pop_front() {
			None => total,
			Some(Act::Some(n)) => total.min(n.max(1) as usize),
			Some(Act::Pending) => {
				i.last_pending = true;
				i.pendings += 1;
				i.waker = Some(cx.waker().clone());
				return Poll::Pending;
			},
		};
		if let Some(e) = i.end {
			n = n.min(e as usize - i.bytes.len());
		}
		if let Some(c) = i.cap {
			n = n.min(c - i.bytes.len());
		}
		if n < total {
			i.partials += 1;
		}
		let mut left = n;
		for b in bufs {
			let k = left.min(b.len());
			i.bytes.extend_from_slice(&b[..k]);
			left -= k;
		}
		Poll::Ready(Ok(n))
	}
}

impl AsyncWrite for Scripted {
	fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
		self.do_write(cx, &[IoSlice::new(buf)])
	}
	fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<std::io::Result<usize>> {
		let vectored = self.0.lock().unwrap().vectored;
		if vectored {
			self.do_write(cx, bufs)
		} else {
			let buf = bufs.iter().find(|b| !b.is_empty()).map_or(&[][..], |b| &**b);
			self.do_write(cx, &[IoSlice::new(buf)])
		}
	}
	fn is_write_vectored(&self) -> bool {
		self.0.lock().unwrap().vectored
	}
	fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
		Poll::Ready(Ok(()))
	}
	fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
		Poll::Ready(Ok(()))
	}
}

impl AsyncRead for Scripted {
	fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
		let mut i = self.0.lock().unwrap();
		i.calls += 1;
		i.last_pending = false;
		if i.end == Some(i.pos as u32) {
			i.failed = true;
			return Poll::Ready(Err(broken()));
		}
		let avail = i.bytes.len() - i.pos;
		let mut n = avail.min(buf.remaining());
		match i.plan.pop_front() {
			None => (),
			Some(Act::Some(k)) => n = n.min(k.max(1) as usize),
			Some(Act::Pending) => {
				i.last_pending = true;
				i.pendings += 1;
				i.waker = Some(cx.waker().clone());
				return Poll::Pending;
			},
		}
		if let Some(e) = i.end {
			n = n.min(e as usize - i.pos);
		}
		if n < avail.min(buf.remaining()) {
			i.partials += 1;
		}
		let pos = i.pos;
		buf.put_slice(&i.bytes[pos..pos + n]);
		i.pos += n;
		Poll::Ready(Ok(()))
	}
}

fn plan(max: u32) -> impl Strategy<Value = Vec<Act>> {
	let small = prop_oneof![16 => 1u32..6, 12 => 1u32..40, 4 => 1..=max, 1 => 1u32..200_000];
	let act = prop_oneof![3 => small.prop_map(Act::Some), 2 => Just(Act::Pending)];
	prop_oneof![
		1 => Just(Vec::new()),
		6 => prop::collection::vec(act, 0..60),
		// One byte at a time.
		1 => (0usize..200).prop_map(|n| vec![Act::Some(1); n]),
	]
}

fn body() -> impl Strategy<Value = Bd> {
	// Now and then around sizes where buffers and counters may have limits.
	let large = prop_oneof![
		4 => (10u32..18, 0u32..5).prop_map(|(s, d)| (1u32 << s) + d - 2),
		1 => (18u32..23, 0u32..5).prop_map(|(s, d)| (1u32 << s) + d - 2),
		2 => 5000u32..300_000,
	];
	let len = prop_oneof![90 => 0u32..4, 120 => 0u32..40, 60 => 0u32..400, 30 => 0u32..5000, 2 => large];
	(len, any::<u32>()).prop_map(|(len, seed)| Bd { len, seed })
}

fn messages(max: usize) -> impl Strategy<Value = Vec<(Hdr, Bd)>> {
	prop::collection::vec((hdr(), body()), 1..=max)
}

#[cfg(fizyr_rpc_verif)]
fn read_half(s: Scripted, max: u32, e: En) -> impl TransportReadHalf<Body = StreamBody> {
	fizyr_rpc::transport::verif_read_half(s, max, e.get())
}
#[cfg(fizyr_rpc_verif)]
fn write_half(s: Scripted, max: u32, e: En) -> impl TransportWriteHalf<Body = StreamBody> {
	fizyr_rpc::transport::verif_write_half(s, max, e.get())
}
// Without the hooks the scripted checks are skipped, see `hooks()`.
#[cfg(not(fizyr_rpc_verif))]
mod no_hooks {
	use super::*;
	pub struct NoHalf;
	impl TransportReadHalf for NoHalf {
		type Body = StreamBody;
		fn poll_read_msg(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<fizyr_rpc::Message<StreamBody>, TransportError>> {
			unreachable!()
		}
	}
	impl TransportWriteHalf for NoHalf {
		type Body = StreamBody;
		fn poll_write_msg(self: Pin<&mut Self>, _: &mut Context, _: &fizyr_rpc::MessageHeader, _: &StreamBody) -> Poll<Result<(), TransportError>> {
			unreachable!()
		}
	}
	pub fn read_half(_s: Scripted, _max: u32, _e: En) -> NoHalf {
		NoHalf
	}
	pub fn write_half(_s: Scripted, _max: u32, _e: En) -> NoHalf {
		NoHalf
	}
}
#[cfg(not(fizyr_rpc_verif))]
use no_hooks::{read_half, write_half};

pub fn hooks(ctx: &Ctx) -> bool {
	if !cfg!(fizyr_rpc_verif) {
		ctx.note("built without the verification hooks: checks over scripted streams were skipped");
	}
	cfg!(fizyr_rpc_verif)
}

/// False if the task only takes a break and was woken already.
fn check_pending(s: &Scripted, count: &CountWaker, what: &str) -> Result<bool, String> {
	let mut i = s.0.lock().unwrap();
	if count.0.load(Ordering::SeqCst) > 0 {
		// Only a break: the task is polled again anyway.
		return Ok(false);
	}
	ensure!(i.last_pending, "{}: returned Pending although the stream was not asked or did not say Pending", what);
	let before = count.0.load(Ordering::SeqCst);
	let w = i.waker.take();
	drop(i);
	match w {
		Some(w) => w.wake(),
		None => return Err(format!("{}: no waker registered", what)),
	}
	ensure!(count.0.load(Ordering::SeqCst) > before, "{}: the waker given to the stream does not wake the task", what);
	Ok(true)
}

/// Poll a half in one of the ways that the crate offers: itself, borrowed, boxed, pinned, or as a future.
fn poll_read<H: TransportReadHalf>(half: &mut H, cx: &mut Context, way: u32) -> Poll<Result<fizyr_rpc::Message<H::Body>, TransportError>> {
	match way % 5 {
		0 => Pin::new(half).poll_read_msg(cx),
		1 => Pin::new(&mut &mut *half).poll_read_msg(cx),
		2 => Pin::new(&mut Box::new(&mut *half)).poll_read_msg(cx),
		3 => Pin::new(&mut Pin::new(half)).poll_read_msg(cx),
		_ => Pin::new(&mut half.read_msg()).poll(cx),
	}
}

fn poll_write<H: TransportWriteHalf>(half: &mut H, cx: &mut Context, header: &fizyr_rpc::MessageHeader, body: &H::Body, way: u32) -> Poll<Result<(), TransportError>> {
	match way % 5 {
		0 => Pin::new(half).poll_write_msg(cx, header, body),
		1 => Pin::new(&mut &mut *half).poll_write_msg(cx, header, body),
		2 => Pin::new(&mut Box::new(&mut *half)).poll_write_msg(cx, header, body),
		3 => Pin::new(&mut Pin::new(half)).poll_write_msg(cx, header, body),
		_ => Pin::new(&mut half.write_msg(header, body)).poll(cx),
	}
}

// ---------------------------------------------------------------------------------------------- C02

#[derive(Clone, Debug, Serialize, Deserialize)]
struct WriteCase {
	e: En,
	msgs: Vec<(Hdr, Bd)>,
	plan: Vec<Act>,
	vectored: bool,
	end: End,
	/// Move the header and the body to other places between polls.
	moved: bool,
	/// Messages of which the body is over the limit, to be refused in between (index into msgs).
	over: Vec<u8>,
}

fn write_case() -> BoxedStrategy<WriteCase> {
	let end = prop_oneof![5 => Just(End::Normal), 1 => (0u32..300).prop_map(End::Error)];
	bx((endian(), messages(5), plan(6000), any::<bool>(), end, any::<bool>(), prop::collection::vec(0u8..5, 0..3))
		.prop_map(|(e, msgs, plan, vectored, end, moved, over)| WriteCase { e, msgs, plan, vectored, end, moved, over }))
}

fn run_write(c: &WriteCase, info: &mut Info) -> CaseResult {
	let max = c.msgs.iter().map(|m| m.1.len).max().unwrap_or(0);
	let s = Scripted(Default::default());
	{
		let mut i = s.0.lock().unwrap();
		i.plan = c.plan.iter().copied().collect();
		i.vectored = c.vectored;
		i.end = match c.end {
			End::Normal => None,
			End::Error(n) => Some(n),
		};
	}
	let mut half = write_half(s.clone(), max, c.e);
	let mut want: Vec<u8> = Vec::new();
	let mut failed = false;
	'msgs: for (k, (h, b)) in c.msgs.iter().enumerate() {
		if c.over.contains(&(k as u8)) {
			let (_n, w) = count_waker();
			let big = StreamBody::from(vec![7u8; max as usize + 1 + k]);
			match poll_write(&mut half, &mut Context::from_waker(&w), &h.get(), &big, b.len) {
				Poll::Ready(Err(e)) => ensure!(!e.is_fatal(), "refusing a message over the limit was fatal: {}", e),
				other => return Err(format!("message {} over the write limit: {:?}", k, other)),
			}
			let i = s.0.lock().unwrap();
			ensure!(i.bytes == want, "a refused message put bytes on the stream");
		}
		let start = want.len();
		want.extend_from_slice(&frame(h, &b.bytes(), c.e));
		let mut header = Box::new(h.get());
		let mut body = StreamBody::from(b.bytes());
		let mut polls = 0;
		loop {
			polls += 1;
			ensure!(polls < 10_000, "message {} never completes", k);
			let (n, w) = count_waker();
			if c.moved {
				header = Box::new(*header);
				body = StreamBody::from(body.data.clone());
			}
			let r = poll_write(&mut half, &mut Context::from_waker(&w), &header, &body, polls + b.len);
			let (out, did_fail) = {
				let i = s.0.lock().unwrap();
				(i.bytes.clone(), i.failed)
			};
			ensure!(want.starts_with(&out), "message {}: stream has other bytes than the frames: {}", k, diff(&out, &want));
			match r {
				Poll::Ready(Ok(())) => {
					ensure!(!did_fail, "message {}: success although the stream failed", k);
					ensure!(out.len() == want.len(), "message {}: success with {} of {} bytes of the frame on the stream", k, out.len() - start, want.len() - start);
					break;
				},
				Poll::Ready(Err(e)) => {
					ensure!(did_fail, "message {}: error although the stream did not fail: {}", k, e);
					ensure!(e.is_fatal(), "message {}: I/O error is not fatal: {}", k, e);
					failed = true;
					break 'msgs;
				},
				Poll::Pending => {
					ensure!(out.len() < want.len(), "message {}: pending although the whole frame was accepted", k);
					check_pending(&s, &n, &format!("message {}", k))?;
				},
			}
		}
	}
	let i = s.0.lock().unwrap();
	info.nontrivial = i.partials > 0 || i.pendings > 0 || failed;
	info.label_if(i.partials > 0, "partial write");
	info.label_if(i.pendings > 0, "back-pressure");
	info.label_if(i.partials > 0 && i.pendings > 0, "partial write and back-pressure");
	info.label_if(failed, "I/O error");
	info.label_if(!c.over.is_empty(), "refused message in between");
	info.count("messages", c.msgs.len() as u64);
	Ok(())
}

/// Bodies around the largest length that fits in a frame, with the largest limit.
fn run_huge(c: &(u64, En), info: &mut Info) -> CaseResult {
	let (len, e) = *c;
	let s = Scripted(Default::default());
	s.0.lock().unwrap().cap = Some(4096);
	s.0.lock().unwrap().vectored = true;
	let mut half = write_half(s.clone(), u32::MAX, e);
	let body = StreamBody { data: vec![0u8; len as usize] };
	let h = Hdr { t: 4, id: 0, svc: 9 };
	let (_n, w) = count_waker();
	let r = loop {
		match Pin::new(&mut half).poll_write_msg(&mut Context::from_waker(&w), &h.get(), &body) {
			Poll::Pending => continue,
			Poll::Ready(r) => break r,
		}
	};
	let out = s.0.lock().unwrap().bytes.clone();
	info.nontrivial = true;
	if len <= u64::from(u32::MAX - 12) {
		let mut want = e.u32(len as u32 + 12).to_vec();
		want.extend_from_slice(&h.bytes(e));
		want.resize(4096, 0);
		ensure!(out == want, "body of {} bytes: wrong start of the frame: {}", len, diff(&out, &want));
		ensure!(matches!(&r, Err(e) if e.is_fatal()), "body of {} bytes over a broken stream: {:?}", len, r);
	} else {
		ensure!(r.is_err(), "body of {} bytes does not fit in a frame but was sent", len);
		ensure!(out.is_empty(), "body of {} bytes does not fit in a frame but {} bytes were written", len, out.len());
		ensure!(!r.unwrap_err().is_fatal(), "refusing a body of {} bytes was fatal", len);
	}
	Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SockWrite {
	e: En,
	tcp: bool,
	msgs: Vec<(Hdr, Bd)>,
	sndbuf: u32,
	/// Sizes of the reads of the receiver.
	reads: Vec<u32>,
}

fn sock_write() -> BoxedStrategy<SockWrite> {
	let body = (prop_oneof![3 => 0u32..100, 3 => 0u32..20_000, 1 => 0u32..200_000, 1 => 0u32..1_000_000], any::<u32>()).prop_map(|(len, seed)| Bd { len, seed });
	let reads = prop::collection::vec(prop_oneof![1u32..20, 1u32..5000, 1u32..100_000], 1..6);
	bx((endian(), prop::bool::weighted(0.2), prop::collection::vec((hdr(), body), 1..12), 0u32..8000, reads)
		.prop_map(|(e, tcp, msgs, sndbuf, reads)| SockWrite { e, tcp, msgs, sndbuf, reads }))
}

pub fn set_buf(fd: i32, opt: i32, n: u32) {
	let n = n as libc::c_int;
	unsafe {
		libc::setsockopt(fd, libc::SOL_SOCKET, opt, &n as *const _ as *const _, 4);
	}
}

pub async fn tcp_pair() -> (tokio::net::TcpStream, tokio::net::TcpStream) {
	let l = tokio::net::TcpListener::bind(("127.0.0.1", 0)).await.expect("bind loopback");
	let addr = l.local_addr().unwrap();
	let (a, b) = tokio::join!(tokio::net::TcpStream::connect(addr), l.accept());
	(a.expect("connect loopback"), b.expect("accept loopback").0)
}

async fn write_all_msgs<W: TransportWriteHalf<Body = StreamBody>>(half: &mut W, c: &[(Hdr, Bd)]) -> Result<(), TransportError> {
	for (h, b) in c {
		half.write_msg(&h.get(), &StreamBody::from(b.bytes())).await?;
	}
	Ok(())
}

fn run_sock_write(c: &SockWrite, info: &mut Info) -> CaseResult {
	use std::os::fd::AsRawFd;
	let want: Vec<u8> = c.msgs.iter().flat_map(|(h, b)| frame(h, &b.bytes(), c.e)).collect();
	let conf = config(1 << 20, 1 << 20, c.e);
	async fn go<S, T>(mut t: T, mut rx: S, c: &SockWrite, want: &[u8]) -> CaseResult
	where
		S: AsyncRead + Unpin,
		T: Transport<Body = StreamBody>,
	{
		let (r, mut w) = t.split();
		let writer = async {
			write_all_msgs(&mut w, &c.msgs).await.map_err(|e| format!("write failed: {}", e))
		};
		let reader = async {
			let mut got = Vec::new();
			let mut k = 0;
			while got.len() < want.len() {
				let n = (c.reads[k % c.reads.len()].max(1) as usize).max(want.len() / 5000);
				k += 1;
				let mut buf = vec![0; n];
				let n = rx.read(&mut buf).await.map_err(|e| format!("harness read failed: {}", e))?;
				ensure!(n > 0, "stream ended early");
				got.extend_from_slice(&buf[..n]);
				ensure!(want.get(got.len() - n..got.len()) == Some(&buf[..n]), "socket has other bytes than the frames: {}", diff(&got, want));
				if k % 3 == 0 {
					tokio::task::yield_now().await;
				}
			}
			Ok::<Vec<u8>, String>(got)
		};
		let (a, b) = timeout(Duration::from_secs(30), async { tokio::join!(writer, reader) }).await.map_err(|_| "writing stalled although the receiver reads".to_string())?;
		a?;
		b?;
		drop((r, w));
		drop(t);
		let mut rest = Vec::new();
		let _ = timeout(Duration::from_secs(30), rx.read_to_end(&mut rest)).await.map_err(|_| "stream not closed".to_string())?;
		ensure!(rest.is_empty(), "{} extra bytes after the last frame", rest.len());
		Ok(())
	}
	info.nontrivial = want.len() > 5000;
	info.label(if c.tcp { "tcp" } else { "unix" });
	if c.tcp {
		rt().block_on(async {
			let (a, b) = tcp_pair().await;
			set_buf(a.as_raw_fd(), libc::SO_SNDBUF, c.sndbuf);
			go(fizyr_rpc::TcpTransport::new(a, conf), b, c, &want).await
		})
	} else {
		rt_paused().block_on(async {
			let (a, b) = tokio::net::UnixStream::pair().unwrap();
			set_buf(a.as_raw_fd(), libc::SO_SNDBUF, c.sndbuf);
			go(StreamTransport::new(a, conf), b, c, &want).await
		})
	}
}

pub fn frame_overflow(ctx: &Arc<Ctx>) {
	let mut cases = Vec::new();
	for len in [u64::from(u32::MAX) - 12, u64::from(u32::MAX) - 11, u64::from(u32::MAX), u64::from(u32::MAX) + 1, u64::from(u32::MAX) + 5] {
		for e in [En::Little, En::Big] {
			cases.push((len, e));
		}
	}
	ctx.fixed("frame-overflow", "body length at the limit of the 32 bit length field", cases, run_huge);
}

pub fn c02(ctx: &Arc<Ctx>) {
	if hooks(ctx) {
		ctx.check(
			"scripted-write",
			Opts { quick: 80_000, thorough: 2_500_000, shards: 8, rule: "the stream split a write, was not ready, or failed at least once" },
			write_case,
			run_write,
		);
		frame_overflow(ctx);
	}
	ctx.check(
		"socket-write",
		Opts { quick: 2_000, thorough: 50_000, shards: 8, rule: "more bytes in total than the socket buffer surely takes at once (5000)" },
		sock_write,
		run_sock_write,
	);
	ctx.assume("inner streams never return Ok(0) for a non-empty write");
}

// ---------------------------------------------------------------------------------------------- C03

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ReadCase {
	e: En,
	msgs: Vec<(Hdr, Bd)>,
	/// Bytes of a last, incomplete frame (0 for none).
	cut: u32,
	plan: Vec<Act>,
	end: End,
}

fn read_case() -> BoxedStrategy<ReadCase> {
	let end = prop_oneof![16 => Just(End::Normal), 2 => (0u32..400).prop_map(End::Error), 1 => (0u32..200_000).prop_map(End::Error)];
	bx((endian(), messages(6), prop_oneof![Just(0u32), 0u32..16, 0u32..5000], plan(6000), end)
		.prop_map(|(e, msgs, cut, plan, end)| ReadCase { e, msgs, cut, plan, end }))
}

fn run_read(c: &ReadCase, info: &mut Info) -> CaseResult {
	let max = c.msgs.iter().map(|m| m.1.len).max().unwrap_or(0);
	let s = Scripted(Default::default());
	let mut ends = Vec::new();
	let mut bytes = Vec::new();
	let mut msgs = c.msgs.clone();
	// With a cut, the last message is incomplete.
	let mut last = None;
	if c.cut > 0 && msgs.len() > 1 {
		last = msgs.pop();
	}
	for (h, b) in &msgs {
		bytes.extend_from_slice(&frame(h, &b.bytes(), c.e));
		ends.push(bytes.len());
	}
	if let Some((h, b)) = last {
		let f = frame(&h, &b.bytes(), c.e);
		bytes.extend_from_slice(&f[..(c.cut as usize).min(f.len() - 1)]);
	}
	{
		let mut i = s.0.lock().unwrap();
		i.bytes = bytes.clone();
		i.plan = c.plan.iter().copied().collect();
		i.end = match c.end {
			End::Normal => None,
			End::Error(n) => Some(n.min(bytes.len() as u32)),
		};
	}
	let mut half = read_half(s.clone(), max, c.e);
	let mut k = 0;
	let mut polls = 0;
	loop {
		polls += 1;
		ensure!(polls < 20_000, "reading never ends");
		let (n, w) = count_waker();
		let r = poll_read(&mut half, &mut Context::from_waker(&w), polls + max);
		let (pos, did_fail) = {
			let i = s.0.lock().unwrap();
			(i.pos, i.failed)
		};
		match r {
			Poll::Ready(Ok(m)) => {
				ensure!(k < msgs.len(), "more messages than were sent: {:?}", m);
				let (h, b) = &msgs[k];
				ensure!(pos >= ends[k], "message {} returned before its last byte was available ({} < {})", k, pos, ends[k]);
				ensure!(Hdr::of(&m.header) == *h, "message {}: header {:?}, expected {:?}", k, m.header, h);
				ensure!(m.body.data == b.bytes(), "message {}: body differs: {}", k, diff(&m.body.data, &b.bytes()));
				k += 1;
			},
			Poll::Ready(Err(e)) => {
				ensure!(k >= ends.iter().filter(|x| **x <= pos).count(), "error before complete message {} was returned: {}", k, e);
				ensure!(e.is_fatal(), "end of the stream is not fatal: {}", e);
				if did_fail {
					info.label("I/O error");
				} else {
					ensure!(pos == bytes.len(), "error in the middle of the stream: {}", e);
					ensure!(e.inner().is_connection_aborted(), "end of the stream is not reported as connection aborted: {}", e);
					info.label(if last.is_some() { "end inside a frame" } else { "end between frames" });
				}
				break;
			},
			Poll::Pending => {
				if !check_pending(&s, &n, &format!("message {}", k))? {
					continue;
				}
				ensure!(k >= msgs.len() || pos < ends[k], "pending although message {} is complete", k);
			},
		}
	}
	let i = s.0.lock().unwrap();
	info.nontrivial = i.partials > 0 || i.pendings > 0;
	info.label_if(i.partials > 0, "split read");
	info.label_if(i.pendings > 0, "not ready");
	info.count("messages", k as u64);
	Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SockRead {
	e: En,
	tcp: bool,
	msgs: Vec<(Hdr, Bd)>,
	/// Sizes of the writes of the sender.
	writes: Vec<u32>,
	cut: bool,
}

fn sock_read() -> BoxedStrategy<SockRead> {
	let body = (prop_oneof![4 => 0u32..100, 2 => 0u32..20_000, 1 => 0u32..100_000, 1 => 0u32..1_000_000], any::<u32>()).prop_map(|(len, seed)| Bd { len, seed });
	let writes = prop::collection::vec(prop_oneof![1u32..20, 1u32..5000, 1u32..100_000, 1u32..1_000_000], 1..8);
	bx((endian(), prop::bool::weighted(0.2), prop::collection::vec((hdr(), body), 1..10), writes, any::<bool>())
		.prop_map(|(e, tcp, msgs, writes, cut)| SockRead { e, tcp, msgs, writes, cut }))
}

fn run_sock_read(c: &SockRead, info: &mut Info) -> CaseResult {
	let mut bytes: Vec<u8> = c.msgs.iter().flat_map(|(h, b)| frame(h, &b.bytes(), c.e)).collect();
	let mut n = c.msgs.len();
	if c.cut {
		bytes.pop();
		n -= 1;
	}
	let conf = config(1 << 20, 1 << 20, c.e);
	async fn go<S, T>(mut t: T, mut tx: S, c: &SockRead, n: usize, bytes: &[u8]) -> CaseResult
	where
		S: AsyncWrite + Unpin,
		T: Transport<Body = StreamBody>,
	{
		let (mut r, _w) = t.split();
		let writer = async move {
			let mut rest = bytes;
			let mut k = 0;
			while !rest.is_empty() {
				let n = (c.writes[k % c.writes.len()] as usize).max(bytes.len() / 5000).min(rest.len());
				k += 1;
				tx.write_all(&rest[..n]).await.map_err(|e| format!("harness write failed: {}", e))?;
				rest = &rest[n..];
				tokio::task::yield_now().await;
			}
			tx.shutdown().await.map_err(|e| format!("harness shutdown failed: {}", e))?;
			Ok::<(), String>(())
		};
		let reader = async {
			for (k, (h, b)) in c.msgs.iter().take(n).enumerate() {
				let m = r.read_msg().await.map_err(|e| format!("message {}: {}", k, e))?;
				ensure!(Hdr::of(&m.header) == *h, "message {}: header {:?}, expected {:?}", k, m.header, h);
				ensure!(m.body.data == b.bytes(), "message {}: body differs: {}", k, diff(&m.body.data, &b.bytes()));
			}
			match r.read_msg().await {
				Ok(m) => Err(format!("message {:?} out of nothing", m)),
				Err(e) => {
					ensure!(e.is_fatal() && e.inner().is_connection_aborted(), "end of stream reported as {:?}", e);
					Ok(())
				},
			}
		};
		let (a, b) = timeout(Duration::from_secs(30), async { tokio::join!(writer, reader) }).await.map_err(|_| "reading stalled".to_string())?;
		a?;
		b
	}
	info.nontrivial = c.msgs.len() > 1 && c.writes.iter().any(|w| (*w as usize) < bytes.len());
	info.label(if c.tcp { "tcp" } else { "unix" });
	if c.tcp {
		rt().block_on(async {
			let (a, b) = tcp_pair().await;
			b.set_nodelay(true).unwrap();
			go(fizyr_rpc::TcpTransport::new(a, conf), b, c, n, &bytes).await
		})
	} else {
		rt_paused().block_on(async {
			let (a, b) = tokio::net::UnixStream::pair().unwrap();
			go(StreamTransport::new(a, conf), b, c, n, &bytes).await
		})
	}
}

pub fn c03(ctx: &Arc<Ctx>) {
	if hooks(ctx) {
		ctx.check(
			"scripted-read",
			Opts { quick: 120_000, thorough: 4_000_000, shards: 8, rule: "a read was split or not ready at least once" },
			read_case,
			run_read,
		);
	}
	ctx.check(
		"socket-read",
		Opts { quick: 2_000, thorough: 50_000, shards: 8, rule: "several messages, written in pieces" },
		sock_read,
		run_sock_read,
	);
}

// ---------------------------------------------------------------------------------------------- C04

/// A piece of a hostile stream.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Piece {
	Valid(Hdr, Bd),
	/// A header with this length field and type, followed by some bytes.
	Raw { len: u32, t: u32, id: u32, svc: i32, data: Bd },
	Garbage(Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hostile {
	e: En,
	limit: u32,
	pieces: Vec<Piece>,
	/// Flip these bits (position modulo length).
	flips: Vec<(u32, u8)>,
	plan: Vec<Act>,
}

fn hostile() -> BoxedStrategy<Hostile> {
	let limit = prop_oneof![Just(0u32), 1u32..50, 50u32..2000, Just(8192u32)];
	bx(limit.prop_flat_map(|limit| {
		let len = prop_oneof![
			3 => 0u32..12,
			2 => 12u32..20,
			2 => (0u32..3).prop_map(move |d| limit.wrapping_add(12).wrapping_add(d).wrapping_sub(1)),
			1 => Just(u32::MAX),
			1 => (0u32..16).prop_map(|d| u32::MAX - d),
			1 => any::<u32>(),
			1 => (0u32..32).prop_map(|s| 1u32 << s),
		];
		let t = prop_oneof![3 => 0u32..5, 2 => 5u32..8, 1 => any::<u32>(), 1 => (0u32..5, 1u32..256).prop_map(|(a, b)| a | b << 8), 1 => (0u32..5).prop_map(|x| x << 24)];
		let bd = (0u32..60, any::<u32>()).prop_map(|(len, seed)| Bd { len, seed });
		let vbd = (0..=limit.min(300), any::<u32>()).prop_map(|(len, seed)| Bd { len, seed });
		let piece = prop_oneof![
			5 => (hdr(), vbd).prop_map(|(h, b)| Piece::Valid(h, b)),
			3 => (len, t, any::<u32>(), any::<i32>(), bd).prop_map(|(len, t, id, svc, data)| Piece::Raw { len, t, id, svc, data }),
			1 => prop::collection::vec(any::<u8>(), 0..40).prop_map(Piece::Garbage),
		];
		(
			endian(),
			Just(limit),
			prop::collection::vec(piece, 1..6),
			prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec((any::<u32>(), 0u8..8), 1..3)],
			plan(200),
		)
	})
	.prop_map(|(e, limit, pieces, flips, plan)| Hostile { e, limit, pieces, flips, plan }))
}

fn hostile_bytes(pieces: &[Piece], flips: &[(u32, u8)], e: En) -> Vec<u8> {
	let mut bytes = Vec::new();
	for p in pieces {
		match p {
			Piece::Valid(h, b) => bytes.extend_from_slice(&frame(h, &b.bytes(), e)),
			Piece::Raw { len, t, id, svc, data } => {
				bytes.extend_from_slice(&e.u32(*len));
				bytes.extend_from_slice(&e.u32(*t));
				bytes.extend_from_slice(&e.u32(*id));
				bytes.extend_from_slice(&e.u32(*svc as u32));
				bytes.extend_from_slice(&data.bytes());
			},
			Piece::Garbage(g) => bytes.extend_from_slice(g),
		}
	}
	if !bytes.is_empty() {
		for (pos, bit) in flips {
			let n = *pos as usize % bytes.len();
			bytes[n] ^= 1 << bit;
		}
	}
	bytes
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Stop {
	/// The stream ends at a frame boundary or inside a frame.
	End,
	/// Invalid frame with its header starting at this offset.
	Invalid(&'static str, usize),
}

/// Reference decoder: messages as (header, body, end offset) and why it stops.
fn reference(bytes: &[u8], limit: u32, e: En) -> (Vec<(Hdr, Vec<u8>, usize)>, Stop) {
	let mut out = Vec::new();
	let mut at = 0;
	loop {
		if bytes.len() - at < 16 {
			return (out, Stop::End);
		}
		let b = &bytes[at..];
		let len = e.read_u32(b);
		let t = e.read_u32(&b[4..]);
		if len < 12 {
			return (out, Stop::Invalid("length below 12", at));
		}
		if t > 4 {
			return (out, Stop::Invalid("unknown message type", at));
		}
		if len - 12 > limit {
			return (out, Stop::Invalid("body over the limit", at));
		}
		let n = len as usize - 12;
		if b.len() < 16 + n {
			return (out, Stop::End);
		}
		let h = Hdr { t: t as u8, id: e.read_u32(&b[8..]), svc: e.read_u32(&b[12..]) as i32 };
		out.push((h, b[16..16 + n].to_vec(), at + 16 + n));
		at += 16 + n;
	}
}

fn run_hostile(c: &Hostile, info: &mut Info) -> CaseResult {
	let bytes = hostile_bytes(&c.pieces, &c.flips, c.e);
	let (want, stop) = reference(&bytes, c.limit, c.e);
	let s = Scripted(Default::default());
	{
		let mut i = s.0.lock().unwrap();
		i.bytes = bytes.clone();
		i.plan = c.plan.iter().copied().collect();
	}
	let mut half = read_half(s.clone(), c.limit, c.e);
	let mut k = 0;
	let mut polls = 0;
	reset_max_alloc();
	loop {
		polls += 1;
		ensure!(polls < 20_000, "reading never ends");
		let (n, w) = count_waker();
		let r = poll_read(&mut half, &mut Context::from_waker(&w), polls);
		let pos = s.0.lock().unwrap().pos;
		match r {
			Poll::Ready(Ok(m)) => {
				ensure!(k < want.len(), "yielded {:?} although the stream is invalid there ({:?})", m, stop);
				let (h, b, end) = &want[k];
				ensure!(Hdr::of(&m.header) == *h && m.body.data == *b, "message {}: got {:?}, expected {:?}", k, m.header, h);
				ensure!(pos >= *end, "message {} yielded before it was complete", k);
				k += 1;
			},
			Poll::Ready(Err(e)) => {
				ensure!(k == want.len(), "error instead of valid message {}: {}", k, e);
				ensure!(e.is_fatal(), "{:?} gives a non-fatal error: {}", stop, e);
				match stop {
					Stop::End => ensure!(e.inner().is_connection_aborted(), "end of the stream reported as {}", e),
					Stop::Invalid(why, _) => {
						ensure!(!e.inner().is_connection_aborted(), "{} reported as end of the stream", why);
						info.label(why);
					},
				}
				break;
			},
			Poll::Pending => {
				if !check_pending(&s, &n, "hostile stream")? {
					continue;
				}
				if let Stop::Invalid(why, at) = stop {
					ensure!(k < want.len() || pos < at + 16, "still waiting for more data after a frame with {}", why);
				}
			},
		}
	}
	let peak = max_alloc();
	ensure!(peak <= c.limit as usize + 65_536, "allocated {} bytes at once with a limit of {}", peak, c.limit);
	info.nontrivial = stop != Stop::End || k > 0;
	info.label_if(stop == Stop::End, "truncated or clean end");
	info.count("messages", k as u64);
	Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct HostilePeer {
	e: En,
	limit: u32,
	valid: Vec<(bool, Bd)>,
	bad: Vec<Piece>,
	/// 0: Unix stream, 1: TCP
	tcp: bool,
	close_after: bool,
}

fn hostile_peer() -> BoxedStrategy<HostilePeer> {
	let len = prop_oneof![3 => 0u32..12, 2 => 400u32..5000, 1 => Just(u32::MAX), 1 => Just(12u32)];
	let t = prop_oneof![1 => 0u32..5, 2 => 5u32..300, 1 => any::<u32>()];
	let bd = (0u32..60, any::<u32>()).prop_map(|(len, seed)| Bd { len, seed });
	let bad = (len, t, any::<u32>(), any::<i32>(), bd).prop_map(|(len, t, id, svc, data)| Piece::Raw { len, t, id, svc, data });
	let vbd = (0u32..=300, any::<u32>()).prop_map(|(len, seed)| Bd { len, seed });
	bx((endian(), 300u32..350, prop::collection::vec((any::<bool>(), vbd), 0..6), prop::collection::vec(bad, 1..3), prop::bool::weighted(0.15), any::<bool>())
		.prop_map(|(e, limit, valid, bad, tcp, close_after)| HostilePeer { e, limit, valid, bad, tcp, close_after }))
}

fn run_hostile_peer(c: &HostilePeer, info: &mut Info) -> CaseResult {
	let mut bytes = Vec::new();
	for (k, (request, b)) in c.valid.iter().enumerate() {
		let h = if *request { Hdr { t: 0, id: k as u32 * 7, svc: k as i32 } } else { Hdr { t: 4, id: 0, svc: k as i32 } };
		bytes.extend_from_slice(&frame(&h, &b.bytes(), c.e));
	}
	let valid_len = bytes.len();
	bytes.extend_from_slice(&hostile_bytes(&c.bad, &[], c.e));
	let (want, stop) = reference(&bytes, c.limit, c.e);
	// Only messages that are no protocol violation by themselves may precede the invalid frame.
	let at = match stop {
		Stop::Invalid(why, at) if want.len() == c.valid.len() => {
			info.label(why);
			at
		},
		_ => return Ok(()),
	};
	assert_eq!(at, valid_len);
	info.nontrivial = true;
	info.label(if c.tcp { "tcp" } else { "unix" });
	let conf = config(c.limit, 1000, c.e);

	async fn go<S, T>(t: T, mut sock: S, c: &HostilePeer, bytes: &[u8], want: &[(Hdr, Vec<u8>, usize)]) -> CaseResult
	where
		S: AsyncRead + AsyncWrite + Unpin,
		T: Transport<Body = StreamBody>,
	{
		let limit = Duration::from_secs(30);
		let (peer, handle) = Peer::new(t);
		let (mut read, write) = handle.split();
		let run = tokio::task::spawn_local(peer.run());
		let early = write.send_request(5, vec![1, 2, 3]);
		let mut early = timeout(limit, early).await.map_err(|_| "send_request stalled")?.map_err(|e| format!("send_request failed: {}", e))?;
		sock.write_all(bytes).await.map_err(|e| format!("harness write failed: {}", e))?;
		if c.close_after {
			let _ = sock.shutdown().await;
		}
		let mut kept = Vec::new();
		for (k, (h, b, _)) in want.iter().enumerate() {
			let m = timeout(limit, read.recv_message()).await.map_err(|_| format!("valid message {} is not delivered", k))?;
			let (gh, gb) = match m {
				Ok(ReceivedMessage::Request(r, body)) => {
					let gh = Hdr { t: 0, id: r.request_id(), svc: r.service_id() };
					kept.push(r);
					(gh, body)
				},
				Ok(ReceivedMessage::Stream(m)) => (Hdr::of(&m.header), m.body),
				Err(e) => return Err(format!("valid message {} reported as error: {}", k, e)),
			};
			ensure!(gh == *h && gb.data == *b, "message {}: got {:?}, expected {:?}", k, gh, h);
		}
		match timeout(limit, read.recv_message()).await.map_err(|_| "the invalid frame is not reported")? {
			Ok(m) => return Err(format!("invalid frame delivered as {:?}", m)),
			Err(e) => ensure!(!e.is_connection_aborted(), "invalid frame reported as {}", e),
		}
		for _ in 0..2 {
			match timeout(limit, read.recv_message()).await.map_err(|_| "recv_message hangs after a fatal error")? {
				Ok(m) => return Err(format!("message after a fatal error: {:?}", m)),
				Err(e) => ensure!(e.is_connection_aborted(), "second error after a fatal error: {}", e),
			}
		}
		timeout(limit, run).await.map_err(|_| "the peer keeps running after a fatal error")?.map_err(|e| format!("peer panicked: {}", e))?;
		let r = timeout(limit, early.recv_response()).await.map_err(|_| "recv_response hangs after a fatal error")?;
		ensure!(r.is_err(), "response out of nothing");
		ensure!(timeout(limit, early.recv_update()).await.map_err(|_| "recv_update hangs after a fatal error")?.is_none(), "update out of nothing");
		ensure!(timeout(limit, early.send_update(1, vec![])).await.map_err(|_| "send_update hangs after a fatal error")?.is_err(), "send_update works after a fatal error");
		ensure!(timeout(limit, write.send_stream(1, vec![])).await.map_err(|_| "send_stream hangs after a fatal error")?.is_err(), "send_stream works after a fatal error");
		ensure!(timeout(limit, write.send_request(1, vec![])).await.map_err(|_| "send_request hangs after a fatal error")?.is_err(), "send_request works after a fatal error");
		for mut r in kept {
			ensure!(timeout(limit, r.send_response(1, vec![])).await.map_err(|_| "send_response hangs after a fatal error")?.is_err(), "send_response works after a fatal error");
			ensure!(timeout(limit, r.recv_update()).await.map_err(|_| "recv_update hangs after a fatal error")?.is_none(), "update out of nothing");
		}
		// The remote sees the request and then the end of the connection.
		let mut got = Vec::new();
		let _: Result<_, _> = timeout(limit, sock.read_to_end(&mut got)).await.map_err(|_| "the connection is not closed after a fatal error")?;
		Ok(())
	}

	if c.tcp {
		rt().block_on(tokio::task::LocalSet::new().run_until(async {
			let (a, b) = tcp_pair().await;
			go(fizyr_rpc::TcpTransport::new(a, conf), b, c, &bytes, &want).await
		}))
	} else {
		rt_paused().block_on(tokio::task::LocalSet::new().run_until(async {
			let (a, b) = tokio::net::UnixStream::pair().unwrap();
			go(StreamTransport::new(a, conf), b, c, &bytes, &want).await
		}))
	}
}

pub fn c04(ctx: &Arc<Ctx>) {
	if hooks(ctx) {
		ctx.check(
			"decode",
			Opts { quick: 200_000, thorough: 6_000_000, shards: 8, rule: "the stream has an invalid frame or at least one valid message" },
			hostile,
			run_hostile,
		);
	}
	ctx.check(
		"peer",
		Opts { quick: 4_000, thorough: 100_000, shards: 8, rule: "an invalid frame follows the valid messages" },
		hostile_peer,
		run_hostile_peer,
	);
}

