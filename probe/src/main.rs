//! A program that uses the library built with one choice of features.
//! It reads cases (lines of numbers) and writes down everything that can be observed when they are run.
use fizyr_rpc::transport::{Transport, TransportError, TransportReadHalf, TransportWriteHalf};
use fizyr_rpc::{Body, Error, Message, MessageHeader, Peer, PeerHandle, PeerReadHandle, PeerWriteHandle, ReceivedMessage, ReceivedRequestHandle, RecvMessageError, SentRequestHandle, StreamBody};
use std::collections::VecDeque;
use std::fmt::Write;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

// A transport of its own, which needs no feature.
#[derive(Default)]
struct Chan {
	queue: VecDeque<(MessageHeader, Vec<u8>)>,
	waker: Option<Waker>,
}
struct Mem(Arc<Mutex<Chan>>, Arc<Mutex<Chan>>);
struct MemRead<'a>(&'a Mutex<Chan>);
struct MemWrite<'a>(&'a Mutex<Chan>);
impl Transport for Mem {
	type Body = StreamBody;
	type Info = ();
	type Config = ();
	type ReadHalf<'a> = MemRead<'a>;
	type WriteHalf<'a> = MemWrite<'a>;
	fn split(&mut self) -> (MemRead<'_>, MemWrite<'_>) {
		(MemRead(&self.0), MemWrite(&self.1))
	}
	fn info(&self) -> std::io::Result<()> {
		Ok(())
	}
}
impl TransportReadHalf for MemRead<'_> {
	type Body = StreamBody;
	fn poll_read_msg(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<Message<StreamBody>, TransportError>> {
		let mut c = self.0.lock().unwrap();
		match c.queue.pop_front() {
			Some((h, b)) => Poll::Ready(Ok(Message::new(h, b.into()))),
			None => {
				c.waker = Some(cx.waker().clone());
				Poll::Pending
			},
		}
	}
}
impl TransportWriteHalf for MemWrite<'_> {
	type Body = StreamBody;
	fn poll_write_msg(self: Pin<&mut Self>, _: &mut Context, h: &MessageHeader, b: &StreamBody) -> Poll<Result<(), TransportError>> {
		let mut c = self.0.lock().unwrap();
		c.queue.push_back((*h, b.as_ref().to_vec()));
		if let Some(w) = c.waker.take() {
			w.wake();
		}
		Poll::Ready(Ok(()))
	}
}

trait TestBody: Body + Sync {
	fn make(data: Vec<u8>, fds: usize) -> Self;
	fn show(&self) -> String;
}
fn show(data: &[u8]) -> String {
	let sum = data.iter().fold(7u32, |s, b| s.wrapping_mul(31).wrapping_add(*b as u32));
	format!("{} bytes {:?} {sum:x}", data.len(), &data[..data.len().min(6)])
}
impl TestBody for StreamBody {
	fn make(data: Vec<u8>, _: usize) -> Self {
		data.into()
	}
	fn show(&self) -> String {
		show(self.as_ref())
	}
}
#[cfg(feature = "unix-seqpacket")]
impl TestBody for fizyr_rpc::UnixBody {
	fn make(data: Vec<u8>, fds: usize) -> Self {
		let mut body = Self::from(data);
		for _ in 0..fds {
			body.fds.push(std::os::fd::OwnedFd::from(std::fs::File::open("/dev/null").unwrap()).into());
		}
		body
	}
	fn show(&self) -> String {
		format!("{} {} fds", show(&self.data), self.fds.len())
	}
}

async fn within<T>(f: impl Future<Output = T>) -> Result<T, String> {
	tokio::time::timeout(Duration::from_secs(5), f).await.map_err(|_| "TIMEOUT".to_string())
}

fn error(e: &Error) -> String {
	format!("error {e:?} / {e} / {} {} {} {:?}", e.is_connection_aborted(), e.is_unexpected_message_type(), e.is_remote_error(), e.as_remote_error())
}

fn message<B: TestBody>(m: &Message<B>) -> String {
	format!("{:?} {}", m.header, m.body.show())
}

struct Side<B> {
	read: Option<PeerReadHandle<B>>,
	write: Option<PeerWriteHandle<B>>,
	more: Vec<PeerWriteHandle<B>>,
}

struct Req<B> {
	from: usize,
	sent: Option<SentRequestHandle<B>>,
	received: Option<ReceivedRequestHandle<B>>,
	done: bool,
}

struct Talk<B> {
	sides: [Side<B>; 2],
	reqs: Vec<Req<B>>,
	over: bool,
	out: String,
}

fn data(len: u64, fill: u64) -> Vec<u8> {
	(0..len).map(|k| (k.wrapping_mul(fill | 1) >> 3) as u8 ^ fill as u8).collect()
}

impl<B: TestBody> Talk<B> {
	fn new(a: PeerHandle<B>, b: PeerHandle<B>) -> Self {
		let side = |h: PeerHandle<B>| {
			let (read, write) = h.split();
			Side { read: Some(read), write: Some(write), more: Vec::new() }
		};
		Self { sides: [side(a), side(b)], reqs: Vec::new(), over: false, out: String::new() }
	}
	fn log(&mut self, what: &str, r: impl std::fmt::Display) {
		let _ = writeln!(self.out, "{what}: {r}");
	}
	/// Receive the next message of this side and write it down.
	async fn receive(&mut self, side: usize) -> Option<ReceivedRequestHandle<B>> {
		let Some(read) = &mut self.sides[side].read else {
			self.log("receive", "no handle");
			return None;
		};
		let (text, handle) = match within(read.recv_message()).await {
			Err(e) => (e, None),
			Ok(Ok(ReceivedMessage::Request(h, b))) => (format!("request {} {} {}", h.request_id(), h.service_id(), b.show()), Some(h)),
			Ok(Ok(ReceivedMessage::Stream(m))) => (format!("stream {} {}", m.header.service_id, m.body.show()), None),
			Ok(Err(e)) => (error(&e), None),
		};
		self.log("receive", text);
		handle
	}
	fn pick(&self, k: u64) -> Option<usize> {
		(!self.reqs.is_empty()).then(|| (k % self.reqs.len() as u64) as usize)
	}
	async fn step(&mut self, op: [u64; 4]) {
		let [kind, a, b, c] = op;
		let fds = (c >> 8 & 3) as usize;
		let body = || B::make(data(c & 0xff, b), fds);
		let service = b as i32 - 3;
		match kind {
			0 | 1 => {
				let s = (a & 1) as usize;
				let Some(w) = &self.sides[s].write else { return };
				match within(w.send_request(service, body())).await {
					Err(e) => self.log("request", e),
					Ok(Err(e)) => {
						let e = error(&e);
						self.log("request", e)
					},
					Ok(Ok(h)) => {
						self.log("request", format!("{} {}", h.request_id(), h.service_id()));
						let received = if self.over || self.sides[1 - s].read.is_none() { None } else { self.receive(1 - s).await };
						if self.sides[1 - s].read.is_none() && !self.over {
							let mut h = h;
							let r = within(h.recv_response()).await;
							self.log("refused", r.map_or_else(|e| e, |r| r.map_or_else(|e| error(&e), |m| message(&m))));
							return;
						}
						self.reqs.push(Req { from: s, sent: Some(h), received, done: false });
					},
				}
			},
			2 => {
				let s = (a & 1) as usize;
				let Some(w) = &self.sides[s].write else { return };
				let r = within(w.send_stream(service, body())).await;
				let ok = matches!(r, Ok(Ok(())));
				self.log("stream", r.map_or_else(|e| e, |r| r.map_or_else(|e| error(&e), |()| "sent".into())));
				if ok && !self.over && self.sides[1 - s].read.is_some() {
					self.receive(1 - s).await;
				}
			},
			3 => {
				let Some(k) = self.pick(a) else { return };
				let r = &mut self.reqs[k];
				let (Some(sent), Some(received)) = (&r.sent, &mut r.received) else { return };
				let done = r.done;
				let x = within(sent.send_update(service, body())).await;
				let ok = matches!(x, Ok(Ok(())));
				let mut text = x.map_or_else(|e| e, |x| x.map_or_else(|e| error(&e), |()| "sent".into()));
				if ok && !done && !self.over {
					text += &match within(received.recv_update()).await {
						Err(e) => e,
						Ok(None) => "none".into(),
						Ok(Some(m)) => message(&m),
					};
				}
				self.log("requester update", text);
			},
			4 => {
				let Some(k) = self.pick(a) else { return };
				let r = &mut self.reqs[k];
				let Some(received) = &r.received else { return };
				let x = within(received.send_update(service, body())).await;
				let ok = matches!(x, Ok(Ok(())));
				let mut text = x.map_or_else(|e| e, |x| x.map_or_else(|e| error(&e), |()| "sent".into()));
				let from = r.from;
				if ok && !self.over {
					match &mut r.sent {
						Some(sent) => {
							text += &match within(sent.recv_update()).await {
								Err(e) => e,
								Ok(None) => "none".into(),
								Ok(Some(m)) => message(&m),
							};
							self.log("responder update", text);
						},
						None => {
							self.log("responder update", text);
							if self.sides[from].read.is_some() {
								self.receive(from).await;
							}
						},
					}
				} else {
					self.log("responder update", text);
				}
			},
			5 | 6 => {
				let Some(k) = self.pick(a) else { return };
				let r = &mut self.reqs[k];
				let (Some(sent), Some(received)) = (&mut r.sent, &r.received) else { return };
				let x = match kind {
					5 => within(received.send_response(service, body())).await,
					_ => within(received.send_error_response(&format!("failure {b} é"))).await,
				};
				let ok = matches!(x, Ok(Ok(())));
				let mut text = x.map_or_else(|e| e, |x| x.map_or_else(|e| error(&e), |()| "sent ".into()));
				if ok && !self.over {
					r.done = true;
					if c & 1 == 0 {
						text += &match within(sent.recv_update()).await {
							Err(e) => e,
							Ok(None) => "no update, ".into(),
							Ok(Some(m)) => message(&m),
						};
					}
					text += &match within(sent.recv_response()).await {
						Err(e) => e,
						Ok(Ok(m)) => message(&m),
						Ok(Err(e)) => error(&e),
					};
				}
				self.log("response", text);
			},
			// A second response, through another handle of the request.
			7 => {
				let Some(k) = self.pick(a) else { return };
				let r = &self.reqs[k];
				if !r.done {
					return;
				}
				let Some(received) = &r.received else { return };
				let x = within(received.write_handle().send_response(service, body())).await;
				self.log("second response", x.map_or_else(|e| e, |x| x.map_or_else(|e| error(&e), |()| "sent".into())));
			},
			8 => {
				let Some(k) = self.pick(a) else { return };
				self.reqs[k].sent = None;
				tokio::task::yield_now().await;
			},
			9 => {
				let Some(k) = self.pick(a) else { return };
				self.reqs[k].received = None;
			},
			10 => {
				let s = (a & 1) as usize;
				if let Some(w) = &self.sides[s].write {
					let w = w.clone();
					let same = w.same_peer(self.sides[s].write.as_ref().unwrap());
					self.sides[s].more.push(w);
					self.log("clone", same);
				}
			},
			11 => {
				self.sides[(a & 1) as usize].more.pop();
			},
			12 => {
				if self.over || b & 3 != 0 {
					return;
				}
				let s = (a & 1) as usize;
				match &self.sides[s].write {
					Some(w) => w.close(),
					None => return,
				}
				self.over = true;
				self.log("close", s);
				if self.sides[s].read.is_some() {
					self.receive(s).await;
				}
				for k in 0..self.reqs.len() {
					let r = &mut self.reqs[k];
					if r.from == s && !r.done {
						if let Some(sent) = &mut r.sent {
							let x = within(sent.recv_response()).await;
							self.log("open request", x.map_or_else(|e| e, |x| x.map_or_else(|e| error(&e), |m| message(&m))));
						}
					}
				}
			},
			13 => {
				if b & 3 == 0 && !self.over {
					self.sides[(a & 1) as usize].read = None;
					tokio::task::yield_now().await;
				}
			},
			_ => (),
		}
	}
	async fn run(mut self, ops: &[[u64; 4]]) -> String {
		for op in ops {
			self.step(*op).await;
			if self.over {
				break;
			}
		}
		self.out
	}
}

fn unused() -> u32 {
	use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
	static NEXT: AtomicU32 = AtomicU32::new(0);
	NEXT.fetch_add(1, Relaxed)
}

#[allow(unused)]
fn scratch() -> std::path::PathBuf {
	std::env::temp_dir().join(format!("p{}-{}", std::process::id(), unused()))
}

/// Connect the two ends through a listener.
macro_rules! pair {
	($listener:ty, $peer:ty, $address:expr, $bind:expr, $config:expr, $stale:expr, $ops:expr, $show:expr) => {{
		if $stale {
			// Leave something behind at the address.
			let _ = <$listener>::bind($bind, $config).await;
		}
		let mut listener = match <$listener>::bind($bind, $config).await {
			Ok(x) => x,
			Err(e) => return format!("bind: {e:?}"),
		};
		let accept = async { listener.accept().await };
		let connect = async { <$peer>::connect($address, $config).await };
		let mut accept = Box::pin(accept);
		let mut connect = Box::pin(connect);
		let (mut a, mut b) = (None, None);
		let r = within(std::future::poll_fn(|cx| {
			if a.is_none() {
				if let Poll::Ready(x) = accept.as_mut().poll(cx) {
					a = Some(x);
				}
			}
			if b.is_none() {
				if let Poll::Ready(x) = connect.as_mut().poll(cx) {
					b = Some(x);
				}
			}
			if a.is_some() && b.is_some() {
				Poll::Ready(())
			} else {
				Poll::Pending
			}
		}))
		.await;
		if r.is_err() {
			return "connecting: TIMEOUT".into();
		}
		match (a.unwrap(), b.unwrap()) {
			(Ok((a, ai)), Ok((b, bi))) => {
				let head = format!("accepted {} connected {}\n", $show(&ai), $show(&bi));
				head + &Talk::new(b, a).run($ops).await
			},
			(a, b) => format!("accept {:?} connect {:?}", a.err(), b.err()),
		}
	}};
}

#[allow(unused)]
async fn talk(net: u64, limit: u64, ops: &[[u64; 4]]) -> String {
	match net {
		0 => {
			let (x, y) = (Arc::new(Mutex::new(Chan::default())), Arc::new(Mutex::new(Chan::default())));
			let (a, b) = (Mem(x.clone(), y.clone()), Mem(y, x));
			Talk::new(Peer::spawn(a), Peer::spawn(b)).run(ops).await
		},
		#[cfg(feature = "tcp")]
		1 => {
			let pid = std::process::id();
			let ip = std::net::Ipv4Addr::new(127, (pid >> 16) as u8 & 0x7f, (pid >> 8) as u8, (pid as u8).max(1));
			let at = (ip, 20000 + (unused() % 10000) as u16);
			let mut config = fizyr_rpc::StreamConfig::default();
			config.max_body_len_read = limit as u32;
			config.max_body_len_write = limit as u32;
			pair!(fizyr_rpc::TcpListener, fizyr_rpc::TcpPeer, at, at, config.clone(), false, ops, |i: &fizyr_rpc::transport::TcpStreamInfo| {
				format!("{} {}", i.remote_address().ip() == at.0, i.local_address().ip() == at.0)
			})
		},
		#[cfg(feature = "unix-stream")]
		2 => {
			let path = scratch();
			let mut config = fizyr_rpc::StreamConfig::default();
			config.max_body_len_read = limit as u32;
			config.max_body_len_write = limit as u32;
			let r = async {
				pair!(fizyr_rpc::UnixStreamListener, fizyr_rpc::UnixStreamPeer, &path, &path, config.clone(), limit & 1 == 1, ops, |i: &fizyr_rpc::transport::UnixStreamInfo| {
					format!("{} {} {}", i.user_id(), i.group_id(), i.process_id() == Some(std::process::id() as i32))
				})
			}
			.await;
			let _ = std::fs::remove_file(&path);
			r
		},
		#[cfg(feature = "unix-seqpacket")]
		3 => {
			let path = scratch();
			let mut config = fizyr_rpc::UnixConfig::default();
			config.max_body_len_read = limit as u32;
			config.max_body_len_write = limit as u32;
			config.max_fds_read = 2;
			config.max_fds_write = 2;
			let r = async {
				pair!(fizyr_rpc::UnixSeqpacketListener, fizyr_rpc::UnixSeqpacketPeer, &path, &path, config.clone(), limit & 1 == 1, ops, |i: &fizyr_rpc::transport::UnixSeqpacketInfo| {
					format!("{} {} {}", i.user_id(), i.group_id(), i.process_id() == Some(std::process::id() as i32))
				})
			}
			.await;
			let _ = std::fs::remove_file(&path);
			r
		},
		#[cfg(feature = "macros")]
		4 => typed::talk(ops).await,
		_ => "not available".into(),
	}
}

#[cfg(feature = "macros")]
mod typed;

fn main() {
	std::panic::set_hook(Box::new(|info| {
		let what = info.payload().downcast_ref::<&str>().map(|x| x.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
		PANICS.lock().unwrap().push(what);
	}));
	for line in std::io::stdin().lines() {
		let Ok(line) = line else { break };
		let v: Vec<u64> = line.split_whitespace().filter_map(|x| x.parse().ok()).collect();
		let ops: Vec<[u64; 4]> = v[2..].chunks_exact(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
		let r = std::panic::catch_unwind(|| {
			let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
			rt.block_on(talk(v[0], v[1], &ops))
		});
		println!("{}", r.unwrap_or_else(|_| "panicked\n".into()));
		for p in std::mem::take(&mut *PANICS.lock().unwrap()) {
			println!("PANIC {p}");
		}
		println!(".");
	}
}

#[allow(unused)]
type Unused<B> = RecvMessageError<B>;
