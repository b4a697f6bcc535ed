//! C18 (listeners serve every connection) and C19 (binding Unix listeners), on real sockets.
use crate::fw::*;
use crate::limits::AsBytes;
use crate::util::{endian, timeout, En, Hdr};
use fizyr_rpc::transport::{StreamTransport, Transport, UnixTransport};
use fizyr_rpc::{util, Body, Listener, ListeningSocket, PeerHandle, PeerReadHandle, PeerWriteHandle, ReceivedMessage, SentRequestHandle};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::os::fd::{AsRawFd, FromRawFd, IntoRawFd, OwnedFd};
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;
use tokio_seqpacket::{UnixSeqpacket, UnixSeqpacketListener};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Net {
	Tcp,
	Unix,
	Seq,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Mode {
	Run,
	Accept,
	/// Give up accepting after some polls and start again.
	AcceptCancel,
	/// Drop the future of run() now and then, and start again.
	RunCancel,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Good {
	/// Send a request and go on.
	Fire(u16),
	/// Send a request and wait for the responses to all requests.
	Echo(u16),
	Stream(u16),
	/// Ask for a response with a body of this length relative to the limit.
	Reply(i8),
	/// Send a request that is larger than the listener allows.
	Over,
	/// Make the handler task panic.
	Panic,
	/// Make the handler task drop the handle.
	Leave,
	Yield(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ill {
	Raw(Vec<u8>),
	/// Send requests until nothing fits, and never read.
	Flood,
	Shut,
	Close,
	Reset,
	Yield(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Client {
	/// Connected with Peer::connect, or with other credentials.
	Good { connect: bool, acts: Vec<Good> },
	/// Does everything before the listener can accept.
	Ill { hurry: bool, acts: Vec<Ill> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
	net: Net,
	mode: Mode,
	en: En,
	/// Limits for reading and writing.
	max: (u16, u16),
	clients: Vec<Client>,
	order: Vec<u8>,
	#[serde(default)]
	way: Way,
	/// How many times the socket is polled before each of its errors.
	#[serde(default)]
	faults: Vec<u8>,
	/// Whether the listener is dropped while there are connections.
	#[serde(default)]
	retire: bool,
}

// ---------------------------------------------------------------- sockets

/// How the listening socket is reached.
#[derive(Clone, Copy, Debug, Default, PartialEq, Serialize, Deserialize)]
enum Way {
	#[default]
	Plain,
	Mut,
	Box,
	Pin,
	Future,
}

const FAULT: &str = "injected error";

thread_local! {
	/// Errors that the sockets of this thread have returned.
	static FAILED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// A listening socket of our own, on top of one of the library.
struct Any<L> {
	inner: Box<L>,
	way: Way,
	/// Before the next of these number of polls, fail.
	faults: std::collections::VecDeque<u8>,
}

impl<L> Any<L> {
	fn new(inner: L, c: &Case) -> Self {
		Self { inner: Box::new(inner), way: c.way, faults: c.faults.iter().copied().collect() }
	}
}

impl<L: util::Listener + Unpin> util::Listener for Any<L> {
	type Connection = L::Connection;
	type Address = L::Address;

	fn poll_accept(self: Pin<&mut Self>, cx: &mut Context) -> Poll<std::io::Result<(L::Connection, L::Address)>> {
		let me = self.get_mut();
		match me.faults.front_mut() {
			Some(0) => {
				me.faults.pop_front();
				FAILED.with(|x| x.set(x.get() + 1));
				return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::Other, FAULT)));
			},
			Some(n) => *n -= 1,
			None => (),
		}
		match me.way {
			Way::Plain => Pin::new(&mut *me.inner).poll_accept(cx),
			Way::Mut => Pin::new(&mut &mut *me.inner).poll_accept(cx),
			Way::Box => Pin::new(&mut me.inner).poll_accept(cx),
			Way::Pin => Pin::new(&mut Pin::new(&mut *me.inner)).poll_accept(cx),
			Way::Future => Pin::new(&mut me.inner.accept()).poll(cx),
		}
	}
}

/// Bind like the wrapped socket does.
struct Where<'a>(&'a Path, &'a Case);

impl<'a, L> util::Bind<'a, Where<'a>> for Any<L>
where
	L: util::Listener + util::Bind<'a, &'a Path> + Unpin + 'a,
{
	type Future = Pin<Box<dyn Future<Output = std::io::Result<Self>> + 'a>>;
	fn bind(w: Where<'a>) -> Self::Future {
		let f = L::bind(w.0);
		Box::pin(async move { Ok(Any::new(f.await?, w.1)) })
	}
}

/// The listener's and the remote's view of a connection.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Id {
	Tcp(std::net::SocketAddr, std::net::SocketAddr),
	Unix(u32, u32, Option<i32>),
}

trait Socket: ListeningSocket<Body = Self::B, Config = Self::C, Transport = Self::T, TransportInfo = Self::I> + Sized + 'static {
	type B: Body + From<Vec<u8>> + AsBytes + Send;
	type C: Clone + Send + Sync + 'static;
	type T: Transport<Body = Self::B, Info = Self::I, Config = Self::C> + Send + 'static;
	type I: Send + 'static;
	fn id(i: &Self::I) -> Id;
	fn config(c: &Case) -> Self::C;
	fn client_config(c: &Case) -> Self::C;
	async fn listen(path: &Path, config: Self::C, c: &Case) -> Result<(Listener<Self>, At), String>;
	async fn connect(at: &At, config: Self::C) -> std::io::Result<(PeerHandle<Self::B>, Self::I)>;
	fn transport(fd: OwnedFd, config: Self::C) -> Self::T;
}

#[derive(Clone, Debug)]
enum At {
	Tcp(std::net::SocketAddr),
	Path(PathBuf),
}

pub fn me() -> (u32, u32, Option<i32>) {
	unsafe { (libc::geteuid(), libc::getegid(), Some(libc::getpid())) }
}

impl Socket for Any<tokio::net::TcpListener> {
	type B = fizyr_rpc::StreamBody;
	type C = fizyr_rpc::StreamConfig;
	type T = StreamTransport<tokio::net::TcpStream>;
	type I = fizyr_rpc::transport::TcpStreamInfo;
	fn id(i: &Self::I) -> Id {
		Id::Tcp(*i.local_address(), *i.remote_address())
	}
	fn config(c: &Case) -> Self::C {
		crate::stream::config(c.max.0 as u32, c.max.1 as u32, c.en)
	}
	fn client_config(c: &Case) -> Self::C {
		crate::stream::config(u32::MAX, u32::MAX, c.en)
	}
	async fn listen(_path: &Path, config: Self::C, c: &Case) -> Result<(Listener<Self>, At), String> {
		let s = tokio::net::TcpListener::bind("127.0.0.1:0").await.map_err(|e| format!("harness: {e}"))?;
		let at = At::Tcp(s.local_addr().unwrap());
		Ok((Listener::new(Any::new(s, c), config), at))
	}
	async fn connect(at: &At, config: Self::C) -> std::io::Result<(PeerHandle<Self::B>, Self::I)> {
		let At::Tcp(a) = at else { unreachable!() };
		fizyr_rpc::TcpPeer::connect(*a, config).await
	}
	fn transport(fd: OwnedFd, config: Self::C) -> Self::T {
		let s = std::net::TcpStream::from(fd);
		s.set_nonblocking(true).unwrap();
		StreamTransport::new(tokio::net::TcpStream::from_std(s).unwrap(), config)
	}
}

impl Socket for Any<tokio::net::UnixListener> {
	type B = fizyr_rpc::StreamBody;
	type C = fizyr_rpc::StreamConfig;
	type T = StreamTransport<tokio::net::UnixStream>;
	type I = fizyr_rpc::transport::UnixStreamInfo;
	fn id(i: &Self::I) -> Id {
		Id::Unix(i.user_id(), i.group_id(), i.process_id())
	}
	fn config(c: &Case) -> Self::C {
		crate::stream::config(c.max.0 as u32, c.max.1 as u32, c.en)
	}
	fn client_config(c: &Case) -> Self::C {
		crate::stream::config(u32::MAX, u32::MAX, c.en)
	}
	async fn listen(path: &Path, config: Self::C, c: &Case) -> Result<(Listener<Self>, At), String> {
		let l = Listener::bind(Where(path, c), config).await.map_err(|e| format!("bind failed: {e}"))?;
		Ok((l, At::Path(path.into())))
	}
	async fn connect(at: &At, config: Self::C) -> std::io::Result<(PeerHandle<Self::B>, Self::I)> {
		let At::Path(a) = at else { unreachable!() };
		fizyr_rpc::UnixStreamPeer::connect(a, config).await
	}
	fn transport(fd: OwnedFd, config: Self::C) -> Self::T {
		let s = std::os::unix::net::UnixStream::from(fd);
		s.set_nonblocking(true).unwrap();
		StreamTransport::new(tokio::net::UnixStream::from_std(s).unwrap(), config)
	}
}

impl Socket for Any<UnixSeqpacketListener> {
	type B = fizyr_rpc::UnixBody;
	type C = fizyr_rpc::UnixConfig;
	type T = UnixTransport<UnixSeqpacket>;
	type I = fizyr_rpc::transport::UnixSeqpacketInfo;
	fn id(i: &Self::I) -> Id {
		Id::Unix(i.user_id(), i.group_id(), i.process_id())
	}
	fn config(c: &Case) -> Self::C {
		crate::seq::config(c.max.0 as u32, c.max.1 as u32, 3, 3, c.en)
	}
	fn client_config(c: &Case) -> Self::C {
		crate::seq::config(8000, 8000, 3, 3, c.en)
	}
	async fn listen(path: &Path, config: Self::C, c: &Case) -> Result<(Listener<Self>, At), String> {
		let l = Listener::bind(Where(path, c), config).await.map_err(|e| format!("bind failed: {e}"))?;
		Ok((l, At::Path(path.into())))
	}
	async fn connect(at: &At, config: Self::C) -> std::io::Result<(PeerHandle<Self::B>, Self::I)> {
		let At::Path(a) = at else { unreachable!() };
		fizyr_rpc::UnixSeqpacketPeer::connect(a, config).await
	}
	fn transport(fd: OwnedFd, config: Self::C) -> Self::T {
		unsafe {
			let fd = fd.into_raw_fd();
			let fl = libc::fcntl(fd, libc::F_GETFL);
			libc::fcntl(fd, libc::F_SETFL, fl | libc::O_NONBLOCK);
			UnixTransport::new(UnixSeqpacket::from_raw_fd(fd).unwrap(), config)
		}
	}
}

pub fn sockaddr(path: &Path) -> Option<libc::sockaddr_un> {
	use std::os::unix::ffi::OsStrExt;
	let b = path.as_os_str().as_bytes();
	unsafe {
		let mut a: libc::sockaddr_un = std::mem::zeroed();
		a.sun_family = libc::AF_UNIX as _;
		if b.len() >= a.sun_path.len() {
			return None;
		}
		for (x, y) in a.sun_path.iter_mut().zip(b) {
			*x = *y as _;
		}
		Some(a)
	}
}

/// Connect without giving the listener a chance to run.
fn connect_raw(net: Net, at: &At) -> std::io::Result<OwnedFd> {
	match at {
		At::Tcp(a) => Ok(std::net::TcpStream::connect(a)?.into()),
		At::Path(p) => unsafe {
			let t = if net == Net::Seq { libc::SOCK_SEQPACKET } else { libc::SOCK_STREAM };
			let fd = libc::socket(libc::AF_UNIX, t | libc::SOCK_CLOEXEC, 0);
			if fd < 0 {
				return Err(std::io::Error::last_os_error());
			}
			let fd = OwnedFd::from_raw_fd(fd);
			let a = sockaddr(p).expect("path too long");
			if libc::connect(fd.as_raw_fd(), &a as *const _ as *const _, std::mem::size_of_val(&a) as _) != 0 {
				return Err(std::io::Error::last_os_error());
			}
			Ok(fd)
		},
	}
}

/// Connect from a thread with its own credentials, if that is possible.
fn connect_as(net: Net, at: &At, uid: u32, gid: u32) -> std::io::Result<(OwnedFd, (u32, u32, Option<i32>))> {
	let at = at.clone();
	std::thread::spawn(move || {
		let mut who = me();
		if matches!(at, At::Path(_)) {
			unsafe {
				if who.0 == 0 && libc::syscall(libc::SYS_setresgid, gid, gid, gid) == 0 {
					who.1 = gid;
					if libc::syscall(libc::SYS_setresuid, uid, uid, uid) == 0 {
						who.0 = uid;
					}
				}
			}
		}
		Ok((connect_raw(net, &at)?, who))
	})
	.join()
	.unwrap()
}

// ---------------------------------------------------------------- scratch directories

pub struct Scratch(pub PathBuf);
impl Scratch {
	pub fn new(name: &str) -> Self {
		use std::os::unix::fs::PermissionsExt;
		static N: AtomicU64 = AtomicU64::new(0);
		let dir = std::env::temp_dir().join(format!("fzv-{}-{}-{}", name, std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
		std::fs::create_dir(&dir).expect("scratch directory");
		let _ = std::fs::set_permissions(&dir, std::fs::Permissions::from_mode(0o777));
		Self(dir)
	}
}
impl Drop for Scratch {
	fn drop(&mut self) {
		let _ = std::fs::remove_dir_all(&self.0);
	}
}

// ---------------------------------------------------------------- server

const MAGIC: &[u8] = b"LSTN";
const ECHO: i32 = 1;
const STREAM: i32 = 2;
const REPLY: i32 = 50;
const LEAVE: i32 = 98;
const PANIC: i32 = 99;
const TOO_LARGE: &str = "response refused";

fn body(client: usize, n: usize, len: usize) -> Vec<u8> {
	let mut b = MAGIC.to_vec();
	b.push(client as u8);
	b.push(n as u8);
	while b.len() < len {
		b.push((b.len() * 31 + client * 7 + n) as u8);
	}
	b
}

#[derive(Debug)]
struct Rec {
	id: Id,
	/// Client, number, length.
	seen: Vec<(usize, usize, usize)>,
	ended: bool,
}

type Recs = Arc<Mutex<Vec<Rec>>>;

struct Ended(Recs, usize);
impl Drop for Ended {
	fn drop(&mut self) {
		// Also when the handler panics.
		if let Ok(mut r) = self.0.lock() {
			r[self.1].ended = true;
		}
	}
}

async fn handler<B: Body + From<Vec<u8>> + AsBytes + Send>(recs: Recs, k: usize, mut peer: PeerHandle<B>) {
	let _ended = Ended(recs.clone(), k);
	let see = |b: &[u8]| {
		if b.len() >= 6 && &b[..4] == MAGIC {
			recs.lock().unwrap()[k].seen.push((b[4] as usize, b[5] as usize, b.len()));
		}
	};
	loop {
		match peer.recv_message().await {
			Err(e) if e.is_connection_aborted() => break,
			Err(_) => {
				// Some errors are reported once for each message.
				tokio::task::yield_now().await;
			},
			Ok(ReceivedMessage::Stream(m)) => {
				see(m.body.bytes());
				let _ = peer.send_stream(m.header.service_id, m.body.bytes().to_vec()).await;
			},
			Ok(ReceivedMessage::Request(r, b)) => {
				see(b.bytes());
				match r.service_id() {
					PANIC => panic!("the handler panics as it was asked to"),
					LEAVE => return,
					REPLY if b.bytes().len() >= 10 => {
						let x = b.bytes();
						let n = u32::from_le_bytes([x[6], x[7], x[8], x[9]]) as usize;
						let w = r.write_handle();
						if r.send_response(REPLY, vec![7u8; n]).await.is_err() {
							let _ = w.send_error_response(TOO_LARGE).await;
						}
					},
					svc => {
						let _ = r.send_response(svc, b.bytes().to_vec()).await;
					},
				}
			},
		}
	}
}

// ---------------------------------------------------------------- clients

enum State<S: Socket> {
	New,
	Peer { read: PeerReadHandle<S::B>, write: PeerWriteHandle<S::B>, open: Vec<(SentRequestHandle<S::B>, Vec<u8>)>, dead: bool },
	Raw(OwnedFd),
	Gone,
}

async fn within<T>(f: impl Future<Output = T>) -> Option<T> {
	timeout(Duration::from_secs(10), f).await.ok()
}

struct Run<S: Socket> {
	c: Case,
	at: At,
	states: Vec<State<S>>,
	ids: BTreeMap<usize, Id>,
	next: Vec<usize>,
	sent: Vec<Vec<(usize, usize)>>,
	maybe_unseen: Vec<bool>,
}

fn local_id(net: Net, fd: i32, who: (u32, u32, Option<i32>)) -> Id {
	if net != Net::Tcp {
		return Id::Unix(who.0, who.1, who.2);
	}
	use std::os::fd::BorrowedFd;
	let s: std::net::TcpStream = unsafe { BorrowedFd::borrow_raw(fd) }.try_clone_to_owned().unwrap().into();
	Id::Tcp(s.peer_addr().unwrap(), s.local_addr().unwrap())
}

impl<S: Socket> Run<S> {
	async fn act(&mut self, i: usize) -> CaseResult {
		if matches!(self.states[i], State::New) {
			return self.connect(i).await;
		}
		let n = self.next[i];
		self.next[i] += 1;
		match self.c.clients[i].clone() {
			Client::Good { acts, .. } => {
				let Some(a) = acts.get(n) else { return Ok(()) };
				self.good(i, a).await
			},
			Client::Ill { acts, .. } => {
				let Some(a) = acts.get(n) else { return Ok(()) };
				self.ill(i, a).await
			},
		}
	}

	async fn connect(&mut self, i: usize) -> CaseResult {
		match self.c.clients[i].clone() {
			Client::Good { connect, .. } => {
				let config = S::client_config(&self.c);
				let handle = if connect {
					match within(S::connect(&self.at, config)).await {
						Some(Ok((h, info))) => {
							match S::id(&info) {
								Id::Tcp(local, remote) => {
									let At::Tcp(at) = self.at else { unreachable!() };
									ensure!(remote == at, "connect reports {} as remote address of {}", remote, at);
									self.ids.insert(i, Id::Tcp(at, local));
								},
								id => {
									let m = me();
									let want = Id::Unix(m.0, m.1, m.2);
									ensure!(id == want, "connect reports {:?} as remote of {:?}", id, want);
									self.ids.insert(i, id);
								},
							}
							h
						},
						Some(Err(e)) => return Err(format!("client {} can't connect: {}", i, e)),
						None => return Err(format!("client {} never gets connected", i)),
					}
				} else {
					let (fd, who) = connect_as(self.c.net, &self.at, 40_000 + i as u32, 50_000 + i as u32).map_err(|e| format!("client {} can't connect: {}", i, e))?;
					self.ids.insert(i, local_id(self.c.net, fd.as_raw_fd(), who));
					fizyr_rpc::Peer::spawn(S::transport(fd, config))
				};
				let (read, write) = handle.split();
				self.states[i] = State::Peer { read, write, open: vec![], dead: false };
			},
			Client::Ill { hurry, acts } => {
				let fd = connect_raw(self.c.net, &self.at).map_err(|e| format!("client {} can't connect: {}", i, e))?;
				self.ids.insert(i, local_id(self.c.net, fd.as_raw_fd(), me()));
				self.states[i] = State::Raw(fd);
				if hurry {
					for a in acts.iter().filter(|a| !matches!(a, Ill::Yield(_))) {
						self.ill(i, a).await?;
					}
					self.next[i] = acts.len();
				}
			},
		}
		Ok(())
	}

	async fn good(&mut self, i: usize, a: &Good) -> CaseResult {
		let max = self.c.max.0 as usize;
		let seq = self.c.net == Net::Seq;
		let n = self.sent[i].len();
		let State::Peer { read, write, open, dead } = &mut self.states[i] else { return Ok(()) };
		if *dead {
			return Ok(());
		}
		let len = |x: u16| (x as usize).clamp(6, max);
		match a {
			Good::Yield(n) => {
				for _ in 0..*n {
					tokio::task::yield_now().await;
				}
			},
			Good::Fire(l) | Good::Echo(l) => {
				let b = body(i, n, len(*l));
				self.sent[i].push((n, b.len()));
				match within(write.send_request(ECHO, b.clone())).await {
					Some(Ok(r)) => open.push((r, b)),
					Some(Err(e)) => return Err(format!("client {} can't send a request: {}", i, e)),
					None => return Err(format!("sending a request of client {} never completes", i)),
				}
				if let Good::Echo(_) = a {
					return self.collect(i).await;
				}
			},
			Good::Stream(l) => {
				let b = body(i, n, len(*l));
				self.sent[i].push((n, b.len()));
				match within(write.send_stream(STREAM, b.clone())).await {
					Some(Ok(())) => (),
					Some(Err(e)) => return Err(format!("client {} can't send a stream message: {}", i, e)),
					None => return Err(format!("sending a stream message of client {} never completes", i)),
				}
				match within(read.recv_message()).await {
					Some(Ok(ReceivedMessage::Stream(m))) => {
						ensure!(m.body.bytes() == b && m.header.service_id == STREAM, "client {} received a stream message of another connection or a damaged one", i);
					},
					Some(Ok(_)) => return Err(format!("client {} received a request", i)),
					Some(Err(e)) => return Err(format!("client {} got {} instead of its stream message", i, e)),
					None => return Err(format!("client {} never receives its stream message back", i)),
				}
			},
			Good::Reply(d) => {
				let want = (self.c.max.1 as i64 + *d as i64).max(0) as u32;
				// An error response must fit too.
				let fits = want <= self.c.max.1 as u32;
				let mut b = body(i, n, 6);
				b.extend(want.to_le_bytes());
				if b.len() > max || (self.c.max.1 as usize) < TOO_LARGE.len() {
					return Ok(());
				}
				self.sent[i].push((n, b.len()));
				let mut r = match within(write.send_request(REPLY, b)).await {
					Some(Ok(r)) => r,
					_ => return Err(format!("client {} can't send a request", i)),
				};
				match within(r.recv_response()).await {
					Some(Ok(m)) if fits => ensure!(m.body.bytes().len() == want as usize && m.header.service_id == REPLY, "client {} received another response", i),
					Some(Ok(m)) => ensure!(m.header.service_id == -1 && m.body.bytes() == TOO_LARGE.as_bytes(), "a response of {} bytes was not refused by the limit of {} bytes of the listener", want, self.c.max.1),
					Some(Err(e)) => return Err(format!("client {} got {} instead of the response", i, e)),
					None => return Err(format!("client {} never receives its response", i)),
				}
			},
			Good::Over => {
				let b = body(i, n, max + 1);
				let r = match within(write.send_request(ECHO, b)).await {
					Some(r) => r,
					None => return Err(format!("sending a request of client {} never completes", i)),
				};
				if seq {
					// The message is dropped, and the connection goes on.
					drop(r);
					return Ok(());
				}
				*dead = true;
				open.clear();
				if let Ok(mut r) = r {
					match within(r.recv_response()).await {
						Some(Err(_)) => (),
						Some(Ok(_)) => return Err(format!("a request of {} bytes was answered in spite of the limit of {} bytes", max + 1, max)),
						None => return Err("the connection stays open after a message that is too large".to_string()),
					}
				}
			},
			Good::Panic | Good::Leave => {
				self.collect(i).await?;
				let State::Peer { write, dead, .. } = &mut self.states[i] else { return Ok(()) };
				let svc = if let Good::Panic = a { PANIC } else { LEAVE };
				let b = body(i, n, 6);
				self.sent[i].push((n, 6));
				*dead = true;
				if let Some(Ok(mut r)) = within(write.send_request(svc, b)).await {
					match within(r.recv_response()).await {
						Some(Err(_)) => (),
						Some(Ok(m)) => ensure!(m.header.service_id == -1, "client {} received a response from a handler that is gone", i),
						None => return Err(format!("the connection of client {} stays open although its handler is gone", i)),
					}
				}
			},
		}
		Ok(())
	}

	async fn collect(&mut self, i: usize) -> CaseResult {
		let State::Peer { open, dead, .. } = &mut self.states[i] else { return Ok(()) };
		if *dead {
			return Ok(());
		}
		for (mut r, b) in open.drain(..) {
			match within(r.recv_response()).await {
				Some(Ok(m)) => ensure!(m.header.service_id == ECHO && m.body.bytes() == b, "client {} received a response of another connection or a damaged one: {:?}", i, m.header),
				Some(Err(e)) => return Err(format!("client {} got {} instead of the response", i, e)),
				None => return Err(format!("client {} never receives its response", i)),
			}
		}
		Ok(())
	}

	async fn ill(&mut self, i: usize, a: &Ill) -> CaseResult {
		let State::Raw(fd) = &self.states[i] else { return Ok(()) };
		let raw = fd.as_raw_fd();
		let write = |b: &[u8]| unsafe { libc::send(raw, b.as_ptr() as *const _, b.len(), libc::MSG_NOSIGNAL | libc::MSG_DONTWAIT) };
		match a {
			Ill::Yield(n) => {
				for _ in 0..*n {
					tokio::task::yield_now().await;
				}
			},
			Ill::Raw(b) => {
				write(b);
			},
			Ill::Flood => {
				let h = Hdr { t: 0, id: 1, svc: ECHO }.bytes(self.c.en);
				let mut m = Vec::new();
				if self.c.net != Net::Seq {
					m.extend(self.c.en.u32(12 + 16));
				}
				m.extend(h);
				m.extend([0u8; 16]);
				for k in 0u32..2000 {
					let at = if self.c.net == Net::Seq { 4 } else { 8 };
					m[at..at + 4].copy_from_slice(&self.c.en.u32(k));
					if write(&m) != m.len() as isize {
						break;
					}
				}
			},
			Ill::Shut => unsafe {
				libc::shutdown(raw, libc::SHUT_WR);
			},
			Ill::Close => self.states[i] = State::Gone,
			Ill::Reset => {
				let l = libc::linger { l_onoff: 1, l_linger: 0 };
				unsafe {
					libc::setsockopt(raw, libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of_val(&l) as _);
				}
				self.maybe_unseen[i] = true;
				self.states[i] = State::Gone;
			},
		}
		Ok(())
	}
}

async fn go<S: Socket>(c: &Case, info: &mut Info) -> CaseResult {
	let scratch = Scratch::new("listen");
	let (mut listener, at) = S::listen(&scratch.0.join("s"), S::config(c), c).await?;
	if let At::Path(p) = &at {
		use std::os::unix::fs::PermissionsExt;
		let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o777));
	}
	let recs: Recs = Default::default();
	let stopped: Rc<RefCell<Option<String>>> = Default::default();
	let (recs2, stopped2, mode) = (recs.clone(), stopped.clone(), c.mode);
	FAILED.with(|x| x.set(0));
	let reported = Rc::new(std::cell::Cell::new(0u64));
	let reported2 = reported.clone();
	let mut server = tokio::task::spawn_local(async move {
		let new = |i: &S::I| {
			let mut r = recs2.lock().unwrap();
			r.push(Rec { id: S::id(i), seen: vec![], ended: false });
			r.len() - 1
		};
		match mode {
			Mode::Run | Mode::RunCancel => loop {
				let r = {
					let run = listener.run(|peer, i| {
						let k = new(&i);
						handler(recs2.clone(), k, peer)
					});
					let mut run = std::pin::pin!(run);
					let mut n = 0;
					std::future::poll_fn(|cx| {
						n += 1;
						match run.as_mut().poll(cx) {
							Poll::Ready(r) => Poll::Ready(Some(r)),
							Poll::Pending if mode == Mode::RunCancel && n > 3 => Poll::Ready(None),
							Poll::Pending if mode == Mode::RunCancel => {
								cx.waker().wake_by_ref();
								Poll::Pending
							},
							Poll::Pending => Poll::Pending,
						}
					})
					.await
				};
				let Some(r) = r else {
					tokio::time::sleep(Duration::from_micros(50)).await;
					continue;
				};
				match r {
					// It is the user who decides what to do about errors of the socket.
					Err(e) if e.to_string() == FAULT => reported2.set(reported2.get() + 1),
					r => {
						*stopped2.borrow_mut() = Some(format!("run() ended with {:?}", r));
						return;
					},
				}
			},
			_ => loop {
				let r = if mode == Mode::Accept {
					listener.accept().await
				} else {
					let mut n = 0;
					let f = listener.accept();
					let mut f = std::pin::pin!(f);
					let r = std::future::poll_fn(|cx| {
						n += 1;
						match f.as_mut().poll(cx) {
							Poll::Ready(r) => Poll::Ready(Some(r)),
							Poll::Pending if n > 3 => Poll::Ready(None),
							Poll::Pending => {
								cx.waker().wake_by_ref();
								Poll::Pending
							},
						}
					})
					.await;
					match r {
						Some(r) => r,
						None => {
							tokio::time::sleep(Duration::from_micros(50)).await;
							continue;
						},
					}
				};
				match r {
					Ok((peer, i)) => {
						let k = new(&i);
						tokio::spawn(handler(recs2.clone(), k, peer));
					},
					Err(e) if e.to_string() == FAULT => reported2.set(reported2.get() + 1),
					Err(e) => {
						*stopped2.borrow_mut() = Some(format!("accept() failed: {}", e));
						return;
					},
				}
			},
		}
	});
	let n = c.clients.len();
	let mut run = Run::<S> { c: c.clone(), at, states: (0..n).map(|_| State::New).collect(), ids: BTreeMap::new(), next: vec![0; n], sent: vec![vec![]; n], maybe_unseen: vec![false; n] };
	let result = async {
		let left = |r: &Run<S>, i: usize| {
			matches!(r.states[i], State::New)
				|| r.next[i]
					< match &c.clients[i] {
						Client::Good { acts, .. } => acts.len(),
						Client::Ill { acts, .. } => acts.len(),
					}
		};
		let check = |i: usize| match &*stopped.borrow() {
			Some(e) => Err(format!("{} because of client {} or an earlier one", e, i)),
			None => Ok(()),
		};
		let mut step = 0;
		loop {
			let todo: Vec<usize> = (0..n).filter(|i| left(&run, *i)).collect();
			if todo.is_empty() {
				break;
			}
			let i = todo[c.order.get(step).copied().unwrap_or(0) as usize % todo.len()];
			step += 1;
			let r = run.act(i).await;
			check(i)?;
			r?;
		}
		for i in 0..n {
			let r = run.collect(i).await;
			check(i)?;
			r?;
		}
		// One more client proves that the listener still works.
		run.c.clients.push(Client::Good { connect: false, acts: vec![Good::Echo(20)] });
		run.states.push(State::New);
		run.next.push(0);
		run.sent.push(vec![]);
		run.maybe_unseen.push(false);
		for _ in 0..2 {
			let r = run.act(n).await;
			check(n)?;
			r?;
		}
		if c.retire {
			// The connections that were accepted do not need the listener.
			server.abort();
			let _ = (&mut server).await;
			for i in 0..=n {
				if !run.sent[i].is_empty() {
					run.good(i, &Good::Echo(20)).await.map_err(|e| format!("{e}, after the listener was dropped"))?;
				}
			}
		}
		// Everybody leaves.
		run.states.clear();
		let wait = async {
			loop {
				let (count, running) = {
					let r = recs.lock().unwrap();
					(r.len(), r.iter().filter(|r| !r.ended).count())
				};
				let sure = run.maybe_unseen.iter().filter(|x| !**x).count();
				if running == 0 && count >= sure {
					break;
				}
				tokio::time::sleep(Duration::from_micros(100)).await;
			}
		};
		if within(wait).await.is_none() {
			let r = recs.lock().unwrap();
			let running = r.iter().filter(|r| !r.ended).count();
			return Err(format!("{} clients connected (and are gone), {} handlers were started, {} of them still run", run.c.clients.len(), r.len(), running));
		}
		check(n)?;
		Ok(())
	}
	.await;
	if !server.is_finished() {
		server.abort();
		let _ = server.await;
	}
	result?;
	let failed = FAILED.with(|x| x.get());
	ensure!(reported.get() == failed, "the listening socket failed {} times, but {} errors were reported", failed, reported.get());
	info.count("errors of the listening socket", failed);
	// Every connection had one handler of its own.
	let recs = recs.lock().unwrap();
	ensure!(recs.len() <= n + 1, "{} clients connected, but {} handlers were started", n + 1, recs.len());
	let mut owner: BTreeMap<usize, usize> = BTreeMap::new();
	for (k, r) in recs.iter().enumerate() {
		let mut who: Vec<usize> = r.seen.iter().map(|x| x.0).collect();
		who.dedup();
		ensure!(who.len() <= 1, "one handler received messages of the clients {:?}", who);
		if let Some(&i) = who.first() {
			ensure!(i <= n && owner.insert(i, k).is_none(), "messages of client {} were received by two handlers", i);
			let seen: Vec<_> = r.seen.iter().map(|x| (x.1, x.2)).collect();
			ensure!(seen == run.sent[i], "client {} sent {:?}, but {:?} was received", i, run.sent[i], seen);
			ensure!(Some(&r.id) == run.ids.get(&i), "client {} is {:?}, but the listener reports {:?}", i, run.ids.get(&i), r.id);
		}
	}
	for i in 0..=n {
		ensure!(run.sent[i].is_empty() || owner.contains_key(&i), "messages of client {} were never received", i);
	}
	// All reported identities are those of clients.
	let mut ids: Vec<_> = run.ids.values().collect();
	for r in recs.iter() {
		match ids.iter().position(|x| **x == r.id) {
			Some(p) => {
				ids.swap_remove(p);
			},
			None => return Err(format!("the listener reports a connection with {:?}, which is none of the clients", r.id)),
		}
	}
	info.count("connections", recs.len() as u64);
	info.count("messages", recs.iter().map(|r| r.seen.len() as u64).sum());
	Ok(())
}

fn case() -> BoxedStrategy<Case> {
	let good = prop_oneof![
		4 => (0u16..400).prop_map(Good::Fire),
		4 => (0u16..400).prop_map(Good::Echo),
		2 => (0u16..400).prop_map(Good::Stream),
		2 => (-3i8..4).prop_map(Good::Reply),
		1 => Just(Good::Over),
		1 => Just(Good::Panic),
		1 => Just(Good::Leave),
		2 => (0u8..5).prop_map(Good::Yield),
	];
	let raw = prop_oneof![
		prop::collection::vec(any::<u8>(), 1..40),
		Just(vec![0u8, 0, 0, 0]),
		Just(vec![0xff; 20]),
		// Half of a message.
		Just(vec![40u8, 0, 0, 0, 0, 0, 0]),
		(0u8..6, any::<u8>()).prop_map(|(t, x)| vec![16, 0, 0, 0, t, 0, 0, 0, x, 0, 0, 0, 1, 0, 0, 0, 1, 2, 3, 4]),
	];
	let ill = prop_oneof![
		4 => raw.prop_map(Ill::Raw),
		1 => Just(Ill::Flood),
		1 => Just(Ill::Shut),
		2 => Just(Ill::Close),
		2 => Just(Ill::Reset),
		2 => (0u8..5).prop_map(Ill::Yield),
	];
	let client = prop_oneof![
		3 => (any::<bool>(), prop::collection::vec(good, 0..7)).prop_map(|(connect, acts)| Client::Good { connect, acts }),
		2 => (any::<bool>(), prop::collection::vec(ill, 0..4)).prop_map(|(hurry, acts)| Client::Ill { hurry, acts }),
	];
	let net = prop_oneof![Just(Net::Tcp), Just(Net::Unix), Just(Net::Seq)];
	let mode = prop_oneof![3 => Just(Mode::Run), 2 => Just(Mode::Accept), 1 => Just(Mode::AcceptCancel), 1 => Just(Mode::RunCancel)];
	let way = prop_oneof![Just(Way::Plain), Just(Way::Mut), Just(Way::Box), Just(Way::Pin), Just(Way::Future)];
	let faults = prop_oneof![1 => Just(Vec::new()), 1 => prop::collection::vec(0u8..8, 0..6)];
	bx((net, mode, endian(), (16u16..300, 20u16..300), prop::collection::vec(client, 0..7), prop::collection::vec(any::<u8>(), 0..50), way, faults, any::<bool>()).prop_map(|(net, mode, en, max, clients, order, way, faults, retire)| {
		// The responses to ordinary requests must fit.
		let max = (max.0.min(max.1), max.1);
		Case { net, mode, en, max, clients, order, way, faults, retire }
	}))
}

fn local<F: Future>(f: F) -> F::Output {
	let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
	let set = tokio::task::LocalSet::new();
	let r = set.block_on(&rt, f);
	drop(set);
	rt.shutdown_background();
	r
}

// ---------------------------------------------------------------- many clients

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wave {
	/// New clients, and how many of them come at once.
	n: u16,
	burst: u8,
	/// One in so many never says anything, or breaks the protocol.
	silent: u8,
	broken: u8,
	/// One in so many of all clients leaves afterwards.
	leave: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crowd {
	net: Net,
	mode: Mode,
	en: En,
	waves: Vec<Wave>,
}

fn crowd() -> BoxedStrategy<Crowd> {
	let n = prop_oneof![2 => 1u16..20, 3 => (4u32..9, 0u16..5).prop_map(|(s, d)| (1u16 << s) + d - 2), 3 => 20u16..400];
	let wave = (n, 1u8..80, prop_oneof![1 => Just(0u8), 1 => 1u8..6], prop_oneof![1 => Just(0u8), 1 => 2u8..9], prop_oneof![2 => Just(0u8), 1 => Just(1u8), 2 => 2u8..6]).prop_map(|(n, burst, silent, broken, leave)| Wave { n, burst, silent, broken, leave });
	let net = prop_oneof![Just(Net::Tcp), Just(Net::Unix), Just(Net::Seq)];
	let mode = prop_oneof![3 => Just(Mode::Run), 1 => Just(Mode::Accept), 1 => Just(Mode::AcceptCancel), 1 => Just(Mode::RunCancel)];
	bx((net, mode, endian(), prop::collection::vec(wave, 1..5)).prop_map(|(net, mode, en, waves)| Crowd { net, mode, en, waves }))
}

/// Connections that may exist at the same time in one case.
fn room() -> usize {
	(crate::fds::fd_limit() / 8).saturating_sub(20) / 3
}

struct Counts {
	started: std::cell::Cell<usize>,
	ended: Arc<AtomicU64>,
}

async fn echo<B: Body + From<Vec<u8>> + AsBytes + Send>(mut peer: PeerHandle<B>, ended: Arc<AtomicU64>) {
	struct End(Arc<AtomicU64>);
	impl Drop for End {
		fn drop(&mut self) {
			self.0.fetch_add(1, Ordering::SeqCst);
		}
	}
	let _end = End(ended);
	// Each handler counts what it receives.
	let mut n = 0u32;
	loop {
		match peer.recv_message().await {
			Err(e) if e.is_connection_aborted() => break,
			Err(_) => tokio::task::yield_now().await,
			Ok(ReceivedMessage::Stream(_)) => (),
			Ok(ReceivedMessage::Request(r, b)) => {
				let mut out = b.bytes().to_vec();
				out.extend(n.to_le_bytes());
				n += 1;
				let _ = r.send_response(r.service_id(), out).await;
			},
		}
	}
}

async fn serve<S: Socket>(c: &Crowd, info: &mut Info) -> CaseResult {
	let scratch = Scratch::new("crowd");
	let conf = Case { net: c.net, mode: c.mode, en: c.en, max: (200, 200), clients: Vec::new(), order: Vec::new(), way: Way::Plain, faults: Vec::new(), retire: false };
	let (mut listener, at) = S::listen(&scratch.0.join("s"), S::config(&conf), &conf).await?;
	let counts = Rc::new(Counts { started: Default::default(), ended: Default::default() });
	let (counts2, mode) = (counts.clone(), c.mode);
	let server = tokio::task::spawn_local(async move {
		match mode {
			Mode::Run | Mode::RunCancel => loop {
				let run = listener.run(|peer, _| {
					counts2.started.set(counts2.started.get() + 1);
					echo(peer, counts2.ended.clone())
				});
				let r = if mode == Mode::Run {
					run.await
				} else {
					match tokio::time::timeout(Duration::from_micros(300), run).await {
						Ok(r) => r,
						Err(_) => continue,
					}
				};
				return format!("run() ended with {r:?}");
			},
			_ => loop {
				let r = if mode == Mode::Accept {
					listener.accept().await
				} else {
					match tokio::time::timeout(Duration::from_micros(300), listener.accept()).await {
						Ok(r) => r,
						Err(_) => continue,
					}
				};
				match r {
					Ok((peer, _)) => {
						counts2.started.set(counts2.started.get() + 1);
						tokio::spawn(echo(peer, counts2.ended.clone()));
					},
					Err(e) => return format!("accept() failed: {e}"),
				}
			},
		}
	});
	struct One<S: Socket> {
		id: usize,
		/// None for raw sockets.
		peer: Option<PeerHandle<S::B>>,
		raw: Option<OwnedFd>,
		asked: u32,
	}
	let mut all: Vec<One<S>> = Vec::new();
	let (mut total, mut gone, mut most) = (0usize, 0usize, 0usize);
	let dead = |s: &tokio::task::JoinHandle<String>| if s.is_finished() { Err("the listener stopped".to_string()) } else { Ok(()) };
	for w in &c.waves {
		let n = (w.n as usize).min(room().saturating_sub(all.len()));
		for k in 0..n {
			let every = |m: u8, d: usize| m > 0 && (total + d) % m as usize == 0;
			if every(w.silent, 0) || every(w.broken, 1) {
				let fd = connect_raw(c.net, &at).map_err(|e| format!("client {total} can't connect: {e}"))?;
				if every(w.broken, 1) {
					let junk = [9u8; 30];
					unsafe { libc::send(fd.as_raw_fd(), junk.as_ptr() as *const _, junk.len(), libc::MSG_NOSIGNAL | libc::MSG_DONTWAIT) };
				}
				all.push(One { id: total, peer: None, raw: Some(fd), asked: 0 });
			} else {
				match within(S::connect(&at, S::client_config(&conf))).await {
					Some(Ok((peer, _))) => all.push(One { id: total, peer: Some(peer), raw: None, asked: 0 }),
					Some(Err(e)) => return Err(format!("client {total} can't connect: {e} ({} connections are open)", all.len())),
					None => return Err(format!("client {total} never gets connected ({} connections are open)", all.len())),
				}
			}
			total += 1;
			if k % w.burst as usize == 0 || k + 1 == n {
				let until = async {
					while counts.started.get() < total {
						if server.is_finished() {
							return;
						}
						tokio::time::sleep(Duration::from_micros(50)).await;
					}
				};
				if within(until).await.is_none() {
					return Err(format!("{total} clients connected, of which {gone} are gone, but only {} handlers were started", counts.started.get()));
				}
				dead(&server)?;
			}
		}
		most = most.max(all.len());
		// Everybody asks, all at the same time.
		let open = all.len();
		let mut asks = Vec::new();
		for o in &mut all {
			let Some(peer) = &o.peer else { continue };
			let body = format!("client {}", o.id).into_bytes();
			let mut want = body.clone();
			want.extend(o.asked.to_le_bytes());
			o.asked += 1;
			let id = o.id;
			let send = peer.send_request(id as i32, body);
			asks.push((id, want, Box::pin(async move {
				let mut r = send.await.map_err(|e| format!("client {id} can't send a request: {e}"))?;
				let m = r.recv_response().await.map_err(|e| format!("client {id} got no response: {e}"))?;
				Ok::<_, String>((m.header.service_id, m.body.bytes().to_vec()))
			})));
		}
		let mut waiting = asks.len();
		let mut bad = None;
		let everybody = std::future::poll_fn(|cx| {
			use std::task::Poll;
			asks.retain_mut(|(id, want, f)| match f.as_mut().poll(cx) {
				Poll::Pending => true,
				Poll::Ready(Ok((svc, b))) => {
					if svc != *id as i32 || b != *want {
						bad = Some(format!("client {id} received the response of another client, or a damaged one"));
					}
					false
				},
				Poll::Ready(Err(e)) => {
					bad = Some(e);
					false
				},
			});
			waiting = asks.len();
			if waiting == 0 || bad.is_some() {
				Poll::Ready(())
			} else {
				Poll::Pending
			}
		});
		if within(everybody).await.is_none() {
			return Err(format!("{waiting} clients never got their response, with {open} connections"));
		}
		drop(asks);
		if let Some(e) = bad {
			return Err(e);
		}
		dead(&server)?;
		if w.leave > 0 {
			let mut k = 0;
			let before = all.len();
			all.retain(|_| {
				k += 1;
				k % w.leave as usize != 0
			});
			gone += before - all.len();
		}
	}
	// Clients that left were told to their handlers, and at the end all do.
	all.iter_mut().for_each(|o| drop(o.raw.take()));
	drop(all);
	let until = async {
		while (counts.ended.load(Ordering::SeqCst) as usize) < total {
			tokio::time::sleep(Duration::from_micros(50)).await;
		}
	};
	if within(until).await.is_none() {
		return Err(format!("all {total} clients are gone, but only {} handlers ended", counts.ended.load(Ordering::SeqCst)));
	}
	dead(&server)?;
	ensure!(counts.started.get() == total, "{total} clients connected, but {} handlers were started", counts.started.get());
	server.abort();
	let _ = server.await;
	info.nontrivial = most >= 20;
	info.label_if(most >= 128, "128 connections at once");
	info.label_if(most >= 256, "256 connections at once");
	info.count("connections", total as u64);
	Ok(())
}

pub fn c18(ctx: &Arc<Ctx>) {
	room();
	ctx.check("crowds", Opts { quick: 1_000, thorough: 20_000, shards: 8, rule: "at least 20 clients were connected at the same time" }, crowd, |c, info| match c.net {
		Net::Tcp => local(serve::<Any<tokio::net::TcpListener>>(c, info)),
		Net::Unix => local(serve::<Any<tokio::net::UnixListener>>(c, info)),
		Net::Seq => local(serve::<Any<UnixSeqpacketListener>>(c, info)),
	});
	ctx.assume("The process has file descriptors and memory left; clients and listener run in one process over loopback TCP and Unix sockets.");
	ctx.check("clients of a listener", Opts { quick: 24_000, thorough: 600_000, shards: 8, rule: "at least two clients, of which one exchanges messages" }, case, |c, info| {
		let works = c.clients.iter().any(|c| matches!(c, Client::Good { acts, .. } if acts.iter().any(|a| matches!(a, Good::Echo(_) | Good::Fire(_) | Good::Stream(_)))));
		info.nontrivial = c.clients.len() >= 2 && works;
		info.label_if(c.clients.iter().any(|c| matches!(c, Client::Ill { hurry: true, acts } if acts.iter().any(|a| matches!(a, Ill::Reset)))), "reset before accept");
		info.label_if(c.clients.iter().any(|c| matches!(c, Client::Ill { hurry: true, acts } if acts.iter().any(|a| matches!(a, Ill::Close)))), "closed before accept");
		info.label_if(c.clients.iter().any(|c| matches!(c, Client::Good { acts, .. } if acts.iter().any(|a| matches!(a, Good::Panic)))), "panicking handler");
		match c.net {
			Net::Tcp => local(go::<Any<tokio::net::TcpListener>>(c, info)),
			Net::Unix => local(go::<Any<tokio::net::UnixListener>>(c, info)),
			Net::Seq => local(go::<Any<UnixSeqpacketListener>>(c, info)),
		}
	});
}

// ---------------------------------------------------------------- many connections, one after another (C28)

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Visit {
	/// Requests and responses.
	Good(u8),
	/// Connects and leaves.
	Hello,
	/// Leaves without waiting for the listener.
	Hurry,
	Garbage,
	/// The connection ends while the remote's request is open.
	HalfWay,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Turnover {
	net: Net,
	mode: Mode,
	visits: Vec<Visit>,
	/// All of a cycle at once.
	together: bool,
	/// Connections that stay open meanwhile.
	stay: u8,
}

async fn visits<S: Socket>(c: &Turnover, info: &mut Info) -> CaseResult {
	use crate::leaks::{growth, other, verdict, Inconclusive};
	let scratch = Scratch::new("turnover");
	let conf = Case { net: c.net, mode: c.mode, en: En::Little, max: (200, 200), clients: Vec::new(), order: Vec::new(), way: Way::Plain, faults: Vec::new(), retire: false };
	let (mut listener, at) = S::listen(&scratch.0.join("s"), S::config(&conf), &conf).await?;
	let counts = Rc::new(Counts { started: Default::default(), ended: Default::default() });
	let (counts2, mode) = (counts.clone(), c.mode);
	let server = tokio::task::spawn_local(async move {
		if mode == Mode::Run {
			let _ = listener
				.run(|peer, _| {
					counts2.started.set(counts2.started.get() + 1);
					echo(peer, counts2.ended.clone())
				})
				.await;
			return;
		}
		loop {
			let r = match mode {
				Mode::Accept => listener.accept().await,
				_ => match tokio::time::timeout(Duration::from_micros(300), listener.accept()).await {
					Ok(r) => r,
					Err(_) => continue,
				},
			};
			let Ok((peer, _)) = r else { return };
			counts2.started.set(counts2.started.get() + 1);
			tokio::spawn(echo(peer, counts2.ended.clone()));
		}
	});
	let settled = async || {
		let mut still = 0;
		let mut last = (0, 0);
		while still < 5 {
			let now = (counts.started.get(), counts.ended.load(Ordering::SeqCst) as usize);
			still = if now == last && now.0 == now.1 + c.stay as usize { still + 1 } else { 0 };
			last = now;
			tokio::task::yield_now().await;
		}
	};
	let cycle = async |_| {
		let mut open = Vec::new();
		let mut raw = Vec::new();
		for v in &c.visits {
			match v {
				Visit::Good(_) | Visit::HalfWay => {
					let (peer, _) = S::connect(&at, S::client_config(&conf)).await.map_err(other("connect"))?;
					let n = if let Visit::Good(n) = v { *n } else { 0 };
					for _ in 0..n {
						let mut r = peer.send_request(1, vec![1u8; 20]).await.map_err(other("request"))?;
						r.recv_response().await.map_err(other("response"))?;
					}
					if let Visit::HalfWay = v {
						drop(peer.send_request(1, vec![1u8; 20]).await.map_err(other("request"))?);
					}
					if c.together {
						open.push(peer);
					}
				},
				Visit::Hello | Visit::Hurry | Visit::Garbage => {
					let fd = connect_raw(c.net, &at).map_err(other("connect"))?;
					if let Visit::Garbage = v {
						let junk = [9u8; 30];
						unsafe { libc::send(fd.as_raw_fd(), junk.as_ptr() as *const _, junk.len(), libc::MSG_NOSIGNAL | libc::MSG_DONTWAIT) };
					}
					if c.net == Net::Tcp {
						// No TIME_WAIT: there are many of these.
						let linger = libc::linger { l_onoff: 1, l_linger: 0 };
						unsafe { libc::setsockopt(fd.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &linger as *const _ as *const _, std::mem::size_of_val(&linger) as _) };
					}
					if !matches!(v, Visit::Hurry) {
						let before = counts.started.get();
						for _ in 0..200 {
							if counts.started.get() > before {
								break;
							}
							tokio::task::yield_now().await;
						}
					}
					if c.together {
						raw.push(fd);
					}
				},
			}
		}
		drop(open);
		drop(raw);
		settled().await;
		if server.is_finished() {
			return Err(Inconclusive("the listener stopped".into()));
		}
		Ok(())
	};
	let mut stay = Vec::new();
	for _ in 0..c.stay {
		match S::connect(&at, S::client_config(&conf)).await {
			Ok((peer, _)) => {
				// The handler knows about it before others come.
				if let Ok(mut r) = peer.send_request(1, vec![1u8; 20]).await {
					let _ = r.recv_response().await;
				}
				stay.push(peer)
			},
			Err(_) => return Ok(()),
		}
	}
	let measure = || crate::util::live() + 100_000 * crate::fds::open_fds().len() as i64;
	let r = tokio::time::timeout(Duration::from_secs(8), growth(cycle, measure, 64)).await.map_err(|_| "timeout");
	drop(stay);
	server.abort();
	let _ = server.await;
	info.label_if(c.stay > 0, "a connection stays open");
	info.nontrivial = c.visits.iter().any(|v| matches!(v, Visit::Good(_) | Visit::HalfWay));
	info.count("connections", c.visits.len() as u64 * 384);
	verdict(r, "the memory of a listener (and 100000 for each open descriptor)", info)
}

fn turnover_case() -> BoxedStrategy<Turnover> {
	let visit = prop_oneof![3 => (0u8..3).prop_map(Visit::Good), 1 => Just(Visit::Hello), 1 => Just(Visit::Hurry), 1 => Just(Visit::Garbage), 1 => Just(Visit::HalfWay)];
	let net = prop_oneof![1 => Just(Net::Tcp), 3 => Just(Net::Unix), 3 => Just(Net::Seq)];
	let mode = prop_oneof![3 => Just(Mode::Run), 1 => Just(Mode::Accept), 1 => Just(Mode::AcceptCancel)];
	bx((net, mode, prop::collection::vec(visit, 1..4), any::<bool>(), 0u8..3).prop_map(|(net, mode, visits, together, stay)| Turnover { net, mode, visits, together, stay }))
}

pub fn turnover(ctx: &Arc<Ctx>) {
	// One thread: the descriptors of the whole process are counted.
	ctx.check("listener", Opts { quick: 60, thorough: 900, shards: 1, rule: "a client exchanges messages" }, turnover_case, |c, info| match c.net {
		Net::Tcp => local(visits::<Any<tokio::net::TcpListener>>(c, info)),
		Net::Unix => local(visits::<Any<tokio::net::UnixListener>>(c, info)),
		Net::Seq => local(visits::<Any<UnixSeqpacketListener>>(c, info)),
	});
}

// ---------------------------------------------------------------- C19

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Obj {
	Nothing,
	/// With content of this length.
	File(u8),
	Dir(bool),
	Fifo,
	/// A socket file whose listener is gone.
	StaleStream,
	StaleSeq,
	StaleDatagram,
	Dangling,
	LinkFile,
	LinkDir,
	LinkFifo,
	LinkSocket,
	LinkLink,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
	Put(Obj),
	Bind(bool),
	/// Drop the listener that was bound last.
	Drop,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BindCase {
	name: String,
	steps: Vec<Step>,
}

/// Everything below a directory: kind, inode, mode, content.
fn snapshot(dir: &Path) -> BTreeMap<PathBuf, String> {
	use std::os::unix::fs::{FileTypeExt, MetadataExt};
	let mut out = BTreeMap::new();
	let Ok(rd) = std::fs::read_dir(dir) else { return out };
	for e in rd.flatten() {
		let p = e.path();
		let Ok(m) = std::fs::symlink_metadata(&p) else { continue };
		let t = m.file_type();
		let content = if t.is_symlink() {
			format!("link to {:?}", std::fs::read_link(&p).ok())
		} else if t.is_dir() {
			"directory".to_string()
		} else if t.is_file() {
			format!("file {:?}", std::fs::read(&p).ok())
		} else if t.is_socket() {
			"socket".to_string()
		} else {
			"other".to_string()
		};
		out.insert(p.clone(), format!("inode {} mode {:o} links {} {}", m.ino(), m.mode(), m.nlink(), content));
		if t.is_dir() {
			out.extend(snapshot(&p));
		}
	}
	out
}

fn put(dir: &Path, path: &Path, o: Obj) -> Result<(), String> {
	let err = |e: std::io::Error| format!("harness: {e}");
	let cpath = |p: &Path| {
		use std::os::unix::ffi::OsStrExt;
		std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap()
	};
	// Only ever objects in the scratch directory.
	assert!(path.starts_with(dir));
	match std::fs::symlink_metadata(path) {
		Ok(m) if m.is_dir() => std::fs::remove_dir_all(path).map_err(err)?,
		Ok(_) => std::fs::remove_file(path).map_err(err)?,
		Err(_) => (),
	}
	let fifo = |p: &Path| unsafe {
		libc::mkfifo(cpath(p).as_ptr(), 0o644);
	};
	let socket = |p: &Path, t: i32| unsafe {
		let fd = libc::socket(libc::AF_UNIX, t | libc::SOCK_CLOEXEC, 0);
		let a = sockaddr(p).unwrap();
		libc::bind(fd, &a as *const _ as *const _, std::mem::size_of_val(&a) as _);
		libc::close(fd);
	};
	let target = dir.join("target");
	match std::fs::symlink_metadata(&target) {
		Ok(m) if m.is_dir() => std::fs::remove_dir_all(&target).map_err(err)?,
		Ok(_) => std::fs::remove_file(&target).map_err(err)?,
		Err(_) => (),
	}
	let link = |p: &Path| std::os::unix::fs::symlink(&target, p).map_err(err);
	match o {
		Obj::Nothing => (),
		Obj::File(n) => std::fs::write(path, vec![n; n as usize]).map_err(err)?,
		Obj::Dir(full) => {
			std::fs::create_dir(path).map_err(err)?;
			if full {
				std::fs::write(path.join("inner"), b"inner").map_err(err)?;
			}
		},
		Obj::Fifo => fifo(path),
		Obj::StaleStream => socket(path, libc::SOCK_STREAM),
		Obj::StaleSeq => socket(path, libc::SOCK_SEQPACKET),
		Obj::StaleDatagram => socket(path, libc::SOCK_DGRAM),
		Obj::Dangling => link(path)?,
		Obj::LinkFile => {
			std::fs::write(&target, b"target").map_err(err)?;
			link(path)?
		},
		Obj::LinkDir => {
			std::fs::create_dir(&target).map_err(err)?;
			std::fs::write(target.join("inner"), b"inner").map_err(err)?;
			link(path)?
		},
		Obj::LinkFifo => {
			fifo(&target);
			link(path)?
		},
		Obj::LinkSocket => {
			socket(&target, libc::SOCK_STREAM);
			link(path)?
		},
		Obj::LinkLink => {
			std::fs::write(dir.join("end"), b"end").map_err(err)?;
			std::os::unix::fs::symlink(dir.join("end"), &target).map_err(err)?;
			link(path)?
		},
	}
	Ok(())
}

enum Bound {
	Stream(Listener<tokio::net::UnixListener>),
	Seq(Listener<UnixSeqpacketListener>),
}

async fn bind_case(c: &BindCase, info: &mut Info) -> CaseResult {
	let scratch = Scratch::new("bind");
	let dir = &scratch.0;
	std::fs::write(dir.join("neighbour"), b"neighbour").map_err(|e| format!("harness: {e}"))?;
	let path = dir.join(&c.name);
	let no_parent = path.parent() != Some(dir);
	let too_long = sockaddr(&path).is_none();
	let mut listeners: Vec<Bound> = Vec::new();
	for s in &c.steps {
		match s {
			Step::Put(o) => {
				if !no_parent && !too_long {
					put(dir, &path, *o)?;
				}
			},
			Step::Drop => {
				listeners.pop();
			},
			Step::Bind(seq) => {
				use std::os::unix::fs::FileTypeExt;
				let before = snapshot(dir);
				let at = std::fs::symlink_metadata(&path).ok();
				let behind = std::fs::metadata(&path).ok();
				let socket = |m: &Option<std::fs::Metadata>| m.as_ref().is_some_and(|m| m.file_type().is_socket());
				let r = if *seq {
					Listener::<UnixSeqpacketListener>::bind(&path, Default::default()).await.map(Bound::Seq)
				} else {
					Listener::<tokio::net::UnixListener>::bind(&path, Default::default()).await.map(Bound::Stream)
				};
				let after = snapshot(dir);
				let others = |x: &BTreeMap<PathBuf, String>| x.iter().filter(|x| x.0 != &path).map(|x| (x.0.clone(), x.1.clone())).collect::<BTreeMap<_, _>>();
				ensure!(others(&before) == others(&after), "bind changed other objects: {:?} became {:?}", others(&before), others(&after));
				let what = before.get(&path).cloned().unwrap_or("nothing".into());
				let must = !no_parent && !too_long && (at.is_none() || socket(&at));
				let may = must || (!socket(&at) && socket(&behind));
				info.label_if(must && at.is_some(), "bind over a socket");
				info.label_if(!may, "bind must fail");
				match r {
					Ok(l) => {
						ensure!(may, "bind succeeded over {}", what);
						listeners.push(l);
						let now = std::fs::symlink_metadata(&path).ok();
						ensure!(socket(&now), "bind succeeded, but there is no socket");
						// The new listener gets the connections.
						let net = if *seq { Net::Seq } else { Net::Unix };
						let client = connect_raw(net, &At::Path(path.clone())).map_err(|e| format!("nobody can connect to the new listener: {}", e))?;
						let ok = match listeners.last_mut().unwrap() {
							Bound::Stream(l) => within(l.accept()).await.map(|r| r.map(drop)),
							Bound::Seq(l) => within(l.accept()).await.map(|r| r.map(drop)),
						};
						drop(client);
						match ok {
							Some(Ok(())) => (),
							Some(Err(e)) => return Err(format!("the new listener can't accept a connection: {}", e)),
							None => return Err("the new listener doesn't get the connections to its path".into()),
						}
						info.count("successful binds", 1);
					},
					Err(e) => {
						ensure!(!must, "bind failed over {}: {}", what, e);
						ensure!(before == after, "bind failed with {}, but {} became {:?}", e, what, after.get(&path));
						info.count("failed binds", 1);
					},
				}
			},
		}
	}
	Ok(())
}

fn bind_strategy() -> BoxedStrategy<BindCase> {
	let obj = || {
		prop_oneof![
			2 => Just(Obj::Nothing),
			1 => (0u8..20).prop_map(Obj::File),
			1 => any::<bool>().prop_map(Obj::Dir),
			1 => Just(Obj::Fifo),
			2 => Just(Obj::StaleStream),
			2 => Just(Obj::StaleSeq),
			1 => Just(Obj::StaleDatagram),
			1 => Just(Obj::Dangling),
			1 => Just(Obj::LinkFile),
			1 => Just(Obj::LinkDir),
			1 => Just(Obj::LinkFifo),
			1 => Just(Obj::LinkSocket),
			1 => Just(Obj::LinkLink),
		]
	};
	let step = prop_oneof![3 => obj().prop_map(Step::Put), 4 => any::<bool>().prop_map(Step::Bind), 1 => Just(Step::Drop)];
	let name = prop_oneof![
		6 => Just("s".to_string()),
		1 => Just("a socket".to_string()),
		1 => Just("søck.sock~".to_string()),
		1 => Just(".hidden".to_string()),
		1 => Just("missing/s".to_string()),
		1 => Just("x".repeat(120)),
		1 => Just("neighbour/s".to_string()),
	];
	bx((name, obj(), any::<bool>(), prop::collection::vec(step, 0..6)).prop_map(|(name, o, b, rest)| {
		let mut steps = vec![Step::Put(o), Step::Bind(b)];
		steps.extend(rest);
		BindCase { name, steps }
	}))
}

pub fn c19(ctx: &Arc<Ctx>) {
	ctx.assume("The directory of the path is writable and nobody else changes it. Device files are not generated, because this needs privileges.");
	ctx.check("binding", Opts { quick: 40_000, thorough: 600_000, shards: 8, rule: "something exists at the path when binding" }, bind_strategy, |c, info| {
		info.nontrivial = !matches!(c.steps[0], Step::Put(Obj::Nothing)) || c.steps.iter().filter(|s| matches!(s, Step::Bind(_))).count() >= 2;
		local(bind_case(c, info))
	});
}
