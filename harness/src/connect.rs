//! C27: connecting reaches exactly the listener at the given address, or fails.
use crate::fds;
use crate::fw::*;
use crate::limits::AsBytes;
use crate::listen::{me, sockaddr, Scratch};
use crate::util::{diff, endian, frame, rt, timeout, Bd, En, Hdr};
use fizyr_rpc::transport::{StreamTransport, Transport, UnixTransport};
use fizyr_rpc::util::Connect;
use fizyr_rpc::{Body, Peer, PeerHandle, ReceivedMessage};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::future::Future;
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::sync::Arc;
use std::task::Poll;
use std::time::Duration;
use tokio::io::unix::AsyncFd;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Net {
	Tcp,
	Unix,
	Seq,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ep {
	/// Listening, with the credentials of the listener.
	Unix { seq: bool, uid: u32, gid: u32, moved: bool },
	/// Listening on 127.0.0.x, possibly on the same port as another one.
	Tcp { host: u8, same: bool, v6: bool },
	/// Bound but not listening.
	Closed { host: u8 },
	/// A socket file that nobody listens on any more.
	Stale { seq: bool },
	Datagram,
	File,
	Dir,
	Absent,
	NoDir,
	TooLong,
	/// A symbolic link to another of these.
	Link(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Conn {
	net: Net,
	at: u8,
	/// Further addresses, for TCP.
	more: Vec<u8>,
	/// How the address is given.
	form: u8,
	/// Through the trait instead of Peer::connect.
	low: bool,
	/// Prefer an endpoint that fits.
	fit: bool,
	en: En,
	max: (u16, u16),
	/// Use the default configuration instead.
	default: bool,
	bodies: (u16, u16),
	/// Give up after this many polls.
	cancel: Option<u8>,
	/// Start together with the one before.
	join: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
	eps: Vec<Ep>,
	conns: Vec<Conn>,
}

fn case() -> BoxedStrategy<Case> {
	let cred = || prop_oneof![2 => Just(0u32), 3 => 1000u32..70_000];
	let ep = prop_oneof![
		6 => (any::<bool>(), cred(), cred(), any::<bool>()).prop_map(|(seq, uid, gid, m)| Ep::Unix { seq, uid, gid, moved: m }),
		4 => (1u8..4, any::<bool>(), prop::bool::weighted(0.1)).prop_map(|(host, same, v6)| Ep::Tcp { host, same, v6 }),
		2 => (1u8..4).prop_map(|host| Ep::Closed { host }),
		2 => any::<bool>().prop_map(|seq| Ep::Stale { seq }),
		1 => Just(Ep::Datagram),
		1 => Just(Ep::File),
		1 => Just(Ep::Dir),
		1 => Just(Ep::Absent),
		1 => Just(Ep::NoDir),
		1 => Just(Ep::TooLong),
		2 => any::<u8>().prop_map(Ep::Link),
	];
	let net = prop_oneof![1 => Just(Net::Tcp), 2 => Just(Net::Unix), 2 => Just(Net::Seq)];
	let conn = (
		(net, any::<u8>(), prop_oneof![3 => Just(Vec::new()), 1 => prop::collection::vec(any::<u8>(), 1..4)], any::<u8>(), any::<bool>(), prop::bool::weighted(0.8)),
		(endian(), (0u16..300, 0u16..300), prop::bool::weighted(0.15), (any::<u16>(), any::<u16>()), prop_oneof![5 => Just(None), 1 => (0u8..4).prop_map(Some)], any::<bool>()),
	)
		.prop_map(|((net, at, more, form, low, fit), (en, max, default, bodies, cancel, join))| Conn { net, at, more, form, low, fit, en, max, default, bodies, cancel, join });
	bx((prop::collection::vec(ep, 1..6), prop::collection::vec(conn, 1..7)).prop_map(|(eps, conns)| Case { eps, conns }))
}

// ---------------------------------------------------------------- raw sockets

struct Raw(AsyncFd<OwnedFd>);

fn check(r: isize) -> std::io::Result<usize> {
	if r < 0 {
		Err(std::io::Error::last_os_error())
	} else {
		Ok(r as usize)
	}
}

impl Drop for Raw {
	fn drop(&mut self) {
		// Leave no TCP connection in TIME_WAIT: the ports run out.
		let l = libc::linger { l_onoff: 1, l_linger: 0 };
		unsafe { libc::setsockopt(self.0.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of_val(&l) as _) };
	}
}

impl Raw {
	async fn retry(&self, write: bool, mut f: impl FnMut(i32) -> isize) -> std::io::Result<usize> {
		loop {
			let mut g = if write { self.0.writable().await? } else { self.0.readable().await? };
			if let Ok(x) = g.try_io(|fd| check(f(fd.as_raw_fd()))) {
				return x;
			}
		}
	}
	fn try_accept(&self) -> std::io::Result<Raw> {
		let fd = check(unsafe { libc::accept4(self.0.as_raw_fd(), std::ptr::null_mut(), std::ptr::null_mut(), libc::SOCK_CLOEXEC | libc::SOCK_NONBLOCK) } as isize)?;
		Ok(Raw(AsyncFd::new(unsafe { OwnedFd::from_raw_fd(fd as i32) })?))
	}
	async fn accept(&self) -> std::io::Result<Raw> {
		let mut got = None;
		self.retry(false, |fd| {
			let r = unsafe { libc::accept4(fd, std::ptr::null_mut(), std::ptr::null_mut(), libc::SOCK_CLOEXEC | libc::SOCK_NONBLOCK) };
			got = (r >= 0).then_some(r);
			r as isize
		})
		.await?;
		Ok(Raw(AsyncFd::new(unsafe { OwnedFd::from_raw_fd(got.unwrap()) })?))
	}
	async fn recv(&self, n: usize) -> std::io::Result<Vec<u8>> {
		let mut buf = vec![0u8; n];
		let n = self.retry(false, |fd| unsafe { libc::recv(fd, buf.as_mut_ptr() as *mut _, n, 0) }).await?;
		buf.truncate(n);
		Ok(buf)
	}
	/// One datagram, or this many bytes of a stream, or less at the end.
	async fn recv_frame(&self, net: Net, n: usize) -> std::io::Result<Vec<u8>> {
		if net == Net::Seq {
			return self.recv(100_000).await;
		}
		let mut out = Vec::new();
		while out.len() < n {
			let got = self.recv(n - out.len()).await?;
			if got.is_empty() {
				break;
			}
			out.extend(got);
		}
		Ok(out)
	}
	async fn send(&self, mut data: &[u8]) -> std::io::Result<()> {
		while !data.is_empty() {
			let n = self.retry(true, |fd| unsafe { libc::send(fd, data.as_ptr() as *const _, data.len(), libc::MSG_NOSIGNAL) }).await?;
			data = &data[n..];
		}
		Ok(())
	}
	fn names(&self) -> std::io::Result<(SocketAddr, SocketAddr)> {
		use std::os::fd::AsFd;
		let s = std::net::TcpStream::from(self.0.get_ref().as_fd().try_clone_to_owned()?);
		Ok((s.local_addr()?, s.peer_addr()?))
	}
}

fn unix_socket(path: &Path, kind: i32, listen: bool) -> std::io::Result<OwnedFd> {
	unsafe {
		let fd = OwnedFd::from_raw_fd(check(libc::socket(libc::AF_UNIX, kind | libc::SOCK_CLOEXEC | libc::SOCK_NONBLOCK, 0) as isize)? as i32);
		let a = sockaddr(path).expect("path too long");
		check(libc::bind(fd.as_raw_fd(), &a as *const _ as *const _, std::mem::size_of_val(&a) as _) as isize)?;
		if listen {
			check(libc::listen(fd.as_raw_fd(), 128) as isize)?;
		}
		Ok(fd)
	}
}

fn tcp_socket(ip: Ipv4Addr, port: u16, listen: bool) -> std::io::Result<(OwnedFd, SocketAddr)> {
	unsafe {
		let fd = OwnedFd::from_raw_fd(check(libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC | libc::SOCK_NONBLOCK, 0) as isize)? as i32);
		let mut a: libc::sockaddr_in = std::mem::zeroed();
		a.sin_family = libc::AF_INET as _;
		a.sin_port = port.to_be();
		a.sin_addr.s_addr = u32::from(ip).to_be();
		check(libc::bind(fd.as_raw_fd(), &a as *const _ as *const _, std::mem::size_of_val(&a) as _) as isize)?;
		if listen {
			check(libc::listen(fd.as_raw_fd(), 128) as isize)?;
		}
		let mut len = std::mem::size_of_val(&a) as libc::socklen_t;
		check(libc::getsockname(fd.as_raw_fd(), &mut a as *mut _ as *mut _, &mut len) as isize)?;
		Ok((fd, SocketAddr::new(IpAddr::V4(ip), u16::from_be(a.sin_port))))
	}
}

/// Create a listener from a thread with its own credentials, if that is possible.
fn listen_as(path: PathBuf, kind: i32, uid: u32, gid: u32) -> std::io::Result<(OwnedFd, (u32, u32, Option<i32>))> {
	std::thread::spawn(move || {
		let mut who = me();
		unsafe {
			if who.0 == 0 && libc::syscall(libc::SYS_setresgid, gid, gid, gid) == 0 {
				who.1 = gid;
				if libc::syscall(libc::SYS_setresuid, uid, uid, uid) == 0 {
					who.0 = uid;
				}
			}
		}
		Ok((unix_socket(&path, kind, true)?, who))
	})
	.join()
	.unwrap()
}

/// The error of a plain connect.
fn refusal(path: &Path, net: Net) -> Option<std::io::ErrorKind> {
	let a = sockaddr(path)?;
	let kind = if net == Net::Seq { libc::SOCK_SEQPACKET } else { libc::SOCK_STREAM };
	unsafe {
		let fd = OwnedFd::from_raw_fd(libc::socket(libc::AF_UNIX, kind | libc::SOCK_CLOEXEC | libc::SOCK_NONBLOCK, 0));
		match libc::connect(fd.as_raw_fd(), &a as *const _ as *const _, std::mem::size_of_val(&a) as _) {
			0 => None,
			_ => Some(std::io::Error::last_os_error().kind()),
		}
	}
}

// ---------------------------------------------------------------- endpoints

struct Point {
	path: Option<PathBuf>,
	addr: Option<SocketAddr>,
	listens: Option<Net>,
	/// Index of the endpoint this one stands for.
	target: usize,
	who: (u32, u32, Option<i32>),
	sock: Option<OwnedFd>,
}

fn points(c: &Case, dir: &Path) -> std::io::Result<Vec<Point>> {
	let mut out: Vec<Point> = Vec::new();
	for (i, ep) in c.eps.iter().enumerate() {
		let path = dir.join(format!("p{i}"));
		let mut p = Point { path: Some(path.clone()), addr: None, listens: None, target: i, who: me(), sock: None };
		match ep {
			Ep::Unix { seq, uid, gid, moved } => {
				let at = if *moved { dir.join(format!("q{i}")) } else { path.clone() };
				let (s, who) = listen_as(at.clone(), if *seq { libc::SOCK_SEQPACKET } else { libc::SOCK_STREAM }, *uid, *gid)?;
				if *moved {
					std::fs::rename(&at, &path)?;
				}
				p.listens = Some(if *seq { Net::Seq } else { Net::Unix });
				p.who = who;
				p.sock = Some(s);
			},
			Ep::Tcp { host, same, v6 } => {
				p.path = None;
				p.listens = Some(Net::Tcp);
				let v6 = if *v6 { std::net::TcpListener::bind("[::1]:0").ok() } else { None };
				if let Some(s) = v6 {
					s.set_nonblocking(true)?;
					p.addr = Some(s.local_addr()?);
					p.sock = Some(s.into());
				} else {
					let ip = Ipv4Addr::new(127, 0, 0, *host);
					let port = if *same { out.iter().rev().find_map(|p| p.addr).map_or(0, |a| a.port()) } else { 0 };
					let (s, a) = tcp_socket(ip, port, true).or_else(|_| tcp_socket(ip, 0, true))?;
					p.addr = Some(a);
					p.sock = Some(s);
				}
			},
			Ep::Closed { host } => {
				p.path = None;
				let (s, a) = tcp_socket(Ipv4Addr::new(127, 0, 0, *host), 0, false)?;
				p.addr = Some(a);
				p.sock = Some(s);
			},
			Ep::Stale { seq } => drop(unix_socket(&path, if *seq { libc::SOCK_SEQPACKET } else { libc::SOCK_STREAM }, true)?),
			Ep::Datagram => p.sock = Some(unix_socket(&path, libc::SOCK_DGRAM, false)?),
			Ep::File => std::fs::write(&path, "file")?,
			Ep::Dir => std::fs::create_dir(&path)?,
			Ep::Absent => (),
			Ep::NoDir => p.path = Some(path.join("x")),
			Ep::TooLong => p.path = Some(dir.join("x".repeat(200))),
			Ep::Link(k) => {
				let old: Vec<usize> = (0..i).filter(|j| out[*j].path.is_some()).collect();
				if !old.is_empty() {
					let j = old[*k as usize % old.len()];
					std::os::unix::fs::symlink(out[j].path.as_ref().unwrap(), &path)?;
					p.target = out[j].target;
					p.listens = out[j].listens;
					p.who = out[j].who;
				}
			},
		}
		out.push(p);
	}
	Ok(out)
}

/// What is in the directory.
fn listing(dir: &Path) -> BTreeMap<PathBuf, (u64, u32, u64)> {
	use std::os::unix::fs::MetadataExt;
	std::fs::read_dir(dir).unwrap().map(|e| e.unwrap()).map(|e| (e.path(), e.path().symlink_metadata().map_or((0, 0, 0), |m| (m.ino(), m.mode(), m.len())))).collect()
}

// ---------------------------------------------------------------- connecting

#[derive(Clone, Debug, PartialEq)]
enum Who {
	Tcp(SocketAddr, SocketAddr),
	Unix(u32, u32, Option<i32>),
}

enum Handle {
	Stream(PeerHandle<fizyr_rpc::StreamBody>),
	Seq(PeerHandle<fizyr_rpc::UnixBody>),
}

type Connecting = Pin<Box<dyn Future<Output = std::io::Result<(Handle, Who)>>>>;

async fn either<'a, T, A>(low: bool, a: A, config: T::Config) -> std::io::Result<(PeerHandle<T::Body>, T::Info)>
where
	T: Transport + Connect<'a, A>,
	A: 'a,
{
	if low {
		let t = T::connect(a, config).await?;
		let info = t.info()?;
		Ok((Peer::spawn(t), info))
	} else {
		Peer::<T>::connect(a, config).await
	}
}

macro_rules! by_path {
	($t:ty, $c:expr, $path:expr, $config:expr) => {
		match $c.form % 4 {
			0 => either::<$t, _>($c.low, $path, $config).await,
			1 => either::<$t, _>($c.low, $path.as_path(), $config).await,
			2 => either::<$t, _>($c.low, $path.to_str().unwrap().to_string(), $config).await,
			_ => either::<$t, _>($c.low, $path.as_os_str(), $config).await,
		}
	};
}

impl Conn {
	/// With the values that apply.
	fn resolved(&self) -> Conn {
		let mut c = self.clone();
		if c.default {
			let (read, write, e) = if c.net == Net::Seq {
				let d = fizyr_rpc::UnixConfig::default();
				(d.max_body_len_read, d.max_body_len_write, d.endian)
			} else {
				let d = fizyr_rpc::StreamConfig::default();
				(d.max_body_len_read, d.max_body_len_write, d.endian)
			};
			// (Larger defaults would be hard to send at once.)
			c.max = (read.min(65_000) as u16, write.min(65_000) as u16);
			c.en = match e {
				fizyr_rpc::transport::Endian::LittleEndian => En::Little,
				fizyr_rpc::transport::Endian::BigEndian => En::Big,
				_ => En::Native,
			};
		}
		c
	}
}

fn connecting(c: Conn, path: Option<PathBuf>, addrs: Vec<SocketAddr>) -> Connecting {
	Box::pin(async move {
		match c.net {
			Net::Tcp => {
				type T = fizyr_rpc::TcpTransport;
				let config = if c.default { Default::default() } else { crate::stream::config(c.max.0 as u32, c.max.1 as u32, c.en) };
				let (h, i) = match (c.form % 5, addrs.len()) {
					(0, 1) => either::<T, _>(c.low, addrs[0], config).await,
					(1, 1) => either::<T, _>(c.low, (addrs[0].ip(), addrs[0].port()), config).await,
					(2, 1) => either::<T, _>(c.low, addrs[0].to_string(), config).await,
					(3, 1) => either::<T, _>(c.low, &addrs[0].to_string()[..], config).await,
					_ => either::<T, _>(c.low, &addrs[..], config).await,
				}?;
				Ok((Handle::Stream(h), Who::Tcp(*i.local_address(), *i.remote_address())))
			},
			Net::Unix => {
				type T = StreamTransport<tokio::net::UnixStream>;
				let path = path.unwrap();
				let config = if c.default { Default::default() } else { crate::stream::config(c.max.0 as u32, c.max.1 as u32, c.en) };
				let (h, i) = by_path!(T, c, path, config)?;
				Ok((Handle::Stream(h), Who::Unix(i.user_id(), i.group_id(), i.process_id())))
			},
			Net::Seq => {
				type T = UnixTransport<tokio_seqpacket::UnixSeqpacket>;
				let path = path.unwrap();
				let config = if c.default { Default::default() } else { crate::seq::config(c.max.0 as u32, c.max.1 as u32, 3, 3, c.en) };
				let (h, i) = by_path!(T, c, path, config)?;
				Ok((Handle::Seq(h), Who::Unix(i.user_id(), i.group_id(), i.process_id())))
			},
		}
	})
}

const LIMIT: Duration = Duration::from_secs(30);

async fn within<F: Future>(what: &str, f: F) -> Result<F::Output, String> {
	timeout(LIMIT, f).await.map_err(|_| format!("{} never completes", what))
}

fn packet(net: Net, h: &Hdr, body: &[u8], e: En) -> Vec<u8> {
	let f = frame(h, body, e);
	if net == Net::Seq {
		f[4..].to_vec()
	} else {
		f
	}
}

/// The connection works both ways, with the given configuration.
async fn exercise<B: Body + From<Vec<u8>> + AsBytes>(what: &str, c: &Conn, h: &mut PeerHandle<B>, raw: &Raw) -> CaseResult {
	let io = |e: std::io::Error| format!("{what}: the raw end: {e}");
	let (read, write) = (c.max.0 as u32, c.max.1 as u32);
	// Out.
	ensure!(within(what, h.send_stream(7, Bd { len: write + 1, seed: 1 }.bytes())).await?.is_err(), "{what}: sent more than the write limit {write}");
	let lens = [c.bodies.0 as u32 % (write + 1), write];
	for (k, len) in lens.into_iter().enumerate() {
		let body = Bd { len, seed: k as u32 }.bytes();
		within(what, h.send_request(900 + k as i32, body.clone())).await?.map_err(|e| format!("{what}: request of {len} bytes: {e}"))?;
		// The ID is the peer's choice.
		let got = within(what, raw.recv_frame(c.net, len as usize + 16)).await?.map_err(io)?;
		let at = if c.net == Net::Seq { 4 } else { 8 };
		ensure!(got.len() >= at + 8, "{what}: {} bytes instead of a request", got.len());
		let id = c.en.read_u32(&got[at..]);
		let want = packet(c.net, &Hdr { t: 0, id, svc: 900 + k as i32 }, &body, c.en);
		ensure!(got == want, "{what}: a request of {len} bytes arrives differently: {}", diff(&got, &want));
	}
	// In.
	for (k, len) in [c.bodies.1 as u32 % (read + 1), read, 0].into_iter().enumerate() {
		let body = Bd { len, seed: 77 + k as u32 }.bytes();
		within(what, raw.send(&packet(c.net, &Hdr { t: 4, id: 0, svc: k as i32 - 1 }, &body, c.en))).await?.map_err(io)?;
		match within(what, h.recv_message()).await? {
			Ok(ReceivedMessage::Stream(m)) => {
				ensure!(m.header.service_id == k as i32 - 1 && m.body.bytes() == body, "{what}: received {:?} with {} bytes, expected {len}", m.header, m.body.bytes().len());
			},
			other => return Err(format!("{what}: a message of {len} bytes (limit {read}) arrives as {other:?}")),
		}
	}
	within(what, raw.send(&packet(c.net, &Hdr { t: 4, id: 0, svc: 5 }, &Bd { len: read + 1, seed: 3 }.bytes(), c.en))).await?.map_err(io)?;
	match within(what, h.recv_message()).await? {
		Err(e) if !e.is_connection_aborted() => Ok(()),
		other => Err(format!("{what}: a message of {} bytes (limit {read}) arrives as {other:?}", read + 1)),
	}
}

struct Up {
	k: usize,
	handle: Handle,
	who: Who,
	raw: Option<Raw>,
}

async fn go(c: &Case, dir: &Path, pts: &mut [Point], info: &mut Info) -> CaseResult {
	let harness = |e: std::io::Error| format!("harness: {e}");
	let before = listing(dir);
	let mut socks: Vec<Option<Raw>> = Vec::new();
	for p in pts.iter_mut() {
		let s = if p.listens.is_some() { p.sock.take() } else { None };
		socks.push(s.map(AsyncFd::new).transpose().map_err(harness)?.map(Raw));
	}
	let mut ups: Vec<Up> = Vec::new();
	let mut at = 0;
	while at < c.conns.len() {
		let mut end = at + 1;
		while end < c.conns.len() && c.conns[end].join {
			end += 1;
		}
		// Endpoint that has to be reached, or the error.
		let mut jobs: Vec<(usize, Option<Connecting>, Option<u8>, Result<usize, Option<std::io::ErrorKind>>)> = Vec::new();
		for k in at..end {
			let conn = &c.conns[k];
			let usable: Vec<usize> = (0..pts.len()).filter(|i| if conn.net == Net::Tcp { pts[*i].addr.is_some() } else { pts[*i].path.is_some() }).collect();
			if usable.is_empty() {
				continue;
			}
			let good: Vec<usize> = usable.iter().copied().filter(|i| pts[*i].listens == Some(conn.net)).collect();
			let bad: Vec<usize> = usable.iter().copied().filter(|i| !good.contains(i)).collect();
			let first = if !conn.more.is_empty() && conn.form & 0x40 != 0 && !bad.is_empty() {
				bad[conn.at as usize % bad.len()]
			} else if conn.fit && !good.is_empty() {
				good[conn.at as usize % good.len()]
			} else {
				usable[conn.at as usize % usable.len()]
			};
			let (path, addrs, want);
			if conn.net == Net::Tcp {
				let mut list = vec![first];
				list.extend(conn.more.iter().map(|i| usable[*i as usize % usable.len()]));
				if conn.form & 0x80 != 0 {
					list.rotate_left(1);
				}
				want = list.iter().copied().find(|i| pts[*i].listens == Some(Net::Tcp)).ok_or(Some(std::io::ErrorKind::ConnectionRefused));
				info.label_if(list.len() > 1 && want.is_ok() && want != Ok(list[0]), "a later address of the list");
				addrs = list.iter().map(|i| pts[*i].addr.unwrap()).collect();
				path = None;
			} else {
				path = pts[first].path.clone();
				addrs = Vec::new();
				want = if pts[first].listens == Some(conn.net) { Ok(pts[first].target) } else { Err(refusal(path.as_ref().unwrap(), conn.net)) };
				info.label_if(want.is_ok() && pts[first].target != first, "through a symbolic link");
			}
			info.label_if(want.is_err(), "nobody listens");
			info.label_if(want.is_err() && pts[first].listens.is_some() && conn.net != Net::Tcp, "listener of the other kind");
			info.nontrivial |= pts.len() > 1;
			jobs.push((k, Some(connecting(conn.clone(), path, addrs)), conn.cancel, want));
		}
		info.label_if(jobs.len() > 1, "at the same time");
		let mut results: Vec<Option<std::io::Result<(Handle, Who)>>> = jobs.iter().map(|_| None).collect();
		let all = std::future::poll_fn(|cx| {
			let mut busy = false;
			for (j, r) in jobs.iter_mut().zip(&mut results) {
				let Some(f) = &mut j.1 else { continue };
				if j.2 == Some(0) {
					j.1 = None;
					continue;
				}
				match f.as_mut().poll(cx) {
					Poll::Ready(x) => {
						*r = Some(x);
						j.1 = None;
					},
					Poll::Pending => {
						if let Some(n) = &mut j.2 {
							*n -= 1;
							cx.waker().wake_by_ref();
						}
						busy = true;
					},
				}
			}
			if busy { Poll::Pending } else { Poll::Ready(()) }
		});
		within(&format!("connect {at} to {}", end - 1), all).await?;
		// Expected at each listener: connections, and connects that were given up.
		let mut expect: BTreeMap<usize, (usize, usize)> = BTreeMap::new();
		for (j, r) in jobs.iter().zip(results) {
			let what = format!("connect {} ({:?} {:?})", j.0, c.conns[j.0].net, c.conns[j.0].at);
			match (r, &j.3) {
				(Some(Ok((handle, who))), Ok(t)) => {
					expect.entry(*t).or_default().0 += 1;
					info.label(match c.conns[j.0].net {
						Net::Tcp => "tcp",
						Net::Unix => "unix stream",
						Net::Seq => "seqpacket",
					});
					ups.push(Up { k: j.0, handle, who, raw: None });
				},
				(Some(Ok(_)), Err(e)) => return Err(format!("{what}: connected, expected {e:?}")),
				(Some(Err(e)), Ok(_)) => return Err(format!("{what}: failed with {e}")),
				(Some(Err(e)), Err(kind)) => {
					if let Some(kind) = kind {
						ensure!(e.kind() == *kind, "{what}: failed with {e} ({:?}), expected {kind:?}", e.kind());
					}
				},
				(None, want) => {
					info.label("cancelled");
					if let Ok(t) = want {
						expect.entry(*t).or_default().1 += 1;
					}
				},
			}
		}
		// Every connection says who it is.
		let first = ups.iter().position(|u| u.k >= at).unwrap_or(ups.len());
		for u in &ups[first..] {
			let what = format!("connection {}: first message", u.k);
			match &u.handle {
				Handle::Stream(h) => within(&what, h.send_stream(u.k as i32, Vec::new())).await?,
				Handle::Seq(h) => within(&what, h.send_stream(u.k as i32, Vec::new())).await?,
			}
			.map_err(|e| format!("{what}: {e}"))?;
		}
		for (t, sock) in socks.iter().enumerate() {
			let Some(sock) = sock else { continue };
			let (mut ok, mut given) = expect.get(&t).copied().unwrap_or_default();
			loop {
				let raw = if ok > 0 {
					within(&format!("accepting at endpoint {t}"), sock.accept()).await?.map_err(harness)?
				} else {
					match sock.try_accept() {
						Ok(r) => r,
						Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
						// A client that was cancelled.
						Err(_) if given > 0 => {
							given -= 1;
							continue;
						},
						Err(e) => return Err(harness(e)),
					}
				};
				let net = pts[t].listens.unwrap();
				let got = match within(&format!("first message at endpoint {t}"), raw.recv_frame(net, 16)).await? {
					Ok(x) if !x.is_empty() => x,
					_ => {
						ensure!(given > 0, "endpoint {t} has a connection that nobody made");
						given -= 1;
						continue;
					},
				};
				let mine = ups[first..].iter_mut().find(|u| u.raw.is_none() && got == packet(net, &Hdr { t: 4, id: id_of(net, &got, c.conns[u.k].en), svc: u.k as i32 }, &[], c.conns[u.k].en));
				let Some(u) = mine else { return Err(format!("endpoint {t} received {got:02x?} at first")) };
				let want = jobs.iter().find(|j| j.0 == u.k).unwrap().3;
				ensure!(want == Ok(t), "connection {} reached endpoint {t} instead of {want:?}", u.k);
				let who = match net {
					Net::Tcp => raw.names().map(|(l, p)| Who::Tcp(p, l)).map_err(harness)?,
					_ => Who::Unix(pts[t].who.0, pts[t].who.1, pts[t].who.2),
				};
				ensure!(u.who == who, "connection {}: the information is {:?}, expected {who:?}", u.k, u.who);
				if let (Who::Tcp(_, remote), Some(a)) = (&u.who, pts[t].addr) {
					ensure!(*remote == a, "connection {}: the remote address is {remote}, expected {a}", u.k);
				}
				u.raw = Some(raw);
				ensure!(ok > 0, "endpoint {t} has more connections than were made");
				ok -= 1;
			}
		}
		at = end;
	}
	ensure!(listing(dir) == before, "connecting changed the directory: {:?} to {:?}", before, listing(dir));
	// All connections are still independent.
	for u in &mut ups {
		let what = format!("connection {}", u.k);
		let raw = u.raw.as_ref().unwrap();
		match &mut u.handle {
			Handle::Stream(h) => exercise(&what, &c.conns[u.k], h, raw).await?,
			Handle::Seq(h) => exercise(&what, &c.conns[u.k], h, raw).await?,
		}
	}
	for u in ups {
		let Up { k, handle, raw, .. } = u;
		drop(handle);
		let raw = raw.unwrap();
		match within(&format!("end of connection {k}"), raw.recv(100)).await? {
			Ok(x) => ensure!(x.is_empty(), "connection {k}: {} bytes at the end", x.len()),
			Err(e) => ensure!(e.raw_os_error() == Some(libc::ECONNRESET), "connection {k} ends with {e}"),
		}
	}
	Ok(())
}

fn id_of(net: Net, got: &[u8], e: En) -> u32 {
	let at = if net == Net::Seq { 4 } else { 8 };
	if got.len() >= at + 4 { e.read_u32(&got[at..]) } else { 0 }
}

fn run(c: &Case, info: &mut Info) -> CaseResult {
	let dir = Scratch::new("connect");
	let c = &Case { eps: c.eps.clone(), conns: c.conns.iter().map(Conn::resolved).collect() };
	info.label_if(c.conns.iter().any(|c| c.default), "default configuration");
	let mut pts = match points(c, &dir.0) {
		Ok(x) => x,
		// For example, no free port.
		Err(_) => {
			info.label("could not be set up");
			return Ok(());
		},
	};
	rt().block_on(go(c, &dir.0, &mut pts, info))
}

/// As above, alone in the process, looking at all file descriptors.
fn leak(c: &Case, info: &mut Info) -> CaseResult {
	let before = fds::open_fds();
	run(c, info)?;
	let after = fds::open_fds();
	let new: Vec<_> = after.iter().filter(|(fd, id)| before.get(fd) != Some(id)).collect();
	ensure!(new.is_empty(), "file descriptors {new:?} are still open after everything ended");
	Ok(())
}

pub fn c27(ctx: &Arc<Ctx>) {
	ctx.check("connect", Opts { quick: 60_000, thorough: 1_000_000, shards: 8, rule: "a connection was attempted with several endpoints around" }, case, run);
	ctx.check("leaks", Opts { quick: 3_000, thorough: 60_000, shards: 1, rule: "a connection was attempted with several endpoints around" }, case, leak);
}
