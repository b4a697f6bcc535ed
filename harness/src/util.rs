use fizyr_rpc::transport::Endian;
use fizyr_rpc::{MessageHeader, MessageType};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum En {
	Little,
	Big,
	Native,
}

impl En {
	pub fn get(self) -> Endian {
		match self {
			En::Little => Endian::LittleEndian,
			En::Big => Endian::BigEndian,
			En::Native => Endian::NativeEndian,
		}
	}
	pub fn is_little(self) -> bool {
		match self {
			En::Little => true,
			En::Big => false,
			En::Native => cfg!(target_endian = "little"),
		}
	}
	/// Reference encoding of a 32 bit field, written without to_*_bytes.
	pub fn u32(self, v: u32) -> [u8; 4] {
		let le = [(v & 0xff) as u8, ((v >> 8) & 0xff) as u8, ((v >> 16) & 0xff) as u8, (v >> 24) as u8];
		if self.is_little() {
			le
		} else {
			[le[3], le[2], le[1], le[0]]
		}
	}
	pub fn read_u32(self, b: &[u8]) -> u32 {
		let x = |i: usize| b[i] as u32;
		if self.is_little() {
			x(0) | x(1) << 8 | x(2) << 16 | x(3) << 24
		} else {
			x(3) | x(2) << 8 | x(1) << 16 | x(0) << 24
		}
	}
}

pub fn endian() -> impl Strategy<Value = En> {
	prop_oneof![Just(En::Little), Just(En::Big), Just(En::Native)]
}

/// A header in plain integers.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Hdr {
	pub t: u8,
	pub id: u32,
	pub svc: i32,
}

impl Hdr {
	pub fn get(&self) -> MessageHeader {
		MessageHeader {
			message_type: match self.t {
				0 => MessageType::Request,
				1 => MessageType::Response,
				2 => MessageType::RequesterUpdate,
				3 => MessageType::ResponderUpdate,
				4 => MessageType::Stream,
				_ => unreachable!(),
			},
			request_id: self.id,
			service_id: self.svc,
		}
	}
	pub fn of(h: &MessageHeader) -> Hdr {
		let t = match h.message_type {
			MessageType::Request => 0,
			MessageType::Response => 1,
			MessageType::RequesterUpdate => 2,
			MessageType::ResponderUpdate => 3,
			MessageType::Stream => 4,
		};
		Hdr { t, id: h.request_id, svc: h.service_id }
	}
	/// Reference encoding.
	pub fn bytes(&self, e: En) -> [u8; 12] {
		let mut out = [0; 12];
		out[..4].copy_from_slice(&e.u32(self.t as u32));
		out[4..8].copy_from_slice(&e.u32(self.id));
		out[8..].copy_from_slice(&e.u32(self.svc as u32));
		out
	}
}

pub fn edge_u32() -> impl Strategy<Value = u32> {
	prop_oneof![
		3 => any::<u32>(),
		2 => 0u32..20,
		2 => prop::sample::select(vec![0u32, 1, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff, 0x0102_0304, 0x00ff_ff00]),
		1 => (0u32..32).prop_map(|s| 1u32 << s),
	]
}

pub fn edge_i32() -> impl Strategy<Value = i32> {
	edge_u32().prop_map(|x| x as i32)
}

pub fn hdr() -> impl Strategy<Value = Hdr> {
	(0u8..5, edge_u32(), edge_i32()).prop_map(|(t, id, svc)| Hdr { t, id, svc })
}

/// Compact description of a body: length and a seed for the content.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Bd {
	pub len: u32,
	pub seed: u32,
}

impl Bd {
	pub fn bytes(&self) -> Vec<u8> {
		let mut x = self.seed.wrapping_mul(0x9E37_79B9) ^ 0x1234_5678;
		(0..self.len)
			.map(|_| {
				x = x.wrapping_mul(1664525).wrapping_add(1013904223);
				(x >> 24) as u8
			})
			.collect()
	}
}

pub fn frame(h: &Hdr, body: &[u8], e: En) -> Vec<u8> {
	let mut out = Vec::with_capacity(16 + body.len());
	out.extend_from_slice(&e.u32(12 + body.len() as u32));
	out.extend_from_slice(&h.bytes(e));
	out.extend_from_slice(body);
	out
}

pub struct CountWaker(pub AtomicUsize);
impl Wake for CountWaker {
	fn wake(self: Arc<Self>) {
		self.0.fetch_add(1, Ordering::SeqCst);
	}
	fn wake_by_ref(self: &Arc<Self>) {
		self.0.fetch_add(1, Ordering::SeqCst);
	}
}

pub fn count_waker() -> (Arc<CountWaker>, Waker) {
	let c = Arc::new(CountWaker(AtomicUsize::new(0)));
	(c.clone(), Waker::from(c))
}

pub fn poll_once<F: Future + Unpin>(f: &mut F) -> Poll<F::Output> {
	let (_c, w) = count_waker();
	let mut cx = Context::from_waker(&w);
	Pin::new(f).poll(&mut cx)
}

/// First difference of two byte strings, for messages.
pub fn diff(a: &[u8], b: &[u8]) -> String {
	let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
	format!("lengths {} and {}, first difference at {}", a.len(), b.len(), i)
}

pub fn rt() -> tokio::runtime::Runtime {
	tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}

/// Runtime with a paused clock: a timeout fires only when nothing else can make progress.
pub fn rt_paused() -> tokio::runtime::Runtime {
	tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap()
}

/// Allocator that records the largest allocation of this thread, and how much memory it holds.
pub struct TrackAlloc;
thread_local!(static LIVE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) });
fn live_add(n: i64) {
	let _ = LIVE.try_with(|l| l.set(l.get() + n));
}
/// Memory allocated minus memory freed by this thread.
pub fn live() -> i64 {
	LIVE.with(|l| l.get())
}
thread_local!(pub static MAX_ALLOC: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
unsafe impl std::alloc::GlobalAlloc for TrackAlloc {
	unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
		let _ = MAX_ALLOC.try_with(|m| m.set(m.get().max(l.size())));
		live_add(l.size() as i64);
		std::alloc::System.alloc(l)
	}
	unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
		let _ = MAX_ALLOC.try_with(|m| m.set(m.get().max(l.size())));
		live_add(l.size() as i64);
		std::alloc::System.alloc_zeroed(l)
	}
	unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
		let _ = MAX_ALLOC.try_with(|m| m.set(m.get().max(n)));
		live_add(n as i64 - l.size() as i64);
		std::alloc::System.realloc(p, l, n)
	}
	unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
		live_add(-(l.size() as i64));
		std::alloc::System.dealloc(p, l)
	}
}
pub fn reset_max_alloc() {
	MAX_ALLOC.with(|m| m.set(0));
}
pub fn max_alloc() -> usize {
	MAX_ALLOC.with(|m| m.get())
}

struct Gate {
	woken: AtomicBool,
	parent: Mutex<Waker>,
}

impl Wake for Gate {
	fn wake(self: Arc<Self>) {
		self.wake_by_ref()
	}
	fn wake_by_ref(self: &Arc<Self>) {
		self.woken.store(true, Ordering::SeqCst);
		let parent = self.parent.lock().unwrap().clone();
		parent.wake();
	}
}

/// Like the timeout of tokio, but the future is only polled when it was woken.
///
/// Tokio's polls it whenever the task is polled, and once more at the end, which hides that somebody forgot to wake it.
pub async fn timeout<F: Future>(limit: std::time::Duration, f: F) -> Result<F::Output, &'static str> {
	tokio::pin!(f);
	let sleep = tokio::time::sleep(limit);
	tokio::pin!(sleep);
	let gate = Arc::new(Gate { woken: AtomicBool::new(true), parent: Mutex::new(count_waker().1) });
	let waker = Waker::from(gate.clone());
	let mut again = 0;
	std::future::poll_fn(move |cx| {
		*gate.parent.lock().unwrap() = cx.waker().clone();
		if gate.woken.swap(false, Ordering::SeqCst) {
			if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&waker)) {
				return Poll::Ready(Ok(x));
			}
		}
		while sleep.as_mut().poll(cx).is_ready() {
			// There may still be progress (a paused clock runs ahead easily).
			if again == 3 || !gate.woken.load(Ordering::SeqCst) {
				return Poll::Ready(Err("timeout"));
			}
			again += 1;
			sleep.as_mut().reset(tokio::time::Instant::now() + limit);
		}
		if gate.woken.load(Ordering::SeqCst) {
			cx.waker().wake_by_ref();
		}
		Poll::Pending
	})
	.await
}
