//! In-memory transport with scripted faults, implementing the crate's public transport traits.
use crate::util::*;
use fizyr_rpc::transport::{StreamTransport, Transport, TransportError, TransportReadHalf, TransportWriteHalf};
use fizyr_rpc::{Message, MessageHeader, StreamBody, UnixStreamTransport};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
	NonFatal,
	/// The remote closed the connection.
	Eof,
	/// Any other fatal error.
	Broken,
}

pub enum In {
	Msg(Hdr, Vec<u8>),
	Err(Fault),
}

/// One direction of a connection.
pub struct Chan {
	pub queue: VecDeque<In>,
	pub cap: usize,
	/// Does the transport accept data at all?
	pub open: bool,
	pub writer_gone: bool,
	pub reader_gone: bool,
	reader: Option<Waker>,
	writer: Option<Waker>,
	/// The next write fails with this.
	pub fail: Option<Fault>,
	/// Complete writes need an extra poll.
	pub slow: bool,
	/// Everything that was written.
	pub log: Vec<(Hdr, Vec<u8>)>,
	/// Headers of failed writes.
	pub failed: Vec<Hdr>,
	/// Write in progress.
	progress: Option<(Hdr, Vec<u8>)>,
	/// Misuse of the transport by the peer.
	pub misuse: Option<String>,
	pub keep: bool,
}

pub type Ch = Arc<Mutex<Chan>>;

impl Chan {
	pub fn new() -> Ch {
		Arc::new(Mutex::new(Chan {
			queue: VecDeque::new(),
			cap: usize::MAX,
			open: true,
			writer_gone: false,
			reader_gone: false,
			reader: None,
			writer: None,
			fail: None,
			slow: false,
			log: Vec::new(),
			failed: Vec::new(),
			progress: None,
			misuse: None,
			keep: true,
		}))
	}
	pub fn wake_reader(&mut self) {
		if let Some(w) = self.reader.take() {
			w.wake()
		}
	}
	pub fn wake_writer(&mut self) {
		if let Some(w) = self.writer.take() {
			w.wake()
		}
	}
	pub fn push(&mut self, m: In) {
		self.queue.push_back(m);
		self.wake_reader();
	}
	pub fn set_open(&mut self, open: bool) {
		self.open = open;
		if open {
			self.wake_writer();
		}
	}
	pub fn close_writer(&mut self) {
		self.writer_gone = true;
		self.wake_reader();
	}
	pub fn close_reader(&mut self) {
		self.reader_gone = true;
		self.wake_writer();
	}
}

pub struct MemTransport {
	pub rx: Ch,
	pub tx: Ch,
}

pub struct MemRead<'a>(&'a Ch);
pub struct MemWrite<'a>(&'a Ch);

impl Drop for MemTransport {
	fn drop(&mut self) {
		self.rx.lock().unwrap().close_reader();
		self.tx.lock().unwrap().close_writer();
	}
}

impl Transport for MemTransport {
	type Body = StreamBody;
	type Info = ();
	type Config = ();
	type ReadHalf<'a> = MemRead<'a>;
	type WriteHalf<'a> = MemWrite<'a>;
	fn split(&mut self) -> (MemRead<'_>, MemWrite<'_>) {
		(MemRead(&self.rx), MemWrite(&self.tx))
	}
	fn info(&self) -> std::io::Result<()> {
		Ok(())
	}
}

impl TransportReadHalf for MemRead<'_> {
	type Body = StreamBody;
	fn poll_read_msg(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<Message<StreamBody>, TransportError>> {
		let mut c = self.0.lock().unwrap();
		match c.queue.pop_front() {
			Some(In::Msg(h, b)) => {
				c.wake_writer();
				Poll::Ready(Ok(Message::new(h.get(), b.into())))
			},
			Some(In::Err(f)) => Poll::Ready(Err(error(f))),
			None if c.writer_gone => Poll::Ready(Err(error(Fault::Eof))),
			None => {
				c.reader = Some(cx.waker().clone());
				Poll::Pending
			},
		}
	}
}

impl TransportWriteHalf for MemWrite<'_> {
	type Body = StreamBody;
	fn poll_write_msg(self: Pin<&mut Self>, cx: &mut Context, header: &MessageHeader, body: &StreamBody) -> Poll<Result<(), TransportError>> {
		let mut c = self.0.lock().unwrap();
		let h = Hdr::of(header);
		let started = match c.progress.take() {
			None => false,
			Some((ph, pb)) => {
				if ph != h || pb[..] != body[..] {
					c.misuse = Some(format!("write of {:?} was abandoned half way for {:?}", ph, h));
				}
				true
			},
		};
		if c.reader_gone {
			c.failed.push(h);
			return Poll::Ready(Err(error(Fault::Broken)));
		}
		if !c.open || c.queue.len() >= c.cap {
			c.progress = Some((h, body[..].to_vec()));
			c.writer = Some(cx.waker().clone());
			return Poll::Pending;
		}
		if c.slow && !started {
			c.progress = Some((h, body[..].to_vec()));
			cx.waker().wake_by_ref();
			return Poll::Pending;
		}
		if let Some(f) = c.fail.take() {
			c.failed.push(h);
			return Poll::Ready(Err(error(f)));
		}
		c.log.push((h, body[..].to_vec()));
		if c.keep {
			c.push(In::Msg(h, body[..].to_vec()));
		}
		Poll::Ready(Ok(()))
	}
}

/// Transport errors can't be made outside of the crate, so get them from real transports.
struct Source {
	rt: tokio::runtime::Runtime,
	limited: UnixStreamTransport,
	_other: tokio::net::UnixStream,
	ended: UnixStreamTransport,
}

thread_local!(static SOURCE: RefCell<Option<Source>> = const { RefCell::new(None) });

/// A transport error of the wanted kind.
pub fn error(f: Fault) -> TransportError {
	try_error(f).unwrap_or_else(|| panic!("harness: no transport error of kind {:?} available", f))
}

/// None if the transports do not report errors of this kind as they should (which other checks find).
pub fn try_error(f: Fault) -> Option<TransportError> {
	SOURCE.with(|s| {
		let mut s = s.borrow_mut();
		let s = s.get_or_insert_with(|| {
			let rt = rt();
			let _g = rt.enter();
			let (a, b) = tokio::net::UnixStream::pair().unwrap();
			let mut config = fizyr_rpc::StreamConfig::default();
			config.max_body_len_write = 0;
			let limited = StreamTransport::new(a, config);
			let (c, d) = tokio::net::UnixStream::pair().unwrap();
			drop(d);
			let ended = StreamTransport::new(c, Default::default());
			drop(_g);
			Source { rt, limited, _other: b, ended }
		});
		let e = match f {
			Fault::NonFatal => {
				let (_r, mut w) = s.limited.split();
				s.rt.block_on(async { w.write_msg(&MessageHeader::stream(0, 0), &vec![1u8].into()).await }).err()?
			},
			Fault::Eof => {
				let (mut r, _w) = s.ended.split();
				s.rt.block_on(async { r.read_msg().await }).err()?
			},
			Fault::Broken => {
				let (_r, mut w) = s.ended.split();
				s.rt.block_on(async { w.write_msg(&MessageHeader::stream(0, 0), &vec![1u8].into()).await }).err()?
			},
		};
		(e.is_fatal() == (f != Fault::NonFatal)).then_some(e)
	})
}
