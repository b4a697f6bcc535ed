//! One real peer on an in-memory transport against a scripted remote, checked operation by operation against a model.
//!
//! Every operation runs to quiescence (no task is woken any more), so that the model knows exactly what must have happened.
use crate::exec::*;
use crate::fw::*;
use crate::mem::*;
use crate::util::*;
use fizyr_rpc::{
	Error, Peer, PeerCloseHandle, PeerHandle, PeerReadHandle, PeerWriteHandle, ReceivedMessage, ReceivedRequestHandle, ReceivedRequestWriteHandle, SentRequestHandle,
	SentRequestWriteHandle, StreamBody,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeSet, VecDeque};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

type Msg = fizyr_rpc::Message<StreamBody>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Rx {
	Main,
	SentUpdate(u8),
	SentResponse(u8),
	RecvUpdate(u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum IdSel {
	/// ID of a received request without response.
	OpenRecv(u8),
	/// ID of a sent request without response.
	OpenSent(u8),
	DoneRecv(u8),
	DoneSent(u8),
	/// ID of the last request that could not be written.
	LastFailed,
	Fresh(u8),
	Raw(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Remote {
	Request(IdSel, i32),
	Response(IdSel, i32),
	ReqUpdate(IdSel, i32),
	RespUpdate(IdSel, i32),
	Stream(u32, i32),
	/// A message that the transport could not decode, without harm to the connection.
	Undecodable,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum SendOp {
	Request,
	Stream,
	SentUpdate(u8),
	RecvUpdate(u8),
	Respond(u8),
	ErrorResponse(u8),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum How {
	Normal,
	/// The call is dropped while the transport accepts no data.
	Cancelled,
	/// The transport accepts no data for a while, and these messages arrive meanwhile.
	Blocked(Vec<Remote>),
	/// The transport refuses the message.
	Refused,
	/// The transport breaks.
	Broken,
	/// The call is dropped after it was polled once, before the peer does anything.
	Dropped,
	/// The transport accepts no data for a while, these messages arrive meanwhile, and then the connection ends.
	Ended(Vec<Remote>, Ended),
}

/// What happens while a write is in progress.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Ended {
	/// The remote disconnects, and the write is completed.
	Eof,
	/// Reading fails, and the write is completed.
	ReadError,
	/// The remote disconnects, and the write fails. Nothing arrives before that.
	EofAndFails,
	/// The connection is closed locally, and the write is completed. Nothing arrives before that.
	Close(u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Ctr {
	Raw(u32),
	/// Relative to the ID of an open sent request.
	Near(u8, i8),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Op {
	Start,
	Send(SendOp, u8, i32, How),
	/// Start receiving, if no receive is pending on that handle.
	Recv(Rx),
	Cancel(Rx),
	/// Stop polling a pending receive.
	Freeze(Rx),
	/// Poll a receive this often, and cancel it unless it is ready.
	Try(Rx, u8),
	Remote(Vec<Remote>),
	Split,
	CloneWrite(u8),
	DropWrite(u8),
	DropRead,
	MakeClose,
	Close(u8),
	CloneRequest(bool, u8),
	DropRequestClone(bool, u8),
	DropRequest(bool, u8),
	SetCounter(Ctr),
	ManyRequests(u8),
	/// Answer a range of the open sent requests.
	AnswerMany(u8, u8),
	End(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
	seed: u64,
	/// Keep the read and write handles together until a split operation.
	whole: bool,
	/// The transport needs two polls per message.
	slow: bool,
	/// Run the peer from the start.
	started: bool,
	ops: Vec<Op>,
	/// Receive everything before the end, or only after it.
	drain: bool,
	end: u8,
}

/// A difference between the peer and the model.
#[derive(Debug)]
pub struct Div {
	/// Properties that are violated whatever happened before.
	base: BTreeSet<&'static str>,
	/// Properties about things that happened before.
	context: BTreeSet<&'static str>,
	msg: String,
}

enum Item {
	Deliver(Hdr, Vec<u8>),
	/// At least min and at most max errors.
	Errs(u32, u32),
	/// The error that ended the connection.
	End(bool),
}

enum Main {
	Whole(Rc<RefCell<PeerHandle<StreamBody>>>),
	Split(Rc<RefCell<PeerReadHandle<StreamBody>>>),
	Dropped,
}

enum SentJob {
	Update(Job<Option<Msg>>),
	Response(Job<Result<Msg, Error>>),
}

struct Sent {
	id: u32,
	h: Option<Rc<RefCell<SentRequestHandle<StreamBody>>>>,
	w: Vec<Rc<SentRequestWriteHandle<StreamBody>>>,
	/// No response arrived yet.
	open: bool,
	/// An update arrived after the handle was dropped: the peer may have forgotten about the request.
	forgotten: bool,
	/// The response was taken.
	taken: bool,
	q: VecDeque<(Hdr, Vec<u8>)>,
	job: Option<(SentJob, bool)>,
}

struct Recvd {
	id: u32,
	svc: i32,
	h: Option<Rc<RefCell<ReceivedRequestHandle<StreamBody>>>>,
	w: Vec<Rc<ReceivedRequestWriteHandle<StreamBody>>>,
	/// Not handed out yet.
	queued: bool,
	/// Never handed out, and never will be.
	unread: bool,
	/// The peer may have forgotten about it.
	forgotten: bool,
	open: bool,
	q: VecDeque<(Hdr, Vec<u8>)>,
	job: Option<(Job<Option<Msg>>, bool)>,
}

enum SendOut {
	Request(SentRequestHandle<StreamBody>),
	Done,
}

struct S {
	ex: Exec,
	rx: Ch,
	tx: Ch,
	slot: Arc<Mutex<Option<u32>>>,
	hooked: bool,
	peer: Option<Peer<MemTransport>>,
	peer_job: Option<Job<()>>,
	main: Main,
	main_job: Option<(Job<Result<ReceivedMessage<StreamBody>, Error>>, bool)>,
	writes: Vec<Rc<PeerWriteHandle<StreamBody>>>,
	closes: Vec<PeerCloseHandle<StreamBody>>,
	sent: Vec<Sent>,
	recvd: Vec<Recvd>,
	incoming: VecDeque<Item>,
	/// The connection is up.
	alive: bool,
	/// Ended before it started: the run function has to notice at once.
	seen_out: usize,
	counter: u32,
	context: BTreeSet<&'static str>,
	suppress: Option<&'static str>,
	counts: std::collections::BTreeMap<&'static str, u64>,
}

#[cfg(fizyr_rpc_verif)]
fn slot(p: &Peer<MemTransport>) -> (Arc<Mutex<Option<u32>>>, bool) {
	(p.verif_next_request_id(), true)
}
#[cfg(not(fizyr_rpc_verif))]
fn slot(_: &Peer<MemTransport>) -> (Arc<Mutex<Option<u32>>>, bool) {
	Default::default()
}

type R<T = ()> = Result<T, Div>;

macro_rules! req {
	($s:expr, $cond:expr, $tags:expr, $($fmt:tt)+) => {
		if !($cond) {
			return Err($s.div(&$tags, format!($($fmt)+)));
		}
	};
}

fn of(m: &Msg) -> (Hdr, Vec<u8>) {
	(Hdr::of(&m.header), m.body[..].to_vec())
}

fn pick<T>(n: u8, v: &[T]) -> Option<usize> {
	(!v.is_empty()).then(|| n as usize % v.len())
}

impl S {
	fn div(&self, tags: &[&'static str], msg: String) -> Div {
		Div { base: tags.iter().copied().collect(), context: self.context.clone(), msg }
	}

	fn count(&mut self, what: &'static str) {
		*self.counts.entry(what).or_default() += 1;
	}

	fn off(&self, id: &'static str) -> bool {
		self.suppress == Some(id)
	}

	fn body(&mut self) -> Vec<u8> {
		self.counter += 1;
		let mut b = self.counter.to_le_bytes().to_vec();
		b.resize(4 + (self.counter % 7) as usize, self.counter as u8);
		b
	}

	fn text(&mut self) -> String {
		self.counter += 1;
		format!("error number {}", self.counter)
	}

	fn started(&self) -> bool {
		self.peer_job.is_some()
	}

	/// The peer is running and connected.
	fn up(&self) -> bool {
		self.alive && self.started()
	}

	fn read_dropped(&self) -> bool {
		matches!(self.main, Main::Dropped)
	}

	fn run(&mut self) -> R {
		if !self.ex.run() {
			return Err(self.div(&["C24", "C15", "C13"], "the peer never comes to rest".into()));
		}
		let misuse = self.tx.lock().unwrap().misuse.take();
		if let Some(m) = misuse {
			return Err(self.div(&["C24", "C09"], m));
		}
		Ok(())
	}

	/// New messages on the wire.
	fn out(&mut self) -> Vec<(Hdr, Vec<u8>)> {
		let c = self.tx.lock().unwrap();
		let r = c.log[self.seen_out..].to_vec();
		self.seen_out = c.log.len();
		r
	}

	fn open_recv(&self) -> Vec<usize> {
		(0..self.recvd.len()).filter(|i| self.recvd[*i].open && !self.recvd[*i].unread).collect()
	}
	fn open_sent(&self) -> Vec<usize> {
		(0..self.sent.len()).filter(|i| self.sent[*i].open).collect()
	}

	fn resolve(&self, s: IdSel) -> Option<u32> {
		match s {
			IdSel::OpenRecv(i) => {
				let v = self.open_recv();
				pick(i, &v).map(|k| self.recvd[v[k]].id)
			},
			IdSel::OpenSent(i) => {
				let v = self.open_sent();
				pick(i, &v).map(|k| self.sent[v[k]].id)
			},
			IdSel::DoneRecv(i) => {
				let v: Vec<_> = self.recvd.iter().filter(|r| !r.open).collect();
				pick(i, &v).map(|k| v[k].id)
			},
			IdSel::DoneSent(i) => {
				let v: Vec<_> = self.sent.iter().filter(|r| !r.open).collect();
				pick(i, &v).map(|k| v[k].id)
			},
			IdSel::LastFailed => self.tx.lock().unwrap().failed.last().filter(|h| h.t == 0).map(|h| h.id),
			IdSel::Fresh(i) => Some(1000 + i as u32),
			IdSel::Raw(x) => Some(x),
		}
	}

	/// The open sent request with this ID (the one with a handle first).
	fn sent_by_id(&self, id: u32) -> Option<usize> {
		let open = |s: &Sent| s.open && s.id == id;
		self.sent.iter().position(|s| open(s) && s.h.is_some()).or_else(|| self.sent.iter().position(open))
	}
	fn recvd_by_id(&self, id: u32) -> Option<usize> {
		self.recvd.iter().position(|r| r.open && r.id == id)
	}

	fn expect_err(&mut self, certain: bool) {
		if self.read_dropped() {
			return;
		}
		let min = u32::from(certain);
		match self.incoming.back_mut() {
			Some(Item::Errs(a, b)) => {
				*a += min;
				*b += 1;
			},
			_ => self.incoming.push_back(Item::Errs(min, 1)),
		}
	}

	/// Turn a selector into a message and say what has to happen.
	/// Refused requests are added to `auto`.
	/// `except`: header of a message that is being sent meanwhile, whose request must not be touched.
	fn remote(&mut self, m: &Remote, except: Option<Hdr>, auto: &mut Vec<u32>) -> Option<In> {
		if let Remote::Undecodable = m {
			try_error(Fault::NonFatal)?;
			self.expect_err(true);
			self.context.insert("C13");
			return Some(In::Err(Fault::NonFatal));
		}
		let (t, sel, svc) = match *m {
			Remote::Request(s, v) => (0, s, v),
			Remote::Response(s, v) => (1, s, v),
			Remote::ReqUpdate(s, v) => (2, s, v),
			Remote::RespUpdate(s, v) => (3, s, v),
			Remote::Stream(id, v) => (4, IdSel::Raw(id), v),
			Remote::Undecodable => unreachable!(),
		};
		let id = self.resolve(sel)?;
		match except {
			Some(e) if e.t == 0 && matches!(t, 1 | 3) && self.sent_by_id(id).is_none() => return None,
			Some(e) if e.t != 0 && e.t != 4 && e.id == id && t != 4 => return None,
			_ => (),
		}
		// Requests that nobody can ever read: what happens to their IDs is not specified.
		if matches!(t, 0 | 2) && self.recvd.iter().any(|r| r.unread && r.id == id) {
			return None;
		}
		let body = self.body();
		let h = Hdr { t, id, svc };
		let mut violation = false;
		match t {
			0 => match self.recvd_by_id(id) {
				Some(k) => {
					let r = &self.recvd[k];
					// The request is open as long as somebody can answer it.
					if r.forgotten || (r.h.is_none() && !r.queued && r.w.is_empty()) {
						return None;
					}
					violation = true;
				},
				None => {
					if self.off("C17") && self.read_dropped() {
						return None;
					}
					if self.read_dropped() {
						auto.push(id);
						self.count("refused requests");
					} else {
						self.recvd.push(Recvd { id, svc, h: None, w: vec![], queued: true, unread: false, forgotten: false, open: true, q: VecDeque::new(), job: None });
						self.incoming.push_back(Item::Deliver(h, body.clone()));
					}
				},
			},
			4 => {
				if !self.read_dropped() {
					self.incoming.push_back(Item::Deliver(h, body.clone()));
				}
			},
			2 => match self.recvd_by_id(id) {
				Some(k) => {
					let r = &mut self.recvd[k];
					if r.h.is_some() || r.queued {
						r.q.push_back((h, body.clone()));
					} else {
						r.forgotten = true;
						self.expect_err(false);
					}
				},
				None => violation = true,
			},
			_ => match self.sent_by_id(id) {
				Some(k) => {
					let s = &mut self.sent[k];
					if t == 1 {
						s.open = false;
					}
					if s.h.is_some() {
						s.q.push_back((h, body.clone()));
					} else {
						s.forgotten |= t == 3;
						self.expect_err(false);
					}
				},
				None => {
					// The ID of a dropped request may be in any state.
					violation = true;
				},
			},
		}
		if violation {
			if self.off("C13") {
				return None;
			}
			self.expect_err(true);
			self.context.insert("C13");
			self.count("protocol violations");
		}
		Some(In::Msg(h, body))
	}

	/// Let messages arrive, without running anything.
	fn arrive(&mut self, ms: &[Remote], except: Option<Hdr>) -> Vec<u32> {
		let mut auto = Vec::new();
		for m in ms {
			if let Some(x) = self.remote(m, except, &mut auto) {
				self.rx.lock().unwrap().push(x);
			}
		}
		auto
	}

	/// Compare what was written with what had to be written.
	fn expect_out(&mut self, mut expected: Vec<(Hdr, Option<Vec<u8>>)>, ordered: bool, tags: &[&'static str]) -> R {
		let mut got = self.out();
		// The request ID of stream messages has no meaning.
		for (h, _) in got.iter_mut() {
			if h.t == 4 {
				h.id = 0;
			}
		}
		if !ordered {
			expected.sort_by_key(|x| (x.0.t, x.0.id, x.0.svc));
			got.sort_by_key(|x| (x.0.t, x.0.id, x.0.svc));
		}
		let same = got.len() == expected.len() && got.iter().zip(&expected).all(|(g, e)| g.0 == e.0 && e.1.as_ref().map_or(true, |b| *b == g.1));
		if !same {
			let g: Vec<_> = got.iter().map(|x| (x.0, x.1.len())).collect();
			let e: Vec<_> = expected.iter().map(|x| (x.0, x.1.as_ref().map(|b| b.len()))).collect();
			return Err(self.div(tags, format!("on the wire: {:?}, expected: {:?} (headers and body lengths)", g, e)));
		}
		Ok(())
	}

	fn refusals(&self, auto: &[u32]) -> Vec<(Hdr, Option<Vec<u8>>)> {
		auto.iter().map(|id| (Hdr { t: 1, id: *id, svc: -1 }, None)).collect()
	}

	/// The connection is gone: everything has to be over.
	fn check_ended(&mut self, tags: &[&'static str], why: &str) -> R {
		let Some(j) = &self.peer_job else { return Ok(()) };
		req!(self, j.ready(), tags, "the peer still runs after {}", why);
		let c = self.tx.lock().unwrap().writer_gone;
		req!(self, c, tags, "the transport is still open after {}", why);
		Ok(())
	}

	fn check_alive(&mut self) -> R {
		let Some(j) = &self.peer_job else { return Ok(()) };
		if self.alive {
			req!(self, !j.ready(), ["C15"], "the peer stopped although nothing ended the connection");
			let c = self.tx.lock().unwrap().writer_gone;
			req!(self, !c, ["C15"], "the transport was dropped although nothing ended the connection");
		}
		Ok(())
	}

	/// All pending receives have to be in the state that the model says.
	fn settle(&mut self) -> R {
		self.check_alive()?;
		// Main.
		if let Some((j, frozen)) = &self.main_job {
			if !*frozen {
				match j.take() {
					Some(r) => {
						self.main_job = None;
						self.main_result(r)?;
					},
					None => {
						if self.started() {
							let pending = self.main_has_nothing();
							if let Err(what) = pending {
								let tags: &[&'static str] = if !self.alive { &["C15", "C25"] } else { &["C09"] };
								return Err(self.div(tags, format!("recv_message is still pending: {}", what)));
							}
						}
					},
				}
			}
		}
		for k in 0..self.sent.len() {
			let Some((j, frozen)) = self.sent[k].job.take() else { continue };
			if frozen {
				self.sent[k].job = Some((j, frozen));
				continue;
			}
			match &j {
				SentJob::Update(x) => match x.take() {
					Some(r) => self.sent_update_result(k, r)?,
					None => {
						let s = &self.sent[k];
						let tags: &[&'static str] = if !self.alive { &["C15", "C25"] } else { &["C09", "C14"] };
						req!(self, s.q.is_empty() && s.open && self.alive, tags, "recv_update of sent request {} is still pending, {}", s.id, self.why_not(s.q.len(), s.open));
						self.sent[k].job = Some((j, false));
					},
				},
				SentJob::Response(x) => match x.take() {
					Some(r) => self.sent_response_result(k, r)?,
					None => {
						let s = &self.sent[k];
						let tags: &[&'static str] = if !self.alive { &["C15", "C25"] } else { &["C09", "C14"] };
						req!(self, s.q.is_empty() && s.open && self.alive, tags, "recv_response of sent request {} is still pending, {}", s.id, self.why_not(s.q.len(), s.open));
						self.sent[k].job = Some((j, false));
					},
				},
			}
		}
		for k in 0..self.recvd.len() {
			let Some((j, frozen)) = self.recvd[k].job.take() else { continue };
			if frozen {
				self.recvd[k].job = Some((j, frozen));
				continue;
			}
			match j.take() {
				Some(r) => self.recv_update_result(k, r)?,
				None => {
					let s = &self.recvd[k];
					let tags: &[&'static str] = if !self.alive { &["C15", "C25"] } else { &["C09"] };
					req!(self, s.q.is_empty() && s.open && self.alive, tags, "recv_update of received request {} is still pending, {}", s.id, self.why_not(s.q.len(), s.open));
					self.recvd[k].job = Some((j, false));
				},
			}
		}
		Ok(())
	}

	fn why_not(&self, n: usize, open: bool) -> String {
		format!("messages available: {}, request open: {}, connection up: {}", n, open, self.alive)
	}

	fn main_has_nothing(&self) -> Result<(), String> {
		if !self.alive {
			return Err("the connection has ended".into());
		}
		for i in &self.incoming {
			match i {
				Item::Deliver(h, _) => return Err(format!("{:?} arrived", h)),
				Item::Errs(0, _) => (),
				Item::Errs(n, _) => return Err(format!("{} errors have to be reported", n)),
				Item::End(_) => return Err("the end has to be reported".into()),
			}
		}
		Ok(())
	}

	fn late(&self) -> &'static [&'static str] {
		if self.alive {
			&["C09"]
		} else {
			&["C25"]
		}
	}

	fn main_result(&mut self, r: Result<ReceivedMessage<StreamBody>, Error>) -> R {
		match r {
			Ok(m) => {
				let (h, body, handle) = match m {
					ReceivedMessage::Stream(m) => {
						let (h, b) = of(&m);
						(h, b, None)
					},
					ReceivedMessage::Request(r, b) => (Hdr { t: 0, id: r.request_id(), svc: r.service_id() }, b[..].to_vec(), Some(r)),
				};
				if let Some(Item::Errs(min, _)) = self.incoming.front() {
					req!(self, *min == 0, ["C13"], "received {:?}, but {} errors had to be reported before it", h, min);
					self.incoming.pop_front();
				}
				match self.incoming.pop_front() {
					Some(Item::Deliver(eh, eb)) => {
						req!(self, eh == h && eb == body, self.late(), "received {:?} with body {:?} instead of {:?} with body {:?}", h, body, eh, eb);
					},
					_ => return Err(self.div(&["C09", "C13"], format!("received {:?}, which should not have been delivered", h))),
				}
				self.count("messages delivered");
				if let Some(r) = handle {
					// The oldest that was not handed out, as they come in order.
					let k = self.recvd.iter().position(|x| x.queued && x.id == h.id).expect("model: request");
					let w = r.write_handle();
					req!(self, w.request_id() == h.id && w.service_id() == h.svc, ["C09"], "write handle of {:?} has another ID", h);
					let x = &mut self.recvd[k];
					x.queued = false;
					x.h = Some(Rc::new(RefCell::new(r)));
					x.w.push(Rc::new(w));
				}
				Ok(())
			},
			Err(e) => {
				if let Some(Item::Errs(min, max)) = self.incoming.front_mut() {
					if *max > 0 && !e.is_connection_aborted() {
						*max -= 1;
						*min = min.saturating_sub(1);
						return Ok(());
					}
					req!(self, *min == 0, ["C13"], "recv_message gave {:?} instead of the error about an invalid message", e.to_string());
					self.incoming.pop_front();
				}
				match self.incoming.front() {
					Some(Item::End(aborted)) => {
						let aborted = *aborted;
						self.incoming.pop_front();
						req!(self, !aborted || e.is_connection_aborted(), ["C25", "C15"], "the end of the connection was reported as {:?}", e.to_string());
						Ok(())
					},
					None => {
						req!(self, !self.alive, ["C13", "C09"], "recv_message gave error {:?} although nothing was wrong", e.to_string());
						req!(self, e.is_connection_aborted(), ["C15", "C25"], "recv_message reports {:?} after the end of the connection", e.to_string());
						Ok(())
					},
					Some(Item::Deliver(h, _)) => Err(self.div(if self.alive { &["C09", "C13"] } else { &["C25"] }, format!("recv_message gave error {:?} instead of {:?}", e.to_string(), h))),
					Some(Item::Errs(..)) => unreachable!(),
				}
			},
		}
	}

	fn sent_update_result(&mut self, k: usize, r: Option<Msg>) -> R {
		let late = self.late();
		let s = &mut self.sent[k];
		let id = s.id;
		match r {
			Some(m) => {
				let got = of(&m);
				let Some(e) = s.q.pop_front() else {
					return Err(self.div(&["C09", "C14"], format!("recv_update of sent request {} gave {:?} out of nothing", id, got.0)));
				};
				req!(self, e == got, [late[0], "C14"], "recv_update of sent request {} gave {:?} instead of {:?}", id, got, e);
				req!(self, e.0.t == 3, ["C14", "C09"], "recv_update gave the response of request {}", id);
				self.count("updates received");
			},
			None => {
				let front = s.q.front().map(|x| x.0);
				match front {
					Some(h) if h.t == 1 => {
						self.context.insert("C14");
						self.count("peeks");
					},
					Some(h) => return Err(self.div(&[late[0], "C14"], format!("recv_update of sent request {} gave nothing, but {:?} has arrived", id, h))),
					None => req!(self, !s.open || !self.alive, ["C09", "C14"], "recv_update of sent request {} gave nothing although the request is open", id),
				}
			},
		}
		Ok(())
	}

	fn sent_response_result(&mut self, k: usize, r: Result<Msg, Error>) -> R {
		let late = self.late();
		let s = &mut self.sent[k];
		let id = s.id;
		match r {
			Ok(m) => {
				let got = of(&m);
				let Some(e) = s.q.pop_front() else {
					return Err(self.div(&["C09", "C14"], format!("recv_response of request {} gave {:?} out of nothing", id, got.0)));
				};
				req!(self, e == got, [late[0], "C14"], "recv_response of request {} gave {:?} instead of {:?}", id, got, e);
				req!(self, e.0.t == 1, ["C14", "C09"], "recv_response gave an update of request {}", id);
				s.taken = true;
				self.count("responses received");
			},
			Err(e) => {
				let front = s.q.front().map(|x| x.0);
				match front {
					Some(h) if h.t == 3 => {
						self.context.insert("C14");
						self.count("peeks");
						req!(self, e.is_unexpected_message_type(), ["C14"], "recv_response of request {} reports an update as {:?}", id, e.to_string());
					},
					Some(h) => return Err(self.div(&[late[0], "C14", "C15"], format!("recv_response of request {} gave {:?}, but {:?} has arrived", id, e.to_string(), h))),
					None => {
						req!(self, !s.open || !self.alive, ["C09", "C14"], "recv_response of request {} gave {:?} although the request is open", id, e.to_string());
						req!(self, e.is_connection_aborted(), ["C15", "C14"], "recv_response of request {} reports the end as {:?}", id, e.to_string());
					},
				}
			},
		}
		Ok(())
	}

	fn recv_update_result(&mut self, k: usize, r: Option<Msg>) -> R {
		let late = self.late();
		let s = &mut self.recvd[k];
		let id = s.id;
		match r {
			Some(m) => {
				let got = of(&m);
				let Some(e) = s.q.pop_front() else {
					return Err(self.div(&["C09", "C14"], format!("recv_update of received request {} gave {:?} out of nothing", id, got.0)));
				};
				req!(self, e == got, [late[0], "C14"], "recv_update of received request {} gave {:?} instead of {:?}", id, got, e);
				self.count("updates received");
			},
			None => {
				let n = s.q.len();
				req!(self, n == 0, [late[0], "C14"], "recv_update of received request {} gave nothing, but {} updates have arrived", id, n);
				req!(self, !s.open || !self.alive, ["C09", "C14"], "recv_update of received request {} gave nothing although the request is open", id);
			},
		}
		Ok(())
	}

	/// Is a receive pending that borrows the whole peer handle?
	fn whole_busy(&self) -> bool {
		matches!(self.main, Main::Whole(_)) && self.main_job.is_some()
	}

	fn sent_handles(&self) -> Vec<usize> {
		(0..self.sent.len()).filter(|i| self.sent[*i].h.is_some()).collect()
	}
	fn recvd_handles(&self) -> Vec<usize> {
		(0..self.recvd.len()).filter(|i| self.recvd[*i].h.is_some()).collect()
	}
	fn sent_writable(&self) -> Vec<usize> {
		(0..self.sent.len()).filter(|i| !self.sent[*i].w.is_empty()).collect()
	}
	fn recvd_writable(&self) -> Vec<usize> {
		(0..self.recvd.len()).filter(|i| !self.recvd[*i].w.is_empty()).collect()
	}

	fn start_recv(&mut self, r: Rx) -> R {
		self.spawn_recv(r);
		self.run()
	}

	fn spawn_recv(&mut self, r: Rx) {
		match r {
			Rx::Main => {
				if self.main_job.is_some() {
					return;
				}
				let job = match &self.main {
					Main::Whole(h) => {
						let h = h.clone();
						self.ex.spawn(async move { h.borrow_mut().recv_message().await })
					},
					Main::Split(h) => {
						let h = h.clone();
						self.ex.spawn(async move { h.borrow_mut().recv_message().await })
					},
					Main::Dropped => return,
				};
				self.main_job = Some((job, false));
			},
			Rx::SentUpdate(i) | Rx::SentResponse(i) => {
				let v = self.sent_handles();
				let Some(k) = pick(i, &v).map(|k| v[k]) else { return };
				self.start_sent(k, matches!(r, Rx::SentUpdate(_)));
			},
			Rx::RecvUpdate(i) => {
				let v = self.recvd_handles();
				let Some(k) = pick(i, &v).map(|k| v[k]) else { return };
				self.start_recvd(k);
			},
		}
	}

	/// Poll a receive a few times, but nothing else, and cancel it if it is not ready.
	fn try_recv(&mut self, r: Rx, n: u8) -> R {
		if self.off("C14") {
			return Ok(());
		}
		let before = self.ex.len();
		self.spawn_recv(r);
		if self.ex.len() == before {
			return Ok(());
		}
		let id = before;
		let done = (0..=n % 3).any(|_| self.ex.poll_now(id));
		self.context.insert("C14");
		if done {
			return Ok(());
		}
		self.count("receives polled and cancelled");
		self.forget_job(id);
		self.run()
	}

	fn start_sent(&mut self, k: usize, update: bool) {
		if self.sent[k].job.is_some() {
			return;
		}
		// A peek.
		if self.off("C14") && self.sent[k].q.front().map_or(true, |f| (f.0.t == 3) != update) && self.sent[k].open {
			return;
		}
		let h = self.sent[k].h.clone().unwrap();
		let job = if update {
			SentJob::Update(self.ex.spawn(async move { h.borrow_mut().recv_update().await }))
		} else {
			SentJob::Response(self.ex.spawn(async move { h.borrow_mut().recv_response().await }))
		};
		self.sent[k].job = Some((job, false));
	}

	fn start_recvd(&mut self, k: usize) {
		if self.recvd[k].job.is_some() {
			return;
		}
		let h = self.recvd[k].h.clone().unwrap();
		let job = self.ex.spawn(async move { h.borrow_mut().recv_update().await });
		self.recvd[k].job = Some((job, false));
	}

	/// Cancel or freeze a pending receive. Whatever arrived meanwhile has to stay available.
	fn cancel(&mut self, r: Rx, freeze: bool) {
		if self.off("C14") {
			return;
		}
		let id = match r {
			Rx::Main => self.main_job.as_mut().map(|(j, f)| {
				*f = true;
				j.id
			}),
			Rx::SentUpdate(i) | Rx::SentResponse(i) => {
				let v: Vec<_> = (0..self.sent.len()).filter(|i| self.sent[*i].job.is_some()).collect();
				pick(i, &v).map(|k| {
					let x = self.sent[v[k]].job.as_mut().unwrap();
					x.1 = true;
					match &x.0 {
						SentJob::Update(j) => j.id,
						SentJob::Response(j) => j.id,
					}
				})
			},
			Rx::RecvUpdate(i) => {
				let v: Vec<_> = (0..self.recvd.len()).filter(|i| self.recvd[*i].job.is_some()).collect();
				pick(i, &v).map(|k| {
					let x = self.recvd[v[k]].job.as_mut().unwrap();
					x.1 = true;
					x.0.id
				})
			},
		};
		let Some(id) = id else { return };
		self.context.insert("C14");
		if freeze {
			self.ex.freeze(id, true);
			return;
		}
		self.count("cancelled receives");
		self.forget_job(id);
	}

	/// Cancel a receive.
	fn forget_job(&mut self, id: usize) {
		self.ex.cancel(id);
		if self.main_job.as_ref().map_or(false, |x| x.0.id == id) {
			self.main_job = None;
		}
		for s in &mut self.sent {
			let this = match &s.job {
				Some((SentJob::Update(j), _)) => j.id == id,
				Some((SentJob::Response(j), _)) => j.id == id,
				None => false,
			};
			if this {
				s.job = None;
			}
		}
		for s in &mut self.recvd {
			if s.job.as_ref().map_or(false, |x| x.0.id == id) {
				s.job = None;
			}
		}
	}

	fn thaw(&mut self) {
		let mut ids = Vec::new();
		if let Some((j, f)) = &mut self.main_job {
			*f = false;
			ids.push(j.id);
		}
		for s in &mut self.sent {
			if let Some((j, f)) = &mut s.job {
				*f = false;
				ids.push(match j {
					SentJob::Update(j) => j.id,
					SentJob::Response(j) => j.id,
				});
			}
		}
		for s in &mut self.recvd {
			if let Some((j, f)) = &mut s.job {
				*f = false;
				ids.push(j.id);
			}
		}
		for i in ids {
			self.ex.freeze(i, false);
		}
	}

	/// Longest run of consecutive request IDs that may be in use.
	fn longest_run(&self) -> u32 {
		let mut ids: Vec<u32> = self.sent.iter().filter(|s| s.open || s.h.is_none()).map(|s| s.id).collect();
		ids.sort();
		ids.dedup();
		if ids.is_empty() {
			return 0;
		}
		let n = ids.len();
		let mut best = 1;
		let mut run = 1;
		for i in 1..2 * n {
			if ids[i % n] == ids[(i - 1) % n].wrapping_add(1) {
				run += 1;
				best = best.max(run);
			} else {
				run = 1;
			}
		}
		best
	}

	fn send(&mut self, op: SendOp, via: u8, svc: i32, how: &How) -> R {
		if !self.started() || self.whole_busy() {
			return Ok(());
		}
		let mut how = how.clone();
		match how {
			How::Refused if self.off("C12") || try_error(Fault::NonFatal).is_none() => how = How::Normal,
			How::Broken if try_error(Fault::Broken).is_none() => how = How::Normal,
			How::Cancelled | How::Dropped if self.off("C14") => how = How::Normal,
			How::Ended(_, Ended::Close(_)) if self.writes.is_empty() && self.closes.is_empty() => how = How::Normal,
			How::Ended(..) if try_error(Fault::Broken).is_none() || try_error(Fault::Eof).is_none() => how = How::Normal,
			How::Blocked(ref b) if self.off("C24") => {
				let b = b.clone();
				self.send(op, via, svc, &How::Normal)?;
				return self.burst(&b);
			},
			_ => (),
		}
		if !self.alive {
			how = How::Normal;
		}
		// What to send.
		let mut body = self.body();
		let mut target = None;
		// Whether the request is still open, and whether that is certain.
		let mut open = true;
		let mut certain = true;
		let hdr;
		type Fut = std::pin::Pin<Box<dyn std::future::Future<Output = Result<SendOut, Error>>>>;
		let fut: Fut;
		match op {
			SendOp::Request | SendOp::Stream => {
				let request = op == SendOp::Request;
				hdr = Hdr { t: if request { 0 } else { 4 }, id: 0, svc };
				let b = body.clone();
				match (&self.main, pick(via, &self.writes)) {
					(Main::Whole(h), _) => {
						let h = h.clone();
						fut = Box::pin(async move {
							let h = h.borrow();
							match request {
								true => h.send_request(svc, b).await.map(SendOut::Request),
								false => h.send_stream(svc, b).await.map(|()| SendOut::Done),
							}
						});
					},
					(_, Some(k)) => {
						let h = self.writes[k].clone();
						fut = Box::pin(async move {
							match request {
								true => h.send_request(svc, b).await.map(SendOut::Request),
								false => h.send_stream(svc, b).await.map(|()| SendOut::Done),
							}
						});
					},
					_ => return Ok(()),
				}
			},
			SendOp::SentUpdate(i) => {
				let v = self.sent_writable();
				let Some(k) = pick(i, &v).map(|k| v[k]) else { return Ok(()) };
				target = Some(k);
				let s = &self.sent[k];
				open = s.open;
				certain = !s.forgotten;
				hdr = Hdr { t: 2, id: s.id, svc };
				let b = body.clone();
				// Through the request handle itself, or through one of its write handles.
				if via % 3 == 0 && s.h.is_some() && s.job.is_none() {
					let h = s.h.clone().unwrap();
					fut = Box::pin(async move { h.borrow().send_update(svc, b).await.map(|()| SendOut::Done) });
				} else {
					let w = s.w[via as usize % s.w.len()].clone();
					fut = Box::pin(async move { w.send_update(svc, b).await.map(|()| SendOut::Done) });
				}
			},
			SendOp::RecvUpdate(i) | SendOp::Respond(i) | SendOp::ErrorResponse(i) => {
				let v = self.recvd_writable();
				let Some(k) = pick(i, &v).map(|k| v[k]) else { return Ok(()) };
				target = Some(k);
				let text = self.text();
				let s = &self.recvd[k];
				open = s.open;
				certain = !s.forgotten;
				let id = s.id;
				let kind = match op {
					SendOp::RecvUpdate(_) => 0,
					SendOp::Respond(_) => 1,
					_ => 2,
				};
				hdr = Hdr { t: if kind == 0 { 3 } else { 1 }, id, svc: if kind == 2 { -1 } else { svc } };
				if kind == 2 {
					body = text.as_bytes().to_vec();
				}
				let b = body.clone();
				if via % 3 == 0 && s.h.is_some() && s.job.is_none() {
					let h = s.h.clone().unwrap();
					fut = Box::pin(async move {
						let h = h.borrow();
						match kind {
							0 => h.send_update(svc, b).await,
							1 => h.send_response(svc, b).await,
							_ => h.send_error_response(&text).await,
						}
						.map(|()| SendOut::Done)
					});
				} else {
					let w = s.w[via as usize % s.w.len()].clone();
					fut = Box::pin(async move {
						match kind {
							0 => w.send_update(svc, b).await,
							1 => w.send_response(svc, b).await,
							_ => w.send_error_response(&text).await,
						}
						.map(|()| SendOut::Done)
					});
				}
			},
		}
		let mut auto = Vec::new();
		let no_id = op == SendOp::Request && self.longest_run() >= 100;
		match &how {
			How::Normal => (),
			How::Dropped => (),
			How::Cancelled | How::Blocked(_) | How::Ended(..) => self.tx.lock().unwrap().set_open(false),
			How::Refused => self.tx.lock().unwrap().fail = Some(Fault::NonFatal),
			How::Broken => self.tx.lock().unwrap().fail = Some(Fault::Broken),
		}
		let failed_before = self.tx.lock().unwrap().failed.len();
		let job = self.ex.spawn(fut);
		if how == How::Dropped {
			self.ex.poll_now(job.id);
		} else {
			self.run()?;
		}
		if let How::Ended(ms, end) = &how {
			return self.end_during_send(op, target, hdr, &body, job, ms, *end);
		}
		if let How::Blocked(ms) = &how {
			self.context.insert("C24");
			self.count("sends during back-pressure");
			auto = self.arrive(ms, Some(hdr));
			self.run()?;
			let left = self.rx.lock().unwrap().queue.len();
			req!(self, left == 0, ["C24"], "the peer left {} messages unread while it could not write", left);
		}
		let mut cancelled = false;
		if matches!(how, How::Cancelled | How::Dropped) && !job.ready() {
			self.ex.cancel(job.id);
			cancelled = true;
			self.count("cancelled sends");
			self.context.insert("C14");
		}
		self.tx.lock().unwrap().set_open(true);
		self.run()?;
		// Did the injected failure hit?
		let (unused, hit) = {
			let mut c = self.tx.lock().unwrap();
			(c.fail.take().is_some(), c.failed.len() > failed_before)
		};
		let kind: &'static str = match op {
			SendOp::Request | SendOp::Stream => "C09",
			_ => "C11",
		};
		if cancelled {
			// It may or may not have been sent, but nothing else may have been.
			let mut got = self.out();
			if op == SendOp::Stream {
				got.iter_mut().for_each(|x| x.0.id = 0);
			}
			let ok = match got.len() {
				0 => true,
				1 => got[0].1 == body && (got[0].0 == hdr || (op == SendOp::Request && got[0].0.t == 0 && got[0].0.svc == svc)),
				_ => false,
			};
			let g: Vec<_> = got.iter().map(|x| x.0).collect();
			req!(self, ok, [kind], "on the wire: {:?} after a cancelled send of {:?}", g, hdr);
			req!(self, open || got.is_empty() || !certain, ["C11"], "{:?} was sent after the response", hdr);
			if got.len() == 1 {
				match op {
					SendOp::Request => {
						let id = got[0].0.id;
						self.check_id(id)?;
						self.sent.push(Sent { id, h: None, w: vec![], open: true, forgotten: false, taken: false, q: VecDeque::new(), job: None });
					},
					SendOp::Respond(_) | SendOp::ErrorResponse(_) => self.recvd[target.unwrap()].open = false,
					_ => (),
				}
			}
			return Ok(());
		}
		let Some(result) = job.take() else {
			let tags: &[&'static str] = match (self.alive, &how) {
				(false, _) => &["C15"],
				(_, How::Broken) => &["C15"],
				(_, How::Refused) => &["C12"],
				_ => &["C09", "C24"],
			};
			return Err(self.div(tags, format!("sending {:?} never completes ({:?})", hdr, how)));
		};
		let sent: Vec<(Hdr, Option<Vec<u8>>)>;
		match result {
			Err(e) => {
				let excused = !self.alive || hit || !open || !certain || no_id;
				let tag: &[&'static str] = match op {
					SendOp::Request if self.longest_run() > 0 => &["C09", "C10"],
					SendOp::Request | SendOp::Stream => &["C09"],
					_ => &["C09", "C11"],
				};
				req!(self, excused, tag, "sending {:?} failed with {:?}", hdr, e.to_string());
				if no_id && !hit && self.alive {
					self.count("requests without free ID");
				}
				sent = vec![];
				if hit && how == How::Broken {
					self.alive = false;
				}
				if hit && how == How::Refused {
					self.context.insert("C12");
					self.count("refused sends");
				}
			},
			Ok(out) => {
				req!(self, self.alive, ["C15"], "sending {:?} succeeded without connection", hdr);
				req!(self, !hit, ["C12"], "sending {:?} succeeded although the transport refused it", hdr);
				req!(self, open || !certain, ["C11"], "sending {:?} succeeded after the response", hdr);
				let mut hdr = hdr;
				if let SendOut::Request(h) = out {
					hdr.id = h.request_id();
					req!(self, h.service_id() == svc, ["C09"], "sent request has service ID {} instead of {}", h.service_id(), svc);
					self.check_id(hdr.id)?;
					let w = Rc::new(h.write_handle());
					self.sent.push(Sent { id: hdr.id, h: Some(Rc::new(RefCell::new(h))), w: vec![w], open: true, forgotten: false, taken: false, q: VecDeque::new(), job: None });
				}
				if matches!(op, SendOp::Respond(_) | SendOp::ErrorResponse(_)) {
					self.recvd[target.unwrap()].open = false;
				}
				sent = vec![(hdr, Some(body))];
				self.count("messages sent");
			},
		}
		let mut expected = sent;
		expected.extend(self.refusals(&auto));
		let mut tags = vec![kind];
		if how == How::Refused {
			tags.push("C12");
		}
		if !auto.is_empty() {
			tags.push("C17");
		}
		self.expect_out(expected, !matches!(how, How::Blocked(_)), &tags)?;
		let _ = unused;
		if !self.alive {
			self.check_ended(&["C15"], "a fatal write error")?;
		}
		Ok(())
	}

	/// The connection ends while a write is in progress.
	#[allow(clippy::too_many_arguments)]
	fn end_during_send(&mut self, op: SendOp, target: Option<usize>, hdr: Hdr, body: &[u8], job: Job<Result<SendOut, Error>>, ms: &[Remote], end: Ended) -> R {
		self.context.insert("C15");
		self.context.insert("C25");
		self.count("ends during a send");
		let auto = match end {
			Ended::Eof | Ended::ReadError => self.arrive(ms, Some(hdr)),
			_ => Vec::new(),
		};
		if self.ex.rand() % 2 == 0 {
			self.run()?;
		}
		match end {
			Ended::Eof | Ended::EofAndFails => self.rx.lock().unwrap().close_writer(),
			Ended::ReadError => self.rx.lock().unwrap().push(In::Err(Fault::Broken)),
			Ended::Close(k) => match (k % 2, self.writes.first(), self.closes.first()) {
				(0, Some(w), _) | (_, Some(w), None) => w.close(),
				(_, _, Some(c)) => c.close(),
				_ => unreachable!(),
			},
		}
		self.run()?;
		if end == Ended::EofAndFails {
			self.tx.lock().unwrap().close_reader();
		}
		self.tx.lock().unwrap().set_open(true);
		self.run()?;
		self.alive = false;
		if !self.read_dropped() {
			match end {
				Ended::Eof | Ended::EofAndFails => self.incoming.push_back(Item::End(true)),
				Ended::ReadError => self.incoming.push_back(Item::End(false)),
				Ended::Close(_) => (),
			}
		}
		self.check_ended(&["C15"], "the connection ended during a write")?;
		let Some(result) = job.take() else {
			return Err(self.div(&["C15"], format!("sending {:?} never completes when the connection ends during it", hdr)));
		};
		let mut allowed: Vec<Hdr> = auto.iter().map(|id| Hdr { t: 1, id: *id, svc: -1 }).collect();
		for (h, b) in self.out() {
			let own = b == body && (h == hdr || (h.t == hdr.t && h.svc == hdr.svc && matches!(op, SendOp::Request | SendOp::Stream)));
			let refusal = allowed.iter().position(|a| *a == h);
			req!(self, own || refusal.is_some(), ["C15", "C09"], "{:?} was sent when the connection ended while {:?} was being sent", h, hdr);
			if let (false, Some(k)) = (own, refusal) {
				allowed.remove(k);
			}
		}
		if let Ok(SendOut::Request(h)) = result {
			let id = h.request_id();
			let w = Rc::new(h.write_handle());
			self.sent.push(Sent { id, h: Some(Rc::new(RefCell::new(h))), w: vec![w], open: true, forgotten: false, taken: false, q: VecDeque::new(), job: None });
		} else if matches!(op, SendOp::Respond(_) | SendOp::ErrorResponse(_)) && result.is_ok() {
			self.recvd[target.unwrap()].open = false;
		}
		Ok(())
	}

	fn check_id(&mut self, id: u32) -> R {
		let clash = self.sent.iter().any(|s| s.id == id && s.open && s.h.is_some());
		req!(self, !clash, ["C10"], "request ID {} was given to a second request while the first one is open", id);
		if self.sent.iter().any(|s| s.open && (s.id == id.wrapping_sub(1) || s.id == id.wrapping_add(1))) {
			self.count("IDs next to an open one");
		}
		Ok(())
	}

	fn burst(&mut self, ms: &[Remote]) -> R {
		if !self.up() {
			return Ok(());
		}
		let auto = self.arrive(ms, None);
		self.run()?;
		let expected = self.refusals(&auto);
		let tag: &[&'static str] = if self.read_dropped() { &["C17"] } else { &["C09", "C11", "C13"] };
		self.expect_out(expected, true, tag)
	}

	/// Called after something that may have ended the peer.
	fn dropped_something(&mut self) -> R {
		self.context.insert("C16");
		let whole = matches!(self.main, Main::Whole(_));
		if self.alive && self.read_dropped() && self.writes.is_empty() && !whole {
			self.run()?;
			self.alive = false;
			self.check_ended(&["C16"], "the last read or write handle was dropped")?;
			// Nobody is left to notice requests.
			let _ = self.out();
			return Ok(());
		}
		self.run()
	}

	fn op(&mut self, op: &Op) -> R {
		match op {
			Op::Start => self.start()?,
			Op::Send(s, via, svc, how) => self.send(*s, *via, *svc, how)?,
			Op::Recv(r) => self.start_recv(*r)?,
			Op::Cancel(r) => {
				self.cancel(*r, false);
				self.run()?;
			},
			Op::Freeze(r) => self.cancel(*r, true),
			Op::Try(r, n) => self.try_recv(*r, *n)?,
			Op::Remote(ms) => self.burst(ms)?,
			Op::Split => {
				if self.whole_busy() {
					return Ok(());
				}
				self.split();
			},
			Op::CloneWrite(i) => {
				if self.off("C16") {
					return Ok(());
				}
				if let Some(k) = pick(*i, &self.writes) {
					let c = PeerWriteHandle::clone(&self.writes[k]);
					req!(self, c.same_peer(&self.writes[k]), ["C16"], "a clone of a write handle belongs to another peer");
					self.writes.push(Rc::new(c));
					self.context.insert("C16");
					self.run()?;
				}
			},
			Op::DropWrite(i) => {
				if self.off("C16") {
					return Ok(());
				}
				if let Some(k) = pick(*i, &self.writes) {
					self.writes.remove(k);
					self.dropped_something()?;
				}
			},
			Op::DropRead => {
				if self.off("C17") || self.off("C16") || self.read_dropped() {
					return Ok(());
				}
				// A pending receive borrows the handle.
				if let Some((j, _)) = self.main_job.take() {
					self.ex.cancel(j.id);
				}
				self.main = Main::Dropped;
				let mut unread = Vec::new();
				for r in self.recvd.iter_mut().filter(|r| r.queued) {
					r.queued = false;
					r.unread = true;
					unread.push(r.id);
				}
				self.incoming.clear();
				self.context.insert("C17");
				self.dropped_something()?;
				if self.alive {
					// Unread requests may be refused now, or not.
					let got = self.out();
					let mut left = unread;
					for (h, _) in got {
						let k = left.iter().position(|i| *i == h.id);
						req!(self, h.t == 1 && h.svc == -1 && k.is_some(), ["C17"], "{:?} was sent when the read handle was dropped", h);
						left.remove(k.unwrap());
					}
				}
			},
			Op::MakeClose => {
				let c = match (&self.main, self.writes.first()) {
					(Main::Whole(h), _) if !self.whole_busy() => h.borrow().close_handle(),
					(Main::Split(h), _) if self.main_job.is_none() => h.borrow().close_handle(),
					(_, Some(w)) => w.close_handle(),
					_ => return Ok(()),
				};
				self.closes.push(c);
			},
			Op::Close(k) => self.close(*k)?,
			Op::CloneRequest(sent, i) => {
				if *sent {
					let v = self.sent_writable();
					if let Some(k) = pick(*i, &v).map(|k| v[k]) {
						let c = SentRequestWriteHandle::clone(&self.sent[k].w[0]);
						self.sent[k].w.push(Rc::new(c));
					}
				} else {
					let v = self.recvd_writable();
					if let Some(k) = pick(*i, &v).map(|k| v[k]) {
						let c = ReceivedRequestWriteHandle::clone(&self.recvd[k].w[0]);
						self.recvd[k].w.push(Rc::new(c));
					}
				}
			},
			Op::DropRequestClone(sent, i) => {
				if *sent {
					let v = self.sent_writable();
					if let Some(k) = pick(*i, &v).map(|k| v[k]) {
						self.sent[k].w.pop();
					}
				} else {
					let v = self.recvd_writable();
					if let Some(k) = pick(*i, &v).map(|k| v[k]) {
						self.recvd[k].w.pop();
					}
				}
				self.run()?;
			},
			Op::DropRequest(sent, i) => {
				if self.off("C16") {
					return Ok(());
				}
				if *sent {
					let v = self.sent_handles();
					if let Some(k) = pick(*i, &v).map(|k| v[k]) {
						self.drop_sent(k);
					}
				} else {
					let v = self.recvd_handles();
					if let Some(k) = pick(*i, &v).map(|k| v[k]) {
						if let Some((j, _)) = self.recvd[k].job.take() {
							self.ex.cancel(j.id);
						}
						self.recvd[k].h = None;
						self.recvd[k].q.clear();
					}
				}
				self.context.insert("C16");
				self.run()?;
			},
			Op::SetCounter(c) => {
				if !self.hooked {
					return Ok(());
				}
				let v = match c {
					Ctr::Raw(x) => *x,
					Ctr::Near(i, d) => {
						let v = self.open_sent();
						match pick(*i, &v) {
							Some(k) => self.sent[v[k]].id.wrapping_add(*d as i32 as u32),
							None => return Ok(()),
						}
					},
				};
				*self.slot.lock().unwrap() = Some(v);
				self.count("counter jumps");
			},
			Op::ManyRequests(n) => {
				for _ in 0..*n {
					if self.sent.len() > 400 {
						break;
					}
					self.send(SendOp::Request, 0, 3, &How::Normal)?;
				}
			},
			Op::AnswerMany(i, n) => {
				let v = self.open_sent();
				if let (Some(k), true) = (pick(*i, &v), self.up()) {
					let ids: Vec<u32> = v[k..].iter().take(*n as usize).map(|x| self.sent[*x].id).collect();
					let ms: Vec<Remote> = ids.into_iter().map(|id| Remote::Response(IdSel::Raw(id), 1)).collect();
					self.burst(&ms)?;
				}
			},
			Op::End(eof) => self.end(*eof)?,
		}
		self.settle()
	}

	fn split(&mut self) {
		let old = std::mem::replace(&mut self.main, Main::Dropped);
		self.main = match old {
			Main::Whole(h) => {
				let h = Rc::try_unwrap(h).unwrap_or_else(|_| panic!("harness: peer handle still in use")).into_inner();
				let (r, w) = h.split();
				self.writes.push(Rc::new(w));
				Main::Split(Rc::new(RefCell::new(r)))
			},
			x => x,
		};
	}

	fn drop_sent(&mut self, k: usize) {
		if let Some((j, _)) = self.sent[k].job.take() {
			self.ex.cancel(match j {
				SentJob::Update(j) => j.id,
				SentJob::Response(j) => j.id,
			});
		}
		self.sent[k].h = None;
		self.sent[k].q.clear();
	}

	fn start(&mut self) -> R {
		if let Some(p) = self.peer.take() {
			self.peer_job = Some(self.ex.spawn(p.run()));
			self.run()?;
			if !self.alive {
				self.check_ended(&["C16", "C15"], "it was closed or abandoned before it started")?;
			}
		}
		Ok(())
	}

	fn close(&mut self, k: u8) -> R {
		let done = match k % 3 {
			0 => match &self.main {
				Main::Whole(_) if self.main_job.is_none() => {
					let Main::Whole(h) = std::mem::replace(&mut self.main, Main::Dropped) else { unreachable!() };
					for r in self.recvd.iter_mut().filter(|r| r.queued) {
						r.queued = false;
						r.unread = true;
					}
					self.incoming.clear();
					Rc::try_unwrap(h).unwrap_or_else(|_| panic!("harness: peer handle still in use")).into_inner().close();
					true
				},
				Main::Split(h) if self.main_job.is_none() => {
					h.borrow().close();
					true
				},
				_ => false,
			},
			1 => self.writes.first().map(|w| w.close()).is_some(),
			_ => self.closes.first().map(|c| c.close()).is_some(),
		};
		if done {
			self.run()?;
			if self.alive {
				self.alive = false;
				self.check_ended(&["C15"], "close()")?;
				let got = self.out();
				req!(self, got.is_empty(), ["C15"], "{} messages were sent by closing", got.len());
			}
		}
		Ok(())
	}

	fn end(&mut self, eof: bool) -> R {
		if !self.up() || try_error(Fault::Broken).is_none() || try_error(Fault::Eof).is_none() {
			return Ok(());
		}
		if eof {
			self.rx.lock().unwrap().close_writer();
			self.tx.lock().unwrap().close_reader();
		} else {
			self.rx.lock().unwrap().push(In::Err(Fault::Broken));
		}
		self.run()?;
		self.alive = false;
		if !self.read_dropped() {
			self.incoming.push_back(Item::End(eof));
		}
		self.check_ended(&["C15"], if eof { "the remote disconnected" } else { "a fatal read error" })?;
		let got = self.out();
		req!(self, got.is_empty(), ["C15"], "{} messages were sent at the end", got.len());
		Ok(())
	}

	/// Receive everything there is on all handles. With `order`, take updates and responses with the matching call only.
	fn drain(&mut self) -> R {
		self.thaw();
		self.run()?;
		self.settle()?;
		for _ in 0..2000 {
			if self.main_job.is_some() || self.read_dropped() {
				break;
			}
			let end = self.incoming.is_empty() && !self.alive;
			self.start_recv(Rx::Main)?;
			self.settle()?;
			if end {
				// And once more: the end is reported every time.
				self.start_recv(Rx::Main)?;
				self.settle()?;
				break;
			}
		}
		for k in 0..self.sent.len() {
			let mut odd = false;
			for n in 0..1000 {
				if self.sent[k].h.is_none() || self.sent[k].job.is_some() {
					break;
				}
				let front = self.sent[k].q.front().map(|x| x.0.t);
				if front.is_none() && self.alive && self.sent[k].open {
					break;
				}
				// Peek now and then.
				let wrong = !odd && !self.off("C14") && (n + k) % 3 == 0;
				odd = wrong;
				let update = match front {
					Some(t) => (t == 3) != wrong,
					None => n % 2 == 0,
				};
				self.start_sent(k, update);
				self.run()?;
				self.settle()?;
				if front.is_none() && n >= 2 {
					break;
				}
			}
		}
		for k in 0..self.recvd.len() {
			for _ in 0..1000 {
				let r = &self.recvd[k];
				if r.h.is_none() || r.job.is_some() {
					break;
				}
				let last = r.q.is_empty();
				if last && self.alive && r.open {
					break;
				}
				self.start_recvd(k);
				self.run()?;
				self.settle()?;
				if last {
					break;
				}
			}
		}
		Ok(())
	}

	fn finale(&mut self, c: &Case) -> R {
		self.start()?;
		self.settle()?;
		if c.drain {
			self.drain()?;
		}
		match c.end % 4 {
			0 => self.end(true)?,
			1 => self.end(false)?,
			2 => {
				self.op(&Op::MakeClose)?;
				self.close(c.end / 4)?;
				self.close(c.end / 4 + 1)?;
				self.close(2)?;
			},
			_ => {
				// Drop everything that keeps the peer alive. Requests remain.
				if self.alive && !self.off("C16") && !self.off("C17") {
					if c.end / 4 % 2 == 0 {
						self.op(&Op::DropRead)?;
					}
					while !self.writes.is_empty() {
						self.op(&Op::DropWrite(c.end / 8))?;
					}
					self.op(&Op::DropRead)?;
				}
			},
		}
		if !self.alive {
			self.count("ended connections");
			self.settle()?;
			self.drain()?;
			// Every send fails now.
			for k in 0..self.writes.len().min(3) {
				self.send(SendOp::Request, k as u8, 1, &How::Normal)?;
				self.send(SendOp::Stream, k as u8, 1, &How::Normal)?;
			}
			for k in 0..self.sent_writable().len().min(4) {
				self.send(SendOp::SentUpdate(k as u8), k as u8, 1, &How::Normal)?;
			}
			for k in 0..self.recvd_writable().len().min(4) {
				self.send(SendOp::RecvUpdate(k as u8), k as u8, 1, &How::Normal)?;
				self.send(SendOp::Respond(k as u8), k as u8, 1, &How::Normal)?;
			}
			self.settle()?;
		}
		Ok(())
	}
}

fn run_case(c: &Case, suppress: Option<&'static str>) -> (R, std::collections::BTreeMap<&'static str, u64>) {
	let (rx, tx) = (Chan::new(), Chan::new());
	{
		let mut t = tx.lock().unwrap();
		t.keep = false;
		t.slow = c.slow;
	}
	let (peer, handle) = Peer::new(MemTransport { rx: rx.clone(), tx: tx.clone() });
	let (slot, hooked) = slot(&peer);
	let mut s = S {
		ex: Exec::new(c.seed),
		rx,
		tx,
		slot,
		hooked,
		peer: Some(peer),
		peer_job: None,
		main: Main::Whole(Rc::new(RefCell::new(handle))),
		main_job: None,
		writes: vec![],
		closes: vec![],
		sent: vec![],
		recvd: vec![],
		incoming: VecDeque::new(),
		alive: true,
		seen_out: 0,
		counter: 0,
		context: BTreeSet::new(),
		suppress,
		counts: Default::default(),
	};
	let mut go = || -> R {
		if !c.whole {
			s.split();
		}
		if c.started {
			s.start()?;
		}
		for op in &c.ops {
			s.op(op)?;
		}
		s.finale(c)
	};
	let r = go();
	(r, s.counts)
}

/// Run a case for one property: only differences that violate that property count.
pub fn check(id: &'static str, c: &Case, info: &mut Info) -> CaseResult {
	let (r, counts) = run_case(c, None);
	for (k, n) in counts {
		info.count(k, n);
	}
	let Err(d) = r else { return Ok(()) };
	if d.base.contains(id) || std::env::var_os("VERIF_ANY").is_some() {
		return Err(d.msg);
	}
	if d.context.contains(id) {
		// Does it need the things that this property is about?
		let without = catch(|| Ok(run_case(c, Some(id)).0.is_err()));
		if let Ok(false) = without {
			return Err(d.msg);
		}
	}
	info.label("differences that concern other properties");
	Ok(())
}

/// Relative weights of the operations.
#[derive(Clone, Copy)]
pub struct Weights {
	pub send: u32,
	pub respond: u32,
	pub recv: u32,
	pub cancel: u32,
	pub freeze: u32,
	pub remote: u32,
	pub handles: u32,
	pub drop_read: u32,
	pub drop_req: u32,
	pub close: u32,
	pub counter: u32,
	pub end: u32,
	/// How: normal, cancelled, blocked, refused, broken, dropped, ended.
	pub how: [u32; 7],
	/// Of remote messages: weights of valid ones and violations.
	pub valid: u32,
	pub invalid: u32,
	pub whole: f64,
	pub unstarted: f64,
	pub len: usize,
}

pub const BASE: Weights = Weights {
	send: 6,
	respond: 5,
	recv: 8,
	cancel: 1,
	freeze: 0,
	remote: 10,
	handles: 1,
	drop_read: 0,
	drop_req: 1,
	close: 0,
	counter: 0,
	end: 0,
	how: [10, 1, 1, 0, 0, 1, 0],
	valid: 10,
	invalid: 1,
	whole: 0.2,
	unstarted: 0.05,
	len: 25,
};

fn svc() -> impl Strategy<Value = i32> {
	prop_oneof![4 => 0i32..10, 1 => edge_i32()]
}

fn union<T: std::fmt::Debug + 'static>(v: Vec<(u32, BoxedStrategy<T>)>) -> BoxedStrategy<T> {
	bx(prop::strategy::Union::new_weighted(v.into_iter().filter(|x| x.0 > 0).collect()))
}

fn remote(w: Weights) -> BoxedStrategy<Remote> {
	let i = || 0u8..6;
	let valid = prop_oneof![
		4 => (prop_oneof![3 => (0u8..8).prop_map(IdSel::Fresh), 1 => i().prop_map(IdSel::DoneRecv), 1 => edge_u32().prop_map(IdSel::Raw), 1 => i().prop_map(IdSel::OpenSent)], svc()).prop_map(|(a, b)| Remote::Request(a, b)),
		3 => (i().prop_map(IdSel::OpenSent), svc()).prop_map(|(a, b)| Remote::Response(a, b)),
		4 => (i().prop_map(IdSel::OpenRecv), svc()).prop_map(|(a, b)| Remote::ReqUpdate(a, b)),
		4 => (i().prop_map(IdSel::OpenSent), svc()).prop_map(|(a, b)| Remote::RespUpdate(a, b)),
		2 => (edge_u32(), svc()).prop_map(|(a, b)| Remote::Stream(a, b)),
	];
	let bad_id = move || prop_oneof![i().prop_map(IdSel::DoneRecv), i().prop_map(IdSel::DoneSent), (0u8..8).prop_map(IdSel::Fresh), edge_u32().prop_map(IdSel::Raw), Just(IdSel::LastFailed), i().prop_map(IdSel::OpenRecv), i().prop_map(IdSel::OpenSent)];
	let invalid = prop_oneof![
		4 => (i().prop_map(IdSel::OpenRecv), svc()).prop_map(|(a, b)| Remote::Request(a, b)),
		3 => (bad_id(), svc()).prop_map(|(a, b)| Remote::Response(a, b)),
		3 => (bad_id(), svc()).prop_map(|(a, b)| Remote::ReqUpdate(a, b)),
		3 => (bad_id(), svc()).prop_map(|(a, b)| Remote::RespUpdate(a, b)),
		1 => Just(Remote::Undecodable),
	];
	union(vec![(w.valid, bx(valid)), (w.invalid, bx(invalid))])
}

fn ended() -> impl Strategy<Value = Ended> {
	prop_oneof![3 => Just(Ended::Eof), 2 => Just(Ended::ReadError), 1 => Just(Ended::EofAndFails), 2 => any::<u8>().prop_map(Ended::Close)]
}

fn op(w: Weights) -> BoxedStrategy<Op> {
	let i = || 0u8..6;
	let bursts = move || prop::collection::vec(remote(w), 1..6);
	let how = move || {
		union(vec![
			(w.how[0], bx(Just(How::Normal))),
			(w.how[1], bx(Just(How::Cancelled))),
			(w.how[2], bx(bursts().prop_map(How::Blocked))),
			(w.how[3], bx(Just(How::Refused))),
			(w.how[4], bx(Just(How::Broken))),
			(w.how[5], bx(Just(How::Dropped))),
			(w.how[6], bx((prop::collection::vec(remote(w), 0..8), ended()).prop_map(|(ms, e)| How::Ended(ms, e)))),
		])
	};
	let send = (prop_oneof![4 => Just(SendOp::Request), 2 => Just(SendOp::Stream), 3 => i().prop_map(SendOp::SentUpdate)], 0u8..12, svc(), how()).prop_map(|(s, v, x, h)| Op::Send(s, v, x, h));
	let respond =
		(prop_oneof![4 => i().prop_map(SendOp::RecvUpdate), 4 => i().prop_map(SendOp::Respond), 1 => i().prop_map(SendOp::ErrorResponse)], 0u8..12, svc(), how()).prop_map(|(s, v, x, h)| Op::Send(s, v, x, h));
	let rx = move || prop_oneof![4 => Just(Rx::Main), 2 => i().prop_map(Rx::SentUpdate), 2 => i().prop_map(Rx::SentResponse), 2 => i().prop_map(Rx::RecvUpdate)];
	let handles = prop_oneof![2 => Just(Op::Split), 3 => i().prop_map(Op::CloneWrite), 4 => i().prop_map(Op::DropWrite), 1 => Just(Op::MakeClose), 2 => (any::<bool>(), i()).prop_map(|(a, b)| Op::CloneRequest(a, b)), 1 => (any::<bool>(), i()).prop_map(|(a, b)| Op::DropRequestClone(a, b))];
	let counter = prop_oneof![
		2 => prop_oneof![(u32::MAX - 120..=u32::MAX), edge_u32(), 0u32..50].prop_map(|x| Op::SetCounter(Ctr::Raw(x))),
		4 => (any::<u8>(), -110i8..=2).prop_map(|(a, b)| Op::SetCounter(Ctr::Near(a, b))),
		2 => prop_oneof![Just(99u8), Just(100u8), 1u8..130, 95u8..105].prop_map(Op::ManyRequests),
		1 => (any::<u8>(), prop_oneof![Just(1u8), 1u8..120]).prop_map(|(a, b)| Op::AnswerMany(a, b)),
	];
	union(vec![
		(w.send, bx(send)),
		(w.respond, bx(respond)),
		(w.recv, bx(rx().prop_map(Op::Recv))),
		(w.cancel, bx(rx().prop_map(Op::Cancel))),
		(w.cancel, bx((rx(), 0u8..3).prop_map(|(a, b)| Op::Try(a, b)))),
		(w.freeze, bx(rx().prop_map(Op::Freeze))),
		(w.remote, bx(bursts().prop_map(Op::Remote))),
		(w.handles, bx(handles)),
		(w.drop_read, bx(Just(Op::DropRead))),
		(w.drop_req, bx((any::<bool>(), i()).prop_map(|(a, b)| Op::DropRequest(a, b)))),
		(w.close, bx(any::<u8>().prop_map(Op::Close))),
		(w.counter, bx(counter)),
		(w.end, bx(any::<bool>().prop_map(Op::End))),
		((w.unstarted * 40.0) as u32, bx(Just(Op::Start))),
	])
}

pub fn case(w: Weights) -> BoxedStrategy<Case> {
	bx((any::<u64>(), prop::bool::weighted(w.whole), any::<bool>(), prop::bool::weighted(1.0 - w.unstarted), prop::collection::vec(op(w), 1..w.len), any::<bool>(), any::<u8>())
		.prop_map(|(seed, whole, slow, started, ops, drain, end)| Case { seed, whole, slow, started, ops, drain, end }))
}

fn has(c: &Case, f: impl Fn(&Op) -> bool) -> bool {
	c.ops.iter().any(f)
}

fn count(c: &Case, f: impl Fn(&Op) -> bool) -> usize {
	c.ops.iter().filter(|o| f(o)).count()
}

/// The generator and the rule for non-trivial cases of each property.
pub fn solo(ctx: &Arc<Ctx>, id: &'static str, factor: u32) {
	let b = BASE;
	let invalid = |o: &Op| matches!(o, Op::Remote(ms) if ms.len() > 1);
	let (w, rule): (Weights, &'static str) = match id {
		"C09" => (Weights { len: 40, drop_req: 0, invalid: 0, ..b }, "at least three sends and three bursts of remote messages"),
		"C10" => (Weights { counter: 12, send: 8, remote: 4, drop_req: 2, len: 20, how: [12, 1, 1, 1, 0, 1, 0], ..b }, "a counter jump and a block of requests"),
		"C11" => (Weights { respond: 14, how: [8, 2, 2, 2, 0, 1, 0], handles: 3, remote: 12, drop_req: 2, invalid: 0, ..b }, "at least three sends for a received request"),
		"C12" => (Weights { respond: 8, send: 8, how: [6, 1, 1, 8, 0, 1, 0], handles: 0, drop_req: 0, ..b }, "at least one refused send"),
		"C13" => (Weights { invalid: 10, remote: 14, drop_req: 1, end: 0, ..b }, "at least two bursts of several remote messages, half of them violations"),
		"C14" => (Weights { cancel: 8, freeze: 4, recv: 16, remote: 14, drop_req: 0, how: [10, 4, 1, 0, 0, 3, 0], ..b }, "at least two cancelled receives"),
		"C15" => (Weights { close: 1, end: 1, recv: 12, how: [10, 1, 1, 1, 1, 1, 2], handles: 2, unstarted: 0.15, ..b }, "at least one receive and one remote burst"),
		"C16" => (Weights { handles: 14, drop_read: 2, drop_req: 4, whole: 0.3, unstarted: 0.3, len: 20, ..b }, "at least two handle operations"),
		"C17" => (Weights { drop_read: 3, handles: 3, remote: 14, whole: 0.0, ..b }, "the read handle is dropped and remote messages follow"),
		"C24" => (Weights { how: [5, 1, 10, 0, 0, 1, 1], drop_req: 0, ..b }, "at least one send during back-pressure with arriving messages"),
		"C25" => (Weights { recv: 2, end: 1, len: 20, drop_req: 0, remote: 16, how: [10, 0, 1, 0, 0, 0, 2], ..b }, "at least two bursts of remote messages before the end"),
		_ => unreachable!(),
	};
	let n = 6000 * factor;
	ctx.check("one peer", Opts { quick: n, thorough: n * 20, shards: 8, rule }, move || case(w), move |c, info| {
		let sends = |o: &Op| matches!(o, Op::Send(..));
		info.nontrivial = match id {
			"C09" => count(c, sends) >= 3 && count(c, |o| matches!(o, Op::Remote(_))) >= 3,
			"C10" => has(c, |o| matches!(o, Op::SetCounter(_))) && has(c, |o| matches!(o, Op::ManyRequests(_))),
			"C11" => count(c, |o| matches!(o, Op::Send(SendOp::RecvUpdate(_) | SendOp::Respond(_) | SendOp::ErrorResponse(_), ..))) >= 3,
			"C12" => has(c, |o| matches!(o, Op::Send(_, _, _, How::Refused))),
			"C13" => count(c, invalid) >= 2,
			"C14" => count(c, |o| matches!(o, Op::Cancel(_) | Op::Freeze(_) | Op::Try(..))) >= 2,
			"C15" => has(c, |o| matches!(o, Op::Recv(_))) && has(c, |o| matches!(o, Op::Remote(_))),
			"C16" => count(c, |o| matches!(o, Op::CloneWrite(_) | Op::DropWrite(_) | Op::DropRead | Op::DropRequest(..))) >= 2,
			"C17" => c.ops.iter().position(|o| *o == Op::DropRead).map_or(false, |k| c.ops[k..].iter().any(|o| matches!(o, Op::Remote(_)))),
			"C24" => has(c, |o| matches!(o, Op::Send(_, _, _, How::Blocked(_)))),
			_ => count(c, |o| matches!(o, Op::Remote(_))) >= 2,
		};
		check(id, c, info)
	});
}
