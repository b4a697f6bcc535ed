//! Lifetimes of typed handles: which of them keep the peer alive, and what is left of them when it ended.
use crate::drive::*;
use crate::types::Rng;
use fizyr_rpc::*;
use std::future::Future;
use std::time::Duration;

macro_rules! ensure {
	($c:expr, $($t:tt)*) => {
		if !$c {
			return Err(format!($($t)*));
		}
	};
}

async fn within<T>(what: &str, patience: Duration, f: impl Future<Output = T>) -> Result<T, String> {
	crate::gate::timeout(patience, f).await.map_err(|_| format!("{what}: nothing happens"))
}

/// Something that keeps the peer alive.
enum Holder<B> {
	Peer(PeerHandle<B>),
	Write(PeerWriteHandle<B>),
	Client(Box<dyn Client<B>>),
	Read(PeerReadHandle<B>),
	Server(Box<dyn Server<B>>),
}

/// Something that does not.
enum Other<B> {
	Close(PeerCloseHandle<B>),
	Sent(Box<dyn Sent<B>>, usize),
	SentWrite(SentRequestWriteHandle<B>),
	Received(Box<dyn Received<B>>, usize),
	ReceivedWrite(ReceivedRequestWriteHandle<B>),
}

struct L<'a, B: Net> {
	iface: &'a dyn Iface<B>,
	spec: &'a Spec,
	patience: Duration,
	holders: Vec<Holder<B>>,
	others: Vec<Other<B>>,
	/// The run loop, before and after it is started.
	run: Option<Fut<'static, ()>>,
	task: Option<tokio::task::JoinHandle<()>>,
	remote: PeerHandle<B>,
	remote_sent: Vec<SentRequestHandle<B>>,
	/// Open requests at the remote that are not answered.
	remote_open: Vec<ReceivedRequestHandle<B>>,
	/// Calls that wait for a response, with the request at the remote. Each has its own client.
	calls: Vec<(tokio::task::JoinHandle<Result<Called<B>, Error>>, ReceivedRequestHandle<B>, usize)>,
	info: &'a mut Info,
	log: Vec<String>,
}

impl<B: Net> L<'_, B> {
	fn start(&mut self) {
		if let Some(run) = self.run.take() {
			self.task = Some(tokio::task::spawn_local(run));
		}
	}

	fn seen(&mut self, label: &'static str) {
		self.log.push(label.into());
		self.info.labels.insert(label);
	}

	/// The peer must be alive: a message from each side arrives.
	async fn probe(&mut self, rng: &mut Rng) -> Result<(), String> {
		self.start();
		let patience = self.patience;
		for _ in 0..12 {
			tokio::task::yield_now().await;
		}
		ensure!(!self.task.as_ref().unwrap().is_finished(), "the run loop ended while there are read or write handles");
		let body = || B::make(vec![7; 9]);
		let id = rng.next() as i32;
		let readable = self.holders.iter_mut().find(|h| matches!(h, Holder::Peer(_) | Holder::Read(_) | Holder::Server(_)));
		match readable {
			Some(h) => {
				within("remote send", patience, self.remote.send_stream(id, body())).await?.map_err(|e| format!("the peer has handles, but the remote can not send: {e:?}"))?;
				let aborted = match h {
					Holder::Peer(p) => within("recv_message", patience, p.recv_message()).await?.err().map(|e| format!("{e:?}")),
					Holder::Read(p) => within("recv_message", patience, p.recv_message()).await?.err().map(|e| format!("{e:?}")),
					Holder::Server(p) => match within("typed recv_message", patience, p.recv()).await? {
						Err(RecvMessageError::Other(e)) => Some(format!("{e:?}")),
						_ => None,
					},
					_ => unreachable!(),
				};
				ensure!(aborted.is_none(), "the peer has handles, but receiving a stream message gives {aborted:?}");
			},
			None => {
				let mut sent = within("remote send", patience, self.remote.send_request(id, body())).await?.map_err(|e| format!("the peer has handles, but the remote can not send: {e:?}"))?;
				let r = within("refusal without a read handle", patience, sent.recv_response()).await?.map_err(|e| format!("no refusal without a read handle, but {e:?}"))?;
				ensure!(r.header.service_id == -1, "request without a read handle answered with {:?}", r.header);
				self.seen("refused without a reader");
			},
		}
		if let Some(h) = self.holders.iter().rev().find(|h| matches!(h, Holder::Peer(_) | Holder::Write(_) | Holder::Client(_))) {
			let sent = match h {
				Holder::Peer(p) => within("send_stream", patience, p.send_stream(5, body())).await?,
				Holder::Write(p) => within("send_stream", patience, p.send_stream(5, body())).await?,
				Holder::Client(c) if !self.spec.streams.is_empty() => {
					let i = rng.below(self.spec.streams.len());
					within("typed send", patience, c.stream(i, (self.spec.streams[i].ty.arb)(rng))).await?
				},
				_ => return Ok(()),
			};
			ensure!(sent.is_ok(), "sending with a handle of a live peer: {sent:?}");
			let got = within("message to the remote", patience, self.remote.recv_message()).await?;
			ensure!(matches!(got, Ok(ReceivedMessage::Stream(_))), "the remote receives {got:?}");
		}
		self.info.delivered += 1;
		Ok(())
	}

	async fn op(&mut self, op: [u32; 3]) -> Result<bool, String> {
		let mut rng = Rng(op[1] as u64 | (op[2] as u64) << 32);
		let n = self.holders.len();
		let k = if n == 0 { 0 } else { rng.below(n) };
		let patience = self.patience;
		match op[0] {
			// Turn an untyped handle into another kind.
			0..=2 if n > 0 => {
				let h = self.holders.swap_remove(k);
				match h {
					Holder::Peer(p) => match rng.below(4) {
						0 | 1 => {
							let (r, w) = p.split();
							self.holders.push(Holder::Read(r));
							self.holders.push(Holder::Write(w));
							self.seen("split");
						},
						2 => {
							self.holders.push(Holder::Client(self.iface.client_peer(p)));
							self.seen("client from a peer handle");
						},
						_ => {
							self.holders.push(Holder::Server(self.iface.server_peer(p)));
							self.seen("server from a peer handle");
						},
					},
					Holder::Write(w) => {
						self.holders.push(Holder::Client(self.iface.client_write(w)));
						self.seen("client from a write handle");
					},
					Holder::Read(r) => {
						self.holders.push(Holder::Server(self.iface.server_read(r)));
						self.seen("server from a read handle");
					},
					h => self.holders.push(h),
				}
			},
			// Clone.
			3 | 4 if n > 0 => {
				let c = match &self.holders[k] {
					Holder::Write(w) => Holder::Write(w.clone()),
					Holder::Client(c) => Holder::Client(c.dup()),
					_ => return Ok(true),
				};
				self.holders.push(c);
				self.seen("clone");
			},
			// Drop.
			5 | 6 if n > 1 => {
				drop(self.holders.swap_remove(k));
				self.seen("drop");
			},
			7 if n > 0 => {
				let c = match &self.holders[k] {
					Holder::Peer(h) => h.close_handle(),
					Holder::Write(h) => h.close_handle(),
					Holder::Client(h) => h.close_handle(),
					Holder::Read(h) => h.close_handle(),
					Holder::Server(h) => h.close_handle(),
				};
				self.others.push(Other::Close(c));
				self.seen("close handle");
			},
			// A typed request of the peer.
			8 if !self.spec.services.is_empty() => {
				let Some(Holder::Client(c)) = self.holders.iter().find(|h| matches!(h, Holder::Client(_))) else { return Ok(true) };
				let i = rng.below(self.spec.services.len());
				let body = (self.spec.services[i].req.arb)(&mut rng);
				let own = c.dup();
				self.start();
				let task = tokio::task::spawn_local(async move { own.call(i, body).await });
				let got = within("request to the remote", patience, self.remote.recv_message()).await?;
				let Ok(ReceivedMessage::Request(at_remote, _)) = got else { return Err(format!("the remote receives {got:?}")) };
				for _ in 0..20 {
					tokio::task::yield_now().await;
				}
				if task.is_finished() {
					match task.await.map_err(|e| format!("call panicked: {e:?}"))? {
						Ok(Called::Handle(h)) => {
							if rng.below(2) == 0 {
								self.others.push(Other::SentWrite(h.raw_write()));
							}
							self.others.push(Other::Sent(h, i));
							self.remote_open.push(at_remote);
							self.seen("request handle of a client");
						},
						Ok(Called::Response(_)) => return Err("a call returned before the response was sent".into()),
						Err(e) => return Err(format!("a call failed: {e:?}")),
					}
				} else {
					self.calls.push((task, at_remote, i));
					self.seen("pending call");
				}
			},
			// A request for the typed server.
			9 if !self.spec.services.is_empty() => {
				let Some(Holder::Server(s)) = self.holders.iter_mut().find(|h| matches!(h, Holder::Server(_))) else { return Ok(true) };
				if let Some(run) = self.run.take() {
					self.task = Some(tokio::task::spawn_local(run));
				}
				let i = rng.below(self.spec.services.len());
				let svc = &self.spec.services[i];
				let sent = within("remote send", patience, self.remote.send_request(svc.id, B::make((svc.req.arb)(&mut rng)))).await?.map_err(|e| format!("the remote can not send: {e:?}"))?;
				match within("typed recv_message", patience, s.recv()).await? {
					Ok(Recv::Request(j, h, _)) if i == j => {
						if rng.below(2) == 0 {
							self.others.push(Other::ReceivedWrite(h.raw_write()));
						}
						self.others.push(Other::Received(h, i));
						self.remote_sent.push(sent);
						self.seen("request handle of a server");
					},
					Ok(_) => return Err("a request arrives as something else".into()),
					Err(e) => return Err(format!("a good request arrives as {e:?}")),
				}
			},
			10 if !self.others.is_empty() => {
				let k = rng.below(self.others.len());
				drop(self.others.swap_remove(k));
				self.seen("drop of a request or close handle");
			},
			// The remote answers a pending call: its client is gone then.
			11 if !self.calls.is_empty() && rng.below(2) == 0 => {
				let k = rng.below(self.calls.len());
				self.answer(k, &mut rng).await?;
			},
			_ => {
				self.probe(&mut rng).await?;
			},
		}
		Ok(true)
	}

	async fn answer(&mut self, k: usize, rng: &mut Rng) -> Result<(), String> {
		let (task, at_remote, i) = self.calls.swap_remove(k);
		let body = (self.spec.services[i].resp.arb)(rng);
		within("response", self.patience, at_remote.send_response(self.spec.services[i].id, B::make(body.clone()))).await?.map_err(|e| format!("the remote can not answer a call: {e:?}"))?;
		match within("answered call", self.patience, task).await?.map_err(|e| format!("call panicked: {e:?}"))? {
			Ok(Called::Response(b)) => ensure!(b == body, "a call got {b:?} instead of {body:?}"),
			Ok(_) => return Err("a call returned a handle after it waited".into()),
			Err(e) => return Err(format!("an answered call failed: {e:?}")),
		}
		self.seen("answered call");
		Ok(())
	}
}

async fn life<B: Net>(iface: &dyn Iface<B>, spec: &Spec, ops: &[[u32; 3]], patience: Duration, info: &mut Info) -> Result<(), String> {
	let conf = ops.first().map(|x| x[2]).unwrap_or(0);
	let mut rng = Rng(conf as u64 ^ 77);
	let (run, peer, remote) = B::unstarted();
	let mut l = L {
		iface,
		spec,
		patience,
		holders: vec![Holder::Peer(peer)],
		others: Vec::new(),
		run: Some(run),
		task: None,
		remote,
		remote_sent: Vec::new(),
		remote_open: Vec::new(),
		calls: Vec::new(),
		info,
		log: Vec::new(),
	};
	if conf % 4 != 0 {
		l.start();
	}
	for op in ops.iter().skip(1) {
		l.op(*op).await.map_err(|m| format!("{m}, after {:?}", l.log))?;
	}
	if conf / 4 % 2 == 0 {
		l.probe(&mut rng).await.map_err(|m| format!("{m}, after {:?}", l.log))?;
	}
	end(&mut l, conf / 8, &mut rng).await.map_err(|m| format!("{m}, after {:?}", l.log))
}

async fn end<B: Net>(l: &mut L<'_, B>, how: u32, rng: &mut Rng) -> Result<(), String> {
	let patience = l.patience;
	let mut reading = None;
	match how % 3 {
		0 => {
			// Drop everything that keeps it alive, in any order.
			l.seen("the last handle is dropped");
			while !l.calls.is_empty() {
				let k = rng.below(l.calls.len());
				l.answer(k, rng).await?;
			}
			while !l.holders.is_empty() {
				if l.holders.len() == 1 && rng.below(2) == 0 {
					l.probe(rng).await?;
				}
				let k = rng.below(l.holders.len());
				drop(l.holders.swap_remove(k));
			}
		},
		e => {
			// Some handle closes the connection, or the remote does, while the server is receiving.
			if rng.below(2) == 0 {
				if let Some(k) = l.holders.iter().position(|h| matches!(h, Holder::Server(_))) {
					let Holder::Server(mut s) = l.holders.swap_remove(k) else { unreachable!() };
					let c = s.close_handle();
					l.start();
					reading = Some(tokio::task::spawn_local(async move {
						let r = s.recv().await;
						(s, r)
					}));
					tokio::task::yield_now().await;
					l.others.push(Other::Close(c));
				}
			}
			if e == 1 {
				let closers: Vec<usize> = (0..l.others.len()).filter(|&i| matches!(l.others[i], Other::Close(_))).collect();
				if !l.holders.is_empty() && (closers.is_empty() || rng.below(2) == 0) {
					let k = rng.below(l.holders.len());
					match l.holders.swap_remove(k) {
						Holder::Peer(p) => p.close(),
						Holder::Write(w) => w.close(),
						Holder::Read(w) => w.close(),
						Holder::Client(c) => {
							c.close();
							l.seen("closed by a client");
						},
						Holder::Server(s) => {
							s.close();
							l.seen("closed by a server");
						},
					}
				} else if !closers.is_empty() {
					let k = closers[rng.below(closers.len())];
					if let Other::Close(c) = &l.others[k] {
						c.close();
					}
					l.seen("closed by a close handle");
				} else {
					return Ok(());
				}
			} else {
				l.remote.close_handle().close();
				l.seen("closed by the remote");
			}
		},
	}
	l.start();
	within("end of the run loop", patience, l.task.take().unwrap()).await?.map_err(|e| format!("run loop: {e:?}"))?;
	// The remote sees it.
	let got = within("end at the remote", patience, l.remote.recv_message()).await?;
	ensure!(matches!(&got, Err(e) if e.is_connection_aborted()), "after the end the remote receives {got:?}");
	for mut h in l.remote_sent.drain(..) {
		let r = within("recv_response at the remote", patience, h.recv_response()).await?;
		ensure!(r.is_err(), "after the end a request of the remote gets {r:?}");
	}
	// Nothing is left waiting.
	if let Some(task) = reading {
		let (_s, r) = within("recv_message of a server when the connection ends", patience, task).await?.map_err(|e| format!("recv_message panicked: {e:?}"))?;
		match r {
			Err(e) => ensure!(e.is_connection_aborted(), "receiving when the connection ended gives {e:?}"),
			Ok(_) => return Err("received a message that was not sent".into()),
		}
	}
	for (task, _, _) in l.calls.drain(..) {
		let r = within("call when the connection ends", patience, task).await?.map_err(|e| format!("call panicked: {e:?}"))?;
		ensure!(r.is_err(), "a call without a response succeeded");
	}
	for h in l.holders.iter_mut() {
		match h {
			Holder::Server(s) => {
				let r = within("recv_message after the end", patience, s.recv()).await?;
				ensure!(matches!(&r, Err(e) if e.is_connection_aborted()), "receiving after the end does not report an aborted connection");
				s.close_handle().close();
			},
			Holder::Client(c) => {
				if let Some(s) = l.spec.streams.first() {
					let r = within("typed send after the end", patience, c.stream(0, (s.ty.arb)(rng))).await?;
					ensure!(r.is_err(), "sending a stream message after the end succeeded");
				}
				if let Some(s) = l.spec.services.first() {
					let r = within("call after the end", patience, c.call(0, (s.req.arb)(rng))).await?;
					ensure!(r.is_err(), "a call after the end succeeded");
				}
				c.dup().close();
			},
			_ => (),
		}
	}
	for o in l.others.iter_mut() {
		match o {
			Other::Close(c) => c.close(),
			Other::Sent(h, i) => {
				if !l.spec.services[*i].su.is_empty() {
					let u = within("recv_update after the end", patience, h.recv_update()).await?;
					ensure!(!matches!(u, Some(Ok(_))), "an update that was not sent");
				}
				let r = within("recv_response after the end", patience, h.recv_response()).await?;
				ensure!(r.is_err(), "a response that was not sent");
			},
			Other::SentWrite(h) => {
				let r = within("send_update after the end", patience, h.send_update(0, B::make(Vec::new()))).await?;
				ensure!(r.is_err(), "an update could be sent after the end");
			},
			Other::Received(h, i) => {
				if !l.spec.services[*i].ru.is_empty() {
					let u = within("recv_update after the end", patience, h.recv_update()).await?;
					ensure!(!matches!(u, Some(Ok(_))), "an update that was not sent");
				}
				let r = within("send_response after the end", patience, h.send_response((l.spec.services[*i].resp.arb)(rng), false)).await?;
				ensure!(r.is_err(), "a response could be sent after the end");
			},
			Other::ReceivedWrite(h) => {
				let r = within("send_update after the end", patience, h.send_update(0, B::make(Vec::new()))).await?;
				ensure!(r.is_err(), "an update could be sent after the end");
			},
		}
	}
	Ok(())
}

pub fn run_life<B: Net>(iface: &dyn Iface<B>, spec: &Spec, ops: &[[u32; 3]], patience: Duration, info: &mut Info) -> Result<(), String> {
	let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
	let set = tokio::task::LocalSet::new();
	catch(|| set.block_on(&rt, life(iface, spec, ops, patience, info)))
}
