//! C26: error messages arrive word for word, and errors are classified by their cause.
use crate::fds;
use crate::fw::*;
use crate::limits::{kind, AsBytes, Kind};
use crate::util::*;
use fizyr_rpc::transport::{StreamTransport, Transport, UnixTransport};
use fizyr_rpc::{Body, Error, Message, Peer, PeerReadHandle, PeerWriteHandle, ReceivedMessage, ReceivedRequestHandle, RecvMessageError, SentRequestHandle, StreamBody, UnixBody};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use std::time::Duration;

/// A text: some characters, repeated.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Text {
	unit: String,
	times: u16,
}

impl Text {
	fn get(&self) -> String {
		self.unit.repeat(self.times as usize)
	}
}

fn text() -> impl Strategy<Value = Text> {
	let unit = prop_oneof![
		3 => prop::collection::vec(any::<char>(), 0..12).prop_map(|x| x.into_iter().collect::<String>()),
		2 => "[ -~]{0,30}",
		2 => prop::sample::select(vec!["\0", "a\0b", "\u{feff}x", "\u{1F600}", "é", "e\u{301}", "\r\n", "\n", " ", "\t x ", "\"{}\\", "\u{10ffff}", "\u{fffd}", "%s%n", "-1", "%", "error: "]).prop_map(String::from),
	];
	let times = prop_oneof![6 => Just(1u16), 3 => 0u16..40, 1 => 40u16..1500];
	(unit, times).prop_map(|(unit, times)| Text { unit, times })
}

// ---------------------------------------------------------------- conversions

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Conv {
	text: Text,
	id: u32,
	/// Overwrite bytes of the encoded text.
	spoil: Vec<(u16, u8)>,
	fds: u8,
}

fn conv() -> BoxedStrategy<Conv> {
	let spoil = prop_oneof![1 => Just(Vec::new()), 1 => prop::collection::vec((any::<u16>(), any::<u8>()), 1..4)];
	let fds = prop_oneof![9 => Just(0u8), 1 => 1u8..4];
	bx((text(), edge_u32(), spoil, fds).prop_map(|(text, id, spoil, fds)| Conv { text, id, spoil, fds }))
}

fn as_text<B: Body + AsBytes>(what: &str, make: impl Fn() -> B, bytes: &[u8]) -> CaseResult {
	let b = make();
	ensure!(b.bytes() == bytes, "{what}: the body differs: {}", diff(b.bytes(), bytes));
	match (b.as_error(), std::str::from_utf8(bytes)) {
		(Ok(x), Ok(y)) => ensure!(x == y, "{what}: as_error gives {x:?}, expected {y:?}"),
		(Err(x), Err(y)) => ensure!(x == y, "{what}: as_error reports {x}, expected {y}"),
		(x, y) => return Err(format!("{what}: as_error gives {x:?}, expected {y:?}")),
	}
	ensure!(b.bytes() == bytes, "{what}: as_error changed the body");
	match (make().into_error(), std::str::from_utf8(bytes)) {
		(Ok(x), Ok(y)) => ensure!(x == y, "{what}: into_error gives {x:?}, expected {y:?}"),
		(Err(x), Err(y)) => {
			ensure!(x.utf8_error() == y, "{what}: into_error reports {x}, expected {y}");
			ensure!(x.as_bytes() == bytes, "{what}: into_error loses the body");
		},
		(x, y) => return Err(format!("{what}: into_error gives {x:?}, expected {y:?}")),
	}
	Ok(())
}

fn from_text<B: Body + AsBytes>(what: &str, text: &str, id: u32) -> CaseResult {
	as_text(&format!("{what}::from_error"), || B::from_error(text), text.as_bytes())?;
	as_text(&format!("{what}::empty"), B::empty, &[])?;
	let m = Message::<B>::error_response(id, text);
	let want = Hdr { t: 1, id, svc: -1 };
	ensure!(Hdr::of(&m.header) == want, "{what}: error_response has the header {:?}", m.header);
	as_text(&format!("body of error_response for {what}"), || Message::<B>::error_response(id, text).body, text.as_bytes())
}

fn run_conv(c: &Conv, i: &mut Info) -> CaseResult {
	let text = c.text.get();
	let mut bytes = text.clone().into_bytes();
	for (at, b) in &c.spoil {
		if !bytes.is_empty() {
			let n = bytes.len();
			bytes[*at as usize % n] = *b;
		}
	}
	let bad = std::str::from_utf8(&bytes).is_err();
	i.nontrivial = bad || text.chars().any(|c| !c.is_ascii_graphic());
	i.label_if(bad, "not UTF-8");
	i.label_if(text.is_empty(), "empty");
	i.label_if(!text.is_ascii(), "not ASCII");
	i.label_if(text.contains('\0'), "zero byte");
	i.label_if(text.len() > 4096, "long");
	from_text::<StreamBody>("StreamBody", &text, c.id)?;
	from_text::<UnixBody>("UnixBody", &text, c.id)?;
	ensure!(UnixBody::from_error(&text).fds.is_empty() && UnixBody::empty().fds.is_empty(), "an error message has file descriptors");
	as_text("StreamBody from a vector", || StreamBody::from(bytes.clone()), &bytes)?;
	as_text("StreamBody from a slice", || StreamBody::from(&bytes[..]), &bytes)?;
	as_text("StreamBody from a string", || StreamBody::from(text.clone()), text.as_bytes())?;
	as_text("StreamBody from a string slice", || StreamBody::from(&text[..]), text.as_bytes())?;
	let b = StreamBody::from(bytes.clone());
	ensure!(b.as_ref() == &bytes[..] && b[..] == bytes[..], "StreamBody shows other bytes than it has");
	ensure!(b.clone().data == bytes, "a clone of a StreamBody differs");
	as_text("UnixBody from a vector", || UnixBody::from(bytes.clone()), &bytes)?;
	as_text("UnixBody from a slice", || UnixBody::from(&bytes[..]), &bytes)?;
	as_text("UnixBody from a box", || UnixBody::from(bytes.clone().into_boxed_slice()), &bytes)?;
	ensure!(UnixBody::from(bytes.clone()).fds.is_empty() && UnixBody::from(&bytes[..]).fds.is_empty(), "a body made of bytes has file descriptors");
	if c.fds > 0 {
		i.label("file descriptors");
		let made = || (0..c.fds).map(|_| fds::memfd()).collect::<Vec<_>>();
		for pair in [false, true] {
			let f = made();
			let ids: Vec<_> = f.iter().map(|f| fds::identity(f.as_raw_fd())).collect();
			let b = if pair { UnixBody::from((bytes.clone(), f)) } else { UnixBody::new(bytes.clone(), f) };
			let got: Vec<_> = b.fds.iter().map(|f| fds::identity(f.as_raw_fd())).collect();
			ensure!(got == ids && got.iter().all(|x| x.is_some()), "UnixBody holds other file descriptors than it was given");
			ensure!(b.data == bytes, "UnixBody with file descriptors holds other bytes");
			match (b.into_error(), String::from_utf8(bytes.clone())) {
				(Ok(x), Ok(y)) => ensure!(x == y, "into_error of a body with file descriptors gives {x:?}"),
				(Err(_), Err(_)) => (),
				(x, y) => return Err(format!("into_error of a body with file descriptors gives {x:?}, expected {y:?}")),
			}
		}
	}
	Ok(())
}

// ---------------------------------------------------------------- classification

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Made {
	Io(u8, Option<Text>),
	Errno(u8),
	TooShort(u32),
	BadType(u32),
	TooLarge(u32, u32),
	Service(i32),
	Encode(Text),
	Decode(Text),
	Remote(Text),
	Custom(Text),
}

const KINDS: [std::io::ErrorKind; 16] = {
	use std::io::ErrorKind::*;
	[
		ConnectionAborted, ConnectionAborted, ConnectionReset, ConnectionRefused, NotConnected, BrokenPipe, UnexpectedEof, TimedOut, WouldBlock, Interrupted, Other, InvalidData, InvalidInput, NotFound,
		WriteZero, PermissionDenied,
	]
};

fn made() -> BoxedStrategy<Made> {
	bx(prop_oneof![
		4 => (0u8..16, prop::option::of(text())).prop_map(|(k, t)| Made::Io(k, t)),
		1 => (1u8..134).prop_map(Made::Errno),
		1 => edge_u32().prop_map(Made::TooShort),
		1 => edge_u32().prop_map(Made::BadType),
		1 => (edge_u32(), edge_u32()).prop_map(|(a, b)| Made::TooLarge(a, b)),
		1 => edge_i32().prop_map(Made::Service),
		1 => text().prop_map(Made::Encode),
		1 => text().prop_map(Made::Decode),
		3 => text().prop_map(Made::Remote),
		2 => text().prop_map(Made::Custom),
	])
}

fn classify(c: &Made, i: &mut Info) -> CaseResult {
	let inner = |t: &Text| -> Box<dyn std::error::Error + Send> { Box::new(std::io::Error::other(t.get())) };
	let io = |k: &u8, t: &Option<Text>| match t {
		None => std::io::Error::from(KINDS[*k as usize % 16]),
		Some(t) => std::io::Error::new(KINDS[*k as usize % 16], t.get()),
	};
	let make = |from: bool| match c {
		Made::Io(k, t) if from => Error::from(io(k, t)),
		Made::Io(k, t) => Error::io_error(io(k, t)),
		Made::Errno(n) => Error::io_error(std::io::Error::from_raw_os_error(*n as i32)),
		Made::TooShort(n) => Error::message_too_short(*n as usize),
		Made::BadType(n) => Error::invalid_message_type(*n),
		Made::TooLarge(a, b) => Error::payload_too_large(*a as usize, *b as usize),
		Made::Service(n) => Error::unexpected_service_id(*n),
		Made::Encode(t) => Error::encode_failed(inner(t)),
		Made::Decode(t) => Error::decode_failed(inner(t)),
		Made::Remote(t) => Error::remote_error(t.get()),
		Made::Custom(t) => Error::custom(t.get()),
	};
	let aborted = match c {
		Made::Io(k, _) => KINDS[*k as usize % 16] == std::io::ErrorKind::ConnectionAborted,
		Made::Errno(n) => *n as i32 == libc::ECONNABORTED,
		_ => false,
	};
	let remote = match c {
		Made::Remote(t) => Some(t.get()),
		_ => None,
	};
	i.nontrivial = aborted || remote.is_some() || matches!(c, Made::Io(..) | Made::Errno(_));
	i.label_if(aborted, "aborted");
	i.label_if(remote.is_some(), "remote error");
	for from in [false, true] {
		let e = make(from);
		ensure!(e.is_connection_aborted() == aborted, "{c:?}: is_connection_aborted is {}", e.is_connection_aborted());
		ensure!(e.is_remote_error() == remote.is_some(), "{c:?}: is_remote_error is {}", e.is_remote_error());
		ensure!(e.as_remote_error() == remote.as_deref(), "{c:?}: as_remote_error is {:?}", e.as_remote_error());
		ensure!(!e.is_unexpected_message_type(), "{c:?}: is_unexpected_message_type");
		let shown = e.to_string();
		let parts: Vec<String> = match c {
			Made::Io(k, t) => vec![io(k, t).to_string()],
			Made::Errno(n) => vec![std::io::Error::from_raw_os_error(*n as i32).to_string()],
			Made::TooShort(n) => vec![n.to_string()],
			Made::BadType(n) => vec![n.to_string()],
			Made::TooLarge(a, b) => vec![a.to_string(), b.to_string()],
			Made::Service(n) => vec![n.to_string()],
			Made::Encode(t) | Made::Decode(t) | Made::Remote(t) | Made::Custom(t) => vec![t.get()],
		};
		for p in parts {
			ensure!(shown.contains(&p), "{c:?} is shown as {shown:?}, without {p:?}");
		}
		let _ = format!("{e:?}");
		let mut r = RecvMessageError::<StreamBody>::from(make(from));
		ensure!(r.is_connection_aborted() == aborted, "{c:?}: is_connection_aborted of the RecvMessageError is {}", r.is_connection_aborted());
		ensure!(r.request_handle().is_none() && r.request_handle_mut().is_none(), "{c:?} has a request handle");
		ensure!(r.to_string() == shown, "{c:?} is shown as {:?} by the RecvMessageError", r.to_string());
		ensure!(e.into_remote_error() == remote, "{c:?}: into_remote_error differs");
	}
	Ok(())
}

// ---------------------------------------------------------------- over a connection

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum How {
	Handle,
	Write,
	/// Through the error that generated code reports for an unknown or an invalid request.
	Unknown,
	UnknownMut,
	Invalid,
	InvalidMut,
	/// A normal response with service ID -1, possibly not UTF-8.
	Raw,
	/// A normal response with the same content.
	Normal(i32),
	/// The responder's read handle is gone before the request arrives.
	Refused,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ask {
	/// The second peer asks.
	second: bool,
	svc: i32,
	updates: u8,
	how: How,
	text: Text,
	spoil: u8,
	/// How the requester reads: response first, updates first, peek repeatedly.
	read: u8,
	/// When to answer.
	rank: u16,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wire {
	kind: Kind,
	e: En,
	max: u32,
	asks: Vec<Ask>,
	/// Send all answers before anything is received.
	together: bool,
}

fn wire() -> BoxedStrategy<Wire> {
	let how = prop_oneof![
		3 => Just(How::Handle),
		3 => Just(How::Write),
		1 => Just(How::Unknown),
		1 => Just(How::UnknownMut),
		1 => Just(How::Invalid),
		1 => Just(How::InvalidMut),
		2 => Just(How::Raw),
		2 => edge_i32().prop_map(How::Normal),
		1 => Just(How::Refused),
	];
	let ask = (any::<bool>(), edge_i32(), prop_oneof![3 => Just(0u8), 1 => 1u8..4], how, text(), any::<u8>(), 0u8..3, any::<u16>())
		.prop_map(|(second, svc, updates, how, text, spoil, read, rank)| Ask { second, svc, updates, how, text, spoil, read, rank });
	let max = prop_oneof![1 => 0u32..100, 2 => 100u32..9000, 3 => Just(60_000u32)];
	bx((kind(), endian(), max, prop::collection::vec(ask, 1..9), any::<bool>()).prop_map(|(kind, e, max, asks, together)| Wire { kind, e, max, asks, together }))
}

const LIMIT: Duration = Duration::from_secs(30);

async fn within<F: std::future::Future>(what: &str, f: F) -> Result<F::Output, String> {
	timeout(LIMIT, f).await.map_err(|_| format!("{} never completes", what))
}

/// The longest start of the text that fits.
fn fitting(text: &str, max: usize) -> &str {
	let mut n = text.len().min(max);
	while !text.is_char_boundary(n) {
		n -= 1;
	}
	&text[..n]
}

fn boxed(s: &str) -> Box<dyn std::error::Error + Send> {
	Box::new(std::io::Error::other(s.to_string()))
}

struct Open<B> {
	k: usize,
	sent: SentRequestHandle<B>,
	recv: Option<ReceivedRequestHandle<B>>,
}

async fn answer<B: Body + From<Vec<u8>> + AsBytes>(c: &Wire, o: &mut Open<B>, text: &str, bytes: &[u8], info: &mut Info) -> Result<Vec<u8>, String> {
	let ask = &c.asks[o.k];
	let what = format!("answer {} ({:?})", o.k, ask.how);
	let h = o.recv.take().unwrap();
	for u in 0..ask.updates {
		if c.max > 0 {
			within(&what, h.send_update(u as i32, vec![u])).await?.map_err(|e| format!("{what}: update refused: {e}"))?;
		}
	}
	let (id, svc) = (h.request_id(), h.service_id());
	let w = h.write_handle();
	let over = text.len() > c.max as usize;
	let attempts: &[&str] = if over { &[text, fitting(text, c.max as usize)] } else { &[text] };
	let check = |r: Result<(), Error>, t: &str| -> Result<(), String> {
		match r {
			Ok(()) if t.len() <= c.max as usize => Ok(()),
			Ok(()) => Err(format!("{what}: {} bytes sent, the limit is {}", t.len(), c.max)),
			Err(e) if t.len() > c.max as usize => {
				ensure!(!e.is_connection_aborted() && !e.is_remote_error() && !e.is_unexpected_message_type(), "{what}: too long reported as {e:?}");
				Ok(())
			},
			Err(e) => Err(format!("{what}: refused: {e}")),
		}
	};
	info.label_if(over, "too long at first");
	match ask.how {
		How::Handle => {
			for t in attempts {
				check(within(&what, h.send_error_response(t)).await?, t)?;
			}
			drop(h);
		},
		How::Write => {
			// The handle itself may be gone.
			drop(h);
			for t in attempts {
				check(within(&what, w.send_error_response(t)).await?, t)?;
			}
		},
		How::Unknown | How::UnknownMut | How::Invalid | How::InvalidMut => {
			info.label("through RecvMessageError");
			let mut e = match ask.how {
				How::Unknown | How::UnknownMut => RecvMessageError::UnknownRequest(h, B::from(bytes.to_vec())),
				_ => RecvMessageError::InvalidRequest(h, boxed(text)),
			};
			ensure!(!e.is_connection_aborted(), "{what}: is_connection_aborted");
			let shown = e.to_string();
			ensure!(shown.contains(&svc.to_string()), "{what}: {shown:?} does not name service {svc}");
			let _ = format!("{e:?}");
			for t in attempts {
				let h = match ask.how {
					How::Unknown | How::Invalid => e.request_handle(),
					_ => e.request_handle_mut().map(|x| &*x),
				};
				let Some(h) = h else { return Err(format!("{what}: no request handle")) };
				ensure!(h.request_id() == id && h.service_id() == svc, "{what}: handle of request {} service {}", h.request_id(), h.service_id());
				check(within(&what, h.send_error_response(t)).await?, t)?;
			}
			if let RecvMessageError::UnknownRequest(_, b) = &e {
				ensure!(b.bytes() == bytes, "{what}: the body changed");
			}
		},
		How::Raw | How::Normal(_) => {
			let svc = if let How::Normal(s) = ask.how { s } else { -1 };
			let fit = &bytes[..bytes.len().min(c.max as usize)];
			if fit.len() < bytes.len() {
				ensure!(within(&what, h.send_response(svc, bytes.to_vec())).await?.is_err(), "{what}: sent over the limit");
			}
			within(&what, h.send_response(svc, fit.to_vec())).await?.map_err(|e| format!("{what}: refused: {e}"))?;
			return Ok(fit.to_vec());
		},
		How::Refused => unreachable!(),
	}
	// One answer is enough.
	ensure!(within(&what, w.send_error_response("again")).await?.is_err(), "{what}: a second response was sent");
	Ok(attempts.last().unwrap().as_bytes().to_vec())
}

/// `want` is None for refusals, whose text is not specified.
async fn receive<B: Body + AsBytes>(c: &Wire, k: usize, sent: &mut SentRequestHandle<B>, want: Option<&[u8]>) -> CaseResult {
	let ask = &c.asks[k];
	let what = format!("answer {k} ({:?})", ask.how);
	let updates = if c.max > 0 && ask.how != How::Refused { ask.updates } else { 0 };
	let mut n = 0;
	if ask.read == 1 {
		while let Some(m) = within(&what, sent.recv_update()).await? {
			ensure!(n < updates && m.header.service_id == n as i32 && m.body.bytes() == [n], "{what}: update {n} is {:?} {:?}", m.header, m.body.bytes());
			n += 1;
		}
		ensure!(n == updates, "{what}: {n} of {updates} updates");
	}
	let m = loop {
		match within(&what, sent.recv_response()).await? {
			Ok(m) => break m,
			Err(e) => {
				ensure!(n < updates, "{what}: no response but {e:?}");
				ensure!(e.is_unexpected_message_type(), "{what}: an update is reported as {e:?}");
				ensure!(!e.is_connection_aborted() && !e.is_remote_error() && e.as_remote_error().is_none(), "{what}: an update is reported as {e:?}");
				ensure!(e.into_remote_error().is_none(), "{what}: an update is a remote error");
				if ask.read == 2 {
					ensure!(matches!(within(&what, sent.recv_response()).await?, Err(e) if e.is_unexpected_message_type()), "{what}: the second attempt differs");
				}
				match within(&what, sent.recv_update()).await? {
					Some(m) => ensure!(m.header.service_id == n as i32 && m.body.bytes() == [n], "{what}: update {n} is {:?} {:?}", m.header, m.body.bytes()),
					None => return Err(format!("{what}: update {n} is lost")),
				}
				n += 1;
			},
		}
	};
	ensure!(n == updates, "{what}: response after {n} of {updates} updates");
	let svc = if let How::Normal(s) = ask.how { s } else { -1 };
	ensure!(m.header.message_type.is_response() && m.header.service_id == svc && m.header.request_id == sent.request_id(), "{what} arrived with the header {:?}", m.header);
	match want {
		Some(want) => {
			ensure!(m.body.bytes() == want, "{what}: the body differs: {}", diff(m.body.bytes(), want));
			match (m.body.as_error(), std::str::from_utf8(want)) {
				(Ok(a), Ok(b)) => ensure!(a == b, "{what}: as_error gives {a:?}"),
				(Err(a), Err(b)) => ensure!(a == b, "{what}: as_error reports {a:?}"),
				(a, b) => return Err(format!("{what}: as_error gives {a:?}, expected {b:?}")),
			}
			match (m.body.into_error(), String::from_utf8(want.to_vec())) {
				(Ok(a), Ok(b)) => ensure!(a == b, "{what}: into_error gives {a:?}"),
				(Err(a), Err(b)) => ensure!(a == b, "{what}: into_error reports {a:?}"),
				(a, b) => return Err(format!("{what}: into_error gives {a:?}, expected {b:?}")),
			}
		},
		None => ensure!(m.body.into_error().is_ok(), "{what}: the refusal is not a text"),
	}
	// Nothing follows.
	match within(&what, sent.recv_response()).await? {
		Ok(m) => Err(format!("{what}: a second response {:?}", m.header)),
		Err(e) => {
			ensure!(!e.is_unexpected_message_type() && !e.is_remote_error(), "{what}: after the response comes {e:?}");
			Ok(())
		},
	}
}

async fn talk<T, B>(ta: T, tb: T, c: &Wire, info: &mut Info) -> CaseResult
where
	T: Transport<Body = B>,
	B: Body + From<Vec<u8>> + AsBytes,
{
	let (pa, ha) = Peer::new(ta);
	let (pb, hb) = Peer::new(tb);
	tokio::task::spawn_local(pa.run());
	tokio::task::spawn_local(pb.run());
	let (ra, wa) = ha.split();
	let (rb, wb) = hb.split();
	let w: [PeerWriteHandle<B>; 2] = [wa, wb];
	let mut r: [Option<PeerReadHandle<B>>; 2] = [Some(ra), Some(rb)];
	let mut open: Vec<Open<B>> = Vec::new();
	for (k, ask) in c.asks.iter().enumerate() {
		if ask.how == How::Refused {
			continue;
		}
		let (from, to) = (usize::from(ask.second), usize::from(!ask.second));
		let sent = within("send_request", w[from].send_request(ask.svc, Vec::new())).await?.map_err(|e| format!("request {k}: {e}"))?;
		match within("recv_message", r[to].as_mut().unwrap().recv_message()).await? {
			Ok(ReceivedMessage::Request(h, _)) if h.service_id() == ask.svc => open.push(Open { k, sent, recv: Some(h) }),
			other => return Err(format!("request {k} arrived as {other:?}")),
		}
	}
	open.sort_by_key(|o| c.asks[o.k].rank);
	let mut wants = Vec::new();
	let mut wire = 0;
	for o in &mut open {
		let ask = &c.asks[o.k];
		let text = ask.text.get();
		let mut bytes = text.clone().into_bytes();
		if ask.spoil % 3 == 0 && !bytes.is_empty() {
			let n = bytes.len();
			bytes[ask.spoil as usize % n] = 0x80 | ask.spoil;
		}
		let want = answer(c, o, &text, &bytes, info).await.map_err(|e| format!("{e} ({} bytes, limit {})", text.len(), c.max))?;
		wire += want.len();
		info.nontrivial |= !want.is_empty();
		info.label_if(want.len() > 4096, "long text");
		info.label_if(std::str::from_utf8(&want).is_err(), "not UTF-8");
		// A receiver that is behind must not be so far behind that nothing fits.
		if c.together && wire < 60_000 {
			wants.push(want);
		} else {
			wants.push(want.clone());
			receive(c, o.k, &mut o.sent, Some(&want)).await?;
			o.recv = None;
			wants.pop();
			wants.push(Vec::new());
			o.k = usize::MAX;
		}
	}
	for (o, want) in open.iter_mut().zip(&wants) {
		if o.k != usize::MAX {
			receive(c, o.k, &mut o.sent, Some(want)).await?;
		}
	}
	// Requests to a peer without a read handle.
	for (k, ask) in c.asks.iter().enumerate() {
		if ask.how == How::Refused && c.max >= 1000 {
			let (from, to) = (usize::from(ask.second), usize::from(!ask.second));
			drop(r[to].take());
			info.label("refused");
			let mut sent = within("send_request", w[from].send_request(ask.svc, Vec::new())).await?.map_err(|e| format!("request {k}: {e}"))?;
			receive(c, k, &mut sent, None).await?;
		}
	}
	Ok(())
}

fn run_wire(c: &Wire, info: &mut Info) -> CaseResult {
	info.label(match c.kind {
		Kind::Unix => "unix stream",
		Kind::Tcp => "tcp",
		Kind::Seqpacket => "seqpacket",
	});
	let local = tokio::task::LocalSet::new();
	let conf = || crate::stream::config(70_000, c.max, c.e);
	match c.kind {
		Kind::Unix => rt_paused().block_on(local.run_until(async {
			let (a, b) = tokio::net::UnixStream::pair().unwrap();
			talk(StreamTransport::new(a, conf()), StreamTransport::new(b, conf()), c, info).await
		})),
		Kind::Tcp => rt().block_on(local.run_until(async {
			let (a, b) = crate::stream::tcp_pair().await;
			a.set_nodelay(true).unwrap();
			b.set_nodelay(true).unwrap();
			talk(StreamTransport::new(a, conf()), StreamTransport::new(b, conf()), c, info).await
		})),
		Kind::Seqpacket => rt_paused().block_on(local.run_until(async {
			let (a, b) = tokio_seqpacket::UnixSeqpacket::pair().unwrap();
			let conf = || crate::seq::config(70_000, c.max, 10, 10, c.e);
			talk(UnixTransport::new(a, conf()), UnixTransport::new(b, conf()), c, info).await
		})),
	}
}


pub fn c26(ctx: &Arc<Ctx>) {
	ctx.check("wire", Opts { quick: 20_000, thorough: 500_000, shards: 8, rule: "a response that is not empty was received" }, wire, run_wire);
	ctx.check(
		"conversions",
		Opts { quick: 150_000, thorough: 3_000_000, shards: 8, rule: "the text has characters other than printable ASCII, or is not UTF-8" },
		conv,
		run_conv,
	);
	ctx.check("classes", Opts { quick: 200_000, thorough: 3_000_000, shards: 8, rule: "an I/O error or a remote error" }, made, classify);
}
