//! Typed conversations, through an interface.
use crate::{within, Chan, Mem};
use fizyr_rpc::{Peer, StreamBody};
use std::fmt::Write;
use std::sync::{Arc, Mutex};

pub struct Text;

impl fizyr_rpc::format::Format for Text {
	type Body = StreamBody;
}
impl<T: ToString> fizyr_rpc::format::EncodeBody<T> for Text {
	fn encode_body(value: &T) -> Result<StreamBody, Box<dyn std::error::Error + Send>> {
		Ok(value.to_string().into_bytes().into())
	}
}
impl<T: std::str::FromStr> fizyr_rpc::format::DecodeBody<T> for Text
where
	T::Err: std::error::Error + Send + 'static,
{
	fn decode_body(body: StreamBody) -> Result<T, Box<dyn std::error::Error + Send>> {
		String::from_utf8_lossy(body.as_ref()).parse().map_err(|e| Box::new(e) as _)
	}
}
impl fizyr_rpc::introspection::IntrospectableFormat for Text {
	type TypeInfo = &'static str;
}
impl<T: ?Sized> fizyr_rpc::introspection::FormatTypeInfo<T> for Text {
	fn type_info() -> &'static str {
		std::any::type_name::<T>()
	}
}

mod numbers {
	fizyr_rpc::interface! {
	/// An interface.
	pub interface Numbers {
		/// Doubles.
		service 1 double: u32 -> u64,
		/// Counts.
		service 2 count: i64 -> String {
			request_update 10 add: i64,
			response_update 11 now: i64,
			#[hidden]
			response_update 12 text: String,
		},
		/// A stream.
		stream 1 tick: u64,
		#[hidden]
		stream -5 note: String,
	}
}
}

pub async fn talk(ops: &[[u64; 4]]) -> String {
	let (x, y) = (Arc::new(Mutex::new(Chan::default())), Arc::new(Mutex::new(Chan::default())));
	let (a, b) = (Mem(x.clone(), y.clone()), Mem(y, x));
	let (_keep, write) = Peer::spawn(a).split();
	let client = numbers::Client::<Text>::new(write);
	let mut server = numbers::Server::<Text>::from(Peer::spawn(b));
	let mut out = String::new();
	macro_rules! log {
		($($x:tt)*) => { let _ = writeln!(out, $($x)*); }
	}
	log!("{:?}", numbers::Interface::definition::<Text>());
	for &[kind, a, b, c] in ops {
		match kind {
			0..=2 => {
				let sender = client.clone();
				let sent = tokio::spawn(async move { format!("{:?}", within(sender.double(&(b as u32))).await) });
				match within(server.recv_message()).await {
					Ok(Ok(numbers::ReceivedMessage::Request(numbers::ReceivedRequestHandle::Double(h, v)))) => {
						log!("received {v} {} {}", h.request_id(), h.service_id());
						match kind {
							0 => {
								drop(h);
								sent.abort();
								log!("given up {:?}", sent.await.is_err());
								continue;
							},
							1 => {
								log!("respond {:?}", within(h.send_response(&(v as u64 * 2))).await);
							},
							_ => {
								log!("error {:?}", within(h.send_error_response("no")).await);
							},
						}
						log!("response {:?}", sent.await);
					},
					Ok(Ok(_)) => {
						log!("something else");
					},
					Ok(Err(e)) => {
						log!("receive {e:?}");
					},
					Err(e) => {
						log!("receive {e}");
					},
				}
			},
			3..=7 => {
				let mut sent = match within(client.count(&(b as i64))).await {
					Ok(Ok(x)) => x,
					e => {
						log!("count {:?}", e.map(|x| x.map(drop)));
						continue;
					},
				};
				let Ok(Ok(numbers::ReceivedMessage::Request(numbers::ReceivedRequestHandle::Count(mut h, v)))) = within(server.recv_message()).await else {
					log!("something else");
					continue;
				};
				log!("received {v}");
				for k in 0..c % 4 {
					log!("add {:?}", within(sent.send_add_update(&(k as i64 - 1))).await);
					match within(h.recv_update()).await {
						Ok(Some(Ok(u))) => {
							log!("update {:?}", u.into_add().ok());
						},
						_ => {
							log!("no update");
						},
					}
					log!("now {:?}", within(h.send_now_update(&(v + k as i64))).await);
					log!("text {:?}", within(h.send_text_update(&format!("{a} {k}"))).await);
					for _ in 0..2 {
						match within(sent.recv_update()).await {
							Ok(Some(Ok(u))) => {
								log!("update {} {}", u.is_now(), u.is_text());
							},
							_ => {
								log!("no update");
							},
						}
					}
				}
				log!("respond {:?}", within(h.send_response(&format!("done {b}"))).await);
				log!("response {:?}", within(sent.recv_response()).await);
			},
			_ => {
				if a & 1 == 0 {
					log!("tick {:?}", within(client.send_tick(&b)).await);
				} else {
					log!("note {:?}", within(client.send_note(&format!("n{b}"))).await);
				}
				match within(server.recv_message()).await {
					Ok(Ok(numbers::ReceivedMessage::Stream(numbers::StreamMessage::Tick(x)))) => {
						log!("received tick {x}");
					},
					Ok(Ok(numbers::ReceivedMessage::Stream(numbers::StreamMessage::Note(x)))) => {
						log!("received note {x}");
					},
					_ => {
						log!("something else");
					},
				}
			},
		}
	}
	out
}
