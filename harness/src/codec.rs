//! C01: the header codec.

use crate::fw::*;
use crate::util::*;
use fizyr_rpc::{MessageHeader, MessageType};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Enc {
	h: Hdr,
	e: En,
	/// Extra buffer space after the header and the byte it is filled with.
	extra: u8,
	fill: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dec {
	raw: Vec<u8>,
	e: En,
}

fn check_enc(c: &Enc) -> CaseResult {
	let mut buf = vec![c.fill; 12 + c.extra as usize];
	c.h.get().encode(&mut buf, c.e.get());
	ensure!(buf[..12] == c.h.bytes(c.e), "encode gave {:02x?}, expected {:02x?}", &buf[..12], c.h.bytes(c.e));
	ensure!(buf[12..].iter().all(|&b| b == c.fill), "encode wrote past the header: {:02x?}", &buf[12..]);
	match MessageHeader::decode(&buf, c.e.get()) {
		Ok(h) => ensure!(Hdr::of(&h) == c.h, "decode gave {:?}, expected {:?}", h, c.h),
		Err(e) => return Err(format!("decode of an encoded header failed: {}", e)),
	}
	Ok(())
}

fn check_dec(c: &Dec) -> CaseResult {
	let t = c.e.read_u32(&c.raw[0..4]);
	let got = MessageHeader::decode(&c.raw, c.e.get());
	if t <= 4 {
		let want = Hdr { t: t as u8, id: c.e.read_u32(&c.raw[4..8]), svc: c.e.read_u32(&c.raw[8..12]) as i32 };
		match got {
			Ok(h) => {
				ensure!(Hdr::of(&h) == want, "decode gave {:?}, expected {:?}", h, want);
				let mut again = [0u8; 12];
				h.encode(&mut again, c.e.get());
				ensure!(again[..] == c.raw[..12], "re-encoding gave {:02x?}", again);
			},
			Err(e) => return Err(format!("valid header rejected: {}", e)),
		}
	} else {
		ensure!(got.is_err(), "unknown type {} decoded as {:?}", t, got);
	}
	// The conversion of the type on its own agrees.
	ensure!(MessageType::from_u32(t).is_ok() == (t <= 4), "from_u32({}) = {:?}", t, MessageType::from_u32(t));
	if let Ok(k) = MessageType::from_u32(t) {
		let flags = [k.is_request(), k.is_response(), k.is_requester_update(), k.is_responder_update(), k.is_stream()];
		for (i, f) in flags.iter().enumerate() {
			ensure!(*f == (i as u32 == t), "predicate {} of type {} is {}", i, t, f);
		}
	}
	Ok(())
}

pub fn c01(ctx: &Arc<Ctx>) {
	ctx.check(
		"encode",
		Opts { quick: 200_000, thorough: 4_000_000, shards: 8, rule: "the request or service ID has a bit above the lowest byte (so field width and byte order matter)" },
		|| bx((hdr(), endian(), 0u8..20, any::<u8>()).prop_map(|(h, e, extra, fill)| Enc { h, e, extra, fill })),
		|c, i| {
			i.nontrivial = c.h.id > 0xff || (c.h.svc as u32) > 0xff;
			i.label_if(c.h.id >> 31 == 1, "id with high bit");
			i.label_if(c.h.svc < 0, "negative service id");
			i.label_if(c.extra > 0, "buffer longer than header");
			check_enc(c)
		},
	);
	ctx.check(
		"decode",
		Opts { quick: 200_000, thorough: 4_000_000, shards: 8, rule: "the type field is unknown, or valid with both IDs non-zero" },
		|| {
			bx((endian(), prop_oneof![3 => 0u32..7, 2 => edge_u32()], edge_u32(), edge_u32(), prop::collection::vec(any::<u8>(), 0..9)).prop_map(|(e, t, a, b, tail)| {
				let mut raw = Vec::new();
				raw.extend(e.u32(t));
				raw.extend(e.u32(a));
				raw.extend(e.u32(b));
				raw.extend(tail);
				Dec { raw, e }
			}))
		},
		|c, i| {
			let t = c.e.read_u32(&c.raw);
			i.nontrivial = t > 4 || (c.e.read_u32(&c.raw[4..]) != 0 && c.e.read_u32(&c.raw[8..]) != 0);
			i.label_if(t > 4, "unknown type");
			i.label_if(t <= 4, "known type");
			check_dec(c)
		},
	);
	if ctx.replay.is_some() || ctx.stop() || ctx.origin() != ctx.id {
		return;
	}
	// Sweep of the type field: all values with at most two bytes set (quick), all 2^32 values (thorough).
	let step_all = ctx.thorough;
	let threads: Vec<_> = (0..8u64)
		.map(|k| {
			std::thread::spawn(move || {
				let mut n = 0u64;
				for e in [En::Little, En::Big, En::Native] {
					let mut raw = Hdr { t: 0, id: 0xA1B2_C3D4, svc: -7 }.bytes(e);
					let mut check = |t: u32| -> Option<u32> {
						raw[..4].copy_from_slice(&e.u32(t));
						n += 1;
						match MessageHeader::decode(&raw, e.get()) {
							Ok(h) => (t > 4 || Hdr::of(&h) != Hdr { t: t as u8, id: 0xA1B2_C3D4, svc: -7 }).then_some(t),
							Err(_) => (t <= 4).then_some(t),
						}
					};
					let bad = if step_all {
						((k << 29)..((k + 1) << 29)).find_map(|t| check(t as u32))
					} else {
						(0..4u32).flat_map(|i| (0..i.max(1)).map(move |j| (i, j))).find_map(|(i, j)| ((k * 8192)..((k + 1) * 8192)).find_map(|v| check(((v as u32 & 0xff) << (8 * i)) | ((v as u32 >> 8) << (8 * j)))))
					};
					if let Some(t) = bad {
						return Err((t, e));
					}
				}
				Ok(n)
			})
		})
		.collect();
	let mut total = 0;
	for t in threads {
		match t.join().unwrap() {
			Ok(n) => total += n,
			Err((t, e)) => {
				let mut raw = Hdr { t: 0, id: 0xA1B2_C3D4, svc: -7 }.bytes(e).to_vec();
				raw[..4].copy_from_slice(&e.u32(t));
				ctx.violation("decode", json!(Dec { raw, e }), format!("type field {:#x} with {:?} is classified wrongly", t, e));
				return;
			},
		}
	}
	ctx.record_bulk(
		"type-sweep",
		"decode of a header with every swept value of the type field; counted as generated only, not as distinct non-trivial",
		total,
		std::iter::empty(),
		json!({"type_fields": if step_all { "all 2^32 values" } else { "all values with at most two non-zero bytes" }, "endiannesses": 3}),
		if step_all { Some("all 2^32 type fields for each endianness") } else { Some("all type fields with at most two non-zero bytes for each endianness") },
	);
}
