//! The message format of the generated programs.
use crate::types::Ty;
use fizyr_rpc::{StreamBody, UnixBody};
use std::cell::Cell;
use std::marker::PhantomData;

pub trait TestBody: fizyr_rpc::Body {
	fn make(data: Vec<u8>) -> Self;
	fn bytes(&self) -> &[u8];
}

impl TestBody for StreamBody {
	fn make(data: Vec<u8>) -> Self {
		data.into()
	}
	fn bytes(&self) -> &[u8] {
		&self.data
	}
}

impl TestBody for UnixBody {
	fn make(data: Vec<u8>) -> Self {
		data.into()
	}
	fn bytes(&self) -> &[u8] {
		&self.data
	}
}

/// Binary format: the reference encoding of the value behind a tag that is different for every type.
pub struct Fmt<B>(PhantomData<B>);

thread_local!(
	/// If set, the next attempt to encode something fails with this number.
	pub static FAIL_ENCODE: Cell<Option<u32>> = const { Cell::new(None) };
);

#[derive(Debug)]
pub struct EncodeError(pub u32);

impl std::fmt::Display for EncodeError {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		write!(f, "value {} can not be encoded", self.0)
	}
}
impl std::error::Error for EncodeError {}

#[derive(Debug)]
pub struct DecodeError {
	pub expected: &'static str,
	pub body: Vec<u8>,
}

impl std::fmt::Display for DecodeError {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		write!(f, "not a {}: {:?}", self.expected, self.body)
	}
}
impl std::error::Error for DecodeError {}

fn tag<T: ?Sized>() -> [u8; 3] {
	let mut h: u32 = 0x811c_9dc5;
	for b in std::any::type_name::<T>().bytes() {
		h = (h ^ b as u32).wrapping_mul(0x0100_0193);
	}
	let b = (h ^ (h >> 16)).to_le_bytes();
	[b[0], b[1], b[2]]
}

pub fn encode<T: Ty>(value: &T) -> Vec<u8> {
	let mut out = tag::<T>().to_vec();
	value.put(&mut out);
	out
}

pub fn decode<T: Ty>(data: &[u8]) -> Result<T, DecodeError> {
	let parse = || {
		let mut rest = data.strip_prefix(&tag::<T>())?;
		let v = T::get(&mut rest)?;
		rest.is_empty().then_some(v)
	};
	parse().ok_or_else(|| DecodeError { expected: std::any::type_name::<T>(), body: data.to_vec() })
}

impl<B: TestBody> fizyr_rpc::format::Format for Fmt<B> {
	type Body = B;
}

impl<B: TestBody, T: Ty> fizyr_rpc::format::EncodeBody<T> for Fmt<B> {
	fn encode_body(value: &T) -> Result<B, Box<dyn std::error::Error + Send>> {
		if let Some(n) = FAIL_ENCODE.with(|x| x.take()) {
			return Err(Box::new(EncodeError(n)));
		}
		Ok(B::make(encode(value)))
	}
}

impl<B: TestBody, T: Ty> fizyr_rpc::format::DecodeBody<T> for Fmt<B> {
	fn decode_body(body: B) -> Result<T, Box<dyn std::error::Error + Send>> {
		decode(body.bytes()).map_err(|e| Box::new(e) as _)
	}
}

impl<B: TestBody> fizyr_rpc::introspection::IntrospectableFormat for Fmt<B> {
	type TypeInfo = &'static str;
}

impl<B: TestBody, T: ?Sized> fizyr_rpc::introspection::FormatTypeInfo<T> for Fmt<B> {
	fn type_info() -> &'static str {
		std::any::type_name::<T>()
	}
}
