//! The types message bodies are made of, with a reference encoding that is injective.
use std::collections::BTreeMap;
use std::fmt::Debug;

pub struct Rng(pub u64);

impl Rng {
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
		z ^ (z >> 31)
	}
	pub fn below(&mut self, n: usize) -> usize {
		(self.next() % n.max(1) as u64) as usize
	}
	pub fn len(&mut self) -> usize {
		match self.below(8) {
			0 | 1 => 0,
			2..=6 => self.below(6),
			_ => self.below(40),
		}
	}
}

pub trait Ty: Sized + Debug + PartialEq + Send + Sync + 'static {
	fn put(&self, out: &mut Vec<u8>);
	fn get(data: &mut &[u8]) -> Option<Self>;
	fn arb(rng: &mut Rng) -> Self;
}

fn take<'a>(data: &mut &'a [u8], n: usize) -> Option<&'a [u8]> {
	if data.len() < n {
		return None;
	}
	let (a, b) = data.split_at(n);
	*data = b;
	Some(a)
}

macro_rules! ints {
	($($t:ty),*) => {$(
		impl Ty for $t {
			fn put(&self, out: &mut Vec<u8>) {
				out.extend_from_slice(&self.to_be_bytes());
			}
			fn get(data: &mut &[u8]) -> Option<Self> {
				Some(Self::from_be_bytes(take(data, std::mem::size_of::<Self>())?.try_into().unwrap()))
			}
			fn arb(rng: &mut Rng) -> Self {
				match rng.below(5) {
					0 => 0,
					1 => Self::MAX,
					2 => Self::MIN,
					_ => rng.next() as Self,
				}
			}
		}
	)*};
}
ints!(u8, i8, u16, i16, u32, i32, u64, i64, u128, i128);

impl Ty for () {
	fn put(&self, _out: &mut Vec<u8>) {}
	fn get(_data: &mut &[u8]) -> Option<Self> {
		Some(())
	}
	fn arb(_rng: &mut Rng) -> Self {}
}

impl Ty for bool {
	fn put(&self, out: &mut Vec<u8>) {
		out.push(*self as u8);
	}
	fn get(data: &mut &[u8]) -> Option<Self> {
		match u8::get(data)? {
			0 => Some(false),
			1 => Some(true),
			_ => None,
		}
	}
	fn arb(rng: &mut Rng) -> Self {
		rng.next() & 1 == 1
	}
}

impl Ty for char {
	fn put(&self, out: &mut Vec<u8>) {
		(*self as u32).put(out);
	}
	fn get(data: &mut &[u8]) -> Option<Self> {
		char::from_u32(u32::get(data)?)
	}
	fn arb(rng: &mut Rng) -> Self {
		['a', '\0', 'ß', '\u{10ffff}', '\n', 'Z'][rng.below(6)]
	}
}

impl<T: Ty> Ty for Vec<T> {
	fn put(&self, out: &mut Vec<u8>) {
		(self.len() as u32).put(out);
		self.iter().for_each(|x| x.put(out));
	}
	fn get(data: &mut &[u8]) -> Option<Self> {
		let n = u32::get(data)?;
		if n > 4096 {
			return None;
		}
		(0..n).map(|_| T::get(data)).collect()
	}
	fn arb(rng: &mut Rng) -> Self {
		(0..rng.len()).map(|_| T::arb(rng)).collect()
	}
}

impl Ty for String {
	fn put(&self, out: &mut Vec<u8>) {
		(self.len() as u32).put(out);
		out.extend_from_slice(self.as_bytes());
	}
	fn get(data: &mut &[u8]) -> Option<Self> {
		let n = u32::get(data)? as usize;
		String::from_utf8(take(data, n)?.to_vec()).ok()
	}
	fn arb(rng: &mut Rng) -> Self {
		(0..rng.len()).map(|_| char::arb(rng)).collect()
	}
}

impl<T: Ty> Ty for Option<T> {
	fn put(&self, out: &mut Vec<u8>) {
		self.is_some().put(out);
		self.iter().for_each(|x| x.put(out));
	}
	fn get(data: &mut &[u8]) -> Option<Self> {
		Some(if bool::get(data)? { Some(T::get(data)?) } else { None })
	}
	fn arb(rng: &mut Rng) -> Self {
		bool::arb(rng).then(|| T::arb(rng))
	}
}

impl<T: Ty, E: Ty> Ty for Result<T, E> {
	fn put(&self, out: &mut Vec<u8>) {
		self.is_ok().put(out);
		match self {
			Ok(x) => x.put(out),
			Err(x) => x.put(out),
		}
	}
	fn get(data: &mut &[u8]) -> Option<Self> {
		Some(if bool::get(data)? { Ok(T::get(data)?) } else { Err(E::get(data)?) })
	}
	fn arb(rng: &mut Rng) -> Self {
		if bool::arb(rng) {
			Ok(T::arb(rng))
		} else {
			Err(E::arb(rng))
		}
	}
}

impl<T: Ty> Ty for Box<T> {
	fn put(&self, out: &mut Vec<u8>) {
		(**self).put(out)
	}
	fn get(data: &mut &[u8]) -> Option<Self> {
		T::get(data).map(Box::new)
	}
	fn arb(rng: &mut Rng) -> Self {
		Box::new(T::arb(rng))
	}
}

impl<T: Ty, const N: usize> Ty for [T; N] {
	fn put(&self, out: &mut Vec<u8>) {
		self.iter().for_each(|x| x.put(out));
	}
	fn get(data: &mut &[u8]) -> Option<Self> {
		let v: Option<Vec<T>> = (0..N).map(|_| T::get(data)).collect();
		v?.try_into().ok()
	}
	fn arb(rng: &mut Rng) -> Self {
		std::array::from_fn(|_| T::arb(rng))
	}
}

impl<K: Ty + Ord, V: Ty> Ty for BTreeMap<K, V> {
	fn put(&self, out: &mut Vec<u8>) {
		(self.len() as u32).put(out);
		for (k, v) in self {
			k.put(out);
			v.put(out);
		}
	}
	fn get(data: &mut &[u8]) -> Option<Self> {
		let n = u32::get(data)?;
		if n > 4096 {
			return None;
		}
		let mut map = BTreeMap::new();
		let mut last = 0;
		for _ in 0..n {
			let k = K::get(data)?;
			let v = V::get(data)?;
			// Keep the encoding injective.
			if map.last_key_value().is_some_and(|(l, _)| *l >= k) {
				return None;
			}
			map.insert(k, v);
			last += 1;
		}
		(last == map.len()).then_some(map)
	}
	fn arb(rng: &mut Rng) -> Self {
		(0..rng.below(5)).map(|_| (K::arb(rng), V::arb(rng))).collect()
	}
}

macro_rules! tuples {
	($($($t:ident)*;)*) => {$(
		impl<$($t: Ty),*> Ty for ($($t,)*) {
			#[allow(non_snake_case)]
			fn put(&self, out: &mut Vec<u8>) {
				let ($($t,)*) = self;
				$($t.put(out);)*
			}
			fn get(data: &mut &[u8]) -> Option<Self> {
				Some(($($t::get(data)?,)*))
			}
			fn arb(rng: &mut Rng) -> Self {
				($($t::arb(rng),)*)
			}
		}
	)*};
}
tuples! { A; A B; A B C; }

#[derive(Debug, PartialEq)]
pub struct Point {
	pub x: i32,
	pub y: i32,
}

impl Ty for Point {
	fn put(&self, out: &mut Vec<u8>) {
		self.x.put(out);
		self.y.put(out);
	}
	fn get(data: &mut &[u8]) -> Option<Self> {
		Some(Self { x: i32::get(data)?, y: i32::get(data)? })
	}
	fn arb(rng: &mut Rng) -> Self {
		Self { x: i32::arb(rng), y: i32::arb(rng) }
	}
}

/// A type without data that is not the unit type.
#[derive(Debug, PartialEq)]
pub struct Marker;

impl Ty for Marker {
	fn put(&self, _out: &mut Vec<u8>) {}
	fn get(_data: &mut &[u8]) -> Option<Self> {
		Some(Self)
	}
	fn arb(_rng: &mut Rng) -> Self {
		Self
	}
}

#[derive(Debug, PartialEq)]
pub enum Shape {
	Nothing,
	Circle(Point, u32),
	Text { text: String },
}

impl Ty for Shape {
	fn put(&self, out: &mut Vec<u8>) {
		match self {
			Shape::Nothing => out.push(0),
			Shape::Circle(p, r) => {
				out.push(1);
				p.put(out);
				r.put(out);
			},
			Shape::Text { text } => {
				out.push(2);
				text.put(out);
			},
		}
	}
	fn get(data: &mut &[u8]) -> Option<Self> {
		match u8::get(data)? {
			0 => Some(Shape::Nothing),
			1 => Some(Shape::Circle(Point::get(data)?, u32::get(data)?)),
			2 => Some(Shape::Text { text: String::get(data)? }),
			_ => None,
		}
	}
	fn arb(rng: &mut Rng) -> Self {
		match rng.below(3) {
			0 => Shape::Nothing,
			1 => Shape::Circle(Ty::arb(rng), Ty::arb(rng)),
			_ => Shape::Text { text: Ty::arb(rng) },
		}
	}
}

#[derive(Debug, PartialEq)]
pub struct Wrap<T>(pub T);

impl<T: Ty> Ty for Wrap<T> {
	fn put(&self, out: &mut Vec<u8>) {
		self.0.put(out)
	}
	fn get(data: &mut &[u8]) -> Option<Self> {
		T::get(data).map(Wrap)
	}
	fn arb(rng: &mut Rng) -> Self {
		Wrap(T::arb(rng))
	}
}

pub mod nested {
	pub mod deep {
		pub type Bytes = Vec<u8>;
	}
}

pub type Unit = ();

/// A type that is generic over an array length.
pub type Block<const N: usize> = [u8; N];
