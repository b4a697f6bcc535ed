//! C20-C23: generated interface definitions, compiled against the current macro and run.
use crate::fw::{self, Ctx, Info};
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::Arc;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- definitions

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Meta {
	/// Doc lines: written as attribute or as comment, and the text.
	doc: Vec<(bool, String)>,
	/// Position of `#[hidden]` between the doc lines.
	hidden: Option<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Upd {
	response: bool,
	id: i32,
	lit: u8,
	name: String,
	ty: String,
	meta: Meta,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Svc {
	id: i32,
	lit: u8,
	name: String,
	req: String,
	resp: String,
	meta: Meta,
	/// Updates; `None` is a service without a block.
	updates: Option<Vec<Upd>>,
	/// Comma after the last update, comma after the block.
	commas: (bool, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Stream {
	id: i32,
	lit: u8,
	name: String,
	ty: String,
	meta: Meta,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Item {
	Svc(Svc),
	Stream(Stream),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Def {
	vis: u8,
	name: String,
	meta: Meta,
	items: Vec<Item>,
	/// Use file descriptor passing sockets.
	seqpacket: bool,
}

const WORDS: &[&str] = &[
	"ping", "record", "state", "image", "a", "b", "c1", "x_", "_y", "get_value", "set_value", "v2", "request", "response", "update", "body", "message",
	"peer", "service", "stream", "interface", "hidden", "request_update", "response_update", "error", "core", "alloc", "std", "fizyr_rpc", "u32", "i32", "bool", "str",
	"service_id", "request_id", "inner", "into_inner", "write_handle", "recv_update", "recv_response", "send_response", "send_update", "recv_message", "clone",
	"from", "into", "fmt", "drop", "default", "name", "doc", "definition", "services", "streams", "r#type", "r#move", "r#async", "r#match", "_1", "__", "a__b", "größe", "名前",
	"é_x", "self_", "super_", "vector", "encoded", "f", "format", "format_", "data", "header", "result", "option", "ok", "err", "none", "some", "x", "is_a", "as_a", "union",
	"auto", "dyn_", "main", "test", "vec", "string", "types", "handle", "to_message", "from_message", "decode_body", "encode_body", "long_name_with_many_words_in_it",
];

const KEYWORDS: &[&str] = &[
	"as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref",
	"return", "self", "static", "struct", "super", "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do", "final",
	"macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try", "gen", "_",
];

fn camel(name: &str) -> String {
	let name = name.strip_prefix("r#").unwrap_or(name);
	let mut out = String::new();
	let mut up = true;
	for c in name.chars() {
		if c == '_' {
			up = true;
		} else {
			out.push(if up { c.to_ascii_uppercase() } else { c });
			up = false;
		}
	}
	// Not an identifier: the name itself is used.
	if out.is_empty() || out.starts_with(|c: char| c.is_ascii_digit()) || out == "Self" {
		return name.into();
	}
	out
}

fn name() -> BoxedStrategy<String> {
	prop_oneof![
		3 => proptest::sample::select(WORDS).prop_map(String::from),
		2 => "[a-z][a-z0-9_]{0,9}".prop_map(|x| if KEYWORDS.contains(&&x[..]) { format!("{x}0") } else { x }),
	]
	.boxed()
}

fn ty() -> BoxedStrategy<String> {
	let leaf = prop_oneof![
		4 => Just("()".to_string()),
		8 => proptest::sample::select(&[
			"bool", "u8", "i16", "u32", "i32", "u64", "i128", "char", "String", "Vec<u8>", "Point", "Shape", "Marker", "Unit", "nested::deep::Bytes", "::mrt::types::Point",
			"::std::string::String", "Block<5>", "(u8,)", "[u8; 4]", "Box<Point>", "Option<String>",
		][..]).prop_map(String::from),
	];
	leaf.prop_recursive(2, 4, 2, |inner| {
		prop_oneof![
			inner.clone().prop_map(|a| format!("Vec<{a}>")),
			inner.clone().prop_map(|a| format!("Option<{a}>")),
			inner.clone().prop_map(|a| format!("[{a}; 2]")),
			inner.clone().prop_map(|a| format!("Box<{a}>")),
			inner.clone().prop_map(|a| format!("Wrap<{a}>")),
			(inner.clone(), inner.clone()).prop_map(|(a, b)| format!("({a}, {b})")),
			(inner.clone(), inner.clone()).prop_map(|(a, b)| format!("Result<{a}, {b}>")),
			inner.prop_map(|a| format!("::std::collections::BTreeMap<String, {a}>")),
		]
	})
	.boxed()
}

fn doc_text() -> BoxedStrategy<String> {
	prop_oneof![
		2 => Just(String::new()),
		1 => " {1,5}",
		6 => (0usize..4, "[a-zA-Z0-9 .,\"'\\\\\\[\\]`#*{}()éλ/-]{1,24}").prop_map(|(n, t)| format!("{}{}", " ".repeat(n), t)),
		2 => (1usize..3, proptest::sample::select(&["plain words", "# Heading", "* item   ", "trailing  ", "a // b", "end */ x", "/* open", "日本語 text", "\"quoted\" \\n"][..])).prop_map(|(n, t)| format!("{}{}", " ".repeat(n), t)),
	]
	.prop_map(|t| {
		// Four slashes are an ordinary comment.
		if t.starts_with('/') {
			format!(" {t}")
		} else {
			t
		}
	})
	.boxed()
}

fn meta(rich: bool) -> BoxedStrategy<Meta> {
	let n = if rich { 0..6usize } else { 0..2usize };
	(
		proptest::collection::vec((proptest::bool::weighted(0.2), doc_text()), n),
		proptest::option::weighted(if rich { 0.4 } else { 0.1 }, 0u8..4),
	)
		.prop_map(|(doc, hidden)| Meta { doc, hidden })
		.boxed()
}

fn id() -> BoxedStrategy<i32> {
	prop_oneof![
		6 => 0i32..8,
		1 => -6i32..0,
		1 => proptest::sample::select(&[i32::MIN, i32::MAX, i32::MIN + 1, i32::MAX - 1, 0x7fff, 0x8000, 0xffff, 0x10000, 255, 256, -128, -129][..]),
		2 => any::<i32>(),
	]
	.boxed()
}

/// Remove what breaks a rule of the documentation, or collides because of the documented name generation.
fn clean(mut d: Def) -> Def {
	let mut svc_ids = HashSet::new();
	let mut svc_names = HashSet::new();
	let mut stream_ids = HashSet::new();
	let mut stream_names = HashSet::new();
	let mut methods: HashSet<String> = ["new", "close", "close_handle"].iter().map(|x| x.to_string()).collect();
	let plain = |n: &str| n.strip_prefix("r#").unwrap_or(n).to_string();
	d.items.retain_mut(|item| match item {
		Item::Svc(s) => {
			// Error responses have service ID -1: see the known findings.
			if s.id == -1 {
				s.id = -2;
			}
			// The name of a service is also that of a module that must not hide the paths of body types.
			if ["nested", "mrt"].contains(&&s.name[..]) {
				s.name.push('0');
			}
			// Keep it simple: no half registered names.
			if svc_ids.contains(&s.id) || svc_names.contains(&camel(&s.name)) || methods.contains(&plain(&s.name)) {
				return false;
			}
			svc_ids.insert(s.id);
			svc_names.insert(camel(&s.name));
			methods.insert(plain(&s.name));
			if let Some(updates) = &mut s.updates {
				let mut seen: HashSet<(bool, i32)> = HashSet::new();
				let mut names: HashSet<(bool, String)> = HashSet::new();
				updates.retain(|u| {
					if seen.contains(&(u.response, u.id)) || names.contains(&(u.response, camel(&u.name))) {
						return false;
					}
					seen.insert((u.response, u.id));
					names.insert((u.response, camel(&u.name)))
				});
			}
			true
		},
		Item::Stream(s) => {
			let method = format!("send_{}", plain(&s.name));
			if stream_ids.contains(&s.id) || stream_names.contains(&camel(&s.name)) || methods.contains(&method) {
				return false;
			}
			stream_ids.insert(s.id);
			stream_names.insert(camel(&s.name));
			methods.insert(method)
		},
	});
	d
}

fn def(rich_docs: bool, max_items: usize) -> BoxedStrategy<Def> {
	let upd = (any::<bool>(), id(), any::<u8>(), name(), ty(), meta(rich_docs))
		.prop_map(|(response, id, lit, name, ty, meta)| Upd { response, id, lit, name, ty, meta });
	let svc = (
		(id(), any::<u8>(), name(), ty(), ty(), meta(rich_docs)),
		proptest::option::weighted(0.65, proptest::collection::vec(upd, 0..7)),
		any::<(bool, bool)>(),
	)
		.prop_map(|((id, lit, name, req, resp, meta), updates, commas)| Item::Svc(Svc { id, lit, name, req, resp, meta, updates, commas }));
	let stream = (id(), any::<u8>(), name(), ty(), meta(rich_docs)).prop_map(|(id, lit, name, ty, meta)| Item::Stream(Stream { id, lit, name, ty, meta }));
	(
		0u8..5,
		prop_oneof![4 => "[A-Z][a-zA-Z0-9]{0,8}".prop_map(|x| if x == "Self" { "Selv".into() } else { x }), 1 => name()],
		meta(rich_docs),
		proptest::collection::vec(prop_oneof![3 => svc, 2 => stream], 0..max_items),
		any::<bool>(),
	)
		.prop_map(|(vis, name, meta, items, seqpacket)| clean(Def { vis, name, meta, items, seqpacket }))
		.boxed()
}

impl Def {
	fn services(&self) -> Vec<&Svc> {
		self.items.iter().filter_map(|x| if let Item::Svc(s) = x { Some(s) } else { None }).collect()
	}
	fn streams(&self) -> Vec<&Stream> {
		self.items.iter().filter_map(|x| if let Item::Stream(s) = x { Some(s) } else { None }).collect()
	}
}

impl Svc {
	fn ups(&self, response: bool) -> Vec<&Upd> {
		self.updates.iter().flatten().filter(|x| x.response == response).collect()
	}
}

// ---------------------------------------------------------------- source text of the macro invocation

fn literal(id: i32, style: u8) -> String {
	let neg = if id < 0 { "-" } else { "" };
	let abs = id.unsigned_abs();
	match style % 8 {
		4 => format!("{neg}0x{abs:x}"),
		5 => format!("{neg}0b{abs:b}"),
		6 => format!("{neg}0o{abs:o}"),
		7 => {
			let s = abs.to_string();
			if s.len() > 1 {
				format!("{neg}{}_{}", &s[..1], &s[1..])
			} else {
				format!("{neg}{s}i32")
			}
		},
		_ => id.to_string(),
	}
}

fn attrs(m: &Meta, indent: &str) -> Vec<String> {
	let mut out = Vec::new();
	for (i, (attr, text)) in m.doc.iter().enumerate() {
		if m.hidden == Some(i as u8) {
			out.push(format!("{indent}#[hidden]"));
		}
		if *attr {
			out.push(format!("{indent}#[doc = {text:?}]"));
		} else {
			out.push(format!("{indent}///{text}"));
		}
	}
	if m.hidden.is_some_and(|h| h as usize >= m.doc.len()) {
		out.push(format!("{indent}#[hidden]"));
	}
	out
}

/// Editable source model, to inject violations.
#[derive(Clone)]
struct EItem {
	attrs: Vec<String>,
	head: String,
	/// Updates: attributes and text without comma.
	body: Option<Vec<(Vec<String>, String)>>,
	/// Last update has a comma.
	last_comma: bool,
	end: String,
}

#[derive(Clone)]
struct EDef {
	attrs: Vec<String>,
	head: String,
	items: Vec<EItem>,
	end: String,
	/// Put no comma between these updates: item, update.
	no_comma: Option<(usize, usize)>,
}

fn model(d: &Def) -> EDef {
	let vis = ["", "pub ", "pub(crate) ", "pub(super) ", "pub(in crate) "][d.vis as usize % 5];
	let items = d
		.items
		.iter()
		.map(|i| match i {
			Item::Svc(s) => EItem {
				attrs: attrs(&s.meta, "\t\t"),
				head: format!("service {} {}: {} -> {}", literal(s.id, s.lit), s.name, s.req, s.resp),
				body: s.updates.as_ref().map(|u| {
					u.iter()
						.map(|u| {
							(
								attrs(&u.meta, "\t\t\t"),
								format!("{} {} {}: {}", if u.response { "response_update" } else { "request_update" }, literal(u.id, u.lit), u.name, u.ty),
							)
						})
						.collect()
				}),
				last_comma: s.commas.0,
				end: if s.updates.is_none() || s.commas.1 { ",".into() } else { String::new() },
			},
			Item::Stream(s) => EItem {
				attrs: attrs(&s.meta, "\t\t"),
				head: format!("stream {} {}: {}", literal(s.id, s.lit), s.name, s.ty),
				body: None,
				last_comma: true,
				end: ",".into(),
			},
		})
		.collect();
	EDef { attrs: attrs(&d.meta, "\t"), head: format!("{vis}interface {}", d.name), items, end: "}".into(), no_comma: None }
}

/// The lines of the invocation.
fn print(e: &EDef) -> Vec<String> {
	let mut l: Vec<String> = vec!["::mrt::fizyr_rpc::interface! {".into()];
	l.extend(e.attrs.clone());
	l.push(format!("\t{} {{", e.head));
	for (n, i) in e.items.iter().enumerate() {
		l.extend(i.attrs.clone());
		match &i.body {
			None => l.push(format!("\t\t{}{}", i.head, i.end)),
			Some(b) => {
				l.push(format!("\t\t{} {{", i.head));
				for (k, (a, t)) in b.iter().enumerate() {
					l.extend(a.clone());
					let comma = (k + 1 < b.len() || i.last_comma) && e.no_comma != Some((n, k));
					l.push(format!("\t\t\t{t}{}", if comma { "," } else { "" }));
				}
				l.push(format!("\t\t}}{}", i.end));
			},
		}
	}
	l.push(format!("\t{}", e.end));
	l.push("}".into());
	l
}

fn source(d: &Def) -> Vec<String> {
	print(&model(d))
}

// ---------------------------------------------------------------- adapters

const FR: &str = "::mrt::fizyr_rpc";

fn arg(ty: &str, body: &str) -> (String, &'static str) {
	if ty == "()" {
		(format!("::mrt::decode::<()>(&{body}).unwrap();"), "")
	} else {
		(format!("let v: {ty} = ::mrt::decode(&{body}).unwrap();"), "&v")
	}
}

fn plain(n: &str) -> &str {
	n.strip_prefix("r#").unwrap_or(n)
}

fn msg_specs<'a>(it: impl Iterator<Item = (i32, &'a str)>) -> String {
	let mut s = String::from("::std::vec![");
	for (id, ty) in it {
		let _ = write!(s, "::mrt::MsgSpec {{ id: {id}, ty: ::mrt::TypeRef::of::<{ty}>() }}, ");
	}
	s + "]"
}

fn send_update(o: &mut String, ups: &[&Upd]) {
	let _ = writeln!(o, "fn send_update(&self, i: usize, body: ::std::vec::Vec<u8>, via: bool) -> ::mrt::Fut<'_, ::core::result::Result<(), {FR}::Error>> {{ ::std::boxed::Box::pin(async move {{ match (i, via) {{");
	for (k, u) in ups.iter().enumerate() {
		let (pre, a) = arg(&u.ty, "body");
		let f = format!("send_{}_update", plain(&u.name));
		let _ = writeln!(o, "({k}, false) => {{ {pre} self.0.{f}({a}).await }}");
		let _ = writeln!(o, "({k}, true) => {{ {pre} let w = self.0.write_handle(); assert!(w.request_id() == self.0.request_id() && w.service_id() == self.0.service_id()); let w = ::core::clone::Clone::clone(&w); w.{f}({a}).await }}");
	}
	let _ = writeln!(o, "_ => panic!(\"no such update\") }} }}) }}");
}

fn recv_update(o: &mut String, conv: Option<String>) {
	let _ = writeln!(o, "fn recv_update(&mut self) -> ::mrt::Fut<'_, ::core::option::Option<::core::result::Result<::mrt::Upd, {FR}::ParseUpdateError<F::Body>>>> {{ ::std::boxed::Box::pin(async move {{");
	match conv {
		Some(c) => {
			let _ = writeln!(o, "self.0.recv_update().await.map(|r| r.map({c}))");
		},
		None => {
			let _ = writeln!(o, "panic!(\"no updates\")");
		},
	}
	let _ = writeln!(o, "}}) }}");
}

/// Conversion function of a message enum, and the checks of its methods.
fn message_enum(o: &mut String, checks: &mut String, path: &str, conv: &str, what: &str, specs: &str, kind: &str, msgs: &[(i32, &str, &str)]) {
	let _ = writeln!(o, "fn {conv}(u: {path}) -> ::mrt::Upd {{ match u {{");
	for (k, (_, name, ty)) in msgs.iter().enumerate() {
		let _ = writeln!(o, "{path}::{}(v) => ::mrt::Upd({k}, ::mrt::encode::<{ty}>(&v)),", camel(name));
	}
	let _ = writeln!(o, "}} }}");
	let _ = writeln!(checks, "{{ let specs = {specs};");
	for (k, (_, name, ty)) in msgs.iter().enumerate() {
		let _ = writeln!(checks, "let body = (specs[{k}].ty.arb)(rng); let make = || {path}::{}(::mrt::decode::<{ty}>(&body).unwrap());", camel(name));
		let list = |f: &dyn Fn(&str, &str) -> String| msgs.iter().map(|(_, n, t)| f(plain(n), t)).collect::<Vec<_>>().join(", ");
		let _ = writeln!(
			checks,
			"::mrt::check_enum::<F::Body>({what:?}, &specs, {k}, &body, ::std::vec![{}], ::std::vec![{}], ::std::vec![{}], <F as {FR}::format::Format>::encode_message(&make()), &|m| <F as {FR}::format::Format>::decode_message::<{path}>(m).map({conv}), {FR}::MessageType::{kind});",
			list(&|n, _| format!("make().is_{n}()")),
			list(&|n, t| format!("make().as_{n}().map(|x: &{t}| ::mrt::encode::<{t}>(x))")),
			list(&|n, t| format!("make().into_{n}().map(|x: {t}| ::mrt::encode::<{t}>(&x))")),
		);
	}
	let _ = writeln!(checks, "}}");
}

fn adapter(d: &Def) -> String {
	let mut o = String::new();
	let mut checks = String::new();
	let svcs = d.services();
	let streams = d.streams();
	let res = |t: &str| format!("::mrt::Fut<'_, ::core::result::Result<{t}, {FR}::Error>>");
	let pin = "::std::boxed::Box::pin(async move {";
	let bytes = "::std::vec::Vec<u8>";
	// Client.
	let _ = writeln!(o, "pub struct AdaptC<F: Format>(Client<F>);");
	let _ = writeln!(o, "impl<F: Format + 'static> ::mrt::Client<F::Body> for AdaptC<F> where F::Body: ::mrt::TestBody {{");
	let _ = writeln!(o, "fn dup(&self) -> ::std::boxed::Box<dyn ::mrt::Client<F::Body>> {{ ::std::boxed::Box::new(AdaptC(::core::clone::Clone::clone(&self.0))) }}");
	let _ = writeln!(o, "fn close(self: ::std::boxed::Box<Self>) {{ let c = self.0; c.close() }}");
	let _ = writeln!(o, "fn close_handle(&self) -> {FR}::PeerCloseHandle<F::Body> {{ self.0.close_handle() }}");
	let _ = writeln!(o, "fn debug(&self) -> ::std::string::String {{ ::std::format!(\"{{:?}}\", self.0) }}");
	let _ = writeln!(o, "fn call(&self, i: usize, body: {bytes}) -> {} {{ {pin} match i {{", res("::mrt::Called<F::Body>"));
	for (k, s) in svcs.iter().enumerate() {
		let (pre, a) = arg(&s.req, "body");
		if s.ups(false).is_empty() && s.ups(true).is_empty() {
			let _ = writeln!(o, "{k} => {{ {pre} let r: {} = (&self.0).{}({a}).await?; Ok(::mrt::Called::Response(::mrt::encode::<{}>(&r))) }}", s.resp, s.name, s.resp);
		} else {
			let _ = writeln!(o, "{k} => {{ {pre} let h = (&self.0).{}({a}).await?; Ok(::mrt::Called::Handle(::std::boxed::Box::new(AdaptSent{k}(h)))) }}", s.name);
		}
	}
	let _ = writeln!(o, "_ => panic!(\"no such service\") }} }}) }}");
	let _ = writeln!(o, "fn stream(&self, i: usize, body: {bytes}) -> {} {{ {pin} match i {{", res("()"));
	for (k, s) in streams.iter().enumerate() {
		let (pre, a) = arg(&s.ty, "body");
		let _ = writeln!(o, "{k} => {{ {pre} self.0.send_{}({a}).await }}", plain(&s.name));
	}
	let _ = writeln!(o, "_ => panic!(\"no such stream\") }} }}) }} }}");
	// Server.
	let _ = writeln!(o, "pub struct AdaptS<F: Format>(Server<F>);");
	let _ = writeln!(o, "impl<F: Format + 'static> ::mrt::Server<F::Body> for AdaptS<F> where F::Body: ::mrt::TestBody {{");
	let _ = writeln!(o, "fn close(self: ::std::boxed::Box<Self>) {{ let c = self.0; c.close() }}");
	let _ = writeln!(o, "fn close_handle(&self) -> {FR}::PeerCloseHandle<F::Body> {{ self.0.close_handle() }}");
	let _ = writeln!(o, "fn debug(&self) -> ::std::string::String {{ ::std::format!(\"{{:?}}\", self.0) }}");
	let _ = writeln!(o, "fn recv(&mut self) -> ::mrt::Fut<'_, ::core::result::Result<::mrt::Recv<F::Body>, {FR}::RecvMessageError<F::Body>>> {{ {pin} let m = self.0.recv_message().await?; let _ = ::std::format!(\"{{:?}}\", m); match m {{");
	if !streams.is_empty() {
		let _ = writeln!(o, "ReceivedMessage::Stream(u) => ::core::result::Result::Ok(::mrt::Recv::Stream(conv_streams(u))),");
	}
	for (k, s) in svcs.iter().enumerate() {
		let _ = writeln!(
			o,
			"ReceivedMessage::Request(ReceivedRequestHandle::{}(h, v)) => {{ let v: {} = v; ::core::result::Result::Ok(::mrt::Recv::Request({k}, ::std::boxed::Box::new(AdaptRecv{k}(h)), ::mrt::encode(&v))) }}",
			camel(&s.name),
			s.req
		);
	}
	let _ = writeln!(o, "}} }}) }} }}");
	if !streams.is_empty() {
		let list: Vec<_> = streams.iter().map(|s| (s.id, &s.name[..], &s.ty[..])).collect();
		message_enum(&mut o, &mut checks, "StreamMessage", "conv_streams", "StreamMessage", &msg_specs(list.iter().map(|x| (x.0, x.2))), "Stream", &list);
	}
	// Handles.
	for (k, s) in svcs.iter().enumerate() {
		let (ru, su) = (s.ups(false), s.ups(true));
		let m = &s.name;
		for (ups, resp, en) in [(&ru, false, "RequestUpdate"), (&su, true, "ResponseUpdate")] {
			if !ups.is_empty() {
				let list: Vec<_> = ups.iter().map(|s| (s.id, &s.name[..], &s.ty[..])).collect();
				let conv = format!("conv_{}_{k}", if resp { "su" } else { "ru" });
				message_enum(
					&mut o,
					&mut checks,
					&format!("{m}::{en}"),
					&conv,
					&format!("{m}::{en}"),
					&msg_specs(list.iter().map(|x| (x.0, x.2))),
					if resp { "ResponderUpdate" } else { "RequesterUpdate" },
					&list,
				);
			}
		}
		if !(ru.is_empty() && su.is_empty()) {
			let _ = writeln!(o, "pub struct AdaptSent{k}<F: Format>({m}::SentRequestHandle<F>);");
			let _ = writeln!(o, "impl<F: Format + 'static> ::mrt::Sent<F::Body> for AdaptSent{k}<F> where F::Body: ::mrt::TestBody {{");
			let _ = writeln!(o, "fn ids(&self) -> (u32, i32) {{ let _ = ::std::format!(\"{{:?}} {{:?}}\", self.0, self.0.write_handle()); assert!(self.0.inner().request_id() == self.0.request_id()); (self.0.request_id(), self.0.service_id()) }}");
			let _ = writeln!(o, "fn recv_response(&mut self) -> {} {{ {pin} let r: {} = self.0.recv_response().await?; Ok(::mrt::encode(&r)) }}) }}", res(bytes), s.resp);
			let _ = writeln!(o, "fn raw_write(&self) -> {FR}::SentRequestWriteHandle<F::Body> {{ self.0.write_handle().into_inner() }}");
			let _ = writeln!(o, "fn into_raw(self: ::std::boxed::Box<Self>) -> {FR}::SentRequestHandle<F::Body> {{ let h = self.0; h.into_inner() }}");
			send_update(&mut o, &ru);
			recv_update(&mut o, (!su.is_empty()).then(|| format!("conv_su_{k}")));
			let _ = writeln!(o, "}}");
		}
		let _ = writeln!(o, "pub struct AdaptRecv{k}<F: Format>({m}::ReceivedRequestHandle<F>);");
		let _ = writeln!(o, "impl<F: Format + 'static> ::mrt::Received<F::Body> for AdaptRecv{k}<F> where F::Body: ::mrt::TestBody {{");
		let _ = writeln!(o, "fn ids(&self) -> (u32, i32) {{ let _ = ::std::format!(\"{{:?}} {{:?}}\", self.0, self.0.write_handle()); assert!(self.0.inner().request_id() == self.0.request_id()); (self.0.request_id(), self.0.service_id()) }}");
		let _ = writeln!(o, "fn raw_write(&self) -> {FR}::ReceivedRequestWriteHandle<F::Body> {{ self.0.write_handle().into_inner() }}");
		let _ = writeln!(o, "fn into_raw(self: ::std::boxed::Box<Self>) -> {FR}::ReceivedRequestHandle<F::Body> {{ let h = self.0; h.into_inner() }}");
		let _ = writeln!(o, "fn send_response(&self, body: {bytes}, via: bool) -> {} {{ {pin} let v: {} = ::mrt::decode(&body).unwrap(); if via {{ self.0.write_handle().send_response(&v).await }} else {{ self.0.send_response(&v).await }} }}) }}", res("()"), s.resp);
		let _ = writeln!(o, "fn send_error(&self, text: ::std::string::String, via: bool) -> {} {{ {pin} if via {{ self.0.write_handle().send_error_response(&text).await }} else {{ self.0.send_error_response(&text).await }} }}) }}", res("()"));
		send_update(&mut o, &su);
		recv_update(&mut o, (!ru.is_empty()).then(|| format!("conv_ru_{k}")));
		let _ = writeln!(o, "}}");
	}
	// The interface.
	let _ = writeln!(o, "pub struct Adapt<F>(::core::marker::PhantomData<F>);");
	let _ = writeln!(o, "impl<F: Format + 'static> ::mrt::Iface<F::Body> for Adapt<F> where F::Body: ::mrt::TestBody {{");
	let _ = writeln!(o, "fn client_write(&self, p: {FR}::PeerWriteHandle<F::Body>) -> ::std::boxed::Box<dyn ::mrt::Client<F::Body>> {{ ::std::boxed::Box::new(AdaptC::<F>(<Client<F> as ::core::convert::From<_>>::from(p))) }}");
	let _ = writeln!(o, "fn client_peer(&self, p: {FR}::PeerHandle<F::Body>) -> ::std::boxed::Box<dyn ::mrt::Client<F::Body>> {{ ::std::boxed::Box::new(AdaptC::<F>(<Client<F> as ::core::convert::From<_>>::from(p))) }}");
	let _ = writeln!(o, "fn server_read(&self, p: {FR}::PeerReadHandle<F::Body>) -> ::std::boxed::Box<dyn ::mrt::Server<F::Body>> {{ ::std::boxed::Box::new(AdaptS::<F>(<Server<F> as ::core::convert::From<_>>::from(p))) }}");
	let _ = writeln!(o, "fn server_peer(&self, p: {FR}::PeerHandle<F::Body>) -> ::std::boxed::Box<dyn ::mrt::Server<F::Body>> {{ ::std::boxed::Box::new(AdaptS::<F>(<Server<F> as ::core::convert::From<_>>::from(p))) }}");
	let _ = writeln!(o, "fn enums(&self, rng: &mut ::mrt::Rng) {{ {checks} }} }}");
	let _ = writeln!(o, "fn spec() -> ::mrt::Spec {{ ::mrt::Spec {{ streams: {}, services: ::std::vec![", msg_specs(streams.iter().map(|x| (x.id, &x.ty[..]))));
	for s in &svcs {
		let _ = writeln!(
			o,
			"::mrt::SvcSpec {{ id: {}, req: ::mrt::TypeRef::of::<{}>(), resp: ::mrt::TypeRef::of::<{}>(), ru: {}, su: {} }},",
			s.id,
			s.req,
			s.resp,
			msg_specs(s.ups(false).iter().map(|x| (x.id, &x.ty[..]))),
			msg_specs(s.ups(true).iter().map(|x| (x.id, &x.ty[..])))
		);
	}
	let _ = writeln!(o, "] }} }}");
	let body = if d.seqpacket { "UnixBody" } else { "StreamBody" };
	let _ = writeln!(o, "type TheBody = {FR}::{body};");
	let _ = writeln!(
		o,
		"pub fn entry() -> ::mrt::Entry {{ ::mrt::Entry {{ name: {:?}, run: |ops, faults, patience, info| ::mrt::run_history::<TheBody>(&Adapt::<::mrt::Fmt<TheBody>>(::core::marker::PhantomData), &spec(), ops, faults, patience, info), enums: |seed| ::mrt::run_enums::<TheBody>(&Adapt::<::mrt::Fmt<TheBody>>(::core::marker::PhantomData), seed), inspect: || ::core::result::Result::Ok(()) }} }}",
		d.name
	);
	o
}

// ---------------------------------------------------------------- introspection

fn doc_string(m: &Meta) -> String {
	let blank = |t: &str| t.chars().all(|c| c == ' ');
	let indent = m.doc.iter().filter(|(_, t)| !blank(t)).map(|(_, t)| t.len() - t.trim_start_matches(' ').len()).min().unwrap_or(0);
	m.doc.iter().map(|(_, t)| if blank(t) { "\n".to_string() } else { format!("{}\n", &t[indent..]) }).collect()
}

fn inspector(d: &Def) -> String {
	let i = format!("{FR}::introspection");
	let upd = |u: &Upd| {
		format!(
			"{i}::UpdateDefinition {{ name: {:?}.to_string(), doc: {:?}.to_string(), hidden: {}, service_id: {}, body: ::std::any::type_name::<{}>() }}",
			plain(&u.name),
			doc_string(&u.meta),
			u.meta.hidden.is_some(),
			u.id,
			u.ty
		)
	};
	let list = |v: Vec<String>| format!("::std::vec![{}]", v.join(", "));
	let services = list(d
		.services()
		.iter()
		.map(|s| {
			format!(
				"{i}::ServiceDefinition {{ name: {:?}.to_string(), doc: {:?}.to_string(), hidden: {}, service_id: {}, request_body: ::std::any::type_name::<{}>(), response_body: ::std::any::type_name::<{}>(), request_updates: {}, response_updates: {} }}",
				plain(&s.name),
				doc_string(&s.meta),
				s.meta.hidden.is_some(),
				s.id,
				s.req,
				s.resp,
				list(s.ups(false).into_iter().map(upd).collect()),
				list(s.ups(true).into_iter().map(upd).collect()),
			)
		})
		.collect());
	let streams = list(d
		.streams()
		.iter()
		.map(|s| {
			format!(
				"{i}::StreamDefinition {{ name: {:?}.to_string(), doc: {:?}.to_string(), hidden: {}, service_id: {}, body: ::std::any::type_name::<{}>() }}",
				plain(&s.name),
				doc_string(&s.meta),
				s.meta.hidden.is_some(),
				s.id,
				s.ty
			)
		})
		.collect());
	let doc = doc_string(&d.meta);
	format!(
		"pub fn entry() -> ::mrt::Entry {{ ::mrt::Entry {{ name: {:?}, run: |_, _, _, _| ::core::result::Result::Ok(()), enums: |_| ::core::result::Result::Ok(()), inspect }} }}
fn inspect() -> ::core::result::Result<(), ::std::string::String> {{
	type F = ::mrt::Fmt<{FR}::StreamBody>;
	let name: &'static str = Interface::name();
	let doc: &'static str = Interface::doc();
	if name != {name:?} {{ return ::core::result::Result::Err(::std::format!(\"name() is {{name:?}}, expected {{:?}}\", {name:?})); }}
	if doc != {doc:?} {{ return ::core::result::Result::Err(::std::format!(\"doc() is {{doc:?}}, expected {{:?}}\", {doc:?})); }}
	let services: ::std::vec::Vec<{i}::ServiceDefinition<&'static str>> = {services};
	let streams: ::std::vec::Vec<{i}::StreamDefinition<&'static str>> = {streams};
	let (a, b) = (::std::format!(\"{{services:#?}}\"), ::std::format!(\"{{:#?}}\", Interface::services::<F>()));
	if a != b {{ return ::core::result::Result::Err(::std::format!(\"services() is {{b}}, expected {{a}}\")); }}
	let (a, b) = (::std::format!(\"{{streams:#?}}\"), ::std::format!(\"{{:#?}}\", Interface::streams::<F>()));
	if a != b {{ return ::core::result::Result::Err(::std::format!(\"streams() is {{b}}, expected {{a}}\")); }}
	let expected = {i}::InterfaceDefinition {{ name: {name:?}.to_string(), doc: {doc:?}.to_string(), hidden: {}, services, streams }};
	let (a, b) = (::std::format!(\"{{expected:#?}}\"), ::std::format!(\"{{:#?}}\", Interface::definition::<F>()));
	if a != b {{ return ::core::result::Result::Err(::std::format!(\"definition() is {{b}}, expected {{a}}\")); }}
	::core::result::Result::Ok(())
}}
",
		d.name,
		d.meta.hidden.is_some(),
		name = plain(&d.name),
	)
}

// ---------------------------------------------------------------- compiling

struct Diag {
	message: String,
	coded: bool,
	/// Lines of the primary spans, in the file itself.
	lines: Vec<usize>,
}

struct Work(PathBuf);

impl Work {
	fn new(id: &str) -> Self {
		let dir = fw::verif_dir().join("build").join(format!("{id}-{}", std::process::id()));
		let _ = std::fs::remove_dir_all(&dir);
		std::fs::create_dir_all(&dir).expect("create build directory");
		Work(dir)
	}
}

impl Drop for Work {
	fn drop(&mut self) {
		if std::env::var_os("VERIF_KEEP").is_some() {
			return;
		}
		let _ = std::fs::remove_dir_all(&self.0);
	}
}

fn target_dir() -> PathBuf {
	std::env::var_os("CARGO_TARGET_DIR").map(PathBuf::from).unwrap_or_else(|| fw::verif_dir().join("harness/target")).join(if cfg!(debug_assertions) { "debug" } else { "nodebug" })
}

fn outer_lines(span: &Value, file: &str) -> Option<usize> {
	// Follow the expansion chain out to the file that was compiled.
	let mut s = span;
	let mut line = None;
	loop {
		if s["file_name"].as_str().is_some_and(|f| f.ends_with(file)) {
			line = s["line_start"].as_u64().map(|x| x as usize);
		}
		if line.is_some() || s["expansion"].is_null() {
			return line;
		}
		s = &s["expansion"]["span"];
	}
}

/// Compile a file. Err for something that says nothing about the code (rustc killed, ...).
fn rustc(src: &Path, out: &Path, edition: &str, link: bool) -> Result<(bool, Vec<Diag>), String> {
	rustc_with(src, out, edition, (!link).then_some("lib"), &[])
}

fn rustc_with(src: &Path, out: &Path, edition: &str, lib: Option<&str>, externs: &[(&str, &Path)]) -> Result<(bool, Vec<Diag>), String> {
	let target = target_dir();
	let mut cmd = Command::new("rustc");
	cmd.args(["--edition", edition, "-A", "warnings", "--error-format=json", "-C", "debuginfo=0", "-C", "codegen-units=4"]);
	let on = if cfg!(debug_assertions) { "on" } else { "off" };
	cmd.args(["-C".to_string(), format!("overflow-checks={on}"), "-C".into(), format!("debug-assertions={on}")]);
	match lib {
		None => cmd.args(["--crate-type", "bin", "--emit=link"]),
		Some(kind) => cmd.args(["--crate-type", kind, "--emit=metadata"]),
	};
	for (name, path) in externs {
		cmd.arg("--extern").arg(format!("{name}={}", path.display()));
	}
	cmd.arg("-L").arg(format!("dependency={}", target.join("deps").display()));
	cmd.arg("--extern").arg(format!("mrt={}", target.join("libmrt.rlib").display()));
	cmd.arg("-o").arg(out).arg(src);
	cmd.current_dir(src.parent().unwrap());
	let o = cmd.output().map_err(|e| format!("can not run rustc: {e}"))?;
	let file = src.file_name().unwrap().to_str().unwrap();
	let mut diags = Vec::new();
	for line in String::from_utf8_lossy(&o.stderr).lines() {
		let Ok(v) = serde_json::from_str::<Value>(line) else { continue };
		if !v["level"].as_str().is_some_and(|l| l.starts_with("error")) {
			continue;
		}
		let spans = v["spans"].as_array().cloned().unwrap_or_default();
		let mut message = v["message"].as_str().unwrap_or("").to_string();
		for c in v["children"].as_array().into_iter().flatten() {
			if message.contains("panicked") {
				message += &format!(" ({})", c["message"].as_str().unwrap_or(""));
			}
		}
		if message.starts_with("aborting due to") || message.starts_with("For more information") {
			continue;
		}
		diags.push(Diag {
			message,
			coded: !v["code"].is_null(),
			lines: spans.iter().filter(|s| s["is_primary"].as_bool() == Some(true)).filter_map(|s| outer_lines(s, file)).collect(),
		});
	}
	match o.status.code() {
		Some(0) => Ok((true, diags)),
		Some(1) if !diags.is_empty() => Ok((false, diags)),
		c => Err(format!("rustc ended with {c:?}: {}", String::from_utf8_lossy(&o.stderr).chars().take(600).collect::<String>())),
	}
}

const HEADER: &str = "#![allow(warnings)]\n";

/// Source of a program with several interfaces, and the line range of each.
fn program(parts: &[(Vec<String>, String)], main: bool) -> (String, Vec<std::ops::Range<usize>>) {
	let mut s = String::from(HEADER);
	let mut line = 2;
	let mut ranges = Vec::new();
	for (i, (lines, extra)) in parts.iter().enumerate() {
		let begin = line;
		let mut text = format!("pub mod i{i} {{\nuse ::mrt::types::*;\n");
		for l in lines {
			text += l;
			text.push('\n');
		}
		text += extra;
		text += "\n}\n";
		line += text.matches('\n').count();
		s += &text;
		ranges.push(begin..line);
	}
	if main {
		let entries: Vec<String> = (0..parts.len()).map(|i| format!("i{i}::entry()")).collect();
		let _ = writeln!(s, "fn main() {{ ::mrt::program(&[{}]) }}", entries.join(", "));
	}
	(s, ranges)
}

fn edition(n: u64) -> &'static str {
	["2021", "2018", "2021", "2024"][n as usize % 4]
}

fn runner(ctx: &Ctx, sub: &str) -> TestRunner {
	let mut seed = [0u8; 32];
	seed[..8].copy_from_slice(&ctx.seed.to_le_bytes());
	for (i, b) in sub.bytes().enumerate().take(24) {
		seed[8 + i] = b;
	}
	TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, TestRng::from_seed(RngAlgorithm::ChaCha, &seed))
}

fn parallel<T: Send, R: Send>(jobs: Vec<T>, f: impl Fn(usize, T) -> R + Sync) -> Vec<R> {
	let queue = std::sync::Mutex::new(jobs.into_iter().enumerate().collect::<std::collections::VecDeque<_>>());
	let results = std::sync::Mutex::new(Vec::new());
	std::thread::scope(|s| {
		for _ in 0..8 {
			s.spawn(|| loop {
				let Some((i, job)) = queue.lock().unwrap().pop_front() else { return };
				let r = f(i, job);
				results.lock().unwrap().push((i, r));
			});
		}
	});
	let mut r = results.into_inner().unwrap();
	r.sort_by_key(|x| x.0);
	r.into_iter().map(|x| x.1).collect()
}

fn run_program(exe: &Path, args: &[String], limit: Duration) -> Result<String, String> {
	let out = exe.with_extension("out");
	let file = std::fs::File::create(&out).map_err(|e| e.to_string())?;
	let mut child = Command::new(exe).args(args).stdout(file).stderr(std::process::Stdio::null()).spawn().map_err(|e| format!("can not run {}: {e}", exe.display()))?;
	let began = Instant::now();
	loop {
		if let Some(status) = child.try_wait().map_err(|e| e.to_string())? {
			let text = std::fs::read_to_string(&out).unwrap_or_default();
			if !status.success() {
				return Ok(text + &format!("\nDIED {status}\n"));
			}
			return Ok(text);
		}
		if began.elapsed() > limit {
			let _ = child.kill();
			let _ = child.wait();
			return Ok(std::fs::read_to_string(&out).unwrap_or_default() + "\nHANGS\n");
		}
		std::thread::sleep(Duration::from_millis(20));
	}
}

// ---------------------------------------------------------------- C20, C21: histories

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
	def: Def,
	edition: String,
	/// Arguments of the program (`ops 0 FAULTS OPS`, `enums 0 SEED`, `inspect`), empty: it must compile.
	args: Vec<String>,
}

fn part(d: &Def, mode: Mode) -> (Vec<String>, String) {
	let extra = match mode {
		Mode::Run => adapter(d),
		Mode::Inspect => inspector(d),
		Mode::Compile => String::new(),
	};
	(source(d), extra)
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
	Run,
	Inspect,
	Compile,
}

/// Compile one interface and run the program with the given arguments.
fn one(work: &Path, name: &str, d: &Def, edition: &str, mode: Mode, args: &[String]) -> Result<Option<String>, String> {
	let (src, _) = program(&[part(d, mode)], mode != Mode::Compile);
	let file = work.join(format!("{name}.rs"));
	std::fs::write(&file, src).map_err(|e| e.to_string())?;
	let exe = work.join(format!("{name}.exe"));
	let (ok, diags) = rustc(&file, &exe, edition, mode != Mode::Compile)?;
	if !ok {
		return Ok(Some(format!("a valid interface does not compile: {}", diags[0].message)));
	}
	if mode == Mode::Compile {
		return Ok(None);
	}
	let out = run_program(&exe, args, Duration::from_secs(60))?;
	Ok(out.lines().find_map(failure).map(|x| x.2))
}

/// Index, arguments to repeat it, message.
fn failure(line: &str) -> Option<(usize, Vec<String>, String)> {
	if let Some(rest) = line.strip_prefix("FAIL ") {
		let mut it = rest.splitn(4, ' ');
		let idx = it.next()?.parse().ok()?;
		let kind = it.next()?;
		if kind == "inspect" {
			let tail: Vec<&str> = it.collect();
			return Some((idx, vec!["inspect".into()], tail.join(" ")));
		}
		let arg = it.next()?.to_string();
		return Some((idx, vec![kind.into(), arg], it.next().unwrap_or("").replace("\\n", "\n")));
	}
	if line.starts_with("DIED") || line == "HANGS" {
		return Some((usize::MAX, Vec::new(), format!("the program {line}")));
	}
	None
}

/// Find a smaller interface with which there still is a failure.
fn shrink<V: Clone + PartialEq + std::fmt::Debug, T: ValueTree<Value = V>>(mut tree: T, mut fails: impl FnMut(&V) -> Option<(Vec<String>, String)>, first: (Vec<String>, String)) -> (V, Vec<String>, String) {
	let mut best = (tree.current(), first.0, first.1);
	let began = Instant::now();
	'outer: while began.elapsed() < Duration::from_secs(60) {
		if !tree.simplify() {
			break;
		}
		loop {
			let d = tree.current();
			if d != best.0 {
				if let Some((a, m)) = fails(&d) {
					best = (d, a, m);
					break;
				}
			} else {
				break;
			}
			if began.elapsed() > Duration::from_secs(60) || !tree.complicate() {
				break 'outer;
			}
		}
	}
	best
}

struct Stat {
	def: usize,
	ran: u64,
	delivered: u64,
	faults: u64,
	hashes: Vec<u64>,
	labels: Vec<String>,
	sample: String,
}

/// `mode` selects histories or introspection.
fn campaign(ctx: &Arc<Ctx>, sub: &str, rule: &'static str, mode: Mode, kind: u8, interfaces: usize, per_crate: usize, histories: u64) {
	let borrowed = ctx.origin() != ctx.id;
	let (interfaces, per_crate) = if borrowed { (interfaces / 15, 2) } else { (interfaces, per_crate) };
	let short = sub;
	let sub = &ctx.full_name(sub)[..];
	let work = Work::new(&format!("{}-{}", ctx.id, sub.replace([' ', ':'], "_")));
	if let Some((rsub, value)) = &ctx.replay {
		if rsub != sub {
			return;
		}
		*ctx.replay_ran.lock().unwrap() = true;
		let case: Case = serde_json::from_value(value.clone()).expect("replay case");
		match one(&work.0, "replay", &case.def, &case.edition, mode, &case.args) {
			Ok(Some(m)) => {
				if ctx.only_in_this_build(short, value, &|| true) {
					ctx.violation(sub, value.clone(), m)
				}
			},
			Ok(None) => (),
			Err(e) => panic!("{e}"),
		}
		return;
	}
	if ctx.stop() {
		return;
	}
	let mut run = runner(ctx, sub);
	let strat = def(mode == Mode::Inspect, 7);
	let trees: Vec<_> = (0..interfaces).map(|_| strat.new_tree(&mut run).expect("generate")).collect();
	let defs: Vec<Def> = trees.iter().map(|t| t.current()).collect();
	let crates: Vec<Vec<usize>> = (0..interfaces).collect::<Vec<_>>().chunks(per_crate).map(|c| c.to_vec()).collect();
	let n_crates = crates.len();
	let seconds = if ctx.thorough { 400 } else { 100 };
	let flag = &kind.to_string()[..];
	// Whether the macro accepts the interface is judged elsewhere.
	let judge_build = kind != 2;
	let args_for = |seed: u64| -> Vec<String> {
		match mode {
			Mode::Inspect => vec!["inspect".into()],
			_ => vec!["run".into(), seed.to_string(), histories.to_string(), flag.into(), seconds.to_string()],
		}
	};
	type Failed = (usize, &'static str, Vec<String>, String);
	let results: Vec<Result<(Vec<Stat>, Vec<Failed>), String>> = parallel(crates, |c, members| {
		let ed = edition(c as u64);
		let parts: Vec<_> = members.iter().map(|&i| part(&defs[i], mode)).collect();
		let (src, ranges) = program(&parts, true);
		let file = work.0.join(format!("c{c}.rs"));
		std::fs::write(&file, src).map_err(|e| e.to_string())?;
		let exe = work.0.join(format!("c{c}.exe"));
		let (ok, diags) = match rustc(&file, &exe, ed, true) {
			Ok(x) => x,
			// Perhaps short of memory: once more.
			Err(_) => rustc(&file, &exe, ed, true)?,
		};
		if !ok {
			let line = diags.iter().flat_map(|d| &d.lines).next().copied();
			let k = line.and_then(|l| ranges.iter().position(|r| r.contains(&l))).unwrap_or(0);
			let m = format!("a valid interface does not compile: {}", diags[0].message);
			if !judge_build {
				ctx.note(format!("{sub}: {m}"));
				return Ok((Vec::new(), Vec::new()));
			}
			return Ok((Vec::new(), vec![(members[k], ed, Vec::new(), m)]));
		}
		let out = run_program(&exe, &args_for(ctx.seed.wrapping_mul(1000) + c as u64), Duration::from_secs(seconds + 60))?;
		let mut stats: BTreeMap<usize, Stat> = BTreeMap::new();
		let mut failed = Vec::new();
		for line in out.lines() {
			if let Some((k, args, m)) = failure(line) {
				let k = if k == usize::MAX { stats.len().min(members.len() - 1) } else { k };
				let args = match args.first().map(|x| &x[..]) {
					Some("ops") => vec!["ops".into(), "0".into(), flag.into(), args[1].clone()],
					Some("enums") => vec!["enums".into(), "0".into(), args[1].clone()],
					Some(_) => args,
					None => args_for(ctx.seed.wrapping_mul(1000) + c as u64),
				};
				failed.push((members[k], ed, args, m));
				continue;
			}
			let mut w = line.splitn(3, ' ');
			let (Some(kind), Some(k)) = (w.next(), w.next().and_then(|x| x.parse::<usize>().ok())) else { continue };
			let rest = w.next().unwrap_or("");
			let st = stats.entry(k).or_insert_with(|| Stat { def: members[k], ran: 0, delivered: 0, faults: 0, hashes: Vec::new(), labels: Vec::new(), sample: String::new() });
			match kind {
				"STAT" => {
					let v: Vec<&str> = rest.split(' ').collect();
					st.ran = v[0].parse().unwrap_or(0);
					st.delivered = v[1].parse().unwrap_or(0);
					st.faults = v[2].parse().unwrap_or(0);
					st.sample = v[3].to_string();
				},
				"LABELS" => st.labels = rest.split('|').filter(|x| !x.is_empty()).map(String::from).collect(),
				"HASHES" => st.hashes = rest.split(' ').filter_map(|x| u64::from_str_radix(x, 16).ok()).collect(),
				_ => (),
			}
		}
		let _ = std::fs::remove_file(&exe);
		Ok((stats.into_values().collect(), failed))
	});
	let mut interfaces_run = 0u64;
	let mut failures = Vec::new();
	let (mut delivered, mut fault_count) = (0, 0);
	let mut labels: BTreeMap<String, u64> = BTreeMap::new();
	for r in results {
		let (stats, failed) = match r {
			Ok(x) => x,
			Err(e) => {
				println!("{e}");
				std::process::exit(3);
			},
		};
		failures.extend(failed);
		for st in stats {
			interfaces_run += 1;
			delivered += st.delivered;
			fault_count += st.faults;
			for l in st.labels {
				*labels.entry(l).or_default() += 1;
			}
			match mode {
				Mode::Inspect => {
					let d = &defs[st.def];
					let documented = !d.meta.doc.is_empty() || d.items.iter().any(|i| matches!(i, Item::Svc(s) if !s.meta.doc.is_empty()) || matches!(i, Item::Stream(s) if !s.meta.doc.is_empty()));
					let mut info = Info::default();
					info.nontrivial = d.items.len() >= 2 && documented;
					ctx.record_direct(sub, rule, d, info);
				},
				_ => ctx.record_bulk(sub, rule, st.ran, st.hashes.iter().map(|h| h ^ (st.def as u64) << 48), json!({"interface": source(&defs[st.def]).join("\n"), "history": st.sample}), None),
			}
		}
	}
	ctx.note(format!("{sub}: {interfaces_run} generated interfaces in {n_crates} programs; messages delivered and compared: {delivered}; fault events: {fault_count}; kinds of events (interfaces): {labels:?}"));
	if let Some((i, ed, args, m)) = failures.into_iter().next() {
		let tree = trees.into_iter().nth(i).unwrap();
		let mut n = 0;
		let compile_only = args.is_empty();
		let (d, a, m) = shrink(
			tree,
			|d| {
				n += 1;
				let name = format!("s{n}");
				let (src, _) = program(&[part(d, mode)], true);
				let file = work.0.join(format!("{name}.rs"));
				std::fs::write(&file, src).ok()?;
				let exe = work.0.join(format!("{name}.exe"));
				let (ok, diags) = rustc(&file, &exe, ed, true).ok()?;
				if !ok {
					return compile_only.then(|| (Vec::new(), format!("a valid interface does not compile: {}", diags[0].message)));
				}
				if compile_only {
					return None;
				}
				let a = match mode {
					Mode::Inspect => vec!["inspect".into()],
					_ => vec!["run".into(), "1".into(), "60".into(), flag.into(), "5".into()],
				};
				let out = run_program(&exe, &a, Duration::from_secs(20)).ok()?;
				let _ = std::fs::remove_file(&exe);
				out.lines().find_map(failure).map(|(_, args, m)| {
					let args = match args.first().map(|x| &x[..]) {
						Some("ops") => vec!["ops".into(), "0".into(), flag.into(), args[1].clone()],
						Some("enums") => vec!["enums".into(), "0".into(), args[1].clone()],
						Some(_) => args,
						None => a,
					};
					(args, m)
				})
			},
			(args, m),
		);
		let text = source(&d).join("\n");
		let case = serde_json::to_value(Case { def: d, edition: ed.into(), args: a }).unwrap();
		if !ctx.only_in_this_build(short, &case, &|| true) {
			ctx.note(format!("{sub}: stopped at a case that fails in the reference build too"));
			return;
		}
		ctx.violation(sub, case, format!("{m}\n{text}"));
	}
}

/// The known finding: responses of a service with ID -1 are taken for error responses.
fn service_minus_one(ctx: &Arc<Ctx>) {
	let sub = "service ID -1";
	if ctx.replay.is_some() || ctx.origin() != ctx.id {
		return;
	}
	let work = Work::new("C20-minus-one");
	let meta = Meta { doc: Vec::new(), hidden: None };
	let def = Def {
		vis: 1,
		name: "MinusOne".into(),
		meta: meta.clone(),
		items: vec![Item::Svc(Svc { id: -1, lit: 0, name: "ping".into(), req: "u32".into(), resp: "u32".into(), meta, updates: None, commas: (false, false) })],
		seqpacket: false,
	};
	let (src, _) = program(&[part(&def, Mode::Run)], true);
	let file = work.0.join("probe.rs");
	std::fs::write(&file, src).expect("write");
	let exe = work.0.join("probe.exe");
	let r = rustc(&file, &exe, "2021", true).or_else(|_| rustc(&file, &exe, "2021", true));
	match r {
		Err(e) => {
			println!("{e}");
			std::process::exit(3);
		},
		// Refusing the definition is also fine.
		Ok((false, _)) => ctx.note(format!("{sub}: refused by the macro")),
		Ok((true, _)) => {
			let args: Vec<String> = ["run", "1", "40", "0", "20"].iter().map(|x| x.to_string()).collect();
			let out = run_program(&exe, &args, Duration::from_secs(60)).expect("run");
			match out.lines().find_map(failure) {
				None => ctx.note(format!("{sub}: works")),
				Some((_, _, m)) => {
					let same = m.starts_with("response with ID -1 and body") && m.contains("expected Ok(") && (m.contains("RemoteError") || m.contains("FromUtf8Error"));
					if !(same && ctx.known("service-id-minus-one", "the response of a typed service with ID -1 arrives as a remote error")) {
						ctx.violation("interfaces", serde_json::to_value(Case { def, edition: "2021".into(), args }).unwrap(), m);
					}
				},
			}
		},
	}
}

pub fn c20(ctx: &Arc<Ctx>) {
	let (n, h) = if ctx.thorough { (960, 600) } else { (240, 150) };
	service_minus_one(ctx);
	campaign(ctx, "interfaces", "at least three messages of at least two kinds delivered and compared", Mode::Run, 0, n, if ctx.thorough { 30 } else { 8 }, h);
}

pub fn c21(ctx: &Arc<Ctx>) {
	let (n, h) = if ctx.thorough { (960, 600) } else { (240, 150) };
	campaign(ctx, "interfaces with faults", "a valid message is delivered after an unknown, invalid or error message or a failed encoding", Mode::Run, 1, n, if ctx.thorough { 30 } else { 8 }, h);
}

/// Lifetimes of typed handles (C15, C16).
pub fn life(ctx: &Arc<Ctx>) {
	let (n, h) = if ctx.thorough { (320, 600) } else { (48, 150) };
	let rule = "a typed client or server was made, messages passed, and at least four kinds of events happened";
	campaign(ctx, "typed handles", rule, Mode::Run, 2, n, if ctx.thorough { 20 } else { 6 }, h);
}

pub fn c22(ctx: &Arc<Ctx>) {
	let n = if ctx.thorough { 4000 } else { 480 };
	campaign(ctx, "introspection", "at least two items and a doc comment", Mode::Inspect, 0, n, if ctx.thorough { 100 } else { 30 }, 0);
}

// ---------------------------------------------------------------- C23: what the macro accepts and rejects

/// Names of the generated items.
fn items(d: &Def) -> Vec<String> {
	let mut v: Vec<String> = ["Interface", "Client", "Server", "Format", "ReceivedMessage"].iter().map(|x| x.to_string()).collect();
	if !d.services().is_empty() {
		v.push("ReceivedRequestHandle".into());
	}
	if !d.streams().is_empty() {
		v.push("StreamMessage".into());
	}
	v.extend(d.services().iter().map(|s| s.name.clone()));
	v
}

/// Source of a library with interfaces nested one level deep, and uses of their items: (from inside the parent, from elsewhere in the crate).
struct Library {
	src: String,
	/// Module ranges.
	ranges: Vec<std::ops::Range<usize>>,
	/// Lines of uses: interface, item.
	uses: BTreeMap<usize, (usize, String)>,
}

/// How far the items of an interface can be seen: its own module, the parent, the crate, everywhere.
fn reach(d: &Def) -> u8 {
	[0, 3, 2, 1, 2][d.vis as usize % 5]
}

/// `valid`: uses that must be accepted, otherwise uses that must be refused.
fn library(defs: &[&Def], valid: bool) -> Library {
	let mut l: Vec<String> = vec![HEADER.trim().into()];
	let mut ranges = Vec::new();
	let mut uses = BTreeMap::new();
	for (i, d) in defs.iter().enumerate() {
		let begin = l.len() + 1;
		l.push(format!("pub mod i{i} {{ pub mod m {{ use ::mrt::types::*;"));
		l.extend(source(d));
		if valid {
			l.push("mod child {".into());
			for name in items(d) {
				l.push(format!("use super::{name} as _;"));
				uses.insert(l.len(), (i, name));
			}
			l.push("}".into());
		}
		l.push("}".into());
		for (level, path) in [(1, "self::m".to_string()), (2, format!("crate::i{i}::m"))] {
			if level == 2 {
				l.push(format!("}} mod u{i} {{"));
			}
			if valid == (reach(d) >= level) {
				for name in items(d) {
					l.push(format!("use {path}::{name} as _;"));
					uses.insert(l.len(), (i, name));
				}
			}
		}
		l.push("}".into());
		ranges.push(begin..l.len() + 1);
	}
	Library { src: l.join("\n") + "\n", ranges, uses }
}

fn outside(defs: &[&Def], valid: bool) -> Library {
	let mut l: Vec<String> = vec![HEADER.trim().into()];
	let mut uses = BTreeMap::new();
	for (i, d) in defs.iter().enumerate() {
		if valid == (reach(d) >= 3) {
			for name in items(d) {
				l.push(format!("use ::lib::i{i}::m::{name} as _;"));
				uses.insert(l.len(), (i, name));
			}
		}
	}
	Library { src: l.join("\n") + "\n", ranges: Vec::new(), uses }
}

/// Compile valid interfaces as a library, and code that uses what they generate. Gives the first failure: interface and message.
fn accept(work: &Path, name: &str, defs: &[&Def], edition: &str) -> Result<Option<(usize, String)>, String> {
	let write = |suffix: &str, src: &str| -> Result<PathBuf, String> {
		let file = work.join(format!("{name}{suffix}.rs"));
		std::fs::write(&file, src).map_err(|e| e.to_string())?;
		Ok(file)
	};
	let lib = library(defs, true);
	let rmeta = work.join(format!("lib{name}.rmeta"));
	let (ok, diags) = rustc_with(&write("", &lib.src)?, &rmeta, edition, Some("lib"), &[])?;
	let find = |l: &Library, line: usize| l.uses.get(&line).map(|u| u.0).or_else(|| l.ranges.iter().position(|r| r.contains(&line)));
	if !ok {
		let d = &diags[0];
		let line = d.lines.first().copied().unwrap_or(0);
		return Ok(Some((
			find(&lib, line).unwrap_or(0),
			match lib.uses.get(&line) {
				Some((_, item)) => format!("`{item}` can not be used where the interface is visible: {}", d.message),
				None => format!("a valid interface does not compile: {}", d.message),
			},
		)));
	}
	let refused = |l: &Library, diags: &[Diag]| {
		l.uses.iter().find(|(line, _)| !diags.iter().any(|d| d.lines.contains(line))).map(|(_, (i, item))| (*i, format!("`{item}` is visible where the interface is not")))
	};
	let inner = library(defs, false);
	if !inner.uses.is_empty() {
		let (_, diags) = rustc_with(&write("n", &inner.src)?, &work.join(format!("lib{name}n.rmeta")), edition, Some("lib"), &[])?;
		if let Some(x) = refused(&inner, &diags) {
			return Ok(Some(x));
		}
	}
	let out = outside(defs, true);
	let (ok, diags) = rustc_with(&write("o", &out.src)?, &work.join(format!("lib{name}o.rmeta")), edition, Some("lib"), &[("lib", &rmeta)])?;
	if !ok {
		let d = &diags[0];
		let line = d.lines.first().copied().unwrap_or(0);
		return Ok(Some((find(&out, line).unwrap_or(0), format!("a public interface can not be used from another crate: {}", d.message))));
	}
	let out = outside(defs, false);
	if !out.uses.is_empty() {
		let (_, diags) = rustc_with(&write("p", &out.src)?, &work.join(format!("lib{name}p.rmeta")), edition, Some("lib"), &[("lib", &rmeta)])?;
		if let Some(x) = refused(&out, &diags) {
			return Ok(Some(x));
		}
	}
	for suffix in ["", "n", "o", "p"] {
		let _ = std::fs::remove_file(work.join(format!("lib{name}{suffix}.rmeta")));
		let _ = std::fs::remove_file(work.join(format!("{name}{suffix}.rs")));
	}
	Ok(None)
}

fn valid_interfaces(ctx: &Arc<Ctx>, n: usize, per_crate: usize) {
	let sub = "valid interfaces";
	let work = Work::new("C23v");
	if let Some((rsub, value)) = &ctx.replay {
		if rsub == sub {
			*ctx.replay_ran.lock().unwrap() = true;
			let case: Case = serde_json::from_value(value.clone()).expect("replay case");
			match accept(&work.0, "replay", &[&case.def], &case.edition) {
				Ok(Some(m)) => ctx.violation(sub, value.clone(), m.1),
				Ok(None) => (),
				Err(e) => panic!("{e}"),
			}
		}
		return;
	}
	if ctx.stop() {
		return;
	}
	let mut run = runner(ctx, sub);
	let strat = prop_oneof![3 => def(true, 7), 1 => def(false, 30)];
	let trees: Vec<_> = (0..n).map(|_| strat.new_tree(&mut run).expect("generate")).collect();
	let defs: Vec<Def> = trees.iter().map(|t| t.current()).collect();
	let crates: Vec<Vec<usize>> = (0..n).collect::<Vec<_>>().chunks(per_crate).map(|c| c.to_vec()).collect();
	let results = parallel(crates, |c, members| {
		if ctx.stop() {
			return (Vec::new(), Ok(None));
		}
		let list: Vec<&Def> = members.iter().map(|&i| &defs[i]).collect();
		let run = || accept(&work.0, &format!("c{c}"), &list, edition(c as u64));
		let r = run().or_else(|_| run()).map(|r| r.map(|(i, m)| (members[i], edition(c as u64), m)));
		(members, r)
	});
	let mut failed = None;
	let mut visibility = BTreeMap::<u8, u64>::new();
	for (members, r) in results {
		for i in members {
			let d = &defs[i];
			*visibility.entry(reach(d)).or_default() += items(d).len() as u64;
			let mut info = Info::default();
			info.nontrivial = d.items.len() >= 2 && d.services().iter().any(|s| s.updates.as_ref().is_some_and(|u| u.len() >= 2));
			info.label_if(d.services().is_empty(), "no services");
			info.label_if(d.streams().is_empty(), "no streams");
			info.label_if(d.items.is_empty(), "empty interface");
			info.label_if(d.items.len() > 10, "more than ten items");
			ctx.record_direct(sub, "at least two items, and a service with at least two updates", d, info);
		}
		match r {
			Ok(None) => (),
			Ok(Some(f)) => failed = failed.or(Some(f)),
			Err(e) => {
				println!("{e}");
				std::process::exit(3);
			},
		}
	}
	ctx.note(format!("{sub}: generated items used from inside and outside of their visibility, by visibility (0 private, 1 parent, 2 crate, 3 public): {visibility:?}"));
	if let Some((i, ed, m)) = failed {
		let tree = trees.into_iter().nth(i).unwrap();
		let mut k = 0;
		let (d, _, m) = shrink(
			tree,
			|d| {
				k += 1;
				accept(&work.0, &format!("s{k}"), &[d], ed).ok().flatten().map(|m| (Vec::new(), m.1))
			},
			(Vec::new(), m),
		);
		let text = source(&d).join("\n");
		ctx.violation(sub, serde_json::to_value(Case { def: d, edition: ed.into(), args: Vec::new() }).unwrap(), format!("{m}\n{text}"));
	}
}

/// A violation to inject. Positions are taken modulo what is there.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Inject {
	/// Same ID, same name: of a service, a stream or an update.
	Dup { what: u8, id: bool, name: bool, at: u16, copies: u8, to: u16, lit: u8 },
	/// An ID that does not fit.
	Range { item: u16, update: Option<u16>, value: u8 },
	/// An attribute that is unknown or malformed.
	Attr { item: Option<u16>, update: Option<u16>, text: u8, to: u8 },
	/// Syntax error.
	Syntax { kind: u8, item: u16, update: u16, variant: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Bad {
	def: Def,
	inject: Vec<Inject>,
}

/// One expected error: mark in the source line, how many of the marked lines must have an error, what the message must say.
struct Expect {
	mark: String,
	lines: usize,
	says: &'static str,
	what: String,
}

const BAD_IDS: &[&str] =
	&["2147483648", "-2147483649", "0xffffffff", "99999999999999999999999999999999999999999999", "4294967296", "-0x80000001", "0x1_0000_0000", "18446744073709551616", "-9223372036854775809", "2147483648i32"];
const BAD_ATTRS: &[&str] = &[
	"#[foo]", "#[derive(Debug)]", "#[docs = \"x\"]", "#[Hidden]", "#[hide]", "#[doc::hidden]", "#[cfg(test)]", "#[allow(unused)]", "#[deprecated]", "#[hidden = \"yes\"]", "#[hidden(true)]",
	"#[hidden::x]", "#[doc]", "#[doc = 5]", "#[must_use = \"x\"]", "#[non_exhaustive]", "#[serde(default)]", "#[service]", "#[doc = b\"x\"]",
];

impl Bad {
	fn syntax(&self) -> bool {
		self.inject.iter().any(|i| matches!(i, Inject::Syntax { .. }))
	}

	/// The invocation's source, and what must be reported.
	fn build(&self) -> (Vec<String>, Vec<Expect>) {
		let mut e = model(&self.def);
		let mut expect = Vec::new();
		// Text of ID and name of each item and its updates.
		let mut free = 1_000_000;
		let id_name = |text: &str| -> (String, String) {
			let mut w = text.split([' ', ':']).skip(1);
			(w.next().unwrap().to_string(), w.next().unwrap().to_string())
		};
		for (n, inj) in self.inject.iter().enumerate() {
			let mark = format!("/*@{n}*/");
			match inj {
				Inject::Dup { what, id, name, at, copies, to, lit } => {
					let _ = lit;
					let (id, name) = if *id || *name { (*id, *name) } else { (true, false) };
					let copies = 1 + *copies as usize % 3;
					let mut fresh = |o: &(String, String)| {
						free += 1;
						format!("{} {}", if id { o.0.clone() } else { free.to_string() }, if name { o.1.clone() } else { format!("zzdup{free}") })
					};
					let what = *what % 4;
					if what < 2 {
						let word = ["service", "stream"][what as usize];
						let of: Vec<usize> = (0..e.items.len()).filter(|&i| e.items[i].head.starts_with(word) && !e.items[i].head.contains("/*@")).collect();
						if of.is_empty() {
							continue;
						}
						let i = of[*at as usize % of.len()];
						let original = id_name(&e.items[i].head);
						e.items[i].head += &mark;
						for k in 0..copies {
							let text = fresh(&original);
							let tail = if what == 0 { ": () -> ()" } else { ": ()" };
							let pos = (*to as usize + k * 7) % (e.items.len() + 1);
							let block = what == 0 && *to % 3 == 0;
							e.items.insert(
								pos,
								EItem { attrs: Vec::new(), head: format!("{word} {text}{tail}{mark}"), body: block.then(Vec::new), last_comma: false, end: ",".into() },
							);
						}
					} else {
						let of: Vec<usize> = (0..e.items.len()).filter(|&i| e.items[i].head.starts_with("service") && !e.items[i].head.contains("/*@")).collect();
						if of.is_empty() {
							continue;
						}
						let word = ["request_update", "response_update"][what as usize - 2];
						let item = &mut e.items[of[*at as usize % of.len()]];
						let body = item.body.get_or_insert_with(Vec::new);
						let of: Vec<usize> = (0..body.len()).filter(|&i| body[i].1.starts_with(word) && !body[i].1.contains("/*@")).collect();
						let original = if of.is_empty() {
							let text = format!("{word} {} zzfirst{n}: ()", 2_000_000 + n);
							body.push((Vec::new(), format!("{text}{mark}")));
							id_name(&text)
						} else {
							let i = of[(*at >> 5) as usize % of.len()];
							let o = id_name(&body[i].1);
							body[i].1 += &mark;
							o
						};
						for k in 0..copies {
							let text = fresh(&original);
							let pos = (*to as usize + k * 5) % (body.len() + 1);
							body.insert(pos, (Vec::new(), format!("{word} {text}: (){mark}")));
						}
					}
					let word = ["service", "stream", "request update", "response update"][what as usize];
					if id {
						expect.push(Expect { mark: mark.clone(), lines: copies, says: "duplicate|id", what: format!("{copies} more with the same ID ({word})") });
					}
					if name {
						expect.push(Expect { mark, lines: copies, says: "duplicate|name", what: format!("{copies} more with the same name ({word})") });
					}
				},
				Inject::Range { item, update, value } => {
					if e.items.is_empty() {
						continue;
					}
					let k = *item as usize % e.items.len();
					let item = &mut e.items[k];
					let text = match (update, &mut item.body) {
						(Some(u), Some(b)) if !b.is_empty() => {
							let u = *u as usize % b.len();
							&mut b[u].1
						},
						_ => &mut item.head,
					};
					if text.contains("/*@") {
						continue;
					}
					let mut words: Vec<String> = text.splitn(3, ' ').map(String::from).collect();
					words[1] = BAD_IDS[*value as usize % BAD_IDS.len()].into();
					*text = words.join(" ") + &mark;
					expect.push(Expect { mark, lines: 1, says: "", what: "ID that is no i32".into() });
				},
				Inject::Attr { item, update, text, to } => {
					let list = match item {
						Some(i) if !e.items.is_empty() => {
							let k = *i as usize % e.items.len();
							let item = &mut e.items[k];
							match (update, &mut item.body) {
								(Some(u), Some(b)) if !b.is_empty() => {
									let u = *u as usize % b.len();
									&mut b[u].0
								},
								_ => &mut item.attrs,
							}
						},
						_ => &mut e.attrs,
					};
					let t = BAD_ATTRS[*text as usize % BAD_ATTRS.len()];
					list.insert(*to as usize % (list.len() + 1), format!("\t{t}{mark}"));
					let known = t.starts_with("#[hidden") && !t.contains("::") || t.starts_with("#[doc]") || t.starts_with("#[doc ");
					expect.push(Expect { mark, lines: 1, says: if known { "" } else { "attribute" }, what: format!("attribute {t}") });
				},
				Inject::Syntax { .. } => (),
			}
		}
		for inj in &self.inject {
			if let Inject::Syntax { kind, item, update, variant } = inj {
				syntax_error(&mut e, *kind, *item as usize, *update as usize, *variant as usize);
				expect = vec![Expect { mark: String::new(), lines: 1, says: "", what: "syntax error".into() }];
				break;
			}
		}
		if expect.is_empty() {
			e.attrs.push("#[foo]/*@x*/".into());
			expect.push(Expect { mark: "/*@x*/".into(), lines: 1, says: "attribute", what: "attribute #[foo]".into() });
		}
		let mut lines = print(&e);
		if let Some(Inject::Syntax { kind, variant, .. }) = self.inject.iter().find(|x| matches!(x, Inject::Syntax { .. })) {
			if kind % SYNTAX == 0 && variant % 4 == 0 {
				lines = vec![format!("{FR}::interface! {{"), "}".into()];
			}
		}
		(lines, expect)
	}
}

const SYNTAX: u8 = 22;

fn syntax_error(e: &mut EDef, kind: u8, item: usize, update: usize, variant: usize) {
	let pick = |l: &[&str]| l[variant % l.len()].to_string();
	let kind = kind % SYNTAX;
	// Errors of the interface itself.
	let whole = |e: &mut EDef, variant: usize| {
		let l = [
			("", "interface ", "interfaces "), ("", "interface ", "Interface "), ("", "interface ", "trait "), ("", "interface ", "interface fn "), ("", "interface ", ""),
			("", "interface ", "interface interface "), ("", "interface ", "static interface "), ("", "interface ", "interface 1"), ("", "interface ", "interface \"x\" "),
		];
		let r = l[variant % l.len()];
		e.head = e.head.replacen(r.1, r.2, 1);
	};
	if kind <= 1 || e.items.is_empty() {
		match variant % 4 {
			0 if kind == 0 => (), // Replaced by an empty invocation.
			1 => whole(e, item),
			2 => e.head += ["<T>", "()", ":", " extends X", " = "][item % 5],
			_ => e.end = format!("}} {}", ["extra", ";", ",", "interface Second {}", "service 1 a: () -> (),", "{}", "pub", "#[x]", "/// doc"][item % 9]),
		}
		return;
	}
	let n = item % e.items.len();
	let it = &mut e.items[n];
	let service = it.head.starts_with("service");
	// Words of the head: keyword, ID, `name:`, types.
	let edit = |text: &mut String, kind: u8| {
		let mut w: Vec<String> = text.splitn(4, ' ').map(String::from).collect();
		match kind {
			2 => w[2] = w[2].replacen(':', "", 1),
			3 => w[2] = w[2].replacen(':', &["=", "::", ";", "->", "::<"][variant % 5], 1),
			4 => w[3] = String::new(),
			5 => w[2] = ":".into(),
			6 => w[2] = format!("{}:", ["fn", "match", "struct", "self", "_", "Self", "crate", "1", "\"a\"", "a.b", "a::b", "a b", "true", "'a"][variant % 14]),
			7 => w[0] = ["Service", "svc", "streams", "services", "update", "requestupdate", "fn", "pub", "interface", "_", "1"][variant % 11].into(),
			8 => w[1] = ["\"1\"", "1.5", "x", "'a'", "-x", "(1)", "true", "--1", "+1", "1-", "b\"1\"", "-", "1 + 1", "1 2", "{1}", "i32::MAX", "!0"][variant % 17].into(),
			9 => w[1] = String::new(),
			10 => w[0] = ["pub ", "async ", "#![doc = \"x\"] ", "1 ", ". ", "; ", "hidden "][variant % 7].to_string() + &w[0],
			_ => w[3] = ["->", "fn", "1", "=", "\"x\"", "struct", "-> ()", "Vec<", "Vec<>>", "where", "+"][variant % 11].into(),
		}
		*text = w.join(" ");
	};
	match kind {
		2..=11 => {
			let text = match &mut it.body {
				Some(b) if !b.is_empty() && update % 2 == 1 => {
					let k = update / 2 % b.len();
					&mut b[k].1
				},
				_ => &mut it.head,
			};
			edit(text, kind);
		},
		12 | 13 if it.body.is_none() => it.end = pick(&["", ";", ",,", ".", ", ,", "=>"]),
		12 | 13 => {
			let b = it.body.as_mut().unwrap();
			if b.len() >= 2 && kind == 12 {
				e.no_comma = Some((n, update % (b.len() - 1)));
			} else {
				it.end = pick(&[";", ",,", ".", "{}", "()"]);
			}
		},
		14 | 15 if service => {
			it.head = it.head.replacen(" -> ", &pick(&[" => ", " ", ", ", " - > ", " <- ", " -> -> ", ": "]), 1);
		},
		14 | 15 => it.head += &pick(&[" {}", " -> ()", " { request_update 1 a: () }", " = 1", " where ()", "; 2", " stream"]),
		16 => it.body = Some(vec![(Vec::new(), pick(&["service 1 a: () -> ()", "stream 1 a: ()", "update 1 a: ()", "request_update 1 a: () -> ()", "1 a: ()", "request_update", "response_update 1", ";", "pub request_update 1 a: ()"]))]),
		17 if it.body.is_some() => {
			let b = it.body.as_mut().unwrap();
			b.push((Vec::new(), pick(&[",", "/// dangling\n", "#[hidden]", "#[doc = \"x\"]", ";"])));
		},
		18 if it.body.as_ref().is_some_and(|b| !b.is_empty()) => {
			let b = it.body.as_mut().unwrap();
			let k = update % b.len();
			b[k].1 += &pick(&[";", " -> ()", " {}", " = 1", ".", " request_update 77777 zz: ()"]);
		},
		_ => e.end = format!("{} }}", pick(&["/// dangling\n", "#[hidden]", "#[doc = \"x\"]", ";", "{}", "service", "stream 1", "x", "hidden", "interface A {}", "service 1 a: () -> () { x", "service 1 a: () -> ()"])),
	}
	if e.end.matches('{').count() + 1 > e.end.matches('}').count() {
		// Keep the brackets balanced: they are not the macro's business.
		e.end.push('}');
	}
	if e.end.matches('}').count() > e.end.matches('{').count() + 1 {
		e.end = "x }".into();
	}
}

fn bad() -> BoxedStrategy<Bad> {
	let semantic = prop_oneof![
		6 => (0u8..4, any::<bool>(), any::<bool>(), any::<u16>(), prop_oneof![3 => Just(0u8), 2 => 1u8..3], any::<u16>(), any::<u8>())
			.prop_map(|(what, id, name, at, copies, to, lit)| Inject::Dup { what, id, name, at, copies, to, lit }),
		2 => (any::<u16>(), proptest::option::of(any::<u16>()), any::<u8>()).prop_map(|(item, update, value)| Inject::Range { item, update, value }),
		3 => (proptest::option::weighted(0.8, any::<u16>()), proptest::option::of(any::<u16>()), any::<u8>(), any::<u8>()).prop_map(|(item, update, text, to)| Inject::Attr { item, update, text, to }),
	]
	.boxed();
	let syntax = (any::<u8>(), any::<u16>(), any::<u16>(), any::<u8>()).prop_map(|(kind, item, update, variant)| Inject::Syntax { kind, item, update, variant });
	let inject = prop_oneof![
		4 => semantic.clone().prop_map(|x| vec![x]),
		2 => proptest::collection::vec(semantic, 2..6),
		3 => syntax.prop_map(|x| vec![x]),
	];
	(def(false, 6), inject).prop_map(|(def, inject)| Bad { def, inject }).boxed()
}

/// Compile the modules and judge each. Gives the first failure.
fn reject(work: &Path, name: &str, list: &[&Bad], edition: &str) -> Result<Vec<(usize, String)>, String> {
	let mut l: Vec<String> = vec![HEADER.trim().into()];
	let mut parts = Vec::new();
	for (i, b) in list.iter().enumerate() {
		let (lines, expect) = b.build();
		let begin = l.len() + 1;
		l.push(format!("pub mod i{i} {{ use ::mrt::types::*;"));
		// Lines may contain line breaks.
		l.extend(lines.iter().flat_map(|x| x.split('\n')).map(String::from));
		if !b.syntax() {
			l.push("mod child {".into());
			// Only the name of a service with a duplicated name may stand for something else.
			for item in items(&b.def) {
				l.push(format!("use super::{item} as _;"));
			}
			l.push("}".into());
		}
		l.push("}".into());
		parts.push((begin..l.len() + 1, expect));
	}
	let file = work.join(format!("{name}.rs"));
	std::fs::write(&file, l.join("\n") + "\n").map_err(|e| e.to_string())?;
	let out = work.join(format!("lib{name}.rmeta"));
	let (ok, diags) = rustc_with(&file, &out, edition, Some("lib"), &[])?;
	let _ = std::fs::remove_file(&out);
	let mut failed = Vec::new();
	for (i, (range, expect)) in parts.into_iter().enumerate() {
		let mine: Vec<&Diag> = diags.iter().filter(|d| d.lines.iter().any(|l| range.contains(l))).collect();
		let m = (|| {
			if let Some(d) = mine.iter().find(|d| d.message.contains("panicked")) {
				return Some(format!("the macro panics: {}", d.message));
			}
			let own: Vec<_> = mine.iter().filter(|d| !d.coded).collect();
			if ok || own.is_empty() {
				return Some(format!(
					"no error of the macro for: {}{}",
					expect.iter().map(|x| x.what.clone()).collect::<Vec<_>>().join(", "),
					mine.first().map(|d| format!(" (but: {})", d.message)).unwrap_or_default()
				));
			}
			for x in &expect {
				if x.mark.is_empty() {
					continue;
				}
				let hits = range
					.clone()
					.filter(|&n| l[n - 1].contains(&x.mark) && own.iter().any(|d| d.lines.contains(&n) && x.says.split('|').all(|w| d.message.to_lowercase().contains(w))))
					.count();
				if hits < x.lines {
					return Some(format!("the macro does not report: {}; it reports: {:?}", x.what, own.iter().map(|d| &d.message).collect::<Vec<_>>()));
				}
			}
			// Nothing else: what is valid is still generated.
			if !list[i].syntax() {
				if let Some(d) = mine.iter().find(|d| d.coded) {
					return Some(format!("an error that the macro reports causes further errors in the generated code: {}", d.message));
				}
			}
			None
		})();
		if let Some(m) = m {
			failed.push((i, m));
		}
	}
	Ok(failed)
}

fn invalid_interfaces(ctx: &Arc<Ctx>, n: usize, per_crate: usize) {
	let sub = "invalid interfaces";
	let work = Work::new("C23i");
	#[derive(Serialize, Deserialize)]
	struct BadCase {
		bad: Bad,
		edition: String,
	}
	if let Some((rsub, value)) = &ctx.replay {
		if rsub == sub {
			*ctx.replay_ran.lock().unwrap() = true;
			let case: BadCase = serde_json::from_value(value.clone()).expect("replay case");
			match reject(&work.0, "replay", &[&case.bad], &case.edition) {
				Ok(f) => {
					if let Some(m) = f.into_iter().next() {
						ctx.violation(sub, value.clone(), m.1)
					}
				},
				Err(e) => panic!("{e}"),
			}
		}
		return;
	}
	if ctx.stop() {
		return;
	}
	let mut run = runner(ctx, sub);
	let strat = bad();
	let trees: Vec<_> = (0..n).map(|_| strat.new_tree(&mut run).expect("generate")).collect();
	let bads: Vec<Bad> = trees.iter().map(|t| t.current()).collect();
	let crates: Vec<Vec<usize>> = (0..n).collect::<Vec<_>>().chunks(per_crate).map(|c| c.to_vec()).collect();
	let results = parallel(crates, |c, members| {
		if ctx.stop() {
			return (Vec::new(), Ok(Vec::new()));
		}
		let list: Vec<&Bad> = members.iter().map(|&i| &bads[i]).collect();
		let run = || reject(&work.0, &format!("c{c}"), &list, edition(c as u64));
		let r = run().or_else(|_| run()).map(|r| r.into_iter().map(|(i, m)| (members[i], edition(c as u64), m)).collect::<Vec<_>>());
		(members, r)
	});
	let mut failed = Vec::new();
	for (members, r) in results {
		for i in members {
			let b = &bads[i];
			let mut info = Info::default();
			info.nontrivial = b.def.items.len() >= 2;
			info.label_if(b.syntax(), "syntax error");
			info.label_if(b.inject.len() > 1, "several violations");
			for x in &b.inject {
				match x {
					Inject::Dup { what, id, name, copies, .. } => {
						info.label(["duplicate service", "duplicate stream", "duplicate request update", "duplicate response update"][*what as usize % 4]);
						info.label_if(*id && !*name, "same ID");
						info.label_if(*name && !*id, "same name");
						info.label_if(*name && *id, "same ID and name");
						info.label_if(*copies > 0, "more than two of the same");
					},
					Inject::Range { .. } => info.label("ID out of range"),
					Inject::Attr { .. } => info.label("bad attribute"),
					Inject::Syntax { .. } => (),
				}
			}
			ctx.record_direct(sub, "the interface has at least two items besides the injected violation", b, info);
		}
		match r {
			Ok(f) => failed.extend(f),
			Err(e) => {
				println!("{e}");
				std::process::exit(3);
			},
		}
	}
	if let Some((i, ed, m)) = failed.into_iter().next() {
		let tree = trees.into_iter().nth(i).unwrap();
		let mut k = 0;
		let (bad, _, m) = shrink(
			tree,
			|b| {
				k += 1;
				reject(&work.0, &format!("s{k}"), &[b], ed).ok()?.into_iter().next().map(|m| (Vec::new(), m.1))
			},
			(Vec::new(), m),
		);
		let text = bad.build().0.join("\n");
		ctx.violation(sub, serde_json::to_value(BadCase { bad, edition: ed.into() }).unwrap(), format!("{m}\n{text}"));
	}
}

pub fn c23(ctx: &Arc<Ctx>) {
	let (valid, invalid) = if ctx.thorough { (6000, 20000) } else { (480, 1600) };
	valid_interfaces(ctx, valid, 30);
	invalid_interfaces(ctx, invalid, 50);
}
