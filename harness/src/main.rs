#[macro_use]
mod fw;
mod builds;
mod bulk;
mod codec;
mod connect;
mod duo;
mod errors;
mod exec;
mod fds;
mod iface;
mod leaks;
mod limits;
mod listen;
mod mem;
mod seq;
mod solo;
mod stream;
mod threads;
mod util;

use serde_json::Value;

#[global_allocator]
static ALLOC: util::TrackAlloc = util::TrackAlloc;

fn main() {
	fds::fd_limit();
	let args: Vec<String> = std::env::args().collect();
	let thorough = std::env::var("VERIF_TIER").map(|x| x == "thorough").unwrap_or(false);
	let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
	let (id, replay) = match args.get(1).map(|x| x.as_str()) {
		Some("prebuild") => return builds::prebuild(),
		Some("check") => (args[2].clone(), None),
		Some("replay") => {
			let doc: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("read replay")).expect("parse replay");
			(
				doc["property"].as_str().unwrap().to_string(),
				Some((doc["sub"].as_str().unwrap().to_string(), doc["case"].clone())),
			)
		},
		_ => {
			eprintln!("usage: harness check <ID> | replay <file>");
			std::process::exit(2);
		},
	};
	fw::install_panic_hook();
	let ctx = fw::Ctx::new(&id, thorough, seed, replay);
	if !dispatch(&id, &ctx) {
		eprintln!("unknown property {}", id);
		std::process::exit(2);
	}
	std::process::exit(ctx.finish());
}

/// Run the check of a property.
fn dispatch(id: &str, ctx: &std::sync::Arc<fw::Ctx>) -> bool {
	match id {
		"C01" => codec::c01(ctx),
		"C02" => stream::c02(ctx),
		"C03" => stream::c03(ctx),
		"C04" => stream::c04(ctx),
		"C05" => limits::c05(ctx),
		"C06" => seq::c06(ctx),
		"C07" => seq::c07(ctx),
		"C08" => seq::c08(ctx),
		"C09" => {
			solo::solo(ctx, "C09", 20);
			duo::duo(ctx, "C09");
			bulk::two(ctx);
		},
		"C10" => {
			solo::solo(ctx, "C10", 20);
			bulk::one(ctx);
		},
		"C11" => {
			solo::solo(ctx, "C11", 20);
			duo::duo(ctx, "C11");
			bulk::one(ctx);
		},
		"C12" => {
			solo::solo(ctx, "C12", 20);
			limits::c12(ctx);
			bulk::one(ctx);
		},
		"C13" => {
			solo::solo(ctx, "C13", 20);
			bulk::one(ctx);
		},
		"C14" => {
			solo::solo(ctx, "C14", 20);
			duo::duo(ctx, "C14");
		},
		"C15" => {
			solo::solo(ctx, "C15", 20);
			duo::duo(ctx, "C15");
			threads::c15(ctx);
			bulk::one(ctx);
			iface::life(ctx);
		},
		"C16" => {
			solo::solo(ctx, "C16", 20);
			bulk::one(ctx);
			iface::life(ctx);
		},
		"C17" => {
			solo::solo(ctx, "C17", 20);
			bulk::one(ctx);
		},
		"C18" => listen::c18(ctx),
		"C19" => listen::c19(ctx),
		"C20" => iface::c20(ctx),
		"C21" => iface::c21(ctx),
		"C22" => iface::c22(ctx),
		"C23" => iface::c23(ctx),
		"C24" => {
			solo::solo(ctx, "C24", 20);
			duo::duo(ctx, "C24");
			bulk::two(ctx);
		},
		"C26" => errors::c26(ctx),
		"C27" => connect::c27(ctx),
		"C28" => leaks::c28(ctx),
		"C25" => {
			solo::solo(ctx, "C25", 20);
			threads::c25(ctx);
			bulk::one(ctx);
		},
		"C29" => builds::c29(ctx),
		_ => return false,
	}
	true
}
