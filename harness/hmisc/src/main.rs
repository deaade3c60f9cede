// Conformance driver for the smaller parts: totals, before/after pairs and
// colours.  One command per line, one answer line each.
use fyi_msg::{AnsiColor, BeforeAfter, Msg, MsgKind, Progless, ProglessError};
use std::io::{BufRead, Write};
use std::num::*;
use std::panic::{AssertUnwindSafe, catch_unwind};

fn hx(b: &[u8]) -> String {
	let mut o = String::with_capacity(b.len() * 2 + 1);
	o.push('x');
	for c in b { o.push_str(&format!("{c:02x}")); }
	o
}
fn st(s: &str) -> String {
	let s = &s.as_bytes()[1..];
	String::from_utf8(s.chunks(2).map(|p| u8::from_str_radix(std::str::from_utf8(p).unwrap(), 16).unwrap()).collect()).unwrap()
}

fn shown(p: &Progless) -> String {
	p.finish();
	hx(p.summary(MsgKind::None, "one", "many").as_str().as_bytes())
}
fn told(r: Result<Progless, ProglessError>) -> String {
	match r {
		Ok(p) => format!("ok {}", shown(&p)),
		Err(e) => error(e),
	}
}
fn error(e: ProglessError) -> String {
	let t = match e { ProglessError::EmptyTotal => "empty", ProglessError::TotalOverflow => "overflow" };
	assert_eq!(e.as_str(), e.to_string());
	assert_eq!(e.as_str(), <ProglessError as AsRef<str>>::as_ref(&e));
	format!("{t} {}", hx(e.as_str().as_bytes()))
}

fn total(t: &str, n: &str) -> String {
	macro_rules! plain { ($t:ty) => { told(Progless::try_from(n.parse::<$t>().unwrap())) }; }
	macro_rules! sure { ($t:ty) => { told(Ok(Progless::from(n.parse::<$t>().unwrap()))) }; }
	match t {
		"u8" => plain!(u8), "u16" => plain!(u16), "u32" => plain!(u32), "u64" => plain!(u64), "u128" => plain!(u128), "usize" => plain!(usize),
		"i8" => plain!(i8), "i16" => plain!(i16), "i32" => plain!(i32), "i64" => plain!(i64), "i128" => plain!(i128), "isize" => plain!(isize),
		"nz8" => sure!(NonZeroU8), "nz16" => sure!(NonZeroU16), "nz32" => sure!(NonZeroU32),
		"nz64" => plain!(NonZeroU64), "nz128" => plain!(NonZeroU128), "nzsize" => plain!(NonZeroUsize),
		"reset" => {
			let p = Progless::from(NonZeroU32::new(3).unwrap());
			match p.try_reset(n.parse().unwrap()) {
				Ok(()) => format!("ok {}", shown(&p)),
				Err(e) => format!("{} {}", error(e), shown(&p)),
			}
		},
		_ => panic!("unknown command"),
	}
}

fn opt(n: Option<NonZeroU64>) -> String { n.map_or_else(|| "-".to_owned(), |n| n.to_string()) }
fn per(n: Option<f64>) -> String { n.map_or_else(|| "-".to_owned(), |n| format!("{n:.25}")) }

// savings <prefix> <text> <suffix> <newline> step step …
fn savings(a: &[&str]) -> String {
	let mut m = Msg::new((st(a[1]), 9_u8), st(a[2])).with_suffix(st(a[3]));
	if a[4] == "1" { m = m.with_newline(true); }
	let mut ba: Option<BeforeAfter> = None;
	for s in &a[5..] {
		let f: Vec<&str> = s.split(':').collect();
		let x: u64 = f[1].parse().unwrap();
		match f[0] {
			"start" => ba = Some(BeforeAfter::start(x)),
			"both" => ba = Some(BeforeAfter::from((x, f[2].parse::<u64>().unwrap()))),
			"stop" => ba.as_mut().unwrap().stop(x),
			_ => panic!("unknown command"),
		}
	}
	let ba = ba.unwrap();
	let m = m.with_bytes_saved(ba);
	format!("{} {} {} {} {} {} {}", opt(ba.before()), opt(ba.after()), opt(ba.less()), opt(ba.more()),
		per(ba.less_percent()), per(ba.more_percent()), hx(m.as_str().as_bytes()))
}

fn color(n: &str) -> String {
	let n: u8 = n.parse().unwrap();
	let c = AnsiColor::from_u8(n);
	let d = AnsiColor::from(n);
	assert_eq!(c, d);
	let list = |f: &dyn Fn(u8) -> bool| (0..=u8::MAX).filter(|&m| f(m)).map(|m| m.to_string()).collect::<Vec<_>>().join(",");
	format!("{} {} {} [{}] [{}] [{}] [{}]", hx(c.as_str().as_bytes()), hx(d.to_string().as_bytes()), hx(format!("{c}{n}{}", AnsiColor::RESET).as_bytes()),
		list(&|m| c == m), list(&|m| m == c), list(&|m| c == AnsiColor::from_u8(m)), list(&|m| c > AnsiColor::from(m)))
}

fn main() {
	std::panic::set_hook(Box::new(|_| {}));
	let out = std::io::stdout();
	for line in std::io::stdin().lock().lines() {
		let line = line.unwrap();
		let a: Vec<&str> = line.split(' ').collect();
		let r = catch_unwind(AssertUnwindSafe(|| match a[0] {
			"total" => total(a[1], a[2]),
			"savings" => savings(&a),
			"color" => color(a[1]),
			_ => { eprintln!("unknown command"); std::process::exit(9); },
		})).unwrap_or_else(|e| format!("PANIC {}", e.downcast_ref::<String>().cloned()
			.or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_owned())).unwrap_or_default().replace('\n', " ")));
		let mut o = out.lock();
		o.write_all(r.as_bytes()).unwrap();
		o.write_all(b"\n").unwrap();
	}
}
