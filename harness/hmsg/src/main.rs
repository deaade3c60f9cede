// Conformance driver for the text half of fyi_msg: executes one command per
// input line on the real code and answers with one line each. Strings travel
// hex encoded with a leading "x".
use fyi_msg::{AnsiColor, Msg, MsgKind};
use std::borrow::{Borrow, Cow};
use std::collections::HashMap;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};

fn hx(b: &[u8]) -> String {
	let mut o = String::with_capacity(b.len() * 2 + 1);
	o.push('x');
	for c in b { o.push_str(&format!("{c:02x}")); }
	o
}
fn unhx(s: &str) -> Vec<u8> {
	let s = &s.as_bytes()[1..];
	s.chunks(2).map(|p| u8::from_str_radix(std::str::from_utf8(p).unwrap(), 16).unwrap()).collect()
}
fn st(s: &str) -> String { String::from_utf8(unhx(s)).unwrap() }

fn kind(s: &str) -> MsgKind {
	match s {
		"None" => MsgKind::None, "Aborted" => MsgKind::Aborted, "Confirm" => MsgKind::Confirm,
		"Crunched" => MsgKind::Crunched, "Debug" => MsgKind::Debug, "Done" => MsgKind::Done,
		"Error" => MsgKind::Error, "Found" => MsgKind::Found, "Info" => MsgKind::Info,
		"Notice" => MsgKind::Notice, "Review" => MsgKind::Review, "Skipped" => MsgKind::Skipped,
		"Success" => MsgKind::Success, "Task" => MsgKind::Task, "Warning" => MsgKind::Warning,
		_ => panic!("kind {s}"),
	}
}
fn short(s: &str, t: &str) -> Msg {
	match s {
		"Aborted" => Msg::aborted(t), "Crunched" => Msg::crunched(t),
		"Debug" => Msg::debug(t), "Done" => Msg::done(t), "Error" => Msg::error(t), "Found" => Msg::found(t),
		"Info" => Msg::info(t), "Notice" => Msg::notice(t), "Review" => Msg::review(t), "Skipped" => Msg::skipped(t),
		"Success" => Msg::success(t), "Task" => Msg::task(t), "Warning" => Msg::warning(t),
		_ => panic!("short {s}"),
	}
}

// A prefix: "k:Kind" or "c:<strtype>:<coltype>:<col>:x<hex>".
macro_rules! with_prefix {
	($spec:expr, |$p:ident| $body:expr) => {{
		let parts: Vec<&str> = $spec.split(':').collect();
		if parts[0] == "k" { let $p = kind(parts[1]); $body }
		else {
			let text = st(parts[4]);
			let col: u8 = parts[3].parse().unwrap_or(0);
			let boxed = text.clone();
			let cow_b: Cow<'_, str> = Cow::Borrowed(&boxed);
			let cow_o: Cow<'_, str> = Cow::Owned(boxed.clone());
			macro_rules! go {
				($v:expr) => {
					match parts[2] {
						"n" => { let $p = $v; $body },
						"e" => { let $p = ($v, AnsiColor::from_u8(col)); $body },
						"f" => { let $p = ($v, AnsiColor::from(col)); $body },
						_ =>   { let $p = ($v, col); $body },
					}
				};
			}
			match parts[1] {
				"str" => go!(text.as_str()),
				"refstring" => go!(&text),
				"string" => go!(text.clone()),
				"refcow" => go!(&cow_b),
				"cow" => go!(cow_o.clone()),
				_ => panic!("strtype"),
			}
		}
	}};
}

fn hash(m: &impl Hash) -> u64 { let mut h = DefaultHasher::new(); m.hash(&mut h); h.finish() }

fn run(slots: &mut HashMap<String, Msg>, line: &str) -> String {
	let a: Vec<&str> = line.split(' ').collect();
	let show = |m: &Msg| hx(m.as_str().as_bytes());
	let cmd = a[0];
	// Text functions.
	match cmd {
		"width" => return fyi_msg::width(&st(a[1])).to_string(),
		"lenw" => return fyi_msg::length_width(&st(a[1]), a[2].parse().unwrap()).to_string(),
		"fit" => { let s = st(a[1]); return hx(fyi_msg::fit_to_width(&s, a[2].parse().unwrap()).as_bytes()); },
		// width, then cut position and fitted text for each width 0..=n.
		"all" => {
			let s = st(a[1]);
			let n: usize = a[2].parse().unwrap();
			let mut o = fyi_msg::width(&s).to_string();
			for w in 0..=n {
				o.push_str(&format!(" {} {}", fyi_msg::length_width(&s, w), hx(fyi_msg::fit_to_width(&s, w).as_bytes())));
			}
			return o;
		},
		"mfit" => { let m = Msg::from(st(a[1])); return hx(m.fitted(a[2].parse().unwrap()).as_bytes()); },
		"cw" => return st(a[1]).chars()
			.map(|c| unicode_width::UnicodeWidthChar::width(c).unwrap_or(0).to_string())
			.collect::<Vec<_>>().join(","),
		// Strip a bare text as each of the parts.
		"stripall" => {
			let s = st(a[1]);
			let mut o = Vec::new();
			for part in 0..4 {
				let mut m = match part {
					0 => Msg::from(s.as_str()),
					1 => Msg::from("<>").with_prefix(s.as_str()),
					2 => Msg::from("<>").with_suffix(&s),
					_ => Msg::new(MsgKind::None, &s).with_suffix(")").with_newline(true),
				};
				let f = m.strip_ansi();
				let one = show(&m);
				let f2 = m.strip_ansi();
				m.set_indent(1);
				let m2 = m.clone().without_ansi();
				o.push(format!("{} {} {} {}", f, one, f2, show(&m2)));
			}
			return o.join(" ");
		},
		"color" => {
			let n: u8 = a[1].parse().unwrap();
			let c = AnsiColor::from_u8(n);
			return format!("{} {} {} {} {} {}", c as u8, hx(c.as_str().as_bytes()), hx(c.to_string().as_bytes()),
				AnsiColor::from(n) == c, c == n && n == c, hx(AnsiColor::RESET.as_bytes()));
		},
		"kindinfo" => {
			let k = kind(a[1]);
			return format!("{} {} {} {}", hx(k.as_str().as_bytes()), hx(k.to_string().as_bytes()), k.is_empty(),
				k.prefix_color().map_or_else(|| "-".to_owned(), |c| (c as u8).to_string()));
		},
		"kinds" => return MsgKind::ALL.iter().map(|k| format!("{k:?}")).collect::<Vec<_>>().join(","),
		_ => {},
	}
	// Construction: <cmd> <slot> ...
	let slot = a[1].to_owned();
	let made = match cmd {
		"default" => Some(Msg::default()),
		"from" => Some(match a[2] {
			"str" => Msg::from(st(a[3]).as_str()),
			"string" => Msg::from(st(a[3])),
			"refstring" => Msg::from(&st(a[3])),
			"cow" => Msg::from(Cow::Borrowed(st(a[3]).as_str())),
			_ => Msg::from(Cow::<str>::Owned(st(a[3]))),
		}),
		"new" => Some(with_prefix!(a[2], |p| Msg::new(p, st(a[3])))),
		"into" => Some(kind(a[2]).into_msg(st(a[3]))),
		"short" => Some(short(a[2], &st(a[3]))),
		"clone" => Some(slots.get(a[2]).unwrap().clone()),
		_ => None,
	};
	if let Some(m) = made { let o = show(&m); slots.insert(slot, m); return o; }
	// Edits, by reference or by value (suffix "!" on the command).
	let (op, by_val) = cmd.strip_suffix('!').map_or((cmd, false), |c| (c, true));
	let mut m = slots.remove(&slot).unwrap();
	let mut extra = String::new();
	match (op, by_val) {
		("indent", false) => m.set_indent(a[2].parse().unwrap()),
		("indent", true) => m = m.with_indent(a[2].parse().unwrap()),
		("msg", false) => m.set_msg(st(a[2])),
		("msg", true) => m = m.with_msg(st(a[2])),
		("newline", false) => m.set_newline(a[2] == "1"),
		("newline", true) => m = m.with_newline(a[2] == "1"),
		("suffix", false) => m.set_suffix(st(a[2])),
		("suffix", true) => m = m.with_suffix(st(a[2])),
		("prefix", false) => with_prefix!(a[2], |p| m.set_prefix(p)),
		("prefix", true) => m = with_prefix!(a[2], |p| m.with_prefix(p)),
		("strip", false) => extra = format!(" {}", m.strip_ansi()),
		("strip", true) => m = m.without_ansi(),
		#[cfg(feature = "timestamps")]
		("stamp", false) => m.set_timestamp(a[2] == "1"),
		#[cfg(feature = "timestamps")]
		("stamp", true) => m = m.with_timestamp(a[2] == "1"),
		("views", _) => {
			let mut o = Vec::new();
			o.push(hx(m.as_bytes()));
			o.push(m.len().to_string());
			o.push(m.is_empty().to_string());
			o.push(hx(m.to_string().as_bytes()));
			o.push(hx(format!("{m}").as_bytes()));
			o.push(hx(<Msg as AsRef<str>>::as_ref(&m).as_bytes()));
			o.push(hx(<Msg as AsRef<[u8]>>::as_ref(&m)));
			o.push(hx(<Msg as Borrow<str>>::borrow(&m).as_bytes()));
			o.push(hx(m.clone().into_string().as_bytes()));
			o.push(hx(&m.clone().into_bytes()));
			o.push(hx(String::from(m.clone()).as_bytes()));
			o.push(hx(m.fitted(usize::MAX).as_bytes()));
			extra = format!(" {}", o.join(" "));
		},
		("cmp", _) => {
			let b = slots.get(a[2]).unwrap();
			extra = format!(" {} {} {} {:?} {:?} {} {}", m == *b, *b == m, m != *b, m.cmp(b), m.partial_cmp(b), hash(&m) == hash(b),
				hash(&m) == hash(&m.as_str()));
		},
		("eqs", _) => {
			let s = st(a[2]);
			let r = s.as_str();
			let bx: Box<str> = r.into();
			let cw: Cow<'_, str> = Cow::Borrowed(r);
			let b = r.as_bytes();
			let v = b.to_vec();
			let bb: Box<[u8]> = b.into();
			let cb: Cow<'_, [u8]> = Cow::Borrowed(b);
			let all = [
				m == *r, *r == m, m == r, r == m, m == s, s == m, m == &s, &s == m, m == bx, bx == m, m == &bx, &bx == m,
				m == cw, cw == m, m == &cw, &cw == m,
				m == *b, *b == m, m == b, b == m, m == v, v == m, m == &v, &v == m, m == bb, bb == m, m == &bb, &bb == m,
				m == cb, cb == m, m == &cb, &cb == m,
			];
			extra = format!(" {}", all.iter().map(|x| if *x { '1' } else { '0' }).collect::<String>());
		},
		("print", _) => { m.print(); },
		_ => panic!("op {op}"),
	}
	let o = format!("{}{extra}", show(&m));
	slots.insert(slot, m);
	o
}

// "print <program>…": a thread per program of "o,x<hex>" (print), "e,x<hex>" (eprint) and "m" (tell the
// watcher on file 3, and wait for its answer on file 4), ended by semicolons.
fn print_threads(progs: &[String]) {
	use std::os::fd::FromRawFd;
	use std::io::Read;
	let go = std::sync::Arc::new(std::sync::Barrier::new(progs.len()));
	let all: Vec<_> = progs.iter().enumerate().map(|(i, p)| {
		let ops: Vec<(u8, Msg)> = p.split(';').filter(|o| ! o.is_empty()).map(|o| {
			let (k, t) = o.split_once(',').unwrap_or((o, "x"));
			let t = st(t);
			// By two routes.
			let m = match t.strip_suffix('\n') {
				Some(t) if t.len() % 2 == 0 => Msg::from(t).with_newline(true),
				_ => Msg::from(t),
			};
			(k.as_bytes()[0], m)
		}).collect();
		let go = go.clone();
		std::thread::spawn(move || {
			let mut tell = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(3) });
			let mut hear = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(4) });
			go.wait();
			for (k, m) in &ops {
				match k {
					b'o' => m.print(),
					b'e' => m.eprint(),
					_ => {
						tell.write_all(&[i as u8]).unwrap();
						let mut b = [0_u8];
						hear.read_exact(&mut b).unwrap();
					},
				}
			}
		})
	}).collect();
	let bad = all.into_iter().map(|t| t.join().is_err()).fold(false, |a, b| a | b);
	std::process::exit(if bad { 3 } else { 0 });
}

fn main() {
	let args: Vec<String> = std::env::args().collect();
	// "prompt <method> <default> <prefixspec> <hex> <indent> <count>": real prompts on stdin.
	// "quest …" tells the answers on the other stream.
	if args.get(1).is_some_and(|a| a == "prompt" || a == "quest") {
		let (method, default, ind, n) = (args[2].as_str(), args[3] == "1", args[6].parse::<u8>().unwrap(), args[7].parse::<usize>().unwrap());
		let mut m = with_prefix!(args[4].as_str(), |p| Msg::new(p, st(&args[5])));
		m.set_newline(true);
		m.set_indent(ind);
		m.set_suffix("old suffix");
		let before = m.clone();
		for _ in 0..n {
			let r = match method {
				"prompt" => m.prompt(),
				"prompt_d" => m.prompt_with_default(default),
				"eprompt" => m.eprompt(),
				"eprompt_d" => m.eprompt_with_default(default),
				"macro" => { let t = st(&args[5]); if default { fyi_msg::confirm!(yes: &t) } else { fyi_msg::confirm!(&t) } },
				"macro_i" => { let t = st(&args[5]); if default { fyi_msg::confirm!(yes: &t, ind) } else { fyi_msg::confirm!(no: &t, ind) } },
				"macro_n" => { let t = st(&args[5]); if ind == 0 { fyi_msg::confirm!(no: &t) } else { fyi_msg::confirm!(&t, ind) } },
				_ => panic!(),
			};
			let line = format!("\u{1}{}\u{2}", if m == before { if r { "true" } else { "false" } } else { "X" });
			if method.starts_with('e') == (args[1] == "prompt") {
				let mut o = std::io::stderr(); let _ = o.write_all(line.as_bytes()); let _ = o.flush();
			} else {
				let mut o = std::io::stdout(); let _ = o.write_all(line.as_bytes()); let _ = o.flush();
			}
		}
		return;
	}
	if args.get(1).is_some_and(|a| a == "print") {
		print_threads(&args[2..]);
		return;
	}
	std::panic::set_hook(Box::new(|_| {}));
	let stdin = std::io::stdin();
	let out = std::io::stdout();
	let mut out = std::io::BufWriter::new(out);
	let mut slots = HashMap::new();
	for line in stdin.lock().lines() {
		let line = line.unwrap();
		let r = catch_unwind(AssertUnwindSafe(|| run(&mut slots, &line)));
		let r = match r {
			Ok(s) => s,
			Err(e) => format!("PANIC {}", e.downcast_ref::<String>().map(String::as_str)
				.or_else(|| e.downcast_ref::<&str>().copied()).unwrap_or("?").replace('\n', " ")),
		};
		let _ = writeln!(out, "{r}");
	}
	let _ = out.flush();
}
