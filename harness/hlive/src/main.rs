//! Runs one program of the progress bar for real: real threads, real time, real
//! signals.  Standard error is whatever the driver gave; events go to descriptor
//! 3, one line each, and are answered (where that is asked for) on descriptor 4.
//!   hlive run <thread 0 ops>|<thread 1 ops>|...     (as hsim has them)
//!   hlive term <cols>x<rows>                        (a terminal; commands on stdin)
#[path = "../../hsim/src/term.rs"]
mod term;

use fyi_msg::{Msg, MsgKind, Progless};
use std::fmt::Write as _;
use std::fs::File;
use std::io::{BufRead, Read, Write};
use std::num::NonZeroU32;
use std::os::fd::FromRawFd;
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};
use term::Term;

#[derive(Clone, Debug)]
struct Op { name: String, args: Vec<String> }

fn unhex(s: &str) -> String {
	let b: Vec<u8> = (1..s.len()).step_by(2).map(|i| u8::from_str_radix(&s[i..i + 2], 16).unwrap()).collect();
	String::from_utf8(b).unwrap()
}
fn esc(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			c if (c as u32) < 32 || (c as u32) == 127 => { let _ = write!(o, "\\u{:04x}", c as u32); },
			c => o.push(c),
		}
	}
	o.push('"');
	o
}
fn parse_ops(s: &str) -> Vec<Op> {
	s.split(';').filter(|x| ! x.trim().is_empty()).map(|x| {
		let mut p = x.trim().split(',');
		let name = p.next().unwrap().to_owned();
		Op { name, args: p.map(str::to_owned).collect() }
	}).collect()
}

struct Link { tell: File, hear: File, t0: Instant }
static LINK: OnceLock<Mutex<Link>> = OnceLock::new();
/// Report an event and, maybe, wait until it has been noticed.
fn tell(s: &str, wait: bool) {
	let mut l = LINK.get().unwrap().lock().unwrap();
	let n = l.t0.elapsed().as_millis();
	let line = format!("{{\"n\":{n},{s}}}\n");
	l.tell.write_all(line.as_bytes()).unwrap();
	if wait {
		let _ = l.tell.write_all(b"?\n");
		let mut b = [0];
		l.hear.read_exact(&mut b).unwrap();
	}
}

#[cfg(feature = "sigint")]
static SWITCH: Mutex<Option<&'static Arc<std::sync::atomic::AtomicBool>>> = Mutex::new(None);

fn kind(s: &str) -> MsgKind { MsgKind::ALL.iter().copied().find(|k| format!("{k:?}").eq_ignore_ascii_case(s)).unwrap_or(MsgKind::Done) }
fn text_msg(a: &[String]) -> Msg {
	let t = unhex(&a[1]);
	match a[0].as_str() {
		"none" => Msg::from(t),
		"pfx" => Msg::new(("Custom", 199), t),
		"full" => Msg::new(("Custom", 199), t).with_indent(1).with_suffix(" !").with_newline(true),
		k => Msg::new(kind(k), t),
	}
}
fn as_printed(m: &Msg) -> String {
	let mut t = Term::new((60_000, 60_000));
	t.feed(m.clone().with_newline(true).as_bytes());
	t.view().0.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")
}

fn run_ops(me: usize, alone: bool, ops: &[Op], rest: &[Vec<Op>], mut bar: Option<Progless>) {
	let mut joins: Vec<std::thread::JoinHandle<()>> = Vec::new();
	for op in ops {
		let a = &op.args;
		let n = |i: usize| a[i].parse::<u32>().unwrap();
		match op.name.as_str() {
			"go" => {
				for (i, r) in rest.iter().enumerate() {
					let (r2, b2) = (r.clone(), bar.clone());
					joins.push(std::thread::spawn(move || run_ops(i + 1, false, &r2, &[], b2)));
				}
				continue;
			},
			"join" => { for j in joins.drain(..) { j.join().unwrap(); } continue; },
			"sleep" => { std::thread::sleep(Duration::from_millis(u64::from(n(0)))); continue; },
			"settle" => {
				std::thread::sleep(Duration::from_millis(u64::from(n(0)) * 100 + 150));
				tell("\"e\":\"snap\",\"t\":\"0\"", true);
				continue;
			},
			"size" => { tell(&format!("\"e\":\"size\",\"z\":\"{}\"", a[0]), true); continue; },
			"err" => { tell("\"e\":\"err\",\"on\":true", true); continue; },
			"int" => { tell("\"e\":\"int\",\"t\":\"0\"", true); continue; },
			_ => {},
		}
		let lines = match op.name.as_str() {
			"msg" => as_printed(&text_msg(a)),
			"print" => as_printed(&Msg::from(unhex(&a[0]))),
			_ => String::new(),
		};
		// Many calls that nobody looks between count as one.
		let name = if op.name == "many" { "incn" } else { op.name.as_str() };
		tell(&format!("\"e\":\"call\",\"t\":\"{me}\",\"o\":{},\"a\":{},\"l\":[{lines}]", esc(name), esc(&a.join(","))), false);
		let mut res = String::from("-");
		match op.name.as_str() {
			"new" => bar = Some(Progless::from(NonZeroU32::new(n(0)).unwrap())),
			"def" => bar = Some(Progless::default()),
			"newt" => bar = Some(Progless::from(NonZeroU32::new(n(0)).unwrap()).with_title(Some(text_msg(&a[1..])))),
			"news" => bar = Some(Progless::from(NonZeroU32::new(n(0)).unwrap()).with_reticulating_splines(unhex(&a[1]))),
			"newn" => bar = Some(Progless::from(NonZeroU32::new(n(0)).unwrap()).with_title(None::<Msg>)),
			"drop" => drop(bar.take()),
			"inc" => { let b = bar.as_ref().unwrap(); if n(0) == 1 { b.increment(); } else { b.increment_n(n(0)); } },
			"many" => { let b = bar.as_ref().unwrap(); for _ in 0..n(0) { b.increment(); } },
			"incn" => bar.as_ref().unwrap().increment_n(n(0)),
			"set" => bar.as_ref().unwrap().set_done(n(0)),
			"add" => res = bar.as_ref().unwrap().add(unhex(&a[0])).to_string(),
			"rem" => bar.as_ref().unwrap().remove(unhex(&a[0])),
			"title" => if a[0] == "nil" { bar.as_ref().unwrap().set_title(None::<Msg>) } else { bar.as_ref().unwrap().set_title(Some(text_msg(a))) },
			"tmsg" => bar.as_ref().unwrap().set_title_msg(&unhex(&a[0])),
			"splines" => bar.as_ref().unwrap().set_reticulating_splines(unhex(&a[0])),
			"msg" => res = bar.as_ref().unwrap().push_msg(text_msg(a)).map_or_else(|m| {
				// What comes back has to be what could not be written.
				if m.clone().with_newline(true) == text_msg(a).with_newline(true) { "false" } else { "other" }
			}, |()| "true").to_owned(),
			"fin" => res = bar.as_ref().unwrap().finish().as_millis().to_string(),
			"reset" => bar.as_ref().unwrap().reset(NonZeroU32::new(n(0)).unwrap()),
			"try" => res = match bar.as_ref().unwrap().try_reset(n(0)) { Ok(()) => "ok".to_owned(), Err(e) => format!("{e:?}") },
			"sum" => res = bar.as_ref().unwrap().summary(kind(&a[0]), unhex(&a[1]), unhex(&a[2])).as_str().to_owned(),
			"fmsg" => { let m: Msg = bar.clone().unwrap().into(); res = m.as_str().to_owned(); },
			"clone" => { let _b = bar.clone(); },
			"print" => Msg::from(unhex(&a[0])).with_newline(true).eprint(),
			#[cfg(feature = "sigint")]
			"two" => *SWITCH.lock().unwrap() = Some(Progless::sigint_two_strike()),
			#[cfg(feature = "sigint")]
			"keep" => *SWITCH.lock().unwrap() = Some(Progless::sigint_keepalive()),
			#[cfg(feature = "sigint")]
			"sw" => { let s = *SWITCH.lock().unwrap(); res = s.map_or_else(|| "none".to_owned(), |s| s.load(std::sync::atomic::Ordering::SeqCst).to_string()); },
			x => { tell(&format!("\"e\":\"unknown\",\"o\":{}", esc(x)), false); std::process::exit(4); },
		}
		tell(&format!("\"e\":\"ret\",\"t\":\"{me}\",\"o\":{},\"r\":{}", esc(name), esc(&res)), alone);
	}
}

fn snapshot(t: &Term) -> String {
	let (log, pic) = t.view();
	let q = |v: Vec<String>| v.iter().map(|l| esc(l)).collect::<Vec<_>>().join(",");
	format!("{{\"log\":[{}],\"pic\":[{}],\"vis\":{},\"col\":{},\"odd\":{},\"wraps\":{},\"lost\":{}}}", q(log), q(pic), t.visible, t.col, t.odd, t.wraps, t.lost)
}

fn main() {
	let a: Vec<String> = std::env::args().collect();
	if a[1] == "term" {
		// z<cols>x<rows>, f<hex>, s: resize, feed, show.
		let size = |s: &str| { let (x, y) = s.split_once('x').unwrap(); (x.parse().unwrap(), y.parse().unwrap()) };
		let mut t = Term::new(size(&a[2]));
		for l in std::io::stdin().lock().lines() {
			let l = l.unwrap();
			match l.as_bytes()[0] {
				b'z' => t.resize(size(&l[1..])),
				b'f' => t.feed(&(1..l.len()).step_by(2).map(|i| u8::from_str_radix(&l[i..i + 2], 16).unwrap()).collect::<Vec<_>>()),
				_ => println!("{}", snapshot(&t)),
			}
		}
		return;
	}
	#[allow(unsafe_code)]
	let (tell_to, hear) = unsafe { (File::from_raw_fd(3), File::from_raw_fd(4)) };
	assert!(LINK.set(Mutex::new(Link { tell: tell_to, hear, t0: Instant::now() })).is_ok());
	let threads: Vec<Vec<Op>> = a[2].split('|').map(parse_ops).collect();
	run_ops(0, threads.len() == 1, &threads[0], &threads[1..], None);
}
