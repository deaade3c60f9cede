//! Runs scenarios of the progress bar under a controlled scheduler and prints
//! the distinct traces as JSON.  One command per line:
//!   <mode> <cols>x<rows>|none <flags> <thread 0 ops>|<thread 1 ops>|...
//! mode: seq | dfs:<bound>:<max> | rand:<seed>:<count> | replay:<choices>
//! flags: - or a comma list of short=<n>, slow, steps=<n>
//! ops are separated by ';', their arguments by ',', texts are hexadecimal.
mod term;

use fyi_msg::{Msg, MsgKind, Progless};
use fyi_msg::verif::sim::{self, Chooser, Config, Ev, Outcome};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::{BufRead, Write};
use std::num::NonZeroU32;
use std::sync::{Arc, Mutex};
use term::Term;

#[derive(Clone, Debug)]
struct Op { name: String, args: Vec<String> }

fn unhex(s: &str) -> String {
	let b: Vec<u8> = (1..s.len()).step_by(2).map(|i| u8::from_str_radix(&s[i..i + 2], 16).unwrap()).collect();
	String::from_utf8(b).unwrap()
}
fn esc(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			c if (c as u32) < 32 || (c as u32) == 127 => { let _ = write!(o, "\\u{:04x}", c as u32); },
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

fn parse_ops(s: &str) -> Vec<Op> {
	s.split(';').filter(|x| ! x.trim().is_empty()).map(|x| {
		let mut p = x.trim().split(',');
		let name = p.next().unwrap().to_owned();
		Op { name, args: p.map(str::to_owned).collect() }
	}).collect()
}

// ---------------------------------------------------------------- choosers
#[derive(Default)]
struct Log { stack: Vec<(u16, u16, u64)>, pos: usize }
struct DfsChooser(Arc<Mutex<Log>>);
impl Chooser for DfsChooser {
	fn pick(&mut self, n: usize, costs: u64) -> usize {
		let mut l = self.0.lock().unwrap();
		let p = l.pos;
		l.pos += 1;
		if p < l.stack.len() {
			l.stack[p].0 = n as u16;
			l.stack[p].2 = costs;
			return l.stack[p].1 as usize;
		}
		l.stack.push((n as u16, 0, costs));
		0
	}
}
fn next(l: &mut Log, bound: u32) -> bool {
	let p = l.pos;
	l.stack.truncate(p);
	l.pos = 0;
	let mut cost: Vec<u32> = Vec::with_capacity(l.stack.len() + 1);
	cost.push(0);
	for &(_, c, k) in &l.stack { let x = *cost.last().unwrap() + u32::from(k >> c & 1 == 1); cost.push(x); }
	while let Some((n, c, k)) = l.stack.pop() {
		let base = cost[l.stack.len()];
		for c2 in c + 1..n {
			if base + u32::from(k >> c2 & 1 == 1) <= bound {
				l.stack.push((n, c2, k));
				return true;
			}
		}
	}
	false
}
struct RandChooser { s: u64, log: Arc<Mutex<Log>>, every: u64 }
impl RandChooser {
	fn r(&mut self) -> u64 {
		self.s ^= self.s << 13;
		self.s ^= self.s >> 7;
		self.s ^= self.s << 17;
		self.s.wrapping_mul(0x2545_F491_4F6C_DD1D) >> 20
	}
}
impl Chooser for RandChooser {
	fn pick(&mut self, n: usize, costs: u64) -> usize {
		let free: Vec<usize> = (0..n).filter(|i| costs >> i & 1 == 0).collect();
		let c = if free.len() == n || self.r() % self.every != 0 { free[(self.r() % free.len() as u64) as usize] }
			else { (self.r() % n as u64) as usize };
		self.log.lock().unwrap().stack.push((n as u16, c as u16, costs));
		c
	}
}

// ---------------------------------------------------------------- scenario
struct World { bar: Mutex<Option<Progless>>, tids: Mutex<Vec<usize>>, switch: Mutex<Option<&'static dyn Switch>> }
trait Switch: Send + Sync { fn get(&self) -> bool; }
#[cfg(feature = "sigint")]
impl Switch for Arc<fyi_msg::verif::prim::AtomicBool> { fn get(&self) -> bool { self.load(std::sync::atomic::Ordering::SeqCst) } }

fn kind(s: &str) -> MsgKind { MsgKind::ALL.iter().copied().find(|k| format!("{k:?}").eq_ignore_ascii_case(s)).unwrap_or(MsgKind::Done) }
fn text_msg(a: &[String]) -> Msg {
	// <kind or none> <hex>
	let t = unhex(&a[1]);
	match a[0].as_str() {
		"none" => Msg::from(t),
		"pfx" => Msg::new(("Custom", 199), t),
		"full" => Msg::new(("Custom", 199), t).with_indent(1).with_suffix(" !").with_newline(true),
		k => Msg::new(kind(k), t),
	}
}

/// The lines a message makes on an empty terminal.
fn as_printed(m: &Msg) -> String {
	let mut t = Term::new((60_000, 60_000));
	t.feed(m.clone().with_newline(true).as_bytes());
	t.view().0.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")
}

fn run_ops(w: &Arc<World>, ops: &[Op], rest: &[Vec<Op>], mut bar: Option<Progless>) {
	let mut joins: Vec<usize> = Vec::new();
	for op in ops {
		let a = &op.args;
		let n = |i: usize| a[i].parse::<u32>().unwrap();
		match op.name.as_str() {
			"go" => {
				for (i, r) in rest.iter().enumerate() {
					let (w2, r2, b2) = (w.clone(), r.clone(), bar.clone());
					let tid = sim::spawn(Box::new(move || run_ops(&w2, &r2, &[], b2)));
					sim::note(format!("name {} {tid}", i + 1));
					w.tids.lock().unwrap().push(tid);
					joins.push(tid);
				}
				continue;
			},
			"join" => { for j in joins.drain(..) { sim::join(j); } continue; },
			"sleep" => { sim::sleep(u64::from(n(0)) * 1_000_000); continue; },
			"jump" => { sim::jump(u64::from(n(0)) * 1_000_000); continue; },
			"settle" => { sim::settle(u64::from(n(0)) * 100_000_000 + 50_000_000); sim::note("snap".to_owned()); continue; },
			"err" => {
				use std::io::ErrorKind;
				sim::fault(match a[0].as_str() {
					"none" => sim::Fault::None,
					"pipe" => sim::Fault::Kind(ErrorKind::BrokenPipe),
					"block" => sim::Fault::Kind(ErrorKind::WouldBlock),
					"zero" => sim::Fault::Zero,
					_ => sim::Fault::Kind(ErrorKind::Other),
				});
				continue;
			},
			"snap" => { sim::note("snap".to_owned()); continue; },
			"size" => {
				let s = if a[0] == "none" { None } else { let (x, y) = a[0].split_once('x').unwrap(); Some((x.parse().unwrap(), y.parse().unwrap())) };
				sim::set_size(s);
				if cfg!(feature = "sigwinch") { sim::raise(0, 28); }
				continue;
			},
			"int" => {
				let k = n(0) as usize;
				let tid = if k == 0 { 0 } else { w.tids.lock().unwrap().get(k - 1).copied().unwrap_or(0) };
				sim::raise(tid, 2);
				continue;
			},
			_ => {},
		}
		sim::point();
		let lines = match op.name.as_str() {
			"msg" => as_printed(&text_msg(a)),
			"print" => as_printed(&Msg::from(unhex(&a[0]))),
			_ => String::new(),
		};
		sim::note(format!("call {} {}\u{0}{lines}", op.name, a.join(",")));
		let mut res = String::from("-");
		match op.name.as_str() {
			"new" => {
				bar = Some(Progless::from(NonZeroU32::new(n(0)).unwrap()));
				*w.bar.lock().unwrap() = None;
			},
			"def" => { bar = Some(Progless::default()); },
			"newt" => { bar = Some(Progless::from(NonZeroU32::new(n(0)).unwrap()).with_title(Some(text_msg(&a[1..])))); },
			"news" => { bar = Some(Progless::from(NonZeroU32::new(n(0)).unwrap()).with_reticulating_splines(unhex(&a[1]))); },
			"newn" => { bar = Some(Progless::from(NonZeroU32::new(n(0)).unwrap()).with_title(None::<Msg>)); },
			"drop" => { drop(bar.take()); },
			"inc" => { let b = bar.as_ref().unwrap(); if n(0) == 1 { b.increment(); } else { b.increment_n(n(0)); } },
			"incn" => bar.as_ref().unwrap().increment_n(n(0)),
			"set" => bar.as_ref().unwrap().set_done(n(0)),
			"add" => res = bar.as_ref().unwrap().add(unhex(&a[0])).to_string(),
			"rem" => bar.as_ref().unwrap().remove(unhex(&a[0])),
			"title" => if a[0] == "nil" { bar.as_ref().unwrap().set_title(None::<Msg>) } else { bar.as_ref().unwrap().set_title(Some(text_msg(a))) },
			"tmsg" => bar.as_ref().unwrap().set_title_msg(&unhex(&a[0])),
			"splines" => bar.as_ref().unwrap().set_reticulating_splines(unhex(&a[0])),
			"msg" => res = bar.as_ref().unwrap().push_msg(text_msg(a)).map_or_else(|m| {
				// What comes back has to be what could not be written.
				if m.clone().with_newline(true) == text_msg(a).with_newline(true) { "false" } else { "other" }
			}, |()| "true").to_owned(),
			"fin" => res = bar.as_ref().unwrap().finish().as_millis().to_string(),
			"reset" => bar.as_ref().unwrap().reset(NonZeroU32::new(n(0)).unwrap()),
			"try" => res = match bar.as_ref().unwrap().try_reset(n(0)) { Ok(()) => "ok".to_owned(), Err(e) => format!("{e:?}") },
			"sum" => res = esc(bar.as_ref().unwrap().summary(kind(&a[0]), unhex(&a[1]), unhex(&a[2])).as_str()),
			"fmsg" => { let m: Msg = bar.clone().unwrap().into(); res = esc(m.as_str()); },
			"clone" => { let _b = bar.clone(); },
			"print" => {
				let m = Msg::from(unhex(&a[0])).with_newline(true);
				m.eprint();
			},
			#[cfg(feature = "sigint")]
			"two" => { *w.switch.lock().unwrap() = Some(Progless::sigint_two_strike()); },
			#[cfg(feature = "sigint")]
			"keep" => { *w.switch.lock().unwrap() = Some(Progless::sigint_keepalive()); },
			"sw" => { let s = *w.switch.lock().unwrap(); res = s.map_or_else(|| "none".to_owned(), |s| s.get().to_string()); },
			x => { println!("unknown command {x}"); eprintln!("unknown command {x}"); std::process::exit(4); },
		}
		sim::note(format!("ret {} {res}", op.name));
	}
	sim::note("bye".to_owned());
	drop(bar);
}

// ---------------------------------------------------------------- traces
fn snapshot(t: &Term, o: &mut String) {
	let (log, pic) = t.view();
	o.push_str("\"log\":[");
	for (i, l) in log.iter().enumerate() { if i != 0 { o.push(','); } o.push_str(&esc(l)); }
	o.push_str("],\"pic\":[");
	for (i, l) in pic.iter().enumerate() { if i != 0 { o.push(','); } o.push_str(&esc(l)); }
	let _ = write!(o, "],\"vis\":{},\"col\":{},\"odd\":{}", t.visible, t.col, t.odd);
}

fn trace(events: &[(u64, Ev)], outcome: &Outcome, size: Option<(u16, u16)>) -> String {
	let mut names: BTreeMap<usize, String> = BTreeMap::new();
	names.insert(0, "0".to_owned());
	for (_, e) in events {
		if let Ev::Note(_, s) = e {
			if let Some(r) = s.strip_prefix("name ") { let (i, t) = r.split_once(' ').unwrap(); names.insert(t.parse().unwrap(), i.to_owned()); }
		}
	}
	let mut k = 0;
	let mut term = Term::new(size.unwrap_or((80, 24)));
	let mut out: Vec<String> = Vec::new();
	// Ticks without output are left out: remember where each one's wake went.
	let mut wakes: BTreeMap<usize, usize> = BTreeMap::new();
	let mut holds: BTreeMap<usize, (bool, usize, usize, usize)> = BTreeMap::new();
	let ms = |n: u64| n / 1_000_000;
	let emit_out = |tid: usize, now: u64, term: &mut Term, start: (bool, usize, usize, usize), names: &BTreeMap<usize, String>, out: &mut Vec<String>| {
		let mut o = format!("{{\"e\":\"out\",\"t\":{},\"n\":{},", esc(names.get(&tid).map_or("?", |s| s)), ms(now));
		snapshot(term, &mut o);
		let _ = write!(o, ",\"wrap\":{},\"home\":{},\"lost\":{}}}", term.wraps != start.1, term.row == start.2, term.lost != start.3);
		out.push(o);
	};
	for (now, e) in events {
		match e {
			Ev::Note(tid, s) => {
				let t = esc(names.get(tid).map_or("?", |s| s));
				let (w, rest) = s.split_once(' ').unwrap_or((s, ""));
				match w {
					"call" => { let (o, a) = rest.split_once(' ').unwrap(); let (a, l) = a.split_once('\u{0}').unwrap(); out.push(format!("{{\"e\":\"call\",\"t\":{t},\"n\":{},\"o\":{},\"a\":{},\"l\":[{l}]}}", ms(*now), esc(o), esc(a))); wakes.remove(tid); },
					"ret" => {
						let (o, a) = rest.split_once(' ').unwrap();
						let mut x = format!("{{\"e\":\"ret\",\"t\":{t},\"n\":{},\"o\":{},\"r\":{},", ms(*now), esc(o), if a.starts_with('"') { a.to_owned() } else { esc(a) });
						snapshot(&term, &mut x);
						x.push('}');
						out.push(x);
					},
					"snap" => {
						let mut x = format!("{{\"e\":\"snap\",\"t\":{t},\"n\":{},", ms(*now));
						snapshot(&term, &mut x);
						x.push('}');
						out.push(x);
					},
					"panic" => out.push(format!("{{\"e\":\"panic\",\"t\":{t},\"n\":{},\"r\":{}}}", ms(*now), esc(rest))),
					"bye" => out.push(format!("{{\"e\":\"bye\",\"t\":{t},\"n\":{}}}", ms(*now))),
					_ => {},
				}
			},
			Ev::Spawn(_, tid) => {
				if ! names.contains_key(tid) {
					names.insert(*tid, format!("k{k}"));
					k += 1;
					out.push(format!("{{\"e\":\"spawn\",\"t\":{},\"n\":{}}}", esc(&names[tid]), ms(*now)));
				}
			},
			Ev::End(tid) => if let Some(n) = names.get(tid) { if n.starts_with('k') { out.push(format!("{{\"e\":\"end\",\"t\":{},\"n\":{},\"vis\":{}}}", esc(n), ms(*now), term.visible)); } else { out.push(format!("{{\"e\":\"gone\",\"t\":{}}}", esc(n))); } },
			Ev::Wake(tid) => {
				if let Some(n) = names.get(tid) { if n.starts_with('k') {
					// Drop the previous one if it painted nothing.
					if let Some(i) = wakes.remove(tid) { out[i].clear(); }
					wakes.insert(*tid, out.len());
					out.push(format!("{{\"e\":\"wake\",\"t\":{},\"n\":{}}}", esc(n), ms(*now)));
				} }
			},
			Ev::Lock(tid) => { holds.insert(*tid, (false, term.wraps, term.row, term.lost)); },
			Ev::Out(tid, b) => {
				if let Some(h) = holds.get_mut(tid) { h.0 = true; term.feed(b); }
				else {
					let start = (true, term.wraps, term.row, term.lost);
					term.feed(b);
					emit_out(*tid, *now, &mut term, start, &names, &mut out);
				}
			},
			Ev::Unlock(tid) => {
				if let Some(h) = holds.remove(tid) {
					if h.0 { emit_out(*tid, *now, &mut term, h, &names, &mut out); wakes.remove(tid); }
				}
			},
			Ev::Size(w, h) => {
				if *w != 0 { term.resize((*w, *h)); }
				out.push(format!("{{\"e\":\"size\",\"w\":{w},\"h\":{h},\"n\":{}}}", ms(*now)));
			},
			Ev::Signal(tid, s) => if *s == 2 { out.push(format!("{{\"e\":\"int\",\"t\":{},\"n\":{}}}", esc(names.get(tid).map_or("?", |s| s)), ms(*now))); },
			Ev::Fault(f) => out.push(format!("{{\"e\":\"err\",\"on\":{f},\"n\":{}}}", ms(*now))),
			Ev::Query(..) => {},
		}
	}
	for (_, i) in wakes { out[i].clear(); }
	// Output of a lock never given back.
	for (tid, h) in &holds { if h.0 { emit_out(*tid, events.last().map_or(0, |e| e.0), &mut term, *h, &names, &mut out); } }
	let o = match outcome { Outcome::Done => "done".to_owned(), Outcome::Deadlock(s) => format!("deadlock {s}"), Outcome::Panic(s) => format!("panic {s}"), Outcome::Exit(n) => format!("exit {n}"), Outcome::Hang => "hang".to_owned() };
	let mut x = format!("{{\"e\":\"over\",\"r\":{},\"n\":{},", esc(&o), ms(events.last().map_or(0, |e| e.0)));
	snapshot(&term, &mut x);
	x.push('}');
	out.push(x);
	out.retain(|s| ! s.is_empty());
	format!("[{}]", out.join(","))
}

fn main() {
	std::panic::set_hook(Box::new(|_| {}));
	let stdin = std::io::stdin();
	let stdout = std::io::stdout();
	for line in stdin.lock().lines() {
		let line = line.unwrap();
		let mut p = line.splitn(4, ' ');
		let mode = p.next().unwrap().to_owned();
		let size = p.next().unwrap();
		let size = if size == "none" { None } else { let (a, b) = size.split_once('x').unwrap(); Some((a.parse::<u16>().unwrap(), b.parse::<u16>().unwrap())) };
		let flags = p.next().unwrap();
		let mut cfg = Config { size, max_steps: 60_000, max_time: 2_000_000_000_000, short: 0, slow: false };
		for f in flags.split(',') {
			if f == "slow" { cfg.slow = true; }
			if let Some(n) = f.strip_prefix("short=") { cfg.short = n.parse().unwrap(); }
			if let Some(n) = f.strip_prefix("steps=") { cfg.max_steps = n.parse().unwrap(); }
			if let Some(n) = f.strip_prefix("time=") { cfg.max_time = n.parse::<u64>().unwrap() * 1_000_000_000; }
		}
		let threads: Vec<Vec<Op>> = p.next().unwrap().split('|').map(parse_ops).collect();
		let mut seen: BTreeMap<String, (u64, String)> = BTreeMap::new();
		let mut execs = 0_u64;
		let mut full = false;
		let mut go = |ch: Box<dyn Chooser>, log: &Arc<Mutex<Log>>, execs: &mut u64| -> bool {
			let w = Arc::new(World { bar: Mutex::new(None), tids: Mutex::new(Vec::new()), switch: Mutex::new(None) });
			let t = threads.clone();
			let (ev, oc) = sim::run(&cfg, ch, Box::new(move || run_ops(&w, &t[0], &t[1..], None)));
			*execs += 1;
			let tr = trace(&ev, &oc, size);
			let bad = ! matches!(oc, Outcome::Done | Outcome::Exit(_));
			seen.entry(tr).or_insert_with(|| {
				let l = log.lock().unwrap();
				(0, l.stack.iter().map(|x| x.1.to_string()).collect::<Vec<_>>().join("."))
			}).0 += 1;
			bad
		};
		let m: Vec<&str> = mode.split(':').collect();
		match m[0] {
			"seq" => { let log = Arc::new(Mutex::new(Log::default())); go(Box::new(DfsChooser(log.clone())), &log, &mut execs); full = true; },
			"dfs" => {
				let bound: u32 = m[1].parse().unwrap();
				let max: u64 = m[2].parse().unwrap();
				let log = Arc::new(Mutex::new(Log::default()));
				let mut bads = 0;
				loop {
					log.lock().unwrap().pos = 0;
					if go(Box::new(DfsChooser(log.clone())), &log, &mut execs) { bads += 1; if bads > 3 { break; } }
					if ! next(&mut log.lock().unwrap(), bound) { full = true; break; }
					if execs >= max { break; }
				}
			},
			"rand" => {
				let seed: u64 = m[1].parse().unwrap();
				let max: u64 = m[2].parse().unwrap();
				let mut bads = 0;
				for i in 0..max {
					let log = Arc::new(Mutex::new(Log::default()));
					let s = (seed.wrapping_mul(1_000_003).wrapping_add(i + 1)).wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
					if go(Box::new(RandChooser { s, log: log.clone(), every: [2, 4, 8, 16, 40][(i % 5) as usize] }), &log, &mut execs) { bads += 1; if bads > 3 { break; } }
				}
			},
			"replay" => {
				let log = Arc::new(Mutex::new(Log::default()));
				log.lock().unwrap().stack = m.get(1).unwrap_or(&"").split('.').filter(|x| ! x.is_empty()).map(|x| (0, x.parse().unwrap(), 0)).collect();
				go(Box::new(DfsChooser(log.clone())), &log, &mut execs);
			},
			_ => { eprintln!("unknown command {line}"); std::process::exit(4); },
		}
		let mut o = stdout.lock();
		for (t, (n, c)) in &seen { let _ = writeln!(o, "T {n} {} {t}", if c.is_empty() { "-" } else { c }); }
		let _ = writeln!(o, "E {execs} {full}");
		let _ = o.flush();
	}
}
