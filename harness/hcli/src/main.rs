//! Runs a program many times.  Usage: hcli <timeout ms> <scratch dir>; one run
//! per input line: "<program> <stdin> <arg>...", everything hex with a leading
//! x.  stdin may also be "dir" (reads fail) or "null", and be followed by what
//! is wrong with standard output or error ("@1full", "@2pipe": nothing can be
//! written, or nobody reads).  One answer line each:
//! "<exit status | sigN | hang | skip> <stdout> <stderr>"; a program that writes
//! without end hangs too, and after a number of hangs the rest is skipped.
use std::ffi::OsString;
use std::io::{BufRead, Read, Write};
use std::os::unix::ffi::OsStringExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const RLIMIT_AS: i32 = 9;
unsafe extern "C" { fn setrlimit(resource: i32, limit: &[u64; 2]) -> i32; }

const CAP: usize = 1 << 20;
const HANGS: usize = 10;

fn unhex(s: &str) -> Vec<u8> {
	let s = s.strip_prefix('x').expect("hex");
	(0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}

fn hex(b: &[u8]) -> String {
	let mut o = String::with_capacity(1 + 2 * b.len());
	o.push('x');
	for c in b {
		o.push(char::from_digit(u32::from(c >> 4), 16).unwrap());
		o.push(char::from_digit(u32::from(c & 15), 16).unwrap());
	}
	o
}

fn slurp(mut r: impl Read + Send + 'static, full: &Arc<AtomicBool>) -> std::thread::JoinHandle<Vec<u8>> {
	let full = Arc::clone(full);
	std::thread::spawn(move || {
		let mut out = Vec::new();
		let mut buf = [0_u8; 8192];
		while out.len() < CAP {
			match r.read(&mut buf) {
				Ok(0) => break,
				Ok(n) => out.extend_from_slice(&buf[..n]),
				Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {},
				Err(_) => break,
			}
		}
		if out.len() >= CAP { full.store(true, Ordering::Relaxed); }
		// Dropping the pipe ends a runaway writer.
		out
	})
}

fn run(line: &str, limit: Duration, dir: &str) -> String {
	let mut f = line.split(' ');
	let prog = OsString::from_vec(unhex(f.next().unwrap()));
	let mut spec = f.next().unwrap().split('@');
	let input = spec.next().unwrap();
	let mut cmd = Command::new(prog);
	for a in f { cmd.arg(OsString::from_vec(unhex(a))); }
	// No program needs much memory, and eight run at a time.
	// Safety: setrlimit may be called between fork and exec.
	unsafe { cmd.pre_exec(|| if setrlimit(RLIMIT_AS, &[1 << 30, 1 << 30]) == 0 { Ok(()) } else { Err(std::io::Error::last_os_error()) }); }
	cmd.current_dir(dir).stdout(Stdio::piped()).stderr(Stdio::piped());
	for s in spec {
		let sink = if s.ends_with("full") { Stdio::from(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap()) }
			else { Stdio::from(std::io::pipe().unwrap().1) };
		if s.starts_with('1') { cmd.stdout(sink); }
		else { cmd.stderr(sink); }
	}
	match input {
		"null" => { cmd.stdin(Stdio::null()); },
		"dir" => { cmd.stdin(std::fs::File::open(dir).unwrap()); },
		_ => { cmd.stdin(Stdio::piped()); },
	}
	let mut child = cmd.spawn().expect("spawn");
	let full = Arc::new(AtomicBool::new(false));
	drop(cmd);
	let o = child.stdout.take().map(|x| slurp(x, &full));
	let e = child.stderr.take().map(|x| slurp(x, &full));
	if let Some(mut i) = child.stdin.take() {
		let _ = i.write_all(&unhex(input));
	}
	let t0 = Instant::now();
	let mut pause = 50;
	let status = loop {
		if let Some(s) = child.try_wait().unwrap() { break Some(s); }
		// Only a stream that has reached the cap is closed here while its writer lives.
		let endless = full.load(Ordering::Relaxed) && t0.elapsed() > limit / 20;
		if t0.elapsed() > limit || endless || o.as_ref().is_some_and(|o| o.is_finished()) && t0.elapsed() > limit / 2 {
			let _ = child.kill();
			let _ = child.wait();
			break None;
		}
		std::thread::sleep(Duration::from_micros(pause));
		if pause < 2000 { pause += 50; }
	};
	let out = o.map_or_else(Vec::new, |o| o.join().unwrap());
	let err = e.map_or_else(Vec::new, |e| e.join().unwrap());
	let st = match status {
		None => "hang".to_owned(),
		Some(s) => s.code().map_or_else(|| format!("sig{}", s.signal().unwrap_or(0)), |c| c.to_string()),
	};
	format!("{st} {} {}", hex(&out), hex(&err))
}

fn main() {
	let mut a = std::env::args().skip(1);
	let limit = Duration::from_millis(a.next().unwrap().parse().unwrap());
	let dir = a.next().unwrap();
	let lines: Vec<String> = std::io::stdin().lock().lines().map(Result::unwrap).collect();
	let next = AtomicUsize::new(0);
	let hangs = AtomicUsize::new(0);
	let out: Mutex<Vec<String>> = Mutex::new(vec![String::new(); lines.len()]);
	std::thread::scope(|s| {
		for _ in 0..8 {
			s.spawn(|| loop {
				let i = next.fetch_add(1, Ordering::Relaxed);
				if i >= lines.len() { break; }
				let r = if hangs.load(Ordering::Relaxed) < HANGS { run(&lines[i], limit, &dir) } else { "skip x x".to_owned() };
				if r.starts_with("hang ") { hangs.fetch_add(1, Ordering::Relaxed); }
				out.lock().unwrap()[i] = r;
			});
		}
	});
	let mut so = std::io::stdout().lock();
	for l in out.into_inner().unwrap() { writeln!(so, "{l}").unwrap(); }
}
