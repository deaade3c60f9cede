// Stand-ins for the parts of `std`, `terminal_size` and `signal_hook` that the
// progress bar uses.  Inside a simulation (sim::run) every operation on shared
// state is a scheduling point of a controlled scheduler, time is virtual, the
// terminal is a recorder and signals are delivered by the scenario.  Outside of
// a simulation they simply do what the originals do.

pub mod sim {
	use ::std::cell::Cell;
	use ::std::collections::BTreeMap;
	use ::std::sync::{Arc, Mutex, MutexGuard, Condvar};

	/// Something that happened.
	#[derive(Clone, Debug)]
	pub enum Ev {
		/// A note of the scenario.
		Note(usize, String),
		/// Bytes arrived at the terminal.
		Out(usize, Vec<u8>),
		/// The thread took the (outermost) terminal lock.
		Lock(usize),
		/// The thread gave it back.
		Unlock(usize),
		/// A timed wait ended.
		Wake(usize),
		/// A thread was made, by another.
		Spawn(usize, usize),
		/// A thread ended.
		End(usize),
		/// The terminal was resized.
		Size(u16, u16),
		/// A signal was delivered to a thread.
		Signal(usize, i32),
		/// The size of the terminal was asked for.
		Query(usize, u16, u16),
		/// Writing to the terminal begins to fail, or to work again.
		Fault(bool),
	}

	#[derive(Clone, Debug, PartialEq, Eq)]
	pub enum Outcome { Done, Deadlock(String), Panic(String), Exit(i32), Hang }

	#[derive(Clone, Debug, PartialEq, Eq)]
	enum St { Run, Wait(usize), Timed(usize, u64), Ended }

	struct Th {
		st: St,
		/// Woken by its deadline?
		timed_out: bool,
		/// Pending signals.
		pending: Vec<i32>,
		in_handler: bool,
		token: bool,
		/// Its timer waits for its turn: nobody is late when it fires.
		calm: bool,
	}

	/// A scheduling decision.
	#[derive(Clone, Copy, Debug)]
	pub struct Pick { pub n: u16, pub chosen: u16, pub costs: u64 }

	pub trait Chooser: Send {
		/// Pick one of the options; bit i of `costs` tells that option i is a preemption.
		fn pick(&mut self, n: usize, costs: u64) -> usize;
	}

	pub struct Core {
		epoch: u64,
		threads: Vec<Th>,
		cur: usize,
		now: u64,
		chooser: Box<dyn Chooser>,
		pub events: Vec<(u64, Ev)>,
		outcome: Option<Outcome>,
		steps: u64,
		max_steps: u64,
		max_time: u64,
		size: Option<(u16, u16)>,
		handlers: BTreeMap<i32, Vec<(u64, Arc<dyn Fn() + Send + Sync>)>>,
		next_id: u64,
		err_owner: Option<usize>,
		err_depth: usize,
		err_busy: Option<usize>,
		alive: usize,
		/// Writes take their bytes in pieces of at most this many (0: no limit), failing
		/// as interrupted now and then.
		short: usize,
		writes: u64,
		slow: bool,
		/// Why writes fail for now, if they do.
		fault: Fault,
	}
	/// What is wrong with the terminal: nothing, or every write to it fails so.
	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub enum Fault { None, Kind(::std::io::ErrorKind), Zero }

	static CORE: Mutex<Option<Core>> = Mutex::new(None);
	static EPOCH: ::std::sync::atomic::AtomicU64 = ::std::sync::atomic::AtomicU64::new(0);
	static DONE: (Mutex<bool>, Condvar) = (Mutex::new(false), Condvar::new());

	struct Seat { go: Mutex<bool>, cv: Condvar }
	static SEATS: Mutex<Vec<Arc<Seat>>> = Mutex::new(Vec::new());
	static HANDLES: Mutex<Vec<::std::thread::JoinHandle<()>>> = Mutex::new(Vec::new());

	thread_local! {
		static ME: Cell<usize> = const { Cell::new(usize::MAX) };
		static SEAT: ::std::cell::RefCell<Option<Arc<Seat>>> = const { ::std::cell::RefCell::new(None) };
	}

	/// What ends the threads of a simulation that is over.
	pub struct Abort;

	pub fn me() -> Option<usize> {
		match ME.try_with(Cell::get) { Ok(usize::MAX) | Err(_) => None, Ok(n) => Some(n) }
	}
	pub fn epoch() -> u64 { EPOCH.load(::std::sync::atomic::Ordering::SeqCst) }

	fn core() -> MutexGuard<'static, Option<Core>> { CORE.lock().unwrap_or_else(::std::sync::PoisonError::into_inner) }

	/// Is the simulation over (so operations must not wait any more)?
	pub fn over() -> bool { core().as_ref().is_none_or(|c| c.outcome.is_some()) }

	/// Leave a simulation that is over, unless this thread is leaving already.
	fn leave() {
		if ! ::std::thread::panicking() { ::std::panic::resume_unwind(Box::new(Abort)); }
	}

	fn finish(c: &mut Core, o: Outcome) {
		if c.outcome.is_none() {
			c.outcome = Some(o);
			for s in SEATS.lock().unwrap().iter() {
				*s.go.lock().unwrap() = true;
				s.cv.notify_all();
			}
		}
	}

	fn wait_turn() {
		let seat = SEAT.with(|s| s.borrow().clone().unwrap());
		let mut go = seat.go.lock().unwrap();
		while ! *go { go = seat.cv.wait(go).unwrap(); }
		*go = false;
	}

	fn hand_to(tid: usize) {
		let seat = SEATS.lock().unwrap()[tid].clone();
		*seat.go.lock().unwrap() = true;
		seat.cv.notify_all();
	}

	/// Choose who runs next; `free` if the current thread cannot go on anyway.
	/// Returns None if this thread goes on, otherwise the other one.
	fn choose(c: &mut Core, me: usize) -> Option<usize> {
		let mut opts: Vec<(usize, bool)> = Vec::new();
		let mut costs: u64 = 0;
		let able = |t: &Th| t.st == St::Run || (! t.pending.is_empty() && ! t.in_handler && t.st != St::Ended);
		let mine = able(&c.threads[me]);
		if mine { opts.push((me, false)); }
		for (i, t) in c.threads.iter().enumerate() {
			if i != me && able(t) {
				if mine { costs |= 1 << opts.len(); }
				opts.push((i, false));
			}
		}
		let some = ! opts.is_empty();
		let mut timers: Vec<(u64, usize)> = c.threads.iter().enumerate()
			.filter_map(|(i, t)| if let St::Timed(_, d) = t.st { if able(t) { None } else { Some((d, i)) } } else { None })
			.collect();
		timers.sort_unstable();
		for (k, (_, i)) in timers.iter().enumerate() {
			if c.threads[*i].calm && (some || k != 0) { continue; }
			if some || k != 0 { costs |= 1 << opts.len(); }
			opts.push((*i, true));
		}
		if opts.is_empty() {
			if c.threads.iter().all(|t| t.st == St::Ended) { finish(c, Outcome::Done); }
			else {
				let s = format!("{:?}", c.threads.iter().map(|t| match t.st { St::Run => 'R', St::Wait(_) => 'W', St::Timed(..) => 'T', St::Ended => 'E' }).collect::<String>());
				finish(c, Outcome::Deadlock(s));
			}
			return None;
		}
		let k = if opts.len() == 1 { 0 } else { c.chooser.pick(opts.len(), costs).min(opts.len() - 1) };
		let (tid, timer) = opts[k];
		if timer {
			if let St::Timed(_, d) = c.threads[tid].st { if c.now < d { c.now = d; } }
			c.threads[tid].st = St::Run;
			c.threads[tid].timed_out = true;
			if c.now > c.max_time { finish(c, Outcome::Hang); return None; }
		}
		c.cur = tid;
		if tid == me { None } else { Some(tid) }
	}

	/// Give others a chance to run; and wait for the turn to come back.
	fn switch(me: usize) {
		let next = {
			let mut g = core();
			let Some(c) = g.as_mut() else { return };
			if c.outcome.is_some() { drop(g); leave(); return; }
			c.steps += 1;
			if c.steps > c.max_steps { finish(c, Outcome::Hang); drop(g); leave(); return; }
			let n = choose(c, me);
			if c.outcome.is_some() { drop(g); leave(); return; }
			n
		};
		if let Some(n) = next {
			hand_to(n);
			wait_turn();
			if over() { leave(); }
		}
	}

	/// Run the handlers of the signals that arrived for this thread.
	fn signals(me: usize) {
		loop {
			let hs = {
				let mut g = core();
				let Some(c) = g.as_mut() else { return };
				if c.outcome.is_some() || c.threads[me].in_handler || c.threads[me].pending.is_empty() { return; }
				let sig = c.threads[me].pending.remove(0);
				let hs: Vec<_> = c.handlers.get(&sig).map(|v| v.iter().map(|x| x.1.clone()).collect()).unwrap_or_default();
				let registered = c.handlers.contains_key(&sig);
				let now = c.now;
				c.events.push((now, Ev::Signal(me, sig)));
				if hs.is_empty() && ! registered && sig == 2 {
					finish(c, Outcome::Exit(130));
					drop(g);
					leave();
					return;
				}
				c.threads[me].in_handler = true;
				hs
			};
			for h in hs { h(); }
			if let Some(c) = core().as_mut() { c.threads[me].in_handler = false; }
		}
	}

	/// A scheduling point.
	pub fn point() {
		if let Some(me) = me() {
			if ::std::thread::panicking() { return; }
			switch(me);
			signals(me);
		}
	}

	/// Wait to be woken (by `wake` with the same address, or the deadline).
	/// Returns true if it was the deadline.
	pub fn block(addr: usize, deadline: Option<u64>) -> bool {
		let Some(me) = me() else { return false };
		{
			let mut g = core();
			let Some(c) = g.as_mut() else { return false };
			if c.outcome.is_some() { drop(g); leave(); return true; }
			c.threads[me].timed_out = false;
			c.threads[me].st = match deadline { Some(d) => St::Timed(addr, d), None => St::Wait(addr) };
		}
		loop {
			switch(me);
			signals(me);
			let g = core();
			let Some(c) = g.as_ref() else { return false };
			if c.outcome.is_some() { return true; }
			if c.threads[me].st == St::Run { return c.threads[me].timed_out; }
		}
	}

	/// Make the threads waiting for this address runnable.
	pub fn wake(addr: usize, all: bool) {
		if let Some(c) = core().as_mut() {
			for t in c.threads.iter_mut() {
				match t.st {
					St::Wait(a) | St::Timed(a, _) if a == addr => {
						t.st = St::Run;
						t.timed_out = false;
						if ! all { return; }
					},
					_ => {},
				}
			}
		}
	}

	/// Time goes by without anybody running, as while a process is suspended.
	pub fn jump(ns: u64) {
		point();
		if let Some(c) = core().as_mut() {
			c.now = c.now.saturating_add(ns);
			c.max_time = c.max_time.saturating_add(ns);
		}
	}
	/// From now on writes fail like this.
	pub fn fault(f: Fault) {
		point();
		if let Some(c) = core().as_mut() { c.fault = f; }
		event(Ev::Fault(f != Fault::None));
	}
	pub fn now() -> u64 { core().as_ref().map_or(0, |c| c.now) }
	pub fn event(e: Ev) {
		if let Some(c) = core().as_mut() { if c.outcome.is_none() { let now = c.now; c.events.push((now, e)); } }
	}
	pub fn note(s: String) { if let Some(me) = me() { event(Ev::Note(me, s)); } }
	pub fn size() -> Option<(u16, u16)> {
		let s = core().as_ref().and_then(|c| c.size);
		if let Some(me) = me() { if let Some((w, h)) = s { event(Ev::Query(me, w, h)); } }
		s
	}
	pub fn set_size(s: Option<(u16, u16)>) {
		point();
		if let Some(c) = core().as_mut() {
			c.size = s;
			let now = c.now;
			let (w, h) = s.unwrap_or((0, 0));
			c.events.push((now, Ev::Size(w, h)));
		}
	}
	/// Send a signal to a thread.
	pub fn raise(tid: usize, sig: i32) {
		point();
		if let Some(c) = core().as_mut() {
			let tid = if c.threads[tid].st == St::Ended { c.threads.iter().position(|t| t.st != St::Ended).unwrap_or(0) } else { tid };
			c.threads[tid].pending.push(sig);
		}
		if let Some(me) = me() { signals(me); }
	}
	pub fn exit(code: i32) -> ! {
		point();
		if let Some(c) = core().as_mut() { finish(c, Outcome::Exit(code)); }
		::std::panic::resume_unwind(Box::new(Abort));
	}
	pub fn register(sig: i32, f: Arc<dyn Fn() + Send + Sync>) -> u64 {
		let mut g = core();
		let Some(c) = g.as_mut() else { return 0 };
		c.next_id += 1;
		let id = c.next_id;
		c.handlers.entry(sig).or_default().push((id, f));
		id
	}
	pub fn unregister(id: u64) -> bool {
		let mut g = core();
		let Some(c) = g.as_mut() else { return false };
		let mut hit = false;
		for v in c.handlers.values_mut() {
			let n = v.len();
			v.retain(|x| x.0 != id);
			hit |= v.len() != n;
		}
		hit
	}
	/// How many live threads are there?
	pub fn live() -> usize { core().as_ref().map_or(0, |c| c.threads.iter().filter(|t| t.st != St::Ended).count()) }
	pub fn ended(tid: usize) -> bool { core().as_ref().is_none_or(|c| c.threads[tid].st == St::Ended) }
	pub fn park_token(tid: usize, set: bool) -> bool {
		let mut g = core();
		let Some(c) = g.as_mut() else { return true };
		::std::mem::replace(&mut c.threads[tid].token, set)
	}

	// ------------------------------------------------ the terminal
	pub fn err_lock() {
		let Some(me) = me() else { return };
		loop {
			point();
			{
				let mut g = core();
				let Some(c) = g.as_mut() else { return };
				if c.outcome.is_some() { return; }
				if c.err_owner == Some(me) { c.err_depth += 1; return; }
				if c.err_owner.is_none() {
					c.err_owner = Some(me);
					c.err_depth = 1;
					let now = c.now;
					c.events.push((now, Ev::Lock(me)));
					return;
				}
			}
			block(1, None);
			if over() { leave(); return; }
		}
	}
	pub fn err_unlock() {
		let Some(me) = me() else { return };
		let free = {
			let mut g = core();
			let Some(c) = g.as_mut() else { return };
			if c.err_owner != Some(me) { return; }
			c.err_depth -= 1;
			if c.err_depth == 0 {
				c.err_owner = None;
				if c.outcome.is_none() { let now = c.now; c.events.push((now, Ev::Unlock(me))); }
				true
			} else { false }
		};
		if free { wake(1, true); }
	}
	/// A write through the standard handle, taking some bytes.
	pub fn err_write(parts: &[&[u8]]) -> ::std::io::Result<usize> {
		let all: Vec<u8> = parts.concat();
		let Some(me) = me() else { return Ok(all.len()) };
		if ::std::thread::panicking() { return Ok(all.len()); }
		point();
		let (slow, busy) = {
			let g = core();
			let Some(c) = g.as_ref() else { return Ok(all.len()) };
			(c.slow, c.err_busy == Some(me))
		};
		if busy { panic!("already borrowed: BorrowMutError (a signal handler wrote to stderr inside a write to it)"); }
		if slow {
			if let Some(c) = core().as_mut() { c.err_busy = Some(me); }
			point();
			if let Some(c) = core().as_mut() { c.err_busy = None; }
		}
		put(me, all)
	}
	/// A write straight to the descriptor.
	pub fn raw_write(b: &[u8]) -> ::std::io::Result<usize> {
		let Some(me) = me() else { return Ok(b.len()) };
		if ::std::thread::panicking() { return Ok(b.len()); }
		point();
		put(me, b.to_vec())
	}
	fn put(me: usize, mut all: Vec<u8>) -> ::std::io::Result<usize> {
		let mut g = core();
		let Some(c) = g.as_mut() else { return Ok(all.len()) };
		if c.outcome.is_some() { return Ok(all.len()); }
		match c.fault {
			Fault::None => {},
			Fault::Kind(k) => return Err(::std::io::Error::from(k)),
			Fault::Zero => return Ok(0),
		}
		if c.short != 0 {
			c.writes += 1;
			if c.writes % 5 == 2 { return Err(::std::io::Error::from(::std::io::ErrorKind::Interrupted)); }
			let n = 1 + (c.writes as usize * 7) % c.short;
			all.truncate(n);
		}
		let n = all.len();
		if n != 0 { let now = c.now; c.events.push((now, Ev::Out(me, all))); }
		Ok(n)
	}

	// ------------------------------------------------ threads
	/// Start a simulated thread.
	pub fn spawn(f: Box<dyn FnOnce() + Send>) -> usize {
		let parent = me().expect("outside of a simulation");
		point();
		let tid = {
			let mut g = core();
			let c = g.as_mut().unwrap();
			if c.outcome.is_some() { drop(g); leave(); return 0; }
			add(c);
			let tid = c.threads.len() - 1;
			let now = c.now;
			c.events.push((now, Ev::Spawn(parent, tid)));
			tid
		};
		start(tid, f);
		tid
	}
	fn add(c: &mut Core) {
		c.threads.push(Th { st: St::Run, timed_out: false, pending: Vec::new(), in_handler: false, token: false, calm: false });
		c.alive += 1;
		SEATS.lock().unwrap().push(Arc::new(Seat { go: Mutex::new(c.outcome.is_some()), cv: Condvar::new() }));
	}
	fn start(tid: usize, f: Box<dyn FnOnce() + Send>) {
		let seat = SEATS.lock().unwrap()[tid].clone();
		let h = ::std::thread::Builder::new().stack_size(512 * 1024).spawn(move || {
			ME.with(|m| m.set(tid));
			SEAT.with(|s| *s.borrow_mut() = Some(seat));
			wait_turn();
			if ! over() {
				let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(move || { signals(tid); f() }));
				if let Err(e) = r {
					if ! e.is::<Abort>() {
						// A thread of the scenario itself must not panic.
						let s = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_owned())).unwrap_or_default();
						if let Some(c) = core().as_mut() { finish(c, Outcome::Panic(s)); }
					}
				}
			}
			// The end.
			let next = {
				let mut g = core();
				if let Some(c) = g.as_mut() {
					c.threads[tid].st = St::Ended;
					c.alive -= 1;
					if c.err_owner == Some(tid) { c.err_owner = None; c.err_depth = 0; }
					let n = if c.outcome.is_none() {
						let now = c.now;
						c.events.push((now, Ev::End(tid)));
						for t in c.threads.iter_mut() { if t.st == St::Wait(0x1000 + tid) { t.st = St::Run; } }
						choose(c, tid)
					} else { None };
					if c.alive == 0 {
						*DONE.0.lock().unwrap() = true;
						DONE.1.notify_all();
					}
					n
				} else { None }
			};
			ME.with(|m| m.set(usize::MAX));
			if let Some(n) = next { hand_to(n); }
		}).expect("thread");
		HANDLES.lock().unwrap().push(h);
	}
	/// Wait for a thread's end.
	pub fn join(tid: usize) {
		point();
		while ! ended(tid) {
			if over() { leave(); return; }
			block(0x1000 + tid, None);
		}
	}
	/// Sleep while everything else goes on as if there were a processor for each thread.
	pub fn settle(ns: u64) {
		let Some(me) = me() else { return };
		if let Some(c) = core().as_mut() { c.threads[me].calm = true; }
		sleep(ns);
		if let Some(c) = core().as_mut() { c.threads[me].calm = false; }
	}
	pub fn sleep(ns: u64) {
		let d = now().saturating_add(ns);
		while now() < d {
			block(2, Some(d));
			if over() { leave(); return; }
		}
		if let Some(me) = me() { event(Ev::Wake(me)); }
	}

	/// The processor time this process has used, in hundredths of a second.
	fn spent() -> u64 {
		let s = ::std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
		s.rsplit(')').next().unwrap_or("").split_whitespace().skip(11).take(2).filter_map(|x| x.parse::<u64>().ok()).sum()
	}

	pub struct Config { pub size: Option<(u16, u16)>, pub max_steps: u64, pub max_time: u64, pub short: usize, pub slow: bool }

	/// Run a scenario to its end; its main function is thread zero.
	pub fn run(cfg: &Config, chooser: Box<dyn Chooser>, main: Box<dyn FnOnce() + Send>) -> (Vec<(u64, Ev)>, Outcome) {
		let epoch = EPOCH.fetch_add(1, ::std::sync::atomic::Ordering::SeqCst) + 1;
		SEATS.lock().unwrap().clear();
		*DONE.0.lock().unwrap() = false;
		{
			let mut c = Core {
				epoch, threads: Vec::new(), cur: 0, now: 0, chooser, events: Vec::new(), outcome: None, steps: 0,
				max_steps: cfg.max_steps, max_time: cfg.max_time, size: cfg.size, handlers: BTreeMap::new(), next_id: 0,
				err_owner: None, err_depth: 0, err_busy: None, alive: 0, short: cfg.short, writes: 0, slow: cfg.slow, fault: Fault::None,
			};
			add(&mut c);
			*core() = Some(c);
		}
		start(0, main);
		hand_to(0);
		let (mut waits, mut steps, mut busy) = (0, u64::MAX, 0);
		loop {
			// (Whoever is done holds the core as it says so: the two locks are not to be held here at once.)
			{
				let d = DONE.0.lock().unwrap();
				let (d, t) = DONE.1.wait_timeout_while(d, ::std::time::Duration::from_secs(10), |d| ! *d).unwrap();
				if *d { break; }
				if ! t.timed_out() { continue; }
			}
			// Something real may be stuck: say so then; the process is of no further use.
			let at = core().as_ref().map_or(0, |c| c.steps);
			if at == steps { waits += 1; } else { waits = 0; steps = at; busy = spent(); }
			if waits >= 2 {
				println!("stuck {:?}", core().as_ref().map(|c| (c.outcome.clone(), c.threads.iter().map(|t| (t.st.clone(), t.in_handler)).collect::<Vec<_>>(), c.events.iter().rev().take(6).cloned().collect::<Vec<_>>())));
				// It may only sleep, for something that is no stand-in of ours.
				::std::process::exit(if spent() - busy < 200 { 5 } else { 3 });
			}
		}
		let hs: Vec<_> = HANDLES.lock().unwrap().drain(..).collect();
		for h in hs { let _ = h.join(); }
		let c = core().take().unwrap();
		let _ = c.epoch;
		(c.events, c.outcome.unwrap_or(Outcome::Done))
	}
}

/// `std`, with stand-ins.
pub mod std {
	pub use ::std::*;

	pub mod sync {
		pub use ::std::sync::*;
		pub use super::super::prim::{Mutex, MutexGuard, Condvar, WaitTimeoutResult, RwLock, RwLockReadGuard, RwLockWriteGuard, OnceLock, LazyLock, Barrier};
		pub mod mpsc {
			pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, TryRecvError, SendError};
			pub use super::super::super::prim::{channel, Sender, Receiver};
		}
		pub mod atomic {
			pub use ::std::sync::atomic::*;
			pub use super::super::super::prim::{
				AtomicBool, AtomicU8, AtomicU16, AtomicU32, AtomicU64, AtomicUsize, AtomicI8, AtomicI16, AtomicI32, AtomicI64, AtomicIsize,
			};
		}
	}
	pub mod time {
		pub use ::std::time::*;
		pub use super::super::prim::Instant;
	}
	pub mod thread {
		pub use ::std::thread::*;
		pub use super::super::prim::{spawn, sleep, yield_now, park, park_timeout, current, Thread, JoinHandle, Builder};
	}
	pub mod io {
		pub use ::std::io::*;
		pub use super::super::prim::{stderr, Stderr, StderrLock};
	}
	pub mod fs {
		pub use ::std::fs::*;
		pub use super::super::prim::File;
	}
	pub mod process {
		pub use ::std::process::*;
		pub fn exit(code: i32) -> ! {
			if super::super::sim::me().is_some() { super::super::sim::exit(code) }
			::std::process::exit(code)
		}
	}
}

/// `terminal_size`, with stand-ins.
pub mod terminal_size {
	#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
	pub struct Width(pub u16);
	#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
	pub struct Height(pub u16);
	pub fn terminal_size() -> Option<(Width, Height)> {
		super::sim::me()?;
		super::sim::point();
		super::sim::size().map(|(w, h)| (Width(w), Height(h)))
	}
	pub fn terminal_size_of<T>(_fd: T) -> Option<(Width, Height)> { terminal_size() }
}

/// `signal_hook`, with stand-ins.
pub mod signal_hook {
	pub mod consts {
		pub const SIGINT: i32 = 2;
		pub const SIGTERM: i32 = 15;
		pub const SIGHUP: i32 = 1;
		pub const SIGQUIT: i32 = 3;
		pub const SIGWINCH: i32 = 28;
		pub const SIGUSR1: i32 = 10;
		pub mod signal { pub use super::*; }
	}
	#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
	pub struct SigId(u64);
	pub mod low_level {
		use super::SigId;
		use super::super::sim;
		pub unsafe fn register<F>(sig: i32, f: F) -> Result<SigId, ::std::io::Error>
		where F: Fn() + Sync + Send + 'static {
			sim::point();
			Ok(SigId(sim::register(sig, ::std::sync::Arc::new(f))))
		}
		pub fn unregister(id: SigId) -> bool { sim::point(); sim::unregister(id.0) }
		pub fn exit(code: i32) -> ! {
			if sim::me().is_some() { sim::exit(code) }
			::std::process::exit(code)
		}
		pub fn abort() -> ! { exit(134) }
		pub fn raise(sig: i32) -> Result<(), ::std::io::Error> {
			if let Some(me) = sim::me() { sim::raise(me, sig); }
			Ok(())
		}
		pub fn emulate_default_handler(sig: i32) -> Result<(), ::std::io::Error> {
			if sig == 2 || sig == 15 { exit(128 + sig) }
			Ok(())
		}
	}
	pub mod flag {
		use super::SigId;
		use super::super::prim::{AtomicBool, AtomicUsize};
		use ::std::sync::{Arc, atomic::Ordering::SeqCst};
		pub fn register(sig: i32, flag: Arc<AtomicBool>) -> Result<SigId, ::std::io::Error> {
			unsafe { super::low_level::register(sig, move || flag.store(true, SeqCst)) }
		}
		pub fn register_usize(sig: i32, flag: Arc<AtomicUsize>, value: usize) -> Result<SigId, ::std::io::Error> {
			unsafe { super::low_level::register(sig, move || flag.store(value, SeqCst)) }
		}
		pub fn register_conditional_shutdown(sig: i32, status: i32, flag: Arc<AtomicBool>) -> Result<SigId, ::std::io::Error> {
			unsafe { super::low_level::register(sig, move || if flag.load(SeqCst) { super::low_level::exit(status) }) }
		}
		pub fn register_conditional_default(sig: i32, flag: Arc<AtomicBool>) -> Result<SigId, ::std::io::Error> {
			unsafe { super::low_level::register(sig, move || if flag.load(SeqCst) { super::low_level::exit(128 + sig) }) }
		}
	}
}

/// The stand-ins for the standard library's types.
pub mod prim {
	use super::sim;
	use ::std::cell::UnsafeCell;
	use ::std::fmt;
	use ::std::io;
	use ::std::marker::PhantomData;
	use ::std::ops::{Deref, DerefMut};
	use ::std::sync::{Arc, LockResult, PoisonError, TryLockError, TryLockResult};
	use ::std::sync::atomic::Ordering::{self, SeqCst};
	use ::std::time::Duration;

	fn addr<T: ?Sized>(t: &T) -> usize { (t as *const T).cast::<()>() as usize }
	fn nanos(d: Duration) -> u64 { u64::try_from(d.as_nanos()).unwrap_or(u64::MAX / 4) }

	// ------------------------------------------------ atomics
	macro_rules! atomic_common {
		($name:ident, $ty:ty) => {
			#[derive(Default)]
			pub struct $name(::std::sync::atomic::$name);
			impl fmt::Debug for $name { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) } }
			impl From<$ty> for $name { fn from(v: $ty) -> Self { Self::new(v) } }
			impl $name {
				pub const fn new(v: $ty) -> Self { Self(::std::sync::atomic::$name::new(v)) }
				pub fn load(&self, _o: Ordering) -> $ty { sim::point(); self.0.load(SeqCst) }
				pub fn store(&self, v: $ty, _o: Ordering) { sim::point(); self.0.store(v, SeqCst); }
				pub fn swap(&self, v: $ty, _o: Ordering) -> $ty { sim::point(); self.0.swap(v, SeqCst) }
				pub fn compare_exchange(&self, a: $ty, b: $ty, _s: Ordering, _f: Ordering) -> Result<$ty, $ty> { sim::point(); self.0.compare_exchange(a, b, SeqCst, SeqCst) }
				pub fn compare_exchange_weak(&self, a: $ty, b: $ty, _s: Ordering, _f: Ordering) -> Result<$ty, $ty> { sim::point(); self.0.compare_exchange(a, b, SeqCst, SeqCst) }
				pub fn fetch_and(&self, v: $ty, _o: Ordering) -> $ty { sim::point(); self.0.fetch_and(v, SeqCst) }
				pub fn fetch_or(&self, v: $ty, _o: Ordering) -> $ty { sim::point(); self.0.fetch_or(v, SeqCst) }
				pub fn fetch_xor(&self, v: $ty, _o: Ordering) -> $ty { sim::point(); self.0.fetch_xor(v, SeqCst) }
				pub fn fetch_nand(&self, v: $ty, _o: Ordering) -> $ty { sim::point(); self.0.fetch_nand(v, SeqCst) }
				pub fn fetch_update<F>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$ty, $ty>
				where F: FnMut($ty) -> Option<$ty> {
					let mut cur = self.load(f);
					while let Some(new) = g(cur) {
						match self.compare_exchange(cur, new, s, f) { Ok(x) => return Ok(x), Err(x) => cur = x }
					}
					Err(cur)
				}
				pub fn try_update<F>(&self, s: Ordering, f: Ordering, g: F) -> Result<$ty, $ty>
				where F: FnMut($ty) -> Option<$ty> { self.fetch_update(s, f, g) }
				pub fn update<F>(&self, s: Ordering, f: Ordering, mut g: F) -> $ty
				where F: FnMut($ty) -> $ty {
					match self.fetch_update(s, f, |x| Some(g(x))) { Ok(x) | Err(x) => x }
				}
				pub fn get_mut(&mut self) -> &mut $ty { self.0.get_mut() }
				pub fn into_inner(self) -> $ty { self.0.into_inner() }
			}
		};
	}
	macro_rules! atomic_int {
		($($name:ident $ty:ty),+ $(,)?) => ($(
			atomic_common!($name, $ty);
			impl $name {
				pub fn fetch_add(&self, v: $ty, _o: Ordering) -> $ty { sim::point(); self.0.fetch_add(v, SeqCst) }
				pub fn fetch_sub(&self, v: $ty, _o: Ordering) -> $ty { sim::point(); self.0.fetch_sub(v, SeqCst) }
				pub fn fetch_max(&self, v: $ty, _o: Ordering) -> $ty { sim::point(); self.0.fetch_max(v, SeqCst) }
				pub fn fetch_min(&self, v: $ty, _o: Ordering) -> $ty { sim::point(); self.0.fetch_min(v, SeqCst) }
			}
		)+);
	}
	atomic_int!(
		AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize,
		AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize,
	);
	atomic_common!(AtomicBool, bool);
	impl AtomicBool {
		pub fn fetch_not(&self, _o: Ordering) -> bool { sim::point(); self.0.fetch_xor(true, SeqCst) }
	}

	// ------------------------------------------------ mutex
	pub struct Mutex<T: ?Sized> { held: ::std::sync::atomic::AtomicBool, poison: ::std::sync::atomic::AtomicBool, data: UnsafeCell<T> }
	unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
	unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
	pub struct MutexGuard<'a, T: ?Sized> { m: &'a Mutex<T>, panicking: bool, _p: PhantomData<*const ()> }
	unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}
	impl<T> Mutex<T> {
		pub const fn new(t: T) -> Self {
			Self { held: ::std::sync::atomic::AtomicBool::new(false), poison: ::std::sync::atomic::AtomicBool::new(false), data: UnsafeCell::new(t) }
		}
		pub fn into_inner(self) -> LockResult<T> {
			let p = self.poison.load(SeqCst);
			let v = self.data.into_inner();
			if p { Err(PoisonError::new(v)) } else { Ok(v) }
		}
	}
	impl<T: ?Sized> Mutex<T> {
		fn take(&self) -> bool { ! self.held.swap(true, SeqCst) }
		fn acquire(&self) {
			loop {
				sim::point();
				if self.take() { return; }
				if sim::me().is_none() { ::std::thread::yield_now(); continue; }
				if sim::over() && ::std::thread::panicking() { ::std::thread::yield_now(); continue; }
				sim::block(addr(&self.held), None);
			}
		}
		fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
			let g = MutexGuard { m: self, panicking: ::std::thread::panicking(), _p: PhantomData };
			if self.poison.load(SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
		}
		fn release(&self) {
			self.held.store(false, SeqCst);
			if sim::me().is_some() { sim::wake(addr(&self.held), true); }
		}
		pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> { self.acquire(); self.guard() }
		pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
			sim::point();
			if self.take() { self.guard().map_err(TryLockError::Poisoned) } else { Err(TryLockError::WouldBlock) }
		}
		pub fn is_poisoned(&self) -> bool { self.poison.load(SeqCst) }
		pub fn clear_poison(&self) { self.poison.store(false, SeqCst); }
		pub fn get_mut(&mut self) -> LockResult<&mut T> {
			let p = self.poison.load(SeqCst);
			let v = self.data.get_mut();
			if p { Err(PoisonError::new(v)) } else { Ok(v) }
		}
	}
	impl<T: Default> Default for Mutex<T> { fn default() -> Self { Self::new(T::default()) } }
	impl<T> From<T> for Mutex<T> { fn from(t: T) -> Self { Self::new(t) } }
	impl<T: ?Sized> fmt::Debug for Mutex<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Mutex") } }
	impl<T: ?Sized> Deref for MutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.m.data.get() } } }
	impl<T: ?Sized> DerefMut for MutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.m.data.get() } } }
	impl<T: ?Sized> Drop for MutexGuard<'_, T> {
		fn drop(&mut self) {
			if ! self.panicking && ::std::thread::panicking() && ! sim::over() { self.m.poison.store(true, SeqCst); }
			self.m.release();
		}
	}
	impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
	impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }

	// ------------------------------------------------ condition variable
	#[derive(Debug, PartialEq, Eq, Copy, Clone)]
	pub struct WaitTimeoutResult(bool);
	impl WaitTimeoutResult { pub fn timed_out(&self) -> bool { self.0 } }
	pub struct Condvar { seq: ::std::sync::atomic::AtomicU64 }
	impl Default for Condvar { fn default() -> Self { Self::new() } }
	impl fmt::Debug for Condvar { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Condvar") } }
	impl Condvar {
		pub const fn new() -> Self { Self { seq: ::std::sync::atomic::AtomicU64::new(0) } }
		fn wait_raw<T: ?Sized>(&self, m: &Mutex<T>, dur: Option<Duration>) -> bool {
			let Some(me) = sim::me() else {
				// Without a simulation: poll.
				let t0 = ::std::time::Instant::now();
				let seq = self.seq.load(SeqCst);
				m.release();
				let mut out = false;
				while self.seq.load(SeqCst) == seq {
					if dur.is_some_and(|d| t0.elapsed() >= d) { out = true; break; }
					::std::thread::sleep(Duration::from_micros(200));
				}
				m.acquire();
				return out;
			};
			let d = dur.map(|d| sim::now().saturating_add(nanos(d)));
			// Nothing runs between the release and the wait.
			m.release();
			let out = sim::block(addr(self), d);
			if d.is_some() { sim::event(sim::Ev::Wake(me)); }
			m.acquire();
			out
		}
		pub fn wait<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
			let m = g.m;
			sim::point();
			::std::mem::forget(g);
			self.wait_raw(m, None);
			m.guard()
		}
		pub fn wait_timeout<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>, dur: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
			let m = g.m;
			sim::point();
			::std::mem::forget(g);
			let r = WaitTimeoutResult(self.wait_raw(m, Some(dur)));
			match m.guard() { Ok(g) => Ok((g, r)), Err(e) => Err(PoisonError::new((e.into_inner(), r))) }
		}
		pub fn wait_timeout_ms<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>, ms: u32) -> LockResult<(MutexGuard<'a, T>, bool)> {
			match self.wait_timeout(g, Duration::from_millis(u64::from(ms))) {
				Ok((g, r)) => Ok((g, ! r.0)),
				Err(e) => { let (g, r) = e.into_inner(); Err(PoisonError::new((g, ! r.0))) },
			}
		}
		pub fn wait_while<'a, T: ?Sized, F>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>>
		where F: FnMut(&mut T) -> bool {
			while f(&mut *g) { g = self.wait(g)?; }
			Ok(g)
		}
		pub fn wait_timeout_while<'a, T: ?Sized, F>(&self, mut g: MutexGuard<'a, T>, dur: Duration, mut f: F) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)>
		where F: FnMut(&mut T) -> bool {
			let t0 = Instant::now();
			loop {
				if ! f(&mut *g) { return Ok((g, WaitTimeoutResult(false))); }
				let left = match dur.checked_sub(t0.elapsed()) { Some(x) if ! x.is_zero() => x, _ => return Ok((g, WaitTimeoutResult(true))) };
				g = self.wait_timeout(g, left)?.0;
			}
		}
		pub fn notify_one(&self) { sim::point(); self.seq.fetch_add(1, SeqCst); if sim::me().is_some() { sim::wake(addr(self), false); } }
		pub fn notify_all(&self) { sim::point(); self.seq.fetch_add(1, SeqCst); if sim::me().is_some() { sim::wake(addr(self), true); } }
	}

	// ------------------------------------------------ read-write lock
	pub struct RwLock<T: ?Sized> { state: Mutex<isize>, cv: Condvar, poison: ::std::sync::atomic::AtomicBool, data: UnsafeCell<T> }
	unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
	unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
	pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
	pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
	impl<T> RwLock<T> {
		pub const fn new(t: T) -> Self { Self { state: Mutex::new(0), cv: Condvar::new(), poison: ::std::sync::atomic::AtomicBool::new(false), data: UnsafeCell::new(t) } }
		pub fn into_inner(self) -> LockResult<T> { Ok(self.data.into_inner()) }
	}
	impl<T: Default> Default for RwLock<T> { fn default() -> Self { Self::new(T::default()) } }
	impl<T: ?Sized> fmt::Debug for RwLock<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("RwLock") } }
	impl<T: ?Sized> RwLock<T> {
		pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
			let mut s = self.state.lock().unwrap_or_else(PoisonError::into_inner);
			while *s < 0 { s = self.cv.wait(s).unwrap_or_else(PoisonError::into_inner); }
			*s += 1;
			drop(s);
			let g = RwLockReadGuard(self);
			if self.poison.load(SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
		}
		pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
			let mut s = self.state.lock().unwrap_or_else(PoisonError::into_inner);
			while *s != 0 { s = self.cv.wait(s).unwrap_or_else(PoisonError::into_inner); }
			*s = -1;
			drop(s);
			let g = RwLockWriteGuard(self);
			if self.poison.load(SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
		}
		pub fn get_mut(&mut self) -> LockResult<&mut T> { Ok(self.data.get_mut()) }
		fn free(&self, n: isize) {
			let mut s = self.state.lock().unwrap_or_else(PoisonError::into_inner);
			*s -= n;
			drop(s);
			self.cv.notify_all();
		}
	}
	impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.data.get() } } }
	impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.data.get() } } }
	impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.0.data.get() } } }
	impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> { fn drop(&mut self) { self.0.free(1); } }
	impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
		fn drop(&mut self) {
			if ::std::thread::panicking() && ! sim::over() { self.0.poison.store(true, SeqCst); }
			self.0.free(-1);
		}
	}

	// ------------------------------------------------ once
	/// One value per simulation (statics would otherwise outlive it).
	pub struct OnceLock<T> { m: Mutex<Vec<(u64, *mut T)>> }
	unsafe impl<T: Send> Send for OnceLock<T> {}
	unsafe impl<T: Sync + Send> Sync for OnceLock<T> {}
	impl<T> Default for OnceLock<T> { fn default() -> Self { Self::new() } }
	impl<T> fmt::Debug for OnceLock<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("OnceLock") } }
	impl<T> OnceLock<T> {
		pub const fn new() -> Self { Self { m: Mutex::new(Vec::new()) } }
		fn peek(g: &[(u64, *mut T)]) -> Option<*mut T> { let e = sim::epoch(); g.iter().find(|x| x.0 == e).map(|x| x.1) }
		pub fn get(&self) -> Option<&T> {
			let g = self.m.lock().unwrap_or_else(PoisonError::into_inner);
			Self::peek(&g).map(|p| unsafe { &*p })
		}
		pub fn set(&self, v: T) -> Result<(), T> {
			let mut g = self.m.lock().unwrap_or_else(PoisonError::into_inner);
			if Self::peek(&g).is_some() { return Err(v); }
			g.push((sim::epoch(), Box::into_raw(Box::new(v))));
			Ok(())
		}
		pub fn get_or_init<F>(&self, f: F) -> &T where F: FnOnce() -> T {
			let mut g = self.m.lock().unwrap_or_else(PoisonError::into_inner);
			if let Some(p) = Self::peek(&g) { return unsafe { &*p }; }
			// Forget the values of the simulations before.
			g.clear();
			let p = Box::into_raw(Box::new(f()));
			g.push((sim::epoch(), p));
			unsafe { &*p }
		}
	}
	pub struct LazyLock<T, F = fn() -> T> { o: OnceLock<T>, f: F }
	impl<T, F: Fn() -> T> LazyLock<T, F> {
		pub const fn new(f: F) -> Self { Self { o: OnceLock::new(), f } }
		pub fn force(this: &Self) -> &T { this.o.get_or_init(|| (this.f)()) }
	}
	impl<T, F: Fn() -> T> Deref for LazyLock<T, F> { type Target = T; fn deref(&self) -> &T { Self::force(self) } }
	pub struct Barrier { m: Mutex<(usize, usize)>, cv: Condvar, n: usize }
	impl Barrier {
		pub const fn new(n: usize) -> Self { Self { m: Mutex::new((0, 0)), cv: Condvar::new(), n } }
		pub fn wait(&self) {
			let mut g = self.m.lock().unwrap_or_else(PoisonError::into_inner);
			let gen_ = g.1;
			g.0 += 1;
			if g.0 >= self.n { g.0 = 0; g.1 += 1; drop(g); self.cv.notify_all(); }
			else { while g.1 == gen_ { g = self.cv.wait(g).unwrap_or_else(PoisonError::into_inner); } }
		}
	}

	// ------------------------------------------------ channels
	struct Chan<T> { q: Mutex<(::std::collections::VecDeque<T>, usize, bool)>, cv: Condvar }
	pub struct Sender<T>(Arc<Chan<T>>);
	pub struct Receiver<T>(Arc<Chan<T>>);
	pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
		let c = Arc::new(Chan { q: Mutex::new((::std::collections::VecDeque::new(), 1, true)), cv: Condvar::new() });
		(Sender(c.clone()), Receiver(c))
	}
	impl<T> fmt::Debug for Sender<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Sender") } }
	impl<T> fmt::Debug for Receiver<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Receiver") } }
	impl<T> Clone for Sender<T> { fn clone(&self) -> Self { self.0.q.lock().unwrap_or_else(PoisonError::into_inner).1 += 1; Self(self.0.clone()) } }
	impl<T> Drop for Sender<T> { fn drop(&mut self) { self.0.q.lock().unwrap_or_else(PoisonError::into_inner).1 -= 1; self.0.cv.notify_all(); } }
	impl<T> Drop for Receiver<T> { fn drop(&mut self) { self.0.q.lock().unwrap_or_else(PoisonError::into_inner).2 = false; } }
	impl<T> Sender<T> {
		pub fn send(&self, t: T) -> Result<(), ::std::sync::mpsc::SendError<T>> {
			let mut g = self.0.q.lock().unwrap_or_else(PoisonError::into_inner);
			if ! g.2 { return Err(::std::sync::mpsc::SendError(t)); }
			g.0.push_back(t);
			drop(g);
			self.0.cv.notify_all();
			Ok(())
		}
	}
	impl<T> Receiver<T> {
		pub fn try_recv(&self) -> Result<T, ::std::sync::mpsc::TryRecvError> {
			let mut g = self.0.q.lock().unwrap_or_else(PoisonError::into_inner);
			match g.0.pop_front() {
				Some(t) => Ok(t),
				None if g.1 == 0 => Err(::std::sync::mpsc::TryRecvError::Disconnected),
				None => Err(::std::sync::mpsc::TryRecvError::Empty),
			}
		}
		pub fn recv(&self) -> Result<T, ::std::sync::mpsc::RecvError> {
			let mut g = self.0.q.lock().unwrap_or_else(PoisonError::into_inner);
			loop {
				if let Some(t) = g.0.pop_front() { return Ok(t); }
				if g.1 == 0 { return Err(::std::sync::mpsc::RecvError); }
				g = self.0.cv.wait(g).unwrap_or_else(PoisonError::into_inner);
			}
		}
		pub fn recv_timeout(&self, d: Duration) -> Result<T, ::std::sync::mpsc::RecvTimeoutError> {
			let t0 = Instant::now();
			let mut g = self.0.q.lock().unwrap_or_else(PoisonError::into_inner);
			loop {
				if let Some(t) = g.0.pop_front() { return Ok(t); }
				if g.1 == 0 { return Err(::std::sync::mpsc::RecvTimeoutError::Disconnected); }
				let left = match d.checked_sub(t0.elapsed()) { Some(x) if ! x.is_zero() => x, _ => return Err(::std::sync::mpsc::RecvTimeoutError::Timeout) };
				g = self.0.cv.wait_timeout(g, left).unwrap_or_else(PoisonError::into_inner).0;
			}
		}
	}

	// ------------------------------------------------ time
	#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
	pub struct Instant(u64);
	fn real_base() -> &'static ::std::time::Instant {
		static B: ::std::sync::OnceLock<::std::time::Instant> = ::std::sync::OnceLock::new();
		B.get_or_init(::std::time::Instant::now)
	}
	impl Instant {
		pub fn now() -> Self {
			if sim::me().is_some() { Self(1_000_000_000_000 + sim::now()) } else { Self(nanos(real_base().elapsed())) }
		}
		pub fn elapsed(&self) -> Duration { Self::now().saturating_duration_since(*self) }
		pub fn duration_since(&self, o: Self) -> Duration { self.saturating_duration_since(o) }
		pub fn saturating_duration_since(&self, o: Self) -> Duration { Duration::from_nanos(self.0.saturating_sub(o.0)) }
		pub fn checked_duration_since(&self, o: Self) -> Option<Duration> { self.0.checked_sub(o.0).map(Duration::from_nanos) }
		pub fn checked_add(&self, d: Duration) -> Option<Self> { self.0.checked_add(u64::try_from(d.as_nanos()).ok()?).map(Self) }
		pub fn checked_sub(&self, d: Duration) -> Option<Self> { self.0.checked_sub(u64::try_from(d.as_nanos()).ok()?).map(Self) }
	}
	impl ::std::ops::Add<Duration> for Instant { type Output = Self; fn add(self, d: Duration) -> Self { Self(self.0 + nanos(d)) } }
	impl ::std::ops::AddAssign<Duration> for Instant { fn add_assign(&mut self, d: Duration) { self.0 += nanos(d); } }
	impl ::std::ops::Sub<Duration> for Instant { type Output = Self; fn sub(self, d: Duration) -> Self { Self(self.0 - nanos(d)) } }
	impl ::std::ops::SubAssign<Duration> for Instant { fn sub_assign(&mut self, d: Duration) { self.0 -= nanos(d); } }
	impl ::std::ops::Sub for Instant { type Output = Duration; fn sub(self, o: Self) -> Duration { self.saturating_duration_since(o) } }
	#[cfg(feature = "progress")]
	impl From<Instant> for dactyl::NiceElapsed { fn from(i: Instant) -> Self { Self::from(i.elapsed()) } }
	#[cfg(feature = "progress")]
	impl From<Instant> for dactyl::NiceClock { fn from(i: Instant) -> Self { Self::from(i.elapsed()) } }

	// ------------------------------------------------ threads
	enum Real<T> { Sim(usize, Arc<::std::sync::Mutex<Option<::std::thread::Result<T>>>>), Real(::std::thread::JoinHandle<T>) }
	pub struct JoinHandle<T>(Real<T>);
	impl<T> fmt::Debug for JoinHandle<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("JoinHandle") } }
	#[derive(Clone, Debug)]
	pub struct Thread(Option<usize>);
	impl Thread {
		pub fn unpark(&self) {
			if let Some(t) = self.0 { sim::point(); sim::park_token(t, true); sim::wake(0x4000_0000 + t, true); }
		}
		pub fn id(&self) -> usize { self.0.unwrap_or(usize::MAX) }
		pub fn name(&self) -> Option<&str> { None }
	}
	pub fn current() -> Thread { Thread(sim::me()) }
	pub fn park() {
		if let Some(me) = sim::me() {
			sim::point();
			while ! sim::park_token(me, false) { sim::block(0x4000_0000 + me, None); }
		} else { ::std::thread::park(); }
	}
	pub fn park_timeout(d: Duration) {
		if let Some(me) = sim::me() {
			sim::point();
			if ! sim::park_token(me, false) {
				sim::block(0x4000_0000 + me, Some(sim::now().saturating_add(nanos(d))));
				sim::park_token(me, false);
				sim::event(sim::Ev::Wake(me));
			}
		} else { ::std::thread::park_timeout(d); }
	}
	pub fn spawn<F, T>(f: F) -> JoinHandle<T>
	where F: FnOnce() -> T + Send + 'static, T: Send + 'static {
		if sim::me().is_none() { return JoinHandle(Real::Real(::std::thread::spawn(f))); }
		let slot = Arc::new(::std::sync::Mutex::new(None));
		let s2 = slot.clone();
		let tid = sim::spawn(Box::new(move || {
			match ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(f)) {
				Ok(v) => { *s2.lock().unwrap() = Some(Ok(v)); },
				Err(e) => {
					if e.is::<sim::Abort>() { ::std::panic::resume_unwind(e); }
					let s = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_owned())).unwrap_or_default();
					sim::note(format!("panic {}", s.replace(char::is_whitespace, "_")));
					*s2.lock().unwrap() = Some(Err(e));
				},
			}
		}));
		JoinHandle(Real::Sim(tid, slot))
	}
	impl<T> JoinHandle<T> {
		pub fn join(self) -> ::std::thread::Result<T> {
			match self.0 {
				Real::Real(h) => h.join(),
				Real::Sim(tid, slot) => {
					sim::join(tid);
					let x = slot.lock().unwrap().take();
					match x {
						Some(r) => r,
						// The simulation is over: stay away from its remains.
						None => {
							if ! ::std::thread::panicking() { ::std::panic::resume_unwind(Box::new(sim::Abort)); }
							if ::std::mem::size_of::<T>() == 0 { return Ok(unsafe { ::std::mem::MaybeUninit::<T>::uninit().assume_init() }); }
							loop { ::std::thread::sleep(Duration::from_secs(3600)); }
						},
					}
				},
			}
		}
		pub fn is_finished(&self) -> bool {
			match &self.0 { Real::Real(h) => h.is_finished(), Real::Sim(t, _) => { sim::point(); sim::ended(*t) } }
		}
		pub fn thread(&self) -> &Thread { Box::leak(Box::new(Thread(match &self.0 { Real::Sim(t, _) => Some(*t), Real::Real(_) => None }))) }
	}
	#[derive(Debug, Default)]
	pub struct Builder(());
	impl Builder {
		pub fn new() -> Self { Self(()) }
		pub fn name(self, _n: String) -> Self { self }
		pub fn stack_size(self, _n: usize) -> Self { self }
		pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
		where F: FnOnce() -> T + Send + 'static, T: Send + 'static { Ok(spawn(f)) }
	}
	pub fn sleep(d: Duration) {
		if sim::me().is_some() { sim::point(); sim::sleep(nanos(d)); } else { ::std::thread::sleep(d); }
	}
	pub fn yield_now() { if sim::me().is_some() { sim::point(); } else { ::std::thread::yield_now(); } }

	// ------------------------------------------------ the terminal
	#[derive(Debug)]
	pub struct Stderr(());
	#[derive(Debug)]
	pub struct StderrLock<'a>(Option<io::StderrLock<'static>>, PhantomData<&'a ()>);
	pub fn stderr() -> Stderr { Stderr(()) }
	impl Stderr {
		pub fn lock(&self) -> StderrLock<'static> {
			if sim::me().is_some() { sim::err_lock(); StderrLock(None, PhantomData) }
			else { StderrLock(Some(io::stderr().lock()), PhantomData) }
		}
		pub fn is_terminal(&self) -> bool { true }
	}
	impl Drop for StderrLock<'_> { fn drop(&mut self) { if self.0.is_none() { sim::err_unlock(); } } }
	impl io::Write for StderrLock<'_> {
		fn write(&mut self, b: &[u8]) -> io::Result<usize> {
			match &mut self.0 { Some(h) => h.write(b), None => if b.is_empty() { Ok(0) } else { sim::err_write(&[b]) } }
		}
		fn write_vectored(&mut self, b: &[io::IoSlice<'_>]) -> io::Result<usize> {
			match &mut self.0 {
				Some(h) => h.write_vectored(b),
				None => {
					// As the system would, in one go (up to its limit of slices).
					let parts: Vec<&[u8]> = b.iter().take(1024).map(|s| &**s).collect();
					if parts.iter().all(|p| p.is_empty()) { Ok(0) } else { sim::err_write(&parts) }
				},
			}
		}
		fn flush(&mut self) -> io::Result<()> { Ok(()) }
	}
	impl io::Write for Stderr {
		fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.lock().write(b) }
		fn write_vectored(&mut self, b: &[io::IoSlice<'_>]) -> io::Result<usize> { self.lock().write_vectored(b) }
		fn write_all(&mut self, b: &[u8]) -> io::Result<()> { self.lock().write_all(b) }
		fn write_fmt(&mut self, a: fmt::Arguments<'_>) -> io::Result<()> { self.lock().write_fmt(a) }
		fn flush(&mut self) -> io::Result<()> { Ok(()) }
	}
	impl io::Write for &Stderr {
		fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.lock().write(b) }
		fn write_all(&mut self, b: &[u8]) -> io::Result<()> { self.lock().write_all(b) }
		fn write_fmt(&mut self, a: fmt::Arguments<'_>) -> io::Result<()> { self.lock().write_fmt(a) }
		fn flush(&mut self) -> io::Result<()> { Ok(()) }
	}
	impl ::std::os::fd::AsFd for Stderr { fn as_fd(&self) -> ::std::os::fd::BorrowedFd<'_> { unsafe { ::std::os::fd::BorrowedFd::borrow_raw(2) } } }
	impl ::std::os::fd::AsFd for StderrLock<'_> { fn as_fd(&self) -> ::std::os::fd::BorrowedFd<'_> { unsafe { ::std::os::fd::BorrowedFd::borrow_raw(2) } } }
	impl ::std::os::fd::AsRawFd for Stderr { fn as_raw_fd(&self) -> i32 { 2 } }
	impl ::std::os::fd::AsRawFd for StderrLock<'_> { fn as_raw_fd(&self) -> i32 { 2 } }

	/// Only what writing to a descriptor takes.
	#[derive(Debug)]
	pub struct File(::std::mem::ManuallyDrop<::std::fs::File>, bool);
	impl ::std::os::fd::FromRawFd for File {
		unsafe fn from_raw_fd(fd: i32) -> Self {
			let f = unsafe { <::std::fs::File as ::std::os::fd::FromRawFd>::from_raw_fd(fd) };
			Self(::std::mem::ManuallyDrop::new(f), fd == 2)
		}
	}
	impl io::Write for File {
		fn write(&mut self, b: &[u8]) -> io::Result<usize> {
			if self.1 && sim::me().is_some() { sim::raw_write(b) } else { self.0.write(b) }
		}
		fn flush(&mut self) -> io::Result<()> { Ok(()) }
	}

	pub fn eprint_args(a: fmt::Arguments<'_>) {
		use io::Write;
		if sim::me().is_none() { ::std::eprint!("{a}"); return; }
		// As the original, which formats piece by piece; all of this crate's are a single one.
		let s = a.to_string();
		let mut h = stderr().lock();
		if let Err(e) = h.write_all(s.as_bytes()) { panic!("failed printing to stderr: {e}"); }
	}
}

macro_rules! eprint { ($($t:tt)*) => ($crate::verif::prim::eprint_args(::std::format_args!($($t)*))); }
macro_rules! eprintln {
	() => ($crate::verif::prim::eprint_args(::std::format_args!("\n")));
	($($t:tt)*) => ($crate::verif::prim::eprint_args(::std::format_args!("{}\n", ::std::format_args!($($t)*))));
}
pub(crate) use {eprint, eprintln};
