//! A terminal, as far as the program's output needs one.
use unicode_width::UnicodeWidthChar;

#[derive(Clone, Default)]
struct Line { cells: Vec<(String, String)>, wrapped: bool }

pub struct Term {
	cols: usize,
	rows: usize,
	lines: Vec<Line>,
	/// First visible line.
	top: usize,
	pub row: usize,
	pub col: usize,
	pub visible: bool,
	/// Times a line was wrapped.
	pub wraps: usize,
	/// Times the cursor was asked to leave the screen upwards.
	pub lost: usize,
	/// Anything unexpected.
	pub odd: usize,
	state: u8,
	seq: String,
	/// Formatting in force: the codes since the last reset.
	style: String,
	utf: Vec<u8>,
}

impl Term {
	pub fn new(size: (u16, u16)) -> Self {
		Self {
			cols: usize::from(size.0), rows: usize::from(size.1), lines: vec![Line::default()], top: 0, row: 0, col: 0, visible: true,
			wraps: 0, lost: 0, odd: 0, state: 0, seq: String::new(), style: String::new(), utf: Vec::new(),
		}
	}
	pub fn resize(&mut self, size: (u16, u16)) {
		self.cols = usize::from(size.0);
		self.rows = usize::from(size.1);
		if self.row >= self.top + self.rows { self.top = self.row + 1 - self.rows; }
	}
	fn down(&mut self) {
		self.row += 1;
		while self.lines.len() <= self.row { self.lines.push(Line::default()); }
		if self.row >= self.top + self.rows { self.top = self.row + 1 - self.rows; }
	}
	fn put(&mut self, c: char) {
		let w = c.width().unwrap_or(0);
		if w == 0 {
			let l = &mut self.lines[self.row];
			if self.col > 0 && self.col <= l.cells.len() {
				let mut i = self.col - 1;
				while i > 0 && l.cells[i].0.is_empty() { i -= 1; }
				l.cells[i].0.push(c);
			}
			else if self.col == 0 {
				// Nothing to attach to.
				if l.cells.is_empty() { l.cells.push(Default::default()); }
				l.cells[0].0.push(c);
			}
			return;
		}
		if self.col + w > self.cols {
			self.wraps += 1;
			self.lines[self.row].wrapped = true;
			self.down();
			self.lines[self.row] = Line::default();
			self.col = 0;
		}
		let l = &mut self.lines[self.row];
		while l.cells.len() < self.col + w { l.cells.push((" ".to_owned(), String::new())); }
		l.cells[self.col] = (c.to_string(), self.style.clone());
		if w == 2 { l.cells[self.col + 1] = (String::new(), self.style.clone()); }
		self.col += w;
	}
	fn csi(&mut self) {
		let s = std::mem::take(&mut self.seq);
		let f = s.chars().last().unwrap_or(' ');
		let p = &s[..s.len() - f.len_utf8()];
		match f {
			'm' => for x in p.split(';') {
				if x.trim_start_matches('0').is_empty() { self.style.clear(); }
				else { if ! self.style.is_empty() { self.style.push(';'); } self.style.push_str(x); }
			},
			'J' if p.is_empty() || p == "0" => {
				let col = self.col;
				let l = &mut self.lines[self.row];
				l.cells.truncate(col);
				l.wrapped = false;
				let r = self.row + 1;
				self.lines.truncate(r);
			},
			'J' if p == "2" => { self.lines.truncate(self.top); while self.lines.len() <= self.row { self.lines.push(Line::default()); } },
			'K' if p.is_empty() || p == "0" => { let col = self.col; let l = &mut self.lines[self.row]; l.cells.truncate(col); l.wrapped = false; },
			'K' if p == "2" => { let l = &mut self.lines[self.row]; l.cells.clear(); l.wrapped = false; },
			'A' => {
				let n = p.parse::<usize>().unwrap_or(1).max(1);
				if self.row - self.top < n { self.lost += 1; self.row = self.top; } else { self.row -= n; }
			},
			'B' => { let n = p.parse::<usize>().unwrap_or(1).max(1); for _ in 0..n { if self.row + 1 < self.top + self.rows { self.down(); } } },
			'C' => self.col = (self.col + p.parse::<usize>().unwrap_or(1).max(1)).min(self.cols.saturating_sub(1)),
			'D' => self.col = self.col.saturating_sub(p.parse::<usize>().unwrap_or(1).max(1)),
			'G' => self.col = p.parse::<usize>().unwrap_or(1).max(1) - 1,
			'F' => { let n = p.parse::<usize>().unwrap_or(1).max(1); if self.row - self.top < n { self.lost += 1; self.row = self.top; } else { self.row -= n; } self.col = 0; },
			'l' if p == "?25" => self.visible = false,
			'h' if p == "?25" => self.visible = true,
			_ => self.odd += 1,
		}
	}
	pub fn feed(&mut self, b: &[u8]) {
		self.utf.extend_from_slice(b);
		let bytes = std::mem::take(&mut self.utf);
		let (s, rest) = match std::str::from_utf8(&bytes) {
			Ok(s) => (s.to_owned(), Vec::new()),
			Err(e) => {
				let n = e.valid_up_to();
				if e.error_len().is_some() { self.odd += 1; (String::from_utf8_lossy(&bytes).into_owned(), Vec::new()) }
				else { (std::str::from_utf8(&bytes[..n]).unwrap().to_owned(), bytes[n..].to_vec()) }
			},
		};
		self.utf = rest;
		for c in s.chars() {
			match self.state {
				1 => match c {
					'[' => { self.state = 2; self.seq.clear(); },
					']' => self.state = 3,
					_ => { self.state = 0; self.odd += 1; },
				},
				2 => { self.seq.push(c); if ('@'..='~').contains(&c) { self.state = 0; self.csi(); } },
				3 => { if c == '\x07' { self.state = 0; } else if c == '\x1b' { self.state = 4; } },
				4 => self.state = if c == '\\' { 0 } else { 3 },
				_ => match c {
					'\x1b' => self.state = 1,
					'\n' => { self.col = 0; self.down(); },
					'\r' => self.col = 0,
					'\t' => self.col = ((self.col / 8 + 1) * 8).min(self.cols.saturating_sub(1)),
					'\x08' => self.col = self.col.saturating_sub(1),
					c if c.is_control() => self.odd += 1,
					c => self.put(c),
				},
			}
		}
	}
	/// The lines above the cursor (wrapped ones joined, with their formatting)
	/// and the picture from it down (without).
	pub fn view(&self) -> (Vec<String>, Vec<String>) {
		let mut log: Vec<String> = Vec::new();
		let mut glue = false;
		let mut style = String::new();
		for l in &self.lines[..self.row] {
			if ! glue { log.push(String::new()); style.clear(); }
			let k = log.len() - 1;
			for (c, s) in &l.cells {
				if c.is_empty() { continue; }
				if *s != style {
					log[k].push_str("\x1b[");
					log[k].push_str(if s.is_empty() { "0" } else { s });
					log[k].push('m');
					style.clone_from(s);
				}
				log[k].push_str(c);
			}
			glue = l.wrapped;
		}
		let mut pic: Vec<String> = self.lines[self.row..].iter().map(|l| l.cells.iter().map(|c| c.0.as_str()).collect()).collect();
		while pic.last().is_some_and(|s| s.trim().is_empty()) { pic.pop(); }
		(log, pic)
	}
}
