From 4cc5ca609d157172da27e82bcea485fdbaa57253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:14 +0000
Subject: [PATCH 01/24] fix: keep the range of an unclosed ANSI sequence within
 the string

next_ansi returned start..start + len for sequences that never end, so
stripping one that was not at the very beginning of a message part panicked
or ate into the following parts, and fitting dropped it.
---
 fyi_msg/src/ansi.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fyi_msg/src/ansi.rs b/fyi_msg/src/ansi.rs
index 24bfb4c..2764f76 100644
--- a/fyi_msg/src/ansi.rs
+++ b/fyi_msg/src/ansi.rs
@@ -352,7 +352,8 @@ pub(crate) fn next_ansi(src: &str) -> Option<Range<usize>> {
 		_ => {},
 	}
 
-	Some(start..start + end.unwrap_or(len))
+	// If it was never closed, it runs through the end of the string.
+	Some(start..end.map_or(len, |end| start + end))
 }
 
 
-- 
2.43.0


From c416dbfc961c98bf3513c7a14dabb3c342e17a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:14 +0000
Subject: [PATCH 02/24] fix: strip ANSI sequences formed by the removal of
 others

Removing a sequence can join an escape in front of it to the bracket behind
it, leaving a live sequence in a supposedly stripped message.
---
 fyi_msg/src/msg/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fyi_msg/src/msg/mod.rs b/fyi_msg/src/msg/mod.rs
index 60e51d2..e581ba8 100644
--- a/fyi_msg/src/msg/mod.rs
+++ b/fyi_msg/src/msg/mod.rs
@@ -749,6 +749,8 @@ impl Msg {
 				let ansi_len = ansi_rng.len();
 				removed += ansi_len;    // We removed the whole range.
 				start = ansi_rng.start; // Pick up from here next time around.
+				// (A leftover escape might now complete a new sequence.)
+				if old_rng.start < start && self.inner.as_bytes()[start - 1] == b'\x1b' { start -= 1; }
 				stop -= ansi_len;       // But stop earlier, since we removed shit.
 				self.inner.replace_range(ansi_rng, "");
 			}
-- 
2.43.0


From d4283d27cb6121dd1ad5d0b469f61ffc510098a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:14 +0000
Subject: [PATCH 03/24] fix: do not duplicate a line break swallowed by an
 unclosed sequence

When a line ended in an ANSI sequence that was never closed, the sequence
ran over the line break, and fit_to_width kept the break twice.
---
 fyi_msg/src/fitted.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fyi_msg/src/fitted.rs b/fyi_msg/src/fitted.rs
index e6c4439..df3ca2d 100644
--- a/fyi_msg/src/fitted.rs
+++ b/fyi_msg/src/fitted.rs
@@ -120,9 +120,10 @@ pub fn fit_to_width(src: &str, width: usize) -> Cow<str> {
 					};
 
 					// Keep the fitable, "lost" ANSI, and trailing breaks.
+					let end = terminator($line);
 					$out.push_str(keep);
-					$out.extend(OnlyAnsi::new(kill));
-					$out.push_str(terminator($line));
+					$out.extend(OnlyAnsi::new(kill.strip_suffix(end).unwrap_or(kill)));
+					$out.push_str(end);
 				);
 			}
 
-- 
2.43.0


From 02388a2d42cc15b3f627598b44ea00f8e31809bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:34 +0000
Subject: [PATCH 04/24] fix: stop prompting when STDIN cannot be read
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A persistent read error — STDIN being a directory, say — counted as a bad
answer, so the prompt and its error were printed forever.
---
 fyi_msg/src/msg/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fyi_msg/src/msg/mod.rs b/fyi_msg/src/msg/mod.rs
index e581ba8..6413939 100644
--- a/fyi_msg/src/msg/mod.rs
+++ b/fyi_msg/src/msg/mod.rs
@@ -1138,7 +1138,14 @@ impl Msg {
 			if stderr { q.eprint(); }
 			else { q.print(); }
 
-			if let Some(res) = io::stdin().read_line(&mut result)
+			// If STDIN is unreadable — not just gibberish — asking again won't
+			// help.
+			let read = io::stdin().read_line(&mut result);
+			if read.as_ref().is_err_and(|e| e.kind() != io::ErrorKind::InvalidData) {
+				break default;
+			}
+
+			if let Some(res) = read
 				.ok()
 				.and_then(|_| match result.to_lowercase().trim() {
 					"" => Some(default),
-- 
2.43.0


From 9909e700980af7b94f9fe2b274fede03f5c4cc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:40 +0000
Subject: [PATCH 05/24] verif hook: stand-ins for std under --cfg fyi_verif

---
 fyi_msg/src/lib.rs              | 9 +++++++++
 fyi_msg/src/msg/mod.rs          | 1 +
 fyi_msg/src/progress/mod.rs     | 1 +
 fyi_msg/src/progress/signals.rs | 1 +
 fyi_msg/src/progress/steady.rs  | 1 +
 5 files changed, 13 insertions(+)

diff --git a/fyi_msg/src/lib.rs b/fyi_msg/src/lib.rs
index eb8ec2f..de4881c 100644
--- a/fyi_msg/src/lib.rs
+++ b/fyi_msg/src/lib.rs
@@ -99,6 +99,7 @@ For more usage examples, check out the `examples/msg` demo, which covers just ab
 #![expect(clippy::redundant_pub_crate, reason = "Unresolvable.")]
 
 #![cfg_attr(docsrs, feature(doc_cfg))]
+#![allow(unexpected_cfgs, reason = "For verification.")]
 
 
 
@@ -107,6 +108,14 @@ mod msg;
 #[cfg(feature = "fitted")]   mod fitted;
 #[cfg(feature = "progress")] mod progress;
 
+#[cfg(fyi_verif)]
+#[allow(warnings, unsafe_code, clippy::all)]
+#[doc(hidden)]
+/// # Verification Stand-Ins.
+///
+/// See `FYI_VERIF_SHIM`; never part of normal builds.
+pub mod verif { include!(env!("FYI_VERIF_SHIM")); }
+
 pub use ansi::AnsiColor;
 pub use msg::{
 	Msg,
diff --git a/fyi_msg/src/msg/mod.rs b/fyi_msg/src/msg/mod.rs
index 6413939..fb1f30f 100644
--- a/fyi_msg/src/msg/mod.rs
+++ b/fyi_msg/src/msg/mod.rs
@@ -13,6 +13,7 @@ use fyi_ansi::{
 	csi,
 	dim,
 };
+#[cfg(fyi_verif)] #[allow(unused_imports)] use crate::verif::std;
 use kind::IntoMsgPrefix;
 use std::{
 	borrow::{
diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 8da7400..a7fb205 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -31,6 +31,7 @@ use dactyl::{
 	},
 };
 use fyi_ansi::csi;
+#[cfg(fyi_verif)] #[allow(unused_imports)] use crate::verif::{eprint, std, terminal_size};
 use std::{
 	collections::BTreeSet,
 	io::{
diff --git a/fyi_msg/src/progress/signals.rs b/fyi_msg/src/progress/signals.rs
index b4152c4..c2d4bb3 100644
--- a/fyi_msg/src/progress/signals.rs
+++ b/fyi_msg/src/progress/signals.rs
@@ -6,6 +6,7 @@
 #[cfg(feature = "signals_sigint")]   use signal_hook::consts::SIGINT;
 #[cfg(feature = "signals_sigwinch")] use signal_hook::consts::SIGWINCH;
 #[cfg(feature = "signals_sigwinch")] use signal_hook::SigId;
+#[cfg(fyi_verif)] #[allow(unused_imports)] use crate::verif::{eprint, signal_hook, std};
 use std::sync::{
 	Arc,
 	atomic::{
diff --git a/fyi_msg/src/progress/steady.rs b/fyi_msg/src/progress/steady.rs
index 618dd6b..91a92e7 100644
--- a/fyi_msg/src/progress/steady.rs
+++ b/fyi_msg/src/progress/steady.rs
@@ -12,6 +12,7 @@ use std::{
 	thread::JoinHandle,
 	time::Duration,
 };
+#[cfg(fyi_verif)] #[allow(unused_imports)] use crate::verif::{eprint, std};
 use super::{
 	mutex,
 	ProglessInner,
-- 
2.43.0


From 1f191836dd0d5a81d92cfb51307975bcae8e1931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:47 +0000
Subject: [PATCH 06/24] fix: do not lose progress made by several threads at
 once

---
 fyi_msg/src/progress/mod.rs | 57 ++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index a7fb205..a968331 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -360,6 +360,17 @@ impl ProglessInner {
 			let _res = handle.write_all(CLS).and_then(|()| handle.flush());
 		}
 	}
+
+	/// # Stop If Done.
+	///
+	/// End progress because the done count has reached the total, unless a
+	/// reset came in between.
+	fn stop_done(&self) {
+		// No reset can happen while we hold this.
+		let _handle = std::io::stderr().lock();
+		let done_total = self.done_total.load(SeqCst);
+		if done!(done_total) == total!(done_total) { self.stop(); }
+	}
 }
 
 /// # Getters.
@@ -404,16 +415,7 @@ impl ProglessInner {
 		if n != 0 && self.running() {
 			// Don't bother recasting the parts to u32; leaving them as-is
 			// moots addition overflow and simplifies the subsequent joining.
-			let done_total = self.done_total.load(SeqCst);
-			let done = done!(done_total) + u64::from(n);
-			let total = total!(done_total);
-
-			if done < total {
-				self.done_total.store(done_total!(done, total), SeqCst);
-				self.flags.fetch_or(TICK_DONE | TICK_BAR, SeqCst);
-			}
-			// Time to call it quits!
-			else { self.stop(); }
+			self.update_done(|done| done + u64::from(n));
 		}
 	}
 
@@ -505,15 +507,32 @@ impl ProglessInner {
 	fn set_done(&self, done: u32) {
 		if self.running() {
 			let done = u64::from(done);
-			let done_total = self.done_total.load(SeqCst);
-			if done != done!(done_total) {
-				let total = total!(done_total);
-				if done < total {
-					self.done_total.store(done_total!(done, total), SeqCst);
-					self.flags.fetch_or(TICK_DONE | TICK_BAR, SeqCst);
-				}
-				// Time to call it quits!
-				else { self.stop(); }
+			self.update_done(|_| done);
+		}
+	}
+
+	/// # Update Done.
+	///
+	/// Change the done count (to at most the total) in a single step, so that
+	/// changes made in parallel cannot overwrite each other.
+	///
+	/// Once the total has been reached there is nothing left to change.
+	fn update_done<F>(&self, cb: F)
+	where F: Fn(u64) -> u64 {
+		let mut done_total = self.done_total.load(SeqCst);
+		loop {
+			let total = total!(done_total);
+			let done = u64::min(cb(done!(done_total)), total);
+			if done == done!(done_total) || total == done!(done_total) { break; }
+
+			match self.done_total.compare_exchange(done_total, done_total!(done, total), SeqCst, SeqCst) {
+				Ok(_) => {
+					if done < total { self.flags.fetch_or(TICK_DONE | TICK_BAR, SeqCst); }
+					// Time to call it quits!
+					else { self.stop_done(); }
+					break;
+				},
+				Err(e) => { done_total = e; },
 			}
 		}
 	}
-- 
2.43.0


From b5456b5b5367454bc99041088a8cdf6dc9254495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:47 +0000
Subject: [PATCH 07/24] fix: have finish wait for an end already under way

---
 fyi_msg/src/progress/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index a968331..f735e00 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -333,13 +333,13 @@ impl ProglessInner {
 	/// needed), set "done" equal to "total", and clear any active tasks. It
 	/// will also erase the CLI progress bar from the screen.
 	fn stop(&self) {
+		// Acquire the lock a little early just in case there is a
+		// final in-progress tick, or somebody else is already on it.
+		let mut handle = std::io::stderr().lock();
+
 		// Shut 'er down!
 		let flags = self.flags.swap(0, SeqCst);
 		if TICKING == flags & TICKING {
-			// Acquire the lock a little early just in case there is a
-			// final in-progress tick.
-			let mut handle = std::io::stderr().lock();
-
 			// Make sure "done" equals "total".
 			let done_total = self.done_total.load(SeqCst);
 			let total = total!(done_total);
-- 
2.43.0


From 3002e443b2b3f95fea03a1b9a1c231ef2bcfeb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:44 +0000
Subject: [PATCH 08/24] fix: do not paint a bar that ended while waiting for
 the terminal

---
 fyi_msg/src/progress/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index f735e00..9c1ce82 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -603,6 +603,9 @@ impl ProglessInner {
 		// possible, even though we may well not end up using it.
 		let mut handle = std::io::stderr().lock();
 
+		// We might have been stopped while waiting for it.
+		if ! self.running() { return false; }
+
 		// Pull the terminal dimensions.
 		let Some((width, height)) = self.tick_set_size() else {
 			// The size either changed between ticks or cannot be determined.
-- 
2.43.0


From f5d0543216567ad3c361aa1bd3060156310f0d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:44 +0000
Subject: [PATCH 09/24] fix: start from a clean slate on reset, in one step

---
 fyi_msg/src/progress/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 9c1ce82..ef8b8ea 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -494,7 +494,11 @@ impl ProglessInner {
 	/// you need start a brand new instance instead of resetting an existing
 	/// one.
 	fn reset(&self, total: NonZeroU32) {
+		// Nothing may be painted, printed, or ended in between.
+		let _handle = std::io::stderr().lock();
+
 		self.stop();
+		mutex!(self.doing).clear();
 		self.done_total.store(u64::from(total.get()), SeqCst);
 		self.flags.store(TICK_RESET, SeqCst);
 	}
-- 
2.43.0


From 8704c67f5015dc8264743cd136bd1e5dc7ed11ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:44 +0000
Subject: [PATCH 10/24] fix: do not print a message over a bar that was just
 restarted

---
 fyi_msg/src/progress/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index ef8b8ea..5aaf6b2 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -434,10 +434,12 @@ impl ProglessInner {
 	fn push_msg(&self, msg: Msg) -> Result<(), Msg> {
 		let msg = msg.with_newline(true);
 
+		// Lock STDERR early so the state cannot change on us.
+		let mut handle = std::io::stderr().lock();
+
 		// If the progress is active, we have to do some things.
 		if self.running() {
 			// Clear the screen, then print the message.
-			let mut handle = std::io::stderr().lock();
 			let res = handle.write_all(CLS)
 				.and_then(|()| handle.write_all(msg.as_bytes()))
 				.and_then(|()| handle.flush())
-- 
2.43.0


From dddc40a2fa6c7352bbf1ac0b3585e551e4c9c5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:44 +0000
Subject: [PATCH 11/24] fix: show a percentage and bar that match the counts

---
 fyi_msg/src/progress/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 5aaf6b2..928ff25 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -653,6 +653,10 @@ impl ProglessInner {
 			let done = done!(done_total) as u32;
 			let total = total!(done_total) as u32;
 
+			// The values might be newer than the flags; better to have them
+			// all match.
+			ticked |= TICK_DONE | TICK_TOTAL;
+
 			// If the done value changed, update its buffer.
 			if TICK_DONE == ticked & TICK_DONE { buf.done.replace(done); }
 
-- 
2.43.0


From bbaaa6265723efd22e90aad583cbdf72a9736ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:44 +0000
Subject: [PATCH 12/24] fix: size the bar without overflow

---
 fyi_msg/src/progress/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 928ff25..e874ba3 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -1003,7 +1003,7 @@ impl ProglessBuffer {
 			else if done == total { w_done = space; }
 			// Working on it!
 			else {
-				w_done = u8::saturating_from((done * u32::from(space)).wrapping_div(total));
+				w_done = u8::saturating_from((u64::from(done) * u64::from(space)).wrapping_div(u64::from(total)));
 				w_undone = space.saturating_sub(w_done);
 			}
 
-- 
2.43.0


From 256b4bb73b29a39d50f2332061430669fc79ffcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:44 +0000
Subject: [PATCH 13/24] fix: bring tasks back when the title makes room for
 them

---
 fyi_msg/src/progress/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index e874ba3..f7f8fe5 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -682,16 +682,16 @@ impl ProglessInner {
 		// Titles don't change very often, but they're given display priority
 		// over the tasks so need to be checked first.
 		if TICK_TITLE == ticked & TICK_TITLE {
-			// Did we have a title and tasks last time?
-			let before = buf.doing.is_empty() || ! buf.title.is_empty();
+			// Did we have a title last time?
+			let before = ! buf.title.is_empty();
 
 			// Update it.
 			buf.set_title(mutex!(self.title).as_ref(), width, height);
 
-			// If we now have a title and didn't before, and there were tasks
-			// potentially competing for space, force a task redraw to make
-			// sure the extra (title) line isn't one line too many.
-			if ! before && ! buf.title.is_empty() {
+			// If we now have a title and didn't before, or vice versa, and there
+			// are tasks potentially competing for space, force a task redraw to
+			// make sure the (title) line isn't one line too many or too few.
+			if before == buf.title.is_empty() {
 				ticked |= TICK_DOING;
 			}
 		}
-- 
2.43.0


From 9ae4016851cc4d34cb2fcf8b855ce4f64c5878a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:44 +0000
Subject: [PATCH 14/24] fix: drop whitespace left at the end of a task by the
 removal of ANSI

---
 fyi_msg/src/progress/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index f7f8fe5..7037a4f 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -1603,6 +1603,8 @@ fn progless_task(src: &str) -> Option<String> {
 		else if ! c.is_control() { out.push(c); }
 	}
 
+	out.truncate(out.trim_end().len());
+
 	if out.is_empty() { None }
 	else { Some(out) }
 }
-- 
2.43.0


From e469e7ff901066c303b9f8a30a931d675c8a3b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:19 +0000
Subject: [PATCH 15/24] fix: show just the percentage when the counts leave no
 room for the rest

---
 fyi_msg/src/progress/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 7037a4f..11685a2 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -884,7 +884,10 @@ impl ProglessBuffer {
 		let mut parts: &mut [IoSlice] =
 			// If the screen is too small for everything, print the percentage
 			// by itself to give them some indication of progress.
-			if width.get() < 40 {
+			if
+				width.get() < 40 ||
+				usize::from(width.get()) < 19 + self.done.len() + self.total.len() + self.percent.len()
+			{
 				&mut [
 					IoSlice::new(concat!(
 						"\x1b[J ",
-- 
2.43.0


From 00fe225e61067ca429ffc4d9c3c733bb9edc2f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:19 +0000
Subject: [PATCH 16/24] fix: show all of a title on one line

---
 fyi_msg/src/progress/mod.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 11685a2..6220130 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -1066,15 +1066,12 @@ impl ProglessBuffer {
 		// We need at least two lines of screen space to fit a title.
 		if 2 <= height.get() {
 			if let Some(title) = title {
-				let title = title.fitted(usize::from(width.get()));
+				// There is only one line for it.
+				let title = title.as_str().replace(char::is_whitespace, " ");
+				let title = crate::fit_to_width(&title, usize::from(width.get()));
 				if ! title.is_empty() {
-					// Truncate to first line.
-					let slice = title.as_bytes();
-					let end = slice.iter().copied().position(|b| b == b'\n').unwrap_or(slice.len());
-					if end != 0 {
-						self.title.extend_from_slice(&slice[..end]);
-						self.title.push(b'\n');
-					}
+					self.title.extend_from_slice(title.as_bytes());
+					self.title.push(b'\n');
 				}
 			}
 		}
-- 
2.43.0


From 1447cdbb73cdac4e9e630cc9b90593f8806b3754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:19 +0000
Subject: [PATCH 17/24] fix: start and stop the ticker in one step, and leave
 that of a restarted bar alone

---
 fyi_msg/src/progress/mod.rs    |  2 +-
 fyi_msg/src/progress/steady.rs | 31 ++++++++++++++++++++++++-------
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 6220130..9599153 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -1366,7 +1366,7 @@ impl Progless {
 	/// ```
 	pub fn finish(&self) -> Duration {
 		self.inner.stop();
-		self.steady.stop();
+		self.steady.stop_for(&self.inner);
 		self.inner.started.elapsed()
 	}
 
diff --git a/fyi_msg/src/progress/steady.rs b/fyi_msg/src/progress/steady.rs
index 91a92e7..8d779fc 100644
--- a/fyi_msg/src/progress/steady.rs
+++ b/fyi_msg/src/progress/steady.rs
@@ -77,23 +77,40 @@ impl ProglessSteady {
 	///
 	/// Make sure the steady ticker is up and running!
 	pub(super) fn start(&self, t_inner: Arc<ProglessInner>) {
-		// Make sure the old steady ticker is dead.
-		self.stop();
+		// Make sure the old steady ticker is dead, and that nobody else can
+		// start or stop one before we're done.
+		let mut ticker = mutex!(self.ticker);
+		self.join(ticker.take());
 
 		// Reset!
 		*mutex!(self.state.0) = false;
 		let t_state = Arc::clone(&self.state);
-		mutex!(self.ticker).replace(spawn_ticker(t_state, t_inner));
+		ticker.replace(spawn_ticker(t_state, t_inner));
 	}
 
 	#[inline]
 	/// # Stop.
 	///
 	/// Make sure the steady ticker has actually aborted. This is called
-	/// automatically when [`Progless::finish`](crate::Progless::finish) is called or the instance is
-	/// dropped.
-	pub(super) fn stop(&self) {
-		let handle = mutex!(self.ticker).take();
+	/// automatically when the instance is dropped.
+	fn stop(&self) { self.join(mutex!(self.ticker).take()); }
+
+	/// # Stop For.
+	///
+	/// Same as [`ProglessSteady::stop`], but for the end of a particular run;
+	/// if another has been started since, its ticker is left alone.
+	///
+	/// This is called automatically when [`Progless::finish`](crate::Progless::finish)
+	/// is called.
+	pub(super) fn stop_for(&self, inner: &ProglessInner) {
+		let mut ticker = mutex!(self.ticker);
+		if ! inner.running() { self.join(ticker.take()); }
+	}
+
+	/// # Join.
+	///
+	/// Tell the ticker, if any, to quit, and wait for it to do so.
+	fn join(&self, handle: Option<JoinHandle<()>>) {
 		if let Some(handle) = handle {
 			if ! *mutex!(self.state.0) {
 				*mutex!(self.state.0) = true;
-- 
2.43.0


From f22658fece15bc2a7f6c7c061e6838dd6e2970ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:19 +0000
Subject: [PATCH 18/24] fix: do not lock or panic while handling an interrupt

---
 fyi_msg/src/progress/signals.rs | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/fyi_msg/src/progress/signals.rs b/fyi_msg/src/progress/signals.rs
index c2d4bb3..17929d0 100644
--- a/fyi_msg/src/progress/signals.rs
+++ b/fyi_msg/src/progress/signals.rs
@@ -276,9 +276,7 @@ fn sigint_default() -> Arc<AtomicBool> {
 		let t_switch = Arc::clone(&switch);
 		if signal_hook::low_level::register(SIGINT, move || {
 			// Unhide our cursor if we changed state.
-			if ! t_switch.swap(true, SeqCst) {
-				eprint!("{}", Progless::CURSOR_UNHIDE);
-			}
+			if ! t_switch.swap(true, SeqCst) { sigint_unhide(); }
 
 			// One strike and you're out!
 			signal_hook::low_level::exit(1);
@@ -309,7 +307,7 @@ fn sigint_two_strike() -> Arc<AtomicBool> {
 			// Terminate the process if the switch was already true.
 			if t_switch.swap(true, SeqCst) { signal_hook::low_level::exit(1); }
 			// Otherwise just unhide the cursor.
-			else { eprint!("{}", Progless::CURSOR_UNHIDE); }
+			else { sigint_unhide(); }
 		).is_err() { sigint_error(); }
 	}
 
@@ -335,15 +333,36 @@ fn sigint_keepalive() -> Arc<AtomicBool> {
 		let t_switch = Arc::clone(&switch);
 		if signal_hook::low_level::register(SIGINT, move ||
 			// Unhide the cursor.
-			if ! t_switch.swap(true, SeqCst) {
-				eprint!("{}", Progless::CURSOR_UNHIDE);
-			}
+			if ! t_switch.swap(true, SeqCst) { sigint_unhide(); }
 		).is_err() { sigint_error(); }
 	}
 
 	switch
 }
 
+#[cfg(all(feature = "signals_sigint", unix))]
+#[expect(unsafe_code, reason = "For STDERR file descriptor.")]
+/// # Unhide Cursor.
+///
+/// The handlers might interrupt a thread that is writing to STDERR itself, so
+/// need to bypass the lock.
+fn sigint_unhide() {
+	use std::{
+		fs::File,
+		io::Write,
+		mem::ManuallyDrop,
+		os::fd::FromRawFd,
+	};
+
+	// Safety: the descriptor is only borrowed; nothing gets closed.
+	let mut stderr = ManuallyDrop::new(unsafe { File::from_raw_fd(2) });
+	let _res = stderr.write_all(Progless::CURSOR_UNHIDE.as_bytes());
+}
+
+#[cfg(all(feature = "signals_sigint", not(unix)))]
+/// # Unhide Cursor.
+fn sigint_unhide() { eprint!("{}", Progless::CURSOR_UNHIDE); }
+
 #[cfg(feature = "signals_sigint")]
 #[inline]
 /// # `SIGINT` Handler Registration Error.
-- 
2.43.0


From c259352eab803dc2c9082d4efdb0c11fe41d8dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:19 +0000
Subject: [PATCH 19/24] fix: do not leave the cursor hidden if interrupted
 while hiding it

---
 fyi_msg/src/progress/signals.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fyi_msg/src/progress/signals.rs b/fyi_msg/src/progress/signals.rs
index 17929d0..c23e100 100644
--- a/fyi_msg/src/progress/signals.rs
+++ b/fyi_msg/src/progress/signals.rs
@@ -168,7 +168,12 @@ impl Default for ProglessSignals {
 		let sigint = SIGINT_HANLDER.get_or_init(sigint_default);
 
 		#[cfg(feature = "signals_sigint")]
-		if ! sigint.load(SeqCst) { eprint!("{}", Progless::CURSOR_HIDE); }
+		if ! sigint.load(SeqCst) {
+			eprint!("{}", Progless::CURSOR_HIDE);
+
+			// An interrupt might have come in just before that.
+			if sigint.load(SeqCst) { eprint!("{}", Progless::CURSOR_UNHIDE); }
+		}
 
 		Self {
 			#[cfg(feature = "signals_sigint")]
-- 
2.43.0


From bf43bf7e2553a19246a9e77b503c896f5056ac89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:05 +0000
Subject: [PATCH 20/24] fix: do not lose a resize while a message is being
 pushed

---
 fyi_msg/src/progress/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 9599153..08b32c2 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -755,6 +755,10 @@ impl ProglessInner {
 		if self.running() {
 			if let Some((width, height)) = term_size() {
 				let wh = u16::from_le_bytes([width.get(), height.get()]);
+
+				// Nothing may be painted in between or the flag might be
+				// cleared by a tick that still had the old size.
+				let _handle = std::io::stderr().lock();
 				if wh != self.last_size.swap(wh, SeqCst) {
 					self.flags.fetch_or(TICK_RESIZED, SeqCst);
 				}
-- 
2.43.0


From 104a0b438d9da0e284aa01a4bb92dd5c49a80eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:27 +0000
Subject: [PATCH 21/24] fix: leave the cursor visible whichever interrupt ends
 the process

---
 fyi_msg/src/progress/signals.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/fyi_msg/src/progress/signals.rs b/fyi_msg/src/progress/signals.rs
index c23e100..f189622 100644
--- a/fyi_msg/src/progress/signals.rs
+++ b/fyi_msg/src/progress/signals.rs
@@ -280,8 +280,10 @@ fn sigint_default() -> Arc<AtomicBool> {
 	unsafe {
 		let t_switch = Arc::clone(&switch);
 		if signal_hook::low_level::register(SIGINT, move || {
-			// Unhide our cursor if we changed state.
-			if ! t_switch.swap(true, SeqCst) { sigint_unhide(); }
+			// Unhide our cursor, even if another thread got here first, as it
+			// might not have got any further.
+			t_switch.store(true, SeqCst);
+			sigint_unhide();
 
 			// One strike and you're out!
 			signal_hook::low_level::exit(1);
@@ -309,8 +311,12 @@ fn sigint_two_strike() -> Arc<AtomicBool> {
 	unsafe {
 		let t_switch = Arc::clone(&switch);
 		if signal_hook::low_level::register(SIGINT, move ||
-			// Terminate the process if the switch was already true.
-			if t_switch.swap(true, SeqCst) { signal_hook::low_level::exit(1); }
+			// Terminate the process if the switch was already true, but not
+			// before unhiding the cursor; it might have been hidden since.
+			if t_switch.swap(true, SeqCst) {
+				sigint_unhide();
+				signal_hook::low_level::exit(1);
+			}
 			// Otherwise just unhide the cursor.
 			else { sigint_unhide(); }
 		).is_err() { sigint_error(); }
-- 
2.43.0


From 4e98c9bd0eb078d36f7de36ca7497c7ce6848896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:05 +0000
Subject: [PATCH 22/24] fix: print any number of blank lines

The lines were all put into one string first, so a count too large for memory
ended the program with a panic or abort, printing nothing.
---
 fyi/src/cli.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/fyi/src/cli.rs b/fyi/src/cli.rs
index ff8af65..f98c29a 100644
--- a/fyi/src/cli.rs
+++ b/fyi/src/cli.rs
@@ -105,10 +105,15 @@ pub(super) fn parse_blank() -> Result<(), FyiError> {
 		}
 	}
 
-	// Print it!
-	let lines = "\n".repeat(count.get());
-	if stderr { eprint!("{lines}"); }
-	else { print!("{lines}"); }
+	// Print it! (In chunks, since the total might not fit in memory.)
+	let mut count = count.get();
+	let lines = "\n".repeat(usize::min(count, 65_536));
+	while count != 0 {
+		let lines = &lines[..usize::min(count, lines.len())];
+		if stderr { eprint!("{lines}"); }
+		else { print!("{lines}"); }
+		count -= lines.len();
+	}
 
 	Ok(())
 }
-- 
2.43.0


From acad2c92168b9e02f45aed2af83573a366967143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:02 +0000
Subject: [PATCH 23/24] fix: keep ticking when the cursor sequences cannot be
 written

---
 fyi_msg/src/progress/signals.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/fyi_msg/src/progress/signals.rs b/fyi_msg/src/progress/signals.rs
index f189622..8493054 100644
--- a/fyi_msg/src/progress/signals.rs
+++ b/fyi_msg/src/progress/signals.rs
@@ -169,10 +169,10 @@ impl Default for ProglessSignals {
 
 		#[cfg(feature = "signals_sigint")]
 		if ! sigint.load(SeqCst) {
-			eprint!("{}", Progless::CURSOR_HIDE);
+			cursor_print(Progless::CURSOR_HIDE);
 
 			// An interrupt might have come in just before that.
-			if sigint.load(SeqCst) { eprint!("{}", Progless::CURSOR_UNHIDE); }
+			if sigint.load(SeqCst) { cursor_print(Progless::CURSOR_UNHIDE); }
 		}
 
 		Self {
@@ -191,7 +191,7 @@ impl Drop for ProglessSignals {
 	fn drop(&mut self) {
 		// The `ProglessSignal` drop glue handles unregistration; at this
 		// level we just need to make sure the cursor gets unhidden.
-		eprint!("{}", Progless::CURSOR_UNHIDE);
+		cursor_print(Progless::CURSOR_UNHIDE);
 	}
 }
 
@@ -372,7 +372,17 @@ fn sigint_unhide() {
 
 #[cfg(all(feature = "signals_sigint", not(unix)))]
 /// # Unhide Cursor.
-fn sigint_unhide() { eprint!("{}", Progless::CURSOR_UNHIDE); }
+fn sigint_unhide() { cursor_print(Progless::CURSOR_UNHIDE); }
+
+#[cfg(feature = "signals_sigint")]
+/// # Print Cursor Sequence.
+///
+/// Unlike `eprint!`, this does not panic — and take the ticker down with it —
+/// if STDERR happens to be unwritable.
+fn cursor_print(seq: &str) {
+	use std::io::Write;
+	let _res = std::io::stderr().write_all(seq.as_bytes());
+}
 
 #[cfg(feature = "signals_sigint")]
 #[inline]
-- 
2.43.0


From 21ee01367b0c23cab25f9689f00bb04d6d64d9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:02 +0000
Subject: [PATCH 24/24] fix: blank lines nobody listens for are no reason to
 panic

---
 fyi/src/cli.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fyi/src/cli.rs b/fyi/src/cli.rs
index f98c29a..f36f8b9 100644
--- a/fyi/src/cli.rs
+++ b/fyi/src/cli.rs
@@ -13,6 +13,7 @@ use fyi_msg::{
 	MsgKind,
 };
 use std::{
+	io::Write,
 	num::NonZeroUsize,
 	process::ExitCode,
 };
@@ -110,8 +111,12 @@ pub(super) fn parse_blank() -> Result<(), FyiError> {
 	let lines = "\n".repeat(usize::min(count, 65_536));
 	while count != 0 {
 		let lines = &lines[..usize::min(count, lines.len())];
-		if stderr { eprint!("{lines}"); }
-		else { print!("{lines}"); }
+		let res =
+			if stderr { std::io::stderr().write_all(lines.as_bytes()) }
+			else { std::io::stdout().write_all(lines.as_bytes()) };
+
+		// If nobody's listening, there's no point continuing.
+		if res.is_err() { break; }
 		count -= lines.len();
 	}
 
-- 
2.43.0

