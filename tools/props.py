import json
P=[]
def p(id,title,st,over,q,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
MSG="fyi_msg/src/msg/mod.rs";KIND="fyi_msg/src/msg/kind.rs";ANSI="fyi_msg/src/ansi.rs";FIT="fyi_msg/src/fitted.rs"
PR="fyi_msg/src/progress/mod.rs";ST="fyi_msg/src/progress/steady.rs";SG="fyi_msg/src/progress/signals.rs";BA="fyi_msg/src/progress/ba.rs"
CLI="fyi/src/cli.rs";MAIN="fyi/src/main.rs"
SIM="cfg(fyi_verif): std sync, time, thread, stderr, terminal size and signals are swapped for a controllable scheduler"
p("C01","Message parts stay independent under any sequence of edits",
 "A message always renders as its indentation, timestamp (if compiled in and switched on), prefix, message, suffix and line break, in that order, each being exactly what was last set for it. Editing one part never alters, drops or duplicates any byte of another, whatever was edited before, and an edit never panics. Indentation is four spaces per level up to eight levels, and a timestamp shows the current local time.",
 ["histories","inputs","configurations"],"Every constructor followed by every sequence of set_/with_ edits (indent, timestamp, prefix, message, suffix, line break, ANSI stripping), for every text, with and without the timestamps feature.",
 "Unit tests set a few parts once; the offset table that separates the parts is only exercised by long edit histories with growing, shrinking and empty parts.",
 [MSG],[("per-part offset table updated on every replacement",MSG+": replace_part, Toc::resize_part")],["Msg::as_str after each edit"],None,
 [("toc","offset of each part in the text",MSG)])
p("C02","Stripping ANSI removes every escape sequence and nothing else",
 "After stripping, no part of a message (prefix, message, suffix, timestamp) contains a CSI or OSC sequence, terminated or not, and every other byte is kept in order; stripping again changes nothing. The reported flag says whether anything was removed. It never panics, and the message can be edited afterwards as usual.",
 ["inputs","histories"],"Every text in every part, including sequences that are unterminated, nested, back to back, split by multi-byte characters, or formed by the removal of another.",
 "The tests strip one message holding a handful of complete CSI sequences; unterminated and nested sequences, and stripping between other edits, are never reached.",
 [MSG,ANSI],[("in-place removal loop",MSG+": strip_ansi"),("sequence finder",ANSI+": next_ansi")],["Msg::strip_ansi / without_ansi result and text"])
p("C03","Every view and comparison of a message agrees with its text",
 "All ways to read a message (string, bytes, length, emptiness, display, borrowed or owned conversions) show the same text. A message is equal to another message, string or byte value exactly when the texts are equal, in both directions and for all supported types. Ordering and hashing follow the text too, so equal messages hash equally whatever parts they were built from.",
 ["inputs","histories"],"Every pair of messages reached by any edit history and every supported string or byte type.",
 "Doc tests compare a few literals with one or two of the types, never two differently partitioned messages with the same text, nor ordering or hashing.",
 [MSG],[("trait implementations over the inner text",MSG+": AsRef, Borrow, Display, PartialEq, Ord, Hash")],["the trait results"])
p("C04","Built-in and custom prefixes render the same by every route",
 "Each built-in kind renders its bold coloured name, a colon, a reset and a space; a custom prefix renders its text, a colon and a space, in bold in its colour when one is given, and an empty prefix renders nothing. The result is the same for every string type, for a colour given by name or by number, and whether the prefix is set at construction, later, or through a kind's shorthand constructor (which also adds the line break).",
 ["inputs","configurations"],"Every kind, all 256 colours, every supported string type, every prefix text, and every route by which a prefix is set.",
 "Tests check built-in prefix strings against the same table and one or two colours; the generated code for 256 colours, the shorthands and the per-type implementations are not compared.",
 [KIND,"fyi_msg/build.rs",ANSI],[("prefix trait and generated tables",KIND+": IntoMsgPrefix; build.rs")],["Msg text after construction"])
p("C05","Fitting text to a width keeps sequences and line structure",
 "Each line of the fitted text is at most the requested width, and consists of the longest leading part of the original line that fits, followed only by the escape sequences from the cut part and the original line break. Lines that already fit are returned unchanged, the number of line breaks is the same, and zero width gives empty text. It never panics.",
 ["inputs"],"Every text (wide, zero-width and multi-byte characters, complete or unterminated sequences, LF and CRLF) and every width.",
 "Tests cover five strings; combinations of wide characters at the boundary, sequences in the cut and unterminated sequences before a line break are not reached.",
 [FIT,ANSI,MSG],[("line-by-line two-pass cut",FIT+": fit_to_width"),("sequence iterators",ANSI+": NoAnsi, OnlyAnsi")],["fit_to_width, Msg::fitted results"])
p("C06","Display width and cut position ignore escape sequences exactly",
 "The width of a text is the sum of the display widths of the characters outside its CSI and OSC sequences. The cut position for a width is the longest leading part, ending on a character boundary, whose visible width does not exceed it, and it is the whole length when everything fits.",
 ["inputs"],"Every text and every width, including unterminated, nested and adjacent sequences and wide or zero-width characters.",
 "Tests sample fewer than ten strings, nearly all with complete sequences.",
 [FIT,ANSI],[("character iterator skipping sequences with byte accounting",ANSI+": NoAnsi")],["width, length_width results"])
p("C07","A prompt is repeated until it has a valid answer, and answers mean what they say",
 "Prompting shows the message with a yes/no hint naming the default, reads one line, and returns true for y/yes, false for n/no (any case, surrounding whitespace ignored) and the default for a blank line or the end of input. For anything else, including input that is not valid text, it shows the error and asks again without looking at earlier answers. Everything goes to the stream asked for, and it always ends once input ends or fails.",
 ["inputs","histories","fault_sequences"],"Every sequence of input lines, both defaults, both streams, end of input and read errors at any point.",
 "No test runs a prompt at all: it needs standard input.",
 [MSG],[("ask, read and judge loop",MSG+": prompt__")],["standard output, standard error and return value of the prompt"])
p("C08","Message commands print exactly the requested message, once, to one stream",
 "For every message command and every order and spelling of its options, the command prints exactly one message, built from the kind or custom prefix with the given colour, indentation, timestamp and text and ended by a line break, to standard output or (on request) standard error, and nothing to the other. It then exits with the requested status, or zero. A later occurrence of an option replaces an earlier one.",
 ["inputs","configurations"],"Every argument list of a message command: options in any order, number, and spelling (joined, separated, with =), any text, all 256 statuses and colours.",
 "The binary has no end-to-end tests; the option parser is not run by any test.",
 [CLI,MAIN],[("option loop and message construction",CLI+": parse_msg"),("exit status passthrough",MAIN)],["standard output, standard error and exit status of the fyi binary"])
p("C09","Invalid use prints an error and fails; help and version succeed",
 "An argument that is not valid text, more than one message argument (an unrecognised option counts as one) or a missing message gives one error line on standard error, nothing on standard output and exit status one. Asking for help or the version anywhere the option is recognised prints the matching help or version on standard output and exits with zero, as does an unknown or missing command with the main help.",
 ["inputs"],"Every argument list, including those that mix help with other options, unrecognised options, non-UTF-8 arguments and end-of-options markers.",
 "No test runs the binary or the argument parser.",
 [CLI,MAIN,"fyi/src/error.rs"],[("error variants and main dispatch",MAIN)],["standard output, standard error and exit status of the fyi binary"])
p("C10","The blank command prints exactly the requested number of empty lines",
 "The blank command prints as many line breaks as the count option says, and at least one, to the requested stream and nothing else, and exits with zero. A count that is not a number is ignored and other arguments have no effect.",
 ["inputs"],"Every count spelling and value, every order of options, both streams.",
 "No test runs the binary.",
 [CLI,MAIN],[("blank option loop",CLI+": parse_blank")],["standard output, standard error and exit status of the fyi binary"])
p("C11","The confirm command's exit status is the user's answer",
 "The confirm command asks its question with the requested default, repeating it until it is answered, and exits with zero if the final answer is yes and one if it is no. It can do so for every sequence of invalid answers before it, and at the end of input the default decides.",
 ["inputs","histories"],"Every answer sequence, both defaults, with and without the other options of the command.",
 "No test runs the binary; answering needs standard input.",
 [MAIN,CLI,MSG],[("prompt result turned into the exit status",MAIN)],["exit status and streams of the fyi binary fed by a pipe"])
p("C12","Concurrent progress increments are never lost or double counted",
 "While a progress bar is running, the done count equals the sum of every increment and every task removal that returned, no matter how many threads made them at once, up to the total. With enough of them the bar always reaches its total.",
 ["schedules","histories"],"Every interleaving of increments, increments by n and task removals from any number of threads with each other and with the ticker.",
 "The tests have one thread and compare no counts; a lost update needs two threads to interleave between reading and writing the count.",
 [PR],[("combined done/total counter updates",PR+": increment_n, remove")],["summary text and painted frames"],SIM,[("done_total","done and total in one atomic word",PR)])
p("C13","Reaching the total or finishing freezes the bar at its total, once and for good",
 "When the done count reaches (or is set to or beyond) the total, or finish is called, the bar ends: from the return of that call on its done count is its total, whatever other calls overlapped or follow. Only a reset can start it again; adding, removing, counting and setting have no effect until then.",
 ["schedules","histories"],"Every history and interleaving of the counting, finishing and task calls, including counts larger than the total.",
 "Tests check a single increment sequence in one thread; nothing races finish with a late update.",
 [PR],[("stop by swapping the running flag",PR+": stop, increment_n, set_done")],["summary text, return of add, painted frames"],SIM)
p("C14","Each task is listed exactly once while it is active, by its clean label",
 "A task is accepted while the bar is running if, with ANSI removed, whitespace turned to spaces, control characters and trailing whitespace dropped, its label is not empty and not already listed; accepting it is reported as true, and only then. Removing a listed task (by any label with the same clean form) unlists it and counts one; removing anything else changes nothing. The list is shown sorted and empties when the bar ends.",
 ["histories","schedules","inputs"],"Every sequence and interleaving of add and remove calls, for every label text.",
 "No test adds or removes a task; duplicate adds and removes from several threads and dirty labels are never run.",
 [PR],[("sanitised label set",PR+": add, remove, progless_task")],["return of add, done count, task lines of frames"],SIM)
p("C15","Every painted frame shows values the bar really had",
 "Each component of a painted frame (title, done, total, percentage, task list) is a value that component had at some moment between the start and the end of that paint (or that a call overlapping the paint was replacing), and successive frames never go back to an older one. The percentage and bar belong to the shown counts, and the elapsed time is never in the future.",
 ["schedules","histories"],"Every interleaving of painting with counting, task, title, resize and message calls.",
 "No test renders a frame: there is no terminal under the test runner.",
 [PR],[("change flags and repaint under the stderr lock",PR+": tick")],["bytes written to the terminal"],SIM)
p("C16","The display catches up with the bar's state",
 "Once the bar's state, the terminal's size and the clock second stop changing, the picture on the terminal equals the current title, counts, percentage, bar and task list after a few ticks, and stays so. No update is missed, whatever order the changes came in.",
 ["schedules","histories"],"Every history of updates, resizes and pushed messages and every interleaving with the ticker.",
 "No test renders a frame, so a change flag that is cleared too early or never set goes unseen.",
 [PR,SG],[("change flags",PR+": tick_set_drawable, tick_set_size")],["terminal picture after quiet ticks"],SIM)
p("C17","Frames fit the terminal and the bar is proportional for every size and count",
 "On a terminal of at least two rows whose size did not change a frame never wraps, nor is it taller than the terminal: every line is narrower than the terminal, there are fewer lines than the terminal has, and the cursor goes back to the frame's first column and row. The bar's filled share is proportional to done over total (rounded down, empty at zero, full at the total), and painting never fails for any terminal size, count, title or task list; below ten columns nothing is shown, and where the full line has no room just the percentage is.",
 ["inputs","configurations"],"Every terminal width and height, done and total up to the 32-bit maximum, any title and task labels.",
 "No test renders a frame or varies the terminal size.",
 [PR,FIT],[("bar space arithmetic and line limits",PR+": set_bars, set_doing, set_title, print")],["terminal emulation of the bytes written"],SIM)
p("C18","After a bar ends its output is gone and nothing more is painted",
 "When the call that ends a bar (by finish or by count) has returned, the terminal shows no part of the progress display and no frame is painted afterwards until a reset; nor is any painted once the last handle has been dropped. What the program printed before is intact.",
 ["schedules","histories"],"Every interleaving of ending the bar (by finish, by count, or by drop) with ticks, pushed messages and other calls.",
 "No test renders a frame; a late frame needs a tick to interleave with the end.",
 [PR,ST],[("stop under the stderr lock, ticker join",PR+": stop, tick; "+ST+": stop")],["terminal picture after the bar has ended"],SIM)
p("C19","Pushed messages appear exactly once, intact, in order, above the bar",
 "Every pushed message appears on the terminal exactly once and unbroken, ended by one line break, in the order of the calls, whether or not the bar is running. While the bar is running the bar is redrawn below it, and no frame overwrites or hides it.",
 ["schedules","histories","inputs"],"Every interleaving of pushes from several threads with ticks, updates and the end of the bar, any message text.",
 "No test looks at what is printed.",
 [PR,MSG],[("clear, print, forced repaint",PR+": push_msg")],["terminal scrollback"],SIM)
p("C20","The ticker never deadlocks, outlives its bar or fails to come back",
 "No sequence of calls from any threads deadlocks, panics or hangs, and finish, reset and dropping the last handle always return. At most one ticker per bar is painting at any time; it ends within a tick after the bar ends, and runs again after a reset.",
 ["schedules","histories"],"Every interleaving of finish, reset, drop, clone, counting and pushing with the ticker thread.",
 "Tests run finish once from one thread; deadlocks and leaked tickers need particular interleavings.",
 [ST,PR],[("ticker state, condition variable and join",ST)],["calls returning, threads ending, frames after reset"],SIM)
p("C21","A reset starts a clean run with the new total",
 "After a reset returns, the bar is running with zero done, no tasks, the new total and the same title and start time, whatever state it was in before (new, running, finished, with listed tasks). A reset to zero is refused and changes nothing.",
 ["histories","schedules"],"Every history before the reset, including calls that overlap the previous end, any total.",
 "No test resets a bar that has tasks or was stopped, nor looks at what is displayed then.",
 [PR,ST],[("stop, store, restart",PR+": reset, try_reset; "+ST+": start")],["frames, summary and calls after reset"],SIM)
p("C22","Interrupt policies: one strike, two strikes or keep-alive",
 "With default handling an interrupt ends the process with status one; with two-strike handling the first interrupt only sets the switch and the second ends it with status one; with keep-alive no interrupt ever ends it. The switch is set by the first interrupt, the policy chosen first stays in force, and running bars then show an early shutdown warning as their title.",
 ["schedules","histories","fault_sequences"],"Interrupts at every point of any history, every order of choosing a policy and starting bars.",
 "No test raises a signal.",
 [SG,PR],[("handlers registered once",SG+": sigint_default, sigint_two_strike, sigint_keepalive"),("early shutdown title",PR+": sigint")],["process end, exit status, switch value, frames"],SIM)
p("C23","The cursor is always visible again when a bar or the process ends",
 "With interrupt support the cursor is hidden only while a bar is running, and it is visible whenever no bar is: after finish, after the total is reached, after drop, after the first interrupt and at every exit the handlers cause.",
 ["schedules","histories","fault_sequences"],"Every interleaving of starting, ending and resetting bars with interrupts.",
 "No test raises a signal or looks at the cursor sequences.",
 [SG,ST],[("guard object in the ticker and the handlers",SG+": ProglessSignals")],["cursor sequences on the terminal"],SIM)
p("C24","Progress totals are accepted exactly when they are 1 to 4,294,967,295",
 "For every integer type a bar can be made from, a total is accepted and shown unchanged exactly when it is between one and the 32-bit unsigned maximum. Zero is refused as an empty total (where the type allows it), and negative or larger values as an overflow.",
 ["inputs"],"All values of all integer and non-zero integer types, and try_reset.",
 "Tests convert no value near the boundaries, and only some types.",
 [PR,"fyi_msg/src/progress/error.rs"],[("conversion macros",PR+": inner_tryfrom, inner_nz_tryfrom")],["conversion results, total of frames"],SIM)
p("C25","Before/after differences are right for all sizes and described as such",
 "The saving is before minus after when both are non-zero and after is smaller, and the growth the reverse; otherwise there is none. The percentages are those amounts over before, and the bytes-saved suffix shows the amount with separators and the percentage to two decimals, or says there was no saving.",
 ["inputs"],"All pairs of 64-bit values, including zero, equal and extreme ones, set in one go or step by step.",
 "Doc tests use two pairs.",
 [BA,MSG],[("saturating differences",BA),("suffix text",MSG+": with_bytes_saved")],["less, more, percentages, message suffix"])
p("C26","ANSI macros and colours produce the documented codes",
 "The sequence macros give, for every combination of format keywords and colours in any order, one CSI sequence with the documented codes in the given order, and the wrapping macros surround their text with the matching start and reset codes. The colour type maps each number 0 to 255 to the same foreground code as the macros, and a colour equals, and is ordered as, exactly that number.",
 ["inputs","programs"],"Every keyword, all 256 colours by number and by name, and every combination of them.",
 "Doc tests cover a few combinations; the tables have several hundred arms.",
 ["fyi_ansi/src/lib.rs","fyi_ansi/build.rs","fyi_msg/build.rs"],[("token-munching macros and generated colour arms","fyi_ansi/src/lib.rs, fyi_ansi/build.rs")],["macro expansion values"])
p("C27","Titles are shown first, on one line, and change only as asked",
 "A title is shown as a single line cut to the terminal width above the bar, with line breaks and other whitespace as single-width spaces; an empty or absent title takes no line. Setting the title replaces it, setting the title message replaces only its message part (keeping its prefix) and does nothing when there is no title.",
 ["histories","inputs"],"Every history of title calls on running, ended and reset bars, any title text and terminal size.",
 "No test sets a title.",
 [PR,MSG],[("title slot and its line",PR+": set_title, set_title_msg")],["title line of frames"],SIM)
p("C28","The summary and finish messages state the real count and time",
 "The summary states the done count with thousands separators, the singular noun for one and the plural for any other count, and the time since the bar was made, as a message of the requested kind ending with a line break. The finish message states the same time, and finish returns it.",
 ["histories","inputs"],"Every history (including resets), every count and elapsed time, any nouns and kinds.",
 "Doc examples are not run; no test checks a summary's text.",
 [PR],[("summary and conversion",PR+": summary, From<Progless> for Msg, finish")],["message text"],SIM)
p("C29","Printed messages come out whole and at once",
 "Printing a message writes exactly its bytes, once, to the chosen stream (standard output or error), and all of them have been handed over when the call returns, whether or not the message ends in a line break. Messages printed at the same time by several threads come out whole, one after another, each thread's in its own order, however little the stream takes at a time. A stream that is closed or full is no concern: printing does not panic or end the program.",
 ["schedules","inputs","fault_sequences"],"Every set of threads printing any messages to either stream, every schedule, and every way a stream takes, splits, interrupts or refuses writes.",
 "Tests render messages but print none; short or interrupted writes, unflushed tails, closed streams and concurrent printing never occur in them.",
 [MSG],[("lock, write everything, flush, ignore errors",MSG+": print, eprint")],["bytes on both streams, at any moment"])
p("C30","Output that cannot be written harms nothing",
 "When standard output or standard error cannot be written (a closed pipe, a full device, a vanished or blocked terminal), from any moment on, for a while or for good, nothing panics, hangs or ends differently than it would have: bars go on counting, ticking, ending and restarting with the same results; prompts return their answers; commands that print messages, questions or blank lines exit with their usual status. Pushing a message to a running bar hands it back as an error if it could not be written, and succeeds otherwise. Once writing works again, the picture of a running bar is complete and up to date within about a second and messages appear as usual.",
 ["fault_sequences","schedules","inputs"],"Every moment at which writing begins and ceases to fail, every kind of failure, every program and schedule of calls on a bar with every set of signal features, every command line that prints, and every prompt.",
 "No test writes to a stream that fails; a panic of the ticker, a lost or doubled error, or a picture that never comes back need a fault at a particular moment.",
 [PR,SG,ST,MSG,CLI],[("frame and message writing, errors handed back or ignored",PR+": push_msg, tick, stop"),("cursor sequences",SG),("printing and prompting",MSG+": print, eprint, prompt__"),("blank lines",CLI+": parse_blank")],["results of the calls, the ticker's thread, the terminal after recovery, exit statuses"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,s)
print(len(P))
