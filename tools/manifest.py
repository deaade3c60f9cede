"""Writes MANIFEST.json from the table below (run with python3 after changing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VEC = "TLA+ specification (TLC); its enumerated behaviours replayed into the real code, recorded results validated against it by TLC"
SIM = "TLA+ object specification of the progress bar (TLC): recorded executions of the real code under a controlled scheduler (systematic and random interleavings with the ticker) are validated as traces of it"
ENV = " std's locks, threads, clock, standard error, terminal size and signals are stand-ins (sequentially consistent)."
CHECKS = {
 "C01": ("TLA+ state machine of a message (TLC): every transition of the bounded graph and random edit histories replayed and validated", "Exhaustive over the small part alphabet; random histories with rich Unicode/ANSI text beyond it. Trusts TLC and the driver."),
 "C02": (VEC, "All texts up to the stated length over a 10-character alphabet that contains every character the grammar distinguishes; random rich texts beyond."),
 "C03": (VEC, "Messages built from enumerated and random parts; every supported comparison type in both directions."),
 "C04": (VEC, "All kinds, colours 0-255 and a table of text shapes by every construction route."),
 "C05": (VEC, "All texts up to the stated length over the alphabet and all widths to the bound; random rich texts beyond. Character widths are taken from the unicode-width crate."),
 "C06": (VEC, "As C05."),
 "C07": ("TLA+ prompt state machine (TLC, with liveness); every session over the line alphabet replayed on real prompts over pipes", "All input sequences up to the stated length over a line alphabet with every class of answer, end of input at each point, unreadable input; all prompt methods, macros and defaults; random long sessions. Reads from pipes and a directory, not a terminal."),
 "C08": ("TLA+ argument reader (TLC): every argument list over a token alphabet run on the real binary; random lists predicted by TLC", "All commands with all argument lists to length 2, two commands to 3; random lists to length 9. First argument not empty; switches with a glued value left out."),
 "C09": ("TLA+ argument reader (TLC): every argument list over a token alphabet run on the real binary; random lists predicted by TLC", "As C08, for the outcomes help, version and error. Help screens are judged by what they must name (command, options, version), not word for word."),
 "C10": ("TLA+ argument reader (TLC): every argument list over a token alphabet run on the real binary; random lists predicted by TLC", "All argument lists to length 3 over 23 tokens; random counts to 70000."),
 "C11": ("TLA+ argument reader and prompt state machine (TLC) combined; sessions replayed on the real binary over pipes", "Enumerated option lists times enumerated answer sequences; random long ones; end of input and unreadable input."),
 "C12": (SIM, "All interleavings with one preemption (two in the thorough tier) of two or three threads of counting calls on bars near their total, random schedules beyond, random long histories." + ENV),
 "C13": (SIM, "As C12 for every pair of ending, counting, task and reset calls, counts up to the 32-bit maximum." + ENV),
 "C14": (SIM, "Interleaved adds, removes and ends; histories over labels with every kind of whitespace, control character and sequence." + ENV),
 "C15": (SIM, "Interleavings of painting with every changing call; a frame component is accepted if it held at some moment of the paint and is not older than the last one shown." + ENV),
 "C16": (SIM, "Interleavings and histories of updates, resizes (with and without SIGWINCH support) and messages, each followed by quiet ticks." + ENV),
 "C17": (SIM, "Every width 1-289 and many heights to 400, counts to the 32-bit maximum, up to 300 tasks, titles and labels of every width, on a terminal emulator; interleavings at small sizes." + ENV),
 "C18": (SIM, "Interleavings of every way to end a bar with ticks, messages and other calls, and what the terminal then shows." + ENV),
 "C19": (SIM, "Interleavings of pushes with each other, ticks, updates, ends and resets; partial writes; styled, wide, multi-line and wrapping messages." + ENV),
 "C20": (SIM, "Interleavings (with the ticker) of finish, reset, drop, clone, counting and pushing, also with interrupts; deadlocks and livelocks are found by the scheduler." + ENV),
 "C21": (SIM, "Interleavings of resets with every other call on new, running and ended bars; random histories." + ENV),
 "C22": (SIM, "Interrupts at every point (one preemption; random beyond) of programs that choose policies and start, change, end bars." + ENV),
 "C23": (SIM, "As C22, judged by the cursor; one known finding." + ENV),
 "C24": (VEC, "All integer types times all values around every power of two and ten (and random ones) to 2^128; 64-bit platform."),
 "C25": ("TLA+ machine of a before/after pair with exact arithmetic (TLC): its step sequences replayed, recorded results validated against it", "All step sequences to length 3 over a set of values (those of three sampled); random 64-bit pairs around rounding edges. Percentages to floating point precision."),
 "C26": ("TLA+ specification of the macro words (TLC): its enumerated word lists compiled as macro calls, their values compared; nested contents validated", "Every word alone, pairs and triples over part of them, random lists to 40 words, nested contents, all 256 colours of the colour type."),
 "C27": (SIM, "Interleavings of title calls; histories over titles with every kind of whitespace, sequences and widths, with and without SIGWINCH support." + ENV),
 "C28": (SIM, "Histories over edge counts and elapsed times from 0 to 10 days (virtual clock), all kinds; interleavings." + ENV),
 "C29": ("TLA+ specification of threads printing to streams (TLC, with liveness); recorded output of real printing threads validated against it", "The specification exhaustively for small programs; random programs of up to eight threads as the system schedules them, with short, interrupted, refused writes and a slow reader."),
 "C30": (SIM, "Faults of four kinds on, or on and off, at any point of histories and (one preemption; random beyond) of interleavings, for every set of signal features; terminals and pipes that go away under the real bar; the program and prompts on full devices and closed pipes."),
}
NA = {}
def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
         "checks": [], "not_applicable": []}
    hooks = os.path.join(V, "tools", "hooks.json")
    if os.path.exists(hooks):
        m["hooks"] = json.load(open(hooks))
    for p in props:
        i = p["id"]
        if i in CHECKS:
            t, n = CHECKS[i]
            m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                                "technique": t, "level": "model_checking", "level_note": n})
        else:
            m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
main()
