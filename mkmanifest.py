#!/usr/bin/env python3
"""Writes MANIFEST.json and plan.json (run by hand after editing the tables below)."""
import json

ENV = "glibc/libstdc++ and the compiler are trusted; interleavings are sequentially consistent (one thread runs at a time, so weak memory effects are out of reach)"
T = {
    # prop: (quick indices, thorough indices, technique, rule, note)
    "C01": (9600, 300000, "seeded schedule simulation of caller threads, outcome compared with a pristine process",
            "2-6 (1 in 12: 8-15; 1 in 90: hundreds of short-lived) threads with 1-2 parse/tokenize calls each over generated texts, in 1 of 6 runs some calls fail for lack of memory, in 1 of 5 the host has a locale of its own; context switches placed at accesses to static storage, at first or last visits of basic blocks, anywhere, round robin with quantum q, or random (also at static storage, atomics, synchronisation and shared heap memory only); the text itself may be shared memory.",
            "Each call's verdict, tree, parameters, error and tokens under a simulated interleaving equal those of the text alone in a pristine process; no deadlock, memory error or exit. Sampled schedules and texts."),
    "C02": (8000, 300000, "seeded history simulation with errno/locale/heap/stack garbage, outcome compared with a pristine process",
            "histories of 2-150 calls over 1-6 texts, or over many distinct short texts, or floods of up to 12 000 (1 in 12: 66 100) different texts, 1 in 250 texts up to 140 kB or 2.1 MB, with garbage in errno, locale, recycled heap and stack and clock jumps before each call; texts of equal length one after the other in one reused buffer; results constructed at one address.",
            "Every call of a sampled history has exactly the outcome of its text alone in a pristine process."),
    "C03": (1000, 30000, "simulated truncation and corruption of the input at every token and byte, ASan and live-block accounting",
            "one index = one text cut and corrupted at every token boundary (and every byte for strings, or everywhere), twelve calls per run in three identical rounds.",
            "No invalid access; live allocations do not grow from round to round once all results are destroyed; allocation kinds match."),
    "C04": (14000, 500000, "simulated damage of the byte stream against an independent scanner and sentinel oracles",
            "generated texts with flipped, lost, duplicated, inserted bytes, NUL, CR, quotes, out-of-range integers, byte order marks, comments; several per run; 1 in 110 puts the damage 4-128 kB (1 in 660: up to 2.1 MB) from the start.",
            "An accepted text contains no damage the reference scanner sees, keeps every made-up name, means the same without comments, and is rejected once an unmatched bracket or unknown character is put anywhere into it."),
    "C05": (7000, 250000, "simulated rejections and failures into fresh and filled results against a reference model",
            "histories of rejected (and, 1 in 5, allocation-failing) parses into fresh and filled results, some rejected 32 700 or 65 500 characters or lines into the text.",
            "After each failing call the statements and parameters held are those from before; message and position inside the text."),
    "C06": (1000, 30000, "allocation-failure injection at every allocation of a call, outcome compared with an undisturbed run",
            "one index = one text with each allocation of its call failing once / from there on / with further ones (sampled above 45 allocations).",
            "The call fails cleanly (false, invalid or std::bad_alloc) or has exactly the undisturbed outcome; never exits, never touches invalid memory. Leaks while unwinding from an allocation failure are not judged."),
    "C07": (5000, 150000, "simulated failure sequences followed by probes, outcome compared with a pristine process",
            "1-5 rounds of 1-3 failing calls (allocation, reject, stderr), or of one failure repeated up to 300 times, or floods of different failing texts, followed by probes into fresh or reset results.",
            "Probes after sampled failure sequences have exactly the outcome of a pristine process."),
    "C08": (9000, 300000, "seeded operation histories on result objects against a reference model",
            "3-60 operations (parse, reset, new, move construct/assign incl. self, release, add, wrap, drop, print) on 2-4 results, all fields compared after each operation, or (one history in three) only after some or at the end, since looking can change state.",
            "Statements, validity, error details after every operation equal the model's."),
    "C09": (4500, 150000, "seeded hand-over histories across simulated threads that exit, ASan and live-block accounting",
            "2-4 phases of 1-3 threads that parse, release, wrap, add, print, drop; threads exit between phases and others take over their statements; in 1 of 6 runs the statements of one batch are shared out among threads, which in half of them only destroy them.",
            "Held statements keep their dump and printed text; no invalid access; no growth of live allocations."),
    "C10": (8000, 300000, "seeded operation histories, parameter list compared with an independent walk of the trees",
            "texts with 0-40 placeholders, single parses and 3-16 operation histories, scripts of 5-130 kB.",
            "Parameter list = placeholders of owned parsed statements, each once; ascending order; order in the text checked by replacing its i-th ? by a marker integer."),
    "C11": (9000, 300000, "simulated concurrent printing/reading and output faults, printed text and trees compared with baselines",
            "2-4 threads printing and reading the same results under seeded schedules; or one thread with std::cout failing at a chosen byte, three rounds.",
            "Trees unchanged, printed text equals the one printed alone, no leak under failing output."),
    "C12": (6000, 200000, "simulated batching of statement streams; recorded lengths cut and replayed",
            "streams of 1-12 (some up to 5 000) statements grouped into batches with varying separators, white space and comments; pieces cut at the recorded lengths are parsed alone.",
            "Batch = concatenation of its parts' outcomes; every piece parses to exactly its statement; nothing but white space and comments is left over."),
    "C13": (7000, 200000, "fault injection on standard error, outcome compared with an undisturbed pristine process",
            "texts that make the scanner print diagnostics, with stderr closed, full, failing with EIO/ENOSPC/EPIPE/EBADF/EAGAIN/EINTR, writing short or nothing, std::cerr made to throw, in 1 of 6 calls together with an allocation failure.",
            "Outcome as without the fault; no exit, no hang."),
    "C14": (7000, 200000, "step-bounded simulation of calls with damaged input, histories and faults",
            "random bytes, cut texts, sized texts up to 12 kB (60 kB thorough) with allocation and stderr faults and histories before the call, the same failure up to 300 times, floods of different texts.",
            "Each call ends within a polynomial step budget, and within its own step count in a pristine process plus slack."),
    "C20": (8000, 250000, "simulated host process compared before and after each call, and by another simulated thread in the middle of calls",
            "hosts with their own locale, signal dispositions and masks, environment, umask, stream settings, handlers, limits and rounding mode; 2-9 parse/tokenize/print/move/drop calls or one call with each of its allocations failing, stderr and std::cout faults, floods; in 2 of 5 runs 1-2 threads call while another one looks at the shared state and the texts at scheduled points inside their calls.",
            "About 110 items of process and thread state are unchanged after each sampled call; those that other threads share are unchanged at each look in between; texts unchanged; parse/tokenize write nothing to standard output. errno and the error state of std::cerr/std::cout are not judged."),
}
SECS = {"quick": 300, "thorough": 3000}
plan = {p: {"quick": {"indices": t[0], "time": SECS["quick"]}, "thorough": {"indices": t[1], "time": SECS["thorough"]}, "rule": t[3], "assumptions": [ENV, t[4]]} for p, t in T.items()}
json.dump(plan, open("plan.json", "w"), indent=1)
NA = {
    "C15": "A pure function of the text: no schedule, fault, time or history occurs in it, so a simulator has nothing to decide.",
    "C16": "A pure function of the literal's text; the parts that do depend on host state (errno, locale, recycled memory) are claimed as C02.",
    "C17": "A pure function of the text; damage and comment handling at delivery are claimed as C04.",
    "C18": "A pure function of the text; that a position exists and lies inside the text is claimed in C05.",
    "C19": "A pure function of the text (a language membership question).",
}
m = {
    "version": 1,
    "setup_cmd": "python3 build.py",
    "checks": [{"property": p, "quick_cmd": "VERIF_TIER=quick python3 check.py --prop %s --tier quick" % p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py --prop %s --tier thorough" % p,
                "evidence_file": "evidence/%s.json" % p, "technique": "deterministic simulation: " + t[2], "level": "exploration", "level_note": t[4] + " Assumes: " + ENV + "."} for p, t in T.items()],
    "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
    "notes": "No hooks in /repo: all seams are link-time wraps and compiler callbacks in /verif. See DESIGN.md.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
