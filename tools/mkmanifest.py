#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
T = {
 "C01": ("ASan+UBSan (clang -O1, gcc -O0), MSan and coverage-guided fuzzing over hostile inputs", "every execution watched by memory and undefined-behaviour sanitizers; exhaustive for inputs up to 3 bytes over a 23-byte alphabet per element parser, sampled beyond"),
 "C02": ("allocator and descriptor monitor (live-block table, /proc/self/fd) under ASan, generated and coverage-guided histories", "books balanced after every call history explored; allocation failure not injected"),
 "C03": ("online monitor: delivered messages compared with an independent decoder using bitwise CRCs", "all single-bit errors of sampled messages, special checksum values, sampled corruptions"),
 "C04": ("online monitor: canonical dump of every public field compared with an independent model", "every optional-field subset of all 14 types, boundary lengths, sampled contents"),
 "C05": ("online monitor: written bytes decoded by an independent decoder and by the library, dirty and reused buffers, under ASan", "all length-field boundaries, sampled contents and write histories"),
 "C06": ("online monitor against exact 128-bit arithmetic", "all one- and two-byte numbers exhaustively, all bit boundaries and sampled values of three to eight bytes"),
 "C07": ("online monitor: faulty messages with repaired checksum against an independent decoder, systematic single faults, coverage-guided", "every type and length fault at every element of sampled messages of all types, every truncation of sampled files"),
 "C08": ("cost monitor: edge counter, allocator and memory-function shims, stack watermark, against linear limits", "34 scaling families up to 10^6 bytes (4*10^6 thorough) and sampled hostile inputs"),
 "C09": ("offline checker of reported frames against the planted ones, injected short reads, EINTR, EAGAIN, errors, ASan red zones", "sampled streams, about 6500 start lookalikes (every byte substitution, omission and insertion, every short sequence of the bytes that matter), all buffer sizes to 60, live input that never sends more than the next frame"),
 "C10": ("independent frame decoder over the bytes accepted by the descriptor, injected write outcomes", "all frame lengths modulo padding, all accepted prefixes of sampled frames; one known finding (transport escape)"),
 "C11": ("online monitor against the bitwise definition of both checksums", "all strings up to two bytes, a grid of three, sampled to 2^24 bytes"),
 "C12": ("ThreadSanitizer at -O0 with injected yields, results compared with a sequential run", "sampled interleavings; a race is reported whenever both accesses occur in a run"),
 "C13": ("metamorphic monitor: dumps across histories (including a process that parsed nothing before), heap fills, positions and five builds", "sampled inputs and histories"),
 "C14": ("online monitor against an independent statement of the workarounds", "range boundaries exhaustively, a grid of all one- and two-byte values, sampled lists"),
 "C15": ("output monitor: sml_server's lines against exact decimal expectations", "all unit codes and scalers, sampled lists and options, standard input, named files, open pipes and terminal lines"),
 "C16": ("offline uniqueness checker over ids of sequences, threads, forks and processes, both UUID configurations, descriptor limit 64", "about 10^5 ids per run"),
 "C17": ("online monitor against independent definitions, under ASan+UBSan", "all byte pairs and hex pairs, sampled strings to 12 MB"),
 "C18": ("ASan+UBSan while writing into buffers of every size, completeness monitor", "all sizes for elements below 60 bytes, sizes around the need and sampled otherwise"),
 "C19": ("online monitor: position, error mark and content of each element and message parser and writer against an independent decoder", "exhaustive for contents up to 3 bytes over a 23-byte alphabet, sampled and coverage-guided beyond"),
 "C21": ("model-based online monitor: histories of calls on several files under ASan, every file compared with its model after every call, answers compared with earlier ones, allocator and descriptor books", "sampled histories of 20 to 70 calls, containers grown to 300 entries"),
 "C20": ("sanitized sml_server on hostile streams; exit status, reports and output judged", "sampled streams"),
}
m = {"version": 1, "setup_cmd": "python3 -m py_compile tools/vlib.py tools/check.py tools/plans.py",
     "checks": [{"property": k, "quick_cmd": "python3 tools/check.py " + k, "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + k,
                 "technique": "runtime monitoring: " + t, "level": "exploration",
                 "level_note": n + ". Observes executions only; trusts the compilers, sanitizer runtimes and the reference model in harness/."} for k, (t, n) in T.items()],
     "not_applicable": [],
     "notes": "No hooks in /repo: the checks compile sml/src and examples/sml_server.c themselves with sanitizers and link-time wrappers (see DESIGN.md). Replay a reported violation with: python3 tools/check.py <id> --replay <path>."}
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w"), indent=1)
