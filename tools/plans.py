"""What each check runs: harness modes, flavours, case counts (quick, thorough),
what must have been observed at least, and what the evidence file says."""
import os
import vlib
from vlib import Outcome

COMMON = ["x86-64, little endian; allocations succeed; the compilers, sanitizer runtimes and libc are trusted",
          "generated, mutated, exhaustive-small and coverage-guided inputs: a violation outside the explored inputs is not seen"]
REF = "the reference model (harness/model.cpp) states SML and the vendor workarounds correctly"


def R(mode, flavour, q, t, **k):
    return dict(mode=mode, flavour=flavour, cases=(q, t), **k)


def msan(ck, b, tier, seed, outs):
    """C01: the recorded inputs once more in a build under MemorySanitizer"""
    binary = b.msan_binary()
    prefixes = outs.get(("gen", "plain"), [])
    futs = [(p, b.pool.submit(vlib.run_msan, binary, p + ".inputs", p + ".msan", 250 if tier == "quick" else 3000)) for p in prefixes]
    for p, f in futs:
        o = f.result()
        if o.kind == "ok":
            ck.counts["records under MemorySanitizer"] = ck.counts.get("records under MemorySanitizer", 0) + o.res
            ck.evals += o.res
        elif o.kind == "violation":
            o.flavour = "msan"
            o.inp = record(p + ".inputs", o.unit)
            ck.violations.append(o)
        else:
            ck.errors.append("MSan: %s %s" % (o.key, o.msg))


def record(path, n):
    """hex of the n-th recorded input"""
    import struct
    try:
        with open(path, "rb") as f:
            for i in range(n + 1):
                l, = struct.unpack("<I", f.read(4))
                name = f.read(l)
                cur, m = struct.unpack("<II", f.read(8))
                d = f.read(m)
            return "%s@%d:%s" % (name.decode(), cur, d.hex())
    except Exception:
        return ""


def traces(ck, b, tier, seed, outs):
    """C13: every build must have produced the same results"""
    base, basefl = {}, None
    compared = 0
    for (mode, fl), prefixes in outs.items():
        if mode != "c13":
            continue
        cur = {}
        for p in prefixes:
            for line in open(p + ".trace"):
                u, a, w = line.split()
                cur[int(u)] = (a, w)
        if basefl is None:
            base, basefl = cur, fl
            continue
        for u in sorted(cur):
            if u in base:
                compared += 1
                if base[u] != cur[u]:
                    ck.violations.append(Outcome("violation", "build-dependent", "unit %d: the %s differs between the builds %s and %s" % (u, "result of parsing" if base[u][0] != cur[u][0] else "encoding of the result", basefl, fl), u, argv=["--mode", "c13", "--seed", str(seed), "--shard", str(u % 8), "--nshards", "8", "--cases", "1000000"]))
                    ck.violations[-1].flavour = fl
                    break
    ck.counts["results compared across builds"] = compared


PLANS = {
 "C01": dict(runs=[R("c01", "asan", 15000, 1500000), R("c01", "gcc-asan", 5000, 200000), R("gen", "plain", 75000, 2000000)], after=msan, fuzz=(80000, 6000000),
   rule="one evaluation = one byte string parsed (as file, as one of 38 element types, or as transport stream), its result inspected, printed, converted, written again and freed under ASan+UBSan (clang -O1 and gcc -O0) or MSan; distinct = hash of the input bytes; inputs of four bytes or less count as trivial",
   need={"nested trees": 100, "huge: list": 10, "huge: value list": 8, "huge: messages": 4, "huge: string": 4, "nesting depths": 100, "element counts": 1000, "message counts": 120, "exhaustive short inputs": 200000, "records under MemorySanitizer": 10000, "coverage-guided: elements": 1000, "truncation sweeps": 50},
   assumptions=["MemorySanitizer runs without the UUID library (no instrumented build of it exists here)"]),
 "C02": dict(runs=[R("c02", "asan", 12500, 1200000), R("c02", "asan-nouuid", 3750, 100000)], fuzz=(80000, 6000000),
   rule="one evaluation = one parse/build/write/print/compare/free history with the allocator shim's live-block table and /proc/self/fd compared before and after; double and invalid frees are ASan reports; distinct = hash of input bytes",
   need={"frames not accepted": 300, "containers with absent entries": 200, "nesting depths": 100, "element counts": 1000, "message counts": 120, "files built": 500, "helper rounds": 300, "transport reads": 200, "exhaustive short inputs": 200000},
   assumptions=["allocation failure is not injected: the library does not claim to survive it", "parsers started on an already erroneous buffer are not charged for what they keep (the library never does that)"]),
 "C03": dict(runs=[R("c03", "asan", 12500, 1500000), R("c03", "gcc-O2", 6250, 375000)], fuzz=(80000, 6000000),
   rule="one evaluation = one file parsed and the delivered messages compared, in order, with those an independent decoder with bitwise CRCs accepts; distinct = hash of file bytes",
   need={"nesting depths": 100, "message counts": 120, "single-bit errors": 10000, "special checksum values": 100, "checksum field values": 65536, "message lengths with wrong checksums": 1000, "messages dropped for checksum": 5000, "crc: Kermit": 500}, assumptions=[REF]),
 "C04": dict(runs=[R("c04", "asan", 20000, 2000000), R("c04", "gcc-O2", 10000, 500000)], fuzz=(80000, 6000000),
   rule="one evaluation = one well-formed file parsed and every public field of every delivered message compared with the model's content; distinct = hash of file bytes",
   need=dict([("nesting depths", 100), ("optional-field subsets", 1000), ("element counts", 1000), ("message counts", 120), ("boundary lengths", 200), ("tree shapes", 60)]), assumptions=[REF]),
 "C05": dict(runs=[R("c05", "asan", 12500, 1200000), R("c05", "gcc-O2", 6250, 300000)], fuzz=(50000, 3000000),
   rule="one evaluation = one file or element written (repeatedly, into dirty, small, replaced and pre-filled buffers) and decoded by the independent decoder and by the library; distinct = hash of the content's encoding",
   need={"nesting depths": 100, "message counts": 120, "boundary lengths": 200, "repeated writes": 2000, "parsed files written": 2000, "type-length fields": 100000}, assumptions=[REF, "an empty octet string and an absent one, and a time without value and an absent one, have the same encoding and are not distinguished"]),
 "C06": dict(runs=[R("c06", "asan", 50000, 6000000), R("c06", "gcc-O2-uchar", 10000, 500000)],
   rule="one evaluation = one number (value, transmitted width, signedness) read as reading, status word and typed field, converted, written and read again; distinct = value, width and sign",
   need={"exhaustive numbers": 130000, "edge numbers": 20000, "created numbers": 100000}, assumptions=["floating point conversion is judged against the compiler's long double conversion, which is exact for 64-bit integers"]),
 "C07": dict(runs=[R("c07", "asan", 15000, 1500000), R("c07", "gcc-O3-nouuid", 7500, 375000)], fuzz=(80000, 6000000),
   rule="one evaluation = one file with a structural fault (checksum recomputed) or truncation, delivered messages compared with those the independent decoder accepts; distinct = hash of file bytes",
   need={"systematic single faults": 120000, "truncations": 2000, "number widths": 10000, "type tags": 4000, "files with a rejected message": 20000},
   assumptions=[REF, "left open, accepted either way: non-canonical type-length fields, zero-length numbers, a non-zero end-of-message byte, the choice tag of a time, trees nested deeper than 100"]),
 "C08": dict(runs=[R("c08", "cost", 20000, 1500000)],
   rule="one evaluation = one input parsed and freed while counting basic-block edges, bytes moved by memory functions, peak live heap and stack depth; distinct = hash of input bytes",
   need={"stretched: a list": 400, "stretched: a string": 800, "stretched: nested trees": 30, "stretched: one length": 30, "max:input bytes": 200000, "max:edges per 1000 bytes, releasing": 1, "elements with unbacked lengths": 1000}, assumptions=["the limits are constants several times above what the current code needs (120 edges and 120 bytes of heap per input byte, 512 KiB of stack)"]),
 "C09": dict(runs=[R("c09", "asan", 10000, 1000000), R("c09", "gcc-O2", 5000, 250000)],
   rule="one evaluation = one byte stream with planted frames, noise and damage, read through sml_transport_read or sml_transport_listen with injected short reads, EINTR, EAGAIN and errors, the reported frames compared with the planted ones; distinct = hash of stream and buffer size",
   need={"long interruptions": 300, "long noise": 15, "start lookalikes": 6000, "listener runs": 300, "frames that must survive damage": 3000, "pipe streams": 16, "live streams": 400, "frames beyond 8 KiB": 40, "idle lines": 32, "buffer sizes": 60, "read errors": 500}, assumptions=["payloads contain no transport escape sequence (see the finding of C10)"]),
 "C10": dict(runs=[R("c10", "asan", 12500, 1500000), R("c10", "gcc-O2", 6250, 375000)],
   rule="one evaluation = one file sent with a chosen outcome of write(), the bytes accepted by the descriptor and the return value judged by an independent frame decoder; distinct = hash of content and fault",
   need={"frames read back": 2000, "accepted prefixes": 1000, "faults reported": 1000, "parsed files sent": 500}, assumptions=[REF]),
 "C11": dict(runs=[R("c11", "asan", 15000, 2000000), R("c11", "gcc-O2-uchar", 7500, 200000)],
   rule="one evaluation = one byte string given to both checksum functions and compared with the bitwise definition; distinct = hash of the string",
   need={"exhaustive short strings": 60000, "single-bit errors": 20000, "burst errors": 20000, "long strings": 12}, assumptions=[]),
 "C12": dict(runs=[R("c12", "tsan", 4000, 250000), R("c12", "tsan-nouuid", 750, 30000), R("c12", "plain-nowrap", 7500, 500000)],
   rule="one evaluation = one round of 2-8 threads working on their own objects (or reading one shared file) under ThreadSanitizer at -O0, every result compared with the same work done alone; distinct = hash of the round's inputs",
   need={"threads": 3000, "results compared": 20000, "shared files": 500, "concurrent reads": 5000, "yields": 2000}, assumptions=["ThreadSanitizer sees races between accesses that both happen in a run; interleavings are those of the scheduler with injected yields and sleeps"]),
 "C13": dict(runs=[R("c13", f, 7500, 400000) for f in ("asan", "clang-O3", "gcc-O0", "gcc-O2-uchar", "gcc-O3-nouuid")], after=traces,
   rule="one evaluation = one input parsed under different histories, alignments, heap contents, positions in a file and with the caller's buffer overwritten and freed, canonical dumps compared; the dumps of five builds are compared with each other; distinct = hash of input bytes and build",
   need={"results compared with a fresh process": 10000, "messages moved": 5000, "results compared across builds": 8000}, assumptions=["builds: clang 18 and gcc 13, -O0 to -O3, char signed and unsigned, with and without the UUID library"]),
 "C14": dict(runs=[R("c14", "asan", 20000, 2000000), R("c14", "gcc-O2", 10000, 500000)], fuzz=(50000, 3000000),
   rule="one evaluation = one file around the affected meters parsed and compared with the reference's independent statement of the workarounds; distinct = hash of file bytes",
   need={"affected-meter value sweeps": 10000, "lists with a corrected reading": 500, "time forms": 400, "Kermit messages": 500}, assumptions=[REF]),
 "C15": dict(runs=[R("c15", "plain", 2250, 150000, server=True, timeout=(300, 3400))],
   rule="one evaluation = one run of the sml_server binary (ASan+UBSan build) on a stream of well-formed frames, every output line compared with the expected reading; distinct = hash of the stream",
   need={"number readings": 3000, "octet string readings": 500, "boolean readings": 200, "units and scalers": 2000, "runs with -s": 50, "files reported with -v": 200, "open pipes": 20, "files given by name": 40, "arguments": 8, "string lengths printed": 4000}, assumptions=["number lines are judged to 4e-15 relative accuracy", "frames whose payload contains 1b1b1b1b are not sent (finding of C10)"]),
 "C16": dict(runs=[R("c16", "asan", 5000, 60000, ids=True, hashkey="ids"), R("c16", "asan-nouuid", 5000, 60000, ids=True, hashkey="ids")],
   rule="one evaluation = one transaction id, compared with all ids created before it, by other threads, forked processes and, by hash, by all other processes of the run; distinct = hash of the id",
   need={"ids with standard descriptors closed": 3000, "ids of one long-lived process": 1000000, "ids created one after the other": 15000, "ids from eight threads": 15000, "ids from forked processes": 8000, "ids from simultaneous processes": 6000}, assumptions=["ids are compared within one run of the check"]),
 "C17": dict(runs=[R("c17", "asan", 15000, 2000000), R("c17", "gcc-O2-uchar", 15000, 600000)],
   rule="one evaluation = one string or text given to the helper functions and compared with independent definitions; distinct = hash of the bytes",
   need={"hex dumps of repeated bytes": 300, "comparisons": 20000, "conversions": 20000, "hex pairs": 60000, "malformed texts": 2000}, assumptions=[]),
 "C18": dict(runs=[R("c18", "asan", 10000, 800000), R("c18", "gcc-asan", 2000, 100000)], fuzz=(30000, 2000000),
   rule="one evaluation = one content written to a library-created buffer of one size at one position under ASan+UBSan; afterwards the complete encoding must be present or an error reported; distinct = hash of content",
   need={"number widths": 5000, "encodings complete": 50000, "frames": 5000}, assumptions=[]),
 "C19": dict(runs=[R("c19", "asan", 20000, 3000000), R("c19", "gcc-O2", 10000, 750000)], fuzz=(120000, 8000000),
   rule="one evaluation = one call of one of 38 element parsers on one buffer content and position, position, error mark, content and later calls compared with the reference; distinct = hash of parser and content",
   need={"messages accepted": 2000, "messages rejected": 2000, "messages written": 2000, "elements written": 4000, "exhaustive short inputs": 200000, "elements accepted": 5000, "elements rejected": 20000, "truncation sweeps": 50},
   assumptions=[REF, "left open, accepted either way: non-canonical type-length fields, zero-length numbers, a string ending exactly at the end of the buffer"]),
 "C20": dict(runs=[R("c20", "plain", 1750, 150000, server=True, timeout=(300, 3400))],
   rule="one evaluation = one run of the sml_server binary (ASan+UBSan build) on a hostile stream; exit status, sanitizer reports and the readings of every intact frame are judged; distinct = hash of the stream",
   need={"readings that had to be printed": 3000, "noise streams": 100, "odd frames": 500, "damaged streams": 100, "string lengths printed": 4000}, assumptions=["frames beginning within one buffer length after damage need not be received"]),
 "C21": dict(runs=[R("c21", "asan", 7500, 600000), R("c21", "gcc-O2", 7500, 600000)],
   rule="one evaluation = one history of 20 to 70 calls on two to five files (parse, build, add, change in place, exchange, print, write, send, convert, compare, free), after every call the content of every file compared with a model of it; distinct = hash of the messages involved",
   need={"contents compared": 30000, "answers repeated": 3000, "adding to a sequence": 300, "adding to a list": 200, "adding a tree": 300, "adding a path entry": 300, "adding a message": 1000, "freeing a file": 1000, "values converted": 10000, "comparisons": 10000, "entries added to one message": 1000, "changing in place": 2000, "exchanging messages": 500}, assumptions=[REF]),
}
