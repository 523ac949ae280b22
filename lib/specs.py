from engine import Job
PROPS = {}
NOT_APPLICABLE = {}

class Prop:
    def __init__(self, pid, jobs, explain="", assumptions=(), technique=None, note=None):
        self.id, self._jobs, self.explain, self.assumptions = pid, jobs, explain, list(assumptions)
        self.technique = technique or "bounded model checking of the C sources (CBMC, SAT), counterexamples replayed natively"
        self.note = note
        PROPS[pid] = self

    def jobs(self, tier):
        return self._jobs(tier == "thorough")

# ---------------------------------------------------------------- circular buffer
def cb(entry, sz, u32=False, split=True, **kw):
    srcs = ["collections/circular_buffer.c"]
    stubs = ()
    defs = ["-DSZ=%d" % sz]
    if u32:
        srcs.append("harness/memmodel.c"); stubs = ("harness/memmodel.c",)
        defs += ["-DGEL_CBUF_TYPE=uint32_t", "-DMM_T=uint32_t"]
    cases = [(t, f) for t in range(sz) for f in range(sz)] if split else None
    return Job("%s-%d%s" % (entry, sz, "-u32" if u32 else ""), "cbuf.c", entry, srcs=srcs, stubs=stubs, defs=defs, hunwind=40, cases=cases,
               unwind=3, bounds="bufsize=%d, all %d positions, element type %s" % (sz, sz * sz, "uint32_t" if u32 else "uint8_t"), **kw)

UF = ["--arrays-uf-always"]
def cbig(entry, sz, tails, u32=False, **kw):
    ty = "uint32_t" if u32 else "uint8_t"
    return Job("%s-%d%s" % (entry, sz, "-u32" if u32 else ""), "cbig.c", entry, ["collections/circular_buffer.c", "harness/watchmem.c"], stubs=("harness/watchmem.c",),
               defs=["-DSZ=%d" % sz, "-DGEL_CBUF_TYPE=" + ty, "-DMM_T=" + ty], hunwind=4, unwind=3, cases=[(t,) for t in tails], optional=True,
               bounds="bufsize=%d, oldest element in slot %s, every fill and length, element type %s, any one element followed" % (sz, "/".join(map(str, tails)), ty), **kw)
def cbigf(entry, sz, u32=False, **kw):
    """with fixed fills: two parts that cross the end of the storage, cross it in one go, fill it, stay below the end"""
    f = [(sz - 1, 2, 3), (sz // 2, sz // 2, sz), (1, sz - 1, 0), (sz - 3, sz - 2, 5), (0, sz // 2, 3)]
    j = cbig(entry, sz, f, u32, **kw)
    j.name = j.base = j.name + "-fills"
    j.defs.append("-DFILLS"); j.cases = f
    j.bounds = j.bounds.replace("every fill and length", "the given fills, every length").replace("slot ", "slot and filled by ")
    return j
def tails(sz):
    return sorted({0, 1, sz // 2, sz - 1} | {t for t in (127, 128, 255, 256, 32767, 65535, 65536) if t < sz})

Prop("C01", lambda th: [cb(e, s) for e in ("fifo_puts", "fifo_gets", "fifo_putc", "fifo_reset") for s in ((2, 5) if not th else (3, 4, 7, 8, 12))]
     + [cb("fifo_puts_gets", 3), cbig("big_gets", 4, range(4), True), cbigf("big_gets", 70000, flags=UF)] + ([cb(e, s, u32=True) for e in ("fifo_puts", "fifo_gets") for s in (2, 3, 4)] + [cbig("big_gets", 9, range(9), u) for u in (False, True)] + [cbigf("big_gets", 300, True), cbigf("big_gets", 65536, flags=UF)] if th else []))
Prop("C02", lambda th: [cb(e, s) for e in ("accounting_put", "accounting_get", "accounting_peek_drop") for s in ((2, 4) if not th else (3, 5, 8))]
     + [cbig("big_single", 300, (0, 299)), cbig("big_single", 70000, (0, 69999), flags=UF)] + ([cbig("big_single", n, tails(n), u, flags=UF) for n, u in ((256, False), (257, True), (32769, False), (65536, False), (65537, False), (70000, False))] if th else []))
Prop("C03", lambda th: [cb(e, s) for e in ("confined_put", "confined_get", "huge_len") for s in ((2, 4) if not th else (3, 5, 8))] + [cb("null_args", 4, split=False)]
     + [cbig("big_gets", 3, range(3), True)] + ([cbig("big_gets", 8, range(8), True)] + [cb("confined_put", s, u32=True) for s in (2, 3, 4)] if th else []))
Prop("C05", lambda th: [cb(e, s) for e in ("peek", "drop", "peek_then_gets") for s in ((2, 5) if not th else (3, 4, 7, 8))]
     + [cbig("big_peek_drop", 4, range(4), True)] + ([cb("peek", s, u32=True) for s in (2, 3, 4)] + [cbig("big_peek_drop", 9, range(9), u) for u in (False, True)] + [cbigf("big_peek_drop", 300, True, flags=UF, timeout=800)] if th else []))

# ---------------------------------------------------------------- macro collections
def qu(entry, cap, qt, nops=2, **kw):
    return Job("%s-cap%d-t%d-n%d" % (entry, cap, qt, nops), "queue.c", entry, defs=["-DQCAP=%d" % cap, "-DQT=%d" % qt, "-DNOPS=%d" % nops],
               hunwind=40, bounds="capacity %d, item type %d, all 65536 start indices, all fills, %d operations" % (cap, qt, nops), **kw)
def qbig(cap, qt=0):
    j = qu("big", cap, qt, 1, flags=UF, optional=True)
    j.bounds = "capacity %d, item type %d, all start indices and fills, any two items followed" % (cap, qt)
    return j
Prop("Q01", lambda th: [qu("fifo", c, t) for c, t in ((1, 0), (2, 2), (4, 1), (8, 0))] + [qbig(512)] + ([qbig(256, 2), qbig(32768), qu("fifo", 16, 0, 3), qu("fifo", 4, 1, 5), qu("fifo", 8, 2, 4)] if th else []))
Prop("Q02", lambda th: [qu("counts", c, t) for c, t in ((1, 0), (2, 2), (4, 1), (8, 0))] + [qbig(32768)] + ([qbig(256, 2), qbig(16384), qu("counts", 16, 0, 4), qu("counts", 4, 1, 6), qu("counts", 32, 0, 2)] if th else []))

def st(entry, cap, ty, nops=3, **kw):
    return Job("%s-cap%d-t%d-n%d" % (entry, cap, ty, nops), "stack.c", entry, defs=["-DSCAP=%d" % cap, "-DST=%d" % ty, "-DNOPS=%d" % nops],
               hunwind=40, unwind=cap + 1, bounds="capacity %d, item type %d, all fills, %d operations" % (cap, ty, nops), **kw)
def sdeep(cases, cap=300, ty=0):
    j = st("deep", cap, ty, 0, cases=cases, flags=["--object-bits", "12"])
    j.hunwind, j.unwind, j.max_unwind = cap + 5, cap + 1, cap + 24
    j.bounds = "capacity %d, item type %d, (items pushed, popped, with a dequeue first): %s" % (cap, ty, cases)
    return j
DEEP = [(298, 3, 0), (299, 45, 0), (255, 1, 1), (256, 2, 0), (257, 3, 1)]
Prop("S01", lambda th: [sdeep(DEEP)] + [st("lifo", c, t) for c, t in ((1, 0), (3, 1), (5, 0))] + ([st("lifo", 8, 1, 5), st("lifo", 16, 0, 4)] if th else []))
Prop("S02", lambda th: [sdeep([(255, 1, 1), (256, 2, 1), (299, 3, 1)])] + [st("bottom", c, t) for c, t in ((1, 0), (3, 1), (5, 0))] + ([st("bottom", 8, 1, 4), st("bottom", 16, 0, 3)] if th else []))
Prop("L01", lambda th: [Job("list_ops-%d-%d" % (a, b), "listx.c", "list_ops", defs=["-DNEL=%d" % a, "-DNOPS=%d" % b], hunwind=a + 2,
                            cases=[(k, d) for k in range(a + 1) for d in ((0, 1) if k else (0,))], bounds="%d elements, any number linked, then %d operations" % (a, b))
                        for a, b in (((4, 1), (2, 2)) if not th else ((4, 1), (3, 2), (2, 3)))])
Prop("M01", lambda th: [Job("laws", "maybe.c", "laws", hunwind=4, bounds="every value of 8, 32 and 64 bit integers and a struct")])

# ---------------------------------------------------------------- single producer, single consumer
import itertools, instrument, engine as _e
def sp(entry, sz, nenv, **kw):
    return Job("%s-%d-e%d" % (entry, sz, nenv), "spsc.c", entry, srcs=["@rw_circular_buffer.c"], pre=instrument.spsc, incs=[_e.REPO + "/gel/collections"],
               defs=["-DSZ=%d" % sz, "-DNENV=%d" % nenv], hunwind=40, unwind=4, cases=[(t, f) for t in range(sz) for f in range(sz)],
               bounds="bufsize %d, all positions, the other side runs at up to %d of all access points" % (sz, nenv), **kw)
SP = ("produce_bulk", "produce_one", "consume_bulk", "consume_one", "sizes")
Prop("C04", lambda th: [sp(e, 3, 1) for e in SP] + ([sp(e, s, n) for e in SP for s, n in ((2, 2), (3, 2), (4, 2), (5, 2))] if th else []))

# ---------------------------------------------------------------- struct update, watcher
SU = ["data_structures/struct_update.c"]
Prop("U01", lambda th: [Job("raw-%d" % n, "supdate.c", "raw", SU, ["-DOBJ=%d" % n], hunwind=48, cases=[(o, l) for o in range(n + 1) for l in range(n + 1 - o)],
                            bounds="objects of %d bytes, every offset and size inside" % n) for n in ((4,) if not th else (8,))]
     + [Job("fields", "supdate.c", "fields", SU, hunwind=64, cases=[(i,) for i in range(11)], bounds="a struct with scalar, array, nested and floating fields"),
        Job("big", "supdate.c", "big", SU, hunwind=310, cases=[(0, 300), (10, 256), (255, 45), (40, 257), (299, 1)] + ([(o, l) for o in (0, 1, 128) for l in (127, 128, 172)] if th else []),
            bounds="objects of 300 bytes, any byte looked at"),
        Job("any_size-70000", "supdate.c", "any_size", SU + ["harness/followmem.c"], ["-DBIG=70000"], stubs=("harness/followmem.c",), hunwind=310, flags=UF, optional=True, bounds="objects of 70000 bytes, every offset and size inside, any byte followed, any other looked at")])
WA = ["data_structures/watcher.c"]
WMORE = ["--slice-formula", "--sat-solver", "cadical", "--object-bits", "12", "--no-standard-checks"]
def wlong(cases):
    return Job("long_list", "watch.c", "long_list", WA, ["-DENTRIES=260"], conf="malloc", hunwind=264, unwind=264, max_unwind=300, cases=cases, flags=WMORE, bounds="a list of 260 entries, two of which change, at the places given by the cases %s" % cases)
def wa(entry, s1, s2, rounds, conf="std", defs=[], **kw):
    kw.setdefault("hunwind", 82)
    return Job("%s-%d-%d-r%d-%s" % (entry, s1, s2, rounds, conf), "watch.c", entry, WA, defs + ["-DSZ1=%d" % s1, "-DSZ2=%d" % s2, "-DROUNDS=%d" % rounds], conf=conf, unwind=4,
               bounds="entries of %d and %d bytes, %d rounds, configuration %s" % (s1, s2, rounds, conf), **kw)
Prop("W01", lambda th: [wa("undelayed", 1, 3, 3), wa("undelayed", 2, 8, 2, "malloc"), wa("large", 260, 3, 1, "malloc", hunwind=270, cases=[(0, 2), (255, 0), (256, 1), (259, 1), (64, 2)]), wa("undelayed", 2, 3, 2, "reduced"), wlong([(256, 259, 0), (255, 3, 0)])] + ([wa("undelayed", 80, 5, 3), wa("undelayed", 4, 16, 5, "malloc")] if th else []))
Prop("W02", lambda th: [wa("delayed", 1, 2, 2, cases=[(0, 0)])]
     + [wa("delayed", 1, 2, 3, cases=[(1, 1), (1, 2), (0, 3)], defs=["-DSPAN=10"]), wa("delayed", 1, 2, 2, "reduced", cases=[(0, 0), (1, 0)])]
     + ([wa("delayed", 1, 2, 4, cases=[(0, 1), (1, 1), (1, 2), (0, 2), (0, 3), (1, 3)], defs=["-DSPAN=16"], timeout=800), wa("delayed", 1, 2, 3, "malloc", cases=[(0, 0)], timeout=800)] if th else []))
Prop("W03", lambda th: [wa(e, a, b, 0, c) for e in ("clearing", "trigger") for a, b, c in (((1, 3, "std"), (2, 8, "malloc"), (3, 1, "reduced")) if not th else ((4, 7, "std"), (80, 1, "std"), (9, 2, "malloc")))] + [wlong([(1, 256, 2), (259, 2, 1)])])

# ---------------------------------------------------------------- debounce, pulse counter
DB = PU = ["debounce/debounce.c", "debounce/pulsecounter.c"]
def de(entry, steps, cases, srcs=DB, **kw):
    return Job("%s-s%d" % (entry, steps), "deb.c", entry, srcs, ["-DSTEPS=%d" % steps], hunwind=34, unwind=33, cases=cases, bounds="%d samples, all 32 inputs" % steps, **kw)
def dlong(hows):
    return Job("long_hold", "deb.c", "long_hold", DB, hunwind=620, unwind=33, cases=[(300, 31, 0, h) for h in hows] + [(257, 0, 256, h) for h in hows], bounds="300 samples on one line, or 256 samples, a glitch and 257 more")
Prop("D01", lambda th: [dlong((0, 1)), de("sequence", 5, [(0,), (1,), (2,), (9,)]), de("single", 4, [(d, k) for d in (0, 1, 2) for k in (0, 1)])] + ([de("sequence", 8, [(d,) for d in (0, 1, 2, 3, 4, 5, 9)])] if th else []))
Prop("D02", lambda th: [de("clean", 3, [(0,), (1,), (2,), (9,)]), de("single", 4, [(d, k) for d in (0, 1, 2) for k in (0, 1)])]
     + ([de("single", 7, [(d, k) for d in (0, 1, 2, 3, 9) for k in (0, 1)])] if th else []))
Prop("P01", lambda th: [dlong((2,)), de("pulses", 5, [(d, l) for d in (0, 1, 2, 9) for l in (0, 1)], PU)] + ([de("pulses", 8, [(d, l) for d in (0, 1, 2, 3, 4, 5, 9) for l in (0, 1)], PU)] if th else []))
Prop("P02", lambda th: [de("pulse_start", 3, [(0,), (1,), (2,), (9,)], PU)])

# ---------------------------------------------------------------- checksums, serializer, state machine
def cr(w, entry, n, long=300, cases=None, **kw):
    return Job("%s-%d-n%d%s" % (entry, w, n, "" if long == 300 else "-%d" % long), "crc.c", entry, ["crc/crc16-ccitt.c" if w == 16 else "crc/crc32.c"], ["-DW=%d" % w, "-DBLEN=%d" % n, "-DLONG=%d" % long],
               hunwind=max(40, long + 10), unwind=(long if "long" in entry else n) + 1, max_unwind=(long + 1 if "long" in entry else 64), cases=cases, bounds="blocks of %d bytes" % (long if "long" in entry else n), **kw)
def VL(w):
    return cr(w, "very_long", 1, 65537, timeout=500, optional=True, flags=["--no-standard-checks", "--verbosity", "6"])
def xpoly(w):
    return lambda th: [cr(w, "polynomial", n) for n in ((1, 2) if w == 16 and not th else (1,) if not th else (1, 2, 3))] + [cr(w, "segments", n, cases=[(i - 1, i) for i in range(1, n + 1)], flags=["--z3"]) for n in ((6,) if not th else (16,))] \
        + [cr(w, "long_block", 1)] + [VL(w)]
Prop("X01", xpoly(16))
Prop("X02", xpoly(32))
def xseg(w, n):
    return cr(w, "segments", n, cases=[(k, l) for k in range(n + 1) for l in range(k, n + 1)], flags=["--z3"])
Prop("X03", lambda th: [xseg(w, n) for w in (16, 32) for n in ((5,) if not th else (8, 12))] + [VL(w) for w in (16, 32)])
Prop("X04", lambda th: [cr(w, e, n, cases=[(i,) for i in pos]) for w, n, pos in (((16, 3, range(24)), (32, 4, (0, 12, 15, 18, 21, 24, 27, 31))) if not th else ((16, 5, range(40)), (32, 4, range(32)), (32, 5, range(40)))) for e in ("burst", "two_bits") for pos in ([i for i in pos if th or w == 16 or e == "two_bits" or i >= 12],)])
Prop("Z01", lambda th: [Job("roundtrip", "ser.c", "roundtrip", hunwind=18, bounds="every value of every width, every buffer content")])
Prop("Z02", lambda th: [Job(e, "ser.c", e, hunwind=18, bounds="every value and buffer content") for e in ("pack", "names", "unpack8", "unpack16", "unpack32", "unpack_once")])
Prop("A01", lambda th: [Job("many_states", "sm.c", "many_states", [], ["-DMANY"], hunwind=310, cases=[(299, 256), (255, 0), (1, 257)], bounds="300 states, two of which have handlers that may be called")] + [Job("moves-e%d-s%d" % (e, n), "sm.c", "moves", [], ["-DEV=%d" % e, "-DSTEPS=%d" % n], hunwind=12, bounds="4 states, %d events" % n) for e in (0, 1) for n in ((4,) if not th else (10,))])

# ---------------------------------------------------------------- time, stopwatch, timer
Prop("T01", lambda th: [Job("%s-%s" % (e, ty or "default"), "timech.c", e, [], ["-DTS=%s" % ty] if ty else [], bounds="every value of the timestamp type %s" % (ty or "unsigned long"))
                        for e in ("order", "expiry", "not_yet", "expressions") for ty in (None, "uint8_t", "uint16_t", "uint32_t", "uint64_t")])
TM = ["timer/stopwatch.c", "timer/timer.c"]
def tm(entry, steps, cases, span=10, defs=[], **kw):
    return Job("%s-s%d-%d%s" % (entry, steps, span, "".join(defs).replace("-D", "-")), "stopw.c", entry, TM, ["-DSTEPS=%d" % steps, "-DSPAN=%d" % span] + defs, hunwind=12, cases=cases,
               bounds="%d operations, timestamps over 2^%d ticks around 0, 2^32, 2^63 and 2^64 (case 0: anywhere)" % (steps, span), **kw)
LONG = ["-DSH=30"]
OPS2 = [(o, q) for o in range(7) for q in range(7)]
Prop("T02", lambda th: [tm("watch", 3, [(1 + (o + q) % 3, o, q) for o, q in OPS2]), tm("watch_full", 0, [(0, 0), (0, 1), (0, 2)]), tm("watch", 3, [(1 + (o + q) % 3, o, q) for o, q in OPS2], defs=LONG)]
     + ([tm("watch", n, [(b, o, q) for b in bs for o, q in OPS2], 16, timeout=800) for n, bs in ((3, (1, 2, 3, 4)), (4, (1, 2)))] if th else []))
Prop("T03", lambda th: [tm("watch", 3, [(1 + (o + q) % 3, o, q) for o, q in OPS2], defs=["-DREACHED"]), tm("watch_full", 0, [(0, 0), (0, 1)], defs=["-DREACHED"]), tm("watch", 3, [(1 + (o + q) % 3, o, q) for o, q in OPS2], defs=["-DREACHED"] + LONG)]
     + ([tm("watch", n, [(b, o, q) for b in bs for o, q in OPS2], 16, defs=["-DREACHED"], timeout=800) for n, bs in ((3, (1, 2, 3, 4)), (4, (1, 2)))] if th else []))
Prop("T04", lambda th: [tm("timer", 2, cases=[(1, a, o, q) for a in (0, 1, 2) for o in range(6) for q in range(6) if a == 2 or 5 in (o, q)]), tm("timer", 2, cases=[(1, a, o, q) for a in (0, 1, 2) for o in range(6) for q in range(6) if a == o % 3], defs=LONG)]
     + ([tm("timer", 2, [(b, a, o, q) for b in (1, 2, 3, 4) for a in (0, 1, 2) for o in range(6) for q in range(6)], 16, timeout=800), tm("timer", 3, [(1, a, o, q) for a in (0, 2) for o in range(6) for q in range(6)], 16, timeout=800)] if th else []))

# ---------------------------------------------------------------- scheduler
SC = ["scheduler/scheduler.c"]
CAD = ["--sat-solver", "cadical"]
def sc(entry, n, dyn=False, cases=None, **kw):
    return Job("%s-%d%s" % (entry, n, "-dynamic" if dyn else ""), "sched.c", entry, SC, ["-DNE=%d" % n, "-DGEL_SCHEDULER_DYNAMIC_ENTRIES"] if dyn else ["-DGEL_SCHEDULER_MAX_ENTRIES=%d" % n],
               hunwind=20, unwind=n + 1, unwindset={r".*(total_week_timespan).*": 8}, cases=cases, bounds="%d entries%s, cases %s" % (n, " chosen at run time" if dyn else "", cases), **kw)
def smany(cases):
    j = sc("many", 300, True, cases=cases, flags=["--object-bits", "12"])
    j.hunwind, j.unwind, j.max_unwind, j.bounds = 310, 302, 400, "300 entries chosen at run time, two of them with any content, at the places given by the cases %s" % cases
    return j
HOURS, MOMENTS = [(h,) for h in range(24)], [(h,) for h in range(100, 105)]
PAIRS = [(a, b) for a in range(1, 8) for b in range(1, 8)]
Prop("H01", lambda th: [sc("activity", 1, cases=HOURS), sc("activity", 5, cases=MOMENTS[1:4]), sc("activity", 16, cases=MOMENTS[1:2]), sc("activity", 2, True, cases=MOMENTS)] + ([sc("activity", 16, cases=MOMENTS), sc("activity", 8, True, cases=MOMENTS), sc("activity", 2, cases=HOURS, flags=CAD)] if th else []))
QP = [(1, 1), (1, 7), (7, 1), (3, 6), (5, 4), (7, 7), (2, 5), (6, 3)]
Prop("H02", lambda th: [sc("selection", 2, cases=[(100 + (a + b) % 5, a, b) for a, b in QP], flags=CAD), sc("selection", 3, True, cases=[(101, 1, 2), (102, 1, 2)], flags=CAD), sc("current", 2, cases=[(101, 1, 1), (103, 6, 2)], flags=CAD)]
     + ([sc("selection", 2, cases=[(100 + (a + b) % 5, a, b) for a, b in PAIRS], flags=CAD), sc("selection", 3, cases=[(100 + (a + b) % 5, a, b) for a, b in PAIRS], flags=CAD, timeout=800),
         sc("selection", 5, cases=[(101, 2, 4)], flags=CAD, timeout=800, optional=True), sc("current", 2, cases=[(100 + (a + b) % 5, a, b) for a, b in PAIRS], flags=CAD), sc("selection", 2, cases=[(h, 3, 5) for h in range(24)], flags=CAD, timeout=800, optional=True)] if th else []))
Prop("H03", lambda th: [sc("remaining", 1, cases=HOURS), sc("remaining", 3, True, cases=MOMENTS), sc("current", 2, cases=[(101, 1, 1), (104, 2, 1)], flags=CAD), sc("duration", 1)]
     + ([sc("remaining", 7, cases=MOMENTS), sc("remaining", 3, cases=HOURS, flags=CAD), sc("current", 2, cases=[(100 + (a + b) % 5, a, b) for a, b in PAIRS], flags=CAD)] if th else []))
Prop("H04", lambda th: [sc("serialization", 1)])
Prop("H05", lambda th: [sc("accessors", 7), sc("accessors", 1), sc("accessors", 3, True), sc("accessors", 9, True), smany([(299, 256, 1, 256), (256, 0, 2, 255), (255, 298, 0, 256)])] + ([sc("accessors", 16), sc("accessors", 20, True)] if th else []))
Prop("H06", lambda th: [sc("overlaps", 3, flags=CAD), sc("overlaps", 7, flags=CAD), sc("overlaps", 2, True, flags=CAD)] + ([sc("overlaps", 16, flags=CAD)] if th else []))

# ---------------------------------------------------------------- PID
def ops3(*digits):
    return sum(d * 3 ** i for i, d in enumerate(digits))
def pi(entry, steps, cases, bits=10, conf="pid", **kw):
    return Job("%s-s%d-%db-%s" % (entry, steps, bits, conf), "pid.c", entry, ["pid/pid.c"], ["-DSTEPS=%d" % steps, "-DBITS=%d" % bits], conf=conf, hunwind=max(40, steps + 2), unwind=8 if conf == "pid" else 201, max_unwind=256, cases=cases,
               bounds="%d operations of given kinds, values up to 2^%d in magnitude, configuration %s, gains from the table" % (steps, bits, conf), **kw)
SEQ = [ops3(0, 1, 0, 0, 0), ops3(1, 0, 0, 1, 0), ops3(1, 0, 2, 0, 0), ops3(1, 0, 0, 0, 0)]
def plong(cases):
    return pi("long_run", 205, cases, 6, "std", flags=SLC)
def pwide(cases):
    j = pi("long_run", 305, cases, 6, "pid300", flags=SLC)
    j.unwind, j.max_unwind = 301, 340
    return j
def pf(entry, steps, cases, bits):
    """configuration with float inputs and outputs; values are quarters and gains (where sums are involved) powers of two, so that nothing is rounded"""
    j = pi(entry, steps, cases, bits, "pidf", flags=SLC)
    j.defs.append("-DFRACTION"); j.unwind = 8; j.bounds += ", values in quarters"
    return j
SLC = ["--slice-formula", "--sat-solver", "cadical"]
Prop("I01", lambda th: [pi("proportional", 0, [(g, o) for g in range(5) for o in (0, 1)], 20, flags=SLC), pi("sum_of_terms", 3, [(g, s) for g in range(5) for s in (ops3(0, 1, 0), ops3(1, 0, 0))], 4, flags=SLC), pf("proportional", 0, [(g, o) for g in range(5) for o in (0, 1)], 10), pf("sum_of_terms", 2, [(g, s) for g in (0, 1) for s in (ops3(0, 1), ops3(1, 0))], 3)])
def seqs(n, digits=(0, 2)):
    return [ops3(*t) for t in itertools.product(digits, repeat=n)]
Prop("I02", lambda th: [pi("integral", 5, [(g, s) for g in range(3) for s in SEQ] + [(0, s) for s in seqs(5)], 6, flags=SLC), pi("integral", 4, [(0, s, 1) for s in (0, ops3(0, 2, 0, 0), ops3(0, 0, 0, 2))], 6, flags=SLC), plong([(0, i, 0) for i in (4, 5, 100, 204)]), pwide([(0, i, 0) for i in (4, 5, 40, 304)]), pf("integral", 4, [(1, ops3(0, 1, 0, 0), 1), (1, ops3(1, 0, 2, 0), 1), (0, 0)], 3)]
     + ([pi("integral", 6, [(0, s) for s in seqs(6, (0, 1, 2)) if s % 3 != 2], 8, flags=SLC, timeout=800), pi("integral", 4, [(g, s, 1) for g in range(5) for s in seqs(4)], 8, flags=SLC, timeout=800), plong([(0, i, 0) for i in range(0, 205, 17)])] if th else []))
Prop("I03", lambda th: [pi("derivative", 5, [(g, s) for g in range(3) for s in SEQ] + [(0, ops3(1, 1, 1, 1, 0))], 6, flags=SLC), pi("derivative", 3, [(0, s, 1) for s in seqs(3, (0, 1))], 6, flags=SLC), plong([(0, i, 1) for i in (198, 199, 200, 204)]), pwide([(0, i, 1) for i in (43, 44, 45, 304)]), pf("derivative", 3, [(1, ops3(1, 0, 0), 1), (0, ops3(0, 1, 0), 1), (0, 0, 1), (0, ops3(1, 0, 1), 1)], 4)]
     + ([pi("derivative", 6, [(0, s) for s in seqs(6, (0, 1, 2)) if s % 3 != 2], 8, flags=SLC, timeout=800), pi("derivative", 4, [(g, s, 1) for g in range(5) for s in seqs(4, (0, 1))], 8, flags=SLC, timeout=800), plong([(0, i, 1) for i in range(0, 205, 17)])] if th else []))
Prop("I04", lambda th: [pi("limited", n, [(0, s, f, t) for t, fs in ((0, (1, 2, 4, 7)), (1, (8, 15))) for f in fs for s in ss], 4, flags=SLC) for n, ss in ((4, (ops3(1, 0, 0, 0), ops3(0, 1, 0, 0), ops3(0, 0, 1, 0))),)]
     + [pf("limited", 3, [(0, s, f, d) for s in (ops3(1, 0, 0), ops3(0, 1, 0), 0) for f, d in ((1, 0), (2, 0), (4, 0), (7, 0), (8, 1))], 4)])

# ---------------------------------------------------------------- event log, wear levelling
def el(entry, cap, es, cases, defs=[], **kw):
    return Job("%s-c%d-e%d" % (entry, cap, es), "evlog.c", entry, ["circular_event_log/circular_event_log.c"], ["-DCAP=%d" % cap, "-DES=%d" % es] + (["-DFAULTS"] if entry == "faults" else []) + defs, hunwind=(cap + 1) * es + 12 + 2 * cap, unwind=4, cases=cases,
               bounds="capacity %d, events of %d bytes, up to %d saves, every number and jump" % (cap, es, max(c[0] for c in cases)), **kw)
def elany(es, wide):
    j = el("any_size", 3, es, [(0,), (1,)], defs=["-DWIDE=%d" % wide], flags=CAD, timeout=500)
    j.bounds = "any capacity and position below 2^%d, any number and jump with at most 70000 events in the window, events of %d bytes" % (wide, es)
    return j
Prop("E01", lambda th: [el("windows", c, s, [(k,) for k in range(2 * c + 2)]) for c, s in (((1, 1), (3, 2), (4, 1)) if not th else ((1, 3), (2, 2), (5, 2), (8, 1)))] + [elany(4, 32)] + ([elany(1, 40), elany(3, 20), elany(8, 48)] if th else []) + [el("large", 260, 3, [(k,) for k in ((257, 262) if not th else (256, 257, 259, 260, 262, 530))], defs=["-DBIG"])])
Prop("E02", lambda th: [el("faults", c, s, [(k,) for k in range(2 * c + 2)]) for c, s in (((1, 1), (3, 1)) if not th else ((2, 2), (4, 1), (5, 2)))])
def we(entry, n, writes, cases, block=2, **kw):
    return Job("%s-n%d-w%d-b%d" % (entry, n, writes, block), "wear.c", entry, ["wearleveling/wearleveling.c"], ["-DN=%d" % n, "-DWRITES=%d" % writes, "-DBLOCK=%d" % block], hunwind=max(n, block) + 3, unwind=n + 1, max_unwind=300, cases=cases,
               bounds="%d blocks of %d bytes, %d writes, every marker" % (n, block, writes), **kw)
def phases(n):
    return [(a, f) for a in range(n) for f in (0, 1) if not (f and a == n - 1)]
WB = [(0, 0, 0), (1, 1, 200), (253, 0, 254), (254, 0, 255)]
wbig = lambda th: [we("big", 255, 2, WB if not th else WB + [(130, 0, 255), (130, 1, 255), (253, 1, 3), (254, 0, 7)]), we("long_blocks", 2, 1, [(0, 299, 3)] + ([(0, 0, 255), (1, 255, 3), (1, 256, 3)] if th else []), block=300)]
Prop("V01", lambda th: [we("rotation", n, w, phases(n)) for n, w in (((1, 2), (2, 3), (4, 2)) if not th else ((3, 5), (7, 3)))] + wbig(th))
Prop("V02", lambda th: [we("restart", n, w, phases(n)) for n, w in (((1, 2), (2, 3), (4, 2)) if not th else ((3, 5), (7, 3)))] + [we("fresh", n, 0, [(k,) for k in range(n + 2)]) for n in ((1, 3) if not th else (2, 5))] + wbig(th))
Prop("V03", lambda th: [we("rotation", n, w, phases(n)) for n, w in (((1, 1), (3, 2), (5, 1)) if not th else ((3, 4), (8, 2)))] + wbig(th))
Prop("V04", lambda th: [we("faults", n, 1, [(a, f, k) for a, f in phases(n) for k in (0, 1, 2)]) for n in ((1, 2, 3) if not th else (4, 6))])

# ---------------------------------------------------------------- keypad
def digits(b, text):
    return sum(int(c) * b ** i for i, c in enumerate(text))
def ke(entry, nk, steps, seqs, span=4, defs=[], third=lambda i: i % 2, base=lambda i: i % 4, shift=lambda i: 0, **kw):
    return Job("%s-k%d-s%d-t%d" % (entry, nk, steps, span), "keys.c", entry, ["keypad/keypad.c"], ["-DNK=%d" % nk, "-DSTEPS=%d" % steps, "-DSPAN=%d" % span] + defs, hunwind=14, unwind=nk + 1,
               cases=[(base(i), digits(nk + 1, s), third(i), shift(i)) for i, s in enumerate(seqs)], bounds="%d keys, %d scans showing the keys %s (0: none), timestamps and thresholds of %d bits around wrap-around" % (nk, steps, " ".join(seqs), span), **kw)
def words(b, n):
    return ["".join(w) for w in itertools.product("0123456789"[:b], repeat=n)]
Prop("K01", lambda th: [ke("follow", 2, 6, ("111111", "111100", "110011", "111222", "222111", "111011", "220000", "121200"), flags=CAD, shift=lambda i: i % 2 * 30), ke("follow", 3, 5, ("33333", "31111", "03330", "11233"), flags=CAD), ke("follow", 5, 5, ("55555", "15555", "50000", "55004"), flags=CAD)]
     + ([ke("follow", 2, 8, ("11111111", "11111100", "11110011", "11112222", "01111000", "22222111"), 8, flags=CAD, timeout=800), ke("follow", 2, 4, words(3, 4), 6, flags=CAD, shift=lambda i: i % 3 * 20), ke("follow", 1, 7, words(2, 7), 5, flags=CAD)] if th else []))
Prop("K02", lambda th: [ke("table", 2, 4, ("1111", "1200", "2100", "1121", "2212", "0110", "0222"), defs=["-DSTRIDE=3"], third=lambda i: (9, 2, 9, 3)[i % 4], flags=CAD),
                        ke("table", 4, 3, ("444", "331", "111"), defs=["-DSTRIDE=3"], third=lambda i: 9, flags=CAD), ke("table", 8, 2, ("81", "11", "88", "80"), defs=["-DSTRIDE=3"], third=lambda i: 9, flags=CAD)]
     + ([ke("table", 2, 4, words(3, 4), defs=["-DSTRIDE=3"], third=lambda i: (9, 2, 9, 3)[i % 4], flags=CAD), ke("table", 3, 4, ("1230", "3210", "3331", "2310", "1330", "3022", "2200"), defs=["-DSTRIDE=7"], third=lambda i: 9, flags=CAD),
          ke("table", 3, 3, words(4, 3), defs=["-DSTRIDE=3"], third=lambda i: 1 + i % 3, flags=CAD)] if th else []))

# ---------------------------------------------------------------- parameters
def pa(entry, cases, conf="std", **kw):
    part = {"operate": 1, "ranges": 2, "defaults": 2, "visible": 4, "convert": 5, "cloning": 6, "copy_refused": 6, "totals": 7, "construct": 8, "format": 9, "long_list": 4}[entry]
    if entry.startswith("long"): kw.update(hunwind=306, unwind=301, max_unwind=330, flags=CAD)
    return Job("%s-%s" % (entry, conf), "param.c", entry, ["parameter/parameter.c"], ["-DPART_%d" % part] + (["-include", _e.VERIF + "/harness/fmt.h"] if part == 9 else []), cases=cases, conf=conf, bounds="cases %s (types 0..9), every value, limit, default and step" % (cases,) if not entry.startswith("long") else "a list of 300, cases (levels, number) %s" % cases, **dict(dict(hunwind=10, unwind=5), **kw))
INT_T, ALL_T = list(range(8)), list(range(10))
def small(entry, rest, ints=False, **kw):
    """the configurations with GEL_PARAMETER_MAX_SIZE 4, 2 and 1, which have fewer types"""
    return [pa(entry, [(t,) + r for t in ts if not (ints and t > 7) for r in rest], "param%d" % n, **kw) for n, ts in ((4, (0, 1, 2, 3, 4, 5, 8)), (2, (0, 1, 2, 3)), (1, (0, 1)))]
def palong(entry):
    return [Job("%s-260" % entry, "param.c", entry, ["parameter/parameter.c"], ["-DPART_2", "-DLONG=260"], hunwind=306, unwind=261, max_unwind=330, flags=CAD + ["--object-bits", "12"], cases=[(258, 259), (16, 255), (32, 256), (7, 259, 1)], replaced=["parameter_get_handle"], optional=True, timeout=300,
                bounds="a list of 260, two of them (258 and 259, 16 and 255, 32 and 256) with any value, the others in range or (7 and 259) all out of range; the lookup by number is replaced by its specification (R04)")]
MODS = (1, -1, 2, -3, 0, 98, 99)
FMODS = (1, -1, 2, -2, 1, 98, -1)
Prop("R01", lambda th: [pa("operate", [(t, (t + i) % 4, m) for t in INT_T for i, m in enumerate(MODS)] + [(t, o % 4, m, o) for t in (8, 9) for o, m in enumerate(FMODS)], flags=CAD)] + small("operate", [(0, 1, 0), (1, -1, 0), (2, -1, 0), (3, 2, 1)], flags=CAD)
     + ([pa("operate", [(t, d, m) for t in INT_T for d in range(4) for m in MODS + (5, 10, -7, -100)] + [(t, d, -99) for t in range(6) for d in (0, 3)] + [(t, d, m, o) for t in (8, 9) for o in range(7) for d in (0, 3) for m in (1, -1, 10)], flags=CAD, timeout=800),
         pa("operate", [(8, 0, 1, 7), (8, 3, -1, 7), (7, 0, -99), (6, 0, -99)], flags=CAD, timeout=800, optional=True)] if th else []))
TRI = [(0, 1, 2), (3, 4, 5), (6, 7, 8), (9, 8, 1), (7, 3, 9)]
Prop("R02", lambda th: [pa("ranges", [(t, 10, 10, (t + i) % 4) for t in ALL_T for i in range(4 if th else 2)] + [(a, b, c, i % 4) for i, (a, b, c) in enumerate(TRI)] + ([(a, b, c, d) for a in (0, 3, 8) for b in ALL_T for c in (1, 7, 9) for d in (0, 3)] if th else []), flags=CAD)] + small("ranges", [(10, 10, d) for d in (0, 3)], flags=CAD) + palong("long_ranges"))
Prop("R03", lambda th: [pa("defaults", [(t, 10, 10, 0) for t in ALL_T] + [(a, b, c, 0) for a, b, c in TRI] + ([(a, b, c, 3) for a in ALL_T for b in ALL_T for c in (1, 7, 9)] if th else []), flags=CAD)] + small("defaults", [(10, 10, 0)], flags=CAD) + palong("long_defaults"))
Prop("R04", lambda th: [pa("long_list", [(7, 299), (6, 99), (5, 200), (3, 299), (4, 256)] + ([(7, 256), (3, 0), (4, 0), (4, 255), (2, 57)] if th else [])), pa("visible", [(n, m) for n, m in ((1, 0), (1, 1), (2, 1), (2, 2), (3, 5), (3, 2), (3, 0), (3, 7)) + (((4, 0), (4, 15), (4, 9), (4, 6), (0, 0)) if th else ())])])
Prop("R05", lambda th: [pa("convert", [(t,) for t in INT_T])] + small("convert", [()], True))
Prop("R06", lambda th: [pa("cloning", [(t, k) for t in ALL_T for k in (0, 1, 2)]), pa("copy_refused", [(a, b) for a in ALL_T for b in ALL_T if a != b and (th or (a + 2 * b) % 5 == 0)])] + small("cloning", [(0,), (1,), (2,)]))
Prop("R07", lambda th: [pa("totals", [(t, d) for t in INT_T for d in range(4)])] + small("totals", [(0,), (3,)], True)[:2])
Prop("R08", lambda th: [pa("construct", [(t,) for t in ALL_T])] + small("construct", [()]))

Prop("R09", lambda th: [pa("format", [(t,) for t in ALL_T])] + small("format", [()]))

# ---------------------------------------------------------------- page manager
def pg(g, steps, cases, upd=True, **kw):
    return Job("navigate-s%d%s" % (steps, "" if upd else "-noupdate"), "pages.c", "navigate", ["pagemanager/page_manager.c"], ["-DG=%d" % g, "-DSTEPS=%d" % steps] + (["-DGEL_PAGEMANAGER_UPDATE_CALLBACK"] if upd else []),
               hunwind=steps + 3, unwind=7, cases=cases, bounds="%d operations of given kinds, pages of two kinds with given callbacks, navigation depth up to %d" % (steps, steps), **kw)
def pgtall(g, cases):
    return Job("tall", "pages.c", "tall", ["pagemanager/page_manager.c"], ["-DG=%d" % g, "-DTALL", "-DSTEPS=1"], conf="big", hunwind=310, unwind=302, max_unwind=400, cases=cases, flags=["--slice-formula", "--no-standard-checks", "--object-bits", "12"],
               bounds="(number of pages, what happens then: 0 back one by one, 1 reset to a page, 2 rebase; the page) %s, navigation depth 260" % cases)
def nav(*words):
    return [int(w[::-1]) for w in words]
NAV = nav("00070", "01660", "02160", "00470", "01375", "00761", "16062", "00076", "12345", "00668", "70007", "31786")
def pagewords(n, prefix="0"):
    """all ways to go on after the prefix: push, swap, rebase, back, reset, with and without an extra argument in turn"""
    r = []
    for i, t in enumerate(itertools.product("02467", repeat=n)):
        w = prefix + "".join(t)
        r.append("".join(str(int(c) + 1) if c in "024" and (i * 7 + k * 3) % 5 < 2 else c for k, c in enumerate(w)))
    return nav(*r)
def navm(ws):
    return [(w, 31, 31, (0b010110, 0b101101)[i % 2]) for i, w in enumerate(ws)]
NAVP = [(nav("01626")[0], a, b, 0b01101) for a, b in ((30, 31), (29, 30), (27, 23), (15, 31), (0, 31))]
for g, pid in enumerate(("G01", "G02", "G03"), 1):
    Prop(pid, lambda th, g=g: [pg(g, 5, navm(NAV + pagewords(2, "000")) + NAVP), pg(g, 4, navm(pagewords(3))), pg(g, 4, navm(w % 10000 for w in NAV[:3]), False), pg(g, 7, navm(nav("0000006", "0000007", "0000004", "0000002", "0006666", "0100007")))]
         + ([pgtall(g, [(258, 0, 0), (258, 1, 100), (258, 2, 0)])] if g < 3 else [])
         + ([pg(g, 5, navm(pagewords(4))), pg(g, 6, navm(pagewords(2, "0000") + nav("000868", "006868")) + [(w, a, b, 0b0110101) for w in nav("000646", "017260", "003766") for a in (31, 30, 29, 27, 23, 15, 0) for b in (31, 0, 7)])] if th else []))
