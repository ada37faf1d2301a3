#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]   decides one property of dash7-rs
check.py --replay FILE                                      tries the input of a violation again

Exit 0: it held on everything explored; 1: violated (VIOLATION line); 2: the check could not be done."""
import collections
import json
import os
import random
import re
import subprocess
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import engine
from engine import FLAVOURS, Broken, Check, judge, keep_results, run_recorder

ITEM_INV = ["TypeOK", "RoundTrip", "CutRejected", "TailUntouched", "Stable", "NoOverread", "Emitted"]
EX_INV = ["NeverFails", "InOrder", "Complete", "OnlyLastForwards", "AllAtOnce", "Cuts", "Emitted"]
IN_INV = ["FirstOfKind", "RestInOrder", "NothingLost", "Codes_", "Emitted"]
SW_INV = ["Bounded_", "Canonical", "OriginalOk", "Emitted"]
UP_INV = ["InSync", "Idempotent", "FreshIsSynced", "Emitted"]
CC_INV = ["Appends", "ForwardStops", "InFrame", "Repeats", "Emitted"]
ST_INV = ["OnlyBytesCount", "FailureSurfaces", "NoMore", "Emitted"]
FIT_INV = ["Fits", "Codes_", "Emitted"]
CLI_INV = ["RightType", "Order", "WholeItems", "BadTextFails", "Emitted"]
TO_INV = ["Isolated", "Ready", "Progress_", "Emitted"]
CROSS_INV = ["SenderUnderstood", "SameMeaning", "SameBytes", "Refused", "Emitted"]

INTERFACE = {"InterfaceConfiguration", "Dash7Config", "LoRaWanABP", "LoRaWanOTAA", "IndirectInterface", "Addressee",
             "QoS", "Dash7Status", "InterfaceStatus", "LoRaWanBase"}
FILES = {"File", "FileHeader", "Channel", "ChannelHeader", "ChannelStatus", "SubBand", "SubProfile", "AccessClass",
         "AccessProfile", "FactorySettings", "FirmwareVersion", "EngineeringMode", "PhyStatus", "DllConfig",
         "DllStatus", "SecurityKey", "EngineeringMethod", "FilePermissions", "PropertyByte"}
FRAMES = {"BackgroundFrame", "ForegroundFrame", "NetworkFrame", "TransportFrame", "TransportControl", "AckTemplate",
          "NetworkControl", "HoppingControl", "BackgroundControl", "ForegroundControl"}
NUMBERS = {"Length", "VarInt", "FileOffset"}
OPERANDS = {"ActionStatus", "Permission", "PermissionLevel", "FilePermissions", "PropertyByte"}
ALL = INTERFACE | FILES | FRAMES | NUMBERS | OPERANDS | {"Action", "Query"}
EVERYWHERE = FLAVOURS + ["subiot_v0_0"]      # the first version of Sub-IoT has statuses without a length
GREEDY = {"NetworkFrame", "TransportFrame", "File"}
EVERY = {"Action", "Query"}


def own(fl, kinds, base=None):
    """the final and transmission statuses of an interface exist in one flavour only"""
    if fl == "wizzilab" and (base is None or base in kinds):
        return kinds | {"FinalStatus", "FinalCode", "TxStatus"}
    return kinds


def items(c, kinds, mode, n, strange=False, final="InterfaceStatus", flavours=FLAVOURS, tag=0):
    jobs = []
    n *= 2 if c.hints and mode == "rt" and n <= 400 else 1
    for fl in flavours:
        jobs += c.suite("Items", dict(Strange=strange, Kinds=own(fl, set(kinds), final), N=n, Seed=c.seed + tag, Mode=mode),
                        ITEM_INV, flavours=[fl])
    return jobs


def big(c, forms, sizes, flavours=FLAVOURS, huge=()):
    jobs = []
    sizes = set(sizes) | {h for h in c.hints if h <= 70000}
    for fl in flavours:
        f = set(forms)
        if fl != "wizzilab":
            f -= {"FinalStatus", "TxStatus", "InterfaceFinal", "Transmission"}
        if f:
            jobs += c.suite("Big", dict(Strange=False, Forms=f, Sizes=set(sizes), HugeSizes=set(huge), Seed=c.seed),
                            ["RoundTrip", "HeadAndTail", "Emitted"],
                            flavours=[fl])
    return jobs


def exchange(c, maxlen, planned, long, emission="cmd", strange=False, flavours=FLAVOURS, tag=0):
    return c.suite("Exchange", dict(Strange=strange, MaxLen=maxlen, Planned=planned, LongLens=set(long) | c.lengths(planned), Seed=c.seed + tag,
                                    Emission=emission), EX_INV, flavours=flavours)


def sweep(c, kinds, n, front, stride, judge, flavours=FLAVOURS, strange=False):
    jobs = []
    for fl in flavours:
        jobs += c.suite("Sweep", dict(Strange=strange, Kinds=own(fl, set(kinds), "InterfaceStatus"), N=n, Seed=c.seed,
                                      Front=front, Stride=stride, Judge=set(judge)), SW_INV, flavours=[fl])
    return jobs


def vary(c, kinds, n, front, stride, step, flavours=FLAVOURS, final="InterfaceStatus", strange=True, pairs=0):
    jobs = []
    for fl in flavours:
        jobs += c.suite("Vary", dict(Strange=strange, Kinds=own(fl, set(kinds), final), N=n, Seed=c.seed, Front=front,
                                     Stride=stride, Step=step, Pairs=pairs), ["Back", "Emitted"], flavours=[fl])
    return jobs


def bases(c, fl, kinds, n, commands):
    """valid items to start from, as the specification makes them"""
    out = []
    if kinds:
        r = c.tlc("Items", dict(Flavour=fl, Strange=True, Kinds=own(fl, set(kinds), "InterfaceStatus"), N=n, Seed=c.seed,
                                Mode="rt"), ITEM_INV)
        out += [{"t": x["t"], "id": x["id"], "b": x["b"]} for x in map(json.loads, r.cases)]
    if commands:
        r = c.tlc("Exchange", dict(Flavour=fl, Strange=True, MaxLen=0, Planned=commands, LongLens=set(), Seed=c.seed,
                                   Emission="cmd"), EX_INV)
        out += [{"t": "Command", "id": 0, "b": x["in"]} for x in map(json.loads, r.cases)]
    path = c.fresh("bases.jsonl")
    with open(path, "w") as f:
        for b in out:
            f.write(json.dumps(b) + "\n")
    return path


def observe(c, n, aspects, kinds=ALL, per=2, commands=40, flavours=FLAVOURS, rounds=1):
    """arbitrary inputs, tried by the library and judged by the specification"""
    def one(fl):
        def go():
            b = bases(c, fl, kinds, per, commands)
            for k in range(rounds):
                t = c.fresh("observed.jsonl")
                run_recorder(c, fl, "record", [b, str(c.seed * 1000 + k), str(n)], t)
                keep_results(t)
                judge(c, "TraceDecode", fl, t, dict(Chunks=64, Aspects=set(aspects)), ["Judged", "Counted_"])
        return go
    return [one(fl) for fl in flavours]


def sessions(c, n, aspects, commands=40, flavours=FLAVOURS, rounds=1, quiet=False):
    def one(fl):
        def go():
            b = bases(c, fl, set(), 0, commands)
            for k in range(rounds):
                t = c.fresh("sessions.jsonl")
                run_recorder(c, fl, "sessions", [b, str(c.seed * 1000 + k), str(n)], t, quiet=quiet)
                judge(c, "TraceSession", fl, t, dict(Aspects=set(aspects)), ["Judged", "Finished"])
        return go
    return [one(fl) for fl in flavours]


def table(c, which, flavours, full=False):
    def one(fl):
        def go():
            t = c.fresh(which + ".jsonl")
            args = {"lengths": ["full" if full else "quick"]}.get(which, [])
            if run_recorder(c, fl, which, args, t, deep=full) == 0:
                judge(c, "Tables", fl, t, dict(Which=which, Full=full), ["Judged", "Whole"])
        return go
    return [one(fl) for fl in flavours]


# ---- the properties --------------------------------------------------------------------------------------
def c01(c):
    t = c.thorough
    jobs = exchange(c, 3 if t else 2, 1500 if t else 300, {25, 200, 700} if t else {60, 300}, strange=True,
                    flavours=EVERYWHERE)
    jobs += big(c, {"Command"}, {0, 63, 64, 16384} if not t else {0, 1, 61, 62, 63, 64, 65, 300, 16382, 16383, 16384, 16385})
    jobs += exchange(c, 0, 0, {3000} if t else {1100}, strange=True, tag=7)
    jobs += c.suite("Concat", dict(Strange=False, N=0, Seed=c.seed, Again=40 if t else 4), CC_INV, flavours=EVERYWHERE)
    if t:
        jobs.append(lambda: c.tlc("Exchange", dict(Flavour="wizzilab", Strange=True, MaxLen=2, Planned=10, LongLens={30},
                                                   Seed=c.seed, Emission="none"), EX_INV[:-1], spec="Spec",
                                  properties=["Ends"]))
    return jobs


def c02(c):
    t = c.thorough
    jobs = items(c, {"Action"} | OPERANDS, "rt", 600 if t else 100, strange=True, final=None, flavours=EVERYWHERE)
    jobs += vary(c, {"Action"}, 4 if t else 2, 40, 8 if t else 24, 1 if t else 3, final=None, pairs=10 if t else 6)
    jobs += big(c, {"WriteFileData", "ReturnFileData", "WriteFileDataFlush", "ActionQuery", "FinalStatus", "Status", "InterfaceFinal", "Transmission"},
                {63, 64, 65, 255, 256, 16383, 16384, 65535, 65536} if t else {63, 64, 256, 16384})
    jobs += big(c, {"WriteFileData", "ReturnFileData", "WriteFileDataFlush", "ActionQuery"} if t else {"ReturnFileData", "ActionQuery"},
                {0, 300} if t else {2}, huge={65537, 4194303, 4194304, 9000000} if t else {4194303, 4194304},
                flavours=FLAVOURS if t else ["spec"])
    if t:
        jobs += items(c, {"Action"}, "rt", 600, strange=True, final=None, tag=100)
    return jobs


def c03(c):
    t = c.thorough
    jobs = items(c, INTERFACE, "rt", 1500 if t else 250, strange=True, flavours=EVERYWHERE)
    jobs += vary(c, INTERFACE, 16 if t else 2, 40, 8, 1 if t else 3, flavours=EVERYWHERE, pairs=16 if t else 5)
    jobs += big(c, {"InterfaceStatus", "FinalStatus", "TxStatus"}, {63, 64, 65, 255, 256, 16383, 16384, 65536} if t else {63, 64, 256, 16384})
    if t:
        jobs += items(c, INTERFACE, "rt", 1500, strange=True, tag=100)
        jobs += items(c, INTERFACE, "stable", 200, strange=True)
    return jobs


def c04(c):
    t = c.thorough
    q = {"ComparisonWithZero", "ComparisonWithValue", "ComparisonWithOtherFile", "BitmapRangeComparison", "StringTokenSearch"}
    jobs = items(c, {"Query", "FileOffset"}, "rt", 2500 if t else 350, final="")
    jobs += vary(c, {"Query", "FileOffset"}, 40 if t else 4, 40, 8, 1 if t else 2, final="", pairs=16 if t else 6)
    jobs += big(c, q, {0, 1, 62, 63, 64, 65, 255, 256, 16383, 16384, 16385, 65536} if t else {0, 63, 64, 256, 16384})
    if t:
        jobs += items(c, {"Query"}, "rt", 2500, final="", tag=100)
        jobs += items(c, {"Query"}, "tail", 200, final="")
    return jobs


def c05(c):
    t = c.thorough
    jobs = items(c, FILES, "rt", 150 if t else 25, final="")
    jobs += vary(c, FILES - {"File"}, 12 if t else 1, 60, 8, 1 if t else 3, final="", pairs=16 if t else 5)
    jobs += items(c, FILES - {"File"}, "tail", 40 if t else 3, final="")
    jobs += big(c, {"File", "WriteFileData", "ReturnFileData"}, {0, 1, 63, 64, 255, 256, 16384, 65536})
    jobs += c.suite("Contents", dict(Strange=False, N=60 if t else 4, Seed=c.seed), ["Carried", "ExactOrRaw", "Verbatim", "Parted", "Emitted"])
    return jobs


def c06(c):
    t = c.thorough
    jobs = items(c, FRAMES, "rt", 1500 if t else 250, final="")
    jobs += vary(c, FRAMES, 40 if t else 4, 16, 8, 1 if t else 3, final="", pairs=12 if t else 5)
    jobs += items(c, FRAMES - GREEDY, "tail", 300 if t else 15, final="")
    jobs += big(c, {"ForegroundFrame"}, set(range(30, 56)) | {16360, 16370, 16384} if t else set(range(40, 54, 2)) | {220, 240, 300, 2000})
    if t:
        jobs += items(c, FRAMES, "rt", 1500, final="", tag=100)
    return jobs


def c07(c):
    t = c.thorough
    jobs = table(c, "lengths", ["spec"] if t else ["spec"], full=t)
    jobs += items(c, {"Length", "FileOffset"}, "rt", 3000 if t else 1500, final="")
    for m in ("stable", "tail"):
        jobs += items(c, {"Length", "FileOffset"}, m, 3000 if t else 600, final="")
    return jobs


def c08(c):
    t = c.thorough
    jobs = table(c, "varints", FLAVOURS)
    jobs += items(c, {"VarInt"}, "rt", 3000 if t else 800, final="")
    jobs += items(c, {"VarInt"}, "stable", 3000 if t else 600, final="")
    return jobs


def c09(c):
    return observe(c, 20000, {"crash"}, rounds=8 if c.thorough else 1,
                   per=6 if c.thorough else 2, commands=200 if c.thorough else 40) \
        + sessions(c, 2000 if c.thorough else 500, {"crash"}, rounds=3 if c.thorough else 1)


CODED = {"Permission", "PermissionLevel", "EngineeringMethod", "NetworkControl", "HoppingControl", "BackgroundControl",
         "ForegroundControl", "PropertyByte", "Query", "QoS", "Addressee", "ChannelHeader", "ChannelStatus", "EngineeringMode", "FileHeader", "InterfaceStatus",
         "InterfaceConfiguration", "IndirectInterface", "AccessClass", "SubProfile"}


def c10(c):
    t = c.thorough
    c.not_ours.add("K1")         # how it is written again is C14's concern
    j = {"codes", "again"}
    jobs = sweep(c, {"Action"}, 4 if t else 1, 8 if t else 4, 16 if t else 60, j, flavours=EVERYWHERE)
    jobs += sweep(c, CODED, 6 if t else 2, 20 if t else 8, 16 if t else 40, j)
    jobs += sweep(c, {"BackgroundFrame", "NetworkFrame", "ForegroundFrame"}, 6 if t else 1, 12 if t else 4, 16 if t else 60, j)
    jobs += observe(c, 15000 if t else 5000, {"codes"}, rounds=4 if t else 1, flavours=EVERYWHERE)
    return jobs


def c11(c):
    t = c.thorough
    jobs = exchange(c, 1, 800 if t else 60, set(), emission="cut", strange=True, flavours=EVERYWHERE)
    jobs += items(c, ALL - GREEDY, "cut", 120 if t else 8, strange=True)
    jobs += sweep(c, ALL - GREEDY - {"ForegroundFrame"}, 4 if t else 1, 40 if t else 16, 8 if t else 40, {"incomplete"})
    jobs += observe(c, 15000 if t else 4000, {"incomplete"}, rounds=4 if t else 1)
    return jobs


def c12(c):
    t = c.thorough
    c.not_ours.add("K1")         # how it is written again is C14's concern
    jobs = items(c, ALL - GREEDY, "tail", 120 if t else 8, strange=True)
    jobs += exchange(c, 1, 400 if t else 60, set(), strange=True, flavours=EVERYWHERE)
    jobs += c.suite("Concat", dict(Strange=False, N=400 if t else 30, Seed=c.seed, Again=0), CC_INV)
    jobs += sweep(c, ALL - GREEDY, 4 if t else 1, 20 if t else 8, 16 if t else 40, {"count"})
    jobs += observe(c, 15000 if t else 3000, {"count"}, rounds=4 if t else 1)
    jobs += c.suite("Contents", dict(Strange=False, N=60 if t else 3, Seed=c.seed), ["Carried", "ExactOrRaw", "Verbatim", "Parted", "Emitted"])
    return jobs


def c13(c):
    t = c.thorough
    jobs = exchange(c, 3 if t else 2, 800 if t else 200, {400} if t else {60, 300})
    jobs += c.suite("Concat", dict(Strange=False, N=1200 if t else 200, Seed=c.seed, Again=20 if t else 4), CC_INV)
    jobs += sessions(c, 3000 if t else 800, {"steps"}, rounds=3 if t else 1)
    return jobs


def c14(c):
    t = c.thorough
    kinds = ALL - {"ForegroundFrame"}
    jobs = items(c, kinds, "stable", 150 if t else 25, strange=True, flavours=EVERYWHERE)
    jobs += observe(c, 15000 if t else 6000, {"again"}, kinds=kinds, rounds=4 if t else 1)
    if t:
        jobs += sweep(c, {"Action"} | CODED, 2, 6, 24, {"again"})
    return jobs


def c15(c):
    t = c.thorough
    return c.suite("Inspect", dict(Strange=True, MaxLen=4 if t else 3, Planned=6000 if t else 1200, Seed=c.seed,
                                   Emission="insp"), IN_INV, properties=["Monotone"])


def c16(c):
    t = c.thorough
    return c.suite("Inspect", dict(Strange=False, MaxLen=4 if t else 3, Planned=6000 if t else 1200, Seed=c.seed,
                                   Emission="show"), IN_INV, properties=["Monotone"])


def c17(c):
    t = c.thorough
    jobs = []
    for fl in FLAVOURS:
        for kinds, n, f in (({"Action"}, 6 if t else 2, 40 if t else 12), ({"Command"}, 60 if t else 25, 60 if t else 30),
                            (own(fl, ALL - {"Action"}), 6 if t else 2, 20 if t else 8)):
            def go(fl=fl, kinds=kinds, n=n, f=f):
                r = c.tlc("Streams", dict(Flavour=fl, Strange=False, Kinds=kinds, N=n, Seed=c.seed, Faults=f), ST_INV)
                c.replay(fl, r.cases, name="streams", quiet=True)
            jobs.append(go)
    jobs += sessions(c, 3000 if t else 600, {"steps"}, quiet=True, rounds=3 if t else 1)
    return jobs


def c18(c):
    t = c.thorough
    jobs = c.suite("Update", dict(Strange=False, MaxOps=3 if t else 2, N=6 if t else 8, Seed=c.seed), UP_INV)
    jobs += items(c, ALL | {"Command"}, "new", 200 if t else 20, flavours=EVERYWHERE)
    return jobs


def c19(c):
    t = c.thorough
    return c.suite("Fit", dict(Strange=False, Kinds=ALL - {"BackgroundFrame", "ForegroundFrame", "NetworkFrame"},
                               N=20 if t else 6, Seed=c.seed), FIT_INV)


def spell(case, rnd):
    h = bytes(case["in"]).hex()
    s = case["style"]
    if s == "upper":
        return h.upper()
    if s == "blanks":
        out = []
        for ch in h:
            out.append(ch)
            if rnd.random() < 0.4:
                out.append(rnd.choice([" ", "\t", "\n", "  ", "\u00a0", "\r\n", "\u2003", "\u3000", "\x0b", "\x0c", "\u0085", "\u2028"]))
        return rnd.choice(["", " ", "\n"]) + "".join(out) + rnd.choice(["", " "])
    if s == "odd":
        return h + "a" if rnd.random() < 0.5 or not h else h[:-1]
    if s == "letter":
        k = rnd.randrange(0, len(h) // 2 + 1) * 2
        return h[:k] + rnd.choice(["g0", "0x", "zz", "1:", "1,", "-1", "_0", "0h", "\uff11\uff12", "\u0661\u0662", "\u200b\u200b", "\ufeff", "\\x", "#0"]) + h[k:]
    return h


def c20(c):
    t = c.thorough

    def one(fl):
        def go():
            built = c.builders.submit(engine.build_cli, fl)
            r = c.tlc("Cli", dict(Flavour=fl, Strange=False, N=60 if t else 8, Seed=c.seed), CLI_INV)
            cases = [json.loads(x) for x in r.cases]
            if len(cases) < 500 or not all(any(x["kind"] == k for x in cases) for k in ("fg", "bg", "alp", "file", "fail")):
                raise Broken("too few command line cases")
            src, out = c.fresh("cli.jsonl"), c.fresh("texts.jsonl")
            with open(src, "w") as f:
                f.write("\n".join(r.cases) + "\n")
            exe = built.result()
            rc, so, se = c.run_harness(fl, ["prints", src, out])
            if rc != 0:
                raise Broken("harness: prints, exit %d %s" % (rc, se[-300:]))
            texts = [json.loads(x) for x in open(out)]
            rnd = random.Random(c.seed)
            kinds = collections.Counter()
            todo = []
            for x, w in zip(cases, texts):
                args = ["parse"]
                if x["type"]:
                    args += [rnd.choice(["-t", "--type"]), x["type"]]
                if x["f"] >= 0:
                    args += ["-f", str(x["f"])]
                args.append(spell(x, rnd))
                todo.append((x, w, args))

            def run(one):
                x, w, args = one
                try:
                    p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60,
                                       stdin=subprocess.DEVNULL, cwd=c.work, preexec_fn=engine.limits)
                except subprocess.TimeoutExpired:
                    return x, w, args, None, "", ""
                return x, w, args, p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
            import concurrent.futures as cf
            with cf.ThreadPoolExecutor(8) as ex:
                for x, w, args, rc, so, se in ex.map(run, todo):
                    kinds[x["kind"]] += 1
                    bad = None
                    if rc is None:
                        bad = "does not end"
                    elif x["kind"] == "fail":
                        if rc == 0:
                            bad = "succeeds with %r, it should fail" % so[:200]
                        elif so.strip():
                            bad = "fails but prints %r" % so[:200]
                    elif rc != 0:
                        bad = "fails (exit %d, %s), it should print the %s" % (rc, se.strip()[-200:], x["kind"])
                    elif not w["ok"]:
                        bad = "prints %r, which the library does not decode" % so[:200]
                    elif so.strip() != w["text"].strip():
                        bad = "prints %r instead of %r" % (so[:300], w["text"][:300])
                    if bad:
                        c.violation("%s: dash7 %s: %s" % (fl, " ".join(map(repr, args)), bad),
                                    {"flavour": fl, "args": args, "expected": x, "text": w["text"]})
            with c.lock:
                c.traces += len(todo)
                c.counts["runs"] = c.counts.get("runs", 0) + len(todo)
                for k, n in kinds.items():
                    c.counts["runs " + k] = c.counts.get("runs " + k, 0) + n
                c.samples.append({"flavour": fl, "args": todo[len(todo) // 3][2], "expected": todo[len(todo) // 3][0]})
        return go
    return [one(fl) for fl in (EVERYWHERE if t else FLAVOURS)]


def c21(c):
    return table(c, "ids", FLAVOURS)


def c22(c):
    t = c.thorough
    # the rest is different by nature: C03 and C06 look at it flavour by flavour
    kinds = (ALL | {"Command"}) - {"Dash7Config", "Addressee", "Dash7Status", "NetworkFrame", "NetworkControl", "ForegroundFrame"}

    def go():
        r = c.tlc("Cross", dict(Kinds=kinds, N=60 if t else 12, Seed=c.seed), CROSS_INV, workers=6, heap="6g")
        by = {}
        for x in r.cases:
            by.setdefault(json.loads(x)["fl"], []).append(x)
        if sorted(by) != sorted(EVERYWHERE):
            raise Broken("a flavour is missing")
        c.parallel([lambda fl=fl: c.replay(fl, by[fl], name="cross") for fl in by])
    return [go]


def c23(c):
    t = c.thorough
    jobs = []
    for fl in FLAVOURS:
        jobs += c.suite("Together", dict(Strange=False, Kinds=own(fl, ALL | {"Command"}), N=1500 if t else 100, Seed=c.seed),
                        TO_INV, flavours=[fl])
    return jobs


TABLE = {"C%02d" % i: globals()["c%02d" % i] for i in range(1, 24)}
RULE = {
    "C01": "every command of up to MaxLen actions over all action kinds, plus planned random commands (with seeded operands); each is built, encoded, decoded and compared in the library",
    "C07": "run-length compressed table of the encodings of all lengths (thorough: all 2^30), judged against the specification by TLC; generated alternative encodings",
    "C08": "complete table of compression of 0..599999 with both roundings, all exponent and mantissa bytes, all encoded bytes, judged by TLC",
    "C21": "complete table of the 256 file ids and 256 interface ids, judged by TLC",
    "C20": "requests generated by the specification (type, alias, file id, payload, spelling), each run with the real binary",
    "C09": "random mutations and splices of valid encodings, tried in the library and judged by TLC against the specification",
}
ASSUME = ["operand values are sampled (seeded), not enumerated; structure (kinds, flags, boundaries) is enumerated as listed under models",
          "the specification was written from the DASH7 ALP format as the library documents it",
          "the harness is built from /repo's working tree for each flavour (spec, subiot, wizzilab) on a little-endian machine"]
LEVEL = {}


def main(argv):
    if argv[:1] == ["--replay"]:
        return replay(argv[1])
    if argv[:1] == ["--setup"]:
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(4) as ex:
            for f in [ex.submit(engine.build_harness, fl) for fl in EVERYWHERE] + [ex.submit(engine.build_cli, fl) for fl in FLAVOURS]:
                f.result()
        return 0
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    for i, a in enumerate(argv):
        if a == "--tier":
            tier = argv[i + 1]
        if a == "--seed":
            seed = int(argv[i + 1])
    c = Check(prop, tier, seed % 10000)
    c.real_seed = seed
    try:
        c.parallel(TABLE[prop](c))
        if not c.models or not c.traces:
            raise Broken("nothing was checked")
        return c.finish(LEVEL.get(prop, "model_checking"), RULE.get(prop, RULE["C01"] if prop in ("C13",) else
                        "behaviours generated from the specification by TLC (kinds and variants enumerated, operands seeded), each replayed in the library"),
                        ASSUME)
    except Broken as e:
        if c.violations:
            print("note: the check did not complete: %s" % str(e)[:600])
            return c.finish(LEVEL.get(prop, "model_checking"), "stopped early", ASSUME)
        print("CHECK-ERROR property=%s %s" % (prop, e))
        return 2
    finally:
        import shutil
        shutil.rmtree(c.work, ignore_errors=True)


def replay(path):
    d = json.load(open(path))
    fl = d.get("flavour", "spec")
    c = Check(d["property"], "quick", 1)
    if "case" in d:
        c.replay(fl, [json.dumps(d["case"])])
    elif "args" in d:
        exe = engine.build_cli(fl)
        p = subprocess.run([exe] + d["args"], capture_output=True, text=True)
        print("exit %d\n%s%s" % (p.returncode, p.stdout, p.stderr))
        bad = (p.returncode != 0) if d["expected"]["kind"] != "fail" else p.returncode == 0
        if bad or (d["expected"]["kind"] != "fail" and p.stdout.strip() != d["text"].strip()):
            c.violations.append((d["what"], path))
    else:
        print("recorded observation, run the check of %s again: %s" % (d["property"], json.dumps(d)[:2000]))
        return 0
    for w, _ in c.violations:
        print(w)
    return 1 if c.violations else 0


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
