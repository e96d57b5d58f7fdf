#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property. Exit 0: holds on
everything explored; 1: VIOLATION printed; anything else: error of the check."""
import json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import Ctx, CheckError

INV5424 = {
    "C01": ["AcceptsGrammar", "Unambiguous", "NoEarlyFailure", "CompletedExact"],
    "C02": ["AcceptsGrammar", "Unambiguous", "FieldsVerbatim", "CompletedExact"],
    "C03": ["FailsAtLastByte", "NoEarlyFailure", "KindByRegion", "ModesAgree"],
    "C04": ["BestEffortExact", "ModesAgree"],
    "C05": ["AcceptsGrammar", "NoBomNoChange", "NoEarlyFailure", "CompletedExact"],
    "C09": ["ModesAgree"],
}

def stage5424(c):
    """Rfc5424: design check, model export and replay, trace judgement"""
    c.tlc("MC5424", consts={"Shrink": 2 if c.quick else 0}, invariants=INV5424[c.prop])
    c.tlc("MCEdge5424", consts={"AllBytes": "FALSE" if c.quick else "TRUE"}, invariants=INV5424[c.prop] + ([] if c.quick else ["NoLateAcceptance"]))
    c.log("design check of Rfc5424 done")
    table = c.path("table5424.txt")
    c.tlc("Export5424", out=table)
    tr, st = c.path("tr5424.ndjson"), c.path("st5424.json")
    c.harness("t5424", table=table, prop=c.prop, seed=c.seed, random=600000 if c.quick else 40000000, sample=300 if c.quick else 4000,
              secs=40 if c.quick else 300, out=tr, stats=st)
    s = json.load(open(st))
    c.log("replayed model of Rfc5424: %d inputs, %d mismatches" % (s["inputs"], s["mismatches"]))
    c.samples += s.pop("samples")[:4]
    c.extra["rfc5424_replay"] = s
    res = c.judge("Trace5424", tr)
    c.take_verdicts("Trace5424", tr, res, candidates=s["candidates"])

INV3164 = {
    "C06": ["AcceptsGrammar", "Unambiguous", "FieldsExact", "CompletedExact"],
    "C07": ["FieldsExact", "RfcOnlyAdds", "CompletedExact"],
    "C08": ["FailsAtLastByte", "NoEarlyFailure", "KindByRegion", "BestEffortExact", "ModesAgree"],
    "C09": ["ModesAgree", "BestEffortExact"],
}

def stage3164(c):
    """Rfc3164: design check, model export and replay, trace judgement"""
    c.tlc("MC3164", consts={"Shrink": 4 if c.quick else 1}, invariants=INV3164[c.prop])
    c.tlc("MCEdge3164", consts={"AllBytes": "FALSE" if c.quick else "TRUE"}, invariants=INV3164[c.prop] + ([] if c.quick else ["NoLateAcceptance"]))
    c.log("design check of Rfc3164 done")
    table = c.path("table3164.txt")
    c.tlc("Export3164", out=table)
    tr, st = c.path("tr3164.ndjson"), c.path("st3164.json")
    c.harness("t3164", table=table, prop=c.prop, seed=c.seed, random=600000 if c.quick else 40000000, sample=300 if c.quick else 4000,
              secs=40 if c.quick else 300, out=tr, stats=st)
    s = json.load(open(st))
    c.log("replayed model of Rfc3164: %d inputs, %d mismatches" % (s["inputs"], s["mismatches"]))
    c.samples += s.pop("samples")[:4]
    c.extra["rfc3164_replay"] = s
    res = c.judge("Trace3164", tr)
    c.take_verdicts("Trace3164", tr, res, candidates=s["candidates"])

INVBUILDER = {
    "C12": ["FieldsGrammatical", "HeaderFrame"],
    "C13": ["RoundTrip", "OrderFree"],
    "C15": ["ElementFrame", "OrderFree"],
}

def stageBuilder(c):
    """Builder5424: design check, model export and replay, trace judgement"""
    c.tlc("MCBuilder5424", consts={"MaxOps": 2 if c.quick else 3}, invariants=INVBUILDER[c.prop])
    c.log("design check of Builder5424 done")
    table, entries = c.path("table5424.txt"), c.path("entries.txt")
    c.tlc("Export5424", out=table)
    c.tlc("ExportBuilder5424", out=entries)
    tr, st = c.path("trB.ndjson"), c.path("stB.json")
    c.harness("tbuilder", table=table, entries=entries, prop=c.prop, seed=c.seed, random=80000 if c.quick else 6000000, sample=300 if c.quick else 4000,
              secs=40 if c.quick else 300, out=tr, stats=st)
    s = json.load(open(st))
    c.log("replayed model of Builder5424: %d histories, %d mismatches" % (s["histories"], s["mismatches"]))
    c.samples += [x[:300] for x in s.pop("samples")[:4]]
    c.extra["builder_replay"] = s
    res = c.judge("TraceBuilder5424", tr)
    c.take_verdicts("TraceBuilder5424", tr, res, candidates=s["candidates"])

def stageCells(c):
    """MessageCells: design check (setters that overwrite in place must be noticed), histories of copies and shared pointers on real messages, judged by TLC"""
    c.tlc("MCMessageCells", consts={"MaxOps": 2 if c.quick else 3})
    c.tlc_violates("MCMessageCells", "Elsewhere", {"InPlace": "TRUE"})
    c.log("design check of MessageCells done")
    table, entries = c.path("table5424.txt"), c.path("entries.txt")
    c.tlc("Export5424", out=table)
    c.tlc("ExportBuilder5424", out=entries)
    tr, st = c.path("trM.ndjson"), c.path("stM.json")
    c.harness("tcells", table=table, entries=entries, seed=c.seed, random=150000 if c.quick else 10000000, sample=300 if c.quick else 4000,
              secs=25 if c.quick else 300, out=tr, stats=st)
    s = json.load(open(st))
    c.log("histories of messages: %d (%d steps), %d mismatches" % (s["histories"], s["calls"], s["mismatches"]))
    c.samples += s.pop("samples")[:4]
    c.extra["cells_replay"] = s
    c.take_verdicts("TraceMessageCells", tr, c.judge("TraceMessageCells", tr), candidates=s["candidates"])

INVOCTET = {
    "C16": ["UniqueFrames", "FramesDelivered"],
    "C17": ["OneErrorEnds", "ErrorIsDeviation", "TailExact"],
    "C18": ["MaxRespected"],
    "C19": ["BestEffortSame", "TailExact"],
    "C20": ["ChunkFree"],
    "C23": ["ChunkFree", "OneErrorEnds"],
    "C28": ["ChunkFree"],
}
INVNT = {
    "C20": ["ChunkFree", "Whole"],
    "C21": ["FramesDelivered", "InnerTrailers", "Whole"],
    "C22": ["TailOnce", "Whole"],
    "C23": ["ChunkFree"],
    "C28": ["ChunkFree"],
}

def stream(c, module, invs, fmt):
    c.tlc(module, consts={"MaxBytes": (6 if fmt == "octet" else 7) if c.quick else (8 if fmt == "octet" else 9)}, invariants=invs)
    c.log("design check of %s done" % module)
    table = c.path("stream.txt")
    c.tlc("ExportStream", out=table)
    tr, st = c.path("trS-%s.ndjson" % fmt), c.path("stS-%s.json" % fmt)
    c.harness("tstream", table=table, fmt=fmt, prop=c.prop, seed=c.seed, random=300000 if c.quick else 8000000, sample=200 if c.quick else 3000,
              depth=5 if c.quick else 7, secs=25 if c.quick else 300, out=tr, stats=st)
    s = json.load(open(st))
    c.log("replayed model of %s: %d streams, %d runs, %d mismatches" % (module[2:], s["streams"], s["runs"], s["mismatches"]))
    c.samples += s.pop("samples")[:4]
    c.extra[fmt + "_replay"] = s
    res = c.judge("TraceStream", tr)
    c.take_verdicts("TraceStream", tr, res, candidates=s["candidates"])

def stageOctet(c):
    """OctetCounting: design check, model export and replay, trace judgement"""
    stream(c, "MCOctet", INVOCTET[c.prop], "octet")

def stageNT(c):
    """NonTransparent: design check, model export and replay, trace judgement"""
    stream(c, "MCNonTransparent", INVNT[c.prop], "nt")

def stageStreamObject(c):
    """StreamObject: design check of one object used for one stream after another, ended in every way; keeping registers must be noticed"""
    c.tlc("MCStreamObject", consts={"MaxBytes": 5 if c.quick else 7})
    c.tlc_violates("MCStreamObject", "AsNew", {"Forgets": "FALSE"})
    c.log("design check of StreamObject done")

def stageDelivery(c):
    """Delivery: design check (safety and liveness) of when results are delivered; designs that hoard or read on must be noticed"""
    small = {"Framing": '"octet"', "Alphabet": "{49, 32, 60}", "MaxBytes": 6}
    c.tlc("MCDelivery", consts=dict(small) if c.quick else {"Framing": '"octet"', "MaxBytes": 7})
    c.tlc("MCDelivery", consts={"Framing": '"lf"', "Alphabet": "{60, 10, 120}", "MaxBytes": 6 if c.quick else 8})
    c.tlc_violates("MCDelivery", "Prompt", dict(small, Hoard="TRUE"))
    c.tlc_violates("MCDelivery", "NoMoreReads", dict(small, ReadsOn="TRUE"))
    c.log("design check of MCDelivery done")

# ParserObject: [module, broken designs]
DESIGNS = {
    "C10": ("MCParserObject", [{"Workers": 1, "ResetsC": "FALSE"}, {"Workers": 1, "CopiesC": "FALSE"}, {"Workers": 1, "FreshC": "FALSE"}]),
    "C11": ("MCParserObject", [{"LockedC": "FALSE"}]),
    "C14": ("MCBuilderObject", [{"SharedC": "TRUE"}]),
    "C31": ("MCMessageReaders", [{"ReaderN": 1, "Caches": "TRUE"}, {"Caches": "TRUE"}]),
}
FAMS = {"C10": "5424,3164", "C11": "5424,3164,octet,nt", "C14": "builder", "C31": "r5424,r3164,rbuilder"}

def race_events(c, p, prop, out):
    """a trace for what the runtime reported in a run of the harness"""
    text = p.stderr
    evs = []
    if p.returncode == 0:
        return 0
    kind = "race" if "WARNING: DATA RACE" in text else "crash"
    reports = text.split("==================") if kind == "race" else [text]
    # what reads messages in the harness (fpMessage) never meets a writer of its own
    reports = [r for r in reports if ("github.com/influxdata/go-syslog" in r or "main.fpMessage" in r) and ("DATA RACE" in r or kind == "crash")]
    if not reports or kind == "crash" and "fatal error: concurrent map" not in text:
        raise CheckError("harness exited with %d:\n%s" % (p.returncode, text[-3000:]))
    evs.append({"e": kind, "g": 1, "txt": reports[0][:4000]})
    with open(out, "w") as f:
        f.write(json.dumps({"prop": prop, "gs": 1, "alone": [], "evs": evs}) + "\n")
    return 1

def stageObject(c):
    """ParserObject: design check, then histories and schedules on real objects, judged by TLC"""
    module, broken = DESIGNS[c.prop]
    if c.prop == "C10":
        for f in ("5424", "3164"):
            c.tlc(module, consts={"Format": '"%s"' % f, "Workers": 1, "CallsEach": 3 if c.quick else 4})
    elif c.prop == "C11":
        for f in ("5424", "3164"):
            c.tlc(module, consts={"Format": '"%s"' % f, "CallsEach": (1 if f == "5424" else 2) if c.quick else 2})
            c.tlc(module, consts={"Format": '"%s"' % f, "CallsEach": 1, "SharedC": "FALSE", "LockedC": "FALSE"})
        if not c.quick:
            c.tlc(module, consts={"Format": '"3164"', "Workers": 3, "CallsEach": 1})
    elif c.prop == "C31":
        c.tlc(module)
        c.tlc_violates(module, "NoRace", {"Caches": "TRUE"})
        if not c.quick:
            c.tlc(module, consts={"ReaderN": 3, "Asks": 4, "Changes": 1})
    else:
        c.tlc(module, consts={"CallsEach": 2})
        if not c.quick:
            c.tlc(module, consts={"Workers": 3, "CallsEach": 1})
    for b in broken:
        c.tlc_violates(module, "Functional", b)
    c.log("design check of %s done" % module[2:])
    tabs = {"table5": c.path("table5424.txt"), "table3": c.path("table3164.txt")}
    c.tlc("Export5424", out=tabs["table5"])
    c.tlc("Export3164", out=tabs["table3"])
    entries, probes = c.path("entries.txt"), c.path("probes.gob")
    c.tlc("ExportBuilder5424", out=entries)
    c.harness("tprobes", entries=entries, fams=FAMS[c.prop], seed=c.seed, out=probes, **tabs)
    tr, st = c.path("trO.ndjson"), c.path("stO.json")
    race = []
    p = c.harness("tobject", prop=c.prop, probes=probes, seed=c.seed, secs=(15 if c.prop == "C10" else 7) if c.quick else 300,
                  random=20000 if c.quick else 2000000, sample=200 if c.quick else 3000, out=tr, stats=st, allow=(0, 2), **tabs)
    if race_events(c, p, c.prop, c.path("crash.ndjson")):
        race.append(c.path("crash.ndjson"))
    else:
        s = json.load(open(st))
        c.log("histories of real objects: %d calls, %d mismatches" % (s["calls"], s["mismatches"]))
        c.extra["object_histories"] = s
        res = c.judge("TraceObject", tr)
        c.take_verdicts("TraceObject", tr, res, candidates=s["candidates"])
        c.samples += [open(tr).readline()[:600]]
    if c.prop != "C10":
        tr, st = c.path("trR.ndjson"), c.path("stR.json")
        p = c.harness("tobject", binary=c.build(race=True), prop=c.prop, probes=probes, race=1, seed=c.seed, secs=6 if c.quick else 300, random=0,
                      sample=50 if c.quick else 1000, out=tr, stats=st, allow=(0, 2, 66), env={"GORACE": "exitcode=66 halt_on_error=0"}, **tabs)
        if race_events(c, p, c.prop, c.path("race.ndjson")):
            race.append(c.path("race.ndjson"))
        if p.returncode != 2:
            s = json.load(open(st))
            c.log("under the race detector: %d calls, %d mismatches, %s" % (s["calls"], s["mismatches"], "race reported" if p.returncode else "no race"))
            c.extra["object_race_run"] = s
            res = c.judge("TraceObject", tr)
            c.take_verdicts("TraceObject", tr, res, candidates=s["candidates"])
    for f in race:
        c.take_verdicts("TraceObject", f, c.judge("TraceObject", f), candidates=1)

def stageAccessors(c):
    """Accessors: design check, then recorded histories over every priority and version, judged by TLC"""
    c.tlc("MCAccessors")
    c.log("design check of Accessors done")
    tr, st = c.path("trA.ndjson"), c.path("stA.json")
    c.harness("tacc", seed=c.seed, random=400 if c.quick else 20000, out=tr, stats=st)
    s = json.load(open(st))
    c.log("recorded %d queries" % s["queries"])
    c.extra["accessors"] = s
    c.samples += [l[:300] for l in open(tr).read().splitlines()[-4:]]
    c.take_verdicts("TraceAccessors", tr, c.judge("TraceAccessors", tr))

def stageTrailer(c):
    """TrailerText: design check, texts exported and compared exhaustively with the real conversions, recorded calls judged by TLC"""
    c.tlc("MCTrailerText", consts={"MaxLen": 5 if c.quick else 6})
    c.log("design check of TrailerText done")
    texts = c.path("texts.txt")
    c.tlc("ExportTrailer", out=texts)
    tr, st = c.path("trT.ndjson"), c.path("stT.json")
    c.harness("ttrailer", texts=texts, seed=c.seed, deep=0 if c.quick else 1, secs=30 if c.quick else 400, sample=2000 if c.quick else 40000, out=tr, stats=st)
    s = json.load(open(st))
    c.log("%d conversions, %d mismatches" % (s["conversions"], s["mismatches"]))
    c.extra["trailer_types"] = s
    c.samples += [l[:300] for l in open(tr).read().splitlines()[-4:]]
    c.take_verdicts("TraceTrailer", tr, c.judge("TraceTrailer", tr), candidates=s["candidates"])

def stageOptions(c):
    """Options: design check, then recorded histories of parser objects made with sequences of options, all judged by TLC"""
    c.tlc("MCOptions", consts={"MaxOpts": 4 if c.quick else 6})
    c.log("design check of Options done")
    tr, st = c.path("trP.ndjson"), c.path("stP.json")
    c.harness("topts", seed=c.seed, depth=2 if c.quick else 3, random=1500 if c.quick else 15000, out=tr, stats=st)
    s = json.load(open(st))
    c.log("recorded %d histories with %d parses" % (s["histories"], s["parses"]))
    c.extra["options"] = s
    c.samples += s.pop("samples")[:4]
    c.take_verdicts("TraceOptions", tr, c.judge("TraceOptions", tr))

def stageStreamOptions(c):
    """StreamOptions: design check, then recorded histories of stream parsers given options at once and later, all judged by TLC"""
    c.tlc("MCStreamOptions", consts={"MaxOpts": 3 if c.quick else 4})
    c.tlc_violates("MCStreamOptions", "AsMade", {"Reaches": "FALSE"})
    c.log("design check of StreamOptions done")
    tr, st = c.path("trQ.ndjson"), c.path("stQ.json")
    c.harness("tsopts", seed=c.seed, depth=2 if c.quick else 3, random=1500 if c.quick else 15000, out=tr, stats=st)
    s = json.load(open(st))
    c.log("recorded %d histories with %d streams" % (s["histories"], s["parses"]))
    c.extra["stream_options"] = s
    c.samples += s.pop("samples")[:3]
    c.take_verdicts("TraceStreamOptions", tr, c.judge("TraceStreamOptions", tr))

def stageHelpers(c):
    """Helpers: design check, then recorded calls of the helpers of package common, all judged by TLC"""
    c.tlc("MCHelpers", consts={"MaxLen": 5 if c.quick else 6})
    c.log("design check of Helpers done")
    tr, st = c.path("trH.ndjson"), c.path("stH.json")
    c.harness("thelpers", seed=c.seed, depth=4 if c.quick else 5, random=6000 if c.quick else 100000, out=tr, stats=st)
    s = json.load(open(st))
    c.log("recorded calls: %s" % s["calls"])
    c.extra["helpers"] = s
    c.samples += [l[:300] for l in open(tr).read().splitlines()[-3:]]
    c.take_verdicts("TraceHelpers", tr, c.judge("TraceHelpers", tr))

def stageScanner(c):
    """Scanner: design check, token kinds exported and replayed, recorded scans judged by TLC"""
    c.tlc("MCScanner", consts={"MaxBytes": 5 if c.quick else 7})
    c.log("design check of Scanner done")
    table = c.path("scanner.txt")
    c.tlc("ExportScanner", out=table)
    tr, st = c.path("trK.ndjson"), c.path("stK.json")
    c.harness("tscan", table=table, seed=c.seed, depth=6 if c.quick else 8, random=2000000 if c.quick else 60000000, secs=20 if c.quick else 300,
              sample=300 if c.quick else 4000, out=tr, stats=st)
    s = json.load(open(st))
    c.log("scanned %d streams (%d tokens), %d mismatches" % (s["runs"], s["tokens"], s["mismatches"]))
    c.samples += s.pop("samples")[:4]
    c.extra["scanner_replay"] = s
    c.take_verdicts("TraceScanner", tr, c.judge("TraceScanner", tr), candidates=s["candidates"])

CHECKS = {p: [stage5424] for p in ("C01", "C02", "C03", "C04", "C05")}
CHECKS.update({p: [stage3164] for p in ("C06", "C07", "C08")})
CHECKS.update({p: [stageBuilder] for p in ("C12", "C13", "C15")})
CHECKS.update({p: [stageOctet] for p in ("C16", "C17", "C18", "C19")})
CHECKS.update({p: [stageNT] for p in ("C21", "C22")})
CHECKS["C20"] = [stageOctet, stageNT]
CHECKS["C23"] = [stageStreamObject, stageOctet, stageNT]
CHECKS.update({p: [stageObject] for p in ("C10", "C11", "C14", "C31")})
CHECKS["C24"] = [stageAccessors]
CHECKS["C25"] = [stageTrailer]
CHECKS["C26"] = [stageOptions]
CHECKS["C27"] = [stageScanner]
CHECKS["C29"] = [stageStreamOptions]
CHECKS["C30"] = [stageHelpers]
CHECKS["C28"] = [stageDelivery, stageOctet, stageNT]
CHECKS["C32"] = [stageCells]
CHECKS["C09"] = [stage5424, stage3164]

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    c = Ctx(prop, tier, seed)
    try:
        c.build()
        c.log("harness built")
        for stage in CHECKS[prop]:
            stage(c)
        return c.finish()
    except CheckError as e:
        if c.violations:
            # observed violations of the real code stand whatever else failed
            print("note: " + str(e)[:600])
            return c.finish()
        print("ERROR: " + str(e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        c.cleanup()

if __name__ == "__main__":
    sys.exit(main())
