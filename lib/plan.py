"""What each property's check consists of, and how its parts are run."""
import json
import os
import random
import shutil
import threading
import time
from concurrent.futures import ThreadPoolExecutor

import pure
import run
from pure import Pure
from run import BUILD, VERIF, ToolError, log

KNOWN = os.path.join(VERIF, "known-findings.txt")


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.work = os.path.join(BUILD, "run", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.lock = threading.Lock()
        self.states = self.transitions = self.traces = 0
        self.models, self.suites, self.samples = [], [], []
        self.violations = []
        self.known = []
        self.binary = None

    def add_model(self, entry, gen, dist):
        with self.lock:
            self.models.append(entry)
            self.states += dist
            self.transitions += gen


# ---------------------------------------------------------------------------------------------
# Parts: model checking

class MC:
    """Check the specification itself: the property holds in every state of the bounded scenarios,
    and is violated once the design is broken by a deviation."""

    def __init__(self, scens, muts=(), live=(), deep=(), module="SioMC", depth=4, deeper=None):
        self.scens, self.muts, self.live, self.deep, self.module = scens, muts, live, deep, module
        self.depth, self.deeper = depth, deeper or depth

    def jobs(self, ctx):
        jobs = [(s, "none", self.module) for s in self.scens]
        jobs += [(s, m, self.module) for s, m in self.muts]
        if not ctx.quick:
            jobs += [(s, "none", self.module) for s in self.deep]
        jobs += [(s, "none", "SioLive") for s in self.live]
        return jobs

    def model(self, ctx):
        def one(job):
            scen, mut, cfg = job
            rc, out = run.tlc(self.module, cfg=cfg, env={"SCEN": scen, "MUT": mut,
                                                         "DEPTH": str(self.depth if ctx.quick else self.deeper)},
                              workers=2 if ctx.quick else 4, limit=600 if ctx.quick else 3600,
                              heap="3g" if ctx.quick else "8g")
            gen, dist = run.tlc_stats(out)
            ok = run.tlc_ok(out)
            if mut == "none" and not ok:
                raise ToolError("the specification violates a property (%s, %s):\n%s" % (scen, cfg, out[-3000:]))
            if mut != "none" and ("is violated" not in out and "was violated" not in out):
                raise ToolError("deviation %s is not noticed in scenario %s:\n%s" % (mut, scen, out[-2000:]))
            what = {"scenario": scen, "states": dist, "liveness": cfg == "SioLive"}
            if mut != "none":
                what["deviation_refuted"] = mut
            ctx.add_model(what, gen, dist)

        with ThreadPoolExecutor(4) as ex:
            list(ex.map(one, self.jobs(ctx)))

    def cases(self, ctx):
        return None


# ---------------------------------------------------------------------------------------------
# Parts: sessions

class Session:
    """Scripts from SioGen, run on the real client, judged by SioTrace."""
    module, mode, env, least = "SioTrace", "session", None, 40

    def __init__(self, focus, depth=3, n=800, long=14, m=1000, cfg=None, bare=False, nets=None, tag=None):
        self.focus, self.depth, self.n, self.long, self.m = focus, depth, n, long, m
        self.cfg, self.bare, self.nets = cfg or {}, bare, nets
        if focus.startswith("many"):
            self.least = 4      # they take long
        self.tag = tag or focus + ("-" + "-".join(sorted(self.cfg)) if self.cfg else "")

    def model(self, ctx):
        pass

    def cases(self, ctx):
        rng = random.Random("%s/%s/%d" % (ctx.prop, self.tag, ctx.seed))
        n, m, long = self.n, self.m, self.long
        if not ctx.quick:
            n, m = n * 12, m * 12
        with ThreadPoolExecutor(2) as ex:
            a = ex.submit(run.generate, "SioGen", self.focus, self.depth)
            b = ex.submit(run.generate, "SioGen", self.focus, long, m, rng.getrandbits(31))
            (short, st1), (rand, st2) = a.result(), b.result()
        total = len(short)
        exhaustive = len(short) <= n
        if not exhaustive:
            short = rng.sample(short, n)
        scripts = short + rand
        cases = []
        for i, s in enumerate(scripts):
            if self.bare:
                for st in s:
                    if "s" in st:
                        st["s"] = []
            seed = rng.getrandbits(53)
            for net in (self.nets or [None]):
                cfg = dict(self.cfg)
                if net:
                    cfg["net"] = net
                cases.append({"id": "%s-%d%s" % (self.tag, i, "-" + net if net else ""), "cfg": cfg,
                              "seed": seed, "steps": s})
        with ctx.lock:
            ctx.suites.append({"suite": self.tag, "scripts_of_depth_%d" % self.depth: total,
                               "of_these_run": len(short), "random_scripts_of_depth_%d" % long: len(rand)})
        return cases

    def show(self, rec):
        return {"id": rec.get("id"), "seed": rec.get("seed"), "events": rec.get("ev"), "calls": rec.get("calls"),
                "written": rec.get("tx")}


class Soak:
    """Long sessions, judged round by round: (emissions with callbacks, per round, left pending)."""
    module, mode, env, least, tag = "SioSoakJudge", "soak", None, 1, "soak"

    def __init__(self, sizes, deep=()):
        self.sizes, self.deep = sizes, deep

    def model(self, ctx):
        pass

    def cases(self, ctx):
        rng = random.Random("%s/soak/%d" % (ctx.prop, ctx.seed))
        sizes = list(self.sizes) + ([] if ctx.quick else list(self.deep))
        with ctx.lock:
            ctx.suites.append({"suite": "soak", "sessions": sizes})
        return [{"id": "soak-%d" % i, "seed": rng.getrandbits(53), "n": n, "per": per, "keep": keep}
                for i, (n, per, keep) in enumerate(sizes)]

    def show(self, rec):
        return {"id": rec["id"], "rounds": len(rec["rounds"]), "first": rec["rounds"][:1]}


class Race:
    """Sessions on threads of their own, judged as histories by SioRace: (how many, how they end)."""
    module, mode, env, least, tag = "SioRaceJudge", "race", None, 40, "race"

    def __init__(self, count, end, deep=2000):
        self.count, self.end, self.deep = count, end, deep

    def model(self, ctx):
        pass

    def cases(self, ctx):
        rng = random.Random("%s/race/%d" % (ctx.prop, ctx.seed))
        count = self.count if ctx.quick else self.deep
        with ctx.lock:
            ctx.suites.append({"suite": "race", "sessions": count, "end": self.end})
        # one in four: callbacks are replaced as often as possible
        return [{"id": "race-%d" % i, "seed": rng.getrandbits(53), "end": self.end, "m": rng.choice([3, 20, 60, 150]),
                 "n": rng.choice([3, 20, 60, 150]) if i % 4 else rng.choice([1000, 6000]),
                 "regs": rng.choice([0, 10, 40]) if i % 4 else 101, "raws": rng.choice([0, 10, 60])} for i in range(count)]

    def show(self, rec):
        return {k: rec[k][:3] if isinstance(rec[k], list) else rec[k] for k in rec}


# ---------------------------------------------------------------------------------------------

def known_findings(prop):
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("known: "):
                r = json.loads(line[len("known: "):])
                if r["property"] == prop:
                    res.append(r)
    return res


def execute(ctx, part, cases):
    """Run cases on the real code; judge; report what the specification rejects."""
    work = os.path.join(ctx.work, part.tag)
    recs, err = run.run_harness(ctx.binary, part.mode, cases, work, ctx.seed)
    if err is not None:
        c = run.isolate_crash(ctx.binary, part.mode, cases, work, ctx.seed)
        if c is None:
            raise ToolError("the harness died: " + err)
        report(ctx, part, c, {"crash": err}, "the process running the code died")
        return
    by_id = {c["id"]: c for c in cases}
    hung = [r for r in recs if r.get("hang")]
    for r in hung:
        report(ctx, part, by_id[r["id"]], r, "no end within 20 s (deadlock or endless loop)")
    recs = [r for r in recs if not r.get("hang")]
    chunk = max(part.least, min(400, (len(recs) + 7) // 8))
    rejected, gen, dist = run.judge(part.module, recs, work, chunk=chunk, env=part.env)
    with ctx.lock:
        ctx.states += dist
        ctx.transitions += gen
        ctx.traces += len(recs) - len(rejected)
        if recs and len(ctx.samples) < 3:
            ctx.samples.append(part.show(recs[len(recs) // 2]))
    for k, i in enumerate(rejected):
        if k >= 5:
            log("... and %d more" % (len(rejected) - k))
            break
        far, last = run.explain(part.module, recs[i], os.path.join(work, "explain"), env=part.env)
        report(ctx, part, by_id[recs[i]["id"]], recs[i],
               "the specification follows the record up to its event %d only; %s" % (far, "; ".join(last)))


def report(ctx, part, case, rec, why):
    case = dict(case)
    if isinstance(rec.get("seed"), str):
        case["seed"] = int(rec["seed"])
    for k in known_findings(ctx.prop):
        if k["mode"] == part.mode and all(case.get(f) == v for f, v in k["case"].items()):
            with ctx.lock:
                ctx.known.append(k)
            log("KNOWN-FINDING: property=%s %s" % (ctx.prop, k.get("what", "")))
            return
    path = run.save_replay(ctx.prop, {"property": ctx.prop, "mode": part.mode, "module": part.module, "env": part.env,
                                      "case": case, "record": rec, "why": why})
    with ctx.lock:
        ctx.violations.append(path)
    log("VIOLATION property=%s replay=%s" % (ctx.prop, path))
    log("  " + why[:600])


def check(prop, tier, seed, t0):
    ctx = Ctx(prop, tier, seed)
    parts = PROPS[prop]["parts"]
    with ThreadPoolExecutor(8) as ex:
        build = ex.submit(run.build_harness)
        models = [ex.submit(p.model, ctx) for p in parts]
        cases = [(p, ex.submit(p.cases, ctx)) for p in parts]
        ctx.binary = build.result()
        for m in models:
            m.result()
        cases = [(p, c.result()) for p, c in cases]
    for p, c in cases:
        if c:
            execute(ctx, p, c)
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": ctx.states, "transitions": ctx.transitions,
                       "traces_validated_against_impl": ctx.traces,
                       "models": ctx.models, "suites": ctx.suites, "samples": ctx.samples[:3],
                       "violations": len(ctx.violations), "known_findings_seen": len(ctx.known)},
          "wall_s": round(wall, 1)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    shutil.rmtree(ctx.work, ignore_errors=True)
    log("%s %s: %d states, %d records of the code judged, %d violations, %.1f s"
        % (prop, tier, ctx.states, ctx.traces, len(ctx.violations), wall))
    return bool(ctx.violations)


def replay(prop, path):
    r = json.load(open(path))
    binary = run.build_harness()
    work = os.path.join(BUILD, "run", "replay")
    recs, err = run.run_harness(binary, r["mode"], [r["case"]], work, 1)
    if err:
        log("the process died: " + err)
        return 1
    if recs[0].get("hang"):
        log("it hangs")
        return 1
    bad, _, _ = run.judge(r["module"], recs, work, env=r.get("env"))
    log(json.dumps(recs[0], indent=1))
    log("rejected" if bad else "accepted")
    return 1 if bad else 0


TECH_SESSION = ("TLA+ specification of the client (spec/SioClient.tla) model-checked with TLC; behaviours generated from "
                "a TLA+ environment are replayed on the real client and the recorded traces checked against the specification")
NOTE_SESSION = ("TLC checks the property exhaustively on bounded scenarios of the specification (and refutes deviating designs); "
                "every recorded session of the real client, over a controlled transport, clock and scheduler, must be a behaviour of "
                "the specification. Sessions are exhaustive to a small depth (or sampled from it) and random beyond; trusts the "
                "harness's encoding of websocket frames and its observation of callbacks and bytes.")
TECH_PURE = ("TLA+ specification of the wire format (spec/), model-checked with TLC; inputs generated from a TLA+ environment are "
             "given to the real code and what it did is judged against the specification by TLC")
NOTE_PURE = ("TLC checks the specification exhaustively on small inputs (and refutes deviating designs); each generated input is run "
             "on the real code and the result has to be the one the specification computes from the input. Inputs are exhaustive to a small "
             "size (or sampled) and random beyond; trusts the harness's reading of the code's results.")

PROPS = {
    "C01": {"parts": [MC(["all"], [("all", m) for m in ("BadOpen", "BinEarly", "Reopen", "CloseOnError")], module="SioEngineMC",
                         depth=3, deeper=4),
                      MC(["early"], [("early", "EarlyMsg")]),
                      Pure("engine", "engine", "SioEngineGen", "SioEngineJudge",
                           [("short", 3, None, 1500), ("long", 10, 1500), ("open", 4, 2500)], pure.engine_case),
                      Session("connect", n=250, m=100, long=6)],
            "technique": TECH_PURE, "note": NOTE_PURE},
    "C02": {"parts": [MC(["packets", "texts"], [("packets", "Greedy"), ("texts", "Greedy")], module="SioTextMC", deeper=5),
                      Pure("text", "text", "SioTextGen", "SioTextJudge",
                           [("chars", 3, None, 1500), ("parts", 14, 5000)], pure.text_case)],
            "technique": TECH_PURE, "note": NOTE_PURE},
    "C03": {"parts": [MC(["packets"], [("packets", "Greedy")], module="SioTextMC"),
                      MC(["many"], [("many", "Renumber")], deep=["deep"], module="SioArgsMC", depth=2, deeper=3),
                      Pure("pack", "pack", "SioArgsGen", "SioArgsJudge", [("small", 3, None, 1200), ("big", 10, 1500), ("heads", 2, None, 1500)],
                           pure.pack_case, env={"ASPECT": "back"})],
            "technique": TECH_PURE, "note": NOTE_PURE},
    "C04": {"parts": [MC(["many"], [("many", "KeepAtts"), ("many", "KeepFirst")], deep=["deep"], module="SioArgsMC", depth=2, deeper=3),
                      Pure("pack", "pack", "SioArgsGen", "SioArgsJudge", [("fail", 10, 4000)],
                           pure.pack_case, env={"ASPECT": "fail"}),
                      Session("fail", n=300, m=200)],
            "technique": TECH_PURE, "note": NOTE_PURE},
    "C05": {"parts": [MC(["deep"], [("deep", m) for m in ("MixedBytes", "TupleBytes", "EmptyBytes")], deep=["many"],
                         module="SioArgsMC", depth=2, deeper=3),
                      Pure("pack", "pack", "SioArgsGen", "SioArgsJudge", [("small", 3, None, 1200), ("big", 10, 1200), ("seqs", 3, None), ("long", 3, None, 60)],
                           pure.pack_case, env={"ASPECT": "bytes"})],
            "technique": TECH_PURE, "note": NOTE_PURE},
    "C06": {"parts": [MC(["laws"], [("laws", m) for m in ("OptPlain", "EnumPlain", "Shift")], module="SioDeMC", depth=1, deeper=2),
                      Pure("de", "de", "SioDeGen", "SioDeJudge", [("small", 1, None), ("mix", 10, 400, 3000)], pure.de_case)],
            "technique": TECH_PURE, "note": NOTE_PURE},
    "C07": {"parts": [MC(["asm", "asmok"], [("asm", "PongLost")]), Session("asm"),
                      Session("many", depth=1, n=0, long=10, m=40)]},
    "C08": {"parts": [MC(["route"], [("route", "FallbackBoth")], deep=["route2"]), Session("route"),
                      Session("churn", depth=1, n=0, long=70, m=80), Race(500, "close")]},
    "C09": {"parts": [MC(["ack", "ackok"], [("ackok", "SendFirst"), ("ackok", "ReuseId"), ("ack", "AckKept")]),
                      Session("ack"), Soak([(70000, 500, 300), (3000, 37, 1000)], deep=[(300000, 900, 2000), (30000, 7, 200)]),
                      Session("ack", cfg={"eager": True}, bare=True, n=200, m=150, long=8), Race(500, "close")]},
    "C10": {"parts": [MC(["reply"]), Session("reply"), Soak([(6000, 100, 50)], deep=[(70000, 300, 100)]), Race(500, "close")]},
    "C11": {"parts": [MC(["out"], [("out", "SplitBatch")]), Session("out"), Session("manyout", depth=1, n=0, long=8, m=30), Race(500, "close")]},
    "C12": {"parts": [MC(["ping"], [("ping", "PongLost")], deep=["ping2"]), Session("ping"), Soak([(6000, 60, 20)], deep=[(70000, 300, 100)])]},
    "C13": {"parts": [MC(["reent"], [("reent", "LockHeld")], live=["reent"]), Session("reent"), Race(500, "close")]},
    "C14": {"parts": [MC(["connect", "dial", "early"], [("early", "EarlyMsg")], live=["connect"]), Session("connect", long=7), Session("deadline", depth=6, n=500, long=9, m=100),
                      Session("connect", cfg={"spawnfail": True}, n=40, m=40, long=6)]},
    "C15": {"parts": [MC(["close", "closetime", "giveup"], [("close", "NoFlush")], live=["close"]), Session("close"),
                      Session("manyclose", depth=1, n=0, long=7, m=40)]},
    "C16": {"parts": [MC(["bad", "badws"]), Session("bad")]},
    "C17": {"parts": [Pure("url", "url", "SioUrlGen", "SioUrlJudge", [("good", 1, None, 3000), ("bad", 1, None)], pure.url_case)],
            "technique": TECH_PURE, "note": NOTE_PURE},
    "C18": {"parts": [MC(["chain"], [("chain", "NoClip"), ("chain", "Wrap"), ("chain", "Absolute")], module="SioSliceMC"),
                      Pure("slice", "slice", "SioSliceGen", "SioSliceJudge",
                           [("vec", 2, None, 4000), ("str", 2, None, 6000), ("vec", 5, 1000), ("str", 5, 1500)], pure.slice_case)],
            "technique": TECH_PURE, "note": NOTE_PURE},
    "C19": {"parts": [MC(["asmok", "ping"]),
                      Session("mix", n=100, m=150, long=16, nets=["whole", "bytes", "jitter", "spurious", "frag"]),
                      Session("close", n=40, m=40, long=8, nets=["whole", "bytes", "spurious"])]},
    "C20": {"parts": [MC(["laws"], [("laws", "Shift")], module="SioDeMC", depth=1, deeper=2),
                      Pure("view", "view", "SioDeGen", "SioViewJudge", [("view", 5, 1000), ("view", 12, 1500)], pure.view_case)],
            "technique": TECH_PURE, "note": NOTE_PURE},
    "C21": {"parts": [MC(["drop", "closetime"], [("drop", "CallsGoOn")], live=["closetime"], deep=["giveup"]), Session("drop", n=400, m=400), Session("dropin", n=300, m=300, long=7), Race(500, "drop")]},
}
