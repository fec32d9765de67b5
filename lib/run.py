"""Building the harness, running TLC, and the steps every check is made of."""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
REPLAY = os.path.join(VERIF, "replay")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
REPO = "/repo"


class ToolError(Exception):
    """Something of the machinery failed: no verdict."""


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------------------------------------
# Harness

def build_harness():
    """Build the harness against the working tree of /repo."""
    target = os.path.join(BUILD, "target")
    fp = os.path.join(target, "debug", ".fingerprint")
    if os.path.isdir(fp):
        # modification times may lie (copies, checkouts): always compile /repo's crates afresh
        for d in os.listdir(fp):
            if re.match(r"(owned_subslice|socket-io-client|socket-io-protocol)-", d):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target)
    r = subprocess.run(
        ["cargo", "build", "--quiet", "--locked", "--offline"],
        cwd=os.path.join(VERIF, "harness"), env=env,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("the harness does not build:\n" + r.stdout[-4000:])
    return os.path.join(target, "debug", "sio-harness")


def write_lines(path, items):
    with open(path, "w") as f:
        for x in items:
            f.write(json.dumps(x, separators=(",", ":")) + "\n")


def read_lines(path):
    with open(path) as f:
        return [json.loads(l) for l in f]


def run_harness(binary, mode, cases, work, seed, limit=600):
    """Run the cases on the real code; one record per case comes back."""
    os.makedirs(work, exist_ok=True)
    inp, out = os.path.join(work, "cases.ndjson"), os.path.join(work, "records.ndjson")
    if os.path.exists(out):
        os.remove(out)
    write_lines(inp, cases)
    try:
        r = subprocess.run([binary, mode, inp, out, str(seed)], timeout=limit,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError("the harness did not finish in %d s" % limit)
    if r.returncode != 0 or not os.path.exists(out):
        # e.g. a stack overflow or an abort in the code under test takes the process down
        return None, "exit %s: %s" % (r.returncode, r.stdout[-2000:])
    return read_lines(out), None


def isolate_crash(binary, mode, cases, work, seed):
    """The process died: find a case that kills it."""
    lo = list(cases)
    while len(lo) > 1:
        half = lo[: len(lo) // 2]
        recs, err = run_harness(binary, mode, half, work, seed)
        if err is not None:
            lo = half
        else:
            rest = lo[len(lo) // 2:]
            recs, err = run_harness(binary, mode, rest, work, seed)
            if err is None:
                return None
            lo = rest
    return lo[0]


# ---------------------------------------------------------------------------------------------
# TLC

def tlc(module, cfg=None, env=None, args=(), workers=8, limit=600, heap="6g", name=None):
    meta = os.path.join(BUILD, "tlc", name or ("%s-%d-%d" % (module, os.getpid(), random.getrandbits(32))))
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + meta, "-cp", JAR, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", (cfg or module) + ".cfg"] + list(args) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, timeout=limit, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        raise ToolError("TLC did not finish %s within %d s" % (module, limit))
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def gist(out):
    """What TLC says is wrong, without the preliminaries."""
    i = out.find("Semantic errors") if "Semantic errors" in out else out.find("Error:")
    return out[max(i, 0):][:3000]


def tlc_stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def tlc_ok(out):
    return "Model checking completed. No error has been found." in out or \
        ("Finished in" in out and "Error:" not in out)


def printed(out, tag):
    """What PrintT(<<tag, string>>) printed."""
    res = []
    for m in re.finditer(r'^<<"%s", "(.*)">>$' % tag, out, re.M):
        res.append(json.loads('"' + m.group(1) + '"'))
    return res


def generate(module, focus, depth, simulate=None, seed=1, limit=300, workers=8, steps=None):
    """Scripts: behaviours of an environment specification, all of them or a random sample."""
    env = {"FOCUS": focus, "DEPTH": str(depth)}
    args = ["-seed", str(seed)]
    if simulate:
        args += ["-simulate", "num=%d" % simulate, "-depth", str(steps or depth + 2)]
        workers = 1
    rc, out = tlc(module, env=env, args=args, limit=limit, workers=workers)
    if not tlc_ok(out):
        raise ToolError("generating %s/%s failed:\n%s" % (module, focus, gist(out)))
    scripts = printed(out, "SCRIPT")
    if not simulate:
        scripts.sort()      # workers print in any order
    return [json.loads(s) for s in scripts], tlc_stats(out)


def judge(module, records, work, chunk=400, jobs=8, limit=800, env=None):
    """Which of the records does the specification accept?  Returns the indices it rejects, and
    the states TLC explored."""
    os.makedirs(work, exist_ok=True)
    chunks = [list(range(i, min(i + chunk, len(records)))) for i in range(0, len(records), chunk)]

    def one(ci):
        idx = chunks[ci]
        path = os.path.join(work, "judge-%d.ndjson" % ci)
        write_lines(path, [records[i] for i in idx])
        rc, out = tlc(module, env=dict(env or {}, TRACES=path, SHOW="0"), workers=1, limit=limit, heap="3g",
                      name="%s-judge-%d-%d" % (module, os.getpid(), ci))
        if not tlc_ok(out):
            raise ToolError("judging with %s failed:\n%s" % (module, gist(out)))
        ok = {int(x) for x in re.findall(r'^<<"ACCEPTED", (\d+)>>$', out, re.M)}
        os.remove(path)
        return [idx[k - 1] for k in range(1, len(idx) + 1) if k not in ok], tlc_stats(out)

    rejected, gen, dist = [], 0, 0
    with ThreadPoolExecutor(jobs) as ex:
        for bad, (g, d) in ex.map(one, range(len(chunks))):
            rejected += bad
            gen += g
            dist += d
    return sorted(rejected), gen, dist


def explain(module, record, work, env=None):
    """How far the specification can follow one rejected record."""
    os.makedirs(work, exist_ok=True)
    path = os.path.join(work, "explain.ndjson")
    write_lines(path, [record])
    rc, out = tlc(module, env=dict(env or {}, TRACES=path, SHOW="1"), workers=1, heap="2g")
    ats = re.findall(r'^<<"AT", (\d+), .*>>$', out, re.M)
    far = max([int(x) for x in ats] or [0])
    last = [m.group(0) for m in re.finditer(r'^<<"AT", (\d+), .*>>$', out, re.M) if int(m.group(1)) == far]
    return far, last[:3]


def save_replay(prop, rec):
    os.makedirs(REPLAY, exist_ok=True)
    body = json.dumps(rec, indent=1, sort_keys=True)
    h = hashlib.sha1(body.encode()).hexdigest()[:10]
    path = os.path.join(REPLAY, "%s-%s.json" % (prop, h))
    with open(path, "w") as f:
        f.write(body + "\n")
    return path
