"""Parts whose cases are single inputs of the codec."""
import random
import re
from concurrent.futures import ThreadPoolExecutor

import run

ODD = ["\x00", "\x01", "\x1f", "\x7f", "\x85", "\u2028", "\ufeff", "\u0301"]


def unescape(s, rng):
    """~x: characters that cannot be written in a TLA+ string."""
    table = {"q": "\"", "b": "\\", "n": "\n", "r": "\r", "t": "\t", "e": "\u00e9", "m": "\U0001f600"}
    return re.sub("~(.)", lambda m: table.get(m.group(1)) or rng.choice(ODD), s)


class Pure:
    """Inputs from a generator specification, given to the code, judged by another one."""
    least = 40

    def __init__(self, tag, mode, gen, judge, runs, translate, n=2000, env=None):
        self.tag, self.mode, self.gen, self.module, self.runs, self.translate, self.n = \
            tag, mode, gen, judge, runs, translate, n
        self.env = env or {}

    def model(self, ctx):
        pass

    def cases(self, ctx):
        rng = random.Random("%s/%s/%d" % (ctx.prop, self.tag, ctx.seed))
        seeds = [rng.getrandbits(31) for _ in self.runs]
        times = 1 if ctx.quick else 10

        def gen(i):
            focus, depth, sim = self.runs[i][:3]
            return run.generate(self.gen, focus, depth, sim * times if sim else None, seeds[i], steps=4 * depth + 20)

        with ThreadPoolExecutor(4) as ex:
            res = list(ex.map(gen, range(len(self.runs))))
        cases = []
        for (focus, depth, sim, *keep), (scripts, _) in zip(self.runs, res):
            total = len(scripts)
            if keep and keep[0] * times < total:
                scripts = rng.sample(scripts, keep[0] * times)
            entry = {"suite": "%s-%s" % (self.tag, focus), "depth": depth, "generated": total, "run": len(scripts),
                     "exhaustive": not sim and len(scripts) == total}
            with ctx.lock:
                ctx.suites.append(entry)
            for s in scripts:
                c = self.translate(s, rng)
                c["id"] = "%s-%s-%d" % (self.tag, focus, len(cases))
                cases.append(c)
        return cases

    def show(self, rec):
        return rec


def text_case(script, rng):
    cp = [ord(c) for c in unescape(script[0], rng)]
    # Deep ones: an element of arrays, or of objects, within one another; sometimes one bracket too few
    at = [i for i, c in enumerate(cp) if c == 91 and i + 1 < len(cp) and cp[i + 1] not in (44, 93)]
    if at and rng.random() < 0.02:
        i, k = rng.choice(at) + 1, rng.choice([60, 127, 128, 129, 200, 700])
        left, right = rng.choice([([91], [93]), ([123, 34, 34, 58], [125])])
        leaf = [ord(c) for c in rng.choice(["1", "[]", "{}", "\"\"", "null"])]
        cp[i:i] = left * k + leaf + right * (k - (rng.random() < 0.2)) + [44]
    return {"cp": cp}


def slice_case(script, rng):
    return dict(script[0])


def engine_case(script, rng):
    return {"h": [{"t": m["t"], "d": m["d"] or [ord(c) for c in unescape(m["s"], rng)]} for m in script]}


def url_case(script, rng):
    c = script[0]
    c["url"] = unescape(c["url"].replace("~u", "\u00fc"), rng)
    c["name"] = "" if c["u"] == "-" else c["u"]["host"]["name"]
    return c


def cps(s, rng):
    return [ord(c) for c in unescape(s, rng)]


def spelt(x, rng):
    """Strings that stand for texts become their code points."""
    if isinstance(x, list):
        return [spelt(y, rng) for y in x]
    if isinstance(x, dict):
        y = {k: spelt(v, rng) for k, v in x.items() if k != "s" or not isinstance(v, str)}
        if isinstance(x.get("s"), str):
            y["cp"] = cps(x["s"], rng)
        return y
    return x


def repeated(x):
    """Elements of lists that stand for several: [k |-> "rep", n, v]."""
    if isinstance(x, list):
        return [z for y in x for z in ([repeated(y["v"])] * y["n"] if isinstance(y, dict) and y.get("k") == "rep"
                                       else [repeated(y)])]
    if isinstance(x, dict):
        return {k: repeated(v) for k, v in x.items()}
    return x


def pack_case(script, rng):
    head, args = repeated(script)
    if head["kind"] in ("event", "ack") and rng.random() < 0.003:    # many
        args = args[:1] + [{"k": "bytes", "d": [rng.randrange(3)]}] * rng.choice([100, 255, 256, 257, 300])
    args = spelt(args, rng)
    return {"kind": head["kind"], "bin": head["bin"], "ns": cps(head["ns"], rng), "pid": cps(head["id"], rng),
            "ev": cps(head["ev"], rng), "args": args}


def longer(atts, rng):
    """Now and then one of a few attachments is a long one."""
    if 0 < len(atts) < 10 and rng.random() < 0.04:
        atts = list(atts)
        atts[rng.randrange(min(2, len(atts)))] = [rng.randrange(256) for _ in range(rng.choice([17, 33, 65, 129, 257, 600, 1025]))]
    return atts


def de_case(script, rng):
    c = script[0]
    return {"t": spelt(c["t"], rng), "doc": cps(c["doc"], rng), "atts": longer(c["atts"], rng)}


def view_case(script, rng):
    c = script[0]
    docs = [cps(d, rng) for d in c["docs"]]
    if docs and rng.random() < 0.05:    # deep ones
        i, k = rng.randrange(len(docs)), rng.choice([20, 110, 126, 127, 128, 140, 300])
        docs[i] = [91] * k + docs[i] + [93] * k
    if docs and rng.random() < 0.03:    # long ones
        k = rng.choice([64, 130, 260])
        docs[rng.randrange(len(docs))] = rng.choice([
            [34] + [rng.choice([97, 233, 128512, 32]) for _ in range(k)] + [34],
            [91] + [c for i in range(k // 4) for c in ([44] if i else []) + [ord(x) for x in str(rng.randrange(300))]] + [93],
            [123] + [c for i in range(k // 8) for c in ([44] if i else []) + [ord(x) for x in '"k%d":%d' % (i, i % 7)]] + [125]])
    elif docs and rng.random() < 0.02:    # many
        docs = docs * rng.choice([5, 12])
    elif docs and rng.random() < 0.005:    # very many
        docs = docs[:1] + [[49 + i % 7] for i in range(rng.choice([254, 255, 256, 300]))]
    if rng.random() < 0.1:    # few or none
        docs = docs[:rng.choice([0, 0, 1])]
    return {"docs": docs, "atts": longer(c["atts"], rng), "bin": bool(c["atts"]) or rng.random() < 0.5, "ack": rng.random() < 0.3}
