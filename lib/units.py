"""Checks about the libraries under the generator: automata (C27), templates and places of code (C28)."""
import lexers
from common import cps


# ---- C27: the subset construction ------------------------------------------------------------------------
def small_nfas(n, syms, rng, count):
    """automata of n states: a sample of all of them, every number of edges equally likely"""
    alls = [[a, b, s] for a in range(n) for b in range(n) for s in [-1] + list(range(syms))]
    for _ in range(count):
        es = rng.sample(alls, rng.randint(0, len(alls)))
        yield dict(states=[rng.choice([-1, 7, 8]) for _ in range(n)], edges=es, entry=rng.randrange(n))


def every_nfa(rng):
    """all automata of two states over one symbol, with silent edges"""
    alls = [[a, b, s] for a in (0, 1) for b in (0, 1) for s in (-1, 0)]
    for m in range(1 << len(alls)):
        for acc in range(4):
            es = [e for k, e in enumerate(alls) if m >> k & 1]
            if rng.random() < 0.5:
                es.reverse()
            yield dict(states=[7 if acc & 1 else -1, 8 if acc & 2 else -1], edges=es, entry=rng.randrange(2))


def big_nfa(rng):
    kind = rng.choice(["random", "chain", "cycle", "tree", "nth", "layers", "parallel"])
    syms = rng.choice([1, 2, 3, 5])
    lab = lambda p: rng.choice([0, 1, 2, 5]) if rng.random() < p else -1
    S = lambda: rng.randrange(syms)
    if kind == "random":
        n = rng.choice([3, 4, 5, 6, 8, 10])
        d = rng.choice([1, 1.3, 2, 3])
        es = [[rng.randrange(n), rng.randrange(n), -1 if rng.random() < rng.choice([0, 0.2, 0.5]) else S()] for _ in range(int(n * d))]
        return dict(states=[lab(0.4) for _ in range(n)], edges=es, entry=rng.randrange(n))
    if kind == "chain":
        n = rng.choice([2, 9, 40, 120])
        es = [[i, i + 1, rng.choice([-1, 0, S()])] for i in range(n - 1)] + [[rng.randrange(n), rng.randrange(n), rng.choice([-1, S()])] for _ in range(rng.choice([0, 1, 2]))]
        rng.shuffle(es)
        return dict(states=[lab(0.2) for _ in range(n)], edges=es, entry=rng.choice([0, 0, n // 2, n - 1]))
    if kind == "cycle":
        # silent cycles that hang together
        n = rng.choice([2, 3, 6, 9])
        es = [[i, (i + 1) % n, -1 if rng.random() < 0.7 else 0] for i in range(n)] + [[rng.randrange(n), rng.randrange(n), S()] for _ in range(2)]
        return dict(states=[lab(0.5) for _ in range(n)], edges=es, entry=rng.randrange(n))
    if kind == "tree":
        n = rng.choice([7, 15, 31])
        es = [[(i - 1) // 2, i, rng.choice([-1, S()])] for i in range(1, n)]
        return dict(states=[lab(0.5) for _ in range(n)], edges=es, entry=0)
    if kind == "nth":
        # the n-th symbol from the end: exponentially many states
        n = rng.choice([2, 3, 4, 5, 6])
        es = [[0, 0, 0], [0, 0, 1], [0, 1, 0]] + [[i, i + 1, s] for i in range(1, n) for s in (0, 1)]
        return dict(states=[-1] * n + [3], edges=es, entry=0)
    if kind == "layers":
        n, k = rng.choice([2, 3]), rng.choice([2, 3, 4])
        es = [[i * n + rng.randrange(n), (i + 1) * n + rng.randrange(n), rng.choice([-1, S(), S()])] for i in range(k - 1) for _ in range(n + 1)]
        return dict(states=[lab(0.6) for _ in range(n * k)], edges=es, entry=0)
    # many edges of the same kind, some of them twice, and labels twice
    n = rng.choice([2, 3, 4])
    es = [[rng.randrange(n), rng.randrange(n), rng.choice([-1, 0])] for _ in range(8)]
    return dict(states=[4] * n, edges=es + es[:3], entry=rng.randrange(n))


def c27(ctx):
    rng = ctx.rng
    nfas = [("all:%d" % i, a) for i, a in enumerate(every_nfa(rng))]
    nfas += [("three:%d" % i, a) for i, a in enumerate(small_nfas(3, 2, rng, ctx.n(1500, 30000)))]
    nfas += [("big:%d" % i, big_nfa(rng)) for i in range(ctx.n(1500, 30000))]
    got = ctx.harness("units", [dict(id=i, job="nfa", **a) for i, a in nfas])
    cases = []
    for i, a in nfas:
        r = got.get(i, dict(status="no answer"))
        cases.append(dict(id=i, nfa=a, dfa=dict(status=r["status"], states=r.get("states", []))))
        ctx.nt(a)
        if i.startswith("big"):
            ctx.sample(cases[-1])
    ctx.judge("AutomatonCheck", cases, weight=lambda c: 2 + len(c["dfa"]["states"]) * len(c["nfa"]["edges"]))
    return ctx.finish("model_checking", "nondeterministic automata: all of two states over one symbol, a sample of all of three states over two, and larger ones (silent cycles, parallel edges, "
                      "several labels, unreachable parts, exponential growth); the product of the specified subset automaton with the real one is explored completely")


# ---- C28: templates and places ----------------------------------------------------------------------------
KEYS = ["a", "b", "rule list", "é", "x_1", "", "A", "/*", "{", "}", "*", "a b"]


def template_case(rng):
    pieces = ["x", "\n", "/", "*", "{", "}", "/*", "*/", "/*{", "}*/", "{ a }", " ", "é漢𝄞", "// /* a */\n", "text ", "\r\n", "$1", "\\", "/* {a} */", "a", "$a", "{{", "\t"]
    text = ""
    for _ in range(rng.choice([0, 1, 2, 4, 7, 12])):
        if rng.random() < 0.5:
            text += "/*{" + rng.choice(["", "", " ", "  ", "\t", "\u3000", "\u200b"]) + rng.choice(KEYS[:6] if rng.random() < 0.8 else KEYS) + rng.choice(["", "", " ", "\r", "\u2003", "\n"]) + "}*/"
        else:
            text += rng.choice(pieces)
    subs = []
    for k in KEYS:
        if rng.random() < 0.93:
            n = rng.choice([0, 1, 1, 2, 3])
            subs.append(dict(key=k, parts=["".join(rng.choice(["q", "é", "漢", "/*{a}*/", "\n", "𝄞", "$0", "12", "}*/"]) for _ in range(rng.choice([0, 1, 3, 9]))) for _ in range(n)], fail=rng.random() < 0.04))
    if rng.random() < 0.2 and subs:
        subs.append(dict(rng.choice(subs), parts=["later"], fail=False))
    rng.shuffle(subs)
    return dict(text=text, subs=subs, times=rng.choice([1, 1, 1, 2, 3]), sink=dict(room=-1 if rng.random() < 0.6 else rng.randint(0, 40), step=rng.choice([1, 2, 3, 7, 1000, 1000])))


NAMES = ["parser.rs", "lexer.h", "table", "tokens.cpp", ""]


def targets_case(rng):
    room = lambda: -1 if rng.random() < 0.6 else rng.choice([0, 1, 2, 5, 9, 20, 60])
    sinks = [dict(key=rng.choice(NAMES), room=room(), step=rng.choice([1, 3, 1000])) for _ in range(rng.choice([0, 0, 1, 2, 4]))]
    files = [dict(room=room(), step=rng.choice([1, 3, 1000]), buffer=rng.choice([0, 1, 4, 16, 8192]), fail=rng.random() < 0.1) for _ in range(rng.choice([1, 2, 5]))]
    steps = []
    for i in range(rng.choice([0, 1, 2, 3, 6, 9])):
        # different characters in every step, so that it can be told what a failed one has left behind
        cs = [chr(65 + i), chr(97 + i), chr(0x3B1 + i), chr(0x4E00 + i)]
        parts = ["".join(rng.choice(cs) for _ in range(rng.choice([0, 1, 2, 5, 11, 30]))) for _ in range(rng.choice([0, 1, 1, 2, 4]))]
        steps.append(dict(key=rng.choice(NAMES), parts=parts, fail=rng.random() < 0.1))
    return dict(sinks=sinks, files=files, steps=steps)


FIXED = ["", "no marker at all", "/*{a}*/", "/*{a}*//*{b}*/", "/*{ a }*/x/*{a}*/", "/*{a\n}*/", "/*{/*{a}*/", "/*{\n/*{a}*/", "/*{}*/", "/*{a}", "}*/", "x/*{a}*/é", "é/*{a}*/", "/*{a}*/}*/",
         "/*{ rule list }*/\n", "/* {a} */", "/*{a} */}*/", "/**{a}*/", "/*{a}**/", "/*{zzz}*/", "/*{A}*//*{a}*/", "class /*{a}*/ { /* {x} */ };\n/*{b}*/\n"]


def c28(ctx):
    rng = ctx.rng
    jobs = []
    for i, t in enumerate(FIXED):
        for room in (-1, 3):
            jobs.append(dict(id="fixed:%d:%d" % (i, room), job="template", text=t, times=1, sink=dict(room=room, step=1000),
                             subs=[dict(key=k, parts=["<", k, ">"], fail=False) for k in KEYS]))
    jobs += [dict(id="template:%d" % i, job="template", **template_case(rng)) for i in range(ctx.n(2500, 40000))]
    jobs += [dict(id="targets:%d" % i, job="targets", **targets_case(rng)) for i in range(ctx.n(2500, 40000))]
    got = ctx.harness("units", jobs)
    cases = []
    for j in jobs:
        r = got.get(j["id"], dict(status="no answer"))
        c = dict(id=j["id"], kind=j["job"], status=r["status"], outs=r.get("outs", []))
        if j["job"] == "template":
            c.update(text=cps(j["text"]), times=j["times"], room=j["sink"]["room"], bytes=r.get("bytes", []),
                     subs=[dict(key=cps(s["key"]), parts=[cps(p) for p in s["parts"]], fail=s["fail"]) for s in j["subs"]])
        else:
            c.update(sinks=[dict(s, found=f) for s, f in zip(j["sinks"], r.get("sinks", [[] for _ in j["sinks"]]))], files=j["files"],
                     opened=[dict(key=n, found=f) for n, f in r.get("opened", [])], steps=[dict(s, parts=[cps(p) for p in s["parts"]]) for s in j["steps"]])
        cases.append(c)
        ctx.nt({k: v for k, v in j.items() if k != "id"})
        ctx.sample(j)
    ctx.judge("Codegen", cases, weight=lambda c: 5 + len(c["outs"]) + len(c.get("bytes", [])) // 4)
    return ctx.finish("model_checking", "templates of markers, parts of markers and other text, suppliers that write in parts or fail, sinks that take few bytes at once or are full after some; "
                      "sequences of requests for registered targets and for files; every written byte and every outcome is a behaviour of the specification")


# ---- C29: alphabet and automaton of a rule set --------------------------------------------------------------
def c29(ctx):
    rng = ctx.rng
    texts = lexers.lexer_texts(ctx, ctx.n(420, 5000))
    texts = [("%s:%s" % (i, f), t) for i, t in texts for f in (("gen", "boot") if "^" in t or rng.random() < 0.3 else ("gen",))]
    jobs = [dict(id=i, job="lexparts", text=t, front=i.rsplit(":", 1)[1], chars=[rng.choice([rng.randrange(128), rng.randrange(0x3000), rng.randrange(0x110000), 0xD7FF, 0xE000]) for _ in range(12)] + [0x10FFFF, 0x110000, 0xFFFFFFFF])
            for i, t in texts]
    got = ctx.harness("units", jobs)
    cases = []
    for i, t in texts:
        r = got.get(i, dict(status="no answer"))
        if len(r.get("nfa", {}).get("states", ())) > ctx.n(150, 400):
            ctx.count("skipped: large automaton")
            continue
        p = dict(status=r["status"], names=r.get("names", []), ranges=r.get("ranges", []), finds=[[min(c, 2000000), x] for c, x in r.get("finds", [])],
                 nfa=r.get("nfa", dict(states=[], edges=[], entry=0)))
        cases.append(dict(id=i, text=cps(t), parts=p))
        ctx.nt(t)
        if len(t) < 200:
            ctx.sample(dict(id=i, rules=t))
    ctx.judge("LexParts", cases, weight=lambda c: 20 + len(c["parts"]["nfa"]["edges"]) * len(c["parts"]["ranges"]))
    return ctx.finish("model_checking", "sets of token rules (hand-written, examples, random with every kind of class, repetition and literal); the real division of the characters, the range "
                      "found for each, and the complete product of the real nondeterministic automaton with the specified automata of the rules")
