"""Checks about generated parsers: C08-C11 (language), C12, C13 (visitors), C14 (expected tokens), C21 (requests)."""
import re
import gen, grams, runtime
from common import cps
from files import example_files, part
import longwords


# ---- words -------------------------------------------------------------------------------------------
def min_lengths(bnf):
    INF = 10 ** 6
    m = {i: INF for i, _ in bnf["nts"]}
    changed = True
    while changed:
        changed = False
        for r in bnf["rules"]:
            n = sum(0 if s == -1 else 1 if s < 1000 else m[s] for s in r["rhs"])
            if n < m[r["lhs"]]:
                m[r["lhs"]] = n
                changed = True
    return m


def sentence(rng, bnf, mins, budget):
    """a random sentence of about that length, or None"""
    by = {}
    for r in bnf["rules"]:
        by.setdefault(r["lhs"], []).append(r)
    if mins[bnf["entry"]] >= 10 ** 6:
        return None
    out, stack, steps = [], [bnf["entry"]], 0
    while stack:
        s = stack.pop()
        steps += 1
        if s == -1:
            continue
        if s < 1000:
            out.append(s)
            continue
        rest = sum(0 if x == -1 else 1 if x < 1000 else mins[x] for x in stack)
        room = budget - len(out) - rest
        cost = lambda r: sum(0 if x == -1 else 1 if x < 1000 else mins[x] for x in r["rhs"])
        rs = [r for r in by[s] if cost(r) < 10 ** 6]
        fit = [r for r in rs if cost(r) <= room]
        if steps > 400 or not fit:
            best = min(cost(r) for r in rs)
            fit = [r for r in rs if cost(r) == best]
            if steps > 2000:
                return None
        stack.extend(reversed(rng.choice(fit)["rhs"]))
    return out


def nullable(bnf):
    n = {-1}
    while True:
        m = n | {r["lhs"] for r in bnf["rules"] if all(s in n for s in r["rhs"])}
        if m == n:
            return n
        n = m


def reduced(bnf):
    """every non-terminal derives some word (only decides which grammars are tried)"""
    return all(n < 10 ** 6 for n in min_lengths(bnf).values())


def tame(bnf):
    """no infinitely ambiguous and no hidden left-recursive rules"""
    nul = nullable(bnf)
    rules = [(r["lhs"], [s for s in r["rhs"] if s != -1]) for r in bnf["rules"]]

    def closure(edges):
        reach = {}
        for a, b in edges:
            reach.setdefault(a, set()).add(b)
        changed = True
        while changed:
            changed = False
            for a in list(reach):
                new = set().union(*[reach.get(b, set()) for b in reach[a]]) - reach[a]
                if new:
                    reach[a] |= new
                    changed = True
        return reach
    unit, left, hidden = set(), set(), set()
    for l, rhs in rules:
        for i, s in enumerate(rhs):
            if s >= 1000 and all(x in nul for x in rhs[:i]):
                left.add((l, s))
                if i > 0:
                    hidden.add((l, s))
            if s >= 1000 and all(x in nul for k, x in enumerate(rhs) if k != i):
                unit.add((l, s))
    u, lf = closure(unit), closure(left)
    return not any(a in u.get(a, ()) for a in u) and not any(a == b or a in lf.get(b, ()) for a, b in hidden)


class Stacks:
    """an upper bound for the work of a parser that follows every stack of the SLR(1) automaton separately"""

    def __init__(self, bnf):
        self.rules = [(r["lhs"], tuple(s for s in r["rhs"] if s != -1)) for r in bnf["rules"]] + [(-9, (bnf["entry"],))]
        self.by = {}
        for k, (l, _) in enumerate(self.rules):
            self.by.setdefault(l, []).append(k)
        nul = nullable(bnf)
        first = {n: set() for n, _ in bnf["nts"]}
        follow = {n: set() for n, _ in bnf["nts"]}
        follow[-9] = {0}

        def fs(seq):
            out = set()
            for s in seq:
                if s < 1000:
                    return out | {s}, False
                out |= first[s]
                if s not in nul:
                    return out, False
            return out, True
        changed = True
        while changed:
            changed = False
            for l, rhs in self.rules:
                f, _ = fs(rhs)
                if l != -9 and not f <= first[l]:
                    first[l] |= f
                    changed = True
                for i, s in enumerate(rhs):
                    if s >= 1000:
                        f, n = fs(rhs[i + 1:])
                        f = f | (follow[l] if n else set())
                        if not f <= follow[s]:
                            follow[s] |= f
                            changed = True
        self.follow, self.cache, self.num = follow, {}, {}
        self.start = self.close({(len(self.rules) - 1, 0)})

    def close(self, items):
        done, todo = set(), list(items)
        while todo:
            it = todo.pop()
            if it in done:
                continue
            done.add(it)
            rhs = self.rules[it[0]][1]
            if it[1] < len(rhs) and rhs[it[1]] >= 1000:
                todo += [(k, 0) for k in self.by.get(rhs[it[1]], [])]
        return frozenset(done)

    def go(self, q, s):
        if (q, s) not in self.cache:
            self.cache[q, s] = self.close({(r, d + 1) for r, d in q if d < len(self.rules[r][1]) and self.rules[r][1][d] == s})
        return self.cache[q, s]

    def work(self, w, cap):
        stacks, total = [(self.start,)], 0
        for t in list(w) + [0]:
            nxt, todo = [], stacks
            while todo:
                total += len(todo)
                if total > cap:
                    return cap + 1
                more = []
                for st in todo:
                    q = st[-1]
                    if self.go(q, t):
                        nxt.append(st + (self.go(q, t),))
                    for r, d in q:
                        l, rhs = self.rules[r]
                        if d == len(rhs) and l != -9 and t in self.follow[l]:
                            base = st[:len(st) - d]
                            to = self.go(base[-1], l)
                            if to:
                                more.append(base + (to,))
                todo = more
            stacks = nxt
            if not stacks:
                break
        return total


def words_for(rng, bnf, size, short=40, longest=None):
    """words over the terminals of a grammar: all short ones, sentences, and damaged sentences"""
    ts = [i for i, _ in bnf["terminals"]]
    ws = set()
    layer = [()]
    ws.add(())
    while ts and len(ws) + len(layer) * len(ts) <= short:
        layer = [w + (t,) for w in layer for t in ts]
        ws.update(layer)
    mins = min_lengths(bnf)
    sents = set()
    top = longest or 14
    for _ in range(size):
        s = sentence(rng, bnf, mins, rng.choice([1, 2, 3, 4, 5, 6, 8, 10] + [top] * (8 if top > 20 else 1)))
        if s is not None and len(s) <= 3 * top:
            sents.add(tuple(s))
    s = sentence(rng, bnf, mins, 0)
    if s is not None and len(s) < 400:
        sents.add(tuple(s))
    ws |= sents
    for s in sorted(sents) * 2:
        if not ts:
            break
        w = list(s)
        for _ in range(rng.choice([1, 1, 1, 2])):
            k = rng.random()
            i = rng.randrange(len(w) + 1)
            if k < 0.3 and w:
                del w[min(i, len(w) - 1)]
            elif k < 0.5:
                w.insert(i, rng.choice(ts))
            elif k < 0.8 and w:
                w[min(i, len(w) - 1)] = rng.choice(ts)
            elif k < 0.9 and w:
                w = w[:i]
            else:
                w.append(rng.choice(ts))
        ws.add(tuple(w))
    return [list(w) for w in sorted(ws)]


def trie(runs):
    """prefix tree of the (sorted) words of runs; node 1 is the root, runs are numbered from 1"""
    nodes = [dict(t=-1, kids=[], end=[], lo=1, hi=len(runs))]
    index = {(): 0}
    for i, r in enumerate(runs):
        p = ()
        for t in r["w"]:
            q = p + (t,)
            if q not in index:
                index[q] = len(nodes)
                nodes[index[p]]["kids"].append(len(nodes) + 1)
                nodes.append(dict(t=t, kids=[], end=[], lo=i + 1, hi=i + 1))
            nodes[index[q]]["hi"] = i + 1
            p = q
        nodes[index[p]]["end"].append(i + 1)
    return nodes


# ---- recording -----------------------------------------------------------------------------------------
def texts_for(ctx, n, ll=False, glr=False):
    texts = grams.wide() + grams.long_rules() + grams.classics() + example_files()
    texts += ctx.rng.sample(grams.nested(), n // 20)
    texts += grams.mixed(ctx, n, names=True)
    texts += grams.chains(ctx, n // 8, ll=ll)
    texts += list(grams.all_small(ctx.rng, n // 4))
    return texts


def plan(ctx, algos, lang, n, size, keep=None):
    """jobs for every grammar and algorithm that (by the generator's own account) is free of conflicts; at most keep per algorithm"""
    texts = texts_for(ctx, n, ll="ll1" in algos)
    want = sorted({{"ll1": "ll", "lr0": "lr0", "lr1": "lr1", "lalr": "lalr", "glr": "bnf"}[a] for a in algos})
    jobs, per = [], {}
    for k, (cid, text, r) in enumerate(grams.record(ctx, texts, want)):
        b = part(r, "bnf")
        if b["status"] != "ok" or not b["rules"] or len(b["rules"]) > 160 and cid[:4] not in ("wide", "long"):
            continue
        ws = None
        for a in algos:
            if a == "glr":
                fine = tame(b) and (len(b["rules"]) < 60 or cid[:4] in ("wide", "long"))
            elif a == "ll1":
                fine = r.get("ll", {}).get("status") == "ok" and not r["ll"].get("conflict")
            else:
                fine = r.get(a, {}).get("status") == "ok" and r[a]["plain"]["kind"] == "table"
            if not fine or per.get(a, 0) >= (keep or 10 ** 6):
                continue
            per[a] = per.get(a, 0) + 1
            if ws is None:
                ws = words_for(ctx.rng, b, size, longest=60 if cid[:4] in ("wide", "long") else 9 if "glr" in algos else 14)
                if "glr" not in algos and ctx.rng.random() < 0.08:
                    s = sentence(ctx.rng, b, min_lengths(b), 60)
                    if s is not None and len(s) < 100:
                        ws = sorted(ws + [s] if s not in ws else ws)
            if a == "glr":
                st = Stacks(b)
                ws = [w for w in ws if st.work(w, 2500) <= 2500]
            jobs.append(dict(id="%s:%s:%s" % (cid, a, lang), text=text, path=ctx.write("%s-%s/g%d.lapex" % (lang, algos[0], k), text), algo=a, lang=lang, bnf=b, words=ws))
    for a in algos:
        ctx.count("parsers planned: %s %s" % (a, lang), per.get(a, 0))
    return jobs


def observe(ctx, jobs):
    runtime.build_parsers(ctx, jobs)
    runtime.run_parsers(ctx, jobs)
    out = []
    for j in jobs:
        out.append(j)
        ctx.count("words run", len(j.get("runs", [])))
        if j["state"] != "ok":
            ctx.log(j["id"], j["state"], j["msg"])
        ctx.nt(j["text"], j["algo"])
        if len(j["text"]) < 160 and j.get("runs"):
            ctx.sample(dict(id=j["id"], grammar=j["text"], words=len(j["runs"]), example=j["runs"][-1]))
    return out


def case(j):
    return dict(id=j["id"], state=j["state"], text=cps(j["text"]), bnf=j["bnf"], cls=j["algo"], runs=j.get("runs", []),
                trie=trie(j.get("runs", [])))


def visit_case(j):
    c = dict(id=j["id"], state=j["state"], text=cps(j["text"]), bnf=j["bnf"], cls=j["algo"], runs=j.get("runs", []), meths=[], docs=[], named=True)
    if j["state"] == "ok":
        if j["algo"] == "ll1":
            ns = {n for _, n in j["bnf"]["nts"] if n}
            for m in j["meths"]:
                k, _, n = m.partition("_")
                c["meths"].append([k, n])
            c["named"] = sorted(j["meths"]) == sorted(k + n for n in ns for k in ("enter_", "exit_"))
            c["docs"] = ["" for _ in j["meths"]]
        else:
            want = runtime.methods(j["bnf"], j["lang"])
            c["named"] = sorted(want) == sorted(j["meths"])
            c["meths"] = [["rule", want.get(m, [])] for m in j["meths"]]
            c["docs"] = [re.sub(r"\s+", " ", x) for x in j["docs"]]
    return c


CW = lambda c: 20 + len(c["text"]) + 3 * sum(len(r["w"]) for r in c["runs"])
VW = lambda c: 20 + sum(len(r["ev"]) for r in c["runs"])
LRS = ["lr0", "lalr", "lr1"]


def language(ctx, algos, lang, n, size, keep, visits=False):
    jobs = observe(ctx, plan(ctx, algos, lang, n, size, keep))
    ctx.judge("ParserCheck", [case(j) for j in jobs], {"MODE": "lang"}, weight=CW, kind="language: ")
    if visits:
        ctx.judge("VisitCheck", [visit_case(j) for j in jobs], weight=VW, kind="visitor: ")
    longwords.check(ctx, algos, lang)


RULE = ("generated parsers (grammars: classics, repository examples, random BNF/EBNF, chains, a part of all small grammars) run on all short words, "
        "random sentences and damaged sentences; ")


def c08(ctx):
    language(ctx, LRS, "rust", ctx.n(260, 2500), ctx.n(14, 40), ctx.n(110, 1200))
    return ctx.finish("model_checking", RULE + "Rust LR(0), LALR(1), LR(1); outcome of every word against the Earley chart of the written grammar")


def c09(ctx):
    language(ctx, LRS, "cpp", ctx.n(260, 2500), ctx.n(14, 40), ctx.n(70, 700))
    return ctx.finish("model_checking", RULE + "C++ LR(0), LALR(1), LR(1); outcome of every word against the Earley chart of the written grammar")


def c10(ctx):
    language(ctx, ["ll1"], "cpp", ctx.n(500, 4000), ctx.n(14, 40), ctx.n(130, 1500), visits=True)
    return ctx.finish("model_checking", RULE + "C++ LL(1); outcome of every word against the Earley chart, visitor calls against the written productions")


def c11(ctx):
    language(ctx, ["glr"], "rust", ctx.n(200, 2000), ctx.n(12, 30), ctx.n(130, 1500), visits=True)
    return ctx.finish("model_checking", RULE + "Rust GLR; outcome of every word against the Earley chart, visitor calls as a derivation")


def visits(ctx, lang, keep):
    jobs = observe(ctx, plan(ctx, LRS, lang, ctx.n(260, 2500), ctx.n(14, 40), keep))
    ctx.judge("VisitCheck", [visit_case(j) for j in jobs], weight=VW, kind="visitor: ")
    return ctx.finish("model_checking", RULE + "every visitor call of every run is one step of the specification's LR stack machine")


def c12(ctx):
    return visits(ctx, "rust", ctx.n(110, 1200))


def c13(ctx):
    return visits(ctx, "cpp", ctx.n(70, 700))


def everything(ctx, mode, kind):
    jobs = plan(ctx, LRS + ["glr"], "rust", ctx.n(160, 1600), ctx.n(12, 30), ctx.n(50, 600))
    jobs += plan(ctx, LRS + ["ll1"], "cpp", ctx.n(130, 1200), ctx.n(12, 30), ctx.n(32, 350))
    seen = set()
    jobs = [j for j in jobs if not (j["id"] in seen or seen.add(j["id"]))]
    # (the specification's own LR(1) automaton of a very large grammar takes too long)
    jobs = [j for j in jobs if mode != "expect" or len(j["bnf"]["rules"]) < 100 or j["algo"] in ("lr0", "ll1")]
    observe(ctx, jobs)
    jobs = [j for j in jobs if j["state"] == "ok"]
    ctx.judge("ParserCheck", [case(j) for j in jobs], {"MODE": mode}, weight=CW, kind=kind)


def c14(ctx):
    everything(ctx, "expect", "expected: ")
    return ctx.finish("model_checking", RULE + "Rust LR/GLR and C++ LR/LL; the expected tokens of every rejection against the canonical automaton's state")


def c21(ctx):
    everything(ctx, "pull", "requests: ")
    return ctx.finish("model_checking", RULE + "Rust LR/GLR and C++ LR/LL; every request for a token is one step of the history that is checked")


def c25(ctx):
    rng = ctx.rng
    jobs = plan(ctx, ["glr"], "rust", ctx.n(160, 1600), ctx.n(10, 25), ctx.n(60, 700))
    jobs += plan(ctx, LRS + ["ll1"], "cpp", ctx.n(160, 1400), ctx.n(10, 25), ctx.n(22, 250))
    seen = set()
    jobs = [j for j in jobs if not (j["id"] in seen or seen.add(j["id"])) and reduced(j["bnf"])]
    for j in jobs:
        ws = set()
        mins = min_lengths(j["bnf"])
        for w in j["words"]:
            for k in {0, len(w), rng.randrange(len(w) + 1), rng.randrange(len(w) + 1)}:
                # behind the failure the source would go on
                ws.add(tuple(w[:k]) + (runtime.FAIL,) + (tuple(w[k:]) if rng.random() < 0.5 else ()))
            if rng.random() < 0.1:
                ws.add(tuple(w))
        j["words"] = [list(w) for w in sorted(ws)][:ctx.n(160, 600)] if len(ws) <= ctx.n(160, 600) else [list(w) for w in sorted(rng.sample(sorted(ws), ctx.n(160, 600)))]
    observe(ctx, jobs)
    ctx.judge("ParserCheck", [case(j) for j in jobs], {"MODE": "fail"}, weight=CW, kind="failures: ")
    ctx.judge("VisitCheck", [visit_case(j) for j in jobs], weight=VW, kind="visitor: ")
    return ctx.finish("model_checking", RULE + "Rust GLR and C++ LR/LL with a token source that fails before, in or behind the word; the failure has to be returned unchanged "
                      "where it happens, with nothing requested afterwards and the calls of a beginning of a derivation")


def c30(ctx):
    rng = ctx.rng
    jobs = plan(ctx, LRS + ["glr"], "rust", ctx.n(80, 1000), ctx.n(10, 25), ctx.n(20, 250))
    jobs += plan(ctx, LRS + ["ll1"], "cpp", ctx.n(110, 1400), ctx.n(10, 25), ctx.n(20, 250))
    seen = set()
    jobs = [j for j in jobs if not (j["id"] in seen or seen.add(j["id"])) and reduced(j["bnf"])]
    for j in jobs:
        pool = [list(w) for w in j["words"]]
        fails = j["algo"] == "glr" or j["lang"] == "cpp"
        words, between = [], []

        def pick():
            w = list(rng.choice(pool))
            if fails and rng.random() < 0.2:
                k = rng.randrange(len(w) + 1)
                w = w[:k] + [runtime.FAIL] + (w[k:] if rng.random() < 0.5 else [])
            return w
        for _ in range(min(ctx.n(90, 300), 3 * len(pool))):
            words.append(list(words[-1]) if words and rng.random() < 0.1 else pick())
            between.append(pick() if rng.random() < 0.4 else None)
        j["words"], j["again"] = words, between
    observe(ctx, jobs)
    ctx.judge("ParserCheck", [case(j) for j in jobs], {"MODE": "again"}, weight=CW, kind="histories: ")
    ctx.judge("VisitCheck", [visit_case(j) for j in jobs], weight=VW, kind="visitor: ")
    return ctx.finish("model_checking", RULE + "Rust LR/GLR and C++ LR/LL; one parser object reads sentences, rejected words and words whose source fails, one after the other in random "
                      "order, some of them interrupted by another parser that reads a word; every single parse has the outcome, requests and calls of a first one")
