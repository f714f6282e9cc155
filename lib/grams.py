"""Checks about grammars and tables: C04, C05, C06, C07, C20, C22."""
import json, os, re
import gen
from common import cps
from files import example_files, part

CLASSICS = {
    "arith": "entry e; prod e = e PLUS t; prod e = t; prod t = t MUL f; prod t = f; prod f = LP e RP; prod f = NUM;",
    "ambig": "entry e; prod e = e PLUS e; prod e = NUM;",
    "dangling": "entry s; prod s = IF s; prod s = IF s ELSE s; prod s = X;",
    "lalr_not_slr": "entry s; prod s = l EQ r; prod s = r; prod l = STAR r; prod l = ID; prod r = l;",
    "lr1_not_lalr": "entry s; prod s = A x D; prod s = B y D; prod s = A y E; prod s = B x E; prod x = C; prod y = C;",
    "lr0": "entry s; prod s = A s B; prod s = C;",
    "lr0eps": "entry s; prod s = A s; prod s = !;",
    "rr": "entry s; prod s = x; prod s = y; prod x = A; prod y = A;",
    "cyclic": "entry s; prod s = s; prod s = A;",
    "cyclic2": "entry s; prod s = p; prod p = s; prod p = A;",
    "unit": "entry s; prod s = p; prod p = q; prod q = A;",
    "eps_only": "entry s; prod s = !;",
    "nullchain": "entry s; prod s = p q r; prod p = A; prod p = !; prod q = B; prod q = !; prod r = C; prod r = !;",
    "nullleft": "entry s; prod s = p s B; prod s = A; prod p = !;",
    "nullmid": "entry s; prod s = A p B; prod s = A p C; prod p = !; prod p = D p;",
    "leftrec": "entry s; prod s = s A; prod s = !;",
    "rightrec": "entry s; prod s = A s; prod s = B;",
    "palindrome": "entry s; prod s = A s A; prod s = B s B; prod s = !;",
    "unreach": "entry s; prod s = A; prod u = B u; prod u = !; prod v = u C;",
    "unprod": "entry s; prod s = A; prod s = B u; prod u = C u;",
    "emptylang": "entry s; prod s = A s;",
    "dup": "entry s; prod s = A; prod s = A;",
    "dup2": "entry s; prod s = p B; prod p = A; prod p = A;",
    "ebnf1": "entry s; prod s = A (B | C)* D?;",
    "ebnf2": "entry s; prod s = (A B?)+ | C;",
    "ebnf3": "entry s; prod s = ((A | (!)) B)* C;",
    "ebnf4": "entry s; prod s = (A?)* B;",
    "ebnf5": "entry s; prod s = p (COMMA p)*; prod p = A | LP s? RP;",
    "ebnf6": "entry s; prod s = (A | B C | (D E)+)? F;",
    "list": "entry l; prod l = LB (v (COMMA v)*)? RB; prod v = NUM | l;",
    "json": "entry v; prod v = LB (v (COMMA v)*)? RB | LC (m (COMMA m)*)? RC | STR | NUM; prod m = STR COLON v;",
    "stmts": "entry p; prod p = s*; prod s = ID EQ e SEMI; prod s = IF e THEN p END; prod s = WHILE e DO p END; prod e = e PLUS t; prod e = t; prod t = ID; prod t = NUM; prod t = LP e RP;",
    "lookahead2": "entry s; prod s = A B C; prod s = A B D;",
    "firstfirst": "entry s; prod s = p; prod s = q; prod p = A B; prod q = A C;",
    "firstfollow": "entry s; prod s = p A; prod p = A; prod p = !;",
    "followchain": "entry s; prod s = p q; prod p = A r; prod r = B r; prod r = !; prod q = C; prod q = !;",
    "tails": "entry s; prod s = p p; prod p = A p; prod p = B;",
    "deepnull": "entry s; prod s = a1 a2 X; prod a1 = a2 a3; prod a2 = a3; prod a3 = Y; prod a3 = !;",
    "lalr_merge": "entry s; prod s = A e A; prod s = B e B; prod s = A C B; prod e = C;",
    "lalr_rr": "entry s; prod s = A e A; prod s = B e B; prod s = A f B; prod s = B f A; prod e = C; prod f = C;",
    "mutual": "entry s; prod s = A p; prod p = B s; prod p = C;",
    "hidden": "entry s; prod s = h s X; prod s = Y; prod h = Z; prod h = !;",
    "bigalt": "entry s; prod s = A | B | C | D | E | F A | F B | F C;",
    "tagged": "entry s; prod s [one] = A s; prod s [two] = B; prod s = C (D | E)+;",
    "epsalt": "entry s; prod s = A (B | (!)) C; prod s = D;",
    "epsgroup": "entry s; prod s = (!) A (!); prod s = (!);",
    "single_opt": "entry s; prod s = A?;",
    "nest_plus": "entry s; prod s = ((A+ B)+ C)+;",
    "nest_opt": "entry s; prod s = ((A? B)? C)?;",
    "same_group": "entry s; prod s = (A | B) C (A | B);",
    "opt_after_nt": "entry s; prod s = p p? B; prod p = A;",
    "reads": "entry s; prod s = p q C; prod p = A; prod q = !; prod q = B;",
    "includes": "entry s; prod s = A p; prod p = B q; prod q = C; prod q = !; prod s = D p E;",
}


def classic(body):
    import re
    names = sorted(set(re.findall(r"\b[A-Z]+\b", body)))
    toks = "".join('token %s = "%s";\n' % (n, n.lower()) for n in names)
    return toks + body.replace("; ", ";\n") + "\n"


def classics():
    return [("classic:" + k, classic(v)) for k, v in CLASSICS.items()]


def randoms(ctx, n, **kw):
    rng = ctx.rng
    out = []
    for i in range(n):
        g = gen.rand_grammar(rng, **kw)
        out.append(("rand:%d" % i, g.text()))
    return out


def mixed(ctx, n, names=False):
    rng = ctx.rng
    out = []
    for i in range(n):
        k = rng.random()
        if k < 0.35:
            g = gen.rand_grammar(rng, ops=False, max_nts=4, max_terms=3, rules=3, names=names)
        elif k < 0.55:
            g = gen.rand_grammar(rng, ops=False, max_nts=5, max_terms=5, rules=3, eps=0.2, extra_rule=0.45, names=names)
        elif k < 0.8:
            g = gen.rand_grammar(rng, max_nts=3, max_terms=4, depth=2, rules=2, names=names)
        else:
            g = gen.rand_grammar(rng, max_nts=2, max_terms=3, depth=3, rules=2, names=names)
        out.append(("rand:%d" % i, g.text()))
    return out


def chains(ctx, n, ll=True, hi=10):
    return [("chain:%d" % i, gen.chain_grammar(ctx.rng, hi=hi, ll=ll and ctx.rng.random() < 0.7).text()) for i in range(n)]


def long_rules():
    """productions longer than any small integer type"""
    toks = 'token A = "a";\ntoken B = "b";\n'
    return [("long:260", toks + "entry s;\nprod s = " + "A " * 259 + "B;\n"),
            ("long:nts", toks + "entry s;\nprod s = p " + "A " * 257 + "p;\nprod p = B;\n")]


def thousands():
    """more than a thousand states"""
    return [("long:1004", 'token A = "a";\ntoken B = "b";\nentry s;\nprod s = ' + "A B " * 502 + ";\n")]


def nested():
    """every nesting of two operators around a token, a sequence, alternatives, a production and an optional item, in three contexts"""
    out = []
    inner = [("tok", "A"), ("seq", "A B"), ("alt", "A | B"), ("nt", "p"), ("opt", "A B?"), ("eps", "A | (!)")]
    for x in "?*+":
        for y in "?*+":
            for name, i in inner:
                g = "((%s)%s)%s" % (i, x, y)
                for k, body in enumerate([g, "C %s D" % g, "%s | C %s" % (g, g)]):
                    out.append(("nest:%s%s%s%d" % (name, x, y, k), classic("entry s; prod s = %s; prod p = E p; prod p = F;" % body)))
            for z in "?*+":
                out.append(("nest3:%s%s%s" % (x, y, z), classic("entry s; prod s = (((A)%s B?)%s)%s C;" % (x, y, z))))
    return out


def crowd():
    """more productions and names than a byte can number, together with operators"""
    n = 300
    t = "".join('token T%d = "x%dy";\n' % (i, i) for i in range(n))
    t += "entry s;\nprod s = (" + " | ".join("p%d" % i for i in range(0, n, 30)) + ")+ p7? (p3 T1)*;\n"
    t += "".join("prod p%d = T%d;\n" % (i, i) for i in range(n))
    return [("crowd:flat", t)]


def doubled(ctx, n):
    """several definitions of one name, equal or not, of one kind or of two"""
    rng = ctx.rng
    out = []
    for i in range(n):
        g = gen.rand_grammar(rng, max_nts=3, max_terms=3, depth=1, rules=2, names=True)
        t = list(rng.choice(g.tokens))
        r = rng.random()
        if r < 0.6:
            new = (t[0], rng.choice(["lit", "re"]), rng.choice([t[2], "zz", "q"]), rng.choice([None, None, 0, 3, 300]))
            if rng.random() < 0.4:
                k = rng.randrange(len(g.tokens))
                g.tokens[k] = g.tokens[k][:3] + (rng.choice([0, 2, 9]),)
            g.tokens.insert(rng.randrange(len(g.tokens) + 1), new)
        elif r < 0.8:
            g.prods.insert(rng.randrange(len(g.prods) + 1), (t[0], None, ("sym", rng.choice(g.tokens)[0])))
        else:
            g.prods.append(rng.choice(g.prods))
        out.append(("doubled:%d" % i, g.wild(rng) if rng.random() < 0.5 else g.text()))
    return out


def wide():
    """grammars whose numbers of rules, states, tokens, symbols and expected tokens exceed small integers"""
    def toks(n):
        return "".join('token T%d = "x%dy";\n' % (i, i) for i in range(n))
    two = toks(18) + "entry s;\n"
    for k in range(16):
        two += "prod s = s m%d;\nprod s = m%d;\n" % (k, k)
        two += "".join("prod m%d = T%d T%d;\n" % (k, k, j) for j in range(17))
    many = toks(300) + "entry s;\nprod s = x r;\nprod r = !;\nprod r = x r;\n" + "".join("prod x = T%d;\n" % i for i in (1, 44, 127, 128, 255, 256, 257, 299))
    row = toks(4) + "entry s;\nprod s = l s T3;\nprod s = T3;\nprod l = " + "T0 T1 p " * 7 + "T2;\nprod p = T2;\nprod p = " + "T0 T1 " * 9 + "T0;\n"
    row += "prod p = T3 " + "T2 " * 40 + "T3;\n"
    ebnf = toks(40) + "entry s;\nprod s = (" + " | ".join("T%d" % i for i in range(38)) + ")+ T38 (T39 T0?)* T1;\n"
    few = toks(70) + "entry s;\nprod s = x r;\nprod r = !;\nprod r = x r;\n" + "".join("prod x = T%d;\n" % i for i in range(70))
    # as many stacks at once, which differ in one reduction, and end one by one
    stacks = toks(70) + "entry s;\n" + "".join("prod s = m%d m%d T%d T%d;\nprod m%d = T0;\n" % (k, (k * 7 + 3) % 70, k // 8, k, k) for k in range(70))
    return [("wide:stacks", stacks), ("wide:two", two), ("wide:many", many), ("wide:few", few), ("wide:row", row), ("wide:ebnf", ebnf)]


def all_small(limit_rng=None, n=None):
    """bodies of all grammars with non-terminals s, p over A, B: rules s1 | s2 and p1 (| p2), right-hand sides up to length 2"""
    syms = ["A", "B", "s", "p"]
    rhs = ["!"] + syms + [a + " " + b for a in syms for b in syms]
    total = len(rhs) ** 4
    picks = range(total) if n is None else sorted(limit_rng.sample(range(total), n))
    for k in picks:
        i, d = k, []
        for _ in range(4):
            d.append(rhs[i % len(rhs)])
            i //= len(rhs)
        yield ("small:%d" % k, 'token A = "a";\ntoken B = "b";\nentry s;\nprod s = %s;\nprod s = %s;\nprod p = %s;\nprod p = %s;\n' % tuple(d))


def record(ctx, texts, want):
    jobs = [dict(id=cid, path=ctx.write("g%d.lapex" % i, text), want=want) for i, (cid, text) in enumerate(texts)]
    res = ctx.harness("dump", jobs)
    return [(cid, text, res[cid]) for cid, text in texts if cid in res]


def rules_of(r):
    return len(r["bnf"]["rules"]) if r.get("bnf", {}).get("status") == "ok" else 0


def c05(ctx):
    texts = example_files() + classics() + mixed(ctx, ctx.n(900, 12000)) + chains(ctx, ctx.n(250, 3000), hi=ctx.n(10, 14)) + list(all_small(ctx.rng, ctx.n(700, 20000)))
    cases = []
    for cid, text, r in record(ctx, texts, ["ll"]):
        if r.get("bnf", {}).get("status") != "ok":
            continue  # not a grammar; C22's business
        cases.append(dict(id=cid, bnf=r["bnf"], ll=r["ll"]))
        ctx.nt(text)
        if len(text) < 150:
            ctx.sample(dict(id=cid, grammar=text, ll="conflict" if r["ll"].get("conflict") else "table"))
    ctx.judge("LLCheck", cases, weight=lambda c: len(c["bnf"]["rules"]) ** 2)
    return ctx.finish("model_checking", "grammars: repository examples, classics, random BNF/EBNF grammars, a random part of all two-non-terminal "
                      "grammars with right-hand sides up to length 2; each table cell is compared")


def lr_cases(ctx, n, small, classes=("lr0", "lr1", "lalr")):
    texts = classics() + mixed(ctx, n) + list(all_small(ctx.rng, small)) + chains(ctx, n // 5, ll=False, hi=8) + long_rules()
    texts += [x for x in example_files() if "sql" not in x[0]]
    cases = []
    for cid, text, r in record(ctx, texts, list(classes)):
        if r.get("bnf", {}).get("status") != "ok":
            continue
        for k in classes:
            # keep the canonical automata small enough for TLC
            rows = len(r[k]["allowed"].get("table", {}).get("rows", [])) if r[k].get("status") == "ok" else 0
            if rows > ctx.n(90, 250) and not (cid.startswith("long:") and k == "lr0"):
                ctx.count("skipped: more than %d states" % ctx.n(90, 250))
                continue
            cases.append(dict(id=cid + ":" + k, bnf=r["bnf"], cls=k, res=r[k], rows=rows))
            ctx.nt(text, k)
            if len(text) < 150:
                ctx.sample(dict(id=cid, grammar=text, cls=k))
    return cases


LRW = lambda c: (len(c["bnf"]["rules"]) + 3) * (c["rows"] + 3) * (3 if c["cls"] == "lalr" else 1)


def c07(ctx):
    ctx.judge("LRCheck", lr_cases(ctx, ctx.n(250, 4000), ctx.n(250, 6000)), {"MODE": "table"}, weight=LRW)
    return ctx.finish("model_checking", "grammars x {LR(0), LALR(1), LR(1)} with conflicts kept; the product of canonical automaton and "
                      "generated table is explored completely for each")


def c06(ctx):
    ctx.judge("LRCheck", lr_cases(ctx, ctx.n(250, 4000), ctx.n(250, 6000)), {"MODE": "conflict"}, weight=LRW)
    return ctx.finish("model_checking", "grammars x {LR(0), LALR(1), LR(1)}; decision and reported conflicts against the canonical automaton")


def gram_cases(ctx, texts, length):
    cases = []
    for cid, text, r in record(ctx, texts, ["bnf"]):
        b = part(r, "bnf")
        nt = len(b.get("terminals", [])) or 1
        n = length
        while n > 1 and nt ** n > 400:
            n -= 1
        cases.append(dict(id=cid, text=cps(text), bnf=b, len=n if len(text) < 1500 else 0))
        if b["status"] == "ok":
            ctx.nt(text)
            if len(text) < 200:
                ctx.sample(dict(id=cid, grammar=text, rules=[x["text"] for x in b["rules"]]))
    return cases


def c04(ctx):
    rng = ctx.rng
    texts = classics() + example_files() + crowd() + nested()
    for i in range(ctx.n(160, 2500)):
        g = gen.rand_grammar(rng, max_nts=3, max_terms=3, depth=rng.choice([1, 2, 3]), rules=2, names=True)
        texts.append(("rand:%d" % i, g.text()))
    for i in range(ctx.n(60, 600)):
        g = gen.rand_grammar(rng, max_nts=1, max_terms=2, depth=4, rules=2, eps=0.2)
        texts.append(("deep:%d" % i, g.text()))
    cases = gram_cases(ctx, texts, ctx.n(5, 7))
    ctx.judge("GramCheck", cases, {"MODE": "language"}, weight=lambda c: 40 + len(c["text"]) * (1 + c["len"]))
    return ctx.finish("model_checking", "rule sets with nested operators; for each, every production is compared exactly (as a regular language over "
                      "tokens and named productions) and the entry rule on all viable prefixes up to a length")


def c22(ctx):
    import files
    rng = ctx.rng
    texts = [("curated:" + n, t) for n, t in files.CURATED + files.NAMES] + example_files() + classics() + crowd() + doubled(ctx, ctx.n(120, 1200))
    for i in range(ctx.n(500, 5000)):
        g = gen.rand_grammar(rng, max_nts=4, max_terms=4, depth=2, rules=2, names=True)
        r = rng.random()
        names = [t[0] for t in g.tokens] + [p[0] for p in g.prods]
        if r < 0.15 and len(g.tokens) > 1:
            g.tokens.pop(rng.randrange(len(g.tokens)))
        elif r < 0.3 and len(g.prods) > 1:
            n = rng.choice(g.prods)[0]
            g.prods = [p for p in g.prods if p[0] != n] or g.prods[:1]
        elif r < 0.4:
            g.entry = rng.choice(names + ["nowhere", g.entry.upper(), g.entry + "_", g.entry[:-1] + "x"])
        elif r < 0.6:
            old, new = rng.choice(names), rng.choice(["zz", "S", "s_", "a", "AB", "toKen", "x9"])
            g.prods = [(n, t, rename_one(rng, p, old, new)) for n, t, p in g.prods]
        texts.append(("names:%d" % i, g.wild(rng)))
    cases = gram_cases(ctx, texts, 0)
    ctx.judge("GramCheck", cases, {"MODE": "names"}, weight=lambda c: len(c["text"]))
    return ctx.finish("model_checking", "rule sets with all names defined, or with a token, production, use or entry renamed or removed; "
                      "accepted ones are compared rule by rule")


def rename_one(rng, p, old, new):
    if p[0] == "sym":
        return ("sym", new) if p[1] == old and rng.random() < 0.5 else p
    if p[0] == "eps":
        return p
    if p[0] in ("opt", "star", "plus"):
        return (p[0], rename_one(rng, p[1], old, new))
    return (p[0], [rename_one(rng, q, old, new) for q in p[1]])


# ---- the printed table ------------------------------------------------------------------------------------
def parse_table(text):
    """the file written by --table as [rules, head, rows], or a reason why it is none"""
    lines = text.split("\n")
    if lines[0] != "Rules:" or "" not in lines:
        return "no rules"
    k = lines.index("")
    rules = []
    for l in lines[1:k]:
        m = re.match(r"(\d+): (\S+) ->(.*)$", l)
        if not m:
            return "rule " + l
        rules.append(dict(index=int(m.group(1)), lhs=m.group(2), rhs=m.group(3).split()))
    head = lines[k + 1].split("|")
    if len(head) < 2 or head[0].strip() or head[-1]:
        return "head"
    rows = []
    for l in lines[k + 2:]:
        if not l:
            continue
        cells = l.split("|")
        if cells[-1] or not cells[0].strip().isdigit():
            return "row " + l
        out = []
        for x in cells[1:-1]:
            m = re.match(r"([srace]?)(\d*)\s*$", x)
            if not m or (m.group(1) in ("s", "r")) != (m.group(2) != ""):
                return "cell " + x
            out.append([m.group(1), int(m.group(2) or 0)])
        rows.append([int(cells[0]), out])
    return dict(rules=rules, head=head[1:-1], rows=rows)


def c20(ctx):
    texts = classics() + mixed(ctx, ctx.n(200, 3000), names=True) + list(all_small(ctx.rng, ctx.n(120, 2500))) + chains(ctx, ctx.n(20, 200), ll=False, hi=8) + long_rules() + thousands()
    texts += [x for x in example_files() if "sql" not in x[0]]
    recs = {cid: (text, r) for cid, text, r in record(ctx, texts, ["lr0", "lr1", "lalr"])}
    jobs = []
    for k, (cid, text) in enumerate(texts):
        r = recs.get(cid, (0, {}))[1]
        if r.get("bnf", {}).get("status") != "ok":
            continue
        for a in ("lr0", "lr1", "lalr", "glr"):
            x = r["lalr" if a == "glr" else a]
            if x.get("status") != "ok" or (a != "glr" and x["plain"]["kind"] != "table") or len(x["allowed"].get("table", {}).get("rows", [])) > (2000 if cid == "long:1004" and a == "lr0" else ctx.n(70, 200)):
                continue
            jobs.append(dict(id="%s:%s" % (cid, a), path=os.path.join(ctx.work, "g%d.lapex" % k), algo=a, lang="rust" if a == "glr" or ctx.rng.random() < 0.5 else "cpp",
                             target=os.path.join(ctx.work, "t%d-%s" % (k, a)), lexer=False, table=True, cid=cid))
    out = ctx.harness("gen", jobs)
    cases = []
    for j in jobs:
        o = out.get(j["id"])
        if o is None:
            continue
        text, r = recs[j["cid"]]
        cls = "lalr" if j["algo"] == "glr" else j["algo"]
        p = os.path.join(j["target"], "table")
        printed = parse_table(open(p, encoding="utf-8").read()) if o["status"] == "ok" and os.path.exists(p) else "no file"
        c = dict(id=j["id"], bnf=r["bnf"], cls=cls, res=r[cls], rows=len(r[cls]["allowed"].get("table", {}).get("rows", [])), printed=printed)
        if isinstance(printed, str):
            c["printed"] = dict(rules=[], head=[], rows=[])
            ctx.log(j["id"], printed)
        cases.append(c)
        ctx.nt(text, j["algo"])
        if len(text) < 150:
            ctx.sample(dict(id=j["id"], grammar=text))
    ctx.judge("TableText", cases, {"MODE": "table"}, weight=LRW)
    return ctx.finish("model_checking", "grammars x {LR(0), LALR(1), LR(1), GLR}: every cell of the printed table against the generated one, and that against the canonical automaton by a product walk")
