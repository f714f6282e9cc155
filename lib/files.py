"""Checks about grammar files: C15, C16, C17 (positions), C22."""
import glob, json, os, re
import gen
from common import REPO, cps


def example_files():
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, "example", "*.lapex"))) + [os.path.join(REPO, "lapex-input-gen/src/lapex.lapex")]:
        if os.path.exists(f):
            out.append(("example:" + os.path.basename(f), open(f, encoding="utf-8").read()))
    return out


CURATED = [
    ("tiny", 'token A = "a";\nentry s;\nprod s = A;\n'),
    ("noprod", 'token A = "a";\nentry s;\n'),
    ("entryonly", 'entry s;'),
    ("empty", ''),
    ("blank", ' \n\t '),
    ("twoentries", 'token A = "a";\nentry s;\nentry s;\nprod s = A;\n'),
    ("noentry", 'token A = "a";\nprod s = A;\n'),
    ("oneline", 'token A="a";entry s;prod s=A;'),
    ("keywords", 'token tokenx="a";entry entrys;prod entrys=tokenx prodx;prod prodx=!;'),
    ("kwname", 'token token="a";entry s;prod s=token;'),
    ("glued", 'tokenA="a";entry s;prod s=A;'),
    ("nested", 'token A="a";token B="b";entry s;prod s = ((A|(B A)?)* (!) | ((A))+ B | (A|B|(!))?)*;'),
    ("doubleop", 'token A="a";entry s;prod s = A?*;'),
    ("groupop", 'token A="a";entry s;prod s = (A?)*;'),
    ("bindtight", 'token A="a";token B="b";entry s;prod s = A B* | B A+ A? | B;'),
    ("epsalt", 'token A="a";entry s;prod s = A | !;'),
    ("epsalt2", 'token A="a";entry s;prod s = A | (!);'),
    ("epscat", 'token A="a";entry s;prod s = A ! A;'),
    ("trailpipe", 'token A="a";entry s;prod s = A |;'),
    ("emptygroup", 'token A="a";entry s;prod s = A ();'),
    ("quote", 'token A="\\"";token B=/\\//;entry s;prod s = A B;'),
    ("slashes", 'token A="//";token B=/"/;entry s;prod s = A B;'),
    ("emptylit", 'token A="";entry s;prod s = A;'),
    ("emptyre", 'token A=//;entry s;prod s = A;'),
    ("semiinlit", 'token A=";";token B="=";token C="[5]";entry s;prod s = A B C;'),
    ("prec0", 'token A[0]="a";token B[65535]="b";entry s;prod s = A B;'),
    ("precbig", 'token A[65536]="a";entry s;prod s = A;'),
    ("prechuge", 'token A[99999999999]="a";entry s;prod s = A;'),
    ("preclead0", 'token A[01]="a";entry s;prod s = A;'),
    ("precid", 'token A[x]="a";entry s;prod s = A;'),
    ("tagnum", 'token A="a";entry s;prod s[1] = A;'),
    ("tags", 'token A="a";entry s;prod s[one] = A;prod s [ two ] = A s;'),
    ("tagentry", 'token A="a";entry s[x];prod s = A;'),
    ("unterminated", 'token A="a;entry s;prod s = A;'),
    ("unterminatedre", 'token A=/a;entry s;prod s = A;'),
    ("badregex", 'token A=/a(/;entry s;prod s = A;'),
    ("badregex2", 'token A=/*a/;entry s;prod s = A;'),
    ("badclass", 'token A=/[z-a]/;entry s;prod s = A;'),
    ("missingsemi", 'token A="a" entry s;prod s = A;'),
    ("trailing", 'token A="a";entry s;prod s = A; x'),
    ("order", 'prod s = A; entry s; prod s = B; token B="b"; token A="a"; prod t = s;'),
    ("dupprods", 'token A="a";entry s;prod s = A;prod s = A;prod s = A A;'),
    ("unicode", 'token A="é漢";token B=/[α-ω]+é/;\n\tentry s; prod s = A B; token C="𝄞"; prod s[x] = C;'),
    ("tabs", '\ttoken\tA\t=\t"\t";\n\n\n  entry\ns\n;\nprod\n s\n =\n  A\n ;'),
    ("counts", 'token A=/a{3}/;token B=/b{2,}/;token C=/c{0,2}/;token D=/(xy){1,3}z/;token E=/[ab]{2}c*/;entry s;prod s = A B C D E;'),
    ("escapes", 'token A=/\\n\\t\\r\\\\\\/\\.\\*\\x41\\u0042\\u{1F600}/;entry s;prod s = A;'),
    ("classes", 'token A=/[a-z0-9_]+/;token B=/[^a-z\\n]/;token C=/[\\]\\-a]/;token D=/[^"\\\\\\n]/;entry s;prod s = A B C D;'),
    ("alts", 'token A=/ab|cd|e(f|g)?/;token B=/(a|b)*c|d+/;entry s;prod s = A B;'),
    ("dots", 'token A=/a.b/;token B=/.*/;entry s;prod s = A B;'),
    ("cr", 'token A="a";\r\nentry s;\r\nprod s = A;\r\n'),
    ("comment", '# c\ntoken A="a";entry s;prod s = A;'),
    ("longalt", 'token A="a";token B="b";token C="c";entry s;prod s = A B C | B C A | C A B | A | B | C | A A A A A A;'),
    ("hash", 'token A=/#/;token B=/a b/;token C=/(?:x|y)z/;entry s;prod s = A B C;'),
    ("fold", 'token A=/[aA][bB]/;token B=/K|k/;token C=/[a-zA-Z]é?/;entry s;prod s = A B C;'),
]

NAMES = [  # name resolution
    ("undef", 'token A="a";entry s;prod s = A B;'),
    ("undef2", 'token A="a";entry s;prod s = A | (A x)*;'),
    ("undefnested", 'token A="a";entry s;prod s = A;prod t = (A (u)?)+;'),
    ("undefentry", 'token A="a";entry r;prod s = A;'),
    ("entrytoken", 'token A="a";entry A;prod s = A;'),
    ("case", 'token a="a";entry s;prod s = A;'),
    ("case2", 'token A="a";entry S;prod s = A;'),
    ("prefix", 'token AB="a";token A="b";entry s;prod s = A s2 AB;prod s2 = AB;prod s22 = A;'),
    ("underscore", 'token A_="a";token A="b";token A__="c";entry s;prod s = A A_ A__;'),
    ("selfref", 'token A="a";entry s;prod s = s A | A;'),
    ("forward", 'entry s;prod s = t;prod t = A;token A="a";'),
    ("unused", 'entry s;prod s = A;prod t = t B;token A="a";token B="b";'),
    ("unusedundef", 'entry s;prod s = A;prod t = t B;token A="a";'),
    ("tagnotname", 'entry s;prod s[x] = A x;token A="a";'),
    ("onlyeps", 'entry s;prod s = !;token A="a";'),
    ("onlyeps_undef", 'entry s;prod s = (! | x);token A="a";'),
]


def tests_of(ctx, n_wild, n_mut):
    rng = ctx.rng
    out = example_files() + [("curated:" + n, t) for n, t in CURATED + NAMES]
    for i in range(n_wild):
        g = gen.rand_file(rng)
        out.append(("wild:%d" % i, g.wild(rng) if rng.random() < 0.85 else g.text()))
    import grams
    out += rng.sample(grams.nested(), 40)
    pool = [t for _, t in out]
    small = [t for t in pool if len(t) < 700]
    for i in range(n_mut):
        out.append(("mutant:%d" % i, gen.mutate(rng, rng.choice(small))))
    return out


def record(ctx, files, want, pads={}):
    jobs = []
    for i, (cid, text) in enumerate(files):
        try:
            text.encode("utf-8")
        except UnicodeError:
            continue
        p = ctx.write("f%d.lapex" % i, padded(pads.get(cid, (0, 0)), text))
        jobs.append(dict(id=cid, path=p, want=want))
    res = ctx.harness("dump", jobs)
    return [(cid, text, res[cid]) for cid, text in files if cid in res]


def part(r, key):
    """the recorded part, or the reason why there is none"""
    v = r.get(key) or r.get("ast") or r
    if v.get("status") != "ok" or key not in r:
        return dict({"status": v.get("status", "panic")}, **{k: v[k] for k in ("kind", "name", "spans") if k in v and v.get("kind") in ("missing", "double")})
    return v


def c15(ctx):
    files = tests_of(ctx, ctx.n(220, 2500), ctx.n(260, 3500))
    cases = []
    for cid, text, r in record(ctx, files, ["ast"]):
        real = part(r, "ast")
        cases.append(dict(id=cid, text=cps(text), real=real, boot={"status": "none"}, must=False))
        ctx.nt(text)
        ctx.sample(dict(id=cid, text=text, read=real["status"]) if len(text) < 200 else dict(id=cid, read=real["status"]))
    ctx.judge("FileCheck", cases, {"MODE": "meaning"}, weight=lambda c: len(c["text"]))
    return ctx.finish("model_checking", "grammar file texts: repository examples, hand-written, random files in random layout, and random "
                      "edits of those; each is read by GrammarFile (spec) and by the self-hosted parser; distinct texts are counted")


def padding(rng):
    return rng.choice([(0, 0)] * 6 + [(1, 1), (0, 3), (7, 0), (0, 70000), (65534, 2), (65536, 0), (66000, 66000), (300, 255)])


def padded(pad, text):
    return "\n" * pad[0] + " " * pad[1] + text


def parse_message(e):
    """a printed error as [kind, secs]"""
    e = re.sub(r"\x1b\[[0-9;]*m", "", e)
    lines = e.split("\n")
    kind = {"shift-reduce": "sr", "reduce-reduce": "rr", "conflicting": "prec"}.get(lines[0].partition(": ")[2].split(" ")[0], "other")
    secs, body = [], None
    for l in lines[1:]:
        m = re.match(r" --> .*:(\d+):(\d+)$", l)
        if m:
            body = []
            secs.append((int(m.group(1)), int(m.group(2)), body))
        elif body is not None:
            body.append(l[5:] if l.startswith("  |  ") else l)
    out = []
    for line, col, body in secs:
        at = [k for k, l in enumerate(body) if re.match(r"In state \d+:$|Token has identical precedence:$", l)]
        if not at:
            out.append(dict(line=line, col=col, lines=[], state=-1, sym="", item=""))
            continue
        k = at[-1]
        text, rest = body[1:k - 2], [l.strip() for l in body[k:]]
        state = int(rest[0][9:-1]) if rest[0].startswith("In state") else -1
        sym = rest[2] if kind == "sr" and len(rest) > 2 else ""
        item = {"sr": rest[4:5], "rr": rest[2:3], "prec": rest[1:2]}.get(kind, [""])
        out.append(dict(line=line, col=col, lines=[cps(l) for l in text], state=state, sym=sym, item=(item or [""])[0].split(" \u2022")[0].strip()))
    return dict(kind=kind, secs=out)


def quotes(ctx):
    """errors about rules, as printed"""
    import grams, lexers
    rng = ctx.rng
    texts = [(n, t, None) for n, t in grams.classics() + example_files() + grams.mixed(ctx, ctx.n(160, 2500), names=True)]
    for i in range(ctx.n(40, 500)):
        g = gen.rand_grammar(rng, max_nts=3, max_terms=3, depth=3)
        texts.append(("wildgrammar:%d" % i, g.wild(rng), None))
    texts += [(n, t, "lex") for n, t in lexers.classics()]
    for i in range(ctx.n(60, 700)):
        g = lexers.rand_lexer(rng, 0.8)
        texts.append(("ties:%d" % i, g.wild(rng) if rng.random() < 0.6 else g.text(), "lex"))
    jobs, gens = [], []
    for k, (cid, text, what) in enumerate(texts):
        pad = padding(rng)
        algo = rng.choice(["lr0", "lr1", "lalr"])
        path = ctx.write("q%d.lapex" % k, padded(pad, text))
        jobs.append(dict(id="%s:%s" % (cid, algo), path=path, want=["lex", algo], text=text, pad=pad, algo=algo))
        gens.append(dict(id=jobs[-1]["id"], path=path, algo=algo, lang=rng.choice(["rust", "cpp"]), target=os.path.join(ctx.work, "q%d" % k), lexer=True, table=False))
    res = ctx.harness("dump", jobs)
    out = ctx.harness("gen", gens)
    cases = []
    for j in jobs:
        r, o = res.get(j["id"]), out.get(j["id"])
        if not r or not o:
            continue
        b, x, l = part(r, "bnf"), r.get(j["algo"], {}), part(r, "lex")
        if b["status"] != "ok" or x.get("status") != "ok" or l["status"] != "ok" or len(b["rules"]) > 120:
            continue
        conf = x["plain"]["conflicts"]
        if len(conf) > ctx.n(25, 60):
            ctx.count("skipped: many conflicts")
            continue
        cases.append(dict(id=j["id"], text=cps(j["text"]), pad=j["pad"], state=o["status"], bnf=b, conf=conf, tie=l["tie"],
                          errors=[parse_message(e) for e in o.get("errors", [])]))
        if conf or l["tie"]:
            ctx.nt("quote", j["text"], j["algo"])
    ctx.judge("QuoteCheck", cases, weight=lambda c: len(c["text"]) * (1 + len(c["errors"])), kind="quote: ")


def c17(ctx):
    files = tests_of(ctx, ctx.n(200, 2500), ctx.n(50, 500))
    cases = []
    pads = {cid: padding(ctx.rng) for cid, _ in files}
    for cid, text, r in record(ctx, files, ["ast"], pads):
        cases.append(dict(id=cid, text=cps(text), real=part(r, "ast"), boot={"status": "none"}, must=False, pad=pads[cid]))
        ctx.nt(text, pads[cid])
        if len(text) < 200:
            ctx.sample(dict(id=cid, text=text))
    ctx.judge("FileCheck", cases, {"MODE": "span"}, weight=lambda c: len(c["text"]), kind="position: ")
    quotes(ctx)
    return ctx.finish("model_checking", "grammar file texts in random layout, some behind 65536 and more lines or columns; positions of all rules read, and the position and "
                      "quoted text in every printed precedence and conflict error, against the specification's reading")


def c16(ctx):
    rng = ctx.rng
    files = [(n, t, False) for n, t in example_files()] + [("curated:" + n, t, False) for n, t in CURATED + NAMES]
    for i in range(ctx.n(300, 3000)):
        g = gen.boot_file(rng)
        t = g.text()
        files.append(("boot:%d" % i, t, True))
    base = [t for _, t, _ in files if len(t) < 500]
    for i in range(ctx.n(200, 2500)):
        files.append(("mutant:%d" % i, gen.mutate(rng, rng.choice(base)), False))
    must = {n: m for n, t, m in files}
    cases = []
    for cid, text, r in record(ctx, [(n, t) for n, t, _ in files], ["ast", "boot"]):
        cases.append(dict(id=cid, text=cps(text), real=part(r, "ast"), boot=part(r, "boot"), must=must[cid]))
        ctx.nt(text)
        if len(text) < 250 and must[cid]:
            ctx.sample(dict(id=cid, text=text))
    ctx.judge("FileCheck", cases, {"MODE": "boot"}, weight=lambda c: len(c["text"]))
    return ctx.finish("model_checking", "grammar files of the bootstrap subset (random, repository, hand-written) and random edits; both front "
                      "ends' readings are compared with the specification's; distinct texts are counted")
