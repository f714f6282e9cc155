"""Checks about lexers: C01, C02 (generated lexers), C03 (ties)."""
import json
import gen, runtime
from common import cps
from files import example_files, part, CURATED

LEXERS = {
    "keyword": ['IF "if"', 'ID /[a-z]+/'],
    "keyword_prec": ['IF [1] "if"', 'ID [1] /[a-z]+/'],
    "keyword_lower": ['IF [0] "if"', 'ID /[a-z]+/'],
    "kwtie": ['IF "if"', 'ID /[a-z]{4,}|if/'],
    "ops": ['P "+"', 'PP "++"', 'PPP "+++"', 'PE "+="', 'E "="', 'EE "=="'],
    "gap": ['A "a"', 'ABC "abc"'],
    "gap2": ['A "a"', 'AB3 /(ab){3}/', 'B "b"'],
    "numbers": ['INT /[0-9]+/', 'FLOAT /[0-9]+\\.[0-9]+/', 'DOT "."', 'HEX /0x[0-9a-f]+/'],
    "string": ['S /"([^"\\\\\\n]|\\\\.)*"/', 'WS /[ \\n\\t]+/', 'Q /\'/'],
    "comment": ['C /\\/\\*([^*]|\\*+[^*\\/])*\\*+\\//', 'D "/"', 'M "*"'],
    "dots": ['ANY /./', 'NL /\\n/', 'AB "ab"'],
    "neg": ['N /[^a-c]/', 'A "a"', 'BC /[bc]+/'],
    "uni": ['E "é"', 'G /[α-ω]+/', 'H "漢字"', 'X /[^\\u{0}-\\u{7f}]{2}/', 'M "𝄞"'],
    "edges": ['LO /[\\u{1}-\\u{8}]/', 'HI /[\\u{10FFF0}-\\u{10FFFF}]/', 'SUR /[\\u{D000}-\\u{F000}]/', 'MAX /\\u{10FFFE}\\u{10FFFF}/'],
    "lowchars": ['X /\\x01/', 'Y /[\\x02-\\x05]+/', 'Z /[^\\x01-\\x05a]/'],
    "empty": ['A /a*/', 'B "b"'],
    "emptytie": ['A /a*/', 'B /b*/'],
    "emptytie2": ['A [5] /a*/', 'B [5] /b?/'],
    "tie3": ['A /[ab]c/', 'B /[bd]c/', 'C /b./'],
    "tieprec": ['A [3] /[ab]c/', 'B [3] /b[cd]/', 'C /b+/'],
    "hidetie": ['A /[ab]c/', 'B /b[cd]/', 'C "bc"'],
    "hidetie2": ['A [2] /[ab]c/', 'B [2] /b[cd]/', 'C [1] "bc"'],
    "two_ties": ['A [2] "x"', 'B [2] /x|y/', 'C [7] "z"', 'D [7] /z|w/'],
    "deep": ['A /(a|b)*abb/', 'B /(a|b)*bab/', 'C /[ab]/'],
    "late": ['A /a{7}/', 'B /(aaa|aaaa)+/', 'C "aa"'],
    "samelit": ['A "ab"', 'B "ab"'],
    "litre": ['A "ab"', 'B /ab/'],
    "litre4": ['A "ab"', 'B /abab|ab../'],
    "shortest": ['A /a|bcd/', 'B /bc(d|e)/'],
    "shortest2": ['A /(ab)+c?/', 'B /ab(ab|c)*/'],
    "counts": ['A /[0-9]{2,4}/', 'B /[0-9]{3}/', 'C /[0-9]{1,3}x/'],
    "classends": ['A /[a-c]/', 'B /[c-e]x/', 'C /[e-g]y/', 'D /[^a-g]/'],
    "prefixes": ['T "token"', 'TO "to"', 'TOK "tok"', 'I /[a-z]/'],
    "overlap3": ['A [9] /a[x-z]/', 'B [8] /[a-c]y/', 'C [7] /[a-d][w-z]/'],
    "long1": ['A "%s"' % ("a" * 150), 'B [299] /a+/'],
    "long2": ['A "%s"' % ("a" * 150), 'B [301] /a+/'],
    "long3": ['A "%s"' % ("ab" * 66), 'B [256] /[ab]+/', 'C [255] /[abc]+/'],
    "long4": ['A "%s"' % ("a" * 128), 'B /a{256}|a{128}/', 'C /a{256,}/'],
    "long5": ['A /a{300}/', 'B [299] /[ab]+/', 'C [300] /b+/'],
    "long6": ['A "%s"' % ("a" * 128), 'B [255] /a+/', 'C [127] /a+b/'],
    "long7": ['A "%s"' % ("a" * 150), 'B [300] /a+/'],
    "long8": ['A "%s"' % ("a" * 128), 'B [0] /a+/'],
    "long9": ['A /%s/' % ("b" * 256), 'B [0] /b+/', 'C [255] /b+c/'],
    "prec256": ['A [256] /a+/', 'B [255] /[ab]+/', 'C [1] /[abc]+/', 'D [0] /c+/'],
    "prec65535": ['A [65535] /a+/', 'B [65534] /[ab]+/', 'C [32768] /[abc]+/', 'D [32767] /c+/'],
    "prectie256": ['A [257] /a+/', 'B [1] /[ab]+/'],
    "big": ['A /[a-zA-Z_][a-zA-Z0-9_]*/', 'B /[0-9]+(\\.[0-9]+)?([eE][+-]?[0-9]+)?/', 'C /"[^"]*"/', 'D "<="', 'E "<"', 'F "<<="', 'W /[ \\t\\r\\n]+/', 'IF "if"', 'IN "in"', 'INT "int"'],
}


def lexer_file(rules):
    out = []
    for r in rules:
        lhs, rest = r.split(" ", 1)
        if rest.startswith("["):
            p, rest = rest.split(" ", 1)
            lhs += " " + p
        out.append("token %s = %s;" % (lhs, rest))
    return "\n".join(out) + "\nentry s;\nprod s = %s;\n" % rules[0].split(" ")[0]


def classics():
    return [("lexer:" + k, lexer_file(v)) for k, v in LEXERS.items()]


def rand_lexer(rng, ties=0.5):
    n = rng.randint(1, 6)
    names = rng.sample(["A", "B", "C", "D", "E", "F", "G"], n)
    chars = rng.choice([list("ab"), list("abc"), list("abc01"), list("abcé漢"), gen.CHARS])
    rules = []
    style = rng.random()
    for i, nm in enumerate(names):
        if style < 0.25:
            prec = None
        elif style < 0.6:
            prec = rng.choice([None, None, 1, 2, 3, 4, 10])
        else:
            prec = rng.choice([1, 2, 3]) if rng.random() < ties else 10 + i
        if rng.random() < 0.4:
            rules.append((nm, "lit", "".join(rng.choice([c for c in chars if c != '"']) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))), prec))
        else:
            rules.append((nm, "re", gen.rand_regex(rng, rng.choice([0, 1, 1, 2]), chars, counted=rng.random() < 0.5, dot=0.04), prec))
    rng.shuffle(rules)
    return gen.Grammar(rules, [("s", None, ("sym", names[0]))], "s")


def lexer_texts(ctx, n, ties=0.5):
    return classics() + example_files() + [("lex:%d" % i, rand_lexer(ctx.rng, ties).text()) for i in range(n)]


def record(ctx, texts):
    jobs = [dict(id=cid, path=ctx.write("l%d.lapex" % i, t), want=["lex"]) for i, (cid, t) in enumerate(texts)]
    res = ctx.harness("dump", jobs)
    return [(cid, t, part(res[cid], "lex")) for cid, t in texts if cid in res]


LEXW = lambda c: 30 + len(c["lex"].get("states", [])) * len(c["lex"].get("ranges", []))


def static(ctx, recs, mode):
    cases = []
    for cid, t, r in recs:
        if r["status"] == "ok" and len(r["states"]) > (120 if len(r["ranges"]) > 7 else 320) * ctx.n(1, 3):
            ctx.count("skipped: large automaton")
            continue
        cases.append(dict(id=cid, text=cps(t), lex=r))
        ctx.nt(mode, t)
        if len(t) < 200:
            ctx.sample(dict(id=cid, rules=t))
    ctx.judge("LexCheck", cases, {"MODE": mode}, weight=LEXW, kind=mode + ": ")


def c03(ctx):
    static(ctx, record(ctx, lexer_texts(ctx, ctx.n(400, 6000))), "tie")
    return ctx.finish("model_checking", "sets of token rules (hand-written, examples, random with and without precedences); all reachable states of "
                      "the specification's lexer are searched for ties and compared with the generator's decision and report")


# ---- generated lexers -----------------------------------------------------------------------------------
def scalar(c):
    return 1 <= c <= 0x10FFFF and not 0xD800 <= c <= 0xDFFF


def characterise(lex, chars):
    """texts that tell the states of the automaton apart, and a shortest text leading to each state"""
    delta = {s["id"]: {c: t for lo, hi, t in s["tr"] for c in chars if lo <= c <= hi} for s in lex["states"]}
    acc = {s["id"]: s["acc"] for s in lex["states"]}
    reach, todo = {0: ()}, [0]
    for q in todo:
        for c, t in sorted(delta[q].items()):
            if t not in reach and t in delta:
                reach[t] = reach[q] + (c,)
                todo.append(t)
    tails = {()}

    def sig(q, ts):
        out = []
        for w in ts:
            p = q
            for c in w:
                p = delta.get(p, {}).get(c)
            out.append(acc.get(p, None) if p is not None else None)
        return tuple(out)

    for _ in range(12):
        groups = {}
        ts = sorted(tails)
        for q in reach:
            groups.setdefault(sig(q, ts), []).append(q)
        new = set()
        for qs in groups.values():
            if len(qs) < 2 or len(tails) + len(new) > 12:
                continue
            for c in chars:
                for w in ts:
                    if len({sig(q, [(c,) + w]) for q in qs}) > 1:
                        new.add((c,) + w)
                        break
                else:
                    continue
                break
        if not new:
            break
        tails |= new
    return delta, acc, reach, sorted(tails)


def texts_of(rng, text, lex, most, longest=16):
    """input texts for a lexer: all short ones, every transition followed by telling texts, walks, and arbitrary ones"""
    pool = set()
    for lo, hi in lex["ranges"]:
        pool |= {lo, hi, (lo + hi) // 2, lo + 1}
    near = {ord(c) for c in text} | {ord(c) + 1 for c in text} | {ord(c) - 1 for c in text}
    pool = sorted(c for c in pool if scalar(c))
    near = sorted(c for c in near if scalar(c))
    firsts = sorted({lo if scalar(lo) else hi for lo, hi in lex["ranges"] if scalar(lo) or scalar(hi)})
    delta, acc, reach, tails = characterise(lex, firsts)
    ws = {()}
    cover = set()
    for q in sorted(reach):
        for c in firsts:
            cover |= {reach[q] + (c,) + t for t in tails}
        cover.add(reach[q])
        for lo, hi in [r for r in lex["ranges"]]:
            c = rng.choice([lo, hi])
            if scalar(c):
                cover.add(reach[q] + (c,) + rng.choice(tails))
    cover = sorted(cover)
    ws |= set(cover if len(cover) <= most // 2 else rng.sample(cover, most // 2))

    def walk(n):
        w, q = [], 0
        ranges = {s["id"]: s["tr"] for s in lex["states"]}
        while len(w) < n:
            tr = ranges.get(q, [])
            if not tr or (acc.get(q) and rng.random() < 0.2):
                if q == 0 or not acc.get(q):
                    break
                q = 0
                continue
            lo, hi, t = rng.choice(tr)
            c = rng.choice([lo, hi, rng.randint(lo, hi)])
            if not scalar(c):
                break
            w.append(c)
            q = t
        return w

    chars = near + pool
    while len(ws) < most and chars:
        k = rng.random()
        w = walk(rng.randint(1, longest))
        if k < 0.3:
            for _ in range(rng.choice([1, 1, 2])):
                i = rng.randrange(len(w) + 1)
                if rng.random() < 0.5:
                    w.insert(i, rng.choice(chars))
                elif w:
                    w[min(i, len(w) - 1)] = rng.choice(chars)
        elif k < 0.4:
            w = [rng.choice(chars) for _ in range(rng.randint(1, 6))]
        elif k < 0.5:
            w = w[:rng.randrange(len(w) + 1)]
        elif k < 0.53:
            w = w * 3
        t = tuple(w)
        if t in ws:
            most -= 1
        ws.add(t)
    return [list(w) for w in sorted(ws)]


RAW = 2097152
NOT_UTF8 = [[0xC0, 0x80], [0xC1, 0xBF], [0xE0, 0x80, 0x80], [0xE0, 0x9F, 0xBF], [0xF0, 0x80, 0x80, 0x80], [0xF0, 0x8F, 0xBF, 0xBF], [0xED, 0xA0, 0x80], [0xED, 0xBF, 0xBF],
            [0xF4, 0x90, 0x80, 0x80], [0xF5, 0x80, 0x80, 0x80], [0xF7, 0xBF, 0xBF, 0xBF], [0xF8, 0x88, 0x80, 0x80, 0x80], [0xFC], [0xFE], [0xFF], [0x80], [0xBF], [0xC3], [0xE2, 0x82], [0xE2], [0xF0, 0x9F, 0x98],
            [0xC3, 0x28], [0xC3, 0xC3], [0xE2, 0x82, 0x28], [0xE2, 0x28, 0xA1], [0xF0, 0x9F, 0x98, 0x41], [0xF0, 0x9F, 0x41, 0x80], [0xF0, 0x41, 0x80, 0x80], [0xE2, 0xC2, 0xA2], [0xC3, 0xFF]]


def overlong(c):
    """the character c in more bytes than it needs"""
    out = []
    if c < 0x80:
        out.append([0xC0 | c >> 6, 0x80 | c & 63])
    if c < 0x800:
        out.append([0xE0, 0x80 | c >> 6, 0x80 | c & 63])
    if c < 0x10000:
        out.append([0xF0, 0x80 | c >> 12, 0x80 | c >> 6 & 63, 0x80 | c & 63])
    return out


def malformed(rng, words, n):
    """texts that stop being UTF-8 somewhere"""
    out = []
    for _ in range(n if words else 0):
        w = rng.choice(words)
        i = rng.randrange(len(w) + 1)
        bad = rng.choice(NOT_UTF8)
        if i < len(w) and w[i] < 0x10000 and rng.random() < 0.6:
            bad = rng.choice(overlong(w[i]))
        tail = rng.choice([[], w[i:], w[i + 1:], w])
        out.append(w[:i] + [RAW + b for b in bad] + tail)
    return out


HUGE = [("huge", 'token ID = /[a-zé😀]+/;\ntoken NUM = /[0-9]+/;\ntoken SP = / +/;\ntoken Q = /"[^"]*"/;\nentry s;\nprod s = ID NUM SP Q;\n')]


def large(rng):
    """more states, or more ranges of characters, than a byte can number"""
    words = ["".join(rng.choice("abcdefghijklmnopqrstuvwxyz") for _ in range(rng.randint(3, 11))) for _ in range(60)]
    words = sorted(set(words))
    many = ['K%d "%s"' % (i, w) for i, w in enumerate(words)] + ['NUM /[0-9]+/', 'SP /[ \\n]+/']
    odd = "".join(chr(c) for c in range(0x100, 0x358, 2))
    return [("large:states", lexer_file(many)), ("large:ranges", lexer_file(['ODD /[%s]+/' % odd, 'X "x"', 'LAST /\\u{10FFFF}x?/', 'EVEN [5] /[Ā-͗]{2}/']))]


def huge_words(rng):
    """positions beyond 65535"""
    one = [rng.choice([97, 233, 128512]) for _ in range(33000)] + [32] + [49] * 35000 + [32, 97, 98, 32, 49, 33]
    many = []
    while len(many) < 66500:
        many += [rng.choice([97, 233, 128512])] * rng.randint(1, 300) + [32] + [rng.randint(48, 57)] * rng.randint(1, 300) + [32]
    return [one, many]


def generated(ctx, lang, n, per):
    """generates, compiles and runs lexers for n rule sets (beyond the fixed ones)"""
    recs = [x for x in record(ctx, lexer_texts(ctx, n, ties=0.15)) if x[2]["status"] == "ok" and not x[2]["tie"] and x[2]["states"]]
    jobs = []
    recs += [x for x in record(ctx, large(ctx.rng)) if x[2]["status"] == "ok" and x[2]["states"]]
    for k, (cid, text, lex) in enumerate(recs):
        if (len(lex["states"]) > 150 or len(text) > 6000) and not cid.startswith("large"):
            continue
        jobs.append(dict(id="%s:%s" % (cid, lang), text=text, path=ctx.write("%s/x%d.lapex" % (lang, k), text), lang=lang, algo="lalr" if cid.startswith("example") else "lr1", lex=lex,
                         words=texts_of(ctx.rng, text, lex, per * 2 if cid.startswith("large") else per)))
        if lang == "cpp":
            jobs[-1]["words"] += malformed(ctx.rng, jobs[-1]["words"], ctx.n(12, 50))
    ast = ctx.harness("dump", [dict(id=j["id"], path=j["path"], want=["ast"]) for j in jobs])
    keep = []
    for j in jobs:
        a = part(ast.get(j["id"], {}), "ast")
        if a["status"] != "ok":
            continue
        j["names"] = [t["name"] for t in a["tokens"]]
        if len({runtime.rust_token(x) for x in j["names"]}) == len(j["names"]):
            keep.append(j)
    runtime.build_lexers(ctx, keep)
    runtime.run_lexers(ctx, keep)
    cases = []
    for j in keep:
        if j["state"] == "refused":
            ctx.count("refused by the generator")
            continue
        if j["state"] != "ok":
            ctx.log(j["id"], j["state"], j["msg"])
        ctx.count("texts run", len(j.get("runs", [])))
        cases.append(dict(id=j["id"], text=cps(j["text"]), unit="bytes" if lang == "rust" else "chars", state=j["state"], runs=j.get("runs", [])))
        ctx.nt(lang, j["text"])
        if len(j["text"]) < 160 and j.get("runs"):
            ctx.sample(dict(id=j["id"], rules=j["text"], texts=len(j["runs"]), example=j["runs"][-1]))
    huge = [dict(id="huge:" + lang, text=t, path=ctx.write(lang + "/huge.lapex", t), lang=lang, algo="lr1", words=huge_words(ctx.rng), names=["ID", "NUM", "SP", "Q"]) for _, t in HUGE]
    runtime.run_lexers(ctx, runtime.build_lexers(ctx, huge))
    for j in huge:
        for i, r in enumerate(j.get("runs", [])):
            cases.append(dict(id="%s:%d" % (j["id"], i), text=cps(j["text"]), unit="bytes" if lang == "rust" else "chars", state=j["state"], runs=[r]))
        if j["state"] != "ok":
            cases.append(dict(id=j["id"], text=cps(j["text"]), unit="bytes", state=j["state"], runs=[]))
    ctx.judge("LexTrace", cases, weight=lambda c: 30 + len(c["text"]) // 4 + sum(len(r["w"]) + len(r["ev"]) for r in c["runs"]), kind="lexer: ")


def lexer_check(ctx, lang, n_auto, n_gen, per):
    static(ctx, record(ctx, lexer_texts(ctx, n_auto, ties=0.15)), "automaton")
    generated(ctx, lang, n_gen, per)
    return ctx.finish("model_checking", "sets of token rules (hand-written, examples, random): the generated automaton against the specified lexer by a product "
                      "walk over all states and character blocks; generated and compiled %s lexers run on texts covering every transition of their automaton "
                      "(with texts telling its states apart), walks and damaged walks, every result of next() judged by the specified lexer" % lang)


def c01(ctx):
    return lexer_check(ctx, "rust", ctx.n(260, 3000), ctx.n(50, 700), ctx.n(110, 500))


def c02(ctx):
    return lexer_check(ctx, "cpp", ctx.n(160, 3000), ctx.n(40, 600), ctx.n(110, 500))
