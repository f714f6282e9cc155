"""Generators: token rules, productions, their rendering as grammar files, mutations, and words."""
import random

# ---- productions ------------------------------------------------------------------------------
# pattern: ("sym", name) | ("eps",) | ("opt"|"star"|"plus", p) | ("seq"|"alt", [p...])


def rand_pattern(rng, syms, depth, ops=True, eps=0.1):
    """a pattern in the shapes a grammar file can express"""
    r = rng.random()
    if r < eps:
        return ("eps",)
    return rand_alt(rng, syms, depth, ops, eps)


def rand_alt(rng, syms, depth, ops, eps):
    n = 1 if depth <= 0 or rng.random() < 0.72 else rng.choice([2, 2, 3])
    es = [rand_cat(rng, syms, depth, ops, eps) for _ in range(n)]
    return es[0] if n == 1 else ("alt", es)


def rand_cat(rng, syms, depth, ops, eps):
    n = rng.choice([1, 1, 2, 2, 2, 3, 3, 4])
    es = [rand_unary(rng, syms, depth, ops, eps) for _ in range(n)]
    return es[0] if n == 1 else ("seq", es)


def rand_unary(rng, syms, depth, ops, eps):
    if ops and depth > 0 and rng.random() < 0.3:
        return (rng.choice(["opt", "star", "plus"]), rand_item(rng, syms, depth - 1, ops, eps))
    return rand_item(rng, syms, depth if ops else 0, ops, eps)


def rand_item(rng, syms, depth, ops, eps):
    if depth <= 0 or rng.random() < 0.7:
        return ("sym", rng.choice(syms))
    return rand_pattern(rng, syms, depth - 1, ops, eps)


def show_pattern(p, top=True, ws=None):
    """text of a pattern, with the parentheses it needs"""
    w = ws or (lambda must: " " if must else "")
    k = p[0]
    if k == "sym":
        return p[1]
    if k == "eps":
        return "!" if top else "(" + w(0) + "!" + w(0) + ")"
    if k in ("opt", "star", "plus"):
        q = p[1]
        inner = q[1] if q[0] == "sym" else "(" + w(0) + show_pattern(q, True, ws) + w(0) + ")"
        return inner + w(0) + {"opt": "?", "star": "*", "plus": "+"}[k]
    if k == "seq":
        parts = []
        for q in p[1]:
            if q[0] in ("seq", "alt", "eps"):
                parts.append("(" + w(0) + show_pattern(q, True, ws) + w(0) + ")")
            else:
                parts.append(show_pattern(q, False, ws))
        s = parts[0]
        for a, b in zip(parts, parts[1:]):
            need = (a[-1].isalnum() or a[-1] == "_") and (b[0].isalnum() or b[0] == "_")
            s += (w(1) if need or ws is None else w(0)) + b
        return s
    if k == "alt":
        parts = []
        for q in p[1]:
            if q[0] in ("alt", "eps"):
                parts.append("(" + w(0) + show_pattern(q, True, ws) + w(0) + ")")
            else:
                parts.append(show_pattern(q, False, ws))
        return (w(1) + "|" + w(1)).join(parts) if ws else " | ".join(parts)
    raise ValueError(p)


class Grammar:
    """tokens: (name, kind "lit"|"re", text, prec|None); prods: (name, tag|None, pattern)"""

    def __init__(self, tokens, prods, entry):
        self.tokens, self.prods, self.entry = tokens, prods, entry

    def text(self):
        out = []
        for name, kind, text, prec in self.tokens:
            q = '"' if kind == "lit" else "/"
            out.append("token %s%s = %s%s%s;" % (name, "" if prec is None else " [%d]" % prec, q, text, q))
        out.append("entry %s;" % self.entry)
        for name, tag, p in self.prods:
            out.append("prod %s%s = %s;" % (name, "" if tag is None else " [%s]" % tag, show_pattern(p)))
        return "\n".join(out) + "\n"

    def wild(self, rng):
        """the same rules in some layout and order"""
        def ws(must):
            r = rng.random()
            if must and r < 0.75 or not must and r < 0.08:
                return " "
            if not must and r < 0.88:
                return ""
            return "".join(rng.choice([" ", " ", "\t", "\n"]) for _ in range(rng.randint(1, 3)))
        rules = []
        for name, kind, text, prec in self.tokens:
            q = '"' if kind == "lit" else "/"
            pr = "" if prec is None else ws(0) + "[" + ws(0) + str(prec) + ws(0) + "]"
            rules.append("token" + ws(1) + name + pr + ws(0) + "=" + ws(0) + q + text + q + ws(0) + ";")
        rules.append("entry" + ws(1) + self.entry + ws(0) + ";")
        for name, tag, p in self.prods:
            tg = "" if tag is None else ws(0) + "[" + ws(0) + tag + ws(0) + "]"
            rules.append("prod" + ws(1) + name + tg + ws(0) + "=" + ws(0) + show_pattern(p, True, ws) + ws(0) + ";")
        if rng.random() < 0.7:
            rng.shuffle(rules)
        out = ws(0)
        for r in rules:
            out += r + ("\n" if rng.random() < 0.6 else ws(0))
        return out


NT_NAMES = ["s", "expr", "t2", "list_item", "Q", "v_", "rEst", "w__x"]
T_NAMES = ["A", "B", "COMMA", "id", "N1", "LP_", "x_Y", "D__E"]


def letters(n, names=("a", "b", "c", "d", "e", "f", "g", "h")):
    return [(x.upper(), "lit", x, None) for x in names[:n]]


def rand_grammar(rng, max_nts=4, max_terms=4, depth=2, ops=True, eps=0.12, tags=0.2, rules=3, names=False, extra_rule=0.6):
    nn, nt = rng.randint(1, max_nts), rng.randint(1, max_terms)
    nts = (rng.sample(NT_NAMES, nn) if names else ["s", "p", "q", "r", "u", "v"][:nn])
    tnames = (rng.sample(T_NAMES, nt) if names else ["A", "B", "C", "D", "E", "F"][:nt])
    tokens = [(n, "lit", chr(97 + i), None) for i, n in enumerate(tnames)]
    prods = []
    for n in nts:
        k = 1
        while k < rules and rng.random() < extra_rule:
            k += 1
        for j in range(k):
            # later rules and later non-terminals lean towards terminals, so that most grammars are productive
            syms = tnames * 2 + nts if j == 0 else tnames + nts
            if rng.random() < eps:
                p = ("eps",)
            else:
                p = rand_alt(rng, syms, depth if ops else 0, ops, eps)
            tag = "t%d" % j if rng.random() < tags else None
            prods.append((n, tag, p))
    return Grammar(tokens, prods, nts[0])


def renamed(g, names, rng, tags=()):
    """g with other names"""
    def go(p):
        if p[0] == "sym":
            return ("sym", names.get(p[1], p[1]))
        if p[0] == "eps":
            return p
        return (p[0], go(p[1])) if p[0] in ("opt", "star", "plus") else (p[0], [go(q) for q in p[1]])
    return Grammar([(names.get(n, n), k, t, q) for n, k, t, q in g.tokens],
                   [(names.get(n, n), rng.choice(tags) if t and tags else t, go(p)) for n, t, p in g.prods], names.get(g.entry, g.entry))


def words(alphabet, maxlen):
    """all words over alphabet up to a length"""
    out = [[]]
    layer = [[]]
    for _ in range(maxlen):
        layer = [w + [a] for w in layer for a in alphabet]
        out += layer
    return out


# ---- regexes ------------------------------------------------------------------------------------

CHARS = list("abcxyz019 _-\"") + ["é", "ß", "漢", "𝄞", "€"]
ASCII = list("abcxyz019 _-\"")


def esc_char(rng, c, in_class=False, ascii_only=False):
    if c in "\\/[](){}*+?.^$|" or (in_class and c in "-&~]^[\\"):
        return "\\" + c
    if rng.random() < 0.05 and not ascii_only:
        return "\\u{%x}" % ord(c)
    if c == "\n":
        return "\\n"
    return c


def rand_class(rng, chars, neg=0.25, ascii_only=False):
    s = "["
    if rng.random() < neg:
        s += "^"
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.5:
            a, b = sorted(rng.sample([c for c in chars if c not in " _-\""], 2))
            s += esc_char(rng, a, True, ascii_only) + "-" + esc_char(rng, b, True, ascii_only)
        else:
            s += esc_char(rng, rng.choice(chars), True, ascii_only)
    return s + "]"


def rand_regex(rng, depth=2, chars=None, counted=True, dot=0.06):
    chars = chars or CHARS

    def atom(d):
        r = rng.random()
        if r < dot:
            return "."
        if r < 0.3:
            return rand_class(rng, chars)
        if r < 0.5 and d > 0:
            return ("(" if rng.random() < 0.8 else "(?:") + alt(d - 1) + ")"
        if r < 0.55:
            return rng.choice(["\\n", "\\t", "\\r", "\\\\", "\\/", "\\.", "\\x41", "\\u0042", "\\u{1F600}", "\\-"])
        return esc_char(rng, rng.choice(chars))

    def unary(d):
        a = atom(d)
        r = rng.random()
        if r < 0.25:
            a += rng.choice("*+?")
        elif r < 0.35 and counted:
            m = rng.randint(0, 3)
            a += rng.choice(["{%d}" % max(1, m), "{%d,}" % m, "{%d,%d}" % (m, m + rng.randint(0 if m else 1, 2))])
        return a

    def cat(d):
        return "".join(unary(d) for _ in range(rng.choice([1, 1, 2, 2, 3])))

    def alt(d):
        return "|".join(cat(d) for _ in range(rng.choice([1, 1, 1, 2, 3])))
    return alt(depth)


def boot_regex(rng, depth=2):
    """a regex of the bootstrap subset"""
    plain = list("abcxyz019 _-\"=;:,<>@'`~%")

    def ch(c):
        return c

    def cls():
        s = "[" + ("^" if rng.random() < 0.25 else "")
        for _ in range(rng.randint(1, 3)):
            r = rng.random()
            if r < 0.5:
                a, b = sorted(rng.sample("abcxyz019", 2))
                s += a + "-" + b
            elif r < 0.6:
                s += rng.choice(["\\n", "\\t", "\\r", "\\\\", "\\/", "\\u{00e9}", "\\u{1F600}"])
            else:
                s += rng.choice("abcxyz019 _\"=;:,<>@")
        return s + "]"

    def atom(d):
        r = rng.random()
        if r < 0.06:
            return "."
        if r < 0.3:
            return cls()
        if r < 0.45 and d > 0:
            return "(" + "|".join(cat(d - 1) for _ in range(rng.choice([1, 2, 3]))) + ")"
        if r < 0.55:
            return rng.choice(["\\n", "\\t", "\\r", "\\\\", "\\/", "\\u{00e9}", "\\u{1F600}", "\\u{0041}"])
        return rng.choice(plain)

    def cat(d):
        s = ""
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            s += atom(d) + (rng.choice("*+?") if rng.random() < 0.3 else "")
        return s
    return cat(depth)


def rand_literal(rng, chars=None):
    chars = chars or list("abcxyz01+-*/=;()[]{}|!?.,:^$#&~@<> '%`") + ["é", "漢", "𝄞", "\\\\", "\\n", "\\\"", "\\x"]
    return "".join(rng.choice(chars) for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 5])))


def rand_file(rng):
    """a grammar file exercising every construct of the format (its grammar need not be useful)"""
    nt, nn = rng.randint(1, 4), rng.randint(1, 4)
    names = rng.sample(T_NAMES + NT_NAMES + ["token1", "entryX", "prod_", "a", "b2", "zZ"], nt + nn)
    tn, pn = names[:nt], names[nt:]
    tokens = []
    for n in tn:
        prec = None if rng.random() < 0.6 else rng.choice([0, 1, 7, 10, 25, 300, 65535])
        if rng.random() < 0.5:
            tokens.append((n, "lit", rand_literal(rng), prec))
        else:
            tokens.append((n, "re", rand_regex(rng), prec))
    prods = []
    for n in pn:
        for j in range(rng.choice([1, 1, 2, 3])):
            prods.append((n, rng.choice([None, None, "tag", "t_%d" % j, "X"]), rand_pattern(rng, names, rng.choice([0, 1, 2, 3]))))
    return Grammar(tokens, prods, rng.choice(pn))


def boot_file(rng):
    nt, nn = rng.randint(1, 4), rng.randint(1, 3)
    names = rng.sample(["A", "B", "COMMA", "id", "LP", "s", "expr", "rest", "Q", "x_y", "list_item"], nt + nn)
    tn, pn = names[:nt], names[nt:]
    tokens = [(n, "lit", rand_literal(rng, list("abcxyz01+-*/=;()[]{}|!?.,:^$#&~@<> '%`")), None) if rng.random() < 0.4
              else (n, "re", boot_regex(rng), None) for n in tn]
    prods = []
    for n in pn:
        for j in range(rng.choice([1, 1, 2])):
            prods.append((n, None, boot_pattern(rng, names, rng.choice([0, 1, 2]))))
    return Grammar(tokens, prods, rng.choice(pn))


def boot_pattern(rng, names, depth):
    """patterns the bootstrap parser reads: alternatives only inside of groups"""
    def item(d):
        if d > 0 and rng.random() < 0.35:
            n = rng.choice([1, 2, 3])
            es = [cat(d - 1) for _ in range(n)]
            return ("group", es)
        return ("sym", rng.choice(names))

    def cat(d):
        es = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            i = item(d)
            es.append((rng.choice(["opt", "star", "plus"]), i) if rng.random() < 0.3 else i)
        return ("cat", es)
    return ("raw", show_boot(cat(depth)))


def show_boot(p):
    k = p[0]
    if k == "sym":
        return p[1]
    if k == "group":
        return "(" + " | ".join(show_boot(q) for q in p[1]) + ")"
    if k == "cat":
        return " ".join(show_boot(q) for q in p[1])
    return show_boot(p[1]) + {"opt": "?", "star": "*", "plus": "+"}[k]


_show = show_pattern


def show_pattern(p, top=True, ws=None):
    return p[1] if p[0] == "raw" else _show(p, top, ws)


def mutate(rng, text):
    """a small edit of a file text"""
    t = list(text)
    junk = list(";=|()[]!?*+\"/\\ \n\taA09_#{}.^$") + ["token ", "prod ", "entry ", "é", "\r", "65536", "00", "\\\n"]
    for _ in range(rng.choice([1, 1, 1, 2])):
        r = rng.random()
        i = rng.randrange(len(t) + 1)
        if r < 0.35 and t:
            j = min(len(t), i + rng.choice([1, 1, 1, 2, 5]))
            del t[i:j]
        elif r < 0.7:
            t[i:i] = list(rng.choice(junk))
        elif r < 0.85 and t:
            i = min(i, len(t) - 1)
            t[i] = rng.choice(junk)
        else:
            j = min(len(t), i + rng.randint(1, 12))
            k = rng.randrange(len(t) + 1)
            t[k:k] = t[i:j]
    return "".join(t).replace("\0", "")


def chain_grammar(rng, lo=4, hi=10, ll=True):
    """long chains of rules through which nullability, FIRST, FOLLOW and lookaheads have to travel, in an unhelpful order"""
    n = rng.randint(lo, hi)
    nts = ["p%d" % i for i in range(n)]
    rng.shuffle(nts)
    prods, terms = [], []

    def t():
        if not ll and len(terms) > 3 and rng.random() < 0.5:
            return ("sym", rng.choice(terms))
        if len(terms) >= 14:
            return ("sym", rng.choice(terms))
        terms.append("T%d" % len(terms))
        return ("sym", terms[-1])

    def seq(*xs):
        return xs[0] if len(xs) == 1 else ("seq", list(xs))
    nul = rng.random() < 0.7
    for i, a in enumerate(nts):
        nxt = ("sym", nts[i + 1]) if i + 1 < n else None
        if nxt is None:
            prods.append((a, None, t()))
            if nul:
                prods.append((a, None, ("eps",)))
            continue
        r = rng.random()
        if r < 0.4:
            p = seq(t(), nxt)
        elif r < 0.65:
            p = nxt
        elif r < 0.75:
            p = seq(nxt, t())
        elif r < 0.85:
            j = ("sym", nts[rng.randrange(i + 1, n)])
            p = seq(nxt, j)
        else:
            p = seq(t(), nxt, ("sym", nts[rng.randrange(i + 1, n)]))
        prods.append((a, None, p))
        if rng.random() < 0.3:
            prods.append((a, None, t() if rng.random() < 0.7 else seq(t(), ("sym", rng.choice(nts if not ll else nts[i:])))))
    prods.append(("s", None, seq(("sym", nts[0]), t()) if rng.random() < 0.7 else ("sym", nts[0])))
    r = rng.random()
    if r < 0.4:
        prods.reverse()
    elif r < 0.7:
        rng.shuffle(prods)
    tokens = [(x, "lit", "x%dy" % i, None) for i, x in enumerate(terms)]
    rng.shuffle(tokens)
    return Grammar(tokens, prods, "s")
