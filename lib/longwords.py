"""Long words and deep stacks, for C08-C11."""
import gen, grams, parsers, runtime
from files import part

WORD_S = 20
EXTRA = 'token zzz9 = "zzz9";\n'
T = 'token A = "a";\ntoken B = "b";\ntoken L = "(";\ntoken R = ")";\ntoken P = "+";\ntoken C = ",";\n'
LONG = {
    "right": T + "entry s;\nprod s = A s;\nprod s = A;\n",
    "left": T + "entry s;\nprod s = s A;\nprod s = A;\n",
    "nest": T + "entry s;\nprod s = L s R;\nprod s = A;\n",
    "pairs": T + "entry s;\nprod s = L s R s;\nprod s = !;\n",
    "plus": T + "entry s;\nprod s = (A B?)+;\n",
    "star": T + "entry s;\nprod s = A (C A)*;\n",
    "expr": T + "entry e;\nprod e = e P t;\nprod e = t;\nprod t = A;\nprod t = L e R;\n",
    "llexpr": T + "entry e;\nprod e = t (P t)*;\nprod t = A | L e R;\n",
    "middle": T + "entry s;\nprod s = A s B;\nprod s = !;\n",
    "tail": T + "entry s;\nprod s = (A | L s R) (P s)?;\n",
    "chain": T + "entry a;\nprod a = b;\nprod b = c;\nprod c = L a;\nprod c = A;\n",
}


def pumps(rng, bnf):
    """words pre v^n mid post^n suf for the ways a non-terminal contains itself: list of (pre, v, mid, x, suf)"""
    mins = parsers.min_lengths(bnf)
    short = lambda s: parsers.sentence(rng, dict(bnf, entry=s), mins, 0) if s >= 1000 else ([] if s == -1 else [s])
    flat = lambda ss: [t for s in ss for t in (short(s) or [])]
    edges = {}
    for r in bnf["rules"]:
        if any(s >= 1000 and mins[s] >= 10 ** 6 for s in r["rhs"]):
            continue
        for i, s in enumerate(r["rhs"]):
            if s >= 1000:
                edges.setdefault(r["lhs"], []).append((s, r["rhs"][:i], r["rhs"][i + 1:]))

    def paths(a):
        """shortest way from a to every non-terminal (at least one step)"""
        out, todo = {}, [(a, (), ())]
        while todo:
            nxt = []
            for n, l, r in todo:
                for s, x, y in edges.get(n, []):
                    if s not in out:
                        out[s] = (l + tuple(x), tuple(y) + r)
                        nxt.append((s,) + out[s])
            todo = nxt
        return out
    res = []
    start = paths(bnf["entry"])
    start.setdefault(bnf["entry"], ((), ()))
    for a in sorted(start):
        around = paths(a).get(a)
        if around is None:
            continue
        v, x = flat(around[0]), flat(around[1])
        if v or x:
            res.append((flat(start[a][0]), v, short(a) or [], x, flat(start[a][1])))
    return res


def segments(parts):
    return [[list(t), n] for t, n in parts if t and n > 0]


def long_words(rng, bnf, algo, big):
    extra = [i for i, n in bnf["terminals"] if n == "zzz9"][0]
    out = []
    ps = pumps(rng, bnf)
    for pre, v, mid, x, suf in rng.sample(ps, min(2, len(ps))):
        n = (2500 if algo == "glr" else big) // max(1, len(v) + len(x))
        out.append(segments([(pre, 1), (v, n), (mid, 1), (x, n), (suf, 1)]))
        out.append(segments([(pre, 1), (v, n), (mid, 1), (x, n - 1), (suf, 1)]))
        out.append(segments([(pre, 1), (v, n), (mid, 1), (x, n + 1), (suf, 1)]))
        n = 3 * big // max(1, len(v) or len(x))
        out.append(segments([(pre, 1), (v, n), ([extra], 1), (v, 3)] if v else [(pre, 1), (mid, 1), (x, n), ([extra], 1)]))
    return [s for k, s in enumerate(out) if s not in out[:k]]


def rust_main(j):
    s = runtime.rust_parser_main(j["bnf"], j["meths"], j["algo"])

    def sub(a, b):
        nonlocal s
        assert a in s, a
        s = s.replace(a, b)
    a = s.index("fn ev(s: String)")
    b = s.index("fn tok(i: usize)")
    s = s[:a] + r"""
thread_local! { static W: RefCell<Vec<usize>> = RefCell::new(vec![]); static REQ: Cell<usize> = Cell::new(0); static SHOWN: Cell<usize> = Cell::new(0); static ORDER: Cell<bool> = Cell::new(true); static CALLS: RefCell<Vec<usize>> = RefCell::new(vec![]); }
fn ev(s: String) {
  if s == "[0]" { REQ.with(|n| n.set(n.get()+1)); }
  else if s.starts_with("[1") { let k = SHOWN.with(|n| { n.set(n.get()+1); n.get() }); let t = W.with(|w| w.borrow().get(k-1).copied().unwrap_or(0)); if s != format!("[1,{},{}]", t, k) { ORDER.with(|o| o.set(false)); } }
  else { let m: usize = s[3..s.len()-1].parse().unwrap(); CALLS.with(|c| c.borrow_mut()[m] += 1); }
}
""" + s[b:]
    sub("stack_size(64 << 20)", "stack_size(8 << 20)")
    sub("EV.with(|e| e.borrow_mut().clear());", "W.with(|x| *x.borrow_mut() = w.clone()); REQ.with(|n| n.set(0)); SHOWN.with(|n| n.set(0)); ORDER.with(|n| n.set(true)); CALLS.with(|c| *c.borrow_mut() = vec![0; %d]);" % len(j["meths"]))
    sub("let evs = EV.with(|e| e.borrow().clone());", 'let evs = format!("{},{},{},{}", REQ.with(|n| n.get()), SHOWN.with(|n| n.get()), ORDER.with(|n| n.get()), CALLS.with(|c| format!("{:?}", c.borrow())));')
    return s.replace("last.1 > 4 * %d" % runtime.WORD_S, "last.1 > 4 * %d" % WORD_S)


def cpp_main(j):
    s = runtime.cpp_parser_main(j["bnf"], j["meths"], j["dir"])

    def sub(a, b):
        nonlocal s
        assert a in s, a
        s = s.replace(a, b)
    a = s.index("static void ev(const std::string &s)")
    b = s.index("static void say(")
    s = s[:a] + r"""
static std::vector<int> W; static size_t REQ, SHOWN; static bool ORDER; static std::vector<size_t> CALLS(%d);
static void ev(const std::string &s) {
  if (s == "[0]") REQ++;
  else if (s[1] == '1') { SHOWN++; if (s != "[1," + std::to_string(SHOWN <= W.size() ? W[SHOWN - 1] : 0) + "," + std::to_string(SHOWN) + "]") ORDER = false; }
  else CALLS[atoi(s.c_str() + 3)]++;
}
""" % max(1, len(j["meths"])) + s[b:]
    sub("alarm(%d);\n" % runtime.WORD_S, "alarm(%d); W = w; REQ = SHOWN = 0; ORDER = true; for (auto &c : CALLS) c = 0;\n" % WORD_S)
    sub("alarm(0);\n", 'alarm(0); EV = std::to_string(REQ) + "," + std::to_string(SHOWN) + "," + (ORDER ? "true" : "false") + ",["; for (size_t i = 0; i < %d; i++) EV += (i ? "," : "") + std::to_string(CALLS[i]); EV += "]";\n' % len(j["meths"]))
    return s


def long_cases(ctx, algos, lang, n, big):
    rng = ctx.rng
    texts = [("long:" + k, EXTRA + t) for k, t in LONG.items()]
    rest = [(a, EXTRA + t) for a, t in grams.classics() + grams.mixed(ctx, 8 * n, names=True)]
    rng.shuffle(rest)
    want = sorted({{"ll1": "ll", "lr0": "lr0", "lr1": "lr1", "lalr": "lalr", "glr": "lalr"}[a] for a in algos})
    jobs, more = [], 0
    for k, (cid, text, r) in enumerate(grams.record(ctx, texts + rest, want)):
        b = part(r, "bnf")
        if b["status"] != "ok" or not b["rules"] or len(b["rules"]) > 30 or not parsers.reduced(b) or not any(x == "zzz9" for _, x in b["terminals"]):
            continue
        if k >= len(texts) and (more >= n or not pumps(rng, b)):
            continue
        ok = []
        for a in algos:
            if a == "ll1":
                fine = r.get("ll", {}).get("status") == "ok" and not r["ll"].get("conflict")
            else:
                x = r.get("lalr" if a == "glr" else a, {})
                fine = x.get("status") == "ok" and x["plain"]["kind"] == "table"
            if fine:
                ok.append(a)
        if not ok:
            continue
        more += k >= len(texts)
        for a in ([rng.choice(ok)] if k >= len(texts) or not ctx.thorough else ok):
            seg = long_words(rng, b, a, big)
            if seg:
                jobs.append(dict(id="%s:%s:%s" % (cid, a, lang), text=text, path=ctx.write("long-%s-%s/g%d.lapex" % (lang, a, k), text), algo=a, lang=lang, bnf=b, seg=seg,
                                 words=[[t for s, m in ss for t in s * m] for ss in seg]))
    runtime.build_parsers(ctx, jobs, main=lambda j: rust_main(j) if j["lang"] == "rust" else cpp_main(j))
    runtime.run_parsers(ctx, jobs)
    out = []
    for j in jobs:
        c = parsers.visit_case(dict(j, runs=[]))
        rs = []
        for ss, w, r in zip(j["seg"], j["words"], j.get("runs", [])):
            ev = r["ev"] or [0, 0, True, [0] * len(c["meths"])]
            rs.append(dict(seg=ss, bound=10 * len(w) + 300, req=ev[0], shown=ev[1], inorder=ev[2], calls=ev[3], out=r["out"]))
            ctx.count("long words run")
        ctx.nt("long", j["text"], j["algo"])
        out.append(dict(id=c["id"], state=c["state"], bnf=c["bnf"], cls=c["cls"], meths=c["meths"], runs=rs))
    return out


def check(ctx, algos, lang):
    cases = long_cases(ctx, algos, lang, ctx.n(6, 60), ctx.n(12000, 30000))
    ctx.judge("LongCheck", cases, kind="long words: ", weight=lambda c: sum(len(s[0]) * s[1] for r in c["runs"] for s in r["seg"]))
