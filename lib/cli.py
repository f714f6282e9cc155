"""Checks about the command line tool and about generation as a whole: C18 (determinism), C19 (exit status and files)."""
import hashlib, json, os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import gen, grams, lexers
from common import CORES, cps
from files import CURATED, NAMES, example_files, part

ALGOS = ["ll1", "lr0", "lr1", "lalr", "glr"]
FILES = {"rust": ["tokens.rs", "lexer.rs", "parser.rs"], "cpp": ["tokens.h", "tokens.cpp", "lexer.h", "lexer.cpp", "parser.h", "parser.cpp", "parser_impl.h", "visitor.h"]}


def run_cli(exe, args, cwd, env=None, timeout=30):
    e = {k: v for k, v in os.environ.items() if not k.startswith("RUST")}
    e.update(RUST_BACKTRACE="0")
    e.update(env or {})
    try:
        r = subprocess.run(["prlimit", "--as=%d" % (4 << 30), "--core=0", exe] + args, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return r.returncode, r.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return 255, ""


def digest(p):
    if os.path.islink(p):
        return "<link>"
    if os.path.isdir(p):
        return "<dir>"
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()[:20]


def snapshot(d):
    return sorted([n, digest(os.path.join(d, n))] for n in os.listdir(d)) if os.path.isdir(d) else []


# ---- C19 ------------------------------------------------------------------------------------------------
def small_texts(ctx, n):
    """grammar files of every kind, small enough to be judged completely"""
    rng = ctx.rng
    pool = grams.classics() + [("curated:" + k, t) for k, t in CURATED + NAMES] + lexers.classics()
    pool += grams.mixed(ctx, n, names=True) + list(grams.all_small(rng, n // 4)) + grams.chains(ctx, n // 4, hi=6)
    for i in range(n // 3):
        pool.append(("lex:%d" % i, lexers.rand_lexer(rng, 0.5).text()))
    for i in range(n // 4):
        pool.append(("ll:%d" % i, gen.rand_grammar(rng, max_nts=3, max_terms=4, depth=1, ops=rng.random() < 0.5).text()))
    for i in range(n // 5):
        pool.append(("mutant:%d" % i, gen.mutate(rng, rng.choice([t for _, t in pool if len(t) < 300]))))
    jobs = [dict(id=cid, path=ctx.write("s%d.lapex" % i, t), want=["lr1", "lex", "ll", "lalr"]) for i, (cid, t) in enumerate(pool)]
    res = ctx.harness("dump", jobs)
    out = []
    for j, (cid, t) in zip(jobs, pool):
        r = res.get(cid, {})
        b, x, l = part(r, "bnf"), r.get("lr1", {}), part(r, "lex")
        if b["status"] == "ok" and (x.get("status") != "ok" or len(x["allowed"].get("table", {}).get("rows", [])) > 40 or len(b["rules"]) > 30):
            continue
        if l["status"] == "ok" and len(l["states"]) > 40:
            continue
        good = [a for a, k in (("ll1", "ll"), ("lr1", "lr1"), ("lalr", "lalr"))
                if (k == "ll" and r.get("ll", {}).get("status") == "ok" and not r["ll"].get("conflict")) or (k != "ll" and r.get(k, {}).get("status") == "ok" and r[k]["plain"]["kind"] == "table")]
        out.append(dict(id=cid, text=t, bnf=b, good=good + (["glr"] if b["status"] == "ok" else [])))
    return out


def history(ctx, exe, k, texts, nsteps, seed):
    """a sequence of invocations on one target directory"""
    import random
    rng = random.Random(seed)
    d = os.path.join(ctx.work, "cli%d" % k)
    target = os.path.join(d, "generated")
    os.makedirs(target)
    for i, t in enumerate(texts):
        with open("%s/g%d.lapex" % (d, i + 1), "w", encoding="utf-8", newline="") as f:
            f.write(t["text"])
    os.makedirs(d + "/folder")
    with open(d + "/bad.lapex", "wb") as f:
        f.write(texts[0]["text"].encode("utf-8") + b"\n\xff\xfe\n")
    allfiles = FILES["rust"] + FILES["cpp"] + ["table"]
    for n in allfiles:
        if rng.random() < 0.25:
            with open(os.path.join(target, n), "w") as f:
                f.write("// junk\n" * rng.choice([1, 20, 40000]))
    with open(os.path.join(target, "notes.txt"), "w") as f:
        f.write("mine")
    steps = []
    for _ in range(nsteps):
        g = rng.randrange(len(texts))
        algo = rng.choice(ALGOS) if rng.random() < 0.5 or not texts[g]["good"] else rng.choice(texts[g]["good"])
        lang = rng.choice(["rust", "cpp"])
        if rng.random() < 0.7:
            lang = "cpp" if algo == "ll1" else "rust" if algo == "glr" else lang
        lexer, table = rng.random() < 0.6, rng.random() < 0.4
        fault = rng.choice([""] * 12 + ["usage", "missing-grammar", "dir-grammar", "not-utf8", "missing-target", "file-target", "blocked", "blocked", "full", "full"])
        name = ""
        path = rng.choice(["g%d.lapex", "./g%d.lapex", d + "/g%d.lapex"]) % (g + 1)
        tgt = rng.choice(["generated", "generated/", "./generated", target])
        if fault == "missing-grammar":
            path = "nothing.lapex"
        elif fault == "dir-grammar":
            path = "folder"
        elif fault == "not-utf8":
            path = "bad.lapex"
        elif fault == "missing-target":
            tgt = "no/where"
        elif fault == "file-target":
            tgt = "g1.lapex/"
        args = ["generate"]
        if not lexer:
            args.append("--no-lexer")
        if table:
            args.append("--table")
        if not (algo == "ll1" and rng.random() < 0.5):
            args += rng.choice([["-a", algo], ["--algorithm", algo], ["--algorithm=" + algo]])
        if not (tgt in ("generated/", "./generated") and fault == "" and rng.random() < 0.5):
            args += ["--target", tgt]
        largs = rng.choice([["-l", lang], ["--language", lang], ["-l" + lang]])
        if fault == "usage":
            kind = rng.choice(["lang", "nolang", "algo", "option", "nogrammar", "extra", "nocommand"])
            args += {"lang": ["-l", "java", path], "nolang": [path], "algo": ["-a", "slr", "-l", lang, path], "option": largs + ["--fast", path],
                     "nogrammar": largs, "extra": largs + [path, path], "nocommand": largs + [path]}[kind]
            if kind == "algo":
                args = ["generate"] + args[args.index("-a", len(args) - 5):]
            if kind == "nocommand":
                args = args[1:]
        else:
            args += largs + [path]
            if rng.random() < 0.3:
                args = ["generate", path] + args[1:-1]
        saved = None
        if fault in ("blocked", "full"):
            name = rng.choice(FILES[lang] + ["table"])
            p = os.path.join(target, name)
            if os.path.exists(p):
                saved = open(p, "rb").read()
                os.remove(p)
            if fault == "blocked":
                os.mkdir(p)
            else:
                os.symlink("/dev/full", p)
        before = snapshot(target)
        rc, err = run_cli(exe, args, d)
        after = snapshot(target)
        if name:
            p = os.path.join(target, name)
            if os.path.islink(p) or os.path.isfile(p):
                os.remove(p)
            elif os.path.isdir(p):
                shutil.rmtree(p)
            if saved is not None:
                with open(p, "wb") as f:
                    f.write(saved)
        steps.append(dict(g=g + 1, lang=lang, algo=algo, lexer=lexer, table=table, fault=fault, file=name, exit=rc, msg=bool(err.strip()), before=before, after=after, args=" ".join(args)))
    shutil.rmtree(d)
    return steps


def c19(ctx):
    ctx.build(cli=True)
    exe = os.path.join(ctx.bins, "lapex-cli")
    texts = small_texts(ctx, ctx.n(200, 2000))
    ctx.rng.shuffle(texts)
    good = [t for t in texts if len(t["good"]) > 1]
    groups = []
    for k in range(ctx.n(100, 1200)):
        g = [texts[(3 * k + i) % len(texts)] for i in range(2)] + [ctx.rng.choice(good), ctx.rng.choice(good)]
        groups.append((k, g, ctx.rng.random()))
    with ThreadPoolExecutor(CORES) as ex:
        hist = list(ex.map(lambda x: history(ctx, exe, x[0], x[1], ctx.n(14, 24), x[2]), groups))
    cases = []
    for (k, g, _), steps in zip(groups, hist):
        cases.append(dict(id="history:%d" % k, texts=[dict(text=cps(t["text"]), bnf=t["bnf"]) for t in g], steps=steps))
        for s in steps:
            ctx.count("invocations: " + (s["fault"] or ("success" if s["exit"] == 0 else "failure")))
            ctx.nt(g[s["g"] - 1]["text"], s["args"], s["fault"], s["file"])
        ctx.sample(dict(id=cases[-1]["id"], grammars=[t["text"] for t in g][:2], invocations=[[s["args"], s["fault"], s["file"], s["exit"]] for s in steps][:6]))
    ctx.log("%d invocations" % sum(len(s) for s in hist))
    ctx.judge("Cli", cases, weight=lambda c: 100 + sum(len(t["text"]) + 20 * len(t["bnf"].get("rules", [])) for t in c["texts"]))
    return ctx.finish("model_checking", "histories of invocations (grammar files of every kind, all options, faults of reading and writing) on one target directory; "
                      "each is one step of the specified tool, whose verdict on every grammar is computed by the specification")


# ---- C18 ------------------------------------------------------------------------------------------------
def outcome(status, text, path, target):
    text = text.replace(path, "<path>")
    return dict(status=status, text=text.strip(), files=[x for x in snapshot(target) if x[1][0] != "<"])


def c18(ctx):
    ctx.build(cli=True)
    exe = os.path.join(ctx.bins, "lapex-cli")
    rng = ctx.rng
    texts = grams.classics() + lexers.classics() + grams.mixed(ctx, ctx.n(90, 900), names=True) + example_files()
    texts += [("curated:" + k, t) for k, t in CURATED + NAMES] + [("ties:%d" % i, lexers.rand_lexer(rng, 0.7).text()) for i in range(ctx.n(40, 400))]
    keys = []
    for i, (cid, t) in enumerate(texts):
        big = len(t) > 3000
        for a in rng.sample(ALGOS, 2 if not big else 1):
            if big and a == "lr1":
                a = "lalr"
            lang = "cpp" if a == "ll1" and rng.random() < 0.9 else "rust" if a == "glr" and rng.random() < 0.9 else rng.choice(["rust", "cpp"])
            keys.append(dict(key=len(keys) + 1, cid=cid, text=t, algo=a, lang=lang, lexer=rng.random() < 0.7, table=rng.random() < 0.5))
    paths = {}
    events = {k["key"]: [] for k in keys}
    for k in keys:
        paths[k["key"]] = [ctx.write("h%d.lapex" % k["key"], k["text"]), ctx.write("dir with spaces/%d/\u00e9 -x.lapex" % k["key"], k["text"])]

    def batch(tag, order):
        jobs = []
        for n, k in enumerate(order):
            jobs.append(dict(id="%d#%d" % (k["key"], n), path=paths[k["key"]][n % 2], algo=k["algo"], lang=k["lang"], lexer=k["lexer"], table=k["table"],
                             target=os.path.join(ctx.work, "%s%d" % (tag, n)), front="gen"))
            if tag != "first" and n % 3:
                jobs[-1]["stack"] = 64 + n % 97
        res = ctx.harness("gen", jobs)
        for j in jobs:
            r = res.get(j["id"])
            if r is None:
                continue
            o = outcome(r["status"], r.get("msg") or "\n\n".join(r.get("errors", [])), j["path"], j["target"])
            events[int(j["id"].split("#")[0])].append(dict(key=0, by=tag + " " + os.path.basename(j["path"]), out=o))
            shutil.rmtree(j["target"], ignore_errors=True)

    batch("first", keys)
    batch("reverse", keys[::-1])
    third = keys * 2
    rng.shuffle(third)
    batch("mixed", third)

    def single(x):
        n, k = x
        d = os.path.join(ctx.work, "c%d" % n, rng_names[n % len(rng_names)])
        os.makedirs(d + "/out")
        with open(d + "/gr\u00e4mmar.lapex", "w", encoding="utf-8", newline="") as f:
            f.write(k["text"])
        args = ["generate", "-a", k["algo"], "-l", k["lang"], "--target", "out", "gr\u00e4mmar.lapex"] + ([] if k["lexer"] else ["--no-lexer"]) + (["--table"] if k["table"] else [])
        rc, err = run_cli(exe, args, d, env={"LANG": ["C", "de_DE.UTF-8"][n % 2], "HOME": d, "COLUMNS": str(n % 200)})
        status = {0: "ok", 1: "err", 101: "panic"}.get(rc, "exit %d" % rc)
        if status == "panic":
            m = re.search(r"panicked at [^\n]*:\n(.*?)\nnote: run with", err, re.S)
            err = m.group(1) if m else err
        o = outcome(status, err, "gr\u00e4mmar.lapex", d + "/out")
        shutil.rmtree(os.path.join(ctx.work, "c%d" % n))
        return k["key"], dict(key=0, by="process " + d[len(ctx.work):], out=o)

    rng_names = ["x", "a b", "-l", "\u6f22"]
    work = [(n, k) for n, k in enumerate(rng.sample(keys, min(len(keys), ctx.n(400, 4000))) * 2)]
    with ThreadPoolExecutor(CORES) as ex:
        for key, e in ex.map(single, work):
            events[key].append(e)
    # several grammars make one history
    cases = []
    order = list(keys)
    rng.shuffle(order)
    for i in range(0, len(order), 5):
        evs = []
        for k in order[i:i + 5]:
            evs += [dict(e, key=k["key"]) for e in events[k["key"]]]
            ctx.nt(k["text"], k["algo"], k["lang"], k["lexer"], k["table"])
            for e in events[k["key"]]:
                ctx.count("outcomes: " + e["out"]["status"])
        rng.shuffle(evs)
        cases.append(dict(id="history:%d" % (i // 5), events=evs))
    ctx.sample(dict(history=[[e["key"], e["by"], e["out"]["status"], len(e["out"]["files"])] for e in cases[0]["events"]][:12]))
    ctx.log("%d generations" % sum(len(c["events"]) for c in cases))
    ctx.judge("History", cases, weight=lambda c: sum(len(json.dumps(e)) for e in c["events"]))
    return ctx.finish("model_checking", "the same grammar files and options generated again and again: in one process after other grammars and in parallel to them, in reverse order, "
                      "in fresh processes, from files and directories of other names; every outcome has to be the one known")
