"""Checks about generated lexers and parsers together, and about what surrounds them: C23."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
import shutil, subprocess
import cli, gen, grams, lexers, parsers, runtime
from common import CORES, cps
from files import example_files, part

# ---- C23: lexer and parser together ---------------------------------------------------------------------
POOL = [("lit", "if"), ("lit", "i"), ("lit", "else"), ("re", "[a-z]+"), ("re", "[a-z][a-z0-9]*"), ("re", "[0-9]+"), ("re", "[0-9]+\\.[0-9]+"), ("lit", "="), ("lit", "=="),
        ("lit", "=>"), ("re", " +"), ("re", "[ \\n\\t]+"), ("re", '"[^"]*"'), ("lit", "é"), ("re", "[α-ω]+"), ("lit", "漢字"), ("re", "[^a-z0-9=]"), ("lit", "ab"),
        ("lit", "abc"), ("re", "(ab)+"), ("lit", "+"), ("lit", "++"), ("lit", "+="), ("re", "x[0-9a-f]{2}"), ("re", "a|aab"), ("lit", "("), ("lit", ")"), ("lit", "𝄞"),
        ("re", "𝄞?é"), ("lit", "."), ("lit", ".."), ("re", "a{3,}"), ("lit", "0"), ("re", "[a-c]"), ("re", "b*c")]
CALC = ('token NUM = /[0-9]+(\\.[0-9]+)?/;\ntoken PLUS = "+";\ntoken MINUS = "-";\ntoken MUL = "*";\ntoken L = "(";\ntoken R = ")";\ntoken ID = /[a-zé]+/;\ntoken LET = "let";\ntoken EQ = "=";\n'
        'token SEMI = ";";\ntoken NEG = "--";\n')
WHOLE = {
    "calc": CALC + "entry p;\nprod p = (l SEMI)* e;\nprod l = LET ID EQ e;\nprod e = t ((PLUS | MINUS) t)*;\nprod t = f (MUL f)*;\nprod f = NUM | ID | L e R | NEG f;\n",
    "left": CALC + "entry e;\nprod e [add] = e PLUS t;\nprod e [sub] = e MINUS t;\nprod e = t;\nprod t = t MUL f;\nprod t = f;\nprod f = NUM;\nprod f = L e R;\nprod f = ID;\nprod f = LET;\n",
    "amb": CALC + "entry e;\nprod e = e PLUS e;\nprod e = e MUL e;\nprod e = NUM | ID | LET ID;\n",
    "json": 'token LB = "{";\ntoken RB = "}";\ntoken C = ",";\ntoken COL = ":";\ntoken S = /"([^"\\\\]|\\\\.)*"/;\ntoken N = /-?[0-9]+/;\ntoken T = "true";\ntoken O = "[";\ntoken X = "]";\n'
            "entry v;\nprod v = S | N | T | LB (m (C m)*)? RB | O (v (C v)*)? X;\nprod m = S COL v;\n",
    "empty": 'token A = "a";\nentry s;\nprod s = A*;\n',
    "onechar": 'token A = /[a-y]/;\ntoken Z = "z";\ntoken AB = "ab";\nentry s;\nprod s = (A | AB Z)+;\n',
}


def lexical(rng, g, pool=None):
    """the same grammar with tokens that a lexer has to tell apart"""
    ts = rng.sample(pool or POOL, len(g.tokens))
    g.tokens = [(t[0], k, x, None if rng.random() < 0.75 else rng.choice([0, 1, 3, 40])) for t, (k, x) in zip(g.tokens, ts)]
    if rng.random() < 0.2:
        g.tokens.append(("UNUSED", "re", rng.choice(["[ ]+", "#.*", "[a-z]", "=+"]), rng.choice([None, 0])))
    return g


def whole_texts(ctx, n):
    rng = ctx.rng
    out = [("whole:" + k, t) for k, t in WHOLE.items()]
    for i in range(n):
        ops = rng.random() < 0.5
        g = gen.rand_grammar(rng, max_nts=4, max_terms=5, depth=rng.choice([0, 1, 2]), ops=ops, rules=rng.choice([1, 2, 3]), names=True)
        out.append(("lexed:%d" % i, lexical(rng, g).text()))
    return out


def samples(rng, lex, per=5):
    """texts of each token, from the automaton (whose correctness is not assumed: they are only inputs)"""
    out = {}
    edges = {s["id"]: [t for t in s["tr"]] for s in lex["states"]}
    acc = {s["id"]: s["acc"] for s in lex["states"]}
    dist = {}
    for name in {a for a in acc.values() if a}:
        d = {q: 0 for q in acc if acc[q] == name}
        todo = sorted(d)
        back = {}
        for q, es in edges.items():
            for lo, hi, t in es:
                back.setdefault(t, set()).add(q)
        for q in todo:
            for p in sorted(back.get(q, ())):
                if p not in d:
                    d[p] = d[q] + 1
                    todo.append(p)
        dist[name] = d
    for name, d in dist.items():
        ws = set()
        for _ in range(per * 3):
            q, w, slack = 0, [], rng.choice([0, 0, 1, 2, 4])
            while len(w) < 30:
                if w and d.get(q) == 0 and (slack <= 0 or rng.random() < 0.4):
                    break
                es = [e for e in edges.get(q, []) if e[2] in d and (slack > 0 or d[e[2]] < d[q] or not w)]
                if not es:
                    break
                lo, hi, t = rng.choice(es)
                if d[t] >= d.get(q, 0):
                    slack -= 1
                c = [x for x in (rng.choice([lo, hi, rng.randint(lo, hi)]), lo, hi) if lexers.scalar(x)]
                if not c:
                    break
                w.append(c[0])
                q = t
            if w and d.get(q) == 0:
                ws.add(tuple(w))
            if len(ws) >= per:
                break
        out[name] = sorted(ws)
    return out


def whole_inputs(rng, bnf, lex, most):
    names = dict(map(tuple, bnf["terminals"]))
    sm = samples(rng, lex)
    chars = sorted({c for ws in sm.values() for w in ws for c in w}) or [97]
    mins = parsers.min_lengths(bnf)
    out = {()}
    for _ in range(most * 3):
        if len(out) >= most:
            break
        s = parsers.sentence(rng, bnf, mins, rng.choice([1, 2, 3, 4, 6, 9, 14]))
        if s is None or len(s) > 40:
            continue
        if rng.random() < 0.25 and names:
            s.insert(rng.randrange(len(s) + 1), rng.choice(sorted(names)))
        w = []
        for t in s:
            ws = sm.get(names[t])
            if ws:
                w += rng.choice(ws)
        r = rng.random()
        if r < 0.35:
            for _ in range(rng.choice([1, 1, 2])):
                i = rng.randrange(len(w) + 1)
                k = rng.random()
                if k < 0.35 and w:
                    del w[min(i, len(w) - 1)]
                elif k < 0.7:
                    w.insert(i, rng.choice(chars))
                elif w:
                    w[min(i, len(w) - 1)] = rng.choice(chars + [1, 0x10FFFF, 0xE9])
        elif r < 0.42:
            w = w[:rng.randrange(len(w) + 1)]
        out.add(tuple(w))
    return [list(w) for w in sorted(out)]


RUST_WHOLE = r"""#![allow(warnings)]
mod tokens; mod lexer; mod parser;
use tokens::TokenType;
use std::cell::RefCell; use std::io::BufRead; use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
thread_local! { static EV: RefCell<Vec<String>> = RefCell::new(vec![]); }
static CUR: AtomicUsize = AtomicUsize::new(usize::MAX);
fn name(t: &TokenType) -> &'static str { match t { TokenType::EndOfFile => "<EOF>", @NUM@ } }
#[derive(Debug)] struct E; impl std::error::Error for E {} impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "E") } }
struct Lex;
struct V;
impl parser::Visitor<(usize, usize)> for V {
  fn shift(&mut self, t: TokenType, d: (usize, usize)) { EV.with(|e| { let mut e = e.borrow_mut(); if e.len() > @MAXEV@ { panic!("runaway"); } e.push(format!("[\"{}\",{},{}]", name(&t), d.0, d.1)); }); }
@METHODS@
}
fn run(text: &str) -> &'static str {
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
    let mut l = lexer::Lexer::new(text); let mut n = 0;
    let f = || { n += 1; if n > text.len() + 6 { panic!("runaway"); } match l.next() { Ok(t) => { let s = l.span(); @OK@ } Err(_) => @FAIL@ } };
    let mut p = parser::Parser::new(f, V);
    match p.parse() { Ok(_) => "ok", @LEX@ Err(_) => "err" }
  }));
  match r { Ok(s) => s, Err(p) => if p.downcast_ref::<Lex>().is_some() { "lex" } else { "panic" } }
}
fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let first: usize = std::env::args().nth(1).map(|a| a.parse().unwrap()).unwrap_or(0);
  std::thread::spawn(|| { let mut last = (usize::MAX, 0u32); loop { std::thread::sleep(std::time::Duration::from_millis(250));
     let c = CUR.load(SeqCst); if c == last.0 && c != usize::MAX { last.1 += 1; if last.1 > 4 * @WORD_S@ { println!("{{\"i\":{},\"ev\":[],\"out\":[\"hang\",\"\"]}}", c); std::process::exit(3); } } else { last = (c, 0); } } });
  let lines: Vec<String> = std::io::stdin().lock().lines().map(|l| l.unwrap()).collect();
  for (i, line) in lines.iter().enumerate() { if i < first { continue; }
    let text: String = line.split_whitespace().map(|x| char::from_u32(x.parse().unwrap()).unwrap()).collect();
    CUR.store(i, SeqCst); EV.with(|e| e.borrow_mut().clear());
    let out = run(&text); let evs = EV.with(|e| e.borrow().join(","));
    println!("{{\"i\":{},\"ev\":[{}],\"out\":[\"{}\",\"\"]}}", i, evs, out); }
  CUR.store(usize::MAX, SeqCst);
}
"""
CPP_WHOLE = runtime.CPP_COMMON + r"""
static const char *name(lexer::TokenType t) { switch (t) { @NUM@ default: return "?"; } }
static std::string utf8(uint32_t c) { std::string s;
  if (c < 0x80) s += (char)c;
  else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
  else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
  return s; }
struct D { size_t s, e; };
struct V : parser::Visitor<D> {
  void @SHIFT@(lexer::TokenType t, D d) override { if (t != lexer::TokenType::TK_EOF) ev("[\"" + std::string(name(t)) + "\"," + std::to_string(d.s) + "," + std::to_string(d.e) + "]"); }
@METHODS@
};
int main(int argc, char **argv) {
  handlers(); int first = argc > 1 ? atoi(argv[1]) : 0; std::string line; int i = -1;
  while (std::getline(std::cin, line)) {
    if (++i < first) continue;
    CUR = i; EV.clear(); NEV = 0; std::string text; { std::istringstream is(line); uint32_t x; while (is >> x) text += utf8(x); }
    std::string out; bool bad = false; alarm(@WORD_S@);
    try {
      std::istringstream in(text); lexer::Lexer l(in); size_t k = 0; V v;
      parser::Parser<D> p([&]() -> parser::Token<D> { if (++k > text.size() + 9) throw Runaway(); auto t = l.next(); bad = t == lexer::TokenType::TK_ERR; return {t, {l.start(), l.end()}}; }, v);
      p.parse(); out = "ok";
    } catch (Runaway &) { out = "runaway"; } catch (...) { out = bad ? "lex" : "err"; }
    alarm(0);
    printf("{\"i\":%d,\"ev\":[%s],\"out\":[\"%s\",\"\"]}\n", i, EV.c_str(), out.c_str()); fflush(stdout);
  }
}
"""


def whole_main(j):
    ns = [n for _, n in j["bnf"]["terminals"]]
    if j["lang"] == "rust":
        s = RUST_WHOLE.replace("@NUM@", " ".join('TokenType::%s => "%s",' % (runtime.rust_token(n), n) for n in ns))
        s = s.replace("@METHODS@", "\n".join("  fn %s(&mut self) {}" % m for m in j["meths"]))
        g = j["algo"] == "glr"
        s = s.replace("@OK@", "Ok::<_, E>((t, (s.start, s.end)))" if g else "(t, (s.start, s.end))").replace("@FAIL@", "Err(E)" if g else "std::panic::panic_any(Lex)")
        s = s.replace("@LEX@", "Err(parser::ParserError::LexerError { .. }) => \"lex\"," if g else "")
    else:
        shift = "token" if "virtual void token(" in open(j["dir"] + "/visitor.h").read() else "shift"
        s = CPP_WHOLE.replace("@NUM@", " ".join('case lexer::TokenType::TK_%s: return "%s";' % (n, n) for n in ns)).replace("@SHIFT@", shift)
        s = s.replace("@METHODS@", "\n".join("  void %s() override {}" % m for m in j["meths"]))
    return s.replace("@MAXEV@", str(runtime.MAXEV)).replace("@WORD_S@", str(runtime.WORD_S))


def c23(ctx):
    rng = ctx.rng
    recs = grams.record(ctx, whole_texts(ctx, ctx.n(300, 4000)), ["ll", "lr0", "lr1", "lalr", "bnf", "lex"])
    jobs, per = [], {}
    keep = {("rust", "lr0"): 8, ("rust", "lalr"): 16, ("rust", "lr1"): 16, ("rust", "glr"): 26, ("cpp", "ll1"): 20, ("cpp", "lr0"): 6, ("cpp", "lalr"): 12, ("cpp", "lr1"): 12}
    for k, (cid, text, r) in enumerate(recs):
        b, lex = part(r, "bnf"), part(r, "lex")
        if b["status"] != "ok" or not b["rules"] or lex["status"] != "ok" or lex["tie"] or not lex["states"]:
            continue
        if len({runtime.rust_token(n) for _, n in b["terminals"]}) < len(b["terminals"]):
            continue
        for (lang, a), most in keep.items():
            if a == "glr":
                fine = parsers.tame(b) and rng.random() < 0.5
            elif a == "ll1":
                fine = r.get("ll", {}).get("status") == "ok" and not r["ll"].get("conflict")
            else:
                fine = r.get(a, {}).get("status") == "ok" and r[a]["plain"]["kind"] == "table"
            if not fine or per.get((lang, a), 0) >= most * ctx.n(1, 10):
                continue
            per[lang, a] = per.get((lang, a), 0) + 1
            jobs.append(dict(id="%s:%s:%s" % (cid, a, lang), text=text, path=ctx.write("w%d.lapex" % k, text), algo=a, lang=lang, bnf=b, words=whole_inputs(rng, b, lex, ctx.n(70, 250))))
    for (lang, a), n in sorted(per.items()):
        ctx.count("planned: %s %s" % (a, lang), n)
    runtime.build_parsers(ctx, jobs, main=whole_main, lexer=True)
    runtime.run_lexers(ctx, jobs)
    cases = []
    for j in jobs:
        if j["state"] != "ok":
            ctx.log(j["id"], j["state"], j["msg"])
        ctx.count("texts run", len(j.get("runs", [])))
        ctx.nt(j["text"], j["algo"], j["lang"])
        cases.append(dict(id=j["id"], text=cps(j["text"]), unit="bytes" if j["lang"] == "rust" else "chars", cls=j["algo"], tool="", state=j["state"], runs=[dict(r, src="") for r in j.get("runs", [])]))
        if len(j["text"]) < 200 and j.get("runs"):
            ctx.sample(dict(id=j["id"], grammar=j["text"], texts=len(j["runs"]), example=j["runs"][-1]))
    ctx.judge("Pipeline", cases, weight=lambda c: 40 + len(c["text"]) // 4 + sum(len(r["w"]) + 3 * len(r["ev"]) for r in c["runs"]), kind="whole: ")
    return ctx.finish("model_checking", "grammar files with tokens that need longest match, precedence and multi-byte characters; generated lexer and parser (Rust LR, GLR; C++ LR, LL) connected, compiled and run on "
                      "texts of sentences, damaged and truncated ones; outcome and shown tokens (names and positions) are one behaviour of the specified pipeline")


# ---- C26: the debug command -------------------------------------------------------------------------------
def debug_run(ctx, exe, j, i, w, src, rng):
    """one invocation; returns (state of the grammar, outcome, output lines)"""
    d = os.path.join(ctx.work, "d%d-%d" % (j["n"], i))
    os.makedirs(d + "/tmp")
    with open(d + "/g.lapex", "w", encoding="utf-8", newline="") as f:
        f.write(j["text"])
    data = "".join(map(chr, w)).encode("utf-8")
    name = rng.choice(["in.txt", "./in.txt", d + "/in.txt", "my file"])
    if src == "directory":
        os.mkdir(os.path.join(d, name))
    elif src != "missing":
        with open(os.path.join(d, name), "wb") as f:
            f.write(data + (b"\xff" if src == "not-utf8" else b""))
    args = rng.choice([["g.lapex", name], ["-a", "glr", "g.lapex", name], ["g.lapex", "--algorithm=glr", name], ["./g.lapex", name]])
    before = sorted(os.listdir(d))
    env = {k: v for k, v in os.environ.items() if not k.startswith(("RUST", "CARGO_TARGET"))}
    env.update(TMPDIR=d + "/tmp", RUST_BACKTRACE="0", CARGO_NET_OFFLINE="true", RUSTFLAGS="-Cdebuginfo=0")
    if "HOME" in os.environ:
        env.setdefault("RUSTUP_HOME", os.environ.get("RUSTUP_HOME", os.path.join(os.environ["HOME"], ".rustup")))
        env.setdefault("CARGO_HOME", os.environ.get("CARGO_HOME", os.path.join(os.environ["HOME"], ".cargo")))
    try:
        r = subprocess.run([exe, "debug"] + args, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        rc, out, err = r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        rc, out, err = 255, "", "timeout"
    clean = os.listdir(d + "/tmp") == [] and sorted(os.listdir(d)) == before
    shutil.rmtree(d)
    lines = out.split("\n")
    said = lines[-2:] == ["Successfully parsed %s" % name, ""]
    ran = said or "Failed to parse %s\n" % name in err
    lines = lines[:-2] if said else lines[:-1] if lines[-1:] == [""] else lines
    if not ran:
        # (with an unreadable source nothing is said about the grammar)
        state = "ok" if src else "refused" if rc != 0 and err.strip() and not lines and clean else "strange: %d %s" % (rc, err[-200:])
        return state, "failed" if rc != 0 and err.strip() and clean else "strange", lines
    if "could not compile" in err:
        return "nocompile", "", []
    good = clean and said == (rc == 0) and said != ("Failed to parse %s\n" % name in err)
    return "ok", ("ok" if said else "refused") if good else "strange: %d %s" % (rc, "clean" if clean else "files left"), lines


def c26(ctx):
    rng = ctx.rng
    ctx.build(cli=True)
    exe = os.path.join(ctx.bins, "lapex-cli")
    texts = whole_texts(ctx, ctx.n(110, 900))
    texts += [("mutant:%d" % i, gen.mutate(rng, rng.choice([t for _, t in texts if len(t) < 400]))) for i in range(ctx.n(40, 300))]
    texts += [("ties:%d" % i, lexers.rand_lexer(rng, 0.7).text()) for i in range(ctx.n(12, 100))]
    recs = grams.record(ctx, texts, ["bnf", "lex"])
    jobs, fine, foul = [], 0, 0
    for k, (cid, text, r) in enumerate(recs):
        b, lex = part(r, "bnf"), part(r, "lex")
        ok = b["status"] == "ok" and b["rules"] and lex["status"] == "ok" and not lex["tie"] and lex["states"]
        if ok and (not parsers.tame(b) or len({runtime.rust_token(n) for _, n in b["terminals"]}) < len(b["terminals"])):
            continue
        if (fine if ok else foul) >= (ctx.n(36, 320) if ok else ctx.n(24, 160)):
            continue
        fine, foul = fine + bool(ok), foul + (not ok)
        words = [[97]]
        srcs = [""]
        if ok:
            ws = whole_inputs(rng, b, lex, 12)
            words = rng.sample(ws, min(len(ws), 3))
            # a source is read as it is: nothing around the text is dropped, and no end of line is converted
            around = rng.choice([[10], [32], [13, 10], [0xFEFF], [9], [10, 10]])
            words.append(around + rng.choice(ws) if rng.random() < 0.3 else rng.choice(ws) + around)
            srcs = [""] * len(words)
            if rng.random() < 0.3:
                words.append(rng.choice(ws))
                srcs.append(rng.choice(["missing", "directory", "not-utf8"]))
        jobs.append(dict(id=cid, n=len(jobs), text=text, bnf=b, words=words, srcs=srcs, seed=rng.random()))
    import random
    work = [(j, i) for j in jobs for i in range(len(j["words"]))]
    with ThreadPoolExecutor(CORES) as ex:
        outs = list(ex.map(lambda x: debug_run(ctx, exe, x[0], x[1], x[0]["words"][x[1]], x[0]["srcs"][x[1]], random.Random("%s-%d" % (x[0]["seed"], x[1]))), work))
    ctx.log("%d invocations" % len(outs))
    per = {}
    for (j, i), o in zip(work, outs):
        per.setdefault(j["id"], []).append((i, o))
        ctx.count("invocations: %s %s" % (o[0][:10], o[1][:10]))
    cases, visits = [], []
    for j in jobs:
        os_ = per[j["id"]]
        states = sorted({o[0] for _, o in os_})
        names = {runtime.rust_token(n): (i, n) for i, n in j["bnf"].get("terminals", [])}
        runs, vruns = [], []
        texts_ = {}
        for i, (state, out, lines) in os_:
            ev, vev, w = [], [], []
            for l in lines:
                m = re.match(r"shift (\w+)$", l)
                if m:
                    t = names.get(m.group(1), (998, "?"))
                    ev.append([t[1], 0, 0])
                    w.append(t[0])
                    vev.append([1, t[0], len(w)])
                else:
                    vev.append([2, texts_.setdefault(l, len(texts_))])
            runs.append(dict(w=j["words"][i], src=j["srcs"][i], ev=ev, out=[out]))
            vruns.append(dict(w=w, ev=vev, out=["ok"] if out == "ok" else ["err", []]))
        cases.append(dict(id=j["id"], text=cps(j["text"]), unit="none", cls="glr", tool="debug", state=states[0] if len(states) == 1 else "different answers: %s" % states, runs=runs))
        if states == ["ok"]:
            meths = [["rule", [k + 1 for k, r in enumerate(j["bnf"]["rules"]) if r["text"] == t]] for t in sorted(texts_, key=texts_.get)]
            visits.append(dict(id=j["id"], state="ok", text=cps(j["text"]), bnf=j["bnf"], cls="glr", meths=meths + [["rule", [k + 1]] for k in range(len(j["bnf"]["rules"]))],
                               docs=["" for _ in range(len(meths) + len(j["bnf"]["rules"]))], named=True, runs=vruns))
        ctx.nt(j["text"])
        ctx.sample(dict(id=j["id"], grammar=j["text"], runs=runs[:1]))
    ctx.judge("Pipeline", cases, weight=lambda c: 40 + len(c["text"]) // 4 + sum(len(r["w"]) for r in c["runs"]), kind="debug: ")
    ctx.judge("VisitCheck", visits, weight=parsers.VW, kind="lines: ")
    return ctx.finish("model_checking", "invocations of the debug command (GLR) on grammar files of every kind with texts of sentences, damaged ones, and unreadable sources; exit status, messages, "
                      "files left behind and every printed line are a behaviour of the specified pipeline and of the specification's stack machine")
