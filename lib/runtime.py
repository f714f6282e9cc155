"""Compiles generated parsers and lexers together with a recording driver and runs them.

A parser driver reads one word per line (numbers of the terminals; the end of the input is implied) and prints one JSON
line per word: {"i": n, "ev": [...], "out": [...]} with events
    [0]          a token was requested
    [1, t, d]    the visitor was shown token t with data d
    [2, m]       visitor method m was called
and out = ["ok"] | ["err", [[got, data or -1, [expected...]]...]] | ["panic"|"hang"|"crash"|"runaway", text].
The data supplied with the k-th requested token is k.
"""
import json, os, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from common import CORES, ToolError

MAXEV = 6000
WORD_S = 4
FAIL = 999          # in a word: the token source fails here


# ---- names of the generated interface -------------------------------------------------------------
def rust_token(name):
    return "Tk" + "".join(p[0].upper() + p[1:].lower() for p in name.split("_") if p)


def methods(bnf, lang, prefix="reduce_"):
    """method name -> list of rule numbers (1-based) that call it"""
    out = {}
    names = {i: n for i, n in bnf["nts"]}
    by = {}
    for k, r in enumerate(bnf["rules"]):
        by.setdefault(r["lhs"], []).append(k)
    for nt, ks in by.items():
        base = names[nt] or "anon%d" % (nt - 1000)
        for i, k in enumerate(ks):
            tag = bnf["rules"][k]["tag"] if names[nt] and lang == "rust" else ""
            m = prefix + base if len(ks) == 1 else prefix + base + "_" + (tag or str(i + 1))
            out.setdefault(m, []).append(k + 1)
    return out


def trait_methods(d, lang):
    """the visitor methods of the generated code, in order, each with the text of its rule"""
    if lang == "rust":
        s = open(d + "/parser.rs", encoding="utf-8").read()
        m = re.search(r"trait\s+Visitor.*?\{(.*?)\}\s*(?:#\s*\[[^\]]*\]\s*)*(?:pub\s+)?struct", s, re.S)
        body = m.group(1) if m else ""
        out = []
        for x in re.finditer(r'(?:#\s*\[\s*doc\s*=\s*"((?:[^"\\]|\\.)*)"\s*\]|///([^\n]*)\n)?\s*fn\s+(\w+)\s*\(\s*&\s*mut\s+self\s*\)', body):
            out.append((x.group(3), (x.group(1) or x.group(2) or "").strip()))
        return out
    s = open(d + "/visitor.h", encoding="utf-8").read()
    out, doc = [], ""
    for line in s.split("\n"):
        m = re.match(r"\s*//\s?(.*)", line)
        if m:
            doc = m.group(1).strip()
            continue
        m = re.match(r"\s*virtual void (\w+)\(\) = 0;", line)
        if m:
            out.append((m.group(1), doc))
            doc = ""
    return out


# ---- Rust -------------------------------------------------------------------------------------------
RUST_PARSER = r"""#![allow(warnings)]
mod tokens; mod parser;
use tokens::TokenType;
use std::cell::{Cell, RefCell}; use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
thread_local! { static EV: RefCell<String> = RefCell::new(String::new()); static N: Cell<usize> = Cell::new(0); }
static TICK: AtomicU64 = AtomicU64::new(0); static CUR: AtomicUsize = AtomicUsize::new(usize::MAX);
fn ev(s: String) { N.with(|n| { n.set(n.get()+1); if n.get() > @MAXEV@ { panic!("runaway"); } });
  EV.with(|e| { let mut e = e.borrow_mut(); if !e.is_empty() { e.push(','); } e.push_str(&s); }); }
fn tok(i: usize) -> TokenType { match i { 0 => TokenType::EndOfFile, @TOK@ _ => unreachable!() } }
fn num(t: &TokenType) -> usize { match t { TokenType::EndOfFile => 0, @NUM@ } }
fn nums(v: &Vec<TokenType>) -> String { format!("[{}]", v.iter().map(|t| num(t).to_string()).collect::<Vec<_>>().join(",")) }
#[derive(Debug)] struct E(usize); impl std::error::Error for E {} impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "E") } }
struct V;
impl parser::Visitor<usize> for V {
  fn shift(&mut self, t: TokenType, d: usize) { ev(format!("[1,{},{}]", num(&t), d)); }
@METHODS@
}
fn esc(s: &str) -> String { s.chars().map(|c| if c == '"' || c == '\\' || (c as u32) < 32 { ' ' } else { c }).collect() }
fn run(w: Vec<usize>) -> String {
  let mut k = 0usize; let n = w.len();
  let f = move || { ev("[0]".to_string()); k += 1; if k > n + 3 { panic!("runaway: tokens requested past the end"); }
     @FAILS@ let t = if k <= n { tok(w[k-1]) } else { TokenType::EndOfFile }; @RET@ };
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let mut p = parser::Parser::new(f, V); p.parse() }));
  match r {
    Ok(Ok(_)) => "[\"ok\"]".to_string(),
    Ok(Err(e)) => @ERR@,
    Err(p) => { let m = if let Some(s) = p.downcast_ref::<String>() { s.clone() } else if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else { "panic".into() };
       format!("[\"{}\",\"{}\"]", if m.starts_with("runaway") { "runaway" } else { "panic" }, esc(&m)) }
  }
}
fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let words: Vec<Vec<usize>> = std::io::stdin().lock().lines().map(|l| l.unwrap().split_whitespace().map(|x| x.parse().unwrap()).collect()).collect();
  let first: usize = std::env::args().nth(1).map(|a| a.parse().unwrap()).unwrap_or(0);
  std::thread::spawn(|| { let mut last = (usize::MAX, 0u32); loop { std::thread::sleep(std::time::Duration::from_millis(250));
     let c = CUR.load(SeqCst); if c == last.0 && c != usize::MAX { last.1 += 1; if last.1 > 4 * @WORD_S@ { println!("{{\"i\":{},\"ev\":[],\"out\":[\"hang\",\"\"]}}", c); std::process::exit(3); } } else { last = (c, 0); } } });
  let t = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
    for (i, w) in words.into_iter().enumerate() { if i < first { continue; }
      CUR.store(i, SeqCst); N.with(|n| n.set(0)); EV.with(|e| e.borrow_mut().clear());
      let out = run(w); let evs = EV.with(|e| e.borrow().clone());
      println!("{{\"i\":{},\"ev\":[{}],\"out\":{}}}", i, evs, out); }
    CUR.store(usize::MAX, SeqCst);
  }).unwrap();
  t.join().unwrap();
}
"""
RUST_ERR_LR = r"""match e { parser::ParserError::UnexpectedToken { got, expected } => format!("[\"err\",[[{},-1,{}]]]", num(&got), nums(&expected)), _ => "[\"panic\",\"other error\"]".to_string() }"""
RUST_ERR_GLR = r"""match e { parser::ParserError::UnexpectedToken { got, got_data, expected } => format!("[\"err\",[[{},{},{}]]]", num(&got), got_data, nums(&expected)),
      parser::ParserError::UnexpectedTokens { got, expected } => format!("[\"err\",[{}]]", got.iter().zip(expected.iter()).map(|((g, d), x)| format!("[{},{},{}]", num(g), d, nums(x))).collect::<Vec<_>>().join(",")),
      parser::ParserError::LexerError { inner } => format!("[\"fail\",{}]", inner.0) }"""


# Histories: one parser object reads all words one after the other, and while it waits for the second token of a word,
# another parser reads the word given in front of it ("word | word"; the result of that one is under "in").
RUST_AGAIN = r"""
thread_local! { static WORD: RefCell<Vec<usize>> = RefCell::new(vec![]); static OTHER: RefCell<Option<Vec<usize>>> = RefCell::new(None); static K: Cell<usize> = Cell::new(0); static INNER: RefCell<String> = RefCell::new(String::new()); }
fn fresh(w: Vec<usize>) {
  let saved = EV.with(|e| e.replace(String::new())); let n = N.with(|n| n.replace(0));
  let out = run(w); let evs = EV.with(|e| e.replace(saved)); N.with(|x| x.set(n));
  INNER.with(|x| *x.borrow_mut() = format!(",\"in\":{{\"ev\":[{}],\"out\":{}}}", evs, out));
}
fn again() -> impl FnMut(Vec<usize>) -> String {
  let f = || { ev("[0]".to_string()); let k = K.with(|x| { x.set(x.get() + 1); x.get() });
     if k == 2 { if let Some(o) = OTHER.with(|x| x.borrow_mut().take()) { fresh(o); } }
     let w = WORD.with(|x| x.borrow().clone()); let n = w.len(); if k > n + 3 { panic!("runaway: tokens requested past the end"); }
     @FAILS@ let t = if k <= n { tok(w[k-1]) } else { TokenType::EndOfFile }; @RET@ };
  let mut p = parser::Parser::new(f, V);
  move |w| {
    WORD.with(|x| *x.borrow_mut() = w); K.with(|x| x.set(0));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.parse()));
    @ANSWER@
  }
}
"""


def rust_parser_main(bnf, meths, algo, again=False):
    if again:
        plain = RUST_PARSER
        i, k = plain.index("  match r {\n    Ok(Ok(_))"), plain.index("fn main() {")
        answer = plain[i:k].rstrip()[:-1]
        s = plain[:k] + RUST_AGAIN.replace("@ANSWER@", answer) + plain[k:]
        s = s.replace("Vec<Vec<usize>> = ", "Vec<Vec<Vec<usize>>> = ").replace("l.unwrap().split_whitespace().map(|x| x.parse().unwrap()).collect()", "l.unwrap().split('|').map(|y| y.split_whitespace().map(|x| x.parse().unwrap()).collect()).collect()")
        s = s.replace("for (i, w) in words", "let mut go = again(); for (i, mut w) in words").replace("let out = run(w); let evs = EV.with(|e| e.borrow().clone());",
                      "OTHER.with(|x| *x.borrow_mut() = if w.len() > 1 { Some(w[0].clone()) } else { None }); INNER.with(|x| x.borrow_mut().clear()); let out = go(w.pop().unwrap()); let evs = EV.with(|e| e.borrow().clone());")
        s = s.replace(r'println!("{{\"i\":{},\"ev\":[{}],\"out\":{}}}", i, evs, out);', r'println!("{{\"i\":{},\"ev\":[{}],\"out\":{}{}}}", i, evs, out, INNER.with(|x| x.borrow().clone()));')
        return rust_fill(s, bnf, meths, algo)
    return rust_fill(RUST_PARSER, bnf, meths, algo)


def rust_fill(s, bnf, meths, algo):
    ts = [(i, rust_token(n)) for i, n in bnf["terminals"]]
    s = s.replace("@TOK@", " ".join("%d => TokenType::%s," % t for t in ts)).replace("@NUM@", " ".join("TokenType::%s => %d," % (n, i) for i, n in ts))
    s = s.replace("@METHODS@", "\n".join('  fn %s(&mut self) { ev("[2,%d]".to_string()); }' % (m, k) for k, m in enumerate(meths)))
    s = s.replace("@RET@", "Ok::<_, E>((t, k))" if algo == "glr" else "(t, k)").replace("@ERR@", RUST_ERR_GLR if algo == "glr" else RUST_ERR_LR)
    s = s.replace("@FAILS@", "if k <= n && w[k-1] == %d { return Err(E(k)); }" % FAIL if algo == "glr" else "")
    return s.replace("@MAXEV@", str(MAXEV)).replace("@WORD_S@", str(WORD_S))


def rustc(d, main="main.rs", out="m"):
    r = subprocess.run(["rustc", "--edition", "2021", "-Cdebuginfo=0", "-Copt-level=0", "-Cprefer-dynamic", "-Crpath", "-Ccodegen-units=1",
                        "-o", d + "/" + out, d + "/" + main], capture_output=True, text=True, env=dict(os.environ, RUSTC_WRAPPER=""))
    return r.returncode == 0, r.stderr[-1500:]


# ---- C++ --------------------------------------------------------------------------------------------
CPP_COMMON = r"""
#include <signal.h>
#include <unistd.h>
static std::string EV; static long NEV; static int CUR = -1;
struct Runaway {};
struct Failure { size_t k; };
static void ev(const std::string &s) { if (++NEV > @MAXEV@) throw Runaway(); if (!EV.empty()) EV += ','; EV += s; }
static void say(const char *what) { char b[96]; int n = snprintf(b, sizeof b, "{\"i\":%d,\"ev\":[],\"out\":[\"%s\",\"\"]}\n", CUR, what); fflush(stdout); write(1, b, n); _exit(3); }
static void on_alarm(int) { say("hang"); }
static void on_crash(int) { say("crash"); }
static void handlers() { static char alt[1 << 16]; stack_t st{}; st.ss_sp = alt; st.ss_size = sizeof alt; sigaltstack(&st, nullptr);
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) { struct sigaction a{}; a.sa_handler = on_crash; a.sa_flags = SA_ONSTACK; sigaction(s, &a, nullptr); }
  struct sigaction a{}; a.sa_handler = on_alarm; a.sa_flags = SA_ONSTACK; sigaction(SIGALRM, &a, nullptr); }
static std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += ((unsigned char)c < 32 ? ' ' : c); } return r; }
"""
CPP_PARSER = CPP_COMMON + r"""
static lexer::TokenType tok(int i) { switch (i) { case 0: return lexer::TokenType::TK_EOF; @TOK@ } abort(); }
static int num(lexer::TokenType t) { switch (t) { case lexer::TokenType::TK_EOF: return 0; @NUM@ default: return 999; } }
struct V : parser::Visitor<long> {
  void @SHIFT@(lexer::TokenType t, long d) override { ev("[1," + std::to_string(num(t)) + "," + std::to_string(d) + "]"); }
@METHODS@
};
int main(int argc, char **argv) {
  handlers(); int first = argc > 1 ? atoi(argv[1]) : 0; std::string line; int i = -1;
  while (std::getline(std::cin, line)) {
    if (++i < first) continue;
    CUR = i; EV.clear(); NEV = 0; std::vector<int> w; { std::istringstream is(line); int x; while (is >> x) w.push_back(x); }
    std::string out; alarm(@WORD_S@);
    try {
      size_t k = 0; V v;
      parser::Parser<long> p([&]() -> parser::Token<long> { ev("[0]"); k++; if (k > w.size() + 6) throw Runaway(); if (k <= w.size() && w[k - 1] == @FAIL@) throw Failure{k}; return {k <= w.size() ? tok(w[k - 1]) : lexer::TokenType::TK_EOF, (long)k}; }, v);
      p.parse(); out = "[\"ok\"]";
    } catch (Runaway &) { out = "[\"runaway\",\"\"]"; }
    catch (Failure &f) { out = "[\"fail\"," + std::to_string(f.k) + "]"; }
    catch (std::exception &e) { out = "[\"what\",\"" + esc(e.what()) + "\"]"; }
    catch (const char *e) { out = "[\"what\",\"" + esc(e) + "\"]"; }
    catch (...) { out = "[\"what\",\"\"]"; }
    alarm(0);
    printf("{\"i\":%d,\"ev\":[%s],\"out\":%s}\n", i, EV.c_str(), out.c_str()); fflush(stdout);
  }
}
"""


CPP_AGAIN = CPP_PARSER[:CPP_PARSER.index("int main(")] + r"""
struct Source { std::vector<int> w; size_t k = 0; std::function<void()> between; 
  parser::Token<long> operator()() { ev("[0]"); k++; if (k == 2 && between) { auto b = between; between = nullptr; b(); }
    if (k > w.size() + 6) throw Runaway(); if (k <= w.size() && w[k - 1] == @FAIL@) throw Failure{k}; return {k <= w.size() ? tok(w[k - 1]) : lexer::TokenType::TK_EOF, (long)k}; } };
static std::string answer(parser::Parser<long> &p) {
    try { p.parse(); return "[\"ok\"]"; } catch (Runaway &) { return "[\"runaway\",\"\"]"; }
    catch (Failure &f) { return "[\"fail\"," + std::to_string(f.k) + "]"; }
    catch (std::exception &e) { return "[\"what\",\"" + esc(e.what()) + "\"]"; }
    catch (const char *e) { return "[\"what\",\"" + esc(e) + "\"]"; }
    catch (...) { return "[\"what\",\"\"]"; } }
int main(int argc, char **argv) {
  handlers(); int first = argc > 1 ? atoi(argv[1]) : 0; std::string line; int i = -1;
  Source src; V v; parser::Parser<long> p([&]() { return src(); }, v);
  while (std::getline(std::cin, line)) {
    if (++i < first) continue;
    CUR = i; EV.clear(); NEV = 0; std::vector<std::vector<int>> w(1);
    { std::istringstream is(line); std::string x; while (is >> x) { if (x == "|") w.push_back({}); else w.back().push_back(atoi(x.c_str())); } }
    std::string inner; src.w = w.back(); src.k = 0; src.between = nullptr;
    if (w.size() > 1) src.between = [&]() { std::string saved = EV; long n = NEV; EV.clear(); NEV = 0;
      Source other; other.w = w[0]; V u; parser::Parser<long> q([&]() { return other(); }, u); std::string o = answer(q);
      inner = ",\"in\":{\"ev\":[" + EV + "],\"out\":" + o + "}"; EV = saved; NEV = n; };
    alarm(@WORD_S@); std::string out = answer(p); alarm(0);
    printf("{\"i\":%d,\"ev\":[%s],\"out\":%s%s}\n", i, EV.c_str(), out.c_str(), inner.c_str()); fflush(stdout);
  }
}
"""


def cpp_parser_main(bnf, meths, d, again=False):
    ts = [(i, n) for i, n in bnf["terminals"]]
    shift = "token" if "virtual void token(" in open(d + "/visitor.h").read() else "shift"
    s = CPP_AGAIN if again else CPP_PARSER
    s = s.replace("@TOK@", " ".join("case %d: return lexer::TokenType::TK_%s;" % t for t in ts)).replace("@NUM@", " ".join("case lexer::TokenType::TK_%s: return %d;" % (n, i) for i, n in ts))
    s = s.replace("@METHODS@", "\n".join('  void %s() override { ev("[2,%d]"); }' % (m, k) for k, m in enumerate(meths)))
    s = s.replace("@SHIFT@", shift).replace("@FAIL@", str(FAIL)).replace("@MAXEV@", str(MAXEV)).replace("@WORD_S@", str(WORD_S))
    return s


def pch(ctx):
    """precompiled standard header, once per run"""
    d = os.path.join(ctx.work, "pch")
    if not os.path.isdir(d):
        os.makedirs(d)
        with open(d + "/all.h", "w") as f:
            f.write("#include <bits/stdc++.h>\n")
        r = subprocess.run(["g++", "-std=c++17", "-w", "-x", "c++-header", d + "/all.h", "-o", d + "/all.h.gch"], capture_output=True, text=True)
        if r.returncode:
            raise ToolError("precompiled header: " + r.stderr[-500:])
    return d


def gxx(ctx, d, main, out="m", headers=("lexer.h", "parser_impl.h")):
    """compiles the generated files and the driver text main: in one unit, or (if that does not work) separately"""
    p = pch(ctx)
    cpps = sorted(f for f in os.listdir(d) if f.endswith(".cpp") and not f.startswith("drv"))
    incs = "".join('#include "%s"\n' % h for h in headers if os.path.exists(os.path.join(d, h)))
    with open(d + "/drv_all.cpp", "w") as f:
        f.write('#include "all.h"\n' + "".join('#include "%s"\n' % c for c in cpps) + incs + main)
    with open(d + "/drv.cpp", "w") as f:
        f.write('#include "all.h"\n' + incs + main)
    base = ["g++", "-std=c++17", "-w", "-O0", "-I", p, "-I", d]
    r = subprocess.run(base + ["-o", d + "/" + out, d + "/drv_all.cpp"], capture_output=True, text=True)
    if r.returncode == 0:
        return True, ""
    r = subprocess.run(base + ["-o", d + "/" + out, d + "/drv.cpp"] + [d + "/" + c for c in cpps], capture_output=True, text=True)
    return r.returncode == 0, r.stderr[-1500:]


def separately(d, out="sep"):
    """the generated C++ files compile on their own, without the driver's precompiled header"""
    objs = []
    for c in sorted(f for f in os.listdir(d) if f.endswith(".cpp") and not f.startswith("drv")):
        o = os.path.join(d, c + ".o")
        r = subprocess.run(["g++", "-std=c++17", "-w", "-fsyntax-only", os.path.join(d, c)], capture_output=True, text=True)
        if r.returncode:
            return False, r.stderr[-1500:]
    return True, ""


# ---- running ----------------------------------------------------------------------------------------
def run_words(exe, lines, limit=60):
    """results per line; a process that dies is restarted behind the word it died on"""
    got = {}
    first = 0
    data = "\n".join(lines) + "\n" if lines else ""
    deaths = 0
    t0 = time.time()
    while first < len(lines):
        p = subprocess.Popen(["prlimit", "--as=%d" % (3 << 30), "--core=0", exe, str(first)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL, text=True, errors="replace")
        try:
            out, _ = p.communicate(data, timeout=limit)
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
        last = first - 1
        for l in out.split("\n"):
            if not l:
                continue
            try:
                r = json.loads(l)
            except ValueError:
                continue
            got[r["i"]] = r
            last = max(last, r["i"])
        if last + 1 >= len(lines):
            break
        # the process ended early: either it reported why for the last word it printed, or it was killed on the next one
        dead = last if last >= first and got[last]["out"][0] in ("hang", "crash") else last + 1
        got.setdefault(dead, {"i": dead, "ev": [], "out": ["crash", "the process was killed"]})
        first = dead + 1
        deaths += 1
        if deaths > 3 or time.time() - t0 > 2 * limit:
            break
    return [got.get(i) for i in range(len(lines))]


def parse_what(text, names):
    """a C++ error message as [got|-1, -1, [expected...]]"""
    nums = {n: i for i, n in names}
    nums.update({"<EOF>": 0, "EOF": 0, "TK_EOF": 0})
    parts = re.split(r"[Ee]xpected (?:one of|token)s?:?", text)
    if len(parts) < 2:
        return None
    tail, head = parts[-1], parts[0]
    exp = [nums.get(x, 998) for x in re.findall(r"<EOF>|[A-Za-z_][A-Za-z0-9_]*", tail)]
    m = re.search(r"token '([^']*)'", head)
    got = nums.get(m.group(1), 998) if m else -1
    return [got, -1, exp]


def build_parsers(ctx, jobs, main=None, lexer=False):
    """jobs: dicts with id, path, algo, lang, bnf. Adds "dir", "state" (ok | refused | panic | nocompile), "meths", "exe"."""
    gen = []
    for i, j in enumerate(jobs):
        j["dir"] = os.path.join(ctx.work, "p%d-%s-%s" % (i, j["algo"], j["lang"]))
        gen.append(dict(id="%d" % i, path=j["path"], algo=j["algo"], lang=j["lang"], target=j["dir"], lexer=j.get("lexer", lexer), table=False))
    res = ctx.harness("gen", gen)

    def one(i):
        j = jobs[i]
        r = res.get("%d" % i)
        if r is None or r["status"] == "panic":
            j["state"], j["msg"] = "panic", (r or {}).get("msg", "no result")[:300]
            return
        if r["status"] != "ok":
            j["state"], j["msg"] = "refused", "\n".join(r.get("errors", []))[:300]
            return
        d = j["dir"]
        try:
            tm = trait_methods(d, j["lang"])
            j["meths"] = [m for m, _ in tm]
            j["docs"] = [x for _, x in tm]
            if j["lang"] == "rust":
                with open(d + "/main.rs", "w") as f:
                    f.write(main(j) if main else rust_parser_main(j["bnf"], j["meths"], j["algo"], bool(j.get("again"))))
                ok, err = rustc(d)
            else:
                ok, err = gxx(ctx, d, main(j) if main else cpp_parser_main(j["bnf"], j["meths"], d, bool(j.get("again"))))
        except FileNotFoundError as e:
            ok, err = False, "missing " + str(e)
        j["state"], j["msg"] = ("ok", "") if ok else ("nocompile", err[-600:])
        j["exe"] = d + "/m"

    if any(j["lang"] == "cpp" for j in jobs):
        pch(ctx)
    with ThreadPoolExecutor(CORES) as ex:
        list(ex.map(one, sorted(range(len(jobs)), key=lambda i: -len(jobs[i]["bnf"]["rules"]))))
    ctx.log("compiled %d of %d parsers" % (sum(j["state"] == "ok" for j in jobs), len(jobs)))
    return jobs


def run_parsers(ctx, jobs):
    """jobs with state ok get "runs": one {w, ev, out} per word of job["words"]"""
    todo = [j for j in jobs if j["state"] == "ok"]

    def one(j):
        # in a history, some words stand behind another one that is read in between
        between = j.get("again") or [None] * len(j["words"])
        lines = [(" ".join(map(str, o)) + " | " if o is not None else "") + " ".join(map(str, w)) for o, w in zip(between, j["words"])]
        j["runs"] = []

        def add(w, r):
            out = r["out"]
            if out[0] == "what":
                x = parse_what(out[1], j["bnf"]["terminals"])
                out = ["err", [x]] if x else ["err", []]
            j["runs"].append(dict(w=w, ev=r["ev"], out=out))
        for o, w, r in zip(between, j["words"], run_words(j["exe"], lines)):
            if r is None:
                continue
            add(w, r)
            if "in" in r:
                add(o, r["in"])
        if j.get("again"):
            j["runs"].sort(key=lambda r: r["w"])

    with ThreadPoolExecutor(CORES) as ex:
        list(ex.map(one, todo))
    ctx.log("ran %d words" % sum(len(j["runs"]) for j in todo))
    return jobs


# ---- lexers -----------------------------------------------------------------------------------------
# A lexer driver reads one text per line (code points) and calls next() until it fails or has reported the end three times:
#   [1, name, start, end, [slice]]   [0]   [2]
# On every second text another lexer is used at the same time, on the text before.
RUST_LEXER = r"""#![allow(warnings)]
mod tokens; mod lexer;
use tokens::TokenType;
use std::cell::RefCell; use std::io::BufRead; use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
thread_local! { static EV: RefCell<Vec<String>> = RefCell::new(vec![]); }
static CUR: AtomicUsize = AtomicUsize::new(usize::MAX);
fn ev(s: String) { EV.with(|e| e.borrow_mut().push(s)); }
fn name(t: &TokenType) -> &'static str { match t { TokenType::EndOfFile => "", @NUM@ } }
fn run(text: &str, beside: Option<&str>) -> String {
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
    let mut l = lexer::Lexer::new(text); let mut m = beside.map(|t| lexer::Lexer::new(t)); let mut ends = 0; let mut calls = 0;
    while ends < 3 {
      calls += 1; if calls > text.len() + 6 { return "runaway"; }
      if let Some(m) = m.as_mut() { if calls < 20 { let _ = m.next(); } }
      match l.next() {
        Err(lexer::LexerError::InvalidChar { bad_ch }) => { ev(format!("[2,{},{}]", bad_ch, bad_ch)); break; }
        Err(lexer::LexerError::UnexpectedAlphabet { range }) => { ev(format!("[2,{},{}]", range.start(), range.end())); break; }
        Ok(TokenType::EndOfFile) => { ends += 1; ev("[0]".into()); }
        Ok(t) => { let s = l.span(); ev(format!("[1,\"{}\",{},{},[{}]]", name(&t), s.start, s.end, l.slice().chars().map(|c| (c as u32).to_string()).collect::<Vec<_>>().join(","))); }
      }
    }
    "done"
  }));
  match r { Ok(s) => s.to_string(), Err(_) => "panic".to_string() }
}
fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let first: usize = std::env::args().nth(1).map(|a| a.parse().unwrap()).unwrap_or(0);
  std::thread::spawn(|| { let mut last = (usize::MAX, 0u32); loop { std::thread::sleep(std::time::Duration::from_millis(250));
     let c = CUR.load(SeqCst); if c == last.0 && c != usize::MAX { last.1 += 1; if last.1 > 4 * @WORD_S@ { println!("{{\"i\":{},\"ev\":[],\"out\":[\"hang\",\"\"]}}", c); std::process::exit(3); } } else { last = (c, 0); } } });
  let lines: Vec<String> = std::io::stdin().lock().lines().map(|l| l.unwrap()).collect();
  let mut last = String::new();
  for (i, line) in lines.iter().enumerate() { if i < first { continue; }
    let text: String = line.split_whitespace().map(|x| char::from_u32(x.parse().unwrap()).unwrap()).collect();
    CUR.store(i, SeqCst); EV.with(|e| e.borrow_mut().clear());
    let out = run(&text, if i % 2 == 1 { Some(&last) } else { None }); let evs = EV.with(|e| e.borrow().join(",")); last = text;
    println!("{{\"i\":{},\"ev\":[{}],\"out\":[\"{}\",\"\"]}}", i, evs, out); }
  CUR.store(usize::MAX, SeqCst);
}
"""
CPP_LEXER = CPP_COMMON + r"""
static const char *name(lexer::TokenType t) { switch (t) { @NUM@ default: return "?"; } }
static std::string utf8(uint32_t c) { std::string s;
  if (c >= 2097152) s += (char)(c - 2097152); else if (c < 0x80) s += (char)c;
  else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
  else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
  return s; }
int main(int argc, char **argv) {
  handlers(); int first = argc > 1 ? atoi(argv[1]) : 0; std::string line, last; int i = -1;
  while (std::getline(std::cin, line)) {
    if (++i < first) continue;
    CUR = i; EV.clear(); NEV = 0; std::string text; { std::istringstream is(line); uint32_t x; while (is >> x) text += utf8(x); }
    std::string out = "done"; alarm(@WORD_S@);
    try {
      std::istringstream in(text), in2(last); lexer::Lexer l(in), m(in2); int ends = 0; size_t calls = 0;
      while (ends < 3) {
        if (++calls > text.size() + 6) throw Runaway();
        if (i % 2 == 1 && calls < 20) m.next();
        lexer::TokenType t = l.next();
        if (t == lexer::TokenType::TK_ERR) { ev("[2]"); break; }
        if (t == lexer::TokenType::TK_EOF) { ends++; ev("[0]"); continue; }
        ev("[1,\"" + std::string(name(t)) + "\"," + std::to_string(l.start()) + "," + std::to_string(l.end()) + ",[]]");
      }
    } catch (Runaway &) { out = "runaway"; } catch (...) { out = "exception"; }
    alarm(0); last = text;
    printf("{\"i\":%d,\"ev\":[%s],\"out\":[\"%s\",\"\"]}\n", i, EV.c_str(), out.c_str()); fflush(stdout);
  }
}
"""


def build_lexers(ctx, jobs):
    """jobs: dicts with id, path, lang, names, algo. Adds "dir", "state", "exe"."""
    gen = []
    ctx.batches = getattr(ctx, "batches", 0) + 1
    for i, j in enumerate(jobs):
        j["dir"] = os.path.join(ctx.work, "x%d-%d-%s" % (ctx.batches, i, j["lang"]))
        gen.append(dict(id="%d" % i, path=j["path"], algo=j["algo"], lang=j["lang"], target=j["dir"], lexer=True, table=False))
    res = ctx.harness("gen", gen)

    def one(i):
        j = jobs[i]
        r = res.get("%d" % i)
        if r is None or r["status"] == "panic":
            j["state"], j["msg"] = "panic", (r or {}).get("msg", "no result")[:300]
            return
        if r["status"] != "ok":
            j["state"], j["msg"] = "refused", "\n".join(r.get("errors", []))[:300]
            return
        d = j["dir"]
        j["exe"] = d + "/m"
        if j["lang"] == "rust":
            s = RUST_LEXER.replace("@NUM@", " ".join('TokenType::%s => "%s",' % (rust_token(n), n) for n in j["names"])).replace("@WORD_S@", str(WORD_S))
            with open(d + "/main.rs", "w") as f:
                f.write(s)
            ok, err = rustc(d)
        else:
            s = CPP_LEXER.replace("@NUM@", " ".join('case lexer::TokenType::TK_%s: return "%s";' % (n, n) for n in j["names"])).replace("@WORD_S@", str(WORD_S)).replace("@MAXEV@", str(MAXEV))
            for f in os.listdir(d):
                if f not in ("lexer.h", "lexer.cpp", "tokens.h", "tokens.cpp"):
                    os.remove(os.path.join(d, f))
            ok, err = gxx(ctx, d, s, headers=("lexer.h",))
        j["state"], j["msg"] = ("ok", "") if ok else ("nocompile", err[-600:])

    if any(j["lang"] == "cpp" for j in jobs):
        pch(ctx)
    with ThreadPoolExecutor(CORES) as ex:
        list(ex.map(one, range(len(jobs))))
    ctx.log("compiled %d of %d lexers" % (sum(j["state"] == "ok" for j in jobs), len(jobs)))
    return jobs


def run_lexers(ctx, jobs):
    todo = [j for j in jobs if j["state"] == "ok"]

    def one(j):
        lines = [" ".join(map(str, w)) for w in j["words"]]
        j["runs"] = [dict(w=w, ev=r["ev"], out=r["out"]) for w, r in zip(j["words"], run_words(j["exe"], lines)) if r is not None]

    with ThreadPoolExecutor(CORES) as ex:
        list(ex.map(one, todo))
    ctx.log("ran %d texts" % sum(len(j["runs"]) for j in todo))
    return jobs
