"""C24: the names of the generated code, and that it compiles."""
import json, os
import gen, grams, runtime
from common import cps
from files import part

AB = 'token A = "a";\ntoken B = "b";\n'
CLASHES = {
    "token-case": (["rust"], 'token id = "a";\ntoken ID = "b";\nentry s;\nprod s = id ID;\n'),
    "token-underscore": (["rust"], 'token a_b = "a";\ntoken A__B = "b";\nentry s;\nprod s = a_b A__B;\n'),
    "token-eof": (["cpp"], 'token EOF = "a";\nentry s;\nprod s = EOF;\n'),
    "token-err": (["cpp"], 'token ERR = "a";\nentry s;\nprod s = ERR;\n'),
    "rule-number": (["rust", "cpp"], AB + "entry x;\nprod x = A x_1;\nprod x = B;\nprod x_1 = B;\n"),
    "rule-tag": (["rust"], AB + "entry x;\nprod x [y] = A x_y;\nprod x [z] = B;\nprod x_y = B;\n"),
    "tag-twice": (["rust"], AB + "entry x;\nprod x [y] = A x;\nprod x [y] = B;\n"),
    "anonymous": (["rust", "cpp"], AB + "entry s;\nprod s = (A | B) anon3;\nprod anon3 = A;\nprod anon3 = B;\n"),
}
FINE = {
    "nt-case": AB + "entry s;\nprod s = EXPR expr eXpr;\nprod expr = A (B A)*;\nprod EXPR = B B;\nprod eXpr = !;\n",
    "nt-underscore": AB + "entry s;\nprod s = a_b ab AB a__b a_b_;\nprod a_b = A;\nprod ab = A A;\nprod AB = A B;\nprod a__b = A A;\nprod a_b_ = B;\n",
    "nt-anon": AB + "entry anon;\nprod anon = (A | B) ANON9;\nprod ANON9 = A;\nprod ANON9 = B;\n",
    "one-tagged": AB + "entry s;\nprod s [only] = A p;\nprod p [x] = B;\nprod p = A;\nprod p [X] = B B;\n",
    "nt-like-token": 'token a = "a";\ntoken b = "b";\nentry A;\nprod A = a B;\nprod B = b;\n',
    "digits": 'token a1 = "a";\ntoken a11 = "b";\ntoken a1_2_ = "c";\ntoken b__1 = "d";\ntoken c_ = "e";\ntoken a_1_1x = "f";\nentry s;\nprod s = a1 s1;\nprod s1 = a11;\nprod s1 = a1_2_ b__1 c_ a_1_1x;\n',
    "keywords": 'token fn = "a";\ntoken class = "b";\ntoken Self = "c";\ntoken int = "d";\ntoken EndOfFile = "e";\nentry type;\nprod type [match] = fn operator;\nprod type [self] = class;\nprod operator = Self;\nprod operator = int EndOfFile;\n',
    "visitor": 'token tokens = "a";\ntoken shift = "b";\ntoken T = "c";\ntoken V = "d";\nentry parse;\nprod parse = tokens shift T visitor;\nprod visitor = V;\nprod visitor = T;\n',
    "long": 'token %s = "a";\nentry %s;\nprod %s [%s] = %s;\nprod %s = !;\n' % ("t" * 200, "n" * 200, "n" * 200, "g" * 200, "t" * 200, "n" * 200),
}
FINE["many"] = ("".join('token T%d = "%s";\n' % (i, "x%dy" % i) for i in range(300)) + "entry s;\n" + "".join("prod s%s = T%d%s;\n" % (" [t%d]" % i if i % 3 == 1 else "", i, " p%d" % i if i < 270 else "") for i in range(300))
                + "".join("prod p%d = T%d;\n" % (i, i + 1) for i in range(270)))
FINE["anons"] = AB + "".join('token T%d = "%s";\n' % (i, "x%dy" % i) for i in range(14)) + "entry s;\nprod s = A (" + " | ".join("T%d" % i for i in range(14)) + ") " + " ".join("(A%s B)" % (" A" * (i % 3)) for i in range(14)) + ";\n"
ALGOS = {"rust": ["lr0", "lalr", "lr1", "glr"], "cpp": ["ll1", "lr0", "lalr", "lr1"]}

RUST = r"""#![allow(warnings)]
mod tokens; mod parser; @LEXER@
use tokens::TokenType;
fn exhaustive(t: TokenType) -> usize { match t { @CASES@ } }
struct V;
impl parser::Visitor<()> for V { fn shift(&mut self, t: TokenType, d: ()) {}
@METHODS@
}
#[derive(Debug)] struct E; impl std::error::Error for E {} impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "E") } }
fn used() -> bool { let mut p = parser::Parser::new(|| @RET@, V); p.parse().is_ok() }
fn main() { if std::env::args().count() > 5 { used(); exhaustive(TokenType::EndOfFile); }
  let all: Vec<TokenType> = vec![@ALL@];
  let shown: Vec<String> = all.iter().map(|t| format!("[{}]", format!("{:?}", t).chars().map(|c| (c as u32).to_string()).collect::<Vec<_>>().join(","))).collect();
  println!("[{}]", shown.join(",")); }
"""
CPP = r"""
struct V : parser::Visitor<int> { void @SHIFT@(lexer::TokenType, int) override {}
@METHODS@
};
static int different(lexer::TokenType t) { switch (t) { @CASES@ } return -1; }
int main(int argc, char **) {
  if (argc > 5) { V v; parser::Parser<int> p([]() -> parser::Token<int> { return {lexer::TokenType::TK_EOF, 0}; }, v); p.parse(); return different(lexer::TokenType::TK_EOF); }
  std::vector<lexer::TokenType> all{@ALL@}; std::string s;
  for (auto t : all) { s += s.empty() ? "[" : ",["; std::string n; const char *x = lexer::get_token_name(t); for (; x && *x; x++) n += (n.empty() ? "" : ",") + std::to_string((unsigned char)*x); s += n + "]"; }
  std::cout << "[" << s << "]" << std::endl; }
"""


def main_of(j):
    toks, meths = j["names"]
    if j["lang"] == "rust":
        s = RUST.replace("@LEXER@", "mod lexer;" if j["lexer"] else "")
        s = s.replace("@CASES@", " ".join("TokenType::%s => %d," % (t, i) for i, t in enumerate(toks))).replace("@ALL@", ", ".join("TokenType::" + t for t in toks))
        s = s.replace("@METHODS@", "\n".join("  fn %s(&mut self) {}" % m for m in meths))
        return s.replace("@RET@", "Ok::<_, E>((TokenType::EndOfFile, ()))" if j["algo"] == "glr" else "(TokenType::EndOfFile, ())")
    shift = "token" if "virtual void token(" in open(j["dir"] + "/visitor.h").read() else "shift"
    s = CPP.replace("@SHIFT@", shift).replace("@METHODS@", "\n".join("  void %s() override {}" % m for m in meths))
    return s.replace("@CASES@", " ".join("case lexer::TokenType::%s: return %d;" % (t, i) for i, t in enumerate(toks))).replace("@ALL@", ", ".join("lexer::TokenType::" + t for t in toks))


def c24(ctx):
    rng = ctx.rng
    texts = [("clash:" + k, t) for k, (_, t) in CLASHES.items()] + [("names:" + k, t) for k, t in FINE.items()]
    texts += grams.classics() + grams.mixed(ctx, ctx.n(150, 1500), names=True) + [x for x in grams.example_files()]
    for i in range(ctx.n(60, 600)):
        g = gen.rand_grammar(rng, max_nts=4, max_terms=5, depth=1, ops=rng.random() < 0.6, rules=3, tags=0.5, eps=0.05)
        words = rng.sample(WORDS, len(g.tokens) + 8)
        names = {t[0]: words[k] for k, t in enumerate(g.tokens)}
        nts = sorted({p[0] for p in g.prods})
        names.update({n: words[len(g.tokens) + k] for k, n in enumerate(nts)})
        texts.append(("renamed:%d" % i, gen.renamed(g, names, rng, WORDS).text()))
    jobs, per = [], {}
    for k, (cid, text, r) in enumerate(grams.record(ctx, texts, ["ll", "lr0", "lr1", "lalr", "bnf", "lex"])):
        b, lex = part(r, "bnf"), part(r, "lex")
        if b["status"] != "ok" or not b["rules"] or len(b["rules"]) > 120 and not cid.startswith("names:"):
            continue
        for lang in ("rust", "cpp"):
            fine = []
            for a in ALGOS[lang]:
                if a == "ll1":
                    ok = r.get("ll", {}).get("status") == "ok" and not r["ll"].get("conflict")
                else:
                    ok = a == "glr" or r.get(a, {}).get("status") == "ok" and r[a]["plain"]["kind"] == "table"
                if ok and (lang != "cpp" or a != "glr"):
                    fine.append(a)
            if cid.startswith("clash:"):
                fine = [a for a in fine if lang in CLASHES[cid[6:]][0] and a in ("lr1",)]
            elif cid == "names:many":
                fine = [a for a in fine if a in ("ll1", "lalr", "glr")]
            elif cid.startswith("names:"):
                pass
            else:
                fine = rng.sample(fine, min(1, len(fine)))
            for a in fine:
                if per.get((lang, a), 0) >= ctx.n(40 if lang == "rust" else 26, 500) and not cid.startswith(("clash", "names")):
                    continue
                per[lang, a] = per.get((lang, a), 0) + 1
                lexer = rng.random() < 0.5 and lex["status"] == "ok" and not lex["tie"]
                jobs.append(dict(id="%s:%s:%s" % (cid, a, lang), text=text, path=ctx.write("n%d.lapex" % k, text), algo=a, lang=lang, bnf=b, lexer=lexer))
    cases = [dict(id=j["id"], lang=j["lang"], algo=j["algo"], tokens=[cps(n) for _, n in j["bnf"]["terminals"]], nts=[[i, cps(n or "")] for i, n in j["bnf"]["nts"]],
                  rules=[[r["lhs"], cps(r["tag"] or "")] for r in j["bnf"]["rules"]], state="", shown=[]) for j in jobs]
    res = ctx.tlc("Interface", cases, {"MODE": "names"})
    text_of = lambda x: "".join(map(chr, x))
    keep = []
    for j, c in zip(jobs, cases):
        _, toks, meths, distinct = res[j["id"]][0]
        if not distinct and not j["id"].startswith("clash:"):
            ctx.count("clashing names, see the listed findings")
            continue
        j["names"] = ([text_of(x) for x in toks], sorted(text_of(x) for x in meths))
        keep.append((j, c))
    runtime.build_parsers(ctx, [j for j, _ in keep], main=main_of)
    for j, c in keep:
        c["state"] = j["state"]
        if j["state"] == "ok":
            r = runtime.subprocess.run([j["exe"]], capture_output=True, text=True)
            try:
                c["shown"] = json.loads(r.stdout)
            except ValueError:
                c["state"] = "crash"
        elif not j["id"].startswith("clash:"):
            ctx.log(j["id"], j["state"], j["msg"])
        ctx.nt(j["text"], j["algo"], j["lang"])
        ctx.count("programs: %s %s" % (j["lang"], j["algo"]))
        ctx.sample(dict(id=j["id"], grammar=j["text"], names=j["names"]))
    ctx.judge("Interface", [c for _, c in keep], {"MODE": "judge"})
    return ctx.finish("model_checking", "grammars with names of every kind (case, underscores, digits, keywords, tags, anonymous sub-rules); for every language and algorithm a program that uses exactly the names "
                      "the specification derives from the grammar - every token in an exhaustive match, every visitor method implemented - is compiled with the generated files and run")


WORDS = ["id", "Number", "NUM", "x", "y_", "z_1", "a1", "A_1", "fooBar", "foo_bar", "FOO", "if", "else_", "struct", "namespace", "template", "Some", "None", "Ok", "Vec", "std", "main", "data",
         "Token", "shift", "parse", "Parser", "Visitor", "TokenType", "lexer", "tokens", "anon", "anon_1", "x_1", "x_2", "reduce_x", "enter_x", "NT", "TK", "E", "T1", "ab_Cd_eF", "zz9_plural", "Z", "rule"]
