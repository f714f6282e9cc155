"""Helper of the demonstrations: generate with lapex-cli, compile what it generates, run it on words."""
import os, re, shutil, subprocess, sys, tempfile
REPO = os.getcwd()
WORK = tempfile.mkdtemp(prefix="lapexdemo")
CLI = os.path.join(REPO, "target/debug/lapex-cli")
N = [0]


def build():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(REPO, "target"), CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTC_WRAPPER="")
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "-q", "-p", "lapex-cli"], cwd=REPO, env=env, capture_output=True, text=True)
    if r.returncode:
        print(r.stderr[-2000:])
        done(1)


def cli(args, **kw):
    return subprocess.run(["timeout", "30", CLI] + args, capture_output=True, text=True, errors="replace", cwd=WORK, **kw)


def gen(grammar, algo, lang="rust", opts=()):
    """returns (exit status, stderr, directory)"""
    N[0] += 1
    d = os.path.join(WORK, "g%d" % N[0])
    os.makedirs(d)
    g = os.path.join(WORK, "g%d.lapex" % N[0])
    open(g, "w", encoding="utf-8", newline="").write(grammar)
    r = cli(["generate", "-a", algo, "-l", lang, "--target", d] + list(opts) + [g])
    return r.returncode, r.stderr, d


def run_rust(d, algo, words):
    """one list of events per word: 'shift TkA', 'reduce_x', 'ok', 'error ...'"""
    s = open(d + "/parser.rs").read()
    t = s[s.index("pub trait Visitor"):]
    t = t[:re.search(r"\}\s*(pub struct)", t).start() + 1]
    fns = re.findall(r"fn (reduce_\w+)", t)
    v = "struct V; impl parser::Visitor<usize> for V { fn shift(&mut self,t:TokenType,d:usize){println!(\"shift {:?} {}\",t,d);}"
    v += "".join('fn %s(&mut self){println!("%s");}' % (f, f) for f in fns) + "}"
    if algo == "glr":
        body = "|| { n+=1; if n>2000 {panic!(\"runaway\")} let t=lex.next(); Ok::<_,E>((t.map_err(|_|E)?,n)) }"
    else:
        body = "|| { n+=1; if n>2000 {panic!(\"runaway\")} (lex.next().unwrap(),n) }"
    m = """#![allow(warnings)]
mod lexer; mod parser; mod tokens; use tokens::TokenType;
#[derive(Debug)] struct E; impl std::error::Error for E{} impl std::fmt::Display for E{fn fmt(&self,f:&mut std::fmt::Formatter)->std::fmt::Result{write!(f,"E")}}
%s
fn main(){ for a in std::env::args().skip(1) { println!("=word"); let mut lex=lexer::Lexer::new(&a); let mut n=0usize;
 let r=std::panic::catch_unwind(std::panic::AssertUnwindSafe(||{ let mut p=parser::Parser::new(%s,V); p.parse().map_err(|e|e.to_string()) }));
 match r { Ok(Ok(_))=>println!("ok"), Ok(Err(e))=>println!("error {}",e), Err(_)=>println!("panic") } } }
""" % (v, body)
    return compile_run(d, m, words)


def lex_rust(d, words, n=40):
    m = """#![allow(warnings)]
mod lexer; mod tokens; use tokens::TokenType;
fn main(){ for a in std::env::args().skip(1) { println!("=word"); let mut lex=lexer::Lexer::new(&a);
 for _ in 0..%d { match lex.next() { Ok(TokenType::EndOfFile)=>{println!("end");break;}, Ok(t)=>{let s=lex.span(); println!("{:?} {}..{} {:?}",t,s.start,s.end,lex.slice());}, Err(e)=>{println!("error");break;} } } } }
""" % n
    return compile_run(d, m, words)


def split(out):
    return [w.split("\n")[1:-1] for w in out.split("=word")[1:]]


def compile_run(d, main, words):
    open(d + "/main.rs", "w").write(main)
    r = subprocess.run(["rustc", "--edition", "2021", "-o", d + "/m", d + "/main.rs"], capture_output=True, text=True)
    if r.returncode:
        return [["does not compile", r.stderr[:600]]]
    r = subprocess.run(["timeout", "20", d + "/m"] + list(words), capture_output=True, text=True, errors="replace")
    return split(r.stdout)


def run_cpp(d, words):
    s = open(d + "/visitor.h").read()
    fns = re.findall(r"virtual void (\w+)\(\) = 0", s)
    tk = "token" if "virtual void token" in s else "shift"
    m = '#include "lexer.h"\n#include "parser_impl.h"\n#include <sstream>\n#include <iostream>\n'
    m += 'struct V: parser::Visitor<int>{ void %s(lexer::TokenType t,int d){std::cout<<"%s "<<lexer::get_token_name(t)<<" "<<d<<"\\n";}' % (tk, tk)
    m += "".join('void %s(){std::cout<<"%s\\n";}' % (f, f) for f in fns)
    m += ('};int main(int c,char**v){for(int i=1;i<c;i++){std::cout<<"=word\\n";std::istringstream is(v[i]);lexer::Lexer l(is);V vis;int n=0;'
          'parser::Parser<int> p([&]{n++; if(n>2000)throw std::runtime_error("runaway"); auto t=l.next(); return std::make_pair(t,n);},vis);'
          'try{p.parse();std::cout<<"ok\\n";}catch(std::exception&e){std::cout<<"error "<<e.what()<<"\\n";}}}')
    return cxx_run(d, m, words)


def lex_cpp(d, words):
    m = '#include "lexer.h"\n#include <sstream>\n#include <iostream>\n'
    m += ('int main(int c,char**v){for(int i=1;i<c;i++){std::cout<<"=word\\n";std::istringstream is(v[i]);lexer::Lexer l(is);'
          'for(int k=0;k<40;k++){auto t=l.next(); if(t==lexer::TokenType::TK_EOF){std::cout<<"end\\n";break;} if(t==lexer::TokenType::TK_ERR){std::cout<<"error\\n";break;}'
          'std::cout<<lexer::get_token_name(t)<<" "<<l.start()<<".."<<l.end()<<"\\n";}}}')
    return cxx_run(d, m, words)


def cxx_run(d, main, words):
    open(d + "/main.cpp", "w").write(main)
    fs = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cpp")]
    r = subprocess.run(["g++", "-w", "-o", d + "/m"] + fs, capture_output=True, text=True)
    if r.returncode:
        return [["does not compile", r.stderr[:600]]]
    r = subprocess.run(["timeout", "20", d + "/m"] + list(words), capture_output=True, text=True, errors="replace")
    return split(r.stdout)


def cargo_run(deps, main):
    """runs a program that uses crates of the repository; its output"""
    d = os.path.join(WORK, "crate")
    os.makedirs(d + "/src")
    open(d + "/Cargo.toml", "w").write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n' + "".join('%s = { path = "%s/%s" }\n' % (x, REPO, x) for x in deps))
    open(d + "/src/main.rs", "w").write(main)
    shutil.copy(REPO + "/Cargo.lock", d + "/Cargo.lock")
    env = dict(os.environ, CARGO_TARGET_DIR=d + "/target", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTC_WRAPPER="")
    r = subprocess.run(["cargo", "run", "--offline", "-q"], cwd=d, env=env, capture_output=True, text=True, timeout=250)
    return r.stdout if r.returncode == 0 else "failed: " + r.stderr[-500:]


def expect(what, got, want):
    if got != want:
        print("WRONG: %s\n  got  %r\n  want %r" % (what, got, want))
        done(1)
    print("fine:", what)


def done(rc=0):
    shutil.rmtree(WORK, ignore_errors=True)
    sys.exit(rc)
