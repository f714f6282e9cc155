//! Runs lapex::generate, the entry point behind the command line tool.
//! job: {"id", "path", "algo", "lang", "target", "lexer", "table"}
use lapex::{generate, Language, ParsingAlgorithm};
use lapex_verif_harness::{catch, run_jobs};
use serde_json::{json, Value};
use std::path::Path;

fn job(j: &Value) -> Value {
    let mut r = catch(|| {
        let algo = match j["algo"].as_str().unwrap() {
            "ll1" => ParsingAlgorithm::LL1,
            "lr0" => ParsingAlgorithm::LR0,
            "lr1" => ParsingAlgorithm::LR1,
            "lalr" => ParsingAlgorithm::LALR,
            "glr" => ParsingAlgorithm::GLR,
            _ => unreachable!(),
        };
        let lang = match j["lang"].as_str().unwrap() {
            "rust" => Language::Rust,
            "cpp" => Language::Cpp,
            _ => unreachable!(),
        };
        let path = Path::new(j["path"].as_str().unwrap());
        let target = Path::new(j["target"].as_str().unwrap());
        std::fs::create_dir_all(target).unwrap();
        let lexer = j["lexer"].as_bool().unwrap();
        let table = j["table"].as_bool().unwrap();
        let result = if j["front"].as_str() == Some("boot") {
            generate(lexer, algo, table, path, target, lang, lapex_input_bootstrap::BootstrapLapexInputParser {})
        } else if j["front"].as_str() == Some("gen") {
            generate(lexer, algo, table, path, target, lang, lapex_input_gen::GeneratedLapexInputParser {})
        } else {
            generate(lexer, algo, table, path, target, lang, lapex_verif_harness::AnyInputParser)
        };
        match result {
            Ok(()) => json!({"status": "ok"}),
            Err(errors) => {
                json!({"status": "err", "errors": errors.iter().map(|e| format!("{}", e)).collect::<Vec<_>>()})
            }
        }
    });
    r["id"] = j["id"].clone();
    r
}

/// "stack": run in a fresh thread with a stack of that many megabytes, so that the stack lies elsewhere
fn placed(j: &Value) -> Value {
    match j["stack"].as_u64() {
        None => job(j),
        Some(mb) => {
            let j = j.clone();
            // an ended thread leaves its heap to the next one, which then lies above the new stack
            std::thread::spawn(|| std::hint::black_box(vec![0u8; 1000]).len()).join().unwrap();
            std::thread::Builder::new().stack_size((mb as usize) << 20).spawn(move || job(&j)).unwrap().join().unwrap()
        }
    }
}

fn main() {
    run_jobs(placed);
}
