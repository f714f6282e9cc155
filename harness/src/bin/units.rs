//! The libraries under the generator on their own: automata (job "nfa") and code templates and targets (job "codegen").
use lapex_automaton::{AutomatonState, Nfa};
use lapex_codegen::{GeneratedCodeWriter, Template};
use lapex_verif_harness::{catch, run_jobs};
use serde_json::{json, Value};
use std::{cell::RefCell, io::Write, rc::Rc};

fn int(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}

/// {"states": [label or -1], "eps": [[a, b]], "tr": [[a, b, symbol]], "entry"}
fn nfa(j: &Value) -> Value {
    catch(|| {
        let mut nfa: Nfa<i64, usize> = Nfa::new();
        let ids: Vec<_> = j["states"]
            .as_array()
            .unwrap()
            .iter()
            .map(|s| match s.as_i64().unwrap() {
                -1 => nfa.add_intermediate_state(),
                l => nfa.add_accepting_state(l),
            })
            .collect();
        for e in j["edges"].as_array().unwrap() {
            let (a, b) = (ids[int(&e[0])], ids[int(&e[1])]);
            match e[2].as_i64().unwrap() {
                -1 => nfa.add_epsilon_transition(a, b),
                s => nfa.add_transition(a, b, s as usize),
            };
        }
        let dfa = nfa.powerset_construction(ids[int(&j["entry"])]);
        let states: Vec<Value> = dfa
            .states()
            .map(|(id, s)| {
                let acc = match s {
                    AutomatonState::Accepting(ls) => json!({"acc": true, "labels": ls}),
                    AutomatonState::Intermediate(_) => json!({"acc": false, "labels": []}),
                };
                let tr: Vec<Value> = dfa.transitions_from(id).map(|(t, b)| json!([t, b.index()])).collect();
                json!({"id": id.index(), "acc": acc["acc"], "labels": acc["labels"], "tr": tr})
            })
            .collect();
        json!({"status": "ok", "states": states})
    })
}

/// Takes `room` bytes (-1: any number), then fails; takes at most `step` bytes at once.
#[derive(Clone)]
struct Sink {
    data: Rc<RefCell<Vec<u8>>>,
    room: i64,
    step: usize,
}

impl Sink {
    fn new(j: &Value) -> Sink {
        Sink { data: Rc::new(RefCell::new(vec![])), room: j["room"].as_i64().unwrap(), step: int(&j["step"]) }
    }
    fn bytes(&self) -> Vec<u8> {
        self.data.borrow().clone()
    }
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut n = b.len().min(self.step);
        if self.room >= 0 {
            n = n.min(self.room as usize - self.data.borrow().len());
        }
        if n == 0 && !b.is_empty() {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        self.data.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn name(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

/// the parts are written one by one; "fail": an error after them
fn parts(j: &Value, w: &mut dyn Write) -> std::io::Result<()> {
    for p in j["parts"].as_array().unwrap() {
        w.write_all(p.as_str().unwrap().as_bytes())?;
    }
    if j["fail"].as_bool().unwrap() {
        return Err(std::io::Error::new(std::io::ErrorKind::Other, "own"));
    }
    Ok(())
}

fn outcome(r: std::io::Result<()>) -> Value {
    match r {
        Ok(()) => json!(["ok"]),
        Err(e) => json!(["err", e.to_string()]),
    }
}

/// {"text", "subs": [{"key", "parts", "fail"}], "sink": {"room", "step"}, "times"}
fn template(j: &Value) -> Value {
    let sink = Sink::new(&j["sink"]);
    let calls = Rc::new(RefCell::new(vec![]));
    let mut outs: Vec<Value> = vec![];
    let r = catch(|| {
        let template = Template::new(j["text"].as_str().unwrap());
        let mut writer = template.writer();
        for s in j["subs"].as_array().unwrap() {
            let (calls, sink, s2) = (calls.clone(), sink.clone(), s.clone());
            writer.substitute(name(s["key"].as_str().unwrap()), move |w| {
                calls.borrow_mut().push(json!([s2["key"], sink.data.borrow().len()]));
                parts(&s2, w)
            });
        }
        for _ in 0..int(&j["times"]) {
            let mut s = sink.clone();
            outs.push(outcome(writer.write(&mut s)));
            if outs.last().unwrap()[0] != "ok" {
                break;
            }
        }
        json!({"status": "ok"})
    });
    if r["status"] != "ok" {
        outs.push(json!(["panic"]));
    }
    json!({"status": "ok", "outs": outs, "bytes": sink.bytes(), "calls": *calls.borrow()})
}

/// {"sinks": [{"key", "room", "step"}] (registered in this order), "files": [{"key", "room", "step", "buffer", "fail"}] (what the
///  default makes: one per request, in this order, the last one again and again), "steps": [{"key", "parts", "fail"}]}
fn targets(j: &Value) -> Value {
    let mut sinks: Vec<Sink> = j["sinks"].as_array().unwrap().iter().map(Sink::new).collect();
    let shown: Vec<Sink> = sinks.clone();
    let opened = RefCell::new(vec![]);
    let mut outs: Vec<Value> = vec![];
    let r = catch(|| {
        let files = j["files"].as_array().unwrap();
        let mut gen = GeneratedCodeWriter::with_default(|name: &'static str| {
            let k = opened.borrow().len();
            let f = &files[k.min(files.len() - 1)];
            let sink = Sink::new(f);
            opened.borrow_mut().push((name, sink.clone()));
            if f["fail"].as_bool().unwrap() {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "refused"));
            }
            Ok(std::io::BufWriter::with_capacity(int(&f["buffer"]), sink))
        });
        for (s, d) in sinks.iter_mut().zip(j["sinks"].as_array().unwrap()) {
            gen.add_target(name(d["key"].as_str().unwrap()), s);
        }
        for s in j["steps"].as_array().unwrap() {
            outs.push(outcome(gen.generate_code(name(s["key"].as_str().unwrap()), |w| parts(s, w))));
        }
        json!({"status": "ok"})
    });
    if r["status"] != "ok" {
        outs.push(json!(["panic"]));
    }
    let opened: Vec<Value> = opened.borrow().iter().map(|(n, s)| json!([n, s.bytes()])).collect();
    json!({"status": "ok", "outs": outs, "sinks": shown.iter().map(|s| s.bytes()).collect::<Vec<_>>(), "opened": opened})
}

/// {"text", "chars"}: the alphabet of the token rules of a grammar file, and their automaton
fn lexparts(j: &Value) -> Value {
    catch(|| {
        use lapex_automaton::NfaEdge;
        use lapex_input::LapexInputParser;
        let text = j["text"].as_str().unwrap();
        // the bootstrap front end keeps negated classes, the other one turns them into ranges
        let first = if j["front"] == "boot" {
            std::panic::catch_unwind(|| lapex_input_bootstrap::BootstrapLapexInputParser {}.parse_lapex(text)).ok().and_then(|r| r.ok())
        } else {
            None
        };
        let rules = match first.map(Ok).unwrap_or_else(|| lapex_verif_harness::AnyInputParser.parse_lapex(text)) {
            Ok(r) => r,
            Err(_) => return json!({"status": "unread"}),
        };
        let names: Vec<&str> = rules.token_rules.iter().map(|r| r.inner.name).collect();
        let alphabet = lapex_lexer::generate_alphabet(&rules.token_rules);
        let ranges: Vec<Value> = alphabet.get_ranges().iter().map(|r| json!([r.start(), r.end()])).collect();
        let mut chars: Vec<u32> = j["chars"].as_array().unwrap().iter().map(|c| int(c) as u32).collect();
        for r in alphabet.get_ranges() {
            chars.extend([*r.start(), *r.end(), (*r.start() + *r.end()) / 2]);
        }
        let finds: Vec<Value> = chars.iter().map(|c| json!([c, alphabet.find_range(*c).map(|i| i as i64).unwrap_or(-1)])).collect();
        let (entry, nfa) = lapex_lexer::generate_nfa(&alphabet, &rules.token_rules);
        let graph = nfa.graph();
        let states: Vec<i64> = graph
            .raw_nodes()
            .iter()
            .map(|n| match &n.weight {
                AutomatonState::Accepting(r) => names.iter().position(|x| *x == r.inner.name).unwrap() as i64,
                AutomatonState::Intermediate(_) => -1,
            })
            .collect();
        let edges: Vec<Value> = graph
            .raw_edges()
            .iter()
            .map(|e| {
                let s = match &e.weight {
                    NfaEdge::Epsilon => -1,
                    NfaEdge::Transition(t) => *t as i64,
                };
                json!([e.source().index(), e.target().index(), s])
            })
            .collect();
        json!({"status": "ok", "names": names, "ranges": ranges, "finds": finds, "nfa": {"states": states, "edges": edges, "entry": entry.index()}})
    })
}

fn job(j: &Value) -> Value {
    let mut r = match j["job"].as_str().unwrap() {
        "nfa" => nfa(j),
        "lexparts" => lexparts(j),
        "template" => template(j),
        "targets" => targets(j),
        _ => unreachable!(),
    };
    r["id"] = j["id"].clone();
    r
}

fn main() {
    run_jobs(job);
}
