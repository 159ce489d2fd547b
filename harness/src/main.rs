//! Scenario executor: reads operation histories (one JSON object per line),
//! performs them on the real crate through its public API and writes one event
//! per operation: the operation's own fields plus "r", what it returned.
//!
//!   r = {"k":"ok","v":...} | {"k":"panic","msg":...} | {"k":"hang"} | {"k":"crash"}
//!
//! Optional values are [] or [x]; lines are 1-based. There is no oracle here.

mod enc32;

use rusty_source_map::array_set::ArraySet;
use rusty_source_map::base64;
use rusty_source_map::base64_vlq::base64vlq_encode;
use rusty_source_map::binary_search;
use rusty_source_map::consumer::{
    create_consumer, BasicConsumer, Consumer, ConsumerTrait, IndexedConsumer, IterOrd,
};
use rusty_source_map::generator::SourceMapGenerator;
use rusty_source_map::mapping::Mapping;
use rusty_source_map::mapping_list::MappingList;
use rusty_source_map::source_map::{Position, SourceMapJson};
use rusty_source_map::util;
use serde_json::{json, Map, Value};
use source_map_mappings::Bias;
use std::cell::RefCell;
use std::collections::HashMap;
use std::fs::File;
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

enum Obj {
    Gen(SourceMapGenerator),
    Basic(BasicConsumer),
    Indexed(IndexedConsumer),
    ASet(ArraySet),
    MList(MappingList),
}

// ---------------------------------------------------------------- projections

/// Integers of the trace are 32-bit; anything else becomes a value no
/// specification ever allows.
fn int(v: i64) -> Value {
    if v >= -2147483648 && v <= 2147483647 {
        json!(v)
    } else {
        json!(-999999999)
    }
}
fn opt(v: Option<Value>) -> Value {
    match v {
        Some(v) => json!([v]),
        None => json!([]),
    }
}
fn strs(v: &[String]) -> Value {
    Value::Array(v.iter().map(|s| json!(s)).collect())
}
fn codes(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}
fn mapping_value(m: &Mapping) -> Value {
    json!({
        "gl": m.generated.line, "gc": m.generated.column,
        "o": opt(m.original.as_ref().map(|p| json!({"l": p.line, "c": p.column}))),
        "s": opt(m.source.as_ref().map(|s| json!(s))),
        "n": opt(m.name.as_ref().map(|s| json!(s))),
        "e": opt(m.last_generated_column.map(|e| json!(e))),
    })
}
fn raw_value(m: &source_map_mappings::Mapping) -> Value {
    json!({
        "gl": int(m.generated_line as i64 + 1), "gc": int(m.generated_column as i64),
        "e": opt(m.last_generated_column.map(|e| int(e as i64))),
        "o": opt(m.original.as_ref().map(|o| json!({
            "s": int(o.source as i64), "l": int(o.original_line as i64 + 1), "c": int(o.original_column as i64),
            "n": opt(o.name.map(|n| int(n as i64))),
        }))),
    })
}

// ------------------------------------------------------------------ arguments

fn s<'a>(op: &'a Value, k: &str) -> &'a str {
    op[k].as_str().unwrap_or_else(|| bad(op, k))
}
fn i(op: &Value, k: &str) -> i32 {
    op[k].as_i64().unwrap_or_else(|| bad(op, k)) as i32
}
fn b(op: &Value, k: &str) -> bool {
    op[k].as_bool().unwrap_or_else(|| bad(op, k))
}
/// Exit codes of the driver itself; any other means that the code under test ended the process.
const BAD_SCENARIO: i32 = 117;
const HUNG: i32 = 118;
const FINISHED: i32 = 119;

fn opt_arg<'a>(op: &'a Value, k: &str) -> Option<&'a Value> {
    let a = op[k].as_array().unwrap_or_else(|| bad(op, k));
    a.first()
}
fn opt_str(op: &Value, k: &str) -> Option<String> {
    opt_arg(op, k).map(|v| v.as_str().unwrap_or_else(|| bad(op, k)).to_string())
}
fn bad<T>(op: &Value, k: &str) -> T {
    eprintln!("driver: bad or missing field {:?} in {}", k, op);
    std::process::exit(BAD_SCENARIO)
}
fn bias(op: &Value) -> Option<Bias> {
    match i(op, "bias") {
        0 => None,
        1 => Some(Bias::GreatestLowerBound),
        _ => Some(Bias::LeastUpperBound),
    }
}
fn mapping_arg(m: &Value) -> Mapping {
    Mapping {
        generated: Position {
            line: i(m, "gl"),
            column: i(m, "gc"),
        },
        original: opt_arg(m, "o").map(|o| Position {
            line: i(o, "l"),
            column: i(o, "c"),
        }),
        source: opt_str(m, "s"),
        name: opt_str(m, "n"),
        last_generated_column: m["e"].as_array().and_then(|a| a.first()).map(|v| {
            v.as_i64().unwrap_or_else(|| bad(m, "e")) as i32
        }),
    }
}

/// Render an abstract document as JSON text.
fn doc_json(d: &Value) -> Value {
    let mut out = Map::new();
    out.insert("version".into(), d["version"].clone());
    let opt_field = |out: &mut Map<String, Value>, k: &str, name: &str, f: &dyn Fn(&Value) -> Value| {
        if let Some(v) = opt_arg(d, k) {
            out.insert(name.into(), f(v));
        }
    };
    let same = |v: &Value| v.clone();
    opt_field(&mut out, "file", "file", &same);
    opt_field(&mut out, "root", "sourceRoot", &same);
    opt_field(&mut out, "sources", "sources", &same);
    opt_field(&mut out, "names", "names", &same);
    opt_field(&mut out, "contents", "sourcesContent", &|v| {
        Value::Array(
            v.as_array()
                .unwrap()
                .iter()
                .map(|c| c.as_array().unwrap().first().cloned().unwrap_or(Value::Null))
                .collect(),
        )
    });
    opt_field(&mut out, "m", "mappings", &|v| {
        Value::String(
            v.as_array()
                .unwrap()
                .iter()
                .map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap())
                .collect(),
        )
    });
    opt_field(&mut out, "sections", "sections", &|v| {
        Value::Array(
            v.as_array()
                .unwrap()
                .iter()
                .map(|sec| {
                    let mut o = Map::new();
                    o.insert("offset".into(), json!({"line": sec["ol"], "column": sec["oc"]}));
                    if let Some(u) = opt_arg(sec, "url") {
                        o.insert("url".into(), u.clone());
                    }
                    o.insert("map".into(), doc_json(&sec["doc"]));
                    Value::Object(o)
                })
                .collect(),
        )
    });
    Value::Object(out)
}

/// The same document written differently: 1 indented, 2 with members reversed
/// and extension members added, 3 with absent members spelled null, 4 with
/// characters of strings escaped.
fn json_text(v: &Value, fmt: i64) -> String {
    fn dress(v: &Value, fmt: i64, top: bool) -> String {
        match v {
            Value::Object(o) => {
                let mut parts: Vec<(String, String)> = o
                    .iter()
                    .map(|(k, x)| (k.clone(), dress(x, fmt, k == "map")))
                    .collect();
                if fmt == 2 {
                    parts.reverse();
                    if top {
                        parts.insert(0, ("x_google_ignoreList".into(), "[0, 2]".into()));
                        parts.push(("debugId".into(), "{\"a\": [null, 1.5e3]}".into()));
                        parts.push(("source_root".into(), "\"/elsewhere\"".into()));
                        parts.insert(0, ("Version".into(), "2".into()));
                    }
                    if o.contains_key("line") {
                        parts.push(("Line".into(), "7".into()));
                    }
                }
                if fmt == 3 && o.contains_key("offset") && !o.contains_key("url") {
                    parts.push(("url".into(), "null".into()));
                }
                if fmt == 3 && top {
                    for k in ["file", "sourceRoot", "sourcesContent", "sections"] {
                        if !o.contains_key(k) {
                            parts.push((k.into(), "null".into()));
                        }
                    }
                }
                let all: Vec<String> = parts.iter().map(|(k, x)| format!("{}:{}", json!(k), x)).collect();
                format!("{{{}}}", all.join(","))
            }
            Value::Array(a) => {
                let all: Vec<String> = a.iter().map(|x| dress(x, fmt, false)).collect();
                format!("[{}]", all.join(","))
            }
            Value::String(t) if fmt == 4 => {
                let all: String = t
                    .encode_utf16()
                    .enumerate()
                    .map(|(n, u)| {
                        if n % 2 == 0 || u < 32 || u > 126 || u == 34 || u == 92 {
                            format!("\\u{:04x}", u)
                        } else {
                            ((u as u8) as char).to_string()
                        }
                    })
                    .collect();
                format!("\"{}\"", all)
            }
            _ => v.to_string(),
        }
    }
    match fmt {
        0 => v.to_string(),
        1 => format!("\n {}\n\t", serde_json::to_string_pretty(v).unwrap()),
        _ => dress(v, fmt, true),
    }
}
fn doc_text(d: &Value, fmt: i64) -> String {
    json_text(&doc_json(d), fmt)
}

/// A JSON document as an abstract one; members that are none of a source map's go to `extra`.
fn abstract_doc(v: &Value, extra: &mut Vec<Value>) -> Value {
    fn some(v: &Value, k: &str, f: impl FnOnce(&Value) -> Value) -> Value {
        match v.get(k) {
            None | Some(Value::Null) => json!([]),
            Some(x) => json!([f(x)]),
        }
    }
    fn text(x: &Value) -> Value {
        json!(x.as_str().unwrap_or("<not a string>"))
    }
    fn num(x: &Value) -> Value {
        int(x.as_i64().unwrap_or(i64::MAX))
    }
    fn others(v: &Value, known: &[&str], extra: &mut Vec<Value>) {
        match v.as_object() {
            Some(o) => extra.extend(o.keys().filter(|k| !known.contains(&k.as_str())).map(|k| json!(k))),
            None => extra.push(json!("<not an object>")),
        }
    }
    let empty = vec![];
    let list = |x: &Value| x.as_array().unwrap_or(&empty).clone();
    others(
        v,
        &["version", "file", "sourceRoot", "sources", "names", "mappings", "sourcesContent", "sections"],
        extra,
    );
    let sections = some(v, "sections", |x| {
        Value::Array(
            list(x)
                .iter()
                .map(|sec| {
                    others(sec, &["offset", "map", "url"], extra);
                    others(&sec["offset"], &["line", "column"], extra);
                    json!({"ol": num(&sec["offset"]["line"]), "oc": num(&sec["offset"]["column"]),
                           "url": some(sec, "url", text), "doc": abstract_doc(&sec["map"], extra)})
                })
                .collect(),
        )
    });
    json!({
        "version": num(&v["version"]),
        "file": some(v, "file", text), "root": some(v, "sourceRoot", text),
        "sources": some(v, "sources", |x| Value::Array(list(x).iter().map(text).collect())),
        "names": some(v, "names", |x| Value::Array(list(x).iter().map(text).collect())),
        "m": some(v, "mappings", |x| codes(x.as_str().unwrap_or("?"))),
        "contents": some(v, "sourcesContent", |x| Value::Array(
            list(x).iter().map(|c| if c.is_null() { json!([]) } else { json!([text(c)]) }).collect())),
        "sections": sections,
    })
}
fn written(j: &SourceMapJson) -> (Value, Value, String) {
    let text = serde_json::to_string(j).unwrap();
    let v: Value = serde_json::from_str(&text).unwrap_or(Value::Null);
    let mut extra = vec![];
    let doc = abstract_doc(&v, &mut extra);
    (doc, Value::Array(extra), text)
}

/// The document with one member changed.
fn hurt_doc(v: &mut Value, hurt: &Value) {
    let member = s(hurt, "member");
    let sec = hurt["sec"].as_u64().unwrap() as usize;
    let mut at = v;
    if sec > 0 {
        at = &mut at["sections"][sec - 1];
        match member {
            "offset" | "map" | "url" => (),
            "line" | "column" => at = &mut at["offset"],
            _ => at = &mut at["map"],
        }
    }
    let x = match s(hurt, "kind") {
        "drop" => {
            at.as_object_mut().unwrap().remove(member);
            return;
        }
        "null" => Value::Null,
        "string" => json!("3"),
        "number" => json!(3),
        "float" => json!(2.5),
        "big" => json!(1u64 << 40),
        "bool" => json!(true),
        "array" => json!([]),
        "object" => json!({}),
        _ => json!([{}]),
    };
    at.as_object_mut().unwrap().insert(member.into(), x);
}

/// The document's text with its members in the given order (those not named last); "x_..." are members of no meaning.
fn ordered(v: &Value, order: &[Value], fmt: i64) -> String {
    let o = v.as_object().unwrap();
    let mut parts: Vec<String> = vec![];
    for k in order.iter().map(|k| k.as_str().unwrap()) {
        if let Some(x) = o.get(k) {
            parts.push(format!("{}: {}", json!(k), x));
        } else if k.starts_with("x_") {
            // x_0, x_1, ... as they are, others without the prefix: names close to a member's
            let name = if k[2..].parse::<u32>().is_ok() { k } else { &k[2..] };
            parts.push(format!("{}: {{\"version\": [null, {{}}], \"sections\": 7}}", json!(name)));
        }
    }
    if parts.is_empty() {
        return json_text(v, fmt);
    }
    for (k, x) in o.iter().filter(|(k, _)| !order.contains(&json!(k))) {
        parts.push(format!("{}: {}", json!(k), x));
    }
    format!("{{{}}}", parts.join(", "))
}

// ----------------------------------------------------------------- operations

/// What the accessors of `Consumer` say: "basic", "indexed", "none", "panic".
fn views(c: &mut Consumer) -> Value {
    fn ran(f: impl FnOnce() -> bool) -> &'static str {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(true) => "yes",
            Ok(false) => "no",
            Err(_) => "panic",
        }
    }
    json!([
        ran(|| { c.as_basic_consumer().get_sources(); true }),
        ran(|| { c.as_basic_consumer_mut().get_sources(); true }),
        ran(|| c.try_as_basic_consumer().is_some()),
        ran(|| c.try_as_basic_consumer_mut().is_some()),
        ran(|| { c.as_indexed_consumer().get_sources(); true }),
        ran(|| { c.as_indexed_consumer_mut().get_sources(); true }),
        ran(|| c.try_as_indexed_consumer().is_some()),
        ran(|| c.try_as_indexed_consumer_mut().is_some()),
    ])
}

fn kind_and_sources(o: &Obj) -> Value {
    match o {
        Obj::Basic(c) => json!({"kind": "basic", "sources": strs(&c.get_sources())}),
        Obj::Indexed(c) => json!({"kind": "indexed", "sources": strs(&c.get_sources())}),
        _ => json!({"kind": "other", "sources": []}),
    }
}

fn from_text(text: &str, url: Option<&str>, ctor: &str, indexed: bool) -> Result<Obj, String> {
    match (ctor, indexed) {
        ("create", _) => match create_consumer(text, url) {
            Ok(Consumer::BasicConsumer(c)) => Ok(Obj::Basic(c)),
            Ok(Consumer::IndexedConsumer(c)) => Ok(Obj::Indexed(c)),
            Err(e) => Err(e.to_string()),
        },
        ("new", false) => Ok(Obj::Basic(BasicConsumer::new(text, url))),
        ("new", true) => Ok(Obj::Indexed(IndexedConsumer::new(text, url))),
        ("json", false) => {
            let j: SourceMapJson = serde_json::from_str(text).map_err(|e| e.to_string())?;
            Ok(Obj::Basic(BasicConsumer::from_source_map_json(j, url)))
        }
        ("json", true) => {
            let j: SourceMapJson = serde_json::from_str(text).map_err(|e| e.to_string())?;
            Ok(Obj::Indexed(IndexedConsumer::from_source_map_json(j, url)))
        }
        ("consume", false) => {
            let mut out = None;
            BasicConsumer::consume(text.to_string(), url.unwrap_or("").to_string(), |c| {
                out = Some(c)
            });
            out.map(Obj::Basic).ok_or_else(|| "callback not called".into())
        }
        ("consume", true) => {
            let mut out = None;
            IndexedConsumer::consume(text.to_string(), url.unwrap_or("").to_string(), |c| {
                out = Some(c)
            });
            out.map(Obj::Indexed).ok_or_else(|| "callback not called".into())
        }
        _ => {
            eprintln!("driver: unknown constructor {}", ctor);
            std::process::exit(BAD_SCENARIO)
        }
    }
}

struct Exec {
    objs: HashMap<String, Obj>,
}

impl Exec {
    fn obj<'a>(&'a mut self, op: &Value) -> &'a mut Obj {
        let h = s(op, "h");
        match self.objs.get_mut(h) {
            Some(o) => o,
            // a constructor panicked earlier; not an event of the crate
            None => panic!("driver: no object {}", h),
        }
    }
    fn gen<'a>(&'a mut self, op: &Value) -> &'a mut SourceMapGenerator {
        match self.obj(op) {
            Obj::Gen(g) => g,
            _ => bad(op, "h"),
        }
    }

    /// "srci": the k-th source the consumer itself reports.
    fn name_source(&self, op: &mut Value) {
        let o = op.as_object_mut().unwrap();
        if let Some(k) = o.remove("srci") {
            let list = match self.objs.get(o["h"].as_str().unwrap_or("")) {
                Some(Obj::Basic(c)) => c.get_sources(),
                Some(Obj::Indexed(c)) => c.get_sources(),
                _ => vec![],
            };
            let name = list.get(k.as_u64().unwrap() as usize).cloned();
            o.insert("src".into(), json!(name.unwrap_or_else(|| "<no such source>".into())));
        }
    }

    fn perform(&mut self, op: &Value) -> Value {
        match catch_unwind(AssertUnwindSafe(|| self.run(op))) {
            Ok(v) => json!({"k": "ok", "v": v}),
            Err(p) => {
                let msg = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|m| m.to_string()))
                    .unwrap_or_default();
                json!({"k": "panic", "msg": msg})
            }
        }
    }

    fn run(&mut self, op: &Value) -> Value {
        match s(op, "op") {
            // ------------------------------------------------------ generator
            "gen_new" => {
                let g = SourceMapGenerator::new(opt_str(op, "file"), opt_str(op, "root"), b(op, "skip"));
                self.objs.insert(s(op, "h").into(), Obj::Gen(g));
                json!(true)
            }
            "gen_add" => {
                self.gen(op).add_mapping(mapping_arg(&op["m"]));
                json!(true)
            }
            "gen_fill" => {
                let (n, per, pool, npool) = (i(op, "n"), i(op, "per"), i(op, "pool"), i(op, "npool"));
                for k in 0..n {
                    let m = Mapping {
                        generated: Position { line: 1 + k / per, column: 3 * (k % per) },
                        original: Some(Position { line: 1 + k, column: k % 7 }),
                        source: Some(format!("s{}", k % pool)),
                        name: if npool > 0 { Some(format!("n{}", k % npool)) } else { None },
                        last_generated_column: None,
                    };
                    self.gen(op).add_mapping(m);
                }
                json!(true)
            }
            "gen_content" => {
                self.gen(op).set_source_content(s(op, "src").into(), opt_str(op, "c"));
                json!(true)
            }
            "gen_json" => {
                let text = self.gen(op).as_string();
                let v: Value = serde_json::from_str(&text).unwrap_or(Value::Null);
                let empty = vec![];
                let arr = |k: &str| v[k].as_array().unwrap_or(&empty).clone();
                let str_opt = |k: &str| opt(v.get(k).map(|x| json!(x.as_str().unwrap_or("<not a string>"))));
                let mut keys: Vec<&String> = v.as_object().map(|o| o.keys().collect()).unwrap_or_default();
                keys.sort();
                json!({
                    "text": text,
                    "valid": v.is_object(),
                    "keys": keys,
                    "version": int(v["version"].as_i64().unwrap_or(-1)),
                    "sources": arr("sources"), "names": arr("names"),
                    "m": codes(v["mappings"].as_str().unwrap_or("?")),
                    "file": str_opt("file"), "root": str_opt("sourceRoot"),
                    "contents": opt(v.get("sourcesContent").map(|c| Value::Array(
                        c.as_array().unwrap_or(&empty).iter()
                            .map(|x| opt(x.as_str().map(|t| json!(t)))).collect()))),
                })
            }
            // ------------------------------------------------------ consumers
            "new" => {
                let h = s(op, "h").to_string();
                self.objs.remove(&h);
                let doc = &op["doc"];
                let url = opt_str(op, "url");
                let indexed = opt_arg(doc, "sections").is_some();
                let text = doc_text(doc, op["fmt"].as_i64().unwrap_or(0));
                match from_text(&text, url.as_deref(), s(op, "ctor"), indexed) {
                    Ok(o) => {
                        let v = kind_and_sources(&o);
                        self.objs.insert(h, o);
                        v
                    }
                    Err(_) => json!({"kind": "err", "sources": []}),
                }
            }
            "views" => {
                let url = opt_str(op, "url");
                match create_consumer(&doc_text(&op["doc"], 0), url.as_deref()) {
                    Ok(mut c) => views(&mut c),
                    Err(_) => json!([]),
                }
            }
            "rewrite" => {
                let mut v = doc_json(&op["doc"]);
                if let Some(h) = opt_arg(op, "hurt") {
                    hurt_doc(&mut v, h);
                }
                let text = ordered(&v, op["order"].as_array().unwrap(), i(op, "fmt") as i64);
                let made = match catch_unwind(|| create_consumer(&text, None)) {
                    Ok(Ok(_)) => "made",
                    Ok(Err(_)) => "err",
                    Err(_) => "panic",
                };
                match serde_json::from_str::<SourceMapJson>(&text) {
                    Err(_) => json!({"kind": "err", "doc": [], "again": [], "extra": [], "made": made}),
                    Ok(j) => {
                        let copy = j.clone();
                        let (doc, extra, text) = written(&j);
                        drop(j);
                        let again = serde_json::from_str::<SourceMapJson>(&text).map(|x| written(&x).0);
                        json!({"kind": "doc", "doc": [doc], "extra": extra, "made": made,
                               "again": [written(&copy).0, again.unwrap_or(json!("<refused>"))]})
                    }
                }
            }
            "held" => {
                let (doc, extra, _) = match self.obj(op) {
                    Obj::Basic(c) => written(&c.source_map),
                    Obj::Indexed(c) => written(&c.source_map),
                    _ => bad(op, "h"),
                };
                json!({"doc": doc, "extra": extra})
            }
            "new_gen" => {
                // consumer from a generator: directly, or through its text
                let h = s(op, "h").to_string();
                self.objs.remove(&h);
                let url = opt_str(op, "url");
                let ctor = s(op, "ctor").to_string();
                let g = match self.objs.get_mut(s(op, "g")) {
                    Some(Obj::Gen(g)) => g,
                    _ => panic!("driver: no generator"),
                };
                let o = if ctor == "gen" {
                    Ok(Obj::Basic(BasicConsumer::from_source_map(g, url.as_deref())))
                } else {
                    from_text(&g.as_string(), url.as_deref(), &ctor, false)
                };
                match o {
                    Ok(o) => {
                        let v = kind_and_sources(&o);
                        self.objs.insert(h, o);
                        v
                    }
                    Err(_) => json!({"kind": "err", "sources": []}),
                }
            }
            "new_raw" => {
                let h = s(op, "h").to_string();
                self.objs.remove(&h);
                match create_consumer(s(op, "text"), opt_str(op, "url").as_deref()) {
                    Ok(Consumer::BasicConsumer(c)) => {
                        self.objs.insert(h, Obj::Basic(c));
                        json!({"kind": "basic", "sources": []})
                    }
                    Ok(Consumer::IndexedConsumer(c)) => {
                        self.objs.insert(h, Obj::Indexed(c));
                        json!({"kind": "indexed", "sources": []})
                    }
                    Err(_) => json!({"kind": "err", "sources": []}),
                }
            }
            "build" => {
                // the same document built many times on pools of different sizes
                let doc = &op["doc"];
                let url = opt_str(op, "url");
                let text = doc_json(doc).to_string();
                let ctor = s(op, "ctor").to_string();
                let mut seen: Vec<Value> = vec![];
                for t in op["threads"].as_array().unwrap() {
                    let pool = rayon::ThreadPoolBuilder::new()
                        .num_threads(t.as_u64().unwrap() as usize)
                        .build()
                        .unwrap();
                    for _ in 0..i(op, "reps") {
                        let v = pool.install(|| {
                            let r = catch_unwind(AssertUnwindSafe(|| {
                                from_text(&text, url.as_deref(), &ctor, true).map(|o| kind_and_sources(&o))
                            }));
                            match r {
                                Ok(Ok(v)) => json!({"acc": true, "kind": v["kind"], "sources": v["sources"]}),
                                Ok(Err(_)) => json!({"acc": false, "kind": "err", "sources": []}),
                                Err(_) => json!({"acc": false, "kind": "panic", "sources": []}),
                            }
                        });
                        if !seen.contains(&v) {
                            seen.push(v);
                        }
                    }
                }
                Value::Array(seen)
            }
            "orig" => {
                let p = Position {
                    line: i(op, "line"),
                    column: i(op, "col"),
                };
                let r = match self.obj(op) {
                    Obj::Basic(c) => c.original_position_for(p, bias(op)),
                    Obj::Indexed(c) => c.original_position_for(p, bias(op)),
                    _ => bad(op, "h"),
                };
                opt(r.as_ref().map(mapping_value))
            }
            "genpos" => {
                let (l, c, bi) = (i(op, "line"), i(op, "col"), bias(op));
                match self.obj(op) {
                    Obj::Basic(x) => opt(x.generated_position_for(s(op, "src"), l, c, bi).as_ref().map(mapping_value)),
                    Obj::Indexed(x) => opt(x
                        .generated_position_for(s(op, "src"), l, c, bi)
                        .map(|p| json!({"gl": p.line, "gc": p.column}))),
                    _ => bad(op, "h"),
                }
            }
            "allpos" => {
                let l = i(op, "line");
                let c = opt_arg(op, "col").map(|c| c.as_i64().unwrap() as i32);
                let r = match self.obj(op) {
                    Obj::Basic(x) => x.all_generated_position_for(s(op, "src"), l, c),
                    Obj::Indexed(x) => x.all_generated_position_for(s(op, "src"), l, c),
                    _ => bad(op, "h"),
                };
                Value::Array(r.iter().map(raw_value).collect())
            }
            "each" | "each_break" => {
                let ord = if s(op, "ord") == "gen" {
                    IterOrd::GeneratedOrd
                } else {
                    IterOrd::OriginalOrd
                };
                let out = RefCell::new(vec![]);
                // a callback that gives up after some mappings
                let stop = op.get("stop").and_then(|x| x.as_u64());
                let f = |m: &source_map_mappings::Mapping| {
                    if stop == Some(out.borrow().len() as u64) {
                        panic!("callback");
                    }
                    out.borrow_mut().push(raw_value(m))
                };
                match self.obj(op) {
                    Obj::Basic(x) => x.each_mapping(f, ord),
                    Obj::Indexed(x) => x.each_mapping(f, ord),
                    _ => bad(op, "h"),
                }
                Value::Array(out.into_inner())
            }
            "spans" => {
                match self.obj(op) {
                    Obj::Basic(x) => x.compute_column_spans(),
                    Obj::Indexed(x) => x.computed_column_spans(),
                    _ => bad(op, "h"),
                }
                json!(true)
            }
            "sources" => match self.obj(op) {
                Obj::Basic(x) => strs(&x.get_sources()),
                Obj::Indexed(x) => strs(&x.get_sources()),
                _ => bad(op, "h"),
            },
            "content" => {
                let p = opt_arg(op, "panic").map(|v| v.as_bool().unwrap());
                let r = match self.obj(op) {
                    Obj::Basic(x) => x.source_content_for(s(op, "src"), p),
                    Obj::Indexed(x) => x.source_content_for(s(op, "src"), p),
                    _ => bad(op, "h"),
                };
                opt(r.map(|t| json!(t)))
            }
            "hasall" => match self.obj(op) {
                Obj::Basic(x) => json!(x.has_contents_of_all_sources()),
                Obj::Indexed(x) => json!(x.has_contents_of_all_sources()),
                _ => bad(op, "h"),
            },
            // ----------------------------------------------------------- urls
            "join" => json!(util::join(s(op, "a"), s(op, "b"))),
            "relative" => json!(util::relative(s(op, "a").into(), s(op, "b").into())),
            "rejoin" => {
                let r = util::relative(s(op, "a").into(), s(op, "b").into());
                json!({"rel": r.clone(), "back": util::join(s(op, "a"), &r)})
            }
            "csu" => json!(util::compute_source_url(
                opt_str(op, "root").as_deref(),
                s(op, "src"),
                opt_str(op, "url").as_deref()
            )),
            // ------------------------------------------------------ functions
            "vlq" => codes(&base64vlq_encode(i(op, "v"))),
            "b64" => opt(base64::encode(i(op, "v")).map(|c| json!(c as u32))),
            "enc32" => enc32::sweep(op),
            "search" => {
                let hay: Vec<i32> = op["hay"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap() as i32).collect();
                let cmp = |a: &i32, b: &i32| if a < b { -1 } else { (a > b) as i32 };
                let bi = match i(op, "bias") {
                    0 => None,
                    x => Some(x),
                };
                json!(binary_search::search(i(op, "needle"), &hay, cmp, cmp, bi))
            }
            "strcmp" => json!(util::strcmp(opt_str(op, "a"), opt_str(op, "b")).signum()),
            "cmp" => {
                let r = util::compare_by_generated_pos_inflated(&mapping_arg(&op["a"]), &mapping_arg(&op["b"]));
                json!(r.signum())
            }
            // ----------------------------------------------------- containers
            "aset_new" => {
                self.objs.insert(s(op, "h").into(), Obj::ASet(ArraySet::new()));
                json!(true)
            }
            "aset_from" => {
                let v: Vec<String> = op["vals"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
                self.objs.insert(s(op, "h").into(), Obj::ASet(ArraySet::from_array(v, b(op, "dup"))));
                json!(true)
            }
            "aset_clone" => {
                let c = match self.obj(op) {
                    Obj::ASet(a) => a.clone(),
                    _ => bad(op, "h"),
                };
                self.objs.insert(s(op, "to").into(), Obj::ASet(c));
                json!(true)
            }
            "aset_fill" => {
                let (n, x, dup) = (i(op, "n"), s(op, "x").to_string(), b(op, "dup"));
                let a = match self.obj(op) {
                    Obj::ASet(a) => a,
                    _ => bad(op, "h"),
                };
                for k in 0..n {
                    a.add(format!("{}{}", x, k), dup);
                }
                json!(true)
            }
            "aset_add" | "aset_has" | "aset_index" | "aset_at" | "aset_size" | "aset_list" => {
                let a = match self.obj(op) {
                    Obj::ASet(a) => a,
                    _ => bad(op, "h"),
                };
                match s(op, "op") {
                    "aset_add" => {
                        a.add(s(op, "x").into(), b(op, "dup"));
                        json!(true)
                    }
                    "aset_has" => json!(a.has(s(op, "x").into())),
                    "aset_index" => opt(a.index_of(s(op, "x").into()).map(|n| int(n as i64))),
                    "aset_at" => opt(a.at(i(op, "idx")).map(|x| json!(x))),
                    "aset_size" => int(a.size() as i64),
                    _ => strs(&a.to_vec()),
                }
            }
            "mlist_new" => {
                self.objs.insert(s(op, "h").into(), Obj::MList(MappingList::new()));
                json!(true)
            }
            "mlist_add" | "mlist_list" | "mlist_iter" => {
                let l = match self.obj(op) {
                    Obj::MList(l) => l,
                    _ => bad(op, "h"),
                };
                match s(op, "op") {
                    "mlist_add" => {
                        l.add(mapping_arg(&op["m"]));
                        json!(true)
                    }
                    "mlist_list" => Value::Array(l.to_array().iter().map(mapping_value).collect()),
                    _ => {
                        let out = RefCell::new(vec![]);
                        l.unsorted_for_each(|m, ix| {
                            out.borrow_mut().push(json!({"ix": int(ix as i64), "m": mapping_value(m)}))
                        });
                        Value::Array(out.into_inner())
                    }
                }
            }
            x => {
                eprintln!("driver: unknown op {}", x);
                std::process::exit(BAD_SCENARIO)
            }
        }
    }
}

// ----------------------------------------------------------------------- main

struct Current {
    event: Option<(Value, Instant)>,
    out: File,
}

fn emit(out: &mut File, op: &Value, r: Value) {
    let mut e = op.clone();
    e.as_object_mut().unwrap().insert("r".into(), r);
    let mut line = e.to_string();
    line.push('\n');
    out.write_all(line.as_bytes()).unwrap();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let scen = &args[1];
    let out = File::options().create(true).append(true).open(&args[2]).unwrap();
    let skip: usize = args[3].parse().unwrap(); // scenarios already done
    let limit: u64 = args[4].parse().unwrap(); // seconds per operation
    std::panic::set_hook(Box::new(|_| {}));

    let cur = Arc::new(Mutex::new(Current { event: None, out }));
    let watched = cur.clone();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let mut c = watched.lock().unwrap();
        if let Some((e, t)) = c.event.take() {
            if t.elapsed() > Duration::from_secs(limit) {
                emit(&mut c.out, &e, json!({"k": "hang"}));
                std::process::exit(HUNG);
            }
            c.event = Some((e, t));
        }
    });

    for line in BufReader::new(File::open(scen).unwrap()).lines().skip(skip) {
        let line = line.unwrap();
        let scenario: Value = serde_json::from_str(&line).unwrap();
        let ops: Vec<Value> = scenario["ops"]
            .as_array()
            .unwrap()
            .iter()
            .enumerate()
            .map(|(n, op)| {
                let mut op = op.clone();
                let o = op.as_object_mut().unwrap();
                o.insert("sid".into(), scenario["sid"].clone());
                o.insert("i".into(), json!(n + 1));
                op
            })
            .collect();
        // operations with a thread number "t" run on that many threads at once, each with objects
        // of its own; their events are written afterwards in the order of the history
        if ops.iter().any(|o| o["t"].is_u64()) {
            cur.lock().unwrap().event = Some((ops[0].clone(), Instant::now()));
            let events = together(&ops);
            let mut c = cur.lock().unwrap();
            c.event = None;
            for (op, r) in events {
                emit(&mut c.out, &op, r);
            }
            continue;
        }
        let mut exec = Exec { objs: HashMap::new() };
        for mut op in ops {
            exec.name_source(&mut op);
            cur.lock().unwrap().event = Some((op.clone(), Instant::now()));
            let r = exec.perform(&op);
            let mut c = cur.lock().unwrap();
            c.event = None;
            emit(&mut c.out, &op, r);
        }
    }
    std::process::exit(FINISHED)
}

fn together(ops: &[Value]) -> Vec<(Value, Value)> {
    let mut threads: Vec<u64> = ops.iter().map(|o| o["t"].as_u64().unwrap()).collect();
    threads.sort();
    threads.dedup();
    let gate = std::sync::Barrier::new(threads.len());
    let mut events: Vec<(Value, Value)> = std::thread::scope(|scope| {
        let gate = &gate;
        let all: Vec<_> = threads
            .into_iter()
            .map(|t| {
                scope.spawn(move || {
                    let mut exec = Exec { objs: HashMap::new() };
                    let mut out = vec![];
                    gate.wait();
                    for op in ops.iter().filter(|o| o["t"].as_u64() == Some(t)) {
                        let mut op = op.clone();
                        exec.name_source(&mut op);
                        let r = exec.perform(&op);
                        out.push((op, r));
                    }
                    out
                })
            })
            .collect();
        all.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    events.sort_by_key(|(o, _)| o["i"].as_u64());
    events
}
