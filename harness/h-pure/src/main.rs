//! The parts of the implementation that stand alone: line endings and the reload queue.
use hlib::{json, Value};
use stdext::line_endings::LineEndings;

#[allow(dead_code)]
#[path = "/repo/crates/aptos-language-server/src/op_queue.rs"]
mod op_queue;
use op_queue::OpQueue;

fn line_endings(v: &Value) -> Value {
    let s = v["s"].as_str().unwrap().to_owned();
    let (text, kind) = LineEndings::normalize(s);
    let utf8 = std::str::from_utf8(text.as_bytes()).is_ok();
    let back = kind.map(text.clone());
    let dos = LineEndings::Dos.map(text.clone());
    let unix = LineEndings::Unix.map(text.clone());
    json!({"text": text, "dos": kind == LineEndings::Dos, "back": back, "utf8": utf8, "as_dos": dos, "as_unix": unix})
}

fn op_queue(v: &Value) -> Value {
    let mut q: OpQueue<u64, u64> = OpQueue::default();
    let mut obs = vec![];
    for a in v["acts"].as_array().unwrap() {
        let mut got = Value::Null;
        match a["n"].as_str().unwrap() {
            "request" => q.request_op(a["c"].as_str().unwrap().to_owned(), a["a"].as_u64().unwrap()),
            "start" => {
                got = match q.should_start_op() {
                    Some((c, a)) => json!([c.to_string(), a]),
                    None => json!([]),
                }
            }
            "complete" => q.op_completed(a["r"].as_u64().unwrap()),
            x => panic!("unknown action {x}"),
        }
        obs.push(json!({"got": got, "req": q.op_requested(), "run": q.op_in_progress(), "last": q.last_op_result().copied().unwrap_or(0)}));
    }
    json!({ "obs": obs })
}

fn main() {
    hlib::serve(|v| match v["op"].as_str().unwrap() {
        "le" => line_endings(v),
        "opq" => op_queue(v),
        x => panic!("unknown op {x}"),
    });
}
