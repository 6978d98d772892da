//! What the parties received, parsed.
use crate::world::*;
use serde_json::Value;

#[derive(Clone, Debug)]
pub enum Msg {
    Resp { id: Value, result: Option<Value>, error: Option<Value> },
    Notif { method: String, params: Value },
    Bad(String),
}
#[derive(Clone, Debug)]
pub struct M {
    pub at: u64,
    pub msg: Msg,
}

pub fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    if s.chars().count() > 200 {
        format!("{:?}...", s.chars().take(200).collect::<String>())
    } else {
        format!("{:?}", s)
    }
}

pub fn parse(b: &[u8]) -> Msg {
    let v: Value = match serde_json::from_slice(b) {
        Ok(v) => v,
        Err(e) => return Msg::Bad(format!("not JSON ({}): {}", e, show(b))),
    };
    let o = match v {
        Value::Object(o) => o,
        _ => return Msg::Bad(format!("not an object: {}", show(b))),
    };
    if o.get("jsonrpc") != Some(&Value::String("2.0".into())) {
        return Msg::Bad(format!("not JSON-RPC 2.0: {}", show(b)));
    }
    if let Some(m) = o.get("method") {
        if o.contains_key("id") || o.contains_key("result") || o.contains_key("error") {
            return Msg::Bad(format!("neither notification nor response: {}", show(b)));
        }
        return match m.as_str() {
            Some(m) => Msg::Notif { method: m.into(), params: o.get("params").cloned().unwrap_or(Value::Null) },
            None => Msg::Bad(format!("method is not a string: {}", show(b))),
        };
    }
    let id = match o.get("id") {
        Some(i) => i.clone(),
        None => return Msg::Bad(format!("neither notification nor response: {}", show(b))),
    };
    let result = o.get("result").cloned();
    let error = o.get("error").filter(|e| !e.is_null()).cloned();
    if error.is_some() && result.as_ref().map_or(false, |r| !r.is_null()) {
        return Msg::Bad(format!("response with result and error: {}", show(b)));
    }
    if error.is_none() && !o.contains_key("result") {
        return Msg::Bad(format!("response with neither result nor error: {}", show(b)));
    }
    Msg::Resp { id, result, error }
}

pub fn received(c: &Client) -> Vec<M> {
    c.lines().iter().map(|l| M { at: l.step, msg: parse(&l.bytes) }).collect()
}

/// Lines of a byte stream: complete ones and the unterminated rest.
pub fn split_lines(b: &[u8]) -> (Vec<&[u8]>, &[u8]) {
    let mut v = Vec::new();
    let mut rest = b;
    while let Some(i) = rest.iter().position(|x| *x == b'\n') {
        v.push(&rest[..i]);
        rest = &rest[i + 1..];
    }
    (v, rest)
}

/// `{"jsonrpc":..}` request line without the newline
pub fn req(id: &Value, method: &str, params: Option<Value>) -> String {
    let mut o = serde_json::Map::new();
    o.insert("jsonrpc".into(), "2.0".into());
    o.insert("id".into(), id.clone());
    o.insert("method".into(), method.into());
    if let Some(p) = params {
        o.insert("params".into(), p);
    }
    Value::Object(o).to_string()
}
