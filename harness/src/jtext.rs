//! Exact JSON text <-> value. serde_json's own parser may be off by one ulp for floats (it is built
//! without `float_roundtrip`), so floats are parsed with the standard library here.
use serde_json::{Map, Number, Value};

pub fn text(v: &Value) -> String {
    serde_json::to_string(v).unwrap()
}

pub fn parse(s: &str) -> Value {
    let b = s.as_bytes();
    let mut i = 0;
    let v = val(b, &mut i);
    assert!(i == b.len(), "trailing JSON text in {s}");
    v
}
fn lit(b: &[u8], i: &mut usize, s: &str, v: Value) -> Value {
    assert!(b[*i..].starts_with(s.as_bytes()));
    *i += s.len();
    v
}
fn string(b: &[u8], i: &mut usize) -> String {
    let st = *i;
    *i += 1;
    while b[*i] != b'"' {
        if b[*i] == b'\\' {
            *i += 1;
        }
        *i += 1;
    }
    *i += 1;
    serde_json::from_slice(&b[st..*i]).unwrap()
}
fn val(b: &[u8], i: &mut usize) -> Value {
    match b[*i] {
        b'n' => lit(b, i, "null", Value::Null),
        b't' => lit(b, i, "true", Value::Bool(true)),
        b'f' => lit(b, i, "false", Value::Bool(false)),
        b'"' => Value::String(string(b, i)),
        b'[' => {
            *i += 1;
            let mut a = vec![];
            while b[*i] != b']' {
                a.push(val(b, i));
                if b[*i] == b',' {
                    *i += 1;
                }
            }
            *i += 1;
            Value::Array(a)
        }
        b'{' => {
            *i += 1;
            let mut m = Map::new();
            while b[*i] != b'}' {
                let k = string(b, i);
                assert!(b[*i] == b':');
                *i += 1;
                m.insert(k, val(b, i));
                if b[*i] == b',' {
                    *i += 1;
                }
            }
            *i += 1;
            Value::Object(m)
        }
        _ => {
            let st = *i;
            while *i < b.len() && matches!(b[*i], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                *i += 1;
            }
            let t = std::str::from_utf8(&b[st..*i]).unwrap();
            if t.contains(['.', 'e', 'E']) {
                Value::Number(Number::from_f64(t.parse::<f64>().unwrap()).unwrap())
            } else if t.starts_with('-') {
                Value::Number(Number::from(t.parse::<i64>().unwrap()))
            } else {
                Value::Number(Number::from(t.parse::<u64>().unwrap()))
            }
        }
    }
}
