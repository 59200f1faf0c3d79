//! Independent model of editor text: a sequence of Unicode scalar values, lines end at '\n'.
use serde_json::{json, Value};

pub type Text = Vec<char>;

pub fn text_of(s: &str) -> Text {
    s.chars().collect()
}
pub fn string_of(t: &[char]) -> String {
    t.iter().collect()
}

/// (line, character) of an offset.
pub fn pos_of(t: &[char], off: usize) -> (usize, usize) {
    let mut line = 0;
    let mut col = 0;
    for c in &t[..off] {
        if *c == '\n' {
            line += 1;
            col = 0;
        } else {
            col += 1;
        }
    }
    (line, col)
}

/// Offset of (line, character); Err if there is no such position.
pub fn offset_of(t: &[char], line: usize, col: usize) -> Result<usize, String> {
    let mut l = 0;
    let mut start = 0;
    if line > 0 {
        let mut found = false;
        for (i, c) in t.iter().enumerate() {
            if *c == '\n' {
                l += 1;
                if l == line {
                    start = i + 1;
                    found = true;
                    break;
                }
            }
        }
        if !found {
            return Err(format!("line {line} does not exist (last line is {l})"));
        }
    }
    let len = t[start..].iter().take_while(|c| **c != '\n').count();
    if col > len {
        return Err(format!("line {line} has {len} characters, position says {col}"));
    }
    Ok(start + col)
}

pub fn pos_json(t: &[char], off: usize) -> Value {
    let (line, character) = pos_of(t, off);
    json!({"line": line, "character": character})
}

/// One replacement, as offsets into the content before the edit.
#[derive(Clone, Debug)]
pub struct Rep {
    pub start: usize,
    pub end: usize,
    pub text: Vec<char>,
}

pub fn rep_json(t: &[char], r: &Rep) -> Value {
    json!({"range": {"start": pos_json(t, r.start), "end": pos_json(t, r.end)},
           "replacement": string_of(&r.text)})
}

/// Reads a delta from a daemon message; all ranges refer to `t`.
pub fn parse_delta(t: &[char], delta: &Value) -> Result<Vec<Rep>, String> {
    let mut out = vec![];
    for op in delta.as_array().ok_or("delta is not an array")? {
        let get = |which: &str, what: &str| -> Result<usize, String> {
            op["range"][which][what]
                .as_u64()
                .map(|x| x as usize)
                .ok_or_else(|| format!("missing range.{which}.{what}"))
        };
        let a = offset_of(t, get("start", "line")?, get("start", "character")?)?;
        let b = offset_of(t, get("end", "line")?, get("end", "character")?)?;
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        let text = text_of(op["replacement"].as_str().ok_or("missing replacement")?);
        out.push(Rep { start: a, end: b, text });
    }
    Ok(out)
}

/// Applies replacements that all refer to the content before the edit.
/// Replacements must not overlap; inserts at the same place keep their order.
pub fn apply(t: &[char], reps: &[Rep]) -> Result<Text, String> {
    let mut idx: Vec<usize> = (0..reps.len()).collect();
    // An insertion at a position goes before a deletion that starts there.
    idx.sort_by_key(|i| (reps[*i].start, reps[*i].end != reps[*i].start, *i));
    let mut out = Vec::with_capacity(t.len());
    let mut at = 0;
    for i in idx {
        let r = &reps[i];
        if r.start < at {
            return Err("ranges of one message overlap".into());
        }
        if r.end > t.len() {
            return Err("range beyond the end".into());
        }
        out.extend_from_slice(&t[at..r.start]);
        out.extend_from_slice(&r.text);
        at = r.end;
    }
    out.extend_from_slice(&t[at..]);
    Ok(out)
}
