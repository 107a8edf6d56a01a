//! minimal JSON writing (and reading back of replay files)
pub fn esc(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r += "\\\"",
            '\\' => r += "\\\\",
            '\n' => r += "\\n",
            '\r' => r += "\\r",
            '\t' => r += "\\t",
            c if (c as u32) < 0x20 => r += &format!("\\u{:04x}", c as u32),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

/// value of a `"key":[1,2,3]` member
pub fn read_u64_array(text: &str, key: &str) -> Option<Vec<u64>> {
    let pat = format!("\"{}\":", key);
    let i = text.find(&pat)? + pat.len();
    let rest = text[i..].trim_start();
    let rest = rest.strip_prefix('[')?;
    let end = rest.find(']')?;
    Some(rest[..end].split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect())
}

/// value of a `"key":"..."` member written by `esc` without escapes in it
pub fn read_str(text: &str, key: &str) -> Option<String> {
    let pat = format!("\"{}\":", key);
    let i = text.find(&pat)? + pat.len();
    let rest = text[i..].trim_start().strip_prefix('"')?;
    let end = rest.find('"')?;
    Some(rest[..end].to_string())
}

pub fn read_u64(text: &str, key: &str) -> Option<u64> {
    let pat = format!("\"{}\":", key);
    let i = text.find(&pat)? + pat.len();
    let rest = text[i..].trim_start();
    let end = rest.find(|c: char| !c.is_ascii_digit()).unwrap_or(rest.len());
    rest[..end].parse().ok()
}
