use imagequant::RGBA;
pub fn s(x: &str) -> String {
    let mut o = String::from("\"");
    for c in x.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) }
    }
    o.push('"'); o
}
pub fn col(c: RGBA) -> String { format!("[{},{},{},{}]", c.r, c.g, c.b, c.a) }
pub fn cols(c: &[RGBA]) -> String { list(c.iter().map(|c| col(*c))) }
pub fn list(i: impl Iterator<Item = String>) -> String { format!("[{}]", i.collect::<Vec<_>>().join(",")) }
/// fixed-point with 4 decimals; -1: none, -2: not a number or infinite
pub fn e4(v: Option<f64>) -> i64 {
    match v { None => -1, Some(v) if !v.is_finite() => -2, Some(v) => ((v * 1e4).round() as i64).clamp(-3, 2_000_000_000) }
}
pub fn digest(b: &[u8]) -> String {
    let (mut h, mut g) = (0xcbf29ce484222325u64, 0x9E3779B97F4A7C15u64);
    for &x in b { h = (h ^ x as u64).wrapping_mul(0x100000001b3); g = (g.rotate_left(7) ^ x as u64).wrapping_mul(0xff51afd7ed558ccd); }
    format!("{h:016x}{g:016x}")
}
