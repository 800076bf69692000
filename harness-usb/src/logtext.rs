//! The texts of Log.tla and what is made of the frames they arrive in (shared by both harness crates).
use postcard_rpc::header::{VarHeader, VarSeq};
use postcard_rpc::standard_icd::LoggingTopic;
use postcard_rpc::{Key, Topic};
use serde_json::Value;

pub fn text(i: usize, n: usize, pat: &[usize]) -> String {
    (0..n)
        .map(|j| {
            let x = ((i * 7 + j * 3 + j / 26) % 23) as u32;
            let base = match pat[j % pat.len()] {
                1 => 'a' as u32,
                2 => 0xE0,
                3 => 0x3042,
                _ => 0x1F600,
            };
            char::from_u32(base + x).unwrap()
        })
        .collect()
}
pub fn pat(e: &Value) -> Vec<usize> {
    e["pat"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect()
}
/// Written in pieces of p characters (0: all at once)
pub struct Pieces(pub String, pub usize);
impl std::fmt::Display for Pieces {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.1 == 0 {
            return f.write_str(&self.0);
        }
        let cs: Vec<char> = self.0.chars().collect();
        for c in cs.chunks(self.1) {
            f.write_str(&c.iter().collect::<String>())?;
        }
        Ok(())
    }
}
pub fn folded(k: Key, w: usize) -> Vec<u8> {
    k.to_bytes().chunks(8 / w).map(|c| c.iter().fold(0u8, |a, x| a ^ x)).collect()
}
/// Is this frame the text, and as how much of it? (shape, characters, number)
pub fn arrived(frame: &[u8], w: usize, want: &str) -> (&'static str, usize, u64) {
    let bad = ("bad", 0, 0);
    let sw = match frame.first() {
        Some(b) if (b >> 6) == w.trailing_zeros() as u8 && b & 0xf == 0 => 1usize << ((b >> 4) & 3),
        _ => return bad,
    };
    if sw > 4 || frame.len() < 1 + w + sw || frame[1..1 + w] != folded(LoggingTopic::TOPIC_KEY, w)[..] {
        return bad;
    }
    let mut seq = 0u64;
    for b in frame[1 + w..1 + w + sw].iter().rev() {
        seq = seq << 8 | *b as u64;
    }
    // the same, the way the client reads it
    let Some((h, body)) = VarHeader::take_from_slice(frame) else { return bad };
    let read = match h.seq_no {
        VarSeq::Seq1(n) => n as u64,
        VarSeq::Seq2(n) => n as u64,
        VarSeq::Seq4(n) => n as u64,
    };
    if read != seq {
        return bad;
    }
    let Ok((s, [])) = postcard::take_from_bytes::<String>(body) else { return bad };
    if s == want {
        return ("full", want.chars().count(), seq);
    }
    let (p, sh) = match s.strip_suffix("...") {
        Some(p) => (p, "cut"),
        None => (&s[..], "bare"),
    };
    if want.starts_with(p) {
        (sh, p.chars().count(), seq)
    } else {
        bad
    }
}
