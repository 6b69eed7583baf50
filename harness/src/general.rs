//! C17 (shapes of codes) and C18 (the case of ASCII letters): statements about all encoders, evaluated on the crate alone.
use crate::gen::{Gen, Rng};
use crate::oracle as o;
use crate::props::*;
use crate::rt::*;
use crate::{real, Case};
use rphonetic::*;

const WHICH: &[&str] = &["C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C12", "C13"];
/// cfg: property, \u{3}, how the case is changed, \u{3}, its own cfg
pub fn case(g: &Gen, i: u64) -> Case { build(g, i, WHICH) }
pub fn case_shapes(g: &Gen, i: u64) -> Case { build(g, i, &WHICH[..WHICH.len() - 1]) }
fn build(g: &Gen, i: u64, which: &[&str]) -> Case {
    let (id, c) = crate::props::in_turn(which, g.seed, i);
    let mut r = Rng::new(g.seed ^ 0x18, i);
    Case { cfg: format!("{id}\u{3}{}\u{3}{}", ["u", "l", "i", "t", "r0", "r1", "r2", "r3"][r.below(8)], c.cfg), a: c.a, b: String::new() }
}
fn flip(how: &str, a: &str) -> String {
    let inv = |c: char| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
    match how {
        "u" => a.to_ascii_uppercase(),
        "l" => a.to_ascii_lowercase(),
        "i" => a.chars().map(inv).collect(),
        "t" => a.chars().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        h => { let k: u64 = h[1..].parse().unwrap(); let mut r = Rng::new(k, 0xf11b); a.chars().map(|c| if r.chance(1, 2) { inv(c) } else { c }).collect() }
    }
}
type Codes = Result<Vec<String>, String>;
fn map26(s: &str) -> [char; 26] { let v: Vec<char> = s.chars().collect(); v.try_into().unwrap() }
/// the encoders a case is about, and what they give for a text
fn codes(id: &str, cfg: &str, a: &str) -> Result<Vec<(String, Codes)>, String> {
    let one = |n: &str, e: &dyn Encoder| (n.to_string(), real(|| vec![e.encode(a)]));
    Ok(match id {
        "C02" => { let (m, f) = cfg.split_once('|').unwrap(); vec![one("Soundex", &Soundex::new(map26(m), f == "t")), one("the default Soundex", &Soundex::default())] }
        "C03" => vec![one("RefinedSoundex", &RefinedSoundex::new(map26(cfg))), one("the default RefinedSoundex", &RefinedSoundex::default())],
        "C04" => vec![one("Cologne", &Cologne)],
        "C05" => vec![one("Caverphone1", &Caverphone1), one("Caverphone2", &Caverphone2)],
        "C06" => vec![one("Nysiis", &Nysiis::new(cfg == "strict")), one("the default Nysiis", &Nysiis::default())],
        "C07" => vec![one("Phonex", &Phonex::new(cfg.parse().unwrap())), one("the default Phonex", &Phonex::default())],
        "C08" => vec![one("Metaphone", &Metaphone::new(cfg.parse().ok())), one("the default Metaphone", &Metaphone::default())],
        "C09" => vec![one("MatchRatingApproach", &MatchRatingApproach)],
        "C11" => { let d = DoubleMetaphone::new(cfg.parse().ok()); let two = |d: &DoubleMetaphone| real(|| { let r = d.double_metaphone(a); vec![r.primary(), r.alternate(), d.encode(a), d.encode_alternate(a)] }); vec![("DoubleMetaphone".into(), two(&d)), ("the default DoubleMetaphone".into(), two(&DoubleMetaphone::default()))] }
        "C12" => { let d = dam(cfg)?; match &d.0 { Ok(e) => vec![("DaitchMokotoffSoundex".into(), real(|| { let mut v = vec![e.encode(a), e.soundex(a)]; v.extend(e.inner_soundex(a, true)); v }))], Err(_) => vec![] } }
        "C13" => match crate::bm::encoder(cfg) { Some((e, l, _own)) => vec![("BeiderMorse".into(), real(|| vec![match &l { Some(l) => e.encode_with_languages(a, l), None => e.encode(a) }]))], None => vec![] },
        _ => unreachable!(),
    })
}
pub fn c18(c: &Case) -> Result<String, String> {
    let p: Vec<&str> = c.cfg.splitn(3, '\u{3}').collect();
    let b = flip(p[1], &c.a);
    let (x, y) = (codes(p[0], p[2], &c.a)?, codes(p[0], p[2], &b)?);
    for ((n, u), (_, v)) in x.iter().zip(&y) {
        // a panic is C01's matter, unless only one of the two spellings has it
        if u != v && (u.is_ok() || v.is_ok()) { return Err(format!("{n}: {:?} gives {u:?}, {b:?} gives {v:?} ({:?})", c.a, p[2])) }
    }
    let eq = |n: &str, e: &dyn Encoder, want: bool| match real(|| e.is_encoded_equals(&c.a, &b)) { Ok(g) if g != want => Err(format!("{n}: is_encoded_equals({:?}, {b:?}) = {g}", c.a)), _ => Ok(()) };
    match p[0] {
        "C02" => eq("Soundex", &Soundex::default(), true)?, "C03" => eq("RefinedSoundex", &RefinedSoundex::default(), true)?, "C04" => eq("Cologne", &Cologne, true)?,
        "C05" => { eq("Caverphone1", &Caverphone1, true)?; eq("Caverphone2", &Caverphone2, true)? } "C06" => eq("Nysiis", &Nysiis::default(), true)?, "C07" => eq("Phonex", &Phonex::default(), true)?,
        "C08" => eq("Metaphone", &Metaphone::default(), true)?, "C11" => eq("DoubleMetaphone", &DoubleMetaphone::default(), true)?,
        "C09" => eq("MatchRatingApproach", &MatchRatingApproach, c.a.trim().chars().count() > 1)?,
        _ => {}
    }
    Ok(format!("{:?}", x.iter().map(|(_, u)| u.as_ref().map(|v| v.join("/")).unwrap_or_default()).collect::<Vec<_>>()))
}
pub fn c17(c: &Case) -> Result<String, String> {
    let p: Vec<&str> = c.cfg.splitn(3, '\u{3}').collect();
    let a = &c.a;
    let s = str_seq(a);
    let letters: Vec<char> = o::clean(s).0.to_vec();
    let x = codes(p[0], p[2], a)?;
    let mut out = vec![];
    for (n, u) in &x {
        let Ok(v) = u else { continue };
        let dft = n.starts_with("the default");
        let code: Vec<char> = v[0].chars().collect();
        let ok = match p[0] {
            "C02" => { let m = if dft { "01230120022455012623010202" } else { p[2].split_once('|').unwrap().0 }; if letters.is_empty() { code.is_empty() } else { code.len() == 4 && code[0] == letters[0] && code[1..].iter().all(|c| *c == '0' || (*c != '-' && m.contains(*c))) } }
            "C03" => { let m = if dft { "01360240043788015936020505" } else { p[2] }; if letters.is_empty() { code.is_empty() } else { !code.is_empty() && code.len() <= 1 + letters.len() && code[0] == letters[0] && code[1..].iter().all(|c| m.contains(*c)) } }
            "C04" => code.iter().enumerate().all(|(i, c)| "12345678".contains(*c) || (i == 0 && *c == '0')),
            "C05" => code.len() == (if n == "Caverphone1" { 6 } else { 10 }) && code.iter().all(|c| *c == '1' || c.is_ascii_uppercase()),
            "C06" => code.len() <= letters.len() && (!(dft || p[2] == "strict") || code.len() <= 6),
            "C07" => { let m: usize = if dft { 4 } else { p[2].parse().unwrap() }; code.len() == m && code.iter().skip(1).all(|c| ('0'..='6').contains(c)) }
            "C08" => { let up = a.to_uppercase().chars().count(); let m: Option<usize> = if dft { Some(4) } else { p[2].parse().ok() }; up == 1 || (code.len() <= m.unwrap_or(2 * up) && code.iter().all(|c| "0AEIOUBFHJKLMNPRSTWXY".contains(*c))) }
            "C09" => code.len() <= 6,
            "C11" => { let m: Option<usize> = if dft { Some(4) } else { p[2].parse().ok() }; v.iter().enumerate().all(|(i, t)| t.chars().all(|c| "0AFHJKLMNPRSTX".contains(c) || (i % 2 == 1 && c == ' ')) && t.chars().count() <= m.unwrap_or(usize::MAX)) }
            "C12" => v.len() >= 3 && v[0].chars().count() == 6 && v[2..].iter().all(|t| t.chars().count() == 6) && v[2..].join("|") == v[1],
            _ => true,
        };
        if !ok { return Err(format!("{n}: {a:?} gives {v:?} ({:?})", p[2])) }
        out.push(v.join("/"));
    }
    Ok(out.join(" "))
}
