//! What each property says about the real crate, evaluated against the specification functions.
use crate::gen::{Gen, Rng};
use crate::oracle as o;
use crate::real;
use crate::rt::*;
use crate::Case;
use rphonetic::*;

pub struct Prop {
    pub id: &'static str,
    pub srcs: &'static [&'static str],
    pub alpha: &'static str,
    pub depth: usize,
    pub case: fn(&Gen, u64) -> Case,
    pub eval: fn(&Case) -> Result<String, String>,
}
/// spec result vs. real result, and is_encoded_equals on the pair
pub fn check_encoder(e: &dyn Encoder, spec: &dyn Fn(Seq<char>) -> Seq<char>, c: &Case) -> Result<String, String> {
    let want = seq_str(spec(str_seq(&c.a)));
    let got = real(|| e.encode(&c.a)).map_err(|p| format!("encode({:?}) {p}, expected {want:?}", c.a))?;
    if got != want { return Err(format!("encode({:?}) = {got:?}, expected {want:?}", c.a)) }
    if !c.b.is_empty() {
        let wb = seq_str(spec(str_seq(&c.b)));
        // an encoder keeps nothing of what it encoded before
        let gb = real(|| e.encode(&c.b)).map_err(|p| format!("encode({:?}) {p}, expected {wb:?}", c.b))?;
        if gb != wb { return Err(format!("encode({:?}) after encode({:?}) = {gb:?}, expected {wb:?}", c.b, c.a)) }
        let again = real(|| e.encode(&c.a)).map_err(|p| format!("encode({:?}) {p}, expected {want:?}", c.a))?;
        if again != want { return Err(format!("encode({:?}) after encode({:?}) = {again:?}, expected {want:?}", c.a, c.b)) }
        let eq = real(|| e.is_encoded_equals(&c.a, &c.b)).map_err(|p| format!("is_encoded_equals({:?}, {:?}) {p}", c.a, c.b))?;
        if eq != (want == wb) { return Err(format!("is_encoded_equals({:?}, {:?}) = {eq}, but the codes are {want:?} and {wb:?}", c.a, c.b)) }
    }
    Ok(got)
}
/// one string, and now and then a second one (an edited copy, or another one)
pub fn plain(g: &Gen, i: u64, cfgs: &[&str]) -> Case {
    let (a, i) = g.input(i);
    let mut r = Rng::new(g.seed ^ 0x5eed, i);
    let b = if r.chance(1, 3) { second(g, &a, &mut r) } else { String::new() };
    Case { cfg: r.pick(cfgs).to_string(), a, b }
}
pub fn second(g: &Gen, a: &str, r: &mut Rng) -> String {
    match r.below(4) {
        0 => g.random(r),
        1 => a.to_lowercase(),
        _ => { let cs: Vec<char> = a.chars().collect(); let p = r.below(cs.len() + 1); let t = g.token(r); let d = r.below(3).min(cs.len() - p); cs[..p].iter().collect::<String>() + &t + &cs[p + d..].iter().collect::<String>() }
    }
}
const AZ: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZ";
const AZ_: &str = "abcdefghijklmnopqrstuvwxyz";
fn map26(s: &str) -> [char; 26] { let v: Vec<char> = s.chars().collect(); v.try_into().unwrap() }
const SX: &[&str] = &["01230120022455012623010202|t", "01230120022455012623010202|f", "0123012-02245501262301-202|t", "0123012-02245501262301-202|f", "-123012-02-4550126230--202|t", "A1é3-12302245501-62301Z2-2|f", "00000000000000000000000000|t", "--------------------------|f"];
fn c02(c: &Case) -> Result<String, String> {
    let (m, f) = c.cfg.split_once('|').unwrap();
    let m = map26(m);
    let e = Soundex::new(m, f == "t");
    check_encoder(&e, &|s| o::soundex(Seq::of(m.to_vec()), f == "t", s), c)?;
    let silent = m.contains(&'-');
    let e = Soundex::from(m);
    check_encoder(&e, &|s| o::soundex(Seq::of(m.to_vec()), !silent, s), c)?;
    let m = map26("01230120022455012623010202");
    check_encoder(&Soundex::default(), &|s| o::soundex(Seq::of(m.to_vec()), true, s), c)
}
const RX: &[&str] = &["01360240043788015936020505", "-136024004378801593602050-", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "00000000000000000000000000"];
fn c03(c: &Case) -> Result<String, String> {
    let m = map26(&c.cfg);
    check_encoder(&RefinedSoundex::new(m), &|s| o::refined(Seq::of(m.to_vec()), s), c)?;
    let m = map26("01360240043788015936020505");
    check_encoder(&RefinedSoundex::default(), &|s| o::refined(Seq::of(m.to_vec()), s), c)
}
fn c04(c: &Case) -> Result<String, String> { check_encoder(&Cologne, &|s| o::cologne(s), c) }
fn c05(c: &Case) -> Result<String, String> { check_encoder(&Caverphone1, &|s| o::caverphone1(s), c)?; check_encoder(&Caverphone2, &|s| o::caverphone2(s), c) }
fn c06(c: &Case) -> Result<String, String> { let st = c.cfg == "strict"; if st { check_encoder(&Nysiis::default(), &|s| o::nysiis(true, s), c)?; } check_encoder(&Nysiis::new(st), &|s| o::nysiis(st, s), c) }
fn c07(c: &Case) -> Result<String, String> { if c.cfg == "4" { check_encoder(&Phonex::default(), &|s| o::phonex(4, s), c)?; } let n: usize = c.cfg.parse().unwrap(); check_encoder(&Phonex::new(n), &|s| o::phonex(n as i64, s), c) }

/// a = mapping text, b = a word
fn c19_case(g: &Gen, i: u64) -> Case {
    let mut r = Rng::new(g.seed ^ 0x19, i);
    let n = match r.below(8) { 0 => 25, 1 => 27, 2 => r.below(60), _ => 26 };
    let silent = r.chance(1, 2);
    let mut a = String::new();
    for _ in 0..n { match r.below(30) { 0 if silent => a.push('-'), 1 => a.push(*r.pick(&['é', 'ß', '中', '😀', 'Z', 'a', ' '])), k => a.push((b'0' + (k % 10) as u8) as char) } }
    if r.chance(1, 4) && n > 0 {
        // other characters: of the source as it is now, or any
        let mut cs: Vec<char> = a.chars().collect();
        for _ in 0..1 + r.below(3) { let t = if r.chance(1, 2) && !g.d.toks.is_empty() { r.pick(&g.d.toks).chars().next().unwrap() } else { crate::gen::any_scalar(&mut r) }; let p = match r.below(3) { 0 => 0, 1 => n - 1, _ => r.below(n) }; cs[p] = t }
        a = cs.into_iter().collect()
    }
    let b = g.random(&mut r);
    Case { cfg: String::new(), a, b }
}
fn c19(c: &Case) -> Result<String, String> {
    let m: Vec<char> = c.a.chars().collect();
    let want = m.len() == 26;
    let s1 = real(|| Soundex::try_from(c.a.as_str()))?; let s2 = real(|| c.a.parse::<Soundex>())?; let s3 = real(|| Soundex::try_from(c.a.clone()))?;
    let r1 = real(|| RefinedSoundex::try_from(c.a.as_str()))?; let r2 = real(|| c.a.parse::<RefinedSoundex>())?; let r3 = real(|| RefinedSoundex::try_from(c.a.clone()))?;
    for (n, ok) in [("Soundex::try_from(&str)", s1.is_ok()), ("parse::<Soundex>", s2.is_ok()), ("Soundex::try_from(String)", s3.is_ok()), ("RefinedSoundex::try_from(&str)", r1.is_ok()), ("parse::<RefinedSoundex>", r2.is_ok()), ("RefinedSoundex::try_from(String)", r3.is_ok())] {
        if ok != want { return Err(format!("{n} of {:?} ({} characters) is {}", c.a, m.len(), if ok { "accepted" } else { "refused" })) }
    }
    if !want {
        for (n, e) in [("Soundex::try_from(&str)", s1.unwrap_err()), ("parse::<Soundex>", s2.unwrap_err()), ("Soundex::try_from(String)", s3.unwrap_err()), ("RefinedSoundex::try_from(&str)", r1.unwrap_err()), ("parse::<RefinedSoundex>", r2.unwrap_err()), ("RefinedSoundex::try_from(String)", r3.unwrap_err())] { if e != m { return Err(format!("{n} of {:?}: the error carries {e:?}", c.a)) } }
        return Ok("refused".into())
    }
    let arr: [char; 26] = m.clone().try_into().unwrap();
    let ws = Soundex::new(arr, !m.contains(&'-')); let wr = RefinedSoundex::new(arr);
    for (n, e) in [("Soundex::try_from(&str)", s1.unwrap()), ("parse::<Soundex>", s2.unwrap()), ("Soundex::try_from(String)", s3.unwrap()), ("Soundex::from([char; 26])", Soundex::from(arr))] {
        if e != ws { return Err(format!("{n} of {:?} gives {e:?}, expected {ws:?}", c.a)) }
        let (x, w) = (real(|| e.encode(&c.b))?, seq_str(o::soundex(Seq::of(m.clone()), !m.contains(&'-'), str_seq(&c.b))));
        if x != w { return Err(format!("{n} of {:?}: encode({:?}) = {x:?}, expected {w:?}", c.a, c.b)) }
    }
    for (n, e) in [("RefinedSoundex::try_from(&str)", r1.unwrap()), ("parse::<RefinedSoundex>", r2.unwrap()), ("RefinedSoundex::try_from(String)", r3.unwrap())] {
        if e != wr { return Err(format!("{n} of {:?} gives {e:?}, expected {wr:?}", c.a)) }
        let (x, w) = (real(|| e.encode(&c.b))?, seq_str(o::refined(Seq::of(m.clone()), str_seq(&c.b))));
        if x != w { return Err(format!("{n} of {:?}: encode({:?}) = {x:?}, expected {w:?}", c.a, c.b)) }
    }
    if DEFAULT_US_ENGLISH_MAPPING_SOUNDEX.to_vec() != o::soundex_us().0.to_vec() || DEFAULT_US_ENGLISH_GENEALOGY_MAPPING_SOUNDEX.to_vec() != o::soundex_genealogy().0.to_vec() { return Err("a published default mapping changed".into()) }
    Ok(format!("{ws:?}"))
}
fn c08(c: &Case) -> Result<String, String> {
    let m: Option<usize> = c.cfg.parse().ok();
    if m == Some(4) { check_encoder(&Metaphone::default(), &|s| o::metaphone(Some(4), s), c)?; }
    check_encoder(&Metaphone::new(m), &|s| o::metaphone(m, s), c)
}
fn c11(c: &Case) -> Result<String, String> {
    let m: Option<usize> = c.cfg.parse().ok();
    let dm = DoubleMetaphone::new(m);
    if m == Some(4) { check_encoder(&DoubleMetaphone::default(), &|s| o::double_metaphone(Some(4), s).0, c)?; }
    check_encoder(&dm, &|s| o::double_metaphone(m, s).0, c)?;
    let (p, a) = o::double_metaphone(m, str_seq(&c.a));
    let (p, a) = (seq_str(p), seq_str(a));
    let g = real(|| dm.encode_alternate(&c.a))?;
    if g != a { return Err(format!("encode_alternate({:?}) = {g:?}, expected {a:?}", c.a)) }
    let r = real(|| dm.double_metaphone(&c.a))?;
    if r.primary() != p || r.alternate() != a { return Err(format!("double_metaphone({:?}) = {:?}, expected {p:?} / {a:?}", c.a, r)) }
    if !c.b.is_empty() {
        let (q, b) = o::double_metaphone(m, str_seq(&c.b));
        let (x, y) = (real(|| dm.is_double_metaphone_equal(&c.a, &c.b, false))?, real(|| dm.is_double_metaphone_equal(&c.a, &c.b, true))?);
        if x != (p == seq_str(q)) || y != (a == seq_str(b)) { return Err(format!("is_double_metaphone_equal({:?}, {:?}) = {x} (primary), {y} (alternate)", c.a, c.b)) }
    }
    Ok(format!("{p}/{a}"))
}
fn c09(c: &Case) -> Result<String, String> {
    let want = seq_str(o::mra(str_seq(&c.a)));
    let got = real(|| MatchRatingApproach.encode(&c.a)).map_err(|p| format!("encode({:?}) {p}, expected {want:?}", c.a))?;
    if got != want { return Err(format!("encode({:?}) = {got:?}, expected {want:?}", c.a)) }
    Ok(got)
}
fn c10(c: &Case) -> Result<String, String> {
    let (a, b) = (str_seq(&c.a), str_seq(&c.b));
    let want = o::mra_equal(a, b);
    let got = real(|| MatchRatingApproach.is_encoded_equals(&c.a, &c.b)).map_err(|p| format!("is_encoded_equals({:?}, {:?}) {p}, expected {want}", c.a, c.b))?;
    if got != want { return Err(format!("is_encoded_equals({:?}, {:?}) = {got}, expected {want}", c.a, c.b)) }
    let back = real(|| MatchRatingApproach.is_encoded_equals(&c.b, &c.a))?;
    if back != want { return Err(format!("is_encoded_equals({:?}, {:?}) = {back}, expected {want}", c.b, c.a)) }
    Ok(format!("{got}"))
}
fn c16(c: &Case) -> Result<String, String> {
    let (m, f) = c.cfg.split_once('|').unwrap();
    let m = map26(m);
    let (a, b) = (str_seq(&c.a), str_seq(&c.b));
    let mut out = String::new();
    let sx = Soundex::new(m, f == "t"); let rx = RefinedSoundex::new(m);
    let sp = |s| o::soundex(Seq::of(m.to_vec()), f == "t", s); let rp = |s| o::refined(Seq::of(m.to_vec()), s);
    let d1: (&dyn Fn(&str, &str) -> usize, i64) = (&|x, y| sx.difference(x, y), o::agree(sp(a), sp(b)));
    let d2: (&dyn Fn(&str, &str) -> usize, i64) = (&|x, y| rx.difference(x, y), o::agree(rp(a), rp(b)));
    for (n, (d, want)) in [("Soundex", d1), ("RefinedSoundex", d2)] {
        for (x, y) in [(&c.a, &c.b), (&c.b, &c.a)] {
            let got = real(|| d(x, y)).map_err(|p| format!("{n}::difference({x:?}, {y:?}) {p}, expected {want}"))?;
            if got as i64 != want { return Err(format!("{n}::difference({x:?}, {y:?}) = {got}, expected {want}")) }
        }
        out += &format!("{want} ");
    }
    Ok(out)
}
fn pair_cfg(g: &Gen, i: u64, cfgs: &[&str]) -> Case { let mut c = pair(g, i); let mut r = Rng::new(g.seed ^ 0x16, i); c.cfg = r.pick(cfgs).to_string(); c }
/// a = text, cfg = two positions
fn c15_case(g: &Gen, i: u64) -> Case {
    let (a, i) = g.input(i);
    let mut r = Rng::new(g.seed ^ 0x15, i);
    let n = a.chars().count();
    let pos = |r: &mut Rng| match r.below(9) { 0 => usize::MAX, 1 => usize::MAX - 1, 2 => 0, 3 => n, 4 => n + 1 + r.below(5), _ => r.below(n + 2) };
    let (x, y) = (pos(&mut r), pos(&mut r));
    Case { cfg: format!("{x} {y}"), a, b: String::new() }
}
fn c15(c: &Case) -> Result<String, String> {
    let (x, y) = c.cfg.split_once(' ').unwrap();
    let (x, y): (usize, usize) = (x.parse().unwrap(), y.parse().unwrap());
    let chars: Vec<char> = c.a.chars().collect();
    let s = CharSequence::from(c.a.as_str());
    let want = |a: usize, b: u128| -> String { if a as u128 >= b { String::new() } else { chars.iter().skip(a).take((b - a as u128).min(chars.len() as u128) as usize).collect() } };
    let (xw, yw, n) = (x, y as u128, chars.len() as u128);
    let mut list: Vec<(&str, Result<String, String>, String)> = vec![
        ("a..b", real(|| s[x..y].to_string()), want(xw, yw)),
        ("a..", real(|| s[x..].to_string()), want(xw, n)),
        ("..b", real(|| s[..y].to_string()), want(0, yw)),
        ("..", real(|| s[..].to_string()), c.a.clone()),
        ("as_str", real(|| s.as_str().to_string()), c.a.clone()),
        ("Display", real(|| format!("{s}")), c.a.clone()),
        ("into &str", real(|| { let t: &str = s.clone().into(); t.to_string() }), c.a.clone()),
        ("len", real(|| s.len().to_string()), n.to_string()),
        ("is_empty", real(|| s.is_empty().to_string()), (n == 0).to_string()),
    ];
    if y < usize::MAX { list.push(("a..=b", real(|| s[x..=y].to_string()), want(xw, yw + 1))); list.push(("..=b", real(|| s[..=y].to_string()), want(0, yw + 1))); }
    for (n, got, want) in list {
        match got { Ok(g) if g == want => {} g => return Err(format!("CharSequence {:?}, a = {x}, b = {y}: {n} gives {g:?}, expected {want:?}", c.a)) }
    }
    Ok(want(xw, yw))
}
/// "*" is Any, "-" is NoLanguages, otherwise the names separated by commas
fn c14_set(r: &mut Rng) -> String {
    const N: &[&str] = &["any", "french", "german", "é", "english", "", "z"];
    match r.below(7) { 0 => "*".into(), 1 => "-".into(), 2 => String::new(), _ => { let k = 1 + r.below(4) + r.below(2) * r.below(2) * r.below(20); (0..k).map(|i| if i < 6 { r.pick(N).to_string() } else { format!("l{}", r.below(30)) }).collect::<Vec<_>>().join(",") } }
}
fn c14_case(g: &Gen, i: u64) -> Case { let mut r = Rng::new(g.seed ^ 0x14, i); Case { cfg: String::new(), a: c14_set(&mut r), b: c14_set(&mut r) } }
fn c14(c: &Case) -> Result<String, String> {
    use std::collections::BTreeSet;
    // None stands for all names
    let den = |s: &str| -> Option<BTreeSet<String>> { match s { "*" => None, "-" | "" => Some(BTreeSet::new()), s => Some(s.split(',').map(String::from).collect()) } };
    let mk = |s: &str| -> LanguageSet { match s { "*" => LanguageSet::Any, "-" => LanguageSet::NoLanguages, "" => LanguageSet::SomeLanguages(BTreeSet::new()), s => LanguageSet::SomeLanguages(s.split(',').map(String::from).collect()) } };
    let read = |s: &LanguageSet| match s { LanguageSet::Any => None, LanguageSet::NoLanguages => Some(BTreeSet::new()), LanguageSet::SomeLanguages(s) => Some(s.clone()) };
    let (a, b) = (mk(&c.a), mk(&c.b)); let (x, y) = (den(&c.a), den(&c.b));
    let and = match (&x, &y) { (None, s) | (s, None) => s.clone(), (Some(s), Some(t)) => Some(s.intersection(t).cloned().collect()) };
    let or = match (&x, &y) { (Some(s), Some(t)) => Some(s.union(t).cloned().collect()), _ => None };
    let got = read(&real(|| a.restrict_to(&b))?); if got != and { return Err(format!("{a:?}.restrict_to({b:?}) stands for {got:?}, expected {and:?}")) }
    let got = read(&real(|| a.merge(&b))?); if got != or { return Err(format!("{a:?}.merge({b:?}) stands for {got:?}, expected {or:?}")) }
    let w = x.as_ref().is_some_and(|s| s.is_empty()); if real(|| a.is_empty())? != w { return Err(format!("{a:?}.is_empty() is not {w}")) }
    let w = x.as_ref().is_some_and(|s| s.len() == 1); if real(|| a.is_singleton())? != w { return Err(format!("{a:?}.is_singleton() is not {w}")) }
    let w = x.as_ref().and_then(|s| s.iter().min().cloned()); let got = real(|| a.any().map(String::from))?; if got != w { return Err(format!("{a:?}.any() = {got:?}, expected {w:?}")) }
    if let Some(s) = &x {
        let l = LanguageSet::from(s.clone()); if read(&l) != x { return Err(format!("from the set {s:?}: {l:?}")) }
        let v: Vec<&str> = s.iter().rev().map(|s| s.as_str()).collect(); let l = LanguageSet::from(v); if read(&l) != x { return Err(format!("from the list {s:?}: {l:?}")) }
    }
    Ok(format!("{and:?} {or:?}"))
}
/// A rule text, now and then with a line that is none.
pub fn dam_text(k: u64, bad: bool) -> String {
    let mut r = Rng::new(0xda, k);
    const L: &[&str] = &["a", "b", "c", "h", "é", "ß", "m", "n", "e", "İ", "i", "中", "s", "z", "'"];
    const R: &[&str] = &["", "1", "2", "3", "34", "567", "12345678", "x", "0", "é9", "33", "4"];
    let n = 2 + r.below(5);
    let l: Vec<&str> = (0..n).map(|_| *r.pick(L)).collect();
    let mut t = String::new();
    let alts = |r: &mut Rng| (0..1 + r.below(3) * r.below(2)).map(|_| *r.pick(R)).collect::<Vec<_>>().join("|");
    let nl = if r.chance(1, 4) { "\r\n" } else { "\n" };
    let lines = 1 + r.below(14);
    for i in 0..lines {
        match r.below(12) {
            0 => t += "// \"a\" \"1\" \"1\" \"1\"",
            1 => t += &format!("/* one{nl} two\n\n*/"),
            2 => {}
            3 | 4 => { let (a, b) = (*r.pick(&["é", "ß", "İ", "ü", "a", "中", "=", "/", " "]), *r.pick(&["e", "s", "i", "a", "b", "x", "=", " "])); t += &format!("{a}={b}") }
            5 if bad => t += *r.pick(&["\"a\" \"b\"", "xx", "a = b", "\"\" \"1\" \"2\" \"3\"", "\"a\"\"1\" \"2\" \"3\"", "/* open", "a=b c", "\"a\" \"1\" \"2\" \"3\" 4", "\"a\\\"\" \"1\" \"2\" \"3\"", "\"\\\"\" \"1\" \"2\" \"3\"", "=", "\"a\nb\" \"1\" \"2\" \"3\"", "\u{a0}"]),
            _ => { let p: String = (0..1 + r.below(3) * r.below(2) + r.below(2)).map(|_| *r.pick(&l)).collect(); let (x, y, z) = (alts(&mut r), alts(&mut r), alts(&mut r)); t += &format!("\"{p}\" \"{x}\" \t\"{y}\"  \"{z}\"") }
        }
        if r.chance(1, 5) { t += "  // end" }
        if r.chance(1, 8) { t += "\t" }
        if i + 1 < lines || r.chance(1, 2) { t += nl }
    }
    t
}
/// now and then: other letters (of the source as it is now, or any), a long comment in front
pub fn dam_renamed(g: &Gen, r: &mut Rng, mut t: String, mut a: String) -> (String, String) {
    let bad = |x: &str| x.is_empty() || x.chars().any(|c| "\"\\\n\r\t|/*= ".contains(c));
    if r.chance(1, 2) { return (t, a) }
    for l in ["h", "z", "中", "x", "4"] {
        let x = match r.below(6) { 0 if !g.d.toks.is_empty() => r.pick(&g.d.toks).clone(), 1 => crate::gen::any_scalar(r).to_string(), 2 => ((b'a' + r.below(26) as u8) as char).to_string(), _ => continue };
        if bad(&x) { continue }
        t = t.replace(l, &x); a = a.replace(l, &x)
    }
    if r.chance(1, 24) { t = format!("/*{}*/\n{t}", "\n".repeat([20, 100, 260, 300, 1030][r.below(5)])) }
    (t, a)
}
pub const DAM_RULES: &str = include_str!("../data/dmrules.txt");
fn c12_case(g: &Gen, i: u64) -> Case {
    let (a, j) = g.input(i);
    let mut r = Rng::new(g.seed ^ 0x12, j);
    let f = if r.chance(1, 4) { "-" } else { "+" };
    if r.chance(1, 2) || j < g.n_exhaustive() { return Case { cfg: format!("{f}*"), a, b: String::new() } }
    let k = r.below(300) as u64;
    let t = dam_text(k, false);
    let cs: Vec<char> = t.chars().filter(|c| !"\"\r\n\t|/".contains(*c)).chain(['a']).collect();
    let w: String = (0..r.below(14)).map(|_| *r.pick(&cs)).collect();
    let a = if r.chance(1, 5) { a } else { w };
    let (t, a) = dam_renamed(g, &mut r, t, a);
    Case { cfg: format!("{f}{t}"), a, b: String::new() }
}
pub type Dam = (Result<DaitchMokotoffSoundex, PhoneticError>, Kept<o::DmText>);
pub fn dam(cfg: &str) -> Result<std::rc::Rc<Dam>, String> {
    thread_local! { static CACHE: std::cell::RefCell<std::collections::HashMap<String, std::rc::Rc<Dam>>> = Default::default(); }
    if let Some(d) = CACHE.with(|c| c.borrow().get(cfg).cloned()) { return Ok(d) }
    let fold = cfg.starts_with('+');
    let text = if cfg.ends_with('*') && cfg.len() == 2 { DAM_RULES } else { &cfg[1..] };
    let spec = forever(|| o::dam_build(str_seq(text)));
    let enc = real(|| if text == DAM_RULES { DaitchMokotoffSoundexBuilder::default().ascii_folding(fold).build() } else { DaitchMokotoffSoundexBuilder::with_rules(text).ascii_folding(fold).build() })?;
    let d = std::rc::Rc::new((enc, spec));
    CACHE.with(|c| { if c.borrow().len() > 100 { c.borrow_mut().clear() } c.borrow_mut().insert(cfg.to_string(), d.clone()) });
    Ok(d)
}
fn c12(c: &Case) -> Result<String, String> {
    let d = dam(&c.cfg)?;
    let fold = c.cfg.starts_with('+');
    let (e, spec) = (&d.0, *d.1);
    let e = match e { Ok(e) => e, Err(x) => return if spec.bad.is_some() { Ok("refused".into()) } else { Err(format!("the rules {:?} are refused: {x:?}", &c.cfg[1..])) } };
    if spec.bad.is_some() { return Err(format!("the rules {:?} are accepted", &c.cfg[1..])) }
    let strs = |s: Seq<Seq<char>>| -> Vec<String> { s.0.iter().map(|x| seq_str(*x)).collect() };
    let all = strs(o::dam_codes(spec.rules, fold, spec.fold, str_seq(&c.a), true));
    let got = real(|| e.inner_soundex(&c.a, true)).map_err(|p| format!("inner_soundex({:?}, true) {p}, expected {all:?}", c.a))?;
    if got != all { return Err(format!("inner_soundex({:?}, true) = {got:?}, expected {all:?}", c.a)) }
    let one = strs(o::dam_codes(spec.rules, fold, spec.fold, str_seq(&c.a), false));
    let got = real(|| e.inner_soundex(&c.a, false))?;
    if got != one { return Err(format!("inner_soundex({:?}, false) = {got:?}, expected {one:?}", c.a)) }
    let (x, w) = (real(|| e.soundex(&c.a))?, all.join("|")); if x != w { return Err(format!("soundex({:?}) = {x:?}, expected {w:?}", c.a)) }
    let (x, w) = (real(|| e.encode(&c.a))?, one.first().cloned().unwrap_or_default()); if x != w { return Err(format!("encode({:?}) = {x:?}, expected {w:?}", c.a)) }
    if c.cfg == "+*" { thread_local! { static D: DaitchMokotoffSoundex = DaitchMokotoffSoundex::default(); } let x = real(|| D.with(|d| d.encode(&c.a)))?; if x != w { return Err(format!("the default encoder: encode({:?}) = {x:?}, expected {w:?}", c.a)) } }
    Ok(format!("{all:?}"))
}
/// two strings: the second is an edited copy of the first, the first itself, or another one
fn pair(g: &Gen, i: u64) -> Case {
    let (a, i) = g.input(i);
    let mut r = Rng::new(g.seed ^ 0x10, i);
    let mut b = if r.chance(1, 12) { a.clone() } else { second(g, &a, &mut r) };
    if r.chance(1, 2) { b = second(g, &b, &mut r) }
    Case { cfg: String::new(), a, b }
}
/// every other evaluation, for panics (and endless loops) only. cfg: property, \u{3}, its own cfg
const ALL: &[&str] = &["C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C19", "C20", "C21"];
/// the properties whose units were not proved on this run (--focus C08,C11): most evaluations are theirs
fn focus() -> &'static Vec<usize> {
    static F: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    F.get_or_init(|| { let f = std::env::args().skip_while(|a| a != "--focus").nth(1).unwrap_or_default(); f.split(',').filter_map(|x| ALL.iter().position(|y| *y == x)).collect() })
}
/// the properties, each with the dictionary of its own sources
fn parts() -> &'static Vec<(Prop, crate::gen::Dict)> {
    static P: std::sync::OnceLock<Vec<(Prop, crate::gen::Dict)>> = std::sync::OnceLock::new();
    P.get_or_init(|| { let repo = std::env::args().skip_while(|a| a != "--repo").nth(1).unwrap_or("/repo".into()); ALL.iter().map(|x| { let p = find(x).unwrap(); let d = crate::gen::Dict::load(&repo, p.srcs); (p, d) }).collect() })
}
/// the i-th case of the properties in turn, mostly of those of --focus
pub fn in_turn(which: &[&str], seed: u64, i: u64) -> (&'static str, Case) {
    let v: Vec<usize> = which.iter().map(|x| ALL.iter().position(|y| y == x).unwrap()).collect();
    let f: Vec<usize> = focus().iter().copied().filter(|x| v.contains(x)).collect();
    let n = v.len() as u64;
    let aimed = !f.is_empty() && i % 32 != 0;
    let (x, k) = if aimed { let m = i - i / 32 - 1; (f[(m % f.len() as u64) as usize], m / f.len() as u64) } else { let m = if f.is_empty() { i } else { i / 32 }; (v[(m % n) as usize], m / n) };
    let (p, d) = &parts()[x];
    let h = Gen { d, seed, alpha: p.alpha.chars().collect(), depth: if aimed { p.depth } else { p.depth.min(2) } };
    // short strings, literals in contexts and random ones, in turn
    let (e, c) = (h.n_exhaustive(), h.n_context());
    let j = match k % 3 { 0 if k / 3 < e => k / 3, 1 if k / 3 < c => e + k / 3, _ => e + c + i };
    (p.id, (p.case)(&h, j))
}
fn c01_case(g: &Gen, i: u64) -> Case { let (id, c) = in_turn(ALL, g.seed, i); Case { cfg: format!("{id}\u{3}{}", c.cfg), ..c } }
fn c01(c: &Case) -> Result<String, String> {
    let (id, cfg) = c.cfg.split_once('\u{3}').unwrap();
    let f = parts().iter().find(|(p, _)| p.id == id).unwrap().0.eval;
    match f(&Case { cfg: cfg.to_string(), ..c.clone() }) { Err(e) if e.contains("panic: ") => Err(format!("{id} {cfg:?}: {e}")), r => Ok(r.unwrap_or_default()) }
}
const EVERY: &[&str] = &["src/soundex.rs", "src/refined_soundex.rs", "src/cologne.rs", "src/caverphone.rs", "src/nysiis.rs", "src/phonex.rs", "src/metaphone.rs", "src/match_rating_approach.rs", "src/double_metaphone.rs", "src/daitch_mokotoff.rs", "src/helper.rs", "src/lib.rs", "src/beider_morse/engine.rs", "src/beider_morse/rule.rs", "src/beider_morse/lang.rs", "src/beider_morse/languages.rs", "src/beider_morse/regex_optim.rs", "src/rules_parser.rs"];
pub const BM: &[&str] = &["src/beider_morse/engine.rs", "src/beider_morse/rule.rs", "src/beider_morse/lang.rs", "src/beider_morse/regex_optim.rs", "src/beider_morse/mod.rs", "src/rules_parser.rs"];
pub fn find(id: &str) -> Option<Prop> {
    let v = vec![
        Prop { id: "C01", srcs: EVERY, alpha: AZ, depth: 2, case: c01_case, eval: c01 },
        Prop { id: "C02", srcs: &["src/soundex.rs", "src/lib.rs"], alpha: AZ, depth: 4, case: |g, i| plain(g, i, SX), eval: c02 },
        Prop { id: "C03", srcs: &["src/refined_soundex.rs", "src/lib.rs"], alpha: AZ, depth: 4, case: |g, i| plain(g, i, RX), eval: c03 },
        Prop { id: "C04", srcs: &["src/cologne.rs", "src/lib.rs"], alpha: AZ, depth: 4, case: |g, i| plain(g, i, &[""]), eval: c04 },
        Prop { id: "C05", srcs: &["src/caverphone.rs", "src/helper.rs", "src/lib.rs"], alpha: AZ_, depth: 4, case: |g, i| plain(g, i, &[""]), eval: c05 },
        Prop { id: "C06", srcs: &["src/nysiis.rs", "src/helper.rs", "src/lib.rs"], alpha: AZ, depth: 4, case: |g, i| plain(g, i, &["strict", "relaxed"]), eval: c06 },
        Prop { id: "C07", srcs: &["src/phonex.rs", "src/helper.rs", "src/lib.rs"], alpha: AZ, depth: 4, case: |g, i| plain(g, i, &["4", "4", "0", "1", "2", "3", "5", "6", "7", "8", "10", "50", "300"]), eval: c07 },
        Prop { id: "C08", srcs: &["src/metaphone.rs", "src/helper.rs", "src/lib.rs"], alpha: AZ, depth: 4, case: |g, i| plain(g, i, &["none", "none", "none", "4", "4", "0", "1", "2", "3", "5", "6", "7", "8", "10", "16", "50"]), eval: c08 },
        Prop { id: "C09", srcs: &["src/match_rating_approach.rs", "src/helper.rs"], alpha: "ABCDEFGHIJKLMNOPQRSTUVWXYZ -é", depth: 4, case: |g, i| plain(g, i, &[""]), eval: c09 },
        Prop { id: "C10", srcs: &["src/match_rating_approach.rs", "src/helper.rs"], alpha: "ABCDEFGHIJKLMNOPQRSTUVWXYZ -é", depth: 3, case: pair, eval: c10 },
        Prop { id: "C11", srcs: &["src/double_metaphone.rs", "src/helper.rs", "src/lib.rs"], alpha: AZ, depth: 4, case: |g, i| plain(g, i, &["none", "none", "none", "4", "4", "0", "1", "2", "3", "5", "6", "7", "8", "10", "16", "50"]), eval: c11 },
        Prop { id: "C12", srcs: &["src/daitch_mokotoff.rs", "rules/dmrules.txt"], alpha: "ABCDEFGHIJKLMNOPQRSTUVWXYZ", depth: 3, case: c12_case, eval: c12 },
        Prop { id: "C13", srcs: BM, alpha: "ABCDEFGHIJKLMNOPQRSTUVWXYZ", depth: 2, case: crate::bm::c13_case, eval: crate::bm::c13 },
        Prop { id: "C20", srcs: BM, alpha: "xab$", depth: 4, case: crate::bm::c20_case, eval: crate::bm::c20 },
        Prop { id: "C21", srcs: BM, alpha: "a", depth: 0, case: crate::bm::c21_case, eval: crate::bm::c21 },
        Prop { id: "C14", srcs: &["src/beider_morse/languages.rs"], alpha: "a", depth: 0, case: c14_case, eval: c14 },
        Prop { id: "C15", srcs: &["src/helper.rs"], alpha: "Aé中😀", depth: 4, case: c15_case, eval: c15 },
        Prop { id: "C16", srcs: &["src/soundex.rs", "src/refined_soundex.rs", "src/lib.rs"], alpha: AZ, depth: 3, case: |g, i| pair_cfg(g, i, SX), eval: c16 },
        Prop { id: "C17", srcs: EVERY, alpha: AZ, depth: 3, case: crate::general::case_shapes, eval: crate::general::c17 },
        Prop { id: "C18", srcs: EVERY, alpha: AZ, depth: 3, case: crate::general::case, eval: crate::general::c18 },
        Prop { id: "C19", srcs: &["src/soundex.rs", "src/refined_soundex.rs"], alpha: "A", depth: 0, case: c19_case, eval: c19 },
    ];
    v.into_iter().find(|p| p.id == id)
}
