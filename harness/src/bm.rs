//! Beider-Morse: C13 (codes), C20 (rules apply where they should), C21 (texts of rules)
use crate::gen::{Gen, Rng};
use crate::oracle as o;
use crate::rt::*;
use crate::S;
use crate::{real, Case};
use rphonetic::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex, OnceLock};

pub type Files = BTreeMap<String, String>;
const NAMES: [(NameType, &str); 3] = [(NameType::Ashkenazi, "ash"), (NameType::Generic, "gen"), (NameType::Sephardic, "sep")];
const KINDS: [&str; 3] = ["approx", "exact", "rules"];
macro_rules! emb { ($($n:literal),*) => { &[$(($n, include_str!(concat!("../data/bm/", $n, ".txt")))),*] } }
const EMBEDDED: &[(&str, &str)] = emb!("ash_exact_approx_common", "ash_approx_any", "ash_approx_common", "ash_exact_any", "ash_exact_common", "ash_rules_any", "gen_exact_approx_common", "gen_approx_any", "gen_approx_common", "gen_exact_any", "gen_exact_common", "gen_rules_any", "sep_exact_approx_common", "sep_approx_any", "sep_approx_common", "sep_exact_any", "sep_exact_common", "sep_rules_any");

/// The configuration that texts stand for: per name type the languages, detection rules; all rules.
pub struct Spec { pub langs: [Set<Seq<char>>; 3], pub guess: [Seq<o::BmGuess>; 3], pub rules: Map<(int, int, Seq<char>), Map<char, Seq<o::BmRule>>> }
/// What is wrong: the errors that may be reported; an error that names a line names the file (of the scratch directory: its path), the line and shows it
#[derive(Clone, Debug, PartialEq)]
pub enum Bad { Line(Option<String>, i64, String), Other }
fn bad_line(file: Option<String>, (n, rest): (int, Seq<char>)) -> Bad { Bad::Line(file, n as i64, seq_str(o::p_line(rest))) }
fn spec(files: &Files, embedded: bool) -> Result<Spec, Vec<Bad>> {
    let m = Map::<Seq<char>, Seq<char>>(keep({ let mut v: Vec<(Seq<char>, Seq<char>)> = files.iter().map(|(k, v)| (str_seq(k), str_seq(v))).collect(); v.sort(); v }));
    let mut langs = [Set::empty(); 3]; let mut guess = [Seq::empty(); 3];
    if embedded { langs = [Set::of(vec![S!("any")]); 3] } else {
        // the files of languages are read in no order of their own; one that is missing is missed afterwards
        let mut bad = vec![];
        for (i, (_, n)) in NAMES.iter().enumerate() {
            if let Some(t) = files.get(&format!("{n}_languages")) { match o::bm_languages(str_seq(t), 1, Set::empty()) { Ok(l) => langs[i] = l, Err(e) => bad.push(bad_line(None, e)) } }
        }
        if !bad.is_empty() { return Err(bad) }
        for (i, (_, n)) in NAMES.iter().enumerate() {
            let f = format!("{n}_lang");
            if !files.contains_key(&format!("{n}_languages")) { return Err(vec![Bad::Other]) }
            match files.get(&f) { None => return Err(vec![Bad::Other]), Some(t) => match o::bm_langs(str_seq(t), 1, Seq::empty()) { Ok(l) => guess[i] = l, Err(e) => return Err(vec![bad_line(Some(f), e)]) } }
        }
    }
    let mut v = vec![];
    for (i, (_, n)) in NAMES.iter().enumerate() {
        for (j, k) in KINDS.iter().enumerate() {
            let mut ls: Vec<Seq<char>> = langs[i].0.to_vec();
            ls.sort_by_key(|l| seq_str(*l));
            if j != 2 { ls.push(S!("common")) }
            for l in ls {
                let f = format!("{n}_{k}_{}", seq_str(l));
                match o::bm_file(m, str_seq(&f), 5) {
                    o::BmRead::Rules(r) => { if v.iter().all(|(x, _): &((int, int, Seq<char>), _)| *x != (i as int, j as int, l)) { v.push(((i as int, j as int, l), r)) } }
                    o::BmRead::Line(f, n, rest) => return Err(vec![bad_line(Some(seq_str(f)), (n, rest))]),
                    _ => return Err(vec![Bad::Other]),
                }
            }
        }
    }
    v.sort_by(|a, b| a.0.cmp(&b.0));
    // the embedded rules come without languages to guess
    if embedded { langs = [Set::empty(); 3] }
    Ok(Spec { langs, guess, rules: Map(keep(v)) })
}
pub struct Built { pub real: Result<Result<&'static ConfigFiles, PhoneticError>, String>, pub spec: Result<Spec, Vec<Bad>> }
impl Drop for Built {
    // SAFETY: the configuration was leaked below, for this Built alone, and what uses it holds the Built.
    fn drop(&mut self) { if let Ok(Ok(c)) = self.real { drop(unsafe { Box::from_raw(c as *const ConfigFiles as *mut ConfigFiles) }) } }
}
fn build(files: &Files) -> Result<Result<&'static ConfigFiles, PhoneticError>, String> {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let dir = std::env::temp_dir().join(format!("vx-bm-{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
    std::fs::create_dir(&dir).expect("scratch directory");
    for (n, t) in files { std::fs::write(dir.join(format!("{n}.txt")), t).expect("scratch file"); }
    let r = real(|| ConfigFiles::new(&dir).map(|c| &*Box::leak(Box::new(c))));
    let _ = std::fs::remove_dir_all(&dir);
    r
}
/// E: the embedded rules; A: the complete commons-codec rules of the repository; G<k>: invented ones; T<l>|<r>: one rule with these contexts; B<k>: invented ones, maybe with a mistake
pub type Config = Arc<Kept<Built>>;
pub fn config(id: &str) -> Config {
    static CACHE: OnceLock<Mutex<HashMap<String, Arc<OnceLock<Config>>>>> = OnceLock::new();
    let cell = { let mut c = CACHE.get_or_init(Default::default).lock().unwrap(); if c.len() > 3000 || c.keys().filter(|k| !k.starts_with('T')).count() > 900 { c.retain(|k, _| k == "E" || k == "A") } c.entry(id.to_string()).or_default().clone() };
    cell.get_or_init(|| {
        let f = files(id);
        Arc::new(forever(|| Built {
            real: if id == "E" { real(|| Ok(&*Box::leak(Box::new(ConfigFiles::default())))) } else { build(&f) },
            spec: spec(&f, id == "E"),
        }))
    }).clone()
}
pub fn files(id: &str) -> Files {
    match &id[..1] {
        "E" => EMBEDDED.iter().map(|(n, t)| (n.to_string(), t.to_string())).collect(),
        "A" => { let repo = std::env::args().skip_while(|a| a != "--repo").nth(1).unwrap_or("/repo".into()); std::fs::read_dir(format!("{repo}/test_assets/cc-rules")).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().is_some_and(|x| x == "txt")).map(|p| (p.file_stem().unwrap().to_str().unwrap().to_string(), std::fs::read_to_string(&p).unwrap())).collect() }
        "T" => { let v: Vec<&str> = id[1..].split('\u{1}').collect(); one_rule(v[0], v[1], v[2]) }
        "Q" => mutated(id[1..].parse().unwrap()),
        "M" => merging(id[1..].parse().unwrap()),
        "H" | "I" => varied(id[1..].parse().unwrap(), &id[..1] == "I"),
        x => invented(id[1..].parse().unwrap(), x == "B"),
    }
}
/// short literals of the Beider-Morse source as it is now
fn literals() -> &'static Vec<String> {
    static T: OnceLock<Vec<String>> = OnceLock::new();
    T.get_or_init(|| {
        let repo = std::env::args().skip_while(|a| a != "--repo").nth(1).unwrap_or("/repo".into());
        let d = crate::gen::Dict::load(&repo, crate::props::BM);
        d.toks.into_iter().filter(|t| t.chars().count() <= 5 && !t.chars().any(|c| "\"\\\n\r\t \0/".contains(c)) && !t.contains("..")).collect()
    })
}
/// what replaces some of the letters in the configuration H<k>
fn renamed(k: u64) -> Vec<(String, String)> {
    let mut r = Rng::new(0x4e, k);
    let mut v = vec![];
    for l in ["c", "d", "é", "x", "中"] {
        let to = match r.below(4) { 0 if !literals().is_empty() => r.pick(literals()).to_lowercase(), 1 => { let c = crate::gen::any_scalar(&mut r); if c.is_alphanumeric() { c.to_string() } else { l.into() } } 2 => { let n = 1 + r.below(2); (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect() } _ => l.into() };
        v.push((l.to_string(), to))
    }
    v
}
/// invented() with other letters, longer comments and longer lists
fn varied(k: u64, bad: bool) -> Files {
    let names = renamed(k);
    let mut r = Rng::new(0x4f, k);
    let good = |t: &str| !t.chars().any(|c| "^$[].|()*+?{}\\\"/# \n\r\t".contains(c));
    let mut f = invented(k, bad);
    let long = r.below(6);
    for (n, t) in f.iter_mut() {
        if n.ends_with("_languages") { continue }
        for (a, b) in &names { if good(b) && !(n.ends_with("_lang") && b.contains(' ')) { let q = format!("\u{1}{a}"); *t = t.split_inclusive('\n').map(|l| if l.starts_with('#') || l.contains("-c]") || l.contains("[l") || l.contains("l") && n.ends_with("_lang") { l.to_string() } else { l.replace(a.as_str(), &q) }).collect() } }
        for (a, b) in &names { *t = t.replace(&format!("\u{1}{a}"), b) }
        if long == 0 && r.chance(1, 4) { let m = [20, 100, 260, 300, 1030][r.below(5)]; *t = format!("/*{}*/\n{t}", "\n".repeat(m)) }
        if long == 1 && r.chance(1, 4) { *t = format!("{}{t}", "\n".repeat(r.below(300))) }
        if long == 2 { *t = t.replace("la+lb", "zz+z1+z2+z3+z4+z5+z6+z7+z8+z9+lb+la").replace("[la]", "[zz+z1+z2+z3+z4+z5+z6+la]").replace("[lb]", "[lb+la+lc+la+lb]") }
        if long == 3 && n.ends_with("_lang") && r.chance(1, 2) { let nl = if t.is_empty() || t.ends_with('\n') { "" } else { "\n" }; if !bad { *t = format!("{t}{nl}a y1+y2+y3+y4+y5+y6+y7+y8+la+any {}\n", r.chance(1, 2)) } }
    }
    f
}
/// the letters that words for this configuration are made of
fn letters(id: &str) -> Vec<String> {
    let mut v: Vec<String> = ["a", "b", "c", "d", "é", "x", "'", " ", "ß", "A", "İ", "-", "Ç", "中", "\u{301}"].iter().map(|x| x.to_string()).collect();
    if let Some(k) = id.strip_prefix(['H', 'I']) { for (_, b) in renamed(k.parse().unwrap()) { v.push(b.clone()); v.push(b) } }
    v
}
fn frame(rules: &str, langs: &str, guess: &str) -> Files {
    let mut f = Files::new();
    for (_, n) in NAMES {
        f.insert(format!("{n}_languages"), langs.to_string()); f.insert(format!("{n}_lang"), guess.to_string());
        for k in KINDS { for l in langs.split_whitespace().chain(["common"]) { f.insert(format!("{n}_{k}_{l}"), if k == "rules" { rules.to_string() } else { String::new() }); } }
    }
    f
}
/// 1 where the rule with the two contexts applies, 0 where it does not, - for the rest
fn one_rule(l: &str, r: &str, p: &str) -> Files {
    let mut t = format!("\"{p}\" \"{l}\" \"{r}\" \"1\"\n\"x\" \"\" \"\" \"0\"\n\"xy\" \"\" \"\" \"9\"\n");
    for c in ["a", "b", "c", "d", "y", "é", "$", "^", "[", "]", ".", "中", "e", "\u{301}"] { t += &format!("\"{c}\" \"\" \"\" \"-\"\n") }
    frame(&t, "any\n", "")
}
const CTX: &[&str] = &["", "", "", "a", "b", "ab", "ba", "é", "[ab]", "[^ab]", "[é]", "[a]", "[^]", "[]", "(a|b)", "(a|bc|é)", ".", "..", "a.", "[ab]c", "a[bc]", "[a-c]", "[a^]", "a*", "(a|)", "b+", "^^", "$$", "a$b", "[ab][cd]", "[[ab]]", "^[^b]*", "[^b]{20,}", "a{3}", "(a|b)*c", "\\w", "x", "中", "[中é]", "中a", "[^中]", "e\u{301}", "[^^b]", "[^^]", "[^^a]", "[^ab^]", "[b^a]", "[^a^]", "[$a]", "[^$]", "[a$]"];
pub fn context(r: &mut Rng, left: bool) -> String {
    let mut s = r.pick(CTX).to_string();
    if r.chance(1, 8) { s += *r.pick(CTX) }
    if r.chance(1, 4) { if left == !r.chance(1, 6) { s = format!("^{s}") } else { s = format!("{s}$") } }
    s
}
fn invented(k: u64, bad: bool) -> Files {
    let mut r = Rng::new(0xb3 + bad as u64, k);
    let langs: Vec<&str> = ["any", "la", "lb", "lc"][..1 + r.below(4)].to_vec();
    let mut f = Files::new();
    let nl = if r.chance(1, 5) { "\r\n" } else { "\n" };
    const L: &[&str] = &["a", "b", "c", "d", "é", "x", "'", " ", "ß", "中", "\u{301}"];
    const P: &[&str] = &["1", "2", "ab", "c", "", "é", "x", "a|b", "n"];
    let miss = if bad && r.chance(1, 10) { r.below(40) } else { usize::MAX };
    let wrong = if bad { r.below(60) } else { usize::MAX };
    let phoneme = |r: &mut Rng, bad: bool| -> String {
        let one = |r: &mut Rng| { let mut p = r.pick(P).replace('|', ""); if r.chance(1, 3) { let n = 1 + r.below(2); p += &format!("[{}]", (0..n).map(|_| *r.pick(&["la", "lb", "lc", "any", "zz"])).collect::<Vec<_>>().join("+")) } p };
        if bad && r.chance(1, 3) { return r.pick(&["(a", "a[la", "(a[la|b)", "(", "[", "()", "a[]", "[la]", "(|)", ")", "a]", "a[la]b", "(a|b))", "(|a[la])", "((a|b))"]).to_string() }
        match r.below(4) { 0 | 1 => one(r), _ => { let n = 1 + r.below(4); let v: Vec<String> = (0..n).map(|_| one(r)).collect(); format!("({}{}{})", if r.chance(1, 8) { "|" } else { "" }, v.join("|"), if r.chance(1, 8) { "|" } else { "" }) } }
    };
    let mut count = 0;
    for (_, n) in NAMES {
        f.insert(format!("{n}_languages"), { let mut t = String::new(); if r.chance(1, 4) { t += "/* x\n y */\n" } if r.chance(1, 4) { t += "/* x */\n" } for l in &langs { t += l; if r.chance(1, 5) { t += " // c" } t += nl; if r.chance(1, 5) { t += nl } } if bad && r.chance(1, 30) { t += *r.pick(&["la lb", "é", "l1", "/* x"]) } t });
        f.insert(format!("{n}_lang"), { let mut t = String::new(); for _ in 0..r.below(6) { match r.below(8) { 0 => t += *r.pick(&["// x", "/* x */"]), 1 => t += "/* x\n\n*/", 2 => {}, _ => { t += &format!("{} {} {}", r.pick(&["a", "^a", "b$", "[ab]c", "é", "^de", "x.*b", "'", "(a|b)c", "xy", "a\u{a0}b", "a\tb", "x\u{2003}", "c\u{b}d", "\u{85}a"]), (0..1 + r.below(3)).map(|_| *r.pick(&["la", "lb", "lc", "any", "zz"])).collect::<Vec<_>>().join("+"), r.chance(2, 3)) } } t += nl } if bad && r.chance(1, 30) { t += *r.pick(&["a la", "a la maybe", "[a la true", "a  la true", " a la true", "a la true x", "é la+lb false// ok"]) } t });
        for k in KINDS {
            for l in langs.iter().copied().chain(["common"]) {
                let mut t = String::new();
                let lines = if k == "rules" { 4 + r.below(8) } else { r.below(6) };
                for _ in 0..lines {
                    count += 1;
                    match r.below(12) {
                        0 => t += "// \"a\" \"\" \"\" \"1\"",
                        1 => t += &r.pick(&["/* one{} two\n\n*/", "/* one */"]).replace("{}", nl),
                        2 => {}
                        3 => t += &format!("#include {}", r.pick(&["inc-1", "inc_2", "incé3"])),
                        _ => { let p: String = (0..1 + r.below(3) * r.below(2)).map(|_| *r.pick(L)).collect(); let (a, b) = (context(&mut r, true), context(&mut r, false)); let good = bad || (o::bm_good(o::bm_left(str_seq(&a))) && o::bm_good(o::bm_right(str_seq(&b)))); let ph = phoneme(&mut r, bad && count % 97 == wrong); t += &format!("\"{p}\" \"{}\" \t\"{}\"  \"{ph}\"", if good { &a } else { "" }, if good { &b } else { "" }) }
                    }
                    if bad && count % 150 == wrong { t += *r.pick(&[" x", "\"\" \"\" \"\" \"1\"", "#include", "#include none", "\"a\" \"b\"", "/*", "#include inc-1 x", "\u{a0}"]) }
                    if r.chance(1, 6) { t += "  // end" }
                    t += nl
                }
                if k == "rules" { for c in L { if r.chance(5, 6) { t += &format!("\"{c}\" \"\" \"\" \"{}\"{nl}", phoneme(&mut r, false)) } } }
                if count != miss { f.insert(format!("{n}_{k}_{l}"), t); }
            }
        }
    }
    f.insert("inc-1".into(), format!("\"a\" \"\" \"\" \"7\"{nl}#include inc_2{nl}\"b\" \"\" \"a\" \"(8|9)\"{}", if bad && r.chance(1, 12) { "\nx" } else { "" }));
    f.insert("incé3".into(), "\"中\" \"\" \"\" \"3\"\n/* x */\n\"d\u{301}\" \"\" \"\" \"4\"".into());
    f.insert("inc_2".into(), "\"c\" \"\" \"\" \"6[la]\"\n\"a\" \"b\" \"\" \"5\" // x".into());
    f
}
/// phonemes with lists of languages, which final rules turn into the same texts
fn merging(k: u64) -> Files {
    let mut r = Rng::new(0x3e, k);
    let langs = ["any", "la", "lb", "lc"];
    let list = |r: &mut Rng| -> String { if r.chance(1, 4) { return String::new() } let n = 1 + r.below(3); format!("[{}]", (0..n).map(|_| *r.pick(&["la", "lb", "lc", "la", "lb", "lc", "any"])).collect::<Vec<_>>().join("+")) };
    let alts = |r: &mut Rng, of: &[&str], most: usize| -> String { let n = 1 + r.below(most); let v: Vec<String> = (0..n).map(|_| { let p = r.pick(of).to_string(); let l = list(r); p + &l }).collect(); if n == 1 { v[0].clone() } else { format!("({})", v.join("|")) } };
    let mut f = Files::new();
    for (_, n) in NAMES {
        f.insert(format!("{n}_languages"), langs.map(|l| format!("{l}\n")).concat());
        f.insert(format!("{n}_lang"), { let m = r.below(4); (0..m).map(|_| format!("{} {} {}\n", r.pick(&["a", "b", "c$", "^d", "ab", "cd"]), r.pick(&["la+lb", "lb+lc", "la+lb+lc", "la+lc+any", "lc"]), r.chance(2, 3))).collect() });
        for k in KINDS { for l in langs.iter().chain(["common"].iter()) {
            let mut t = String::new();
            if k == "rules" { for c in ["a", "b", "c", "d"] { t += &format!("\"{c}\" \"\" \"\" \"{}\"\n", alts(&mut r, &["x", "y", "z", "xy"], 4)) } }
            else { for c in ["x", "y", "z", "w"] { if r.chance(3, 4) { t += &format!("\"{c}\" \"{}\" \"\" \"{}\"\n", r.pick(&["", "", "", "^", "x", "y"]), alts(&mut r, &["z", "w", "z", "w", "x", ""], 3)) } } }
            f.insert(format!("{n}_{k}_{l}"), t);
        } }
    }
    f
}
/// one to three characters of a text inserted, replaced, doubled or left out
pub fn edited(r: &mut Rng, t: &str) -> String {
    const C: &[&str] = &["\"", "\"", "(", ")", "[", "]", "|", "+", "^", "$", "/", "*", "#", "\\", " ", "\t", "\r", "\n", "\u{a0}", "a", "b", "é", "1", "=", "中", "//", "/*", "*/", "#include ", "true", "  ", "\"\"", "-", "_", ".", "\u{301}"];
    let mut v: Vec<String> = t.chars().map(|c| c.to_string()).collect();
    for _ in 0..1 + r.below(3) {
        let i = r.below(v.len() + 1); let c = r.pick(C).to_string();
        match r.below(5) { 0 | 1 => v.insert(i, c), 2 if i < v.len() => v[i] = c, 3 if i < v.len() => { v.remove(i); } 4 if i < v.len() => { let j = r.below(v.len()); v.swap(i, j) } _ => v.push(c) }
    }
    v.concat()
}
/// a small configuration with one file whose text was edited
fn mutated(k: u64) -> Files {
    let mut r = Rng::new(0x51, k);
    const RULES: &[&str] = &["\"a\" \"\" \"\" \"1\"", "\"b\" \"a\" \"\" \"x[la]\"", "\"b\" \"\" \"[ab]\" \"(1|2)\"", "\"ab\" \"^\" \"$\" \"(x[la]|y[any+lb]|z)\"", "\"é\"\t\"[^é]\"  \"(a|b)\" \"(|é)\" // end", "#include inc", "#include in-c_2  // x", "// \"a\"", "/* a\nb */", "/* x */ // y", "", "\"a\" \"b\" \"c$\" \"é[la+lb]\""];
    const LANG: &[&str] = &["a la true", "^b any+la true", "[ab]é la+lb false", "(a|b)$ lb false // x", "// x", "/* a\n*/", ""];
    const LANGS: &[&str] = &["any", "la", "lb // x", "// y", "/* x */", "/* x\n y\n*/", ""];
    let which = r.below(4);
    let mut lines = |of: &[&str]| -> String { let n = 1 + r.below(4); let nl = if r.chance(1, 4) { "\r\n" } else { "\n" }; let mut t: String = (0..n).map(|_| r.pick(of).to_string() + nl).collect(); if r.chance(1, 4) { t.truncate(t.trim_end().len()) } t };
    let (rules, lang, langs) = (lines(RULES), lines(LANG), format!("any\nla\n{}", lines(LANGS)));
    let (a, b, c) = match which { 0 | 1 => (edited(&mut r, &rules), lang, "any\nla\n".to_string()), 2 => (rules, edited(&mut r, &lang), "any\nla\n".to_string()), _ => (rules, lang, edited(&mut r, &langs)) };
    let mut f = frame(&a, "any\nla\n", &b);
    let clean = "\"a\" \"\" \"\" \"1\"\n\"b\" \"\" \"\" \"2\"\n\"é\" \"\" \"\" \"3\"\n";
    // the files of the other names and of one language stay as they were
    for (_, n) in NAMES { for l in ["any", "la"] { if r.chance(1, 2) { f.insert(format!("{n}_rules_{l}"), clean.to_string()); } } if r.chance(1, 2) { f.insert(format!("{n}_approx_common"), a.clone()); } f.insert(format!("{n}_languages"), if r.chance(1, 3) { c.clone() } else { "any\nla\n".into() }); }
    f.insert("inc".into(), "\"a\" \"\" \"\" \"7\"\n#include in-c_2\n\"b\" \"\" \"a\" \"(8|9)\"".into());
    f.insert("in-c_2".into(), if r.chance(1, 3) { edited(&mut r, "\"c\" \"\" \"\" \"6[la]\"\n\"a\" \"b\" \"\" \"5\"\n") } else { "\"c\" \"\" \"\" \"6[la]\"\n\"a\" \"b\" \"\" \"5\" // x".into() });
    for (n, t) in f.iter_mut() { if n.starts_with("in") { *t = t.replace("#include inc", "").replace("#include in-c_2", if n == "inc" { "#include in-c_2" } else { "" }) } }
    f
}
fn set(s: &str) -> (LanguageSet, Option<Set<Seq<char>>>) {
    match s { "*" => (LanguageSet::Any, None), "-" => (LanguageSet::NoLanguages, Some(Set::empty())), s => { let v: Vec<&str> = s.split(',').collect(); (LanguageSet::from(v.clone()), Some(Set::of(v.iter().map(|x| str_seq(x)).collect()))) } }
}
/// cfg: configuration, name, kind, concat, max, languages ("" to guess them), separated by \u{2}
pub fn c13_case(g: &Gen, i: u64) -> Case {
    let (mut a, j) = g.input(i);
    let mut r = Rng::new(g.seed ^ 0x13, j);
    let id = match r.below(8) { 0..=1 => "E".to_string(), 2..=4 => "A".to_string(), 5 => format!("H{}", r.below(400)), 6 => format!("M{}", r.below(600)), _ => format!("G{}", r.below(400)) };
    if j >= g.n_exhaustive() {
        if (id.starts_with('G') || id.starts_with('H')) && r.chance(4, 5) { let l = letters(&id); a = (0..r.below(12)).map(|_| r.pick(&l).clone()).collect() }
        if id.starts_with('M') { a = (0..1 + r.below(5)).map(|_| *r.pick(&["a", "b", "c", "d"])).collect() }
        if a.chars().count() > 40 { a = a.chars().take(40).collect() }
        let pre = ["bar", "ben", "da", "de", "van", "von", "dal", "de la", "del", "dela", "della", "des", "di", "do", "dos", "du", "al", "el", "d'", "D'", "Van", "d’", "dé", "d"];
        match if id.starts_with('M') { 9 } else { r.below(10) } {
            0 => a = format!("{} {a}", r.pick(&pre)), 1 => a = format!("{}{a}", r.pick(&pre)), 2 => a = format!("{}-{a}", r.pick(&pre)),
            3 => { let b = r.pick(&g.d.corpus); a = format!("{a}{}{b}", r.pick(&[" ", "-", "  ", "'", " d'", " de ", "\u{a0}", " - "])) }
            4 => { let b = r.pick(&g.d.corpus); a = format!("{} {} {b} {a}", r.pick(&pre), r.pick(&pre)) }
            5 => a = r.pick(&g.d.corpus).clone(),
            _ => {}
        }
    }
    let n = r.below(3);
    let l = match if id.starts_with('M') { r.below(3) } else { r.below(6) } { 0 => "*", 1 => *r.pick(&["-", "any", "la", "la,lb", "french", "french,german", "la,lc", "lb,lc", "lb", "english,zz", "zz", "polish", "common", "la,lb,lc,any", "hebrew"]), _ => "" };
    let mut max = *r.pick(&[20, 20, 20, 20, 1, 0, 2, 3, 5, 50]);
    if a.chars().count() > 24 { a = a.chars().take(24 + r.below(2) * r.below(16)).collect() }
    if a.chars().count() > 12 && max == 50 { max = 21 }
    Case { cfg: format!("{id}\u{2}{n}\u{2}{}\u{2}{}\u{2}{max}\u{2}{l}", r.below(2), r.chance(2, 3)), a, b: String::new() }
}
pub fn c13(c: &Case) -> Result<String, String> {
    let p: Vec<&str> = c.cfg.split('\u{2}').collect();
    let b = config(p[0]);
    let f = b.real.as_ref().map_err(|e| format!("ConfigFiles::new of {} {e}", p[0]))?.as_ref().map_err(|e| format!("the configuration {} is refused: {e}", p[0]))?;
    let s = b.spec.as_ref().map_err(|_| format!("the configuration {} is accepted", p[0]))?;
    let (n, k, concat, max): (usize, usize, bool, usize) = (p[1].parse().unwrap(), p[2].parse().unwrap(), p[3] == "true", p[4].parse().unwrap());
    let cfg = o::BmCfg { rules: s.rules, langs: s.langs[n], guess: s.guess[n], name: n as int, kind: k as int, concat, max: max as int };
    let e = BeiderMorseBuilder::new(f).name_type(NAMES[n].0).rule_type(if k == 0 { RuleType::Approx } else { RuleType::Exact }).concat(concat).max_phonemes(max).build();
    let t = str_seq(&c.a);
    let (got, want, what) = if p[5].is_empty() {
        let want = seq_str(o::bm_encode(cfg, t));
        (real(|| e.encode(&c.a)), want, "encode".to_string())
    } else {
        let (ls, l) = set(p[5]);
        (real(|| e.encode_with_languages(&c.a, &ls)), seq_str(o::bm_code(cfg, o::bm_norm(t), l)), format!("encode_with_languages {}", p[5]))
    };
    let got = got.map_err(|x| format!("{what}({:?}) {x}, expected {want:?} ({:?})", c.a, p))?;
    if got != want { return Err(format!("{what}({:?}) = {got:?}, expected {want:?} (configuration, name, kind, concat, max, languages: {:?})", c.a, p)) }
    if c.cfg == "E\u{2}1\u{2}0\u{2}true\u{2}20\u{2}" { let x = real(|| BeiderMorseBuilder::new(f).build().encode(&c.a))?; if x != want { return Err(format!("the default encoder: encode({:?}) = {x:?}, expected {want:?}", c.a)) } }
    Ok(got)
}
/// the encoder of a configuration of C13, when it can be built, and the languages given, if any
pub fn encoder(cfg: &str) -> Option<(BeiderMorse<'static>, Option<LanguageSet>, Config)> {
    let p: Vec<&str> = cfg.split('\u{2}').collect();
    let b = config(p[0]);
    let f: &'static ConfigFiles = match &b.real { Ok(Ok(f)) => f, _ => return None };
    let (n, k, concat, max): (usize, usize, bool, usize) = (p[1].parse().unwrap(), p[2].parse().unwrap(), p[3] == "true", p[4].parse().unwrap());
    let e = BeiderMorseBuilder::new(f).name_type(NAMES[n].0).rule_type(if k == 0 { RuleType::Approx } else { RuleType::Exact }).concat(concat).max_phonemes(max).build();
    Some((e, if p[5].is_empty() { None } else { Some(set(p[5]).0) }, b.clone()))
}
pub fn c20_case(g: &Gen, i: u64) -> Case {
    let mut r = Rng::new(g.seed ^ 0x20, i);
    let mut q = Rng::new(0x20, r.below(2500) as u64);
    let (l, rr) = (context(&mut q, true), context(&mut q, false));
    let p = *q.pick(&["x", "x", "x", "x", "xa", "x\u{301}", "xé", "é", "xab", "中b"]);
    let a: String = if i < g.n_exhaustive() { g.input(i).0 } else { (0..1 + r.below(9)).map(|_| *r.pick(&["x", p, p, "a", "b", "c", "d", "é", "y", "ab", "$", "^", "[", "]", ".", "中", "e\u{301}"])).collect() };
    let a = if i >= g.n_exhaustive() && r.chance(1, 8) { let t = r.pick(&["a", "ab", "c", "é", "xb", "中"]).repeat(1 + r.below(70)); if r.chance(1, 2) { format!("{}{t}{a}", r.pick(&["", "b", "a"])) } else { format!("{a}{t}{}", r.pick(&["", "b", "x"])) } } else { a };
    Case { cfg: format!("T{l}\u{1}{rr}\u{1}{p}"), a, b: String::new() }
}
pub fn c20(c: &Case) -> Result<String, String> {
    let v: Vec<&str> = c.cfg[1..].split('\u{1}').collect();
    let (l, rr, p) = (v[0], v[1], v[2]);
    let b = config(&c.cfg);
    let f = match (b.real.as_ref().map_err(|e| format!("contexts {l:?}, {rr:?}: {e}"))?, &b.spec) {
        (Ok(f), Ok(_)) => f, (Err(_), Err(_)) => return Ok("refused".into()),
        (Ok(_), Err(_)) => return Err(format!("contexts {l:?}, {rr:?} are accepted")), (Err(e), Ok(_)) => return Err(format!("contexts {l:?}, {rr:?} are refused: {e}")),
    };
    let s = b.spec.as_ref().ok().unwrap();
    let cfg = o::BmCfg { rules: s.rules, langs: s.langs[1], guess: s.guess[1], name: 1, kind: 1, concat: true, max: 20 };
    let e = BeiderMorseBuilder::new(f).rule_type(RuleType::Exact).build();
    let want = seq_str(o::bm_encode(cfg, str_seq(&c.a)));
    let got = real(|| e.encode(&c.a)).map_err(|x| format!("contexts {l:?}, {rr:?}: encode({:?}) {x}", c.a))?;
    if got != want { return Err(format!("with the rule {p:?} {l:?} {rr:?} \"1\" (else 0, - for other characters): encode({:?}) = {got:?}, expected {want:?}", c.a)) }
    Ok(got)
}
/// texts of rules, with a mistake or not
pub fn c21_case(g: &Gen, i: u64) -> Case {
    let mut r = Rng::new(g.seed ^ 0x21, i);
    if r.chance(1, 2) { let k = r.next() % 5000; let a: String = (0..r.below(10)).map(|_| *r.pick(&["a", "b", "c", "h", "é", "ß", "m", "n", "e", "i", "中", "s", "z", "'", "\"", "\\", " "])).collect(); let (mut t, a) = crate::props::dam_renamed(g, &mut r, crate::props::dam_text(k, true), a); if r.chance(1, 4) { t = edited(&mut r, &t) } return Case { cfg: format!("D{t}"), a, b: String::new() } }
    let id = if r.chance(3, 5) { format!("Q{}", r.below(20000)) } else { format!("{}{}", r.pick(&["G", "B", "H", "I", "B", "I"]), r.below(1500)) };
    let l = letters(&id);
    let a: String = (0..r.below(10)).map(|_| r.pick(&l).clone()).collect();
    Case { cfg: id, a, b: String::new() }
}
fn line_of(text: &str, want: i64) -> Option<&str> { text.split('\n').nth(want as usize - 1) }
pub fn c21(c: &Case) -> Result<String, String> {
    if let Some(t) = c.cfg.strip_prefix('D') { return dm_text(t, &c.a) }
    let b = config(&c.cfg);
    let got = b.real.as_ref().map_err(|e| format!("ConfigFiles::new of {} {e}", c.cfg))?;
    match (got, &b.spec) {
        (Ok(f), Ok(s)) => {
            let mut out = String::new();
            for n in 0..3 { for k in 0..2 {
                // outside the domain: a name type whose languages lack any
                if !s.langs[n].contains(S!("any")) { continue }
                let cfg = o::BmCfg { rules: s.rules, langs: s.langs[n], guess: s.guess[n], name: n as int, kind: k as int, concat: true, max: 20 };
                let e = BeiderMorseBuilder::new(f).name_type(NAMES[n].0).rule_type(if k == 0 { RuleType::Approx } else { RuleType::Exact }).build();
                let want = seq_str(o::bm_encode(cfg, str_seq(&c.a)));
                let got = real(|| e.encode(&c.a))?;
                if got != want { return Err(format!("rules {}, name type {n}, rule type {k}: encode({:?}) = {got:?}, expected {want:?}", c.cfg, c.a)) }
                out += &got; out.push(' ');
            } }
            Ok(out)
        }
        (Ok(_), Err(_)) => Err(format!("the rules {} are accepted", c.cfg)),
        (Err(e), Ok(_)) => Err(format!("the rules {} are refused: {e}", c.cfg)),
        (Err(e), Err(bad)) => {
            let told = match e {
                PhoneticError::ParseRuleError(e) => Bad::Line(e.filename.clone().map(|f| std::path::Path::new(&f).file_stem().unwrap_or_default().to_string_lossy().to_string()), e.line_number as i64, e.line_content.clone()),
                _ => Bad::Other,
            };
            if !bad.contains(&told) { return Err(format!("rules {}: the error is {e:?}, expected {bad:?}", c.cfg)) }
            Ok(format!("{told:?}"))
        }
    }
}
fn dm_text(t: &str, a: &str) -> Result<String, String> {
    let d = o::dam_build(str_seq(t));
    let e = real(|| DaitchMokotoffSoundexBuilder::with_rules(t).build()).map_err(|p| format!("build of {t:?} {p}"))?;
    match (e, d.bad) {
        (Ok(e), None) => {
            let want: Vec<String> = o::dam_codes(d.rules, true, d.fold, str_seq(a), true).0.iter().map(|x| seq_str(*x)).collect();
            let got = real(|| e.soundex(a))?;
            if got != want.join("|") { return Err(format!("rules {t:?}: soundex({a:?}) = {got:?}, expected {want:?}")) }
            Ok(got)
        }
        (Ok(_), Some(_)) => Err(format!("the rules {t:?} are accepted")),
        (Err(e), None) => Err(format!("the rules {t:?} are refused: {e}")),
        (Err(PhoneticError::ParseRuleError(e)), Some((n, rest))) => {
            if e.line_number as i64 != n { return Err(format!("rules {t:?}: the error names line {}, expected {n}", e.line_number)) }
            let rest = seq_str(rest);
            if line_of(&rest, 1) != Some(e.line_content.as_str()) { return Err(format!("rules {t:?}: the error shows {:?} as line {n}, which is {:?}", e.line_content, line_of(&rest, 1))) }
            Ok(format!("line {n}"))
        }
        (Err(e), Some(_)) => Err(format!("the rules {t:?}: an error that names no line: {e}")),
    }
}
