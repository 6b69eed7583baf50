//! Inputs: exhaustive short strings, every literal of the source in every short context, and random
//! mixtures. The dictionary (string, character and number literals) is read from /repo's CURRENT
//! source at run time, so a literal that a change introduces is in it.
use std::collections::BTreeSet;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, i: u64) -> Self { let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ i.wrapping_mul(0xD1B54A32D192ED03) ^ 0x2545F4914F6CDD1D); r.next(); r.next(); r }
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn chance(&mut self, a: usize, b: usize) -> bool { self.below(b) < a }
}

pub struct Dict { pub toks: Vec<String>, pub nums: Vec<usize>, pub corpus: Vec<String> }

fn literals(src: &str, strs: &mut BTreeSet<String>, nums: &mut BTreeSet<usize>) {
    let b: Vec<char> = src.chars().collect();
    let mut i = 0;
    let unesc = |s: &str| s.replace("\\\"", "\"").replace("\\'", "'").replace("\\n", "\n").replace("\\t", "\t").replace("\\\\", "\\");
    while i < b.len() {
        match b[i] {
            '/' if i + 1 < b.len() && b[i + 1] == '/' => { while i < b.len() && b[i] != '\n' { i += 1 } }
            '"' => {
                let mut j = i + 1; let mut s = String::new();
                while j < b.len() && b[j] != '"' { if b[j] == '\\' && j + 1 < b.len() { s.push(b[j]); j += 1; } s.push(b[j]); j += 1 }
                strs.insert(unesc(&s)); i = j + 1; continue
            }
            '\'' => {
                if i + 2 < b.len() && b[i + 1] != '\\' && b[i + 2] == '\'' { strs.insert(b[i + 1].to_string()); i += 3; continue }
                if i + 2 < b.len() && b[i + 1] == '\\' {
                    let mut j = i + 2; while j < b.len() && b[j] != '\'' { j += 1 }
                    let s: String = b[i + 1..j].iter().collect();
                    if let Some(h) = s.strip_prefix("\\u{") { if let Some(c) = u32::from_str_radix(h.trim_end_matches('}'), 16).ok().and_then(char::from_u32) { strs.insert(c.to_string()); } } else { strs.insert(unesc(&s)); }
                    i = j + 1; continue
                }
            }
            c if c.is_ascii_digit() && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) => {
                let mut j = i; let mut s = String::new();
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == '_') { if b[j] != '_' { s.push(b[j]) } j += 1 }
                let v = if let Some(h) = s.strip_prefix("0x") { usize::from_str_radix(h.trim_end_matches(|c: char| !c.is_ascii_hexdigit()), 16).ok() } else { s.trim_end_matches(|c: char| !c.is_ascii_digit()).parse().ok() };
                if let Some(v) = v { nums.insert(v); }
                i = j; continue
            }
            _ => {}
        }
        i += 1
    }
}

impl Dict {
    /// `srcs`: files whose non-test literals form the dictionary; the corpus is every literal of the crate.
    pub fn load(repo: &str, srcs: &[&str]) -> Dict {
        let (mut st, mut nu) = (BTreeSet::new(), BTreeSet::new());
        let (mut cs, mut cn) = (BTreeSet::new(), BTreeSet::new());
        for f in srcs {
            let t = std::fs::read_to_string(format!("{repo}/{f}")).unwrap_or_default();
            let cut = t.find("#[cfg(test)]\nmod ").unwrap_or(t.len());
            literals(&t[..cut], &mut st, &mut nu);
            literals(&t, &mut cs, &mut cn);
        }
        let toks: BTreeSet<String> = st.iter().filter(|s| !s.is_empty() && s.chars().count() <= 16).cloned().collect();
        let mut corpus: BTreeSet<String> = cs.iter().filter(|s| s.len() < 60).cloned().collect();
        for n in NAMES.split_whitespace() { corpus.insert(n.to_string()); }
        let nums: BTreeSet<usize> = nu.iter().copied().filter(|n| *n <= 4096).collect();
        Dict { toks: toks.into_iter().collect(), nums: nums.into_iter().collect(), corpus: corpus.into_iter().collect() }
    }
}
pub const NAMES: &str = "Smith Schmidt Knight Wright Pfister Phillip Macdonald McCarthy O'Brien D'Angelo Zhang Xavier Thompson Jimenez Gallegos Filipowicz Iwanowski Wojciechowski Schwarzenegger Mueller Breschnew Krueger Jakobowitz Szewczyk Czajkowski Chebyshev Tchaikovsky Humphrey Lough Enough Trough Gnome Lamb Dumb Laugh Bough Vaughan Hugh Ghislane Aghast Whitford Wheaton Raspberry Quixote Jacques Llewellyn Cabrillo Accede Bacchus Focaccia Caesar Chianti Michael Chorus Orchestra Architect Dumbledore Edgar Judge Edge Knack Pneumonia Aeon Island Isle Sugar Resnais Artois Breaux Zwick Uuzawa Rogier Hochmeier Danger Ranger Manger Tagliaro Biaggi Jose Yankelovich Bajador Hallo Bertucci Bellocchio Arnow Arnoff Vaughn Asylum Wachtler Mclaughlin Cautious Nation Mention Action Szyzyg Tsjaj Rosenberg Auerbach Uhrbach Moskowitz Moskovitz Ceniow Tsenyuv Holubica Golubitsa Przemysl Pshemeshil Rosochowaciec Peters Peterson Jackson Ben-Aron van-der-Berg del-Rosario de-la-Cruz la-Torre Abram Toth Nagy Renault Straßburger Ångström Håkan Muñoz François Łódź ĞÜNEŞ İstanbul ﬁsh ǅungla ŉaba ΐχθυς";
pub const SPECIAL: &[&str] = &["é", "ß", "Ł", "İ", "ı", "ŉ", "ǆ", "ﬁ", "ÿ", "ñ", "Ç", "ç", "Ñ", "Å", "ü", "ä", "ö", "Ö", "Ü", "Ä", "α", "Σ", "ς", "Ж", "א", "中", "😀", "\u{301}", "\u{200d}", "\u{0}", "'", "-", " ", "  ", "\t", "\n", ".", ",", "0", "9", "1", "_", "|", "(", ")", "[", "]", "^", "$", "\"", "\\", "ª", "²", "ſ", "K", "\u{a0}", "\u{2028}", "ţ", "ț", "ŏ", "ǰ", "ẖ", "ẗ", "ẘ", "ẙ", "ΐ", "ﬃ", "ǅ", "Å", "\u{ad}", "\u{feff}", "\u{fe0f}", "ʼ", "\u{10ffff}"];
/// any Unicode scalar value, mostly from the blocks with letters, marks and format characters
pub fn any_scalar(r: &mut Rng) -> char {
    let (lo, hi) = *r.pick(&[(0x00usize, 0x7f), (0x80, 0x24f), (0x80, 0x24f), (0x250, 0x5ff), (0x600, 0x1fff), (0x2000, 0x2fff), (0xfb00, 0xffff), (0xfe00, 0xfe2f), (0x3000, 0xd7ff), (0xe000, 0x1ffff), (0x20000, 0x10ffff)]);
    char::from_u32((lo + r.below(hi - lo + 1)) as u32).unwrap_or('\u{fffd}')
}
pub const UP: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZ";

pub struct Gen<'a> { pub d: &'a Dict, pub seed: u64, pub alpha: Vec<char>, pub depth: usize }
impl<'a> Gen<'a> {
    pub fn n_exhaustive(&self) -> u64 { (0..=self.depth).map(|k| (self.alpha.len() as u64).pow(k as u32)).sum() }
    fn exhaustive(&self, mut i: u64) -> String {
        let n = self.alpha.len() as u64;
        for k in 0..=self.depth { let m = n.pow(k as u32); if i < m { let mut s = vec![]; for _ in 0..k { s.push(self.alpha[(i % n) as usize]); i /= n } s.reverse(); return s.into_iter().collect() } i -= m }
        String::new()
    }
    fn ctx(&self) -> Vec<String> { let mut v = vec![String::new()]; v.extend(UP.chars().map(|c| c.to_string())); for x in ["é", " ", "ß", "1", "-"] { v.push(x.to_string()) } v }
    pub fn n_context(&self) -> u64 { let c = 32u64; c * c * self.d.toks.len() as u64 + self.d.corpus.len() as u64 }
    fn context(&self, i: u64) -> String {
        let c = self.ctx();
        let m = (c.len() * c.len()) as u64;
        let k = (i / m) as usize;
        if k >= self.d.toks.len() { let j = (i - m * self.d.toks.len() as u64) as usize; return self.d.corpus[j % self.d.corpus.len()].clone() }
        let r = (i % m) as usize;
        format!("{}{}{}", c[r / c.len()], self.d.toks[k], c[r % c.len()])
    }
    pub fn token(&self, r: &mut Rng) -> String {
        match r.below(10) {
            0..=4 => { let n = 1 + r.below(3); (0..n).map(|_| UP.as_bytes()[r.below(26)] as char).collect() }
            5..=7 if !self.d.toks.is_empty() => r.pick(&self.d.toks).clone(),
            8 if r.chance(1, 4) => any_scalar(r).to_string(),
            8 => r.pick(SPECIAL).to_string(),
            _ => { let n = 1 + r.below(2); (0..n).map(|_| b"AEIOUY"[r.below(6)] as char).collect() }
        }
    }
    pub fn random(&self, r: &mut Rng) -> String {
        let mut s = String::new();
        match r.below(12) {
            0 => { s = r.pick(&self.d.corpus).clone(); let k = r.below(3); for _ in 0..k { let t = self.token(r); let cs: Vec<char> = s.chars().collect(); let p = r.below(cs.len() + 1); let del = r.below(2).min(cs.len() - p); s = cs[..p].iter().collect::<String>() + &t + &cs[p + del..].iter().collect::<String>(); } }
            1 => { // lengths around the numbers in the source
                let n = if self.d.nums.is_empty() { 8 } else { *r.pick(&self.d.nums) };
                // a counter may stand for characters, for bytes or for a few characters each
                let k = if r.chance(1, 2) { 1 } else { 1 + r.below(4) };
                let cap = if r.chance(1, 24) { 2200 } else { 600 };
                let n = (n * k + r.below(3)).saturating_sub(1).min(cap);
                let t: Vec<String> = (0..1 + r.below(4)).map(|_| self.token(r)).collect();
                while s.chars().count() < n { s.push_str(r.pick(&t)) }
                s = s.chars().take(n).collect();
            }
            2 => { let n = 1 + r.below(60); for _ in 0..n { s.push_str(&self.token(r)) } }
            3 => { let n = 1 + r.below(4); let a: Vec<char> = (0..n).map(|_| UP.as_bytes()[r.below(26)] as char).collect(); let l = r.below(40); for _ in 0..l { s.push(*r.pick(&a)) } }
            _ => { let n = 1 + r.below(6); for _ in 0..n { s.push_str(&self.token(r)) } }
        }
        match r.below(6) { 0 => s.to_lowercase(), 1 => s.to_uppercase(), 2 => s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(), _ => s }
    }
    /// the i-th input: exhaustive part, then literal contexts, then random for ever
    pub fn input(&self, i: u64) -> (String, u64) {
        let e = self.n_exhaustive(); let c = self.n_context();
        if i < e { return (self.exhaustive(i), i) }
        if i < e + c { let mut r = Rng::new(self.seed, i); let s = self.context(i - e); return (match r.below(4) { 0 => s.to_lowercase(), _ => s }, i) }
        let mut r = Rng::new(self.seed, i);
        (self.random(&mut r), i)
    }
}
