SEEDS={}
def seed(id,prop,edits,demo,needs,breaks,**k):
    """demo: Rust statements, or a list of expressions whose values on the unchanged tree are the expected ones"""
    SEEDS[id]=dict(property=prop,edits=edits,demo=demo if isinstance(demo,list) else 'use rphonetic::*;\nfn main() {\n'+demo+'\n}\n',needs=needs,breaks=breaks,**k)
BM=r"""
#[allow(dead_code)] struct Dir(std::path::PathBuf);
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
/// a configuration in a scratch directory: rules (general), common and any (final), language detection, for the languages any, en, fr
#[allow(dead_code)] fn config(rules: &str, common: &str, any: &str, lang: &str, extra: &[(&str, &str)]) -> Result<ConfigFiles, String> {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let d = Dir(std::env::temp_dir().join(format!("bmdemo-{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst))));
    std::fs::create_dir_all(&d.0).unwrap();
    for n in ["ash", "gen", "sep"] {
        let w = |f: String, t: &str| std::fs::write(d.0.join(f), t).unwrap();
        w(format!("{n}_languages.txt"), "any\nen\nfr\n"); w(format!("{n}_lang.txt"), lang);
        for l in ["any", "en", "fr"] {
            w(format!("{n}_rules_{l}.txt"), rules); w(format!("{n}_approx_{l}.txt"), any); w(format!("{n}_exact_{l}.txt"), any);
        }
        w(format!("{n}_approx_common.txt"), common); w(format!("{n}_exact_common.txt"), common);
    }
    for (f, t) in extra { std::fs::write(d.0.join(f), t).unwrap(); }
    ConfigFiles::new(&d.0).map_err(|e| e.to_string())
}
"""
seed('s01-soundex-hw','C02',[('src/soundex.rs',"""                    if self.special_case_h_w && (ch == 'H' || ch == 'W') {
                        continue;""","""                    if self.special_case_h_w && (ch == 'H' || ch == 'W') {
                        if ch == 'W' && count == 3 {
                            previous = '0';
                        }
                        continue;""")],
 'assert_eq!(Soundex::default().encode("bdfwv"), "B310");\nassert_eq!(Soundex::default().encode("Ashcraft"), "A261");','a W after the third code symbol, followed by a letter with the same code as the one before the W','a repeated code separated by W is coded twice when it would be the fourth symbol')
seed('s02-cologne-separator','C04',[('src/cologne.rs',"""            if !ch.is_ascii_uppercase() {
                continue;""","""            if !ch.is_ascii_uppercase() {
                if ch == '-' {
                    last_char = CHAR_IGNORE;
                }
                continue;""")],
 'assert_eq!(Cologne.encode("BS-CA"), Cologne.encode("BSCA"));\nassert_eq!(Cologne.encode("BK-X"), "148");','a hyphen between S/Z and C (or C/K/Q and X)','a skipped character changes the code of the letter after it')
seed('s04-caverphone2-rr','C05',[('src/caverphone.rs',"""        let txt = txt.replace("r3", "R3");
        let txt = helper::replace_end(txt, "r", "3");""","""        let txt = helper::replace_end(txt, "r", "3");
        let txt = txt.replace("r3", "R3");""")],
 'assert_eq!(Caverphone2.encode("barr"), "PA11111111");','a word that ends in a double r','two rewrite steps are swapped: a doubled final r is coded')
seed('s06-soundex-tryfrom-hw','C19',[('src/soundex.rs',"""        let mapping: [char; 26] = mapping.chars().collect::<Vec<char>>().try_into()?;
        Ok(Self::from(mapping))
    }
}

impl FromStr""","""        let mapping: [char; 26] = mapping.chars().collect::<Vec<char>>().try_into()?;
        let silent = mapping[..25].contains(&SILENT);
        Ok(Self::new(mapping, !silent))
    }
}

impl FromStr""")],
 'let m = "0123012002245501262301020-";\nassert_eq!(Soundex::try_from(m), m.parse::<Soundex>());','a mapping whose only silent letter is Z, through try_from(&str)','one construction path treats H and W differently')
# ---- Refined Soundex
seed('s07-refined-foreign-run','C03',[('src/refined_soundex.rs',"            previous = code_value;","            if code_value.is_some() || !ch.is_alphanumeric() {\n                previous = code_value;\n            }")],
 ['RefinedSoundex::default().encode("bñp")','RefinedSoundex::default().encode("BÜBÜB")'],'a letter outside A-Z between two letters of the same code','a letter outside A-Z no longer breaks a run of equal codes')
seed('s09-cologne-initial-c','C04',[('src/cologne.rs',"                if output.buffer.is_empty() {\n","                if output.buffer.is_empty() && last_char == CHAR_IGNORE {\n")],
 ['Cologne.encode("HCLA")','Cologne.encode("HCR")'],'a word that begins with H (which has no code) followed by C before L or R','the initial C rule is not applied after a silent H')
seed('s10-cologne-ae','C04',[('src/cologne.rs',"        tmp = tmp.replace('Ä', \"A\");","        tmp = tmp.replace('Ä', \"A\").replace('Ë', \"E\");")],
 ['Cologne.encode("BËB")','Cologne.encode("BÖB")'],'a letter the table does not fold (Ë) between equal codes','a character that should be skipped is coded as a vowel')
# ---- Caverphone
seed('s11-caverphone1-vowel3','C05',[('src/caverphone.rs','        let txt = txt.replace("3gh3", "3kh3");\n        let txt = txt.replace("gh", "22");\n        let txt = txt.replace(\'g\', "k");\n        let txt =\n            helper::replace_compact_all_to_uppercase(txt, vec![\'s\', \'t\', \'p\', \'k\', \'f\', \'m\', \'n\']);\n        let txt = txt.replace("w3", "W3");\n        let txt = txt.replace("wy"','        let txt = txt.replace("gh", "22");\n        let txt = txt.replace("3gh3", "3kh3");\n        let txt = txt.replace(\'g\', "k");\n        let txt =\n            helper::replace_compact_all_to_uppercase(txt, vec![\'s\', \'t\', \'p\', \'k\', \'f\', \'m\', \'n\']);\n        let txt = txt.replace("w3", "W3");\n        let txt = txt.replace("wy"')],
 ['Caverphone1.encode("aghast")','Caverphone1.encode("bagha")'],'gh between two vowels inside a word','two rewrite steps of Caverphone 1 are swapped')
seed('s12-caverphone2-final-e','C05',[('src/helper.rs',"    if string.ends_with(pattern) {\n        string.replace_range","    if string.len() > 1 && string.ends_with(pattern) {\n        string.replace_range")],
 ['Caverphone2.encode("e")','Caverphone2.encode("E!")','Caverphone2.encode("we")'],'a word of a single letter e','a one letter word keeps its final e')
# ---- NYSIIS
seed('s15-nysiis-strict-bytes','C06',[('src/nysiis.rs',"            result.chars().take(TRUE_LENGTH).collect()","            let mut end = result.len().min(TRUE_LENGTH);\n            while !result.is_char_boundary(end) {\n                end -= 1;\n            }\n            result[..end].to_string()")],
 ['Nysiis::default().encode("Ébcdfgh")','Nysiis::default().encode("ñpñpñpñp")'],'a strict key with a letter of several bytes','the strict key is cut to 6 bytes')
# ---- Phonex
seed('s17-phonex-len0','C07',[('src/phonex.rs',"            if i == 0 {\n                result.push(curr);\n                last_push = curr;\n            }","            if i == 0 {\n                result.push(curr);\n                last_push = if curr.is_ascii() { curr } else { '0' };\n            }"),('src/phonex.rs',"            if result.chars().count() == self.max_code_length {","            if result.len() == self.max_code_length {")],
 ['Phonex::new(5).encode("Ébcdlra")','Phonex::new(3).encode("ñbcd")'],'a first letter of two bytes and a code that reaches the maximum length','the length is counted in bytes')
seed('s19-metaphone-gn','C08',[('src/metaphone.rs','                                || (index > 0\n                                    && (Metaphone::region_match(&local, index, "GN")','                                || (index > 1\n                                    && (Metaphone::region_match(&local, index, "GN")')],
 ['Metaphone::new(None).encode("agnes")','Metaphone::new(None).encode("IGNED")'],'GN as second and third letter','G of GN at position one is coded')
seed('s20-metaphone-nonascii','C08',[('src/metaphone.rs',"        let wdsz = local.chars().count();","        let wdsz = local.len();")],
 ['Metaphone::new(None).encode("éab")','Metaphone::new(None).encode("ñmb")','Metaphone::new(None).encode("ébiedgé")'],'a letter of several bytes and a rule about the last letter','the word length is counted in bytes')
seed('s22-mra-six','C09',[('src/match_rating_approach.rs',"        let len = value.chars().count();\n        if len > 6 {","        let len = value.len();\n        if len > 6 {"),('src/match_rating_approach.rs',"value.chars().skip(len - 3)","value.chars().skip(value.chars().count() - 3)")],
 ['MatchRatingApproach.encode("ßĐĐbcĐ")','MatchRatingApproach.encode("βγδζ")'],'four letters outside ASCII that are not folded','the length is counted in bytes')
seed('s23-mra-fold','C09',[('src/match_rating_approach.rs',"    'N', 'n', 'A', 'a', 'E', 'e', 'I', 'i', 'O', 'o', 'U', 'u', 'Y', 'y', 'A', 'a', 'C', 'c', 'O',","    'N', 'n', 'A', 'a', 'E', 'e', 'I', 'i', 'O', 'o', 'U', 'u', 'Y', 'y', 'O', 'a', 'C', 'c', 'O',")],
 ['MatchRatingApproach.encode("Åbc")','MatchRatingApproach.encode("ångst")'],'a name that begins with Å','Å is folded to O')
seed('s24-mra-compare','C10',[('src/match_rating_approach.rs',"        if r1 > r2 {\n            6usize.abs_diff(r1)","        if r1 > r2 + 1 {\n            6usize.abs_diff(r1)")],
 ['MatchRatingApproach.is_encoded_equals("Bcdfgh", "Bdcfg")','(0..40u32).map(|i| MatchRatingApproach.is_encoded_equals(["bcdfgh","bxdfz","kldmnp","brtst","bcdf","tst","smth","smtht","bcddfgx","zxcvbn"][(i % 10) as usize], ["bcdf","bdxf","klmnp","brtt","smtth","bcgd","tsm"][(i % 7) as usize])).collect::<Vec<_>>()','(0..4096u32).map(|i| { let w = |k: u32| (0..6).map(|j| ["b","c","d","f"][((k >> (2 * (j % 3))) & 3) as usize]).take(3 + (k % 4) as usize).collect::<String>(); MatchRatingApproach.is_encoded_equals(&w(i & 63), &w(i >> 6)) as u32 }).sum::<u32>()'],'two names whose unmatched letters differ by one in number','the rating uses the smaller remainder')
seed('s25-mra-minrating','C10',[('src/match_rating_approach.rs',"            8..=11 => 3,\n            12 => 2,","            8..=10 => 3,\n            11..=12 => 2,")],
 ['(0..7).flat_map(|a| (0..7).map(move |b| (a, b))).map(|(a, b)| { let w = "bcdfghjkl"; let v = "zbxcqdpfm"; MatchRatingApproach.is_encoded_equals(&format!("b{}", &w[..a]), &format!("b{}", &v[..b])) as u32 }).collect::<Vec<_>>()','MatchRatingApproach.is_encoded_equals("bcdfgh", "zxqgh")','MatchRatingApproach.is_encoded_equals("bcdfgh", "bzxqp")','MatchRatingApproach.is_encoded_equals("bcdfgh", "bczxq")','MatchRatingApproach.is_encoded_equals("bcdfgh", "zcdqp")'],'codes whose lengths sum to 11 and a rating of exactly 2','the minimum rating for a sum of 11 is 2')
# ---- Double Metaphone
seed('s26-dm-cc','C11',[('src/double_metaphone.rs',"            && !(index == 1 && Self::char_at(value, 0) == Some('M'))","            && !(index <= 2 && Self::char_at(value, 0) == Some('M'))")],
 ['DoubleMetaphone::new(None).double_metaphone("maccia")','DoubleMetaphone::new(None).double_metaphone("mocci")'],'a word whose third letter is a double C, beginning with M','the McClelland exception is applied one letter later')
seed('s30-daitch-dedup','C12',[('src/daitch_mokotoff.rs',"                                    .any(|other| other.builder == next_branch.builder)","                                    .any(|other| *other == next_branch)")],
 ['DaitchMokotoffSoundex::default().soundex("rsch")','DaitchMokotoffSoundexBuilder::with_rules("\\"a\\" \\"1|12\\" \\"1|12\\" \\"1|12\\"\\n\\"b\\" \\"23|3\\" \\"23|3\\" \\"23|3\\"\\n").build().unwrap().soundex("ab")','DaitchMokotoffSoundexBuilder::with_rules("\\"a\\" \\"1|12\\" \\"1|12\\" \\"1|12\\"\\n\\"b\\" \\"23|3\\" \\"23|3\\" \\"23|3\\"\\n").build().unwrap().soundex("abab")'],'two branches with the same code but different last replacement','codes are repeated')
seed('s31-daitch-vowel','C12',[('src/daitch_mokotoff.rs',"            next_index < context.len() && is_vowel(context.chars().nth(next_index), false);","            next_index < context.len() && is_vowel(context.chars().nth(next_index), true);")],
 ['DaitchMokotoffSoundexBuilder::with_rules("\\"b\\" \\"1\\" \\"2\\" \\"3\\"\\n\\"y\\" \\"4\\" \\"4\\" \\"4\\"\\n").build().unwrap().soundex("bby")','DaitchMokotoffSoundex::default().soundex("bajy")'],'a letter whose before-vowel code differs from its default, before Y','Y counts as a vowel')
seed('s33-lang-restrict','C14',[('src/beider_morse/languages.rs',"            (_, LanguageSet::NoLanguages) => other.clone(),\n            (LanguageSet::SomeLanguages(languages1), LanguageSet::SomeLanguages(languages2)) => {\n                let languages = languages1\n                    .intersection(","            (LanguageSet::Any, LanguageSet::NoLanguages) => self.clone(),\n            (_, LanguageSet::NoLanguages) => other.clone(),\n            (LanguageSet::SomeLanguages(languages1), LanguageSet::SomeLanguages(languages2)) => {\n                let languages = languages1\n                    .intersection(")],
 ['LanguageSet::Any.restrict_to(&LanguageSet::NoLanguages)'],'Any restricted to NoLanguages','the restriction of Any to nothing is everything')
seed('s34-lang-merge','C14',[('src/beider_morse/languages.rs',"                let languages = languages1\n                    .union(languages2)\n                    .cloned()\n                    .collect::<BTreeSet<String>>();\n                Self::SomeLanguages(languages)","                if languages1.is_superset(languages2) {\n                    return self.clone();\n                }\n                if languages1.is_disjoint(languages2) || languages2.is_superset(languages1) {\n                    let languages = languages1.union(languages2).cloned().collect();\n                    return Self::SomeLanguages(languages);\n                }\n                let languages = languages1\n                    .symmetric_difference(languages2)\n                    .cloned()\n                    .collect::<BTreeSet<String>>();\n                Self::SomeLanguages(languages)")],
 ['LanguageSet::from(vec!["a", "b"]).merge(&LanguageSet::from(vec!["b", "c"]))'],'two sets that overlap without one containing the other','the common languages are lost')
# ---- CharSequence: not public; through Beider-Morse
seed('s35-charseq-len','C15',[('src/helper.rs',"        let start: Option<(usize, _)> = iterator.next();\n        let skip = if index.end > index.start {\n            index.end - (index.start + 1)","        let start: Option<(usize, _)> = iterator.next();\n        let skip = if index.end > index.start {\n            index.end.min(self.inner.len()) - (index.start + 1)")],
 ['{ let r = std::panic::catch_unwind(|| { let c = CharSequence::from("abc"); c[7..9].to_string() }); r.ok() }'],'a slice entirely beyond the end of the text','an out-of-range slice panics')
# ---- difference
seed('s36-difference-bytes','C16',[('src/lib.rs','value1.chars().zip(value2.chars())','value1.bytes().zip(value2.bytes())')],['Soundex::default().difference("Éa", "Èa")'],'codes with letters of several bytes','bytes are compared instead of characters')
# ---- Beider-Morse engine
GEN='"BeiderMorseBuilder::new(&c).rule_type(RuleType::Exact)"'
R1=r'"\"a\" \"\" \"\" \"(a[en]|o[fr]|b)\"\n\"b\" \"\" \"\" \"(x[en]|y[fr]|x[fr])\"\n\"c\" \"\" \"\" \"(o|a)\"\n\"d\" \"\" \"\" \"(d[en]|d[fr])\"\n"'
def bm(cfg,enc): return '{ let c = config(%s).unwrap(); %s }'%(cfg,enc)
seed('s38-bm-zero-words','C13',[('src/beider_morse/engine.rs',"        if !self.concat && words.len() != 1 {","        if !self.concat && words.len() > 1 {")],
 [bm(R1+', "", "", "", &[]','BeiderMorseBuilder::new(&c).concat(false).build().encode("  ")')],'a name of no words without concatenation','the encoder panics',bm=True)
seed('s39-bm-guess','C13',[('src/beider_morse/lang.rs',"                } else {\n                    langs = langs.difference(&rule.languages).cloned().collect();\n                }","                } else if !rule.languages.is_superset(&langs) {\n                    langs = langs.difference(&rule.languages).cloned().collect();\n                }")],
 [bm(r'"\"a\" \"\" \"\" \"(a[en]|o[fr]|u[any])\"\n\"b\" \"\" \"\" \"b\"\n", "", "", "a en+fr true\nb en+fr false\n", &[]','["ab","a","b"].map(|w| BeiderMorseBuilder::new(&c).build().encode(w))')],'detection rules that exclude every language left','the last exclusion is ignored instead of leaving any language',bm=True)
seed('s43-bm-max','C13',[('src/beider_morse/engine.rs',"                    if phonemes.len() < max_phonemes {\n                        phonemes.insert(phoneme);\n                    }\n                    if phonemes.len() >= max_phonemes {","                    phonemes.insert(phoneme);\n                    if phonemes.len() >= max_phonemes {")],
 [bm(r'"\"a\" \"\" \"\" \"(a|b)\"\n", "", "", "", &[]','["a","aa"].map(|w| BeiderMorseBuilder::new(&c).max_phonemes(0).build().encode(w))')],'a maximum of 0 phonemes','one phoneme is kept',bm=True)
# ---- rule application
seed('s44-bm-equalschar-empty','C20',[('src/beider_morse/regex_optim.rs',"                        iterator.next().is_none() && char_list.contains(ch) == *should_match\n                    }\n                    None => false,","                        iterator.next().is_none() && char_list.contains(ch) == *should_match\n                    }\n                    None => !*should_match,")],
 [bm(r'"\"a\" \"^[^x]\" \"\" \"1\"\n\"a\" \"\" \"\" \"2\"\n\"x\" \"\" \"\" \"x\"\n", "", "", "", &[]','["a","xa","ba","aa"].map(|w| BeiderMorseBuilder::new(&c).build().encode(w))')],'a context of exactly one character not in a list, at the start of the word','the context matches the empty string',bm=True)
seed('s45-bm-char-bytes','C20',[('src/beider_morse/regex_optim.rs',"                        iterator.next().is_none() && char_list.contains(ch) == *should_match","                        ch.len_utf8() == input.len().min(2) && iterator.next().is_none() && char_list.contains(ch) == *should_match")],
 [bm(r'"\"a\" \"^[b日]\" \"\" \"1\"\n\"a\" \"\" \"\" \"2\"\n", "", "", "", &[]','["ba","日a","éa"].map(|w| BeiderMorseBuilder::new(&c).build().encode(w))')],'a one character context whose character takes three bytes','it never matches',bm=True)
seed('s46-bm-skip','C20',[('src/beider_morse/rule.rs',"            let pattern_length_char = pattern.chars().count();","            let pattern_length_char = pattern.chars().filter(|c| !('\\u{300}'..='\\u{36f}').contains(c)).count().max(1);")],
 [bm(r'"\"a\u{301}\" \"\" \"\" \"1\"\n\"a\" \"\" \"\" \"2\"\n\"b\" \"\" \"\" \"b\"\n", "", "", "", &[]','["a\\u{301}b","ab"].map(|w| BeiderMorseBuilder::new(&c).build().encode(w))')],'a pattern with a combining mark','the pattern is taken to be shorter than it is',bm=True)
seed('s47-bm-box-prefix','C20',[('src/beider_morse/regex_optim.rs',"                if !content.contains('[') {","                if !content.contains(\"][\") {")],
 [bm(r'"\"a\" \"\" \"[b]c[d]\" \"1\"\n\"a\" \"\" \"\" \"2\"\n", "", "", "", &[]','["abcd","ab","acd","ad"].map(|w| BeiderMorseBuilder::new(&c).build().encode(w))')],'a context with two lists that are not adjacent','the context is read as one list',bm=True)
# ---- reading rule files
seed('s48-bm-line','C21',[('src/beider_morse/languages.rs',"            line_number += ln - 1;","            line_number += ln.max(2) - 1;")],
 [r'config("", "", "", "", &[("gen_languages.txt", "/* one line */\nany\nen!\n")]).map(|_| ()).err().map(|e| e.contains("line 3") || e.contains(":3") || e.replace(char::is_alphabetic, "").contains("3"))',r'config("", "", "", "", &[("gen_languages.txt", "/* one line */\nany\nen!\n")]).map(|_| ()).err().map(|e| { let d = std::env::temp_dir(); let i = e.find("bmdemo").map_or(0, |i| e[i..].find("/").map_or(0, |j| i + j)); let _ = d; e[i..].to_string() })'],'a language file with a comment of one line before an error','the error names the wrong line',bm=True)
seed('s50-bm-include','C21',[('src/beider_morse/rule.rs',"            remains = rm;\n            result.extend(rules);","            remains = rm;\n            for (ch, rules) in rules {\n                result.entry(ch).or_insert(rules);\n            }")],
 [bm(r'"\"a\" \"\" \"\" \"1\"\n#include gen_more\n", "", "", "", &[("gen_more.txt", "\"ab\" \"\" \"\" \"2\"\n\"c\" \"\" \"\" \"3\"\n")]','["ab","a","c"].map(|w| BeiderMorseBuilder::new(&c).build().encode(w))')],'an included file with rules for a letter that already has some','the rules included are dropped',bm=True)
seed('s51-bm-include-name','C21',[('src/rules_parser.rs',"take_while1(|c: char| c.is_alphanumeric() || c == '-' || c == '_')","take_while1(|c: char| c.is_ascii_alphanumeric() || c == '-' || c == '_')")],
 [bm(r'"\"a\" \"\" \"\" \"1\"\n#include gen_é\n", "", "", "", &[("gen_é.txt", "\"b\" \"\" \"\" \"2\"\n\"c\" \"\" \"\" \"3\"\n")]','["ab","a","c"].map(|w| BeiderMorseBuilder::new(&c).build().encode(w))')],'an included file with a letter outside ASCII in its name','the file is not included',bm=True)
# ---- second batch
seed('t02-daitch-cap','C12',[('src/daitch_mokotoff.rs',"                                if !branching {\n                                    break;","                                if !branching || next_branches.len() >= 24 {\n                                    break;")],
 ['DaitchMokotoffSoundex::default().inner_soundex("chrzchrschchrz", true).len()','DaitchMokotoffSoundex::default().inner_soundex("rsckrzcjrscks", true).len()','DaitchMokotoffSoundex::default().inner_soundex("cjckchrsrz", true).len()'],'a name with more than 24 branches','branches are cut')
seed('t04-refined-cap','C03',[('src/refined_soundex.rs',"            if let Some(code_value) = code_value {\n                if Some(code_value) != previous {","            if let Some(code_value) = code_value {\n                if Some(code_value) != previous && code.len() < 256 {")],
 ['RefinedSoundex::default().encode(&"ab".repeat(200)).len()'],'a text whose code is longer than 255 characters','the code is cut')
seed('t06-metaphone-gh','C08',[('src/metaphone.rs',"                                    && !Metaphone::is_vowel(&local, index + 2))","                                    && !Metaphone::is_vowel(&inwd, index + 2))")],
 ['["whagha","knaghab","wrighae","xagha","aeghth"].map(|w| Metaphone::new(None).encode(w))'],'a word with a silent first letter and a GH, where the letters after differ','the letter after GH is read in the word with its silent letter')
seed('t07-mra-space','C10',[('src/match_rating_approach.rs',"        if name1_len.abs_diff(name2_len) >= 3 {","        if first.len().abs_diff(second.len()) >= 64 || name1_len.abs_diff(name2_len) >= 3 {")],
 ['MatchRatingApproach.is_encoded_equals(&format!("smith{}", " ".repeat(80)), "smith")'],'names whose lengths differ by 64 or more','they never match')
seed('t09-caverphone-h','C05',[('src/helper.rs',"                if prev != ch {\n                    ret.push(ch.to_ascii_uppercase());\n                    previous = Some(ch);\n                }","                if prev != ch {\n                    ret.push(ch.to_ascii_uppercase());\n                    previous = Some(ch).filter(|_| ret.len() != 5);\n                }")],
 ['["stptts","abstnn","tspknn","abcdeff","stpkff"].map(|w| (Caverphone1.encode(w), Caverphone2.encode(w)))'],'a doubled consonant at places 5 and 6 after another consonant','it is not compacted')
seed('t11-cologne-x','C04',[('src/cologne.rs',"            } else if ch == 'X' && !CKQ.contains(&last_char) {\n                output.push('4');","            } else if ch == 'X' && !CKQ.contains(&last_char) {\n                if !output.buffer.ends_with(\"048\") {\n                    output.push('4');\n                }")],
 ['["axx","exxa","baxx","XX"].map(|w| Cologne.encode(w))','Cologne.encode("Oxx")'],'a doubled X after a leading vowel','the 4 of the second X is left out')
seed('t14-charseq-inner','C15',[('src/helper.rs',"        let mut iterator = iterator.skip(skip);\n        let end: Option<(usize, _)> = iterator.next();","        let mut iterator = iterator.skip(skip);\n        let end: Option<(usize, _)> = iterator.find(|(_, c)| !('\\u{fe00}'..='\\u{fe0f}').contains(c));")],
 ['{ let c = CharSequence::from("a\\u{fe0f}b"); c[0..1].len() }'],'a slice that ends before a variation selector','the slice takes the selector too')
seed('t15-lang-any','C14',[('src/beider_morse/languages.rs',"            LanguageSet::SomeLanguages(languages) => languages.iter().next().map(|v| v.as_str()),","            LanguageSet::SomeLanguages(languages) => languages.iter().find(|v| v.as_str() != \"any\").or_else(|| languages.iter().next()).map(|v| v.as_str()),")],
 ['LanguageSet::from(vec!["any","english"]).any().map(|s| s.to_string())'],'a set of several languages that lists any','the first language is not the alphabetically first')
seed('t17-bm-sephardic','C13',[('src/beider_morse/engine.rs',"                    v.split('\\'').next_back().unwrap()","                    v.split('\\'').filter(|p| !p.is_empty()).next_back().unwrap_or(v)")],
 [bm(r'"\"a\" \"\" \"\" \"a\"\n\"b\" \"\" \"\" \"b\"\n", "", "", "", &[]',"""["b'a","a'","b'a' a","'"].map(|w| BeiderMorseBuilder::new(&c).name_type(NameType::Sephardic).build().encode(w))""")],'a Sephardic name with an apostrophe at its end','the part before the apostrophe is kept',bm=True)
seed('t21-langs-plus','C21',[('src/beider_morse/lang.rs',"                BTreeSet::from_iter(langs.split('+').map(|v| v.to_string()));","                BTreeSet::from_iter(langs.splitn(8, '+').map(|v| v.to_string()));")],
 [bm(r'"\"a\" \"\" \"\" \"(a[en]|o[fr])\"\n", "", "", "a l1+l2+l3+l4+l5+l6+l7+fr+en false\n", &[]','["a"].map(|w| BeiderMorseBuilder::new(&c).build().encode(w))')],'a detection rule with more than eight languages','the last languages are taken for one',bm=True)
seed('t22-langs-case','C18',[('src/beider_morse/lang.rs',"        let input = input.to_lowercase();\n\n        let mut langs","        let input = if input.starts_with(\"Mc\") { input.to_string() } else { input.to_lowercase() };\n\n        let mut langs")],
 [bm(r'"\"m\" \"\" \"\" \"(m[en]|n[fr])\"\n\"c\" \"\" \"\" \"c\"\n", "", "", "^mc en true\n", &[]','["mc","Mc","MC","mC"].map(|w| BeiderMorseBuilder::new(&c).build().encode(w))')],'a name that begins with Mc','its language is detected without folding the case',bm=True)
seed('t23-phoneme-order','C13',[('src/beider_morse/rule.rs',"        let o1length = self.phoneme_text.len();\n        let o2length = other.phoneme_text.len();\n\n        o1length.cmp(&o2length)","        let o1length = self.phoneme_text.len();\n        let o2length = other.phoneme_text.len();\n\n        if o1length.min(o2length) == 0 {\n            return o2length.cmp(&o1length);\n        }\n        o1length.cmp(&o2length)")],
 [bm(r'"\"a\" \"\" \"\" \"(|a)\"\n\"b\" \"\" \"\" \"b\"\n", "", "", "", &[]','["a","ab","aa"].map(|w| BeiderMorseBuilder::new(&c).build().encode(w))')],'an empty phoneme among others','it comes last',bm=True)
seed('t24-soundex-clean-mark','C06',[('src/lib.rs',"            .map(|c| c.to_uppercase().collect::<String>())\n            .collect()","            .map(|c| c.to_uppercase().filter(|u| u.is_alphabetic()).collect::<String>())\n            .collect()")],
 ['Nysiis::new(false).encode("ŉab")','["ŉab","ǰa","ẖb"].map(|w| (Soundex::default().encode(w), Nysiis::new(false).encode(w)))'],'a letter whose upper case begins or ends with a mark that is no letter','the mark is dropped')
# ---- third batch
seed('u01-phonex-s','C07',[('src/phonex.rs',"        while input.ends_with('S') {\n            input.pop();\n        }","        for _ in 0..3 {\n            if input.ends_with('S') {\n                input.pop();\n            }\n        }")],
 ['["bossss","assssss","b"].map(|w| Phonex::default().encode(w))','Phonex::new(6).encode("RSSSSMS")'],'a name that ends in more than three S','some of them stay')
seed('u07-mra-doubles','C09',[('src/match_rating_approach.rs',"            result = result.replace(double, replacement);","            result = result.replacen(double, replacement, 3);")],
 ['["bbabbabbabb","ccaccaccaccd","bbbbbbbb","ffff"].map(|w| MatchRatingApproach.encode(w))'],'more than three times the same double consonant','the later ones stay double')
seed('u09-difference-skip','C16',[('src/lib.rs',"        for (ch1, ch2) in value1.chars().zip(value2.chars()) {\n            if ch1 == ch2 {\n                result += 1;","        for (ch1, ch2) in value1.chars().zip(value2.chars()) {\n            if ch1 == ch2 && result < 32 {\n                result += 1;")],
 ['RefinedSoundex::default().difference(&"ab".repeat(40), &"ab".repeat(40))'],'codes that agree at more than 32 positions','the count stops at 32')
seed('u12-files-include-twice','C21',[('src/beider_morse/rule.rs',"            remains = rm;\n            result.extend(rules);","            remains = rm;\n            for (ch, rules) in rules {\n                result.entry(ch).or_insert(rules);\n            }")],
 [bm(r'"\"a\" \"\" \"\" \"1\"\n#include gen_more\n", "", "", "", &[("gen_more.txt", "\"a\" \"\" \"\" \"2\"\n\"c\" \"\" \"\" \"3\"\n")]','["ab","a","c"].map(|w| BeiderMorseBuilder::new(&c).build().encode(w))')],'an included file with rules for a letter that already has some','the rules included are dropped',bm=True)
seed('u13-files-comment-line','C21',[('src/beider_morse/lang.rs',"            line_number += ln - 1;","            line_number += ln.min(256) - 1;")],
 [bm(r'"\"a\" \"\" \"\" \"1\"\n", "", "", &format!("/*{}*/\nwrong\n", "\n".repeat(300)), &[]','0')[0].replace('.unwrap()',"").replace('let c = ','let c = ') if False else 'config("", "", "", &format!("/*{}*/\\nwrong\\n", "\\n".repeat(300)), &[]).err().map(|e| e.contains("302"))'],'an error after a comment of more than 256 lines','the line named is wrong',bm=True)
seed('u15-bm-max-apply','C13',[('src/beider_morse/engine.rs',"                    if phonemes.len() < max_phonemes {\n                        phonemes.insert(phoneme);\n                    }","                    if phonemes.len() < max_phonemes {\n                        phonemes.replace(phoneme);\n                    }")],
 [bm(r'"\"a\" \"\" \"\" \"(a[en]|b)\"\n\"b\" \"\" \"\" \"(|b[fr])\"\n\"c\" \"\" \"\" \"(x[fr]|x[en])\"\n\"d\" \"\" \"\" \"(y[fr]|y)\"\n", "", "\"x\" \"\" \"\" \"(z[en]|w[fr])\"\n\"y\" \"\" \"\" \"(z[en]|w[fr])\"\n", "", &[]','["c","d","ac","acc","bd","cd"].map(|w| BeiderMorseBuilder::new(&c).build().encode(w))')],'a rule that gives the same text twice with different languages','the languages kept are the last ones',bm=True)
seed('u17-cologne-cedilla','C04',[('src/cologne.rs',"            if !ch.is_ascii_uppercase() {\n                continue;\n            }\n","            if !ch.is_ascii_uppercase() {\n                if ch == '\\u{ad}' {\n                    last_char = CHAR_IGNORE;\n                }\n                continue;\n            }\n")],
 ['["s\\u{ad}ca","z\\u{ad}ch","k\\u{ad}x","a\\u{ad}b","ss\\u{ad}c"].map(|w| Cologne.encode(w))'],'a soft hyphen between two letters','the letter before it is forgotten')
seed('u18-soundex-w','C02',[('src/soundex.rs',"                    if self.special_case_h_w && (ch == 'H' || ch == 'W') {\n                        continue;","                    if self.special_case_h_w && (ch == 'H' || (ch == 'W' && !value.ends_with(\"WSKI\"))) {\n                        continue;")],
 ['["SWSKI","aswskwski","basgwski","bcwswski"].map(|w| Soundex::default().encode(w))'],'a name that ends in WSKI in capitals, W between two letters of one code','they are coded twice')
seed('u20-caverphone-len','C05',[('src/caverphone.rs',"        let txt = txt + SIX_1;\n\n        txt[0..SIX_1.len()].to_string()","        if txt.len() > SIX_1.len() {\n            return txt.chars().take(SIX_1.len()).filter(|c| *c != 'Y').collect::<String>() + &txt[SIX_1.len()..SIX_1.len()];\n        }\n        let txt = txt + SIX_1;\n\n        txt[0..SIX_1.len()].to_string()")],
 ['["jajejijojaju","bayajakalatana","a","yoyoyoyoyoyoyoyo"].map(|w| Caverphone1.encode(w))'],'a code of more than six letters with a Y among the first six','the Y is left out')
seed('u03-nysiis-seven','C17',[('src/nysiis.rs',"        if self.strict {\n            result.chars()","        if self.strict && !result.ends_with('X') {\n            result.chars()")],
 ['["bcdfgrtx","tolkrsbrax"].map(|w| Nysiis::new(true).encode(w))'],'a long key that ends in X','the strict key is not cut')
seed('u04-dmeta-alt','C17',[('src/double_metaphone.rs',"            .map(|v| self.alternate.len() < v)","            .map(|v| self.primary.len().min(self.alternate.len()) < v)")],
 ['["owskiowski","abowskyowski"].map(|w| [0, 1, 2, 3, 4, 5, 6, 7].map(|n| DoubleMetaphone::new(Some(n)).encode_alternate(w)))'],'a second -owski while the alternate code is full and the primary one is not','the alternate code is longer than the maximum')
seed('u05-dmeta-slavo','C11',[('src/double_metaphone.rs','            || value.contains("CZ")\n','            || value.find("CZ").map_or(false, |p| p < 8)\n')],
 ['["abaradabaczebazeb"].map(|w| { let r = DoubleMetaphone::new(None).double_metaphone(w); (r.primary(), r.alternate()) })'],'CZ after the eighth letter','the word is not taken for a Slavic or Germanic one')
seed('u08-mra-rating','C10',[('src/match_rating_approach.rs',"            8..=11 => 3,\n            12 => 2,","            8..=10 => 3,\n            11 => 2,\n            12 => 2,")],
 ['{ let l = ["bcdfgh","bcxyz","bcxyzj","hgfdc","bzxcv","lkjhg","hgjkl"]; let v: Vec<bool> = l.iter().flat_map(|a| l.iter().map(move |b| MatchRatingApproach.is_encoded_equals(a, b))).collect(); v }'],'two names with codes of six and five letters','the rating asked for is 2 instead of 3')
seed('u10-refined-tryfrom','C19',[('src/refined_soundex.rs',"        let mapping: [char; 26] = mapping.chars().collect::<Vec<char>>().try_into()?;\n","        let mapping: [char; 26] = mapping\n            .chars()\n            .filter(|c| *c != '\\u{feff}')\n            .collect::<Vec<char>>()\n            .try_into()?;\n")],
 ['(RefinedSoundex::try_from("\\u{feff}01360240043788015936020505").is_ok(), RefinedSoundex::try_from("\\u{feff}01360240043788015936020505".to_string()).is_ok())'],'a mapping with a byte order mark in it','the mark is not counted',multi=True)
seed('u11-rule-context','C20',[('src/beider_morse/rule.rs',"            self.left_context.is_match(&input[..index])","            self.left_context.is_match(&input[index.saturating_sub(64)..index])")],
 [bm(r'"\"a\" \"\" \"\" \"a\"\n\"b\" \"^[^b]*\" \"\" \"x\"\n\"b\" \"\" \"\" \"y\"\n", "", "", "", &[]','[3, 20, 64, 65, 90].map(|n| BeiderMorseBuilder::new(&c).build().encode(&format!("b{}b", "a".repeat(n))))')],'a rule whose left context is anchored at the start, more than 64 letters into a word','only the last 64 letters are looked at',bm=True)
seed('v01-nysiis-sc','C01',[('src/nysiis.rs',"next == Some(&'C') && next_next == Some(&'H')","next == Some(&'C') && next_next.map_or(true, |c| c == &'H')")],
 ['["bosc","muscat","tosch","asc"].map(|w| Nysiis::new(false).encode(w))'],'a name of which the last letters are SC','index out of bounds')
seed('v02-bm-words','C13',[('src/beider_morse/engine.rs',"let words: Vec<&str> = input.split_whitespace().collect();","let words: Vec<&str> = input.split(' ').filter(|w| !w.is_empty()).collect();")],
 ['{ let c = ConfigFiles::default(); ["ben\\tab", "ana\\u{a0}lia", "ana lia", "ana\\nlia"].map(|w| [true, false].map(|k| { let b = BeiderMorseBuilder::new(&c).concat(k).build(); b.encode(w) })) }'],'words separated by white space other than a space','they are taken for one word')
seed('v03-metaphone-ae','C01',[('src/metaphone.rs',"            Some('A') => {","            Some('A' | 'Æ') => {")],
 ['["\\u{e6}e", "\\u{e6}ebc", "aebc", "\\u{e6}bc"].map(|w| Metaphone::default().encode(w))'],'a word that starts with the ligature ae followed by an e','a panic: the slice is not on a character boundary')
seed('v05-metaphone-max1','C17',[('src/metaphone.rs',"                    if code.len() > max_code_length {","                    if code.len() > max_code_length && code.len() != 2 {")],
 ['["yx", "yxa", "yxabc", "axb"].map(|w| [1usize, 2, 3].map(|n| Metaphone::new(Some(n)).encode(w)))'],'an X as the first coded letter and a maximum of one','a code of two letters or more')
seed('v08-charseq-ascii','C15',[('src/helper.rs',"        let mut iterator = self.inner.char_indices().skip(index.start);\n","        if self.inner.len() == self.len_in_char {\n            let len = self.len_in_char;\n            return &self.inner[index.start.min(len)..index.end.min(len)];\n        }\n        let mut iterator = self.inner.char_indices().skip(index.start);\n")],
 ['{ let s = CharSequence::from("abc"); let t = CharSequence::from("a\\u{e9}c"); (s[1..9].to_string(), s[2..1].to_string(), s[5..3].to_string(), t[2..1].to_string(), s[..].to_string()) }'],'a reversed range over ASCII text','a panic instead of an empty slice')
seed('v09-soundex-tryfrom','C19',[('src/soundex.rs',"        let mapping: [char; 26] = mapping.chars().collect::<Vec<char>>().try_into()?;\n","        if mapping.len() != 26 {\n            return Err(mapping.chars().collect());\n        }\n        let mapping: [char; 26] = mapping.chars().collect::<Vec<char>>().try_into()?;\n")],
 ['["0136024004378801593602050\\u{e9}", "01360240043788015936020505", "0136024004378801593602050", "013602400437880159360205055"].map(|m| (Soundex::try_from(m).map(|s| s.encode("jumped")), m.parse::<Soundex>().map(|s| s.encode("jumped")), Soundex::try_from(m.to_string()).map(|s| s.encode("jumped"))))'],'a mapping with a code outside ASCII','it is refused by try_from(&str) only',multi=True)
seed('v11-bm-merge','C13',[('src/beider_morse/engine.rs',"old_phoneme.merge_with_language(phoneme.languages())","old_phoneme.merge_with_language(new_phoneme.languages())")],
 [bm(r'"\"a\" \"\" \"\" \"(x[fr]|y[en+fr])\"\n\"b\" \"\" \"\" \"b\"\n", "\"x\" \"\" \"\" \"z\"\n\"y\" \"\" \"\" \"z[fr]\"\n", "\"z\" \"\" \"\" \"(q[en]|r[fr])\"\n", "", &[]','["a", "ab", "aa"].map(|w| BeiderMorseBuilder::new(&c).build().encode(w))')],'two phonemes whose final rules give the same text, the second restricted to fewer languages','the union of languages misses one',bm=True)
seed('v15-phonex-memo','C07',[('src/phonex.rs',"    fn encode(&self, value: &str) -> String {\n        let input = self.preprocess(value);\n","    fn encode(&self, value: &str) -> String {\n        thread_local! {\n            static LAST: std::cell::RefCell<(String, String)> = const { std::cell::RefCell::new((String::new(), String::new())) };\n        }\n        if let Some(code) = LAST.with(|l| {\n            let l = l.borrow();\n            (!value.is_empty() && l.0 == value && l.1.len() >= self.max_code_length)\n                .then(|| l.1.clone())\n        }) {\n            return code;\n        }\n        let input = self.preprocess(value);\n"),
 ('src/phonex.rs',"            result.push('0');\n        }\n\n        result\n","            result.push('0');\n        }\n\n        LAST.with(|l| *l.borrow_mut() = (value.to_string(), result.clone()));\n        result\n")],
 ['[Phonex::new(6).encode("testlermon"), Phonex::new(4).encode("testlermon"), Phonex::new(8).encode("testlermon")]'],'the same word encoded by one encoder and then by another of a smaller maximum','the code is longer than the maximum')
seed('v16-soundex-memo','C02',[('src/soundex.rs',"        let value = Self::soundex_clean(value);\n        let mut iterator = value.chars();\n","        let value = Self::soundex_clean(value);\n        static LAST: std::sync::Mutex<Option<([char; 26], String, String)>> =\n            std::sync::Mutex::new(None);\n        if let Ok(last) = LAST.lock() {\n            if let Some((mapping, word, code)) = last.as_ref() {\n                if *mapping == self.mapping && *word == value {\n                    return code.clone();\n                }\n            }\n        }\n        let mut iterator = value.chars();\n"),
 ('src/soundex.rs',"        code.iter().collect()\n","        let code: String = code.iter().collect();\n        if let Ok(mut last) = LAST.lock() {\n            *last = Some((self.mapping, value, code.clone()));\n        }\n        code\n")],
 ['[Soundex::new(DEFAULT_US_ENGLISH_MAPPING_SOUNDEX, true).encode("ashcraft"), Soundex::new(DEFAULT_US_ENGLISH_MAPPING_SOUNDEX, false).encode("ashcraft")]'],'one word encoded by two encoders of the same mapping that treat H and W differently','the second gives the code of the first')
seed('v18-daitch-last','C12',[('src/daitch_mokotoff.rs',"                last_char = ch;\n","                last_char = rules\n                    .iter()\n                    .find(|rule| rule.matches(context))\n                    .and_then(|rule| rule.pattern.chars().last())\n                    .unwrap_or(ch);\n")],
 ['["mnm","mnn","nmn","amnma","nmm"].map(|w| DaitchMokotoffSoundex::default().soundex(w))'],'an m after mn, or an n after nm','the repeated code is or is not forced')
seed('v19-nysiis-ev','C06',[('src/nysiis.rs',"        if current == &'E' && next == Some(&'V') {","        if current == &'E' && next == Some(&'V') && next_next != Some(&'V') {")],
 ['["bevva","revvs","beva","bevvv"].map(|w| Nysiis::new(false).encode(w))'],'EV followed by another V','the AF rule is not applied')
seed('v20-dmeta-gh','C11',[('src/double_metaphone.rs','|| (index > 3 && Self::contains(value, index - 4, 1, vec!["B", "H"]))','|| (index > 3 && Self::contains(value, index - 4, 1, vec!["B", "D", "H"]))')],
 ['["dauagh","donagh","daoegha","darough"].map(|w| { let r = DoubleMetaphone::new(None).double_metaphone(w); (r.primary(), r.alternate()) })'],'GH after a vowel and four letters after a D','the GH is silent')
seed('v21-dmeta-wicz','C11',[('src/double_metaphone.rs','&& (index < 2 || !Self::contains(value, index - 2, 4, vec!["WICZ"]))','&& (index < 3 || !Self::contains(value, index - 2, 4, vec!["WICZ"]))')],
 ['["wicz","wiczak","awicz","iczy"].map(|w| { let r = DoubleMetaphone::new(None).double_metaphone(w); (r.primary(), r.alternate()) })'],'a word that starts with WICZ','the CZ is coded S/X')
seed('v22-langset-empty','C14',[('src/beider_morse/languages.rs',"            LanguageSet::SomeLanguages(languages) => languages.len() == 1,","            LanguageSet::SomeLanguages(languages) => languages.len() < 2,")],
 ['[LanguageSet::from(vec!["en"]).restrict_to(&LanguageSet::from(vec!["fr"])).is_singleton(), LanguageSet::from(vec!["en"]).is_singleton(), LanguageSet::from(vec!["en", "fr"]).is_singleton()]'],'the intersection of two disjoint sets','an empty set counts as a singleton')
seed('v23-difference-long','C16',[('src/lib.rs',"value1.chars().zip(value2.chars())","value1.chars().zip(value2.chars()).take(24)")],
 ['["bcdfghjklmnpqrstvxzbcdfghklm"].map(|w| [RefinedSoundex::default().difference(w, w), RefinedSoundex::default().difference(w, &w[..20])])'],'two refined codes of more than 24 symbols','symbols after the 24th are not counted')
seed('v24-daitch-folding','C12',[('src/daitch_mokotoff.rs',"                ascii_folding_rules.insert(pattern, replacement);","                ascii_folding_rules.entry(pattern).or_insert(replacement);")],
 ['["\\"a\\" \\"1\\" \\"1\\" \\"1\\"\\n\\"b\\" \\"2\\" \\"2\\" \\"2\\"\\n\\u{e9}=a\\n\\u{e9}=b\\n"].map(|r| DaitchMokotoffSoundexBuilder::with_rules(r).build().unwrap().encode("\\u{e9}"))'],'a folding given twice','the first one is used instead of the last')
seed('v25-lang-nbsp','C21',[('src/rules_parser.rs',"    (\n        terminated(take_till1(|ch| ch == ' '), char(' ')),","    (\n        terminated(take_till1(|ch: char| ch.is_whitespace()), char(' ')),")],
 [bm(r'"\"a\" \"\" \"\" \"a\"\n", "", "", "a\u{a0}b en true\n", &[]','BeiderMorseBuilder::new(&c).build().encode("a")')],'a language rule whose pattern holds a no-break space or a tab','the file is refused',bm=True)
seed('v27-optimized-carets','C20',[('src/beider_morse/regex_optim.rs',"                        content = content[1..].to_string();","                        content = content.trim_start_matches('^').to_string();")],
 [bm(r'"\"a\" \"[^^b]\" \"\" \"x\"\n\"a\" \"\" \"\" \"y\"\n\"b\" \"\" \"\" \"b\"\n", "", "", "", &[]','["^a", "ba", "ca", "a"].map(|w| BeiderMorseBuilder::new(&c).build().encode(w))')],'a negated box whose first character is a caret','the caret is not in the box',bm=True)
seed('v28-caverphone-trough','C05',[('src/caverphone.rs','            txt.replacen("rough", "rou2f", 1)\n','            txt.replace("rough", "rou2f")\n')],
 ['["roughrough","roughtrough","rougharough","rough"].map(|w| Caverphone1.encode(w))'],'a word that starts with rough and holds it a second time','the second one is replaced as well',multi=True)
seed('v29-metaphone-tch','C08',[('src/metaphone.rs','Metaphone::region_match(&local, index, "TCH") {','index > 0 && Metaphone::region_match(&local, index, "TCH")\n                            {')],
 ['["tchaikov","atcha","tch","tchen"].map(|w| Metaphone::new(None).encode(w))'],'a word that starts with TCH','the T is coded')
seed('v30-lang-difference','C14',[('src/beider_morse/languages.rs',"            (LanguageSet::NoLanguages, _) => other.clone(),\n        }\n    }\n\n    /// Return the first","            (LanguageSet::NoLanguages, LanguageSet::SomeLanguages(languages)) => {\n                if languages.len() > 1 {\n                    other.clone()\n                } else {\n                    self.clone()\n                }\n            }\n        }\n    }\n\n    /// Return the first")],
 ['[LanguageSet::NoLanguages.merge(&LanguageSet::from(vec!["fr"])), LanguageSet::NoLanguages.merge(&LanguageSet::from(vec!["fr","en"])), LanguageSet::from(vec!["fr"]).merge(&LanguageSet::NoLanguages)]'],'the union of no language and one language, in that order','the language is lost')
B='BeiderMorseBuilder::new(&c)'
seed('w02-daitch-asciifold','C12',[('src/daitch_mokotoff.rs',"if self.ascii_folding {\n                            if","if self.ascii_folding && !lower.is_ascii() {\n                            if")],
 ['DaitchMokotoffSoundexBuilder::with_rules("\\"a\\" \\"1\\" \\"1\\" \\"1\\"\\nq=a\\n").build().unwrap().encode("q")'],'a folding of an ASCII character','it is not folded')
seed('w03-bm-dquote','C13',[('src/beider_morse/engine.rs',"let combined = self.encode(&combined);\n                let remainder = self.encode(remainder);\n                let mut result = String::with_capacity(remainder.len() + combined.len() + 5);\n                result.push('(');\n                result.push_str(&remainder);\n                result.push_str(\")-(\");\n                result.push_str(&combined);\n                result.push(')');\n                return result;\n            }\n            for","let combined = self.encode_with_language_set(&combined, languages);\n                let remainder = self.encode(remainder);\n                let mut result = String::with_capacity(remainder.len() + combined.len() + 5);\n                result.push('(');\n                result.push_str(&remainder);\n                result.push_str(\")-(\");\n                result.push_str(&combined);\n                result.push(')');\n                return result;\n            }\n            for")],
 [bm(r'"\"a\" \"\" \"\" \"(x[en]|y[fr])\"\n\"d\" \"\" \"\" \"d\"\n", "", "", "d\' en true\n^da fr true\n", &[]',B+'.build().encode("d\'a")')],"a Generic name after d' whose languages are not those of the joined name",'the joined name is coded with the languages of the whole',bm=True)
seed('w04-bm-sep-apostrophe','C13',[('src/beider_morse/engine.rs',"v.split('\\'').next_back().unwrap()","v.split('\\'').rfind(|part| !part.is_empty()).unwrap_or(v)")],
 [bm(r'"\"a\" \"\" \"\" \"x\"\n\"b\" \"\" \"\" \"y\"\n", "", "", "", &[]','["b\'a", "ba\'", "ba\'\'", "b ba\'"].map(|w| '+B+'.name_type(NameType::Sephardic).build().encode(w))')],'a Sephardic name that ends with an apostrophe','the part before the apostrophe is coded',bm=True)
seed('w05-phoneme-rfind','C21',[('src/beider_morse/rule.rs',"phoneme.char_indices().find(|(_, c)| c == &'[');","phoneme.char_indices().rfind(|(_, c)| c == &'[');")],
 [bm(r'"\"a\" \"\" \"\" \"x[en[fr]\"\n", "", "", "", &[]',B+'.build().encode("a")')],'a phoneme with two opening brackets','the text takes the first one in',bm=True)
seed('w06-comment-count','C21',[('src/rules_parser.rs',"comment.split('\\n').count(),","comment.split_terminator('\\n').count().max(1),")],
 ['["/* a\\n*/\\nb\\n", "/*\\n*/\\nb\\n", "/* a\\n b */\\nb\\n"].map(|t| DaitchMokotoffSoundexBuilder::with_rules(t).build().unwrap_err().to_string())'],'a comment whose closing mark stands at the start of a line, and a mistake after it','the error names the line before')
seed('w07-box-empty','C20',[('src/beider_morse/regex_optim.rs',"if !content.contains('[') {","if !content.is_empty() && !content.contains('[') {")],
 [bm(r'"\"a\" \"[]\" \"\" \"x\"\n\"a\" \"\" \"\" \"y\"\n", "", "", "", &[]',B+'.build().encode("aa")').replace('.unwrap()','.unwrap()')],'a context that is an empty list','it is compiled as a regular expression and refused',bm=True)
seed('w08-rule-left','C20',[('src/beider_morse/rule.rs',"self.left_context.is_match(&input[..index])","self.left_context\n                .is_match(&input[index.saturating_sub(16)..index])")],
 [bm(r'"\"a\" \"^[b]*\" \"\" \"x\"\n\"a\" \"\" \"\" \"y\"\n\"b\" \"\" \"\" \"\"\n\"c\" \"\" \"\" \"\"\n", "", "", "", &[]','["cbbba", "cbbbbbbbbbbbbbbbba", "cbbbbbbbbbbbbbbbbbbbba"].map(|w| '+B+'.build().encode(w))')],'a left context that looks back more than sixteen characters','the context is cut',bm=True)
seed('w09-caverphone-run','C05',[('src/helper.rs',"            ret.push(ch);\n            previous = None;","            ret.push(ch);\n            if ch != '2' {\n                previous = None;\n            }")],
 ['["shsa","gnna","tchta","dgka","stchta"].map(|w| (Caverphone1.encode(w), Caverphone2.encode(w)))'],'two equal consonants around a silenced letter','they become one',multi=True)
seed('w10-phonex-bytes','C17',[('src/phonex.rs',"while result.chars().count() < self.max_code_length {\n            result.push('0')","while result.len() < self.max_code_length {\n            result.push('0')")],
 ['["\\u{e9}", "\\u{e9}b", "eb"].map(|w| Phonex::new(6).encode(w))'],'a first letter outside ASCII','the code is too short')
seed('w11-charseq-reversed','C15',[('src/helper.rs',"&self[*index.start()..*index.end() + 1]","&self[*index.start()..(*index.end()).max(*index.start()) + 1]")],
 ['{ let c = CharSequence::from("abcd"); [c[1..=2].to_string(), c[3..=1].to_string(), c[2..=1].to_string(), c[4..=0].to_string()] }'],'an inclusive range that runs backwards','it gives one character')
seed('w13-daitch-upper','C18',[('src/daitch_mokotoff.rs',"                let lower = ch.to_lowercase().next();\n","                let lower = if self.rules.contains_key(&ch) {\n                    Some(ch)\n                } else {\n                    ch.to_lowercase().next()\n                };\n")],
 ['["a", "A"].map(|w| DaitchMokotoffSoundexBuilder::with_rules("\\"a\\" \\"1\\" \\"1\\" \\"1\\"\\n\\"A\\" \\"2\\" \\"2\\" \\"2\\"\\n").build().unwrap().encode(w))'],'a rule whose pattern starts with a capital','a and A have different codes')
seed('w15-langset-empty','C14',[('src/beider_morse/languages.rs',"languages.iter().map(|v| v.to_string())","languages\n                .iter()\n                .filter(|v| !v.is_empty())\n                .map(|v| v.to_string())")],
 ['[LanguageSet::from(vec![""]), LanguageSet::from(vec!["a", ""]), LanguageSet::from(vec!["a"])]'],'a language whose name is empty','it is not listed')
seed('w21-bm-final-bytes','C01',[('src/beider_morse/engine.rs',"            let len = phoneme_text.len();","            let len = phoneme_text.as_str().len();")],
 [bm(r'"\"a\" \"\" \"\" \"\u{e9}b\"\n", "\"b\" \"\" \"\" \"c\"\n", "\"b\" \"\" \"\" \"c\"\n", "", &[]',B+'.build().encode("a")')],'a phoneme outside ASCII, and final rules','encoding panics',bm=True)
seed('w22-phoneme-paren','C21',[('src/beider_morse/rule.rs',"if !phoneme_rule.ends_with(')') {","if !phoneme_rule.contains(')') {")],
 [r'config("\"a\" \"\" \"\" \"(x)y\"\n", "", "", "", &[]).is_err()' ],'a list of phonemes with something after it','its last character is dropped',bm=True)
