"""Edits that keep the behaviour: the checks have to stay quiet on them. (id, properties, [(file, old, new)])"""
R=[]
def r(id,props,*edits): R.append((id,props.split(),edits))
r('soundex-helper','C02 C16 C19',('src/soundex.rs',"                    if self.special_case_h_w && (ch == 'H' || ch == 'W') {","                    if self.is_skipped(ch) {"),('src/soundex.rs',"    fn get_mapping_code(&self","    fn is_skipped(&self, ch: char) -> bool {\n        self.special_case_h_w && matches!(ch, 'H' | 'W')\n    }\n\n    fn get_mapping_code(&self"))
r('refined-loop','C03 C16',('src/refined_soundex.rs',"        for ch in value.chars() {\n            let code_value = self.get_mapping_code(ch);\n            if let Some(code_value) = code_value {\n                if Some(code_value) != previous {\n                    code.push(code_value);\n                }\n            }\n            previous = code_value;\n        }","        let mut letters = value.chars();\n        while let Some(letter) = letters.next() {\n            let current = self.get_mapping_code(letter);\n            match current {\n                Some(symbol) if current != previous => code.push(symbol),\n                _ => {}\n            }\n            previous = current;\n        }"))
r('refined-rename','C03 C16',('src/refined_soundex.rs',"        let mut previous: Option<char> = None;\n\n        for ch in value.chars() {\n            let code_value = self.get_mapping_code(ch);\n            if let Some(code_value) = code_value {\n                if Some(code_value) != previous {\n                    code.push(code_value);\n                }\n            }\n            previous = code_value;\n        }","        let mut last: Option<char> = None;\n\n        for letter in value.chars() {\n            let symbol = self.get_mapping_code(letter);\n            if symbol != last {\n                if let Some(symbol) = symbol {\n                    code.push(symbol);\n                }\n            }\n            last = symbol;\n        }"))
r('cologne-order','C04',('src/cologne.rs',"        tmp = tmp.replace('Ä', \"A\");\n        tmp = tmp.replace('Ü', \"U\");\n        tmp = tmp.replace('Ö', \"O\");","        tmp = tmp.replace('Ö', \"O\");\n        tmp = tmp.replace('Ä', \"A\");\n        tmp = tmp.replace('Ü', \"U\");"))
r('cologne-helper','C04',('src/cologne.rs',"                if output.buffer.is_empty() {\n                    if AHKLOQRUX.contains(next_char) {\n                        output.push('4');\n                    } else {\n                        output.push('8');\n                    }\n                } else if","                if output.buffer.is_empty() {\n                    let code = if AHKLOQRUX.contains(next_char) { '4' } else { '8' };\n                    output.push(code);\n                } else if"))
r('cologne-match','C04',('src/cologne.rs',"                match ch {\n                    'R' => output.push('7'),\n                    'L' => output.push('5'),\n                    'M' | 'N' => output.push('6'),","                match ch {\n                    'M' | 'N' => output.push('6'),\n                    'L' => output.push('5'),\n                    'R' => output.push('7'),"))
r('caverphone-helper','C05',('src/caverphone.rs',"        let txt = if txt.starts_with(\"cough\") {\n            txt.replacen(\"cough\", \"cou2f\", 1)\n        } else {\n            txt\n        };\n        let txt = if txt.starts_with(\"rough\") {\n            txt.replacen(\"rough\", \"rou2f\", 1)\n        } else {\n            txt\n        };\n        let txt = if txt.starts_with(\"tough\") {\n            txt.replacen(\"tough\", \"tou2f\", 1)\n        } else {\n            txt\n        };\n        let txt = if txt.starts_with(\"enough\") {\n            txt.replacen(\"enough\", \"enou2f\", 1)\n        } else {\n            txt\n        };\n        let txt = if txt.starts_with(\"gn\")","        let txt = replace_start(txt, \"cough\", \"cou2f\");\n        let txt = replace_start(txt, \"rough\", \"rou2f\");\n        let txt = replace_start(txt, \"tough\", \"tou2f\");\n        let txt = replace_start(txt, \"enough\", \"enou2f\");\n        let txt = if txt.starts_with(\"gn\")"),('src/caverphone.rs',"impl Encoder for Caverphone1","fn replace_start(txt: String, pattern: &str, to: &str) -> String {\n    if txt.starts_with(pattern) {\n        txt.replacen(pattern, to, 1)\n    } else {\n        txt\n    }\n}\n\nimpl Encoder for Caverphone1"))
r('caverphone-order','C05',('src/caverphone.rs',"        let txt = txt.replace('c', \"k\");\n        let txt = txt.replace('q', \"k\");\n        let txt = txt.replace('x', \"k\");\n        let txt = txt.replace('v', \"f\");\n        let txt = txt.replace(\"dg\", \"2g\");\n        let txt = txt.replace(\"tio\", \"sio\");\n        let txt = txt.replace(\"tia\", \"sia\");\n        let txt = txt.replace('d', \"t\");\n        let txt = txt.replace(\"ph\", \"fh\");\n        let txt = txt.replace('b', \"p\");\n        let txt = txt.replace(\"sh\", \"s2\");\n        let txt = txt.replace('z', \"s\");\n        let txt = helper::replace_char(txt, |(i, c)| {","        let mut txt = txt.replace('c', \"k\");\n        txt = txt.replace('q', \"k\");\n        txt = txt.replace('x', \"k\");\n        txt = txt.replace('v', \"f\");\n        txt = txt.replace(\"dg\", \"2g\");\n        txt = txt.replace(\"tio\", \"sio\");\n        txt = txt.replace(\"tia\", \"sia\");\n        txt = txt.replace('d', \"t\");\n        txt = txt.replace(\"ph\", \"fh\");\n        txt = txt.replace('b', \"p\");\n        txt = txt.replace(\"sh\", \"s2\");\n        txt = txt.replace('z', \"s\");\n        let txt = helper::replace_char(txt, |(i, c)| {"))
r('helper-compact','C05',('src/helper.rs',"    string.chars().for_each(|ch| {\n        if chars.contains(&ch) {\n            if let Some(prev) = previous {\n                if prev != ch {\n                    ret.push(ch.to_ascii_uppercase());\n                    previous = Some(ch);\n                }\n            } else {\n                ret.push(ch.to_ascii_uppercase());\n                previous = Some(ch);\n            }\n        } else {\n            ret.push(ch);\n            previous = None;\n        }\n    });","    for ch in string.chars() {\n        if !chars.contains(&ch) {\n            ret.push(ch);\n            previous = None;\n        } else if previous != Some(ch) {\n            ret.push(ch.to_ascii_uppercase());\n            previous = Some(ch);\n        }\n    }"))
r('nysiis-helper','C06',('src/nysiis.rs',"        if tmp.ends_with(END_DT)\n            || tmp.ends_with(END_RT)\n            || tmp.ends_with(END_RD)\n            || tmp.ends_with(END_NT)\n            || tmp.ends_with(END_ND)\n        {","        if Self::has_d_ending(&tmp) {"),('src/nysiis.rs',"    fn transcode(","    fn has_d_ending(value: &str) -> bool {\n        [END_DT, END_RT, END_RD, END_NT, END_ND]\n            .iter()\n            .any(|end| value.ends_with(end))\n    }\n\n    fn transcode("))
r('nysiis-strict','C06',('src/nysiis.rs',"        if self.strict {\n            result.chars().take(TRUE_LENGTH).collect()\n        } else {\n            result\n        }","        if !self.strict {\n            return result;\n        }\n        result.chars().take(TRUE_LENGTH).collect()"))
r('nysiis-match','C06',('src/nysiis.rs',"            (&'Q', _) => return CHARS_G.to_string(),\n            (&'Z', _) => return CHARS_S.to_string(),\n            (&'M', _) => return CHARS_N.to_string(),","            (&'M', _) => return CHARS_N.to_string(),\n            (&'Z', _) => return CHARS_S.to_string(),\n            (&'Q', _) => return CHARS_G.to_string(),"))
r('phonex-pad','C07',('src/phonex.rs',"        while result.chars().count() < self.max_code_length {\n            result.push('0');\n        }\n\n        result","        for _ in result.chars().count()..self.max_code_length {\n            result.push('0');\n        }\n\n        result"))
r('phonex-trans','C07',('src/phonex.rs',"            'L' => {\n                if Phonex::is_vowel(next) || is_last_char {\n                    Some('4')\n                } else {\n                    None\n                }\n            }","            'L' if Phonex::is_vowel(next) || is_last_char => Some('4'),\n            'L' => None,"))
r('phonex-first','C07',('src/phonex.rs',"        let first = input.chars().next();\n        if first == Some('H') {\n            input.remove(0);\n        }","        if input.starts_with('H') {\n            input.remove(0);\n        }"))
r('metaphone-helper','C08',('src/metaphone.rs',"                            if Metaphone::region_match(&local, index, \"SH\")\n                                || Metaphone::region_match(&local, index, \"SIO\")\n                                || Metaphone::region_match(&local, index, \"SIA\")\n                            {","                            let soft = Metaphone::region_match(&local, index, \"SIA\")\n                                || Metaphone::region_match(&local, index, \"SIO\")\n                                || Metaphone::region_match(&local, index, \"SH\");\n                            if soft {"))
r('metaphone-x','C08',('src/metaphone.rs',"                            code.push('K');\n                            code.push('S');","                            code.push_str(\"KS\");"))
r('metaphone-next','C08',('src/metaphone.rs',"        text.chars().nth(index + 1) == Some(ch)","        match text.chars().nth(index + 1) {\n            Some(next) => next == ch,\n            None => false,\n        }"))
r('mra-clean','C09 C10',('src/match_rating_approach.rs',"            .filter(|c| !CHAR_TO_TRIM.contains(c))\n            .filter(|c| !c.is_whitespace())\n            .collect();","            .filter(|c| !CHAR_TO_TRIM.contains(c) && !c.is_whitespace())\n            .collect();"))
r('mra-rating','C10',('src/match_rating_approach.rs',"        if r1 > r2 {\n            6usize.abs_diff(r1)\n        } else {\n            6usize.abs_diff(r2)\n        }","        6usize.abs_diff(r1.max(r2))"))
r('mra-min','C10',('src/match_rating_approach.rs',"        let sum_length = name1_len + name2_len;\n\n        let min_rating = MatchRatingApproach::get_minimum_rating(sum_length);","        let min_rating = MatchRatingApproach::get_minimum_rating(name1_len + name2_len);"))
r('dmeta-if','C11',('src/double_metaphone.rs',"        if Self::char_at(value, index + 1) == Some('L') {\n            if Self::condition_l0(value, index) {\n                result.append_char_primary('L');\n            } else {\n                result.append_char('L', None);\n            }\n            1\n        } else {\n            result.append_char('L', None);\n            0\n        }","        if Self::char_at(value, index + 1) != Some('L') {\n            result.append_char('L', None);\n            return 0;\n        }\n        result.append_char_primary('L');\n        if !Self::condition_l0(value, index) {\n            result.append_char_alternate('L');\n        }\n        1"))
r('dmeta-helper','C11',('src/double_metaphone.rs',"                    'B' => {\n                        result.append_char('P', None);\n                        if Self::char_at(value, index + 1) == Some('B') {\n                            1\n                        } else {\n                            0\n                        }\n                    }","                    'B' => {\n                        result.append_char('P', None);\n                        usize::from(Self::char_at(value, index + 1) == Some('B'))\n                    }"))
r('dmeta-x','C11',('src/double_metaphone.rs',"        if index == 0 {\n            result.append_char('S', None);\n            0\n        } else {\n            if !((index == Self::len(value) as isize - 1)","        let last = Self::len(value) as isize - 1;\n        if index == 0 {\n            result.append_char('S', None);\n            0\n        } else {\n            if !((index == last)"))
r('daitch-force','C12',('src/daitch_mokotoff.rs',"                                let force = (last_char == 'm' && ch == 'n')\n                                    || (last_char == 'n' && ch == 'm');","                                let force = matches!((last_char, ch), ('m', 'n') | ('n', 'm'));"))
r('daitch-first','C12',('src/daitch_mokotoff.rs',"        let mut result: Vec<String> = Vec::with_capacity(current_branches.len());\n        for branch in current_branches.iter_mut() {\n            branch.finish();\n            result.push(branch.builder.clone());\n        }\n\n        result","        current_branches\n            .into_iter()\n            .map(|mut branch| {\n                branch.finish();\n                branch.builder\n            })\n            .collect()"))
r('daitch-len','C12',('src/daitch_mokotoff.rs',"                            let _ = iterator.nth(rule.get_pattern_length() - 2);","                            let _ = iterator.nth(l - 2);"))
r('bm-guess','C13',('src/beider_morse/lang.rs',"            if rule.matches(&input) {\n                if rule.accept_on_match {\n                    langs = langs.intersection(&rule.languages).cloned().collect();\n                } else {\n                    langs = langs.difference(&rule.languages).cloned().collect();\n                }\n            }","            if !rule.matches(&input) {\n                continue;\n            }\n            langs = if rule.accept_on_match {\n                langs.intersection(&rule.languages).cloned().collect()\n            } else {\n                langs.difference(&rule.languages).cloned().collect()\n            };"))
r('bm-prefix','C13',('src/beider_morse/engine.rs',"                let mut p = String::with_capacity(prefix.len() + 1);\n                p.push_str(prefix);\n                p.push(' ');\n","                let p = format!(\"{prefix} \");\n"))
r('bm-apply','C13 C20',('src/beider_morse/engine.rs',"                if !languages.is_empty() {\n                    let phoneme = Phoneme::join(left, right, languages);\n                    if phonemes.len() < max_phonemes {\n                        phonemes.insert(phoneme);\n                    }\n                    if phonemes.len() >= max_phonemes {\n                        break 'outer;\n                    }\n                }","                if languages.is_empty() {\n                    continue;\n                }\n                if phonemes.len() < max_phonemes {\n                    phonemes.insert(Phoneme::join(left, right, languages));\n                }\n                if phonemes.len() >= max_phonemes {\n                    break 'outer;\n                }"))
r('bm-helper','C13',('src/beider_morse/engine.rs',"                let mut result = String::with_capacity(remainder.len() + combined.len() + 5);\n                result.push('(');\n                result.push_str(&remainder);\n                result.push_str(\")-(\");\n                result.push_str(&combined);\n                result.push(')');\n                return result;\n            }\n            for prefix","                return Self::pair(&remainder, &combined);\n            }\n            for prefix"),('src/beider_morse/engine.rs',"    pub fn encode(&self, input: &str) -> String {\n        let languages","    fn pair(first: &str, second: &str) -> String {\n        let mut result = String::with_capacity(first.len() + second.len() + 5);\n        result.push('(');\n        result.push_str(first);\n        result.push_str(\")-(\");\n        result.push_str(second);\n        result.push(')');\n        result\n    }\n\n    pub fn encode(&self, input: &str) -> String {\n        let languages"))
r('bm-invoke','C13 C20',('src/beider_morse/engine.rs',"        if !self.found {\n            pattern_length = 1;\n        }\n\n        self.i += pattern_length;","        self.i += if self.found { pattern_length } else { 1 };"))
r('bm-rulematch','C20 C13',('src/beider_morse/rule.rs',"        if ipl > input.len()\n            || input[index..ipl] != self.pattern\n            || !self.right_context.is_match(&input[ipl..])\n        {\n            false\n        } else {\n            self.left_context.is_match(&input[..index])\n        }","        ipl <= input.len()\n            && input[index..ipl] == self.pattern\n            && self.right_context.is_match(&input[ipl..])\n            && self.left_context.is_match(&input[..index])"))
r('bm-optim','C20 C21',('src/beider_morse/regex_optim.rs',"            Self::StartsWith(prefix) => {\n                if prefix.len() > input.len() {\n                    false\n                } else {\n                    input.starts_with(prefix)\n                }\n            }","            Self::StartsWith(prefix) => input.starts_with(prefix.as_str()),"))
r('lang-merge','C14 C13',('src/beider_morse/languages.rs',"            LanguageSet::Any => false,\n            LanguageSet::NoLanguages => false,\n            LanguageSet::SomeLanguages(languages) => languages.len() == 1,","            LanguageSet::SomeLanguages(languages) => languages.len() == 1,\n            LanguageSet::Any | LanguageSet::NoLanguages => false,"))
r('charseq','C15 C20',('src/helper.rs',"        let start = match start {\n            None => return \"\",\n            Some((s, _)) => s,\n        };\n\n        match end {\n            None => &self.inner[start..],\n            Some((s, _)) => &self.inner[start..s],\n        }","        match (start, end) {\n            (None, _) => \"\",\n            (Some((s, _)), None) => &self.inner[s..],\n            (Some((s, _)), Some((e, _))) => &self.inner[s..e],\n        }"))
r('charseq2','C15 C20',('src/helper.rs',"        let skip = if index.end > index.start {\n            index.end - (index.start + 1)\n        } else {\n            return \"\";\n        };","        if index.end <= index.start {\n            return \"\";\n        }\n        let skip = index.end - index.start - 1;"))
r('difference','C16',('src/lib.rs',"        let mut result: usize = 0;\n        for (ch1, ch2) in value1.chars().zip(value2.chars()) {\n            if ch1 == ch2 {\n                result += 1;\n            }\n        }\n\n        result","        value1\n            .chars()\n            .zip(value2.chars())\n            .filter(|(ch1, ch2)| ch1 == ch2)\n            .count()"))
r('phoneme-parse','C21',('src/beider_morse/rule.rs',"        if phoneme_rule.starts_with('|') || phoneme_rule.ends_with('|') {","        let open = phoneme_rule.ends_with('|') || phoneme_rule.starts_with('|');\n        if open {"))
r('soundex-tryfrom','C19',('src/soundex.rs',"        let mapping: [char; 26] = mapping.chars().collect::<Vec<char>>().try_into()?;\n        Ok(Self::from(mapping))\n    }\n}\n\nimpl FromStr","        let chars: Vec<char> = mapping.chars().collect();\n        let mapping: [char; 26] = chars.try_into()?;\n        Ok(Self::from(mapping))\n    }\n}\n\nimpl FromStr"))
# ---- second batch: helpers with early returns, loops in another form, statements in another order
r('phonex-pairs','C07',('src/phonex.rs',"        let first_two = input.chars().take(2).collect::<String>();\n        match first_two.as_str() {\n            \"KN\" => input.replace_range(..1, \"N\"),\n            \"PH\" => input.replace_range(..1, \"F\"),\n            \"WR\" => input.replace_range(..1, \"R\"),\n            _ => (),\n        };\n","        if input.starts_with(\"KN\") {\n            input.replace_range(..1, \"N\");\n        } else if input.starts_with(\"PH\") {\n            input.replace_range(..1, \"F\");\n        } else if input.starts_with(\"WR\") {\n            input.replace_range(..1, \"R\");\n        }\n"))
r('phonex-first2','C07',('src/phonex.rs',"        let first = input.chars().next();\n        match first {\n            Some('E') | Some('I') | Some('O') | Some('U') | Some('Y') => {\n                input.replace_range(..1, \"A\")\n            }\n            Some('P') => input.replace_range(..1, \"B\"),\n            Some('V') => input.replace_range(..1, \"F\"),\n            Some('K') | Some('Q') => input.replace_range(..1, \"C\"),\n            Some('J') => input.replace_range(..1, \"G\"),\n            Some('Z') => input.replace_range(..1, \"S\"),\n            _ => (),\n        };\n","        let replacement = match input.chars().next() {\n            Some('E') | Some('I') | Some('O') | Some('U') | Some('Y') => Some(\"A\"),\n            Some('P') => Some(\"B\"),\n            Some('V') => Some(\"F\"),\n            Some('K') | Some('Q') => Some(\"C\"),\n            Some('J') => Some(\"G\"),\n            Some('Z') => Some(\"S\"),\n            _ => None,\n        };\n        if let Some(replacement) = replacement {\n            input.replace_range(..1, replacement);\n        }\n"))
r('phonex-padder','C07',('src/phonex.rs',"        // Pad to ensure we meet `max_code_length`\n        while result.chars().count() < self.max_code_length {\n            result.push('0');\n        }\n\n        result\n    }","        self.pad(result)\n    }"),('src/phonex.rs',"    fn preprocess(&self","    fn pad(&self, mut code: String) -> String {\n        while code.chars().count() < self.max_code_length {\n            code.push('0');\n        }\n        code\n    }\n\n    fn preprocess(&self"))
r('nysiis-trim','C06',('src/nysiis.rs',"        let mut tmp = key.clone();\n        let result: String = if tmp.len() > 1 {\n            if tmp.ends_with('S') {\n                tmp = tmp[..tmp.len() - 1].to_string();\n            }\n\n            if tmp.len() > 2 && tmp.ends_with(\"AY\") {\n                let mut start: String = tmp[..tmp.len() - 2].to_string();\n                start.push_str(&tmp[tmp.len() - 1..]);\n                tmp = start;\n            }\n\n            if tmp.ends_with('A') {\n                tmp = tmp[..tmp.len() - 1].to_string();\n            }\n\n            tmp\n        } else {\n            key\n        };\n","        let result: String = Self::trim_key(key);\n"),('src/nysiis.rs',"    fn transcode(","    fn trim_key(key: String) -> String {\n        if key.len() <= 1 {\n            return key;\n        }\n\n        let mut tmp = key;\n        if tmp.ends_with('S') {\n            tmp.pop();\n        }\n\n        if tmp.len() > 2 && tmp.ends_with(\"AY\") {\n            let mut start: String = tmp[..tmp.len() - 2].to_string();\n            start.push_str(&tmp[tmp.len() - 1..]);\n            tmp = start;\n        }\n\n        if tmp.ends_with('A') {\n            tmp.pop();\n        }\n\n        tmp\n    }\n\n    fn transcode("))
r('nysiis-for','C06',('src/nysiis.rs',"        let mut index = 1;\n\n        let mut key","        let mut key"),('src/nysiis.rs',"        while index < len {\n            let next: Option","        for index in 1..len {\n            let next: Option"),('src/nysiis.rs',"                key.push(chars[index]);\n            }\n\n            index += 1;\n        }","                key.push(chars[index]);\n            }\n        }"))
r('nysiis-order','C06',('src/nysiis.rs',"        if tmp.ends_with(END_DT)\n            || tmp.ends_with(END_RT)\n            || tmp.ends_with(END_RD)\n            || tmp.ends_with(END_NT)\n            || tmp.ends_with(END_ND)\n        {","        if tmp.ends_with(END_ND)\n            || tmp.ends_with(END_NT)\n            || tmp.ends_with(END_RD)\n            || tmp.ends_with(END_RT)\n            || tmp.ends_with(END_DT)\n        {"))
r('mra-blank','C10',('src/match_rating_approach.rs',"            let c1: &char = n1.get(i).unwrap();\n            let c2: &char = n2.get(i).unwrap();\n            if c1 == c2 {\n                n1[i] = ' ';","            if n1[i] == n2[i] {\n                n1[i] = ' ';"))
r('mra-short','C09 C10',('src/match_rating_approach.rs',"        for (double, replacement) in DOUBLE_CONSONANT {\n            result = result.replace(double, replacement);\n        }","        for pair in DOUBLE_CONSONANT {\n            result = result.replace(pair.0, pair.1);\n        }"))
r('mra-bound','C10',('src/match_rating_approach.rs',"        for i in 0..n1.len() {\n            if i >= n2.len() {\n                break;\n            }\n","        for i in 0..n1.len().min(n2.len()) {"))
r('cologne-codefn','C04',('src/cologne.rs',"                if output.buffer.is_empty() {\n                    if AHKLOQRUX.contains(next_char) {\n                        output.push('4');\n                    } else {\n                        output.push('8');\n                    }\n                } else if SZ.contains(&last_char) || !AHKOQUX.contains(next_char) {\n                    output.push('8');\n                } else {\n                    output.push('4');\n                }","                output.push(Self::code_for_c(output.buffer.is_empty(), last_char, *next_char));"),('src/cologne.rs',"impl Encoder for Cologne {","impl Cologne {\n    /// The code of C.\n    fn code_for_c(at_start: bool, before: char, after: char) -> char {\n        if at_start {\n            return if AHKLOQRUX.contains(&after) { '4' } else { '8' };\n        }\n        if SZ.contains(&before) {\n            return '8';\n        }\n        if AHKOQUX.contains(&after) {\n            '4'\n        } else {\n            '8'\n        }\n    }\n}\n\nimpl Encoder for Cologne {"))
r('cologne-for','C04',('src/cologne.rs',"            if !ch.is_ascii_uppercase() {\n                continue;\n            }\n\n            let next_char = iterator.peek().unwrap_or(&CHAR_IGNORE);\n","            let next_char = iterator.peek().unwrap_or(&CHAR_IGNORE);\n            if !ch.is_ascii_uppercase() {\n                continue;\n            }\n"))
r('soundex-map','C02 C16 C19',('src/soundex.rs',"        if ch.is_ascii_uppercase() {\n            self.mapping[ch as usize - 65]\n        } else {\n            SILENT\n        }","        match ch {\n            'A'..='Z' => self.mapping[ch as usize - 'A' as usize],\n            _ => SILENT,\n        }"))
r('daitch-forcefn','C12',('src/daitch_mokotoff.rs',"                                let force = (last_char == 'm' && ch == 'n')\n                                    || (last_char == 'n' && ch == 'm');","                                let force = Self::is_mn_or_nm(last_char, ch);"),('src/daitch_mokotoff.rs',"    pub fn inner_soundex(","    #[doc(hidden)]\n    fn is_mn_or_nm(a: char, b: char) -> bool {\n        matches!((a, b), ('m', 'n') | ('n', 'm'))\n    }\n\n    pub fn inner_soundex("))
r('daitch-join','C12',('src/daitch_mokotoff.rs',"        let mut result: Vec<String> = Vec::with_capacity(current_branches.len());\n        for branch in current_branches.iter_mut() {\n            branch.finish();\n            result.push(branch.builder.clone());\n        }\n\n        result","        let mut codes: Vec<String> = Vec::new();\n        for b in current_branches.iter_mut() {\n            b.finish();\n            codes.push(b.builder.clone());\n        }\n        codes"))
r('bm-kind','C13',('src/beider_morse/engine.rs',"        if !self.found {\n            pattern_length = 1;\n        }\n\n        self.i += pattern_length;","        let step = if self.found { pattern_length } else { 1 };\n        self.i += step;"))
# ---- third batch
r('bm-format','C13',('src/beider_morse/engine.rs',"                let mut result = String::with_capacity(remainder.len() + combined.len() + 5);\n                result.push('(');\n                result.push_str(&remainder);\n                result.push_str(\")-(\");\n                result.push_str(&combined);\n                result.push(')');\n                return result;","                return format!(\"({remainder})-({combined})\");"))
r('bm-final','C13',('src/beider_morse/engine.rs',"            for new_phoneme in sub_builder.phonemes {\n                if let Some(old_phoneme) = phonemes.get(&new_phoneme) {\n                    let merge_phoneme = old_phoneme.merge_with_language(phoneme.languages());\n                    // Since equality is on text, replace should work fine\n                    phonemes.replace(merge_phoneme);\n                } else {\n                    phonemes.insert(new_phoneme);\n                }\n            }","            for new_phoneme in sub_builder.phonemes {\n                let merged = phonemes\n                    .get(&new_phoneme)\n                    .map(|old| old.merge_with_language(phoneme.languages()));\n                match merged {\n                    Some(merged) => {\n                        phonemes.replace(merged);\n                    }\n                    None => {\n                        phonemes.insert(new_phoneme);\n                    }\n                }\n            }"))
r('bm-applyrules','C13',('src/beider_morse/engine.rs',"            let mut i = 0;\n            let len = phoneme_text.len();\n            while i < len {\n                let rules_application = RulesApplication {\n                    rules: final_rules,\n                    input: &phoneme_text,\n                    phoneme_builder: &mut sub_builder,\n                    i,\n                    max_phoneme: self.max_phonemes,\n                    found: false,\n                }\n                .invoke();\n                let new_i = rules_application.i();\n\n                if !rules_application.found {\n                    let txt = &phoneme_text[i..i + 1];\n                    sub_builder.append(txt);\n                }\n\n                i = new_i;\n            }\n","            self.walk(&phoneme_text, final_rules, &mut sub_builder);\n"),('src/beider_morse/engine.rs',"    fn apply_final_rule(","    fn walk(\n        &self,\n        phoneme_text: &CharSequence,\n        final_rules: &BTreeMap<char, Vec<Rule>>,\n        sub_builder: &mut PhonemeBuilder,\n    ) {\n        let mut i = 0;\n        let len = phoneme_text.len();\n        while i < len {\n            let rules_application = RulesApplication {\n                rules: final_rules,\n                input: phoneme_text,\n                phoneme_builder: sub_builder,\n                i,\n                max_phoneme: self.max_phonemes,\n                found: false,\n            }\n            .invoke();\n            let new_i = rules_application.i();\n\n            if !rules_application.found {\n                let txt = &phoneme_text[i..i + 1];\n                sub_builder.append(txt);\n            }\n\n            i = new_i;\n        }\n    }\n\n    fn apply_final_rule("))
r('bm-applyret','C13',('src/beider_morse/engine.rs',"                    if phonemes.len() < max_phonemes {\n                        phonemes.insert(phoneme);\n                    }\n                    if phonemes.len() >= max_phonemes {\n                        break 'outer;\n                    }","                    let room = phonemes.len() < max_phonemes;\n                    if room {\n                        phonemes.insert(phoneme);\n                    }\n                    if !room || phonemes.len() == max_phonemes {\n                        break 'outer;\n                    }"))
r('lang-first','C14 C13',('src/beider_morse/languages.rs',"languages.iter().next().map(|v| v.as_str())","languages.first().map(String::as_str)"))
r('lang-restrict','C14',('src/beider_morse/languages.rs',"            (_, LanguageSet::Any) => self.clone(),\n            (_, LanguageSet::NoLanguages) => other.clone(),\n            (LanguageSet::Some","            (LanguageSet::Any, _) => other.clone(),\n            (_, LanguageSet::Any) => self.clone(),\n            (_, LanguageSet::NoLanguages) => LanguageSet::NoLanguages,\n            (LanguageSet::Some"),('src/beider_morse/languages.rs',"            (LanguageSet::Any, _) => other.clone(),\n            (LanguageSet::NoLanguages, _) => self.clone(),\n","            (LanguageSet::NoLanguages, _) => self.clone(),\n"))
r('files-order','C21',('src/beider_morse/languages.rs',"        // Try single line comment\n        if let Ok((rm, _)) = end_of_line().parse(remains) {\n            remains = rm;\n            continue;\n        }\n\n        // Try multiline comment\n        if let Ok((rm, ln)) = multiline_comment().parse(remains) {\n            line_number += ln - 1;\n            remains = rm;\n            continue;\n        }\n","        // Try multiline comment\n        if let Ok((rm, ln)) = multiline_comment().parse(remains) {\n            line_number += ln - 1;\n            remains = rm;\n            continue;\n        }\n\n        // Try single line comment\n        if let Ok((rm, _)) = end_of_line().parse(remains) {\n            remains = rm;\n            continue;\n        }\n"))
r('files-include','C21',('src/beider_morse/rule.rs',"                if let PhoneticError::BMError(error) = error.clone() {\n                    build_error(\n                        line_number,\n                        Some(filename.to_string()),\n                        remains,\n                        error.to_string(),\n                    )\n                } else {\n                    error\n                }","                match error {\n                    PhoneticError::BMError(error) => build_error(\n                        line_number,\n                        Some(filename.to_string()),\n                        remains,\n                        error.to_string(),\n                    ),\n                    other => other,\n                }"))
r('daitch-sort','C12',('src/daitch_mokotoff.rs',"v.sort_by(|a, b| a.pattern.len().cmp(&b.pattern.len()).reverse())","v.sort_by(|a, b| b.pattern.len().cmp(&a.pattern.len()))"))
r('daitch-newline','C12',('src/daitch_mokotoff.rs',"                let lower = ch.to_lowercase().next();\n                match lower {\n                    None => ch,\n                    Some(mut lower) => {\n                        if self.ascii_folding {\n                            if let Some(elem) = self.ascii_folding_rules.get(&lower) {\n                                lower = *elem\n                            }\n                        }\n\n                        lower\n                    }\n                }","                let lower = ch.to_lowercase().next().unwrap_or(ch);\n                if !self.ascii_folding {\n                    return lower;\n                }\n                match self.ascii_folding_rules.get(&lower) {\n                    Some(elem) => *elem,\n                    None => lower,\n                }"))
r('charseq3','C15',('src/helper.rs',"        let mut iterator = self.inner.char_indices().skip(index.start);\n\n        let start","        if index.end <= index.start {\n            return \"\";\n        }\n        let mut iterator = self.inner.char_indices().skip(index.start);\n\n        let start"),('src/helper.rs',"        let skip = if index.end > index.start {\n            index.end - (index.start + 1)\n        } else {\n            return \"\";\n        };","        let skip = index.end - (index.start + 1);"))
r('phoneme-cmp','C13',('src/beider_morse/rule.rs',"        let iterator = self.phoneme_text.chars().zip(other.phoneme_text.chars());\n        for (ch1, ch2) in iterator {\n            if ch1 != ch2 {\n                return ch1.cmp(&ch2);\n            }\n        }\n\n        let o1length = self.phoneme_text.len();\n        let o2length = other.phoneme_text.len();\n\n        o1length.cmp(&o2length)","        self.phoneme_text.cmp(&other.phoneme_text)"))
r('bm-retain','C13 C18',('src/beider_morse/lang.rs',"                    langs = langs.intersection(&rule.languages).cloned().collect();","                    langs.retain(|l| rule.languages.contains(l));"))
r('phoneme-find','C21',('src/beider_morse/rule.rs',"    let index: Option<(usize, _)> = phoneme.char_indices().find(|(_, c)| c == &'[');\n    if let Some((index, _)) = index {","    if let Some(index) = phoneme.find('[') {"))
r('dmeta-contains','C11',('src/double_metaphone.rs',"    fn contains(value: &str, start: isize, length: usize, criteria: Vec<&str>) -> bool {\n        let result = false;\n\n        if start < 0 {\n            return false;\n        }\n\n        let start = start as usize;\n\n        let target: String = value.chars().skip(start).take(length).collect();\n        if Self::len(&target) == length {\n            return criteria.contains(&target.as_str());\n        }\n\n        result\n    }","    fn contains(value: &str, start: isize, length: usize, criteria: Vec<&str>) -> bool {\n        Self::contains_array(value, start, length, &criteria)\n    }"))
r('dmeta-append','C11 C17',('src/double_metaphone.rs',"        if self\n            .max_length\n            .map(|v| self.primary.len() < v)\n            .unwrap_or(true)\n        {\n            self.primary.push(ch);\n        }","        match self.max_length {\n            Some(v) if self.primary.len() >= v => (),\n            _ => self.primary.push(ch),\n        }"))
r('metaphone-limit','C08 C17',('src/metaphone.rs',"                if self\n                    .max_code_length\n                    .map(|v| code.len() == v)\n                    .unwrap_or(false)\n                {","                if self.max_code_length == Some(code.len()) {"))
r('metaphone-start','C08 C01',('src/metaphone.rs',"            Some('K' | 'G' | 'P') => {\n                if iterator.peek() == Some(&'N') {\n                    local.push_str(&inwd[1..]);\n                } else {\n                    local.push_str(&inwd);\n                }\n            }\n","            Some('K' | 'G' | 'P') if iterator.peek() == Some(&'N') => local.push_str(&inwd[1..]),\n"))
r('caverphone-take','C05',('src/caverphone.rs',"        txt[0..TEN_1.len()].to_string()","        txt.chars().take(10).collect()"))
r('helper-end','C05',('src/helper.rs',"    if string.ends_with(pattern) {\n        string.replace_range(string.len() - pattern.len().., to);\n    }\n    string","    if !string.ends_with(pattern) {\n        return string;\n    }\n    let keep = string.len() - pattern.len();\n    string.truncate(keep);\n    string.push_str(to);\n    string"))
r('soundex-string','C02',('src/soundex.rs',"        let mut code: [char; 4] = ['0', '0', '0', '0'];\n","        let mut code = ['0'; 4];\n"))
r('soundex-iflet','C02',('src/soundex.rs',"            match iterator.next() {\n                None => break,\n                Some(ch) => {\n                    if self.special_case_h_w && (ch == 'H' || ch == 'W') {\n                        continue;\n                    }\n                    let digit = self.get_mapping_code(ch);\n                    if digit == SILENT {\n                        continue;\n                    }\n                    if digit != '0' && digit != previous {\n                        code[count] = digit;\n                        count += 1;\n                    }\n\n                    previous = digit;\n                }\n            }","            let Some(ch) = iterator.next() else { break };\n            let skipped = self.special_case_h_w && matches!(ch, 'H' | 'W');\n            if skipped {\n                continue;\n            }\n            let digit = self.get_mapping_code(ch);\n            if digit != SILENT {\n                if digit != '0' && digit != previous {\n                    code[count] = digit;\n                    count += 1;\n                }\n                previous = digit;\n            }"))
r('mra-ignorecase','C10',('src/match_rating_approach.rs',"        if first == second {\n            return true;\n        }","        if first.eq_ignore_ascii_case(second) {\n            return true;\n        }"))
r('mra-trim','C10',('src/match_rating_approach.rs',"        if first.trim().is_empty() || second.trim().is_empty() {\n            return false;\n        }\n\n        if first.trim().chars().count() == 1 || second.trim().chars().count() == 1 {\n            return false;\n        }","        let letters = |s: &str| s.trim().chars().count();\n        if letters(first) <= 1 || letters(second) <= 1 {\n            return false;\n        }"))
r('optim-prefix','C20 C21',('src/beider_morse/regex_optim.rs',"                if prefix.len() > input.len() {\n                    false\n                } else {\n                    input.starts_with(prefix)\n                }","                input.starts_with(prefix)"))
r('rule-match','C20',('src/beider_morse/rule.rs',"        if ipl > input.len()\n            || input[index..ipl] != self.pattern\n            || !self.right_context.is_match(&input[ipl..])\n        {\n            false\n        } else {\n            self.left_context.is_match(&input[..index])\n        }","        ipl <= input.len()\n            && input[index..ipl] == self.pattern\n            && self.left_context.is_match(&input[..index])\n            && self.right_context.is_match(&input[ipl..])"))
