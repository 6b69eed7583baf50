"""The properties. Written from the documentation of the crate and of the algorithms it names, then the code."""
TESTS='The tests fix a few dozen sample words; the statement is over every string.'
ALLSTR='every &str (any Unicode scalar values, any length that fits in memory)'
PROPS=[
dict(id='C01',title='No string, configuration or rule text makes the crate panic or loop',
 statement="For every string and every encoder that can be built (any mapping, length, mode, rule table or name type), encode, encode_alternate, soundex, difference and is_encoded_equals return: no panic, no index or slice out of a string or inside a character, no arithmetic overflow, no endless loop or recursion. Building an encoder or a CharSequence slice from any text gives a value or an error, never a panic. (Not meant: running out of memory, as for a Phonex length of usize::MAX; Beider-Morse configurations whose language lists lack 'any' or whose #include lines form a cycle; ..=usize::MAX.)",
 over=['inputs','configurations'],qtext=ALLSTR+'; every configuration of every encoder; every rule text',
 why='A panic needs one particular string (a letter of several bytes next to a rule, a word of one letter, an upper-case form that is longer): the tests hold a few hundred, nearly all ASCII.',files=['src/lib.rs','src/helper.rs','src/soundex.rs','src/refined_soundex.rs','src/cologne.rs','src/caverphone.rs','src/nysiis.rs','src/phonex.rs','src/metaphone.rs','src/match_rating_approach.rs','src/double_metaphone.rs','src/daitch_mokotoff.rs','src/beider_morse/engine.rs','src/beider_morse/rule.rs','src/beider_morse/regex_optim.rs'],
 mech=[('every encode','src/*.rs, src/beider_morse/engine.rs'),('SoundexCommons::difference','src/lib.rs'),('Index implementations of CharSequence','src/helper.rs')]),
dict(id='C02',title='Soundex: the code of every string is the one its mapping defines',
 statement="For every string and every 26-entry mapping, Soundex keeps the alphabetic characters, upper-cased, and returns the empty string when there are none; otherwise the code is the first of them followed by exactly three symbols. The symbols are the mapping codes of the following letters in order, where H and W are skipped when they are special, letters whose code is '-' or that are outside A-Z are skipped, a code '0' or one equal to the code of the previous unskipped letter adds nothing, and the rest is filled with '0'. The default encoder uses the US English mapping with H and W special.",
 over=['inputs','configurations'],qtext=ALLSTR+', every mapping of 26 chars and both values of the H/W flag',
 why=TESTS+' They use three mappings and only ASCII words.',files=['src/soundex.rs','src/lib.rs'],
 mech=[('Soundex::encode','src/soundex.rs'),('Soundex::get_mapping_code','src/soundex.rs'),('SoundexUtils::soundex_clean','src/lib.rs')]),
dict(id='C03',title='Refined Soundex: the code of every string is the one its mapping defines',
 statement="For every string and every 26-entry mapping, Refined Soundex keeps the alphabetic characters, upper-cased, and returns the empty string when there are none; otherwise the code is the first of them followed by the mapping code of every one of them (the first included), a code being omitted when it equals that of the immediately preceding letter. A letter outside A-Z adds no code and breaks such a run.",
 over=['inputs','configurations'],qtext=ALLSTR+', every mapping of 26 chars',
 why=TESTS,files=['src/refined_soundex.rs','src/lib.rs'],
 mech=[('RefinedSoundex::encode','src/refined_soundex.rs'),('SoundexUtils::soundex_clean','src/lib.rs')]),
dict(id='C04',title='Cologne phonetics: every code follows the published letter table',
 statement="For every string, the Cologne encoder returns the code that the Kölner Phonetik table assigns to its letters in context (upper-cased, umlauts folded, other characters skipped): C, D/T, X and P depend on their neighbours as the table says, H is silent, a digit equal to the previous one is not repeated, and '0' appears only at the start.",
 over=['inputs'],qtext=ALLSTR,
 why=TESTS+' The context rules look one letter back and one ahead, which gives tens of thousands of letter contexts.',files=['src/cologne.rs'],
 mech=[('Cologne::encode','src/cologne.rs'),('CologneOutput::push','src/cologne.rs')]),
dict(id='C05',title='Caverphone 1 and 2: every code is the result of the published rewrite steps',
 statement="For every string, Caverphone 1 and Caverphone 2 return the result of applying their published ordered rewrite steps to the lower-cased letters a-z of the input, padded with '1' and cut to exactly 6 (Caverphone 1) or 10 (Caverphone 2) characters. Everything that is not a letter a-z after lower-casing has no effect.",
 over=['inputs'],qtext=ALLSTR,
 why=TESTS+' The steps interact: a step sees the output of about forty earlier ones.',files=['src/caverphone.rs','src/helper.rs'],
 mech=[('Caverphone1::encode','src/caverphone.rs'),('Caverphone2::encode','src/caverphone.rs'),('replace_end, replace_char, replace_compact_all_to_uppercase, remove_all_non_letter','src/helper.rs')]),
dict(id='C06',title='NYSIIS: every key is the result of the published rules',
 statement="For every string, NYSIIS keeps the alphabetic characters, upper-cased, translates the leading and trailing clusters and then every following letter in its left-to-right context as the NYSIIS rules say, drops repeated letters and the final S, AY and A. In strict mode, the default, the key is cut to its first 6 characters; otherwise it is returned whole.",
 over=['inputs','configurations'],qtext=ALLSTR+'; strict and relaxed mode',
 why=TESTS+' The translation rewrites the string it is reading, so a rule sees what earlier rules wrote.',files=['src/nysiis.rs','src/lib.rs','src/helper.rs'],
 mech=[('Nysiis::encode','src/nysiis.rs'),('Nysiis::transcode','src/nysiis.rs')]),
dict(id='C07',title='Phonex: every code follows the rules and has the configured length',
 statement="For every string and every maximum length, Phonex upper-cases the alphabetic characters, drops trailing S, applies its leading-letter substitutions, and returns the first resulting letter followed by the digits its context rules give the following ones (a digit equal to the last one is not repeated), padded with '0' and never longer than the maximum: the code always has exactly that many characters. Characters that are not alphabetic have no effect.",
 over=['inputs','configurations'],qtext=ALLSTR+'; every maximum length up to isize::MAX',
 why=TESTS+' They use the default length only.',files=['src/phonex.rs','src/lib.rs','src/helper.rs'],
 mech=[('Phonex::encode','src/phonex.rs'),('Phonex::preprocess','src/phonex.rs'),('Phonex::transcode','src/phonex.rs')]),
dict(id='C08',title='Metaphone: every code follows the letter rules, cut to the length set',
 statement="For every string and every maximum length (or none), Metaphone upper-cases the input and returns it unchanged when it is a single character; otherwise it applies the leading-letter exceptions (KN GN PN AE WR lose their first letter, WH becomes W, X becomes S) and returns the concatenation of what the Metaphone rules give each letter from its neighbours, in order, skipping a letter other than C that repeats its predecessor, and cut to the maximum length. Positions count characters, not bytes, so a letter outside A-Z adds nothing and changes no other rule.",
 over=['inputs','configurations'],qtext=ALLSTR+'; every maximum length, and none',
 why=TESTS+' The rules look two letters ahead and one back, and the tests use the default length.',files=['src/metaphone.rs','src/helper.rs'],
 mech=[('Metaphone::encode, region_match, is_previous_char, is_next_char, is_last_char, is_vowel','src/metaphone.rs')]),
dict(id='C09',title='Match Rating Approach: every code is the result of the published steps',
 statement="For every string, the Match Rating Approach returns the empty string when the trimmed input has at most one character; otherwise it upper-cases it, drops the characters - & ' . , and white space, replaces the accented letters it lists by their plain letter, drops every vowel except a leading one, keeps one of each doubled consonant, and, if more than six characters are left, returns the first three and the last three: a code never has more than six.",
 over=['inputs'],qtext=ALLSTR,
 why=TESTS+' Multi-byte characters, white space and accents in any position change which characters count as leading.',files=['src/match_rating_approach.rs','src/helper.rs'],
 mech=[('MatchRatingApproach::encode, clean_name, remove_accent, remove_vowels, remove_double_consonants, get_first3_last3','src/match_rating_approach.rs')]),
dict(id='C10',title='Match Rating Approach: names match exactly when the published rule says so',
 statement="For every two strings, is_encoded_equals of the Match Rating Approach is false when either trimmed string has at most one character, true when the strings are equal, false when the code lengths differ by three or more, and otherwise compares the similarity rating (letters equal at the same place from the left and then from the right cancel out; six and the larger number of left-over letters differ by the rating) with the minimum rating that the table gives for the sum of the code lengths. The answer does not depend on the order of the two names.",
 over=['inputs'],qtext='every pair of &str',
 why='The tests compare some eighty pairs of names; the statement is over every pair, including codes of unequal length, whose positions are paired from both ends.',files=['src/match_rating_approach.rs'],
 mech=[('MatchRatingApproach::is_encoded_equals, left_to_right_then_right_to_left_processing, get_minimum_rating','src/match_rating_approach.rs')]),
dict(id='C11',title='Double Metaphone: both codes follow the letter rules, cut to the length set',
 statement="For every string and every maximum length (or none), Double Metaphone trims and upper-cases the input, skips a silent initial letter (GN KN PN WR PS), and builds its primary and alternate codes by appending, letter after letter, what the Double Metaphone rules give for that letter in its context (including the Slavo-Germanic words), skipping the letters a rule consumes. Neither code is ever longer than the maximum, and the walk ends when both are full. Comparing two strings compares their primary codes, or their alternate codes when asked. Positions count characters, not bytes.",
 over=['inputs','configurations'],qtext=ALLSTR+'; every maximum length, and none',
 why=TESTS+' Some 140 context rules of up to six letters interact, and the tests use a maximum length of four or more.',files=['src/double_metaphone.rs','src/helper.rs'],
 mech=[('DoubleMetaphone::double_metaphone and the handle_* and condition_* functions','src/double_metaphone.rs'),('DoubleMetaphoneResult::append_char, append_str, is_complete','src/double_metaphone.rs')]),
dict(id='C12',title='Daitch-Mokotoff: the codes of every string are those its rules define',
 statement="For every rule set and every string, the Daitch-Mokotoff encoder drops white space, lower-cases each character and folds it when folding is on, and walks the name: at each place the first rule (longest pattern first) whose pattern begins the rest supplies the replacements for the start, before a vowel, or otherwise, and its length is consumed; a character no rule matches is skipped. Each branch is extended by each alternative (by the first only without branching) unless its last replacement ends with it (an M next to an N aside), and cut to six digits. Branches with the same code are one, codes are padded with '0' to six digits: soundex returns them in order joined by '|' and encode the first. The default encoder uses the published commons-codec rules, and a rule text gives exactly the rules written in it.",
 over=['inputs','configurations'],qtext=ALLSTR+'; every rule text; folding on and off',
 why=TESTS+' Branches multiply and merge, so the result depends on the whole history of a name, and the tests use the default rules nearly everywhere.',files=['src/daitch_mokotoff.rs','src/rules_parser.rs'],
 mech=[('DaitchMokotoffSoundex::inner_soundex, cleanup, encode, soundex','src/daitch_mokotoff.rs'),('Branch::process_next_replacement, Rule::get_replacement, is_vowel','src/daitch_mokotoff.rs'),('DaitchMokotoffSoundexBuilder::build','src/daitch_mokotoff.rs')]),
dict(id='C13',title='Beider-Morse: the code of every name is what its rules generate',
 statement="For every rule set, configuration (name type, rule type, concat, maximum phonemes) and string, the Beider-Morse encoder lower-cases the name and replaces hyphens by spaces; a Generic name that begins with d' or a listed prefix gives (rest)-(prefix+rest); several words give their codes joined by - or, when concatenating, one code for the words without prefixes (for Sephardic names, after the last apostrophe). A single name's code walks the name: the first rule that applies at each place extends every phoneme so far by each of its phonemes whose languages are compatible, up to the maximum, and a place without a rule adds nothing; then the common and the language's final rules rewrite each phoneme the same way (keeping unmatched characters), merging equal texts; the results are joined by | in order. The rules of a language are used when detection, or the caller, leaves just one with rules, else those of any.",
 over=['inputs','configurations'],qtext=ALLSTR+'; embedded and user rule files, all name types, rule types, concat and maximum phonemes',
 why=TESTS+' The phoneme sets are products of the choices at every letter, cut at a maximum, and the tests use the shipped rules.',files=['src/beider_morse/engine.rs','src/beider_morse/lang.rs','src/beider_morse/rule.rs','src/beider_morse/mod.rs','src/beider_morse/languages.rs'],
 mech=[('PhoneticEngine::encode, encode_with_language_set, apply_final_rule','src/beider_morse/engine.rs'),('PhonemeBuilder::apply, append, make_string, RulesApplication::invoke','src/beider_morse/engine.rs'),('Lang::guess_languages','src/beider_morse/lang.rs'),('Phoneme::cmp','src/beider_morse/rule.rs')]),
dict(id='C14',title='LanguageSet: restriction is intersection, merge is union',
 statement="A LanguageSet stands for a set of language names: Any for all of them, NoLanguages for none, SomeLanguages for those it lists. restrict_to gives a set that stands for the intersection of the two and merge one that stands for their union, whatever way the operands are written; is_empty and is_singleton tell whether it stands for no language or for exactly one; any gives the alphabetically first language, and none for Any or an empty set; and a set built from a list or a BTreeSet stands for exactly its names.",
 over=['inputs'],qtext='every pair of language sets, with any names',
 why='There are no tests of the algebra itself: only particular names through the whole Beider-Morse engine with its embedded rules, where most sets are Any.',files=['src/beider_morse/languages.rs'],
 mech=[('LanguageSet::restrict_to, merge, is_empty, is_singleton, any','src/beider_morse/languages.rs'),('From<BTreeSet<String>>, From<Vec<&str>> for LanguageSet','src/beider_morse/languages.rs')]),
dict(id='C15',title='CharSequence: slices and length count characters, cut to the text',
 statement="A CharSequence built from any string gives that string back, counts its characters (not bytes) as its length, is empty exactly when the string is, and any slice a..b, a.., .., a..=b, ..b, ..=b of it is exactly the characters at these positions: an end beyond the text is cut to the text, an empty, reversed or out-of-range slice is the empty string, and no slice splits a character or panics (an inclusive end of usize::MAX aside, as for str).",
 over=['inputs'],qtext='every &str; every pair of usize positions',
 why='The tests slice strings of one character and two sample texts; positions out of range or reversed among characters of 1 to 4 bytes are an unbounded space.',files=['src/helper.rs'],
 mech=[('CharSequence::From<&str>, len, is_empty, as_str','src/helper.rs'),('Index<Range<usize>> for CharSequence and the other five Index implementations','src/helper.rs')]),
dict(id='C16',title='Soundex difference: the number of positions at which the two codes agree',
 statement="For every two strings, difference of a Soundex or Refined Soundex encoder, whatever its mapping, is the number of positions at which the codes of the two strings have the same character, counted over the shorter code. It is therefore symmetric, 0 when either code is empty, at most 4 for Soundex, and the code length exactly when the codes of equal length are equal.",
 over=['inputs','configurations'],qtext='every pair of &str; every mapping',
 why='The tests compare a few pairs of English words; empty codes, codes of different length and characters of several bytes do not occur in them.',files=['src/lib.rs','src/soundex.rs','src/refined_soundex.rs'],
 mech=[('SoundexCommons::difference','src/lib.rs'),('Soundex::encode','src/soundex.rs'),('RefinedSoundex::encode','src/refined_soundex.rs')]),
dict(id='C17',title='Every code has the shape its algorithm promises, whatever the input',
 statement="For every string: a Soundex code is empty or a letter and three symbols, each a mapping symbol or 0 and never the silent '-'; a Refined Soundex code is empty or its first letter followed by mapping symbols; a Cologne code is made of digits 0-8, 0 only at the start; a Caverphone 1 code has exactly 6 and a Caverphone 2 code exactly 10 characters, of A-Z and 1; a NYSIIS key is no longer than the letters it is made from, and has at most 6 characters in strict mode; a Phonex code has exactly the maximum length, with digits 0-6 after its first character; a Metaphone code is no longer than the maximum and, unless the input is a single character, returned upper-cased, is made of 0AEIOUBFHJKLMNPRSTWXY; both Double Metaphone codes are no longer than the maximum and made of 0AFHJKLMNPRSTX (the alternate also of a space); a Match Rating code has at most six characters; and Daitch-Mokotoff gives at least one code, each of exactly six characters.",
 over=['inputs','configurations'],qtext=ALLSTR+'; every mapping, maximum length, mode and rule table',
 why=TESTS+' Users store codes in columns of fixed width and compare them: the odd character or length shows only for a particular word, such as one letter of several bytes, or one that a rule extends past the maximum.',files=['src/soundex.rs','src/refined_soundex.rs','src/cologne.rs','src/caverphone.rs','src/nysiis.rs','src/phonex.rs','src/metaphone.rs','src/double_metaphone.rs','src/match_rating_approach.rs','src/daitch_mokotoff.rs'],
 mech=[('encode of every encoder','src/*.rs'),('DoubleMetaphoneResult::append_char, append_str','src/double_metaphone.rs'),('Branch::finish','src/daitch_mokotoff.rs'),('get_first3_last3','src/match_rating_approach.rs')]),
dict(id='C18',title='Spellings that differ only in ASCII letter case give the same codes',
 statement="For every encoder and every configuration, two strings that differ only in the case of ASCII letters have the same codes (encode, encode_alternate, soundex, every branch of Daitch-Mokotoff with folding or without, Beider-Morse with detected or given languages), and is_encoded_equals is true for them (for the Match Rating Approach, unless they have at most one character after trimming).",
 over=['inputs','configurations'],qtext='every pair of &str that differ in ASCII case only; every configuration of every encoder',
 why='The tests give most names in one spelling. A comparison against a letter in one case before the text is folded, or a case-sensitive prefix, shows only for a name in the other case.',files=['src/soundex.rs','src/refined_soundex.rs','src/cologne.rs','src/caverphone.rs','src/nysiis.rs','src/phonex.rs','src/metaphone.rs','src/double_metaphone.rs','src/match_rating_approach.rs','src/daitch_mokotoff.rs','src/beider_morse/engine.rs','src/lib.rs'],
 mech=[('encode of every encoder','src/*.rs, src/beider_morse/engine.rs'),('SoundexUtils::soundex_clean','src/lib.rs'),('Encoder::is_encoded_equals','src/lib.rs')]),
dict(id='C19',title='Soundex encoders built from text: accepted exactly when it has 26 characters',
 statement="Building a Soundex or Refined Soundex encoder from a string succeeds exactly when the string has 26 characters (not bytes), and the encoder then uses these characters as its mapping; otherwise the error carries the characters given. Every way of building (parse, try_from of &str or String, from an array) gives an equal encoder, with H and W special exactly when the Soundex mapping has no silent code '-'.",
 over=['inputs','configurations'],qtext='every string as mapping',
 why='The tests build a handful of encoders from 26 ASCII characters; lengths counted in bytes or one construction path with another H/W flag would pass them.',files=['src/soundex.rs','src/refined_soundex.rs'],
 mech=[('TryFrom<&str>, FromStr, TryFrom<String>, From<[char; 26]> for Soundex','src/soundex.rs'),('TryFrom<&str>, FromStr, TryFrom<String> for RefinedSoundex','src/refined_soundex.rs')]),
dict(id='C20',title='Beider-Morse: a rule applies exactly where its pattern and contexts do',
 statement="For every rule, text and position, a Beider-Morse rule applies at the position exactly when its pattern is there, its right context matches the text that follows the pattern and its left context the text before the position; a context without [ stands for its plain characters, a single list [..] for one character in it and [^..] for one not in it, each ending at or beginning at the position as ^ and $ ask (an empty context accepts every text, ^ alone only an empty left one and $ alone only an empty right one); any other context is matched as the regular expression it is. All positions count characters, not bytes.",
 over=['inputs','configurations'],qtext='every rule, every text, every position',
 why='The tests check a dozen contexts on one or two ASCII texts each.',files=['src/beider_morse/regex_optim.rs','src/beider_morse/rule.rs','src/beider_morse/mod.rs','src/helper.rs'],
 mech=[('OptimizedRegex::from_str, is_match','src/beider_morse/regex_optim.rs'),('Rule::pattern_and_context_matches','src/beider_morse/rule.rs'),('IsMatch for Either<Regex, OptimizedRegex>','src/beider_morse/mod.rs')]),
dict(id='C21',title='Beider-Morse files: read as written, errors name file and line',
 statement="For every Beider-Morse configuration, the rules, languages and language-detection files give exactly what is written in them: each quadruplet a rule with its contexts and phonemes (a list (a|b), languages [x+y]), in order, under the first character of its pattern; an include the rules of the named file; comments and blank lines nothing. A line that is none of these is rejected with an error that names the file and the line on which it stands, an unknown include or missing file with an error, and no text makes reading panic.",
 over=['inputs'],qtext='every text of a rules, languages or detection file; acyclic includes',
 why='The tests read well-formed files and a few broken lines; line numbers after comments of several lines or inside included files are not among them.',files=['src/beider_morse/rule.rs','src/beider_morse/lang.rs','src/beider_morse/languages.rs','src/beider_morse/mod.rs','src/rules_parser.rs'],
 mech=[('parse_rule, parse_phoneme, parse_phoneme_expr','src/beider_morse/rule.rs'),('parse_lang','src/beider_morse/lang.rs'),('parse_liste','src/beider_morse/languages.rs'),('quadruplet, include, multiline_comment, end_of_line, build_error','src/rules_parser.rs')]),
]
