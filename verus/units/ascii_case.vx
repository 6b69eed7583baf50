@use prelude/sets.rs prelude/nom.rs prelude/fmt.rs prelude/regex.rs spec/clean.rs spec/soundex.rs spec/refined.rs spec/cologne.rs spec/caverphone.rs spec/nysiis.rs spec/phonex.rs spec/metaphone.rs spec/double_metaphone.rs spec/mra.rs spec/rules_text.rs spec/dm.rs spec/char_sequence.rs spec/bm_ctx.rs spec/bm.rs spec/case.rs proof/case.rs
@file src/lib.rs
