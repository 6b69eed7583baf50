@use prelude/sets.rs prelude/nom.rs prelude/fmt.rs spec/clean.rs spec/soundex.rs spec/refined.rs spec/cologne.rs spec/caverphone.rs spec/nysiis.rs spec/phonex.rs spec/metaphone.rs spec/double_metaphone.rs spec/mra.rs spec/rules_text.rs spec/dm.rs spec/shapes.rs proof/shapes.rs
@file src/lib.rs
