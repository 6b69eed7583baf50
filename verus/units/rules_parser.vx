@use prelude/sets.rs prelude/nom.rs prelude/fmt.rs prelude/regex.rs spec/rules_text.rs spec/bm_ctx.rs spec/bm.rs spec/bm_text.rs proof/rules_text.rs
@include nom_parsers.vx
