@file src/helper.rs
@fn is_vowel
    ensures r == (match c { Some(ch) => is_vowel_spec(ch, include_y), None => false })
