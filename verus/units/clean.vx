@fn SoundexUtils::soundex_clean
    ensures r@ == clean(value@)
@closure 1 |c: char| -> (vx_r: String)
    ensures vx_r@ == upper(c)
