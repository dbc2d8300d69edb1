// ---- std string functions, as contracts on sequences of characters (assumed)
spec fn lower(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u32 + 32) as u8) as char } else { c } }
spec fn nocase(a: Seq<char>, b: Seq<char>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> lower(#[trigger] a[i]) == lower(b[i]) }
#[verifier::external_body]
fn nocase_eq(a: &String, b: &str) -> (r: bool) ensures r == nocase(a@, b@) { unimplemented!() }
uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;                // without surrounding white space
#[verifier::external_body]
fn str_trim<'a>(s: &'a str) -> (r: &'a str) ensures r@ == trimmed(s@) { unimplemented!() }
spec fn pieces(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![seq![]] }
    else if s[0] == c { seq![Seq::<char>::empty()] + pieces(s.skip(1), c) }
    else { let r = pieces(s.skip(1), c); r.update(0, seq![s[0]] + r[0]) }
}
#[verifier::external_body]
fn str_split<'a>(s: &'a str, c: char) -> (r: It<&'a str>)
    ensures r.items().len() == pieces(s@, c).len(), forall|i: int| 0 <= i < r.items().len() ==> (#[trigger] r.items()[i])@ == pieces(s@, c)[i]
{ unimplemented!() }
uninterp spec fn is_i64(s: Seq<char>) -> bool;                      // the text is an i64 / an f64
uninterp spec fn is_f64(s: Seq<char>) -> bool;
#[verifier::external_body]
fn parses_i64(s: &str) -> (r: bool) ensures r == is_i64(s@) { unimplemented!() }
#[verifier::external_body]
fn parses_f64(s: &str) -> (r: bool) ensures r == is_f64(s@) { unimplemented!() }
#[verifier::external_body]
fn str_bytes(s: &str) -> (r: Vec<u8>) ensures r@ == encode_utf8(s@) { unimplemented!() }
#[verifier::external_body]
fn str_len(s: &str) -> (r: usize) ensures r == encode_utf8(s@).len() { unimplemented!() }
#[verifier::external_body]
fn first_char(s: &str) -> (r: Option<char>) ensures r == (if s@.len() > 0 { Some(s@[0]) } else { None }) { unimplemented!() }
#[verifier::external_body]
fn char_is_ascii(c: char) -> (r: bool) ensures r == (c as u32 <= 127) { unimplemented!() }
