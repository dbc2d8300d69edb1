// ---- texts that format! can join
trait Text { spec fn text(&self) -> Seq<char>; }
impl Text for String { spec fn text(&self) -> Seq<char> { self@ } }
impl Text for str { spec fn text(&self) -> Seq<char> { self@ } }
impl<T: Text + ?Sized> Text for &T { spec fn text(&self) -> Seq<char> { (**self).text() } }
// format! as a function with a contract (assumed); the text of error messages is dropped
//@formats
spec fn digits(n: nat) -> Seq<char> decreases n { if n < 10 { seq![(48 + n) as u8 as char] } else { digits(n / 10).push((48 + n % 10) as u8 as char) } }
impl Text for usize { spec fn text(&self) -> Seq<char> { digits(*self as nat) } }
impl Text for u32 { spec fn text(&self) -> Seq<char> { digits(*self as nat) } }
impl Text for u64 { spec fn text(&self) -> Seq<char> { digits(*self as nat) } }
#[verifier::external_body]
fn joined<A: Text + ?Sized, B: Text + ?Sized>(a: &A, b: &B) -> (r: String) ensures r@ == a.text() + b.text() { unimplemented!() }
#[verifier::external_body]
fn owned<T: Text + ?Sized>(t: &T) -> (r: String) ensures r@ == t.text() { unimplemented!() }
#[verifier::external_body]
fn text_is<A: Text + ?Sized, B: Text + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.text() == b.text()) { unimplemented!() }
#[verifier::external_body]
fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
// `a + "x"` is a.push('x') (used where format! was rewritten)
broadcast proof fn lemma_joined_char(a: Seq<char>, c: char) ensures #[trigger] (a + seq![c]) == a.push(c) { assert(a + seq![c] =~= a.push(c)); }
