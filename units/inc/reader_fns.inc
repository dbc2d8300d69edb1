use core::cmp;
#[verifier::external_body]
struct Utf8Error { }
//@include reads.inc
trait BufRead: Read {
    spec fn avail(&self) -> nat;      // how many bytes the last fill_buf showed that are not consumed
    fn fill_buf(&mut self) -> (r: io::Result<&[u8]>)
        requires old(self).inv(),
        ensures
            final(self).steady() == old(self).steady(),
            r is Ok || old(self).steady() ==> final(self).inv() && final(self).rest() == old(self).rest(),
            r matches Ok(b) ==> final(self).sound() == old(self).sound() && final(self).avail() == b@.len() && b@.len() <= old(self).rest().len() && b@ == old(self).rest().take(b@.len() as int) && (b@.len() == 0 ==> old(self).rest().len() == 0 && old(self).sound()),
            r is Err ==> !old(self).sound();
    fn consume(&mut self, amt: usize)
        requires old(self).inv(), amt <= old(self).avail(),
        ensures final(self).inv(), final(self).steady() == old(self).steady(), final(self).sound() == old(self).sound(), final(self).rest() == old(self).rest().skip(amt as int), final(self).avail() == old(self).avail() - amt;
}
// ---- std, as contracts (assumed)
impl Read for &[u8] {
    spec fn inv(&self) -> bool { true }
    spec fn rest(&self) -> Seq<u8> { self@ }
    spec fn sound(&self) -> bool { true }
    spec fn steady(&self) -> bool { true }
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>) { unimplemented!() }
}
#[verifier::external_body]
fn range_mut(s: &mut Box<[u8]>, a: usize) -> (r: &mut [u8]) requires a <= old(s)@.len() ensures r@ == old(s)@.skip(a as int), final(s)@ == old(s)@.take(a as int) + final(r)@ { unimplemented!() }
#[verifier::external_body]
fn all_mut(s: &mut Box<[u8]>) -> (r: &mut [u8]) ensures r@ == old(s)@, final(s)@ == final(r)@ { unimplemented!() }
#[verifier::external_body]
fn range(s: &[u8], a: usize, b: usize) -> (r: &[u8]) requires a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
fn boxed(s: &[u8]) -> (r: Box<[u8]>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
fn into_boxed(s: Vec<u8>) -> (r: Box<[u8]>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
fn zeros(n: usize) -> (r: Vec<u8>) ensures r@.len() == n { unimplemented!() }
#[verifier::external_body]
fn copied(s: &[u8]) -> (r: It<u8>) ensures r.items() == s@ { unimplemented!() }
#[verifier::external_body]
fn str_from_utf8(b: &[u8]) -> (r: Result<&str, Utf8Error>) ensures r is Ok <==> valid_utf8(b@), r matches Ok(s) ==> s@ == decode_utf8(b@) { unimplemented!() }
#[verifier::external_body]
fn str_to_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
fn string_new() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
macro_rules! debug_assert { ($a:expr) => { claim($a) } }
macro_rules! assert_ { ($a:expr) => { claim($a) } }

// ---- the lines of a text: without their ends; the last one counts only if the text is known to end there
spec fn no_cr(s: Seq<u8>) -> Seq<u8> { if s.len() > 0 && s.last() == 13u8 { s.drop_last() } else { s } }
spec fn newline(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 || s[0] == 10u8 { 0 } else { 1 + newline(s.skip(1)) } }
proof fn lemma_newline(s: Seq<u8>)
    ensures 0 <= newline(s) <= s.len(), forall|i: int| 0 <= i < newline(s) ==> s[i] != 10u8, newline(s) < s.len() ==> s[newline(s)] == 10u8,
    decreases s.len()
{
    if s.len() > 0 && s[0] != 10u8 {
        lemma_newline(s.skip(1));
        assert forall|i: int| 0 <= i < newline(s) implies s[i] != 10u8 by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } }
        if newline(s) < s.len() { assert(s.skip(1)[newline(s) - 1] == s[newline(s)]); }
    }
}
// None: some line is not text
spec fn lines_of(s: Seq<u8>, cut: bool) -> Option<Seq<Seq<char>>> decreases s.len() via lines_of_decreases {
    if s.len() == 0 || (newline(s) == s.len() && cut) { Some(seq![]) }
    else {
        let line = no_cr(s.take(newline(s)));
        let rest = if newline(s) < s.len() { lines_of(s.skip(newline(s) + 1), cut) } else { Some(seq![]) };
        if valid_utf8(line) && rest is Some { Some(seq![decode_utf8(line)] + rest->Some_0) } else { None }
    }
}
#[via_fn]
proof fn lines_of_decreases(s: Seq<u8>, cut: bool) { lemma_newline(s); }
spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
broadcast proof fn skip_skip(s: Seq<u8>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len(),
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b)
{ assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
// the bytes a..b of a buffer, followed by more
spec fn then(buf: Seq<u8>, a: int, b: int, more: Seq<u8>) -> Seq<u8> { buf.subrange(a, b) + more }
broadcast proof fn lemma_then(buf: Seq<u8>, a: int, b: int, more: Seq<u8>)
    requires 0 <= a <= b <= buf.len(),
    ensures
        (#[trigger] then(buf, a, b, more)).len() == b - a + more.len(),
        a == b ==> then(buf, a, b, more) == more,
        then(buf, a, b, more).take(b - a) == buf.subrange(a, b),
        forall|k: int| 0 <= k <= b - a ==> #[trigger] then(buf, a, b, more).skip(k) == then(buf, a + k, b, more),
        forall|k: int| 0 <= k <= b - a ==> #[trigger] then(buf, a, b, more).take(k) == buf.subrange(a, a + k),
{
    if a == b { assert(then(buf, a, b, more) =~= more); }
    assert(then(buf, a, b, more).take(b - a) =~= buf.subrange(a, b));
    assert forall|k: int| 0 <= k <= b - a implies #[trigger] then(buf, a, b, more).skip(k) == then(buf, a + k, b, more) by { assert(then(buf, a, b, more).skip(k) =~= then(buf, a + k, b, more)); }
    assert forall|k: int| 0 <= k <= b - a implies #[trigger] then(buf, a, b, more).take(k) == buf.subrange(a, a + k) by { assert(then(buf, a, b, more).take(k) =~= buf.subrange(a, a + k)); }
}
//@item src/util/reader.rs | const | DEFAULT_BUF_SIZE
//@rwall «self.inner.read(&mut self.buf[$a..])» => «self.inner.read(range_mut(&mut self.buf, $a))» (std range index as a function with a contract)
//@rwall «self.inner.read(&mut self.buf)» => «self.inner.read(all_mut(&mut self.buf))» (std deref as a function with a contract)
//@rwall «&$b[..$e]» => «range(&$b, 0, $e)» (std range index as a function with a contract)
//@rwall «&$b[$a..$e]» => «range(&$b, $a, $e)» (std range index as a function with a contract)
//@rwall «$b[$a..$e].iter().position(|&$c| $f)» => «copied(range($b, $a, $e)).position(|$c| $f)» (std iterator as a shim with contracts)
//@rwall «$v.into_boxed_slice()» => «into_boxed($v)» (std method as a function with a contract)
//@rwall «vec![0; $n]» => «zeros($n)» (std macro as a function with a contract)
//@rwall «std::str::from_utf8($s)» => «str_from_utf8($s)» (std function as a function with a contract)
//@rwall «Error::new» => «io::Error::new» (the file imports std::io::Error)
//@rwall «String::new()» => «string_new()» (std function as a function with a contract)
//@rwall «assert!($e)» => «claim($e)» (an assertion is an obligation)
//@item src/util/reader.rs | struct | ChopperBufReader
//@item src/util/reader.rs | struct | ChopperBufPreviewer

//@rwall «cmp::min($a, $b)» => «min($a, $b)» (std function as a function with a contract)
//@rwall «$s.to_string()» => «str_to_string($s)» (std method as a function with a contract)
//@rwall «debug_assert!($e)» => «claim($e)» (a debug assertion is an obligation)
//@rwall «trimmed_slice.into()» => «boxed(trimmed_slice)» (std conversion as a function with a contract)
impl<R: Read> ChopperBufReader<R> {
    spec fn wf(&self) -> bool { self.pos <= self.cap <= self.buf@.len() && self.buf@.len() > 0 && self.inner.inv() }
    //@fn src/util/reader.rs | ChopperBufReader | with_capacity
        //@ret r
        //@spec
        requires capacity > 0, inner.inv(),
        ensures r.wf(), r.steady() == inner.steady(), r.rest() == inner.rest(), r.sound() == inner.sound(), r.buf@.len() == capacity, r.pos == 0, r.cap == 0, r.inner == inner,
        //@start
        broadcast use lemma_then;
    //@end
    //@fn src/util/reader.rs | ChopperBufReader | new
        //@ret r
        //@spec
        requires inner.inv(),
        ensures r.inv(), r.steady() == inner.steady(), r.rest() == inner.rest(), r.sound() == inner.sound(),
    //@end
    //@fn src/util/reader.rs | ChopperBufReader | discard_buffer
        //@spec
        ensures final(self).buf == old(self).buf, final(self).inner == old(self).inner, final(self).pos == 0, final(self).cap == 0,
    //@end
    //@fn src/util/reader.rs | ChopperBufReader | fill_buffer
        //@ret r
        //@spec
        requires old(self).wf(), old(self).pos == 0, old(self).cap == 0,
        ensures
            r is Ok || old(self).steady() ==> final(self).wf() && final(self).rest() == old(self).rest(),
            final(self).pos == 0, r is Ok ==> final(self).sound() == old(self).sound(), final(self).buf@.len() == old(self).buf@.len(), final(self).steady() == old(self).steady(),
            r is Ok ==> final(self).cap < final(self).buf@.len() ==> final(self).inner.rest().len() == 0 && final(self).inner.sound(),
            r is Err ==> !old(self).sound(),
        //@loop 0
            invariant_except_break self.cap < self.buf@.len(),
            invariant self.wf(), self.pos == 0, self.steady() == old(self).steady(), self.sound() == old(self).sound(), self.rest() == old(self).rest(), self.buf@.len() == old(self).buf@.len(),
            ensures self.cap < self.buf@.len() ==> self.inner.rest().len() == 0 && self.inner.sound(),
            decreases self.buf@.len() - self.cap,
    //@end
    //@fn src/util/reader.rs | ChopperBufReader | fill_buffer_one_shot
        //@ret r
        //@spec
        requires old(self).wf(), old(self).pos == 0,
        ensures
            r is Ok || old(self).steady() ==> final(self).wf() && final(self).rest() == old(self).rest(),
            final(self).pos == 0, r is Ok ==> final(self).sound() == old(self).sound(), final(self).buf@.len() == old(self).buf@.len(), final(self).steady() == old(self).steady(),
            r matches Ok(n) ==> final(self).cap == old(self).cap + n && (n == 0 ==> final(self).inner.rest().len() == 0 && final(self).inner.sound()),
            r is Err ==> !old(self).sound() || old(self).cap == old(self).buf@.len(),
        //@start
        broadcast use lemma_then;
        //@end-of-body
        proof {
            let (c, n, more) = (old(self).cap as int, bytes_read as int, old(self).inner.rest());
            assert(self.buf@.subrange(0, c) =~= old(self).buf@.subrange(0, c));
            assert(self.buf@.subrange(c, c + n) =~= self.buf@.skip(c).take(n));
            assert(self.buf@.subrange(c, c + n) =~= more.take(n));
            assert(self.buf@.subrange(0, c + n) =~= self.buf@.subrange(0, c) + self.buf@.subrange(c, c + n));
            assert(more =~= more.take(n) + more.skip(n));
            assert(self.rest() =~= old(self).rest());
        }
    //@end
}
impl<R: Read> Read for ChopperBufReader<R> {
    spec fn inv(&self) -> bool { self.wf() }
    spec fn rest(&self) -> Seq<u8> { then(self.buf@, self.pos as int, self.cap as int, self.inner.rest()) }
    spec fn sound(&self) -> bool { self.inner.sound() }
    spec fn steady(&self) -> bool { self.inner.steady() }
    //@fn src/util/reader.rs | Read for ChopperBufReader | read
        //@ret r
        //@start
        broadcast use lemma_then;
    //@end
}
impl<R: Read> BufRead for ChopperBufReader<R> {
    spec fn avail(&self) -> nat { (self.cap - self.pos) as nat }
    //@fn src/util/reader.rs | BufRead for ChopperBufReader | fill_buf
        //@ret r
        //@start
        broadcast use lemma_then;
    //@end
    //@fn src/util/reader.rs | BufRead for ChopperBufReader | consume
        //@start
        broadcast use lemma_then;
    //@end
}
// lines that follow others
spec fn after(a: Seq<Seq<char>>, o: Option<Seq<Seq<char>>>) -> Option<Seq<Seq<char>>> { if o is Some { Some(a + o->Some_0) } else { None } }
proof fn lemma_line(buf: Seq<u8>, start: int, cap: int, cut: bool)
    requires 0 <= start < cap <= buf.len(),
    ensures ({
        let s = buf.subrange(start, cap); let end = end_of(buf, start, cap);
        let line = no_cr(buf.subrange(start, end));
        let more = if end + 1 < cap { lines_of(buf.subrange(end + 1, cap), cut) } else { Some(Seq::<Seq<char>>::empty()) };
        &&& start <= end <= cap
        &&& lines_of(s, cut) == if end == cap && cut { Some(Seq::<Seq<char>>::empty()) } else if valid_utf8(line) { after(seq![decode_utf8(line)], more) } else { None }
    }),
{
    let s = buf.subrange(start, cap);
    lemma_newline(s);
    let end = start + newline(s);
    assert(s.take(newline(s)) =~= buf.subrange(start, end));
    if end < cap { assert(s.skip(newline(s) + 1) =~= buf.subrange(end + 1, cap)); }
    if end + 1 == cap { assert(buf.subrange(end + 1, cap) =~= seq![]); }
    assert(Seq::<Seq<char>>::empty() =~= seq![]);
}
broadcast proof fn lemma_shown(buf: Seq<u8>, cap: int, more: Seq<u8>)
    requires 0 <= cap <= buf.len(), buf.len() == 8192, cap < 8192 ==> more.len() == 0,
    ensures start_of(#[trigger] then(buf, 0, cap, more)) == buf.subrange(0, cap)
{ assert(start_of(then(buf, 0, cap, more)) =~= buf.subrange(0, cap)); }
spec fn end_of(buf: Seq<u8>, start: int, cap: int) -> int { start + newline(buf.subrange(start, cap)) }
impl<R: Read> ChopperBufPreviewer<R> {
    //@fn src/util/reader.rs | ChopperBufPreviewer | make_string_no_cr
        //@ret r
        //@spec
        ensures r is Ok <==> valid_utf8(no_cr(slice@)), r matches Ok(s) ==> s@ == decode_utf8(no_cr(slice@)),
        //@start
        broadcast use empty_text;
        assert(slice@.len() == 0 ==> no_cr(slice@) =~= seq![]);
        assert(slice@.len() > 0 ==> slice@.drop_last() =~= slice@.subrange(0, slice@.len() - 1));
        assert(slice@ =~= slice@.subrange(0, slice@.len() as int));
    //@end
    //@fn src/util/reader.rs | ChopperBufPreviewer | get_line
        //@ret r
        //@closure 0 «c: u8» «-> (o: bool) ensures o == (c == 10u8)»
        //@spec
        requires start < cap <= buf@.len(),
        ensures ({
            let end = end_of(buf@, start as int, cap as int);
            let line = no_cr(buf@.subrange(start as int, end));
            &&& r is None <==> end == cap && cap == buf@.len()
            &&& r is Some ==> (r->Some_0 is Ok <==> valid_utf8(line))
            &&& r is Some && r->Some_0 is Ok ==> r->Some_0->Ok_0.0@ == decode_utf8(line) && r->Some_0->Ok_0.1 == end + 1
        }),
        //@start
        proof { lemma_newline(buf@.subrange(start as int, cap as int)); }
    //@end
    //@fn src/util/reader.rs | ChopperBufPreviewer | add_next_line_to_lines
        //@ret r
        //@spec
        requires reader.wf(), next_line_start < reader.cap,
        ensures ({
            let cut = reader.cap == reader.buf@.len();
            let o = lines_of(reader.buf@.subrange(next_line_start as int, reader.cap as int), cut);
            &&& r is Err ==> o is None
            &&& r matches Ok(None) ==> o == Some(Seq::<Seq<char>>::empty()) && final(lines)@ == old(lines)@
            &&& r matches Ok(Some(n)) ==> final(lines)@.len() == old(lines)@.len() + 1 && final(lines)@.drop_last() == old(lines)@ && next_line_start < n <= reader.cap + 1
                && o == after(seq![final(lines)@.last()@], if n < reader.cap { lines_of(reader.buf@.subrange(n as int, reader.cap as int), cut) } else { Some(Seq::<Seq<char>>::empty()) })
        }),
        //@start
        proof { lemma_line(reader.buf@, next_line_start as int, reader.cap as int, reader.cap == reader.buf@.len()); }
        broadcast use lemma_pushed;
    //@end
    //@fn src/util/reader.rs | ChopperBufPreviewer | get_lines_from_reader
        //@ret r
        //@spec
        requires reader.wf(),
        ensures ({
            let o = lines_of(reader.buf@.subrange(0, reader.cap as int), reader.cap == reader.buf@.len());
            &&& r is Err ==> o is None
            &&& r matches Ok(l) ==> o == Some(texts(l@))
        }),
        //@loop 0
            invariant_except_break
                reader.wf(), next_line_start <= reader.cap + 1,
                lines_of(reader.buf@.subrange(0, reader.cap as int), reader.cap == reader.buf@.len()) == after(texts(lines@), lines_from(reader, next_line_start as int)),
            ensures
                lines_of(reader.buf@.subrange(0, reader.cap as int), reader.cap == reader.buf@.len()) == Some(texts(lines@)),
            decreases reader.cap + 1 - next_line_start,
        //@loopstart 0
            broadcast use lemma_texts_push, lemma_after;
            let ghost before = lines@;
    //@end
    //@fn src/util/reader.rs | ChopperBufPreviewer | prepare_preview
        //@ret r
        //@spec
        requires old(self).reader.wf(), old(self).reader.pos == 0,
        ensures r is Ok, final(self).reader == old(self).reader, final(self).trimmed_buf == old(self).trimmed_buf,
            shows_lines(final(self).lines, lines_of(old(self).reader.buf@.subrange(0, old(self).reader.cap as int), old(self).reader.cap == old(self).reader.buf@.len())),
    //@end
    //@fn src/util/reader.rs | ChopperBufPreviewer | new
        //@ret r
        //@spec
        requires inner.inv(),
        ensures
            r is Err ==> !inner.sound(),
            // the preview shows the first bytes and the lines in them, and takes nothing away from what is read afterwards
            r matches Ok(p) ==> p.reader.wf() && p.reader.steady() == inner.steady() && p.reader.rest() == inner.rest() && p.reader.sound() == inner.sound() && p.trimmed_buf@ == start_of(inner.rest())
                && shows_lines(p.lines, lines_of(start_of(inner.rest()), inner.rest().len() >= 8192)),
        //@start
        broadcast use lemma_shown;
    //@end
    //@fn src/util/reader.rs | ChopperBufPreviewer | get_lines
        //@ret r
        //@spec
        ensures *r == self.lines,
    //@end
    //@fn src/util/reader.rs | ChopperBufPreviewer | get_buf
        //@ret r
        //@spec
        ensures *r == self.trimmed_buf,
    //@end
    //@fn src/util/reader.rs | ChopperBufPreviewer | get_reader
        //@ret r
        //@spec
        ensures r == self.reader,
    //@end
}
spec fn lines_from<R: Read>(reader: &ChopperBufReader<R>, n: int) -> Option<Seq<Seq<char>>> {
    if n < reader.cap { lines_of(reader.buf@.subrange(n, reader.cap as int), reader.cap == reader.buf@.len()) } else { Some(Seq::<Seq<char>>::empty()) }
}
// the first 8192 bytes, or all there are
spec fn start_of(s: Seq<u8>) -> Seq<u8> { if s.len() < 8192 { s } else { s.take(8192) } }
spec fn shows_lines(lines: Option<Vec<String>>, o: Option<Seq<Seq<char>>>) -> bool {
    match lines { Some(l) => o == Some(texts(l@)), None => o is None }
}
broadcast proof fn lemma_pushed(a: Seq<String>, x: String) ensures (#[trigger] a.push(x)).drop_last() == a { assert(a.push(x).drop_last() =~= a); }
broadcast proof fn lemma_texts_push(a: Seq<String>, b: Seq<String>)
    requires b.len() > 0, b.drop_last() == a,
    ensures #![trigger texts(a), texts(b)] texts(b) == texts(a).push(b.last()@)
{ assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(b.drop_last()[i] == b[i]); } assert(texts(b) =~= texts(a).push(b.last()@)); }
broadcast proof fn lemma_after(a: Seq<Seq<char>>, x: Seq<char>, o: Option<Seq<Seq<char>>>)
    ensures #[trigger] after(a, after(seq![x], o)) == after(a.push(x), o)
{ if o is Some { assert(a + (seq![x] + o->Some_0) =~= a.push(x) + o->Some_0); } }
broadcast proof fn empty_text(s: Seq<u8>) requires s.len() == 0 ensures #[trigger] valid_utf8(s), decode_utf8(s) == Seq::<char>::empty() { assert(s =~= seq![]); reveal_with_fuel(valid_utf8, 2); reveal_with_fuel(decode_utf8, 2); }
fn min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
