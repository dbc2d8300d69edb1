//@include inc/base.inc
//@include inc/io.inc
// ---- std::fs::File as a contract on the file's bytes (assumed; the files do not change while they are read)
#[verifier::external_body]
struct Path { }
trait AsRef<T> { }
uninterp spec fn content<P>(p: P) -> Seq<u8>;       // the bytes of the file at that path
uninterp spec fn readable<P>(p: P) -> bool;         // it can be opened and read to its end
uninterp spec fn opens<P>(p: P) -> bool;            // it can be opened
use io::ErrorKind;
#[verifier::external_body]
struct File { }
impl File {
    uninterp spec fn rest(&self) -> Seq<u8>;
    uninterp spec fn sound(&self) -> bool;
    #[verifier::external_body]
    fn open<P>(p: P) -> (r: io::Result<File>)
        ensures r is Ok <==> opens(p), readable(p) ==> opens(p), r matches Ok(f) ==> f.rest() == content(p) && f.sound() == readable(p)
    { unimplemented!() }
    #[verifier::external_body]
    fn read<B: View<V = Seq<u8>>>(&mut self, b: &mut B) -> (r: io::Result<usize>)
        ensures
            final(self).sound() == old(self).sound(), final(b)@.len() == old(b)@.len(), r is Err ==> !old(self).sound(),
            r matches Ok(n) ==> n <= old(b)@.len() && n <= old(self).rest().len() && (n == 0 ==> old(b)@.len() == 0 || old(self).rest().len() == 0)
                && final(b)@.take(n as int) == old(self).rest().take(n as int) && final(b)@.skip(n as int) == old(b)@.skip(n as int)
                && final(self).rest() == old(self).rest().skip(n as int),
    { unimplemented!() }
    // read_exact into b[x..y]
    #[verifier::external_body]
    fn read_exact_range(&mut self, b: &mut Vec<u8>, x: usize, y: usize) -> (r: io::Result<()>)
        requires x <= y <= old(b)@.len(),
        ensures
            final(self).sound() == old(self).sound(), final(b)@.len() == old(b)@.len(),
            r is Ok ==> old(self).rest().len() >= y - x && final(self).rest() == old(self).rest().skip(y - x)
                && final(b)@.subrange(x as int, y as int) == old(self).rest().take(y - x)
                && final(b)@ == old(b)@.take(x as int) + old(self).rest().take(y - x) + old(b)@.skip(y as int),
            r matches Err(e) ==> (if io::kind_of(e) == ErrorKind::UnexpectedEof { old(self).rest().len() < y - x } else { !old(self).sound() }),
    { unimplemented!() }
}
#[verifier::external_body]
fn range_ne(a: &Vec<u8>, x: usize, y: usize, b: &Vec<u8>, z: usize, w: usize) -> (r: bool)
    requires x <= y <= a@.len(), z <= w <= b@.len(),
    ensures r <==> a@.subrange(x as int, y as int) != b@.subrange(z as int, w as int)
{ unimplemented!() }
//@item src/util/file.rs | const | DEFAULT_BUF_SIZE

proof fn lemma_split(a: Seq<u8>, b: Seq<u8>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(),
    ensures (a == b) <==> (a.take(n) == b.take(n) && a.skip(n) == b.skip(n)),
{
    if a.take(n) == b.take(n) && a.skip(n) == b.skip(n) {
        assert(a =~= a.take(n) + a.skip(n)); assert(b =~= b.take(n) + b.skip(n));
    }
}
//@fn src/util/file.rs | - | are_contents_same
    //@ret r
    //@attr #[verifier::loop_isolation(false)]
    //@rw «$f.read_exact(&mut $b[$x..$y])» => «$f.read_exact_range(&mut $b, $x, $y)» (std read into a slice range as a function with a contract)
    //@rw «$a[$x..$y] != $b[$z..$w]» => «range_ne(&$a, $x, $y, &$b, $z, $w)» (std slice comparison as a function with a contract)
    //@spec
    ensures
        r matches Ok(b) ==> b == (content(path1) == content(path2)),
        r is Ok ==> opens(path1) && opens(path2),
        r is Err ==> !(readable(path1) && readable(path2)),
    //@loop 0
        invariant
            buf1@.len() == DEFAULT_BUF_SIZE, buf2@.len() == DEFAULT_BUF_SIZE, opens(path1), opens(path2),
            file1.sound() == readable(path1), file2.sound() == readable(path2),
            (file1.rest() == file2.rest()) == (content(path1) == content(path2)),
        decreases file1.rest().len(),
    //@loopstart 0
        let ghost f1 = file1.rest();
        let ghost f2 = file2.rest();
        proof {
            assert forall|n: int| 0 <= n <= f1.len() && n <= f2.len() implies (f1 == f2) <==> (f1.take(n) == f2.take(n) && #[trigger] f1.skip(n) == f2.skip(n)) by { lemma_split(f1, f2, n); }
            if f1.len() == 0 && f2.len() == 0 { assert(f1 =~= f2); }
        }
//@end
fn main() {}
} // verus!
