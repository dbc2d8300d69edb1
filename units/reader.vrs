//@include inc/base.inc
//@include inc/iter.inc
//@include inc/reader_fns.inc
fn main() {}
} // verus!
