//@include inc/base.inc
//@include inc/iter.inc
//@include inc/text.inc
//@include inc/reader_fns.inc contracts reader
//@include inc/decompress_fns.inc
fn main() {}
} // verus!
