//@include inc/base.inc
//@include inc/io_min.inc
//@include inc/types.inc
//@include inc/iter.inc
//@include inc/text.inc
//@include inc/csv_util_fns.inc
fn main() {}
} // verus!
