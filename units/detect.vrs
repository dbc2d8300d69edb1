//@include inc/base.inc
//@include inc/io.inc
//@include inc/types.inc
//@include inc/iter.inc
//@include inc/csv_config.inc
//@include inc/times.inc
mod csv { pub(crate) use super::StringRecord; }
//@include inc/detect.inc
//@include inc/detect_fns.inc
}
fn main() {}
