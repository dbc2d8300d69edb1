//@include inc/base.inc
//@include inc/io.inc
//@include inc/types.inc
//@include inc/csv_config.inc
// ---- Display and write! on BufWriter, as contracts (assumed)
spec fn dec(n: int) -> Seq<char> { if n < 0 { seq!['-'] + digits((-n) as nat) } else { digits(n as nat) } }
trait Show { spec fn shown(&self) -> Seq<char>; }
impl Show for String { spec fn shown(&self) -> Seq<char> { self@ } }
impl Show for str { spec fn shown(&self) -> Seq<char> { self@ } }
impl<T: Show + ?Sized> Show for &T { spec fn shown(&self) -> Seq<char> { (**self).shown() } }
macro_rules! show_int { ($($t:ident)*) => { verus! { $( impl Show for $t { spec fn shown(&self) -> Seq<char> { dec(*self as int) } } )* } } }
show_int!(i8 u8 i16 u16 i32 u32 i64 u64 usize isize);
#[verifier::external_body]
fn to_text<T: Show + ?Sized>(t: &T) -> (r: String) ensures r@ == t.shown() { unimplemented!() }
#[verifier::external_body]
fn concat(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
impl<W> BufWriter<W> {
    #[verifier::external_body]
    fn put<T: Show>(&mut self, t: &T) -> (r: io::Result<()>) ensures wrote(*old(self), *final(self), r, encode_utf8(t.shown())) { unimplemented!() }
    #[verifier::external_body]
    fn put2<T: Show, U: Show>(&mut self, t: &T, u: &U) -> (r: io::Result<()>) ensures wrote(*old(self), *final(self), r, encode_utf8(t.shown()) + encode_utf8(u.shown())) { unimplemented!() }
    #[verifier::external_body]
    fn put_newline(&mut self) -> (r: io::Result<()>) ensures wrote(*old(self), *final(self), r, seq![10u8]) { unimplemented!() }
}
macro_rules! write {
    ($w:expr, "{}", $x:expr) => { ($w).put(&$x) };
    ($w:expr, "{}{}", $x:expr, $y:expr) => { ($w).put2(&$x, &$y) };
    ($w:expr, "\n") => { ($w).put_newline() };
}
// numbers (assumed): the text of dtoa reads back as the same number if that is finite; Display gives inf, -inf and NaN for the others
spec fn finite32(bits: u32) -> bool { bits / 0x80_0000 % 0x100 != 0xff }
spec fn finite64(bits: u64) -> bool { bits / 0x10_0000_0000_0000 % 0x800 != 0x7ff }
uninterp spec fn f32dtoa(bits: u32) -> Seq<u8>;
uninterp spec fn f64dtoa(bits: u64) -> Seq<u8>;
uninterp spec fn f32shown(bits: u32) -> Seq<char>;
uninterp spec fn f64shown(bits: u64) -> Seq<char>;
spec fn f32text(bits: u32) -> Seq<u8> { if finite32(bits) { f32dtoa(bits) } else { encode_utf8(f32shown(bits)) } }
spec fn f64text(bits: u64) -> Seq<u8> { if finite64(bits) { f64dtoa(bits) } else { encode_utf8(f64shown(bits)) } }
impl Show for f32 { spec fn shown(&self) -> Seq<char> { f32shown(f32bits(*self)) } }
impl Show for f64 { spec fn shown(&self) -> Seq<char> { f64shown(f64bits(*self)) } }
pub closed spec fn is_nan32(x: f32) -> bool { !finite32(f32bits(x)) && f32bits(x) % 0x80_0000 != 0 }
pub closed spec fn is_infinite32(x: f32) -> bool { !finite32(f32bits(x)) && f32bits(x) % 0x80_0000 == 0 }
pub assume_specification[ f32::is_nan ](x: f32) -> (r: bool) ensures r == is_nan32(x);
pub assume_specification[ f32::is_infinite ](x: f32) -> (r: bool) ensures r == is_infinite32(x);
pub closed spec fn is_finite32(x: f32) -> bool { finite32(f32bits(x)) }
pub assume_specification[ f32::is_finite ](x: f32) -> (r: bool) ensures r == is_finite32(x);
pub closed spec fn is_nan64(x: f64) -> bool { !finite64(f64bits(x)) && f64bits(x) % 0x10_0000_0000_0000 != 0 }
pub closed spec fn is_infinite64(x: f64) -> bool { !finite64(f64bits(x)) && f64bits(x) % 0x10_0000_0000_0000 == 0 }
pub assume_specification[ f64::is_nan ](x: f64) -> (r: bool) ensures r == is_nan64(x);
pub assume_specification[ f64::is_infinite ](x: f64) -> (r: bool) ensures r == is_infinite64(x);
pub closed spec fn is_finite64(x: f64) -> bool { finite64(f64bits(x)) }
pub assume_specification[ f64::is_finite ](x: f64) -> (r: bool) ensures r == is_finite64(x);
trait Float { spec fn finite(&self) -> bool; spec fn dtoa(&self) -> Seq<u8>; }
impl Float for f32 { spec fn finite(&self) -> bool { finite32(f32bits(*self)) } spec fn dtoa(&self) -> Seq<u8> { f32dtoa(f32bits(*self)) } }
impl Float for f64 { spec fn finite(&self) -> bool { finite64(f64bits(*self)) } spec fn dtoa(&self) -> Seq<u8> { f64dtoa(f64bits(*self)) } }
mod dtoa {
    use super::*;
    #[verifier::external_body]
    pub(crate) fn write<W, F: Float>(w: &mut BufWriter<W>, f: F) -> (r: io::Result<usize>)
        requires f.finite(),
        ensures final(w).sound() == old(w).sound(), r is Ok ==> final(w).out() == old(w).out() + f.dtoa(), r is Err ==> !old(w).sound() { unimplemented!() }
}
uninterp spec fn date_text(tz: Tz, secs: int, nanos: int, format: Seq<char>) -> Seq<char>;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct DateTime<T> { t: T }
#[verifier::external_body]
struct DelayedFormat { }
impl DelayedFormat { uninterp spec fn text(&self) -> Seq<char>; }
impl Show for DelayedFormat { spec fn shown(&self) -> Seq<char> { self.text() } }
impl DateTime<Tz> {
    uninterp spec fn tz(&self) -> Tz;
    uninterp spec fn secs(&self) -> int;
    uninterp spec fn nanos(&self) -> int;
    #[verifier::external_body]
    fn format(&self, f: &str) -> (r: DelayedFormat) ensures r.text() == date_text(self.tz(), self.secs(), self.nanos(), f@) { unimplemented!() }
}
impl Tz {
    #[verifier::external_body]
    fn timestamp(&self, secs: i64, nsecs: u32) -> (r: DateTime<Tz>) requires 0 <= secs <= 0x7_ffff_ffff, nsecs < 1_000_000_000 ensures r.tz() == *self, r.secs() == secs, r.nanos() == nsecs { unimplemented!() }
}
// crate::error::Error::Custom, imported by tz.rs
#[verifier::external_body]
fn Custom(t: String) -> Error { unimplemented!() }
impl ChopperTz {
    //@fn src/util/tz.rs | ChopperTz | timestamp
        //@ret r
        //@spec
        ensures
            r is Ok <==> self.timezone is Some,
            r matches Ok(t) ==> t.tz() == self.timezone->Some_0 && t.secs() == nanoseconds / 1_000_000_000 && t.nanos() == nanoseconds % 1_000_000_000,
    //@end
}
//@rwall «$x.to_string()» => «to_text(&$x)» (std conversion as a function with a contract)
//@include inc/csv_out.inc
// ---- the text of a line
spec fn joined_cells(cells: Seq<Seq<u8>>, delimiter: Seq<u8>) -> Seq<u8> decreases cells.len() {
    if cells.len() == 0 { seq![] } else if cells.len() == 1 { cells[0] } else { joined_cells(cells.drop_last(), delimiter) + delimiter + cells.last() }
}
broadcast proof fn one_more(cells: Seq<Seq<u8>>, c: Seq<u8>, d: Seq<u8>)
    ensures #[trigger] joined_cells(cells.push(c), d) == if cells.len() == 0 { c } else { joined_cells(cells, d) + d + c }
{ assert(cells.push(c).drop_last() =~= cells); }
spec fn unit(u: TimestampUnits) -> nat { match u { TimestampUnits::Seconds => 1_000_000_000, TimestampUnits::Millis => 1_000_000, TimestampUnits::Micros => 1_000, TimestampUnits::Nanos => 1 } }
spec fn iso(u: TimestampUnits) -> Seq<char> {
    match u {
        TimestampUnits::Seconds => "%Y-%m-%dT%H:%M:%S%:z"@,
        TimestampUnits::Millis => "%Y-%m-%dT%H:%M:%S%.3f%:z"@,
        TimestampUnits::Micros => "%Y-%m-%dT%H:%M:%S%.6f%:z"@,
        TimestampUnits::Nanos => "%Y-%m-%dT%H:%M:%S%.9f%:z"@,
    }
}
spec fn time_cell(c: CSVOutputConfig, t: u64) -> Option<Seq<char>> {
    match c.time_col_style {
        TimestampStyle::Epoch => Some(dec(t as int / unit(c.time_col_units) as int)),
        TimestampStyle::HumanReadable => match c.timezone.timezone { None => None, Some(z) => Some(date_text(z, t as int / 1_000_000_000, t as int % 1_000_000_000, iso(c.time_col_units))) },
    }
}
spec fn cell(v: FieldValue) -> Option<Seq<u8>> {
    match v {
        FieldValue::Boolean(_) => None,
        FieldValue::ByteBuf(_) => None,
        FieldValue::Byte(x) => Some(encode_utf8(dec(x as int))),
        FieldValue::Char(x) => Some(encode_utf8(dec(x as int))),
        FieldValue::Double(x) => Some(f64text(f64bits(x))),
        FieldValue::Float(x) => Some(f32text(f32bits(x))),
        FieldValue::Int(x) => Some(encode_utf8(dec(x as int))),
        FieldValue::Long(x) => Some(encode_utf8(dec(x as int))),
        FieldValue::Short(x) => Some(encode_utf8(dec(x as int))),
        FieldValue::String(x) => Some(encode_utf8(x@)),
        FieldValue::None => Some(seq![]),
    }
}
spec fn value_cells(v: Seq<FieldValue>) -> Option<Seq<Seq<u8>>> decreases v.len() {
    if v.len() == 0 { Some(seq![]) }
    else { match (value_cells(v.drop_last()), cell(v.last())) { (Some(a), Some(c)) => Some(a.push(c)), _ => None } }
}
spec fn row_cells(c: CSVOutputConfig, t: u64, v: Seq<FieldValue>) -> Option<Seq<Seq<u8>>> {
    match value_cells(v) {
        None => None,
        Some(a) => if !c.print_time_col { Some(a) } else { match time_cell(c, t) { None => None, Some(x) => Some(seq![encode_utf8(x)] + a) } },
    }
}
spec fn name_cells(c: CSVOutputConfig, names: Seq<String>) -> Seq<Seq<u8>> {
    (if c.print_time_col { seq![encode_utf8(c.time_col_name@)] } else { seq![] }) + Seq::new(names.len(), |i: int| encode_utf8(names[i]@))
}
spec fn line(c: CSVOutputConfig, cells: Seq<Seq<u8>>) -> Seq<u8> { joined_cells(cells, encode_utf8(c.delimiter@)).push(10u8) }
proof fn lemma_no_names(c: CSVOutputConfig, names: Seq<String>)
    ensures name_cells(c, names.take(0)) == if c.print_time_col { seq![encode_utf8(c.time_col_name@)] } else { seq![] }
{ assert(name_cells(c, names.take(0)) =~= if c.print_time_col { seq![encode_utf8(c.time_col_name@)] } else { seq![] }); }
proof fn lemma_next_name(c: CSVOutputConfig, names: Seq<String>, k: int)
    requires 0 <= k < names.len(),
    ensures name_cells(c, names.take(k + 1)) == name_cells(c, names.take(k)).push(encode_utf8(names[k]@))
{ assert(name_cells(c, names.take(k + 1)) =~= name_cells(c, names.take(k)).push(encode_utf8(names[k]@))); }
proof fn lemma_no_values(c: CSVOutputConfig, t: u64, v: Seq<FieldValue>)
    ensures
        !c.print_time_col ==> row_cells(c, t, v.take(0)) == Some(Seq::<Seq<u8>>::empty()),
        c.print_time_col && time_cell(c, t) is Some ==> row_cells(c, t, v.take(0)) == Some(seq![encode_utf8(time_cell(c, t)->Some_0)]),
        c.print_time_col && time_cell(c, t) is None ==> row_cells(c, t, v) is None,
{
    assert(value_cells(v.take(0)) == Some(Seq::<Seq<u8>>::empty()));
    if c.print_time_col && time_cell(c, t) is Some { assert(row_cells(c, t, v.take(0))->Some_0 =~= seq![encode_utf8(time_cell(c, t)->Some_0)]); }
}
proof fn lemma_none(v: Seq<FieldValue>, k: int)
    requires 0 <= k < v.len(), cell(v[k]) is None,
    ensures value_cells(v) is None
    decreases v.len()
{ if k < v.len() - 1 { lemma_none(v.drop_last(), k); } }
proof fn lemma_next_value(c: CSVOutputConfig, t: u64, v: Seq<FieldValue>, k: int)
    requires 0 <= k < v.len(), row_cells(c, t, v.take(k)) is Some,
    ensures
        cell(v[k]) is None ==> row_cells(c, t, v) is None,
        cell(v[k]) matches Some(x) ==> row_cells(c, t, v.take(k + 1)) == Some(row_cells(c, t, v.take(k))->Some_0.push(x)),
{
    assert(v.take(k + 1).drop_last() =~= v.take(k));
    if cell(v[k]) is None { lemma_none(v, k); }
    else { assert(row_cells(c, t, v.take(k + 1))->Some_0 =~= row_cells(c, t, v.take(k))->Some_0.push(cell(v[k])->Some_0)); }
}
//@item src/write/csv_sink.rs | struct | CSVSink
spec fn same_sink(a: CSVSink, b: CSVSink) -> bool { a.csv_output_config == b.csv_output_config && a.writer.sound() == b.writer.sound() }
impl CSVSink {
    //@fn src/write/csv_sink.rs | CSVSink | write_csv_header
        //@ret r
        //@spec
        ensures
            *final(header) == *old(header), same_sink(*old(self), *final(self)),
            r is Ok ==> final(self).writer.out() == old(self).writer.out() + line(old(self).csv_output_config, name_cells(old(self).csv_output_config, old(header).field_names@)),
            r is Err ==> !old(self).writer.sound(),
        //@attr #[verifier::loop_isolation(false)]
        //@start
        broadcast use one_more;
        let ghost all = header.field_names@;
        let ghost cfg = self.csv_output_config;
        proof { lemma_no_names(cfg, all); }
        //@iter 0 it
        //@loop 0
            invariant
                it.seq() == all, cfg == old(self).csv_output_config, writer.sound() == old(self).writer.sound(), encode_utf8(delimiter@) == encode_utf8(cfg.delimiter@),
                writer.out() == old(self).writer.out() + joined_cells(name_cells(cfg, all.take(it.index@)), encode_utf8(cfg.delimiter@)),
                first == (name_cells(cfg, all.take(it.index@)).len() == 0),
        //@loopstart 0
            proof { lemma_next_name(cfg, all, it.index@); }
        //@afterloop 0
        proof { assert(all.take(all.len() as int) =~= all); }
    //@end
    //@fn src/write/csv_sink.rs | HeaderSink for CSVSink | process_header
        //@ret r
        //@sig «Box<dyn DataSink>» => «Box<CSVSink>» coercion to the trait object dropped
        //@rw «self_.boxed()» => «self_» coercion to the trait object dropped
        //@spec
        ensures
            *final(header) == *old(header),
            r matches Ok(s) ==> same_sink(*self, *s) && s.writer.out() == self.writer.out() + line(self.csv_output_config, name_cells(self.csv_output_config, old(header).field_names@)),
            r is Err ==> !self.writer.sound(),
    //@end
    //@fn src/write/csv_sink.rs | DataSink for CSVSink | write_row
        //@ret r
        //@spec
        requires old(io_rows)@.len() > 0,
        ensures ({
            let row = old(io_rows)@[0]; let cells = row_cells(old(self).csv_output_config, row.timestamp, row.field_values@);
            &&& *final(io_rows) == *old(io_rows) && same_sink(*old(self), *final(self))
            &&& r is Ok ==> cells is Some && final(self).writer.out() == old(self).writer.out() + line(old(self).csv_output_config, cells->Some_0)
            &&& r is Err ==> !old(self).writer.sound() || cells is None
        }),
        //@attr #[verifier::loop_isolation(false)]
        //@start
        broadcast use one_more;
        let ghost all = io_rows@[0].field_values@;
        let ghost cfg = self.csv_output_config;
        let ghost t = io_rows@[0].timestamp;
        proof { lemma_no_values(cfg, t, all); }
        //@iter 0 it
        //@loop 0
            invariant
                field_values@ == all, same_sink(*old(self), *self), *io_rows == *old(io_rows), encode_utf8(delimiter@) == encode_utf8(cfg.delimiter@),
                row_cells(cfg, t, all.take(it.index@)) is Some,
                self.writer.out() == old(self).writer.out() + joined_cells(row_cells(cfg, t, all.take(it.index@))->Some_0, encode_utf8(cfg.delimiter@)),
                first_col == (row_cells(cfg, t, all.take(it.index@))->Some_0.len() == 0),
        //@loopstart 0
            proof { lemma_next_value(cfg, t, all, it.index@); }
        //@afterloop 0
        proof { assert(all.take(all.len() as int) =~= all); }
    //@end
    //@fn src/write/csv_sink.rs | DataSink for CSVSink | flush
        //@ret r
        //@spec
        ensures same_sink(*old(self), *final(self)), r is Ok ==> final(self).writer.out() == old(self).writer.out() && final(self).writer.flushed(), r is Err ==> !old(self).writer.sound(),
    //@end
}
fn main() {}
} // verus!
