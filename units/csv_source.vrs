//@include inc/base.inc
//@include inc/iter.inc
//@include inc/types.inc
//@include inc/text.inc
//@include inc/reader_fns.inc contracts reader
//@include inc/csv_util_fns.inc contracts csv_util
//@include inc/csv_config.inc
//@include inc/times.inc contracts times
//@include inc/detect.inc
//@include inc/detect_fns.inc contracts detect
mod csv { pub(crate) use super::{StringRecord, Reader, ReaderBuilder, CsvError as Error}; }
mod csv_util { pub(crate) use super::{guess_delimiter, guess_has_header}; }
mod csv_timestamp { pub(crate) use super::{get_timestamp, get_timestamp_col_and_fmt}; }
impl Read for Box<dyn Read> {
    uninterp spec fn inv(&self) -> bool;
    uninterp spec fn rest(&self) -> Seq<u8>;
    uninterp spec fn sound(&self) -> bool;
    uninterp spec fn steady(&self) -> bool;
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>) { unimplemented!() }
}
enum YesNoAuto { Yes, No, Auto }
impl Copy for YesNoAuto {}
impl Clone for YesNoAuto {
    #[verifier::external_body]
    fn clone(&self) -> (r: YesNoAuto) ensures r == *self { unimplemented!() }
}
//@const src/source/csv_source.rs | DELIMITERS | ensures DELIMITERS@ == seq![44u8, 9u8, 32u8]
//@item src/source/csv_configs.rs | struct | TimestampConfig
//@item src/source/csv_configs.rs | struct | CSVInputConfig
impl TimestampConfig {
    //@fn src/source/csv_configs.rs | TimestampConfig | timestamp_col
        //@ret r
        //@spec
        ensures *r == self.timestamp_col,
    //@end
    //@fn src/source/csv_configs.rs | TimestampConfig | timestamp_fmt
        //@ret r
        //@spec
        ensures *r == self.timestamp_fmt,
    //@end
    //@fn src/source/csv_configs.rs | TimestampConfig | timezone
        //@ret r
        //@spec
        ensures *r == self.timezone,
    //@end
}
impl CSVInputConfig {
    //@fn src/source/csv_configs.rs | CSVInputConfig | has_header
        //@ret r
        //@spec
        ensures r == self.has_header,
    //@end
    //@fn src/source/csv_configs.rs | CSVInputConfig | delimiter
        //@ret r
        //@spec
        ensures r == self.delimiter,
    //@end
    //@fn src/source/csv_configs.rs | CSVInputConfig | timestamp_config
        //@ret r
        //@spec
        ensures *r == self.timestamp_config,
    //@end
}
// ---- the csv crate (assumed): the records of a text, each a sequence of cells, or none where it is not text
ghost struct Form { delimiter: u8, trim: bool, flexible: bool }
type Record = Option<Seq<Seq<char>>>;
uninterp spec fn records_of(text: Seq<u8>, form: Form) -> Seq<Record>;
enum Trim { None, Headers, Fields, All }
#[verifier::external_body]
struct ReaderBuilder { }
impl ReaderBuilder {
    uninterp spec fn form(&self) -> Form;
    uninterp spec fn headers(&self) -> bool;
    #[verifier::external_body]
    fn new() -> (r: ReaderBuilder) ensures r.form() == (Form { delimiter: 44, trim: false, flexible: false }), r.headers() { unimplemented!() }
    #[verifier::external_body]
    fn delimiter(self, d: u8) -> (r: ReaderBuilder) ensures r.headers() == self.headers(), r.form() == (Form { delimiter: d, ..self.form() }) { unimplemented!() }
    #[verifier::external_body]
    fn has_headers(self, h: bool) -> (r: ReaderBuilder) ensures r.headers() == h, r.form() == self.form() { unimplemented!() }
    #[verifier::external_body]
    fn trim(self, t: Trim) -> (r: ReaderBuilder) ensures r.headers() == self.headers(), t is All ==> r.form() == (Form { trim: true, ..self.form() }), t is None ==> r.form() == (Form { trim: false, ..self.form() }) { unimplemented!() }
    #[verifier::external_body]
    fn flexible(self, f: bool) -> (r: ReaderBuilder) ensures r.headers() == self.headers(), r.form() == (Form { flexible: f, ..self.form() }) { unimplemented!() }
    #[verifier::external_body]
    fn from_reader<R: Read>(self, reader: R) -> (r: Reader<R>)
        requires reader.inv()
        ensures
            r.named() == self.headers(), r.sound() == reader.sound(),
            r.todo() == (if self.headers() && records_of(reader.rest(), self.form()).len() > 0 { records_of(reader.rest(), self.form()).skip(1) } else { records_of(reader.rest(), self.form()) }),
            r.first() == (if records_of(reader.rest(), self.form()).len() > 0 { records_of(reader.rest(), self.form())[0] } else { Some(seq![]) }),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
struct Reader<R> { r: R }
impl<R> Reader<R> {
    uninterp spec fn named(&self) -> bool;              // the first record is a header
    uninterp spec fn sound(&self) -> bool;              // its input does not fail
    uninterp spec fn first(&self) -> Record;
    uninterp spec fn todo(&self) -> Seq<Record>;        // the records still to come
    #[verifier::external_body]
    fn next_record(&mut self) -> (r: Option<Result<csv::StringRecord, CsvError>>)
        ensures
            final(self).sound() == old(self).sound(), final(self).named() == old(self).named(), final(self).first() == old(self).first(),
            r is None ==> old(self).todo().len() == 0 && old(self).sound() && final(self).todo() == old(self).todo(),
            r matches Some(Ok(c)) ==> old(self).todo().len() > 0 && old(self).todo()[0] == Some(c.cells()) && final(self).todo() == old(self).todo().skip(1),
            r matches Some(Err(e)) ==> !old(self).sound() || old(self).named() && old(self).first() is None || old(self).todo().len() > 0 && old(self).todo()[0] is None,
    { unimplemented!() }
    #[verifier::external_body]
    fn has_headers(&self) -> (r: bool) ensures r == self.named() { unimplemented!() }
    #[verifier::external_body]
    fn headers(&mut self) -> (r: Result<&csv::StringRecord, CsvError>)
        ensures
            final(self).sound() == old(self).sound(), final(self).named() == old(self).named(), final(self).first() == old(self).first(), final(self).todo() == old(self).todo(),
            r matches Ok(c) ==> old(self).first() == Some(c.cells()), r is Err ==> !old(self).sound() || old(self).first() is None
    { unimplemented!() }
}
#[verifier::external_body]
fn record_texts(r: &csv::StringRecord) -> (v: Vec<String>) ensures texts(v@) == r.cells() { unimplemented!() }
#[verifier::external_body]
fn repeated<T>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]) == x { unimplemented!() }
impl Clone for ChopperTz {
    #[verifier::external_body]
    fn clone(&self) -> (r: ChopperTz) ensures r == *self { unimplemented!() }
}

// ---- what a csv input gives
// the rows of a record: one value per column, none where the record is too short; no row if it is too long or has no time
spec fn row_is(row: Row, cells: Seq<Seq<char>>, n: nat, time: int) -> bool {
    &&& row.timestamp == time
    &&& row.field_values@.len() == n
    &&& forall|i: int| 0 <= i < n ==> if i < cells.len() { (#[trigger] row.field_values@[i]) is String && row.field_values@[i]->String_0@ == cells[i] } else { row.field_values@[i] is None }
}
spec fn good(rec: Record, n: nat, col: TimestampCol, fmt: Fmt, tz: ChopperTz) -> bool { rec is Some && rec->Some_0.len() <= n && time_of(rec->Some_0, col, fmt, tz) is Some }
spec fn column_name(header: Seq<Seq<char>>, i: int) -> Seq<char> { if i < header.len() { header[i] } else { "col_"@ + digits(i as nat) } }
//@item src/source/csv_source.rs | struct | CSVSource
// the row read ahead is given, and the next one is read; an error is a failure of the input, or a bad record
spec fn gave_row(a: CSVSource, b: CSVSource, r: CliResult<Option<Row>>) -> bool {
    let todo = a.reader.todo();
    &&& b.wf() && b.same(a) && b.reader.sound() == a.reader.sound()
    &&& !a.has_next_row ==> r == Ok::<Option<Row>, Error>(None) && !b.has_next_row
    &&& a.has_next_row ==> {
        &&& r matches Ok(o) ==> o == Some(a.next_row)
        &&& r is Ok && todo.len() == 0 ==> !b.has_next_row && a.reader.sound()
        &&& r is Ok && todo.len() > 0 ==> b.has_next_row && a.ok(todo[0]) && a.is_row(b.next_row, todo[0]) && b.reader.todo() == todo.skip(1)
        &&& r is Err ==> !a.reader.sound() || todo.len() > 0 && !a.ok(todo[0])
    }
}
impl CSVSource {
    spec fn n(&self) -> nat { self.header.field_names@.len() }
    spec fn wf(&self) -> bool { self.next_row.field_values@.len() == self.n() && self.header.field_types@.len() == self.n() && (self.reader.named() ==> self.reader.first() is Some) }
    spec fn ok(&self, rec: Record) -> bool { good(rec, self.n(), self.timestamp_col, fmt_view(self.timestamp_fmt), self.timezone) }
    spec fn is_row(&self, row: Row, rec: Record) -> bool { row_is(row, rec->Some_0, self.n(), time_of(rec->Some_0, self.timestamp_col, fmt_view(self.timestamp_fmt), self.timezone)->Some_0) }
    spec fn same(&self, o: CSVSource) -> bool { self.header == o.header && self.timestamp_col == o.timestamp_col && self.timestamp_fmt == o.timestamp_fmt && self.timezone == o.timezone }
    //@fn src/source/csv_source.rs | CSVSource | update_row
        //@ret r
        //@attr #[verifier::loop_isolation(false)]
        //@rw «value.to_string()» => «owned(value)» (std conversion as a function with a contract)
        //@spec
        requires old(self).wf(),
        ensures
            final(self).wf(), final(self).same(*old(self)), final(self).reader == old(self).reader, final(self).has_next_row == old(self).has_next_row,
            r is Ok <==> old(self).ok(Some(next_record.cells())),
            r is Ok ==> old(self).is_row(final(self).next_row, Some(next_record.cells())),
        //@iter 0 it
        //@loop 0
            invariant
                self.same(*old(self)), self.reader == old(self).reader, self.has_next_row == old(self).has_next_row, self.wf(), self.n() == field_count,
                forall|q: int| 0 <= q < it.index@ ==> if q < next_record.cells().len() { (#[trigger] self.next_row.field_values@[q]) is String && self.next_row.field_values@[q]->String_0@ == next_record.cells()[q] } else { self.next_row.field_values@[q] is None },
    //@end
    //@fn src/source/csv_source.rs | CSVSource | next_row
        //@ret r
        //@rw «$r.records().next()» => «$r.next_record()» (the next record of the csv crate's iterator)
        //@spec
        requires old(self).wf(),
        ensures gave_row(*old(self), *final(self), r),
    //@end
    //@fn src/source/csv_source.rs | CSVSource | new
        //@ret r
        //@attr #[verifier::loop_isolation(false)]
        //@rw «lines.get($i)» => «vec_get(lines, $i)» (std method as a function with a contract)
        //@rw «$r.records().next()» => «$r.next_record()» (the next record of the csv crate's iterator)
        //@rw «in header_record» => «in &record_texts(header_record)» (the record's iterator as a sequence)
        //@rw «i.to_string()» => «owned(&i)» (std conversion as a function with a contract)
        //@rw «$o.as_ref().map_or($d, |$r| $e)» => «(match &$o { Some($r) => $e, None => $d })» (std method, expanded)
        //@rw «vec![$x; $n]» => «repeated($x, $n)» (std macro as a function with a contract)
        //@spec
        requires fresh(previewer),
        ensures opened(r, previewer, *csv_config),
        //@start
        broadcast use lemma_text_len, lemma_best_of, lemma_untimed;
        let ghost text = previewer.reader.rest();
        let ghost c = *csv_config;
        let ghost head = header_record(c, text)->Some_0;
        //@iter 0 it
        //@iter 1 jt
        //@loop 0
            invariant it.seq().len() == head.len(), forall|q: int| 0 <= q < head.len() ==> (#[trigger] it.seq()[q])@ == head[q],
                field_names@.len() == it.index@, forall|q: int| 0 <= q < it.index@ ==> (#[trigger] field_names@[q])@ == column_name(head, q),
        //@loop 1
            invariant field_names@.len() == head.len() + jt.index@, jt.seq().len() == if head.len() < first_cells(data_records(c, text)).len() { first_cells(data_records(c, text)).len() - head.len() } else { 0 },
                forall|q: int| 0 <= q < jt.seq().len() ==> (#[trigger] jt.seq()[q]) == head.len() + q,
                forall|q: int| 0 <= q < field_names@.len() ==> (#[trigger] field_names@[q])@ == column_name(head, q),
    //@end
}
// as a source: the same header and rows
trait Source {
    spec fn ready(&self) -> bool;
    //@fn src/chopper/chopper.rs | trait Source | header
        //@nobody
    //@end
    //@fn src/chopper/chopper.rs | trait Source | next_row
        //@nobody
        //@spec
        requires old(self).ready(),
    //@end
}
impl Source for CSVSource {
    spec fn ready(&self) -> bool { self.wf() }
    //@fn src/source/csv_source.rs | Source for CSVSource | header
        //@ret r
        //@spec
        ensures *r == self.header,
    //@end
    //@fn src/source/csv_source.rs | Source for CSVSource | next_row
        //@ret r
        //@spec
        ensures gave_row(*old(self), *final(self), r),
    //@end
}
// a fresh previewer (ChopperBufPreviewer::new)
spec fn fresh(p: ChopperBufPreviewer<Box<dyn Read>>) -> bool { p.reader.wf() && shows_lines(p.lines, first_lines(p.reader.rest())) }
spec fn first_lines(text: Seq<u8>) -> Option<Seq<Seq<char>>> { lines_of(start_of(text), text.len() >= 8192) }
spec fn line(text: Seq<u8>, k: int) -> Option<Seq<char>> { match first_lines(text) { Some(l) => if k < l.len() { Some(l[k]) } else { None }, None => None } }
spec fn candidates() -> Seq<u8> { seq![44u8, 9u8, 32u8] }
spec fn best_of(l: Seq<u8>) -> u8 { choose|d: u8| is_best(l, candidates(), d) }
broadcast proof fn lemma_best_of(l: Seq<u8>, d: u8) ensures #[trigger] is_best(l, candidates(), d) ==> d == best_of(l) {
    if is_best(l, candidates(), d) {
        let c = candidates();
        let k = choose|k: int| best(l, c, k) && d == c[k];
        let m = choose|m: int| best(l, c, m) && best_of(l) == c[m];
        assert(is_best(l, c, best_of(l)));
        assert(best(l, c, k) && best(l, c, m));
        if k < m { assert(count(l, c[k]) < count(l, c[m])); assert(count(l, c[m]) <= count(l, c[k])); }
        if m < k { assert(count(l, c[m]) < count(l, c[k])); assert(count(l, c[k]) <= count(l, c[m])); }
    }
}
spec fn delimiter_of(c: CSVInputConfig, text: Seq<u8>) -> u8 {
    match c.delimiter { Some(d) => d, None => match line(text, 0) { Some(l) => best_of(encode_utf8(l)), None => 44 } }
}
spec fn headed(c: CSVInputConfig, text: Seq<u8>) -> bool {
    match c.has_header {
        YesNoAuto::Yes => true,
        YesNoAuto::No => false,
        YesNoAuto::Auto => line(text, 0) is Some && line(text, 1) is Some
            && cell_types(line(text, 0)->Some_0, delimiter_of(c, text) as char) != cell_types(line(text, 1)->Some_0, delimiter_of(c, text) as char),
    }
}
spec fn all_records(c: CSVInputConfig, text: Seq<u8>) -> Seq<Record> { records_of(text, Form { delimiter: delimiter_of(c, text), trim: true, flexible: true }) }
spec fn data_records(c: CSVInputConfig, text: Seq<u8>) -> Seq<Record> { if headed(c, text) && all_records(c, text).len() > 0 { all_records(c, text).skip(1) } else { all_records(c, text) } }
spec fn header_record(c: CSVInputConfig, text: Seq<u8>) -> Record { if headed(c, text) && all_records(c, text).len() > 0 { all_records(c, text)[0] } else { Some(seq![]) } }
spec fn chosen_time(names: Seq<String>, cells: Seq<Seq<char>>, c: TimestampConfig) -> Option<int> {
    match chosen_col(names, c.timestamp_col) {
        None => None,
        Some(k) => match chosen_fmt(cells, k.0, c.timezone, k.1, c.timestamp_fmt) { Some(f) => time_of(cells, k.0, f, c.timezone), None => None },
    }
}
spec fn names_are(names: Seq<String>, header: Seq<Seq<char>>, first: Seq<Seq<char>>) -> bool {
    &&& names.len() == if header.len() > first.len() { header.len() } else { first.len() }
    &&& forall|i: int| 0 <= i < names.len() ==> (#[trigger] names[i])@ == column_name(header, i)
}
// the first row's time cannot be told: under the input's column names, no column and format are chosen, or they do not read the row
spec fn untimed(header: Seq<Seq<char>>, first: Seq<Seq<char>>, c: TimestampConfig) -> bool {
    exists|names: Seq<String>| names_are(names, header, first) && #[trigger] chosen_time(names, first, c) is None
}
broadcast proof fn lemma_untimed(header: Seq<Seq<char>>, r: CliResult<(TimestampCol, TimestampFmt)>, names: Seq<String>, first: Seq<Seq<char>>, c: TimestampConfig)
    requires names_are(names, header, first), #[trigger] chosen(r, names, first, c.timestamp_col, c.timestamp_fmt, c.timezone), r matches Ok(o) ==> time_of(first, o.0, fmt_view(o.1), c.timezone) is None
    ensures #[trigger] untimed(header, first, c)
{
    assert(chosen_time(names, first, c) is None);
}
spec fn first_cells(data: Seq<Record>) -> Seq<Seq<char>> { if data.len() > 0 && data[0] is Some { data[0]->Some_0 } else { seq![] } }
spec fn opened(r: CliResult<CSVSource>, p: ChopperBufPreviewer<Box<dyn Read>>, c: CSVInputConfig) -> bool {
    let text = p.reader.rest();
    let header = header_record(c, text);
    let data = data_records(c, text);
    &&& r matches Ok(s) ==> {
        &&& s.wf() && s.reader.sound() == p.reader.sound()
        &&& header is Some && names_are(s.header.field_names@, header->Some_0, first_cells(data))
        &&& forall|i: int| 0 <= i < s.n() ==> (#[trigger] s.header.field_types@[i]) == FieldType::String
        &&& data.len() == 0 ==> !s.has_next_row && p.reader.sound()
        &&& data.len() > 0 ==> {
            &&& s.has_next_row && s.reader.todo() == data.skip(1)
            &&& s.timezone == c.timestamp_config.timezone
            &&& chosen(Ok((s.timestamp_col, s.timestamp_fmt)), s.header.field_names@, first_cells(data), c.timestamp_config.timestamp_col, c.timestamp_config.timestamp_fmt, s.timezone)
            &&& s.ok(data[0]) && s.is_row(s.next_row, data[0])
        }
    }
    // an error is a failure of the input, a header or first record that is not text, or a first record whose time cannot be told
    &&& r is Err ==> !p.reader.sound() || header is None || data.len() > 0 && (data[0] is None || untimed(header->Some_0, first_cells(data), c.timestamp_config))
}
broadcast proof fn lemma_text_len(s: Seq<u8>, cut: bool, k: int)
    requires lines_of(s, cut) is Some, 0 <= k < lines_of(s, cut)->Some_0.len()
    ensures encode_utf8(#[trigger] lines_of(s, cut)->Some_0[k]).len() <= s.len()
    decreases s.len()
{
    broadcast use group_utf8_lib;
    lemma_newline(s);
    if !(s.len() == 0 || (newline(s) == s.len() && cut)) {
        let l = no_cr(s.take(newline(s)));
        assert(encode_utf8(decode_utf8(l)) == l) by { decode_utf8_encode_utf8(l); }
        if k > 0 {
            assert(newline(s) < s.len());
            lemma_text_len(s.skip(newline(s) + 1), cut, k - 1);
        }
    }
}
}
fn main() {}
