//@include inc/base.inc
//@include inc/io_min.inc
//@include inc/types.inc
//@include inc/iter.inc
//@include inc/text.inc
// ---- assumed contracts of std: ASCII case-insensitive comparison, comparison of floats and of strings
uninterp spec fn ieee64(a: f64, b: f64) -> Option<Ordering>;      // IEEE 754 comparison: None if one is NaN
uninterp spec fn ieee32(a: f32, b: f32) -> Option<Ordering>;
trait Flt { spec fn ieee(&self, b: &Self) -> Option<Ordering>; }
impl Flt for f64 { spec fn ieee(&self, b: &f64) -> Option<Ordering> { ieee64(*self, *b) } }
impl Flt for f32 { spec fn ieee(&self, b: &f32) -> Option<Ordering> { ieee32(*self, *b) } }
#[verifier::external_body]
fn float_eq<F: Flt>(a: &F, b: &F) -> (r: bool) ensures r == (a.ieee(b) == Some(Ordering::Equal)) { unimplemented!() }
#[verifier::external_body]
fn float_cmp<F: Flt>(a: &F, b: &F) -> (r: Option<Ordering>) ensures r == a.ieee(b) { unimplemented!() }
spec fn lex(a: Seq<u8>, b: Seq<u8>) -> Ordering decreases a.len() {
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0] < b[0] { Ordering::Less } else if a[0] > b[0] { Ordering::Greater }
    else { lex(a.skip(1), b.skip(1)) }
}
#[verifier::external_body]
fn opt_eq(a: Option<Ordering>, b: Option<Ordering>) -> (r: bool) ensures r == (a == b) { unimplemented!() }
fn ord_lt(o: Option<Ordering>) -> (r: bool) ensures r == (o == Some(Ordering::Less)) { matches!(o, Some(Ordering::Less)) }
fn ord_gt(o: Option<Ordering>) -> (r: bool) ensures r == (o == Some(Ordering::Greater)) { matches!(o, Some(Ordering::Greater)) }
fn ord_le(o: Option<Ordering>) -> (r: bool) ensures r == (o == Some(Ordering::Less) || o == Some(Ordering::Equal)) { matches!(o, Some(Ordering::Less | Ordering::Equal)) }
fn ord_ge(o: Option<Ordering>) -> (r: bool) ensures r == (o == Some(Ordering::Greater) || o == Some(Ordering::Equal)) { matches!(o, Some(Ordering::Greater | Ordering::Equal)) }
#[verifier::external_body]
fn string_cmp(a: &String, b: &String) -> (r: Ordering) ensures r == lex(encode_utf8(a@), encode_utf8(b@)) { unimplemented!() }
impl Error {
    // ends the process: the statement leaves these comparisons open
    #[verifier::external_body]
    fn exit(&self) -> ! { loop { } }
}
// ---- comparison of values
spec fn same_value(a: FieldValue, b: FieldValue) -> bool {
    match (a, b) {
        (FieldValue::Byte(x), FieldValue::Byte(y)) => x == y,
        (FieldValue::Char(x), FieldValue::Char(y)) => x == y,
        (FieldValue::Double(x), FieldValue::Double(y)) => ieee64(x, y) == Some(Ordering::Equal),
        (FieldValue::Float(x), FieldValue::Float(y)) => ieee32(x, y) == Some(Ordering::Equal),
        (FieldValue::Int(x), FieldValue::Int(y)) => x == y,
        (FieldValue::Long(x), FieldValue::Long(y)) => x == y,
        (FieldValue::Short(x), FieldValue::Short(y)) => x == y,
        (FieldValue::String(x), FieldValue::String(y)) => x@ == y@,
        (FieldValue::None, FieldValue::None) => true,
        _ => false,
    }
}
spec fn greater_value(a: FieldValue, b: FieldValue) -> bool {
    match (a, b) {
        (FieldValue::Byte(x), FieldValue::Byte(y)) => x > y,
        (FieldValue::Char(x), FieldValue::Char(y)) => x > y,
        (FieldValue::Double(x), FieldValue::Double(y)) => ieee64(x, y) == Some(Ordering::Greater),
        (FieldValue::Float(x), FieldValue::Float(y)) => ieee32(x, y) == Some(Ordering::Greater),
        (FieldValue::Int(x), FieldValue::Int(y)) => x > y,
        (FieldValue::Long(x), FieldValue::Long(y)) => x > y,
        (FieldValue::Short(x), FieldValue::Short(y)) => x > y,
        (FieldValue::String(x), FieldValue::String(y)) => lex(encode_utf8(x@), encode_utf8(y@)) is Greater,
        _ => false,
    }
}
impl PartialEq for FieldValue {
    //@fn src/chopper/types.rs | PartialEq for FieldValue | eq
        //@ret r
        //@rw «FieldValue::Double(y)) => $a == $b» => «FieldValue::Double(y)) => float_eq($a, $b)» (float comparison as a function with a contract)
        //@rw «FieldValue::Float(y)) => $a == $b» => «FieldValue::Float(y)) => float_eq($a, $b)» (float comparison as a function with a contract)
        // its contract is that of std's PartialEq with eq_spec below
    //@end
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for FieldValue {
    open spec fn obeys_eq_spec() -> bool { true }
    closed spec fn eq_spec(&self, other: &FieldValue) -> bool { same_value(*self, *other) }
}
impl FieldValue {
    //@fn src/chopper/types.rs | PartialOrd for FieldValue | partial_cmp
        //@ret r
        //@rw «FieldValue::Double(y)) => $a.partial_cmp($b)» => «FieldValue::Double(y)) => float_cmp($a, $b)» (float comparison as a function with a contract)
        //@rw «FieldValue::Float(y)) => $a.partial_cmp($b)» => «FieldValue::Float(y)) => float_cmp($a, $b)» (float comparison as a function with a contract)
        //@rw «FieldValue::String(y)) => Some($a.cmp($b))» => «FieldValue::String(y)) => Some(string_cmp($a, $b))» (string comparison as a function with a contract)
        //@spec
        ensures (r == Some(Ordering::Greater)) == greater_value(*self, *other),
    //@end
}
// ---- stages: the traits of src/chopper/chopper.rs with a contract
// a row as its time and its values
type R = (Nanos, Seq<FieldValue>);
spec fn rv(r: Row) -> R { (r.timestamp, r.field_values@) }
spec fn rows(s: Seq<Row>) -> Seq<R> { Seq::new(s.len(), |i: int| rv(s[i])) }
spec fn wf(h: Header) -> bool { h.field_names@.len() == h.field_types@.len() }
trait DataSink {
    spec fn takes(&self, row: R) -> bool;
    spec fn emits(&self, row: R) -> Seq<R>;
    //@fn src/chopper/chopper.rs | trait DataSink | write_row
        //@ret r
        //@nobody
        //@spec
        requires old(io_rows)@.len() == 1, old(self).takes(rv(old(io_rows)@[0])),
        ensures
            r is Ok, rows(final(io_rows)@) =~= old(self).emits(rv(old(io_rows)@[0])),
            forall|row: R| final(self).takes(row) == old(self).takes(row) && #[trigger] final(self).emits(row) == old(self).emits(row),
    //@end
}
trait HeaderSink {
    spec fn header_out(&self, h: Header) -> Option<(Seq<String>, Seq<FieldType>)>;
    spec fn row_out(&self, h: Header, row: R) -> Seq<R>;
    //@fn src/chopper/chopper.rs | trait HeaderSink | process_header
        //@ret r
        //@nobody
        //@spec
        requires wf(*old(header)),
        ensures
            r is Ok <==> self.header_out(*old(header)) is Some,
            r is Ok ==> final(header).field_names@ == self.header_out(*old(header))->Some_0.0,
            r is Ok ==> final(header).field_types@ == self.header_out(*old(header))->Some_0.1,
            r matches Ok(s) ==> forall|row: R| row.1.len() == old(header).field_names@.len() ==> #[trigger] s.takes(row),
            r matches Ok(s) ==> forall|row: R| row.1.len() == old(header).field_names@.len() ==> #[trigger] s.emits(row) == self.row_out(*old(header), row),

    //@end
}
// the first column of that name
spec fn is_column(h: Header, name: Seq<char>, i: int) -> bool {
    0 <= i < h.field_names@.len() && nocase(h.field_names@[i]@, name) && forall|j: int| 0 <= j < i ==> !nocase(#[trigger] h.field_names@[j]@, name)
}
spec fn column(h: Header, name: Seq<char>) -> Option<int> { if exists|i: int| is_column(h, name, i) { Some(choose|i: int| is_column(h, name, i)) } else { None } }
proof fn lemma_column(h: Header, name: Seq<char>)
    ensures
        forall|i: int| #[trigger] is_column(h, name, i) ==> column(h, name) == Some(i),
        (forall|j: int| 0 <= j < h.field_names@.len() ==> !nocase(#[trigger] h.field_names@[j]@, name)) ==> column(h, name) is None,
{
    assert forall|i: int| #[trigger] is_column(h, name, i) implies column(h, name) == Some(i) by {
        let k = choose|k: int| is_column(h, name, k);
        assert(is_column(h, name, k));
        if i < k { assert(nocase(h.field_names@[i]@, name)); } else if k < i { assert(nocase(h.field_names@[k]@, name)); }
    }
}
//@item src/filter/row_filter_equal_value.rs | struct | RowFilterEqualValueConfig
//@item src/filter/row_filter_equal_value.rs | struct | RowFilterEqualValue
//@item src/filter/row_filter_greater_value.rs | struct | RowFilterGreaterValueConfig
//@item src/filter/row_filter_greater_value.rs | struct | RowFilterGreaterValue
//@item src/filter/column_filter_delete_col.rs | struct | ColumnFilterDeleteConfig
//@item src/filter/column_filter_delete_col.rs | struct | ColumnFilterDelete
//@rwall «$a.eq_ignore_ascii_case($b)» => «nocase_eq(&$a, $b)» (std method as a function with a contract)
//@rwall «Box::new($a) as Box<dyn $t>» => «Box::new($a)» (the cast is implicit)
impl RowFilterEqualValue {
    //@fn src/filter/row_filter_equal_value.rs | RowFilterEqualValue | new
        //@ret r
        //@spec
        ensures
            forall|h: Header| #[trigger] r.header_out(h) == (if column(h, column_name@) is Some { Some((h.field_names@, h.field_types@)) } else { None }),
            forall|h: Header, row: R| #[trigger] r.row_out(h, row) == (if same_value(row.1[column(h, column_name@)->Some_0], value) { seq![row] } else { seq![] }),
    //@end
    //@fn src/filter/row_filter_equal_value.rs | DataSink for RowFilterEqualValue | boxed
        //@ret r
        //@spec
        ensures forall|row: R| #[trigger] r.takes(row) == self.takes(row), forall|row: R| #[trigger] r.emits(row) == self.emits(row),
    //@end
}
impl DataSink for RowFilterEqualValue {
    spec fn takes(&self, row: R) -> bool { self.column_index is Some && self.column_index->Some_0 < row.1.len() }
    spec fn emits(&self, row: R) -> Seq<R> { if same_value(row.1[self.column_index->Some_0 as int], self.value) { seq![row] } else { seq![] } }
    //@fn src/filter/row_filter_equal_value.rs | DataSink for RowFilterEqualValue | write_row
    //@end
}
impl HeaderSink for RowFilterEqualValueConfig {
    spec fn header_out(&self, h: Header) -> Option<(Seq<String>, Seq<FieldType>)> { if column(h, self.column_name@) is Some { Some((h.field_names@, h.field_types@)) } else { None } }
    spec fn row_out(&self, h: Header, row: R) -> Seq<R> { if same_value(row.1[column(h, self.column_name@)->Some_0], self.value) { seq![row] } else { seq![] } }
    //@fn src/filter/row_filter_equal_value.rs | HeaderSink for RowFilterEqualValueConfig | process_header
        //@start
        let ghost h = *header;
        proof { lemma_column(h, self.column_name@); }
        //@loop 0
            invariant *header == h, field_names == header.field_names, wf(h),
                forall|j: int| 0 <= j < i ==> !nocase(#[trigger] h.field_names@[j]@, self.column_name@),
        //@loopstart 0
            proof { if nocase(h.field_names@[i as int]@, self.column_name@) { assert(is_column(h, self.column_name@, i as int)); } lemma_column(h, self.column_name@); }
    //@end
}
impl RowFilterGreaterValue {
    //@fn src/filter/row_filter_greater_value.rs | RowFilterGreaterValue | new
        //@ret r
        //@spec
        ensures
            forall|h: Header| #[trigger] r.header_out(h) == (if column(h, column_name@) is Some { Some((h.field_names@, h.field_types@)) } else { None }),
            forall|h: Header, row: R| #[trigger] r.row_out(h, row) == (if greater_value(row.1[column(h, column_name@)->Some_0], value) { seq![row] } else { seq![] }),
    //@end
    //@fn src/filter/row_filter_greater_value.rs | DataSink for RowFilterGreaterValue | boxed
        //@ret r
        //@spec
        ensures forall|row: R| #[trigger] r.takes(row) == self.takes(row), forall|row: R| #[trigger] r.emits(row) == self.emits(row),
    //@end
}
impl DataSink for RowFilterGreaterValue {
    spec fn takes(&self, row: R) -> bool { self.column_index is Some && self.column_index->Some_0 < row.1.len() }
    spec fn emits(&self, row: R) -> Seq<R> { if greater_value(row.1[self.column_index->Some_0 as int], self.value) { seq![row] } else { seq![] } }
    //@fn src/filter/row_filter_greater_value.rs | DataSink for RowFilterGreaterValue | write_row
        //@rw «Some($a) != $b.partial_cmp($c)» => «!opt_eq(Some($a), $b.partial_cmp($c))» (comparison of Option<Ordering> as a function with a contract)
        //@rw «$b.partial_cmp($c) != Some($a)» => «!opt_eq($b.partial_cmp($c), Some($a))» (comparison of Option<Ordering> as a function with a contract)
        //@rw «Some($a) == $b.partial_cmp($c)» => «opt_eq(Some($a), $b.partial_cmp($c))» (comparison of Option<Ordering> as a function with a contract)
        //@rw «$b.partial_cmp($c) == Some($a)» => «opt_eq($b.partial_cmp($c), Some($a))» (comparison of Option<Ordering> as a function with a contract)
        //@rw «*field_value <= self.value» => «ord_le(field_value.partial_cmp(&self.value))» (operator as its definition by partial_cmp)
        //@rw «field_value <= &self.value» => «ord_le(field_value.partial_cmp(&self.value))» (operator as its definition by partial_cmp)
        //@rw «*field_value >= self.value» => «ord_ge(field_value.partial_cmp(&self.value))» (operator as its definition by partial_cmp)
        //@rw «field_value >= &self.value» => «ord_ge(field_value.partial_cmp(&self.value))» (operator as its definition by partial_cmp)
        //@rw «*field_value < self.value» => «ord_lt(field_value.partial_cmp(&self.value))» (operator as its definition by partial_cmp)
        //@rw «field_value < &self.value» => «ord_lt(field_value.partial_cmp(&self.value))» (operator as its definition by partial_cmp)
        //@rw «*field_value > self.value» => «ord_gt(field_value.partial_cmp(&self.value))» (operator as its definition by partial_cmp)
        //@rw «field_value > &self.value» => «ord_gt(field_value.partial_cmp(&self.value))» (operator as its definition by partial_cmp)
    //@end
}
impl HeaderSink for RowFilterGreaterValueConfig {
    spec fn header_out(&self, h: Header) -> Option<(Seq<String>, Seq<FieldType>)> { if column(h, self.column_name@) is Some { Some((h.field_names@, h.field_types@)) } else { None } }
    spec fn row_out(&self, h: Header, row: R) -> Seq<R> { if greater_value(row.1[column(h, self.column_name@)->Some_0], self.value) { seq![row] } else { seq![] } }
    //@fn src/filter/row_filter_greater_value.rs | HeaderSink for RowFilterGreaterValueConfig | process_header
        //@start
        let ghost h = *header;
        proof { lemma_column(h, self.column_name@); }
        //@loop 0
            invariant *header == h, field_names == header.field_names, wf(h),
                forall|j: int| 0 <= j < i ==> !nocase(#[trigger] h.field_names@[j]@, self.column_name@),
        //@loopstart 0
            proof { if nocase(h.field_names@[i as int]@, self.column_name@) { assert(is_column(h, self.column_name@, i as int)); } lemma_column(h, self.column_name@); }
    //@end
}
impl ColumnFilterDelete {
    //@fn src/filter/column_filter_delete_col.rs | ColumnFilterDelete | new
        //@ret r
        //@spec
        ensures
            forall|h: Header| #[trigger] r.header_out(h) == (if column(h, column_name@) is Some { Some((h.field_names@.remove(column(h, column_name@)->Some_0), h.field_types@.remove(column(h, column_name@)->Some_0))) } else { None }),
            forall|h: Header, row: R| #[trigger] r.row_out(h, row) == seq![(row.0, row.1.remove(column(h, column_name@)->Some_0))],
    //@end
    //@fn src/filter/column_filter_delete_col.rs | DataSink for ColumnFilterDelete | boxed
        //@ret r
        //@spec
        ensures forall|row: R| #[trigger] r.takes(row) == self.takes(row), forall|row: R| #[trigger] r.emits(row) == self.emits(row),
    //@end
}
impl DataSink for ColumnFilterDelete {
    spec fn takes(&self, row: R) -> bool { self.column_index < row.1.len() }
    spec fn emits(&self, row: R) -> Seq<R> { seq![(row.0, row.1.remove(self.column_index as int))] }
    //@fn src/filter/column_filter_delete_col.rs | DataSink for ColumnFilterDelete | write_row
    //@end
}
impl HeaderSink for ColumnFilterDeleteConfig {
    spec fn header_out(&self, h: Header) -> Option<(Seq<String>, Seq<FieldType>)> {
        if column(h, self.column_name@) is Some { Some((h.field_names@.remove(column(h, self.column_name@)->Some_0), h.field_types@.remove(column(h, self.column_name@)->Some_0))) } else { None }
    }
    spec fn row_out(&self, h: Header, row: R) -> Seq<R> { seq![(row.0, row.1.remove(column(h, self.column_name@)->Some_0))] }
    //@fn src/filter/column_filter_delete_col.rs | HeaderSink for ColumnFilterDeleteConfig | process_header
        //@attr #[verifier::loop_isolation(false)]
        //@start
        let ghost h = *header;
        proof { lemma_column(h, self.column_name@); }
        //@loop 0
            invariant *header == h, *field_names == header.field_names, wf(h), i <= h.field_names@.len(),
                forall|j: int| 0 <= j < i ==> !nocase(#[trigger] h.field_names@[j]@, self.column_name@),
            decreases h.field_names@.len() - i,
        //@loopstart 0
            proof { if nocase(h.field_names@[i as int]@, self.column_name@) { assert(is_column(h, self.column_name@, i as int)); } lemma_column(h, self.column_name@); }
    //@end
}
fn main() {}
} // verus!
