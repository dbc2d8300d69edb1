//@include inc/base.inc
//@include inc/io.inc
//@include inc/types.inc
//@include inc/csv_config.inc
//@include inc/times.inc
#[verifier::external_body]
fn text_own(a: &str) -> (r: String) ensures r@ == a@ { unimplemented!() }
spec fn strof(n: Option<&str>) -> Option<Seq<char>> { match n { Some(s) => Some(s@), None => None } }
//@include inc/zone.inc
mod csv { pub(crate) use super::StringRecord; }
//@item src/source/csv_timestamp.rs | const | RANGE_NANOS
//@item src/source/csv_timestamp.rs | const | RANGE_MICROS
//@item src/source/csv_timestamp.rs | const | RANGE_MILLIS
//@item src/source/csv_timestamp.rs | const | RANGE_SECONDS
// ---- begin and end
//@static src/util/timestamp_util.rs | DEFAULT_MONTH
//@static src/util/timestamp_util.rs | DEFAULT_DAY
//@static src/util/timestamp_util.rs | DEFAULT_TIME
//@item src/util/timestamp_util.rs | const | DATETIME_RANGE_FORMATS_WITH_TZ
// the formats of a time without offset: every date form, then a delimiter, a time form and a fraction or none
spec fn date_forms() -> Seq<Seq<char>> { seq!["%Y%m%d"@, "%Y/%m/%d"@, "%Y-%m-%d"@] }
spec fn delimiter_forms() -> Seq<Seq<char>> { seq![" "@, "-"@, "T"@] }
spec fn time_forms() -> Seq<Seq<char>> { seq!["%H:%M:%S"@, "%H%M%S"@] }
spec fn fraction_forms() -> Seq<Seq<char>> { seq![""@, "%.f"@] }
spec fn local_form(i: int) -> Seq<char> { date_forms()[i / 12] + delimiter_forms()[i / 4 % 3] + time_forms()[i / 2 % 2] + fraction_forms()[i % 2] }
spec fn local_forms(v: Seq<String>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == local_form(i) }
spec fn texts_are(v: Seq<&'static str>, t: Seq<Seq<char>>) -> bool { v.len() == t.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == t[i] }
//@fn src/util/timestamp_util.rs | - | create_datetime_range_formats
    //@ret r
    //@attr #[verifier::loop_isolation(false)]
    //@spec
    ensures r@.len() == 36, local_forms(r@),
    //@iter 0 it0
    //@iter 1 it1
    //@iter 2 it2
    //@iter 3 it3
    //@loop 0
        invariant it0.seq().len() == 3, formats@.len() == it0.index@ * 12, local_forms(formats@)
    //@loop 1
        invariant formats@.len() == it0.index@ * 12 + it1.index@ * 4, local_forms(formats@)
    //@loop 2
        invariant formats@.len() == it0.index@ * 12 + it1.index@ * 4 + it2.index@ * 2, local_forms(formats@)
    //@loop 3
        invariant formats@.len() == it0.index@ * 12 + it1.index@ * 4 + it2.index@ * 2 + it3.index@, local_forms(formats@)
//@end
//@lazy src/util/timestamp_util.rs | DATETIME_RANGE_FORMATS_NEED_TZ | ensures r@.len() == 36, local_forms(r@)
spec fn is_first_form(text: Seq<char>, k: int) -> bool { 0 <= k < 36 && parsed_local(text, local_form(k)) is Some && forall|j: int| 0 <= j < k ==> parsed_local(text, #[trigger] local_form(j)) is None }
proof fn lemma_first_form(text: Seq<char>, k: int) ensures is_first_form(text, k) ==> k == choose|m: int| is_first_form(text, m) {
    if is_first_form(text, k) {
        let m = choose|m: int| is_first_form(text, m);
        assert(is_first_form(text, m) && parsed_local(text, local_form(m)) is Some && parsed_local(text, local_form(k)) is Some);
    }
}
spec fn completed(text: Seq<char>) -> Seq<char> {
    if !digits_only(text) { text }
    else if text.len() == 4 { text + "01"@ + "01"@ + "-"@ + "00:00:00"@ }
    else if text.len() == 6 { text + "01"@ + "-"@ + "00:00:00"@ }
    else if text.len() == 8 { text + "-"@ + "00:00:00"@ }
    else { text }
}
spec fn date_and_time(text: Seq<char>, tz: ChopperTz) -> Option<int> {
    if parsed_instant(text, "%+"@) is Some { nanos_of(parsed_instant(text, "%+"@)->Some_0) }
    else if exists|k: int| is_first_form(text, k) { nanos_in(tz, parsed_local(text, local_form(choose|k: int| is_first_form(text, k)))->Some_0) }
    else { None }
}
spec fn in_years(n: int, u: TimestampUnits) -> bool { 630_000_000_000_000_000 <= n * per_unit(u) < 2_000_000_000_000_000_000 }
spec fn range_element(text: Seq<char>, tz: ChopperTz) -> Option<int> {
    if digits_only(text) {
        match u64_of(text) {
            None => None,
            Some(n) =>
                if in_years(n, TimestampUnits::Nanos) { Some(n) }
                else if in_years(n, TimestampUnits::Micros) { Some(n * 1_000) }
                else if in_years(n, TimestampUnits::Millis) { Some(n * 1_000_000) }
                else if in_years(n, TimestampUnits::Seconds) { Some(n * 1_000_000_000) }
                else { date_and_time(completed(text), tz) }
        }
    } else { date_and_time(text, tz) }
}
proof fn lemma_digits_len(s: Seq<char>)
    requires digits_only(s)
    ensures encode_utf8(s).len() == s.len()
    decreases s.len()
{
    reveal_with_fuel(encode_utf8, 2);
    if s.len() > 0 {
        assert(is_digit(s[0]));
        assert forall|i: int| 0 <= i < s.drop_first().len() implies is_digit(#[trigger] s.drop_first()[i]) by { assert(s.drop_first()[i] == s[i + 1]); }
        lemma_digits_len(s.drop_first());
        assert(encode_utf8(s) == encode_scalar(s[0] as u32) + encode_utf8(s.drop_first()));
    }
}
//@fn src/util/timestamp_util.rs | - | parse_datetime_range_element
    //@ret r
    //@attr #[verifier::loop_isolation(false)]
    //@closure 0 «c: char» «-> (b: bool) ensures b == is_digit(c)»
    //@rw «datetime.len()» => «byte_len(&datetime)» (std method as a function with a contract)
    //@rw «datetime.to_owned()» => «owned(&datetime)» (std method as a function with a contract)
    //@rw «DATETIME_RANGE_FORMATS_NEED_TZ.iter()» => «&need_tz» (the lazy static as a function of its initializer)
    //@spec
    ensures gives_nanos(r, range_element(datetime@, *timezone)),
    //@start
    let need_tz = DATETIME_RANGE_FORMATS_NEED_TZ();
    let ghost text = datetime@;
    proof { if digits_only(text) { lemma_digits_len(text); } }
    //@iter 0 it
    //@loop 0
        invariant it.seq().len() == 1, it.seq()[0]@ == "%+"@, it.index@ > 0 ==> parsed_instant(datetime@, "%+"@) is None
    //@iter 1 jt
    //@loop 1
        invariant jt.seq().len() == 36, forall|q: int| 0 <= q < 36 ==> (#[trigger] jt.seq()[q])@ == local_form(q), parsed_instant(datetime@, "%+"@) is None, datetime@ == completed(text),
            forall|j: int| 0 <= j < jt.index@ ==> parsed_local(datetime@, #[trigger] local_form(j)) is None
    //@loopstart 1
        proof { lemma_first_form(datetime@, jt.index@); assert(jt.seq()[jt.index@]@ == local_form(jt.index@)); assert(parsed_local(datetime@, local_form(jt.index@)) is Some ==> is_first_form(datetime@, jt.index@)); }
//@end
//@rwall «timestamp_util::parse_datetime_range_element» => «parse_datetime_range_element» (the same function)
// ---- the range of --begin and --end
//@item src/chopper/types.rs | struct | TimestampRange
spec fn bounded_by(b: Option<u64>, t: Option<&str>, tz: ChopperTz) -> bool { match t { None => b is None, Some(x) => b is Some && Some(b->0 as int) == range_element(x@, tz) } }
spec fn unusable(t: Option<&str>, tz: ChopperTz) -> bool { t matches Some(x) && range_element(x@, tz) is None }
impl TimestampRange {
    //@fn src/chopper/types.rs | TimestampRange | new
        //@ret r
        //@spec
        ensures
            r matches Ok(x) ==> bounded_by(x.begin, begin, *timezone) && bounded_by(x.end, end, *timezone),
            r is Err <==> unusable(begin, *timezone) || unusable(end, *timezone),
    //@end
}
}
fn main() {}
