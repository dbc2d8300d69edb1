//@item src/source/csv_timestamp.rs | const | RANGE_NANOS
//@item src/source/csv_timestamp.rs | const | RANGE_MICROS
//@item src/source/csv_timestamp.rs | const | RANGE_MILLIS
//@item src/source/csv_timestamp.rs | const | RANGE_SECONDS
// ---- std text functions (assumed)
#[verifier::external_body]
fn to_lowercase_(s: &String) -> (r: String) ensures r@ == lowercase(s@) { unimplemented!() }
#[verifier::external_body]
fn starts_with<A: Text + ?Sized, B: Text + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == begins(a.text(), b.text()) { unimplemented!() }
#[verifier::external_body]
fn ends_with<A: Text + ?Sized, B: Text + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == ends(a.text(), b.text()) { unimplemented!() }
#[verifier::external_body]
fn has_text<A: Text + ?Sized, B: Text + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == occurs(a.text(), b.text()) { unimplemented!() }
spec fn ascii_only(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] (s[i] as u32) <= 127 }
// &s[n..] and &s[..s.len() - n], for n bytes that are n characters
#[verifier::external_body]
fn text_from<'a>(s: &'a str, n: usize) -> (r: &'a str) requires n <= s@.len(), ascii_only(s@.take(n as int)) ensures r@ == s@.skip(n as int) { unimplemented!() }
#[verifier::external_body]
fn text_but<'a>(s: &'a str, n: usize) -> (r: &'a str) requires n <= s@.len(), ascii_only(s@.skip(s@.len() - n)) ensures r@ == s@.take(s@.len() - n) { unimplemented!() }
// str::rsplitn(2, p): what is behind the last p, then what is before it
#[verifier::external_body]
struct Rsplit2<'a> { s: &'a str }
impl<'a> Rsplit2<'a> {
    uninterp spec fn parts(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a str>)
        ensures old(self).parts().len() == 0 ==> r is None && final(self).parts() == old(self).parts(),
            old(self).parts().len() > 0 ==> r is Some && r->Some_0@ == old(self).parts()[0] && final(self).parts() == old(self).parts().skip(1),
    { unimplemented!() }
}
#[verifier::external_body]
fn rsplitn_2<'a>(s: &'a str, p: &str) -> (r: Rsplit2<'a>)
    requires p@.len() > 0
    ensures occurs(s@, p@) ==> r.parts() == seq![behind(s@, p@), before(s@, p@)], !occurs(s@, p@) ==> r.parts() == seq![s@]
{ unimplemented!() }
#[verifier::external_body]
fn vec_get<T>(v: &Vec<T>, i: usize) -> (r: Option<&T>) ensures r is Some <==> i < v@.len(), r matches Some(t) ==> *t == v@[i as int] { unimplemented!() }
trait Rev<T>: Sized { fn rev(self) -> Vec<T>; }
impl<T> Rev<T> for Vec<T> {
    #[verifier::external_body]
    fn rev(self) -> (r: Vec<T>)
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] 0 <= i < self@.len() ==> r@[i] == self@[self@.len() - 1 - i],
    { unimplemented!() }
}
//@rwall «*$n == $m» => «text_is(&$n, &$m)» (std comparison as a function with a contract)
//@rwall «$n == $m» => «text_is(&$n, &$m)» (std comparison as a function with a contract)
//@rwall «$n.starts_with($m)» => «starts_with(&$n, &$m)» (std method as a function with a contract)
//@rwall «$n.ends_with($m)» => «ends_with(&$n, &$m)» (std method as a function with a contract)
//@rwall «$n.contains("time")» => «has_text(&$n, &"time")» (std method as a function with a contract)
impl Header {
    //@fn src/chopper/types.rs | Header | get_field_index
        //@ret r
        //@rw «self.field_names.iter()» => «self.field_names.iter_()» (std iterator as one with a contract)
        //@closure 0 «s: &String» «-> (b: bool) ensures b == (s@ == name@)»
        //@spec
        ensures match index_of(self.field_names@, name@, 0) { Some(i) => r is Ok && r->Ok_0 == i, None => r is Err },
        //@start
        broadcast use lemma_index_of, lemma_no_index;
    //@end
}
broadcast proof fn lemma_index_of(names: Seq<String>, name: Seq<char>, k: int, from: int)
    requires 0 <= from <= k < names.len(), names[k]@ == name, forall|j: int| from <= j < k ==> (#[trigger] names[j])@ != name
    ensures #[trigger] names[k]@ == name ==> #[trigger] index_of(names, name, from) == Some(k)
    decreases k - from
{ if from < k { lemma_index_of(names, name, k, from + 1); } }
broadcast proof fn lemma_no_index(names: Seq<String>, name: Seq<char>, from: int)
    requires 0 <= from, forall|j: int| from <= j < names.len() ==> (#[trigger] names[j])@ != name
    ensures #[trigger] index_of(names, name, from) is None
    decreases names.len() - from
{ if from < names.len() { lemma_no_index(names, name, from + 1); } }

spec fn units_table(s: Seq<&(TimestampUnits, &'static str)>) -> bool {
    s.len() == 4 && s[0].0 == TimestampUnits::Seconds && s[0].1@ == "seconds"@ && s[1].0 == TimestampUnits::Millis && s[1].1@ == "millis"@
    && s[2].0 == TimestampUnits::Micros && s[2].1@ == "micros"@ && s[3].0 == TimestampUnits::Nanos && s[3].1@ == "nanos"@
}
spec fn time_units_are(o: Option<(usize, TimestampUnits)>, names: Seq<String>, from: int) -> bool {
    match leftmost(names, k_time_units(), from) { None => o is None, Some(k) => o == Some((k as usize, kind_at(names, k)->TimeUnits_0)) }
}
spec fn place_is(o: Option<usize>, k: Kind, names: Seq<String>, from: int) -> bool {
    match leftmost(names, k, from) { None => o is None, Some(k) => o == Some(k as usize) }
}
spec fn prefix_time_units_are(o: Option<(String, usize, TimestampUnits)>, names: Seq<String>, from: int) -> bool {
    match leftmost(names, k_prefix_time_units(), from) { None => o is None, Some(k) => o is Some && o->Some_0.1 == k as usize && o->Some_0.2 == kind_at(names, k)->PrefixTimeUnits_1 }
}
spec fn prefix_date_is(o: Option<(String, usize)>, names: Seq<String>, from: int) -> bool {
    match leftmost(names, k_prefix_date(), from) { None => o is None, Some(k) => o is Some && o->Some_0.1 == k as usize && o->Some_0.0@ == kind_at(names, k)->PrefixDate_0 }
}
spec fn prefix_time_is(o: Option<(String, usize)>, names: Seq<String>, from: int) -> bool {
    match leftmost(names, k_prefix_time(), from) { None => o is None, Some(k) => o is Some && o->Some_0.1 == k as usize && o->Some_0.0@ == kind_at(names, k)->PrefixTime_0 }
}
spec fn backwards(v: Seq<(usize, String)>, names: Seq<String>) -> bool {
    v.len() == names.len() && forall|q: int| 0 <= q < v.len() ==> (#[trigger] v[q]).0 == v.len() - 1 - q && v[q].1@ == lowercase(names[v.len() - 1 - q]@)
}
spec fn col_is(r: CliResult<(TimestampCol, Option<TimestampUnits>)>, v: Option<(TimestampCol, Option<TimestampUnits>)>) -> bool { match v { Some(c) => r == Ok::<(TimestampCol, Option<TimestampUnits>), Error>(c), None => r is Err } }
//@fn src/source/csv_timestamp.rs | - | get_timestamp_col
    //@ret r
    //@attr #[verifier::loop_isolation(false)]
    //@rw «header.field_names().iter()» => «header.field_names().iter_()» (std iterator as one with a contract)
    //@rw «.enumerate()» => «.enumerate().collect()» (std iterator as a sequence with a contract)
    //@rw «$s.to_lowercase()» => «to_lowercase_($s)» (std method as a function with a contract)
    //@rw «&$n[$k..]» => «text_from($n, $k)» (std slice as a function with a contract)
    //@rw «$n[..$n.len() - $k].to_string()» => «owned(text_but($n, $k))» (std slice as a function with a contract)
    //@rw «$n.rsplitn(2, $m)» => «rsplitn_2($n, $m)» (std method as a function with a contract)
    //@rw «$p.to_owned()» => «owned(&$p)» (std method as a function with a contract)
    //@rw «header.field_names().get($i)» => «vec_get(header.field_names(), $i)» (std method as a function with a contract)
    //@closure 0 «s: &String» «-> (o: String) ensures o@ == lowercase(s@)»
    //@spec
    ensures col_is(r, chosen_col(header.field_names@, *timestamp_col_config)),
    //@start
    let ghost names = header.field_names@;
    proof { reveal_strlit("time"); reveal_strlit("date"); assert(ascii_only("time"@)); assert(ascii_only("date"@)); }
    //@iter 0 it
    //@iter 1 ut
    //@iter 2 vt
    //@iter 3 wt
    //@iter 4 xt
    //@loop 0
        invariant backwards(it.seq(), names),
            time_units_are(time_with_units, names, names.len() - it.index@),
            place_is(date, Kind::Date, names, names.len() - it.index@),
            place_is(time, Kind::Time, names, names.len() - it.index@),
            prefix_time_units_are(prefixed_time_with_units, names, names.len() - it.index@),
            prefix_date_is(prefixed_date, names, names.len() - it.index@),
            prefix_time_is(prefixed_time, names, names.len() - it.index@),
    //@loopstart 0
        let ghost time_with_units_0 = time_with_units;
        let ghost prefixed_time_with_units_0 = prefixed_time_with_units;
        let ghost from = names.len() - it.index@ - 1;
        proof { assert(it.seq()[it.index@].0 == from); }
    //@loop 1
        invariant_except_break units_table(ut.seq()), time_with_units == time_with_units_0, forall|q: int| 0 <= q < ut.index@ ==> (#[trigger] ut.seq()[q]).1@ != units@
        ensures match unit_of(units@) { Some(u) => time_with_units == Some((i, u)), None => time_with_units == time_with_units_0 }
    //@loop 2
        invariant_except_break units_table(vt.seq()), prefixed_time_with_units == prefixed_time_with_units_0, split_name.parts() == seq![before(lowercase(names[i as int]@), "time"@)], forall|q: int| 0 <= q < vt.index@ ==> (#[trigger] vt.seq()[q]).1@ != suffix@
        ensures match unit_of(suffix@) { Some(u) => prefixed_time_with_units is Some && prefixed_time_with_units->Some_0.1 == i && prefixed_time_with_units->Some_0.2 == u, None => prefixed_time_with_units == prefixed_time_with_units_0 }
    //@loop 3
        invariant_except_break units_table(wt.seq()), units is None, forall|q: int| 0 <= q < wt.index@ ==> !ends(name@, (#[trigger] wt.seq()[q]).1@)
        ensures units == hinted(name@)
    //@loop 4
        invariant_except_break units_table(xt.seq()), units is None, forall|q: int| 0 <= q < xt.index@ ==> !ends(name@, (#[trigger] xt.seq()[q]).1@)
        ensures units == hinted(name@)
//@end

spec fn lists(s: Seq<&&'static str>, t: Seq<Seq<char>>) -> bool { s.len() == t.len() && t.len() == 4 && s[0]@ == t[0] && s[1]@ == t[1] && s[2]@ == t[2] && s[3]@ == t[3] }
//@fn src/source/csv_timestamp.rs | - | get_timestamp_fmt_auto_with_index
    //@ret r
    //@attr #[verifier::loop_isolation(false)]
    //@rw «$p.to_string()» => «owned(&$p)» (std method as a function with a contract)
    //@closure 0 «c: char» «-> (b: bool) ensures b == is_digit(c)»
    //@spec
    ensures fmt_is(r, auto_fmt(first_row.cells(), TimestampCol::Index(time_idx), *timezone, units_hint)),
    //@start
    let ghost text = first_row.cells()[time_idx as int];
    //@iter 0 it
    //@iter 1 jt
    //@iter 2 kt
    //@loop 0
        invariant it.seq().len() == 1, it.seq()[0]@ == "%+"@, it.index@ > 0 ==> parsed_instant(text, "%+"@) is None
    //@loop 1
        invariant lists(jt.seq(), local_formats()), first_local(text, local_formats(), 0) == first_local(text, local_formats(), jt.index@)
    //@loop 2
        invariant kt.seq().len() == 1, kt.seq()[0]@ == "%Y%m%d"@, kt.index@ > 0 ==> parsed_date(text, "%Y%m%d"@) is None
//@end
//@fn src/source/csv_timestamp.rs | - | get_timestamp_fmt_auto_with_datetimeindex
    //@ret r
    //@attr #[verifier::loop_isolation(false)]
    //@rw «$p.to_string()» => «owned(&$p)» (std method as a function with a contract)
    //@rw «date.len()» => «byte_len(date)» (std method as a function with a contract)
    //@rw «time.len()» => «byte_len(time)» (std method as a function with a contract)
    //@spec
    ensures fmt_is(r, auto_fmt(first_row.cells(), TimestampCol::DateTimeIndex(date_idx, time_idx), *timezone, None)),
    //@start
    let ghost text = first_row.cells()[date_idx as int].push('#') + first_row.cells()[time_idx as int];
    //@iter 0 it
    //@loop 0
        invariant timestamp@ == text, lists(it.seq(), two_column_formats()), first_local(text, two_column_formats(), 0) == first_local(text, two_column_formats(), it.index@)
//@end
//@fn src/source/csv_timestamp.rs | - | get_timestamp_fmt_auto
    //@ret r
    //@spec
    ensures fmt_is(r, auto_fmt(first_row.cells(), *timestamp_col, *timezone, units_hint)),
//@end
//@fn src/source/csv_timestamp.rs | - | get_timestamp_fmt_from_user_spec
    //@ret r
    //@spec
    ensures fmt_is(r, given_fmt(first_row.cells(), *timestamp_col, *timezone, format@)),
//@end
//@fn src/source/csv_timestamp.rs | - | get_timestamp_col_and_fmt
    //@ret r
    //@rw «$p.to_owned()» => «owned(&$p)» (std method as a function with a contract)
    //@spec
    ensures chosen(r, header.field_names@, first_row.cells(), *timestamp_col_config, *timestamp_fmt_config, *timezone),
//@end
