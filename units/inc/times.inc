use core::ops::Range;
// ---- text, as sequences of characters (std functions by contract: assumed)
#[verifier::external_body]
fn byte_len<A: Text + ?Sized>(a: &A) -> (r: usize) ensures r == encode_utf8(a.text()).len(), r <= 0x0fff_ffff_ffff_ffff { unimplemented!() }
#[verifier::external_body]
fn add_text<A: Text + ?Sized>(s: &mut String, a: &A) ensures final(s)@ == old(s)@ + a.text() { unimplemented!() }
#[verifier::external_body]
fn add_char(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { unimplemented!() }
#[verifier::external_body]
fn text_with_capacity(capacity: usize) -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
#[verifier::external_body]
fn ascii_digit(c: char) -> (r: bool) ensures r == is_digit(c) { unimplemented!() }
#[verifier::external_body]
fn all_chars<A: Text + ?Sized, F: Fn(char) -> bool>(a: &A, f: F) -> (r: bool)
    requires forall|c: char| #[trigger] f.requires((c,)),
    ensures
        r ==> forall|i: int| 0 <= i < a.text().len() ==> f.ensures((#[trigger] a.text()[i],), true),
        !r ==> exists|i: int| 0 <= i < a.text().len() && f.ensures((#[trigger] a.text()[i],), false),
{ unimplemented!() }
// numbers: std's u64::from_str
spec fn digits_only(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
spec fn number(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { number(s.drop_last()) * 10 + (s.last() as int - '0' as int) } }
spec fn u64_of(s: Seq<char>) -> Option<int> {
    let d = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    if d.len() > 0 && digits_only(d) && number(d) <= u64::MAX { Some(number(d)) } else { None }
}
struct ParseIntError { }
impl Text for ParseIntError { uninterp spec fn text(&self) -> Seq<char>; }
impl ParseIntError {
    #[verifier::external_body]
    fn to_string(&self) -> String { unimplemented!() }
}
#[verifier::external_body]
fn parse_u64<A: Text + ?Sized>(a: &A) -> (r: Result<u64, ParseIntError>)
    ensures r matches Ok(n) ==> u64_of(a.text()) == Some(n as int), r is Err ==> u64_of(a.text()) is None
{ unimplemented!() }
#[verifier::external_body]
fn in_range(r: &Range<u64>, n: u64) -> (b: bool) ensures b == (r.start <= n && n < r.end) { unimplemented!() }
//@rwall «$s.parse::<u64>()» => «parse_u64(&$s)» (std conversion as a function with a contract)
//@rwall «$r.contains(&$n)» => «in_range(&$r, $n)» (std method as a function with a contract)
//@rwall «$s.chars().all(|$c| $e)» => «all_chars(&$s, |$c| $e)» (std methods as a function with a contract)
//@rwall «$c.is_ascii_digit()» => «ascii_digit($c)» (std method as a function with a contract)
//@rwall «String::with_capacity($n)» => «text_with_capacity($n)» (std function as one with a contract)
//@rwall «timestamp.push_str($x)» => «add_text(&mut timestamp, $x)» (std method as a function with a contract)
//@rwall «timestamp.push($x)» => «add_char(&mut timestamp, $x)» (std method as a function with a contract)

// ---- chrono (assumed): parsing is some function of text and format; an instant is seconds and nanoseconds since the epoch
ghost struct Instant { secs: int, nanos: int }
ghost struct Local { secs: int, nanos: int }            // a date and time without zone, as seconds from 1970-01-01 00:00:00 of the same clock
uninterp spec fn parsed_instant(text: Seq<char>, format: Seq<char>) -> Option<Instant>;     // with its own offset
uninterp spec fn parsed_local(text: Seq<char>, format: Seq<char>) -> Option<Local>;
uninterp spec fn parsed_date(text: Seq<char>, format: Seq<char>) -> Option<int>;            // days since 1970-01-01
// the instants at which the clocks of a zone show a local time: none, one or two
ghost enum Shown { Never, Once(Instant), Twice }
uninterp spec fn shown(tz: Tz, local: Local) -> Shown;
trait TimeZone: Sized { }
struct FixedOffset { }
impl TimeZone for FixedOffset { }
impl TimeZone for Tz { }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct DateTime<T> { t: T }
impl<T> DateTime<T> {
    uninterp spec fn at(&self) -> Instant;
    #[verifier::external_body]
    fn timestamp(&self) -> (r: i64) ensures r == self.at().secs { unimplemented!() }
    #[verifier::external_body]
    fn timestamp_subsec_nanos(&self) -> (r: u32) ensures r == self.at().nanos { unimplemented!() }
}
impl DateTime<FixedOffset> {
    #[verifier::external_body]
    fn parse_from_str(text: &str, format: &str) -> (r: Result<DateTime<FixedOffset>, ParseError>)
        ensures r matches Ok(t) ==> parsed_instant(text@, format@) == Some(t.at()), r is Err ==> parsed_instant(text@, format@) is None
    { unimplemented!() }
}
#[verifier::external_body]
struct NaiveDateTime { }
impl NaiveDateTime {
    uninterp spec fn at(&self) -> Local;
    #[verifier::external_body]
    fn parse_from_str(text: &str, format: &str) -> (r: Result<NaiveDateTime, ParseError>)
        ensures r matches Ok(t) ==> parsed_local(text@, format@) == Some(t.at()), r is Err ==> parsed_local(text@, format@) is None
    { unimplemented!() }
}
#[verifier::external_body]
struct NaiveDate { }
impl NaiveDate {
    uninterp spec fn day(&self) -> int;
    #[verifier::external_body]
    fn parse_from_str(text: &str, format: &str) -> (r: Result<NaiveDate, ParseError>)
        ensures r matches Ok(t) ==> parsed_date(text@, format@) == Some(t.day()), r is Err ==> parsed_date(text@, format@) is None
    { unimplemented!() }
    #[verifier::external_body]
    fn and_hms(&self, h: u32, m: u32, s: u32) -> (r: NaiveDateTime)
        requires h < 24, m < 60, s < 60
        ensures r.at() == (Local { secs: self.day() * 86400 + h * 3600 + m * 60 + s, nanos: 0 })
    { unimplemented!() }
}
enum LocalResult<T> { None, Single(T), Ambiguous(T, T) }
impl Tz {
    #[verifier::external_body]
    fn from_local_datetime(&self, local: &NaiveDateTime) -> (r: LocalResult<DateTime<Tz>>)
        ensures match shown(*self, local.at()) {
            Shown::Never => r is None,
            Shown::Once(t) => r is Single && r->Single_0.at() == t,
            Shown::Twice => r is Ambiguous,
        }
    { unimplemented!() }
}
// crate::error::Error::Custom, imported by tz.rs
#[verifier::external_body]
fn Custom(t: String) -> Error { unimplemented!() }

// ---- what a time denotes: nanoseconds since the epoch, or nothing
spec fn nanos_of(t: Instant) -> Option<int> { if t.secs >= 0 && t.secs * 1_000_000_000 + t.nanos <= u64::MAX { Some(t.secs * 1_000_000_000 + t.nanos) } else { None } }
spec fn instant_in(tz: ChopperTz, local: Local) -> Option<Instant> {
    match tz.timezone { None => None, Some(z) => match shown(z, local) { Shown::Once(t) => Some(t), _ => None } }
}
spec fn nanos_in(tz: ChopperTz, local: Local) -> Option<int> { match instant_in(tz, local) { Some(t) => nanos_of(t), None => None } }
spec fn midnight(day: int) -> Local { Local { secs: day * 86400, nanos: 0 } }
spec fn per_unit(u: TimestampUnits) -> int {
    match u { TimestampUnits::Seconds => 1_000_000_000, TimestampUnits::Millis => 1_000_000, TimestampUnits::Micros => 1_000, TimestampUnits::Nanos => 1 }
}
spec fn gives<T>(r: CliResult<T>, v: Option<T>) -> bool { match v { Some(x) => r == Ok::<T, Error>(x), None => r is Err } }
spec fn gives_nanos(r: CliResult<u64>, v: Option<int>) -> bool { match v { Some(x) => r is Ok && r->Ok_0 == x, None => r is Err } }

impl ChopperTz {
    //@fn src/util/tz.rs | ChopperTz | from_local_datetime
        //@ret r
        //@spec
        ensures match instant_in(*self, local.at()) { Some(t) => r is Ok && r->Ok_0.at() == t, None => r is Err },
    //@end
}
//@fn src/util/timestamp_util.rs | - | to_nanos
    //@ret r
    //@spec
    ensures gives_nanos(r, nanos_of(datetime.at())),
//@end
mod timestamp_util { pub(crate) use super::to_nanos; }
//@item src/source/csv_timestamp.rs | enum | TimestampCol
//@item src/source/csv_timestamp.rs | enum | TimestampFmt
//@item src/source/csv_configs.rs | type | DateColIdx
//@item src/source/csv_configs.rs | type | TimeColIdx
#[verifier::external_body]
struct StringRecord { }
impl StringRecord {
    uninterp spec fn cells(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.cells().len() { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, i: usize) -> (r: Option<&str>)
        ensures r is Some <==> i < self.cells().len(), r matches Some(t) ==> t@ == self.cells()[i as int]
    { unimplemented!() }
}
// the text of a record's time, and its value
spec fn stamp(cells: Seq<Seq<char>>, col: TimestampCol) -> Option<Seq<char>> {
    match col {
        TimestampCol::Index(i) => if i < cells.len() { Some(cells[i as int]) } else { None },
        TimestampCol::DateTimeIndex(d, t) => if d < cells.len() && t < cells.len() { Some(cells[d as int].push('#') + cells[t as int]) } else { None },
    }
}
ghost enum Fmt { Units(TimestampUnits), Offset(Seq<char>), Zoned(Seq<char>), DateZoned(Seq<char>) }
spec fn fmt_view(f: TimestampFmt) -> Fmt {
    match f { TimestampFmt::Units(u) => Fmt::Units(u), TimestampFmt::DateTimeIncludesTz(s) => Fmt::Offset(s@), TimestampFmt::DateTimeNeedsExternalTz(s) => Fmt::Zoned(s@), TimestampFmt::DateNeedsExternalTz(s) => Fmt::DateZoned(s@) }
}
spec fn value_of(text: Seq<char>, fmt: Fmt, tz: ChopperTz) -> Option<int> {
    match fmt {
        Fmt::Units(u) => match u64_of(text) { Some(n) => if n * per_unit(u) <= u64::MAX { Some(n * per_unit(u)) } else { None }, None => None },
        Fmt::Offset(f) => match parsed_instant(text, f) { Some(t) => nanos_of(t), None => None },
        Fmt::Zoned(f) => match parsed_local(text, f) { Some(t) => nanos_in(tz, t), None => None },
        Fmt::DateZoned(f) => match parsed_date(text, f) { Some(d) => nanos_in(tz, midnight(d)), None => None },
    }
}
spec fn time_of(cells: Seq<Seq<char>>, col: TimestampCol, fmt: Fmt, tz: ChopperTz) -> Option<int> {
    match stamp(cells, col) { Some(text) => value_of(text, fmt, tz), None => None }
}
//@fn src/source/csv_timestamp.rs | - | get_column
    //@ret r
    //@spec
    ensures r is Ok <==> column_index < record.cells().len(), r matches Ok(t) ==> t@ == record.cells()[column_index as int],
//@end
//@fn src/source/csv_timestamp.rs | - | get_timestamp_string
    //@ret r
    //@rw «$s?.to_string()» => «owned($s?)» (std conversion as a function with a contract)
    //@rw «date.len()» => «byte_len(date)» (std method as a function with a contract)
    //@rw «time.len()» => «byte_len(time)» (std method as a function with a contract)
    //@spec
    ensures match stamp(record.cells(), *timestamp_col) { Some(t) => r is Ok && r->Ok_0@ == t, None => r is Err },
    //@start
    proof { reveal_strlit("#"); assert("#"@ =~= seq!['#']); assert forall|a: Seq<char>| #[trigger] (a + "#"@) == a.push('#') by { assert(a + "#"@ =~= a.push('#')); } }
//@end
//@fn src/source/csv_timestamp.rs | - | get_timestamp
    //@ret r
    //@spec
    ensures gives_nanos(r, time_of(record.cells(), *timestamp_col, fmt_view(*timestamp_fmt), *timezone)),
//@end
