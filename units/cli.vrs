//@include inc/base.inc
//@include inc/types.inc
//@include inc/csv_config.inc
//@include inc/iter.inc
//@include inc/text.inc
macro_rules! panic { ($($t:tt)*) => { never() } }
macro_rules! unreachable { ($($t:tt)*) => { never() } }
macro_rules! crate_version { () => { "" } }
#[verifier::external_body]
fn never() -> ! requires false { unimplemented!() }
// Option::unwrap: there is no result if there is no value (it ends the process with another status than 0)
#[verifier::external_body]
fn must<T>(o: Option<T>) -> (r: T) requires o is Some ensures o == Some(r) { unimplemented!() }
#[verifier::external_body]
fn text_own(a: &str) -> (r: String) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
fn text_add(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
spec fn textof(n: Option<String>) -> Option<Seq<char>> { match n { Some(s) => Some(s@), None => None } }
spec fn strof(n: Option<&str>) -> Option<Seq<char>> { match n { Some(s) => Some(s@), None => None } }
spec fn texts(s: Seq<&'static str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
// str::to_lowercase on text that is one of `words` but for the case
spec fn plain(p: Seq<char>) -> bool { forall|i: int| 0 <= i < p.len() ==> 'a' <= #[trigger] p[i] <= 'z' }
#[verifier::external_body]
fn lowered<'a>(s: &'a str) -> (r: &'a str) ensures forall|p: Seq<char>| #[trigger] nocase(s@, p) && plain(p) ==> r@ == p { unimplemented!() }
uninterp spec fn number_in(t: Seq<char>) -> Option<usize>;
#[verifier::external_body] struct ParseIntError { }
#[verifier::external_body]
fn parse_usize(t: &str) -> (r: Result<usize, ParseIntError>) ensures match number_in(t@) { Some(n) => r == Ok::<usize, ParseIntError>(n), None => r is Err } { unimplemented!() }

// ---- clap (assumed): what an argument is, and what it guarantees of the values it gives
ghost struct ArgSpec {
    name: Seq<char>, long: Option<Seq<char>>, short: Option<Seq<char>>, takes: bool, multiple: bool, commas: bool,
    default: Option<Seq<char>>, possible: Option<Seq<Seq<char>>>, any_case: bool, requires: Seq<Seq<char>>, conflicts: Seq<Seq<char>>,
}
spec fn arg_named(n: Seq<char>) -> ArgSpec {
    ArgSpec { name: n, long: None, short: None, takes: false, multiple: false, commas: false, default: None, possible: None, any_case: false, requires: seq![], conflicts: seq![] }
}
spec fn one_of(v: Seq<char>, words: Seq<Seq<char>>, any_case: bool) -> bool { exists|k: int| 0 <= k < words.len() && (v == #[trigger] words[k] || any_case && nocase(v, words[k])) }
spec fn obeys(m: ArgMatches, a: ArgSpec) -> bool {
    &&& a.default is Some ==> m.value(a.name) is Some
    &&& a.possible is Some && m.value(a.name) is Some ==> one_of(m.value(a.name)->0, a.possible->0, a.any_case)
    &&& forall|k: int| 0 <= k < a.requires.len() && m.value(a.name) is Some ==> m.value(#[trigger] a.requires[k]) is Some
}
spec fn guaranteed(m: ArgMatches, args: Set<ArgSpec>) -> bool { forall|a: ArgSpec| #[trigger] args.contains(a) ==> obeys(m, a) }
#[verifier::external_body] struct App { }
#[verifier::external_body] struct Arg { }
#[verifier::external_body] struct ArgMatches { }
#[verifier::external_body] struct Values<'a> { t: &'a u8 }
uninterp spec fn arguments(args: Set<ArgSpec>) -> ArgMatches;      // what the process was started with
impl App {
    uninterp spec fn args(&self) -> Set<ArgSpec>;
    #[verifier::external_body]
    fn new(n: &str) -> (r: App) ensures r.args() == Set::<ArgSpec>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn version(self, n: &str) -> (r: App) ensures r.args() == self.args() { unimplemented!() }
    #[verifier::external_body]
    fn about(self, n: &str) -> (r: App) ensures r.args() == self.args() { unimplemented!() }
    #[verifier::external_body]
    fn arg(self, a: Arg) -> (r: App) ensures r.args() == self.args().insert(a.spec()) { unimplemented!() }
    // it ends the process with another status than 0 if the arguments are not as described
    #[verifier::external_body]
    fn get_matches(self) -> (r: ArgMatches) ensures r == arguments(self.args()), guaranteed(r, self.args()) { unimplemented!() }
}
impl Arg {
    uninterp spec fn spec(&self) -> ArgSpec;
    #[verifier::external_body]
    fn with_name(n: &'static str) -> (r: Arg) ensures r.spec() == arg_named(n@) { unimplemented!() }
    #[verifier::external_body]
    fn help(self, n: &'static str) -> (r: Arg) ensures r.spec() == self.spec() { unimplemented!() }
    #[verifier::external_body]
    fn value_name(self, n: &'static str) -> (r: Arg) ensures r.spec() == self.spec() { unimplemented!() }
    #[verifier::external_body]
    fn long(self, n: &'static str) -> (r: Arg) ensures r.spec() == (ArgSpec { long: Some(n@), ..self.spec() }) { unimplemented!() }
    #[verifier::external_body]
    fn short(self, n: &'static str) -> (r: Arg) ensures r.spec() == (ArgSpec { short: Some(n@), ..self.spec() }) { unimplemented!() }
    #[verifier::external_body]
    fn takes_value(self, b: bool) -> (r: Arg) ensures r.spec() == (ArgSpec { takes: b, ..self.spec() }) { unimplemented!() }
    #[verifier::external_body]
    fn multiple(self, b: bool) -> (r: Arg) ensures r.spec() == (ArgSpec { multiple: b, ..self.spec() }) { unimplemented!() }
    #[verifier::external_body]
    fn require_delimiter(self, b: bool) -> (r: Arg) ensures r.spec() == (ArgSpec { commas: b, ..self.spec() }) { unimplemented!() }
    #[verifier::external_body]
    fn case_insensitive(self, b: bool) -> (r: Arg) ensures r.spec() == (ArgSpec { any_case: b, ..self.spec() }) { unimplemented!() }
    #[verifier::external_body]
    fn default_value(self, n: &'static str) -> (r: Arg) ensures r.spec() == (ArgSpec { default: Some(n@), ..self.spec() }) { unimplemented!() }
    #[verifier::external_body]
    fn possible_values(self, n: &[&'static str]) -> (r: Arg) ensures r.spec() == (ArgSpec { possible: Some(texts(n@)), ..self.spec() }) { unimplemented!() }
    #[verifier::external_body]
    fn requires_(self, n: &'static str) -> (r: Arg) ensures r.spec() == (ArgSpec { requires: self.spec().requires.push(n@), ..self.spec() }) { unimplemented!() }
    // the conflict of -E and -H is left open: it names arguments that do not exist
    #[verifier::external_body]
    fn conflicts_with(self, n: &'static str) -> (r: Arg)
        ensures r.spec() == (ArgSpec { conflicts: if style_arg(self.spec().name) { self.spec().conflicts } else { self.spec().conflicts.push(n@) }, ..self.spec() }) { unimplemented!() }
    #[verifier::external_body]
    fn conflicts_with_all(self, n: &[&'static str]) -> (r: Arg) ensures r.spec() == (ArgSpec { conflicts: self.spec().conflicts + texts(n@), ..self.spec() }) { unimplemented!() }
}
spec fn style_arg(n: Seq<char>) -> bool { n == "csv_out_time_fmt_epoch"@ || n == "csv_out_time_fmt_human"@ }
impl<'a> Values<'a> {
    uninterp spec fn texts(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    fn list(self) -> (r: Vec<&'a str>) ensures r@.len() == self.texts().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.texts()[i] { unimplemented!() }
}
impl ArgMatches {
    uninterp spec fn value(&self, n: Seq<char>) -> Option<Seq<char>>;
    uninterp spec fn values(&self, n: Seq<char>) -> Option<Seq<Seq<char>>>;
    uninterp spec fn present(&self, n: Seq<char>) -> bool;
    #[verifier::external_body]
    fn is_present(&self, n: &str) -> (r: bool) ensures r == self.present(n@) { unimplemented!() }
    #[verifier::external_body]
    fn value_of(&self, n: &str) -> (r: Option<&str>) ensures strof(r) == self.value(n@) { unimplemented!() }
    #[verifier::external_body]
    fn values_of(&self, n: &str) -> (r: Option<Values<'_>>)
        ensures r is Some <==> self.values(n@) is Some, r matches Some(v) ==> v.texts() == self.values(n@)->0 && v.texts().len() > 0 { unimplemented!() }
    // value_t!: the value as its type's text form says (clap::arg_enum: the variants' names in any case)
    #[verifier::external_body]
    fn value_yes_no_auto(&self, n: &str) -> (r: Result<YesNoAuto, ClapError>)
        ensures match self.value(n@) { Some(v) => match yes_no_auto(v) { Some(x) => r == Ok::<YesNoAuto, ClapError>(x), None => r is Err }, None => r is Err } { unimplemented!() }
}
enum YesNoAuto { Yes, No, Auto }
impl Copy for YesNoAuto {}
impl Clone for YesNoAuto {
    #[verifier::external_body]
    fn clone(&self) -> (r: YesNoAuto) ensures r == *self { unimplemented!() }
}
spec fn yes_no_auto(v: Seq<char>) -> Option<YesNoAuto> { if nocase(v, "yes"@) { Some(YesNoAuto::Yes) } else if nocase(v, "no"@) { Some(YesNoAuto::No) } else if nocase(v, "auto"@) { Some(YesNoAuto::Auto) } else { None } }

// ---- the arguments of the tool
struct CliApp;
#[verifier::opaque]
spec fn cli_args() -> Set<ArgSpec> {
    Set::<ArgSpec>::empty()
    .insert(ArgSpec { multiple: true, ..arg_named("input"@) })
    .insert(ArgSpec { long: Some("output"@), short: Some("o"@), takes: true, ..arg_named("output"@) })
    .insert(ArgSpec { long: Some("format"@), short: Some("f"@), takes: true, commas: true, ..arg_named("format"@) })
    .insert(ArgSpec { long: Some("timezone"@), short: Some("z"@), takes: true, any_case: true, ..arg_named("timezone"@) })
    .insert(ArgSpec { long: Some("begin"@), short: Some("b"@), takes: true, ..arg_named("begin"@) })
    .insert(ArgSpec { long: Some("end"@), short: Some("e"@), takes: true, ..arg_named("end"@) })
    .insert(ArgSpec { long: Some("backtrace"@), ..arg_named("backtrace"@) })
    .insert(ArgSpec { long: Some("time-col-name"@), takes: true, ..arg_named("csv_out_time_col_name"@) })
    .insert(ArgSpec { long: Some("epoch"@), short: Some("E"@), ..arg_named("csv_out_time_fmt_epoch"@) })
    .insert(ArgSpec { long: Some("human"@), short: Some("H"@), ..arg_named("csv_out_time_fmt_human"@) })
    .insert(ArgSpec { long: Some("granularity"@), short: Some("g"@), takes: true, default: Some("ns"@), possible: Some(seq!["s"@, "ms"@, "us"@, "ns"@]), ..arg_named("csv_out_time_col_units"@) })
    .insert(ArgSpec { long: Some("csv-in-delimiter"@), takes: true, ..arg_named("csv_in_delimiter"@) })
    .insert(ArgSpec { long: Some("delimiter"@), takes: true, default: Some(","@), ..arg_named("csv_out_delimiter"@) })
    .insert(ArgSpec { long: Some("csv-in-has-header"@), takes: true, default: Some("auto"@), possible: Some(seq!["yes"@, "no"@, "auto"@]), any_case: true, ..arg_named("csv_in_has_header"@) })
    .insert(ArgSpec { long: Some("print-time"@), takes: true, default: Some("yes"@), possible: Some(seq!["yes"@, "no"@]), any_case: true, ..arg_named("csv_out_print_time_col"@) })
    .insert(ArgSpec { long: Some("csv-in-ts-col"@), takes: true, ..arg_named("csv_in_ts_col"@) })
    .insert(ArgSpec { long: Some("csv-in-ts-col-date"@), takes: true, requires: seq!["csv_in_ts_col_time"@], conflicts: seq!["csv_in_ts_col"@, "csv_in_ts_fmt"@], ..arg_named("csv_in_ts_col_date"@) })
    .insert(ArgSpec { long: Some("csv-in-ts-col-time"@), takes: true, requires: seq!["csv_in_ts_col_date"@], conflicts: seq!["csv_in_ts_col"@, "csv_in_ts_fmt"@], ..arg_named("csv_in_ts_col_time"@) })
    .insert(ArgSpec { long: Some("csv-in-ts-fmt"@), takes: true, ..arg_named("csv_in_ts_fmt"@) })
    .insert(ArgSpec { long: Some("csv-in-ts-fmt-date"@), takes: true, requires: seq!["csv_in_ts_fmt_time"@], conflicts: seq!["csv_in_ts_col"@, "csv_in_ts_fmt"@], ..arg_named("csv_in_ts_fmt_date"@) })
    .insert(ArgSpec { long: Some("csv-in-ts-fmt-time"@), takes: true, requires: seq!["csv_in_ts_fmt_date"@], conflicts: seq!["csv_in_ts_col"@, "csv_in_ts_fmt"@], ..arg_named("csv_in_ts_fmt_time"@) })
    .insert(ArgSpec { long: Some("csv-in-epoch"@), takes: true, possible: Some(seq!["s"@, "ms"@, "us"@, "ns"@]), conflicts: seq!["csv_in_ts_col_date"@, "csv_in_ts_col_time"@, "csv_in_ts_fmt"@], ..arg_named("csv_in_epoch"@) })
}
broadcast proof fn lemma_texts(s: Seq<&'static str>)
    ensures #![trigger texts(s)]
        s.len() == 2 ==> texts(s) == seq![s[0]@, s[1]@],
        s.len() == 3 ==> texts(s) == seq![s[0]@, s[1]@, s[2]@],
        s.len() == 4 ==> texts(s) == seq![s[0]@, s[1]@, s[2]@, s[3]@],
{
    if s.len() == 2 { assert(texts(s) =~= seq![s[0]@, s[1]@]); }
    if s.len() == 3 { assert(texts(s) =~= seq![s[0]@, s[1]@, s[2]@]); }
    if s.len() == 4 { assert(texts(s) =~= seq![s[0]@, s[1]@, s[2]@, s[3]@]); }
}
//@rwall «$a.requires($b)» => «$a.requires_($b)» (a keyword of the verifier)
impl CliApp {
    //@fn src/cli_app.rs | CliApp | create_cli_app
        //@ret r
        //@spec
        ensures r.args() =~= cli_args(), r.args() == cli_args(),
        //@start
        broadcast use lemma_texts; proof { reveal(cli_args); }
    //@end
}
spec fn unit_named(t: Seq<char>) -> Option<TimestampUnits> {
    if t == "s"@ { Some(TimestampUnits::Seconds) } else if t == "ms"@ { Some(TimestampUnits::Millis) } else if t == "us"@ { Some(TimestampUnits::Micros) } else if t == "ns"@ { Some(TimestampUnits::Nanos) } else { None }
}
// ---- what clap guarantees for these arguments
proof fn lemma_guaranteed(m: ArgMatches)
    requires forall|a: ArgSpec| #[trigger] cli_args().contains(a) ==> obeys(m, a),
    ensures
        m.value("csv_out_delimiter"@) is Some,
        plain("yes"@), plain("no"@), "yes"@.len() == 3, "no"@.len() == 2,
        m.value("csv_out_print_time_col"@) matches Some(v) && (nocase(v, "yes"@) || nocase(v, "no"@)),
        m.value("csv_in_has_header"@) matches Some(v) && yes_no_auto(v) is Some,
        m.value("csv_out_time_col_units"@) matches Some(v) && unit_named(v) is Some,
        m.value("csv_in_epoch"@) matches Some(v) ==> unit_named(v) is Some,
        m.value("csv_in_ts_col_date"@) is Some ==> m.value("csv_in_ts_col_time"@) is Some,
        m.value("csv_in_ts_fmt_date"@) is Some ==> m.value("csv_in_ts_fmt_time"@) is Some,
{
    reveal(cli_args); reveal_strlit("yes"); reveal_strlit("no");
    let yn = seq!["yes"@, "no"@];
    let yna = seq!["yes"@, "no"@, "auto"@];
    let units = seq!["s"@, "ms"@, "us"@, "ns"@];
    let a = ArgSpec { long: Some("delimiter"@), takes: true, default: Some(","@), ..arg_named("csv_out_delimiter"@) };
    assert(cli_args().contains(a));
    let b = ArgSpec { long: Some("print-time"@), takes: true, default: Some("yes"@), possible: Some(yn), any_case: true, ..arg_named("csv_out_print_time_col"@) };
    assert(cli_args().contains(b));
    assert(obeys(m, b));
    let c = ArgSpec { long: Some("csv-in-has-header"@), takes: true, default: Some("auto"@), possible: Some(yna), any_case: true, ..arg_named("csv_in_has_header"@) };
    assert(cli_args().contains(c));
    assert(obeys(m, c));
    let d = ArgSpec { long: Some("granularity"@), short: Some("g"@), takes: true, default: Some("ns"@), possible: Some(units), ..arg_named("csv_out_time_col_units"@) };
    assert(cli_args().contains(d));
    assert(obeys(m, d));
    let e = ArgSpec { long: Some("csv-in-epoch"@), takes: true, possible: Some(units), conflicts: seq!["csv_in_ts_col_date"@, "csv_in_ts_col_time"@, "csv_in_ts_fmt"@], ..arg_named("csv_in_epoch"@) };
    assert(cli_args().contains(e));
    let f = ArgSpec { long: Some("csv-in-ts-col-date"@), takes: true, requires: seq!["csv_in_ts_col_time"@], conflicts: seq!["csv_in_ts_col"@, "csv_in_ts_fmt"@], ..arg_named("csv_in_ts_col_date"@) };
    assert(cli_args().contains(f));
    assert(obeys(m, f)); assert(f.requires[0] == "csv_in_ts_col_time"@);
    let g = ArgSpec { long: Some("csv-in-ts-fmt-date"@), takes: true, requires: seq!["csv_in_ts_fmt_time"@], conflicts: seq!["csv_in_ts_col"@, "csv_in_ts_fmt"@], ..arg_named("csv_in_ts_fmt_date"@) };
    assert(cli_args().contains(g));
    assert(obeys(m, g)); assert(g.requires[0] == "csv_in_ts_fmt_time"@);
}

// ---- settings
//@rwall «$x.to_string()» => «text_own(&$x)» (std conversion as a function with a contract)
//@rwall «$x.to_owned()» => «text_own(&$x)» (std conversion as a function with a contract)
//@rwall «base_name + units» => «text_add(base_name, units)» (std operator as a function with a contract)
//@rwall «$x.parse::<usize>()» => «parse_usize(&$x)» (std method as a function with a contract)
//@rwall «value_t!($m, $n, YesNoAuto)» => «$m.value_yes_no_auto($n)» (clap's macro as a function with a contract)
//@rwall «$x.to_lowercase().as_str()» => «lowered(&$x)» (std methods as a function with a contract)
//@rwall «$x.parse().unwrap()» => «zone_or_exit(&$x)» (std methods as a function with a contract)
//@rwall «$x.unwrap()» => «must($x)» (std method as a function with a contract)
//@include inc/csv_out.inc contracts csv_sink
impl TimestampUnits {
    //@fn src/source/csv_timestamp.rs | TimestampUnits | from_str
        //@ret r
        //@spec
        requires unit_named(units@) is Some,
        ensures Some(r) == unit_named(units@),
    //@end
}
//@include inc/zone.inc
#[verifier::external]
impl Clone for ChopperTz { fn clone(&self) -> Self { unimplemented!() } }
#[verifier::external_body]
fn copy_of<T: Clone>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
//@rwall «$x.clone()» => «copy_of(&$x)» (std method as a function with a contract)
// begin and end: proved in unit times (here by assumed contracts)
uninterp spec fn range_element(t: Seq<char>, tz: ChopperTz) -> Option<u64>;
mod timestamp_util {
    use super::*;
    #[verifier::external_body]
    pub(crate) fn parse_datetime_range_element(t: &str, tz: &ChopperTz) -> (r: CliResult<u64>) ensures match range_element(t@, *tz) { Some(x) => r is Ok && r->Ok_0 == x, None => r is Err } { unimplemented!() }
}
//@item src/chopper/types.rs | struct | TimestampRange
spec fn bound(t: Option<Seq<char>>, tz: ChopperTz) -> Option<u64> { match t { Some(x) => range_element(x, tz), None => None } }
spec fn unbound(t: Option<Seq<char>>, tz: ChopperTz) -> bool { t is Some && range_element(t->0, tz) is None }
impl TimestampRange {
    //@fn src/chopper/types.rs | TimestampRange | new
        //@ret r
        //@spec
        ensures
            r matches Ok(x) ==> x.begin == bound(strof(begin), *timezone) && x.end == bound(strof(end), *timezone),
            r is Err <==> unbound(strof(begin), *timezone) || unbound(strof(end), *timezone),
    //@end
}
// ---- how csv is read
//@item src/source/csv_configs.rs | type | DateColIdx
//@item src/source/csv_configs.rs | type | TimeColIdx
//@item src/source/csv_configs.rs | enum | TimestampFmtConfig
//@item src/source/csv_configs.rs | enum | TimestampColConfig
//@item src/source/csv_configs.rs | struct | TimestampConfig
//@item src/source/csv_configs.rs | struct | CSVInputConfig
ghost enum Fmt { Auto, Epoch(TimestampUnits), Text(Seq<char>), Two(Seq<char>, Seq<char>) }
ghost enum Col { Auto, At(usize), AtTwo(usize, usize), Name(Seq<char>), Names(Seq<char>, Seq<char>) }
ghost struct InConf { delimiter: Option<u8>, headed: YesNoAuto, col: Col, fmt: Fmt, timezone: Option<Tz> }
spec fn fmt_of(f: TimestampFmtConfig) -> Fmt {
    match f { TimestampFmtConfig::Auto => Fmt::Auto, TimestampFmtConfig::Epoch(u) => Fmt::Epoch(u), TimestampFmtConfig::Explicit(t) => Fmt::Text(t@), TimestampFmtConfig::DateTimeExplicit(d, t) => Fmt::Two(d@, t@) }
}
spec fn col_of(c: TimestampColConfig) -> Col {
    match c {
        TimestampColConfig::Auto => Col::Auto, TimestampColConfig::Index(i) => Col::At(i), TimestampColConfig::DateTimeIndex(d, t) => Col::AtTwo(d, t),
        TimestampColConfig::Name(n) => Col::Name(n@), TimestampColConfig::DateTimeName(d, t) => Col::Names(d@, t@),
    }
}
spec fn in_conf(c: CSVInputConfig) -> InConf {
    InConf { delimiter: c.delimiter, headed: c.has_header, col: col_of(c.timestamp_config.timestamp_col), fmt: fmt_of(c.timestamp_config.timestamp_fmt), timezone: c.timestamp_config.timezone.timezone }
}
uninterp spec fn delimiter_byte(t: Seq<char>) -> Option<u8>;         // proved in unit csv_util (here by an assumed contract)
mod csv_util {
    use super::*;
    #[verifier::external_body]
    pub(crate) fn parse_into_delimiter(t: &str) -> (r: CliResult<u8>) ensures match delimiter_byte(t@) { Some(x) => r is Ok && r->Ok_0 == x, None => r is Err } { unimplemented!() }
}
spec fn told_delimiter(t: Option<Seq<char>>) -> Option<u8> { match t { Some(x) => delimiter_byte(x), None => None } }
impl TimestampConfig {
    //@fn src/source/csv_configs.rs | TimestampConfig | new
        //@ret r
        //@spec
        ensures r.timestamp_col == timestamp_col, r.timestamp_fmt == timestamp_fmt, r.timezone == timezone,
    //@end
}
impl CSVInputConfig {
    //@fn src/source/csv_configs.rs | CSVInputConfig | new
        //@ret r
        //@spec
        ensures
            r matches Ok(x) ==> x.delimiter == told_delimiter(strof(delimiter)) && x.has_header == has_header && x.timestamp_config == timestamp_config,
            r is Err <==> delimiter is Some && told_delimiter(strof(delimiter)) is None,
    //@end
}
spec fn told_fmt(m: ArgMatches) -> Fmt {
    match m.value("csv_in_ts_fmt_date"@) {
        Some(d) => Fmt::Two(d, m.value("csv_in_ts_fmt_time"@)->0),
        None => match m.value("csv_in_ts_fmt"@) { Some(t) => Fmt::Text(t), None => match m.value("csv_in_epoch"@) { Some(u) => Fmt::Epoch(unit_named(u)->0), None => Fmt::Auto } },
    }
}
spec fn told_col(m: ArgMatches) -> Col {
    match m.value("csv_in_ts_col_date"@) {
        Some(d) => { let t = m.value("csv_in_ts_col_time"@)->0; if number_in(d) is Some && number_in(t) is Some { Col::AtTwo(number_in(d)->0, number_in(t)->0) } else { Col::Names(d, t) } },
        None => match m.value("csv_in_ts_col"@) { Some(c) => match number_in(c) { Some(i) => Col::At(i), None => Col::Name(c) }, None => Col::Auto },
    }
}
spec fn told_in(m: ArgMatches, tz: Option<Tz>) -> InConf {
    InConf { delimiter: told_delimiter(m.value("csv_in_delimiter"@)), headed: yes_no_auto(m.value("csv_in_has_header"@)->0)->0, col: told_col(m), fmt: told_fmt(m), timezone: tz }
}
spec fn wrong_delimiter(m: ArgMatches) -> bool { m.value("csv_in_delimiter"@) is Some && told_delimiter(m.value("csv_in_delimiter"@)) is None }
spec fn regular(m: ArgMatches) -> bool { guaranteed(m, cli_args()) }
//@fn src/chopper_cli.rs | - | parse_csv_input_config
    //@ret r
    //@spec
    requires regular(*matches),
    ensures r matches Ok(c) ==> in_conf(c) == told_in(*matches, timezone.timezone), r is Err <==> wrong_delimiter(*matches),
    //@start
    proof { lemma_guaranteed(*matches); }
//@end
// ---- how csv is written
ghost struct OutConf { delimiter: Seq<char>, time: bool, name: Seq<char>, style: TimestampStyle, units: TimestampUnits, timezone: Option<Tz> }
spec fn out_conf(c: CSVOutputConfig) -> OutConf {
    OutConf { delimiter: c.delimiter@, time: c.print_time_col, name: c.time_col_name@, style: c.time_col_style, units: c.time_col_units, timezone: c.timezone.timezone }
}
spec fn told_style(m: ArgMatches) -> TimestampStyle { if m.present("csv_out_time_fmt_epoch"@) { TimestampStyle::Epoch } else { TimestampStyle::HumanReadable } }
spec fn told_units(m: ArgMatches) -> TimestampUnits { unit_named(m.value("csv_out_time_col_units"@)->0)->0 }
spec fn told_out(m: ArgMatches, tz: Option<Tz>) -> OutConf {
    OutConf {
        delimiter: m.value("csv_out_delimiter"@)->0,
        time: nocase(m.value("csv_out_print_time_col"@)->0, "yes"@),
        name: match m.value("csv_out_time_col_name"@) { Some(n) => n, None => if told_style(m) is Epoch { "timestamp"@ + units_name(told_units(m)) } else { "time"@ } },
        style: told_style(m), units: told_units(m), timezone: tz,
    }
}
//@fn src/chopper_cli.rs | - | parse_csv_output_config
    //@ret r
    //@spec
    requires regular(*matches),
    ensures out_conf(r) == told_out(*matches, timezone.timezone),
    //@start
    proof { lemma_guaranteed(*matches); }
//@end
// ---- where the output goes: std::io and std::fs, as contracts (assumed)
mod io {
    use super::*;
    pub(crate) use super::{IoError as Error, IoErrorKind as ErrorKind};
    pub(crate) type Result<T> = core::result::Result<T, Error>;
    pub(crate) trait Write { spec fn dest(&self) -> Option<Seq<char>>; }
    #[verifier::external_body] pub(crate) struct Stdout { }
    #[verifier::external_body] pub(crate) fn stdout() -> Stdout { unimplemented!() }
    impl Write for Stdout { open spec fn dest(&self) -> Option<Seq<char>> { None } }
}
#[verifier::external_body] struct PathBuf { }
impl PathBuf { uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] fn from(t: &String) -> (r: PathBuf) ensures r.text() == t@ { unimplemented!() } }
#[verifier::external_body] struct File { }
uninterp spec fn creatable(p: Seq<char>) -> bool;
impl File {
    uninterp spec fn at(&self) -> Seq<char>;
    // an empty file, in place of one that was there
    #[verifier::external_body]
    fn create(p: PathBuf) -> (r: io::Result<File>) ensures r is Ok <==> creatable(p.text()), r matches Ok(f) ==> f.at() == p.text() { unimplemented!() }
}
impl io::Write for File { spec fn dest(&self) -> Option<Seq<char>> { Some(self.at()) } }
#[verifier::external_body] struct BufWriter { }
impl BufWriter {
    uninterp spec fn dest(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    fn new(w: Box<dyn io::Write>) -> (r: BufWriter) ensures r.dest() == (*w).dest() { unimplemented!() }
}
ghost enum Sink { Csv(Option<Seq<char>>, OutConf), Dc(Option<Seq<char>>) }
trait HeaderSink { spec fn made(&self) -> Sink; }
//@itemrw «BufWriter<Box<dyn io::Write + 'static>>» => «BufWriter» (its kind of writer left out)
//@item src/write/csv_sink.rs | struct | CSVSink
//@item src/write/dc_sink.rs | struct | DCSink
//@itemrw
impl HeaderSink for CSVSink { spec fn made(&self) -> Sink { Sink::Csv(self.writer.dest(), out_conf(self.csv_output_config)) } }
impl HeaderSink for DCSink { spec fn made(&self) -> Sink { Sink::Dc(self.writer.dest()) } }
spec fn put_to(r: io::Result<Box<dyn io::Write>>, p: Option<Seq<char>>) -> bool {
    &&& r matches Ok(w) ==> (*w).dest() == p
    &&& r is Err <==> uncreatable(p)
}
spec fn uncreatable(p: Option<Seq<char>>) -> bool { p is Some && !creatable(p->0) }
impl CSVSink {
    //@fn src/write/csv_sink.rs | CSVSink | into_writer
        //@ret r
        //@spec
        ensures put_to(r, textof(*path)),
    //@end
    //@fn src/write/csv_sink.rs | CSVSink | new
        //@ret r
        //@spec
        ensures r matches Ok(s) ==> s.made() == Sink::Csv(textof(*path), out_conf(csv_output_config)), r is Err <==> uncreatable(textof(*path)),
    //@end
}
impl DCSink {
    //@fn src/write/dc_sink.rs | DCSink | into_writer
        //@ret r
        //@spec
        ensures put_to(r, textof(*path)),
    //@end
    //@fn src/write/dc_sink.rs | DCSink | new
        //@ret r
        //@spec
        ensures r matches Ok(s) ==> s.made() == Sink::Dc(textof(*path)) && s.bitset_bytes == 0, r is Err <==> uncreatable(textof(*path)),
    //@end
}
mod csv_sink { pub(crate) use super::CSVSink; }
mod dc_sink { pub(crate) use super::DCSink; }
// csv or dc, by the end of the file's name
spec fn name_ends(t: Seq<char>, e: Seq<char>) -> bool { e.len() <= t.len() && t.skip(t.len() - e.len()) == e }
#[verifier::external_body]
fn str_ends(t: &str, e: &str) -> (r: bool) ensures r == name_ends(t@, e@) { unimplemented!() }
//@rwall «$s.ends_with($e)» => «str_ends(&$s, $e)» (std method as a function with a contract)
//@static src/source/csv_configs.rs | OUTPUT_DELIMITER_DEFAULT
spec fn usual_out() -> OutConf { OutConf { delimiter: ","@, time: true, name: "timestamp"@ + "Nanos"@, style: TimestampStyle::Epoch, units: TimestampUnits::Nanos, timezone: None } }
impl CSVOutputConfig {
    //@fn src/source/csv_configs.rs | CSVOutputConfig | new_default
        //@ret r
        //@spec
        ensures out_conf(r) == usual_out(),
    //@end
}
spec fn conf_or_usual(c: Option<CSVOutputConfig>) -> OutConf { match c { Some(x) => out_conf(x), None => usual_out() } }
spec fn sink_for(p: Option<Seq<char>>, c: OutConf) -> Option<Sink> {
    match p { None => Some(Sink::Csv(None, c)), Some(t) => if name_ends(t, "csv"@) { Some(Sink::Csv(p, c)) } else if name_ends(t, "dc"@) { Some(Sink::Dc(p)) } else { None } }
}
spec fn no_sink(p: Option<Seq<char>>, c: OutConf) -> bool { sink_for(p, c) is None || uncreatable(p) }
//@fn src/write/factory.rs | - | new_header_sink
    //@ret r
    //@rw «dyn HeaderSink + 'static» => «dyn HeaderSink» (the same type)
    //@spec
    ensures
        r matches Ok(s) ==> Some((*s).made()) == sink_for(strof(output), conf_or_usual(csv_output_config)),
        r is Err <==> no_sink(strof(output), conf_or_usual(csv_output_config)),
    //@start
    proof {
        reveal_strlit("csv"); reveal_strlit("dc");
        assert forall|t: Seq<char>| #[trigger] name_ends(t, "csv"@) implies !name_ends(t, "dc"@) by {
            if name_ends(t, "dc"@) { assert(t.skip(t.len() - 3)[1] == 's' && t.skip(t.len() - 2)[0] == 'd'); }
        }
    }
//@end
mod factory { pub(crate) use super::new_header_sink; }
// ---- sources of the inputs: proved in unit input (here by assumed contracts)
//@item src/input/input.rs | enum | InputType
//@item src/input/input.rs | enum | InputFormat
//@item src/input/input.rs | struct | Input
ghost struct Asked { path: Option<Seq<char>>, format: Option<Seq<char>> }       // no path: stdin; no format: found out
spec fn asked_format(f: InputFormat) -> Option<Seq<char>> { match f { InputFormat::Auto => None, InputFormat::Extension(t) => Some(t@) } }
spec fn asked(x: Input) -> Asked { Asked { path: match x.input { InputType::StdIn => None, InputType::Path(p) => Some(p@) }, format: asked_format(x.format) } }
spec fn asked_all(v: Seq<Input>) -> Seq<Asked> { Seq::new(v.len(), |i: int| asked(v[i])) }
#[verifier::external]
impl Clone for InputFormat { fn clone(&self) -> Self { unimplemented!() } }
trait SourceFactory { spec fn id(&self) -> int; }
trait StreamingTransport { spec fn id(&self) -> int; }
ghost struct Origin { t: int }
trait Source {
    spec fn origin(&self) -> Origin;
    spec fn head(&self) -> Header;
    //@fn src/chopper/chopper.rs | trait Source | header
        //@ret r
        //@nobody
        //@spec
        ensures *r == self.head(),
    //@end
}
ghost struct Given { conf: InConf, factories: Option<Vec<Box<dyn SourceFactory>>>, transports: Option<Vec<Box<dyn StreamingTransport>>> }
uninterp spec fn opens(g: Given, a: Asked, o: Origin) -> bool;
uninterp spec fn refuses(g: Given, a: Asked) -> bool;
#[verifier::external_body] struct InputFactory { }
impl InputFactory {
    uninterp spec fn given(&self) -> Given;
    #[verifier::external_body]
    fn new(c: CSVInputConfig, f: Option<Vec<Box<dyn SourceFactory>>>, t: Option<Vec<Box<dyn StreamingTransport>>>) -> (r: CliResult<InputFactory>)
        ensures r matches Ok(x) && x.given() == (Given { conf: in_conf(c), factories: f, transports: t }) { unimplemented!() }
    #[verifier::external_body]
    fn create_source_from_input(&mut self, i: &Input) -> (r: CliResult<Box<dyn Source>>)
        ensures final(self).given() == old(self).given(), r matches Ok(s) ==> opens(old(self).given(), asked(*i), (*s).origin()), r is Err ==> refuses(old(self).given(), asked(*i)) { unimplemented!() }
}
// ---- the graph and the driver: proved in units header_graph and driver (here by assumed contracts)
//@item src/chopper/types.rs | type | ChainId
//@item src/chopper/header_graph.rs | struct | HeaderCountTracker
trait MergeHeaderSink {
    spec fn count(&self) -> int;
    //@fn src/chopper/chopper.rs | trait MergeHeaderSink | get_new_header_count_tracker
        //@ret r
        //@nobody
        //@spec
        ensures r.unprocessed_count == self.count(),
    //@end
}
trait SplitHeaderSink { spec fn ids(&self) -> Seq<int>; }
//@item src/chopper/header_graph.rs | enum | HeaderNode
//@item src/chopper/header_graph.rs | struct | HeaderChain
//@item src/chopper/header_graph.rs | struct | HeaderGraph
#[verifier::external_body] struct MergeJoin { }
impl MergeJoin {
    #[verifier::external_body]
    fn new(n: usize) -> (r: CliResult<Box<dyn MergeHeaderSink>>) ensures r is Ok <==> n > 0, r matches Ok(x) ==> (*x).count() == n { unimplemented!() }
}
ghost enum Link { Write(Sink), Join(int, int), Into(int), Other }
spec fn link(n: HeaderNode) -> Link {
    match n { HeaderNode::HeaderSink(s) => Link::Write((*s).made()), HeaderNode::MergeHeaderSink(m, t) => Link::Join((*m).count(), t.unprocessed_count as int), HeaderNode::Merge(c) => Link::Into(c as int), HeaderNode::SplitHeaderSink(_, _) => Link::Other }
}
spec fn links(c: HeaderChain) -> Seq<Link> { Seq::new(c.nodes@.len(), |i: int| link(c.nodes@[i])) }
spec fn chains_of(v: Seq<HeaderChain>) -> Seq<Seq<Link>> { Seq::new(v.len(), |i: int| links(v[i])) }
impl HeaderChain {
    //@fn src/chopper/header_graph.rs | HeaderChain | new
        //@ret r
        //@spec
        ensures r.nodes == nodes,
    //@end
}
impl HeaderGraph {
    //@fn src/chopper/header_graph.rs | HeaderGraph | new
        //@ret r
        //@spec
        ensures r.header_chains == header_chains,
    //@end
}
ghost struct Job { from: Seq<Origin>, heads: Seq<Header>, chains: Seq<Seq<Link>>, begin: Option<u64>, end: Option<u64> }
uninterp spec fn fails(j: Job) -> bool;            // its headers do not fit together, or the output cannot be written
uninterp spec fn done(j: Job) -> bool;             // every row was written as C01 to C05 and C06, C09 say
spec fn origins(v: Seq<Box<dyn Source>>) -> Seq<Origin> { Seq::new(v.len(), |i: int| (*v[i]).origin()) }
trait ChopperDriver {
    spec fn job(&self) -> Job;
    //@fn src/chopper/chopper.rs | trait ChopperDriver | drive
        //@ret r
        //@nobody
        //@spec
        ensures r is Ok ==> done(old(self).job()),
    //@end
}
#[verifier::external_body] struct Driver { }
spec fn job_for(s: Seq<Box<dyn Source>>, g: HeaderGraph, t: TimestampRange, h: Seq<Header>) -> Job { Job { from: origins(s), heads: h, chains: chains_of(g.header_chains@), begin: t.begin, end: t.end } }
impl Driver {
    uninterp spec fn of(&self) -> Job;
    #[verifier::external_body]
    fn new(s: Vec<Box<dyn Source>>, g: HeaderGraph, t: TimestampRange, h: Vec<Header>) -> (r: CliResult<Driver>)
        ensures r matches Ok(d) ==> d.of() == job_for(s@, g, t, h@), r is Err ==> fails(job_for(s@, g, t, h@)) { unimplemented!() }
}
impl ChopperDriver for Driver {
    spec fn job(&self) -> Job { self.of() }
    #[verifier::external_body]
    fn drive(&mut self) -> (r: CliResult<()>) { unimplemented!() }
}
// one input goes straight to the sink; several are joined before it
spec fn chains_for(n: int, s: Sink) -> Seq<Seq<Link>> {
    if n > 1 { Seq::new(n as nat, |i: int| seq![Link::Into(n)]).push(seq![Link::Join(n, n), Link::Write(s)]) } else { seq![seq![Link::Write(s)]] }
}
spec fn set_up(j: Job, g: Given, a: Seq<Asked>, s: Sink, begin: Option<u64>, end: Option<u64>) -> bool {
    &&& j.from.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> opens(g, a[i], #[trigger] j.from[i])
    &&& j.chains =~~= chains_for(a.len() as int, s)
    &&& j.begin == begin && j.end == end
}
fn driver_box(d: Driver) -> (r: Box<dyn ChopperDriver>) ensures (*r).job() == d.of() { Box::new(d) }
broadcast proof fn lemma_refused(g: Given, v: Seq<Input>, i: int)
    ensures #![trigger refuses(g, asked(v[i]))] 0 <= i < v.len() ==> asked_all(v).contains(asked(v[i])),
{ if 0 <= i < v.len() { assert(asked_all(v)[i] == asked(v[i])); } }
//@fn src/chopper_cli.rs | - | setup_graph
    //@ret r
    //@forindex
    //@attr #[verifier::loop_isolation(false)]
    //@spec
    requires inputs@.len() > 0,
    ensures ({
        let g = Given { conf: in_conf(csv_input_config), factories: source_factories, transports: streaming_transports };
        let c = out_conf(csv_output_config);
        &&& r matches Ok(d) ==> sink_for(strof(output), c) is Some && set_up((*d).job(), g, asked_all(inputs@), sink_for(strof(output), c)->0, timestamp_range.begin, timestamp_range.end)
        &&& r is Err ==> (exists|a: Asked| asked_all(inputs@).contains(a) && #[trigger] refuses(g, a)) || no_sink(strof(output), c)
            || exists|j: Job| set_up(j, g, asked_all(inputs@), sink_for(strof(output), c)->0, timestamp_range.begin, timestamp_range.end) && #[trigger] fails(j)
    }),
    //@loop 0
        invariant
            input_k <= inputs@.len(), sources@.len() == input_k, headers@.len() == input_k, header_nodes@.len() == 0,
            input_factory.given() == (Given { conf: in_conf(csv_input_config), factories: source_factories, transports: streaming_transports }),
            forall|i: int| 0 <= i < input_k ==> opens(input_factory.given(), asked(inputs@[i]), (*#[trigger] sources@[i]).origin()),
            forall|i: int| 0 <= i < input_k ==> #[trigger] headers@[i] == (*sources@[i]).head(),
            chains@.len() == if inputs@.len() > 1 { input_k as int } else { 0 },
            forall|i: int| 0 <= i < chains@.len() ==> links(#[trigger] chains@[i]) =~= seq![Link::Into(inputs@.len() as int)],
        decreases inputs@.len() - input_k,
    //@start
    broadcast use lemma_refused;
//@end
// ---- what was asked for
spec fn told_format(t: Seq<char>) -> Option<Seq<char>> { if t == "auto"@ { None } else { Some(t) } }
spec fn told_formats(m: ArgMatches) -> Seq<Option<Seq<char>>> { match m.values("format"@) { None => seq![None], Some(v) => Seq::new(v.len(), |i: int| told_format(v[i])) } }
// the i-th input is read in the i-th format, further inputs in the last format
spec fn asked_inputs(m: ArgMatches) -> Seq<Asked> {
    let f = told_formats(m);
    match m.values("input"@) {
        None => seq![Asked { path: None, format: f[0] }],
        Some(v) => Seq::new(v.len(), |i: int| Asked { path: Some(v[i]), format: f[if i < f.len() { i } else { f.len() - 1 }] }),
    }
}
spec fn told_zone(m: ArgMatches, map: Option<HashMap<&str, Tz>>) -> ChopperTz { ChopperTz { timezone: zone(m.value("timezone"@), map) } }
spec fn told_given(m: ArgMatches, t: Option<Vec<Box<dyn StreamingTransport>>>, f: Option<Vec<Box<dyn SourceFactory>>>, tz: ChopperTz) -> Given { Given { conf: told_in(m, tz.timezone), factories: f, transports: t } }
spec fn as_told(j: Job, m: ArgMatches, t: Option<Vec<Box<dyn StreamingTransport>>>, f: Option<Vec<Box<dyn SourceFactory>>>, tz: ChopperTz) -> bool {
    set_up(j, told_given(m, t, f, tz), asked_inputs(m), sink_for(m.value("output"@), told_out(m, tz.timezone))->0, bound(m.value("begin"@), tz), bound(m.value("end"@), tz))
}
broadcast proof fn lemma_asked(v: Seq<Input>, args: Set<ArgSpec>)
    ensures #![trigger asked_all(v), arguments(args)] ({
        let m = arguments(args);
        v.len() == asked_inputs(m).len() && (forall|i: int| 0 <= i < v.len() ==> asked(#[trigger] v[i]) == asked_inputs(m)[i]) ==> asked_all(v) == asked_inputs(m)
    }),
{
    let m = arguments(args);
    if v.len() == asked_inputs(m).len() && (forall|i: int| 0 <= i < v.len() ==> asked(#[trigger] v[i]) == asked_inputs(m)[i]) { assert(asked_all(v) =~= asked_inputs(m)); }
}
mod error {
    use super::*;
    pub(crate) use super::Error;
    #[verifier::external_body]
    pub(crate) fn turn_on_backtrace() { unimplemented!() }
}
//@rwall «for ($i, $s) in $v.enumerate() {» => «let list_ = $v.list(); let mut k_: usize = 0; while k_ < list_.len() { let $i = k_; let $s = list_[k_]; k_ += 1;» (index loop over the values)
//@rwall «for format in formats {» => «let list_ = formats.list(); let mut k_: usize = 0; while k_ < list_.len() { let format = list_[k_]; k_ += 1;» (index loop over the values)
//@rwall «if format == "auto"» => «if str_eq(format, "auto")» (str == as a function with a contract)
//@rwall «assert!($e)» => «claim($e)» (the assertion must hold)
//@fn src/chopper_cli.rs | - | parse_cli_args
    //@ret r
    //@attr #[verifier::loop_isolation(false)]
    //@spec
    ensures ({
        let m = arguments(cli_args());
        let tz = told_zone(m, timezone_map);
        let c = told_out(m, tz.timezone);
        &&& regular(m)
        &&& r matches Ok(d) ==> sink_for(m.value("output"@), c) is Some && as_told((*d).job(), m, streaming_transports, source_factories, tz)
        &&& r is Err ==> wrong_delimiter(m) || unbound(m.value("begin"@), tz) || unbound(m.value("end"@), tz) || no_sink(m.value("output"@), c)
            || (exists|a: Asked| asked_inputs(m).contains(a) && #[trigger] refuses(told_given(m, streaming_transports, source_factories, tz), a))
            || exists|j: Job| as_told(j, m, streaming_transports, source_factories, tz) && #[trigger] fails(j)
    }),
    //@loop 0
        invariant
            k_ <= list_@.len(), input_formats@.len() == k_,
            forall|i: int| 0 <= i < k_ ==> asked_format(#[trigger] input_formats@[i]) == told_format(list_@[i]@),
        decreases list_@.len() - k_,
    //@loop 1
        invariant
            k_ <= list_@.len(), inputs@.len() == k_,
            forall|i: int| 0 <= i < k_ ==> asked(#[trigger] inputs@[i]) == asked_inputs(matches)[i],
        decreases list_@.len() - k_,
    //@start
    broadcast use lemma_asked;
//@end
//@fn src/chopper_cli.rs | - | chopper_cli
    //@ret r
    //@spec
    ensures ({
        let m = arguments(cli_args());
        let tz = told_zone(m, timezone_map);
        r is Ok ==> exists|j: Job| as_told(j, m, streaming_transports, source_factories, tz) && #[trigger] done(j)
    }),
//@end
fn main() {}
} // verus!
