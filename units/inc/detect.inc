//@item src/source/csv_timestamp.rs | const | TIMESTAMP_UNITS
//@item src/source/csv_timestamp.rs | const | TIME_FORMATS_WITH_TZ
//@item src/source/csv_timestamp.rs | const | TIME_FORMATS_WITHOUT_TZ
//@item src/source/csv_timestamp.rs | const | DATETIME_FORMATS_WITHOUT_TZ
//@item src/source/csv_timestamp.rs | const | DATE_FORMATS_WITHOUT_TZ
//@item src/source/csv_configs.rs | enum | TimestampFmtConfig
//@item src/source/csv_configs.rs | enum | TimestampColConfig
// ---- the documented preference
uninterp spec fn lowercase(s: Seq<char>) -> Seq<char>;              // str::to_lowercase (assumed)
spec fn unit_word(u: TimestampUnits) -> Seq<char> {
    match u { TimestampUnits::Seconds => "seconds"@, TimestampUnits::Millis => "millis"@, TimestampUnits::Micros => "micros"@, TimestampUnits::Nanos => "nanos"@ }
}
spec fn unit_of(word: Seq<char>) -> Option<TimestampUnits> {
    if word == "seconds"@ { Some(TimestampUnits::Seconds) } else if word == "millis"@ { Some(TimestampUnits::Millis) }
    else if word == "micros"@ { Some(TimestampUnits::Micros) } else if word == "nanos"@ { Some(TimestampUnits::Nanos) } else { None }
}
spec fn begins(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
spec fn ends(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }
spec fn occurs_at(s: Seq<char>, p: Seq<char>, k: int) -> bool { 0 <= k <= s.len() - p.len() && s.subrange(k, k + p.len()) == p }
spec fn occurs(s: Seq<char>, p: Seq<char>) -> bool { exists|k: int| occurs_at(s, p, k) }
spec fn is_last_at(s: Seq<char>, p: Seq<char>, k: int) -> bool { occurs_at(s, p, k) && forall|j: int| k < j ==> !occurs_at(s, p, j) }
spec fn last_at(s: Seq<char>, p: Seq<char>) -> int { choose|k: int| is_last_at(s, p, k) }
spec fn before(s: Seq<char>, p: Seq<char>) -> Seq<char> { s.take(last_at(s, p)) }
spec fn behind(s: Seq<char>, p: Seq<char>) -> Seq<char> { s.skip(last_at(s, p) + p.len()) }
// what a column name (in lower case) says
ghost enum Kind { TimeUnits(TimestampUnits), Date, Time, PrefixTimeUnits(Seq<char>, TimestampUnits), PrefixDate(Seq<char>), PrefixTime(Seq<char>), Other }
spec fn kind_of(name: Seq<char>) -> Kind {
    if name == "time"@ { Kind::Time }
    else if name == "date"@ { Kind::Date }
    else if begins(name, "time"@) { match unit_of(name.skip(4)) { Some(u) => Kind::TimeUnits(u), None => Kind::Other } }
    else if ends(name, "date"@) { Kind::PrefixDate(name.take(name.len() - 4)) }
    else if ends(name, "time"@) { Kind::PrefixTime(name.take(name.len() - 4)) }
    else if occurs(name, "time"@) { match unit_of(behind(name, "time"@)) { Some(u) => Kind::PrefixTimeUnits(before(name, "time"@), u), None => Kind::Other } }
    else { Kind::Other }
}
spec fn kind_at(names: Seq<String>, i: int) -> Kind { kind_of(lowercase(names[i]@)) }
spec fn same_kind(a: Kind, b: Kind) -> bool {
    match a {
        Kind::TimeUnits(_) => b is TimeUnits, Kind::Date => b is Date, Kind::Time => b is Time, Kind::PrefixTimeUnits(_, _) => b is PrefixTimeUnits,
        Kind::PrefixDate(_) => b is PrefixDate, Kind::PrefixTime(_) => b is PrefixTime, Kind::Other => b is Other,
    }
}
// the leftmost column of a kind, at or after `from`
spec fn leftmost(names: Seq<String>, k: Kind, from: int) -> Option<int> decreases names.len() - from {
    if from < 0 || from >= names.len() { None } else if same_kind(k, kind_at(names, from)) { Some(from) } else { leftmost(names, k, from + 1) }
}
spec fn k_time_units() -> Kind { Kind::TimeUnits(TimestampUnits::Seconds) }
spec fn k_prefix_time_units() -> Kind { Kind::PrefixTimeUnits(seq![], TimestampUnits::Seconds) }
spec fn k_prefix_date() -> Kind { Kind::PrefixDate(seq![]) }
spec fn k_prefix_time() -> Kind { Kind::PrefixTime(seq![]) }
spec fn detected(names: Seq<String>) -> (TimestampCol, Option<TimestampUnits>) {
    if let Some(i) = leftmost(names, k_time_units(), 0) { (TimestampCol::Index(i as usize), Some(kind_at(names, i)->TimeUnits_0)) }
    else if let Some(d) = leftmost(names, Kind::Date, 0) {
        match leftmost(names, Kind::Time, 0) { Some(t) => (TimestampCol::DateTimeIndex(d as usize, t as usize), None), None => (TimestampCol::Index(d as usize), None) }
    }
    else if let Some(i) = leftmost(names, Kind::Time, 0) { (TimestampCol::Index(i as usize), None) }
    else if let Some(i) = leftmost(names, k_prefix_time_units(), 0) { (TimestampCol::Index(i as usize), Some(kind_at(names, i)->PrefixTimeUnits_1)) }
    else if let Some(d) = leftmost(names, k_prefix_date(), 0) {
        match leftmost(names, k_prefix_time(), 0) {
            Some(t) => if kind_at(names, d)->PrefixDate_0 == kind_at(names, t)->PrefixTime_0 { (TimestampCol::DateTimeIndex(d as usize, t as usize), None) } else { (TimestampCol::Index(d as usize), None) },
            None => (TimestampCol::Index(d as usize), None),
        }
    }
    else if let Some(i) = leftmost(names, k_prefix_time(), 0) { (TimestampCol::Index(i as usize), None) }
    else { (TimestampCol::Index(0), None) }
}
// a configured column may say its units in its name, too
spec fn hinted(name: Seq<char>) -> Option<TimestampUnits> {
    if ends(name, "seconds"@) { Some(TimestampUnits::Seconds) } else if ends(name, "millis"@) { Some(TimestampUnits::Millis) }
    else if ends(name, "micros"@) { Some(TimestampUnits::Micros) } else if ends(name, "nanos"@) { Some(TimestampUnits::Nanos) } else { None }
}
spec fn index_of(names: Seq<String>, name: Seq<char>, from: int) -> Option<int> decreases names.len() - from {
    if from < 0 || from >= names.len() { None } else if names[from]@ == name { Some(from) } else { index_of(names, name, from + 1) }
}
spec fn chosen_col(names: Seq<String>, c: TimestampColConfig) -> Option<(TimestampCol, Option<TimestampUnits>)> {
    match c {
        TimestampColConfig::Auto => Some(detected(names)),
        TimestampColConfig::Index(i) => Some((TimestampCol::Index(i), if i < names.len() { hinted(names[i as int]@) } else { None })),
        TimestampColConfig::DateTimeIndex(d, t) => Some((TimestampCol::DateTimeIndex(d, t), None)),
        TimestampColConfig::Name(n) => match index_of(names, n@, 0) { Some(i) => Some((TimestampCol::Index(i as usize), hinted(n@))), None => None },
        TimestampColConfig::DateTimeName(d, t) => match (index_of(names, d@, 0), index_of(names, t@, 0)) {
            (Some(a), Some(b)) => Some((TimestampCol::DateTimeIndex(a as usize, b as usize), None)),
            _ => None,
        },
    }
}
// formats
spec fn local_formats() -> Seq<Seq<char>> { seq!["%Y%m%d.%H%M%S"@, "%Y%m%d %H%M%S"@, "%Y%m%d %H:%M:%S"@, "%Y/%m/%d-%H:%M:%S"@] }
spec fn two_column_formats() -> Seq<Seq<char>> { seq!["%Y%m%d#%H%M%S%3f"@, "%Y%m%d#%H%M%S"@, "%Y%m%d#%H:%M:%S"@, "%Y%m%d#%-H:%M"@] }
spec fn first_local(text: Seq<char>, formats: Seq<Seq<char>>, from: int) -> Option<int> decreases formats.len() - from {
    if from < 0 || from >= formats.len() { None } else if parsed_local(text, formats[from]) is Some { Some(from) } else { first_local(text, formats, from + 1) }
}
// the zone must be able to place the first row's time
spec fn zoned(tz: ChopperTz, t: Local, f: Fmt) -> Option<Fmt> { if instant_in(tz, t) is Some { Some(f) } else { None } }
spec fn in_years(n: int, u: TimestampUnits) -> bool { 630_000_000_000_000_000 <= n * per_unit(u) < 2_000_000_000_000_000_000 }
spec fn by_range(n: int) -> Option<TimestampUnits> {
    if in_years(n, TimestampUnits::Nanos) { Some(TimestampUnits::Nanos) } else if in_years(n, TimestampUnits::Micros) { Some(TimestampUnits::Micros) }
    else if in_years(n, TimestampUnits::Millis) { Some(TimestampUnits::Millis) } else if in_years(n, TimestampUnits::Seconds) { Some(TimestampUnits::Seconds) } else { None }
}
spec fn known_format(text: Seq<char>, tz: ChopperTz) -> Option<Fmt> {
    if parsed_instant(text, "%+"@) is Some { Some(Fmt::Offset("%+"@)) }
    else if let Some(i) = first_local(text, local_formats(), 0) { zoned(tz, parsed_local(text, local_formats()[i])->Some_0, Fmt::Zoned(local_formats()[i])) }
    else if let Some(d) = parsed_date(text, "%Y%m%d"@) { zoned(tz, midnight(d), Fmt::DateZoned("%Y%m%d"@)) }
    else { None }
}
spec fn auto_one(text: Seq<char>, tz: ChopperTz) -> Option<Fmt> {
    if digits_only(text) {
        match u64_of(text) {
            None => None,
            Some(n) => match by_range(n) { Some(u) => Some(Fmt::Units(u)), None => known_format(text, tz) },
        }
    } else { known_format(text, tz) }
}
spec fn auto_two(text: Seq<char>, tz: ChopperTz) -> Option<Fmt> {
    match first_local(text, two_column_formats(), 0) { Some(i) => zoned(tz, parsed_local(text, two_column_formats()[i])->Some_0, Fmt::Zoned(two_column_formats()[i])), None => None }
}
spec fn auto_fmt(cells: Seq<Seq<char>>, col: TimestampCol, tz: ChopperTz, hint: Option<TimestampUnits>) -> Option<Fmt> {
    match col {
        TimestampCol::Index(i) => if let Some(u) = hint { Some(Fmt::Units(u)) } else { match stamp(cells, col) { Some(text) => auto_one(text, tz), None => None } },
        TimestampCol::DateTimeIndex(d, t) => match stamp(cells, col) { Some(text) => auto_two(text, tz), None => None },
    }
}
spec fn given_fmt(cells: Seq<Seq<char>>, col: TimestampCol, tz: ChopperTz, format: Seq<char>) -> Option<Fmt> {
    match stamp(cells, col) {
        None => None,
        Some(text) =>
            if parsed_instant(text, format) is Some { Some(Fmt::Offset(format)) }
            else if let Some(t) = parsed_local(text, format) { zoned(tz, t, Fmt::Zoned(format)) }
            else if let Some(d) = parsed_date(text, format) { zoned(tz, midnight(d), Fmt::DateZoned(format)) }
            else { None },
    }
}
spec fn chosen_fmt(cells: Seq<Seq<char>>, col: TimestampCol, tz: ChopperTz, hint: Option<TimestampUnits>, c: TimestampFmtConfig) -> Option<Fmt> {
    match c {
        TimestampFmtConfig::Auto => auto_fmt(cells, col, tz, hint),
        TimestampFmtConfig::Epoch(u) => Some(Fmt::Units(u)),
        TimestampFmtConfig::Explicit(f) => given_fmt(cells, col, tz, f@),
        TimestampFmtConfig::DateTimeExplicit(d, t) => given_fmt(cells, col, tz, d@ + "#"@ + t@),
    }
}
spec fn fmt_is(r: CliResult<TimestampFmt>, v: Option<Fmt>) -> bool { match v { Some(f) => r is Ok && fmt_view(r->Ok_0) == f, None => r is Err } }
spec fn chosen(r: CliResult<(TimestampCol, TimestampFmt)>, names: Seq<String>, cells: Seq<Seq<char>>, cc: TimestampColConfig, fc: TimestampFmtConfig, tz: ChopperTz) -> bool {
    match chosen_col(names, cc) {
        None => r is Err,
        Some(c) => match chosen_fmt(cells, c.0, tz, c.1, fc) { Some(f) => r is Ok && r->Ok_0.0 == c.0 && fmt_view(r->Ok_0.1) == f, None => r is Err },
    }
}
