// ---- the settings of csv output (src/source/csv_configs.rs), extracted
//@item src/source/csv_configs.rs | enum | TimestampStyle
//@derive src/source/csv_configs.rs | enum | TimestampStyle | Clone,Copy
impl Copy for TimestampStyle {}
impl Clone for TimestampStyle {
    #[verifier::external_body]
    fn clone(&self) -> (r: TimestampStyle) ensures r == *self { unimplemented!() }
}
impl TimestampUnits {
    //@fn src/source/csv_timestamp.rs | TimestampUnits | to_suffix_str
        //@ret r
        //@spec
        ensures r@ == units_name(*self),
    //@end
}
spec fn units_name(u: TimestampUnits) -> Seq<char> {
    match u { TimestampUnits::Seconds => "Seconds"@, TimestampUnits::Millis => "Millis"@, TimestampUnits::Micros => "Micros"@, TimestampUnits::Nanos => "Nanos"@ }
}
//@item src/source/csv_configs.rs | struct | CSVOutputConfig
impl CSVOutputConfig {
    //@fn src/source/csv_configs.rs | CSVOutputConfig | new
        //@ret r
        //@rw «base_name + units» => «concat(base_name, units)» (std operator as a function with a contract)
        //@spec
        ensures
            r.delimiter@ == delimiter@, r.print_time_col == print_time_col, r.time_col_style == time_col_style, r.time_col_units == time_col_units, r.timezone == timezone,
            r.time_col_name@ == match time_col_name { Some(n) => n@, None => match time_col_style { TimestampStyle::HumanReadable => "time"@, TimestampStyle::Epoch => "timestamp"@ + units_name(time_col_units) } },
    //@end
    //@fn src/source/csv_configs.rs | CSVOutputConfig | delimiter
        //@ret r
        //@spec
        ensures *r == self.delimiter,
    //@end
    //@fn src/source/csv_configs.rs | CSVOutputConfig | print_time_col
        //@ret r
        //@spec
        ensures r == self.print_time_col,
    //@end
    //@fn src/source/csv_configs.rs | CSVOutputConfig | time_col_name
        //@ret r
        //@spec
        ensures *r == self.time_col_name,
    //@end
    //@fn src/source/csv_configs.rs | CSVOutputConfig | time_col_style
        //@ret r
        //@spec
        ensures r == self.time_col_style,
    //@end
    //@fn src/source/csv_configs.rs | CSVOutputConfig | time_col_units
        //@ret r
        //@spec
        ensures r == self.time_col_units,
    //@end
    //@fn src/source/csv_configs.rs | CSVOutputConfig | timezone
        //@ret r
        //@spec
        ensures *r == self.timezone,
    //@end
}
