// ---- src/source/csv_configs.rs, src/util/tz.rs and the units, extracted
//@item src/source/csv_timestamp.rs | enum | TimestampUnits
//@derive src/source/csv_timestamp.rs | enum | TimestampUnits | Copy,Clone
impl Copy for TimestampUnits {}
impl Clone for TimestampUnits {
    #[verifier::external_body]
    fn clone(&self) -> (r: TimestampUnits) ensures r == *self { unimplemented!() }
}
// chrono-tz (assumed): a time zone, and the text of an instant in it in a strftime format
#[verifier::external_body]
struct Tz { }
impl Copy for Tz {}
impl Clone for Tz {
    #[verifier::external_body]
    fn clone(&self) -> (r: Tz) ensures r == *self { unimplemented!() }
}
//@item src/util/tz.rs | struct | ChopperTz
