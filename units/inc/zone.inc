// the zone: by the argument, or by the environment; a name of the caller's map, or of the time zone database
uninterp spec fn zone_named(t: Seq<char>) -> Option<Tz>;
uninterp spec fn environment(t: Seq<char>) -> Option<Seq<char>>;
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] struct HashMap<K, V> { k: K, v: V }
impl<K, V> HashMap<K, V> { uninterp spec fn at(&self, t: Seq<char>) -> Option<V>; }
impl<'a> HashMap<&'a str, Tz> {
    #[verifier::external_body]
    fn get(&self, t: &str) -> (r: Option<&Tz>) ensures match self.at(t@) { Some(z) => r matches Some(x) && *x == z, None => r is None } { unimplemented!() }
}
#[verifier::external_body] struct VarError { }
mod env {
    use super::*;
    #[verifier::external_body]
    pub(crate) fn var(n: &str) -> (r: Result<String, VarError>) ensures match environment(n@) { Some(t) => r matches Ok(s) && s@ == t, None => r is Err } { unimplemented!() }
}
// parse().unwrap(): it ends the process with another status than 0 if there is no zone of this name
#[verifier::external_body]
fn zone_or_exit(t: &String) -> (r: Tz) ensures Some(r) == zone_named(t@) { unimplemented!() }
#[verifier::external_body]
fn zone_parse(t: &String) -> (r: Result<Tz, String>) ensures match zone_named(t@) { Some(z) => r == Ok::<Tz, String>(z), None => r is Err } { unimplemented!() }
spec fn asked_zone(arg: Option<Seq<char>>) -> Option<Seq<char>> { match arg { Some(t) => Some(t), None => environment("CHOPPER_TZ"@) } }
spec fn zone(arg: Option<Seq<char>>, map: Option<HashMap<&str, Tz>>) -> Option<Tz> {
    match asked_zone(arg) { None => None, Some(t) => match map { Some(x) => match x.at(t) { Some(z) => Some(z), None => zone_named(t) }, None => zone_named(t) } }
}
impl ChopperTz {
    //@fn src/util/tz.rs | ChopperTz | new_from_cli_arg
        //@ret r
        //@spec
        ensures r.timezone == zone(strof(cli_timezone_arg), timezone_map),
    //@end
    //@fn src/util/tz.rs | ChopperTz | resolve_timezone
        //@ret r
        //@rw «$x.to_owned()» => «text_own(&$x)» (std conversion as a function with a contract)
        //@rw «$x.to_string()» => «text_own(&$x)» (std conversion as a function with a contract)
        //@rw «$x.parse().unwrap()» => «zone_or_exit(&$x)» (std methods as a function with a contract)
        //@rw «$x.parse()» => «zone_parse(&$x)» (std method as a function with a contract)
        //@spec
        ensures r == zone(strof(cli_timezone_arg), timezone_map),
    //@end
    //@fn src/util/tz.rs | ChopperTz | new_always_fails
        //@ret r
        //@spec
        ensures r.timezone is None,
    //@end
}
