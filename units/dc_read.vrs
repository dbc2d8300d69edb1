//@include inc/base.inc
//@include inc/io.inc
//@include inc/types.inc
//@include inc/dc_format.inc
//@include inc/dc_parse.inc

//@fn src/util/dc_util.rs | - | create_field_string_map_name
    //@ret r
    //@spec
    ensures r.view() =~= name_map(),
//@end
// lazy_static FIELD_STRING_MAP_NAME = create_field_string_map_name() (src/source/dc_source.rs), initialised on first use (assumed)
#[verifier::external_body]
const fn lazy_map_name() -> (r: HashMap<&'static str, FieldType>) ensures r.view() =~= name_map() { HashMap { m: core::marker::PhantomData } }
exec static FIELD_STRING_MAP_NAME: HashMap<&'static str, FieldType> ensures FIELD_STRING_MAP_NAME.view() =~= name_map() { lazy_map_name() }

// core: str::from_utf8_mut / String::from_utf8 (assumed)
struct Utf8Error;
pub assume_specification<T: Clone> [<T as ToOwned>::to_owned] (_0: &T) -> (r: T)
    ensures cloned(*_0, r);
mod str {
    use super::*;
    #[verifier::external_body]
    pub(crate) fn from_utf8_mut(b: &mut [u8]) -> (r: Result<&str, Utf8Error>)
        ensures r is Ok <==> valid_utf8(old(b)@), r matches Ok(s) ==> s@ == decode_utf8(old(b)@)
    { unimplemented!() }
}
#[verifier::external_body]
fn string_from_utf8(b: Vec<u8>) -> (r: Result<String, Utf8Error>)
    ensures r is Ok <==> valid_utf8(b@), r matches Ok(s) ==> s@ == decode_utf8(b@)
{ unimplemented!() }

//@item src/util/dc_util.rs | struct | FieldDescriptor
impl FieldDescriptor {
    //@fn src/util/dc_util.rs | FieldDescriptor | get_sized_string
        //@ret r
        //@sig «mut rdr: R» => «rdr: &mut R» a reader passed by value is only ever &mut of the caller's reader
        //@sub «String::from_utf8» => «string_from_utf8» shim with the same contract
        //@spec
        ensures
            final(rdr).sound() == old(rdr).sound(),
            r matches Ok(s) ==> parse_sized(old(rdr).rest()) == P::Good(AV::Str(encode_utf8(s@)), old(rdr).rest().len() - final(rdr).rest().len())
                && final(rdr).rest() == old(rdr).rest().skip(old(rdr).rest().len() - final(rdr).rest().len()),
            r is Err && old(rdr).sound() ==> parse_sized(old(rdr).rest()) is Bad,
        //@start
        proof { lemma_pow256(); }
        //@loop 0
            invariant
                string_bytes@.len() == _i,
                rdr.sound() == old(rdr).sound(),
                old(rdr).rest().len() >= 4 + _i,
                size as nat == unbe(old(rdr).rest().take(4)),
                rdr.rest() == old(rdr).rest().skip(4 + _i),
                string_bytes@ == old(rdr).rest().subrange(4, 4 + _i),
        //@loopend 0
            proof { assert(rdr.rest() =~= old(rdr).rest().skip(4 + _i + 1)); assert(string_bytes@ =~= old(rdr).rest().subrange(4, 4 + _i + 1)); }
        //@afterloop 0
            proof { if valid_utf8(string_bytes@) { decode_utf8_encode_utf8(string_bytes@); } }
    //@end

    //@fn src/util/dc_util.rs | FieldDescriptor | new
        //@ret r
        //@sig «mut reader: R» => «reader: &mut R» a reader passed by value is only ever &mut of the caller's reader
        //@sub «&mut reader» => «reader» reborrow through the parameter
        //@spec
        ensures
            final(reader).sound() == old(reader).sound(),
            r matches Ok(d) ==> parse_desc(old(reader).rest()) == Some((encode_utf8(d.name@), encode_utf8(d.type_string@), final(reader).rest())),
            r is Err && old(reader).sound() ==> parse_desc(old(reader).rest()) is None,
        //@start
        proof { lemma_pow256(); assert forall|v: i32| true implies (#[trigger] (v as u32) == 0xffff_ffff <==> v == -1) && (v as u32 <= 6 <==> 0 <= v <= 6) by { assert((v as u32 == 0xffff_ffff <==> v == -1) && (v as u32 <= 6 <==> 0 <= v <= 6)) by(bit_vector); } }
    //@end
    //@fn src/util/dc_util.rs | FieldDescriptor | get_name
        //@ret r
        //@spec
        ensures r@ == self.name@,
    //@end
    //@fn src/util/dc_util.rs | FieldDescriptor | get_display_hint
        //@ret r
        //@spec
        ensures *r == self.display_hint,
    //@end
    //@fn src/util/dc_util.rs | FieldDescriptor | get_type_string
        //@ret r
        //@spec
        ensures r@ == self.type_string@,
    //@end
}
#[verifier::reject_recursive_types(R)]
//@item src/source/dc_source.rs | struct | DCSource
// a row is read: what the bytes encode, or the end at the end, or an error
spec fn gave_row<R: io::Read>(a: DCSource<R>, b: DCSource<R>, r: CliResult<Option<Row>>) -> bool {
    &&& b.inv() && b.header == a.header && b.reader.sound() == a.reader.sound()
    &&& r matches Ok(None) ==> a.rest().len() == 0
    &&& r matches Ok(Some(row)) ==> a.rest().len() > 0 && match parse_row(a.header.field_types@, a.rest()) {
            RowP::Good(ts, vals, rest) => row.timestamp == ts && abs_seq(row.field_values@) == vals && b.rest() == rest
                && forall|i: int| 0 <= i < row.field_values@.len() ==> conforms(#[trigger] row.field_values@[i], a.header.field_types@[i]),
            RowP::Bad => false,
            RowP::Odd => true,
        }
    &&& r is Err && a.reader.sound() ==> a.rest().len() > 0 && !(parse_row(a.header.field_types@, a.rest()) is Good)
}
impl<R: io::Read> DCSource<R> {
    spec fn inv(&self) -> bool {
        &&& self.header.field_types@.len() == self.field_count == self.current_row.field_values@.len() == self.header.field_names@.len()
        &&& self.field_count < 0x1_0000_0000
        &&& self.bitset_bytes@.len() == bitset_len(self.field_count as nat)
    }
    spec fn rest(&self) -> Seq<u8> { self.reader.rest() }
    //@fn src/source/dc_source.rs | DCSource | new
        //@ret r
        //@attr #[verifier::loop_isolation(false)]
        //@spec
        ensures
            r matches Ok(s) ==> {
                &&& s.inv()
                &&& s.reader.sound() == reader.sound()
                &&& parse_header(reader.rest()) matches H::Good(names, types, rest) && s.rest() == rest && s.header.field_types@ == types
                    && names.len() == s.header.field_names@.len()
                    && forall|i: int| 0 <= i < names.len() && (#[trigger] names[i]).len() > 0 ==> encode_utf8(s.header.field_names@[i]@) == names[i]
            },
            r is Err && reader.sound() ==> parse_header(reader.rest()) is Bad,
        //@start
        hide(parse_desc);
        broadcast use skip_skip;
        let ghost s0 = reader.rest();
        let ghost ok0 = reader.sound();
        proof { lemma_pow256(); }
        //@loop 0
            invariant
                reader.sound() == ok0, s0.len() >= 14 + _i, user_header_size as nat == unbe(s0.skip(10).take(4)),
                s0.len() >= 14, unbe(s0.take(8)) == 0x44434154, unbe(s0.skip(8).take(2)) == 2,
                reader.rest() == s0.skip(14 + _i),
        //@loopend 0
            proof { assert(reader.rest() =~= s0.skip(14 + _i + 1)); }
        //@beforeloop 1
        let ghost mut names: Seq<Seq<u8>> = seq![];
        let ghost s1 = reader.rest();
        proof {
            assert(s1 =~= s0.skip(18 + user_header_size as int));
            assert(field_types@ =~= seq![]);
            let h = parse_fields(s1, field_count as nat);
            assert(h_cons(seq![], seq![], h) == h) by { match h { H::Good(a, b, c) => { assert(seq![] + a =~= a); assert(seq![] + b =~= b); } _ => {} } }
        }
        //@loop 1
            invariant
                reader.sound() == ok0, field_count < 0x1_0000_0000,
                map_field_string.view() =~= name_map(),
                parse_header(s0) == parse_fields(s1, field_count as nat),
                parse_fields(s1, field_count as nat) == h_cons(names, field_types@, parse_fields(reader.rest(), (field_count - i) as nat)),
                names.len() == field_names@.len() == field_types@.len() == field_values@.len() == i,
                forall|k: int| 0 <= k < i && (#[trigger] names[k]).len() > 0 ==> encode_utf8(field_names@[k]@) == names[k],
        //@loopstart 1
            let ghost rest0 = reader.rest();
            let ghost types0 = field_types@;
            let ghost names0 = names;
            proof { assert(parse_field(reader.rest()) is Bad ==> parse_header(s0) is Bad); }
        //@after «FieldDescriptor::new(&mut reader)?;»
            proof { encode_utf8_decode_utf8(field_descriptor.type_string@); let e = Seq::<char>::empty(); assert(encode_utf8(e).len() == 0); if field_descriptor.name@.len() == 0 { assert(field_descriptor.name@ =~= e); } }
        //@loopend 1
            proof {
                let nm = encode_utf8(field_descriptor.name@);
                names = names0.push(nm);
                lemma_header_step(names0, types0, nm, field_types@.last(), rest0, reader.rest(), (field_count - i) as nat);
                assert(field_types@ == types0.push(field_types@.last()));
            }
        //@afterloop 1
        proof { assert(names + Seq::<Seq<u8>>::empty() =~= names); assert(field_types@ + Seq::<FieldType>::empty() =~= field_types@); }
    //@end
    //@fn src/source/dc_source.rs | DCSource | is_at_end
        //@ret r
        //@attr #[verifier::exec_allows_no_decreases_clause]
        //@spec
        ensures
            final(reader).rest() == old(reader).rest(), final(reader).sound() == old(reader).sound(),
            r matches Ok(b) ==> (b <==> old(reader).rest().len() == 0),
            r is Err ==> !old(reader).sound(),
        //@loop 0
            invariant reader.rest() == old(reader).rest(), reader.sound() == old(reader).sound(),
    //@end
    //@fn src/source/dc_source.rs | DCSource | read_string
        //@ret r
        //@spec
        ensures
            final(reader).sound() == old(reader).sound(),
            r matches Ok(s) ==> encode_utf8(s@).len() < 0x1_0000_0000,
            r matches Ok(s) ==> !(parse_val(FieldType::String, old(reader).rest()) is Odd) ==>
                parse_val(FieldType::String, old(reader).rest()) == P::Good(AV::Str(encode_utf8(s@)), old(reader).rest().len() - final(reader).rest().len())
                && final(reader).rest() == old(reader).rest().skip(old(reader).rest().len() - final(reader).rest().len()),
            r is Err && old(reader).sound() ==> !(parse_val(FieldType::String, old(reader).rest()) is Good),
        //@start
        broadcast use skip_skip, skip_take;
        proof { lemma_pow256(); assert forall|v: i16| true implies (#[trigger] (v as u16) == 0xffff <==> v == -1) && (v as u16 <= 32767 <==> 0 <= v) && (v >= 0 ==> v as u32 == v as u16) && (v < -1 ==> v as u32 == 0xffff_0000u32 + (v as u16)) by { assert((v as u16 == 0xffff <==> v == -1) && (v as u16 <= 32767 <==> 0 <= v) && (v >= 0 ==> v as u32 == v as u16) && (v < -1 ==> v as u32 == add(0xffff_0000u32, v as u16 as u32) && (v as u16) <= 0xfffeu16)) by(bit_vector); } }
    //@after «reader.read_exact(string)?;»
        proof {
            let s0 = old(reader).rest();
            assert(string@.len() == data_size);
            if valid_utf8(string@) { decode_utf8_encode_utf8(string@); }
            if data_size_short == -1 { assert(string@ == s0.subrange(6, 6 + data_size)); } else { assert(string@ == s0.subrange(2, 2 + data_size)); }
        }
    //@end
    //@fn src/source/dc_source.rs | DCSource | next_row
        //@ret r
        //@attr #[verifier::loop_isolation(false)]
        //@spec
        requires old(self).inv(),
        ensures gave_row(*old(self), *final(self), r),
        //@start
        let ghost s0 = self.rest();
        let ghost ok0 = self.reader.sound();
        let ghost types = self.header.field_types@;
        let ghost h0 = self.header;
        let ghost odd = parse_row(types, s0) is Odd;
        proof { lemma_pow256(); lemma_pow2n(); lemma_ubytes(); }
        //@beforeloop 0
        let ghost bits = bitset_bytes@;
        let ghost s1 = self.rest();
        proof {
            assert(s1 =~= s0.skip(8 + bits.len() as int));
            assert(bits =~= s0.subrange(8, 8 + bits.len() as int));
            assert(abs_seq(self.current_row.field_values@.take(0)) =~= seq![]);
            let v = parse_vals(types, bits, s1, 0);
            match v { V::Good(a, b) => { assert(seq![] + a =~= a); } _ => {} }
        }
        //@loop 0
            invariant
                self.inv(), self.reader.sound() == ok0, self.header == h0, types == h0.field_types@, bits == self.bitset_bytes@, bits == bitset_bytes@,
                s0.len() >= 8 + bits.len(), bits == s0.subrange(8, 8 + bits.len() as int), s1 == s0.skip(8 + bits.len() as int), self.current_row.timestamp as nat == unbe(s0.take(8)),
                field_index == if 8 * i < self.field_count { 8 * i } else { self.field_count as int },
                odd || parse_vals(types, bits, s1, 0) == v_cons(abs_seq(self.current_row.field_values@.take(field_index as int)), parse_vals(types, bits, self.rest(), field_index as int)),
                forall|k: int| 0 <= k < field_index ==> conforms(#[trigger] self.current_row.field_values@[k], types[k]),
        //@loop 1
            invariant_except_break
                field_index == 8 * i + _j, field_index < self.field_count, current_bitset as nat == bits[i as int] as nat / pow2n(_j as nat),
            invariant
                self.inv(), self.reader.sound() == ok0, self.header == h0, types == h0.field_types@, bits == self.bitset_bytes@, bits == bitset_bytes@, i < bits.len(),
                s0.len() >= 8 + bits.len(), bits == s0.subrange(8, 8 + bits.len() as int), s1 == s0.skip(8 + bits.len() as int), self.current_row.timestamp as nat == unbe(s0.take(8)),
                odd || parse_vals(types, bits, s1, 0) == v_cons(abs_seq(self.current_row.field_values@.take(field_index as int)), parse_vals(types, bits, self.rest(), field_index as int)),
                forall|k: int| 0 <= k < field_index ==> conforms(#[trigger] self.current_row.field_values@[k], types[k]),
            ensures
                field_index == if 8 * (i + 1) < self.field_count { 8 * (i + 1) } else { self.field_count as int },
        //@loopstart 1
            let ghost f0 = field_index as int;
            let ghost rest0 = self.rest();
            let ghost vals0 = self.current_row.field_values@;
            proof { lemma_pow2n(); lemma_pow256(); lemma_bitset(current_bitset, bits[i as int], _j as nat); lemma_ubytes();
                assert(f0 / 8 == i && f0 % 8 == _j);
                assert(is_null(bits, f0) <==> (current_bitset & 1 != 0));
                assert(!is_null(bits, f0) && parse_val(types[f0], rest0) is Bad ==> odd || parse_row(types, s0) is Bad);
                assert(!is_null(bits, f0) && parse_val(types[f0], rest0) is Odd ==> odd);
            }
        //@before «field_index += 1»
            proof {
                let a = abs_seq(vals0.take(f0));
                let now = self.current_row.field_values@;
                let x = abs(now[f0]);
                assert(abs_seq(now.take(f0 + 1)) =~= a.push(x));
                if !odd {
                    if !is_null(bits, f0) { let n = rest0.len() - self.rest().len(); assert(parse_val(types[f0], rest0) == P::Good(x, n) && self.rest() == rest0.skip(n)); }
                    lemma_row_step(a, x, types, bits, rest0, self.rest(), f0);
                }
            }
        //@afterloop 0
        proof {
            let n = self.field_count as int;
            assert(self.current_row.field_values@.take(n) =~= self.current_row.field_values@);
            let a = abs_seq(self.current_row.field_values@);
            assert(a + Seq::<AV>::empty() =~= a);
        }
    //@end
}
// as a source: the same header and rows
trait Source {
    spec fn ready(&self) -> bool;
    //@fn src/chopper/chopper.rs | trait Source | header
        //@nobody
    //@end
    //@fn src/chopper/chopper.rs | trait Source | next_row
        //@nobody
        //@spec
        requires old(self).ready(),
    //@end
}
impl<R: io::Read> Source for DCSource<R> {
    spec fn ready(&self) -> bool { self.inv() }
    //@fn src/source/dc_source.rs | Source for DCSource | header
        //@ret r
        //@spec
        ensures *r == self.header,
    //@end
    //@fn src/source/dc_source.rs | Source for DCSource | next_row
        //@ret r
        //@spec
        ensures gave_row(*old(self), *final(self), r),
    //@end
}
proof fn lemma_bitset(c: u8, b: u8, j: nat)
    requires c as nat == b as nat / pow2n(j), j < 8,
    ensures (c & 1 == 0) <==> !bit(b as nat, j), (c >> 1u8) as nat == b as nat / pow2n(j + 1), (c >> 1) as nat == b as nat / pow2n(j + 1), (c >> 1usize) == c >> 1u8
{
    assert((c & 1 == 0) <==> c % 2 == 0) by(bit_vector);
    assert(c >> 1u8 == c / 2) by(bit_vector);
    assert(c >> 1 == c / 2) by(bit_vector);
    assert(c >> 1usize == c / 2) by(bit_vector);
    assert(pow2n(j + 1) == 2 * pow2n(j));
    assert(pow2n(j) > 0) by { lemma_pow2n(); assert(j == 0 || j == 1 || j == 2 || j == 3 || j == 4 || j == 5 || j == 6 || j == 7); }
    let p = pow2n(j); let q = b as nat;
    assert((q / p) / 2 == q / (2 * p)) by { vstd::arithmetic::div_mod::lemma_div_denominator(q as int, p as int, 2); assert(p * 2 == 2 * p); }
}
proof fn lemma_header_step(names: Seq<Seq<u8>>, types: Seq<FieldType>, nm: Seq<u8>, t: FieldType, rest0: Seq<u8>, rest: Seq<u8>, n: nat)
    requires parse_field(rest0) == F::Good(nm, t, rest), n > 0,
    ensures h_cons(names, types, parse_fields(rest0, n)) == h_cons(names.push(nm), types.push(t), parse_fields(rest, (n - 1) as nat))
{
    let h = parse_fields(rest, (n - 1) as nat);
    assert(parse_fields(rest0, n) == h_cons(seq![nm], seq![t], h));
    match h { H::Good(a, b, c) => {
        assert(names + (seq![nm] + a) =~= names.push(nm) + a);
        assert(types + (seq![t] + b) =~= types.push(t) + b);
    } _ => {} }
}
proof fn lemma_row_step(a: Seq<AV>, x: AV, types: Seq<FieldType>, bits: Seq<u8>, rest0: Seq<u8>, rest: Seq<u8>, i: int)
    requires
        0 <= i < types.len(),
        if is_null(bits, i) { x == AV::Null && rest == rest0 }
        else { exists|n: int| parse_val(types[i], rest0) == P::Good(x, n) && rest == rest0.skip(n) },
    ensures v_cons(a, parse_vals(types, bits, rest0, i)) == v_cons(a.push(x), parse_vals(types, bits, rest, i + 1))
{
    let v = parse_vals(types, bits, rest, i + 1);
    match v { V::Good(b, _) => { assert(a + (seq![x] + b) =~= a.push(x) + b); } _ => {} }
}
proof fn lemma_ubytes()
    ensures forall|s: Seq<u8>| s.len() == 1 ==> #[trigger] unbe(s) == s[0]
{ reveal_with_fuel(unbe, 3); assert forall|s: Seq<u8>| s.len() == 1 implies #[trigger] unbe(s) == s[0] by { assert(s.drop_last() =~= seq![]); } }
fn main() {}
} // verus!
