//@include inc/base.inc
//@include inc/io.inc
//@include inc/types.inc
//@include inc/dc_format.inc

//@fn src/util/dc_util.rs | - | create_field_string_map_type
    //@ret r
    //@spec
    ensures r.view() =~= type_map(),
//@end
// lazy_static FIELD_STRING_MAP_TYPE = create_field_string_map_type() (src/util/dc_util.rs), initialised on first use (assumed)
#[verifier::external_body]
const fn lazy_map_type() -> (r: HashMap<FieldType, &'static str>) ensures r.view() =~= type_map() { HashMap { m: core::marker::PhantomData } }
exec static FIELD_STRING_MAP_TYPE: HashMap<FieldType, &'static str> ensures FIELD_STRING_MAP_TYPE.view() =~= type_map() { lazy_map_type() }

//@fn src/util/dc_util.rs | - | write_sized_string
    //@ret r
    //@spec
    requires encode_utf8(string@).len() < 0x1_0000_0000,
    ensures
        final(writer).sound() == old(writer).sound(),
        r is Ok ==> final(writer).out() == old(writer).out() + enc_sized(encode_utf8(string@)),
        r is Err ==> !old(writer).sound(),
//@end
//@fn src/util/dc_util.rs | - | write_string_value
    //@ret r
    //@spec
    requires encode_utf8(value@).len() < 0x1_0000_0000,
    ensures
        final(writer).sound() == old(writer).sound(),
        r is Ok ==> final(writer).out() == old(writer).out() + enc_str(encode_utf8(value@)),
        r is Err ==> !old(writer).sound(),
    //@start
    proof {
        assert((-1i16) as u16 == 0xffffu16) by(bit_vector);
    }
//@end

// core: 2^e on u8 (assumed; overflows from e = 8 on)
pub assume_specification [u8::pow] (_0: u8, _1: u32) -> (r: u8)
    requires _0 == 2 && _1 < 8,
    ensures r == pow2n(_1 as nat);
broadcast proof fn lemma_set_bit(x: u8, b: u32)
    requires b < 8, x < pow2n(b as nat),
    ensures #[trigger] (x | (1u8 << b)) == x + pow2n(b as nat)
{
    lemma_pow2n();
    assert((x < 1 && b == 0 ==> x | (1u8 << b) == x + 1) && (x < 2 && b == 1 ==> x | (1u8 << b) == x + 2) && (x < 4 && b == 2 ==> x | (1u8 << b) == x + 4) && (x < 8 && b == 3 ==> x | (1u8 << b) == x + 8)
        && (x < 16 && b == 4 ==> x | (1u8 << b) == x + 16) && (x < 32 && b == 5 ==> x | (1u8 << b) == x + 32) && (x < 64 && b == 6 ==> x | (1u8 << b) == x + 64) && (x < 128 && b == 7 ==> x | (1u8 << b) == x + 128)) by(bit_vector);
}
//@item src/write/dc_sink.rs | struct | DCSink
spec fn sink_wrote(a: DCSink, b: DCSink, ok: bool, bytes: Seq<u8>) -> bool {
    &&& b.writer.sound() == a.writer.sound()
    &&& b.bitset_bytes == a.bitset_bytes
    &&& ok ==> b.writer.out() == a.writer.out() + bytes
}
impl DCSink {
    //@fn src/write/dc_sink.rs | DCSink | write_magic
        //@ret r
        //@spec
        ensures sink_wrote(*old(dc_sink), *final(dc_sink), r is Ok, be(0x44434154, 8)), r is Err ==> !old(dc_sink).writer.sound(),
    //@end
    //@fn src/write/dc_sink.rs | DCSink | write_version
        //@ret r
        //@spec
        ensures sink_wrote(*old(dc_sink), *final(dc_sink), r is Ok, be(2, 2)), r is Err ==> !old(dc_sink).writer.sound(),
    //@end
    //@fn src/write/dc_sink.rs | DCSink | write_empty_user_data
        //@ret r
        //@spec
        ensures sink_wrote(*old(dc_sink), *final(dc_sink), r is Ok, be(0, 4)), r is Err ==> !old(dc_sink).writer.sound(),
    //@end
    //@fn src/write/dc_sink.rs | DCSink | write_field_type
        //@ret r
        //@spec
        ensures
            sink_wrote(*old(dc_sink), *final(dc_sink), r is Ok, enc_sized(encode_utf8(type_code(*field_type)))),
            r is Ok ==> supported(*field_type),
            r is Err ==> !old(dc_sink).writer.sound() || !supported(*field_type),
        //@start
        proof { lemma_codes(*field_type); }
    //@end
    //@fn src/write/dc_sink.rs | DCSink | write_display_hint
        //@ret r
        //@spec
        requires display_hint is None,
        ensures sink_wrote(*old(dc_sink), *final(dc_sink), r is Ok, be(0xffff_ffff, 4)), r is Err ==> !old(dc_sink).writer.sound(),
        //@start
        proof { assert((-1i32) as u32 == 0xffff_ffffu32) by(bit_vector); }
    //@end
    //@fn src/write/dc_sink.rs | DCSink | write_field_descriptors
        //@ret r
        //@spec
        requires header_ok(*old(header)),
        ensures
            *final(header) == *old(header),
            sink_wrote(*old(dc_sink), *final(dc_sink), r is Ok, be(old(header).field_types@.len(), 4) + enc_fields(*old(header), old(header).field_types@.len())),
            r is Ok ==> forall|i: int| 0 <= i < old(header).field_types@.len() ==> supported(#[trigger] old(header).field_types@[i]),
            r is Err && old(dc_sink).writer.sound() ==> exists|i: int| 0 <= i < old(header).field_types@.len() && !supported(#[trigger] old(header).field_types@[i]),
        //@loop 0
            invariant
                header_ok(*old(header)), *header == *old(header), *field_types == header.field_types, *field_names == header.field_names,
                sink_wrote(*old(dc_sink), *dc_sink, true, be(header.field_types@.len(), 4) + enc_fields(*header, i as nat)),
                forall|k: int| 0 <= k < i ==> supported(#[trigger] header.field_types@[k]),
        //@loopend 0
            proof {
                assert(enc_fields(*header, (i + 1) as nat) == enc_fields(*header, i as nat) + enc_field(header.field_names@[i as int]@, header.field_types@[i as int]));
                assert(dc_sink.writer.out() =~= old(dc_sink).writer.out() + (be(header.field_types@.len(), 4) + enc_fields(*header, (i + 1) as nat)));
            }
    //@end
    //@fn src/write/dc_sink.rs | DCSink | write_header
        //@ret r
        //@spec
        requires header_ok(*old(header)),
        ensures
            *final(header) == *old(header),
            sink_wrote(*old(dc_sink), *final(dc_sink), r is Ok, enc_header(*old(header))),
            r is Ok ==> forall|i: int| 0 <= i < old(header).field_types@.len() ==> supported(#[trigger] old(header).field_types@[i]),
            r is Err && old(dc_sink).writer.sound() ==> exists|i: int| 0 <= i < old(header).field_types@.len() && !supported(#[trigger] old(header).field_types@[i]),
        //@sig «mut dc_sink» => «dc_sink» needless mut on the parameter
        //@sub «&mut dc_sink» => «dc_sink» reborrow through the parameter
        //@before «Ok(())»
        proof {
            let h = *old(header); let n = h.field_types@.len();
            assert(old(dc_sink).writer.out() + be(0x44434154, 8) + be(2, 2) + be(0, 4) + (be(n, 4) + enc_fields(h, n)) =~= old(dc_sink).writer.out() + enc_header(h));
        }
    //@end
    //@fn src/write/dc_sink.rs | HeaderSink for DCSink | process_header
        //@ret r
        //@sig «Box<dyn DataSink>» => «Box<DCSink>» coercion to the trait object dropped
        //@rw «self_.boxed()» => «self_» coercion to the trait object dropped
        //@spec
        requires header_ok(*old(header)),
        ensures
            *final(header) == *old(header),
            r matches Ok(s) ==> s.writer.out() == self.writer.out() + enc_header(*old(header)) && s.bitset_bytes == bitset_len(old(header).field_types@.len())
                && s.writer.sound() == self.writer.sound(),
            r is Err && self.writer.sound() ==> exists|i: int| 0 <= i < old(header).field_types@.len() && !supported(#[trigger] old(header).field_types@[i]),
    //@end
    //@fn src/write/dc_sink.rs | DataSink for DCSink | write_row
        //@ret r
        //@start
        broadcast use lemma_set_bit;
        //@spec
        requires
            old(io_rows)@.len() >= 1,
            old(self).bitset_bytes == bitset_len(old(io_rows)@[0].field_values@.len()),
            forall|i: int| 0 <= i < old(io_rows)@[0].field_values@.len() ==> (#[trigger] old(io_rows)@[0].field_values@[i] matches FieldValue::String(x) ==> encode_utf8(x@).len() < 0x1_0000_0000),
        ensures
            final(io_rows)@ == old(io_rows)@,
            sink_wrote(*old(self), *final(self), r is Ok, enc_row(old(io_rows)@[0].timestamp, old(io_rows)@[0].field_values@)),
            r is Err && old(self).writer.sound() ==> exists|i: int| 0 <= i < old(io_rows)@[0].field_values@.len() && !writable(#[trigger] old(io_rows)@[0].field_values@[i]),
        //@loop 0
            invariant
                field_count == if 8 * _i < field_values@.len() { 8 * _i } else { field_values@.len() as int },
                bitset_bytes@.len() == _i,
                self.bitset_bytes == bitset_len(field_values@.len()),
                forall|k: int| 0 <= k < _i ==> #[trigger] bitset_bytes@[k] == null_byte(field_values@, k),
        //@loop 1
            invariant
                field_count == if 8 * _i + _j < field_values@.len() { 8 * _i + _j } else { field_values@.len() as int },
                8 * _i < field_values@.len(),
                current_bit == field_count - 8 * _i,
                current_bitset == null_bits(field_values@, 8 * _i, current_bit as nat),
                current_bit <= _j <= 8,
                current_bit < _j ==> field_count == field_values@.len(),
                current_bitset < pow2n(current_bit as nat),
            ensures
                current_bit == 8 || field_count == field_values@.len(),
        //@loopstart 1
            proof { lemma_pow2n(); assert(null_bits(field_values@, 8 * _i, (current_bit + 1) as nat) == null_bits(field_values@, 8 * _i, current_bit as nat)
                + if 8 * _i + current_bit < field_values@.len() && field_values@[8 * _i + current_bit] is None { pow2n(current_bit as nat) } else { 0 }); }
        //@afterloop 1
            proof { lemma_null_tail(field_values@, 8 * _i as int, current_bit as nat); }
        //@iter 2 it
        //@tailcontinue 2
        //@before «for value in»
        proof { assert(bitset_bytes@ =~= enc_nulls(field_values@)); let ghost w0 = self.writer.out(); }
        //@loop 2
            invariant
                *io_rows == *old(io_rows), row == io_rows@[0], *field_values == row.field_values,
                self.bitset_bytes == old(self).bitset_bytes, self.writer.sound() == old(self).writer.sound(),
                forall|i: int| 0 <= i < field_values@.len() ==> (#[trigger] field_values@[i] matches FieldValue::String(x) ==> encode_utf8(x@).len() < 0x1_0000_0000),
                self.writer.out() == old(self).writer.out() + be(row.timestamp as nat, 8) + enc_nulls(field_values@) + enc_values(field_values@.take(it.index@)),
        //@loopend 2
            proof {
                assert(field_values@.take(it.index@ + 1).drop_last() =~= field_values@.take(it.index@));
            }
        //@afterloop 2
        proof { assert(field_values@.take(field_values@.len() as int) =~= field_values@);
            assert(self.writer.out() =~= old(self).writer.out() + enc_row(row.timestamp, field_values@)); }
    //@end
    //@fn src/write/dc_sink.rs | DataSink for DCSink | flush
        //@ret r
        //@spec
        ensures sink_wrote(*old(self), *final(self), r is Ok, seq![]), r is Ok ==> final(self).writer.flushed(), r is Err ==> !old(self).writer.sound(),
        //@start
        proof { assert(self.writer.out() + seq![] =~= self.writer.out()); }
    //@end
}
proof fn lemma_null_tail(v: Seq<FieldValue>, start: int, j: nat)
    requires j <= 8, start >= 0, j == 8 || start + j >= v.len(),
    ensures null_bits(v, start, 8) == null_bits(v, start, j)
    decreases 8 - j
{ if j < 8 { lemma_null_tail(v, start, j + 1); } }
fn main() {}
} // verus!
