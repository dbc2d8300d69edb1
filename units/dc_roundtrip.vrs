//@include inc/base.inc
//@include inc/io.inc
//@include inc/types.inc
//@include inc/dc_format.inc
//@include inc/dc_parse.inc
// what the reader's contract (parse_*) says about what the writer's contract (enc_*) says was written.

proof fn lemma_take_skip(a: Seq<u8>, b: Seq<u8>)
    ensures (a + b).take(a.len() as int) == a, (a + b).skip(a.len() as int) == b
{ assert((a + b).take(a.len() as int) =~= a); assert((a + b).skip(a.len() as int) =~= b); }

proof fn lemma_be_parse(v: nat, k: nat, tail: Seq<u8>)
    requires v < pow256(k),
    ensures unbe((be(v, k) + tail).take(k as int)) == v, (be(v, k) + tail).skip(k as int) == tail, be(v, k).len() == k
{ lemma_be(v, k); lemma_take_skip(be(v, k), tail); }

proof fn lemma_enc_append(a: Seq<FieldValue>, b: Seq<FieldValue>)
    ensures enc_values(a + b) == enc_values(a) + enc_values(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(enc_values(a) + enc_values(b) =~= enc_values(a)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_enc_append(a, b.drop_last());
        assert(enc_values(a + b) =~= enc_values(a) + enc_values(b));
    }
}
proof fn lemma_enc_one(x: FieldValue) ensures enc_values(seq![x]) == enc_value(x)
{ assert(seq![x].drop_last() =~= seq![]); assert(enc_values(seq![]) =~= seq![]) by { reveal_with_fuel(enc_values, 2); } reveal_with_fuel(enc_values, 2); assert(enc_values(seq![x]) =~= enc_value(x)); }

// each value, preceded by nothing and followed by anything, reads back
proof fn lemma_value_roundtrip(v: FieldValue, t: FieldType, tail: Seq<u8>)
    requires conforms(v, t), !(v is None), supported(t),
    ensures parse_val(t, enc_value(v) + tail) == P::Good(abs(v), enc_value(v).len() as int), (enc_value(v) + tail).skip(enc_value(v).len() as int) == tail
{
    lemma_pow256();
    lemma_take_skip(enc_value(v), tail);
    match v {
        FieldValue::Byte(x) => { reveal_with_fuel(unbe, 3); assert(seq![x].drop_last() =~= seq![]); assert(unbe(seq![x]) == x); }
        FieldValue::Char(x) => { lemma_be_parse(x as nat, 2, tail); }
        FieldValue::Short(x) => { lemma_be_parse(x as u16 as nat, 2, tail); }
        FieldValue::Int(x) => { lemma_be_parse(x as u32 as nat, 4, tail); }
        FieldValue::Float(x) => { lemma_be_parse(f32bits(x) as nat, 4, tail); }
        FieldValue::Long(x) => { lemma_be_parse(x as u64 as nat, 8, tail); }
        FieldValue::Double(x) => { lemma_be_parse(f64bits(x) as nat, 8, tail); }
        FieldValue::String(x) => {
            let b = encode_utf8(x@);
            encode_utf8_valid_utf8(x@);
            let s = enc_value(v) + tail;
            if b.len() <= 32767 {
                lemma_be(b.len(), 2);
                assert(s.take(2) =~= be(b.len(), 2));
                assert(s.subrange(2, 2 + b.len() as int) =~= b);
            } else {
                lemma_be(0xffff, 2); lemma_be(b.len(), 4);
                assert(s.take(2) =~= be(0xffff, 2));
                assert(s.skip(2).take(4) =~= be(b.len(), 4));
                assert(s.subrange(6, 6 + b.len() as int) =~= b);
            }
        }
        _ => {}
    }
}
proof fn lemma_bits(b0: int, b1: int, b2: int, b3: int, b4: int, b5: int, b6: int, b7: int)
    requires 0 <= b0 <= 1, 0 <= b1 <= 1, 0 <= b2 <= 1, 0 <= b3 <= 1, 0 <= b4 <= 1, 0 <= b5 <= 1, 0 <= b6 <= 1, 0 <= b7 <= 1,
    ensures ({ let n = b0 + 2 * b1 + 4 * b2 + 8 * b3 + 16 * b4 + 32 * b5 + 64 * b6 + 128 * b7;
        0 <= n < 256 && n % 2 == b0 && (n / 2) % 2 == b1 && (n / 4) % 2 == b2 && (n / 8) % 2 == b3 && (n / 16) % 2 == b4 && (n / 32) % 2 == b5 && (n / 64) % 2 == b6 && (n / 128) % 2 == b7 })
{
    let n = b0 + 2 * b1 + 4 * b2 + 8 * b3 + 16 * b4 + 32 * b5 + 64 * b6 + 128 * b7;
    assert(n / 2 == b1 + 2 * b2 + 4 * b3 + 8 * b4 + 16 * b5 + 32 * b6 + 64 * b7);
    assert(n / 4 == b2 + 2 * b3 + 4 * b4 + 8 * b5 + 16 * b6 + 32 * b7);
    assert(n / 8 == b3 + 2 * b4 + 4 * b5 + 8 * b6 + 16 * b7);
    assert(n / 16 == b4 + 2 * b5 + 4 * b6 + 8 * b7);
    assert(n / 32 == b5 + 2 * b6 + 4 * b7);
    assert(n / 64 == b6 + 2 * b7);
    assert(n / 128 == b7);
}
proof fn lemma_null_bit(v: Seq<FieldValue>, k: int, j: nat)
    requires 0 <= k, j < 8,
    ensures null_bits(v, 8 * k, 8) < 256, bit(null_byte(v, k) as nat, j) == (8 * k + j < v.len() && v[8 * k + j] is None)
{
    reveal_with_fuel(null_bits, 9); reveal_with_fuel(pow2n, 9);
    let s = 8 * k;
    let b = |i: int| if s + i < v.len() && v[s + i] is None { 1int } else { 0int };
    let n = null_bits(v, s, 8) as int;
    lemma_bits(b(0), b(1), b(2), b(3), b(4), b(5), b(6), b(7));
    assert(n == b(0) + 2 * b(1) + 4 * b(2) + 8 * b(3) + 16 * b(4) + 32 * b(5) + 64 * b(6) + 128 * b(7));
    assert(j == 0 || j == 1 || j == 2 || j == 3 || j == 4 || j == 5 || j == 6 || j == 7);
}
proof fn lemma_vals_roundtrip(v: Seq<FieldValue>, types: Seq<FieldType>, i: int, tail: Seq<u8>)
    requires
        0 <= i <= v.len() == types.len(),
        forall|k: int| 0 <= k < v.len() ==> conforms(#[trigger] v[k], types[k]) && (v[k] is None || supported(types[k])),
    ensures parse_vals(types, enc_nulls(v), enc_values(v.skip(i)) + tail, i) == V::Good(abs_seq(v.skip(i)), tail)
    decreases v.len() - i
{
    let s = enc_values(v.skip(i)) + tail;
    if i == v.len() {
        assert(v.skip(i) =~= seq![]);
        assert(abs_seq(v.skip(i)) =~= seq![]);
        assert(s =~= tail);
    } else {
        let x = v[i];
        lemma_vals_roundtrip(v, types, i + 1, tail);
        assert(v.skip(i) =~= seq![x] + v.skip(i + 1));
        lemma_enc_append(seq![x], v.skip(i + 1));
        lemma_enc_one(x);
        let rest = enc_values(v.skip(i + 1)) + tail;
        assert(s =~= enc_value(x) + rest);
        lemma_null_bit(v, i / 8, (i % 8) as nat);
        assert(8 * (i / 8) + i % 8 == i);
        assert(is_null(enc_nulls(v), i) == (x is None));
        assert(seq![abs(x)] + abs_seq(v.skip(i + 1)) =~= abs_seq(v.skip(i)));
        if x is None { assert(s =~= rest); }
        else { lemma_value_roundtrip(x, types[i], rest); }
    }
}
// ROUND TRIP of a row: any timestamp, any conforming values, any number of columns, whatever follows
proof fn row_roundtrip(ts: u64, v: Seq<FieldValue>, types: Seq<FieldType>, tail: Seq<u8>)
    requires
        v.len() == types.len(),
        forall|k: int| 0 <= k < v.len() ==> conforms(#[trigger] v[k], types[k]) && (v[k] is None || supported(types[k])),
    ensures parse_row(types, enc_row(ts, v) + tail) == RowP::Good(ts as nat, abs_seq(v), tail)
{
    lemma_pow256();
    let s = enc_row(ts, v) + tail;
    let nb = bitset_len(v.len());
    lemma_be(ts as nat, 8);
    assert(s.take(8) =~= be(ts as nat, 8));
    assert(s.subrange(8, 8 + nb as int) =~= enc_nulls(v));
    assert(s.skip(8 + nb as int) =~= enc_values(v) + tail);
    assert(v.skip(0) =~= v);
    lemma_vals_roundtrip(v, types, 0, tail);
}
// abs determines the value of a column, except for the bits of a nan
proof fn abs_injective(a: FieldValue, b: FieldValue, t: FieldType)
    requires conforms(a, t), conforms(b, t), abs(a) == abs(b),
    ensures match (a, b) {
        (FieldValue::None, FieldValue::None) => true,
        (FieldValue::Double(x), FieldValue::Double(y)) => f64bits(x) == f64bits(y),
        (FieldValue::Float(x), FieldValue::Float(y)) => f32bits(x) == f32bits(y),
        (FieldValue::String(x), FieldValue::String(y)) => x@ == y@,
        _ => a == b,
    }
{
    match (a, b) {
        (FieldValue::Int(x), FieldValue::Int(y)) => { assert(x as u32 == y as u32 ==> x == y) by(bit_vector); }
        (FieldValue::Long(x), FieldValue::Long(y)) => { assert(x as u64 == y as u64 ==> x == y) by(bit_vector); }
        (FieldValue::Short(x), FieldValue::Short(y)) => { assert(x as u16 == y as u16 ==> x == y) by(bit_vector); }
        (FieldValue::String(x), FieldValue::String(y)) => { encode_utf8_decode_utf8(x@); encode_utf8_decode_utf8(y@); }
        _ => {}
    }
}
// ---- header
proof fn lemma_sized_roundtrip(c: Seq<char>, tail: Seq<u8>)
    requires encode_utf8(c).len() < 0x1_0000_0000,
    ensures parse_sized(enc_sized(encode_utf8(c)) + tail) == P::Good(AV::Str(encode_utf8(c)), 4 + encode_utf8(c).len() as int),
        (enc_sized(encode_utf8(c)) + tail).skip(4 + encode_utf8(c).len() as int) == tail
{
    lemma_pow256();
    let b = encode_utf8(c);
    encode_utf8_valid_utf8(c);
    lemma_be(b.len(), 4);
    let s = enc_sized(b) + tail;
    assert(s.take(4) =~= be(b.len(), 4));
    assert(s.subrange(4, 4 + b.len() as int) =~= b);
    assert(s.skip(4 + b.len() as int) =~= tail);
}
proof fn lemma_map_roundtrip(t: FieldType)
    ensures name_map().dom().contains(type_code(t)), name_map()[type_code(t)] == t
{
    reveal_strlit("Z"); reveal_strlit("B"); reveal_strlit("C"); reveal_strlit("D"); reveal_strlit("F"); reveal_strlit("I"); reveal_strlit("J"); reveal_strlit("S");
    reveal_strlit("Ljava.lang.ByteBuffer;"); reveal_strlit("Ljava.lang.String;");
    assert("Ljava.lang.ByteBuffer;"@.len() != "Ljava.lang.String;"@.len());
    assert("Z"@[0] == 'Z'); assert("B"@[0] == 'B'); assert("C"@[0] == 'C'); assert("D"@[0] == 'D'); assert("F"@[0] == 'F'); assert("I"@[0] == 'I'); assert("J"@[0] == 'J'); assert("S"@[0] == 'S');
}
proof fn lemma_field_roundtrip(name: Seq<char>, t: FieldType, tail: Seq<u8>)
    requires encode_utf8(name).len() < 0x1_0000_0000,
    ensures parse_field(enc_field(name, t) + tail) == F::Good(encode_utf8(name), t, tail)
{
    lemma_codes(t); lemma_pow256(); lemma_map_roundtrip(t);
    let hint = be(0xffff_ffff, 4);
    let ty = encode_utf8(type_code(t));
    encode_utf8_decode_utf8(type_code(t));
    let s = enc_field(name, t) + tail;
    assert(s =~= enc_sized(encode_utf8(name)) + (enc_sized(ty) + (hint + tail)));
    lemma_sized_roundtrip(name, enc_sized(ty) + (hint + tail));
    lemma_sized_roundtrip(type_code(t), hint + tail);
    lemma_be_parse(0xffff_ffff, 4, tail);
}
spec fn enc_fields_from(h: Header, i: nat) -> Seq<u8> decreases h.field_types@.len() - i {
    if i >= h.field_types@.len() { seq![] } else { enc_field(h.field_names@[i as int]@, h.field_types@[i as int]) + enc_fields_from(h, i + 1) }
}
proof fn lemma_fields_split(h: Header, i: nat)
    requires i <= h.field_types@.len(),
    ensures enc_fields(h, h.field_types@.len()) == enc_fields(h, i) + enc_fields_from(h, i)
    decreases h.field_types@.len() - i
{
    if i == h.field_types@.len() { assert(enc_fields(h, i) + enc_fields_from(h, i) =~= enc_fields(h, i)); }
    else {
        lemma_fields_split(h, i + 1);
        assert(enc_fields(h, i + 1) == enc_fields(h, i) + enc_field(h.field_names@[i as int]@, h.field_types@[i as int]));
        assert(enc_fields(h, i) + enc_fields_from(h, i) =~= enc_fields(h, i + 1) + enc_fields_from(h, i + 1));
    }
}
spec fn names_of(h: Header) -> Seq<Seq<u8>> { Seq::new(h.field_names@.len(), |i: int| encode_utf8(h.field_names@[i]@)) }
proof fn lemma_fields_roundtrip(h: Header, i: nat, tail: Seq<u8>)
    requires header_ok(h), i <= h.field_types@.len(),
    ensures parse_fields(enc_fields_from(h, i) + tail, (h.field_types@.len() - i) as nat) == H::Good(names_of(h).skip(i as int), h.field_types@.skip(i as int), tail)
    decreases h.field_types@.len() - i
{
    hide(parse_field); hide(enc_field);
    let s = enc_fields_from(h, i) + tail;
    if i == h.field_types@.len() {
        assert(names_of(h).skip(i as int) =~= seq![]); assert(h.field_types@.skip(i as int) =~= seq![]); assert(s =~= tail);
    } else {
        lemma_fields_roundtrip(h, i + 1, tail);
        let nm = h.field_names@[i as int]@; let t = h.field_types@[i as int];
        let rest = enc_fields_from(h, i + 1) + tail;
        assert(s =~= enc_field(nm, t) + rest);
        lemma_field_roundtrip(nm, t, rest);
        assert(parse_fields(s, (h.field_types@.len() - i) as nat) == h_cons(seq![encode_utf8(nm)], seq![t], parse_fields(rest, (h.field_types@.len() - (i + 1)) as nat)));
        assert(seq![encode_utf8(nm)] + names_of(h).skip(i as int + 1) =~= names_of(h).skip(i as int));
        assert(seq![t] + h.field_types@.skip(i as int + 1) =~= h.field_types@.skip(i as int));
    }
}
// ROUND TRIP of a header: any number of columns, any names
proof fn header_roundtrip(h: Header, tail: Seq<u8>)
    requires header_ok(h),
    ensures parse_header(enc_header(h) + tail) == H::Good(names_of(h), h.field_types@, tail)
{
    lemma_pow256();
    let n = h.field_types@.len();
    let s = enc_header(h) + tail;
    lemma_be(0x44434154, 8); lemma_be(2, 2); lemma_be(0, 4); lemma_be(n, 4);
    assert(s.take(8) =~= be(0x44434154, 8));
    assert(s.skip(8).take(2) =~= be(2, 2));
    assert(s.skip(10).take(4) =~= be(0, 4));
    assert(s.skip(14).take(4) =~= be(n, 4));
    lemma_fields_split(h, 0);
    assert(enc_fields(h, 0) =~= seq![]);
    assert(s.skip(18) =~= enc_fields_from(h, 0) + tail);
    lemma_fields_roundtrip(h, 0, tail);
    assert(names_of(h).skip(0) =~= names_of(h)); assert(h.field_types@.skip(0) =~= h.field_types@);
}
fn main() {}
} // verus!
