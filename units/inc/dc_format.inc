// ---- the DC file format, as specification
mod dc_util { pub(crate) use super::*; }

// what a value looks like on the wire: null, the unsigned payload of a number, the utf8 bytes of a string
enum AV { Null, Num(nat), Str(Seq<u8>) }
spec fn abs(v: FieldValue) -> AV {
    match v {
        FieldValue::Byte(x) => AV::Num(x as nat),
        FieldValue::Char(x) => AV::Num(x as nat),
        FieldValue::Double(x) => AV::Num(f64bits(x) as nat),
        FieldValue::Float(x) => AV::Num(f32bits(x) as nat),
        FieldValue::Int(x) => AV::Num(x as u32 as nat),
        FieldValue::Long(x) => AV::Num(x as u64 as nat),
        FieldValue::Short(x) => AV::Num(x as u16 as nat),
        FieldValue::String(x) => AV::Str(encode_utf8(x@)),
        _ => AV::Null,
    }
}
spec fn supported(t: FieldType) -> bool { !(t is Boolean) && !(t is ByteBuf) }
// value v may stand in a column of type t
spec fn conforms(v: FieldValue, t: FieldType) -> bool {
    match v {
        FieldValue::None => true,
        FieldValue::Byte(_) => t is Byte,
        FieldValue::Char(_) => t is Char,
        FieldValue::Double(_) => t is Double,
        FieldValue::Float(_) => t is Float,
        FieldValue::Int(_) => t is Int,
        FieldValue::Long(_) => t is Long,
        FieldValue::Short(_) => t is Short,
        FieldValue::String(x) => t is String && encode_utf8(x@).len() < 0x1_0000_0000,
        _ => false,
    }
}
spec fn writable(v: FieldValue) -> bool {
    !(v is Boolean) && !(v is ByteBuf) && (v matches FieldValue::String(x) ==> encode_utf8(x@).len() < 0x1_0000_0000)
}
spec fn width(t: FieldType) -> nat {
    match t {
        FieldType::Byte => 1,
        FieldType::Char => 2,
        FieldType::Short => 2,
        FieldType::Int => 4,
        FieldType::Float => 4,
        FieldType::Long => 8,
        FieldType::Double => 8,
        _ => 0,
    }
}
// ---- encoding
spec fn enc_str(b: Seq<u8>) -> Seq<u8> {
    if b.len() <= 32767 { be(b.len(), 2) + b } else { be(0xffff, 2) + be(b.len(), 4) + b }
}
spec fn enc_value(v: FieldValue) -> Seq<u8> {
    match v {
        FieldValue::Byte(x) => seq![x],
        FieldValue::Char(x) => be(x as nat, 2),
        FieldValue::Double(x) => be(f64bits(x) as nat, 8),
        FieldValue::Float(x) => be(f32bits(x) as nat, 4),
        FieldValue::Int(x) => be(x as u32 as nat, 4),
        FieldValue::Long(x) => be(x as u64 as nat, 8),
        FieldValue::Short(x) => be(x as u16 as nat, 2),
        FieldValue::String(x) => enc_str(encode_utf8(x@)),
        _ => seq![],
    }
}
spec fn enc_values(v: Seq<FieldValue>) -> Seq<u8> decreases v.len() {
    if v.len() == 0 { seq![] } else { enc_values(v.drop_last()) + enc_value(v.last()) }
}
pub open spec fn pow2n(k: nat) -> nat decreases k { if k == 0 { 1 } else { 2 * pow2n((k - 1) as nat) } }
// bit j of a byte
spec fn bit(b: nat, j: nat) -> bool { (b / pow2n(j)) % 2 == 1 }
// the first j bits of the null bitset byte that starts at column `start`
spec fn null_bits(v: Seq<FieldValue>, start: int, j: nat) -> nat decreases j {
    if j == 0 { 0 } else {
        null_bits(v, start, (j - 1) as nat) + if start + j - 1 < v.len() && v[start + j - 1] is None { pow2n((j - 1) as nat) } else { 0 }
    }
}
spec fn null_byte(v: Seq<FieldValue>, k: int) -> u8 { null_bits(v, 8 * k, 8) as u8 }
spec fn bitset_len(n: nat) -> nat { (n + 7) / 8 }
spec fn enc_nulls(v: Seq<FieldValue>) -> Seq<u8> { Seq::new(bitset_len(v.len()), |k: int| null_byte(v, k)) }
spec fn enc_row(ts: u64, v: Seq<FieldValue>) -> Seq<u8> { be(ts as nat, 8) + enc_nulls(v) + enc_values(v) }

spec fn enc_sized(b: Seq<u8>) -> Seq<u8> { be(b.len(), 4) + b }
spec fn type_code(t: FieldType) -> Seq<char> {
    match t {
        FieldType::Boolean => "Z"@,
        FieldType::Byte => "B"@,
        FieldType::ByteBuf => "Ljava.lang.ByteBuffer;"@,
        FieldType::Char => "C"@,
        FieldType::Double => "D"@,
        FieldType::Float => "F"@,
        FieldType::Int => "I"@,
        FieldType::Long => "J"@,
        FieldType::Short => "S"@,
        FieldType::String => "Ljava.lang.String;"@,
    }
}
spec fn enc_field(name: Seq<char>, t: FieldType) -> Seq<u8> {
    enc_sized(encode_utf8(name)) + enc_sized(encode_utf8(type_code(t))) + be(0xffff_ffff, 4)
}
spec fn enc_fields(h: Header, k: nat) -> Seq<u8> decreases k {
    if k == 0 { seq![] } else { enc_fields(h, (k - 1) as nat) + enc_field(h.field_names@[k - 1]@, h.field_types@[k - 1]) }
}
spec fn enc_head(n: nat) -> Seq<u8> { be(0x44434154, 8) + be(2, 2) + be(0, 4) + be(n, 4) }
spec fn enc_header(h: Header) -> Seq<u8> { enc_head(h.field_types@.len()) + enc_fields(h, h.field_types@.len()) }
spec fn header_ok(h: Header) -> bool {
    &&& h.field_names@.len() == h.field_types@.len() < 0x1_0000_0000
    &&& forall|i: int| 0 <= i < h.field_names@.len() ==> encode_utf8((#[trigger] h.field_names@[i])@).len() < 0x1_0000_0000
}

// ---- std::collections::HashMap as a ghost map (assumed)
trait HKey { type V; spec fn kv(&self) -> Self::V; }
impl HKey for str { type V = Seq<char>; spec fn kv(&self) -> Seq<char> { self@ } }
impl HKey for &'static str { type V = Seq<char>; spec fn kv(&self) -> Seq<char> { self@ } }
impl HKey for FieldType { type V = FieldType; spec fn kv(&self) -> FieldType { *self } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
struct HashMap<K, V> { m: core::marker::PhantomData<(K, V)> }
impl<K: HKey, V> HashMap<K, V> {
    uninterp spec fn view(&self) -> Map<K::V, V>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r.view() == Map::<K::V, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).view() == old(self).view().insert(k.kv(), v) { unimplemented!() }
    #[verifier::external_body]
    fn get<Q: HKey<V = K::V> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures match r { Some(v) => self.view().dom().contains(k.kv()) && self.view()[k.kv()] == *v, None => !self.view().dom().contains(k.kv()) }
    { unimplemented!() }
}
spec fn type_map() -> Map<FieldType, &'static str> {
    Map::empty()
        .insert(FieldType::Boolean, code_str(FieldType::Boolean))
        .insert(FieldType::Byte, code_str(FieldType::Byte))
        .insert(FieldType::ByteBuf, code_str(FieldType::ByteBuf))
        .insert(FieldType::Char, code_str(FieldType::Char))
        .insert(FieldType::Double, code_str(FieldType::Double))
        .insert(FieldType::Float, code_str(FieldType::Float))
        .insert(FieldType::Int, code_str(FieldType::Int))
        .insert(FieldType::Long, code_str(FieldType::Long))
        .insert(FieldType::Short, code_str(FieldType::Short))
        .insert(FieldType::String, code_str(FieldType::String))
}
// some &'static str with that text
spec fn code_str(t: FieldType) -> &'static str {
    match t {
        FieldType::Boolean => "Z",
        FieldType::Byte => "B",
        FieldType::ByteBuf => "Ljava.lang.ByteBuffer;",
        FieldType::Char => "C",
        FieldType::Double => "D",
        FieldType::Float => "F",
        FieldType::Int => "I",
        FieldType::Long => "J",
        FieldType::Short => "S",
        FieldType::String => "Ljava.lang.String;",
    }
}
//@item src/util/dc_util.rs | const | MAGIC_NUM
//@item src/util/dc_util.rs | const | VERSION
//@item src/util/dc_util.rs | enum | DisplayHint
//@fn src/util/dc_util.rs | - | get_bitset_bytes
    //@ret r
    //@spec
    requires field_count <= usize::MAX - 8,
    ensures r == bitset_len(field_count as nat),
//@end

proof fn lemma_ascii(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128,
    ensures encode_utf8(s).len() == s.len()
{ is_ascii_chars_encode_utf8(s); }
proof fn lemma_codes(t: FieldType) ensures code_str(t)@ == type_code(t), encode_utf8(type_code(t)).len() < 0x1_0000_0000
{
    reveal_strlit("Z"); reveal_strlit("B"); reveal_strlit("C"); reveal_strlit("D"); reveal_strlit("F"); reveal_strlit("I"); reveal_strlit("J"); reveal_strlit("S");
    reveal_strlit("Ljava.lang.ByteBuffer;"); reveal_strlit("Ljava.lang.String;");
    let c = type_code(t);
    lemma_ascii(c);
}
proof fn lemma_pow2n()
    ensures pow2n(0) == 1, pow2n(1) == 2, pow2n(2) == 4, pow2n(3) == 8, pow2n(4) == 16, pow2n(5) == 32, pow2n(6) == 64, pow2n(7) == 128, pow2n(8) == 256
{ reveal_with_fuel(pow2n, 9); }
