// ---- decoding, as specification
enum P { Good(AV, int), Bad, Odd }
spec fn name_map() -> Map<Seq<char>, FieldType> {
    Map::empty()
        .insert("Z"@, FieldType::Boolean)
        .insert("B"@, FieldType::Byte)
        .insert("Ljava.lang.ByteBuffer;"@, FieldType::ByteBuf)
        .insert("C"@, FieldType::Char)
        .insert("D"@, FieldType::Double)
        .insert("F"@, FieldType::Float)
        .insert("I"@, FieldType::Int)
        .insert("J"@, FieldType::Long)
        .insert("S"@, FieldType::Short)
        .insert("Ljava.lang.String;"@, FieldType::String)
}
// 4 byte length, utf8 bytes
spec fn parse_sized(s: Seq<u8>) -> P {
    if s.len() < 4 { P::Bad } else {
        let n = unbe(s.take(4));
        if s.len() < 4 + n { P::Bad }
        else if !valid_utf8(s.subrange(4, 4 + n as int)) { P::Bad }
        else { P::Good(AV::Str(s.subrange(4, 4 + n as int)), 4 + n as int) }
    }
}
spec fn parse_val(t: FieldType, s: Seq<u8>) -> P {
    match t {
        FieldType::Boolean => P::Bad,
        FieldType::ByteBuf => P::Bad,
        FieldType::String => {
            if s.len() < 2 { P::Bad } else {
                let n = unbe(s.take(2));
                if n <= 32767 { parse_bytes(s, 2, n) }
                else if n != 0xffff { if s.len() < 2 + 0xffff_0000 + n { P::Bad } else { P::Odd } }   // no such length; read as one of over 4 GB
                else if s.len() < 6 { P::Bad }
                else { parse_bytes(s, 6, unbe(s.skip(2).take(4))) }
            }
        }
        _ => if s.len() < width(t) { P::Bad } else { P::Good(AV::Num(unbe(s.take(width(t) as int))), width(t) as int) }
    }
}
spec fn parse_bytes(s: Seq<u8>, at: int, n: nat) -> P {
    if s.len() < at + n { P::Bad }
    else if !valid_utf8(s.subrange(at, at + n)) { P::Bad }
    else { P::Good(AV::Str(s.subrange(at, at + n)), at + n) }
}
spec fn parse_desc(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>, Seq<u8>)> {
    match parse_sized(s) {
        P::Good(AV::Str(name), a) => match parse_sized(s.skip(a)) {
            P::Good(AV::Str(ty), b) => {
                let s2 = s.skip(a).skip(b);
                if s2.len() < 4 { None } else {
                    let h = unbe(s2.take(4));
                    if h != 0xffff_ffff && h > 6 { None } else { Some((name, ty, s2.skip(4))) }
                }
            }
            _ => None,
        },
        _ => None,
    }
}
enum F { Good(Seq<u8>, FieldType, Seq<u8>), Bad }
spec fn parse_field(s: Seq<u8>) -> F {
    match parse_desc(s) {
        Some((name, ty, rest)) => if name_map().dom().contains(decode_utf8(ty)) { F::Good(name, name_map()[decode_utf8(ty)], rest) } else { F::Bad },
        None => F::Bad,
    }
}
enum H { Good(Seq<Seq<u8>>, Seq<FieldType>, Seq<u8>), Bad }
spec fn h_cons(n: Seq<Seq<u8>>, t: Seq<FieldType>, h: H) -> H {
    match h { H::Good(n2, t2, r) => H::Good(n + n2, t + t2, r), H::Bad => H::Bad }
}
spec fn parse_fields(s: Seq<u8>, n: nat) -> H decreases n {
    if n == 0 { H::Good(seq![], seq![], s) } else {
        match parse_field(s) {
            F::Good(name, t, r) => h_cons(seq![name], seq![t], parse_fields(r, (n - 1) as nat)),
            F::Bad => H::Bad,
        }
    }
}
// magic number, version, user data size, user data, field count, field descriptors
spec fn parse_header(s: Seq<u8>) -> H {
    if s.len() < 14 || unbe(s.take(8)) != 0x44434154 || unbe(s.skip(8).take(2)) != 2 { H::Bad } else {
        let u = unbe(s.skip(10).take(4));
        if s.len() < 18 + u { H::Bad } else { parse_fields(s.skip(18 + u as int), unbe(s.skip(14 + u as int).take(4))) }
    }
}
// ---- rows
enum V { Good(Seq<AV>, Seq<u8>), Bad, Odd }
spec fn v_cons(a: Seq<AV>, v: V) -> V {
    match v { V::Good(b, r) => V::Good(a + b, r), _ => v }
}
spec fn is_null(bits: Seq<u8>, i: int) -> bool { bit(bits[i / 8] as nat, (i % 8) as nat) }
spec fn parse_vals(types: Seq<FieldType>, bits: Seq<u8>, s: Seq<u8>, i: int) -> V decreases types.len() - i {
    if i < 0 || i >= types.len() { V::Good(seq![], s) }
    else if is_null(bits, i) { v_cons(seq![AV::Null], parse_vals(types, bits, s, i + 1)) }
    else {
        match parse_val(types[i], s) {
            P::Good(v, n) => v_cons(seq![v], parse_vals(types, bits, s.skip(n), i + 1)),
            P::Bad => V::Bad,
            P::Odd => V::Odd,
        }
    }
}
enum RowP { Good(nat, Seq<AV>, Seq<u8>), Bad, Odd }
spec fn parse_row(types: Seq<FieldType>, s: Seq<u8>) -> RowP {
    let nb = bitset_len(types.len());
    if s.len() < 8 + nb { RowP::Bad } else {
        match parse_vals(types, s.subrange(8, 8 + nb as int), s.skip(8 + nb as int), 0) {
            V::Good(v, r) => RowP::Good(unbe(s.take(8)), v, r),
            V::Bad => RowP::Bad,
            V::Odd => RowP::Odd,
        }
    }
}
spec fn abs_seq(v: Seq<FieldValue>) -> Seq<AV> { Seq::new(v.len(), |i: int| abs(v[i])) }
