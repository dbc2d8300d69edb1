use std::collections::HashMap;
// ---- std::collections::HashMap: entry().and_modify(+= 1), indexing (assumed)
#[verifier::external_body]
fn map_bump(m: &mut HashMap<u8, u32>, k: u8)
    requires old(m)@.dom().contains(k) ==> old(m)@[k] < u32::MAX,
    ensures final(m)@ == (if old(m)@.dom().contains(k) { old(m)@.insert(k, (old(m)@[k] + 1) as u32) } else { old(m)@ })
{ unimplemented!() }
#[verifier::external_body]
fn map_get<'a>(m: &'a HashMap<u8, u32>, k: &u8) -> (r: &'a u32) requires m@.dom().contains(*k) ensures *r == m@[*k] { unimplemented!() }
#[verifier::external_body]
fn types_ne(a: &Vec<FieldType>, b: &Vec<FieldType>) -> (r: bool) ensures r == (a@ != b@) { unimplemented!() }
#[verifier::external_body]
fn slice_to_vec(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { unimplemented!() }
macro_rules! assert_ne { ($a:expr, $b:expr) => { claim($a != $b) } }
spec fn cmp_spec(a: u32, b: u32) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }

// ---- delimiters
spec fn count(s: Seq<u8>, d: u8) -> nat decreases s.len() { if s.len() == 0 { 0 } else { count(s.drop_last(), d) + if s.last() == d { 1nat } else { 0nat } } }
proof fn lemma_count(s: Seq<u8>, d: u8) ensures count(s, d) <= s.len() decreases s.len() { if s.len() > 0 { lemma_count(s.drop_last(), d); } }
// d occurs most often, and is the earliest such candidate
spec fn best(line: Seq<u8>, cands: Seq<u8>, k: int) -> bool {
    &&& 0 <= k < cands.len()
    &&& forall|j: int| 0 <= j < cands.len() ==> count(line, #[trigger] cands[j]) <= count(line, cands[k])
    &&& forall|j: int| 0 <= j < k ==> count(line, #[trigger] cands[j]) < count(line, cands[k])
}
spec fn is_best(line: Seq<u8>, cands: Seq<u8>, d: u8) -> bool { exists|k: int| best(line, cands, k) && d == cands[k] }
// the first of the candidates sorted by descending count (stable) is the best
proof fn lemma_first_best<F: Fn(&u8, &u8) -> Ordering>(new: Seq<u8>, cands: Seq<u8>, f: F, line: Seq<u8>)
    requires stable_sorted(new, cands, f), cands.len() > 0,
        forall|a: u8, b: u8, o: Ordering| #[trigger] cmp_is(f, a, b, o) && cands.contains(a) && cands.contains(b) ==> (o is Greater <==> count(line, b) > count(line, a)) && (o is Equal <==> count(line, a) == count(line, b)),
    ensures is_best(line, cands, new[0]),
{
    let p = choose|p: Seq<int>| sorted_from(new, cands, f, p);
    assert forall|m: int| 0 <= m < cands.len() && m != p[0] implies count(line, #[trigger] cands[m]) <= count(line, cands[p[0]]) && (m < p[0] ==> count(line, cands[m]) < count(line, cands[p[0]])) by {
        assert(p.contains(m));
        let i = choose|i: int| 0 <= i < p.len() && p[i] == m;
        let o = choose|o: Ordering| #[trigger] cmp_is(f, cands[p[0]], cands[p[i]], o) && !(o is Greater) && (o is Equal ==> p[0] < p[i]);
        assert(cands.contains(cands[p[0]]) && cands.contains(cands[p[i]]));
    }
    assert(best(line, cands, p[0]));
}
proof fn lemma_ascii_char(s: Seq<char>)
    ensures encode_utf8(s).len() == 1 <==> (s.len() == 1 && s[0] as u32 <= 127),
{
    reveal_with_fuel(encode_utf8, 3);
    if s.len() > 0 {
        assert(encode_utf8(s) == encode_scalar(s[0] as u32) + encode_utf8(s.drop_first()));
        assert(encode_scalar(s[0] as u32).len() >= 1);
        if s.len() >= 2 { assert(encode_utf8(s.drop_first()) == encode_scalar(s[1] as u32) + encode_utf8(s.drop_first().drop_first())); }
    }
}
//@fn src/util/csv_util.rs | - | parse_into_delimiter
    //@ret r
    //@rw «$s.len()» => «str_len($s)» (std method as a function with a contract)
    //@rw «$s.chars().next()» => «first_char($s)» (std methods as a function with a contract)
    //@rw «$c.is_ascii()» => «char_is_ascii($c)» (std method as a function with a contract)
    //@spec
    ensures
        str@ == r"\t"@ ==> r == Ok::<u8, Error>(9u8),
        str@ != r"\t"@ && str@.len() == 1 && str@[0] as u32 <= 127 ==> r == Ok::<u8, Error>(str@[0] as u8),
        str@ != r"\t"@ && !(str@.len() == 1 && str@[0] as u32 <= 127) ==> r is Err,
    //@start
    proof { lemma_ascii_char(str@); }
//@end
//@fn src/util/csv_util.rs | - | guess_delimiter
    //@ret r
    //@attr #[verifier::loop_isolation(false)]
    //@rw «counts.entry($k).and_modify(|$c| *$d += 1)» => «map_bump(&mut counts, $k)» (std method as a function with a contract)
    //@rw «$s.bytes()» => «str_bytes($s)» (std method as a function with a contract)
    //@rw «counts[$x]» => «(*map_get(&counts, $x))» (std indexing as a function with a contract)
    //@rw «$v.to_vec()» => «slice_to_vec($v)» (std method as a function with a contract)
    //@rw «$v.sort_by(|$a, $b| $e);» => «let by_ = |$a, $b| $e; sort_by_(&mut $v, by_); proof { lemma_first_best($v@, cands, by_, line); }» (std method as a function with a contract)
    //@closure 0 «a: &u8, b: &u8» «-> (o: Ordering) requires counts@.dom().contains(*a), counts@.dom().contains(*b) ensures o == cmp_spec(counts@[*b], counts@[*a])»
    //@spec
    requires possible_delimiters@.len() > 0, encode_utf8(row@).len() <= u32::MAX,
    ensures is_best(encode_utf8(row@), possible_delimiters@, r),
    //@start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let ghost line = encode_utf8(row@);
    let ghost cands = possible_delimiters@;
    //@iter 0 it
    //@loop 0
        invariant it.seq().len() == cands.len(), forall|q: int| 0 <= q < cands.len() ==> *#[trigger] it.seq()[q] == cands[q],
            forall|q: int| 0 <= q < it.index@ ==> counts@.dom().contains(#[trigger] cands[q]),
            forall|b: u8| counts@.dom().contains(b) ==> #[trigger] counts@[b] == 0,
    //@iter 1 jt
    //@loop 1
        invariant jt.seq() == line,
            forall|q: int| 0 <= q < cands.len() ==> counts@.dom().contains(#[trigger] cands[q]),
            forall|b: u8| counts@.dom().contains(b) ==> #[trigger] counts@[b] == count(line.take(jt.index@), b),
    //@loopstart 1
        proof {
            assert(line.take(jt.index@ + 1).drop_last() =~= line.take(jt.index@));
            lemma_count(line.take(jt.index@), b);
        }
    //@afterloop 1
        proof { assert(line.take(line.len() as int) =~= line); }
//@end
//@fn src/util/csv_util.rs | - | guess_common_type
    //@ret r
    //@spec
    ensures r == common(field_types@),
    //@attr #[verifier::loop_isolation(false)]
    //@iter 0 it
    //@loop 0
        invariant it.seq().len() == field_types@.len(), forall|q: int| 0 <= q < field_types@.len() ==> *#[trigger] it.seq()[q] == field_types@[q],
            guess == (if it.index@ == 0 { up(field_types@[0]) } else { common(field_types@.take(it.index@)) }),
            guess != FieldType::String || it.index@ == 0 || any(field_types@, FieldType::String),
    //@loopstart 0
        proof { lemma_common(field_types@, it.index@ as int); }
    //@afterloop 0
        proof { assert(field_types@.take(field_types@.len() as int) =~= field_types@); }
//@end
//@fn src/util/csv_util.rs | - | type_upconvert
    //@ret r
    //@spec
    ensures r == up(field_type),
//@end
spec fn up(t: FieldType) -> FieldType {
    match t { FieldType::Boolean | FieldType::ByteBuf | FieldType::String => FieldType::String, FieldType::Float | FieldType::Double => FieldType::Double, _ => FieldType::Long }
}
spec fn any(ts: Seq<FieldType>, t: FieldType) -> bool { exists|i: int| 0 <= i < ts.len() && up(#[trigger] ts[i]) == t }
spec fn common(ts: Seq<FieldType>) -> FieldType {
    if ts.len() == 0 || any(ts, FieldType::String) { FieldType::String } else if any(ts, FieldType::Double) { FieldType::Double } else { FieldType::Long }
}
// ---- header: the types of the cells
spec fn type_of(s: Seq<char>) -> FieldType { if is_i64(s) { FieldType::Long } else if is_f64(s) { FieldType::Double } else { FieldType::String } }
spec fn cell_types(line: Seq<char>, d: char) -> Seq<FieldType> { Seq::new(pieces(line, d).len(), |i: int| type_of(trimmed(pieces(line, d)[i]))) }
//@fn src/util/csv_util.rs | - | guess_type
    //@ret r
    //@rw «$s.parse::<i64>().is_ok()» => «parses_i64($s)» (std methods as a function with a contract)
    //@rw «$s.parse::<f64>().is_ok()» => «parses_f64($s)» (std methods as a function with a contract)
    //@spec
    ensures r == type_of(str@),
//@end
//@fn src/util/csv_util.rs | - | guess_has_header
    //@ret r
    //@rw «$s.split($d)» => «str_split($s, $d)» (std method as a function with a contract)
    //@rw «$s.trim()» => «str_trim($s)» (std method as a function with a contract)
    //@rw «line1 != line2» => «types_ne(&line1, &line2)» (comparison of vectors as a function with a contract)
    //@rw «line1.ne(&line2)» => «types_ne(&line1, &line2)» (comparison of vectors as a function with a contract)
    //@closure 0 «s: &str» «-> (o: FieldType) ensures o == type_of(trimmed(s@))»
    //@closure 1 «s: &str» «-> (o: FieldType) ensures o == type_of(trimmed(s@))»
    //@before «types_ne»
    proof {
        assert(line1@ =~= cell_types(l1->Some_0@, delimiter as char)); assert(line2@ =~= cell_types(l2->Some_0@, delimiter as char));
    }
    //@start
    let ghost l1 = line1; let ghost l2 = line2;
    //@spec
    ensures r == (line1 is Some && line2 is Some && cell_types(line1->Some_0@, delimiter as char) != cell_types(line2->Some_0@, delimiter as char)),
//@end
proof fn lemma_common(ts: Seq<FieldType>, n: int)
    requires 0 <= n < ts.len(),
    ensures
        up(ts[n]) == FieldType::String || (n == 0 && up(ts[0]) == FieldType::String) || common(ts.take(n)) == FieldType::String && n > 0 ==> common(ts) == FieldType::String,
        n == 0 ==> common(ts.take(1)) == up(ts[0]),
        n > 0 && common(ts.take(n)) != FieldType::String ==> common(ts.take(n + 1)) == (match up(ts[n]) { FieldType::Long => common(ts.take(n)), t => t }),
{
    let a = ts.take(n); let b = ts.take(n + 1);
    assert(forall|i: int| 0 <= i < n ==> a[i] == ts[i] && b[i] == ts[i]); assert(b[n] == ts[n]);
    assert(up(b[n]) == up(ts[n]));
    if n > 0 {
        assert forall|t: FieldType| any(b, t) == (any(a, t) || up(ts[n]) == t) by {
            if any(b, t) { let i = choose|i: int| 0 <= i < b.len() && up(#[trigger] b[i]) == t; if i < n { assert(up(a[i]) == t); } }
            if any(a, t) { let i = choose|i: int| 0 <= i < a.len() && up(#[trigger] a[i]) == t; assert(up(b[i]) == t); }
            if up(ts[n]) == t { assert(up(b[n]) == t); }
        }
        assert forall|t: FieldType| any(a, t) implies any(ts, t) by { let i = choose|i: int| 0 <= i < a.len() && up(#[trigger] a[i]) == t; assert(up(ts[i]) == t); }
    } else { assert(up(b[0]) == up(ts[0])); assert forall|t: FieldType| any(b, t) == (up(ts[0]) == t) by { if any(b, t) { } } }
}
