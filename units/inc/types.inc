// ---- src/chopper/types.rs, extracted
//@item src/chopper/types.rs | type | Nanos
//@item src/chopper/types.rs | enum | FieldType
//@item src/chopper/types.rs | enum | FieldValue
//@item src/chopper/types.rs | struct | Row
//@item src/chopper/types.rs | struct | Header
//@derive src/chopper/types.rs | enum | FieldType | Clone,Copy,PartialEq,Eq
//@derive src/chopper/types.rs | enum | FieldValue | Clone
//@derive src/chopper/types.rs | struct | Row | Clone
//@derive src/chopper/types.rs | struct | Header | Clone
// derived Clone impls are structural copies (assumed)
impl Copy for FieldType {}
impl Clone for FieldType {
    #[verifier::external_body]
    fn clone(&self) -> (r: FieldType) ensures r == *self { unimplemented!() }
}
impl PartialEq for FieldType {
    #[verifier::external_body]
    fn eq(&self, other: &FieldType) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for FieldType {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &FieldType) -> bool { *self == *other }
}
impl Clone for FieldValue {
    #[verifier::external_body]
    fn clone(&self) -> (r: FieldValue) ensures r == *self { unimplemented!() }
}
impl Clone for Row {
    #[verifier::external_body]
    fn clone(&self) -> (r: Row) ensures r == *self { unimplemented!() }
}
impl Clone for Header {
    #[verifier::external_body]
    fn clone(&self) -> (r: Header) ensures r == *self { unimplemented!() }
}
impl Header {
    //@fn src/chopper/types.rs | Header | new
        //@ret r
        //@spec
        ensures r.field_names == field_names, r.field_types == field_types,
    //@end
    //@fn src/chopper/types.rs | Header | field_names
        //@ret r
        //@spec
        ensures *r == self.field_names,
    //@end
    //@fn src/chopper/types.rs | Header | field_types
        //@ret r
        //@spec
        ensures *r == self.field_types,
    //@end
    //@fn src/chopper/types.rs | Header | update_field_names
        //@spec
        ensures final(self).field_names == new_names, final(self).field_types == old(self).field_types,
    //@end
    //@fn src/chopper/types.rs | Header | update_field_types
        //@spec
        ensures final(self).field_types == new_types, final(self).field_names == old(self).field_names,
    //@end
    //@fn src/chopper/types.rs | Header | field_names_mut
        //@ret r
        //@spec
        ensures *r == old(self).field_names, final(self).field_names == *final(r), final(self).field_types == old(self).field_types,
    //@end
    //@fn src/chopper/types.rs | Header | field_types_mut
        //@ret r
        //@spec
        ensures *r == old(self).field_types, final(self).field_types == *final(r), final(self).field_names == old(self).field_names,
    //@end
}
