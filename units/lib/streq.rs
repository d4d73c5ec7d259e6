// ---- streq.rs: String equality compares the characters (TRUSTED: std; vstd says so for `==` but not for eq_spec). ----
verus! {
pub axiom fn vx_string_eq(x: String, y: String)
    ensures <String as vstd::std_specs::cmp::PartialEqSpec<String>>::obeys_eq_spec(),
        vstd::std_specs::cmp::PartialEqSpec::eq_spec(&x, &y) == (x@ == y@);
}
