// ---- litprefix.rs: what the string literals of the lexer are (proved with reveal_strlit) ----
verus! {
pub open spec fn p1(s: Seq<char>, a: char) -> bool { s.len() >= 1 && s[0] == a }
pub broadcast proof fn pre0(s: Seq<char>) ensures #[trigger] "u8"@.is_prefix_of(s) == p2(s, 'u', '8') { reveal_strlit("u8"); let l = "u8"@; assert(l.len() == 2); if l.is_prefix_of(s) { assert(l[0] == s[0]); assert(l[1] == s[1]); } if p2(s, 'u', '8') { assert(l =~= s.subrange(0, 2)); } }
pub broadcast proof fn pre1(s: Seq<char>) ensures #[trigger] "u64"@.is_prefix_of(s) == p3(s, 'u', '6', '4') { reveal_strlit("u64"); let l = "u64"@; assert(l.len() == 3); if l.is_prefix_of(s) { assert(l[0] == s[0]); assert(l[1] == s[1]); assert(l[2] == s[2]); } if p3(s, 'u', '6', '4') { assert(l =~= s.subrange(0, 3)); } }
pub broadcast proof fn pre2(s: Seq<char>) ensures #[trigger] "u128"@.is_prefix_of(s) == p4(s, 'u', '1', '2', '8') { reveal_strlit("u128"); let l = "u128"@; assert(l.len() == 4); if l.is_prefix_of(s) { assert(l[0] == s[0]); assert(l[1] == s[1]); assert(l[2] == s[2]); assert(l[3] == s[3]); } if p4(s, 'u', '1', '2', '8') { assert(l =~= s.subrange(0, 4)); } }
pub broadcast proof fn pre3(s: Seq<char>) ensures #[trigger] "//"@.is_prefix_of(s) == p2(s, '/', '/') { reveal_strlit("//"); let l = "//"@; assert(l.len() == 2); if l.is_prefix_of(s) { assert(l[0] == s[0]); assert(l[1] == s[1]); } if p2(s, '/', '/') { assert(l =~= s.subrange(0, 2)); } }
pub broadcast proof fn pre4(s: Seq<char>) ensures #[trigger] "0x"@.is_prefix_of(s) == p2(s, '0', 'x') { reveal_strlit("0x"); let l = "0x"@; assert(l.len() == 2); if l.is_prefix_of(s) { assert(l[0] == s[0]); assert(l[1] == s[1]); } if p2(s, '0', 'x') { assert(l =~= s.subrange(0, 2)); } }
pub broadcast proof fn pre5(s: Seq<char>) ensures #[trigger] "x\""@.is_prefix_of(s) == p2(s, 'x', '"') { reveal_strlit("x\""); let l = "x\""@; assert(l.len() == 2); if l.is_prefix_of(s) { assert(l[0] == s[0]); assert(l[1] == s[1]); } if p2(s, 'x', '"') { assert(l =~= s.subrange(0, 2)); } }
pub broadcast proof fn pre6(s: Seq<char>) ensures #[trigger] "b\""@.is_prefix_of(s) == p2(s, 'b', '"') { reveal_strlit("b\""); let l = "b\""@; assert(l.len() == 2); if l.is_prefix_of(s) { assert(l[0] == s[0]); assert(l[1] == s[1]); } if p2(s, 'b', '"') { assert(l =~= s.subrange(0, 2)); } }
pub broadcast proof fn pre7(s: Seq<char>) ensures #[trigger] "&mut"@.is_prefix_of(s) == p4(s, '&', 'm', 'u', 't') { reveal_strlit("&mut"); let l = "&mut"@; assert(l.len() == 4); if l.is_prefix_of(s) { assert(l[0] == s[0]); assert(l[1] == s[1]); assert(l[2] == s[2]); assert(l[3] == s[3]); } if p4(s, '&', 'm', 'u', 't') { assert(l =~= s.subrange(0, 4)); } }
pub broadcast proof fn pre8(s: Seq<char>) ensures #[trigger] "&&"@.is_prefix_of(s) == p2(s, '&', '&') { reveal_strlit("&&"); let l = "&&"@; assert(l.len() == 2); if l.is_prefix_of(s) { assert(l[0] == s[0]); assert(l[1] == s[1]); } if p2(s, '&', '&') { assert(l =~= s.subrange(0, 2)); } }
pub broadcast proof fn pre9(s: Seq<char>) ensures #[trigger] "||"@.is_prefix_of(s) == p2(s, '|', '|') { reveal_strlit("||"); let l = "||"@; assert(l.len() == 2); if l.is_prefix_of(s) { assert(l[0] == s[0]); assert(l[1] == s[1]); } if p2(s, '|', '|') { assert(l =~= s.subrange(0, 2)); } }
pub broadcast proof fn pre10(s: Seq<char>) ensures #[trigger] "==>"@.is_prefix_of(s) == p3(s, '=', '=', '>') { reveal_strlit("==>"); let l = "==>"@; assert(l.len() == 3); if l.is_prefix_of(s) { assert(l[0] == s[0]); assert(l[1] == s[1]); assert(l[2] == s[2]); } if p3(s, '=', '=', '>') { assert(l =~= s.subrange(0, 3)); } }
pub broadcast proof fn pre11(s: Seq<char>) ensures #[trigger] "=="@.is_prefix_of(s) == p2(s, '=', '=') { reveal_strlit("=="); let l = "=="@; assert(l.len() == 2); if l.is_prefix_of(s) { assert(l[0] == s[0]); assert(l[1] == s[1]); } if p2(s, '=', '=') { assert(l =~= s.subrange(0, 2)); } }
pub broadcast proof fn pre12(s: Seq<char>) ensures #[trigger] "!="@.is_prefix_of(s) == p2(s, '!', '=') { reveal_strlit("!="); let l = "!="@; assert(l.len() == 2); if l.is_prefix_of(s) { assert(l[0] == s[0]); assert(l[1] == s[1]); } if p2(s, '!', '=') { assert(l =~= s.subrange(0, 2)); } }
pub broadcast proof fn pre13(s: Seq<char>) ensures #[trigger] "<==>"@.is_prefix_of(s) == p4(s, '<', '=', '=', '>') { reveal_strlit("<==>"); let l = "<==>"@; assert(l.len() == 4); if l.is_prefix_of(s) { assert(l[0] == s[0]); assert(l[1] == s[1]); assert(l[2] == s[2]); assert(l[3] == s[3]); } if p4(s, '<', '=', '=', '>') { assert(l =~= s.subrange(0, 4)); } }
pub broadcast proof fn pre14(s: Seq<char>) ensures #[trigger] "<="@.is_prefix_of(s) == p2(s, '<', '=') { reveal_strlit("<="); let l = "<="@; assert(l.len() == 2); if l.is_prefix_of(s) { assert(l[0] == s[0]); assert(l[1] == s[1]); } if p2(s, '<', '=') { assert(l =~= s.subrange(0, 2)); } }
pub broadcast proof fn pre15(s: Seq<char>) ensures #[trigger] "<<"@.is_prefix_of(s) == p2(s, '<', '<') { reveal_strlit("<<"); let l = "<<"@; assert(l.len() == 2); if l.is_prefix_of(s) { assert(l[0] == s[0]); assert(l[1] == s[1]); } if p2(s, '<', '<') { assert(l =~= s.subrange(0, 2)); } }
pub broadcast proof fn pre16(s: Seq<char>) ensures #[trigger] ">="@.is_prefix_of(s) == p2(s, '>', '=') { reveal_strlit(">="); let l = ">="@; assert(l.len() == 2); if l.is_prefix_of(s) { assert(l[0] == s[0]); assert(l[1] == s[1]); } if p2(s, '>', '=') { assert(l =~= s.subrange(0, 2)); } }
pub broadcast proof fn pre17(s: Seq<char>) ensures #[trigger] ">>"@.is_prefix_of(s) == p2(s, '>', '>') { reveal_strlit(">>"); let l = ">>"@; assert(l.len() == 2); if l.is_prefix_of(s) { assert(l[0] == s[0]); assert(l[1] == s[1]); } if p2(s, '>', '>') { assert(l =~= s.subrange(0, 2)); } }
pub broadcast proof fn pre18(s: Seq<char>) ensures #[trigger] "::"@.is_prefix_of(s) == p2(s, ':', ':') { reveal_strlit("::"); let l = "::"@; assert(l.len() == 2); if l.is_prefix_of(s) { assert(l[0] == s[0]); assert(l[1] == s[1]); } if p2(s, ':', ':') { assert(l =~= s.subrange(0, 2)); } }
pub broadcast proof fn pre19(s: Seq<char>) ensures #[trigger] ".."@.is_prefix_of(s) == p2(s, '.', '.') { reveal_strlit(".."); let l = ".."@; assert(l.len() == 2); if l.is_prefix_of(s) { assert(l[0] == s[0]); assert(l[1] == s[1]); } if p2(s, '.', '.') { assert(l =~= s.subrange(0, 2)); } }
pub broadcast proof fn pre20(s: Seq<char>) ensures #[trigger] " "@.is_prefix_of(s) == p1(s, ' ') { reveal_strlit(" "); let l = " "@; assert(l.len() == 1); if l.is_prefix_of(s) { assert(l[0] == s[0]); } if p1(s, ' ') { assert(l =~= s.subrange(0, 1)); } }
pub broadcast proof fn pre21(s: Seq<char>) ensures #[trigger] "\n"@.is_prefix_of(s) == p1(s, '\n') { reveal_strlit("\n"); let l = "\n"@; assert(l.len() == 1); if l.is_prefix_of(s) { assert(l[0] == s[0]); } if p1(s, '\n') { assert(l =~= s.subrange(0, 1)); } }
pub broadcast proof fn pre22(s: Seq<char>) ensures #[trigger] "\t"@.is_prefix_of(s) == p1(s, '\t') { reveal_strlit("\t"); let l = "\t"@; assert(l.len() == 1); if l.is_prefix_of(s) { assert(l[0] == s[0]); } if p1(s, '\t') { assert(l =~= s.subrange(0, 1)); } }
pub broadcast group group_lits { pre0, pre1, pre2, pre3, pre4, pre5, pre6, pre7, pre8, pre9, pre10, pre11, pre12, pre13, pre14, pre15, pre16, pre17, pre18, pre19, pre20, pre21, pre22 }
}
