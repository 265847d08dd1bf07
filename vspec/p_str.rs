// ---- prelude: strings. The view of a str is its sequence of characters; byte offsets are
// ---- related to character positions by boff. Wrapper contracts restate the documented behaviour of std.

pub open spec fn clen(c: char) -> nat {
    if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 }
}
/// byte offset of the k-th character
pub open spec fn boff(s: Seq<char>, k: int) -> nat
    decreases k
{ if k <= 0 { 0 } else { boff(s, k - 1) + clen(s[k - 1]) } }
/// i is the byte offset of a character (or the end)
pub open spec fn is_bnd(s: Seq<char>, i: int) -> bool { exists|k: int| 0 <= k <= s.len() && boff(s, k) == i }
/// the position of the character at byte offset i
pub open spec fn cidx(s: Seq<char>, i: int) -> int { choose|k: int| 0 <= k <= s.len() && boff(s, k) == i }

pub proof fn boff_mono(s: Seq<char>, a: int, b: int)
    requires 0 <= a < b,
    ensures boff(s, a) < boff(s, b),
    decreases b - a,
{
    if a < b - 1 { boff_mono(s, a, b - 1); }
}
pub proof fn boff_cidx(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures is_bnd(s, boff(s, k) as int), cidx(s, boff(s, k) as int) == k,
{
    let c = cidx(s, boff(s, k) as int);
    assert(0 <= c <= s.len() && boff(s, c) == boff(s, k));
    if c < k { boff_mono(s, c, k); }
    if k < c { boff_mono(s, k, c); }
}
pub proof fn boff_ascii(s: Seq<char>, k: int, m: int)
    requires 0 <= k, 0 <= m, k + m <= s.len(), forall|j: int| k <= j < k + m ==> clen(#[trigger] s[j]) == 1,
    ensures boff(s, k + m) == boff(s, k) + m,
    decreases m,
{
    if m > 0 { boff_ascii(s, k, m - 1); assert(clen(s[k + m - 1]) == 1); }
}
pub broadcast proof fn ascii_prefix_1(s: Seq<char>)
    requires s.len() >= 1, clen(s[0]) == 1,
    ensures #![trigger is_bnd(s, 1)] #![trigger cidx(s, 1)] is_bnd(s, 1) && cidx(s, 1) == 1,
{ boff_ascii(s, 0, 1); boff_cidx(s, 1); }
pub broadcast proof fn ascii_prefix_2(s: Seq<char>)
    requires s.len() >= 2, clen(s[0]) == 1, clen(s[1]) == 1,
    ensures #![trigger is_bnd(s, 2)] #![trigger cidx(s, 2)] is_bnd(s, 2) && cidx(s, 2) == 2,
{ boff_ascii(s, 0, 2); boff_cidx(s, 2); }
pub broadcast proof fn ascii_prefix_3(s: Seq<char>)
    requires s.len() >= 3, clen(s[0]) == 1, clen(s[1]) == 1, clen(s[2]) == 1,
    ensures #![trigger is_bnd(s, 3)] #![trigger cidx(s, 3)] is_bnd(s, 3) && cidx(s, 3) == 3,
{ boff_ascii(s, 0, 3); boff_cidx(s, 3); }

/// char::is_whitespace (Unicode White_Space)
pub open spec fn is_ws(c: char) -> bool {
    c == ' ' || c == '\t' || c == '\n' || c == '\r' || (c as u32) == 0x0b || (c as u32) == 0x0c || (c as u32) == 0x85
    || (c as u32) == 0xa0 || (c as u32) == 0x1680 || (0x2000 <= (c as u32) && (c as u32) <= 0x200a) || (c as u32) == 0x2028
    || (c as u32) == 0x2029 || (c as u32) == 0x202f || (c as u32) == 0x205f || (c as u32) == 0x3000
}
/// char::is_digit(10)
pub open spec fn is_dig(c: char) -> bool { '0' <= c && c <= '9' }

// classes of characters that the contracts do not mention
pub uninterp spec fn c_is_uppercase(c: char) -> bool;
pub uninterp spec fn c_is_lowercase(c: char) -> bool;
pub uninterp spec fn c_is_alphabetic(c: char) -> bool;
pub uninterp spec fn c_is_alphanumeric(c: char) -> bool;
pub uninterp spec fn c_is_numeric(c: char) -> bool;
pub uninterp spec fn c_is_control(c: char) -> bool;

pub trait VChar {
    spec fn s_is_ws(&self) -> bool;
    spec fn s_is_digit10(&self) -> bool;
    fn v_is_ws(&self) -> (r: bool) ensures r == self.s_is_ws();
    fn v_is_digit10(&self) -> (r: bool) ensures r == self.s_is_digit10();
    spec fn s_is_digit_n(&self, n: u32) -> bool;
    fn v_is_digit_n(&self, n: u32) -> (r: bool) requires n <= 36 ensures r == self.s_is_digit_n(n);
    spec fn s_is_ascii(&self) -> bool;
    fn v_is_ascii(&self) -> (r: bool) ensures r == self.s_is_ascii();
    spec fn s_is_ascii_alphabetic(&self) -> bool;
    fn v_is_ascii_alphabetic(&self) -> (r: bool) ensures r == self.s_is_ascii_alphabetic();
    spec fn s_is_ascii_uppercase(&self) -> bool;
    fn v_is_ascii_uppercase(&self) -> (r: bool) ensures r == self.s_is_ascii_uppercase();
    spec fn s_is_ascii_lowercase(&self) -> bool;
    fn v_is_ascii_lowercase(&self) -> (r: bool) ensures r == self.s_is_ascii_lowercase();
    spec fn s_is_ascii_alphanumeric(&self) -> bool;
    fn v_is_ascii_alphanumeric(&self) -> (r: bool) ensures r == self.s_is_ascii_alphanumeric();
    spec fn s_is_ascii_whitespace(&self) -> bool;
    fn v_is_ascii_whitespace(&self) -> (r: bool) ensures r == self.s_is_ascii_whitespace();
    spec fn s_is_ascii_punctuation(&self) -> bool;
    fn v_is_ascii_punctuation(&self) -> (r: bool) ensures r == self.s_is_ascii_punctuation();
    spec fn s_is_uppercase(&self) -> bool;
    fn v_is_uppercase(&self) -> (r: bool) ensures r == self.s_is_uppercase();
    spec fn s_is_lowercase(&self) -> bool;
    fn v_is_lowercase(&self) -> (r: bool) ensures r == self.s_is_lowercase();
    spec fn s_is_alphabetic(&self) -> bool;
    fn v_is_alphabetic(&self) -> (r: bool) ensures r == self.s_is_alphabetic();
    spec fn s_is_alphanumeric(&self) -> bool;
    fn v_is_alphanumeric(&self) -> (r: bool) ensures r == self.s_is_alphanumeric();
    spec fn s_is_numeric(&self) -> bool;
    fn v_is_numeric(&self) -> (r: bool) ensures r == self.s_is_numeric();
    spec fn s_is_control(&self) -> bool;
    fn v_is_control(&self) -> (r: bool) ensures r == self.s_is_control();
}
impl VChar for char {
    open spec fn s_is_ws(&self) -> bool { is_ws(*self) }
    open spec fn s_is_digit10(&self) -> bool { is_dig(*self) }
    #[verifier::external_body]
    fn v_is_ws(&self) -> (r: bool) ensures r == is_ws(*self) { unimplemented!() }
    #[verifier::external_body]
    fn v_is_digit10(&self) -> (r: bool) ensures r == is_dig(*self) { unimplemented!() }
    open spec fn s_is_digit_n(&self, n: u32) -> bool {
        ('0' <= *self && *self <= '9' && (*self as int) - ('0' as int) < n) || ('a' <= *self && *self <= 'z' && (*self as int) - ('a' as int) + 10 < n)
            || ('A' <= *self && *self <= 'Z' && (*self as int) - ('A' as int) + 10 < n)
    }
    #[verifier::external_body]
    fn v_is_digit_n(&self, n: u32) -> (r: bool) { unimplemented!() }
    open spec fn s_is_ascii(&self) -> bool { (*self as u32) < 0x80 }
    #[verifier::external_body]
    fn v_is_ascii(&self) -> (r: bool) { unimplemented!() }
    open spec fn s_is_ascii_alphabetic(&self) -> bool { ('a' <= *self && *self <= 'z') || ('A' <= *self && *self <= 'Z') }
    #[verifier::external_body]
    fn v_is_ascii_alphabetic(&self) -> (r: bool) { unimplemented!() }
    open spec fn s_is_ascii_uppercase(&self) -> bool { 'A' <= *self && *self <= 'Z' }
    #[verifier::external_body]
    fn v_is_ascii_uppercase(&self) -> (r: bool) { unimplemented!() }
    open spec fn s_is_ascii_lowercase(&self) -> bool { 'a' <= *self && *self <= 'z' }
    #[verifier::external_body]
    fn v_is_ascii_lowercase(&self) -> (r: bool) { unimplemented!() }
    open spec fn s_is_ascii_alphanumeric(&self) -> bool { ('a' <= *self && *self <= 'z') || ('A' <= *self && *self <= 'Z') || is_dig(*self) }
    #[verifier::external_body]
    fn v_is_ascii_alphanumeric(&self) -> (r: bool) { unimplemented!() }
    open spec fn s_is_ascii_whitespace(&self) -> bool { *self == ' ' || *self == '\t' || *self == '\n' || *self == '\r' || (*self as u32) == 0x0c }
    #[verifier::external_body]
    fn v_is_ascii_whitespace(&self) -> (r: bool) { unimplemented!() }
    open spec fn s_is_ascii_punctuation(&self) -> bool { (33 <= (*self as u32) && (*self as u32) <= 47) || (58 <= (*self as u32) && (*self as u32) <= 64) || (91 <= (*self as u32) && (*self as u32) <= 96) || (123 <= (*self as u32) && (*self as u32) <= 126) }
    #[verifier::external_body]
    fn v_is_ascii_punctuation(&self) -> (r: bool) { unimplemented!() }
    open spec fn s_is_uppercase(&self) -> bool { c_is_uppercase(*self) }
    #[verifier::external_body]
    fn v_is_uppercase(&self) -> (r: bool) { unimplemented!() }
    open spec fn s_is_lowercase(&self) -> bool { c_is_lowercase(*self) }
    #[verifier::external_body]
    fn v_is_lowercase(&self) -> (r: bool) { unimplemented!() }
    open spec fn s_is_alphabetic(&self) -> bool { c_is_alphabetic(*self) }
    #[verifier::external_body]
    fn v_is_alphabetic(&self) -> (r: bool) { unimplemented!() }
    open spec fn s_is_alphanumeric(&self) -> bool { c_is_alphanumeric(*self) }
    #[verifier::external_body]
    fn v_is_alphanumeric(&self) -> (r: bool) { unimplemented!() }
    open spec fn s_is_numeric(&self) -> bool { c_is_numeric(*self) }
    #[verifier::external_body]
    fn v_is_numeric(&self) -> (r: bool) { unimplemented!() }
    open spec fn s_is_control(&self) -> bool { c_is_control(*self) }
    #[verifier::external_body]
    fn v_is_control(&self) -> (r: bool) { unimplemented!() }
}

pub trait VAsStr {
    fn v_s(&self) -> &str;
}
impl VAsStr for str {
    #[verifier::external_body]
    fn v_s(&self) -> (r: &str) ensures r@ == self@, r == self { unimplemented!() }
}
impl VAsStr for String {
    #[verifier::external_body]
    fn v_s(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
impl VAsStr for char {
    #[verifier::external_body]
    fn v_s(&self) -> (r: &str) ensures r@ == seq![*self] { unimplemented!() }
}

// slicing
#[verifier::external_body]
pub fn v_slice_to(s: &str, i: usize) -> (r: &str)
    requires is_bnd(s@, i as int),
    ensures 0 <= cidx(s@, i as int) <= s@.len(), r@ == s@.subrange(0, cidx(s@, i as int)),
{ unimplemented!() }
#[verifier::external_body]
pub fn v_slice_from(s: &str, i: usize) -> (r: &str)
    requires is_bnd(s@, i as int),
    ensures 0 <= cidx(s@, i as int) <= s@.len(), r@ == s@.subrange(cidx(s@, i as int), s@.len() as int),
{ unimplemented!() }
#[verifier::external_body]
pub fn v_split_at(s: &str, i: usize) -> (r: (&str, &str))
    requires is_bnd(s@, i as int),
    ensures 0 <= cidx(s@, i as int) <= s@.len(), r.0@ == s@.subrange(0, cidx(s@, i as int)), r.1@ == s@.subrange(cidx(s@, i as int), s@.len() as int),
{ unimplemented!() }
#[verifier::external_body]
pub fn v_slice(s: &str, i: usize, j: usize) -> (r: &str)
    requires is_bnd(s@, i as int), is_bnd(s@, j as int), i <= j,
    ensures 0 <= cidx(s@, i as int) <= cidx(s@, j as int) <= s@.len(), r@ == s@.subrange(cidx(s@, i as int), cidx(s@, j as int)),
{ unimplemented!() }

// trimming
pub open spec fn tstart(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && is_ws(s[0]) { tstart(s.subrange(1, s.len() as int)) } else { s } }
pub open spec fn tend(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && is_ws(s[s.len() - 1]) { tend(s.subrange(0, s.len() - 1)) } else { s } }
pub open spec fn ttrim(s: Seq<char>) -> Seq<char> { tend(tstart(s)) }
#[verifier::external_body]
pub fn v_trim_start(s: &str) -> (r: &str) ensures r@ == tstart(s@) { unimplemented!() }
#[verifier::external_body]
pub fn v_trim_end(s: &str) -> (r: &str) ensures r@ == tend(s@) { unimplemented!() }
#[verifier::external_body]
pub fn v_trim(s: &str) -> (r: &str) ensures r@ == ttrim(s@) { unimplemented!() }
#[verifier::external_body]
pub fn v_all_ws(s: &str) -> (r: bool) ensures r == (tstart(s@).len() == 0), r == (forall|j: int| 0 <= j < s@.len() ==> is_ws(#[trigger] s@[j])) { unimplemented!() }
#[verifier::external_body]
pub fn v_chars_all<F: Fn(char) -> bool>(s: &str, f: F) -> (r: bool)
    requires forall|c: char| f.requires((c,)),
    ensures r ==> forall|j: int| 0 <= j < s@.len() ==> f.ensures((#[trigger] s@[j],), true),
        !r ==> exists|j: int| 0 <= j < s@.len() && f.ensures((#[trigger] s@[j],), false),
{ unimplemented!() }
#[verifier::external_body]
pub fn v_chars_any<F: Fn(char) -> bool>(s: &str, f: F) -> (r: bool)
    requires forall|c: char| f.requires((c,)),
    ensures r ==> exists|j: int| 0 <= j < s@.len() && f.ensures((#[trigger] s@[j],), true),
        !r ==> forall|j: int| 0 <= j < s@.len() ==> f.ensures((#[trigger] s@[j],), false),
{ unimplemented!() }
/// without the leading characters c
pub open spec fn tchar(s: Seq<char>, c: char) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && s[0] == c { tchar(s.subrange(1, s.len() as int), c) } else { s } }
#[verifier::external_body]
pub fn v_trim_start_matches_c(s: &str, c: char) -> (r: &str) ensures r@ == tchar(s@, c) { unimplemented!() }

// searching
/// k is the first position whose character satisfies p
pub open spec fn is_first(s: Seq<char>, p: spec_fn(char) -> bool, k: int) -> bool {
    0 <= k < s.len() && p(s[k]) && forall|j: int| 0 <= j < k ==> !p(#[trigger] s[j])
}
pub open spec fn first_idx(s: Seq<char>, p: spec_fn(char) -> bool) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else if p(s[0]) { 0 } else { 1 + first_idx(s.subrange(1, s.len() as int), p) } }
pub proof fn first_idx_props(s: Seq<char>, p: spec_fn(char) -> bool)
    ensures
        0 <= first_idx(s, p) <= s.len(),
        first_idx(s, p) < s.len() ==> p(s[first_idx(s, p)]),
        forall|j: int| 0 <= j < first_idx(s, p) ==> !p(#[trigger] s[j]),
    decreases s.len(),
{
    if s.len() > 0 && !p(s[0]) {
        let t = s.subrange(1, s.len() as int);
        first_idx_props(t, p);
        assert forall|j: int| 0 <= j < first_idx(s, p) implies !p(#[trigger] s[j]) by {
            if j > 0 { assert(s[j] == t[j - 1]); }
        }
    }
}
pub proof fn first_idx_is(s: Seq<char>, p: spec_fn(char) -> bool, k: int)
    requires 0 <= k <= s.len(), k < s.len() ==> p(s[k]), forall|j: int| 0 <= j < k ==> !p(#[trigger] s[j]),
    ensures first_idx(s, p) == k,
{
    first_idx_props(s, p);
    let f = first_idx(s, p);
    if f < k { assert(p(s[f])); }
    if k < f { assert(!p(s[k])); }
}

pub open spec fn p_is(x: char) -> spec_fn(char) -> bool { |c: char| c == x }
#[verifier::external_body]
pub fn v_find_by<F: Fn(char) -> bool>(s: &str, f: F) -> (r: Option<usize>)
    requires forall|c: char| f.requires((c,)),
    ensures
        match r {
            Some(i) => is_bnd(s@, i as int) && 0 <= cidx(s@, i as int) < s@.len()
                && f.ensures((s@[cidx(s@, i as int)],), true)
                && forall|j: int| 0 <= j < cidx(s@, i as int) ==> f.ensures((#[trigger] s@[j],), false),
            None => forall|j: int| 0 <= j < s@.len() ==> f.ensures((#[trigger] s@[j],), false),
        },
        // a consequence of the above for a total predicate p that f computes
        forall|p: spec_fn(char) -> bool| (forall|c: char| (f.ensures((c,), true) ==> #[trigger] p(c)) && (f.ensures((c,), false) ==> !p(c)))
            ==> #[trigger] first_idx(s@, p) == (match r { Some(i) => cidx(s@, i as int), None => s@.len() as int }),
{ unimplemented!() }
#[verifier::external_body]
pub fn v_find_c(s: &str, c: char) -> (r: Option<usize>)
    ensures
        match r {
            Some(i) => is_bnd(s@, i as int) && 0 <= cidx(s@, i as int) < s@.len()
                && s@[cidx(s@, i as int)] == c
                && (forall|j: int| 0 <= j < cidx(s@, i as int) ==> #[trigger] s@[j] != c)
                && (clen(c) == 1 ==> i + 1 <= isize::MAX && is_bnd(s@, i + 1) && cidx(s@, i + 1) == cidx(s@, i as int) + 1),
            None => forall|j: int| 0 <= j < s@.len() ==> #[trigger] s@[j] != c,
        },
        first_idx(s@, p_is(c)) == (match r { Some(i) => cidx(s@, i as int), None => s@.len() as int }),
        r is None <==> !s@.contains(c),
{ unimplemented!() }
/// the pattern p occurs at position k
pub open spec fn occurs(s: Seq<char>, p: Seq<char>, k: int) -> bool {
    0 <= k && k + p.len() <= s.len() && s.subrange(k, k + p.len()) == p
}
/// the same, character by character
pub open spec fn begins(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && forall|i: int| 0 <= i < p.len() ==> s[i] == #[trigger] p[i] }
pub open spec fn first_occ(s: Seq<char>, p: Seq<char>, k: int) -> bool {
    occurs(s, p, k) && forall|j: int| 0 <= j < k ==> !#[trigger] occurs(s, p, j)
}
/// first occurrence of the pattern, or -1
pub open spec fn occ_idx(s: Seq<char>, p: Seq<char>) -> int { if exists|k: int| occurs(s, p, k) { choose|k: int| first_occ(s, p, k) } else { -1 } }
#[verifier::external_body]
pub fn v_find_s(s: &str, p: &str) -> (r: Option<usize>)
    ensures
        match r {
            Some(i) => is_bnd(s@, i as int) && first_occ(s@, p@, cidx(s@, i as int)) && cidx(s@, i as int) <= s@.len()
                && ((forall|m: int| 0 <= m < p@.len() ==> clen(#[trigger] p@[m]) == 1) ==>
                    i + p@.len() <= isize::MAX && forall|j: int| #![trigger is_bnd(s@, j)] #![trigger cidx(s@, j)] i <= j <= i + p@.len() ==> is_bnd(s@, j) && cidx(s@, j) == cidx(s@, i as int) + (j - i)),
            None => forall|j: int| !#[trigger] occurs(s@, p@, j),
        },
        occ_idx(s@, p@) == (match r { Some(i) => cidx(s@, i as int), None => -1int }),
{ unimplemented!() }
#[verifier::external_body]
pub fn v_starts_with_c(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { unimplemented!() }
#[verifier::external_body]
pub fn v_starts_with_s(s: &str, p: &str) -> (r: bool) ensures r == occurs(s@, p@, 0), r == begins(s@, p@) { unimplemented!() }
#[verifier::external_body]
pub fn v_contains_c(s: &str, c: char) -> (r: bool) ensures r == s@.contains(c) { unimplemented!() }
#[verifier::external_body]
pub fn v_contains_s(s: &str, p: &str) -> (r: bool) ensures r == (exists|j: int| occurs(s@, p@, j)) { unimplemented!() }

#[verifier::external_body]
pub fn v_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }

// characters
#[verifier::external_body]
pub fn v_peek(s: &str) -> (r: Option<&char>)
    ensures match r { None => s@.len() == 0, Some(c) => s@.len() > 0 && *c == s@[0] },
{ unimplemented!() }
#[verifier::external_body]
pub fn v_nth(s: &str, n: usize) -> (r: Option<char>)
    ensures match r { None => s@.len() <= n, Some(c) => s@.len() > n && c == s@[n as int] },
{ unimplemented!() }
#[verifier::external_body]
pub fn v_char_indices(s: &str) -> (r: Vec<(usize, char)>)
    ensures r@.len() == s@.len(),
        forall|k: int| 0 <= k < s@.len() ==> (#[trigger] r@[k]).1 == s@[k] && is_bnd(s@, r@[k].0 as int) && cidx(s@, r@[k].0 as int) == k,
{ unimplemented!() }
#[verifier::external_body]
pub fn v_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }

// building
#[verifier::external_body]
pub fn v_to_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn v_empty_string() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn v_cat(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn v_append(a: &mut String, b: &str) ensures final(a)@ == old(a)@ + b@ { unimplemented!() }

// ---- further functions of std on text: exact where that is simple, else an unknown function of the text
#[verifier::external_body]
pub fn v_ends_with_c(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[s@.len() - 1] == c) { unimplemented!() }
#[verifier::external_body]
pub fn v_ends_with_s(s: &str, p: &str) -> (r: bool) ensures r == occurs(s@, p@, s@.len() - p@.len()) { unimplemented!() }
#[verifier::external_body]
pub fn v_ends_with_by<F: Fn(char) -> bool>(s: &str, f: F) -> (r: bool)
    requires forall|c: char| f.requires((c,)),
    ensures s@.len() == 0 ==> !r, s@.len() > 0 ==> f.ensures((s@[s@.len() - 1],), r) { unimplemented!() }
#[verifier::external_body]
pub fn v_starts_with_by<F: Fn(char) -> bool>(s: &str, f: F) -> (r: bool)
    requires forall|c: char| f.requires((c,)),
    ensures s@.len() == 0 ==> !r, s@.len() > 0 ==> f.ensures((s@[0],), r) { unimplemented!() }
#[verifier::external_body]
pub fn v_contains_by<F: Fn(char) -> bool>(s: &str, f: F) -> (r: bool)
    requires forall|c: char| f.requires((c,)),
    ensures
        r ==> exists|j: int| 0 <= j < s@.len() && f.ensures((#[trigger] s@[j],), true),
        !r ==> forall|j: int| 0 <= j < s@.len() ==> f.ensures((#[trigger] s@[j],), false) { unimplemented!() }
/// chars().position(f)
#[verifier::external_body]
pub fn v_chars_position<F: Fn(char) -> bool>(s: &str, f: F) -> (r: Option<usize>)
    requires forall|c: char| f.requires((c,)),
    ensures match r {
        Some(i) => i < s@.len() && f.ensures((s@[i as int],), true) && forall|j: int| 0 <= j < i ==> f.ensures((#[trigger] s@[j],), false),
        None => forall|j: int| 0 <= j < s@.len() ==> f.ensures((#[trigger] s@[j],), false),
    } { unimplemented!() }
#[verifier::external_body]
pub fn v_chars_count(s: &str) -> (r: usize) ensures r == s@.len() { unimplemented!() }
#[verifier::external_body]
pub fn v_chars_last(s: &str) -> (r: Option<char>) ensures r is None <==> s@.len() == 0, r is Some ==> r->0 == s@[s@.len() - 1] { unimplemented!() }
#[verifier::external_body]
pub fn v_strip_prefix_c(s: &str, c: char) -> (r: Option<&str>)
    ensures r is Some <==> s@.len() > 0 && s@[0] == c, r is Some ==> r->0@ == s@.subrange(1, s@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn v_strip_prefix_s<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures r is Some <==> occurs(s@, p@, 0), r is Some <==> begins(s@, p@), r is Some ==> r->0@ == s@.subrange(p@.len() as int, s@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn v_strip_suffix_c(s: &str, c: char) -> (r: Option<&str>)
    ensures r is Some <==> s@.len() > 0 && s@[s@.len() - 1] == c, r is Some ==> r->0@ == s@.subrange(0, s@.len() - 1) { unimplemented!() }
#[verifier::external_body]
pub fn v_strip_suffix_s<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures r is Some <==> occurs(s@, p@, s@.len() - p@.len()), r is Some ==> r->0@ == s@.subrange(0, s@.len() - p@.len()) { unimplemented!() }
#[verifier::external_body]
pub fn v_split_once_c(s: &str, c: char) -> (r: Option<(&str, &str)>)
    ensures r is Some <==> s@.contains(c),
        r is Some ==> (r->0).0@ == s@.subrange(0, first_idx(s@, p_is(c))) && (r->0).1@ == s@.subrange(first_idx(s@, p_is(c)) + 1, s@.len() as int),
        0 <= first_idx(s@, p_is(c)) <= s@.len(), first_idx(s@, p_is(c)) < s@.len() <==> s@.contains(c) { unimplemented!() }
#[verifier::external_body]
pub fn v_split_once_s<'a>(s: &'a str, p: &str) -> (r: Option<(&'a str, &'a str)>)
    ensures r is Some <==> (exists|j: int| occurs(s@, p@, j)),
        r is Some ==> first_occ(s@, p@, occ_idx(s@, p@)) && (r->0).0@ == s@.subrange(0, occ_idx(s@, p@)) && (r->0).1@ == s@.subrange(occ_idx(s@, p@) + p@.len(), s@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn v_rfind_c(s: &str, c: char) -> (r: Option<usize>)
    ensures
        match r {
            Some(i) => is_bnd(s@, i as int) && 0 <= cidx(s@, i as int) < s@.len() && s@[cidx(s@, i as int)] == c
                && (forall|j: int| cidx(s@, i as int) < j < s@.len() ==> #[trigger] s@[j] != c)
                && (clen(c) == 1 ==> i + 1 <= isize::MAX && is_bnd(s@, i + 1) && cidx(s@, i + 1) == cidx(s@, i as int) + 1),
            None => forall|j: int| 0 <= j < s@.len() ==> #[trigger] s@[j] != c,
        },
        r is None <==> !s@.contains(c) { unimplemented!() }
#[verifier::external_body]
pub fn v_rsplit_once_c(s: &str, c: char) -> (r: Option<(&str, &str)>)
    ensures r is Some <==> s@.contains(c),
        r is Some ==> s@ == (r->0).0@ + seq![c] + (r->0).1@ && !(r->0).1@.contains(c) { unimplemented!() }
/// without the characters c at the end
pub open spec fn tcharend(s: Seq<char>, c: char) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && s[s.len() - 1] == c { tcharend(s.subrange(0, s.len() - 1), c) } else { s } }
#[verifier::external_body]
pub fn v_trim_end_matches_c(s: &str, c: char) -> (r: &str) ensures r@ == tcharend(s@, c) { unimplemented!() }
#[verifier::external_body]
pub fn v_trim_matches_c(s: &str, c: char) -> (r: &str) ensures r@ == tcharend(tchar(s@, c), c) { unimplemented!() }
#[verifier::external_body]
pub fn v_trim_start_matches_by<F: Fn(char) -> bool>(s: &str, f: F) -> (r: &str)
    requires forall|c: char| f.requires((c,)),
    ensures r@.len() <= s@.len(), r@ == s@.subrange(s@.len() - r@.len(), s@.len() as int), r@.len() > 0 ==> f.ensures((r@[0],), false),
        forall|j: int| 0 <= j < s@.len() - r@.len() ==> f.ensures((#[trigger] s@[j],), true) { unimplemented!() }
#[verifier::external_body]
pub fn v_trim_end_matches_by<F: Fn(char) -> bool>(s: &str, f: F) -> (r: &str)
    requires forall|c: char| f.requires((c,)),
    ensures r@.len() <= s@.len(), r@ == s@.subrange(0, r@.len() as int), r@.len() > 0 ==> f.ensures((r@[r@.len() - 1],), false),
        forall|j: int| r@.len() <= j < s@.len() ==> f.ensures((#[trigger] s@[j],), true) { unimplemented!() }
#[verifier::external_body]
pub fn v_trim_matches_by<F: Fn(char) -> bool>(s: &str, f: F) -> (r: &str)
    requires forall|c: char| f.requires((c,)),
    ensures exists|k: int| 0 <= k && #[trigger] (k + r@.len()) <= s@.len() && r@ == s@.subrange(k, k + r@.len())
        && (forall|j: int| 0 <= j < s@.len() && !(k <= j < k + r@.len()) ==> f.ensures((#[trigger] s@[j],), true)),
        r@.len() > 0 ==> f.ensures((r@[0],), false) && f.ensures((r@[r@.len() - 1],), false) { unimplemented!() }
pub uninterp spec fn s_mapped(f: int, s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn v_to_lowercase(s: &str) -> (r: String) ensures r@ == s_mapped(0, s@) { unimplemented!() }
#[verifier::external_body]
pub fn v_to_uppercase(s: &str) -> (r: String) ensures r@ == s_mapped(1, s@) { unimplemented!() }
#[verifier::external_body]
pub fn v_to_ascii_lowercase(s: &str) -> (r: String) ensures r@ == s_mapped(2, s@) { unimplemented!() }
#[verifier::external_body]
pub fn v_to_ascii_uppercase(s: &str) -> (r: String) ensures r@ == s_mapped(3, s@) { unimplemented!() }
#[verifier::external_body]
pub fn v_eq_ignore_ascii_case(s: &str, t: &str) -> (r: bool) ensures r == (s_mapped(2, s@) == s_mapped(2, t@)) { unimplemented!() }
pub uninterp spec fn s_counted(f: int, s: Seq<char>, p: Seq<char>) -> usize;
#[verifier::external_body]
pub fn v_split_count_c(s: &str, c: char) -> (r: usize) ensures r == s_counted(0, s@, seq![c]) { unimplemented!() }
#[verifier::external_body]
pub fn v_split_count_s(s: &str, p: &str) -> (r: usize) ensures r == s_counted(0, s@, p@) { unimplemented!() }
#[verifier::external_body]
pub fn v_matches_count_c(s: &str, c: char) -> (r: usize) ensures r == s_counted(1, s@, seq![c]), r == 0 <==> !s@.contains(c) { unimplemented!() }
#[verifier::external_body]
pub fn v_matches_count_s(s: &str, p: &str) -> (r: usize) ensures r == s_counted(1, s@, p@) { unimplemented!() }
#[verifier::external_body]
pub fn v_lines_count(s: &str) -> (r: usize) ensures r == s_counted(2, s@, Seq::empty()) { unimplemented!() }
#[verifier::external_body]
pub fn v_split_whitespace_count(s: &str) -> (r: usize) ensures r == s_counted(3, s@, Seq::empty()) { unimplemented!() }
/// chars().filter(f).count()
#[verifier::external_body]
pub fn v_chars_count_by<F: Fn(char) -> bool>(s: &str, f: F) -> (r: usize)
    requires forall|c: char| f.requires((c,)),
    ensures r <= s@.len(), r == 0 ==> forall|j: int| 0 <= j < s@.len() ==> f.ensures((#[trigger] s@[j],), false) { unimplemented!() }
#[verifier::external_body]
pub fn v_split_first_c(s: &str, c: char) -> (r: Option<&str>) ensures r is Some, r->0@ == s@.subrange(0, first_idx(s@, p_is(c))) { unimplemented!() }
pub open spec fn len_facts(s: Seq<char>, r: int) -> bool { r == boff(s, s.len() as int) && (r == 0 <==> s.len() == 0) && is_bnd(s, r) && cidx(s, r) == s.len() }
pub assume_specification [String::len] (s: &String) -> (r: usize) ensures r == boff(s@, s@.len() as int), len_facts(s@, r as int);
/// len() of a text is its number of bytes
pub trait VLen {
    spec fn s_len(&self) -> int;
    spec fn s_lenf(&self, r: int) -> bool;
    fn v_len(&self) -> (r: usize) ensures r == self.s_len(), self.s_lenf(r as int);
}
impl VLen for String {
    open spec fn s_len(&self) -> int { boff(self@, self@.len() as int) as int }
    open spec fn s_lenf(&self, r: int) -> bool { len_facts(self@, r) }
    #[verifier::external_body]
    fn v_len(&self) -> (r: usize) { unimplemented!() }
}
impl VLen for str {
    open spec fn s_len(&self) -> int { boff(self@, self@.len() as int) as int }
    open spec fn s_lenf(&self, r: int) -> bool { len_facts(self@, r) }
    #[verifier::external_body]
    fn v_len(&self) -> (r: usize) { unimplemented!() }
}
impl<T> VLen for Vec<T> {
    open spec fn s_len(&self) -> int { self@.len() as int }
    open spec fn s_lenf(&self, r: int) -> bool { true }
    #[verifier::external_body]
    fn v_len(&self) -> (r: usize) { unimplemented!() }
}
impl<T> VLen for [T] {
    open spec fn s_len(&self) -> int { self@.len() as int }
    open spec fn s_lenf(&self, r: int) -> bool { true }
    #[verifier::external_body]
    fn v_len(&self) -> (r: usize) { unimplemented!() }
}
pub uninterp spec fn s_parses(s: Seq<char>) -> bool;
#[verifier::external_body]
pub fn v_parses_is_ok(s: &str) -> (r: bool) ensures r == s_parses(s@) { unimplemented!() }
#[verifier::external_body]
pub fn v_parses_is_err(s: &str) -> (r: bool) ensures r == !s_parses(s@) { unimplemented!() }
pub uninterp spec fn s_replaced<A, B>(s: Seq<char>, a: A, b: B) -> Seq<char>;
#[verifier::external_body]
pub fn v_replace<A, B>(s: &str, a: A, b: B) -> (r: String) ensures r@ == s_replaced(s@, a, b) { unimplemented!() }
#[verifier::external_body]
pub fn v_get_from(s: &str, i: usize) -> (r: Option<&str>)
    ensures r is Some <==> is_bnd(s@, i as int), r is Some ==> (r->0)@ == s@.subrange(cidx(s@, i as int), s@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn v_get_to(s: &str, i: usize) -> (r: Option<&str>)
    ensures r is Some <==> is_bnd(s@, i as int), r is Some ==> (r->0)@ == s@.subrange(0, cidx(s@, i as int)) { unimplemented!() }
#[verifier::external_body]
pub fn v_get(s: &str, i: usize, j: usize) -> (r: Option<&str>)
    ensures r is Some <==> is_bnd(s@, i as int) && is_bnd(s@, j as int) && i <= j, r is Some ==> (r->0)@ == s@.subrange(cidx(s@, i as int), cidx(s@, j as int)) { unimplemented!() }

// ---- patterns held in variables: a character is a text of length one
pub trait VPat { spec fn s_pat(&self) -> Seq<char>; spec fn s_found(&self, s: Seq<char>, r: Option<usize>) -> bool; }
impl VPat for char {
    open spec fn s_pat(&self) -> Seq<char> { seq![*self] }
    open spec fn s_found(&self, s: Seq<char>, r: Option<usize>) -> bool { let c = *self;
        (match r {
            Some(i) => is_bnd(s, i as int) && 0 <= cidx(s, i as int) < s.len() && s[cidx(s, i as int)] == c
                && (forall|j: int| 0 <= j < cidx(s, i as int) ==> #[trigger] s[j] != c)
                && (clen(c) == 1 ==> i + 1 <= isize::MAX && is_bnd(s, i + 1) && cidx(s, i + 1) == cidx(s, i as int) + 1),
            None => forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] != c,
        })
        && first_idx(s, p_is(c)) == (match r { Some(i) => cidx(s, i as int), None => s.len() as int })
        && (r is None <==> !s.contains(c))
    }
}
impl<'a> VPat for &'a str { open spec fn s_pat(&self) -> Seq<char> { self@ } open spec fn s_found(&self, s: Seq<char>, r: Option<usize>) -> bool { true } }
impl<'a> VPat for &'a String { open spec fn s_pat(&self) -> Seq<char> { self@ } open spec fn s_found(&self, s: Seq<char>, r: Option<usize>) -> bool { true } }
#[verifier::external_body]
pub fn v_find_x<P: VPat>(s: &str, p: P) -> (r: Option<usize>)
    ensures
        match r {
            Some(i) => is_bnd(s@, i as int) && first_occ(s@, p.s_pat(), cidx(s@, i as int)) && cidx(s@, i as int) <= s@.len()
                && ((forall|m: int| 0 <= m < p.s_pat().len() ==> clen(#[trigger] p.s_pat()[m]) == 1) ==>
                    i + p.s_pat().len() <= isize::MAX && forall|j: int| #![trigger is_bnd(s@, j)] #![trigger cidx(s@, j)] i <= j <= i + p.s_pat().len() ==> is_bnd(s@, j) && cidx(s@, j) == cidx(s@, i as int) + (j - i)),
            None => forall|j: int| !#[trigger] occurs(s@, p.s_pat(), j),
        },
        p.s_found(s@, r),
        occ_idx(s@, p.s_pat()) == (match r { Some(i) => cidx(s@, i as int), None => -1int }) { unimplemented!() }
#[verifier::external_body]
pub fn v_rfind_x<P: VPat>(s: &str, p: P) -> (r: Option<usize>)
    ensures
        match r {
            Some(i) => is_bnd(s@, i as int) && 0 <= cidx(s@, i as int) <= s@.len() && occurs(s@, p.s_pat(), cidx(s@, i as int)) && (forall|j: int| j > cidx(s@, i as int) ==> !#[trigger] occurs(s@, p.s_pat(), j))
                && ((forall|m: int| 0 <= m < p.s_pat().len() ==> clen(#[trigger] p.s_pat()[m]) == 1) ==>
                    i + p.s_pat().len() <= isize::MAX && forall|j: int| #![trigger is_bnd(s@, j)] #![trigger cidx(s@, j)] i <= j <= i + p.s_pat().len() ==> is_bnd(s@, j) && cidx(s@, j) == cidx(s@, i as int) + (j - i)),
            None => forall|j: int| !#[trigger] occurs(s@, p.s_pat(), j),
        } { unimplemented!() }
#[verifier::external_body]
pub fn v_rfind_s(s: &str, p: &str) -> (r: Option<usize>)
    ensures
        match r {
            Some(i) => is_bnd(s@, i as int) && 0 <= cidx(s@, i as int) <= s@.len() && occurs(s@, p@, cidx(s@, i as int)) && (forall|j: int| j > cidx(s@, i as int) ==> !#[trigger] occurs(s@, p@, j))
                && ((forall|m: int| 0 <= m < p@.len() ==> clen(#[trigger] p@[m]) == 1) ==>
                    i + p@.len() <= isize::MAX && forall|j: int| #![trigger is_bnd(s@, j)] #![trigger cidx(s@, j)] i <= j <= i + p@.len() ==> is_bnd(s@, j) && cidx(s@, j) == cidx(s@, i as int) + (j - i)),
            None => forall|j: int| !#[trigger] occurs(s@, p@, j),
        } { unimplemented!() }
#[verifier::external_body]
pub fn v_rfind_by<F: Fn(char) -> bool>(s: &str, f: F) -> (r: Option<usize>)
    requires forall|c: char| f.requires((c,)),
    ensures
        match r {
            Some(i) => is_bnd(s@, i as int) && 0 <= cidx(s@, i as int) < s@.len() && f.ensures((s@[cidx(s@, i as int)],), true)
                && forall|j: int| cidx(s@, i as int) < j < s@.len() ==> f.ensures((#[trigger] s@[j],), false),
            None => forall|j: int| 0 <= j < s@.len() ==> f.ensures((#[trigger] s@[j],), false),
        } { unimplemented!() }
#[verifier::external_body]
pub fn v_starts_with_x<P: VPat>(s: &str, p: P) -> (r: bool) ensures r == occurs(s@, p.s_pat(), 0), p.s_pat().len() == 1 ==> r == (s@.len() > 0 && s@[0] == p.s_pat()[0]) { unimplemented!() }
#[verifier::external_body]
pub fn v_ends_with_x<P: VPat>(s: &str, p: P) -> (r: bool) ensures r == occurs(s@, p.s_pat(), s@.len() - p.s_pat().len()), p.s_pat().len() == 1 ==> r == (s@.len() > 0 && s@[s@.len() - 1] == p.s_pat()[0]) { unimplemented!() }
#[verifier::external_body]
pub fn v_strip_prefix_x<'a, P: VPat>(s: &'a str, p: P) -> (r: Option<&'a str>)
    ensures r is Some <==> occurs(s@, p.s_pat(), 0), r is Some ==> r->0@ == s@.subrange(p.s_pat().len() as int, s@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn v_strip_suffix_x<'a, P: VPat>(s: &'a str, p: P) -> (r: Option<&'a str>)
    ensures r is Some <==> occurs(s@, p.s_pat(), s@.len() - p.s_pat().len()), r is Some ==> r->0@ == s@.subrange(0, s@.len() - p.s_pat().len()) { unimplemented!() }
#[verifier::external_body]
pub fn v_split_once_x<'a, P: VPat>(s: &'a str, p: P) -> (r: Option<(&'a str, &'a str)>)
    ensures r is Some <==> (exists|j: int| occurs(s@, p.s_pat(), j)),
        r is Some ==> first_occ(s@, p.s_pat(), occ_idx(s@, p.s_pat())) && (r->0).0@ == s@.subrange(0, occ_idx(s@, p.s_pat())) && (r->0).1@ == s@.subrange(occ_idx(s@, p.s_pat()) + p.s_pat().len(), s@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn v_rsplit_once_s<'a>(s: &'a str, p: &str) -> (r: Option<(&'a str, &'a str)>)
    ensures r is Some <==> (exists|j: int| occurs(s@, p@, j)), r is Some ==> s@ == (r->0).0@ + p@ + (r->0).1@ { unimplemented!() }
pub uninterp spec fn s_trimmed(f: int, s: Seq<char>, p: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn v_trim_start_matches_s<'a>(s: &'a str, p: &str) -> (r: &'a str) ensures r@ == s_trimmed(0, s@, p@) { unimplemented!() }
#[verifier::external_body]
pub fn v_trim_end_matches_s<'a>(s: &'a str, p: &str) -> (r: &'a str) ensures r@ == s_trimmed(1, s@, p@) { unimplemented!() }
/// contains() of a text or a vector
pub trait VHas<P> {
    spec fn s_has(&self, p: P) -> bool;
    fn v_has(&self, p: P) -> (r: bool) ensures r == self.s_has(p);
}
impl VHas<char> for str { open spec fn s_has(&self, p: char) -> bool { self@.contains(p) } #[verifier::external_body] fn v_has(&self, p: char) -> (r: bool) { unimplemented!() } }
impl VHas<char> for String { open spec fn s_has(&self, p: char) -> bool { self@.contains(p) } #[verifier::external_body] fn v_has(&self, p: char) -> (r: bool) { unimplemented!() } }
impl<'a> VHas<&'a str> for str { open spec fn s_has(&self, p: &'a str) -> bool { exists|j: int| occurs(self@, p@, j) } #[verifier::external_body] fn v_has(&self, p: &'a str) -> (r: bool) { unimplemented!() } }
impl<'a> VHas<&'a str> for String { open spec fn s_has(&self, p: &'a str) -> bool { exists|j: int| occurs(self@, p@, j) } #[verifier::external_body] fn v_has(&self, p: &'a str) -> (r: bool) { unimplemented!() } }
impl<'a> VHas<&'a String> for str { open spec fn s_has(&self, p: &'a String) -> bool { exists|j: int| occurs(self@, p@, j) } #[verifier::external_body] fn v_has(&self, p: &'a String) -> (r: bool) { unimplemented!() } }
impl<'a> VHas<&'a String> for String { open spec fn s_has(&self, p: &'a String) -> bool { exists|j: int| occurs(self@, p@, j) } #[verifier::external_body] fn v_has(&self, p: &'a String) -> (r: bool) { unimplemented!() } }
pub uninterp spec fn s_vhas<T>(s: Seq<T>, x: T) -> bool;
impl<'a, T> VHas<&'a T> for Vec<T> { open spec fn s_has(&self, p: &'a T) -> bool { s_vhas(self@, *p) } #[verifier::external_body] fn v_has(&self, p: &'a T) -> (r: bool) { unimplemented!() } }
