// ---- command lines ----
/// an option: it begins with '-'
pub open spec fn dash(a: Seq<char>) -> bool { a.len() > 0 && a[0] == '-' }
pub open spec fn all_f(a: Seq<char>, from: int) -> bool { forall|i: int| from <= i < a.len() ==> #[trigger] a[i] == 'f' }
/// the command line is accepted: every option is -f (or several of them in one word), each with its value after it
pub open spec fn cl_ok(a: Seq<Seq<char>>) -> bool
    decreases a.len()
{
    if a.len() == 0 { true }
    else if !dash(a[0]) { cl_ok(a.skip(1)) }
    else { a[0].len() >= 2 && all_f(a[0], 1) && a[0].len() <= a.len() && cl_ok(a.skip(a[0].len() as int)) }
}
/// how many words the option at the front takes up with its values
pub open spec fn takes(a: Seq<Seq<char>>) -> int { if a[0].len() <= a.len() { a[0].len() as int } else { a.len() as int } }
/// the command words, in order
pub open spec fn cl_words(a: Seq<Seq<char>>) -> Seq<Seq<char>>
    decreases a.len()
{
    if a.len() == 0 { Seq::empty() }
    else if !dash(a[0]) { seq![a[0]] + cl_words(a.skip(1)) }
    else { cl_words(a.skip(takes(a))) }
}
/// the files, in order: the k letters of an option word name the k words after it
pub open spec fn cl_files(a: Seq<Seq<char>>) -> Seq<Seq<char>>
    decreases a.len()
{
    if a.len() == 0 { Seq::empty() }
    else if !dash(a[0]) { cl_files(a.skip(1)) }
    else { a.subrange(1, takes(a)) + cl_files(a.skip(takes(a))) }
}
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn dash_f() -> Seq<char> { seq!['-', 'f'] }
/// the list of options with their values: every one is -f, none without value
pub open spec fn op_ok(o: Seq<Seq<char>>) -> bool {
    o.len() % 2 == 0 && forall|i: int| #![trigger o[i]] 0 <= i < o.len() && i % 2 == 0 ==> o[i] == dash_f()
}
pub open spec fn op_files(o: Seq<Seq<char>>) -> Seq<Seq<char>> { Seq::new(o.len() / 2, |i: int| o[2 * i + 1]) }
/// the options in a word: one for each letter (up to the k-th)
pub open spec fn letters(s: Seq<char>, k: int) -> Seq<Seq<char>> { Seq::new(if k >= 1 { (k - 1) as nat } else { 0 }, |i: int| seq!['-', s[i + 1]]) }
/// the first n options of q, each with its value
pub open spec fn with_values(q: Seq<Seq<char>>, v: Seq<Seq<char>>, n: int) -> Seq<Seq<char>> {
    Seq::new((2 * n) as nat, |i: int| if i % 2 == 0 { q[i / 2] } else { v[i / 2] })
}
pub proof fn text_skip(v: Seq<String>, k: int)
    requires 0 <= k <= v.len(),
    ensures texts(v.skip(k)) == texts(v).skip(k),
{ assert(texts(v.skip(k)) =~= texts(v).skip(k)); }
pub proof fn text_push(v: Seq<String>, x: String)
    ensures texts(v.push(x)) == texts(v).push(x@),
{ assert(texts(v.push(x)) =~= texts(v).push(x@)); }
/// one option word with its values has been moved to the list of options
pub proof fn option_word(a: Seq<Seq<char>>, o: Seq<Seq<char>>)
    requires a.len() > 0, dash(a[0]), a[0].len() >= 2, a[0].len() <= a.len(), o.len() % 2 == 0,
    ensures ({
        let w = a[0];
        let o2 = o + with_values(letters(w, w.len() as int), a.skip(1), w.len() - 1);
        &&& o2.len() % 2 == 0
        &&& op_files(o2) == op_files(o) + a.subrange(1, w.len() as int)
        &&& op_ok(o2) == (op_ok(o) && all_f(w, 1))
    }),
{
    let w = a[0];
    let p = with_values(letters(w, w.len() as int), a.skip(1), w.len() - 1);
    let o2 = o + p;
    assert(op_files(o2) =~= op_files(o) + a.subrange(1, w.len() as int)) by {
        assert forall|i: int| 0 <= i < op_files(o2).len() implies op_files(o2)[i] == (op_files(o) + a.subrange(1, w.len() as int))[i] by {
            if i >= o.len() / 2 { let j = i - o.len() / 2; assert(2 * i + 1 - o.len() == 2 * j + 1); assert(p[2 * j + 1] == a.skip(1)[j]); }
        }
    }
    if op_ok(o2) {
        assert forall|i: int| #![trigger o[i]] 0 <= i < o.len() && i % 2 == 0 implies o[i] == dash_f() by { assert(o2[i] == o[i]); }
        assert forall|i: int| 1 <= i < w.len() implies #[trigger] w[i] == 'f' by {
            let j = o.len() + 2 * (i - 1);
            assert(j % 2 == 0);
            assert(o2[j] == dash_f());
            assert(o2[j] == p[2 * (i - 1)]);
            assert(p[2 * (i - 1)] == seq!['-', w[i]]);
            assert(seq!['-', w[i]][1] == dash_f()[1]);
        }
    }
    if op_ok(o) && all_f(w, 1) {
        assert forall|i: int| #![trigger o2[i]] 0 <= i < o2.len() && i % 2 == 0 implies o2[i] == dash_f() by {
            if i < o.len() { assert(o2[i] == o[i]); } else {
                let j = i - o.len();
                assert(o2[i] == p[j] && j % 2 == 0);
                assert(w[j / 2 + 1] == 'f');
                assert(p[j] =~= dash_f());
            }
        }
    }
}
pub proof fn len_one(s: Seq<char>)
    requires dash(s),
    ensures (boff(s, s.len() as int) == 1) == (s.len() == 1), boff(s, s.len() as int) >= 1,
{
    assert(boff(s, 0) == 0); assert(boff(s, 1) == 1);
    if s.len() > 1 { boff_mono(s, 1, s.len() as int); }
}
pub proof fn first_char(s: Seq<char>, i: int, k: int)
    requires is_bnd(s, i), cidx(s, i) == k, 0 <= k,
    ensures (i == 0) == (k == 0),
{
    assert(boff(s, 0) == 0);
    if k > 0 { boff_mono(s, 0, k); }
}

// ---- commands: reading the files and reporting are opaque here (they have contracts of their own in other units)
#[verifier::external_body]
pub struct Journal { x: u8 }
/// the files that were read into the journal, in order
pub uninterp spec fn files_in(j: Journal) -> Seq<Seq<char>>;
/// the lines of the reports
pub uninterp spec fn balance_lines(j: Journal) -> Seq<Seq<char>>;
pub uninterp spec fn account_lines(j: Journal) -> Seq<Seq<char>>;
#[verifier::external_body]
pub fn v_sort_texts(v: &mut Vec<String>) ensures texts(final(v)@).to_multiset() == texts(old(v)@).to_multiset() { unimplemented!() }
pub open spec fn is_balance(w: Seq<char>) -> bool { w == seq!['b'] || w == seq!['b', 'a', 'l'] || w == seq!['b', 'a', 'l', 'a', 'n', 'c', 'e'] }
/// the command is one of those there are
pub open spec fn known_command(w: Seq<Seq<char>>) -> bool { w.len() > 0 && w[0].len() > 0 && (w[0][0] == 'a' || is_balance(w[0])) }
/// what the command prints comes from the journal j
pub open spec fn prints(w: Seq<Seq<char>>, j: Journal, r: Seq<Seq<char>>) -> bool {
    if w[0][0] == 'a' { r.to_multiset() == account_lines(j).to_multiset() } else { r == balance_lines(j) }
}
/// one journal, with exactly these files, is what the command reports on
pub open spec fn command_done(w: Seq<Seq<char>>, files: Seq<Seq<char>>, r: Seq<Seq<char>>) -> bool {
    exists|j: Journal| #[trigger] files_in(j) == files && prints(w, j, r)
}
