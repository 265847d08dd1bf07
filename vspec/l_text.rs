// ---- what the functions items/body say of texts made of lines (C14)
pub open spec fn is_line(l: Seq<char>) -> bool { l.len() > 0 && l.last() == '\n' && forall|i: int| 0 <= i < l.len() - 1 ==> #[trigger] l[i] != '\n' }
pub open spec fn text(ls: Seq<Seq<char>>) -> Seq<char>
    decreases ls.len()
{ if ls.len() == 0 { Seq::empty() } else { ls[0] + text(ls.skip(1)) } }
/// the transaction after these lines
pub open spec fn fold(x: XW, ls: Seq<Seq<char>>) -> XW
    decreases ls.len()
{ if ls.len() == 0 { x } else { fold(line(x, ls[0]), ls.skip(1)) } }
pub open spec fn inner(ls: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < ls.len() ==> is_line(#[trigger] ls[i]) && !ends(ls[i]) }
pub proof fn ln_is(l: Seq<char>, t: Seq<char>)
    requires is_line(l),
    ensures ln(l + t) == l, after(l + t) == t,
{ let s = l + t; assert forall|j: int| 0 <= j < l.len() - 1 implies !p_is('\n')(#[trigger] s[j]) by { assert(s[j] == l[j]); } assert(s[l.len() - 1] == l.last()); first_idx_is(s, p_is('\n'), l.len() - 1); assert(tk(s, l.len() as int) =~= l); assert(dr(s, l.len() as int) =~= t); }
/// a last line without an end
pub proof fn ln_last(l: Seq<char>)
    requires forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] != '\n',
    ensures ln(l) == l, after(l).len() == 0,
{ first_idx_is(l, p_is('\n'), l.len() as int); }
proof fn inner_tail(ls: Seq<Seq<char>>) requires inner(ls), ls.len() > 0 ensures inner(ls.skip(1)), is_line(ls[0]), !ends(ls[0])
{ assert forall|i: int| 0 <= i < ls.skip(1).len() implies is_line(#[trigger] ls.skip(1)[i]) && !ends(ls.skip(1)[i]) by { assert(ls.skip(1)[i] == ls[i + 1]); } }
/// the lines of a transaction, ended by a blank line
pub proof fn body_lines(x: XW, ls: Seq<Seq<char>>, e: Seq<char>, t: Seq<char>)
    requires inner(ls), is_line(e), ends(e),
    ensures body(x, text(ls) + (e + t)) == (fold(x, ls), t),
    decreases ls.len(),
{
    if ls.len() == 0 { assert(text(ls) + (e + t) =~= e + t); ln_is(e, t); }
    else { inner_tail(ls); let u = text(ls.skip(1)) + (e + t); assert(text(ls) + (e + t) =~= ls[0] + u); ln_is(ls[0], u); body_lines(line(x, ls[0]), ls.skip(1), e, t); }
}
/// or by the end of the text; l is a last line without an end, or nothing
pub proof fn body_eof(x: XW, ls: Seq<Seq<char>>, l: Seq<char>)
    requires inner(ls), forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] != '\n',
    ensures body(x, text(ls) + l).0 == (if l.len() == 0 || ends(l) { fold(x, ls) } else { line(fold(x, ls), l) }), body(x, text(ls) + l).1.len() == 0,
    decreases ls.len(),
{
    if ls.len() == 0 { assert(text(ls) + l =~= l); ln_last(l); if l.len() > 0 && !ends(l) { let a = after(l); assert(body(line(x, l), a) == (line(x, l), a)); } }
    else { inner_tail(ls); let u = text(ls.skip(1)) + l; assert(text(ls) + l =~= ls[0] + u); ln_is(ls[0], u); body_eof(line(x, ls[0]), ls.skip(1), l); }
}
/// one transaction per block, in the order written
pub proof fn block_read(h: Seq<char>, ls: Seq<Seq<char>>, e: Seq<char>, t: Seq<char>)
    requires is_line(h), is_dig(h[0]), !blank(h), inner(ls), is_line(e), ends(e),
    ensures items(h + (text(ls) + (e + t))) == seq![fold(head(h), ls)] + items(t),
{ ln_is(h, text(ls) + (e + t)); body_lines(head(h), ls, e, t); }
pub proof fn block_last(h: Seq<char>, ls: Seq<Seq<char>>, l: Seq<char>)
    requires is_line(h), is_dig(h[0]), !blank(h), inner(ls), forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] != '\n',
    ensures items(h + (text(ls) + l)) == seq![if l.len() == 0 || ends(l) { fold(head(h), ls) } else { line(fold(head(h), ls), l) }],
{ ln_is(h, text(ls) + l); body_eof(head(h), ls, l); let d = body(head(h), text(ls) + l); assert(items(d.1) == Seq::<XW>::empty()); assert(seq![d.0] + Seq::<XW>::empty() =~= seq![d.0]); }
/// blank lines and comment lines between transactions change nothing
pub proof fn skip_read(l: Seq<char>, t: Seq<char>)
    requires is_line(l), blank(l) || is_comment(l[0]),
    ensures items(l + t) == items(t), !items_bad(t) ==> !items_bad(l + t),
{ ln_is(l, t); assert(Seq::<XW>::empty() + items(t) =~= items(t)); comment_dig(l[0]); }
proof fn comment_dig(c: char) ensures is_comment(c) ==> !is_dig(c) && c != ' ' && c != '\t' { }
/// an included file's transactions come at the place of the include
pub proof fn include_read(l: Seq<char>, t: Seq<char>)
    requires is_line(l), !blank(l), is_other(l), is_include(l),
    ensures items(l + t) == inc_items(words(l)[1]) + items(t),
{ ln_is(l, t); }
/// each posting line is one posting, in order; notes go to the posting above
pub open spec fn is_note(l: Seq<char>) -> bool { tstart(l)[0] == ';' }
pub open spec fn pts(ps: Seq<PW>) -> Seq<PT> { Seq::new(ps.len(), |i: int| ps[i].t) }
pub open spec fn lpts(ls: Seq<Seq<char>>) -> Seq<PT>
    decreases ls.len()
{ if ls.len() == 0 { Seq::empty() } else if is_note(ls[0]) { lpts(ls.skip(1)) } else { seq![s_post(tstart(ls[0]))->0] + lpts(ls.skip(1)) } }
pub proof fn fold_posts(x: XW, ls: Seq<Seq<char>>)
    ensures pts(fold(x, ls).posts) == pts(x.posts) + lpts(ls), fold(x, ls).date == x.date, fold(x, ls).aux == x.aux, fold(x, ls).payee == x.payee,
    decreases ls.len(),
{
    if ls.len() == 0 { assert(pts(x.posts) + lpts(ls) =~= pts(x.posts)); }
    else {
        let y = line(x, ls[0]);
        fold_posts(y, ls.skip(1));
        if is_note(ls[0]) { assert(pts(y.posts) =~= pts(x.posts)); }
        else { assert(pts(y.posts) =~= pts(x.posts) + seq![s_post(tstart(ls[0]))->0]); assert(pts(y.posts) + lpts(ls.skip(1)) =~= pts(x.posts) + lpts(ls)); }
    }
}
