"""The units: which functions of /repo carry which contract. `«text»` in a contract names the local variable
initialised with that expression, `$k` the k-th parameter (without self), so contracts survive renaming."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools'))
from vgen import F, Unit

UNITS = {}
def unit(*a, **k):
    if 's_amount.rs' in a[1]: a = (a[0], [x for y in a[1] for x in (['p_opany.rs' if a[0] == 'amount' else 'p_opsame.rs', y] if y == 's_amount.rs' else [y])], *a[2:])
    u = Unit(*a, **k); UNITS[u.name] = u; return u

# ------------------------------------------------------------------ amounts
INTO0 = [['pre:into-quantity', '0.into()', 'Quantity::from(0)'], ['pre:into-quantity', '1.into()', 'Quantity::from(1)']]
T_QTY = ('amount.rs', 'struct Quantity'); T_AMT = ('amount.rs', 'struct Amount')
T_CDTY = ('commodity.rs', 'struct Commodity')
Q = [
  F('amount.rs', 'Quantity::is_sign_positive', 'ensures r == !qneg(*self)'),
  F('amount.rs', 'Quantity::is_zero', 'ensures r == (qv(*self) == 0real)'),
  F('amount.rs', 'Quantity::set_sign_negative', 'ensures qv(*final(self)) == 0real - rabs(qv(*old(self))), qneg(*final(self))'),
  F('amount.rs', 'Quantity::set_sign_positive', 'ensures qv(*final(self)) == rabs(qv(*old(self))), !qneg(*final(self))'),
  F('amount.rs', 'From<i32> for Quantity::from', 'ensures qv(r) == $1 as int as real'),
  F('amount.rs', 'Add<Quantity> for Quantity::add', 'ensures qv(r) == qv(self) + qv($1)'),
  F('amount.rs', 'AddAssign<Quantity> for Quantity::add_assign', 'ensures qv(*final(self)) == qv(*old(self)) + qv($1)'),
  F('amount.rs', 'SubAssign<Quantity> for Quantity::sub_assign', 'ensures qv(*final(self)) == qv(*old(self)) - qv($1)'),
  F('amount.rs', 'MulAssign<Quantity> for Quantity::mul_assign', 'ensures qv(*final(self)) == qv(*old(self)) * qv($1)'),
  F('amount.rs', 'Mul<Quantity> for Quantity::mul', 'ensures qv(r) == qv(self) * qv($1)'),
  F('amount.rs', 'Div<Quantity> for Quantity::div', 'ensures qv(r) * qv($1) == qv(self)', rules=[['div-method', '$a.div($b)', '$a / $b']]),
]
QS = [F('amount.rs', 'Quantity::from_str', 'ensures r is Some <==> dec_ok($1@), r is Some ==> qv(r->0) == dec_val($1@)')]
DIFF = 'self.commodity != $1.commodity'
ODIFF = 'old(self).commodity != $1.commodity'
A = [
  F('amount.rs', 'Amount::new', 'ensures r.quantity == $1, r.commodity == (match $2 { Some(c) => c, None => nullp::<Commodity>() })'),
  F('amount.rs', 'Amount::abs', 'ensures av(r) == (rabs(qv(self.quantity)), self.commodity)'),
  F('amount.rs', 'Amount::copy_from', 'ensures av(r) == av(*$1)'),
  F('amount.rs', 'Amount::null', 'ensures av(r) == (0real, nullp::<Commodity>())', rules=INTO0),
  F('amount.rs', 'Amount::add', 'requires amt_op_req(*old(self), *$1) ensures old(self).commodity == $1.commodity, av(*final(self)) == (qv(old(self).quantity) + qv($1.quantity), old(self).commodity)', panics=ODIFF, pcarg=False),
  F('amount.rs', 'Amount::inverse', 'ensures av(r) == (0real - qv(self.quantity), self.commodity)'),
  F('amount.rs', 'Amount::invert', 'ensures av(*final(self)) == (0real - qv(old(self).quantity), old(self).commodity)'),
  F('amount.rs', 'Amount::is_null', 'ensures r == (av(*self) == (0real, nullp::<Commodity>()))'),
  F('amount.rs', 'Amount::is_zero', 'ensures r == (qv(self.quantity) == 0real)'),
  F('amount.rs', 'Amount::remove_commodity', 'ensures av(*final(self)) == (qv(old(self).quantity), nullp::<Commodity>())'),
  F('amount.rs', 'Add<Amount> for Amount::add', 'ensures self.commodity == $1.commodity, av(r) == (qv(self.quantity) + qv($1.quantity), self.commodity)', panics=DIFF),
  F('amount.rs', 'AddAssign<Amount> for Amount::add_assign', 'ensures old(self).commodity == $1.commodity, av(*final(self)) == (qv(old(self).quantity) + qv($1.quantity), old(self).commodity)', panics=ODIFF),
  F('amount.rs', 'SubAssign<Amount> for Amount::sub_assign', 'ensures old(self).commodity == $1.commodity, av(*final(self)) == (qv(old(self).quantity) - qv($1.quantity), old(self).commodity)', panics=ODIFF),
  F('amount.rs', 'MulAssign<Amount> for Amount::mul_assign', 'ensures av(*final(self)) == (qv(old(self).quantity) * qv($1.quantity), ccomb(old(self).commodity, $1.commodity))'),
  F('amount.rs', 'Mul<Amount> for Amount::mul', 'ensures av(r) == (qv(self.quantity) * qv($1.quantity), ccomb(self.commodity, $1.commodity))'),
  F('amount.rs', 'Div for Amount::div', 'ensures qv(r.quantity) * qv($1.quantity) == qv(self.quantity), rabs(qv(r.quantity)) * rabs(qv($1.quantity)) == rabs(qv(self.quantity)), qv(r.quantity) == 0real <==> qv(self.quantity) == 0real, r.commodity == ccomb(self.commodity, $1.commodity)', rules=INTO0,
    end='quot_props(qv(__r.quantity), qv($1.quantity), qv(self.quantity));'),
  F('amount.rs', 'From<i32> for Amount::from', 'ensures av(r) == ($1 as int as real, nullp::<Commodity>())'),
]
A_GC = F('amount.rs', 'Amount::get_commodity', 'ensures r == self.s_get_commodity()')
AMT_P = ['p_base.rs', 'p_str.rs', 'p_dec.rs', 's_amount.rs']
BC = 'broadcast use {ax_dec::dec_sign, ax_amt::interned, ax_amt::cderef_inj};\n'
NODEREF = '#[verifier::external_body]'
unit('amount', AMT_P, [T_QTY, T_AMT, T_CDTY], Q + QS + A, pre=BC, extra='pub type CommodityIndex = usize;\n')

BAL_ADD = 'requires bal_wf(old(self).amounts@) ensures bal_wf(final(self).amounts@), bal_step(old(self).amounts@, final(self).amounts@, $1.commodity, %s)'
B = [
  F('balance.rs', 'Balance::new', 'ensures r.amounts@ == Seq::<Amount>::empty()'),
  F('balance.rs', 'Balance::add', 'ensures bal_step(old(self).amounts@, final(self).amounts@, $1.commodity, qv($1.quantity))'),
  F('balance.rs', 'SubAssign<Amount> for Balance::sub_assign', 'ensures bal_step(old(self).amounts@, final(self).amounts@, $1.commodity, 0real - qv($1.quantity))'),
  F('balance.rs', 'AddAssign<Amount> for Balance::add_assign', 'ensures bal_step(old(self).amounts@, final(self).amounts@, $1.commodity, qv($1.quantity))'),
  F('balance.rs', 'AddAssign<Balance> for Balance::add_assign',
    'ensures bal_wf(final(self).amounts@), forall|c: VPtr<Commodity>| #[trigger] bal_sum(final(self).amounts@, c) == bal_sum(old(self).amounts@, c) + bal_sum($1.amounts@, c)',
    loops={0: dict(inv='bal_wf(self.amounts@), __v0@ == $1.amounts@, forall|c: VPtr<Commodity>| #[trigger] bal_sum(self.amounts@, c) == bal_sum(old(self).amounts@, c) + bal_sum(__v0@.subrange(0, __n0 as int), c)',
                   pre='proof { assert($1.amounts@.subrange(0, 0) =~= Seq::<Amount>::empty()); }',
                   body='let ghost __b = self.amounts@; let ghost __k = __n0 as int;',
                   end='proof { bal_step_sum(__b, self.amounts@, __v0@[__k].commodity, qv(__v0@[__k].quantity)); assert(__v0@.subrange(0, __k + 1).drop_last() =~= __v0@.subrange(0, __k)); }',
                   post='proof { assert(__v0@.subrange(0, __v0@.len() as int) =~= __v0@); }')}),
]
unit('balance', AMT_P + ['s_balance.rs'], [T_QTY, T_AMT, T_CDTY, ('balance.rs', 'struct Balance')], B, assume=Q + A + [A_GC],
     pre=BC, extra='pub type CommodityIndex = usize;\n')

# ------------------------------------------------------------------ scanner
SC_P = ['p_base.rs', 'p_str.rs', 's_scan.rs']
SC_T = [('scanner.rs', 'struct ' + x) for x in ('PostTokens', 'AmountTokens', 'AnnotationTokens', 'CostTokens')]
LITS = ''.join('reveal_strlit("%s"); ' % l for l in ('', '  ', '  ;'))
SBC = 'broadcast use {ascii_prefix_1, ascii_prefix_2, ascii_prefix_3, tstart_len, tstart_idem, until_len, boff_zero, payee_note};\nproof { ' + LITS + 'assert(""@ =~= es()); assert("  "@ =~= acc_sep()); assert("  ;"@ =~= note_sep()); }\n'
def charloop(p):
    return dict(inv='__n0 <= first_idx(__s0, %s)' % p, pre='proof { first_idx_props(__s0, %s); }' % p,
                body='proof { first_idx_step(__s0, %s, __n0 as int); }' % p, post='proof { first_idx_props(__s0, %s); }' % p)
SC = [
  F('scanner.rs', 'PostTokens::create_empty', "ensures ptv(r) == ptv_empty()"),
  F('scanner.rs', 'AnnotationTokens::empty', "ensures r.quantity@ == es(), r.symbol@ == es(), r.date@ == es()"),
  F('scanner.rs', 'CostTokens::new', "ensures r.quantity@ == es(), r.symbol@ == es(), r.is_per_unit == false, r.remainder@ == es()"),
  F('scanner.rs', 'scan_date', 'ensures r.0@ == s_date($1@).0, r.1@ == s_date($1@).1'),
  F('scanner.rs', 'tokenize_aux_date', 'ensures r.0@ == s_aux($1@).0, r.1@ == s_aux($1@).1'),
  F('scanner.rs', 'tokenize_payee', 'ensures r.0@ == s_payee($1@).0, r.1@ == s_payee($1@).1'),
  F('scanner.rs', 'tokenize_note', 'requires note_pre($1@) ensures r@ == s_note($1@)'),
  F('scanner.rs', 'tokenize_xact_header', 'ensures r@.len() == 4, r@[0]@ == s_header($1@).0, r@[1]@ == s_header($1@).1, r@[2]@ == s_header($1@).2, r@[3]@ == s_header($1@).3', panics='$1@.len() == 0'),
  F('scanner.rs', 'scan_quantity', 'ensures r.0@ == s_quantity($1@).0, r.1@ == s_quantity($1@).1', loops={0: charloop('p_nonnum()')}),
  F('scanner.rs', 'scan_symbol', 'ensures r.0@ == s_symbol($1@).0, r.1@ == s_symbol($1@).1', loops={0: charloop('p_symend()')}),
  F('scanner.rs', 'scan_amount', 'ensures atv(r.0) == (s_amount($1@).0, s_amount($1@).1), r.1@ == s_amount($1@).2', panics='tstart($1@).len() == 0'),
  F('scanner.rs', 'scan_until', 'ensures r.0@ == s_until($1@, $2).0, r.1@ == s_until($1@, $2).1, r.1@.len() > 0 && r.1@[0] == $2', panics='!$1@.contains($2)'),
  F('scanner.rs', 'scan_annotations', 'ensures Some((r.0.quantity@, r.0.symbol@, r.0.date@, r.1@)) == s_annot(tstart($1@), es(), es(), es())', panics='s_annot(tstart($1@), es(), es(), es()) is None',
    pre='let ghost __a1 = $1@;',
    loops={0: dict(inv='s_annot(tstart(__a1), es(), es(), es()) == s_annot(«v_trim_start ($1 . v_s ())»@, «AnnotationTokens :: empty ()».quantity@, «AnnotationTokens :: empty ()».symbol@, «AnnotationTokens :: empty ()».date@), __pc == (s_annot(tstart(__a1), es(), es(), es()) is None)', dec='«v_trim_start ($1 . v_s ())»@.len()')}),
  F('scanner.rs', 'scan_cost', 'ensures r.quantity@ == s_cost($1@).0, r.symbol@ == s_cost($1@).1, r.is_per_unit == s_cost($1@).2', panics='s_cost_panics($1@)'),
  F('scanner.rs', 'scan_post', 'ensures Some(ptv(r)) == s_post($1@)', panics='s_post($1@) is None'),
]
unit('scanner', SC_P + ['l_scan.rs'], SC_T, SC, pre=SBC)
SP = [
  F('scanner.rs', 'find_next_separator', 'ensures first_idx($1@, p_ws()) == (match r { Some(i) => cidx($1@, i as int), None => $1@.len() as int }), r is Some ==> is_bnd($1@, r->0 as int) && 0 <= cidx($1@, r->0 as int) <= $1@.len()'),
  F('scanner.rs', 'scan_price_element', 'ensures r.0@ == s_elem($1@).0, r.1@ == s_elem($1@).1'),
  F('scanner.rs', 'scan_price_directive', 'requires $1@.len() > 0, clen($1@[0]) == 1 ensures r@.len() == 5, r@[0]@ == s_price($1@).0, r@[1]@ == s_price($1@).1, r@[2]@ == s_price($1@).2, r@[3]@ == s_price($1@).3, r@[4]@ == s_price($1@).4', panics='s_price_time($1@).len() == 0'),
]
unit('scan_price', SC_P + ['l_scan.rs', 's_price.rs', 'l_price.rs'], SC_T, SP, pre=SBC)

# ------------------------------------------------------------------ price history
HP = ['p_base.rs', 'p_str.rs', 'p_dec.rs', 's_amount.rs', 'p_col.rs', 's_hist.rs']
def with_id(t, it):
    i = t.rindex('}')
    return t[:i] + '/// where it lies\n pub v_id: Ghost<usize>,\n' + t[i:]
T_CDTY2 = ('commodity.rs', 'struct Commodity', with_id)
XID = {'struct_extra': {'Commodity': 'v_id: Ghost(arbitrary())'}}
def qconst(v):
    import re
    return lambda t, it: re.sub(r'pub const (\w+): Quantity = (.*);', lambda m: 'pub exec const %s: Quantity ensures qv(Self::%s) == %s { %s }' % (m.group(1), m.group(1), v, m.group(2)), t)
QC = [('amount.rs', 'Quantity::const ONE', qconst('1real')), ('amount.rs', 'Quantity::const ZERO', qconst('0real'))]
H_T = QC + [T_QTY, T_AMT, T_CDTY2, ('commodity.rs', 'struct PricePoint'), ('history.rs', 'struct CommodityHistory'), ('history.rs', 'struct Price')]
HR = [['graph-deref', 'self.%s(%s)' % (n, a), 'self.0.%s(%s)' % (n, a)] for n, a in (('add_node', '$a'), ('find_edge', '$a, $b'), ('edge_weight', '$a'), ('edge_weight_mut', '$a'), ('add_edge', '$a, $b, $c'), ('node_weight', '$a'), ('contains_edge', '$a, $b'))]
HR += [['opt-lt', 'Some($a) < $b', 'v_opt_lt(Some($a), $b)']]
CREF = [['deref-ptr', '&*$p', 'v_cref($p)'], ['deref-ptr', '&**$p', 'v_cref(*$p)']]
FROM_PTR = F('commodity.rs', 'from_ptr', 'requires $1 != nullp::<Commodity>() ensures *r == cderef($1)', rules=CREF)
H = [
  F('history.rs', 'CommodityHistory::new', 'ensures r.0.nodes().len() == 0, r.0.edges().len() == 0'),
  F('history.rs', 'CommodityHistory::add_commodity', 'ensures r.i == old(self).0.nodes().len(), final(self).0.nodes() == old(self).0.nodes().push($1), final(self).0.edges() == old(self).0.edges()', rules=HR),
  F('history.rs', 'CommodityHistory::get_commodity', 'requires $1.i < self.0.nodes().len(), self.0.nodes()[$1.i as int] != nullp::<Commodity>() ensures *r == cderef(self.0.nodes()[$1.i as int])', rules=HR + CREF),
  F('history.rs', 'CommodityHistory::add_price', 'requires hist_wf(*old(self)), in_hist(*old(self), $1), $3.commodity == nullp::<Commodity>() || in_hist(*old(self), $3.commodity) ensures hist_wf(*final(self)), final(self).0.nodes() == old(self).0.nodes(), price_added(old(self).0.edges(), final(self).0.edges(), node_of($1), node_of($3.commodity), $2, $3.quantity)',
    end='price_put_added(old(self).0.edges(), self.0.edges(), self.0.nodes().len() as int, node_of($1), node_of($3.commodity), $2, $3.quantity);',
    panics='$3.commodity == nullp::<Commodity>() || $1 == $3.commodity', rules=HR),
  F('history.rs', 'get_latest_price', 'ensures match r { None => forall|k: NaiveDateTime| !#[trigger] $1@.contains_key(k), Some(p) => is_last($1@, *p.0) && *p.1 == $1@[*p.0] }'),
  F('history.rs', 'CommodityHistory::get_direct_price', 'requires hist_wf(*self) ensures match r { None => !has_edge(self.0.edges(), $1.i as int, $2.i as int), Some(p) => has_edge(self.0.edges(), $1.i as int, $2.i as int) && is_last(pmap(self.0.edges(), $1.i as int, $2.i as int), *p.0) && *p.1 == pmap(self.0.edges(), $1.i as int, $2.i as int)[*p.0] }', rules=HR,
    pre='proof { let e = self.0.edges(); assert forall|k: int| 0 <= k < e.len() implies pmap(e, (#[trigger] e[k]).0, e[k].1) == e[k].2@ && has_edge(e, e[k].0, e[k].1) && priced(e[k].2) by { reveal(edges_wf); edge_unique(e, self.0.nodes().len() as int, k); } }'),
  F('history.rs', 'CommodityHistory::calculate_rate', 'requires hist_wf(*self), $3@.len() > 0, is_walk(self.0.edges(), $1.i as int, $3@.last().i as int, nodes_of($3@)) ensures qv(r.1) == hs_chain(self.0.edges(), nodes_of($3@)), $3@.len() > 1 ==> Some(r.0) == hs_oldest(self.0.edges(), nodes_of($3@))', rules=HR,
    loops={0: dict(inv='__v0@ == $3@, (__n0 == 0 ==> «$1» == $1), (__n0 > 0 ==> «$1» == __v0@[__n0 - 1]), qv(«Amount :: new (Quantity :: ONE , Some ($2))».quantity) == hs_chain(self.0.edges(), nodes_of(__v0@.take(__n0 as int))), «ty Option < NaiveDateTime >» == hs_oldest(self.0.edges(), nodes_of(__v0@.take(__n0 as int))), (__n0 > 1 ==> «ty Option < NaiveDateTime >» is Some)',
                   pre='proof { chain_base(self.0.edges(), __v0@.take(0)); chain_base(self.0.edges(), __v0@.take(1)); assert(nodes_of(__v0@)[0] == __v0@[0].i); }',
                   body='proof { assert(nodes_of(__v0@)[0] == __v0@[0].i); if __n0 > 0 { chain_step(self.0.edges(), __v0@, __n0 as int); walk_edge(self.0.edges(), $1.i as int, $3@.last().i as int, __v0@, self.0.nodes().len() as int, __n0 as int); } else { assert(__v0@[0] == $1); } }',
                   post='proof { assert(__v0@.take(__v0@.len() as int) =~= __v0@); }')}),
  F('history.rs', 'CommodityHistory::find_price', 'requires hist_wf(*self), in_hist(*self, $1), in_hist(*self, $2) ensures match r { None => forall|p: Seq<int>| !#[trigger] is_walk(self.0.edges(), node_of($1), node_of($2), p), Some(pp) => pp.price.commodity == $2 && exists|p: Seq<int>| #[trigger] is_shortest(self.0.edges(), node_of($1), node_of($2), p) && qv(pp.price.quantity) == hs_chain(self.0.edges(), p) && Some(pp.when) == hs_oldest(self.0.edges(), p) }',
    panics='$1 == $2', rules=HR, pre='proof { let e = self.0.edges(); assert forall|p: Seq<NodeIndex>| #![trigger nodes_of(p)] is_shortest(e, node_of($1), node_of($2), nodes_of(p)) && p.len() > 0 && $1 != $2 implies p[0].i == node_of($1) && p.last().i == node_of($2) && p.len() > 1 && (p.len() == 2 ==> hs_chain(e, nodes_of(p)) == qv(pmap(e, node_of($1), node_of($2))[latest(pmap(e, node_of($1), node_of($2)))]) && hs_oldest(e, nodes_of(p)) == Some(latest(pmap(e, node_of($1), node_of($2)))) && has_edge(e, node_of($1), node_of($2))) by { direct_rate(e, node_of($1), node_of($2), p, self.0.nodes().len() as int); } }'),
  F('commodity.rs', 'PricePoint::new', 'ensures r.when == $1, r.price == $2'),
  F('history.rs', 'Price::new', 'ensures r.commodity == $1, r.datetime == $2, r.price == $3'),
  F('history.rs', 'Price::get_commodity', 'requires self.commodity != nullp::<Commodity>() ensures *r == cderef(self.commodity)', rules=CREF),
  FROM_PTR,
]
HBC = 'broadcast use {ax_dec::dec_sign, ax_hist::ceq_fields, ax_hist::ceq_refl, ax_hist::at_addr, latest_is};\n'
A_GC2 = F('amount.rs', 'Amount::get_commodity', 'ensures r == self.s_get_commodity()', rules=CREF)
unit('history', HP, H_T, H + [A_GC2], assume=Q + A, pre=HBC)

# ------------------------------------------------------------------ commodity pool
P_T = H_T + [('pool.rs', 'struct CommodityPool'), ('pool.rs', 'struct CostBreakdown'), ('annotate.rs', 'struct Annotation')]
STR = [['to-string', '$e.to_owned()', 'v_to_string($e.v_s())'], ['to-string', '$e.to_string()', 'v_to_string($e.v_s())']]
PR = STR + [['box-new', 'Box::new($x)', 'v_box($x)'], ['map-insert', 'self.commodities.insert($k, $v)', 'self.commodities.v_insert($k, $v)'],
  ['pre:addr', '$e as *const Commodity', '$e.v_addr()'], ['pre:addr', '$e as *mut Commodity', '$e.v_addr()']]
POOL = [
  F('commodity.rs', 'Commodity::new', 'ensures r.symbol@ == $1@, r.graph_index is None, r.name is None, r.note is None, !r.annotated', rules=STR, opts=XID),
  F('pool.rs', 'CommodityPool::new', 'ensures pool_wf(r), r.commodities@ == Map::<Seq<char>, Commodity>::empty(), r.commodity_history.0.edges().len() == 0', pre='proof { reveal(edges_wf); }'),
  F('pool.rs', 'CommodityPool::create', 'requires pool_wf(*old(self)), !old(self).commodities@.contains_key($1@) ensures pool_wf(*final(self)), pool_with(*old(self), *final(self), $1@, $2), r == ptr_of(*final(self), $1@), r != nullp::<Commodity>()',
    rules=PR + [['pool-mut', '&mut *$p', 'v_pool_mut(&mut self.commodities, $p, Ghost(__sym))']], pre='let ghost __sym = $1@;',
    end='let h0 = old(self).commodity_history.0; let h1 = self.commodity_history.0; assert(hist_wf(self.commodity_history)) by { edges_more(h0.edges(), h0.nodes().len() as int, h1.nodes().len() as int); } assert forall|k: int| 0 <= k < h1.nodes().len() implies in_pool(*self, #[trigger] h1.nodes()[k]) by { if k < h0.nodes().len() { assert(in_pool(*old(self), h0.nodes()[k])); let t = choose|t: Seq<char>| #[trigger] old(self).commodities@.contains_key(t) && h0.nodes()[k] == caddr(old(self).commodities@[t]); assert(self.commodities@.contains_key(t)); } else { assert(self.commodities@.contains_key($1@)); } } assert forall|s: Seq<char>| #[trigger] self.commodities@.contains_key(s) implies pool_entry(*self, s) by { if s != $1@ { assert(old(self).commodities@.contains_key(s)); assert(pool_entry(*old(self), s)); } }'),
  F('pool.rs', 'CommodityPool::find', 'ensures r is Some <==> self.commodities@.contains_key($1@), r is Some ==> *r->0 == self.commodities@[$1@]', rules=[['box-ref', '$e.as_ref()', '$e']]),
  F('pool.rs', 'CommodityPool::find_or_create', 'requires pool_wf(*old(self)) ensures pool_wf(*final(self)), $1@.len() == 0 ==> r == nullp::<Commodity>() && *final(self) == *old(self), $1@.len() > 0 ==> pool_with(*old(self), *final(self), $1@, $2) && final(self).commodities@.contains_key($1@) && r == ptr_of(*final(self), $1@) && r != nullp::<Commodity>()',
    rules=PR + [['box-ref', '$e.as_ref()', '$e.v_addr()']]),
  F('pool.rs', 'CommodityPool::get_by_index', 'requires $1.i < self.commodity_history.0.nodes().len(), self.commodity_history.0.nodes()[$1.i as int] != nullp::<Commodity>() ensures *r == cderef(self.commodity_history.0.nodes()[$1.i as int])'),
  F('pool.rs', 'CommodityPool::len', 'ensures r == self.commodities@.dom().len()'),
  F('pool.rs', 'CommodityPool::add_price', 'requires pool_wf(*old(self)), in_pool(*old(self), $1), $3.commodity == nullp::<Commodity>() || in_pool(*old(self), $3.commodity) ensures pool_wf(*final(self)), same_but_prices(*old(self), *final(self)), price_added(old(self).commodity_history.0.edges(), final(self).commodity_history.0.edges(), node_of($1), node_of($3.commodity), $2, $3.quantity)',
    panics='$3.commodity == nullp::<Commodity>() || $1 == $3.commodity'),
  F('pool.rs', 'CommodityPool::add_price_struct', 'requires pool_wf(*old(self)), in_pool(*old(self), $1.commodity), $1.price.commodity == nullp::<Commodity>() || in_pool(*old(self), $1.price.commodity) ensures pool_wf(*final(self)), same_but_prices(*old(self), *final(self)), price_added(old(self).commodity_history.0.edges(), final(self).commodity_history.0.edges(), node_of($1.commodity), node_of($1.price.commodity), $1.datetime, $1.price.quantity)',
    panics='$1.price.commodity == nullp::<Commodity>() || $1.commodity == $1.price.commodity', rules=[['pre:addr', '$h.add_price($a.get_commodity(), $d, $p)', '$h.add_price($a.get_commodity().v_addr(), $d, $p)']]),
  F('pool.rs', 'CostBreakdown::new', '', rules=[['pre:into-amount', '0.into()', 'Amount::from(0)']]),
  F('pool.rs', 'CommodityPool::exchange', """requires pool_wf(*old(self)), $1.commodity == nullp::<Commodity>() || in_pool(*old(self), $1.commodity), $2.commodity == nullp::<Commodity>() || in_pool(*old(self), $2.commodity)
    ensures *final(self) == *old(self), av(r.0.amount) == av(*$1),
      av(r.0.final_cost) == (if $3 { (qv($2.quantity) * rabs(qv($1.quantity)), ccomb($2.commodity, $1.commodity)) } else { av(*$2) }),
      ({ let s = cderef($1.commodity).symbol@; let an = old(self).annotated_commodities@; av(r.0.basis_cost) == (if an.contains_key(s) && an[s].price is Some { (qv((an[s].price->0).quantity) * qv($1.quantity), ccomb((an[s].price->0).commodity, $1.commodity)) } else { av(r.0.final_cost) }) }),
      r.1 is Some <==> qv($2.quantity) != 0real && $1.commodity != $2.commodity,
      r.1 is Some ==> (r.1->0).commodity == $1.commodity && (r.1->0).datetime == $4 && (r.1->0).price.commodity == $2.commodity && cost_per_unit(qv((r.1->0).price.quantity), qv($1.quantity), qv($2.quantity), $3)""",
    panics='$1.commodity == nullp::<Commodity>()'),
]
H_PUB = [f for f in H if f.name not in ('calculate_rate', 'get_latest_price', 'from_ptr', 'get_direct_price')]
PBC = HBC
unit('pool', HP + ['s_pool.rs'], P_T, POOL, assume=Q + QS + A + [A_GC2] + H_PUB, pre=PBC)

def static_str(t, it): return t.replace(': &str', ": &'static str")
CONST_FMT = [('parser.rs', 'const ISO_DATE_FORMAT', static_str), ('parser.rs', 'const ISO_TIME_FORMAT', static_str)]
PD = F('pool.rs', 'CommodityPool::parse_price_directive', """requires pool_wf(*old(self)), $1@.len() > 0, clen($1@[0]) == 1
  ensures pool_wf(*final(self)), pool_ext(*old(self), *final(self)), ({ let t = s_price($1@); t.2.len() > 0 && final(self).commodities@.dom() =~= old(self).commodities@.dom().insert(t.2).insert(t.4)
    && price_recorded(old(self).commodity_history.0.edges(), final(self).commodity_history.0.edges(), node_of(ptr_of(*final(self), t.2)), node_of(ptr_of(*final(self), t.4)), price_line_when($1@), dec_val(t.3)) })""",
  panics='!price_line_ok($1@)', end='let t = s_price($1@); assert(self.commodities@.contains_key(t.2)); assert(self.commodities@.contains_key(t.4));', pre='let ghost __old = *self; proof { no_time_no_number($1@); reveal_strlit("%Y-%m-%d"); reveal_strlit("%H:%M:%S"); }')
unit('price_dir', HP + ['s_pool.rs', 's_scan.rs', 's_price.rs', 's_pline.rs'], P_T + SC_T + CONST_FMT, [PD], assume=Q + QS + A + [A_GC2] + H_PUB + POOL[:5] + SP[2:], pre=PBC)

# ------------------------------------------------------------------ completing a transaction
def drop_fields(*names):
    import re
    def go(t, it):
        for n in names: t = re.sub(r'pub %s:[^,}]*,?' % n, '', t)
        return t
    return go
def j_full(t, it): return t.replace('master: Account', 'master: VPtr<Account>')
T_POST2, T_XACT, J_FULL = ('post.rs', 'struct Post', with_id), ('xact.rs', 'struct Xact', with_id), ('journal.rs', 'struct Journal', j_full)
X_T = P_T + [T_POST2, T_XACT, J_FULL]
X_ACC = '#[verifier::external_body]\npub struct Account { x: u8 }\n'
FINR = [['pre:own-pointer', '&mut *($p.cast_mut())', '&mut *$p'], ['pre:elem-pointer', '$e as *mut Post', 'v_elem_addr(__n0 - 1, Ghost(__s.len() as int))'], ['pre:elem-deref', '&mut *null_post', 'v_elem_mut(&mut xact.posts, null_post)'],
  ['pre:own-pointer', '&balance as *const Balance', '&balance'], ['pre:own-pointer', '&*const_ptr', 'const_ptr'], ['pre:commodity-lifetime', '$e.get_commodity()', 'v_gc(&$e)']]
XP, BAL, NP = '«ty & mut Xact»', '«Balance :: new ()»', '«ty VPtr < Post >»'
SAME_X = f'{XP}.date == __x.date, {XP}.aux_date == __x.aux_date, {XP}.payee == __x.payee, {XP}.note == __x.note, {XP}.journal == __x.journal, {XP}.v_id == __x.v_id'
CTX = '__pc == (fin_open(__s) || fin_refused(__s, __x.date is Some)), pool_wf(__pool), posts_ok(__pool, __s), pool_inj(__pool)'
FIN = F('xact.rs', 'finalize', """requires pool_wf(old($2).commodity_pool), posts_ok(old($2).commodity_pool, old($1).posts@)
  ensures pool_wf(final($2).commodity_pool), same_but_prices(old($2).commodity_pool, final($2).commodity_pool), final($1).date == old($1).date, final($1).aux_date == old($1).aux_date, final($1).payee == old($1).payee, final($1).note == old($1).note, final($1).journal == old($1).journal, final($1).v_id == old($1).v_id, final($2).master == old($2).master, final($2).xacts == old($2).xacts, fin_same(old($1).posts@, final($1).posts@), posts_fine(final($2).commodity_pool, final($1).posts@),
    !fin_open(old($1).posts@) ==> !fin_refused(old($1).posts@, old($1).date is Some) && fin_done(old($1).posts@, final($1).posts@),
    fin_prices(old($2).commodity_pool.commodity_history.0.edges(), final($2).commodity_pool.commodity_history.0.edges(), final($1).posts@, dt_of(old($1).date->0, midnight()))""",
  panics='fin_open(old($1).posts@) || fin_refused(old($1).posts@, old($1).date is Some)', exact=False, opts={'ptr_params': {'1': '&mut Xact'}, 'isolate': True}, rules=FINR, hides=('fin_open', 'fin_refused', 'two_null', 'is_top'),
  pre="""let ghost __s = $1.posts@; let ghost __pool = $2.commodity_pool; let ghost __x = *$1; let ghost __t = dt_of($1.date->0, midnight()); let ghost __e = $2.commodity_pool.commodity_history.0.edges();
    let ghost mut __m = __s; let ghost mut __b1 = Seq::<Amount>::empty(); let ghost mut __two = false; let ghost mut __c = nullp::<Commodity>(); let ghost mut __o = nullp::<Commodity>(); let ghost mut __q = 0real; let ghost mut __f = __s; let ghost mut __np1 = nullp::<Post>();
    proof { bal_to_0(__s); pool_is_inj(__pool); refused_how(__s, __x.date is Some); }""",
  end=f"""if __np1 != nullp::<Post>() {{ let k = eidx(__np1); assert({XP}.posts@ =~= __f.update(k, {XP}.posts@[k])); fin_prices_frame(__e, $2.commodity_pool.commodity_history.0.edges(), __f, {XP}.posts@, k, __t); fin_ok1(__pool, $2.commodity_pool, __f, {XP}.posts@, k, __b1[0].commodity); }}
    fin_end(__s, __m, {XP}.posts@, __x.date is Some, __two, __c, __o, __q);""",
  loops={
    0: dict(inv=f'{CTX}, {SAME_X}, {XP}.posts@ == __s, bal_to({BAL}.amounts@, __s, __n0 as int), {NP} != nullp::<Post>() ==> null_at(__s, eidx({NP})) && eidx({NP}) < __n0 && elen({NP}) == __s.len(), forall|i: int| 0 <= i < __n0 && pval(#[trigger] __s[i]) is None ==> {NP} != nullp::<Post>() && i == eidx({NP})',
            body=f'let ghost __b = {BAL}.amounts@; let ghost __k = __n0 as int; proof {{ assert(__s[__k] == {XP}.posts@[__k]); if pval(__s[__k]) is None && {NP} != nullp::<Post>() {{ two_nulls(__s, eidx({NP}), __k, __x.date is Some); }} }}',
            end=f'proof {{ assert({XP}.posts@ =~= __s); bal_to_step(__b, {BAL}.amounts@, __s, __k); }}',
            post=f'proof {{ bal_to_all({BAL}.amounts@, __s); one_null(__s, eidx({NP})); bal_of_len({BAL}.amounts@, vals(__s)); if no_null(__s) {{ vals_all(__s); }} bal_ok(__pool, __s, {BAL}.amounts@); __b1 = {BAL}.amounts@; __np1 = {NP}; }}'),
    1: dict(inv=f"""{XP}.posts@ == __s, «ty Option < & Post >» is None ==> forall|i: int| 0 <= i < __n1 ==> (#[trigger] __s[i]).amount is None,
                «ty Option < & Post >» is Some ==> is_top(__s, *(«ty Option < & Post >»->0), __s.len() as int)""", brk='«ty Option < & Post >» is None', ensures='«ty Option < & Post >» is None ==> __n1 == __s.len()', body='proof { top_step(__s, __n1 as int); assert(__s[__n1 as int] == %s.posts@[__n1 as int]); }' % XP, post='proof { top_some(__s); }'),
    2: dict(pre="""proof { __c = x.commodity; __o = y.commodity; __q = qv(per_unit_cost.quantity); __two = true; if no_cost(__s) { top_in(__s, __b1, *(top_post->0)); } two_costs(__s, __b1, *(top_post->0), *x, *y); no_amount_bad(__s, __x.date is Some); }""",
            inv=f'{CTX}, {SAME_X}, {XP}.posts@.len() == __s.len(), __q == qv(per_unit_cost.quantity), per_unit_cost.commodity == ccomb(__o, __c), comm == copt(__c), okc(__pool, __c), forall|i: int| 0 <= i < __s.len() && (#[trigger] __s[i]).amount is None ==> __pc, forall|i: int| 0 <= i < __n2 ==> costed(__s[i], #[trigger] {XP}.posts@[i], __c, __q, ccomb(ccomb(__o, __c), __c)), forall|i: int| __n2 <= i < __s.len() ==> #[trigger] {XP}.posts@[i] == __s[i]',
            body='let ghost __k = __n2 as int; proof { assert(%s.posts@[__k] == __s[__k]); assert(post_ok(__pool, __s[__k])); if __s[__k].amount is Some { copt_same(__pool, (__s[__k].amount->0).commodity, __c); } }' % XP),
    3: dict(pre=f'proof {{ __m = {XP}.posts@; if !__two {{ no_implied(__s, __b1); }} mid_bad(__s, __m, __x.date is Some, __two, __c, __o, __q); prices_to_0(__e, __m, __t); }}',
            inv=f"""{CTX}, {SAME_X}, {XP}.posts@.len() == __m.len(), posts_ok(__pool, __m), __t == dt_of(__x.date->0, midnight()),
                pool_wf($2.commodity_pool), same_but_prices(__pool, $2.commodity_pool),
                forall|i: int| 0 <= i < __m.len() && bad_cost(#[trigger] __m[i], __x.date is Some) ==> __pc,
                forall|i: int| 0 <= i < __m.len() ==> same_post(__m[i], #[trigger] {XP}.posts@[i]) && {XP}.posts@[i].cost == __m[i].cost && oav({XP}.posts@[i].amount) == oav(__m[i].amount),
                forall|i: int| __n3 <= i < __m.len() ==> #[trigger] {XP}.posts@[i] == __m[i],
                forall|i: int| 0 <= i < __n3 ==> !bad_cost(#[trigger] __m[i], __x.date is Some),
                prices_to(__e, $2.commodity_pool.commodity_history.0.edges(), {XP}.posts@, __n3 as int, __t)""",
            body=f"""let ghost __k = __n3 as int; let ghost __p0 = {XP}.posts@; let ghost __e0 = $2.commodity_pool.commodity_history.0.edges(); proof {{ assert({XP}.posts@[__k] == __m[__k]); assert(post_ok(__pool, __m[__k])); okc_same(__pool, $2.commodity_pool); if __m[__k].cost is None {{ prices_to_step(__e, __e0, __e0, __p0, __p0, __k, __t); }} else if __m[__k].amount is Some {{ copt_same(__pool, (__m[__k].amount->0).commodity, (__m[__k].cost->0).commodity); }} }}""",
            end=f"""proof {{ assert({XP}.posts@ =~= __p0.update(__k, {XP}.posts@[__k])); prices_to_step(__e, __e0, $2.commodity_pool.commodity_history.0.edges(), __p0, {XP}.posts@, __k, __t); }}""",
            cont=f'proof {{ assert({XP}.posts@ =~= __p0); }}',
            post=f'proof {{ prices_to_all(__e, $2.commodity_pool.commodity_history.0.edges(), {XP}.posts@, __t); __f = {XP}.posts@; fin_ok(__pool, $2.commodity_pool, __m, __f); }}'),
  })
unit('finalize', HP + ['s_pool.rs', 's_balance.rs', 's_fin.rs'], X_T + [('balance.rs', 'struct Balance')], [FIN], assume=Q + QS + A + B + H_PUB + POOL, pre=PBC, rlimit=40, extra=X_ACC)

# ------------------------------------------------------------------ amounts, lots and costs as written
PART_OK = 'has_sym(final($3).commodity_pool, $2@)'
DATE_LIT = 'proof { reveal_strlit("%Y-%m-%d"); }'
ADDR = [['pre:addr', '$e as *const %s' % t, '$e.v_addr()'] for t in ('Commodity', '_')]
PARTS = [
  F('parser.rs', 'parse_amount_parts', """requires pool_wf(old($3).commodity_pool) ensures final($3).master == old($3).master, final($3).xacts == old($3).xacts, pool_sym(old($3).commodity_pool, final($3).commodity_pool, $2@), r is Some <==> $1@.len() > 0, r is Some ==> has_sym(final($3).commodity_pool, $2@) && av(r->0) == (dec_val($1@), sym_ptr(final($3).commodity_pool, $2@))""",
    panics='$1@.len() > 0 && !dec_ok($1@)'),
  F('parser.rs', 'parse_amount', """requires pool_wf(old($2).commodity_pool) ensures final($2).master == old($2).master, final($2).xacts == old($2).xacts, ({ let t = s_amount($1@); pool_sym(old($2).commodity_pool, final($2).commodity_pool, t.1) && (r is Some <==> t.0.len() > 0) && (r is Some ==> has_sym(final($2).commodity_pool, t.1) && av(r->0) == (dec_val(t.0), sym_ptr(final($2).commodity_pool, t.1))) })""",
    panics='tstart($1@).len() == 0 || (s_amount($1@).0.len() > 0 && !dec_ok(s_amount($1@).0))'),
  F('parser.rs', 'parse_cost', """requires pool_wf(old($3).commodity_pool) ensures final($3).master == old($3).master, final($3).xacts == old($3).xacts, pool_sym(old($3).commodity_pool, final($3).commodity_pool, $1.cost_symbol@), r is Some <==> $1.cost_quantity@.len() > 0 && $2 is Some,
      r is Some ==> has_sym(final($3).commodity_pool, $1.cost_symbol@) && ({ let c = sym_ptr(final($3).commodity_pool, $1.cost_symbol@); av(r->0) == (if $1.is_per_unit { (dec_val($1.cost_quantity@) * qv(($2->0).quantity), ccomb(c, ($2->0).commodity)) } else { (dec_val($1.cost_quantity@), c) }) })""",
    panics='$1.cost_quantity@.len() > 0 && $2 is Some && !dec_ok($1.cost_quantity@)'),
  F('annotate.rs', 'Annotation::new', 'ensures r.price == $1, r.date == $2'),
  F('annotate.rs', 'Annotation::parse', """requires pool_wf(old($4).commodity_pool) ensures final($4).master == old($4).master, final($4).xacts == old($4).xacts, pool_sym(old($4).commodity_pool, final($4).commodity_pool, $3@), r is Ok, lot_of(final($4).commodity_pool, $1@, $2@, $3@, r->Ok_0)""", panics='lot_bad($1@, $2@)', pre=DATE_LIT),
  F('parser.rs', 'parse_date', 'ensures r == date_val($1@, "%Y-%m-%d"@)', panics='!date_ok($1@, "%Y-%m-%d"@)', pre=DATE_LIT),
]
for f in PARTS: f.rules = list(f.rules or []) + ADDR
unit('parts', HP + ['s_pool.rs', 's_scan.rs', 's_parts.rs'], X_T + SC_T + CONST_FMT, PARTS, assume=Q + QS + A + H_PUB + POOL[:5] + [POOL[6]] + [f for f in SC if f.name == 'scan_amount'], pre=PBC, extra=X_ACC)

# ------------------------------------------------------------------ accounts
def ptr_kids(t, it): return t.replace('pub struct Account', 'pub struct AccountD').replace('HashMap<String, Account>', 'HashMap<String, VPtr<Account>>')
T_ACCT = ('account.rs', 'struct Account', ptr_kids)
CALL_H = {'.find_or_create': ['__h'], '.create_account': ['__h'], '.find_account': ['__h'], '.fullname': ['__h'], '.total': ['__h', '__ph'], '.amount': ['__h', '__ph'], '.flatten': ['__h'], '.flatten_account_tree': ['__h'], 'get_children_lines': ['__h', '__ph']}
HO = {'objects': ['Account'], 'call_args': CALL_H}
HA = dict(HO, recv='self', impl_for='impl VPtr<Account>', params=['__h: &mut AHeap'])
AR = STR + [['pre:object', '&mut *$p', '$p'], ['pre:object', '&*$p', '$p'], ['pre:heap-get', '$s.accounts.get($k)', '__h.at($s).accounts.v_get($k)'], ['pre:heap-insert', '$s.accounts.insert($k, Box::new($v))', '{ let __b = __h.alloc($v); __h.at_mut($s).accounts.insert($k, __b) }'],
  ['pre:object', '$s.get_account_mut($p)', '$p'], ['pre:object', '$e as *const Account', '$e'], ['pre:object', '$e as *mut Account', '$e'], ['object', '$e.as_ref()', '$e'], ['to-string', '$e.into()', 'v_to_string($e.v_s())'],
  ['data', 'Account::new($n)', 'AccountD::new($n)']]
DA = {'impl_for': 'impl AccountD'}
ACCT = [
  F('account.rs', 'Account::new', 'ensures r.parent == nullp::<Account>(), r.name@ == $1@, r.accounts@ == Map::<Seq<char>, VPtr<Account>>::empty(), r.posts@.len() == 0, r.fullname@ is None', rules=STR, opts=DA),
  F('account.rs', 'Account::set_parent', 'ensures final(self).parent == $1, final(self).name == old(self).name, final(self).accounts == old(self).accounts, final(self).posts == old(self).posts, final(self).fullname == old(self).fullname', opts=dict(DA, objects=['Account'])),
  F('account.rs', 'Account::create_account', 'requires old(__h)@.contains_key(self), heap_ok(old(__h)@), !kids(old(__h)@, self).contains_key($1@), !$1@.contains(\':\') ensures acct_new(old(__h)@, final(__h)@, self, $1@, r), heap_ok(final(__h)@)',
    opts=HA, rules=AR, end='acct_new_ok(old(__h)@, __h@, self, $1@, __r);'),
  F('account.rs', 'Account::find_or_create', 'requires old(__h)@.contains_key(self), heap_ok(old(__h)@) ensures heap_ok(final(__h)@), !$2 ==> final(__h)@ == old(__h)@ && r == a_find(old(__h)@, self, $1@), $2 ==> r is Some && a_reg(old(__h)@, final(__h)@, self, $1@, r->0)',
    opts=HA, rules=AR, pre='proof { rest_shorter($1@); nm_whole($1@); reveal_strlit(""); if kids(__h@, self).contains_key($1@) { assert(node_ok(__h@, self)); assert(kid_ok(__h@, self, $1@)); } if kids(__h@, self).contains_key(nm_first($1@)) { assert(node_ok(__h@, self)); assert(kid_ok(__h@, self, nm_first($1@))); } }'),
]
T_POST = ('post.rs', 'struct Post')
AC_P = AMT_P + ['s_balance.rs', 'p_col.rs', 's_acct.rs', 'l_acct.rs', 's_tree.rs', 's_report.rs']
def j_master(t, it): return drop_fields('xacts', 'commodity_pool')(t, it).replace('master: Account', 'master: VPtr<Account>')
AC_T = [T_QTY, T_AMT, T_CDTY, ('balance.rs', 'struct Balance'), T_ACCT, T_POST, ('journal.rs', 'struct Journal', j_master)]
AC_X = 'pub type CommodityIndex = usize;\n#[verifier::external_body] pub struct Xact { x: u8 }\n'
AH = ['__h: &AHeap']; APH = ['__h: &AHeap', '__ph: &PHeap']
FLD = [['pre:heap-field', '$s.' + f, '__h.at($s).' + f] for f in ('parent', 'name', 'posts', 'accounts')]
SORTK = [['pre:map-index', '&$e.accounts[$k]', '$e.accounts.get($k).unwrap()'], ['pre:map-index', '$e.accounts[$k]', '$e.accounts.get($k).unwrap()'], ['pre:keys', '$m.keys().collect()', '$m.v_keys()'], ['pre:keys', '$m.keys().collect::<Vec<_>>()', '$m.v_keys()'], ['sort', '$v.sort()', 'v_sort(&mut $v)'], ['sort', '$v.sort_unstable()', 'v_sort(&mut $v)']]
OBJ = [['pre:object', '&mut *$p', '$p'], ['pre:object', '&*$p', '$p'], ['pre:object', '$e as *const Account', '$e'], ['pre:object', '$e as *mut Account', '$e'], ['object', '$e.as_ref()', '$e']]
VAL = [['pre:values', '$s.accounts.values().map(|$a| $a.as_ref()).collect()', '$s.accounts.v_values()'], ['pre:values', '$s.accounts.values().map(|$a| &**$a).collect()', '$s.accounts.v_values()']]
VAL = VAL + [['pre:sort-names', '$v.%s(|$a| &$a.name)' % n, '__h.v_sort_by_name(&mut $v)'] for n in ('sort_unstable_by_key', 'sort_by_key')] + [['pre:sort-names', '$v.%s(|$a, $b| $a.name.cmp(&$b.name))' % n, '__h.v_sort_by_name(&mut $v)'] for n in ('sort_unstable_by', 'sort_by')]
HGET = [['pre:heap-get', '$s.accounts.get($k)', '$s.accounts.v_get($k)']]
HREQ = 'requires __h@.contains_key(self), heap_ok(__h@)'
ACCT += [
  F('account.rs', 'Account::find_account', 'requires old(__h)@.contains_key(self), heap_ok(old(__h)@) ensures final(__h)@ == old(__h)@, r == a_find(old(__h)@, self, $1@)', opts=HA, rules=AR),
  F('account.rs', 'Account::fullname', 'requires old(__h)@.contains_key(self), heap_ok(old(__h)@), names_ok(old(__h)@) ensures r@ == full(old(__h)@, self), same_tree(old(__h)@, final(__h)@), heap_ok(final(__h)@), names_ok(final(__h)@)',
    opts=dict(HA, ret='String'), rules=[['pre:text', 'return ""', 'return v_empty_string()'], ['pre:heap-cell', '$s.fullname.get()', '__h.at($s).fullname.v_get()'], ['pre:heap-cell', '$s.fullname.get_or_init(|| $v)', '__h.at_mut($s).fullname.v_get_or_init($v)']] + FLD + OBJ + STR,
    loops={0: dict(inv='*__h == *old(__h), heap_ok(__h@), __h@.contains_key(self), __h@.contains_key(«self»), above(__h@, «self», «v_to_string (__h . at (self) . name . v_s ())»@) == above(__h@, self, __h@[self].name@)', dec='ord(«self»)',
                   body='proof { let q = __h@[«self»].parent; assert(node_ok(__h@, «self»)); kid_at(__h@, q, __h@[«self»].name@); reveal_strlit(":"); assert(":"@ =~= colon()); assert forall|a: Seq<char>, b: Seq<char>| #![trigger a + b] Seq::<char>::empty() + a + ":"@ + b == a + colon() + b by { assert(Seq::<char>::empty() + a =~= a); } assert forall|a: Seq<char>, b: Seq<char>| #![trigger a.push(\':\') + b] a.push(\':\') + b == a + colon() + b by { assert(a.push(\':\') =~= a + colon()); } }')},
    end='same_names(old(__h)@, __h@, self);'),
  F('account.rs', 'Account::amount', 'requires __h@.contains_key(self), posts_at(__h@, __ph@) ensures bal_wf(r.amounts@), forall|c: VPtr<Commodity>| #[trigger] bal_sum(r.amounts@, c) == own(__h@, __ph@, self, c)',
    opts=dict(HA, params=APH), rules=[['pre:post', '&**$p', '__ph.at(*$p)'], ['pre:post', '&*$p', '__ph.at($p)']] + FLD,
    loops={0: dict(inv='posts_at(__h@, __ph@), __h@.contains_key(self), bal_wf(«Balance :: new ()».amounts@), forall|c: VPtr<Commodity>| #[trigger] bal_sum(«Balance :: new ()».amounts@, c) == psum(__ph@, __h@[self].posts@.take(__n0 as int), c)',
                   pre='proof { assert(__h@[self].posts@.take(0) =~= Seq::<VPtr<Post>>::empty()); }',
                   body='let ghost __b = «Balance :: new ()».amounts@; let ghost __k = __n0 as int; proof { assert(__ph@.contains_key(__h@[self].posts@[__k])); assert(__h@[self].posts@.take(__k + 1).drop_last() =~= __h@[self].posts@.take(__k)); }',
                   end='proof { if __ph@[__h@[self].posts@[__k]].amount is Some { let a = __ph@[__h@[self].posts@[__k]].amount->0; bal_step_sum(__b, «Balance :: new ()».amounts@, a.commodity, qv(a.quantity)); } }',
                   post='proof { assert(__h@[self].posts@.take(__h@[self].posts@.len() as int) =~= __h@[self].posts@); }')}),
  F('account.rs', 'Account::total', 'requires __h@.contains_key(self), heap_ok(__h@), posts_at(__h@, __ph@) ensures bal_is(__h@, __ph@, self, r.amounts@) decreases later(__h@, self)',
    opts=dict(HA, params=APH), rules=HGET + SORTK + FLD + OBJ,
    loops={0: dict(inv='heap_ok(__h@), __h@.contains_key(self), posts_at(__h@, __ph@), texts(__v0@) == names(kids(__h@, self)), bal_wf(«Balance :: new ()».amounts@), forall|c: VPtr<Commodity>| #[trigger] bal_sum(«Balance :: new ()».amounts@, c) + own(__h@, __ph@, self, c) == tot_to(__h@, __ph@, self, c, __n0 as int)',
                   pre='proof { names_are(kids(__h@, self), texts(__v0@)); }',
                   body='proof { kidseq_props(__h@, self); assert(texts(__v0@)[__n0 as int] == __v0@[__n0 as int]@); let c = kidseq(__h@, self)[__n0 as int]; assert(c == kids(__h@, self)[__v0@[__n0 as int]@]); later_less(__h@, self, c); }')}),
  F('account.rs', 'Account::flatten', 'requires __h@.contains_key(self), heap_ok(__h@) ensures final($1)@ == old($1)@ + fl(__h@, self) decreases later(__h@, self)',
    opts=dict(HA, params=AH), rules=VAL + FLD + OBJ,
    pre='let ghost __l = $1@; proof { assert forall|r: Seq<VPtr<Account>>| #[trigger] r.to_multiset() == kidseq(__h@, self).to_multiset() implies forall|i: int| 0 <= i < r.len() ==> __h@.contains_key(#[trigger] r[i]) by { kids_in(__h@, self, r); } }',
    loops={0: dict(inv='heap_ok(__h@), __h@.contains_key(self), __v0@ == kidseq(__h@, self), $1@ == __l + fl_to(__h@, self, __n0 as int)',
                   pre='proof { sorted_kids(__h@, self, __v0@); assert($1@ =~= __l + fl_to(__h@, self, 0)); }',
                   body='proof { kidseq_props(__h@, self); let c = kidseq(__h@, self)[__n0 as int]; later_less(__h@, self, c); assert((__l + fl_to(__h@, self, __n0 as int)) + fl(__h@, c) =~= __l + fl_to(__h@, self, __n0 + 1)); }')}),
  F('account.rs', 'Account::flatten_account_tree', 'requires __h@.contains_key(self), heap_ok(__h@) ensures r@ == fl(__h@, self)', opts=dict(HA, params=AH), end='assert(__r@ =~= fl(__h@, self));'),
]
JM = [['pre:master', '&mut $j.master', '$j.master'], ['pre:master', '&$j.master', '$j.master']]
FLD2 = [['pre:heap-field', '$s.name', '__h.at(*$s).name']]
REPR = [['pre:text', '$a.quantity.to_string()', 'v_qtext(&$a.quantity)'], ['pre:append', '$a += $e.as_str()', 'v_append(&mut $a, $e.v_s())'], ['pre:append', '$a += " "', 'v_append(&mut $a, " ")'], ['pre:append', '$a.push_str($e)', 'v_append(&mut $a, $e.v_s())'], ['pre:extend', '$a.extend($e)', 'v_extend(&mut $a, $e)']]
LN = '«Vec :: new ()»'
REP = [
  F('report.rs', 'get_children_lines', 'requires old(__h)@.contains_key($1), heap_ok(old(__h)@), names_ok(old(__h)@), posts_at(old(__h)@, __ph@) ensures same_tree(old(__h)@, final(__h)@), heap_ok(final(__h)@), names_ok(final(__h)@), lines_ok(old(__h)@, __ph@, fl(old(__h)@, $1), r@) decreases later(old(__h)@, $1)',
    opts=dict(HO, params=['__h: &mut AHeap', '__ph: &PHeap']), rules=REPR + HGET + SORTK + FLD + OBJ,
    pre='let ghost __g = __h@; let ghost mut __b = Seq::<Amount>::empty(); proof { reveal_strlit("Account "); reveal_strlit(" has balance "); reveal_strlit(" "); assert(" "@ =~= seq![\' \']); assert(Seq::<char>::empty() + "Account "@ =~= "Account "@); }',
    loops={0: dict(inv='*__h == *old(__h), __g == __h@, __b == __v0@, «String :: new ()»@ == btext(__v0@.take(__n0 as int))', pre='proof { __b = __v0@; assert(__b.take(0) =~= Seq::<Amount>::empty()); }',
                   body='let ghost __k = __n0 as int; let ghost __t = «String :: new ()»@; proof { assert(__b.take(__k + 1).drop_last() =~= __b.take(__k)); }',
                   end='proof { assert(«String :: new ()»@ =~= __t + atext(__b[__k])); }', post='proof { assert(__b.take(__b.len() as int) =~= __b); }'),
      1: dict(inv='heap_ok(__g), __g.contains_key($1), posts_at(__g, __ph@), same_tree(__g, __h@), heap_ok(__h@), names_ok(__h@), texts(__v1@) == names(kids(__g, $1)), lines_ok(__g, __ph@, fl_to(__g, $1, __n1 as int), %s@)' % LN,
              pre='proof { assert(kids(__h@, $1) == kids(__g, $1)); names_are(kids(__g, $1), texts(__v1@)); assert(bal_is(__g, __ph@, $1, __b)); assert(%s@.len() == 1); assert(line_ok(__g, __ph@, $1, %s@[0]@)); }' % (LN, LN),
              body="""let ghost __k = __n1 as int; let ghost __l = %s@; let ghost __h1 = __h@; let ghost __c = kidseq(__g, $1)[__k];
                proof { kidseq_props(__g, $1); assert(texts(__v1@)[__k] == __v1@[__k]@); assert(__c == kids(__g, $1)[__v1@[__k]@]); later_less(__g, $1, __c); assert(kids(__h1, $1) == kids(__g, $1)); same_fl(__g, __h1, __c, kidseq(__g, __c).len() as int); posts_same(__g, __h1, __ph@); }""" % LN,
              end="""proof { same_ok(__g, __h1); fl_in(__h1, __c, kidseq(__h1, __c).len() as int); let add = %s@.skip(__l.len() as int); assert(%s@ =~= __l + add); same_lines(__h1, __g, __ph@, fl(__h1, __c), add); lines_cat(__g, __ph@, fl_to(__g, $1, __k), __l, fl(__g, __c), add); }""" % (LN, LN))}),

  F('report.rs', 'balance_report', 'requires one_root(old(__h)@, $1.master), names_ok(old(__h)@), posts_at(old(__h)@, __ph@) ensures same_tree(old(__h)@, final(__h)@), heap_ok(final(__h)@), names_ok(final(__h)@), lines_ok(old(__h)@, __ph@, fl(old(__h)@, $1.master), r@)',
    opts=dict(HO, params=['__h: &mut AHeap', '__ph: &PHeap']), rules=JM),
  F('report.rs', 'report_accounts', 'requires one_root(__h@, $1.master) ensures r@.len() == fl(__h@, $1.master).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == nm(__h@, fl(__h@, $1.master)[i])',
    opts=dict(HO, params=['__h: &AHeap']), rules=JM + FLD2 + STR, pre='proof { fl_in(__h@, $1.master, kidseq(__h@, $1.master).len() as int); }',
    loops={0: dict(inv='«$1 . master . flatten_account_tree (__h)»@ == fl(__h@, $1.master), texts(__o0@).len() == __n0, forall|i: int| 0 <= i < __n0 ==> (#[trigger] texts(__o0@)[i]) == nm(__h@, fl(__h@, $1.master)[i])', body='let ghost __l = __o0@; ', end='proof { assert(__o0@.drop_last() =~= __l); assert(texts(__o0@) =~= texts(__l).push(__o0@.last()@)); }', post='proof { assert forall|i: int| 0 <= i < __o0@.len() implies (#[trigger] __o0@[i])@ == nm(__h@, fl(__h@, $1.master)[i]) by { assert(texts(__o0@)[i] == __o0@[i]@); } }')}),
]
JRN = [
  F('journal.rs', 'Journal::new', 'requires old(__h)@ == Map::<VPtr<Account>, AccountD>::empty() ensures one_root(final(__h)@, r.master), names_ok(final(__h)@), kids(final(__h)@, r.master) == Map::<Seq<char>, VPtr<Account>>::empty(), forall|q: VPtr<Account>| #[trigger] final(__h)@.contains_key(q) ==> q == r.master',
    opts={'params': ['__h: &mut AHeap'], 'drop_fields': {'Journal': ['commodity_pool', 'xacts']}}, rules=[['pre:alloc', 'Box::new($v)', '__h.alloc($v)'], ['data', 'Account::new($n)', 'AccountD::new($n)']], pre='proof { reveal_strlit(""); }'),
  F('journal.rs', 'Journal::register_account', """requires one_root(old(__h)@, old(self).master), names_ok(old(__h)@)
     ensures final(self).master == old(self).master, one_root(final(__h)@, old(self).master), names_ok(final(__h)@), r is Some, a_reg(old(__h)@, final(__h)@, old(self).master, $1@, r->0)""",
    panics='$1@.len() == 0', opts=dict(HO, params=['__h: &mut AHeap']), rules=JM + OBJ, end='root_kept(old(__h)@, __h@, old(self).master, $1@, __r->0); registered(old(__h)@, __h@, old(self).master, $1@, __r->0); names_kept(old(__h)@, __h@);'),
  F('journal.rs', 'Journal::find_account', 'requires one_root(old(__h)@, self.master) ensures final(__h)@ == old(__h)@, r == a_find(old(__h)@, self.master, $1@)', opts=dict(HO, params=['__h: &mut AHeap']), rules=JM + OBJ),
]
unit('account', AC_P, AC_T, ACCT, assume=Q + A + [A_GC] + B, pre=BC, extra=AC_X)
unit('report', AC_P, AC_T, REP + JRN, assume=Q + A + [A_GC] + B + ACCT, pre=BC, extra=AC_X)

# ------------------------------------------------------------------ the journal: transactions, postings, links
JR_P = HP + ['s_pool.rs', 's_balance.rs', 's_fin.rs', 's_scan.rs', 's_parts.rs', 's_acct.rs', 'l_acct.rs', 's_tree.rs', 'p_vec.rs', 's_jrn.rs']
T_ACCT2 = ('account.rs', 'struct Account', ptr_kids)
JR_T = X_T + [('balance.rs', 'struct Balance'), T_ACCT2] + SC_T + CONST_FMT
XD = {'struct_extra': {'Xact': 'v_id: Ghost(arbitrary())', 'Post': 'v_id: Ghost(arbitrary())'}}
SELFP = [['pre:own-address', 'self as *const Xact', 'self.v_addr()'], ['pre:own-address', 'self as *mut Xact', 'self.v_addr()'], ['pre:last', '$v.last()', 'v_last(&$v)'], ['pre:last', '$v.last_mut()', 'v_last_mut(&mut $v)']]
INTO = [['to-string', '$e.into()', 'v_to_string($e.v_s())']]
SAME_J = 'final($%d).master == old($%d).master, final($%d).commodity_pool == old($%d).commodity_pool'
SAME_SELF = 'final(self).master == old(self).master, final(self).commodity_pool == old(self).commodity_pool'
XHEAD = 'final(self).date == old(self).date, final(self).aux_date == old(self).aux_date, final(self).payee == old(self).payee, final(self).journal == old(self).journal, final(self).v_id == old(self).v_id'
XF = [
  F('post.rs', 'Post::new', 'ensures r.account == $1, r.xact_ptr == $2, r.amount == $3, r.cost == $4, otext(r.note) == (match $5 { Some(s) => Some(s@), None => None })', rules=STR, opts=XD),
  F('post.rs', 'Post::add_note', 'ensures otext(final(self).note) == Some($1@), final(self).account == old(self).account, final(self).xact_ptr == old(self).xact_ptr, final(self).amount == old(self).amount, final(self).cost == old(self).cost, final(self).v_id == old(self).v_id', rules=STR + INTO),
  F('xact.rs', 'Xact::new', 'ensures r.date == $1, r.aux_date is None, r.payee@ == $2@, r.note == $3, r.posts@.len() == 0', rules=STR, opts=XD),
  F('xact.rs', 'Xact::create', 'ensures head_is(r, $1@, $2@, $3@), otext(r.note) == (if $4@.len() == 0 { None } else { Some($4@) }), r.posts@.len() == 0', panics='!odate_ok($1@) || !odate_ok($2@)', rules=STR, opts=XD),
  F('xact.rs', 'Xact::add_note', 'ensures otext(final(self).note) == Some($1@), final(self).posts == old(self).posts, ' + XHEAD, rules=STR + INTO),
  F('xact.rs', 'Xact::add_post', """ensures final(self).note == old(self).note, %s, final(self).posts@.len() == old(self).posts@.len() + 1,
      forall|k: int| 0 <= k < old(self).posts@.len() ==> #[trigger] final(self).posts@[k] == old(self).posts@[k] || Post::moved(old(self).posts@[k], final(self).posts@[k]),
      ({ let p = final(self).posts@.last(); p.xact_ptr == xaddr(*final(self)) && p.account == $1.account && p.amount == $1.amount && p.cost == $1.cost && p.note == $1.note }), *r == final(self).posts@.last()""" % XHEAD, rules=SELFP + [['pre:push', '$v.push($p)', 'v_push_obj(&mut $v, $p)']]),
  F('xact.rs', 'Xact::relink_posts', 'ensures xkept(*old(self), *final(self)), final(self).v_id == old(self).v_id, all_to(final(self).posts@, xaddr(*final(self)))', rules=SELFP,
    loops={0: dict(inv='self.date == old(self).date, self.aux_date == old(self).aux_date, self.payee == old(self).payee, self.note == old(self).note, self.journal == old(self).journal, self.v_id == old(self).v_id, self.posts@.len() == old(self).posts@.len(), forall|k: int| 0 <= k < self.posts@.len() ==> pkept(old(self).posts@[k], #[trigger] self.posts@[k]), forall|k: int| 0 <= k < __n0 ==> (#[trigger] self.posts@[k]).xact_ptr == xaddr(*old(self))')}),
  F('journal.rs', 'Journal::add_xact', """requires distinct(old(self).xacts@), linked(old(self).xacts@)
      ensures %s, distinct(final(self).xacts@), linked(final(self).xacts@), final(self).xacts@.len() == old(self).xacts@.len() + 1, xskept(old(self).xacts@, final(self).xacts@), xkept($1, final(self).xacts@.last()), *r == final(self).xacts@.last()""" % SAME_SELF,
    rules=SELFP + [['pre:push', '$v.push($p)', 'v_push_obj(&mut $v, $p)'], ['pre:capacity', '$v.capacity()', 'v_capacity(&$v)']], pre='let ghost mut __x = self.xacts@; let ghost mut __f: int = 0;',
    loops={0: dict(pre='proof { __x = self.xacts@; __f = __n0 as int; }', inv="""%s, __f <= __n0, self.xacts@.len() == __x.len(), __x.len() == old(self).xacts@.len() + 1, distinct(self.xacts@),
                forall|i: int| 0 <= i < __x.len() ==> #[trigger] self.xacts@[i].v_id == __x[i].v_id && xkept(__x[i], self.xacts@[i]),
                forall|i: int| 0 <= i < __f ==> #[trigger] self.xacts@[i] == old(self).xacts@[i], forall|i: int| __f <= i < __n0 ==> all_to((#[trigger] self.xacts@[i]).posts@, xaddr(self.xacts@[i]))""" % SAME_SELF.replace('final(self)', 'self'))}),
]
unit('journal', JR_P, JR_T, XF, assume=Q + QS + A + B + [f for f in PARTS if f.name == 'parse_date'], pre=HBC)

REGA = F('journal.rs', 'Journal::register_account', """requires one_root(old(__h)@, old(self).master), names_ok(old(__h)@)
     ensures final(self).master == old(self).master, final(self).commodity_pool == old(self).commodity_pool, final(self).xacts == old(self).xacts, one_root(final(__h)@, old(self).master), names_ok(final(__h)@), r is Some, a_reg(old(__h)@, final(__h)@, old(self).master, $1@, r->0), a_find(final(__h)@, old(self).master, $1@) == r, kept(old(__h)@, final(__h)@), only_path(old(__h)@, final(__h)@, old(self).master, $1@), final(__h)@.contains_key(r->0)""",
    panics='$1@.len() == 0', opts=dict(HO, params=['__h: &mut AHeap']), rules=JM + OBJ, end='root_kept(old(__h)@, __h@, old(self).master, $1@, __r->0); registered(old(__h)@, __h@, old(self).master, $1@, __r->0); names_kept(old(__h)@, __h@);')
HX = dict(HO, params=['__h: &mut AHeap'], call_args={'.register_account': ['__h']})
PTRX = [['pre:xact-pointer', '&mut *($p.cast_mut())', 'v_ptr_mut(&mut %3.xacts, $p)'], ['pre:xact-pointer', '&mut *$p', 'v_ptr_mut(&mut %3.xacts, $p)'], ['pre:xact-pointer', '&*$p', 'v_ptr(&%2.xacts, $p)']]
POSTF = [
  REGA,
  F('parser.rs', 'parse_post', """requires one_root(old(__h)@, old($3).master), names_ok(old(__h)@), pool_wf(old($3).commodity_pool), distinct(old($3).xacts@), there(old($3).xacts@, $2)
      ensures r is Ok, final($3).master == old($3).master && one_root(final(__h)@, old($3).master) && names_ok(final(__h)@), post_pool(old($3).commodity_pool, final($3).commodity_pool, s_post($1@)->0),
        ({ let k = at_addr(old($3).xacts@, $2); let x = final($3).xacts@[k]; let p = x.posts@.last(); only_at(old($3).xacts@, final($3).xacts@, k) && one_more(old($3).xacts@[k], x) && p.xact_ptr == xaddr(x) && p.note is None
            && a_reg(old(__h)@, final(__h)@, old($3).master, (s_post($1@)->0).account, p.account) }),
        ({ let x = final($3).xacts@[at_addr(old($3).xacts@, $2)]; post_is(x.posts@.last(), s_post($1@)->0, final(__h)@, old($3).master, final($3).commodity_pool) })""",
    panics='post_refused(s_post($1@))', opts=HX, rules=PTRX),
  F('parser.rs', 'link_posts_to_accounts', """requires distinct($2.xacts@), there($2.xacts@, $1), in_heap(old(__h)@, $2.xacts@[at_addr($2.xacts@, $1)].posts@) ensures entered(old(__h)@, final(__h)@, $2.xacts@[at_addr($2.xacts@, $1)].posts@)""",
    opts=dict(HO, params=['__h: &mut AHeap']), rules=PTRX + [['pre:object', '$s.get_account_mut($p)', '$p'], ['pre:enter', '$a.posts.push($p)', '__h.at_mut($a).posts.push($p.v_to_ptr())']],
    pre='let ghost __s = $2.xacts@[at_addr($2.xacts@, $1)].posts@; proof { entered_none(__h@); assert(__s.take(0) =~= Seq::<Post>::empty()); }',
    loops={0: dict(inv='in_heap(old(__h)@, __s), entered(old(__h)@, __h@, __s.take(__n0 as int))', body='let ghost __h1 = __h@; let ghost __k = __n0 as int; proof { assert(old(__h)@.contains_key(__s[__k].account)); assert(__h@.contains_key(__s[__k].account)); }',
           end='proof { entered_step(old(__h)@, __h1, __h@, __s, __k); }', post='proof { assert(__s.take(__s.len() as int) =~= __s); }')}),
]
unit('posting', JR_P, JR_T, POSTF, assume=Q + QS + A + B + H_PUB + POOL[:5] + [POOL[6]] + PARTS + XF[:6] + [f for f in ACCT if f.name == 'find_or_create'] + [f for f in SC if f.name == 'scan_post'], pre=HBC)

# ------------------------------------------------------------------ reading a text
def parser_t(t, it): return "pub struct Parser<'j> { pub journal: &'j mut Journal, pub reader: VReader, pub buffer: String }\n"
RD_P = JR_P + ['s_price.rs', 's_pline.rs', 's_read.rs', 'l_read.rs', 'l_text.rs', 'g_read.rs']
RD_T = JR_T + [('parser.rs', 'struct Parser', parser_t)]
RD_H = {k: ['__h'] for k in ('.xact_directive', '.read_next_directive', '.general_directive', '.include_directive', '.price_xact_directive', 'parse_post', 'link_posts_to_accounts', '.parse', 'read_into_journal', 'parse_file')}
RDO = {'impl_for': "impl<'j> Parser<'j>", 'params': ['__h: &mut AHeap'], 'call_args': RD_H, 'objects': ['Account']}
RDR = STR + [['pre:peek', '$s.chars().peekable().peek()', 'v_nth($s.v_s(), 0)'], ['pre:peek', '$s.chars().next()', 'v_nth($s.v_s(), 0)'], ['pre:peek', '$s.chars().nth($k)', 'v_nth($s.v_s(), $k)'], ['pre:clear', '$b.clear()', 'v_clear(&mut $b)'], ['pre:words', '$s.split_whitespace()', 'v_words($s.v_s())'],
  ['pre:reader', 'BufReader::new($s)', 'VReader::new($s)'], ['pre:cursor', 'Cursor::new($s)', 'v_cursor($s)'], ['pre:reborrow', '&mut self.journal', 'self.journal'], ['pre:pointer', 'self.create_xact() as *mut Xact', 'self.create_xact()'],
  ['pre:price-line', 'self.journal.commodity_pool.parse_price_directive($s)', 'v_price_line(self.journal, $s, Ghost(__pc))'],
  ['pre:xact-pointer', '&mut *($p.cast_mut())', 'v_ptr_mut(&mut self.journal.xacts, $p)'], ['pre:xact-pointer', '&mut *$p', 'v_ptr_mut(&mut self.journal.xacts, $p)']] + SELFP + [['pre:finalize', n + 'finalize($p, $j)', 'v_finalize($p, $j, Ghost(__pc))'] for n in ('crate::xact::', 'xact::', '')]
FRAME = '*final(final(self).journal) == *final(old(self).journal)'
J0, J1, X0, X1 = '*old(self).journal', '*final(self).journal', 'old(self).journal.xacts@', 'final(self).journal.xacts@'
RB = 'old(self).buffer@'; RT = 'old(self).reader.rest()'
XB = f'body(head(__b), __t)'
PTR = '«self . create_xact (Ghost (__pc))»'
RD_X = [
  F('parser.rs', 'Parser::new', 'ensures *r.journal == *old($2), *final(r.journal) == *final($2), r.reader.rest() == $1.text(), r.buffer@.len() == 0', opts={'impl_for': RDO['impl_for'], 'param_types': {'1': 'VSource'}}, rules=RDR),
  F('parser.rs', 'Parser::create_xact', f"""requires distinct({X0}), linked({X0}) ensures {FRAME}, final(self).reader.rest() == {RT}, same_frame({J0}, {J1}), distinct({X1}), linked({X1}), {X1}.len() == {X0}.len() + 1, xskept({X0}, {X1}),
     ({{ let x = {X1}.last(); let w = head({RB}); head_is(x, w.date, w.aux, w.payee) && otext(x.note) == w.note && x.posts@.len() == 0 && r == xaddr(x) }})""", panics=f'head_bad({RB})', opts={'impl_for': RDO['impl_for'], 'ret_ptr': True}, rules=RDR),
  F('parser.rs', 'Parser::parse_trailing_note', f"""requires distinct({X0}), there({X0}, $1), tstart({RB}).len() > 0, tstart({RB})[0] == ';'
     ensures {FRAME}, final(self).reader.rest() == {RT}, same_frame({J0}, {J1}), ({{ let k = at_addr({X0}, $1); only_at({X0}, {X1}, k) && xnoted({X0}[k], {X1}[k], ttrim(dr(tstart({RB}), 1))) }})""", opts={'impl_for': RDO['impl_for']}, rules=RDR, pre='proof { ascii_prefix_1(tstart(self.buffer@)); note_trims(self.buffer@); ascii_prefix_1(ttrim(self.buffer@)); assert(is_at(self.journal.xacts@, $1, at_addr(self.journal.xacts@, $1))); }'),
]
RD_X += [
  F('parser.rs', 'Parser::xact_directive', f"""requires jinv({J0}, old(__h)@), {RB}.len() > 0
     ensures r is Ok, {FRAME}, final(self).reader.rest() == body(head({RB}), {RT}).1, jinv({J1}, final(__h)@), gains({J0}, old(__h)@, {J1}, final(__h)@, seq![body(head({RB}), {RT}).0])""",
    panics=f'head_bad({RB}) || body_bad({RT}) || may_refuse(body(head({RB}), {RT}).0)', exact=False, opts=dict(RDO, isolate=True), rules=RDR,
    pre='let ghost __j0 = *self.journal; let ghost __h0 = __h@; let ghost __b = self.buffer@; let ghost __t = self.reader.rest(); let ghost __n = self.journal.xacts@.len() as int; let ghost mut __w = head(__b); let ghost mut __j2 = __j0; let ghost mut __h2 = __h0;',
    loops={0: dict(pre=f'proof {{ added_ok(__j0, *self.journal, __h@); assert(grew(__h0, __h0)); assert(pool_ext(__j0.commodity_pool, __j0.commodity_pool)); assert(is_at(self.journal.xacts@, {PTR}, __n)); }}',
      inv=f"""__pc == (head_bad(__b) || body_bad(__t) || may_refuse({XB}.0)), *final(self.journal) == *final(old(self).journal), __n == __j0.xacts@.len(), self.journal.xacts@.len() == __n + 1, is_at(self.journal.xacts@, {PTR}, __n), self.journal.master == __j0.master,
        jok(*self.journal, __h@, __n), x_so_far(self.journal.xacts@[__n], __w, __h@, __j0.master, self.journal.commodity_pool), grew(__h0, __h@), pool_ext(__j0.commodity_pool, self.journal.commodity_pool), xskept(__j0.xacts@, self.journal.xacts@)""",
      **{'except': f'body_bad(self.reader.rest()) ==> __pc, body(__w, self.reader.rest()) == {XB}'}, ensures=f'{XB} == (__w, self.reader.rest())', dec='self.reader.rest().len()',
      body=f'let ghost __j1 = *self.journal; let ghost __h1 = __h@; let ghost __t1 = self.reader.rest(); let ghost __l = ln(__t1); proof {{ ln_props(__t1); blank_trim(__l); at_is(__j1.xacts@, {PTR}, __n); }}',
      end=f'proof {{ let k = *self.journal; let t = s_post(tstart(__l))->0; if tstart(__l)[0] == \';\' {{ note_step(__j1, k, __h@, __n, __w, ttrim(dr(tstart(__l), 1))); }} else {{ post_step(__j1, k, __h1, __h@, __n, __w, t); grew_trans(__h0, __h1, __h@); pool_ext_trans(__j0.commodity_pool, __j1.commodity_pool, k.commodity_pool); }} xskept_take(__j0.xacts@, __j1.xacts@, k.xacts@); __w = line(__w, __l); }}',
      post=f'proof {{ __j2 = *self.journal; __h2 = __h@; at_is(__j2.xacts@, {PTR}, __n); refuses(__j2.xacts@[__n], __w, __h2, __j0.master, __j2.commodity_pool); assert(in_heap(__h2, __j2.xacts@[__n].posts@)); assert(posts_ok(__j2.commodity_pool, __j2.xacts@[__n].posts@)); }}')},
    end='x_read(__j0, __h0, __j2, __h2, *self.journal, __h@, __w);'),
]
GAIN = f'jinv({J1}, final(__h)@), gains({J0}, old(__h)@, {J1}, final(__h)@, %s)'
INC = F('parser.rs', 'Parser::include_directive', f"""requires jinv({J0}, old(__h)@) ensures {FRAME}, final(self).reader.rest() == {RT}, final(self).buffer@ == {RB}, {GAIN % 'inc_items($1@)'}""", panics='inc_bad($1@)', exact=False, opts=RDO,
    rules=RDR + [['pre:path', 'PathBuf::from($s)', 'PathBuf::from_str($s).v_unwrap(Ghost(__pc))'], ['pre:cwd', 'env::current_dir()', 'v_current_dir()'], ['pre:cwd', 'std::env::current_dir()', 'v_current_dir()']],
    pre='broadcast use ax_inc::inc_is; proof { gains_none(*self.journal, __h@); }')
RD_J = lambda j, w: f'requires jinv(*old({j}), old(__h)@) ensures jinv(*final({j}), final(__h)@), gains(*old({j}), old(__h)@, *final({j}), final(__h)@, items({w}))'
PFILE = F('lib.rs', 'parse_file', RD_J('$2', 'file_text($1@)'), panics='!file_ok($1@) || items_bad(file_text($1@))', exact=False, opts={'params': ['__h: &mut AHeap'], 'call_args': RD_H}, rules=RDR + [['pre:open', 'File::open($p)', 'v_open($p)']])
RD_X += [
  F('parser.rs', 'Parser::price_xact_directive', f"""requires jinv({J0}, old(__h)@), {RB}.len() > 0 ensures {FRAME}, final(self).reader.rest() == {RT}, {GAIN % 'Seq::<XW>::empty()'}""", panics=f'!price_line_ok({RB}) || clen({RB}[0]) != 1', exact=False, opts=RDO, rules=RDR,
    end='pool_step(*old(self).journal, *self.journal, __h@);'),
  F('parser.rs', 'Parser::general_directive', f"""requires jinv({J0}, old(__h)@) ensures {FRAME}, final(self).reader.rest() == {RT}, final(self).buffer@ == {RB}, words({RB}).len() > 0, r == is_include({RB}), {GAIN % f'if r {{ inc_items(words({RB})[1]) }} else {{ Seq::<XW>::empty() }}'}""", panics=f'gen_bad({RB})', exact=False, opts=RDO, rules=RDR,
    pre='proof { gains_none(*self.journal, __h@); word_first(self.buffer@); }'),
  F('parser.rs', 'Parser::read_next_directive', f"""requires jinv({J0}, old(__h)@), {RB}.len() > 0 ensures r is Ok, {FRAME}, final(self).reader.rest() == dir({RB}, {RT}).1, {GAIN % f'dir({RB}, {RT}).0'}""", panics=f'dir_bad({RB}, {RT})', exact=False, opts=RDO, rules=RDR,
    pre='proof { gains_none(*self.journal, __h@); blank_trim(self.buffer@); word_first(self.buffer@); }'),
  F('parser.rs', 'Parser::parse', f"""requires jinv({J0}, old(__h)@), {RB}.len() == 0 ensures {FRAME}, {GAIN % f'items({RT})'}""", panics=f'items_bad({RT})', exact=False, opts=dict(RDO, isolate=True), rules=RDR,
    pre='let ghost __j0 = *self.journal; let ghost __h0 = __h@; let ghost __t = self.reader.rest(); let ghost mut __w = Seq::<XW>::empty(); proof { gains_none(__j0, __h0); }',
    loops={0: dict(inv='__pc == items_bad(__t), *final(self.journal) == *final(old(self).journal), jinv(*self.journal, __h@), gains(__j0, __h0, *self.journal, __h@, __w)', **{'except': 'self.buffer@.len() == 0, items_bad(self.reader.rest()) ==> __pc, __w + items(self.reader.rest()) == items(__t)'}, ensures='__w == items(__t)', dec='self.reader.rest().len()',
      pre='proof { assert(__w + items(__t) =~= items(__t)); }',
      body='let ghost __j1 = *self.journal; let ghost __h1 = __h@; let ghost __t1 = self.reader.rest(); let ghost __d = dir(ln(__t1), after(__t1)); proof { ln_props(__t1); dir_len(ln(__t1), after(__t1)); if __t1.len() == 0 { assert(__w + items(__t1) =~= __w); } else { assert(__w + (__d.0 + items(__d.1)) =~= (__w + __d.0) + items(__d.1)); } }',
      end='proof { gains_trans(__j0, __h0, __j1, __h1, *self.journal, __h@, __w, __d.0); __w = __w + __d.0; }')}),
  F('parser.rs', 'read_into_journal', RD_J('$2', '$1.text()'), panics='items_bad($1.text())', exact=False, opts={'params': ['__h: &mut AHeap'], 'call_args': RD_H, 'param_types': {'1': 'VSource'}, 'no_generics': True}, rules=RDR),
  F('journal.rs', 'Journal::read', RD_J('self', '$1.text()').replace('items($1.text()))', 'items($1.text())), r == final(self).xacts@.len()'), panics='items_bad($1.text())', exact=False, opts={'params': ['__h: &mut AHeap'], 'call_args': RD_H, 'param_types': {'1': 'VSource'}, 'no_generics': True}, rules=RDR),
  F('lib.rs', 'parse_text', RD_J('$2', '$1@'), panics='items_bad($1@)', exact=False, opts={'params': ['__h: &mut AHeap'], 'call_args': RD_H}, rules=RDR),
  PFILE,
]
RD_A = Q + QS + A + B + H_PUB + POOL[:5] + [POOL[6]] + PARTS + XF + POSTF + [FIN, PD] + [f for f in SC if f.name == 'tokenize_xact_header']
unit('reader', RD_P, RD_T, RD_X, assume=RD_A + [INC], pre=HBC)
unit('include', RD_P, RD_T, [INC], assume=RD_A + [PFILE], pre=HBC)

# ------------------------------------------------------------------ command lines
OP_R = STR + [['push', '$a.push($b)', '$a.v_push($b)'], ['string-of-char', "String::from($c)", 'v_string_c($c)']]
OP = [
  F('option.rs', 'InputOptions::new', 'ensures r.filenames@.len() == 0'),
  F('option.rs', 'get_input_options', 'ensures op_ok(texts($1@)), texts(r.filenames@) == op_files(texts($1@))', panics='!op_ok(texts($1@))', rules=OP_R,
    pre='let ghost __o = $1@; proof { reveal_strlit("-f"); assert("-f"@ =~= dash_f()); }',
    loops={0: dict(inv='2 * «InputOptions :: new ()».filenames@.len() <= __o.len(), «v_into_iter ($1)»@ == __o.skip(2 * «InputOptions :: new ()».filenames@.len() as int), op_ok(texts(__o).take(2 * «InputOptions :: new ()».filenames@.len() as int)), texts(«InputOptions :: new ()».filenames@) == op_files(texts(__o).take(2 * «InputOptions :: new ()».filenames@.len() as int))',
                   dec='«v_into_iter ($1)»@.len()',
                   body='let ghost __f = «InputOptions :: new ()».filenames@; proof { let t = texts(__o); let k = 2 * __f.len() as int; if op_ok(t) && k < t.len() { assert(t[k] == dash_f()); } if k < t.len() { assert(t[k] == __o.skip(k)[0]@); } if k + 1 < t.len() { assert(t[k + 1] == __o.skip(k).skip(1)[0]@); } }',
                   end='proof { let t = texts(__o); let k = 2 * __f.len() as int; assert(op_files(t.take(k + 2)) =~= op_files(t.take(k)).push(t[k + 1])); text_push(__f, «InputOptions :: new ()».filenames@.last()); assert(«InputOptions :: new ()».filenames@ =~= __f.push(«InputOptions :: new ()».filenames@.last())); assert forall|i: int| #![trigger t.take(k + 2)[i]] 0 <= i < k + 2 && i % 2 == 0 implies t.take(k + 2)[i] == dash_f() by { if i < k { assert(t.take(k)[i] == t[i]); } } assert(__o.skip(k).skip(1).skip(1) =~= __o.skip(k + 2)); }')},
    end='assert(texts(__o).take(texts(__o).len() as int) =~= texts(__o));'),
  F('option.rs', 'process_arguments', 'ensures cl_ok(texts($1@)), texts(r.0@) == cl_words(texts($1@)), texts(r.1.filenames@) == cl_files(texts($1@))', panics='!cl_ok(texts($1@))', rules=OP_R,
    pre='let ghost __a = texts($1@); proof { reveal_strlit("--"); assert("--"@ =~= seq![\'-\', \'-\']); assert(__a =~= Seq::<Seq<char>>::empty() + __a); assert forall|x: Seq<Seq<char>>| #![trigger cl_words(x)] Seq::<Seq<char>>::empty() + cl_words(x) =~= cl_words(x) by {} assert forall|x: Seq<Seq<char>>| #![trigger cl_files(x)] Seq::<Seq<char>>::empty() + cl_files(x) =~= cl_files(x) by {} }',
    loops={0: dict(inv='texts(«arg get_input_options 1»@).len() % 2 == 0, cl_ok(__a) == (op_ok(texts(«arg get_input_options 1»@)) && cl_ok(texts(«v_iter (& $1)»@))), cl_words(__a) == texts(«tail 1»@) + cl_words(texts(«v_iter (& $1)»@)), cl_ok(__a) ==> cl_files(__a) == op_files(texts(«arg get_input_options 1»@)) + cl_files(texts(«v_iter (& $1)»@))',
                   dec='«v_iter (& $1)»@.len()',
                   body="""let ghost __r0 = «v_iter (& $1)»@; let ghost __t0 = texts(__r0); let ghost __o0 = texts(«arg get_input_options 1»@); let ghost __c0 = «tail 1»@;
                     proof { if __t0.len() > 0 { assert(__t0[0] == __r0[0]@); text_skip(__r0, 1); if dash(__t0[0]) { len_one(__t0[0]); } let w = __t0[0]; if occurs(w, "--"@, 0) { assert(w.subrange(0, 2)[0] == w[0] && w.subrange(0, 2)[1] == w[1]); boff_ascii(w, 0, 2); boff_cidx(w, 2); } } }""",
                   cont='proof { assert(«tail 1»@ =~= __c0.push(«tail 1»@.last())); text_push(__c0, «tail 1»@.last()); assert((texts(__c0).push(__t0[0])) + cl_words(__t0.skip(1)) =~= texts(__c0) + (seq![__t0[0]] + cl_words(__t0.skip(1)))); }',
                   end='proof { option_word(__t0, __o0); assert(__t0.skip(1).skip(__t0[0].len() - 1) =~= __t0.skip(__t0[0].len() as int)); assert((op_files(__o0) + __t0.subrange(1, __t0[0].len() as int)) + cl_files(texts(«v_iter (& $1)»@)) =~= op_files(__o0) + (__t0.subrange(1, __t0[0].len() as int) + cl_files(texts(«v_iter (& $1)»@)))); }'),
           1: dict(inv='texts(«untyped Vec :: new ()»@) == letters(__s1, __n1 as int)', pre='proof { assert(texts(«untyped Vec :: new ()»@) =~= letters(__s1, 0)); }',
                   body='let ghost __q1 = «untyped Vec :: new ()»@; proof { first_char(__s1, __v1@[__n1 as int].0 as int, __n1 as int); assert(letters(__s1, 1) =~= letters(__s1, 0)); }',
                   end='proof { let k = __n1 - 1; assert(«untyped Vec :: new ()»@ =~= __q1.push(«untyped Vec :: new ()»@.last())); text_push(__q1, «untyped Vec :: new ()»@.last()); assert(«untyped Vec :: new ()»@.last()@ =~= seq![\'-\', __s1[k]]); assert(letters(__s1, k + 1) =~= letters(__s1, k).push(seq![\'-\', __s1[k]])); }'),
           2: dict(inv='texts(__v2@) == letters(__t0[0], __t0[0].len() as int), 0 <= __n2 < __t0.len(), texts(«v_iter (& $1)»@) == __t0.skip(1).skip(__n2 as int), «v_iter (& $1)»@.len() == __r0.len() - 1 - __n2, texts(«arg get_input_options 1»@) == __o0 + with_values(letters(__t0[0], __t0[0].len() as int), __t0.skip(1), __n2 as int)',
                   pre='proof { assert(texts(«arg get_input_options 1»@) =~= __o0 + with_values(letters(__t0[0], __t0[0].len() as int), __t0.skip(1), 0)); assert(texts(«v_iter (& $1)»@) =~= __t0.skip(1).skip(0)); }',
                   body='let ghost __o2 = «arg get_input_options 1»@; let ghost __r2 = «v_iter (& $1)»@; proof { assert(texts(__v2@)[__n2 as int] == __v2@[__n2 as int]@); text_skip(__r2, if __r2.len() > 0 { 1 } else { 0 }); if __r2.len() > 0 { assert(texts(__r2)[0] == __r2[0]@); } }',
                   end='proof { let o = «arg get_input_options 1»@; let q = letters(__t0[0], __t0[0].len() as int); let v = __t0.skip(1); let k = __n2 - 1; assert(o =~= __o2.push(o[o.len() - 2]).push(o.last())); text_push(__o2, o[o.len() - 2]); text_push(__o2.push(o[o.len() - 2]), o.last()); assert(texts(o) =~= texts(__o2).push(q[k]).push(v[k])); assert(texts(«arg get_input_options 1»@) =~= __o0 + with_values(q, v, __n2 as int)); assert(v.skip(k).skip(1) =~= v.skip(k + 1)); }'),
    }),
  F('lib.rs', 'session_read_journal_files', 'ensures files_in(r) == texts($1.filenames@)',
    loops={0: dict(inv='files_in(«Journal :: new ()») == texts($1.filenames@).take(__n0 as int)', pre='proof { assert(texts($1.filenames@).take(0) =~= Seq::<Seq<char>>::empty()); }',
                   body='proof { let t = texts($1.filenames@); assert(t.take(__n0 as int).push(t[__n0 as int]) =~= t.take(__n0 + 1)); }',
                   post='proof { assert(texts($1.filenames@).take(texts($1.filenames@).len() as int) =~= texts($1.filenames@)); }')}),
  F('lib.rs', 'execute_command', 'ensures known_command(texts($1@)), command_done(texts($1@), texts($2.filenames@), texts(r@))', panics='!known_command(texts($1@))',
    rules=[['pre:index', '&$v[0]', 'v_vec_nth(&$v, 0).v_unwrap(Ghost(__pc))'], ['pre:index', '$v[0].chars()', 'v_vec_nth(&$v, 0).v_unwrap(Ghost(__pc)).chars()'], ['pre:nth', '$v.iter().nth($k)', 'v_vec_nth(&$v, $k)'], ['pre:nth', '$v.first()', 'v_vec_nth(&$v, 0)'], ['pre:nth', '$s.chars().next()', 'v_nth($s.v_s(), 0)'], ['pre:nth', '$s.chars().nth($k)', 'v_nth($s.v_s(), $k)'], ['pre:tail', '&$v[1..]', 'v_tail(&$v, 1)'], ['pre:sort', '$v.sort()', 'v_sort_texts(&mut $v)']],
    pre='proof { reveal_strlit("b"); reveal_strlit("bal"); reveal_strlit("balance"); reveal_strlit("budget"); assert("b"@ =~= seq![\'b\']); assert("bal"@ =~= seq![\'b\', \'a\', \'l\']); assert("balance"@ =~= seq![\'b\', \'a\', \'l\', \'a\', \'n\', \'c\', \'e\']); if $1@.len() > 0 { assert(texts($1@)[0] == $1@[0]@); } }',
    end='assert(prints(texts($1@), «arg report_accounts 1», texts(__r@))); assert(files_in(«arg report_accounts 1») == texts($2.filenames@));'),
  F('lib.rs', 'run', 'ensures cl_ok(texts($1@)), known_command(cl_words(texts($1@))), command_done(cl_words(texts($1@)), cl_files(texts($1@)), texts(r@))', panics='!cl_ok(texts($1@)) || !known_command(cl_words(texts($1@)))'),
]
OP_A = [
  F('journal.rs', 'Journal::new', 'ensures files_in(r) == Seq::<Seq<char>>::empty()'),
  F('lib.rs', 'parse_file', 'ensures files_in(*final($2)) == files_in(*old($2)).push($1@)'),
  F('report.rs', 'balance_report', 'ensures texts(r@) == balance_lines(*$1)'),
  F('report.rs', 'report_accounts', 'ensures texts(r@) == account_lines(*$1)'),
]
unit('option', ['p_base.rs', 'p_str.rs', 'p_iter.rs', 's_opt.rs'], [('option.rs', 'struct InputOptions')], OP, assume=OP_A)

# ------------------------------------------------------------------ what every unit trusts
TRUST_COMMON = [
  'Verus, its standard library and Z3; rustc',
  'tools/extract: copies the functions from /repo/src on every run and rewrites them token by token into the verifier\'s subset (rules listed under extraction.rewrites); log!/debug! output, Debug formatting and panic messages are dropped',
  'the stubs of vspec/p_*.rs stand for std (str, String, Vec) and for rust_decimal; their contracts are assumed',
]
ASSUME_COMMON = [
  'decimal arithmetic is treated as exact over the reals: results beyond 28 digits (rounding) and overflow are not covered',
  'raw pointers are treated as identities of what they point to; their validity (C15) is checked by address in the bounded part',
  'no concurrency: the library is single threaded; termination of verified loops is checked unless stated',
]
