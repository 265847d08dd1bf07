#!/usr/bin/env python3
"""Generates a Verus unit from /repo/src and runs the verifier on it.

A unit is a prelude (spec functions, contracts of the standard library and of dependencies), the
types and functions extracted from /repo/src by tools/extract, and lemmas. Contracts are put on the
extracted functions; callees outside the unit's `verify` list appear with their contract only."""
import concurrent.futures, json, os, re, signal, subprocess, sys, tempfile, threading, time, hashlib, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.environ.get('VERIF_WORK', os.path.join(VERIF, 'build'))
EXTRACT_DIR = os.path.join(VERIF, 'tools', 'extract')

class ToolError(Exception):
    pass

LOST = {}    # functions whose ghost code found no place
LOOPS = os.path.join(VERIF, 'vspec', 'loops.json')   # kinds of the loops the invariants were written for
CANARY = 5 if os.environ.get("VERIF_TIER") == "thorough" else 1.5   # resource limit of the vacuity check

def env():
    e = dict(os.environ)
    e['PATH'] = '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + e.get('PATH', '')
    e['CARGO_NET_OFFLINE'] = 'true'
    for k in ('RUSTFLAGS', 'RUSTUP_TOOLCHAIN', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER'):
        e.pop(k, None)
    return e

def extractor():
    tgt = os.path.join(WORK, 'extract-target')
    exe = os.path.join(tgt, 'debug', 'extract')
    e = env(); e['CARGO_TARGET_DIR'] = tgt
    r = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=EXTRACT_DIR, env=e, capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError('extractor build failed:\n' + r.stderr[-3000:])
    return exe

# ---------------------------------------------------------------- global expression rules
RULES = [
    ['chars-peek', '$e.chars().peekable().peek()', 'v_peek($e.v_s())'],
    ['chars-nth', '$e.chars().nth($k)', 'v_nth($e.v_s(), $k)'],
    ['chars-next', '$e.chars().next()', 'v_nth($e.v_s(), 0)'],
    *[['str-parse', '$e.parse::<%s>().%s()' % (t, m), 'v_parses_%s($e.v_s())' % m] for t in ('f64', 'f32', 'i64', 'u64', 'i32', 'u32', 'usize', 'u8', 'Decimal') for m in ('is_ok', 'is_err')],
    ['str-replace', '$e.replace($a, $b)', 'v_replace($e.v_s(), $a, $b)'],
    ['str-get-from', '$e.get($a..)', 'v_get_from($e.v_s(), $a)'],
    ['str-get-to', '$e.get(..$a)', 'v_get_to($e.v_s(), $a)'],
    ['str-get', '$e.get($a..$b)', 'v_get($e.v_s(), $a, $b)'],
    ['str-bytes-len', '$e.bytes().len()', '$e.v_s().len()'],
    ['ptr-null', 'std::ptr::null()', 'VPtr::null()'],
    ['ptr-null', 'std::ptr::null_mut()', 'VPtr::null()'],
    ['ptr-null', 'ptr::null()', 'VPtr::null()'],
    ['ptr-null', 'ptr::null_mut()', 'VPtr::null()'],
    ['iter-nth', '$e.iter().nth($k)', 'v_vec_nth(&$e, $k)'],
]

class F:
    """A function under contract."""
    def __init__(self, file, sel, contract='', panics='false', loops=None, pre='', rules=None, opts=None, post=None, attrs='', hints=None, names=None, pcarg=True, exact=True, end='', hides=()):
        self.exact = exact
        self.file, self.sel, self.contract, self.panics = file, sel, contract, panics
        self.loops, self.pre, self.rules, self.opts = loops or {}, pre, rules or [], dict(opts or {})
        self.end = end
        if end: self.opts['end'] = end
        self.attrs = attrs
        self.hints = hints or []
        self.hides = hides
        self.names = names or {}
        self.id = file + '::' + sel
        self.name = sel.split('::')[-1]
        self.has_pc = pcarg and panics != 'false' and ' for ' not in sel

def balanced(s, i, o='<', c='>'):
    d = 0
    j = i
    while j < len(s):
        if s[j] == o: d += 1
        elif s[j] == c:
            if s[j-1] == '-' and c == '>':
                pass
            else:
                d -= 1
                if d == 0: return j
        j += 1
    raise ToolError('unbalanced')

def fmt(text):
    r = subprocess.run(['rustfmt', '--edition', '2021', '--config', 'max_width=160'], input=text, capture_output=True, text=True, env=env())
    if r.returncode != 0:
        raise ToolError('rustfmt: ' + r.stderr[:2000] + text[:3000])
    return r.stdout

def subst_params(t, it):
    for i, p in reversed(list(enumerate(it.get('params', [])))):
        t = t.replace('$%d' % (i+1), p)
    def look(m):
        k = ' '.join(m.group(1).split())
        v = it.get('lets', {}).get(k)
        if v is None:
            raise ToolError('lost anchor: no local initialised with «%s» in %s' % (k, it['id']))
        return v
    return re.sub(r'«([^»]*)»', look, t)

def fill(fn, it, mode, canary=False, upre=''):
    """Puts the contract and the ghost code at the markers."""
    t = it['fmt']
    # closures
    while True:
        m = re.search(r'-> VRet<(bool|i32)>\s*\{\s*__cens!\(', t)
        if not m: break
        j = balanced(t, m.end()-1, '(', ')')
        spec = t[m.end():j]
        rest = t[j+1:].lstrip()
        assert rest.startswith(';')
        t = t[:m.start()] + '-> (r: ' + m.group(1) + ') ensures r == (' + spec + ') {' + rest[1:]
    m = re.search(r'-> VRet<', t)
    if m:
        j = balanced(t, m.end()-1)
        t = t[:m.start()] + '-> (r: ' + t[m.end():j] + ')' + t[j+1:]
    con, dec_ = fn.contract, ''
    if ' decreases ' in con: con, dec_ = con.rsplit(' decreases ', 1); dec_ = ', decreases ' + subst_params(dec_, it)
    if fn.has_pc:
        con = con.replace('requires', 'requires (%s) ==> __cpc, ' % fn.panics, 1) if 'requires' in con else 'requires (%s) ==> __cpc,\n%s' % (fn.panics, con)
    if fn.has_pc and fn.exact:
        con = con.replace('ensures', 'ensures !(%s), ' % fn.panics, 1) if 'ensures' in con else con + '\nensures !(%s)' % fn.panics
    con = subst_params(con, it)
    if canary and mode == 'verify':
        con = con.rstrip().rstrip(',')
        cn = '__canary_%s()' % hashlib.md5(fn.id.encode()).hexdigest()[:8]
        con = (con + ', ' + cn + ',') if 'ensures' in con else (con + (',' if con.strip() else '') + '\n    ensures ' + cn + ',')
    if mode == 'verify' and dec_: con = con.rstrip().rstrip(',') + dec_
    pc = subst_params(fn.panics, it)
    pre = (''.join('hide(%s);\n' % h for h in fn.hides) + upre + 'let ghost __pc = ' + pc + ';\n' + subst_params(fn.pre, it)) if mode == 'verify' else ''
    if mode == 'verify':
        given = pre + repr(fn.loops) + repr(fn.hints)
        lits = sorted({l for l in re.findall(r'"((?:[^"\\]|\\.)*)"', t) if len(l) <= 40 and 'reveal_strlit("%s")' % l not in given})
        if lits: pre += 'proof { ' + ' '.join('reveal_strlit("%s");' % l + (' assert("%s"@ =~= seq![%s]);' % (l, ', '.join("'%s'" % (c if c != "'" else "\\'") for c in l)) if 0 < len(l) <= 6 and '\\' not in l else '') for l in lits) + ' }\n'
    t, n = re.subn(r'\{\s*__contract!\(\);', lambda m: '\n' + con + '\n{\n' + pre, t, count=1)
    if n != 1: raise ToolError('contract marker in ' + fn.id)
    for k, lp in enumerate(it.get('loops', [])):
        inv = fn.loops.get(k, {})
        if isinstance(inv, str): inv = {'inv': inv}
        if lp and lp.get('kind') in ('ref', 'refmut'):
            # written for a loop over the vector itself
            ov0 = re.sub(r'\b(__h|__ph)\.at\(', r'\1.s_at(', lp['over'].replace(' ', ''))
            inv = {a: (re.sub(r'\b__v%d\b' % k, lambda m: ov0, b) if isinstance(b, str) else b) for a, b in inv.items()}
        base, dec, lpre = [], inv.get('dec', ''), ''
        if lp and lp.get('kind') in ('ref', 'refmut', 'chars', 'charidx', 'val'):
            ov = lp['over'].replace(' ', '')
            if lp['kind'] in ('chars', 'charidx', 'val'): ov = '__v%d' % k
            ov = re.sub(r'\b(__h|__ph)\.at\(', r'\1.s_at(', ov)
            lpre = 'let ghost __len%d = %s.len();' % (k, ov)
            base = ['0 <= __n%d <= %s.len()' % (k, ov), '%s.len() == __len%d' % (ov, k)]
            dec = '__len%d - __n%d' % (k, k)
            if lp['kind'] in ('chars', 'charidx'):
                lpre += 'let ghost __s%d = (%s)@;' % (k, lp['str'])
            if lp['kind'] == 'charidx':
                base += ['__v{0}@.len() == __s{0}.len()'.format(k), 'forall|k: int| 0 <= k < __v{0}@.len() ==> (#[trigger] __v{0}@[k]).1 == __s{0}[k] && is_bnd(__s{0}, __v{0}@[k].0 as int) && cidx(__s{0}, __v{0}@[k].0 as int) == k'.format(k)]
            if lp['kind'] == 'chars':
                base += ['__v{0}@ == __s{0}'.format(k)]
        iv = subst_params(inv.get('inv', ''), it)
        inv_txt = ''
        allinv = ', '.join(base) + (', ' if base and iv.strip() else '') + iv
        if inv.get('brk') and 'break' in t[t.find('__loopinv!(%d)' % k):t.find('__looppost!(%d)' % k)]: inv = dict(inv, **{'except': inv['brk']})
        if inv.get('except'): inv_txt += '\n    invariant_except_break ' + subst_params(inv['except'], it) + ','
        if allinv.strip(): inv_txt += '\n    invariant ' + allinv.rstrip().rstrip(',') + ','
        eb = inv.get('ensures')
        if eb: inv_txt += '\n    ensures ' + subst_params(eb, it) + ','
        if dec: inv_txt += '\n    decreases ' + subst_params(dec, it) + ','
        body = subst_params(inv.get('body', ''), it)
        t = re.sub(r'\{\s*__loopinv!\(%d\);' % k, lambda m: inv_txt + '\n{\n' + body, t, count=1)
        t = t.replace('__looppre!(%d);' % k, lpre + subst_params(inv.get('pre', ''), it))
        t = t.replace('__loopend!(%d);' % k, subst_params(inv.get('end', ''), it))
        t = t.replace('__loopcont!(%d);' % k, subst_params(inv.get('cont', ''), it))
        t = t.replace('__looppost!(%d);' % k, subst_params(inv.get('post', ''), it))
    t = t.replace('__fnend!();', 'proof { ' + subst_params(fn.end, it) + ' }' if '__fnend' in t else '')
    for where, text in fn.hints:
        # ghost code after (or before) a statement; a hint that finds no place is simply not used
        m = re.search(where, t)
        if not m: LOST.setdefault(fn.id, 'lost anchor: no place for ghost code at /%s/' % where)
        if m:
            t = t[:m.end()] + '\n' + subst_params(text, it) + '\n' + t[m.end():]
    if '__loop' in t: raise ToolError('unfilled loop marker in ' + fn.id)
    attrs = fn.attrs
    if mode == 'assume':
        attrs += '\n#[verifier::external_body]'
    else:
        attrs += '\n#[verifier::exec_allows_no_decreases_clause]'
        if it.get('loops'): attrs += '\n#[verifier::loop_isolation(%s)]' % ('true' if fn.opts.get('isolate') else 'false')
    return attrs.strip() + '\n' + t

class Unit:
    def __init__(self, name, preludes, types, verify, assume=(), extra='', consts=(), rlimit=60, pre=''):
        self.pre = pre
        self.name, self.preludes, self.types = name, preludes, types
        self.verify, self.assume, self.extra, self.consts, self.rlimit = verify, assume, extra, consts, rlimit

HEAD = '''#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_assignments, unreachable_code, unused_parens, unused_braces, non_camel_case_types, unused_must_use, unreachable_patterns)]
use vstd::prelude::*;
use std::ops::{Add, AddAssign, Div, Mul, MulAssign, Sub, SubAssign, Neg};
verus! {
'''

_extract_cache = {}
def extract(unit, exe):
    items = []
    for i, ty in enumerate(unit.types):
        items.append(dict(id=ty[0]+'::'+ty[1], file=ty[0], sel=ty[1], mode='type', rules=[]))
    for fn in unit.verify:
        items.append(dict(id=fn.id, file=fn.file, sel=fn.sel, mode='verify', rules=fn.rules, opts=fn.opts))
    for fn in unit.assume:
        items.append(dict(id=fn.id, file=fn.file, sel=fn.sel, mode='assume', rules=fn.rules, opts=fn.opts))
    pk = []
    for fn in list(unit.verify) + list(unit.assume):
        if fn.has_pc: pk += [fn.sel] if '::' not in fn.sel else [fn.sel, '.' + fn.name, 'Self::' + fn.name]
    fns = {f.id: f for f in list(unit.verify) + list(unit.assume)}
    for it in items:
        if it['mode'] != 'type':
            it['panicky'] = pk; it['has_pc'] = fns[it['id']].has_pc
    known = set()
    text = ''.join(open(os.path.join(VERIF, 'vspec', p)).read() for p in unit.preludes) + unit.extra
    for m in re.finditer(r'\bfn\s+(\w+)', text):
        known.add(m.group(1)); known.add('.' + m.group(1))
    for m in re.finditer(r'impl(?:<[^>]*>)?\s+(?:[\w:]+(?:<[^{]*>)?\s+for\s+)?(\w+)[^{]*\{', text):
        ty = m.group(1)
        try: j = balanced(text, m.end()-1, '{', '}')
        except ToolError: continue
        for n in re.finditer(r'\bfn\s+(\w+)', text[m.end():j]): known.add(ty + '::' + n.group(1))
    for fn in list(unit.verify) + list(unit.assume):
        known.add(fn.name); known.add('.' + fn.name)
        known.add('::'.join(fn.sel.split(' for ')[-1].split('::')))
    # trait methods of std with the same names as functions of the crate are never inlined
    known |= {'.'+x for x in ('len', 'push', 'get', 'insert', 'find', 'is_some', 'is_none', 'is_empty', 'clone', 'iter', 'next', 'map', 'contains_key', 'read', 'add', 'parse', 'value')}
    req = dict(src=os.path.join(REPO, 'src'), items=items, known=sorted(known), rules=RULES)
    r = subprocess.run([exe], input=json.dumps(req), capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError('extractor: ' + r.stderr[-2000:])
    return json.loads(r.stdout)

def render_item(it):
    k = it['kind']
    if k in ('struct', 'enum', 'const', 'fn'):
        return it['text']
    return it['header'] + ' { ' + ' '.join(it['others']) + ' ' + it['text'] + ' }'

def format_items(items):
    parts = []
    for i, it in enumerate(items):
        parts.append('// @@ITEM %d\n%s' % (i, render_item(it)))
    out = fmt('\n'.join(parts))
    segs = re.split(r'// @@ITEM (\d+)\n', out)
    for a in range(1, len(segs), 2):
        items[int(segs[a])]['fmt'] = segs[a+1]

class Result:
    pass

# iterators of the standard library that the extraction left as they are: Verus accepts them, with contracts that say too little
STD_ITER = re.compile(r'\.\s*(iter|iter_mut|into_iter|chars|char_indices|bytes|as_bytes|keys|values|values_mut|drain|lines|split_whitespace|split_ascii_whitespace)\s*\(\s*\)')

def generate(unit, exe, demote=(), canary=False):
    ex = extract(unit, exe)
    res = Result()
    res.missing = [i['id'] for i in ex['items'] if not i['found']]
    res.file_errors = ex['file_errors']
    byid = {i['id']: i for i in ex['items'] if i['found']}
    format_items(list(byid.values()))
    out = [HEAD]
    for p in unit.preludes:
        out.append(open(os.path.join(VERIF, 'vspec', p)).read())
    text0 = ''.join(out)
    lines = []          # (first line, last line, id, mode)
    def cur(): return ''.join(out).count('\n') + 1
    for ty in unit.types:
        it = byid.get(ty[0]+'::'+ty[1])
        if it is None: continue
        post = ty[2] if len(ty) > 2 else None
        t = it['fmt']
        nm = ty[1].split()[-1]
        for tr in ('PartialEq', 'PartialOrd'):
            if re.search(r'impl %s for %s\b' % (tr, nm), text0) and tr not in it.get('derives', ''):
                raise ToolError('the contract of %s on %s assumes that it is derived' % (tr, nm))
        if post: t = post(t, it)
        a = cur(); out.append(t + '\n'); lines.append((a, cur(), it['id'], 'type'))
    res.rules, res.inlined, res.demoted = {}, {}, []
    for mode, fns in (('verify', unit.verify), ('assume', unit.assume)):
        for fn in fns:
            it = byid.get(fn.id)
            if it is None: continue
            m = mode
            if fn.id in demote: m = 'assume'
            try:
                if m == 'assume' and mode == 'verify':
                    it = dict(it)
                    it['fmt'] = strip_body(it['fmt'])
                    it['loops'] = []
                t = fill(fn, it, m, canary, unit.pre)
            except ToolError as e:
                if m == 'verify':
                    res.demoted.append((fn.id, str(e)))
                    it = dict(it); it['fmt'] = strip_body(it['fmt']); it['loops'] = []
                    t = fill(fn, it, 'assume', canary); m = 'assume'
                else: raise
            attrs = ''
            if it['kind'] in ('method', 'traitimpl'):
                # attributes belong to the method
                mm = re.match(r'((?:#\[[^\n]*\]\s*)*)(impl[^{]*\{)', t)
                a0, hd = mm.group(1), mm.group(2)
                rest = t[mm.end():]
                k = re.search(r'(pub\s+)?fn\s', rest)
                t = hd + rest[:k.start()] + a0 + rest[k.start():]
            a = cur(); out.append(t + '\n'); lines.append((a, cur(), fn.id, m))
            if m == 'verify':
                res.rules[fn.id] = it['rules']
                if it['inlined']: res.inlined[fn.id] = it['inlined']
    a = cur(); out.append(unit.extra); lines.append((a, cur(), 'lemmas', 'lemma'))
    if canary:
        for fn in unit.verify: out.append('\npub uninterp spec fn __canary_%s() -> bool;' % hashlib.md5(fn.id.encode()).hexdigest()[:8])
    out.append('\nfn main() {}\n} // verus!\n')
    res.text = ''.join(out)
    res.lines = lines
    res.orig = {i: byid[i].get('orig', '') for i in byid}
    res.weak = {fn.id: m.group(1) for fn in unit.verify if fn.id in byid for m in [STD_ITER.search(byid[fn.id]['fmt'])] if m}
    res.loops = {fn.id: [(l or {}).get('kind', '?') for l in byid[fn.id].get('loops', [])] for fn in unit.verify if fn.id in byid}
    return res

def strip_body(t):
    m = re.search(r'\{\s*__contract!\(\);', t)
    j = balanced_brace(t, m.start())
    return t[:m.start()] + '{ __contract!(); unimplemented!() }' + t[j+1:]

def balanced_brace(t, i):
    d = 0; j = i; n = len(t)
    while j < n:
        c = t[j]
        if c == '"':
            j += 1
            while t[j] != '"':
                if t[j] == '\\': j += 1
                j += 1
        elif c == "'" and (t[j+2:j+3] == "'" or t[j+1] == '\\'):
            j = t.index("'", j+2 if t[j+1] != '\\' else j+3)
        elif c == '{': d += 1
        elif c == '}':
            d -= 1
            if d == 0: return j
        j += 1
    raise ToolError('unbalanced braces')

PROOF_MSGS = ('postcondition not satisfied', 'precondition not satisfied', 'invariant not satisfied', 'assertion failed', 'unable to prove assertion',
  'possible arithmetic', 'decreases not satisfied', 'possible division by zero', 'loop invariant not satisfied', 'loop ensures not satisfied',
  'possible bit shift', 'could not prove termination', 'constructed value may fail', 'cannot prove', 'forall assertion', 'assert_by', 'recommendation not met',
  'conditional postcondition', 'unreachable', 'possible overflow', 'possible underflow', 'index out of bounds')
def is_proof_msg(m):
    return m.startswith(PROOF_MSGS)

class Stop:
    """when the verifier runs have to end: an absolute time, and a shorter one once a failing input is known"""
    at = None

def run_verus(path, rlimit, extra=(), many='2', cancel=None):
    t0 = time.time()
    e = env()
    with tempfile.TemporaryFile('w+') as so, tempfile.TemporaryFile('w+') as se:
        p = subprocess.Popen(['verus', path, '--output-json', '--time-expanded', '--error-format=json', '--multiple-errors', many, '--rlimit', str(rlimit), *extra],
                             stdout=so, stderr=se, env=e, cwd=os.path.dirname(path), start_new_session=True)
        stopped = False
        while True:
            try: p.wait(0.5); break
            except subprocess.TimeoutExpired:
                if time.time() > min(t0 + 600, Stop.at or t0 + 600) or (cancel is not None and cancel.is_set()):
                    stopped = True
                    try: os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError: pass
                    p.wait(); break
        so.seek(0); se.seek(0); stdout, stderr = so.read(), se.read()
    diags = []
    for l in stderr.splitlines():
        if l.startswith('{"$message_type"'):
            try: d = json.loads(l)
            except ValueError: continue
            if d.get('level') == 'error' and not d['message'].startswith('aborting'): diags.append(d)
    try: js = json.loads(stdout)
    except Exception: js = {}
    return dict(rc=p.returncode, diags=diags, json=js, stderr=stderr, wall=time.time()-t0, stopped=stopped)

def locate(lines, d, primary=False):
    """id of the item an error belongs to"""
    sp = [s for s in d['spans']]
    if primary:
        for s in sp:
            if s['is_primary']:
                for a, b, i, m in lines:
                    if a <= s['line_start'] < b: return i, m
                return 'prelude', 'prelude'
    cands = [s['line_start'] for s in sp if s['is_primary']] + [s['line_start'] for s in sp]
    for c in d.get('children', []):
        cands += [s['line_start'] for s in c.get('spans', [])]
    hit = []
    for ln in cands:
        for a, b, i, m in lines:
            if a <= ln < b: hit.append((i, m))
    # prefer a verified function (a precondition error also points into the callee)
    for i, m in hit:
        if m == 'verify': return i, m
    return hit[0] if hit else ('prelude', 'prelude')

def verify_unit(unit, exe=None, outdir=None, canary=True, log=lambda *a: None):
    """Returns a dict: status per function: ok | failed | undecided, with details."""
    exe = exe or extractor()
    outdir = outdir or os.path.join(WORK, 'gen')
    os.makedirs(outdir, exist_ok=True)
    path = os.path.join(outdir, unit.name + '.rs')
    demote = {}
    rounds = []
    for rnd in range(8):
        g = generate(unit, exe, demote)
        for i, why in g.demoted: demote.setdefault(i, why)
        open(path, 'w').write(g.text)
        if rnd: cancel.set()
        else: cancel = threading.Event()
        if canary and rnd == 0:
            # the vacuity check runs at the same time
            gc = generate(unit, exe, demote, canary=True)
            cp = os.path.join(outdir, unit.name + '_canary.rs')
            open(cp, 'w').write(gc.text)
            th = concurrent.futures.ThreadPoolExecutor(1).submit(run_verus, cp, min(unit.rlimit, CANARY), (), '0', cancel)
        v = run_verus(path, unit.rlimit)
        tool = [d for d in v['diags'] if not is_proof_msg(d['message']) and 'rlimit' not in d['message'].lower() and 'resource limit' not in d['message'].lower()]
        rounds.append((len(tool), v['wall']))
        if not tool or v['stopped']: break
        new = False
        unl = []
        for d in tool:
            i, m = locate(g.lines, d, True)
            if m == 'verify':
                if i not in demote:
                    demote[i] = 'not accepted by the verifier: ' + d['message'][:300]; new = True
            else: unl.append((i, m, d['message'][:300]))
        if not new:
            return dict(unit=unit.name, ok=False, tool_error='; '.join('%s(%s): %s' % u for u in unl)[:2000] or 'unknown', text=path,
                        missing=g.missing, wall=sum(r[1] for r in rounds), stderr='\n'.join(d.get('rendered') or '' for d in tool)[-6000:])
    else:
        return dict(unit=unit.name, ok=False, tool_error='no fixpoint', text=path, missing=g.missing, wall=0)
    status = {}
    for fn in unit.verify:
        if fn.id in g.missing: status[fn.id] = ('undecided', 'function not found in the source (lost anchor)')
        elif fn.id in demote: status[fn.id] = ('undecided', demote[fn.id])
        elif v['stopped']: status[fn.id] = ('undecided', 'the verifier was stopped after %.0f s' % v['wall'])
        else: status[fn.id] = ('ok', '')
    failed = []
    lost = {k: w for k, w in LOST.items() if k in status}
    try: base = json.load(open(LOOPS))
    except Exception: base = {}
    for i, ks in g.loops.items():
        b = base.get(unit.name, {}).get(i)
        if b is not None and b != ks: lost[i] = 'lost anchor: the loops are %s, the invariants were written for %s' % (ks, b)
    for i, w in g.weak.items(): lost.setdefault(i, 'std iterator (%s) without a contract' % w)
    for d in v['diags']:
        i, m = locate(g.lines, d)
        msg = d.get('rendered') or d['message']
        low = d['message'].lower()
        if 'rlimit' in low or 'resource limit' in low:
            if status.get(i, ('ok',))[0] == 'ok': status[i] = ('undecided', d['message'])
        else:
            if m in ('prelude', 'type', 'assume'):
                return dict(unit=unit.name, ok=False, tool_error='%s(%s): %s' % (i, m, d['message'][:300]), text=path, missing=g.missing,
                            wall=sum(r[1] for r in rounds), stderr='\n'.join(d.get('rendered','') for d in v['diags']))
            if i in lost:
                # the invariants were written for other loops: nothing is decided about this function
                status[i] = ('undecided', lost[i] + '; ' + d['message']); continue
            failed.append(dict(fn=i, message=d['message'], rendered=msg))
            status[i] = ('failed', d['message'])
    vr = v['json'].get('verification-results', {})
    smt = v['json'].get('times-ms', {}).get('smt', {}).get('total')
    out = dict(unit=unit.name, ok=True, status=status, failed=failed, verified=vr.get('verified', 0), errors=vr.get('errors', 0), smt_ms=smt,
               wall=sum(r[1] for r in rounds), missing=g.missing, rules=g.rules, inlined=g.inlined, demoted=demote, path=path,
               contracts=[f.id for f in unit.verify if f.id not in demote and f.id not in g.missing],
               loops=g.loops, assumed=[f.id for f in unit.assume], trusted=sorted(set(scan_trusted(g.text))))
    if failed or v['stopped']: cancel.set()
    if canary and not failed and not v['stopped']:
        if len(rounds) > 1:
            gc = generate(unit, exe, demote, canary=True)
            open(cp, 'w').write(gc.text)
            vc = run_verus(cp, min(unit.rlimit, CANARY), many='0')
        else: vc = th.result()
        hit = set()
        for d in vc['diags']:
            hit.add(locate(gc.lines, d)[0])
        out['vacuous'] = [] if vc['stopped'] else [i for i in out['contracts'] if i not in hit]
        out['wall'] += vc['wall']
    return out

def scan_trusted(text):
    out = []
    for m in re.finditer(r'#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\([^)]*\))?\s+)?(?:broadcast\s+)?(?:proof\s+)?(fn|struct)\s+(\w+)', text):
        out.append('%s %s' % (m.group(1), m.group(2)))
    for m in re.finditer(r'\b(assume|admit)\s*\(', text): out.append(m.group(1) + ' in source at ' + str(text[:m.start()].count('\n')+1))
    for m in re.finditer(r'assume_specification\s*\[([^\]]*)\]', text): out.append('assume_specification ' + m.group(1).strip())
    for m in re.finditer(r'pub broadcast axiom fn (\w+)|axiom fn (\w+)', text): out.append('axiom ' + (m.group(1) or m.group(2)))
    return out

if __name__ == '__main__':
    sys.path.insert(0, os.path.join(VERIF, 'vspec'))
    import units
    names = [a for a in sys.argv[1:] if not a.startswith('--')]
    base = {}
    if '--baseline' in sys.argv and os.path.exists(LOOPS): base = json.load(open(LOOPS))
    exe = extractor()
    for n in names or list(units.UNITS):
        r = verify_unit(units.UNITS[n], exe, canary='--canary' in sys.argv or True)
        if '--baseline' in sys.argv and r['ok']:
            base[n] = r['loops']; json.dump(base, open(LOOPS, 'w'), indent=1, sort_keys=True)
        if not r['ok']:
            print('UNIT', n, 'TOOL ERROR', r['tool_error'], r.get('missing')); print(r.get('stderr','')[-6500:]); continue
        print('UNIT', n, 'verified', r['verified'], 'errors', r['errors'], 'smt', r['smt_ms'], 'wall %.1f' % r['wall'], 'missing', r['missing'], 'vacuous', r.get('vacuous'), 'demoted', r['demoted'])
        for f in r['failed']: print(f['fn'], '\n', f['rendered'])
