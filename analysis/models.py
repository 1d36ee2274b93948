"""Abstract transformers for the external functions lebedec/bumaga calls (std, taffy, pest, serde_json, log)."""
import re
from terms import *
import terms as T

OPT, RES, CF = T.OPT, T.RES, 'std::ops::ControlFlow'
EXACT = {}
TAIL = {}


def model(*names):
    def deco(f):
        for n in names:
            EXACT[n] = f
        return f
    return deco


_norm_cache = {}


def norm(p):
    """`std::option::Option::<T>::map` -> `std::option::Option::map`; core:: and alloc:: -> std::"""
    r = _norm_cache.get(p)
    if r is None:
        r = re.sub(r"::<(?!impl)[^<>]*(?:<[^<>]*>[^<>]*)*>", "", p)
        r = re.sub(r"::<impl ([^>]*(?:<[^>]*>)?)>", lambda m: '::{' + m.group(1) + '}', r)
        r = re.sub(r"^(core|alloc)::", "std::", r)
        _norm_cache[p] = r
    return r


def lookup(p, res, call):
    n = norm(p)
    m = EXACT.get(n)
    if m is None and p.startswith('taffy::style_helpers::<impl') and p.rsplit('::', 1)[-1] in ('zero', 'auto'):
        return pure_style
    if m:
        return m
    if res:
        m = EXACT.get(norm(res))
        if m:
            return m
    return None


# ------------------------------------------------------------------ helpers
def one(st, v):
    return [(st, v)]


def opt_variants(e, st, v):
    return e.fork_variant(st, v, ['None', 'Some'])


def payload(v, variant, n='0'):
    return T.field(T.as_variant(v, variant), n)


def opt_value(e, st, a):
    """Option/Result operand by value."""
    return e.vderef(st, a) if a[0] == 'ref' else a


def loc_of(e, st, a):
    """Location designated by a (possibly double) reference."""
    loc = e.deref_loc(a)
    v = e.read(st, loc)
    n = 0
    while v[0] == 'ref' and n < 6:
        loc = v[1]
        v = e.read(st, loc)
        n += 1
    return loc


def mutate(e, st, a, opname, args, new=None, event=True):
    loc = loc_of(e, st, a)
    old = e.read(st, loc)
    vargs = tuple(e.val(st, x) for x in args)
    if new is None:
        new = ('m', opname, e.val(st, old), vargs)
    e.write(st, loc, new, silent=True)
    if event:
        st.emit('mut', e.place_term(loc) if loc[0][0] != 'O' or loc[1] else loc[0][1], opname, vargs)
    return old


# ------------------------------------------------------------------ identity-like
IDENT = '''
std::clone::Clone::clone std::string::String::as_str std::ops::Deref::deref std::ops::DerefMut::deref_mut
std::vec::Vec::as_slice std::vec::Vec::as_mut_slice std::convert::AsRef::as_ref std::borrow::Borrow::borrow
std::borrow::BorrowMut::borrow_mut std::borrow::ToOwned::to_owned std::convert::Into::into std::convert::From::from
std::hint::must_use std::string::String::into_boxed_str std::string::String::as_bytes
std::str::{str}::as_bytes std::slice::{[T]}::to_vec std::option::Option::cloned std::option::Option::copied
std::option::Option::as_deref std::option::Option::as_deref_mut std::convert::identity std::mem::drop
std::convert::AsMut::as_mut std::slice::{[T]}::into_vec std::iter::Iterator::by_ref std::string::String::as_mut_str
std::vec::Vec::into_boxed_slice std::borrow::Cow::into_owned std::option::Option::as_slice
std::vec::Vec::leak std::rc::Rc::new std::sync::Arc::new std::vec::Vec::shrink_to_fit
'''.split()


def m_ident(e, st, args, call):
    return one(st, args[0])


for _n in IDENT:
    EXACT[_n] = m_ident


@model('std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned', 'std::option::Option::cloned',
       'std::option::Option::copied', 'std::slice::{[T]}::to_vec')
def m_clone(e, st, args, call):
    v = args[0]
    v = e.vderef(st, v)
    return one(st, v)


@model('std::convert::Into::into', 'std::convert::From::from')
def m_from(e, st, args, call):
    ta = call.get('targs') or ()
    v = args[0]
    to = call.get('dty') or ''
    if re.match(r'(std::collections::\w*(Map|Set)|serde_json::Map)<', to) and e.val(st, v)[0] == 'arr':
        return m_collect(e, st, [mk_it('own', e.val(st, v))], call)
    if ta and len(ta) == 2:
        a, b = ta[0], ta[1]
        num = ('f32', 'f64', 'u8', 'u16', 'u32', 'u64', 'i32', 'i64', 'usize')
        if a in num and b in num and ((a[0] == 'f') != (b[0] == 'f')):
            x = e.val(st, v)
            to, frm = (a, b) if call['p'].endswith('From::from') else (b, a)
            if x[0] == 'c':
                return one(st, cflt(x[2]))
            return one(st, ('cast', 'f' if frm[0] == 'f' else 'i', 'f' if to[0] == 'f' else 'i', x))
        if 'Option<' in a and not b.startswith('std::option::Option'):
            return one(st, T.some(v))
        if 'bool' in (a, b) and a != b and {a, b} & set(num):
            return [(s, cint(1 if h else 0)) for s, h in e.decide(st, e.val(st, v))]
    if v[0] == 'ref' and re.match(r'std::(string::String|vec::Vec)', to):
        # a value of its own: what is written to it does not go to the place it is made from
        return one(st, e.vderef(st, v))
    return one(st, v)


@model('std::default::Default::default')
def m_default(e, st, args, call):
    t = (call.get('targs') or ('?',))[0]
    own = f"<{t} as std::default::Default>::default"
    if own in e.fns and own not in call['stack']:
        return e.exec_fn(own, [], st, call['stack'])
    return one(st, default_of(e, t))


def default_of(e, t, st=None, call=None):
    own = f"<{t} as std::default::Default>::default"
    if st is not None and own in e.fns and own not in call['stack']:
        r = e.exec_fn(own, [], st.fork(), call['stack'])
        if len(r) == 1:
            return e.val(*r[0])
    if t == 'bool':
        return FALSE
    if t in ('f32', 'f64'):
        return cflt(0.0)
    if re.fullmatch(r'[iu](8|16|32|64|128|size)', t):
        return cint(0)
    if t.startswith('std::option::Option'):
        return T.NONE
    if t.startswith('std::vec::Vec'):
        return ('arr', ())
    if t == 'std::string::String' or t == '&str':
        return cstr('')
    if re.match(r'std::collections::\w+', t) or t.startswith('serde_json::Map'):
        return ('emap',)
    m = re.fullmatch(r'\[(.*); (\d+)\]', t)
    if m:
        return ('arr', tuple(default_of(e, m.group(1)) for _ in range(int(m.group(2)))))
    return ('default', t)


@model('std::prelude::v1::Some', 'std::option::Option::Some')
def m_some(e, st, args, call):
    return one(st, T.some(args[0]))


@model('std::prelude::v1::Ok', 'std::result::Result::Ok')
def m_ok_ctor(e, st, args, call):
    return one(st, T.ok(args[0]))


@model('std::prelude::v1::Err', 'std::result::Result::Err')
def m_err_ctor(e, st, args, call):
    return one(st, T.err(args[0]))


@model('std::vec::Vec::new', 'std::vec::Vec::with_capacity')
def m_vec_new(e, st, args, call):
    return one(st, ('arr', ()))


@model('std::string::String::new', 'std::string::String::with_capacity')
def m_string_new(e, st, args, call):
    return one(st, cstr(''))


@model('std::collections::HashMap::new', 'std::collections::BTreeMap::new', 'std::collections::HashSet::new',
       'std::collections::BTreeSet::new', 'serde_json::Map::new', 'std::collections::HashMap::with_capacity',
       'std::collections::HashSet::with_capacity', 'std::collections::VecDeque::new')
def m_map_new(e, st, args, call):
    return one(st, ('emap',))


@model('std::boxed::Box::new')
def m_box(e, st, args, call):
    return one(st, e.alloc(st, args[0]))


@model('std::boxed::Box::new_uninit')
def m_box_uninit(e, st, args, call):
    return one(st, e.alloc(st, ('undef',)))


@model('std::boxed::box_assume_init_into_vec_unsafe')
def m_box_into_vec(e, st, args, call):
    v = e.deref(st, args[0])
    return one(st, strip_uninit(v))


def uninit(v):
    while v[0] == 'f':
        v = v[1]
    return v == ('undef',)


def strip_uninit(v):
    n = 0
    while v[0] == 'st' and uninit(v[1]) and len(v[2]) == 1 and n < 6:
        v = v[2][0][1]
        n += 1
    while v[0] == 'adt' and v[1].startswith('std::mem') and len(v[3]) == 1:
        v = v[3][0][1]
    return v


@model('std::mem::take')
def m_take(e, st, args, call):
    loc = loc_of(e, st, args[0])
    old = e.val(st, e.read(st, loc))
    ty = (call.get('targs') or ('?',))[0]
    new = default_of(e, ty, st, call)
    e.write(st, loc, new)
    return one(st, old)


@model('std::clone::Clone::clone_from', 'std::borrow::ToOwned::clone_into')
def m_clone_from(e, st, args, call):
    dst, src = args if call['p'].endswith('clone_from') else args[::-1]
    e.write(st, loc_of(e, st, dst), e.vderef(st, src))
    return one(st, UNIT)


@model('std::mem::replace')
def m_replace(e, st, args, call):
    loc = loc_of(e, st, args[0])
    old = e.val(st, e.read(st, loc))
    e.write(st, loc, args[1])
    return one(st, old)


@model('std::mem::swap')
def m_swap(e, st, args, call):
    a, b = loc_of(e, st, args[0]), loc_of(e, st, args[1])
    x, y = e.read(st, a), e.read(st, b)
    e.write(st, a, y)
    e.write(st, b, x)
    return one(st, UNIT)


# ------------------------------------------------------------------ comparisons
@model('std::cmp::PartialEq::eq')
def m_eq(e, st, args, call):
    return one(st, eq_terms(e.vderef(st, args[0]), e.vderef(st, args[1])))


@model('std::cmp::PartialEq::ne')
def m_ne(e, st, args, call):
    return one(st, T.op('not', eq_terms(e.vderef(st, args[0]), e.vderef(st, args[1]))))


@model('std::str::{str}::eq_ignore_ascii_case')
def m_eqi(e, st, args, call):
    return one(st, ('op', 'eq_nocase', e.vderef(st, args[0]), e.vderef(st, args[1])))


def eq_terms(a, b):
    # comparing with an empty string/vector is a length test
    for x, y in ((a, b), (b, a)):
        if x == ('arr', ()) and y[0] != 'arr':
            return T.mk_eq(T.length(y), cint(0))
    return T.mk_eq(a, b)


@model('std::cmp::PartialOrd::le', 'std::cmp::PartialOrd::lt', 'std::cmp::PartialOrd::ge', 'std::cmp::PartialOrd::gt')
def m_ord(e, st, args, call):
    if any('log::Level' in t for t in (call.get('targs') or ())) or any('log::Level' in t for t in call.get('at', ())):
        return one(st, FALSE)
    n = call['p'].rsplit('::', 1)[-1]
    return one(st, T.op(n, e.vderef(st, args[0]), e.vderef(st, args[1])))


@model('log::max_level')
def m_maxlevel(e, st, args, call):
    return one(st, ('s', 'max_level'))


@model('log::__private_api::log', 'log::__private_api::loc', 'log::__private_api::enabled')
def m_log(e, st, args, call):
    return one(st, UNIT)


def m_num2(name):
    def f(e, st, args, call):
        return one(st, T.op(name, e.vderef(st, args[0]), e.vderef(st, args[1])))
    return f


for ty in ('f32', 'f64', 'usize', 'i32', 'u32', 'u16', 'u8', 'isize', 'u64', 'i64'):
    for k in ('max', 'min'):
        EXACT[f'std::{ty}::{{{ty}}}::{k}'] = m_num2(k)
        EXACT[f'std::num::{{{ty}}}::{k}'] = m_num2(k)
EXACT['std::cmp::Ord::min'] = m_num2('min')
EXACT['std::cmp::Ord::max'] = m_num2('max')
EXACT['std::cmp::min'] = m_num2('min')
EXACT['std::cmp::max'] = m_num2('max')


@model('std::f32::{f32}::clamp', 'std::cmp::Ord::clamp', 'std::f64::{f64}::clamp')
def m_clamp(e, st, args, call):
    x, lo, hi = [e.vderef(st, a) for a in args]
    return one(st, T.op('min', T.op('max', x, lo), hi))


def m_num1(name):
    def f(e, st, args, call):
        x = e.vderef(st, args[0])
        return one(st, ('op', name, x))
    return f


for ty in ('f32', 'f64'):
    for k in ('floor', 'ceil', 'round', 'trunc', 'abs', 'signum', 'sqrt', 'to_radians', 'to_degrees', 'fract', 'sin',
              'cos', 'tan', 'exp', 'ln'):
        EXACT[f'std::{ty}::{{{ty}}}::{k}'] = m_num1(k)
    for k in ('is_sign_negative', 'is_sign_positive'):
        EXACT[f'std::{ty}::{{{ty}}}::{k}'] = m_num1(k)
    # the numbers of the analysis are finite
    for k in ('is_nan', 'is_infinite'):
        EXACT[f'std::{ty}::{{{ty}}}::{k}'] = lambda e, st, a, c: one(st, FALSE)
    EXACT[f'std::{ty}::{{{ty}}}::is_finite'] = lambda e, st, a, c: one(st, TRUE)
    for k in ('powf', 'powi', 'rem_euclid', 'atan2', 'total_cmp'):
        EXACT[f'std::{ty}::{{{ty}}}::{k}'] = m_num2(k)
    EXACT[f'std::{ty}::{{{ty}}}::signum'] = lambda e, st, a, c: one(st, T.signum(e.vderef(st, a[0])))
    EXACT[f'std::{ty}::{{{ty}}}::copysign'] = lambda e, st, a, c: one(
        st, T.op('mul', T.op('abs', e.vderef(st, a[0])), T.signum(e.vderef(st, a[1]))))
    EXACT[f'std::{ty}::{{{ty}}}::mul_add'] = lambda e, st, a, c: one(
        st, T.op('add', T.op('mul', e.vderef(st, a[0]), e.vderef(st, a[1])), e.vderef(st, a[2])))


@model('std::num::{usize}::saturating_sub', 'std::num::{u32}::saturating_sub')
def m_satsub(e, st, args, call):
    a, b = e.vderef(st, args[0]), e.vderef(st, args[1])
    if b == cint(0):
        return one(st, a)
    return [(s, cint(0) if less else T.op('sub', a, b)) for s, less in e.decide(st, T.op('lt', a, b))]


@model('std::num::{usize}::checked_sub', 'std::num::{usize}::checked_add')
def m_checked(e, st, args, call):
    a, b = e.vderef(st, args[0]), e.vderef(st, args[1])
    n = call['p'].rsplit('_', 1)[-1]
    out = []
    c = T.op('lt', a, b) if n == 'sub' else FALSE
    for s, r in e.decide(st, c):
        out.append((s, T.NONE if r else T.some(T.op(n, a, b))))
    return out


@model('std::ops::Add::add', 'std::ops::Sub::sub', 'std::ops::Mul::mul', 'std::ops::Div::div', 'std::ops::Rem::rem')
def m_arith(e, st, args, call):
    n = call['p'].rsplit('::', 1)[-1]
    a, b = e.vderef(st, args[0]), e.vderef(st, args[1])
    ta = call.get('targs') or ('',)
    g = re.match(r'taffy::(?:\w+::)*(Point|Size|Rect)<', ta[0])
    if g and len(ta) > 1 and strip_head(ta[1]) == strip_head(ta[0]) and n in ('add', 'sub'):
        fs = {'Point': ('x', 'y'), 'Size': ('width', 'height'), 'Rect': ('left', 'right', 'top', 'bottom')}[g.group(1)]
        return one(st, T.adt('taffy::' + g.group(1), g.group(1), tuple((x, T.op(n, T.field(a, x), T.field(b, x))) for x in fs)))
    if n == 'add' and ta[0] == 'std::string::String':
        return one(st, T.strcat([a, b]))
    return one(st, T.op(n, a, b))


def strip_head(t):
    return t.split('<', 1)[0].rsplit('::', 1)[-1]


@model('std::ops::AddAssign::add_assign', 'std::ops::SubAssign::sub_assign', 'std::ops::MulAssign::mul_assign')
def m_arith_assign(e, st, args, call):
    n = call['p'].rsplit('::', 1)[-1].split('_')[0]
    loc = loc_of(e, st, args[0])
    old = e.val(st, e.read(st, loc))
    b = e.vderef(st, args[1])
    t = (call.get('targs') or ('',))[0]
    new = T.strcat([old, b]) if 'String' in t else T.op(n, old, b)
    e.write(st, loc, new)
    return one(st, UNIT)


@model('std::ops::Neg::neg')
def m_neg(e, st, args, call):
    return one(st, T.op('neg', e.vderef(st, args[0])))


@model('std::ops::Not::not')
def m_not(e, st, args, call):
    return one(st, T.op('not', e.vderef(st, args[0])))


# ------------------------------------------------------------------ ? operator
@model('std::ops::Try::branch')
def m_branch(e, st, args, call):
    v = e.val(st, args[0]) if args[0][0] == 'ref' else args[0]
    ty = (call.get('targs') or call.get('at') or ('',))[0]
    out = []
    if ty.startswith('std::option::Option'):
        for s, x in e.fork_variant(st, v, ['None', 'Some']):
            out.append((s, T.adt(CF, 'Continue', (('0', payload(v, 'Some')),)) if x == 'Some'
                        else T.adt(CF, 'Break', (('0', T.NONE),))))
        return out
    for s, x in e.fork_variant(st, v, ['Ok', 'Err']):
        out.append((s, T.adt(CF, 'Continue', (('0', payload(v, 'Ok')),)) if x == 'Ok'
                    else T.adt(CF, 'Break', (('0', T.err(payload(v, 'Err'))),))))
    return out


@model('std::ops::FromResidual::from_residual')
def m_residual(e, st, args, call):
    v = args[0]
    if v[0] == 'adt' and v[2] in ('Err', 'None'):
        return one(st, v)
    return one(st, T.err(payload(v, 'Err')))


# ------------------------------------------------------------------ Option / Result
def O(name, *more):
    return model(*[f'std::option::Option::{n}' for n in (name,) + more])


@O('is_some')
def o_is_some(e, st, args, call):
    v = e.vderef(st, args[0])
    return one(st, isv(v, 'Some'))


@O('is_none')
def o_is_none(e, st, args, call):
    return one(st, T.op('not', isv(e.vderef(st, args[0]), 'Some')))


@model('std::result::Result::is_ok')
def r_is_ok(e, st, args, call):
    return one(st, isv(e.vderef(st, args[0]), 'Ok'))


@model('std::result::Result::is_err')
def r_is_err(e, st, args, call):
    return one(st, T.op('not', isv(e.vderef(st, args[0]), 'Ok')))


def isv(v, n):
    k = T.variant_of(v)
    if k is not None:
        return ('c', 'bool', k == n)
    return ('isv', v, n)


@O('as_ref', 'as_mut')
def o_as_ref(e, st, args, call):
    return ref_option(e, st, args[0], 'Some', OPT)


@model('std::result::Result::as_ref', 'std::result::Result::as_mut')
def r_as_ref(e, st, args, call):
    return ref_option(e, st, args[0], 'Ok', RES)


def ref_option(e, st, a, good, ty):
    loc = loc_of(e, st, a)
    v = e.val(st, e.read(st, loc))
    other = 'None' if ty == OPT else 'Err'
    out = []
    for s, x in e.fork_variant(st, v, [other, good]):
        if x == other and ty == OPT:
            out.append((s, T.NONE))
            continue
        root, proj = loc
        p = (root, proj + (('v', x), ('f', '0')))
        cur = e.read(s, p)
        r = ('ref', p) if root[0] != 'O' or ('O', cur) not in s.mem else cur
        if root[0] == 'O' and not is_modified(e, s, loc):
            r = cur if cur[0] != 'c' else ('ref', p)
            r = ('ref', p)
        out.append((s, T.adt(ty, x, (('0', r),))))
    return out


def is_modified(e, st, loc):
    return loc[0] in st.mem


def mapper(ty, on, keep):
    def f(e, st, args, call):
        v = opt_value(e, st, args[0])
        out = []
        other = {'Some': 'None', 'None': 'Some', 'Ok': 'Err', 'Err': 'Ok'}[on]
        for s, x in e.fork_variant(st, v, [on, other]):
            if x == on:
                for s2, r in e.apply(s, args[1], [payload(v, on)], call):
                    out.append((s2, T.adt(ty, on, (('0', r),))))
            else:
                out.append((s, T.NONE if other == 'None' else T.adt(ty, other, (('0', payload(v, other)),))))
        return out
    return f


EXACT['std::option::Option::map'] = mapper(OPT, 'Some', None)
EXACT['std::result::Result::map'] = mapper(RES, 'Ok', None)
EXACT['std::result::Result::map_err'] = mapper(RES, 'Err', None)


@O('and_then')
def o_and_then(e, st, args, call):
    v = opt_value(e, st, args[0])
    out = []
    for s, x in opt_variants(e, st, v):
        if x == 'Some':
            out.extend(e.apply(s, args[1], [payload(v, 'Some')], call))
        else:
            out.append((s, T.NONE))
    return out


@model('std::result::Result::and_then')
def r_and_then(e, st, args, call):
    v = opt_value(e, st, args[0])
    out = []
    for s, x in e.fork_variant(st, v, ['Ok', 'Err']):
        if x == 'Ok':
            out.extend(e.apply(s, args[1], [payload(v, 'Ok')], call))
        else:
            out.append((s, T.err(payload(v, 'Err'))))
    return out


@O('filter')
def o_filter(e, st, args, call):
    v = opt_value(e, st, args[0])
    out = []
    for s, x in opt_variants(e, st, v):
        if x == 'None':
            out.append((s, T.NONE))
            continue
        r = e.alloc(s, payload(v, 'Some'))
        for s2, b in e.apply(s, args[1], [r], call):
            for s3, k in e.decide(s2, e.val(s2, b)):
                out.append((s3, T.some(payload(v, 'Some')) if k else T.NONE))
    return out


@O('is_some_and', 'is_none_or')
def o_is_some_and(e, st, args, call):
    v = opt_value(e, st, args[0])
    none = FALSE if call['p'].endswith('is_some_and') else TRUE
    out = []
    for s, x in opt_variants(e, st, v):
        if x == 'None':
            out.append((s, none))
        else:
            out.extend(e.apply(s, args[1], [payload(v, 'Some')], call))
    return out


@model('std::result::Result::is_ok_and')
def r_is_ok_and(e, st, args, call):
    v = opt_value(e, st, args[0])
    out = []
    for s, x in e.fork_variant(st, v, ['Ok', 'Err']):
        if x == 'Err':
            out.append((s, FALSE))
        else:
            out.extend(e.apply(s, args[1], [payload(v, 'Ok')], call))
    return out


@O('map_or')
def o_map_or(e, st, args, call):
    v = opt_value(e, st, args[0])
    out = []
    for s, x in opt_variants(e, st, v):
        if x == 'None':
            out.append((s, args[1]))
        else:
            out.extend(e.apply(s, args[2], [payload(v, 'Some')], call))
    return out


@O('map_or_else')
def o_map_or_else(e, st, args, call):
    v = opt_value(e, st, args[0])
    out = []
    for s, x in opt_variants(e, st, v):
        if x == 'None':
            out.extend(e.apply(s, args[1], [], call))
        else:
            out.extend(e.apply(s, args[2], [payload(v, 'Some')], call))
    return out


@O('ok_or')
def o_ok_or(e, st, args, call):
    v = opt_value(e, st, args[0])
    return [(s, T.ok(payload(v, 'Some')) if x == 'Some' else T.err(args[1])) for s, x in opt_variants(e, st, v)]


@O('ok_or_else')
def o_ok_or_else(e, st, args, call):
    v = opt_value(e, st, args[0])
    out = []
    for s, x in opt_variants(e, st, v):
        if x == 'Some':
            out.append((s, T.ok(payload(v, 'Some'))))
        else:
            out.extend((s2, T.err(r)) for s2, r in e.apply(s, args[1], [], call))
    return out


@model('std::result::Result::ok')
def r_ok(e, st, args, call):
    v = opt_value(e, st, args[0])
    return [(s, T.some(payload(v, 'Ok')) if x == 'Ok' else T.NONE) for s, x in e.fork_variant(st, v, ['Ok', 'Err'])]


@model('std::result::Result::err')
def r_err(e, st, args, call):
    v = opt_value(e, st, args[0])
    return [(s, T.some(payload(v, 'Err')) if x == 'Err' else T.NONE) for s, x in e.fork_variant(st, v, ['Ok', 'Err'])]


@O('unwrap', 'expect')
def o_unwrap(e, st, args, call):
    v = opt_value(e, st, args[0])
    out = []
    for s, x in opt_variants(e, st, v):
        if x == 'Some':
            out.append((s, payload(v, 'Some')))
        else:
            e.panic(s, 'unwrap on None', call)
    return out


@model('std::result::Result::unwrap', 'std::result::Result::expect')
def r_unwrap(e, st, args, call):
    v = opt_value(e, st, args[0])
    out = []
    for s, x in e.fork_variant(st, v, ['Ok', 'Err']):
        if x == 'Ok':
            out.append((s, payload(v, 'Ok')))
        else:
            e.panic(s, 'unwrap on Err', call)
    return out


@O('unwrap_or')
def o_unwrap_or(e, st, args, call):
    v = opt_value(e, st, args[0])
    return [(s, payload(v, 'Some') if x == 'Some' else args[1]) for s, x in opt_variants(e, st, v)]


@model('std::result::Result::unwrap_or')
def r_unwrap_or(e, st, args, call):
    v = opt_value(e, st, args[0])
    return [(s, payload(v, 'Ok') if x == 'Ok' else args[1]) for s, x in e.fork_variant(st, v, ['Ok', 'Err'])]


@O('unwrap_or_else')
def o_unwrap_or_else(e, st, args, call):
    v = opt_value(e, st, args[0])
    out = []
    for s, x in opt_variants(e, st, v):
        if x == 'Some':
            out.append((s, payload(v, 'Some')))
        else:
            out.extend(e.apply(s, args[1], [], call))
    return out


@model('std::result::Result::unwrap_or_else')
def r_unwrap_or_else(e, st, args, call):
    v = opt_value(e, st, args[0])
    out = []
    for s, x in e.fork_variant(st, v, ['Ok', 'Err']):
        if x == 'Ok':
            out.append((s, payload(v, 'Ok')))
        else:
            out.extend(e.apply(s, args[1], [payload(v, 'Err')], call))
    return out


@O('unwrap_or_default')
def o_unwrap_or_default(e, st, args, call):
    v = opt_value(e, st, args[0])
    t = (call.get('targs') or ('?',))[0]
    return [(s, payload(v, 'Some') if x == 'Some' else default_of(e, t, s, call)) for s, x in opt_variants(e, st, v)]


@model('std::result::Result::unwrap_or_default')
def r_unwrap_or_default(e, st, args, call):
    v = opt_value(e, st, args[0])
    t = (call.get('targs') or ('?',))[0]
    return [(s, payload(v, 'Ok') if x == 'Ok' else default_of(e, t, s, call)) for s, x in e.fork_variant(st, v, ['Ok', 'Err'])]


@O('or')
def o_or(e, st, args, call):
    v = opt_value(e, st, args[0])
    return [(s, v if x == 'Some' else args[1]) for s, x in opt_variants(e, st, v)]


@O('or_else')
def o_or_else(e, st, args, call):
    v = opt_value(e, st, args[0])
    out = []
    for s, x in opt_variants(e, st, v):
        if x == 'Some':
            out.append((s, v))
        else:
            out.extend(e.apply(s, args[1], [], call))
    return out


@O('take')
def o_take(e, st, args, call):
    loc = loc_of(e, st, args[0])
    old = e.val(st, e.read(st, loc))
    e.write(st, loc, T.NONE)
    return one(st, old)


@O('replace', 'insert')
def o_replace(e, st, args, call):
    loc = loc_of(e, st, args[0])
    old = e.val(st, e.read(st, loc))
    e.write(st, loc, T.some(args[1]))
    return one(st, old)


@O('flatten')
def o_flatten(e, st, args, call):
    v = opt_value(e, st, args[0])
    return [(s, payload(v, 'Some') if x == 'Some' else T.NONE) for s, x in opt_variants(e, st, v)]


@O('zip')
def o_zip(e, st, args, call):
    out = []
    a, b = opt_value(e, st, args[0]), opt_value(e, st, args[1])
    for s, x in opt_variants(e, st, a):
        if x == 'None':
            out.append((s, T.NONE))
            continue
        for s2, y in opt_variants(e, s, b):
            out.append((s2, T.some(('tup', (payload(a, 'Some'), payload(b, 'Some')))) if y == 'Some' else T.NONE))
    return out


# ------------------------------------------------------------------ strings / formatting
@model('std::string::ToString::to_string')
def m_to_string(e, st, args, call):
    v = e.vderef(st, args[0])
    t = (call.get('targs') or call.get('at') or ('',))[0]
    return display(e, st, v, t, args[0], call)


def display(e, st, v, t, raw, call, as_part=False):
    t = t.lstrip('&').replace('mut ', '')
    if t in ('str', 'std::string::String', 'char') or 'Cow<' in t:
        return one(st, v)
    name = f"<{t} as std::fmt::Display>::fmt"
    loc = [n for n in e.fns if n.endswith(' as std::fmt::Display>::fmt') and strip(n[1:].split(' as ')[0]) == strip(t)]
    if loc and not e.is_opaque(loc[0]):
        buf = e.alloc(st, cstr(''))
        out = []
        for s, r in e.exec_fn(loc[0], [raw, buf], st, call['stack']):
            out.append((s, e.deref(s, buf)))
        return out
    return one(st, T.disp(v))


def strip(t):
    import absint
    return absint.strip_ty(t)


@model('std::fmt::Formatter::write_str')
def m_write_str(e, st, args, call):
    loc = loc_of(e, st, args[0])
    e.write(st, loc, T.strcat([e.read(st, loc), e.vderef(st, args[1])]), silent=True)
    return one(st, T.ok(UNIT))


@model('std::fmt::Formatter::write_fmt', 'std::fmt::Write::write_fmt')
def m_write_fmt(e, st, args, call):
    loc = loc_of(e, st, args[0])
    e.write(st, loc, T.strcat([e.read(st, loc), e.val(st, args[1])]), silent=loc[0][0] != 'O')
    return one(st, T.ok(UNIT))


@model('std::fmt::rt::Argument::new_display')
def m_arg_display(e, st, args, call):
    v = e.vderef(st, args[0])
    t = (call.get('targs') or call.get('at') or ('',))[0]
    return display(e, st, v, t, args[0], call)


@model('std::fmt::rt::Argument::new_debug')
def m_arg_debug(e, st, args, call):
    v = e.vderef(st, args[0])
    return one(st, ('fmtdbg', v))


@model('std::fmt::Arguments::new')
def m_fmt_new(e, st, args, call):
    t = e.vderef(st, args[0])
    a = e.vderef(st, args[1])
    parts = []
    if t[0] != 'c' or t[1] not in ('bytes', 'str') or a[0] != 'arr':
        return one(st, ('fmt', t, a))
    b = t[2]
    i = 0
    k = 0
    while i < len(b):
        x = b[i]
        if x == 0:
            break
        if x == 0xC0:
            parts.append(a[1][k])
            k += 1
            i += 1
        elif x < 0x80:
            parts.append(cstr(bytes(b[i + 1:i + 1 + x]).decode('utf8', 'replace')))
            i += 1 + x
        elif x == 0x80:
            n = b[i + 1] | (b[i + 2] << 8)
            parts.append(cstr(bytes(b[i + 3:i + 3 + n]).decode('utf8', 'replace')))
            i += 3 + n
        else:
            # formatting options (width, precision, explicit argument index): keep them visible
            return one(st, ('fmtopt', tuple(b), a))
    return one(st, T.strcat(parts))


@model('std::fmt::Arguments::from_str', 'std::fmt::Arguments::new_const', 'std::fmt::Arguments::from_str_nonconst')
def m_fmt_str(e, st, args, call):
    return one(st, e.vderef(st, args[0]))


@model('std::fmt::format')
def m_format(e, st, args, call):
    return one(st, e.val(st, args[0]))


@model('std::string::String::push_str', 'std::string::String::push')
def m_push_str(e, st, args, call):
    loc = loc_of(e, st, args[0])
    new = T.strcat([e.val(st, e.read(st, loc)), e.vderef(st, args[1])])
    e.write(st, loc, new)
    return one(st, UNIT)


def is_empty(e, st, args, call):
    v = e.vderef(st, args[0])
    if v == ('emap',):
        return one(st, TRUE)
    return one(st, T.mk_eq(T.length(v), cint(0)))


def m_len(e, st, args, call):
    v = e.vderef(st, args[0])
    if v == ('emap',):
        return one(st, cint(0))
    if v[0] == 'it':
        v = it_desc(e, st, v)
    return one(st, T.length(v))


for _n in ('std::string::String', 'std::str::{str}', 'std::vec::Vec', 'std::slice::{[T]}', 'std::collections::HashMap',
           'std::collections::HashSet', 'std::collections::BTreeMap', 'serde_json::Map',
           'std::iter::ExactSizeIterator', 'pest::iterators::Pairs'):
    EXACT[_n + '::is_empty'] = is_empty
    EXACT[_n + '::len'] = m_len


def str_pred(name):
    def f(e, st, args, call):
        a, b = e.vderef(st, args[0]), e.vderef(st, args[1])
        if a[0] == 'c' and b[0] == 'c':
            r = {'starts_with': a[2].startswith(b[2]), 'ends_with': a[2].endswith(b[2]), 'contains': b[2] in a[2]}[name]
            return one(st, ('c', 'bool', r))
        return one(st, ('op', 'str_' + name, a, b))
    return f


for _k in ('starts_with', 'ends_with', 'contains'):
    EXACT['std::str::{str}::' + _k] = str_pred(_k)


def str_fn(name):
    def f(e, st, args, call):
        a = tuple(e.vderef(st, x) for x in args)
        if name in ('trim', 'trim_start', 'trim_end', 'to_lowercase', 'to_uppercase') and a[0][0] == 'c':
            s = a[0][2]
            r = {'trim': s.strip, 'trim_start': s.lstrip, 'trim_end': s.rstrip, 'to_lowercase': s.lower,
                 'to_uppercase': s.upper}[name]()
            return one(st, cstr(r))
        if name == 'trim' or name == 'trim_start' and a[0][0] == 'op' and a[0][1] == 'str_trim_end':
            pass
        return one(st, ('op', 'str_' + name) + a)
    return f


for _k in ('trim', 'trim_start', 'trim_end', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'parse', 'replace',
           'repeat', 'strip_prefix', 'strip_suffix', 'find', 'rfind', 'split_once', 'trim_matches',
           'trim_start_matches', 'trim_end_matches', 'split_at', 'get'):
    EXACT['std::str::{str}::' + _k] = str_fn(_k)
EXACT['std::str::{str}::parse'] = lambda e, st, args, call: one(
    st, ('op', 'str_parse', e.vderef(st, args[0]), cstr((call.get('targs') or ('?',))[0])))
EXACT['std::str::FromStr::from_str'] = EXACT['std::str::{str}::parse']


@model('std::num::{u8}::from_str_radix', 'std::num::{u32}::from_str_radix')
def m_radix(e, st, args, call):
    return one(st, ('op', 'str_radix', e.vderef(st, args[0]), e.vderef(st, args[1]),
                    cstr(re.search(r'u\d+', call['p']).group(0))))


@model('std::slice::{[T]}::join', 'std::slice::{[T]}::concat')
def m_join(e, st, args, call):
    v = e.vderef(st, args[0])
    sep = e.vderef(st, args[1]) if len(args) > 1 else cstr('')
    if v[0] == 'arr':
        parts = []
        for i, x in enumerate(v[1]):
            if i:
                parts.append(sep)
            parts.append(x)
        return one(st, T.strcat(parts))
    return one(st, ('op', 'join', v, sep))


@model('std::time::Duration::as_secs_f32')
def m_secs(e, st, args, call):
    return one(st, ('op', 'secs', e.vderef(st, args[0])))


for _k in ('from_secs_f64', 'from_micros', 'from_secs_f32', 'from_millis', 'from_secs', 'try_from_secs_f64',
           'try_from_secs_f32', 'as_secs_f64', 'as_millis'):
    EXACT['std::time::Duration::' + _k] = (lambda k: lambda e, st, args, call: one(
        st, ('op', 'duration_' + k) + tuple(e.vderef(st, a) for a in args)))(_k)


# ------------------------------------------------------------------ metrics: no observable meaning here
for _n in ('mesura::Counter::add', 'mesura::Counter::inc', 'mesura::GaugeValue::set', 'mesura::Gauge::inc'):
    EXACT[_n] = lambda e, st, args, call: one(st, UNIT)


# ------------------------------------------------------------------ Vec / slices
@model('std::vec::Vec::push', 'std::collections::VecDeque::push_back')
def v_push(e, st, args, call):
    loc = loc_of(e, st, args[0])
    old = e.read(st, loc)
    x = args[1]
    if old[0] == 'arr':
        new = ('arr', old[1] + (x,))
    else:
        new = ('m', 'push', e.val(st, old), (e.val(st, x),))
    e.write(st, loc, new, silent=True)
    st.emit('mut', e.place_term(loc), 'push', (e.val(st, x),))
    return one(st, UNIT)


@model('std::vec::Vec::pop')
def v_pop(e, st, args, call):
    loc = loc_of(e, st, args[0])
    old = e.read(st, loc)
    if old[0] == 'arr':
        if not old[1]:
            return one(st, T.NONE)
        e.write(st, loc, ('arr', old[1][:-1]), silent=True)
        st.emit('mut', e.place_term(loc), 'pop', ())
        return one(st, T.some(old[1][-1]))
    v = e.val(st, old)
    out = []
    if v[:2] == ('m', 'push'):
        e.write(st, loc, v[2], silent=True)
        st.emit('mut', e.place_term(loc), 'pop', ())
        return one(st, T.some(v[3][0]))
    for s, b in e.decide(st, T.mk_eq(T.length(v), cint(0))):
        if b:
            out.append((s, T.NONE))
            continue
        e.write(s, loc, ('m', 'pop', v, ()), silent=True)
        s.emit('mut', e.place_term(loc), 'pop', ())
        out.append((s, T.some(T.index(v, last_of(s, v)))))
    return out


def last_of(st, v):
    """The index of the last element."""
    n = st.facts.get(T.length(v))
    if n is not None and n[0] == 'eq' and n[1][0] == 'c':
        return cint(int(n[1][2]) - 1)
    return T.op('sub', T.length(v), cint(1))


@model('std::slice::{[T]}::split_first', 'core::slice::<impl [T]>::split_first')
def s_split_first(e, st, args, call):
    v = e.vderef(st, args[0])
    out = []
    for s, b in e.decide(st, T.mk_eq(T.length(v), cint(0))):
        rest = ('slice', v, cint(1), T.length(v))
        out.append((s, T.NONE if b else T.some(('tup', (T.index(v, cint(0)), rest)))))
    return out


@model('std::vec::Vec::clear', 'std::collections::HashMap::clear', 'std::collections::HashSet::clear',
       'std::string::String::clear')
def v_clear(e, st, args, call):
    t = call['p']
    new = ('arr', ()) if 'Vec' in t else cstr('') if 'String' in t else ('emap',)
    loc = loc_of(e, st, args[0])
    if 'String' in t:
        e.write(st, loc, new)
        return one(st, UNIT)
    e.write(st, loc, new, silent=True)
    st.emit('mut', e.place_term(loc), 'clear', ())
    return one(st, UNIT)


def vec_op(name, n=None):
    def f(e, st, args, call):
        mutate(e, st, args[0], name, args[1:])
        return one(st, UNIT)
    return f


for _k in ('insert', 'truncate', 'dedup', 'swap', 'sort', 'reverse',
           'resize_with', 'fill', 'sort_by', 'sort_by_key'):
    EXACT['std::vec::Vec::' + _k] = vec_op(_k)
    EXACT['std::slice::{[T]}::' + _k] = vec_op(_k)


@model('std::vec::Vec::drain', 'std::vec::Vec::split_off')
def v_drain(e, st, args, call):
    i = e.val(st, args[1])
    off = call['p'].endswith('split_off')
    out = (lambda v: v) if off else (lambda v: mk_it('own', v))
    if not off and i[0] == 'adt' and i[1].endswith('RangeFull'):
        old = e.val(st, e.read(st, loc_of(e, st, args[0])))
        v_clear(e, st, args[:1], dict(call, p='std::vec::Vec::clear'))
        return one(st, out(old))
    if off or i[0] == 'adt' and i[1].endswith('RangeFrom'):
        n = i if off else T.field(i, 'start')
        old = e.val(st, e.read(st, loc_of(e, st, args[0])))
        within(e, st, T.op('le', n, T.length(old)), 'range out of bounds', call)
        mutate(e, st, args[0], 'truncate', (n,))
        return one(st, out(('slice', old, n, T.length(old)) if n != cint(0) else old))
    return one(st, ('m', 'drained', mutate(e, st, args[0], 'drain', args[1:]), (i,)))


@model('std::vec::Vec::remove', 'std::vec::Vec::swap_remove')
def v_remove(e, st, args, call):
    old = mutate(e, st, args[0], call['p'].rsplit('::', 1)[-1], args[1:])
    return one(st, T.index(e.val(st, old), e.vderef(st, args[1])))


@model('std::vec::Vec::resize_with')
def v_resize_with(e, st, args, call):
    e.record += 1
    try:
        s = st.fork()
        ev = s.ev
        outs = e.apply(s, args[2], [], call)
        same = len(outs) == 1 and outs[0][0].ev is ev and e.val(outs[0][0], outs[0][1])
    finally:
        e.record -= 1
    if same:
        return v_resize(e, st, [args[0], args[1], same], call)
    mutate(e, st, args[0], 'resize_with', args[1:])
    return one(st, UNIT)


@model('std::vec::Vec::resize')
def v_resize(e, st, args, call):
    loc = loc_of(e, st, args[0])
    old = e.read(st, loc)
    n = e.vderef(st, args[1])
    if old[0] == 'arr' and n[0] == 'c':
        k = n[2]
        l = list(old[1])[:k] + [args[2]] * max(0, k - len(old[1]))
        new = ('arr', tuple(l))
    elif old == ('arr', ()):
        new = ('filled', n, e.val(st, args[2]))
    else:
        new = ('m', 'resize', e.val(st, old), (n, e.val(st, args[2])))
    e.write(st, loc, new, silent=True)
    st.emit('mut', e.place_term(loc), 'resize', (n, e.val(st, args[2])))
    return one(st, UNIT)


@model('std::vec::from_elem')
def v_from_elem(e, st, args, call):
    n = e.vderef(st, args[1])
    if n[0] == 'c' and n[2] <= 64:
        return one(st, ('arr', tuple([args[0]] * n[2])))
    return one(st, ('filled', n, e.val(st, args[0])))


@model('std::slice::{[T]}::contains')
def s_contains(e, st, args, call):
    v, x = e.vderef(st, args[0]), e.vderef(st, args[1])
    if v[0] == 'arr':
        return one(st, T.op('or', *[T.mk_eq(y, x) for y in v[1]]) if v[1] else FALSE)
    return one(st, ('isv', ('posof', v, x), 'Some'))


@model('std::slice::{[T]}::get', 'std::slice::{[T]}::get_mut')
def s_get(e, st, args, call):
    loc = loc_of(e, st, args[0])
    cur = e.read(st, loc)
    i = e.vderef(st, args[1])
    if i[0] in ('adt', 'range'):
        return one(st, ('op', 'getrange', e.val(st, cur), i))
    if cur[0] == 'arr' and i[0] == 'c':
        if i[2] < len(cur[1]):
            return one(st, T.some(('ref', (loc[0], loc[1] + (('i', i),)))))
        return one(st, T.NONE)
    v = e.val(st, cur)
    out = []
    t = T.op('lt', i, T.length(v))
    for s, b in e.decide(st, t):
        if b:
            el = T.index(v, i)
            out.append((s, T.some(('ref', (loc[0], loc[1] + (('i', i),))) if loc[0][0] != 'O' or loc[0] in s.mem or
                                  call['p'].endswith('_mut') else el)))
        else:
            out.append((s, T.NONE))
    return out


@model('std::slice::{[T]}::first', 'std::slice::{[T]}::last', 'std::slice::{[T]}::first_mut', 'std::slice::{[T]}::last_mut')
def s_first(e, st, args, call):
    loc = loc_of(e, st, args[0])
    cur = e.read(st, loc)
    isfirst = 'first' in call['p']
    if cur[0] == 'arr':
        if not cur[1]:
            return one(st, T.NONE)
        return one(st, T.some(('ref', (loc[0], loc[1] + (('i', cint(0 if isfirst else len(cur[1]) - 1)),)))))
    v = e.val(st, cur)
    out = []
    for s, b in e.decide(st, T.mk_eq(T.length(v), cint(0))):
        if b:
            out.append((s, T.NONE))
        else:
            i = cint(0) if isfirst else last_of(s, v)
            out.append((s, T.some(T.index(v, i))))
    return out


def index_loc(e, st, a, i):
    loc = loc_of(e, st, a)
    cur = e.read(st, loc)
    if cur[0] == 'collect' and i[0] in ('idx',):
        pass
    return ('ref', (loc[0], loc[1] + (('i', i),)))


def within(e, st, cond, what, call):
    """A condition which stops the program when it does not hold."""
    if e.strict and not e.record:
        for s, b in e.decide(st, cond):
            if not b:
                e.panic(s, what, call)


@model('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
def m_index(e, st, args, call):
    i = e.vderef(st, args[1])
    t = (call.get('targs') or call.get('at') or ('',))[0]
    if 'Map' in t:
        v = e.vderef(st, args[0])
        g = map_get(v, i)
        out = []
        for s, x in e.fork_variant(st, g, ['Some', 'None']):
            if x == 'Some':
                out.append((s, payload(g, 'Some')))
            else:
                e.panic(s, 'missing key', call)
        return out
    if t.startswith('serde_json::Value'):
        return one(st, ('jindex', e.vderef(st, args[0]), i))
    if i[0] == 'adt' and 'Range' in i[1]:
        v = e.vderef(st, args[0])
        lo = T.field(i, 'start') if i[2] in ('Range', 'RangeFrom', 'RangeInclusive') else cint(0)
        hi = T.field(i, 'end') if i[2] in ('Range', 'RangeTo') else \
            T.op('add', T.field(i, 'last' if T.field(i, 'last')[0] != 'f' else 'end'), cint(1)) \
            if i[2] in ('RangeInclusive', 'RangeToInclusive') else T.length(v)
        if v[0] == 'arr' and lo[0] == 'c' and hi[0] == 'c':
            return one(st, ('arr', v[1][lo[2]:hi[2]]))
        if v[0] == 'c' and v[1] == 'str' and lo[0] == 'c' and hi[0] == 'c':
            return one(st, cstr(v[2][lo[2]:hi[2]]))
        if lo == cint(0) and hi == T.length(v):
            return one(st, v)
        within(e, st, T.op('and', T.op('le', lo, hi), T.op('le', hi, T.length(v))), 'range out of bounds', call)
        if 'str' in t.split('::')[-1].lower():
            within(e, st, T.op('and', ('op', 'boundary', v, lo), ('op', 'boundary', v, hi)), 'not a character boundary', call)
        return one(st, ('slice', v, lo, hi))
    if not e.record:
        v = e.val(st, e.read(st, loc_of(e, st, args[0])))
        if v[0] == 'arr' and i[0] == 'c':
            if i[2] >= len(v[1]):
                return e.panic(st, 'index out of bounds', call)
        else:
            e.asserts.append((e.where(call), 'index', T.op('lt', i, T.length(v)), call['sp']))
            within(e, st, T.op('lt', i, T.length(v)), 'index out of bounds', call)
    return one(st, index_loc(e, st, args[0], i))


@model('std::slice::{[T]}::swap_with_slice')
def _never(e, st, args, call):
    return one(st, UNIT)


@model('std::iter::Extend::extend')
def m_extend(e, st, args, call):
    it = as_iter(e, st, args[1], call)
    loc = loc_of(e, st, args[0])
    cur = e.read(st, loc)
    items = it_concrete_items(e, st, it, call)
    if items is not None and cur[0] == 'arr':
        s2, xs = items
        st = s2
        for x in xs:
            st.emit('mut', e.place_term(loc), 'push', (e.val(st, x),))
        e.write(st, loc, ('arr', cur[1] + tuple(xs)), silent=True)
        return one(st, UNIT)
    if items is not None and not re.search('String|Map|Set', (call.get('targs') or ('?',))[0].split('<')[0]):
        st, xs = items
        for x in xs:
            mutate(e, st, args[0], 'push', (e.val(st, x),))
        return one(st, UNIT)
    d = it_desc(e, st, it)
    k = it
    while k[1] == 'copied':
        k = k[2]
    if k[1] in ('map', 'filter', 'filter_map', 'enum', 'inspect') and 'String' not in (call.get('targs') or ('',))[0]:
        # the same as a loop that adds each element
        t = (call.get('targs') or ('',))[0].split('<')[0]

        def body(s, x, acc):
            if 'Map' in t:
                mutate(e, s, args[0], 'insert', (T.field(x, '0'), T.field(x, '1')))
            else:
                mutate(e, s, args[0], 'insert' if 'Set' in t else 'push', (x,))
            return [(s, 'go', None)]
        return [(s, UNIT) for s, _, _ in walk(e, st, it, call, body)]
    mutate(e, st, args[0], 'extend', (d,), joined(e.val(st, cur), d))
    return one(st, UNIT)


@model('std::vec::Vec::reserve', 'std::vec::Vec::reserve_exact', 'std::vec::Vec::shrink_to_fit',
       'std::string::String::reserve', 'std::collections::HashMap::reserve', 'std::collections::HashSet::reserve')
def v_reserve(e, st, args, call):
    return one(st, UNIT)


def joined(xs, ys):
    """A list of known elements, extended by another list: that one with the elements before it."""
    if xs[0] != 'arr':
        return None
    if ys[0] == 'arr':
        return ('arr', xs[1] + ys[1])
    for x in reversed(xs[1]):
        ys = ('m', 'insert', ys, (cint(0), x))
    return ys


@model('std::vec::Vec::extend_from_slice', 'std::vec::Vec::append')
def v_append(e, st, args, call):
    n = call['p'].rsplit('::', 1)[-1]
    d = e.val(st, args[1])
    mutate(e, st, args[0], 'extend' if n == 'append' else n, (d,), joined(e.val(st, e.read(st, loc_of(e, st, args[0]))), d))
    if n == 'append' and args[1][0] == 'ref':
        e.write(st, loc_of(e, st, args[1]), ('arr', ()), silent=True)
    return one(st, UNIT)


# ------------------------------------------------------------------ maps
def map_get(m, k):
    """Symbolic lookup through the insertions the analysis has seen."""
    n = 0
    while n < 200:
        n += 1
        if m == ('emap',):
            return T.NONE
        if m[0] == 'm' and m[1] == 'insert':
            kk = m[3][0]
            q = T.mk_eq(kk, k)
            if q == TRUE:
                return T.some(m[3][1])
            if q == FALSE:
                m = m[2]
                continue
        if m[0] == 'm' and m[1] == 'slot' and T.mk_eq(m[3][0], k) == FALSE:
            m = m[2]
            continue
        if m[0] == 'm' and m[1] == 'remove':
            q = T.mk_eq(m[3][0], k)
            if q == TRUE:
                return T.NONE
            if q == FALSE:
                m = m[2]
                continue
        break
    return ('get', m, k)


MAPS = ('std::collections::HashMap', 'std::collections::BTreeMap', 'serde_json::Map', 'std::collections::HashSet',
        'std::collections::BTreeSet')


def MP(*names):
    return model(*[f'{m}::{n}' for m in MAPS for n in names])


@MP('get', 'get_mut')
def h_get(e, st, args, call):
    return one(st, map_get(e.vderef(st, args[0]), e.vderef(st, args[1])))


@MP('contains_key', 'contains')
def h_contains(e, st, args, call):
    return one(st, isv(map_get(e.vderef(st, args[0]), e.vderef(st, args[1])), 'Some'))


@MP('insert')
def h_insert(e, st, args, call):
    k = e.vderef(st, args[1])
    v = args[2] if len(args) > 2 else UNIT
    loc = loc_of(e, st, args[0])
    old = e.val(st, e.read(st, loc))
    st.emit('mut', e.place_term(loc), 'insert', (k, e.val(st, v)))
    e.write(st, loc, ('m', 'insert', old, (k, v)), silent=True)
    g = map_get(old, k)
    if len(args) == 2:
        return one(st, T.op('not', isv(g, 'Some')))
    return one(st, g)


# the element the predicate of a retain is about
KEPT_KEY, KEPT = sym('key kept'), sym('kept')


def predicate(e, st, f, args, call):
    """The truth of a closure on a generic element, as one term."""
    e.record += 1
    try:
        base = st.fork()
        ev = base.ev
        alts = []
        for s, b in e.apply(base, f, args, call):
            if s.ev is not ev:
                raise Unsupported('a predicate with effects')
            for s2, r in e.decide(s, e.val(s, b)):
                if r:
                    alts.append(T.conj([fact_term(t, x) for t, x in s2.facts.items() if st.facts.get(t) != x]))
    finally:
        e.record -= 1
    return T.op('or', *alts) if len(alts) > 1 else alts[0] if alts else FALSE


def fact_term(t, x):
    if x[0] == 'eq':
        return t if x[1] == TRUE else T.op('not', t) if x[1] == FALSE else T.mk_eq(t, x[1])
    if x[0] == 'in' and x[1]:
        a = [('isv', t, v) for v in sorted(x[1])]
        return a[0] if len(a) == 1 else T.op('or', *a)
    if x[0] == 'ne':
        return T.conj([T.op('not', T.mk_eq(t, c)) for c in sorted(x[1], key=repr)])
    raise Unsupported('predicate')


@model('std::vec::Vec::retain', 'std::vec::Vec::retain_mut')
def v_retain(e, st, args, call):
    v = e.val(st, e.read(st, loc_of(e, st, args[0])))
    mutate(e, st, args[0], 'retain', (predicate(e, st, args[1], [KEPT], call),))
    return one(st, UNIT)


@MP('retain')
def h_retain(e, st, args, call):
    v = e.val(st, e.read(st, loc_of(e, st, args[0])))
    a = [KEPT] if 'Set' in call['p'] else [KEPT_KEY, KEPT]
    mutate(e, st, args[0], 'retain', (predicate(e, st, args[1], a, call),))
    return one(st, UNIT)


@MP('remove', 'remove_entry', 'take')
def h_remove(e, st, args, call):
    k = e.vderef(st, args[1])
    old = mutate(e, st, args[0], 'remove', (k,))
    g = map_get(e.val(st, old), k)
    if 'Set' in call['p']:
        return one(st, isv(g, 'Some'))
    return one(st, g)


@MP('entry')
def h_entry(e, st, args, call):
    return one(st, ('entry', args[0], e.vderef(st, args[1])))


def entry_default(e, st, ent, mk, call):
    m, k = ent[1], ent[2]
    loc = loc_of(e, st, m)
    old = e.val(st, e.read(st, loc))
    g = map_get(old, k)
    out = []
    for s, x in e.fork_variant(st, g, ['Some', 'None']):
        if x == 'Some':
            out.append((s, payload(g, 'Some')))
        else:
            for s2, v in mk(s):
                s2.emit('mut', e.place_term(loc), 'insert', (k, e.val(s2, v)))
                box = e.alloc(s2, v)
                e.write(s2, loc, ('m', 'insert', old, (k, box)), silent=True)
                out.append((s2, box))
    return out


@model('std::collections::hash_map::Entry::or_default', 'std::collections::btree_map::Entry::or_default',
       'std::collections::btree_map::Entry::or_insert_with', 'std::collections::hash_map::Entry::or_insert_with',
       'std::collections::hash_map::Entry::or_insert_with_key', 'std::collections::btree_map::Entry::or_insert',
       'std::collections::hash_map::Entry::or_insert', 'serde_json::map::Entry::or_insert', 'serde_json::map::Entry::or_insert_with')
def h_or_default(e, st, args, call):
    ent = args[0]
    if ent[0] != 'entry':
        return e.opaque_call(st, call['p'], args, call)
    n = call['p'].rsplit('::', 1)[-1]
    if n in ('or_insert', 'or_insert_with'):
        # an empty collection is the default
        s = st.fork()
        r = [(s, args[1])] if n == 'or_insert' else e.apply(s, args[1], [], call)
        if len(r) == 1 and r[0][0].ev is st.ev and e.val(r[0][0], r[0][1]) in (('arr', ()), ('emap',)):
            n = 'or_default'
    if n == 'or_default':
        # a map of default-constructed values: the value itself is not materialised
        # (afterwards the map has the key, with whatever is written there)
        loc = loc_of(e, st, ent[1])
        old = e.val(st, e.read(st, loc))
        e.write(st, loc, ('m', 'slot', old, (ent[2],)), silent=True)
        return one(st, ('slot', e.place_term(loc), ent[2]))
    if n == 'or_insert':
        mk = lambda s: [(s, args[1])]
    elif n == 'or_insert_with_key':
        def mk(s):
            r = e.alloc(s, ent[2])
            return e.apply(s, args[1], [r], call)
    else:
        mk = lambda s: e.apply(s, args[1], [], call)
    return entry_default(e, st, ent, mk, call)


@model('core::bool::<impl bool>::then_some', 'std::bool::{bool}::then_some', 'core::bool::{bool}::then_some')
def b_then_some(e, st, args, call):
    return [(s, T.some(args[1]) if r else T.NONE) for s, r in e.decide(st, e.vderef(st, args[0]))]


@model('core::bool::<impl bool>::then', 'std::bool::{bool}::then', 'core::bool::{bool}::then')
def b_then(e, st, args, call):
    out = []
    for s, r in e.decide(st, e.vderef(st, args[0])):
        if not r:
            out.append((s, T.NONE))
            continue
        out += [(s2, T.some(v)) for s2, v in e.apply(s, args[1], [], call)]
    return out


# ------------------------------------------------------------------ iterators
# ('it', kind, src, pos) | ('it', 'map', inner, f) | 'enum' | 'rev' | 'skip' | 'copied' | 'filter' | 'zip' | 'chain' | 'take' ...
BASE = ('slice', 'own', 'keys', 'values', 'pairs', 'range', 'chars', 'split', 'iter')


def mk_it(kind, src):
    return ('it', kind, src, 0)


def it_base(it):
    while it[1] not in BASE:
        it = it[2]
    return it


def it_concrete(e, st, it):
    if it[0] != 'it':
        return False
    k = it[1]
    if k in BASE:
        if it[3] != 0 and not isinstance(it[3], int):
            return False
        s = it[2]
        if k in ('slice', 'own'):
            v = e.deref(st, s) if s[0] == 'ref' else s
            return v[0] == 'arr' and len(v[1]) <= 64
        if k == 'range':
            return s[1][0] == 'c' and s[2][0] == 'c' and s[2][2] - s[1][2] <= 64
        if k == 'chars':
            return s[0] == 'c'
        return False
    if k == 'zip':
        a, b = it_concrete(e, st, it[2]), it_concrete(e, st, it[3])
        return a and b or a and known_slice(e, st, it[3]) or b and known_slice(e, st, it[2])
    if k == 'chain':
        return it_concrete(e, st, it[2]) and it_concrete(e, st, it[3])
    return k != 'flat' and it_concrete(e, st, it[2])


def known_slice(e, st, it):
    """A sequence whose number of elements is known on this path (though not what they are)."""
    if it[0] != 'it' or it[1] != 'slice' or not isinstance(it[3], int) or it[2][0] != 'ref':
        return False
    f = st.facts.get(T.length(e.deref(st, it[2])))
    return bool(f) and f[0] == 'eq' and f[1][2] <= 16


def zip_side(e, st, it, call):
    if known_slice(e, st, it) and not it_concrete(e, st, it):
        n = st.facts[T.length(e.deref(st, it[2]))][1][2]
        if it[3] >= n:
            return [(st, None, it)]
        return [(st, ('ref', (it[2][1][0], it[2][1][1] + (('i', cint(it[3])),))), it[:3] + (it[3] + 1,))]
    return it_next(e, st, it, call)


def it_widen(it, key, whole=False):
    if it[0] != 'it':
        return ('lv', key, 'it')
    k = it[1]
    if k in BASE:
        if isinstance(it[3], int) and it[3] and not whole and k in ('slice', 'own', 'iter'):
            # the rest of a sequence whose first elements have been drawn
            return ('it', 'skip', ('it', k, it[2], key), cint(it[3]))
        return ('it', k, it[2], key)
    if k in ('enum', 'rev', 'skip', 'take', 'step_by'):
        # (positions are those of the whole sequence)
        return it[:2] + (it_widen(it[2], key, True),) + it[3:]
    if k in ('zip', 'chain'):
        return ('it', k, it_widen(it[2], key), it_widen(it[3], key))
    return it[:2] + (it_widen(it[2], key),) + it[3:]


def it_desc(e, st, it, whole=False):
    """Name of the sequence an iterator walks."""
    if it[0] != 'it':
        return e.val(st, it)
    k = it[1]
    if k in BASE:
        s = e.vderef(st, it[2]) if it[2][0] == 'ref' else e.val(st, it[2])
        if k in ('slice', 'own', 'iter'):
            if isinstance(it[3], int) and it[3] and not whole:
                return ('skip', s, cint(it[3]))
            return s
        if k == 'range':
            return s
        return (k, s)
    inner = it_desc(e, st, it[2], whole or k in ('enum', 'rev', 'skip', 'take', 'step_by'))
    if k == 'rev':
        if inner[0] == 'rev':
            return inner[1]
        return ('rev', inner)
    if k in ('skip', 'take', 'step_by'):
        return (k, inner, e.val(st, it[3]))
    if k in ('filter', 'filter_map', 'take_while', 'skip_while'):
        return (k, inner)
    if k == 'flat':
        return ('flat', inner)
    if k == 'zip':
        return ('zip', inner, it_desc(e, st, it[3]))
    if k == 'chain':
        return ('chain', inner, it_desc(e, st, it[3]))
    return inner


def plain(d):
    """The underlying collection of a (reversed, skipped...) sequence."""
    while d[0] in ('rev', 'skip', 'take', 'filter'):
        d = d[1]
    return d


def base_elem(e, st, it, d, key, byref=True):
    """Generic element of the sequence named d."""
    p = plain(d)
    if p[0] == 'range':
        return range_elem(d, p, key)
    if p[0] == 'collect':
        # element of a mapped sequence
        dd = rename_base(d, p, p[1])
        return T.subst(p[3], {p[2]: key}) if d == p else T.subst(p[3], {p[2]: key})
    if p[0] == 'filled':
        return p[2]
    return ('elem', d, key)


def rename_base(d, old, new):
    if d == old:
        return new
    return (d[0], rename_base(d[1], old, new)) + tuple(d[2:])


def range_elem(d, p, key):
    lo, hi = p[1], p[2]
    if lo == cint(0) and hi[0] == 'len':
        return ('idx', rename_base(d, p, hi[1]), key)
    if hi[0] == 'len':
        return ('idx', rename_base(d, p, ('skip', hi[1], lo)), key)
    return ('elem', d, key)


def it_next(e, st, it, call):
    """[(state, None | element, new iterator)]"""
    k = it[1]
    if it_concrete(e, st, it) and k in BASE:
        return [next_concrete(e, st, it)]
    if k in BASE:
        d = it_desc(e, st, it, True)
        if k in ('slice', 'own', 'iter') and plain(d)[0] == 'filtered' and not isinstance(it[3], int):
            return next_filtered(e, st, it, d)
        return next_generic(e, st, it, d)
    if k == 'rev' or k in ('skip', 'take', 'step_by'):
        if it_concrete(e, st, it):
            return rev_concrete(e, st, it, call)
        d = it_desc(e, st, it)
        out = []
        b = it_base(it)
        draw = next_filtered if k == 'rev' and plain(d)[0] == 'filtered' and not isinstance(b[3], int) else next_generic
        for s, x, _ in draw(e, st, b, d):
            if x is None:
                out.append((s, None, it))
            else:
                for s2, y in lift(e, s, it[2], x, d, call):
                    out.append((s2, y, it_bump(it)))
        return out
    if k == 'enum':
        out = []
        inner = it[2]
        conc = it_concrete(e, st, inner)
        n = it[3]
        for s, x, ni in it_next(e, st, inner, call):
            if x is None:
                out.append((s, None, ('it', 'enum', ni, n)))
            else:
                d = it_desc(e, s, inner, True)
                if conc:
                    i = cint(n)
                else:
                    i = enum_index(d, pos_key(it))
                out.append((s, ('tup', (i, x)), ('it', 'enum', ni, n + 1 if conc else n)))
        return out
    if k == 'map':
        out = []
        for s, x, ni in it_next(e, st, it[2], call):
            if x is None:
                out.append((s, None, ('it', 'map', ni, it[3])))
            else:
                for s2, y in e.apply(s, it[3], [x], call):
                    out.append((s2, y, ('it', 'map', ni, it[3])))
        return out
    if k == 'numbered':
        out = []
        for s, x, ni in it_next(e, st, it[2], call):
            if x is not None:
                n, y = T.op('add', x[1][0], it[3]), x[1][1]
                x = ('tup', (n, y) if it[4] else (y, n))
            out.append((s, x, it[:2] + (ni,) + it[3:]))
        return out
    if k == 'windows':
        # the last of n neighbours is drawn, the others are those before it
        out = []
        for s, x, ni in it_next(e, st, it[2], call):
            if x is not None:
                x, n, v = e.vderef(s, x), it[3], e.vderef(s, it[4])
                if it_concrete(e, s, it[2]):
                    w = v[1][it[2][3]:][:n]
                else:
                    p = ('ordinal', ('skip', v, cint(n - 1)), pos_key(it))
                    w = tuple(T.index(v, T.op('add', p, cint(j))) for j in range(n - 1)) + (x,)
                x = e.alloc(s, ('arr', w))
            out.append((s, x, it[:2] + (ni,) + it[3:]))
        return out
    if k == 'inspect':
        out = []
        for s, x, ni in it_next(e, st, it[2], call):
            for s2 in ([s] if x is None else [y[0] for y in e.apply(s, it[3], [e.alloc(s, x)], call)]):
                out.append((s2, x, it[:2] + (ni,) + it[3:]))
        return out
    if k in ('map_while', 'take_while'):
        # the first element that is refused ends the walk
        out = []
        for s, x, ni in it_next(e, st, it[2], call):
            nit = it[:2] + (ni,) + it[3:]
            over = it[:2] + (('it', 'own', ('arr', ()), 0),) + it[3:]
            if x is None:
                out.append((s, None, nit))
            elif k == 'take_while':
                for s2, b in e.apply(s, it[3], [e.alloc(s, x)], call):
                    for s3, t in e.decide(s2, e.val(s2, b)):
                        out.append((s3, x, nit) if t else (s3, None, over))
            else:
                for s2, o in e.apply(s, it[3], [x], call):
                    ov = opt_value(e, s2, o)
                    for s3, t in opt_variants(e, s2, ov):
                        out.append((s3, payload(ov, 'Some'), nit) if t == 'Some' else (s3, None, over))
        return out
    if k == 'copied':
        return [(s, (e.vderef(s, x) if x is not None else None), ('it', 'copied', ni)) for s, x, ni in
                it_next(e, st, it[2], call)]
    if k in ('filter', 'filter_map'):
        conc = it_concrete(e, st, it)
        out = []
        work = [(st, it[2])]
        while work:
            s0, inner = work.pop()
            for s, x, ni in it_next(e, s0, inner, call):
                if x is None:
                    out.append((s, None, it[:2] + (ni,) + it[3:]))
                    continue
                if k == 'filter':
                    r = e.alloc(s, x)
                    for s2, b in e.apply(s, it[3], [r], call):
                        for s3, t in e.decide(s2, e.val(s2, b)):
                            if t:
                                out.append((s3, x, it[:2] + (ni,) + it[3:]))
                            elif conc:
                                work.append((s3, ni))
                            else:
                                e.refuse(pos_key(it), s3)
                else:
                    for s2, o in e.apply(s, it[3], [x], call):
                        ov = opt_value(e, s2, o)
                        for s3, t in opt_variants(e, s2, ov):
                            if t == 'Some':
                                out.append((s3, payload(ov, 'Some'), it[:2] + (ni,) + it[3:]))
                            elif conc:
                                work.append((s3, ni))
                            else:
                                e.refuse(pos_key(it), s3)
        return out
    if k == 'zip':
        out = []
        if not e.record and not isinstance(pos_key(it), int):
            st.emit('zip', pos_key(it), it_desc(e, st, it[2]), it_desc(e, st, it[3]))
        step = zip_side if it_concrete(e, st, it) else it_next
        for s, x, ni in step(e, st, it[2], call):
            if x is None:
                out.append((s, None, it))
                continue
            for s2, y, nj in step(e, s, it[3], call):
                if y is None:
                    out.append((s2, None, it))
                else:
                    out.append((s2, ('tup', (x, y)), ('it', 'zip', ni, nj)))
        return out
    if k == 'chain':
        out = []
        for s, x, ni in it_next(e, st, it[2], call):
            if x is not None:
                out.append((s, x, ('it', 'chain', ni, it[3])))
            else:
                for s2, y, nj in it_next(e, s, it[3], call):
                    out.append((s2, y, ('it', 'chain', ni, nj)))
        return out
    if k == 'flat':
        # generic element of one of the inner sequences
        key = pos_key(it)
        if isinstance(key, int):
            if not e.record:
                raise Exception('flat_map drawn one by one')
            key = 'dry'
        out = []
        for s, x, ni in it_next(e, st, it[2], call):
            if x is None:
                out.append((s, None, it))
                continue
            for s2, v in (e.apply(s, it[3], [x], call) if it[3] is not None else [(s, x)]):
                inner = it_widen(as_iter(e, s2, v, call), key)
                for s3, y, _ in it_next(e, s2, inner, call):
                    if y is not None:
                        out.append((s3, y, ('it', 'flat', ni, it[3])))
        return out
    if k == 'peekable':
        return [(s, x, ('it', 'peekable', ni)) for s, x, ni in it_next(e, st, it[2], call)]
    raise Exception(f"iterator {k}")


def enum_index(d, key):
    p = d
    if p[0] == 'rev' and p[1][0] not in ('rev', 'skip', 'take', 'filter', 'filter_map', 'pairs', 'keys', 'values', 'chars'):
        # counted from the end
        return T.op('sub', T.op('sub', T.length(p[1]), cint(1)), ('idx', d, key))
    if p[0] in ('rev', 'skip', 'take', 'filter'):
        return ('ordinal', d, key)
    return ('idx', d, key)


def pos_key(it):
    return it_base(it)[3]


def it_bump(it):
    if it[1] in BASE:
        p = it[3]
        return it[:3] + (p + 1 if isinstance(p, int) else p,)
    return it[:2] + (it_bump(it[2]),) + it[3:]


def lift(e, st, inner, x, d, call):
    """Re-apply the adaptors below a `rev`/`skip` to the generic element x of sequence d."""
    k = inner[1]
    if k in BASE:
        return [(st, x)]
    if k == 'enum':
        out = []
        for s, y in lift(e, st, inner[2], x, d, call):
            # index of the element in the un-reversed sequence
            p = it_desc(e, s, inner[2])
            key = x[2] if x[0] in ('elem', 'idx') else pos_key(inner)
            out.append((s, ('tup', (('idx', d, key), y))))
        return out
    if k == 'map':
        out = []
        for s, y in lift(e, st, inner[2], x, d, call):
            out.extend(e.apply(s, inner[3], [y], call))
        return out
    if k == 'copied':
        return [(s, e.vderef(s, y)) for s, y in lift(e, st, inner[2], x, d, call)]
    return lift(e, st, inner[2], x, d, call)


def next_generic(e, st, it, d):
    pos = it[3]
    key = pos
    flag = ('more', d, key)
    a, b = st.fork(), st
    kind = it[1]
    if not e.record and not isinstance(pos, int) and e.joins.get(key) is None:
        a.emit('dom', key, norm_dom(d))
        b.emit('dom', key, norm_dom(d))
    el = base_elem(e, a, it, d, key)
    if kind == 'pairs':
        p = d[1] if d[0] == 'pairs' else d
        el = ('tup', (('mapk', rename_pairs(d), key), ('mapv', rename_pairs(d), key)))
    elif kind == 'keys':
        el = ('mapk', d[1] if d[0] == 'keys' else d, key)
    elif kind == 'values':
        el = ('mapv', d[1] if d[0] == 'values' else d, key)
    ni = it[:3] + (pos + 1 if isinstance(pos, int) else pos,)
    res = []
    if isinstance(pos, int):
        # sequential draws from an unknown sequence
        f = a.facts.get(flag) or known_length(a.facts, d, pos)
        if not f or f == ('eq', TRUE):
            a.facts[flag] = ('eq', TRUE)
            res.append((a, el, ni))
        if not f or f == ('eq', FALSE):
            b.facts[flag] = ('eq', FALSE)
            res.append((b, None, ni))
        return res
    res.append((a, el, ni))
    if e.joins.get(key) is not None:
        # the texts of all elements, each behind the separator
        path, before, sep, xs = e.joins[key]
        if sep == cstr(''):
            text = ('op', 'join', xs, sep)
            e.write(b, path, text if before == cstr('') else T.strcat([before, text]), silent=True)
            return res + [(b, None, ni)]
        for s, none in e.decide(b, T.mk_eq(T.length(xs), cint(0))):
            e.write(s, path, before if none else T.strcat([before, sep, ('op', 'join', xs, sep)]), silent=True)
            res.append((s, None, ni))
        return res
    b.emit('exit', key)
    res.append((b, None, ni))
    return res


def next_filtered(e, st, it, d):
    """An element of a list that keeps those of another one that satisfy a condition."""
    p = d
    while p[0] == 'rev':
        p = p[1]
    if p[0] != 'filtered':
        return next_generic(e, st, it, d)
    from loops import rebuild
    under = rename_base(d, p, p[1])
    while under[0] == 'rev' and under[1][0] == 'rev':
        under = under[1][1]
    out = []
    for s, x, ni in next_generic(e, st, it, under):
        if x is None:
            out.append((s, x, ni))
            continue
        for s2, kept in e.decide(s, rebuild(p[3], {p[2]: x})):
            if kept:
                out.append((s2, x, ni))
            else:
                e.refuse(it[3], s2)
    return out


def filtered(e, st, it, d, call):
    """The list of those elements of a sequence that satisfy a pure condition, or None."""
    k, n = it, 0
    while k[1] in ('copied', 'rev', 'filter'):
        n += k[1] == 'filter'
        k = k[2]
    if not n or k[1] not in ('slice', 'own', 'iter') or not isinstance(k[3], int) or k[3]:
        return None
    base = it_desc(e, st, without_filters(it))
    key = f'collect.{e.nframe}'
    e.record += 1
    try:
        s0 = st.fork()
        ev = s0.ev
        outs = [(s, e.val(s, e.vderef(s, x))) for s, x, ni in it_next(e, s0, it_widen(it, key), call) if x is not None]
    finally:
        e.record -= 1
        e.refused.pop(key, None)
    x = ('elem', base, key)
    if not outs or any(s.ev is not ev or y != x for s, y in outs):
        return None
    alts = [T.conj([fact_term(t, f) for t, f in s.facts.items() if st.facts.get(t) != f]) for s, _ in outs]
    return ('filtered', base, x, T.op('or', *alts) if len(alts) > 1 else alts[0])


def without_filters(it):
    if it[1] in BASE:
        return it
    if it[1] == 'filter':
        return without_filters(it[2])
    return it[:2] + (without_filters(it[2]),) + it[3:]


def norm_dom(d):
    p = plain(d)
    if p[0] == 'range' and p[2][0] == 'len':
        return rename_base(d, p, p[2][1] if p[1] == cint(0) else ('skip', p[2][1], p[1]))
    return d


def known_length(facts, d, pos):
    if d[0] == 'op' and d[1] == 'str_split' and pos == 0:
        return ('eq', TRUE)
    ln = T.length(d)
    if ln[0] == 'c':
        return ('eq', ('c', 'bool', pos < ln[2]))
    f = facts.get(ln)
    if not f:
        return None
    if f[0] == 'eq':
        return ('eq', ('c', 'bool', pos < f[1][2]))
    if f[0] == 'ne' and all(cint(i) in f[1] for i in range(pos + 1)):
        return ('eq', TRUE)
    return None


def rename_pairs(d):
    if d[0] == 'pairs':
        return d[1]
    return d


def next_concrete(e, st, it):
    kind, src, pos = it[1], it[2], it[3]
    ni = it[:3] + (pos + 1,)
    if kind in ('slice', 'own'):
        v = e.deref(st, src) if src[0] == 'ref' else src
        if pos >= len(v[1]):
            return (st, None, it)
        if kind == 'slice' and src[0] == 'ref':
            return (st, ('ref', (src[1][0], src[1][1] + (('i', cint(pos)),))), ni)
        return (st, v[1][pos], ni)
    if kind == 'range':
        lo, hi = src[1][2], src[2][2]
        if lo + pos >= hi:
            return (st, None, it)
        return (st, cint(lo + pos), ni)
    s = src[2]
    if pos >= len(s):
        return (st, None, it)
    return (st, cstr(s[pos]), ni)


def rev_concrete(e, st, it, call):
    """Materialise the items of a concrete adaptor chain."""
    r = it_concrete_items(e, st, it[2], call)
    s, items = r
    if it[1] == 'rev':
        items = items[::-1]
    elif it[1] == 'skip':
        items = items[it[3][2]:] if it[3][0] == 'c' else items
    elif it[1] == 'take':
        items = items[:it[3][2]] if it[3][0] == 'c' else items
    if not items:
        return [(s, None, ('it', 'own', ('arr', ()), 0))]
    return [(s, items[0], ('it', 'own', ('arr', tuple(items)), 1))]


def it_concrete_items(e, st, it, call):
    """(state, items) of a concrete, non-forking iterator, else None."""
    if it[0] != 'it' or not it_concrete(e, st, it):
        return None
    items = []
    for _ in range(5000):
        r = it_next(e, st, it, call)
        if len(r) != 1:
            return None
        st, x, it = r[0]
        if x is None:
            return st, items
        items.append(x)
    return None


def as_iter(e, st, v, call=None):
    if v[0] == 'it':
        return v
    if v[0] == 'ref':
        x = e.read(st, v[1])
        if x[0] == 'it':
            return x
        return mk_it('slice', v)
    if v[0] == 'adt' and v[1].endswith('Range') and v[2] == 'Range':
        return mk_it('range', ('range', e.val(st, T.field(v, 'start')), e.val(st, T.field(v, 'end'))))
    if v[0] == 'adt' and v[1].endswith('RangeInclusive'):
        return mk_it('range', ('range', e.val(st, T.field(v, 'start')), T.op('add', e.val(st, T.field(v, 'end')), cint(1))))
    if v[0] == 'adt' and v[1] == OPT:
        return mk_it('own', ('arr', (payload(v, 'Some'),) if v[2] == 'Some' else ()))
    return mk_it('own', v)


@model('std::slice::{[T]}::windows', 'core::slice::<impl [T]>::windows')
def slice_windows(e, st, args, call):
    n = e.val(st, args[1])
    if n[0] != 'c' or not 2 <= n[2] <= 4:
        return e.opaque_call(st, call['p'], args, call)
    v = e.vderef(st, args[0])
    known = v[0] == 'arr'
    it = mk_it('slice', e.alloc(st, ('arr', v[1][n[2] - 1:]))) if known else ('it', 'skip', mk_it('slice', args[0]), cint(n[2] - 1))
    return one(st, ('it', 'windows', it, n[2], args[0]))


@model('std::option::Option::iter')
def option_iter(e, st, v, call=None):
    """Nothing or one element."""
    v = e.vderef(st, v[0] if isinstance(v, list) else v)
    return [(s, mk_it('own', ('arr', (payload(v, 'Some'),) if t == 'Some' else ()))) for s, t in opt_variants(e, st, v)]


@model('std::iter::IntoIterator::into_iter')
def m_into_iter(e, st, args, call):
    t = (call.get('targs') or call.get('at') or ('',))[0]
    v = args[0]
    if v[0] == 'it' or v[0] == 'adt' and v[2] == 'RangeFrom':
        return one(st, v)
    if t.startswith('std::option::Option<'):
        return option_iter(e, st, v)
    if 'Map<' in t and not t.startswith(('std::iter', 'std::vec', '&std::vec', 'std::slice', '&[')) and \
            re.match(r"^&?('\w+ )?(mut )?(std::collections::|serde_json::)(\w*Map)", t):
        return one(st, mk_it('pairs', v if v[0] != 'ref' else v))
    if t.startswith('&') and v[0] != 'ref':
        return one(st, mk_it('slice', v))
    return one(st, as_iter(e, st, v, call))


@model('std::slice::{[T]}::iter', 'std::slice::{[T]}::iter_mut', 'std::collections::HashSet::iter',
       'std::collections::VecDeque::iter', 'std::slice::{[T]}::into_iter')
def m_iter(e, st, args, call):
    v = args[0]
    if v[0] == 'ref':
        loc = loc_of(e, st, v)
        return one(st, mk_it('slice', ('ref', loc)))
    return one(st, mk_it('slice', v))


@model('std::collections::HashMap::keys', 'std::collections::BTreeMap::keys', 'std::collections::HashMap::into_keys',
       'serde_json::Map::keys')
def m_keys(e, st, args, call):
    return one(st, mk_it('keys', args[0]))


@model('std::collections::HashMap::values', 'std::collections::BTreeMap::values',
       'std::collections::HashMap::into_values', 'std::collections::HashMap::values_mut', 'serde_json::Map::values',
       'std::collections::BTreeMap::values_mut', 'std::collections::BTreeMap::into_values', 'serde_json::Map::values_mut')
def m_values(e, st, args, call):
    return one(st, mk_it('values', args[0]))


@model('std::collections::HashMap::iter', 'std::collections::BTreeMap::iter', 'serde_json::Map::iter',
       'serde_json::Map::iter_mut', 'std::collections::HashMap::iter_mut', 'std::collections::BTreeMap::iter_mut')
def m_pairs(e, st, args, call):
    return one(st, mk_it('pairs', args[0]))


@model('std::collections::HashMap::drain')
def m_drain(e, st, args, call):
    old = e.val(st, e.read(st, loc_of(e, st, args[0])))
    v_clear(e, st, args[:1], dict(call, p='std::collections::HashMap::clear'))
    return one(st, mk_it('pairs', old))


@model('std::str::{str}::chars')
def m_chars(e, st, args, call):
    return one(st, mk_it('chars', e.vderef(st, args[0])))


@model('std::str::{str}::split', 'std::str::{str}::split_whitespace', 'std::str::{str}::split_ascii_whitespace', 'std::str::{str}::rsplitn', 'std::str::{str}::lines',
       'std::str::{str}::splitn', 'std::str::{str}::rsplit', 'std::str::{str}::split_terminator')
def m_split(e, st, args, call):
    a = tuple(e.vderef(st, x) for x in args)
    if a[0][0] == 'c' and len(a) == 2 and a[1][0] == 'c' and call['p'].endswith('::split'):
        return one(st, mk_it('own', ('arr', tuple(cstr(x) for x in a[0][2].split(a[1][2])))))
    return one(st, mk_it('iter', ('op', 'str_' + call['p'].rsplit('::', 1)[-1]) + a))


@model('pest::iterators::Pair::into_inner')
def m_inner(e, st, args, call):
    return one(st, mk_it('iter', ('inner', e.vderef(st, args[0]))))


@model('pest::iterators::Pair::as_rule')
def m_rule(e, st, args, call):
    return one(st, ('rule', e.vderef(st, args[0])))


@model('pest::iterators::Pair::as_str')
def m_text(e, st, args, call):
    return one(st, ('text', e.vderef(st, args[0])))


@model('std::ops::RangeInclusive::new', 'std::range::RangeInclusive::new')
def m_inclusive(e, st, args, call):
    return one(st, T.adt('std::ops::RangeInclusive', 'RangeInclusive', (('start', args[0]), ('end', args[1]))))


@model('std::ops::Range::contains', 'std::ops::RangeInclusive::contains', 'std::ops::RangeFrom::contains', 'std::ops::RangeTo::contains',
       'std::ops::RangeToInclusive::contains', 'std::ops::RangeBounds::contains')
def m_range_contains(e, st, args, call):
    r, x = e.vderef(st, args[0]), e.vderef(st, args[1])
    if r[0] != 'adt' or 'Range' not in r[1]:
        return one(st, T.op('contains', r, x))
    b = []
    if r[2] in ('Range', 'RangeFrom', 'RangeInclusive'):
        b.append(T.op('le', e.vderef(st, T.field(r, 'start')), x))
    if r[2] in ('Range', 'RangeTo'):
        b.append(T.op('lt', x, e.vderef(st, T.field(r, 'end'))))
    elif r[2] in ('RangeInclusive', 'RangeToInclusive'):
        b.append(T.op('le', x, e.vderef(st, T.field(r, 'end'))))
    return one(st, T.op('and', *b))


@model('std::iter::Iterator::next')
def m_next(e, st, args, call):
    loc = loc_of(e, st, args[0])
    it = e.read(st, loc)
    if it[0] == 'adt' and it[2] == 'RangeFrom':
        n = e.val(st, T.field(it, 'start'))
        e.write(st, (loc[0], loc[1] + (('f', 'start'),)), T.op('add', n, cint(1)), silent=True)
        return one(st, T.some(n))
    if it[0] == 'adt' and 'Range' in it[1]:
        it = as_iter(e, st, it, call)
    if it[0] != 'it':
        it = mk_it('iter', it)
    if selects(it) and it[1] in ('filter', 'filter_map') and pos_key(it) == 0 and not it_concrete(e, st, it):
        # the first element that is not held back
        rest = ('it', 'iter', ('rest', it_desc(e, st, it)), 0)
        out = []
        for s, k, x in walk(e, st, it, call, lambda s, x, acc: [(s, 'stop', x)]):
            e.write(s, loc, rest, silent=True)
            out.append((s, T.some(x) if k == 'stop' else T.NONE))
        return out
    out = []
    for s, x, ni in it_next(e, st, it, call):
        e.write(s, loc, ni, silent=True)
        out.append((s, T.NONE if x is None else T.some(x)))
    return out


def reverse(it):
    """What is done to each element does not depend on the order."""
    if it[0] == 'it':
        if it[1] in ('map', 'filter', 'filter_map', 'copied', 'inspect'):
            return it[:2] + (reverse(it[2]),) + it[3:]
        if it[1] == 'chain':
            return ('it', 'chain', reverse(it[3]), reverse(it[2]))
        if it[1] == 'rev':
            return it[2]
    return ('it', 'rev', it)


def rebase(e, st, it):
    """An iterator from which elements have been drawn, as an iterator over the remaining ones that starts at its first."""
    if it[0] != 'it' or it_concrete(e, st, it):
        return it
    if it[1] in ('slice', 'own', 'iter') and isinstance(it[3], int) and it[3]:
        return ('it', 'skip', ('it', it[1], it[2], 0), cint(it[3]))
    if it[1] in ('map', 'filter', 'filter_map', 'copied', 'inspect'):
        return it[:2] + (rebase(e, st, it[2]),) + it[3:]
    return it


def skipped(it, n):
    if it[0] == 'it' and it[1] == 'skip' and it[3][:2] == ('c', 'int') and n[:2] == ('c', 'int'):
        return ('it', 'skip', it[2], cint(it[3][2] + n[2]))
    return ('it', 'skip', it, n)


def adaptor(kind, nargs):
    def f(e, st, args, call):
        it = as_iter(e, st, args[0], call)
        if kind in ('rev', 'skip', 'take', 'step_by'):
            it = rebase(e, st, it)
        if kind == 'rev':
            return one(st, reverse(it))
        if nargs == 0:
            return one(st, ('it', kind, it))
        x = args[1]
        if kind in ('skip', 'take', 'step_by'):
            x = e.vderef(st, x)
        if kind == 'zip':
            for a, b, first in ((it, x, False), (x, it, True)):
                if b[0] == 'it' and b[1] == 'own':
                    b = b[2]
                if b[0] == 'adt' and b[2] == 'RangeFrom':
                    return one(st, ('it', 'numbered', ('it', 'enum', rebase(e, st, as_iter(e, st, a, call)), 0), e.val(st, T.field(b, 'start')), first))
        if kind in ('zip', 'chain'):
            x = as_iter(e, st, x, call)
        if kind == 'skip':
            return one(st, skipped(it, x))
        return one(st, ('it', kind, it, x))
    return f


EXACT['std::iter::Iterator::map'] = adaptor('map', 1)
EXACT['std::iter::Iterator::rev'] = adaptor('rev', 0)
EXACT['std::iter::Iterator::enumerate'] = lambda e, st, args, call: one(st, ('it', 'enum', rebase(e, st, as_iter(e, st, args[0])), 0))
for _k in ('skip', 'take', 'filter', 'filter_map', 'zip', 'chain', 'step_by', 'take_while', 'skip_while', 'map_while', 'inspect'):
    EXACT['std::iter::Iterator::' + _k] = adaptor(_k, 1)
EXACT['std::iter::Iterator::flat_map'] = adaptor('flat', 1)


@model('std::iter::Iterator::flatten')
def m_flatten(e, st, args, call):
    it = as_iter(e, st, args[0])
    r = it_concrete_items(e, st, it, call)
    if r is not None and len(r[1]) < 4:
        # of a few known sequences: one after the other
        s, xs = r
        out = [as_iter(e, s, x, call) for x in xs] or [mk_it('own', ('arr', ()))]
        acc = out[0]
        for x in out[1:]:
            acc = ('it', 'chain', acc, x)
        return one(s, acc)
    return one(st, ('it', 'flat', it, None))


EXACT['std::iter::Iterator::copied'] = adaptor('copied', 0)
EXACT['std::iter::Iterator::cloned'] = adaptor('copied', 0)
EXACT['std::iter::Iterator::peekable'] = adaptor('peekable', 0)
EXACT['std::iter::DoubleEndedIterator::rev'] = adaptor('rev', 0)


def walk(e, st, it, call, body, start=None):
    """Run `body(state, element, acc) -> [(state, 'go', acc) | (state, 'stop', value)]` over an iterator.
    Returns [(state, 'stop', value) | (state, 'end', acc)]."""
    from absint import Segment, Unsupported, Budget
    if it_concrete(e, st, it):
        out = []
        work = [(st, it, start)]
        n = 0
        while work:
            s0, i0, acc = work.pop()
            n += 1
            if n > 4000:
                raise Budget('unrolled iterator')
            for s, x, ni in it_next(e, s0, i0, call):
                if x is None:
                    out.append((s, 'end', acc))
                    continue
                for r in body(s, x, acc):
                    if r[1] == 'go':
                        work.append((r[0], ni, r[2]))
                    else:
                        out.append(r)
        return out
    e.nloop += 1
    key = f"it.{call['sp'][0]}.{e.nframe}"
    gen = it_widen(it, key)
    changed = {}
    e.record += 1
    try:
        for _ in range(6):
            sth = e.havoc(st, changed, key, call['fr'])
            new = False
            went = []
            for s, x, ni in it_next(e, sth.fork(), gen, call):
                if x is None:
                    continue
                for r in body(s, x, start):
                    if r[1] == 'go':
                        went.append(r[0])
            for s in went + e.refused.pop(key, []):
                for path, kind in e.diff_mem(sth.mem, s.mem, key):
                    if path not in changed:
                        changed[path] = kind
                        new = True
            if not new:
                break
        else:
            raise Unsupported('iterator closure does not stabilise')
    finally:
        e.record -= 1
    inits = ()
    if not e.record:
        inits = tuple(sorted(((e.path_name(p, call['fr']), e.val(st, e.read(st, p))) for p in changed if changed[p] != 'it'), key=repr))
    sth = e.havoc(st, changed, key, call['fr'])
    sth.emit('loop', key, inits)
    hdr = sth.ev
    out = []
    went = []
    for s, x, ni in it_next(e, sth, gen, call):
        if x is None:
            out.append((s, 'end', start))
            continue
        for r in body(s, x, start):
            if r[1] == 'go':
                went.append(r[0])
            else:
                out.append(r)
    for s in went + e.refused.pop(key, []):
        if not e.record:
            upd = {e.path_name(p, call['fr']): e.val(s, e.read(s, p)) for p in changed if changed[p] != 'it'}
            e.segments.append(Segment('back', dict(s.facts), s.events(hdr), None, e.where(call), key, upd,
                                      all_events=s.events(), mem=s.mem))
    return out


def get_iter(e, st, a, call):
    if a[0] == 'ref':
        v = e.read(st, a[1])
        if v[0] == 'ref':
            v = e.read(st, v[1])
        return as_iter(e, st, v, call)
    return as_iter(e, st, a, call)


@model('std::iter::Iterator::any', 'std::iter::Iterator::all')
def m_any(e, st, args, call):
    it = get_iter(e, st, args[0], call)
    want = call['p'].endswith('any')
    same = it
    while same[0] == 'it' and same[1] in ('rev', 'copied'):
        same = same[2]
    if not it_concrete(e, st, it) and same[0] == 'it' and same[1] in BASE:
        c = membership(e, st, same, args[1], call, want)
        if c is not None:
            found = ('isv', ('posof',) + c, 'Some')
            return one(st, found if want else T.op('not', found))

    def body(s, x, acc):
        out = []
        for s2, b in e.apply(s, args[1], [x], call):
            for s3, r in e.decide(s2, e.val(s2, b)):
                out.append((s3, 'stop' if r == want else 'go', ('c', 'bool', want)))
        return out
    return [(s, v if k == 'stop' else ('c', 'bool', not want)) for s, k, v in walk(e, st, it, call, body)]


def membership(e, st, it, f, call, want=True):
    """`any`/`position` whose predicate is `element == x` (`all`: its negation): (collection, x)."""
    e.record += 1
    try:
        s = st.fork()
        ev = s.ev
        d = it_desc(e, s, it)
        el = base_elem(e, s, it, d, 'probe')
        if el[0] != 'elem':
            return None
        segs = len(e.segments)
        outs = e.apply(s, f, [el], call)
    finally:
        e.record -= 1
    if len(outs) != 1:
        return None
    s2, b = outs[0]
    if s2.ev is not ev:
        return None
    b = e.val(s2, b)
    if not want:
        b = T.op('not', b)
    if b[0] == 'op' and b[1] == 'eq' and len(b) == 4:
        for x, y in ((b[2], b[3]), (b[3], b[2])):
            if x == el and not T.mentions(y, lambda t: t == el):
                return (d, y)
    return None


@model('std::array::{[T; N]}::map')
def m_array_map(e, st, args, call):
    v = e.vderef(st, args[0])
    if v[0] != 'arr':
        n = re.search(r'; (\d+)\]', call.get('dty') or '')
        if not n:
            return one(st, ('call', 'array::map', (v, e.val(st, args[1]))))
        v = ('arr', tuple(T.index(v, cint(i)) for i in range(int(n.group(1)))))
    outs = [(st, ())]
    for x in v[1]:
        outs = [(s2, done + (y,)) for s, done in outs for s2, y in e.apply(s, args[1], [x], call)]
    return [(s, ('arr', done)) for s, done in outs]


@model('std::iter::Iterator::position')
def m_position(e, st, args, call):
    it = get_iter(e, st, args[0], call)
    if not it_concrete(e, st, it) and it[0] == 'it' and it[1] in BASE:
        c = membership(e, st, it, args[1], call)
        if c is not None:
            return one(st, ('posof',) + c)
    d = it_desc(e, st, it)

    def body(s, x, acc):
        out = []
        for s2, b in e.apply(s, args[1], [x], call):
            for s3, r in e.decide(s2, e.val(s2, b)):
                if r:
                    i = acc if isinstance(acc, int) else None
                    key = find_key(x)
                    out.append((s3, 'stop', T.some(cint(i) if i is not None else enum_index(d, key))))
                else:
                    out.append((s3, 'go', acc + 1 if isinstance(acc, int) else acc))
        return out
    start = 0 if it_concrete(e, st, it) else None
    return [(s, v if k == 'stop' else T.NONE) for s, k, v in walk(e, st, it, call, body, start)]


def find_key(x):
    for t in T.subterms(x):
        if t[0] in ('elem', 'idx', 'mapk', 'mapv') and len(t) == 3:
            return t[2]
    return '?'


@model('std::iter::Iterator::find', 'std::iter::Iterator::find_map')
def m_find(e, st, args, call):
    it = get_iter(e, st, args[0], call)
    fm = call['p'].endswith('find_map')

    def body(s, x, acc):
        out = []
        if fm:
            for s2, o in e.apply(s, args[1], [x], call):
                ov = opt_value(e, s2, o)
                for s3, t in opt_variants(e, s2, ov):
                    out.append((s3, 'stop', T.some(payload(ov, 'Some'))) if t == 'Some' else (s3, 'go', None))
            return out
        r = e.alloc(s, x)
        for s2, b in e.apply(s, args[1], [r], call):
            for s3, t in e.decide(s2, e.val(s2, b)):
                out.append((s3, 'stop', T.some(x)) if t else (s3, 'go', None))
        return out
    return [(s, v if k == 'stop' else T.NONE) for s, k, v in walk(e, st, it, call, body)]


@model('std::iter::Iterator::for_each')
def m_for_each(e, st, args, call):
    it = get_iter(e, st, args[0], call)

    def body(s, x, acc):
        return [(s2, 'go', None) for s2, _ in e.apply(s, args[1], [x], call)]
    return [(s, UNIT) for s, k, v in walk(e, st, it, call, body)]


@model('std::iter::Iterator::try_for_each')
def m_try_for_each(e, st, args, call):
    it = get_iter(e, st, args[0], call)

    def body(s, x, acc):
        out = []
        for s2, r in e.apply(s, args[1], [x], call):
            rv = e.val(s2, r)
            t = call.get('dty') or ''
            isopt = t.startswith('std::option')
            for s3, k in e.fork_variant(s2, rv, ['Some', 'None'] if isopt else ['Ok', 'Err']):
                if k in ('Ok', 'Some'):
                    out.append((s3, 'go', None))
                else:
                    out.append((s3, 'stop', T.NONE if isopt else T.err(payload(rv, 'Err'))))
        return out
    isopt = (call.get('dty') or '').startswith('std::option')
    return [(s, v if k == 'stop' else (T.some(UNIT) if isopt else T.ok(UNIT))) for s, k, v in walk(e, st, it, call, body)]


def appended(e, st, it, args, call):
    """The text of a fold that does nothing but append every element, or None."""
    k = it
    while k[1] in ('copied', 'rev'):
        k = k[2]
    if (call.get('dty') or '') != 'std::string::String' or k[1] not in ('slice', 'own', 'iter') or \
            not isinstance(k[3], int) or k[3]:
        return None
    d, key, acc = it_desc(e, st, it), f'fold.{e.nframe}', sym('text so far')
    e.record += 1
    try:
        s0 = st.fork()
        ev, outs = s0.ev, []
        for s, x, ni in it_next(e, s0, it_widen(it, key), call):
            if x is not None:
                outs += [(s2, e.val(s2, r)) for s2, r in e.apply(s, args[2], [acc, x], call)]
    finally:
        e.record -= 1
    if len(outs) != 1 or outs[0][0].ev is not ev or outs[0][0].facts != st.facts or \
            outs[0][1] != ('cat', (acc, ('elem', d, key))):
        return None
    before, text = e.val(st, args[1]), ('op', 'join', d, cstr(''))
    return text if before == cstr('') else T.strcat([before, text])


@model('std::iter::Iterator::fold', 'std::iter::Iterator::try_fold')
def m_fold(e, st, args, call):
    it = get_iter(e, st, args[0], call)
    if it_concrete(e, st, it):
        def body(s, x, acc):
            return [(s2, 'go', r) for s2, r in e.apply(s, args[2], [acc, x], call)]
        return [(s, v) for s, k, v in walk(e, st, it, call, body, args[1])]
    text = appended(e, st, it, args, call)
    if text is not None:
        return one(st, text)
    cell = e.alloc(st, args[1])

    def body(s, x, acc):
        out = []
        for s2, r in e.apply(s, args[2], [e.deref(s, cell), x], call):
            e.write(s2, cell[1], r, silent=True)
            out.append((s2, 'go', None))
        return out
    return [(s, e.deref(s, cell)) for s, k, v in walk(e, st, it, call, body)]


@model('std::iter::Iterator::collect', 'std::iter::FromIterator::from_iter')
def m_collect(e, st, args, call):
    it = get_iter(e, st, args[0], call)
    t = call.get('dty') or ''
    r = it_concrete_items(e, st, it, call)
    if r is not None:
        s, xs = r
        if t.startswith('std::string::String'):
            return one(s, T.strcat([e.vderef(s, x) for x in xs]))
        if 'Map<' in t.split('<')[0] + '<':
            m = ('emap',)
            for x in xs:
                m = ('m', 'insert', m, (e.val(s, T.field(x, '0')), e.val(s, T.field(x, '1'))))
            return one(s, m)
        return one(s, ('arr', tuple(xs)))
    d = it_desc(e, st, it)
    text = t.startswith('std::string::String')
    # transparent adaptors only: the same sequence
    k = it
    while k[1] == 'copied':
        k = k[2]
    if k[1] in ('slice', 'own', 'iter', 'keys', 'values', 'split', 'chars', 'rev', 'skip', 'take') and \
            (k[1] in BASE or it_base_direct(k)):
        return one(st, T.op('join', coll_name(d), cstr('')) if text else coll_name(d))
    if t.startswith('std::vec::Vec'):
        x = filtered(e, st, it, d, call)
        if x is not None:
            return one(st, x)
    cell = e.alloc(st, ('collected',))

    def body(s, x, acc):
        e.write(s, cell[1], ('collected', e.val(s, x)), silent=True)
        s.emit('collect', e.val(s, x))
        return [(s, 'go', None)]
    # single, effect-free mapping: a mapped sequence
    e.record += 1
    try:
        key = f"collect.{e.nframe}"
        s0 = st.fork()
        ev = s0.ev
        outs = [(s, x) for s, x, ni in it_next(e, s0, it_widen(it, key), call) if x is not None]
    finally:
        e.record -= 1
        e.refused.pop(key, None)
    if len(outs) == 1 and outs[0][0].ev is ev and not selects(it):
        x = e.val(outs[0][0], e.vderef(outs[0][0], outs[0][1]))
        if text and x[0] in ('index', 'elem') and x[1] == coll_name(d):
            return one(st, T.op('join', x[1], cstr('')))
        return one(st, ('collect', d, key, e.val(outs[0][0], outs[0][1])))
    out = []
    for s, k2, v in walk(e, st, it, call, body):
        b = unfiltered(d)
        out.append((s, ('collect*', d) if b is d else ('collect*', b, 'some')))
    return out


def selects(it):
    """Are the elements of an iterator not, one by one, those of its sequence?"""
    while it[1] not in BASE:
        if it[1] in ('filter', 'filter_map', 'take_while', 'skip_while', 'map_while', 'flat', 'step_by', 'chain', 'zip'):
            return True
        it = it[2]
    return False


def unfiltered(d):
    """The sequence behind filters: what is kept of it are the paths that collect something."""
    while d[0] in ('filter', 'filter_map'):
        d = d[1]
    return d


def it_base_direct(k):
    while k[1] not in BASE:
        if k[1] not in ('rev', 'skip', 'take', 'copied'):
            return False
        k = k[2]
    return True


def coll_name(d):
    return d


@model('std::iter::Iterator::count')
def m_count(e, st, args, call):
    it = get_iter(e, st, args[0], call)
    r = it_concrete_items(e, st, it, call)
    if r is not None:
        return one(r[0], cint(len(r[1])))
    if not selects(it):
        return one(st, T.length(it_desc(e, st, it)))
    return folded(e, st, it, call, cint(0), lambda s, n, x: [(s, T.op('add', n, cint(1)))])


def folded(e, st, it, call, start, step):
    """`for x in it { acc = step(acc, x) }`"""
    cell = e.alloc(st, start)

    def body(s, x, acc):
        out = []
        for s2, r in step(s, e.val(s, e.deref(s, cell)), x):
            e.write(s2, cell[1], r, silent=True)
            out.append((s2, 'go', None))
        return out
    return [(s, e.deref(s, cell)) for s, k, v in walk(e, st, it, call, body)]


@model('std::iter::Iterator::last')
def m_last(e, st, args, call):
    it = get_iter(e, st, args[0], call)
    r = it_concrete_items(e, st, it, call)
    if r is not None:
        return one(r[0], T.some(r[1][-1]) if r[1] else T.NONE)
    return folded(e, st, it, call, T.NONE, lambda s, n, x: [(s, T.some(x))])


@model('std::iter::Iterator::nth')
def m_nth(e, st, args, call):
    it = get_iter(e, st, args[0], call)
    d = it_desc(e, st, it)
    i = e.vderef(st, args[1])
    out = []
    for s, b in e.decide(st, T.op('lt', i, T.length(d))):
        out.append((s, T.some(T.index(d, i)) if b else T.NONE))
    return out


@model('std::iter::Iterator::sum')
def m_sum(e, st, args, call):
    it = get_iter(e, st, args[0], call)
    zero = cint(0) if (call.get('dty') or '')[:1] in 'iu' else cflt(0.0)
    if zero == cint(0) and not it_concrete(e, st, it) and not selects(it):
        # a number of pure terms
        key = f'sum.{e.nframe}'
        e.record += 1
        try:
            s0 = st.fork()
            ev = s0.ev
            outs = [(s, e.val(s, e.vderef(s, x))) for s, x, ni in it_next(e, s0, it_widen(it, key), call) if x is not None]
        finally:
            e.record -= 1
            e.refused.pop(key, None)
        if len(outs) == 1 and outs[0][0].ev is ev and outs[0][0].facts == st.facts:
            d = it_desc(e, st, it)
            return one(st, ('op', 'sum', d, T.subst(outs[0][1], {key: 'each'})))
    return folded(e, st, it, call, zero, lambda s, n, x: [(s, T.op('add', n, e.vderef(s, x)))])


@model('std::iter::Iterator::max', 'std::iter::Iterator::min')
def m_extreme(e, st, args, call):
    it = get_iter(e, st, args[0], call)
    name = call['p'].rsplit('::', 1)[-1]

    def step(s, acc, x):
        out = []
        for s2, t in opt_variants(e, s, acc):
            out.append((s2, T.some(x if t == 'None' else T.op(name, payload(acc, 'Some'), e.vderef(s2, x)))))
        return out
    return folded(e, st, it, call, T.NONE, step)


@model('std::iter::Iterator::rposition', 'std::iter::DoubleEndedIterator::rposition')
def m_rposition(e, st, args, call):
    it = reverse(('it', 'enum', rebase(e, st, get_iter(e, st, args[0], call)), 0))

    def body(s, x, acc):
        out = []
        i, y = x[1]
        for s2, b in e.apply(s, args[1], [y], call):
            for s3, t in e.decide(s2, e.val(s2, b)):
                out.append((s3, 'stop', T.some(i)) if t else (s3, 'go', None))
        return out
    return [(s, v if k == 'stop' else T.NONE) for s, k, v in walk(e, st, it, call, body)]


# ------------------------------------------------------------------ callables
@model('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call')
def m_call(e, st, args, call):
    a = args[1]
    xs = list(a[1]) if a[0] == 'tup' else [] if a == UNIT else [a]
    return e.apply(st, args[0], xs, call)


# ------------------------------------------------------------------ serde_json
JV = 'serde_json::Value'


def j_as(variant, name):
    def f(e, st, args, call):
        loc = loc_of(e, st, args[0])
        v = e.val(st, e.read(st, loc))
        out = []
        for s, x in split_json(e, st, v, variant):
            if x:
                out.append((s, T.some(('ref', (loc[0], loc[1] + (('v', variant), ('f', '0')))))))
            else:
                out.append((s, T.NONE))
        return out
    return f


def split_json(e, st, v, variant):
    return e.decide(st, isv_path(v, variant, JV))


def isv_path(v, n, path):
    k = T.variant_of(v)
    if k is not None:
        return ('c', 'bool', k == n)
    return ('isv', v, n, path)


for _n, _v in (('array', 'Array'), ('object', 'Object'), ('str', 'String'), ('bool', 'Bool')):
    EXACT[f'serde_json::Value::as_{_n}'] = j_as(_v, _n)
    EXACT[f'serde_json::Value::as_{_n}_mut'] = j_as(_v, _n)
    EXACT[f'serde_json::Value::is_{ {"str": "string", "bool": "boolean"}.get(_n, _n)}'] = (
        lambda v: lambda e, st, args, call: one(st, isv_path(e.vderef(st, args[0]), v, JV)))(_v)
EXACT['serde_json::Value::is_null'] = lambda e, st, args, call: one(st, isv_path(e.vderef(st, args[0]), 'Null', JV))
EXACT['serde_json::Value::is_number'] = lambda e, st, args, call: one(st, isv_path(e.vderef(st, args[0]), 'Number', JV))


@model('serde_json::Value::as_f64')
def j_f64(e, st, args, call):
    v = e.vderef(st, args[0])
    out = []
    for s, b in e.decide(st, isv_path(v, 'Number', JV)):
        out.append((s, ('op', 'as_f64', payload(v, 'Number')) if b else T.NONE))
    return out


@model('serde_json::Number::as_f64', 'serde_json::Number::as_i64', 'serde_json::Number::as_u64')
def j_num(e, st, args, call):
    return one(st, ('op', call['p'].rsplit('::', 1)[-1], e.vderef(st, args[0])))


@model('serde_json::Value::pointer', 'serde_json::Value::get')
def j_pointer(e, st, args, call):
    t = next((x for x in call.get('targs') or () if 'Value' not in x), '').lstrip('&').replace('mut ', '')
    if call['p'].endswith('::get') and ('str' in t or 'String' in t):
        v, key, out = e.vderef(st, args[0]), e.vderef(st, args[1]), []
        for s, x in split_json(e, st, v, 'Object'):
            out.append((s, map_get(payload(v, 'Object'), key) if x else T.NONE))
        return out
    return one(st, ('op', 'json_' + call['p'].rsplit('::', 1)[-1], e.vderef(st, args[0]), e.vderef(st, args[1])))


@model('serde_json::to_value', 'serde_json::from_value')
def j_conv(e, st, args, call):
    t = (call.get('targs') or ('',))[0].lstrip('&')
    if call['p'].endswith('to_value'):
        # values are what they are
        v, J = e.vderef(st, args[0]), 'serde_json::Value'
        if t == J:
            return one(st, T.ok(v))
        kind = 'Array' if t == f'std::vec::Vec<{J}>' else 'String' if t in ('std::string::String', 'str') else 'Bool' if t == 'bool' else None
        if kind:
            return one(st, T.ok(T.adt(J, kind, (('0', v),))))
    return one(st, ('op', call['p'].rsplit('::', 1)[-1], e.vderef(st, args[0]), cstr(str(call.get('targs')))))


# ------------------------------------------------------------------ taffy
TX = 'taffy::TaffyTree'


@model(TX + '::get_node_context', TX + '::get_node_context_mut')
def t_ctx(e, st, args, call):
    n = e.vderef(st, args[1])
    o = ('hasctx', n)
    return [(s, T.some(('ctx', n)) if x == 'Some' else T.NONE) for s, x in e.fork_variant(st, o, ['Some', 'None'])]


@model(TX + '::children')
def t_children(e, st, args, call):
    tr = e.vderef(st, args[0])
    return one(st, T.ok(('children', version(tr), e.vderef(st, args[1]))))


def version(tr):
    """How many structural edits this tree has seen on the path (children lists before and after an edit differ)."""
    n = 0
    while tr[0] == 'm':
        if tr[1] in STRUCT:
            n += 1
        tr = tr[2]
    return cint(n)


STRUCT = ('add_child', 'insert_child_at_index', 'remove_child', 'remove_child_at_index', 'set_children', 'remove')


@model(TX + '::style')
def t_style(e, st, args, call):
    n = e.vderef(st, args[1])
    return one(st, T.ok(style_of(e, st, e.vderef(st, args[0]), n)))


def style_of(e, st, tr, n):
    t = tr
    while t[0] == 'm':
        if t[1] == 'set_style' and t[3][0] == n:
            return t[3][1]
        if t[1] == 'set_style' and t[3][0] != n:
            pass
        t = t[2]
    return ('style', n)


@model(TX + '::parent')
def t_parent(e, st, args, call):
    return one(st, ('parent', e.vderef(st, args[1])))


@model(TX + '::layout')
def t_layout(e, st, args, call):
    return one(st, T.ok(('layout', e.vderef(st, args[1]))))


@model('taffy::PrintTree::get_final_layout', TX + '::get_final_layout')
def t_flayout(e, st, args, call):
    return one(st, ('layout', e.vderef(st, args[1])))


@model(TX + '::child_count')
def t_count(e, st, args, call):
    tr = e.vderef(st, args[0])
    return one(st, T.length(('children', version(tr), e.vderef(st, args[1]))))


@model(TX + '::new_leaf', TX + '::new_leaf_with_context')
def t_leaf(e, st, args, call):
    e.nheap += 1
    n = ('newnode', e.nheap)
    vargs = tuple(e.val(st, x) for x in args[1:])
    mutate(e, st, args[0], 'new_leaf', (n,) + vargs)
    return one(st, T.ok(n))


def t_mut(name, fallible):
    def f(e, st, args, call):
        vargs = tuple(e.vderef(st, x) for x in args[1:])
        mutate(e, st, args[0], name, vargs)
        if not fallible:
            return one(st, T.ok(UNIT))
        r = ('call', name, vargs)
        return [(s, T.ok(payload(r, 'Ok')) if x == 'Ok' else T.err(payload(r, 'Err')))
                for s, x in e.fork_variant(st, r, ['Ok', 'Err'])]
    return f


for _k in ('add_child', 'mark_dirty', 'set_children', 'set_node_context', 'set_style', 'remove_child', 'remove'):
    EXACT[f'{TX}::{_k}'] = t_mut(_k, False)
for _k in ('insert_child_at_index', 'remove_child_at_index', 'replace_child_at_index'):
    EXACT[f'{TX}::{_k}'] = t_mut(_k, True)


@model(TX + '::child_at_index')
def t_child_at(e, st, args, call):
    tr = e.vderef(st, args[0])
    c = ('children', version(tr), e.vderef(st, args[1]))
    i = e.vderef(st, args[2])
    out = []
    for s, b in e.decide(st, T.op('lt', i, T.length(c))):
        out.append((s, T.ok(T.index(c, i)) if b else T.err(('s', 'ChildIndexOutOfBounds'))))
    return out


@model(TX + '::compute_layout_with_measure')
def t_compute(e, st, args, call):
    vargs = tuple(e.vderef(st, x) for x in args[1:])
    st.emit('call', 'compute_layout', vargs, e.where(call))
    return one(st, T.ok(UNIT))


@model(TX + '::new')
def t_new(e, st, args, call):
    return one(st, ('newtree',))


@model('taffy::prelude::length', 'taffy::style_helpers::length')
def t_length(e, st, args, call):
    return one(st, ('op', 'length', e.vderef(st, args[0])))


def pure_style(e, st, args, call):
    """taffy's constructors of style values (`Rect::zero()`, `Size::auto()`, ...): pure."""
    m = re.search(r'(\w+)(?:<[^<>]*>)?>+::(\w+)$', call['p'])
    return one(st, ('opaque', f"{m.group(1)}::{m.group(2)}" if m else call['p']))
