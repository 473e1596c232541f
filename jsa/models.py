"""Semantics of the standard library and of the dependencies, as far as the code base uses them."""
import re
from . import terms as t
from .terms import T, mk, C, A, isp, const
from .interp import (Unsupported, Panic, Split, UNIT, NONE, some, ok, err, STD_ENUMS)

MODELS = {}
ITER = 'iter'
RANGE = 'core::ops::range::Range'
RANGEI = 'core::ops::range::RangeInclusive'
POLL = 'core::task::poll::Poll'
STD_ENUMS[POLL] = lambda a: [('Ready', [a[0]], ['ready']), ('Pending', [], [])]
STD_ENUMS['core::cmp::Ordering'] = lambda a: [('Less', [], []), ('Equal', [], []), ('Greater', [], [])]


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def each_name(prefixes, names):
    return ['%s::%s' % (p, n) for p in prefixes for n in names]


def val(I, st, v):
    """value behind any reference"""
    return I.mget(st, v)


def is_int(ty):
    return ty and ty[0] in ('uint', 'int')


def seqv(I, st, v):
    v = val(I, st, v)
    if isinstance(v, T) and v.op == 'str':
        return t.lit(C(b) for b in v.a[0].encode())
    if isinstance(v, T) and v.op == 'E' and v.a[0] == ITER:
        raise Unsupported('iterator as sequence')
    if not (isinstance(v, T) and v.op in ('seq', 'base', 'row')):
        raise Unsupported('sequence expected, got %s' % t.show(v, 2))
    return v


# ------------------------------------------------------------------ identities
@model('Clone::clone', 'ToOwned::to_owned', 'Deref::deref', 'AsRef::as_ref', 'Borrow::borrow', 'slice::to_vec', 'Iterator::cloned',
       'Iterator::copied', 'Vec::as_slice', 'slice::as_ref', 'ManuallyDrop::new', 'MaybeUninit::new', 'slice::into_vec',
       'boxed::box_new', 'Vec::into_boxed_slice', 'hint::black_box', 'convert::identity', 'array::as_slice',
       'MaybeUninit::assume_init', 'Box::assume_init', 'boxed::box_assume_init_into_vec_unsafe', 'From::from#id',
       'str::as_bytes', 'String::as_bytes', 'String::into_bytes', 'RefCell::new', 'Cell::new', 'Iterator::by_ref#v')
def identity(I, st, a, ci):
    v = a[0]
    if ci.name == 'deref' and isinstance(v, T) and v.op == 'E' and v.a[0].endswith('MutexGuard'):
        v = v.a[2][0]
    if ci.name == 'deref' and isinstance(v, T):
        w = I.mget(st, v) if v.op == 'mref' else v
        if isinstance(w, T) and w.op == 'E' and w.a[0] == LAZY:
            return force(I, st, w)
        if isinstance(w, T) and w.op == 'E' and isinstance(w.a[0], str) and w.a[0].endswith('MutexGuard'):
            v = w.a[2][0]
    r = val(I, st, v)
    if ci.name in ('assume_init', 'box_assume_init_into_vec_unsafe') and isinstance(r, T) and r.op == 'uninit':
        raise Unsupported('read of uninitialised memory')
    if ci.name == 'assume_init' and ci.targs and is_int(ci.targs[0]) and isinstance(r, T) and r.op == 'seq':
        return t.word_of(I.split_lit(st, r, t.WID[ci.targs[0][1]] // 8), t.WID[ci.targs[0][1]])
    return r


@model('IntoFuture::into_future', 'Pin::new_unchecked', 'Pin::new', 'Box::new', 'Box::pin')
def identity_any(I, st, a, ci):
    return a[0]


@model('DerefMut::deref_mut', 'Vec::as_mut_slice', 'AsMut::as_mut', 'BorrowMut::borrow_mut', 'Pin::as_mut',
       'Iterator::by_ref', 'Pin::get_unchecked_mut', 'Pin::get_mut', 'MaybeUninit::as_mut_ptr', 'Vec::as_mut_ptr',
       'slice::as_mut_ptr', 'Vec::as_ptr', 'slice::as_ptr', 'slice::as_mut_slice')
def identity_mut(I, st, a, ci):
    v = a[0]
    if isinstance(v, T) and v.op == 'mref':
        c = I._peek(st, v.a[0], v.a[1])
        if isinstance(c, T) and c.op == 'mref':
            return c
        if isinstance(c, T) and c.op == 'E' and isinstance(c.a[0], str) and c.a[0].endswith('MutexGuard'):
            return c.a[2][0]
    return v


@model('future::get_context')
def get_context(I, st, a, ci):
    return a[0]


@model('mem::drop', 'mem::forget')
def m_drop(I, st, a, ci):
    return UNIT


@model('mem::take')
def m_take(I, st, a, ci):
    v = val(I, st, a[0])
    if v.op == 'seq':
        I.mset(st, a[0], t.EMPTY)
    elif v.op == 'E' and v.a[0].endswith('Option') or v.op in ('opq',):
        v = I.open(st, v)
        I.mset(st, a[0], NONE)
    elif isp(v):
        I.mset(st, a[0], t.ZERO)
    else:
        raise Unsupported('mem::take of ' + v.op)
    return v


@model('mem::replace', 'Option::replace#mem')
def m_replace(I, st, a, ci):
    v = val(I, st, a[0])
    I.mset(st, a[0], a[1])
    return v


@model('mem::swap')
def m_swap(I, st, a, ci):
    x, y = val(I, st, a[0]), val(I, st, a[1])
    I.mset(st, a[0], y)
    I.mset(st, a[1], x)
    return UNIT


def size_align(I, ty):
    k = ty[0]
    if k in ('uint', 'int', 'float'):
        w = t.WID.get(ty[1], 64) // 8
        return w, min(w, 16)
    if k == 'bool':
        return 1, 1
    if k == 'array' and isinstance(ty[2], int):
        s, a = size_align(I, ty[1])
        return s * ty[2], a
    if k in ('ref', 'ptr'):
        return (16, 8) if ty[2][0] in ('slice', 'str', 'dyn') else (8, 8)
    if k == 'tuple':
        fs = list(ty[1])
    elif k == 'adt' and ty[1] in ('alloc::vec::Vec', 'alloc::string::String'):
        return 24, 8
    elif k == 'adt':
        adt = I.p.adts.get(ty[1])
        if not adt or adt['kind'] != 'struct' or 'ty' not in (adt['variants'][0]['fields'] or [{'ty': 0}])[0]:
            raise Unsupported('size of %r' % (ty,))
        env = dict(zip(adt['generics'], ty[2]))
        fs = [I.rty(adt['crate'], f['ty'], env) for f in adt['variants'][0]['fields']]
    else:
        raise Unsupported('size of %r' % (ty,))
    sa = sorted((size_align(I, f) for f in fs), key=lambda x: -x[1])
    s = sum(x[0] for x in sa)
    al = max([x[1] for x in sa], default=1)
    return -(-s // al) * al, al


@model('mem::size_of')
def m_size_of(I, st, a, ci):
    if ci.targs[0][0] == 'param':
        # any number of bytes
        return A(t.sym('size of %s' % (ci.targs[0][1],), 'usize'))
    return C(size_align(I, ci.targs[0])[0])


@model('mem::size_of_val')
def m_size_of_val(I, st, a, ci):
    ty = ci.targs[0]
    if ty[0] == 'slice':
        return t.scale(t.slen(seqv(I, st, a[0])), size_align(I, ty[1])[0])
    return C(size_align(I, ty)[0])


# ------------------------------------------------------------------ panics
@model('panicking::panic', 'panicking::panic_fmt', 'rt::begin_panic', 'rt::panic_fmt', 'panicking::assert_failed',
       'panicking::unreachable_default_msg', 'panicking::unimplemented_default_msg', 'panicking::panic_display',
       'option::unwrap_failed', 'result::unwrap_failed', 'panicking::panic_explicit', 'panicking::panic_str_2015',
       'panicking::unreachable_display', 'rt::panic_display', 'panicking::panic_const', 'panicking::panic_nounwind',
       'option::expect_failed', 'panicking::assert_failed_inner', 'panicking::assert_matches_failed',
       'process::abort', 'process::exit')
def m_panic(I, st, a, ci):
    msg = ''
    for x in a:
        if isinstance(x, T) and x.op == 'str':
            msg = x.a[0]
    I.panic('panic', msg or ci.path, ci.where, st)
    return []


def fmt_any(I, st, a, ci):
    return mk('opq', 'fmt', ('other',))


for n in ('Arguments::new_const', 'Arguments::new_v1', 'Argument::new_display', 'Argument::new_debug', 'Arguments::new',
          'Arguments::from_str', 'Argument::new_lower_hex', 'Arguments::as_str', 'rt::new_const', 'fmt::format'):
    MODELS[n] = fmt_any


# ------------------------------------------------------------------ Option and Result
def opt(I, st, v):
    v = I.open(st, val(I, st, v))
    if v.op != 'E':
        raise Unsupported('option expected, got %s' % v.op)
    return v


def is_some(v):
    """has the content branch (Some / Ok)"""
    return v.a[1] == (1 if v.a[0].endswith('Option') else 0)


def con(v):
    return v.a[2][0]


@model('Option::is_some', 'Result::is_ok')
def o_is_some(I, st, a, ci):
    return is_some(opt(I, st, a[0]))


@model('Option::is_none', 'Result::is_err')
def o_is_none(I, st, a, ci):
    return not is_some(opt(I, st, a[0]))


@model('Option::unwrap', 'Option::expect', 'Result::unwrap', 'Result::expect', 'Option::unwrap_unchecked')
def o_unwrap(I, st, a, ci):
    v = opt(I, st, a[0])
    if is_some(v):
        I.prove('unwrap', ci.where)
        return con(v)
    I.panic('unwrap', ci.path.split('::')[-1] + ' on ' + ('None' if v.a[0].endswith('Option') else 'Err'), ci.where, st)
    return []


@model('Result::unwrap_err', 'Result::expect_err')
def o_unwrap_err(I, st, a, ci):
    v = opt(I, st, a[0])
    if not is_some(v):
        return con(v)
    I.panic('unwrap', 'unwrap_err on Ok', ci.where, st)
    return []


def mapres(rs, f):
    return [(s, f(v)) for s, v in rs]


@model('Option::map', 'Result::map')
def o_map(I, st, a, ci):
    v = opt(I, st, a[0])
    if is_some(v):
        return mapres(I.apply(st, a[1], [con(v)]), lambda x: mk('E', v.a[0], v.a[1], (x,)))
    return v


@model('Result::map_err')
def o_map_err(I, st, a, ci):
    v = opt(I, st, a[0])
    if is_some(v):
        return v
    return mapres(I.apply(st, a[1], [con(v)]), err)


@model('Option::and_then', 'Result::and_then')
def o_and_then(I, st, a, ci):
    v = opt(I, st, a[0])
    return I.apply(st, a[1], [con(v)]) if is_some(v) else v


@model('Option::filter')
def o_filter(I, st, a, ci):
    v = opt(I, st, a[0])
    if not is_some(v):
        return v
    out = []
    for s, c in I.apply(st, a[1], [con(v)]):
        out += fork_bool(I, s, c, lambda s2, r: v if r else NONE)
    return out


def fork_bool(I, s, c, f):
    """[(state, f(state, bool))] for both outcomes of a condition"""
    r = s.decide(c)
    if r is not None:
        return [(s, f(s, r))]
    try:
        s.need(c)
    except Split as e:
        out = []
        for s2 in I.fork(s, e.cond):
            out += fork_bool(I, s2, c, f)
        return out


@model('Option::unwrap_or', 'Result::unwrap_or')
def o_unwrap_or(I, st, a, ci):
    v = opt(I, st, a[0])
    return con(v) if is_some(v) else a[1]


@model('Option::unwrap_or_else', 'Result::unwrap_or_else')
def o_unwrap_or_else(I, st, a, ci):
    v = opt(I, st, a[0])
    if is_some(v):
        return con(v)
    return I.apply(st, a[1], [] if v.a[0].endswith('Option') else [con(v)])


@model('Option::map_or')
def o_map_or(I, st, a, ci):
    v = opt(I, st, a[0])
    return I.apply(st, a[2], [con(v)]) if is_some(v) else a[1]


@model('Option::map_or_else')
def o_map_or_else(I, st, a, ci):
    v = opt(I, st, a[0])
    return I.apply(st, a[2], [con(v)]) if is_some(v) else I.apply(st, a[1], [])


@model('Option::is_some_and', 'Result::is_ok_and')
def o_is_some_and(I, st, a, ci):
    v = opt(I, st, a[0])
    return I.apply(st, a[1], [con(v)]) if is_some(v) else False


@model('Option::is_none_or')
def o_is_none_or(I, st, a, ci):
    v = opt(I, st, a[0])
    return I.apply(st, a[1], [con(v)]) if is_some(v) else True


@model('Option::ok_or')
def o_ok_or(I, st, a, ci):
    v = opt(I, st, a[0])
    return ok(con(v)) if is_some(v) else err(a[1])


@model('Option::ok_or_else')
def o_ok_or_else(I, st, a, ci):
    v = opt(I, st, a[0])
    return ok(con(v)) if is_some(v) else mapres(I.apply(st, a[1], []), err)


@model('Result::ok')
def r_ok(I, st, a, ci):
    v = opt(I, st, a[0])
    return some(con(v)) if is_some(v) else NONE


@model('Result::err')
def r_err(I, st, a, ci):
    v = opt(I, st, a[0])
    return NONE if is_some(v) else some(con(v))


@model('Option::or')
def o_or(I, st, a, ci):
    v = opt(I, st, a[0])
    return v if is_some(v) else a[1]


@model('Option::or_else')
def o_or_else(I, st, a, ci):
    v = opt(I, st, a[0])
    return v if is_some(v) else I.apply(st, a[1], [])


@model('Option::and')
def o_and(I, st, a, ci):
    return a[1] if is_some(opt(I, st, a[0])) else NONE


@model('Option::zip')
def o_zip(I, st, a, ci):
    v, w = opt(I, st, a[0]), opt(I, st, a[1])
    return some(mk('E', '()', 0, (con(v), con(w)))) if is_some(v) and is_some(w) else NONE


@model('Option::as_ref', 'Option::cloned', 'Option::copied', 'Option::as_deref', 'Result::as_ref', 'Option::iter#v')
def o_as_ref(I, st, a, ci):
    return val(I, st, a[0])


@model('Option::as_mut', 'Option::as_deref_mut')
def o_as_mut(I, st, a, ci):
    v = opt(I, st, a[0])
    if not (isinstance(a[0], T) and a[0].op == 'mref'):
        return v
    if is_some(v):
        I.mset(st, a[0], v)
        return some(I.mext(a[0], ('f', 0)))
    return NONE


@model('Option::take')
def o_take(I, st, a, ci):
    v = val(I, st, a[0])
    I.mset(st, a[0], NONE)
    return v


@model('Option::replace')
def o_replace(I, st, a, ci):
    v = val(I, st, a[0])
    I.mset(st, a[0], some(a[1]))
    return v


@model('Option::insert')
def o_insert(I, st, a, ci):
    I.mset(st, a[0], some(a[1]))
    return I.mext(a[0], ('f', 0))


@model('Option::get_or_insert_with')
def o_get_or_insert_with(I, st, a, ci):
    v = opt(I, st, a[0])
    if is_some(v):
        I.mset(st, a[0], v)
        return I.mext(a[0], ('f', 0))
    out = []
    for s, x in I.apply(st, a[1], []):
        I.mset(s, a[0], some(x))
        out.append((s, I.mext(a[0], ('f', 0))))
    return out


@model('Option::xor')
def o_xor(I, st, a, ci):
    v, w = opt(I, st, a[0]), opt(I, st, a[1])
    if is_some(v) == is_some(w):
        return NONE
    return v if is_some(v) else w


# the question mark operator
CF = 'core::ops::control_flow::ControlFlow'
STD_ENUMS[CF] = lambda a: [('Continue', [a[1]], ['c']), ('Break', [a[0]], ['b'])]


@model('Try::branch')
def try_branch(I, st, a, ci):
    v = opt(I, st, a[0])
    if is_some(v):
        return mk('E', CF, 0, (con(v),))
    return mk('E', CF, 1, (v,))


@model('FromResidual::from_residual')
def from_residual(I, st, a, ci):
    v = val(I, st, a[0])
    if len(ci.targs) > 1 and all(x[0] == 'adt' and x[1].endswith('Result') for x in ci.targs[:2]) and \
            isinstance(v, T) and v.op == 'E' and v.a[2]:
        dst, src = ci.targs[0][2][1], ci.targs[1][2][1]
        if src != dst:
            im = I.find_impl('From', 'from', dst, (src,))
            if im is None:
                raise Unsupported('conversion of the error of ?')
            return [(s, err(x)) for s, x in I.run(im[0], [v.a[2][0]], st, im[1])]
    return v


# ------------------------------------------------------------------ equality and order
@model('PartialEq::eq')
def m_eq(I, st, a, ci):
    if local_impl(I, ci):
        return NotImplemented
    return I.equal(st, a[0], a[1])


@model('PartialEq::ne')
def m_ne(I, st, a, ci):
    im = I.find_impl('PartialEq', 'eq', ci.targs[0])
    if im is not None:
        return [(s, t.bnot_(v)) for s, v in I.run(im[0], a, st, im[1])]
    return t.bnot_(I.equal(st, a[0], a[1]))


def local_impl(I, ci):
    if ci.rkey in I.p.bodies:
        return True
    return ci.trait is not None and ci.targs and I.find_impl(ci.trait, ci.name, ci.targs[0], ci.targs[1:]) is not None


ORD = 'core::cmp::Ordering'


def cmp3(I, st, x, y, ty=None):
    """position of x relative to y: 0 less, 1 equal, 2 greater; options, results and tuples lexicographically"""
    if isinstance(x, T) and isinstance(y, T) and not (isp(x) and isp(y)):
        x, y = I.open(st, x), I.open(st, y)
        if x.op == 'E' and y.op == 'E' and x.a[0] == y.a[0] and \
                (x.a[0] in ('()', ORD) or x.a[0].endswith('::Option') or x.a[0].endswith('::Result')):
            if x.a[1] != y.a[1]:
                return 0 if x.a[1] < y.a[1] else 2
            ts = () if ty is None else ty[1] if ty[0] == 'tuple' else ty[2] if ty[0] == 'adt' else ()
            if ty is not None and ty[0] == 'adt' and ty[1].endswith('Result'):
                ts = ts[x.a[1]:]
            for i, (u, v) in enumerate(zip(x.a[2], y.a[2])):
                r = cmp3(I, st, val(I, st, u), val(I, st, v), strip(ts[i]) if i < len(ts) else None)
                if r != 1:
                    return r
            return 1
    if ty is not None and I.is_field(ty):
        raise Unsupported('order on field members')
    if not (isp(x) and isp(y)):
        raise Unsupported('ordering of %s' % t.show(x, 2))
    if st.need(t.eq0(t.sub(x, y))):
        return 1
    return 0 if st.need(t.ge0(t.sub(t.sub(y, x), t.ONE))) else 2


@model('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def m_ord(I, st, a, ci):
    x, y = val(I, st, a[0]), val(I, st, a[1])
    if isp(x) and isp(y):
        if I.is_field(ci.targs[0]):
            raise Unsupported('order on field members')
        return I.compare(st, ci.name.capitalize(), x, y)
    im = I.find_impl('PartialOrd', 'partial_cmp', ci.targs[0])
    if im is not None:
        out = []
        for s, v in I.run(im[0], [x, y], st, im[1]):
            v = I.open(s, v)
            if not is_some(v):
                out.append((s, False))
                continue
            o = I.open(s, con(v)).a[1]
            out.append((s, {'lt': o == 0, 'le': o <= 1, 'gt': o == 2, 'ge': o >= 1}[ci.name]))
        return out
    o = cmp3(I, st, x, y, strip(ci.targs[0]))
    return {'lt': o == 0, 'le': o <= 1, 'gt': o == 2, 'ge': o >= 1}[ci.name]


@model('PartialOrd::partial_cmp', 'Ord::cmp')
def m_cmp(I, st, a, ci):
    if local_impl(I, ci):
        return NotImplemented
    r = mk('E', ORD, cmp3(I, st, val(I, st, a[0]), val(I, st, a[1]), strip(ci.targs[0])), ())
    return some(r) if ci.name == 'partial_cmp' else r


@model('Ordering::is_lt', 'Ordering::is_le', 'Ordering::is_gt', 'Ordering::is_ge', 'Ordering::is_eq', 'Ordering::is_ne')
def ord_is(I, st, a, ci):
    o = I.open(st, val(I, st, a[0])).a[1]
    n = ci.path.split('::')[-1]
    return {'is_lt': o == 0, 'is_le': o <= 1, 'is_gt': o == 2, 'is_ge': o >= 1, 'is_eq': o == 1, 'is_ne': o != 1}[n]


@model('Ord::max', 'Ord::min', 'cmp::max', 'cmp::min')
def m_minmax(I, st, a, ci):
    x, y = val(I, st, a[0]), val(I, st, a[1])
    ge = st.need(I.compare(st, 'Ge', x, y))
    big, small_ = (x, y) if ge else (y, x)
    return big if ci.path.endswith('max') or ci.name == 'max' else small_


# ------------------------------------------------------------------ integers
BIN = {'Add::add': 'Add', 'Sub::sub': 'Sub', 'Mul::mul': 'Mul', 'Div::div': 'Div', 'Rem::rem': 'Rem',
       'BitXor::bitxor': 'BitXor', 'BitAnd::bitand': 'BitAnd', 'BitOr::bitor': 'BitOr', 'Shl::shl': 'Shl', 'Shr::shr': 'Shr'}


def strip(ty):
    while ty and ty[0] in ('ref', 'ptr'):
        ty = ty[2]
    return ty


BIGUINT = 'num_bigint::biguint::BigUint'


def checked_arith(I, st, op, x, y, ty, where):
    n = ty[1]
    if op in ('Add', 'Sub', 'Mul'):
        e = I.arith(st, op + 'WithOverflow', x, y, ty)
        if st.need(e.a[2][1]):
            I.panic('overflow', 'arithmetic overflow', where, st)
            return []
        return e.a[2][0]
    if op in ('Div', 'Rem'):
        if st.need(t.eq0(y)):
            I.panic('div', 'division by zero', where, st)
            return []
    return I.arith(st, op, x, y, ty)


def nat_arith(I, st, op, x, y, where):
    if op == 'Add':
        return t.add(x, y)
    if op == 'Mul':
        return t.mul(x, y)
    if op == 'Sub':
        if st.need(t.ge0(t.sub(x, y))):
            I.prove('sub', where)
            return t.sub(x, y)
        I.panic('sub', 'BigUint subtraction underflow', where, st)
        return []
    if op in ('Div', 'Rem'):
        lo, _ = t.bounds(y)
        if not (lo is not None and lo > 0) and st.decide(t.ge0(t.sub(y, t.ONE))) is not True:
            if st.need(t.eq0(y)):
                I.panic('div', 'division by zero', where, st)
                return []
        return t.divmod_(x, y)[0 if op == 'Div' else 1]
    if op in ('Shl', 'Shr'):
        if const(y) is None or not 0 <= const(y) <= 1 << 16:
            return t.bigf(op.lower(), x, y)
        k = C(1 << const(y))
        return t.mul(x, k) if op == 'Shl' else t.divmod_(x, k)[0]
    if const(x) is not None and const(y) is not None:
        f = {'BitAnd': int.__and__, 'BitOr': int.__or__, 'BitXor': int.__xor__}.get(op)
        if f:
            return C(f(const(x), const(y)))
    if op == 'BitAnd':
        for p, q in ((x, y), (y, x)):
            c = const(q)
            if c is not None and c & (c + 1) == 0:
                return t.divmod_(p, C(c + 1))[1]
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        return t.bigf(op[3:].lower(), x, y)
    raise Unsupported('BigUint ' + op)


def binary(I, st, op, x, y, ty, where):
    ty = strip(ty)
    if is_int(ty):
        return checked_arith(I, st, op, x, y, ty, where)
    if ty[0] == 'adt' and ty[1] == BIGUINT:
        if not (isp(x) and isp(y)):
            raise Unsupported('BigUint operand')
        return nat_arith(I, st, op, x, y, where)
    if I.is_field(ty):
        x, y = I.fe(st, x), I.fe(st, y)
        if op == 'Add':
            return t.add(x, y)
        if op == 'Sub':
            return t.sub(x, y)
        if op == 'Mul':
            return t.mul(x, y)
        if op == 'Div':
            return A(mk('fdiv', x, y))
        raise Unsupported('field ' + op)
    if ty[0] == 'bool':
        return I.arith(st, op, x, y, ty)
    return NotImplemented


def m_bin(I, st, a, ci):
    if local_impl(I, ci):
        return NotImplemented
    return binary(I, st, BIN['%s::%s' % (ci.trait.split('<')[0].split('::')[-1], ci.name)],
                  val(I, st, a[0]), val(I, st, a[1]), ci.targs[0], ci.where)


for _n in BIN:
    MODELS[_n] = m_bin


def m_binassign(I, st, a, ci):
    if local_impl(I, ci):
        return NotImplemented
    op = ci.trait.split('<')[0].split('::')[-1].replace('Assign', '')
    r = binary(I, st, op, val(I, st, a[0]), val(I, st, a[1]), ci.targs[0], ci.where)
    if r is NotImplemented or r == []:
        return r
    I.mset(st, a[0], r)
    return UNIT


for _n in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitXor', 'BitAnd', 'BitOr', 'Shl', 'Shr'):
    MODELS['%sAssign::%s_assign' % (_n, _n.lower())] = m_binassign


@model('Not::not', 'Neg::neg')
def m_unary(I, st, a, ci):
    if local_impl(I, ci):
        return NotImplemented
    v = val(I, st, a[0])
    ty = strip(ci.targs[0])
    if ci.name == 'neg':
        return t.neg(v)
    return t.bnot(v, t.WID[ty[1]]) if isp(v) else t.bnot_(v)


def bytes_of(v, w, little):
    n = w // 8
    bs = [t.byte_of(v, i, w) for i in range(n)]
    return t.lit(bs if little else bs[::-1])


def int_method(I, st, tyname, m, a, ci):
    ty = ('int' if tyname[0] == 'i' else 'uint', tyname)
    w = t.WID[tyname]
    x = val(I, st, a[0]) if a else None
    if m in ('wrapping_add', 'wrapping_sub', 'wrapping_mul') and tyname[0] == 'u':
        f = {'wrapping_add': t.add, 'wrapping_sub': t.sub, 'wrapping_mul': t.mul}[m]
        p = f(x, val(I, st, a[1]))
        lo, hi = t.ty_bounds(tyname)
        if st.decide(I.inrange(p, tyname)) is True:
            return p
        if m == 'wrapping_add' and w >= 64 and not I.wrap_plain and all(
                z.op in ('len', 'div', 'mul') or z.op == 'sym' and 'phi#' not in str(z.a[0]) for z in t.atoms(p)):
            # counters: decide whether it wraps
            if st.need(I.inrange(p, tyname)):
                return p
            return t.sub(p, C(1 << w))
        return t.wrap(p, w)
    if m == 'wrapping_pow' and tyname[0] == 'u':
        p = t.fpow(x, val(I, st, a[1]))
        return p if st.decide(I.inrange(p, tyname)) is True else t.wrap(p, w)
    if m in ('checked_add', 'checked_sub', 'checked_mul', 'overflowing_add', 'overflowing_sub', 'saturating_sub',
             'saturating_add', 'saturating_mul', 'overflowing_mul', 'strict_add', 'strict_sub', 'unchecked_add',
             'unchecked_sub'):
        kind, op = m.split('_')
        f = {'add': t.add, 'sub': t.sub, 'mul': t.mul}[op]
        p = f(x, val(I, st, a[1]))
        inr = I.inrange(p, tyname)
        if kind == 'unchecked':
            return p
        good = st.need(inr)
        if kind == 'checked':
            return some(p) if good else NONE
        if kind == 'overflowing':
            return mk('E', '()', 0, (p if good else t.wrap(p, w), not good))
        if kind == 'strict':
            if good:
                return p
            I.panic('overflow', 'arithmetic overflow', ci.where, st)
            return []
        if good:
            return p
        lo, hi = t.ty_bounds(tyname)
        if tyname[0] == 'u':
            return t.ZERO if op == 'sub' else C(hi)
        return C(hi) if st.need(t.ge0(p)) else C(lo)
    if m in ('checked_div', 'checked_rem', 'wrapping_div', 'wrapping_rem', 'div_euclid', 'rem_euclid') and tyname[0] == 'u':
        y = val(I, st, a[1])
        z = st.need(t.eq0(y))
        if m.startswith('checked'):
            return NONE if z else some(t.divmod_(x, y)[1 if m.endswith('rem') else 0])
        if z:
            I.panic('div', 'division by zero', ci.where, st)
            return []
        return t.divmod_(x, y)[1 if 'rem' in m else 0]
    if m in ('rotate_left', 'rotate_right'):
        n = const(val(I, st, a[1]))
        if n is None:
            raise Unsupported('rotation by a variable')
        return t.rotl(x, n if m == 'rotate_left' else -n, w)
    if m in ('to_le', 'from_le'):
        return x
    if m in ('to_be', 'from_be', 'swap_bytes'):
        return t.word_of([t.byte_of(x, i, w) for i in range(w // 8)], w, False)
    if m in ('to_le_bytes', 'to_ne_bytes'):
        return bytes_of(x, w, True)
    if m == 'to_be_bytes':
        return bytes_of(x, w, False)
    if m in ('from_le_bytes', 'from_be_bytes', 'from_ne_bytes'):
        bs = I.split_lit(st, x, w // 8)
        return t.word_of(bs, w, m != 'from_be_bytes')
    if m in ('max', 'min'):
        y = val(I, st, a[1])
        ge = st.need(t.ge0(t.sub(x, y)))
        return (x if ge else y) if m == 'max' else (y if ge else x)
    if m == 'pow':
        e = const(val(I, st, a[1]))
        if e is None:
            raise Unsupported('integer power')
        r = t.ONE
        for _ in range(e):
            r = t.mul(r, x)
        if st.need(I.inrange(r, tyname)):
            return r
        I.panic('overflow', 'arithmetic overflow', ci.where, st)
        return []
    if m == 'div_ceil' and tyname[0] == 'u':
        return t.ceildiv(x, val(I, st, a[1]))
    if m == 'abs_diff':
        y = val(I, st, a[1])
        return t.sub(x, y) if st.need(t.ge0(t.sub(x, y))) else t.sub(y, x)
    if m in ('unsigned_abs',):
        return x if st.need(t.ge0(x)) else t.neg(x)
    if m == 'is_power_of_two':
        return t.eq0(t.sub(t.intf('count_ones', w, x), t.ONE))
    if m in ('count_ones', 'count_zeros', 'leading_zeros', 'leading_ones', 'trailing_zeros', 'trailing_ones', 'reverse_bits') and \
            tyname[0] == 'u' or m == 'isqrt' and tyname[0] == 'u':
        return t.intf(m, w, x)
    if m in ('ilog2', 'ilog10') and tyname[0] == 'u':
        if st.need(t.ge0(t.sub(x, t.ONE))):
            return t.intf(m, w, x)
        I.panic('overflow', 'logarithm of zero', ci.where, st)
        return []
    if m == 'next_power_of_two':
        if st.need(t.ge0(t.sub(C(1 << (w - 1)), x))):
            return t.intf(m, w, x)
        I.panic('overflow', 'arithmetic overflow', ci.where, st)
        return []
    if m in ('min_value', 'max_value') and not a:
        return C(t.ty_bounds(tyname)[m == 'max_value'])
    if m in ('is_negative', 'is_positive'):
        return t.ge0(t.sub(t.neg(x), t.ONE)) if m == 'is_negative' else t.ge0(t.sub(x, t.ONE))
    if m in ('wrapping_neg',) and tyname[0] == 'i':
        return C(-(1 << (w - 1))) if st.need(t.eq0(t.add(x, C(1 << (w - 1))))) else t.neg(x)
    if m in ('wrapping_abs', 'abs') and tyname[0] == 'i':
        if st.need(t.ge0(x)):
            return x
        if st.need(t.eq0(t.add(x, C(1 << (w - 1))))):
            if m == 'wrapping_abs':
                return C(-(1 << (w - 1)))
            I.panic('overflow', 'arithmetic overflow', ci.where, st)
            return []
        return t.neg(x)
    if m in ('wrapping_neg',) and tyname[0] == 'u':
        return t.wrap(t.neg(x), w)
    if m in ('wrapping_shl', 'wrapping_shr'):
        n = const(val(I, st, a[1]))
        if n is not None:
            return t.shl(x, n % w, w) if m.endswith('shl') else t.shr(x, n % w, w)
    if m in ('checked_shl', 'checked_shr'):
        n = const(val(I, st, a[1]))
        if n is not None:
            return NONE if n >= w else some(t.shl(x, n, w) if m.endswith('shl') else t.shr(x, n, w))
    return NotImplemented


@model('*')
def fallback(I, st, a, ci):
    """integer methods, inherent or through the num traits"""
    for n in ci.names():
        h, _, m = n.partition('::')
        if h in t.WID:
            r = int_method(I, st, h, m, a, ci)
            if r is not NotImplemented:
                return r
    if ci.trait is not None and ci.targs and is_int(ci.targs[0]) and not local_impl(I, ci):
        r = int_method(I, st, ci.targs[0][1], ci.name, a, ci)
        if r is not NotImplemented:
            return r
    return NotImplemented


@model('f64::ceil')
def f_ceil(I, st, a, ci):
    v = a[0]
    if v.op == 'flt':
        return mk('flt', t.ceildiv(v.a[0], v.a[1]), t.ONE)
    raise Unsupported('f64::ceil')


@model('f64::floor', 'f64::trunc')
def f_floor(I, st, a, ci):
    v = a[0]
    return mk('flt', t.divmod_(v.a[0], v.a[1])[0], t.ONE)


@model('Into::into', 'From::from', 'TryInto::try_into', 'TryFrom::try_from')
def m_convert(I, st, a, ci):
    tr = ci.trait.split('<')[0].split('::')[-1]
    if tr in ('From', 'TryFrom') and ci.targs and I.find_impl(tr, ci.name, ci.targs[0], ci.targs[1:]) and \
            not is_int(ci.targs[0]) and ci.targs[0][0] == 'adt' and ci.targs[0][1].startswith('jester'):
        return NotImplemented
    src, dst = (ci.targs[0], ci.targs[1]) if tr in ('Into', 'TryInto') else (ci.targs[1], ci.targs[0])
    v = val(I, st, a[0])
    tryc = tr.startswith('Try')
    src, dst0 = strip(src), dst
    dst = strip(dst)
    if is_int(dst) and (is_int(src) or src[0] in ('bool', 'char')):
        if src[0] == 'bool':
            return C(int(st.need(v)))
        inr = I.inrange(v, dst[1])
        if tryc:
            return ok(v) if st.need(inr) else err(mk('opq', 'TryFromIntError', ('other',)))
        return v
    if dst[0] == 'adt' and dst[1] == BIGUINT:
        if isp(v):
            if src[0] == 'int' and tryc:
                return ok(v) if st.need(t.ge0(v)) else err(mk('opq', 'TryFromBigIntError', ('other',)))
            if I.is_field(src):
                return I.field_uint(st, v, src)
            return v
        return NotImplemented
    if is_int(dst) and src[0] == 'adt' and src[1] == BIGUINT and tryc:
        return ok(v) if st.need(I.inrange(v, dst[1])) else err(mk('opq', 'TryFromBigIntError', ('other',)))
    if dst[0] == 'array' and isinstance(v, T) and v.op == 'seq':
        n = dst[2] if isinstance(dst[2], int) else None
        if n is None:
            raise Unsupported('conversion to array of unknown size')
        if tryc:
            if st.need(t.eq0(t.sub(t.slen(v), C(n)))):
                return ok(v)
            return err(mk('opq', 'TryFromSliceError', ('other',)))
        return v
    if isinstance(v, T) and v.op in ('seq', 'str') and (dst[0] in ('slice',) or (dst[0] == 'adt' and dst[1] in (
            'alloc::vec::Vec', 'alloc::boxed::Box', 'alloc::string::String', 'alloc::borrow::Cow', 'alloc::sync::Arc', 'alloc::rc::Rc'))):
        return seqv(I, st, v)
    if I.is_field(dst):
        return I.field_from(st, v, src, dst)
    if src == dst:
        return v
    if dst[0] == 'adt' and dst[1].endswith('Option'):
        return some(v)
    if dst[0] == 'adt' and dst[1].startswith('jester'):
        im = I.find_impl('From', 'from', dst, (src,))
        if im is not None:
            return I.run(im[0], [a[0]], st, im[1])
    if dst[0] == 'float':
        return mk('flt', v, t.ONE)
    return NotImplemented


@model('transmute')
def transmute(I, st, a, dst, src=None):
    v = val(I, st, a[0])
    if isp(v) and is_int(dst):
        return I.towidth(st, v, dst[1])
    if dst[0] == 'array' and is_int(dst[1]) and v.op == 'seq' and len(v.a[0]) == 1 and v.a[0][0].op == 'lit':
        vals = v.a[0][0].a[0]
        if not isinstance(dst[2], int):
            raise Unsupported('transmute')
        dw = t.WID[dst[1][1]]
        if src is None or not (src[0] == 'array' and is_int(src[1])):
            raise Unsupported('transmute from %r' % (src,))
        sw = t.WID[src[1][1]]
        bs = []
        for x in vals:
            bs += [t.byte_of(x, i, sw) for i in range(sw // 8)]
        k = dw // 8
        if len(bs) != k * dst[2]:
            raise Unsupported('transmute size')
        return t.lit(t.word_of(bs[i * k:(i + 1) * k], dw) if k > 1 else bs[i] for i in range(dst[2]))
    if dst[0] in ('ref', 'ptr'):
        return a[0]
    raise Unsupported('transmute to %r' % (dst,))


@model('intrinsics::transmute', 'mem::transmute')
def m_transmute(I, st, a, ci):
    return transmute(I, st, a, ci.targs[1], ci.targs[0])


@model('WriteBytesExt::write_u32', 'WriteBytesExt::write_u64', 'WriteBytesExt::write_u16', 'WriteBytesExt::write_u128')
def write_uN(I, st, a, ci):
    w = int(ci.name[7:])
    bo = ci.targs[-1]
    little = 'Little' in str(bo)
    if not little and 'Big' not in str(bo):
        raise Unsupported('byte order %r' % (bo,))
    v = seqv(I, st, a[0])
    I.mset(st, a[0], t.cat(v, bytes_of(a[1], w, little)))
    return ok(UNIT)


@model('WriteBytesExt::write_u8')
def write_u8(I, st, a, ci):
    I.mset(st, a[0], t.cat(seqv(I, st, a[0]), t.lit((a[1],))))
    return ok(UNIT)


# ------------------------------------------------------------------ sequences
@model('Vec::len', 'slice::len', 'array::len', 'str::len', 'String::len', 'ExactSizeIterator::len')
def s_len(I, st, a, ci):
    v = val(I, st, a[0])
    if isinstance(v, T) and v.op == 'E' and v.a[0] == ITER:
        return t.sub(v.a[2][1], v.a[2][0])
    return t.slen(seqv(I, st, v))


@model('Vec::is_empty', 'slice::is_empty', 'str::is_empty', 'String::is_empty')
def s_empty(I, st, a, ci):
    return t.eq0(t.slen(seqv(I, st, a[0])))


@model('Vec::new', 'Vec::with_capacity', 'Default::default', 'String::new')
def s_new(I, st, a, ci):
    if ci.name == 'default':
        return default(I, st, ci.targs[0], ci)
    return t.EMPTY


def default(I, st, ty, ci=None):
    if is_int(ty):
        return t.ZERO
    if ty[0] == 'bool':
        return False
    if ty[0] == 'adt' and ty[1] == 'alloc::vec::Vec':
        return t.EMPTY
    if ty[0] == 'adt' and ty[1].endswith('Option'):
        return NONE
    if ty[0] == 'adt' and ty[1] == BIGUINT:
        return t.ZERO
    if ty[0] == 'array' and isinstance(ty[2], int):
        return t.fill(default(I, st, ty[1], ci), C(ty[2]))
    if ty[0] == 'tuple':
        return mk('E', '()', 0, tuple(default(I, st, x, ci) for x in ty[1]))
    if ty[0] == 'adt' and ty[1].endswith('HashMap'):
        return new_map(I)
    return NotImplemented


@model('vec::from_elem')
def s_from_elem(I, st, a, ci):
    return t.fill(val(I, st, a[0]), a[1])


@model('Box::new_uninit', 'MaybeUninit::uninit')
def s_uninit(I, st, a, ci):
    ty = ci.targs[0] if ci.targs else None
    return mk('uninit', t.WID[ty[1]] // 8 if ty is not None and is_int(ty) else None)


@model('Vec::push')
def s_push(I, st, a, ci):
    I.mset(st, a[0], t.cat(seqv(I, st, a[0]), t.lit((a[1],))))
    return UNIT


@model('Vec::append')
def s_append(I, st, a, ci):
    x, y = seqv(I, st, a[0]), seqv(I, st, a[1])
    I.mset(st, a[0], t.cat(x, y))
    I.mset(st, a[1], t.EMPTY)
    return UNIT


@model('Vec::extend_from_slice', 'Extend::extend', 'Write::write_all', 'Vec::extend#')
def s_extend(I, st, a, ci):
    x = seqv(I, st, a[0]) if ci.name != 'extend' else None
    if ci.name == 'extend':
        out = []
        loc = a[0]
        it = as_iter(I, st, a[1])
        for s in each(I, st, it, lambda S, e: [push_to(I, S, loc, val(I, S, e))]):
            out.append((s, UNIT))
        return out
    I.mset(st, a[0], t.cat(x, seqv(I, st, a[1])))
    return ok(UNIT) if ci.name == 'write_all' else UNIT


def push_to(I, S, loc, e):
    cur = I.mget(S, loc)
    if isinstance(cur, T) and cur.op == 'map':
        kv = I.open(S, I.mget(S, e)).a[2]
        I.mset(S, loc, map_put(cur, val(I, S, kv[0]), some(kv[1])))
        return S
    I.mset(S, loc, t.cat(seqv(I, S, loc), t.lit((e,))))
    return S


@model('Vec::pop')
def s_pop(I, st, a, ci):
    x = seqv(I, st, a[0])
    n = t.slen(x)
    if st.need(t.eq0(n)):
        return NONE
    last = t.sub(n, t.ONE)
    v = I.get(st, x, last)
    I.mset(st, a[0], I.slice(st, x, t.ZERO, last))
    return some(v)


@model('Vec::truncate')
def s_truncate(I, st, a, ci):
    x = seqv(I, st, a[0])
    n = a[1]
    if st.need(t.ge0(t.sub(n, t.slen(x)))):
        return UNIT
    I.mset(st, a[0], trunc(I, st, x, n))
    return UNIT


def trunc(I, st, x, n):
    try:
        return I.slice(st, x, t.ZERO, n)
    except Unsupported:
        return mk('seq', (mk('sub', x, t.ZERO, n),))


@model('Vec::clear')
def s_clear(I, st, a, ci):
    I.mset(st, a[0], t.EMPTY)
    return UNIT


@model('Vec::resize')
def s_resize(I, st, a, ci):
    x = seqv(I, st, a[0])
    n = t.slen(x)
    if st.need(t.ge0(t.sub(a[1], n))):
        I.mset(st, a[0], t.cat(x, t.fill(a[2], t.sub(a[1], n))))
    else:
        I.mset(st, a[0], I.slice(st, x, t.ZERO, a[1]))
    return UNIT


@model('Vec::insert')
def s_insert(I, st, a, ci):
    x = seqv(I, st, a[0])
    if not st.need(t.ge0(t.sub(t.slen(x), a[1]))):
        raise Panic('bounds', 'insertion index')
    l, r = I.cut(st, x, a[1])
    I.mset(st, a[0], t.cat(l, t.lit((a[2],)), r))
    return UNIT


@model('Vec::remove', 'Vec::swap_remove')
def s_remove(I, st, a, ci):
    x = seqv(I, st, a[0])
    if not st.need(t.ge0(t.sub(t.sub(t.slen(x), a[1]), t.ONE))):
        raise Panic('bounds', 'removal index')
    v = I.get(st, x, a[1])
    l, r = I.cut(st, x, a[1])
    _, r = I.cut(st, r, t.ONE)
    if ci.path.endswith('swap_remove'):
        raise Unsupported('swap_remove')
    I.mset(st, a[0], t.cat(l, r))
    return v


@model('Vec::drain')
def s_drain(I, st, a, ci):
    x = seqv(I, st, a[0])
    lo, ln = range_of(I, st, a[1], t.slen(x))
    mid = I.slice(st, x, lo, ln)
    I.mset(st, a[0], t.cat(I.slice(st, x, t.ZERO, lo), I.slice(st, x, t.add(lo, ln), t.sub(t.sub(t.slen(x), lo), ln))))
    return as_iter(I, st, mid)


@model('Vec::split_off')
def s_split_off(I, st, a, ci):
    x = seqv(I, st, a[0])
    l, r = I.cut(st, x, a[1])
    I.mset(st, a[0], l)
    return r


@model('slice::copy_from_slice', 'slice::clone_from_slice')
def s_copy(I, st, a, ci):
    x, y = seqv(I, st, a[0]), seqv(I, st, a[1])
    d = t.sub(t.slen(x), t.slen(y))
    c = t.eq0(d)
    r = st.decide(c)
    if r is None:
        r = st.need(c)
    if not r:
        I.panic('copy', 'copy_from_slice: lengths differ', ci.where, st)
        return []
    I.prove('copy', ci.where)
    I.mset(st, a[0], y)
    return UNIT


@model('slice::fill')
def s_fill(I, st, a, ci):
    x = seqv(I, st, a[0])
    I.mset(st, a[0], t.fill(a[1], t.slen(x)))
    return UNIT


@model('slice::reverse')
def s_reverse(I, st, a, ci):
    x = seqv(I, st, a[0])
    n = t.slen(x)
    r = t.mirrored(x)
    I.mset(st, a[0], r if r is not None else materialise(I, st, mk('rev', mk('sview', x), n), n))
    return UNIT


@model('slice::rotate_left', 'slice::rotate_right')
def s_rotate(I, st, a, ci):
    x = seqv(I, st, a[0])
    n, k = t.slen(x), val(I, st, a[1])
    if not st.need(t.ge0(t.sub(n, k))):
        I.panic('bounds', 'rotation by more than the length', ci.where, st)
        return []
    if ci.path.endswith('right'):
        k = t.sub(n, k)
    p, q = I.cut(st, x, k)
    I.mset(st, a[0], t.cat(q, p))
    return UNIT


@model('slice::swap')
def s_swap(I, st, a, ci):
    x = seqv(I, st, a[0])
    for i in (a[1], a[2]):
        bound(I, st, i, t.slen(x), ci.where)
    u, v = I.get(st, x, a[1]), I.get(st, x, a[2])
    x = I.update(st, x, a[1], v)
    x = I.update(st, x, a[2], u)
    I.mset(st, a[0], x)
    return UNIT


def bound(I, st, i, n, where):
    if st.need(t.ge0(t.sub(t.sub(n, i), t.ONE))):
        I.prove('bounds', where)
        return
    raise Panic('bounds', 'index out of bounds')


@model('slice::get')
def s_get(I, st, a, ci):
    x = seqv(I, st, a[0])
    i = val(I, st, a[1])
    n = t.slen(x)
    if isp(i):
        if st.need(t.ge0(t.sub(t.sub(n, i), t.ONE))):
            return some(I.get(st, x, i))
        return NONE
    lo, ln = range_of(I, st, i, n, check=False)
    if st.need(t.ge0(t.sub(t.sub(n, lo), ln))) and st.need(t.ge0(ln)):
        return some(I.slice(st, x, lo, ln))
    return NONE


@model('slice::get_mut')
def s_get_mut(I, st, a, ci):
    x = seqv(I, st, a[0])
    i = a[1]
    if not isp(i):
        raise Unsupported('get_mut range')
    if st.need(t.ge0(t.sub(t.sub(t.slen(x), i), t.ONE))):
        return some(I.mext(a[0], ('i', i)))
    return NONE


@model('slice::first', 'slice::last', 'Vec::first', 'Vec::last')
def s_first(I, st, a, ci):
    x = seqv(I, st, a[0])
    n = t.slen(x)
    if st.need(t.eq0(n)):
        return NONE
    return some(I.get(st, x, t.ZERO if ci.path.endswith('first') else t.sub(n, t.ONE)))


@model('slice::first_mut', 'slice::last_mut')
def s_first_mut(I, st, a, ci):
    x = seqv(I, st, a[0])
    n = t.slen(x)
    if st.need(t.eq0(n)):
        return NONE
    return some(I.mext(a[0], ('i', t.ZERO if 'first' in ci.path else t.sub(n, t.ONE))))


@model('slice::split_at')
def s_split_at(I, st, a, ci):
    x = seqv(I, st, a[0])
    if not st.need(t.ge0(t.sub(t.slen(x), a[1]))):
        raise Panic('bounds', 'split_at')
    l, r = I.cut(st, x, a[1])
    return mk('E', '()', 0, (l, r))


@model('slice::split_at_mut')
def s_split_at_mut(I, st, a, ci):
    x = seqv(I, st, a[0])
    n = t.slen(x)
    if not st.need(t.ge0(t.sub(n, a[1]))):
        raise Panic('bounds', 'split_at_mut')
    return mk('E', '()', 0, (I.mext(a[0], ('s', t.ZERO, a[1])), I.mext(a[0], ('s', a[1], t.sub(n, a[1])))))


@model('slice::split_first', 'slice::split_last')
def s_split_first(I, st, a, ci):
    x = seqv(I, st, a[0])
    n = t.slen(x)
    if st.need(t.eq0(n)):
        return NONE
    last = t.sub(n, t.ONE)
    if ci.path.endswith('first'):
        return some(mk('E', '()', 0, (I.get(st, x, t.ZERO), I.slice(st, x, t.ONE, last))))
    return some(mk('E', '()', 0, (I.get(st, x, last), I.slice(st, x, t.ZERO, last))))


def range_of(I, st, r, n, check=True):
    """(start, length) of an index range"""
    r = val(I, st, r)
    r = I.open(st, r)
    k = r.a[0].split('::')[-1] if r.op == 'E' else None
    f = r.a[2] if r.op == 'E' else ()
    if k == 'Range':
        lo, hi = f
    elif k == 'RangeTo':
        lo, hi = t.ZERO, f[0]
    elif k == 'RangeFrom':
        lo, hi = f[0], n
    elif k == 'RangeFull':
        lo, hi = t.ZERO, n
    elif k == 'RangeInclusive':
        lo, hi = f[0], t.add(f[1], t.ONE)
    elif k == 'RangeToInclusive':
        lo, hi = t.ZERO, t.add(f[0], t.ONE)
    else:
        raise Unsupported('index %s' % t.show(r, 2))
    if check:
        if not st.need(t.ge0(t.sub(hi, lo))):
            raise Panic('bounds', 'slice index starts after its end')
        if not st.need(t.ge0(t.sub(n, hi))):
            raise Panic('bounds', 'slice end out of range')
    return lo, t.sub(hi, lo)


@model('Index::index', 'slice::index', 'Vec::index')
def s_index(I, st, a, ci):
    if local_impl(I, ci):
        return NotImplemented
    x = val(I, st, a[0])
    if isinstance(x, T) and x.op == 'map':
        v = map_get(I, st, x, a[1])
        if is_some(v):
            return con(v)
        raise Panic('unwrap', 'missing key')
    x = seqv(I, st, x)
    i = val(I, st, a[1])
    n = t.slen(x)
    if isp(i):
        bound(I, st, i, n, ci.where)
        return I.get(st, x, i)
    lo, ln = range_of(I, st, i, n)
    I.prove('slice', ci.where)
    return I.slice(st, x, lo, ln)


@model('IndexMut::index_mut')
def s_index_mut(I, st, a, ci):
    if local_impl(I, ci):
        return NotImplemented
    x = seqv(I, st, a[0])
    i = val(I, st, a[1])
    n = t.slen(x)
    r = a[0]
    cur = I._peek(st, r.a[0], r.a[1])
    if isinstance(cur, T) and cur.op == 'mref':
        r = cur
    if isp(i):
        bound(I, st, i, n, ci.where)
        return I.mext(r, ('i', i))
    lo, ln = range_of(I, st, i, n)
    I.prove('slice', ci.where)
    return I.mext(r, ('s', lo, ln))


@model('slice::concat', 'Concat::concat')
def s_concat(I, st, a, ci):
    x = seqv(I, st, a[0])
    out = []
    for g in x.a[0]:
        if g.op == 'lit':
            out += [seqv(I, st, e) for e in g.a[0]]
        elif g.op == 'flat':
            k = t.fresh('k', 'nat')
            b = t.flat_body(g, A(k))
            parts = []
            for h in b.a[0]:
                if h.op != 'lit':
                    raise Unsupported('concat')
                parts += list(h.a[0])
            out.append(t.flat(k, g.a[1], t.cat(*[seqv(I, st, p) for p in parts])))
        elif g.op == 'sub':
            k = t.fresh('k', 'nat')
            out.append(t.flat(k, g.a[2], seqv(I, st, I.elem_of(g.a[0], t.add(g.a[1], A(k))))))
        elif g.op == 'fill':
            k = t.fresh('k', 'nat')
            out.append(t.flat(k, g.a[1], g.a[0]))
        else:
            raise Unsupported('concat of ' + g.op)
    return t.cat(*out)


@model('slice::contains')
def s_contains(I, st, a, ci):
    x = seqv(I, st, a[0])
    n = const(t.slen(x))
    if n is None or n > 64:
        raise Unsupported('contains')
    r = False
    for i in range(n):
        r = t.bor_(r, I.equal(st, I.get(st, x, C(i)), a[1]))
    return r


# raw pointers: (mref or sequence, offset)
@model('slice::get_unchecked')
def p_get(I, st, a, ci):
    x = seqv(I, st, a[0])
    i = val(I, st, a[1])
    if not isp(i):
        lo, ln = range_of(I, st, i, t.slen(x))
        return I.slice(st, x, lo, ln)
    I.mem_access(st, i, t.ZERO, t.slen(x), ci.where)
    return mk('cptr', x, i)


@model('slice::get_unchecked_mut')
def p_get_mut(I, st, a, ci):
    x = seqv(I, st, a[0])
    i = a[1]
    if not isp(i):
        raise Unsupported('get_unchecked_mut range')
    I.mem_access(st, i, t.ZERO, t.slen(x), ci.where)
    return I.mext(a[0], ('i', i))


@model('ptr::offset', 'ptr::add')
def p_offset(I, st, a, ci):
    p = a[0]
    if p.op == 'cptr':
        return mk('cptr', p.a[0], t.add(p.a[1], t.mul(a[1], C(p.a[2] * (p.a[3] if len(p.a) > 3 else 1))) if len(p.a) > 2 else a[1]), *p.a[2:])
    if p.op == 'mref' and p.a[1] and p.a[1][-1][0] == 'i':
        return mk('mref', p.a[0], p.a[1][:-1] + (('i', t.add(p.a[1][-1][1], a[1])),))
    if p.op == 'seq':
        return mk('cptr', p, a[1])
    if p.op == 'mref':
        return mk('mref', p.a[0], p.a[1] + (('i', a[1]),))
    raise Unsupported('pointer arithmetic')


@model('ptr::copy_nonoverlapping', 'intrinsics::copy_nonoverlapping', 'ptr::copy')
def p_copy(I, st, a, ci):
    src, dst, n = a
    if src.op == 'seq':
        src = mk('cptr', src, t.ZERO)
    if src.op != 'cptr':
        raise Unsupported('copy source')
    if len(src.a) > 2:
        n = t.mul(n, C(src.a[2] * (src.a[3] if len(src.a) > 3 else 1)))
    I.mem_access(st, src.a[1], n, t.slen(src.a[0]), ci.where)
    data = I.slice(st, src.a[0], src.a[1], n)
    cur = I._peek(st, dst.a[0], dst.a[1]) if dst.op == 'mref' else None
    if isinstance(cur, T) and cur.op == 'uninit':
        # an uninitialised word receives raw bytes
        if cur.a and cur.a[0] is not None:
            I.mem_access(st, t.ZERO, n, C(cur.a[0]), ci.where)
        I.mset(st, dst, data)
        return UNIT
    if dst.op == 'mref' and dst.a[1] and dst.a[1][-1][0] == 'i':
        base = mk('mref', dst.a[0], dst.a[1][:-1])
        x = seqv(I, st, base)
        off = dst.a[1][-1][1]
        I.mem_access(st, off, n, t.slen(x), ci.where)
        I.mset(st, base, I.splice(st, x, off, n, data))
        return UNIT
    if isinstance(cur, T) and cur.op == 'seq':
        I.mem_access(st, t.ZERO, n, t.slen(cur), ci.where)
        I.mset(st, dst, I.splice(st, cur, t.ZERO, n, data))
        return UNIT
    raise Unsupported('copy destination')


@model('ptr::read', 'ptr::read_unaligned')
def p_read(I, st, a, ci):
    p = a[0]
    if p.op == 'cptr':
        return I.deref(st, p, ci.where, ci.name == 'read')
    return val(I, st, p)


# ------------------------------------------------------------------ iterators
def mkiter(view, n):
    return mk('E', ITER, 0, (t.ZERO, n, view))


def as_iter(I, st, v):
    r = v
    v = val(I, st, v)
    v = I.expand(st, v)
    if isinstance(v, T) and v.op == 'E':
        k = v.a[0]
        if k == ITER:
            return v
        if k == RANGE:
            a, b = v.a[2]
            if st.need(t.ge0(t.sub(b, a))):
                return mkiter(mk('range', a), t.sub(b, a))
            return mkiter(mk('range', a), t.ZERO)
        if k == RANGEI:
            a, b = v.a[2][0], v.a[2][1]
            n = t.add(t.sub(b, a), t.ONE)
            if st.need(t.ge0(n)):
                return mkiter(mk('range', a), n)
            return mkiter(mk('range', a), t.ZERO)
        if k.endswith('RangeFrom'):
            return mk('E', ITER, 0, (t.ZERO, mk('inf'), mk('range', v.a[2][0])))
        if k.endswith('Option'):
            return mkiter(mk('sview', t.lit(v.a[2])), C(len(v.a[2])))
    if isinstance(v, T) and v.op == 'opq' and v.a[1][0] == 'adt' and v.a[1][1] == RANGE:
        return as_iter(I, st, I.open(st, v))
    if isinstance(v, T) and v.op == 'seq':
        return mkiter(mk('sview', v), t.slen(v))
    if isinstance(v, T) and v.op == 'str':
        s = seqv(I, st, v)
        return mkiter(mk('sview', s), t.slen(s))
    raise Unsupported('iteration over %s' % t.show(v, 2))


@model('Range::contains', 'RangeInclusive::contains', 'RangeFrom::contains', 'RangeTo::contains', 'RangeToInclusive::contains',
       'RangeBounds::contains')
def r_contains(I, st, a, ci):
    r = I.open(st, val(I, st, a[0]))
    x = val(I, st, a[1])
    k = r.a[0].split('::')[-1] if r.op == 'E' else None
    f = [val(I, st, y) for y in r.a[2][:2]] if r.op == 'E' else []
    if not isp(x) or not all(isp(y) for y in f) or ci.targs and isinstance(ci.targs[0], tuple) and I.is_field(ci.targs[0]):
        raise Unsupported('range of values that are no numbers')
    lo = f[0] if k in ('Range', 'RangeInclusive', 'RangeFrom') else None
    hi = f[-1] if k in ('Range', 'RangeInclusive', 'RangeTo', 'RangeToInclusive') else None
    if lo is None and hi is None:
        raise Unsupported('contains of %s' % k)
    if hi is not None and not k.endswith('Inclusive'):
        hi = t.sub(hi, t.ONE)
    r = True
    if lo is not None:
        r = t.band_(r, t.ge0(t.sub(x, lo)))
    if hi is not None:
        r = t.band_(r, t.ge0(t.sub(hi, x)))
    return r


@model('slice::from_ref', 'array::from_ref')
def s_from_ref(I, st, a, ci):
    return t.lit((val(I, st, a[0]),))


@model('RangeInclusive::new')
def r_new(I, st, a, ci):
    return mk('E', RANGEI, 0, (a[0], a[1], False))


@model('slice::iter', 'Vec::iter', 'slice::into_iter', 'str::bytes', 'array::iter')
def it_iter(I, st, a, ci):
    return as_iter(I, st, seqv(I, st, a[0]))


@model('slice::iter_mut')
def it_iter_mut(I, st, a, ci):
    x = seqv(I, st, a[0])
    return mkiter(mk('mview', a[0]), t.slen(x))


@model('IntoIterator::into_iter', 'Iterator::into_iter')
def it_into(I, st, a, ci):
    if local_impl(I, ci):
        return NotImplemented
    ty = ci.targs[0]
    if isinstance(a[0], T) and a[0].op == 'mref':
        if ty[0] == 'ref' and ty[1] in (True, 'mut'):
            v = val(I, st, a[0])
            if v.op == 'seq':
                return mkiter(mk('mview', a[0]), t.slen(v))
            if v.op == 'E' and v.a[0] == ITER:
                return a[0]
            raise Unsupported('mutable iteration')
    return as_iter(I, st, a[0])


def view_get(I, st, v, idx):
    """[(state, element)]"""
    k = v.op
    if k == 'range':
        return [(st, t.add(v.a[0], idx))]
    if k == 'sview':
        return [(st, I.get(st, v.a[0], idx))]
    if k == 'mview':
        r = v.a[0]
        return [(st, I.mext(r, ('i', idx)))]
    if k == 'vmap':
        out = []
        for s, e in view_get(I, st, v.a[0], idx):
            out += I.apply(s, v.a[1], [e])
        return out
    if k == 'enum':
        return [(s, mk('E', '()', 0, (t.add(idx, v.a[1]), e))) for s, e in view_get(I, st, v.a[0], t.add(idx, v.a[1]))]
    if k == 'zip':
        out = []
        for s, e in view_get(I, st, v.a[0], t.add(idx, v.a[1])):
            for s2, f in view_get(I, s, v.a[2], t.add(idx, v.a[3])):
                out.append((s2, mk('E', '()', 0, (e, f))))
        return out
    if k == 'rev':
        return view_get(I, st, v.a[0], t.sub(t.sub(v.a[1], t.ONE), idx))
    if k == 'shift':
        return view_get(I, st, v.a[0], t.add(idx, v.a[1]))
    if k == 'step':
        return view_get(I, st, v.a[0], t.mul(idx, v.a[1]))
    if k == 'chunks':
        s, c, n = v.a
        start = t.mul(idx, c)
        rest = t.sub(n, start)
        if st.need(t.ge0(t.sub(rest, c))):
            return [(st, I.slice(st, s, start, c))]
        return [(st, I.slice(st, s, start, rest))]
    if k == 'mchunks':
        r, c, n = v.a
        start = t.mul(idx, c)
        rest = t.sub(n, start)
        ln = c if st.need(t.ge0(t.sub(rest, c))) else rest
        return [(st, I.mext(r, ('s', start, ln)))]
    if k == 'rchunks':
        s, c, n = v.a
        end = t.sub(n, t.mul(idx, c))
        if st.need(t.ge0(t.sub(end, c))):
            return [(st, I.slice(st, s, t.sub(end, c), c))]
        return [(st, I.slice(st, s, t.ZERO, end))]
    if k == 'cycle':
        return view_get(I, st, v.a[0], t.divmod_(idx, v.a[1])[1])
    if k == 'windows':
        return [(st, I.slice(st, v.a[0], idx, v.a[1]))]
    if k == 'repeat':
        return [(st, v.a[0])]
    if k == 'vchain':
        a, n, b = v.a
        if st.need(t.ge0(t.sub(t.sub(n, idx), t.ONE))):
            return view_get(I, st, a, idx)
        return view_get(I, st, b, t.sub(idx, n))
    raise Unsupported('iterator ' + k)


def parts(it):
    return it.a[2]


def inner(I, st, a):
    it = as_iter(I, st, a)
    pos, end, view = parts(it)
    if pos is not t.ZERO:
        view = mk('shift', view, pos)
        if end.op != 'inf':
            end = t.sub(end, pos)
    return view, end


FILTERS = ('vfilter', 'vfmap', 'vfiltermap')


def filtered(v):
    while v.op == 'shift':
        v = v.a[0]
    return v.op in FILTERS


def first_of(I, st, view, pos, n, pred, accept=True):
    """[(state, index)] of the first of the n elements from pos on which the predicate accepts (None: there is none);
    with accept=False, on which it does not accept"""
    c = const(n)
    if c is not None and c <= 64:
        out, cur = [], [st]
        for i in range(c):
            nxt = []
            for s in cur:
                for s1, e in view_get(I, s, view, t.add(pos, C(i))):
                    for s2, v in I.apply(s1, pred, [e]):
                        for s3, r in fork_bool(I, s2, v, lambda z, r: r):
                            if r is accept:
                                out.append((s3, C(i)))
                            else:
                                nxt.append(s3)
            cur = nxt
        return out + [(s, None) for s in cur]
    k = t.fresh('k', 'nat')
    s0 = st.copy()
    if not s0.assume(t.ge0(t.sub(t.sub(n, A(k)), t.ONE))):
        return [(st, None)]
    try:
        rs = []
        for s1, e in view_get(I, s0, view, t.add(pos, A(k))):
            rs += I.apply(s1, pred, [e])
    except Split:
        raise Unsupported('search')
    if len(rs) != 1:
        raise Unsupported('search')
    body = rs[0][1] if accept else t.bnot_(rs[0][1])
    f = t.first(k, n, body)
    if not st.need(t.ge0(t.sub(t.sub(n, f), t.ONE))):
        if body is not False and body is not True:
            st.assume(t.mk_bind('All', k, n, t.bnot_(body)))
        return [(st, None)]
    if body is not True and not st.assume(t.subst(body, {k: f})):
        return []
    return [(st, f)]


def search(I, st, a, pred, result):
    """first element of the iterator behind a[0] (advanced past it)"""
    it = as_iter(I, st, a[0])
    pos, end, view = parts(it)
    if end.op == 'inf' or filtered(view):
        raise Unsupported('search in an unbounded or filtered iterator')
    out = []
    for s, k in first_of(I, st, view, pos, t.sub(end, pos), pred):
        nxt = end if k is None else t.add(t.add(pos, k), t.ONE)
        if isinstance(a[0], T) and a[0].op == 'mref':
            I.mset(s, a[0], mk('E', ITER, 0, (nxt, end, view)))
        if k is None:
            out.append((s, NONE))
        else:
            out += result(s, view, pos, k)
    return out


@model('Iterator::position')
def it_position(I, st, a, ci):
    return search(I, st, a, a[1], lambda s, view, pos, k: [(s, some(k))])


@model('Iterator::find')
def it_find(I, st, a, ci):
    return search(I, st, a, a[1], lambda s, view, pos, k: mapres(view_get(I, s, view, t.add(pos, k)), some))


@model('Iterator::rposition')
def it_rposition(I, st, a, ci):
    v, n = inner(I, st, a[0])
    return [(s, NONE if k is None else some(t.sub(t.sub(n, k), t.ONE)))
            for s, k in first_of(I, st, mk('rev', v, n), t.ZERO, n, a[1])]


@model('Iterator::take_while')
def it_take_while(I, st, a, ci):
    v, n = inner(I, st, a[0])
    if n.op == 'inf' or filtered(v):
        raise Unsupported('take_while')
    return [(s, mkiter(v, n if k is None else k)) for s, k in first_of(I, st, v, t.ZERO, n, a[1], False)]


@model('Iterator::skip_while')
def it_skip_while(I, st, a, ci):
    v, n = inner(I, st, a[0])
    if n.op == 'inf' or filtered(v):
        raise Unsupported('skip_while')
    return [(s, mkiter(v, t.ZERO) if k is None else mkiter(mk('shift', v, k), t.sub(n, k)))
            for s, k in first_of(I, st, v, t.ZERO, n, a[1], False)]


@model('Iterator::map')
def it_map(I, st, a, ci):
    v, n = inner(I, st, a[0])
    if v.op == 'vfilter':
        return mkiter(mk('vfmap', v, a[1]), n)
    return mkiter(mk('vmap', v, a[1]), n)


@model('Iterator::enumerate')
def it_enum(I, st, a, ci):
    v, n = inner(I, st, a[0])
    return mkiter(mk('enum', v, t.ZERO), n)


def tmin(I, st, a, b):
    if a.op == 'inf':
        return b
    if b.op == 'inf':
        return a
    return a if st.need(t.ge0(t.sub(b, a))) else b


@model('Iterator::zip')
def it_zip(I, st, a, ci):
    v, n = inner(I, st, a[0])
    w, m = inner(I, st, a[1])
    if v.op == 'vsucc' and m.op != 'inf':
        return [(s, mkiter(mk('zip', x, t.ZERO, w, t.ZERO), tmin(I, s, k, m))) for s, x, k in bounded(I, st, v, m)]
    if w.op == 'vsucc' and n.op != 'inf':
        return [(s, mkiter(mk('zip', v, t.ZERO, x, t.ZERO), tmin(I, s, n, k))) for s, x, k in bounded(I, st, w, n)]
    return mkiter(mk('zip', v, t.ZERO, w, t.ZERO), tmin(I, st, n, m))


@model('iter::zip')
def it_zip2(I, st, a, ci):
    return it_zip(I, st, a, ci)


@model('Iterator::take')
def it_take(I, st, a, ci):
    v, n = inner(I, st, a[0])
    if filtered(v):
        raise Unsupported('take of filter')
    if v.op == 'vsucc':
        return [(s, mkiter(x, k)) for s, x, k in bounded(I, st, v, a[1])]
    return mkiter(v, tmin(I, st, n, a[1]))


@model('Iterator::skip')
def it_skip(I, st, a, ci):
    v, n = inner(I, st, a[0])
    if filtered(v):
        raise Unsupported('skip of filter')
    if n.op == 'inf':
        return mk('E', ITER, 0, (t.ZERO, n, mk('shift', v, a[1])))
    if st.need(t.ge0(t.sub(n, a[1]))):
        return mkiter(mk('shift', v, a[1]), t.sub(n, a[1]))
    return mkiter(v, t.ZERO)


@model('Iterator::step_by')
def it_step(I, st, a, ci):
    v, n = inner(I, st, a[0])
    if st.need(t.eq0(a[1])):
        raise Panic('panic', 'step_by(0)')
    return mkiter(mk('step', v, a[1]), t.ceildiv(n, a[1]))


@model('Iterator::rev')
def it_rev(I, st, a, ci):
    v, n = inner(I, st, a[0])
    if filtered(v):
        raise Unsupported('rev of filter')
    if v.op == 'rev' and v.a[1] is n:
        return mkiter(v.a[0], n)
    return mkiter(mk('rev', v, n), n)


@model('Iterator::chain')
def it_chain(I, st, a, ci):
    v, n = inner(I, st, a[0])
    w, m = inner(I, st, a[1])
    if filtered(v) or filtered(w) or n.op == 'inf':
        raise Unsupported('chain of filter')
    return mkiter(mk('vchain', v, n, w), t.add(n, m) if m.op != 'inf' else m)


@model('Iterator::filter')
def it_filter(I, st, a, ci):
    v, n = inner(I, st, a[0])
    return mkiter(mk('vfilter', v, a[1]), n)


@model('Iterator::filter_map')
def it_filter_map(I, st, a, ci):
    v, n = inner(I, st, a[0])
    return mkiter(mk('vfiltermap', v, a[1]), n)


@model('Iterator::cycle')
def it_cycle(I, st, a, ci):
    v, n = inner(I, st, a[0])
    if filtered(v):
        raise Unsupported('cycle of filter')
    if n.op == 'inf':
        return mkiter(v, n)
    if not st.need(t.ge0(t.sub(n, t.ONE))):
        return mkiter(v, t.ZERO)
    return mk('E', ITER, 0, (t.ZERO, mk('inf'), mk('cycle', v, n)))


@model('iter::once')
def it_once(I, st, a, ci):
    return mkiter(mk('sview', t.lit((a[0],))), t.ONE)


@model('iter::repeat')
def it_repeat(I, st, a, ci):
    return mk('E', ITER, 0, (t.ZERO, mk('inf'), mk('repeat', a[0])))


@model('iter::empty')
def it_empty(I, st, a, ci):
    return mkiter(mk('sview', t.EMPTY), t.ZERO)


@model('slice::chunks', 'slice::chunks_exact')
def s_chunks(I, st, a, ci):
    x = seqv(I, st, a[0])
    c = a[1]
    n = t.slen(x)
    if ci.path.endswith('exact'):
        return mkiter(mk('chunks', x, c, n), t.divmod_(n, c)[0])
    return mkiter(mk('chunks', x, c, n), t.ceildiv(n, c))


@model('slice::rchunks', 'slice::rchunks_exact')
def s_rchunks(I, st, a, ci):
    x = seqv(I, st, a[0])
    c = a[1]
    n = t.slen(x)
    return mkiter(mk('rchunks', x, c, n), t.divmod_(n, c)[0] if ci.path.endswith('exact') else t.ceildiv(n, c))


@model('ChunksExact::remainder')
def s_chunks_rem(I, st, a, ci):
    it = val(I, st, a[0])
    x, c, n = it.a[2][2].a
    r = t.divmod_(n, c)[1]
    return I.slice(st, x, t.sub(n, r), r)


@model('slice::chunks_mut', 'slice::chunks_exact_mut')
def s_chunks_mut(I, st, a, ci):
    x = seqv(I, st, a[0])
    c = a[1]
    n = t.slen(x)
    return mkiter(mk('mchunks', a[0], c, n), t.divmod_(n, c)[0] if 'exact' in ci.path else t.ceildiv(n, c))


@model('slice::windows')
def s_windows(I, st, a, ci):
    x = seqv(I, st, a[0])
    n = t.add(t.sub(t.slen(x), a[1]), t.ONE)
    return mkiter(mk('windows', x, a[1]), n if st.need(t.ge0(n)) else t.ZERO)


@model('Iterator::next')
def it_next(I, st, a, ci):
    r = a[0]
    if local_impl(I, ci):
        return NotImplemented
    cur = I._peek(st, r.a[0], r.a[1])
    if isinstance(cur, T) and cur.op == 'mref':
        r = cur
    it = as_iter(I, st, r)
    pos, end, view = parts(it)
    if view.op == 'vfilter' and end.op != 'inf':
        out = []
        for s, k in first_of(I, st, view.a[0], pos, t.sub(end, pos), view.a[1]):
            nxt = end if k is None else t.add(t.add(pos, k), t.ONE)
            I.mset(s, r, mk('E', ITER, 0, (nxt, end, view)))
            out += [(s, NONE)] if k is None else mapres(view_get(I, s, view.a[0], t.add(pos, k)), some)
        return out
    if view.op in FILTERS:
        raise Unsupported('next of filter')
    if end.op != 'inf' and not st.need(t.ge0(t.sub(t.sub(end, pos), t.ONE))):
        I.mset(st, r, it)
        return NONE
    out = []
    for s, e in view_get(I, st, view, pos):
        I.mset(s, r, mk('E', ITER, 0, (t.add(pos, t.ONE), end, view)))
        out.append((s, some(e)))
    return out


@model('DoubleEndedIterator::next_back')
def it_next_back(I, st, a, ci):
    r = a[0]
    it = as_iter(I, st, r)
    pos, end, view = parts(it)
    if not st.need(t.ge0(t.sub(t.sub(end, pos), t.ONE))):
        return NONE
    out = []
    last = t.sub(end, t.ONE)
    for s, e in view_get(I, st, view, last):
        I.mset(s, r, mk('E', ITER, 0, (pos, last, view)))
        out.append((s, some(e)))
    return out


@model('Iterator::nth')
def it_nth(I, st, a, ci):
    r = a[0]
    it = as_iter(I, st, r)
    pos, end, view = parts(it)
    p = t.add(pos, a[1])
    if end.op != 'inf' and not st.need(t.ge0(t.sub(t.sub(end, p), t.ONE))):
        I.mset(st, r, mk('E', ITER, 0, (end, end, view)))
        return NONE
    out = []
    for s, e in view_get(I, st, view, p):
        I.mset(s, r, mk('E', ITER, 0, (t.add(p, t.ONE), end, view)))
        out.append((s, some(e)))
    return out


def each(I, st, it, body):
    """runs body(S, element) -> [S'] for every element in order; the states afterwards"""
    from . import loops
    pos, end, view = parts(it)
    if end.op == 'inf':
        raise Unsupported('unbounded iteration')
    n = t.sub(end, pos)
    return each_view(I, st, view, pos, n, body)


def each_view(I, st, view, pos, n, body):
    from . import loops
    if view.op == 'shift':
        return each_view(I, st, view.a[0], t.add(pos, view.a[1]), n, body)
    if view.op == 'vchain' and pos is t.ZERO:
        a, na, b = view.a
        # both parts are whole when the count is the sum
        if st.decide(t.ge0(t.sub(n, na))) is True:
            out = []
            for s in each_view(I, st, a, t.ZERO, na, body):
                out += each_view(I, s, b, t.ZERO, t.sub(n, na), body)
            return out
    if view.op == 'vmap':
        f = view.a[1]

        def g(S, e):
            out = []
            for s2, x in I.apply(S, f, [e]):
                out += body(s2, x)
            return out
        return each_view(I, st, view.a[0], pos, n, g)
    if view.op == 'vfmap':
        f = view.a[1]

        def g(S, e):
            out = []
            for s2, x in I.apply(S, f, [e]):
                out += body(s2, x)
            return out
        return each_view(I, st, view.a[0], pos, n, g)
    if view.op == 'vfilter':
        f = view.a[1]

        def g(S, e):
            out = []
            for s2, c in I.apply(S, f, [e]):
                for s3, r in fork_bool(I, s2, c, lambda z, r: r):
                    out += body(s3, e) if r else [s3]
            return out
        return each_view(I, st, view.a[0], pos, n, g)
    if view.op == 'vfiltermap':
        f = view.a[1]

        def g(S, e):
            out = []
            for s2, c in I.apply(S, f, [e]):
                c = I.open(s2, c)
                out += body(s2, con(c)) if is_some(c) else [s2]
            return out
        return each_view(I, st, view.a[0], pos, n, g)

    def h(S, k):
        out = []
        for s2, e in view_get(I, S, view, t.add(pos, k)):
            out += body(s2, e)
        return out
    return loops.count_loop(I, st, n, h)


def finish(I, states, ref, f=lambda s, v: v):
    out = []
    for s in states:
        v = I.mget(s, ref)
        del s.mem[ref.a[0]]
        out.append((s, f(s, v)))
    return out


def materialise(I, st, view, n):
    r = collect(I, st, mkiter(view, n))
    if len(r) != 1:
        raise Unsupported('collection with several outcomes')
    return r[0][1]


def collect(I, st, it):
    acc = I.alloc(st, t.EMPTY, 'acc')
    pos, end, view = parts(it)
    if end.op != 'inf':
        while view.op == 'shift':
            pos, end, view = t.add(pos, view.a[1]), t.add(end, view.a[1]), view.a[0]
    if view.op == 'sview' and end.op != 'inf':
        del st.mem[acc.a[0]]
        return [(st, I.slice(st, view.a[0], pos, t.sub(end, pos)))]
    if view.op == 'rev' and view.a[0].op == 'sview' and pos is t.ZERO and end is t.slen(view.a[0].a[0]) and end is view.a[1]:
        r = t.mirrored(view.a[0].a[0])
        if r is not None:
            del st.mem[acc.a[0]]
            return [(st, r)]

    def body(S, e):
        if isinstance(e, T) and e.op == 'mref':
            e = I.mget(S, e)
        return [push_to(I, S, acc, e)]
    return finish(I, each(I, st, it, body), acc)


@model('Iterator::collect', 'FromIterator::from_iter')
def it_collect(I, st, a, ci):
    dst = ci.targs[-1] if ci.name == 'collect' else ci.targs[0]
    if dst[0] == 'adt':
        n = dst[1].split('::')[-1]
        if n in ('Option', 'Result') and dst[2]:
            inside = dst[2][0]
            if inside == ('tuple', ()):
                if n == 'Result':
                    return prelude(I, st, 'collect_unit_result', [as_iter(I, st, a[0])], E=dst[2][1])
            elif inside[0] == 'adt' and inside[1].split('::')[-1] == 'Vec':
                env = {'T': inside[2][0]}
                if n == 'Result':
                    env['E'] = dst[2][1]
                return prelude(I, st, 'collect_' + n.lower(), [as_iter(I, st, a[0])], **env)
        if n in ('HashMap', 'BTreeMap'):
            return prelude(I, st, 'collect_map' if n == 'HashMap' else 'collect_btree', [as_iter(I, st, a[0])], K=dst[2][0], V=dst[2][1])
        if n in ('HashSet', 'BTreeSet'):
            return prelude(I, st, 'collect_set' if n == 'HashSet' else 'collect_btreeset', [as_iter(I, st, a[0])], K=dst[2][0])
    if dst[0] == 'adt' and (dst[1].endswith('Option') or dst[1].endswith('Result') or dst[1].endswith('HashMap')
                            or 'Set' in dst[1] or 'BTree' in dst[1]):
        raise Unsupported('collect into %s' % dst[1])
    r = collect(I, st, as_iter(I, st, a[0]))
    if dst[0] == 'adt' and dst[1].endswith(('FuturesUnordered', 'FuturesOrdered')):
        return [(s, mk('E', 'stream', int(dst[1].endswith('FuturesUnordered')), (v,))) for s, v in r]
    return r


@model('Iterator::sum', 'Iterator::product', 'Sum::sum', 'Product::product')
def it_sum(I, st, a, ci):
    dst = ci.targs[1] if ci.trait.split('<')[0].endswith('Iterator') else ci.targs[0]
    if ci.trait.split('<')[0].split('::')[-1] in ('Sum', 'Product') and local_impl(I, ci):
        return NotImplemented
    if dst[0] == 'adt' and dst[1].startswith('jester') and not I.is_field(dst):
        tr = 'Sum' if ci.name == 'sum' else 'Product'
        im = I.find_impl(tr, ci.name, dst)
        if im is None:
            raise Unsupported('sum of %r' % (dst,))
        return I.run(im[0], [as_iter(I, st, a[0])], st, im[1])
    mul_ = ci.name == 'product'
    acc = I.alloc(st, t.ONE if mul_ else t.ZERO, 'acc')
    op = 'Mul' if mul_ else 'Add'

    def body(S, e):
        e = val(I, S, e)
        r = binary(I, S, op, I.mget(S, acc), e, dst, ci.where)
        if r is NotImplemented:
            raise Unsupported('%s of %r' % (ci.name, dst))
        if r == []:
            return []
        I.mset(S, acc, r)
        return [S]
    return finish(I, each(I, st, as_iter(I, st, a[0]), body), acc)


@model('Iterator::fold')
def it_fold(I, st, a, ci):
    acc = I.alloc(st, a[1], 'acc')
    f = a[2]

    def body(S, e):
        out = []
        cur = S.mem[acc.a[0]]
        for s2, v in I.apply(S, f, [cur, e]):
            s2.mem[acc.a[0]] = v
            out.append(s2)
        return out
    out = []
    for s in each(I, st, as_iter(I, st, a[0]), body):
        v = s.mem.pop(acc.a[0])
        out.append((s, v))
    return out


@model('Iterator::for_each')
def it_for_each(I, st, a, ci):
    f = a[1]
    fr = f
    # the closure's own state must persist
    if isinstance(f, T) and f.op == 'clo':
        fr = I.alloc(st, f, 'fn')
    out = []
    for s in each(I, st, as_iter(I, st, a[0]), lambda S, e: [s2 for s2, _ in I.apply(S, fr, [e])]):
        out.append((s, UNIT))
    return out


@model('Iterator::count')
def it_count(I, st, a, ci):
    it = as_iter(I, st, a[0])
    pos, end, view = parts(it)
    if view.op in ('vfilter', 'vfiltermap', 'vfmap'):
        acc = I.alloc(st, t.ZERO, 'acc')

        def body(S, e):
            I.mset(S, acc, t.add(I.mget(S, acc), t.ONE))
            return [S]
        return finish(I, each(I, st, it, body), acc)
    return t.sub(end, pos)


@model('Iterator::last')
def it_last(I, st, a, ci):
    it = as_iter(I, st, a[0])
    pos, end, view = parts(it)
    if not st.need(t.ge0(t.sub(t.sub(end, pos), t.ONE))):
        return NONE
    return mapres(view_get(I, st, view, t.sub(end, t.ONE)), some)


@model('Iterator::all', 'Iterator::any')
def it_all(I, st, a, ci):
    it = as_iter(I, st, a[0])
    pos, end, view = parts(it)
    n = t.sub(end, pos)
    f = a[1]
    c = const(n)
    alln = ci.name == 'all'
    if c is not None and c <= 64:
        cur = [(st, alln)]
        done = []
        for i in range(c):
            nxt = []
            for s, acc in cur:
                for s1, e in view_get(I, s, view, t.add(pos, C(i))):
                    for s2, v in I.apply(s1, f, [e]):
                        nxt.append((s2, t.band_(acc, v) if alln else t.bor_(acc, v)))
            cur = nxt
        return cur
    # a quantified condition over an arbitrary index
    k = t.fresh('k', 'nat')
    s0 = st.copy()
    if not s0.assume(t.ge0(t.sub(t.sub(n, A(k)), t.ONE))):
        return alln
    try:
        rs = []
        for s1, e in view_get(I, s0, view, t.add(pos, A(k))):
            rs += I.apply(s1, f, [e])
    except Split:
        raise Unsupported('quantified condition')
    if len(rs) != 1:
        raise Unsupported('quantified condition')
    c = rs[0][1]
    if c is alln:
        return alln
    body = c if alln else t.bnot_(c)
    if body is False or body is True:
        body = mk('const', body)
    q = t.mk_bind('All', k, n, body)
    return q if alln else t.bnot_(q)


def prelude(I, st, name, args, **env):
    """a function of the standard library, as written in prelude/lib.rs"""
    return I.run('jsa_prelude::' + name, args, st, {k: v for k, v in env.items() if v is not None})


def ret_type(I, ci):
    fr, pl = ci.dest
    if fr is None or pl is None or pl[1]:
        return None
    return I.rty(fr.crate, fr.body['locals'][pl[0]], fr.tenv)


def arg_of(ty, i=0):
    if ty is not None and ty[0] == 'adt' and len(ty[2]) > i and isinstance(ty[2][i], tuple):
        return ty[2][i]
    return None


@model('Iterator::reduce', 'Iterator::max', 'Iterator::min', 'Iterator::max_by_key', 'Iterator::min_by_key')
def it_reduce(I, st, a, ci):
    return prelude(I, st, ci.name, [as_iter(I, st, a[0])] + a[1:], T=arg_of(ret_type(I, ci)))


@model('Iterator::find_map')
def it_find_map(I, st, a, ci):
    return prelude(I, st, ci.name, a, U=arg_of(ret_type(I, ci)))


@model('Iterator::try_fold', 'Iterator::try_for_each')
def it_try(I, st, a, ci):
    r = ret_type(I, ci)
    if r is None or r[0] != 'adt' or r[1].split('::')[-1] not in ('Option', 'Result'):
        raise Unsupported('Iterator::' + ci.name)
    n = r[1].split('::')[-1].lower()
    if ci.name == 'try_for_each' and r[2][0] != ('tuple', ()):
        raise Unsupported('Iterator::' + ci.name)
    return prelude(I, st, '%s_%s' % (ci.name, n), a, B=arg_of(r), E=arg_of(r, 1))


@model('Iterator::flat_map', 'Iterator::flatten', 'Iterator::scan', 'Iterator::map_while')
def it_flat(I, st, a, ci):
    return mapres(prelude(I, st, ci.name, [as_iter(I, st, a[0])] + a[1:]), lambda v: mkiter(mk('sview', v), t.slen(v)))


@model('Iterator::inspect')
def it_inspect(I, st, a, ci):
    raise Unsupported('Iterator::' + ci.name)


@model('Iterator::unzip')
def it_unzip(I, st, a, ci):
    r = ret_type(I, ci)
    if r is None or r[0] != 'tuple' or not all(x[0] == 'adt' and x[1].split('::')[-1] == 'Vec' for x in r[1]):
        raise Unsupported('Iterator::unzip')
    return prelude(I, st, 'unzip', [as_iter(I, st, a[0])], A=arg_of(r[1][0]), B=arg_of(r[1][1]))


@model('Iterator::partition')
def it_partition(I, st, a, ci):
    r = ret_type(I, ci)
    if r is None or r[0] != 'tuple' or not all(x[0] == 'adt' and x[1].split('::')[-1] == 'Vec' for x in r[1]):
        raise Unsupported('Iterator::partition')
    return prelude(I, st, 'partition', [as_iter(I, st, a[0]), a[1]], T=arg_of(r[1][0]))


@model('Iterator::eq', 'Iterator::ne')
def it_eq(I, st, a, ci):
    rs = prelude(I, st, 'iter_eq', [as_iter(I, st, a[0]), as_iter(I, st, a[1])])
    return rs if ci.name == 'eq' else mapres(rs, t.bnot_)


@model('Vec::retain')
def v_retain(I, st, a, ci):
    return prelude(I, st, 'retain', a, T=arg_of(('adt', 'Vec', ci.targs)))


@model('Vec::resize_with')
def v_resize_with(I, st, a, ci):
    return prelude(I, st, 'resize_with', a, T=arg_of(('adt', 'Vec', ci.targs)))


@model('iter::successors')
def it_successors(I, st, a, ci):
    return mk('E', ITER, 0, (t.ZERO, mk('inf'), mk('vsucc', a[0], a[1])))


def bounded(I, st, v, n):
    """[(state, view)] of the first n elements of an unbounded view"""
    if v.op == 'vsucc':
        return [(s, mk('sview', x), t.slen(x)) for s, x in prelude(I, st, 'successors', [v.a[0], n, v.a[1]])]
    return [(st, v, n)]


@model('Iterator::size_hint')
def it_size_hint(I, st, a, ci):
    raise Unsupported('size_hint')


# ------------------------------------------------------------------ maps
_maps = [0]


def new_map(I):
    I.fid += 1
    return mk('map', mk('empty'), t.EMPTY)


@model('HashMap::new', 'HashMap::with_capacity', 'BTreeMap::new')
def m_map_new(I, st, a, ci):
    return new_map(I)


def entries(m):
    """update list of a map, oldest first: literal segments only are looked into"""
    return m.a[1].a[0]


def map_get(I, st, m, key):
    """newest update of the key, or what the base holds"""
    key = val(I, st, key)
    segs = entries(m)
    for i, g in reversed(list(enumerate(segs))):
        if g.op == 'lit':
            for j, e in reversed(list(enumerate(g.a[0]))):
                if e.a[0] == 'retain':
                    rest = mk('map', m.a[0], mk('seq', segs[:i] + ((mk('lit', g.a[0][:j]),) if j else ())))
                    old = I.open(st, map_get(I, st, rest, key))
                    if not is_some(old):
                        return old
                    return old if holds(I, st, e.a[2][0], [key, old.a[2][0]]) else NONE
                kk, vv = e.a[2]
                if st.need(I.equal(st, kk, key)):
                    return vv
        elif g.op == 'flat':
            r = I.models['maprange'](I, st, g, key) if 'maprange' in I.models else None
            if r is None:
                raise Unsupported('lookup in a symbolic map update')
            if r is not NONE:
                return r
        else:
            raise Unsupported('lookup in %s' % g.op)
    if m.a[0].op == 'empty':
        return NONE
    h = I.models.get('mapbase')
    if h is None:
        raise Unsupported('lookup in a symbolic map')
    return h(I, st, m.a[0], key)


def holds(I, st, f, args):
    """value of a predicate without effects"""
    rs = I.apply(st.copy(), f, args)
    if len(rs) != 1:
        for c in rs[0][0].bf:
            if c not in st.bf:
                raise Split(c)
        for k, p in rs[0][0].pc:
            if (k, p) not in st.pc:
                raise Split(t.ge0(p) if k == 'ge' else t.eq0(p))
        raise Unsupported('predicate with several outcomes')
    return st.need(rs[0][1])


def map_put(m, key, v):
    return mk('map', m.a[0], t.cat(m.a[1], t.lit((mk('E', '()', 0, (key, v)),))))


@model('HashMap::get', 'BTreeMap::get')
def m_map_get(I, st, a, ci):
    return map_get(I, st, val(I, st, a[0]), a[1])


@model('HashMap::contains_key')
def m_map_contains(I, st, a, ci):
    v = I.open(st, map_get(I, st, val(I, st, a[0]), a[1]))
    return is_some(v)


@model('HashMap::insert', 'BTreeMap::insert')
def m_map_insert(I, st, a, ci):
    m = val(I, st, a[0])
    key = val(I, st, a[1])
    try:
        old = map_get(I, st, m, key)
    except Unsupported:
        old = mk('unk', 'old')
    I.mset(st, a[0], map_put(m, key, some(a[2])))
    return old


@model('HashMap::remove', 'BTreeMap::remove')
def m_map_remove(I, st, a, ci):
    m = val(I, st, a[0])
    key = val(I, st, a[1])
    old = I.open(st, map_get(I, st, m, key))
    I.mset(st, a[0], map_put(m, key, NONE) if is_some(old) else m)
    return old


@model('HashMap::remove_entry', 'BTreeMap::remove_entry')
def m_map_remove_entry(I, st, a, ci):
    key = val(I, st, a[1])
    old = m_map_remove(I, st, a, ci)
    return some(mk('E', '()', 0, (key, old.a[2][0]))) if is_some(old) else NONE


@model('HashMap::entry', 'BTreeMap::entry')
def m_map_entry(I, st, a, ci):
    r = ret_type(I, ci)
    if r is None or a[0].op != 'mref':
        raise Unsupported('HashMap::entry')
    old = I.open(st, map_get(I, st, val(I, st, a[0]), a[1]))
    occupied = is_some(old)
    i = int(occupied) if 'BTree' in ci.path else 1 - occupied
    return mk('E', r[1], i, (mk('E', 'map_entry', int(occupied), (a[0], val(I, st, a[1]))),))


def entry_of(I, st, v):
    v = val(I, st, v)
    if v.op == 'E' and v.a[0] != 'map_entry':
        v = v.a[2][0]
    return v


@model('OccupiedEntry::insert', 'VacantEntry::insert', 'OccupiedEntry::remove', 'OccupiedEntry::get', 'OccupiedEntry::key',
       'VacantEntry::key', 'VacantEntry::into_key', 'OccupiedEntry::remove_entry', 'Entry::key')
def m_entry(I, st, a, ci):
    e = entry_of(I, st, a[0])
    where, key = e.a[2]
    if ci.name in ('key', 'into_key'):
        return key
    if ci.name == 'insert':
        old = m_map_insert(I, st, [where, key, a[1]], ci)
        if not e.a[1]:
            return mk('unk', 'slot')
        return I.open(st, old).a[2][0]
    old = I.open(st, map_get(I, st, val(I, st, where), key))
    if ci.name == 'get':
        return old.a[2][0]
    I.mset(st, where, map_put(val(I, st, where), key, NONE))
    return old.a[2][0] if ci.name == 'remove' else mk('E', '()', 0, (key, old.a[2][0]))


@model('Entry::or_insert', 'Entry::or_insert_with')
def m_or_insert(I, st, a, ci):
    e = entry_of(I, st, a[0])
    where, key = e.a[2]
    if e.a[1]:
        return mk('unk', 'slot')
    rs = [(st, a[1])] if ci.name == 'or_insert' else I.apply(st, a[1], [])
    out = []
    for s, v in rs:
        m_map_insert(I, s, [where, key, v], ci)
        out.append((s, mk('unk', 'slot')))
    return out


def map_len(I, st, m):
    if m.a[1] is t.EMPTY:
        return t.ZERO if m.a[0].op == 'empty' else A(t.sym('entries of %s' % t.show(m.a[0]), 'len'))
    # keys put in are new ones, keys taken out were there
    n = map_len(I, st, mk('map', m.a[0], t.EMPTY))
    for g in entries(m):
        es = g.a[0] if g.op == 'lit' else g.a[2].a[0][0].a[0] if g.op == 'flat' and len(g.a[2].a[0]) == 1 and g.a[2].a[0][0].op == 'lit' else None
        if g.op == 'sub':
            n = t.add(n, t.seglen(g))
            continue
        if es is None or any(e.a[0] == 'retain' for e in es):
            return A(t.fresh('phi#entries', 'len'))
        if g.op == 'flat' and any(e.a[2][1] is NONE for e in es):
            return A(t.fresh('phi#entries', 'len'))
        c = C(sum(-1 if e.a[2][1] is NONE else 1 for e in es))
        n = t.add(n, c if g.op == 'lit' else t.mul(c, g.a[1]))
    return n


@model('HashMap::len')
def m_map_len(I, st, a, ci):
    return map_len(I, st, val(I, st, a[0]))


@model('HashMap::is_empty')
def m_map_is_empty(I, st, a, ci):
    return t.eq0(map_len(I, st, val(I, st, a[0])))


@model('HashMap::clear')
def m_map_clear(I, st, a, ci):
    I.mset(st, a[0], new_map(I))
    return UNIT


@model('HashMap::reserve', 'HashMap::shrink_to_fit')
def m_map_reserve(I, st, a, ci):
    return UNIT


@model('HashMap::retain')
def m_map_retain(I, st, a, ci):
    m = val(I, st, a[0])
    f = I.mget(st, a[1])
    I.mset(st, a[0], mk('map', m.a[0], t.cat(m.a[1], t.lit((mk('E', 'retain', 0, (f,)),)))))
    return UNIT


# ------------------------------------------------------------------ futures
def ready(v):
    return mk('E', POLL, 0, (v,))


@model('Future::poll')
def f_poll(I, st, a, ci):
    return mapres(I.poll(st, a[0]), ready)


@model('Poll::is_ready')
def f_is_ready(I, st, a, ci):
    return I.open(st, val(I, st, a[0])).a[1] == 0


@model('Poll::is_pending')
def f_is_pending(I, st, a, ci):
    return I.open(st, val(I, st, a[0])).a[1] == 1


@model('future::maybe_done')
def f_maybe_done(I, st, a, ci):
    return mk('E', 'maybe_done', 0, (a[0],))


@model('MaybeDone::take_output')
def f_take_output(I, st, a, ci):
    v = val(I, st, a[0])
    if v.op == 'E' and v.a[1] == 1:
        r = v.a[2][0]
        I.mset(st, a[0], mk('E', 'maybe_done', 2, ()))
        return some(r)
    return NONE


@model('future::poll_fn')
def f_poll_fn(I, st, a, ci):
    return mk('E', 'poll_fn', 0, (a[0],))


@model('future::join_all', 'future::try_join_all')
def f_join_all(I, st, a, ci):
    return mk('E', 'join_all', 0, (as_iter(I, st, a[0]),))


@model('future::ready', 'future::lazy')
def f_ready(I, st, a, ci):
    return mk('E', 'ready', 0, (a[0],))


# streams: variant 0 yields the results of its futures in order, 1 in the order they complete, 2 holds values
@model('FuturesUnordered::new', 'FuturesOrdered::new')
def f_stream_new(I, st, a, ci):
    return mk('E', 'stream', int('FuturesUnordered' in ci.path), (t.EMPTY,))


@model('FuturesUnordered::push', 'FuturesOrdered::push', 'FuturesOrdered::push_back')
def f_stream_push(I, st, a, ci):
    v = I.mget(st, a[0])
    I.mset(st, a[0], mk('E', 'stream', v.a[1], (t.cat(v.a[2][0], t.lit((a[1],))),)))
    return UNIT


@model('stream::iter')
def f_stream_iter(I, st, a, ci):
    return [(s, mk('E', 'stream', 2, (v,))) for s, v in collect(I, st, as_iter(I, st, a[0]))]


@model('StreamExt::buffered', 'StreamExt::buffer_unordered')
def f_buffered(I, st, a, ci):
    v = val(I, st, a[0])
    if v.op != 'E' or v.a[0] != 'stream' or v.a[1] != 2:
        raise Unsupported('stream')
    return mk('E', 'stream', int(ci.name == 'buffer_unordered'), v.a[2])


@model('StreamExt::collect')
def f_stream_collect(I, st, a, ci):
    return mk('E', 'stream_collect', 0, (a[0],))


@model('StreamExt::next')
def f_stream_next(I, st, a, ci):
    return mk('E', 'stream_next', 0, (a[0],))


EITHER = 'futures_util::future::either::Either'


@model('future::select')
def f_select(I, st, a, ci):
    return mk('E', 'select', 0, tuple(a))


@model('future::join')
def f_join(I, st, a, ci):
    return mk('E', 'join', 0, tuple(a))


def std_poll(I, st, fut, ref):
    if fut.op == 'E':
        k = fut.a[0]
        if k == 'maybe_done':
            if fut.a[1] != 0:
                return UNIT
            out = []
            for s, v in I.poll(st, fut.a[2][0]):
                I.mset(s, ref, mk('E', 'maybe_done', 1, (v,)))
                out.append((s, UNIT))
            return out
        if k == 'poll_fn':
            f = fut.a[2][0]
            if ref is not None and isinstance(f, T) and f.op == 'clo':
                f = I.mext(ref, ('f', 0))
            out = []
            for s, v in I.apply(st, f, [mk('ctx')]):
                v = I.open(s, v)
                if v.a[1] != 0:
                    continue        # resumed later; every inner future completes in this model
                out.append((s, v.a[2][0]))
            return out
        if k == 'ready':
            return fut.a[2][0]
        if k == 'join':
            cur = [(st, ())]
            for f in fut.a[2]:
                cur = [(s2, vs + (v,)) for s, vs in cur for s2, v in I.poll(s, f)]
            return [(s, mk('E', '()', 0, vs)) for s, vs in cur]
        if k == 'select':
            # either future may complete first, the other one is handed back
            x, y = fut.a[2]
            return [(s, mk('E', EITHER, 0, (mk('E', '()', 0, (v, y)),))) for s, v in I.poll(st.copy(), x)] + \
                [(s, mk('E', EITHER, 1, (mk('E', '()', 0, (v, x)),))) for s, v in I.poll(st, y)]
        if k == 'stream_next':
            v = I.mget(st, fut.a[2][0])
            if not (isinstance(v, T) and v.op == 'E' and v.a[0] == 'stream'):
                raise Unsupported('next of a stream')
            seq = v.a[2][0]
            n = t.slen(seq)
            if not st.need(t.ge0(t.sub(n, t.ONE))):
                return NONE
            out = []
            for last in ((False, True) if v.a[1] == 1 else (False,)):
                s = st.copy()
                e = I.get(s, seq, t.sub(n, t.ONE) if last else t.ZERO)
                rest = I.slice(s, seq, t.ZERO if last else t.ONE, t.sub(n, t.ONE))
                I.mset(s, fut.a[2][0], mk('E', 'stream', v.a[1], (rest,)))
                out += [(s2, some(r)) for s2, r in ([(s, e)] if v.a[1] == 2 else I.poll(s, e))]
            return out
        if k == 'stream_collect':
            v = val(I, st, fut.a[2][0])
            if not (isinstance(v, T) and v.op == 'E' and v.a[0] == 'stream'):
                raise Unsupported('collect of a stream')
            if v.a[1] == 2:
                return v.a[2][0]
            n = t.slen(v.a[2][0])
            out = []
            # completion in order, and (if nothing keeps the order) in the opposite order
            for rev in ((False, True) if v.a[1] == 1 else (False,)):
                s = st.copy()
                acc = I.alloc(s, t.EMPTY, 'acc')

                def body(S, e):
                    return [push_to(I, S2, acc, x) for S2, x in I.poll(S, e)]
                for s2, r in finish(I, each(I, s, as_iter(I, s, v.a[2][0]), body), acc):
                    out.append((s2, materialise(I, s2, mk("rev", mk("sview", r), n), n) if rev else r))
            return out
        if k == 'join_all':
            it = fut.a[2][0]
            acc = I.alloc(st, t.EMPTY, 'acc')

            def body(S, e):
                return [push_to(I, s2, acc, v) for s2, v in I.poll(S, e)]
            return finish(I, each(I, st, it, body), acc)
    return None


MODELS['poll'] = std_poll


# ------------------------------------------------------------------ lazily initialised statics
LAZY = 'lazy'


@model('Lazy::new', 'LazyLock::new', 'LazyCell::new')
def lazy_new(I, st, a, ci):
    return mk('E', LAZY, 0, (a[0],))


@model('Lazy::force', 'LazyLock::force')
def lazy_force(I, st, a, ci):
    return force(I, st, val(I, st, a[0]))


def force(I, st, v):
    rs = I.apply(st, v.a[2][0], [])
    if len(rs) != 1:
        raise Unsupported('lazy value with several outcomes')
    return rs[0][1]


# ------------------------------------------------------------------ big integers
def parse_number(I, st, s, radix):
    """Result of parsing a text as a natural number"""
    c = const(radix)
    if isinstance(s, T) and s.op == 'str' and c is not None:
        try:
            return ok(C(int(s.a[0].replace('_', ''), c)))
        except ValueError:
            return mk('E', 'core::result::Result', 1, (mk('opq', 'ParseBigIntError', ('opaque', 'err')),))
    return mk('opq', 'number(%s,%s)' % (t.show(s, 3), t.show(radix, 3)),
              ('adt', 'core::result::Result', (('adt', BIGUINT, ()), ('opaque', 'err'))))


@model('Num::from_str_radix', 'BigUint::parse_bytes', 'BigUint::from_str_radix')
def n_parse(I, st, a, ci):
    ty = strip(ci.targs[0]) if ci.targs else None
    if ci.path.split('::')[-1] == 'from_str_radix' and ty is not None and ty[0] == 'adt' and ty[1] == BIGUINT:
        return parse_number(I, st, val(I, st, a[0]), a[1])
    return NotImplemented


@model('FromStr::from_str')
def n_fromstr(I, st, a, ci):
    ty = strip(ci.targs[0]) if ci.targs else None
    if ty is not None and ty[0] == 'adt' and ty[1] == BIGUINT:
        return parse_number(I, st, val(I, st, a[0]), C(10))
    return NotImplemented


@model('One::one', 'Zero::zero')
def n_one(I, st, a, ci):
    if local_impl(I, ci):
        return NotImplemented
    return t.ONE if ci.name == 'one' else t.ZERO


@model('Zero::is_zero', 'One::is_one')
def n_is(I, st, a, ci):
    if local_impl(I, ci):
        return NotImplemented
    v = val(I, st, a[0])
    if I.is_field(strip(ci.targs[0])):
        v = I.fe(st, v)
        return t.feq0(v if ci.name == 'is_zero' else t.sub(v, t.ONE))
    return t.eq0(v if ci.name == 'is_zero' else t.sub(v, t.ONE))


@model('FromPrimitive::from_u64', 'FromPrimitive::from_usize', 'FromPrimitive::from_u32', 'FromPrimitive::from_u8',
       'FromPrimitive::from_u16', 'FromPrimitive::from_i64', 'FromPrimitive::from_isize', 'FromPrimitive::from_i32',
       'FromPrimitive::from_i16', 'FromPrimitive::from_i8')
def n_from(I, st, a, ci):
    ty = ci.targs[0]
    v = val(I, st, a[0])
    signed = ci.name[5] == 'i'
    if ty[0] == 'adt' and ty[1] == BIGUINT:
        if signed and not st.need(t.ge0(v)):
            return NONE
        return some(v)
    if I.is_field(ty):
        return some(v)
    if ci.name in ('from_u64', 'from_i64'):
        return NotImplemented
    # provided methods forward to the 64-bit ones
    im = I.find_impl('FromPrimitive', 'from_i64' if signed else 'from_u64', ty)
    if im is not None:
        return I.run(im[0], a, st, im[1])
    return NotImplemented


@model('BigUint::modpow', 'BigUint::pow#')
def b_modpow(I, st, a, ci):
    b, e, m = [val(I, st, x) for x in a]
    if st.need(t.eq0(m)):
        I.panic('modpow', 'modpow with modulus zero', ci.where, st)
        return []
    return A(mk('modpow', b, e, m))


@model('BigUint::from_bytes_le', 'BigUint::from_bytes_be')
def b_from(I, st, a, ci):
    s = seqv(I, st, a[0])
    if all(x.op == 'lit' and all(isp(y) and const(y) is not None for y in x.a[0]) for x in s.a[0]):
        return C(int.from_bytes(bytes(const(y) & 255 for x in s.a[0] for y in x.a[0]), 'little' if ci.path.endswith('le') else 'big'))
    if len(s.a[0]) == 1 and s.a[0][0].op == 'sub':
        b = s.a[0][0].a[0]
        if b.op == 'base' and isinstance(b.a[0], T) and b.a[0].op == 'bytes_' + ci.path[-2:] and s is t.whole(b):
            return b.a[0].a[0]
    return A(mk('app', 'int_' + ci.path[-2:], s, 'nat'))


@model('BigUint::to_bytes_le', 'BigUint::to_bytes_be')
def b_to(I, st, a, ci):
    v = const(val(I, st, a[0]))
    if v is not None and v >= 0:
        return t.lit(C(y) for y in v.to_bytes(max(1, (v.bit_length() + 7) // 8), 'little' if ci.path.endswith('le') else 'big'))
    return t.whole(mk('base', mk('bytes_' + ci.path[-2:], val(I, st, a[0])), ('uint', 'u8')))


@model('BigUint::bits')
def b_bits(I, st, a, ci):
    v = val(I, st, a[0])
    if const(v) is not None:
        return C(const(v).bit_length())
    return A(mk('bitlen', v))


@model('BigUint::is_even', 'BigUint::is_odd', 'Integer::is_even', 'Integer::is_odd')
def b_even(I, st, a, ci):
    if local_impl(I, ci):
        return NotImplemented
    r = t.divmod_(val(I, st, a[0]), C(2))[1]
    return t.eq0(r if ci.name.endswith('even') else t.sub(r, t.ONE))


@model('Integer::div_rem', 'Integer::div_mod_floor', 'Integer::div_floor', 'Integer::mod_floor')
def b_divrem(I, st, a, ci):
    if local_impl(I, ci):
        return NotImplemented
    x, y = val(I, st, a[0]), val(I, st, a[1])
    q = nat_arith(I, st, 'Div', x, y, ci.where)
    if q == []:
        return q
    r = t.divmod_(x, y)[1]
    if ci.name in ('div_rem', 'div_mod_floor'):
        return mk('E', '()', 0, (q, r))
    return q if ci.name == 'div_floor' else r


def big(ty):
    ty = strip(ty)
    return ty[0] == 'adt' and ty[1] == BIGUINT


@model('Integer::gcd', 'Integer::lcm', 'Integer::is_multiple_of', 'Integer::divides')
def b_gcd(I, st, a, ci):
    x, y = val(I, st, a[0]), val(I, st, a[1])
    if ci.name in ('gcd', 'lcm'):
        return t.bigf(ci.name, x, y)
    if st.need(t.eq0(y)):
        I.panic('div', 'division by zero', ci.where, st)
        return []
    return t.eq0(t.divmod_(x, y)[1])


@model('BigUint::sqrt', 'BigUint::cbrt', 'BigUint::nth_root', 'Roots::sqrt', 'Roots::cbrt', 'Roots::nth_root')
def b_root(I, st, a, ci):
    n = {'sqrt': C(2), 'cbrt': C(3)}.get(ci.name)
    return t.bigf('root', val(I, st, a[0]), n if n is not None else val(I, st, a[1]))


@model('ToPrimitive::to_u8', 'ToPrimitive::to_u16', 'ToPrimitive::to_u32', 'ToPrimitive::to_u64', 'ToPrimitive::to_u128',
       'ToPrimitive::to_usize', 'ToPrimitive::to_i8', 'ToPrimitive::to_i16', 'ToPrimitive::to_i32', 'ToPrimitive::to_i64',
       'ToPrimitive::to_i128', 'ToPrimitive::to_isize')
def b_toprim(I, st, a, ci):
    if local_impl(I, ci):
        return NotImplemented
    v = val(I, st, a[0])
    lo, hi = t.ty_bounds(ci.name[3:])
    if not st.need(t.ge0(t.sub(C(hi), v))):
        return NONE
    if not big(ci.targs[0]) and not st.need(t.ge0(t.sub(v, C(lo)))):
        return NONE
    return some(v)


@model('Pow::pow')
def b_pow2(I, st, a, ci):
    if local_impl(I, ci) or not big(ci.targs[0]):
        return NotImplemented
    return t.fpow(val(I, st, a[0]), val(I, st, a[1]))


@model('CheckedSub::checked_sub', 'CheckedAdd::checked_add', 'CheckedMul::checked_mul', 'CheckedDiv::checked_div')
def b_checked(I, st, a, ci):
    ty = strip(ci.targs[0])
    if not (ty[0] == 'adt' and ty[1] == BIGUINT):
        return NotImplemented
    x, y = val(I, st, a[0]), val(I, st, a[1])
    if ci.name == 'checked_sub':
        return some(t.sub(x, y)) if st.need(t.ge0(t.sub(x, y))) else NONE
    if ci.name == 'checked_div':
        return NONE if st.need(t.eq0(y)) else some(t.divmod_(x, y)[0])
    return some(t.add(x, y) if ci.name == 'checked_add' else t.mul(x, y))


@model('RandBigInt::gen_biguint_below')
def b_rand(I, st, a, ci):
    return I.draw(st, a[0], 'below', val(I, st, a[1]))


@model('RandBigInt::gen_biguint')
def b_rand2(I, st, a, ci):
    return I.draw(st, a[0], 'bits', val(I, st, a[1]))


@model('RandBigInt::gen_biguint_range')
def b_rand3(I, st, a, ci):
    return I.draw(st, a[0], 'range', val(I, st, a[1]), val(I, st, a[2]))


@model('num::pow', 'pow::pow')
def n_pow(I, st, a, ci):
    ty = ci.targs[0]
    b, e = val(I, st, a[0]), val(I, st, a[1])
    if I.is_field(ty):
        return t.fpow(I.fe(st, b), e)
    if ty[0] == 'adt' and ty[1] == BIGUINT:
        return t.fpow(b, e)
    c = const(e)
    if c is None:
        raise Unsupported('integer power with a variable exponent')
    r = t.power(b, c)
    if st.need(I.inrange(r, ty[1])):
        return r
    I.panic('overflow', 'arithmetic overflow in pow', ci.where, st)
    return []


@model('FnMut::call_mut', 'FnOnce::call_once', 'Fn::call')
def fn_call(I, st, a, ci):
    args = I.open(st, val(I, st, a[1]))
    return I.apply(st, a[0], list(args.a[2]))
