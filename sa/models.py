"""Transfer functions for calls: which functions are uninterpreted leaves, and exact models for the
handful of core/alloc operations the generated code and nom use (slices, integers, ranges, Vec)."""
import re
from .interp import (Panic, Unspec, Unsupported, Infeasible, Cut, C, B, UNIT, INT_BITS, PRIMS, adt, wrap, is_signed,
                     ty_range, Oracle, Interp, int_op, ISIZE_MAX)

OPTION = 'std::option::Option'
RESULT = 'std::result::Result'


def some(v):
    return adt(OPTION, 1, 'Some', (v,))


NONE = adt(OPTION, 0, 'None')


def ok(v):
    return adt(RESULT, 0, 'Ok', (v,))


def err(v):
    return adt(RESULT, 1, 'Err', (v,))


def last(p):
    return p.rsplit('::', 1)[-1]


NUM_RE = re.compile(r'<impl (\w+)>::(\w+)$')
LEAFNUM = re.compile(r'^nom::number::(streaming|complete)::(be|le)_u(8|16|24|32|64|128)$')
SLICE_RE = re.compile(r'^(core|alloc)::slice::(\{impl#\d+\}|<impl \[T\]>)::(\w+)$')


def is_parse_trait(ref):
    return ref.get('trait', '').endswith('Parse') and ref['raw'].startswith('nom_derive::')


def forced_leaf(it, ref):
    r = ref.get('rraw', ref['raw'])
    if ref.get('method') == 'compare' and 'Compare' in ref.get('trait', ''):
        return True
    if is_parse_trait(ref) and r.startswith('nom_derive::') and it.opts.get('mode') == 'derive' \
            and not r.startswith('nom_derive::traits::Parse::'):
        return True
    if is_parse_trait(ref) and it.opts.get('mode') == 'lib' and ref['self_ty'] in PRIMS \
            and it.opts.get('prim_leaf'):
        return True
    if 'HexDisplay' in ref.get('trait', ''):
        return True
    if r.startswith('core::str::') and last(r) in ('from_utf8', 'from_utf8_unchecked'):
        return True
    return False


def idx_range(it, f):
    """core::ops::Range* value -> (kind, start, end)"""
    name = f[1] if f[0] == 'adt' else None
    if name is None:
        raise Unsupported('symbolic range %r' % (f[:2],))
    k = last(name)
    if k == 'Range' or k == 'Range<usize>':
        return 'r', f[4][0], f[4][1]
    if k.startswith('RangeFrom'):
        return 'f', f[4][0], None
    if k.startswith('RangeToInclusive'):
        return 'ti', None, f[4][0]
    if k.startswith('RangeTo'):
        return 't', None, f[4][0]
    if k.startswith('RangeFull'):
        return 'a', None, None
    raise Unsupported('range ' + k)


ZERO = C(0, 'usize')


def le(it, a, b):
    return it.truth(('op', 'Le', 'usize', a, b))


def slice_range(it, s, rng, where, get=False):
    k, a, b = idx_range(it, rng)
    n = it.slice_len(s)
    a = a if a is not None else ZERO
    if k == 'ti':
        raise Unsupported('inclusive range')
    okc = True
    if b is None:
        okc = le(it, a, n)
        b = n
    else:
        okc = (a == ZERO or le(it, a, b)) and le(it, b, n)
    if not okc:
        if get:
            return None
        raise Panic('slice index out of range', where)
    return it.mk_slice(s, a, it.binop('SubN', 'usize', b, a))


def val(it, v):
    """value behind any number of pointers to memory cells"""
    while v[0] in ('ptr', 'ref'):
        v = it.deref_val(v)
    return v


def setptr(it, p, v):
    it.store(p, v)


def lookup(it, ref, args, term):
    raw = ref.get('rraw', ref['raw'])
    l = last(raw)
    tr, me = ref.get('trait', ''), ref.get('method')
    where = term[5] if term else '?'
    if 'intrinsic' in ref:
        return intrinsic(it, ref, args, where)
    # ---- clone: values are terms
    if tr.endswith('clone::Clone') and me == 'clone':
        if 'id' in ref:
            return None
        return (it.deref_val(args[0]),)
    if tr.endswith('convert::TryFrom') and me == 'try_from' and args and args[0][0] == 'vec':
        m = re.match(r'^\[.*; (\d+)\]$', ref['self_ty'], re.S)
        if m and len(ref['gargs']) == 2 and ref['gargs'][1].startswith('std::vec::Vec<'):
            return (ok(('arr', args[0][1])) if len(args[0][1]) == int(m.group(1)) else err(args[0]),)
    if tr.endswith('convert::TryInto') and me == 'try_into' and args and args[0][0] == 'vec':
        m = re.match(r'^\[.*; (\d+)\]$', ref['gargs'][-1], re.S)
        if m and ref['self_ty'].startswith('std::vec::Vec<'):
            return (ok(('arr', args[0][1])) if len(args[0][1]) == int(m.group(1)) else err(args[0]),)
    # ---- an opaque input is a slice of bytes (that is what InputSlice is for)
    if tr in ('nom::Input', 'nom::traits::Input') and 'id' not in ref and args:
        r = input_op(it, me, val(it, args[0]), args, where)
        if r is not None:
            return (r,)
    # ---- indexing
    if tr.endswith('ops::Index') and me == 'index':
        sty = ref['self_ty']
        if args[1][0] == 'adt' and 'Range' in args[1][1]:
            s = args[0]
            if sty.startswith('[') and ';' in sty:
                # array: &[T; N] seen as a slice
                s = args[0]
            return (slice_range(it, s, args[1], where),)
    m = SLICE_RE.match(raw)
    if m:
        r = slice_op(it, m.group(3), args, where)
        if r is not None:
            return r
    if re.match(r'core::str::(<impl str>|\{impl#\d+\})::(trim|strip|split|rsplit|find|rfind|char|lines|matches|replace|to_|repeat|parse|escape|get)', raw):
        # what these make of a string is something else than the string
        return (('app', raw, tuple(it.freeze(a) for a in args)),)
    if raw.startswith('core::num::') or raw.startswith('core::cmp::'):
        r = num_op(it, ref, raw, args, where)
        if r is not None:
            return r
    if tr.endswith('iter::Iterator') and me == 'next' and ref['self_ty'].endswith('Range<usize>') \
            or me == 'next' and re.search(r'ops::Range<\w+>$', ref.get('self_ty', '')):
        return range_next(it, ref, args)
    if me == 'next' and tr.endswith('iter::Iterator') and re.match(r'^(std|core)::slice::Iter(Mut)?<', ref['self_ty']):
        r = it.deref_val(args[0])
        if r[0] == 'adt' and r[1] == 'SliceIter':
            s, k = r[4]
            v = it.deref_val(s)
            if v[0] not in ('arr', 'vec'):
                raise Unsupported('iteration')
            if k[1] >= len(v[1]):
                return (NONE,)
            setptr(it, args[0], r[:4] + ((s, C(k[1] + 1, 'usize')),) + r[5:])
            return (some(('ptr', s[1], s[2] + (('ix', k),)) if s[0] == 'ptr' else ('ref', v[1][k[1]])),)
    if raw.startswith('core::ptr::') or l in ('as_ptr', 'addr'):
        r = ptr_op(it, l, args)
        if r is not None:
            return r
    if raw.startswith('alloc::'):
        r = alloc_op(it, ref, raw, l, args, where)
        if r is not None:
            return r
    if raw.startswith('core::mem::') and l in ('size_of', 'size_of_val'):
        return size_of(ref)
    if raw.startswith('core::mem::') and l == 'discriminant':
        return (('app', 'mem::discriminant', (it.freeze(args[0]),)),)
    # printing
    if raw in ('std::io::stdio::_print', 'std::io::stdio::_eprint'):
        if it.opts.get('allow_print') and (any('dbg_dmp' in x for x in it.stack) or it.saw_err()):
            return (UNIT,)
        it.trace.append(('print', l))
        return (UNIT,)
    if raw.startswith('core::ops::function::') and me in ('call', 'call_mut', 'call_once'):
        return None
    return None


def intrinsic(it, ref, args, where):
    n = ref['intrinsic']
    if n == 'discriminant_value':
        v = val(it, args[0])
        tab = ref.get('etab')
        if v[0] == 'adt':
            return (C(int(dict(map(tuple, tab))[v[3]]), 'isize'),) if tab else (C(0, 'isize'),)
        if tab:
            return (('discr', v, tuple(map(tuple, tab))),)
        return (('app', 'discriminant', (v,)),)
    if n in ('size_of', 'min_align_of', 'align_of'):
        return size_of(ref)
    if n in ('likely', 'unlikely', 'black_box'):
        return (args[0],)
    if n in ('cold_path', 'assume', 'assert_inhabited', 'assert_zero_valid', 'forget'):
        return (UNIT,)
    if n == 'unreachable':
        raise Infeasible()
    if n == 'abort':
        raise Panic('abort', where)
    if n == 'transmute':
        return (args[0],)
    ops = {'wrapping_add': 'Add', 'wrapping_sub': 'Sub', 'wrapping_mul': 'Mul', 'unchecked_add': 'Add',
           'unchecked_sub': 'Sub', 'unchecked_mul': 'Mul', 'exact_div': 'Div', 'unchecked_div': 'Div',
           'unchecked_rem': 'Rem', 'unchecked_shl': 'Shl', 'unchecked_shr': 'Shr'}
    ty = ref['gargs'][0] if ref['gargs'] else None
    if n in ops and ty in INT_BITS:
        return (it.binop(ops[n], ty, args[0], args[1]),)
    if n in ('add_with_overflow', 'sub_with_overflow', 'mul_with_overflow') and ty in INT_BITS:
        k = n[:3].capitalize()
        r = it.binop(k + 'WithOverflow', ty, args[0], args[1])
        return (('tup', (r[1], r[2])),)
    if n in ('ptr_offset_from', 'ptr_offset_from_unsigned'):
        return (it.binop('Sub', 'usize', args[0], args[1]),)
    if n in ('saturating_add', 'saturating_sub') and ty in INT_BITS:
        return (saturating(it, n, ty, args[0], args[1]),)
    return (('app', 'intr:' + ref['full'], tuple(it.freeze(a) for a in args)),)


def size_of(ref):
    t = ref['gargs'][0]
    if t in INT_BITS:
        return (C(INT_BITS[t] // 8, 'usize'),)
    return (('app', 'size_of', (('sym', t),)),)


def input_op(it, op, v, args, where):
    n = it.slice_len(v)
    if op == 'input_len':
        return n
    if op == 'slice_index':
        if le(it, args[1], n):
            return ok(args[1])
        return err(adt('nom::Needed', 0, 'Unknown'))
    if op in ('take', 'take_from', 'take_split'):
        if not le(it, args[1], n):
            raise Panic('slice index out of range', where)
        head, tail = it.mk_slice(v, ZERO, args[1]), it.mk_slice(v, args[1], it.binop('SubN', 'usize', n, args[1]))
        return {'take': head, 'take_from': tail, 'take_split': ('tup', (tail, head))}[op]
    return None


def slice_op(it, op, args, where):
    s = args[0]
    v = it.deref_val(s) if s[0] in ('ptr', 'ref') else s
    # a pointer to a memory cell holding an array/vec: concrete contents
    if op == 'len':
        return (it.slice_len(s),)
    if op == 'is_empty':
        n = it.slice_len(s)
        return (it.binop('Eq', 'usize', n, ZERO),)
    if op in ('iter', 'iter_mut') and v[0] in ('arr', 'vec') and s[0] in ('ptr', 'ref'):
        return (adt('SliceIter', 0, 'SliceIter', (s, ZERO), is_enum=False),)
    if op in ('as_ptr', 'as_mut_ptr'):
        f = it.freeze(s)
        root = it.root_of(f)
        return (('addr', root, it.slice_off(f)),)
    if op in ('split_at', 'split_at_checked', 'split_at_unchecked'):
        n, tot = args[1], it.slice_len(s)
        if op != 'split_at_unchecked' and not le(it, n, tot):
            if op == 'split_at_checked':
                return (NONE,)
            raise Panic('split_at out of range', where)
        r = ('tup', (it.mk_slice(s, ZERO, n), it.mk_slice(s, n, it.binop('SubN', 'usize', tot, n))))
        return (some(r) if op == 'split_at_checked' else r,)
    if op in ('get', 'get_unchecked'):
        if args[1][0] == 'adt' and 'Range' in args[1][1]:
            r = slice_range(it, s, args[1], where, get=True)
            return (NONE if r is None else some(r),)
        n = it.slice_len(s)
        if not it.truth(('op', 'Lt', 'usize', args[1], n)):
            return (NONE,)
        return (some(('ref', ('idx', it.freeze(s), args[1]))),)
    if op in ('first', 'split_first'):
        n = it.slice_len(s)
        if it.truth(('op', 'Eq', 'usize', n, ZERO)):
            return (NONE,)
        one = C(1, 'usize')
        e = ('ref', ('idx', it.freeze(s), ZERO))
        if op == 'first':
            return (some(e),)
        return (some(('tup', (e, it.mk_slice(s, one, it.binop('SubN', 'usize', n, one))))),)
    return None


def saturating(it, n, ty, a, b):
    k = 'Add' if n.endswith('add') else 'Sub' if n.endswith('sub') else 'Mul'
    if it.truth(it.ovf(k, ty, a, b)):
        lo, hi = ty_range(ty)
        if not is_signed(ty):
            return C(lo if k == 'Sub' else hi, ty)
        neg = it.truth(('op', 'Lt', ty, a, C(0, ty)))
        if k == 'Mul':
            neg = neg != it.truth(('op', 'Lt', ty, b, C(0, ty)))
        return C(lo if neg else hi, ty)
    return it.binop(k, ty, a, b)


def num_op(it, ref, raw, args, where):
    m = NUM_RE.search(ref.get('rname', ref['name']))
    tr, me = ref.get('trait', ''), ref.get('method')
    if tr.endswith('cmp::Ord') and me in ('min', 'max') and ref['self_ty'] in INT_BITS:
        ty, op = ref['self_ty'], me
        lt = it.truth(('op', 'Lt', ty, args[1], args[0]))
        return (args[1] if lt == (op == 'min') else args[0],)
    if raw in ('core::cmp::min', 'core::cmp::max') and ref['gargs'][0] in INT_BITS:
        ty = ref['gargs'][0]
        lt = it.truth(('op', 'Lt', ty, args[1], args[0]))
        return (args[1] if lt == raw.endswith('min') else args[0],)
    if not m or not raw.startswith('core::num::'):
        return None
    ty, op = m.group(1), m.group(2)
    if ty not in INT_BITS:
        return None
    mm = re.match(r'(checked|wrapping|overflowing|saturating|strict|unchecked)_(add|sub|mul)$', op)
    if mm:
        mode, k = mm.group(1), mm.group(2).capitalize()
        a, b = args
        if mode in ('wrapping', 'unchecked'):
            return (it.binop(k, ty, a, b),)
        if mode == 'overflowing':
            r = it.binop(k + 'WithOverflow', ty, a, b)
            return (('tup', (r[1], r[2])),)
        if mode == 'saturating':
            return (saturating(it, op, ty, a, b),)
        if it.truth(it.ovf(k, ty, a, b)):
            if mode == 'strict':
                raise Panic('overflow', where)
            return (NONE,)
        return (some(it.binop(k, ty, a, b)),)
    lo, hi = ty_range(ty)
    uty = 'u' + ty[1:]
    if op in ('abs', 'wrapping_abs', 'unsigned_abs', 'checked_abs') and is_signed(ty):
        a = args[0]
        if op in ('abs', 'checked_abs') and it.truth(('op', 'Eq', ty, a, C(lo, ty))):
            if op == 'abs':
                raise Panic('abs overflow', where)
            return (NONE,)
        if it.truth(('op', 'Lt', ty, a, C(0, ty))):
            r = it.binop('Sub', ty, C(0, ty), a)
        else:
            r = a
        if op == 'unsigned_abs':
            r = it.cast('IntToInt', r, ty, uty)
        return (some(r) if op == 'checked_abs' else r,)
    if op in ('wrapping_neg',):
        return (it.binop('Sub', ty, C(0, ty), args[0]),)
    if op in ('checked_neg',):
        if it.truth(it.ovf('Sub', ty, C(0, ty), args[0])):
            return (NONE,)
        return (some(it.binop('Sub', ty, C(0, ty), args[0])),)
    if op in ('abs_diff',) and not is_signed(ty):
        if it.truth(('op', 'Lt', ty, args[0], args[1])):
            return (it.binop('Sub', ty, args[1], args[0]),)
        return (it.binop('Sub', ty, args[0], args[1]),)
    if op in ('checked_rem', 'checked_div'):
        if it.truth(('op', 'Eq', ty, args[1], C(0, ty))):
            return (NONE,)
        if is_signed(ty):
            return None
        return (some(it.binop('Rem' if op.endswith('rem') else 'Div', ty, *args)),)
    if op in ('rem_euclid', 'wrapping_rem', 'div_euclid') and not is_signed(ty):
        if it.truth(('op', 'Eq', ty, args[1], C(0, ty))):
            raise Panic('rem-zero', where)
        return (it.binop('Div' if op.startswith('div') else 'Rem', ty, *args),)
    if op in ('checked_add_signed', 'overflowing_add_signed', 'wrapping_add_signed', 'saturating_add_signed') \
            and not is_signed(ty):
        sty = 'i' + ty[1:]
        if op.startswith('wrapping'):
            return (it.binop('Add', ty, args[0], it.cast('IntToInt', args[1], sty, ty)),)
        if it.truth(('op', 'Lt', sty, args[1], C(0, sty))):
            mag = it.cast('IntToInt', it.binop('Sub', sty, C(0, sty), args[1]), sty, ty)
            bad = it.truth(('op', 'Lt', ty, args[0], mag))
            r = it.binop('Sub', ty, args[0], mag)
        else:
            mag = it.cast('IntToInt', args[1], sty, ty)
            bad = it.truth(it.ovf('Add', ty, args[0], mag))
            r = it.binop('Add', ty, args[0], mag)
        if op.startswith('checked'):
            return (NONE if bad else some(r),)
        return None
    if op in ('checked_next_multiple_of', 'next_multiple_of') and not is_signed(ty):
        a, n = args
        if it.truth(('op', 'Eq', ty, n, C(0, ty))):
            if op.startswith('checked'):
                return (NONE,)
            raise Panic('rem-zero', where)
        r = it.binop('Rem', ty, a, n)
        if it.truth(('op', 'Eq', ty, r, C(0, ty))):
            return (some(a) if op.startswith('checked') else a,)
        d = it.binop('Sub', ty, n, r)
        if it.truth(it.ovf('Add', ty, a, d)):
            if op.startswith('checked'):
                return (NONE,)
            raise Panic('overflow', where)
        r = it.binop('Add', ty, a, d)
        return (some(r) if op.startswith('checked') else r,)
    if op in ('swap_bytes', 'to_be', 'to_le', 'from_be', 'from_le', 'pow', 'count_ones', 'leading_zeros',
              'trailing_zeros', 'is_power_of_two', 'rotate_left', 'rotate_right', 'reverse_bits', 'ilog2'):
        a = tuple(it.freeze(x) for x in args)
        if op in ('to_le', 'from_le'):
            return (args[0],)
        if op in ('to_be', 'from_be'):
            op = 'swap_bytes'
        if op == 'swap_bytes' and args[0][0] == 'app' and args[0][1] == 'swap_bytes':
            return (args[0][2][0],)
        return (('app', op, a),)
    return None


def range_next(it, ref, args):
    m = re.search(r'Range<(\w+)>$', ref['self_ty'])
    ty = m.group(1)
    if ty not in INT_BITS:
        return None
    r = it.deref_val(args[0])
    if r[0] != 'adt':
        return None
    a, b = r[4]
    if it.truth(('op', 'Lt', ty, a, b)):
        n = r[:4] + ((it.binop('Add', ty, a, C(1, ty)), b),) + r[5:]
        setptr(it, args[0], n)
        return (some(a),)
    return (NONE,)


def ptr_op(it, l, args):
    a = args[0] if args else None
    if l in ('offset_from', 'byte_offset_from', 'sub_ptr', 'offset_from_unsigned', 'byte_offset_from_unsigned') \
            and a[0] == 'addr':
        return (it.binop('Sub', 'usize', a, args[1]),)
    if l in ('addr', 'expose_provenance', 'cast', 'cast_const', 'cast_mut') and a[0] == 'addr':
        return (a,)
    if l in ('add', 'wrapping_add', 'byte_add', 'wrapping_byte_add') and a[0] == 'addr':
        return (it.binop('Add', 'usize', a, args[1]),)
    return None


def alloc_op(it, ref, raw, l, args, where):
    if raw.startswith('alloc::vec::'):
        if l in ('new', 'with_capacity', 'new_in', 'with_capacity_in'):
            if l.startswith('with_capacity'):
                cap = args[0]
                lo, hi = it.bounds(cap, 'usize')
                if hi > 1 << 32:
                    if it.o.raw(('capovf', it.freeze(cap)), 2) == 1:
                        raise Panic('capacity overflow', where)
            return (('vec', ()),)
        if l == 'push':
            v = it.deref_val(args[0])
            if v[0] == 'vec':
                setptr(it, args[0], ('vec', v[1] + (args[1],)))
            else:
                setptr(it, args[0], ('vpush', it.freeze(v), it.freeze(args[1])))
            return (UNIT,)
        if l in ('len', 'is_empty'):
            v = val(it, args[0])
            if v[0] == 'vec':
                n = C(len(v[1]), 'usize')
            else:
                n = ('len', it.freeze(v))
            return (n if l == 'len' else it.binop('Eq', 'usize', n, ZERO),)
        if ref.get('trait', '').endswith('ops::Deref') or l in ('as_slice', 'as_ref', 'borrow'):
            return (args[0],)
        if ref.get('trait', '').endswith('default::Default'):
            return (('vec', ()),)
    if raw.startswith('alloc::slice::') and l in ('to_vec', 'into_vec') or \
            ref.get('gargs') and ref['gargs'][0] == '[u8]' and ref.get('trait', '').endswith('ToOwned') or \
            ref.get('trait', '').endswith('convert::From') and ref.get('gargs', [''])[-1] in ('&[u8]',) and ref['gargs'][0].startswith('std::vec::Vec<u8'):
        v = it.freeze(args[0])
        if v[0] not in ('arr', 'vec') and not (v[0] in ('ptr', 'ref') and it.deref_val(v)[0] in ('arr', 'vec')):
            return (('app', 'slice::to_vec', (v,)),)
    if raw.startswith('alloc::string::') or raw.startswith('alloc::str::') or raw.startswith('alloc::borrow::'):
        if ref.get('trait', '').endswith('ToOwned') or l in ('to_string', 'to_owned') \
                or ref.get('trait', '').endswith('convert::From') and ref['gargs'][-1] in ('&str', 'str'):
            if ref['gargs'][0] in ('str', 'std::string::String', 'alloc::string::String', 'String'):
                return (string_from(it.freeze(args[0])),)
        if raw.startswith('alloc::string::'):
            if l in ('new', 'with_capacity') or ref.get('trait', '').endswith('default::Default'):
                return (EMPTY,)
            if l == 'push_str' and it.deref_val(args[0]) == EMPTY:
                setptr(it, args[0], string_from(it.freeze(args[1])))
                return (UNIT,)
            if l == 'from_utf8' and args[0][0] == 'app' and args[0][1] == 'slice::to_vec':
                r = ('app', 'std::str::from_utf8', args[0][2])
                return (ok(string_from(('proj', r, 'Ok', 0))) if it.variant_of(r, [['Ok', 0], ['Err', 1]]) == 'Ok' else err(('app', 'FromUtf8Error', (('proj', r, 'Err', 0),))),)
            if l == 'utf8_error':
                v = val(it, args[0])
                if v[0] == 'app' and v[1] == 'FromUtf8Error':
                    return (v[2][0],)
    return None


def string_from(t):
    return ('app', 'String::from', (t,))


EMPTY = string_from(('str', ''))


# ------------------------------------------------------------------------------------ leaves
OKRE = re.compile(r'^std::result::Result<\((.*), nom::Err<', re.S)


def split_top(s):
    d, out, cur = 0, [], ''
    for ch in s:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def iresult(ty):
    """(input type, value type) of an IResult type string"""
    m = re.match(r'^std::result::Result<(.*)>$', ty, re.S)
    if not m:
        return None
    a = split_top(m.group(1))
    if len(a) == 2 and a[0].startswith('(') and a[1].startswith('nom::Err<'):
        b = split_top(a[0][1:-1])
        if len(b) == 2:
            return b[0], b[1]
    return None


def leaf_name(it, ref):
    if is_parse_trait(ref):
        t, m = ref['self_ty'], ref['method']
        if it.opts.get('erase_endian'):
            m = 'parse'
        if t in PRIMS:
            if m == 'parse':
                m = 'parse_be'
            if t in ('u8', 'i8'):
                m = 'parse_be'
        return 'P:%s:%s' % (t, m)
    m = LEAFNUM.match(ref.get('rraw', ref['raw']))
    if m:
        e = m.group(2)
        if m.group(3) == '8':
            e = 'be'
        return 'nom:%s:%s_u%s' % (m.group(1), e, m.group(3))
    return ref.get('rfull', ref['full'])


def leaf(it, ref, args, term):
    if ref == 'call-value':
        name, raw, muts = 'call-value', '', ()
    else:
        name = leaf_name(it, ref)
        raw = ref.get('rraw', ref['raw'])
        muts = ref.get('muts', ())
    fa = tuple(it.freeze(a) for a in args)
    dty = term[6] if term else ''
    if name.endswith('opq::unspecified'):
        raise Unspec()
    if term is not None and term[4] is None:
        raise Panic('call to diverging ' + name, term[5])
    t = ('app', name, fa)
    fn = last(raw)
    if it.opts.get('stable'):
        from . import stab
        r = stab.leaf(it, name, fa, iresult(dty), raw)
        if r is not None:
            return r
    if '::opq::' in raw and fn.startswith('eff_'):
        t = ('app', name, fa, len([x for x in it.trace if x[0] == 'eff']))
        it.trace.append(('eff', t))
    else:
        t = known_app(it, t)
        if name.startswith('P:') or '::opq::' in raw and iresult(dty):
            it.trace.append(('parse', t))
    if raw.startswith(('std::', 'core::panicking', 'alloc::alloc')) and not raw.startswith(PURE_STD):
        it.trace.append(('extern', t))
    ir = iresult(dty)
    if ir and args:
        rem = ('proj', ('proj', t, 'Ok', 0), None, 0)
        value = ('proj', ('proj', t, 'Ok', 0), None, 1)
        if ir[0] == '&[u8]' and rem != fa[0]:
            it.opts['rem_of'][rem] = fa[0]
        if ir[1] in INT_BITS:
            it.opts['tyof'][value] = ir[1]
    if dty in INT_BITS:
        it.opts['tyof'][t] = dty
    for k in muts:
        a = args[k]
        if a[0] == 'ptr':
            it.store(a, ('out', t, k))
    return t


def known_app(it, t):
    """a call whose arguments are equal, on this path, to those of an earlier call has the same value"""
    from .compare import cmp_terms
    ls = it.o.__dict__.setdefault('leaves', {}).setdefault(t[1], [])
    for x in ls:
        if x == t:
            return x
    for x in ls:
        if len(x[2]) == len(t[2]) and all(cmp_terms(it, p, q) is None for p, q in zip(x[2], t[2])):
            return x
    ls.append(t)
    return t


PURE_STD = ('std::string', 'std::str')


# ------------------------------------------------------------------------------------ loops
def is_loop(it, ref):
    if it.opts.get('noloop'):
        return False
    raw = ref.get('rraw', ref['raw'])
    return raw.startswith('nom::multi::') and ref.get('method') == 'process'


def sub_parsers(body):
    """field indices of *self on which the body calls Parser::process"""
    out = set()
    refs = {}
    for bl in body['blocks']:
        if bl is None:
            continue
        for s in bl[0]:
            if s[0] == '=' and s[2][0] in ('ref', 'reborrow') and len(s[1]) == 1:
                p = s[2][2]
                refs[s[1][0]] = p
    for bl in body['blocks']:
        if bl is None:
            continue
        t = bl[1]
        if t[0] == 'call' and isinstance(t[1], dict) and t[1].get('method') == 'process' \
                and 'Parser' in t[1].get('trait', ''):
            a = t[2][0]
            if a[0] == 'k' or len(a[1]) != 1:
                return None
            p = refs.get(a[1][0])
            for _ in range(4):
                if p is not None and len(p) == 2 and p[1] == '*' and p[0] in refs:
                    p = refs[p[0]]
            if p is None or len(p) != 3 or p[0] != 1 or p[1] != '*' or p[2][0] != 'f':
                return None
            out.add((p[2][1], t[1]['full'], id(t)))
    return out, {id(bl[1]): bl[1] for bl in body['blocks'] if bl}


def loop(it, ref, body, args, term):
    """nom::multi repetition: the term records the combinator, its configuration, and the
    equivalence class of the repeated parser (decided in lockstep on a fresh input)."""
    sp = sub_parsers(body)
    if not sp or not sp[0]:
        return it.run_body(body, args)
    subs, terms = sp
    selfv = it.deref_val(args[0])
    if selfv[0] != 'adt':
        return it.run_body(body, args)
    by_field = {}
    for f, full, tid in subs:
        by_field.setdefault(f, []).append(terms[tid])
    cfg = []
    for k, v in enumerate(selfv[4]):
        if k not in by_field:
            cfg.append((k, it.freeze(v)))
            continue
        cell, path = (args[0][1], args[0][2] + (('f', k),)) if args[0][0] == 'ptr' else (it.new(v), ())
        cl = classify(it, ('ptr', cell, path), by_field[k], it.freeze(v))
        if cl is None:
            it.opts['loop_fallback'] = it.opts.get('loop_fallback', 0) + 1
            return it.run_body(body, args)
        cfg.append((k, ('class', cl)))
    rest = tuple(it.freeze(a) for a in args[1:])
    mode = om(ref)
    if not any(isinstance(x[1], dict) and x[1].get('method') == 'is_streaming'
            for x in (bl[1] for bl in body['blocks'] if bl) if x[0] == 'call'):
        # this combinator does not look at the mode; what its parsers make of it is part of their class
        mode = re.sub(r'nom::(Complete|Streaming)', '_', mode)
    if it.opts.get('stable'):
        from . import stab
        if last(selfv[1]) not in stab.COUNTED or len(rest) != 1 or not stab.is_input(it, rest[0]):
            raise Unsupported('repetition until the input ends: ' + last(selfv[1]))
        return stab.result(it, 'loop:' + last(selfv[1]) + '/' + mode, rest[0],
                           (('tup', tuple(('tup', (C(k, 'usize'), v)) for k, v in cfg)),), None)
    t = ('app', 'loop:' + last(selfv[1]) + '/' + mode, (('tup', tuple(('tup', (C(k, 'usize'), v)) for k, v in cfg)),) + rest)
    t = known_app(it, t)
    it.trace.append(('loop', t))
    ir = iresult(re.sub(r'<O[MT] as nom::OutputMode>::Output<.*', '', term[6])) if term else None
    rem = ('proj', ('proj', t, 'Ok', 0), None, 0)
    if args[1:] and len(rest) == 1:
        it.opts['rem_of'][rem] = rest[0]
    return t


def om(ref):
    return ','.join(g for g in ref['gargs'] if 'OutputM' in g)


class Effectful(Exception):
    pass


def classify(it, ptr, calls, frozen):
    """class index of a repeated parser among those met on this path"""
    it.opts['loop_seen'] = True
    o = it.o
    classes = o.__dict__.setdefault('classes', [])
    snap = list(it.cells)
    call = calls[0]
    mine = (it, snap, ptr, call)
    for k, other in enumerate(classes):
        if (other[4] == frozen and other[3][1]['full'] == call[1]['full']) or same_parser(other[:4], mine):
            sp = o.__dict__.get('subpanics', {})
            if id(other[0]) in sp:
                sp.setdefault(id(it), sp[id(other[0])])
            return k
    # a parser that changes its captured state is not a function of its input
    if not pure_parser(mine):
        return None
    if it.opts.get('stable'):
        from . import stab
        stab.element(mine)
    classes.append(mine + (frozen,))
    return len(classes) - 1


def run_sub(p, o, lam):
    it, snap, ptr, call = p
    sub = Interp(it.p, o, it.opts)
    sub.cells = list(snap)
    n = len(snap)
    sub.stack = list(it.stack)
    try:
        r = sub.apply_ref(call[1], [ptr, lam], call)
        out = ('ret', sub.freeze(r))
    except Panic as e:
        out = ('panic', e.why, e.where, list(sub.stack[-4:]))
    if any(a != b for a, b in zip(snap, sub.cells)):
        raise Effectful()
    return sub, out


def fresh(it):
    it.opts['lam'] = it.opts.get('lam', 0) + 1
    return ('sym', 'lam%d' % it.opts['lam'], '&[u8]')


def sub_known(o):
    return {k: v for k, v in o.known.items()}


def pure_parser(p):
    it = p[0]
    lam = fresh(it)
    from .interp import explore

    def f(o):
        try:
            sub, out = run_sub(p, o, lam)
            if out[0] == 'panic' and it.opts.get('only_panics') and sub.consistent():
                it.o.__dict__.setdefault('subpanics', {}).setdefault(id(it), []).append(out)
        except (Infeasible, Cut):
            pass
    try:
        for _ in explore(f, known=sub_known(it.o), facts=it.o.facts):
            pass
    except (Effectful, Unsupported):
        return False
    return True


def same_parser(a, b):
    from .interp import explore
    from .compare import same_outcome
    lam = fresh(a[0])

    def f(o):
        try:
            s1, r1 = run_sub(a, o, lam)
            s2, r2 = run_sub(b, o, lam)
        except (Infeasible, Cut):
            return True
        return same_outcome(s1, r1, s2, r2, True) is None
    try:
        for _, r in explore(f, known=sub_known(a[0].o), facts=a[0].o.facts):
            if not r:
                return False
    except (Effectful, Unsupported):
        return False
    return True
