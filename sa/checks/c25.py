"""Operator algebra on Pauli matrices, against exact matrix algebra with symbolic coefficients."""
from ..world import *
from .. import tnet

P = {'X': ((0, 1), (1, 0)), 'Y': ((0, -1j), (1j, 0)), 'Z': ((1, 0), (0, -1)), 'I': ((1, 0), (0, 1))}


def kron(a, b):
    return [[poly.mul(x, y) for x in ra for y in rb] for ra in a for rb in b]


def lin(a, b, s):
    return [[poly.add(x, poly.mul(s, y)) for x, y in zip(ra, rb)] for ra, rb in zip(a, b)]


def scal(a, s):
    return [[poly.mul(s, x) for x in r] for r in a]


def ev(t, sym):
    """expression tree -> (source text, matrix, parity of Y)"""
    k = t[0]
    if k in P:
        return k, [list(r) for r in P[k]], k == 'Y'
    if k == '*':
        (s1, m1, y1), (s2, m2, y2) = ev(t[1], sym), ev(t[2], sym)
        return f'({s1} * {s2})', kron(m1, m2), y1 ^ y2
    if k in '+-':
        (s1, m1, y1), (s2, m2, y2) = ev(t[1], sym), ev(t[2], sym)
        assert y1 == y2
        return f'({s1} {k} {s2})', lin(m1, m2, 1 if k == '+' else -1), y1
    s, m, y = ev(t[1], sym)
    if k == 'neg':
        return f'(-{s})', scal(m, -1), y
    if k == 'l':
        return f'({t[2]} * {s})', scal(m, sym[t[2]]), y
    if k == 'r':
        return f'({s} * {t[2]})', scal(m, sym[t[2]]), y
    if k == '/':
        return f'({s} / {t[2]})', scal(m, poly.power(Poly.of(sym[t[2]]), -1)), y
    raise ValueError(k)


def expressions(tier):
    L = [(c,) for c in 'XYZI']
    pairs = [('*', a, b) for a in L for b in L]
    out = list(L) + pairs
    out += [('neg', x) for x in L + pairs] + [('l', x, 'a') for x in L + pairs] + [('r', x, 'b') for x in L + pairs] + [('/', x, 'a') for x in L + pairs]
    three = [('*', ('*', a, b), c) for a in L for b in L for c in L] + [('*', a, ('*', b, c)) for a in L for b in L for c in L]
    out += three if tier != 'quick' else [t for t in three if 'Y' in repr(t)][::2] + three[::9]
    four = [('*', ('*', a, b), ('*', c, d)) for a in L[:3] for b in L[:3] for c in L[:3] for d in L[:3]]
    out += four if tier != 'quick' else [t for t in four if repr(t).count('Y') >= 2][::2]
    even1, odd1 = [('X',), ('Z',), ('I',)], [('Y',)]
    even2 = [p for p in pairs if repr(p).count('Y') % 2 == 0]
    odd2 = [p for p in pairs if repr(p).count('Y') % 2]
    for grp in (even1, odd1, even2, odd2):
        for i, a in enumerate(grp):
            for b in (grp[i], grp[(i + 1) % len(grp)], grp[(i + 3) % len(grp)]):
                out += [('+', a, b), ('-', a, b), ('l', ('+', ('l', a, 'a'), b), 'c'), ('-', ('neg', a), ('/', b, 'b'))]
    A, B, C = ('l', ('X',), 'a'), ('r', ('Z',), 'b'), ('l', ('Y',), 'c')
    out += [('+', ('+', ('*', ('X',), ('X',)), ('*', ('Y',), ('Y',))), ('*', ('Z',), ('Z',))),
            ('l', ('l', ('+', ('+', ('*', ('X',), ('X',)), ('*', ('Y',), ('Y',))), ('*', ('Z',), ('Z',))), 'a'), 'b'),
            ('*', ('l', ('neg', ('X',)), 'a'), ('X',)), ('*', A, B), ('*', ('+', A, B), ('-', A, B)), ('*', C, C), ('*', ('neg', C), C),
            ('*', ('+', C, ('Y',)), ('-', ('Y',), C)), ('*', ('*', ('Y',), ('Z',)), ('*', ('Y',), ('X',))), ('*', ('+', ('*', ('X',), ('Y',)), ('*', ('Y',), ('X',))), ('Y',)),
            ('neg', ('neg', ('*', ('Y',), ('Y',)))), ('/', ('/', ('X',), 'a'), 'b'), ('-', ('*', ('Z',), ('I',)), ('*', ('I',), ('Z',)))]
    return out


def run(R):
    syms = {'a': dim('a'), 'b': dim('b'), 'c': dim('c')}
    for dt in ('float64', 'complex128', 'float32'):
        real = not dt.startswith('complex')
        I = fresh(real)
        I.load('acetn.ipeps')
        ex = [ev(t, syms) for t in expressions('quick' if dt == 'float32' else R.tier)]
        seen = {}
        for s, m, y in ex:
            seen[s] = (m, y)
        pre = 'from acetn.model.pauli_matrix import pauli_matrices, PauliMatrix\n'
        given = dict(torch=I.load('torch'), dt=torchlib.DTYPES[dt], **syms)
        ok, g = R.attempt('matrices', dt, lambda: script(I, pre + 'X, Y, Z, I = pauli_matrices(dt, torch.device("cpu"))\n', **given), I)
        if not ok:
            continue
        base = {k: g[k] for k in 'XYZI'}

        def mat(x):
            return I.resolve(I.getattr(x, 'mat')) if isinstance(x, Inst) else x

        def compare(rule, label, got, m, y):
            t = mat(got)
            if not isinstance(t, TObj) or tuple(t.shape) != (len(m), len(m)):
                return R.fail(rule, label, f'shape {getattr(t, "shape", t)} instead of {(len(m),) * 2}')
            if not isinstance(t.v, tnet.Dense):
                raise Incomplete('operator matrix is not concrete')
            want = [x for r in m for x in r]
            if real and y:          # an odd number of Y: the matrix divided by i
                want = [poly.mul(-1j, x) for x in want]
            bad = [(i // len(m), i % len(m), p, q) for i, (p, q) in enumerate(zip(t.v.data, want)) if poly.simp(Poly.of(poly.sub(p, q))) != 0]
            R.ob(rule, label, not bad, f'element, found, required: {bad[:3]}')
            R.ob('operator-dtype', label, str(t.dtype).endswith(dt), f'dtype {t.dtype}')
            return True

        for s, (m, y) in seen.items():
            ok, g = R.attempt('algebra', f'{s}, {dt}', lambda: script(I, f'r = {s}', **base, **given), I)
            if ok:
                compare('algebra', f'{s}, {dt}', g['r'], m, y)
        for k in 'XYZI':
            compare('operands', f'{k} after all expressions, {dt}', base[k], [list(r) for r in P[k]], k == 'Y')
        # in-place forms; operands and other names of the left operand stay
        for s1 in 'XYZ':
            for s2 in ('X', 'Y', 'Z'):
                ok, g = R.attempt('inplace', f'{s1} *= {s2}, {dt}', lambda: script(I, f'r = {s1}\nr *= {s2}', **base, **given), I)
                if ok:
                    compare('inplace', f'{s1} *= {s2}, {dt}', g['r'], kron(P[s1], P[s2]), (s1 == 'Y') ^ (s2 == 'Y'))
            for what, code, s in (('*= a', 'r *= a', syms['a']), ('/= a', 'r /= a', poly.power(syms['a'], -1))):
                ok, g = R.attempt('inplace', f'{s1} {what}, {dt}', lambda: script(I, f'r = {s1}\n{code}', **base, **given), I)
                if ok:
                    compare('inplace', f'{s1} {what}, {dt}', g['r'], scal(P[s1], s), s1 == 'Y')
            for what, code, m in ((f'+= {s1}', f'r += {s1}', scal(P[s1], 2)), (f'-= {s1}', f'r -= {s1}', scal(P[s1], 0))):
                ok, g = R.attempt('inplace', f'{s1} {what}, {dt}', lambda: script(I, f'r = {s1}\n{code}', **base, **given), I)
                if ok:
                    compare('inplace', f'{s1} {what}, {dt}', g['r'], m, s1 == 'Y')
        for k in 'XYZI':
            compare('operands', f'{k} after in-place expressions, {dt}', base[k], [list(r) for r in P[k]], k == 'Y')
        # stored matrices given by the user
        ok, g = R.attempt('own', dt, lambda: script(I, 'm = torch.tensor([[0., 1.], [2., 3.]], dtype=dt)\nQ = PauliMatrix("Q", dt, torch.device("cpu"), mat=m)\n'
                                                    'r1, r2, r3 = Q * X, 2 * Q, Q + X\nr4 = Q\nr4 *= 3\nn = Q.mat', **base, **given, **{'PauliMatrix': I.getattr(I.load('acetn.model.pauli_matrix'), 'PauliMatrix')}), I)
        q = [[0, 1], [2, 3]]
        if ok:
            for n, m in (('r1', kron(q, P['X'])), ('r2', scal(q, 2)), ('r3', lin(q, P['X'], 1)), ('r4', scal(q, 3)), ('n', q), ('m', q)):
                compare('own', f'{n} of a given matrix, {dt}', g[n], m, False)
        for code in ('X + 1', '1 + X', 'X - 1', '1 - X', 'X + None', 'X + "a"', 'X + X * X', 'X * X - X', '1 / X', 'X + [1, 2]'):
            e = raises(I, 'r = ' + code, **base)
            R.ob('undefined', f'{code}, {dt}', e is not None, 'gives a value instead of an error')
        R.covers(I)
    R.expect('algebra', 400)
    R.expect('operands', 8)
    R.expect('undefined', 20)
