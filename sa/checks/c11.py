"""Reduced density matrices are the full contraction of state and environment, in every variant."""
from .moves import *


def ring_site(s, env):
    ops, eqs = [], []
    lets = 'abcefghi'
    for k in range(4):
        ops.append(env['C', k, s])
        eqs.append(lets[2 * k] + lets[2 * k + 1])
        ops.append(env['E', k, s])
        leg = (k + 1) % 4
        eqs.append(lets[2 * k + 1] + lets[(2 * k + 2) % 8] + 'lurd'[leg] + 'LURD'[leg])
    ops += [env['A', s], tnet.conj(env['A', s])]
    eqs += ['lurdp', 'LURDP']
    return tnet.einsum(ops, ','.join(eqs) + '->Pp')


def bond_ring(k, s1, s2, env):
    """(operands, index strings) of the environment of the pair s1, s2 = s1 + STEP[k]; legs of s1 named lurd (ket) LURD (bra)
    in the frame of k, those of s2 wxyz / WXYZ (same order), the shared bond is l/L = y/Y"""
    c = lambda j, s: env['C', j % 4, s]
    e = lambda j, s: env['E', j % 4, s]
    ops = [c(k + 3, s2), e(k + 3, s2), c(k, s2), e(k, s2), e(k, s1), c(k + 1, s1), e(k + 1, s1), c(k + 2, s1), e(k + 2, s1), e(k + 2, s2)]
    eqs = ['ab', 'bcwW', 'ce', 'efxX', 'fguU', 'gh', 'hirR', 'ij', 'jkdD', 'kazZ']
    return ops, eqs


def frame(v, k):
    return tnet.permute(v, [(i + k) % 4 for i in range(4)] + [4])


def oracle_bond(k, s1, s2, env):
    ops, eqs = bond_ring(k, s1, s2, env)
    a1, a2 = frame(env['A', s1], k), frame(env['A', s2], k)
    ops += [a1, tnet.conj(a1), a2, tnet.conj(a2)]
    eqs += ['lurdp', 'LURDP', 'wxlzq', 'WXLZQ']
    return tnet.einsum(ops, ','.join(eqs) + '->PQpq')


def make_bond(I, s1, s2, k):
    return I.call(sym(I, 'acetn.ipeps.bond', 'Bond'), [s1, s2, k], {})


def any_size():
    """whether the loops over blocks can be followed for an unknown physical dimension"""
    def go():
        I, ip = lattice((1, 2), False, dim('p'))
        rdm = I.call(sym(I, 'acetn.measurement.rdm', 'RDM'), [ip], {})
        I.resolve(I.getitem(rdm, make_bond(I, (0, 0), (0, 1), 1))).v
    try:
        go()
    except Incomplete:
        return False
    except (DimError, PyRaise):
        pass
    return True


def run(R):
    real = False
    last = [((3, 3), dim('p'))] if any_size() else [((3, 3), 4), ((1, 1), 5)]
    for L, p in [((3, 3), 2), ((2, 2), 3), ((1, 1), 2), ((1, 2), 2)] + last:
        I, ip = lattice(L, real, p)
        env = named_env(L, p)
        rdm = I.call(sym(I, 'acetn.measurement.rdm', 'RDM'), [ip], {})
        for s in (sites_of(L) if R.tier == 'thorough' else sites_of(L)[:2] + sites_of(L)[-1:]):
            label = f'site {s} of {L[0]}x{L[1]}, p={p}'
            ok, v = R.attempt('site-rdm', label, lambda: I.getitem(rdm, s), I)
            if ok:
                R.ob('site-rdm', label, *tnet.equal_all(I.resolve(v).v, ring_site(s, env)))
            for k in range(4):
                s2 = shift(s, k, L)
                label = f'bond {s}-{s2} direction {k} of {L[0]}x{L[1]}, p={p}'
                b = make_bond(I, s, s2, k)
                ok, v = R.attempt('bond-rdm', label, lambda: I.getitem(rdm, b), I)
                if ok:
                    R.ob('bond-rdm', label, *tnet.equal_all(I.resolve(v).v, oracle_bond(k, s, s2, env)))
        R.covers(I)
    siblings(R)
    R.expect('site-rdm', 6)
    R.expect('bond-rdm', 24)


def siblings(R):
    """blocked and plain variants of the pair contraction"""
    for p in (2, 3, dim('p')):
        I = fresh(False)
        I.load('acetn.ipeps')
        m = I.load('acetn.measurement.rdm')
        fs = [f for n, f in m.box.content.items() if isinstance(f, PFunc) and n.startswith('build_bond_rdm_core')]
        L = (3, 3)
        s1, s2, k = (1, 1), (1, 2), 1
        env = named_env(L, p)
        c = lambda j, s: env['C', j % 4, s]
        e = lambda j, s: env['E', j % 4, s]
        args = [c(k + 1, s1), e(k + 1, s1), e(k, s1), c(k + 2, s1), e(k + 2, s1), frame(env['A', s1], k),
                c(k, s2), e(k, s2), e(k + 3, s2), c(k + 3, s2), e(k + 2, s2), frame(env['A', s2], k)]
        want = oracle_bond(k, s1, s2, env)
        for f in fs:
            names = [a.arg for a in f.node.args.args]
            label = f'{f.name}, p={p}'
            if names != ['c12', 'e12', 'e11', 'c13', 'e13', 'a1', 'c21', 'e21', 'e24', 'c24', 'e23', 'a2']:
                continue
            ok, v = R.attempt('variants', label, lambda: I.call(f, [tobj(I, x, False) for x in args], {}), I)
            if ok:
                R.ob('variants', label, *tnet.equal_all(I.resolve(v).v, want))
        R.covers(I)
