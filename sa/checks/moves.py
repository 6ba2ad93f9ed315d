"""Shared machinery for the directional moves: interception of the projector calculation and the oracle of a move."""
from ..world import *
from .. import tnet
from ..objects import *

NAMES = {0: ('left_move', 'x'), 1: ('up_move', 'y'), 2: ('right_move', 'x'), 3: ('down_move', 'y')}


def zdim(k, s):
    return dim(f'z{k}_{s[0]}{s[1]}')


def cut_dims(k, s, L):
    """the cut between site s (clockwise side) and its neighbour s+STEP[k-1]: (edge leg, ket bond, bra bond)"""
    return (link_in(k + 3, s, L), dim('D'), dim('D'))


def P_atom(n, k, s, L):
    return tnet.atom_tv((f'P{n}', k, s), cut_dims(k, s, L) + (zdim(k, s),))


def expected_sites(k, s, L):
    s4 = shift(s, (k + 3) % 4, L)
    s2 = shift(s, (k + 2) % 4, L)
    return [s, s2, shift(s2, (k + 3) % 4, L), s4]


def projector_functions(I):
    """the functions that compute one projector pair"""
    out = []
    m = I.load('acetn.renormalization.projectors')
    for c in m.box.content.values():
        if isinstance(c, PClass):
            for n in ('calculate_half_system', 'calculate_full_system'):
                f = c.lookup(n)
                if isinstance(f, PFunc) and f not in out:
                    out.append(f)
    return out


def hook_projectors(I, L, real, log):
    """replace each projector pair by a pair of named unknowns, recording sites and direction it was asked for"""
    fs = projector_functions(I)
    if not fs:
        raise Incomplete('the functions computing a projector pair were not found')

    def handler(I, f, args, kw, proceed):
        vals = list(args) + list(kw.values())
        sites = k = None
        for v in vals:
            v = I.resolve(v)
            if isinstance(v, (PList, tuple)):
                its = [I.resolve(x) for x in (v.items if isinstance(v, PList) else v)]
                if len(its) == 4 and all(isinstance(x, tuple) and len(x) == 2 for x in its):
                    sites = its
            elif isinstance(v, int) and not isinstance(v, bool):
                k = v
        if sites is None or k is None:
            raise Incomplete('sites/direction of a projector calculation not recognised')
        k %= 4
        log.append((k, sites, I.where[-1] if I.where else None))
        s = sites[0]
        return (tobj(I, P_atom(1, k, s, L), real), tobj(I, P_atom(2, k, s, L), real))
    for f in fs:
        I.hooks[f] = handler
    return fs


def line_sites(k, i, L):
    return [(i, y) for y in range(L[1])] if k in (0, 2) else [(x, i) for x in range(L[0])]


def oracle_move(k, sites, L, env, P=P_atom):
    """environment after every site of `sites` was absorbed in direction k: {key: value}; values up to positive scale"""
    out = {}
    for s in sites:
        t = shift(s, (k + 2) % 4, L)          # receiving site
        nb = shift(s, (k + 1) % 4, L)         # clockwise neighbour on the line
        C3, E2 = env['C', (k + 3) % 4, s], env['E', (k + 2) % 4, s]
        C0, E0 = env['C', k, s], env['E', k, s]
        E3 = env['E', (k + 3) % 4, s]
        A = tnet.permute(env['A', s], [(i + k) % 4 for i in range(4)] + [4])
        out['C', (k + 3) % 4, t] = tnet.einsum([E2, C3, P(1, k, s, L)], 'ablL,bc,clLz->az')
        out['C', k, t] = tnet.einsum([C0, E0, P(2, k, nb, L)], 'ab,bcrR,arRz->zc')
        # A legs in the frame of k: l (towards the absorbed side), u (clockwise), r, d
        out['E', (k + 3) % 4, t] = tnet.einsum([E3, A, tnet.conj(A), P(2, k, s, L), P(1, k, nb, L)],
                                               'ablL,lurdp,LURDp,adDy,buUx->yxrR')
    return out


def named_env(L, p=2):
    env = {}
    for s in sites_of(L):
        env['A', s] = A_atom(s, p)
        for k in range(4):
            env['C', k, s] = C_atom(k, s, L)
            env['E', k, s] = E_atom(k, s, L)
    return env


def key_name(key):
    return f'{key[0]}[{key[1]}] of site {key[2]}' if len(key) == 3 else f'A of site {key[1]}'


def compare_env(R, rule, label, got, want, base, up_to_scale=True):
    """got must be `want` on its keys and unchanged elsewhere"""
    for key, t in got.items():
        w = want.get(key)
        scale = up_to_scale
        if w is None:
            w, scale = base[key], False
        ok, msg = tnet.equal_all(t.v, w, scale)
        R.ob(rule, f'{label}: {key_name(key)}', ok, msg)
