"""Directional moves absorb one row/column with the projector pair of each cut, wired consistently."""
from .moves import *


def run(R):
    lats = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)]
    if R.tier == 'thorough':
        lats += [(3, 3), (4, 3), (3, 4), (4, 4), (1, 3), (3, 1)]
    real = False
    for L in lats:
        I, ip = lattice(L, real)
        log = []
        hook_projectors(I, L, real, log)
        cls = sym(I, 'acetn.renormalization.directional_mover', 'DirectionalMover')
        conf = I.getattr(I.getattr(ip, 'config'), 'ctmrg')
        mover = I.call(cls, [conf], {})
        base = named_env(L)
        for k, (name, ax) in NAMES.items():
            for i in range(L[0] if ax == 'x' else L[1]):
                label = f'{name}({i}) on {L[0]}x{L[1]}'
                del log[:]
                put_env(I, ip, L, 2, real)
                ok, _ = R.attempt('move-wiring', label, lambda: I.call_method(mover, name, [ip, i]), I)
                if not ok:
                    continue
                line = line_sites(k, i, L)
                want = oracle_move(k, line, L, base)
                compare_env(R, 'move-wiring', label, get_env(I, ip, L), want, base)
                need = [(k, expected_sites(k, s, L)) for s in line]
                got = [(a, list(b)) for a, b, _ in log]
                R.ob('projector-cuts', label, sorted(map(str, got)) == sorted(map(str, need)) or
                     all(x in got for x in need) and all(x in need for x in got),
                     f'projector pairs computed for {got}, the cuts crossed are {need}')
        R.covers(I)
    R.expect('move-wiring', 100)
    R.expect('projector-cuts', 20)
