"""Recognition of the crystal system from the pattern of the stiffness matrix."""
import itertools
from pyvc.vc import *
from .elastic import *

SY = 'quantas.soec.utils.symmetry.'
TOL = t.div(t.const(1), 1000)

# published patterns (Nye; Mouhat & Coudert 2014), standard orientations: groups of equal entries with
# relative sign; everything not listed is zero; c66 marks C66 = (C11 - C12)/2
DIAG = [[(0, 0, 1), (1, 1, 1)], [(2, 2, 1)], [(3, 3, 1), (4, 4, 1)], [(5, 5, 1)], [(0, 1, 1)], [(0, 2, 1), (1, 2, 1)]]
FREE = [[(i, i, 1)] for i in range(6)] + [[(0, 1, 1)], [(0, 2, 1)], [(1, 2, 1)]]
C14G, C15G, C16G = [(0, 3, 1), (1, 3, -1), (4, 5, 1)], [(0, 4, 1), (1, 4, -1), (3, 5, -1)], [(0, 5, 1), (1, 5, -1)]
PATTERN = {
    'cubic': ([[(0, 0, 1), (1, 1, 1), (2, 2, 1)], [(3, 3, 1), (4, 4, 1), (5, 5, 1)], [(0, 1, 1), (0, 2, 1), (1, 2, 1)]], False),
    'hexagonal': (DIAG, True),
    'trigonal_high': (DIAG + [C14G], True),
    'trigonal_low': (DIAG + [C14G, C15G], True),
    'tetragonal_high': (DIAG, False),
    'tetragonal_low': (DIAG + [C16G], False),
    'orthorhombic': (FREE, False),
    'monoclinic': (FREE + [[(0, 4, 1)], [(1, 4, 1)], [(2, 4, 1)], [(3, 5, 1)]], False),
    'triclinic': ([[(i, j, 1)] for i in range(6) for j in range(i, 6)], False),
}
# classes whose pattern is strictly contained in the pattern of the class
MORE = {'cubic': [], 'hexagonal': [], 'trigonal_high': ['hexagonal'], 'trigonal_low': ['hexagonal', 'trigonal_high'],
        'tetragonal_high': ['cubic', 'hexagonal'], 'tetragonal_low': ['cubic', 'hexagonal', 'tetragonal_high'],
        'orthorhombic': ['cubic', 'hexagonal', 'tetragonal_high'], 'monoclinic': ['cubic', 'hexagonal', 'tetragonal_high', 'orthorhombic'],
        'triclinic': [k for k in PATTERN if k != 'triclinic']}


def relations(m, name):
    """expressions that vanish exactly on the pattern: (what, expression)"""
    groups, c66 = PATTERN[name]
    out, seen = [], set()
    for g in groups:
        for i, j, s in g: seen.add((i, j))
        for (i, j, s), (k, l, r) in itertools.combinations(g, 2):
            out.append(('C%d%d = %sC%d%d' % (i + 1, j + 1, '' if s == r else '-', k + 1, l + 1), m.get(i, j) * s - m.get(k, l) * r))
    for i in range(6):
        for j in range(i, 6):
            if (i, j) not in seen: out.append(('C%d%d = 0' % (i + 1, j + 1), m.get(i, j)))
    if c66: out.append(('C66 = (C11-C12)/2', m.get(5, 5) - (m.get(0, 0) - m.get(0, 1)) / 2))
    return out


def matches(x): return x is True or getattr(x, 'op', None) == 'true' or x is t.TRUE


def check_unit(name):
    @unit('run_check(%s): the pattern accepts exactly the matrices of the class' % name, timeout=300)
    def u(v):
        def run():
            m = voigt('m')
            r = v.call(SY + 'run_check', m, name)
            rel = relations(m, name)
            if r is True:
                for what, e in rel: v.true('accepted: |%s| within 2e-3 GPa' % what, t.le(t.absv(e), TOL * 2))
            else:
                v.fact('result is True or False', r is False, str(r))
                v.true('rejected: not an exact %s matrix' % name, t.not_(t.and_(*[t.eq(e, 0) for _, e in rel])))
        v.paths(name, run)


for _n in PATTERN: check_unit(_n)


@unit('check_symmetry: a satisfied pattern with no more symmetric satisfied pattern')
def u_sel(v):
    v.I.overrides[SY + 'run_check'] = lambda I, a, k: bool(I.truth(t.gt(t.sym('match_' + (a[1] if len(a) > 1 else k['symmetry'])), 0)))

    def run():
        P_ = {k: t.gt(t.sym('match_' + k), 0) for k in PATTERN}
        v.assume(P_['triclinic'])
        for k, more in MORE.items():
            for q in more: v.assume(t.or_(t.not_(P_[q]), P_[k]))
        r = v.call(SY + 'check_symmetry', voigt('m'))
        if not v.fact('a known class is returned', r in PATTERN, str(r)): return
        v.true('%s: its pattern is satisfied' % r, P_[r])
        for q in MORE[r]: v.true('%s: %s is not satisfied' % (r, q), t.not_(P_[q]))
    v.paths('select', run)


@unit('lemma: the pattern of every more symmetric class is contained in the pattern of the class')
def u_lemma(v):
    m = voigt('m')
    for k, more in MORE.items():
        for q in more:
            for what, e in relations(m, k):
                v.I.pc = [t.eq(x, 0) for _, x in relations(m, q)]
                v.I.oblige('%s matrices satisfy %s: %s' % (q, k, what), t.eq(e, 0))
    v.I.pc = []
    v.fact('lemma: precondition satisfiable', True)
