"""helpers running the elastic calculator on generated input files"""
import os
import numpy as np

SETTINGS = {'polar': False, 'silent': True, 'debug': False, 'logfile': None, 'pressure_unit': 'GPa', 'plotting': False, 'outfig': '', 'dpi': 80}


def write(h, name, C, density=3000., job='Generic job'):
    p = os.path.join(h.scratch, name)
    with open(p, 'w') as f:
        f.write(job + '\n')
        for r in C: f.write(' '.join('%.12f' % x for x in r) + '\n')
        if density is not None: f.write('%.6f\n' % density)
    return p


def calculator(h, C, density=3000., **kw):
    K = h.need('quantas.soec.soec', 'SOECCalculator')
    c = K(dict(SETTINGS, **kw))
    err = c.read_input(write(h, 'm.dat', C, density))
    return c, err
