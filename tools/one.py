"""show the verdict on one edit: one.py [-r] module function description-substring [n]"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate as M
from mutants import mutants
from refactors import refactors
import difflib
refac = '-r' in sys.argv
av = [a for a in sys.argv[1:] if a != '-r']
mod, fun, desc = av[:3]
for name, m in M.base.modules.items():
    if m.short == mod:
        import ast
        base = ast.unparse(ast.parse(m.src)).splitlines()
        for d, line, q, src in (refactors if refac else mutants)(m.src):
            if q == fun and desc in d:
                print('-----', d, line)
                print('\n'.join(x for x in difflib.unified_diff(base, src.splitlines(), n=1, lineterm='')))
                r = M.work((m.path, mod, d, line, q, src))
                print(r[4], r[5])
                if r[4] in ('DIFF', 'UNKNOWN') or len(av) > 3:
                    cur = M.Program(overrides={m.path: src})
                    S = M.prove.Session(M.ref, cur)
                    for o in M.D.get(q, M.D.get(mod + '.' + q, [])):
                        for f in S.check(o):
                            if f.status != 'EQUAL':
                                print('  ', f.status, f.obl.func, f.facet, f.cfg, f.detail[:int(av[3]) if len(av) > 3 else 1500])
