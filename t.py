import sys, time, importlib, re
sys.path.insert(0, '/verif')
import io
import vc.contract as C
mods = sys.argv[1].split(',')
if mods==['all']:
    import pkgutil,contracts
    mods=[x.name for x in pkgutil.iter_modules(contracts.__path__)]
for m in mods: importlib.import_module('contracts.' + m)
pat = sys.argv[2] if len(sys.argv) > 2 else ''
import random, os
V=os.environ.get('V'); N=[0,0,0]; T0=time.time()
for cid, c in C.REGISTRY.items():
    if pat and not re.search(pat, cid): continue
    for case in (c.cases() if not c.bounded else []):
        t=time.time()
        obls, err, e, vals = c.verify_case(case, deadline=time.time()+c.budget)
        N[0]+=len(obls); N[1]+=1
        bad=[o for o in obls if o.status!='proved']
        if bad or err or V: print('%-40s paths %d obl %d bad %d %.1fs %s checks=%d restarts=%d' % (c.id+':'+repr(case), e.stats['paths'], len(obls), len(bad), time.time()-t, (err or "")[:int(os.environ.get("EL","700"))], e.stats['checks'], e.stats['restarts']))
        for o in bad[:3]: print('     ', o.name, o.status, o.backend, o.detail[:400], o.path if 0 else '')
    if c.bounded:
        print(c.id, c.run('quick', 1, 60)); continue
    rng = random.Random(1)
    n=skip=0; badc=0
    t=time.time()
    for i in range(200):
        for via in c.vias():
            vals, env = c.gen(rng)
            r = c.concrete(via, vals, env)
            if r is None: skip+=1; continue
            n+=1
            if not r[0]:
                badc+=1
                if badc<3: print('    CONCRETE', via, vals, r)
    if badc or V: print(c.id, '       concrete', n, 'skipped', skip, 'bad', badc, '%.2fs'%(time.time()-t))
print('TOTAL obligations', N[0], 'cases', N[1], '%.1fs' % (time.time()-T0))
