"""start one function on given abstract arguments"""
from mai import *
from core import *

def by_ref(st, v):
    b = st.alloc(v, 'A')
    return ('ref', b, (), None)

def root_of(p, name, adt=None, trait=None, module=None, pred=None):
    rs = p.find(name, adt, trait, module, pred)
    if len(rs) != 1:
        raise Anchor('anchor: fn %s%s%s%s (%d found)' % (name, ' of ' + adt if adt else '', ' as ' + trait if trait else '', ' in ' + module if module else '', len(rs)))
    return rs[0]

def try_root(p, rep, *a, **k):
    """a private function whose behaviour is also covered where it is used: without it, say so and go on"""
    try: return root_of(p, *a, **k)
    except Anchor as e:
        rep.notes.append('not examined on its own: %s' % e); rep.undecided(a[0], str(e))
        return None

def methods(p, adt, trait, pred=None):
    """every method the crate defines for `adt` in `trait`"""
    return [r for r in p.roots if r['impl_trait'] == trait and r['self_ty'] is not None and p.T[r['self_ty']].get('def') == adt and (pred is None or pred(r))]

def label(r): return r.get('path') or r['def']

def begin(en, st, root, args):
    body = en.p.body_of(root)
    st.mem[('R', 0)] = UNINIT
    en.push(st, body, args, (('R', 0), ()), None, '')
    # the outermost frame returns to nobody
    return st

def run(rep, en, root, cases, rule, check, allow_panic=None, name=None):
    """cases: list of (state, args)"""
    states = []
    for st, args in cases:
        try: states.append(begin(en, st, root, args))
        except Undecided as u: rep.undecided(label(root), str(u))
    return explore(rep, en, states, name or label(root), rule, check, allow_panic)

def anyty(p, kind='param'):
    for i, t in enumerate(p.T):
        if t['k'] == kind: return i
    raise Anchor('no %s type' % kind)

# ---- independent explorations side by side
_JOBS = []
def _work(i):
    rep = Report('')
    try:
        _JOBS[i](rep)
    except Exception as e:
        import traceback
        return ('error', '%s\n%s' % (e, traceback.format_exc()), type(e).__name__)
    return ('ok', dict(obl=rep.obl, viol=rep.viol, undec=rep.undec, notes=rep.notes, paths=rep.paths, bodies=rep.bodies, models=rep.models, states=rep.states))

def parallel(rep, jobs, procs=None):
    """run jobs(rep) in forked processes and merge what they report"""
    import multiprocessing as mp, os
    global _JOBS
    _JOBS = list(jobs)
    n = procs or min(8, os.cpu_count() or 1, max(1, len(_JOBS)))
    if n == 1: res = [_work(i) for i in range(len(_JOBS))]
    else:
        with mp.get_context('fork').Pool(n) as pool: res = pool.map(_work, range(len(_JOBS)), chunksize=1)
    for r in res:
        if r[0] == 'error':
            if r[2] in ('Anchor', 'KeyError'): raise Anchor(r[1])
            rep.undecided('(one group of cases)', r[1].strip().split('\n')[-1])
            continue
        d = r[1]
        rep.obl += d['obl']; rep.viol += d['viol']; rep.undec += d['undec']; rep.notes += d['notes']
        rep.paths += d['paths']; rep.bodies |= d['bodies']; rep.models |= d['models']; rep.states += d['states']
