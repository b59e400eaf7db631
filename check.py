#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property of /repo's current source"""
import sys, os, json, time, hashlib, subprocess, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'analysis'))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, '.build'))
EVID = os.environ.get('VERIF_EVID', os.path.join(HERE, 'evidence'))

def die(msg):
    print(msg)
    sys.exit(2)

def source_hash():
    h = hashlib.sha256()
    fs = []
    for d, _, names in os.walk(os.path.join(REPO, 'src')):
        for n in names: fs.append(os.path.join(d, n))
    for n in ('Cargo.toml', 'Cargo.lock', 'README.md'):
        fs.append(os.path.join(REPO, n))
    fs += [os.path.join(HERE, 'driver/src/main.rs'), os.path.join(HERE, 'analysis/allow.txt'), os.path.join(HERE, 'analysis/deny.txt'), os.path.join(HERE, 'analysis/dump.sh')]
    for f in sorted(fs):
        if os.path.isfile(f):
            h.update(f.encode() + b'\0'); h.update(open(f, 'rb').read()); h.update(b'\0')
    return h.hexdigest()[:20]

def get_dump():
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'dump-%s.json' % source_hash())
    if not os.path.exists(out):
        for n in os.listdir(BUILD):
            if n.startswith('dump-') and n.endswith('.json') and time.time() - os.path.getmtime(os.path.join(BUILD, n)) > 3600:
                os.unlink(os.path.join(BUILD, n))
        tmp = out + '.tmp%d' % os.getpid()
        r = subprocess.run(['bash', os.path.join(HERE, 'analysis/dump.sh'), REPO, tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-3000:])
            die('check: /repo does not build under the analysis driver (%d)' % r.returncode)
        os.rename(tmp, out)
    return out

def scaled(pid, rep, tier, took):
    """decide the rules again with every size limit in the source made small (scale.py)"""
    import registry, scale
    from core import Report
    from mai import Prog
    t0 = time.time()
    for base in (1, 2):
        p = Prog(get_dump())
        if not scale.limits(p, rep.bodies): return
        if took + (time.time() - t0) + took > 780:
            rep.undecided(pid, 'size limits in the source: no time to decide the rules beyond them')
            return
        what = scale.apply(p, set(rep.bodies), base)
        r = Report(pid)
        registry.PROPS[pid](p, r, tier)
        rep.notes.append('decided again with size limits made small: %s' % '; '.join(what))
        have = {(v['construct'], v['rule'], v['detail']) for v in rep.viol}
        before = len(rep.viol)
        for v in r.viol:
            if (v['construct'], v['rule'], v['detail']) not in have:
                rep.viol.append(dict(v, path=[['beyond a size limit'] + what] + v['path']))
        rep.paths += r.paths; rep.states += r.states; rep.models |= r.models; rep.obl += r.obl
        if not any(u['construct'] == 'size limits' for u in rep.undec):
            for u in r.undec:
                if u not in rep.undec: rep.undec.append(u)
        if len(rep.viol) > before: return

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    t0 = time.time()
    from core import Report, Anchor
    import registry, allprops
    from mai import Prog
    if pid not in registry.PROPS: die('unknown property %s' % pid)
    rep = Report(pid)
    prog = None
    if not registry.META[pid].get('nodump'): prog = Prog(get_dump())
    try:
        registry.PROPS[pid](prog, rep, tier)
        if prog: scaled(pid, rep, tier, time.time() - t0)
    except (Anchor, KeyError) as a:
        # the construct a rule speaks about is not found: nothing is claimed about it
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
        rep.undecided(pid, 'the construct to analyse is not found: %s' % a)
    except Exception as e:
        traceback.print_exc()
        print('check %s: no answer: %r' % (pid, e))
        return 2
    known = {}
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        for k in json.load(open(kf)):
            if k.get('status') == 'known' and k['property'] == pid: known[k['key']] = k
    groups = {}
    for v in rep.viol:
        key = '%s | %s | %s' % (v['construct'], v['rule'], v['detail'])
        groups.setdefault(key, v)
    new = {k: v for k, v in groups.items() if k not in known}
    old = {k: v for k, v in groups.items() if k in known}
    os.makedirs(EVID, exist_ok=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
        'coverage': {
            'explanation': registry.META[pid].get('explanation', '') or (registry.PROPS[pid].__doc__ or '').strip(),
            'obligations': len(rep.obl),
            'discharged': sum(1 for o in rep.obl if not any(v['construct'] == o['construct'] and v['rule'] == o['rule'] for v in rep.viol) and not any(u['construct'] == o['construct'] for u in rep.undec)),
            'abstract_paths': rep.paths, 'abstract_states': rep.states,
            'constructs': rep.obl[:400],
            'functions_analysed': sorted(rep.bodies)[:400], 'functions_analysed_count': len(rep.bodies),
            'library_models_used': sorted(rep.models),
            'undecided': rep.undec[:60], 'undecided_count': len(rep.undec),
            'known_findings': sorted(old), 'notes': rep.notes + (prog.alias_notes if prog else []),
        },
        'assumptions': registry.META[pid].get('assumptions', []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(new),
    }
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d abstract paths, %d functions, %d undecided, %.1fs' % (pid, len(rep.obl), rep.paths, len(rep.bodies), len(rep.undec), time.time() - t0))
    for u in rep.undec[:20]: print('UNDECIDED %s: %s' % (u['construct'], u['why']))
    for k in sorted(old): print('KNOWN-FINDING: property=%s %s' % (pid, known[k].get('what', k)))
    floor = registry.META[pid].get('floor', 1)
    if (len(rep.obl) < floor or not rep.paths) and not rep.undec:
        print('check %s: only %d obligations on %d paths, at least %d expected' % (pid, len(rep.obl), rep.paths, floor))
        return 2
    if new:
        rp = os.path.join(EVID, pid + '.replay.json')
        json.dump([dict(v, key=k) for k, v in new.items()], open(rp, 'w'), indent=1)
        for k, v in list(new.items())[:20]:
            print('  %s\n    rule: %s\n    %s' % (v['construct'], v['rule'], v['detail']))
            for w in v['path'][-14:]: print('      %s' % (' : '.join(w) if isinstance(w, list) else w))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0

if __name__ == '__main__':
    sys.exit(main())
