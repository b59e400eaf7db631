"""Type-level guarantees: compile-fail witnesses with compiling twins, and effect rules on the fields whose
address is relied upon.  A witness is a client program that breaks the guarantee; it must not type-check against
the current tree, while its twin, which lacks only the offending lines, must.  The witnesses are only compiled."""
import json, os, subprocess, tempfile, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor
from registry import prop
from core import *
from mai import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, '.build'))
TC = os.environ.get('VERIF_NIGHTLY', 'nightly')

def library(out):
    """compile the crate's metadata (type check only) into `out`; returns (rmeta, geo rmeta, search dirs)"""
    tgt = os.path.join(BUILD, 'wit')
    os.makedirs(tgt, exist_ok=True)
    with open(os.path.join(BUILD, 'wit.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        fp = os.path.join(tgt, 'debug', '.fingerprint')
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith('geo-crossings-'): shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
        env = dict(os.environ, CARGO_TARGET_DIR=tgt, RUSTUP_TOOLCHAIN=TC, CARGO_INCREMENTAL='0', RUSTFLAGS='-Awarnings')
        r = subprocess.run(['cargo', 'check', '--lib', '--offline', '--message-format=json'], cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode: die('check: /repo does not type-check\n' + r.stderr[-2000:])
        main = geo = None; dirs = set()
        for l in r.stdout.splitlines():
            try: m = json.loads(l)
            except ValueError: continue
            if m.get('reason') != 'compiler-artifact': continue
            for f in m['filenames']:
                dirs.add(os.path.dirname(f))
                if f.endswith('.rmeta'):
                    if m['target']['name'] in ('geo_crossings', 'geo-crossings'): main = f
                    if m['target']['name'] == 'geo': geo = f
        if not main or not geo: die('check: metadata of the crate not found')
        keep = os.path.join(out, 'libgeo_crossings.rmeta')
        shutil.copy(main, keep)
        ext = [('geo', geo)]
    return keep, ext, dirs

def die(msg): raise Anchor(msg)

class Wit:
    def __init__(self, what, rule, codes, code):
        self.what = what; self.rule = rule; self.codes = codes; self.code = code
    def text(self, bad):
        return PRELUDE + '\n'.join(l.replace('//!', '') for l in self.code.strip('\n').split('\n') if bad or '//!' not in l) + '\n'

PRELUDE = '''#![allow(warnings)]
extern crate geo_crossings; extern crate geo;
use geo_crossings::*; use geo_crossings::monotone::MonoPoly; use geo::*; use std::iter::FromIterator; use std::cmp::Ordering;
type Cmp = fn(&String, &String) -> Ordering;
fn cmp(a: &String, b: &String) -> Ordering { a.cmp(b) }
fn tree() -> SplayTree<String, String, Cmp> { SplayTree::new(cmp as Cmp) }
fn set() -> SplaySet<String, Cmp> { SplaySet::new(cmp as Cmp) }
fn poly() -> MonoPoly<f64> { loop {} }
fn keep<T>(_: T) {}
'''

def compile_(text, d, i, lib):
    main, ext, dirs = lib
    src = os.path.join(d, 'w%d.rs' % i)
    open(src, 'w').write(text)
    cmd = ['rustc', '+' + TC, '--edition', '2018', '--crate-type', 'lib', '--crate-name', 'w%d' % i, '--emit=metadata', '-o', os.path.join(d, 'w%d.rmeta' % i),
           '--error-format=json', '--extern', 'geo_crossings=' + main, src]
    for n, f in ext: cmd += ['--extern', '%s=%s' % (n, f)]
    for x in sorted(dirs): cmd += ['-L', 'dependency=' + x]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env={k: v for k, v in os.environ.items() if k != 'RUSTFLAGS'})
    codes = set()
    for l in r.stderr.splitlines():
        try: m = json.loads(l)
        except ValueError: continue
        if m.get('level') == 'error': codes.add((m.get('code') or {}).get('code'))
    return r.returncode == 0, codes

def witnesses(rep, ws):
    d = tempfile.mkdtemp(prefix='wit')
    try:
        lib = library(d)
        jobs = [(w, bad) for w in ws for bad in (True, False)]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda j: compile_(j[1][0].text(j[1][1]), d, j[0], lib), list(enumerate(jobs))))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if any('E0463' in c for _, c in res): raise Anchor('the witnesses do not find the crate')
    for k, w in enumerate(ws):
        (okb, cb), (okt, ct) = res[2 * k], res[2 * k + 1]
        if okb:
            rep.violation(w.what, w.rule, 'a program that must be rejected type-checks: %s' % ' '.join(l.replace('//!', '').strip() for l in w.code.split('\n') if '//!' in l))
            rep.obligation(w.what, w.rule, 2); continue
        if not okt: rep.undecided(w.what, 'the twin without the offending lines does not compile either (%s)' % ', '.join(sorted(map(str, ct))))
        elif not (cb & set(w.codes)): rep.undecided(w.what, 'rejected, but with %s instead of %s' % (sorted(map(str, cb)), w.codes))
        rep.obligation(w.what, w.rule, 2)

# ---- trees ---------------------------------------------------------------------------------
ADT_REFS = [  # structure, constructor, shared lookups, mutators
    ('SplayTree', 'tree()', ['get(&k)', 'find_key(&k)', 'next(&k)', 'prev(&k)', 'min()', 'max()'],
     ['insert(String::new(), String::new());', 'remove(&String::new());', 'clear();', 'get_mut(&String::new());', 'extend(Vec::<(String, String)>::new());']),
    ('SplaySet', 'set()', ['find(&k)', 'next(&k)', 'prev(&k)', 'min()', 'max()'],
     ['insert(String::new());', 'remove(&String::new());', 'clear();', 'extend(Vec::<String>::new());'])]

def g01():
    R = 'a tree whose lookups restructure it is not shared between threads'
    for n, mk in (('SplayTree', 'tree'), ('SplaySet', 'set')):
        yield Wit('%s: Sync' % n, R, ['E0277'], '''
fn sync<T: Sync>(_: T) {} fn send<T: Send>(_: T) {}
pub fn f() {
    send(%s());
    sync(%s()); //!
}''' % (mk, mk))
        yield Wit('%s: threads' % n, R, ['E0277'], '''
pub fn f() {
    let t = std::sync::Arc::new(%s());
    let u = t.clone();
    std::thread::spawn(move || { keep(u.len()); }); //!
    keep(t);
}''' % mk)
        yield Wit('&%s: Send' % n, R, ['E0277'], '''
fn send<T: Send>(_: T) {}
pub fn f() {
    let t = %s();
    send(&t); //!
    keep(t);
}''' % mk)
    yield Wit('SplayTree: Send of keys', 'a tree moves to another thread only if its entries and comparator may', ['E0277'], '''
fn send<T: Send>(_: T) {}
fn c(a: &std::rc::Rc<u8>, b: &std::rc::Rc<u8>) -> Ordering { a.cmp(b) }
pub fn f() {
    let t = SplayTree::<std::rc::Rc<u8>, u8, fn(&std::rc::Rc<u8>, &std::rc::Rc<u8>) -> Ordering>::new(c);
    send(t); //!
}''')
    yield Wit('SplaySet: Send of keys', 'a tree moves to another thread only if its entries and comparator may', ['E0277'], '''
fn send<T: Send>(_: T) {}
fn c(a: &std::rc::Rc<u8>, b: &std::rc::Rc<u8>) -> Ordering { a.cmp(b) }
pub fn f() {
    let t = SplaySet::<std::rc::Rc<u8>, fn(&std::rc::Rc<u8>, &std::rc::Rc<u8>) -> Ordering>::new(c);
    send(t); //!
}''')

def g02():
    R1 = 'a reference handed out does not outlive its tree'; R2 = 'a reference handed out excludes changes while it is in use'
    R3 = 'a reference handed out is independent of the key used to find it'
    for n, mk, looks, muts in ADT_REFS:
        for l in looks:
            c = '%s::%s' % (n, l.split('(')[0])
            yield Wit(c, R1, ['E0505', 'E0597'], '''
pub fn f(k: String) {
    let t = %s; let r = t.%s;
    drop(t); //!
    keep(r);
}''' % (mk, l))
            for m in muts:
                yield Wit('%s against %s' % (c, m.split('(')[0]), R2, ['E0502'], '''
pub fn f(k: String) {
    let mut t = %s; let r = t.%s;
    t.%s //!
    keep(r); t.clear();
}''' % (mk, l, m))
    for n, expr in (('SplayTree::index', '&t[&k]'),):
        yield Wit(n, R1, ['E0505'], '''
pub fn f(k: String) {
    let t = tree(); let r = %s;
    drop(t); //!
    keep(r);
}''' % expr)
        yield Wit(n + ' against insert', R2, ['E0502'], '''
pub fn f(k: String) {
    let mut t = tree(); let r = %s;
    t.insert(String::new(), String::new()); //!
    keep(r); t.clear();
}''' % expr)
    for n, expr in (('SplayTree::get_mut', 't.get_mut(&k).unwrap()'), ('SplayTree::index_mut', '&mut t[&k]')):
        yield Wit(n, R1, ['E0505'], '''
pub fn f(k: String) {
    let mut t = tree(); let r = %s;
    drop(t); //!
    r.clear();
}''' % expr)
        for what, line, codes in (('a second one', 't.get_mut(&k);', ['E0499']), ('get', 'keep(t.get(&k));', ['E0502']), ('insert', 't.insert(String::new(), String::new());', ['E0499']), ('len', 'keep(t.len());', ['E0502'])):
            yield Wit('%s against %s' % (n, what), R2, codes, '''
pub fn f(k: String) {
    let mut t = tree(); let r: &mut String = %s;
    %s //!
    r.clear();
}''' % (expr, line))
    yield Wit('SplayTree::get yields shared references', R2, ['E0594', 'E0596'], '''
pub fn f(k: String) {
    let mut t = tree();
    if let Some(r) = t.get(&k) {
        r.push('x'); //!
    }
}''')

def g03():
    R = 'a scanner borrows its piece'; R2 = 'trapezoids of a stretch are taken before the scanner is used again'
    R3 = 'what a crossings iterator exposes is read before it moves on'
    yield Wit('MonoPoly::scan_lines', R, ['E0505', 'E0597'], '''
pub fn f() {
    let p = poly(); let s = p.scan_lines(0.);
    drop(p); //!
    keep(s);
}''')
    yield Wit('MonoPoly::scan_lines against into_polygon', R, ['E0505'], '''
pub fn f() {
    let p = poly(); let mut s = p.scan_lines(0.);
    p.into_polygon(); //!
    keep(s.advance_to(1.).count());
}''')
    yield Wit('Scanner::advance_to, piece released', R, ['E0505'], '''
pub fn f() {
    let p = poly(); let mut s = p.scan_lines(0.); let it = s.advance_to(1.);
    drop(p); //!
    keep(it.count());
}''')
    yield Wit('Scanner::advance_to, scanner released', R2, ['E0505', 'E0597'], '''
pub fn f() {
    let p = poly(); let mut s = p.scan_lines(0.); let it = s.advance_to(1.);
    drop(s); //!
    keep(it.count());
}''')
    yield Wit('Scanner::advance_to, two stretches at once', R2, ['E0499'], '''
pub fn f() {
    let p = poly(); let mut s = p.scan_lines(0.); let mut a = s.advance_to(1.);
    let mut b = s.advance_to(2.); keep(b.next()); //!
    keep(a.next());
}''')
    yield Wit('Scanner::advance_to, position read meanwhile', R2, ['E0502'], '''
pub fn f() {
    let p = poly(); let mut s = p.scan_lines(0.); let mut a = s.advance_to(1.);
    keep(s.curr()); //!
    keep(a.next());
}''')
    yield Wit('Scanner::advance_to, escaping', R2, ['E0515', 'E0597', 'E0505', 'E0499'], '''
pub fn f() {
    let p = poly();
    let it = {
        let mut s = p.scan_lines(0.);
        let it = s.advance_to(1.); keep(it.count());
        let it = s.advance_to(1.); it //!
    };
    keep(it);
}''')
    for g in ('top', 'bot'):
        yield Wit('MonoPoly::%s' % g, R, ['E0505'], '''
pub fn f() {
    let p = poly(); let r = p.%s();
    p.into_ls_pair(); //!
    keep(r);
}''' % g)
    yield Wit('CrossingsIter::intersections', R3, ['E0502', 'E0499'], '''
pub fn f(v: Vec<Line<f64>>) {
    let mut it = CrossingsIter::<Line<f64>>::from_iter(v); it.next();
    let c = it.intersections();
    it.next(); //!
    keep(c);
}''')
    yield Wit('CrossingsIter::intersections_mut', R3, ['E0502', 'E0499'], '''
pub fn f(v: Vec<Line<f64>>) {
    let mut it = CrossingsIter::<Line<f64>>::from_iter(v); it.next();
    let c = it.intersections_mut();
    it.next(); //!
    keep(c);
}''')
    yield Wit('CrossingsIter over borrowed lines', 'an iterator over borrowed lines does not outlive them', ['E0505'], '''
pub fn f(v: Vec<Line<f64>>) {
    let mut it = Intersections::<&Line<f64>>::from_iter(v.iter());
    drop(v); //!
    it.next();
}''')
    yield Wit('Intersections yields borrowed lines', 'what an iterator over borrowed lines yields does not outlive them', ['E0505'], '''
pub fn f(v: Vec<Line<f64>>) {
    let mut it = Intersections::<&Line<f64>>::from_iter(v.iter()); let r = it.next().unwrap();
    drop(v); //!
    keep(r.0);
}''')

def g04():
    R = 'the monotone sweep stays in place once it has started'
    yield Wit('MonotoneSweep: Unpin', R, ['E0277'], '''
fn unpin<T: Unpin>(_: T) {}
fn sweep() -> MonotoneSweep<f64> { loop {} }
pub fn f() {
    keep(sweep());
    unpin(sweep()); //!
}''')
    yield Wit('MonotoneSweep taken out of its pin', R, ['E0277'], '''
fn sweep() -> MonotoneSweep<f64> { loop {} }
pub fn f() {
    let mut s = Box::pin(sweep()); s.next();
    let t = *std::pin::Pin::into_inner(s); keep(t); //!
}''')
    yield Wit('MonotoneSweep::process_event without a pin', R, ['E0599', 'E0308'], '''
fn sweep() -> MonotoneSweep<f64> { loop {} }
pub fn f() {
    let mut s = sweep();
    (&mut s).process_event(); //!
    keep(s);
}''')
    yield Wit('MonotoneSweep iterated without a pin', R, ['E0599', 'E0277'], '''
fn sweep() -> MonotoneSweep<f64> { loop {} }
pub fn f() {
    let mut s = sweep();
    s.next(); //!
    keep(s);
}''')

@prop('G01', assumptions=['the type checker of the installed nightly compiler'], floor=8)
def p_g01(p, rep, tier):
    """Client programs that share a tree or set between threads, or send one with entries that may not be sent, are compiled against the current tree and must be rejected for that reason, their twins accepted."""
    witnesses(rep, list(g01()))

@prop('G02', assumptions=['the borrow checker of the installed nightly compiler'], floor=60)
def p_g02(p, rep, tier):
    """For every method of SplayTree and SplaySet handing out references, client programs that use one after the tree is dropped or across every mutating method are compiled and must be rejected for that reason, their twins accepted."""
    witnesses(rep, list(g02()))

@prop('G03', assumptions=['the borrow checker of the installed nightly compiler'], floor=12)
def p_g03(p, rep, tier):
    """Client programs that use a scanner, a stretch iterator, sides, exposed crossings or borrowed inputs after or across what invalidates them are compiled and must be rejected for that reason, their twins accepted."""
    witnesses(rep, list(g03()))

@prop('G04', assumptions=['the type checker of the installed nightly compiler', 'library containers keep what they hold by Box at its address'], floor=90)
def p_g04(p, rep, tier):
    """Active segments refer to the storage of their sweep by address. The sweep over crossings must own that storage through a box, so that moving the sweep does not move it, and no step of it (the exploration of W01) may hand active segments other storage or replace it; the monotone sweep, which holds it inline, must be unusable unless pinned (witnesses) and start without active segments."""
    from sweepdom import SWEEP
    from props_active import ACTIVE
    from props_sweep import explore_sweep
    from monodom import MSWEEP
    R = 'the storage active segments refer to does not move'
    at = next((t for t in p.T if t['k'] == 'adt' and t['def'] == ACTIVE), None)
    if at is None: raise Anchor('anchor: active segments')
    if not any(p.T[f[1]]['k'] in ('ptr', 'ref') for f in at['variants'][0]['fields']):
        rep.undecided(ACTIVE, 'active segments hold no address'); rep.obligation(ACTIVE, R, 1)
        return
    st = next((t for t in p.T if t['k'] == 'adt' and t['def'] == SWEEP), None)
    if st is None: raise Anchor('anchor: the sweep')
    fs = [(f[0], p.T[f[1]]) for f in st['variants'][0]['fields']]
    own = [(n, t) for n, t in fs if 'slab::Slab<' in t['s']]
    pinned = any('PhantomPinned' in t['s'] for n, t in fs)
    if len(own) != 1: rep.undecided(SWEEP, 'its storage is not recognised')
    elif own[0][1].get('def') == 'slab::Slab' and not pinned:
        rep.violation('%s.%s' % (SWEEP, own[0][0]), R, 'the storage is part of the sweep and moves with it, active segments keep its former address')
    elif not (own[0][1].get('box') or own[0][1].get('def') in ('alloc::rc::Rc', 'alloc::sync::Arc', 'core::pin::Pin')): rep.undecided(SWEEP, 'storage of type %s' % own[0][1]['s'])
    rep.obligation('%s.%s' % (SWEEP, own[0][0] if own else '?'), R, 1)
    mt = next((t for t in p.T if t['k'] == 'adt' and t['def'] == MSWEEP), None)
    if mt is None: raise Anchor('anchor: the monotone sweep')
    mo = [(f[0], p.T[f[1]]) for f in mt['variants'][0]['fields'] if 'slab::Slab<' in p.T[f[1]]['s']]
    rep.obligation(MSWEEP, R, 1)
    if len(mo) == 1 and mo[0][1].get('def') == 'slab::Slab': witnesses(rep, list(g04()))
    elif not (len(mo) == 1 and mo[0][1].get('box')): rep.undecided(MSWEEP, 'its storage is not recognised')
    explore_sweep(p, rep, tier, {'stay'}, R)

@prop('G05', assumptions=['the assumptions of W01 and F02', 'slab hands out only keys of stored entries; an entry is in use until it is removed'], floor=90)
def p_g05(p, rep, tier):
    """In every step of the exploration of W01 and in runs of the monotone sweep (F02), no unchecked access, comparison of active segments or change of the active set may refer to a segment whose storage was released, and no released segment may stay active (it would be read in later comparisons)."""
    from props_sweep import explore_sweep
    from props_mono import mono_events, polygons
    from colls import dead, slab_keys
    R = 'storage is accessed only while in use'
    explore_sweep(p, rep, tier, {'live'}, R, panics=lambda f: dead(f.why))
    def only(f):
        if f.kind == 'panic':
            d = dead(f.why)
            return [d] if d else []
        sids = {k[1] for k in f.st.g if isinstance(k, tuple) and k[0] == 'slab'}
        if len(sids) != 1: return []
        if any(k not in slab_keys(f.st, next(iter(sids))) for k in f.st.g.get('act', ())): return ['a segment that is no longer stored stays active']
        return []
    ps = polygons('quick')
    mono_events(p, rep, ps if tier != 'quick' else ps[:160], R, only)
