"""shared reporting: obligations, violations, undecided paths"""
import json, os, sys, time
from mai import *

class Anchor(Exception): pass

class Report:
    def __init__(self, prop):
        self.prop = prop; self.obl = []; self.viol = []; self.undec = []; self.known = []; self.notes = []
        self.paths = 0; self.bodies = set(); self.models = set(); self.states = 0
    def violation(self, construct, rule, detail, log=()):
        # key without line numbers
        self.viol.append({'construct': construct, 'rule': rule, 'detail': detail, 'path': [list(x) if isinstance(x, tuple) else x for x in log][-40:]})
    def undecided(self, construct, why):
        self.undec.append({'construct': construct, 'why': why})
    def obligation(self, construct, rule, paths):
        self.obl.append({'construct': construct, 'rule': rule, 'paths': paths})
        self.paths += paths

def explore(rep, en, states, name, rule, check, allow_panic=None):
    """run the interpreter from `states`, apply `check(final)` -> list of messages to each final"""
    fin = en.run(states)
    n = 0
    for f in fin:
        if f.kind == 'undecided':
            if f.why.startswith('call depth') and getattr(en, 'pure', False):
                rep.violation(name, rule, 'the recursion does not end', f.st.log); n += 1
                continue
            rep.undecided(name, f.why); continue
        n += 1
        if f.kind == 'panic':
            msg = allow_panic(f) if allow_panic else 'a path ends in a panic (%s)' % f.why
            if msg: rep.violation(name, rule, msg, f.st.log)
            continue
        todo = [f.st]
        while todo:
            st = todo.pop()
            g = Final(f.kind, st.copy(), f.val, f.why)
            try:
                for msg in check(g):
                    rep.violation(name, rule, msg, st.log)
            except Fork as k:
                # the specification needs a fact the path left open: examine every case
                for label, ref in k.alts:
                    c = st.copy()
                    if ref(c) is False: continue
                    c.log = c.log + (('specification', label),)
                    todo.append(c)
                if len(todo) > 4000:
                    rep.undecided(name, 'specification: too many cases'); break
            except Undecided as u:
                rep.undecided(name, 'specification: %s' % u)
            except Infeasible:
                pass
            except (TypeError, IndexError, KeyError, AttributeError, ValueError, NameError, AssertionError, RecursionError, ArithmeticError, StopIteration) as e:
                if DEBUG: raise
                rep.undecided(name, 'specification: a value of an unexpected shape (%s: %s)' % (type(e).__name__, e))
    for b in en.stats['bodies']:
        rep.bodies.add(en.p.bodies[b]['path'])
    rep.models |= en.used_models
    rep.states += en.stats['states']
    rep.obligation(name, rule, n)
    return fin
