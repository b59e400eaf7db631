#!/usr/bin/env python3
"""show.py DUMP SUBSTR -- print the MIR of matching bodies (development aid)"""
import json,sys
d=json.load(open(sys.argv[1])); T=d['types']
def pl(p):
    s='_%d'%p[0]
    for e in p[1:]:
        if e=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%d'%e[1]
        elif e[0]=='d': s+='@%d'%e[1]
        else: s+=str(e)
    return s
def op(o):
    if 'p' in o: return pl(o['p'])
    if 'm' in o: return 'move '+pl(o['m'])
    c=o.get('c',o)
    if 'fn' in c: return 'fn:'+c['fn'].get('path','?')
    return 'const<%s>%s'%(T[c['ty']]['s'],{k:v for k,v in c.items() if k!='ty'})
def rv(r):
    k=r[0]
    if k=='use': return op(r[1])
    if k=='ref': return '&%s%s %s'%('mut ' if r[1] else '',pl(r[2]),'raw' if len(r)>3 else '')
    if k=='cast': return 'cast[%s] %s as %s'%(r[1],op(r[2]),T[r[3]]['s'])
    if k=='bin': return '%s(%s,%s)'%(r[1],op(r[2]),op(r[3]))
    if k=='un': return '%s(%s)'%(r[1],op(r[2]))
    if k=='discr': return 'discr(%s)'%pl(r[1])
    if k=='agg': return 'agg%s(%s)'%(r[1],', '.join(op(x) for x in r[2]))
    return str(r)
def show(b):
    print('== body',b['id'],b['kind'],b['path'],b['span'],'argc',b['argc'],'inst',b['inst'])
    for i,l in enumerate(b['locals']): print('   let _%d: %s %s'%(i,T[l]['s'],b['names'].get(str(i),'')))
    for i,bl in enumerate(b['blocks']):
        if not bl: continue
        print(' bb%d:'%i)
        for s in bl['s']:
            if s[0]=='=': print('    %s = %s'%(pl(s[1]),rv(s[2])))
            elif s[0] in('live','dead'): print('    ',s)
            else: print('    ',s)
        t=bl['t']
        if t[0]=='call':
            c=t[1]
            print('    CALL %s = %s[%s%s](%s) -> %s'%(pl(t[4]),c.get('rpath',c.get('path','ptr')),c.get('kind'),' body %d'%c['body'] if 'body' in c else '',', '.join(op(x) for x in t[3]),t[5]))
        elif t[0]=='switch': print('    SWITCH',op(t[1]),t[2],t[3])
        else: print('    ',t)
if __name__=='__main__':
    for b in d['bodies']:
        if b.get('kind')!='error' and (sys.argv[2] in b['path']): show(b)
