#!/usr/bin/env python3
"""Pretty-print functions of the MIR dump: pp.py SUBSTR [dump]"""
import json,sys
m=json.load(open(sys.argv[2] if len(sys.argv)>2 else '/verif/.build/mir.json'))
T=m['types']
def pl(p):
    s='_%d'%p[0]
    for x in p[1]:
        if x=='*': s='(*%s)'%s
        elif x[0]=='f': s+='.%s'%x[1]
        else: s+='[%s]'%(','.join(map(str,x)))
    return s
def op(o):
    if o['o'] in('copy','move'): return o['o'][0]+' '+pl(o['p'])
    return 'const(%s:%s)'%(next((str(o[k]) for k in('bits','str','val','ptr_to','static','generic','def') if k in o),'zst'),T[o['ty']]['s'])
def rv(r):
    k=r['r']
    d={a:(op(b) if isinstance(b,dict) and 'o' in b else pl(b) if isinstance(b,list) and len(b)==2 and isinstance(b[1],list) and isinstance(b[0],int) else [op(x) if isinstance(x,dict) and 'o' in x else x for x in b] if isinstance(b,list) else b) for a,b in r.items() if a!='r'}
    if 'ty' in d and isinstance(d['ty'],int): d['ty']=T[d['ty']]['s']
    return k+' '+', '.join('%s=%s'%x for x in d.items())
for k,f in m['fns'].items():
    if sys.argv[1] in k:
        print('FN',k,f['span'],'argc',f['argc'],'exp',f.get('exported'),'impl',f.get('impl_self') and f['impl_self'],f.get('impl_trait'))
        for i,t in enumerate(f['locals']): print('   _%d: %s'%(i,T[t]['s']))
        for i,b in enumerate(f['blocks']):
            if b['cleanup']: continue
            print('  bb%d:'%i)
            for s in b['s']:
                if s[0]=='=': print('     ',pl(s[1]),'=',rv(s[2]))
                elif s[0]!='dead': print('     ',s)
            t=dict(b['t'])
            if t['t']=='call':
                fo=t['f']; c=T[fo['ty']].get('callee') if fo['o']=='const' else None
                print('      call',(c.get('path') or c['def']) if c else op(fo),'[%s]'%(','.join(T[x]['s'] if isinstance(x,int) else str(x) for x in (c or {}).get('targs',[]))),'key' if c and c.get('key') else '', {x:y for x,y in (c or {}).items() if x in('shim','unresolved','intrinsic','ctor')},'(',', '.join(map(op,t['args'])),') ->',pl(t['dest']),'to',t['to'])
            else:
                for x in('a',):
                    if x in t: t[x]=op(t[x])
                if 'p' in t: t['p']=pl(t['p'])
                print('      ',t)
