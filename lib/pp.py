# Developer aid: pretty-print one function of the dump.
import json,sys
def pl(p):
    s='_%d'%p['l']
    for e in p['p']:
        if e=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.'+e[1]
        elif e[0]=='v': s+=' as '+e[1]
        elif e[0]=='i': s+='[_%d]'%e[1]
        else: s+=str(e)
    return s
def op(o):
    if o['k'] in('copy','move'): return ('' if o['k']=='copy' else 'mv ')+pl(o['pl'])
    if 'fn' in o: return 'fn:'+(o['fn']['resolved'] or o['fn']['path']+'?')+str(o['fn']['args'])+('L' if o['fn']['local'] else '')
    return 'c:%s:%s'%(o.get('name',''),json.dumps(o.get('val')))[:200]
def rv(r):
    k=r['r']
    if k=='use': return op(r['a'])
    if k=='ref': return '&'+('mut ' if r['mut'] else '')+pl(r['pl'])
    if k=='bin': return '%s(%s,%s)'%(r['op'],op(r['a']),op(r['b']))
    if k=='un': return '%s(%s)'%(r['op'],op(r['a']))
    if k=='discr': return 'discr(%s)'%pl(r['pl'])
    if k=='cast': return 'cast(%s)'%op(r['a'])
    if k=='agg': return 'agg %s %s(%s)'%(r['kind'],r.get('adt',r.get('closure',''))+'::'+r.get('variant',''),', '.join(map(op,r['ops'])))
    return str(r)
def show(f):
    print(f['name'],f['nargs'],[(n,pl(p)) for n,p in f['dbg']], f.get('caps'))
    for i,b in enumerate(f['blocks']):
        if b['cleanup']: continue
        print('bb%d:'%i)
        for s in b['st']:
            if s['s']=='=': print('   ',pl(s['pl']),'=',rv(s['rv']))
            else: print('   ',s)
        t=b['term']; k=t['t']
        if k=='call': print('    %s = call %s(%s) -> %s  @%s'%(pl(t['dest']),op(t['f']),', '.join(map(op,t['args'])),t['to'],t['sp'][1]))
        elif k=='switch': print('    switch %s %s else %s'%(op(t['a']),t['arms'],t['else']))
        elif k=='assert': print('    assert %s %s==%s -> %s'%(t['kind'],op(t['a']),t['exp'],t['to']))
        elif k=='drop': print('    drop',pl(t['pl']),'->',t['to'])
        else: print('   ',{a:b for a,b in t.items() if a!='sp'})
if __name__=='__main__':
    d=json.load(open('/verif/.build/mir.json'))
    for f in d['fns']:
        if f['name']==sys.argv[1]: show(f)
