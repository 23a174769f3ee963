import json,sys
def ty(t):
    k=t.get('k')
    if k=='prim': return t['n']
    if k=='adt': return t['p'].split('::')[-1]+('<'+','.join(map(ty,t['a']))+'>' if t['a'] else '')
    if k=='param': return t['n']
    if k=='ref': return '&'+('mut ' if t['m'] else '')+ty(t['t'])
    if k=='ptr': return '*'+('mut ' if t['m'] else 'const ')+ty(t['t'])
    if k=='tuple': return '('+','.join(map(ty,t['a']))+')'
    if k=='array': return '[%s;%s]'%(ty(t['t']),t['len'].get('v',t['len'].get('s')))
    if k=='slice': return '[%s]'%ty(t['t'])
    if k=='proj': return '<%s as %s%s>::%s'%(ty(t['a'][0]),t['tr'].split('::')[-1],('<'+','.join(map(ty,t['a'][1:]))+'>') if t['a'][1:] else '',t['n'])
    if k=='fndef': return 'fn:'+t['p']+('<'+','.join(map(ty,t['a']))+'>')
    if k=='closure': return 'closure:'+t['d'].split('::')[-2]+t['d'].split('::')[-1]
    return t.get('s',k)
def pl(p):
    s='_%d'%p['l']
    for e in p['p']:
        if e[0]=='d': s='(*%s)'%s
        elif e[0]=='f': s+='.%d'%e[1]
        elif e[0]=='i': s+='[_%d]'%e[1]
        elif e[0]=='dc': s+='@'+str(e[2] or e[1])
        else: s+=str(e)
    return s
def op(o):
    if o['o'] in('copy','move'): return ('mv ' if o['o']=='move' else '')+pl(o['pl'])
    if o['o']=='const':
        if 'v' in o: return '%s_%s'%(o['v'],ty(o['ty']))
        if 'str' in o: return repr(o['str'])
        if 'bytes' in o: return 'bytes%r'%(bytes(o['bytes']),)
        if 'uneval' in o: return 'UNEVAL %s #%s'%(o['uneval'],o['promoted'])
        return ty(o['ty'])
    return str(o)
def rv(r):
    k=r['r']
    if k=='use': return op(r['x'])
    if k in('ref','reborrow'): return ('&mut ' if r['m'] else '&')+('' if k=='ref' else 'rb ')+pl(r['pl'])
    if k=='rawptr': return '&raw '+pl(r['pl'])
    if k=='bin': return '%s(%s, %s)'%(r['op'],op(r['x']),op(r['y']))
    if k=='un': return '%s(%s)'%(r['op'],op(r['x']))
    if k=='discr': return 'discr(%s)'%pl(r['pl'])
    if k=='cast': return '%s as %s [%s]'%(op(r['x']),ty(r['ty']),r['c'])
    if k=='agg': return '%s%s{%s}'%(r['k'],':'+r.get('p','')+'::'+r.get('vn','') if 'p' in r else ':'+r.get('d',''),', '.join(map(op,r['xs'])))
    return str(r)
def body(b):
    for i,l in enumerate(b['locals']): print('  let _%d: %s'%(i,ty(l['ty'])))
    print('  names',[(n,pl(p)) for n,p in b['names']])
    for i,bb in enumerate(b['blocks']):
        print(' bb%d%s:'%(i,' (cleanup)' if bb['cleanup'] else ''))
        for s in bb['st']:
            if s['s']=='assign': print('    %s = %s'%(pl(s['pl']),rv(s['rv'])))
            elif s['s'] in('dead','live'): pass
            else: print('    ',s)
        t=bb['term']
        if t['t']=='call':
            print('    %s = %s(%s) -> %s unw %s   ## %s'%(pl(t['dest']),op(t['f']),', '.join(map(op,t['args'])),t['to'],t['unwind'],t['res'] and t['res']['p']))
        elif t['t']=='switch': print('    switch %s %s else %s'%(op(t['x']),t['cases'],t['else']))
        elif t['t']=='drop': print('    drop %s -> %s unw %s'%(pl(t['pl']),t['to'],t['unwind']))
        elif t['t']=='assert': print('    assert %s==%s %s -> %s'%(op(t['x']),t['exp'],t['kind'][0],t['to']))
        else: print('   ',{k:v for k,v in t.items() if k!='sp'})
if __name__=='__main__':
    d=json.load(open(sys.argv[1]))
    for f in d['fns']:
        if len(sys.argv)<3: print(f['id'],'   ',f['path'],f['vis'] if 'vis' in f else '')
        elif sys.argv[2] in f['id'] or sys.argv[2] in f['path']:
            print('FN',f['id'],f['path']); body(f['body'])
            for i,p in enumerate(f['promoted']): print(' PROMOTED',i); body(p)
