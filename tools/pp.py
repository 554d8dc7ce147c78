import json,sys
d=json.load(open('/tmp/kcd/dump.json'))
def ts(i): return d['types'][str(i)]['s']
def show(pat):
    for k,f in d['fns'].items():
        if pat in f['name'] and 'body' in f:
            print('==',f['name'],f['path'],f.get('tm'),f.get('file'),f.get('line'))
            b=f['body']
            print('  argc',b['argc'],[(i,ts(t)[:60]) for i,t in enumerate(b['locals'])][:12], b['names'])
            for i,(st,t,l) in enumerate(b['blocks']):
                for s in st: print('  ',i,json.dumps(s)[:200])
                if t[0]=='call':
                    fo=t[1]; nm=ts(t[2])[:150]
                    print('  ',i,'CALL',nm,json.dumps(t[3:])[:200])
                else: print('  ',i,json.dumps(t)[:200])
show(sys.argv[1])
