import json,sys
out=json.load(open(sys.argv[1])); want=sys.argv[2].split(',')
for r in out:
    if r['v'] in want:
        vs={k:v[0] for k,v in r['res'].items() if v[0]!='SAME'} if r['v']!='nocompile' else ''
        print('%-5s %s:%d %-28s | %s | %s'%(r['v'],r['file'][4:],r['line'],r['what'][:40],r['src'][:90],vs))
