import json,sys
out=json.load(open(sys.argv[1])); 
L=[r for r in out if r['v']=='UND']
L.sort(key=lambda r:r['line'])
for r in L:
    print('## %s:%d %s | %s'%(r['file'][4:],r['line'],r['what'],r['src'][:80]))
    for k,v in list(r['res'].items())[:1]:
        for it in v[1][:1]:
            print('   %s %s %s PATH %s\n     REF %s\n     IMP %s'%(k,it[1],it[0],'; '.join(it[2])[:200],it[3][:330],it[4][:330]))
        if not v[1]: print('   ',k,v[0])
