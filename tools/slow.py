import json,sys
for c in sys.argv[1:]:
    d=json.load(open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/evidence/%s.json'%c)); P=d['coverage']['per_configuration']
    print(c,'wall',d['wall_s'],'configs',len(P),'incomplete',sum(not x['complete'] for x in P),'diverged',d['coverage']['traces_diverged'],'ok',d['coverage']['traces_validated_against_impl'])
    for x in sorted(P,key=lambda x:-x['wall_s'])[:5]:
        if x['wall_s']>8 or not x['complete']: print('   %.1f'%x['wall_s'],x['harness'],x['params'],'x%d'%x['processes'],'paths',x['paths'],'' if x['complete'] else 'INCOMPLETE')
    for l in d['coverage']['limits']: print('  !',l)
