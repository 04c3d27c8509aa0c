import json,sys
for c in sys.argv[1:]:
    d=json.load(open('/verif/evidence/%s.json'%c))
    for x in d['coverage']['per_configuration']: print(c,x['harness'],x['params'],'paths',x['paths'],'q',x['queries'],'as',sum((x['assertions'] or {}).values()),'OK' if x['complete'] else 'INCOMPLETE','sol',x['solver_s'],'wall',x['wall_s'])
    print('  diverged',d['coverage']['traces_diverged'],'ok',d['coverage']['traces_validated_against_impl'])
    for l in d['coverage']['limits']: print('  !',l)
