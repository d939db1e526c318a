import json,sys,subprocess
p='/verif/tools/claims.json'; d=json.load(open(p))
d[sys.argv[1]]={"technique":sys.argv[2],"note":sys.argv[3]}
json.dump(d,open(p,'w'),indent=1)
