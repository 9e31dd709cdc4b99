import json,sys
# add.py ID oracle note
f='/verif/tools/built.json'; b=json.load(open(f))
b[sys.argv[1]]={"oracle":sys.argv[2],"note":sys.argv[3]}
json.dump(b,open(f,'w'),indent=1)
