#!/usr/bin/env python3
# seedmeta.py ID PROPERTY NEEDS BREAKS
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
