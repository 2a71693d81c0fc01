#!/usr/bin/env python3
"""claim.py ID TECHNIQUE NOTE: claims a property and rewrites MANIFEST.json."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
f = os.path.join(here, "claimed.json")
c = json.load(open(f))
c[sys.argv[1]] = [sys.argv[2], sys.argv[3]]
json.dump(dict(sorted(c.items())), open(f, "w"), indent=1, ensure_ascii=False)
open(f, "a").write("\n")
subprocess.check_call([sys.executable, os.path.join(here, "manifest.py")])
