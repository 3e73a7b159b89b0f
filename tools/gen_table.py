"""Write the table of planted bugs of DESIGN.md (section 5) from seeded/*/meta.json."""
import glob
import json
import os
import re

top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(top, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), d["property"], d["needs"], d["what_it_breaks"]))
path = os.path.join(top, "DESIGN.md")
text = open(path).read()
text = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda m: "<!-- bugs -->\n%s\n<!-- /bugs -->" % "\n".join(rows), text, flags=re.S)
open(path, "w").write(text)
