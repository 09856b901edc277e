"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, collections
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for m in glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json")):
    by[json.load(open(m))["property"]].append(os.path.basename(os.path.dirname(m)))
path = os.path.join(VERIF, "DESIGN.md")
head = open(path).read().split("\n## Which check catches which\n")[0].rstrip("\n")
rows = "\n".join("| {} | {} | {} |".format(p, len(by[p]), ", ".join(sorted(by[p]))) for p in sorted(by))
open(path, "w").write(head + "\n\n## Which check catches which\n\nEvery planted bug is caught by the quick check of the property it was written against (and many by others,\nwhich are not listed).\n\n| check | bugs | caught |\n|---|---|---|\n" + rows + "\n")
print(sum(map(len, by.values())), "bugs")
