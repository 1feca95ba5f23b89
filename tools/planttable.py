"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, collections

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "\n## Which check catches which planted bug\n"
# missed when first planted; the checks were strengthened until they caught them
FIRST_MISSED = set("""memo-by-address sorted-walk py-bounds-memo json-flatten bounds-dims-f32 cubic-k-cancel raw-even-grid thread-setting
cubic-tiny-guard linear-flush-subnormal lin-snap-node bounds-chunk-tail""".split())
d = collections.defaultdict(list)
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d[json.load(open(f))["property"]].append(os.path.basename(os.path.dirname(f)))
s = open(V + "/DESIGN.md").read().split(MARK)[0].rstrip("\n") + "\n"
s += MARK + "\nEvery change below is caught by the check of its property (quick tier, seed 1). Marked *: missed when first planted.\n\n| Check | Planted bugs |\n|---|---|\n"
for k in sorted(d):
    s += f"| {k} | {', '.join(x + ('*' if x in FIRST_MISSED else '') for x in d[k])} |\n"
open(V + "/DESIGN.md", "w").write(s)
print(sum(map(len, d.values())), "planted bugs")
