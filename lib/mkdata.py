"""Regenerates data/corpus.json and data/baseline_literals.json (run by hand
on the pinned tree; the checks only read the committed files)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen, harness
R = os.path.join(harness.REPO, "tests/wpt/resources")
ld = lambda f: json.load(open(os.path.join(R, f), encoding="utf-8"))
urls = [x for x in ld("urltestdata.json") if isinstance(x, dict)]
st = ld("setters_tests.json")
uniq = lambda l: sorted(set(l))
c = {
    "urls": uniq([x["input"] for x in urls] + [t["href"] for k in st if k != "comment" for t in st[k]]),
    "bases": uniq(x["base"] for x in urls if x["base"]),
    "setters": [[k, t["href"], t["new_value"]] for k in sorted(st) if k != "comment" for t in st[k]],
    "hosts": uniq([x["input"] for x in ld("toascii.json") if isinstance(x, dict)] + [x["input"] for x in ld("IdnaTestV2.json") if isinstance(x, dict)]),
}
json.dump(c, open(os.path.join(gen.DATA, "corpus.json"), "w"), ensure_ascii=True, indent=0)
s, i = gen.harvest()
json.dump({"strings": sorted(s.items()), "ints": sorted(i.items())}, open(os.path.join(gen.DATA, "baseline_literals.json"), "w"), ensure_ascii=True, indent=0)
print({k: len(v) for k, v in c.items()}, len(s), len(i))
