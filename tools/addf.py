"""addf.py ID 'commit subject' 'what failed': record a fixed finding; addf.py --oracle ID text."""
import sys
if sys.argv[1] == "--oracle":
    open("tools/oracles.py", "a").write(f"O[{sys.argv[2]!r}] = {sys.argv[3]!r}\n")
else:
    p = "tools/findings_data.py"; s = open(p).read()
    i = s.rindex('\n    ("C'); j = s.index("\n", i + 1) + 1
    s = s[:j] + f"    ({sys.argv[1]!r}, {sys.argv[2]!r}, {sys.argv[3]!r}),\n".replace("('C", '("C', 1).replace("',", '",', 1) + s[j:]
    open(p, "w").write(s)
