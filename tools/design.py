"""Fills the list of planted changes and the number of repairs in DESIGN.md."""
import json, re
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
STARRED = {"f06-direct-continuation", "f07-eager-rest", "p10-one-by-one", "p16-peer-address"}
rows = ["| change | caught by | what it breaks |", "|---|---|---|"]
for path in sorted([*(ROOT / "seeded").iterdir(), *(ROOT / "seeded-modules").iterdir()], key=lambda path: path.name):
    meta = json.loads((path / "meta.json").read_text())
    star = "*" if path.name in STARRED or meta.get("strengthened") else ""
    star += "†" if path.parent.name == "seeded-modules" else ""
    rows.append(f"| {path.name}{star} | {meta['property']} | {meta['what_it_breaks'].replace('|', '/')} |")
fixed = len(json.loads((ROOT / "known-findings.json").read_text())["fixed"])
path = ROOT / "DESIGN.md"
text = path.read_text()
text = text.replace("${FIXED}", f"{fixed} so far").replace("${SEEDS}", "\n".join(rows))
text = re.sub(r"\d+ so far", f"{fixed} so far", text)
text = re.sub(r"\| change \| caught by .*?(?=\n\n)", lambda _: "\n".join(rows), text, flags=re.S)
path.write_text(text)
