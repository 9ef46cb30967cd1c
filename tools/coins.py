"""Transcribes the documented coin table (README.md and docs/cryptocurrencies.rst) to vlib/data/coins.json.  Run once, by hand."""
import json
import re
import sys


def table(text):
    rows, name = {}, None
    for row in re.findall(r"<tr.*?</tr>", text, re.S):
        cells = [re.sub(r"<.*?>", "", c).strip() for c in re.findall(r"<td.*?</td>", row, re.S)]
        if len(cells) == 4:
            name = cells.pop(0)
        if len(cells) != 3:
            continue
        rows.setdefault(name, {})[cells[0]] = [int(cells[1], 16), int(cells[2], 16)]
    return rows


if __name__ == "__main__":
    a = table(open(sys.argv[1] + "/README.md").read())
    b = table(open(sys.argv[1] + "/docs/cryptocurrencies.rst").read())
    assert a == b
    print(len(a), sum(map(len, a.values())))
    with open("vlib/data/coins.json", "w") as f:
        json.dump(a, f, indent=0, sort_keys=True)
