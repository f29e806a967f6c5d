"""Writes known_findings.json: the repaired defects, one line each (property, commit, what failed), and the findings left."""
import json, os, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
PROP = {
    "c084c36": "C19", "94a9c17": "C16", "c752cb3": "C15", "8717e82": "C15", "30e0a0c": "C15", "db72ad9": "C17", "cd5e68b": "C16",
    "0ad4355": "C15", "47cb4ff": "C16", "a1d7f99": "C16", "f51193d": "C15", "8453714": "C18", "b2a1dfd": "C18", "9b9f5ff": "C19",
    "464e588": "C10", "0311c29": "C08", "8d1212c": "C34", "e72936b": "C34", "aa4f846": "C34", "fdde03c": "C06", "08fe7e9": "C34",
    "5501eda": "C34", "dbca676": "C18", "d6a493e": "C18", "0641575": "C13", "0a40b80": "C17", "31d8749": "C17", "1cf5620": "C14",
    "7177400": "C19", "e140482": "C27", "43e1cf3": "C05", "20c26f8": "C27", "185abe4": "C19", "08164d8": "C26", "8e151d4": "C04",
    "3dd2ae3": "C35", "a552009": "C07", "063a758": "C06", "bb29097": "C05", "82c4178": "C24", "05a0f6f": "C24", "ce0586f": "C08",
    "fa9b3d8": "C08", "df20941": "C19", "b02db85": "C35", "3dedac8": "C02", "d555c99": "C02", "72447af": "C02", "7ac2d2a": "C01",
    "ad60d12": "C23", "83b83b8": "C23", "b56ab29": "C23", "759eac0": "C23", "3702a5e": "C23",
    "80065bb": "C30", "5ae21bb": "C30", "4727e65": "C30", "2f1275d": "C30", "1f30c3f": "C30", "10ed422": "C30",
    "d69a579": "C35", "a373134": "C35",
    "14e916a": "C01", "264e8a8": "C01", "d56455a": "C01", "435f4b8": "C01", "b0a857a": "C01",
}
FINDINGS = []


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
    subj = {l.split(" ", 1)[0]: l.split(" ", 1)[1][5:] for l in log if " fix: " in l}
    miss = sorted(set(subj) - set(PROP))
    if miss:
        print("without a property:", miss)
    fixed = ["fixed: property=%s %s %s" % (PROP.get(h, "?"), h, s) for h, s in subj.items()]
    json.dump({"findings": FINDINGS, "fixed": fixed}, open(os.path.join(HERE, "..", "known_findings.json"), "w"), indent=1)


main()
