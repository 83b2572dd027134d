"""Writes DESIGN.md."""
import ast
import glob
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "tools")]
import importlib  # noqa: E402

from catalog import PROPERTIES  # noqa: E402
from design_notes import NOTES  # noqa: E402


def seeds(prop):
    for meta in sorted(glob.glob(f"{ROOT}/seeded/*/meta.json")):
        data = json.load(open(meta))
        if data["property"] == prop:
            yield os.path.basename(os.path.dirname(meta)), data


def main():
    caught = json.load(open(f"{ROOT}/tools/caught.json"))
    out = [open(f"{ROOT}/tools/design_head.md").read()]
    out.append("## Properties, one by one\n")
    for prop, tech, _ in PROPERTIES:
        i = prop["id"]
        mod = importlib.import_module(f"mc.checks.{i.lower()}")
        note = NOTES[i]
        out.append(f"### {i}. {prop['title']}\n")
        out.append(prop["statement"] + "\n")
        out.append(f"* *Explored:* {mod.RULE}.")
        out.append(f"* *Bounds:* {prop['quantifier']['text']}.")
        out.append(f"* *Oracle:* {note['oracle']}")
        out.append(f"* *Beyond the tests:* {note.get('why') or prop['why_tests_cant']}")
        out.append(f"* *Assumed:* {'; '.join(mod.ASSUMPTIONS)}.")
        out.append(f"* *Cost:* {note['cost']}.")
        out.append("")
    out.append("## Planted bugs and the checks that catch them\n")
    out.append("Each is run against the check of its property "
               "(`seeded/<name>/`).\n")
    out.append("| bug | property | needs | result |\n|---|---|---|---|")
    for prop, _, _ in PROPERTIES:
        for name, data in seeds(prop["id"]):
            needs = data["needs"].replace("|", "/").replace("\n", " ")
            out.append(f"| {name} | {prop['id']} | {needs} | "
                       f"{caught.get(name, 'not run')} |")
    with open(f"{ROOT}/DESIGN.md", "w") as handle:
        handle.write("\n".join(out) + "\n")


main()
