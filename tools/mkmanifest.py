"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"), encoding="utf-8")]
MODEL = "generated manuscripts against a reference translation (model-based, structured generator, shrinking)"
TECH = {
    "C02": "grammar-aware fuzzing of sources with an oracle on outcome, balance and diagnostics",
    "C03": "fuzzing and generated trees against a strict HTML parser (validity predicate)",
    "C12": "metamorphic testing: two layouts of one generated manuscript",
    "C13": "generated escapes in every place against a reference translation and a definition of escaped strings",
    "C14": "generated verbatim text in every notation, round trip through the page",
    "C15": "metamorphic testing: two notations of one generated manuscript",
    "C16": "generated metadata against a reference translation, and metamorphic single additions",
    "C17": "differential testing over histories, environments and threads against a pristine process",
    "C18": "generated manuscripts against a reference linter",
    "C19": "generated runs against a reference formatter",
    "C20": "stateful model-based testing of tree edits",
    "C21": "generated trees and queries against direct definitions",
    "C22": "differential testing of two renderings, on generated and fuzzed sources",
    "C24": "generated manuscripts and folders against a model of the output folder",
    "C26": "stateful model-based testing of the page's scripts in a small browser",
    "C27": "stateful model-based testing of the page's scripts in a small browser",
    "C28": "generated pages, layouts and load failures against a model of tooltips, minimap and start-up",
    "C29": "metamorphic testing: a manuscript and the same tree built or rearranged by a generated program",
    "C30": "generated pages in a small browser that computes the cascade of the style sheet, against rules of what must be seen",
    "C31": "generated manuscripts as examples of the documentation, with a stand-in for docutils and in a small browser, against their sources and pages",
    "C32": "model of a pipeline over random operations and tasks; applications made and run in any order, against the functions of the same name and new objects",
    "C25": "differential testing of commands against functions, random options",
}
NOTE = ("Search, not proof: it holds on the cases generated from the seed (thousands per quick run). Trusts the grammar "
        "(tree-sitter-rsm, not part of the repository), the Python runtime and the reference model in lib/.")
checks = [dict(property=i, quick_cmd=f"/opt/venv/bin/python -W ignore checks/{i.lower()}.py",
               thorough_cmd=f"/opt/venv/bin/python -W ignore checks/{i.lower()}.py --tier thorough",
               evidence_file=f"evidence/{i}.json", technique="property-based testing: " + TECH.get(i, MODEL), level="exploration", level_note=NOTE)
          for i in ids]
m = dict(version=1, setup_cmd="/opt/venv/bin/python -W ignore tools/setup.py", checks=checks, not_applicable=[],
         notes="No hooks: the checks use the public interface of the package, imported from /repo's working tree.")
with open(os.path.join(here, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
