"""D02: see catalog.py."""
import weblib

RULE = ("seeded operation histories of 6 to 120 calls on a fresh store, compared with the reference model after "
        "every call (return value, exception, complete contents); then every operation on stores of every size to 1100 and around larger round sizes; non-trivial: contains at least one mutating call")
ASSUME = ["storage handle follows the get / set / async sync contract of pyscript.storage",
          "no base key continues another one with what reads as an ordinal of it (see the known findings for keys nested otherwise)"]
REQUIRE = ["nested_key_histories", "sizes", "ops", "wide_histories", "changes", "no_ops", "refusals", "full_content_comparisons"]
CASES = [("history", weblib.history("on"), 20000, 400000), ("sizes", weblib.sizes("on"), 2220, 2296), ("nested", weblib.history("on", True), 1500, 40000), ("nestedappend", weblib.nestedappend("on"), 12, 60)]
