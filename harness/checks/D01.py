"""D01: see catalog.py."""
import weblib

RULE = ("seeded operation histories of 6 to 120 calls on a fresh store, compared with the reference model after "
        "every call (return value, exception, complete contents); then every operation on stores of every size to 1100 and around larger round sizes; non-trivial: contains at least one mutating call")
ASSUME = ["storage handle follows the get / set / async sync contract of pyscript.storage"]
REQUIRE = ["sizes", "ops", "wide_histories", "changes", "no_ops", "refusals", "full_content_comparisons"]
CASES = [("history", weblib.history("plain"), 20000, 400000), ("sizes", weblib.sizes("plain"), 2220, 2296)]
