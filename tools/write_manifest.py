"""Writes MANIFEST.json from the properties and the modules in pbt/props."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "P01": ("stateful model-based property testing (set model, injected hash collisions)",
            "Random histories on CPU with the default insertion path; assumes no -0.0/NaN states and capacity respected."),
    "P02": ("stateful model-based property testing (handle map model)", "Random histories; every handle re-read after every operation."),
    "P03": ("model-based property testing of batch deduplication in 5 process configurations", "Random batches of up to 20 rows with forced collisions, and of hundreds of rows; lossy 'approx' mode excluded."),
    "P04": ("stateful property testing past capacity and with probe limits (honesty oracle)", "Random histories on tiny tables; which items are refused is left to the code."),
    "P05": ("property testing: differential between hash routes, bit-flip sensitivity, injectivity", "Random layouts and contents; chance collisions bounded by requiring differences in at least one of several seeds."),
    "P06": ("stateful model-based property testing (sorted multiset model)", "Random histories over 16 queue configurations within capacity."),
    "P07": ("stateful model-based property testing with uniquely identifiable values", "Random histories, heavy key ties, 3 process configurations."),
    "P08": ("stateful property testing past capacity (loss bounds judged on drained copies)", "Random histories on small queues; which pairs are lost is left to the code within the stated bounds."),
    "P09": ("stateful model-based property testing (list model), eager and jitted", "Random histories within the documented capacity."),
    "P10": ("stateful model-based property testing (list model), eager and jitted", "Random histories within the documented capacity."),
    "P11": ("round-trip property testing over generated classes and contents", "Random layouts, contents and paths in a scratch directory."),
    "P12": ("fault-injection fuzzing of saved files (truncation, corruption, foreign files, wrong classes)", "Random and exhaustive small damage; a damaged file may load only if the loaded instance equals the saved one."),
    "P13": ("round-trip and differential property testing of aggregate packing over generated classes", "Random layouts, batch shapes and index selections."),
    "P14": ("round-trip property testing against an independent bit-stream reference", "Random widths, shapes, contents."),
    "P15": ("property testing against a declaration-derived reference", "Random layouts and batch shapes; random() checked for range, determinism and coverage, not for statistical quality."),
    "P16": ("differential property testing against numpy indexing and assignment", "Random layouts, index expressions and update values."),
    "P17": ("property testing against a leaf-wise numpy reference", "Random pairs with single-element differences."),
    "P18": ("property testing of structural round trips (flatten, jit, vmap, pickle, copy)", "Random layouts and programs of field operations."),
    "P19": ("property testing of accept/reject decisions against a declaration-derived oracle", "Random layouts with single injected faults."),
    "P20": ("differential property testing against numpy leaf by leaf", "Random layouts, batch shapes and axes; batch axes given in the documented (non-negative unless supported) form."),
    "P21": ("differential property testing against numpy leaf by leaf", "Random layouts, batch shapes, axes and pads."),
    "P22": ("differential property testing against sequential reference implementations", "Random selections with duplicated and out-of-range indices."),
    "P23": ("property testing against a brute-force reference", "Random batches with near-equal rows, masks, keys and custom key functions."),
    "P24": ("differential property testing method / function / compiled function", "Random layouts and arguments for every registered method."),
    "P25": ("property testing against a declaration-derived reference", "Random layouts and dtypes."),
    "P26": ("property testing against a stable-merge reference", "Random pairs of sorted arrays incl. unequal lengths and infinities."),
    "P27": ("differential property testing across process configurations", "The same random histories in differently configured processes; accelerator paths run their Pallas kernels in the sequential JAX interpreter, so races between real GPU programs and compiler-specific behaviour are out of reach."),
    "P28": ("property testing against an attribute-level reference", "Random descriptors and override combinations."),
    "P30": ("differential property testing against jax.numpy", "Random operations, arrays of rank 0-4, keyword arguments; a defect of jax.numpy itself is shared by both sides."),
    "P29": ("property testing of text renderings against the shown-elements rule", "Random layouts and batch shapes; exact formatting is not judged."),
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "pbt", "props", i.lower() + ".py")):
        tech, note = T[i]
        checks.append(dict(property=i, quick_cmd=f"python3 run.py {i} --tier quick", thorough_cmd=f"python3 run.py {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique=tech, level="exploration", level_note=note))
    else:
        na.append(dict(property=i, reason="check not built yet (the family applies; see DESIGN.md)"))
json.dump(dict(version=1, setup_cmd="python3 -m pbt.deps", checks=checks, not_applicable=na,
               notes="Checks import the code of /repo directly (VERIF_REPO overrides, development only); no hooks are needed."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
