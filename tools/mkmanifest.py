"""Writes MANIFEST.json from properties.jsonl and checks/."""
import importlib, json, os, sys
V = "/verif"
sys.path[:0] = [V, "/repo"]
TECH = "deterministic simulation with fault injection: seeded search over {}"
WHAT = {
    "C01": ("task orders and source-line interleavings of lazy computations", "Sampled schedules over the catalogue of inputs; reference is the eager read."),
    "C02": ("task orders, interleavings and chunkings of lazy writes", "Sampled schedules and signals; reference is the eager write."),
    "C03": ("process death at the return of every writer", "Sampled signals; what survives is read by another process and compared with a model of the format."),
    "C04": ("storage faults during writes", "One to three injected faults per run at seeded operations of every writer."),
    "C05": ("storage faults during reads and torn files", "Seeded fault points, kinds and cut positions over the catalogue of inputs."),
    "C06": ("faults and interruptions at any point, then an audit of open files", "Open descriptors and mappings of the process are the oracle."),
    "C07": ("histories of reads, writes and failures", "Reference is the same call in a fresh process."),
    "C08": ("faults and interruptions at any source line of a call", "Snapshots of every argument and process setting before and after."),
    "C09": ("faults, interruptions and in-place changes while loading", "Bytes of the source tree before and after."),
    "C10": ("spellings, derived computations and other handles when saving onto the source", "Model: correct data, or an error and the old bytes."),
    "C11": ("histories of operations on one file", "Reference model: a dictionary of signals."),
    "C12": ("task orders and interleavings over layouts", "Reference: direct reading of the bytes."),
    "C13": ("histories of series, split sizes and schedules", "Reference model of the series."),
    "C14": ("clocks, time zones, locales, hash seeds and directories", "Reference: the same call under another environment."),
    "C15": ("interleavings of client threads at source-line granularity", "Reference: every client alone."),
    "C16": ("allocation limits and failing allocations", "Simulated allocator with a limit far below the size of the array."),
    "C17": ("kill and failure points of rewrites", "Seeded kill points, torn writes; what is left is read by another process."),
    "C18": ("refused arguments with an existing target", "Bytes of the target before and after."),
}
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
NA = json.load(open(f"{V}/tools/na.json"))
for p in props:
    i = p["id"]
    if i.startswith("C") and os.path.exists(f"{V}/checks/{i.lower()}.py"):
        m = importlib.import_module("checks." + i.lower())
        w, note = WHAT[i]
        checks.append({"property": i, "quick_cmd": f"bash run.sh {i}", "thorough_cmd": f"bash run.sh {i} --tier thorough", "evidence_file": f"evidence/{i}.json", "technique": TECH.format(w), "level": m.LEVEL, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
