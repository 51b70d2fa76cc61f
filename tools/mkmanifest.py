"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
REF = "exhaustive enumeration of programs up to a bound on the real VM, compared with a reference interpreter"
TECH = dict(P01=REF, P02=REF, P03=REF, P04=REF, P05=REF, P06=REF,
            P07="exhaustive enumeration of collector schedules (every single collection point, periodic schedules, all pairs in a window) on the real VM under AddressSanitizer, compared with the collection-free run",
            P08="exhaustive enumeration of programs, of the places an error can cut each short, and of repetition counts on the real VM, comparing the heap in use",
            P09="exhaustive enumeration of token sequences, truncations and single-token edits of source files, compiled by the real compiler under AddressSanitizer",
            P10="exhaustive enumeration of built-in functions x argument kind vectors on the real VM under AddressSanitizer")
INP = "exhaustive enumeration of inputs over small alphabets and value sets up to bounds, run on the real VM in lockstep with a reference model"
for _i in (11, 12, 17, 18, 20, 23, 24, 25, 26, 29, 35, 36, 39):
    TECH["P%02d" % _i] = INP
TECH["P41"] = "exhaustive enumeration of a server's answers (every framing, cut and split at every byte) and of histories of client operations on the real VM, against a scripted server on the loopback and a model of the client's settings"
TECH["P42"] = "exhaustive enumeration of inputs and of the answers of the system (ids, permissions, terminals, times, exit statuses) on the real program against a model of each"
NOTE = ("Holds for every case inside the bounds stated in the evidence, on the real code compiled from the working tree; beyond the bounds nothing is claimed. "
        "Trusts the reference model in /verif/lib and the case runner.")
NOTES = {}
NA = {}
try:
    from manifest_notes import TECH as T2, NOTES as N2, NA as NA2
    TECH.update(T2); NOTES.update(N2); NA.update(NA2)
except ImportError:
    pass
checks, na = [], []
for p in props:
    i = p["id"]
    f = "checks/%s.py" % i.lower()
    if i not in NA and os.path.exists(os.path.join(ROOT, f)):
        checks.append(dict(property=i, quick_cmd="python3 %s --tier quick" % f, thorough_cmd="python3 %s --tier thorough" % f, evidence_file="evidence/%s.json" % i,
                           technique="bounded model checking: " + TECH.get(i, "exhaustive enumeration of operation histories on the real VM in lockstep with a reference model"),
                           level="model_checking", level_note=NOTES.get(i, NOTE)))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 lib/build.py plain asan cli", hooks=dict(guard="DICTU_MC_HOOKS", enable="-DDICTU_MC_HOOKS, added by /verif/lib/build.py", source_commits=["2c597f2"]),
         checks=checks, not_applicable=na)
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", len(na), "not")
