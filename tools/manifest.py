#!/usr/bin/env python3
"""Write MANIFEST.json: every property of properties.jsonl is either checked or listed as not applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVELS = {"C21": "fault_enumeration", "C23": "fault_enumeration"}
TECH = {
 "C01": ("bounded exhaustive exploration of the real code against an independent reference model",
         "every shape in the bound x every basis mode x {1,i} x both back ends, plus dense and scaled data; values for all data follow by linearity, which the dense cases test"),
 "C02": ("bounded exhaustive exploration of the real code against an independent reference model",
         "every shape in the bound x every sample position x every admissible request x both back ends, against Gauss quadrature of the interpolant"),
 "C03": ("bounded exhaustive exploration of the real code against an independent reference model",
         "every shape in the bound x every mode of each component x both back ends"),
 "C04": ("bounded exhaustive exploration of the real code against an independent reference model",
         "every shape in the bound x every sample of each component x requests x both back ends"),
 "C05": ("bounded exhaustive exploration, differential between both implementations",
         "every shape and basis input in the bound run through both back ends and compared; helper lengths exhaustively"),
 "C06": ("bounded exhaustive exploration of all size combinations around every limit",
         "every combination of object and request sizes in the bound, omitted arguments included; result size or exception type compared with the documented contract"),
 "C07": ("explicit exploration of all operation sequences against a dictionary model",
         "all index expressions on all shapes, and all sequences up to the stated depth, on the real objects, replayed step by step on the model"),
 "C08": ("explicit exploration of all operation sequences against a dictionary model",
         "all operators x shape pairs x operand kinds x orders, and all sequences of operations on shared objects to the stated depth"),
 "C09": ("explicit exploration of all operation sequences against an array model",
         "all operators x shape pairs x operand kinds x orders, and all sequences of operations on shared objects to the stated depth"),
 "C10": ("bounded exhaustive exploration of every sample position against a symmetry model",
         "every shape x every sample position x component x magnitude; every single-sample corruption of the double sphere"),
 "C11": ("explicit exploration of all call sequences with retained results",
         "all sequences of library calls of mixed kinds and sizes to the stated depth; every retained object is compared with its snapshot and every result with the result of the same call in a fresh process"),
 "C12": ("stateless model checking of thread interleavings (controlled scheduler, preemption bound)",
         "all schedules of two threads over line level switch points within the preemption bound"),
 "C13": ("bounded exhaustive exploration of all shapes under address/undefined sanitizers and an allocation monitor",
         "every admissible size combination in the bound, every helper argument; out of bounds, undefined behaviour, uninitialised reads and unreleased memory are monitored"),
 "C14": ("explicit state exploration of save/load histories over a set of files",
         "all histories to the stated depth over two paths, every position x value class, the documented text forms"),
 "C15": ("bounded exhaustive exploration of every mode and sample position",
         "every function x shape x single position x component x value class, plus dense data, against exact reference values"),
 "C16": ("bounded exhaustive exploration of all (n,m) against an independent reference model",
         "all (n,m) and lengths in the bound, both implementations"),
 "C17": ("bounded exhaustive exploration of an order x argument lattice against exact arithmetic",
         "all order counts x all lattice arguments, against 80-digit decimal recurrences; all short call histories"),
 "C18": ("bounded exhaustive exploration of every mode and sample position, observing the drawn artists",
         "every shape x single position; the matplotlib artists are read back and compared with the data"),
 "C19": ("bounded exhaustive exploration of every mode position, parsing the output",
         "every shape x single mode x value class"),
 "C20": ("bounded exhaustive exploration of every size and kind",
         "every factory x size x kind; every mode and sample of the result"),
 "C23": ("exhaustive enumeration of interruption points (crash points) of every call",
         "an exception is raised before every line every call executes, in a forked process each, followed by the same call, other calls, and a second interruption; changes of coefficient sets likewise"),
 "C24": ("bounded exhaustive exploration of a basis of the data, and of operator sequences, against a model indexed by frequency",
         "every entry of every array size x every operator, memory layouts, fields on the sphere; all sequences of operators on the same array"),
 "C25": ("exhaustive enumeration of settings and of pairs of settings for every call, with the process state observed before and after",
         "150 calls x 24 settings and all pairs; every call first under each setting then without, in forked processes; every setting at import and 17 interpreter configurations in new processes"),
 "C26": ("bounded exhaustive exploration of places and value classes",
         "every non-finite value class x every place and pair of places x every call and both back ends; sequences of operations"),
 "C27": ("bounded exhaustive exploration of pasts, ways of copying and later changes, and of sequences of copies and changes",
         "every kind and shape x past x way of copying x change of either object, compared with an object that was never copied; pickles read in forked and new processes"),
 "C28": ("exhaustive enumeration of operation chains against a model on plain arrays",
         "every chain of operations up to the bound from every kind of object, each object compared after each step, earlier objects at the end"),
 "C21": ("exhaustive fault enumeration: failure at every byte position, retry histories",
         "the real save runs with the soft file size limit of the process set to every byte position of the file; unopenable paths, full device, pairs of failures and histories with retries"),
}
NA = {"C22": "a probability distribution over all seeds cannot be decided by enumerating executions; C20 decides the deterministic part (own draw per sample, mean and deviation arguments)"}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(V, "mc", "props", i.lower() + ".py")):
        t, note = TECH[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": "model checking: " + t, "level": LEVELS.get(i, "model_checking"), "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/selftest.py", "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
