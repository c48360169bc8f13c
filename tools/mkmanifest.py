#!/usr/bin/env python3
"""Writes MANIFEST.json: what is claimed, what is not and why."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "exhaustive enumeration within bounds of flows, behaviours and orders, executed on the real engine; every execution is checked against an explicit-state reference model"
CLAIMED = {  # property: (technique, level_note)
    "C01": (G, "All flow graphs up to 4 (thorough: 5) tasks over the link alphabet; see DESIGN.md for bounds."),
    "C02": (G, "All outgoing-link combinations of a task up to 4 (thorough: 5) links, over link kinds and condition results."),
    "C03": (G, "All sets of outgoing links up to 4 (thorough: 5) per task with chains behind, both priority settings; see DESIGN.md."),
    "C04": (G, "19 flow structures x handlers x every set of up to 2 (thorough: 3) faults."),
    "C05": (G, "Flow structures x handler shapes x every set of up to 2 faults in body and handler; what the handler reads of $error is compared."),
    "C06": (G, "Every iterable and loop position, activity behaviour per round, accumulate, delay, error links, over probes and subflows, within the bounds of DESIGN.md."),
    "C07": (G, "Every condition form, outcome sequence and spelling of do-while settings up to 4 (thorough: 6) rounds."),
    "C08": (G, "Every sequence of attempt outcomes up to 5 (thorough: 7) x counts x intervals x task shapes; waits measured in virtual time. Two known findings."),
    "C09": (G, "Every mapping source (activity outputs, flow inputs, properties, constants, nested paths, errors) x declaration x order of work; outputs of the flow in all declared/undeclared forms."),
    "C11": (G, "Caller/subflow pairs: inputs, returns, implicit outputs, nesting up to 3 levels, shared child flows, errors crossing the boundary."),
    "C12": (G, "Every pair of parallel branches x point at which one of them ends/abandons the flow x orders of the work left behind."),
    "C13": (G, "Every placement of return and reply activities in flow, handler, loop and subflow structures x faults."),
    "C14": (G, "Every limit from 1 to beyond the number of steps of each structure, with faults, with and without subflows, handlers and loops."),
    "C19": (G, "Every flow of a set of structures is run under every subset of observers (recorders, tracer, events, idle interceptor) and logging settings; the digests of all results are compared across configurations."),
    "C18": (G, "Every flow of a set of structures x faults: the sequence of flow and task events, with the activity invocations marked in it, must tell what the reference model says happened; also for runs stopped by the step limit."),
    "C25": (G, "Every flow of a set of structures x faults with a tracer registered: spans compared with the flows and attempts of the model's run; also for runs stopped by the step limit."),
    "C22": (G, "Every interceptor on one or two tasks of the structures x faults: execution, outcome, results of assertions and activities, and coverage compared with the model's run."),
    "C20": (G, "all deviations of base definitions up to two at a time, read back through the accessors and compared with an independent reading of the JSON"),
    "C21": (G, "all lookup sequences, all schedules of concurrent lookups within the preemption bound (statement-level controlled scheduler on the real code), all encodings and single corruptions of contents for the built-in provider"),
    "C24": (G, "explores on the real on-demand action every package of the bounded families (structures x faults, mapping tables, deviations of package text), compared with the reference model"),
    "C15": (G, "Structures x handlers x faults x orders, each prefix of the recorded steps applied and compared with the live instance, in modes step, full and debugger."),
    "C16": (G, "Structures x handlers x faults x orders: each recorded snapshot and each snapshot rebuilt from a prefix of steps compared with the live instance, and again at the end of the run."),
    "C17": (G, "Structures x handlers x faults: state saved at every step boundary, loaded, and the flow restarted on the real engine; rest of trace, outcome, events and recorded steps compared with the uninterrupted run."),
    "C10": (G, "pairs (thorough: triples) of runs of one flow or of flows sharing a subflow, all schedules within the preemption bound (statement-level controlled scheduler on the real code): each run compared with itself alone (judged by the reference model), instance ids, recorded steps, happens-before map races"),
    "C26": (G, "parent/child pairs x behaviours x holding orders, all schedules within the preemption bound (controlled scheduler on the real code): parent judged by the reference model, each detached run compared with the child run on its own, instance ids, event ids, recorded steps"),
    "C23": (G, "flow structures x handlers x single faults, small graphs x failing tasks: all schedules within the preemption bound (controlled scheduler on the real code), each execution checked against the reference model in which ready tasks run at once; races on maps, deadlocks, the step limit."),
    "C27": (G, "Structures x handlers x faults x recording modes x run options: calls of the recorder and of the result handler; runs with options compared with the run without, which the reference model judges."),
    "C28": (G, "Structures x handlers x faults started by requests in every form, restarted and resumed from the state at every step boundary, compared with the run through the flow action (judged by the reference model); all prefixes and type deviations of requests; all pairs of requests to the running server."),
    "C29": (G, "Every sequence of runs, reconfigurations, reloads and clean-ups of flows whose tasks have settings of every kind, by a model of the settings of each task's own activity; structures x handlers x faults and rules x values x task shapes with schemas, by the reference model."),
}
NOT = {}
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, n = CLAIMED[i]
        checks.append(dict(property=i, quick_cmd=f"bash run.sh {i} quick", thorough_cmd=f"bash run.sh {i} thorough",
                           technique=t, level="model_checking", level_note=n, evidence_file=f"evidence/{i}.json"))
    else:
        na.append(dict(property=i, reason=NOT.get(i, "no check built yet; model checking applies")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
