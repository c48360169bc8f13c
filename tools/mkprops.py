#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the anchors are easy to review)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d["anchors"]["observe_at"] = observe or ["activity invocations and their inputs", "result handler calls"]
    assert len(title) <= 80, title
    P.append(d)

TB="model/simple/taskbehavior.go"; II="instance/ind_instance.go"; TI="instance/taskinst.go"; IN="instance/instance.go"; AC="action.go"

p("C01","Acyclic flows: each task runs once after its joins are decided, or is skipped",
  "In a flow whose links form no cycle, every task is either executed exactly once or skipped; it executes only after every one of its incoming links has been decided, and it executes exactly when it has no incoming link or at least one of them was followed. A task all of whose incoming links were not followed is skipped, its own outgoing links count as not followed, and this never blocks a join or the completion of the flow, in whatever order ready tasks are taken.",
  ["programs","schedules"],
  "All flow graphs up to the bounds (tasks, links, link kinds, expression values, task failures routed by error links), every order in which sibling tasks may be taken and unordered collections may be walked.",
  "The existing tests run a couple of linear flows; joins fed by a mix of followed, false, error and skipped paths, and the orders in which a join's predecessors end, are not exercised at all.",
  [TB, II, IN, "model/simple/flowbehavior.go"],
  [("join readiness decision", TB+":TaskBehavior.Enter"),("skip cascade", TB+":TaskBehavior.Skip, "+II+":handleTaskDone, enterTasks"),("completion test", "model/simple/flowbehavior.go:TaskDone")],
  [("link status","undecided, false, true or skipped per instance","instance/linkinst.go"),("task status","entered, ready, waiting, done, skipped, failed","instance/taskinst.go")])

p("C02","Links are followed exactly according to their kind and condition",
  "When a task succeeds, its dependency and label links are followed, each expression link is followed exactly when its expression is true for the flow's data at that moment, the otherwise link is followed exactly when the task has expression links and none of them was followed, and error links are not followed. When a task fails and has error links, exactly the error links are followed and the flow continues. An expression that cannot be evaluated makes the flow fail over to its error handling, and is never taken as an answer.",
  ["programs","inputs"],
  "All multisets of outgoing links up to the bound, over all link kinds and expression results (true, false, error, panic, values coerced to boolean), for succeeding and failing source tasks, inside the main body, an error handler and a subflow.",
  "Tests have no flow with expression, otherwise, label or error links; the combinations of link kinds on one task are exponential.",
  [TB, TI, "definition/definition_ser.go"],
  [("outgoing links on success", TB+":TaskBehavior.Done"),("outgoing links on failure", TB+":TaskBehavior.Error"),("expression evaluation", TI+":EvalLink"),("link kinds", "definition/definition_ser.go:createLink")])

p("C03","Sibling branches start in the documented priority order",
  "When a task completes and several of its links lead to tasks that become ready, those tasks start in order of link kind: label first, then otherwise, then expression, then dependency; with FLOGO_TASK_PRIORITIZE_EXPR_LINK set to true: expression first, then otherwise, then label, then dependency. The work a branch leads to before its first wait or end is carried out before the next lower-priority branch starts.",
  ["programs","configurations"],
  "All sets of outgoing links of one task up to the bound, each branch a chain of up to two tasks, both settings of the priority switch, links listed in every order.",
  "Only a unit test of the sort helper exists; which code each kind gets, and that the queue reverses them, is untested.",
  [TB, II], [("enter codes", TB+":getEnterCode"),("ordering", TB+":SortTaskEntries"),("work queue", II+":scheduleEval")])

p("C04","A run always ends with exactly one outcome and one completion signal",
  "Every run of a flow that has at least one start task and no cycle reports its final outcome to its caller exactly once, as a result when the flow completed and as a non-nil error when it failed, and signals completion exactly once, after the outcome. No failure, panic, mapping error, expression error or handler failure at any point leaves the caller without an outcome.",
  ["programs","fault_sequences"],
  "All small flows with and without error handler and subflow, with every single and double fault (error, panic, mapping error, link expression error, loop condition error, bad subflow reference) at every position.",
  "Each fault position times each structure is a different path through the failure code; tests run only successful flows.",
  [AC, II, TI], [("run loop and outcome", AC+":FlowAction.Run"),("global error", II+":HandleGlobalError"),("panic barrier", II+":execTask")],
  None, ["result handler HandleResult and Done calls"])

p("C05","Unhandled errors run the flow's error handler once, and only it",
  "A task failure that no error link handles starts the flow's error handler exactly once and abandons the rest of the flow's body; when the handler finishes, the flow completes normally, and when a task of the handler fails unhandled, or there is no handler, the flow fails with that error. While the handler or an error branch runs, the error data gives the failed activity's name, message, type, code and data.",
  ["programs","fault_sequences"],
  "All small bodies times handlers, with error, coded error with data, and panic at every position, siblings still pending, in the main flow and in a subflow.",
  "No test has an error handler; pending siblings and failures inside the handler need specific combinations.",
  [II, TI, TB, "definition/resolve.go"], [("task error", II+":handleTaskError"),("global error", II+":HandleGlobalError"),("error data", TI+":getErrorObject, appendErrorData, setTaskError")],
  [("error data","error objects visible as $error and $error[task]","instance/taskinst.go")])

p("C06","Iterator tasks run once per element, with the right iteration data",
  "An iterator task evaluates its activity exactly once per element of what it iterates over - a count, a numeric string, an array, an object, or a typed slice, given directly or by an expression - one after the other and in order for ordered collections, with the iteration's index, key and value visible to its inputs. Its successors start once, after the last iteration; with zero elements the task still counts as done; with accumulation on, its output is the list of every iteration's outputs in order.",
  ["inputs","programs"],
  "All kinds of iterables up to the bounded size, synchronous and subflow activities, accumulation on and off, failure at every iteration, positions in the flow, both ways of walking unordered objects.",
  "The iterator test is empty; element kinds times activity kinds times accumulation is untested.",
  ["model/simple/iteratorbehavior.go", TI, "definition/definition_ser.go"],
  [("iteration", "model/simple/iteratorbehavior.go"),("accumulation", TI+":handleAccumulation"),("repeat scheduling", II+":execTask")])

p("C07","Do-while tasks repeat until their condition is false",
  "A do-while task evaluates its activity at least once, and again exactly as long as its condition, evaluated after each round with that round's outputs and index, is true; its successors start once, after the last round. With accumulation on, its output is the list of every round's outputs in order; an error of the activity or of the condition ends the loop and is handled like any task error.",
  ["inputs","programs"],
  "All condition outcomes (true/false sequences, error) up to the bound on rounds, synchronous and subflow activities, accumulation, failures at every round, with and without delay.",
  "The do-while test is empty.",
  ["model/simple/dowhilebehavior.go", TI], [("condition", "model/simple/dowhilebehavior.go:evaluateCondition"),("round index", "model/simple/dowhilebehavior.go:updateDoWhileIndex"),("repeat scheduling", II+":execTask")])

p("C08","Retry on error: bounded attempts, intervals honoured, only for retriable errors",
  "A task configured to retry is attempted again after a retriable error, at most the configured number of further times, waiting the configured interval before each, and stops at the first success; if all attempts fail, the last error is handled like any task error. Non-retriable errors and tasks without the setting are not retried; each attempt sees freshly mapped inputs.",
  ["fault_sequences","configurations"],
  "All sequences of attempt outcomes (success, retriable, non-retriable, plain error, panic) up to the bound, counts and intervals given as literals and as expressions, basic, looping and subflow tasks.",
  "The retry test covers configuration parsing only, not attempt sequences.",
  ["model/simple/retry.go", TB, "definition/definition_ser.go"], [("retry loop", TB+":evalActivity"),("budget", "model/simple/retry.go"),("configuration", "definition/definition_ser.go:getRetryOnErrCfg")])

p("C09","Flow data: inputs, defaults, mappings and outputs carry the right values",
  "A flow sees the inputs it was started with, and the declared default for each declared input that was not given; an activity receives exactly the inputs its mappings define, evaluated when it is executed against the flow's inputs, the outputs of already executed activities and the flow context, and a task's outputs become visible to later tasks only under that task's name. When the flow ends without an explicit return, its result consists of its declared outputs with the values the flow holds for them.",
  ["inputs","programs"],
  "All combinations up to the bound of inputs given or defaulted, mappings (literal, flow input, upstream output, nested expression, object mapping), re-written outputs, and flow outputs declared or not.",
  "Tests do not check values that activities receive or flows return beyond one output.",
  [II, "instance/util.go", IN, "definition/mapper.go", "definition/resolve.go"],
  [("start attributes", II+":startInstance"),("input mapping", "instance/util.go:applyInputMapper"),("output mapping", "definition/mapper.go"),("flow result", IN+":GetReturnData")])

p("C10","Flow instances running at the same time do not affect each other",
  "Any number of runs of the same flow, or of different flows, executed at the same time by one process each behave and report exactly as if they had run alone: inputs, activity data, link decisions, loops, errors, subflows and results of one run are never visible in another, and every run has its own instance id.",
  ["schedules","programs"],
  "All interleavings of two (thorough: three) runs at the granularity of activity evaluations, shared-lock and lazy-initialisation points, for a set of flows covering every feature.",
  "Tests run one flow at a time; sharing through the flow definition or package state only shows under particular interleavings.",
  [AC, IN, II, "activity/subflow/activity.go", "support/manager.go"], [("per-run instance", AC+":FlowAction.Run"),("shared definition is read-only","definition/definition.go"),("lazy subflow metadata","activity/subflow/activity.go:Metadata")])

p("C11","A subflow behaves like a call: own data, inputs in, outputs out, errors out",
  "A subflow task starts the referenced flow once with the mapped inputs, waits until it has ended, and then either exposes the outputs the subflow returned and follows its own links, or - when the subflow failed - fails with the subflow's error, subject to the task's own error links and retry setting. A subflow sees none of its parent's data except its inputs, changes none of it, has its own error handler and completion, and may be nested or used by several tasks, each call with its own instance id derived from its parent run's. It makes no difference whether the flows are resources or found by URI: a flow that can't be found makes the call fail, and is looked for again by the next one.",
  ["programs","fault_sequences"],
  "All small parent/child/grandchild flow pairs with parallel parent branches, faults at every position of either, subflow in body, handler, loop, every order of ready tasks; flows found by URI, missing or malformed first.",
  "Tests only check the activity's metadata; failure and completion propagation across levels is untested.",
  ["activity/subflow/activity.go", "instance/util.go", II], [("embedding", II+":newEmbeddedInstance, startEmbedded"),("completion to host", II+":handleTaskDone"),("failure to host", II+":HandleGlobalError, handleTaskError")])

p("C12","Work of an ended flow or abandoned body is never executed",
  "Once a flow or subflow has ended - by completing, by an explicit return or by failing - none of its remaining tasks starts, nor any task of subflows started by it, and it reports to its parent task only once; once a flow has switched to its error handler, none of the remaining tasks of its body starts. The rest of the parent flow is not affected by this.",
  ["programs","schedules"],
  "All small parent/child flows with parallel branches where one branch returns, fails, or triggers the handler while the others (also nested subflows) are still pending, in every order.",
  "Needs a race between branches of one level and the next; no test has parallel branches.",
  [II], [("queue discipline", II+":DoStep, execTask"),("forced completion", II+":handleTaskDone")])

p("C13","Explicit return and reply deliver their data and end, or continue, the flow",
  "An activity that returns ends its flow right away: the caller, or the parent task of a subflow, gets exactly the returned data, and the run's outcome carries exactly the returned error. An activity that replies delivers its data to the caller immediately and the flow continues. A return by the activity of a looping task takes effect when the loop is done.",
  ["programs","schedules"],
  "All small flows with a return or reply at every position, with pending siblings, in the body, in branches, in the handler and in a subflow, with data, nil data and error.",
  "No test uses return or reply.",
  [IN, II, AC], [("return", IN+":Return"),("reply", IN+":Reply"),("forced completion", II+":handleTaskDone")])

p("C14","The step limit bounds every run",
  "A run executes at most the configured maximum number of steps; one that has not ended by then is stopped and reports an error naming the limit as its only outcome, and one that needs no more than the limit is unaffected by it. The retries of an attempt belong to the step of the attempt.",
  ["programs","configurations"],
  "Endless loops, chains and iterators times limits from 1 to the bound, around the exact number of steps each flow needs.",
  "The limit is never reached in tests.",
  [AC, II, "util/util.go"], [("step loop", AC+":FlowAction.Run"),("limit", "util/util.go:GetMaxStepCount")])

p("C15","Recorded steps replay to the state the flow actually had",
  "With step recording on, the recorded steps of a run carry consecutive numbers from the start of the run to its end and name its flow instance; applying them in order gives, after each step, the run's actual status, pending work, tasks and links with their status, and - when a state manager is configured (FLOGO_FLOW_SM_ENDPOINT), which is what switches the recording of data changes on - data, for the main flow and each subflow that has not ended.",
  ["programs","histories"],
  "All small flows including failures, loops, handlers and subflows, every prefix of the recorded history, recording modes step, full and debugger.",
  "The existing tests feed hand-made steps; no test compares recorded steps to the run.",
  ["instance/instance_chg.go", "instance/recorder.go", II], [("change tracking", "instance/instance_chg.go:SimpleChangeTracker"),("recording points", AC+":FlowAction.Run")],
  None, ["state recorder calls"])

p("C16","Snapshots, and snapshots rebuilt from steps, show the actual state",
  "A recorded snapshot shows the run's actual status, data, tasks, links, pending work and subflows at that moment, and later execution never changes an already recorded snapshot or step. Rebuilding a snapshot from a run's recorded steps gives the same state as the snapshot recorded at that point, for every prefix of the run, independently of internal collection order, and leaves the steps unchanged; its data is complete when a state manager is configured, and subflows that have ended may be left out.",
  ["histories","programs"],
  "All small flows (incl. subflows, loops, failures), every prefix of each recorded history, every walking order of the collections up to the bound.",
  "The existing test prints the result for one hand-made history without asserting anything.",
  ["state/util.go", "state/snapshot.go", II], [("snapshot", II+":Snapshot"),("rebuild", "state/util.go:StepsToSnapshot")],
  None, ["state recorder calls","StepsToSnapshot result"])

p("C17","A flow restarted from any saved intermediate state finishes as it would have",
  "Saving a running flow's state between any two steps and loading it back yields the same state, and restarting from it executes exactly the work that was still outstanding, in the same order and with the same data, and reports the same outcome as the uninterrupted run. Work that was already done is not repeated, recorded steps continue the numbering of the interrupted run, and ids of subflow instances are not used again. (Only a task in the middle of its own loop or retries may start over.)",
  ["crash_points","programs"],
  "Every step boundary of every small flow of the bounded family (branches, joins, links of all kinds, error links, error handler, data).",
  "Crash point times flow shape; the existing serialisation test is not part of the running suite and covers one state.",
  ["instance/instance_ser.go", II, AC], [("save/load", "instance/instance_ser.go"),("restart", II+":Restart, "+AC+":FlowAction.Run")])

p("C18","Flow and task events tell the true story of the run",
  "With listeners registered, every run posts for each flow and subflow a started event and then exactly one final event (completed, or failed with the error), and for each executed task a started event and then exactly one final event, each with the right names, instance ids, parent, inputs and outputs; skipped tasks are reported as skipped and never as started or completed. Events of one run are posted in the order in which things happened. A task given up half-way needs no final event, and a looping, retried or calling task may be reported as started again.",
  ["programs","fault_sequences"],
  "All small flows including skips, error branches, failures, handlers, loops and subflows, all orders of ready tasks.",
  "No test registers a listener.",
  ["instance/flowevents.go", "instance/taskevents.go", "support/event/flowevents.go"], [("flow events", "instance/flowevents.go:postFlowEvent"),("task events", "instance/taskevents.go:postTaskEvent")],
  None, ["engine event listeners"])

p("C19","Observing a run does not change it",
  "Turning on state recording in any mode, event listeners, tracing, debug logging or a test interceptor without any override never changes what a run does: the same activities run with the same inputs in the same order, and the caller gets the same result or error.",
  ["configurations","programs"],
  "All combinations of observation features times the bounded family of flows (all features).",
  "Tests run with all observation switched off.",
  [AC, IN, "instance/flowevents.go", "instance/recorder.go", "instance/instance_chg.go"], [("recording", "instance/recorder.go"),("events","instance/flowevents.go"),("interceptor coverage", II+":addActivityToCoverage")])

p("C20","A flow definition is loaded faithfully or rejected with an error",
  "Loading a flow definition either yields a definition whose tasks, links, kinds, conditions, loop and retry settings, metadata and error handler are exactly those described, or is rejected with an error that identifies the flow or part at fault; it never panics and never silently drops a part. A link naming an unknown task, an unknown activity, an unknown task type, or an invalid expression is always rejected.",
  ["inputs"],
  "All definitions of the bounded grammar with each field valid, absent, mistyped or dangling, up to two deviations at a time.",
  "Tests load a handful of well-formed definitions.",
  ["definition/definition_ser.go", "definition/definition.go", "support/resource.go"], [("construction", "definition/definition_ser.go:NewDefinition"),("panic barrier", "definition/definition_ser.go:NewDefinition")],
  None, ["definition accessors and returned error"])

p("C21","Flow lookup returns the right definition, loads it once and survives failures",
  "Looking up a flow by its URI returns the definition found at that URI and no other, loading it at most once however many lookups run at the same time, and all of them get it; a failed lookup reports an error, leaves nothing behind and a later lookup tries again. Plain and compressed content from files and HTTP is handled alike, and no content makes a lookup panic.",
  ["schedules","fault_sequences","inputs"],
  "All interleavings of up to three concurrent lookups over two URIs with every pattern of provider failures; all encodings and malformed contents of the bounded family for the built-in provider.",
  "No test covers the flow manager.",
  ["support/manager.go", "support/definition.go", "support/resource.go"], [("cache under lock", "support/manager.go:FlowManager.GetFlow"),("providers", "support/manager.go:BasicRemoteFlowProvider.GetFlow")],
  None, ["GetFlow/GetDefinition results and provider calls"])

p("C22","Test interceptors mock, skip, override and assert exactly what they name",
  "With an interceptor attached, a task it mocks is not executed and yields the mocked outputs or the mocked error, inputs it overrides replace the mapped ones, a task it skips is not executed but counts as done, and tasks it does not name behave as without it. Each assertion gets the result of its expression evaluated with the data right after its task, flow-output assertions likewise with the final data, and coverage lists exactly the executed (also mocked or skipped) activities, followed links and started subflows.",
  ["configurations","programs"],
  "All interceptor settings for one or two tasks (mock output, mock error, skip, input override, assertions true/false/invalid/empty of both types) times small flows with failures, branches and subflows.",
  "No test attaches an interceptor.",
  ["support/interceptor.go", "instance/util.go", TI, II, AC], [("mock and skip", TI+":EvalActivity"),("assertions", "instance/util.go:applyAssertionInterceptor"),("coverage", II+":addActivityToCoverage, instance/linkinst.go:addLinkToCoverage")],
  None, ["interceptor results and coverage after the run","activity invocations"])

p("C23","Concurrent task execution: no lost work, no race, one explicable outcome",
  "With concurrent task execution switched on, for every interleaving of the tasks of a flow and of its subflows: tasks that are ready are evaluated at the same time; each is executed exactly once, after the tasks that its links and mappings depend on, with the data these produced; the flow ends by itself (no deadlock, no lost task), exactly once, with an outcome that some order of its tasks gives under the rules of sequential execution; once the flow has failed, returned or begun to handle an error nothing new of it is started and what the activities still running bring is dropped; no two tasks access the state of the flow without order (which would end the process); and the limit of steps holds.",
  ["schedules","programs"],
  "All interleavings up to the preemption bound, at activities and locks and at every statement of the flow engine, of small flows with forks, joins, skipped branches, loops, retries, subflows, error handlers, returns, replies, attribute changes and failures.",
  "Tests never switch the mode on, and a race needs a particular interleaving.",
  [II, IN, "instance/taskinst.go", "instance/util.go"], [("evaluation outside of the lock", "instance/taskinst.go:evalUnlocked"),("parallel step loop", II+":DoStepInLoop")])

p("C24","On-demand flows run the packaged definition and report its result",
  "Running an on-demand flow executes exactly the definition in the package with inputs computed from the package's input mappings, first reports the instance id as a string when the flow has no explicit reply, then reports the flow's result or error exactly once and signals completion; a missing or malformed package or definition, or an input mapping that fails, is reported as an error and nothing runs.",
  ["inputs","fault_sequences"],
  "All packages of the bounded family (definitions with faults, mapping kinds, missing parts, subflows that fail).",
  "The existing test runs one package and does not check the outcome.",
  ["ondemand/action.go"], [("run", "ondemand/action.go:FlowAction.Run"),("mappings", "ondemand/action.go:ApplyMappings")])

p("C25","Tracing: every started span is finished exactly once, under the right parent",
  "With a tracer registered, each run starts one span for the flow, one for each subflow and one for each attempt of an activity, each under its flow's or calling task's span; every started span is finished exactly once, with an error exactly when that flow or attempt failed, and no later than the flow it belongs to reports its outcome. (Whether spans of work given up half-way, or of a flow that returns an error, count as failed is open.)",
  ["programs","fault_sequences"],
  "All small flows with failures, panics, retries, loops, handlers and subflows, faults at every position.",
  "No test registers a tracer.",
  [TI, II, TB, AC], [("task spans", TI+":EvalActivity, "+II+":execTask, handleTaskDone, handleTaskError"),("flow spans", AC+":FlowAction.Run")],
  None, ["tracer StartTrace/FinishTrace calls"])

p("C26","Detached subflows run on their own and never hold up or fail their parent",
  "A subflow task in detached mode starts the referenced flow with the mapped inputs as a separate run with its own instance id and continues at once; neither the detached run's duration, its result, its failure nor its step limit affects the parent's execution or outcome, and the triggering event id is passed on to it.",
  ["programs","schedules"],
  "All small parent/child pairs in detached mode with child success, failure and return, parent continuing, failing or ending first, in either order of the two runs.",
  "No test uses detached mode.",
  ["activity/subflow/activity.go", "instance/util.go", AC], [("detached start", "instance/util.go:StartDetachedSubFlow"),("early completion signal", AC+":FlowAction.Run")])

p("C27","The recorder is told of each run: start, every step, end; run options are kept",
  "With a state recorder, every run is announced once before anything of it is executed and its end is recorded once after everything, both naming the run, its flow and its inputs, the end with the status and outputs the caller is told; in between there is, as the recording mode says, a step and/or a snapshot for the start and for each step in order, the steps numbered from 0. The mode is that of the runtime settings, in their present or older form; one that does not exist is refused. A recorder that fails changes nothing. The options of a run are honoured and do not change what it executes: a requested id is reported first, a given instance id is used, rerun and original id appear in the records, a detached run signals completion at once and reports nothing; a run to be restarted or resumed without a state is refused.",
  ["programs","configurations","fault_sequences"],
  "All small flows times faults, returns and replies, in every recording mode however it is set, with a failing recorder and with step limits, under every run option.",
  "No test registers a recorder or passes run options.",
  [AC, "instance/recorder.go", II, "instance/exec.go", "state/recorder.go"], [("run options and envelope", AC+":FlowAction.Run"),("steps and snapshots", "instance/recorder.go:RecordState"),("summary of a run", II+":GetFlowState")],
  None, ["state.Recorder calls", "result handler calls"])

p("C28","The tester service starts, restarts and resumes flows as requested",
  "A request to start a flow runs the named flow exactly once, with the attrs of the request as inputs or, without attrs, its data, and is answered with the id of that run; what the flow does is the same as when it is run through the flow action. A request to restart a saved instance carries on from its state under a new id, one to resume it under its own id, with the data of the request replacing the flow's. A request that is malformed, names no known flow or brings no state is answered with a client error and nothing runs; no request leaves the service unanswering.",
  ["programs","inputs","crash_points"],
  "All small flows times faults, in every form of the request; the state at every step boundary; every prefix of a request, every member of every JSON type or missing; every sequence of two requests to the running server.",
  "The tester has no tests.",
  ["tester/service.go", "tester/request.go", "tester/server.go", AC], [("requests", "tester/request.go:RequestProcessor"),("handlers", "tester/service.go:RestFlowTester"),("server", "tester/server.go:Server")],
  None, ["HTTP answers", "state.Recorder calls", "activity invocations and their inputs"])

p("C29","Every task's activity has its own settings; values are held to their schemas",
  "Loading a flow makes, for every task whose activity is made by a factory (in the flow, its subflows and its error handler), one activity of its own, given that task's settings, evaluated and converted to their declared types; a flow with a setting that cannot be evaluated or converted, or whose activity cannot be made, is not loaded. Literal inputs are converted to the activity's declared types. A run calls each task's own activity. Reconfiguring a flow tells the activity of each task with settings its new settings (those not given stay as they are), no activity of another task or flow, and a task that cannot be reconfigured keeps no other from it. Cleaning up a flow cleans up each activity made for it once. With validation on, an input that its schema rejects fails the task before the activity is called, a rejected output fails it after, without giving outputs; the failure is handled like any other error of the task. With validation off schemas change nothing.",
  ["programs","histories","fault_sequences"],
  "All small flows times faults including schema failures; every schema rule, value, attempt and task shape; all settings of all tasks; all operation sequences (run, reconfigure, reload, clean up) up to a length.",
  "No test has two tasks with different settings, uses schemas, reconfigures or cleans up a flow.",
  ["definition/definition.go", "definition/definition_ser.go", "instance/taskinst.go"], [("activity of a task", "definition/definition_ser.go:createActivityConfig"),("reconfiguration and clean-up", "definition/definition.go:Reconfigure, Cleanup"),("schemas", "instance/taskinst.go:EvalActivity")],
  None, ["calls of the activities", "outcome of loading"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
