From a3cc2f5059462a2562656dcd60852471184469be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 01/68] fix: do not enter a task again that was decided while
 its siblings were entered

---
 instance/ind_instance.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 30df8b7..59ad3a1 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -725,10 +725,21 @@ func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []
 		defer inst.actSchedLock.Unlock()
 	}
 
-	for _, taskEntry := range taskEntries {
+	// Create all the task instances first: entering one of the tasks can skip (and release) others of
+	// these tasks, and must not complete the flow while there are still tasks to enter.
+	taskInsts := make([]*TaskInst, len(taskEntries))
+	for i, taskEntry := range taskEntries {
+		taskInsts[i], _ = activeInst.FindOrCreateTaskInst(taskEntry.Task)
+	}
+
+	for i, taskEntry := range taskEntries {
 		//logger.Debugf("EnterTask - TaskEntry: %v", taskEntry)
 		behavior := inst.flowModel.GetTaskBehavior(taskEntry.Task.TypeID())
-		taskInst, _ := activeInst.FindOrCreateTaskInst(taskEntry.Task)
+		taskInst := taskInsts[i]
+		if taskInst.status >= model.TaskStatusReady {
+			//already decided while one of the previous tasks was entered
+			continue
+		}
 		if inst.concurrentExec && taskInst.scheduled {
 			//task is already scheduled by other goroutine. Lets skip this task
 			continue
-- 
2.43.0


From 3f5c248007dc3bbcd2391265cf8997419db0c93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:52 +0000
Subject: [PATCH 02/68] fix: report a panicking link expression as an error
 instead of not following the link

---
 instance/taskinst.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index 1a921e4..93fe1e5 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -271,7 +271,7 @@ func (ti *TaskInst) EvalLink(link *definition.Link) (result bool, err error) {
 			ti.logger.Warnf("Unhandled Error evaluating link '%s' : %v\n", link.ID(), r)
 			ti.logger.Debugf("StackTrace: %s", debug.Stack())
 
-			if err != nil {
+			if err == nil {
 				err = fmt.Errorf("%v", r)
 			}
 		}
-- 
2.43.0


From 2df6970547b11e25bbb0b781049811e3450a25f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 03/68] fix: do not execute work of ended flows or of bodies
 abandoned for the error handler

---
 instance/ind_instance.go |  7 ++++++-
 instance/instance.go     | 21 +++++++++++++++++++++
 instance/taskinst.go     | 12 ++++++++++++
 3 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 59ad3a1..332fd38 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -421,6 +421,11 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 		}
 	}()
 
+	if taskInst.isAbandoned() {
+		// the flow of this task has ended or is handling an error, so there is nothing left to do for it
+		return
+	}
+
 	var err error
 	var evalResult model.EvalResult
 
@@ -681,7 +686,7 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 		// todo: should we clear out the existing workitem queue for items from containerInst?
 		inst.logger.Infof("Running flow [%s] failed, now handle error in the error handler", inst.flowDef.Name())
 		//clear existing instances
-		inst.taskInsts = make(map[string]*TaskInst)
+		containerInst.clearTasks()
 
 		taskEntries := flowBehavior.StartErrorHandler(containerInst)
 		err := inst.enterTasks(containerInst, taskEntries)
diff --git a/instance/instance.go b/instance/instance.go
index d1c855a..21cbd64 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -120,6 +120,27 @@ func (inst *Instance) FindOrCreateLinkData(link *definition.Link) (linkInst *Lin
 	return linkInst, created
 }
 
+// clearTasks abandons all the current tasks of the flow
+func (inst *Instance) clearTasks() {
+	if inst.lock != nil {
+		inst.lock.Lock()
+		defer inst.lock.Unlock()
+	}
+	for id := range inst.taskInsts {
+		inst.master.changeTracker.TaskRemoved(inst.subflowId, id)
+	}
+	inst.taskInsts = make(map[string]*TaskInst)
+}
+
+// isCurrent indicates if the specified TaskInst is still part of this active flow
+func (inst *Instance) isCurrent(taskInst *TaskInst) bool {
+	if inst.lock != nil {
+		inst.lock.RLock()
+		defer inst.lock.RUnlock()
+	}
+	return inst.status < model.FlowStatusCompleted && inst.taskInsts[taskInst.taskID] == taskInst
+}
+
 func (inst *Instance) releaseTask(task *definition.Task) {
 	if inst.lock != nil {
 		inst.lock.Lock()
diff --git a/instance/taskinst.go b/instance/taskinst.go
index 93fe1e5..b052dca 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -263,6 +263,18 @@ func (ti *TaskInst) GetToLinkInstances() []model.LinkInstance {
 	return nil
 }
 
+// isAbandoned indicates that the task should no longer be executed, because its flow, or one of the flows
+// that flow was started from, has ended or moved on without it
+func (ti *TaskInst) isAbandoned() bool {
+	for ti != nil {
+		if !ti.flowInst.isCurrent(ti) {
+			return true
+		}
+		ti, _ = ti.flowInst.host.(*TaskInst)
+	}
+	return false
+}
+
 // EvalLink implements activity.ActivityContext.EvalLink method
 func (ti *TaskInst) EvalLink(link *definition.Link) (result bool, err error) {
 
-- 
2.43.0


From f581bdc4bc7d44f287f486f36935ba3024475bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 04/68] fix: a failing error handler fails the flow and passes
 the error on

---
 instance/ind_instance.go | 73 +++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 42 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 332fd38..4011970 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -415,9 +415,8 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 			if !taskInst.flowInst.isHandlingError {
 
 				taskInst.appendErrorData(NewActivityEvalError(taskInst.task.Name(), "unhandled", err.Error()))
-				inst.HandleGlobalError(taskInst.flowInst, err)
 			}
-			// else what should we do?
+			inst.HandleGlobalError(taskInst.flowInst, err)
 		}
 	}()
 
@@ -635,28 +634,8 @@ func (inst *IndependentInstance) handleTaskError(taskBehavior model.TaskBehavior
 	} else {
 		if containerInst.isHandlingError {
 			//fail
-			containerInst.SetStatus(model.FlowStatusFailed)
-
-			if containerInst != inst.Instance {
-				// Complete SubflowCreated trace
-				if containerInst.tracingCtx != nil {
-					_ = trace.GetTracer().FinishTrace(containerInst.tracingCtx, err)
-				}
-
-				//Finished Subflow with error
-				if containerInst != nil && containerInst.master != nil {
-					containerInst.master.RecordState(time.Now().UTC())
-				}
-				// spawned from task instance
-				host, ok := containerInst.host.(*TaskInst)
-
-				if ok {
-					host.returnError = err
-					inst.scheduleEval(host)
-				}
-			} else {
-				taskInst.appendErrorData(err)
-			}
+			taskInst.appendErrorData(err)
+			inst.failFlow(containerInst, err)
 
 		} else {
 			taskInst.appendErrorData(err)
@@ -672,7 +651,7 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 
 	if containerInst.isHandlingError {
 		//todo: log error information
-		containerInst.SetStatus(model.FlowStatusFailed)
+		inst.failFlow(containerInst, err)
 		return
 	}
 
@@ -698,27 +677,37 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 	} else {
 		// Print error message if no error handler
 		inst.logger.Error(err)
-		containerInst.SetStatus(model.FlowStatusFailed)
+		inst.failFlow(containerInst, err)
+	}
+}
 
-		if containerInst != inst.Instance {
+// failFlow ends the flow with the specified error and passes the error on to what started the flow
+func (inst *IndependentInstance) failFlow(containerInst *Instance, err error) {
 
-			// Complete SubflowCreated trace
-			if containerInst.tracingCtx != nil {
-				_ = trace.GetTracer().FinishTrace(containerInst.tracingCtx, err)
-			}
+	if containerInst.Status() >= model.FlowStatusCompleted {
+		// the flow has already ended
+		return
+	}
 
-			if containerInst != nil && containerInst.master != nil {
-				containerInst.master.RecordState(time.Now().UTC())
-			}
-			// spawned from task instance
-			host, ok := containerInst.host.(*TaskInst)
+	containerInst.returnError = err
+	containerInst.SetStatus(model.FlowStatusFailed)
 
-			if ok {
-				host.returnError = err
-				inst.scheduleEval(host)
-			}
-		} else {
-			inst.returnError = err
+	if containerInst != inst.Instance {
+
+		// Complete SubflowCreated trace
+		if containerInst.tracingCtx != nil {
+			_ = trace.GetTracer().FinishTrace(containerInst.tracingCtx, err)
+		}
+
+		if containerInst.master != nil {
+			containerInst.master.RecordState(time.Now().UTC())
+		}
+		// spawned from task instance
+		host, ok := containerInst.host.(*TaskInst)
+
+		if ok {
+			host.returnError = err
+			inst.scheduleEval(host)
 		}
 	}
 }
-- 
2.43.0


From b157c9ef999a3dcece13633138b3848abad2b5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 05/68] fix: do not stall iterator and doWhile tasks that
 repeat a subflow

---
 model/simple/dowhilebehavior.go  | 2 +-
 model/simple/iteratorbehavior.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/model/simple/dowhilebehavior.go b/model/simple/dowhilebehavior.go
index 11b40ab..43ef871 100644
--- a/model/simple/dowhilebehavior.go
+++ b/model/simple/dowhilebehavior.go
@@ -63,7 +63,7 @@ func (dw *DoWhileTaskBehavior) PostEval(ctx model.TaskContext) (evalResult model
 		ctx.SetStatus(model.TaskStatusFailed)
 		return model.EvalFail, err
 	}
-	ctx.SetStatus(model.TaskStatusDone)
+	ctx.SetStatus(model.TaskStatusReady)
 	defer dw.updateDoWhileIndex(ctx)
 	return dw.checkDoWhileCondition(ctx)
 }
diff --git a/model/simple/iteratorbehavior.go b/model/simple/iteratorbehavior.go
index 89a23a3..a02e3ee 100644
--- a/model/simple/iteratorbehavior.go
+++ b/model/simple/iteratorbehavior.go
@@ -161,7 +161,7 @@ func (tb *IteratorTaskBehavior) PostEval(ctx model.TaskContext) (evalResult mode
 		ctx.SetStatus(model.TaskStatusFailed)
 		return model.EvalFail, err
 	}
-	ctx.SetStatus(model.TaskStatusDone)
+	ctx.SetStatus(model.TaskStatusReady)
 
 	itxAttr, _ := ctx.GetWorkingData("_iterator")
 	itx := itxAttr.(Iterator)
-- 
2.43.0


From d84b65648bbf0b5f2d270b79593e00406d9ebeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:50 +0000
Subject: [PATCH 06/68] fix: handle failing task settings as an error of the
 task instead of stalling the flow

---
 instance/ind_instance.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 4011970..fd8f28a 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -730,8 +730,8 @@ func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []
 		//logger.Debugf("EnterTask - TaskEntry: %v", taskEntry)
 		behavior := inst.flowModel.GetTaskBehavior(taskEntry.Task.TypeID())
 		taskInst := taskInsts[i]
-		if taskInst.status >= model.TaskStatusReady {
-			//already decided while one of the previous tasks was entered
+		if taskInst.status >= model.TaskStatusReady || !activeInst.isCurrent(taskInst) {
+			//already decided, or abandoned, while one of the previous tasks was entered
 			continue
 		}
 		if inst.concurrentExec && taskInst.scheduled {
@@ -743,7 +743,8 @@ func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []
 		if enterResult == model.EREval {
 			err := applySettingsMapper(taskInst)
 			if err != nil {
-				return err
+				inst.handleTaskError(behavior, taskInst, NewActivityEvalError(taskInst.task.Name(), "mapper", err.Error()))
+				continue
 			}
 			taskInst.scheduled = true
 			inst.scheduleEval(taskInst)
-- 
2.43.0


From 9199ba241b5d79ef314d15360afd104c3cea1c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:32 +0000
Subject: [PATCH 07/68] fix: do not accumulate an output of a previous
 iteration when an activity does not set it

---
 instance/taskinst.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index b052dca..8e8edc1 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -334,6 +334,9 @@ func (ti *TaskInst) EvalActivity() (done bool, evalErr error) {
 
 	eval := true
 
+	// outputs of a previous iteration or attempt are not outputs of this one
+	ti.outputs = nil
+
 	// Start Trace
 	if trace.Enabled() {
 		ti.traceContext, _ = trace.GetTracer().StartTrace(ti.SpanConfig(), ti.flowInst.tracingCtx)
-- 
2.43.0


From e73bcf1498b65e9318ac1416aebfa61baa1c96be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:32 +0000
Subject: [PATCH 08/68] fix: handle a doWhile condition that is not a boolean
 as an error of the task

---
 model/simple/dowhilebehavior.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/model/simple/dowhilebehavior.go b/model/simple/dowhilebehavior.go
index 43ef871..8cdce8a 100644
--- a/model/simple/dowhilebehavior.go
+++ b/model/simple/dowhilebehavior.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/project-flogo/core/activity"
 	"github.com/project-flogo/core/data"
+	"github.com/project-flogo/core/data/coerce"
 	"github.com/project-flogo/core/data/expression"
 	"github.com/project-flogo/flow/instance"
 	"github.com/project-flogo/flow/model"
@@ -84,7 +85,11 @@ func (dw *DoWhileTaskBehavior) evaluateCondition(ctx model.TaskContext, conditio
 		if err != nil {
 			return model.EvalFail, err
 		}
-		if result.(bool) {
+		repeat, err := coerce.ToBool(result)
+		if err != nil {
+			return model.EvalFail, err
+		}
+		if repeat {
 			delay := ctx.Task().LoopConfig().Delay()
 			if delay > 0 {
 				ctx.FlowLogger().Infof("Dowhile Task[%s] execution delaying for %d milliseconds...", ctx.Task().ID(), delay)
-- 
2.43.0


From 55c889d7d7f9643d510f098604f744fe8538260b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:32 +0000
Subject: [PATCH 09/68] fix: make outputs of a subflow in an accumulating
 doWhile task visible to its condition

---
 instance/taskinst.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index 8e8edc1..f3fd46d 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -527,6 +527,13 @@ func (ti *TaskInst) PostEvalActivity() (done bool, evalErr error) {
 			if err := ti.handleAccumulation(); err != nil {
 				return false, err
 			}
+
+			if cfg.ApplyOutputOnAccumulate() {
+				err = ti.applyOutputMapper()
+				if err != nil {
+					return done, err
+				}
+			}
 		} else if ti.task.ActivityConfig().OutputMapper() != nil {
 			appliedMapper, err := applyOutputMapper(ti)
 
-- 
2.43.0


From c8bb2c7e7fdcace6cef2978187b7d89bf647ed30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 10/68] fix: return the value the flow holds for a declared
 output, not the output's declared or zero value

---
 instance/instance.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/instance/instance.go b/instance/instance.go
index 21cbd64..c7cef81 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -200,8 +200,7 @@ func (inst *Instance) GetReturnData() (map[string]interface{}, error) {
 				piAttr, exists := inst.attrs[name]
 				if exists {
 					inst.returnData[name] = piAttr
-				}
-				if md.Output[name].Value() != nil {
+				} else if md.Output[name].Value() != nil {
 					inst.returnData[name] = md.Output[name].Value()
 				}
 			}
-- 
2.43.0


From d5391a5aa138c983d46c29c29657e3e30a8b13fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:10 +0000
Subject: [PATCH 11/68] fix: observing a flow's result must not freeze it or
 make it an explicit return

---
 instance/instance.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/instance/instance.go b/instance/instance.go
index c7cef81..d0c4e30 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -188,26 +188,28 @@ func (inst *Instance) GetError() error {
 
 func (inst *Instance) GetReturnData() (map[string]interface{}, error) {
 
-	if inst.returnData == nil {
+	returnData := inst.returnData
 
-		//construct returnData from instance attributes
+	if returnData == nil {
+
+		//construct returnData from instance attributes, without keeping it, as these can still change
 		md := inst.flowDef.Metadata()
 
 		if md != nil && md.Output != nil {
 
-			inst.returnData = make(map[string]interface{})
+			returnData = make(map[string]interface{})
 			for name := range md.Output {
 				piAttr, exists := inst.attrs[name]
 				if exists {
-					inst.returnData[name] = piAttr
+					returnData[name] = piAttr
 				} else if md.Output[name].Value() != nil {
-					inst.returnData[name] = md.Output[name].Value()
+					returnData[name] = md.Output[name].Value()
 				}
 			}
 		}
 	}
 
-	return inst.returnData, inst.returnError
+	return returnData, inst.returnError
 }
 
 /////////////////////////////////////////
-- 
2.43.0


From 257711e4a95b321857335d048f66a6b55f367208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:51 +0000
Subject: [PATCH 12/68] fix: report a flow's own failure when it fails in the
 last permitted step, and any limit that is exceeded

---
 action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/action.go b/action.go
index bb95e26..6a2c8dc 100644
--- a/action.go
+++ b/action.go
@@ -393,7 +393,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 					inst.RecordState(taskStartTime)
 				}
 			}
-			if stepCount == maxStepCount && inst.Status() != model.FlowStatusCompleted {
+			if stepCount >= maxStepCount && inst.Status() < model.FlowStatusCompleted {
 				err := fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv)
 				if inst.TracingContext() != nil {
 					_ = trace.GetTracer().FinishTrace(inst.TracingContext(), err)
-- 
2.43.0


From 75acab9df2bd06a117c20614604cab031aa3bbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 13/68] fix: do not fail flows whose interceptor has no
 coverage

---
 support/interceptor.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/support/interceptor.go b/support/interceptor.go
index c8dddb6..2c8d469 100644
--- a/support/interceptor.go
+++ b/support/interceptor.go
@@ -55,14 +55,26 @@ func (pi *Interceptor) GetTaskInterceptor(taskID string) *TaskInterceptor {
 }
 
 func (pi *Interceptor) AddToActivityCoverage(coverage ActivityCoverage) {
+	if pi.Coverage == nil {
+		// coverage isn't collected
+		return
+	}
 	pi.Coverage.ActivityCoverage = append(pi.Coverage.ActivityCoverage, &coverage)
 }
 
 func (pi *Interceptor) AddToSubFlowCoverage(coverage SubFlowCoverage) {
+	if pi.Coverage == nil {
+		// coverage isn't collected
+		return
+	}
 	pi.Coverage.SubFlowCoverage = append(pi.Coverage.SubFlowCoverage, &coverage)
 }
 
 func (pi *Interceptor) AddToLinkCoverage(coverage TransitionCoverage) {
+	if pi.Coverage == nil {
+		// coverage isn't collected
+		return
+	}
 	pi.Coverage.TransitionCoverage = append(pi.Coverage.TransitionCoverage, &coverage)
 }
 
-- 
2.43.0


From 3e747bdd14113ed762edb22455dc80ecf6b1c8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 14/68] fix: report parent, inputs and outputs of flows
 correctly in flow events

---
 instance/flowevents.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/instance/flowevents.go b/instance/flowevents.go
index 764886d..655fe0a 100644
--- a/instance/flowevents.go
+++ b/instance/flowevents.go
@@ -82,6 +82,8 @@ func postFlowEvent(inst *Instance) {
 		taskInst, ok := inst.host.(*TaskInst)
 		if ok {
 			fe.hostTask = event.HostTask{TaskName: taskInst.Name(), TaskInstanceId: taskInst.InstanceId()}
+			fe.parentName = taskInst.flowInst.Name()
+			fe.parentId = taskInst.flowInst.ID()
 		}
 
 		fe.status = convertFlowStatus(inst.Status())
@@ -94,16 +96,18 @@ func postFlowEvent(inst *Instance) {
 			outData, _ := inst.GetReturnData()
 			if attrs != nil && len(attrs) > 0 {
 				for name, attVal := range attrs {
-					if outData != nil && outData[name] != nil {
-						if fe.status == event.COMPLETED {
-							fe.output[name] = attVal
-						}
+					if fe.status != event.STARTED && outData != nil && outData[name] != nil {
 						// Since same attribute map is used for input and output, filter output attributes
 						continue
 					}
 					fe.input[name] = attVal
 				}
 			}
+			if fe.status == event.COMPLETED {
+				for name, value := range outData {
+					fe.output[name] = value
+				}
+			}
 		}
 
 		if fe.status == event.FAILED {
-- 
2.43.0


From a167da50fbd98d71ac290ce6beac3547746811a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 15/68] fix: post one failed event, with its error, for a
 failing task and no duplicates of task events

---
 instance/ind_instance.go         | 1 +
 instance/taskinst.go             | 5 ++++-
 model/simple/dowhilebehavior.go  | 2 --
 model/simple/iteratorbehavior.go | 2 --
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index fd8f28a..6e61da3 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -612,6 +612,7 @@ func (inst *IndependentInstance) handleTaskError(taskBehavior model.TaskBehavior
 		_ = trace.GetTracer().FinishTrace(taskInst.traceContext, err)
 	}
 	// Set task status to failed for subflow activity
+	taskInst.returnError = err
 	taskInst.SetStatus(model.TaskStatusFailed)
 
 	inst.addActivityToCoverage(taskInst, err)
diff --git a/instance/taskinst.go b/instance/taskinst.go
index f3fd46d..72d76c7 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -173,9 +173,12 @@ func (ti *TaskInst) Status() model.TaskStatus {
 
 // SetStatus implements flow.TaskContext.SetStatus
 func (ti *TaskInst) SetStatus(status model.TaskStatus) {
+	changed := ti.status != status
 	ti.status = status
 	ti.flowInst.master.changeTracker.TaskUpdated(ti)
-	postTaskEvent(ti)
+	if changed {
+		postTaskEvent(ti)
+	}
 }
 
 // UpdateTaskToTracker update task to tracker
diff --git a/model/simple/dowhilebehavior.go b/model/simple/dowhilebehavior.go
index 8cdce8a..b9594b6 100644
--- a/model/simple/dowhilebehavior.go
+++ b/model/simple/dowhilebehavior.go
@@ -39,7 +39,6 @@ func (dw *DoWhileTaskBehavior) Eval(ctx model.TaskContext) (evalResult model.Eva
 	if err != nil {
 		ref := activity.GetRef(ctx.Task().ActivityConfig().Activity)
 		ctx.FlowLogger().Errorf("Error evaluating activity '%s'[%s] - %s", ctx.Task().ID(), ref, err.Error())
-		ctx.SetStatus(model.TaskStatusFailed)
 		return model.EvalFail, err
 	}
 
@@ -61,7 +60,6 @@ func (dw *DoWhileTaskBehavior) PostEval(ctx model.TaskContext) (evalResult model
 	if err != nil {
 		ref := activity.GetRef(ctx.Task().ActivityConfig().Activity)
 		ctx.FlowLogger().Errorf("Error post evaluating activity '%s'[%s] - %s", ctx.Task().ID(), ref, err.Error())
-		ctx.SetStatus(model.TaskStatusFailed)
 		return model.EvalFail, err
 	}
 	ctx.SetStatus(model.TaskStatusReady)
diff --git a/model/simple/iteratorbehavior.go b/model/simple/iteratorbehavior.go
index a02e3ee..382e4a0 100644
--- a/model/simple/iteratorbehavior.go
+++ b/model/simple/iteratorbehavior.go
@@ -127,7 +127,6 @@ func (tb *IteratorTaskBehavior) Eval(ctx model.TaskContext) (evalResult model.Ev
 		if err != nil {
 			ref := activity.GetRef(ctx.Task().ActivityConfig().Activity)
 			ctx.FlowLogger().Errorf("Error evaluating activity '%s'[%s] - %s", ctx.Task().ID(), ref, err.Error())
-			ctx.SetStatus(model.TaskStatusFailed)
 			return model.EvalFail, err
 		}
 
@@ -158,7 +157,6 @@ func (tb *IteratorTaskBehavior) PostEval(ctx model.TaskContext) (evalResult mode
 	if err != nil {
 		ref := activity.GetRef(ctx.Task().ActivityConfig().Activity)
 		ctx.FlowLogger().Errorf("Error post evaluating activity '%s'[%s] - %s", ctx.Task().ID(), ref, err.Error())
-		ctx.SetStatus(model.TaskStatusFailed)
 		return model.EvalFail, err
 	}
 	ctx.SetStatus(model.TaskStatusReady)
-- 
2.43.0


From 39b2c41bb11df76644eea76f3fbff509df247a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 16/68] fix: end a flow that exceeds the step limit as failed

---
 action.go                | 12 ++----------
 instance/ind_instance.go |  5 +++++
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/action.go b/action.go
index 6a2c8dc..d0e8a26 100644
--- a/action.go
+++ b/action.go
@@ -377,11 +377,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 			err := inst.DoStepInLoop()
 			if err != nil && inst.Status() != model.FlowStatusCompleted {
 				err := fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv)
-				if inst.TracingContext() != nil {
-					_ = trace.GetTracer().FinishTrace(inst.TracingContext(), err)
-				}
-				handler.HandleResult(nil, err)
-				return
+				inst.Fail(err)
 			}
 		} else {
 			for hasWork && inst.Status() < model.FlowStatusCompleted && stepCount < maxStepCount {
@@ -395,11 +391,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 			}
 			if stepCount >= maxStepCount && inst.Status() < model.FlowStatusCompleted {
 				err := fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv)
-				if inst.TracingContext() != nil {
-					_ = trace.GetTracer().FinishTrace(inst.TracingContext(), err)
-				}
-				handler.HandleResult(nil, err)
-				return
+				inst.Fail(err)
 			}
 		}
 
diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 6e61da3..278a3ac 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -682,6 +682,11 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 	}
 }
 
+// Fail ends the flow with an error that none of its tasks has raised, e.g. when it exceeds the step limit
+func (inst *IndependentInstance) Fail(err error) {
+	inst.failFlow(inst.Instance, err)
+}
+
 // failFlow ends the flow with the specified error and passes the error on to what started the flow
 func (inst *IndependentInstance) failFlow(containerInst *Instance, err error) {
 
-- 
2.43.0


From 5b416ded013eb643c30ffcce417b59c26ce42ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 17/68] fix: complete the traces of running tasks and subflows
 when a flow exceeds the step limit

---
 instance/ind_instance.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 278a3ac..ebb416e 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -684,9 +684,28 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 
 // Fail ends the flow with an error that none of its tasks has raised, e.g. when it exceeds the step limit
 func (inst *IndependentInstance) Fail(err error) {
+	// Complete the traces of the subflows and tasks that are still running
+	inst.finishTaskTraces(inst.Instance, err)
+	for _, subflow := range inst.subflows {
+		if subflow.Status() < model.FlowStatusCompleted {
+			inst.finishTaskTraces(subflow, err)
+			if subflow.tracingCtx != nil {
+				_ = trace.GetTracer().FinishTrace(subflow.tracingCtx, err)
+			}
+		}
+	}
 	inst.failFlow(inst.Instance, err)
 }
 
+// finishTaskTraces completes the traces of the tasks of the specified flow that are waiting for their subflow
+func (inst *IndependentInstance) finishTaskTraces(containerInst *Instance, err error) {
+	for _, taskInst := range containerInst.taskInsts {
+		if taskInst.Status() == model.TaskStatusWaiting && taskInst.traceContext != nil {
+			_ = trace.GetTracer().FinishTrace(taskInst.traceContext, err)
+		}
+	}
+}
+
 // failFlow ends the flow with the specified error and passes the error on to what started the flow
 func (inst *IndependentInstance) failFlow(containerInst *Instance, err error) {
 
-- 
2.43.0


From 388b9e4546edd35f3fd419590028d9be6d520a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:54 +0000
Subject: [PATCH 18/68] fix: report one outcome when the assertions on a failed
 flow's exception stand for its error

---
 action.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/action.go b/action.go
index d0e8a26..36725db 100644
--- a/action.go
+++ b/action.go
@@ -417,8 +417,9 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 			// The testcase will be passed or failed based on the assertions executed.
 			if hasFlowExceptionAssert {
 				handler.HandleResult(nil, nil)
+			} else {
+				handler.HandleResult(nil, inst.GetError())
 			}
-			handler.HandleResult(nil, inst.GetError())
 		}
 
 		logger.Debugf("Executing flow instance [%s] for event id [%s] - Status: %d", inst.ID(), trigger.GetHandlerEventIdFromContext(ctx), inst.Status())
-- 
2.43.0


From 5b1942afc20cfbfa198e673e6c7b28f954d65e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:54 +0000
Subject: [PATCH 19/68] fix: apply an interceptor's inputs and skip to the task
 it names by flow and task

---
 instance/util.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/instance/util.go b/instance/util.go
index 1749626..56f185b 100644
--- a/instance/util.go
+++ b/instance/util.go
@@ -88,7 +88,10 @@ func applyInputInterceptor(taskInst *TaskInst) bool {
 	if master.interceptor != nil {
 
 		// check if this task as an interceptor
-		taskInterceptor := master.interceptor.GetTaskInterceptor(taskInst.task.ID())
+		taskInterceptor := master.interceptor.GetTaskInterceptor(taskInst.flowInst.Name() + "-" + taskInst.task.ID())
+		if taskInterceptor == nil || (len(taskInterceptor.Inputs) == 0 && !taskInterceptor.Skip) {
+			taskInterceptor = master.interceptor.GetTaskInterceptor(taskInst.task.ID())
+		}
 		if taskInterceptor != nil {
 
 			taskInst.logger.Debug("Applying Interceptor - Input")
-- 
2.43.0


From f4ca3264106017513ac27916450d73958af7a742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 20/68] fix: attribute activity coverage to the flow of the
 task, not to the main flow

---
 instance/ind_instance.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index ebb416e..31411f3 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -795,8 +795,8 @@ func (inst *IndependentInstance) addActivityToCoverage(taskInst *TaskInst, err e
 	if inst.GetInterceptor().CollectIO {
 		outputs := taskInst.outputs
 		if outputs == nil {
-			if inst.returnData != nil {
-				outputs = inst.returnData
+			if taskInst.flowInst.returnData != nil {
+				outputs = taskInst.flowInst.returnData
 			}
 		}
 		coverage = flowsupport.ActivityCoverage{
@@ -807,13 +807,13 @@ func (inst *IndependentInstance) addActivityToCoverage(taskInst *TaskInst, err e
 			Outputs:      outputs,
 			Error:        errorObj,
 			FlowName:     taskInst.flowInst.Name(),
-			IsMainFlow:   !inst.isHandlingError,
+			IsMainFlow:   !taskInst.flowInst.isHandlingError,
 		}
 	} else {
 		coverage = flowsupport.ActivityCoverage{
 			ActivityName: taskInst.taskID,
 			FlowName:     taskInst.flowInst.Name(),
-			IsMainFlow:   !inst.isHandlingError,
+			IsMainFlow:   !taskInst.flowInst.isHandlingError,
 		}
 	}
 
-- 
2.43.0


From a7466ea878fb6078651861cfa1fb3de489dfef73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:46 +0000
Subject: [PATCH 21/68] fix: reject a loop condition that is not a string or an
 empty iterateOn instead of panicking

---
 definition/definition_ser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/definition/definition_ser.go b/definition/definition_ser.go
index 010a65a..44acaac 100644
--- a/definition/definition_ser.go
+++ b/definition/definition_ser.go
@@ -542,8 +542,11 @@ func getLoopCfgDef(setting interface{}, ef expression.Factory) (*LoopConfig, err
 
 	loopConf := &LoopConfig{}
 	condition, exist := settingMap["condition"]
-	if exist && len(condition.(string)) > 0 {
-		conditionStr := condition.(string)
+	if exist && condition != nil && condition != "" {
+		conditionStr, ok := condition.(string)
+		if !ok {
+			return nil, fmt.Errorf("loop condition must be an expression")
+		}
 		if conditionStr[0] == '=' {
 			conditionStr = conditionStr[1:]
 		}
@@ -563,6 +566,9 @@ func getLoopCfgDef(setting interface{}, ef expression.Factory) (*LoopConfig, err
 	if exist && iterateOn != nil {
 		iteraterOnStr, ok := iterateOn.(string)
 		if ok {
+			if iteraterOnStr == "" {
+				return nil, fmt.Errorf("loop iterateOn is empty")
+			}
 			if iteraterOnStr[0] == '=' {
 				iteraterOnStr = iteraterOnStr[1:]
 			}
-- 
2.43.0


From 6d66ea38172bac752152fc4c53281f2f24aed603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:01 +0000
Subject: [PATCH 22/68] fix: reject a loop whose accumulate setting is not a
 boolean instead of ignoring it

---
 definition/definition_ser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/definition/definition_ser.go b/definition/definition_ser.go
index 44acaac..bc1e0ea 100644
--- a/definition/definition_ser.go
+++ b/definition/definition_ser.go
@@ -516,7 +516,10 @@ func getLoopCfg(settings map[string]interface{}, taskType string, ef expression.
 	} else if setting, ok := settings["doWhile"]; ok {
 		loopConfig, err = getLoopCfgDef(setting, ef)
 		if accum, ok := settings["accumulate"]; loopConfig != nil && ok {
-			loopConfig.accumulate, _ = coerce.ToBool(accum)
+			loopConfig.accumulate, err = coerce.ToBool(accum)
+			if err != nil {
+				return nil, fmt.Errorf("loop accumulate must be a boolean")
+			}
 		}
 	} else {
 		loopConfig, err = getLoopCfgDef(settings, ef)
@@ -600,7 +603,10 @@ func getLoopCfgDef(setting interface{}, ef expression.Factory) (*LoopConfig, err
 
 	accumulateOutput, ok := settingMap["accumulate"]
 	if ok {
-		loopConf.accumulate, _ = coerce.ToBool(accumulateOutput)
+		loopConf.accumulate, err = coerce.ToBool(accumulateOutput)
+		if err != nil {
+			return nil, fmt.Errorf("loop accumulate must be a boolean")
+		}
 	}
 
 	if loopConf.condition == nil && loopConf.iterateOn == nil {
-- 
2.43.0


From 006f5c077e2b83a88601ea4ad4715a1713c1494a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:01 +0000
Subject: [PATCH 23/68] fix: reject a flow with two tasks of the same id
 instead of dropping one of them

---
 definition/definition_ser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/definition/definition_ser.go b/definition/definition_ser.go
index bc1e0ea..e4bf795 100644
--- a/definition/definition_ser.go
+++ b/definition/definition_ser.go
@@ -81,6 +81,9 @@ func NewDefinition(rep *DefinitionRep) (def *Definition, err error) {
 			if err != nil {
 				return nil, fmt.Errorf("error creating task [%s] in flow [%s]: %s", taskRep.ID, rep.Name, err.Error())
 			}
+			if _, exists := def.tasks[task.id]; exists {
+				return nil, fmt.Errorf("duplicate task [%s] in flow [%s]", task.id, rep.Name)
+			}
 			def.tasks[task.id] = task
 		}
 	}
@@ -120,6 +123,9 @@ func NewDefinition(rep *DefinitionRep) (def *Definition, err error) {
 				if err != nil {
 					return nil, fmt.Errorf("error creating task [%s] in flow [%s]'s error handler:%s", taskRep.ID, rep.Name, err.Error())
 				}
+				if _, exists := errorHandler.tasks[task.id]; exists {
+					return nil, fmt.Errorf("duplicate task [%s] in flow [%s]'s error handler", task.id, rep.Name)
+				}
 				errorHandler.tasks[task.id] = task
 			}
 		}
-- 
2.43.0


From 2d474e7972f14aafaa8ba6c3f819ec5dd4b19d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 24/68] fix: name the flow resource in every error of loading
 it, and do not panic on malformed metadata

---
 support/resource.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/support/resource.go b/support/resource.go
index 6cb1d98..7bfd5e1 100644
--- a/support/resource.go
+++ b/support/resource.go
@@ -15,20 +15,27 @@ const (
 type FlowLoader struct {
 }
 
-func (*FlowLoader) LoadResource(config *resource.Config) (*resource.Resource, error) {
+func (*FlowLoader) LoadResource(config *resource.Config) (res *resource.Resource, err error) {
+
+	defer func() {
+		if r := recover(); r != nil {
+			res, err = nil, fmt.Errorf("error loading flow resource with id '%s': %v", config.ID, r)
+		}
+	}()
+
 	var flowDefBytes []byte
 
 	flowDefBytes = config.Data
 
 	var defRep *definition.DefinitionRep
-	err := json.Unmarshal(flowDefBytes, &defRep)
+	err = json.Unmarshal(flowDefBytes, &defRep)
 	if err != nil {
 		return nil, fmt.Errorf("error loading flow resource with id '%s': %s", config.ID, err.Error())
 	}
 
 	flow, err := materializeFlow(defRep)
 	if err != nil {
-		return nil, err
+		return nil, fmt.Errorf("error loading flow resource with id '%s': %w", config.ID, err)
 	}
 
 	return resource.New(ResTypeFlow, flow), nil
-- 
2.43.0


From da52e59385e79c104b4f4cea03952c2ecb1bb252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:54 +0000
Subject: [PATCH 25/68] fix: recognise compressed flow files and do not panic
 on files of less than three bytes

---
 support/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/manager.go b/support/manager.go
index 558495d..125b739 100644
--- a/support/manager.go
+++ b/support/manager.go
@@ -91,7 +91,7 @@ func (fp *BasicRemoteFlowProvider) GetFlow(flowURI string) (*definition.Definiti
 			logger.Errorf(readErr.Error())
 			return nil, readErr
 		}
-		if readBytes[0] == 0x1f && readBytes[2] == 0x8b {
+		if len(readBytes) > 1 && readBytes[0] == 0x1f && readBytes[1] == 0x8b {
 			flowDefBytes, err = unzip(readBytes)
 			if err != nil {
 				decompressErr := fmt.Errorf("error uncompressing flow with uri '%s', %s", flowURI, err.Error())
-- 
2.43.0


From 5f8b4f2784fa88eef3b16b4d14dfff2c9509bc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:55 +0000
Subject: [PATCH 26/68] fix: report an invalid flow URI instead of panicking

---
 support/manager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/support/manager.go b/support/manager.go
index 125b739..0f6b2cd 100644
--- a/support/manager.go
+++ b/support/manager.go
@@ -105,6 +105,11 @@ func (fp *BasicRemoteFlowProvider) GetFlow(flowURI string) (*definition.Definiti
 
 	} else if strings.HasPrefix(flowURI, uriSchemeHttp) {
 		req, err := http.NewRequest("GET", flowURI, nil)
+		if err != nil {
+			getErr := fmt.Errorf("error getting flow with uri '%s', %s", flowURI, err.Error())
+			logger.Errorf(getErr.Error())
+			return nil, getErr
+		}
 		client := &http.Client{}
 		resp, err := client.Do(req)
 		if err != nil {
-- 
2.43.0


From 9db282b6026a02f3af3bf4960f3acc82170c03e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:55 +0000
Subject: [PATCH 27/68] fix: report an error in the encoding of a compressed
 flow instead of ignoring it

---
 support/manager.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/support/manager.go b/support/manager.go
index 0f6b2cd..7a1a1fa 100644
--- a/support/manager.go
+++ b/support/manager.go
@@ -163,7 +163,10 @@ func (fp *BasicRemoteFlowProvider) GetFlow(flowURI string) (*definition.Definiti
 
 func decodeAndUnzip(encoded string) ([]byte, error) {
 
-	decoded, _ := base64.StdEncoding.DecodeString(encoded)
+	decoded, err := base64.StdEncoding.DecodeString(encoded)
+	if err != nil {
+		return nil, err
+	}
 	return unzip(decoded)
 }
 
-- 
2.43.0


From 815c09145a5d50bdf5615a797ae5d2e004b4e51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:41 +0000
Subject: [PATCH 28/68] fix: do not panic on malformed metadata of a remote
 flow

---
 support/manager.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/support/manager.go b/support/manager.go
index 7a1a1fa..69803c5 100644
--- a/support/manager.go
+++ b/support/manager.go
@@ -74,10 +74,16 @@ type BasicRemoteFlowProvider struct {
 	logger log.Logger
 }
 
-func (fp *BasicRemoteFlowProvider) GetFlow(flowURI string) (*definition.DefinitionRep, error) {
+func (fp *BasicRemoteFlowProvider) GetFlow(flowURI string) (flow *definition.DefinitionRep, err error) {
 
 	logger := fp.logger
 
+	defer func() {
+		if r := recover(); r != nil {
+			flow, err = nil, fmt.Errorf("error loading flow with uri '%s', %v", flowURI, r)
+		}
+	}()
+
 	var flowDefBytes []byte
 
 	if strings.HasPrefix(flowURI, uriSchemeFile) {
@@ -151,8 +157,7 @@ func (fp *BasicRemoteFlowProvider) GetFlow(flowURI string) (*definition.Definiti
 		return nil, fmt.Errorf("unsupport uri %s", flowURI)
 	}
 
-	var flow *definition.DefinitionRep
-	err := json.Unmarshal(flowDefBytes, &flow)
+	err = json.Unmarshal(flowDefBytes, &flow)
 	if err != nil {
 		logger.Errorf(err.Error())
 		return nil, fmt.Errorf("error marshalling flow with uri '%s', %s", flowURI, err.Error())
-- 
2.43.0


From bf2d32eca65d12d5f6d2ec52af8d39f8c2865f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:42 +0000
Subject: [PATCH 29/68] fix: name the URI in errors of building a remote flow

---
 support/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/manager.go b/support/manager.go
index 69803c5..66f8bdf 100644
--- a/support/manager.go
+++ b/support/manager.go
@@ -61,7 +61,7 @@ func (fm *FlowManager) GetFlow(uri string) (*definition.Definition, error) {
 
 		flow, err = materializeFlow(defRep)
 		if err != nil {
-			return nil, err
+			return nil, fmt.Errorf("error loading flow with uri '%s': %w", uri, err)
 		}
 
 		fm.remoteFlows[uri] = flow
-- 
2.43.0


From 9acba25d31c362110460a751a623ab1516057968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:29 +0000
Subject: [PATCH 30/68] fix: report the id of an on-demand flow instance, not
 the method returning it

---
 ondemand/action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index f44798a..05ee335 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -228,7 +228,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 
 			results := make(map[string]interface{})
 
-			results["id"] = inst.ID
+			results["id"] = inst.ID()
 
 			handler.HandleResult(results, nil)
 		}
-- 
2.43.0


From 3e9af15915cc22b7ba0266f13729840e35db83f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:29 +0000
Subject: [PATCH 31/68] fix: do not panic when a subflow fails in a flow
 without a state recorder

---
 instance/recorder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/instance/recorder.go b/instance/recorder.go
index 7e21f27..04c45bd 100644
--- a/instance/recorder.go
+++ b/instance/recorder.go
@@ -20,6 +20,11 @@ func NewStateInstanceRecorder(recorder state.Recorder, mod state.RecordingMode,
 }
 
 func (inst *IndependentInstance) RecordState(strtTime time.Time) error {
+	if inst.instRecorder == nil || inst.instRecorder.externalRecorder == nil {
+		// nothing to record to, e.g. on-demand flows
+		return nil
+	}
+
 	if state.RecordSnapshot(inst.instRecorder.mod) {
 		err := inst.instRecorder.externalRecorder.RecordSnapshot(inst.Snapshot())
 		if err != nil {
-- 
2.43.0


From 64fea8351fbb02f1a570503fef3279104b0a3240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:29 +0000
Subject: [PATCH 32/68] fix: report failing input mappings of an on-demand
 flow, and accept a package without input mappings

---
 ondemand/action.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index 05ee335..4208fa0 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -284,10 +284,12 @@ func ApplyMappings(mappings map[string]interface{}, inputs map[string]interface{
 	if err != nil {
 		return nil, err
 	}
+	if m == nil {
+		// no mappings
+		return nil, nil
+	}
 
 	inScope := data.NewSimpleScope(inputs, nil)
 
-	out, _ := m.Apply(inScope)
-
-	return out, nil
+	return m.Apply(inScope)
 }
-- 
2.43.0


From 89a45615b3c3425deb5a00e3690239206b227b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:29 +0000
Subject: [PATCH 33/68] fix: report a flow package that is not JSON instead of
 panicking

---
 ondemand/action.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index 4208fa0..2a9f01c 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -179,7 +179,10 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 
 	if exists {
 
-		raw := fpAttr.(json.RawMessage)
+		raw, ok := fpAttr.(json.RawMessage)
+		if !ok {
+			return fmt.Errorf("invalid flow package: expected JSON but got %T", fpAttr)
+		}
 		err := json.Unmarshal(raw, flowPackage)
 		if err != nil {
 			return err
-- 
2.43.0


From 9bbefd30efeac58cccac52065fb808b9bcf63143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:13 +0000
Subject: [PATCH 34/68] fix: report input mappings of an on-demand flow that
 panic as an error

---
 ondemand/action.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index 2a9f01c..075ac1c 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -279,7 +279,13 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 	return nil
 }
 
-func ApplyMappings(mappings map[string]interface{}, inputs map[string]interface{}) (map[string]interface{}, error) {
+func ApplyMappings(mappings map[string]interface{}, inputs map[string]interface{}) (out map[string]interface{}, err error) {
+
+	defer func() {
+		if r := recover(); r != nil {
+			out, err = nil, fmt.Errorf("error applying input mappings: %v", r)
+		}
+	}()
 
 	mapperFactory := mapper.NewFactory(resolve.GetBasicResolver())
 
-- 
2.43.0


From 37baa0f9c03b314c3b1ce14068de41bec72c29e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:19 +0000
Subject: [PATCH 35/68] fix: reject a task without an activity instead of
 panicking when it is entered

---
 definition/definition_ser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/definition/definition_ser.go b/definition/definition_ser.go
index e4bf795..eda9b5a 100644
--- a/definition/definition_ser.go
+++ b/definition/definition_ser.go
@@ -193,6 +193,8 @@ func createTask(def *Definition, rep *TaskRep, ef expression.Factory) (*Task, er
 		}
 
 		task.activityCfg = actCfg
+	} else {
+		return nil, errors.New("no activity specified")
 	}
 
 	return task, nil
-- 
2.43.0


From dbf274f22c5333b54cec0656658788a69b508139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:10 +0000
Subject: [PATCH 36/68] fix: report one outcome of an on-demand flow that fails
 in the last permitted step

---
 ondemand/action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index 075ac1c..8bca947 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -253,7 +253,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 					//ep.GetStateRecorder().RecordStep(inst)
 				}
 			}
-			if stepCount == maxStepCount && inst.Status() != model.FlowStatusCompleted {
+			if stepCount >= maxStepCount && inst.Status() < model.FlowStatusCompleted {
 				handler.HandleResult(nil, fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv))
 			}
 		}
-- 
2.43.0


From 69d6d540cc588554ac51fffe948868820c397e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:24 +0000
Subject: [PATCH 37/68] fix: end an on-demand flow that exceeds the step limit
 as failed

---
 ondemand/action.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index 8bca947..7e284b0 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -239,8 +239,8 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 		if instance.IsConcurrentTaskExcutionEnabled() {
 			logger.Info("Concurrent task execution feature is enabled. All independent activities will run concurrently.")
 			err := inst.DoStepInLoop()
-			if err != nil {
-				handler.HandleResult(nil, err)
+			if err != nil && inst.Status() < model.FlowStatusCompleted {
+				inst.Fail(err)
 			}
 		} else {
 			for hasWork && inst.Status() < model.FlowStatusCompleted && stepCount < maxStepCount {
@@ -254,7 +254,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 				}
 			}
 			if stepCount >= maxStepCount && inst.Status() < model.FlowStatusCompleted {
-				handler.HandleResult(nil, fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv))
+				inst.Fail(fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv))
 			}
 		}
 
-- 
2.43.0


From 0f87ec2ac6a101e09b7cb8e53c27392a914c0011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:36 +0000
Subject: [PATCH 38/68] fix: start a trace for on-demand flows, which panicked
 with tracing enabled

---
 ondemand/action.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ondemand/action.go b/ondemand/action.go
index 7e284b0..8b89ea6 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -17,6 +17,7 @@ import (
 	"github.com/project-flogo/core/support"
 	"github.com/project-flogo/core/support/log"
 	"github.com/project-flogo/core/support/service"
+	"github.com/project-flogo/core/support/trace"
 	"github.com/project-flogo/flow/definition"
 	"github.com/project-flogo/flow/instance"
 	"github.com/project-flogo/flow/model"
@@ -216,6 +217,14 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 
 	logger.Debugf("Executing Flow Instance: %s", inst.ID())
 
+	if trace.Enabled() {
+		tc, err := trace.GetTracer().StartTrace(inst.SpanConfig(), trace.ExtractTracingContext(ctx))
+		if err != nil {
+			return err
+		}
+		inst.SetTracingContext(tc)
+	}
+
 	inst.Start(flowInputs)
 
 	stepCount := 0
@@ -260,10 +269,16 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 
 		if inst.Status() == model.FlowStatusCompleted {
 			returnData, err := inst.GetReturnData()
+			if inst.TracingContext() != nil {
+				_ = trace.GetTracer().FinishTrace(inst.TracingContext(), nil)
+			}
 
 			handler.HandleResult(returnData, err)
 
 		} else if inst.Status() == model.FlowStatusFailed {
+			if inst.TracingContext() != nil {
+				_ = trace.GetTracer().FinishTrace(inst.TracingContext(), inst.GetError())
+			}
 			handler.HandleResult(nil, inst.GetError())
 		}
 
-- 
2.43.0


From ebd980671b773e08d08c44264a5a2776e2ff2e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:08 +0000
Subject: [PATCH 39/68] fix: do not panic on malformed metadata in a flow
 package

---
 ondemand/action.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index 8b89ea6..be1cb7a 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -184,7 +184,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 		if !ok {
 			return fmt.Errorf("invalid flow package: expected JSON but got %T", fpAttr)
 		}
-		err := json.Unmarshal(raw, flowPackage)
+		err := unmarshalPackage(raw, flowPackage)
 		if err != nil {
 			return err
 		}
@@ -294,6 +294,18 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 	return nil
 }
 
+// unmarshalPackage reads a flow package, malformed metadata of its flow is reported as an error
+func unmarshalPackage(raw json.RawMessage, flowPackage *FlowPackage) (err error) {
+
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("invalid flow package: %v", r)
+		}
+	}()
+
+	return json.Unmarshal(raw, flowPackage)
+}
+
 func ApplyMappings(mappings map[string]interface{}, inputs map[string]interface{}) (out map[string]interface{}, err error) {
 
 	defer func() {
-- 
2.43.0


From 31be06223d0625f4f41358e6e3ea1069accc3d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 40/68] fix: record the default value of a flow input instead
 of its declaration

---
 instance/ind_instance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 31411f3..9318ac7 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -226,10 +226,10 @@ func (inst *IndependentInstance) startInstance(toStart *Instance, startAttrs map
 		for name, value := range md.Input {
 			if value != nil {
 				toStart.attrs[name] = value.Value()
-				inst.changeTracker.AttrChange(toStart.subflowId, name, value)
 			} else {
 				toStart.attrs[name] = nil
 			}
+			inst.changeTracker.AttrChange(toStart.subflowId, name, toStart.attrs[name])
 		}
 	} else {
 		if toStart.attrs == nil {
-- 
2.43.0


From 494a506f2d5ef5ecc056ed5e76c00f60e389d5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 41/68] fix: record the subflow of a work item in the queue
 changes of a step

---
 instance/instance_chg.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/instance/instance_chg.go b/instance/instance_chg.go
index 6a43bf3..84ae150 100644
--- a/instance/instance_chg.go
+++ b/instance/instance_chg.go
@@ -251,6 +251,7 @@ func (sct *SimpleChangeTracker) WorkItemAdded(wi *WorkItem) {
 	}
 	qc := getQueueChange(sct.currentStep, wi.ID)
 	qc.TaskId = wi.TaskID
+	qc.SubflowId = wi.SubFlowID
 }
 
 func (sct *SimpleChangeTracker) WorkItemRemoved(wi *WorkItem) {
@@ -260,6 +261,7 @@ func (sct *SimpleChangeTracker) WorkItemRemoved(wi *WorkItem) {
 	}
 	qc := getQueueChange(sct.currentStep, wi.ID)
 	qc.TaskId = wi.TaskID
+	qc.SubflowId = wi.SubFlowID
 	qc.ChgType = change.Delete
 }
 
-- 
2.43.0


From 42c5d6c8ffa9114a9ece4edb334a606ef525ea5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:32 +0000
Subject: [PATCH 42/68] fix: include the pending work in a snapshot

---
 instance/ind_instance.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 9318ac7..d881a37 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -1005,6 +1005,12 @@ func (inst *IndependentInstance) Snapshot() *state.Snapshot {
 
 	populateBaseSnapshot(inst.Instance, fs.SnapshotBase)
 
+	for e := inst.workItemQueue.List.Front(); e != nil; e = e.Next() {
+		if wi, ok := e.Value.(*WorkItem); ok {
+			fs.WorkQueue = append(fs.WorkQueue, &state.WorkItem{ID: wi.ID, SubflowId: wi.SubFlowID, TaskId: wi.TaskID})
+		}
+	}
+
 	if len(inst.subflows) > 0 {
 		fs.Subflows = make([]*state.Subflow, 0, len(inst.subflows))
 		for id, subflow := range inst.subflows {
-- 
2.43.0


From 6473172697f98dc735753597a3d87d95e3304349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:32 +0000
Subject: [PATCH 43/68] fix: include the subflows in a snapshot

---
 instance/ind_instance.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index d881a37..889d44c 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -1014,12 +1014,13 @@ func (inst *IndependentInstance) Snapshot() *state.Snapshot {
 	if len(inst.subflows) > 0 {
 		fs.Subflows = make([]*state.Subflow, 0, len(inst.subflows))
 		for id, subflow := range inst.subflows {
-			sfs := state.Subflow{
+			sfs := &state.Subflow{
 				SnapshotBase: &state.SnapshotBase{},
 				Id:           id,
 				TaskId:       subflow.host.(*TaskInst).taskID,
 			}
 			populateBaseSnapshot(subflow, sfs.SnapshotBase)
+			fs.Subflows = append(fs.Subflows, sfs)
 		}
 	}
 	return fs
-- 
2.43.0


From 23a001efa8c7890d250b961bfb848e216a5993dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:32 +0000
Subject: [PATCH 44/68] fix: copy the data into a snapshot, so that it keeps
 showing the recorded state

---
 instance/ind_instance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 889d44c..6b5c070 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -1034,7 +1034,7 @@ func populateBaseSnapshot(inst *Instance, base *state.SnapshotBase) {
 	if len(inst.attrs) > 0 {
 		base.Attrs = make(map[string]interface{}, len(inst.attrs))
 		for name, value := range inst.attrs {
-			base.Attrs[name] = value
+			base.Attrs[name] = util.DeepCopy(value)
 		}
 	}
 
-- 
2.43.0


From 33e4ebc993830611de269e698e5f6f5adf6a549e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:53 +0000
Subject: [PATCH 45/68] fix: rebuild a snapshot from steps with its subflows,
 removals, latest data and pending work

---
 state/util.go | 152 ++++++++++++++++++++++++--------------------------
 1 file changed, 72 insertions(+), 80 deletions(-)

diff --git a/state/util.go b/state/util.go
index 6fcce94..fc0c84d 100644
--- a/state/util.go
+++ b/state/util.go
@@ -1,6 +1,11 @@
 package state
 
-import "github.com/project-flogo/flow/state/change"
+import (
+	"sort"
+
+	"github.com/project-flogo/flow/model"
+	"github.com/project-flogo/flow/state/change"
+)
 
 type FlowInfo struct {
 	Id                 string                 `json:"id"`
@@ -17,88 +22,82 @@ type FlowInfo struct {
 	OriginalInstanceId string                 `json:"originalInstanceId"`
 }
 
+// StepsToSnapshot rebuilds the snapshot of a flow instance from its recorded steps, which must be complete
+// and in the order in which they were recorded
 func StepsToSnapshot(flowId string, steps []*Step) *Snapshot {
 
 	fs := &Snapshot{Id: flowId, SnapshotBase: &SnapshotBase{}}
 
 	subflows := make(map[int]*Subflow)
-	first := -1
-	queueDone := false
-
-	for i := len(steps) - 1; i >= 0; i-- {
-		step := steps[i]
-		if len(step.FlowChanges) > 0 {
-			for _, flowChange := range step.FlowChanges {
-
-				if flowChange.SubflowId > 0 {
-					subflow, exists := subflows[flowChange.SubflowId]
-					if !exists {
-						subflow = &Subflow{
-							SnapshotBase: &SnapshotBase{},
-							Id:           flowChange.SubflowId,
-							TaskId:       flowChange.TaskId,
-						}
-					}
-					UpdateFlow(subflow.SnapshotBase, flowChange)
-				} else {
-					// update main flow
-					UpdateFlow(fs.SnapshotBase, flowChange)
-				}
+
+	for _, step := range steps {
+		for id, flowChange := range step.FlowChanges {
+			if id == 0 {
+				// update main flow
+				UpdateFlow(fs.SnapshotBase, flowChange)
+				continue
 			}
-		}
-		if len(step.QueueChanges) > 0 && !queueDone {
-			for id, queueChg := range step.QueueChanges {
-				queueDone = UpdateQueue(fs, id, queueChg, &first)
-				if queueDone {
-					break
-				}
+
+			subflow, exists := subflows[id]
+			if !exists {
+				subflow = &Subflow{SnapshotBase: &SnapshotBase{}, Id: id}
+				subflows[id] = subflow
 			}
+			if flowChange.NewFlow {
+				subflow.TaskId = flowChange.TaskId
+			}
+			UpdateFlow(subflow.SnapshotBase, flowChange)
+		}
+		for id, queueChg := range step.QueueChanges {
+			UpdateQueue(fs, id, queueChg)
 		}
-
 	}
 
-	for id, subflow := range subflows {
-		if id != 0 {
+	// the item that was added last is executed first
+	sort.Slice(fs.WorkQueue, func(i, j int) bool { return fs.WorkQueue[i].ID > fs.WorkQueue[j].ID })
+
+	for _, subflow := range subflows {
+		if subflow.Status < int(model.FlowStatusCompleted) {
 			fs.Subflows = append(fs.Subflows, subflow)
 		}
 	}
+	sort.Slice(fs.Subflows, func(i, j int) bool { return fs.Subflows[i].Id < fs.Subflows[j].Id })
 
 	return fs
 }
 
-func UpdateQueue(fs *Snapshot, id int, queueChg *change.Queue, first *int) bool {
+// UpdateQueue applies the change of the specified work item to the snapshot
+func UpdateQueue(fs *Snapshot, id int, queueChg *change.Queue) {
 
-	if *first == -1 && queueChg.ChgType == change.Delete {
-		*first = id
-	} else {
-		if id == *first {
-			return true
+	for i, item := range fs.WorkQueue {
+		if item.ID == id {
+			fs.WorkQueue = append(fs.WorkQueue[:i], fs.WorkQueue[i+1:]...)
+			break
 		}
 	}
 
-	if queueChg.ChgType == change.Add {
+	if queueChg.ChgType != change.Delete {
 		fs.WorkQueue = append(fs.WorkQueue, &WorkItem{
 			ID:        id,
 			SubflowId: queueChg.SubflowId,
 			TaskId:    queueChg.TaskId,
 		})
 	}
-	return false
 }
 
+// UpdateFlow applies the changes of a flow to its snapshot
 func UpdateFlow(s *SnapshotBase, change *change.Flow) {
 
 	if len(change.Attrs) > 0 {
 		if s.Attrs == nil {
-			s.Attrs = change.Attrs
-		} else {
-			for name, value := range change.Attrs {
-				s.Attrs[name] = value
-			}
+			s.Attrs = make(map[string]interface{}, len(change.Attrs))
+		}
+		for name, value := range change.Attrs {
+			s.Attrs[name] = value
 		}
 	}
 
-	if s.Status == 0 {
+	if change.Status != 0 {
 		s.Status = change.Status
 	}
 
@@ -106,61 +105,54 @@ func UpdateFlow(s *SnapshotBase, change *change.Flow) {
 		s.FlowURI = change.FlowURI
 	}
 
-	if len(change.Tasks) > 0 {
-		for id, taskChg := range change.Tasks {
-			UpdateTasks(s, id, taskChg)
-		}
+	for id, taskChg := range change.Tasks {
+		UpdateTasks(s, id, taskChg)
 	}
-	if len(change.Links) > 0 {
-		for id, linkChg := range change.Links {
-			UpdateLinks(s, id, linkChg)
-		}
+	for id, linkChg := range change.Links {
+		UpdateLinks(s, id, linkChg)
 	}
 }
 
-func UpdateTasks(snapshot *SnapshotBase, taskId string, change *change.Task) {
+// UpdateTasks applies the change of the specified task to the snapshot
+func UpdateTasks(snapshot *SnapshotBase, taskId string, taskChg *change.Task) {
 
-	var td *Task
-
-	if snapshot.Tasks != nil {
-		for _, task := range snapshot.Tasks {
-			if task.Id == taskId {
-				td = task
+	for i, task := range snapshot.Tasks {
+		if task.Id == taskId {
+			if taskChg.ChgType == change.Delete {
+				snapshot.Tasks = append(snapshot.Tasks[:i], snapshot.Tasks[i+1:]...)
+			} else {
+				task.Status = taskChg.Status
 			}
+			return
 		}
 	}
 
-	if td == nil {
+	if taskChg.ChgType != change.Delete {
 		snapshot.Tasks = append(snapshot.Tasks, &Task{
 			Id:     taskId,
-			Status: change.Status,
+			Status: taskChg.Status,
 		})
-	} else {
-		if td.Status == 0 {
-			td.Status = change.Status
-		}
 	}
 }
 
-func UpdateLinks(snapshot *SnapshotBase, linkId int, change *change.Link) {
-	var ld *Link
+// UpdateLinks applies the change of the specified link to the snapshot
+func UpdateLinks(snapshot *SnapshotBase, linkId int, linkChg *change.Link) {
 
-	if snapshot.Links != nil {
-		for _, link := range snapshot.Links {
-			if link.Id == linkId {
-				ld = link
+	for i, link := range snapshot.Links {
+		if link.Id == linkId {
+			if linkChg.ChgType == change.Delete {
+				snapshot.Links = append(snapshot.Links[:i], snapshot.Links[i+1:]...)
+			} else {
+				link.Status = linkChg.Status
 			}
+			return
 		}
 	}
 
-	if ld == nil {
+	if linkChg.ChgType != change.Delete {
 		snapshot.Links = append(snapshot.Links, &Link{
 			Id:     linkId,
-			Status: change.Status,
+			Status: linkChg.Status,
 		})
-	} else {
-		if ld.Status == 0 {
-			ld.Status = change.Status
-		}
 	}
 }
-- 
2.43.0


From 6c4c78a2808443f60e0634342714dfc5420d3424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:53 +0000
Subject: [PATCH 46/68] fix: keep the calling task in the step that starts a
 subflow

---
 instance/instance_chg.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/instance/instance_chg.go b/instance/instance_chg.go
index 84ae150..073cdf6 100644
--- a/instance/instance_chg.go
+++ b/instance/instance_chg.go
@@ -375,7 +375,10 @@ func getTaskChange(step *state.Step, subflowId int, taskId string, flowname stri
 		fc = &change.Flow{TaskId: taskId, FlowURI: flowname}
 		step.FlowChanges[subflowId] = fc
 	} else {
-		fc.TaskId = taskId
+		if !fc.NewFlow || subflowId == 0 {
+			// the change that starts a subflow names the task that called it
+			fc.TaskId = taskId
+		}
 		if fc.FlowURI == "" {
 			fc.FlowURI = flowname
 		}
-- 
2.43.0


From e382e432b84b6193269a4bfdc58958d7b00c115d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:46 +0000
Subject: [PATCH 47/68] fix: restore the pending work of a saved flow in its
 original order

---
 instance/instance_ser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/instance/instance_ser.go b/instance/instance_ser.go
index 2f56db3..c23e5a4 100644
--- a/instance/instance_ser.go
+++ b/instance/instance_ser.go
@@ -113,8 +113,10 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 
 	inst.workItemQueue = support.NewSyncQueue()
 
-	for _, workItem := range ser.WorkQueue {
+	// the next work item is the first one, so it has to be pushed last
+	for i := len(ser.WorkQueue) - 1; i >= 0; i-- {
 
+		workItem := ser.WorkQueue[i]
 		taskInsts := inst.taskInsts
 
 		if workItem.SubFlowID > 0 {
-- 
2.43.0


From e101d7b25c3491fbd0981128c950a30ba4047e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:47 +0000
Subject: [PATCH 48/68] fix: do not reuse the ids of pending work items after a
 restart

---
 instance/instance_ser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/instance/instance_ser.go b/instance/instance_ser.go
index c23e5a4..fe1d511 100644
--- a/instance/instance_ser.go
+++ b/instance/instance_ser.go
@@ -125,6 +125,10 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 
 		workItem.taskInst = taskInsts[workItem.TaskID]
 		inst.workItemQueue.Push(workItem)
+
+		if workItem.ID > inst.wiCounter {
+			inst.wiCounter = workItem.ID
+		}
 	}
 
 	return nil
-- 
2.43.0


From f7e829fcc9187cc703916bde83c113a1a11d67d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:48 +0000
Subject: [PATCH 49/68] fix: restore the links of the error handler of a saved
 flow

---
 definition/definition.go | 5 +++++
 instance/ind_instance.go | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/definition/definition.go b/definition/definition.go
index 8f6808f..0fc9f8c 100644
--- a/definition/definition.go
+++ b/definition/definition.go
@@ -512,6 +512,11 @@ func (eh *ErrorHandler) Tasks() []*Task {
 	return tasks
 }
 
+// GetLink returns the link with the specified ID
+func (eh *ErrorHandler) GetLink(linkID int) *Link {
+	return eh.links[linkID]
+}
+
 func (eh *ErrorHandler) GetTask(taskID string) *Task {
 	return eh.tasks[taskID]
 }
diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 6b5c070..a35b866 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -971,6 +971,10 @@ func (inst *IndependentInstance) init(flowInst *Instance) {
 	for _, linkInst := range flowInst.linkInsts {
 		linkInst.flowInst = flowInst
 		linkInst.link = flowInst.flowDef.GetLink(linkInst.id)
+		if linkInst.link == nil && flowInst.flowDef.GetErrorHandler() != nil {
+			// unable find link from flow, try to get from error handler
+			linkInst.link = flowInst.flowDef.GetErrorHandler().GetLink(linkInst.id)
+		}
 	}
 }
 
-- 
2.43.0


From ca71b8d38946bbaf55b8ad84e0820b930d5af085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:48 +0000
Subject: [PATCH 50/68] fix: keep that a saved flow is handling an error, so
 that its handler does not run again

---
 instance/instance_ser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/instance/instance_ser.go b/instance/instance_ser.go
index fe1d511..5cc4d28 100644
--- a/instance/instance_ser.go
+++ b/instance/instance_ser.go
@@ -18,6 +18,8 @@ type serIndependentInstance struct {
 	TaskInsts []*TaskInst            `json:"tasks"`
 	LinkInsts []*LinkInst            `json:"links"`
 	SubFlows  []*Instance            `json:"subFlows,omitempty"`
+
+	IsHandlingError bool `json:"isHandlingError,omitempty"`
 }
 
 // MarshalJSON overrides the default MarshalJSON for FlowInstance
@@ -58,6 +60,8 @@ func (inst *IndependentInstance) MarshalJSON() ([]byte, error) {
 		TaskInsts: tis,
 		LinkInsts: lis,
 		SubFlows:  sfs,
+
+		IsHandlingError: inst.isHandlingError,
 	})
 }
 
@@ -73,6 +77,7 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 	inst.id = ser.ID
 	inst.status = ser.Status
 	inst.flowURI = ser.FlowURI
+	inst.isHandlingError = ser.IsHandlingError
 
 	inst.attrs = make(map[string]interface{}, len(ser.Attrs))
 
-- 
2.43.0


From 088bf05546c699e9bf97993d223e17f688fc8c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:04 +0000
Subject: [PATCH 51/68] fix: remove a failed subflow from its instance

---
 instance/ind_instance.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index a35b866..04e03bd 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -719,6 +719,15 @@ func (inst *IndependentInstance) failFlow(containerInst *Instance, err error) {
 
 	if containerInst != inst.Instance {
 
+		// flow has failed so remove it
+		if inst.subFlowLock != nil {
+			inst.subFlowLock.Lock()
+		}
+		delete(inst.subflows, containerInst.subflowId)
+		if inst.subFlowLock != nil {
+			inst.subFlowLock.Unlock()
+		}
+
 		// Complete SubflowCreated trace
 		if containerInst.tracingCtx != nil {
 			_ = trace.GetTracer().FinishTrace(containerInst.tracingCtx, err)
-- 
2.43.0


From 96a6044b449024f597edd03f8e28728a95d45a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 52/68] fix: restore the subflows of a saved flow, which
 crashed when it was restarted

---
 instance/ind_instance.go | 13 +++++++++++++
 instance/instance.go     |  3 +++
 instance/instance_ser.go | 31 +++++++++++++++++++++++++++++--
 3 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 04e03bd..bb8564e 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -930,6 +930,19 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 	inst.master = inst
 	inst.init(inst.Instance)
 
+	for _, subflow := range inst.subflows {
+		subflow.master = inst
+		subflow.logger = logger
+		subflow.flowDef, _, err = flowsupport.GetDefinition(subflow.flowURI)
+		if err != nil {
+			return err
+		}
+		if subflow.flowDef == nil {
+			return errors.New("unable to resolve flow: " + subflow.flowURI)
+		}
+		inst.init(subflow)
+	}
+
 	inst.changeTracker = NewInstanceChangeTracker(inst.id, initStepId)
 	inst.changeTracker.FlowCreated(inst)
 	// Set flow status to active
diff --git a/instance/instance.go b/instance/instance.go
index d0c4e30..3cb2582 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -19,6 +19,9 @@ type Instance struct {
 	master *IndependentInstance //needed for change tracker
 	host   interface{}          //todo change to TaskInst?
 
+	hostTaskID string //needed for deserialization
+	hostFlowID int    //needed for deserialization
+
 	isHandlingError bool
 
 	status  model.FlowStatus
diff --git a/instance/instance_ser.go b/instance/instance_ser.go
index 5cc4d28..e52d522 100644
--- a/instance/instance_ser.go
+++ b/instance/instance_ser.go
@@ -113,6 +113,17 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 			}
 		}
 
+		// attach the subflows to the tasks that are waiting for them
+		for _, value := range ser.SubFlows {
+			caller := inst.Instance
+			if value.hostFlowID > 0 {
+				caller = inst.subflows[value.hostFlowID]
+			}
+			if caller != nil && caller.taskInsts[value.hostTaskID] != nil {
+				value.host = caller.taskInsts[value.hostTaskID]
+			}
+		}
+
 		inst.subflowCtr = subFlowCtr
 	}
 
@@ -144,11 +155,15 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 
 type serInstance struct {
 	SubFlowId int                    `json:"subFlowId"`
+	HostTask  string                 `json:"hostTask,omitempty"`
+	HostFlow  int                    `json:"hostFlow,omitempty"`
 	Status    model.FlowStatus       `json:"status"`
 	FlowURI   string                 `json:"flowUri"`
 	Attrs     map[string]interface{} `json:"attrs"`
 	TaskInsts []*TaskInst            `json:"tasks"`
 	LinkInsts []*LinkInst            `json:"links"`
+
+	IsHandlingError bool `json:"isHandlingError,omitempty"`
 }
 
 // MarshalJSON overrides the default MarshalJSON for FlowInstance
@@ -172,14 +187,23 @@ func (inst *Instance) MarshalJSON() ([]byte, error) {
 		lis = append(lis, linkInst)
 	}
 
-	return json.Marshal(&serInstance{
+	ser := &serInstance{
 		SubFlowId: inst.subflowId,
 		Status:    inst.status,
 		Attrs:     attrs,
 		FlowURI:   inst.flowURI,
 		TaskInsts: tis,
 		LinkInsts: lis,
-	})
+
+		IsHandlingError: inst.isHandlingError,
+	}
+
+	if host, ok := inst.host.(*TaskInst); ok {
+		ser.HostTask = host.taskID
+		ser.HostFlow = host.flowInst.subflowId
+	}
+
+	return json.Marshal(ser)
 }
 
 // UnmarshalJSON overrides the default UnmarshalJSON for FlowInstance
@@ -191,8 +215,11 @@ func (inst *Instance) UnmarshalJSON(d []byte) error {
 	}
 
 	inst.subflowId = ser.SubFlowId
+	inst.hostTaskID = ser.HostTask
+	inst.hostFlowID = ser.HostFlow
 	inst.status = ser.Status
 	inst.flowURI = ser.FlowURI
+	inst.isHandlingError = ser.IsHandlingError
 
 	inst.attrs = make(map[string]interface{}, len(ser.Attrs))
 
-- 
2.43.0


From e970af315ee3bf510bead396743e98555297178f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:32 +0000
Subject: [PATCH 53/68] fix: do not run a subflow again that had ended before
 the restart

---
 instance/ind_instance.go | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index bb8564e..ab6aa90 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -954,24 +954,10 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 			wi, ok := step.(*WorkItem)
 			if ok {
 				if wi.taskInst != nil {
-					// Update the status
-					wi.taskInst.SetStatus(model.TaskStatusReady)
-					// Add item back to queue
-					inst.workItemQueue.Push(step)
-				}
-			}
-		}
-	}
-
-	if initStepId+1 > 0 {
-		// Restart from activity. Read the item from queue
-		step, ok := inst.workItemQueue.Pop()
-		if ok {
-			wi, ok := step.(*WorkItem)
-			if ok {
-				if wi.taskInst != nil {
-					// Update the status
-					wi.taskInst.SetStatus(model.TaskStatusReady)
+					// Update the status, unless only the result of its subflow has to be processed
+					if wi.taskInst.status != model.TaskStatusWaiting {
+						wi.taskInst.SetStatus(model.TaskStatusReady)
+					}
 					// Add item back to queue
 					inst.workItemQueue.Push(step)
 				}
-- 
2.43.0


From 177af2531638a74fe69530a582453685f50b68bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:25 +0000
Subject: [PATCH 54/68] fix: save and restore what the subflow of a waiting
 task ended with

The outputs or the error that a task has still to take over from its subflow
were lost when the flow was saved at that moment.
---
 instance/instance_ser.go | 81 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 72 insertions(+), 9 deletions(-)

diff --git a/instance/instance_ser.go b/instance/instance_ser.go
index e52d522..345ff63 100644
--- a/instance/instance_ser.go
+++ b/instance/instance_ser.go
@@ -2,7 +2,11 @@ package instance
 
 import (
 	"encoding/json"
+	"errors"
+
+	"github.com/project-flogo/core/activity"
 	"github.com/project-flogo/core/support"
+	"github.com/project-flogo/flow/definition"
 	"github.com/project-flogo/flow/model"
 )
 
@@ -245,24 +249,33 @@ func (inst *Instance) UnmarshalJSON(d []byte) error {
 ////////////////////////////////////////////////////////////////////////////////////////////////////////
 // TaskInst Serialization
 
+type serTaskInst struct {
+	TaskID  string                 `json:"id"`
+	Status  int                    `json:"status"`
+	Outputs map[string]interface{} `json:"outputs,omitempty"`
+	Error   *serError              `json:"error,omitempty"`
+}
+
 // MarshalJSON overrides the default MarshalJSON for TaskInst
 func (ti *TaskInst) MarshalJSON() ([]byte, error) {
 
-	return json.Marshal(&struct {
-		TaskID string `json:"id"`
-		Status int    `json:"status"`
-	}{
+	ser := &serTaskInst{
 		TaskID: ti.task.ID(),
 		Status: int(ti.status),
-	})
+	}
+
+	if ti.status == model.TaskStatusWaiting {
+		// what the subflow of the task ended with, which the task still has to process
+		ser.Outputs = ti.outputs
+		ser.Error = newSerError(ti.returnError)
+	}
+
+	return json.Marshal(ser)
 }
 
 // UnmarshalJSON overrides the default UnmarshalJSON for TaskInst
 func (ti *TaskInst) UnmarshalJSON(d []byte) error {
-	ser := &struct {
-		TaskID string `json:"id"`
-		Status int    `json:"status"`
-	}{}
+	ser := &serTaskInst{}
 
 	if err := json.Unmarshal(d, ser); err != nil {
 		return err
@@ -270,10 +283,60 @@ func (ti *TaskInst) UnmarshalJSON(d []byte) error {
 
 	ti.status = model.TaskStatus(ser.Status)
 	ti.taskID = ser.TaskID
+	ti.outputs = ser.Outputs
+	ti.returnError = ser.Error.err()
 
 	return nil
 }
 
+// serError is the serialized form of the error of a task
+type serError struct {
+	Kind      string      `json:"kind,omitempty"`
+	Text      string      `json:"text"`
+	Task      string      `json:"task,omitempty"`
+	Type      string      `json:"type,omitempty"`
+	Code      string      `json:"code,omitempty"`
+	Data      interface{} `json:"data,omitempty"`
+	Retriable bool        `json:"retriable,omitempty"`
+}
+
+func newSerError(err error) *serError {
+	switch e := err.(type) {
+	case nil:
+		return nil
+	case *activity.Error:
+		return &serError{Kind: "activity", Text: e.Error(), Task: e.ActivityName(), Code: e.Code(), Data: e.Data(), Retriable: e.Retriable()}
+	case *ActivityEvalError:
+		return &serError{Kind: "eval", Text: e.Error(), Task: e.TaskName(), Type: e.Type()}
+	case *definition.LinkExprError:
+		return &serError{Kind: "link_expr", Text: e.Error()}
+	default:
+		return &serError{Text: e.Error()}
+	}
+}
+
+func (e *serError) err() error {
+	if e == nil {
+		return nil
+	}
+
+	switch e.Kind {
+	case "activity":
+		err := activity.NewError(e.Text, e.Code, e.Data)
+		if e.Retriable {
+			err = activity.NewRetriableError(e.Text, e.Code, e.Data)
+		}
+		err.SetActivityName(e.Task)
+		return err
+	case "eval":
+		return NewActivityEvalError(e.Task, e.Type, e.Text)
+	case "link_expr":
+		return definition.NewLinkExprError(e.Text)
+	default:
+		return errors.New(e.Text)
+	}
+}
+
 //// TaskInstChange represents a change to a TaskInst
 //type TaskInstChange struct {
 //	ChgType  ChgType
-- 
2.43.0


From f34acc964b57b01424400e6f88172a6d471e50de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:25 +0000
Subject: [PATCH 55/68] fix: restarting a flow saved with abandoned work
 pending crashed

---
 instance/ind_instance.go | 11 +++++++++++
 instance/instance_ser.go |  8 +++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index ab6aa90..27348cf 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -314,6 +314,12 @@ func (inst *IndependentInstance) DoStep() bool {
 
 			workItem := item.(*WorkItem)
 
+			if workItem.taskInst == nil {
+				// left over from work that had been abandoned before the flow was saved
+				inst.changeTracker.WorkItemRemoved(workItem)
+				return true
+			}
+
 			// get the corresponding behavior
 			behavior := inst.flowModel.GetDefaultTaskBehavior()
 			if typeID := workItem.taskInst.task.TypeID(); typeID != "" {
@@ -350,6 +356,11 @@ func (inst *IndependentInstance) DoStepInLoop() error {
 			inst.ResetChanges()
 			inst.stepID++
 			stepCount++
+			if wi.taskInst == nil {
+				// left over from work that had been abandoned before the flow was saved
+				inst.changeTracker.WorkItemRemoved(wi)
+				continue
+			}
 			if inst.concurrentExec {
 				// Execute ready tasks on different goroutines
 				go func(wi *WorkItem) {
diff --git a/instance/instance_ser.go b/instance/instance_ser.go
index 345ff63..186d0de 100644
--- a/instance/instance_ser.go
+++ b/instance/instance_ser.go
@@ -137,13 +137,15 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 	for i := len(ser.WorkQueue) - 1; i >= 0; i-- {
 
 		workItem := ser.WorkQueue[i]
-		taskInsts := inst.taskInsts
+		flowInst := inst.Instance
 
 		if workItem.SubFlowID > 0 {
-			taskInsts = inst.subflows[workItem.SubFlowID].taskInsts
+			flowInst = inst.subflows[workItem.SubFlowID]
 		}
 
-		workItem.taskInst = taskInsts[workItem.TaskID]
+		if flowInst != nil {
+			workItem.taskInst = flowInst.taskInsts[workItem.TaskID]
+		}
 		inst.workItemQueue.Push(workItem)
 
 		if workItem.ID > inst.wiCounter {
-- 
2.43.0


From 52df34c343993c284314819a62e782890d7884d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:06 +0000
Subject: [PATCH 56/68] fix: record the data changes of a restarted flow

---
 instance/ind_instance.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 27348cf..6206ae1 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -954,6 +954,9 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 		inst.init(subflow)
 	}
 
+	if os.Getenv("FLOGO_FLOW_SM_ENDPOINT") != "" {
+		inst.trackingChanges = true
+	}
 	inst.changeTracker = NewInstanceChangeTracker(inst.id, initStepId)
 	inst.changeTracker.FlowCreated(inst)
 	// Set flow status to active
-- 
2.43.0


From 338c6b606d275e08495c998b6b50afcf2c75eda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:42 +0000
Subject: [PATCH 57/68] fix: keep pending work that was abandoned when a flow
 is restarted

---
 instance/ind_instance.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 6206ae1..2b91a2c 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -966,16 +966,12 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 		step, ok := inst.workItemQueue.Pop()
 		if ok {
 			wi, ok := step.(*WorkItem)
-			if ok {
-				if wi.taskInst != nil {
-					// Update the status, unless only the result of its subflow has to be processed
-					if wi.taskInst.status != model.TaskStatusWaiting {
-						wi.taskInst.SetStatus(model.TaskStatusReady)
-					}
-					// Add item back to queue
-					inst.workItemQueue.Push(step)
-				}
+			// Update the status, unless only the result of its subflow has to be processed
+			if ok && wi.taskInst != nil && wi.taskInst.status != model.TaskStatusWaiting {
+				wi.taskInst.SetStatus(model.TaskStatusReady)
 			}
+			// Add item back to queue
+			inst.workItemQueue.Push(step)
 		}
 	}
 
-- 
2.43.0


From 798ce2658766af772215417485dbd9e500f25c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:48 +0000
Subject: [PATCH 58/68] fix: restarting a flow with context logging enabled
 crashed

---
 action.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/action.go b/action.go
index 36725db..08f23fc 100644
--- a/action.go
+++ b/action.go
@@ -269,7 +269,15 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 
 			instLogger := logger
 			if log.CtxLoggingEnabled() {
-				instLogger = log.ChildLoggerWithFields(logger, log.FieldString("flowName", inst.Name()), log.FieldString("flowId", instanceID))
+				// a saved state is attached to its flow in Restart
+				flowDef, _, err := flowsupport.GetDefinition(inst.FlowURI())
+				if err != nil {
+					return err
+				}
+				if flowDef == nil {
+					return errors.New("unable to resolve flow: " + inst.FlowURI())
+				}
+				instLogger = log.ChildLoggerWithFields(logger, log.FieldString("flowName", flowDef.Name()), log.FieldString("flowId", instanceID))
 			}
 			inst.SetInstanceRecorder(instance.NewStateInstanceRecorder(stateRecorder, stateRecordingMode, rerun))
 			//Engine should set init step id one step before current restart step
-- 
2.43.0


From 09ae5ca8eb00474c9563be3cc4a2a88964ce050a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:57 +0000
Subject: [PATCH 59/68] fix: restore the task instance ids of a saved flow

---
 instance/ind_instance.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 2b91a2c..2997da5 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -982,6 +982,7 @@ func (inst *IndependentInstance) init(flowInst *Instance) {
 
 	for _, taskInst := range flowInst.taskInsts {
 		initTaskInst(taskInst, flowInst, nil)
+		taskInst.id = taskInst.taskID
 		//v.flowInst = flowInst
 		//v.task = flowInst.flowDef.GetTask(v.taskID)
 	}
-- 
2.43.0


From 96a03a7ef285d745554514d6cfc0a32811073ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:01 +0000
Subject: [PATCH 60/68] fix: do not reuse the ids of ended subflows after a
 restart

---
 instance/instance_ser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/instance/instance_ser.go b/instance/instance_ser.go
index 186d0de..70e111f 100644
--- a/instance/instance_ser.go
+++ b/instance/instance_ser.go
@@ -23,6 +23,9 @@ type serIndependentInstance struct {
 	LinkInsts []*LinkInst            `json:"links"`
 	SubFlows  []*Instance            `json:"subFlows,omitempty"`
 
+	// SubFlowCtr is the id of the subflow that was started last
+	SubFlowCtr int `json:"subFlowCtr,omitempty"`
+
 	IsHandlingError bool `json:"isHandlingError,omitempty"`
 }
 
@@ -65,6 +68,8 @@ func (inst *IndependentInstance) MarshalJSON() ([]byte, error) {
 		LinkInsts: lis,
 		SubFlows:  sfs,
 
+		SubFlowCtr: inst.subflowCtr,
+
 		IsHandlingError: inst.isHandlingError,
 	})
 }
@@ -103,7 +108,7 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 		inst.linkInsts[linkInst.id] = linkInst
 	}
 
-	subFlowCtr := 0
+	subFlowCtr := ser.SubFlowCtr
 
 	if len(ser.SubFlows) > 0 {
 
@@ -128,9 +133,10 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 			}
 		}
 
-		inst.subflowCtr = subFlowCtr
 	}
 
+	inst.subflowCtr = subFlowCtr
+
 	inst.workItemQueue = support.NewSyncQueue()
 
 	// the next work item is the first one, so it has to be pushed last
-- 
2.43.0


From b82c771f3c3f51b4b27b777c507d778162c13353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:46 +0000
Subject: [PATCH 61/68] fix: keep the outcome of a detached flow from the task
 that starts it

---
 action.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/action.go b/action.go
index 08f23fc..8d38df9 100644
--- a/action.go
+++ b/action.go
@@ -352,6 +352,11 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 
 	hasWork := true
 
+	caller := handler
+	if detachExecution {
+		// In detached mode, no reply expected. So, nothing must reach the handler of the caller.
+		handler = detachedHandler{}
+	}
 	inst.SetResultHandler(handler)
 	if stateRecorder != nil {
 		//We don't need record step 0 if restart from activity
@@ -366,7 +371,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 	go func() {
 		if detachExecution {
 			// In detached mode, no reply expected. So, notifying handler.
-			handler.Done()
+			caller.Done()
 		} else {
 			defer handler.Done()
 		}
@@ -446,6 +451,13 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 	return nil
 }
 
+// detachedHandler is the result handler of a detached flow, whose outcome nobody is waiting for
+type detachedHandler struct{}
+
+func (detachedHandler) HandleResult(map[string]interface{}, error) {}
+
+func (detachedHandler) Done() {}
+
 func (fa *FlowAction) applyAssertionInterceptor(inst *instance.IndependentInstance, assertType int) bool {
 
 	if !inst.HasInterceptor() {
-- 
2.43.0


From 855200c9a9a5a0d874621bc21f51ddf1a2a8f87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:37 +0000
Subject: [PATCH 62/68] fix: run the tasks of a flow at the same time without
 corrupting it

With concurrent task execution on, the goroutines of the tasks changed the
state of the flow without order: a flow could crash (concurrent map writes),
lock up (status events and subflow outputs take the lock again), lose or
repeat tasks of a join, go on after it had failed or returned, spin while it
waited, or never end. Now a lock is held by whatever works on the flow and
released only while an activity is evaluated (and while a loop or retry
waits); what a task brings that its flow did not wait for is dropped; and the
loop waits for the tasks it has started instead of spinning.
---
 action.go                        |   2 +-
 instance/flowevents.go           |   2 +-
 instance/ind_instance.go         | 100 ++++++++++++++++++-------------
 instance/instance.go             |  78 +++++++++++++++++++-----
 instance/taskinst.go             |  58 ++++++++++++++++--
 instance/util.go                 |   6 ++
 model/simple/dowhilebehavior.go  |   2 +-
 model/simple/iteratorbehavior.go |   7 ++-
 model/simple/retry.go            |  11 +++-
 9 files changed, 201 insertions(+), 65 deletions(-)

diff --git a/action.go b/action.go
index 8d38df9..2e770bf 100644
--- a/action.go
+++ b/action.go
@@ -388,7 +388,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 		if instance.IsConcurrentTaskExcutionEnabled() {
 			logger.Info("Concurrent flow execution feature is enabled. All independent activities will run concurrently.")
 			err := inst.DoStepInLoop()
-			if err != nil && inst.Status() != model.FlowStatusCompleted {
+			if err != nil && inst.Status() < model.FlowStatusCompleted {
 				err := fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv)
 				inst.Fail(err)
 			}
diff --git a/instance/flowevents.go b/instance/flowevents.go
index 655fe0a..0396e8d 100644
--- a/instance/flowevents.go
+++ b/instance/flowevents.go
@@ -92,7 +92,7 @@ func postFlowEvent(inst *Instance) {
 		fe.output = make(map[string]interface{})
 
 		if fe.status != event.CREATED {
-			attrs := inst.attrs
+			attrs := inst.copyAttrs()
 			outData, _ := inst.GetReturnData()
 			if attrs != nil && len(attrs) > 0 {
 				for name, attVal := range attrs {
diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 2997da5..fc40760 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -39,6 +39,12 @@ type IndependentInstance struct {
 	startTime  time.Time
 	//Instance recorder
 	instRecorder *stateInstanceRecorder
+
+	// Set only when concurrent execution is enabled: execLock is held by whatever works on the state of this instance
+	// and its subflows, which the activities themselves do not. execCond tells of new work and of tasks that are over.
+	execLock *sync.Mutex
+	execCond *sync.Cond
+	running  int
 }
 
 const (
@@ -82,26 +88,28 @@ func NewIndependentInstance(instanceID string, flowURI string, flow *definition.
 	inst.linkInsts = make(map[int]*LinkInst)
 
 	inst.instRecorder = instRecorder
-	if IsConcurrentTaskExcutionEnabled() {
-		inst.Instance.lock = &sync.RWMutex{}
-		inst.Instance.actSchedLock = &sync.Mutex{}
-		inst.Instance.subFlowLock = &sync.Mutex{}
-		inst.concurrentExec = true
-	}
+	inst.initConcurrentExec()
 
 	return inst, nil
 }
 
+// initConcurrentExec sets the locks when concurrent execution is enabled
+func (inst *IndependentInstance) initConcurrentExec() {
+	if IsConcurrentTaskExcutionEnabled() {
+		inst.execLock = &sync.Mutex{}
+		inst.execCond = sync.NewCond(inst.execLock)
+		inst.lock = &sync.RWMutex{}
+		for _, subflow := range inst.subflows {
+			subflow.lock = &sync.RWMutex{}
+		}
+	}
+}
+
 func (inst *IndependentInstance) SetInstanceRecorder(stateRecorder *stateInstanceRecorder) {
 	inst.instRecorder = stateRecorder
 }
 
 func (inst *IndependentInstance) newEmbeddedInstance(taskInst *TaskInst, flowURI string, flow *definition.Definition) *Instance {
-	if inst.subFlowLock != nil {
-		inst.subFlowLock.Lock()
-		defer inst.subFlowLock.Unlock()
-	}
-
 	inst.subflowCtr++
 
 	embeddedInst := &Instance{}
@@ -115,6 +123,9 @@ func (inst *IndependentInstance) newEmbeddedInstance(taskInst *TaskInst, flowURI
 	embeddedInst.linkInsts = make(map[int]*LinkInst)
 	embeddedInst.flowURI = flowURI
 	embeddedInst.logger = inst.logger
+	if inst.execLock != nil {
+		embeddedInst.lock = &sync.RWMutex{}
+	}
 
 	if trace.Enabled() {
 		tc, _ := trace.GetTracer().StartTrace(embeddedInst.SpanConfig(), taskInst.traceContext) //TODO handle error
@@ -343,14 +354,25 @@ func (inst *IndependentInstance) DoStep() bool {
 
 func (inst *IndependentInstance) DoStepInLoop() error {
 
+	if inst.execLock != nil {
+		inst.execLock.Lock()
+		defer inst.execLock.Unlock()
+	}
+
 	var stepCount int
 
 	for inst.status == model.FlowStatusActive {
 		// get item to be worked on
 		item, ok := inst.workItemQueue.Pop()
-		if ok {
+		if !ok {
+			if inst.running == 0 {
+				// nothing is left that could bring more work
+				return nil
+			}
+			inst.execCond.Wait()
+		} else {
 			wi := item.(*WorkItem)
-			if stepCount > util.GetMaxStepCount() {
+			if stepCount >= util.GetMaxStepCount() {
 				return fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), util.GetMaxStepCount(), util.FlogoStepCountEnv)
 			}
 			inst.ResetChanges()
@@ -361,10 +383,15 @@ func (inst *IndependentInstance) DoStepInLoop() error {
 				inst.changeTracker.WorkItemRemoved(wi)
 				continue
 			}
-			if inst.concurrentExec {
+			if inst.execLock != nil {
 				// Execute ready tasks on different goroutines
+				inst.running++
 				go func(wi *WorkItem) {
+					inst.execLock.Lock()
 					defer func() {
+						inst.running--
+						inst.execCond.Signal()
+						inst.execLock.Unlock()
 						log.RootLogger().Debugf("Task [%s] completed on goroutine", wi.taskInst.task.ID())
 						wi = nil
 					}()
@@ -403,6 +430,9 @@ func (inst *IndependentInstance) scheduleEval(taskInst *TaskInst) {
 	inst.logger.Debugf("Scheduling task '%s'", taskInst.task.ID())
 
 	inst.workItemQueue.Push(workItem)
+	if inst.execCond != nil {
+		inst.execCond.Signal()
+	}
 
 	// track the fact that the work item was added to the queue
 	inst.changeTracker.WorkItemAdded(workItem)
@@ -447,6 +477,11 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 		evalResult, err = behavior.Eval(taskInst)
 	}
 
+	if inst.execLock != nil && taskInst.isAbandoned() {
+		// meanwhile another task has ended the flow or made it handle an error
+		return
+	}
+
 	if err != nil {
 		//taskInst.returnError = err
 		inst.handleTaskError(behavior, taskInst, err)
@@ -521,7 +556,7 @@ func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior,
 		flowDone = flowBehavior.TaskDone(containerInst)
 	}
 
-	if flowDone || containerInst.forceCompletion {
+	if flowDone || containerInst.isReturning() {
 		//flow completed or return was called explicitly, so lets complete the flow
 		flowBehavior := inst.flowModel.GetFlowBehavior()
 		flowBehavior.Done(containerInst)
@@ -563,10 +598,6 @@ func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior,
 			//}
 
 			// flow has completed so remove it
-			if inst.subFlowLock != nil {
-				inst.subFlowLock.Lock()
-				defer inst.subFlowLock.Unlock()
-			}
 			delete(inst.subflows, containerInst.subflowId)
 		} else {
 			containerInst.master.GetChanges().FlowDone(inst)
@@ -695,6 +726,11 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 
 // Fail ends the flow with an error that none of its tasks has raised, e.g. when it exceeds the step limit
 func (inst *IndependentInstance) Fail(err error) {
+	if inst.execLock != nil {
+		inst.execLock.Lock()
+		defer inst.execLock.Unlock()
+	}
+
 	// Complete the traces of the subflows and tasks that are still running
 	inst.finishTaskTraces(inst.Instance, err)
 	for _, subflow := range inst.subflows {
@@ -725,19 +761,13 @@ func (inst *IndependentInstance) failFlow(containerInst *Instance, err error) {
 		return
 	}
 
-	containerInst.returnError = err
+	containerInst.setError(err)
 	containerInst.SetStatus(model.FlowStatusFailed)
 
 	if containerInst != inst.Instance {
 
 		// flow has failed so remove it
-		if inst.subFlowLock != nil {
-			inst.subFlowLock.Lock()
-		}
 		delete(inst.subflows, containerInst.subflowId)
-		if inst.subFlowLock != nil {
-			inst.subFlowLock.Unlock()
-		}
 
 		// Complete SubflowCreated trace
 		if containerInst.tracingCtx != nil {
@@ -758,12 +788,6 @@ func (inst *IndependentInstance) failFlow(containerInst *Instance, err error) {
 }
 
 func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []*model.TaskEntry) error {
-	if inst.actSchedLock != nil {
-		// Lock is set only when concurrent executaion is enabled
-		inst.actSchedLock.Lock()
-		defer inst.actSchedLock.Unlock()
-	}
-
 	// Create all the task instances first: entering one of the tasks can skip (and release) others of
 	// these tasks, and must not complete the flow while there are still tasks to enter.
 	taskInsts := make([]*TaskInst, len(taskEntries))
@@ -779,10 +803,6 @@ func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []
 			//already decided, or abandoned, while one of the previous tasks was entered
 			continue
 		}
-		if inst.concurrentExec && taskInst.scheduled {
-			//task is already scheduled by other goroutine. Lets skip this task
-			continue
-		}
 		taskInst.id = taskInst.taskID
 		enterResult := behavior.Enter(taskInst)
 		if enterResult == model.EREval {
@@ -791,7 +811,6 @@ func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []
 				inst.handleTaskError(behavior, taskInst, NewActivityEvalError(taskInst.task.Name(), "mapper", err.Error()))
 				continue
 			}
-			taskInst.scheduled = true
 			inst.scheduleEval(taskInst)
 		} else if enterResult == model.ERSkip {
 			inst.handleTaskDone(behavior, taskInst)
@@ -953,6 +972,7 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 		}
 		inst.init(subflow)
 	}
+	inst.initConcurrentExec()
 
 	if os.Getenv("FLOGO_FLOW_SM_ENDPOINT") != "" {
 		inst.trackingChanges = true
@@ -1054,9 +1074,9 @@ func populateBaseSnapshot(inst *Instance, base *state.SnapshotBase) {
 	base.FlowURI = inst.flowURI
 	base.Status = int(inst.status)
 
-	if len(inst.attrs) > 0 {
-		base.Attrs = make(map[string]interface{}, len(inst.attrs))
-		for name, value := range inst.attrs {
+	if attrs := inst.copyAttrs(); len(attrs) > 0 {
+		base.Attrs = make(map[string]interface{}, len(attrs))
+		for name, value := range attrs {
 			base.Attrs[name] = util.DeepCopy(value)
 		}
 	}
diff --git a/instance/instance.go b/instance/instance.go
index 3cb2582..f738b30 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -40,12 +40,10 @@ type Instance struct {
 
 	resultHandler action.ResultHandler
 
-	logger         log.Logger
-	tracingCtx     trace.TracingContext
-	lock           *sync.RWMutex
-	actSchedLock   *sync.Mutex
-	subFlowLock    *sync.Mutex
-	concurrentExec bool
+	logger     log.Logger
+	tracingCtx trace.TracingContext
+	// lock guards the data of the flow, it is set only when concurrent execution is enabled
+	lock *sync.RWMutex
 }
 
 func (inst *Instance) GetMasterScope() data.Scope {
@@ -170,12 +168,47 @@ func (inst *Instance) IOMetadata() *metadata.IOMetadata {
 
 func (inst *Instance) Reply(replyData map[string]interface{}, err error) {
 	if inst.resultHandler != nil {
-		inst.returnData = replyData
+		inst.setReturnData(replyData)
 		inst.resultHandler.HandleResult(replyData, err)
 	}
 }
 
+func (inst *Instance) setReturnData(returnData map[string]interface{}) {
+	if inst.lock != nil {
+		inst.lock.Lock()
+		defer inst.lock.Unlock()
+	}
+	inst.returnData = returnData
+}
+
+// setError sets the error the flow ends with, after which no activity can return on behalf of it
+func (inst *Instance) setError(err error) {
+	if inst.lock != nil {
+		inst.lock.Lock()
+		defer inst.lock.Unlock()
+	}
+	inst.returnError = err
+	inst.status = model.FlowStatusFailed
+}
+
+// isReturning indicates if a return was called explicitly
+func (inst *Instance) isReturning() bool {
+	if inst.lock != nil {
+		inst.lock.RLock()
+		defer inst.lock.RUnlock()
+	}
+	return inst.forceCompletion
+}
+
 func (inst *Instance) Return(returnData map[string]interface{}, err error) {
+	if inst.lock != nil {
+		inst.lock.Lock()
+		defer inst.lock.Unlock()
+	}
+	if inst.status >= model.FlowStatusCompleted {
+		// the flow has ended without waiting for the activity that returns
+		return
+	}
 	inst.forceCompletion = true
 	inst.returnData = returnData
 	inst.returnError = err
@@ -190,6 +223,10 @@ func (inst *Instance) GetError() error {
 }
 
 func (inst *Instance) GetReturnData() (map[string]interface{}, error) {
+	if inst.lock != nil {
+		inst.lock.RLock()
+		defer inst.lock.RUnlock()
+	}
 
 	returnData := inst.returnData
 
@@ -224,13 +261,17 @@ func (inst *Instance) Status() model.FlowStatus {
 }
 
 func (inst *Instance) SetStatus(status model.FlowStatus) {
+	inst.setStatus(status)
+	inst.master.changeTracker.SetStatus(inst.subflowId, status)
+	postFlowEvent(inst)
+}
+
+func (inst *Instance) setStatus(status model.FlowStatus) {
 	if inst.lock != nil {
 		inst.lock.Lock()
 		defer inst.lock.Unlock()
 	}
 	inst.status = status
-	inst.master.changeTracker.SetStatus(inst.subflowId, status)
-	postFlowEvent(inst)
 }
 
 // FlowDefinition returns the Flow definition associated with this context
@@ -299,14 +340,23 @@ func (inst *Instance) SetValue(name string, value interface{}) error {
 
 // UpdateAttrs updates the attributes of the Flow Instance
 func (inst *Instance) UpdateAttrs(attrs map[string]interface{}) {
-	if inst.lock != nil {
-		inst.lock.Lock()
-		defer inst.lock.Unlock()
-	}
-
 	if len(attrs) > 0 {
 		for name, value := range attrs {
 			_ = inst.SetValue(name, value)
 		}
 	}
 }
+
+// copyAttrs gets a copy of the current attributes of the Flow Instance
+func (inst *Instance) copyAttrs() map[string]interface{} {
+	if inst.lock != nil {
+		inst.lock.RLock()
+		defer inst.lock.RUnlock()
+	}
+
+	attrs := make(map[string]interface{}, len(inst.attrs))
+	for name, value := range inst.attrs {
+		attrs[name] = value
+	}
+	return attrs
+}
diff --git a/instance/taskinst.go b/instance/taskinst.go
index 72d76c7..19bd1cb 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -1,6 +1,7 @@
 package instance
 
 import (
+	"errors"
 	"fmt"
 	"runtime/debug"
 	"time"
@@ -76,10 +77,52 @@ type TaskInst struct {
 
 	//needed for serialization
 	taskID string
-	// When concurrent executaion mode is enabled, this flag ensures task is not scheduled more than once
-	scheduled bool
-	// When concurrent execution mode is enabled, this flag determines whether task should execute on a separate goroutine or not
-	asyncExec bool
+	// When concurrent execution mode is enabled, this flag indicates that the task does not hold the execution
+	// lock, as its activity is being evaluated
+	unlocked bool
+}
+
+// errAbandoned is the result of a task whose flow has ended or moved on without it
+var errAbandoned = errors.New("the flow of the task has ended or moved on without it")
+
+// evalUnlocked evaluates the activity. When concurrent execution mode is enabled other tasks can proceed meanwhile.
+func (ti *TaskInst) evalUnlocked(act activity.Activity, ctx activity.Context) (done bool, err error) {
+	if ti.flowInst.master.execLock == nil {
+		return act.Eval(ctx)
+	}
+
+	if ti.isAbandoned() {
+		return false, errAbandoned
+	}
+	defer func() {
+		ti.relock()
+		if ti.isAbandoned() {
+			done, err = false, errAbandoned
+		}
+	}()
+	ti.unlock()
+	return act.Eval(ctx)
+}
+
+// Pause waits for the specified time. When concurrent execution mode is enabled other tasks can proceed meanwhile.
+func (ti *TaskInst) Pause(d time.Duration) {
+	ti.unlock()
+	defer ti.relock()
+	time.Sleep(d)
+}
+
+func (ti *TaskInst) unlock() {
+	if lock := ti.flowInst.master.execLock; lock != nil {
+		ti.unlocked = true
+		lock.Unlock()
+	}
+}
+
+func (ti *TaskInst) relock() {
+	if ti.unlocked {
+		ti.flowInst.master.execLock.Lock()
+		ti.unlocked = false
+	}
 }
 
 /////////////////////////////////////////
@@ -384,7 +427,10 @@ func (ti *TaskInst) EvalActivity() (done bool, evalErr error) {
 		// If output interceptor is there then the activity should be mocked and activity evaluation should be skipped.
 		// In the applyOutputInterceptor step the mock data will be applied to the activity
 		if !hasOutputInterceptor(ti) {
-			done, evalErr = actCfg.Activity.Eval(ctx)
+			done, evalErr = ti.evalUnlocked(actCfg.Activity, ctx)
+			if evalErr == errAbandoned {
+				return false, evalErr
+			}
 
 			if evalErr != nil {
 				e, ok := evalErr.(*activity.Error)
@@ -608,7 +654,7 @@ func (ti *TaskInst) handleAccumulation() error {
 	attrName := "_A." + ti.Task().ID()
 	var outputs []interface{}
 
-	if attr, ok := ti.flowInst.attrs[attrName]; ok {
+	if attr, ok := ti.flowInst.GetValue(attrName); ok {
 		var err error
 		outputs, err = coerce.ToArray(attr)
 		if err != nil {
diff --git a/instance/util.go b/instance/util.go
index 56f185b..184f974 100644
--- a/instance/util.go
+++ b/instance/util.go
@@ -369,6 +369,12 @@ func StartSubFlow(ctx activity.Context, flowURI string, inputs map[string]interf
 		return errors.New("unable to resolve subflow: " + flowURI)
 	}
 
+	// from here on the activity works on the flow and not on its own, until its evaluation ends
+	taskInst.relock()
+	if taskInst.flowInst.master.execLock != nil && taskInst.isAbandoned() {
+		return errAbandoned
+	}
+
 	//todo make sure that there is only one subFlow per taskinst
 	flowInst := taskInst.flowInst.master.newEmbeddedInstance(taskInst, flowURI, def)
 
diff --git a/model/simple/dowhilebehavior.go b/model/simple/dowhilebehavior.go
index b9594b6..3f39abc 100644
--- a/model/simple/dowhilebehavior.go
+++ b/model/simple/dowhilebehavior.go
@@ -91,7 +91,7 @@ func (dw *DoWhileTaskBehavior) evaluateCondition(ctx model.TaskContext, conditio
 			delay := ctx.Task().LoopConfig().Delay()
 			if delay > 0 {
 				ctx.FlowLogger().Infof("Dowhile Task[%s] execution delaying for %d milliseconds...", ctx.Task().ID(), delay)
-				time.Sleep(time.Duration(delay) * time.Millisecond)
+				pause(ctx, time.Duration(delay)*time.Millisecond)
 			}
 			ctx.FlowLogger().Infof("Task[%s] repeating as doWhile condition evaluated to true", ctx.Task().ID())
 			return model.EvalRepeat, nil
diff --git a/model/simple/iteratorbehavior.go b/model/simple/iteratorbehavior.go
index 382e4a0..afbec79 100644
--- a/model/simple/iteratorbehavior.go
+++ b/model/simple/iteratorbehavior.go
@@ -134,7 +134,12 @@ func (tb *IteratorTaskBehavior) Eval(ctx model.TaskContext) (evalResult model.Ev
 		delay := ctx.Task().LoopConfig().Delay()
 		if delay > 0 {
 			ctx.FlowLogger().Infof("Iterate Task[%s] execution delaying for %d milliseconds...", ctx.Task().ID(), delay)
-			time.Sleep(time.Duration(delay) * time.Millisecond)
+			if done {
+				pause(ctx, time.Duration(delay)*time.Millisecond)
+			} else {
+				// its subflow does not start before the task waits for it
+				time.Sleep(time.Duration(delay) * time.Millisecond)
+			}
 		}
 		if !done {
 			ctx.SetStatus(model.TaskStatusWaiting)
diff --git a/model/simple/retry.go b/model/simple/retry.go
index 5590148..c77cd3a 100644
--- a/model/simple/retry.go
+++ b/model/simple/retry.go
@@ -63,7 +63,7 @@ func retryEval(ctx model.TaskContext, retryData *RetryData) (bool, error) {
 
 	if retryData.Interval > 0 {
 		ctx.FlowLogger().Debugf("Task[%s] sleeping for %d milliseconds...", ctx.Task().ID(), retryData.Interval)
-		time.Sleep(time.Duration(retryData.Interval) * time.Millisecond)
+		pause(ctx, time.Duration(retryData.Interval)*time.Millisecond)
 	}
 
 	// update retry count
@@ -72,6 +72,15 @@ func retryEval(ctx model.TaskContext, retryData *RetryData) (bool, error) {
 	return evalActivity(ctx)
 }
 
+// pause waits, other tasks of the flow can proceed meanwhile
+func pause(ctx model.TaskContext, d time.Duration) {
+	if t, ok := ctx.(*instance.TaskInst); ok {
+		t.Pause(d)
+	} else {
+		time.Sleep(d)
+	}
+}
+
 // retryPostEval retries current task from PostEval
 //func retryPostEval(ctx model.TaskContext, retryData *RetryData) (bool, error) {
 //	ctx.FlowLogger().Debugf("Task[%s] retrying on error. Retries left (%d)...", ctx.Task().ID(), retryData.Count)
-- 
2.43.0


From 8605e9bfcabf1da2da6fb0a4798369380a76df76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:19 +0000
Subject: [PATCH 63/68] fix: refuse to restart or resume a flow without its
 state instead of panicking

---
 tester/request.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tester/request.go b/tester/request.go
index f2a0af1..8053349 100644
--- a/tester/request.go
+++ b/tester/request.go
@@ -2,6 +2,7 @@ package tester
 
 import (
 	"context"
+	"errors"
 
 	"github.com/project-flogo/core/action"
 	"github.com/project-flogo/core/engine/runner"
@@ -93,6 +94,10 @@ func (rp *RequestProcessor) RestartFlow(restartRequest *RestartRequest) (results
 
 	logger.Debugf("Tester restarting flow")
 
+	if restartRequest.InitialState == nil {
+		return nil, errors.New("unable to restart flow, initial state not provided")
+	}
+
 	//todo share action, for now add flowUri to settings
 	settings := map[string]interface{}{"flowURI":restartRequest.InitialState.FlowURI()}
 
@@ -130,6 +135,10 @@ func (rp *RequestProcessor) ResumeFlow(resumeRequest *ResumeRequest) (results ma
 
 	logger.Debugf("Tester resuming flow")
 
+	if resumeRequest.State == nil {
+		return nil, errors.New("unable to resume flow, state not provided")
+	}
+
 	//todo share action, for now add flowUri to settings
 	settings := map[string]interface{}{"flowURI":resumeRequest.State.FlowURI()}
 
-- 
2.43.0


From 9181ebea1cb822f4e3d2061febf9b1def2deacb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:19 +0000
Subject: [PATCH 64/68] fix: attach a saved flow to its definition when it is
 resumed, which crashed

---
 action.go                | 8 ++++++++
 instance/ind_instance.go | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/action.go b/action.go
index 2e770bf..2c8c0bf 100644
--- a/action.go
+++ b/action.go
@@ -292,6 +292,14 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 	case instance.OpResume:
 		if initialState != nil {
 			inst = initialState
+			if inst.FlowDefinition() == nil {
+				// a saved state is attached to its flow first
+				inst.SetInstanceRecorder(instance.NewStateInstanceRecorder(stateRecorder, stateRecordingMode, rerun))
+				err := inst.Resume(logger, initStepId-1)
+				if err != nil {
+					return err
+				}
+			}
 			logger.Debug("Resuming Flow Instance: ", inst.ID())
 
 			//instLogger := logger
diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index fc40760..7cd95e0 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -998,6 +998,11 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 	return nil
 }
 
+// Resume attaches a saved FlowInstance to its flow, keeping its id
+func (inst *IndependentInstance) Resume(logger log.Logger, initStepId int) error {
+	return inst.Restart(logger, inst.id, initStepId)
+}
+
 func (inst *IndependentInstance) init(flowInst *Instance) {
 
 	for _, taskInst := range flowInst.taskInsts {
-- 
2.43.0


From 25be9c3b3dab1e79b2d25226ac6e570f3a362239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:55 +0000
Subject: [PATCH 65/68] fix: clean up the activities of a flow's error handler
 too

---
 definition/definition.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/definition/definition.go b/definition/definition.go
index 0fc9f8c..1222e33 100644
--- a/definition/definition.go
+++ b/definition/definition.go
@@ -84,18 +84,25 @@ func (d *Definition) GetAttr(attrName string) (attr *data.Attribute, exists bool
 }
 
 func (d *Definition) Cleanup() error {
-	for id, task := range d.tasks {
+	cleanupTasks(d.tasks)
+	if d.errorHandler != nil {
+		cleanupTasks(d.errorHandler.tasks)
+	}
+
+	return nil
+}
+
+func cleanupTasks(tasks map[string]*Task) {
+	for id, task := range tasks {
 		if !activity.IsSingleton(task.activityCfg.Activity) {
 			if needsDisposal, ok := task.activityCfg.Activity.(support.NeedsCleanup); ok {
 				err := needsDisposal.Cleanup()
 				if err != nil {
-					log.RootLogger().Warnf("Error disposing activity '%s' : ", id, err)
+					log.RootLogger().Warnf("Error disposing activity '%s' : %s", id, err.Error())
 				}
 			}
 		}
 	}
-
-	return nil
 }
 
 func (d *Definition) Reconfigure(config *resource.Config) error {
-- 
2.43.0


From 73e610aadd85d3b271838d092e94a4c9bf1bfae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:40 +0000
Subject: [PATCH 66/68] fix: a new configuration with a task without activity
 no longer keeps the tasks after it from being reconfigured

---
 definition/definition.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/definition/definition.go b/definition/definition.go
index 1222e33..e9d4b85 100644
--- a/definition/definition.go
+++ b/definition/definition.go
@@ -124,6 +124,9 @@ func (d *Definition) Reconfigure(config *resource.Config) error {
 	// Main flow tasks
 	if def.Tasks != nil {
 		for _, taskRep := range def.Tasks {
+			if taskRep == nil {
+				continue
+			}
 			task := d.tasks[taskRep.ID]
 			if task != nil && len(task.activityCfg.settings) > 0 {
 				err = task.reconfigureTaskSettings(taskRep, ef)
@@ -137,6 +140,9 @@ func (d *Definition) Reconfigure(config *resource.Config) error {
 	// Error handler tasks
 	if def.ErrorHandler != nil && d.errorHandler != nil {
 		for _, taskRep := range def.ErrorHandler.Tasks {
+			if taskRep == nil {
+				continue
+			}
 			task := d.errorHandler.tasks[taskRep.ID]
 			if task != nil && len(task.activityCfg.settings) > 0 {
 				err = task.reconfigureTaskSettings(taskRep, ef)
@@ -154,6 +160,9 @@ func (d *Definition) Reconfigure(config *resource.Config) error {
 func (task *Task) reconfigureTaskSettings(taskRep *TaskRep, ef expression.Factory) error {
 	var err error
 	if reconfigurable, ok := task.activityCfg.Activity.(activity.ReconfigurableActivity); ok {
+		if taskRep.ActivityCfgRep == nil {
+			return fmt.Errorf("failed to reconfigure activity [%s]: no activity specified", task.ID())
+		}
 		mdSettings := task.activityCfg.Activity.Metadata().Settings
 		for name, value := range taskRep.ActivityCfgRep.Settings {
 			task.activityCfg.settings[name], err = metadata.ResolveSettingValue(name, value, mdSettings, ef)
-- 
2.43.0


From cdaab7705f6d2bab3185169c4f13da55729d5aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:40 +0000
Subject: [PATCH 67/68] fix: refuse an unknown state recording mode instead of
 leaving the flow engine uninitialised

---
 action.go          | 2 +-
 ondemand/action.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/action.go b/action.go
index 2c8c0bf..31ec095 100644
--- a/action.go
+++ b/action.go
@@ -94,7 +94,7 @@ func (f *ActionFactory) Initialize(ctx action.InitContext) error {
 			var err error
 			stateRecordingMode, err = state.ToRecordingMode(mode)
 			if err != nil {
-				return nil
+				return err
 			}
 		}
 
diff --git a/ondemand/action.go b/ondemand/action.go
index be1cb7a..f240aea 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -110,7 +110,7 @@ func (f *ActionFactory) Initialize(ctx action.InitContext) error {
 			var err error
 			stateRecordingMode, err = state.ToRecordingMode(mode)
 			if err != nil {
-				return nil
+				return err
 			}
 		}
 	}
-- 
2.43.0


From a2f6c0da3ed34661a52641e875e4e736216a8f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:03 +0000
Subject: [PATCH 68/68] fix: a flow loaded by URI that calls another one by URI
 no longer waits for itself forever

---
 definition/mapper.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/definition/mapper.go b/definition/mapper.go
index ba99311..0fddb3a 100644
--- a/definition/mapper.go
+++ b/definition/mapper.go
@@ -22,20 +22,23 @@ func GetMapperFactory() mapper.Factory {
 
 func NewDefaultActivityOutputMapper(task *Task) mapper.Mapper {
 	attrNS := "_A." + task.ID() + "."
-	return &defaultActivityOutputMapper{attrNS: attrNS, metadata: task.activityCfg.Activity.Metadata()}
+	return &defaultActivityOutputMapper{attrNS: attrNS, activity: task.activityCfg.Activity}
 }
 
 // BasicMapper is a simple object holding and executing mappings
 type defaultActivityOutputMapper struct {
 	attrNS   string
-	metadata *activity.Metadata
+	activity activity.Activity
 }
 
 func (m *defaultActivityOutputMapper) Apply(scope data.Scope) (map[string]interface{}, error) {
 
-	if m.metadata.IOMetadata != nil {
-		output := make(map[string]interface{}, len(m.metadata.Output))
-		for name := range m.metadata.Output {
+	// the metadata of an activity can depend on another flow, so it isn't looked at while this one is being loaded
+	metadata := m.activity.Metadata()
+
+	if metadata.IOMetadata != nil {
+		output := make(map[string]interface{}, len(metadata.Output))
+		for name := range metadata.Output {
 
 			value, ok := scope.GetValue(name)
 			if ok {
-- 
2.43.0

