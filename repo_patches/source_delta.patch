From 3def6e7e113b42d287189e725e1178a831a17abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:46 +0000
Subject: [PATCH 01/54] fix: compound assignments of operands from different
 handlers throw in release builds too

---
 include/cppad/cg/arithmetic_assign.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/cppad/cg/arithmetic_assign.hpp b/include/cppad/cg/arithmetic_assign.hpp
index 78f5a77..0eec249 100644
--- a/include/cppad/cg/arithmetic_assign.hpp
+++ b/include/cppad/cg/arithmetic_assign.hpp
@@ -41,8 +41,7 @@ inline CG<Base>& CG<Base>::operator+=(const CG<Base> &right) {
             handler = node_->getCodeHandler();
 
         } else { // both left and right hand sides are variables
-            CPPADCG_ASSERT_UNKNOWN(node_->getCodeHandler() == right.node_->getCodeHandler());
-            handler = node_->getCodeHandler();
+            handler = getHandler(*this, right);
         }
 
         std::unique_ptr<Base> value;
@@ -74,8 +73,7 @@ inline CG<Base>& CG<Base>::operator-=(const CG<Base> &right) {
             handler = node_->getCodeHandler();
 
         } else { // both left and right hand sides are variables
-            CPPADCG_ASSERT_UNKNOWN(node_->getCodeHandler() == right.node_->getCodeHandler());
-            handler = node_->getCodeHandler();
+            handler = getHandler(*this, right);
         }
 
         std::unique_ptr<Base> value;
@@ -117,8 +115,7 @@ inline CG<Base>& CG<Base>::operator*=(const CG<Base> &right) {
             handler = node_->getCodeHandler();
 
         } else {  // both left and right hand sides are variables
-            CPPADCG_ASSERT_UNKNOWN(node_->getCodeHandler() == right.node_->getCodeHandler());
-            handler = node_->getCodeHandler();
+            handler = getHandler(*this, right);
         }
 
         std::unique_ptr<Base> value;
@@ -154,8 +151,7 @@ inline CG<Base>& CG<Base>::operator/=(const CG<Base> &right) {
             handler = node_->getCodeHandler();
 
         } else {  // both left and right hand sides are variables
-            CPPADCG_ASSERT_UNKNOWN(node_->getCodeHandler() == right.node_->getCodeHandler());
-            handler = node_->getCodeHandler();
+            handler = getHandler(*this, right);
         }
 
         std::unique_ptr<Base> value;
-- 
2.43.0


From f40244e43cc55a49a0f1349559ed927377a43800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:46 +0000
Subject: [PATCH 02/54] fix: pow() of operands from different handlers throws
 instead of mixing them

---
 include/cppad/cg/math_other.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/cppad/cg/math_other.hpp b/include/cppad/cg/math_other.hpp
index 6c9d90c..085cd84 100644
--- a/include/cppad/cg/math_other.hpp
+++ b/include/cppad/cg/math_other.hpp
@@ -33,10 +33,8 @@ inline CppAD::cg::CG<Base> pow(const CppAD::cg::CG<Base>& x,
         } else if (y.isIdenticalOne()) {
             return CG<Base> (x);
         }
-        handler = x.getCodeHandler();
-    } else {
-        handler = y.getCodeHandler();
     }
+    handler = getHandler(x, y);
 
     CG<Base> result(*handler->makeNode(CGOpCode::Pow,{x.argument(), y.argument()}));
     if (x.isValueDefined() && y.isValueDefined()) {
-- 
2.43.0


From 687d21ddf139bd1bea1a54483338c395e7e5ac40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:33 +0000
Subject: [PATCH 03/54] fix: EvaluatorCG handles atomic operations in reverse
 mode and above order zero

---
 include/cppad/cg/evaluator/evaluator_cg.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/cppad/cg/evaluator/evaluator_cg.hpp b/include/cppad/cg/evaluator/evaluator_cg.hpp
index feff2ab..659f4c5 100644
--- a/include/cppad/cg/evaluator/evaluator_cg.hpp
+++ b/include/cppad/cg/evaluator/evaluator_cg.hpp
@@ -162,11 +162,13 @@ protected:
         const std::vector<size_t>& info = node.getInfo();
         const std::vector<Argument<ScalarIn> >& inArgs = node.getArguments();
 
-        CPPADCG_ASSERT_KNOWN(info.size() == 3, "Invalid number of information data for atomic operation")
-        size_t p = info[2];
-        size_t p1 = p + 1;
+        // forward mode: {id, q, p} and the arrays tx, ty for each order
+        // reverse mode: {id, p} and the arrays tx, ty, px, py for each order
+        const bool isForward = op == CGOpCode::AtomicForward;
+        CPPADCG_ASSERT_KNOWN(info.size() == (isForward ? 3u : 2u), "Invalid number of information data for atomic operation")
+        const size_t p = info.back();
 
-        CPPADCG_ASSERT_KNOWN(inArgs.size() == 2 * p1, "Invalid number of information data for atomic operation")
+        CPPADCG_ASSERT_KNOWN(inArgs.size() == (isForward ? 2u : 4u) * (p + 1), "Invalid number of arguments for atomic operation")
 
         if (outHandler_ == nullptr) {
             throw CGException("Evaluator is unable to determine the new CodeHandler for an atomic operation");
@@ -187,11 +189,12 @@ protected:
 
         this->saveEvaluation(node, ActiveOut(*outHandler_->makeNode(op, info, outArgs)));
 
-        if (valuesDefined) {
+        // the values are only determined for zero order forward mode
+        if (valuesDefined && p == 0) {
             const std::map<size_t, CGAbstractAtomicFun<ScalarIn>*>& afun = this->handler_.getAtomicFunctions();
             size_t id = info[0];
             size_t q = info[1];
-            if (op == CGOpCode::AtomicForward) {
+            if (isForward) {
                 auto itAFun = afun.find(id);
                 if (itAFun == afun.end()) {
                     if (allParameters)
-- 
2.43.0


From 423272c895a5faae2b9b5ace5c29d45c268037c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:06 +0000
Subject: [PATCH 04/54] fix: an evaluation discards the atomic function values
 left by a previous failed evaluation

---
 include/cppad/cg/evaluator/evaluator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cppad/cg/evaluator/evaluator.hpp b/include/cppad/cg/evaluator/evaluator.hpp
index 8345c94..48a4c8e 100644
--- a/include/cppad/cg/evaluator/evaluator.hpp
+++ b/include/cppad/cg/evaluator/evaluator.hpp
@@ -152,7 +152,9 @@ public:
 
         underEval_ = true;
 
-        clear(); // clean-up from any previous call that might have failed
+        FinalEvaluatorType& thisOps = static_cast<FinalEvaluatorType&>(*this);
+
+        thisOps.clear(); // clean-up from any previous call that might have failed
         evals_.adjustSize();
 
         depth_ = 0;
@@ -162,8 +164,6 @@ public:
             path_.reserve(30);
         }
 
-        FinalEvaluatorType& thisOps = static_cast<FinalEvaluatorType&>(*this);
-
         try {
             thisOps.prepareNewEvaluation();
 
-- 
2.43.0


From f6eb65f5c2d12a5d0a1d9bf0de40409e6427674f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:04 +0000
Subject: [PATCH 05/54] fix: collecting a variable in a sum uses the argument
 position of the subtraction itself

---
 include/cppad/cg/collect_variable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/collect_variable.hpp b/include/cppad/cg/collect_variable.hpp
index e4d6953..e4bc462 100644
--- a/include/cppad/cg/collect_variable.hpp
+++ b/include/cppad/cg/collect_variable.hpp
@@ -164,7 +164,7 @@ inline CG<Base> CodeHandler<Base>::collectVariableAddSub(const SourceCodePath& p
                 continue;
 
             } else if (op == CGOpCode::Sub) {
-                if (p[i - 1].argIndex == 1)
+                if (p[i].argIndex == 1)
                     c = -c;
                 else
                     continue;
-- 
2.43.0


From 3c444284cca970dcc1dab78f61bb1ab4cc4e45c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:05 +0000
Subject: [PATCH 06/54] fix: the verbosity flag read by the threads of the pool
 is volatile like its other flags

---
 include/cppad/cg/model/threadpool/pthread_pool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/threadpool/pthread_pool.c b/include/cppad/cg/model/threadpool/pthread_pool.c
index 5ecf34c..21c8eeb 100644
--- a/include/cppad/cg/model/threadpool/pthread_pool.c
+++ b/include/cppad/cg/model/threadpool/pthread_pool.c
@@ -46,7 +46,7 @@ typedef void (* thpool_function_type)(void*);
 static ThPool* volatile cppadcg_pool = NULL;
 static int cppadcg_pool_n_threads = 2;
 static int cppadcg_pool_disabled = 0; // false
-static int cppadcg_pool_verbose = 0; // false
+static volatile int cppadcg_pool_verbose = 0; // false
 static enum ElapsedTimeReference cppadcg_pool_time_update = ELAPSED_TIME_MIN;
 static unsigned int cppadcg_pool_time_meas = 10; // default number of time measurements
 static float cppadcg_pool_guided_maxgroupwork = 0.75;
-- 
2.43.0


From e3349b4e2da4c920735c5bbd1cc57745174d273f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:31 +0000
Subject: [PATCH 07/54] fix: waiting for the thread pool accesses the job queue
 under its mutex

---
 include/cppad/cg/model/threadpool/pthread_pool.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/threadpool/pthread_pool.c b/include/cppad/cg/model/threadpool/pthread_pool.c
index 21c8eeb..4bfb76b 100644
--- a/include/cppad/cg/model/threadpool/pthread_pool.c
+++ b/include/cppad/cg/model/threadpool/pthread_pool.c
@@ -372,6 +372,7 @@ static void  thread_destroy(Thread* thread);
 
 static int   jobqueue_init(ThPool* thpool);
 static void  jobqueue_clear(ThPool* thpool);
+static int   jobqueue_has_work(JobQueue* queue);
 static void  jobqueue_push(JobQueue* queue,
                            Job* newjob_p);
 static void jobqueue_multipush(JobQueue* queue,
@@ -793,11 +794,13 @@ static int jobqueue_push_static_jobs(ThPool* thpool,
  */
 static void thpool_wait(ThPool* thpool) {
     pthread_mutex_lock(&thpool->thcount_lock);
-    while (thpool->jobqueue->len || thpool->jobqueue->group_front || thpool->num_threads_working) {  //// PROBLEM HERE!!!! len is not locked!!!!
+    while (jobqueue_has_work(thpool->jobqueue) || thpool->num_threads_working) {
         pthread_cond_wait(&thpool->threads_all_idle, &thpool->thcount_lock);
     }
+    pthread_mutex_lock(&thpool->jobqueue->rwmutex);
     thpool->jobqueue->total_time = 0;
     thpool->jobqueue->highest_expected_return = 0;
+    pthread_mutex_unlock(&thpool->jobqueue->rwmutex);
     pthread_mutex_unlock(&thpool->thcount_lock);
 
     thpool_cleanup(thpool);
@@ -1114,6 +1117,16 @@ static int jobqueue_init(ThPool* thpool) {
 }
 
 
+/* Whether or not there are jobs in the queue which have not been given to a thread yet */
+static int jobqueue_has_work(JobQueue* queue) {
+    int has_work;
+    pthread_mutex_lock(&queue->rwmutex);
+    has_work = queue->len > 0 || queue->group_front != NULL;
+    pthread_mutex_unlock(&queue->rwmutex);
+    return has_work;
+}
+
+
 /* Clear the queue */
 static void jobqueue_clear(ThPool* thpool) {
     WorkGroup* group;
-- 
2.43.0


From 5ffa602e69b302391a655bfc43182b94f54e7632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:31 +0000
Subject: [PATCH 08/54] fix: work groups already queued are processed after the
 scheduling strategy changes

---
 include/cppad/cg/model/threadpool/pthread_pool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/threadpool/pthread_pool.c b/include/cppad/cg/model/threadpool/pthread_pool.c
index 4bfb76b..a9e28c1 100644
--- a/include/cppad/cg/model/threadpool/pthread_pool.c
+++ b/include/cppad/cg/model/threadpool/pthread_pool.c
@@ -1268,7 +1268,7 @@ static WorkGroup* jobqueue_pull(ThPool* thpool,
     int i;
     JobQueue* queue = thpool->jobqueue;
 
-    if (schedule_strategy == SCHED_STATIC && queue->group_front != NULL) {
+    if (queue->group_front != NULL) {
         // STATIC
         group = queue->group_front;
 
-- 
2.43.0


From 7dac53813f849fde1c695dd93aaa1d809300c400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:31 +0000
Subject: [PATCH 09/54] fix: a guided work group can hold every job in the
 queue

---
 include/cppad/cg/model/threadpool/pthread_pool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/threadpool/pthread_pool.c b/include/cppad/cg/model/threadpool/pthread_pool.c
index a9e28c1..08c61f8 100644
--- a/include/cppad/cg/model/threadpool/pthread_pool.c
+++ b/include/cppad/cg/model/threadpool/pthread_pool.c
@@ -1343,7 +1343,7 @@ static WorkGroup* jobqueue_pull(ThPool* thpool,
                     break;
                 }
                 job = job->prev;
-            } while (job != queue->front);
+            } while (job != NULL);
 
             if (cppadcg_pool_verbose) {
                 fprintf(stdout, "jobqueue_pull(): Thread %i given a work group with %i jobs for %e s (target: %e s)\n", id, group->size, duration, target_duration);
-- 
2.43.0


From ddc2d263d2eb80e38b8e2ebaf39a63a558d3c06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:31 +0000
Subject: [PATCH 10/54] fix: a stored assignment of jobs to threads is not used
 with a smaller thread pool

---
 include/cppad/cg/model/threadpool/pthread_pool.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/threadpool/pthread_pool.c b/include/cppad/cg/model/threadpool/pthread_pool.c
index 08c61f8..f85f94f 100644
--- a/include/cppad/cg/model/threadpool/pthread_pool.c
+++ b/include/cppad/cg/model/threadpool/pthread_pool.c
@@ -626,6 +626,7 @@ static int jobqueue_push_static_jobs(ThPool* thpool,
     float total_duration, target_duration, next_duration, best_duration;
     int i, j, iBest;
     int added;
+    int reassign;
     int num_threads = thpool->num_threads;
     int* n_jobs;
     float* durations = NULL;
@@ -658,7 +659,13 @@ static int jobqueue_push_static_jobs(ThPool* thpool,
     }
 
 
-    if (nJobs > 0 && (lastElapsedChanged || jobs2thread[0] < 0)) {
+    reassign = lastElapsedChanged;
+    for (j = 0; j < nJobs && !reassign; ++j) {
+        // there might be no assignment yet or it might have been made for a pool with more threads
+        reassign = jobs2thread[j] < 0 || jobs2thread[j] >= num_threads;
+    }
+
+    if (nJobs > 0 && reassign) {
         durations = (float*) malloc(num_threads * sizeof(float));
         if (durations == NULL) {
             fprintf(stderr, "jobqueue_push_static_jobs(): Could not allocate memory\n");
-- 
2.43.0


From e2a696b19aa68ecbfb639fd57042066284ed6673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:31 +0000
Subject: [PATCH 11/54] fix: every work group is released when the job queue is
 cleared

---
 include/cppad/cg/model/threadpool/pthread_pool.c | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/include/cppad/cg/model/threadpool/pthread_pool.c b/include/cppad/cg/model/threadpool/pthread_pool.c
index f85f94f..5abe65c 100644
--- a/include/cppad/cg/model/threadpool/pthread_pool.c
+++ b/include/cppad/cg/model/threadpool/pthread_pool.c
@@ -1137,18 +1137,12 @@ static int jobqueue_has_work(JobQueue* queue) {
 /* Clear the queue */
 static void jobqueue_clear(ThPool* thpool) {
     WorkGroup* group;
-    int size;
 
-    do {
-        group = jobqueue_pull(thpool, -1);
-        if (group == NULL) {
-            size = 0;
-        } else {
-            size = group->size;
-            free(group->jobs);
-            free(group);
-        }
-    } while (size > 0);
+    // there might be work groups without jobs
+    while ((group = jobqueue_pull(thpool, -1)) != NULL) {
+        free(group->jobs);
+        free(group);
+    }
 
     thpool->jobqueue->front = NULL;
     thpool->jobqueue->rear = NULL;
-- 
2.43.0


From f5a57e2c7c25a1433c1c87a24d436c496ec1f73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:31 +0000
Subject: [PATCH 12/54] fix: the thread pool does not wait forever for threads
 which could not be created

---
 .../cppad/cg/model/threadpool/pthread_pool.c  | 25 ++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/cppad/cg/model/threadpool/pthread_pool.c b/include/cppad/cg/model/threadpool/pthread_pool.c
index 5abe65c..e931a37 100644
--- a/include/cppad/cg/model/threadpool/pthread_pool.c
+++ b/include/cppad/cg/model/threadpool/pthread_pool.c
@@ -508,11 +508,26 @@ struct ThPool* thpool_init(int num_threads) {
     /* Thread init */
     int n;
     for (n = 0; n < num_threads; n++) {
-        thread_init(thpool, &thpool->threads[n], n);
+        if (thread_init(thpool, &thpool->threads[n], n) != 0) {
+            break;
+        }
     }
 
     /* Wait for threads to initialize */
-    while (thpool->num_threads_alive != num_threads) {}
+    while (thpool->num_threads_alive != n) {}
+
+    if (n < num_threads) {
+        fprintf(stderr, "thpool_init(): Only %i of %i threads could be created\n", n, num_threads);
+
+        pthread_mutex_lock(&thpool->jobqueue->rwmutex);
+        thpool->num_threads = n;
+        pthread_mutex_unlock(&thpool->jobqueue->rwmutex);
+
+        if (n == 0) {
+            thpool_destroy(thpool);
+            return NULL;
+        }
+    }
 
     return thpool;
 }
@@ -956,7 +971,11 @@ static int thread_init(ThPool* thpool,
     (*thread)->id = id;
     (*thread)->processed_groups = NULL;
 
-    pthread_create(&(*thread)->pthread, NULL, (void*) thread_do, (*thread));
+    if (pthread_create(&(*thread)->pthread, NULL, (void*) thread_do, (*thread)) != 0) {
+        fprintf(stderr, "thread_init(): Could not create thread\n");
+        free(*thread);
+        return -1;
+    }
     pthread_detach((*thread)->pthread);
     return 0;
 }
-- 
2.43.0


From db681a0215e47a73ea2ae04e381a9519b365acfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:31 +0000
Subject: [PATCH 13/54] fix: the thread pool is not released while its last
 thread still holds the mutex

---
 include/cppad/cg/model/threadpool/pthread_pool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cppad/cg/model/threadpool/pthread_pool.c b/include/cppad/cg/model/threadpool/pthread_pool.c
index e931a37..ef49c77 100644
--- a/include/cppad/cg/model/threadpool/pthread_pool.c
+++ b/include/cppad/cg/model/threadpool/pthread_pool.c
@@ -927,6 +927,10 @@ static void thpool_destroy(ThPool* thpool) {
         sleep(1);
     }
 
+    // the last thread might not have released this mutex yet
+    pthread_mutex_lock(&thpool->thcount_lock);
+    pthread_mutex_unlock(&thpool->thcount_lock);
+
     /* cleanup current work groups */
     thpool_cleanup(thpool);
 
-- 
2.43.0


From bf2a420c940556aac54cbc5bed74297bc588a922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:10 +0000
Subject: [PATCH 14/54] fix: check the number of independent variables in the
 sparse Jacobian with std::vector arguments

---
 include/cppad/cg/model/functor_generic_model.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cppad/cg/model/functor_generic_model.hpp b/include/cppad/cg/model/functor_generic_model.hpp
index c645685..a0fa399 100644
--- a/include/cppad/cg/model/functor_generic_model.hpp
+++ b/include/cppad/cg/model/functor_generic_model.hpp
@@ -684,6 +684,7 @@ public:
         CPPADCG_ASSERT_KNOWN(_sparseJacobian != nullptr, "No sparse Jacobian function defined in the dynamic library")
         CPPADCG_ASSERT_KNOWN(_in.size() == 1, "The number of independent variable arrays is higher than 1,"
                              " please use the variable size methods")
+        CPPADCG_ASSERT_KNOWN(x.size() == _n, "Invalid independent array size")
         CPPADCG_ASSERT_KNOWN(_missingAtomicFunctions == 0, "Some atomic functions used by the compiled model have not been specified yet")
 
         unsigned long const* drow;
-- 
2.43.0


From d0deb2c921c53443a2de6e4bd24cd1044c72af6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:13 +0000
Subject: [PATCH 15/54] fix: evaluate a dependent that is also an array element
 argument of an earlier dependent

---
 include/cppad/cg/code_handler_impl.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index c4b8217..3a8ea07 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -1563,7 +1563,10 @@ void CodeHandler<Base>::checkVariableCreation(Node& root) {
                 }
 
                 // determine if this variable should be temporary/dependent variable
-                if (_lang->createsNewVariable(arg, getTotalUsageCount(arg), opCount) ||
+                // (a dependent must always be evaluated, even if it was first
+                // reached as an argument of another operation)
+                if (_varId[arg] != 0 ||
+                    _lang->createsNewVariable(arg, getTotalUsageCount(arg), opCount) ||
                     _lang->requiresVariableArgument(code.getOperationType(), argIndex)) {
 
                     addToEvaluationQueue(arg);
-- 
2.43.0


From d97fee1fdb11a3e06ade05a0d29d445d26ab533f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:13 +0000
Subject: [PATCH 16/54] fix: reset the array containers after each local
 function in LanguageC

---
 include/cppad/cg/lang/c/language_c.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cppad/cg/lang/c/language_c.hpp b/include/cppad/cg/lang/c/language_c.hpp
index 11ee40d..9cf338b 100644
--- a/include/cppad/cg/lang/c/language_c.hpp
+++ b/include/cppad/cg/lang/c/language_c.hpp
@@ -1086,6 +1086,9 @@ protected:
 
         _code.str("");
         _ss.str("");
+
+        // each function has its own array containers
+        _atomicFuncArrays.clear();
     }
 
     bool createsNewVariable(const Node& var,
-- 
2.43.0


From f949257a3f9d30b95f81aa25974acb70ebeafc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:24 +0000
Subject: [PATCH 17/54] fix: a dependent alias used by another operation is
 evaluated before it is used

---
 include/cppad/cg/code_handler_impl.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index 3a8ea07..a019136 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -1517,7 +1517,10 @@ void CodeHandler<Base>::checkVariableCreation(Node& root) {
                 // ID value not really used but must be non-zero
                 _varId[arg] = (std::numeric_limits<size_t>::max)();
             } else if (aType == CGOpCode::Alias) {
-                return; // should never be added to the evaluation queue
+                if (_varId[arg] == 0)
+                    return; // should never be added to the evaluation queue
+
+                addToEvaluationQueue(arg); // a dependent used before it is evaluated
             } else if (aType == CGOpCode::Tmp) {
                 _varId[arg] = (std::numeric_limits<size_t>::max)();
             } else if (aType == CGOpCode::LoopStart ||
-- 
2.43.0


From 3388ddbe2256dd9680c50d967bf150e9d45eb98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:41 +0000
Subject: [PATCH 18/54] fix: names created while generating source code are not
 reused by the next generation

---
 include/cppad/cg/code_handler_impl.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index a019136..f9ea802 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -444,11 +444,21 @@ void CodeHandler<Base>::generateCode(std::ostream& out,
                                                                                           _totalUseCount, _scope, *_auxIterationIndexOp,
                                                                                           _zeroDependents));
 
+    // names created by the language are only valid for this source code
+    std::vector<Node*> unnamedNodes;
+    for (Node* node : _codeBlocks) {
+        if (node->getName() == nullptr)
+            unnamedNodes.push_back(node);
+    }
+
     lang.generateSourceCode(out, std::move(_info));
 
     /**
      * clean-up
      */
+    for (Node* node : unnamedNodes)
+        node->clearName();
+
     _atomicFunctionName2Index.clear();
 
     // restore altered nodes
-- 
2.43.0


From 23d3ea8abe0799c24353a07d8826012e29b933fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:41 +0000
Subject: [PATCH 19/54] fix: constants assigned to array elements in a loop are
 printed with the parameter precision

---
 include/cppad/cg/lang/c/language_c_arrays.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/lang/c/language_c_arrays.hpp b/include/cppad/cg/lang/c/language_c_arrays.hpp
index 0147a91..b1bbf9e 100644
--- a/include/cppad/cg/lang/c/language_c_arrays.hpp
+++ b/include/cppad/cg/lang/c/language_c_arrays.hpp
@@ -278,7 +278,7 @@ inline size_t LanguageC<Base>::printArrayCreationUsingLoop(size_t startPos,
         if (i - starti < 3)
             return starti;
 
-        arrayAssign << value;
+        writeParameter(value, arrayAssign);
     }
 
     /**
-- 
2.43.0


From e7a6f9654e46390ca01fa2958a3091e232f8f0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:31 +0000
Subject: [PATCH 20/54] fix: sign() of an operation without its own variable

The sign of an array element (e.g. of a result of an atomic function) which
is also used in another operation, or of an alias, was printed using the name
of an independent variable that does not exist (x[18446744073709551615]).
---
 include/cppad/cg/lang/c/language_c.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/cppad/cg/lang/c/language_c.hpp b/include/cppad/cg/lang/c/language_c.hpp
index 9cf338b..046e964 100644
--- a/include/cppad/cg/lang/c/language_c.hpp
+++ b/include/cppad/cg/lang/c/language_c.hpp
@@ -1527,17 +1527,19 @@ protected:
     virtual void pushSignFunction(Node& op) {
         CPPADCG_ASSERT_KNOWN(op.getArguments().size() == 1, "Invalid number of arguments for sign() function")
         CPPADCG_ASSERT_UNKNOWN(op.getArguments()[0].getOperation() != nullptr)
-        CPPADCG_ASSERT_UNKNOWN(getVariableID(*op.getArguments()[0].getOperation()) > 0)
 
+        // array elements and aliases do not have their own variable
         Node& arg = *op.getArguments()[0].getOperation();
 
-        const std::string& argName = createVariableName(arg);
-
-        _streamStack << "(" << argName << " " << _C_COMP_OP_GT << " ";
+        _streamStack << "(";
+        pushExpression(arg);
+        _streamStack << " " << _C_COMP_OP_GT << " ";
         pushParameter(Base(0.0));
         _streamStack << "?";
         pushParameter(Base(1.0));
-        _streamStack << ":(" << argName << " " << _C_COMP_OP_LT << " ";
+        _streamStack << ":(";
+        pushExpression(arg);
+        _streamStack << " " << _C_COMP_OP_LT << " ";
         pushParameter(Base(0.0));
         _streamStack << "?";
         pushParameter(Base(-1.0));
-- 
2.43.0


From b0d377dcd7140f067bdbd8515cceb724aeb49b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 21/54] fix: array space cannot be reused for values that still
 depend on it

The space of a temporary array was reused for a new array whose elements are
expressions (without their own variables) or aliases which read elements of
the first array; these elements were overwritten before being used.
---
 include/cppad/cg/array_id_compresser.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/cppad/cg/array_id_compresser.hpp b/include/cppad/cg/array_id_compresser.hpp
index a4ada7c..bb828d7 100644
--- a/include/cppad/cg/array_id_compresser.hpp
+++ b/include/cppad/cg/array_id_compresser.hpp
@@ -103,14 +103,29 @@ public:
 
         std::set<size_t> blackList;
         const std::vector<Argument<Base> >& args = newArray.getArguments();
+        std::vector<const OperationNode<Base>*> argOps; // operations evaluated while the array is being created
         for (size_t i = 0; i < args.size(); i++) {
-            const OperationNode<Base>* argOp = args[i].getOperation();
-            if (argOp != nullptr && argOp->getOperationType() == CGOpCode::ArrayElement) {
+            argOps.push_back(args[i].getOperation());
+        }
+
+        while (!argOps.empty()) {
+            const OperationNode<Base>* argOp = argOps.back();
+            argOps.pop_back();
+            if (argOp == nullptr)
+                continue;
+
+            if (argOp->getOperationType() == CGOpCode::ArrayElement) {
                 const OperationNode<Base>& otherArray = *argOp->getArguments()[0].getOperation();
                 CPPADCG_ASSERT_UNKNOWN(_varId[otherArray] > 0); // make sure it had already been assigned space
                 size_t otherArrayStart = _varId[otherArray] - 1;
                 size_t index = argOp->getInfo()[0];
                 blackList.insert(otherArrayStart + index);
+            } else if (_varId[*argOp] == 0) {
+                // there is no variable for this operation, the expression is
+                // used directly (it might contain elements of other arrays)
+                for (const auto& a: *argOp) {
+                    argOps.push_back(a.getOperation());
+                }
             }
         }
 
-- 
2.43.0


From 7eda03171d3f182cfc8730d9ea6ab96252667b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:15 +0000
Subject: [PATCH 22/54] fix: weights in the functions of the multithreaded
 sparse Hessian

The functions which reorder the elements of a multithreaded sparse Hessian
receive the independents, the direction and the weights, but used the
direction as weights (and read beyond it).
---
 include/cppad/cg/model/model_c_source_gen_hes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/model_c_source_gen_hes.hpp b/include/cppad/cg/model/model_c_source_gen_hes.hpp
index 282ed78..efc25e3 100644
--- a/include/cppad/cg/model/model_c_source_gen_hes.hpp
+++ b/include/cppad/cg/model/model_c_source_gen_hes.hpp
@@ -419,7 +419,7 @@ std::string ModelCSourceGen<Base>::generateSparseHessianRev2MultiThreadSource(co
                 "\n"
                 "   inLocal[0] = in[0];\n"
                 "   inLocal[1] = &inLocal1;\n"
-                "   inLocal[2] = in[1];\n"
+                "   inLocal[2] = in[2];\n"
                 "   outLocal[0] = compressed;\n";
         _cache << "   " << functionRev2 << "_" << rev2Suffix << index << "(" << argsLocal << ");\n";
         for (size_t e = 0; e < els.size(); e++) {
-- 
2.43.0


From bc8135a49cc274e5651db4abcc7087b4cead34e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 23/54] fix: isCreateReverseTwo() reported the first order
 reverse option

---
 include/cppad/cg/model/model_c_source_gen.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/model_c_source_gen.hpp b/include/cppad/cg/model/model_c_source_gen.hpp
index 5119108..ba44f5c 100644
--- a/include/cppad/cg/model/model_c_source_gen.hpp
+++ b/include/cppad/cg/model/model_c_source_gen.hpp
@@ -765,7 +765,7 @@ public:
      *         mode is enabled, false otherwise.
      */
     inline bool isCreateReverseTwo() const {
-        return _reverseOne;
+        return _reverseTwo;
     }
 
     /**
-- 
2.43.0


From fe1dcc55b5987011b3e35f309e73dabc15499e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 24/54] fix: moved dynamic libraries and their models referred
 to the old objects

---
 .../cppad/cg/model/dynamic_lib/linux/linux_dynamiclib.hpp    | 5 +++++
 .../cg/model/dynamic_lib/linux/linux_dynamiclib_model.hpp    | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib.hpp b/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib.hpp
index 73b6024..d1f3bf3 100644
--- a/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib.hpp
+++ b/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib.hpp
@@ -67,6 +67,11 @@ public:
             _dynLibHandle(other._dynLibHandle),
             _models(std::move(other._models)) {
         other._dynLibHandle = nullptr;
+        other._models.clear();
+        // the models must refer to the new library object
+        for (LinuxDynamicLibModel<Base>* model : _models) {
+            model->_dynLib = this;
+        }
     }
 
     LinuxDynamicLib(const LinuxDynamicLib&) = delete;
diff --git a/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib_model.hpp b/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib_model.hpp
index 242af9a..5019c87 100644
--- a/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib_model.hpp
+++ b/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib_model.hpp
@@ -41,6 +41,11 @@ public:
             FunctorGenericModel<Base>(std::move(other)),
             _dynLib(other._dynLib) {
         other._dynLib = nullptr;
+        if (_dynLib != nullptr) {
+            // the library must know the new object instead of the old one
+            _dynLib->_models.erase(&other);
+            _dynLib->_models.insert(this);
+        }
     }
 
     virtual ~LinuxDynamicLibModel() {
-- 
2.43.0


From 8e1016f43f23482705b0718c48787f2fd3dc79e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 25/54] fix: a dynamic library which is refused was never
 closed

---
 .../cppad/cg/model/dynamic_lib/linux/linux_dynamiclib.hpp  | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib.hpp b/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib.hpp
index d1f3bf3..cde2197 100644
--- a/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib.hpp
+++ b/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib.hpp
@@ -58,7 +58,12 @@ public:
         CPPADCG_ASSERT_KNOWN(_dynLibHandle != nullptr, ("Failed to dynamically load library '" + _dynLibName + "': " + dlerror()).c_str())
 
         // validate the dynamic library
-        this->validate();
+        try {
+            this->validate();
+        } catch (...) {
+            dlclose(_dynLibHandle);
+            throw;
+        }
     }
 
     inline LinuxDynamicLib(LinuxDynamicLib&& other) noexcept :
-- 
2.43.0


From 223d76b56d92b7a7d935886406a59e47dc78a3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 26/54] fix: the atomic function of a moved model used the old
 model object

---
 .../cppad/cg/model/atomic_generic_model.hpp   | 35 ++++++++++---------
 include/cppad/cg/model/generic_model.hpp      |  3 ++
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/include/cppad/cg/model/atomic_generic_model.hpp b/include/cppad/cg/model/atomic_generic_model.hpp
index 722ea67..e6a1384 100644
--- a/include/cppad/cg/model/atomic_generic_model.hpp
+++ b/include/cppad/cg/model/atomic_generic_model.hpp
@@ -27,7 +27,7 @@ namespace cg {
 template <class Base>
 class CGAtomicGenericModel : public atomic_base<Base> {
 protected:
-    GenericModel<Base>& model_;
+    GenericModel<Base>* model_;
 public:
 
     /**
@@ -38,7 +38,7 @@ public:
      */
     CGAtomicGenericModel(GenericModel<Base>& model) :
         atomic_base<Base>(model.getName()),
-        model_(model) {
+        model_(&model) {
         this->option(CppAD::atomic_base<Base>::set_sparsity_enum);
     }
 
@@ -56,10 +56,10 @@ public:
                  const CppAD::vector<Base>& tx,
                  CppAD::vector<Base>& ty) override {
         if (p == 0) {
-            model_.ForwardZero(vx, vy, tx, ty);
+            model_->ForwardZero(vx, vy, tx, ty);
             return true;
         } else if (p == 1) {
-            model_.ForwardOne(tx, ty);
+            model_->ForwardOne(tx, ty);
             return true;
         }
 
@@ -72,10 +72,10 @@ public:
                  CppAD::vector<Base>& px,
                  const CppAD::vector<Base>& py) override {
         if (p == 0) {
-            model_.ReverseOne(tx, ty, px, py);
+            model_->ReverseOne(tx, ty, px, py);
             return true;
         } else if (p == 1) {
-            model_.ReverseTwo(tx, ty, px, py);
+            model_->ReverseTwo(tx, ty, px, py);
             return true;
         }
 
@@ -92,13 +92,13 @@ public:
     bool for_sparse_jac(size_t q,
                         const CppAD::vector<std::set<size_t> >& r,
                         CppAD::vector<std::set<size_t> >& s) override {
-        size_t n = model_.Domain();
-        size_t m = model_.Range();
+        size_t n = model_->Domain();
+        size_t m = model_->Range();
         for (size_t i = 0; i < m; i++) {
             s[i].clear();
         }
 
-        const std::vector<std::set<size_t> > jacSparsity = model_.JacobianSparsitySet();
+        const std::vector<std::set<size_t> > jacSparsity = model_->JacobianSparsitySet();
 
         // S(x) =  f'(x) * R
         CppAD::cg::multMatrixMatrixSparsity(jacSparsity, r, s, m, n, q);
@@ -116,13 +116,13 @@ public:
     bool rev_sparse_jac(size_t q,
                         const CppAD::vector<std::set<size_t> >& rT,
                         CppAD::vector<std::set<size_t> >& sT) override {
-        size_t n = model_.Domain();
-        size_t m = model_.Range();
+        size_t n = model_->Domain();
+        size_t m = model_->Range();
         for (size_t i = 0; i < n; i++) {
             sT[i].clear();
         }
 
-        const std::vector<std::set<size_t> > jacSparsity = model_.JacobianSparsitySet();
+        const std::vector<std::set<size_t> > jacSparsity = model_->JacobianSparsitySet();
 
         // S(x)^T = ( R * f'(x) )^T = f'(x)^T * R^T
         CppAD::cg::multMatrixTransMatrixSparsity(jacSparsity, rT, sT, m, n, q);
@@ -148,14 +148,14 @@ public:
                         const CppAD::vector<std::set<size_t> >& r,
                         const CppAD::vector<std::set<size_t> >& u,
                         CppAD::vector<std::set<size_t> >& v) override {
-        size_t n = model_.Domain();
-        size_t m = model_.Range();
+        size_t n = model_->Domain();
+        size_t m = model_->Range();
 
         for (size_t i = 0; i < n; i++) {
             v[i].clear();
         }
 
-        const std::vector<std::set<size_t> > jacSparsity = model_.JacobianSparsitySet();
+        const std::vector<std::set<size_t> > jacSparsity = model_->JacobianSparsitySet();
 
         /**
          *  V(x)  =  f'^T(x) U(x)  +  Sum(  s(x)i  f''(x)  R   )
@@ -174,14 +174,14 @@ public:
 
         if (allSelected) {
             // TODO: use reverseTwo sparsity instead of the HessianSparsity (they can be different!!!)
-            std::vector<std::set<size_t> > sparsitySF2R = model_.HessianSparsitySet(); // f''(x)
+            std::vector<std::set<size_t> > sparsitySF2R = model_->HessianSparsitySet(); // f''(x)
             sparsitySF2R.resize(n);
             CppAD::cg::multMatrixMatrixSparsity(sparsitySF2R, r, v, n, n, q); // f''(x) * R
         } else {
             std::vector<std::set<size_t> > sparsitySF2R(n);
             for (size_t i = 0; i < m; i++) {
                 if (s[i]) {
-                    CppAD::cg::addMatrixSparsity(model_.HessianSparsitySet(i), sparsitySF2R); // f''_i(x)
+                    CppAD::cg::addMatrixSparsity(model_->HessianSparsitySet(i), sparsitySF2R); // f''_i(x)
                 }
             }
             CppAD::cg::multMatrixMatrixSparsity(sparsitySF2R, r, v, n, n, q); // f''(x) * R
@@ -201,6 +201,7 @@ public:
         return true;
     }
 
+    friend class GenericModel<Base>;
 };
 
 } // END cg namespace
diff --git a/include/cppad/cg/model/generic_model.hpp b/include/cppad/cg/model/generic_model.hpp
index 91fa9e6..409588e 100644
--- a/include/cppad/cg/model/generic_model.hpp
+++ b/include/cppad/cg/model/generic_model.hpp
@@ -41,6 +41,9 @@ public:
             _atomic(other._atomic),
             _evalAtomicForwardOne4CppAD(other._evalAtomicForwardOne4CppAD) {
         other._atomic = nullptr;
+        if (_atomic != nullptr) {
+            _atomic->model_ = this;
+        }
     }
 
     inline virtual ~GenericModel() {
-- 
2.43.0


From 894285eef3f8e19b9de102ecfe1b641e74ad7421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 27/54] fix: atomic functions of models evaluated for orders 0
 to 1 left the results undefined

---
 include/cppad/cg/model/atomic_generic_model.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/cppad/cg/model/atomic_generic_model.hpp b/include/cppad/cg/model/atomic_generic_model.hpp
index e6a1384..07eb587 100644
--- a/include/cppad/cg/model/atomic_generic_model.hpp
+++ b/include/cppad/cg/model/atomic_generic_model.hpp
@@ -59,6 +59,17 @@ public:
             model_->ForwardZero(vx, vy, tx, ty);
             return true;
         } else if (p == 1) {
+            if (q == 0) {
+                // ForwardOne() only determines the first-order results
+                size_t n = tx.size() / 2;
+                size_t m = ty.size() / 2;
+                CppAD::vector<Base> x(n), y(m);
+                for (size_t j = 0; j < n; j++)
+                    x[j] = tx[j * 2];
+                model_->ForwardZero(vx, vy, x, y);
+                for (size_t i = 0; i < m; i++)
+                    ty[i * 2] = y[i];
+            }
             model_->ForwardOne(tx, ty);
             return true;
         }
-- 
2.43.0


From c388c3ef08527807e4b4d026621aeeb7bfd199a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 28/54] fix: the equations found by rev_sparse_hes() included
 old contents of the output

---
 include/cppad/cg/atomic_fun_bridge.hpp          | 3 +++
 include/cppad/cg/model/atomic_generic_model.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/cppad/cg/atomic_fun_bridge.hpp b/include/cppad/cg/atomic_fun_bridge.hpp
index 9a6f042..e268ebd 100644
--- a/include/cppad/cg/atomic_fun_bridge.hpp
+++ b/include/cppad/cg/atomic_fun_bridge.hpp
@@ -234,6 +234,9 @@ public:
             /**
              * S(x) * f'(x)
              */
+            for (size_t j = 0; j < n; j++) {
+                t[j] = false;
+            }
             for (size_t i = 0; i < m; i++) {
                 if (s[i]) {
                     for (size_t j : jacSparsity[i]) {
diff --git a/include/cppad/cg/model/atomic_generic_model.hpp b/include/cppad/cg/model/atomic_generic_model.hpp
index 07eb587..402ea6f 100644
--- a/include/cppad/cg/model/atomic_generic_model.hpp
+++ b/include/cppad/cg/model/atomic_generic_model.hpp
@@ -201,6 +201,9 @@ public:
         /**
          * S(x) * f'(x)
          */
+        for (size_t j = 0; j < n; j++) {
+            t[j] = false;
+        }
         for (size_t i = 0; i < m; i++) {
             if (s[i]) {
                 for (size_t j : jacSparsity[i]) {
-- 
2.43.0


From 0b0ee765fc702e78ec98960e51a57db07c16a2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 29/54] fix: a bridge kept the Hessian patterns of previous
 custom elements

---
 include/cppad/cg/atomic_fun_bridge.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cppad/cg/atomic_fun_bridge.hpp b/include/cppad/cg/atomic_fun_bridge.hpp
index e268ebd..6e022d5 100644
--- a/include/cppad/cg/atomic_fun_bridge.hpp
+++ b/include/cppad/cg/atomic_fun_bridge.hpp
@@ -88,12 +88,14 @@ public:
                                                const VectorSize& col) {
         size_t n = fun_.Domain();
         custom_hess_ = CustomPosition(n, n, row, col);
+        hess_.clear();
     }
 
     template<class VectorSet>
     inline void setCustomSparseHessianElements(const VectorSet& elements) {
         size_t n = fun_.Domain();
         custom_hess_ = CustomPosition(n, n, elements);
+        hess_.clear();
     }
 
     bool for_sparse_jac(size_t q,
-- 
2.43.0


From b8084d7a59660c102a860e8146f89388f00b098a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 30/54] fix: external atomic functions were evaluated without
 the lower order results

---
 .../cppad/cg/model/atomic_external_function_wrapper.hpp  | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/cppad/cg/model/atomic_external_function_wrapper.hpp b/include/cppad/cg/model/atomic_external_function_wrapper.hpp
index 53f560c..ee8f60b 100644
--- a/include/cppad/cg/model/atomic_external_function_wrapper.hpp
+++ b/include/cppad/cg/model/atomic_external_function_wrapper.hpp
@@ -48,7 +48,8 @@ public:
 
         std::fill(&libModel._ty[0], &libModel._ty[0] + ty_size, Base(0));
 
-        bool ret = atomic_->forward(q, p, vx, vy, libModel._tx, libModel._ty);
+        // the coefficients of ty for lower orders are not provided
+        bool ret = atomic_->forward(0, p, vx, vy, libModel._tx, libModel._ty);
 
         convertAdd(libModel._ty, ty, m, p, p);
 
@@ -75,14 +76,12 @@ public:
 
         std::fill(&libModel._px[0], &libModel._px[0] + px_size, Base(0));
 
-#ifndef NDEBUG
         if (libModel._evalAtomicForwardOne4CppAD) {
-            // only required in order to avoid an issue with a validation inside CppAD
+            // the compiled code does not provide the forward mode results
             CppAD::vector<bool> vx, vy;
-            if (!atomic_->forward(p, p, vx, vy, libModel._tx, libModel._ty))
+            if (!atomic_->forward(0, p, vx, vy, libModel._tx, libModel._ty))
                 return false;
         }
-#endif
 
         bool ret = atomic_->reverse(p, libModel._tx, libModel._ty, libModel._px, libModel._py);
 
-- 
2.43.0


From 236b3f38cc2350d3bf6ef1f67a4d8a4f61c8751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 31/54] fix: Hessian(x, i) used undefined multipliers for
 vectors without initialization

---
 include/cppad/cg/model/generic_model.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cppad/cg/model/generic_model.hpp b/include/cppad/cg/model/generic_model.hpp
index 409588e..4633e6d 100644
--- a/include/cppad/cg/model/generic_model.hpp
+++ b/include/cppad/cg/model/generic_model.hpp
@@ -389,6 +389,8 @@ public:
         CPPADCG_ASSERT_KNOWN(i < Range(), "Invalid equation index")
 
         VectorBase w(Range());
+        for (size_t k = 0; k < Range(); k++)
+            w[k] = 0.0;
         w[i] = 1.0;
         VectorBase hess(Domain() * Domain());
         this->Hessian(ArrayView<const Base>(&x[0], x.size()),
-- 
2.43.0


From 64a2d99c20bb737a29c4db58ad42aea4b82c3e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 32/54] fix: findPaths() returned incomplete and repeated paths

---
 include/cppad/cg/operation_path.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/cppad/cg/operation_path.hpp b/include/cppad/cg/operation_path.hpp
index b6b7dab..0d75028 100644
--- a/include/cppad/cg/operation_path.hpp
+++ b/include/cppad/cg/operation_path.hpp
@@ -161,6 +161,9 @@ inline void CodeHandler<Base>::findPaths(SourceCodePath& currPath,
             std::copy(currPath.begin(), currPath.end(), newPath.begin());
             std::copy(pathFromNode.begin(), pathFromNode.end(), newPath.begin() + currPath.size());
             found.push_back(newPath);
+            if (found.size() == max) {
+                return;
+            }
         }
 
     } else {
@@ -187,16 +190,14 @@ inline std::vector<std::vector<OperationPathNode<Base> > > CodeHandler<Base>::fi
                                                                                                 OperationNode<Base>& node) {
 
     std::vector<SourceCodePath> foundPaths;
-    std::set<size_t> argsFound;
-
     for (const SourceCodePath& path : nodePaths) {
         size_t size = path.size();
         for (size_t i = 0; i < size - 1; i++) {
             const OperationPathNode<Base>& pnode = path[i];
             if (pnode.node == &node) {
-                if (argsFound.find(path[i + 1].argIndex) == argsFound.end()) {
-                    foundPaths.push_back(SourceCodePath(path.begin() + i + 1, path.end()));
-                    argsFound.insert(path[i + 1].argIndex);
+                SourceCodePath pathFromNode(path.begin() + i + 1, path.end());
+                if (std::find(foundPaths.begin(), foundPaths.end(), pathFromNode) == foundPaths.end()) {
+                    foundPaths.push_back(pathFromNode);
                 }
             }
         }
-- 
2.43.0


From 1e61913a4d300b715854fad2efde1cefbb67eb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 33/54] fix: dense Jacobians were determined at old Taylor
 coefficients

---
 include/cppad/cg/model/model_c_source_gen_jac.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cppad/cg/model/model_c_source_gen_jac.hpp b/include/cppad/cg/model/model_c_source_gen_jac.hpp
index d6f5085..47a54a4 100644
--- a/include/cppad/cg/model/model_c_source_gen_jac.hpp
+++ b/include/cppad/cg/model/model_c_source_gen_jac.hpp
@@ -44,8 +44,10 @@ void ModelCSourceGen<Base>::generateJacobianSource() {
     if (_jacMode == JacobianADMode::Automatic) {
         jac = _fun.Jacobian(indVars);
     } else if (_jacMode == JacobianADMode::Forward) {
+        _fun.Forward(0, indVars); // not performed by JacobianFor()
         JacobianFor(_fun, indVars, jac);
     } else {
+        _fun.Forward(0, indVars); // not performed by JacobianRev()
         JacobianRev(_fun, indVars, jac);
     }
 
-- 
2.43.0


From 54b45eac77f69cfe305529b35215268f40597779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 34/54] fix: atomic functions were evaluated without the lower
 order results

---
 include/cppad/cg/abstract_atomic_fun.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/cppad/cg/abstract_atomic_fun.hpp b/include/cppad/cg/abstract_atomic_fun.hpp
index 4928e99..14b58e0 100644
--- a/include/cppad/cg/abstract_atomic_fun.hpp
+++ b/include/cppad/cg/abstract_atomic_fun.hpp
@@ -101,7 +101,11 @@ public:
 
         CppAD::vector<CGB> x;
 
+        // coefficients of the lower orders of ty are inputs
         bool valuesDefined = BaseAbstractAtomicFun<Base>::isValuesDefined(tx);
+        for (size_t i = 0; i < ty.size() && valuesDefined; i++) {
+            valuesDefined = i % (p + 1) >= q || ty[i].isValueDefined();
+        }
         if (vx.size() > 0) {
             size_t n = vx.size();
             x.resize(n);
@@ -115,7 +119,7 @@ public:
         bool allParameters = BaseAbstractAtomicFun<Base>::isParameters(tx);
         if (allParameters) {
             vector<Base> tyb;
-            if (!evalForwardValues(q, p, tx, tyb, ty.size()))
+            if (!evalForwardValues(q, p, tx, tyb, ty))
                 return false;
 
             CPPADCG_ASSERT_UNKNOWN(tyb.size() == ty.size())
@@ -185,7 +189,7 @@ public:
 
         vector<Base> tyb;
         if (valuesDefined) {
-            if (!evalForwardValues(q, p, tx, tyb, ty.size()))
+            if (!evalForwardValues(q, p, tx, tyb, ty))
                 return false;
         }
 
@@ -547,13 +551,17 @@ private:
                                   size_t p,
                                   const CppAD::vector<CGB>& tx,
                                   CppAD::vector<Base>& tyb,
-                                  size_t ty_size) {
+                                  const CppAD::vector<CGB>& ty) {
         CppAD::vector<Base> txb(tx.size());
-        tyb.resize(ty_size);
+        tyb.resize(ty.size());
 
         for (size_t i = 0; i < txb.size(); i++) {
             txb[i] = tx[i].getValue();
         }
+        for (size_t i = 0; i < tyb.size(); i++) {
+            if (i % (p + 1) < q)
+                tyb[i] = ty[i].getValue();
+        }
 
         return atomicForward(q, p, txb, tyb);
     }
-- 
2.43.0


From 45df497af361ea3905dd9adb8e6f2d1458bf74e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 35/54] fix: calls of atomic functions for orders 0 to 1 lost
 the results of order 0

---
 include/cppad/cg/abstract_atomic_fun.hpp | 25 ++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/cppad/cg/abstract_atomic_fun.hpp b/include/cppad/cg/abstract_atomic_fun.hpp
index 14b58e0..364c9f4 100644
--- a/include/cppad/cg/abstract_atomic_fun.hpp
+++ b/include/cppad/cg/abstract_atomic_fun.hpp
@@ -131,6 +131,31 @@ public:
 
         size_t m = ty.size() / (p + 1);
 
+        if (q < p) {
+            /**
+             * an evaluation in the generated code only provides the
+             * coefficients of order p, therefore each order requires its own
+             */
+            size_t n = tx.size() / (p + 1);
+            for (size_t k = q; k <= p; k++) {
+                vector<bool> vxk, vyk;
+                vector<CGB> txk(n * (k + 1)), tyk(m * (k + 1));
+                for (size_t l = 0; l <= k; l++) {
+                    for (size_t j = 0; j < n; j++)
+                        txk[j * (k + 1) + l] = tx[j * (p + 1) + l];
+                    for (size_t i = 0; i < m; i++)
+                        tyk[i * (k + 1) + l] = ty[i * (p + 1) + l];
+                }
+
+                if (!forward(k, k, vxk, vyk, txk, tyk))
+                    return false;
+
+                for (size_t i = 0; i < m; i++)
+                    ty[i * (p + 1) + k] = tyk[i * (k + 1) + k];
+            }
+            return true;
+        }
+
         vector<bool> vyLocal;
         if (p == 0) {
             vyLocal = vy;
-- 
2.43.0


From 5215c2105093b6a50871941b399c5e27d7c46426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 36/54] fix: results of atomic functions outside a tape were
 replaced by zero

---
 include/cppad/cg/abstract_atomic_fun.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/cppad/cg/abstract_atomic_fun.hpp b/include/cppad/cg/abstract_atomic_fun.hpp
index 364c9f4..b9b7802 100644
--- a/include/cppad/cg/abstract_atomic_fun.hpp
+++ b/include/cppad/cg/abstract_atomic_fun.hpp
@@ -157,9 +157,7 @@ public:
         }
 
         vector<bool> vyLocal;
-        if (p == 0) {
-            vyLocal = vy;
-        } else if (p >= 1) {
+        if (p >= 1) {
             /**
              * Use the jacobian sparsity to determine which elements
              * will always be zero
-- 
2.43.0


From a6ee3f91b9b065cae01acaaf3bbbe096279ab5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 37/54] fix: second order reverse mode of atomic functions lost
 the first order terms

---
 include/cppad/cg/abstract_atomic_fun.hpp | 59 ++++++++++++++++++++++++
 1 file changed, 59 insertions(+)

diff --git a/include/cppad/cg/abstract_atomic_fun.hpp b/include/cppad/cg/abstract_atomic_fun.hpp
index b9b7802..c33b040 100644
--- a/include/cppad/cg/abstract_atomic_fun.hpp
+++ b/include/cppad/cg/abstract_atomic_fun.hpp
@@ -286,6 +286,63 @@ public:
             return true;
         }
 
+        if (p != 1) {
+            return recordReverse(p, tx, ty, px, py);
+        }
+
+        /**
+         * A recorded second-order call only provides the second-order term of
+         * px_0 (py_0 must be zero). The remaining terms are the products of
+         * the transposed Jacobian and py_k, which require first-order calls.
+         */
+        const size_t n = tx.size() / 2;
+        const size_t m = ty.size() / 2;
+
+        vector<CGB> x(n), y(m), w(m), pxFirst(n), pySecond(py);
+        for (size_t j = 0; j < n; j++)
+            x[j] = tx[j * 2];
+
+        size_t k = 1;
+        for (size_t i = 0; i < m; i++) {
+            y[i] = ty[i * 2];
+            if (!py[i * 2].isIdenticalZero()) {
+                pySecond[i * 2] = Base(0.0);
+                k = 0;
+            }
+        }
+        for (size_t i = 0; i < m; i++)
+            w[i] = py[i * 2 + k];
+
+        if (k == 0) {
+            if (!reverse(p, tx, ty, px, pySecond))
+                return false;
+        } else {
+            if (!recordReverse(p, tx, ty, px, py))
+                return false;
+        }
+
+        if (!reverse(0, x, y, pxFirst, w))
+            return false;
+
+        for (size_t j = 0; j < n; j++) {
+            if (k == 0)
+                px[j * 2] += pxFirst[j];
+            else
+                px[j * 2 + 1] = pxFirst[j];
+        }
+
+        return true;
+    }
+
+private:
+
+    bool recordReverse(size_t p,
+                       const CppAD::vector<CGB>& tx,
+                       const CppAD::vector<CGB>& ty,
+                       CppAD::vector<CGB>& px,
+                       const CppAD::vector<CGB>& py) {
+        using CppAD::vector;
+
         /**
          * Use the Jacobian sparsity to determine which elements
          * will always be zero
@@ -443,6 +500,8 @@ public:
         return true;
     }
 
+public:
+
     inline virtual CppAD::vector<std::set<size_t>> jacobianForwardSparsitySet(size_t m,
                                                                               const CppAD::vector<CGB>& x) {
         size_t n = x.size();
-- 
2.43.0


From bbd02759d5f5cd165f8310f0532fcf19c76eb925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 38/54] fix: compressed sparse directional outputs start from
 zero

The compiled sparse forward/reverse functions may add to the elements
assigned by loops, the buffers given to them must be initialised.
---
 include/cppad/cg/model/functor_generic_model.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cppad/cg/model/functor_generic_model.hpp b/include/cppad/cg/model/functor_generic_model.hpp
index a0fa399..6f525e5 100644
--- a/include/cppad/cg/model/functor_generic_model.hpp
+++ b/include/cppad/cg/model/functor_generic_model.hpp
@@ -491,6 +491,7 @@ public:
             (*_forwardOneSparsity)(j, &pos, &nnz);
 
             _inHess[1] = &tx1[ej];
+            std::fill(compressed, compressed + nnz, Base(0)); // the compiled function can add to the elements
             int ret = (*_sparseForwardOne)(j, &_inHess[0], &_out[0], _atomicFuncArg);
 
             CPPADCG_ASSERT_KNOWN(ret == 0, "First-order forward mode failed.") // generic failure
@@ -557,6 +558,7 @@ public:
             (*_reverseOneSparsity)(i, &pos, &nnz);
 
             _inHess[1] = &py[ei];
+            std::fill(compressed, compressed + nnz, Base(0)); // the compiled function can add to the elements
             int ret = (*_sparseReverseOne)(i, &_inHess[0], &_out[0], _atomicFuncArg);
 
             CPPADCG_ASSERT_KNOWN(ret == 0, "First-order reverse mode failed.")
@@ -629,6 +631,7 @@ public:
             (*_reverseTwoSparsity)(j, &pos, &nnz);
 
             in[1] = &tx1[ej];
+            std::fill(compressed, compressed + nnz, Base(0)); // the compiled function can add to the elements
             int ret = (*_sparseReverseTwo)(j, &in[0], &_out[0], _atomicFuncArg);
 
             CPPADCG_ASSERT_KNOWN(ret == 0, "Second-order reverse mode failed.") // generic failure
-- 
2.43.0


From adebe127e9e946f0d444a30a97d7763687895091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 39/54] fix: visit every dependent when assigning iterations of
 a loop

The iterator used after an erase skipped dependents or was dereferenced
at the end of the set.
---
 include/cppad/cg/patterns/loop.hpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/include/cppad/cg/patterns/loop.hpp b/include/cppad/cg/patterns/loop.hpp
index 825894b..e07965b 100644
--- a/include/cppad/cg/patterns/loop.hpp
+++ b/include/cppad/cg/patterns/loop.hpp
@@ -428,11 +428,9 @@ public:
 
             DependentIndexSorter depSorter(group, freeDependents, dep2Equation);
 
-            auto itDep = dependents.begin();
             size_t i = 0; // iteration counter
-            while (itDep != dependents.end()) {
-                size_t dep = *itDep;
-                itDep++;
+            while (!dependents.empty()) {
+                size_t dep = *dependents.begin();
 
                 if (iterationDependents_.size() <= i)
                     iterationDependents_.resize(i + 1);
@@ -453,7 +451,6 @@ public:
                 if (pos >= 0) {
                     // assign the dependent to the first iteration with all its relationships
                     for (size_t dep2 : linkedDependents[pos]) {
-                        if (dep2 == *itDep) itDep++; //make sure the iterator is valid
                         itDepi.insert(dep2);
                         ritDepi.insert(dep2);
                         dependents.erase(dep2);
@@ -469,22 +466,23 @@ public:
 
                     i++;
                 } else {
+                    dependents.erase(dep);
+
+                    std::vector<size_t>& eqFreeDep = freeDependents[eq];
+                    auto itFreeDep = find(eqFreeDep.begin(), eqFreeDep.end(), dep); // consider using lower_bound instead
+                    CPPADCG_ASSERT_UNKNOWN(itFreeDep != eqFreeDep.end())
+
+                    eqFreeDep.erase(itFreeDep);
+
                     // maybe this dependent shares a non-indexed temporary variable
                     long posN = group.findNonIndexedLinkedRel(eq);
                     if (posN >= 0) {
                         // there are only non-indexed shared relations with other equations (delay processing...)
-                        dependents.erase(dep); // safe because of itDep++
                         nIndexedGroupPos2Eq2deps[posN][eq].insert(dep);
                     } else {
                         itDepi.insert(dep);
                         ritDepi.insert(dep);
 
-                        std::vector<size_t>& eqFreeDep = freeDependents[eq];
-                        auto itFreeDep = find(eqFreeDep.begin(), eqFreeDep.end(), dep); // consider using lower_bound instead
-                        CPPADCG_ASSERT_UNKNOWN(itFreeDep != eqFreeDep.end())
-
-                        eqFreeDep.erase(itFreeDep);
-
                         i++;
                     }
                 }
-- 
2.43.0


From 4d1369acaeb0d0ce0b44369e8431ec34f0a72ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:41 +0000
Subject: [PATCH 40/54] fix: ignore reverse two loop groups without
 contributions

---
 .../cppad/cg/model/patterns/model_c_source_gen_loops_rev2.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev2.hpp b/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev2.hpp
index 6ba1b34..dffdc00 100644
--- a/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev2.hpp
+++ b/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev2.hpp
@@ -340,6 +340,10 @@ void ModelCSourceGen<Base>::prepareSparseReverseTwoWithLoops(const std::map<size
                                                             dzDx,
                                                             jrow2CompressedLoc);
 
+            if (jrow2CompressedLoc.empty()) {
+                continue; // all the contributions of this group are zero
+            }
+
             _loopRev2Groups[&lModel][g] = jrow2CompressedLoc;
 
             LoopEndOperationNode<Base>* loopEnd = nullptr;
-- 
2.43.0


From 8673524093b46274e634001b1702ceb80f910354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:41 +0000
Subject: [PATCH 41/54] fix: multiply conditional loop Hessian contributions by
 the direction

---
 .../cppad/cg/model/patterns/model_c_source_gen_loops_rev2.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev2.hpp b/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev2.hpp
index dffdc00..64c6eb1 100644
--- a/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev2.hpp
+++ b/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev2.hpp
@@ -850,7 +850,7 @@ std::vector<std::pair<CG<Base>, IndexPattern*> > generateReverseTwoGroupOps(Code
             if (iterations.size() != group.iterations.size()) {
                 CGBase v = createReverseMode2Contribution(handler, group,
                                                           *pattern, iterations,
-                                                          gHessVal,
+                                                          gHessVal * tx1,
                                                           *info.iterationIndexOp,
                                                           group.ifElses);
                 addContribution(indexedLoopResults, hessLE, make_pair(v, (IndexPattern*) nullptr));
-- 
2.43.0


From c55d699c7d959c879e4cf003c558868029e271a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:41 +0000
Subject: [PATCH 42/54] fix: search loop Hessian elements with the tape index
 of the variable

---
 .../cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp b/include/cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp
index 09a99b3..eb134ee 100644
--- a/include/cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp
+++ b/include/cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp
@@ -460,7 +460,7 @@ void ModelCSourceGen<Base>::analyseSparseHessianWithLoops(const std::vector<size
                         if (posJ2 != nullptr) {
                             const set<size_t>& hessRow = group.getHessianSparsity()[posK1->tape];
 
-                            if (hessRow.find(j2) != hessRow.end()) {
+                            if (hessRow.find(posJ2->tape) != hessRow.end()) {
                                 if (!jInNonIndexed) {
                                     jInNonIndexed = true;
                                     CPPADCG_ASSERT_KNOWN(loopInfo.nonIndexedNonIndexedPosition.find(orig) == loopInfo.nonIndexedNonIndexedPosition.end(),
-- 
2.43.0


From 161ed842e35633514d1f1b2f5b7b49f8ba9a56d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:41 +0000
Subject: [PATCH 43/54] fix: check for the end iterator when combining loop
 equations

---
 include/cppad/cg/patterns/dependent_pattern_matcher.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/patterns/dependent_pattern_matcher.hpp b/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
index cb6ef97..af9b8d1 100644
--- a/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
+++ b/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
@@ -1140,7 +1140,7 @@ private:
                         size_t dep2 = d2i.first;
                         const OperationNode<Base>* indep = d2i.second;
                         typename map<const OperationNode<Base>*, size_t>::const_iterator it;
-                        if (itHint->first == indep) {
+                        if (itHint != eq1Indep2Dep.end() && itHint->first == indep) {
                             /**
                              * assumes that the both relations
                              * (indep<->dep1 and dep2<->indep) are in
-- 
2.43.0


From 24fb7ba86fed1a876599d32d436cae5908913f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:41 +0000
Subject: [PATCH 44/54] fix: do not create variables for indexes and index
 conditions

With a small maximum number of operations per assignment the generated
code had empty assignments or the generation never ended.
---
 include/cppad/cg/lang/c/language_c.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/cppad/cg/lang/c/language_c.hpp b/include/cppad/cg/lang/c/language_c.hpp
index 046e964..c4d349b 100644
--- a/include/cppad/cg/lang/c/language_c.hpp
+++ b/include/cppad/cg/lang/c/language_c.hpp
@@ -1096,7 +1096,7 @@ protected:
                             size_t opCount) const override {
         CGOpCode op = var.getOperationType();
         if (totalUseCount > 1) {
-            return op != CGOpCode::ArrayElement && op != CGOpCode::Index && op != CGOpCode::IndexDeclaration && op != CGOpCode::Tmp;
+            return op != CGOpCode::ArrayElement && op != CGOpCode::Index && op != CGOpCode::IndexDeclaration && op != CGOpCode::IndexCondExpr && op != CGOpCode::Tmp;
         } else {
             return (op == CGOpCode::ArrayCreation ||
                     op == CGOpCode::SparseArrayCreation ||
@@ -1113,7 +1113,10 @@ protected:
                     op == CGOpCode::IndexAssign ||
                     op == CGOpCode::Assign ||
                     opCount >= _maxOperationsPerAssignment) &&
-                    op != CGOpCode::CondResult;
+                    op != CGOpCode::CondResult &&
+                    op != CGOpCode::Index &&
+                    op != CGOpCode::IndexDeclaration &&
+                    op != CGOpCode::IndexCondExpr;
         }
     }
 
-- 
2.43.0


From 2f925b8fcdceab344c611e127313f64e69e6e752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:41 +0000
Subject: [PATCH 45/54] fix: use the variable of an evaluated value in
 dependent additions

The expression was printed again although the temporary variables it
depends on could already hold other values.
---
 include/cppad/cg/lang/c/language_c.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/cppad/cg/lang/c/language_c.hpp b/include/cppad/cg/lang/c/language_c.hpp
index c4d349b..6afe41f 100644
--- a/include/cppad/cg/lang/c/language_c.hpp
+++ b/include/cppad/cg/lang/c/language_c.hpp
@@ -1901,8 +1901,16 @@ protected:
                 useArg = op != CGOpCode::DependentRefRhs && op != CGOpCode::LoopEnd && op != CGOpCode::EndIf;
             }
 
-            if (useArg) {
-                pushAssignment(node, arg); // ignore other arguments!
+            if (useArg) { // ignore other arguments!
+                if (arg.getOperation() != nullptr && getVariableID(*arg.getOperation()) > 0) {
+                    // already evaluated: the variables it depends on might have been reused
+                    pushAssignmentStart(node);
+                    push(arg);
+                    pushAssignmentEnd(node);
+                    _streamStack.flush();
+                } else {
+                    pushAssignment(node, arg);
+                }
                 return 1;
             }
         }
-- 
2.43.0


From 373f73fa4b812259ab5f9552587ca6486c20e53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:41 +0000
Subject: [PATCH 46/54] fix: extend the iterations of conditional temporary
 variables

A temporary variable evaluated only for some of the iterations of a loop
was not evaluated for the iterations of usages found later.
---
 include/cppad/cg/code_handler.hpp      |  17 ++-
 include/cppad/cg/code_handler_impl.hpp | 156 +++++++++++++------------
 2 files changed, 99 insertions(+), 74 deletions(-)

diff --git a/include/cppad/cg/code_handler.hpp b/include/cppad/cg/code_handler.hpp
index 053acb6..6e763b1 100644
--- a/include/cppad/cg/code_handler.hpp
+++ b/include/cppad/cg/code_handler.hpp
@@ -633,9 +633,22 @@ protected:
                                               ScopeIDType oldScope,
                                               ScopeIDType commonScopeColor);
 
-    inline void updateTemporaryVarInDiffScopes(Node& code);
+    /**
+     * Whether or not a node was altered so that its expression is only
+     * evaluated for some of the iterations of a loop
+     */
+    inline static bool isConditionalTemporaryVar(const Node& node) {
+        return node.getOperationType() == CGOpCode::Tmp && !node.getInfo().empty();
+    }
+
+    inline void updateTemporaryVarInDiffScopes(Node& code,
+                                               ScopeIDType usageScope);
+
+    inline void updateConditionalTemporaryVars(Node& ifStart,
+                                               Node& endIf);
 
-    inline void restoreTemporaryVar(Node& tmp);
+    inline void restoreTemporaryVar(Node& tmp,
+                                    ScopeIDType newScope);
 
     inline void restoreTemporaryVar(Node* tmp,
                                     Node* opClone);
diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index f9ea802..2614ee4 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -824,18 +824,13 @@ void CodeHandler<Base>::markCodeBlockUsed(Node& root) {
         } else {
             // been to this node before
 
-            if (op == CGOpCode::Tmp && !code.getInfo().empty()) {
+            if (isConditionalTemporaryVar(code)) {
                 /**
                  * this node was previously altered to ensure that the
                  * evaluation of the expression is only performed for the
                  * required iterations
                  */
-                if (_scope[code] == _currentScopeColor) {
-                    // outside an if (defined for all iterations)
-                    restoreTemporaryVar(code);
-                } else {
-                    updateTemporaryVarInDiffScopes(code);
-                }
+                updateTemporaryVarInDiffScopes(code, _currentScopeColor);
 
             } else if (_scope[code] != _currentScopeColor && op != CGOpCode::LoopIndexedIndep) {
                 ScopeIDType oldScope = _scope[code];
@@ -1075,16 +1070,9 @@ inline void CodeHandler<Base>::replaceWithConditionalTempVar(Node& tmp,
 }
 
 template<class Base>
-inline void CodeHandler<Base>::updateTemporaryVarInDiffScopes(Node& code) {
-    if (_scope[code] != _currentScopeColor) {
-        return; //nothing to change
-    }
-
-    /**
-     * does this variable require a condition based on indexes?
-     */
-    if (_currentScopeColor == 0)
-        restoreTemporaryVar(code);
+inline void CodeHandler<Base>::updateTemporaryVarInDiffScopes(Node& code,
+                                                              ScopeIDType usageScope) {
+    CPPADCG_ASSERT_UNKNOWN(isConditionalTemporaryVar(code))
 
     /**
      * Determine if it should be moved into a different scope
@@ -1093,72 +1081,87 @@ inline void CodeHandler<Base>::updateTemporaryVarInDiffScopes(Node& code) {
      */
     ScopeIDType oldScope = _scope[code];
 
-    size_t depth = findFirstDifferentScope(oldScope, _currentScopeColor);
-
-    // update the scope where it should be defined
-    ScopeIDType newScope = depth == 0 ? 0 : _scopes[_currentScopeColor][depth - 1].color;
+    size_t depth = findFirstDifferentScope(oldScope, usageScope);
 
-    /**
-     * does this variable require a condition based on indexes?
-     */
-    std::vector<size_t> iterationRegions;
-    Node* bScopeNewEnd = _scopes[_currentScopeColor].back().end;
-    Node* endif = code.getArguments()[0].getOperation();
-    CPPADCG_ASSERT_UNKNOWN(endif->getOperationType() == CGOpCode::EndIf)
-    Node* bScopeOldEnd = _scopes[_scope[*endif]].back().end;
+    // the scope where it should be defined
+    ScopeIDType newScope = depth == 0 ? 0 : _scopes[usageScope][depth - 1].color;
 
-    CGOpCode bNewOp = bScopeNewEnd->getOperationType();
+    CGOpCode bNewOp = CGOpCode::LoopEnd;
+    if (usageScope != 0)
+        bNewOp = _scopes[usageScope].back().end->getOperationType();
 
-    if (bNewOp == CGOpCode::EndIf || bNewOp == CGOpCode::Else || bNewOp == CGOpCode::ElseIf) {
-        // used in 2 different if/else branches
+    if (oldScope != newScope || newScope == usageScope ||
+        (bNewOp != CGOpCode::EndIf && bNewOp != CGOpCode::Else && bNewOp != CGOpCode::ElseIf)) {
+        // used outside an if (must be defined for all iterations)
+        restoreTemporaryVar(code, newScope);
+        return;
+    }
 
-        /**
-         * determine the iterations which use this temporary variable
-         */
-        Node* bScopeNew = bScopeNewEnd->getArguments()[0].getOperation();
-        Node* bScopeOld = bScopeOldEnd->getArguments()[0].getOperation();
+    /**
+     * used in an additional if/else branch:
+     * determine the iterations which use this temporary variable
+     */
+    Node* bScopeNew = _scopes[usageScope].back().end->getArguments()[0].getOperation();
+    Node* endIf = code.getArguments()[1].getOperation();
+    CPPADCG_ASSERT_UNKNOWN(endIf->getOperationType() == CGOpCode::EndIf)
+    Node* ifStart = endIf->getArguments()[0].getOperation();
+
+    IndexOperationNode<Base>* newIterIndexOp = nullptr;
+    std::vector<size_t> iterationRegions = ifBranchIterationRanges(bScopeNew, newIterIndexOp);
+    CPPADCG_ASSERT_UNKNOWN(iterationRegions.size() >= 2)
+
+    IndexOperationNode<Base>* oldIterIndexOp = nullptr;
+    const std::vector<size_t> oldIterRegions = ifBranchIterationRanges(ifStart, oldIterIndexOp);
+    combineOverlapingIterationRanges(iterationRegions, oldIterRegions);
+    CPPADCG_ASSERT_UNKNOWN(iterationRegions.size() >= 2)
+    CPPADCG_ASSERT_UNKNOWN(newIterIndexOp != nullptr && newIterIndexOp == oldIterIndexOp)
+
+    if (iterationRegions.size() == 2 &&
+        iterationRegions[0] == 0 &&
+        iterationRegions[1] == (std::numeric_limits<size_t>::max)()) {
+        // this temporary variable is used by all iterations
+        // there is no need for an 'if'
+        restoreTemporaryVar(code, newScope);
+
+    } else if (oldIterRegions != iterationRegions) {
+        Node* cond = ifStart->getArguments()[0].getOperation();
+        CPPADCG_ASSERT_UNKNOWN(cond->getOperationType() == CGOpCode::IndexCondExpr)
+        cond->getInfo() = iterationRegions;
+
+        // what is used inside this 'if' must also be defined for the additional iterations
+        updateConditionalTemporaryVars(*ifStart, *endIf);
+    }
 
-        IndexOperationNode<Base>* newIterIndexOp = nullptr;
-        iterationRegions = ifBranchIterationRanges(bScopeNew, newIterIndexOp);
-        CPPADCG_ASSERT_UNKNOWN(iterationRegions.size() >= 2)
+}
 
-        IndexOperationNode<Base>* oldIterIndexOp = nullptr;
-        const std::vector<size_t> oldIterRegions = ifBranchIterationRanges(bScopeOld, oldIterIndexOp);
-        combineOverlapingIterationRanges(iterationRegions, oldIterRegions);
-        CPPADCG_ASSERT_UNKNOWN(iterationRegions.size() >= 2)
-        CPPADCG_ASSERT_UNKNOWN(newIterIndexOp != nullptr && newIterIndexOp == oldIterIndexOp)
+template<class Base>
+inline void CodeHandler<Base>::updateConditionalTemporaryVars(Node& ifStart,
+                                                              Node& endIf) {
+    const ScopeIDType ifScope = _scope[ifStart];
 
-        if (iterationRegions.size() == 2 &&
-            (iterationRegions[0] == 0 ||
-             iterationRegions[1] == (std::numeric_limits<size_t>::max)())) {
-            // this temporary variable is used by all iterations
-            // there is no need for an 'if'
-            restoreTemporaryVar(code);
-
-        } else if (oldIterRegions != iterationRegions) {
-            Node* cond = bScopeOld->getArguments()[0].getOperation();
-            CPPADCG_ASSERT_UNKNOWN(cond->getOperationType() == CGOpCode::IndexCondExpr)
-            cond->getInfo() = iterationRegions;
-        }
+    std::set<Node*> visited;
+    std::vector<Node*> stack{endIf.getArguments()[1].getOperation()};
+    while (!stack.empty()) {
+        Node* node = stack.back();
+        stack.pop_back();
 
-    }
+        for (const Arg& a : node->getArguments()) {
+            Node* arg = a.getOperation();
+            if (arg == nullptr || !visited.insert(arg).second)
+                continue;
 
-    if (oldScope != newScope) {
-        _scope[code] = newScope;
-        /**
-         * Must also update the scope of the arguments used by this operation
-         */
-        const std::vector<Arg>& cargs = code.getArguments();
-        size_t aSize = cargs.size();
-        for (size_t a = 0; a < aSize; a++) {
-            updateVarScopeUsage(cargs[a].getOperation(), newScope, oldScope);
+            if (isConditionalTemporaryVar(*arg) && _scope[*arg] != ifScope) {
+                updateTemporaryVarInDiffScopes(*arg, ifScope);
+            } else if (_scope[*arg] == ifScope) {
+                stack.push_back(arg);
+            }
         }
     }
-
 }
 
 template<class Base>
-inline void CodeHandler<Base>::restoreTemporaryVar(Node& tmp) {
+inline void CodeHandler<Base>::restoreTemporaryVar(Node& tmp,
+                                                   ScopeIDType newScope) {
     CPPADCG_ASSERT_UNKNOWN(tmp.getOperationType() == CGOpCode::Tmp && !tmp.getInfo().empty())
 
     Node* endIf = tmp.getArguments()[1].getOperation();
@@ -1168,7 +1171,7 @@ inline void CodeHandler<Base>::restoreTemporaryVar(Node& tmp) {
     tmp.setOperation(opClone->getOperationType(), opClone->getArguments());
     tmp.getInfo() = opClone->getInfo();
 
-    _scope[tmp] = _currentScopeColor;
+    _scope[tmp] = newScope;
 
     /**
      * Must also update the scope of the arguments used by this operation
@@ -1176,7 +1179,7 @@ inline void CodeHandler<Base>::restoreTemporaryVar(Node& tmp) {
     const std::vector<Arg>& args = tmp.getArguments();
     size_t aSize = args.size();
     for (size_t a = 0; a < aSize; a++) {
-        updateVarScopeUsage(args[a].getOperation(), _currentScopeColor, _scope[*opClone]);
+        updateVarScopeUsage(args[a].getOperation(), newScope, _scope[*opClone]);
     }
 }
 
@@ -1204,7 +1207,16 @@ template<class Base>
 inline void CodeHandler<Base>::updateVarScopeUsage(Node* node,
                                                    ScopeIDType usageScope,
                                                    ScopeIDType oldUsageScope) {
-    if (node == nullptr || _scope[*node] == usageScope)
+    if (node == nullptr)
+        return;
+
+    if (isConditionalTemporaryVar(*node)) {
+        // must also be defined for the iterations of the new usage
+        updateTemporaryVarInDiffScopes(*node, usageScope);
+        return;
+    }
+
+    if (_scope[*node] == usageScope)
         return;
 
 
-- 
2.43.0


From 346f73b506798bba91a8a80c3e88988216675e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:37 +0000
Subject: [PATCH 47/54] fix: size of the temporary array of sparse Jacobians
 and Hessians with loops

The array was too small when the elements of some rows are ordered but the
group they belong to does not have a regular start position.
---
 include/cppad/cg/model/model_c_source_gen_hes.hpp | 3 ++-
 include/cppad/cg/model/model_c_source_gen_jac.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cppad/cg/model/model_c_source_gen_hes.hpp b/include/cppad/cg/model/model_c_source_gen_hes.hpp
index efc25e3..ba37a55 100644
--- a/include/cppad/cg/model/model_c_source_gen_hes.hpp
+++ b/include/cppad/cg/model/model_c_source_gen_hes.hpp
@@ -277,7 +277,8 @@ void ModelCSourceGen<Base>::generateSparseHessianSourceFromRev2(MultiThreadingTy
     size_t maxCompressedSize = 0;
 
     for (const auto& it : hessInfo) {
-        if (it.second.indexes.size() > maxCompressedSize && !it.second.ordered)
+        // with loops a group might require the temporary array even if some of its elements are ordered
+        if (it.second.indexes.size() > maxCompressedSize && (!it.second.ordered || !_loopTapes.empty()))
             maxCompressedSize = it.second.indexes.size();
     }
 
diff --git a/include/cppad/cg/model/model_c_source_gen_jac.hpp b/include/cppad/cg/model/model_c_source_gen_jac.hpp
index 47a54a4..a8dc215 100644
--- a/include/cppad/cg/model/model_c_source_gen_jac.hpp
+++ b/include/cppad/cg/model/model_c_source_gen_jac.hpp
@@ -216,7 +216,8 @@ void ModelCSourceGen<Base>::generateSparseJacobianForRevSource(bool forward,
     map<size_t, bool>::const_iterator itOrd;
     map<size_t, std::vector<size_t> >::const_iterator it;
     for (const auto& it : jacInfo) {
-        if (it.second.indexes.size() > maxCompressedSize && !it.second.ordered)
+        // with loops a group might require the temporary array even if some of its elements are ordered
+        if (it.second.indexes.size() > maxCompressedSize && (!it.second.ordered || !_loopTapes.empty()))
             maxCompressedSize = it.second.indexes.size();
     }
 
-- 
2.43.0


From a5ab67d66527a36d56221a1467cdd6c465eb7089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:16 +0000
Subject: [PATCH 48/54] fix: forward one of loops without a Jacobian element
 for a tape column

The derivative of a loop equation relative to a tape variable is only
available for the elements which were requested; with custom Jacobian
elements map::at() threw out_of_range.
---
 .../model/patterns/model_c_source_gen_loops_for1.hpp  | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/cppad/cg/model/patterns/model_c_source_gen_loops_for1.hpp b/include/cppad/cg/model/patterns/model_c_source_gen_loops_for1.hpp
index 0a676c0..522e1f3 100644
--- a/include/cppad/cg/model/patterns/model_c_source_gen_loops_for1.hpp
+++ b/include/cppad/cg/model/patterns/model_c_source_gen_loops_for1.hpp
@@ -780,10 +780,13 @@ std::vector<std::pair<CG<Base>, IndexPattern*> > generateForwardOneGroupOps(Code
                 if (pos != nullptr) {
                     size_t tapeJ = pos->tape;
 
-                    const map<size_t, CG<Base> >& dyiDxJtapeT = dyiDxtapeT.at(tapeJ);
-                    typename map<size_t, CGBase>::const_iterator itVal = dyiDxJtapeT.find(tapeI);
-                    if (itVal != dyiDxJtapeT.end()) {
-                        jacVal += itVal->second;
+                    // might not have been requested for any equation
+                    typename map<size_t, map<size_t, CGBase> >::const_iterator itJ = dyiDxtapeT.find(tapeJ);
+                    if (itJ != dyiDxtapeT.end()) {
+                        typename map<size_t, CGBase>::const_iterator itVal = itJ->second.find(tapeI);
+                        if (itVal != itJ->second.end()) {
+                            jacVal += itVal->second;
+                        }
                     }
                 }
 
-- 
2.43.0


From c6f4396bc6b24c930840934bf2235c5dfc90fff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:16 +0000
Subject: [PATCH 49/54] fix: keep equation relations when merging loop equation
 groups

Equations linked by non-indexed variables were merged without the
relations between them, so that iterations were assigned without
taking them into account and no complete iteration could be found.
---
 include/cppad/cg/patterns/equation_group.hpp | 5 +++++
 include/cppad/cg/patterns/loop.hpp           | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/cppad/cg/patterns/equation_group.hpp b/include/cppad/cg/patterns/equation_group.hpp
index 016b334..46daf5d 100644
--- a/include/cppad/cg/patterns/equation_group.hpp
+++ b/include/cppad/cg/patterns/equation_group.hpp
@@ -95,6 +95,11 @@ public:
         linkedEquationsByNonIndexed.insert(eq1);
         linkedEquationsByNonIndexed.insert(eq2);
 
+        addNonIndexedLinkedRel(eq1, eq2);
+    }
+
+    inline void addNonIndexedLinkedRel(EquationPattern<Base>* eq1,
+                                       EquationPattern<Base>* eq2) {
         size_t size = linkedEquationsByNonIndexedRel.size();
         size_t pos1 = size;
         size_t pos2 = size;
diff --git a/include/cppad/cg/patterns/loop.hpp b/include/cppad/cg/patterns/loop.hpp
index e07965b..49f1cd7 100644
--- a/include/cppad/cg/patterns/loop.hpp
+++ b/include/cppad/cg/patterns/loop.hpp
@@ -253,6 +253,11 @@ public:
             g.linkedEquationsByNonIndexed.erase(itNIndexed);
         }
 
+        for (const std::set<EquationPattern<Base>*>& rel : og.linkedEquationsByNonIndexedRel) {
+            for (EquationPattern<Base>* eq : rel)
+                g.addNonIndexedLinkedRel(*rel.begin(), eq);
+        }
+
         for (size_t e = 0; e < nonIndexedLoopRelations.size(); e++) {
             g.addLinkedEquationsByNonIndexed(nonIndexedLoopRelations[e].first, nonIndexedLoopRelations[e].second);
         }
-- 
2.43.0


From 05fd6e7f8db4b1c7e5e8299557c9b96c193a6740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:08 +0000
Subject: [PATCH 50/54] fix: a tool that does not read all of its input or a
 partial write breaks the execution of tools

---
 .../cppad/cg/model/system/linux_system.hpp    | 34 +++++++++++++++++--
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/include/cppad/cg/model/system/linux_system.hpp b/include/cppad/cg/model/system/linux_system.hpp
index 1b0c932..8ecb155 100644
--- a/include/cppad/cg/model/system/linux_system.hpp
+++ b/include/cppad/cg/model/system/linux_system.hpp
@@ -17,6 +17,7 @@
  */
 
 #if CPPAD_CG_SYSTEM_LINUX
+#include <signal.h>
 #include <unistd.h>
 #include <sys/types.h>
 #include <sys/wait.h>
@@ -324,10 +325,37 @@ inline void callExecutable(const std::string& executable,
     if (stdInMessage != nullptr) {
         // close read end of pipe
         pipeSrc.read.close();
+        // the executable might not read all its input (e.g. due to an invalid
+        // argument), which must not terminate this process with a SIGPIPE
+        sigset_t sigPipe, oldMask, pending;
+        sigemptyset(&sigPipe);
+        sigaddset(&sigPipe, SIGPIPE);
+        sigemptyset(&pending);
+        sigpending(&pending);
+        bool wasPending = sigismember(&pending, SIGPIPE) == 1;
+        pthread_sigmask(SIG_BLOCK, &sigPipe, &oldMask);
+
         //Pipe source to the executable
-        ssize_t writeFlag = write(pipeSrc.write.fd, stdInMessage->c_str(), stdInMessage->size());
-        if (writeFlag == -1)
-            writeError = readCErrorMsg() + " ";
+        const char* src = stdInMessage->c_str();
+        size_t left = stdInMessage->size();
+        while (left > 0) {
+            ssize_t writeFlag = write(pipeSrc.write.fd, src, left);
+            if (writeFlag == -1) {
+                if (errno == EINTR)
+                    continue;
+                bool brokenPipe = errno == EPIPE;
+                writeError = readCErrorMsg() + " ";
+                if (brokenPipe && !wasPending) {
+                    int sig;
+                    sigwait(&sigPipe, &sig); // discard the signal
+                }
+                break;
+            }
+            src += writeFlag;
+            left -= writeFlag;
+        }
+
+        pthread_sigmask(SIG_SETMASK, &oldMask, nullptr);
         pipeSrc.write.close();
     }
 
-- 
2.43.0


From 54d3a21ae5cf3cbfe2f73483255f373db85da28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:08 +0000
Subject: [PATCH 51/54] fix: read the output of tools to the end

---
 include/cppad/cg/model/system/linux_system.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/cppad/cg/model/system/linux_system.hpp b/include/cppad/cg/model/system/linux_system.hpp
index 8ecb155..15d5160 100644
--- a/include/cppad/cg/model/system/linux_system.hpp
+++ b/include/cppad/cg/model/system/linux_system.hpp
@@ -372,14 +372,12 @@ inline void callExecutable(const std::string& executable,
             while ((n = read(pipeStdOutErr.read.fd, buffer, sizeof (buffer))) > 0) {
                 messageStdOutErr.write(buffer, n);
                 size += n;
-                if (size > 1e4) break;
             }
         }
 
         while ((n = read(pipeMsg.read.fd, buffer, sizeof (buffer))) > 0) {
             messageErr.write(buffer, n);
             size += n;
-            if (size > 1e4) break;
         }
 
         if (waitpid(pid, &status, 0) < 0) {
-- 
2.43.0


From 32f3ac722e8983b23bd47cf164359b6deafc89e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:08 +0000
Subject: [PATCH 52/54] fix: option to create bit code remains in the
 compilation flags

---
 include/cppad/cg/model/compiler/clang_compiler.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cppad/cg/model/compiler/clang_compiler.hpp b/include/cppad/cg/model/compiler/clang_compiler.hpp
index af5c2fc..d220037 100644
--- a/include/cppad/cg/model/compiler/clang_compiler.hpp
+++ b/include/cppad/cg/model/compiler/clang_compiler.hpp
@@ -79,6 +79,7 @@ public:
             this->_compileFlags.pop_back();
             throw;
         }
+        this->_compileFlags.pop_back();
     }
 
     /**
-- 
2.43.0


From 5272ef9bd38d9ffdf8c7fc362f4af51b8419ad2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:08 +0000
Subject: [PATCH 53/54] fix: custom library name extension ignored when the
 library is loaded

---
 .../linux/linux_dynamic_model_library_processor.hpp    | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/cppad/cg/model/dynamic_lib/linux/linux_dynamic_model_library_processor.hpp b/include/cppad/cg/model/dynamic_lib/linux/linux_dynamic_model_library_processor.hpp
index 3f8d074..9875b85 100644
--- a/include/cppad/cg/model/dynamic_lib/linux/linux_dynamic_model_library_processor.hpp
+++ b/include/cppad/cg/model/dynamic_lib/linux/linux_dynamic_model_library_processor.hpp
@@ -22,12 +22,18 @@ namespace cg {
 template<class Base>
 std::unique_ptr<DynamicLib<Base>> DynamicModelLibraryProcessor<Base>::loadDynamicLibrary() {
     std::unique_ptr<DynamicLib<Base>> lib;
+    std::string libname = _libraryName;
+    if (_customLibExtension != nullptr)
+        libname += *_customLibExtension;
+    else
+        libname += system::SystemInfo<>::DYNAMIC_LIB_EXTENSION;
+
     const auto it = _options.find("dlOpenMode");
     if (it == _options.end()) {
-        lib.reset(new LinuxDynamicLib<Base>(_libraryName + system::SystemInfo<>::DYNAMIC_LIB_EXTENSION));
+        lib.reset(new LinuxDynamicLib<Base>(libname));
     } else {
         int dlOpenMode = std::stoi(it->second);
-        lib.reset(new LinuxDynamicLib<Base>(_libraryName + system::SystemInfo<>::DYNAMIC_LIB_EXTENSION, dlOpenMode));
+        lib.reset(new LinuxDynamicLib<Base>(libname, dlOpenMode));
     }
     return lib;
 }
-- 
2.43.0


From fdb4fd5a26cb6bad5f385b94c21f0eb17c356787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:08 +0000
Subject: [PATCH 54/54] fix: endless Pantelides method and refused valid
 systems: exact structural check

---
 .../cg/dae_index_reduction/pantelides.hpp     | 53 +++++++++++++------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/include/cppad/cg/dae_index_reduction/pantelides.hpp b/include/cppad/cg/dae_index_reduction/pantelides.hpp
index ad65799..d881b30 100644
--- a/include/cppad/cg/dae_index_reduction/pantelides.hpp
+++ b/include/cppad/cg/dae_index_reduction/pantelides.hpp
@@ -113,6 +113,14 @@ protected:
 
         Enode<Base>* ll;
 
+        // structural check to avoid infinite recursion
+        std::map<Vnode<Base>*, Enode<Base>*> matches;
+        for (Enode<Base>* i : enodes) {
+            std::set<Vnode<Base>*> visited;
+            if (!matchOriginalVariable(*i, matches, visited))
+                throw CGException("Invalid equation structure. The model appears to be over-defined.");
+        }
+
         if (this->verbosity_ >= Verbosity::High)
             graph_.printDot(this->log());
 
@@ -159,21 +167,6 @@ protected:
                         }
                     }
 
-                    // structural check to avoid infinite recursion
-                    for (size_t l = esize; l < enodes.size(); l++) {
-                        ll = enodes[l];
-                        const std::vector<Vnode<Base>*>& nvars = ll->originalVariables();
-                        bool ok = false;
-                        for (Vnode<Base>* js : nvars) {
-                            if (js->equations().size() > 1) {
-                                ok = true;
-                                break;
-                            }
-                        }
-                        if (!ok)
-                            throw CGException("Invalid equation structure. The model appears to be over-defined.");
-                    }
-
                     for (Vnode<Base>* jj : vnodes) {
                         if (jj->isColored() && !jj->isDeleted()) {
                             Vnode<Base>* jDiff = jj->derivative();
@@ -195,6 +188,36 @@ protected:
 
     }
 
+    /**
+     * Associates an equation with an original variable (present in the
+     * equation itself or through any of its time derivatives) which is not
+     * associated with any other equation.
+     * Without a variable for each of the equations, it would never be possible
+     * to assign the equations no matter how often they are differentiated.
+     *
+     * @param i the equation
+     * @param matches the equation associated with each of the variables
+     * @param visited the variables which were already tried
+     * @return true if there is a variable for this equation
+     */
+    inline bool matchOriginalVariable(Enode<Base>& i,
+                                      std::map<Vnode<Base>*, Enode<Base>*>& matches,
+                                      std::set<Vnode<Base>*>& visited) {
+        for (Vnode<Base>* jj : i.originalVariables()) {
+            Vnode<Base>* j = jj->originalVariable();
+            if (!visited.insert(j).second)
+                continue;
+
+            auto it = matches.find(j);
+            if (it == matches.end() || matchOriginalVariable(*it->second, matches, visited)) {
+                matches[j] = &i;
+                return true;
+            }
+        }
+
+        return false;
+    }
+
 };
 
 } // END cg namespace
-- 
2.43.0

