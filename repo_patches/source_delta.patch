From d3cc444ea8925b3d428eddc0f79712f41d36ad19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 01/50] fix: LruCache with a capacity of one dereferences a
 null pointer on insertion

---
 cpp/common/lru_cache.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cpp/common/lru_cache.h b/cpp/common/lru_cache.h
index 036e4dd..5ca6a41 100644
--- a/cpp/common/lru_cache.h
+++ b/cpp/common/lru_cache.h
@@ -123,6 +123,12 @@ class LruCache {
   }
 
   Entry* GetNewHead() {
+    // With a single entry there is no list to update.
+    if (head_ == tail_) {
+      index_.clear();
+      return head_;
+    }
+
     // Remove tail element.
     auto new_tail = tail_->pred;
     new_tail->succ = nullptr;
-- 
2.43.0


From 404f5b2482fdb6a6d7a283e292d868f5e6e515c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 02/50] fix: LruCache keeps stale index entries when an
 insertion or Clear fails with an exception

---
 cpp/common/lru_cache.h | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/cpp/common/lru_cache.h b/cpp/common/lru_cache.h
index 5ca6a41..ba93d31 100644
--- a/cpp/common/lru_cache.h
+++ b/cpp/common/lru_cache.h
@@ -54,10 +54,13 @@ class LruCache {
       return it->second->value;
     }
 
+    // Copying keys may throw, thus it is done before anything is modified.
+    Key entry_key = key;
+    Key index_key = key;
     auto entry = GetNewHead();
-    entry->key = key;
+    entry->key = std::move(entry_key);
     entry->value = std::move(value);
-    index_[key] = entry;
+    index_[std::move(index_key)] = entry;
 
     TOSCA_ASSERT(index_.size() <= Capacity);
 
@@ -80,16 +83,16 @@ class LruCache {
 
   void Clear() {
     std::scoped_lock lock(mutex_);
-    entries_.clear();
-    entries_.resize(Capacity);
+    // If any of these steps fails, the index only refers to valid entries.
+    index_.clear();
+    index_.reserve(Capacity);
+    entries_ = std::vector<Entry>(Capacity);
     for (size_t i = 0; i < entries_.size(); i++) {
       entries_[i].pred = i > 0 ? &entries_[i - 1] : nullptr;
       entries_[i].succ = i < entries_.size() ? &entries_[i + 1] : nullptr;
     }
     head_ = &entries_[0];
     tail_ = &entries_[Capacity - 1];
-    index_.clear();
-    index_.reserve(Capacity);
   }
 
  private:
@@ -132,8 +135,10 @@ class LruCache {
     // Remove tail element.
     auto new_tail = tail_->pred;
     new_tail->succ = nullptr;
-    if (index_.size() >= entries_.size()) {
-      index_.erase(tail_->key);
+    // After a failed insertion the tail may not be indexed, or its key may be
+    // indexed by another entry.
+    if (auto it = index_.find(tail_->key); it != index_.end() && it->second == tail_) {
+      index_.erase(it);
     }
     auto result = tail_;
     tail_ = new_tail;
-- 
2.43.0


From 357a67072db546fcac0f21a856143c02683e5b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:29 +0000
Subject: [PATCH 03/50] fix: lfvm hash cache reads cached hashes while holding
 the lock

---
 go/interpreter/lfvm/hash_cache.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/go/interpreter/lfvm/hash_cache.go b/go/interpreter/lfvm/hash_cache.go
index f6b651d..ea2afc2 100644
--- a/go/interpreter/lfvm/hash_cache.go
+++ b/go/interpreter/lfvm/hash_cache.go
@@ -108,8 +108,11 @@ func (h *hashCache[K]) getHash(key K) tosca.Hash {
 			h.head.pred = entry
 			h.head = entry
 		}
+		// The hash needs to be read while holding the lock since the entry
+		// may be evicted and reused by another thread afterwards.
+		hash := entry.hash
 		h.lock.Unlock()
-		return entry.hash
+		return hash
 	}
 
 	// Compute the hash without holding the lock.
-- 
2.43.0


From c3220c7404a4feb62860dbebc5d3790bcb49e322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:13 +0000
Subject: [PATCH 04/50] fix: evmzero reports no gas refund for reverted or
 failed executions

---
 cpp/vm/evmzero/evmzero.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp/vm/evmzero/evmzero.cc b/cpp/vm/evmzero/evmzero.cc
index 0781950..260be94 100644
--- a/cpp/vm/evmzero/evmzero.cc
+++ b/cpp/vm/evmzero/evmzero.cc
@@ -163,10 +163,12 @@ class VM : public evmc_vm {
       std::copy(interpreter_result.return_data.begin(), interpreter_result.return_data.end(), output_data);
     }
 
+    const auto status_code = ToEvmcStatusCode(interpreter_result.state);
     return {
-        .status_code = ToEvmcStatusCode(interpreter_result.state),
+        .status_code = status_code,
         .gas_left = interpreter_result.remaining_gas,
-        .gas_refund = interpreter_result.refunded_gas,
+        // Refunds of reverted or failed executions are void (see EVMC specification).
+        .gas_refund = status_code == EVMC_SUCCESS ? interpreter_result.refunded_gas : 0,
         .output_data = output_data,
         .output_size = interpreter_result.return_data.size(),
         .release = [](const evmc_result* result) { delete[] result->output_data; },
-- 
2.43.0


From 114f8ef0fb0007d9fab4cdab94f1208517aa6fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:54 +0000
Subject: [PATCH 05/50] fix: account generator draws all its randomness from
 the given source, in a fixed order

---
 go/ct/gen/accounts.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/go/ct/gen/accounts.go b/go/ct/gen/accounts.go
index c5ed458..997f52d 100644
--- a/go/ct/gen/accounts.go
+++ b/go/ct/gen/accounts.go
@@ -11,6 +11,7 @@
 package gen
 
 import (
+	"bytes"
 	"fmt"
 	"slices"
 	"sort"
@@ -210,8 +211,10 @@ func (g *AccountsGenerator) Generate(assignment Assignment, rnd *rand.Rand, acco
 		accountsBuilder.SetBalance(address, NewU256(0))
 		accountsBuilder.SetCode(address, Bytes{})
 	}
-	for address := range nonEmptyAccounts {
-		switch rand.Intn(3) {
+	// Accounts are processed in a fixed order since each of them consumes
+	// random numbers, and generated states must be reproducible.
+	for _, address := range sortedAddresses(nonEmptyAccounts) {
+		switch rnd.Intn(3) {
 		case 0:
 			accountsBuilder.SetBalance(address, NewU256(1))
 		case 1:
@@ -291,13 +294,16 @@ func (g *AccountsGenerator) processBalanceConstraints(
 		upperBounds[address] = NewU256(0)
 	}
 
-	// Get list of all accounts to be resolved.
-	accounts := maps.Keys(lowerBounds)
-	for _, address := range maps.Keys(upperBounds) {
-		if _, isPresent := lowerBounds[address]; !isPresent {
-			accounts = append(accounts, address)
-		}
+	// Get list of all accounts to be resolved. The order needs to be fixed
+	// since each of them consumes random numbers.
+	toResolve := map[tosca.Address]struct{}{}
+	for address := range lowerBounds {
+		toResolve[address] = struct{}{}
+	}
+	for address := range upperBounds {
+		toResolve[address] = struct{}{}
 	}
+	accounts := sortedAddresses(toResolve)
 
 	// Apply constraints to the accounts to obtain balances.
 	for _, address := range accounts {
@@ -321,6 +327,13 @@ func (g *AccountsGenerator) processBalanceConstraints(
 	return nil
 }
 
+// sortedAddresses lists the given addresses in a deterministic order.
+func sortedAddresses(addresses map[tosca.Address]struct{}) []tosca.Address {
+	res := maps.Keys(addresses)
+	slices.SortFunc(res, func(a, b tosca.Address) int { return bytes.Compare(a[:], b[:]) })
+	return res
+}
+
 type emptyConstraint struct {
 	address Variable
 	empty   bool
-- 
2.43.0


From 710d2d2b2ef180025f5ebcfcd33e0cf2df9c8fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:25 +0000
Subject: [PATCH 06/50] fix: state generators process constrained variables in
 a fixed order

---
 go/ct/gen/block_context.go       | 9 ++++++++-
 go/ct/gen/transaction_context.go | 6 +++++-
 go/ct/gen/transient_storage.go   | 8 ++++++--
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/go/ct/gen/block_context.go b/go/ct/gen/block_context.go
index a440a86..21eafad 100644
--- a/go/ct/gen/block_context.go
+++ b/go/ct/gen/block_context.go
@@ -148,7 +148,14 @@ func (b *BlockContextGenerator) bindVariablesInRangeConstraints(resultingBlockNu
 	upperBound := resultingBlockNumber
 	blockNumberRangeGenerator := NewRangeSolver(lowerBound, upperBound-1)
 
-	for variable, inRange := range b.rangeConstraints {
+	// variables are processed in a fixed order to obtain reproducible states
+	variables := make([]Variable, 0, len(b.rangeConstraints))
+	for variable := range b.rangeConstraints {
+		variables = append(variables, variable)
+	}
+	sort.Slice(variables, func(i, j int) bool { return variables[i] < variables[j] })
+	for _, variable := range variables {
+		inRange := b.rangeConstraints[variable]
 		if currentValue, isBound := assignment[variable]; isBound {
 			if inRange != isInRange(lowerBound, currentValue, upperBound) {
 				return ErrUnsatisfiable
diff --git a/go/ct/gen/transaction_context.go b/go/ct/gen/transaction_context.go
index 114e2d4..fb20e46 100644
--- a/go/ct/gen/transaction_context.go
+++ b/go/ct/gen/transaction_context.go
@@ -68,7 +68,11 @@ func (t *TransactionContextGenerator) Generate(assignment Assignment, rnd *rand.
 	if minMustNotHaveBlobHash != 0 {
 		blobHashesCount += 1
 	}
-	for variable, hasBlobHash := range t.blobHashVariables {
+	// variables are processed in a fixed order to obtain reproducible states
+	variables := maps.Keys(t.blobHashVariables)
+	sort.Slice(variables, func(i, j int) bool { return variables[i] < variables[j] })
+	for _, variable := range variables {
+		hasBlobHash := t.blobHashVariables[variable]
 		// the bounded variables are dealt with above
 		if _, isBound := assignment[variable]; !isBound {
 			newValueRangeSolver := NewRangeSolver(0, blobHashesCount-1)
diff --git a/go/ct/gen/transient_storage.go b/go/ct/gen/transient_storage.go
index 71d5599..e1e7085 100644
--- a/go/ct/gen/transient_storage.go
+++ b/go/ct/gen/transient_storage.go
@@ -79,8 +79,12 @@ func (t *TransientStorageGenerator) Generate(assignment Assignment, rnd *rand.Ra
 
 	transientStorage := &st.TransientStorage{}
 
-	// Process zero/nonZero constraints.
-	for variable, nonZero := range t.nonZeroConstraints {
+	// Process zero/nonZero constraints, in a fixed order to obtain reproducible
+	// states.
+	variables := maps.Keys(t.nonZeroConstraints)
+	slices.Sort(variables)
+	for _, variable := range variables {
+		nonZero := t.nonZeroConstraints[variable]
 
 		// Check different assignments with the same key whether they conflict
 		if _, isBound := assignment[variable]; isBound {
-- 
2.43.0


From 9331ea81a3d6a16cdf8825dfe30eb564d2b1ab5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:15 +0000
Subject: [PATCH 07/50] fix: ct run reports the cause of a panic of the tested
 EVM

---
 go/ct/driver/run.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/ct/driver/run.go b/go/ct/driver/run.go
index 1900405..76c26fe 100644
--- a/go/ct/driver/run.go
+++ b/go/ct/driver/run.go
@@ -104,7 +104,7 @@ func doRun(context *cli.Context) error {
 		defer func() {
 			if r := recover(); r != nil {
 				result = rlz.ConsumeAbort
-				issuesCollector.AddIssue(state, fmt.Errorf("VM panicked while processing state %v: %w", state, err))
+				issuesCollector.AddIssue(state, fmt.Errorf("VM panicked while processing state %v: %v", state, r))
 			}
 		}()
 
-- 
2.43.0


From a3976beb1a5be6eea7a779de98aaf6192f6d0554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:33 +0000
Subject: [PATCH 08/50] fix: ct test compares the effects of all rules matching
 a state

---
 go/ct/driver/test.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/go/ct/driver/test.go b/go/ct/driver/test.go
index f307c94..c9cb5f3 100644
--- a/go/ct/driver/test.go
+++ b/go/ct/driver/test.go
@@ -57,13 +57,20 @@ func doTest(context *cli.Context) error {
 	}
 
 	opTest := func(state *st.State) rlz.ConsumerResult {
+		// TODO: do not only skip state but change 'pc_on_data_is_ignored' rule to anyEffect, see #954
+		// Pc on data is not supported
+		if !state.Code.IsCode(int(state.Pc)) {
+			skippedCount.Add(1)
+			return rlz.ConsumeContinue
+		}
+
 		rules := spc.Spec.GetRulesFor(state)
 		if len(rules) > 1 {
 			s0 := state.Clone()
 			defer s0.Release()
 
 			rules[0].Effect.Apply(s0)
-			for i := 1; i < len(rules)-1; i++ {
+			for i := 1; i < len(rules); i++ {
 				s := state.Clone()
 				defer s.Release()
 				rules[i].Effect.Apply(s)
@@ -85,7 +92,7 @@ func doTest(context *cli.Context) error {
 
 	// Summarize the result.
 	if skippedCount.Load() > 0 {
-		fmt.Printf("Number of skipped tests: %d", skippedCount.Load())
+		fmt.Printf("Number of skipped tests: %d\n", skippedCount.Load())
 	}
 
 	if issuesCollector.NumIssues() == 0 {
-- 
2.43.0


From bc4bd8abd4e836be36f1a6add6c911b4c80bdbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:01 +0000
Subject: [PATCH 09/50] fix: conformance-test stacks grow beyond their initial
 capacity

---
 go/ct/st/stack.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/go/ct/st/stack.go b/go/ct/st/stack.go
index 5815059..395b4fe 100644
--- a/go/ct/st/stack.go
+++ b/go/ct/st/stack.go
@@ -48,7 +48,7 @@ func NewStackWithSize(size int) *Stack {
 	if MaxStackSize < size {
 		panic("Warning: maximal stack size exceeded")
 	}
-	stack.stack = stack.stack[:size]
+	stack.Resize(size)
 	return stack
 }
 
@@ -72,6 +72,12 @@ func (s *Stack) Resize(size int) {
 	if MaxStackSize < size {
 		panic("Warning: maximal stack size exceeded")
 	}
+	if cap(s.stack) < size {
+		resized := make([]U256, size)
+		copy(resized, s.stack)
+		s.stack = resized
+		return
+	}
 	s.stack = s.stack[:size]
 }
 
-- 
2.43.0


From 2bc7575b5e2ee7a0de0d3fcd25384822f5bb97eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:01 +0000
Subject: [PATCH 10/50] fix: lfvm conformance-test target accepts positions
 beyond the end of the code

---
 go/interpreter/lfvm/ct.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/go/interpreter/lfvm/ct.go b/go/interpreter/lfvm/ct.go
index 0bd6676..b5e92a8 100644
--- a/go/interpreter/lfvm/ct.go
+++ b/go/interpreter/lfvm/ct.go
@@ -56,11 +56,14 @@ func (a *ctAdapter) StepN(state *st.State, numSteps int) (*st.State, error) {
 
 	pcMap := a.getPcMap(state.Code)
 
+	// All positions beyond the end of the code point to an implicit STOP.
+	pc := min(int(state.Pc), state.Code.Length())
+
 	memory := convertCtMemoryToLfvmMemory(state.Memory)
 
 	// Set up execution context.
 	var ctxt = &context{
-		pc:           int32(pcMap.evmToLfvm[state.Pc]),
+		pc:           int32(pcMap.evmToLfvm[pc]),
 		params:       params,
 		context:      params.Context,
 		gas:          params.Gas,
-- 
2.43.0


From 2f3c85f9fdde0150e5ad008270f29af35fe51650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:10 +0000
Subject: [PATCH 11/50] fix: lfvm conformance-test target does not count
 artificial jumps as steps

---
 go/interpreter/lfvm/ct.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/go/interpreter/lfvm/ct.go b/go/interpreter/lfvm/ct.go
index b5e92a8..5c5fdd5 100644
--- a/go/interpreter/lfvm/ct.go
+++ b/go/interpreter/lfvm/ct.go
@@ -83,6 +83,11 @@ func (a *ctAdapter) StepN(state *st.State, numSteps int) (*st.State, error) {
 	status := statusRunning
 	for i := 0; status == statusRunning && i < numSteps; i++ {
 		status = execute(ctxt, true)
+		// JUMP_TO instructions are artifacts of the code conversion and do not
+		// count as steps.
+		for status == statusRunning && int(ctxt.pc) < len(ctxt.code) && ctxt.code[ctxt.pc].opcode == JUMP_TO {
+			status = execute(ctxt, true)
+		}
 	}
 
 	// Update the resulting state.
-- 
2.43.0


From 3edd2b9374d26d189fd0e90ada7030042a18335a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:51 +0000
Subject: [PATCH 12/50] fix: RegisterInterpreter accepted a nil interpreter

---
 go/tosca/interpreter_registry.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/go/tosca/interpreter_registry.go b/go/tosca/interpreter_registry.go
index 8b1e758..b21b0fd 100644
--- a/go/tosca/interpreter_registry.go
+++ b/go/tosca/interpreter_registry.go
@@ -84,6 +84,9 @@ func GetAllRegisteredInterpreters() map[string]InterpreterFactory {
 //
 // Deprecated: Use RegisterInterpreterFactory instead.
 func RegisterInterpreter(name string, impl Interpreter) {
+	if impl == nil {
+		panic(fmt.Sprintf("invalid initialization: cannot register nil-interpreter using `%s`", strings.ToLower(name)))
+	}
 	err := RegisterInterpreterFactory(name, func(any) (Interpreter, error) {
 		return impl, nil
 	})
-- 
2.43.0


From f8003f0bcd184bb4ffc318d809eec767bc1cc095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:51 +0000
Subject: [PATCH 13/50] fix: floria consumed the gas of calls it refuses to
 start

---
 go/processor/floria/run_context.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 64f6c15..cab27e1 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -33,7 +33,7 @@ type runContext struct {
 
 func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (tosca.CallResult, error) {
 	if r.depth > MaxRecursiveDepth {
-		return tosca.CallResult{}, nil
+		return tosca.CallResult{GasLeft: parameters.Gas}, nil
 	}
 	r.depth++
 	defer func() { r.depth-- }()
@@ -81,7 +81,7 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 	if kind != tosca.StaticCall && kind != tosca.DelegateCall {
 		if err := transferValue(r, parameters.Value, parameters.Sender, recipient); err != nil {
 			r.RestoreSnapshot(snapshot)
-			return tosca.CallResult{}, nil
+			return tosca.CallResult{GasLeft: parameters.Gas}, nil
 		}
 	}
 
-- 
2.43.0


From 59461d8baf79a64541b93ad6127ac00bb320f210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:51 +0000
Subject: [PATCH 14/50] fix: floria kept the value sent to failing precompiled
 contracts

---
 go/processor/floria/run_context.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index cab27e1..54e4d56 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -88,11 +88,17 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 	output, isStatePrecompiled := handleStateContract(
 		r, parameters.Sender, parameters.Recipient, parameters.Input, parameters.Gas)
 	if isStatePrecompiled {
+		if !output.Success {
+			r.RestoreSnapshot(snapshot)
+		}
 		return output, nil
 	}
 	output, isPrecompiled := handlePrecompiledContract(
 		r.blockParameters.Revision, parameters.Input, recipient, parameters.Gas)
 	if isPrecompiled {
+		if !output.Success {
+			r.RestoreSnapshot(snapshot)
+		}
 		return output, nil
 	}
 
-- 
2.43.0


From 0099aaaf46f8aa5a645a293697ea3490d524b256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:01 +0000
Subject: [PATCH 15/50] fix: floria returned gas from failing precompiled
 contracts

---
 go/processor/floria/precompiled.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/go/processor/floria/precompiled.go b/go/processor/floria/precompiled.go
index 7433356..2dbe7df 100644
--- a/go/processor/floria/precompiled.go
+++ b/go/processor/floria/precompiled.go
@@ -27,9 +27,12 @@ func handlePrecompiledContract(revision tosca.Revision, input tosca.Data, addres
 	}
 	gas -= tosca.Gas(gasCost)
 	output, err := contract.Run(input)
+	if err != nil { // precompiled contracts only return errors on invalid input
+		return tosca.CallResult{}, true
+	}
 
 	return tosca.CallResult{
-		Success: err == nil, // precompiled contracts only return errors on invalid input
+		Success: true,
 		Output:  output,
 		GasLeft: gas,
 	}, true
-- 
2.43.0


From 057b21e55cf88e962a1b5bb853429d1e5e1aee50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:01 +0000
Subject: [PATCH 16/50] fix: floria treated huge costs of precompiled contracts
 as negative

---
 go/processor/floria/precompiled.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/processor/floria/precompiled.go b/go/processor/floria/precompiled.go
index 2dbe7df..926e9e5 100644
--- a/go/processor/floria/precompiled.go
+++ b/go/processor/floria/precompiled.go
@@ -22,7 +22,7 @@ func handlePrecompiledContract(revision tosca.Revision, input tosca.Data, addres
 		return tosca.CallResult{}, false
 	}
 	gasCost := contract.RequiredGas(input)
-	if gas < tosca.Gas(gasCost) {
+	if gas < 0 || uint64(gas) < gasCost {
 		return tosca.CallResult{}, true
 	}
 	gas -= tosca.Gas(gasCost)
-- 
2.43.0


From f67758fcaa68efbf2b1e046168e23fcc8f03f39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:01 +0000
Subject: [PATCH 17/50] fix: floria looked for precompiled contracts at the
 storage instead of the code address

---
 go/processor/floria/run_context.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 54e4d56..14c57c4 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -47,6 +47,10 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 	}
 
 	recipient := parameters.Recipient
+	codeAddress := parameters.Recipient
+	if kind == tosca.DelegateCall || kind == tosca.CallCode {
+		codeAddress = parameters.CodeAddress
+	}
 	var createdAddress tosca.Address
 	if kind == tosca.Create || kind == tosca.Create2 {
 		if parameters.Recipient == (tosca.Address{}) {
@@ -69,6 +73,7 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 		r.SetNonce(parameters.Sender, r.GetNonce(parameters.Sender)+1)
 		r.SetNonce(createdAddress, 1)
 		recipient = createdAddress
+		codeAddress = createdAddress
 	}
 
 	if kind == tosca.StaticCall {
@@ -94,7 +99,7 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 		return output, nil
 	}
 	output, isPrecompiled := handlePrecompiledContract(
-		r.blockParameters.Revision, parameters.Input, recipient, parameters.Gas)
+		r.blockParameters.Revision, parameters.Input, codeAddress, parameters.Gas)
 	if isPrecompiled {
 		if !output.Success {
 			r.RestoreSnapshot(snapshot)
-- 
2.43.0


From 00ba77dfc2262913e08754d57320b2b67dc80a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:31 +0000
Subject: [PATCH 18/50] fix: floria kept the effects of creations whose code it
 refuses

---
 go/processor/floria/run_context.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 14c57c4..f4525b8 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -136,13 +136,16 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 	} else if kind == tosca.Create || kind == tosca.Create2 {
 		code := result.Output
 		if len(code) > maxCodeSize {
+			r.RestoreSnapshot(snapshot)
 			return tosca.CallResult{}, nil
 		}
 		if r.blockParameters.Revision >= tosca.R10_London && len(code) > 0 && code[0] == 0xEF {
+			r.RestoreSnapshot(snapshot)
 			return tosca.CallResult{}, nil
 		}
 		createGas := tosca.Gas(len(result.Output) * createGasCostPerByte)
 		if result.GasLeft < createGas {
+			r.RestoreSnapshot(snapshot)
 			return tosca.CallResult{}, nil
 		}
 		result.GasLeft -= createGas
-- 
2.43.0


From 5a7fc6aef6b8b1285f0bdc25aebfee103b74bee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:31 +0000
Subject: [PATCH 19/50] fix: floria kept the nonce of accounts whose creation
 failed

---
 go/processor/floria/run_context.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index f4525b8..bc2a0a4 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -71,7 +71,6 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 		}
 
 		r.SetNonce(parameters.Sender, r.GetNonce(parameters.Sender)+1)
-		r.SetNonce(createdAddress, 1)
 		recipient = createdAddress
 		codeAddress = createdAddress
 	}
@@ -82,6 +81,10 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 
 	snapshot := r.CreateSnapshot()
 
+	if kind == tosca.Create || kind == tosca.Create2 {
+		r.SetNonce(createdAddress, 1)
+	}
+
 	// StaticCall and DelegateCall do not transfer value
 	if kind != tosca.StaticCall && kind != tosca.DelegateCall {
 		if err := transferValue(r, parameters.Value, parameters.Sender, recipient); err != nil {
-- 
2.43.0


From 63569969ba1daaad8c51a1112ebed7184ed436ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:31 +0000
Subject: [PATCH 20/50] fix: floria did not consume the nonce of creations at
 taken addresses and let nonces overflow

---
 go/processor/floria/run_context.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index bc2a0a4..a8e4142 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -57,20 +57,25 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 			code = tosca.Code(parameters.Input)
 			codeHash = hashCode(code)
 		}
+		nonce := r.GetNonce(parameters.Sender)
+		if nonce+1 < nonce {
+			return tosca.CallResult{GasLeft: parameters.Gas}, nil
+		}
 		createdAddress = createAddress(
 			kind,
 			parameters.Sender,
-			r.GetNonce(parameters.Sender),
+			nonce,
 			parameters.Salt,
 			codeHash,
 		)
+		// The nonce is consumed even if the address is already taken.
+		r.SetNonce(parameters.Sender, nonce+1)
 		if r.GetNonce(createdAddress) != 0 ||
 			(r.GetCodeHash(createdAddress) != (tosca.Hash{}) &&
 				r.GetCodeHash(createdAddress) != emptyCodeHash) {
 			return tosca.CallResult{}, nil
 		}
 
-		r.SetNonce(parameters.Sender, r.GetNonce(parameters.Sender)+1)
 		recipient = createdAddress
 		codeAddress = createdAddress
 	}
-- 
2.43.0


From ff277f7a92c61d742a8a900404539ec4fa051040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:31 +0000
Subject: [PATCH 21/50] fix: floria did not mark created addresses as accessed

---
 go/processor/floria/run_context.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index a8e4142..c7fb1da 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -70,6 +70,10 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 		)
 		// The nonce is consumed even if the address is already taken.
 		r.SetNonce(parameters.Sender, nonce+1)
+		// EIP-2929: created addresses are warm, even if the creation fails.
+		if r.blockParameters.Revision >= tosca.R09_Berlin {
+			r.AccessAccount(createdAddress)
+		}
 		if r.GetNonce(createdAddress) != 0 ||
 			(r.GetCodeHash(createdAddress) != (tosca.Hash{}) &&
 				r.GetCodeHash(createdAddress) != emptyCodeHash) {
-- 
2.43.0


From 174c17eb2dbbaff6fe72aeae9ea76945c668c0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:32 +0000
Subject: [PATCH 22/50] fix: floria passed the init code of creations as their
 input

---
 go/processor/floria/run_context.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index c7fb1da..4554a05 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -126,6 +126,11 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 		}, nil
 	}
 
+	input := parameters.Input
+	if kind == tosca.Create || kind == tosca.Create2 {
+		input = nil // the code of a creation is not its input
+	}
+
 	interpreterParameters := tosca.Parameters{
 		BlockParameters:       r.blockParameters,
 		TransactionParameters: r.transactionParameters,
@@ -136,7 +141,7 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 		Gas:                   parameters.Gas,
 		Recipient:             recipient,
 		Sender:                parameters.Sender,
-		Input:                 parameters.Input,
+		Input:                 input,
 		Value:                 parameters.Value,
 		CodeHash:              &codeHash,
 		Code:                  code,
-- 
2.43.0


From 322afa269f9988ad0bd3a25106d2df337cfd395e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:54 +0000
Subject: [PATCH 23/50] fix: floria let the state contract modify the state in
 static calls

---
 go/processor/floria/run_context.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 4554a05..39c74f0 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -102,6 +102,10 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 		}
 	}
 
+	if r.static && parameters.Recipient == StateContractAddress() {
+		r.RestoreSnapshot(snapshot)
+		return tosca.CallResult{}, nil
+	}
 	output, isStatePrecompiled := handleStateContract(
 		r, parameters.Sender, parameters.Recipient, parameters.Input, parameters.Gas)
 	if isStatePrecompiled {
-- 
2.43.0


From 4e31a2b890ded41476a251ac04415f15f75d28a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:54 +0000
Subject: [PATCH 24/50] fix: floria let the state contract change the balance
 and nonce of the origin

---
 go/processor/floria/run_context.go    |  3 ++-
 go/processor/floria/state_contract.go | 12 ++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 39c74f0..b0a5b64 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -102,7 +102,8 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 		}
 	}
 
-	if r.static && parameters.Recipient == StateContractAddress() {
+	if parameters.Recipient == StateContractAddress() &&
+		(r.static || changesBalanceOrNonceOf(r.transactionParameters.Origin, parameters.Input)) {
 		r.RestoreSnapshot(snapshot)
 		return tosca.CallResult{}, nil
 	}
diff --git a/go/processor/floria/state_contract.go b/go/processor/floria/state_contract.go
index 0d062ed..b921a49 100644
--- a/go/processor/floria/state_contract.go
+++ b/go/processor/floria/state_contract.go
@@ -123,6 +123,18 @@ func handleStateContract(
 	}, true
 }
 
+// changesBalanceOrNonceOf tells whether the given input asks the state contract
+// for a change of the balance or nonce of the given account. Those of a
+// transaction's origin must not be changed during the transaction.
+func changesBalanceOrNonceOf(account tosca.Address, input []byte) bool {
+	if len(input) != 4+64 {
+		return false
+	}
+	selector := input[:4]
+	return tosca.Address(input[4+12:4+32]) == account &&
+		(bytes.Equal(selector, setBalanceMethodID) || bytes.Equal(selector, incNonceMethodID))
+}
+
 func executeStateSetBalance(state tosca.WorldState, sender tosca.Address, input []byte, gas tosca.Gas) (tosca.Gas, error) {
 	if gas < callValueTransferGas {
 		return 0, ErrOutOfGas
-- 
2.43.0


From 745911fa293845246c7793b0713a38c923637d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:54 +0000
Subject: [PATCH 25/50] fix: floria truncated the increments of nonces in the
 state contract

---
 go/processor/floria/state_contract.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/go/processor/floria/state_contract.go b/go/processor/floria/state_contract.go
index b921a49..d1f6074 100644
--- a/go/processor/floria/state_contract.go
+++ b/go/processor/floria/state_contract.go
@@ -240,19 +240,19 @@ func executeStateContractIncNonce(state tosca.WorldState, sender tosca.Address,
 
 	account := tosca.Address(input[12:32])
 	value := tosca.Value(input[32:64])
-	valueUint := big.NewInt(0).SetBytes(value[:]).Uint64()
 
 	if account == sender {
 		// Origin nonce shouldn't change during his transaction
 		return 0, ErrExecutionReverted
 	}
 
-	if valueUint <= 0 || 256 <= valueUint {
+	increment := big.NewInt(0).SetBytes(value[:])
+	if increment.Sign() <= 0 || increment.Cmp(big.NewInt(256)) >= 0 {
 		// Don't allow large nonce increasing to prevent a nonce overflow
 		return 0, ErrExecutionReverted
 	}
 
-	state.SetNonce(account, state.GetNonce(account)+valueUint)
+	state.SetNonce(account, state.GetNonce(account)+increment.Uint64())
 
 	return gas, nil
 }
-- 
2.43.0


From e82db9bbbf03229b9c9ad593fd6a06139342e8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:54 +0000
Subject: [PATCH 26/50] fix: floria charged for creations it rejects due to the
 size of their code

---
 go/processor/floria/processor.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/go/processor/floria/processor.go b/go/processor/floria/processor.go
index d83080c..79ed4f0 100644
--- a/go/processor/floria/processor.go
+++ b/go/processor/floria/processor.go
@@ -64,6 +64,11 @@ func (p *processor) Run(
 		return tosca.Receipt{}, nil
 	}
 
+	if blockParameters.Revision >= tosca.R12_Shanghai && transaction.Recipient == nil &&
+		len(transaction.Input) > maxInitCodeSize {
+		return tosca.Receipt{}, nil
+	}
+
 	if err := buyGas(transaction, context); err != nil {
 		return tosca.Receipt{}, nil
 	}
@@ -74,11 +79,6 @@ func (p *processor) Run(
 	}
 	gas -= intrinsicGas
 
-	if blockParameters.Revision >= tosca.R12_Shanghai && transaction.Recipient == nil &&
-		len(transaction.Input) > maxInitCodeSize {
-		return tosca.Receipt{}, nil
-	}
-
 	transactionParameters := tosca.TransactionParameters{
 		Origin:     transaction.Sender,
 		GasPrice:   transaction.GasPrice,
-- 
2.43.0


From 1b72c5eb2db48fac70eaaf45f0b774eb65e04448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:54 +0000
Subject: [PATCH 27/50] fix: floria sold gas below its price when the total
 exceeds 256 bits

---
 go/processor/floria/processor.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/go/processor/floria/processor.go b/go/processor/floria/processor.go
index 79ed4f0..8b67e98 100644
--- a/go/processor/floria/processor.go
+++ b/go/processor/floria/processor.go
@@ -14,6 +14,7 @@ import (
 	"fmt"
 
 	"github.com/Fantom-foundation/Tosca/go/tosca"
+	"github.com/holiman/uint256"
 )
 
 const (
@@ -271,7 +272,12 @@ func setupGasBilling(transaction tosca.Transaction) tosca.Gas {
 }
 
 func buyGas(transaction tosca.Transaction, context tosca.TransactionContext) error {
-	gas := transaction.GasPrice.Scale(uint64(transaction.GasLimit))
+	cost, overflow := new(uint256.Int).MulOverflow(
+		transaction.GasPrice.ToUint256(), uint256.NewInt(uint64(transaction.GasLimit)))
+	if overflow {
+		return fmt.Errorf("gas costs exceed 256 bits: %v * %v", transaction.GasPrice, transaction.GasLimit)
+	}
+	gas := tosca.ValueFromUint256(cost)
 
 	// Buy gas
 	senderBalance := context.GetBalance(transaction.Sender)
-- 
2.43.0


From aaf5291bd89044180cb5420a24c41f6388bb93e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:01 +0000
Subject: [PATCH 28/50] fix: evmrs reported gas refunds of reverted executions

---
 rust/src/interpreter.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rust/src/interpreter.rs b/rust/src/interpreter.rs
index 74a4391..512e3e6 100644
--- a/rust/src/interpreter.rs
+++ b/rust/src/interpreter.rs
@@ -1834,7 +1834,12 @@ impl<const STEPPABLE: bool> From<Interpreter<'_, STEPPABLE>> for ExecutionResult
         Self::new(
             value.exec_status.into(),
             value.gas_left.as_u64() as i64,
-            value.gas_refund.as_i64(),
+            // a reverted execution earns no refunds
+            if value.exec_status == ExecStatus::Revert {
+                0
+            } else {
+                value.gas_refund.as_i64()
+            },
             #[cfg(not(feature = "custom-evmc"))]
             value.output.as_deref(),
             #[cfg(feature = "custom-evmc")]
-- 
2.43.0


From 472cb8902cd878d47df21e0ceef269903c8eb75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:01 +0000
Subject: [PATCH 29/50] fix: evmrs reported success as the status code of a
 reverted step

---
 rust/src/interpreter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/interpreter.rs b/rust/src/interpreter.rs
index 512e3e6..5110cde 100644
--- a/rust/src/interpreter.rs
+++ b/rust/src/interpreter.rs
@@ -1816,7 +1816,7 @@ impl<const STEPPABLE: bool> From<Interpreter<'_, STEPPABLE>> for StepResult {
             .collect();
         Self::new(
             value.exec_status.into(),
-            StatusCode::EVMC_SUCCESS,
+            value.exec_status.into(),
             value.revision,
             value.code_reader.pc() as u64,
             value.gas_left.as_u64() as i64,
-- 
2.43.0


From acce50d4285e749218687bae621c264c52334ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:01 +0000
Subject: [PATCH 30/50] fix: evmrs reported the refund as the gas left when
 stepping a finished execution

---
 rust/src/evmc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/evmc.rs b/rust/src/evmc.rs
index 3639b6d..daecbe7 100644
--- a/rust/src/evmc.rs
+++ b/rust/src/evmc.rs
@@ -84,7 +84,7 @@ impl SteppableEvmcVm for EvmRs {
                 },
                 revision,
                 pc,
-                gas_refund,
+                message.gas(),
                 gas_refund,
                 None,
                 stack.to_owned(),
-- 
2.43.0


From 1156c721d1466a3442865d415cceddb33f0c9512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:01 +0000
Subject: [PATCH 31/50] fix: evmrs asked for the hashes of blocks that are not
 available

---
 rust/src/interpreter.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/rust/src/interpreter.rs b/rust/src/interpreter.rs
index 5110cde..59cef93 100644
--- a/rust/src/interpreter.rs
+++ b/rust/src/interpreter.rs
@@ -1114,11 +1114,15 @@ impl<const STEPPABLE: bool> Interpreter<'_, STEPPABLE> {
     fn block_hash(&mut self) -> OpResult {
         self.gas_left.consume(20)?;
         let [block_number] = self.stack.pop()?;
-        self.stack.push(
-            u64::try_from(block_number)
-                .map(|idx| self.context.get_block_hash(idx as i64).into())
-                .unwrap_or(u256::ZERO),
-        )?;
+        // only the hashes of the 256 most recent complete blocks are available
+        let current = self.context.get_tx_context().block_number as u64;
+        let hash = match u64::try_from(block_number) {
+            Ok(idx) if idx < current && current - idx <= 256 => {
+                self.context.get_block_hash(idx as i64).into()
+            }
+            _ => u256::ZERO,
+        };
+        self.stack.push(hash)?;
         self.code_reader.next();
         self.return_from_op()
     }
-- 
2.43.0


From 6f21ab644bf1e6aac8d1ab7f962d1782a8a6d1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:01 +0000
Subject: [PATCH 32/50] fix: evmrs exposed output of creations that failed as
 return data

---
 rust/src/interpreter.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rust/src/interpreter.rs b/rust/src/interpreter.rs
index 59cef93..5f0298e 100644
--- a/rust/src/interpreter.rs
+++ b/rust/src/interpreter.rs
@@ -1609,7 +1609,12 @@ impl<const STEPPABLE: bool> Interpreter<'_, STEPPABLE> {
             self.last_call_return_data = None;
             self.stack.push(addr)?;
         } else {
-            self.last_call_return_data = result.output().map(ToOwned::to_owned);
+            // only a reverted creation has return data
+            self.last_call_return_data = if result.status_code() == StatusCode::EVMC_REVERT {
+                result.output().map(ToOwned::to_owned)
+            } else {
+                None
+            };
             self.stack.push(u256::ZERO)?;
         }
         self.code_reader.next();
-- 
2.43.0


From e484adbcfb499c3b87dadfd9362392eb933cac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:26 +0000
Subject: [PATCH 33/50] fix: evmrs counted and logged the no-ops in front of
 jump destinations as steps

---
 rust/src/interpreter.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/src/interpreter.rs b/rust/src/interpreter.rs
index 5f0298e..816b745 100644
--- a/rust/src/interpreter.rs
+++ b/rust/src/interpreter.rs
@@ -639,16 +639,18 @@ impl<const STEPPABLE: bool> Interpreter<'_, STEPPABLE> {
         Err(FailStatus::Failure)
     }
 
+    // The code analysis inserts no-ops only to align jump destinations. They are not instructions
+    // of the code, so the jump destination that follows is executed in the same step.
     #[cfg(feature = "needs-fn-ptr-conversion")]
     pub fn no_op(&mut self) -> OpResult {
         self.code_reader.next();
-        self.return_from_op()
+        self.jump_dest()
     }
 
     #[cfg(feature = "needs-fn-ptr-conversion")]
     pub fn skip_no_ops(&mut self) -> OpResult {
         self.code_reader.jump_to();
-        self.return_from_op()
+        self.jump_dest()
     }
 
     fn stop(&mut self) -> OpResult {
-- 
2.43.0


From 3119e9e3b335298102a02486ebedef51231d892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:41 +0000
Subject: [PATCH 34/50] fix: keep evmone and evmone-basic in their basic
 configuration

The factories of the three configurations shared one variable, so all of them
returned the instance in advanced mode, which is loaded last.
---
 go/interpreter/evmone/evmone.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/go/interpreter/evmone/evmone.go b/go/interpreter/evmone/evmone.go
index f8e259c..059e669 100644
--- a/go/interpreter/evmone/evmone.go
+++ b/go/interpreter/evmone/evmone.go
@@ -41,15 +41,15 @@ func init() {
 	})
 
 	// A second instance is configured to use the advanced execution mode.
-	evmone, err = evmc.LoadEvmcInterpreter("libevmone.so")
+	advanced, err := evmc.LoadEvmcInterpreter("libevmone.so")
 	if err != nil {
 		panic(fmt.Errorf("failed to load evmone library: %s", err))
 	}
-	if err := evmone.SetOption("advanced", "on"); err != nil {
+	if err := advanced.SetOption("advanced", "on"); err != nil {
 		panic(fmt.Errorf("failed to configure evmone advanced mode: %v", err))
 	}
 	tosca.MustRegisterInterpreterFactory("evmone-advanced", func(any) (tosca.Interpreter, error) {
-		return &evmoneInstance{evmone}, nil
+		return &evmoneInstance{advanced}, nil
 	})
 }
 
-- 
2.43.0


From d6b62acadea2f18416933fe6fc34f7acc420fd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:41 +0000
Subject: [PATCH 35/50] fix: treat EVMC_FAILURE and EVMC_CALL_DEPTH_EXCEEDED as
 failed contracts in the EVMC bridge

Machines end contracts with these codes too; evmzero, for instance, returns
EVMC_FAILURE for a CREATE with too much init code. The bridge reported them as
errors of the interpreter, which abort the whole transaction.
---
 go/interpreter/evmc/evmc_interpreter.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/go/interpreter/evmc/evmc_interpreter.go b/go/interpreter/evmc/evmc_interpreter.go
index a0000ae..48f05cb 100644
--- a/go/interpreter/evmc/evmc_interpreter.go
+++ b/go/interpreter/evmc/evmc_interpreter.go
@@ -106,12 +106,14 @@ func (e *EvmcInterpreter) Run(params tosca.Parameters) (tosca.Result, error) {
 		// This is to be processed as a successful execution.
 		res.Success = false // < signal that execution reverted
 		return res, nil
-	case evmc.Error(C.EVMC_OUT_OF_GAS),
+	case evmc.Failure,
+		evmc.Error(C.EVMC_OUT_OF_GAS),
 		evmc.Error(C.EVMC_INVALID_INSTRUCTION),
 		evmc.Error(C.EVMC_UNDEFINED_INSTRUCTION),
 		evmc.Error(C.EVMC_BAD_JUMP_DESTINATION),
 		evmc.Error(C.EVMC_INVALID_MEMORY_ACCESS),
 		evmc.Error(C.EVMC_STATIC_MODE_VIOLATION),
+		evmc.Error(C.EVMC_CALL_DEPTH_EXCEEDED),
 		evmc.Error(C.EVMC_STACK_OVERFLOW),
 		evmc.Error(C.EVMC_STACK_UNDERFLOW):
 		// These are errors in the executed contract, but not VM errors.
-- 
2.43.0


From 28459456599c6cacdb7da18b2ae9acf63e806577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:31 +0000
Subject: [PATCH 36/50] fix: opera sold gas below its price when the total
 exceeds 256 bits

---
 go/processor/opera/processor.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/go/processor/opera/processor.go b/go/processor/opera/processor.go
index 3a506ae..d128cf2 100644
--- a/go/processor/opera/processor.go
+++ b/go/processor/opera/processor.go
@@ -331,8 +331,10 @@ func preCheck(transaction tosca.Transaction, state tosca.WorldState) error {
 func buyGas(tx tosca.Transaction, state tosca.WorldState) error {
 	// TODO: support arithmetic operations with Value type
 	gasPrice := tx.GasPrice.ToUint256()
-	mgval := uint256.NewInt(uint64(tx.GasLimit))
-	mgval = mgval.Mul(mgval, gasPrice)
+	mgval, overflow := new(uint256.Int).MulOverflow(uint256.NewInt(uint64(tx.GasLimit)), gasPrice)
+	if overflow {
+		return fmt.Errorf("%w: address %v, costs exceed 256 bits", errInsufficientFunds, tx.Sender)
+	}
 	// Note: Opera doesn't need to check against gasFeeCap instead of gasPrice, as it's too aggressive in the asynchronous environment
 	balance := state.GetBalance(tx.Sender)
 	if have, want := balance.ToUint256(), mgval; have.Cmp(want) < 0 {
-- 
2.43.0


From 2a20064e18d6c067cdf6df50f6d2eeca28b506c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:31 +0000
Subject: [PATCH 37/50] fix: the state adapter transferred the balance of
 destructed accounts twice

---
 go/interpreter/geth/geth.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/go/interpreter/geth/geth.go b/go/interpreter/geth/geth.go
index c9779d8..96aa19b 100644
--- a/go/interpreter/geth/geth.go
+++ b/go/interpreter/geth/geth.go
@@ -238,7 +238,13 @@ func (s *stateDbAdapter) CreateContract(common.Address) {
 	// ignored: effect not needed in test environments
 }
 
-func (s *stateDbAdapter) SubBalance(addr common.Address, diff *uint256.Int, _ tracing.BalanceChangeReason) {
+func (s *stateDbAdapter) SubBalance(addr common.Address, diff *uint256.Int, reason tracing.BalanceChangeReason) {
+	// The transfer of the balance of a destructed account is conducted by the
+	// context, as part of its SelfDestruct operation.
+	if isSelfDestructTransfer(reason) {
+		return
+	}
+
 	// Tests only running the interpreter would never call this function since balances are
 	// handled by the EVM implementation. However, Fantom's state precompile contract may
 	// conduct direct calls tho this function as part of a contract execution. Thus, it
@@ -248,7 +254,13 @@ func (s *stateDbAdapter) SubBalance(addr common.Address, diff *uint256.Int, _ tr
 	s.context.SetBalance(account, tosca.Sub(cur, tosca.ValueFromUint256(diff)))
 }
 
-func (s *stateDbAdapter) AddBalance(addr common.Address, diff *uint256.Int, _ tracing.BalanceChangeReason) {
+func (s *stateDbAdapter) AddBalance(addr common.Address, diff *uint256.Int, reason tracing.BalanceChangeReason) {
+	// we save this address to be used as the beneficiary in a selfdestruct case.
+	s.lastBeneficiary = tosca.Address(addr)
+	if isSelfDestructTransfer(reason) {
+		return
+	}
+
 	// Tests only running the interpreter would never call this function since balances are
 	// handled by the EVM implementation. However, Fantom's state precompile contract may
 	// conduct direct calls tho this function as part of a contract execution. Thus, it
@@ -256,9 +268,10 @@ func (s *stateDbAdapter) AddBalance(addr common.Address, diff *uint256.Int, _ tr
 	account := tosca.Address(addr)
 	cur := s.context.GetBalance(account)
 	s.context.SetBalance(account, tosca.Add(cur, tosca.ValueFromUint256(diff)))
+}
 
-	// we save this address to be used as the beneficiary in a selfdestruct case.
-	s.lastBeneficiary = tosca.Address(addr)
+func isSelfDestructTransfer(reason tracing.BalanceChangeReason) bool {
+	return reason == tracing.BalanceIncreaseSelfdestruct || reason == tracing.BalanceDecreaseSelfdestruct
 }
 
 func (s *stateDbAdapter) GetBalance(addr common.Address) *uint256.Int {
-- 
2.43.0


From 4248e2742d28e794ef1152282951cd43d30eb580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:31 +0000
Subject: [PATCH 38/50] fix: geth adapter lifted the read-only mode for
 addresses resembling those of precompiled contracts

---
 go/geth_adapter/adapter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/geth_adapter/adapter.go b/go/geth_adapter/adapter.go
index 689c281..08e2d14 100644
--- a/go/geth_adapter/adapter.go
+++ b/go/geth_adapter/adapter.go
@@ -616,7 +616,7 @@ func bigIntToWord(value *big.Int) (tosca.Word, error) {
 
 func isPrecompiledContract(recipient tosca.Address) bool {
 	// the addresses 1-9 are precompiled contracts
-	for i := 0; i < 18; i++ {
+	for i := 0; i < 19; i++ {
 		if recipient[i] != 0 {
 			return false
 		}
-- 
2.43.0


From a63446bb25df3d0b4dd5fee3071763ee84c29927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:31 +0000
Subject: [PATCH 39/50] fix: geth adapter returned the read-only flag as gas
 from calls to accounts without code

---
 go/geth_adapter/adapter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/go/geth_adapter/adapter.go b/go/geth_adapter/adapter.go
index 08e2d14..e1a10fa 100644
--- a/go/geth_adapter/adapter.go
+++ b/go/geth_adapter/adapter.go
@@ -306,6 +306,11 @@ func (a *runContextAdapter) Call(kind tosca.CallKind, parameter tosca.CallParame
 		panic(fmt.Sprintf("unsupported call kind: %v", kind))
 	}
 
+	// If no code was executed, the read-only flag is still part of the gas.
+	if a.readOnly {
+		returnGas &^= 1 << 63
+	}
+
 	// revert errors are not an error in Tosca
 	if err != nil && err != geth.ErrExecutionReverted {
 		return gethToVMErrors(err, parameter.Gas)
-- 
2.43.0


From 6ba9ee51b99ecf4749c232575d9dd8af3ad72501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:44 +0000
Subject: [PATCH 40/50] fix: opera dropped transfers of amounts of 2^255 and
 above

---
 go/processor/opera/processor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/processor/opera/processor.go b/go/processor/opera/processor.go
index d128cf2..259dbee 100644
--- a/go/processor/opera/processor.go
+++ b/go/processor/opera/processor.go
@@ -93,7 +93,7 @@ func (p *processor) Run(
 
 	// Intercept the transfer function to conduct the transfer on the actual state.
 	transferFunc := func(_ geth.StateDB, from common.Address, to common.Address, amount *uint256.Int) {
-		if amount.Sign() != 1 || from == to {
+		if amount.IsZero() || from == to {
 			return
 		}
 		a := tosca.Address(from)
-- 
2.43.0


From d3f4d3049a2977cbaeaa2ae4bb8cee44ef9ac14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:48 +0000
Subject: [PATCH 41/50] fix: geth adapter passed the read-only flag as gas to
 contracts implemented by geth

---
 go/geth_adapter/adapter.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/go/geth_adapter/adapter.go b/go/geth_adapter/adapter.go
index e1a10fa..9240c4e 100644
--- a/go/geth_adapter/adapter.go
+++ b/go/geth_adapter/adapter.go
@@ -21,6 +21,7 @@ package geth_adapter
 import (
 	"fmt"
 	"math/big"
+	"slices"
 
 	"github.com/Fantom-foundation/Tosca/go/tosca"
 	gc "github.com/ethereum/go-ethereum/common"
@@ -270,7 +271,9 @@ func (a *runContextAdapter) Call(kind tosca.CallKind, parameter tosca.CallParame
 		defer func() { debugCallEnd(result, reserr) }()
 	}
 
-	gas := encodeReadOnlyInGas(uint64(parameter.Gas), parameter.CodeAddress, a.readOnly)
+	// Only contracts run by the adapter remove the read-only flag from their gas.
+	encodeReadOnly := a.readOnly && !a.isImplementedByGeth(parameter.CodeAddress)
+	gas := encodeReadOnlyInGas(uint64(parameter.Gas), parameter.CodeAddress, encodeReadOnly)
 
 	// Documentation of the parameters can be found here: t.ly/yhxC
 	toAddr := gc.Address(parameter.Recipient)
@@ -345,6 +348,16 @@ func encodeReadOnlyInGas(gas uint64, recipient tosca.Address, readOnly bool) uin
 	return gas
 }
 
+// isImplementedByGeth returns true for contracts which are implemented by the
+// geth EVM itself, and thus not executed by an interpreter.
+func (a *runContextAdapter) isImplementedByGeth(address tosca.Address) bool {
+	if _, found := a.evm.Config.StatePrecompiles[gc.Address(address)]; found {
+		return true
+	}
+	rules := a.evm.ChainConfig().Rules(a.evm.Context.BlockNumber, a.evm.Context.Random != nil, a.evm.Context.Time)
+	return slices.Contains(geth.ActivePrecompiles(rules), gc.Address(address))
+}
+
 func decodeReadOnlyFromGas(depth int, readOnly bool, gas uint64) (bool, uint64) {
 	if depth > 0 {
 		readOnly = readOnly || gas >= (1<<63)
-- 
2.43.0


From db2bd186497839a0acc6ca06c626d705aa67863d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:20 +0000
Subject: [PATCH 42/50] fix: lfvm: jump over padding beyond the first 2^16
 bytes of a code

The target of JUMP_TO was truncated to 16 bits, so that in longer codes
(init codes before Shanghai are not limited) reaching a jump destination
beyond this limit without a jump continued at an unrelated instruction.
The byte after a PC instruction beyond the limit was also dropped.
---
 go/interpreter/lfvm/converter.go    | 10 ++++++----
 go/interpreter/lfvm/instructions.go |  8 +++++++-
 go/interpreter/lfvm/opcode.go       |  3 ++-
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/go/interpreter/lfvm/converter.go b/go/interpreter/lfvm/converter.go
index 4870ac5..00192ad 100644
--- a/go/interpreter/lfvm/converter.go
+++ b/go/interpreter/lfvm/converter.go
@@ -153,10 +153,12 @@ func convertWithObserver(
 		// Handle jump destinations
 		if code[i] == byte(vm.JUMPDEST) {
 			// Jump to the next jump destination and fill space with noops
-			if res.length() < i {
-				res.appendOp(JUMP_TO, uint16(i))
+			for res.length() < i {
+				// The 16-bit argument limits the range of a JUMP_TO.
+				target := min(i, res.length()+math.MaxUint16)
+				res.appendOp(JUMP_TO, uint16(target))
+				res.padNoOpsUntil(target)
 			}
-			res.padNoOpsUntil(i)
 			res.appendCode(JUMPDEST)
 			observer(i, i)
 			i++
@@ -185,7 +187,7 @@ func appendInstructions(res *codeBuilder, pos int, code []byte, withSuperInstruc
 	if toscaOpCode == vm.PC {
 		if pos > math.MaxUint16 {
 			res.appendCode(INVALID)
-			return 1
+			return 0
 		}
 		res.appendOp(PC, uint16(pos))
 		return 0
diff --git a/go/interpreter/lfvm/instructions.go b/go/interpreter/lfvm/instructions.go
index 2677064..71ea81b 100644
--- a/go/interpreter/lfvm/instructions.go
+++ b/go/interpreter/lfvm/instructions.go
@@ -68,8 +68,14 @@ func opJumpi(c *context) error {
 }
 
 func opJumpTo(c *context) {
+	// The argument holds the 16 least significant bits of the target, which is
+	// the next position with these bits.
+	target := c.pc&^math.MaxUint16 | int32(c.code[c.pc].arg)
+	if target <= c.pc {
+		target += math.MaxUint16 + 1
+	}
 	// Update the PC to the jump destination -1 since interpreter will increase PC by 1 afterward.
-	c.pc = int32(c.code[c.pc].arg) - 1
+	c.pc = target - 1
 }
 
 func opPop(c *context) {
diff --git a/go/interpreter/lfvm/opcode.go b/go/interpreter/lfvm/opcode.go
index 980cbfd..4624bc0 100644
--- a/go/interpreter/lfvm/opcode.go
+++ b/go/interpreter/lfvm/opcode.go
@@ -233,7 +233,8 @@ const (
 	// JUMP_TO instructions are used to skip them in a single step.
 	//
 	// The following restrictions are imposed on JUMP_TO instructions:
-	//  - they must target the immediate succeeding JUMPDEST instruction
+	//  - they must target the immediate succeeding JUMPDEST instruction, or, if
+	//    it is too far away, another JUMP_TO on the way to it
 	//  - all instructions between the JUMP_TO and the JUMPDEST must be NOOPs
 	//
 	// These restrictions are enforced during the EVM to LFVM code conversion.
-- 
2.43.0


From ac5757bea25623c47c0adb4212618b2b7765b230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:47 +0000
Subject: [PATCH 43/50] fix: ct generators: printing a generator changed what
 it generates

String sorted the constraints of the code and account generators in place, and
the generated code and accounts depend on their order.
---
 go/ct/gen/accounts.go | 16 ++++++++++------
 go/ct/gen/code.go     | 22 ++++++++++++++--------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/go/ct/gen/accounts.go b/go/ct/gen/accounts.go
index 997f52d..2188669 100644
--- a/go/ct/gen/accounts.go
+++ b/go/ct/gen/accounts.go
@@ -119,17 +119,21 @@ func (g *AccountsGenerator) String() string {
 		}
 	}
 
-	sort.Slice(g.minBalance, func(i, j int) bool {
-		return g.minBalance[i].Less(&g.minBalance[j])
+	// Printing must not change the order of these constraints, since the
+	// generated accounts depend on it.
+	minBalance := slices.Clone(g.minBalance)
+	sort.Slice(minBalance, func(i, j int) bool {
+		return minBalance[i].Less(&minBalance[j])
 	})
-	for _, con := range g.minBalance {
+	for _, con := range minBalance {
 		parts = append(parts, fmt.Sprintf("balance(%v) ≥ %v", con.address, con.value.DecimalString()))
 	}
 
-	sort.Slice(g.maxBalance, func(i, j int) bool {
-		return g.maxBalance[i].Less(&g.maxBalance[j])
+	maxBalance := slices.Clone(g.maxBalance)
+	sort.Slice(maxBalance, func(i, j int) bool {
+		return maxBalance[i].Less(&maxBalance[j])
 	})
-	for _, con := range g.maxBalance {
+	for _, con := range maxBalance {
 		parts = append(parts, fmt.Sprintf("balance(%v) ≤ %v", con.address, con.value.DecimalString()))
 	}
 
diff --git a/go/ct/gen/code.go b/go/ct/gen/code.go
index dad12c5..0162ced 100644
--- a/go/ct/gen/code.go
+++ b/go/ct/gen/code.go
@@ -266,23 +266,29 @@ func (g *CodeGenerator) Restore(other *CodeGenerator) {
 func (g *CodeGenerator) String() string {
 	var parts []string
 
-	sort.Slice(g.constOps, func(i, j int) bool { return g.constOps[i].pos < g.constOps[j].pos })
-	for _, op := range g.constOps {
+	// Printing must not change the order of the constraints, since the
+	// generated code depends on it.
+	constOps := slices.Clone(g.constOps)
+	sort.Slice(constOps, func(i, j int) bool { return constOps[i].pos < constOps[j].pos })
+	for _, op := range constOps {
 		parts = append(parts, fmt.Sprintf("op[%v]=%v", op.pos, op.op))
 	}
 
-	sort.Slice(g.varOps, func(i, j int) bool { return g.varOps[i].variable < g.varOps[j].variable })
-	for _, op := range g.varOps {
+	varOps := slices.Clone(g.varOps)
+	sort.Slice(varOps, func(i, j int) bool { return varOps[i].variable < varOps[j].variable })
+	for _, op := range varOps {
 		parts = append(parts, fmt.Sprintf("op[%v]=%v", op.variable, op.op))
 	}
 
-	sort.Slice(g.varIsCodeConstraints, func(i, j int) bool { return g.varIsCodeConstraints[i].variable < g.varIsCodeConstraints[j].variable })
-	for _, con := range g.varIsCodeConstraints {
+	isCode := slices.Clone(g.varIsCodeConstraints)
+	sort.Slice(isCode, func(i, j int) bool { return isCode[i].variable < isCode[j].variable })
+	for _, con := range isCode {
 		parts = append(parts, fmt.Sprintf("isCode[%v]", con.variable))
 	}
 
-	sort.Slice(g.varIsDataConstraints, func(i, j int) bool { return g.varIsDataConstraints[i].variable < g.varIsDataConstraints[j].variable })
-	for _, con := range g.varIsDataConstraints {
+	isData := slices.Clone(g.varIsDataConstraints)
+	sort.Slice(isData, func(i, j int) bool { return isData[i].variable < isData[j].variable })
+	for _, con := range isData {
 		parts = append(parts, fmt.Sprintf("isData[%v]", con.variable))
 	}
 
-- 
2.43.0


From 562aca121cf7af388014371027bf73d1cdcc0d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:17 +0000
Subject: [PATCH 44/50] fix: ct generators: blob hash constraints that
 contradict each other were accepted

An index required to have a blob hash and one required to have none may be equal,
or 0 may be required to have none while a free variable needs one; the generated
state then violated one of the constraints.
---
 go/ct/gen/transaction_context.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/go/ct/gen/transaction_context.go b/go/ct/gen/transaction_context.go
index fb20e46..37d4ac4 100644
--- a/go/ct/gen/transaction_context.go
+++ b/go/ct/gen/transaction_context.go
@@ -38,6 +38,7 @@ func (t *TransactionContextGenerator) Generate(assignment Assignment, rnd *rand.
 		return nil, ErrUnsatisfiable
 	}
 
+	anyMustHaveBlobHash := false
 	maxMustHaveBlobHash := uint64(0)
 	minMustNotHaveBlobHash := uint64(math.MaxUint64)
 
@@ -48,6 +49,7 @@ func (t *TransactionContextGenerator) Generate(assignment Assignment, rnd *rand.
 				if !assignedValue.IsUint64() {
 					return nil, ErrUnsatisfiable
 				}
+				anyMustHaveBlobHash = true
 				if assignedValue.Uint64() > maxMustHaveBlobHash {
 					maxMustHaveBlobHash = assignedValue.Uint64()
 				}
@@ -59,7 +61,7 @@ func (t *TransactionContextGenerator) Generate(assignment Assignment, rnd *rand.
 		}
 	}
 
-	if maxMustHaveBlobHash > minMustNotHaveBlobHash ||
+	if (anyMustHaveBlobHash && maxMustHaveBlobHash >= minMustNotHaveBlobHash) ||
 		maxMustHaveBlobHash == math.MaxUint64 {
 		return nil, ErrUnsatisfiable
 	}
@@ -75,6 +77,9 @@ func (t *TransactionContextGenerator) Generate(assignment Assignment, rnd *rand.
 		hasBlobHash := t.blobHashVariables[variable]
 		// the bounded variables are dealt with above
 		if _, isBound := assignment[variable]; !isBound {
+			if hasBlobHash && blobHashesCount == 0 {
+				return nil, ErrUnsatisfiable
+			}
 			newValueRangeSolver := NewRangeSolver(0, blobHashesCount-1)
 			if !hasBlobHash {
 				newValueRangeSolver = NewRangeSolver(blobHashesCount, math.MaxUint64)
-- 
2.43.0


From d1384a75b8d947ee4c054f71ad29ac243231cb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:11 +0000
Subject: [PATCH 45/50] fix: ct generators: accounts required not to be empty
 could end up empty

A balance constraint replaced the balance chosen to make the account non-empty.
---
 go/ct/gen/accounts.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/go/ct/gen/accounts.go b/go/ct/gen/accounts.go
index 2188669..112264d 100644
--- a/go/ct/gen/accounts.go
+++ b/go/ct/gen/accounts.go
@@ -241,6 +241,7 @@ func (g *AccountsGenerator) Generate(assignment Assignment, rnd *rand.Rand, acco
 	if err := g.processBalanceConstraints(
 		getBoundOrBindNewAddress,
 		emptyAccounts,
+		nonEmptyAccounts,
 		rnd,
 		accountsBuilder,
 	); err != nil {
@@ -271,6 +272,7 @@ func (g *AccountsGenerator) Generate(assignment Assignment, rnd *rand.Rand, acco
 func (g *AccountsGenerator) processBalanceConstraints(
 	getBoundOrBindNewAddress func(v Variable) tosca.Address,
 	mustBeEmptyAccounts map[tosca.Address]struct{},
+	mustNotBeEmptyAccounts map[tosca.Address]struct{},
 	rnd *rand.Rand,
 	result *st.AccountsBuilder,
 ) error {
@@ -325,7 +327,13 @@ func (g *AccountsGenerator) processBalanceConstraints(
 			return fmt.Errorf("%w, conflicting balance constraints", ErrUnsatisfiable)
 		}
 
-		result.SetBalance(address, RandU256Between(rnd, lower, upper))
+		balance := RandU256Between(rnd, lower, upper)
+		result.SetBalance(address, balance)
+
+		// Accounts that must not be empty need some code if they have no balance.
+		if _, found := mustNotBeEmptyAccounts[address]; found && balance.IsZero() {
+			result.SetCode(address, NewBytes([]byte{1}))
+		}
 	}
 
 	return nil
-- 
2.43.0


From d42d467385ba4b0b94f8cbecff3815f12aa0600a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:50 +0000
Subject: [PATCH 46/50] fix: ct generators: the executing account was given
 code where it must be empty

---
 go/ct/gen/accounts.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/go/ct/gen/accounts.go b/go/ct/gen/accounts.go
index 112264d..ad13fc7 100644
--- a/go/ct/gen/accounts.go
+++ b/go/ct/gen/accounts.go
@@ -264,7 +264,10 @@ func (g *AccountsGenerator) Generate(assignment Assignment, rnd *rand.Rand, acco
 	if !accountsBuilder.Exists(accountAddress) {
 		accountsBuilder.SetBalance(accountAddress, RandU256(rnd))
 	}
-	accountsBuilder.SetCode(accountAddress, RandomBytesOfSize(rnd, 42))
+	accountCode := RandomBytesOfSize(rnd, 42)
+	if _, mustBeEmpty := emptyAccounts[accountAddress]; !mustBeEmpty {
+		accountsBuilder.SetCode(accountAddress, accountCode)
+	}
 
 	return accountsBuilder.Build(), nil
 }
-- 
2.43.0


From b3d38c39b895709a288766a3f8f013454e987a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:43 +0000
Subject: [PATCH 47/50] fix: ct generators: conflicting storage constraints on
 one key were accepted

Conflicts were only found between neighbours in an order by configuration, and
not between variables with the same value.
---
 go/ct/gen/storage.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/go/ct/gen/storage.go b/go/ct/gen/storage.go
index 20bbb33..189f55d 100644
--- a/go/ct/gen/storage.go
+++ b/go/ct/gen/storage.go
@@ -168,9 +168,16 @@ func (g *StorageGenerator) Generate(assignment Assignment, rnd *rand.Rand) (*st.
 	builder := st.NewStorageBuilder()
 
 	// Process storage configuration constraints.
+	configured := map[U256]storageConfigConstraint{}
 	for _, con := range g.cfg {
 		key := getKey(con.key)
 
+		// Check for conflicts with other constraints on the same key.
+		if other, found := configured[key]; found && (other.config != con.config || other.newValue != con.newValue) {
+			return nil, fmt.Errorf("%w, key %v conflicting storage configuration", ErrUnsatisfiable, con.key)
+		}
+		configured[key] = con
+
 		newValue, isBound := assignment[con.newValue]
 		if isBound {
 			// Check for conflict!
@@ -228,8 +235,13 @@ func (g *StorageGenerator) Generate(assignment Assignment, rnd *rand.Rand) (*st.
 	}
 
 	// Process warm/cold constraints.
+	warmKeys := map[U256]bool{}
 	for _, con := range g.warmCold {
 		key := getKey(con.key)
+		if warm, found := warmKeys[key]; found && warm != con.warm {
+			return nil, fmt.Errorf("%w, key %v conflicting warm/cold constraints", ErrUnsatisfiable, con.key)
+		}
+		warmKeys[key] = con.warm
 		if !builder.IsInOriginal(key) {
 			builder.SetOriginal(key, RandU256(rnd))
 			builder.SetCurrent(key, RandU256(rnd))
-- 
2.43.0


From 6598909b5f2b0faec01d1c7698ccad321818f14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:53 +0000
Subject: [PATCH 48/50] fix: ct generators: an address could be required to be
 warm and cold under two names

---
 go/ct/gen/accounts.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/go/ct/gen/accounts.go b/go/ct/gen/accounts.go
index ad13fc7..d9baa8b 100644
--- a/go/ct/gen/accounts.go
+++ b/go/ct/gen/accounts.go
@@ -230,8 +230,13 @@ func (g *AccountsGenerator) Generate(assignment Assignment, rnd *rand.Rand, acco
 	}
 
 	// Process warm/cold constraints.
+	warmAddresses := map[tosca.Address]bool{}
 	for _, con := range g.warmCold {
 		address := getBoundOrBindNewAddress(con.key)
+		if warm, found := warmAddresses[address]; found && warm != con.warm {
+			return nil, fmt.Errorf("%w, address %v conflicting warm/cold constraints", ErrUnsatisfiable, con.key)
+		}
+		warmAddresses[address] = con.warm
 		if con.warm {
 			accountsBuilder.SetWarm(address)
 		}
-- 
2.43.0


From 032c349ce469dd3d5cfc0b9556b02edccc6a4f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:24 +0000
Subject: [PATCH 49/50] fix: ct generators: code and data constraints moved
 variables bound to a position

A variable bound to a value, like a constant position, got another position if
there was no operation constraint at its own.
---
 go/ct/gen/code.go | 55 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/go/ct/gen/code.go b/go/ct/gen/code.go
index 0162ced..84cddcc 100644
--- a/go/ct/gen/code.go
+++ b/go/ct/gen/code.go
@@ -443,9 +443,14 @@ func (solver *varCodeConstraintSolver) solveIsCode(varIsCodeConstraints []varIsC
 			if !pos.Lt(NewU256(uint64(solver.codeSize))) {
 				return fmt.Errorf("%w, unable to satisfy isCode[%v], out-of-bounds", ErrUnsatisfiable, cur.variable)
 			}
-			if solver.usedPositions[int(pos.Uint64())] == isCode {
-				continue // already satisfied
+			switch solver.usedPositions[int(pos.Uint64())] {
+			case isCode: // already satisfied
+			case isData:
+				return fmt.Errorf("%w, unable to satisfy isCode[%v], position %v is data", ErrUnsatisfiable, cur.variable, pos)
+			default:
+				solver.placeRandomOp(int(pos.Uint64()))
 			}
+			continue
 		}
 
 		// For the remaining variables, find a position and either populate an
@@ -464,11 +469,7 @@ func (solver *varCodeConstraintSolver) solveIsCode(varIsCodeConstraints []varIsC
 		}
 
 		if solver.usedPositions[pos] == isUnused {
-			// Pick a random op and lock it in.
-			randomOps := vm.ValidOpCodesNoPush()
-			op := randomOps[solver.rnd.Intn(len(randomOps))]
-			solver.markUsed(pos, op)
-			solver.ops = append(solver.ops, constOpConstraint{pos, op})
+			solver.placeRandomOp(pos)
 		}
 
 		solver.assign(cur.variable, pos)
@@ -476,14 +477,48 @@ func (solver *varCodeConstraintSolver) solveIsCode(varIsCodeConstraints []varIsC
 	return nil
 }
 
+// placeRandomOp picks a random operation without data and locks it in at the
+// given unused position.
+func (solver *varCodeConstraintSolver) placeRandomOp(pos int) {
+	randomOps := vm.ValidOpCodesNoPush()
+	op := randomOps[solver.rnd.Intn(len(randomOps))]
+	solver.markUsed(pos, op)
+	solver.ops = append(solver.ops, constOpConstraint{pos, op})
+}
+
+// placeDataAt covers the given unused position by the data of a random PUSH
+// operation. It returns false if there is no space for such an operation.
+func (solver *varCodeConstraintSolver) placeDataAt(pos int) bool {
+	candidates := []int{}
+	for start := pos - 1; start >= 0 && pos-start <= 32 && solver.usedPositions[start] == isUnused; start-- {
+		candidates = append(candidates, start)
+	}
+	if len(candidates) == 0 {
+		return false
+	}
+	start := candidates[solver.rnd.Intn(len(candidates))]
+	minSize := pos - start
+	maxSize := solver.largestFit(start) - 1
+	op := vm.OpCode(int(vm.PUSH1) + minSize - 1 + solver.rnd.Intn(maxSize-minSize+1))
+	solver.markUsed(start, op)
+	solver.ops = append(solver.ops, constOpConstraint{start, op})
+	return true
+}
+
 func (solver *varCodeConstraintSolver) solveIsData(varIsDataConstraints []varIsDataConstraint) error {
 	for _, cur := range varIsDataConstraints {
-		// Check if the variable is already assigned and points to a slot marked
-		// as code. If so, we cannot satisfy this constraint!
+		// Check if the variable is already assigned. If it points to a slot
+		// that is not and cannot become data, we cannot satisfy this constraint!
 		if pos, isAssigned := solver.assignment[cur.variable]; isAssigned {
-			if pos.Lt(NewU256(uint64(solver.codeSize))) && solver.usedPositions[int(pos.Uint64())] == isCode {
+			if !pos.Lt(NewU256(uint64(solver.codeSize))) {
+				return fmt.Errorf("%w, unable to satisfy isData[%v], out-of-bounds", ErrUnsatisfiable, cur.variable)
+			}
+			position := int(pos.Uint64())
+			used := solver.usedPositions[position]
+			if used == isCode || (used == isUnused && !solver.placeDataAt(position)) {
 				return fmt.Errorf("%w, unable to satisfy isData[%v]", ErrUnsatisfiable, cur.variable)
 			}
+			continue
 		}
 
 		// For the remaining variables, find a position and either populate an
-- 
2.43.0


From 3264f4873bfe07a3d718c5dde79185649db8c626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:02 +0000
Subject: [PATCH 50/50] fix: evmrs read the offset of padding from a function
 pointer with inline dispatch

---
 rust/src/types/code_reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/src/types/code_reader.rs b/rust/src/types/code_reader.rs
index 375b9da..d84c60c 100644
--- a/rust/src/types/code_reader.rs
+++ b/rust/src/types/code_reader.rs
@@ -146,7 +146,8 @@ impl<'a, const STEPPABLE: bool> CodeReader<'a, STEPPABLE> {
             .get_data()
             .into_u64_saturating();
         #[cfg(not(feature = "fn-ptr-conversion-expanded-dispatch"))]
-        let offset = u32::from_ne_bytes(self.code_analysis.analysis[self.pc].get_data());
+        // the entry after the function pointer holds the offset
+        let offset = u32::from_ne_bytes(self.code_analysis.analysis[self.pc + 1].get_data());
         self.pc += offset as usize;
     }
 
-- 
2.43.0

