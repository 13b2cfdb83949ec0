From c0c95cefce112dcd3b68d78b590e05916803b247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:31 +0000
Subject: [PATCH 01/17] fix: nested transitions precede those of enclosing sub
 machines

Whether a sub state's own transition or one of its sub machine was tried
first depended on the declaration order of the enclosing table, and
transitions of a sub machine were not available in sub states nested more
than one level deep. Sub machine transitions are now added first, outermost
first, for the sub states of all levels.
---
 include/hsm/details/fill_dispatch_table.h | 51 +++++++++++++++++++----
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/include/hsm/details/fill_dispatch_table.h b/include/hsm/details/fill_dispatch_table.h
index c7b3e8f..a2d2c2e 100644
--- a/include/hsm/details/fill_dispatch_table.h
+++ b/include/hsm/details/fill_dispatch_table.h
@@ -127,7 +127,9 @@ constexpr auto addDispatchTableEntryOfSubMachineExits(
 
     const auto parentState = transition.source();
     if constexpr (has_transition_table(parentState)) {
-        bh::for_each(collect_child_state_typeids(parentState), [=, &dispatchTables](auto state) {
+        // A transition of a sub machine can be taken from all its sub states on every level
+        const auto subStates = collect_state_parentstate_pairs_recursively(parentState);
+        bh::for_each(subStates, [=, &dispatchTables](auto parentAndState) {
             bh::apply(
                 [=, &dispatchTables](auto combinedStateTypeids, auto target) {
                     bh::apply(
@@ -161,7 +163,10 @@ constexpr auto addDispatchTableEntryOfSubMachineExits(
                                     optionalDependency),
                                 transition.internal());
                         },
-                        getCombinedStateIdx(combinedStateTypeids, parentState, state),
+                        getCombinedStateIdx(
+                            combinedStateTypeids,
+                            bh::first(parentAndState),
+                            bh::second(parentAndState)),
                         getCombinedStateIdx(
                             combinedStateTypeids, resolveDstParent(transition), target),
                         resolveHistory(transition),
@@ -182,6 +187,16 @@ constexpr auto filter_transitions = [](auto transitions, auto eventTypeid) {
     return bh::filter(transitions, isEvent);
 };
 
+constexpr auto filter_sub_machine_transitions = [](auto transitions, auto parentTypeid) {
+    auto isSubMachineTransition = [parentTypeid](auto transition) {
+        return bh::and_(
+            has_transition_table(transition.source()),
+            bh::equal(bh::typeid_(transition.parent()), parentTypeid));
+    };
+
+    return bh::filter(transitions, isSubMachineTransition);
+};
+
 template <
     class State,
     class DispatchTables,
@@ -200,6 +215,31 @@ constexpr auto fill_dispatch_table_with_transitions(
         eventTypeids,
         [rootState, &dispatchTables, statesMap, optionalDependency, transitions](auto eventTypeid) {
             auto filteredTransitions = filter_transitions(transitions, eventTypeid);
+
+            // Entries are tried in the reverse order of their insertion: Transitions of sub machines
+            // are added before the transitions of their sub states, which take precedence.
+            bh::for_each(
+                collect_parent_state_typeids(rootState),
+                [rootState,
+                 &dispatchTables,
+                 statesMap,
+                 optionalDependency,
+                 eventTypeid,
+                 filteredTransitions](auto parentTypeid) {
+                    bh::for_each(
+                        filter_sub_machine_transitions(filteredTransitions, parentTypeid),
+                        [rootState, &dispatchTables, statesMap, optionalDependency, eventTypeid](
+                            auto transition) {
+                            addDispatchTableEntryOfSubMachineExits(
+                                rootState,
+                                dispatchTables,
+                                transition,
+                                eventTypeid,
+                                statesMap,
+                                optionalDependency);
+                        });
+                });
+
             bh::for_each(
                 filteredTransitions,
                 [rootState, &dispatchTables, statesMap, optionalDependency, eventTypeid](
@@ -211,13 +251,6 @@ constexpr auto fill_dispatch_table_with_transitions(
                         eventTypeid,
                         statesMap,
                         optionalDependency);
-                    addDispatchTableEntryOfSubMachineExits(
-                        rootState,
-                        dispatchTables,
-                        transition,
-                        eventTypeid,
-                        statesMap,
-                        optionalDependency);
                 });
         });
 }
-- 
2.43.0


From 3337633a59b98ab8bb67ffea55202b3f408ba283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:28 +0000
Subject: [PATCH 02/17] fix: rebinding dependencies replaces the old ones

set_dependency added a second generation of dispatch table entries, so the
entries bound to the old dependencies were still tried after the new ones,
the unexpected event handler kept the old ones and the tables grew with each
call. The entries now share one slot per dependency which is rebound.
---
 include/hsm/details/dispatch_table.h |  5 +++++
 include/hsm/details/sm.h             | 20 +++++++++++++++++---
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/hsm/details/dispatch_table.h b/include/hsm/details/dispatch_table.h
index b669455..4218437 100644
--- a/include/hsm/details/dispatch_table.h
+++ b/include/hsm/details/dispatch_table.h
@@ -20,6 +20,11 @@ template <class T> auto get(std::reference_wrapper<T> ref) -> auto&
     return ref.get();
 }
 
+template <class T> auto get(const std::shared_ptr<T*>& dependency) -> auto&
+{
+    return **dependency;
+}
+
 // NOLINTNEXTLINE(cppcoreguidelines-special-member-functions)
 template <class Event> struct IDispatchTableEntry {
     virtual ~IDispatchTableEntry() = default;
diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 0c436ee..f58f31e 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -17,7 +17,10 @@
 #include <array>
 #include <cstdint>
 #include <iostream>
+#include <memory>
 #include <sstream>
+#include <tuple>
+#include <utility>
 #include <vector>
 
 namespace hsm {
@@ -42,6 +45,7 @@ template <class RootState, class... OptionalParameters> class sm {
     StatesMap m_statesMap;
     DispatchTables m_dispatchTables;
     UnexpectedEventHandlerTables m_unexpectedEventHandlerTables;
+    std::tuple<std::shared_ptr<OptionalParameters*>...> m_dependencies;
 
   public:
     sm(OptionalParameters&... optionalParameters)
@@ -49,6 +53,8 @@ template <class RootState, class... OptionalParameters> class sm {
         , m_history()
         , m_defer_queue(collect_event_typeids_recursive(rootState))
         , m_statesMap(make_states_map(rootState))
+        , m_dependencies(
+              std::make_shared<OptionalParameters*>(std::addressof(optionalParameters))...)
     {
         static_assert(
             has_transition_table(rootState), "Root state has no make_transition_table method");
@@ -67,7 +73,7 @@ template <class RootState, class... OptionalParameters> class sm {
             "At least one initial state of the state machine has internal transition tables. This "
             "is not allowed.");
 
-        auto optionalDependency = bh::make_basic_tuple(std::ref(optionalParameters)...);
+        auto optionalDependency = std::apply(bh::make_basic_tuple, m_dependencies);
 
         if constexpr (has_unexpected_event_handler(rootState)) {
             fill_unexpected_event_handler_tables(
@@ -168,8 +174,9 @@ template <class RootState, class... OptionalParameters> class sm {
 
     auto set_dependency(OptionalParameters&... optionalParameters)
     {
-        auto optionalDependency = bh::make_basic_tuple(std::ref(optionalParameters)...);
-        fill_dispatch_table(optionalDependency);
+        rebind_dependencies(
+            std::index_sequence_for<OptionalParameters...> {},
+            std::make_tuple(std::addressof(optionalParameters)...));
     }
 
   private:
@@ -361,6 +368,13 @@ template <class RootState, class... OptionalParameters> class sm {
         return m_dispatchTables[bh::typeid_(event)][m_currentCombinedState[region]];
     }
 
+    template <std::size_t... Idxs, class Dependencies>
+    void rebind_dependencies(std::index_sequence<Idxs...>, const Dependencies& dependencies)
+    {
+        (void)dependencies;
+        ((*std::get<Idxs>(m_dependencies) = std::get<Idxs>(dependencies)), ...);
+    }
+
     template <class OptionalDependency>
     void fill_dispatch_table(OptionalDependency& optionalDependency)
     {
-- 
2.43.0


From 98fb54ffde087b8b7e12a8440c51d63a0fd2a178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:55 +0000
Subject: [PATCH 03/17] fix: activate, leave and remember all regions of a sub
 machine

Entering a sub machine with more regions than the root machine left its
additional regions uninitialised and their states were used as index, leaving
it executed the transition once per region, and a region of the root machine
was not processed while region 0 was inside of a sub machine. The history was
recorded and indexed by the parent state of region 0 for all regions, which
accessed it out of bounds.
---
 include/hsm/details/dispatch_table.h      |   1 +
 include/hsm/details/fill_dispatch_table.h |  27 +++--
 include/hsm/details/resolve_state.h       |  10 +-
 include/hsm/details/sm.h                  | 115 +++++++++++++++++-----
 4 files changed, 124 insertions(+), 29 deletions(-)

diff --git a/include/hsm/details/dispatch_table.h b/include/hsm/details/dispatch_table.h
index 4218437..b6e7c05 100644
--- a/include/hsm/details/dispatch_table.h
+++ b/include/hsm/details/dispatch_table.h
@@ -164,5 +164,6 @@ template <class Event> struct NextState {
     bool valid = false;
     bool internal = false;
     hsm::details::utils::dunique_ptr<IDispatchTableEntry<Event>> transition;
+    bool enter = false;
 };
 }
\ No newline at end of file
diff --git a/include/hsm/details/fill_dispatch_table.h b/include/hsm/details/fill_dispatch_table.h
index a2d2c2e..0531d8d 100644
--- a/include/hsm/details/fill_dispatch_table.h
+++ b/include/hsm/details/fill_dispatch_table.h
@@ -72,13 +72,22 @@ constexpr auto addDispatchTableEntry(
                     auto fromIdx, auto toIdx, auto history, auto mappedSource, auto mappedTarget)
                     -> void {
                     bh::apply(
-                        [=](auto& dispatchTable, auto&& transition2, bool internal) -> void {
+                        [=](auto& dispatchTable,
+                            auto&& transition2,
+                            bool internal,
+                            bool enter) -> void {
                             const auto defer = false;
                             const auto valid = true;
 
                             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
                             dispatchTable[fromIdx].push_front(
-                                { toIdx, history, defer, valid, internal, std::move(transition2) });
+                                { toIdx,
+                                  history,
+                                  defer,
+                                  valid,
+                                  internal,
+                                  std::move(transition2),
+                                  enter });
                         },
                         dispatchTables[eventTypeid],
                         make_transition(
@@ -89,7 +98,8 @@ constexpr auto addDispatchTableEntry(
                             mappedSource,
                             mappedTarget,
                             optionalDependency),
-                        transition.internal());
+                        transition.internal(),
+                        resolveEnter(transition));
                 },
                 getCombinedStateIdx(combinedStateIds, resolveSrcParent(transition), source),
                 getCombinedStateIdx(combinedStateIds, resolveDstParent(transition), target),
@@ -140,7 +150,10 @@ constexpr auto addDispatchTableEntryOfSubMachineExits(
                             auto mappedParent,
                             auto mappedTarget) {
                             bh::apply(
-                                [=](auto& dispatchTable, auto&& transition2, bool internal) {
+                                [=](auto& dispatchTable,
+                                    auto&& transition2,
+                                    bool internal,
+                                    bool enter) {
                                     const auto defer = false;
                                     const auto valid = true;
                                     // TODO: Since dispatch table is static, transitions might be
@@ -150,7 +163,8 @@ constexpr auto addDispatchTableEntryOfSubMachineExits(
                                                                         defer,
                                                                         valid,
                                                                         internal,
-                                                                        std::move(transition2) });
+                                                                        std::move(transition2),
+                                                                        enter });
                                 },
                                 dispatchTables[eventTypeid],
                                 make_transition(
@@ -161,7 +175,8 @@ constexpr auto addDispatchTableEntryOfSubMachineExits(
                                     mappedParent,
                                     mappedTarget,
                                     optionalDependency),
-                                transition.internal());
+                                transition.internal(),
+                                resolveEnter(transition));
                         },
                         getCombinedStateIdx(
                             combinedStateTypeids,
diff --git a/include/hsm/details/resolve_state.h b/include/hsm/details/resolve_state.h
index e46de11..a18af28 100644
--- a/include/hsm/details/resolve_state.h
+++ b/include/hsm/details/resolve_state.h
@@ -167,4 +167,12 @@ template <class Transition> constexpr auto resolveHistory(Transition transition)
         return false;
     }
 }
-}
\ No newline at end of file
+
+/**
+ * Resolves whether the transition enters a sub machine
+ */
+template <class Transition> constexpr auto resolveEnter(Transition transition)
+{
+    return static_cast<bool>(has_transition_table(resolveSubStateParent(transition)));
+}
+}
diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index f58f31e..9ebab2b 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -14,6 +14,7 @@
 #include <boost/hana/contains.hpp>
 #include <boost/hana/type.hpp>
 
+#include <algorithm>
 #include <array>
 #include <cstdint>
 #include <iostream>
@@ -37,7 +38,7 @@ template <class RootState, class... OptionalParameters> class sm {
     using StatesMap = decltype(make_states_map(rootState));
     using DispatchTables = decltype(make_dispatch_tables(rootState));
     using UnexpectedEventHandlerTables = decltype(make_unexpected_event_handler_tables(rootState));
-    std::array<StateIdx, maxInitialStates(rootState)> m_currentCombinedState;
+    std::array<StateIdx, maxInitialStates(rootState)> m_currentCombinedState {};
     std::array<std::vector<std::size_t>, nParentStates(rootState)> m_initial_states;
     std::array<std::vector<std::size_t>, nParentStates(rootState)> m_history;
     variant_queue<Events> m_defer_queue;
@@ -86,7 +87,7 @@ template <class RootState, class... OptionalParameters> class sm {
 
         fill_dispatch_table(optionalDependency);
         fill_initial_state_table(rootState, m_initial_states);
-        fill_initial_state_table(rootState, m_history);
+        init_history();
         init_current_state();
         update_current_regions();
     }
@@ -192,7 +193,7 @@ template <class RootState, class... OptionalParameters> class sm {
         bool allGuardsFailed = true;
         bool allTransitionsInvalid = true;
 
-        const auto currentRegions = current_regions();
+        auto currentRegions = current_regions();
         for (Region region = 0; region < currentRegions; region++) {
 
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
@@ -216,7 +217,9 @@ template <class RootState, class... OptionalParameters> class sm {
 
                 allTransitionsInvalid = false;
                 allGuardsFailed = false;
-                update_current_state(region, result);
+                if (update_current_state(region, result)) {
+                    currentRegions = root_regions();
+                }
 
                 result.transition->executeAction(event);
                 break;
@@ -250,7 +253,7 @@ template <class RootState, class... OptionalParameters> class sm {
             while (true) {
                 auto allGuardsFailed = true;
 
-                const auto currentRegions = current_regions();
+                auto currentRegions = current_regions();
                 for (Region region = 0; region < currentRegions; region++) {
                     // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
                     auto& results = get_dispatch_table_entry(event, region);
@@ -264,7 +267,9 @@ template <class RootState, class... OptionalParameters> class sm {
                             continue;
                         }
 
-                        update_current_state(region, result);
+                        if (update_current_state(region, result)) {
+                            currentRegions = root_regions();
+                        }
                         result.transition->executeAction(event);
                         allGuardsFailed = false;
                         break;
@@ -284,41 +289,107 @@ template <class RootState, class... OptionalParameters> class sm {
         return m_dispatchTables[event][index];
     }
 
+    /**
+     * Returns true if region 0 entered or left a sub machine, such that the regions which
+     * belong to the sub machine do not take part in the current event anymore.
+     */
     template <class DispatchTableEntry>
-    void update_current_state(Region region, const DispatchTableEntry& dispatchTableEntry)
+    auto update_current_state(Region region, const DispatchTableEntry& dispatchTableEntry) -> bool
     {
         if (dispatchTableEntry.internal) {
-            return;
+            return false;
         }
 
+        const auto previousParent = currentParentState();
+        auto combined = dispatchTableEntry.combinedState;
+
         if constexpr (has_history(rootState)) {
-            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            m_history[currentParentState()][region] = m_currentCombinedState[region];
+            update_history();
 
             if (dispatchTableEntry.history) {
-                auto parent
-                    = calcParentStateIdx(nStates(rootState), dispatchTableEntry.combinedState);
-                // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-                auto combined = m_history[parent][region];
                 // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-                m_currentCombinedState[region] = combined;
-            } else {
-                // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-                m_currentCombinedState[region] = dispatchTableEntry.combinedState;
+                combined = m_history[calcParentStateIdx(nStates(rootState), combined)][region];
             }
-        } else {
-            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            m_currentCombinedState[region] = dispatchTableEntry.combinedState;
         }
 
+        // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+        m_currentCombinedState[region] = combined;
+
+        if (region != 0) {
+            return false;
+        }
+
+        if (dispatchTableEntry.enter) {
+            enter_regions(dispatchTableEntry.history);
+        }
         update_current_regions();
+
+        return dispatchTableEntry.enter || previousParent != currentParentState();
+    }
+
+    /**
+     * Activates the regions that are added by the entered parent state of region 0.
+     */
+    void enter_regions(bool history)
+    {
+        if constexpr (hasParallelRegions(rootState)) {
+            const auto parent = currentParentState();
+            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+            const auto& states = history ? m_history[parent] : m_initial_states[parent];
+            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+            const auto regions = m_initial_states[parent].size();
+
+            for (auto region = root_regions(); region < regions; region++) {
+                // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+                m_currentCombinedState[region] = states[region];
+            }
+        }
     }
 
     void update_current_regions()
     {
         if constexpr (hasParallelRegions(rootState)) {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            m_currentRegions = m_initial_states[currentParentState()].size();
+            const auto regions = m_initial_states[currentParentState()].size();
+            m_currentRegions = std::max(regions, root_regions());
+        }
+    }
+
+    auto root_regions() -> std::size_t
+    {
+        if constexpr (hasParallelRegions(rootState)) {
+            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+            return m_initial_states[getParentStateIdx(rootState, rootState)].size();
+        } else {
+            return 1;
+        }
+    }
+
+    /**
+     * Remembers the active state of each region for the parent state it belongs to.
+     */
+    void update_history()
+    {
+        const auto currentRegions = current_regions();
+        for (Region region = 0; region < currentRegions; region++) {
+            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+            const auto combined = m_currentCombinedState[region];
+            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+            m_history[calcParentStateIdx(nStates(rootState), combined)][region] = combined;
+        }
+    }
+
+    /**
+     * The history of a parent state starts with its initial states. Any region can be inside of
+     * the parent state, a region without an own initial state enters the first one.
+     */
+    void init_history()
+    {
+        if constexpr (has_history(rootState)) {
+            fill_initial_state_table(rootState, m_history);
+            for (auto& states : m_history) {
+                states.resize(m_currentCombinedState.size(), states.empty() ? 0 : states.front());
+            }
         }
     }
 
-- 
2.43.0


From f30576ff662a9dc21c29877a67cba244f80eb4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:35 +0000
Subject: [PATCH 04/17] fix: report the parent state of the queried region

is() and status() judged all regions by the parent state of region 0, so
regions inside or outside of a sub machine were reported wrong, and the
region number was printed as raw character.
---
 include/hsm/details/sm.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 9ebab2b..39973be 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -127,8 +127,9 @@ template <class RootState, class... OptionalParameters> class sm {
     template <class ParentState, class State>
     auto is(Region region, ParentState parentState, State state) -> bool
     {
-        return currentParentState() == getParentStateIdx(rootState, parentState)
-            && currentState(region) == getStateIdx(rootState, state);
+        return currentParentState(region) == getParentStateIdx(rootState, parentState)
+            && currentState(region) == getStateIdx(rootState, state)
+            && region < current_regions();
     }
 
     template <class ParentState> auto parent_is(ParentState parentState) -> bool
@@ -165,9 +166,9 @@ template <class RootState, class... OptionalParameters> class sm {
         std::stringstream statusStream;
         const auto currentRegions = current_regions();
         for (Region region = 0; region < currentRegions; region++) {
-            statusStream << "[" << region << "] "
+            statusStream << "[" << static_cast<std::size_t>(region) << "] "
                          << "combined: " << m_currentCombinedState[region] << " "
-                         << "parent: " << currentParentState() << " "
+                         << "parent: " << currentParentState(region) << " "
                          << "state: " << currentState(region);
         }
         return statusStream.str();
@@ -417,9 +418,9 @@ template <class RootState, class... OptionalParameters> class sm {
         return calcStateIdx(nStates(rootState), m_currentCombinedState.at(region));
     }
 
-    auto currentParentState()
+    auto currentParentState(Region region = 0)
     {
-        return calcParentStateIdx(nStates(rootState), m_currentCombinedState[0]);
+        return calcParentStateIdx(nStates(rootState), m_currentCombinedState.at(region));
     }
 
     void init_current_state()
-- 
2.43.0


From f47bc1ddaf3856f44e827881fbe2778b7e0e2831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:20 +0000
Subject: [PATCH 05/17] fix: forcing a state activates the regions of its
 parent state

After forcing region 0 into or out of a sub machine the machine went on with
the number of regions of the former parent state.
---
 include/hsm/details/sm.h | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 39973be..d1a3641 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -159,6 +159,10 @@ template <class RootState, class... OptionalParameters> class sm {
 
         m_currentCombinedState.at(region)
             = getCombinedStateIdx(getCombinedStateTypeids(rootState), parentState, state);
+
+        if (region == 0) {
+            set_regions();
+        }
     }
 
     auto status() -> std::string
@@ -347,6 +351,27 @@ template <class RootState, class... OptionalParameters> class sm {
         }
     }
 
+    /**
+     * Activates the regions that are added by the parent state region 0 was set to, regions which
+     * were already set to a state of this parent state are kept.
+     */
+    void set_regions()
+    {
+        if constexpr (hasParallelRegions(rootState)) {
+            const auto parent = currentParentState();
+            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+            const auto& states = m_initial_states[parent];
+
+            for (auto region = root_regions(); region < states.size(); region++) {
+                if (currentParentState(region) != parent) {
+                    // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+                    m_currentCombinedState[region] = states[region];
+                }
+            }
+            update_current_regions();
+        }
+    }
+
     void update_current_regions()
     {
         if constexpr (hasParallelRegions(rootState)) {
-- 
2.43.0


From 14b74b9f339112a0253159d2559faaf7784d4cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:53 +0000
Subject: [PATCH 06/17] fix: states defer events whichever transitions mention
 them

The deferred events of states that are only the target of transitions or only
mentioned by pseudo states were ignored.
---
 include/hsm/details/fill_dispatch_table.h | 27 ++++++++++++++---------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/include/hsm/details/fill_dispatch_table.h b/include/hsm/details/fill_dispatch_table.h
index 0531d8d..5293dc1 100644
--- a/include/hsm/details/fill_dispatch_table.h
+++ b/include/hsm/details/fill_dispatch_table.h
@@ -270,30 +270,37 @@ constexpr auto fill_dispatch_table_with_transitions(
         });
 }
 
-constexpr auto getDeferingTransitions = [](auto rootState) {
-    constexpr auto transitionHasDeferedEvents
-        = [](auto transition) { return has_deferred_events(resolveExtentedInitialState(transition)); };
+constexpr auto extractResolvedParentAndState = [](auto transition) {
+    return bh::make_basic_tuple(
+        bh::make_pair(resolveSrcParent(transition), resolveSrc(transition)),
+        bh::make_pair(resolveDstParent(transition), resolveDst(transition)));
+};
+
+constexpr auto getDeferingStates = [](auto rootState) {
+    constexpr auto stateHasDeferedEvents
+        = [](auto parentAndState) { return has_deferred_events(bh::second(parentAndState)); };
 
-    constexpr auto transitions = flatten_transition_table(rootState);
-    return bh::filter(transitions, transitionHasDeferedEvents);
+    constexpr auto states = remove_duplicates(bh::flatten(
+        bh::transform(flatten_transition_table(rootState), extractResolvedParentAndState)));
+    return bh::filter(states, stateHasDeferedEvents);
 };
 
 constexpr auto hasDeferedEvents = [](auto rootState) {
-    return bh::not_equal(bh::size_c<0>, bh::size(getDeferingTransitions(rootState)));
+    return bh::not_equal(bh::size_c<0>, bh::size(getDeferingStates(rootState)));
 };
 
 template <class RootState, class DispatchTables, class OptionalDependency>
 constexpr auto fill_dispatch_table_with_deferred_events(
     RootState rootState, DispatchTables& dispatchTables, OptionalDependency /*optionalDependency*/)
 {
-    const auto transitions = getDeferingTransitions(rootState);
-    bh::for_each(transitions, [=, &dispatchTables](auto transition) {
-        const auto deferredEvents = get_defer_events(resolveExtentedInitialState(transition));
+    const auto states = getDeferingStates(rootState);
+    bh::for_each(states, [=, &dispatchTables](auto parentAndState) {
+        const auto deferredEvents = get_defer_events(bh::second(parentAndState));
         bh::for_each(deferredEvents, [=, &dispatchTables](auto event) {
             const auto combinedStateTypeids = getCombinedStateTypeids(rootState);
             auto& dispatchTable = dispatchTables[event];
             const auto from = getCombinedStateIdx(
-                combinedStateTypeids, resolveSrcParent(transition), resolveSrc(transition));
+                combinedStateTypeids, bh::first(parentAndState), bh::second(parentAndState));
 
             dispatchTable[from].push_front({});
             dispatchTable[from].front().defer = true;
-- 
2.43.0


From c471049b0cf30cb9787efa03b5aef80b04f04faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:15 +0000
Subject: [PATCH 07/17] fix: recall all deferred events in order and consume
 each once

Only one deferred event was recalled per processed event, which rotated the
order of events that were deferred again, an unexpected recalled event was
dropped silently, and an event deferred by a later region had already been
processed by the regions before it.
---
 include/hsm/details/sm.h            | 47 ++++++++++++++++++++++++-----
 include/hsm/details/variant_queue.h | 34 ++++++++++++++++++---
 2 files changed, 68 insertions(+), 13 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index d1a3641..7c6b7b7 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -198,6 +198,11 @@ template <class RootState, class... OptionalParameters> class sm {
         bool allGuardsFailed = true;
         bool allTransitionsInvalid = true;
 
+        if (is_deferred(event)) {
+            m_defer_queue.push(event);
+            return ProcessEventResult::EventDefered;
+        }
+
         auto currentRegions = current_regions();
         for (Region region = 0; region < currentRegions; region++) {
 
@@ -210,11 +215,6 @@ template <class RootState, class... OptionalParameters> class sm {
 
             for (auto& result : results) {
 
-                if (result.defer) {
-                    m_defer_queue.push(event);
-                    return ProcessEventResult::EventDefered;
-                }
-
                 if (!result.transition->executeGuard(event)) {
                     allTransitionsInvalid = false;
                     continue;
@@ -243,13 +243,44 @@ template <class RootState, class... OptionalParameters> class sm {
         return ProcessEventResult::EventProcessed;
     }
 
-    auto process_deferred_events()
+    /**
+     * An event is deferred as long as it is deferred by the active state of any region.
+     */
+    template <class Event> auto is_deferred(Event& event) -> bool
     {
+        (void)event;
+
         if constexpr (hasDeferedEvents(rootState)) {
-            if (!m_defer_queue.empty()) {
-                m_defer_queue.visit([this](auto event) { this->process_event_internal(event); });
+            const auto currentRegions = current_regions();
+            for (Region region = 0; region < currentRegions; region++) {
+                for (auto& result : get_dispatch_table_entry(event, region)) {
+                    if (result.defer) {
+                        return true;
+                    }
+                }
             }
         }
+
+        return false;
+    }
+
+    /**
+     * Recalls the oldest event that is not deferred anymore, until all remaining events are still
+     * deferred.
+     */
+    auto process_deferred_events()
+    {
+        if constexpr (hasDeferedEvents(rootState)) {
+            const auto isRecalled = [this](auto& event) { return !this->is_deferred(event); };
+            const auto processEvent = [this](auto event) {
+                if (this->process_event_internal(event)
+                    == ProcessEventResult::AllTransitionsInvalid) {
+                    this->call_unexpected_event_handler(event);
+                }
+            };
+
+            while (m_defer_queue.visit_first(isRecalled, processEvent)) { }
+        }
     }
 
     template <class Event> auto process_anonymous_transitions(Event&& event)
diff --git a/include/hsm/details/variant_queue.h b/include/hsm/details/variant_queue.h
index d66e0f5..91e6df0 100644
--- a/include/hsm/details/variant_queue.h
+++ b/include/hsm/details/variant_queue.h
@@ -3,8 +3,9 @@
 #include <boost/hana/type.hpp>
 #include <boost/hana/unpack.hpp>
 
+#include <algorithm>
+#include <list>
 #include <stdexcept>
-#include <queue>
 #include <variant>
 
 namespace hsm {
@@ -14,7 +15,7 @@ template <class EventsTuple> auto constexpr make_variant_queue(EventsTuple event
 {
     using Variant_t =
         typename decltype(boost::hana::unpack(events, boost::hana::template_<std::variant>))::type;
-    return std::queue<Variant_t> {};
+    return std::list<Variant_t> {};
 }
 }
 
@@ -38,12 +39,12 @@ public:
 
     template <class T> void push(const T& e)
     {
-        m_queue.push(e);
+        m_queue.push_back(e);
     }
 
     template <class T> void push(T&& e)
     {
-        m_queue.push(e);
+        m_queue.push_back(e);
     }
 
     template <class Callable>
@@ -53,12 +54,35 @@ public:
         }
 
         auto frontElement = m_queue.front();
-        m_queue.pop();
+        m_queue.pop_front();
 
         std::visit([&callable](auto&& arg){
             callable(arg);    
         }, frontElement);
         
     }
+
+    /**
+     * Removes and visits the first element that fulfills the predicate
+     *
+     * @return false if there is no such element
+     */
+    template <class Predicate, class Callable>
+    auto visit_first(const Predicate& predicate, const Callable& callable) -> bool
+    {
+        const auto position = std::find_if(m_queue.begin(), m_queue.end(), [&predicate](auto& element) {
+            return std::visit(predicate, element);
+        });
+
+        if (position == m_queue.end()) {
+            return false;
+        }
+
+        Queue_t element;
+        element.splice(element.begin(), m_queue, position);
+
+        std::visit([&callable](auto&& arg) { callable(arg); }, element.front());
+        return true;
+    }
 };
 }
\ No newline at end of file
-- 
2.43.0


From fae9ed2cc3ca75d981547c61d14888de9ca59eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:31 +0000
Subject: [PATCH 08/17] fix: keep internal transitions that differ only in
 stored values

Internal transitions whose guards and actions have the same types were
considered duplicates even if the stored values differ.
---
 include/hsm/details/fill_dispatch_table.h     |  2 +-
 .../flatten_internal_transition_table.h       | 22 ++++++++++++++-----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/hsm/details/fill_dispatch_table.h b/include/hsm/details/fill_dispatch_table.h
index 5293dc1..a3b951e 100644
--- a/include/hsm/details/fill_dispatch_table.h
+++ b/include/hsm/details/fill_dispatch_table.h
@@ -335,6 +335,6 @@ constexpr auto fill_dispatch_table_with_internal_transitions(
         dispatchTables,
         statesMap,
         optionalDependecy,
-        flatten_internal_transition_table(rootState));
+        collect_internal_transitions(rootState));
 }
 }
\ No newline at end of file
diff --git a/include/hsm/details/flatten_internal_transition_table.h b/include/hsm/details/flatten_internal_transition_table.h
index 89e7b09..6d5b83f 100644
--- a/include/hsm/details/flatten_internal_transition_table.h
+++ b/include/hsm/details/flatten_internal_transition_table.h
@@ -132,16 +132,26 @@ constexpr auto get_internal_transitions = [](auto stateAndParentStatePairs) {
 };
 
 /**
- * Returns a tuple of extended internal transitions reachable from a given rootState
+ * Returns a tuple of all extended internal transitions reachable from a given rootState. A
+ * transition that is reachable in several ways is contained several times.
+ *
+ * @param rootState
+ */
+template <class State> constexpr auto collect_internal_transitions(State rootState)
+{
+    return bh::to<bh::basic_tuple_tag>(bh::flatten(
+        get_internal_transitions(collect_state_parentstate_pairs_recursively(rootState))));
+}
+
+/**
+ * Returns a tuple of extended internal transitions reachable from a given rootState with distinct
+ * types
  *
  * @param rootState
  */
 template <class State> constexpr auto flatten_internal_transition_table(State rootState)
 {
-    return [](auto stateAndParentStatePairs) {
-        return remove_duplicate_types(bh::to<bh::basic_tuple_tag>(
-            bh::flatten(get_internal_transitions(stateAndParentStatePairs))));
-    }(collect_state_parentstate_pairs_recursively(rootState));
+    return remove_duplicate_types(collect_internal_transitions(rootState));
 }
 
-} // namespace hsm
\ No newline at end of file
+} // namespace hsm
-- 
2.43.0


From 64e861dbf2a68eeff21eec6569c9d70e90b804bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:00 +0000
Subject: [PATCH 09/17] fix: bring the amalgamated header up to date with the
 modular headers

It lacked the internal transitions of plain states, the static assertions on
initial states and the fixes made to the modular headers.
---
 include/hsm/gen/hsm.h | 581 +++++++++++++++++++++++++++++++++---------
 1 file changed, 466 insertions(+), 115 deletions(-)

diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index 261e64d..247bb53 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -353,7 +353,7 @@ constexpr auto is_initial_state = [](auto typeid_) {
 constexpr auto is_no_action
     = [](auto action) { return bh::equal(bh::typeid_(action), bh::typeid_(noAction {})); };
 
-template <class Action> constexpr decltype(auto) is_action()
+template <class Action> constexpr auto is_action() -> decltype(auto)
 {
     return bh::not_equal(bh::type_c<Action>, bh::typeid_(noAction {}));
 }
@@ -361,7 +361,7 @@ template <class Action> constexpr decltype(auto) is_action()
 constexpr auto is_no_guard
     = [](auto guard) { return bh::equal(bh::typeid_(guard), bh::typeid_(noGuard {})); };
 
-template <class Guard> constexpr decltype(auto) is_guard()
+template <class Guard> constexpr auto is_guard() -> decltype(auto)
 {
     return bh::not_equal(bh::type_c<Guard>, bh::typeid_(noGuard {}));
 }
@@ -450,8 +450,7 @@ template <class Source> struct initial_t;
 
 #include <boost/hana/bool.hpp>
 
-namespace hsm {
-namespace details {
+namespace hsm::details {
 
 namespace bh {
 using namespace boost::hana;
@@ -615,7 +614,6 @@ constexpr auto internal_extended_transition = [](auto parent, auto transition) {
                 transition.target() };
 };
 }
-}
 
 #include <boost/hana/basic_tuple.hpp>
 #include <boost/hana/type.hpp>
@@ -669,13 +667,13 @@ template <class Tuple> constexpr auto to_pairs(const Tuple& tuple)
 }
 }
 
-#include <boost/hana/basic_tuple.hpp>
 #include <boost/hana/drop_while.hpp>
 #include <boost/hana/map.hpp>
 #include <boost/hana/minus.hpp>
 #include <boost/hana/not_equal.hpp>
 #include <boost/hana/range.hpp>
 #include <boost/hana/size.hpp>
+#include <boost/hana/basic_tuple.hpp>
 #include <boost/hana/zip.hpp>
 
 namespace {
@@ -802,7 +800,7 @@ constexpr auto calcParentStateIdx
 constexpr auto calcStateIdx
     = [](std::size_t nStates, Idx combinedState) -> Idx { return combinedState % nStates; };
 
-template <class Event> constexpr decltype(auto) resolveEvent(Event event)
+template <class Event> constexpr auto resolveEvent(Event event) -> decltype(auto)
 {
     if constexpr (is_event(event)) {
         return event.typeid_;
@@ -922,6 +920,24 @@ constexpr auto fill_initial_state_table(State rootState, StateTable& initialStat
         });
 }
 
+template <class State>
+constexpr auto at_least_one_initial_state_has_transition_table(State rootState)
+{
+    return bh::fold_left(
+        collect_initial_states(rootState), bh::false_c, [](auto result, auto initialState) {
+            return bh::or_(result, has_transition_table(initialState));
+        });
+}
+
+template <class State>
+constexpr auto at_least_one_initial_state_has_internal_transition_table(State rootState)
+{
+    return bh::fold_left(
+        collect_initial_states(rootState), bh::false_c, [](auto result, auto initialState) {
+            return bh::or_(result, has_internal_transition_table(initialState));
+        });
+}
+
 /**
  * Returns a tuple of initial state sizes
  *
@@ -1145,6 +1161,14 @@ template <class Transition> constexpr auto resolveHistory(Transition transition)
         return false;
     }
 }
+
+/**
+ * Resolves whether the transition enters a sub machine
+ */
+template <class Transition> constexpr auto resolveEnter(Transition transition)
+{
+    return static_cast<bool>(has_transition_table(resolveSubStateParent(transition)));
+}
 }
 
 #include <boost/hana/eval.hpp>
@@ -1197,6 +1221,12 @@ template <class State> constexpr auto flatten_sub_transition_table(State state);
 
 }
 
+/**
+ * This function iterates recursively trough the transition table of a state provided by
+ * `make_transition_table()` and collects all transitions.
+ *
+ * @return a list of ExtendedTransition
+ */
 template <class State> constexpr auto flatten_transition_table(State state)
 {
     auto flattenSubTransitionTable = [state](auto transition) {
@@ -1227,6 +1257,7 @@ template <class State> constexpr auto flatten_sub_transition_table(State state)
 #include <boost/hana/at.hpp>
 #include <boost/hana/basic_tuple.hpp>
 #include <boost/hana/flatten.hpp>
+#include <boost/hana/prepend.hpp>
 #include <boost/hana/transform.hpp>
 #include <boost/hana/type.hpp>
 
@@ -1270,6 +1301,12 @@ constexpr auto extractStateTypeids = [](auto transition) {
 };
 }
 
+constexpr auto extractParentAndState = [](auto transition) {
+    return bh::make_basic_tuple(
+        bh::make_pair(transition.parent(), resolveInitialState(transition)),
+        bh::make_pair(transition.parent(), transition.target()));
+};
+
 template <class State> constexpr auto collect_child_state_typeids_recursive(State parentState)
 {
     auto transitions = flatten_transition_table(parentState);
@@ -1281,7 +1318,6 @@ template <class State> constexpr auto collect_child_state_typeids_recursive(Stat
 template <class State> constexpr auto collect_child_states_recursive(State parentState)
 {
     return bh::flatten(bh::transform(flatten_transition_table(parentState), extractExtendedStates));
-    ;
 }
 
 template <class State> constexpr auto collect_state_typeids_recursive(State parentState)
@@ -1309,6 +1345,13 @@ template <class State> constexpr auto collect_child_states(State state)
     return remove_duplicates(
         bh::flatten(bh::transform(make_transition_table2(state), extractStates)));
 }
+
+template <class State> constexpr auto collect_state_parentstate_pairs_recursively(State rootState)
+{
+    return remove_duplicates(bh::prepend(
+        bh::flatten(bh::transform(flatten_transition_table(rootState), extractParentAndState)),
+        bh::make_pair(rootState, rootState)));
+}
 }
 
 #include <boost/hana/append.hpp>
@@ -1383,43 +1426,82 @@ constexpr auto extend_internal_transition(Transition internalTransition, States
 }
 
 /**
- * Returns the internal transitions for each for each state
+ * Extends an internal transitions to all provided states
+ *
+ * @param internalTranstion Internal transition that should be extended
+ * @param states tuple of states
+ */
+template <class Transition, class ParentState, class State>
+constexpr auto
+extend_internal_transition2(Transition internalTransition, ParentState parent, State state)
+{
+    return bh::make_basic_tuple(details::internal_extended_transition(
+        parent,
+        details::transition(
+            state,
+            internalTransition.event(),
+            internalTransition.guard(),
+            internalTransition.action(),
+            state)));
+}
+
+/**
+ * Returns the internal transitions for each state
  * [[transition1, transition2], [transition3, transition4], []]
  *
  * @param states a tuple of states
  */
-constexpr auto get_internal_transitions = [](auto states) {
+constexpr auto get_internal_transitions = [](auto stateAndParentStatePairs) {
     return bh::flatten(bh::filter(
         bh::transform(
-            states,
-            [](auto parentState) {
-                constexpr auto extend
-                    = bh::capture(parentState)([](auto parentState, auto transition) {
-                          // Folowing lines satisfies older gcc -Werror=unused-but-set-parameter
-                          (void)transition;
-                          if constexpr (has_transition_table(parentState)) {
-                              return extend_internal_transition(
-                                  transition, collect_child_states(parentState));
-                          } else {
-                              return bh::make_basic_tuple();
-                          }
-                      });
-
-                return bh::transform(get_internal_transition_table(parentState), extend);
+            stateAndParentStatePairs,
+            [](auto stateAndParentStatePair) {
+                constexpr auto extend = bh::capture(stateAndParentStatePair)(
+                    [](auto stateAndParentStatePair, auto internalTransition) {
+                        // Folowing lines satisfies older gcc -Werror=unused-but-set-parameter
+                        (void)internalTransition;
+                        if constexpr (has_transition_table(bh::second(stateAndParentStatePair))) {
+                            return extend_internal_transition(
+                                internalTransition,
+                                collect_child_states(bh::second(stateAndParentStatePair)));
+                        } else if constexpr (has_internal_transition_table(
+                                                 bh::second(stateAndParentStatePair))) {
+                            return extend_internal_transition2(
+                                internalTransition,
+                                bh::first(stateAndParentStatePair),
+                                bh::second(stateAndParentStatePair));
+                        } else {
+                            return bh::make_basic_tuple();
+                        }
+                    });
+
+                return bh::transform(
+                    get_internal_transition_table(bh::second(stateAndParentStatePair)), extend);
             }),
         isNotEmpty));
 };
 
 /**
- * Returns a tuple of extended internal transitions reachable from a given rootState
+ * Returns a tuple of all extended internal transitions reachable from a given rootState. A
+ * transition that is reachable in several ways is contained several times.
+ *
+ * @param rootState
+ */
+template <class State> constexpr auto collect_internal_transitions(State rootState)
+{
+    return bh::to<bh::basic_tuple_tag>(bh::flatten(
+        get_internal_transitions(collect_state_parentstate_pairs_recursively(rootState))));
+}
+
+/**
+ * Returns a tuple of extended internal transitions reachable from a given rootState with distinct
+ * types
  *
  * @param rootState
  */
 template <class State> constexpr auto flatten_internal_transition_table(State rootState)
 {
-    return [](auto states) {
-        return bh::to<bh::basic_tuple_tag>(bh::flatten(get_internal_transitions(states)));
-    }(collect_states_recursive(rootState));
+    return remove_duplicate_types(collect_internal_transitions(rootState));
 }
 
 } // namespace hsm
@@ -1582,6 +1664,11 @@ template <class T> auto get(std::reference_wrapper<T> ref) -> auto&
     return ref.get();
 }
 
+template <class T> auto get(const std::shared_ptr<T*>& dependency) -> auto&
+{
+    return **dependency;
+}
+
 // NOLINTNEXTLINE(cppcoreguidelines-special-member-functions)
 template <class Event> struct IDispatchTableEntry {
     virtual ~IDispatchTableEntry() = default;
@@ -1721,6 +1808,7 @@ template <class Event> struct NextState {
     bool valid = false;
     bool internal = false;
     hsm::details::utils::dunique_ptr<IDispatchTableEntry<Event>> transition;
+    bool enter = false;
 };
 }
 
@@ -1760,7 +1848,7 @@ template <class State> constexpr auto nEvents(State rootState)
     return bh::length(collect_event_typeids_recursive(rootState));
 }
 
-template <class State> constexpr decltype(auto) hasParallelRegions(State rootState)
+template <class State> constexpr auto hasParallelRegions(State rootState) -> decltype(auto)
 {
     return bh::greater(maxInitialStates(rootState), bh::size_c<1>);
 }
@@ -1787,13 +1875,22 @@ constexpr auto addDispatchTableEntry(
                     auto fromIdx, auto toIdx, auto history, auto mappedSource, auto mappedTarget)
                     -> void {
                     bh::apply(
-                        [=](auto& dispatchTable, auto&& transition2, bool internal) -> void {
+                        [=](auto& dispatchTable,
+                            auto&& transition2,
+                            bool internal,
+                            bool enter) -> void {
                             const auto defer = false;
                             const auto valid = true;
 
                             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
                             dispatchTable[fromIdx].push_front(
-                                { toIdx, history, defer, valid, internal, std::move(transition2) });
+                                { toIdx,
+                                  history,
+                                  defer,
+                                  valid,
+                                  internal,
+                                  std::move(transition2),
+                                  enter });
                         },
                         dispatchTables[eventTypeid],
                         make_transition(
@@ -1804,7 +1901,8 @@ constexpr auto addDispatchTableEntry(
                             mappedSource,
                             mappedTarget,
                             optionalDependency),
-                        transition.internal());
+                        transition.internal(),
+                        resolveEnter(transition));
                 },
                 getCombinedStateIdx(combinedStateIds, resolveSrcParent(transition), source),
                 getCombinedStateIdx(combinedStateIds, resolveDstParent(transition), target),
@@ -1840,9 +1938,11 @@ constexpr auto addDispatchTableEntryOfSubMachineExits(
         return;
     }
 
-    constexpr auto parentState = transition.source();
+    const auto parentState = transition.source();
     if constexpr (has_transition_table(parentState)) {
-        bh::for_each(collect_child_state_typeids(parentState), [=, &dispatchTables](auto state) {
+        // A transition of a sub machine can be taken from all its sub states on every level
+        const auto subStates = collect_state_parentstate_pairs_recursively(parentState);
+        bh::for_each(subStates, [=, &dispatchTables](auto parentAndState) {
             bh::apply(
                 [=, &dispatchTables](auto combinedStateTypeids, auto target) {
                     bh::apply(
@@ -1853,7 +1953,10 @@ constexpr auto addDispatchTableEntryOfSubMachineExits(
                             auto mappedParent,
                             auto mappedTarget) {
                             bh::apply(
-                                [=](auto& dispatchTable, auto&& transition2, bool internal) {
+                                [=](auto& dispatchTable,
+                                    auto&& transition2,
+                                    bool internal,
+                                    bool enter) {
                                     const auto defer = false;
                                     const auto valid = true;
                                     // TODO: Since dispatch table is static, transitions might be
@@ -1863,7 +1966,8 @@ constexpr auto addDispatchTableEntryOfSubMachineExits(
                                                                         defer,
                                                                         valid,
                                                                         internal,
-                                                                        std::move(transition2) });
+                                                                        std::move(transition2),
+                                                                        enter });
                                 },
                                 dispatchTables[eventTypeid],
                                 make_transition(
@@ -1874,9 +1978,13 @@ constexpr auto addDispatchTableEntryOfSubMachineExits(
                                     mappedParent,
                                     mappedTarget,
                                     optionalDependency),
-                                transition.internal());
+                                transition.internal(),
+                                resolveEnter(transition));
                         },
-                        getCombinedStateIdx(combinedStateTypeids, parentState, state),
+                        getCombinedStateIdx(
+                            combinedStateTypeids,
+                            bh::first(parentAndState),
+                            bh::second(parentAndState)),
                         getCombinedStateIdx(
                             combinedStateTypeids, resolveDstParent(transition), target),
                         resolveHistory(transition),
@@ -1897,6 +2005,16 @@ constexpr auto filter_transitions = [](auto transitions, auto eventTypeid) {
     return bh::filter(transitions, isEvent);
 };
 
+constexpr auto filter_sub_machine_transitions = [](auto transitions, auto parentTypeid) {
+    auto isSubMachineTransition = [parentTypeid](auto transition) {
+        return bh::and_(
+            has_transition_table(transition.source()),
+            bh::equal(bh::typeid_(transition.parent()), parentTypeid));
+    };
+
+    return bh::filter(transitions, isSubMachineTransition);
+};
+
 template <
     class State,
     class DispatchTables,
@@ -1915,6 +2033,31 @@ constexpr auto fill_dispatch_table_with_transitions(
         eventTypeids,
         [rootState, &dispatchTables, statesMap, optionalDependency, transitions](auto eventTypeid) {
             auto filteredTransitions = filter_transitions(transitions, eventTypeid);
+
+            // Entries are tried in the reverse order of their insertion: Transitions of sub machines
+            // are added before the transitions of their sub states, which take precedence.
+            bh::for_each(
+                collect_parent_state_typeids(rootState),
+                [rootState,
+                 &dispatchTables,
+                 statesMap,
+                 optionalDependency,
+                 eventTypeid,
+                 filteredTransitions](auto parentTypeid) {
+                    bh::for_each(
+                        filter_sub_machine_transitions(filteredTransitions, parentTypeid),
+                        [rootState, &dispatchTables, statesMap, optionalDependency, eventTypeid](
+                            auto transition) {
+                            addDispatchTableEntryOfSubMachineExits(
+                                rootState,
+                                dispatchTables,
+                                transition,
+                                eventTypeid,
+                                statesMap,
+                                optionalDependency);
+                        });
+                });
+
             bh::for_each(
                 filteredTransitions,
                 [rootState, &dispatchTables, statesMap, optionalDependency, eventTypeid](
@@ -1926,41 +2069,41 @@ constexpr auto fill_dispatch_table_with_transitions(
                         eventTypeid,
                         statesMap,
                         optionalDependency);
-                    addDispatchTableEntryOfSubMachineExits(
-                        rootState,
-                        dispatchTables,
-                        transition,
-                        eventTypeid,
-                        statesMap,
-                        optionalDependency);
                 });
         });
 }
 
-constexpr auto getDeferingTransitions = [](auto rootState) {
-    constexpr auto transitionHasDeferedEvents
-        = [](auto transition) { return has_deferred_events(resolveExtentedInitialState(transition)); };
+constexpr auto extractResolvedParentAndState = [](auto transition) {
+    return bh::make_basic_tuple(
+        bh::make_pair(resolveSrcParent(transition), resolveSrc(transition)),
+        bh::make_pair(resolveDstParent(transition), resolveDst(transition)));
+};
+
+constexpr auto getDeferingStates = [](auto rootState) {
+    constexpr auto stateHasDeferedEvents
+        = [](auto parentAndState) { return has_deferred_events(bh::second(parentAndState)); };
 
-    constexpr auto transitions = flatten_transition_table(rootState);
-    return bh::filter(transitions, transitionHasDeferedEvents);
+    constexpr auto states = remove_duplicates(bh::flatten(
+        bh::transform(flatten_transition_table(rootState), extractResolvedParentAndState)));
+    return bh::filter(states, stateHasDeferedEvents);
 };
 
 constexpr auto hasDeferedEvents = [](auto rootState) {
-    return bh::not_equal(bh::size_c<0>, bh::size(getDeferingTransitions(rootState)));
+    return bh::not_equal(bh::size_c<0>, bh::size(getDeferingStates(rootState)));
 };
 
 template <class RootState, class DispatchTables, class OptionalDependency>
 constexpr auto fill_dispatch_table_with_deferred_events(
     RootState rootState, DispatchTables& dispatchTables, OptionalDependency /*optionalDependency*/)
 {
-    const auto transitions = getDeferingTransitions(rootState);
-    bh::for_each(transitions, [=, &dispatchTables](auto transition) {
-        const auto deferredEvents = get_defer_events(resolveExtentedInitialState(transition));
+    const auto states = getDeferingStates(rootState);
+    bh::for_each(states, [=, &dispatchTables](auto parentAndState) {
+        const auto deferredEvents = get_defer_events(bh::second(parentAndState));
         bh::for_each(deferredEvents, [=, &dispatchTables](auto event) {
             const auto combinedStateTypeids = getCombinedStateTypeids(rootState);
             auto& dispatchTable = dispatchTables[event];
             const auto from = getCombinedStateIdx(
-                combinedStateTypeids, resolveSrcParent(transition), resolveSrc(transition));
+                combinedStateTypeids, bh::first(parentAndState), bh::second(parentAndState));
 
             dispatchTable[from].push_front({});
             dispatchTable[from].front().defer = true;
@@ -1995,7 +2138,7 @@ constexpr auto fill_dispatch_table_with_internal_transitions(
         dispatchTables,
         statesMap,
         optionalDependecy,
-        flatten_internal_transition_table(rootState));
+        collect_internal_transitions(rootState));
 }
 }
 
@@ -2221,8 +2364,9 @@ template <class State> constexpr auto has_history(State rootState)
 #include <boost/hana/type.hpp>
 #include <boost/hana/unpack.hpp>
 
+#include <algorithm>
+#include <list>
 #include <stdexcept>
-#include <queue>
 #include <variant>
 
 namespace hsm {
@@ -2232,7 +2376,7 @@ template <class EventsTuple> auto constexpr make_variant_queue(EventsTuple event
 {
     using Variant_t =
         typename decltype(boost::hana::unpack(events, boost::hana::template_<std::variant>))::type;
-    return std::queue<Variant_t> {};
+    return std::list<Variant_t> {};
 }
 }
 
@@ -2256,12 +2400,12 @@ public:
 
     template <class T> void push(const T& e)
     {
-        m_queue.push(e);
+        m_queue.push_back(e);
     }
 
     template <class T> void push(T&& e)
     {
-        m_queue.push(e);
+        m_queue.push_back(e);
     }
 
     template <class Callable>
@@ -2271,13 +2415,36 @@ public:
         }
 
         auto frontElement = m_queue.front();
-        m_queue.pop();
+        m_queue.pop_front();
 
         std::visit([&callable](auto&& arg){
             callable(arg);    
         }, frontElement);
         
     }
+
+    /**
+     * Removes and visits the first element that fulfills the predicate
+     *
+     * @return false if there is no such element
+     */
+    template <class Predicate, class Callable>
+    auto visit_first(const Predicate& predicate, const Callable& callable) -> bool
+    {
+        const auto position = std::find_if(m_queue.begin(), m_queue.end(), [&predicate](auto& element) {
+            return std::visit(predicate, element);
+        });
+
+        if (position == m_queue.end()) {
+            return false;
+        }
+
+        Queue_t element;
+        element.splice(element.begin(), m_queue, position);
+
+        std::visit([&callable](auto&& arg) { callable(arg); }, element.front());
+        return true;
+    }
 };
 }
 
@@ -2285,10 +2452,14 @@ public:
 #include <boost/hana/contains.hpp>
 #include <boost/hana/type.hpp>
 
+#include <algorithm>
 #include <array>
 #include <cstdint>
 #include <iostream>
+#include <memory>
 #include <sstream>
+#include <tuple>
+#include <utility>
 #include <vector>
 
 namespace hsm {
@@ -2305,7 +2476,7 @@ template <class RootState, class... OptionalParameters> class sm {
     using StatesMap = decltype(make_states_map(rootState));
     using DispatchTables = decltype(make_dispatch_tables(rootState));
     using UnexpectedEventHandlerTables = decltype(make_unexpected_event_handler_tables(rootState));
-    std::array<StateIdx, maxInitialStates(rootState)> m_currentCombinedState;
+    std::array<StateIdx, maxInitialStates(rootState)> m_currentCombinedState {};
     std::array<std::vector<std::size_t>, nParentStates(rootState)> m_initial_states;
     std::array<std::vector<std::size_t>, nParentStates(rootState)> m_history;
     variant_queue<Events> m_defer_queue;
@@ -2313,6 +2484,7 @@ template <class RootState, class... OptionalParameters> class sm {
     StatesMap m_statesMap;
     DispatchTables m_dispatchTables;
     UnexpectedEventHandlerTables m_unexpectedEventHandlerTables;
+    std::tuple<std::shared_ptr<OptionalParameters*>...> m_dependencies;
 
   public:
     sm(OptionalParameters&... optionalParameters)
@@ -2320,6 +2492,8 @@ template <class RootState, class... OptionalParameters> class sm {
         , m_history()
         , m_defer_queue(collect_event_typeids_recursive(rootState))
         , m_statesMap(make_states_map(rootState))
+        , m_dependencies(
+              std::make_shared<OptionalParameters*>(std::addressof(optionalParameters))...)
     {
         static_assert(
             has_transition_table(rootState), "Root state has no make_transition_table method");
@@ -2329,8 +2503,16 @@ template <class RootState, class... OptionalParameters> class sm {
         static_assert(
             maxInitialStates(rootState),
             "Transition table needs to have at least one initial state");
+        static_assert(
+            bh::not_(at_least_one_initial_state_has_transition_table(rootState)),
+            "At least one initial state of the state machine has sub states/transition tables. "
+            "This is not allowed.");
+        static_assert(
+            bh::not_(at_least_one_initial_state_has_internal_transition_table(rootState)),
+            "At least one initial state of the state machine has internal transition tables. This "
+            "is not allowed.");
 
-        auto optionalDependency = bh::make_basic_tuple(std::ref(optionalParameters)...);
+        auto optionalDependency = std::apply(bh::make_basic_tuple, m_dependencies);
 
         if constexpr (has_unexpected_event_handler(rootState)) {
             fill_unexpected_event_handler_tables(
@@ -2343,12 +2525,12 @@ template <class RootState, class... OptionalParameters> class sm {
 
         fill_dispatch_table(optionalDependency);
         fill_initial_state_table(rootState, m_initial_states);
-        fill_initial_state_table(rootState, m_history);
+        init_history();
         init_current_state();
         update_current_regions();
     }
 
-    template <class Event> auto process_event(Event&& event)
+    template <class Event> auto process_event(Event&& event) -> bool
     {
         static_assert(
             bh::contains(
@@ -2356,12 +2538,17 @@ template <class RootState, class... OptionalParameters> class sm {
                 bh::type_c<typename std::remove_reference<Event>::type>),
             "Processed event was not found in the transition table");
 
-        if (!process_event_internal(event)) {
+        switch (process_event_internal(event)) {
+        case ProcessEventResult::AllTransitionsInvalid:
             call_unexpected_event_handler(event);
-            return;
+            [[fallthrough]];
+        case ProcessEventResult::EventDefered:
+        case ProcessEventResult::AllGuardsFailed:
+            return false;
+        case ProcessEventResult::EventProcessed:
+            process_deferred_events();
         }
-
-        process_deferred_events();
+        return true;
     }
 
     template <class State> auto is(State state) -> bool
@@ -2378,8 +2565,9 @@ template <class RootState, class... OptionalParameters> class sm {
     template <class ParentState, class State>
     auto is(Region region, ParentState parentState, State state) -> bool
     {
-        return currentParentState() == getParentStateIdx(rootState, parentState)
-            && currentState(region) == getStateIdx(rootState, state);
+        return currentParentState(region) == getParentStateIdx(rootState, parentState)
+            && currentState(region) == getStateIdx(rootState, state)
+            && region < current_regions();
     }
 
     template <class ParentState> auto parent_is(ParentState parentState) -> bool
@@ -2387,14 +2575,42 @@ template <class RootState, class... OptionalParameters> class sm {
         return currentParentState() == getParentStateIdx(rootState, parentState);
     }
 
+    template <class State> auto set(State state) -> void
+    {
+        set(0, rootState, state);
+    }
+
+    template <class ParentState, class State> auto set(ParentState parentState, State state) -> void
+    {
+        set(0, parentState, state);
+    }
+
+    template <class ParentState, class State>
+    auto set(Region region, ParentState parentState, State state) -> void
+    {
+        static_assert(
+            bh::contains(collect_state_typeids_recursive(rootState), bh::typeid_(state)),
+            "State does not exist in transition table");
+        static_assert(
+            bh::contains(collect_parent_state_typeids(rootState), bh::typeid_(parentState)),
+            "Parent state does not exist in transition table");
+
+        m_currentCombinedState.at(region)
+            = getCombinedStateIdx(getCombinedStateTypeids(rootState), parentState, state);
+
+        if (region == 0) {
+            set_regions();
+        }
+    }
+
     auto status() -> std::string
     {
         std::stringstream statusStream;
         const auto currentRegions = current_regions();
         for (Region region = 0; region < currentRegions; region++) {
-            statusStream << "[" << region << "] "
+            statusStream << "[" << static_cast<std::size_t>(region) << "] "
                          << "combined: " << m_currentCombinedState[region] << " "
-                         << "parent: " << currentParentState() << " "
+                         << "parent: " << currentParentState(region) << " "
                          << "state: " << currentState(region);
         }
         return statusStream.str();
@@ -2402,17 +2618,30 @@ template <class RootState, class... OptionalParameters> class sm {
 
     auto set_dependency(OptionalParameters&... optionalParameters)
     {
-        auto optionalDependency = bh::make_basic_tuple(std::ref(optionalParameters)...);
-        fill_dispatch_table(optionalDependency);
+        rebind_dependencies(
+            std::index_sequence_for<OptionalParameters...> {},
+            std::make_tuple(std::addressof(optionalParameters)...));
     }
 
   private:
-    template <class Event> auto process_event_internal(Event&& event) -> bool
+    enum class ProcessEventResult {
+        AllTransitionsInvalid,
+        AllGuardsFailed,
+        EventProcessed,
+        EventDefered
+    };
+
+    template <class Event> auto process_event_internal(Event&& event) -> ProcessEventResult
     {
         bool allGuardsFailed = true;
         bool allTransitionsInvalid = true;
 
-        const auto currentRegions = current_regions();
+        if (is_deferred(event)) {
+            m_defer_queue.push(event);
+            return ProcessEventResult::EventDefered;
+        }
+
+        auto currentRegions = current_regions();
         for (Region region = 0; region < currentRegions; region++) {
 
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
@@ -2424,11 +2653,6 @@ template <class RootState, class... OptionalParameters> class sm {
 
             for (auto& result : results) {
 
-                if (result.defer) {
-                    m_defer_queue.push(event);
-                    return true;
-                }
-
                 if (!result.transition->executeGuard(event)) {
                     allTransitionsInvalid = false;
                     continue;
@@ -2436,7 +2660,9 @@ template <class RootState, class... OptionalParameters> class sm {
 
                 allTransitionsInvalid = false;
                 allGuardsFailed = false;
-                update_current_state(region, result);
+                if (update_current_state(region, result)) {
+                    currentRegions = root_regions();
+                }
 
                 result.transition->executeAction(event);
                 break;
@@ -2444,36 +2670,65 @@ template <class RootState, class... OptionalParameters> class sm {
         }
 
         if (allTransitionsInvalid) {
-            return false;
+            return ProcessEventResult::AllTransitionsInvalid;
         }
 
         if (allGuardsFailed) {
-            return true;
+            return ProcessEventResult::AllGuardsFailed;
         }
 
-        process_anonymous_transitions();
-        return true;
+        process_anonymous_transitions(noneEvent {});
+        return ProcessEventResult::EventProcessed;
     }
 
-    auto process_deferred_events()
+    /**
+     * An event is deferred as long as it is deferred by the active state of any region.
+     */
+    template <class Event> auto is_deferred(Event& event) -> bool
     {
+        (void)event;
+
         if constexpr (hasDeferedEvents(rootState)) {
-            if (!m_defer_queue.empty()) {
-                m_defer_queue.visit([this](auto event) { this->process_event_internal(event); });
+            const auto currentRegions = current_regions();
+            for (Region region = 0; region < currentRegions; region++) {
+                for (auto& result : get_dispatch_table_entry(event, region)) {
+                    if (result.defer) {
+                        return true;
+                    }
+                }
             }
         }
+
+        return false;
+    }
+
+    /**
+     * Recalls the oldest event that is not deferred anymore, until all remaining events are still
+     * deferred.
+     */
+    auto process_deferred_events()
+    {
+        if constexpr (hasDeferedEvents(rootState)) {
+            const auto isRecalled = [this](auto& event) { return !this->is_deferred(event); };
+            const auto processEvent = [this](auto event) {
+                if (this->process_event_internal(event)
+                    == ProcessEventResult::AllTransitionsInvalid) {
+                    this->call_unexpected_event_handler(event);
+                }
+            };
+
+            while (m_defer_queue.visit_first(isRecalled, processEvent)) { }
+        }
     }
 
-    auto process_anonymous_transitions()
+    template <class Event> auto process_anonymous_transitions(Event&& event)
     {
         if constexpr (has_anonymous_transition(rootState)) {
             while (true) {
                 auto allGuardsFailed = true;
 
-                const auto currentRegions = current_regions();
+                auto currentRegions = current_regions();
                 for (Region region = 0; region < currentRegions; region++) {
-
-                    auto event = noneEvent {};
                     // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
                     auto& results = get_dispatch_table_entry(event, region);
 
@@ -2486,7 +2741,9 @@ template <class RootState, class... OptionalParameters> class sm {
                             continue;
                         }
 
-                        update_current_state(region, result);
+                        if (update_current_state(region, result)) {
+                            currentRegions = root_regions();
+                        }
                         result.transition->executeAction(event);
                         allGuardsFailed = false;
                         break;
@@ -2506,41 +2763,128 @@ template <class RootState, class... OptionalParameters> class sm {
         return m_dispatchTables[event][index];
     }
 
+    /**
+     * Returns true if region 0 entered or left a sub machine, such that the regions which
+     * belong to the sub machine do not take part in the current event anymore.
+     */
     template <class DispatchTableEntry>
-    void update_current_state(Region region, const DispatchTableEntry& dispatchTableEntry)
+    auto update_current_state(Region region, const DispatchTableEntry& dispatchTableEntry) -> bool
     {
         if (dispatchTableEntry.internal) {
-            return;
+            return false;
         }
 
+        const auto previousParent = currentParentState();
+        auto combined = dispatchTableEntry.combinedState;
+
         if constexpr (has_history(rootState)) {
-            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            m_history[currentParentState()][region] = m_currentCombinedState[region];
+            update_history();
 
             if (dispatchTableEntry.history) {
-                auto parent
-                    = calcParentStateIdx(nStates(rootState), dispatchTableEntry.combinedState);
                 // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-                auto combined = m_history[parent][region];
-                // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-                m_currentCombinedState[region] = combined;
-            } else {
-                // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-                m_currentCombinedState[region] = dispatchTableEntry.combinedState;
+                combined = m_history[calcParentStateIdx(nStates(rootState), combined)][region];
             }
-        } else {
-            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            m_currentCombinedState[region] = dispatchTableEntry.combinedState;
         }
 
+        // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+        m_currentCombinedState[region] = combined;
+
+        if (region != 0) {
+            return false;
+        }
+
+        if (dispatchTableEntry.enter) {
+            enter_regions(dispatchTableEntry.history);
+        }
         update_current_regions();
+
+        return dispatchTableEntry.enter || previousParent != currentParentState();
+    }
+
+    /**
+     * Activates the regions that are added by the entered parent state of region 0.
+     */
+    void enter_regions(bool history)
+    {
+        if constexpr (hasParallelRegions(rootState)) {
+            const auto parent = currentParentState();
+            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+            const auto& states = history ? m_history[parent] : m_initial_states[parent];
+            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+            const auto regions = m_initial_states[parent].size();
+
+            for (auto region = root_regions(); region < regions; region++) {
+                // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+                m_currentCombinedState[region] = states[region];
+            }
+        }
+    }
+
+    /**
+     * Activates the regions that are added by the parent state region 0 was set to, regions which
+     * were already set to a state of this parent state are kept.
+     */
+    void set_regions()
+    {
+        if constexpr (hasParallelRegions(rootState)) {
+            const auto parent = currentParentState();
+            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+            const auto& states = m_initial_states[parent];
+
+            for (auto region = root_regions(); region < states.size(); region++) {
+                if (currentParentState(region) != parent) {
+                    // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+                    m_currentCombinedState[region] = states[region];
+                }
+            }
+            update_current_regions();
+        }
     }
 
     void update_current_regions()
     {
         if constexpr (hasParallelRegions(rootState)) {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            m_currentRegions = m_initial_states[currentParentState()].size();
+            const auto regions = m_initial_states[currentParentState()].size();
+            m_currentRegions = std::max(regions, root_regions());
+        }
+    }
+
+    auto root_regions() -> std::size_t
+    {
+        if constexpr (hasParallelRegions(rootState)) {
+            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+            return m_initial_states[getParentStateIdx(rootState, rootState)].size();
+        } else {
+            return 1;
+        }
+    }
+
+    /**
+     * Remembers the active state of each region for the parent state it belongs to.
+     */
+    void update_history()
+    {
+        const auto currentRegions = current_regions();
+        for (Region region = 0; region < currentRegions; region++) {
+            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+            const auto combined = m_currentCombinedState[region];
+            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+            m_history[calcParentStateIdx(nStates(rootState), combined)][region] = combined;
+        }
+    }
+
+    /**
+     * The history of a parent state starts with its initial states. Any region can be inside of
+     * the parent state, a region without an own initial state enters the first one.
+     */
+    void init_history()
+    {
+        if constexpr (has_history(rootState)) {
+            fill_initial_state_table(rootState, m_history);
+            for (auto& states : m_history) {
+                states.resize(m_currentCombinedState.size(), states.empty() ? 0 : states.front());
+            }
         }
     }
 
@@ -2568,9 +2912,9 @@ template <class RootState, class... OptionalParameters> class sm {
         return calcStateIdx(nStates(rootState), m_currentCombinedState.at(region));
     }
 
-    auto currentParentState()
+    auto currentParentState(Region region = 0)
     {
-        return calcParentStateIdx(nStates(rootState), m_currentCombinedState[0]);
+        return calcParentStateIdx(nStates(rootState), m_currentCombinedState.at(region));
     }
 
     void init_current_state()
@@ -2590,6 +2934,13 @@ template <class RootState, class... OptionalParameters> class sm {
         return m_dispatchTables[bh::typeid_(event)][m_currentCombinedState[region]];
     }
 
+    template <std::size_t... Idxs, class Dependencies>
+    void rebind_dependencies(std::index_sequence<Idxs...>, const Dependencies& dependencies)
+    {
+        (void)dependencies;
+        ((*std::get<Idxs>(m_dependencies) = std::get<Idxs>(dependencies)), ...);
+    }
+
     template <class OptionalDependency>
     void fill_dispatch_table(OptionalDependency& optionalDependency)
     {
@@ -2930,4 +3281,4 @@ template <class Source, class Guard> class TransitionSG {
 namespace hsm {
 constexpr auto transition = details::transition;
 constexpr auto internal_transition = details::internal_transition;
-}
\ No newline at end of file
+}
-- 
2.43.0


From 99c27d03be431e37acc6d6ba5f03c76dfbebba5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:23 +0000
Subject: [PATCH 10/17] fix: state factories and reuse actions get the event
 and source itself

They received copies, so data written to the source or event was lost and
neither could be of a non-copyable type.
---
 include/hsm/details/create_state.h | 2 +-
 include/hsm/details/reuse_state.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hsm/details/create_state.h b/include/hsm/details/create_state.h
index 308d6f6..2fe86b4 100644
--- a/include/hsm/details/create_state.h
+++ b/include/hsm/details/create_state.h
@@ -10,7 +10,7 @@ template <class StateFactory> class CreateState {
     }
 
     template <class Event, class Source, class Target>
-    constexpr auto operator()(Event event, Source source, Target target) const
+    constexpr auto operator()(Event&& event, Source&& source, Target&& target) const
     {
         *target = m_stateFactory(event, source);
     }
diff --git a/include/hsm/details/reuse_state.h b/include/hsm/details/reuse_state.h
index 4276c79..1626130 100644
--- a/include/hsm/details/reuse_state.h
+++ b/include/hsm/details/reuse_state.h
@@ -10,7 +10,7 @@ template <class Action> class ReuseState {
     }
 
     template <class Event, class Source, class Target>
-    constexpr auto operator()(Event event, Source source, Target target) const
+    constexpr auto operator()(Event&& event, Source&& source, Target&& target) const
     {
         m_action(event, source, **target);
     }
-- 
2.43.0


From 7d1b1a2c52e8c2eb711cbf85e89575c7eeb269da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:23 +0000
Subject: [PATCH 11/17] fix: bring the amalgamated header up to date with
 create_state and reuse_state

---
 include/hsm/gen/hsm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index 247bb53..d192549 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -31,7 +31,7 @@ template <class StateFactory> class CreateState {
     }
 
     template <class Event, class Source, class Target>
-    constexpr auto operator()(Event event, Source source, Target target) const
+    constexpr auto operator()(Event&& event, Source&& source, Target&& target) const
     {
         *target = m_stateFactory(event, source);
     }
@@ -68,7 +68,7 @@ template <class Action> class ReuseState {
     }
 
     template <class Event, class Source, class Target>
-    constexpr auto operator()(Event event, Source source, Target target) const
+    constexpr auto operator()(Event&& event, Source&& source, Target&& target) const
     {
         m_action(event, source, **target);
     }
-- 
2.43.0


From 70518cbd2ee5e1528f7684369ad4e4229a20047f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:23 +0000
Subject: [PATCH 12/17] fix: run the exit action of a state that is left by its
 initial row

---
 include/hsm/details/has_action.h    | 13 ++++++++++++-
 include/hsm/details/resolve_state.h |  4 ++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/hsm/details/has_action.h b/include/hsm/details/has_action.h
index eeede7c..7b3c84c 100644
--- a/include/hsm/details/has_action.h
+++ b/include/hsm/details/has_action.h
@@ -23,6 +23,17 @@ constexpr auto has_substate_initial_state_entry_action = [](auto target) {
     }
 };
 
+/**
+ * Returns the state that is left by a transition, also if it is marked as initial state
+ */
+constexpr auto resolveLeftState = [](auto source) {
+    if constexpr (is_initial_state(source)) {
+        return get_state(source);
+    } else {
+        return source;
+    }
+};
+
 constexpr auto has_pseudo_exit_action = [](auto transition) {
     return bh::and_(
         is_exit_state(transition.source()), has_exit_action(resolveSrcParent(transition)));
@@ -33,7 +44,7 @@ constexpr auto has_action = [](auto transition) {
         bh::not_(is_no_action(transition.action())),
         has_entry_action(transition.target()),
         has_substate_initial_state_entry_action(transition.target()),
-        has_exit_action(transition.source()),
+        has_exit_action(resolveLeftState(transition.source())),
         has_pseudo_exit_action(transition));
 };
 }
\ No newline at end of file
diff --git a/include/hsm/details/resolve_state.h b/include/hsm/details/resolve_state.h
index a18af28..4405336 100644
--- a/include/hsm/details/resolve_state.h
+++ b/include/hsm/details/resolve_state.h
@@ -115,8 +115,8 @@ template <class Transition> constexpr auto resolveExitAction(Transition transiti
 
     if constexpr (transition.internal()) {
         return [](auto&&...) {};
-    } else if constexpr (has_exit_action(transition.source())) {
-        return get_exit_action(transition.source());
+    } else if constexpr (has_exit_action(resolveLeftState(transition.source()))) {
+        return get_exit_action(resolveLeftState(transition.source()));
     } else if constexpr (hasPseudoExitAction) {
         return get_exit_action(resolveSrcParent(transition));
     } else {
-- 
2.43.0


From 0c1e2a51577c73141a5ffa096d616c82146f4043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:04 +0000
Subject: [PATCH 13/17] fix: bring the amalgamated header up to date with
 initial-row exits

---
 include/hsm/gen/hsm.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index d192549..f6cb85e 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -981,6 +981,17 @@ constexpr auto has_substate_initial_state_entry_action = [](auto target) {
     }
 };
 
+/**
+ * Returns the state that is left by a transition, also if it is marked as initial state
+ */
+constexpr auto resolveLeftState = [](auto source) {
+    if constexpr (is_initial_state(source)) {
+        return get_state(source);
+    } else {
+        return source;
+    }
+};
+
 constexpr auto has_pseudo_exit_action = [](auto transition) {
     return bh::and_(
         is_exit_state(transition.source()), has_exit_action(resolveSrcParent(transition)));
@@ -991,7 +1002,7 @@ constexpr auto has_action = [](auto transition) {
         bh::not_(is_no_action(transition.action())),
         has_entry_action(transition.target()),
         has_substate_initial_state_entry_action(transition.target()),
-        has_exit_action(transition.source()),
+        has_exit_action(resolveLeftState(transition.source())),
         has_pseudo_exit_action(transition));
 };
 }
@@ -1109,8 +1120,8 @@ template <class Transition> constexpr auto resolveExitAction(Transition transiti
 
     if constexpr (transition.internal()) {
         return [](auto&&...) {};
-    } else if constexpr (has_exit_action(transition.source())) {
-        return get_exit_action(transition.source());
+    } else if constexpr (has_exit_action(resolveLeftState(transition.source()))) {
+        return get_exit_action(resolveLeftState(transition.source()));
     } else if constexpr (hasPseudoExitAction) {
         return get_exit_action(resolveSrcParent(transition));
     } else {
-- 
2.43.0


From 6ad8b4db563e848c9a45099429107fe0ea8f1a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:18 +0000
Subject: [PATCH 14/17] fix: internal transitions apply to direct sub states
 only, not to those named by pseudo states

---
 .../flatten_internal_transition_table.h       | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/hsm/details/flatten_internal_transition_table.h b/include/hsm/details/flatten_internal_transition_table.h
index 6d5b83f..95559ed 100644
--- a/include/hsm/details/flatten_internal_transition_table.h
+++ b/include/hsm/details/flatten_internal_transition_table.h
@@ -11,6 +11,7 @@
 #include <boost/hana/filter.hpp>
 #include <boost/hana/functional/capture.hpp>
 #include <boost/hana/not.hpp>
+#include <boost/hana/or.hpp>
 #include <boost/hana/prepend.hpp>
 #include <boost/hana/size.hpp>
 #include <boost/hana/transform.hpp>
@@ -55,7 +56,19 @@ constexpr auto get_internal_transition_table = [](auto parentState) {
 };
 
 /**
- * Extends an internal transitions to all provided states
+ * Predicate that checks for a state which is not a pseudo state
+ */
+constexpr auto isNotPseudoState = [](auto state) {
+    return bh::not_(bh::or_(
+        is_entry_state(state),
+        is_exit_state(state),
+        is_direct_state(state),
+        is_history_state(state)));
+};
+
+/**
+ * Extends an internal transitions to all provided states, pseudo states refer to states of
+ * other parent states and are left out.
  *
  * @param internalTranstion Internal transition that should be extended
  * @param states tuple of states
@@ -113,7 +126,9 @@ constexpr auto get_internal_transitions = [](auto stateAndParentStatePairs) {
                         if constexpr (has_transition_table(bh::second(stateAndParentStatePair))) {
                             return extend_internal_transition(
                                 internalTransition,
-                                collect_child_states(bh::second(stateAndParentStatePair)));
+                                bh::filter(
+                                    collect_child_states(bh::second(stateAndParentStatePair)),
+                                    isNotPseudoState));
                         } else if constexpr (has_internal_transition_table(
                                                  bh::second(stateAndParentStatePair))) {
                             return extend_internal_transition2(
-- 
2.43.0


From 9a8aed8bbdff73d633e767e1f55b82be5063b2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:18 +0000
Subject: [PATCH 15/17] fix: bring the amalgamated header up to date with
 internal transitions

---
 include/hsm/gen/hsm.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index f6cb85e..76532eb 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -1372,6 +1372,7 @@ template <class State> constexpr auto collect_state_parentstate_pairs_recursivel
 #include <boost/hana/filter.hpp>
 #include <boost/hana/functional/capture.hpp>
 #include <boost/hana/not.hpp>
+#include <boost/hana/or.hpp>
 #include <boost/hana/prepend.hpp>
 #include <boost/hana/size.hpp>
 #include <boost/hana/transform.hpp>
@@ -1416,7 +1417,19 @@ constexpr auto get_internal_transition_table = [](auto parentState) {
 };
 
 /**
- * Extends an internal transitions to all provided states
+ * Predicate that checks for a state which is not a pseudo state
+ */
+constexpr auto isNotPseudoState = [](auto state) {
+    return bh::not_(bh::or_(
+        is_entry_state(state),
+        is_exit_state(state),
+        is_direct_state(state),
+        is_history_state(state)));
+};
+
+/**
+ * Extends an internal transitions to all provided states, pseudo states refer to states of
+ * other parent states and are left out.
  *
  * @param internalTranstion Internal transition that should be extended
  * @param states tuple of states
@@ -1474,7 +1487,9 @@ constexpr auto get_internal_transitions = [](auto stateAndParentStatePairs) {
                         if constexpr (has_transition_table(bh::second(stateAndParentStatePair))) {
                             return extend_internal_transition(
                                 internalTransition,
-                                collect_child_states(bh::second(stateAndParentStatePair)));
+                                bh::filter(
+                                    collect_child_states(bh::second(stateAndParentStatePair)),
+                                    isNotPseudoState));
                         } else if constexpr (has_internal_transition_table(
                                                  bh::second(stateAndParentStatePair))) {
                             return extend_internal_transition2(
-- 
2.43.0


From d41f310203475bb9b38e9fa75792dfc7e47e2ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:15 +0000
Subject: [PATCH 16/17] fix: accept anonymous transitions with initial source,
 guard or action in prefix notation

---
 include/hsm/details/forwards.h     |  1 +
 include/hsm/details/state.h        | 37 ++++++++++++++++++++++++++++--
 include/hsm/front/transition_dsl.h |  3 ---
 3 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/include/hsm/details/forwards.h b/include/hsm/details/forwards.h
index 9234057..fca5abd 100644
--- a/include/hsm/details/forwards.h
+++ b/include/hsm/details/forwards.h
@@ -11,6 +11,7 @@ template <class Event, class Action> class TransitionEA;
 template <class Event, class Guard, class Action> class TransitionEGA;
 template <class Source, class Action> class TransitionSA;
 template <class Source, class Guard> class TransitionSG;
+template <class Source, class Guard, class Action> class TransitionSGA;
 template <class Source, class Event> class TransitionSE;
 template <class Source, class Event, class Guard> class TransitionSEG;
 template <class Source, class Event, class Action> class TransitionSEA;
diff --git a/include/hsm/details/state.h b/include/hsm/details/state.h
index 5c4b579..b691441 100644
--- a/include/hsm/details/state.h
+++ b/include/hsm/details/state.h
@@ -82,10 +82,43 @@ template <class Type> struct StateBase {
             state_t<Type> {});
     }
 
-    template <class Source> constexpr auto operator<=(const state_t<Source>& source) const
+    template <class Source, class Guard>
+    constexpr auto operator<=(const TransitionSG<Source, Guard>& transitionSg) const
     {
         return details::transition(
-            source, event_t<noneEvent> {}, noGuard {}, noAction {}, state_t<Type> {});
+            state_t<Source> {},
+            event_t<noneEvent> {},
+            transitionSg.guard,
+            noAction {},
+            state_t<Type> {});
+    }
+
+    template <class Source, class Action>
+    constexpr auto operator<=(const TransitionSA<Source, Action>& transitionSa) const
+    {
+        return details::transition(
+            state_t<Source> {},
+            event_t<noneEvent> {},
+            noGuard {},
+            transitionSa.action,
+            state_t<Type> {});
+    }
+
+    template <class Source, class Guard, class Action>
+    constexpr auto operator<=(const TransitionSGA<Source, Guard, Action>& transitionSga) const
+    {
+        return details::transition(
+            state_t<Source> {},
+            event_t<noneEvent> {},
+            transitionSga.guard,
+            transitionSga.action,
+            state_t<Type> {});
+    }
+
+    template <class Source> constexpr auto operator<=(const StateBase<Source>&) const
+    {
+        return details::transition(
+            state_t<Source> {}, event_t<noneEvent> {}, noGuard {}, noAction {}, state_t<Type> {});
     }
 
     template <class OtherState> auto operator==(OtherState) const -> bool
diff --git a/include/hsm/front/transition_dsl.h b/include/hsm/front/transition_dsl.h
index aeecac2..9fa76f6 100644
--- a/include/hsm/front/transition_dsl.h
+++ b/include/hsm/front/transition_dsl.h
@@ -139,7 +139,6 @@ template <class Source, class Action> class TransitionSA {
             state_t<Source> {}, event_t<noneEvent> {}, noGuard {}, action, target);
     }
 
-  private:
     const Action action;
 };
 
@@ -158,7 +157,6 @@ template <class Source, class Guard, class Action> class TransitionSGA {
             state_t<Source> {}, event_t<noneEvent> {}, guard, action, target);
     }
 
-  private:
     const Guard guard;
     const Action action;
 };
@@ -182,7 +180,6 @@ template <class Source, class Guard> class TransitionSG {
         return TransitionSGA<Source, Guard, Action> { guard, action };
     }
 
-  private:
     const Guard guard;
 };
 
-- 
2.43.0


From 0ef814ce9ba39913017bd24cfad942625dcadae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:15 +0000
Subject: [PATCH 17/17] fix: bring the amalgamated header up to date with
 prefix notation

---
 include/hsm/gen/hsm.h | 41 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index 76532eb..d44af9e 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -438,6 +438,7 @@ template <class Event, class Action> class TransitionEA;
 template <class Event, class Guard, class Action> class TransitionEGA;
 template <class Source, class Action> class TransitionSA;
 template <class Source, class Guard> class TransitionSG;
+template <class Source, class Guard, class Action> class TransitionSGA;
 template <class Source, class Event> class TransitionSE;
 template <class Source, class Event, class Guard> class TransitionSEG;
 template <class Source, class Event, class Action> class TransitionSEA;
@@ -3057,10 +3058,43 @@ template <class Type> struct StateBase {
             state_t<Type> {});
     }
 
-    template <class Source> constexpr auto operator<=(const state_t<Source>& source) const
+    template <class Source, class Guard>
+    constexpr auto operator<=(const TransitionSG<Source, Guard>& transitionSg) const
     {
         return details::transition(
-            source, event_t<noneEvent> {}, noGuard {}, noAction {}, state_t<Type> {});
+            state_t<Source> {},
+            event_t<noneEvent> {},
+            transitionSg.guard,
+            noAction {},
+            state_t<Type> {});
+    }
+
+    template <class Source, class Action>
+    constexpr auto operator<=(const TransitionSA<Source, Action>& transitionSa) const
+    {
+        return details::transition(
+            state_t<Source> {},
+            event_t<noneEvent> {},
+            noGuard {},
+            transitionSa.action,
+            state_t<Type> {});
+    }
+
+    template <class Source, class Guard, class Action>
+    constexpr auto operator<=(const TransitionSGA<Source, Guard, Action>& transitionSga) const
+    {
+        return details::transition(
+            state_t<Source> {},
+            event_t<noneEvent> {},
+            transitionSga.guard,
+            transitionSga.action,
+            state_t<Type> {});
+    }
+
+    template <class Source> constexpr auto operator<=(const StateBase<Source>&) const
+    {
+        return details::transition(
+            state_t<Source> {}, event_t<noneEvent> {}, noGuard {}, noAction {}, state_t<Type> {});
     }
 
     template <class OtherState> auto operator==(OtherState) const -> bool
@@ -3255,7 +3289,6 @@ template <class Source, class Action> class TransitionSA {
             state_t<Source> {}, event_t<noneEvent> {}, noGuard {}, action, target);
     }
 
-  private:
     const Action action;
 };
 
@@ -3274,7 +3307,6 @@ template <class Source, class Guard, class Action> class TransitionSGA {
             state_t<Source> {}, event_t<noneEvent> {}, guard, action, target);
     }
 
-  private:
     const Guard guard;
     const Action action;
 };
@@ -3298,7 +3330,6 @@ template <class Source, class Guard> class TransitionSG {
         return TransitionSGA<Source, Guard, Action> { guard, action };
     }
 
-  private:
     const Guard guard;
 };
 
-- 
2.43.0

