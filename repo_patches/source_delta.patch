From 80cf7e8805887b475f2db7113197ab8966814119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:30 +0000
Subject: [PATCH 01/69] fix: memoised functions restore reference arguments,
 order NaN keys, never return a result that was not computed, evict by last
 use

---
 ThermoFun/OptimizationUtils.h | 158 +++++++++++++++++++++++++++-------
 1 file changed, 126 insertions(+), 32 deletions(-)

diff --git a/ThermoFun/OptimizationUtils.h b/ThermoFun/OptimizationUtils.h
index b6cea7a..f23c775 100644
--- a/ThermoFun/OptimizationUtils.h
+++ b/ThermoFun/OptimizationUtils.h
@@ -3,35 +3,112 @@
 #include <map>
 #include <memory>
 #include <tuple>
+#include <type_traits>
+#include <utility>
 
 #include <list>
 
 namespace ThermoFun {
 
+/// The arguments of a call as they are kept in a cache: by value, also when the function takes references
+template <typename... Args>
+using MemoKey = std::tuple<typename std::decay<Args>::type...>;
+
+/// Strict order of cached arguments. Unlike the operator< of floating point numbers it also orders NaN,
+/// so a NaN argument is a key of its own and is not taken as equivalent to every other number.
+struct MemoKeyLess
+{
+    template <typename T>
+    static auto less(const T& a, const T& b) -> bool
+    {
+        if constexpr (std::is_floating_point<T>::value)
+            return a < b || (a == a && b != b);
+        else
+            return a < b;
+    }
+
+    template <size_t I = 0, typename... Ts>
+    static auto compare(const std::tuple<Ts...>& a, const std::tuple<Ts...>& b) -> bool
+    {
+        if constexpr (I == sizeof...(Ts))
+            return false;
+        else
+        {
+            if (less(std::get<I>(a), std::get<I>(b)))
+                return true;
+            if (less(std::get<I>(b), std::get<I>(a)))
+                return false;
+            return compare<I + 1>(a, b);
+        }
+    }
+
+    template <typename... Ts>
+    auto operator()(const std::tuple<Ts...>& a, const std::tuple<Ts...>& b) const -> bool
+    {
+        return compare(a, b);
+    }
+};
+
+/// The outcome of a call: the returned value and the arguments after the call
+template <typename Ret, typename... Args>
+struct MemoResult
+{
+    Ret value;
+    MemoKey<Args...> args;
+};
+
+/// Assign to the arguments passed by (non const) reference the values they had after the cached call
+template <typename... Args, size_t... I>
+auto memoRestoreArgs(const MemoKey<Args...>& saved, std::index_sequence<I...>, typename std::remove_reference<Args>::type&... args) -> void
+{
+    auto restore = [](auto isOutput, auto& arg, const auto& value)
+    {
+        if constexpr (decltype(isOutput)::value)
+            arg = value;
+    };
+    (restore(std::bool_constant<std::is_lvalue_reference<Args>::value && !std::is_const<typename std::remove_reference<Args>::type>::value>(),
+             args, std::get<I>(saved)), ...);
+}
+
 template <typename Ret, typename... Args>
 auto memoize(std::function<Ret(Args...)> f) -> std::function<Ret(Args...)>
 {
-    auto cache = std::make_shared<std::map<std::tuple<Args...>, Ret>>();
-    return [=](Args... args) mutable -> Ret
+    auto cache = std::make_shared<std::map<MemoKey<Args...>, MemoResult<Ret, Args...>, MemoKeyLess>>();
+    return [=](Args... args) -> Ret
     {
-        std::tuple<Args...> t(args...);
-        if(cache->find(t) == cache->end())
-            (*cache)[t] = f(args...);
-        return (*cache)[t];
+        MemoKey<Args...> key(args...);
+        auto it = cache->find(key);
+        if(it == cache->end())
+        {
+            Ret value = f(args...);
+            it = cache->insert_or_assign(key, MemoResult<Ret, Args...>{value, MemoKey<Args...>(args...)}).first;
+        }
+        else
+            memoRestoreArgs<Args...>(it->second.args, std::index_sequence_for<Args...>(), args...);
+        return it->second.value;
     };
 }
 
 template<typename Ret, typename... Args>
 auto memoizeLast(std::function<Ret(Args...)> f) -> std::function<Ret(Args...)>
 {
-    std::tuple<typename std::decay<Args>::type...> cache;
-    Ret result = Ret();
+    MemoKey<Args...> key;
+    MemoResult<Ret, Args...> result = {};
+    bool valid = false;
     return [=](Args... args) mutable -> Ret
     {
-        if(std::tie(args...) == cache)
-            return Ret(result);
-        cache = std::make_tuple(args...);
-        return result = f(args...);
+        if(valid && std::tie(args...) == key)
+        {
+            memoRestoreArgs<Args...>(result.args, std::index_sequence_for<Args...>(), args...);
+            return result.value;
+        }
+        MemoKey<Args...> called(args...);
+        valid = false; // nothing is cached if f throws
+        result.value = f(args...);
+        result.args = MemoKey<Args...>(args...);
+        key = called;
+        valid = true;
+        return result.value;
     };
 }
 
@@ -49,36 +126,53 @@ auto dereference(const std::shared_ptr<std::function<Ret(Args...)>>& f) -> std::
 
 
 
+/// Cache of the results of the last max_cache_size different calls: the least recently used one is removed first
 template <typename Ret, typename... Args>
 auto memoizeN(std::function<Ret(Args...)> f, size_t max_cache_size) -> std::function<Ret(Args...)>
 {
-    auto cache = std::make_shared<std::map<std::tuple<Args...>, Ret>>();
-    std::list<std::tuple<Args...>> usage_order; // List to track the order of usage for LRU cache management
+    using Key = MemoKey<Args...>;
+    using Usage = std::list<Key>;
+    struct Entry
+    {
+        MemoResult<Ret, Args...> result;
+        typename Usage::iterator used;
+    };
+    struct Cache
+    {
+        std::map<Key, Entry, MemoKeyLess> entries;
+        Usage usage_order; // the most recently used key first
+    };
+    auto cache = std::make_shared<Cache>();
 
-    return [=](Args... args) mutable -> Ret
+    return [=](Args... args) -> Ret
     {
-        std::tuple<Args...> t(args...); // Create a tuple key from the arguments
-
-        // Check cache size and evict the least recently used item if necessary before adding
-        if (cache->size() >= max_cache_size) {
-            if (!usage_order.empty()) {
-                std::tuple<Args...> lru_t = usage_order.back(); // Get the least recently used key
-                usage_order.pop_back();                           // Remove from usage order
-                cache->erase(lru_t);                             // Remove from cache
-            }
+        Key key(args...); // Create a tuple key from the arguments
+
+        auto it = cache->entries.find(key);
+        if (it != cache->entries.end()) { // Result already in cache
+            cache->usage_order.splice(cache->usage_order.begin(), cache->usage_order, it->second.used);
+            memoRestoreArgs<Args...>(it->second.result.args, std::index_sequence_for<Args...>(), args...);
+            return it->second.result.value;
         }
 
-        // Check if result is already in cache
-        if (cache->find(t) == cache->end()) { // t not found; compute the result
-            (*cache)[t] = f(args...); // Cache the result
-            usage_order.push_front(t); // Track the usage order
+        Ret value = f(args...);
+        if (max_cache_size == 0)
+            return value;
+
+        // The call can have cached this result already, when f uses this cache
+        it = cache->entries.find(key);
+        if (it == cache->entries.end()) {
+            // Evict the least recently used items before adding
+            while (cache->entries.size() >= max_cache_size) {
+                cache->entries.erase(cache->usage_order.back());
+                cache->usage_order.pop_back();
+            }
+            cache->usage_order.push_front(key);
+            cache->entries.emplace(key, Entry{{value, Key(args...)}, cache->usage_order.begin()});
         }
-        
-        return (*cache)[t]; // Return the cached result
+        return value;
     };
 }
 
-
-
 } // namespace ThermoFun
 
-- 
2.43.0


From 8bd03b569463cfda0f23ea16814328ef73b4875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:32 +0000
Subject: [PATCH 02/69] fix: a copied or assigned ThermoEngine is independent
 of the original

---
 ThermoFun/ThermoEngine.cpp | 14 ++++++++++++++
 ThermoFun/ThermoEngine.h   |  3 +++
 2 files changed, 17 insertions(+)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 57ebee0..955a71d 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -88,6 +88,13 @@ struct ThermoEngine::Impl
         set_fn();
     }
 
+    /// The functions of a copy have to call the copy, not the original instance
+    Impl(const Impl &other)
+        : database(other.database), preferences(other.preferences), prefs(other.prefs), conventions(other.conventions)
+    {
+        set_fn();
+    }
+
     void set_fn()
     {
         thermo_properties_substance_fn = [=, this](double T, double P_, double &P, std::string symbol) {
@@ -853,6 +860,13 @@ ThermoEngine::ThermoEngine(const ThermoEngine &other)
 {
 }
 
+auto ThermoEngine::operator=(const ThermoEngine &other) -> ThermoEngine&
+{
+    if (this != &other)
+        pimpl.reset(new Impl(*other.pimpl));
+    return *this;
+}
+
 auto ThermoEngine::thermoPropertiesSubstance(double T, double &P, std::string substance) const -> ThermoPropertiesSubstance
 {
     return pimpl->thermo_properties_substance_fn(T, P, P, substance);
diff --git a/ThermoFun/ThermoEngine.h b/ThermoFun/ThermoEngine.h
index ec968b4..e673078 100644
--- a/ThermoFun/ThermoEngine.h
+++ b/ThermoFun/ThermoEngine.h
@@ -63,6 +63,9 @@ public:
     /// Construct a copy of an ThermoEngine instance
     ThermoEngine(const ThermoEngine &other);
 
+    /// Assign an ThermoEngine instance to this
+    auto operator=(const ThermoEngine &other) -> ThermoEngine&;
+
     /// Sets the symbol of the solvent which is used to calculate properties using the thermo instance
     auto setSolventSymbol(const std::string solvent_symbol) -> void;
 
-- 
2.43.0


From 12b4f51fee86170eef49e35191194101334d62f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:36 +0000
Subject: [PATCH 03/69] fix: define ThermoEngine::setPreferences

---
 ThermoFun/ThermoEngine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 955a71d..d7862a5 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -923,6 +923,11 @@ auto ThermoEngine::setSolventSymbol(const std::string solvent_symbol) -> void
     pimpl->preferences.solvent_symbol = solvent_symbol;
 }
 
+auto ThermoEngine::setPreferences(const EnginePreferences preferences) -> void
+{
+    pimpl->preferences = preferences;
+}
+
 auto ThermoEngine::solventSymbol() -> std::string&
 {
     return pimpl->preferences.solvent_symbol;
-- 
2.43.0


From bdd44ac2518583b0f441a3b5017dec11338c3140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:40 +0000
Subject: [PATCH 04/69] fix: sum Cv, U and A over all the reactants of a
 reaction

---
 ThermoFun/ThermoEngine.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index d7862a5..b22c966 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -825,9 +825,9 @@ struct ThermoEngine::Impl
             tpr.reaction_volume             += tps.volume*coeff;
             tpr.ln_equilibrium_constant     = tpr.reaction_gibbs_energy / -(R_CONSTANT*(T));
             tpr.log_equilibrium_constant    = tpr.ln_equilibrium_constant * ln_to_lg;
-            tpr.reaction_heat_capacity_cv = tps.heat_capacity_cv*coeff;
-            tpr.reaction_internal_energy  = tps.internal_energy*coeff;
-            tpr.reaction_helmholtz_energy = tps.helmholtz_energy*coeff;
+            tpr.reaction_heat_capacity_cv   += tps.heat_capacity_cv*coeff;
+            tpr.reaction_internal_energy    += tps.internal_energy*coeff;
+            tpr.reaction_helmholtz_energy   += tps.helmholtz_energy*coeff;
 
             setMessage(tps.heat_capacity_cp.sta.first, "Cp of component " + substance, message+tps.heat_capacity_cp.sta.second, tpr.reaction_heat_capacity_cp.sta.second);
             setMessage(tps.gibbs_energy.sta.first,     "G0 of component " + substance, message+tps.gibbs_energy.sta.second,     tpr.reaction_gibbs_energy.sta.second);
-- 
2.43.0


From d902389ec35d91ff737d06afe7e32b3c0258d3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:42 +0000
Subject: [PATCH 05/69] fix: changes of data, solvent, preferences and
 conventions of an engine take effect on the next calculation

---
 ThermoFun/ThermoEngine.cpp | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index b22c966..13c16c3 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -69,6 +69,10 @@ struct ThermoEngine::Impl
 
     mutable EngineConventions conventions;
 
+    /// The preferences and conventions the cached results were calculated with
+    EnginePreferences cached_preferences;
+    EngineConventions cached_conventions;
+
     ThermoPropertiesSubstanceFunction thermo_properties_substance_fn;
 
     ElectroPropertiesSolventFunction electro_properties_solvent_fn;
@@ -95,8 +99,25 @@ struct ThermoEngine::Impl
         set_fn();
     }
 
+    /// Drop the cached results if the preferences or conventions changed since they were calculated
+    void refresh_fn()
+    {
+        const auto &p = preferences, &c = cached_preferences;
+        if (p.enable_memoize != c.enable_memoize || p.max_cache_size != c.max_cache_size ||
+            p.solvent_state != c.solvent_state || p.solvent_symbol != c.solvent_symbol ||
+            p.fallback_to_reference_properties != c.fallback_to_reference_properties ||
+            p.apply_pressure_correction_to_gas_props != c.apply_pressure_correction_to_gas_props ||
+            conventions.apparent_properties != cached_conventions.apparent_properties ||
+            conventions.water_properties != cached_conventions.water_properties)
+            set_fn();
+    }
+
+    /// Set the functions used for the calculations, with empty caches
     void set_fn()
     {
+        cached_preferences = preferences;
+        cached_conventions = conventions;
+
         thermo_properties_substance_fn = [=, this](double T, double P_, double &P, std::string symbol) {
             auto x = P_;
             return thermoPropertiesSubstance(T, P, symbol);
@@ -869,52 +890,62 @@ auto ThermoEngine::operator=(const ThermoEngine &other) -> ThermoEngine&
 
 auto ThermoEngine::thermoPropertiesSubstance(double T, double &P, std::string substance) const -> ThermoPropertiesSubstance
 {
+    pimpl->refresh_fn();
     return pimpl->thermo_properties_substance_fn(T, P, P, substance);
 }
 
 auto ThermoEngine::electroPropertiesSolvent(double T, double &P, std::string solvent, int state) const -> ElectroPropertiesSolvent
 {
+    pimpl->refresh_fn();
     return pimpl->electro_properties_solvent_fn(T, P, P, solvent, state);
 }
 
 auto ThermoEngine::propertiesSolvent(double T, double &P, std::string solvent, int state) const -> PropertiesSolvent
 {
+    pimpl->refresh_fn();
     return pimpl->properties_solvent_fn(T, P, P, solvent, state);
 }
 
 auto ThermoEngine::thermoPropertiesSubstance(double T, double &P, const Substance& substance) const -> ThermoPropertiesSubstance
 {
+    pimpl->refresh_fn();
     return pimpl->thermoPropertiesSubstance(T, P, substance);
 }
 
 auto ThermoEngine::electroPropertiesSolvent(double T, double &P, const Substance&  solvent, int state) const -> ElectroPropertiesSolvent
 {
+    pimpl->refresh_fn();
     return pimpl->electroPropertiesSolvent(T, P, solvent, state);
 }
 
 auto ThermoEngine::propertiesSolvent(double T, double &P, const Substance&  solvent, int state) const -> PropertiesSolvent
 {
+    pimpl->refresh_fn();
     return pimpl->propertiesSolvent(T, P, solvent, state);
 }
 
 // Reaction
 auto ThermoEngine::thermoPropertiesReaction(double T, double &P, std::string reaction) const -> ThermoPropertiesReaction
 {
+    pimpl->refresh_fn();
     return pimpl->thermo_properties_reaction_fn(T, P, P, reaction);
 }
 
 auto ThermoEngine::thermoPropertiesReactionFromReactants(double T, double &P, std::string symbol) const -> ThermoPropertiesReaction
 {
+    pimpl->refresh_fn();
     return pimpl->thermoPropertiesReactionFromReactants(T, P, symbol);
 }
 
 auto ThermoEngine::thermoPropertiesReaction(double T, double &P, const Reaction& reaction) const -> ThermoPropertiesReaction
 {
+    pimpl->refresh_fn();
     return pimpl->thermoPropertiesReaction(T, P, reaction);
 }
 
 auto ThermoEngine::thermoPropertiesReactionFromReactants(double T, double &P, const Reaction& reaction) const -> ThermoPropertiesReaction
 {
+    pimpl->refresh_fn();
     return pimpl->thermoPropertiesReactionFromReactants(T, P, reaction);
 }
 
@@ -948,11 +979,13 @@ auto ThermoEngine::database() const -> const Database &
 
 auto ThermoEngine::appendData(std::string filename) -> void
 {
+    pimpl->set_fn(); // nothing is cached of what changes, also when appending fails midway
     pimpl->database.appendData(filename);
 }
 
 auto ThermoEngine::appendData(std::vector<std::string> jsonRecords, std::string _label = "unknown label") -> void
 {
+    pimpl->set_fn(); // nothing is cached of what changes, also when appending fails midway
     pimpl->database.appendData(jsonRecords, _label);
 }
 
-- 
2.43.0


From cd79dd1424088f3b187e893a994d3c766ef972c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:28 +0000
Subject: [PATCH 06/69] fix: queries do not change the solvent preferences of
 the engine

---
 ThermoFun/ThermoEngine.cpp | 102 +++++++++++++++++++------------------
 1 file changed, 52 insertions(+), 50 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 13c16c3..1968e7a 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -44,6 +44,7 @@ struct WorkPreferences
     bool isH2OSolvent = false;
     bool isReacDC = false;
     bool isReacFromReactants = false;
+    int solvent_state = 0; // 0: liquid; 1: vapor
 };
 
 using ThermoPropertiesSubstanceFunction =
@@ -154,6 +155,21 @@ struct ThermoEngine::Impl
         }
     }
 
+    /// Symbol of the solvent: the preferred one or, if it is not in the database, the (last) solvent which is there
+    auto solventSymbol() const -> std::string
+    {
+        std::string symbol = preferences.solvent_symbol;
+        if (!database.containsSubstance(symbol))
+        {
+            for (const auto& pair : database.mapSubstances()) {
+                if (pair.second.substanceClass() == SubstanceClass::type::AQSOLVENT) {
+                    symbol = pair.first;
+                }
+            }
+        }
+        return symbol;
+    }
+
     auto toSteamTables(ThermoPropertiesSubstance &tps, WaterTripleProperties wat) const -> void
     {
         tps.gibbs_energy -= wat.Gtr;
@@ -214,9 +230,9 @@ struct ThermoEngine::Impl
 
         // set solvent state
         if (workPreferences.workSubstance.aggregateState() == AggregateState::type::GAS)
-            preferences.solvent_state = 1; // vapor
+            workPreferences.solvent_state = 1; // vapor
         else
-            preferences.solvent_state = 0; // liquid
+            workPreferences.solvent_state = 0; // liquid
 
         bool noMethods =
             !workPreferences.method_genEOS &&
@@ -237,20 +253,6 @@ struct ThermoEngine::Impl
         else
             workPreferences.isReacDC = false;
 
-        // check if substance is aq solute and needs a solvent
-        if (workPreferences.workSubstance.substanceClass() == SubstanceClass::type::AQSOLUTE)
-        {
-            // see if default solvent is in the database if not search for solvent
-            if (!database.containsSubstance(preferences.solvent_symbol))
-            {
-                for (const auto& pair : database.mapSubstances()) {
-                    if (pair.second.substanceClass() == SubstanceClass::type::AQSOLVENT) {
-                        preferences.solvent_symbol = pair.first;
-                    }
-                }
-            }
-        }
-
         return workPreferences;
     }
 
@@ -296,26 +298,26 @@ struct ThermoEngine::Impl
                 }
                 case MethodGenEoS_Thrift::type::CTPM_HKF:
                 {
-                    tps = SoluteHKFgems(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1), electro_properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1));
+                    tps = SoluteHKFgems(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(T, P, P, solventSymbol(), -1), electro_properties_solvent_fn(T, P, P, solventSymbol(), -1));
                     break;
                 }
                 case MethodGenEoS_Thrift::type::CTPM_HKFR:
                 {
-                    tps = SoluteHKFreaktoro(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1), electro_properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1));
+                    tps = SoluteHKFreaktoro(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(T, P, P, solventSymbol(), -1), electro_properties_solvent_fn(T, P, P, solventSymbol(), -1));
                     break;
                 }
                 case MethodGenEoS_Thrift::type::CTPM_HP98:
                 {
-                    double Pr = database.getSubstance(preferences.solvent_symbol).referenceP();
-                    double Tr = database.getSubstance(preferences.solvent_symbol).referenceT();
-                    tps = SoluteHollandPowell98(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(Tr, Pr, Pr, preferences.solvent_symbol, -1), properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1));
+                    double Pr = database.getSubstance(solventSymbol()).referenceP();
+                    double Tr = database.getSubstance(solventSymbol()).referenceT();
+                    tps = SoluteHollandPowell98(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(Tr, Pr, Pr, solventSymbol(), -1), properties_solvent_fn(T, P, P, solventSymbol(), -1));
                     break;
                 }
                 case MethodGenEoS_Thrift::type::CTPM_AN91:
                 {
-                    double Pr = database.getSubstance(preferences.solvent_symbol).referenceP();
-                    double Tr = database.getSubstance(preferences.solvent_symbol).referenceT();
-                    tps = SoluteAnderson91(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(Tr, Pr, Pr, preferences.solvent_symbol, -1), properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1));
+                    double Pr = database.getSubstance(solventSymbol()).referenceP();
+                    double Tr = database.getSubstance(solventSymbol()).referenceT();
+                    tps = SoluteAnderson91(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(Tr, Pr, Pr, solventSymbol(), -1), properties_solvent_fn(T, P, P, solventSymbol(), -1));
                     break;
                 }
                     //                default:
@@ -349,14 +351,14 @@ struct ThermoEngine::Impl
                 {
                 case MethodCorrP_Thrift::type::CPM_AKI:
                 {
-                    double Pr = database.getSubstance(preferences.solvent_symbol).referenceP();
-                    double Tr = database.getSubstance(preferences.solvent_symbol).referenceT();
-                    tps = SoluteAkinfievDiamondEOS(pref.workSubstance).thermoProperties(T, P, tps, thermo_properties_substance_fn(T, P, P, preferences.solvent_symbol),
-                                                                                        WaterIdealGasWoolley(database.getSubstance(preferences.solvent_symbol)).thermoProperties(T, P),
-                                                                                        properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1),
-                                                                                        thermo_properties_substance_fn(Tr, Pr, Pr, preferences.solvent_symbol),
-                                                                                        WaterIdealGasWoolley(database.getSubstance(preferences.solvent_symbol)).thermoProperties(Tr, Pr),
-                                                                                        properties_solvent_fn(Tr, Pr, Pr, preferences.solvent_symbol, -1));
+                    double Pr = database.getSubstance(solventSymbol()).referenceP();
+                    double Tr = database.getSubstance(solventSymbol()).referenceT();
+                    tps = SoluteAkinfievDiamondEOS(pref.workSubstance).thermoProperties(T, P, tps, thermo_properties_substance_fn(T, P, P, solventSymbol()),
+                                                                                        WaterIdealGasWoolley(database.getSubstance(solventSymbol())).thermoProperties(T, P),
+                                                                                        properties_solvent_fn(T, P, P, solventSymbol(), -1),
+                                                                                        thermo_properties_substance_fn(Tr, Pr, Pr, solventSymbol()),
+                                                                                        WaterIdealGasWoolley(database.getSubstance(solventSymbol())).thermoProperties(Tr, Pr),
+                                                                                        properties_solvent_fn(Tr, Pr, Pr, solventSymbol(), -1));
                     break;
                 }
                 case MethodCorrP_Thrift::type::CPM_CEH:
@@ -432,22 +434,22 @@ struct ThermoEngine::Impl
                 {
                 case MethodCorrT_Thrift::type::CTM_WAT:
                 {
-                    tps = WaterHGK(pref.workSubstance).thermoPropertiesSubstance(T, P, preferences.solvent_state, water_triple_reference);
+                    tps = WaterHGK(pref.workSubstance).thermoPropertiesSubstance(T, P, pref.solvent_state, water_triple_reference);
                     break;
                 }
                 case MethodCorrT_Thrift::type::CTM_WAR:
                 {
-                    tps = WaterHGKreaktoro(pref.workSubstance).thermoPropertiesSubstance(T, P, preferences.solvent_state, water_triple_reference);
+                    tps = WaterHGKreaktoro(pref.workSubstance).thermoPropertiesSubstance(T, P, pref.solvent_state, water_triple_reference);
                     break;
                 }
                 case MethodCorrT_Thrift::type::CTM_WWP:
                 {
-                    tps = WaterWP95reaktoro(pref.workSubstance).thermoPropertiesSubstance(T, P, preferences.solvent_state, water_triple_reference);
+                    tps = WaterWP95reaktoro(pref.workSubstance).thermoPropertiesSubstance(T, P, pref.solvent_state, water_triple_reference);
                     break;
                 }
                 case MethodCorrT_Thrift::type::CTM_WZD:
                 {
-                    tps = WaterZhangDuan2005(pref.workSubstance).thermoPropertiesSubstance(T, P, preferences.solvent_state);
+                    tps = WaterZhangDuan2005(pref.workSubstance).thermoPropertiesSubstance(T, P, pref.solvent_state);
                     break;
                 }
                 default:
@@ -528,8 +530,8 @@ struct ThermoEngine::Impl
     {
         WorkPreferences pref = getThermoPreferencesSubstance(solvent);
         if (state>-1 && state<2)
-            preferences.solvent_state = state;
-        PropertiesSolvent ps = propertiesSolvent(T, P, solvent, preferences.solvent_state);
+            pref.solvent_state = state;
+        PropertiesSolvent ps = propertiesSolvent(T, P, solvent, pref.solvent_state);
         ElectroPropertiesSolvent eps;
 
         if (pref.isH2OSolvent)
@@ -538,22 +540,22 @@ struct ThermoEngine::Impl
             {
             case MethodGenEoS_Thrift::type::CTPM_WJNR:
             {
-                eps = WaterJNreaktoro(pref.workSubstance).electroPropertiesSolvent(T, P, ps, preferences.solvent_state);
+                eps = WaterJNreaktoro(pref.workSubstance).electroPropertiesSolvent(T, P, ps, pref.solvent_state);
                 break;
             }
             case MethodGenEoS_Thrift::type::CTPM_WJNG:
             {
-                eps = WaterJNgems(pref.workSubstance).electroPropertiesSolvent(T, P /*, ps*/, preferences.solvent_state);
+                eps = WaterJNgems(pref.workSubstance).electroPropertiesSolvent(T, P /*, ps*/, pref.solvent_state);
                 break;
             }
             case MethodGenEoS_Thrift::type::CTPM_WSV14:
             {
-                eps = WaterElectroSverjensky2014(pref.workSubstance).electroPropertiesSolvent(T, P /*, ps*/, preferences.solvent_state);
+                eps = WaterElectroSverjensky2014(pref.workSubstance).electroPropertiesSolvent(T, P /*, ps*/, pref.solvent_state);
                 break;
             }
             case MethodGenEoS_Thrift::type::CTPM_WF97:
             {
-                eps = WaterElectroFernandez1997(pref.workSubstance).electroPropertiesSolvent(T, P /*, ps*/, preferences.solvent_state);
+                eps = WaterElectroFernandez1997(pref.workSubstance).electroPropertiesSolvent(T, P /*, ps*/, pref.solvent_state);
                 break;
             }
                 //            default:
@@ -573,7 +575,7 @@ struct ThermoEngine::Impl
     {
         WorkPreferences pref = getThermoPreferencesSubstance(solvent);
         if (state > -1 && state <2)
-            preferences.solvent_state = state;
+            pref.solvent_state = state;
         PropertiesSolvent ps;
 
         if (pref.isH2OSolvent)
@@ -582,22 +584,22 @@ struct ThermoEngine::Impl
             {
             case MethodCorrT_Thrift::type::CTM_WAT:
             {
-                ps = WaterHGK(pref.workSubstance).propertiesSolvent(T, P, preferences.solvent_state);
+                ps = WaterHGK(pref.workSubstance).propertiesSolvent(T, P, pref.solvent_state);
                 break;
             }
             case MethodCorrT_Thrift::type::CTM_WAR:
             {
-                ps = WaterHGKreaktoro(pref.workSubstance).propertiesSolvent(T, P, preferences.solvent_state);
+                ps = WaterHGKreaktoro(pref.workSubstance).propertiesSolvent(T, P, pref.solvent_state);
                 break;
             }
             case MethodCorrT_Thrift::type::CTM_WWP:
             {
-                ps = WaterWP95reaktoro(pref.workSubstance).propertiesSolvent(T, P, preferences.solvent_state);
+                ps = WaterWP95reaktoro(pref.workSubstance).propertiesSolvent(T, P, pref.solvent_state);
                 break;
             }
             case MethodCorrT_Thrift::type::CTM_WZD:
             {
-                ps = WaterZhangDuan2005(pref.workSubstance).propertiesSolvent(T, P, preferences.solvent_state);
+                ps = WaterZhangDuan2005(pref.workSubstance).propertiesSolvent(T, P, pref.solvent_state);
                 break;
             }
                 //            default:
@@ -731,17 +733,17 @@ struct ThermoEngine::Impl
             }
             case MethodCorrT_Thrift::type::CTM_DMD: // Dolejs-Maning 2010 density model
             {
-                tpr = ReactionDolejsManning10(pref.workReaction).thermoProperties(T, P, properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1));
+                tpr = ReactionDolejsManning10(pref.workReaction).thermoProperties(T, P, properties_solvent_fn(T, P, P, solventSymbol(), -1));
                 break;
             }
             case MethodCorrT_Thrift::type::CTM_DKR: // Marshall-Franck density model
             {
-                tpr = ReactionFrantzMarshall(pref.workReaction).thermoProperties(T, P, properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1));
+                tpr = ReactionFrantzMarshall(pref.workReaction).thermoProperties(T, P, properties_solvent_fn(T, P, P, solventSymbol(), -1));
                 break;
             }
             case MethodCorrT_Thrift::type::CTM_MRB: // Calling modified Ryzhenko-Bryzgalin model TW KD 08.2007
             {
-                return ReactionRyzhenkoBryzgalin(pref.workReaction).thermoProperties(T, P, properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1)); // NOT TESTED!!!
+                return ReactionRyzhenkoBryzgalin(pref.workReaction).thermoProperties(T, P, properties_solvent_fn(T, P, P, solventSymbol(), -1)); // NOT TESTED!!!
             }
             case MethodCorrT_Thrift::type::CTM_IKZ:
             {
-- 
2.43.0


From 9c3893313fdc03925a064e9b97c10b2c8b6cfa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:31 +0000
Subject: [PATCH 07/69] fix: the gas pressure correction used inside reactions
 does not change the engine preference nor the cached properties of gases

---
 ThermoFun/ThermoEngine.cpp | 49 +++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 1968e7a..cbf3211 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -48,7 +48,7 @@ struct WorkPreferences
 };
 
 using ThermoPropertiesSubstanceFunction =
-    std::function<ThermoPropertiesSubstance(double, double, double &, std::string)>;
+    std::function<ThermoPropertiesSubstance(double, double, double &, std::string, bool)>;
 
 using ElectroPropertiesSolventFunction =
     std::function<ElectroPropertiesSolvent(double, double, double &, std::string, int)>;
@@ -119,9 +119,9 @@ struct ThermoEngine::Impl
         cached_preferences = preferences;
         cached_conventions = conventions;
 
-        thermo_properties_substance_fn = [=, this](double T, double P_, double &P, std::string symbol) {
+        thermo_properties_substance_fn = [=, this](double T, double P_, double &P, std::string symbol, bool gasCorrection) {
             auto x = P_;
-            return thermoPropertiesSubstance(T, P, symbol);
+            return thermoPropertiesSubstance(T, P, symbol, gasCorrection);
         };
 
         electro_properties_solvent_fn = [=, this](double T, double P_, double &P, std::string symbol, int state) {
@@ -256,12 +256,13 @@ struct ThermoEngine::Impl
         return workPreferences;
     }
 
-    auto thermoPropertiesSubstance(double T, double &P, std::string substance) const -> ThermoPropertiesSubstance
+    auto thermoPropertiesSubstance(double T, double &P, std::string substance, bool gasCorrection) const -> ThermoPropertiesSubstance
     {
-        return thermoPropertiesSubstance(T, P, database.getSubstance(substance));
+        return thermoPropertiesSubstance(T, P, database.getSubstance(substance), gasCorrection);
     }
 
-    auto thermoPropertiesSubstance(double T, double &P, const Substance &substance) const -> ThermoPropertiesSubstance
+    /// \param gasCorrection make the pressure correction in the properties of gases
+    auto thermoPropertiesSubstance(double T, double &P, const Substance &substance, bool gasCorrection) const -> ThermoPropertiesSubstance
     {
         WorkPreferences pref = getThermoPreferencesSubstance(substance);
         ThermoPropertiesSubstance tps;
@@ -353,10 +354,10 @@ struct ThermoEngine::Impl
                 {
                     double Pr = database.getSubstance(solventSymbol()).referenceP();
                     double Tr = database.getSubstance(solventSymbol()).referenceT();
-                    tps = SoluteAkinfievDiamondEOS(pref.workSubstance).thermoProperties(T, P, tps, thermo_properties_substance_fn(T, P, P, solventSymbol()),
+                    tps = SoluteAkinfievDiamondEOS(pref.workSubstance).thermoProperties(T, P, tps, thermo_properties_substance_fn(T, P, P, solventSymbol(), gasCorrection),
                                                                                         WaterIdealGasWoolley(database.getSubstance(solventSymbol())).thermoProperties(T, P),
                                                                                         properties_solvent_fn(T, P, P, solventSymbol(), -1),
-                                                                                        thermo_properties_substance_fn(Tr, Pr, Pr, solventSymbol()),
+                                                                                        thermo_properties_substance_fn(Tr, Pr, Pr, solventSymbol(), gasCorrection),
                                                                                         WaterIdealGasWoolley(database.getSubstance(solventSymbol())).thermoProperties(Tr, Pr),
                                                                                         properties_solvent_fn(Tr, Pr, Pr, solventSymbol(), -1));
                     break;
@@ -378,37 +379,37 @@ struct ThermoEngine::Impl
                 }
                 case MethodCorrP_Thrift::type::CPM_CORK:
                 {
-                    tps = GasCORK(pref.workSubstance).thermoProperties(T, P, tps, preferences.apply_pressure_correction_to_gas_props);
+                    tps = GasCORK(pref.workSubstance).thermoProperties(T, P, tps, gasCorrection);
                     break;
                 }
                 case MethodCorrP_Thrift::type::CPM_PRSV:
                 {
-                    tps = GasPRSV(pref.workSubstance).thermoProperties(T, P, tps, preferences.apply_pressure_correction_to_gas_props);
+                    tps = GasPRSV(pref.workSubstance).thermoProperties(T, P, tps, gasCorrection);
                     break;
                 }
                 case MethodCorrP_Thrift::type::CPM_EMP:
                 {
-                    tps = GasCGF(pref.workSubstance).thermoProperties(T, P, tps, preferences.apply_pressure_correction_to_gas_props);
+                    tps = GasCGF(pref.workSubstance).thermoProperties(T, P, tps, gasCorrection);
                     break;
                 }
                 case MethodCorrP_Thrift::type::CPM_SRK:
                 {
-                    tps = GasSRK(pref.workSubstance).thermoProperties(T, P, tps, preferences.apply_pressure_correction_to_gas_props);
+                    tps = GasSRK(pref.workSubstance).thermoProperties(T, P, tps, gasCorrection);
                     break;
                 }
                 case MethodCorrP_Thrift::type::CPM_PR78:
                 {
-                    tps = GasPR78(pref.workSubstance).thermoProperties(T, P, tps, preferences.apply_pressure_correction_to_gas_props);
+                    tps = GasPR78(pref.workSubstance).thermoProperties(T, P, tps, gasCorrection);
                     break;
                 }
                 case MethodCorrP_Thrift::type::CPM_STP:
                 {
-                    tps = GasSTP(pref.workSubstance).thermoProperties(T, P, tps, preferences.apply_pressure_correction_to_gas_props);
+                    tps = GasSTP(pref.workSubstance).thermoProperties(T, P, tps, gasCorrection);
                     break;
                 }
                 case MethodCorrP_Thrift::type::CPM_OFF:
                 {
-                    tps = IdealGasLawVol(pref.workSubstance).thermoProperties(T, P, tps, preferences.apply_pressure_correction_to_gas_props);
+                    tps = IdealGasLawVol(pref.workSubstance).thermoProperties(T, P, tps, gasCorrection);
                     break;
                 }
                 case MethodCorrP_Thrift::type::CPM_CON: // Molar volume assumed independent of T and P
@@ -619,7 +620,7 @@ struct ThermoEngine::Impl
         std::map<std::string, double> reactants;
 
         // if reaction involves gases we switch on the P correction to the thermo props
-        preferences.apply_pressure_correction_to_gas_props = true;
+        const bool gasCorrection = true;
 
         if (!reactionSymbol.empty())
         {
@@ -642,7 +643,7 @@ struct ThermoEngine::Impl
             {
                 if (reactant.first != subst.symbol())
                 {
-                    reacTps = thermo_properties_substance_fn(T, P, P, reactant.first); /* thermoPropertiesSubstance(T, P, reactant.first);*/
+                    reacTps = thermo_properties_substance_fn(T, P, P, reactant.first, gasCorrection); /* thermoPropertiesSubstance(T, P, reactant.first);*/
                     tps.enthalpy -= reacTps.enthalpy * reactant.second;
                     tps.entropy -= reacTps.entropy * reactant.second;
                     tps.gibbs_energy -= reacTps.gibbs_energy * reactant.second;
@@ -666,12 +667,10 @@ struct ThermoEngine::Impl
         else
         {
             subst.setMethodGenEoS(MethodGenEoS_Thrift::type::CTPM_CON);
-            return thermoPropertiesSubstance(T, P, subst);//thermo_properties_substance_fn(T, P, P, subst.symbol()); //
+            return thermoPropertiesSubstance(T, P, subst, gasCorrection);//thermo_properties_substance_fn(T, P, P, subst.symbol()); //
             errorReactionNotDefined(subst.symbol(), __LINE__, __FILE__);
         }
 
-        preferences.apply_pressure_correction_to_gas_props = false;
-
         // pressure correction on rdc assuming constant molar volume
         if ((subst.method_P() == MethodCorrP_Thrift::type::CPM_CON) &&
             (reaction.method_P()== MethodCorrP_Thrift::CPM_OFF || !reaction.method_P()))
@@ -823,7 +822,8 @@ struct ThermoEngine::Impl
         tpr.reaction_internal_energy = 0.0;
         tpr.reaction_helmholtz_energy = 0.0;
 
-        preferences.apply_pressure_correction_to_gas_props = true;
+        // if reaction involves gases we switch on the P correction to the thermo props
+        const bool gasCorrection = true;
 
         std::string message = "Calculated from the reaction components: " + reaction.symbol() + "; ";
 
@@ -839,7 +839,7 @@ struct ThermoEngine::Impl
                 errorMethodNotFound("reaction", reaction.symbol(), __LINE__, __FILE__);
             }
 
-            auto tps        = thermo_properties_substance_fn(T, P,P, substance); /*thermoPropertiesSubstance(T, P, substance);*/
+            auto tps        = thermo_properties_substance_fn(T, P,P, substance, gasCorrection); /*thermoPropertiesSubstance(T, P, substance);*/
 
             tpr.reaction_heat_capacity_cp   += tps.heat_capacity_cp*coeff;
             tpr.reaction_gibbs_energy       += tps.gibbs_energy*coeff;
@@ -861,7 +861,6 @@ struct ThermoEngine::Impl
             setMessage(tps.gibbs_energy.sta.first,     "G0 of component " + substance, message+tps.gibbs_energy.sta.second,     tpr.ln_equilibrium_constant.sta.second);
         }
 
-        preferences.apply_pressure_correction_to_gas_props = false;
         return tpr;
     }
 };
@@ -893,7 +892,7 @@ auto ThermoEngine::operator=(const ThermoEngine &other) -> ThermoEngine&
 auto ThermoEngine::thermoPropertiesSubstance(double T, double &P, std::string substance) const -> ThermoPropertiesSubstance
 {
     pimpl->refresh_fn();
-    return pimpl->thermo_properties_substance_fn(T, P, P, substance);
+    return pimpl->thermo_properties_substance_fn(T, P, P, substance, pimpl->preferences.apply_pressure_correction_to_gas_props);
 }
 
 auto ThermoEngine::electroPropertiesSolvent(double T, double &P, std::string solvent, int state) const -> ElectroPropertiesSolvent
@@ -911,7 +910,7 @@ auto ThermoEngine::propertiesSolvent(double T, double &P, std::string solvent, i
 auto ThermoEngine::thermoPropertiesSubstance(double T, double &P, const Substance& substance) const -> ThermoPropertiesSubstance
 {
     pimpl->refresh_fn();
-    return pimpl->thermoPropertiesSubstance(T, P, substance);
+    return pimpl->thermoPropertiesSubstance(T, P, substance, pimpl->preferences.apply_pressure_correction_to_gas_props);
 }
 
 auto ThermoEngine::electroPropertiesSolvent(double T, double &P, const Substance&  solvent, int state) const -> ElectroPropertiesSolvent
-- 
2.43.0


From a851b471f0f5fa3e17e80ba7c577256a0429f462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:41 +0000
Subject: [PATCH 08/69] fix: a substance defined by a reaction but without
 reaction symbol takes the reference properties instead of recursing without
 end

---
 ThermoFun/ThermoEngine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index cbf3211..d1e8dfc 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -667,6 +667,7 @@ struct ThermoEngine::Impl
         else
         {
             subst.setMethodGenEoS(MethodGenEoS_Thrift::type::CTPM_CON);
+            subst.setThermoCalculationType(SubstanceThermoCalculationType::type::DCOMP); // not from the (missing) reaction again
             return thermoPropertiesSubstance(T, P, subst, gasCorrection);//thermo_properties_substance_fn(T, P, P, subst.symbol()); //
             errorReactionNotDefined(subst.symbol(), __LINE__, __FILE__);
         }
-- 
2.43.0


From fddf650f1b77fd87e550a88dd62646fa548e98f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:03 +0000
Subject: [PATCH 09/69] fix: all the reactants of a reaction are calculated at
 the same (saturated vapour) pressure

---
 ThermoFun/ThermoEngine.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index d1e8dfc..422ae72 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -619,6 +619,8 @@ struct ThermoEngine::Impl
         Reaction reaction;
         std::map<std::string, double> reactants;
 
+        const double P_ = P;
+
         // if reaction involves gases we switch on the P correction to the thermo props
         const bool gasCorrection = true;
 
@@ -672,6 +674,10 @@ struct ThermoEngine::Impl
             errorReactionNotDefined(subst.symbol(), __LINE__, __FILE__);
         }
 
+        // the saturated vapour pressure (P=0) was resolved on the way: use it for the reaction and all of the reactants
+        if (P_ == 0 && P != 0)
+            return reacDCthermoProperties(T, P, subst);
+
         // pressure correction on rdc assuming constant molar volume
         if ((subst.method_P() == MethodCorrP_Thrift::type::CPM_CON) &&
             (reaction.method_P()== MethodCorrP_Thrift::CPM_OFF || !reaction.method_P()))
@@ -826,6 +832,8 @@ struct ThermoEngine::Impl
         // if reaction involves gases we switch on the P correction to the thermo props
         const bool gasCorrection = true;
 
+        const double P_ = P;
+
         std::string message = "Calculated from the reaction components: " + reaction.symbol() + "; ";
 
         for (auto &reactant : reaction.reactants())
@@ -862,6 +870,10 @@ struct ThermoEngine::Impl
             setMessage(tps.gibbs_energy.sta.first,     "G0 of component " + substance, message+tps.gibbs_energy.sta.second,     tpr.ln_equilibrium_constant.sta.second);
         }
 
+        // the saturated vapour pressure (P=0) was resolved on the way: use it for all of the reactants
+        if (P_ == 0 && P != 0)
+            return thermoPropertiesReactionFromReactants(T, P, reaction);
+
         return tpr;
     }
 };
-- 
2.43.0


From dacecd1bcfc3f866909f7bace6272dac766a7d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:26 +0000
Subject: [PATCH 10/69] fix: substances defined by each other's reactions are
 reported as an error instead of recursing without end

---
 ThermoFun/ThermoEngine.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 422ae72..89cbcee 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -13,6 +13,7 @@
 
 #include "OptimizationUtils.h"
 #include <functional>
+#include <set>
 
 namespace ThermoFun
 {
@@ -70,6 +71,9 @@ struct ThermoEngine::Impl
 
     mutable EngineConventions conventions;
 
+    /// The substances whose properties are being calculated from those of a reaction
+    mutable std::set<std::string> reacdc_active;
+
     /// The preferences and conventions the cached results were calculated with
     EnginePreferences cached_preferences;
     EngineConventions cached_conventions;
@@ -487,6 +491,17 @@ struct ThermoEngine::Impl
         }
         else // substance properties calculated using the properties of a reaction
         {
+            // a substance must not be needed to calculate its own properties
+            const auto symbol = pref.workSubstance.symbol();
+            if (!reacdc_active.insert(symbol).second)
+                errorMethodNotFound("substance", symbol, __LINE__, __FILE__);
+            struct Guard
+            {
+                std::set<std::string>& active;
+                const std::string& symbol;
+                ~Guard() { active.erase(symbol); }
+            } guard{reacdc_active, symbol};
+
             tps = reacDCthermoProperties(T, P, pref.workSubstance);
         }
 
-- 
2.43.0


From ab11e45bac78238ebf9bdf290f082aa80c17d29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:33 +0000
Subject: [PATCH 11/69] fix: reaction enthalpy or entropy missing in a record
 is completed at the reference temperature

---
 ThermoFun/Reactions/LogK_function_of_T.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Reactions/LogK_function_of_T.cpp b/ThermoFun/Reactions/LogK_function_of_T.cpp
index e99d572..136c682 100644
--- a/ThermoFun/Reactions/LogK_function_of_T.cpp
+++ b/ThermoFun/Reactions/LogK_function_of_T.cpp
@@ -74,9 +74,9 @@ auto thermoPropertiesReaction_LogK_fT(Reaktoro_::Temperature TK, Reaktoro_::Pres
     const bool has_dGr = dGr.sta.first != Status::notdefined;
 
     if(has_dSr && has_dGr && !has_dHr)
-        dHr = dGr + dSr * TK;
+        dHr = dGr + dSr * Tr;
     if(has_dHr && has_dGr && !has_dSr)
-        dSr = (dHr-dGr)/TK;
+        dSr = (dHr-dGr)/Tr;
 
     if (CE == MethodCorrT_Thrift::type::CTM_EK3)
         CE = determineMethod(dGr,dHr,dSr,dCpr);
-- 
2.43.0


From 852d532c9fbfc66133f04e6a132c313bc95bc10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:34 +0000
Subject: [PATCH 12/69] fix: logK(T) coefficients are calculated from Cp(T)
 coefficients at the reference temperature

---
 ThermoFun/Reactions/LogK_function_of_T.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/Reactions/LogK_function_of_T.cpp b/ThermoFun/Reactions/LogK_function_of_T.cpp
index 136c682..4fdf2ca 100644
--- a/ThermoFun/Reactions/LogK_function_of_T.cpp
+++ b/ThermoFun/Reactions/LogK_function_of_T.cpp
@@ -119,11 +119,12 @@ auto thermoPropertiesReaction_LogK_fT(Reaktoro_::Temperature TK, Reaktoro_::Pres
                 CpCoeff.resize(5, 0.0);
 
                 // calculation of logK=f(T) coeffs (only first 5 Cp coefficients, conforming to Haas-Fisher function)
-                A[0] = (( dSr - CpCoeff[0] - CpCoeff[0]*log(TK) - CpCoeff[1]*TK + CpCoeff[2]/(2.0*TK*TK)
-                              + 2.0*CpCoeff[3]/pow(TK,0.5) - CpCoeff[4]*TK*TK/2.0 ) / Rln10).val;
+                // dSr and dHr are given at the reference temperature
+                A[0] = (( dSr - CpCoeff[0] - CpCoeff[0]*std::log(Tr) - CpCoeff[1]*Tr + CpCoeff[2]/(2.0*Tr*Tr)
+                              + 2.0*CpCoeff[3]/std::pow(Tr,0.5) - CpCoeff[4]*Tr*Tr/2.0 ) / Rln10).val;
                 A[1] = CpCoeff[1]/(2.0*Rln10);
-                A[2] = (-( dHr - CpCoeff[0]*TK - CpCoeff[1]*TK*TK/2.0 + CpCoeff[2]/TK
-                           - 2.0*CpCoeff[3]*pow(TK,0.5) - CpCoeff[4]*TK*TK*TK/3.0 ) / Rln10).val;
+                A[2] = (-( dHr - CpCoeff[0]*Tr - CpCoeff[1]*Tr*Tr/2.0 + CpCoeff[2]/Tr
+                           - 2.0*CpCoeff[3]*std::pow(Tr,0.5) - CpCoeff[4]*Tr*Tr*Tr/3.0 ) / Rln10).val;
                 A[3] = CpCoeff[0]/Rln10;
                 A[4] = CpCoeff[2]/(2.0*Rln10);
                 A[5] = CpCoeff[4]/(6.0*Rln10);
-- 
2.43.0


From c5d85fb4780f8b236e5507dc4d6bafa96bbf1c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:42 +0000
Subject: [PATCH 13/69] fix: missing coefficients of a reaction model are
 reported instead of reading past the end of their list

---
 ThermoFun/Reactions/DolejsManning2010.cpp  | 4 ++++
 ThermoFun/Reactions/FrantzMarshall.cpp     | 4 ++++
 ThermoFun/Reactions/LogK_function_of_T.cpp | 7 +++++++
 ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp  | 4 ++++
 4 files changed, 19 insertions(+)

diff --git a/ThermoFun/Reactions/DolejsManning2010.cpp b/ThermoFun/Reactions/DolejsManning2010.cpp
index aa20847..e56c366 100644
--- a/ThermoFun/Reactions/DolejsManning2010.cpp
+++ b/ThermoFun/Reactions/DolejsManning2010.cpp
@@ -1,5 +1,6 @@
 #include "DolejsManning2010.h"
 #include "ThermoParameters.h"
+#include "Common/Exception.h"
 
 namespace ThermoFun {
 
@@ -14,6 +15,9 @@ auto thermoPropertiesDolejsManning2010(Reaktoro_::Temperature TK, Reaktoro_::Pre
     auto dALPdTw = wp.dAldT;
     auto DMcoef = reaction.thermoParameters().reaction_DM10_coeff;
 
+    if (DMcoef.size() < 5)
+        errorModelParameters("density model", reaction.symbol(), __LINE__, __FILE__);
+
     auto dRHOdT = -ALPw*RHOw;
     auto dRHOdP = BETw*RHOw;
     auto d2RHOdT2 = RHOw*(pow(ALPw,2)-dALPdTw);
diff --git a/ThermoFun/Reactions/FrantzMarshall.cpp b/ThermoFun/Reactions/FrantzMarshall.cpp
index f5bbce7..6608872 100644
--- a/ThermoFun/Reactions/FrantzMarshall.cpp
+++ b/ThermoFun/Reactions/FrantzMarshall.cpp
@@ -1,5 +1,6 @@
 #include "FrantzMarshall.h"
 #include "ThermoParameters.h"
+#include "Common/Exception.h"
 
 namespace ThermoFun {
 
@@ -14,6 +15,9 @@ auto thermoPropertiesFrantzMarshall(Reaktoro_::Temperature TK, Reaktoro_::Pressu
     auto dALPdT = wp.dAldT;
     auto MFcoef = reaction.thermoParameters().reaction_FM_coeff;
 
+    if (MFcoef.size() < 7)
+        errorModelParameters("density model", reaction.symbol(), __LINE__, __FILE__);
+
     auto dRHOdT = -ALP*RHO;
     auto dRHOdP = BET*RHO;
     auto d2RHOdT2 = RHO*(pow(ALP,2)-dALPdT);
diff --git a/ThermoFun/Reactions/LogK_function_of_T.cpp b/ThermoFun/Reactions/LogK_function_of_T.cpp
index 4fdf2ca..9373ab8 100644
--- a/ThermoFun/Reactions/LogK_function_of_T.cpp
+++ b/ThermoFun/Reactions/LogK_function_of_T.cpp
@@ -1,6 +1,7 @@
 #include "LogK_function_of_T.h"
 #include "ThermoParameters.h"
 #include "Reaction.h"
+#include "Common/Exception.h"
 #include <algorithm>
 
 namespace ThermoFun {
@@ -112,6 +113,9 @@ auto thermoPropertiesReaction_LogK_fT(Reaktoro_::Temperature TK, Reaktoro_::Pres
           break;
        case MethodCorrT_Thrift::type::CTM_LGK:  // full 7-term logK approx
        case MethodCorrT_Thrift::type::CTM_LGX:  // (derived from dCp=f(T))
+            if (A.size() == 0 && CpCoeff.size() == 0)
+                errorModelParameters("logK(T) or Cp(T) coefficients", reaction.symbol(), __LINE__, __FILE__);
+
             if (A.size() == 0 && CpCoeff.size() > 0)
             {
                 //from Cp to A
@@ -144,6 +148,9 @@ auto thermoPropertiesReaction_LogK_fT(Reaktoro_::Temperature TK, Reaktoro_::Pres
                 CpCoeff[4] = Rln10 * 6.0 * A[5];
             }
 
+            A.resize(7, 0.0);
+            CpCoeff.resize(5, 0.0);
+
             lgK = A[0] + A[1] * TK + A[2]/TK + A[3] * log(TK) + A[4] / (TK*TK) +
                   A[5] * (TK*TK) + A[6] / pow(TK,0.5);
             dHr = Rln10 *( A[1]*(TK*TK) - A[2] + A[3]*TK - 2.0*A[4]/TK
diff --git a/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp b/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp
index d2e7c9b..f9e24bd 100644
--- a/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp
+++ b/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp
@@ -1,4 +1,5 @@
 #include "RyzhenkoBryzgalyn.h"
+#include "Common/Exception.h"
 
 namespace ThermoFun {
 
@@ -14,6 +15,9 @@ auto thermoPropertiesRyzhenkoBryzgalin(Reaktoro_::Temperature TK, Reaktoro_::Pre
     auto dALPdT = wp.dAldT;
     auto RBcoef = reaction.thermoParameters().reaction_RB_coeff;
 
+    if (RBcoef.size() < 3)
+        errorModelParameters("density model", reaction.symbol(), __LINE__, __FILE__);
+
     auto dRHOdT = -ALP*RHO;
     auto dRHOdP = BET*RHO;
     auto d2RHOdT2 = RHO*(pow(ALP,2)-dALPdT);
-- 
2.43.0


From 9a845f51cfeb1e2fee6fff7a0b6a9b9b0ba655b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:47 +0000
Subject: [PATCH 14/69] fix: the Dolejs-Manning model is calculated by its own
 function, the density models return log10 K

---
 ThermoFun/Reactions/DolejsManning2010.cpp | 1 +
 ThermoFun/Reactions/FrantzMarshall.cpp    | 1 +
 ThermoFun/ThermoModelsReaction.cpp        | 2 +-
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/ThermoFun/Reactions/DolejsManning2010.cpp b/ThermoFun/Reactions/DolejsManning2010.cpp
index e56c366..f88e506 100644
--- a/ThermoFun/Reactions/DolejsManning2010.cpp
+++ b/ThermoFun/Reactions/DolejsManning2010.cpp
@@ -43,6 +43,7 @@ auto thermoPropertiesDolejsManning2010(Reaktoro_::Temperature TK, Reaktoro_::Pre
            // Error( GetName(),"DM denisty model: dGr and lnK not consistent!");
 
     tpr.ln_equilibrium_constant    = logK*lg_to_ln;
+    tpr.log_equilibrium_constant   = logK;
     tpr.reaction_enthalpy          = dHr;
     tpr.reaction_entropy           = dSr;
     tpr.reaction_gibbs_energy      = dGr;
diff --git a/ThermoFun/Reactions/FrantzMarshall.cpp b/ThermoFun/Reactions/FrantzMarshall.cpp
index 6608872..f46a960 100644
--- a/ThermoFun/Reactions/FrantzMarshall.cpp
+++ b/ThermoFun/Reactions/FrantzMarshall.cpp
@@ -51,6 +51,7 @@ auto thermoPropertiesFrantzMarshall(Reaktoro_::Temperature TK, Reaktoro_::Pressu
     auto dAr  = dUr - TK*dSr;
 
     tpr.ln_equilibrium_constant    = logK*lg_to_ln;
+    tpr.log_equilibrium_constant   = logK;
     tpr.reaction_enthalpy          = dHr;
     tpr.reaction_entropy           = dSr;
     tpr.reaction_gibbs_energy      = dGr;
diff --git a/ThermoFun/ThermoModelsReaction.cpp b/ThermoFun/ThermoModelsReaction.cpp
index ad59aa4..a8715b9 100644
--- a/ThermoFun/ThermoModelsReaction.cpp
+++ b/ThermoFun/ThermoModelsReaction.cpp
@@ -35,7 +35,7 @@ auto ReactionDolejsManning10::thermoProperties(double T, double P, PropertiesSol
     auto t = Reaktoro_::Temperature(T);
     auto p = Reaktoro_::Pressure(P); p /= bar_to_Pa;
 
-    return thermoPropertiesFrantzMarshall(t, p, pimpl->reaction, wp);
+    return thermoPropertiesDolejsManning2010(t, p, pimpl->reaction, wp);
 }
 
 //=======================================================================================================
-- 
2.43.0


From 5f1cb382ccacf058b4c1c5884cfa6de98fd7fb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:48 +0000
Subject: [PATCH 15/69] fix: internal energy of the Ryzhenko-Bryzgalin model
 uses the volume in J/bar

---
 ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp b/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp
index f9e24bd..ecf8368 100644
--- a/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp
+++ b/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp
@@ -64,7 +64,7 @@ auto thermoPropertiesRyzhenkoBryzgalin(Reaktoro_::Temperature TK, Reaktoro_::Pre
     auto dSr  = R_CONSTANT*log(10.)/zzH2O * ( dI*J + dJ*I );
     auto dCPr = R_CONSTANT*log(10.)/zzH2O * TK * ( d2I*J + 2.*dI*dJ + d2J*I );
     auto dVr  = - R_CONSTANT*log(10.)/zzH2O * ( e*TK + f + g/TK ) * 1./(RHO*log(10.))
-                * dRHOdP * ( A + B/TK);
+                * dRHOdP * ( A + B/TK) * 1e5; // to J/bar
     auto dHr  = dGr + dSr*TK;
     auto dUr  = dHr - Pbar*dVr;
     auto dAr  = dUr - TK*dSr;
@@ -75,7 +75,7 @@ auto thermoPropertiesRyzhenkoBryzgalin(Reaktoro_::Temperature TK, Reaktoro_::Pre
     tpr.reaction_entropy           = dSr;
     tpr.reaction_enthalpy          = dHr;
     tpr.reaction_heat_capacity_cp  = dCPr;
-    tpr.reaction_volume            = dVr*1e5; // to J/bar
+    tpr.reaction_volume            = dVr;
     tpr.reaction_helmholtz_energy  = dAr;
     tpr.reaction_internal_energy   = dUr;
 
-- 
2.43.0


From ee56d9d954314b39498730540e00677c4eb93c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:51 +0000
Subject: [PATCH 16/69] fix: the constant volume pressure correction of a
 reaction also changes ln K

---
 ThermoFun/ThermoEngine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 89cbcee..8bb925c 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -797,6 +797,7 @@ struct ThermoEngine::Impl
                 tpr.reaction_enthalpy += VP;
                 auto Vref = pref.workReaction.thermoReferenceProperties().reaction_volume;
                 tpr.log_equilibrium_constant -= Vref * (P_ - Pref) / (R_CONSTANT * T) / lg_to_ln;
+                tpr.ln_equilibrium_constant -= Vref * (P_ - Pref) / (R_CONSTANT * T);
                 tpr.reaction_entropy = (tpr.reaction_enthalpy - tpr.reaction_gibbs_energy) / T;
                 tpr.reaction_internal_energy = tpr.reaction_enthalpy - P_ * tpr.reaction_volume;
                 tpr.reaction_helmholtz_energy = tpr.reaction_internal_energy - T * tpr.reaction_entropy;
-- 
2.43.0


From bfe0fd24a7ebcf42dd90142a8ac149273478b2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:39 +0000
Subject: [PATCH 17/69] fix: error propagation of ThermoScalar: sign in
 compound assignments, quotient, root, power and logarithm; unary plus
 compiles

---
 ThermoFun/Common/ThermoScalar.hpp | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/ThermoFun/Common/ThermoScalar.hpp b/ThermoFun/Common/ThermoScalar.hpp
index a6cc69d..48dc3b1 100644
--- a/ThermoFun/Common/ThermoScalar.hpp
+++ b/ThermoFun/Common/ThermoScalar.hpp
@@ -141,14 +141,14 @@ public:
     template<typename VR>
     ThermoScalarBase& operator*=(const ThermoScalarBase<VR>& other)
     {
-        const double tmp_err = err / val;
+        const double tmp_err = val != 0 ? err / val : 0.0;
         ddt  = ddt * other.val + val * other.ddt;
         ddp  = ddp * other.val + val * other.ddp;
         val *= other.val;
         if (other.val == 0)
             err = 0.0;
         else
-            err  = val*sqrt(tmp_err*tmp_err + other.err/other.val*other.err/other.val);
+            err  = std::fabs(val)*std::sqrt(tmp_err*tmp_err + other.err/other.val*other.err/other.val);
 
         if (sta.first == Status::notdefined || other.sta.first == Status::notdefined)
             sta = {Status::notdefined, std::string("")};
@@ -164,14 +164,14 @@ public:
     {
         const double tmp1 = 1.0/other.val;
         const double tmp2 = tmp1 * tmp1;
-        const double tmp_err = err / val;
+        const double tmp_err = val != 0 ? err / val : 0.0;
         ddt  = (ddt * other.val - val * other.ddt) * tmp2;
         ddp  = (ddp * other.val - val * other.ddp) * tmp2;
         val *= tmp1;
         if (other.val == 0)
             err = 0.0;
         else
-            err  = val*sqrt(tmp_err*tmp_err + other.err/other.val*other.err/other.val);
+            err  = std::fabs(val)*std::sqrt(tmp_err*tmp_err + other.err/other.val*other.err/other.val);
 
         if (sta.first == Status::notdefined || other.sta.first == Status::notdefined)
             sta = {Status::notdefined, std::string("")};
@@ -205,7 +205,7 @@ public:
         if (val == 0)
             err = 0.0;
         else
-            err = val*std::sqrt(tmp_err);
+            err = std::fabs(val)*std::sqrt(tmp_err);
         return *this;
     }
 
@@ -217,7 +217,7 @@ public:
         if (val == 0)
             err = 0.0;
         else
-            err = val*std::sqrt(tmp_err);
+            err = std::fabs(val)*std::sqrt(tmp_err);
         return *this;
     }
 
@@ -285,8 +285,7 @@ inline auto status(const ThermoScalarBase<VL>& l) -> StatusMessage
 template<typename V>
 inline auto operator+(const ThermoScalarBase<V>& l) -> ThermoScalarBase<double>
 {
-    l.sta = status(l);
-    return l;
+    return {l.val, l.ddt, l.ddp, l.err, status(l)};
 }
 
 /// Add two ThermoScalar instances
@@ -387,7 +386,7 @@ inline auto operator/(double l, const ThermoScalarBase<V>& r) -> ThermoScalarBas
     const double tmp2 = -l*tmp1*tmp1;
     if (r.val == 0)
         return {tmp1 * l, tmp2 * r.ddt, tmp2 * r.ddp, 0.0, status(r)};
-    return {tmp1 * l, tmp2 * r.ddt, tmp2 * r.ddp, (tmp1 * r.val)*std::sqrt(r.err/r.val*r.err/r.val), status(r)};
+    return {tmp1 * l, tmp2 * r.ddt, tmp2 * r.ddp, (tmp1 * l)*std::sqrt(r.err/r.val*r.err/r.val), status(r)};
 }
 
 /// Right-divide a ThermoScalar instance by a scalar
@@ -405,7 +404,7 @@ inline auto sqrt(const ThermoScalarBase<V>& l) -> ThermoScalarBase<double>
     const double tmp2 = 0.5 * tmp1/l.val;
     if (l.val == 0)
         return {tmp1, /*tmp2 * l.ddt, tmp2 * l.ddp,*/ 0.0,0.0,0.0, status(l)};
-    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, 0.5*(l.err/l.val), status(l)};
+    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, tmp1*0.5*(l.err/l.val), status(l)};
 }
 
 /// Return the power of a ThermoScalar instance
@@ -416,7 +415,7 @@ inline auto pow(const ThermoScalarBase<V>& l, double power) -> ThermoScalarBase<
     const double tmp2 = power * tmp1/l.val;
     if (l.val == 0)
         return {tmp1, /*tmp2 * l.ddt, tmp2 * l.ddp,*/0.0,0.0, 0.0, status(l)};
-    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, std::fabs(power)*(l.err/l.val), status(l)};
+    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, tmp1*power*(l.err/l.val), status(l)};
 }
 
 /// Return the power of a ThermoScalar instance
@@ -428,7 +427,7 @@ inline auto pow(const ThermoScalarBase<VL>& l, const ThermoScalarBase<VR>& power
     const double tmp = power.val/l.val;
     if (l.val == 0)
         return {powl, powl * (logl * power.ddt + /*tmp * l.ddt*/0.0), powl * (logl * power.ddp + /*tmp * l.ddp*/0.0), 0.0, status(l,power)};
-    return {powl, powl * (logl * power.ddt + tmp * l.ddt), powl * (logl * power.ddp + tmp * l.ddp), powl*(l.err/l.val), status(l,power)};
+    return {powl, powl * (logl * power.ddt + tmp * l.ddt), powl * (logl * power.ddp + tmp * l.ddp), powl*std::sqrt(tmp*l.err*tmp*l.err + logl*power.err*logl*power.err), status(l,power)};
 }
 
 /// Return the natural exponential of a ThermoScalar instance
@@ -447,7 +446,7 @@ inline auto log(const ThermoScalarBase<V>& l) -> ThermoScalarBase<double>
     const double tmp2 = 1.0/l.val;
     if (l.val == 0)
         return {tmp1, /*tmp2 * l.ddt, tmp2 * l.ddp,*/ 0.0,0.0, 0.0, status(l)};
-    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, 0.434*(l.err/l.val), status(l)};
+    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, l.err/l.val, status(l)};
 }
 
 /// Return the log10 of a ThermoScalar instance
-- 
2.43.0


From f4375e1fa47cf5dd47055017dd1efee7fda4ea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:27 +0000
Subject: [PATCH 18/69] fix: adding a map of records keeps the records of the
 database; define setting a map of records

---
 ThermoFun/Database.cpp | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/Database.cpp b/ThermoFun/Database.cpp
index e95ebb6..3ebcb68 100644
--- a/ThermoFun/Database.cpp
+++ b/ThermoFun/Database.cpp
@@ -118,13 +118,25 @@ struct Database::Impl
 
     auto addMapElements(const ElementsMap& elements) -> void
     {
-        elements_map = elements;
+        elements_map.insert(elements.begin(), elements.end());
         setDBElements(elements_map);
     }
 
+    auto setMapElements(const ElementsMap& elements) -> void
+    {
+        for (const auto& e : elements)
+            setElement(e.second);
+    }
+
     auto addMapSubstances(const SubstancesMap& substances) -> void
     {
-        substances_map = substances;
+        substances_map.insert(substances.begin(), substances.end());
+    }
+
+    auto setMapSubstances(const SubstancesMap& substances) -> void
+    {
+        for (const auto& s : substances)
+            setSubstance(s.second);
     }
 
     auto addReaction(const Reaction& reaction) -> void
@@ -140,7 +152,13 @@ struct Database::Impl
 
     auto addMapReactions(const ReactionsMap& reactions) -> void
     {
-        reactions_map = reactions;
+        reactions_map.insert(reactions.begin(), reactions.end());
+    }
+
+    auto setMapReactions(const ReactionsMap& reactions) -> void
+    {
+        for (const auto& r : reactions)
+            setReaction(r.second);
     }
 
     auto getElements() const -> std::vector<Element>
@@ -452,6 +470,11 @@ auto Database::addMapElements(const ElementsMap& elements) -> void
     pimpl->addMapElements(elements);
 }
 
+auto Database::setMapElements(const ElementsMap& elements) -> void
+{
+    pimpl->setMapElements(elements);
+}
+
 auto Database::addSubstance(const Substance& substance) -> void
 {
     pimpl->addSubstance(substance);
@@ -477,6 +500,11 @@ auto Database::addMapSubstances(const SubstancesMap& substances) -> void
     pimpl->addMapSubstances(substances);
 }
 
+auto Database::setMapSubstances(const SubstancesMap& substances) -> void
+{
+    pimpl->setMapSubstances(substances);
+}
+
 auto Database::addReaction(const Reaction& reaction) -> void
 {
     pimpl->addReaction(reaction);
@@ -502,6 +530,11 @@ auto Database::addMapReactions(const ReactionsMap& reactions) -> void
     pimpl->addMapReactions(reactions);
 }
 
+auto Database::setMapReactions(const ReactionsMap& reactions) -> void
+{
+    pimpl->setMapReactions(reactions);
+}
+
 auto Database::getElement(std::string symbol) const -> const Element&
 {
     return pimpl->getElement(symbol);
-- 
2.43.0


From 6bccfddef4118df63e064a42ead3335c2c49255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:30 +0000
Subject: [PATCH 19/69] fix: formulas use the present data of the elements in
 the database

---
 ThermoFun/Database.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ThermoFun/Database.cpp b/ThermoFun/Database.cpp
index 3ebcb68..60a9d07 100644
--- a/ThermoFun/Database.cpp
+++ b/ThermoFun/Database.cpp
@@ -76,6 +76,13 @@ struct Database::Impl
         all_elements.addElement(elkey, eldata);
     }
 
+    /// The elements data for the formula parser, with the present data of the elements in the database
+    auto dbElements() -> const ChemicalFun::DBElements&
+    {
+        setDBElements(elements_map);
+        return all_elements;
+    }
+
     auto setDBElements(ElementsMap elements) -> void
     {
         thfun_logger->debug("Database::setDBElements() elements {}", elements.size());
@@ -430,18 +437,12 @@ auto Database::operator=(Database other) -> Database&
 
 auto Database::appendData(std::string filename) -> void
 {
-    auto elements_number = pimpl->mapElements().size();
     pimpl->fromFile(filename);
-    if (elements_number != pimpl->mapElements().size())
-        pimpl->setDBElements(pimpl->mapElements());
 }
 
 auto Database::appendData(std::vector<std::string> jsonRecords, std::string _label = "unknown label") -> void
 {
-    auto elements_number = pimpl->mapElements().size();
     pimpl->fromJSONs(jsonRecords, _label);
-    if (elements_number != pimpl->mapElements().size())
-        pimpl->setDBElements(pimpl->mapElements());
 }
 
 auto Database::addElement(const Element& element) -> void
@@ -669,6 +670,7 @@ auto Database::parseSubstanceFormula(std::string formula_) const -> std::map<Ele
     // ??? Do we need props, do not save
     //auto props = formula.properties(pimpl->all_elements.elements());
 
+    pimpl->dbElements();
     for (const auto& element : formula.getStoichCoefficients())
     {
         Element e = pimpl->elementKeyToElement(element.first);
@@ -680,12 +682,13 @@ auto Database::parseSubstanceFormula(std::string formula_) const -> std::map<Ele
 
 auto Database::elementalEntropyFormula(std::string formula) const -> double
 {
-    ChemicalFun::FormulaProperties prop = pimpl->all_elements.formulasProperties(formula);
+    ChemicalFun::FormulaProperties prop = pimpl->dbElements().formulasProperties(formula);
     return prop.elemental_entropy;
 }
 
 auto Database::setSubstancesChargeFromFromula() -> void
 {
+    const auto& elements = pimpl->dbElements().elements();
     for (auto& s: pimpl->substances_map)
     {
 //        auto js = s.second.jsonString();
@@ -706,7 +709,7 @@ auto Database::setSubstancesChargeFromFromula() -> void
 //        } else
         {
             ChemicalFun::FormulaToken formula(s.second.formula());
-            auto p = formula.properties(pimpl->all_elements.elements());
+            auto p = formula.properties(elements);
             if (s.second.charge() != p.charge)
             {
                 s.second.setCharge(p.charge);
-- 
2.43.0


From 6632f54ee5d9cd1921077ec8b29710d01df8b9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:54 +0000
Subject: [PATCH 20/69] fix: the order of elements is a strict order also for
 isotopes of different valence

---
 ThermoFun/Element.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Element.cpp b/ThermoFun/Element.cpp
index b11e98e..8415321 100644
--- a/ThermoFun/Element.cpp
+++ b/ThermoFun/Element.cpp
@@ -226,7 +226,7 @@ auto operator<(const Element& lhs, const Element& rhs) -> bool
             {
                 if (lhs.isotopeMass() < rhs.isotopeMass())
                     return true;
-                else
+                if (lhs.isotopeMass() == rhs.isotopeMass())
                     return (lhs.valence() < rhs.valence());
             }
         }
@@ -250,7 +250,7 @@ auto operator>(const Element& lhs, const Element& rhs) -> bool
             {
                 if (lhs.isotopeMass() > rhs.isotopeMass())
                     return true;
-                else
+                if (lhs.isotopeMass() == rhs.isotopeMass())
                     return (lhs.valence() > rhs.valence());
             }
         }
-- 
2.43.0


From 7f210882664c34fa539596a9ea144da2ea068f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:09 +0000
Subject: [PATCH 21/69] fix: fields absent from an element or substance record
 read as zero instead of stale or uninitialised values

---
 ThermoFun/Common/ParseJsonToData.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/Common/ParseJsonToData.cpp b/ThermoFun/Common/ParseJsonToData.cpp
index 2be4ad0..bdf90b0 100644
--- a/ThermoFun/Common/ParseJsonToData.cpp
+++ b/ThermoFun/Common/ParseJsonToData.cpp
@@ -155,7 +155,7 @@ auto read_value_unit(const json& j, const std::string& data, double& value, cons
     if (j.contains(data)) {
         const auto& entry = j[data];
 
-        if (entry.contains("units") && entry["units"].is_array() && !entry["units"][0].is_null())
+        if (entry.contains("units") && entry["units"].is_array() && !entry["units"].empty() && !entry["units"][0].is_null())
             unit_from = entry["units"][0].get<std::string>();
 
         // Temporary fixes
@@ -169,7 +169,7 @@ auto read_value_unit(const json& j, const std::string& data, double& value, cons
             factor = 1;
         }
 
-        if (entry.contains("values") && entry["values"].is_array() && !entry["values"][0].is_null()) {
+        if (entry.contains("values") && entry["values"].is_array() && !entry["values"].empty() && !entry["values"][0].is_null()) {
             value = units::convert(entry["values"][0].get<double>() * factor, unit_from, unit_to);
         }
     }
@@ -488,13 +488,16 @@ auto parseElement(const std::string &data) -> Element
         if (j.contains("number"))
             if (!j["number"].is_null())
                 e.setNumber(j["number"].get<int>());
-        double val;
+        double val = 0.0;
         read_value_unit(j, "entropy", val, "J/(mol*K)");
         e.setEntropy(val);
+        val = 0.0;
         read_value_unit(j, "heat_capacity", val, "J/(mol*K)");
         e.setHeatCapacity(val);
+        val = 0.0;
         read_value_unit(j, "atomic_mass", val, "g/mol");
         e.setMolarMass(val);
+        val = 0.0;
         read_value_unit(j, "volume", val, "J/bar");
         e.setVolume(val);
 
@@ -551,7 +554,7 @@ auto parseSubstance(const std::string &data) -> Substance
             if (!j["reaction"].is_null())
                 s.setReactionSymbol(j["reaction"]);
 
-        double val;
+        double val = 0.0;
         read_value_unit(j, "mass_per_mole", val, "g/mol");
         s.setMolarMass(val);
 
-- 
2.43.0


From 8214d5454b866956fb1126aaa7de87b62b5175ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:12 +0000
Subject: [PATCH 22/69] fix: a null list of methods is treated as an absent one

---
 ThermoFun/Common/ParseJsonToData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Common/ParseJsonToData.cpp b/ThermoFun/Common/ParseJsonToData.cpp
index bdf90b0..1e86a57 100644
--- a/ThermoFun/Common/ParseJsonToData.cpp
+++ b/ThermoFun/Common/ParseJsonToData.cpp
@@ -592,7 +592,7 @@ auto parseSubstance(const std::string &data) -> Substance
             if (!j["TPMethods"].is_null())
                 getTPMethods(j, s);
         // if no TPMethod is given but there is a reaction which defines the properties of the given substance
-        if (!j.contains("TPMethods") && j.contains("reaction"))
+        if ((!j.contains("TPMethods") || j["TPMethods"].is_null()) && j.contains("reaction"))
             if (!j["reaction"].is_null())
                 s.setThermoCalculationType(SubstanceThermoCalculationType::REACDC);
 
-- 
2.43.0


From 37552bd73ef0c88f589301cc7a1c5e5c35137d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:07 +0000
Subject: [PATCH 23/69] fix: compressibility and expansivity absent from a
 record are zero instead of uninitialised

---
 ThermoFun/ThermoParameters.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/ThermoParameters.h b/ThermoFun/ThermoParameters.h
index 957a873..a9ea6d5 100644
--- a/ThermoFun/ThermoParameters.h
+++ b/ThermoFun/ThermoParameters.h
@@ -75,10 +75,10 @@ typedef std::vector<std::pair<std::string,Method>> listmethods;
 struct ThermoParametersSubstance
 {
     /// Isothermal compressibility (for condensed substances)
-    double isothermal_compresibility;
+    double isothermal_compresibility = 0.0;
 
     /// Isobaric expansivity (for condensed substances)
-    double isobaric_expansivity;
+    double isobaric_expansivity = 0.0;
 
     /// Lower and upper T limits for Cp=f(T) equation
     vvd temperature_intervals;
-- 
2.43.0


From 2e1a4c561889213d830ac7ecfe7e7056dfe089fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:13 +0000
Subject: [PATCH 24/69] fix: repeated species of a reaction are summed and a
 new equation replaces the reactants of the previous one

---
 ThermoFun/Common/ParseJsonToData.cpp | 2 +-
 ThermoFun/Reaction.cpp               | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/Common/ParseJsonToData.cpp b/ThermoFun/Common/ParseJsonToData.cpp
index 1e86a57..fa20e2a 100644
--- a/ThermoFun/Common/ParseJsonToData.cpp
+++ b/ThermoFun/Common/ParseJsonToData.cpp
@@ -456,7 +456,7 @@ auto getReactants(const json &r) -> std::map<std::string, double>
         if (j.contains("symbol"))
             if (j.contains("coefficient"))
                 if (!j["symbol"].is_null() && !j["coefficient"].is_null())
-                    reactants[j["symbol"]] = j["coefficient"].get<double>();
+                    reactants[j["symbol"]] += j["coefficient"].get<double>();
     }
     return reactants;
 }
diff --git a/ThermoFun/Reaction.cpp b/ThermoFun/Reaction.cpp
index 86a9395..06ce48e 100644
--- a/ThermoFun/Reaction.cpp
+++ b/ThermoFun/Reaction.cpp
@@ -126,13 +126,15 @@ struct Reaction::Impl
         double coef = 1.;
         std::string reactant;
 
+        reactants.clear();
+
         std::vector<std::string> parts = regexp_split(str_reactants,  "\\s+\\+\\s+" /*"\\s+"*/ );
         for( const auto& el: parts)
         {
             reactant = extractCoef( el, coef );
             thfun_logger->trace(" extractCoef data: {} reactant: {} coef: {}", el, reactant, coef);
             if(!reactant.empty())
-                reactants[reactant] = coef*(-1.);
+                reactants[reactant] += coef*(-1.);
         }
 
         parts = regexp_split(str_products, "\\s+\\+\\s+" /*"\\s+"*/ );
@@ -141,7 +143,7 @@ struct Reaction::Impl
             reactant = extractCoef( el, coef );
             thfun_logger->trace(" extractCoef data: {} reactant: {} coef: {}", el, reactant, coef);
             if(!reactant.empty())
-                reactants[reactant] = coef;
+                reactants[reactant] += coef;
         }
     }
 };
-- 
2.43.0


From cce42770f74cada6ab3c66842438ee5b38c94163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:14 +0000
Subject: [PATCH 25/69] fix: powers of bar are pressures, not temperatures

---
 ThermoFun/Common/Units.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ThermoFun/Common/Units.cpp b/ThermoFun/Common/Units.cpp
index 373dfcd..c099aa9 100644
--- a/ThermoFun/Common/Units.cpp
+++ b/ThermoFun/Common/Units.cpp
@@ -395,11 +395,11 @@ map<string, DerivedUnit> derivedUnitsMap =
     {"K^0.5"        , {{1, "K", 0.5}}},
     {"K^1.5"        , {{1, "K", 1.5}}},
 
-    {"bar^2"          , {{1, "K", 2}}},
-    {"bar^3"          , {{1, "K", 3}}},
-    {"bar^4"          , {{1, "K", 4}}},
-    {"bar^5"          , {{1, "K", 5}}},
-    {"bar^0.5"        , {{1, "K", 0.5}}}
+    {"bar^2"          , {{1, "bar", 2}}},
+    {"bar^3"          , {{1, "bar", 3}}},
+    {"bar^4"          , {{1, "bar", 4}}},
+    {"bar^5"          , {{1, "bar", 5}}},
+    {"bar^0.5"        , {{1, "bar", 0.5}}}
 };
 
 map<string, TemperatureUnit> temperatureUnitsMap =
-- 
2.43.0


From cd81f20e8d8d1df182584111adf4c60317075e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:15 +0000
Subject: [PATCH 26/69] fix: tesla is weber per square metre

---
 ThermoFun/Common/Units.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Common/Units.cpp b/ThermoFun/Common/Units.cpp
index c099aa9..e43c448 100644
--- a/ThermoFun/Common/Units.cpp
+++ b/ThermoFun/Common/Units.cpp
@@ -359,7 +359,7 @@ map<string, DerivedUnit> derivedUnitsMap =
     {"webers"       , {{1, "Wb" , 1}}},
 
     // Magnetic Flux Density Units
-    {"T"            , {{1 , "Wb" , 1}, {1 , "m", 2}}},
+    {"T"            , {{1 , "Wb" , 1}, {1 , "m", -2}}},
     {"gauss"        , {{0.0001 , "T", 1}}},
     {"tesla"        , {{1, "T", 1}}},
     {"teslas"       , {{1, "T", 1}}},
-- 
2.43.0


From b4682d32d55573800457a4468261d5f6a3d94f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:16 +0000
Subject: [PATCH 27/69] fix: fractional powers count in the dimension of a unit

---
 ThermoFun/Common/Units.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ThermoFun/Common/Units.cpp b/ThermoFun/Common/Units.cpp
index e43c448..3f23c96 100644
--- a/ThermoFun/Common/Units.cpp
+++ b/ThermoFun/Common/Units.cpp
@@ -478,13 +478,13 @@ double factor(const DerivedUnit& derivedUnit)
     return factor(derivedUnit, 0);
 }
 
-void removeZero(map<string, int>& res)
+void removeZero(map<string, double>& res)
 {
     for(auto iter = res.begin(); iter != res.end();)
         if(iter->second == 0) res.erase(iter++); else ++iter;
 }
 
-void dimension(const string& symbol, int multpower, map<string, int>& res)
+void dimension(const string& symbol, double multpower, map<string, double>& res)
 {
     if(temperatureUnitsMap.count(symbol)) { res[symbol] += multpower; return; }
     checkDerivedUnit(symbol);
@@ -494,24 +494,24 @@ void dimension(const string& symbol, int multpower, map<string, int>& res)
         dimension(unit.symbol, unit.power * multpower, res);
 }
 
-void dimension(const DerivedUnit& derivedUnit, unsigned pos, map<string, int>& res)
+void dimension(const DerivedUnit& derivedUnit, unsigned pos, map<string, double>& res)
 {
     if(pos == derivedUnit.size()) return;
     dimension(derivedUnit[pos].symbol, derivedUnit[pos].power, res);
     dimension(derivedUnit, pos + 1, res);
 }
 
-map<string, int> dimension(const string& symbol)
+map<string, double> dimension(const string& symbol)
 {
-    map<string, int> res;
+    map<string, double> res;
     dimension(symbol, 1, res);
     removeZero(res);
     return res;
 }
 
-map<string, int> dimension(const DerivedUnit& derivedUnit)
+map<string, double> dimension(const DerivedUnit& derivedUnit)
 {
-    map<string, int> res;
+    map<string, double> res;
     dimension(derivedUnit, 0, res);
     removeZero(res);
     return res;
-- 
2.43.0


From e6019b9076d824e7ff5d9ec7fad12bb3e79d66c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:17 +0000
Subject: [PATCH 28/69] fix: the nondimensional unit has no dimension

---
 ThermoFun/Common/Units.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ThermoFun/Common/Units.cpp b/ThermoFun/Common/Units.cpp
index 3f23c96..68f5919 100644
--- a/ThermoFun/Common/Units.cpp
+++ b/ThermoFun/Common/Units.cpp
@@ -486,6 +486,7 @@ void removeZero(map<string, double>& res)
 
 void dimension(const string& symbol, double multpower, map<string, double>& res)
 {
+    if(symbol == "1") return;
     if(temperatureUnitsMap.count(symbol)) { res[symbol] += multpower; return; }
     checkDerivedUnit(symbol);
     const auto& units = derivedUnitsMap[symbol];
-- 
2.43.0


From 36dc4c163b70f25fd27b0230950584fee5561809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:18 +0000
Subject: [PATCH 29/69] fix: malformed unit strings are reported as errors

---
 ThermoFun/Common/Units.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ThermoFun/Common/Units.cpp b/ThermoFun/Common/Units.cpp
index 68f5919..2898e60 100644
--- a/ThermoFun/Common/Units.cpp
+++ b/ThermoFun/Common/Units.cpp
@@ -546,9 +546,14 @@ inline void unmatchedParenthesisError()
     throw std::runtime_error("*** Error *** there is unmatched parenthesis in the unit string.");
 }
 
+inline void invalidUnitError()
+{
+    throw std::runtime_error("*** Error *** there is a missing unit or operator in the unit string.");
+}
+
 std::shared_ptr<Node> parseUnit(const string& symbol, size_t pos)
 {
-    if(symbol.empty()) return nullptr;
+    if(symbol.empty()) invalidUnitError();
 
     if(symbol[pos] == ')')
     {
@@ -557,6 +562,7 @@ std::shared_ptr<Node> parseUnit(const string& symbol, size_t pos)
         if(i > 0)
         {
             string op_str    = symbol.substr(i-1, 1);
+            if(op_str != "*" && op_str != "/") invalidUnitError();
             string left_str  = symbol.substr(0, i-1);
             string right_str = symbol.substr(i+1, pos-i-1);
 
@@ -578,6 +584,8 @@ std::shared_ptr<Node> parseUnit(const string& symbol, size_t pos)
         if(found == string::npos)
             return std::shared_ptr<Node>(new Node(symbol.substr(0, pos+1)));
 
+        if(found == 0) invalidUnitError();
+
         std::shared_ptr<Node> right(new Node());
         right->str = symbol.substr(found+1, pos-found);
 
-- 
2.43.0


From d5166df69cb25ce41a2193e9a35ca914554e06a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:31 +0000
Subject: [PATCH 30/69] fix: properties of the solvent that no model calculates
 are zero instead of uninitialised

---
 ThermoFun/ThermoProperties.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ThermoFun/ThermoProperties.h b/ThermoFun/ThermoProperties.h
index a7b9a5f..78fc13a 100644
--- a/ThermoFun/ThermoProperties.h
+++ b/ThermoFun/ThermoProperties.h
@@ -82,21 +82,21 @@ struct ThermoPropertiesReaction
 struct PropertiesSolvent
 {
     /// speed of sound
-    double speed_of_sound,
+    double speed_of_sound = 0.0,
 //       Alpha,            /// constant pressure expansion (alpha)
 //       Beta,             /// constant temperature compressibility (beta)
     /// dynamic viscosity
-       dynamic_viscosity,
+       dynamic_viscosity = 0.0,
     /// thermal conductivity
-       thermal_conductivity,
+       thermal_conductivity = 0.0,
     /// surface tension
-       surface_tension,
+       surface_tension = 0.0,
     /// not clear (currently not used)
-       Tdiff,
+       Tdiff = 0.0,
     /// Prandtl number (currently not used)
-       Prndtl,
+       Prndtl = 0.0,
     /// kinetic viscosity (currently not used)
-       Visck;
+       Visck = 0.0;
 //       Albe,             /// alpha/beta ratio
 //       dAldT;            /// T derivative of isobaric expansion
     /// constant pressure expansion (alpha) (in units of 1/K)
-- 
2.43.0


From 21f1919af39678c6c5c96585c585bb76659015a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:25 +0000
Subject: [PATCH 31/69] fix: a failed HGK calculation does not change the unit
 of the given pressure

---
 ThermoFun/ThermoModelsSolvent.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/ThermoModelsSolvent.cpp b/ThermoFun/ThermoModelsSolvent.cpp
index 14214c8..b01f6df 100644
--- a/ThermoFun/ThermoModelsSolvent.cpp
+++ b/ThermoFun/ThermoModelsSolvent.cpp
@@ -71,21 +71,21 @@ WaterHGK::WaterHGK(const Substance &substance)
 // calculation
 auto WaterHGK::propertiesSolvent(double T, double &P, int state, std::string triple) -> PropertiesSolvent
 {
-    WaterHGKgems water_hgk; T -= C_to_K; P /= bar_to_Pa;
+    WaterHGKgems water_hgk; T -= C_to_K; double Pbar = P / bar_to_Pa;
 
     WaterTripleProperties wtr = waterTripleData.at(triple);
-    water_hgk.calculateWaterHGKgems(T, P, wtr); P *= bar_to_Pa;
+    water_hgk.calculateWaterHGKgems(T, Pbar, wtr); P = Pbar * bar_to_Pa;
 
     return water_hgk.propertiesWaterHGKgems(state);
 }
 
 auto WaterHGK::thermoPropertiesSubstance(double T, double &P, int state, std::string triple) -> ThermoPropertiesSubstance
 {
-    WaterHGKgems water_hgk; T -= C_to_K; P /= bar_to_Pa;
+    WaterHGKgems water_hgk; T -= C_to_K; double Pbar = P / bar_to_Pa;
 
     WaterTripleProperties wtr = waterTripleData.at(triple);
 
-    water_hgk.calculateWaterHGKgems(T, P, wtr); P *= bar_to_Pa;
+    water_hgk.calculateWaterHGKgems(T, Pbar, wtr); P = Pbar * bar_to_Pa;
 
     return  water_hgk.thermoPropertiesWaterHGKgems(state);
 }
-- 
2.43.0


From 58679ef9057d3a981d8be999e7e8e198b0cafbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:26 +0000
Subject: [PATCH 32/69] fix: the born X function is written once in the electro
 properties file

---
 ThermoFun/Common/OutputToCSV.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Common/OutputToCSV.cpp b/ThermoFun/Common/OutputToCSV.cpp
index d686b5a..95434c9 100644
--- a/ThermoFun/Common/OutputToCSV.cpp
+++ b/ThermoFun/Common/OutputToCSV.cpp
@@ -147,7 +147,7 @@ auto OutputToCSV::writeElectroPropertiesSolvent (std::string symbol, double T, d
     }
 
     fElectroPropertiesSolvent << symbol << c << T << c << P << c <<
-                                 eps.bornN     << c << eps.bornQ     << c << eps.bornU     << c << eps.bornX     << c <<
+                                 eps.bornN     << c << eps.bornQ     << c << eps.bornU     << c <<
                                  eps.bornX     << c << eps.bornY     << c << eps.bornZ     << c << eps.epsilon   << c <<
                                  eps.epsilonP  << c << eps.epsilonPP << c << eps.epsilonT  << c << eps.epsilonTP << c <<
                                  eps.epsilonTT << std::endl;
-- 
2.43.0


From f41941f68290b5b481a09b60346dff86df562046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:26 +0000
Subject: [PATCH 33/69] fix: opening a file that is open starts the new file,
 with its header

---
 ThermoFun/Common/OutputToCSV.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ThermoFun/Common/OutputToCSV.cpp b/ThermoFun/Common/OutputToCSV.cpp
index 95434c9..db36469 100644
--- a/ThermoFun/Common/OutputToCSV.cpp
+++ b/ThermoFun/Common/OutputToCSV.cpp
@@ -84,6 +84,8 @@ auto OutputToCSV::openThermoPropertiesSubstanceFile (std::string fileName) ->voi
 
     std::string fullPath = outputFolderPath + "/" + fileName;
 
+    closeThermoPropertiesSubstanceFile();
+    isHeaderThermoPropSubst = false;
     fThermoPropertiesSubstance.open( fullPath , std::ios::trunc );
 }
 
@@ -93,6 +95,8 @@ auto OutputToCSV::openPropertiesSolventFile (std::string fileName) ->void
 
     std::string fullPath = outputFolderPath + "/" + fileName;
 
+    closePropertiesSolventFile();
+    isHeaderPropSolv = false;
     fPropertiesSolvent.open( fullPath , std::ios::trunc );
 }
 
@@ -102,6 +106,8 @@ auto OutputToCSV::openElectroPropertiesSolventFile (std::string fileName) ->void
 
     std::string fullPath = outputFolderPath + "/" + fileName;
 
+    closeElectroPropertiesSolventFile();
+    isHeaderElectroPropSolv = false;
     fElectroPropertiesSolvent.open( fullPath , std::ios::trunc );
 }
 
-- 
2.43.0


From bfca27384e8f8e82494743f97f3e230ea0639ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:29 +0000
Subject: [PATCH 34/69] fix: Cp intervals are found for every temperature

---
 ThermoFun/Substances/EmpiricalCpIntegration.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/ThermoFun/Substances/EmpiricalCpIntegration.cpp b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
index 25d4bec..ed27618 100644
--- a/ThermoFun/Substances/EmpiricalCpIntegration.cpp
+++ b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
@@ -3,6 +3,7 @@
 #include "ThermoProperties.h"
 #include "ThermoParameters.h"
 #include "Substance.h"
+#include <algorithm>
 //#include <iomanip>
 
 namespace ThermoFun
@@ -44,7 +45,7 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
     // get Cp interval -> this has to go!!!!
     for (size_t i = 0; i < thermo_parameters.temperature_intervals.size(); i++)
     {
-        if (thermo_parameters.temperature_intervals[i].size() > 0)
+        if (thermo_parameters.temperature_intervals[i].size() > 1)
         {
             if ((thermo_parameters.temperature_intervals[i][0] <= TK) && (thermo_parameters.temperature_intervals[i][1] > TK))
             {
@@ -60,17 +61,18 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
 
     if (k < 0)
     {
-        if (TK_ <= thermo_parameters.temperature_intervals[0][0])
-            k = 0;
-        if (TK_ > thermo_parameters.temperature_intervals[thermo_parameters.temperature_intervals.size() - 1][1])
-            k = thermo_parameters.temperature_intervals.size() - 1;
+        // the last interval that begins below the temperature, the first one if there is none
+        k = 0;
+        for (size_t i = 0; i < thermo_parameters.temperature_intervals.size(); i++)
+            if (thermo_parameters.temperature_intervals[i].size() > 1 && thermo_parameters.temperature_intervals[i][0] <= TK_)
+                k = i;
 
         thfun_logger->warn(" {} {}: The given temperature: {} is not inside the specified interval/s for the Cp calculation.\n"
                            "The temperature is not inside the specified interval for the substance {}.",
                            __FILE__, __LINE__, static_cast<double>(TK_), substance.symbol());
     }
 
-    //k = 0; fix
+    k = std::min(k, static_cast<int>(thermo_parameters.Cp_coeff.size()) - 1);
 
     for (unsigned i = 0; i < thermo_parameters.Cp_coeff[k].size(); i++)
     {
@@ -119,7 +121,7 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
             RaiseError(exception)
         }
 
-        if (j && thermo_parameters.phase_transition_prop[ft][0] <= TrK /*-C_to_K*/)
+        if (j && ft < thermo_parameters.phase_transition_prop.size() && thermo_parameters.phase_transition_prop[ft][0] <= TrK /*-C_to_K*/)
         {                                                               // Adding parameters of phase transition
             if (thermo_parameters.phase_transition_prop[ft].size() > 1) // dS
                 S += thermo_parameters.phase_transition_prop[ft][1];
-- 
2.43.0


From aadb92efc30b8f32a4d586ae737ee6e5f6f74f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:31 +0000
Subject: [PATCH 35/69] fix: each Cp interval has only its own coefficients,
 the T^0.5 term of Cp

---
 ThermoFun/Substances/EmpiricalCpIntegration.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/EmpiricalCpIntegration.cpp b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
index ed27618..8a7e924 100644
--- a/ThermoFun/Substances/EmpiricalCpIntegration.cpp
+++ b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
@@ -90,7 +90,7 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
                 ac[6] * (TK * TK * TK * TK) +
                 ac[7] / (TK * TK * TK) +
                 ac[8] / TK +
-                ac[9] * (pow(TK, (1 / 2))) /*+ ac[10]*log(T)*/);
+                ac[9] * (pow(TK, 0.5)) /*+ ac[10]*log(T)*/);
 
     for (unsigned j = 0, ft = 0; j <= k; j++)
     {
@@ -135,6 +135,7 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
 
         G -= S * (TK - TrK);
 
+        std::fill(ac.begin(), ac.end(), 0.0);
         for (unsigned i = 0; i < thermo_parameters.Cp_coeff[j].size(); i++)
         {
             if (i == 16)
-- 
2.43.0


From c69a69e06964a89a0ef6b1d2e8d1b8540a88937a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:56 +0000
Subject: [PATCH 36/69] fix: all the symbols of a batch calculation are
 calculated at the given pressure

---
 ThermoFun/Batch/ThermoBatch.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/ThermoFun/Batch/ThermoBatch.cpp b/ThermoFun/Batch/ThermoBatch.cpp
index 4e73029..907f80f 100644
--- a/ThermoFun/Batch/ThermoBatch.cpp
+++ b/ThermoFun/Batch/ThermoBatch.cpp
@@ -260,6 +260,8 @@ struct ThermoBatch::Impl
 
         results.resize(j_size * i_size);
 
+        auto resolved = tpPairs;
+
         for (unsigned j=0; j<j_size; j++)
         {
             for (unsigned i=0; i<i_size; i++)
@@ -282,20 +284,13 @@ struct ThermoBatch::Impl
                 case forSOLVENT: calculateSolventProp(T, P, symbol, (j_size*i)+(j)); break;
                 }
 
-                // in case of Psat = 0 updating with real value
-                if (outSettings.loopOverTPpairsFirst)
-                {
-                    tpPairs[j][1] = units::convert(P, defUnitP, unitP);
-                    symbol = symbols[i];
-                } else
-                {
-                    tpPairs[i][1] = units::convert(P, defUnitP, unitP);
-                    symbol = symbols[j];
-                }
+                // in case of Psat = 0 updating with real value, after all symbols were calculated
+                auto& tp = tpPairs[outSettings.loopOverTPpairsFirst ? j : i];
+                if (units::convert(tp[1], unitP, defUnitP) != P)
+                    resolved[outSettings.loopOverTPpairsFirst ? j : i][1] = units::convert(P, defUnitP, unitP);
             }
         }
-        auto tpp = tpPairs;
-        addTPpairs(tpp);
+        tpPairs = resolved;
     }
 
     auto selectProvidedSubstancesProperties(vtps vTps) -> void
-- 
2.43.0


From 24aa7b3578201a3df4b92856bd97f254b1846109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:58 +0000
Subject: [PATCH 37/69] fix: a property grid writes at each temperature and
 pressure the result calculated for them

---
 ThermoFun/Batch/OutputBatch.cpp | 21 +++++++++++++--------
 ThermoFun/Batch/ThermoBatch.cpp | 10 ++++++++++
 ThermoFun/Batch/ThermoBatch.h   |  1 +
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/ThermoFun/Batch/OutputBatch.cpp b/ThermoFun/Batch/OutputBatch.cpp
index 6783832..3f12676 100644
--- a/ThermoFun/Batch/OutputBatch.cpp
+++ b/ThermoFun/Batch/OutputBatch.cpp
@@ -300,7 +300,7 @@ auto Output::foutPropertyGrid(const std::string &property, const size_t &index_p
     auto digits         = pimpl->api.digits();
     auto fromUnits      = defaultPropertyUnits;
     auto toUnits        = pimpl->api.units();
-    auto tpPairs        = pimpl->api.TPpairs();
+    auto tpPairs        = pimpl->api.givenTPpairs();
     auto results        = pimpl->api.results();
     auto symbols        = pimpl->api.symbols();
     auto temperatures   = pimpl->api.Temperatures();
@@ -319,8 +319,6 @@ auto Output::foutPropertyGrid(const std::string &property, const size_t &index_p
     if (pimpl->api.outputSettings().isFixed) pimpl->fProperties << std::fixed;
     if (pimpl->api.outputSettings().isScientific) pimpl->fProperties << std::scientific;
 
-    size_t count = 0;
-
     if (outSettings.loopTemperatureThenPressure)
     {
         columns          = pressures;
@@ -329,26 +327,33 @@ auto Output::foutPropertyGrid(const std::string &property, const size_t &index_p
         colData          = "pressure";
     }
 
+    std::map<std::vector<double>, size_t> index;
+    for (size_t i=0; i<tpPairs.size(); i++)
+        index.emplace(tpPairs[i], i);
+
     for (unsigned i=0; i<symbols.size(); i++)
         for (auto r : rows)
         {
-            if (count == results.size())
-                break;
             pimpl->fProperties << find_and_replace(symbols[i], s, "_");
             pimpl->fProperties << std::setprecision(digits.at(rowData));
             pimpl->fProperties << s << r;
 
             for(auto c : columns)
             {
-                auto result = results[count][index_property];
+                // the result calculated for this temperature and pressure, not defined if there is none
+                auto tp = outSettings.loopTemperatureThenPressure ? index.find({r, c}) : index.find({c, r});
+                if (tp == index.end() || tpPairs.size()*i + tp->second >= results.size())
+                {
+                    pimpl->fProperties << s << "NaN";
+                    continue;
+                }
+                auto result = results[tpPairs.size()*i + tp->second][index_property];
                 pimpl->fProperties << std::setprecision(digits.at(property));
 
                 if (result.sta.first == Reaktoro_::Status::notdefined && outSettings.writeNaNifNotDefinedValue)
                     pimpl->fProperties << s << "NaN";
                 else
                     pimpl->fProperties << s << units::convert(result.val, fromUnits.at(property), toUnits.at(property));
-                    
-                count++;
             }
             pimpl->fProperties << std::endl;
         }
diff --git a/ThermoFun/Batch/ThermoBatch.cpp b/ThermoFun/Batch/ThermoBatch.cpp
index 907f80f..ee8d27d 100644
--- a/ThermoFun/Batch/ThermoBatch.cpp
+++ b/ThermoFun/Batch/ThermoBatch.cpp
@@ -29,6 +29,9 @@ struct ThermoBatch::Impl
 
     vvd                                 tpPairs;
 
+    /// The T-P pairs as given, before the (saturated vapour) pressure is resolved
+    vvd                                 givenPairs;
+
     std::vector <double>                Ts;
 
     std::vector <double>                Ps;
@@ -84,6 +87,7 @@ struct ThermoBatch::Impl
     auto clearTPpairs () -> void
     {
         tpPairs.clear();
+        givenPairs.clear();
         clearTemperatures();
         clearPressures();
     }
@@ -124,6 +128,7 @@ struct ThermoBatch::Impl
            Ps.push_back(P);
 
         tpPairs.push_back(one_pair);
+        givenPairs.push_back(one_pair);
     }
 
     auto addTPpairs (const std::vector<double> &temperatures, const std::vector<double> &pressures) -> void
@@ -589,6 +594,11 @@ auto ThermoBatch::TPpairs() -> const vvd
     return pimpl->tpPairs;
 }
 
+auto ThermoBatch::givenTPpairs() -> const vvd
+{
+    return pimpl->givenPairs;
+}
+
 auto ThermoBatch::Temperatures() -> const std::vector <double>
 {
     return pimpl->Ts;
diff --git a/ThermoFun/Batch/ThermoBatch.h b/ThermoFun/Batch/ThermoBatch.h
index 3fe5563..f7fe38b 100644
--- a/ThermoFun/Batch/ThermoBatch.h
+++ b/ThermoFun/Batch/ThermoBatch.h
@@ -158,6 +158,7 @@ private:
     auto results        () -> const vvThScalar;
 
     auto TPpairs        () -> const vvd;
+    auto givenTPpairs   () -> const vvd;
     auto Temperatures   () -> const std::vector <double>;
     auto Pressures      () -> const std::vector <double>;
     auto properties     () -> const vstr;
-- 
2.43.0


From cd72ff9c2242ed7dbfca4188e0107e1c5aeba44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:29 +0000
Subject: [PATCH 38/69] fix: a property that is not calculated does not shift
 the values of the other properties

---
 ThermoFun/Batch/ThermoBatch.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ThermoFun/Batch/ThermoBatch.cpp b/ThermoFun/Batch/ThermoBatch.cpp
index ee8d27d..c8e910d 100644
--- a/ThermoFun/Batch/ThermoBatch.cpp
+++ b/ThermoFun/Batch/ThermoBatch.cpp
@@ -187,6 +187,7 @@ struct ThermoBatch::Impl
         vThScalar resultsSubst;
         for( auto name : properties)
         {
+            const auto size = resultsSubst.size();
             if (name == "gibbs_energy")       {resultsSubst.push_back(tps.gibbs_energy);}
             if (name == "helmholtz_energy")   {resultsSubst.push_back(tps.helmholtz_energy);}
             if (name == "internal_energy")    {resultsSubst.push_back(tps.internal_energy);}
@@ -195,6 +196,8 @@ struct ThermoBatch::Impl
             if (name == "volume")             {resultsSubst.push_back(tps.volume);}
             if (name == "heat_capacity_cp")   {resultsSubst.push_back(tps.heat_capacity_cp);}
             if (name == "heat_capacity_cv")   {resultsSubst.push_back(tps.heat_capacity_cv);}
+            // a property that was not calculated is not defined
+            if (resultsSubst.size() == size)                {resultsSubst.push_back(Reaktoro_::ThermoScalar());}
         }
         return resultsSubst;
     }
@@ -204,6 +207,7 @@ struct ThermoBatch::Impl
         vThScalar resultsSolvent;
         for( auto name : properties)
         {
+            const auto size = resultsSolvent.size();
             if (name == "density")        {resultsSolvent.push_back(ps.density);}
             if (name == "densityT")       {resultsSolvent.push_back(ps.densityT);}
             if (name == "densityP")       {resultsSolvent.push_back(ps.densityP);}
@@ -226,6 +230,8 @@ struct ThermoBatch::Impl
             if (name == "bornN")          {resultsSolvent.push_back(eps.bornN);}
             if (name == "bornU")          {resultsSolvent.push_back(eps.bornU);}
             if (name == "bornX")          {resultsSolvent.push_back(eps.bornX);}
+            // a property that was not calculated is not defined
+            if (resultsSolvent.size() == size)                {resultsSolvent.push_back(Reaktoro_::ThermoScalar());}
         }
         return resultsSolvent;
     }
@@ -235,6 +241,7 @@ struct ThermoBatch::Impl
         vThScalar resultsReac;
         for( auto name : properties)
         {
+            const auto size = resultsReac.size();
             if (name == "reaction_gibbs_energy")       {resultsReac.push_back(tpr.reaction_gibbs_energy);}
             if (name == "reaction_helmholtz_energy")   {resultsReac.push_back(tpr.reaction_helmholtz_energy);}
             if (name == "reaction_internal_energy")    {resultsReac.push_back(tpr.reaction_internal_energy);}
@@ -245,6 +252,8 @@ struct ThermoBatch::Impl
             if (name == "reaction_heat_capacity_cv")   {resultsReac.push_back(tpr.reaction_heat_capacity_cv);}
             if (name == "logKr")                       {resultsReac.push_back(tpr.log_equilibrium_constant);}
             if (name == "lnKr")                        {resultsReac.push_back(tpr.ln_equilibrium_constant);}
+            // a property that was not calculated is not defined
+            if (resultsReac.size() == size)                {resultsReac.push_back(Reaktoro_::ThermoScalar());}
         }
         return resultsReac;
     }
-- 
2.43.0


From 6270fcaf5503d636b468745866baeeaebdc2e50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:31 +0000
Subject: [PATCH 39/69] fix: an output keeps the results of its own calculation

---
 ThermoFun/Batch/OutputBatch.cpp |  2 +-
 ThermoFun/Batch/ThermoBatch.cpp | 27 +++++++++++++++++----------
 ThermoFun/Batch/ThermoBatch.h   |  3 +++
 3 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/ThermoFun/Batch/OutputBatch.cpp b/ThermoFun/Batch/OutputBatch.cpp
index 3f12676..17976b0 100644
--- a/ThermoFun/Batch/OutputBatch.cpp
+++ b/ThermoFun/Batch/OutputBatch.cpp
@@ -18,7 +18,7 @@ struct Output::Impl
     std::ofstream                       fProperties;
 
     Impl(const ThermoBatch& batch_)
-    : api(ThermoBatch(batch_))
+    : api(batch_.snapshot())
     {}
 
 };
diff --git a/ThermoFun/Batch/ThermoBatch.cpp b/ThermoFun/Batch/ThermoBatch.cpp
index c8e910d..b9c6309 100644
--- a/ThermoFun/Batch/ThermoBatch.cpp
+++ b/ThermoFun/Batch/ThermoBatch.cpp
@@ -21,7 +21,7 @@ enum Calculation {forSUBSTANCE, forREACTION, forSOLVENT};
 struct ThermoBatch::Impl
 {
     /// The thermo instance
-    ThermoEngine                        thermo;
+    std::shared_ptr<ThermoEngine>       thermo;
 
     BatchPreferences                    outSettings;
 
@@ -52,15 +52,15 @@ struct ThermoBatch::Impl
 
 
     Impl(const Database& database)
-    : thermo(ThermoEngine(database))
+    : thermo(std::make_shared<ThermoEngine>(database))
     {}
 
     Impl(std::string filename)
-    : thermo(filename)
+    : thermo(std::make_shared<ThermoEngine>(filename))
     {}
 
     Impl(const ThermoEngine& engine)
-    : thermo(engine)
+    : thermo(std::make_shared<ThermoEngine>(engine))
     {}
 
     // clear functions
@@ -328,21 +328,21 @@ struct ThermoBatch::Impl
     // Calculate functions
     auto calculateSubstProp( double T, double &P, std::string symbol, unsigned index ) -> void
     {
-            results[index] = selectResultsSubst(thermo.thermoPropertiesSubstance(T, P, symbol));
+            results[index] = selectResultsSubst(thermo->thermoPropertiesSubstance(T, P, symbol));
     }
 
     auto calculateReactProp( double T, double &P, std::string symbol, unsigned index ) -> void
     {
         if (outSettings.reactionPropertiesFromReactants)
-            results[index] = selectResultsReact(thermo.thermoPropertiesReactionFromReactants(T, P, symbol));
+            results[index] = selectResultsReact(thermo->thermoPropertiesReactionFromReactants(T, P, symbol));
         else
-            results[index] = selectResultsReact(thermo.thermoPropertiesReaction(T, P, symbol));
+            results[index] = selectResultsReact(thermo->thermoPropertiesReaction(T, P, symbol));
     }
 
     auto calculateSolventProp( double T, double &P, std::string symbol, unsigned index ) -> void
     {
-        results[index] = selectResultsSolvent(thermo.propertiesSolvent(T, P, symbol),
-                                              thermo.electroPropertiesSolvent(T, P, symbol));
+        results[index] = selectResultsSolvent(thermo->propertiesSolvent(T, P, symbol),
+                                              thermo->electroPropertiesSolvent(T, P, symbol));
     }
 };
 
@@ -570,7 +570,7 @@ const BatchPreferences& ThermoBatch::preferences() const {
 
 auto ThermoBatch::setSolventSymbol(const std::string solventSymbol) -> void
 {
-    pimpl->thermo.setSolventSymbol(solventSymbol);
+    pimpl->thermo->setSolventSymbol(solventSymbol);
 }
 
 auto ThermoBatch::setTemperatureIncrement (const double& Tmin, const double& Tmax, const double& Tstep) -> void
@@ -587,6 +587,13 @@ auto ThermoBatch::setPressureIncrement (const double& Pmin, const double& Pmax,
 }
 
 // Private
+auto ThermoBatch::snapshot() const -> ThermoBatch
+{
+    ThermoBatch copy(*this);
+    copy.pimpl = std::make_shared<Impl>(*pimpl);
+    return copy;
+}
+
 // get functions
 auto ThermoBatch::symbols() -> const vstr
 {
diff --git a/ThermoFun/Batch/ThermoBatch.h b/ThermoFun/Batch/ThermoBatch.h
index f7fe38b..956dc51 100644
--- a/ThermoFun/Batch/ThermoBatch.h
+++ b/ThermoFun/Batch/ThermoBatch.h
@@ -153,6 +153,9 @@ private:
     struct Impl;
     std::shared_ptr<Impl> pimpl;
 
+    /// a batch with the present settings and results of this one, not changed by its next calculations
+    auto snapshot       () const -> ThermoBatch;
+
     // Substances
     auto symbols        () -> const vstr;
     auto results        () -> const vvThScalar;
-- 
2.43.0


From e71737d58b10a75f14b1bd0b5c2cef01154d383e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:32 +0000
Subject: [PATCH 40/69] fix: increments that never reach the maximum are
 reported instead of looping without end

---
 ThermoFun/Batch/ThermoBatch.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ThermoFun/Batch/ThermoBatch.cpp b/ThermoFun/Batch/ThermoBatch.cpp
index b9c6309..2737ad9 100644
--- a/ThermoFun/Batch/ThermoBatch.cpp
+++ b/ThermoFun/Batch/ThermoBatch.cpp
@@ -3,6 +3,7 @@
 // C++ includes
 #include <algorithm>
 #include <fstream>
+#include <stdexcept>
 // ThermoFun includes
 #include "ThermoProperties.h"
 #include "Database.h"
@@ -151,6 +152,9 @@ struct ThermoBatch::Impl
     auto addTPpairs (const double &Tmin, const double &Tmax, const double &Tstep,
                      const double &Pmin, const double &Pmax, const double &Pstep) -> void
     {
+        if ((Tmin < Tmax && !(Tstep > 0)) || (Pmin < Pmax && !(Pstep > 0)))
+            throw std::invalid_argument("The temperature and pressure increments must be positive.");
+
         clearTPpairs();
         double t = Tmin-Tstep;
         double p = Pmin-Pstep;
-- 
2.43.0


From bd2d3674ad16f34f8163a9084cff02a8dba7728e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:29 +0000
Subject: [PATCH 41/69] fix: gas models read only the parameters a record has
 and report errors as exceptions

---
 ThermoFun/Substances/Gases/GasCGF.cpp  | 17 +++++++++--------
 ThermoFun/Substances/Gases/GasCORK.cpp | 16 ++++++++--------
 ThermoFun/Substances/Gases/GasPR78.cpp | 17 +++++++++--------
 ThermoFun/Substances/Gases/GasPRSV.cpp | 17 +++++++++--------
 ThermoFun/Substances/Gases/GasSRK.cpp  | 17 +++++++++--------
 ThermoFun/Substances/Gases/GasSTP.cpp  | 23 +++++++++++++----------
 ThermoFun/Substances/Gases/verror.h    |  8 +++++++-
 7 files changed, 64 insertions(+), 51 deletions(-)

diff --git a/ThermoFun/Substances/Gases/GasCGF.cpp b/ThermoFun/Substances/Gases/GasCGF.cpp
index df3ab15..17d40b6 100644
--- a/ThermoFun/Substances/Gases/GasCGF.cpp
+++ b/ThermoFun/Substances/Gases/GasCGF.cpp
@@ -1,5 +1,6 @@
 #include "Substances/Gases/GasCGF.h"
 #include "Substances/Gases/s_solmod_.h"
+#include "Common/Exception.h"
 #include "Substance.h"
 #include "ThermoProperties.h"
 #include "ThermoParameters.h"
@@ -8,18 +9,18 @@ namespace ThermoFun {
 
 auto thermoPropertiesGasCGF(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar, Substance subst, ThermoPropertiesSubstance tps) -> ThermoPropertiesSubstance
 {
-    double FugProps[6];
+    double FugProps[6] = {};
     if (Pbar.val == 0.0)
         Pbar += 1e-5;
     solmod::TCGFcalc myCGF( 1, (Pbar.val), (TK.val) );
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    double * CPg = new double[7];
-    for (unsigned int i = 0; i < 7; i++)
-    {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
-    }
+    auto intervals = subst.thermoParameters().temperature_intervals;
+    auto CPg = subst.thermoParameters().critical_parameters;
+    if (CPg.empty() || intervals.empty() || intervals[0].empty())
+        errorModelParameters("gas model", subst.symbol(), __LINE__, __FILE__);
+    double TClow = intervals[0][0];
+    CPg.resize(12, 0.0); // coefficients not given are zero
 
-    myCGF.CGcalcFugPure( (TClow/*+273.15*/), (CPg), FugProps );
+    myCGF.CGcalcFugPure( (TClow/*+273.15*/), CPg.data(), FugProps );
 
     // increment thermodynamic properties
     tps.gibbs_energy += R_CONSTANT * (TK) * log( FugProps[0] );
diff --git a/ThermoFun/Substances/Gases/GasCORK.cpp b/ThermoFun/Substances/Gases/GasCORK.cpp
index 58d50bb..52a30bb 100644
--- a/ThermoFun/Substances/Gases/GasCORK.cpp
+++ b/ThermoFun/Substances/Gases/GasCORK.cpp
@@ -1,6 +1,6 @@
-#include <array>
 #include "Substances/Gases/GasCORK.h"
 #include "Substances/Gases/s_solmod_.h"
+#include "Common/Exception.h"
 #include "Substance.h"
 #include "ThermoProperties.h"
 #include "ThermoParameters.h"
@@ -9,7 +9,7 @@ namespace ThermoFun {
 
 auto thermoPropertiesGasCORK(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar, Substance subst, ThermoPropertiesSubstance tps) -> ThermoPropertiesSubstance
 {
-    double FugProps[6];
+    double FugProps[6] = {};
     char Eos_Code = 'G';
     if (Pbar.val == 0.0)
         Pbar += 1e-5;
@@ -18,12 +18,12 @@ auto thermoPropertiesGasCORK(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar
     if (subst.formula() == "H2O") Eos_Code = 'V';
 
     solmod::TCORKcalc myCORK( 1, Pbar.val, (TK.val), Eos_Code );  // modified 05.11.2010 (TW)
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    std::array<double, 7> CPg;
-    for (unsigned int i = 0; i < 7; i++)
-    {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
-    }
+    auto intervals = subst.thermoParameters().temperature_intervals;
+    auto CPg = subst.thermoParameters().critical_parameters;
+    if (CPg.empty() || intervals.empty() || intervals[0].empty())
+        errorModelParameters("gas model", subst.symbol(), __LINE__, __FILE__);
+    double TClow = intervals[0][0];
+    CPg.resize(7, 0.0); // coefficients not given are zero
 
     myCORK.CORKCalcFugPure( (TClow/*+273.15*/), CPg.data(), FugProps );
 
diff --git a/ThermoFun/Substances/Gases/GasPR78.cpp b/ThermoFun/Substances/Gases/GasPR78.cpp
index a8c93cd..3b700c2 100644
--- a/ThermoFun/Substances/Gases/GasPR78.cpp
+++ b/ThermoFun/Substances/Gases/GasPR78.cpp
@@ -1,5 +1,6 @@
 #include "Substances/Gases/GasPR78.h"
 #include "Substances/Gases/s_solmod_.h"
+#include "Common/Exception.h"
 #include "Substance.h"
 #include "ThermoProperties.h"
 #include "ThermoParameters.h"
@@ -8,18 +9,18 @@ namespace ThermoFun {
 
 auto thermoPropertiesGasPR78(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar, Substance subst, ThermoPropertiesSubstance tps) -> ThermoPropertiesSubstance
 {
-    double FugProps[6];
+    double FugProps[6] = {};
     if (Pbar.val == 0.0)
         Pbar += 1e-5;
     solmod::TPR78calc myPR78( 1, (Pbar.val), (TK.val) );
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    double * CPg = new double[7];
-    for (unsigned int i = 0; i < 7; i++)
-    {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
-    }
+    auto intervals = subst.thermoParameters().temperature_intervals;
+    auto CPg = subst.thermoParameters().critical_parameters;
+    if (CPg.empty() || intervals.empty() || intervals[0].empty())
+        errorModelParameters("gas model", subst.symbol(), __LINE__, __FILE__);
+    double TClow = intervals[0][0];
+    CPg.resize(7, 0.0); // coefficients not given are zero
 
-    myPR78.PR78CalcFugPure( (TClow/*+273.15*/), (CPg), FugProps );
+    myPR78.PR78CalcFugPure( (TClow/*+273.15*/), CPg.data(), FugProps );
 
     // increment thermodynamic properties
     tps.gibbs_energy += R_CONSTANT * (TK) * log( FugProps[0] );
diff --git a/ThermoFun/Substances/Gases/GasPRSV.cpp b/ThermoFun/Substances/Gases/GasPRSV.cpp
index 86026a8..cb99e47 100644
--- a/ThermoFun/Substances/Gases/GasPRSV.cpp
+++ b/ThermoFun/Substances/Gases/GasPRSV.cpp
@@ -1,5 +1,6 @@
 #include "Substances/Gases/GasPRSV.h"
 #include "Substances/Gases/s_solmod_.h"
+#include "Common/Exception.h"
 #include "Substance.h"
 #include "ThermoProperties.h"
 #include "ThermoParameters.h"
@@ -8,18 +9,18 @@ namespace ThermoFun {
 
 auto thermoPropertiesGasPRSV(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar, Substance subst, ThermoPropertiesSubstance tps) -> ThermoPropertiesSubstance
 {
-    double FugProps[6];
+    double FugProps[6] = {};
     if (Pbar.val == 0.0)
         Pbar += 1e-5;
     solmod::TPRSVcalc myPRSV( 1, (Pbar.val), (TK.val) );
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    double * CPg = new double[7];
-    for (unsigned int i = 0; i < 7; i++)
-    {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
-    }
+    auto intervals = subst.thermoParameters().temperature_intervals;
+    auto CPg = subst.thermoParameters().critical_parameters;
+    if (CPg.empty() || intervals.empty() || intervals[0].empty())
+        errorModelParameters("gas model", subst.symbol(), __LINE__, __FILE__);
+    double TClow = intervals[0][0];
+    CPg.resize(7, 0.0); // coefficients not given are zero
 
-    myPRSV.PRSVCalcFugPure( (TClow/*+273.15*/), (CPg), FugProps );
+    myPRSV.PRSVCalcFugPure( (TClow/*+273.15*/), CPg.data(), FugProps );
 
     // increment thermodynamic properties
     tps.gibbs_energy += R_CONSTANT * (TK) * log( FugProps[0] );
diff --git a/ThermoFun/Substances/Gases/GasSRK.cpp b/ThermoFun/Substances/Gases/GasSRK.cpp
index 48afa27..431f6ae 100644
--- a/ThermoFun/Substances/Gases/GasSRK.cpp
+++ b/ThermoFun/Substances/Gases/GasSRK.cpp
@@ -1,5 +1,6 @@
 #include "Substances/Gases/GasSRK.h"
 #include "Substances/Gases/s_solmod_.h"
+#include "Common/Exception.h"
 #include "Substance.h"
 #include "ThermoProperties.h"
 #include "ThermoParameters.h"
@@ -8,18 +9,18 @@ namespace ThermoFun {
 
 auto thermoPropertiesGasSRK(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar, Substance subst, ThermoPropertiesSubstance tps) -> ThermoPropertiesSubstance
 {
-    double FugProps[6];
+    double FugProps[6] = {};
     if (Pbar.val == 0.0)
         Pbar += 1e-5;
     solmod::TSRKcalc mySRK( 1, (Pbar.val), (TK.val) );
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    double * CPg = new double[7];
-    for (unsigned int i = 0; i < 7; i++)
-    {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
-    }
+    auto intervals = subst.thermoParameters().temperature_intervals;
+    auto CPg = subst.thermoParameters().critical_parameters;
+    if (CPg.empty() || intervals.empty() || intervals[0].empty())
+        errorModelParameters("gas model", subst.symbol(), __LINE__, __FILE__);
+    double TClow = intervals[0][0];
+    CPg.resize(7, 0.0); // coefficients not given are zero
 
-    mySRK.SRKCalcFugPure( (TClow/*+273.15*/), (CPg), FugProps );
+    mySRK.SRKCalcFugPure( (TClow/*+273.15*/), CPg.data(), FugProps );
 
     // increment thermodynamic properties
     tps.gibbs_energy += R_CONSTANT * (TK) * log( FugProps[0] );
diff --git a/ThermoFun/Substances/Gases/GasSTP.cpp b/ThermoFun/Substances/Gases/GasSTP.cpp
index f8bac3a..4954cb0 100644
--- a/ThermoFun/Substances/Gases/GasSTP.cpp
+++ b/ThermoFun/Substances/Gases/GasSTP.cpp
@@ -1,5 +1,6 @@
 #include "Substances/Gases/GasSTP.h"
 #include "Substances/Gases/s_solmod_.h"
+#include "Common/Exception.h"
 #include "Substance.h"
 #include "ThermoProperties.h"
 #include "ThermoParameters.h"
@@ -8,23 +9,25 @@ namespace ThermoFun {
 
 auto thermoPropertiesGasSTP(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar, Substance subst, ThermoPropertiesSubstance tps) -> ThermoPropertiesSubstance
 {
-    double FugProps[6];
-    char Eos_Code;
+    double FugProps[6] = {};
+    char Eos_Code = 0;
     if (Pbar.val == 0.0)
         Pbar += 1e-5;
 
     if (subst.formula() == "CO2") Eos_Code = 'C';
     if (subst.formula() == "H2O") Eos_Code = 'V';
+    if (Eos_Code == 0) // the model is for CO2 and H2O
+        errorModelParameters("Sterner-Pitzer model", subst.symbol(), __LINE__, __FILE__);
 
     solmod::TSTPcalc mySTP( 1, Pbar.val, (TK.val), Eos_Code );  // modified 05.11.2010 (TW)
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    double * CPg = new double[7];
-    for (unsigned int i = 0; i < 7; i++)
-    {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
-    }
-
-    mySTP.STPCalcFugPure( (TClow/*+273.15*/), (CPg), FugProps );
+    auto intervals = subst.thermoParameters().temperature_intervals;
+    auto CPg = subst.thermoParameters().critical_parameters;
+    if (CPg.empty() || intervals.empty() || intervals[0].empty())
+        errorModelParameters("gas model", subst.symbol(), __LINE__, __FILE__);
+    double TClow = intervals[0][0];
+    CPg.resize(7, 0.0); // coefficients not given are zero
+
+    mySTP.STPCalcFugPure( (TClow/*+273.15*/), CPg.data(), FugProps );
 
     // increment thermodynamic properties
     tps.gibbs_energy += R_CONSTANT * (TK) * log( FugProps[0] );
diff --git a/ThermoFun/Substances/Gases/verror.h b/ThermoFun/Substances/Gases/verror.h
index 8d53b4c..f84b4f2 100644
--- a/ThermoFun/Substances/Gases/verror.h
+++ b/ThermoFun/Substances/Gases/verror.h
@@ -25,6 +25,7 @@
 #ifndef _verror_h_
 #define _verror_h_
 
+#include <exception>
 #include <string>
 
 static const size_t npos = std::string::npos;
@@ -34,7 +35,7 @@ static const size_t npos = std::string::npos;
 void strip(std::string& str);
 
 
-struct TError
+struct TError : public std::exception
 {
     std::string mess;
     std::string title;
@@ -49,6 +50,11 @@ struct TError
     virtual ~TError()
     {}
 
+    const char* what() const noexcept override
+    {
+        return mess.c_str();
+    }
+
 };
 
 
-- 
2.43.0


From 4f694ac56aa505b3ab37a65a6dc771c053dd7abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:29 +0000
Subject: [PATCH 42/69] fix: records with too few HKF or Akinfiev-Diamond
 parameters are an error

---
 ThermoFun/Substances/Solute/SoluteADgems.cpp      | 2 +-
 ThermoFun/Substances/Solute/SoluteHKFgems.cpp     | 4 +++-
 ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp | 4 +++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/Substances/Solute/SoluteADgems.cpp b/ThermoFun/Substances/Solute/SoluteADgems.cpp
index 80d9e1a..ecf8af1 100644
--- a/ThermoFun/Substances/Solute/SoluteADgems.cpp
+++ b/ThermoFun/Substances/Solute/SoluteADgems.cpp
@@ -39,7 +39,7 @@ auto thermoPropertiesAqSoluteAD(Reaktoro_::Temperature Tk, Reaktoro_::Pressure P
 
     const auto ADparam = subst.thermoParameters().Cp_nonElectrolyte_coeff;
 
-    if (ADparam.size() == 0)
+    if (ADparam.size() < 3)
     {
         Exception exception;
         exception.error << "Error in Akinfiev Diamond EOS";
diff --git a/ThermoFun/Substances/Solute/SoluteHKFgems.cpp b/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
index 1cc3a3e..f503344 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
@@ -26,7 +26,7 @@ auto thermoPropertiesAqSoluteHKFgems(Reaktoro_::Temperature TC, Reaktoro_::Press
 
     auto TK = Reaktoro_::Temperature (TC.val+C_to_K);
 
-    if (hkf.size() == 0)
+    if (hkf.size() < 7)
     {
         Exception exception;
         exception.error << "Error in HKFgems EOS";
@@ -256,6 +256,8 @@ auto omeg92(FunctionG g, Substance species) -> ElectroPropertiesSubstance
     const auto chg = species.charge();
 
     auto hkf = species.thermoParameters().HKF_parameters;
+    if (hkf.size() < 7)
+        errorModelParameters("HKF", species.symbol(), __LINE__, __FILE__);
     const auto wref = hkf[6] /*hkf.wref*/;
 
     ElectroPropertiesSubstance eps;
diff --git a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
index 52f9f03..d86e833 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
@@ -48,7 +48,7 @@ auto thermoPropertiesAqSoluteHKFreaktoro(Reaktoro_::Temperature TK, Reaktoro_::P
     auto hkf = subst.thermoParameters().HKF_parameters;
     auto refProp = subst.thermoReferenceProperties();
 
-    if (hkf.size() == 0)
+    if (hkf.size() < 7)
     {
         Exception exception;
         exception.error << "Error in HKFreaktoro EOS";
@@ -151,6 +151,8 @@ auto speciesElectroStateHKF(const FunctionG& g, Substance species) -> ElectroPro
 {
     // Get the HKF thermodynamic parameters of the aqueous species
     auto hkf = species.thermoParameters().HKF_parameters;
+    if (hkf.size() < 7)
+        errorModelParameters("HKF", species.symbol(), __LINE__, __FILE__);
 
     // The species electro instance to be calculated
     ElectroPropertiesSubstance se;
-- 
2.43.0


From 367d0298a568f7ba2eab131bd273b5c37cc65aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:15 +0000
Subject: [PATCH 43/69] fix: formulas no longer use the data of elements that
 were replaced

---
 ThermoFun/Database.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ThermoFun/Database.cpp b/ThermoFun/Database.cpp
index 60a9d07..72c9d8a 100644
--- a/ThermoFun/Database.cpp
+++ b/ThermoFun/Database.cpp
@@ -79,6 +79,7 @@ struct Database::Impl
     /// The elements data for the formula parser, with the present data of the elements in the database
     auto dbElements() -> const ChemicalFun::DBElements&
     {
+        all_elements = ChemicalFun::DBElements(); // without elements that were replaced by ones of another class or isotope
         setDBElements(elements_map);
         return all_elements;
     }
-- 
2.43.0


From 19855998de4bb799874ac89a25ce8221b3a44db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:37 +0000
Subject: [PATCH 44/69] fix: increments no longer add a point beyond the
 maximum because of rounding

---
 ThermoFun/Batch/ThermoBatch.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Batch/ThermoBatch.cpp b/ThermoFun/Batch/ThermoBatch.cpp
index 2737ad9..2297db7 100644
--- a/ThermoFun/Batch/ThermoBatch.cpp
+++ b/ThermoFun/Batch/ThermoBatch.cpp
@@ -165,13 +165,13 @@ struct ThermoBatch::Impl
         {
             p = p + Pstep;
             pressures.push_back(p);
-        } while (p < Pmax);
+        } while (p < Pmax - 1e-9*Pstep); // the sum of the steps is not exact
 
         do
         {
             t = t + Tstep;
             temperatures.push_back(t);
-        } while (t < Tmax);
+        } while (t < Tmax - 1e-9*Tstep);
 
         addTPpairs(temperatures, pressures);
     }
-- 
2.43.0


From f1b8f13d23d251aaeed78fb12e47ee95e52f2a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:37 +0000
Subject: [PATCH 45/69] fix: an output that fails does not keep the next one
 from writing its file

---
 ThermoFun/Batch/OutputBatch.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ThermoFun/Batch/OutputBatch.cpp b/ThermoFun/Batch/OutputBatch.cpp
index 17976b0..ecea6d7 100644
--- a/ThermoFun/Batch/OutputBatch.cpp
+++ b/ThermoFun/Batch/OutputBatch.cpp
@@ -43,6 +43,7 @@ auto find_and_replace(std::string source, std::string const& find, std::string c
 
 auto Output::toCSV(std::string filename) -> void
 {
+    pimpl->fProperties = std::ofstream(); // an output that failed may have left its file open
     pimpl->fProperties.open( filename, std::ios::trunc );
 
     pimpl->fProperties << CSVHeader() << std::endl;
@@ -54,6 +55,7 @@ auto Output::toCSV(std::string filename) -> void
 
 auto Output::toCSVTransposed(std::string filename) -> void
 {
+    pimpl->fProperties = std::ofstream(); // an output that failed may have left its file open
     pimpl->fProperties.open( filename, std::ios::trunc );
 
     pimpl->fProperties << CSVHeaderTransposed() << std::endl;
@@ -68,6 +70,7 @@ auto Output::toCSVPropertyGrid(std::string filename) -> void
     auto properties = pimpl->api.properties();
     for (size_t i = 0; i<properties.size(); i++)
     {
+        pimpl->fProperties = std::ofstream(); // an output that failed may have left its file open
         pimpl->fProperties.open(std::string(properties[i]+"_"+filename), std::ios::trunc );
 
         pimpl->fProperties << CSVHeaderPropertyGrid() << std::endl;
-- 
2.43.0


From 28bbf144fa27fe59eee4ca6bb7d781a155459f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:22 +0000
Subject: [PATCH 46/69] fix: internal energy of aqueous species (HKF) mixes
 calories with cm3*bar

---
 ThermoFun/Substances/Solute/SoluteHKFgems.cpp     | 2 +-
 ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Substances/Solute/SoluteHKFgems.cpp b/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
index f503344..6eeb8f8 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
@@ -110,7 +110,7 @@ auto thermoPropertiesAqSoluteHKFgems(Reaktoro_::Temperature TC, Reaktoro_::Press
     // GZterm = W * (-Z - 1.0e0);
 
 
-    auto U = H - Pbar*V;
+    auto U = H - Pbar*V/0.4184004e2; // cm3*bar/mol -> cal/mol
 
     auto A = U - TK*S;
 
diff --git a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
index d86e833..c36c2ee 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
@@ -114,7 +114,7 @@ auto thermoPropertiesAqSoluteHKFreaktoro(Reaktoro_::Temperature TK, Reaktoro_::P
     auto Cp = c1 + c2/pow(TK - theta, 2) - (2*TK/pow(TK - theta, 3))*(a3*(Pbar - Pr)
         + a4*log((psi + Pbar)/(psi + Pr))) + w*TK*X + 2*TK*Y*wT + TK*(Z + 1)*wTT;
 
-    auto U = H - Pbar*V;
+    auto U = H - Pbar*V/0.4184004e2; // cm3*bar/mol -> cal/mol
 
     auto A = U - TK*S;
 
-- 
2.43.0


From 3a315f321da59b73f635db3ac07d968390378d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:22 +0000
Subject: [PATCH 47/69] fix: temperature terms of the Berman (1988) volume
 equation

---
 ThermoFun/Substances/Solids/SolidBerman88.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Substances/Solids/SolidBerman88.cpp b/ThermoFun/Substances/Solids/SolidBerman88.cpp
index b45706c..429cf8f 100644
--- a/ThermoFun/Substances/Solids/SolidBerman88.cpp
+++ b/ThermoFun/Substances/Solids/SolidBerman88.cpp
@@ -13,7 +13,7 @@ auto thermoPropertiesMinBerman88(Reaktoro_::Temperature TK, Reaktoro_::Pressure
     auto Vst = subst.thermoReferenceProperties().volume; // j/bar
     auto T   = TK;
     auto P   = Pbar; // in bar
-    auto Ts2   = Tst*Tst;
+    auto Ts2   = (T-Tst)*(T-Tst);
 
     auto vc = subst.thermoParameters().volume_coeff;
 
@@ -38,8 +38,9 @@ auto thermoPropertiesMinBerman88(Reaktoro_::Temperature TK, Reaktoro_::Pressure
         tps.entropy      += ( - vc[0]*VP - vc[1]*VP*2.*(T-Tst) - vc[2]*VP*3*Ts2 );
         tps.gibbs_energy += ( vc[0]*(T-Tst)*VP + vc[1]*VP*Ts2 + vc[2]*VP*Ts2*(T-Tst) + vc[3]*VP*(P-Pst) / 2.
                             + vc[4]*VP*((P-Pst)*(P-Pst)) / 3. );
-        tps.enthalpy     += ( - vc[0]*Tst*VP - vc[1]*VP*(T + Tst)* (T-Tst) + vc[2]*VP*Ts2*(2.*T + Tst)
+        tps.enthalpy     += ( - vc[0]*Tst*VP - vc[1]*VP*(T + Tst)* (T-Tst) - vc[2]*VP*Ts2*(2.*T + Tst)
                             + vc[3]*VP*(P-Pst) / 2. + vc[4]*VP*((P-Pst)*(P-Pst)) / 3. );
+        tps.heat_capacity_cp += ( - T*VP*(vc[1]*2. + vc[2]*6.*(T-Tst)) );
         tps.internal_energy  = tps.enthalpy - Pbar*tps.volume;
         tps.helmholtz_energy = tps.internal_energy - TK*tps.entropy;
     }
-- 
2.43.0


From 5e8fea5f87ba01731cc7bee57a1c94e1d20d6c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:06 +0000
Subject: [PATCH 48/69] fix: excess volume of the Landau transition (Holland
 and Powell, 1998)

---
 ThermoFun/Substances/Solids/SolidHPLandau.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/Substances/Solids/SolidHPLandau.cpp b/ThermoFun/Substances/Solids/SolidHPLandau.cpp
index cd6790f..abdca04 100644
--- a/ThermoFun/Substances/Solids/SolidHPLandau.cpp
+++ b/ThermoFun/Substances/Solids/SolidHPLandau.cpp
@@ -69,15 +69,13 @@ auto thermoPropertiesHPLandau(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pba
         tps.gibbs_energy += ( smq - TK*Smax*pow(Q298,2.) + ivdp + Smax*((TK-Tcr)*pow(Qq_,2.) + Tcr*pow(Qq_,6.)/3.) );
         tps.entropy      += ( Smax * ( pow(Q298,2.) - pow(Qq_,2.) ) - idvdtdp );
         tps.enthalpy     += ( smq - Smax*Tcr*( pow(Qq_,2.) - pow(Qq_,6.)/3.) + ivdp - TK*idvdtdp );
-        tps.volume        = ( v_bis + 2.*Smax*(TK-Tcr)*Qq_*dQq_ - Smax*pow(Qq_,2.)*Vmax/Smax + Tcr*pow(Qq_,2.)*dQq_
-                              + Vmax/Smax*pow(Qq_,3.)/3. );  // in J/bar
+        tps.volume        = ( v_bis*pow((1.+4.*(Pbar/1000)/kT),-0.25) );  // in J/bar
     } else
     {
         tps.gibbs_energy += ( smq - TK*Smax*pow(Q298,2.) + ivdp + Smax*((TK-Tcr)*pow(Qq,2.) + Tcr*pow(Qq,6.)/3.) );
         tps.entropy      += ( Smax * ( pow(Q298,2.) - pow(Qq,2.) ) - idvdtdp );
         tps.enthalpy     += ( smq - Smax*Tcr*( pow(Qq,2.) - pow(Qq,6.)/3.) + ivdp - TK*idvdtdp );
-        tps.volume        = ( v_bis + 2.*Smax*(TK-Tcr)*Qq*dQq - Smax*pow(Qq,2.)*Vmax/Smax + Tcr*pow(Qq,2.)*dQq
-                              + Vmax/Smax*pow(Qq,3.)/3. );  // in J/bar
+        tps.volume        = ( v_bis*pow((1.+4.*(Pbar/1000)/kT),-0.25) - Vmax*pow(Qq,2.) + Vmax*pow(Qq,6.)/3. );  // in J/bar
     }
     if( TK<Tcr )  // Cp is corrected at subcritical T only
         tps.heat_capacity_cp += ( TK*Smax/(2.*sqrt(Tcr)*sqrt(Tcr-TK)) );
-- 
2.43.0


From 5929d239e1ba3330ff5e98b1753829d4af56bf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:06 +0000
Subject: [PATCH 49/69] fix: volume and entropy of the Birch-Murnaghan model
 (Gottschalk)

---
 ThermoFun/Substances/Solids/SolidBMGottschalk.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp b/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
index 09364f5..4077173 100644
--- a/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
+++ b/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
@@ -134,10 +134,10 @@ Reaktoro_::ThermoScalar vt, /*vpt,*/ a1, a2, a3, /*a4, a5,*/ kt00, kt0, dkdt, kp
     // calculate vdP (P-T correction of G ->  dG)
     dG = BM_IntVol(P, Pref, vt, vv, kt0, kp, kpp);
 
-    // calculate d(vdP)/dT (dS)
+    // calculate -d(vdP)/dT (dS)
     dGTplus = BM_IntVol(P,Pref,vtTplus,vTplus,kt0Tplus,kp,kppTplus);
     dGTminus = BM_IntVol(P,Pref,vtTminus,vTminus,kt0Tminus,kp,kppTminus);
-    dS = (dGTplus-dGTminus)/(2.*Tincr);
+    dS = -(dGTplus-dGTminus)/(2.*Tincr);
 
     // calculate dH
     dH = dG + T*dS;
@@ -158,19 +158,19 @@ auto thermoPropertiesMinBMGottschalk (Reaktoro_::Temperature TK, Reaktoro_::Pres
     auto T_Tst = T -Tst;
 
     auto BMc = subst.thermoParameters().volume_BirchM_coeff;
-    if (BMc.size() < 8)
+    if (BMc.size() < 9)
     {
         errorModelParameters("Birch M.", "BMGottschalk", __LINE__, __FILE__);
     }
 
-    if( (P_Pst != 0.0 || T_Tst != 0.) && BMc.size() >= 8 )
+    if( BMc.size() >= 9 )
     {
        Reaktoro_::ThermoScalar VV0, GG0, HH0, SS0, aC, aE;
 
        BirchMurnaghan( Pst, P, Tst, T, Vst*10., BMc,
                        VV0, aC, aE, GG0, HH0, SS0 );
        // increments to V, G, H, S
-       tps.volume += Vst+VV0/10.;    // fixed by KD on 22.11.04
+       tps.volume += VV0/10.;    // fixed by KD on 22.11.04
            // aW.twp->V += VV0/10.;
        tps.entropy      += SS0;
        tps.gibbs_energy += GG0;
-- 
2.43.0


From 4b0b3be9cbc1b72e890ac758e58245ece709fa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:47 +0000
Subject: [PATCH 50/69] fix: squares of the temperature when converting between
 logK(T) and Cp(T) coefficients

---
 ThermoFun/Reaction.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ThermoFun/Reaction.cpp b/ThermoFun/Reaction.cpp
index 06ce48e..3908df1 100644
--- a/ThermoFun/Reaction.cpp
+++ b/ThermoFun/Reaction.cpp
@@ -387,13 +387,13 @@ auto Reaction::convert_CpfT_to_logKfT() -> ThermoPropertiesReaction
     K_fT_Coeff[6] = -4.0*CpCoeff[3]/Rln10;
 
     // Calculation of Cpr and lgK at 25 C
-    auto Cpr  = CpCoeff[0] + CpCoeff[1]*TK + CpCoeff[2]/TK*TK + CpCoeff[3]/pow(TK,0.5) + CpCoeff[4]*TK*TK;
-    auto lgKr = K_fT_Coeff[0] + K_fT_Coeff[1]*TK + K_fT_Coeff[2]/TK + K_fT_Coeff[3]*log(TK) + K_fT_Coeff[4]/TK*TK +
+    auto Cpr  = CpCoeff[0] + CpCoeff[1]*TK + CpCoeff[2]/(TK*TK) + CpCoeff[3]/pow(TK,0.5) + CpCoeff[4]*TK*TK;
+    auto lgKr = K_fT_Coeff[0] + K_fT_Coeff[1]*TK + K_fT_Coeff[2]/TK + K_fT_Coeff[3]*log(TK) + K_fT_Coeff[4]/(TK*TK) +
                 K_fT_Coeff[5]*TK*TK + K_fT_Coeff[6]/pow(TK,0.5);
          Hr = Rln10 * ( K_fT_Coeff[1]*TK*TK - K_fT_Coeff[2] + K_fT_Coeff[3]*TK -
             2.0*K_fT_Coeff[4]/TK + 2.0*K_fT_Coeff[5]*TK*TK*TK - 0.5*K_fT_Coeff[6]*pow(TK,0.5) );
          Sr = Rln10 * ( K_fT_Coeff[0] + 2.0*K_fT_Coeff[1]*TK + K_fT_Coeff[3]*(1.0 + log(TK))
-            - K_fT_Coeff[4]/TK*TK + 3.0*K_fT_Coeff[5]*TK*TK + 0.5*K_fT_Coeff[6]/pow(TK,0.5) );
+            - K_fT_Coeff[4]/(TK*TK) + 3.0*K_fT_Coeff[5]*TK*TK + 0.5*K_fT_Coeff[6]/pow(TK,0.5) );
 
     auto th_param = thermoParameters();
     th_param.reaction_Cp_fT_coeff   = CpCoeff;
@@ -431,19 +431,19 @@ auto Reaction::convert_logKfT_toCpfT(/*MethodCorrT_Thrift::type methodT*/) -> Th
     case MethodCorrT_Thrift::type::CTM_LGK:
        /* Calc lgK, Hr and Sr */
         CpCoeff.resize(5);
-        lgKr = K_fT_Coeff[0] + K_fT_Coeff[1]*TK + K_fT_Coeff[2]/TK + K_fT_Coeff[3]*log(TK) + K_fT_Coeff[4]/TK*TK +
+        lgKr = K_fT_Coeff[0] + K_fT_Coeff[1]*TK + K_fT_Coeff[2]/TK + K_fT_Coeff[3]*log(TK) + K_fT_Coeff[4]/(TK*TK) +
                 K_fT_Coeff[5]*TK*TK + K_fT_Coeff[6]/pow(TK,0.5);
         Hr = Rln10 * ( K_fT_Coeff[1]*TK*TK - K_fT_Coeff[2] + K_fT_Coeff[3]*TK -
                 2.0*K_fT_Coeff[4]/TK + 2.0*K_fT_Coeff[5]*TK*TK*TK - 0.5*K_fT_Coeff[6]*pow(TK,0.5) );
         Sr = Rln10 * ( K_fT_Coeff[0] + 2.0*K_fT_Coeff[1]*TK + K_fT_Coeff[3]*(1.0 + log(TK))
-                - K_fT_Coeff[4]/TK*TK + 3.0*K_fT_Coeff[5]*TK*TK + 0.5*K_fT_Coeff[6]/pow(TK,0.5) );
+                - K_fT_Coeff[4]/(TK*TK) + 3.0*K_fT_Coeff[5]*TK*TK + 0.5*K_fT_Coeff[6]/pow(TK,0.5) );
 
         CpCoeff[0] = Rln10 * K_fT_Coeff[3];
         CpCoeff[1] = Rln10 * 2.0 * K_fT_Coeff[1];
         CpCoeff[2] = Rln10 * 2.0 * K_fT_Coeff[4];
         CpCoeff[3] = -Rln10 * 0.25 * K_fT_Coeff[6];
         CpCoeff[4] = Rln10 * 6.0 * K_fT_Coeff[5];
-        Cpr   = CpCoeff[0] + CpCoeff[1]*TK + CpCoeff[2]/TK*TK + CpCoeff[4]*TK*TK + CpCoeff[3]/pow(TK,0.5);
+        Cpr   = CpCoeff[0] + CpCoeff[1]*TK + CpCoeff[2]/(TK*TK) + CpCoeff[4]*TK*TK + CpCoeff[3]/pow(TK,0.5);
 
         ref_prop.reaction_entropy = Sr;  // In this case, everything will be inserted
         ref_prop.reaction_enthalpy = Hr;
-- 
2.43.0


From a09568fb3f311f15366834ff3477fdb853a29fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:47 +0000
Subject: [PATCH 51/69] fix: log K and Gibbs energy of a reaction at the
 reference state complete each other

---
 ThermoFun/Reactions/LogK_function_of_T.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ThermoFun/Reactions/LogK_function_of_T.cpp b/ThermoFun/Reactions/LogK_function_of_T.cpp
index 9373ab8..fc7ab01 100644
--- a/ThermoFun/Reactions/LogK_function_of_T.cpp
+++ b/ThermoFun/Reactions/LogK_function_of_T.cpp
@@ -72,7 +72,13 @@ auto thermoPropertiesReaction_LogK_fT(Reaktoro_::Temperature TK, Reaktoro_::Pres
 
     const bool has_dHr  = dHr.sta.first  != Status::notdefined;
     const bool has_dSr  = dSr.sta.first  != Status::notdefined;
+    const bool has_lgK = lgK.sta.first != Status::notdefined;
+
+    if(has_lgK && dGr.sta.first == Status::notdefined)
+        dGr = lgK * (-Rln10 * Tr);
     const bool has_dGr = dGr.sta.first != Status::notdefined;
+    if(has_dGr && !has_lgK)
+        lgK = dGr / (-Rln10 * Tr);
 
     if(has_dSr && has_dGr && !has_dHr)
         dHr = dGr + dSr * Tr;
-- 
2.43.0


From a04d4ff28c470c757eb03e8429ce30eea654bfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:47 +0000
Subject: [PATCH 52/69] fix: one- and two-term extrapolations return the
 entropy, enthalpy and heat capacity of their log K

---
 ThermoFun/Reactions/LogK_function_of_T.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ThermoFun/Reactions/LogK_function_of_T.cpp b/ThermoFun/Reactions/LogK_function_of_T.cpp
index fc7ab01..f97b04d 100644
--- a/ThermoFun/Reactions/LogK_function_of_T.cpp
+++ b/ThermoFun/Reactions/LogK_function_of_T.cpp
@@ -93,20 +93,21 @@ auto thermoPropertiesReaction_LogK_fT(Reaktoro_::Temperature TK, Reaktoro_::Pres
     {
         case MethodCorrT_Thrift::type::CTM_EK0: // 1-term lgK = const
         // lgK = A[0];
-        // dCpr = 0.0;
-        // dHr  = 0.0;
+            dCpr = 0.0;
+            dHr  = 0.0;
+            dSr  = lgK * Rln10;
             break;
         case MethodCorrT_Thrift::type::CTM_EK1: // 1-term dGr = const
                 // lgK = A[2]/T;
-            // dCpr = 0.0;
-            // dSr  = 0.0;
+            dCpr = 0.0;
+            dSr  = 0.0;
             dHr = dGr;
                 // dGr_d = dHr;
             lgK  = - dHr / TK / Rln10;
           break;
         case MethodCorrT_Thrift::type::CTM_EK2:  // 2-term or 1-term lgK=const at dHr=0
                 // lgK = A[0] + A[2]/T;
-            // dCpr = 0.0;
+            dCpr = 0.0;
                 // dGr_d = dHr - dSr * T;
             lgK  = (dSr - dHr/TK ) / Rln10;
           break;
-- 
2.43.0


From 2177fa5ade8ffabded5aecdc9af956f6aefc69d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:47 +0000
Subject: [PATCH 53/69] fix: internal and Helmholtz energy of a reaction whose
 enthalpy is zero

---
 ThermoFun/Reactions/LogK_function_of_T.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Reactions/LogK_function_of_T.cpp b/ThermoFun/Reactions/LogK_function_of_T.cpp
index f97b04d..eaf5029 100644
--- a/ThermoFun/Reactions/LogK_function_of_T.cpp
+++ b/ThermoFun/Reactions/LogK_function_of_T.cpp
@@ -179,7 +179,7 @@ auto thermoPropertiesReaction_LogK_fT(Reaktoro_::Temperature TK, Reaktoro_::Pres
     dGr  = -R_T * lgK * lg_to_ln;
 //    if (dHr.val == 0) dHr = dGr + dSr * TK;
     Reaktoro_::ThermoScalar dUr, dAr;
-    if (dHr.val != 0)
+    if (dHr.sta.first != Status::notdefined)
     {
         dUr  = dHr - Pbar*dVr;
         dAr  = dUr - TK*dSr;
-- 
2.43.0


From ccbd36d16c2fb1d234a7679359d181730ac10d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:40 +0000
Subject: [PATCH 54/69] fix: first coefficient of the Dolejs-Manning model is
 used in J/mol

---
 ThermoFun/Common/ParseJsonToData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Common/ParseJsonToData.cpp b/ThermoFun/Common/ParseJsonToData.cpp
index fa20e2a..e41fd05 100644
--- a/ThermoFun/Common/ParseJsonToData.cpp
+++ b/ThermoFun/Common/ParseJsonToData.cpp
@@ -404,7 +404,7 @@ auto thermoParamReac(const json &j, ThermoParametersReaction &pr) -> void
     read_values_units(j, "dr_volume_fpt_coeffs", pr.reaction_V_fT_coeff, {"1/K", "1/K^2", "1/K^3", "1/bar", "1/bar^2"});
     read_values_units(j, "dr_ryzhenko_coeffs", pr.reaction_RB_coeff, {"1", "1", "1"});
     read_values_units(j, "dr_marshall_franck_coeffs", pr.reaction_FM_coeff, {"1", "K", "K^2", "K^3", "1", "K", "K^2"});
-    read_values_units(j, "dr_dolejs_manning10_coeffs", pr.reaction_DM10_coeff, {"kJ/mol", "J/(mol*K)", "J/(mol*K)", "J/(mol*K^2)", "J/(mol*K)"});
+    read_values_units(j, "dr_dolejs_manning10_coeffs", pr.reaction_DM10_coeff, {"J/mol", "J/(mol*K)", "J/(mol*K)", "J/(mol*K^2)", "J/(mol*K)"});
 }
 
 auto thermoRefPropSubst(const json &j) -> ThermoPropertiesSubstance
-- 
2.43.0


From cac2f2fb6f61b24b4fb02d39c78a3e899d6d018b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:50 +0000
Subject: [PATCH 55/69] fix: sign of the density derivatives of the g function
 for water denser than 1 g/cm3

---
 ThermoFun/Substances/Solute/SoluteHKFgems.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/Substances/Solute/SoluteHKFgems.cpp b/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
index 6eeb8f8..a372072 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
@@ -193,12 +193,13 @@ auto gShok2(Reaktoro_::Temperature TC, Reaktoro_::Pressure Pbar, const Propertie
 //        return g;
 
     const auto pw = fabs(1.0e0 - D.val); // insert Sveta 19/02/2000
+    const double sign = (D.val > 1.0) ? -1.0 : 1.0; // of the change of pw = |1 - D| with D
 
     a = C[0] + C[1]*TC + C[2]*pow(TC,2.);
     b = C[3] + C[4]*TC + C[5]*pow(TC,2.);
     g.g = a * pow(pw, b.val);
 
-    dgdD = - a*b*pow(pw,(b.val - 1.0e0));
+    dgdD = - sign*a*b*pow(pw,(b.val - 1.0e0));
     // dgdD2 = a * b * (b - 1.0e0) * pow((1.0e0 - D),(b - 2.0e0));
 
     dadT = C[1] + 2.0*C[2]*TC;
@@ -211,11 +212,11 @@ auto gShok2(Reaktoro_::Temperature TC, Reaktoro_::Pressure Pbar, const Propertie
     dDdTT = - D * (daldT - pow(alpha,2.));
         // Db = pow((1.0 - D),b);  Fixed by DAK 01.11.00
     Db = pow( pw , b.val );
-    dDbdT = -b * pow(pw,(b.val - 1.0)) * dDdT + log(pw) * Db  * dbdT;
+    dDbdT = -sign * b * pow(pw,(b.val - 1.0)) * dDdT + log(pw) * Db  * dbdT;
 
 
-    dDbdTT = -(b * pow(pw,(b.val-1.0)) * dDdTT + pow(pw,(b.val - 1.0)) * dDdT * dbdT
-                + b * dDdT * ( -(b - 1.0) * pow(pw,(b.val - 2.0)) * dDdT
+    dDbdTT = -sign * (b * pow(pw,(b.val-1.0)) * dDdTT + pow(pw,(b.val - 1.0)) * dDdT * dbdT
+                + b * dDdT * ( -sign * (b - 1.0) * pow(pw,(b.val - 2.0)) * dDdT
                 + log(pw) * pow(pw,(b.val - 1.0)) * dbdT))
                 + log(pw) * pow(pw,b.val) * dbdTT
                 - pow(pw,b.val) * dbdT * dDdT / (1.0 - D)
-- 
2.43.0


From 8314f5a28b7fbe386bd49cdfe5cd51e635aa72fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:58 +0000
Subject: [PATCH 56/69] fix: temperature step of the Fernandez dielectric
 constant must not vanish at 0 C

---
 .../Substances/Solvent/WaterElectroFernandez1997.cpp   | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp b/ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp
index a3ede01..9467ae8 100644
--- a/ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp
+++ b/ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp
@@ -4,6 +4,9 @@
 #include "Substance.h"
 #include "ThermoProperties.h"
 
+#include <algorithm>
+#include <cmath>
+
 namespace ThermoFun {
 
 const double I[] = {1, 1, 1, 2, 3, 3, 4, 5, 6, 7, 10};
@@ -58,13 +61,14 @@ auto electroPropertiesWaterFernandez1997(/*PropertiesSolvent ps,*/ Reaktoro_::Te
     const auto eps = epsilonF(TK, RHO);
     const auto epsilon2 = eps * eps;
 
-    // numerical approximation of epsilonT and epsilonTT
-    Reaktoro_::Temperature T_plus (TC.val+TC.val*0.001);
+    // numerical approximation of epsilonT and epsilonTT; the step must not vanish at 0 C
+    const double dT = std::max(std::fabs(TC.val)*0.001, 0.025);
+    Reaktoro_::Temperature T_plus (TC.val+dT);
     Reaktoro_::Temperature TK_plus (T_plus.val + 273.15);
     auto RHO_plus = th.propertiesSolvent(TK_plus.val, P.val, substance.symbol(), state).density;
     auto eps_plus = epsilonF(TK_plus, RHO_plus);
 
-    Reaktoro_::Temperature T_minus (TC.val-TC.val*0.001);
+    Reaktoro_::Temperature T_minus (TC.val-dT);
     Reaktoro_::Temperature TK_minus (T_minus.val + 273.15);
     auto RHO_minus  = th.propertiesSolvent(TK_minus.val, P.val, substance.symbol(), state).density;
     auto eps_minus = epsilonF(TK_minus, RHO_minus);
-- 
2.43.0


From 24d6155bb882013ce68433a0336dea82de7c6e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:54 +0000
Subject: [PATCH 57/69] fix: G and A of water in the steam tables convention
 miss the temperature term of the triple point entropy

---
 ThermoFun/ThermoEngine.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 8bb925c..a7445b4 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -174,12 +174,13 @@ struct ThermoEngine::Impl
         return symbol;
     }
 
-    auto toSteamTables(ThermoPropertiesSubstance &tps, WaterTripleProperties wat) const -> void
+    auto toSteamTables(ThermoPropertiesSubstance &tps, double T, WaterTripleProperties wat) const -> void
     {
-        tps.gibbs_energy -= wat.Gtr;
+        const double Ttr = 273.16; // K, triple point of water
+        tps.gibbs_energy -= wat.Gtr - (T - Ttr) * wat.Str;
         tps.enthalpy -= wat.Htr;
         tps.entropy -= wat.Str;
-        tps.helmholtz_energy -= wat.Atr;
+        tps.helmholtz_energy -= wat.Atr - (T - Ttr) * wat.Str;
         tps.internal_energy -= wat.Utr;
     }
 
@@ -478,7 +479,7 @@ struct ThermoEngine::Impl
             {
                 if (iequals(conventions.water_properties, "STEAM_TABLES"))
                 {
-                    toSteamTables(tps, waterTripleData.at(water_triple_reference));
+                    toSteamTables(tps, T, waterTripleData.at(water_triple_reference));
                 }
             }
             else
-- 
2.43.0


From 4869e3379933bf8eccd65dce061c775899d516bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:05 +0000
Subject: [PATCH 58/69] fix: log K and G of a reaction with a density model and
 constant volume belong to different volumes

---
 ThermoFun/ThermoEngine.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index a7445b4..ada575c 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -796,9 +796,8 @@ struct ThermoEngine::Impl
                 auto VP = tpr.reaction_volume * (P_ - Pref);
                 tpr.reaction_gibbs_energy += VP;
                 tpr.reaction_enthalpy += VP;
-                auto Vref = pref.workReaction.thermoReferenceProperties().reaction_volume;
-                tpr.log_equilibrium_constant -= Vref * (P_ - Pref) / (R_CONSTANT * T) / lg_to_ln;
-                tpr.ln_equilibrium_constant -= Vref * (P_ - Pref) / (R_CONSTANT * T);
+                tpr.log_equilibrium_constant -= VP / (R_CONSTANT * T) / lg_to_ln;
+                tpr.ln_equilibrium_constant -= VP / (R_CONSTANT * T);
                 tpr.reaction_entropy = (tpr.reaction_enthalpy - tpr.reaction_gibbs_energy) / T;
                 tpr.reaction_internal_energy = tpr.reaction_enthalpy - P_ * tpr.reaction_volume;
                 tpr.reaction_helmholtz_energy = tpr.reaction_internal_energy - T * tpr.reaction_entropy;
-- 
2.43.0


From fa5f2bae579c96a3df9f3f656f2f6bbd60888c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:19 +0000
Subject: [PATCH 59/69] fix: second temperature derivative of the density in
 the HGK equation of state (Reaktoro)

---
 .../Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp b/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp
index 5d6fe4e..3a7f4d0 100644
--- a/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp
+++ b/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp
@@ -266,7 +266,7 @@ namespace ThermoFun {
             const auto x_tt = y_tt * x2 + 2.0 * y_t * x_t * x;
             const auto x_rt = y_rt * x2 + 2.0 * y_r * x_t * x;
             const auto x_rrr = y_rrr * x2 + 4 * y_rr * x_r * x + 2 * y_r * (x_rr * x + x_r * x_r);
-            const auto x_rrt = y_rrt * x2 + 2 * (y_rt * x_r + y_rr * x_t) + 2 * y_r * (x_rt * x + x_r * x_t);
+            const auto x_rrt = y_rrt * x2 + 2 * (y_rt * x_r + y_rr * x_t) * x + 2 * y_r * (x_rt * x + x_r * x_t);
             const auto x_rtt = y_rtt * x2 + 4 * y_rt * x_t * x + 2 * y_r * (x_tt * x + x_t * x_t);
             const auto x_ttt = y_ttt * x2 + 4 * y_tt * x_t * x + 2 * y_t * (x_tt * x + x_t * x_t);
 
@@ -369,7 +369,7 @@ namespace ThermoFun {
                 const auto theta_tt = 2 * beta[i] * (2 * beta[i] * tau * tau - 1) * tau_t * tau_t * theta;
                 const auto theta_rt = -2 * beta[i] * tau * tau_t * theta_r;
                 const auto theta_rrr = psi_rr * theta + 2 * psi_r * theta_r + psi * theta_rr;
-                const auto theta_rrt = psi_r * theta_r + psi * theta_rt;
+                const auto theta_rrt = psi_r * theta_t + psi * theta_rt;
                 const auto theta_rtt = psi * theta_tt;
                 const auto theta_ttt = -2 * beta[i] * (2 * tau_t * tau_t * theta_t + tau * tau_t * theta_tt);
 
-- 
2.43.0


From b379a2ad01c9926451dea9ea2d6f05afbeecb44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:24 +0000
Subject: [PATCH 60/69] fix: residual enthalpy of the PRSV model includes the
 dependence of k on temperature and is defined at the critical temperature

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index 3ae47b4..9e2042c 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -453,7 +453,7 @@ long int TPRSVcalc::FugacityPT( long int i, double *EoSparam )
 long int TPRSVcalc::AB( double Tcrit, double Pcrit, double omg, double k1, double k2, double k3,
 		double &apure, double &bpure, double &da, double &d2a )
 {
-	double Tred, k0, k, alph, ac, sqa, dsqa, d2sqa;
+	double Tred, k0, k, kv, dkv, dk, alph, ac, sqa, dsqa, d2sqa;
 
 	Tred = Tk/Tcrit;
 	k0 = 0.378893 + 1.4897153*omg - 0.17131848*pow(omg,2.) + 0.0196554*pow(omg,3.);
@@ -469,9 +469,11 @@ long int TPRSVcalc::AB( double Tcrit, double Pcrit, double omg, double k1, doubl
 	apure = alph*ac;
 	bpure = (0.077796)*R_CONST*Tcrit/Pcrit;
 	sqa = 1.+k*(1.-sqrt(Tred));
-	// dsqa = (-1.)*k0/(2.*sqrt(Tk*Tcrit)) - 1.7*k1/Tcrit + 2.*k1*Tk/(pow(Tcrit,2.));  // extend dA/dT for k2, k3
-	dsqa = ( k1*(0.7-Tred)/(2.*sqrt(Tred)*Tcrit) - k1*(1.+sqrt(Tred))/Tcrit ) * (1.-sqrt(Tred))
-				- (k0 + k1*(1.+sqrt(Tred))*(0.7-Tred))/(2*sqrt(Tred)*Tcrit);
+	// dk/dTred, with k1, k2 and k3
+	kv = k1 + k2*(k3-Tred)*(1.-sqrt(Tred));
+	dkv = k2*( - (1.-sqrt(Tred)) - (k3-Tred)/(2.*sqrt(Tred)) );
+	dk = dkv*(1.+sqrt(Tred))*(0.7-Tred) + kv*( (0.7-Tred)/(2.*sqrt(Tred)) - (1.+sqrt(Tred)) );
+	dsqa = ( dk*(1.-sqrt(Tred)) - k/(2.*sqrt(Tred)) ) / Tcrit;
 	da = 2.*ac*(sqa*dsqa);
 	d2sqa = ( - (k1*(0.7-Tred))/(4.*pow(Tred,1.5)*pow(Tcrit,2.)) - k1/(sqrt(Tred)*pow(Tcrit,2.)) ) * (1.-sqrt(Tred))
 				+ ( - k1*(0.7-Tred)/(2.*sqrt(Tred)*Tcrit) - k1*(1.+sqrt(Tred))/Tcrit ) / (sqrt(Tred)*Tcrit)
@@ -486,7 +488,7 @@ long int TPRSVcalc::AB( double Tcrit, double Pcrit, double omg, double k1, doubl
 /// calculates fugacities and residual functions of pure fluid species
 long int TPRSVcalc::FugacityPure( long int i )
 {
-	double Tcrit, Pcrit, Tred, aprsv, bprsv, alph, da, d2a, k, A, B, a2, a1, a0,
+	double aprsv, bprsv, da, d2a, A, B, a2, a1, a0,
 			z1, z2, z3, vol1, vol2, vol3, lnf1, lnf2, lnf3, z, vol, lnf;
     double /*gig, hig, sig, cpig,*/ fugpure, grs, hrs, srs, cprs,
 			cv, dPdT, dPdV, dVdT;
@@ -498,9 +500,6 @@ long int TPRSVcalc::FugacityPure( long int i )
     //cpig = 0.;
 
 	// retrieve a and b terms of cubic EoS
-	Tcrit = Eosparm[i][0];
-	Pcrit = Eosparm[i][1];
-	Tred = Tk/Tcrit;
 	aprsv = Pureparm[i][0];
 	bprsv = Pureparm[i][1];
 	da = Pureparm[i][2];
@@ -552,12 +551,10 @@ long int TPRSVcalc::FugacityPure( long int i )
 	}
 
 	// calculate thermodynamic properties
-	alph = aprsv/((0.457235)*pow(R_CONST,2.)*pow(Tcrit,2.) / Pcrit);
-	k = (sqrt(alph)-1.)/(1.-sqrt(Tred));
 	grs = R_CONST*Tk*(z-1.-log(z-B)-A/(B*sqrt(8.))
 				*log((z+(1+sqrt(2.))*B)/(z+(1-sqrt(2.))*B)));
-	hrs = R_CONST*Tk*(z-1.-log((z+(1+sqrt(2.))*B)/(z+(1-sqrt(2.))*B))
-				*A/(B*sqrt(8.))*(1+k*sqrt(Tred)/sqrt(alph)));
+	hrs = R_CONST*Tk*(z-1.) - (aprsv-Tk*da)/(bprsv*sqrt(8.))
+				*log((z+(1+sqrt(2.))*B)/(z+(1-sqrt(2.))*B));
 	srs = (hrs-grs)/Tk;
 
 	// heat capacity part
-- 
2.43.0


From 650fcfbab00f4a35d6d5719d184ae2d406193f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:24 +0000
Subject: [PATCH 61/69] fix: residual enthalpy of the PR78 model at the
 critical temperature and where the alpha function rises again

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index 9e2042c..bf29841 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -3688,7 +3688,7 @@ long int TPR78calc::AB( double Tcrit, double Pcrit, double omg, double /*N*/,
 /// Calculates fugacities and residual functions of pure fluid species
 long int TPR78calc::FugacityPure( long int i )
 {
-	double Tcrit, Pcrit, Tred, apr, bpr, alph, da, d2a, k, A, B, a2, a1, a0,
+	double apr, bpr, da, d2a, A, B, a2, a1, a0,
 			z1, z2, z3, vol1, vol2, vol3, lnf1, lnf2, lnf3, z, vol, lnf;
     double /*gig, hig, sig, cpig,*/ fugpure, grs, hrs, srs, cprs,
 			cv, dPdT, dPdV, dVdT;
@@ -3700,9 +3700,6 @@ long int TPR78calc::FugacityPure( long int i )
     //cpig = 0.;
 
 	// retrieve a and b terms of cubic EoS
-	Tcrit = Eosparm[i][0];
-	Pcrit = Eosparm[i][1];
-	Tred = Tk/Tcrit;
 	apr = Pureparm[i][0];
 	bpr = Pureparm[i][1];
 	da = Pureparm[i][2];
@@ -3754,12 +3751,10 @@ long int TPR78calc::FugacityPure( long int i )
 	}
 
 	// calculate thermodynamic properties
-	alph = apr/((0.457235529)*pow(R_CONST,2.)*pow(Tcrit,2.) / Pcrit);
-	k = (sqrt(alph)-1.)/(1.-sqrt(Tred));
 	grs = R_CONST*Tk*(z-1.-log(z-B)-A/(B*sqrt(8.))
 				*log((z+(1+sqrt(2.))*B)/(z+(1-sqrt(2.))*B)));
-	hrs = R_CONST*Tk*(z-1.-log((z+(1+sqrt(2.))*B)/(z+(1-sqrt(2.))*B))
-				*A/(B*sqrt(8.))*(1+k*sqrt(Tred)/sqrt(alph)));
+	hrs = R_CONST*Tk*(z-1.) - (apr-Tk*da)/(bpr*sqrt(8.))
+				*log((z+(1+sqrt(2.))*B)/(z+(1-sqrt(2.))*B));
 	srs = (hrs-grs)/Tk;
 
 	// heat capacity part
-- 
2.43.0


From 6c9a0204032569f92e5002f5359ee88343cfa716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:25 +0000
Subject: [PATCH 62/69] fix: attraction parameter of H2O above 673 K and its
 derivatives in the CORK model

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 28 +++++++++++------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index bf29841..15f0608 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -4450,8 +4450,8 @@ long int TCORKcalc::FugacityH2O( long int j )
     {
         phState = 1;
         a = a0 + a4*(Tk-673.) + a5*pow((Tk-673.),2.) + a6*pow((Tk-673.),3.);
-        da = -a4 - 2.*a5*(673.-Tk) - 3.*a6*pow((673.-Tk),2.);
-        d2a = 2.*a5 + 6.*a6*(673.-Tk);
+        da = a4 + 2.*a5*(Tk-673.) + 3.*a6*pow((Tk-673.),2.);
+        d2a = 2.*a5 + 6.*a6*(Tk-673.);
         VolumeFugacity(phState, Pkb, p0, a, b, c, d, e, vc, fc);
     }
 
@@ -4469,9 +4469,9 @@ long int TCORKcalc::FugacityH2O( long int j )
             }
             else
             {
-                a = a0 + a4*(673.-Tk) + a5*pow((673.-Tk),2.) + a6*pow((673.-Tk),3.);
-                da = -a4 - 2.*a5*(673.-Tk) - 3.*a6*pow((673.-Tk),2.);
-                d2a = 2.*a5 + 6.*a6*(673.-Tk);
+                a = a0 + a4*(Tk-673.) + a5*pow((Tk-673.),2.) + a6*pow((Tk-673.),3.);
+                da = a4 + 2.*a5*(Tk-673.) + 3.*a6*pow((Tk-673.),2.);
+                d2a = 2.*a5 + 6.*a6*(Tk-673.);
             }
             VolumeFugacity(phState, Pkb, p0, a, b, c, d, e, vc, fc);
         }
@@ -4487,9 +4487,9 @@ long int TCORKcalc::FugacityH2O( long int j )
             }
             else
             {
-                a = a0 + a4*(673.-Tk) + a5*pow((673.-Tk),2.) + a6*pow((673.-Tk),3.);
-                da = -a4 - 2.*a5*(673.-Tk) - 3.*a6*pow((673.-Tk),2.);
-                d2a = 2.*a5 + 6.*a6*(673.-Tk);
+                a = a0 + a4*(Tk-673.) + a5*pow((Tk-673.),2.) + a6*pow((Tk-673.),3.);
+                da = a4 + 2.*a5*(Tk-673.) + 3.*a6*pow((Tk-673.),2.);
+                d2a = 2.*a5 + 6.*a6*(Tk-673.);
             }
             VolumeFugacity(phState, Psat, p0, a, b, c, d, e, v, g1);
 
@@ -4502,9 +4502,9 @@ long int TCORKcalc::FugacityH2O( long int j )
             }
             else
             {
-                a = a0 + a4*(673.-Tk) + a5*pow((673.-Tk),2.) + a6*pow((673.-Tk),3.);
-                da = -a4 - 2.*a5*(673.-Tk) - 3.*a6*pow((673.-Tk),2.);
-                d2a = 2.*a5 + 6.*a6*(673.-Tk);
+                a = a0 + a4*(Tk-673.) + a5*pow((Tk-673.),2.) + a6*pow((Tk-673.),3.);
+                da = a4 + 2.*a5*(Tk-673.) + 3.*a6*pow((Tk-673.),2.);
+                d2a = 2.*a5 + 6.*a6*(Tk-673.);
             }
             VolumeFugacity(phState, Psat, p0, a, b, c, d, e, v, g2);
 
@@ -4517,9 +4517,9 @@ long int TCORKcalc::FugacityH2O( long int j )
             }
             else
             {
-                a = a0 + a4*(673.-Tk) + a5*pow((673.-Tk),2.) + a6*pow((673.-Tk),3.);
-                da = -a4 - 2.*a5*(673.-Tk) - 3.*a6*pow((673.-Tk),2.);
-                d2a = 2.*a5 + 6.*a6*(673.-Tk);
+                a = a0 + a4*(Tk-673.) + a5*pow((Tk-673.),2.) + a6*pow((Tk-673.),3.);
+                da = a4 + 2.*a5*(Tk-673.) + 3.*a6*pow((Tk-673.),2.);
+                d2a = 2.*a5 + 6.*a6*(Tk-673.);
             }
             VolumeFugacity(phState, Pkb, p0, a, b, c, d, e, vc, g3);  // corrected from (phState, Pkb, psat ...)
             fc = g1/g2*g3;  // this formula needs checking
-- 
2.43.0


From bec69ba6468facff236518326a093bbf4cc4993d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:25 +0000
Subject: [PATCH 63/69] fix: liquid root of the CORK model is positive

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index 15f0608..0394fa7 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -4803,7 +4803,7 @@ long int TCORKcalc::VolumeFugacity( long int phState, double pp, double p0, doub
             vmrk = v3;
         if ( (v2<vmrk) && (v2>0.) )
             vmrk = v2;
-        if ( (v3<vmrk) && (v2>0.) )
+        if ( (v3<vmrk) && (v3>0.) )
             vmrk = v3;
     }
 
-- 
2.43.0


From 729482cc20937978f60b24dac99c09bf04a7bbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:25 +0000
Subject: [PATCH 64/69] fix: Sterner-Pitzer model outside of its limits gives
 ideal gas properties, not uninitialised memory

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 25 ++++++++++++-----------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index 0394fa7..b3d9a30 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -6251,21 +6251,22 @@ long int TSTPcalc::STPCalcFugPure(double Tmin, double *Cpg, double *FugProps )
     if( (Tk >= Tmin) && (Tk < 1e4) && (Pbar >= 1e-5) && (Pbar < 1e5) )
     {
         iErr = FugacityPT( 0, Coeff );
-        for( int i=0; i<6; i++ )
-            FugProps[i] = Fugpure[0][i];
-        return iErr;
+        if( iErr == 0 )
+        {
+            for( int i=0; i<6; i++ )
+                FugProps[i] = Fugpure[0][i];
+            return iErr;
+        }
     }
-
     else
-    {
-        for( int i=1; i<6; i++ )
-            FugProps[i] = 0.;
-        FugProps[0] = 1.;
-        FugProps[4] = 8.31451*Tk/Pbar;
-        return -1;
-    }
+        iErr = -1;
 
-    return 0;
+    // outside of the limits of the model, or no density found: ideal gas
+    for( int i=1; i<6; i++ )
+        FugProps[i] = 0.;
+    FugProps[0] = 1.;
+    FugProps[4] = 8.31451*Tk/Pbar;
+    return iErr;
 }
 
 
-- 
2.43.0


From 460dfb919c55355c84de499a64b9d182a5941af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:04 +0000
Subject: [PATCH 65/69] fix: methods, class and state of substances and
 reactions can be read and set from Python

---
 python/src/thermofun/PyThermoFun.cpp |   1 +
 python/src/thermofun/PyThermoFun.hpp |   1 +
 python/src/thermofun/pyEnums.cpp     | 147 +++++++++++++++++++++++++++
 3 files changed, 149 insertions(+)
 create mode 100644 python/src/thermofun/pyEnums.cpp

diff --git a/python/src/thermofun/PyThermoFun.cpp b/python/src/thermofun/PyThermoFun.cpp
index 608c983..1f5eaf6 100644
--- a/python/src/thermofun/PyThermoFun.cpp
+++ b/python/src/thermofun/PyThermoFun.cpp
@@ -24,6 +24,7 @@ PYBIND11_MODULE(PyThermoFun, m)
 {
     update_loggers(false, "thermofun.log", 2);
     // Common module
+    exportEnums(m);
     exportThermoScalar(m);
     exportStatus(m);
     // Properties 
diff --git a/python/src/thermofun/PyThermoFun.hpp b/python/src/thermofun/PyThermoFun.hpp
index 8954ce2..f0cf771 100644
--- a/python/src/thermofun/PyThermoFun.hpp
+++ b/python/src/thermofun/PyThermoFun.hpp
@@ -28,6 +28,7 @@ namespace py = pybind11;
 
 namespace ThermoFun {
     // Common module
+    void exportEnums(py::module& m);
     void exportThermoScalar(py::module& m);
     void exportStatus(py::module& m);
     // Properties
diff --git a/python/src/thermofun/pyEnums.cpp b/python/src/thermofun/pyEnums.cpp
new file mode 100644
index 0000000..c9022d0
--- /dev/null
+++ b/python/src/thermofun/pyEnums.cpp
@@ -0,0 +1,147 @@
+// This file is part of ThermoFun https://bitbucket.org/gems4/thermofun/
+// ThermoFun is a framework for delivering standard state thermodynamic data.
+//
+// Copyright (c) 2016-2018 G.D.Miron, D.A.Kulik, A.Leal
+//
+// ThermoFun is free software: you can redistribute it and/or modify
+// it under the terms of the GNU Lesser General Public License as
+// published by the Free Software Foundation, either version 3 of
+// the License, or (at your option) any later version.
+
+// ThermoFun is distributed in the hope that it will be useful,
+// but WITHOUT ANY WARRANTY; without even the implied warranty of
+// MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+// GNU Lesser General Public License for more details.
+
+// You should have received a copy of the GNU General Public License
+// along with ThermoFun code. If not, see <http://www.gnu.org/licenses/>.
+
+#include <pybind11/pybind11.h>
+namespace py = pybind11;
+
+#include <ThermoFun/GlobalVariables.h>
+
+namespace ThermoFun {
+
+// the codes that substances and reactions take and return
+void exportEnums(py::module& m)
+{
+    py::enum_<MethodGenEoS_Thrift::type>(m, "MethodGenEoS", "Codes of the general EOS calculation methods")
+        .value("CTPM_CON", MethodGenEoS_Thrift::CTPM_CON)
+        .value("CTPM_CPT", MethodGenEoS_Thrift::CTPM_CPT)
+        .value("CTPM_HKF", MethodGenEoS_Thrift::CTPM_HKF)
+        .value("CTPM_REA", MethodGenEoS_Thrift::CTPM_REA)
+        .value("CTPM_EOS", MethodGenEoS_Thrift::CTPM_EOS)
+        .value("CTPM_ISO", MethodGenEoS_Thrift::CTPM_ISO)
+        .value("CTPM_SOR", MethodGenEoS_Thrift::CTPM_SOR)
+        .value("CEM_OFF", MethodGenEoS_Thrift::CEM_OFF)
+        .value("CEM_GAS", MethodGenEoS_Thrift::CEM_GAS)
+        .value("CEM_H2O", MethodGenEoS_Thrift::CEM_H2O)
+        .value("CEM_CO2", MethodGenEoS_Thrift::CEM_CO2)
+        .value("CEM_CH4", MethodGenEoS_Thrift::CEM_CH4)
+        .value("CEM_N2", MethodGenEoS_Thrift::CEM_N2)
+        .value("CEM_H2", MethodGenEoS_Thrift::CEM_H2)
+        .value("CEM_O2", MethodGenEoS_Thrift::CEM_O2)
+        .value("CEM_AR", MethodGenEoS_Thrift::CEM_AR)
+        .value("CEM_PO", MethodGenEoS_Thrift::CEM_PO)
+        .value("CEM_NP", MethodGenEoS_Thrift::CEM_NP)
+        .value("CTPM_WJNR", MethodGenEoS_Thrift::CTPM_WJNR)
+        .value("CTPM_WJNG", MethodGenEoS_Thrift::CTPM_WJNG)
+        .value("CTPM_HKFR", MethodGenEoS_Thrift::CTPM_HKFR)
+        .value("CTPM_WSV14", MethodGenEoS_Thrift::CTPM_WSV14)
+        .value("CTPM_WF97", MethodGenEoS_Thrift::CTPM_WF97)
+        .value("CTPM_HP98", MethodGenEoS_Thrift::CTPM_HP98)
+        .value("CTPM_AN91", MethodGenEoS_Thrift::CTPM_AN91)
+        ;
+
+    py::enum_<MethodCorrT_Thrift::type>(m, "MethodCorrT", "Codes of the temperature correction methods")
+        .value("CTM_CST", MethodCorrT_Thrift::CTM_CST)
+        .value("CTM_CHP", MethodCorrT_Thrift::CTM_CHP)
+        .value("CTM_BER", MethodCorrT_Thrift::CTM_BER)
+        .value("CTM_FEI", MethodCorrT_Thrift::CTM_FEI)
+        .value("CTM_LGX", MethodCorrT_Thrift::CTM_LGX)
+        .value("CTM_HKF", MethodCorrT_Thrift::CTM_HKF)
+        .value("CTM_WAT", MethodCorrT_Thrift::CTM_WAT)
+        .value("CTM_WAS", MethodCorrT_Thrift::CTM_WAS)
+        .value("CTM_LGK", MethodCorrT_Thrift::CTM_LGK)
+        .value("CTM_EK0", MethodCorrT_Thrift::CTM_EK0)
+        .value("CTM_EK1", MethodCorrT_Thrift::CTM_EK1)
+        .value("CTM_EK2", MethodCorrT_Thrift::CTM_EK2)
+        .value("CTM_EK3", MethodCorrT_Thrift::CTM_EK3)
+        .value("CTM_IKZ", MethodCorrT_Thrift::CTM_IKZ)
+        .value("CTM_DKR", MethodCorrT_Thrift::CTM_DKR)
+        .value("CTM_PPE", MethodCorrT_Thrift::CTM_PPE)
+        .value("CTM_MRB", MethodCorrT_Thrift::CTM_MRB)
+        .value("CTM_CPG", MethodCorrT_Thrift::CTM_CPG)
+        .value("CTM_IFG", MethodCorrT_Thrift::CTM_IFG)
+        .value("CTM_KAS", MethodCorrT_Thrift::CTM_KAS)
+        .value("CTM_DAS", MethodCorrT_Thrift::CTM_DAS)
+        .value("CTM_WAR", MethodCorrT_Thrift::CTM_WAR)
+        .value("CTM_WWP", MethodCorrT_Thrift::CTM_WWP)
+        .value("CTM_WZD", MethodCorrT_Thrift::CTM_WZD)
+        .value("CTM_DMD", MethodCorrT_Thrift::CTM_DMD)
+        ;
+
+    py::enum_<MethodCorrP_Thrift::type>(m, "MethodCorrP", "Codes of the pressure correction methods")
+        .value("CPM_OFF", MethodCorrP_Thrift::CPM_OFF)
+        .value("CPM_NUL", MethodCorrP_Thrift::CPM_NUL)
+        .value("CPM_ONE", MethodCorrP_Thrift::CPM_ONE)
+        .value("CPM_TWO", MethodCorrP_Thrift::CPM_TWO)
+        .value("CPM_TRI", MethodCorrP_Thrift::CPM_TRI)
+        .value("CPM_CON", MethodCorrP_Thrift::CPM_CON)
+        .value("CPM_VKE", MethodCorrP_Thrift::CPM_VKE)
+        .value("CPM_VBE", MethodCorrP_Thrift::CPM_VBE)
+        .value("CPM_VBM", MethodCorrP_Thrift::CPM_VBM)
+        .value("CPM_CEH", MethodCorrP_Thrift::CPM_CEH)
+        .value("CPM_VTA", MethodCorrP_Thrift::CPM_VTA)
+        .value("CPM_GAS", MethodCorrP_Thrift::CPM_GAS)
+        .value("CPM_PRSV", MethodCorrP_Thrift::CPM_PRSV)
+        .value("CPM_EMP", MethodCorrP_Thrift::CPM_EMP)
+        .value("CPM_SRK", MethodCorrP_Thrift::CPM_SRK)
+        .value("CPM_STP", MethodCorrP_Thrift::CPM_STP)
+        .value("CPM_PR78", MethodCorrP_Thrift::CPM_PR78)
+        .value("CPM_CORK", MethodCorrP_Thrift::CPM_CORK)
+        .value("CPM_REFL", MethodCorrP_Thrift::CPM_REFL)
+        .value("CPM_HKF", MethodCorrP_Thrift::CPM_HKF)
+        .value("CPM_AKI", MethodCorrP_Thrift::CPM_AKI)
+        .value("CPM_PCR", MethodCorrP_Thrift::CPM_PCR)
+        .value("CPM_INK", MethodCorrP_Thrift::CPM_INK)
+        ;
+
+    py::enum_<SubstanceClass::type>(m, "SubstanceClass", "Classes of substances")
+        .value("COMPONENT", SubstanceClass::COMPONENT)
+        .value("GASFLUID", SubstanceClass::GASFLUID)
+        .value("AQSOLUTE", SubstanceClass::AQSOLUTE)
+        .value("AQSOLVENT", SubstanceClass::AQSOLVENT)
+        .value("SURFSPECIES", SubstanceClass::SURFSPECIES)
+        .value("SITEMOIETY", SubstanceClass::SITEMOIETY)
+        .value("OTHER_SC", SubstanceClass::OTHER_SC)
+        ;
+
+    py::enum_<AggregateState::type>(m, "AggregateState", "Aggregate states of substances")
+        .value("GAS", AggregateState::GAS)
+        .value("LIQUID", AggregateState::LIQUID)
+        .value("GLASS", AggregateState::GLASS)
+        .value("CRYSTAL", AggregateState::CRYSTAL)
+        .value("AQUEOUS", AggregateState::AQUEOUS)
+        .value("SURFACE", AggregateState::SURFACE)
+        .value("IONEX", AggregateState::IONEX)
+        .value("PLASMA", AggregateState::PLASMA)
+        .value("SOLID", AggregateState::SOLID)
+        .value("CONDENSED", AggregateState::CONDENSED)
+        .value("FLUID", AggregateState::FLUID)
+        .value("LIQUIDCRYSTAL", AggregateState::LIQUIDCRYSTAL)
+        .value("AMORPHOUSSOLID", AggregateState::AMORPHOUSSOLID)
+        .value("MONOMERIC", AggregateState::MONOMERIC)
+        .value("POLYMERIC", AggregateState::POLYMERIC)
+        .value("SOLIDSOLUTION", AggregateState::SOLIDSOLUTION)
+        .value("OTHER", AggregateState::OTHER)
+        ;
+
+    py::enum_<SubstanceThermoCalculationType::type>(m, "SubstanceThermoCalculationType", "Calculation types of the substance properties")
+        .value("DCOMP", SubstanceThermoCalculationType::DCOMP)
+        .value("REACDC", SubstanceThermoCalculationType::REACDC)
+        ;
+}
+
+}
-- 
2.43.0


From 869f24a70342aa22df1ed2d3f78691cb4512c15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:04 +0000
Subject: [PATCH 66/69] fix: get_water_triple_data can be called from Python

---
 python/src/thermofun/PyThermoFun.cpp | 1 +
 python/src/thermofun/pyDatabase.cpp  | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/python/src/thermofun/PyThermoFun.cpp b/python/src/thermofun/PyThermoFun.cpp
index 1f5eaf6..41c5a67 100644
--- a/python/src/thermofun/PyThermoFun.cpp
+++ b/python/src/thermofun/PyThermoFun.cpp
@@ -17,6 +17,7 @@
 // along with ThermoFun code. If not, see <http://www.gnu.org/licenses/>.
 
 #include "PyThermoFun.hpp"
+#include <pybind11/stl.h>
 #include "ThermoFun/GlobalVariables.h"
 using namespace ThermoFun;
 
diff --git a/python/src/thermofun/pyDatabase.cpp b/python/src/thermofun/pyDatabase.cpp
index 999ad8a..e2a540d 100644
--- a/python/src/thermofun/pyDatabase.cpp
+++ b/python/src/thermofun/pyDatabase.cpp
@@ -31,6 +31,7 @@ namespace py = pybind11;
 #include <ThermoFun/Element.h>
 #include <ThermoFun/Substance.h>
 #include <ThermoFun/Reaction.h>
+#include <ThermoFun/GlobalVariables.h>
 
 namespace ThermoFun {
 
@@ -105,6 +106,13 @@ void exportDatabase(py::module& m)
     py::class_<DatabaseConventions>(m, "DatabaseConventions")
         .def(py::init<>())
         .def_readwrite("water_triple_point_reference", &DatabaseConventions::water_triple_point_reference);
+
+    py::class_<WaterTripleProperties>(m, "WaterTripleProperties", "Properties of water at the triple point (J/mol, J/(mol*K))")
+        .def_readonly("Str", &WaterTripleProperties::Str)
+        .def_readonly("Gtr", &WaterTripleProperties::Gtr)
+        .def_readonly("Htr", &WaterTripleProperties::Htr)
+        .def_readonly("Utr", &WaterTripleProperties::Utr)
+        .def_readonly("Atr", &WaterTripleProperties::Atr);
 }
 
 }
-- 
2.43.0


From 8c8d9e4651b2a0694854a64f37914b10699acd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:03 +0000
Subject: [PATCH 67/69] fix: a limit that is not given is no limit, answers are
 not marked as out of it

---
 ThermoFun/Substance.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Substance.cpp b/ThermoFun/Substance.cpp
index a17c8e1..9449a51 100644
--- a/ThermoFun/Substance.cpp
+++ b/ThermoFun/Substance.cpp
@@ -323,8 +323,10 @@ auto Substance::jsonString() const -> std::string
 
 auto Substance::checkCalcMethodBounds(std::string modelName, double T, double P, ThermoPropertiesSubstance &tps) -> void
 {
-    if (pimpl->upper_P<(P) || pimpl->upper_T<(T) ||
-        pimpl->lower_P>(P) || pimpl->lower_T>(T))
+    // an upper limit that is not given (0) is no limit
+    const bool above = (pimpl->upper_P > 0 && pimpl->upper_P < P) || (pimpl->upper_T > 0 && pimpl->upper_T < T);
+
+    if (above || pimpl->lower_P > P || pimpl->lower_T > T)
     {
         std::string message = modelName +": out of "
                                     "T(" + std::to_string(pimpl->lower_T) + "-" + std::to_string(pimpl->upper_T) +" K) and "
-- 
2.43.0


From 71de746b7260a9e6dee486cfcb6c671ef9ea298f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:03 +0000
Subject: [PATCH 68/69] fix: HKF checks the limits of a record in K and Pa

---
 ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
index c36c2ee..b9d0332 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
@@ -137,7 +137,7 @@ auto thermoPropertiesAqSoluteHKFreaktoro(Reaktoro_::Temperature TK, Reaktoro_::P
     tps.heat_capacity_cp = Cp;
     tps.heat_capacity_cv = tps.heat_capacity_cp; // approximate Cp = Cv for an aqueous solution
 
-    subst.checkCalcMethodBounds("HKF model", TK.val-C_to_K, Pbar.val, tps);
+    subst.checkCalcMethodBounds("HKF model", TK.val, Pbar.val*1e05, tps);
     if (wp.density >= 1400 || wp.density<=600)
     {
         setMessage(Reaktoro_::Status::calculated, "HKF model: outside of 600-1400 kg/m3 density of pure H2O interval", tps);
-- 
2.43.0


From e5f5ed79c0cd70179eada1233d4593d7d546409b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:03 +0000
Subject: [PATCH 69/69] fix: answers outside of all intervals of the heat
 capacity say so

---
 ThermoFun/Substances/EmpiricalCpIntegration.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Substances/EmpiricalCpIntegration.cpp b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
index 8a7e924..c78047f 100644
--- a/ThermoFun/Substances/EmpiricalCpIntegration.cpp
+++ b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
@@ -59,7 +59,9 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
         }
     }
 
-    if (k < 0)
+    const bool outside = k < 0;
+
+    if (outside)
     {
         // the last interval that begins below the temperature, the first one if there is none
         k = 0;
@@ -183,7 +185,7 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
     thermo_properties_PT.entropy = S;
     thermo_properties_PT.volume = V;
 
-    if (k < 0)
+    if (outside)
     {
         setMessage(Reaktoro_::Status::calculated, "Empirical Cp integration: Outside temperature bounds", thermo_properties_PT);
     }
-- 
2.43.0

