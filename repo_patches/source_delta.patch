From 1bc60fe52fdc1e76bf97c2ab4cc45ad95bc597b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:58 +0000
Subject: [PATCH 01/42] fix: keep triangle and trapezoid memberships from
 turning negative within the tolerance of a vertex

---
 src/term/Trapezoid.cpp | 2 +-
 src/term/Triangle.cpp  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/term/Trapezoid.cpp b/src/term/Trapezoid.cpp
index 67d0ca3..a5399ef 100644
--- a/src/term/Trapezoid.cpp
+++ b/src/term/Trapezoid.cpp
@@ -51,7 +51,7 @@ namespace fuzzylite {
         if (Op::isLt(x, _vertexB)) {
             if (_vertexA == -fl::inf)
                 return Term::_height * 1.0;
-            return Term::_height * Op::min(scalar(1.0), (x - _vertexA) / (_vertexB - _vertexA));
+            return Term::_height * Op::bound((x - _vertexA) / (_vertexB - _vertexA), scalar(0.0), scalar(1.0));
         }
         if (Op::isLE(x, _vertexC))
             return Term::_height * 1.0;
diff --git a/src/term/Triangle.cpp b/src/term/Triangle.cpp
index 523de87..6b359dd 100644
--- a/src/term/Triangle.cpp
+++ b/src/term/Triangle.cpp
@@ -49,11 +49,11 @@ namespace fuzzylite {
         if (Op::isLt(x, _vertexB)) {
             if (_vertexA == -fl::inf)
                 return Term::_height * 1.0;
-            return Term::_height * (x - _vertexA) / (_vertexB - _vertexA);
+            return Term::_height * Op::max(scalar(0.0), (x - _vertexA) / (_vertexB - _vertexA));
         }
         if (_vertexC == fl::inf)
             return Term::_height * 1.0;
-        return Term::_height * (_vertexC - x) / (_vertexC - _vertexB);
+        return Term::_height * Op::max(scalar(0.0), (_vertexC - x) / (_vertexC - _vertexB));
     }
 
     std::string Triangle::parameters() const {
-- 
2.43.0


From dec03718c80f7c584e7086692c036107124f2816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:38 +0000
Subject: [PATCH 02/42] fix: return the removed activated term by value, not a
 dangling reference

---
 fuzzylite/term/Aggregated.h | 2 +-
 src/term/Aggregated.cpp     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/fuzzylite/term/Aggregated.h b/fuzzylite/term/Aggregated.h
index d03322e..ce73d68 100644
--- a/fuzzylite/term/Aggregated.h
+++ b/fuzzylite/term/Aggregated.h
@@ -199,7 +199,7 @@ namespace fuzzylite {
           @param index is the index of the term
           @return the removed term
          */
-        virtual const Activated& removeTerm(std::size_t index);
+        virtual Activated removeTerm(std::size_t index);
         /**
           Returns the number of activated terms
           @return the number of activated terms
diff --git a/src/term/Aggregated.cpp b/src/term/Aggregated.cpp
index ac3f1ea..3713f33 100644
--- a/src/term/Aggregated.cpp
+++ b/src/term/Aggregated.cpp
@@ -237,8 +237,8 @@ namespace fuzzylite {
         FL_DBG("Aggregating " << _terms.back().toString());
     }
 
-    const Activated& Aggregated::removeTerm(std::size_t index) {
-        const Activated& term = _terms.at(index);
+    Activated Aggregated::removeTerm(std::size_t index) {
+        const Activated term = _terms.at(index);
         _terms.erase(_terms.begin() + index);
         return term;
     }
-- 
2.43.0


From d4a7661d95633a8b5186ad27900584837ce7db76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:23 +0000
Subject: [PATCH 03/42] fix: keep the text after the first replacement when
 replacing only once

---
 fuzzylite/Operation.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fuzzylite/Operation.h b/fuzzylite/Operation.h
index 94f869b..3365667 100644
--- a/fuzzylite/Operation.h
+++ b/fuzzylite/Operation.h
@@ -849,10 +849,12 @@ namespace fuzzylite {
         do {
             nextIndex = str.find(find, fromIndex);
             result << str.substr(fromIndex, nextIndex - fromIndex);
-            if (nextIndex != std::string::npos)
-                result << replace;
+            if (nextIndex == std::string::npos)
+                return result.str();
+            result << replace;
             fromIndex = nextIndex + find.size();
-        } while (replaceAll and nextIndex != std::string::npos);
+        } while (replaceAll);
+        result << str.substr(fromIndex);
         return result.str();
     }
 
-- 
2.43.0


From 11af33048357320b95771829ddb8bcb4403ea477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:11 +0000
Subject: [PATCH 04/42] fix: return the text unchanged when replacing an empty
 text instead of looping forever

---
 fuzzylite/Operation.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fuzzylite/Operation.h b/fuzzylite/Operation.h
index 3365667..a9d2b9f 100644
--- a/fuzzylite/Operation.h
+++ b/fuzzylite/Operation.h
@@ -844,6 +844,8 @@ namespace fuzzylite {
     inline std::string Operation::findReplace(
         const std::string& str, const std::string& find, const std::string& replace, bool replaceAll
     ) {
+        if (find.empty())
+            return str;
         std::ostringstream result;
         std::size_t fromIndex = 0, nextIndex;
         do {
-- 
2.43.0


From 42d5b47a0d38fdf110b2d32fe6bf7c4eac61adaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:35 +0000
Subject: [PATCH 05/42] fix: release every parsed expression when an antecedent
 fails to load

---
 src/rule/Antecedent.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rule/Antecedent.cpp b/src/rule/Antecedent.cpp
index 8aba275..706997f 100644
--- a/src/rule/Antecedent.cpp
+++ b/src/rule/Antecedent.cpp
@@ -310,7 +310,7 @@ namespace fuzzylite {
                 throw Exception(ex.str(), FL_AT);
             }
         } catch (...) {
-            for (std::size_t i = 0; i < expressionStack.size(); ++i) {
+            while (not expressionStack.empty()) {
                 delete expressionStack.top();
                 expressionStack.pop();
             }
-- 
2.43.0


From 3e93cb78a1d4ad73e648cbfcd5356d11de6328cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:35 +0000
Subject: [PATCH 06/42] fix: delete the object that a registration replaces in
 a cloning factory

---
 fuzzylite/factory/CloningFactory.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fuzzylite/factory/CloningFactory.h b/fuzzylite/factory/CloningFactory.h
index 962e6e5..4c73886 100644
--- a/fuzzylite/factory/CloningFactory.h
+++ b/fuzzylite/factory/CloningFactory.h
@@ -157,7 +157,10 @@ namespace fuzzylite {
 
     template <typename T>
     inline void CloningFactory<T>::registerObject(const std::string& key, T object) {
-        this->_objects[key] = object;
+        T& registered = this->_objects[key];
+        if (registered and registered != object)
+            delete registered;
+        registered = object;
     }
 
     template <typename T>
-- 
2.43.0


From d251a739391209d059a160ed9f363482b2fd070a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:13 +0000
Subject: [PATCH 07/42] fix: delete the parsed nodes when a formula is
 ill-formed

---
 src/term/Function.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/term/Function.cpp b/src/term/Function.cpp
index 867e447..967cdc4 100644
--- a/src/term/Function.cpp
+++ b/src/term/Function.cpp
@@ -609,7 +609,13 @@ namespace fuzzylite {
             throw Exception("[function error] formula is empty", FL_AT);
         std::string postfix = toPostfix(formula);
 
-        std::stack<Node*> stack;
+        // owns the nodes so that they are deleted if the formula is ill-formed
+        struct NodeStack : std::stack<Node*> {
+            ~NodeStack() {
+                for (; not empty(); pop())
+                    delete top();
+            }
+        } stack;
 
         std::istringstream tokenizer(postfix);
         std::string token;
@@ -654,7 +660,9 @@ namespace fuzzylite {
         if (stack.size() != 1)
             throw Exception("[function error] ill-formed formula <" + formula + ">", FL_AT);
 
-        return stack.top();
+        Node* result = stack.top();
+        stack.pop();
+        return result;
     }
 
 }
-- 
2.43.0


From 2d9d30b04af21ed2dab781453c9f9c9894fac1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:09 +0000
Subject: [PATCH 08/42] fix: report missing conjunction and disjunction also
 when the operators of a rule touch parentheses or tabs

---
 src/Engine.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Engine.cpp b/src/Engine.cpp
index 018c669..45011ce 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -237,9 +237,13 @@ namespace fuzzylite {
                         ss << "- Rule block " << (i + 1) << " <" << ruleblock->getName()
                            << "> has a fl::null rule at index <" << r << ">\n";
                     } else {
-                        std::size_t thenIndex = rule->getText().find(" " + Rule::thenKeyword() + " ");
-                        std::size_t andIndex = rule->getText().find(" " + Rule::andKeyword() + " ");
-                        std::size_t orIndex = rule->getText().find(" " + Rule::orKeyword() + " ");
+                        // a loaded antecedent is inspected instead of the text because operators in the text
+                        // can also be delimited by parentheses, tabs, etc.
+                        const std::string text
+                            = rule->isLoaded() ? " " + rule->getAntecedent()->toPostfix() + " " : rule->getText();
+                        std::size_t thenIndex = text.find(" " + Rule::thenKeyword() + " ");
+                        std::size_t andIndex = text.find(" " + Rule::andKeyword() + " ");
+                        std::size_t orIndex = text.find(" " + Rule::orKeyword() + " ");
                         if (andIndex != std::string::npos and andIndex < thenIndex)
                             ++requiresConjunction;
                         if (orIndex != std::string::npos and orIndex < thenIndex)
-- 
2.43.0


From df046780b303531d09b9fcf13fcc9bb44f9a9700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:20 +0000
Subject: [PATCH 09/42] fix: keep the loaded, enabled, weight and activation
 state of the rules when copying an engine

---
 src/Engine.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/Engine.cpp b/src/Engine.cpp
index 45011ce..b94b6f5 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -94,12 +94,23 @@ namespace fuzzylite {
 
         for (std::size_t i = 0; i < other._ruleBlocks.size(); ++i) {
             RuleBlock* ruleBlock = new RuleBlock(*other._ruleBlocks.at(i));
-            try {
-                ruleBlock->loadRules(this);
-            } catch (...) {
-                // ignore
-            }
             _ruleBlocks.push_back(ruleBlock);
+            for (std::size_t r = 0; r < ruleBlock->numberOfRules(); ++r) {
+                const Rule* source = other._ruleBlocks.at(i)->getRule(r);
+                Rule* rule = ruleBlock->getRule(r);
+                if (source->isLoaded()) {
+                    try {
+                        rule->load(this);
+                    } catch (...) {
+                        // ignore
+                    }
+                }
+                // loading resets the state of the rule
+                rule->setEnabled(source->isEnabled());
+                rule->setWeight(source->getWeight());
+                rule->setActivationDegree(source->getActivationDegree());
+                rule->setTriggered(source->isTriggered());
+            }
         }
     }
 
-- 
2.43.0


From 4e5d35b03ad5f58bd9131c68e368f3dac0f5ed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:33 +0000
Subject: [PATCH 10/42] fix: make the fuzzy output of a copied variable refer
 to its own terms and operators

---
 src/Engine.cpp                  | 8 ++++++++
 src/variable/OutputVariable.cpp | 9 +++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/Engine.cpp b/src/Engine.cpp
index b94b6f5..7adb373 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -111,6 +111,14 @@ namespace fuzzylite {
                 rule->setActivationDegree(source->getActivationDegree());
                 rule->setTriggered(source->isTriggered());
             }
+            // the activated terms refer to the implication of this engine instead of that of the other engine
+            const TNorm* implication = other._ruleBlocks.at(i)->getImplication();
+            for (std::size_t o = 0; o < numberOfOutputVariables(); ++o) {
+                Aggregated* fuzzyOutput = getOutputVariable(o)->fuzzyOutput();
+                for (std::size_t t = 0; t < fuzzyOutput->numberOfTerms(); ++t)
+                    if (implication and fuzzyOutput->getTerm(t).getImplication() == implication)
+                        fuzzyOutput->terms().at(t).setImplication(ruleBlock->getImplication());
+            }
         }
     }
 
diff --git a/src/variable/OutputVariable.cpp b/src/variable/OutputVariable.cpp
index b8c327c..53a19c2 100644
--- a/src/variable/OutputVariable.cpp
+++ b/src/variable/OutputVariable.cpp
@@ -49,6 +49,15 @@ namespace fuzzylite {
 
     void OutputVariable::copyFrom(const OutputVariable& other) {
         _fuzzyOutput.reset(other._fuzzyOutput->clone());
+        // the activated terms refer to the terms of this variable instead of those of the other variable
+        for (std::size_t i = 0; i < _fuzzyOutput->numberOfTerms(); ++i) {
+            Activated& activated = _fuzzyOutput->terms().at(i);
+            for (std::size_t t = 0; t < other.numberOfTerms(); ++t)
+                if (activated.getTerm() == other.getTerm(t)) {
+                    activated.setTerm(getTerm(t));
+                    break;
+                }
+        }
         if (other._defuzzifier.get())
             _defuzzifier.reset(other._defuzzifier->clone());
         _previousValue = other._previousValue;
-- 
2.43.0


From 97b9cdc84e48177266385e6349e70b9a30f10612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:57 +0000
Subject: [PATCH 11/42] fix: release the former contents when move-assigning
 and keep references of terms to a moved engine

---
 fuzzylite/Engine.h                 |  5 ++++-
 fuzzylite/factory/CloningFactory.h | 16 +++++++++++++++-
 fuzzylite/rule/RuleBlock.h         |  5 ++++-
 fuzzylite/variable/Variable.h      |  6 ++++--
 src/Engine.cpp                     | 25 +++++++++++++++++++++++++
 src/rule/RuleBlock.cpp             | 16 ++++++++++++++++
 src/variable/Variable.cpp          | 16 ++++++++++++++++
 7 files changed, 84 insertions(+), 5 deletions(-)

diff --git a/fuzzylite/Engine.h b/fuzzylite/Engine.h
index 3997c1a..14e0fe9 100644
--- a/fuzzylite/Engine.h
+++ b/fuzzylite/Engine.h
@@ -70,7 +70,10 @@ namespace fuzzylite {
         Engine(const Engine& other);
         Engine& operator=(const Engine& other);
         virtual ~Engine();
-        FL_DEFAULT_MOVE(Engine)
+#ifndef FL_CPP98
+        Engine(Engine&& other);
+        Engine& operator=(Engine&& other);
+#endif
 
         /**
           Configures the engine with the given operators
diff --git a/fuzzylite/factory/CloningFactory.h b/fuzzylite/factory/CloningFactory.h
index 4c73886..03ecebe 100644
--- a/fuzzylite/factory/CloningFactory.h
+++ b/fuzzylite/factory/CloningFactory.h
@@ -55,7 +55,10 @@ namespace fuzzylite {
         CloningFactory(const CloningFactory& other);
         CloningFactory& operator=(const CloningFactory& other);
         virtual ~CloningFactory();
-        FL_DEFAULT_MOVE(CloningFactory)
+#ifndef FL_CPP98
+        CloningFactory(CloningFactory&&) = default;
+        CloningFactory& operator=(CloningFactory&& other);
+#endif
 
         /**
           Returns the name of the factory
@@ -136,6 +139,17 @@ namespace fuzzylite {
         copyFrom(other);
     }
 
+#ifndef FL_CPP98
+    template <typename T>
+    inline CloningFactory<T>& CloningFactory<T>::operator=(CloningFactory&& other) {
+        if (this != &other) {
+            _name = std::move(other._name);
+            _objects.swap(other._objects);  // the former objects are deleted by the other factory
+        }
+        return *this;
+    }
+#endif
+
     template <typename T>
     inline CloningFactory<T>& CloningFactory<T>::operator=(const CloningFactory& other) {
         if (this != &other) {
diff --git a/fuzzylite/rule/RuleBlock.h b/fuzzylite/rule/RuleBlock.h
index 43c3b27..190ca1c 100644
--- a/fuzzylite/rule/RuleBlock.h
+++ b/fuzzylite/rule/RuleBlock.h
@@ -68,7 +68,10 @@ namespace fuzzylite {
         RuleBlock(const RuleBlock& other);
         RuleBlock& operator=(const RuleBlock& other);
         virtual ~RuleBlock();
-        FL_DEFAULT_MOVE(RuleBlock)
+#ifndef FL_CPP98
+        RuleBlock(RuleBlock&&) = default;
+        RuleBlock& operator=(RuleBlock&& other);
+#endif
 
         /**
         Enables the rule block
diff --git a/fuzzylite/variable/Variable.h b/fuzzylite/variable/Variable.h
index 903acfd..fb076d1 100644
--- a/fuzzylite/variable/Variable.h
+++ b/fuzzylite/variable/Variable.h
@@ -66,8 +66,10 @@ namespace fuzzylite {
         );
         Variable(const Variable& other);
         Variable& operator=(const Variable& other);
-        //@todo: implement move assign without leaking memory
-        FL_DEFAULT_MOVE(Variable)
+#ifndef FL_CPP98
+        Variable(Variable&&) = default;
+        Variable& operator=(Variable&& other);
+#endif
         virtual ~Variable();
 
         /**
diff --git a/src/Engine.cpp b/src/Engine.cpp
index 7adb373..2271b68 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -82,6 +82,31 @@ namespace fuzzylite {
         return *this;
     }
 
+#ifndef FL_CPP98
+    Engine::Engine(Engine&& other) :
+        _name(std::move(other._name)),
+        _description(std::move(other._description)),
+        _inputVariables(std::move(other._inputVariables)),
+        _outputVariables(std::move(other._outputVariables)),
+        _ruleBlocks(std::move(other._ruleBlocks)) {
+        updateReferences();
+    }
+
+    Engine& Engine::operator=(Engine&& other) {
+        if (this != &other) {
+            _name = std::move(other._name);
+            _description = std::move(other._description);
+            // the former components are deleted by the other engine
+            _inputVariables.swap(other._inputVariables);
+            _outputVariables.swap(other._outputVariables);
+            _ruleBlocks.swap(other._ruleBlocks);
+            updateReferences();
+            other.updateReferences();
+        }
+        return *this;
+    }
+#endif
+
     void Engine::copyFrom(const Engine& other) {
         _name = other._name;
         _description = other._description;
diff --git a/src/rule/RuleBlock.cpp b/src/rule/RuleBlock.cpp
index b947192..97ab244 100644
--- a/src/rule/RuleBlock.cpp
+++ b/src/rule/RuleBlock.cpp
@@ -64,6 +64,22 @@ namespace fuzzylite {
         return *this;
     }
 
+#ifndef FL_CPP98
+    RuleBlock& RuleBlock::operator=(RuleBlock&& other) {
+        if (this != &other) {
+            _enabled = other._enabled;
+            _name = std::move(other._name);
+            _description = std::move(other._description);
+            _rules.swap(other._rules);  // the former rules are deleted by the other rule block
+            _activation = std::move(other._activation);
+            _conjunction = std::move(other._conjunction);
+            _disjunction = std::move(other._disjunction);
+            _implication = std::move(other._implication);
+        }
+        return *this;
+    }
+#endif
+
     void RuleBlock::copyFrom(const RuleBlock& source) {
         _enabled = source._enabled;
         _name = source._name;
diff --git a/src/variable/Variable.cpp b/src/variable/Variable.cpp
index c4c8105..709e1b1 100644
--- a/src/variable/Variable.cpp
+++ b/src/variable/Variable.cpp
@@ -52,6 +52,22 @@ namespace fuzzylite {
         return *this;
     }
 
+#ifndef FL_CPP98
+    Variable& Variable::operator=(Variable&& other) {
+        if (this != &other) {
+            _name = std::move(other._name);
+            _description = std::move(other._description);
+            _terms.swap(other._terms);  // the former terms are deleted by the other variable
+            _value = other._value;
+            _minimum = other._minimum;
+            _maximum = other._maximum;
+            _enabled = other._enabled;
+            _lockValueInRange = other._lockValueInRange;
+        }
+        return *this;
+    }
+#endif
+
     void Variable::copyFrom(const Variable& other) {
         _name = other._name;
         _description = other._description;
-- 
2.43.0


From 49710b171b7fa3a3031f1f7dcd068a31060c677e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:53 +0000
Subject: [PATCH 12/42] fix: release the constructed operators when configuring
 an engine fails

---
 src/Engine.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/Engine.cpp b/src/Engine.cpp
index 2271b68..e5676db 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -178,20 +178,20 @@ namespace fuzzylite {
         DefuzzifierFactory* defuzzFactory = FactoryManager::instance()->defuzzifier();
         ActivationFactory* activationFactory = FactoryManager::instance()->activation();
 
-        TNorm* conjunctionObject = tnormFactory->constructObject(conjunction);
-        SNorm* disjunctionObject = snormFactory->constructObject(disjunction);
-        TNorm* implicationObject = tnormFactory->constructObject(implication);
-        SNorm* aggregationObject = snormFactory->constructObject(aggregation);
-        Defuzzifier* defuzzifierObject = defuzzFactory->constructObject(defuzzifier);
-        Activation* activationObject = activationFactory->constructObject(activation);
+        FL_unique_ptr<TNorm> conjunctionObject(tnormFactory->constructObject(conjunction));
+        FL_unique_ptr<SNorm> disjunctionObject(snormFactory->constructObject(disjunction));
+        FL_unique_ptr<TNorm> implicationObject(tnormFactory->constructObject(implication));
+        FL_unique_ptr<SNorm> aggregationObject(snormFactory->constructObject(aggregation));
+        FL_unique_ptr<Defuzzifier> defuzzifierObject(defuzzFactory->constructObject(defuzzifier));
+        FL_unique_ptr<Activation> activationObject(activationFactory->constructObject(activation));
 
         configure(
-            conjunctionObject,
-            disjunctionObject,
-            implicationObject,
-            aggregationObject,
-            defuzzifierObject,
-            activationObject
+            conjunctionObject.release(),
+            disjunctionObject.release(),
+            implicationObject.release(),
+            aggregationObject.release(),
+            defuzzifierObject.release(),
+            activationObject.release()
         );
     }
 
-- 
2.43.0


From fa7b534753a12b878a8394fa410689fea66fcfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:42 +0000
Subject: [PATCH 13/42] fix: reject numbers that are not representable as
 integers instead of converting them

---
 fuzzylite/Operation.h      | 17 +++++++++++++++++
 src/Benchmark.cpp          |  2 +-
 src/Console.cpp            |  8 ++++----
 src/activation/First.cpp   |  2 +-
 src/activation/Highest.cpp |  2 +-
 src/activation/Last.cpp    |  2 +-
 src/activation/Lowest.cpp  |  2 +-
 src/imex/FisImporter.cpp   |  6 +++---
 src/imex/FldExporter.cpp   |  2 +-
 src/imex/FllImporter.cpp   |  2 +-
 10 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/fuzzylite/Operation.h b/fuzzylite/Operation.h
index a9d2b9f..5df9cdc 100644
--- a/fuzzylite/Operation.h
+++ b/fuzzylite/Operation.h
@@ -522,6 +522,15 @@ namespace fuzzylite {
          */
         static scalar toScalar(const std::string& x, scalar alternative, bool* ok = fl::null) FL_INOEXCEPT;
 
+        /**
+          Parses the given string into an integer value, truncating the decimals
+          @param x is the string to parse
+          @return the integer value from the given string
+          @throws fl::Exception if the given string does not contain a scalar
+          value or the value is not representable as an integer
+         */
+        static int toInt(const std::string& x);  // throws (fl::Exception)
+
         /**
           Parses the given string into a vector of scalar values
           @param x is the string containing space-separated values to parse
@@ -598,6 +607,7 @@ namespace fuzzylite {
 #include <cctype>
 #include <cstdarg>
 #include <iomanip>
+#include <limits>
 
 #include "fuzzylite/defuzzifier/Defuzzifier.h"
 #include "fuzzylite/norm/Norm.h"
@@ -945,6 +955,13 @@ namespace fuzzylite {
         throw Exception("[conversion error] from <" + x + "> to scalar", FL_AT);
     }
 
+    inline int Operation::toInt(const std::string& x) {
+        const scalar result = Op::toScalar(x);
+        if (not(result > std::numeric_limits<int>::min() - 1.0 and result < std::numeric_limits<int>::max() + 1.0))
+            throw Exception("[conversion error] from <" + x + "> to integer", FL_AT);
+        return static_cast<int>(result);
+    }
+
     inline scalar Operation::toScalar(const std::string& x, scalar alternative, bool* ok) FL_INOEXCEPT {
         if (ok)
             *ok = true;
diff --git a/src/Benchmark.cpp b/src/Benchmark.cpp
index d8f8c26..18c07d5 100644
--- a/src/Benchmark.cpp
+++ b/src/Benchmark.cpp
@@ -92,7 +92,7 @@ namespace fuzzylite {
             throw Exception("[benchmark error] engine not set before preparing for values and scope", FL_AT);
         int resolution;
         if (scope == FldExporter::AllVariables)
-            resolution = -1 + (int)std::max(1.0, std::pow(values, 1.0 / _engine->numberOfInputVariables()));
+            resolution = -1 + (int)std::max(1.0, std::pow(values, 1.0 / std::max<std::size_t>(1, _engine->numberOfInputVariables())));
         else  // if (scope == EachVariable)
             resolution = values - 1;
 
diff --git a/src/Console.cpp b/src/Console.cpp
index 33b8d3c..ee7e2d7 100644
--- a/src/Console.cpp
+++ b/src/Console.cpp
@@ -156,7 +156,7 @@ namespace fuzzylite {
 
         it = options.find(KW_DECIMALS);
         if (it != options.end())
-            fuzzylite::setDecimals((int)Op::toScalar(it->second));
+            fuzzylite::setDecimals(Op::toInt(it->second));
 
         std::string example;
         std::string inputFormat;
@@ -287,7 +287,7 @@ namespace fuzzylite {
                 }
 
             } else if ((it = options.find(KW_DATA_VALUES)) != options.end()) {
-                int values = (int)Op::toScalar(it->second);
+                int values = Op::toInt(it->second);
                 FldExporter::ScopeOfValues scope = FldExporter::EachVariable;
                 if ((it = options.find(KW_DATA_VALUES_SCOPE)) != options.end()) {
                     if ("AllVariables" == it->second)
@@ -1000,7 +1000,7 @@ namespace fuzzylite {
             std::string fllFile(argv[2]);
             std::string fldFile(argv[3]);
             try {
-                int runs = (int)Op::toScalar(argv[4]);
+                int runs = Op::toInt(argv[4]);
                 if (argc > 5) {
                     std::string filename(argv[5]);
                     std::ofstream outputFile;
@@ -1029,7 +1029,7 @@ namespace fuzzylite {
             std::string fllFiles(argv[2]);
             std::string fldFiles(argv[3]);
             try {
-                int runs = (int)Op::toScalar(argv[4]);
+                int runs = Op::toInt(argv[4]);
                 if (argc > 5) {
                     std::string filename(argv[5]);
                     std::ofstream outputFile;
diff --git a/src/activation/First.cpp b/src/activation/First.cpp
index 359a25c..d4d303a 100644
--- a/src/activation/First.cpp
+++ b/src/activation/First.cpp
@@ -49,7 +49,7 @@ namespace fuzzylite {
                << "> parameters";
             throw Exception(ex.str(), FL_AT);
         }
-        setNumberOfRules((int)Op::toScalar(values.at(0)));
+        setNumberOfRules(Op::toInt(values.at(0)));
         setThreshold(Op::toScalar(values.at(1)));
     }
 
diff --git a/src/activation/Highest.cpp b/src/activation/Highest.cpp
index 9cd79b5..adb9a72 100644
--- a/src/activation/Highest.cpp
+++ b/src/activation/Highest.cpp
@@ -41,7 +41,7 @@ namespace fuzzylite {
             return;
         const std::vector<std::string> values = Op::split(parameters, " ");
         if (not values.empty())
-            setNumberOfRules((int)Op::toScalar(values.front()));
+            setNumberOfRules(Op::toInt(values.front()));
     }
 
     int Highest::getNumberOfRules() const {
diff --git a/src/activation/Last.cpp b/src/activation/Last.cpp
index 2d7409d..a2ddfdf 100644
--- a/src/activation/Last.cpp
+++ b/src/activation/Last.cpp
@@ -49,7 +49,7 @@ namespace fuzzylite {
                << "> parameters";
             throw Exception(ex.str(), FL_AT);
         }
-        setNumberOfRules((int)Op::toScalar(values.at(0)));
+        setNumberOfRules(Op::toInt(values.at(0)));
         setThreshold(Op::toScalar(values.at(1)));
     }
 
diff --git a/src/activation/Lowest.cpp b/src/activation/Lowest.cpp
index 0fb4d45..a7b3b4b 100644
--- a/src/activation/Lowest.cpp
+++ b/src/activation/Lowest.cpp
@@ -41,7 +41,7 @@ namespace fuzzylite {
             return;
         const std::vector<std::string> values = Op::split(parameters, " ");
         if (not values.empty())
-            setNumberOfRules((int)Op::toScalar(values.front()));
+            setNumberOfRules(Op::toInt(values.front()));
     }
 
     int Lowest::getNumberOfRules() const {
diff --git a/src/imex/FisImporter.cpp b/src/imex/FisImporter.cpp
index 87c798c..ed06dfa 100644
--- a/src/imex/FisImporter.cpp
+++ b/src/imex/FisImporter.cpp
@@ -331,9 +331,7 @@ namespace fuzzylite {
     }
 
     std::string FisImporter::translateProposition(scalar code, Variable* variable) const {
-        int intPart = (int)std::floor(std::abs(code)) - 1;
-        scalar fracPart = std::fmod(std::abs(code), scalar(1.0));
-        if (intPart >= static_cast<int>(variable->numberOfTerms())) {
+        if (not(std::floor(std::abs(code)) <= variable->numberOfTerms())) {
             std::ostringstream ex;
             ex << "[syntax error] the code <" << code
                << "> refers to a term "
@@ -341,6 +339,8 @@ namespace fuzzylite {
                << variable->getName() << ">";
             throw Exception(ex.str(), FL_AT);
         }
+        int intPart = (int)std::floor(std::abs(code)) - 1;
+        scalar fracPart = std::fmod(std::abs(code), scalar(1.0));
 
         bool isAny = intPart < 0;
         std::ostringstream ss;
diff --git a/src/imex/FldExporter.cpp b/src/imex/FldExporter.cpp
index f1d20c3..b1eba08 100644
--- a/src/imex/FldExporter.cpp
+++ b/src/imex/FldExporter.cpp
@@ -210,7 +210,7 @@ namespace fuzzylite {
 
         int resolution;
         if (scope == AllVariables)
-            resolution = -1 + (int)std::max(1.0, std::pow(values, 1.0 / engine->numberOfInputVariables()));
+            resolution = -1 + (int)std::max(1.0, std::pow(values, 1.0 / std::max<std::size_t>(1, engine->numberOfInputVariables())));
         else  // if (scope == EachVariable)
             resolution = values - 1;
 
diff --git a/src/imex/FllImporter.cpp b/src/imex/FllImporter.cpp
index efbb374..034ac9e 100644
--- a/src/imex/FllImporter.cpp
+++ b/src/imex/FllImporter.cpp
@@ -299,7 +299,7 @@ namespace fuzzylite {
         if (parameters.size() > 1) {
             std::string parameter(parameters.at(1));
             if (IntegralDefuzzifier* integralDefuzzifier = dynamic_cast<IntegralDefuzzifier*>(defuzzifier)) {
-                integralDefuzzifier->setResolution((int)Op::toScalar(parameter));
+                integralDefuzzifier->setResolution(Op::toInt(parameter));
             } else if (WeightedDefuzzifier* weightedDefuzzifier = dynamic_cast<WeightedDefuzzifier*>(defuzzifier)) {
                 WeightedDefuzzifier::Type type = WeightedDefuzzifier::Automatic;
                 if (parameter == "Automatic")
-- 
2.43.0


From b96d612ca05e8c0f192bc33826db83fb49066681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:00 +0000
Subject: [PATCH 14/42] fix: release activation methods and defuzzifiers when
 their parameters are rejected in FLL

---
 src/imex/FllImporter.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/imex/FllImporter.cpp b/src/imex/FllImporter.cpp
index 034ac9e..23677f1 100644
--- a/src/imex/FllImporter.cpp
+++ b/src/imex/FllImporter.cpp
@@ -278,7 +278,7 @@ namespace fuzzylite {
         if (name == "none")
             return FactoryManager::instance()->activation()->constructObject("");
         std::vector<std::string> tokens = Op::split(name, " ");
-        Activation* result = FactoryManager::instance()->activation()->constructObject(tokens.front());
+        FL_unique_ptr<Activation> result(FactoryManager::instance()->activation()->constructObject(tokens.front()));
 
         std::ostringstream parameters;
         for (std::size_t i = 1; i < tokens.size(); ++i) {
@@ -287,7 +287,7 @@ namespace fuzzylite {
                 parameters << " ";
         }
         result->configure(parameters.str());
-        return result;
+        return result.release();
     }
 
     Defuzzifier* FllImporter::parseDefuzzifier(const std::string& text) const {
@@ -295,12 +295,12 @@ namespace fuzzylite {
         std::string name = parameters.at(0);
         if (name == "none")
             return FactoryManager::instance()->defuzzifier()->constructObject("");
-        Defuzzifier* defuzzifier = FactoryManager::instance()->defuzzifier()->constructObject(name);
+        FL_unique_ptr<Defuzzifier> defuzzifier(FactoryManager::instance()->defuzzifier()->constructObject(name));
         if (parameters.size() > 1) {
             std::string parameter(parameters.at(1));
-            if (IntegralDefuzzifier* integralDefuzzifier = dynamic_cast<IntegralDefuzzifier*>(defuzzifier)) {
+            if (IntegralDefuzzifier* integralDefuzzifier = dynamic_cast<IntegralDefuzzifier*>(defuzzifier.get())) {
                 integralDefuzzifier->setResolution(Op::toInt(parameter));
-            } else if (WeightedDefuzzifier* weightedDefuzzifier = dynamic_cast<WeightedDefuzzifier*>(defuzzifier)) {
+            } else if (WeightedDefuzzifier* weightedDefuzzifier = dynamic_cast<WeightedDefuzzifier*>(defuzzifier.get())) {
                 WeightedDefuzzifier::Type type = WeightedDefuzzifier::Automatic;
                 if (parameter == "Automatic")
                     type = WeightedDefuzzifier::Automatic;
@@ -315,7 +315,7 @@ namespace fuzzylite {
                 weightedDefuzzifier->setType(type);
             }
         }
-        return defuzzifier;
+        return defuzzifier.release();
     }
 
     std::pair<scalar, scalar> FllImporter::parseRange(const std::string& text) const {
-- 
2.43.0


From 26f006dd4706988f5ff4eefe260060d8def0b1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:00 +0000
Subject: [PATCH 15/42] fix: reject terms without class in FIS instead of
 dereferencing null

---
 src/imex/FisImporter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/imex/FisImporter.cpp b/src/imex/FisImporter.cpp
index ed06dfa..f5d606e 100644
--- a/src/imex/FisImporter.cpp
+++ b/src/imex/FisImporter.cpp
@@ -548,6 +548,8 @@ namespace fuzzylite {
 
         FL_unique_ptr<Term> term;
         term.reset(FactoryManager::instance()->term()->constructObject(flClass));
+        if (not term.get())
+            throw Exception("[syntax error] expected the class of term <" + name + ">, but none was found", FL_AT);
         term->updateReference(engine);
         term->setName(Op::validName(name));
         std::string separator;
-- 
2.43.0


From a6c0858572a4ea2ac543ecc36c31954c4eba0815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:14 +0000
Subject: [PATCH 16/42] fix: return NaN from discrete terms whose first or last
 x is NaN instead of reading out of bounds

---
 src/term/Discrete.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/term/Discrete.cpp b/src/term/Discrete.cpp
index 2017973..67914bb 100644
--- a/src/term/Discrete.cpp
+++ b/src/term/Discrete.cpp
@@ -69,6 +69,8 @@ namespace fuzzylite {
             return Term::_height * lowerBound->second;
         // find the upper bound starting from a copy of lowerBound
         const Bound upperBound(std::upper_bound(_xy.begin(), _xy.end(), value, compare));
+        if (lowerBound == _xy.begin() or upperBound == _xy.end())
+            return fl::nan;  // the coordinates of the first or last pair are not a number
         --lowerBound;  // One arithmetic
         return Term::_height
                * Op::scale(x, lowerBound->first, upperBound->first, lowerBound->second, upperBound->second);
-- 
2.43.0


From 801d07eaab8edf0300a13b83b5e5e6d5b33b5a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:14 +0000
Subject: [PATCH 17/42] fix: reject blank parameters of constant terms instead
 of reading from an empty vector

---
 src/term/Constant.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/term/Constant.cpp b/src/term/Constant.cpp
index 7dac2ab..a30c823 100644
--- a/src/term/Constant.cpp
+++ b/src/term/Constant.cpp
@@ -40,6 +40,8 @@ namespace fuzzylite {
         if (parameters.empty())
             return;
         std::vector<std::string> values = Op::split(parameters);
+        if (values.empty())
+            throw Exception("[configuration error] term <" + className() + "> requires <1> parameters", FL_AT);
         setValue(Op::toScalar(values.front()));
     }
 
-- 
2.43.0


From 86ff75ba0869b3e32fb7b45e50e74799fab2a89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:14 +0000
Subject: [PATCH 18/42] fix: reject rules that FIS cannot express instead of
 exporting a different rule

---
 src/imex/FisExporter.cpp | 51 ++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/imex/FisExporter.cpp b/src/imex/FisExporter.cpp
index 711c9af..c293e16 100644
--- a/src/imex/FisExporter.cpp
+++ b/src/imex/FisExporter.cpp
@@ -212,15 +212,25 @@ namespace fuzzylite {
         const std::vector<Proposition*>& propositions, const std::vector<Variable*> variables
     ) const {
         std::ostringstream ss;
+        std::size_t translated = 0;
         for (std::size_t ixVariable = 0; ixVariable < variables.size(); ++ixVariable) {
             Variable* variable = variables.at(ixVariable);
             std::size_t termIndexPlusOne = 0;
             scalar plusHedge = 0;
             int negated = 1;
+            bool isTranslated = false;
             for (std::size_t ixProposition = 0; ixProposition < propositions.size(); ++ixProposition) {
                 Proposition* proposition = propositions.at(ixProposition);
                 if (proposition->variable != variable)
                     continue;
+                if (isTranslated)
+                    throw Exception(
+                        "[exporter error] fis files do not support rules with multiple propositions about variable <"
+                            + variable->getName() + ">",
+                        FL_AT
+                    );
+                isTranslated = true;
+                ++translated;
 
                 for (std::size_t termIndex = 0; termIndex < variable->numberOfTerms(); ++termIndex) {
                     if (variable->getTerm(termIndex) == proposition->term) {
@@ -229,16 +239,17 @@ namespace fuzzylite {
                     }
                 }
 
-                std::vector<Hedge*> hedges = proposition->hedges;
-                if (hedges.size() > 1) {
-                    FL_DBG("[exporter warning] only a few combinations of multiple "
-                           "hedges are supported in fis files");
-                }
+                const std::vector<Hedge*>& hedges = proposition->hedges;
+                std::size_t modifiers = 0;
+                bool isSupported = true;
                 for (std::size_t ixHedge = 0; ixHedge < hedges.size(); ++ixHedge) {
                     Hedge* hedge = hedges.at(ixHedge);
-                    if (hedge->name() == Not().name())
+                    if (hedge->name() == Not().name()) {
                         negated *= -1;
-                    else if (hedge->name() == Extremely().name())
+                        isSupported = isSupported and modifiers == 0;
+                        continue;
+                    }
+                    if (hedge->name() == Extremely().name())
                         plusHedge += 0.3;
                     else if (hedge->name() == Very().name())
                         plusHedge += 0.2;
@@ -249,19 +260,29 @@ namespace fuzzylite {
                     else if (hedge->name() == Any().name())
                         plusHedge += 0.99;
                     else
-                        plusHedge = fl::nan;  // Unreconized hedge combination (e.g. Any)
+                        isSupported = false;
+                    ++modifiers;
                 }
-
-                break;
+                // only <very very> has a code among the combinations of hedges other than <not>
+                if (modifiers > 1 and not(modifiers == 2 and Op::isEq(plusHedge, 0.4)))
+                    isSupported = false;
+                if (not isSupported)
+                    throw Exception(
+                        "[exporter error] fis files do not support the hedges in proposition <" + proposition->toString()
+                            + ">",
+                        FL_AT
+                    );
             }
             if (negated < 0)
                 ss << "-";
-            if (not Op::isNaN(plusHedge))
-                ss << Op::str(termIndexPlusOne + plusHedge);
-            else
-                ss << termIndexPlusOne << ".?";  // Unreconized hedge combination
-            ss << " ";
+            ss << Op::str(termIndexPlusOne + plusHedge) << " ";
         }
+        if (translated != propositions.size())
+            throw Exception(
+                "[exporter error] fis files only support rules with "
+                "input variables in the antecedent and output variables in the consequent",
+                FL_AT
+            );
         return ss.str();
     }
 
-- 
2.43.0


From 12af1a4c080032b6d4e9a0cefaa70dca024dc392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:14 +0000
Subject: [PATCH 19/42] fix: close the quote of binary terms in FIS

---
 src/imex/FisExporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imex/FisExporter.cpp b/src/imex/FisExporter.cpp
index c293e16..3079813 100644
--- a/src/imex/FisExporter.cpp
+++ b/src/imex/FisExporter.cpp
@@ -358,7 +358,7 @@ namespace fuzzylite {
         }
 
         if (const Binary* x = dynamic_cast<const Binary*>(term)) {
-            ss << "'binarymf,[" << Op::join(2, " ", x->getStart(), x->getDirection()) << "]";
+            ss << "'binarymf',[" << Op::join(2, " ", x->getStart(), x->getDirection()) << "]";
             return ss.str();
         }
 
-- 
2.43.0


From 609ba2705334055b7407737363a6c66b8264288f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:34 +0000
Subject: [PATCH 20/42] fix: keep the spaces in formulas of function terms
 imported from FIS

---
 src/imex/FisImporter.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/imex/FisImporter.cpp b/src/imex/FisImporter.cpp
index f5d606e..f82fe93 100644
--- a/src/imex/FisImporter.cpp
+++ b/src/imex/FisImporter.cpp
@@ -552,10 +552,7 @@ namespace fuzzylite {
             throw Exception("[syntax error] expected the class of term <" + name + ">, but none was found", FL_AT);
         term->updateReference(engine);
         term->setName(Op::validName(name));
-        std::string separator;
-        if (not dynamic_cast<Function*>(term.get()))
-            separator = " ";
-        term->configure(Op::join(sortedParams, separator));
+        term->configure(Op::join(sortedParams, " "));
         return term.release();
     }
 
-- 
2.43.0


From 477e8029c310a478fe8f5c82ba0c87543def6076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:43 +0000
Subject: [PATCH 21/42] fix: keep exporting to FIS the rules about output
 variables only

---
 src/imex/FisExporter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/imex/FisExporter.cpp b/src/imex/FisExporter.cpp
index 3079813..adcc57e 100644
--- a/src/imex/FisExporter.cpp
+++ b/src/imex/FisExporter.cpp
@@ -277,10 +277,10 @@ namespace fuzzylite {
                 ss << "-";
             ss << Op::str(termIndexPlusOne + plusHedge) << " ";
         }
-        if (translated != propositions.size())
+        if (translated > 0 and translated != propositions.size())
             throw Exception(
-                "[exporter error] fis files only support rules with "
-                "input variables in the antecedent and output variables in the consequent",
+                "[exporter error] fis files do not support rules with "
+                "both input and output variables in the antecedent",
                 FL_AT
             );
         return ss.str();
-- 
2.43.0


From bf8bfc3460454c68f3ad05e5c632c938e7475850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:43 +0000
Subject: [PATCH 22/42] fix: keep the spaces in formulas of function terms
 imported from FCL

---
 src/imex/FclImporter.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/imex/FclImporter.cpp b/src/imex/FclImporter.cpp
index 56e49d4..1be8e40 100644
--- a/src/imex/FclImporter.cpp
+++ b/src/imex/FclImporter.cpp
@@ -429,10 +429,7 @@ namespace fuzzylite {
         term.reset(FactoryManager::instance()->term()->constructObject(termClass));
         term->updateReference(engine);
         term->setName(Op::validName(name));
-        std::string separator;
-        if (not dynamic_cast<Function*>(term.get()))
-            separator = " ";
-        term->configure(Op::join(parameters, separator));  // remove spaces for text of function
+        term->configure(Op::join(parameters, " "));
         return term.release();
     }
 
-- 
2.43.0


From 5c646e6ab87cddfe92923115047da1a1523c1945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:27 +0000
Subject: [PATCH 23/42] fix: keep the text of formulas of function terms
 imported from FCL as written

---
 src/imex/FclImporter.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/imex/FclImporter.cpp b/src/imex/FclImporter.cpp
index 1be8e40..342818f 100644
--- a/src/imex/FclImporter.cpp
+++ b/src/imex/FclImporter.cpp
@@ -412,10 +412,16 @@ namespace fuzzylite {
                     termClass = token;
                 }
                 state = S_PARAMETERS;
+                if (termClass == Function().className()) {
+                    // keep the text of the formula as it is
+                    const std::size_t start = line.find(termClass, line.find(":="));
+                    parameters.push_back(Op::trim(line.substr(start + termClass.size())));
+                    break;
+                }
                 continue;
             }
             if (state == S_PARAMETERS) {
-                if (termClass != Function().className() and (token == "(" or token == ")" or token == ","))
+                if (token == "(" or token == ")" or token == ",")
                     continue;
                 if (token == ";")
                     break;
-- 
2.43.0


From 40c3bff94d3f73958bef69f1776ec2d59dd4e001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:39 +0000
Subject: [PATCH 24/42] fix: prefix weighted defuzzifiers with the namespace in
 exported C++ code

---
 src/imex/CppExporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imex/CppExporter.cpp b/src/imex/CppExporter.cpp
index d2d0171..1d40d3b 100644
--- a/src/imex/CppExporter.cpp
+++ b/src/imex/CppExporter.cpp
@@ -238,7 +238,7 @@ namespace fuzzylite {
                    + ")";
         }
         if (const WeightedDefuzzifier* weightedDefuzzifier = dynamic_cast<const WeightedDefuzzifier*>(defuzzifier))
-            return "new " + weightedDefuzzifier->className() + "(\"" + weightedDefuzzifier->getTypeName() + "\")";
+            return "new " + fl(weightedDefuzzifier->className()) + "(\"" + weightedDefuzzifier->getTypeName() + "\")";
         return "new " + fl(defuzzifier->className());
     }
 
-- 
2.43.0


From 13349f3067fb2381c24aee4c58523ca7032cec6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:51 +0000
Subject: [PATCH 25/42] fix: write infinite and NaN parameters of terms as
 valid expressions in C++ and Java

---
 fuzzylite/imex/CppExporter.h  |  2 ++
 fuzzylite/imex/JavaExporter.h |  2 ++
 src/imex/CppExporter.cpp      | 14 +++++++++++---
 src/imex/JavaExporter.cpp     | 14 +++++++++++---
 4 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/fuzzylite/imex/CppExporter.h b/fuzzylite/imex/CppExporter.h
index 48cb066..0d9db90 100644
--- a/fuzzylite/imex/CppExporter.h
+++ b/fuzzylite/imex/CppExporter.h
@@ -46,6 +46,8 @@ namespace fuzzylite {
         bool _usingNamespace;
         bool _usingVariableNames;
 
+        std::string literals(const std::string& parameters) const;
+
       public:
         explicit CppExporter(bool usingNamespace = false, bool usingVariableNames = true);
         virtual ~CppExporter() FL_IOVERRIDE;
diff --git a/fuzzylite/imex/JavaExporter.h b/fuzzylite/imex/JavaExporter.h
index 0a9bac0..7b77711 100644
--- a/fuzzylite/imex/JavaExporter.h
+++ b/fuzzylite/imex/JavaExporter.h
@@ -47,6 +47,8 @@ namespace fuzzylite {
       private:
         bool _usingVariableNames;
 
+        std::string literals(const std::string& parameters) const;
+
       public:
         explicit JavaExporter(bool usingVariableNames = true);
         virtual ~JavaExporter() FL_IOVERRIDE;
diff --git a/src/imex/CppExporter.cpp b/src/imex/CppExporter.cpp
index 1d40d3b..3bb34fb 100644
--- a/src/imex/CppExporter.cpp
+++ b/src/imex/CppExporter.cpp
@@ -176,6 +176,14 @@ namespace fuzzylite {
         return Op::str(value);
     }
 
+    std::string CppExporter::literals(const std::string& parameters) const {
+        std::vector<std::string> values = Op::split(parameters, " ");
+        for (std::size_t i = 0; i < values.size(); ++i)
+            if (Op::isNumeric(values.at(i)) and not Op::isFinite(Op::toScalar(values.at(i))))
+                values.at(i) = toString(Op::toScalar(values.at(i)));
+        return Op::join(values, ", ");
+    }
+
     std::string CppExporter::toString(const Term* term) const {
         if (not term)
             return "fl::null";
@@ -184,7 +192,7 @@ namespace fuzzylite {
         if (const Discrete* discrete = dynamic_cast<const Discrete*>(term)) {
             std::ostringstream ss;
             ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << (discrete->xy().size() * 2)
-               << ", " << Op::join(Discrete::toVector(discrete->xy()), ", ") << ")";
+               << ", " << literals(Op::join(Discrete::toVector(discrete->xy()), " ")) << ")";
             return ss.str();
         }
 
@@ -198,13 +206,13 @@ namespace fuzzylite {
         if (const Linear* linear = dynamic_cast<const Linear*>(term)) {
             std::ostringstream ss;
             ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << "engine, "
-               << Op::join(linear->coefficients(), ", ") << ")";
+               << literals(Op::join(linear->coefficients(), " ")) << ")";
             return ss.str();
         }
 
         std::ostringstream ss;
         ss << "new " << fl(term->className()) << "(\"" << term->getName() << "\", "
-           << Op::findReplace(term->parameters(), " ", ", ") << ")";
+           << literals(term->parameters()) << ")";
         return ss.str();
     }
 
diff --git a/src/imex/JavaExporter.cpp b/src/imex/JavaExporter.cpp
index 8388433..0097617 100644
--- a/src/imex/JavaExporter.cpp
+++ b/src/imex/JavaExporter.cpp
@@ -150,6 +150,14 @@ namespace fuzzylite {
         return ss.str();
     }
 
+    std::string JavaExporter::literals(const std::string& parameters) const {
+        std::vector<std::string> values = Op::split(parameters, " ");
+        for (std::size_t i = 0; i < values.size(); ++i)
+            if (Op::isNumeric(values.at(i)) and not Op::isFinite(Op::toScalar(values.at(i))))
+                values.at(i) = toString(Op::toScalar(values.at(i)));
+        return Op::join(values, ", ");
+    }
+
     std::string JavaExporter::toString(const Term* term) const {
         if (not term)
             return "null";
@@ -158,7 +166,7 @@ namespace fuzzylite {
             std::ostringstream ss;
             std::vector<scalar> xy;
             ss << term->className() << ".create(\"" << term->getName() << "\", "
-               << Op::join(Discrete::toVector(discrete->xy()), ", ") << ")";
+               << literals(Op::join(Discrete::toVector(discrete->xy()), " ")) << ")";
             return ss.str();
         }
 
@@ -172,13 +180,13 @@ namespace fuzzylite {
         if (const Linear* linear = dynamic_cast<const Linear*>(term)) {
             std::ostringstream ss;
             ss << term->className() << ".create(\"" << term->getName() << "\", " << "engine, "
-               << Op::join(linear->coefficients(), ", ") << ")";
+               << literals(Op::join(linear->coefficients(), " ")) << ")";
             return ss.str();
         }
 
         std::ostringstream ss;
         ss << "new " << term->className() << "(\"" << term->getName() << "\", "
-           << Op::findReplace(term->parameters(), " ", ", ") << ")";
+           << literals(term->parameters()) << ")";
         return ss.str();
     }
 
-- 
2.43.0


From fbc6609b4c6dcc77b516a7295b753f197193b6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:15 +0000
Subject: [PATCH 26/42] fix: escape quotes, backslashes and newlines of
 descriptions and names in C++ and Java

---
 src/imex/CppExporter.cpp  | 19 +++++++++++++------
 src/imex/JavaExporter.cpp | 19 +++++++++++++------
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/imex/CppExporter.cpp b/src/imex/CppExporter.cpp
index 3bb34fb..3378245 100644
--- a/src/imex/CppExporter.cpp
+++ b/src/imex/CppExporter.cpp
@@ -21,6 +21,13 @@ fuzzylite is a registered trademark of FuzzyLite Limited.
 
 namespace fuzzylite {
 
+    static std::string quoted(const std::string& text) {
+        std::string escaped = Op::findReplace(text, "\\", "\\\\");
+        escaped = Op::findReplace(escaped, "\"", "\\\"");
+        escaped = Op::findReplace(escaped, "\n", "\\n");
+        return "\"" + escaped + "\"";
+    }
+
     CppExporter::CppExporter(bool prefixNamespace, bool usingVariableNames) :
         Exporter(),
         _usingNamespace(prefixNamespace),
@@ -58,8 +65,8 @@ namespace fuzzylite {
         if (not isUsingNamespace())
             cpp << "using namespace fuzzylite;\n\n";
         cpp << fl("Engine* ") << "engine = new " << fl("Engine;\n");
-        cpp << "engine->setName(\"" << engine->getName() << "\");\n";
-        cpp << "engine->setDescription(\"" << engine->getDescription() << "\");\n";
+        cpp << "engine->setName(" << quoted(engine->getName()) << ");\n";
+        cpp << "engine->setDescription(" << quoted(engine->getDescription()) << ");\n";
 
         cpp << "\n";
 
@@ -92,7 +99,7 @@ namespace fuzzylite {
         std::ostringstream ss;
         ss << fl("InputVariable* ") << name << " = new " << fl("InputVariable;\n");
         ss << name << "->setName(\"" << inputVariable->getName() << "\");\n";
-        ss << name << "->setDescription(\"" << inputVariable->getDescription() << "\");\n";
+        ss << name << "->setDescription(" << quoted(inputVariable->getDescription()) << ");\n";
         ss << name << "->setEnabled(" << (inputVariable->isEnabled() ? "true" : "false") << ");\n";
         ss << name << "->setRange(" << toString(inputVariable->getMinimum()) << ", "
            << toString(inputVariable->getMaximum()) << ");\n";
@@ -120,7 +127,7 @@ namespace fuzzylite {
         std::ostringstream ss;
         ss << fl("OutputVariable* ") << name << " = new " << fl("OutputVariable;\n");
         ss << name << "->setName(\"" << outputVariable->getName() << "\");\n";
-        ss << name << "->setDescription(\"" << outputVariable->getDescription() << "\");\n";
+        ss << name << "->setDescription(" << quoted(outputVariable->getDescription()) << ");\n";
         ss << name << "->setEnabled(" << (outputVariable->isEnabled() ? "true" : "false") << ");\n";
         ss << name << "->setRange(" << toString(outputVariable->getMinimum()) << ", "
            << toString(outputVariable->getMaximum()) << ");\n";
@@ -153,8 +160,8 @@ namespace fuzzylite {
 
         std::ostringstream ss;
         ss << fl("RuleBlock* ") << name << " = new " << fl("RuleBlock;\n");
-        ss << name << "->setName(\"" << ruleBlock->getName() << "\");\n";
-        ss << name << "->setDescription(\"" << ruleBlock->getDescription() << "\");\n";
+        ss << name << "->setName(" << quoted(ruleBlock->getName()) << ");\n";
+        ss << name << "->setDescription(" << quoted(ruleBlock->getDescription()) << ");\n";
         ss << name << "->setEnabled(" << (ruleBlock->isEnabled() ? "true" : "false") << ");\n";
         ss << name << "->setConjunction(" << toString(ruleBlock->getConjunction()) << ");\n";
         ss << name << "->setDisjunction(" << toString(ruleBlock->getDisjunction()) << ");\n";
diff --git a/src/imex/JavaExporter.cpp b/src/imex/JavaExporter.cpp
index 0097617..68cfdb0 100644
--- a/src/imex/JavaExporter.cpp
+++ b/src/imex/JavaExporter.cpp
@@ -21,6 +21,13 @@ fuzzylite is a registered trademark of FuzzyLite Limited.
 
 namespace fuzzylite {
 
+    static std::string quoted(const std::string& text) {
+        std::string escaped = Op::findReplace(text, "\\", "\\\\");
+        escaped = Op::findReplace(escaped, "\"", "\\\"");
+        escaped = Op::findReplace(escaped, "\n", "\\n");
+        return "\"" + escaped + "\"";
+    }
+
     JavaExporter::JavaExporter(bool usingVariableNames) : Exporter(), _usingVariableNames(usingVariableNames) {}
 
     JavaExporter::~JavaExporter() {}
@@ -41,8 +48,8 @@ namespace fuzzylite {
         std::ostringstream ss;
         ss << "//Code automatically generated with " << fuzzylite::library() << ".\n\n";
         ss << "Engine engine = new Engine();\n";
-        ss << "engine.setName(\"" << engine->getName() << "\");\n";
-        ss << "engine.setDescription(\"" << engine->getDescription() << "\");\n";
+        ss << "engine.setName(" << quoted(engine->getName()) << ");\n";
+        ss << "engine.setDescription(" << quoted(engine->getDescription()) << ");\n";
         ss << "\n";
 
         for (std::size_t i = 0; i < engine->numberOfInputVariables(); ++i)
@@ -74,7 +81,7 @@ namespace fuzzylite {
         }
         ss << "InputVariable " << name << " = new InputVariable();\n";
         ss << name << ".setName(\"" << inputVariable->getName() << "\");\n";
-        ss << name << ".setDescription(\"" << inputVariable->getDescription() << "\");\n";
+        ss << name << ".setDescription(" << quoted(inputVariable->getDescription()) << ");\n";
         ss << name << ".setEnabled(" << (inputVariable->isEnabled() ? "true" : "false") << ");\n";
         ss << name << ".setRange(" << toString(inputVariable->getMinimum()) << ", "
            << toString(inputVariable->getMaximum()) << ");\n";
@@ -102,7 +109,7 @@ namespace fuzzylite {
         }
         ss << "OutputVariable " << name << " = new OutputVariable();\n";
         ss << name << ".setName(\"" << outputVariable->getName() << "\");\n";
-        ss << name << ".setDescription(\"" << outputVariable->getDescription() << "\");\n";
+        ss << name << ".setDescription(" << quoted(outputVariable->getDescription()) << ");\n";
         ss << name << ".setEnabled(" << (outputVariable->isEnabled() ? "true" : "false") << ");\n";
         ss << name << ".setRange(" << toString(outputVariable->getMinimum()) << ", "
            << toString(outputVariable->getMaximum()) << ");\n";
@@ -135,8 +142,8 @@ namespace fuzzylite {
         }
 
         ss << "RuleBlock " << name << " = new RuleBlock();\n";
-        ss << name << ".setName(\"" << ruleBlock->getName() << "\");\n";
-        ss << name << ".setDescription(\"" << ruleBlock->getDescription() << "\");\n";
+        ss << name << ".setName(" << quoted(ruleBlock->getName()) << ");\n";
+        ss << name << ".setDescription(" << quoted(ruleBlock->getDescription()) << ");\n";
         ss << name << ".setEnabled(" << (ruleBlock->isEnabled() ? "true" : "false") << ");\n";
         ss << name << ".setConjunction(" << toString(ruleBlock->getConjunction()) << ");\n";
         ss << name << ".setDisjunction(" << toString(ruleBlock->getDisjunction()) << ");\n";
-- 
2.43.0


From 8edf06db4aad330ce7d944a110659cdd9af30c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:33 +0000
Subject: [PATCH 27/42] fix: export the height of discrete terms to C++ and
 Java

---
 src/imex/CppExporter.cpp  | 8 +++++---
 src/imex/JavaExporter.cpp | 6 ++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/imex/CppExporter.cpp b/src/imex/CppExporter.cpp
index 3378245..f7be956 100644
--- a/src/imex/CppExporter.cpp
+++ b/src/imex/CppExporter.cpp
@@ -195,11 +195,13 @@ namespace fuzzylite {
         if (not term)
             return "fl::null";
 
-        // todo: export height in Discrete
         if (const Discrete* discrete = dynamic_cast<const Discrete*>(term)) {
+            std::vector<scalar> xy = Discrete::toVector(discrete->xy());
+            if (not Op::isEq(discrete->getHeight(), 1.0))
+                xy.push_back(discrete->getHeight());
             std::ostringstream ss;
-            ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << (discrete->xy().size() * 2)
-               << ", " << literals(Op::join(Discrete::toVector(discrete->xy()), " ")) << ")";
+            ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << xy.size()
+               << ", " << literals(Op::join(xy, " ")) << ")";
             return ss.str();
         }
 
diff --git a/src/imex/JavaExporter.cpp b/src/imex/JavaExporter.cpp
index 68cfdb0..c823fe1 100644
--- a/src/imex/JavaExporter.cpp
+++ b/src/imex/JavaExporter.cpp
@@ -170,10 +170,12 @@ namespace fuzzylite {
             return "null";
 
         if (const Discrete* discrete = dynamic_cast<const Discrete*>(term)) {
+            std::vector<scalar> xy = Discrete::toVector(discrete->xy());
+            if (not Op::isEq(discrete->getHeight(), 1.0))
+                xy.push_back(discrete->getHeight());
             std::ostringstream ss;
-            std::vector<scalar> xy;
             ss << term->className() << ".create(\"" << term->getName() << "\", "
-               << literals(Op::join(Discrete::toVector(discrete->xy()), " ")) << ")";
+               << literals(Op::join(xy, " ")) << ")";
             return ss.str();
         }
 
-- 
2.43.0


From 0132e1681460bb5e322180803c4157fceb7c7aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:33 +0000
Subject: [PATCH 28/42] fix: export to C++ as many coefficients of linear terms
 as Linear::create reads

---
 src/imex/CppExporter.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/imex/CppExporter.cpp b/src/imex/CppExporter.cpp
index f7be956..1eadc65 100644
--- a/src/imex/CppExporter.cpp
+++ b/src/imex/CppExporter.cpp
@@ -213,9 +213,17 @@ namespace fuzzylite {
         }
 
         if (const Linear* linear = dynamic_cast<const Linear*>(term)) {
+            std::vector<scalar> coefficients = linear->coefficients();
+            if (const Engine* engine = linear->getEngine()) {
+                // Linear::create reads exactly one coefficient per input variable and the constant
+                const std::size_t inputs = engine->numberOfInputVariables();
+                if (coefficients.size() > inputs + 1)
+                    coefficients.erase(coefficients.begin() + inputs, coefficients.end() - 1);
+                coefficients.resize(inputs + 1, 0.0);
+            }
             std::ostringstream ss;
             ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << "engine, "
-               << literals(Op::join(linear->coefficients(), " ")) << ")";
+               << literals(Op::join(coefficients, " ")) << ")";
             return ss.str();
         }
 
-- 
2.43.0


From 1a4c99084b947eebf8b4cb7dbbeb53d826092576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 29/42] fix: escape quotes and backslashes of names,
 descriptions and FLL in R scripts

---
 src/imex/RScriptExporter.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/imex/RScriptExporter.cpp b/src/imex/RScriptExporter.cpp
index eca605f..62db7e3 100644
--- a/src/imex/RScriptExporter.cpp
+++ b/src/imex/RScriptExporter.cpp
@@ -20,12 +20,20 @@ fuzzylite is a registered trademark of FuzzyLite Limited.
 #include <fstream>
 
 #include "fuzzylite/Engine.h"
+#include "fuzzylite/Operation.h"
 #include "fuzzylite/imex/FllExporter.h"
 #include "fuzzylite/variable/InputVariable.h"
 #include "fuzzylite/variable/OutputVariable.h"
 
 namespace fuzzylite {
 
+    // writes the text as a string literal
+    static std::string quoted(const std::string& text) {
+        std::string escaped = Op::findReplace(text, "\\", "\\\\");
+        escaped = Op::findReplace(escaped, "\"", "\\\"");
+        return "\"" + escaped + "\"";
+    }
+
     RScriptExporter::RScriptExporter() :
         Exporter(),
         _minimumColor("yellow"),
@@ -212,10 +220,10 @@ namespace fuzzylite {
         writer << "#Code automatically generated with " << fuzzylite::library() << ".\n\n"
                << "library(ggplot2);\n"
                << "\n";
-        writer << "engine.name = \"" << engine->getName() << "\"\n";
+        writer << "engine.name = " << quoted(engine->getName()) << "\n";
         if (not engine->getDescription().empty())
-            writer << "engine.description = \"" << engine->getDescription() << "\"\n";
-        writer << "engine.fll = \"" << FllExporter().toString(engine) << "\"\n\n";
+            writer << "engine.description = " << quoted(engine->getDescription()) << "\n";
+        writer << "engine.fll = " << quoted(FllExporter().toString(engine)) << "\n\n";
     }
 
     void RScriptExporter::writeScriptPlots(
-- 
2.43.0


From 36f5c5e01e827d14c2e72f67779210bdfcb3c8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:29 +0000
Subject: [PATCH 30/42] fix: convert the times of the runs to the unit of the
 results

---
 src/Benchmark.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Benchmark.cpp b/src/Benchmark.cpp
index 18c07d5..5059d91 100644
--- a/src/Benchmark.cpp
+++ b/src/Benchmark.cpp
@@ -413,9 +413,10 @@ namespace fuzzylite {
 
         if (includeTimes) {
             for (std::size_t i = 0; i < time.size(); ++i) {
-                result.push_back(
-                    Result("t" + Op::str(i + 1), Op::str(time.at(i), unit == NanoSeconds ? 0 : fuzzylite::decimals()))
-                );
+                result.push_back(Result(
+                    "t" + Op::str(i + 1),
+                    Op::str(convert(time.at(i), NanoSeconds, unit), unit == NanoSeconds ? 0 : fuzzylite::decimals())
+                ));
             }
         }
         return result;
-- 
2.43.0


From ba3b881a041d7cae36d9bd2fdbd8bd45368af7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 31/42] fix: describe activated terms that have no term

---
 src/term/Activated.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/term/Activated.cpp b/src/term/Activated.cpp
index 064c8d4..3699187 100644
--- a/src/term/Activated.cpp
+++ b/src/term/Activated.cpp
@@ -58,7 +58,8 @@ namespace fuzzylite {
     std::string Activated::parameters() const {
         FllExporter exporter;
         std::ostringstream ss;
-        ss << Op::str(getDegree()) << " " << exporter.toString(getImplication()) << " " << exporter.toString(getTerm());
+        ss << Op::str(getDegree()) << " " << exporter.toString(getImplication()) << " "
+           << (getTerm() ? exporter.toString(getTerm()) : "none");
         return ss.str();
     }
 
@@ -70,11 +71,10 @@ namespace fuzzylite {
         FllExporter exporter;
         std::ostringstream ss;
         if (getImplication()) {
-            ss << exporter.toString(getImplication()) << "(" << Op::str(getDegree()) << "," << getTerm()->getName()
-               << ")";
+            ss << exporter.toString(getImplication()) << "(" << Op::str(getDegree()) << "," << getName() << ")";
         } else {
             ss << "(" << Op::str(getDegree()) << "*"  //"\u2297: (*)"
-               << getTerm()->getName() << ")";
+               << getName() << ")";
         }
         return ss.str();
     }
@@ -110,7 +110,7 @@ namespace fuzzylite {
     std::string Activated::fuzzyValue() const {
         std::stringstream ss;
         const scalar y = getDegree();
-        ss << (y >= 0 or Op::isNaN(y) ? '+' : '-') << Op::str(std::abs(y)) << '/' << getTerm()->getName();
+        ss << (y >= 0 or Op::isNaN(y) ? '+' : '-') << Op::str(std::abs(y)) << '/' << getName();
         return ss.str();
     }
 
-- 
2.43.0


From 64a5d0ff2d21eb881d175ef345208ef4c5f55216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:05 +0000
Subject: [PATCH 32/42] fix: sort terms whose centroid is not a number after
 the others

---
 src/variable/Variable.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/variable/Variable.cpp b/src/variable/Variable.cpp
index 709e1b1..4daf227 100644
--- a/src/variable/Variable.cpp
+++ b/src/variable/Variable.cpp
@@ -217,6 +217,8 @@ namespace fuzzylite {
             } catch (...) {  // ignore error possibly due to Function not loaded
                 centroid = fl::inf;
             }
+            if (Op::isNaN(centroid))  // a centroid that is not a number cannot be ordered
+                centroid = fl::inf;
             termCentroids.push(TermCentroid(term, centroid));
             FL_DBG(term->toString() << " -> " << centroid)
         }
-- 
2.43.0


From 534c384aacd8ef598a692500bd18972eae89bb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 33/42] fix: do not keep evaluating the former formula when a
 new one is invalid

---
 src/term/Function.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/term/Function.cpp b/src/term/Function.cpp
index 967cdc4..ba2b05d 100644
--- a/src/term/Function.cpp
+++ b/src/term/Function.cpp
@@ -442,6 +442,7 @@ namespace fuzzylite {
     void Function::load(const std::string& formula, const Engine* engine) {
         setFormula(formula);
         setEngine(engine);
+        this->_root.reset(fl::null);  // the former formula must not remain if the new one is invalid
         this->_root.reset(parse(formula));
         // TODO: Remove execution of membership because it does not allow to pass variables different from x
         membership(0.0);  // make sure function evaluates without throwing exception.
-- 
2.43.0


From 2e5d73fc2670f3bf01f146ffe26e338496a6bf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:22 +0000
Subject: [PATCH 34/42] fix: return the status of the console from main

---
 src/main.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index d93fa6a..5cfdf92 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -34,10 +34,9 @@ int main(int argc, const char* argv[]) {
     fl::fuzzylite::setDebugging(false);
 
     try {
-        fl::Console::main(argc, argv);
+        return fl::Console::main(argc, argv);
     } catch (std::exception& ex) {
         std::cout << ex.what() << "\nBACKTRACE:\n" << fl::Exception::btCallStack() << std::endl;
         return EXIT_FAILURE;
     }
-    return EXIT_SUCCESS;
 }
-- 
2.43.0


From 016d60470a83787458e954870e5ddcc085738827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:22 +0000
Subject: [PATCH 35/42] fix: discard current inputs when restarting the
 interactive console

---
 src/Console.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Console.cpp b/src/Console.cpp
index ee7e2d7..afd40dc 100644
--- a/src/Console.cpp
+++ b/src/Console.cpp
@@ -398,7 +398,7 @@ namespace fuzzylite {
                 case 'R':
                     engine->restart();
                     buffer << "#[Restart]";
-                    continue;  // fall through
+                    // fall through
                 case 'd':
                 case 'D':
                     inputValues.clear();
-- 
2.43.0


From 99f0b858116292ba0f52543dda0bfd00ec00ff76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:42 +0000
Subject: [PATCH 36/42] fix: build the examples of the console before setting
 the decimals

---
 src/Console.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Console.cpp b/src/Console.cpp
index afd40dc..31eb81d 100644
--- a/src/Console.cpp
+++ b/src/Console.cpp
@@ -154,10 +154,6 @@ namespace fuzzylite {
     void Console::process(const std::map<std::string, std::string>& options) {
         std::map<std::string, std::string>::const_iterator it;
 
-        it = options.find(KW_DECIMALS);
-        if (it != options.end())
-            fuzzylite::setDecimals(Op::toInt(it->second));
-
         std::string example;
         std::string inputFormat;
         std::ostringstream textEngine;
@@ -204,6 +200,10 @@ namespace fuzzylite {
             }
         }
 
+        it = options.find(KW_DECIMALS);
+        if (it != options.end())
+            fuzzylite::setDecimals(Op::toInt(it->second));
+
         std::string outputFilename;
         it = options.find(KW_OUTPUT_FILE);
         if (it != options.end())
-- 
2.43.0


From 58852adb693a8ffaab840e2900ec3d51c437b68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 37/42] fix: show the outputs as processed in the interactive
 console

---
 src/Console.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Console.cpp b/src/Console.cpp
index 31eb81d..28734ba 100644
--- a/src/Console.cpp
+++ b/src/Console.cpp
@@ -429,7 +429,6 @@ namespace fuzzylite {
                         std::vector<scalar> outputValues;
                         for (std::size_t i = 0; i < engine->outputVariables().size(); ++i) {
                             OutputVariable* outputVariable = engine->outputVariables().at(i);
-                            outputVariable->defuzzify();
                             outputValues.push_back(outputVariable->getValue());
                         }
                         buffer << Op::join(outputValues, space) << "\n>";
-- 
2.43.0


From 1af754087116c0bad65fe5d7da8aff44398c1ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 38/42] fix: keep the weights of rules in FIS as written

---
 src/imex/FisImporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imex/FisImporter.cpp b/src/imex/FisImporter.cpp
index f82fe93..8e1671e 100644
--- a/src/imex/FisImporter.cpp
+++ b/src/imex/FisImporter.cpp
@@ -319,7 +319,7 @@ namespace fuzzylite {
 
             scalar weight = Op::toScalar(ss.str());
             if (not Op::isEq(weight, 1.0))
-                ruleText << " " << Rule::withKeyword() << " " << Op::str(weight);
+                ruleText << " " << Rule::withKeyword() << " " << ss.str();
             Rule* rule = new Rule(ruleText.str());
             try {
                 rule->load(engine);
-- 
2.43.0


From beb413ccde58936b7a233bebfb8556d84608a1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 39/42] fix: escape every text and write non-finite activation
 parameters in exported C++ and Java

---
 src/imex/CppExporter.cpp  | 20 ++++++++++----------
 src/imex/JavaExporter.cpp | 18 +++++++++---------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/imex/CppExporter.cpp b/src/imex/CppExporter.cpp
index 1eadc65..8d2a055 100644
--- a/src/imex/CppExporter.cpp
+++ b/src/imex/CppExporter.cpp
@@ -98,7 +98,7 @@ namespace fuzzylite {
         }
         std::ostringstream ss;
         ss << fl("InputVariable* ") << name << " = new " << fl("InputVariable;\n");
-        ss << name << "->setName(\"" << inputVariable->getName() << "\");\n";
+        ss << name << "->setName(" << quoted(inputVariable->getName()) << ");\n";
         ss << name << "->setDescription(" << quoted(inputVariable->getDescription()) << ");\n";
         ss << name << "->setEnabled(" << (inputVariable->isEnabled() ? "true" : "false") << ");\n";
         ss << name << "->setRange(" << toString(inputVariable->getMinimum()) << ", "
@@ -126,7 +126,7 @@ namespace fuzzylite {
         }
         std::ostringstream ss;
         ss << fl("OutputVariable* ") << name << " = new " << fl("OutputVariable;\n");
-        ss << name << "->setName(\"" << outputVariable->getName() << "\");\n";
+        ss << name << "->setName(" << quoted(outputVariable->getName()) << ");\n";
         ss << name << "->setDescription(" << quoted(outputVariable->getDescription()) << ");\n";
         ss << name << "->setEnabled(" << (outputVariable->isEnabled() ? "true" : "false") << ");\n";
         ss << name << "->setRange(" << toString(outputVariable->getMinimum()) << ", "
@@ -168,8 +168,8 @@ namespace fuzzylite {
         ss << name << "->setImplication(" << toString(ruleBlock->getImplication()) << ");\n";
         ss << name << "->setActivation(" << toString(ruleBlock->getActivation()) << ");\n";
         for (std::size_t r = 0; r < ruleBlock->numberOfRules(); ++r) {
-            ss << name << "->addRule(" << fl("Rule") << "::parse(\"" << ruleBlock->getRule(r)->getText()
-               << "\", engine));\n";
+            ss << name << "->addRule(" << fl("Rule") << "::parse(" << quoted(ruleBlock->getRule(r)->getText())
+               << ", engine));\n";
         }
         ss << "engine->addRuleBlock(" << name << ");\n";
         return ss.str();
@@ -200,15 +200,15 @@ namespace fuzzylite {
             if (not Op::isEq(discrete->getHeight(), 1.0))
                 xy.push_back(discrete->getHeight());
             std::ostringstream ss;
-            ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << xy.size()
+            ss << fl(term->className()) << "::create(" << quoted(term->getName()) << ", " << xy.size()
                << ", " << literals(Op::join(xy, " ")) << ")";
             return ss.str();
         }
 
         if (const Function* function = dynamic_cast<const Function*>(term)) {
             std::ostringstream ss;
-            ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << "\"" << function->getFormula()
-               << "\", engine)";
+            ss << fl(term->className()) << "::create(" << quoted(term->getName()) << ", " << quoted(function->getFormula())
+               << ", engine)";
             return ss.str();
         }
 
@@ -222,13 +222,13 @@ namespace fuzzylite {
                 coefficients.resize(inputs + 1, 0.0);
             }
             std::ostringstream ss;
-            ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << "engine, "
+            ss << fl(term->className()) << "::create(" << quoted(term->getName()) << ", " << "engine, "
                << literals(Op::join(coefficients, " ")) << ")";
             return ss.str();
         }
 
         std::ostringstream ss;
-        ss << "new " << fl(term->className()) << "(\"" << term->getName() << "\", "
+        ss << "new " << fl(term->className()) << "(" << quoted(term->getName()) << ", "
            << literals(term->parameters()) << ")";
         return ss.str();
     }
@@ -277,7 +277,7 @@ namespace fuzzylite {
         std::vector<std::string> values = Op::split(parameters, " ");
         for (std::size_t i = 0; i < values.size(); ++i) {
             std::string parameter = values.at(i);
-            values.at(i) = (Op::isNumeric(parameter) ? parameter : ("\"" + parameter + "\""));
+            values.at(i) = (Op::isNumeric(parameter) ? literals(parameter) : quoted(parameter));
         }
         return "new " + fl(activation->className()) + "(" + Op::join(values, ", ") + ")";
     }
diff --git a/src/imex/JavaExporter.cpp b/src/imex/JavaExporter.cpp
index c823fe1..e983b23 100644
--- a/src/imex/JavaExporter.cpp
+++ b/src/imex/JavaExporter.cpp
@@ -80,7 +80,7 @@ namespace fuzzylite {
             }
         }
         ss << "InputVariable " << name << " = new InputVariable();\n";
-        ss << name << ".setName(\"" << inputVariable->getName() << "\");\n";
+        ss << name << ".setName(" << quoted(inputVariable->getName()) << ");\n";
         ss << name << ".setDescription(" << quoted(inputVariable->getDescription()) << ");\n";
         ss << name << ".setEnabled(" << (inputVariable->isEnabled() ? "true" : "false") << ");\n";
         ss << name << ".setRange(" << toString(inputVariable->getMinimum()) << ", "
@@ -108,7 +108,7 @@ namespace fuzzylite {
             }
         }
         ss << "OutputVariable " << name << " = new OutputVariable();\n";
-        ss << name << ".setName(\"" << outputVariable->getName() << "\");\n";
+        ss << name << ".setName(" << quoted(outputVariable->getName()) << ");\n";
         ss << name << ".setDescription(" << quoted(outputVariable->getDescription()) << ");\n";
         ss << name << ".setEnabled(" << (outputVariable->isEnabled() ? "true" : "false") << ");\n";
         ss << name << ".setRange(" << toString(outputVariable->getMinimum()) << ", "
@@ -151,7 +151,7 @@ namespace fuzzylite {
         ss << name << ".setActivation(" << toString(ruleBlock->getActivation()) << ");\n";
         for (std::size_t i = 0; i < ruleBlock->numberOfRules(); ++i) {
             Rule* rule = ruleBlock->getRule(i);
-            ss << name << ".addRule(Rule.parse(\"" << rule->getText() << "\", engine));\n";
+            ss << name << ".addRule(Rule.parse(" << quoted(rule->getText()) << ", engine));\n";
         }
         ss << "engine.addRuleBlock(" << name << ");\n";
         return ss.str();
@@ -174,27 +174,27 @@ namespace fuzzylite {
             if (not Op::isEq(discrete->getHeight(), 1.0))
                 xy.push_back(discrete->getHeight());
             std::ostringstream ss;
-            ss << term->className() << ".create(\"" << term->getName() << "\", "
+            ss << term->className() << ".create(" << quoted(term->getName()) << ", "
                << literals(Op::join(xy, " ")) << ")";
             return ss.str();
         }
 
         if (const Function* function = dynamic_cast<const Function*>(term)) {
             std::ostringstream ss;
-            ss << term->className() << ".create(\"" << term->getName() << "\", " << "\"" << function->getFormula()
-               << "\", engine)";
+            ss << term->className() << ".create(" << quoted(term->getName()) << ", " << quoted(function->getFormula())
+               << ", engine)";
             return ss.str();
         }
 
         if (const Linear* linear = dynamic_cast<const Linear*>(term)) {
             std::ostringstream ss;
-            ss << term->className() << ".create(\"" << term->getName() << "\", " << "engine, "
+            ss << term->className() << ".create(" << quoted(term->getName()) << ", " << "engine, "
                << literals(Op::join(linear->coefficients(), " ")) << ")";
             return ss.str();
         }
 
         std::ostringstream ss;
-        ss << "new " << term->className() << "(\"" << term->getName() << "\", "
+        ss << "new " << term->className() << "(" << quoted(term->getName()) << ", "
            << literals(term->parameters()) << ")";
         return ss.str();
     }
@@ -228,7 +228,7 @@ namespace fuzzylite {
         std::vector<std::string> values = Op::split(parameters, " ");
         for (std::size_t i = 0; i < values.size(); ++i) {
             std::string parameter = values.at(i);
-            values.at(i) = (Op::isNumeric(parameter) ? parameter : ("\"" + parameter + "\""));
+            values.at(i) = (Op::isNumeric(parameter) ? literals(parameter) : quoted(parameter));
         }
         return "new " + activation->className() + "(" + Op::join(values, ", ") + ")";
     }
-- 
2.43.0


From a360726e47b3dd175f395f12827a135574c08be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 40/42] fix: leave rules not loaded out of the number of rules
 in FIS

---
 src/imex/FisExporter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/imex/FisExporter.cpp b/src/imex/FisExporter.cpp
index adcc57e..57ab315 100644
--- a/src/imex/FisExporter.cpp
+++ b/src/imex/FisExporter.cpp
@@ -73,7 +73,9 @@ namespace fuzzylite {
         const TNorm* implication = fl::null;
         for (std::size_t i = 0; i < engine->numberOfRuleBlocks(); ++i) {
             RuleBlock* rb = engine->getRuleBlock(i);
-            numberOfRules += rb->numberOfRules();
+            for (std::size_t r = 0; r < rb->numberOfRules(); ++r)
+                if (rb->getRule(r)->isLoaded())
+                    ++numberOfRules;
             if (not conjunction)
                 conjunction = rb->getConjunction();
             if (not disjunction)
@@ -154,6 +156,8 @@ namespace fuzzylite {
     std::string FisExporter::exportRule(const Rule* rule, const Engine* engine) const {
         if (not rule)
             return "";
+        if (not rule->isLoaded())
+            throw Exception("[exporter error] rule <" + rule->getText() + "> is not loaded", FL_AT);
         std::vector<Proposition*> propositions;
         std::vector<Operator*> operators;
 
-- 
2.43.0


From 3a1925001771c6554745881b3b366bfefa1a5af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:49 +0000
Subject: [PATCH 41/42] fix: use as many values as the total allows in grids of
 exact powers

---
 src/Benchmark.cpp        | 10 +++++++---
 src/imex/FldExporter.cpp | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/Benchmark.cpp b/src/Benchmark.cpp
index 5059d91..196a8af 100644
--- a/src/Benchmark.cpp
+++ b/src/Benchmark.cpp
@@ -91,9 +91,13 @@ namespace fuzzylite {
         if (not _engine)
             throw Exception("[benchmark error] engine not set before preparing for values and scope", FL_AT);
         int resolution;
-        if (scope == FldExporter::AllVariables)
-            resolution = -1 + (int)std::max(1.0, std::pow(values, 1.0 / std::max<std::size_t>(1, _engine->numberOfInputVariables())));
-        else  // if (scope == EachVariable)
+        if (scope == FldExporter::AllVariables) {
+            const scalar inputs = (scalar)std::max<std::size_t>(1, _engine->numberOfInputVariables());
+            resolution = -1 + (int)std::max(1.0, std::pow(values, 1.0 / inputs));
+            // the root of an exact power may be approximated from below
+            if (std::pow(resolution + 2.0, inputs) <= values)
+                ++resolution;
+        } else  // if (scope == EachVariable)
             resolution = values - 1;
 
         std::vector<int> sampleValues, minSampleValues, maxSampleValues;
diff --git a/src/imex/FldExporter.cpp b/src/imex/FldExporter.cpp
index b1eba08..c4fef47 100644
--- a/src/imex/FldExporter.cpp
+++ b/src/imex/FldExporter.cpp
@@ -209,9 +209,13 @@ namespace fuzzylite {
         }
 
         int resolution;
-        if (scope == AllVariables)
-            resolution = -1 + (int)std::max(1.0, std::pow(values, 1.0 / std::max<std::size_t>(1, engine->numberOfInputVariables())));
-        else  // if (scope == EachVariable)
+        if (scope == AllVariables) {
+            const scalar inputs = (scalar)std::max<std::size_t>(1, engine->numberOfInputVariables());
+            resolution = -1 + (int)std::max(1.0, std::pow(values, 1.0 / inputs));
+            // the root of an exact power may be approximated from below
+            if (std::pow(resolution + 2.0, inputs) <= values)
+                ++resolution;
+        } else  // if (scope == EachVariable)
             resolution = values - 1;
 
         std::vector<int> sampleValues, minSampleValues, maxSampleValues;
-- 
2.43.0


From 856017671ec4a47a8866a564fc47dc7a3ed4ca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:23 +0000
Subject: [PATCH 42/42] fix: write variadic arguments of exported C++ as
 scalars when no decimals are printed

---
 fuzzylite/imex/CppExporter.h | 2 +-
 src/imex/CppExporter.cpp     | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/fuzzylite/imex/CppExporter.h b/fuzzylite/imex/CppExporter.h
index 0d9db90..574bd1f 100644
--- a/fuzzylite/imex/CppExporter.h
+++ b/fuzzylite/imex/CppExporter.h
@@ -46,7 +46,7 @@ namespace fuzzylite {
         bool _usingNamespace;
         bool _usingVariableNames;
 
-        std::string literals(const std::string& parameters) const;
+        std::string literals(const std::string& parameters, bool variadic = false) const;
 
       public:
         explicit CppExporter(bool usingNamespace = false, bool usingVariableNames = true);
diff --git a/src/imex/CppExporter.cpp b/src/imex/CppExporter.cpp
index 8d2a055..daf8a90 100644
--- a/src/imex/CppExporter.cpp
+++ b/src/imex/CppExporter.cpp
@@ -183,11 +183,13 @@ namespace fuzzylite {
         return Op::str(value);
     }
 
-    std::string CppExporter::literals(const std::string& parameters) const {
+    std::string CppExporter::literals(const std::string& parameters, bool variadic) const {
         std::vector<std::string> values = Op::split(parameters, " ");
         for (std::size_t i = 0; i < values.size(); ++i)
             if (Op::isNumeric(values.at(i)) and not Op::isFinite(Op::toScalar(values.at(i))))
                 values.at(i) = toString(Op::toScalar(values.at(i)));
+            else if (variadic and values.at(i).find_first_of(".e") == std::string::npos)
+                values.at(i) += ".0";  // variadic arguments are read as scalars, not as integers
         return Op::join(values, ", ");
     }
 
@@ -201,7 +203,7 @@ namespace fuzzylite {
                 xy.push_back(discrete->getHeight());
             std::ostringstream ss;
             ss << fl(term->className()) << "::create(" << quoted(term->getName()) << ", " << xy.size()
-               << ", " << literals(Op::join(xy, " ")) << ")";
+               << ", " << literals(Op::join(xy, " "), true) << ")";
             return ss.str();
         }
 
@@ -223,7 +225,7 @@ namespace fuzzylite {
             }
             std::ostringstream ss;
             ss << fl(term->className()) << "::create(" << quoted(term->getName()) << ", " << "engine, "
-               << literals(Op::join(coefficients, " ")) << ")";
+               << literals(Op::join(coefficients, " "), true) << ")";
             return ss.str();
         }
 
-- 
2.43.0

