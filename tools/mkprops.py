#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("P01","Importers are total: any text gives an engine or a library exception",
 "Importing any text as FLL, FIS or FCL terminates and either returns a complete engine, which can then be inspected, exported, processed and deleted, or throws an exception derived from std::exception. No input text (with expressions nested up to a thousand levels) causes a memory error, undefined behaviour, a crash, a hang or a memory leak.",
 ["inputs"],"all byte strings given to the three importers, in particular near-valid texts: truncated, spliced, reordered, duplicated or mutated engine descriptions",
 "The importer tests read well-formed shipped examples and a handful of malformed lines without sanitizers; almost all malformed texts, and every leak on an error path, are unobserved.",
 ["src/imex/FllImporter.cpp","src/imex/FisImporter.cpp","src/imex/FclImporter.cpp","src/imex/Importer.cpp"],
 [("FLL parser","src/imex/FllImporter.cpp: FllImporter::fromString/process"),("FIS parser","src/imex/FisImporter.cpp: FisImporter::fromString/importSystem/importRules"),("FCL parser","src/imex/FclImporter.cpp: FclImporter::fromString/processBlock")],
 ["return value or exception of Importer::fromString","ASan/UBSan/LSan reports"])
p("P02","Rule, formula and parameter parsers are total on arbitrary text",
 "Loading a rule, parsing a formula, or configuring a term, defuzzifier, activation method or set of methods from any text either succeeds, leaving an object that can be evaluated, printed and copied, or throws an exception derived from std::exception. No text (nested up to a thousand levels) causes a memory error, undefined behaviour, a crash, a hang or a memory leak, and the object stays usable and destructible after a failure.",
 ["inputs","histories"],"all texts given to rule loading, formula loading and parameter configuration, and sequences of failing and succeeding loads of the same object",
 "Existing tests sample a few malformed rules and formulas, and never check the error paths for leaked parse nodes.",
 ["src/rule/Rule.cpp","src/rule/Antecedent.cpp","src/rule/Consequent.cpp","src/term/Function.cpp","src/term/Discrete.cpp"],
 [("antecedent parser","src/rule/Antecedent.cpp: Antecedent::load"),("consequent parser","src/rule/Consequent.cpp: Consequent::load"),("formula parser","src/term/Function.cpp: Function::parse, toPostfix, format"),("term parameters","src/term/*.cpp: configure")])
p("P03","API histories are memory safe and collections behave as sequences",
 "Any sequence of adding, inserting, replacing, removing, looking up, renaming, configuring, copying, assigning, processing and destroying the parts of an engine through the public interface is free of memory errors, leaks and undefined behaviour. The collections of an engine, variable, rule block, fuzzy set and factory behave as an ordered sequence under those operations: sizes, order, identity and lookup by name are exactly those that the operations imply, and a lookup that cannot succeed fails with an exception or a false/null answer and changes nothing. The caller's part: rules are unloaded and fuzzy outputs cleared before the variables or terms they refer to are destroyed, insertion indices do not exceed the size, and an object is owned once.",
 ["histories"],"all finite sequences of public construction and mutation operations",
 "Tests build and copy a few fixed engines; no test drives mixed histories of mutations, copies and destruction under a memory checker.",
 ["src/Engine.cpp","src/variable/Variable.cpp","src/rule/RuleBlock.cpp","src/term/Aggregated.cpp","src/term/Function.cpp","src/rule/Rule.cpp","fuzzylite/factory/CloningFactory.h"],
 [("owning containers","src/Engine.cpp, src/variable/Variable.cpp, src/rule/RuleBlock.cpp: add/insert/remove/set"),("deep copies","copyFrom, copy constructors and operator= of Engine, Variable, RuleBlock, Rule, Aggregated, Activated, Function")])
p("P04","An engine computes exactly the inference its definition prescribes",
 "For every engine and every assignment of its inputs, processing yields for each output the value and the fuzzy set obtained by evaluating the membership, hedge, norm, activation, implication, aggregation and defuzzification definitions over its enabled blocks and rules in order. This holds for Mamdani, Larsen, Takagi-Sugeno, Tsukamoto, inverse Tsukamoto and hybrid engines, with any number of inputs, outputs, rule blocks and rules.",
 ["inputs","configurations","histories"],"all well-formed engines, all input vectors including NaN, infinities and out-of-range values, and sequences of process calls",
 "The tests compare shipped example engines with stored outputs of the same library; combinations of operators, blocks, weights and disabled parts that no example uses are never executed.",
 ["src/Engine.cpp","src/rule/RuleBlock.cpp","src/rule/Rule.cpp","src/rule/Antecedent.cpp","src/rule/Consequent.cpp","src/variable/OutputVariable.cpp","src/term/Aggregated.cpp","src/defuzzifier/Centroid.cpp"],
 [("control loop","src/Engine.cpp: Engine::process"),("block activation","src/rule/RuleBlock.cpp: RuleBlock::activate"),("rule firing","src/rule/Rule.cpp: Rule::activateWith, Rule::trigger"),("defuzzification","src/variable/OutputVariable.cpp: OutputVariable::defuzzify")],
 ["OutputVariable::getValue, fuzzyOutput()->terms(), Rule::getActivationDegree, Rule::isTriggered"])
p("P05","Each activation method fires exactly the rules its definition selects",
 "When a rule block is activated, every enabled or disabled, loaded or unloaded rule ends with the activation degree and triggered state that the block's activation method defines: General fires all with a positive degree, First and Last fire the first or last n reaching the threshold, Highest and Lowest the n greatest or smallest positive degrees, Proportional normalises the degrees to sum to one, and Threshold fires the rules satisfying its comparison. Only a triggered rule contributes to the outputs, it contributes once per conclusion with that degree, and a block that is activated again starts from deactivated rules.",
 ["inputs","configurations","histories"],"all rule blocks with any number of rules, ties, weights, disabled and unloaded rules, any activation parameters, and repeated activations",
 "The activation tests use one or two fixed rule sets per method; ties, zero and NaN degrees, disabled rules within the quota and re-activation are not covered.",
 ["src/activation/General.cpp","src/activation/First.cpp","src/activation/Last.cpp","src/activation/Highest.cpp","src/activation/Lowest.cpp","src/activation/Proportional.cpp","src/activation/Threshold.cpp","src/rule/RuleBlock.cpp","src/rule/Rule.cpp"],
 [("activation methods","src/activation/*.cpp: activate"),("trigger","src/rule/Rule.cpp: Rule::trigger")])
p("P06","Rule texts are accepted exactly when they conform to the rule grammar",
 "A rule text of the form 'if antecedent then consequent [with weight]', where the antecedent is a parenthesised and/or combination of 'variable is hedges term' (or 'variable is hedges any') over the engine's variables and their terms, and the consequent is an and-list of 'output is hedges term', is loaded with its stated weight and reports its parts faithfully. A text that departs from it by a missing or repeated keyword, an unknown variable, term or hedge, a conclusion about an input, a missing operand or connective, an unbalanced parenthesis, or a malformed weight throws, and the rule is left unloaded and never fires. (Names that are keywords, hedges or formula functions, and parentheses or connectives that are right in number but misplaced, are unspecified.)",
 ["inputs"],"all token sequences over keywords, names, parentheses, numbers and comments",
 "Tests list about twenty malformed rules; the grammar's language is infinite and mutated rules near its boundary are not sampled.",
 ["src/rule/Rule.cpp","src/rule/Antecedent.cpp","src/rule/Consequent.cpp"],
 [("rule parser","src/rule/Rule.cpp: Rule::load"),("antecedent state machine","src/rule/Antecedent.cpp: Antecedent::load"),("consequent state machine","src/rule/Consequent.cpp: Consequent::load")])
p("P07","Antecedents evaluate with correct precedence, hedges and disabled variables",
 "The activation degree of a rule is its weight times the value of its antecedent, where 'and' binds tighter than 'or', parentheses group, hedges apply from the term outwards, 'any' is the hedge that ignores the term, a disabled variable contributes zero, and an output variable contributes the activation accumulated so far for the named term. The operators used are the conjunction and disjunction of the rule block being evaluated, and a missing operator that is needed is reported by an exception.",
 ["inputs","configurations"],"all antecedent expressions (any nesting, connectives, hedges), norms and input vectors",
 "Tests evaluate a few antecedents of depth one or two with one norm each.",
 ["src/rule/Antecedent.cpp","src/rule/Expression.cpp","src/rule/Rule.cpp","src/term/Aggregated.cpp"],
 [("expression tree","src/rule/Antecedent.cpp: Antecedent::load, activationDegree"),("infix to postfix","src/term/Function.cpp: Function::toPostfix"),("weight","src/rule/Rule.cpp: Rule::activateWith")])
p("P08","Each conclusion modifies exactly its own output variable and term",
 "Triggering a rule adds, for each conclusion in order, exactly one activated term to the fuzzy output of that conclusion's variable, carrying the named term, the block's implication operator and the rule's degree transformed by that conclusion's own hedges only. Conclusions about disabled variables add nothing, other conclusions are unaffected by them, and no other variable is changed.",
 ["inputs","configurations"],"all consequents with any number of conclusions, hedges and output variables, and all degrees",
 "The consequent tests use single conclusions or conclusions without hedges.",
 ["src/rule/Consequent.cpp","src/variable/OutputVariable.cpp","src/term/Activated.cpp","src/term/Aggregated.cpp"],
 [("modification","src/rule/Consequent.cpp: Consequent::modify")])
p("P09","T-norms and S-norms follow their definitions and algebraic laws",
 "Every T-norm and S-norm returns the value of its textbook definition for all operands in [0,1], and therefore is commutative, associative, monotone, has 1 (respectively 0) as identity and stays in [0,1] (unbounded sum excepted), with T-norms at most the minimum and S-norms at least the maximum. Custom norms given by a formula return exactly the value of the formula for both operands. A NaN operand gives NaN, except for the norms defined by case analysis, whose otherwise case applies (drastic product and nilpotent minimum give zero, drastic sum and nilpotent maximum give one).",
 ["inputs"],"all pairs and triples of operands in [0,1] including ends, near-ends and NaN, and all custom formulas",
 "Norm tests check short tables of operand pairs.",
 ["src/norm/t/Minimum.cpp","src/norm/t/EinsteinProduct.cpp","src/norm/s/Maximum.cpp","src/norm/s/EinsteinSum.cpp","src/norm/t/TNormFunction.cpp","src/norm/s/SNormFunction.cpp"],
 [("norm computations","src/norm/t/*.cpp, src/norm/s/*.cpp: compute")])
p("P10","A fuzzy output set is the aggregation of its implied activated terms",
 "At every point, the membership of a fuzzy output set equals the fold of its aggregation operator over the implication of each activated term's membership and degree, and the activation degree of a term is the fold of the same operator (a plain sum if none) over the degrees of that term's activations; missing operators raise an exception. Adding, removing and clearing activated terms, changing the operator or bounds, copying, printing and grouping by term (in order of first activation, keeping its operator) keep exactly the contents and order that those operations imply.",
 ["inputs","histories"],"all multisets of activated terms with any degrees and operators, all points, and all edit histories",
 "Tests aggregate two or three fixed terms.",
 ["src/term/Aggregated.cpp","src/term/Activated.cpp"],
 [("aggregation","src/term/Aggregated.cpp: membership, activationDegree, highestActivatedTerm"),("implication","src/term/Activated.cpp: membership")])
p("P11","Hedges follow their definitions and keep degrees in range",
 "Each hedge returns the value of its definition for every degree in [0,1], maps [0,1] into [0,1], is monotone (not: antitone, any: constant one), fixes the end points as defined, and propagates NaN except for any. A custom hedge given by a formula returns exactly the value of that formula.",
 ["inputs"],"all degrees in [0,1] including the branch point and ends, and all custom formulas",
 "Hedge tests check tables of about ten values.",
 ["src/hedge/Extremely.cpp","src/hedge/Seldom.cpp","src/hedge/Somewhat.cpp","src/hedge/Very.cpp","src/hedge/Not.cpp","src/hedge/Any.cpp","src/hedge/HedgeFunction.cpp"],
 [("hedges","src/hedge/*.cpp: hedge")])
p("P12","Membership functions follow their definitions for all parameters and inputs",
 "Every linguistic term returns, for every parameterisation and every input, the value of its mathematical definition scaled by its height; hence it lies between zero and the height, attains its height and its supports where defined, is NaN for NaN inputs (terms that do not depend on the input excepted), and handles infinite inputs and infinite vertices. It depends on nothing but the term and the input, whichever points were evaluated before. Configuring a term from its own parameter text reproduces the term, and too few parameters are rejected by an exception.",
 ["inputs","configurations"],"all parameters (open and closed shapes, reversed directions, coincident and infinite vertices, heights other than one) and all real, infinite and NaN inputs",
 "Term tests check about ten points of one or two parameterisations per term.",
 ["src/term/Triangle.cpp","src/term/Trapezoid.cpp","src/term/Bell.cpp","src/term/Discrete.cpp","src/term/PiShape.cpp","src/term/SigmoidDifference.cpp","src/term/Linear.cpp"],
 [("membership functions","src/term/*.cpp: membership"),("parameters","src/term/*.cpp: parameters, configure"),("height","src/term/Term.cpp")])
p("P13","Monotonic terms invert correctly under Tsukamoto",
 "For every monotonic term and every activation degree strictly between zero and its height, the Tsukamoto value is a point whose membership is that degree, and it is monotone in the degree in the term's direction. Terms report being monotonic exactly when they support this inversion, and all others raise an exception.",
 ["inputs","configurations"],"all monotonic terms, directions, heights and degrees",
 "Tests check inversion at a few degrees for fixed parameters with height one.",
 ["src/term/Ramp.cpp","src/term/SShape.cpp","src/term/ZShape.cpp","src/term/Sigmoid.cpp","src/term/Concave.cpp","src/term/Term.cpp"],
 [("inversion","src/term/*.cpp: tsukamoto, isMonotonic")])
p("P14","Integral defuzzifiers return the point their definition prescribes",
 "For every membership function, finite range and resolution, centroid, bisector, and smallest, largest and mean of maximum return the value of their definition over the midpoint sampling of the range, so that every finite result lies inside the range, the maxima results have maximal membership and are ordered smallest, mean, largest, and results refine towards the exact integral as the resolution grows. An unbounded or undefined range yields NaN.",
 ["inputs","configurations"],"all terms and aggregated sets, ranges, and resolutions",
 "Defuzzifier tests check a few simple shapes at a few resolutions.",
 ["src/defuzzifier/Centroid.cpp","src/defuzzifier/Bisector.cpp","src/defuzzifier/SmallestOfMaximum.cpp","src/defuzzifier/LargestOfMaximum.cpp","src/defuzzifier/MeanOfMaximum.cpp"],
 [("defuzzify","src/defuzzifier/*.cpp: defuzzify")])
p("P15","Weighted defuzzifiers return the weighted combination of activated terms",
 "The weighted average and weighted sum of a fuzzy output equal sum(w*z)/sum(w) and sum(w*z), where w is the aggregated activation of each distinct term and z its value by the selected type: membership at w for Takagi-Sugeno and inverse Tsukamoto, inversion of w for Tsukamoto. The automatic type selects per the kinds of terms, mixtures that have no single type raise an exception, and an empty output yields NaN.",
 ["inputs","configurations"],"all fuzzy outputs with repeated and distinct terms, aggregation operators, types and degrees",
 "Tests use a couple of Takagi-Sugeno and Tsukamoto outputs.",
 ["src/defuzzifier/WeightedAverage.cpp","src/defuzzifier/WeightedSum.cpp","src/defuzzifier/WeightedDefuzzifier.cpp","src/term/Aggregated.cpp"],
 [("weighted defuzzification","src/defuzzifier/WeightedAverage.cpp, WeightedSum.cpp: defuzzify"),("type inference","src/defuzzifier/WeightedDefuzzifier.cpp: inferType"),("grouping","src/term/Aggregated.cpp: groupedTerms")])
p("P16","Output values follow default, lock-previous, lock-range and disabled policy",
 "Over any history of processing, value changes, clears and restarts, an enabled output takes its defuzzified value if that is a number, otherwise its previous value when locking previous values, otherwise its default, and is clamped to its range when locking ranges. Its previous value is the value it had before its last defuzzification, which is what locking the previous value falls back to; a disabled output changes nothing, and clearing or restarting forgets values and the fuzzy output.",
 ["histories","configurations"],"all sequences of process, setValue, clear, restart and flag changes, with inputs that do and do not activate rules",
 "Tests check single steps of the policy, not histories of interacting flags.",
 ["src/variable/OutputVariable.cpp","src/Engine.cpp"],
 [("policy","src/variable/OutputVariable.cpp: defuzzify, clear"),("restart","src/Engine.cpp: Engine::restart")],
 None,[("value/previousValue","current and previous output values","fuzzylite/variable/OutputVariable.h")])
p("P17","Variables fuzzify, clamp and rank their terms consistently",
 "A variable's fuzzification lists every term in order with its membership at the given value, the membership of one term named in it equals the term's own, and the highest membership is the first term attaining the greatest positive degree. Setting a value clamps it to the range exactly when range locking is on, NaN is kept, the range accessors agree with each other, and sorting arranges the terms by centroid without losing or duplicating any.",
 ["inputs","configurations"],"all variables, terms, ranges and values including NaN and infinities",
 "Tests fuzzify a few values of a three-term variable.",
 ["src/variable/Variable.cpp","src/variable/InputVariable.cpp","src/variable/OutputVariable.cpp"],
 [("fuzzification","src/variable/Variable.cpp: fuzzify, activations, maxActivations, highestMembership"),("clamping","src/variable/Variable.cpp: setValue"),("sorting","src/variable/Variable.cpp: sort")])
p("P18","Copies of an engine are equivalent to and independent of the original",
 "A clone, copy-constructed or assigned engine, variable, rule block or term describes and computes the same as its source at the time of copying, including enabled flags, rule weights and current values. (Activated terms that a standalone variable's fuzzy output holds keep referring to operators they do not own.) Afterwards no change to, processing of, or destruction of one affects the other.",
 ["configurations","histories"],"all engines and parts, all later changes of either copy",
 "The copy tests compare one example's text before and after; they do not look at independence, internal references or state that the text does not contain.",
 ["src/Engine.cpp","src/variable/Variable.cpp","src/variable/OutputVariable.cpp","src/rule/RuleBlock.cpp","src/rule/Rule.cpp","src/term/Function.cpp","src/term/Linear.cpp","src/term/Aggregated.cpp"],
 [("deep copy","Engine::copyFrom, Variable::copyFrom, RuleBlock::copyFrom, Rule::Rule(const Rule&), clone()"),("re-linking","src/Engine.cpp: updateReferences; Term::updateReference")])
p("P19","An engine survives export to and import from FLL unchanged",
 "For every engine whose names are identifiers and whose numbers are representable at the configured number of decimals, exporting to FLL and importing the text yields an engine with the same structure, flags, parameters, rules and behaviour, and exporting again yields the identical text. Each part (variable, term, norm, activation, defuzzifier, rule block, rule) exported alone denotes the same part. What FLL has no text for is excluded: disabled rules, and formulas about variables that are declared after them.",
 ["configurations","inputs"],"all engines built from any of the library's components and all input vectors",
 "Tests round-trip the shipped examples and a few hand-written engines.",
 ["src/imex/FllExporter.cpp","src/imex/FllImporter.cpp"],
 [("export","src/imex/FllExporter.cpp: toString"),("import","src/imex/FllImporter.cpp: fromString, process")])
p("P20","FIS export and import preserve what the FIS format can express",
 "For every engine expressible in FIS (operators, aggregation and defuzzifier common to all blocks and outputs, three or more decimals, rules with a single connective and hedges that have a FIS code, formulas without separators of the format), exporting to FIS and importing the text yields an engine with the same variables, ranges, terms, rules, weights, operators and outputs, and exporting again yields the identical text. Rules or engines that FIS cannot express raise an exception instead of producing a different rule.",
 ["configurations","inputs"],"all FIS-expressible engines and all input vectors",
 "Tests round-trip shipped examples only.",
 ["src/imex/FisExporter.cpp","src/imex/FisImporter.cpp"],
 [("export","src/imex/FisExporter.cpp: toString, exportRule, translate"),("import","src/imex/FisImporter.cpp: importRules, translateProposition, createTerm")])
p("P21","FCL export and import preserve what the FCL format can express",
 "For every engine expressible in FCL (discrete terms of unit height, default resolutions, types and activation, no disabled parts or range locks), exporting to FCL and importing the text yields an engine with the same variables, ranges, terms, operators, defuzzifiers, defaults, rules, weights and outputs, and exporting again yields the identical text.",
 ["configurations","inputs"],"all FCL-expressible engines and all input vectors",
 "Tests round-trip shipped examples only.",
 ["src/imex/FclExporter.cpp","src/imex/FclImporter.cpp"],
 [("export","src/imex/FclExporter.cpp: toString"),("import","src/imex/FclImporter.cpp: processVar, processFuzzify, processDefuzzify, processRuleBlock")])
p("P22","Exported C++ code compiles and rebuilds an equivalent engine",
 "For every engine with all its rules enabled and whose names, where they name variables in the code, are distinct identifiers, the C++ code produced by the exporter, with and without namespace prefixes and variable names, compiles against the library and constructs an engine that has the same description and computes the same outputs as the exported one.",
 ["configurations","programs"],"all engines and exporter options",
 "Tests compare the exported text of an example with a stored text; the exported code is never compiled.",
 ["src/imex/CppExporter.cpp"],
 [("export","src/imex/CppExporter.cpp: toString")])
p("P23","Exported Java code describes the same engine",
 "For every engine with all its rules enabled and whose names, where they name variables in the code, are distinct identifiers, the Java code produced by the exporter is well-formed and performs exactly the sequence of constructions and settings (names, flags, ranges, terms with parameters, operators, activations, defuzzifiers, rules) that describe the exported engine, each variable and block being added once and in order.",
 ["configurations","programs"],"all engines and exporter options",
 "Tests compare the exported text of one or two examples with stored texts.",
 ["src/imex/JavaExporter.cpp"],
 [("export","src/imex/JavaExporter.cpp: toString")])
p("P24","FLD exports are complete input grids with the outputs of direct processing",
 "For every engine with inputs of finite range, number of values and scope, the exported dataset contains exactly one row for every point of the regular grid over the ranges of the active inputs (ends included, the minimum alone for a single value, last input varying fastest; for a total number of values, the greatest equal number of values per input for which the grid over all the inputs of the engine does not exceed that total), and each row holds the input values and the outputs that processing these inputs directly yields. Data exported from a reader has one row per non-empty data line in order, options control header, inputs and outputs columns only, and malformed data raises an exception.",
 ["configurations","inputs"],"all engines, resolutions, scopes, sets of active variables, separators and readers",
 "Tests compare a stored dataset of one or two engines.",
 ["src/imex/FldExporter.cpp","fuzzylite/Operation.h"],
 [("grid","src/imex/FldExporter.cpp: write, toString"),("odometer","fuzzylite/Operation.h: Operation::increment")])
p("P25","R exports carry the engine, its data and a plot for every output",
 "For every engine with inputs and outputs, the R script produced embeds exactly the engine's FLL text and the dataset over its inputs (or the given reader's data), names the selected two input variables, and draws one plot per output variable. An engine without inputs or outputs raises an exception.",
 ["configurations"],"all engines, input selections, resolutions and readers",
 "Tests compare one stored script.",
 ["src/imex/RScriptExporter.cpp"],
 [("export","src/imex/RScriptExporter.cpp: toString, writeScriptImportingDataFrame, writeScriptExportingDataFrame")])
p("P26","Formulas evaluate to the value of their mathematical expression",
 "Every formula built from numbers, variables, the built-in operators and functions evaluates to the value given by conventional precedence, associativity and parentheses, whatever the nesting, with variables taken from the engine's inputs and outputs, from user variables and from the membership argument. Its postfix and prefix notations list the same computation, and copying a formula or moving it to another engine keeps its value.",
 ["inputs","programs"],"all well-formed formulas and variable values",
 "Tests evaluate a fixed list of formulas.",
 ["src/term/Function.cpp","src/factory/FunctionFactory.cpp"],
 [("shunting-yard","src/term/Function.cpp: toPostfix, parse"),("evaluation","src/term/Function.cpp: Node::evaluate, membership"),("operators","src/factory/FunctionFactory.cpp")])
p("P27","Text and number utilities are exact and mutually consistent",
 "Numbers print with the requested decimals and parse back to the printed value, including NaN and infinities, and anything that is not entirely a number is rejected or replaced by the alternative; splitting, joining, trimming, replacing, filtering and name-validation obey their definitions on every string. The comparison operators are mutually consistent with one tolerance, and scaling, clamping, rounding, modulo, statistics and combination enumeration return the values of their definitions.",
 ["inputs"],"all strings, numbers (NaN, infinities, signed zeros, extreme magnitudes), tolerances and decimals",
 "Tests check short lists of values.",
 ["fuzzylite/Operation.h"],
 [("utilities","fuzzylite/Operation.h")])
p("P28","Factories construct, copy and list exactly what is registered",
 "After any history of registrations and deregistrations, a factory constructs or clones an object for exactly the registered keys, its list of available keys equals the registered ones in order, the empty key of a construction factory gives no object, and unknown keys raise an exception. For every built-in key the constructed component reports that key as its class, behaves like the component named, and can be cloned.",
 ["histories","inputs"],"all registration histories and all keys",
 "Tests look at a few keys per factory.",
 ["fuzzylite/factory/ConstructionFactory.h","fuzzylite/factory/CloningFactory.h","src/factory/FactoryManager.cpp","src/factory/TermFactory.cpp","src/factory/TNormFactory.cpp","src/factory/SNormFactory.cpp","src/factory/HedgeFactory.cpp","src/factory/ActivationFactory.cpp","src/factory/DefuzzifierFactory.cpp","src/factory/FunctionFactory.cpp"],
 [("registries","fuzzylite/factory/*.h")])
p("P29","Benchmarks run the engine on every expected row and measure true errors",
 "A benchmark prepared from data or from a grid has one expected row per data line (blank and comment lines skipped) or grid point, runs the engine exactly the requested number of times over all rows, and obtains the inputs and outputs that direct processing of each row yields. Its error counts, mean squared errors and time statistics equal those computed from the expected and obtained rows by definition.",
 ["configurations","inputs"],"all engines, datasets, tolerances and numbers of runs",
 "Tests benchmark one example and check the formatting of the results.",
 ["src/Benchmark.cpp"],
 [("benchmark","src/Benchmark.cpp: prepare, run, meanSquaredError, accuracyErrors, results")])
p("P30","Processing depends only on the current inputs and definition",
 "Processing the same inputs again, in any order, in another engine built from the same definition, after a restart, after failed imports, or after changing and restoring settings yields bit-identical outputs, unless locking previous values is on. A restarted engine has the values and outputs of a freshly built one and computes the same from then on.",
 ["histories","inputs"],"all engines and all interleavings of input vectors, restarts, configuration changes and unrelated work",
 "Tests process each input once in a fixed order.",
 ["src/Engine.cpp","src/rule/RuleBlock.cpp","src/variable/OutputVariable.cpp"],
 [("per-cycle reset","src/Engine.cpp: Engine::process, restart"),("rule reset","src/rule/Rule.cpp: deactivate")])
p("P31","Separate engines may be used concurrently from different threads",
 "While settings and factories are left alone and logging is off, threads that each build, import, copy, process, export and destroy their own engines run without data races, and every thread obtains the same results as it would alone.",
 ["schedules"],"all interleavings of threads working on engines they do not share, with the global settings left unchanged",
 "No test uses threads.",
 ["src/factory/FactoryManager.cpp","src/fuzzylite.cpp","src/Engine.cpp","src/term/Function.cpp","src/imex/FllImporter.cpp","src/imex/FllExporter.cpp"],
 [("shared registries are read-only after initialisation","src/factory/FactoryManager.cpp: FactoryManager::instance"),("global settings","src/fuzzylite.cpp")])
p("P32","An engine reported ready can be processed; problems are reported",
 "An engine reported as ready, all of whose rules are loaded, processes any input without failing for a missing operator, term or defuzzifier. An engine that lacks inputs, outputs, rule blocks, rules, or an operator that processing needs is reported not ready with a message naming the part, and asking does not change the engine.",
 ["configurations","inputs"],"all engines with any subset of components missing, and all input vectors",
 "Tests check a handful of incomplete engines.",
 ["src/Engine.cpp"],
 [("readiness","src/Engine.cpp: Engine::isReady")])
p("P33","Engine type classification follows the outputs, terms and operators",
 "The reported type is Mamdani or Larsen exactly when all outputs use integral defuzzifiers (Larsen when all implications are the algebraic product), Takagi-Sugeno, Tsukamoto or inverse Tsukamoto as the weighted defuzzifiers and their terms determine, hybrid for complete mixtures and unknown when a defuzzifier is missing or there are no outputs. It gives a name and a reason, and does not depend on anything else.",
 ["configurations"],"all engines",
 "Tests classify the example engines and few others.",
 ["src/Engine.cpp"],
 [("classification","src/Engine.cpp: Engine::type")])
p("P34","Failures are reported by exceptions and leave the engine usable",
 "When processing, loading rules, importing, exporting or looking up fails, the failure is reported as an exception with a message and releases everything it allocated, and after the cause is repaired and the engine restarted it behaves exactly as one on which the failure never happened. Loading several rules reports all bad ones while loading the good ones.",
 ["fault_sequences","histories"],"all sequences of failing and succeeding operations, with failures in any part (missing operators, bad rules, throwing components, invalid data, allocation failures during processing)",
 "Tests check that exceptions are thrown, not what state and memory are left afterwards.",
 ["src/Engine.cpp","src/rule/RuleBlock.cpp","src/rule/Rule.cpp","src/variable/OutputVariable.cpp","src/Exception.cpp"],
 [("rule loading","src/rule/RuleBlock.cpp: loadRules"),("process","src/Engine.cpp: process")])
p("P35","The command line converts between formats as its options say",
 "Given an input engine in a file or a built-in example, the command line writes to the requested file (or shows) exactly what the corresponding importer and exporter produce under the given options (decimals, values, scope, input data, inputs and header switches), for every pair of formats. Without values or data it asks for them, and every completed line shows the outputs the engine computes in its current state, restarting and discarding as its help says; benchmarks report what the benchmark measures. Unknown or incomplete options, unknown formats and unreadable files end with an error and a non-zero status, without a crash (an output file may then be left empty).",
 ["inputs","configurations"],"all option lists, engines, format pairs, interactive sessions and benchmark lists",
 "Tests run a few conversions of the examples.",
 ["src/Console.cpp","src/main.cpp"],
 [("options","src/Console.cpp: Console::parse"),("conversion","src/Console.cpp: Console::process")])
p("P36","No result depends on uninitialised memory",
 "No observable result of building, importing, copying, processing, exporting or querying engines depends on the content of uninitialised memory: default-constructed objects have defined values everywhere.",
 ["inputs","histories"],"all objects, constructors and operation sequences",
 "Address sanitizers and unit tests do not see reads of uninitialised members; such values are often benign in one run.",
 ["fuzzylite/Benchmark.h","src/Engine.cpp","src/term/Function.cpp","src/imex/FllImporter.cpp"],
 [("initialisation","constructors in src/**")])
p("P37","Shipped example engines agree across their formats and datasets",
 "Each shipped example engine imports from every format it is shipped in (FLL, FIS, FCL), the imported engines compute the same outputs as far as the formats allow, and these reproduce the shipped dataset (FLD) row by row. Re-exporting a shipped engine to any of its formats reproduces the shipped description, comments and version apart.",
 ["inputs","configurations"],"all shipped examples, all formats and rows, and inputs between the rows",
 "Stored-output tests cover a fixed subset of the examples and formats and read thousands of rows without comparing formats with each other.",
 ["src/imex/FllImporter.cpp","src/imex/FisImporter.cpp","src/imex/FclImporter.cpp","src/imex/FldExporter.cpp","src/imex/FisExporter.cpp","src/imex/FclExporter.cpp"],
 [("importers and exporters","src/imex/*.cpp")])
p("P38","Global settings change only what they are documented to change",
 "The number of decimals and the formatting affect only how numbers are printed, never what is computed; the comparison tolerance affects only comparisons (those inside memberships and operators included); debugging and logging change nothing but diagnostic output. Settings take effect immediately for every later operation, are readable back, and restoring them restores the former behaviour exactly.",
 ["configurations","histories"],"all values of the settings and all operations between changing and restoring them",
 "Tests change a setting and look at one operation.",
 ["src/fuzzylite.cpp","fuzzylite/fuzzylite.h","fuzzylite/Operation.h"],
 [("settings","fuzzylite/fuzzylite.h: fuzzylite::setDecimals, setMachEps, setDebugging, setLogging")])
p("P39","Discrete terms convert, sort and sample without losing points",
 "Converting between pairs, flat coordinate lists and text keeps every coordinate in order, sorting orders by abscissa and keeps each point's ordinate, discretising a term samples its membership at evenly spaced points including both ends of the range, and a discrete term passes through its points and between neighbouring ones linearly. Incomplete lists are rejected or given the stated missing value.",
 ["inputs"],"all point lists and terms, ranges and resolutions",
 "Tests check a few lists.",
 ["src/term/Discrete.cpp"],
 [("discrete toolkit","src/term/Discrete.cpp: discretize, toPairs, toVector, sort, formatXY, create, membership")])
p("P40","Descriptions mean what they say: mistakes are refused and layout does not matter",
 "A description in FLL, FCL or FIS with a mistake - an unknown key, keyword, section, block, flag, boolean, class of term, operator, defuzzifier or activation method, a value that is not the number, range or list of parameters expected, a missing separator or end of block, an undeclared variable, or a rule code out of range - is refused with an exception that has a message, never imported as something else. Spaces around lines, blank lines, comments and the separator chosen between FLL lines do not change what is imported. A rule whose text cannot be loaded is kept as text, unloaded, and the other rules are loaded.",
 ["inputs"],"all descriptions in the three formats, every line of them and every kind of mistake listed; all placements of spaces and comments",
 "Tests try a handful of malformed texts.",
 ["src/imex/FllImporter.cpp","src/imex/FclImporter.cpp","src/imex/FisImporter.cpp"],
 [("importers","src/imex/*Importer.cpp: fromString, process*, parse*")])
p("P41","A component is the same however it is set up and described",
 "A component - a term of any class, an activation method, a defuzzifier, a variable, a rule block, a rule's antecedent and consequent, an engine - is the same whether it is set up by its constructor, by setters in any order, by text parameters through the factory, by the fluent interface, by cloning or by assignment: the getters return what was set, a setter changes nothing but what it names, the memberships and values are the same and so is the text. The text of a component is the same from toString() and from the FLL exporter; the text of an engine is that of its components in order (in FLL and, by section, in FIS); the indentation and separator chosen for FLL change its layout and nothing else, so an importer with the same separator reads the same engine; a copy of an exporter or importer behaves as the original; and the type that a weighted defuzzifier infers is Takagi-Sugeno for Constant, Linear and Function terms, Tsukamoto for monotonic ones, Automatic for the others, and refused for mixtures.",
 ["inputs","histories"],"all classes of components, all values of their parameters and all orders of setting them up",
 "Tests set up each component once and mostly in one way.",
 ["src/term/*.cpp","src/activation/Threshold.cpp","src/defuzzifier/WeightedDefuzzifier.cpp","src/factory/DefuzzifierFactory.cpp","src/rule/RuleBlock.cpp","src/imex/FllExporter.cpp","src/imex/FisExporter.cpp"],
 [("terms","src/term: constructors, setters, configure(), parameters()"),("texts","src/imex/FllExporter.cpp: toString overloads")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
