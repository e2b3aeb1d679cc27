#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
T='evaluation/tree.go'; I='evaluation/input.go'; M='evaluation/mining.go'; R='evaluation/regression.go'
E='evaluation/evaluation.go'; V='evaluation/miningschema.go'; EL='models/elements.go'; G='models/groups.go'; CT='models/complexTypes.go'
P=[]
def p(id,title,st,over,q,why,files,mech,obs):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":obs,"hook_needed":None}})
p("C01","Simple predicates compare field and literal with three-valued logic",
 "A simple predicate over a field declared double, float, integer, string or boolean is UNKNOWN exactly when the field is missing from the row (absent, or holding a nil value), except isMissing/isNotMissing, which are then TRUE/FALSE (and FALSE/TRUE when present). For a present value it is TRUE exactly when the named operator (equal, notEqual, and for numeric types lessThan, lessOrEqual, greaterThan, greaterOrEqual) holds between the value read as the declared type and the literal, and FALSE otherwise. The Go type used to carry the number (any int, uint or float type, or its decimal text) or boolean (bool, or text such as true, false, 1, 0) makes no difference; text that is no boolean equals no boolean literal.",
 ["inputs"],"every float64/int64 value including NaN, infinities and signed zero, every literal, operator, declared type and carrier type",
 "the tests use two-digit values far from the thresholds and only double fields with lessThan-style operators; equality at a boundary, integers, missing-checks and carrier types are never exercised",
 [T,V],[("simple predicate evaluation",T),("literal parsing",E),("value conversion",V)],["tree model Evaluate result"])
p("C02","Compound predicates follow PMML three-valued and/or/xor/surrogate tables",
 "A compound predicate over any mix of simple, compound and constant True/False children is evaluated in Kleene logic: 'and' is FALSE if any child is FALSE, else UNKNOWN if any is UNKNOWN, else TRUE; 'or' is the dual; 'xor' is UNKNOWN if any child is UNKNOWN, else the parity of TRUE children. 'surrogate' takes the value of its first child that is not UNKNOWN, and is UNKNOWN if all are.",
 ["inputs","configurations"],"every assignment of TRUE/FALSE/UNKNOWN to the children, in every order and nesting",
 "tests cover a handful of two- and five-child conjunctions with known values; the UNKNOWN rows, xor, nesting and constant children are not reached",
 [T],[("compound predicate evaluation",T)],["tree model Evaluate result"])
p("C03","Default tree traversal follows the first TRUE child to a final node",
 "Without a missing-value strategy (absent or 'none') a tree is scored from the root by moving, at each node, to the first child in document order whose predicate is TRUE (UNKNOWN counts as not TRUE), and the prediction is that of the node where no child is TRUE. If that node has children and noTrueChildStrategy is returnNullPrediction there is no prediction (an empty output and no error); otherwise (returnLastPrediction or attribute absent) the node's own score is used. A root whose predicate is not TRUE gives no prediction.",
 ["inputs","configurations"],"every TRUE/FALSE/UNKNOWN outcome of every node predicate in every tree shape within the bound",
 "the example trees have mutually exclusive children, so order, overlap, gaps and null prediction are never observed",
 [T],[("traversal",T),("no-true-child handling",T)],["tree model Evaluate result"])
p("C04","lastPrediction and nullPrediction stop at the first UNKNOWN predicate met",
 "With missingValueStrategy lastPrediction or nullPrediction, children are examined in document order and the first TRUE child is entered; if an UNKNOWN child is met before a TRUE one, scoring stops and yields respectively the current node's own score or no prediction. Children after the first TRUE or UNKNOWN one have no influence, and an UNKNOWN or FALSE root gives no prediction.",
 ["inputs","configurations"],"every TRUE/FALSE/UNKNOWN outcome of every node predicate in every tree shape within the bound",
 "one fixed row per strategy is tested, where the unknown child is the only candidate",
 [T],[("strategy-specific traversal",T)],["tree model Evaluate result"])
p("C05","defaultChild strategy enters the default child and applies the penalty",
 "With missingValueStrategy defaultChild, when an UNKNOWN child is met before any TRUE child, scoring continues in the child named by the node's defaultChild whatever that child's own predicate says, and every probability of the final distribution is multiplied by missingValuePenalty once per such step (an absent or zero penalty changes nothing). With no such child named there is no prediction; when nothing is UNKNOWN the result is that of the default traversal.",
 ["inputs","configurations"],"every TRUE/FALSE/UNKNOWN outcome of every node predicate, every penalty and every choice of default child within the bound",
 "one row is tested, on a tree where the default path also happens to be unknown at every level",
 [T],[("default child selection and penalty",T)],["tree model Evaluate result"])
p("C06","weightedConfidence and aggregateNodes combine exactly the non-FALSE children",
 "When an UNKNOWN child is met before any TRUE child, weightedConfidence gives each label the average of the scored non-FALSE children's probabilities weighted by their record counts, and aggregateNodes pools the record counts of the final nodes reached through the non-FALSE children and divides by their total; children whose predicate is FALSE contribute nothing, and both apply recursively. When nothing is UNKNOWN the result is that of the default traversal, and node ids (absent or repeated) play no role.",
 ["inputs","configurations"],"every TRUE/FALSE/UNKNOWN outcome of every node predicate and every record count within the bound",
 "one row per strategy is tested, with distinct ids and no FALSE sibling beside an UNKNOWN one",
 [T],[("confidence weighting and record pooling",T)],["tree model Evaluate result"])
p("C07","Tree outputs report the node's distribution and its most probable label",
 "A classification tree returns, for the selected node, probability(L) for every label L of the node's score distribution - the declared probability, else the label's record count divided by the total - and the target field holds a label of maximal probability (the first in document order on ties). A node without a score distribution gives its score label probability 1 and every other declared target value 0; a regression tree returns the selected node's numeric score under 'score', whether or not a target field is declared.",
 ["inputs","configurations"],"every record count, declared probability, label order and target declaration within the bound",
 "tests look at one label on fixed distributions; ties, zero counts, missing distributions and regression targets are not reached",
 [T],[("score distribution construction",T),("best label selection",T)],["tree model Evaluate result"])
p("C08","Row values convert between numeric representations without losing the value",
 "Reading a row value as float64, float32 or int64 gives the same number it was created with, whichever Go integer or float type (or decimal text) carried it, rounded only as the target type requires (truncation toward zero for int64); reading as bool returns the stored bool or the one its text (true, false, 1, 0) stands for. A value that is not a number reads as 0, one that is not a boolean reads as false, reading as text gives the text itself or the plain notation of the number or boolean, and the raw value is returned unchanged.",
 ["inputs"],"every value of every supported carrier type",
 "conversions are only exercised with small ints and strings inside model tests",
 [V],[("conversion methods",V)],["row value accessors"])
p("C09","Derived-field expressions compute PMML functions and propagate missing values",
 "Evaluating an expression tree of field references, double constants and the functions +, -, *, /, sum, if, isMissing, isNotMissing yields the mathematical result on the operand values; sum ignores missing operands, any other arithmetic on a missing operand is missing, 'if' evaluates only the selected branch, and isMissing/isNotMissing are complementary and true/false exactly for missing operands. A model's local derived fields are computed in document order, may use earlier ones, and a missing result leaves the derived field missing (never 0). A wrong number of arguments or an unknown function is an error.",
 ["inputs","configurations"],"every operand value, missing pattern and nesting of the supported functions within the bound",
 "the example models only use sum, * and - on present values and one isNotMissing",
 [I],[("expression evaluation",I),("derived field evaluation",I)],["expression evaluation result","model output through derived fields"])
p("C10","MapValues returns the mapped output, then the default, then the input itself",
 "For present input values a value mapping yields the output column of the row whose input columns (under whatever names the mapping declares) equal the values' texts; if no row matches it yields the declared default converted to the mapping's data type, and without a default a single input value unchanged. A missing input (absent or nil) matches no row: it yields mapMissingTo converted to the data type when declared, else the default, else it stays missing. A default or mapMissingTo that is used and does not parse as the declared type is an error.",
 ["inputs","configurations"],"every input string, table content and default within the bound",
 "one lookup table is exercised with a few of its keys",
 [I,E],[("map values evaluation",I)],["expression evaluation result"])
p("C11","Sum and average ensembles combine every segment once, then rescale targets",
 "A mining model with method sum (also when the method is absent) or average returns for each output and target field the sum, respectively the sum divided by the number of segments evaluated, of the segments' contributions: the segment's score for regression, the segment's equally named output for classification. Targets are then rescaled as value*rescaleFactor+rescaleConstant, with absent attributes changing nothing.",
 ["inputs","configurations"],"every segment score, rescale factor and constant, and number of segments within the bound",
 "example ensembles have all positive scores, no factor with average, and only fixed rows",
 [M],[("ensemble aggregation",M)],["mining model Evaluate result"])
p("C12","Model chains feed earlier outputs forward; selectFirst picks the first match",
 "In a modelChain ensemble each segment sees the row extended with the outputs of all earlier segments (latest wins) and the result is the last evaluated segment's output. With selectFirst the result is that of the first segment in document order whose predicate is TRUE, and in every method segments whose predicate is not TRUE are skipped; an error in an evaluated segment is returned as an error.",
 ["inputs","configurations"],"every row and every TRUE/FALSE/UNKNOWN outcome of the segment predicates within the bound",
 "the example documents only use segments guarded by the constant True and chains where each segment needs its immediate predecessor",
 [M],[("chain evaluation",M),("segment selection",M)],["mining model Evaluate result"])
p("C13","Missing inputs of a mining model are replaced by the declared replacement",
 "Before anything else is computed, an ensemble reads every field that is missing from the row (absent or nil) and has a missingValueReplacement as that replacement value; a field that is present, including 0, false or the empty string, is never replaced, and fields without a replacement stay missing.",
 ["inputs","configurations"],"every presence pattern and every present value within the bound",
 "one model with four replacements is exercised with a few gaps",
 [M],[("missing value imputation",M)],["mining model Evaluate result"])
p("C14","Regression models compute the normalized linear predictor",
 "A regression-function model returns under its output field the declared normalization (none or absent, softmax, logit, exp, cloglog, cauchit) of intercept plus the sum over numeric predictors of coefficient times the value raised to its exponent (1 when absent). A missing predictor field, an unsupported normalization, or anything but one table and one output field is an error, not a number.",
 ["inputs","configurations"],"every intercept, coefficient, predictor value, normalization and number of predictors within the bound",
 "only logit regressions inside one chain are exercised, with exponent 1",
 [R],[("linear predictor",R),("normalization",R)],["regression model Evaluate result"])
p("C15","Regression classifiers turn table scores into class probabilities",
 "A two-output classification model normalized by softmax gives each table's category exp(y)/sum(exp(y)); with any other normalization it gives the category of its first table the normalized linear predictor of that table and the other category the complement to 1. With any other number of outputs, softmax gives each table's category exp(y)/sum(exp(y)) and simplemax y/sum(y) over all tables, where y is the table's linear predictor; each probability is reported under the output field whose value is that table's category.",
 ["inputs","configurations"],"every intercept, coefficient and predictor value within the bound, and every order of tables and output fields",
 "one three-class simplemax model and two two-class logit models with zero intercept and unit coefficient are exercised",
 [R],[("binary classification",R),("multiclass classification",R)],["regression model Evaluate result"])
p("C16","Model verification accepts exactly the models that reproduce their table",
 "Verify succeeds if and only if for every verification row, evaluating the row's input columns (each under the field name its column is declared for) produces every expected output field with |expected - predicted| <= 1e-5*|expected| (expected text that is not a number must be equal as text). A missing output, a NaN, or an evaluation error makes Verify fail; a model without verification data verifies.",
 ["inputs","configurations"],"every expected and predicted value of either sign, and every column/field naming",
 "the example models verify with small positive expectations and columns named like their fields",
 [E],[("verification loop and tolerance",E)],["Verify result"])
p("C17","Evaluation is a function of model and row only",
 "Evaluating the same compiled model on equal rows always gives equal outputs: the result does not depend on map iteration order, on rows evaluated earlier, or on how often the model was evaluated.",
 ["inputs","histories","schedules"],"every iteration order of every map ranged over, every preceding evaluation history within the bound",
 "map order is randomized per run and tests assert a single run; ties that expose it never occur in the test rows",
 [T,M],[("aggregation over maps",T),("output caches",T)],["Evaluate result"])
p("C18","A compiled model is read-only during evaluation and safe to share",
 "Evaluating or verifying a model writes no memory reachable from the model, its dictionaries or package state without synchronization, so any number of goroutines may evaluate one compiled model concurrently on their own rows.",
 ["inputs","schedules"],"every row and every supported model kind within the bound; every interleaving, since no unsynchronized write exists",
 "no test evaluates concurrently",
 [T,M,R],[("model state",T)],["memory written during Evaluate"])
p("C19","Evaluation leaves the caller's row unchanged",
 "Evaluate never adds, removes or replaces entries of the row passed in, for any model kind, whether it succeeds, fails or gives no prediction.",
 ["inputs","configurations"],"every row and model within the bound",
 "every test builds a fresh row per call and never looks at it again",
 [I,M,T],[("derived fields, imputation and chaining",M)],["caller's row after Evaluate"])
p("C20","Evaluating a built model never panics",
 "For a model built without error, Evaluate returns an output or an error for every row: absent fields, nil values, and values of any Go type (including ones not matching the declared type) never cause a panic.",
 ["inputs"],"every row over the model's fields with values of any supported or unsupported carrier type",
 "tests only use rows of the declared types",
 [T,M,R,I,V],[("type-directed evaluation",T)],["Evaluate"])
p("C21","Unsupported model constructs are rejected with an error",
 "Building an evaluator fails with an error for model kinds other than tree, mining and regression, for tree functions other than classification/regression, for ensemble methods other than sum, average, modelChain and selectFirst, for segments without exactly one model, for ensemble output features other than probability, and for missing predicates and predicates that name an undeclared field, use an unsupported operator or whose literal does not parse as its type; supported ones build.",
 ["configurations","inputs"],"every attribute string up to the bound, and every registered model kind",
 "only supported documents are built in tests",
 [E,T,M],[("validation",M),("predicate compilation",T),("model dispatch",E)],["NewModel error"])
p("C22","Decoding preserves every part of a tree model document",
 "Decoding a document yields tree models whose attributes, schema, outputs and targets are as written and whose nodes carry exactly the id, score, recordCount, defaultChild, children, score distributions and predicate written, in document order, whatever the order of attributes and of differently named elements; predicates keep field, operator, value, boolean operator and children. Numeric and boolean attributes that do not parse are an error.",
 ["inputs","configurations"],"every attribute value and attribute order within the bound, every predicate kind and nesting within the bound",
 "tests compare a few fixed documents",
 [EL,G],[("hand-written decoders",EL)],["decoded model"])
p("C23","Decoding preserves dictionaries, schemas, ensembles, regressions and transforms",
 "Decoding a document yields the header, data and transformation dictionaries, mining schema, statistics, outputs, targets, segments, regression tables, derived fields, expressions, mapping tables and verification tables that its types represent exactly as written under their PMML names, in document order and whatever the attribute order, with absent attributes of pointer type nil. Numeric, boolean and yes/no attributes that do not parse are an error.",
 ["inputs","configurations"],"every attribute value within the bound, present or absent",
 "tests compare a few fixed documents",
 [EL,CT],[("hand-written decoders and field tags",EL)],["decoded model"])
p("C24","Extension and unknown elements never change how a document decodes",
 "Inserting Extension elements, elements of unknown name (with any content), comments or white space at any place inside a document's elements (other than texts and the free-form rows of tables) does not make decoding fail and does not change any other decoded content.",
 ["inputs","configurations"],"every insertion point in every hand-decoded element, with nested content",
 "only one test document contains an Extension, inside an element without hand-written decoder",
 [EL],[("hand-written decoders",EL)],["decoded model"])
p("C25","Typed arrays yield exactly their whitespace-separated elements",
 "Reading an int, real or string array returns its elements in order, parsed as the array's type: elements are separated by white space, and double quotes enclose white space that belongs to an element, with a backslash before a quote or backslash that does; reading with an accessor of another type, or content that does not parse, is an error every time it is read, and repeated reads give the same answer.",
 ["inputs","histories"],"every array text up to the bound, and every sequence of reads",
 "one real array of two elements is read once",
 [CT],[("array accessors and caches",CT)],["array accessor result"])
p("C26","Element factories know exactly the PMML element names",
 "Each element factory (expressions, predicates, models, distributions, embedded models, tables) returns a fresh, empty element of the matching type for every name of its PMML group and nothing for any other name.",
 ["inputs"],"every name string up to the bound",
 "tests reach five of the forty names",
 [G],[("factories",G)],["factory result"])
p("C27","Building evaluators is repeatable and leaves the document usable",
 "Building a model again from the same document - or compiling, validating or verifying an evaluator again - leaves evaluators that give the same outputs as the first, and building never adds to or removes from the caller's data and transformation dictionaries.",
 ["histories","configurations"],"every sequence of up to three build/compile/validate/verify calls, every row within the bound",
 "tests compile twice but never compare, and never look at the dictionaries",
 [T,M],[("compilation",T)],["Evaluate results and dictionaries after repeated builds"])
p("C28","Models that were not validated and compiled refuse to evaluate",
 "A tree or mining evaluator that was not produced by its constructor and has not been both validated and compiled returns the not-validated, respectively not-compiled, error from Evaluate and no output.",
 ["histories"],"every order of lifecycle calls within the bound",
 "no test evaluates an unprepared model",
 [T,M],[("lifecycle flags",T)],["Evaluate error"])
p("C29","Decoding a damaged document ends, and ends with an error when it is cut off",
 "Decoding a document that is cut off before its end returns an error; one with elements missing, empty, renamed to other elements or nested where they do not belong, or with attribute values that do not parse, returns a document or an error. Decoding never panics and never loops.",
 ["inputs","faults"],"every cut between two tokens, every single damaged place and every attribute text within the bound, in documents that use every hand-written decoder",
 "tests only decode well-formed documents",
 [EL],[("hand-written decoders",EL)],["decode result"])
p("C30","Set predicates test membership in the array, read as the declared type",
 "A simple set predicate is UNKNOWN exactly when its field is missing from the row (absent or nil). For a present value isIn is TRUE exactly when the value, read as the field's declared type, equals one of the array's elements read as that type, and FALSE otherwise; isNotIn is its negation. The array's own type attribute, the order and repetition of its elements and the Go type that carries the value make no difference.",
 ["inputs","configurations"],"every value of every carrier type, every declared type, every array text up to the bound",
 "no test evaluates a set predicate",
 [T,CT],[("set predicate evaluation",T)],["tree model Evaluate result"])
if __name__=="__main__":
    for x in P: print(json.dumps(x))
