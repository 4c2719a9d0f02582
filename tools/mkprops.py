import json
P=[]
def p(id,title,statement,over,otext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":["modularcalculator/"+f for f in files],"mechanism":[{"name":n,"where":"modularcalculator/"+w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":"modularcalculator/"+w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":otext},"why_tests_cant":why,"anchors":a})
VARS=("calculator.vars","the variables a session has set: name to (value, unit)","features/state/assignment.py")
p("C01","Session variables follow a sequential model, whatever fails in between",
"Over any history of calculations on one calculator, each variable holds exactly the value and unit the last completed statement that wrote it gave it (=, ||=, ++, --, += and its kin, delete, reset), and any statement that reads it gets that value. When a statement fails, the statements before it in that calculation have taken effect, the failed assignment has not, and no later statement runs; a calculation that cannot be parsed changes nothing at all.",
["histories","fault_sequences","programs"],"every history of calculations, every statement at which one of them fails, and every kind of failure",
"The tests run one or two expressions per fresh state; which variables survive depends on the whole history and on where a calculation fails, and no test looks at the variables after a failure.",
["engine.py","features/state/assignment.py","features/state/assignmentoperators.py","features/state/assignmentfunctions.py","objects/operators.py"],
[("statements are all parsed, then executed in order; the first failure ends the calculation","engine.py Engine.calculate"),("assignment operators write the variables only after their operands were evaluated","features/state/assignment.py, assignmentoperators.py")],
[VARS],["results of calculate()","state with flags include_state","the variables after each calculation"])
p("C02","External functions never touch the caller's variables, however the call ends",
"A call to an external function sees only its own parameters (PARAM1, PARAM2, ...) as variables, and after the call - returned, failed in the body, unreadable file, unparsable contents, host function raising anything, or interruption - the caller's variables are exactly what they were before the call. Nested and per-element (array argument) calls obey the same rule at every level.",
["fault_sequences","crash_points","programs"],"every function body, call nesting, argument shape, and every point in the call at which a fault or interruption lands",
"The tests call a handful of well-behaved files; isolation is only at risk when the body fails or is interrupted at some point, alone or nested, which no test does.",
["features/structure/externalfunctions.py","features/structure/functionpointers.py","objects/operators.py"],
[("the caller's variables are put aside for the duration of the body and put back afterwards","features/structure/externalfunctions.py do_function")],
[VARS],["the variables after the call","the value a body computes from names that exist only in the caller"])
p("C03","Inline functions leave the caller's variables alone and report body failures",
"A call to an inline function {...} evaluates its body with the caller's variables as they are at the call plus its parameters, and yields the last statement's value; after the call, however it ended, the caller's variables are exactly what they were before it. If any statement in the body fails the call fails, and the statements after it in the body are not run.",
["fault_sequences","crash_points","programs"],"every body, nesting, argument shape, and every point in the call at which a fault or interruption lands",
"The tests call a few bodies that succeed; assignments inside bodies, failures in middle statements and interruptions inside nested calls are not sampled.",
["features/structure/inlinefunctions.py","features/structure/functionpointers.py"],
[("the caller's variables are copied before the body and put back afterwards","features/structure/inlinefunctions.py do_function")],
[VARS],["the variables after the call","calls made by body statements after a failing one"])
p("C04","An external function call runs exactly what its file holds at that call",
"Every call of an external function evaluates the complete contents its file has at the time of that call, never an earlier version or a part of them, whatever the file's size, timestamps or earlier calls. If the file cannot be opened, read to its end or decoded, the call fails with a calculation error without running any of the body; the file is only ever read, and no file handle stays open after the call.",
["fault_sequences","histories","schedules"],"every sequence of file rewrites, replacements, removals and calls, and every I/O fault at any point of opening, reading or closing",
"The tests call files that never change and never fail to read; stale, partial and faulty reads need file histories and I/O faults.",
["features/structure/externalfunctions.py"],
[("the file is opened and read in full at each call, before the body is evaluated","features/structure/externalfunctions.py handle")],
None,["the value of a call","the calls a body makes","files opened and closed"])
p("C05","An interrupted calculation is abandoned cleanly and the calculator stays usable",
"If a calculation is interrupted (KeyboardInterrupt, SystemExit or another non-error exception raised while a value is being computed, a file read or a clock consulted), the interruption reaches the caller of calculate() unchanged. The variables then hold exactly what the statements completed before it left, apart from assignments the interrupted statement had itself already completed, and everything calculated afterwards is as if the interrupted statement and those after it had never been submitted.",
["crash_points","histories","fault_sequences"],"every point inside a running calculation at which an interruption can be delivered, and every later history",
"No test interrupts a calculation; the property quantifies over every interruption point.",
["engine.py","objects/operators.py","features/structure/externalfunctions.py","features/structure/inlinefunctions.py","features/structure/functionpointers.py"],
[("only calculation errors are turned into results; anything else passes through","objects/operators.py Operation.call"),("variables put aside for a function body are restored on every way out","features/structure/*functions.py")],
[VARS],["the exception calculate() raises","the variables and later results"])
p("C06","Calculators in one process are independent of each other",
"Results, displayed numbers, errors and variables of a calculator depend only on its own features, options, precision, size and rounding settings and its own history. Creating, configuring, using or breaking other calculators in the same process, in any interleaving - including inside one of its own calculations - never changes them.",
["schedules","configurations","histories"],"every interleaving of operations on several calculators with any settings",
"The tests use one calculator with default settings per test class; interference needs at least two differently configured calculators used alternately.",
["numericalengine.py","objects/number.py","modularcalculator.py","services/unitnormaliser.py","objects/units.py","engine.py"],
[("settings, variables, functions, operators and units live on the calculator instance","numericalengine.py, engine.py, modularcalculator.py"),("number precision and rounding are applied per calculation","numericalengine.py number_context")],
[("decimal context","precision and rounding in force on the running thread","numericalengine.py")],["transcripts of each calculator alone and interleaved"])
p("C07","Calculators behave the same on any thread and under any thread schedule",
"Threads that each use their own calculator get, under every interleaving, exactly the results, errors and variables each would get running alone. A calculator created or configured on one thread and then used on another, one thread at a time, gives the same results as on the first, including precision and rounding.",
["schedules"],"every preemption schedule of several threads at source-line granularity, and every hand-over of a calculator between threads",
"All tests run on one thread.",
["numericalengine.py","objects/number.py","engine.py","features/structure/terminator.py"],
[("no calculation state is shared between calculators or kept in thread-local ambient settings","numericalengine.py number_context, objects/number.py to_string")],
[("decimal context","per-thread ambient settings","numericalengine.py")],["transcript of each thread against its solo run"])
p("C08","now() is a reading of the clock taken while it is evaluated",
"Each evaluation of now() yields a date string that denotes, to the microsecond, a reading of the local wall clock made during that evaluation, and reads back as that same date. A stored value never changes with the clock, and two evaluations see the clock at their own times, even when the clock jumps forward or back, or stands still.",
["schedules","histories","fault_sequences"],"every sequence of clock readings, including jumps, stalls, midnight and whole-second instants, and every placement of now() in a program",
"The real clock cannot be driven; the tests do not check now() at all, and its format depends on the instant.",
["features/dates/datefunctions.py","features/dates/dates.py"],
[("now() formats the clock with the resolution the instant needs","features/dates/datefunctions.py func_now, dates.py date_to_string")],
None,["the string now() yields","date arithmetic on it"])
p("C09","Timings report the monotonic time each stage of each statement really took",
"For every statement of a response, the parse, exec and finalize timings are each non-negative and equal to the time that elapsed on the monotonic clock in that stage of that statement; delays elsewhere are never attributed to it. Jumps of the wall clock have no effect on them.",
["schedules","fault_sequences"],"every placement of delays (slow files, slow functions, slow parsing) and clock jumps in any program",
"With the real clock the timings are noise; the tests only print them.",
["engine.py","objects/api.py"],
[("the performance counter is read around each stage of each statement","engine.py calculate, parse, update_times")],
None,["timings of each result"])
p("C10","Delivered responses and snapshots never change; reading changes nothing",
"Once calculate() has returned or raised, the values, units and state snapshots in its response (and in the partial response of an error) stay exactly as delivered, whatever is calculated, assigned, deleted or reconfigured afterwards. Evaluating an expression that assigns nothing never changes the value, unit or representation of any variable or constant.",
["histories","programs"],"every later history of calculations and option changes after any response",
"Tests look at a response once, immediately; aliasing only shows when later operations run while earlier responses are kept.",
["engine.py","objects/operators.py","objects/items.py","objects/units.py","features/units/units.py","features/arrays/arrays.py","features/arrays/arrayfunctions.py","features/state/assignment.py"],
[("values are treated as immutable; units are copied when a variable is read","features/state/assignment.py VariableItem, objects/number.py"),("finalizing and retyping results work on copies","engine.py finalize, objects/operators.py call")],
None,["every delivered response re-read after every later operation"])
p("C11","An error reports exactly the work done and the statement it happened in",
"When a calculation fails, the error carries the results of precisely the statements completed before the failing one (with the values, units and state they would have had in a calculation ending there), and its position lies within the failing statement, or at the unparsable text. This holds for every kind of failure: parse errors, failing operators, functions and array elements, host function exceptions and I/O errors, at any nesting.",
["fault_sequences","programs"],"every statement and nesting depth at which any kind of failure occurs",
"The tests check positions of some single-statement errors and never the partial response; failing at every position of multi-statement programs with injected faults is not sampled.",
["engine.py","objects/exceptions.py","features/structure/functions.py","features/structure/functionpointers.py","features/structure/innerexpressions.py","features/structure/inlinefunctions.py","features/arrays/arrays.py"],
[("calculate attaches the response built so far and the statements up to the failing item","engine.py calculate, restore_non_functional_items"),("nested errors are re-anchored at each level","features/structure/*.py")],
None,["response, statements and find_pos() of the raised error"])
p("C12","A response depends on current state only, never on calculation history",
"Given the same variables, options, installed features, files and clock, an expression yields the same response: earlier calculations - successful, failing, unparsable, parse-only, stateless or interrupted - and options changed and changed back leave no other trace. The hash seed of the interpreter makes no difference either.",
["histories","configurations","fault_sequences"],"every pair of histories that end in the same variables and options, and every hash seed",
"Tests run each expression in one fixed history and one process; hidden state (caches, remembered failures, iteration order) needs differing histories to show.",
["engine.py","features/structure/terminator.py","features/numerical/expnumbers.py","services/unitnormaliser.py","objects/units.py","features/structure/operators.py"],
[("parsing and evaluation keep no state of their own besides the variables; the terminator's memory of a continued statement is tied to that statement","features/structure/terminator.py")],
None,["transcripts with and without extra history"])
p("C13","Parsing executes nothing; execution runs each step exactly once, in order",
"Parsing an expression, including one that is only parsed or that fails to parse, calls no function, reads no file, consults no wall clock and changes no variable. When a calculation runs, every function application in it is performed exactly once for each time the program calls for it, in program order, and none in statements after a failure.",
["programs","fault_sequences","histories"],"every program and layout (line breaks and continuations included), with a failure or parse error anywhere",
"Tests compare values, and a value cannot tell how often or when a function was applied or a file was read.",
["engine.py","features/structure/terminator.py","features/structure/functions.py","features/structure/functionpointers.py","features/boolean/booleans.py"],
[("deciding whether a line break ends a statement only pretends to execute","features/structure/terminator.py parse_terminator, engine.py fake_execution"),("all parsing happens before any execution","engine.py calculate")],
None,["log of host function calls, file opens and clock readings"])
p("C14","Stateless calculation changes no state and needs no cleaning up",
"A calculation run with the stateless flag, whatever it contains and however it ends, leaves all variables of the calculator as they were, and the flags passed in are not modified. Its responses for programs that never read or delete a variable they assigned, directly or in an inline function, equal those of an ordinary calculation.",
["histories","programs","fault_sequences"],"every program with any state-changing construct (operators, functions, nested function bodies) and any failure or interruption in it",
"No test uses the flag.",
["features/state/assignment.py","features/state/assignmentoperators.py","features/state/assignmentfunctions.py","features/structure/inlinefunctions.py","features/structure/externalfunctions.py"],
[("every operation that writes variables checks the flag","features/state/*.py")],
[VARS],["the variables before and after"])
p("C15","Features install to the same calculator in any order; failed installs can retry",
"Installing a given set of features yields a calculator that behaves the same whatever order they are named in, however they are grouped into install calls (where no call brings a feature that one installed by an earlier call names in after()), whatever was calculated or set in between, and whether or not an already installed feature is asked for again, which changes nothing. Each feature is installed once, after everything it depends on and after those of the features asked for that it names in after(). If a call fails part-way (a feature raises, is missing or is interrupted), the calculator stays as it was before the call, and the same call, made again once the cause is gone, gives the same calculator as one that never failed; a feature that is not known is reported as a CalculatorException.",
["configurations","schedules","fault_sequences"],"every order and grouping of install calls over the features, with failures at any feature",
"The tests install presets in one order, once.",
["modularcalculator.py","features/feature.py","features/layout.py","features/presets.py"],
[("dependencies and ordering hints are resolved at install; parsers and operators are placed by fixed maps","modularcalculator.py install_features, add_parser, add_op")],
[("installed_features / features_to_install","what is installed or asked for","modularcalculator.py")],["transcript of probe expressions on each calculator"])
p("C16","Loading a feature file is all-or-nothing and loads the file that was named",
"Importing a feature file makes exactly the features that file defines at that time available, even when other modules or feature files have the same base name. If it cannot be read, or running it fails, nothing becomes available, the calculator keeps working as before, and importing it again once repaired succeeds with its repaired contents, whatever modification time they have.",
["fault_sequences","histories","configurations"],"every sequence of feature file imports, with I/O faults, torn contents, exceptions and interruptions at any point of loading",
"No test imports a feature file.",
["modularcalculator.py"],
[("features are registered only after the module was loaded","modularcalculator.py import_feature, import_feature_file")],
[("feature_list","features known by id","modularcalculator.py")],["list_features() and calculations with the imported feature"])
p("C17","A failure confined to one element or unused operand stays confined",
"When an operation is applied over an array and fails for some elements, exactly those elements of the result are errors and every other element is what it would be without the failures. A conditional (then/else) yields its chosen branch even if the other branch failed, and and/or yield a result their left operand settles even if the right one failed.",
["fault_sequences","inputs"],"every set of failing elements or operands, every kind of failure, in any nesting of array operations and conditionals",
"Tests contain a few hard-coded failing elements; which elements fail and how must vary, including failures no expression can provoke by itself (I/O errors, host exceptions).",
["objects/operators.py","features/boolean/booleans.py","features/arrays/arrays.py","features/arrays/arrayfunctions.py","engine.py"],
[("a failing element becomes an error value in its place","objects/operators.py call"),("operators that may ignore a failed operand accept it","features/boolean/booleans.py")],
None,["the elements of array results"])
p("C18","Any exception inside an operation surfaces as one calculation error",
"Whatever error a function, operator or validator raises while a calculation runs - any Exception, including memory exhaustion, recursion overflow and I/O errors, at any depth - calculate() either returns the correct results or raises one execution error naming a calculation failure; it never leaks another exception type or returns a wrong value. Variables, options and later calculations are unaffected by it.",
["fault_sequences","crash_points","programs"],"every operation application at which any exception is raised, and every stack depth at which the stack runs out",
"Tests only see the exceptions their inputs provoke; failures of the environment at arbitrary points need injection.",
["objects/operators.py","engine.py","features/structure/functions.py","features/structure/externalfunctions.py","features/structure/inlinefunctions.py"],
[("an operation turns every exception of its implementation into a calculation error","objects/operators.py call")],
None,["the exception type calculate() raises; later calculations"])
NA="no schedule, clock, fault, I/O or history enters it: a pure function of the expression"
p("C19","Number arithmetic is exact on rationals","Adding, subtracting, multiplying, dividing and raising numbers to integer powers is exact for rationals within the configured number size, and rounding happens only when a number is displayed.",["inputs"],"all numbers and operations","The tests sample some numbers.",["objects/number.py"],[("numbers are kept as fractions of integers","objects/number.py Number")])
p("C20","Unit conversion and simplification preserve the quantity","Converting or simplifying the units of a value never changes the physical quantity it denotes, and conversion between incompatible dimensions is always refused.",["inputs","configurations"],"all units, powers and values","The tests sample some units.",["services/unitnormaliser.py","objects/units.py"],[("conversion through base scales","services/unitnormaliser.py")])
p("C21","Number representations round-trip","A number displayed in any base or representation, read back, denotes the same number within the configured precision.",["inputs"],"all numbers and representations","The tests sample some.",["features/numerical/bases.py","features/numerical/expnumbers.py"],[("to_string and parse of each representation","features/numerical/*.py")])
p("C22","Operator precedence and grouping follow the documented table","Every expression is grouped by the documented precedence and associativity of operators.",["programs"],"all expressions","The tests sample some.",["engine.py","features/layout.py"],[("precedence levels scanned in order","engine.py execute")])
p("C23","Syntax highlighting is lossless","The highlighted pieces of any expression concatenate to the expression itself.",["inputs"],"all expressions, valid or not","The tests sample some.",["services/syntaxhighlighter.py"],[("items carry their text","services/syntaxhighlighter.py")])
p("C24","Date arithmetic agrees with the calendar","Adding or subtracting a period to a date and the difference of two dates agree with the proleptic Gregorian calendar, with and without time zones.",["inputs"],"all dates and periods","The tests sample some.",["features/dates/datefunctions.py"],[("datetime arithmetic","features/dates/datefunctions.py")])
p("C25","Calculations and the program around them do not disturb each other",
"The response and the effects of a calculation do not depend on the decimal context, numpy error handling or integer digit limit in force in the program that calls it, nor on what they were when the calculator was made. However it ends - with a result, an error or an interruption - a calculation leaves these, the warning filters, the working directory, environment, module path, recursion limit, random state, signal handlers, hooks and threads of the program as they were, and prints nothing; making a calculator leaves them too, but for the precision and rounding of the thread's decimal context.",
["configurations","histories","fault_sequences","crash_points"],"every setting of the process around, in any order with calculations, and every failure or interruption of a calculation",
"The tests run in one plain process, with the default context, and look at nothing but results.",
["numericalengine.py","objects/number.py","features/numerical/specialfunctions.py","features/structure/externalfunctions.py"],
[("a calculation runs in a decimal context of its own","numericalengine.py number_context")],
None,["responses under each setting","decimal.getcontext(), warnings.filters, numpy.geterr(), os.getcwd(), ... before and after each calculation"])
p("C26","A host function may calculate on the calculator that is calling it",
"A function of the host program called in a calculation may itself calculate on the same calculator, to any depth. A nested calculation sees the variables of that moment (in a function's body, those of the body) and returns the response or error it would return on its own; what it assigns or deletes stays, within a function's body for as long as that body runs. The calculation around it goes on as if the host function had made just those changes: its results, errors, positions, timings and snapshots are unaffected, however the nested one ended.",
["schedules","histories","fault_sequences"],"every point of a calculation at which a host function is called, every nesting of such calls, and every way the nested calculation ends",
"No test calls back into a calculator; what a nested calculation could disturb depends on where in the outer one it happens.",
["engine.py","numericalengine.py","features/structure/functions.py","features/structure/externalfunctions.py","features/structure/inlinefunctions.py"],
[("everything a calculation needs while it runs is local to it, except the variables","engine.py calculate, parse, execute")],
[VARS],["the responses of the nested and of the outer calculation","the variables after each"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title'])); f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
