#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth is this table)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["the sequence of host calls, their arguments and the final value or error of running the compiled program"]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

V="dice-compiler/src/visitor/"
p("C01","Host-visible effects happen exactly once, in source order",
  "Running a compiled program makes exactly the host calls the program text prescribes: each call happens once per evaluation, operands and arguments are evaluated left to right with the documented precedence, and host-object reads and writes are neither lost, repeated nor reordered. The program's final value is the value of its last expression. This holds for every sequence of results the host returns.",
  ["programs","histories","fault_sequences"],"all programs, all sequences of values and failures returned by the host, all callback deliveries",
  "The unit tests only check that single constructs emit or parse; none runs a program, so ordering and exactly-once across composed constructs is never exercised.",
  [V+"expr_binary_op.rs",V+"expr_assignment.rs",V+"expr_fn_call.rs",V+"expr_block.rs",V+"literal_list.rs",V+"literal_object.rs","dice-compiler/src/assembler.rs","dice-syntax/src/parser/mod.rs"],
  [("expression lowering emits operands in evaluation order",V+"expr_binary_op.rs"),("compound assignment evaluates its target once (DUP)",V+"expr_assignment.rs"),("statement results are popped except the last",V+"expr_block.rs"),("precedence climbing",'dice-syntax/src/parser/mod.rs')])
p("C02","A host failure stops the run at that point and corrupts nothing else",
  "When a host call fails, the program makes no further host-visible effect in that activation, so its effects are exactly the prefix a failure-free run would have made, and the failure is what the embedder receives. Later activations (queued callbacks) still run and see precisely the state written before the failure.",
  ["fault_sequences","crash_points","histories"],"a failure at any host call of any program, followed by any later callbacks",
  "No test executes a program with a failing host; the failure point is quantified over every call in every program.",
  [V+"expr_fn_call.rs",V+"expr_block.rs",V+"decl_var.rs",V+"expr_assignment.rs","dice-compiler/src/upvalue.rs"],
  [("effects are emitted after their operands, stores after their values",V+"expr_assignment.rs"),("no code path resumes after a failed call","dice-compiler/src/assembler.rs")])
p("C03","Failed results propagate out of functions and `or` handlers run exactly then",
  "`e!!` yields the payload of a successful result and otherwise leaves the enclosing function at once with that same failed result, skipping everything after it. `e or x { handler }` runs the handler, with the failure bound to the name, exactly when the result is a failure and yields the payload otherwise; captured variables and enclosing loops are left in a consistent state on both paths.",
  ["programs","histories","fault_sequences"],"all placements of !! and or in functions, methods, loops and closures; all success/failure outcomes",
  "There is no test executing !! or or; which branch is taken depends on host outcomes that no unit test supplies.",
  [V+"expr_error_propagate.rs",V+"expr_binary_op.rs",V+"expr_return.rs","dice-syntax/src/parser/mod.rs"],
  [("error propagation tests is_ok, returns the result or unwraps it",V+"expr_error_propagate.rs"),("or-coalescing is lowered to a block with a checked temporary","dice-syntax/src/parser/mod.rs")])
p("C04","Null propagation and lazy operators evaluate only what they must",
  "`a?.b(...)...` yields null and evaluates nothing in the rest of the chain (no argument, index or call) when the value before `?` is null, and behaves like the plain chain otherwise; `a ?? b`, `a && b` and `a || b` evaluate b only when a is null, true, or false respectively, and the logical operators reject non-boolean operands.",
  ["programs","histories","fault_sequences"],"all chains and nestings; every host outcome deciding which operand is null, true or false",
  "The tests never evaluate a chain; laziness is a property of run-time paths selected by host values.",
  [V+"expr_null_propagate.rs",V+"expr_fn_call.rs",V+"expr_index.rs",V+"expr_field_access.rs",V+"expr_binary_op.rs",V+"syntax_node.rs"],
  [("call context collects exit points patched at the end of the chain",V+"syntax_node.rs"),("lazy operators jump over the right operand",V+"expr_binary_op.rs")],
  [("call_context","pending exits of the current chain","dice-compiler/src/compiler_stack.rs")])
p("C05","Closures and callbacks share live captured variables",
  "A closure that outlives the scope that created it keeps its captured variables: every closure over the same variable instance sees the others' writes, each loop iteration or call creates fresh instances, and the variable survives however its scope is left (end of block, break, continue, return, error propagation or host failure). This holds for every schedule in which the host later invokes, repeats, delays or drops the callbacks.",
  ["schedules","programs","histories","fault_sequences"],"all closure-creating programs and all callback delivery schedules, including re-entrant delivery during another host call",
  "One unit test covers upvalue emission shape at most; lifetime and sharing depend on when the host calls back.",
  ["dice-compiler/src/upvalue.rs","dice-compiler/src/scope_stack.rs","dice-compiler/src/compiler_stack.rs",V+"decl_fn.rs",V+"literal_anonymous_fn.rs",V+"expr_block.rs",V+"literal_variable.rs"],
  [("captured locals are closed when their scope is left",V+"expr_block.rs"),("upvalue resolution through enclosing functions","dice-compiler/src/compiler_stack.rs")],
  [("is_captured","local must be closed at scope exit","dice-compiler/src/scope_stack.rs")])
p("C06","Loops run once per item, and break/continue/return act on the right loop",
  "A `for` loop runs its body exactly once per item the host iterator yields, in order, and asks for no item after the end or after a `break`; range loops run over exactly the integers of the range with bounds evaluated once; `while`/`loop` re-test on each turn. `break`, `continue` and `return` affect exactly the innermost loop or the enclosing function wherever they occur, and the program goes on correctly after the loop.",
  ["programs","histories","fault_sequences"],"all loop nestings with early exits at any position, any iterator length including early or immediate end, failures between items",
  "Tests only check that a loop parses; no loop is ever run.",
  [V+"expr_for.rs",V+"expr_range_loop.rs",V+"expr_while.rs",V+"expr_loop.rs",V+"expr_break.rs",V+"expr_continue.rs"],
  [("loop scopes record entry point and exit points","dice-compiler/src/scope_stack.rs"),("patched exit jumps",V+"expr_loop.rs")],
  [("temporaries","values on the stack that an early exit has to discard","dice-compiler/src/compiler_stack.rs")])
p("C07","Declared types are enforced against whatever the host supplies",
  "A function with typed parameters never starts its body with an argument that is not of the declared type, and a function with a return type never returns a value that is not of it, on every return path; `T?` additionally admits null. `v is T` answers exactly whether v belongs to class T, evaluating v once.",
  ["programs","histories","fault_sequences"],"all annotated functions, methods and operators, all values of all types (including wrong ones) returned by a misbehaving host",
  "No test runs type assertions; a violation appears only when a host value has the wrong type on a particular return path.",
  [V+"decl_fn.rs","dice-compiler/src/compile_fn.rs",V+"expr_return.rs",V+"expr_is.rs",V+"expr_error_propagate.rs",V+"decl_op.rs",V+"decl_class.rs"],
  [("argument assertions at function entry","dice-compiler/src/visitor/mod.rs"),("return assertions at every return","dice-compiler/src/visitor/expr_return.rs")])
p("C08","Objects dispatch to the right method, base class and operator",
  "Constructing an object runs its constructor once with the object as self (the base constructor first via super) and yields that object; method calls bind their receiver, inherited methods are found on the base class unless overridden, `super.m` reaches the base implementation, and operators on instances run the operator the class (or else the global scope) defines. This holds under re-entrant host callbacks during construction and dispatch.",
  ["programs","histories","schedules","fault_sequences"],"all class hierarchies the language can express, with host calls (failing, re-entrant) inside constructors, methods and operators",
  "No test executes a class; dispatch with re-entrancy and failure mid-construction is never sampled.",
  [V+"decl_class.rs",V+"decl_op.rs",V+"expr_super_call.rs",V+"expr_super_access.rs",V+"expr_binary_op.rs",V+"expr_prefix_op.rs"],
  [("class declaration emits inherit/method stores",V+"decl_class.rs"),("super call passes self",V+"expr_super_call.rs")])
p("C09","Modules export what they declare and import failures leave no half state",
  "Running a module yields an object with exactly its exported bindings, each with the value the binding had when the export was evaluated, while everything not exported stays private. An import binds exactly the requested names (and, with `* as m`, the module itself) to the values exported at that time, null for a name that is not exported, and nothing else. A failed import (missing module, failure inside its body) surfaces to the importer: none of the requested names is written and no later part of the importing activation runs.",
  ["programs","histories","fault_sequences"],"all module graphs of the language, including cycles, all load failures and failures inside module bodies, and their order relative to other effects",
  "No test loads a module; a failed or cyclic import needs a fault or history between two activations.",
  [V+"decl_import.rs",V+"decl_export.rs","dice-compiler/src/compiler.rs","dice-compiler/src/visitor/syntax_node.rs"],
  [("module frame reserves an export object",'dice-compiler/src/compiler.rs'),("imports load fields into locals",V+"decl_import.rs")])
p("C10","Every executed path keeps the frame well-formed",
  "Whatever outcomes the host produces, running compiled code never reads or writes a slot beyond the frame size the code declares, never jumps outside its code or into the middle of an instruction, never refers to a missing constant or captured variable, and leaves the operand stack of each function, loop iteration and activation at the depth it started with.",
  ["programs","histories","fault_sequences","schedules"],"all programs and all run-time paths (host outcomes, early exits, failures, callbacks)",
  "Balance and bounds depend on the path taken; tests run no bytecode.",
  ["dice-compiler/src/assembler.rs","dice-compiler/src/scope_stack.rs","dice-bytecode/src/cursor.rs","dice-bytecode/src/lib.rs",V+"expr_block.rs"],
  [("jump patching","dice-compiler/src/assembler.rs"),("slot allocation","dice-compiler/src/scope_stack.rs"),("instruction decoding","dice-bytecode/src/cursor.rs")],
  observe=["operand stack depth, slot index and instruction pointer at every executed instruction"])
p("C11","Compilation is reproducible whatever the entropy and the history",
  "Compiling the same source gives the same program and the same diagnostics, apart from the fresh identifiers of functions, whatever random bytes (and interrupted or short reads) the operating system supplies, whatever hash seeds are in force, and whatever was compiled, successfully or not, before in the same process. Identifiers of distinct functions never collide within a program when the entropy does not repeat.",
  ["inputs","histories","fault_sequences","configurations"],"all sources, all entropy streams with EINTR/short reads, all hash seeds, all earlier compilations",
  "A test runs with one hash seed and one history.",
  ["dice-compiler/src/compiler.rs","dice-compiler/src/assembler.rs","dice-compiler/src/visitor/decl_fn.rs","dice-syntax/src/parser/rules.rs","dice-bytecode/src/lib.rs"],
  [("fresh compiler state per compilation","dice-compiler/src/compiler.rs"),("expected-token lists are sorted before display","dice-syntax/src/parser/mod.rs")],
  observe=["serialized instructions and constants, rendered errors and disassembly"])
p("C12","Concurrent compilations and error renderings do not interfere",
  "Threads that compile sources and render errors at the same time each obtain exactly the output they would obtain alone, for every interleaving, and none of them deadlocks or panics.",
  ["schedules","inputs"],"all interleavings of threads at allocation and lock operations, including first use of shared lazily initialised state",
  "The test runner uses threads but never controls interleaving nor checks cross-thread output.",
  ["dice-core/src/error/localization.rs","dice-core/src/error/fmt.rs","dice-compiler/src/compiler.rs","dice-syntax/src/lexer/mod.rs"],
  [("lazily initialised locale bundles","dice-core/src/error/localization.rs"),("no shared mutable compiler state","dice-compiler/src/compiler.rs")],
  observe=["outputs of each thread; absence of deadlock"])
p("C13","A damaged source file is compiled or rejected with a located error",
  "Whatever a crash or storage fault leaves of a source file (torn, truncated, overwritten, spliced or with flipped bytes, as long as it is text), compiling it terminates. A text that is a sentence of the language is not rejected by the parser, and one that is not is rejected with a syntax error located at the first token that cannot continue a program. Every error names a place inside the text (and the file, where there is one), quotes exactly the lines it is in with their numbers, renders every entry of its trace, and is the same error when lines of comment precede the damage. Compilation never panics, hangs or silently ignores part of the file.",
  ["inputs","crash_points","fault_sequences"],"all sources and all damage patterns up to the nesting depth the generator produces",
  "Tests feed a handful of well-formed and a few malformed snippets, and look at tokens rather than programs.",
  ["dice-syntax/src/lexer/mod.rs","dice-syntax/src/lexer/token.rs","dice-syntax/src/parser/mod.rs","dice-syntax/src/parser/rules.rs","dice-core/src/source.rs","dice-core/src/error/fmt.rs"],
  [("parser errors carry span and tags","dice-syntax/src/parser/mod.rs"),("line index used for rendering","dice-core/src/source.rs")],
  observe=["result of compilation, rendered error text"])
p("C14","Output failures while rendering are reported and never corrupt output",
  "When the sink that receives a rendered error or disassembly fails at any write, rendering stops and reports the failure, what was written is a prefix of the full text, nothing panics, and rendering again to a healthy sink yields the full text.",
  ["fault_sequences","crash_points","inputs"],"a sink failure at every write of every rendering",
  "No test writes to a failing sink.",
  ["dice-core/src/error/fmt.rs","dice-core/src/error/mod.rs","dice-bytecode/src/lib.rs","dice-core/src/error/codes.rs"],
  [("? on every write","dice-core/src/error/fmt.rs"),("Display of bytecode","dice-bytecode/src/lib.rs")],
  observe=["bytes received by the sink, returned status"])
p("C15","File modules load only files of the module root, completely or not at all",
  "Loading a file module yields the requested identity and a program compiled from exactly the complete text of the file the name resolved to, and only when that file lies inside the working directory after resolving links and `..`; a name that resolves outside is rejected without being read. When the file is missing, unreadable, a directory, not text, or any file-system call fails part-way, loading fails with an error that names the module, no partial module is produced, and loading the same name again once the fault is gone yields the right module. Short and interrupted reads change nothing.",
  ["fault_sequences","crash_points","histories"],"all I/O outcomes at every file-system call, all path spellings, all contents a concurrent writer leaves at open time",
  "The runtime crate does not even build in the baseline; no test touches the loader.",
  ["dice-runtime/src/module/file_loader.rs","dice-runtime/src/module/mod.rs","dice-core/src/source.rs"],
  [("path resolution and containment","dice-runtime/src/module/file_loader.rs"),("whole-file read","dice-runtime/src/module/file_loader.rs")],
  observe=["loader result, module identifier, program, file-system calls made"],hook="cfg(dice_sim) so that the loader can be built without the interpreter, which does not compile")
p("C21","A program beyond a limit of the bytecode is rejected, never run as another",
  "Operands of the bytecode are a byte or two wide. A program with more local variables in a function, more elements in a list, more arguments or parameters, more captured variables, more constants or a longer jump than the encoding can express is rejected with an error when it is compiled; every program that is accepted runs as written, however large it is and however near to a limit.",
  ["programs","histories","fault_sequences"],"all programs with any number of locals, elements, arguments, captured variables and constants and jumps of any length, alone and combined with everything else, under all host outcomes",
  "Tests compile snippets of a few tokens; a count wraps around only far beyond them.",
  ["dice-compiler/src/assembler.rs","dice-compiler/src/scope_stack.rs","dice-compiler/src/compiler_stack.rs","dice-compiler/src/upvalue.rs",V+"expr_fn_call.rs",V+"literal_list.rs",V+"expr_super_call.rs"],
  [("operand widths of instructions","dice-compiler/src/assembler.rs"),("slots of a function","dice-compiler/src/scope_stack.rs"),("number of captured variables","dice-compiler/src/compiler_stack.rs")])
p("C22","A file that breaks a rule never runs, and its author is told where",
  "A file is rejected, before any of it runs, with the error for the rule it breaks and a location inside the offending construct, when it: assigns (also by a compound assignment, also from inside a closure) to a variable that is not declared mutable or that is not in scope; uses a function or class before its declaration in the same scope; declares a function or class under a name its scope already has; gives a named function, method or operator two parameters of the same name; breaks or continues outside of a loop of the same function; returns or propagates an error outside of a function that can return it; uses super outside of a method; declares a constructor without a receiver, with a return type, with a returned value or, in a derived class, without a super call as its first statement; gives a receiver a type or an operator none; exports anywhere but at the outermost level of a module; or imports nothing. The rule is applied in every context, and the same program is accepted when it respects the rules. When the rejected file is a module, its import fails with that error wherever it is reached in the run, no part of the module runs, and everything that does not depend on it runs as before.",
  ["programs","fault_sequences","histories"],"all rules at all places of all files of all programs, and the corresponding program that respects the rule, under all host outcomes",
  "A dozen unit tests show a rule in the smallest program that breaks it; scopes, loops, closures and classes around the mistake are never varied, nor are programs that come close without breaking it.",
  ["dice-compiler/src/scope_stack.rs",V+"expr_assignment.rs",V+"decl_fn.rs",V+"decl_class.rs",V+"decl_export.rs",V+"expr_return.rs",V+"expr_error_propagate.rs",V+"expr_break.rs",V+"expr_super_access.rs","dice-syntax/src/parser/mod.rs"],
  [("state of a variable in its scope","dice-compiler/src/scope_stack.rs"),("kind of the function being compiled","dice-compiler/src/compiler_stack.rs"),("parser checks of methods and operators","dice-syntax/src/parser/mod.rs")],
  observe=["result of compilation, error code and location"])
R="dice-runtime/src/"
p("C19","The interpreter runs every compiled program as the language means it",
  "For every program the compiler accepts, the interpreter of dice-runtime makes the host calls, and ends with the value or error, that the text of the program means: arithmetic, comparison and equality of every pair of values, fields, indices and methods (receivers bound, inherited along the classes, absent ones null), calls of functions, classes, bound methods and host functions with the right arguments, captured variables shared while their scope lives and kept when it is left, globals stored once and never replaced, operators found on the values and then on the globals, constructors, classes of bases that may or may not be inherited, types checked against whatever they are given, and modules loaded once. An operation on a value that does not admit it, a wrong number of arguments or a name that is not there is the error documented for it, raised at that point and never undefined behaviour or a panic; after an activation that failed, at any depth, the next one runs on a clean stack with the state that was reached.",
  ["programs","histories","fault_sequences","schedules"],"all programs the compiler accepts, all values and failures a host call, a module load or a callback can bring about, all orders of activations",
  "No test runs a program; the interpreter is not even part of the build.",
  [R+"interpreter/mod.rs",R+"interpreter/helper.rs"],
  [("dispatch loop and frames",R+"interpreter/mod.rs"),("calls, fields, operators and constructors",R+"interpreter/helper.rs"),("open and closed captured variables",R+"interpreter/mod.rs")])
p("C24","The standard library gives scripts the values and calls it promises",
  "Through every program: a conversion (`Int(x)`, `Float(x)`, `Bool(x)`, `String(x)`, `Function(x)`) gives the value converted, or null when it has none; `Array(...)` holds exactly its arguments. A method that is given a value of another kind, or too few arguments, gives null and changes nothing. `push`, `pop`, `length` and iterators of one array see each other's changes; an iterator ends when it has passed the last element of the array as it is then, and goes on when more is added. `filter` keeps, in order, the elements for which the callback returned true, `first` is the first such element and calls nothing after it, `map` has one result per element, in order; a callback that fails or returns something else counts as false, for `map` a failure as null, and the run goes on with the stack as it was. `class_of`, `name`, `base`, `fields` and `methods` describe the value as it is. Constants and arithmetic methods are those of 64-bit integers, which wrap around, and of IEEE double precision.",
  ["programs","histories","fault_sequences","schedules"],"all programs over the classes of the standard library, all values, failures and re-entrant calls that a callback can bring about",
  "No test runs a program; the classes are not even part of the build.",
  [R+"classes/array.rs",R+"classes/int.rs",R+"classes/float.rs",R+"classes/bool.rs",R+"classes/string.rs",R+"classes/function.rs",R+"classes/class.rs",R+"classes/any.rs",R+"classes/mod.rs"],
  [("callbacks out of the library and iterators",R+"classes/array.rs"),("conversions and numeric methods",R+"classes/int.rs"),("classes of values",R+"classes/mod.rs")])
p("C20","Collection frees exactly what cannot be reached, whenever it runs",
  "At whatever point a collection of the run-time heap starts, pauses or continues, between any two operations on the stack, on objects, classes, arrays, functions and captured variables: nothing that can still be reached from the stack, the globals, the registered modules or the classes of the runtime is freed or changed, and everything that cannot be reached any more is freed by the next complete collection. A value that was popped from the stack, and one in the slots of a frame that was released, keeps nothing alive; values referring to one another in a cycle are freed together.",
  ["schedules","histories"],"all histories of operations on the heap and the stack and all points and amounts of collection between them",
  "No test allocates on the collected heap; a missed trace shows only when a collection happens between a store and a later read.",
  [R+"stack/mod.rs",R+"value.rs",R+"value/object.rs",R+"value/class.rs",R+"value/array.rs",R+"value/fn_script.rs",R+"value/fn_closure.rs",R+"value/fn_bound.rs",R+"upvalue.rs",R+"runtime.rs"],
  [("Collect implementations and write barriers",R+"value"),("stack slots cleared when they are left",R+"stack/mod.rs"),("open and closed captured variables",R+"upvalue.rs")],
  observe=["values read after collections, memory given back"],hook="cfg(dice_sim): the part of dice-runtime that compiles is built without the interpreter, and its heap can be operated")
p("C23","Run-time values keep what was stored in them",
  "Objects, arrays, classes, captured variables and the stack hold exactly what was last stored in each of their fields, elements, methods and slots, under every history of operations and collections. A class derived from another starts with its methods except the constructor and with its own copy of its fields: a later store in one of them is not seen in the other. A value is an instance of its class and of every class that one derives from, and of no other. The slots of a new frame hold null, whatever was there before. A value can be used as what it is, and as anything else it is refused with the error for that kind. Two values of the heap are equal exactly when they are the same one.",
  ["histories","schedules","fault_sequences"],"all histories of operations on the heap and the stack, with collections anywhere between them and operations on values of the wrong kind",
  "No test stores a value at run time; aliasing and inheritance show only in histories with several stores and collections.",
  [R+"value.rs",R+"value/object.rs",R+"value/class.rs",R+"value/array.rs",R+"upvalue.rs",R+"stack/mod.rs",R+"stack/frame.rs",R+"runtime.rs"],
  [("fields, methods and bases",R+"value/class.rs"),("frames reserved and released",R+"stack/mod.rs"),("conversions",R+"value.rs")],
  observe=["values and errors returned by the operations"],hook="cfg(dice_sim), as for C20")
# Not claimed
NC="pure function of its input: no schedule, clock, fault or interleaving for a simulation to vary"
p("C16","Tokens tile the source and carry exact positions","Every token's position range denotes exactly the characters it was read from, ranges are in order and do not overlap, and only whitespace and comments lie between them.",["inputs"],"all source texts","Tests cover a dozen snippets.",["dice-syntax/src/lexer/mod.rs","dice-syntax/src/lexer/token.rs"],[("logos lexer","dice-syntax/src/lexer/token.rs")],observe=["token spans"])
p("C17","Line and column of every offset are right","For every text and every offset, the reported line and column denote that offset, for all newline conventions.",["inputs"],"all texts","Tests sample a few texts.",["dice-core/src/source.rs"],[("line index","dice-core/src/source.rs")],observe=["reported line and column"])
p("C18","Every error code has exactly one message","Every error code is distinct and has a localized message whose placeholders are all supplied wherever the error is raised.",["inputs"],"all error codes and sites","Tests do not enumerate codes.",["dice-core/src/error/codes.rs"],[("code table and locale bundle","dice-core/src/error/codes.rs")],observe=["rendered messages"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
