#!/usr/bin/env python3
"""Writes ../properties.jsonl (one JSON object per line) from the table below."""
import json
import os

INTERP = "Projects/Core/Core/AST/TreeInterpreter.cpp"
TREEGEN = "Projects/Core/Core/AST/TreeGenerator.cpp"
ANALYSER = "Projects/Core/Core/Designtime/Analyser.cpp"
PARSER = "Projects/Core/Core/Designtime/Parser/Parser.cpp"
TOKENIZER = "Projects/Core/Core/Designtime/Parser/Tokenizer.cpp"
SANITY = "Projects/Core/Core/Designtime/SanityChecker.cpp"
TYPES = "Projects/Core/Core/Runtime/BuildInTypes"
TYPESYS = "Projects/Core/Core/VirtualMachine/TypeSystem.cpp"
REPO = "Projects/Core/Core/VirtualMachine/Repository.cpp"
MEMORY = "Projects/Core/Core/VirtualMachine/Memory.cpp"
SCOPE = "Projects/Core/Core/Scope.cpp"
OBJECT = "Projects/Core/Core/Object.cpp"
LIB = "Projects/Library"

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe="stdout and exit status of the slang command"):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": [observe], "hook_needed": None},
    })


prop("C01", "Expressions over native types have one defined value",
     "Every accepted expression built from bool, int16, int, int64, float, double and string operands evaluates to the value its operator structure defines: documented precedence and left associativity, the right operand converted to the left operand's type, two's-complement wrap-around at the operand width, truncating integer division and remainder, and lexicographic string comparison. Printing or concatenating the value yields its canonical text form.",
     ["programs", "inputs"], "all well-typed expression trees over the native types, at any nesting depth, and all operand values including the extremes of each type",
     "The number of operator combinations and operand values is unbounded; the test scripts check a few dozen fixed expressions with small operands.",
     [TREEGEN, INTERP, TYPES + "/Int32Type.cpp", TYPES + "/DoubleType.cpp", TYPES + "/StringType.cpp", TYPESYS],
     [("expression parsing", TREEGEN), ("operator dispatch per type", TYPES), ("result type table", TYPESYS)])

prop("C02", "Operands are evaluated once, left to right, with short circuit",
     "Side effects inside an expression happen in source order and exactly once per operand, argument lists are evaluated left to right before the call, and the right operand of a logical and/or as well as the unselected branch of a conditional expression is evaluated only when its value is needed.",
     ["programs"], "all expressions whose operands are calls with observable side effects",
     "Evaluation order is only visible when operands have effects; no finite set of expressions covers operator nesting, calls as arguments and conditional branches together.",
     [INTERP, TREEGEN], [("binary and boolean expression evaluation", INTERP), ("parameter collection", INTERP)])

prop("C03", "Conversions between native types preserve or truncate predictably",
     "Explicit casts and implicit conversions between native types give the mathematically expected result: lossless whenever the value fits the target type, truncation toward zero from fractional to integer types, modular reduction when narrowing integers, and text forms that convert back to the same value. Assigning a value to a variable of a narrower type never leaves a value outside that type's range in it.",
     ["inputs", "programs"], "all pairs of native types and all values, through cast expressions, declarations, assignments and parameters",
     "49 type pairs times the value ranges cannot be enumerated by examples; boundary values and chains of casts are where conversions go wrong.",
     [TYPES, "Projects/Core/Core/Runtime/TypeCast.cpp", "Projects/Core/Core/Runtime/AtomicValue.cpp"],
     [("assignment conversion per native type", TYPES), ("typecast expression", "Projects/Core/Core/Runtime/TypeCast.cpp")])

prop("C04", "Structured control flow executes exactly the prescribed statements",
     "If/else, switch, while, for, foreach, break, continue and return transfer control exactly as written at any nesting depth: the sequence of executed statements and the final variable values are those of the source program. In particular a break or continue affects only the innermost enclosing loop and a return ends only the current call.",
     ["programs"], "all terminating programs built from nested control structures with arbitrary conditions",
     "Each construct is tested alone; defects arise from combinations (break inside switch inside for, return out of nested loops, loops re-entered after abrupt exit).",
     [INTERP, TREEGEN, ANALYSER], [("statement visitors", INTERP), ("switch/case and loop parsing", TREEGEN)])

prop("C05", "Exceptions reach the first matching handler and finally always runs",
     "A thrown value propagates through any number of active calls, loops and blocks to the innermost enclosing try whose handlers accept its type, the first matching handler in source order runs exactly once with that value, and every finally block on the way runs exactly once whether its try completes normally, by return, break, continue or exception. An exception no handler accepts ends the program with a failure status and executes no further user statements other than cleanup.",
     ["programs", "fault_sequences"], "all programs with nested try/catch/finally and all choices of the statement or operand that throws",
     "Throw points, nesting of handlers, call depth and abrupt exits multiply; tests only check a handful of straight-line combinations.",
     [INTERP, "Projects/Core/Core/VirtualMachine/StackFrame.cpp", "Projects/Core/Core/Common/Exceptions.cpp"],
     [("try/catch/finally visitor", INTERP), ("throw propagation through calls", INTERP)])

prop("C06", "Leaving a block by any route restores the enclosing scope",
     "After a block, loop, handler or call is left by falling through, break, continue, return or exception, every variable of the enclosing scopes has its current value, names declared inside are free again, and the same code can be executed again any number of times with the same result.",
     ["programs", "fault_sequences", "histories"], "all nestings of blocks that redeclare and shadow names, and every route by which they are left, repeated",
     "Scope leaks only show when a particular exit route is followed by a later reuse of a name in the same frame; that history is never exercised by straight-line tests.",
     [INTERP, SCOPE, "Projects/Core/Core/VirtualMachine/StackFrame.cpp"], [("scope push/pop around statements", INTERP), ("symbol lookup through parents", SCOPE)])

prop("C07", "Objects are destroyed exactly once, as soon as unreachable",
     "An object's destructor runs exactly once, at the moment its last reference disappears: at the end of the scope of its variable, on reassignment, at the end of the statement for temporaries, and during exception propagation. It never runs while a variable, member, parameter or returned value still refers to the object.",
     ["programs", "histories", "fault_sequences"], "all programs creating, copying, storing, returning, reassigning and dropping references to objects, with normal and exceptional exits",
     "Lifetime depends on the whole history of reference copies; the tests construct and drop at most a few objects.",
     [MEMORY, "Projects/Core/Core/Runtime/Reference.cpp", INTERP, OBJECT, SCOPE],
     [("reference counting", MEMORY), ("destruction on scope exit", SCOPE)])

prop("C08", "References alias one object; copies are independent",
     "Object variables, members, parameters and return values denote references: an update through one is seen through every other reference to the same object and through no reference to a different object, and identity comparison is true exactly for references to the same object. Copying an object yields a distinct object with equal native-type members whose later updates do not affect the original.",
     ["programs", "histories"], "all histories of creating, aliasing, copying, storing into members and updating objects",
     "Aliasing defects need particular sharing patterns combined with later mutation through another path.",
     [OBJECT, "Projects/Core/Core/Runtime/Reference.cpp", INTERP, REPO], [("assignment and copy of references", OBJECT), ("identity comparison", "Projects/Core/Core/Runtime/OperatorOverloading.cpp")])

prop("C09", "Calls bind arguments freshly and isolate activations",
     "Every call, including recursive and mutually recursive ones, binds its own fresh parameters and locals: native-type arguments are copied in, changes inside a call never alter the caller's variables, default values are used exactly for omitted trailing arguments, and the result is the value of the executed return.",
     ["programs", "inputs"], "all call graphs, recursion depths up to the documented resources, argument values and numbers of omitted arguments",
     "Frame mix-ups appear only for specific recursion patterns and parameter shapes.",
     [INTERP, "Projects/Core/Core/VirtualMachine/StackFrame.cpp"], [("call execution and parameter binding", INTERP)])

prop("C10", "A call selects the overload matching its argument types",
     "Among functions, methods or constructors of the same name, a call executes the one whose parameter types match the argument types exactly, independent of the order in which the overloads are declared; a call that matches none is rejected before anything runs.",
     ["programs"], "all overload sets over native, user-defined and defaulted parameters, in all declaration orders, and all argument type lists",
     "Overload sets and their declaration orders are combinatorial; tests use two or three fixed overloads.",
     [SCOPE, TREEGEN, "Projects/Core/Core/Common/Method.cpp"], [("method resolution", SCOPE), ("signature comparison", "Projects/Core/Core/Common/Method.cpp")])

prop("C11", "Method calls dispatch on the object's run-time class",
     "A method called through a variable of any static type, whether class, base class or interface, executes the implementation of the most derived class of the object; base-qualified calls execute the direct base's implementation and inherited members are shared by all levels. Type tests and upward casts succeed exactly for the object's class, its bases and the interfaces they implement, directly or indirectly.",
     ["programs"], "all class hierarchies with any pattern of overriding, inherited state and interfaces, and all call sites at every level",
     "Hierarchy shape times overriding pattern times static type of the call site cannot be enumerated by example.",
     [INTERP, TREEGEN, REPO, OBJECT, "Projects/Core/Core/Designtime/BluePrintObject.cpp"], [("virtual dispatch", OBJECT), ("inheritance building", REPO), ("is/cast", INTERP)])

prop("C12", "A generic class behaves like its hand-written specialisation",
     "Instantiating a generic class or method with concrete types behaves exactly as the program obtained by replacing the type parameters by those types, for every instantiation used in a program, including several instantiations of the same generic, generics used as members, parameters, bases and results of other classes, and constrained type parameters.",
     ["programs"], "all generic classes over one or two type parameters, all instantiations and all uses",
     "The equivalence relates two programs; it must hold for every generic body and every set of instantiations.",
     ["Projects/Core/Core/Designtime/BluePrintObject.cpp", REPO, "Projects/Core/Core/Common/PrototypeConstraint.cpp", PARSER], [("prototype instantiation", REPO), ("prototype token replacement", "Projects/Core/Core/Designtime/BluePrintObject.cpp")])

prop("C13", "Overloaded operators call the user's operator with the right operands",
     "An operator applied to an object executes the class's operator definition chosen by the right operand's type exactly once with the operands in source order, and the expression's value is what that definition returns; chained and mixed uses follow the same precedence as for native types.",
     ["programs"], "all classes defining any subset of the overloadable operators and all expressions using them",
     "Operator kinds, operand types, inheritance and nesting combine; tests check each operator once.",
     ["Projects/Core/Core/Runtime/OperatorOverloading.cpp", TREEGEN, INTERP], [("operator lookup on objects", "Projects/Core/Core/Runtime/OperatorOverloading.cpp")])

prop("C14", "Enumerations are distinct types with stable member values",
     "Each enumeration member has the value written for it, or one more than the preceding member; reading, comparing, switching over and casting enumeration members agrees with those values wherever the member is used.",
     ["programs", "inputs"], "all enumeration declarations with any mixture of explicit and implicit values, and all uses",
     "Value assignment depends on the whole preceding declaration; tests use small consecutive enumerations.",
     [ANALYSER, TYPES + "/EnumerationType.cpp", INTERP], [("enum parsing", ANALYSER)])

prop("C15", "Namespaces and imports resolve names independent of layout of files",
     "Moving declarations into namespaces or separate imported files and adjusting the qualified names does not change what the program does: each file is loaded once however often and in whatever order it is imported, same-named declarations in different namespaces stay distinct, and the nearest enclosing declaration wins.",
     ["programs", "configurations"], "all distributions of a program's declarations over files and nested namespaces, and all import graphs including cycles and repeated imports",
     "Partitionings of a program into files and namespaces are combinatorial, and name clashes only matter for specific ones.",
     [ANALYSER, SCOPE, "Projects/Core/Core/VirtualMachine/VirtualMachine.cpp"], [("import handling", ANALYSER), ("namespace lookup", SCOPE)])

prop("C16", "Constants and const contexts cannot be modified",
     "A program that assigns to a constant, hands it to a parameter through which it could be modified, modifies members inside a method not marked as modifying, or calls a modifying method on a constant object is rejected before any of its statements runs, wherever the offending statement occurs; the same program without the offending statement is accepted.",
     ["programs"], "all programs and all positions at which one const violation can be inserted",
     "A rejection rule must hold at every syntactic position; tests try one or two positions per rule.",
     [TREEGEN, INTERP, "Projects/Core/Core/Common/Method.cpp"], [("mutability checks", TREEGEN)])

prop("C17", "Ill-typed programs are rejected before any statement runs",
     "A program containing one type error - an operand, argument, initialiser, assigned or returned value of the wrong type, an unknown name or member, a wrong number of arguments, a missing return value, or an undeclared thrown exception - is rejected before any of its statements runs, wherever the error occurs, even in code that would never be executed. The same program without the error is accepted.",
     ["programs"], "all valid programs and all positions at which one type error can be injected",
     "Soundness of the checks is a statement about every position and every kind of error; tests contain a few fixed failing scripts.",
     [TREEGEN, TYPESYS, ANALYSER, SANITY], [("typed tree construction", TREEGEN), ("type table", TYPESYS)])

prop("C18", "Access restrictions on members hold at every use",
     "A private member is usable only inside its class, a protected one only inside its class and derived classes, a public one everywhere; any use that violates this is rejected before the program runs. Every use that respects it, by its short name, through this or base, or through an object, is accepted and reaches the member; non-public members of another object are reachable only if that object's type is the class itself.",
     ["programs"], "all class hierarchies, member kinds, visibilities and access sites",
     "Visibility times member kind times access site times hierarchy level is a product no fixed test list covers.",
     [TREEGEN, SCOPE, INTERP, ANALYSER], [("visibility check on symbol resolution", TREEGEN)])

prop("C19", "Abstract types are never instantiated, calls always reach code",
     "A program that instantiates an interface, a class marked abstract or a class that declares abstract methods, extends a class marked final, or gives a body to an abstract method or none to a concrete one is rejected before it runs; the same program without that use is accepted. A call through any type of an object executes the implementation of its most derived class, or the one marked final, and a call nobody implements fails with an error instead of producing a result.",
     ["programs"], "all hierarchies of interfaces, abstract, incomplete, concrete and final classes and all places of a forbidden use",
     "The rule quantifies over every method of every hierarchy shape and every place an instantiation may appear at.",
     [REPO, TREEGEN, "Projects/Core/Core/Designtime/BluePrintObject.cpp", ANALYSER, OBJECT], [("instantiation check", TREEGEN), ("method lookup", OBJECT)])

prop("C20", "Meaning does not depend on layout, comments, names or order",
     "Changing white space, line breaks or comments between tokens, consistently renaming declared names, or reordering top-level declarations and member declarations never changes a program's output or exit status. Renaming may only change in which order the variables of one scope are destroyed.",
     ["programs"], "all programs and all sequences of such meaning-preserving edits",
     "It relates two whole programs for every possible edit; tests have only one layout of each script.",
     [TOKENIZER, PARSER, ANALYSER, SANITY], [("tokenizing", TOKENIZER), ("declaration collection", ANALYSER)])

prop("C21", "Any source text is either run or rejected with a diagnostic",
     "For every sequence of bytes given as a program, the interpreter terminates without crashing: it runs the program or reports an error and ends with a failure status, and it never touches memory outside its own data while doing so.",
     ["inputs"], "all byte strings, in particular truncated, token-mutated and spliced programs",
     "Robustness is a statement about every input; tests only contain well-formed or nearly well-formed scripts.",
     [TOKENIZER, PARSER, ANALYSER, SANITY, TREEGEN], [("tokenizing", TOKENIZER), ("parsing", PARSER), ("declaration analysis", ANALYSER), ("tree generation", TREEGEN)])

prop("C22", "Accepted programs never corrupt or crash the interpreter",
     "Running any accepted program neither reads nor writes memory the interpreter does not own, does not crash, and always ends by returning from the main function, an uncaught exception or an explicit exit; all output printed before that point is delivered.",
     ["programs", "histories"], "all accepted programs, including those with cyclic object graphs, globals with destructors, and failing operations such as division by zero or use of a null object",
     "Memory errors depend on the combination of object lifetimes and exits; tests that pass by luck of heap layout cannot show their absence.",
     [INTERP, MEMORY, OBJECT, SCOPE, "Projects/Core/Core/VirtualMachine/Controller.cpp"], [("object memory", MEMORY), ("interpreter", INTERP), ("shutdown", "Projects/Core/Core/VirtualMachine/Controller.cpp")],
     "exit status, output and sanitizer reports of the slang command")

prop("C23", "Command line: arguments, exit status and options are faithful",
     "The program receives exactly the arguments given after the script name, in order and unmodified; the process exit status is the main function's result modulo 256 and non-zero for every rejected or failing program; checking only the syntax accepts exactly the programs that would start, and runs nothing.",
     ["inputs", "programs", "configurations"], "all argument lists, return values and option combinations",
     "Argument strings and option placements are unbounded.",
     ["Projects/slang/main.cpp", "Projects/Core/Core/VirtualMachine/VirtualMachine.cpp"], [("option parsing", "Projects/slang/main.cpp"), ("running main", "Projects/Core/Core/VirtualMachine/VirtualMachine.cpp")])

prop("C24", "Sequence collections behave like sequences",
     "The list, vector and doubly linked list collections behave like mathematical sequences under any history of insertions, removals, replacements, clears, copies and queries at either end or at an index; an operation on a position that does not exist raises an exception and leaves the collection unchanged.",
     ["histories", "inputs"], "all operation histories on each collection with native and object elements",
     "Linked structure corruption shows only after particular operation sequences (for example removing the last element and appending again).",
     [LIB + "/System/Collections/List.os", LIB + "/System/Collections/Vector.os", LIB + "/System/Collections/DoubleLinkedList.os"], [("node linking", LIB + "/System/Collections")])

prop("C25", "Stack and queue keep LIFO and FIFO order",
     "Under every history of pushes, pops, peeks, clears and queries a stack returns elements in last-in-first-out and a queue in first-in-first-out order, the size is always the number of elements held, and taking from an empty container raises an exception without changing it.",
     ["histories"], "all operation histories", "Order violations need specific interleavings of insertions and removals, including emptying and refilling.",
     [LIB + "/System/Collections/Stack.os", LIB + "/System/Collections/Queue.os"], [("node linking", LIB + "/System/Collections")])

prop("C26", "Sets and maps hold each key once with its latest value",
     "Under every history of insertions, overwrites, removals, clears and queries a set contains exactly the inserted and not removed values once each, and a map associates every present key with the value stored last; look-ups and removals of absent keys raise an exception or report absence and change nothing.",
     ["histories", "inputs"], "all operation histories over keys of native types", "Key uniqueness and ordering depend on the insertion history.",
     [LIB + "/System/Collections/Set.os", LIB + "/System/Collections/Map.os", LIB + "/System/Collections/Pair.os"], [("ordered insertion", LIB + "/System/Collections/Set.os")])

prop("C27", "Iteration visits every element exactly once in order",
     "Iterating a collection or range - with foreach, a forward or a reverse iterator - visits exactly its elements, each once, in collection order or its reverse, ends by reporting exhaustion, and leaves the collection unchanged; independent iterators over one collection do not influence each other.",
     ["histories", "programs"], "all collection contents, ranges with any bounds and step, and interleavings of iterators",
     "Iterator state machines go wrong at the boundaries of specific lengths, steps and interleavings.",
     [LIB + "/System/Collections/Iterator.os", LIB + "/System/Collections/DoubleLinkedIterator.os", LIB + "/System/Collections/RandomAccessIterator.os", LIB + "/System/Collections/Range.os", INTERP], [("foreach", INTERP), ("iterators", LIB + "/System/Collections")])

prop("C28", "String functions agree with the mathematical string operations",
     "The native string functions (length, substring, search, trimming, padding, case conversion, comparison, concatenation, replacement) return the result of the corresponding operation on the byte sequence for every input, and raise a catchable exception or report not-found for positions that do not exist.",
     ["inputs"], "all strings, positions, lengths and patterns", "Boundary positions, empty strings and overlapping patterns are an infinite input space.",
     ["Projects/Extensions/System/Strings", "Projects/Extensions/LIBC/cstring"], [("string functions", "Projects/Extensions/System/Strings")])

prop("C29", "String objects agree with the mathematical string operations",
     "The string class and the wrapper classes for numbers and booleans behave like the native values they hold under every sequence of operations: queries, search, replacement, trimming, splitting, element access and operators give the result of the corresponding native operation, and operations on positions that do not exist raise an exception.",
     ["inputs", "histories"], "all string values, operation sequences and positions", "Stateful wrappers can get out of step with their value only after particular mutations.",
     [LIB + "/System/String.os", LIB + "/System/Integer.os", LIB + "/System/Boolean.os", LIB + "/System/StringIterator.os"], [("wrapper classes", LIB + "/System")])

prop("C30", "Parsing a written JSON document returns the same document",
     "Every JSON document built or parsed by the JSON library and written out parses back to an equal document, member look-up finds exactly the members present, and malformed text is rejected with an exception rather than accepted with a different meaning.",
     ["inputs"], "all JSON documents of any nesting and all single-character corruptions", "Documents are an infinite recursive domain.",
     [LIB + "/libJson", LIB + "/libJsonBuilder"], [("reader", LIB + "/libJson/Reader.os"), ("writer", LIB + "/libJson/Writer.os")])

prop("C31", "Version comparison is the semantic-version total order",
     "Comparing two semantic versions orders them by major, minor and patch number numerically, then by their label; the comparison operators are mutually consistent, transitive and agree with equality of versions, both in the library class and in the package manager.",
     ["inputs"], "all pairs and triples of versions", "Order axioms quantify over triples of an infinite domain.",
     [LIB + "/libSemVer", "Projects/Utils/SemVer/Version.cpp"], [("version comparison", "Projects/Utils/SemVer/Version.cpp"), ("library comparison", LIB + "/libSemVer/SemVer.os")])

prop("C32", "Command-line parameter library classifies every argument",
     "For every argument list the parameter library reports exactly the arguments given, in order, with each key and value as written, and every query by key or position agrees with that list.",
     ["inputs"], "all argument lists", "Argument syntax combinations are unbounded.",
     [LIB + "/libParam"], [("argument parsing", LIB + "/libParam/ParameterHandler.os")])

prop("C33", "File operations act like operations on a byte sequence",
     "Under every history of creating, opening, writing, reading, seeking, truncating and closing files through the standard functions or file classes, files behave like byte sequences: what is read is what was last written at that position, and operations on missing files or closed handles fail without side effects.",
     ["histories", "inputs", "fault_sequences"], "all operation histories on a set of scratch files and all byte contents", "Position, mode and end-of-file state depend on the history.",
     ["Projects/Extensions/LIBC/stdio", LIB + "/System/IO"], [("file functions", "Projects/Extensions/LIBC/stdio"), ("file class", LIB + "/System/IO/File.os")])

prop("C34", "The package manager installs exactly a dependency-closed set",
     "After installing, upgrading or removing modules from a repository, the local library contains the requested modules and, transitively, their dependencies in at least the versions they demand, and nothing else has changed. A request that violates a restriction, or needs another architecture or interpreter version, changes nothing, and removing a module leaves every other module and file untouched.",
     ["histories", "inputs", "fault_sequences"], "all repository indexes, dependency graphs, version restrictions and command histories",
     "Dependency graphs and command histories are combinatorial; there are no tests of the package manager.",
     ["Projects/slang-pkg/Application/Application.cpp", "Projects/slang-pkg/Common/Repository.cpp", "Projects/slang-pkg/Common/Restriction.h"], [("dependency collection", "Projects/slang-pkg/Application/Application.cpp")],
     "files in the local library and exit status of slang-pkg")

prop("C35", "Running under the debugger does not change a program's behaviour",
     "A program run to completion under the debugger, with any set of breakpoints and any mixture of stepping, continuing and inspecting, prints the same output as without the debugger. Execution stops at each breakpoint whose condition holds whenever a statement on its line is about to execute, and nowhere else.",
     ["schedules", "programs"], "all programs, breakpoint sets and sequences of debugger commands", "Command sequences interleave with program execution; no tests drive the debugger.",
     ["Projects/slang-dbg", "Projects/Core/Debugger/Debugger.cpp", INTERP], [("breakpoint and step handling", "Projects/Core/Debugger/Debugger.cpp")],
     "stdout of slang-dbg")

prop("C36", "Mathematical functions agree with the standard mathematical library",
     "Each mathematical, rounding and random-range function returns, for every argument in its domain, the value the C library or the mathematical definition prescribes, in both its native and library-class form.",
     ["inputs"], "all functions and arguments including signed zero, very large and very small values", "Real arguments form a huge input space.",
     ["Projects/Extensions/LIBC/math", "Projects/Extensions/LIBC/stdlib", LIB + "/System/Math/Functions.os"], [("native functions", "Projects/Extensions/LIBC/math")])

prop("C37", "String interpolation substitutes each placeholder once",
     "Evaluating a template replaces every placeholder by the text of the variable it names in the calling scope and leaves all other text unchanged, including unknown and malformed placeholders; text inserted for a placeholder is not evaluated again.",
     ["inputs", "programs"], "all templates and variable environments", "Templates are unbounded strings with adjacent, repeated and malformed placeholders.",
     [INTERP, TREEGEN], [("template evaluation", INTERP)])

prop("C38", "Delimited text files are read back row by row, column by column",
     "For every table of values written as delimited text, the CSV library returns the same rows and columns in the same order, whether or not the last line is terminated and also when rows differ in their number of columns; a missing file and an index outside the table are reported.",
     ["inputs"], "all tables, separators and quoting-free cell contents", "Tables are unbounded.",
     [LIB + "/libCSVReader"], [("row splitting", LIB + "/libCSVReader")])

prop("C39", "Static and namespace state is shared, initialised once and ordered",
     "A variable declared in a namespace or as a static member exists once for the whole program, is initialised before the main function starts, and every read sees the latest write no matter from which function, object or file it is made.",
     ["programs", "histories"], "all programs updating shared state from any number of functions, objects and files", "Sharing defects depend on the access path and history.",
     [INTERP, ANALYSER, REPO, SCOPE], [("static and namespace variable storage", INTERP)])

prop("C40", "Date, environment and conversion functions are mutually inverse",
     "Formatting and parsing functions of the system library are inverse to each other on every value in range: a formatted time parses back to the same time, a variable put into the environment is read back unchanged, and character codes and characters correspond one to one.",
     ["inputs"], "all times, environment names and values and character codes", "Round trips over large value ranges.",
     ["Projects/Extensions/System"], [("system functions", "Projects/Extensions/System")])

prop("C41", "Standard input and output transfer every byte in order",
     "A program receives exactly the bytes of its standard input, each once and in order, whichever reading functions it mixes (only the line function passes over leading blanks), and is told about the end of input exactly when nothing is left. What it writes with any mixture of writing functions arrives on standard output and standard error completely, in the order written, also when the program ends by an exit or an exception.",
     ["inputs", "histories"], "all inputs and all sequences of console calls",
     "Buffering and end-of-input behaviour depend on the mixture of calls and the input; the tests do not read from standard input at all.",
     ["Projects/Extensions/LIBC/stdio", "Projects/Extensions/System/Console", "Projects/Library/System/IO"], [("character and string input and output", "Projects/Extensions/LIBC/stdio"), ("console streams", "Projects/Extensions/System/Console")])

prop("C42", "Values sent over a connection arrive complete and in order",
     "A value of any type written to a connection is received unchanged, after everything written before it and exactly once, no matter into how many pieces the transport divides it or how the operations of several connections interleave. Connections reach exactly the address and port given, are accepted in the order in which they were made, and the end of a closed connection is seen exactly when everything has been read.",
     ["inputs", "schedules", "fault_sequences"], "all values, all divisions into pieces, all orders of operations on several connections",
     "Delivery in pieces depends on the network and cannot be provoked by a test on one machine; the tests do not open a connection at all.",
     ["Projects/Extensions/System/Network", "Projects/Library/System/Network"], [("reading and writing", "Projects/Extensions/System/Network/Read.h"), ("library sockets", "Projects/Library/System/Network/ServerSocket.os")])

prop("C43", "Processes started by a program are independent and their results arrive",
     "After a fork parent and child continue with the same state, and changes made by one of them are never seen by the other. Everything written before the fork appears in the output exactly once, the parent receives the status with which each child ended in whatever order it waits for them, and a shell command's output is delivered completely.",
     ["programs", "schedules"], "all trees of processes and all orders of ending and waiting",
     "State that is shared or written twice shows only for particular combinations of pending output and forks; the tests fork once and check nothing.",
     ["Projects/Extensions/System/Fork.h", "Projects/Extensions/System/Wait.h", "Projects/Extensions/System/WaitPID.h", "Projects/Extensions/System/System.h"], [("process functions", "Projects/Extensions/System/Fork.h")])

prop("C44", "Documents assembled by the JSON builders are well-formed and complete",
     "Whatever sequence of members, values, arrays and objects is added to a JSON builder, once all of them are ended its text is a well-formed JSON document that contains exactly what was added, in that order. Asking for the text changes nothing, and builders used alternately do not influence each other; the styled builder puts every member on its own line, indented by its depth.",
     ["inputs", "histories"], "all sequences of builder calls and all keys and values",
     "Separators and nesting depend on the whole history of calls, and escaping on every character; there are no tests.",
     ["Projects/Library/libJsonBuilder"], [("builders", "Projects/Library/libJsonBuilder/StructuredBuilder.os")])

prop("C45", "Every logged message arrives once, in order, under the right key",
     "Every message given to a logger appears exactly once at the destination of the logger it was derived from, in the order of the calls, marked with its level and the logger's key; keys of derived loggers are composed of all keys above them and adjusted to the given width. An appending file logger keeps what the file contained, a plain one starts anew, and a fatal message is logged before it is thrown.",
     ["histories", "inputs"], "all trees of loggers, key widths, separators, messages and orders of opening and closing log files",
     "Composed keys depend on the whole chain of loggers and on the separator in force at each step, and what a file finally contains on when loggers are released; there are no tests.",
     ["Projects/Library/libLog"], [("loggers", "Projects/Library/libLog/Logger.os"), ("files", "Projects/Library/libLog/Context.os")])

prop("C46", "Behaviour trees tick their nodes in the documented order and resume",
     "For every tree of sequences, fallbacks, their reactive forms and decorators and for every history of results of its leaves, each tick of the root runs exactly the leaves its nodes call for, in order, and yields the combined result. A sequence or fallback continues with the child that was still running, a reactive one starts again, and a finished one starts from its first child.",
     ["histories", "inputs"], "all trees and all histories of leaf results",
     "What a tick does depends on the positions all nodes were left in by the ticks before; there are no tests.",
     ["Projects/Library/libBehaviourTree"], [("nodes with children", "Projects/Library/libBehaviourTree/Control.os"), ("decorators", "Projects/Library/libBehaviourTree/Decorator.os")])

prop("C47", "Iterating over texts yields every character and every piece in order",
     "Iterating over a text or a text file yields exactly its characters, or the pieces between the occurrences of a separator, in order and each once, whatever other iterators over the same or other texts are in use. Asking for the current or a following element changes nothing, and stepping beyond the end raises an exception.",
     ["histories", "inputs"], "all texts, separators and interleavings of iterator operations",
     "Leading, trailing, repeated and overlapping separators and changes of the separator interact with the position; the tests iterate over one sentence.",
     ["Projects/Library/System/StringIterator.os", "Projects/Library/System/CharacterIterator.os", "Projects/Library/FileReader/Scanner.os"],
     [("pieces", "Projects/Library/System/StringIterator.os"), ("characters", "Projects/Library/System/CharacterIterator.os"), ("text files", "Projects/Library/FileReader/Scanner.os")])

prop("C48", "Malformed programs are refused before anything runs",
     "A program in which a bracket is missing, superfluous or of the wrong kind, a statement introduced by a keyword is not ended, an operand or a comma between arguments is missing, two operands or two operators follow each other, or the text ends too early is refused: nothing of it runs and the exit status reports the failure. The same program without that flaw is accepted.",
     ["programs"], "all programs and all places and kinds of such flaws",
     "Parts of a program could be skipped silently at any place; the tests have a handful of malformed scripts.",
     [TOKENIZER, PARSER, ANALYSER, TREEGEN], [("tokenizing", TOKENIZER), ("declaration analysis", ANALYSER), ("tree generation", TREEGEN)])

prop("C49", "Every value knows its type and replicas are types of their own",
     "The type name reported for a value is that of the object's own class (or of the basic, enumeration or instantiated generic type), whichever variable, member, parameter, result, cast or base type it is reached through, and exactly the declared and instantiated types are known by name. An object of a replicated class has the members, inherited members and behaviour of the original, but is not an instance of it.",
     ["programs"], "all class hierarchies with replicas, all values and all ways to reach them",
     "Type information is copied at every assignment, call and instantiation; tests ask for a few local variables only.",
     ["Projects/Core/Core/Designtime/BluePrintObject.cpp", REPO, "Projects/Core/Core/AST/TreeInterpreter.cpp", "Projects/Extensions/System/Reflection"], [("replication", REPO), ("reported names", "Projects/Core/Core/AST/TreeInterpreter.cpp"), ("known names", "Projects/Extensions/System/Reflection/IsKnownType.h")])

prop("C50", "BASIC programs run by the bundled interpreter do what they say",
     "A BASIC program given to the bundled BASIC interpreter prints what its lines say when they are executed in the order of their numbers, with jumps, subroutines, counted loops, conditions and typed input followed, numbers computed and texts joined. The spelling of keywords and names in capital or small letters and the spaces between symbols do not matter.",
     ["programs", "inputs"], "all BASIC programs of the supported statements and all lines typed by their users",
     "The interpreter is a large Slang program that needs maps, lists, stacks, strings, iterators, class hierarchies, enumerations, exceptions and files to work together; no test runs it.",
     ["Projects/Library/Basic-Token"], [("execution", "Projects/Library/Basic-Token/Interpreter.os"), ("parsing", "Projects/Library/Basic-Token/Parser.os"), ("tokens", "Projects/Library/Basic-Token/Tokenizer.os")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
