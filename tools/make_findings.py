#!/usr/bin/env python3
"""Writes known-findings.json: the repairs committed in /repo (looked up by their subject) and the open findings."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

#: subject of the repair -> (property, what failed)
FIXED = {
    "release remaining objects at exit without visiting freed ones": ("C07", "releasing the objects left at exit read freed memory"),
    "support bitwise and/or for int16 and int64 at runtime": ("C01", "'&' and '|' of int16/int64 operands aborted the program"),
    "keep results of int16 arithmetic within the range of int16": ("C01", "int16 arithmetic gave values outside of int16"),
    "report integer division by zero instead of crashing": ("C01", "integer division and modulo by zero killed the interpreter with SIGFPE"),
    "support unary plus for numeric types at runtime": ("C01", "unary plus was accepted but failed at run time"),
    "remove the scope of a for loop when it is left early": ("C04", "a for loop left by break/return kept its scope, later declarations collided"),
    "propagate the outcome of a constructor called by new": ("C05", "an exception thrown by a constructor was lost"),
    "propagate exceptions thrown by the right side of an assignment expression": ("C05", "(a = f()) continued after f threw"),
    "restore scope when a member access throws": ("C06", "an exception thrown by a.b() left the scope of a active"),
    "handle exceptions thrown by the iterator of a foreach loop": ("C05", "exceptions of getIterator/hasNext/next were ignored by foreach"),
    "keep the pending exception while nested exceptions are handled": ("C05", "an exception handled inside finally replaced the pending one"),
    "unwind scopes when the program is left by exit": ("C05", "exit() inside nested scopes continued execution"),
    "return the exit code given to exit": ("C23", "exit(n) ended with another status"),
    "provide exception data if an invalid object is validated": ("C05", "a null pointer exception carried no data and crashed the handler"),
    "propagate exceptions thrown by an equality operator used by switch": ("C05", "an exception thrown by operator== in switch was lost"),
    "release objects held by global variables before the global scope is deleted": ("C07", "use after free of global objects at exit"),
    "release thrown objects after their exception has been handled": ("C07", "thrown objects were never destroyed"),
    "evaluate arguments of a chained method call in the scope of the caller": ("C02", "arguments of a.f().g(x) were looked up in the called object"),
    "keep the value of a pending return if a return in finally is abandoned": ("C05", "return value of try lost when an inner finally return was abandoned"),
    "give up the current reference if a null object is assigned": ("C08", "assigning null to a field kept the old object"),
    "do not search the surrounding object for members of a null object": ("C08", "x.member with null x read the member of this"),
    "resolve the target of an assignment after its value has been evaluated": ("C08", "use after free if the right side replaced the object owning the target"),
    "do not follow circular references when an object is printed": ("C08", "endless recursion when a cyclic object graph was printed"),
    "execute the destructor of an object only once if it uses the object itself": ("C07", "a destructor using this was executed again and again"),
    "keep global variables accessible while objects are released at exit": ("C07", "destructors run at exit crashed when using globals"),
    "release long chains of objects without recursion": ("C22", "stack overflow on release of a long linked chain"),
    "keep an object alive while one of its methods is executed": ("C22", "use after free if a method drops the last reference to its object"),
    "keep links and size of a list consistent": ("C24", "List: push,push,pop_back then iterate still shows the removed item; erase(size) accepted; copies share items"),
    "keep links and size of a vector consistent": ("C24", "Vector: same as List, insert did not keep backward links"),
    "keep links and size of a double linked list consistent": ("C24", "DoubleLinkedList: last() stale after push_front/pop_back"),
    "keep links and size of a stack consistent": ("C25", "Stack: pop left the old item linked, copies share items"),
    "keep links of a set consistent and reject duplicates": ("C26", "Set: last() stale, equal values inserted twice although duplicates are not allowed"),
    "do not share items between copies of a queue": ("C25", "Queue: dequeue on a copy changed the original"),
    "overwrite values of existing keys in a map": ("C26", "Map: inserting an existing key kept the old value and grew the map; indexOf always 0"),
    "start reverse iteration at the last item": ("C27", "next() of a reverse iterator failed at once"),
    "peek backwards with a reverse random access iterator": ("C27", "peek() of a reverse range iterator looked in the wrong direction"),
    "bounds of ranges with a negative step or without elements": ("C27", "new Range(5, 1, -2) could not be read by index, empty ranges had negative sizes"),
    "declare the string returned by strchr and strrchr": ("C28", "results of strchr/strrchr could not be used as string"),
    "append the first characters of the source with strncat": ("C28", "strncat(a, b, n) cut the result instead of the source"),
    "accept a string to search for with strstr": ("C28", "strstr only accepted a number as second argument"),
    "a string does not end with a longer string": ("C29", "String.EndsWith raised for a longer argument"),
    "do not replace replaced text again with String.ReplaceAll": ("C29", "ReplaceAll(\"a\", \"aa\") never ended"),
    "update the length of a string if text is appended": ("C29", "Length() after << stayed the same"),
    "bounds of substrings accessed by index": ("C29", "s[first, last] refused valid bounds"),
    "report an index out of bounds in String.TrimRight": ("C29", "TrimRight(index) accepted an index past the end"),
    "end iteration of characters after the last one": ("C29", "iterating the characters of a String gave one empty character too many"),
    "support overloaded operators on results of expressions": ("C13", "a + b + c with objects failed at run time, f() == x ignored operator=="),
    "convert objects to bool with their typecast operator": ("C29", "cast<bool>(new Boolean(false)) was true"),
    "use the typecast operator of objects assigned to atomic types": ("C13", "int i = new Integer(5) stored 0"),
    "pass on exceptions thrown by typecast operators": ("C05", "exceptions thrown by =operator were dropped"),
    "use the subscript operator of a member object": ("C13", "a.b[i] called operator[] of a"),
    "compound assignment to member objects": ("C13", "a.b += c called the operator of a"),
    "default values of parameters that follow an object": ("C09", "an omitted argument after an object argument became that object instead of its default value"),
    "prefer the overload without default parameters": ("C10", "f(int) and f(int, int = 3): a call f(1) was rejected as ambiguous or called the second one, depending on memory layout"),
    "prepare generic types that first occur in signatures": ("C12", "a function with a parameter or result of a generic type not used elsewhere was rejected"),
    "types of generic members inside generic classes": ("C12", "a member Gen<int> or Gen<B> of a generic class became Gen<Object> or another instance"),
    "assign objects to variables of their generic base class": ("C12", "Gen<int> g = new D() was rejected for D extends Gen<int>"),
    "generic types qualified with their namespace": ("C12", "N.Q<int> became N.Q<Object>"),
    "catch exceptions of generic types": ("C12", "catch (Gen<int> e) never matched"),
    "accept indirect descendants of a generic type's constraint": ("C12", "Gen<T: C> rejected a class derived from a subclass of C"),
    "assign objects to variables of indirect base types": ("C11", "C c = new C3() was rejected when C3 extends C2 extends C"),
    "overloads that differ only in the instance of a generic parameter": ("C10", "f(Gen<int>) and f(Gen<string>) were not told apart"),
    "caught exceptions of generic types need no throws": ("C12", "an exception of a generic type caught on the spot was reported as missing in throws"),
    "keep the access mode of generic parameters": ("C12", "a generic class instantiated with an enumeration rejected its constants as arguments"),
    "objects are instances of the interfaces their interfaces are based on": ("C11", "x is I was false for an interface two levels up"),
    "methods of interfaces that are based on other interfaces": ("C11", "methods of an interface two levels up were unknown through an interface variable"),
    "detect circular inheritance over more than two types": ("C21", "A extends B, B extends C, C extends A overflowed the stack"),
    "bounds of enumeration declarations": ("C14", "an implicit enumeration value after the largest int wrapped around; declarations without final semicolon were read past their end"),
    "access types declared inside of the own class": ("C14", "using an enumeration declared in a class by its short name inside a method raised a null pointer exception"),
    "qualified names as arguments of generic types": ("C12", "Gen<N.C> was rejected"),
    "execute inherited constructors in the scope of their own class": ("C11", "an inherited constructor could not access private members of the class declaring it"),
    "arguments of generic types relative to the current namespace": ("C12", "Gen<C> inside namespace N was rejected for a class C of N"),
    "types declared inside of a class hide global types of the same name": ("C14", "the enumeration's short name inside a method meant a global enumeration of the same name"),
    "imported files may import the main script": ("C15", "a file importing the main script made all its declarations duplicates"),
    "classes with the same name as a class of an enclosing namespace": ("C15", "class K of namespace N.M became N.N.M.K when N had a class K"),
    "look up names used by base classes in their own namespace": ("C15", "functions called in a method of a base class from another namespace were looked up in the derived class's namespace"),
    "scopes enclosing a base class do not hide names": ("C15", "names used in a class were looked up in the namespace of its base class first"),
    "release objects held by static members before the global scope is deleted": ("C39", "a static member holding an object crashed the interpreter at exit"),
    "global variables may be declared before their class": ("C39", "members of a global variable of an imported or later declared class could not be accessed"),
    "static members are accessible through objects": ("C39", "a static member accessed through an object or in a method raised a null pointer exception"),
    "local variables hide members, static methods access static members by name": ("C39", "a local variable or parameter named like a member denoted the member, and static members could not be used by name in static methods"),
    "provide the remainder function for doubles": ("C36", "remainder() for doubles was implemented but not available"),
    "the power of zero is one": ("C36", "Math.power(x, 0) returned x"),
    "string interpolation only replaces placeholders and does this once": ("C37", "text in single braces was treated as placeholder and inserted text was evaluated again, with an endless loop for text naming its own variable"),
    "file functions reject closed and invalid handles": ("C33", "operations on handle 0 or on a closed handle crashed, and a new handle could be the same as one still open"),
    "fgets returns lines longer than its buffer": ("C33", "fgets with a size above 1024 lost data"),
    "opening a missing file reports failure": ("C33", "opening a missing file with the file class crashed"),
    "report successful writes to a file": ("C33", "File.write returned false after a successful write"),
    "read the last line of a delimited file that is not terminated": ("C38", "the last line of a CSV file without a line end was dropped"),
    "variables put into the environment keep their value": ("C40", "putenv passed a temporary string to the environment, which getenv then read after it was freed"),
    "parse local times with daylight saving time": ("C40", "strptime returned a time one hour off for times with daylight saving time"),
    "foreach accepts collections that inherit their iterator": ("C27", "foreach rejected a class that inherits getIterator from a collection"),
    "versions with different labels are ordered by label": ("C31", "in the package manager two versions with different labels were each less than the other"),
    "compare version labels with text false": ("C31", "in the version library a label with the text false counted as no label, so that such versions were neither less, greater nor equal"),
    "parse empty arguments and arguments with blanks or several equal signs": ("C32", "arguments with blanks, empty arguments and the argument false ended the program, and only the last part of a value with several equal signs was kept"),
    "separate JSON array elements after false": ("C30", "an array starting with false was written without the comma after it"),
    "numbers read from JSON text stay numbers": ("C30", "numbers read from text became strings and a number at the end of the text was rejected"),
    "reject JSON text with missing or surplus brackets": ("C30", "text with missing or surplus closing brackets and brackets as member names were accepted"),
    "escape quotes and backslashes in JSON strings": ("C30", "strings with quotes or backslashes were written without escaping them, so they did not read back"),
    "read escape sequences in JSON strings": ("C30", "escape sequences for control characters were read as the letters that follow the backslash"),
    "the letter q is part of JSON words": ("C30", "a word with the letter q was rejected"),
    "arrays and objects inside a JSON document are accessible": ("C30", "asArray and asObject of a parsed array or object returned null"),
    "shutdown recurses endlessly after circular inheritance has been rejected": ("C21", "\"public object Q extends Q { }\" was refused, then the process died of a stack overflow while shutting down"),
    "exceptions thrown in catch- and finally-blocks escape the check for a missing 'throws'": ("C17", "void f() { try { } finally { throw 1; } } was accepted without 'throws'"),
    "increment and decrement of bool and string values are only rejected at run time": ("C17", "string s; s++; was accepted and failed when executed"),
    "members are modifiable by const methods if they are accessed by 'this'": ("C16", "int f() const { this.m = 3; } was accepted and changed the object"),
    "SequenceStar accesses a private member of its base class": ("C18", "library class SequenceStar used a private field of its base class, so any behaviour tree with it failed at run time"),
    "private members of a base class are usable in derived classes until run time": ("C18", "using a private field or method of a base class in a derived class was accepted and only failed (or worked) at run time"),
    "static members of a grandparent class are not found by class name or object": ("C39", "a public static member of a grandparent, used as C.x or o.x, was accepted but ended in a NullPointerException"),
    "abstract objects without abstract methods are instantiated": ("C19", "objects of classes marked abstract (or generic ones) could be created; of classes with own abstract methods only failed at run time"),
    "objects marked as final can be extended": ("C19", "a class extending a class marked final was accepted"),
    "errors inside of nested scopes abort the interpreter during shutdown": ("C19", "a call of an unimplemented method from inside a loop or block ended with an abort of the interpreter because the scopes left over were released after the memory"),
    "implementing an abstract method of an indirect base leaves a dangling method": ("C19", "a class that implements an abstract method declared two levels up left a freed method in the base, later calls read it"),
    "block comments that follow each other directly swallow source code": ("C20", "/* a *//* b */ and /*/ x */ between two tokens changed the meaning of the program or made it unreadable"),
    "words directly followed by a string literal are not recognized": ("C20", "return\"x\"; was read as one word"),
    "errors in a destructor terminate the interpreter": ("C22", "a division by zero inside of a Destructor ended the interpreter with std::terminate"),
    "incomplete source code is read past its end": ("C21", "source text that ends inside an expression, a declaration or a scope made the parser read beyond the last token (crash or endless loop)"),
    "typecasts and instantiations of something else than a type crash": ("C21", "'cast<x>(1)' and 'new x()' with x naming a variable, function or namespace dereferenced a null symbol"),
    "'operator' as last word of a file removes the end of the file": ("C21", "a file ending in the word 'operator' lost its end marker and was read past its end"),
    "objects that extend the object they are declared in crash": ("C21", "an object declared inside the object it extends made the generator recurse without end"),
    "rethrowing without a current exception crashes": ("C21", "an uncaught 'throw;' outside of a catch block crashed the interpreter instead of being reported"),
    "loops without separators are read past the end of their tokens": ("C21", "'for' loops without ';' or ')' made the parser skip its end marker and read beyond the last token"),
    "failed downloads of slang-pkg are treated as successful": ("C34", "an update without a reachable index succeeded and left an empty index behind"),
    "slang-pkg ignores the index it has just downloaded": ("C34", "the first install or upgrade of a library downloads the index but installs nothing"),
    "slang-pkg installs dependencies that violate their minimum version": ("C34", "cyclic dependencies never ended, several demands on one module installed whichever came last, installed older modules were taken as satisfying a demand, restrictions were not applied to dependencies or bypassed by upgrade"),
    "conditional breakpoints ignore their condition": ("C35", "a breakpoint with a condition stopped every time because the condition was looked up without a scope"),
    "the last word of a file is ignored": ("C35", "a word at the very end of a text was dropped: conditions with a literal were never evaluated, trailing words of a source file were ignored"),
    "stepping into methods without a body crashes": ("C35", "'into' and 'out' crashed at the constructor of a class without one"),
    "frame and thread commands crash without a running program": ("C35", "'threads', 'frame', 'up' and 'down' crashed after the program had finished"),
    "listing methods without a body crashes": ("C35", "'list' crashed while stopped at the constructor of a class without one"),
    "!& is false only if both operands are true": ("C01", "true !& false gave false"),
    "sockets use the given port number in network byte order": ("C42", "bind and connect used the port number with its bytes exchanged, so that a program could not reach a server on its real port"),
    "values are read completely if they arrive in several pieces": ("C42", "a number that arrived in two pieces was returned after the first piece with its remaining bytes zero"),
    "ServerSocket.Bind reports success": ("C42", "ServerSocket.Bind returned false after a successful bind and false after a failed one"),
    "IPv6 addresses do not fit into the address structure used for them": ("C42", "connecting to or binding an IPv6 address wrote beyond the address structure and failed"),
    "JSON builders escape quotes and backslashes": ("C44", "a key or text with a quote or backslash produced a text that is not JSON"),
    "output pending at a fork is written twice": ("C43", "print(\"start\"); fork(); wrote \"start\" twice if the output is a file or pipe"),
    "objects held by inherited members are never destroyed": ("C07", "objects held by members that a class inherits were never destroyed: their destructors did not run when the owner ended"),
    "appending file logger keeps the existing log": ("C45", "a file logger opened for appending threw the existing log away"),
    "variables of a base or interface type can be bound to objects of another class": ("C11", "a variable of a base or interface type that held one class could not be bound to an object of another derived class"),
    "forcing decorators never tick their child": ("C46", "the decorators forcing success or failure never ticked their child node"),
    "dependency checker converts versions that are not given": ("C31", "the dependency checker failed on requirements without a version"),
    "words behind integer literals are silently ignored": ("C48", "a word or an unknown character behind an integer literal (return 1 y;) was ignored"),
    "text between an argument and the next comma is silently ignored": ("C48", "anything between an argument of a call and the next comma (f(1 5, 2)) was ignored"),
    "replicas of derived classes are not prepared like their originals": ("C49", "a replica of a class with two or more ancestors was refused, and replicas of classes extending replicas missed inherited methods"),
    "BASIC programs with empty lines or an unusual last line are refused": ("C50", "empty lines, a comment in the last line or a last line without linebreak made the BASIC interpreter fail"),
    "BASIC statements behind DIM on the same line are not found": ("C50", "DIM swallowed the colon behind it"),
    "FOR without STEP fails in BASIC programs": ("C50", "the default step could not be printed"),
    "the letter Q is not allowed in names of BASIC programs": ("C50", "names containing Q were refused"),
    "signs inside of BASIC expressions are not evaluated": ("C50", "-X was the text of X with a sign in front, so that - - X was 0, and texts with signs were refused"),
    "AND and OR are not evaluated in BASIC programs": ("C50", "conditions joined by AND or OR failed"),
    "delete does not release the object of its variable": ("C08", "after delete the variable still had its object and was not null"),
    "abandoned return values are kept until the end of the function": ("C07", "an object returned inside of a try block whose finally block throws was destroyed only at the end of the function"),
    "constant objects and members can be deleted": ("C16", "delete was accepted for constants, members of constant objects and members inside const methods, and released their objects"),
}

#: open findings: the check named by property reports them and stays quiet about nothing else
OPEN = [
    {"property": "C15", "status": "open", "key": "relative-signature",
     "what": "inside a namespace, a parameter, result, member or base type is only found by its absolute name, or by its short name if it was declared before "
             "(namespace N { int f(C c) {...} object C {...} } and N { int f(M.C c) } are rejected)"},
    {"property": "C16", "status": "open", "key": "const-member",
     "what": "a member declared const is modifiable after construction, by modifying methods and from outside (A has 'int mc const'; a.mc = 3)"},
    {"property": "C17", "status": "open", "key": "unknown-type",
     "what": "an unknown type of a global variable (public Nope x;) or of a parameter of a method nobody calls is accepted"},
    {"property": "C17", "status": "open", "key": "missing-result",
     "what": "a function whose last statement is an if without else or a loop that contains a return is accepted although it may end without a result"},
    {"property": "C17", "status": "open", "key": "assignment-to-class",
     "what": "the name of a class is accepted where an object of the class is expected (A = a;) and only fails when the statement is executed"},
    {"property": "C19", "status": "open", "key": "abstract-own-call",
     "what": "a method of an abstract class that calls an abstract method of its own class fails with a NullPointerException even if the object's class implements it "
             "(abstract T0 { abstract int part(int a); int whole(int a) { return part(a); } }, T1 extends T0 implements part; o.whole(1))"},
]


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True, check=True).stdout
    entries = list(OPEN)
    left = set(FIXED)
    for line in log.splitlines():
        commit, subject = line.split(" ", 1)
        if subject.startswith("fix: "):
            prop, what = FIXED[subject[5:]]
            left.discard(subject[5:])
            entries.append({"property": prop, "status": "fixed", "what": "fixed: property=%s %s %s" % (prop, commit, what)})
    assert not left, left
    with open(os.path.join(HERE, "known-findings.json"), "w") as f:
        f.write("[\n" + ",\n".join(json.dumps(e) for e in entries) + "\n]\n")


if __name__ == "__main__":
    main()
