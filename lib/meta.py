"""The properties as text: source of properties.jsonl and MANIFEST.json (see bin/mkmeta)."""

TESTS = ("The repository's tests run a few dozen fixed programs with fixed operands; ")


def P(id, title, statement, text, why, files, mech, over=("programs", "inputs")):
    return dict(id=id, title=title, statement=statement, over=list(over), text=text,
                why=TESTS + why, files=files, mech=mech)


PROPS = [
    P("C01", "Integer arithmetic is exact, fixed-width two's complement",
      "For every pair of integer types and all operand values, wherever the operands are held "
      "(local, parameter, ref parameter, field, array element, constant, call result), the binary, "
      "unary, shift and comparison operators, ++/-- and the compound assignments yield the "
      "mathematical result reduced to the width and signedness of the operation's type. "
      "The operation's type is ulong if an operand is ulong, else long if one is long or if uint "
      "meets a signed type, else uint if one is uint, else int. Division truncates towards zero and "
      "the right shift of a signed value keeps its sign.",
      "all integer operators x all operand type pairs x operand values x storage places",
      "64 operand type pairs times 16 operators times storage places times values is out of their "
      "reach; each combination has its own generated virtual machine command.",
      ["modules/exec/commands.cpp", "modules/core/core.cpp", "modules/compile/expression.cpp",
       "modules/core/expression_executor.cpp", "modules/core/__vtype_traits.h"],
      [("binary/unary command templates and their selection", "modules/exec/commands.cpp"),
       ("result types of operators", "modules/core/core.cpp"),
       ("constant folding", "modules/core/expression_executor.cpp")]),
    P("C02", "Integer conversions preserve or truncate values exactly",
      "An implicit conversion (to a wider integer type of the same signedness, in a declaration, "
      "assignment, argument, return value, field, array element or chain of assignments) never "
      "changes the value, and boxing to object followed by unboxing returns it. An explicit cast "
      "between integer types, char and bool yields the value modulo 2 to the target width, "
      "reinterpreted in the target's signedness, also for computed operands.",
      "all ordered pairs of integer types x values x syntactic places of the conversion",
      "the conversion is chosen per (source, target, place) and most of these triples never occur.",
      ["modules/exec/commands.cpp", "modules/compile/expression.cpp", "modules/compile/xilx.cpp",
       "modules/compile/statements.cpp"],
      [("push/pop/convert commands per type pair", "modules/exec/commands.cpp"),
       ("implicit conversion of expressions", "modules/compile/expression.cpp"),
       ("boxing and unboxing", "modules/compile/xilx.cpp")]),
    P("C03", "Operator precedence, associativity and evaluation order",
      "An expression written without parentheses groups its binary operators by the C# precedence "
      "table, left to right within a level, and evaluates its operands and call arguments from left "
      "to right, each exactly once. && and || evaluate the right operand only when the left one does "
      "not decide, ?: evaluates exactly one alternative, and the side effects of ++/-- and calls "
      "become visible in that order.",
      "all operator sequences x operands with side effects x nesting",
      "the printed value of a few expressions does not fix grouping and order for arbitrary operator "
      "sequences.",
      ["modules/compile/expression.cpp", "modules/lang_cs/expressions.cpp",
       "modules/compile/ast_utils.cpp", "modules/lang_cs/ast_builder.cpp"],
      [("operator priority and expression reader", "modules/compile/expression.cpp"),
       ("code for && || ?:", "modules/compile/xilx.cpp")]),
    P("C04", "Literals denote, and printing shows, exactly the written value",
      "A decimal, hexadecimal, octal or binary literal with any suffix U, L or UL denotes its exact "
      "value, and its type is the first one of its kind that holds it (decimal int, long, ulong; "
      "octal and binary int, uint, long, ulong; hexadecimal uint, ulong). Console.Write and WriteLine "
      "print integers, booleans, characters and strings (with their escapes) exactly, WriteLine ending "
      "the line once and Write never; overloads chosen by a literal's type agree with it.",
      "all literals of all bases, suffixes and magnitudes; all printable strings",
      "they print a handful of small literals and short strings.",
      ["modules/compile/token_reader.cpp", "modules/lang_cs/cs_token_reader.cpp",
       "modules/rtlib/system.cpp", "core_lib/System/Console.cs"],
      [("number and string token readers", "modules/lang_cs/cs_token_reader.cpp"),
       ("Console internal calls", "modules/rtlib/system.cpp")]),
    P("C05", "Control flow follows the structure of the program",
      "if, while, do-while, for, switch (on int, char and enum values, with shared labels, "
      "default in any position and fall-through), break, continue and return, nested arbitrarily, "
      "transfer control exactly as their structure says. Every statement executes once per time "
      "control reaches it and in no other case.",
      "all nestings of control statements x condition outcomes",
      "jumps are resolved per nesting of statements, and nestings are unbounded.",
      ["modules/compile/statements.cpp", "modules/compile/__statements.h",
       "modules/exec/parser.cpp", "modules/exec/commands.cpp"],
      [("statement compilation and jump targets", "modules/compile/statements.cpp"),
       ("jump and switch commands", "modules/exec/commands.cpp")]),
    P("C06", "Exceptions reach the nearest matching handler; finally runs once",
      "A thrown exception is handled by the first catch clause, of the innermost enclosing try in "
      "the call stack, whose type is the exception's class or a base of it; the object caught is the one "
      "thrown, and with no such handler the program ends reporting the exception's class. Whenever control "
      "leaves a try that has a finally block, normally or by exception, return, break or continue, "
      "through any number of calls and nested tries, the finally block runs exactly once, before "
      "control continues. Locals, pending results and the call stack are intact afterwards.",
      "all nestings of try/catch/finally, loops and calls x points and classes of the exception",
      "each exit of each nested region is a separate path through the block tables.",
      ["modules/exec/commands.cpp", "modules/exec/exec.cpp", "modules/compile/statements.cpp",
       "modules/core/__xil.h"],
      [("block table search and exception stack", "modules/exec/commands.cpp"),
       ("try/catch/finally compilation", "modules/compile/statements.cpp")],
      over=("programs", "fault_sequences", "inputs")),
    P("C07", "Optimisation levels do not change what a program does",
      "A program prints the same lines and ends in the same way at every optimisation level (-O 0, "
      "1, 2, 3), namely those of the language. This includes expressions that the optimiser folds, "
      "simplifies (neutral and absorbing constants on either side, constant conditions) or reorders, "
      "at every integer type.",
      "all programs x the four optimisation levels",
      "run every program at one level.",
      ["modules/core/expression_executor.cpp", "modules/compile/expression.cpp",
       "modules/compile/ast_utils.cpp", "modules/exec/exec.cpp"],
      [("constant evaluation", "modules/core/expression_executor.cpp"),
       ("expression execution in the optimiser", "modules/compile/expression.cpp")],
      over=("programs", "configurations", "inputs")),
    P("C08", "Calls bind arguments, keep frames apart and resolve overloads",
      "Every call, static or on an instance, runs the method with the parameters holding the values "
      "of the arguments in order (up to twenty, of mixed types) and yields the returned value; "
      "parameters and locals of an invocation are untouched by other invocations, recursion included. ref and out "
      "parameters designate the caller's variable itself, also when aliased or passed on. An overload "
      "with exactly the argument types is chosen, otherwise the only applicable one.",
      "all signatures x call depths x aliasing patterns x overload sets",
      "call a few methods with a few arguments.",
      ["modules/exec/commands.cpp", "modules/rt/layout.cpp", "modules/compile/ast_utils.cpp",
       "modules/compile/expression.cpp"],
      [("params and locals layout", "modules/rt/layout.cpp"),
       ("call and return commands", "modules/exec/commands.cpp"),
       ("method lookup", "modules/compile/ast_utils.cpp")]),
    P("C09", "Virtual, abstract and interface calls run the most derived override",
      "A call of a virtual or abstract method, or of an interface's method, runs the implementation of "
      "the object's run-time class: the override nearest to that class, going up its bases. This holds "
      "whatever the static type through which the object is held (class, base, abstract class, any "
      "directly, indirectly or multiply inherited interface, boxed struct), also for calls on this from "
      "base class code; base.M() runs the base class's version. Methods hidden with new do not take part, "
      "overloads of one name are told apart, and the order in which members are declared does not matter.",
      "all class and interface hierarchies x declaration orders x static types x run-time classes",
      "they contain a few fixed hierarchies of depth two.",
      ["modules/rt/rt.cpp", "modules/rt/layout.cpp", "modules/core/assembly_writer.cpp",
       "modules/exec/commands.cpp", "modules/compile/expression.cpp"],
      [("virtual tables and interface tables", "modules/rt/rt.cpp"),
       ("virtual call commands", "modules/exec/commands.cpp"),
       ("method order in the assembly", "modules/core/assembly_writer.cpp")]),
    P("C10", "is, as, casts and boxing follow the object's run-time type",
      "For every object, x is T holds exactly when x is not null and its run-time class is T, derives "
      "from T or implements T, directly or through bases and interfaces; x as T is then x itself and "
      "null otherwise; a cast (T)x of a reference yields the same object, or null for null, and "
      "throws InvalidCastException when the object is no T. This holds for classes, abstract classes, "
      "interfaces, strings, object and boxed values, through variables, fields, elements, parameters "
      "and results of any of these static types. Boxing a value copies it, unboxing to its own type "
      "returns that value, and unboxing an object to another primitive type throws "
      "InvalidCastException.",
      "all type hierarchies x run-time classes x static types x tested types",
      "test a few casts in a hierarchy of two classes.",
      ["modules/exec/commands.cpp", "modules/rt/rt.cpp", "modules/compile/expression.cpp",
       "modules/compile/xilx.cpp"],
      [("is/as/cast and box/unbox commands", "modules/exec/commands.cpp"),
       ("base type and interface tests", "modules/rt/rt.cpp"),
       ("conversion of arguments and results", "modules/compile/expression.cpp")]),
    P("C11", "Structs are values, objects and arrays are references",
      "Assigning, passing, returning, or storing a struct copies all of its fields, nested structs "
      "included, at every place a variable can be (local, parameter, field of a class or struct, array "
      "element of any rank): afterwards a change to one copy is never seen in another, and a change to "
      "one field never alters a neighbouring field, element or variable. Variables of classes and arrays share "
      "the object: a change through one is seen through all. A struct's method works on the very "
      "variable it is called on, ref parameters included, and new S() yields a struct of zeros.",
      "all struct and class shapes x access paths x sequences of copies and changes",
      "copy a struct or two between locals.",
      ["modules/exec/commands.cpp", "modules/rt/layout.cpp", "modules/rt/rt.cpp",
       "modules/compile/expression.cpp"],
      [("struct copies in expressions", "modules/compile/expression.cpp"),
       ("memory copy commands", "modules/exec/commands.cpp"),
       ("layout of fields and locals", "modules/rt/layout.cpp")]),
    P("C12", "Array elements are separate, checked variables",
      "An array of any rank and element type (integers, bool, char, enums, strings, classes, "
      "interfaces, object, structs, arrays) has the lengths it was created with, and new elements are "
      "zero or null unless an initialiser gives their values, in row-major order, converted or boxed to "
      "the element type. Each tuple of indexes within the lengths, of any integer type, designates its "
      "own element: reading it yields what was last stored there and nothing else changes. An index below "
      "zero or not below the length of its own dimension throws OutOfRangeException, an access through "
      "null throws NullReferenceException, and neither has any other effect.",
      "all ranks, lengths, element types and index values x sequences of accesses",
      "use one- and two-dimensional int arrays within their bounds.",
      ["modules/exec/commands.cpp", "modules/mm/mm.cpp", "include/modules/mm.h",
       "modules/compile/expression.cpp", "modules/rt/rt.cpp"],
      [("array element commands and index computation", "modules/exec/commands.cpp"),
       ("allocation of arrays", "modules/mm/mm.cpp"),
       ("array creation and initialisers", "modules/compile/expression.cpp")]),
    P("C13", "Properties run their accessors, at every kind of access",
      "Reading a property of a class or struct, static or not, runs its get accessor exactly once and "
      "yields the value that returns; assigning to it runs its set accessor once with the assigned "
      "value; a compound assignment or an increment, used as a statement, runs get and then set with "
      "the computed value, converted as the operator requires. An automatic property keeps, for every "
      "object separately, the value last assigned, and starts at zero or null. Inherited properties and "
      "base.P run the accessors of the class that declares them, virtual calls and exceptions in accessors included.",
      "all accessor bodies x kinds of access x property types x objects",
      "read and write a property or two.",
      ["modules/compile/expression.cpp", "modules/compile/ast_utils.cpp", "modules/core/core.cpp",
       "modules/exec/commands.cpp"],
      [("property access in expressions", "modules/compile/expression.cpp"),
       ("call commands", "modules/exec/commands.cpp")]),
    P("C14", "Faulty accesses raise the right exception and do nothing else",
      "Reading or writing a field, an element or a property through null, calling a virtual or interface method "
      "on null, unboxing null and throwing null raise NullReferenceException; an element outside the array raises "
      "OutOfRangeException; a cast to a class or interface the object does not have raises "
      "InvalidCastException. The exception is raised at that very point, at any depth of any expression, "
      "argument or condition: nothing to its right is evaluated, nothing is stored, other variables, objects and callers' frames keep "
      "their values, and it behaves as an exception thrown by throw there: the nearest matching handler runs, with "
      "the exception object, then the program goes on. An exception without a handler ends the "
      "program with its name reported after everything printed before.",
      "all expression shapes x fault points x handler placements x call depths",
      "raise one exception at a time at the top of a statement.",
      ["modules/exec/commands.cpp", "modules/exec/exec.cpp", "modules/compile/expression.cpp",
       "modules/compile/statements.cpp"],
      [("null, range and cast checks", "modules/exec/commands.cpp"),
       ("unwinding of frames and stack", "modules/exec/commands.cpp")]),
    P("C15", "Ill-formed programs are refused, well-formed ones are not",
      "A program that breaks a static rule is refused with a message before any of it runs, and a program "
      "that keeps the rules compiles and runs. The rules: every used name (variable in scope, method, field, "
      "property, type, enum item) is declared; initialisers, arguments and returned values have a type that "
      "converts implicitly (same signedness and wider for integers, derived to base or interface for "
      "references); operands have types that the operator takes; a call matches one accessible method or "
      "constructor by number, types and ref/out of its arguments, and only one; private members are used only in their "
      "class, protected ones only there and in derived classes, members without modifier are private; a method "
      "with a result returns one on every path that can complete, a void method returns none; an override overrides a "
      "virtual or abstract method of the same signature and result; virtual and abstract methods are neither private nor "
      "static, abstract ones only in abstract classes; members (by name and parameter types), parameters, types and "
      "enum items are declared once; what is assigned, incremented or passed by ref or out is a variable, not a constant; "
      "const variables have constant initialisers; class and interface bases are not circular. This holds at every "
      "optimisation level and for unreached code.",
      "all programs: declarations x types x scopes x control-flow shapes",
      "only compile well-formed programs.",
      ["modules/compile/ast.cpp", "modules/compile/ast_utils.cpp", "modules/compile/statements.cpp",
       "modules/compile/expression.cpp", "modules/core/core.cpp", "modules/core/expression_executor.cpp"],
      [("name, type and access checks", "modules/compile/ast_utils.cpp"),
       ("return-path analysis", "modules/compile/statements.cpp"),
       ("declaration checks", "modules/compile/ast.cpp")]),
    P("C16", "Separately compiled libraries behave like code of the program itself",
      "A program compiled against a library assembly (an .apl file written by the compiler from other "
      "sources) behaves as if the library's public types were its own: static and instance methods, "
      "overloads, ref and out parameters, enums of every underlying type, structs, arrays, boxed values and exceptions of library "
      "types keep their meaning, classes of the program may derive from library classes and implement "
      "library interfaces, and virtual, abstract and interface calls across the border run the most "
      "derived override, in both directions. Writing and reading the assembly loses nothing: "
      "types, members, literals, code and exception blocks come back as compiled.",
      "all library and program pairs x optimisation levels of each",
      "use no assembly but the core library.",
      ["modules/core/assembly_writer.cpp", "modules/core/assembly_reader.cpp",
       "modules/core/assembly_layout.cpp", "modules/rt/rt.cpp", "modules/core/xil.cpp"],
      [("assembly writer", "modules/core/assembly_writer.cpp"),
       ("assembly reader", "modules/core/assembly_reader.cpp"),
       ("references to other assemblies at run time", "modules/rt/rt.cpp")]),
    P("C17", "Delegates call the method and object they were made from",
      "A delegate made from a static method calls that method; one made from a (non-virtual) method "
      "of an object calls it on that object, whatever happened to the variable it was made through. The call binds the arguments "
      "in order and yields the returned value, for all parameter and result "
      "types. Delegates are values that keep their target when copied, passed, returned, stored in fields, "
      "properties and array elements, boxed, or nested in other delegates, and an exception thrown by "
      "the target reaches the caller of the delegate.",
      "all signatures x target kinds x storage and call histories",
      "call one delegate of a static method.",
      ["modules/compile/expression.cpp", "modules/exec/commands.cpp", "modules/compile/ast_utils.cpp",
       "modules/core/xil.cpp"],
      [("creation and invocation commands", "modules/exec/commands.cpp"),
       ("method references in expressions", "modules/compile/expression.cpp")]),
    P("C18", "Enum items have their defined values and enums convert like their type",
      "Each item of an enum has the value written for it, the value of the item it names (declared before "
      "or after it), or one more than the item before it, the first one 0, in any of the eight underlying "
      "integer types; an enum with an item whose value is outside its underlying type or defined by itself "
      "is refused. A variable of an enum type holds any value of the underlying type, starts as 0 in fields "
      "and array elements, keeps its value through locals, parameters, ref and out parameters, results, "
      "fields, properties, struct fields and array elements, converts explicitly to and from every integer "
      "type and other enums as its underlying type does, compares by value, selects the case of a switch, "
      "and is a type of its own in overload resolution.",
      "all enum declarations x values x places and conversions x optimisation levels",
      "use an int enum with a few small values.",
      ["modules/compile/ast.cpp", "modules/compile/expression.cpp", "modules/compile/statements.cpp",
       "modules/core/core.cpp"],
      [("values of the items", "modules/compile/ast.cpp"),
       ("conversions", "modules/compile/expression.cpp")]),
]

TECH = ("trace validation against a TLA+ specification: generated programs run by the real compiler "
        "and virtual machine, every recorded execution checked by TLC to be a behaviour of the "
        "April abstract machine")

NOTE = ("TLC checks each recorded execution step by step, with the machine's invariants in every "
        "state. Assurance covers the generated programs (random and enumerated within the domain of "
        "the statement); trusted: TLC, the generators' pairing of source text and program table.")
