#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth is the table below)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "observe_at": list(observe), "hook_needed": hook}})
L, H, C, CH = "lib/source/", "lib/include/spvgentwo/", "common/source/", "common/include/common/"

prop("C01", "Written modules are complete, exactly framed and in logical layout order",
 "For every module built through the API, the binary written is the five word header (magic number and the module's version, generator, bound and schema) followed by instructions whose declared word counts tile the stream exactly. Every instruction the module holds appears exactly once with its opcode and every operand in order (ids, literals, block and function references as ids), and nothing else appears. Sections appear in the order of the SPIR-V logical layout (capabilities, extensions, imports, memory model, entry points, execution modes, debug strings, names, processed-notes, decorations, then types, constants, globals and undefs, then functions), and each function is its declaration, parameters, blocks each led by its label, and its end.",
 ["programs"], "every module that a sequence of API calls can build",
 "The tests validate a few dozen example modules with an external validator; they never compare the written words with what was built, so an operand lost, swapped or truncated in a shape no example has goes unnoticed.",
 [L+"Module.cpp", L+"Instruction.cpp", L+"Function.cpp", L+"EntryPoint.cpp", L+"BasicBlock.cpp", L+"Operand.cpp", H+"Module.h", H+"Writer.h"],
 [("Module::write", L+"Module.cpp"), ("Module::iterateInstructions", H+"Module.h"), ("Instruction::write/getOpCode/getWordCount", L+"Instruction.cpp"), ("Operand::write/getWordCount", L+"Operand.cpp")],
 [("instruction lists per section", "the module's content", H+"Module.h")], ["words given to the writer", "public accessors of the module"])

prop("C02", "Result ids are unique, dense and below the declared bound",
 "After ids are assigned, every instruction that produces a result has its own id, different from every other one and from zero, and the ids used are exactly 1 up to the declared bound minus one. Every reference to an instruction, block or function is written as precisely the id of what it refers to. Assigning ids again, with or without further additions to the module in between, keeps these guarantees, and after reading a module the bound is large enough that newly added instructions never reuse an id that is present.",
 ["programs", "histories"], "every module and every history of building, assigning, extending, resolving and re-assigning",
 "Tests assign ids once at the end of one fixed program and hand the result to a validator; re-assignment after extension and after parsing is not exercised.",
 [L+"Module.cpp", L+"Instruction.cpp", L+"Function.cpp", L+"EntryPoint.cpp", L+"Operand.cpp"],
 [("Module::assignIDs", L+"Module.cpp"), ("Module::resolveIDs", L+"Module.cpp"), ("Instruction::assignResultId", L+"Instruction.cpp")],
 [("bound", "next unused id", H+"Module.h")], ["result id operands", "header bound word"])

prop("C03", "Reading then writing a binary reproduces it",
 "Every binary whose instructions follow the SPIR-V grammar (every opcode of the shipped grammar, every number of optional and repeated operands, parameters of enumerants, literal strings and wide literals) and whose sections follow the logical layout can be read, and writing the module read yields the same header and the same instructions word for word, in the same order within each section and function. Resolving ids to references and assigning ids afresh changes nothing but the numbering, consistently everywhere.",
 ["inputs"], "every grammar-valid instruction and every valid module made of them",
 "Tests read back a handful of shader binaries and only check that reading returns success; most opcodes and operand shapes never occur in them.",
 [L+"Module.cpp", L+"Instruction.cpp", L+"Grammar.cpp", L+"Function.cpp", L+"EntryPoint.cpp", H+"Grammar.h", C+"BinaryFileReader.cpp", C+"BinaryFileWriter.cpp"],
 [("Module::read", L+"Module.cpp"), ("Instruction::readOperands", L+"Instruction.cpp"), ("Grammar::getOperands/getOperandParameters", L+"Grammar.cpp"), ("Module::write", L+"Module.cpp")],
 (), ["words read versus words written"])

prop("C04", "Reading a binary recovers types, constants, names and structure",
 "After a valid binary is read and initialised, the module reports for every type instruction (opaque and pipe types, types containing themselves through forward pointers and arrays whose length is not a 32 bit constant are not described by the library) a type description that matches its operands, for every result its type, for every constant and specialization constant its type and value, for every named id or member its exact name, and its entry points, functions, parameters, blocks, calls and version exactly as in the binary. Asking the module for a type or constant it already contains returns the instruction that was read instead of creating another.",
 ["inputs"], "every valid binary over all type, constant and naming instructions",
 "Tests read a few compiled shaders and compare nothing about the recovered description.",
 [L+"Module.cpp", L+"Type.cpp", L+"Constant.cpp", L+"Function.cpp", L+"EntryPoint.cpp"],
 [("Module::reconstructTypeAndConstantInfo", L+"Module.cpp"), ("Module::reconstructNames", L+"Module.cpp"), ("Module::resolveIDs", L+"Module.cpp"), ("Module::readAndInit", L+"Module.cpp")],
 [("type and constant lookup maps", "instruction <-> description", H+"Module.h")], ["getTypeInfo/getConstantInfo/getName/accessors", "addType/addConstant on the read module"])

prop("C05", "Malformed binaries are rejected, never misread and never harmful",
 "Reading any word sequence terminates without touching memory it does not own and either succeeds or reports failure. It reports failure for a wrong magic number, a stream cut short, an unknown opcode, an instruction whose word count is zero or does not cover or exceeds what its operands need, an instruction that can not appear at module level, between the blocks of a function or inside a block where it does, a variable of storage class Function outside of a function, a function whose id is zero or not below the bound, and a function or block left open; resolving reports an id that is referenced but defined nowhere or defined twice; a reader never consumes words of a following instruction as operands of the current one.",
 ["inputs"], "every finite word sequence, in particular every truncation and every single-word corruption of a valid module",
 "Tests only read valid files.",
 [L+"Module.cpp", L+"Instruction.cpp", L+"Grammar.cpp", L+"Function.cpp", C+"BinaryFileReader.cpp"],
 [("Module::read", L+"Module.cpp"), ("Instruction::readOperands", L+"Instruction.cpp"), ("Function::read/BasicBlock::read", L+"Function.cpp"), ("Module::resolveIDs", L+"Module.cpp")],
 (), ["return value of read / readAndInit", "sanitizers and bounds of the reader"])

prop("C06", "Structurally equal types are one instruction, different types are different ones",
 "In a module built through the API, requesting a type returns the same type instruction whenever an equal type was requested before and a new one otherwise, whichever way the request is phrased, and each type is declared after the types and the array-length constant it is made of. The instruction's opcode and operands are exactly those that describe the requested type, and the description the module reports for the instruction equals the requested type.",
 ["programs", "histories"], "every sequence of requests over all type constructors and nestings",
 "Tests request a few types and check that the binary validates; nothing compares identities over request histories.",
 [L+"Module.cpp", L+"Type.cpp", H+"Type.h", H+"Module.h", C+"TypeHelper.cpp", L+"Instruction.cpp"],
 [("Module::addType", L+"Module.cpp"), ("Type::operator==, Hasher<Type>", H+"Type.h"), ("Module::compositeType", L+"Module.cpp")],
 [("type lookup maps", "description <-> instruction", H+"Module.h")], ["returned instruction, its operands and position"])

prop("C07", "Equal constants are one instruction and every constant encodes its value exactly",
 "Requesting a constant returns the existing instruction if an equal one (same type, same value bits, same kind) was requested before and otherwise appends one new instruction after its type and constituents, whose opcode, result type and literal words are exactly the requested value in SPIR-V encoding (booleans by opcode, values narrower than a word extended by their signedness, wide values low word first, composites by constituent in order, null without operands). Constants that differ in type, value or in being specializable are never merged, and the value the module reports for the instruction is the one requested.",
 ["inputs", "histories"], "every value of every scalar width and composites of them, in every request order",
 "Tests create a few small integers and floats; narrow, wide, negative, not-a-number and nested values and the interplay of equal values of different types are not covered.",
 [L+"Module.cpp", L+"Constant.cpp", H+"Constant.h", H+"Module.h", H+"Operand.h", L+"Instruction.cpp"],
 [("Module::addConstant", L+"Module.cpp"), ("Constant::make", H+"Constant.h"), ("Hasher<Constant>, Constant::operator==", H+"Constant.h")],
 [("constant lookup maps", "description <-> instruction", H+"Module.h")], ["returned instruction and its operands"])

prop("C08", "Inferred result types are the ones the SPIR-V rules prescribe",
 "For every operation that can be created without naming a result type, applied to any operands for which the operation is legal, the result type the library attaches is the type the SPIR-V specification prescribes for these operand types (scalar, vector and matrix shape, component kind, width and signedness, carry/borrow structures, sampled texel types, query sizes). Exactly the instruction of the requested operation with the given operands in the given order is appended.",
 ["programs"], "every operation times every combination of operand types it admits",
 "Tests call a few dozen of these operations on one or two operand types each.",
 [L+"Instruction.cpp", L+"TypeInferenceAndValiation.cpp", L+"Type.cpp", H+"Type.h", H+"Instruction.h", H+"InstructionTemplate.inl"],
 [("defaultimpl::inferResultType", L+"TypeInferenceAndValiation.cpp"), ("Instruction::op*", L+"Instruction.cpp"), ("Instruction::inferResultTypeOperand", L+"Instruction.cpp")],
 (), ["returned instruction, its result type and operands"])

prop("C09", "Ill-typed operations are refused with an error, legal ones are accepted",
 "When an operation is requested with operand types for which the library's operand checks say it is not defined (wrong component kind, mismatched shapes or widths where the operation needs equal ones, non-vector, non-matrix, non-image or non-pointer operands where one is required, a store of a mismatched type, a call of something that is no function), the library reports an error, returns its error instruction and the program is not extended by a usable but wrong instruction; optional image operands that are not legal for the image are at least reported. When the operand types are legal no error is reported.",
 ["programs"], "every operation times every combination of operand types from a representative universe",
 "Tests hold almost no negative cases.",
 [L+"Instruction.cpp", L+"TypeInferenceAndValiation.cpp", L+"Type.cpp", H+"Instruction.h", H+"InstructionTemplate.inl"],
 [("Instruction::validateOperands, error()", L+"Instruction.cpp"), ("defaultimpl::validateOperands", L+"TypeInferenceAndValiation.cpp"), ("Instruction::scalarVecOp", L+"Instruction.cpp")],
 (), ["return value, error log, block contents"])

prop("C10", "Generic operators pick the operation that matches the operand types",
 "Every type-directed arithmetic, comparison and negation helper and the corresponding operator syntax emits the one SPIR-V operation that realises it for the operand types: integer, floating point or boolean form, signed form if any operand is signed and unsigned form otherwise, and the scalar/vector/matrix product form for mixed shapes. Operands keep their left/right roles, results of nested expressions feed the enclosing one, and every other combination is refused with the error instruction.",
 ["programs"], "every helper times every pair of operand types",
 "Tests use the helpers on a few float and int values.",
 [L+"Instruction.cpp", L+"Operators.cpp", H+"Operators.h", H+"Instruction.h", CH+"Expression.h", L+"BasicBlock.cpp"],
 [("Instruction::Add/Sub/Mul/Div/Not/Equal/...", L+"Instruction.cpp"), ("Instruction::intFloatOp/intFloatBoolOp", L+"Instruction.cpp"), ("ops::operator*", L+"Operators.cpp")],
 (), ["appended instruction: opcode, operands, result type"])

prop("C11", "Composite and pointer access yields the type of the element addressed",
 "Access chains, composite extraction and insertion, vector shuffles, dynamic vector access and composite construction, for every aggregate and every valid index path, produce one instruction with the given indices in order and the result type of the element addressed: for access chains a pointer to it in the base pointer's storage class, with indices as integer constants equal to the requested ones. An index path that leaves the aggregate or a base that is not addressable is refused with the error instruction.",
 ["programs"], "every aggregate nesting and every index path",
 "Tests walk one or two struct and vector paths.",
 [L+"Instruction.cpp", H+"InstructionTemplate.inl", L+"Type.cpp", H+"Type.h", L+"TypeInferenceAndValiation.cpp"],
 [("Instruction::opAccessChain/opCompositeExtract/opCompositeInsert/opVectorShuffle", H+"InstructionTemplate.inl"), ("Type::getSubType", L+"Type.cpp"), ("inferAccessChainType", L+"TypeInferenceAndValiation.cpp")],
 (), ["appended instruction and its result type"])

prop("C12", "Structured branches and loops produce well-formed control flow",
 "However the structured if, if-else and loop helpers are nested and whatever the given bodies contain (nothing, straight code, further helpers, an early return), the function that results consists of blocks that each have exactly one terminator at their end, every selection or loop header declares its merge block (and continue block) immediately before its terminator, both arms of a selection reach the merge block unless they already left the function, loop bodies reach the continue block which runs the increment and branches back to the header that evaluates the condition, and building continues in the merge block. The operations given in the bodies appear exactly once in the block the structure prescribes.",
 ["programs"], "every nesting of structured helpers with every kind of body",
 "Tests contain three fixed control-flow shapes.",
 [L+"BasicBlock.cpp", H+"BasicBlock.h", H+"InstructionTemplate.inl", L+"Function.cpp", L+"Instruction.cpp"],
 [("BasicBlock::If/Loop", H+"BasicBlockTemplate.inl"), ("BasicBlock::getTerminator", L+"BasicBlock.cpp"), ("Function::addBasicBlock", L+"Function.cpp")],
 (), ["blocks and instructions of the function"])

prop("C13", "Entry point interfaces list exactly the variables their code uses",
 "After finalisation each entry point's interface lists, each once, the module-scope variables that its function or any function reachable from it through calls refers to as an operand: only those of storage class input and output for modules before version 1.4, and all of them from 1.4 on. Execution model, entry function and name are unchanged, and finalising again after the code changes yields the interface of the changed code.",
 ["programs", "histories"], "every call graph (also recursive or shared), every placement of variable uses, every version",
 "Tests have entry points that touch their variables directly in straight code.",
 [L+"EntryPoint.cpp", L+"Module.cpp", H+"EntryPoint.h", L+"Function.cpp"],
 [("EntryPoint::finalize/getGlobalVariableInterface", L+"EntryPoint.cpp"), ("collectReferencedVariables", L+"EntryPoint.cpp"), ("Module::finalizeEntryPoints", L+"Module.cpp")],
 (), ["operands of the entry point instruction"])

prop("C14", "Finalising declares the capabilities, extensions and version the code needs",
 "When a module is finalised with the grammar, the capabilities declared afterwards cover every requirement that the grammar states for the opcodes used (at least one of the listed alternatives for each), together with those already declared; extensions are added for instructions that exist in the module's version only through an extension, and the version is never lower than the minimum its instructions require, nor lowered below one set explicitly (requirements of enumerants are left to the user). Nothing is declared twice, explicit declarations are kept, and adding, querying and removing capabilities and extensions behaves as on a set (with the implied base capabilities added when asked).",
 ["programs", "histories"], "every set of instructions and enumerants in use and every history of explicit declarations",
 "Tests declare capabilities by hand or finalise a few example shaders.",
 [L+"Module.cpp", L+"Grammar.cpp", H+"Grammar.h", H+"SpvDefines.h"],
 [("Module::addRequiredCapabilities/addRequiredExtensions/getRequiredVersion", L+"Module.cpp"), ("Module::addCapability/checkCapability/removeCapability", L+"Module.cpp"), ("Grammar::getRequirements", L+"Grammar.cpp")],
 [("capability and extension sets", "declared capabilities/extensions", H+"Module.h")], ["capability/extension instructions, version word"])

prop("C15", "Names are attached, listed and looked up exactly as given",
 "Every name given to an instruction or to a struct member is emitted once as the corresponding name instruction with exactly the given characters, and lookups by instruction (with or without member index) and by name string return exactly what was attached and nothing for names never given. Names given to one target or member never show up for another, names that are prefixes of each other are distinguished, a refused name adds nothing, and removing an instruction from the lookup maps removes its names from the lookup.",
 ["histories", "inputs"], "every sequence of naming, lookup and removal with every string",
 "Tests set names but never query them.",
 [L+"Module.cpp", H+"Module.h", L+"Instruction.cpp", L+"String.cpp"],
 [("Module::addName/addMemberName/getName/getNames/getInstructionByName", L+"Module.cpp"), ("compareLiteralString", L+"Instruction.cpp")],
 [("name lookup multimap", "target -> names", H+"Module.h")], ["lookup results and name instructions"])

prop("C16", "Uses can be collected, replaced and removed exactly",
 "In a module whose blocks are all terminated, collecting the uses of an instruction returns exactly the instructions that have it as an operand (other than as their result type), and replacing uses changes every such operand to the replacement and nothing else. Removing an instruction, block, function or entry point removes exactly that one (and what it owns, with the names and decorations of what it owns) from its list, from the lookups by type, constant and name, and leaves every other instruction and its order untouched, apart from uses of a removed block or function, which are reported and refer to the given replacement or to nothing; removing something that is not there reports so and changes nothing.",
 ["programs", "histories"], "every operand graph and every sequence of gather, replace and remove",
 "No test removes anything or inspects uses.",
 [L+"Module.cpp", L+"Function.cpp", L+"BasicBlock.cpp", H+"Module.h", H+"Function.h", H+"BasicBlock.h"],
 [("Module::gatherUses/replaceUses/remove", L+"Module.cpp"), ("Function::remove", L+"Function.cpp"), ("BasicBlock::remove", L+"BasicBlock.cpp"), ("Module::removeFromLookupMaps", L+"Module.cpp")],
 (), ["operands of all instructions before and after"])

prop("C17", "Linking binds every import to the matching export and keeps the program intact",
 "Linking a library into a consumer replaces every import whose linkage name and type equal an exported function or variable by the library's definition together with everything that definition refers to (types, constants, globals, names, decorations, callees), each transferred once, and every use of the import in the consumer then refers to the transferred definition. What is unrelated in the consumer is unchanged, the selected options (removing linkage decorations, removing the linkage capability, assigning ids and so on) take effect independently of each other and exactly when selected, and an import without a matching export or with a different type is reported and left as it was.",
 ["programs", "configurations"], "every pair of library and consumer and every combination of options",
 "Tests link one fixed library with one consumer under one option set.",
 [C+"LinkerHelper.cpp", CH+"LinkerHelper.h", "link/source/link.cpp"],
 [("LinkerHelper::import", C+"LinkerHelper.cpp"), ("LinkerHelper::transferInstruction/importFunction/...", C+"LinkerHelper.cpp"), ("LinkerOptionBits", CH+"LinkerHelper.h")],
 (), ["both modules before and after, reported result"])

prop("C18", "Reflection reports exactly the decorations, modes and interface present",
 "Reflection queries return exactly what the module declares: each decoration of a target or member with all its literals, all targets or variables carrying a given decoration (with or without a literal value), the workgroup size in whichever form it is declared, and for a decorated instruction the full literal or string value. Targets without the decoration, other members and other entry points never contribute to the answer.",
 ["programs"], "every set of decorations, execution modes and variables",
 "The reflection tool has no tests.",
 [C+"ReflectionHelper.cpp", CH+"ReflectionHelper.h"],
 [("ReflectionHelper::getDecorations/getLocalSize/getVariablesWithDecoration/...", C+"ReflectionHelper.cpp")],
 (), ["query results versus the module's instructions"])

prop("C19", "Control-flow, call and expression graphs mirror the program",
 "The control-flow graph of a function has exactly one node per block and an edge from a block to another exactly when the block's terminator can branch there, the call graph of a function has exactly one node per function it reaches through calls and exactly one edge per calling instruction, carrying it, and a generic graph keeps every added node once with the same edges and edge data seen from both ends through connecting, disconnecting, erasing and moving. Evaluating an expression graph runs each expression that is needed and not yet evaluated exactly once, its inputs first and with its inputs and outputs in connection order; explicit orders run exactly as given and are refused at the first expression evaluated before.",
 ["programs", "histories"], "every control-flow and call graph and every history of graph construction",
 "Tests build one control-flow graph and one call graph and look at a few nodes.",
 [CH+"Graph.h", CH+"Node.h", CH+"ControlFlowGraph.h", CH+"FunctionCallGraph.h", C+"FunctionCallGraph.cpp", CH+"ControlFlowGraph.h", CH+"ExprGraph.h", CH+"Algorithms.h", L+"Instruction.cpp"],
 [("ControlFlowGraph", CH+"ControlFlowGraph.h"), ("FunctionCallGraph", C+"FunctionCallGraph.cpp"), ("Graph/Node", CH+"Graph.h"), ("Instruction::getBranchTargets", L+"Instruction.cpp")],
 (), ["nodes and edges"])

prop("C20", "The doubly linked list behaves as a sequence",
 "Under every sequence of list operations (adding at either end, in front of or behind any element, removing, erasing, splicing, moving, copying, clearing, comparing, searching) the list holds exactly the elements and order of the corresponding abstract sequence, traversed forward or backward, and its size, emptiness, first and last element agree. Addresses of elements that are not removed stay valid, and each element is constructed once and destroyed once.",
 ["histories"], "every sequence of operations on lists of any length",
 "Tests run one short scripted sequence.",
 [H+"List.h", H+"Entry.h", H+"EntryIterator.h", CH+"HeapList.h"],
 [("List", H+"List.h"), ("Entry", H+"Entry.h"), ("EntryIterator", H+"EntryIterator.h")],
 [("first/last/next/prev", "chain", H+"Entry.h")], ["forward and backward traversal after each operation"])

prop("C21", "Growable arrays and strings hold exactly what was put in",
 "Under every sequence of array and string operations (appending, inserting, erasing, resizing, reserving, assigning, copying, moving, concatenating, sub-stringing, comparing) the contents and size are those of the corresponding abstract sequence, independent of growth, and strings are always terminated, with length and comparisons agreeing with their characters. Elements are constructed and destroyed exactly once.",
 ["histories"], "every sequence of operations, across every growth boundary",
 "Tests append a few elements and never cross several growth steps or use the copying and inserting operations.",
 [H+"Vector.h", H+"String.h", L+"String.cpp", CH+"HeapVector.h", CH+"HeapString.h"],
 [("Vector", H+"Vector.h"), ("String", L+"String.cpp")],
 [("elements/capacity", "size and storage", H+"Vector.h")], ["contents after each operation"])

prop("C22", "The hash map behaves as a (multi) map whatever the bucket layout",
 "Under every sequence of insertions (unique and duplicate), lookups, removals of one or all entries of a key, clearing and moving, lookups return exactly the entries stored under a key with an equal hash, first inserted first, counts and iteration cover each stored entry exactly once, and sharing a bucket with other keys never loses, duplicates, reorders or adds entries. Values stay at their address until removed.",
 ["histories", "configurations"], "every operation sequence and every bucket count, including one bucket where everything collides",
 "Tests insert a few keys into one map size.",
 [H+"HashMap.h", H+"HashMapIterator.h", H+"FNV1aHasher.h", CH+"HeapHashMap.h"],
 [("HashMap", H+"HashMap.h"), ("HashMapIterator", H+"HashMapIterator.h")],
 [("buckets, element count", "stored nodes", H+"HashMap.h")], ["lookups, counts and iteration after each operation"])

prop("C23", "Memory obtained from an allocator is returned exactly once and never misused",
 "Whatever is built, read, linked, edited, moved or reset, every block obtained from the caller's allocator is returned to the same allocator exactly once with its original size by the time the owning objects are destroyed, no block is used after being returned, and nothing is allocated from elsewhere. The fixed-buffer allocators hand out only disjoint, aligned, in-range memory and report exhaustion by returning nothing.",
 ["histories", "programs"], "every program of API calls; every sequence of allocations and releases on the fixed-buffer allocators",
 "Tests never account for allocations.",
 [H+"Allocator.h", H+"List.h", H+"Vector.h", H+"HashMap.h", C+"HeapAllocator.cpp", CH+"HeapAllocator.h", CH+"ExternalMemoryAllocator.h", C+"ExternalMemoryAllocator.cpp", L+"Module.cpp"],
 [("IAllocator::construct/destruct", H+"Allocator.h"), ("StackAllocator/ExternalMemoryAllocator", CH+"ExternalMemoryAllocator.h"), ("HeapAllocator", C+"HeapAllocator.cpp")],
 (), ["allocation and release events seen by the allocator"])

prop("C24", "Moving and resetting modules preserves or clears their content completely",
 "Moving a module (by construction or assignment) transfers its complete content: the target writes the same binary, answers every lookup the same way, and can be extended, finalised and written like the original, with every instruction, block and function belonging to the target. A moved-from module holds nothing, a reset module holds nothing and can be built up again like a new one, and whatever the target held before is gone.",
 ["programs", "histories"], "every module content and every point of a building history at which it is moved or reset",
 "Tests never move a populated module.",
 [L+"Module.cpp", L+"Function.cpp", L+"BasicBlock.cpp", L+"Instruction.cpp", L+"EntryPoint.cpp", H+"Module.h"],
 [("Module::Module(Module&&), operator=, reset, updateParentPointers", L+"Module.cpp"), ("List/HashMap move", H+"List.h")],
 (), ["content and lookups before and after the move"])

prop("C25", "Extended math instructions carry the right opcode, set and result type",
 "Every helper for the GLSL.std.450 instruction set emits an extended instruction that refers to the module's single import of that set, carries the instruction number the standard assigns to that function and the operands in the standard's order, and has the result type the standard prescribes for the operand types. Operand types for which the function is not defined are refused with the error instruction.",
 ["programs"], "every helper times every combination of operand types",
 "Tests call a handful of the helpers on one type each.",
 [L+"GLSL450Instruction.cpp", H+"GLSL450Instruction.h", H+"Glsl.h", L+"Module.cpp"],
 [("ext::GLSL::op*", L+"GLSL450Instruction.cpp"), ("Module::addExtensionInstructionImport", L+"Module.cpp")],
 (), ["appended instruction"])

prop("C26", "Printed text states every instruction faithfully",
 "The textual listing of a module prints each instruction once in module order with its opcode name, its result as a left-hand side, and every operand in order: ids of what is referred to, enumerant names for their values (a combination of flags by its number or all their names), literal numbers in full and complete strings. No operand is dropped, repeated or attributed to another instruction, whatever combination of flags, optional operands and repeated operands occurs.",
 ["programs", "configurations"], "every grammar-valid module and every option combination of the printer",
 "Tests check only that the disassembler exits successfully.",
 [C+"ModulePrinter.cpp", CH+"ModulePrinter.h", L+"Grammar.cpp", "dis/source/dis.cpp"],
 [("ModulePrinter::printInstruction/printOperands", C+"ModulePrinter.cpp"), ("Grammar::getOperandName", L+"Grammar.cpp")],
 (), ["printed text versus the instruction's operands"])

prop("C27", "Literal strings and numbers survive encoding into operand words",
 "Every string appended as a literal occupies exactly the words the SPIR-V rule prescribes (bytes in little endian order, always a terminator, zero padded), and extraction, skipping and comparison of literal strings see exactly these characters and stop at the first word after the terminator. Numeric and enumerant arguments are appended as the words that hold their bit pattern, wide values low word first.",
 ["inputs"], "every string of any length and content, every number of every width, at every operand position",
 "Tests use a few short strings.",
 [L+"Instruction.cpp", H+"Operand.h", H+"InstructionTemplate.inl", L+"String.cpp", H+"Instruction.h"],
 [("Instruction::appendLiterals, appendLiteralsToContainer", H+"Operand.h"), ("getLiteralString/skipLiteralString/compareLiteralString", L+"Instruction.cpp")],
 (), ["operand words; extracted strings"])

prop("C28", "Functions, parameters and calls agree with their signature",
 "A function created with a return type and parameter types has exactly one function type instruction with that signature (shared between equal signatures), one parameter instruction per parameter in order with its type, and is declared and ended exactly once; entry points additionally name it with the given model and name. A call emits the callee's return type, the callee and the arguments in order, and calling something that is no function or with a result that is no type is refused, as is returning a value that does not have the return type; local variables are placed at the start of the first block with pointers in function storage.",
 ["programs"], "every signature, every argument list, every order of adding parameters, blocks and variables",
 "Tests build functions with at most two parameters.",
 [L+"Function.cpp", H+"Function.h", L+"EntryPoint.cpp", H+"EntryPoint.h", H+"InstructionTemplate.inl", L+"Instruction.cpp"],
 [("Function::finalize/addParameters/setReturnType/variable", L+"Function.cpp"), ("Function template constructor", H+"FunctionTemplate.inl"), ("Instruction::call/opFunctionCall", L+"Instruction.cpp"), ("EntryPoint::EntryPoint", L+"EntryPoint.cpp")],
 (), ["instructions of the function and the call"])

prop("C29", "Type descriptions answer truthfully",
 "A type description built up by any sequence of builder, wrapping, member, property, copying and moving calls describes exactly that type: its accessors say so, two descriptions are equal exactly when they describe equal types, and every predicate (the is..., has... and contains... queries, with and without width, sign, length or row arguments), base type, element and count query, and its spelled name answer what holds of the described type. An image format stands for the scalar or vector type of its channels and has as many channels, an image dimension as many coordinates, as the SPIR-V specification gives it.",
 ["inputs", "histories"], "every type, every sequence of operations on descriptions of types, every argument of a query",
 "Tests ask a handful of queries of a few types; the answers depend on combinations of kind, width, sign, length and nesting, and on aliasing while descriptions are copied and moved into each other.",
 [H+"Type.h", L+"Type.cpp", C+"TypeHelper.cpp", H+"SpvDefines.h"],
 [("Type::is*/has*/contains*", H+"Type.h"), ("Type::fromImageFormat, getSubType, wrap*", L+"Type.cpp"), ("TypeHelper::getTypeName", C+"TypeHelper.cpp")],
 (), ["answers of queries; equality; names"])

prop("C30", "The shipped grammar is the SPIR-V registry's",
 "For every opcode of the core set and of the GLSL.std.450 and OpenCL.std sets that the library knows, the grammar and the opcode classification functions state what the SPIR-V registry states: name, operands with kind, category, quantifier and name in order, capabilities, extensions, version, whether there is a result and a result type, whether it declares a type or a constant, ends a block or can only be outside of blocks; for every operand kind its enumerants with name, value and parameters; nothing else is known, and the enumerators of the headers have these values. Looking up an operand of an instruction by kind or by name yields the first word of exactly that operand, whatever strings and enumerant parameters come before it.",
 ["inputs", "programs"], "every opcode, operand kind, enumerant and enumerator; every shape of instruction the registry allows",
 "Tests exercise a small share of the 710 opcodes and 900 enumerants; an error in a table shows only with that opcode or enumerant.",
 [L+"Grammar.cpp", H+"Grammar.h", H+"Spv.h", H+"SpvDefines.h", H+"Glsl.h", H+"OpenCl.h", C+"GrammarHelper.cpp"],
 [("Grammar::getInfo/getOperandName/getOperandParameters/getOperandBases", L+"Grammar.cpp"), ("HasResultAndType, IsTypeOp, IsConstantOp", H+"Spv.h"), ("isTerminatorOp, isOutsideBlockOp", H+"SpvDefines.h"), ("GrammarHelper::getFirstOperandOfKind/getOperandByName", C+"GrammarHelper.cpp")],
 (), ["answers of the tables"])

prop("C31", "Vulkan descriptor types and shader stages follow the specification's table",
 "The Vulkan descriptor type reported for a variable and the stage reported for an execution model are those of the Vulkan specification's correspondence tables: the kind of resource (through arrays of any depth), the storage class and the block decoration decide; an image and a sampler in UniformConstant storage that share descriptor set and binding are a combined image sampler, also when only one of several variables there matches; whatever is no resource variable yields MAX_ENUM. The order of decorations, other variables and reading the module back make no difference.",
 ["inputs", "histories"], "every module: kinds of resources, nesting of arrays, sets and bindings, order of declarations and decorations",
 "Tests do not ask for descriptor types at all; the answer for one variable depends on the decorations of the others.",
 [C+"VulkanInterop.cpp", "common/include/common/VulkanInterop.h"],
 [("vk::getDescriptorTypeFromVariable", C+"VulkanInterop.cpp"), ("vk::getShaderStageFromExecutionModel", C+"VulkanInterop.cpp")],
 (), ["descriptor types and stages"])

prop("C32", "The command line tools do what their options say",
 "For every command line the disassembler prints the library's listing under exactly the listing options given (and writes serialized.spv only with -serialize); the reflector prints exactly the functions, variables, types, decorations (of the kinds asked for), local size and the instruction asked for by name or number; the linker writes exactly the module that the library's import, or its import/export patching, produces under these options, to the output named (or back to the consumer or patched file when none is), and touches no other file. The order of independent options and unknown options do not matter; a file that can not be opened or read, a symbol that does not exist or an option of the linker without its arguments leads to a non-zero exit status and no file is written, and no command line makes a tool crash or hang.",
 ["inputs", "configurations"], "every command line: any options in any order, on readable, malformed and missing files",
 "Nothing in the test suite runs the tools; what they do depends on combinations and order of options and on what the files hold.",
 ["dis/source/dis.cpp", "refl/source/refl.cpp", "link/source/link.cpp"],
 [("main", "dis/source/dis.cpp"), ("main", "refl/source/refl.cpp"), ("main", "link/source/link.cpp")],
 (), ["exit status", "printed text", "files written"])

prop("C33", "Files hold exactly the words written, and failures are reported",
 "A file writer that is closed or destroyed leaves exactly the words put into it since it was created or last closed, in order, in the file it opened, and no other file changes; opening fails, and says so, when it is open already or the path can not be opened; put tells whether the word was taken. A reader hands out exactly the words of the requested window of the file as it was when it was read, however often it reads other files before; a window that lies outside of the file or is not made of whole words is refused, and a reader that failed holds nothing. Writing a module delivers the same words to every kind of writer, and reports failure, without a crash and without delivering further words, when a writer refuses a word at any point.",
 ["histories", "fault_sequences"], "every history of opening, putting, closing, reading and getting; every window; every word at which a writer refuses",
 "Tests write one file and read it back; reuse of readers and writers, windows and failures at some word are never tried.",
 [C+"BinaryFileReader.cpp", C+"BinaryFileWriter.cpp", "common/include/common/BinaryFileReader.h", "common/include/common/BinaryFileWriter.h", "common/include/common/BinaryVectorWriter.h", L+"Module.cpp"],
 [("BinaryFileReader::read/get", C+"BinaryFileReader.cpp"), ("BinaryFileWriter::open/put/close", C+"BinaryFileWriter.cpp"), ("Module::write, Instruction::write, Operand::write", L+"Module.cpp")],
 (), ["files", "return values", "words handed out"])

prop("C34", "Variables have the storage class, type, initial value and name asked for",
 "Every way to request a variable - with a type instruction, a type, a C++ type, a description at run time or an initial value, from the module, through the functions named after storage classes, or from a function - adds exactly one OpVariable: behind the module's global variables, or, with storage class Function, in front of the function's entry block. Its result type is the pointer into the requested storage class to the requested type, its storage class operand is the one requested, its initializer is the constant asked for or absent, and it has the name given or none. Nothing else is declared but the types and constants that takes, each once, and the variable reports that storage class, type, name and parent itself.",
 ["programs", "inputs"], "every storage class, type, initial value and name, every way to phrase the request, in every module",
 "Tests request a handful of variables and look at none of their operands.",
 [L+"Module.cpp", L+"Function.cpp", L+"Instruction.cpp", "lib/include/spvgentwo/" "Module.h", "lib/include/spvgentwo/" "ModuleTemplate.inl", "lib/include/spvgentwo/" "FunctionTemplate.inl", "lib/include/spvgentwo/" "Type.h"],
 [("Module::variable, uniform, input, output, ...", "lib/include/spvgentwo/" "Module.h"), ("Function::variable", L+"Function.cpp"), ("Instruction::opVariable, getStorageClass", L+"Instruction.cpp"), ("Type::make<T*>, setProperties", "lib/include/spvgentwo/" "Type.h")],
 (), ["module contents after every request", "getStorageClass, getType, getName"])

prop("C35", "Walks see every instruction once, in binary order; instructions tell the truth",
 "iterateInstructions calls its callback for every instruction of the module exactly once, in the order of the binary (function declarations before definitions, then entry points), on mutable and constant modules alike; a callback that returns true is the last one called, whatever part of the module it is in, and the walk returns true; a walk that was not stopped returns false, except when a block has no terminator: it ends behind that block with an error. getInstructionById returns the instruction that has the id, or nullptr if none has. getTerminator is a block's last instruction if that ends a block and nullptr otherwise. Every instruction reports the result id, result type, first operand, word count, opcode word and storage class that its operands and the SPIR-V grammar give it.",
 ["programs", "inputs"], "every module (finished or not, assigned ids or read from a binary), every point at which a callback stops",
 "Tests never stop a walk, nor look at its order; all passes (ids, writing, uses, requirements) are built on it.",
 ["lib/include/spvgentwo/" "ModuleTemplate.inl", L+"Module.cpp", L+"Instruction.cpp", L+"BasicBlock.cpp"],
 [("iterateModuleInstructions", "lib/include/spvgentwo/" "ModuleTemplate.inl"), ("Module::getInstructionById", L+"Module.cpp"), ("Instruction::getResultId, getFirstActualOperand, getWordCount, getStorageClass", L+"Instruction.cpp"), ("BasicBlock::getTerminator", L+"BasicBlock.cpp")],
 (), ["instructions seen", "return values", "errors logged"])

prop("C36", "Instructions spelled out by the caller are made as asked, or refused",
 "Every request whose operands the caller spells out (names, strings and other debug information, decorations, entry points and modes, capabilities, functions, parameters and calls, extended instructions, specialisation operations, phis, branches and merges, loads, stores, copies and access chains) makes exactly the instruction the SPIR-V grammar defines for it: the right opcode, result type and id where it has them, then every argument once, in order, strings padded and terminated, each mask followed by the operands it announces. The request answers with that instruction and the module gains nothing else, except the source string or instruction set named by text, once. A request the operation is not defined for (a target that is no type, pointer, function, string or constant, values of the wrong type, masks not allowed in that place or SPIR-V version) is refused with an error, answers with the error instruction and leaves the instruction as it was, whatever it was before.",
 ["inputs"], "every such request, with every enumerant of the registry and any number of arguments, on fresh and used instructions, inside and outside of blocks",
 "Tests call a few of these helpers and look at no operand; most are never called.",
 [L+"Instruction.cpp", "lib/include/spvgentwo/" "InstructionTemplate.inl", "lib/include/spvgentwo/" "Instruction.h"],
 [("opDecorate, opEntryPoint, opExecutionMode, opLoad, opStore, opCopyMemory, opAccessChain, opPhi, opFunctionCall, ...", "lib/include/spvgentwo/" "InstructionTemplate.inl"), ("opName, opMemberName, opLine, opSource, opFunction, opReturnValue, opPhiDynamic, ...", L+"Instruction.cpp"), ("appendLiterals", "lib/include/spvgentwo/" "Operand.h")],
 (), ["opcode and operands of the instruction", "answer", "module contents", "errors logged"])

prop("C37", "Callables, loggers, flags and algorithms do what they are told",
 "A Callable or HeapCallable calls the functor, free function or member function it was given, with the arguments passed, references staying references, and answers with its result; a functor keeps its state from call to call. Copying (construction or assignment, also to itself or from an empty one) gives an independent callable in the same state; moving hands everything over and leaves the source empty; assigning a functor, reset and destruction give up what was held: it is destroyed once and its memory returned once, to the allocator it came from and with the size it was taken with. A callable says it can be called exactly if it holds something. A variadic callable calls its function with all arguments. A logger tells its callback every message once, with the formatted arguments and the part of the level its filter lets through, and nothing if that part is empty or there is no callback. The console logger prints the level's name, the text and a line end. Flags combine, test and convert like sets of bits. any, all and transform visit a container's elements in order; containers of the heap copy, move and assign like those they are made of.",
 ["inputs", "histories"], "every history of creating, copying, moving, assigning, calling, emptying and destroying, every kind of functor, every level and filter, every set of bits",
 "Tests use callables once, as a logger's sink at best; no test copies, reassigns, moves or empties one.",
 ["common/include/common/" "Callable.h", "common/include/common/" "HeapCallable.h", "lib/include/spvgentwo/" "Logger.h", "lib/include/spvgentwo/" "Flag.h", "common/include/common/" "Algorithms.h", "common/include/common/" "HeapAllocator.h"],
 [("Callable, Func, MemberFunc, VariadicFunc, make_callable", "common/include/common/" "Callable.h"), ("HeapCallable", "common/include/common/" "HeapCallable.h"), ("ILogger::log, setCallback, setFilter", "lib/include/spvgentwo/" "Logger.h"), ("Flag", "lib/include/spvgentwo/" "Flag.h"), ("ConsoleLogger", "common/source/" "ConsoleLogger.cpp"), ("algo::any, all, transform", "common/include/common/" "Algorithms.h"), ("HeapContainer", "common/include/common/" "HeapAllocator.h")],
 (), ["results of calls", "operator bool", "functors alive", "allocator blocks", "messages received", "masks"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
