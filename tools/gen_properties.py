#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
BI, BIH, IM, IMH, SL = "src/BigInteger.cpp", "src/BigInteger.h", "src/BigIntegerImpl.cpp", "src/BigIntegerImpl.h", "src/Slice.h"

prop("C01", "Addition, subtraction, multiplication, negation are exact",
 "For all integers x and y of any size and sign, x+y, x-y, x*y, ++x, x++, --x, x--, -x, +x and the absolute value equal the mathematical result, and the post-increment and post-decrement forms return the old value. The binary form, the compound-assignment form, the forms taking a native 64-bit integer on either side (including the extreme 64-bit values) and self-aliased forms (x += x, x -= x, x *= x) all give that same result. No operand other than the assigned one changes.",
 ["inputs"], "all pairs of integers, any limb count (including those around the Karatsuba threshold and its recursive halves), all operand forms and aliasings",
 "The tests multiply and add random numbers against python; carries through runs of 0xffffffff limbs, zero half-blocks of the Karatsuba split, unequal lengths at the threshold and aliased or int64 forms are hit by luck only.",
 [BI, BIH, IM, SL], [("schoolbook and Karatsuba multiply, carry/borrow loops", IM), ("operator forwarding", BI)],
 [("magnitude limbs + sign", "value of the number", IMH)], ["toString, copyMagDataTo, get2sComplement, cmp of the result"])
prop("C02", "Division and remainder satisfy the truncated division identity",
 "For every integer a and every non-zero integer b of any size and sign, q = a/b and r = a%b satisfy a = q*b + r with |r| < |b| and r zero or of the sign of a (truncation toward zero). All forms agree: binary operators, compound assignment, a native 64-bit integer on either side, self-aliased a/a and a%a, and the combined quotient-and-remainder calls. The computation terminates and changes no operand other than the assigned one.",
 ["inputs"], "all dividends and non-zero divisors, every normalisation shift, quotient-digit estimate and add-back case, all forms and aliasings",
 "Knuth's add-back and qhat-overflow cases have probability around 2^-32 on random operands, so the random tests practically never execute them.",
 [IM, BI], [("Knuth algorithm D, single-limb division, sign fix-up", IM)], [], ["value of quotient and remainder"])
prop("C03", "Bitwise operators act on the infinite two's complement",
 "For all integers x and y (and native 64-bit operands on either side), x&y, x|y, x^y and ~x, in binary, compound-assignment and in-place forms including self-aliased ones, equal the mathematical result on infinitely sign-extended two's complement representations. The two's-complement block accessor returns block i of that representation for every i, including indices beyond the stored length. The in-place magnitude complement (notBits) keeps the sign and inverts exactly the significant bits of the absolute value, giving zero when none remain set.",
 ["inputs"], "all operand pairs, sign combinations, lengths and block indices, all forms",
 "The tests check a few decimal examples of non-negative or single-limb operands; negative operands whose low limbs are zero, length mismatches and results that collapse to 0, -1 or a negative power of two are not sampled.",
 [IM, BI], [("DEFINE_BITWISE, getU32, notPlusOne, notSelf, notBits", IM)],
 [("cached index of the first non-zero limb", "used to convert magnitude to two's complement", IMH)], ["get2sComplement, toString"])
prop("C04", "Shifts are exact floor multiplication and division by powers of two",
 "For every integer x and shift count n >= 0, x << n equals x * 2^n and x >> n equals floor(x / 2^n), so that right-shifting a negative number rounds toward negative infinity and ends at -1 and a non-negative number ends at 0. Binary and in-place forms agree, shifting by 0 changes nothing, and zero stays zero.",
 ["inputs"], "all values and shift counts, including multiples of 32, counts around the bit length, and far beyond it",
 "The random tests shift random values by random counts; exact limb boundaries combined with lost bits in particular limbs of negative numbers are rare there.",
 [IM, SL, BI], [("shlMag, shrMag, shiftRightAssign's lost-one rounding", IM), ("window growth", SL)], [], ["toString"])
prop("C05", "Comparisons and predicates form a consistent total order",
 "cmp and ==, !=, <, <=, >, >= agree with the mathematical order for every pair of integers and for every integer against every native 64-bit value on either side. isZero, isOne, isNegOne, isPositive, isNegative, isEven and isOdd report exactly the corresponding fact, and exactly one of zero, positive and negative holds.",
 ["inputs"], "all pairs of values of any size and sign, in every operand form",
 "The tests compare a handful of pairs; equal-length values that differ only in one inner limb, equal magnitudes of different sign, and shared copies are not covered.",
 [IM, BI], [("cmp, cmpMag, weakEquals shortcut, flag predicates", IM)], [], ["cmp and the predicates"])
prop("C06", "Number strings round-trip in every radix from 2 to 36",
 "For every integer x and radix r in 2..36, toString(r) is the canonical representation of x: an optional '-', lower-case digits, no leading zeros, and \"0\" for zero. Parsing any well-formed string of radix r (optional single leading '+' or '-', leading zeros, digits of either letter case) yields exactly the integer it denotes, so parse(toString(x, r), r) = x.",
 ["inputs"], "all integers, all 35 radices, all digit counts relative to the internal block sizes, leading zeros, signs, letter case",
 "Tests sample random values in a few radices; zero padding of inner digit blocks and block-boundary digit counts for each of the 35 radices are not systematically visited.",
 [IM], [("toString u64 blocks, fromString u32 blocks, per-radix tables", IM)], [], ["toString, assign(str), comparisons"])
prop("C07", "Malformed number strings are rejected without side effects",
 "Parsing reports failure (ok flag set to false and the thread's status object set to an error) for every string that is not an optional single leading sign followed by one or more digits valid in the radix, and for every radix outside 2..36; it never accepts trailing or embedded foreign characters. After a failed parse into an existing number that number is unchanged. For every well-formed string, including every spelling of zero, ok is set to true.",
 ["inputs"], "all strings over digits, letters, signs, whitespace and other characters, all radices, any prior value of the target",
 "The tests try two or three malformed strings; where the foreign character falls relative to the digit-block boundaries decides which code path sees it.",
 [IM, "src/errInfos.h"], [("fromString validation", IM)], [], ["ok flag, value after the call, status info"])
prop("C08", "Binary import and magnitude export are exact",
 "Constructing or assigning from a byte buffer of any length yields exactly the integer whose two's complement those bytes are, in little- or big-endian order as requested, with an empty buffer giving 0; the buffer is not modified. Exporting the magnitude into a buffer of capacity n writes exactly min(n, byte length of |x|) little-endian bytes of |x|, returns that count, and touches nothing beyond it.",
 ["inputs"], "all byte buffers and lengths (every length modulo 4), both byte orders, all capacities",
 "The tests decode a few buffers; sign-extension bytes at lengths that are not multiples of four and negative powers of two are not enumerated.",
 [IM, BI], [("assign(bin), copyMagDataTo", IM)], [], ["value, returned count, bytes of the destination buffer"])
prop("C09", "Native conversions are exact, range-checked or truncating as documented",
 "getInt64/tryGetInt64 and getUInt64/tryGetUInt64 return the value and report success exactly when it is representable in that type, and otherwise report failure, set an overflow status and return the type's maximum. The truncating conversions (as<integral type>) return the low bits of the two's complement, as<bool> is true exactly for non-zero values and as<std::string> is the decimal string.",
 ["inputs"], "all integers, in particular around 0, 2^31, 2^32, 2^63, 2^64 and their negatives, for all target types",
 "The tests convert a few values, not each side of every boundary for every accessor.",
 [BI], [("getInt64, getUInt64, as<T>", BI), ("toU64", IM)], [], ["return value, ok flag, status"])
prop("C10", "Numbers are independent values: no operation affects another object",
 "Copies, copy-assigned, moved-to and swapped-into numbers behave as independent values: for every sequence of constructions, copies, moves, assignments and in-place operations on a set of numbers, each number's value is always the one given by treating all of them as plain mathematical values. In particular modifying one number never changes another one that was copied from it, it was copied from, or that was an operand of an operation; a moved-from number can be assigned a new value and used again.",
 ["histories"], "all sequences of operations over several numbers, all sharing and aliasing patterns",
 "Sharing of the underlying digits arises from particular sequences (copy, then modify one side by a particular operation, then read the other); tests exercise single operations on fresh numbers.",
 [SL, IM, BI], [("copy on write (cloneData before in-place mutation)", IM), ("Slice sharing", SL)],
 [("shared limb vector and window", "limbs shared between copies", SL)], ["all observers of all numbers"])
prop("C11", "Behaviour depends only on the value, not on how it was computed",
 "Two numbers holding the same integer are indistinguishable: every observer (strings in any radix, comparisons, predicates, conversions, two's-complement blocks, exports) and every further operation gives the same result for both, whatever sequence of parses, imports, arithmetic, shifts, bitwise operations, copies, moves and const queries produced them.",
 ["histories"], "all operation histories leading to equal values, followed by any observer or operation",
 "Representation residue (spare digits left behind by a shrinking operation, cached digit indices, unnormalised leading zeros) is only visible through specific follow-up operations; tests start from freshly parsed values.",
 [SL, IM, IMH], [("normalisation (eraseZerosSuffix, beZero), cache invalidation (beginWrite)", IM)],
 [("cached first non-zero limb index and its flag", "must be dropped by every write", IMH), ("spare limbs outside the window", "stale content", SL)], ["all observers"])
prop("C12", "Expression evaluation follows the documented grammar exactly",
 "Evaluating a well-formed infix expression gives the exact integer defined by its grammar: ?: (right associative, only the selected branch evaluated), then |, ^, &, == and !=, < <= > >= (comparisons give 0 or 1), << >>, + -, * / %, ** (left associative), all binary levels left associative, then prefix + - ~, then postfix ! (factorial), then parentheses, literals, constants and function calls. Literals are decimal, octal with a leading 0, hexadecimal with 0x, or of radix NN with 0NNx, letters of either case as digits, and a fractional part of a decimal literal is ignored; x**0 is 1; spaces, tabs and line breaks between, before and after tokens are insignificant, and only the characters inside the given string view are read.",
 ["programs"], "all well-formed expressions over all operators, literal forms and whitespace placements",
 "The tests evaluate a few dozen fixed expressions, covering few operator pairs and few associativity or precedence combinations.",
 ["src/eval.cpp", "src/infixExpr/ExprParser.cpp", "src/infixExpr/ExprTree.cpp", "src/infixExpr/Token.h", "src/infixExpr/fwd.h", "src/streams/StringReadStream.h"],
 [("tokenizer", "src/infixExpr/Token.h"), ("recursive descent parser", "src/infixExpr/ExprParser.cpp"), ("node evaluation callbacks", "src/infixExpr/ExprTree.cpp")], [], ["value returned by eval"])
prop("C13", "Malformed expressions are reported, never evaluated or fatal",
 "For every string that is not a well-formed expression (bad characters or literals, undefined symbols, missing operands or operators, unbalanced or misplaced brackets, commas or ?: parts, trailing tokens, empty or blank input), eval and peval return 0 with the given status object (or the thread's status object) set to an error code. They neither crash, hang, read outside the string, nor evaluate part of the expression, and a later evaluation of a well-formed expression is unaffected.",
 ["programs"], "all token and character sequences up to any length that are not derivable from the grammar",
 "The tests contain almost no malformed expressions.",
 ["src/eval.cpp", "src/infixExpr/ExprParser.cpp", "src/infixExpr/Token.h"], [("tokenizer and parser error paths", "src/infixExpr/ExprParser.cpp")], [], ["returned value, status info, process survival"])
prop("C14", "Parallel evaluation equals sequential evaluation under every schedule",
 "For every expression, every thread count and every interleaving of the worker threads, peval terminates and returns the same value as eval; every expression node is computed from completed results of its operands. A failure or exception raised by a registered function is delivered to the caller of peval exactly as by eval, never lost and never a deadlock, and branches of ?: that eval does not evaluate have no effect.",
 ["schedules", "programs"], "all expressions, thread counts and thread interleavings",
 "A test run observes one schedule of one expression; lost wake-ups and premature reads need particular interleavings.",
 ["src/eval.cpp", "src/infixExpr/ExprTree.cpp", "src/parallel/ThreadPool.h", "src/parallel/SimpleConcurrenceQueue.h"],
 [("level-wise scheduling with futures", "src/eval.cpp"), ("promise/future per node", "src/infixExpr/ExprTree.cpp")], [], ["value, exception, termination"],)
prop("C15", "Thread pool runs every task exactly once and always shuts down",
 "Every task accepted by the thread pool runs exactly once on some worker, its future delivers its result or its exception, and everything the task did happens-before the future becomes ready. Destroying the pool runs all accepted tasks to completion and joins all workers, under every interleaving and whatever the relation between task count and worker count; tasks taken by a single worker run one after the other, in submission order.",
 ["schedules"], "all interleavings of submitters, workers and the destructor, for all worker and task counts",
 "The existing test runs once under whatever schedule the OS picks; a lost wake-up at shutdown needs a particular preemption.",
 ["src/parallel/ThreadPool.h", "src/parallel/SimpleConcurrenceQueue.h"], [("worker loop, destructor protocol", "src/parallel/ThreadPool.h"), ("condition variable protocol", "src/parallel/SimpleConcurrenceQueue.h")],
 [("m_running, m_alwaysPop", "shutdown flags", "src/parallel/")], ["task counters, futures, termination"])
prop("C16", "Concurrent queue is a linearizable FIFO with no lost wake-ups",
 "Under every interleaving of pushes, blocking pops, non-blocking pops, emptiness queries, copies and the release-all notification, the results are those of a FIFO queue whose operations take effect atomically: every accepted element is popped at most once, in order, a push whose condition is false stores nothing and calls its error callback once, and a non-blocking pop fails only when the queue is empty. A blocking pop returns as soon as an element is available, returns false only on an empty queue after release-all was called, and never stays blocked after a release-all or while elements are available to it.",
 ["schedules"], "all interleavings of several producers, consumers and a releaser",
 "There is no test of the queue at all apart from the pool's single run.",
 ["src/parallel/SimpleConcurrenceQueue.h"], [("mutex + condition variable protocol", "src/parallel/SimpleConcurrenceQueue.h")], [], ["call/return history, termination"])
prop("C17", "Status registry and per-thread status behave as documented",
 "Every built-in code has its information text and callback registered before any use of a status object, on every thread and however the status object was created; assigning a registered code to a status object sets that object (and no other) and then runs the code's callback exactly once. Registering a code makes its text and callback visible to every lookup, replaces an earlier registration of the same code, leaves other codes alone, and is never undone by later use of the library from this or another thread; lookups of unregistered codes return not-found, no callback and the placeholder text. The global status object is distinct per thread.",
 ["histories", "schedules"], "all sequences of registrations, assignments, moves and lookups over several threads",
 "The test registers one code on one thread and checks nothing about other threads or first use.",
 ["src/Status.cpp", "src/Status.h", "src/errInfos.cpp"], [("registry map, built-in registration", "src/Status.cpp"), ("thread_local instance", "src/Status.cpp")],
 [("registry", "code -> (info, callback)", "src/Status.cpp")], ["getInfo, getCallback, find, callback invocations"])
prop("C18", "Threads working on their own numbers or reading shared ones never interfere",
 "When threads operate on distinct numbers (even copies that share storage internally), or only perform const operations on shared numbers (including the first use of library tables, symbol lookups and status objects), every result equals that of the same operations run alone and no conflicting unsynchronised memory accesses occur, under every interleaving.",
 ["schedules"], "all interleavings of threads that copy, modify, convert, compare and print numbers sharing storage, and of first uses of lazily initialised tables",
 "No test uses numbers from several threads except peval on fresh values; data races rarely change the outcome of a single run.",
 [SL, IM, IMH, "src/Status.cpp", BI], [("reference-counted copy on write", SL), ("lazily cached digit index", IM), ("function-local static tables", IM)],
 [("use count of the shared limb vector", "decides whether a write may happen in place", SL), ("lazy index cache", "written by const functions", IM)], ["values read by each thread, happens-before between accesses"])
prop("C19", "Fraction arithmetic is exact and in lowest terms",
 "Every fraction built from integers n and d (d non-zero) and every sum, difference, product, quotient and reciprocal of fractions denotes exactly the mathematical rational, with numerator and denominator coprime and the denominator non-zero; toString shows the sign once followed by the absolute numerator and denominator in the requested radix. Building with, setting, or dividing by zero, and taking the reciprocal of zero, report divide-by-zero (status, and ok=false where an ok flag is taken) and leave no fraction with a zero denominator from reciprocal or setDen.",
 ["inputs", "histories"], "all numerators and denominators of any size and sign, all operation sequences including setters",
 "The test checks a few small fractions.",
 ["src/Fraction.h", "src/algorithm.cpp"], [("gcd reduction after each operation", "src/Fraction.h")], [], ["getNum, getDen, toString, ok flag"])
prop("C20", "Decimal expansion of fractions is the truncated expansion",
 "For every fraction f and digit count n > 0, toDecimal(n) is the sign of f (only if f is negative), the integer part of |f|, a point, and exactly the first n decimal digits of the fractional part of |f| (truncated, with leading and trailing zeros kept); with n <= 0 it is the signed integer part alone.",
 ["inputs"], "all fractions of either sign (wherever the sign is stored) and all digit counts",
 "The test prints a few expansions of simple positive fractions.",
 ["src/Fraction.h"], [("toDecimal", "src/Fraction.h")], [], ["returned string"])
prop("C21", "The C binding computes exactly what the C++ API computes",
 "For every function of the C API and all arguments, the returned value, the resulting number, the ok flag and the status equal those of the corresponding C++ operation; creation from a bad string returns NULL. Handles are independent: copying copies the value, and an operation changes only its first argument, including when both arguments are the same handle. The status handle of a thread refers to that thread's status.",
 ["inputs", "histories"], "all C API functions over all operand values, aliasing, and threads",
 "The C example and test call a small part of the API with one or two values each.",
 ["c/src/pgbn.cpp", "c/src/pgbn.h"], [("thin wrappers over the implementation class", "c/src/pgbn.cpp")], [], ["results through C accessors"])
prop("C22", "Division by zero is always reported and never corrupts",
 "Dividing or taking a remainder by zero through any entry point (operators with either operand native or big, compound forms, expressions, fractions, C API) triggers the divide-by-zero status callback and, when that callback returns, the call returns, no other number changes, and the numbers involved remain valid and usable. The callback installed by default prints a message and ends the process with the code. No division by a non-zero value ever reports divide-by-zero.",
 ["inputs", "histories"], "all dividends, zero produced in any way, all entry points, any later operations",
 "The default callback terminates the process, so the tests never divide by zero.",
 [IM, "src/errInfos.cpp", "src/Fraction.h"], [("zero checks before division, status callback", IM)], [], ["registered callback invocations, values afterwards"])
prop("C23", "Shared window container behaves as a value sequence",
 "For every sequence of operations on a set of windows (append, prepend, front-extension, narrowing, growing, element writes after detaching, copies, moves, swaps), each window's visible element sequence equals that of a plain list given the same operations: growing exposes default elements only, detaching makes a window independent of its copies while preserving its contents, moved-from windows are empty and reusable, and equality of identity (weakEquals) implies equal contents.",
 ["histories"], "all operation sequences over several windows, all positions of the window inside its storage",
 "The test prints a few windows; which storage offset, spare capacity or sharing state an operation starts from decides its path.",
 [SL], [("window bounds arithmetic, cloneData", SL)], [("[lo, hi) window on a shared vector", "visible elements", SL)], ["count, iteration, operator[]"])
prop("C24", "gcd is the mathematical greatest common divisor",
 "For all non-negative integers x and y of any size, gcd(x, y) divides both, is divisible by every common divisor, equals the other when one is zero and is symmetric; it terminates and leaves its arguments unchanged.",
 ["inputs"], "all pairs of non-negative integers",
 "gcd is tested only indirectly through a few fractions.",
 ["src/algorithm.cpp"], [("Euclid's algorithm", "src/algorithm.cpp")], [], ["returned value"])
prop("C25", "Registered constants and functions are called exactly as written",
 "A constant or function registered in the symbol table is visible to every later evaluation under exactly its name, a later registration under the same name replaces it, and other names are unaffected; a name registered as neither a constant nor a function is an error to use. A call evaluates each argument, passes their values in order to the function exactly once, and its result is used as the value of the call; a call whose argument count differs from a declared fixed count is reported as an error status without calling the function, while a function declared with a dynamic argument list accepts any count including zero.",
 ["programs", "histories"], "all names, argument counts, nestings and registration orders",
 "The tests register a few functions and call each with the right number of arguments.",
 ["src/infixExpr/SymbolTable.h", "src/infixExpr/ObjectManager.h", "src/infixExpr/ExprTree.cpp", "src/infixExpr/Token.h"], [("symbol lookup in the tokenizer", "src/infixExpr/Token.h"), ("builtinFuncEvalCallback", "src/infixExpr/ExprTree.cpp")], [], ["recorded calls, value, status"])
prop("C26", "Memory is never misused and always released",
 "For every sequence of API operations (construction, copying, moving, arithmetic, parsing with and without errors, import and export, expression evaluation with and without errors, parallel evaluation, fractions and the C binding), the library performs no out-of-bounds, uninitialised, use-after-free or double-free access, and destroying all objects releases all memory the operations allocated.",
 ["histories"], "all operation histories",
 "The tests run without memory checking and on few histories; most misuse is silent.",
 [SL, IM, BI, "src/eval.cpp", "src/streams/StringReadStream.h", "c/src/pgbn.cpp"], [("shared_ptr/unique_ptr ownership, window bounds", SL)], [], ["address/undefined sanitizer, live allocation count"])
prop("C27", "Character stream delivers exactly the given characters",
 "A read stream over a C string or a std::string (copied or referenced) yields exactly its characters in order through any interleaving of peek, get, tell and eof: peek does not advance, get advances by one until the end, at the end both return 0 without moving, tell counts consumed characters, and eof holds exactly at the end. A copying stream is unaffected by later changes to the source, and moving a stream transfers its position.",
 ["histories", "inputs"], "all strings and all sequences of stream operations including moves",
 "The stream is only exercised through the tokenizer on well-formed input.",
 ["src/streams/StringReadStream.h"], [("cursor over [begin, end)", "src/streams/StringReadStream.h")], [], ["returned characters and positions"])

prop("C28", "Text formatting shows exactly the arguments named by the placeholders",
 "pgfmt::format returns the pattern with each placeholder {n} or {n:limits} replaced by the text of argument number n and everything else copied verbatim, and formatAppend appends exactly that text to its target. Arguments may be named in any order, repeated with different limits or left unused; a placeholder without such an argument shows nothing, an unclosed brace is ordinary text, and argument text is never expanded again. Integers, reals, strings and C strings of any size appear as the printf conversion of their type with the given flags, width and precision; booleans, characters, pairs and containers appear as true/false, the character, \"a : b\" and \"[a, b, ...]\".",
 ["inputs"], "all patterns, argument types and values, widths and precisions",
 "The examples print a handful of short patterns; wide fields, long or empty arguments, unordered placeholders and large reals are never checked.",
 ["src/pgdebug.h"], [("placeholder parsing and transToString", "src/pgdebug.h")], [], ["returned text"])

prop("C29", "The literal conversion hook decides every literal's value",
 "While tokenizing an expression, the calling thread's literal conversion hook runs exactly once per literal, in source order, with the literal's radix, its digits before and after the point (letters in lower case, prefix removed) and a zero value to fill; the value it stores is the literal's value in every operator, call and branch, under eval and peval alike. When it refuses a literal, or there is no hook, the expression is reported as an error and nothing is evaluated. Replacing the hook takes effect from the next evaluation and never affects other threads, which start with the default hook: the exact integer part in the given radix.",
 ["inputs", "histories"], "all literal spellings, expressions and hook replacement histories",
 "No test installs a hook; the tokenizer test prints tokens of a few well-formed literals.",
 ["src/infixExpr/fwd.h", "src/infixExpr/fwd.cpp", "src/infixExpr/Token.h"], [("literal branch of tokenizer", "src/infixExpr/Token.h"), ("Hooks::getInstance", "src/infixExpr/fwd.cpp")], [], ["recorded hook arguments, value, status"])

prop("C30", "Results do not depend on the debug checks being compiled in",
 "Compiled without the debug checks (no PGBN_DEBUG, the build the README describes) and optimised, the library gives exactly the values, strings, statuses, callbacks and calls that the other properties state for arithmetic, conversions, expression evaluation, parallel evaluation, fractions, status objects, windows, streams, formatting and the C binding: no check has an effect the library relies on, and no result depends on an undefined operation that only the checked build gets right.",
 ["inputs", "histories"], "all inputs and histories of the other properties, in the unchecked build",
 "The tests are built with the debug checks on, so an effect inside a check, or code that only works when not optimised, passes all of them.",
 ["src/pgfwd.h", "src/pgdebug.h", IM, BI, SL, "src/infixExpr/ExprParser.cpp", "src/infixExpr/ExprTree.cpp", "src/parallel/ThreadPool.h"], [("PGZXB_DEBUG_ASSERT and the other debug macros", "src/pgfwd.h"), ("debug-only code", "src/pgdebug.h")], [], ["returned values, statuses and strings of the unchecked build"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), max(len(p["title"]) for p in P))
