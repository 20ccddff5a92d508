#!/usr/bin/env python3
"""Single source of the property texts: writes properties.jsonl, checks.json and MANIFEST.json.
Run by hand after editing this file; no check runs it."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "DotNetLibrary/src/"
I = "DotNetLibrary/include/"
P = []


def prop(id, title, statement, over, text, why, files, mech, rule, technique, note, assumptions=(), flags=None, sources=None, link=None, observe=(), state=(), sanitizer=None):
    P.append(dict(sanitizer=sanitizer, id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, rule=rule,
                  technique=technique, note=note, assumptions=list(assumptions), flags=flags, sources=sources, link=link,
                  observe=list(observe), state=list(state)))


SAN = "Every execution runs under AddressSanitizer and UndefinedBehaviorSanitizer with pattern-initialised stack variables; the listed oracle decides each observed result."
NOTE = "Every execution observed was checked by an independent oracle; nothing is claimed for inputs that were not generated. Trusts clang's sanitizers, the C library and the reference model in the harness."
MON = "online monitor against an independent reference model, under ASan+UBSan"

prop("C01", "Arrays are bounds-checked, zeroed, row-major stores of independent elements",
     "A new array of any element type and of one, two or three dimensions has exactly the requested dimensions, all elements zero, and its elements laid out row by row without overlapping. Every index tuple inside the dimensions reaches its own element and no other; every access with an index outside raises IndexOutOfRangeException and touches nothing. Negative dimensions, and shapes whose element count exceeds 2^31-1, are refused.",
     ["inputs", "histories"], "all element types; ranks 1-3; every shape up to small sizes with every index tuple in and around it; random larger shapes and histories of element writes; shapes of up to 2^31-1 elements over reserved memory",
     "ArrayTests use a handful of fixed shapes and indexes; a wrong stride or bound check shows only for particular unequal dimension lengths or indexes.",
     [L + "Array.cpp", I + "Array.h"], [("index check and row-major offset", "Array::Address"), ("construction and zeroing", "Array constructors, SetupArray")],
     "A case is one shape (with every index tuple in and around it), one history of writes over one shape, or one refused size; a case is non-trivial unless the array is empty. Distinct = distinct case text.",
     MON + "; exhaustive index sweep of small shapes", NOTE)
prop("C02", "Clear, Copy, CopyTo and IndexOf act on exactly the stated element range",
     "Array.Clear, Copy, CopyTo and IndexOf read and write exactly the stated elements: Copy behaves as if the source range were read completely first, also when source and destination ranges overlap in one array. A negative or out-of-array range, a null array or one of an unsuitable rank is refused without changing any element. IndexOf over an array of objects or strings returns the first equal element in the range, or -1.",
     ["inputs"], "all element types, array sizes 0-20, around powers of two up to 70000 and beyond 2^31 bytes, views over shared memory, all index and count values in and around the array including the Int32 extremes, overlapping and disjoint ranges, ranks 1-3",
     "Tests copy one or two fixed ranges; overlap direction, empty ranges at the end and overflow of index+count are not sampled.",
     [L + "Array.cpp"], [("range checks", "Array::Clear, Array::Copy, Array::CopyTo, Array::IndexOf"), ("overlapping move", "Array::Copy")],
     "A case is one call with its arrays, indexes and counts; non-trivial when the arrays involved are not empty.",
     MON + "; whole array image compared after every call", NOTE)
prop("C03", "Boxed element access is faithful; arrays over caller memory are live views",
     "Storing a boxed value into an element and reading it back yields the same value and type for every element type; integers narrow to the element's low bits, floating values within the element's range lose their fraction, and boxes that cannot convert are refused with the array unchanged. An array built over memory supplied by the caller uses exactly that memory: writes are visible both ways, nothing outside it is touched, and destroying the array neither frees nor changes it.",
     ["inputs", "histories"], "all element types, ranks 1-3, index given directly or by index array, boundary and random values; memory on the heap and on the stack with guard bytes",
     "Tests set and get one value per type; ownership of caller memory and misuse of index arrays is not exercised.",
     [L + "Array.cpp"], [("boxed access", "Array::GetValue / SetValue"), ("ownership of storage", "Array(void*, ...) constructor, ~Array")],
     "A case is one boxed read or write, one conversion of a held value into an element type, or one view over caller memory; all are non-trivial.",
     MON + "; guard bytes and ASan redzones around caller memory", NOTE)
prop("C04", "The byte view of arrays addresses exactly the array's bytes",
     "Buffer.ByteLength, GetByte and SetByte address the bytes of a one-dimensional array of numbers, characters or booleans in storage order, and refuse any index outside. Buffer.BlockCopy moves exactly the requested bytes, correct also for overlapping ranges within one array or in memory two arrays share, and refuses ranges that leave either array, changing nothing. Null, object, string and multi-dimensional arrays are refused.",
     ["inputs"], "all primitive element types and all pairs of types, byte offsets and counts in and around the arrays including the Int32 extremes",
     "BufferTests copy a few fixed ranges between arrays of one type.",
     [L + "Buffer.cpp"], [("byte range checks", "Buffer::BlockCopy, GetByte, SetByte, ByteLength")],
     "A case is one byte-view sweep of one array or one block copy; non-trivial when the arrays have bytes.",
     MON + "; whole array image compared after every call", NOTE)
prop("C05", "BitConverter maps values to bytes and back without loss, inside bounds",
     "BitConverter.GetBytes of any value gives its little-endian bytes, and the To* conversions at any valid offset give back the value whose bytes are there, bit for bit, leaving the array unchanged. Decoding that would read outside the array, or from null, is refused. BitConverter.ToString gives the upper-case hexadecimal pairs of exactly the requested range, joined by dashes.",
     ["inputs"], "all nine value types over boundary and random values (all floating bit patterns including NaN), byte arrays of 0-40 bytes, longer ones to tens of thousands and beyond 2^31, all offsets and ranges in and around them",
     "BitConverterTests convert one or two values per type from offset 0.",
     [L + "BitConverter.cpp"], [("encode/decode", "BitConverter::GetBytes, To*"), ("range check", "BitConverter::To*, ToString")],
     "A case is one value encoded in every type, one decode offset (all types) or one hex rendering; non-trivial when the array has bytes.",
     MON, NOTE)
prop("C06", "Strings are immutable, terminated, bounds-checked character sequences",
     "A string constructed from characters, a character array range, a wide C string, another string or a repeated character holds exactly the requested characters, followed by a terminator, with the right length. Its characters never change afterwards, whatever operations are applied to it or to any string, and the shared empty string stays empty. Access to a character outside raises IndexOutOfRangeException and constructions from invalid ranges are refused.",
     ["inputs", "histories"], "texts of up to tens of thousands of characters over ASCII and non-ASCII letters (embedded NUL characters included), all ranges in and around them; histories of up to hundreds of mixed operations whose results feed back as operands",
     "StringTests check single calls on short literals and never look at the operands again.",
     [L + "StringDotNet.cpp", I + "StringDotNet.h"], [("construction and copy", "String constructors, String::Setup"), ("bounds check", "String::get_Chars")],
     "A case is one construction or one operation history; non-trivial when the text is not empty.",
     MON + "; every string of a history re-read after every operation", NOTE)
prop("C07", "String searches return exactly the first or last position in the range",
     "IndexOf, LastIndexOf, IndexOfAny, LastIndexOfAny, Contains, StartsWith and EndsWith give the same answer as a plain scan of the requested range of the string: the first (or last) position at which the character, one of the characters, or the whole text occurs inside that range, or -1. Start and count values that do not lie in the string, and null arguments, are refused. Nothing is changed by a search.",
     ["inputs"], "all pairs of texts up to a small length over two letters with all start and count values in and around; random longer and repetitive texts; an empty text searched backwards is left open",
     "Tests look for one word in one sentence; partial and overlapping matches at range borders are not sampled.",
     [L + "StringDotNet.cpp"], [("search loops and range checks", "String::IndexOf, LastIndexOf, IndexOfAny, LastIndexOfAny, Contains, StartsWith, EndsWith")],
     "A case is one text pair (or character set) with one start/count; all overloads run on it. Non-trivial when the searched text is not empty.",
     MON + "; exhaustive over short texts", NOTE)
prop("C08", "String comparison is a consistent total order and equality is content equality",
     "Ordinal comparison orders texts by character code; case-insensitive comparison is the order of the case-folded texts; the default comparison is a total order that is zero only for equal texts, sorts lower case before upper case of the same letter, and otherwise follows the letters; null sorts before every text. All forms are antisymmetric, transitive and agree with each other, and all equality and inequality forms mean equal content. Comparing ranges depends only on the characters inside the ranges, clipped to the strings, and invalid ranges are refused.",
     ["inputs"], "all pairs of short texts over a small mixed-case alphabet, random triples (related by prefix, case change, single edits) over ASCII and other characters; all range arguments in and around",
     "Tests compare fixed pairs and cannot show antisymmetry or transitivity.",
     [L + "StringDotNet.cpp"], [("comparison", "String::Compare, CompareOrdinal, CompareTo"), ("equality", "String::Equals, op_Equality")],
     "A case is one pair (enumerated) or one triple with ranges (random); non-trivial when two texts are not empty.",
     MON + "; order laws checked on triples", NOTE)
prop("C09", "String transformations give exactly the specified text and leave operands alone",
     "Substring, Insert, Remove, Replace, PadLeft, PadRight, Trim, TrimStart, TrimEnd, ToUpper, ToLower, Concat, Join, Copy, CopyTo, ToCharArray, IsNullOrEmpty and IsNullOrWhiteSpace give exactly the .NET result for every argument (case mapping being ASCII only), as a terminated text. Arguments outside the string, null where a text is required and arrays of the wrong kind are refused. Neither the operands nor any other string or array change.",
     ["inputs"], "texts up to tens of thousands of characters over a small repetitive alphabet with white space and non-ASCII characters, all index arguments in and around, every code point of the BMP for trimming and case, arrays of strings and objects including nulls",
     "Tests check one or two examples per function.",
     [L + "StringDotNet.cpp"], [("transformations", "String::Substring ... Join"), ("assembly of results", "StringBuilder")],
     "A case is one text triple with argument set (every transformation runs on it), one code point, or one join; non-trivial when the text is not empty.",
     MON + "; exhaustive over the BMP for trimming and case", NOTE)
prop("C10", "A StringBuilder always holds the text that a plain sequence model gives",
     "After any history of appends (of every supported type), inserts, removals, replacements, length and capacity changes, the builder's text, length and characters are those a plain character sequence would have, and successful operations return the builder itself. Length never exceeds capacity and capacity never exceeds the maximum capacity; an operation with invalid arguments, or one that would exceed the maximum, is refused and leaves the text as it was. Two builders are equal exactly when text, capacity and maximum agree; operands never change.",
     ["histories", "inputs"], "histories of up to hundreds of operations over all overloads, builders with and without a small maximum capacity, lengths crossing every growth boundary up to hundreds of thousands",
     "Tests run one or two operations on a fresh builder; growth from internal to allocated storage in the middle of an operation is not sampled.",
     [L + "StringBuilder.cpp", I + "StringBuilder.h"], [("room and growth", "StringBuilder::EnsureRoomFor, EnsureCapacity, set_Capacity"), ("editing", "Append, Insert, Remove, Replace, set_Length")],
     "A case is one operation history; all are non-trivial.",
     MON + "; model-based histories", NOTE,
     ["arguments at the Int32 extremes are used for refusals, but no builder of more than some thousand characters is grown"])
prop("C11", "An enumerator yields every character of its string once, in order",
     "An enumerator over a string starts before the first character, moves forward one character at a time, answers false from the end on, and starts over on Reset. Its current character is the one at its position, and asking for it before the first or after the last character raises InvalidOperationException. Any number of enumerators over the same or different strings move independently and change nothing.",
     ["histories"], "random interleavings of MoveNext, Reset and get_Current over several enumerators; strings of up to tens of thousands of characters",
     "The test walks one enumerator once.",
     [L + "CharEnumerator.cpp", I + "CharEnumerator.h"], [("position", "CharEnumerator::MoveNext, Reset, get_Current")],
     "A case is one interleaved history over several enumerators; non-trivial when a string is not empty.",
     MON, NOTE)
prop("C12", "Integer text is exact: formatting and parsing are inverse and ranges are kept",
     "For the eight integer types the formatted text is the exact decimal value. Parse accepts exactly optional white space, optional sign, digits, optional white space, gives the exact value, and raises FormatException for other text and OverflowException for values outside the type (a negative non-zero number for an unsigned type included). TryParse succeeds exactly when Parse does, with the same value, gives 0 otherwise, and never raises.",
     ["inputs"], "every 8-bit and 16-bit value; boundary and random 32- and 64-bit values; generated valid, out-of-range and malformed texts of up to 200,000 characters including leading zeros, inner spaces and characters that only look like digits or signs when narrowed",
     "Tests parse a few numbers per type; the overflow border of each type is not swept.",
     [L + "Int32Value.cpp", L + "Int64Value.cpp", L + "UInt64Value.cpp", L + "SByteValue.cpp", "PlatformSupport/PlatformSupport.cpp"], [("parsing", "*Value::TryParse, Parse"), ("formatting", "*Value::FormatString")],
     "A case is one value of one type (formatted, parsed back) or one text parsed by one type; non-trivial when the text is not empty.",
     MON + "; exhaustive for 8/16-bit types, 128-bit reference parser", NOTE)
prop("C13", "Boxed numbers: numeric casts, numeric order, equality by type and value",
     "Every boxed number, character and Boolean converts to a numeric type exactly as an unchecked numeric cast of its value, and to Boolean as non-zero; the few pairs for which no conversion is offered (floating to Boolean, Char or 8 bits, Boolean to floating or Char, Char to Boolean) raise InvalidCastException. CompareTo, typed or boxed, gives numeric order within one type, null being smaller than every value, and refuses other types. Equality means same type and same value.",
     ["inputs"], "all boxed primitive types against all accessors; enumerated boundary values and random values; floating to integer conversion only where the value is in range",
     "Tests convert one small value per accessor; truncation and sign extension border values are not sampled.",
     [L + "Int32Value.cpp", L + "UInt64Value.cpp", L + "DoubleValue.cpp", I + "ValueType.h"], [("accessors", "*Value::get_As*"), ("comparison", "*Value::CompareTo, Equals")],
     "A case is one pair of boxed values (all accessors, comparisons and equalities run on it); all are non-trivial.",
     MON, NOTE)
prop("C14", "Floating text: parsing is correctly rounded and formatted text parses back",
     "Double and Single Parse accept exactly decimal notation (optional white space, sign, digits with an optional point, optional exponent) and give the correctly rounded value; other text raises FormatException. TryParse succeeds exactly when Parse does, with the same value, gives 0 otherwise, and never raises. Formatting a finite value gives decimal notation with the right sign, within six significant digits of the value, and whole numbers below a million are written out exactly.",
     ["inputs"], "random values over all exponents, generated texts (mantissas of up to 70,000 digits, half-way cases decided by their last digit, extreme exponents, malformed), every text up to five characters over the number alphabet; hexadecimal notation; whether infinity/NaN words, group separators and exponents beyond the type are accepted is left open, but Parse and TryParse agree there too",
     "Tests parse a few short decimals.",
     [L + "DoubleValue.cpp", L + "SingleValue.cpp", "PlatformSupport/PlatformSupport.cpp"], [("parsing", "DoubleValue::TryParse, SingleValue::TryParse"), ("formatting", "DoubleValue::FormatString, SingleValue::FormatString")],
     "A case is one value formatted and parsed back or one text parsed; non-trivial when the text is not empty.",
     MON + "; correctly rounded reference conversion", NOTE, ["glibc strtod/strtof round correctly"])
prop("C15", "Floating classification follows IEEE 754; order is total with NaN first",
     "For every Double and Single bit pattern the classification functions (NaN, infinities, finite, negative, normal, subnormal) follow the IEEE 754 encoding, and the bit conversions are lossless. Comparison is a total order: NaN equals NaN and sorts before every number, positive and negative zero are equal, all other values sort numerically. Equality agrees with comparison, typed and boxed.",
     ["inputs"], "every exponent with boundary mantissas and both signs, random bit patterns, a strided sweep of all 2^32 single precision patterns (complete in the thorough tier)",
     "Tests classify a handful of constants.",
     [L + "DoubleValue.cpp", L + "SingleValue.cpp"], [("classification", "DoubleValue::Is*, SingleValue::Is*"), ("order", "CompareTo, Equals")],
     "A case is one bit pattern (enumerated) or one triple of values; all are non-trivial.",
     MON + "; exhaustive over single precision in the thorough tier", NOTE)
prop("C16", "Integer math helpers are exact over the whole range of their type",
     "Math.Abs, Sign, Min, Max, Clamp, DivRem, Divide and BigMul on integers give the exact mathematical result for every argument of every integer overload. Division by zero raises DivideByZeroException, a result outside the type raises OverflowException, and clamping to an empty range is refused. No argument leads to undefined behaviour.",
     ["inputs"], "every pair of 8-bit values, all 16-bit values against boundary values, boundary and random 32- and 64-bit values",
     "MathTests use small positive examples.",
     [L + "DotNetMath.cpp", I + "DotNetMath.h"], [("integer helpers", "Math::Abs, Sign, Min, Max, Clamp, DivRem, Divide, BigMul")],
     "A case is one argument tuple; every integer overload whose type holds it runs on it; all are non-trivial.",
     MON + "; 128-bit reference arithmetic, exhaustive for 8-bit pairs", NOTE)
prop("C17", "Floating math helpers are accurate and follow IEEE 754 for special values",
     "Math's exact operations (Abs, Sign, Min, Max, Clamp, Floor, Ceiling, Truncate, Round, IEEERemainder, CopySign, ScaleB, ILogB, BitIncrement, BitDecrement, FusedMultiplyAdd, Sqrt, Divide) give the correctly rounded result, and the elementary functions are accurate to a few units in the last place, for all finite and special arguments. Rounding to a number of digits follows the midpoint mode, and digit counts or modes outside the range are refused. Math.PI and Math.E have full precision.",
     ["inputs"], "all special values crossed with each other, every exponent, random bit patterns, values near integers and midpoints, all digit counts and modes",
     "MathTests compare a few values with a coarse tolerance.",
     [L + "DotNetMath.cpp"], [("floating helpers", "Math::*")],
     "A case is one argument or argument tuple (every function of that arity runs on it) or one rounding request; all are non-trivial.",
     MON + "; long double and libm reference", NOTE, ["the C library's long double functions are accurate to a few ulp of double"])
prop("C18", "Date and time parts and ticks are in exact one-to-one correspondence",
     "For every day from 1/1/0001 to 12/31/9999 and every time of day, the year, month, day, day of year, day of week, hour, minute, second, millisecond, date and time of day of a DateTime are those of the proleptic Gregorian calendar, and building a DateTime from those parts gives the same ticks. IsLeapYear and DaysInMonth follow the calendar. Parts or tick counts that do not exist, including negative ones, raise ArgumentOutOfRangeException.",
     ["inputs"], "every one of the 3,652,059 days, every second (every millisecond in the thorough tier) of a day, boundary and random invalid parts",
     "Tests check a few fixed dates; leap century, year-end and range border days are not swept.",
     [L + "DateTimeValue.cpp", I + "DateTimeValue.h"], [("calendar arithmetic", "DateTimeValue::GetDatePart, DateToTicks, TimeToTicks")],
     "A case is one day (enumerated, with a time of day), one time of day, or one set of parts; all are non-trivial.",
     MON + "; exhaustive over all calendar days", NOTE)
prop("C19", "DateTime arithmetic is exact in ticks, keeps the range, and changes no operand",
     "Adding or subtracting ticks and time spans, differences, and all comparisons of DateTime values agree with exact integer arithmetic on ticks; AddMonths and AddYears keep the day of month, limited to the length of the target month, and the time of day; AddDays to AddMilliseconds of fractional amounts round to the nearest millisecond (halves away from zero). A result outside 1/1/0001 to 12/31/9999 raises ArgumentOutOfRangeException and a NaN amount is refused. Operands never change.",
     ["inputs"], "boundary and random dates with boundary and random spans, months, years and fractional amounts of every magnitude",
     "Tests add a few small amounts to one date; borders of the range and month-length clipping are not swept.",
     [L + "DateTimeValue.cpp"], [("arithmetic", "DateTimeValue::Add*, Subtract, op_*"), ("comparison", "DateTimeValue::Compare, CompareTo, Equals")],
     "A case is one date with one amount, or one pair of dates; all are non-trivial.",
     MON + "; 128-bit reference arithmetic", NOTE)
prop("C20", "Clock readings and zone conversion follow the system clock and time zone",
     "UtcNow gives the current universal time, Now the current local time and Today the current local date, in every time zone and at every instant, also when the clock moves while it is read. ToLocalTime and ToUniversalTime shift a time by the zone's offset in force now, undo each other, and refuse to leave the range of DateTime. IsDaylightSavingTime answers by the zone's rules away from its switches.",
     ["inputs", "fault_sequences", "configurations"], "fifteen zones (whole, half and quarter hour offsets, both hemispheres, across the date line), clock instants from 1970 to 2100 around day, month and year borders, a clock that advances on every reading or walks across switches and midnights in both directions; and the real clock",
     "Tests only look at the real clock in the sandbox's zone (UTC), where every offset is zero.",
     [L + "DateTimeValue.cpp", "PlatformSupport/PlatformSupport.cpp"], [("clock and offset", "DateTimeValue::get_Now, get_UtcNow, UtcOffset; PlatformSupport clock functions")],
     "A case is one zone, instant and clock step (or one conversion, or one reading of the real clock); all are non-trivial.",
     "interposed clock with fault injection; monitor against C library zone arithmetic, under ASan+UBSan", NOTE, ["the C library's tz database rules (POSIX TZ strings) are right"])
prop("C21", "TimeSpan agrees with exact 64-bit tick arithmetic and reports overflow",
     "Components, totals, construction, addition, subtraction, negation, duration, multiplication, division and comparisons of TimeSpan values agree with exact arithmetic on 64-bit ticks, Multiply and Divide rounding to the nearest tick (ties to even) and FromDays to FromMilliseconds truncating. A result outside the 64-bit range raises OverflowException and NaN is refused; building from parts outside the range is refused. Operands never change.",
     ["inputs"], "boundary and random tick counts over the whole 64-bit range, all pairs of boundary values, parts at the Int32 extremes, factors of every magnitude and special values",
     "Tests use spans of a few days; overflow in the middle of a computation is not sampled.",
     [L + "TimeSpanValue.cpp"], [("arithmetic and overflow checks", "TimeSpanValue::Add, Subtract, Negate, Duration, Multiply, From*")],
     "A case is one tick count, one set of parts, one pair or one scaling; all are non-trivial.",
     MON + "; 128-bit reference arithmetic", NOTE)
prop("C22", "TimeSpan and DateTime text follow the documented grammar and round-trip",
     "TimeSpan text is [-][d.]hh:mm:ss[.fffffff] with the exact components, and parsing it gives the same span back for every span. TimeSpan.Parse accepts exactly the documented forms with components in range, raises FormatException or OverflowException for everything else, and TryParse agrees with it without raising, giving zero on failure. DateTime text is month/day/year hour:minute:second AM/PM of exactly that date and time.",
     ["inputs"], "boundary and random spans over the whole range, texts generated from the grammar and mutated at every position, fields of up to tens of thousands of digits, every hour and boundary dates",
     "Tests format and parse a few fixed values.",
     [L + "TimeSpanValue.cpp", L + "DateTimeValue.cpp"], [("format", "TimeSpanValue::FormatString, DateTimeValue::FormatString"), ("parser", "TimeSpanValue::Parse, TryParse")],
     "A case is one span formatted and parsed back, one text parsed, or one date formatted; non-trivial when the text has more than one character.",
     MON + "; independent grammar recogniser", NOTE)
prop("C23", "Character classification, case, parsing and comparison agree for every character",
     "For every 16-bit character each classification predicate, the numeric value and the case mapping give the ASCII (C locale) answer, surrogates by their ranges, and the form taking a string and index gives the same answer for the character there, refusing indexes outside. A character's text is that one character, and parsing accepts exactly one-character texts. Comparison is code order and equality is same code.",
     ["inputs"], "all 65,536 characters through every function; random strings and indexes in and around; pairs of characters",
     "Tests check a few letters.",
     [L + "CharValue.cpp"], [("classification", "CharValue::Is*"), ("parsing and text", "CharValue::Parse, TryParse, FormatString")],
     "A case is one character (enumerated), one string with index, or one pair; all are non-trivial.",
     MON + "; exhaustive over all characters", NOTE)
prop("C24", "Object equality is an equivalence; unboxing refuses what it cannot convert",
     "Equality of any two objects (boxed values of every type, strings, plain objects, null) never raises, is reflexive, symmetric and transitive, and is the same in its static and instance forms. Asking an object for a value it cannot convert to raises InvalidCastException, and its text is the same through ToString and formatting. Boolean text is True or False, and parsing accepts exactly these words in any case and round-trips.",
     ["inputs"], "all pairs and triples over boxed values of all types, equal and unequal values, strings, objects, exceptions and null; all accessors; all case variants and mutations of the two words",
     "Tests compare two values of one type at a time.",
     [L + "Object.cpp", L + "BooleanValue.cpp", I + "Object.h", I + "Exception.h"], [("protocol", "Object::Equals, get_As*, ToString"), ("Boolean text", "BooleanValue::Parse, TryParse, FormatString")],
     "A case is one triple of objects, one object with all accessors, or one text; all are non-trivial.",
     MON + "; equivalence laws checked on triples", NOTE)
prop("C25", "Formatting into a caller's buffer never writes outside it",
     "Formatting any object into a buffer of any size writes only inside that buffer. When the text fits, it is written completely and terminated and its length is returned; when it does not fit, the call either refuses or leaves a terminated prefix of the text and returns the length of that prefix.",
     ["inputs"], "every kind of formattable object with boundary and random values, every buffer size from 0 to past the text's length, texts of up to 200,000 characters, exact heap buffers under AddressSanitizer",
     "Tests always pass a large buffer.",
     ["PlatformSupport/PlatformSupport.cpp", L + "Object.cpp", L + "DateTimeValue.cpp", L + "TimeSpanValue.cpp"], [("bounded copy", "*Value::FormatString, CopyChars")],
     "A case is one object with one buffer size; all are non-trivial.",
     MON + "; guard words after the buffer", NOTE)
prop("C26", "The memory pool hands out disjoint, aligned blocks and refuses what cannot fit",
     "Between two set-ups of the memory pool every allocation that succeeds lies inside the pool, is aligned for every type, is zeroed, keeps its contents afterwards and overlaps no other allocation made since the set-up, deletions included. An allocation that does not fit in what is left is refused with a null pointer, whatever its size, and does not disturb later ones. Setting the pool up again makes the whole pool available again, for any number of set-ups; before the first set-up allocations come from the heap.",
     ["histories", "inputs"], "histories of set-ups, allocations of sizes from 0 to beyond 2^32, object and array forms, deletions and refills, tens of thousands of set-ups, refusals and deletions in a row, run in separate processes",
     "The tests never exhaust the pool and never look at the blocks it hands out.",
     ["PlatformSupport/PlatformSupport.cpp", "PlatformSupport/PlatformSupport.h"], [("pool allocator", "my_operator_new_replacement, my_operator_delete_replacement"), ("recycling", "PlatformMemorySetup, PlatformSetup")],
     "A case is one history in a forked child; all are non-trivial.",
     "allocation-log monitor in forked children, under ASan+UBSan", NOTE)
prop("C27", "Running a program on the target recycles memory and reports messages faithfully",
     "Each run of a program starts with the whole memory pool, executes it once, and delivers the messages it sends in order and unchanged. A program that ends by raising a library exception has that exception's message reported exactly once, after its own messages, and the next run is unaffected, for any number of runs. Platform data read during a run is live.",
     ["histories", "programs"], "sequences of runs of generated programs that allocate, build text, send ASCII messages and end normally or with any library exception (with and without message and inner exceptions); tens of thousands of runs in one process and of messages in one run",
     "Tests run one program once.",
     ["DotNetLibrarySupport/DotNetLibrarySupport.cpp", "PlatformSupport/PlatformSupport.cpp"], [("run wrapper", "TranslatorSupport::Run"), ("messages", "TranslatorSupport::Send"), ("platform data", "DataAccess::get_ArrayData, get_DoubleData")],
     "A case is one sequence of runs in a forked child; all are non-trivial.",
     "event-log monitor over forked children, under ASan+UBSan", NOTE)
prop("C28", "A refused operation raises a library exception and has changed nothing",
     "Whenever an operation on strings, builders, arrays, byte views, enumerators, boxed values, dates or spans is refused, what is raised is one of the library's exceptions with a stable message that names its kind, and every object existing at that moment has the state it had before. Exceptions constructed with a message and an inner exception keep both, GetBaseException is the innermost one, and raising one does not change it.",
     ["histories", "inputs"], "random histories over the whole API with deliberately bad arguments; every live object (boxed values, builder capacities, enumerators and surrounding memory included) observed before and after every refusal; chains of up to thousands of exceptions",
     "Tests check the exception type of one bad call and never the state afterwards.",
     ["DotNetLibrary", I + "Exception.h"], [("argument checks before effects", "all public operations"), ("exceptions", "Exception.h")],
     "A case is one step of a random history; distinct = distinct history prefix; all are non-trivial.",
     "state-snapshot monitor over random API histories, under ASan+UBSan", NOTE)
prop("C29", "Objects release exactly what they allocated; operations leave no garbage",
     "Destroying a string, builder, array, enumerator or boxed value releases all storage it allocated and nothing else; a string or array made over the caller's memory leaves that memory alone. Operations allocate nothing that outlives them except the result they hand to the caller. This holds whatever history the object has had.",
     ["histories", "inputs"], "random operations, refused operations and histories on each kind of object, and pieces of work over the whole API, with every allocation and release recorded; sizes crossing every internal buffer boundary; raised exceptions and the text objects make of themselves for a builder are outside",
     "Tests never count allocations.",
     [L + "StringDotNet.cpp", L + "StringBuilder.cpp", L + "Array.cpp"], [("ownership", "destructors of String, StringBuilder, Array; String::IsAllocated")],
     "A case is one object history with every allocation and release counted; all are non-trivial.",
     "allocation accounting through the sanitizer's malloc/free hooks, under ASan+UBSan", NOTE)
prop("C30", "Operations affect only their target, and the same history gives the same results",
     "An operation changes at most the object it is applied to: every other string, array, builder, enumerator, boxed value and constant keeps its observable state. The result of a history of operations depends only on that history: not on where objects lie in memory, what was in that memory before, or what other objects exist.",
     ["histories"], "random histories over the whole API with every live object observed before and after each step; the same history run on twin object sets at different addresses with different garbage on heap and stack; the same self-contained calls over the whole API repeated in other orders and as the first call of a fresh process",
     "Tests work with one or two objects and never compare runs.",
     ["DotNetLibrary"], [("absence of shared mutable state and of uninitialised reads", "all public operations")],
     "A case is one step of a random history; distinct = distinct history prefix; all are non-trivial.",
     "twin-execution and non-interference monitor over random API histories, under ASan+UBSan", NOTE)

prop("C31", "Independent work may run in several threads at once",
     "Operations that run at the same time in different threads, each on objects of its own or only reading shared ones, give the results they give alone, and no two of them access the same memory without synchronisation. This includes parsing, formatting, clock readings and zone conversion; it is promised while the target's memory pool is not in use and the process's time zone setting is left alone.",
     ["schedules", "histories"], "2-4 threads started together, running the same, the same kinds of, or different calls over the whole API, histories over object worlds of their own, reads of shared objects, and clock and zone calls in several zones; many short rounds in many fresh processes",
     "The tests run in one thread; a hidden shared buffer or cache is right every time there.",
     ["DotNetLibrary"], [("absence of hidden shared mutable state", "all public operations"), ("clock and zone", "DateTimeValue::GetTimeZone, get_Now, get_UtcNow")],
     "A case is one round of threads with their lists of calls or histories; all are non-trivial. Distinct = distinct case text. Events count the operations compared, the pairs that really overlapped in time, and the distinct schedules.",
     "ThreadSanitizer over concurrent workloads, and comparison of every result with the same work done alone", "Every execution observed was free of data races and gave the sequential results; nothing is claimed for schedules that did not happen. Trusts ThreadSanitizer and the C library.",
     sanitizer="thread")

NA = [
    ("T01", "Translated C++ behaves as the C# program it was made from",
     "For every C# program in the supported subset, the C++ program that the translator produces, compiled with the library, behaves as the C# program does under .NET.",
     ["programs"], "all programs of the supported subset", "The translator's tests compare the text produced for a few fixed fragments.",
     ["CppTranslator"], [("translation", "CppTranslator visitors")],
     "The translator is a C# program; no .NET runtime or C# compiler (dotnet, mono, csc) is installed and none can be fetched, so it can be neither built nor run here. Runtime monitoring needs executions."),
    ("T02", "The translator reports what it cannot translate instead of producing wrong code",
     "Source constructs outside the supported subset are reported to the user, and everything not reported is translated to C++ that compiles.",
     ["programs"], "all C# programs", "Tests translate a few supported fragments.",
     ["CppTranslator"], [("diagnostics", "CppTranslator visitors")],
     "Needs executions of the C# translator; no .NET runtime is installed here (see T01)."),
    ("T03", "Header, source and project files produced together are consistent",
     "The header and source files the translator writes for one program declare and define each type and member once, in an order in which every use follows its declaration.",
     ["programs"], "all programs of the supported subset", "Tests look at one type at a time.",
     ["CppTranslator", "CppTranslatorSupport"], [("file layout", "CppTranslator formatters")],
     "Needs executions of the C# translator; no .NET runtime is installed here (see T01)."),
]


def pj(id, title, st, over, text, why, files, mech, observe=(), state=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = list(observe)
    if state:
        a["state"] = list(state)
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    return {"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}


with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(pj(p["id"], p["title"], p["statement"], p["over"], p["text"], p["why"], p["files"], p["mech"], p["observe"], p["state"])) + "\n")
    for n in NA:
        f.write(json.dumps(pj(*n[:8])) + "\n")
checks = []
for p in P:
    c = {"id": p["id"], "sources": p["sources"] or [p["id"].lower() + ".cpp"], "rule": p["rule"], "assumptions": p["assumptions"]}
    if p["sanitizer"]:
        c["sanitizer"] = p["sanitizer"]
    if p["flags"]:
        c["flags"] = p["flags"]
    if p["link"]:
        c["link"] = p["link"]
    checks.append(c)
old = {c["id"]: c for c in json.load(open(os.path.join(HERE, "checks.json")))} if os.path.exists(os.path.join(HERE, "checks.json")) else {}
for c in checks:
    o = old.get(c["id"], {})
    for k in ("flags", "link", "env", "scale"):
        if k in o and k not in c:
            c[k] = o[k]
    if "sources" in o and not [p for p in P if p["id"] == c["id"]][0]["sources"]:
        c["sources"] = o["sources"]
json.dump(checks, open(os.path.join(HERE, "checks.json"), "w"), indent=1)
open(os.path.join(HERE, "checks.json"), "a").write("\n")
man = {"version": 1, "setup_cmd": "python3 run_check.py --build-all", "checks": [], "not_applicable": [{"property": n[0], "reason": n[8]} for n in NA],
       "notes": "No hooks in /repo: the monitors use the public API, the sanitizers' allocation hooks and link-time interposition of the clock. See DESIGN.md."}
for p in P:
    man["checks"].append({"property": p["id"], "quick_cmd": "python3 run_check.py " + p["id"],
                          "thorough_cmd": "VERIF_TIER=thorough python3 run_check.py " + p["id"],
                          "evidence_file": "evidence/%s.json" % p["id"],
                          "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
