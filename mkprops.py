import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
I="include/strf/"; D=I+"detail/"; PT=D+"printable_types/"; F=D+"facets/"
p("C01","The text delivered does not depend on where the destination's buffers end",
 "Printing any list of printables into a destination delivers exactly the same character sequence however the destination splits the output into successive buffers, provided every refreshed buffer has the documented minimum space and the first one has any space at all, including none. While doing so the library writes only inside the buffer currently offered, reads only the memory of its arguments, and never asks for a new buffer more often than the text and the buffer sizes require it to make progress.",
 ["schedules","inputs","configurations"],
 "For all printables and formats (integers, floats, strings, transcoded strings, characters, ranges, joins, tr-strings, user types), all five character types, all charsets and facets, and all sequences of buffer sizes chosen by the destination.",
 "The unit tests print each value into a large buffer and at two or three hand-picked small sizes; the position at which a boundary can fall inside a printable (between fill and sign, inside a digit group, between the code units of a character, between a join's elements) is combinatorial and depends on everything printed before.",
 [I+"destination.hpp",I+"output_buffer_functions.hpp",PT+"int.hpp",PT+"float.hpp",PT+"string.hpp",PT+"char.hpp",PT+"range.hpp",PT+"join.hpp",D+"utf.hpp",D+"single_byte_charsets.hpp",D+"printing_helpers.hpp"],
 [("ensure()/recycle() protocol",I+"destination.hpp"),("write_fill continuation",I+"output_buffer_functions.hpp"),("do_write slow path",I+"destination.hpp"),("transcoding loop that flushes and resumes",F+"charset.hpp"),("encode_fill per charset",D+"utf.hpp"),("digit and group printing",D+"printing_helpers.hpp")],
 [("buffer pointer/end","the window of memory the destination currently offers",I+"destination.hpp")],
 ["the sequence of buffers handed to destination::recycle()"])
p("C02","C stream destinations deliver exactly the text and report failures truthfully",
 "Printing to a C stream hands to the stream exactly the printed text, in order, each character once, up to the first point at which the stream refuses data, and nothing after it. The result reports success if and only if the stream accepted everything, and its count is the number of characters the stream accepted; destroying the writer without finishing it delivers the pending text if no failure happened.",
 ["fault_sequences","inputs","histories"],
 "For all texts and print histories, stream buffering modes, character types, buffer sizes of the writer, and all sequences of short writes, errors and full devices.",
 "Tests write a few texts to a healthy temporary file; failures of the stream (short write, ENOSPC, EIO at any byte) and combinations of small writes, large writes, finish and destruction are not exercised.",
 [I+"to_cfile.hpp"],
 [("cfile_writer_base recycle/do_write/finish/destroy",I+"to_cfile.hpp"),("fwrite / fputwc traits",I+"to_cfile.hpp")],
 [("count","characters accepted so far",I+"to_cfile.hpp")],["write callback of the stream (fopencookie)","returned {count, success}"])
p("C03","streambuf destinations deliver exactly the text and report failures truthfully",
 "Printing to a std::basic_streambuf hands to it exactly the printed text, in order, each character once, up to the first point at which it refuses data or throws, and nothing after it. Success is reported if and only if everything was accepted and the count is the number of accepted characters; an exception thrown by the streambuf reaches the caller unchanged from printing or finishing, and never escapes the writer's destructor.",
 ["fault_sequences","inputs","histories"],
 "For all texts and print histories, char and wchar_t, and all sequences of partial acceptance, refusal and exceptions of the streambuf.",
 "Tests use an ordinary stringbuf or one that always accepts; partial acceptance, exceptions at a given call, and use of the writer after them are not sampled.",
 [I+"to_streambuf.hpp"],
 [("recycle/do_write/finish/destructor",I+"to_streambuf.hpp")],
 [("count","characters accepted so far",I+"to_streambuf.hpp")],["xsputn/overflow of the simulated streambuf","returned {count, success}"])
p("C04","String destinations build exactly the text, and survive allocation failure",
 "Printing into a new string, appending to or assigning an existing one yields exactly the (previous content plus) printed text under every reservation policy. When an allocation fails at any point the allocation error reaches the caller, the target of an append still holds its previous content followed by a prefix of the text, no memory is lost, and the objects involved remain usable and destructible; a finished writer, and one that has turned bad, ignores further output.",
 ["fault_sequences","inputs","histories"],
 "For all texts, previous contents, character types, allocators, reservation policies, histories of write/flush/finish, and all sets of failing allocations.",
 "Tests never make an allocation fail, and cover a handful of sizes; growth, the hand-over between internal buffer and string, and the effect of a failure at the n-th allocation depend on the whole history.",
 [I+"to_string.hpp",D+"reserve_policies.hpp"],
 [("string appender",I+"to_string.hpp"),("string maker: lazily created string",I+"to_string.hpp"),("sized string maker: growth of the string in place",I+"to_string.hpp")],
 None,["resulting strings","allocator and operator new"])
p("C05","Fixed-size arrays are never overrun and truncation is reported exactly",
 "Printing into a caller-supplied array of N characters never writes outside it, leaves a prefix of the text (all of it, or as much as fits but for less than one indivisible piece of at most 64 characters) followed (for C strings) by a terminator that the returned pointer designates, and reports truncation if and only if the text does not fit; a text that fits exactly is not truncated. Once truncated, later output changes neither the array nor the result.",
 ["inputs","histories","configurations"],
 "For all N (1 upward for C strings, 0 upward for plain ranges), all texts and lists of printables, all character types, all calling forms, and all histories of writes on the writer.",
 "Tests compare some fixed texts with a few array sizes; every alignment between the array's end and the internal steps of each printable, and output attempted after truncation, is an unbounded space.",
 [I+"destination.hpp",I+"printing_syntax.hpp"],
 [("cstr destination recycle/do_write/finish",I+"destination.hpp"),("array destination recycle/do_write/finish",I+"destination.hpp"),("shared scratch buffer used after truncation",I+"destination.hpp")],
 None,["array content, guard zones around it, result {ptr, truncated}"])
p("C06","A failed destination stops the printing: nothing more delivered, bounded work",
 "After a destination has turned bad, no further text is delivered to it by the rest of the print or by later prints, it stays bad, and what was delivered is a prefix of the text. The print call then ends within a bounded amount of work that does not grow with the widths, precisions, repetition counts or number of range elements still to be printed, even when a range is endless (apart from the measurement of an aligned join, which happens before printing and ends once the join's width is reached).",
 ["fault_sequences","inputs","schedules"],
 "For all lists of printables, including endless ranges and enormous fills and precisions, and all points at which the destination fails.",
 "Tests turn a destination bad at few points and look only at the final content; that every loop in every printer notices the failure, for every failure point, and ends promptly cannot be sampled by hand.",
 [I+"destination.hpp",PT+"range.hpp",PT+"int.hpp",PT+"float.hpp",PT+"string.hpp",PT+"char.hpp",D+"utf.hpp",D+"single_byte_charsets.hpp",I+"output_buffer_functions.hpp"],
 [("good() checks in the printing loops",PT+"range.hpp"),("good() checks after flush in fills and transcoding",D+"utf.hpp")],
 [("good flag","sticky failure state of the destination",I+"destination.hpp")],["step counter fed by compiler instrumentation","buffers handed over after the failure"])
p("C07","Exceptions from user code pass through a print unchanged and leak nothing",
 "When code supplied by the user — a destination, an iterator, a transform function, a printable type, an error notifier, a stream buffer or an allocator — throws during a print or during size calculation, that same exception reaches the caller of the print exactly once, the program is not terminated, no memory is leaked, and what the destination had received before is a prefix of the text. The same facets, arguments and destinations can be used afterwards and print correctly.",
 ["fault_sequences","inputs"],
 "For all lists of printables and facets, all reservation policies, and all points at which some user-supplied operation throws.",
 "Existing tests contain almost no throwing extensions; the number of (operation, call index, enclosing construct) triples is unbounded.",
 [PT+"range.hpp",PT+"join.hpp",PT+"tr_string.hpp",D+"printers_tuple.hpp",D+"polymorphic_printer.hpp",D+"reserve_policies.hpp",D+"utf.hpp",PT+"float.hpp",I+"to_string.hpp",I+"to_streambuf.hpp"],
 [("absence of noexcept on functions that call user code",D+"utf.hpp"),("destruction order of printers",D+"printers_tuple.hpp")],
 None,["exception identity at the call site","allocation hooks"])
p("C08","A calculated size is enough, and reserving never changes the text",
 "The size calculated for a list of printables is never smaller than the number of characters printing them produces, and printing them into a destination that already has at least that much space never asks it for a new buffer. Hence printing with no reservation, with a given reservation of any size and with a calculated one all deliver the same text, and after a calculated reservation has succeeded the print succeeds even if every later allocation would fail.",
 ["inputs","configurations","fault_sequences"],
 "For all lists of printables, formats, facets and charsets (including malformed input), all reservation policies and sizes, and failure of any allocation after the reservation.",
 "Tests check the size on single well-formed examples; the calculation is a second implementation of every printer and must agree with it for all inputs and nestings.",
 [D+"reserve_policies.hpp",D+"premeasurements.hpp",I+"measure.hpp",PT+"int.hpp",PT+"float.hpp",PT+"string.hpp",PT+"join.hpp",PT+"tr_string.hpp",PT+"range.hpp",D+"utf.hpp",D+"single_byte_charsets.hpp"],
 [("premeasurements accumulators",D+"premeasurements.hpp"),("transcode_size functions",D+"utf.hpp"),("reserve policies",D+"reserve_policies.hpp")],
 None,["sized creation request seen by a simulated destination creator","recycle calls"])
p("C09","A transcoding interrupted by a full output buffer resumes without loss",
 "Transcoding an input in any number of steps with output buffers of any sizes, each step continuing where the previous one said it stopped, produces exactly the output of a single step with ample space, consumes the input exactly once, stops only at character boundaries, and always makes progress when the buffer can hold one character. Each step writes only inside its buffer, its stop reason is truthful (full buffer, bad sequence, unsupported character or end of input, as the flags request), and the size function reports exactly the size and stopping point of a step with that limit.",
 ["schedules","inputs","configurations"],
 "For all pairs of charsets (static or dynamic, direct or through UTF-32), all well- and ill-formed inputs, surrogate policies and flags, and all sequences of output capacities.",
 "Tests transcode selected sequences with ample room and check one too-small size; every cut of the output of every sequence in every pair of charsets is out of reach.",
 [D+"utf.hpp",D+"single_byte_charsets.hpp",F+"charset.hpp"],
 [("per-pair transcode functions",D+"utf.hpp"),("single byte transcoders",D+"single_byte_charsets.hpp"),("composition through UTF-32",F+"charset.hpp")],
 None,["transcode result: source pointer, destination pointer, stop reason"])
p("C10","Each transcoding error is notified exactly once, in order",
 "While text is printed or transcoded into a destination, every invalid sequence and every unsupported character of the source is reported to the error notifier exactly once and in source order, whatever the buffer sizes and however often the destination makes the library suspend and resume. The report describes the offending bytes or code point, one replacement is written per report, and nothing is reported for valid text.",
 ["schedules","inputs","configurations"],
 "For all strings with malformed parts, pairs of charsets, surrogate policies, formats, destinations and sequences of buffer sizes.",
 "Tests use inputs that fit into one buffer, so a suspension between detecting, reporting and replacing an error does not occur in them.",
 [F+"charset.hpp",D+"utf.hpp",D+"single_byte_charsets.hpp",PT+"string.hpp"],
 [("resumption of a transcoding",F+"charset.hpp"),("notifier calls",D+"utf.hpp")],
 None,["calls received by a recording notifier"])
p("C11","Translated-format strings substitute arguments and report errors identically",
 "Printing with a translation string delivers its literal text and, for each placeholder, the designated argument or, when there is none, one replacement character and exactly one error report naming the placeholder's position; this holds for every string content, for every split of the output into buffers and for every reservation policy. Printing never reads outside the string and never fails because of its content.",
 ["inputs","schedules","fault_sequences"],
 "For all translation strings (well formed or not), numbers and kinds of arguments, character types, destinations, buffer sizes and failure points.",
 "Translation strings are data that arrives at run time; the tests hold a few dozen of them, printed into ample buffers.",
 [D+"tr_printer.hpp",PT+"tr_string.hpp"],
 [("tr-string interpreter",D+"tr_printer.hpp"),("tr-string measurement",D+"tr_printer.hpp")],
 None,["delivered text versus an executable model of the placeholder grammar","calls received by a recording error notifier"])
p("C12","Prints running in different threads never affect each other",
 "When several threads print at the same time, each to its own destination, every one of them delivers exactly what it delivers when it runs alone, including when they share facets, printables, charsets and source strings, when some of the destinations fail or throw, and when it is the first use of the library in the process.",
 ["schedules","inputs"],
 "For all programs of prints per thread and all interleavings of their steps.",
 "All tests are single threaded.",
 [I+"destination.hpp",D+"single_byte_charsets.hpp",D+"utf.hpp",I+"locale.hpp",F+"numpunct.hpp",PT+"float.hpp",PT+"int.hpp"],
 [("absence of mutable shared state other than the write-only scratch buffer",I+"destination.hpp")],
 [("scratch buffer","write-only memory shared by failed destinations",I+"destination.hpp")],["per-thread delivered text under a scheduler that preempts inside the library"])
p("C13","Printing may be nested inside any user callback of another print",
 "A user callback invoked during a print — of a destination's buffer refresh, an iterator, a transform function, a printable type or an error notifier — may itself print, to another destination or (where it is given the destination) to the same one, and both the inner and the outer print deliver exactly what they deliver separately.",
 ["schedules","inputs","histories"],
 "For all outer and inner prints, all callback points, nesting depths and buffer sizes, including callbacks that print to failing destinations.",
 "Tests contain no callbacks that print while a print is suspended.",
 [I+"destination.hpp",PT+"range.hpp",F+"charset.hpp",D+"tr_printer.hpp",D+"printable_def.hpp"],
 [("all state of a print lives in its own objects",D+"reserve_policies.hpp")],
 None,["text delivered by outer and inner prints"])
p("C14","Numeric punctuation from the C locale is a faithful, immutable snapshot",
 "The punctuation obtained from the current C locale reflects the locale in force at the moment of the call — its decimal point, thousands separator and grouping rule, decoded from the locale's charset, with the documented fallbacks when a field is empty, malformed or not representable — and is not affected by later locale changes. Obtaining it neither changes the locale nor reads beyond the locale's data, whatever these contain.",
 ["inputs","histories","schedules"],
 "For all contents of the locale record (including malformed ones), all charsets it may announce, and all sequences of locale switches before, between and during prints.",
 "Tests depend on the locales installed on the machine (usually only the C locale).",
 [I+"locale.hpp",F+"numpunct.hpp"],
 [("locale_numpunct and decoding of the lconv record",I+"locale.hpp"),("conversion of the C grouping string",F+"numpunct.hpp")],
 None,["returned punctuation and text printed with it, under an interposed localeconv/nl_langinfo"])
p("C15","Low-level output buffer operations behave as an append-only stream",
 "Any history of the public output operations — put, write, output iterator, buffer filling by advance, ensure, flush — on any destination appends exactly the characters given, in order, to what the destination receives, with the documented minimum space available after each request for it and the good flag changing only from good to bad. On a bad destination the same operations are harmless: they deliver nothing, keep the buffer valid, and keep the flag.",
 ["histories","schedules","fault_sequences"],
 "For all histories of operations and argument sizes, all destination kinds, all buffer-size schedules and failure points.",
 "Tests call each operation in isolation on one or two states; the guarantee is about every history.",
 [I+"destination.hpp",I+"output_buffer_functions.hpp",I+"iterator.hpp",I+"to_string.hpp",I+"to_cfile.hpp",I+"to_streambuf.hpp"],
 [("output_buffer primitives",I+"destination.hpp"),("do_write overrides",I+"to_string.hpp"),("output iterator",I+"iterator.hpp")],
 None,["received text and buffer state after every operation, against an append-only model"])
p("C16","Printing needs no dynamic memory unless the destination does",
 "Printing to arrays, C strings, C streams, stream buffers or user destinations, with any printables, formats, facets and charsets, performs no dynamic memory allocation of its own, so it works identically when every allocation fails. Size calculation allocates nothing either, and string destinations allocate only for the string itself.",
 ["inputs","configurations","fault_sequences"],
 "For all lists of printables, formats, facets, charsets and destinations.",
 "No test observes allocations; one rarely used formatting path that allocates would go unnoticed.",
 [PT+"int.hpp",PT+"float.hpp",PT+"string.hpp",PT+"join.hpp",PT+"tr_string.hpp",PT+"range.hpp",F+"numpunct.hpp",I+"facets_pack.hpp"],
 [("printers stored by value; placement new only",D+"printers_tuple.hpp")],
 None,["allocation hooks during the print"])
p("C17","Prints depend only on their arguments, never on ambient or earlier state",
 "The text delivered depends only on the printables, the facets and the destination: it is the same whatever the current C or C++ locale, floating-point rounding mode and errno are, whatever happens to them during the print, and whatever was printed before, including prints that failed, threw or were truncated. Printing changes none of that ambient state.",
 ["histories","schedules","inputs","configurations"],
 "For all printables and facets, all ambient states and changes of them at any point of the print, and all histories of earlier prints.",
 "Tests run each print once in the default environment of a fresh process.",
 [PT+"float.hpp",PT+"int.hpp",D+"dragonbox.hpp",F+"numpunct.hpp",I+"locale.hpp",I+"destination.hpp"],
 [("own digit generation, no printf/locale calls",PT+"float.hpp"),("no mutable static state",I+"destination.hpp")],
 None,["text delivered before/after, ambient state before/after"])
p("C18","Numbers are printed with exactly the digits the format requests",
 "Printing a floating-point value without precision yields the shortest decimal text that reads back as the same value, printing it with a precision yields the correctly rounded text, and printing an integer yields its exact value in the requested base.",
 ["inputs"],"For all values, bases, notations and precisions.",
 "Tests sample a few hundred values of 2^64 or more.",
 [D+"dragonbox.hpp",PT+"float.hpp",D+"int_digits.hpp",PT+"int.hpp"],
 [("dragonbox",D+"dragonbox.hpp"),("digit generation",D+"int_digits.hpp")])
p("C19","Width, alignment, fill, sign and precision follow the documented layout",
 "Every printable occupies at least its requested width measured by the width calculator in use, padded with the fill character according to its alignment, and precision, sign and base indications appear as documented.",
 ["inputs","configurations"],"For all printables and format specifications.",
 "Tests sample formats; the space is the product of all specifications and values.",
 [D+"format_functions.hpp",PT+"int.hpp",PT+"string.hpp",F+"width_calculator.hpp",I+"width_t.hpp"],
 [("width calculators",F+"width_calculator.hpp"),("format functions",D+"format_functions.hpp")])
p("C20","Charset tables map every character correctly",
 "Each supported charset decodes every byte sequence to, and encodes every code point as, what its standard prescribes, and round trips for all characters it supports.",
 ["inputs"],"For all byte sequences and code points of all supported charsets.",
 "Tests sample ranges of characters per charset.",
 [D+"single_byte_charsets.hpp",D+"utf.hpp"],
 [("charset tables",D+"single_byte_charsets.hpp")])
p("C21","The facet in effect is the last one given that applies to the printable",
 "For each printable and facet category the facet used is the last one passed that covers the printable's type, with constrained facets affecting only the types they select and inner facet packs only what they enclose.",
 ["programs","configurations"],"For all combinations of facets, constraints and nestings.",
 "The selection is made at compile time; tests instantiate a few dozen combinations.",
 [I+"facets_pack.hpp",PT+"facets_pack.hpp"],
 [("compile-time facet lookup",I+"facets_pack.hpp")])
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    
open('properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
