prop("S01", "String operations stay within the string's own buffer",
     "Every string operation called within its precondition reads and writes only memory inside the string's current buffer, its operands and its temporaries, never memory already released, and never trips a library assertion or an abort. "
     "capacity() is never smaller than size(), and the buffer always has room for the terminating null character.",
     ["inputs", "histories"], "all sizes and capacities up to 2^30, every representation, alone or shared, every position, count and argument length",
     "Off-by-one errors in growth, shrinking or terminator handling show only at particular relations of size, capacity and count.",
     [SF], [("representation change and growth", SF + ": string_core initMedium/initLarge, reserve, expandNoinit, shrink"), ("modifiers", SF + ": basic_string append/insert/erase/replace")],
     [("buffer", "pointer, size and capacity-with-category word", SF + ": string_core")])
prop("S02", "Copies of a string are independent although they share a buffer",
     "After a string is copied, no operation on one of the copies (modifier, mutable element access, assignment, clear, destruction) changes the text, size or terminator of another. Shared buffers are detached before anything is written.",
     ["histories", "inputs"], "every modifier applied while a copy is alive, all sizes and representations (copies share the buffer only above the sharing threshold)",
     "Sharing starts above a size threshold and only when a copy is alive; tests rarely modify a large string while checking its copy.",
     [SF], [("detaching", SF + ": string_core::unshare, mutableDataLarge, mutable_data"), ("shared check", SF + ": isShared, RefCounted")], [("reference count", "number of strings sharing a buffer", SF + ": RefCounted")])
prop("S03", "Each string buffer is released exactly once",
     "Every buffer is released exactly once, when the last string that uses it is destroyed or moves to another buffer: reference counts are increased once per sharer and decreased once per release; no buffer leaks, none is released while a string still uses it.",
     ["histories", "inputs"], "all operations, alone, with a live copy, with own arguments, and with failing allocations",
     "Leaks are invisible to assertions and a premature release shows only when the memory is reused.",
     [SF], [("reference counting", SF + ": RefCounted create/incrementRefs/decrementRefs/reallocate"), ("copy, move, swap, destruction", SF + ": string_core")], [("reference count", "number of strings sharing a buffer", SF + ": RefCounted")])
prop("S04", "String operations produce the specified text",
     "After each operation the string holds exactly the text specified (as for std::string): kept characters keep value and order, inserted or replaced ones are where they belong, the text is terminated by a null character, and size(), length(), empty(), iteration, data() and c_str() agree.",
     ["inputs", "histories"], "all assignment, append, insert, erase, replace, resize, substring, concatenation, swap and move operations; all lengths up to 2^30",
     "Tests use a few fixed strings around the small-buffer limits; position, count and capacity relations are not covered.",
     [SF], [("modifiers", SF + ": basic_string"), ("representations", SF + ": string_core")], [("text", "characters between begin and end", SF)])
prop("S05", "String operations accept parts of the string itself as argument",
     "Assigning, appending, inserting or replacing with a pointer, range, view or substring of the very string gives the result for the argument's text from before the call, whether or not the buffer moves or is shared.",
     ["inputs"], "every own range, insertion position, replaced range and spare capacity, shared or not",
     "Whether the argument is disturbed depends on the relation of ranges, capacity and sharing.",
     [SF], [("aliasing checks", SF + ": append, insert, replaceAliased, assign")])
prop("S06", "Out of range positions throw and change nothing",
     "A position beyond the end of the text makes at, insert, erase, replace, substr, compare, copy and the substring forms of assign, append and construction throw std::out_of_range, and leaves the string (and its copies) as they were.",
     ["inputs"], "every position beyond the end up to 2^30, all states", "Tests try one or two positions for some members.",
     [SF], [("position checks", SF + ": enforce<std::out_of_range> calls")])
prop("S07", "Comparison, equality and hash depend on the text alone",
     "compare, the relational operators, equality, starts_with, ends_with and the hash depend only on the characters and lengths: ordering agrees with character-wise unsigned comparison and then length, equal texts hash equally whatever their representation, capacity or sharing, and observers modify nothing.",
     ["inputs", "histories"], "all pairs of texts, substring forms with all positions and counts, all representations",
     "Tests compare a few literal strings; equal text in different representation or capacity is not related.",
     [SF], [("comparison", SF + ": compare, operator==, operator<=>"), ("hash", SF + ": std::hash specialisation")])
prop("S08", "Searches report exactly the matches there are",
     "find, rfind, contains and the find_first/last_(not_)of family stay inside the text and report only positions at which the text matches the request on the right side of the start position; "
     "they report the nearest such position and never miss one.",
     ["inputs"], "all texts, search sets, start positions and lengths (that find of a substring of two or more characters misses none: all texts up to seven and substrings up to five characters)",
     "Tests search a few literal strings.",
     [SF], [("searches", SF + ": find, rfind, contains, find_first_of, find_last_of, find_first_not_of, find_last_not_of")])
prop("S09", "Strings survive allocation failure and impossible sizes",
     "When an allocation fails or the requested size cannot be represented the operation throws bad_alloc or length_error; the string stays valid, its copies keep their text, and nothing leaks or is released twice.",
     ["fault_sequences", "inputs"], "every allocation of every operation failing; requested sizes up to 2^64-1",
     "The tests never make an allocation fail and use small sizes.",
     [SF], [("checked allocation", SF + ": checkedMalloc, checkedRealloc, RefCounted::create/reallocate, expandNoinit")])

prop("S10", "Conversions to and from other text types keep every character",
     "Construction and assignment from std::string, conversion to std::string and std::string_view, std::to_string, stream output, and mixed comparison or concatenation with them transfer exactly the characters "
     "between begin and end, null characters included, whatever the length, and leave the source unchanged.",
     ["inputs"], "all texts (with null characters), all lengths up to 2^30, every representation",
     "Tests convert short literals without null characters.",
     [SF], [("interoperation", SF + ": toStdString, operator std::string_view, std::to_string, operator<<, constructors and comparison with std::string")])

AH, AC_ = "arena/arena.hpp", "arena/arena.cc"
prop("A01", "Arena allocations lie inside their block and never overlap",
     "Every piece of memory an arena hands out (AllocateAligned, AllocateAlignedAndAddCleanup, Create, CreateArray, memory resource) lies completely inside a block the arena holds, behind the block header and before the "
     "cleanup records, and shares no byte with any other piece handed out since the last Reset(), so its content stays as written until Reset() or destruction, and array elements are initialised.",
     ["inputs", "histories"], "all request sizes up to 2^30, alignments 8/16/32, all first-block sizes, histories of up to four allocations of all kinds",
     "Whether a request just fits its block depends on sizes, alignment gaps, cleanup records and block size classes; tests use a few round sizes.",
     [AH, AC_], [("bump allocation", AH + ": Block::alloc, has_enough_space, alloc_cleanup"), ("new blocks", AC_ + ": newBlock, allocateAligned")], [("block bounds", "position, limit and size of each block", AH + ": class Block")])
prop("A02", "Arena allocations have the requested alignment",
     "The address of every allocation is a multiple of the requested alignment (8, 16 or 32; 8 by default; that of the type for Create and CreateArray), also as the first allocation of a block and after odd-sized ones.",
     ["inputs", "histories"], "all sizes and histories as for A01, blocks from an allocator with 16-byte alignment",
     "Malloc results are often better aligned than promised, which hides missing adjustments from tests.",
     [AH, AC_], [("alignment", AC_ + ": Block::AlignPos, allocateAligned; " + AH + ": memory_resource::do_allocate")])
prop("A03", "Arena gives every block back exactly once",
     "Every block obtained through block_alloc is given back through block_dealloc exactly once: all but the first on Reset(), all at destruction, by the arena that owns them after a move; nothing is leaked or released twice.",
     ["inputs", "histories"], "histories of allocations, resets, moves and failures with symbolic sizes", "Tests count few blocks, and leaks are invisible to them.",
     [AH], [("release", AH + ": free_all_blocks, free_blocks_except_head, move constructor")], [("block chain", "list of blocks from the newest to the first", AH)])
prop("A04", "Arena runs every cleanup exactly once before its memory is reclaimed",
     "Every registered cleanup (AllocateAlignedAndAddCleanup, Own, destructors of created objects) runs exactly once, at Reset() or at destruction, with the registered element, while the memory it refers to is intact; none runs "
     "earlier, and none runs for an allocation that was reported as failed.",
     ["inputs", "histories"], "histories with cleanups in several blocks, up to six per block", "Tests use one or two cleanups in one block.",
     [AH], [("cleanup records", AH + ": register_cleanup, run_cleanups, addCleanup, RegisterDestructor")], [("cleanup area", "records between limit and size of a block", AH + ": class Block")])
prop("A05", "Failed arena allocations return null and change nothing",
     "When a block cannot be had, or the size cannot be represented, the request returns nullptr (false for Own), is not counted and not reported to the hooks, runs no user cleanup, leaves earlier allocations alone, and the arena stays usable; the memory resource throws bad_alloc instead of returning null.",
     ["fault_sequences", "inputs"], "failure of any block allocation, sizes up to 2^64-1, counts whose byte size overflows", "Tests never make an allocation fail and never ask for sizes near the limit.",
     [AH, AC_], [("failure paths", AC_ + ": newBlock, allocateAligned; " + AH + ": Create, CreateArray, addCleanup")])
prop("A06", "Arena reports each event to its hooks exactly once",
     "The init, allocation, new-block, reset and destruction hooks are called exactly once per event with the cookie returned by init, the type and size requested, the number and size of the block, and the space held and wasted.",
     ["inputs", "histories"], "histories of allocations, resets and moves with symbolic sizes", "Tests check counts for a few fixed histories.",
     [AH, AC_], [("hook calls", AH + ": Reset, Create, CreateArray, AllocateAligned, destructor; " + AC_ + ": newBlock")])
prop("A07", "Arena space accounting matches the blocks held",
     "SpaceAllocated() is at any time the total size of the blocks held, Reset() returns the value from before, SpaceRemains() is what is left in the last block between allocations and cleanup records, cleanups() counts the pending ones, and a new "
     "block is made only when the last one is too small.",
     ["inputs", "histories"], "all histories as for A01", "The relation must hold after every block-size decision; tests look at few.",
     [AH, AC_], [("accounting", AH + ": SpaceAllocated, SpaceRemains, cleanups, Reset; " + AC_ + ": newBlock")], [("space counter", "bytes of all blocks held", AH)])
prop("A08", "Memory resource and moves stay bound to the owning arena",
     "The memory resource of an arena allocates from that arena only, never takes memory back, and equals exactly the resources of the same arena; after a move the new arena owns blocks, resource and cookie, and the old one neither releases nor "
     "reports anything.",
     ["inputs", "histories"], "moves of used and unused arenas followed by allocations of all kinds", "Tests do not use the resource of a moved arena.",
     [AH], [("memory resource", AH + ": class memory_resource, move constructor, Construct")])
prop("A09", "check() classifies every address correctly",
     "check() tells for any byte of any block whether it belongs to the header, the used, the unused or the cleanup part, and NotContain for every other address.",
     ["inputs"], "every byte of one or two blocks of any size and fill, foreign memory at any address", "Tests ask about a few addresses; boundaries depend on sizes.",
     [AC_], [("classification", AC_ + ": Arena::check")])
prop("A10", "A reset arena can be used like a new one",
     "Reset() keeps exactly the first block, empties it, forgets all cleanups after running them, and returns the space held before; allocations afterwards behave as in a new arena with that block, also after repeated resets or for an arena never used.",
     ["inputs", "histories"], "resets after histories of two allocations of any kind and size, followed by further use", "Tests reset after a few fixed histories.",
     [AH, AC_], [("reset", AH + ": Reset, free_blocks_except_head; " + AC_ + ": Block::Reset")])

MH, MC = "arena/metrics.hpp", "arena/metrics.cc"
prop("M01", "Metrics count every arena event exactly once",
     "Each probe (init, allocation, new block, reset, destruction) adds exactly its event to the counters of the thread: one to the event count, the sizes to the space counts, one to the size class or life time class with the smallest "
     "limit that is not exceeded, and the bytes to the place where the arena was created. No other counter changes, reset() clears every counter, and the printed summary shows the counters and cumulative percentages without dividing by zero.",
     ["inputs", "histories"], "any counter values, sizes, spaces and life times", "Tests look at a few counters after a few events; a probe that touches a neighbouring counter or misplaces a class boundary goes unnoticed.",
     [MH, MC], [("probes", MC + ": metrics_probe_on_arena_*"), ("classes", MH + ": increase_alloc_size_counter, increase_destruct_lifetime_counter, alloc_size_bucket, destruct_lifetime_bucket"),
                ("summary", MH + ": GlobalArenaMetrics::string")], [("thread counters", "events since the last report", MH + ": LocalArenaMetrics"), ("cookie", "creation time and place of an arena", MH + ": ArenaMetricsCookie")])
prop("M02", "Reporting metrics hands every count over exactly once, also between threads",
     "report_to_global_metrics() adds every counter of the thread, including every creation place, to the process-wide metrics and clears it, so each event is counted there exactly once; what threads share is only accessed atomically "
     "or with its lock held, and no lock is left behind.",
     ["inputs", "schedules"], "any local and global counter values; every access to the shared counters and to the shared table of places", "Races depend on the schedule; the tests report from one thread.",
     [MH, MC], [("hand over", MH + ": LocalArenaMetrics::report_to_global_metrics"), ("shared table", MH + ": GlobalArenaMetrics::arena_alloc_counter and its lock")], [("process counters", "sum of all reports", MH + ": GlobalArenaMetrics")])

OH, OC = "optparse/optparse.hpp", "optparse/optparse.cc"
OCHK = "Tests parse a few dozen fixed command lines; "
prop("O01", "Every command line argument is used once or handed back in order",
     "Parsing uses each argument exactly once: as an option, as a value of the option before it, or handed back, in order and as the very pointer, by invalid_args() and, behind the program name, by get_raw_argv()/get_raw_argc(). "
     "An option without the value it needs is refused with std::logic_error; later values of a stored option replace earlier ones, values of an appended option are all kept in order.",
     ["inputs"], "command lines of up to three arguments of every kind (short, long, flag, name=value, name= with and without a following value, unknown option, plain word) with arbitrary texts", OCHK + "how an argument is used depends on the kinds of its neighbours and on its place in the line.",
     [OH, OC], [("main loop", OC + ": OptionParser::parse_args"), ("option and values", OC + ": OptionParser::handle_opt, has_value_to_process, extract_opt_value"), ("argument list", OH + ": ArgList"), ("raw arguments", OC + ": invalid_args, get_raw_argc, get_raw_argv")],
     [("arguments handed back", "pointers into argv that no option used", OH + ": OptionParser::_invalid_args")])
prop("O02", "Options are found by exactly the names they were registered with",
     "An argument selects an option exactly when its part before '=' is one of the option's names, for each allowed prefix character and each constructor. Names that are taken or malformed are refused and leave the parser as it was, or, with ConflictHandler::Replace, belong to the later option; "
     "help, usage and version can be asked for unless the user took their names; prefixes other than - + # $ & % and incomplete options are refused.",
     ["inputs", "histories"], "all prefixes and constructors, names that are prefixes of each other, arbitrary unknown names", OCHK + "only the prefix '-' and few similar names occur.",
     [OH, OC], [("registration", OC + ": OptionParser::add_option, add_help_option, add_usage_option, add_version_option"), ("lookup", OC + ": find_opt, extract_opt_name, extract_arg_type, extract_option_type"), ("validation", OC + ": Option::validate, OptionParser constructors")],
     [("name tables", "option of each short and long name", OH + ": _short_option_map, _long_option_map")])
prop("O03", "Values are stored as the option's action and type say",
     "The text of a value is converted once, whole, to the option's type and stored under its destination: Store keeps the last, Append keeps all (split at commas, blanks trimmed, empty parts skipped), Count counts the occurrences, StoreTrue/StoreFalse without value store the constant, Choice accepts exactly the listed texts. "
     "Nothing is stored under other destinations, and an empty number is zero.",
     ["inputs"], "every action and type, values of any text as following argument or behind '='", OCHK + "the values are short and well-formed.",
     [OH, OC], [("actions", OC + ": OptionParser::process_opt"), ("types", OC + ": parse_value, parse_string, split, trim_string"), ("storage", OH + ": ValueStore")], [("values", "value or list of each destination", OH + ": ValueStore")])
prop("O04", "Defaults and environment apply only to options not given, and each parse starts afresh",
     "A default or environment value is used, converted as a given one would be, exactly when the option was not given on the command line, and concerns its own option only. Parsing again, or with a moved or copied parser, behaves as with a new parser: nothing of the line before remains; program, usage and version texts that were set are kept.",
     ["inputs", "histories"], "options given or not, with default or environment value of any text, for each kind of action; second parses, moved and copied parsers", OCHK + "the tests parse once per parser and do not move it.",
     [OH, OC], [("defaults and environment", OC + ": OptionParser::parse_args"), ("given options", OH + ": ValueStore::user_set")], [("given options", "destinations set by the command line", OH + ": ValueStore::_usr_set")])
prop("O05", "Parsing stays within the command line and releases what it allocates",
     "No command line, option setup or call order makes the parser read beyond the given arguments or texts, use an uninitialised or released value, or leak memory, also when it refuses with an exception.",
     ["inputs", "histories"], "all command lines and setups of O01 to O04 and O06", "An argument read beyond the end, an uninitialised result or a dangling parser reference goes unnoticed in tests that look at values only.",
     [OH, OC], [("argument list", OH + ": ArgList::pop, peek, empty"), ("back reference", OH + ": Option::_parser"), ("raw arguments", OC + ": get_raw_argv")], [("position", "next argument", OH + ": ArgList::_it")])
prop("O06", "Usage, help and version texts describe the options completely",
     "format_usage() names the program and every option in order (or is the text that was set), format_help() has one line per option with all names, its type and help text in one column, format_verison() shows the version set or the default; the print functions print the same texts, and a parser without options works too.",
     ["inputs", "histories"], "option sets of none to five options of every type, texts of any length, before and after parsing", "No test looks at the whole text.",
     [OH, OC], [("texts", OC + ": format_usage, format_help, format_opt_names, format_verison"), ("types", OH + ": formatter<Type>")], [("texts that were set", "usage, version, program", OH + ": OptionParser")])

AST = "string/arena_string.hpp"
prop("S11", "Arena string operations act on the text as specified",
     "Every modifier of an arena string yields exactly the specified text, terminated by a null character, with size and capacity in agreement, and accesses no memory outside of its text, operands and object; "
     "the change between the in-object, medium and shared representation is invisible.",
     ["inputs", "histories"], "texts of any length up to 2^30 in each representation, all positions and counts", "The tests use a few lengths; the boundaries between the representations (23/24, 254/255) and sharing multiply the cases.",
     [AST, "string/string.hpp"], [("representations", AST + ": initSmall, initMedium, initLarge, reserve*, shrink*, copy*, expandNoinit, mutableDataLarge"), ("operations", "string/string.hpp: class basic_string")],
     [("category", "in-object, medium or large (shared) text", AST + ": class arena_string_core")])
prop("S12", "The text of an arena string always lies in the arena of its allocator",
     "Whatever is copied, moved, swapped, assigned or concatenated between strings of different arenas, the text of each string stays in the arena its get_allocator() names, so it survives the release of every other arena; no operation falls back to the "
     "default memory resource, and arena memory is never given back piecewise.",
     ["inputs", "histories"], "pairs of strings of two arenas in every representation, every binary operation", "The tests use one arena, or keep both alive, so text in the wrong arena goes unnoticed.",
     [AST, "string/string.hpp"], [("allocator transfer", AST + ": copy and move constructors, swap"), ("temporaries", "string/string.hpp: get_allocator() of temporaries in assign, insert, replace, operator+, operator+=")],
     [("allocator", "memory resource of the arena", AST + ": allocator_")])
prop("S13", "Arena strings accept own text as argument and survive failures",
     "Arguments that refer to the string's own text act as if copied before; when the arena has no memory left the operation throws bad_alloc and the string (and its copies) keep a valid text; positions behind the end throw out_of_range and change nothing.",
     ["inputs", "fault_sequences"], "every range of the own text, every allocation failing, every position behind the end, sizes up to 2^64-1", "No test makes an arena fail, and few pass own text.",
     [AST, "string/string.hpp"], [("own text", "string/string.hpp: append, assign, insert, replace, replaceAliased"), ("failure", AST + ": alloc, RefCounted::create")])
prop("S14", "Arena string comparisons, searches and accessors agree with the text",
     "Comparisons, hashes, searches and element access of arena strings depend on the text only, in each representation: they agree with memcmp order, report positions that match, find the first (last) match, and never change the text.",
     ["inputs"], "texts of any length in each representation", "See S07 and S08; in addition the representation must not matter.",
     [AST, "string/string.hpp"], [("accessors", AST + ": size, capacity, data, c_str, category"), ("comparison and search", "string/string.hpp")])

prop("S15", "Copies of arena strings are independent of each other",
     "While a copy of an arena string is alive, whichever modifier is applied to one of them, the other keeps its text: shared text is detached before it is changed, and the modified string has the specified text too. (Writing through the pointer of non-const "
     "data() is a recorded exception.)",
     ["inputs", "histories"], "texts of any length in each representation, every modifier, all positions and counts", "Sharing starts at 255 characters; the tests hardly reach it with arena strings.",
     [AST, "string/string.hpp"], [("detaching", AST + ": mutableDataLarge, unshare, reserveLarge, shrinkLarge, expandNoinit"), ("sharing", AST + ": copyLarge")], [("reference count", "strings that share a text", AST + ": RefCounted")])
