# Writes properties.jsonl and MANIFEST.json.
import json
P=[]
def p(id,title,st,over,q,why,files,mech,observe=None):
    assert len(title)<=80,title
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if observe: a["observe_at"]=observe
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,anchors=a))
A="include/array.hpp"; C="include/container.hpp"; B="include/binary_word.hpp"; H="include/handle.hpp"
p("C01","An array behaves as a fixed-size sequence with value semantics",
  "Whatever sequence of constructions, copies, moves, assignments, resizes, fills, element writes, checked and unchecked reads and comparisons is applied to arrays of any element type, every array holds exactly the elements a plain sequence would hold: resizing keeps the common prefix and fills the rest with the given (or default) value even if that value is an element of the array itself, and changing one array never changes another. A checked read outside the array fails with an exception, and two arrays are equal exactly if they have the same size and equal elements. Assigning an array to itself leaves it unchanged.",
  ["histories","inputs"],"every history of operations on several arrays of trivial and non-trivial elements, sizes from 0 to thousands","The tests make one or two arrays of a few ints each; they reach no history of several operations, no self-assignment, no element of the array passed as the fill value, and no non-trivial element type.",
  [A],[("copy and move construction and assignment",A+": Array(const Array&), Array(Array&&), operator="),("resizing",A+": resize, reallocate"),("bounds check",A+": at")],["elements, size and equality of every array after every operation"])
p("C02","Arrays construct, copy and destroy each element exactly once and leak nothing",
  "At every moment the live elements are exactly the elements of the arrays in existence: no operation uses an element before it is constructed or after it is destroyed, destroys one twice, or forgets one. When the last array is gone no element and no memory remains.",
  ["histories"],"every history of C01 over element types that own resources, including arrays of arrays","The tests use int elements, for which construction and destruction cannot be observed, and never account for memory.",
  [A],[("uninitialized storage and element lifetime",A+": uninitialized_new/delete, _destroy_elements, _uninitialized_fill, _uninitialized_copy")],["constructions and destructions recorded by the element type","allocation balance"])
p("C03","Every way of making an array yields exactly the requested elements",
  "An array made from a list of values, a generator function, a pointer and a size, a range of iterators that can be passed more than once, a size and a value of any integral kind, or by converting another array, has exactly the elements asked for, in order. The generator is called once per index, in order.",
  ["inputs"],"all constructors, element types and sources, sizes from 0 to thousands","The tests make two or three arrays of fixed contents and conversions; they do not vary the size, the iterator category or the kind of the arguments.",
  [A],[("constructors",A+": Array(...)"),("conversions",A+": InitializerList, generator and converting constructors")])
p("C04","A failing array operation leaves every array as it was and loses nothing",
  "If an array operation cannot get memory, is given a size too large for memory, or fails because constructing or copying an element throws, the exception reaches the caller, no memory or element is lost, and the arrays remain valid. An operation that makes a new array or replaces an array's storage leaves all existing arrays with the contents they had before; only an assignment to elements in place may have been carried out in part. Moving and swapping arrays copy no element and cannot fail.",
  ["fault_sequences","histories"],"each allocation and each element construction or copy of each operation made to fail in turn, after random histories","No test makes an allocation or an element copy fail.",
  [A],[("construction guard",A+": ConstructionGuard"),("allocation before release",A+": operator=, resize, reallocate, uninitialized_new")])
p("C05","Copies of a shared array share its elements, which live until the last one goes",
  "Copying or assigning a shared array makes both refer to the same elements, so that a write through one is seen through all the others and through no unrelated array. A shared array that cannot be made, because memory ran out or an element failed, leaves nothing behind. The elements are destroyed, once, when the last array that refers to them is destroyed or assigned another, and not before.",
  ["histories"],"every history of constructions, copies, assignments (also to itself), writes and destructions of several handles","The tests do not use shared arrays at all.",
  [A],[("use count",A+": SharedArray copy constructor, operator=, destructor")])
p("C06","The complement of an index selection lists exactly the other indices",
  "For every size and every increasing selection of indices below it, the complement is the increasing sequence of exactly the indices below the size that were not selected.",
  ["inputs"],"all sizes and selections (all of them up to size 10, random ones up to hundreds)","No test calls it.",
  [A],[("complement",A+": complement(size_t,Array<size_t>)")])
L="include/lru_cache.hpp"
p("C07","A cache returns the value stored for a label and evicts the least recently used",
  "After any sequence of stores and reads, a cache holds the most recently used labels, never more than its capacity: storing into a full cache removes exactly the label that was stored or read longest ago. Each label held gives back the very value stored for it, and ages count the labels used since, from zero for the last one used. Asking for an age or for presence does not count as a use, and a copied cache is independent of the original.",
  ["histories"],"every history of stores, reads, queries and copies for capacities 1 to 65600 and different label and value types","The tests follow one fixed history on caches of capacity one and two.",
  [L],[("age bookkeeping",L+": get, put, age, has_label"),("eviction",L+": put")],["size, presence, age and value of every label after every operation"])
p("C08","A refused or failing cache operation changes nothing",
  "Reading or asking the age of an absent label, storing a label that is present, and making a cache of capacity zero fail with an exception. After a failed operation, including one that fails because memory ran out or copying the value threw, the labels held, their ages and their values are as before.",
  ["histories","fault_sequences"],"every state reachable by a history, followed by each kind of failing operation and each point of failure","The tests check that two operations throw, not what state the cache is left in, and inject no faults.",
  [L],[("preconditions",L+": get, put, age"),("copy before eviction",L+": put")])
p("C09","Joining, mapping and converting lists keeps every element and its order",
  "Appending an element or a list to a list, joining two lists into a new one, and making lists from and into arrays, sets and standard sequences keep all elements in order and leave the other operand unchanged, also when a list is joined with itself or one of its own elements. Applying a function to a list, or a binary function to two lists, calls it once per element, in order, and gives the list of results in that order. A join that fails, because memory ran out or an element could not be copied, leaves the other operand alone and loses no element.",
  ["histories","inputs"],"every history of joins on several lists, lengths 0 to hundreds, any element type, including self-joins","The tests convert one set to a list; nothing is joined.",
  [C],[("joining",C+": List::append, concatenate, catenate"),("mapping",C+": apply, elementwise")])
p("C10","Linked lists join without losing, repeating or moving elements",
  "Making a linked list from a size, a size and a value, iterators or another list, appending an element or a list (also itself) to it, and joining two into a new one give exactly the elements of the operands in order. Appending leaves references and iterators to earlier elements valid, and one that fails keeps every element that was there and leaves the other operand alone.",
  ["histories"],"every history of constructions and joins on several linked lists, including self-joins","No test uses linked lists.",
  [C],[("joining",C+": LinkedList::append, concatenate")])
p("C11","Set operations compute exactly union, intersection, difference and inclusion",
  "For all sets, the union, intersection, difference, adjoining, restriction and removal contain exactly the elements that their mathematical definitions say, inclusion, disjointness and membership are decided accordingly, and the results of applying a function to a set contain exactly the results. Operands that are not the one being changed stay as they are, and an operation on a set and itself follows the same definitions, and one that fails for lack of memory leaves the other operand alone and only such elements as the definition allows.",
  ["inputs"],"all pairs and triples of finite sets, in every relation (overlapping, nested, equal, disjoint, empty, identical)","The tests build one set and turn it into a list.",
  [C],[("set algebra",C+": Set::adjoin, restrict, remove, join, intersection, difference, subset, disjoint")])
p("C12","Finding repeated and shared elements of lists is exact",
  "Whether all elements of a list differ is decided correctly, the elements reported as repeated are exactly those that occur more than once, each reported once, and intersecting a set with a list, testing them for disjointness and removing a list's elements from a set give exactly what membership says.",
  ["inputs"],"all lists with any pattern of repetitions, and all sets","No test calls these functions.",
  [C],[("repetitions",C+": unique_elements, duplicate_elements")])
p("C13","Maps store, look up, merge and restrict entries by key exactly",
  "After any sequence of insertions, merges, removals and restrictions a map holds exactly the entries that follow: inserting or merging an entry whose key is present keeps the value already there, writing through the key replaces it, and restricting or removing by keys keeps exactly the right entries and leaves other maps alone. Looking up a present key gives its value; looking up an absent key through a checking accessor fails with an exception and adds nothing. An operation that fails for lack of memory leaves the other map alone and changes no entry that was there.",
  ["histories"],"every history of insertions, merges, removals, restrictions and lookups on two maps of several key and value types","The tests look up two keys and restrict one map of two entries.",
  [C],[("checked lookup",C+": Map::get, operator[] const"),("merging and restricting",C+": adjoin, join, insert, remove_keys, restrict_keys")])
S="include/stlio.hpp"
p("C14","Containers are written completely, in order, and in the documented notation",
  "Writing a sequence, set, map, pair, tuple or any nesting of them gives every element once, in order, each written as by itself under the stream's current settings, within the notation's delimiters and separated by commas, and returns the stream written to. Writing a range with given delimiters uses exactly those, also for ranges that can be passed only once.",
  ["inputs"],"all contents and nestings, lengths 0 to hundreds, any stream settings and delimiters","The tests print one array and look at no nested containers or delimiters.",
  [S],[("sequence writer",S+": write_sequence, write_map_sequence, operator<<")])
p("C15","Reading back a written sequence gives the same sequence",
  "Reading a sequence from what was written for it, with any white space between the tokens, gives the same elements, replacing whatever the container held. It takes exactly the characters up to the closing delimiter and leaves the stream ready to read what follows.",
  ["inputs","histories"],"all sequences of integers, reals and sequences, any matching delimiters and white space, several in a row","No test reads a sequence.",
  [S],[("sequence reader",S+": read_sequence, operator>>")])
p("C16","Malformed sequence text is always rejected, well-formed text never",
  "Reading a sequence accepts a text exactly if it is an opening delimiter, elements separated by single commas, and a closing delimiter, with white space anywhere between these tokens; the elements are then the ones in the text. Any other text, including a truncated one, is rejected with a stream failure exception, and reading always ends.",
  ["inputs"],"all short texts over the notation's characters, and texts a few edits away from a well-formed one (distinct opening and closing delimiters)","No test reads a sequence, well-formed or not.",
  [S],[("sequence reader",S+": read_sequence")])
p("C17","Binary words are ordered lexicographically; prefix and subword tests are exact",
  "For all binary words, order is lexicographic with a proper prefix before its extensions, equality means the same bits, and the prefix and subword relations hold exactly if the bits of the one begin, or occur consecutively in, the other. Sorting words therefore gives lexicographic order.",
  ["inputs"],"all pairs and triples of words up to hundreds of bits, drawn to be related","No test includes the header.",
  [B],[("relations",B+": operator==, operator<, is_prefix, is_subword")])
p("C18","Appending to and erasing from binary words changes exactly the stated bits",
  "Appending a bit or a word (also itself) adds exactly its bits at the end and keeps the rest; erasing a prefix removes exactly that many leading bits, all of them if there are fewer, and none if the length is not positive. Length, emptiness, last bit and number of bytes always agree with the contents.",
  ["histories"],"every history of appends, erasures, changes of the last bit and copies on several words","No test includes the header.",
  [B],[("editing",B+": append, erase_prefix, set_back")])
p("C19","A binary word survives being written and read",
  "Whatever the settings of the stream, writing a word gives its bits in order and leaves the settings as they were; reading that text, alone or followed by other text, or the bits listed between brackets, gives the same word, whatever the word held before. Malformed bracketed text and a stream with nothing to read are not taken for a word.",
  ["inputs","configurations"],"all words up to hundreds of bits, all stream settings, both notations, any text that follows","No test includes the header.",
  [B],[("text form",B+": operator<<, operator>>, BinaryWord(string)")])
p("C20","Changing an object through a handle never affects other handles to it",
  "Handles behave as values: after copying, assigning, moving or converting handles and changing the object of any of them through any accessor, every other handle and every shared pointer taken from one still refers to an object of the same class and value as before. Copying or reading a handle copies no object, and every object is destroyed exactly when nothing refers to it any more.",
  ["histories"],"every history of constructions, copies, assignments, moves, conversions, reads and changes on several handles to objects of several classes","No test includes the header.",
  [H],[("copy on write",H+": Handle::reference, pointer, make_unique, _copy"),("sharing",H+": Handle constructors, managed_pointer")])
p("C21","Casting a handle gives the same object or fails, never something else",
  "Casting a handle to another class or interface, or extracting an object from one, succeeds exactly if the object is of that class (or wraps an object of it), and then gives that object's class and value. Otherwise it fails with a bad-cast exception (for pointers: null) and changes nothing, and changing the result of a cast never changes the original handle.",
  ["inputs","histories"],"all pairs of an object's class and a target class, for plain, constant and shared handles","No test includes the header.",
  [H],[("checked casts",H+": dynamic_handle_cast, dynamic_handle_extract, dynamic_pointer_extract")])
W="include/writable.hpp"
p("C22","Objects write themselves to streams exactly once, however they are seen",
  "Writing an object that has a write function, directly, through its writable interface, or through a writer bound to it, puts exactly the text its own write function produces on the given stream, once, and returns that stream. Write functions see the settings of the stream, and their exceptions reach the caller. A writer held in a handle and copied goes on writing the object it was made for, and types without such a function are not taken to have one.",
  ["inputs","histories"],"all objects and values, seen as each of their classes, on any stream, through writers held and copied","No test includes the header.",
  [W],[("writing",W+": operator<<, WriterInterface, WriterHandle, has_write")])
V="include/variant.inl.hpp"
p("C23","A coded variant calls its visitor once, with the alternative its code stands for",
  "For every number of alternatives up to sixteen and any distinct codes, visiting a variant calls the visitor itself exactly once, with the alternative whose code it holds, and gives back the visitor's result, reference or exception. The code and the held alternative can be queried and agree, also for copies, and a code that belongs to no alternative never calls the visitor and never returns.",
  ["inputs","programs"],"1 to 16 alternatives, five code types with scattered codes, all alternatives, visitors of every result kind","No test includes the headers.",
  ["include/variant.hpp",V],[("dispatch",V+": coded_visit"),("code","include/variant.hpp: CodedVariant")])
I="include/iterator.hpp"
p("C24","Iterators made with the facade obey the laws of their traversal category",
  "Random-access iterators built on the facade move, compare, subtract and refer as positions in a sequence do, in both directions and by any distance, whatever the stride or element access behind them; forward iterators advance, compare and refer independently of their copies. Moving operators return the moved iterator itself, the others leave their operand alone, and pairs of iterators move, compare and are written as pairs.",
  ["histories","programs"],"every history of moves on several iterators over elements, constant elements and computed values, with positive and negative strides","No test includes the header.",
  [I],[("operators",I+": IteratorFacade, PairIterator")])
p("C25","A range passes each index from start up to but not including stop once, in order",
  "For every start and stop with start not above stop, anywhere in the values of an index, a range has stop minus start entries, its i-th entry is start plus i, and a loop over it passes exactly these values in order, also when nested or left early. A range given only a stop starts at zero.",
  ["inputs"],"all starts and stops including the largest index values","No test includes the header.",
  ["include/range.hpp"],[("range and iteration","include/range.hpp: Range, RangeIterator, begin, end")])
p("C26","Reference tuples write through; accessors return the very component",
  "Assigning a pair or tuple of values to a pair or tuple made of references to variables gives each variable its own value and changes nothing else, and making it copies no variable. The accessors for the first to fifth component return that very component with the constness and value category of the tuple.",
  ["inputs","programs"],"one to six variables and components of different types, constant, temporary and move-only","No test includes the header.",
  ["include/tuple.hpp"],[("reference tuples","include/tuple.hpp: make_lpair, make_ltuple"),("accessors","include/tuple.hpp: get_first ... get_fifth")])
p("C27","A lazy object is made on first use, once, and lives while it is referred to",
  "The function of a lazy object is not called before first use and is called exactly once if it succeeds; every use then refers to the same object, also through copies made after first use. If the function throws, the exception reaches the user and the next use tries again. The object is deleted once, when the last lazy object that refers to it goes.",
  ["histories","fault_sequences"],"every history of making, copying, assigning, using and dropping several lazy objects with functions that succeed, fail or use other lazy objects","The test makes one lazy object and uses it.",
  ["include/lazy.hpp"],[("retrieval on first use","include/lazy.hpp: Lazy::operator()")])
R="include/randomiser.hpp"
p("C28","Random values never leave the requested interval",
  "For every arithmetic type and every pair of bounds, including equal bounds and the limits of the type, every value generated lies within the bounds (for reals up to rounding in the last place), directly, through the interface, from copies, and when generators are used in turn.",
  ["inputs","histories"],"all bounds of all supported types, and the states of the generator reached from generated seeds","The tests draw a few values for one fixed interval per type.",
  [R],[("bounds",R+": UniformIntRandomiser, UniformRealRandomiser, RandomiserBase")])
p("C29","Random values are uniform, independent and differently seeded",
  "Over many draws every equal part of the interval, including both ends of an integer interval, is hit equally often, and successive values, of one generator or of several used in turn, are independent of each other. Generators made without a seed do not repeat each other, while the same seed gives the same values again.",
  ["inputs","configurations"],"all intervals, partitions and seeds, judged against statistical bounds that a correct generator misses less than once in 10^14 runs","The tests draw a few values and check the bounds only.",
  [R],[("distribution and shared engine",R+": RandomiserBase::get, RANDOM_GENERATOR, RandomGenerator")])
p("C30","A stopwatch reports the time from its last start to its last click",
  "After any sequence of restarts, clicks, waits and copies a stopwatch reports the time from its last start to its last click after it (nothing if there was none), rounded towards zero to its unit, and the same in seconds to within one unit. Reading it any number of times does not change it, and stopwatches do not influence each other.",
  ["histories","schedules"],"every history on several stopwatches of several units over a generated timeline, from nanoseconds to years","The tests sleep and compare two durations.",
  ["include/stopwatch.hpp"],[("start and click","include/stopwatch.hpp: restart, click, duration, elapsed_seconds")])
p("C31","Strings convert to and from text without loss",
  "The text of any value is what writing it to a fresh stream gives, and a string made from characters, a standard string or a range, with any characters including zero bytes, has exactly these characters and compares, joins and is written as a standard string.",
  ["inputs"],"all values of built-in and user types, all strings of any characters","The tests do not look at strings.",
  ["include/string.hpp"],[("conversion","include/string.hpp: to_string, to_str, c_str, String")])
M="include/macros.hpp"
p("C32","Assertions throw exactly when their condition is false, and say where and what",
  "An assertion or precondition throws the documented exception exactly if its condition is false, evaluating the condition once, with a message that contains the file, the line, the condition and the caller's text, whatever operators or variables occur in them; the text is evaluated only on failure. The debug forms do the same in a build with debugging on and have no effect at all otherwise. Warnings go to the error stream, those given once only once.",
  ["inputs","configurations"],"all conditions and texts used, true and false, in builds with and without debugging","The tests never make an assertion fail except through two cache and array calls, and do not look at messages.",
  [M],[("assertions",M+": HELPER_ASSERT..., HELPER_PRECONDITION..., HELPER_DEBUG_..., HELPER_THROW"),("notices",M+": HELPER_WARN_ONCE, HELPER_DEPRECATED")])
T="include/test.hpp"
p("C33","A unit-test check counts a failure exactly when it fails, and testing goes on",
  "Each use of a unit-test check adds one to the count of failures exactly if the check fails (a false condition, a value outside the tolerance, a missing exception or a standard exception of the wrong type), reports it with its place on the error stream exactly then, and lets the tests that follow run; what it writes on the standard output never says the opposite. Skipped calls are counted and not made, and a check that passes evaluates its arguments once.",
  ["histories","inputs"],"all sequences of checks with values that pass and fail and calls that throw","The tests use the macros only where they pass, so that a macro that never fails would not be noticed.",
  [T],[("counting",T+": HELPER_TEST_..., HELPER_TEST_FAILURES, HELPER_TEST_CATCH")])
p("C34","Compile-time predicates and result types on types are exact",
  "For every list of types, whether they are all the same, whether a type is among them, its index and the first and second are as for any list; for every pair of types the predicates on conversion, construction, assignment, derivation, calls and operators hold exactly if the language allows the operation in that direction. Result types are those of the expressions they are named for.",
  ["inputs","programs"],"all lists of up to four types out of four, all pairs of 23 types chosen to differ, ten kinds of callables with each of them, chosen to differ in every predicate, and a list of expressions","The tests use two of the predicates indirectly.",
  ["include/metaprogramming.hpp"],[("type lists and concepts","include/metaprogramming.hpp")])
p("C35","A stack trace names the calling functions, innermost first",
  "When stack traces are enabled, a trace names on the error stream every function between it and the start of the program that the system can name, in readable form, innermost first, up to its limit of frames; it leaves the stream usable and nothing allocated.",
  ["inputs","programs"],"all chains of up to 230 calls of functions, overloads, class template members and C functions","The test calls it in a build in which it does nothing.",
  ["src/stack_trace.cpp"],[("frames and names","src/stack_trace.cpp: stack_trace")])
p("C36","The headers can be combined in any order and in any number of files",
  "A program of any number of files, each including any of the library's headers in any order, alone or with others, once or repeatedly, compiles with each supported compiler, with and without debugging, links, and gets from each header what it provides. What a header keeps for the whole program, such as the count of failed tests, is common to all its files.",
  ["programs","configurations"],"programs of one to four files with up to ten headers each in generated orders, two compilers; and every header alone","Each test is a single file that includes one or two headers in a fixed order, next to standard headers, so that a missing include, an order that matters or a definition that must not be repeated is not noticed.",
  ["include/array.hpp","include/test.hpp","include/iterator.hpp","include/variant.inl.hpp","include/writable.hpp"],[("definitions that may be repeated","include/*.hpp: inline functions and variables, include guards"),("includes","include/*.hpp: #include lines")])
p("C37","Threads that use different objects do not disturb each other",
  "When several threads work at the same time, each on its own objects (arrays, shared arrays, caches, lists, sets, maps, words, sequences, variants, iterators, lazy objects, watches, texts, assertions), on constant containers and words that all of them read and copy, or on handles of their own that refer to one object, every thread gets exactly what the same work gives alone, and there is no data race.",
  ["schedules","histories"],"two to four threads with generated work, under ThreadSanitizer and in an optimised build","The tests use one thread.",
  ["include/array.hpp","include/container.hpp","include/handle.hpp","include/lru_cache.hpp","include/binary_word.hpp","include/string.hpp","include/stlio.hpp"],[("no hidden common state","include/*.hpp: no function keeps a variable of its own between calls"),("copy on write","include/handle.hpp: make_unique, clone before a change")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
T={"C37":"property-based testing of concurrent work against the same work done alone, under ThreadSanitizer","C04":"fault-injecting property-based testing","C08":"fault-injecting model-based testing"}
stateful="C01 C02 C05 C07 C09 C10 C13 C18 C20 C24 C27 C30 C33".split()
tech=lambda i: T.get(i) or ("stateful model-based property testing, coverage-guided fuzzing" if i in stateful else "property-based testing against a reference, coverage-guided fuzzing")
NOTE={"C37":"ThreadSanitizer and an optimised build; no coverage-guided campaign. Random numbers (one generator for all), and the counts and once-only notices of macros are not included.","C36":"Random programs only: no fuzzing, since a case costs seconds; two compilers and one standard library.","C29":"Statistical: a bias smaller than the stated bounds (about 10 to 30 per cent per cell) is not seen.","C30":"The standard clocks are replaced by a generated timeline inside the harness; a real-time bracket test covers the case that another clock is used.","C34":"The space of type lists is enumerated completely; pairs of types are a fixed pool.","C35":"Built with the feature enabled; relies on glibc's backtrace and on exported symbols.","C04":"Every failure point is drawn at random, not enumerated."}
M=dict(version=1,setup_cmd="python3 run.py --build-engine",checks=[dict(property=x["id"],quick_cmd="python3 run.py "+x["id"],thorough_cmd="VERIF_TIER=thorough python3 run.py "+x["id"],technique=tech(x["id"]),level="exploration",
   level_note=("No counterexample among the generated cases (counts in the evidence file), in a sanitizer build with clang and an optimised build with g++"+(", and in a coverage-guided campaign" if x["id"] not in ("C36","C37") else "")+". "+NOTE.get(x["id"],"")).strip()) for x in P],not_applicable=[],
   notes="One driver (run.py) builds each harness section of props/*.cpp against /repo and runs it. Replay a failure with: python3 run.py --replay FILE. No hooks in /repo.")
json.dump(M,open("/verif/MANIFEST.json","w"),indent=1)
