prop("C02", "VM state machine: a VM that stops says why, and a stopped VM stays put",
     "Executing an instruction on a virtual machine that is not ready to run changes nothing and reports that state. Whenever an instruction, or an API call that runs script code, fails, the machine ends in the error state with a non-zero error code and an error message, and the failure is what the call returns; when it does not fail, no error code or message is left behind. Undefined opcodes are errors.",
     ["programs", "histories"], "every opcode byte (0..255), every operand type and stack content, every machine state in which an instruction is requested",
     "The tests run a few well-formed scripts to completion; they never step a stopped machine and never reach most of the error exits.",
     VM, [("buzzvm_step", "src/buzz/buzzvm.c"), ("buzzvm_seterror", "src/buzz/buzzvm.c"), ("BUZZVM_STATE_* / BUZZVM_ERROR_*", "src/buzz/buzzvm.h")],
     state=[("vm->state, vm->error, vm->errormsg", "state machine of the VM", "src/buzz/buzzvm.h")])
prop("C03", "No bytecode, however truncated or corrupted, makes the VM read outside it",
     "Loading and executing bytecode reads no byte before its beginning or after its end, whatever the bytecode contains, wherever a jump, call, return or the end of the code leads, and whatever its size. An instruction that does not fit ends in an error instead.",
     ["programs", "inputs"], "all bytecode buffers of all sizes, all program counters",
     "Tests only load bytecode produced by the assembler.",
     VM, [("pc assertions in buzzvm_step", "src/buzz/buzzvm.c"), ("buzzvm_set_bcode", "src/buzz/buzzvm.c")])
prop("C04", "Arithmetic, comparison, logic and bit operators compute what the language says",
     "For every combination of operand types each binary or unary operator either yields the value the language defines for that combination (int with int stays int, any float makes the result float, comparisons and logic yield the integers 0 or 1, nil compares only equal to nil, operand order respected) or raises a type error when the combination is not defined; integer division or modulo by zero or overflow is an error, never a crash. The operands are left unmodified and the result is a new value.",
     ["programs", "inputs"], "every operator, every pair of operand types, all operand values",
     "The scripts in the tests use a handful of type/value combinations per operator, most of them int/int.",
     VM, [("operator macros and buzzobj_cmp", "src/buzz/buzzvm.c, src/buzz/buzztype.c")])
prop("C05", "One notion of truth for every condition",
     "A value counts as false exactly when it is nil or the integer 0, and as true otherwise (float 0 and empty tables or strings included). All consumers of conditions - conditional jumps (if, while, for), and, or, not - follow this same rule.",
     ["programs", "inputs"], "all value types and values at each condition consumer",
     "Tests only use int conditions.",
     VM, [("jumpz/jumpnz/and/or/not instructions", "src/buzz/buzzvm.c")])
prop("C06", "Every instruction has its documented stack effect and never underflows",
     "Each instruction that succeeds changes the stack depth by the amount documented for it, and continues at the following instruction or at its jump target. With fewer operands than it needs, it raises a stack error, and in no case reads a stack slot that does not exist.",
     ["programs", "inputs"], "all instructions, all stack depths, all operand types and arguments",
     "Compiler-generated code keeps the stack balanced, so tests never run instructions on short stacks.",
     VM, [("buzzvm_stack_assert and the instruction implementations", "src/buzz/buzzvm.c")])
prop("C07", "Calls and returns are balanced and bind arguments and results correctly",
     "Calling a closure consumes exactly the arguments, the closure, the self value and the argument count, gives the callee a fresh stack and a fresh frame holding the captured symbols followed by the arguments in order, and returning restores the caller's stack, frame and position and leaves exactly one result (the returned value, or nil). Calls made from C behave the same, run the callee to its return and nothing beyond it, and report failure through the returned state; wrong argument counts, non-closures and unknown C functions are errors and leave no frame behind.",
     ["programs", "histories"], "any closure (script or C), any argument count, nesting depth, caller stack content",
     "Tests call functions with a few arguments from scripts only and cannot see frames or stacks.",
     VM, [("buzzvm_call, buzzvm_ret0, buzzvm_ret1, buzzvm_closure_call, buzzvm_function_call", "src/buzz/buzzvm.c")])
prop("C08", "Variables and tables hold exactly what was stored in them",
     "Loading a local, a global or a table entry yields the object most recently stored under that slot, name or key, and nil when there is none; storing nil into a table entry removes it, and no other variable or entry changes. Constants pushed by the code are the encoded ones. A wrong operand type, a missing local slot, or an unknown string is an error instead.",
     ["programs", "histories"], "all slots, names, keys, object types, and table/frame contents",
     "Tests store and read back a few values; they cannot cover absent entries, every key type, and non-interference.",
     VM, [("lload/lstore/gload/gstore/tput/tget/push* implementations", "src/buzz/buzzvm.c")])
MSG = ["src/buzz/buzzmsg.c", "src/buzz/buzzmsg.h", "src/buzz/buzztype.c"]
prop("C13", "A value sent in a message is decoded as the same value",
     "Decoding what was encoded yields an equal value and consumes exactly the bytes that were written, whatever precedes or follows them: nil, every int, every finite float (up to rounding of its mantissa; sign, zero and exponent exactly), every string of up to 65535 characters, functions (code reference and native flag), and tables of up to 65535 entries nested to any depth. Values that cannot be sent (userdata, closures with captured symbols) arrive as nil, or as missing entries, and never damage what follows. Encoding only appends to the message, decoding never changes it, and integers travel most significant byte first.",
     ["inputs"], "all values of all types, any prefix and suffix in the same message, all bytes of every field",
     "Tests encode a few small values; boundary lengths, every byte lane, sign and exponent handling cannot be enumerated.",
     MSG, [("buzzobj_serialize / buzzobj_deserialize", "src/buzz/buzztype.c"), ("buzzmsg_serialize_* / buzzmsg_deserialize_*", "src/buzz/buzzmsg.c")],
     note="Strings are analysed at several concrete lengths with symbolic characters plus the length field at every length; tables at several shapes plus the size field at every size.")
prop("C15", "Malformed messages are discarded without any effect",
     "Whatever bytes a received message consists of, processing it reads no byte outside the message and ends with the machine ready and its stack unchanged, unless a listener called by a well-formed message fails. A message that is empty, of unknown kind, truncated, or that contains an unknown type tag, a topic that is not a string, or a key of an inadmissible type, has no effect at all: no listener is called, no stigmergy or swarm information changes, no message is sent. The process never aborts, and every message is released exactly once.",
     ["inputs"], "all messages of all lengths and contents, at every decoding position, nested values included",
     "Messages come from other robots over unreliable radios; tests only send well-formed ones.",
     MSG + ["src/buzz/buzzvm.c", "src/buzz/buzzvstig.c"],
     [("buzzmsg_deserialize_*, buzzobj_deserialize, buzzvstig_elem_deserialize", "src/buzz/buzzmsg.c, src/buzz/buzztype.c, src/buzz/buzzvstig.c"), ("buzzvm_process_inmsgs", "src/buzz/buzzvm.c")],
     note="Nested values are covered by induction on the recursive decoder's contract.")
prop("C16", "Virtual stigmergy messages are merged by timestamp, then by conflict rule",
     "A received PUT is stored and propagated when its entry is unknown locally or older than the received one, resolved as a conflict when the timestamps are equal but the writing robots differ, and ignored otherwise. A received QUERY is propagated when nothing is known about the entry, answered with the local entry when that is newer, treated as a PUT when the received one is newer, resolved as a conflict as above, and ignored when both are the same. A conflict is decided by the user's manager (called with the key and both entries; its result becomes the entry, with the local timestamp) or by default in favour of the only non-nil value, else of the higher robot id; the winner is stored and propagated, and the conflict-lost manager is called with the old local entry exactly when this robot's entry loses. A manager that fails or returns no valid entry changes nothing; a manager that changes the stigmergy causes no use of released entries.",
     ["inputs", "histories", "schedules"], "all ids, keys, values, timestamps, robot ids, local states, manager results",
     "Convergence depends on every robot applying the same rule to every combination of timestamps and robots; tests never exchange messages.",
     ["src/buzz/buzzvm.c", "src/buzz/buzzvstig.c", "src/buzz/buzzvstig.h"],
     [("BUZZMSG_VSTIG_PUT / BUZZMSG_VSTIG_QUERY in buzzvm_process_inmsgs", "src/buzz/buzzvm.c"), ("buzzvstig_onconflict_call, buzzvstig_onconflictlost_call", "src/buzz/buzzvstig.c")],
     note="Timestamps are compared as 16-bit numbers without wrap-around.")
prop("C17", "Stigmergy put/get/size/foreach/create do what they say, and tell neighbors",
     "put() of a value stores it under the key with a timestamp one higher than that of the entry it replaces (1 if there was none) and with this robot's id, and announces exactly that entry in a PUT message; put() of nil deletes the entry and announces nil with the next timestamp, or does nothing when there is no entry. get() returns the stored value (nil if none), changes nothing, and sends one QUERY with the local entry (or nil, timestamp 0). size() is the number of entries; foreach() calls its function with key, value and robot once per entry and stops at the first error; onconflict/onconflictlost replace only their own manager; create() makes an empty stigmergy with all its methods, without managers. Keys that are functions or userdata, non-function callbacks, non-int ids, wrong argument counts and objects that are not stigmergies are errors and have no effect. On an id that does not exist, put does nothing and get returns nil.",
     ["inputs", "histories"], "all ids, key and value types and values, local entries, argument counts and types",
     "No test exercises the stigmergy functions on anything but one int and one string key, and none inspects timestamps, robots or queued messages.",
     ["src/buzz/buzzvstig.c", "src/buzz/buzzvstig.h"],
     [("buzzvstig_create/put/get/size/foreach/onconflict/onconflictlost", "src/buzz/buzzvstig.c")],
     note="Timestamps are assumed not to wrap around (16 bits).")
prop("C18", "Swarm operations keep membership, announcements and the swarm stack right",
     "join/leave/select set this robot's membership in exactly that swarm as asked and announce exactly that JOIN or LEAVE; in() reports it; create() registers the swarm as not joined unless it was known already; others/union/intersection/difference compute the new swarm's membership from the operands' by the set operation they are named after, announce JOIN exactly when it results in membership, and leave the operand swarms alone. All return a table with the right id and all methods. exec() runs its function if and only if the robot is a member, with that swarm as the current one, to its return and nothing beyond; swarm.id() reports the current (or n-th enclosing) swarm, nil outside any. Unknown swarms, arguments of the wrong type or number, and objects that are not swarms are errors and change nothing.",
     ["inputs", "histories"], "all swarm ids, membership states, argument types and counts, swarm-stack depths",
     "Tests create a couple of swarms and check a few results; announcements and non-interference are never observed.",
     ["src/buzz/buzzswarm.c", "src/buzz/buzzswarm.h"],
     [("buzzswarm_create/join/leave/in/select/others/union/intersection/difference/exec/id", "src/buzz/buzzswarm.c")])
prop("C14", "A message has the effect at the receiver that the sender meant",
     "What the sending robot takes out of its queue and encodes, the receiving robot decodes and acts upon as the same message: a broadcast calls the listener of that topic (and nobody else) with the topic, the value and the sender's id; a swarm list replaces what is known about the sender by exactly those swarms; a join or leave adds or removes exactly that swarm for the sender; a stigmergy PUT or QUERY concerns the same stigmergy, key, value, timestamp and writing robot that were queued.",
     ["inputs", "histories"], "all message kinds, ids, topics, values, timestamps, robot ids; swarm lists of 1 to 3 swarms",
     "No test sends a message from one machine to another; the two sides are written in different files and can drift apart.",
     ["src/buzz/buzzoutmsg.c", "src/buzz/buzzvm.c", "src/buzz/buzzvstig.c", "src/buzz/buzzmsg.c"],
     [("buzzoutmsg_queue_first", "src/buzz/buzzoutmsg.c"), ("buzzvm_process_inmsgs", "src/buzz/buzzvm.c"), ("buzzvstig_elem_serialize/deserialize", "src/buzz/buzzvstig.c")],
     note="Serialized values are single opaque items here (their round trip is C13); list lengths 1 to 3.")
prop("C19", "What is known about other robots' swarms follows the news and expires",
     "Membership information about a robot is updated by its messages only: a join adds that swarm (once), a leave removes it and forgets the robot when none is left, a list replaces all its swarms; join and list reset the age of the information. A query reports a robot as in a swarm exactly when the information says so. Information ages by one per round, and a robot is forgotten exactly when it has not been heard of for more than 50 rounds; no other robot's information changes.",
     ["histories", "inputs"], "all robot and swarm ids, all ages, membership lists of every content up to 3 swarms",
     "Tests never receive swarm messages nor run 50 rounds.",
     ["src/buzz/buzzswarm.c", "src/buzz/buzzswarm.h", "src/buzz/buzzvm.c"],
     [("buzzswarm_members_join/leave/refresh/isrobotin/update", "src/buzz/buzzswarm.c")],
     note="Per-robot swarm lists of 0 to 3 symbolic ids.")
prop("C20", "Message queues lose, duplicate, reorder and stale nothing",
     "Outgoing messages of one kind leave in the order in which they were queued, each exactly once: first() describes the message that next() removes, and size() counts what is left. Values are copied when queued. A join or leave replaces a queued join or leave of the same swarm, and a swarm list replaces all queued joins, leaves and lists. Of the messages about one stigmergy entry only the newest stays queued: a newer one replaces the queued one, a same or older one is dropped; other entries are unaffected. While the robot knows swarms, its list is announced every 10 rounds. Incoming messages are delivered exactly once, in order of arrival per robot, with the id of their sender.",
     ["histories", "schedules", "inputs"], "queues of every kind holding 0 to 3 messages with arbitrary contents, all ids, keys, timestamps",
     "No test looks at queues; replacement needs particular sequences of operations.",
     ["src/buzz/buzzoutmsg.c", "src/buzz/buzzinmsg.c", "src/buzz/buzzvm.c"],
     [("buzzoutmsg_queue_append_*, buzzoutmsg_queue_first/next/size", "src/buzz/buzzoutmsg.c"), ("buzzinmsg_queue_append/extract", "src/buzz/buzzinmsg.c"), ("buzzvm_process_outmsgs", "src/buzz/buzzvm.c")],
     note="Queues of concrete length 0 to 3 with symbolic messages.")
prop("C09", "Table and type functions compute what their names say",
     "size() counts the entries of a table. foreach/map/filter/reduce call the function once per entry with its key and value (reduce: and the accumulated value), and return nothing, a new table of the (non-nil) results under the same keys, a new table with exactly the entries for which the result was true (neither nil nor the int 0), and the last accumulated value (the initial one for an empty table). clone() yields a copy sharing no table with the original; type() and the is*() predicates tell the actual type; int()/float() convert numbers and refuse others. The original table is not modified, an error raised by the called function ends the operation and is kept, wrong argument counts and types are errors, and no object collected meanwhile is used.",
     ["inputs", "programs"], "all argument counts and types, entries of any type, called functions returning any value, failing, or triggering garbage collection at every call",
     "Tests map and filter one small table with well-behaved functions.",
     ["src/buzz/buzztype.c", "src/buzz/buzzheap.c"],
     [("buzzobj_foreach/map/filter/reduce/clone/size/type/is*/int/float", "src/buzz/buzztype.c"), ("buzzheap_clone", "src/buzz/buzzheap.c")],
     note="Tables of 0 to 3 entries with symbolic keys and values.")
prop("C21", "Neighbor queries and communication do what they say",
     "count() is the number of known neighbors; get(id) is that neighbor's data or nil; foreach/map/filter/reduce act on every known neighbor exactly once like their table counterparts; kin() and nonkin() select exactly the neighbors that are, respectively are not, known members of the swarm on top of the swarm stack; outside any swarm, kin() selects all and nonkin() none. Structures returned by map, filter, kin and nonkin have the same query functions. broadcast() queues the topic and value for sending, listen() makes the function the only listener of the topic and ignore() removes it. Without neighbor data, queries behave as if there were no neighbors. Wrong argument counts and types are errors, errors of called functions are kept, no collected object is used.",
     ["inputs", "histories"], "all argument counts and types, neighbor data of any content, swarm stacks, membership answers, called functions returning anything, failing or triggering garbage collection",
     "Tests have no neighbors but those of a simulator that is not part of the test suite.",
     ["src/buzz/buzzneighbors.c", "src/buzz/buzzneighbors.h", "src/buzz/buzzvm.c"],
     [("buzzneighbors_count/get/foreach/map/reduce/filter/kin/nonkin/broadcast/listen/ignore/reset/add", "src/buzz/buzzneighbors.c")],
     note="0 to 2 neighbors with symbolic ids and data.")
prop("C11", "Garbage collection releases exactly what nothing refers to",
     "A collection keeps every object that can be reached from the stacks, the activation records, the global symbols, the stigmergies (elements and conflict managers), the message listeners and the machine's other references, through any chain of tables (keys and values), closures and activation records, cycles included, and it releases every other object, each once, with the storage that belongs to it. Strings that a surviving object or listener refers to survive. New and cloned objects are known to the collector from their creation, and containers never release the objects they merely refer to.",
     ["histories", "programs"], "every kind of root, every object type reached directly, through table keys or values, activation records or cycles, all marker values including wrap-around, any interleaving of garbage in the heap",
     "Collections occur only after many allocations; a missing root only shows when the object is used after a collection, which no test arranges.",
     ["src/buzz/buzzheap.c", "src/buzz/buzzheap.h", "src/buzz/buzzvm.c"],
     [("buzzheap_gc, buzzheap_obj_mark, buzzheap_newobj, buzzheap_clone, buzzheap_destroy_obj", "src/buzz/buzzheap.c")],
     note="Heaps of concrete shape with one object of each type behind every kind of root.")
prop("C12", "Objects in use are never released under the code that uses them",
     "A collection starts only between two instructions. Native code that calls back into script functions (table, neighbor, swarm, stigmergy and message functions, conflict managers, listeners) keeps every object it goes on using reachable across these calls, and copes with the called function changing the container it works on: it never uses, stores or returns an object or container element that a collection or the called function has released.",
     ["histories", "schedules", "programs"], "every native function that calls script code, a collection at each such call, called functions that return anything, fail, or remove elements from the containers in use",
     "It takes a callback that allocates enough to trigger a collection, at the right moment.",
     ["src/buzz/buzztype.c", "src/buzz/buzzneighbors.c", "src/buzz/buzzswarm.c", "src/buzz/buzzvstig.c", "src/buzz/buzzvm.c", "src/buzz/buzzheap.c"],
     [("closure calls from C functions", "src/buzz/buzztype.c, src/buzz/buzzneighbors.c, src/buzz/buzzvstig.c, src/buzz/buzzvm.c")],
     note="A script function that re-creates the very stigmergy whose foreach() is running is excluded.")
prop("C22", "Dictionaries map each key to the value last stored under it",
     "After any sequence of insertions, replacements and removals, a dictionary (behind tables, symbols, stigmergies, neighbors and string tables) gives for each key the value last stored under it and nothing for keys never stored or removed; its size is the number of keys; visiting calls the function exactly once per entry; replaced and removed entries are released exactly once, and destroying the dictionary releases everything else. Removing entries while visiting is memory-safe. The key comparisons and hashes agree: keys that compare equal have equal hashes, and strings are never the same key as numbers.",
     ["histories", "inputs"], "all sequences of operations up to the depth bound over keys that collide and keys that do not, several bucket counts, key and data sizes; all pairs of key types",
     "Collisions, removals in the middle of a bucket and removal during a visit need particular sequences of operations.",
     ["src/buzz/buzzdict.c", "src/buzz/buzzdict.h", "src/buzz/buzzdarray.c", "src/buzz/buzztype.c"],
     [("buzzdict_new/set/rawget/remove/foreach/destroy, key hash and comparison functions", "src/buzz/buzzdict.c"), ("buzzobj_hash, buzzobj_keycmp", "src/buzz/buzztype.c")],
     note="Histories of bounded length over few keys (the code treats buckets and elements uniformly); memory allocation never fails.")
prop("C23", "Dynamic arrays behave as sequences and own their memory",
     "After any sequence of operations a dynamic array holds the sequence these operations describe: insertion shifts the rest right, insertion past the end appends, removal closes the gap, set replaces, clear empties, clone and frombuffer make independent copies, find gives the first match, sorting yields an ordered permutation. Elements are kept across growth and shrinking, the element destructor is called exactly once for each element that goes away, and no access leaves the storage.",
     ["histories", "inputs"], "all sequences of operations up to the depth bound, arrays of 0 to 9 elements, several capacities and element sizes, all orders of few elements for sorting",
     "Capacity boundaries are crossed only by particular sequences; tests push and pop.",
     ["src/buzz/buzzdarray.c", "src/buzz/buzzdarray.h"],
     [("buzzdarray_new/clone/frombuffer/insert/makeslot/remove/set/clear/foreach/find/sort/destroy", "src/buzz/buzzdarray.c")],
     note="Bounded sizes and histories; opaque element contents; memory allocation never fails.")
prop("C24", "String identifiers stay unique and strings live as long as needed",
     "Registering a string gives the identifier it already has, or one that no other string in use has, even after the identifier counter has wrapped around; the identifier gives back an equal string, independent of the caller's copy. A collection of strings releases exactly those that were neither marked since it began nor protected, whatever the order of registration and marking; all others keep their identifiers. Destroying the manager releases everything.",
     ["histories", "inputs"], "registration orders, protection sets and every subset of marks over 5 strings in ascending and descending order, counters around the wrap-around",
     "Tests register a few strings once; which nodes of the identifier tree have two children depends on registration and marking order.",
     ["src/buzz/buzzstrman.c", "src/buzz/buzzstrman.h", "src/buzz/buzzdict.c"],
     [("buzzstrman_register/get/gc_clear/gc_mark/gc_prune/destroy", "src/buzz/buzzstrman.c")],
     note="5 (thorough: 6) strings; fewer than 65536 strings alive; memory allocation never fails.")
prop("C31", "Sets hold exactly the elements inserted and not removed",
     "After any sequence of insertions and removals a set (it holds the debugger's file names and breakpoints) contains each element inserted and not removed since, once, as first inserted; lookups find exactly those, size counts them, a visit reaches each once. The element destructor is called exactly once for each element that goes away and never on an element that stays; destroying the set releases all its memory.",
     ["histories", "inputs"], "all insertion orders of 4 elements (hence all tree shapes) and selected ones of 7, every removal and pair of removals, absent elements, removal by the element found in the set",
     "The test inserts and removes a few strings in one order and never looks at the result.",
     ["src/buzz/buzzset.c", "src/buzz/buzzset.h"],
     [("buzzset_new/insert/remove/find/foreach/destroy", "src/buzz/buzzset.c")],
     note="4 (thorough: 5) elements in all orders; memory allocation never fails.")
prop("C29", "Assembling and disassembling preserve the program",
     "The assembler encodes every instruction as its opcode followed by exactly the operand written (integers in decimal, floats, label positions wherever the label stands), strings as written (escape sequences included, with or without a final newline) and their count, and attaches each annotation of line, column and file to the offset it stands at, whatever the size of the program and the spacing and comments in it. The disassembler prints exactly the instructions, operands, strings and annotations of a program. Unknown instructions or labels, missing operands, unknown opcodes, truncated bytecode and failing file operations are reported by a non-zero result; nothing is read or written outside the buffers.",
     ["programs", "inputs"], "every instruction, boundary operands, labels before and after their use, strings of every kind of character, program sizes around the buffer growth, every truncation of a program, every failing file operation",
     "Tests assemble a few programs and compare nothing; growth of the buffer, truncation and failures are never reached.",
     ["src/buzz/buzzasm.c", "src/buzz/buzzasm.h", "src/buzz/buzzdebug.c"],
     [("buzz_asm, buzz_asm_labsub, buzz_deasm", "src/buzz/buzzasm.c")],
     note="Programs of bounded size that cover each rule of the format; memory allocation never fails.")

prop("C01", "A compiled script does what its source says",
     "The code the compiler emits for a script performs the effects the source prescribes, in order: every operator with the documented precedence and associativity, conditions and loops for every outcome of the tests, table constructors, references, calls and call chains with their arguments in order, methods with their self table, functions known before their definition, parameters and variables of functions local and of blocks confined to the block, lambdas with the captured values, string literals with their escape sequences, files included (from the directories of the include path) as if written in place. Layout (spaces, newlines, semicolons, comments) makes no difference. The position attached to each instruction is that of a token of the script. A script that is not well-formed, a missing include and a failing file operation are refused with a message and a failing result; the compiler never reads or writes outside its buffers and always ends.",
     ["programs", "inputs"], "a corpus of about 900 scripts: every production of the grammar, every pair of operators in both nestings, every branch outcome, scoping and capture patterns, erroneous scripts and truncations",
     "Tests compile a few scripts and look only at whether the compiler succeeds; the meaning of the code is never compared with the source.",
     ["src/buzz/buzzparser.c", "src/buzz/buzzlex.c", "src/buzz/buzzparser.h", "src/buzz/buzzlex.h"],
     [("parse_script and the parse_ functions", "src/buzz/buzzparser.c"), ("buzzlex_nexttok", "src/buzz/buzzlex.c"), ("chunk_addcode, sym_add, sym_lookup", "src/buzz/buzzparser.c")],
     note="Decided for the scripts of the corpus (translation validation of each); memory allocation never fails. `and` and `or` have the same precedence and do not short-circuit, as implemented and documented by the grammar.")

prop("C28", "Debug information maps both ways and survives its file",
     "After any sequence of annotations, an offset maps to the position (line, column, file) given last for it, a position to the lowest offset annotated with it, and anything else to nothing, whatever the hash values of the positions. Writing debug information to a file and reading it back yields the same mapping for file names of any length up to 65535 and any line and column; a file that is cut short yields only annotations that were written. Every failing file operation is reported by the result (1 for success, 0 for failure) and leaves no file open; destroying the structure releases everything once. A breakpoint exists exactly where one was set. A program that is continued runs to its next breakpoint, its end or an error, whichever comes first, gets past a breakpoint when it is continued from it, and reports its end or error as such.",
     ["inputs", "histories", "fault_sequences"], "every history of up to three annotations over colliding and distinct offsets and positions, larger ones with more positions than hash buckets, boundary name lengths, every failing operation, every short schedule of steps, states and breakpoints",
     "No test reads debug information back, sets a breakpoint or lets a file operation fail.",
     ["src/buzz/buzzdebug.c", "src/buzz/buzzdebug.h"],
     [("buzzdebug_info_set, buzzdebug_info_get_fromscript", "src/buzz/buzzdebug.c"), ("buzzdebug_tofile, buzzdebug_fromfile", "src/buzz/buzzdebug.c"), ("buzzdebug_breakpoint_*, buzzdebug_continue", "src/buzz/buzzdebug.c")],
     note="Histories and schedules of the stated sizes; the VM's step is represented by its contract. buzzdebug_backtrace() is unfinished (its table of entry points is never filled) and not covered.")

prop("C30", "The tools' exit status tells whether they did their work",
     "bzzparse, bzzasm, bzzdeasm and bzzrun exit with status 0 exactly when every operation they depend on succeeded (opening, reading and writing files, parsing, assembling, loading, running the program to its end), and otherwise with a status that is not 0 after a message on the standard error stream. Reads and writes that transfer only part of the data are continued where they ended, so that the whole program, in order, is what gets written, disassembled or run; each argument is used for what the usage message says; an invalid command line is reported and nothing is read or written.",
     ["fault_sequences", "inputs"], "every path through the four main functions, with every outcome of every operation (failure, partial transfer, each VM state)",
     "Tests run the tools on good input and a working file system only.",
     ["src/buzz/buzzparse.c", "src/buzz/buzzasm_main.c", "src/buzz/buzzdeasm_main.c", "src/buzz/buzzrun.c"],
     [("main", "src/buzz/buzzparse.c"), ("main", "src/buzz/buzzasm_main.c"), ("main", "src/buzz/buzzdeasm_main.c"), ("main", "src/buzz/buzzrun.c")],
     note="The operations are represented by their contracts (which C01, C28, C29 and the VM properties are about); missing debug information does not make bzzrun fail; memory allocation and close() succeed.")

prop("C10", "Math functions compute the function they are named after",
     "Each function of math takes the number of arguments the manual gives, each an int or a float, and returns that mathematical function of them: abs keeps the type of its argument, floor, ceil and round give an int, min and max return the lesser or greater of two comparable values (ints and floats mixed, in either order), the others a float. rng.uniform returns, for every draw of the generator, a value in the interval given (an int between int bounds, both bounds included; otherwise a float), gaussian and exponential follow their defining expressions in the draws with the parameters in their place. The generator is a deterministic function of its seed: the same seed gives the same sequence, each draw advances the state once, and no access leaves the state. Any other number or type of arguments raises an error.",
     ["inputs"], "all argument counts, types and values of every math function; all draws; the whole generator state",
     "Tests call few functions at few points; wrong results appear only for particular types, signs or argument orders.",
     ["src/buzz/buzzmath.c", "src/buzz/buzzmath.h"],
     [("buzzmath_register and the buzzmath_ functions", "src/buzz/buzzmath.c"), ("mt_setseed, mt_uniform32", "src/buzz/buzzmath.c")],
     note="The C library functions are taken for what they are named after and float rounding is not examined; the quality of the random numbers and their agreement with the reference Mersenne Twister are not claimed.")
prop("C25", "The string library computes what its manual says",
     "For every string and position: string.length is the number of characters; string.sub(s, n, m) is the part from n up to m (exclusive) or the end, nil when n is outside of the string or m < n, an m past the end meaning the end; string.concat of two or more strings is their concatenation in order; string.tostring of an int or float is its decimal representation and nil for other types; string.toint and string.tofloat give the number at the start of the string, nil when there is none. Wrong argument counts or types raise an error. Arguments are not changed, no access leaves the strings, and all memory is released with the machine.",
     ["inputs"], "boundary shapes of strings (empty, single, repeated, long), every position in and around them, 2 to 5 arguments, all argument types and counts",
     "Tests concatenate and convert a few strings; off-by-one errors show at boundary positions and lengths.",
     ["src/buzz/buzzstring.c", "src/buzz/buzzstring.h", "src/buzz/buzzvm.c", "src/buzz/buzzstrman.c"],
     [("buzzstring_length/sub/concat/tostring/toint/tofloat, buzzstring_register", "src/buzz/buzzstring.c")],
     note="Decided for the enumerated strings and positions on an abstractly interpreted machine; the C library's conversions behave as the standard says; numbers beyond 32 bits are not examined.")
prop("C26", "File operations of scripts act on the files as documented",
     "io.fopen(name, mode) returns a handle of that file or nil; fwrite writes its arguments one after the other and a newline, in the textual form of each type; fforeach calls the function once per line, in order, without the newline, and stops when the function fails or closes the file; fsize is the size of the file and leaves the position where it was; fclose closes the stream exactly once and makes the handle unusable: any later use of it, like any use of a value that is not a handle, raises an error and touches no stream. After each operation io.errno and io.error_message tell whether it failed. Stack and memory are balanced in every case.",
     ["inputs", "histories", "fault_sequences"], "files of every line shape, every open mode, all argument types and counts, called functions that succeed, fail, close the file or use another one, failures of the underlying operations",
     "Tests write and read one file; failures, closed handles and unusual files are never reached.",
     ["src/buzz/buzzio.c", "src/buzz/buzzio.h", "src/buzz/buzzvm.c"],
     [("buzzio_fopen/fclose/fsize/fforeach/fwrite, buzzio_register", "src/buzz/buzzio.c"), ("buzzvm_destroy", "src/buzz/buzzvm.c")],
     note="Decided for the enumerated files and histories on an abstractly interpreted machine; the C library's stream functions behave as the standard says; handles that a script never closes stay open.")
prop("C27", "The libraries are available to scripts and robots exchange data",
     "A loaded machine offers the documented names: id (the robot's own), type and conversion functions, table functions (size, foreach, map, filter, reduce), math, string, io, swarm, stigmergy and neighbors with all their methods, each doing what it is named after. When the messages in the output queue of one robot are put into the input queue of another, that one ends up with what was sent: values and tables put into a stigmergy (with their writer), answers to queries for missing values, the same winner of concurrent puts on both robots (by the conflict manager, or the larger robot id), the loser being notified; broadcast values reach exactly the listeners of their topic with the sender's id; joins, leaves and periodic lists update who is kin. Processing leaves the stack as it was, and destroying the machines releases all memory, undelivered messages included.",
     ["histories", "inputs"], "documented histories on one, two and three machines: every library function by name, values of each type, crossing messages, three conflict rules, listeners added, replaced and removed, membership changes and lost messages",
     "Tests run a single robot; nothing in them delivers a message to another machine.",
     ["src/buzz/buzzvm.c", "src/buzz/buzztype.c", "src/buzz/buzzvstig.c", "src/buzz/buzzswarm.c", "src/buzz/buzzneighbors.c", "src/buzz/buzzoutmsg.c", "src/buzz/buzzinmsg.c", "src/buzz/buzzmsg.c", "src/buzz/buzzmath.c"],
     [("buzzvm_set_bcode, buzzvm_process_inmsgs, buzzvm_process_outmsgs, buzzvm_destroy", "src/buzz/buzzvm.c"), ("buzzoutmsg_queue_first/next", "src/buzz/buzzoutmsg.c"), ("buzzinmsg_queue_append/extract", "src/buzz/buzzinmsg.c")],
     note="Decided for the listed histories on abstractly interpreted machines; distinct blocks are ordered as allocated where code compares addresses; messages are delivered whole.")

na("N01", "All robots of a connected swarm end up with the same stigmergy",
   "If a stigmergy is no longer written and messages keep being delivered between connected robots, all robots eventually hold, for each key, the same value: that of the latest timestamp or the conflict rule's winner.",
   ["histories", "schedules"], "all network topologies, delivery schedules and losses",
   "Convergence is a property of all schedules of many robots.",
   ["src/buzz/buzzvm.c", "src/buzz/buzzvstig.c", "src/buzz/buzzoutmsg.c"], [("buzzvm_process_inmsgs", "src/buzz/buzzvm.c")],
   "A liveness property of an unbounded number of robots and of a network outside of the source: it needs a model of the schedule, which is model checking, not static analysis. The local steps that convergence rests on are decided by C14, C16, C17, C20, and three-robot exchanges by C27.")
na("N02", "Floats survive their serialization to within one unit in the last place",
   "A finite float sent in a message is decoded to within one unit in the last place of the original.",
   ["inputs"], "all finite floats",
   "Rounding depends on the value.",
   ["src/buzz/buzzmsg.c"], [("buzzmsg_serialize_float, buzzmsg_deserialize_float", "src/buzz/buzzmsg.c")],
   "The accuracy depends on the rounding of frexpf/ldexpf and of float multiplications at run-time values; the abstract domain treats them over the reals (C13 decides that the mapping cancels over the reals).")
na("N03", "Random numbers follow the distributions they are named after",
   "Long sequences of math.rng.uniform, gaussian and exponential have the distribution requested and no short period.",
   ["inputs", "histories"], "all seeds and sequence lengths",
   "Distribution is a property of whole sequences.",
   ["src/buzz/buzzmath.c"], [("mt_uniform32", "src/buzz/buzzmath.c")],
   "A statistical property of run-time sequences; no static argument in reach bounds it. C10 decides the recurrence, the ranges and the defining expressions.")
na("N04", "Scripts and data of any size and nesting are handled",
   "Neither the size of a script, table, string or message nor the depth of nesting crashes the compiler or the VM; running out of memory is reported.",
   ["inputs", "fault_sequences"], "all sizes and depths",
   "Limits depend on run-time sizes.",
   ["src/buzz/buzzparser.c", "src/buzz/buzzheap.c", "src/buzz/buzztype.c"], [("parse_expression, buzzheap_clone, buzzobj_serialize", "src/buzz/buzzparser.c")],
   "The parser, clone, mark and serialize functions recurse with the depth of their input, and allocation results are not checked anywhere: the bound is a run-time quantity (C stack, memory) that cannot be derived from the source, and all other properties assume that memory suffices.")
na("N05", "Compilation is correct for every script",
   "For every script, not only those of a corpus, the emitted code does what the source says.",
   ["programs"], "all scripts",
   "The set of scripts is infinite.",
   ["src/buzz/buzzparser.c"], [("parse_script", "src/buzz/buzzparser.c")],
   "The parser emits text through sprintf into growing buffers and patches labels by symbol-table state; an inductive static argument over all derivations (a proof of the translation scheme) is out of reach of this analysis. C01 decides it for a corpus that covers every production, operator pair and scoping pattern.")
