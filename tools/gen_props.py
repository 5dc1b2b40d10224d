import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))

p("J01","JSON text is parsed to exactly the value it denotes",
 "Every text that starts with a complete value of the supported JSON subset (true/false, integers, strings, arrays, objects, white space between any two tokens) is accepted, and the value obtained has exactly the kinds, elements, order, keys and contents the text denotes: integers of magnitude below 2^256 are exact, strings hold exactly the denoted bytes (every escape decoded, \\uXXXX up to 00FF giving that one byte, all other bytes verbatim), and of a repeated key the last value counts. Text after the first complete value is ignored. The outcome does not depend on where in memory the text lies or on how it is spaced.",
 ["inputs","configurations"],"every text over the grammar (all token sequences, all string bytes and escapes, all integers below 2^256, any nesting, any sizes), wherever it is stored",
 "The unit tests parse five fixed texts; they reach a handful of token orders, two escapes, one small integer and one memory layout.",
 ["include/eni/json/Parser.h","include/eni/json/Callbacks.h","lib/json/Value.cpp"],
 [("recursive-descent scanner","include/eni/json/Parser.h"),("value stack building the tree","include/eni/json/Callbacks.h")],
 [dict(name="scanner position and end",meaning="what of the text is consumed, and where it ends",where="include/eni/json/Parser.h"),dict(name="stack of open containers with pending key",meaning="where the next value is attached",where="include/eni/json/Callbacks.h")],
 ["json::Parser::operator bool","json::Parser::getRoot","EniBase::parse argument"])
p("J02","Malformed JSON is always refused, and no text is read out of bounds",
 "Every text that does not start with a complete value of the supported JSON subset (cut off anywhere, a missing, doubled or wrong separator, an unknown word, a bad escape or hexadecimal digit, an unterminated string, a sign without digits, a key that is not a string) is reported as a parse failure and never accepted. Creating an ENI operation on such a text ends the process with exit status 87. Whatever its bytes, no text makes the parser crash, hang or read outside the text.",
 ["inputs"],"every byte string",
 "Two or three malformed texts are tested; the truncations and single-byte corruptions of even one document are thousands.",
 ["include/eni/json/Parser.h","lib/eni.cpp"],
 [("parse_error / expect","include/eni/json/Parser.h"),("exit(87) on a failed parse","lib/eni.cpp")],None,
 ["json::Parser::operator bool","exit status of a process creating an operation"])
p("J03","A printed value is standard JSON that reads back as the same value",
 "Printing any value built from booleans, integers, strings with arbitrary bytes, arrays and objects, whatever the format settings of the stream (base, sign, locale), yields text that a standard JSON reader accepts (strings taken as raw bytes) and reads as the same value, and parsing that text with the library's own parser gives back an equal value. In particular object keys and strings are quoted, quotes, backslashes and control characters are escaped, and elements are separated correctly.",
 ["inputs"],"every finite value tree",
 "No test prints an object or a string with special characters; only one-string arrays are compared.",
 ["lib/json/Value.cpp","lib/json/Array.cpp","lib/json/Object.cpp"],
 [("string escaping","lib/json/Value.cpp"),("container printing","lib/json/Array.cpp, lib/json/Object.cpp")],None,
 ["Value::print","EniBase::start result"])
p("J04","JSON values are independent of each other, and wrong access is reported",
 "A copied, assigned (also self-assigned, assigned from one of its own elements, or assigned the container that holds it) or moved-to value equals its source at that moment, and later changes to, or destruction of, either one never show in the other; a moved-from value is undefined. Adopting storage into a value that already holds something is refused and changes nothing. Indexing a value that is not a container yields an undefined value, and a missing index or key of a read-only container raises an out-of-range error.",
 ["histories"],"every sequence of construction, copy, assignment, move, mutation, indexing and destruction on a set of values",
 "Each test performs one copy or move of a scalar; aliasing shows only in sequences that copy, mutate and re-read nested values.",
 ["lib/json/Value.cpp","lib/json/Array.cpp","lib/json/Object.cpp","lib/json/Notation.cpp","include/eni/json/Value.h"],
 [("deep copy per kind","lib/json/Value.cpp"),("type tag copy and move","lib/json/Notation.cpp")],
 [dict(name="type tag and holder",meaning="kind of the value and the storage it owns",where="include/eni/json/Value.h")],
 ["Value::operator=","Value(Value&&)","Value::operator[]"])
p("A01","The vector behaves as a sequence under every history of operations",
 "After any sequence of construction (from a size, a fill value, a list or a standard vector), copy, assignment, append, pop, insertion, erasure (up to and including the last element), resize, reserve, assign, swap and clear, a vector of plain elements or JSON values holds exactly the elements the same operations give on a mathematical sequence, in order, also when the operand is an element of the same vector. Size, emptiness, iteration, element access and returned positions agree with it, capacity is never below size, and copies are independent.",
 ["histories"],"every operation sequence on vectors of any size",
 "Each unit test runs one to three operations on one vector of at most five integers.",
 ["include/eni/adt/Vector.h","include/eni/adt/bits/Vector.tcc","include/eni/adt/PointerIterator.h","include/eni/adt/bits/PointerIterator.tcc"],
 [("growth","include/eni/adt/bits/Vector.tcc"),("element shifting on insert and erase","include/eni/adt/bits/Vector.tcc"),("random-access iterator","include/eni/adt/bits/PointerIterator.tcc")],
 [dict(name="data, size, allocated size",meaning="elements held and room for them",where="include/eni/adt/Vector.h")],
 ["eni::Vector public interface"])
p("A02","A vector operation that cannot be done fails cleanly",
 "Access, insertion or erasure outside the valid positions raises an out-of-range error, a requested size that no memory can hold raises a length or memory error, and a growing operation for which memory cannot be obtained raises the no-memory error. In each case the vector is unchanged and remains fully usable.",
 ["fault_sequences","histories","inputs"],"every history, every invalid position or size, and every allocation that fails in it",
 "No test makes an allocation fail, asks for an impossible size or passes a bad position.",
 ["include/eni/adt/bits/Vector.tcc"],
 [("position checks","include/eni/adt/bits/Vector.tcc"),("allocation in reserve and the constructors","include/eni/adt/bits/Vector.tcc")],None,
 ["exceptions thrown and later contents"])
p("A03","The hash table is a correct map under every history, and never hangs",
 "After any sequence of insert, erase, find, clear, explicit rehash (to any size), copy, move, assignment and self-assignment, the table holds exactly the key/value pairs that the same operations leave in a mathematical map, whatever the hash values and however keys collide; insert reports whether the key was present and then leaves its value alone, and erase reports whether it removed something. Copies are independent, and tables that were cleared, moved from or created empty remain usable. The numbers of buckets, entries and tombstones and the load factor that a table reports agree with its buckets, and a table with buckets always keeps a never-used one; every operation terminates.",
 ["histories"],"every operation history, any key set, any hash function, any initial size",
 "Tests insert and erase ascending integers once; collisions mixed with erase, tombstone reuse, re-insertion, rehash and copying are not combined.",
 ["include/eni/adt/HashBase.h","include/eni/adt/HashTable.h","include/eni/adt/bits/HashBase.tcc","include/eni/adt/bits/HashTable.tcc"],
 [("linear probing with tombstones","include/eni/adt/bits/HashBase.tcc"),("rehash policy","include/eni/adt/bits/HashBase.tcc"),("copy and move","include/eni/adt/bits/HashTable.tcc")],
 [dict(name="buckets, entry and tombstone counts",meaning="layout that lookups rely on: at least one never-used bucket",where="include/eni/adt/HashBase.h")],
 ["insert/erase/find results"])
p("A04","String-keyed maps work for every key content and length",
 "A string-keyed map or table, with any of the supplied string hash functions, treats keys as arbitrary byte strings of any length: different contents (including the empty key, embedded zero bytes, common prefixes and colliding hashes) are different keys, and the stored key reads back unchanged. Writing through a key creates or updates exactly that key, checked access to an absent key raises an out-of-range error and adds nothing, and erase, find, size, copy and assignment agree with a mathematical map.",
 ["inputs","histories"],"every set of byte-string keys and every operation history",
 "The tests use one key, \"key\" or \"first_key\".",
 ["include/eni/adt/StringMap.h","include/eni/adt/StringHashTable.h","include/eni/adt/StringHasher.h"],
 [("entry storing the key bytes inline","include/eni/adt/StringHashTable.h"),("string hash functions","include/eni/adt/StringHasher.h"),("map interface","include/eni/adt/StringMap.h")],
 [dict(name="stored key length and bytes",meaning="key of an entry",where="include/eni/adt/StringHashTable.h")],
 ["StringMap public interface","json::Object"])
p("A05","Iterating a hash table visits each entry exactly once",
 "At every point of every history, a full iteration of a hash table visits each stored entry exactly once and nothing else, and iterating by key visits exactly the entries whose hash equals that of the given key, each once, starting with the key itself, or nothing if the key is absent. The reported number of entries, emptiness and per-key count (1 if present, else 0) agree with the contents, including for tables that are empty, cleared or moved from and for keys whose hash is zero. An iterator that is copied or assigned from another one, of the same or of another table, stands where that one stands.",
 ["histories"],"every reachable table layout and every key",
 "Iteration is tested once on a table without tombstones, and by-key iteration only for keys that are present.",
 ["include/eni/adt/HashIterator.h","include/eni/adt/bits/HashIterator.tcc","include/eni/adt/bits/HashTable.tcc"],
 [("entry iterator","include/eni/adt/bits/HashIterator.tcc"),("chain iterator","include/eni/adt/bits/HashIterator.tcc")],None,
 ["begin/end, begin(key)/end(key), count"])
p("A06","The pointer iterator walks an array exactly as a pointer does",
 "Within an array of elements of any type and size, after any sequence of steps (forward and backward, prefix and postfix, jumps of any size, copies, assignment and self-assignment), an iterator stands at exactly the position the same steps give from where it started, and gives that very element for reading and writing; the answer of each step, the distance and all six comparisons of any two iterators, and indexing from any of them agree with their positions, and asking never moves an iterator. Standard algorithms on a pair of iterators therefore do what they do on pointers.",
 ["histories","inputs"],"every pair of positions in every array, every step and sequence of steps",
 "The tests take a few single steps in one array of integers; pairs of positions, the answers of postfix steps, far distances and other element types are not tested.",
 ["include/eni/adt/PointerIterator.h","include/eni/adt/bits/PointerIterator.tcc"],
 [("steps and jumps","include/eni/adt/bits/PointerIterator.tcc"),("distance and comparisons","include/eni/adt/bits/PointerIterator.tcc")],None,
 ["PointerIterator operators","standard algorithms on iterators"])
p("E01","An operation is parsed once, and gas and run follow its verdict in any order",
 "For any sequence of gas and run requests on one operation object, its argument parser is called exactly once, with the argument list given, before anything else; if the parser rejects, or the argument text is not a list, every gas request answers 1500 and every run request answers nothing, and the operation's own gas and run code is never called. If it accepts, each gas request answers the operation's gas, and each run request calls the operation once with an empty result list and answers the JSON text of exactly the results that this call produced, or nothing if the call reports failure.",
 ["histories","inputs"],"every order and repetition of requests, every verdict of the operation's code and every argument text",
 "One test calls gas twice on one rejected argument list; order, repetition after run, failing runs and non-list arguments are not tested.",
 ["include/eni/eni.h","lib/eni.cpp"],
 [("memoised parse","include/eni/eni.h"),("result list owned by the base","lib/eni.cpp")],
 [dict(name="parsed flag and verdict",meaning="whether arguments were parsed, and the answer",where="include/eni/eni.h"),dict(name="result list",meaning="what run fills and is printed",where="include/eni/eni.h")],
 ["getGas","start"])
p("E02","The C entry points answer exactly what the operation object answers",
 "For every operation exported to C and every argument string, the gas entry point returns a freshly allocated number equal to the operation's gas, and the run entry point returns a freshly allocated zero-terminated string equal to the operation's result, or null if it has none. Both results can be released with the C library's free, stay valid and unchanged after any later calls, and the caller's argument string is not modified.",
 ["histories","inputs"],"every exported operation, argument text and sequence of calls",
 "The command-line tests call one entry point once per process and never hold two results at a time.",
 ["include/eni/eni.h","tools/eni_crypto/eni_crypto.cpp","tools/eni_scrypt/eni_scrypt.cpp","examples/eni/reverse/eni_reverse.cpp"],
 [("exported gas and run functions","include/eni/eni.h")],None,["<op>_gas, <op>_run"])
p("E03","Operation results are a function of the arguments only (consensus)",
 "Running or pricing any bundled operation on the same argument text gives bit-identical answers (or the same failure) in every environment: however the library was compiled (optimisation, characters signed or not), whatever memory held before, wherever the process and its heap are placed, whatever time, process id, random source, locale, rounding mode, terminal or standard input or environment variables are seen, on whatever thread, and whatever calls were made before. The same holds for operations built on the library that only return their arguments. A node can therefore never disagree with another about a result.",
 ["configurations","histories","inputs"],"every argument text and every environment and call history",
 "The consensus test repeats four argument lists three times in one environment, so it cannot vary memory contents, layout, time, locale or history.",
 ["lib/eni.cpp","include/eni/json/Parser.h","lib/json/Value.cpp","tools/eni_crypto/eni_crypto.cpp","tools/eni_scrypt/eni_scrypt.cpp","tools/eni_scrypt/scrypt.cpp","include/eni/adt/StringHasher.h"],
 [("deterministic padding of RSA messages","tools/eni_crypto/eni_crypto.cpp"),("zeroed scrypt input block","tools/eni_scrypt/eni_scrypt.cpp"),("content-only hashing","include/eni/adt/StringHasher.h")],None,
 ["<op>_gas, <op>_run"])
p("E04","Operations used side by side or concurrently do not disturb each other",
 "If several operation objects (of the same or different operations) exist at once, every interleaving of their creation, gas, run and destruction steps, on one thread or preemptively on two, gives each of them exactly the answers it gives alone. No interleaving crashes or blocks.",
 ["schedules","histories"],"every interleaving of API steps of several objects and every preemptive schedule of two threads running operations",
 "All tests use one operation object at a time on one thread.",
 ["include/eni/eni.h","lib/eni.cpp","lib/json/Value.cpp","include/eni/adt/bits/HashBase.tcc","tools/eni_crypto/eni_crypto.cpp","tools/eni_scrypt/eni_scrypt.cpp","tools/eni_scrypt/scrypt.cpp"],
 [("all state held per object or on the stack","include/eni/eni.h, tools/eni_scrypt/scrypt.cpp")],None,["results of each object under each schedule"])
p("E05","Bundled operations refuse missing and wrongly typed arguments",
 "For every argument list that lacks an argument a bundled operation needs, or has one of another kind than it needs, the operation refuses: its gas is 1500, its run answers nothing, and the process goes on. It never crashes, aborts or computes with reinterpreted data, and additional arguments beyond those needed do not change the answer.",
 ["inputs"],"every argument list of every length and kind combination, for every bundled operation",
 "Only well-formed argument lists (and two bad scrypt strings) are tested.",
 ["examples/eni/reverse/eni_reverse.cpp","examples/eni/json/eni_json.cpp","tools/eni_crypto/eni_crypto.cpp","tools/eni_scrypt/eni_scrypt.cpp","include/eni/eni.h"],
 [("argument checks in each operation's parse","tools/eni_crypto/eni_crypto.cpp, tools/eni_scrypt/eni_scrypt.cpp, examples/eni")],None,["<op>_gas, <op>_run"])
p("E06","The price of a bundled operation follows its documented schedule",
 "For accepted arguments, reversing costs 10 per byte of the string, scrypt costs 10 per started pair of hexadecimal digits, and RSA encryption and decryption cost 10 per byte of the key's modulus, whatever the message. The price does not depend on whether, or how often, the operation was priced or run before.",
 ["inputs","histories"],"every accepted argument list and every order of gas and run requests",
 "Three prices of fixed arguments are compared, each before running.",
 ["examples/eni/reverse/eni_reverse.cpp","tools/eni_crypto/eni_crypto.cpp","tools/eni_scrypt/eni_scrypt.cpp"],
 [("gas functions","tools/eni_crypto/eni_crypto.cpp, tools/eni_scrypt/eni_scrypt.cpp, examples/eni/reverse/eni_reverse.cpp")],None,["getGas, <op>_gas"])
p("E07","Operation libraries can be loaded, called and unloaded in any order",
 "In one process the bundled operation libraries can be loaded, in any order, any number of times and with local or global visibility, called from any thread, also one that ends, and unloaded again, in any sequence. Every call made while its library is loaded answers exactly what that library answers when it is the only one in the process; results obtained before stay valid and unchanged, also after the library that made them was unloaded, and can be released with the C library's free. Nothing of this, nor the end of the process, makes it crash or hang.",
 ["histories","configurations"],"every sequence of loading (in each visibility), calling and unloading of the libraries",
 "The tests link one library into one process; no test loads a second one, loads one twice, unloads one, or uses a result after it.",
 ["include/eni/eni.h","tools/eni_crypto","tools/eni_scrypt","examples/eni"],
 [("exported C functions and what else the libraries export","include/eni/eni.h"),("state that belongs to a library or a thread","lib, tools")],None,
 ["<op>_gas and <op>_run of freshly loaded libraries","end of the process"])
p("M01","The allocator gives storage that holds what was asked for, or none",
 "After any sequence of allocating, constructing, destroying and giving back (also through copies of an allocator, or one rebound to another type), every block is aligned, holds the number of elements asked for, overlaps no other and keeps its contents until it is given back; construct makes exactly one object (a default or a copy) in place, destroy ends exactly one, and address names it. Storage for more elements than memory can hold, or that the system refuses, is answered with null and never with a smaller block; giving back null does nothing.",
 ["histories","inputs","fault_sequences"],"every sequence of operations, every number of elements, every failing request",
 "No test uses the allocator at all.",
 ["include/eni/support/MallocAllocator.h"],
 [("size of a block","include/eni/support/MallocAllocator.h"),("construction in place","include/eni/support/MallocAllocator.h")],None,
 ["MallocAllocator operations"])
p("R01","Containers and cryptographic functions give back everything they take",
 "After any sequence of operations on hash tables, string maps and vectors of plain elements (construction, copy, move, assignment, also from themselves, insertion, erasure, clearing, rehashing, growth, refused requests), when they are destroyed, every block of memory and every stored value they ever took or made has been released exactly once. Reading a key, and every RSA or key-derivation call, successful or refused, leaves no memory behind, so a node can make any number of calls.",
 ["histories","inputs","fault_sequences"],"every sequence of operations, every key text, message and length, every failing request for memory",
 "The tests never look at what is released.",
 ["include/eni/adt/bits/HashTable.tcc","include/eni/adt/bits/HashBase.tcc","include/eni/adt/StringMap.h","include/eni/adt/bits/Vector.tcc","tools/eni_crypto/eni_crypto.cpp","tools/eni_scrypt/scrypt.cpp"],
 [("ownership of buckets, entries and element storage","include/eni/adt/bits"),("keys and buffers of the RSA functions","tools/eni_crypto/eni_crypto.cpp")],None,["memory and value counts after destruction"])
p("C01","The hexadecimal codec is exact, and refuses what is not hexadecimal",
 "Encoding any byte string gives two lower-case hexadecimal digits per byte in order, and decoding gives the bytes back; decoding accepts upper- and lower-case digits alike. Decoding a text of odd length or with any character that is not a hexadecimal digit is refused.",
 ["inputs"],"every byte string and every text",
 "One three-byte string is encoded and decoded.",
 ["tools/eni_crypto/eni_crypto.cpp"],[("str2hex, hex2str","tools/eni_crypto/eni_crypto.cpp")],None,["str2hex, hex2str","rsa_decrypt message argument"])
p("C02","RSA operations compute raw RSA exactly and invert each other",
 "For every RSA key, encrypting a message of at most the modulus size, padded with trailing zero bytes to that size, gives exactly the raw RSA power of it, as exactly one modulus size of bytes; decrypting with the matching key gives back every message without zero bytes exactly, up to and including one that fills the modulus, in both directions (public/private and private/public) and through the operations. Messages that are longer than the modulus or numerically not below it, ciphertexts longer than the modulus or not below it, and unreadable keys are refused, and nothing is read beyond the buffers.",
 ["inputs","configurations"],"every key size, every message and ciphertext length and content",
 "One 12-byte message and one 2048-bit key are tested.",
 ["tools/eni_crypto/eni_crypto.cpp"],
 [("zero padding to the modulus size","tools/eni_crypto/eni_crypto.cpp"),("result extraction up to the padding","tools/eni_crypto/eni_crypto.cpp")],None,["rsa::pub_encrypt, priv_decrypt, priv_encrypt, pub_decrypt","rsa_encrypt, rsa_decrypt operations"])
p("C03","The scrypt operation computes scrypt(N=1024,r=1,p=1) of the zero-padded input",
 "For every hexadecimal string of at most 160 digits, in any case, of even or odd length (an odd one counts as having a leading zero digit), the scrypt operation returns the 32-byte scrypt value with N=1024, r=1, p=1 of the decoded bytes padded with zeros to 80 bytes, used as both password and salt, as 64 lower-case hexadecimal digits; repeating the run gives the same. A longer string or one with any other character is refused.",
 ["inputs"],"every string",
 "Three digests are compared and two refusals tested.",
 ["tools/eni_scrypt/eni_scrypt.cpp","tools/eni_scrypt/scrypt.cpp"],
 [("input validation and decoding","tools/eni_scrypt/eni_scrypt.cpp"),("scrypt core","tools/eni_scrypt/scrypt.cpp")],None,["scrypt operation","scrypt_1024_1_1_256"])
p("C04","Key derivation conforms to PBKDF2-HMAC-SHA256",
 "For every password, salt, positive iteration count and output length, the supplied key-derivation function writes exactly the requested number of bytes, equal to PBKDF2-HMAC-SHA256 of RFC 8018, and touches nothing beyond them.",
 ["inputs"],"every password and salt length and content, iteration count and output length",
 "No test calls it directly; scrypt uses it with one password length, two salt lengths, one iteration and two output lengths.",
 ["tools/eni_scrypt/scrypt.cpp","tools/eni_scrypt/scrypt.h"],[("HMAC keying for long keys, block counter, partial last block","tools/eni_scrypt/scrypt.cpp")],None,["PBKDF2_SHA256"])
p("X01","The JSON-slicing operation returns exact value ranges",
 "For every well-formed JSON text, range of it holding one value, index and key, the example JSON operation returns exactly the half-open byte ranges of the selected array elements or object member (strings including their quotes), and the decoded contents of a selected string, regardless of what surrounds the range. A range outside the text, one that holds no such container, or an index that does not exist is refused without reading outside the text.",
 ["inputs"],"every document, range, index and key",
 "Thirteen fixed queries on four documents.",
 ["examples/eni/json/eni_json.cpp"],[("top-level token selection","examples/eni/json/eni_json.cpp")],None,["json operation"])
p("T01","The command-line tools run what they are told and report every failure",
 "For every argument vector, the run and gas tools execute the operation if and only if exactly three positional arguments are given (arguments starting with a dash are skipped unless they follow a double dash), and then print exactly its result, or its gas, and a newline on standard output with exit status 0. Wrong usage prints the manual on standard error; an unloadable library, a missing operation, an operation without result and malformed JSON end with exit status 3, 4, 5 and 87; output that cannot be written is a failure too; and in every failure the status is non-zero and standard output is empty.",
 ["inputs","configurations"],"every argument vector and every outcome of loading, lookup and execution",
 "Each tool is run on three well-formed command lines.",
 ["tools/eni_cli/eni_run.cpp","tools/eni_cli/eni_gas.cpp","tools/eni_cli/optParser.cpp","tools/eni_cli/optParser.h","tools/eni_cli/ceni.h"],
 [("positional argument parser","tools/eni_cli/optParser.cpp"),("status codes","tools/eni_cli/ceni.h")],None,["exit status, stdout, stderr"])
p("S01","The consensus test reports every disagreement, and only disagreements",
 "For every list of cases, the consensus test runs each operation the given number of times on one and the same argument text, made from its description, and passes exactly if within each case all runs had the same exit status, output and error output. A case whose description cannot be expanded makes it fail without keeping the other cases from being run, and a number of repetitions below two or an unreadable list makes it fail.",
 ["histories","inputs"],"every list of cases and every sequence of outcomes of their runs",
 "Two lists are run: one on which all runs agree, and one that cannot be expanded; a disagreement never happens in the tests.",
 ["test/consensus/consensus.py"],
 [("comparison of the runs","test/consensus/consensus.py"),("documented use","docs/tools/consensus.rst")],None,["exit status, runs made"])
p("Y01","ENI integers have their exact documented width and decimal text",
 "The unsigned 64-, 128-, 160- and 256-bit types hold exactly the integers below 2^64, 2^128, 2^160 and 2^256, wrapping modulo that power, the signed 256-bit type holds at least all integers of magnitude below 2^255 exactly, and converting any of them to a string gives the canonical decimal text (no leading zeros, minus sign only for negatives). Booleans convert to true and false.",
 ["inputs"],"every representable value and wrap-around at every width",
 "Four maxima and one small number are converted.",
 ["include/eni/eni_types.h","lib/eni_types.cpp"],[("type aliases","include/eni/eni_types.h"),("to_string instantiations","lib/eni_types.cpp")],None,["eni::to_string","arithmetic on the types"])
p("Y02","Errors carry their own message and standard category",
 "Every diagnostic the library can raise carries exactly its own documented message, in whichever standard error category it is thrown, can be caught as that category and as the standard exception base, and keeps its message when copied or caught by reference or, where the standard category carries a message, by value as that category. The errors raised by containers and values are of the documented category: out-of-range for bad indices and absent keys, logic error for misuse, memory or length errors for impossible sizes.",
 ["inputs","configurations"],"every diagnostic in every category, and every operation that raises one",
 "One diagnostic in two categories is tested.",
 ["include/eni/diagnostic/Exception.h","include/eni/diagnostic/DiagList.inc","lib/diagnostic/Exception.cpp"],
 [("diagnostic list","include/eni/diagnostic/DiagList.inc"),("category specialisations","include/eni/diagnostic/Exception.h")],None,["what(), catch clauses"])
p("H01","The substring filter never rules out a real substring",
 "If one string is a substring of another, the character-set filter computed from the two strings never says that it cannot be. It does say so whenever the one has a letter (in either case), a digit or an underscore and the other has no such, or has more dots, up to fifteen of them. Hash values of every supplied string hash depend on the string's bytes only: equal strings have equal hashes, however they were built or stored, and the supplied comparison functions say equal exactly of equal contents.",
 ["inputs"],"every pair of a string and one of its substrings, every hash function",
 "Neither the filter nor the hash functions are tested directly.",
 ["include/eni/adt/StringHasher.h"],[("character signature with dot count","include/eni/adt/StringHasher.h")],None,["StringHasher<ES>::may_include","StringHasher<...>","StringCompare"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
for x in P:
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
print(len(P))
