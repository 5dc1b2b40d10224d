# Which harnesses decide which property.
CHECKS = {}


def check(pid, level, technique, note, *phases, assumptions=()):
    CHECKS[pid] = dict(level=level, technique=technique, note=note, phases=list(phases), assumptions=list(assumptions))


def ph(name, src, flavor="asan", link=("eni",), **kw):
    return dict(name=name, src=[src] if isinstance(src, str) else src, flavor=flavor, link=list(link), **kw)


check("J01", "exploration", "exhaustive bounded enumeration of JSON texts on the real parser against an independent recogniser",
      "Complete within the stated bounds (token sequences, byte strings, escapes, integers, mutations, sizes); trusts "
      "the reference recogniser in lib/ref_json.hpp.",
      ph("j01-parse", "harness/j_parse.cpp", cflags=["-DPROP=1"]),
      ph("j01-place", "harness/j_place.cpp", "plain", cflags=["-DPROP=1"]))
check("J02", "exploration", "exhaustive bounded enumeration of malformed and truncated texts on the real parser (AddressSanitizer, guard placement)",
      "Complete within the stated bounds; trusts the reference recogniser and AddressSanitizer.",
      ph("j02-parse", "harness/j_parse.cpp", cflags=["-DPROP=2"]),
      ph("j02-exit", "harness/j_place.cpp", "plain", cflags=["-DPROP=2"],
         targets=["eni_reverse", "eni_json", "eni_crypto", "eni_scrypt"]))

check("A01", "model_checking", "explicit-state exploration of a sequence model, every transition replayed on the real vector",
      "All states of two vectors up to the size bounds, all operations and positions; sizes beyond by complete growth sweeps.",
      ph("a01-vector", "harness/a_vector.cpp"))
check("A02", "fault_enumeration", "exhaustive fault enumeration: every storage request of every operation failing in turn, all impossible sizes and positions",
      "Every allocation of every listed operation is made to fail, one at a time, in every small state; sizes around all "
      "powers of two; trusts the malloc wrappers of the harness.",
      ph("a02-fail", "harness/a_vecfail.cpp",
         ldflags=["-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc"]))
check("A03", "model_checking", "explicit-state search over table layouts with adversarial hash functions, every transition on the real table",
      "All layouts reachable within the bounds for twelve hash functions; larger tables by complete sweeps past every growth step.",
      ph("a03-hash", "harness/a_hash.cpp", cflags=["-DPROP=3"]))
check("A05", "model_checking", "explicit-state search over table layouts; full iteration, all chains and counts in each state",
      "As A03.", ph("a05-hash", "harness/a_hash.cpp", cflags=["-DPROP=5"]))
check("A04", "model_checking", "explicit-state search and exhaustive key families on the real string-keyed tables, all hash functions",
      "All layouts within the bounds for keys with zero bytes, prefixes, equal hashes; every key of up to two bytes; every key length.",
      ph("a04-strmap", "harness/a_strmap.cpp"))

check("A06", "model_checking", "explicit-state exploration of all pairs of positions and all steps from them, on the real iterator",
      "All pairs of positions and all steps in arrays up to the bound for seven element types; all walks up to the length; far positions by powers of two; standard algorithms on all short sequences.",
      ph("a06-iter", "harness/a_iter.cpp"))

check("J03", "exploration", "exhaustive bounded enumeration of value trees, printed by the real code and read back by two readers",
      "Complete within the stated bounds; trusts the strict reader in harness/j_print.cpp.",
      ph("j03-print", "harness/j_print.cpp"))
check("J04", "model_checking", "explicit-state search and all operation sequences on three real values against value trees, storage sharing probed in every state",
      "All sequences of the operations up to the depth, trees up to the node bound.",
      ph("j04-value", "harness/j_value.cpp"))
check("E01", "model_checking", "all sequences of requests on the real operation base class against a life cycle model",
      "All histories of gas and run requests up to the length, for each kind of argument text, parser verdict and script of results.",
      ph("e01-base", "harness/e_base.cpp"))
OPS = ("eni_reverse", "eni_json", "eni_crypto", "eni_scrypt")
OPSRC = ("repo:tools/eni_crypto/*.cpp", "repo:tools/eni_scrypt/*.cpp")
check("E02", "model_checking", "all call sequences over a set of C calls on the real shared libraries, against the operation objects",
      "All single calls, pairs, and triples of a core set; every result is held, compared and released in the end; AddressSanitizer "
      "watches the storage; arguments lie in read-only memory that ends at a guard.",
      ph("e02-cabi", ["harness/e_cabi.cpp", *OPSRC], targets=list(OPS), cflags=["-DREVERSE_SRC=<%REPO%/examples/eni/reverse/eni_reverse.cpp>"],
         ldflags=["-lssl", "-lcrypto"]))
check("E05", "exploration", "exhaustive enumeration of argument lists over all kinds of values and lengths, on the real shared libraries",
      "All lists of up to one (thorough: two) more arguments than needed over eleven values for the operations in tools/; one wrong place at a time for the example "
      "operation json. reverse and json (in examples/) have known findings.",
      ph("e05-args", "harness/e_args.cpp", targets=list(OPS)))
REV = ["-DREVERSE_SRC=<%REPO%/examples/eni/reverse/eni_reverse.cpp>"]
check("E06", "exploration", "exhaustive enumeration of argument lengths, key sizes and request orders on the real operations",
      "All lengths up to the bounds; every order of up to three gas and run requests.",
      ph("e06-gas", ["harness/e_gas.cpp", *OPSRC], targets=list(OPS), cflags=REV, ldflags=["-lssl", "-lcrypto"]))
SSL = ["-lssl", "-lcrypto"]
check("C01", "exploration", "exhaustive bounded enumeration of byte strings and texts on the real codec against a digit table",
      "All byte strings and texts of up to two bytes, every byte value at every position of longer ones, all texts over boundary characters, all lengths.",
      ph("c01-codec", ["harness/c_codec.cpp", OPSRC[0]], targets=list(OPS), ldflags=SSL))
check("C02", "exploration", "exhaustive enumeration of message lengths, boundary values and damaged keys on the real RSA code against modular exponentiation",
      "24 keys of 512 to 16384 bits; trusts OpenSSL's BN_mod_exp and its key reader as oracles, and AddressSanitizer.",
      ph("c02-rsa", ["harness/c_rsa.cpp", OPSRC[0]], targets=list(OPS), ldflags=SSL))
check("C03", "exploration", "exhaustive bounded enumeration of strings on the real scrypt operation against an independent scrypt",
      "All lengths, all digits and wrong characters at each position within the bounds; trusts OpenSSL's EVP_PBE_scrypt.",
      ph("c03-scrypt", ["harness/c_scrypt.cpp", OPSRC[1]], targets=list(OPS), ldflags=SSL))
check("C04", "exploration", "exhaustive bounded enumeration of lengths and counts on the real key derivation against an independent one",
      "All lengths within the bounds in each dimension and products of boundary lengths; trusts OpenSSL's PKCS5_PBKDF2_HMAC and AddressSanitizer.",
      ph("c04-pbkdf", ["harness/c_pbkdf.cpp", OPSRC[1]], ldflags=SSL))
check("T01", "exploration", "exhaustive bounded enumeration of argument vectors and outcomes on the real tools as processes",
      "All vectors of up to three (thorough: four) words over ten, longer ones over fewer; every outcome of loading, lookup and execution.",
      ph("t01-cli", "harness/t_cli.cpp", "plain", targets=[*OPS, "eni_run", "eni_gas"], so=["t_ops"]))
check("S01", "exploration", "exhaustive enumeration of sequences of outcomes and of case descriptions on the real consensus test as a process, with planned outcomes of the runs",
      "All sequences of two outcomes out of sixteen, of three out of seven (thorough: fifteen), longer ones out of fewer; all lists of up to two (three) argument descriptions.",
      ph("s01-consensus", "harness/s_consensus.cpp", "plain", link=()))
check("Y01", "exploration", "exhaustive enumeration of boundary values and pairs of them on the real types against schoolbook arithmetic",
      "All powers of two and ten, plus and minus two, at every width, and all pairs of a thinned set with every operation.",
      ph("y01-types", "harness/y_types.cpp", "plain"))
check("Y02", "exploration", "exhaustive enumeration of diagnostics, categories, ways to catch and copy, and of operations that raise",
      "All diagnostics in all categories, all pairs of them; all sizes up to the bound and bad indices around all powers of two.",
      ph("y02-errors", "harness/y_errors.cpp"))
check("H01", "exploration", "exhaustive bounded enumeration of strings with all their substrings, and of ways to store a string, on the real hash functions",
      "All strings of up to four (thorough: five) characters of each kind, all runs of dots and lengths up to the bounds.",
      ph("h01-hash", "harness/h_hash.cpp"))
check("X01", "exploration", "exhaustive bounded enumeration of documents, ranges, indices and keys on the real operation",
      "All documents over small sets of leaves, two levels, with nine surroundings. What the operation must refuse is not refused in the classes listed as known findings (it lies in examples/).",
      ph("x01-json", "harness/x_json.cpp", targets=list(OPS)))
check("E03", "exploration", "exhaustive enumeration of environments (bounded number of changed factors) and of call histories, each run of the real libraries in a process of its own",
      "Fourteen factors: the build of the libraries (unset variables filled with patterns or zero, optimised, characters unsigned), memory contents, heap place, stack contents, clock, random source, environment, locale, terminal, thread, rounding, order, alignment, limits and files and signals of the process; "
      "all assignments that change up to two (thorough: four) of them, and all combinations of the memory factors; all histories of two (thorough: three) calls.",
      ph("e03-env", "harness/e_env.cpp", "plain", targets=list(OPS), so=["t_ops", "e_shim"], also=["fill", "opt", "uchar"], also_so=["t_ops"]))
check("E04", "model_checking", "stateless exploration of all thread schedules up to a preemption bound on the real libraries (instrumented), and of all interleavings of object steps",
      "Two threads: preemption at every edge of the code (first execution; thorough: four) and at every conflicting memory access, the second thread preempted again at each of its own. "
      "Code outside of the repository (OpenSSL, the C library) is trusted to be thread safe.",
      ph("e04-threads", "harness/e_threads.cpp", "cov", targets=list(OPS), so=["t_ops"], ldflags=["-rdynamic", *SSL]),
      ph("e04-objects", ["harness/e_inter.cpp", *OPSRC], ldflags=SSL, cflags=REV + ["-DJSON_SRC=<%REPO%/examples/eni/json/eni_json.cpp>"]))
check("E07", "model_checking", "exhaustive exploration of all sequences of loading, calling and unloading the real libraries, each in a fresh process",
      "All sequences up to the length for each library and each pair of libraries, all orders of three with all ways of loading; results checked after everything was unloaded.",
      ph("e07-load", "harness/e_load.cpp", "plain", link=(), targets=list(OPS), so=["t_ops"]))
check("M01", "model_checking", "all operation sequences up to a depth on the real allocator against a list of blocks, with failing requests; complete sweep of sizes around all powers of two",
      "Six kinds of element; depth four (thorough: five); malloc and free are wrapped to count, record and refuse.",
      ph("m01-alloc", "harness/a_alloc.cpp", link=(), cflags=["-fno-builtin"],
         ldflags=["-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc", "-Wl,--wrap=free"]))
check("R01", "model_checking", "all operation sequences up to a depth on two real containers with every block and value counted; all cryptographic calls over keys, lengths and damaged keys, repeated",
      "All sequences within the bounds for each kind of container and initial state, vectors also with failing requests; AddressSanitizer watches for storage used or given back twice.",
      ph("r01-storage", ["harness/r_storage.cpp", *OPSRC], ldflags=["-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc", "-Wl,--wrap=free", *SSL]))
