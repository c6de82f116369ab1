import json
P=[]
ALL=["blake1_224","blake1_256","blake1_384","blake1_512","blake2","blake2s","crc_32","cshake","fnv","has_160","md2","md4","md5","ripemd_128","ripemd_160","ripemd_256","ripemd_320","sha1","sha2_224","sha2_256","sha2_384","sha2_512","sha2_512_224","sha2_512_256","sha3","siphash","sm3","tiger","tuple_hash","whirlpool"]
def f(*n): return ["src/%s.h"%x for x in n]
def p(id,title,st,over,q,why,files,mech,state=(),obs=(),hook=None):
    a={"files":files,"mechanism":[{"name":m,"where":w} for m,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=list(obs)
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
OBS=["the finalized object's digest, through toVector/toArray/toString"]
KAT="The existing tests compare a handful of published short messages (and one of a million 'a') per class; whether the padding, the buffering and every table entry are right for every length and content is left open."
p("C01","MD, SHA-1, RIPEMD, HAS-160, SM3, Tiger, WHIRLPOOL match their specifications",
  "For every message, the digest of MD2, MD4, MD5, SHA-1, RIPEMD-128/160/256/320, HAS-160, SM3, Tiger and Tiger2 (128, 160, 192 bits) and WHIRLPOOL is the one the algorithm's published specification defines. This holds whatever the message's length and content, and whatever memory the object is placed in held before.",
  ["inputs"],"every byte string as a message, for each of these classes",KAT,
  f("md2","md4","md5","sha1","ripemd_128","ripemd_160","ripemd_256","ripemd_320","has_160","sm3","tiger","whirlpool"),
  [("compression function","addDataImpl() of each header"),("padding and length encoding","finalize() of each header"),("buffering of partial blocks","addData(Span) of each header")],
  [("m_state/m_h","chaining state","each class"),("m_buffer, m_sizeCounter","unprocessed tail and message length","each class")],OBS)
p("C02","SHA-2 digests match FIPS 180-4",
  "For every message, the digest of SHA-224, SHA-256, SHA-384, SHA-512, SHA-512/224 and SHA-512/256 is the one FIPS 180-4 defines.",
  ["inputs"],"every byte string as a message, for each of the six functions",KAT,f("sha2_224","sha2_256","sha2_384","sha2_512","sha2_512_224","sha2_512_256"),
  [("compression function and constants","addDataImpl()"),("padding","finalize()")],(),OBS)
p("C03","SHA-3 and SHAKE outputs match FIPS 202 at every output length",
  "For every message, SHA3-224/256/384/512 give the digest FIPS 202 defines. SHAKE-128 and SHAKE-256 give exactly the requested number of output bytes, which are the FIPS 202 output for that message at any requested length including zero; a shorter output is a prefix of a longer one.",
  ["inputs"],"every message and, for SHAKE, every output length","A few messages and one or two output lengths per class are tested; lengths of more than one squeeze block, the block-boundary lengths and zero are not.",f("sha3"),
  [("Keccak-f[1600]","sha3.h: Keccak::addDataImpl()"),("padding and domain separation","sha3.h: Keccak::finalize()"),("squeezing","sha3.h: Keccak::finalize()")],(),OBS)
p("C04","cSHAKE and TupleHash match SP 800-185 and separate their inputs",
  "For every message, function name, customization and output length, cSHAKE-128/256 give the output SP 800-185 defines, and with empty name and customization they equal SHAKE. For every sequence of elements, customization and output length TupleHash-128/256 give the output SP 800-185 defines, so that the division of the same bytes into elements matters.",
  ["inputs","histories"],"every message or tuple of byte strings (empty tuple and empty elements included), name, customization and output length up to what the interface accepts","Six published samples per function are tested; long names, elements whose length needs more than one byte to encode, and large outputs are not.",f("cshake","tuple_hash"),
  [("left_encode/right_encode/bytepad","cshake.h, tuple_hash.h"),("element framing","tuple_hash.h: addData()"),("padding","cshake.h: Keccak::finalize()")],(),OBS)
p("C05","BLAKE and BLAKE2 digests match their specifications",
  "For every message, BLAKE-224, BLAKE-256, BLAKE-384 and BLAKE-512 (unsalted), BLAKE2b-512 and BLAKE2s-256 (unkeyed) give the digest their specifications define.",
  ["inputs"],"every byte string as a message, for each of the six functions","A handful of published messages per class are tested; the lengths at which the padding spills over a block, where the counter rules of BLAKE change, and the full-last-block rule of BLAKE2 at every multiple of the block are not.",
  f("blake1_224","blake1_256","blake1_384","blake1_512","blake2","blake2s"),[("compression and counters","addDataImpl()"),("final block flag, padding","finalize()"),("initial values","constructors and reset()")],[("m_sizeCounter","bytes fed so far, mixed into every block","each class")],OBS)
p("C06","CRC-32, FNV and SipHash values match their definitions",
  "For every message, CRC-32 gives the IEEE 802.3 checksum, the six FNV classes the FNV-0/1/1a values of 32 and 64 bits, and SipHash the SipHash-2-4 value under the given 16-byte key.",
  ["inputs"],"every message and, for SipHash, every 128-bit key","A few strings each, and for SipHash one key, are tested; CRC-32 picks a different code path by input length and the lookup tables have entries no test input reaches.",f("crc_32","fnv","siphash"),
  [("slicing tables","crc_32.h: addData()"),("multiply/xor order","fnv.h: addData()"),("length byte and tail","siphash.h: finalize()")],(),OBS)
p("C07","Long messages hash correctly past every counter boundary",
  "Digests stay the ones the specifications define when the total message length passes 2^29, 2^31 or 2^32 bytes, and for the classes that record the length, up to the largest total the length encoding can express. It does not matter whether such a message comes in one call or in many.",
  ["inputs","histories"],"every message of more than 2^27 bytes, for all classes, however cut","The tests feed at most a million bytes; bit counters, int-typed indices and casts that wrap at 2^29, 2^31 or 2^32 bytes are out of their reach.",f(*ALL),
  [("length counters and their conversion to bits","m_sizeCounter in finalize() of each class"),("whole-block loop of one big call","addDataImpl(), addData()")],[("m_sizeCounter","message length so far","each class")],OBS)
p("C08","The digest does not depend on how the message is cut or passed in",
  "The digest depends only on the concatenation of the bytes added (for TupleHash, on the sequence of elements): any division into calls, empty pieces included, through any of the input overloads gives the same result.",
  ["histories","inputs"],"every message, every division of it into pieces, every mixture of the overloads","The tests cut one fixed message in one or two ways; the behaviour depends on the buffer fill level and the piece length relative to the block, a two-dimensional space with its own code path for each relation.",f(*ALL),
  [("partial block handling","addData(Span) of each header"),("Buffer","Buffer class copied into the headers"),("overloads","addData(const void*, size_t), addData(array)")],[("m_buffer","bytes not yet processed","each class")],OBS)
p("C09","reset() makes any object as good as new",
  "After reset(), whatever was done with the object before, it behaves exactly like an object freshly constructed with the same parameters (key, salt, digest length, name, customization), in every later digest, comparison and copy.",
  ["histories"],"every history of adds, finalizes, reads, copies and resets before the reset","The tests reset once, mostly after a finalize on a fixed message; stale buffer bytes, counters, flags and lost parameters show only after particular histories.",f(*ALL),
  [("reset()","each header")],[("m_buffer, m_sizeCounter, m_state, flags","everything reset must restore","each class")],OBS)
p("C10","Copying, moving and assigning preserve a computation and share nothing",
  "A copy or an assigned object continues with exactly the computation of its source at that point, the source is unaffected, and from then on neither influences the other; so does a moved-to object, and copy-assignment to itself and swapping lose nothing. This holds at every point of an object's life.",
  ["histories"],"every program of constructions, copies, moves, assignments, swaps, adds, resets and finalizes over several objects","The tests hardly copy objects at all; hidden sharing (shared buffers, static scratch space) or missed members would show only in interleaved use of several objects.",f(*ALL),
  [("implicit copy and move operations","each class"),("user-written assignments and wrappers","cshake.h, tuple_hash.h")],[("all members","the computation's state","each class")],OBS)
p("C11","All views of a digest agree and reading does not change it",
  "On a finalized object the string is the lower-case hexadecimal form of the digest bytes, vector and array hold those bytes, and the conversion to an unsigned type of any width and the standard hash value are determined by the leading digest bytes in the same way on every machine. Reading is repeatable in any order and leaves the object as it was, on copies too.",
  ["inputs","histories"],"every digest, every order and repetition of the accessors, every unsigned integer type","The tests read toString and one conversion per class on fixed digests; nibbles, narrower and wider types and reading orders are not covered.",f(*ALL),
  [("toString/toVector/toArray/operator T","each header"),("std::hash","end of each header")],(),["toString(), toVector(), toArray(), operator T(), std::hash"])
p("C12","Equality and std::hash of finalized objects follow their digests",
  "Two finalized objects of one class whose digests differ never compare equal; two that have the same parameters and were fed the same data always do, whatever the calls that led there. != is the negation of ==; equality is reflexive, symmetric and transitive. Objects that compare equal or have the same digest have the same standard hash, so they work as keys of unordered containers.",
  ["inputs","histories"],"every pair of finalized objects of one class, however each was fed, copied or reset","The tests compare a few fixed pairs; digests that differ in a single word or byte, and equal digests reached through different histories, are not covered.",f(*ALL),
  [("operator==","each header"),("std::hash","end of each header")],(),["operator==, operator!=, std::hash"])
p("C13","No input or call sequence causes undefined behaviour",
  "Any use of the public interface within its documented order (add, finalize, read, reset, copy, assign, compare) runs without out-of-bounds or misaligned access, use after free, leak, read of uninitialised memory, signed overflow, invalid shift, failed assertion or other undefined behaviour. Inputs may have any length, content and alignment.",
  ["inputs","histories"],"every permitted call sequence on every class with every input and alignment","The tests run a few fixed inputs under sanitizers; lengths, alignments, parameters and call orders they do not use reach other code.",f(*ALL)+["src/gsl/span"],
  [("bounds-checked spans and asserts","addData() and Buffer of each header"),("byte-wise loads","ror/rotl helpers and loaders of each header")],(),["AddressSanitizer, UndefinedBehaviorSanitizer, memcheck, library asserts"])
p("C14","Digests computed at compile time equal those computed at run time",
  "In C++17 and later, every class that is declared usable in constant expressions can be constructed, fed, reset, copied, finalized and read there, and every value computed during compilation equals the one the same calls give at run time. The compiler's constant evaluator finds no undefined behaviour on the way.",
  ["inputs","configurations"],"every message and call sequence that can be written in a constant expression, on every compiler and standard","The tests evaluate one or two static assertions per class; a branch taken only for longer messages can be non-constant or take another path without any test noticing.",f(*[x for x in ALL if x not in ("sha3","cshake","tuple_hash","has_160")]),
  [("CONSTEXPR_CPP17 functions","each header"),("separate code for constant evaluation and for raw pointers","addData() overloads, Buffer")],(),["constexpr variables compared with run-time values"])
p("C15","Results do not depend on compiler, options, include order or number of units",
  "Each header compiles on its own, any set of headers can be included in any order in one unit, and any number of such units link into one program. Every digest, string, conversion, comparison and standard hash is the same under every supported compiler, language standard, optimisation level, assertion setting and plain-char signedness, and whether it is computed before main, in it or after it.",
  ["configurations"],"every compiler (gcc, clang), standard from C++14 on, optimisation and assertion option, include order and set of translation units","The test suite builds one configuration with one include order per test program; the headers carry copies of shared helpers of which only the first included is used.",f(*ALL)+["src/gsl/span"],
  [("guarded shared helpers","Buffer, ror, rotl, rotr, Uint128 blocks with include guards of each header"),("feature switches","CONSTEXPR_CPP17, USE_STD_SPAN blocks of each header"),("inline definitions","each header")],(),["a battery over every class in every configuration"])
p("C16","Distinct objects, and shared finalized ones, can be used from many threads",
  "Threads that work on different objects never influence each other, and a finalized object can be read, compared and copied by many threads at once; an object handed over under a lock keeps its computation. No such use is a data race and every result is what a single thread would get.",
  ["schedules","histories"],"every interleaving of threads using different objects or reading a finalized one","The tests are single-threaded; shared tables filled on first use, static scratch buffers or caches written in const readers would pass them.",f(*ALL),
  [("no mutable shared state","each header"),("const readers that do not write","toString/toVector/toArray/operator T/operator==")],[("static tables","lookup tables, if not constant","crc_32.h, whirlpool.h, tiger.h and others")],["ThreadSanitizer; results of concurrent rounds against a sequential repetition"])
p("C17","The hash program prints exactly the digests of the given files",
  "For each algorithm option and a readable file or standard input, the program prints exactly one line, the digest of exactly the bytes of that input, two spaces and the file's name, whatever the number and content of the bytes and the sizes in which the system delivers them, and exits with success. Output lengths and customization strings given on the command line are the ones used.",
  ["inputs","fault_sequences"],"every option, every file, pipe and device with every content and length, every pattern of short reads, every length and customization argument","No existing test runs the program at all.",["src/program/main.cpp"]+f(*ALL),
  [("option table","main.cpp: main()"),("chunked reading","main.cpp: read loop")],(),["stdout, exit status of the real program"])
p("C18","The hash program never gives a digest for what it could not hash",
  "If a file cannot be opened or a read fails at any point, the program prints no digest line for it, names it on standard error and exits with a failure; if the digest line cannot be written out, it exits with a failure too. Unknown options, missing arguments and unusable output lengths give the usage text without a digest; no argument list or input makes the program crash, hang or be killed by a signal.",
  ["fault_sequences","inputs"],"every argument list and every failure of opening, of the n-th read or of writing, in every option","No existing test runs the program; a read error in the middle of a file needs an injected fault.",["src/program/main.cpp"],
  [("stream state checks","main.cpp: read loop"),("argument parsing","main.cpp: main()")],(),["stdout, stderr, exit status under injected read faults"])
p("C19","The bundled span never yields access outside the viewed sequence",
  "Every view derived from another (first, last, subspan, conversion, byte view, iterators) covers exactly the elements asked for, and every request outside the viewed sequence, by index, offset, count, fixed size or iterator movement, ends the program instead of returning.",
  ["inputs","programs"],"every chain of view operations and every out-of-range argument","No test exercises the span; the library itself passes only well-formed ranges, so wrong bounds checks stay silent until a caller errs.",["src/gsl/span","src/gsl/span_ext","src/gsl/util","src/gsl/assert"],
  [("Expects checks","gsl/span: constructors, operator[], first, last, subspan, span_iterator"),("terminate on violation","gsl/assert")],(),["element addresses and sizes of derived views; terminate in child processes"])
p("C20","A failed allocation while reading or copying leaves the object intact",
  "When memory runs out at any allocation inside reading a digest, copying, assigning or constructing, the failure is reported as the standard out-of-memory exception, nothing leaks, and the object read or copied from still gives its digest. Conversions and hash values, which are declared not to throw, succeed even then, and an object whose finalization failed can be reset and used again.",
  ["fault_sequences"],"every allocation of every such operation failing, at every state of the object","The tests never make an allocation fail.",f(*ALL),
  [("containers owning all memory","toString/toVector of each header; sha3.h, cshake.h, tuple_hash.h members"),("strong order of updates","assignment operators in cshake.h, tuple_hash.h")],(),["an interposed operator new that fails at the n-th allocation"])
p("C21","Input is only read, only within its bounds, and only during the call",
  "Adding data reads the given bytes and nothing before or after them, never writes to them, and keeps no reference to them: the buffer may be changed or freed as soon as the call returns. The digest depends on nothing but the bytes given.",
  ["inputs","histories"],"every length and alignment of every piece, every buffer fill level, every class","In the tests inputs are literals and vectors that outlive the object and are surrounded by readable memory, so overreads and retained references have no visible effect.",f(*ALL),
  [("spans passed by value and consumed","addData(), addDataImpl() of each header"),("word-wise loads of the input","addDataImpl() of each header")],(),["protected pages before and after each piece; inaccessible after the call"])
p("C22","Hashing takes linear time and constant memory",
  "The work of hashing grows linearly with the message and with the requested output, and each call's work is bounded by the bytes it is given plus a constant number of blocks, however much was hashed before. Memory held by an object does not grow with the message, whatever the way it is cut; the hash program likewise reads input of any size in constant memory, except for TupleHash, whose element is the file.",
  ["inputs","histories"],"every message and output length, every division into pieces","The tests hash short inputs and measure nothing; buffering the whole message or reprocessing it at each call gives the same digests.",f(*ALL)+["src/program/main.cpp"],
  [("fixed-size block buffer","Buffer class copied into the headers"),("chunked reading","main.cpp: read loop")],(),["executed basic blocks, copied bytes and heap use per call"])
p("C23","Digests are the same on big-endian and 32-bit machines",
  "On machines of either byte order and of 32-bit or 64-bit word size, every digest, string, conversion and comparison is the same as on a 64-bit little-endian machine.",
  ["configurations"],"every byte order and word size","The tests run on one little-endian 64-bit machine.",f(*ALL),
  [("byte-wise loads and stores","loaders and toArray of each header")],(),["a battery over every class on each machine"])
p("C24","The bundled GSL helpers keep their contracts",
  "A not_null or strict_not_null always holds a usable pointer: constructing or assigning it from a null one ends the program, and moving from it leaves it usable. An action given to finally runs exactly once, when its last owner goes out of scope, however that happens. narrow gives the same value or throws narrowing_error. at gives the element asked for or ends the program. copy writes exactly the source's elements and ends the program when they do not fit. Byte operations act as on unsigned char. Expects and Ensures evaluate their condition once and end the program if it is false.",
  ["inputs","programs"],"every value, pointer kind, index and scope exit","No test uses these headers.",["src/gsl/pointers","src/gsl/util","src/gsl/narrow","src/gsl/algorithm","src/gsl/byte","src/gsl/assert","src/gsl/zstring"],
  [("not_null keeps its pointer","gsl/pointers: not_null"),("final_action ownership flag","gsl/util: final_action"),("round-trip test","gsl/narrow: narrow()"),("bounds checks","gsl/util: at(); gsl/algorithm: copy()")],(),["results against plain C++; terminate in child processes"])
with open("/verif/properties.jsonl","w") as o:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        o.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
