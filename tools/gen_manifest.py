import json,jsonschema,sys
done=set(sys.argv[1].split(",")) if len(sys.argv)>1 else set()
ref="Trusts the independent reference implementations in /verif/ref (checked against published vectors and Python's hashlib by setup_cmd and at the start of every driver). Holds on the executions listed in the evidence file; nothing is proved for the others."
T={
"C01":("differential conformance monitoring of generated executions against independent references",ref),
"C02":("differential conformance monitoring of generated executions against independent references",ref),
"C03":("differential conformance monitoring of generated executions against independent references",ref),
"C04":("differential conformance monitoring of generated executions against independent references",ref),
"C05":("differential conformance monitoring of generated executions against independent references",ref),
"C06":("differential conformance monitoring of generated executions against independent references",ref),
"C07":("executions with really fed messages past 2^29/2^31/2^32 bytes, and with preset length counters, against references","Totals above 2^32 bytes are reached by presetting the object's own counter, found by observing the object's bytes while it is fed; where it is not found, only the really fed totals count."),
"C08":("metamorphic trace monitor: same message, different division and overloads","Compares the library with itself, so a digest that is wrong in the same way for every division is left to C01 to C06."),
"C09":("history monitor: object after reset() shadowed by a fresh one","Digests and equality are what is compared; other differences are not observable."),
"C10":("history monitor: several objects, each shadowed by a never-copied one","As C09; the histories are random programs of bounded length."),
"C11":("accessor consistency monitor over finalized objects","The map from digest bytes to integers and hash values is judged by the rule stated in DESIGN.md."),
"C12":("pairwise oracle over digests, with birthday-searched near collisions","Pairs that differ only where no searched pair differs are not reached."),
"C13":("AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ and library assertions, valgrind memcheck over API histories","Sanitizers do not see every kind of undefined behaviour (intra-object overflow in particular), and only on executed paths."),
"C14":("compile-time executions compared with run-time executions of the same calls","The compilers' constant evaluators are trusted to reject undefined behaviour."),
"C15":("cross-configuration differential monitor, include-order and multi-unit programs","gcc 13 and clang 18 with libstdc++ on x86-64 only."),
"C16":("ThreadSanitizer plus sequential-repetition oracle over multi-threaded rounds with injected delays","Covers the interleavings that occurred; their number is in the evidence."),
"C17":("black-box monitor of the program's output against references, with injected short reads","Judges standard output, standard error and the exit status of the real program, built with sanitizers and without."),
"C18":("fault injection into open and read of the real program, and hostile argument lists","Faults are injected by an interposed read(), and by outputs that refuse data."),
"C19":("model-based monitor of element addresses, and death tests in child processes","The span used in C++14 and C++17; std::span in C++20 is the compiler's."),
"C20":("enumerated allocation faults with leak accounting","Every allocation of each operation is failed in turn; over-commit behaviour of the system is not involved."),
"C21":("page-protection monitor around and after each input","Reads are bounded to the page on the guarded side exactly; the other side is checked in a second placement."),
"C22":("basic-block, copy and heap accounting per call","Costs are counted in executed instrumented blocks, copied bytes and heap bytes, not in time; the limits are generous constants."),
"C23":("execution of the same battery in emulated big-endian and 32-bit machines","Trusts the emulator in /verif, which is itself checked by running the references in it."),
"C24":("model-based monitor of results, and death tests in child processes","The library itself uses only the parts of these headers that span needs."),
}
NA={
"C23":"no machine, emulator or C++ library for another byte order or word size is installed, so nothing can be executed there",
}
lv={"C18":"fault_enumeration","C20":"fault_enumeration"}
m={"version":1,"setup_cmd":"python3 bin/setup.py","checks":[],"not_applicable":[]}
for c,(t,n) in T.items():
    if c in NA and c not in done:
        m["not_applicable"].append({"property":c,"reason":NA[c]}); continue
    m["checks"].append({"property":c,"quick_cmd":"python3 bin/check.py "+c,"thorough_cmd":"VERIF_TIER=thorough python3 bin/check.py "+c,"technique":t,"level":lv.get(c,"exploration"),"level_note":n})
m["notes"]="No hooks: every check drives the unmodified headers and program of /repo's working tree. Build output goes to /verif/.build (ignored by git), keyed by the content of the sources."
jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
