"""What each property's check builds and enumerates.  MANIFEST.json is generated from this (tools/gen_manifest.py)."""
ALL = list(range(7, 17))
H = 'harness.cpp'
EXH = ('bounded exhaustive exploration of the real code: every string over a token alphabet to a depth bound, every code point, '
       'every position; each compared with an explicit automaton model')
SPACE8 = ('UTF-8: every string of up to 4 (thorough 6) bytes over 36 boundary bytes; every string of 1-3 bytes (thorough 4) over all 255 byte values; every '
          'concatenation of up to 3 (thorough 4) of 110 tokens (every boundary code point, split pair, error and cut-off sequence); every code point to U+10FFFF in 5 contexts; '
          'every token at every position of fillers of each sequence length up to 40 (thorough 72), and at 11 positions of lengths to 65537, and of a few to 16777217; every position to 300 (1100) and around chunk sizes; '
          'seven kinds of token to depth 6-7 (8); every overlong form of every value to 1FFFF (cheap checks 1FFFFF; thorough all), strided above; every sequence with any one byte (thorough two) replaced by any other; every pair of ASCII characters and of 130 special ones in 4 contexts; every common character repeated 1-40 (70) and up to 4097 times')
SPACE16 = ('UTF-16: every string of up to 5 (thorough 6) of 17 boundary units; up to 3 (thorough 4) of 30 tokens; every unit in 9 contexts; every surrogate pair in 2; every position in fillers; six kinds of unit to depth 7-8 (9); pairs and runs of characters as for UTF-8; lengths to 16777217')
SPACE32 = ('UCS-4: every string of up to 3 (thorough 4) of 44 tokens; every value to 1FFFFF in 3-5 contexts, values with boundary 6-bit groups to FFFFFFFF (thorough sweeps all); every position in fillers; seven kinds of value to depth 6-7 (8); pairs and runs of characters as for UTF-8; lengths to 16777217')
TRUST = ['the model in src/model.hpp (written from the encoding definitions, not from the implementation)', 'g++ compiles the library here as it does in the repository build']
UCDA = ['data/u*.txt (committed, never read from /repo at run time) transcribes each version\'s UnicodeData.txt as pinned in the repository; white space is the White_Space property']

def P(rule, technique=EXH, drivers=None, assumptions=(), note='', **kw):
    return dict(rule=rule, technique=technique, drivers=drivers, assumptions=TRUST + list(assumptions), note=note, **kw)

PROPS = {
'C01': P('toUcs4(utf8) and the one-character decoder against the byte automaton. ' + SPACE8 + '; pairs of tokens up to 5 (20) apart; every value to 3FFFFFF (7FFFFFFF) as a single sequence'),
'C02': P('toUtf8 against the model encoder. ' + SPACE16 + '. ' + SPACE32 + '; every single value to 7FFFFFF (thorough: all 2^32)'),
'C03': P('toUtf16, toUcs2, toUcs4(utf16) against the model. ' + SPACE8 + '. ' + SPACE16 + '. ' + SPACE32),
'C04': P('Every is-check with each of the six ranges, and selectors outside the enumeration. ' + SPACE8 + '. ' + SPACE16 + '. ' + SPACE32),
'C05': P('Relational: whenever the implementation\'s check says yes, its conversion must give exactly the model\'s code points and pass its own check. ' + SPACE8 + '. ' + SPACE16 + '. ' + SPACE32),
'C06': P('Every conversion result must be empty or the complete re-encoding, and well formed both by the model and by the library\'s check. ' + SPACE8 + '. ' + SPACE16 + '. ' + SPACE32 + '. Code page input too'),
'C07': P('Every chain of conversions (program) up to the length bound over UTF-8, UTF-16, UCS-2, UCS-4, wchar_t from every valid text in the space: all code points, all concatenations of valid tokens, every position'),
'C08': P('Every proper prefix of sequences of every code point after every context token, for every range, in checks and conversions; the same prefix followed by each token'),
'C09': P('Buffers over bytes/units including NUL, every prefix length, with the prefix against an inaccessible page and with misleading units after it; overlong and corrupted sequences; prefixes of 2^31 (thorough 2^32) units in repeated pages'),
'C10': P('unicodeLength of NUL-terminated strings against the model count. ' + SPACE8 + '. ' + SPACE16 + '. ' + SPACE32),
'C11': P('Complete: every value 0..1FFFFF, and the value with each higher bit set (thorough: all 2^32 for two versions), each predicate and its negation, each argument width, each of the ten builds', versions=ALL, assumptions=UCDA,
         technique='exhaustive enumeration of the whole code space on ten builds against the character database'),
'C12': P('State machine whose states are sets of conditions (256): every chain of andIf/andIfNot (20 operations to depth 3, 11 to depth 5; thorough 4 and 6) is executed on the real class and compared on representatives of every class combination, and == with every neighbouring state; every one of the 256 condition sets on every code point',
         technique='explicit-state exploration of all operation sequences to a depth bound'),
'C13': P('Each code point alone and in company, class representatives in all strings of up to 3, all 81 consistent predicates and contradictory ones, six ranges, three encodings plus split-surrogate UTF-8, ten builds', versions=ALL, assumptions=UCDA),
'C14': P('Complete: every value 0..1FFFFF, with each higher bit (thorough: all 2^32), ten builds; UTF-8 and UTF-16 forms too', versions=ALL, assumptions=UCDA,
         technique='exhaustive enumeration of the whole code space on ten builds against the character database'),
'C15': P('All strings of up to 3 of 56 case-relevant characters, every code point in 5 contexts, malformed strings from the UTF-8/UTF-16 token spaces, every pair of letters that have a case, runs of every cased letter, every position in fillers, three language arguments, ten builds. Oracle: the implementation\'s own one-character result (relational)', versions=ALL),
'C16': P('Every language string of up to 3 bytes over all byte values; all of up to 4 (5) over 30 relevant characters; every one- and two-character extension, insertion and substitution of the ten codes; all language tags and locale names of up to three of 40 words and ten separators (four after one of the codes; thorough always); lengths to 131072; each code point under each of the ten codes and nine others', versions=ALL),
'C17': P('Every byte, every pair, triples over boundary bytes, every byte at every position of fillers, pairs after long text, for both code pages; Unicode and unknown selectors'),
'C18': P('Every string over delimiter/other/NUL to the depth bound, lists of pieces, five character types, every delimiter value of char and char16_t, lengths to 65537, to 300000 pieces'),
'C19': P('Every string over blanks/non-blanks to the depth bound; every code point at either end; every set of up to three of 5-7 characters, sets of 25 sizes to 1000, a string as its own set; texts of 48 lengths to 131073 (1048577) between every blank, or look-alike, and each of three others at either end', assumptions=UCDA),
'C20': P('Every wchar_t adapter against the UCS-4 function on the same values. ' + SPACE32),
'C21': P('Every overload of every function against the pointer form on the token spaces; null, empty; 37 selector values including every boundary'),
'C22': P('Built with AddressSanitizer, UBSan and libstdc++ debug mode; each pointer argument is read-only and ends (second pass: starts) at an inaccessible page; string arguments are compared afterwards; a watchdog bounds every call. The same calls on shallower spaces under valgrind, where a result or a decision that depends on uninitialised memory is an error. Token spaces, positions, every value through the character functions in ten builds; arguments larger than the stack; every chain of up to 4 (thorough 5) of 16 conditions, known and unknown; range, condition and source encoding selectors of 53 values from INT_MIN to INT_MAX with every check, and null for every pointer',
         versions=ALL + [116], flags=['-O1', '-g0', '-D_GLIBCXX_ASSERTIONS'], variants=[['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_DEBUG'], ['-DVG', '-O0']],
         wrap={1: ['valgrind', '-q', '--error-limit=no', '--num-callers=4']}, assumptions=['the sanitizers, valgrind and the page protection detect the access']),
'C23': P('Every history over a table of ~250 library calls (including calls on the same buffer with different contents, and alike strings) and 5 environment steps (errno, C locale, environment variables, C++ locale, dirty heap): (1) explicit-state search from the fresh state, the state being the library\'s writable segments, thread-local block and kept heap blocks, to a fixpoint (or the reported cap); (2) every sequence a b a b without state reduction (thorough: every a b c); (3) each call repeated up to 140000 (1100000) times and all in turn; (4) each of 41 families of calls on 4681 arguments, twice over (strings of up to 4 of 8 tokens, bare and between a common beginning and end; lengths to 20000; characters, languages, ranges and lengths every one after every other), in order, backwards, strided, and again after every power of two of others. The calls that reach version-specific code on all ten builds. Each result is compared with the same call in a fresh process',
         technique='explicit-state exploration of call histories on the real library (fork-based state save and restore)', versions=ALL, libdrivers=['ops.cpp'], shared=True, flags=['-O2', '-fPIC'],
         assumptions=['one set of arguments per call in the table; the input spaces of the other properties cover the arguments']),
'C24': P('Programs over the same table of calls: every operation against itself and against every other on two threads, three threads, two calls per thread, warm starts; every schedule with at most 2 (thorough 3) preemptions at synchronisation operations, each in a fresh process; vector-clock race detection on every access outside the own stack; results compared with the call alone. If no call writes outside its own memory and none synchronises (reported), every interleaving of any number of threads is equivalent to those run; otherwise longer programs over the calls concerned are explored, to the reported cap. The families of C23 in batches: hundreds of arguments on one thread, then the same on another without an ordering between them (quick: a fifth of the second variant, a ninth on older builds); schedules of single members where a batch shares anything. Calls on long arguments are paired with one other in six (thorough: all). The calls that reach version-specific code on all ten builds',
         technique='stateless model checking of the real code: all interleavings to a preemption bound under a controlled scheduler, with happens-before race detection',
         versions=ALL, libdrivers=['ops.cpp'], flags=['-O1', '-D_GLIBCXX_EXTERN_TEMPLATE=0'], libflags=['-fsanitize=thread', '-mmemcpy-strategy=libcall:-1:noalign', '-mmemset-strategy=libcall:-1:noalign'],
         ldflags=['-pthread'] + ['-Wl,--wrap=' + f for f in 'memcpy memmove memset memcmp memchr strlen strcmp strncmp strcpy strchr pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_spin_lock pthread_spin_unlock pthread_once sched_yield __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort'.split()],
         assumptions=['sequentially consistent interleavings of atomics (weaker orders only through the race detector)', 'code inside libstdc++.so and libc other than the wrapped functions is not monitored']),
'C25': P('Each operation of a table of library calls, each allocation it makes fails in turn, alone and with all later ones; each failure schedule runs in a fresh process: exception or right result, arguments, leaks, and later calls',
         drivers=['c25.cpp', 'ops.cpp'], flags=['-O1', '-D_GLIBCXX_EXTERN_TEMPLATE=0'], technique='exhaustive fault-point enumeration (every allocation of every call failing in turn)',
         ldflags=['-Wl,--wrap=' + f for f in ('malloc', 'calloc', 'realloc', 'free')],
         assumptions=['memory is obtained through operator new or malloc, calloc, realloc']),
'C26': P('Complete: every code point on ten builds against the tables of the version the build names, monotone across versions', versions=ALL, assumptions=UCDA,
         technique='exhaustive enumeration of the whole code space on ten builds against the character database'),
'C27': P('Three builds with a 16-bit wchar_t (-fshort-wchar): plain, WIN32 with _UNICODE, WIN32 with _MBCS. Every wchar_t, char and TCHAR adapter, pointer and string form, against the model and the fixed-width functions. ' + SPACE8 + '. ' + SPACE16 + '. ' + SPACE32,
         versions=[16, 116, 216], flags=['-O2', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-Wno-parentheses'], variants=[['-fshort-wchar'], ['-fshort-wchar', '-DWIN32', '-D_UNICODE'], ['-fshort-wchar', '-DWIN32', '-D_MBCS']],
         ldflags=['-Wl,--wrap=' + f for f in 'wcslen wmemcpy wmemmove wmemset wmemcmp wmemchr'.split()],
         assumptions=['g++ -fshort-wchar stands in for a compiler with 16-bit wchar_t; the C library\'s wide functions are replaced by 16-bit ones']),
'C28': P('Every file of up to 3 (thorough 4) of 18 kinds of line and 4 (6) of 6, with and without final newline, over an absent and a longer existing output; lists of 0-45 (130) records with each kind of line at each position, to 40000 records; the ten databases of the repository; every point at which the disk can be full for six lists; each read, write and close failing in turn, and short ones; lines of 33 lengths to 200000; twelve things that cannot be done. The real program is run on scratch files; its output is read back as a C++ initialiser',
         technique='exhaustive enumeration of input files and fault points against the real program', tool='mkUnicodeTestData/mkUnicodeTestData.cxx', preload=['c28_faults.c'],
         assumptions=['a full disk is a file size limit (write fails with EFBIG) or /dev/full']),
}
for k, p in PROPS.items():
    p['drivers'] = (p['drivers'] or [k.lower() + '.cpp']) + [H]
    p.setdefault('versions', [16])
