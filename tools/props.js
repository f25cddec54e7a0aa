'use strict';
// The single source of properties.jsonl and MANIFEST.json (node tools/gen.js).
const p = [];
const P = (id, o) => p.push({ id, ...o });

P('P01', {
    title: 'Functions never modify what the caller passed in',
    statement: 'Calling any public function leaves every object, array, option bag, map, set and buffer passed to it exactly as it was, however deeply nested and whichever branch runs, including through functions it returns and callbacks it invokes. Only the handful documented to work in place (move, the in-place sorts, deleting attributes, copying attributes onto a destination, tree building with the assign option) may change, and then only that one argument. The match position of a regular expression object is not part of this.',
    over: ['inputs', 'histories'],
    q: 'every public function x every argument value (shape, nesting, option combination) x every later call of a returned function',
    why: 'Tests compare return values for a few literals and never look at the argument afterwards; a write that only happens for one option combination or one nested shape is invisible to them.',
    files: ['packages/array/src', 'packages/object/src', 'packages/request/src/request.ts', 'packages/util/src', 'packages/string/src', 'packages/cookie/src'],
    mech: [['copies made before sorting, splicing or filling', 'packages/array/src'], ['rest/spread copies of option objects', 'packages/request/src/request.ts']],
    technique: 'static analysis: flow-sensitive interprocedural alias and write-effect analysis (abstract interpretation over the type-checked AST)',
    note: 'Decides the write effects of all public entries for all inputs. util.copy itself is excluded here (own property). Values only reachable through unanalysable host code are assumed not to be written by that code.'
});
P('P02', {
    title: 'A call never depends on earlier calls',
    statement: 'Apart from the explicitly stateful objects a user creates (memoized, throttled, once-only functions, progress bars), calling a library function any number of times leaves no trace inside the library: no shared table, constant, pattern match position or counter that a later call reads is changed. No function hands out a reference to a shared internal table that a caller could change for everyone else. Caches keyed by their complete input are allowed because they cannot be observed.',
    over: ['histories', 'inputs'],
    q: 'every sequence of calls with any arguments, in any order, from any number of users in one process',
    why: 'Each test starts from a fresh module and calls a function a few times; leakage needs a particular earlier call (a failed match, a thrown error, a mutated result) before the affected one.',
    files: ['packages/regexp/src', 'packages/types/src', 'packages/string/src', 'packages/term/src', 'packages/function/src', 'packages/asserts/src'],
    mech: [['module-level constants and patterns without match state', 'packages/regexp/src'], ['tables created per call or frozen by never being returned', 'packages/array/src/constants']],
    technique: 'static analysis: interprocedural write-effect and escape analysis of module-level state',
    note: 'The scheduler chosen at import time by function.nextTick keeps a queue by design and is exempt; so is the replaceable cache class of the memoize functions.'
});
P('P03', {
    title: 'Effects stay within what each function is documented to do',
    statement: 'A function reads the clock, the random source, the host locale, the environment or the platform, touches files, the network, processes, timers, the terminal or standard input, or generates code at run time, only when its documentation says so; everything else is deterministic and confined to its arguments. Importing any package does nothing observable.',
    over: ['inputs', 'configurations'],
    q: 'every public function x every argument x every host configuration (locale, time, platform, environment)',
    why: 'Tests run on one host with one locale and one clock and assert the value, so an extra effect or a hidden dependence on the host is not observable there; fs, os, process and request have no effective tests at all.',
    files: ['packages'],
    mech: [['pure implementation modules', 'packages/array/src'], ['effects isolated in fs, os, process, request, term packages', 'packages/fs/src']],
    technique: 'static analysis: interprocedural effect inference against a per-entry table of documented effects',
    note: 'Categories are inferred from resolved external callees. Time and locale used only to stamp a diagnostic message are exempt. Which file is touched is decided by other properties.'
});
P('P04', {
    title: 'Assertions and predicates agree',
    statement: 'Every function of the asserts package accepts exactly the values the predicate of the same name in the types package accepts: it returns normally whenever the predicate, given the same arguments, is true, and throws a TypeError whenever it is false. It passes its arguments (except the variable name used in the message) on unchanged and in order, and an omitted option means the same to both.',
    over: ['inputs'],
    q: 'every assertion x every value x every option, variable name and additional argument',
    why: 'The asserts package has no tests of its own behaviour; even with tests a handful of values cannot show that two functions agree on all values.',
    files: ['packages/asserts/src', 'packages/types/src'],
    mech: [['each assertion consults the predicate of its name', 'packages/asserts/src'], ['the predicates', 'packages/types/src']],
    technique: 'static analysis: abstract interpretation of each assertion with the predicate replaced by both answers; argument and default flow',
    note: 'Deliberately relative: it does not say what a predicate should accept (that is the type predicates property).'
});

P('P05', {
    title: 'Type predicates answer what their name says for every kind of value',
    statement: 'Every predicate of the types package, called with any kind of value a JavaScript program can contain, returns exactly true or exactly false, never throws, and answers what its name and documentation say. A kind of value is a combination of: primitive type; for numbers the numeric class (NaN, infinities, both zeros, safe and unsafe integers, fractions, signs); for strings and collections whether they are empty; for objects the built-in class, the prototype chain (null prototype, plain, subclass, a class of the program) and wrapper objects; for functions the flavour (class, async, generator, bound, native, arrow). Values disguised with a custom Symbol.toStringTag, proxies or throwing getters, sparse arrays, and the predicates about the platform or taking a caller-supplied test function are not part of this.',
    over: ['inputs'],
    q: 'every predicate x every kind of value (x every option it takes)',
    why: 'Each predicate is tested with a dozen hand-picked values; an answer that is wrong for one unsampled kind (a boxed number, a null-prototype object, a bound class, an invalid date) or a throw for an exotic one is not covered, and there are 180 predicates times hundreds of kinds.',
    files: ['packages/types/src'],
    mech: [['the predicates', 'packages/types/src'], ['tag and prototype helpers', 'packages/types/src/object']],
    technique: 'static analysis: abstract interpretation of every predicate over a finite domain of value kinds, compared with an independent truth table',
    note: 'Every kind is an abstract atom; built-in operations the predicates use are evaluated on the atom by a table. isElement is only decided as far as the host has a DOM.'
});

P('P06', {
    title: 'Results are new values, never the array or object that was passed in',
    statement: 'A function that returns an array or an object returns one it created: never the caller\'s own argument, and never a structure that holds the argument itself in place of a copy, whatever the size of the input (empty, one element, shorter than a chunk) and whichever option is used. Changing the result therefore never changes the argument. Elements and property values are passed through by reference as usual. Exceptions are only the functions documented to hand back what they got (the in-place ones, toArray for an array, toPromise, toggle, an empty path in getFromPaths, tree building with the assign option).',
    over: ['inputs', 'histories'],
    q: 'every public function x every argument value and size x every later change of the result or the argument',
    why: 'Tests compare results structurally; an early return of the argument itself for an empty or short input is structurally equal and only shows when the caller later changes one of the two.',
    files: ['packages/array/src', 'packages/object/src', 'packages/string/src', 'packages/cookie/src'],
    mech: [['fresh containers built per call', 'packages/array/src'], ['slices instead of the array itself', 'packages/array/src/splitByStep.ts']],
    technique: 'static analysis: interprocedural alias (points-to) analysis of returned values',
    note: 'util.copy (deep copies) is not part of this property. Closures handed to the caller are not followed for results of their own.'
});

P('P07', {
    title: 'Text classifiers accept exactly the documented format, on every text',
    statement: 'isIp (IPv6 addresses, bare or in brackets with a port), isChinaPhoneNumber at each strictness, isEmail, isURI and isWindowsPath (apart from their length limits and per-component rules), inChinese, inJapanese, inChkPunctuation, isSpaceString with every option combination and the exported character patterns (ascii, blank, hiragana, katakana, korean, han, japanese, unifiedIdeograph, chkPunctuation, control, punctuation) accept exactly the texts their documentation describes: nothing before or after the format is tolerated where the whole text is judged, no alternative is missing, no other character slips in. trim, trimStart, trimEnd and trimAll remove exactly the selected kinds of blanks, at exactly the documented places.',
    over: ['inputs'],
    q: 'every text of any length x every option combination',
    why: 'A pattern is a language over all texts; a missing anchor, a widened range or a lost alternative only shows on texts no test happens to contain.',
    files: ['packages/regexp/src', 'packages/string/src/trim', 'packages/string/src/spaces', 'packages/string/src/character', 'packages/path/src'],
    mech: [['the patterns', 'packages/regexp/src'], ['character tables and trim patterns', 'packages/string/src/character/characters.ts']],
    technique: 'static analysis: constant propagation of pattern texts, abstract interpretation of the classifier as a boolean function of pattern matches, automata language equivalence with an independent grammar',
    note: 'Unicode classes are compared with Unicode 12, the version the tables were generated from. Plain IPv4 texts are left open for isIp. Custom extra characters of the trim functions are not part of this.'
});

P('P08', {
    title: 'No call runs forever: patterns never explode and every loop advances',
    statement: 'No text, list or number handed to the library makes it run forever. No regular expression of the library, written out or assembled from constants, can backtrack exponentially on any text. Every loop makes progress: each turn moves a counter strictly towards the bound its condition tests, removes an element from the collection it drains, advances the match position (also after an empty match), or moves along the text; a step chosen by the caller is refused when it is zero or negative.',
    over: ['inputs'],
    q: 'every pattern x every text; every loop x every path through one turn',
    why: 'A hang needs one particular text (a trailing blank, an empty match, forty letters without the expected end); tests contain none of them, and a test run can never show that there are none.',
    files: ['packages/*/src'],
    mech: [['patterns', 'packages/regexp/src/source'], ['global matching', 'packages/regexp/src/execAll.ts'], ['cookie splitting', 'packages/cookie/src/setCookie/split.ts'], ['chunking loops', 'packages/string/src/bytes/splitByBytes.ts']],
    technique: 'static analysis: automata ambiguity of every constant pattern; interprocedural dataflow of variable movement over one turn of every loop',
    note: 'Patterns supplied by the caller, loops inside callbacks, recursion depth and polynomial matching time are not part of this. Waiting loops (delaySync, retry, reading a file) end with the clock, the attempts or the file.'
});

P('P09', {
    title: 'File operations touch only the paths the call names, and the documented ones',
    statement: 'Every file-system operation reachable from a function of the fs package acts on the path the call names and in the documented role: deleteOne deletes only the path it was given and clearDir only places below it; copy, copyFile, copySymbolicLink and destPath write and create only the destination, places below it and the folders that hold it, read only from the source, and never write to, change or delete the source; writeFile stores the given data in the given file; mkdir creates the given folder; the reading, listing and testing functions only read what they were given. No operation follows a name, a link target or another program\'s output to a different place to delete or write there. An option that switches an effect off (no overwriting, keep the folder itself, no parent folders) switches it off at every depth. No function of the other packages writes, deletes or creates anything.',
    over: ['inputs', 'configurations'],
    q: 'every public function x every path argument x every option x every file-system call reachable from it',
    why: 'The fs package has no effective tests, and the wrong target only shows in a particular layout (an existing destination, a link, a nested folder, a file next door) that nobody sets up.',
    files: ['packages/fs/src'],
    mech: [['delete, copy, write and list functions', 'packages/fs/src'], ['destination computed from source and folder', 'packages/fs/src/destPath.ts']],
    technique: 'static analysis: interprocedural provenance (typestate of path values) of the arguments of every file-system call, with per-option partial evaluation',
    note: 'Concurrent changes of the file system and `..` inside a relative part computed from two paths are not decided. A folder deletion is judged by the path it is given, not by what the system finds there.'
});

P('P10', {
    title: 'Text from the caller never becomes code',
    statement: 'Text passed to a public function is never executed or read as syntax, unless that parameter is code by documentation (the command of exec, the cmd and shell of spawn, the flags of toRegExp, function sources that copy re-creates). Arguments that spawn and open put on a shell command line are quoted for that shell, POSIX or Windows cmd, so that on a POSIX shell every argument arrives as exactly one argument with unchanged text, whatever characters it contains (for cmd: no character of it acts as shell syntax), and an empty argument stays an argument; paths and names that reach PowerShell or another program are quoted or passed as separate arguments; keys, cookie and header text and names never become generated functions; a variable-name check only parses the text and never runs it; text that is put into a regular expression has every special character escaped, for the place it is put in.',
    over: ['inputs'],
    q: 'every public function x every text argument x every shell command, generated function and pattern reachable from it',
    why: 'Injection needs one particular character in one particular argument; there are no tests of quoting at all, and no sample of texts can show that no character escapes.',
    files: ['packages/process/src', 'packages/os/src', 'packages/fs/src/readLnk.ts', 'packages/object/src/cascade', 'packages/types/src/variable/isVarName.ts', 'packages/string/src/regexp'],
    mech: [['shell quoting', 'packages/process/src/spawn.ts'], ['pattern escaping', 'packages/string/src/regexp/toRegExpSource.ts'], ['property access by key', 'packages/object/src/cascade/cascade.ts']],
    technique: 'static analysis: taint analysis with per-language sanitizer verification (character-class coverage and replacement mapping of every escaping replacement, POSIX lexer-state equivalence of later replacements)',
    note: 'Shells other than POSIX ones and Windows cmd are not covered. On Windows the ComSpec variable is taken to be set. A leading dash that a program reads as an option is not code.'
});

P('P11', {
    title: 'Large inputs never overflow the stack',
    statement: 'The depth of the stack a call uses follows how deeply its data is nested, never how much data there is: an array of a million elements, a long text or a folder with any number of files does not overflow it. No function turns the elements of data-sized arrays into arguments of another call (Math.max, push, fromCharCode, concat ...), and no function calls itself once per element, character or step; recursion descends into parts (an element, a property, a subfolder) only.',
    over: ['inputs'],
    q: 'every public function x every size of every argument',
    why: 'The limit lies around a hundred thousand elements; tests use a handful, and the same code is correct for all of them.',
    files: ['packages/*/src'],
    mech: [['collecting results of a walk', 'packages/fs/src/fileList.ts'], ['depth of nested arrays', 'packages/array/src/maxRecursionDepth.ts'], ['copying nested values', 'packages/util/src/copy.ts']],
    technique: 'static analysis: abstract interpretation of the sizes of argument lists; size-change analysis of the recursive cycles of the call graph',
    note: 'An argument list the caller supplies for a function of the caller is the caller\'s own. Deeply nested or cyclic data is not part of this, nor is util.maxCallStackSize, whose purpose is to reach the limit.'
});

P('P12', {
    title: 'Every asynchronous operation settles and reports its failure',
    statement: 'Every promise the library hands out settles: on every path through the function that makes it, success or failure is reported, and where it waits for a process, stream, request or reader, every way in which that can end, including an error, reports one of the two. Failures arrive at the caller as failures: never as a crash of the process through an "error" event nobody listens to or an exception thrown inside a listener or timer, never as a success (an operation that an error or timeout event ends is not fulfilled), never as a result that is an error, never as a rejection with a promise, and never as a returned error where the documentation does not say so.',
    over: ['schedules', 'fault_sequences', 'inputs'],
    q: 'every promise the library makes x every path and event order; every process, stream, request and reader x every way it can end',
    why: 'It needs a fault at a particular moment (a program that cannot be started, a connection that breaks after the header, end of input); the modules concerned have no effective tests, and waiting for ever cannot be observed by a test.',
    files: ['packages/process/src', 'packages/request/src', 'packages/os/src', 'packages/fs/src', 'packages/term/src', 'packages/function/src'],
    mech: [['processes', 'packages/process/src/spawn.ts'], ['requests', 'packages/request/src/request/request.ts'], ['line reader', 'packages/fs/src/readlineStream.ts'], ['process tree', 'packages/os/src/kill.ts'], ['cancelling and timeouts', 'packages/function/src']],
    technique: 'static analysis: must-settle dataflow over promise executors and event listeners; abstract interpretation of emitters, listeners and escaping failures',
    note: 'That an emitter of Node.js ends at all, and that the work a caller passes in ends, is taken for granted. A caller who never settles a promise of their own waits for it. os.kill without a callback has nobody to tell.'
});

P('P13', {
    title: 'No failure is swallowed, except where the documentation says so',
    statement: 'When a file-system, process, network or parsing operation a function relies on fails, or a function supplied by the caller throws or rejects, that failure reaches the caller: the call throws, the returned promise rejects, the returned function throws, or the callback receives it. The library goes on as if nothing had happened only where that is the documented purpose (noCatch, ifThrow, padding, retry while attempts remain, tests such as isDir that answer no, listing functions that skip what cannot be read, forced copying that deletes and tries again, signalling processes that are gone).',
    over: ['fault_sequences', 'inputs'],
    q: 'every public function x every failing operation or caller function reachable from it x every handler on the way out',
    why: 'It needs the operation to fail at a particular moment; there are next to no fault tests, and a swallowed failure looks like success.',
    files: ['packages/fs/src', 'packages/process/src', 'packages/os/src', 'packages/request/src', 'packages/function/src', 'packages/cookie/src'],
    mech: [['handlers', 'packages/function/src/catch'], ['parallel execution', 'packages/function/src/control/parallel.ts'], ['file operations', 'packages/fs/src'], ['signals', 'packages/os/src/kill.ts']],
    technique: 'static analysis: abstract interpretation with failure provenance (every thrown or rejected value carries the operation it came from) through handlers, promises and callbacks',
    note: 'Which failure is reported when several occur, and the text of messages, is not part of this. Predicates of the types package answer instead of failing.'
});

P('P14', {
    title: 'What a call opens is closed by the time its promise is settled',
    statement: 'Whatever a function of the library opens for one call (file handles and descriptors, read streams, readline interfaces, network requests, timers that are to cut a wait short) is closed, destroyed or cleared by the time the promise of the call is settled, on every path: also when the second of two files cannot be opened, when reading fails, when a callback or handler of the caller throws, when a handler asks to stop early, on a redirect, on a timeout, and when the task that a timer guards fails. A listener that settles the promise for another reason than the end of the resource closes the resource first or in the same turn.',
    over: ['fault_sequences', 'crash_points', 'schedules'],
    q: 'every path through the functions that open something, failing calls at any point included',
    why: 'A handle, socket or timer left behind changes no result: it shows only as descriptors running out, a process that does not end or a server that keeps a connection, and only when something failed at the right point.',
    files: ['packages/fs/src/diffFile.ts', 'packages/fs/src/readlineStream.ts', 'packages/fs/src/readFragment.ts', 'packages/function/src/timeout/timeoutOr.ts', 'packages/request/src/request/request.ts', 'packages/term/src/readByQuestion.ts'],
    mech: [['file handles', 'packages/fs/src/diffFile.ts'], ['streams', 'packages/fs/src/readlineStream.ts'], ['requests', 'packages/request/src/request/request.ts'], ['timers', 'packages/function/src/timeout/timeoutOr.ts'], ['terminal', 'packages/term/src/readByQuestion.ts']],
    technique: 'static analysis: typestate (open / closed / promise settled) over all paths of every function, executor and listener, with branches on presence, exceptions, finally blocks, promise chains and helpers followed',
    note: 'A close that itself fails counts as closed. What is handed to the caller (returned) is the caller\'s to close. Child processes are not among the resources; timers that only wait (delay, sleep) end by firing.'
});

P('P15', {
    title: 'Documented argument checks reject exactly the invalid values',
    statement: 'Where the documentation of a function says which arguments are an error, every value of that kind is rejected by throwing (or by a rejected promise where the function is asynchronous) before a result is given, and no documented value is rejected. This holds for the step of array splitByStep and range (also its sign against from and to), length and padPosition of splitChunk, dimension of isMultiDimensional, the positions of move; count and callback of runAfterTimes and runOnlyNTimes, total of collectItems, the duration of timeoutMsResolve, setTimeout and timeoutLog; the numbers of number toInt, inRange, range, rangeSafe, withDelimiter and its capacity; methodLevel of object keys and values, the value of sortKeys, the key of cascade; empty testSome and testEvery, the key of execAll; the flags of toRegExp, the position of notStarts, startsSlice, word, wordStart and wordEnd, highWaterMark of splitByBytes; the colours of term colorCode8bit, colorCode24bit, colorNameCode3bit and colorNameCode24bit; the name and encode of createCookie, the text of parseCookie, the value of joinSetCookie; start and end of readFragment, the paths of destPath and findDir, the data of readline.',
    over: ['inputs'],
    q: 'every documented argument condition x every kind of value (type, tag, prototype, emptiness, numeric cell between the bounds that matter)',
    why: 'Tests try one or two wrong values (a string, zero); a fraction, NaN, a numeric text, an infinite, boxed or negative number, a bigint, or a value just beyond the bound passes a weakened check unseen and yields a silently wrong result.',
    files: ['packages/array/src', 'packages/function/src/limit', 'packages/function/src/timeout', 'packages/number/src', 'packages/object/src/keys', 'packages/string/src', 'packages/term/src', 'packages/cookie/src/cookie', 'packages/fs/src'],
    mech: [['lengths and steps', 'packages/array/src/splitChunk.ts'], ['counts', 'packages/function/src/limit'], ['durations', 'packages/function/src/timeout'], ['numbers', 'packages/number/src'], ['positions', 'packages/string/src/words'], ['colours', 'packages/term/src']],
    technique: 'static analysis: abstract interpretation over kinds of values; on each kind the reachability of the return against the documented condition',
    note: 'The other arguments are fixed valid ones. Conditions that depend on the file system or on the network, and kinds the documentation does not speak about, are left out. Which error and which message is not part of this.'
});

P('P16', {
    title: 'Any text can be a key',
    statement: 'Where the library builds an object or a lookup table from keys found in the data (names of cookies, ids of nodes, properties of the objects it copies, hosts, keys a callback computes), every text works as a key: names such as "__proto__", "constructor" or "toString" end up as own properties of the result like any other key, never change what the result inherits, and never replace a field the library itself put there (an attribute of a cookie does not replace its name or value). A lookup in such a table, or of one object\'s keys in another object, finds only what is there as an own property, never what every object inherits; and walking over the keys of an object visits only its own. Source text generated from data keeps a "__proto__" key an ordinary key.',
    over: ['inputs'],
    q: 'every object or table the library builds x every key in the data; every lookup by such a key',
    why: 'Only a handful of names out of all texts behave differently, and they come from data an attacker chooses; tests use ordinary names.',
    files: ['packages/*/src'],
    mech: [['tables by id', 'packages/array/src/convert'], ['cookies', 'packages/cookie/src'], ['copying and comparing objects', 'packages/object/src'], ['generated source text', 'packages/util/src/stringify.ts']],
    technique: 'static analysis: abstract interpretation with provenance of property keys; guard analysis (own-property tests, excluded names) over the syntax tree',
    note: 'Options objects the caller fills are not data. Functions whose purpose is to read a named property, inherited or not (getProperty-like), do that.'
});

P('P17', {
    title: 'Wrappers hand on exactly the documented arguments and results',
    statement: 'A helper of the function package that wraps a function (before/after and apply variants, compose, currying, bind, once, runOnlyNTimes, runAfterTimes, memoizeWith, ifThrow, noCatch, tryCatch, retry, padding, select, cancelExec, delayReturn, delayRun, setTimeout, timeoutOr, executeToPromise, toPromise) calls the functions it was given in the documented order, and none more often or less often than documented. Each call gets exactly the documented arguments: all of them, in order, unchanged, whatever their number and whatever they are (falsy, arrays, objects). And the documented one of the results, also when it is undefined, null, 0, false or an empty string, comes back unchanged (the same object), directly or as what the promise fulfils with. A task that is a promise instead of a function is handed on as it is. Over a series of calls, once calls its function the first time only and hands out that first result afterwards whatever it was, and runOnlyNTimes and runAfterTimes call it in exactly the calls they count.',
    over: ['inputs', 'histories'],
    q: 'every wrapper x every number and kind of arguments x every result or failure of the wrapped functions x, for the ones that count, the calls before',
    why: 'Each test passes two or three numbers and looks at one result; a dropped third argument, a flattened array, or a falsy result taken for a missing one is invisible to it.',
    files: ['packages/function/src'],
    mech: [['chaining', 'packages/function/src/chain'], ['limits', 'packages/function/src/limit'], ['failures', 'packages/function/src/catch'], ['control', 'packages/function/src/control'], ['delays', 'packages/function/src/delay'], ['selection', 'packages/function/src/select']],
    technique: 'static analysis: trace effects (the set of all words of calls a function can make, with the identity of every argument and result) computed by abstract interpretation with opaque functions and values, against a table of the documented words; for the helpers that remember, a typestate automaton whose states are the values of the captured variables',
    note: 'How long delays take and which of two calls in a race wins is not part of this. Series of up to five calls are followed for once, runOnlyNTimes and runAfterTimes, as long as what they remember stays decidable.'
});

P('P18', {
    title: 'Iteration helpers visit every element once, in order, and wait as told',
    statement: 'each, eachRight, mapRight and their Async (serial) and Parallel forms, mapAsync and mapParallel call the callback exactly once for every element of the array, whatever its value (also undefined, null, 0, false, an empty string or an array), from the first to the last or (Right forms) from the last to the first, with the element, its index and the array itself. The Async forms wait for what a call gives (a promise or any thenable) before they make the next call, and are themselves fulfilled only afterwards; the Parallel forms make every call before they wait for any, and are fulfilled only when all are. each, eachRight, eachAsync and eachRightAsync stop at the first call whose (awaited) result is exactly true and at no other result. The mapping forms give an array that holds the result of every call in the order of the calls, whatever order they end in. array.toObject and object.toArray ask their functions once for every element or property in order, and toArray keeps their results in that order. object.shallowEqual lets the given comparison decide on the two objects and then on every property with its key. isEvery and isSome ask the predicates about elements only and answer by what they say.',
    over: ['inputs', 'schedules'],
    q: 'every array x every kind of element and of callback result (objects, falsy values, true, promises, thenables) x every order in which the promises settle',
    why: 'The tests map arrays of numbers with callbacks that settle at once, in order; a call not waited for, results in the order of completion, a skipped falsy element or a thenable not awaited pass them.',
    files: ['packages/array/src/each', 'packages/array/src/map', 'packages/array/src/convert', 'packages/object/src/toArray.ts', 'packages/object/src/shallowEqual.ts', 'packages/types/src'],
    mech: [['walks without result', 'packages/array/src/each'], ['walks with results', 'packages/array/src/map'], ['conversions', 'packages/array/src/convert/toObject.ts'], ['comparison', 'packages/object/src/shallowEqual.ts']],
    technique: 'static analysis: trace effects (words of calls and waits, with the part of an async function after its first wait deferred to the wait for its promise) and place-by-place array contents, by abstract interpretation with opaque callbacks, against the documented walk',
    note: 'Arrays of 0 to 3 opaque, falsy and nested elements; that longer arrays are walked alike is taken from the loop being the same, not proved. What the caller does to the array during the walk is not part of this.'
});

const notApplicable = [
    {
        id: 'P91', title: 'What is taken apart can be put together again',
        statement: 'Pieces made by splitByStep, splitChunk, splitByBytes, chars, toSentences, matchSplit and the like, put together, give the input; what createCookie, joinSetCookie, toCascadeKeys, htmlEntities or stringify write, the counterpart reads back as the same value.',
        over: ['inputs'], q: 'every text or value', why: 'Only particular texts (surrogate pairs, quotes, separators inside values) are lost; tests use ordinary ones.',
        files: ['packages/array/src', 'packages/string/src', 'packages/cookie/src', 'packages/object/src/cascade', 'packages/util/src'], mech: [['splitting', 'packages/array/src/splitChunk.ts'], ['texts', 'packages/string/src/bytes/splitByBytes.ts'], ['cookies', 'packages/cookie/src']],
        reason: 'An equation between the contents of an input of any length and of an output that is computed index by index: it needs inductive reasoning about sequences (a solver or a proof), which no dataflow, typestate or effect argument gives; sampling it would be a runtime test.'
    },
    {
        id: 'P92', title: 'Computed numbers, dates and amounts are right',
        statement: 'The numbers the library computes (array range, number conversions, formatted byte counts, amounts in words, dates and durations as text, byte lengths) are the mathematically right ones.',
        over: ['inputs'], q: 'every number and date', why: 'The wrong values are at rounding and carry boundaries no table of examples reaches.',
        files: ['packages/number/src', 'packages/date/src', 'packages/array/src/range.ts', 'packages/string/src/bytes'], mech: [['amounts', 'packages/number/src/amount/amountInWords.ts'], ['dates', 'packages/date/src']],
        reason: 'It is a relation between run-time numbers and a mathematical function; static abstractions here keep kinds and intervals, not exact arithmetic, so any static verdict would be "unknown" for all interesting inputs.'
    },
    {
        id: 'P93', title: 'Random choices are uniform and delays take as long as told',
        statement: 'shuffle, random and the random texts choose every outcome equally often; delays, paddings and timeouts take at least the time they are given.',
        over: ['schedules', 'inputs'], q: 'every range, every duration', why: 'A bias or an early timer shows only in distributions or under load.',
        files: ['packages/number/src', 'packages/array/src/shuffle.ts', 'packages/string/src/random', 'packages/function/src/delay'], mech: [['random numbers', 'packages/number/src/random.ts'], ['delays', 'packages/function/src/delay']],
        reason: 'Distributions and elapsed time are run-time quantities; the source only shows which generator or timer is used (that part is in P12 and P17), not how its results are distributed.'
    }
];

module.exports = { props: p, notApplicable };
