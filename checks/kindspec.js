'use strict';
// The kinds of values and what each predicate must answer. Independent of the repository: written from the names and the
// documentation of the predicates and from ECMAScript.
const stream = require('stream');

function kinds() {
    const out = [];
    const ids = new Set();
    const k = (id, v, d = id) => { if (ids.has(id)) throw new Error('duplicate kind ' + id); ids.add(id); out.push({ id, v, d }); };
    k('undefined', undefined); k('null', null); k('true', true); k('false', false);
    for (const s of ['', ' ', 'a', ' a ', 'ab', '1', 'true', '[object Map]']) k('str:' + JSON.stringify(s).slice(1, -1), s, JSON.stringify(s));
    for (const b of [0n, 1n, 2n, -1n, 2n ** 64n]) k(`big:${b}`, b, `${b}n`);
    k('symbol', Symbol('x'), 'a symbol'); k('symbol:iterator', Symbol.iterator, 'Symbol.iterator');
    // numbers: every cell between the bounds that occur in the specifications
    const B = [0, 1, 2, 127, 128, 255, 2047, 32767, 32768, 65504, 65535, 16777215, 2147483647, 2147483648, 4294967295, 9007199254740991, 2 ** 53 + 2, 3.4028234663852886e38, 1.7976931348623157e308];
    const N = new Set();
    const add = x => { N.add(x); };
    for (const b of B) for (const s of [1, -1]) for (const d of [0, 1, -1, 0.5, -0.5]) add(s * (b + d));
    for (let i = 0; i + 1 < B.length; i++) { const m = (B[i] + B[i + 1]) / 2; for (const s of [1, -1]) { add(s * Math.floor(m)); if (m < 2 ** 50) add(s * (Math.floor(m) + 0.25)); } }
    for (const x of [NaN, Infinity, -Infinity, 5e-324, 3, 4, 5, 9, 15, 97, 100, 400, 1900, 2000, 2023, 2024, -4, -3, 1e-7]) add(x);
    k('num:-0', -0, '-0');
    for (const x of N) if (!Object.is(x, -0)) k('num:' + x, x, String(x));
    // objects
    k('obj:{}', {}, 'an empty object'); k('obj:filled', { a: 1 }, 'an object with a property');
    k('obj:symkey', { [Symbol('s')]: 1 }, 'an object with a symbol property'); k('obj:hidden', Object.defineProperty({}, 'h', { value: 1, enumerable: false }), 'an object with a hidden property');
    k('obj:null', Object.create(null), 'an object without prototype'); k('obj:nullfilled', Object.assign(Object.create(null), { a: 1 }), 'an object with a property and without prototype');
    class Some { m() {} }
    k('obj:instance', new Some(), 'an instance of a class'); k('obj:inherits', Object.create({ a: 1 }), 'an object that inherits from an object');
    k('obj:len0', { length: 0 }, 'an array-like object of length 0'); k('obj:len1', { 0: 'a', length: 1 }, 'an array-like object'); k('obj:len2sparse', { 1: 'a', length: 2 }, 'a sparse array-like object');
    k('obj:lenextra', { 0: 'a', b: 1, length: 1 }, 'an array-like object with another property');
    k('obj:lenneg', { length: -1 }, 'an object of length -1'); k('obj:lenfrac', { length: 1.5 }, 'an object of length 1.5'); k('obj:lenbig', { length: 2 ** 32 }, 'an object of length 2^32'); k('obj:lenmax', { length: 2 ** 32 - 1 }, 'an object of length 2^32-1'); k('obj:lenstr', { length: '1' }, 'an object whose length is a string');
    k('obj:lenunsafe', { length: 2 ** 53 }, 'an object of length 2^53');
    k('obj:size0', { size: 0 }, 'an object of size 0'); k('obj:size3', { size: 3 }, 'an object of size 3'); k('obj:sizeneg', { size: -1 }, 'an object of size -1'); k('obj:sizefrac', { size: 0.5 }, 'an object of size 0.5');
    k('obj:then', { then() {} }, 'an object with a then method'); k('obj:thennofn', { then: 1 }, 'an object whose then is no function');
    k('obj:next', { next() {} }, 'an object with a next method'); k('obj:iter', { [Symbol.iterator]() {} }, 'an iterable object'); k('obj:aiter', { [Symbol.asyncIterator]() {} }, 'an async iterable object'); k('obj:iternofn', { [Symbol.iterator]: 1 }, 'an object whose Symbol.iterator is no function');
    k('obj:errlike', { name: 'E', message: 'm', stack: 's' }, 'an error-like object'); k('obj:errlike0', { name: 'E', message: '', stack: 's' }, 'an error-like object with an empty message'); k('obj:errnoname', { name: '', message: 'm', stack: 's' }, 'an error-like object without a name'); k('obj:errnostack', { name: 'E', message: 'm', stack: '' }, 'an error-like object without a stack');
    k('obj:desc', { value: 1, writable: true }, 'a data descriptor'); k('obj:descget', { get() {}, enumerable: false }, 'an accessor descriptor'); k('obj:descboth', { value: 1, get() {} }, 'a descriptor with value and getter');
    k('obj:ctorname', { constructor: { name: 'Map' } }, 'an object that names another constructor');
    k('obj:Object.prototype', Object.prototype, 'Object.prototype'); k('obj:Array.prototype.slice', Array.prototype.slice, 'Array.prototype.slice');
    (function () { k('arguments', arguments, 'an arguments object'); })(1, 2);
    (function () { k('arguments0', arguments, 'an empty arguments object'); })();
    // arrays
    k('arr:[]', [], 'an empty array'); k('arr:sparse', new Array(2), 'a sparse array'); // eslint-disable-line no-sparse-arrays
    k('arr:subclass', new (class extends Array {})(), 'an empty array of a subclass');
    const A = { num: [1, 2], numobj: [1, Object(2)], str: ['a', 'b'], bool: [true, false], big: [1n, 2n], sym: [Symbol('a'), Symbol('b')], nul: [null, null], und: [undefined, undefined], nulund: [null, undefined], fn: [() => {}, function () {}], obj: [{}, { a: 1 }], arr: [[1], []], buf: [Buffer.from('a'), Buffer.from('')], falsy: [0, '', null], truthy: [1, 'a', {}], map: [new Map()], nan: [1, NaN], date: [new Date(0), new Date(1)] };
    for (const [n, a] of Object.entries(A)) { k('arr:' + n, a, `an array of ${n}`); k('arr:' + n + '+mixed', [...a, n === 'str' ? 1 : 'z', n === 'truthy' ? 0 : {}], `an array of ${n} and something else`); k('arr:1' + n, a.slice(0, 1), `an array of one ${n}`); k('arr:mixed+' + n, [n === 'str' ? 1 : 'z', ...a], `an array of something else and ${n}`); }
    // functions
    k('fn:0', function f() {}, 'a function'); k('fn:1', function f(a) {}, 'a function with a parameter'); k('fn:arrow', () => {}, 'an arrow function'); k('fn:arrow1', a => a, 'an arrow function with a parameter');
    k('fn:async', async () => {}, 'an async function'); k('fn:async1', async a => a, 'an async function with a parameter'); k('fn:gen', function* g() {}, 'a generator function'); k('fn:gen1', function* g(a) {}, 'a generator function with a parameter'); k('fn:agen', async function* g() {}, 'an async generator function'); k('fn:agen1', async function* g(a) {}, 'an async generator function with a parameter');
    k('fn:class', Some, 'a class'); k('fn:anonclass', (() => class{})(), 'an anonymous class'); k('fn:classext', class Q extends Some { constructor(a) { super(); } }, 'a derived class'); k('fn:method', { m() {} }.m, 'a method'); k('fn:classname', function classy() {}, 'a function named classy');
    k('fn:bound', function f() {}.bind(null), 'a bound function'); k('fn:native', parseInt, 'parseInt'); k('fn:native0', Math.random, 'Math.random'); k('fn:nativeclass', Map, 'Map'); k('fn:nativesym', Array.prototype[Symbol.iterator], 'a native function'); k('fn:nativesymname', RegExp.prototype[Symbol.replace], 'a native function whose name is a symbol');
    k('fn:oddname', Object.defineProperty(function () {}, 'name', { value: 'a(b' }), 'a function whose name has a bracket'); k('fn:numname', Object.defineProperty(function () {}, 'name', { value: 1 }), 'a function whose name is a number');
    k('fn:rest', (...a) => a, 'a function with only a rest parameter');
    k('fn:size', Object.assign(() => {}, { then() {}, next() {}, size: 1 }), 'a function with then, next and size');
    // collections and built-ins
    k('map0', new Map(), 'an empty map'); k('map1', new Map([[1, 2]]), 'a map with one entry'); k('set0', new Set(), 'an empty set'); k('set1', new Set([1]), 'a set with one entry'); k('weakmap', new WeakMap(), 'a weak map'); k('weakset', new WeakSet(), 'a weak set'); k('weakref', new WeakRef({}), 'a weak reference');
    k('submap', new (class M extends Map {})(), 'an instance of a subclass of Map');
    k('date', new Date(0), 'a date'); k('dateinvalid', new Date(NaN), 'an invalid date'); k('regexp', /a/, 'a regular expression'); k('regexpg', /a/g, 'a global regular expression'); k('promise', Promise.resolve(), 'a promise');
    for (const c of ['Error', 'TypeError', 'RangeError', 'EvalError', 'SyntaxError', 'ReferenceError', 'URIError']) { k('err:' + c, new globalThis[c]('m'), `a ${c}`); k('errsub:' + c, new (class X extends globalThis[c] {})('m'), `an instance of a subclass of ${c}`); }
    k('err:AggregateError', new AggregateError([]), 'an AggregateError'); k('err:nomsg', new Error(''), 'an Error without message');
    k('err:nullproto', Object.setPrototypeOf(new Error('m'), null), 'an error without prototype');
    k('domexception', new DOMException('m', 'AbortError'), 'a DOMException'); k('domexception:data', new DOMException('m', 'DataError'), 'another DOMException');
    k('arraybuffer', new ArrayBuffer(2), 'an ArrayBuffer'); k('sharedarraybuffer', new SharedArrayBuffer(2), 'a SharedArrayBuffer'); k('dataview', new DataView(new ArrayBuffer(2)), 'a DataView');
    for (const c of TYPED) { k('typed:' + c, new globalThis[c](2), `a ${c}`); k('typed0:' + c, new globalThis[c](0), `an empty ${c}`); }
    k('buffer', Buffer.from('ab'), 'a Buffer'); k('buffer0', Buffer.alloc(0), 'an empty Buffer');
    for (const x of [0, 1, -1, 1.5, NaN, Infinity]) k('boxnum:' + x, Object(x), `Object(${x})`);
    for (const x of ['', 'a', ' ', 'ab']) k('boxstr:' + x, Object(x), `Object('${x}')`);
    k('boxtrue', Object(true), 'Object(true)'); k('boxfalse', Object(false), 'Object(false)'); k('boxbig0', Object(0n), 'Object(0n)'); k('boxbig1', Object(1n), 'Object(1n)'); k('boxsym', Object(Symbol('x')), 'Object(Symbol())');
    k('generator', (function* () {})(), 'a generator'); k('asyncgenerator', (async function* () {})(), 'an async generator'); k('arrayiterator', [][Symbol.iterator](), 'an array iterator'); k('mapiterator', new Map()[Symbol.iterator](), 'a map iterator');
    k('url', new URL('http://a/'), 'a URL'); k('urlsearchparams', new URLSearchParams('a=1'), 'a URLSearchParams'); k('blob', new Blob([]), 'a Blob'); k('formdata', new FormData(), 'a FormData'); if (typeof File === 'function') k('file', new File([], 'a'), 'a File');
    k('event', new Event('x'), 'an Event'); k('eventtarget', new EventTarget(), 'an EventTarget'); k('abortsignal', new AbortController().signal, 'an AbortSignal');
    k('readable', new stream.Readable({ read() {} }), 'a readable stream'); k('writable', new stream.Writable({ write() {} }), 'a writable stream'); k('duplex', new stream.Duplex({ read() {}, write() {} }), 'a duplex stream'); k('transform', new stream.Transform({ transform(a, b, c) {} }), 'a transform stream'); k('passthrough', new stream.PassThrough(), 'a pass-through stream');
    k('math', Math, 'Math'); k('json', JSON, 'JSON'); k('reflect', Reflect, 'Reflect'); k('globalThis', globalThis, 'globalThis'); k('Symbol', Symbol, 'Symbol');
    for (const t of TAGS) k('dom:' + t, { [Symbol.toStringTag]: t }, `a host object with tag ${t}`);
    return out;
}
const TYPED = ['Int8Array', 'Uint8Array', 'Uint8ClampedArray', 'Int16Array', 'Uint16Array', 'Int32Array', 'Uint32Array', 'Float32Array', 'Float64Array', 'BigInt64Array', 'BigUint64Array'];
const TAGS = ['HTMLDocument', 'Window', 'NodeList', 'Text', 'FileList', 'FileReader'];
const tag = v => Object.prototype.toString.call(v).slice(8, -1);
const isO = v => typeof v === 'object' && v !== null;
const isF = v => typeof v === 'function';
const box = (v, C) => isO(v) && v instanceof C;
const int = Number.isInteger;
const fin = Number.isFinite;
const frac = v => fin(v) && v % 1 !== 0;
// holes are left unspecified
const filled = f => v => (Array.isArray(v) && v.length > 0 ? (v.some((_, i) => !(i in v)) || !(0 in v) ? undefined : v.every(x => f(x))) : false);
const inst = C => v => isO(v) && v instanceof C;
const nanOk = (v, n) => n || !Number.isNaN(v);
const S = Object.create(null);
S.isArray = Array.isArray;
S.isArrayFilled = v => Array.isArray(v) && v.length > 0;
S.isArrayIndex = v => int(v) && v >= 0 && v <= 4294967295;
S.isArrayLike = (v, sim = 0) => {
    if (!isO(v) || Array.isArray(v) || tag(v) === 'Window' || !S.isArrayIndex(v.length)) return false;
    return sim <= 0 ? true : undefined;
};
S.isArrayLikeFilled = v => S.isArrayLike(v) && v.length > 0;
S.isArraySparse = v => (Array.isArray(v) ? undefined : false);
S.isArrayTwoDimensional = filled(Array.isArray);
S.isBigIntPrimitive = v => typeof v === 'bigint';
S.isBigIntObject = v => box(v, BigInt);
S.isBigInt = v => typeof v === 'bigint' || box(v, BigInt);
S.isBigIntArray = filled(S.isBigInt);
S.isBigIntFilled = v => S.isBigInt(v) && v > 0n;
S.isBooleanPrimitive = v => typeof v === 'boolean';
S.isBooleanObject = v => box(v, Boolean);
S.isBoolean = v => typeof v === 'boolean' || box(v, Boolean);
S.isBooleanArray = filled(S.isBoolean);
S.isTrue = v => v === true; S.isFalse = v => v === false;
S.isArrayBuffer = inst(ArrayBuffer); S.isSharedArrayBuffer = inst(SharedArrayBuffer); S.isDataView = inst(DataView);
for (const c of TYPED) S['is' + c] = v => v instanceof globalThis[c] && !Buffer.isBuffer(v);
S.isTypedArray = v => ArrayBuffer.isView(v) && !(v instanceof DataView) && !Buffer.isBuffer(v);
S.isArrayBufferView = v => ArrayBuffer.isView(v) && !Buffer.isBuffer(v);
S.isBuffer = v => Buffer.isBuffer(v);
S.isBufferArray = filled(S.isBuffer);
S.isBufferFilled = v => Buffer.isBuffer(v) && v.length > 0;
S.isEqual = (v, ...a) => a.length > 0 && a.every(x => v === x || (Number.isNaN(v) && Number.isNaN(x)));
S.isNotEqual = (v, ...a) => a.length > 0 && a.every(x => !(v === x || (Number.isNaN(v) && Number.isNaN(x))));
S.isMap = inst(Map); S.isSet = inst(Set); S.isWeakMap = inst(WeakMap); S.isWeakSet = inst(WeakSet); S.isWeakRef = inst(WeakRef);
S.isMapFilled = v => S.isMap(v) && v.size > 0; S.isSetFilled = v => S.isSet(v) && v.size > 0;
S.isDate = inst(Date);
S.isDateValid = v => { if (v === undefined) return false; try { return !Number.isNaN(new Date(v).getTime()); } catch { return false; } };
S.isLeapYear = v => Number.isSafeInteger(v) && v > 0 && ((v % 4 === 0 && v % 100 !== 0) || v % 400 === 0);
S.isDocument = v => tag(v) === 'HTMLDocument'; S.isWindow = v => tag(v) === 'Window'; S.isNodeList = v => tag(v) === 'NodeList'; S.isTextNode = v => tag(v) === 'Text'; S.isFileList = v => tag(v) === 'FileList'; S.isFileReader = v => tag(v) === 'FileReader';
S.isHTMLElement = () => false;
S.isElement = () => false;
S.isReactElement = () => false;
S.isAnyError = v => isO(v) && (v instanceof Error || tag(v) === 'Error');
const errName = (v, n) => S.isAnyError(v) && v instanceof globalThis[n];
for (const n of ['TypeError', 'RangeError', 'EvalError', 'SyntaxError', 'ReferenceError', 'URIError', 'AggregateError']) S['is' + n] = v => errName(v, n);
S.isError = v => isO(v) && tag(v) === 'Error' && v instanceof Error && v.name === 'Error';
S.isDOMException = (v, n) => isO(v) && v instanceof DOMException && (!n || v.name === n);
S.isSameError = (v, n, m) => (S.isAnyError(v) && v instanceof Error ? v.name === n && v.message === m : S.isAnyError(v) ? undefined : false);
S.isErrorLike = v => isO(v) && S.isStringFilled(v.name) && S.isString(v.message) && S.isStringFilled(v.stack);
S.isEvent = inst(Event); S.isBlob = v => isO(v) && v instanceof Blob && tag(v) === 'Blob'; S.isFile = v => tag(v) === 'File'; S.isFormData = inst(FormData);
S.isArguments = v => tag(v) === 'Arguments';
S.isFunction = isF;
S.isFunctionFilled = v => isF(v) && v.length > 0;
S.isAsyncFunction = v => isF(v) && /Async/.test(tag(v));
S.isAsyncFunctionFilled = v => S.isAsyncFunction(v) && v.length > 0;
S.isSyncFunction = v => isF(v) && !/Async/.test(tag(v));
S.isSyncFunctionFilled = v => S.isSyncFunction(v) && v.length > 0;
const src = v => Function.prototype.toString.call(v);
S.isClass = v => isF(v) && /^class\b/.test(src(v)) && Object.getOwnPropertyDescriptor(v, 'prototype') !== undefined;
S.isFunctionBound = v => isF(v) && typeof v.name === 'string' && v.name.startsWith('bound ') && /\[native code\]/.test(src(v));
S.isNativeFunction = v => isF(v) && !S.isFunctionBound(v) && /\{ \[native code\] \}$/.test(src(v)) ;
S.isFunctionArray = filled(isF);
S.isSyncGenerator = v => tag(v) === 'Generator'; S.isAsyncGenerator = v => tag(v) === 'AsyncGenerator'; S.isGenerator = v => /^(Async)?Generator$/.test(tag(v));
S.isSyncGeneratorFunction = v => isF(v) && tag(v) === 'GeneratorFunction'; S.isAsyncGeneratorFunction = v => isF(v) && tag(v) === 'AsyncGeneratorFunction'; S.isGeneratorFunction = v => isF(v) && /^(Async)?GeneratorFunction$/.test(tag(v));
const has = (v, k) => v !== null && v !== undefined && typeof v[k] === 'function';
S.isSyncIterable = v => has(v, Symbol.iterator); S.isAsyncIterable = v => has(v, Symbol.asyncIterator); S.isIterable = v => has(v, Symbol.iterator) || has(v, Symbol.asyncIterator); S.isIterator = v => has(v, 'next');
S.isNull = v => v === null; S.isUndefined = v => v === undefined; S.isNullOrUndefined = v => v === null || v === undefined;
S.isNullArray = filled(S.isNull); S.isUndefinedArray = filled(S.isUndefined); S.isNullOrUndefinedArray = filled(S.isNullOrUndefined);
S.isFloat = frac; S.isUFloat = v => frac(v) && v > 0;
for (const [n, m, s] of [[16, 65504, 2047], [32, 3.4028234663852886e38, 16777215], [64, Number.MAX_VALUE, Number.MAX_SAFE_INTEGER]]) { S['isFloat' + n] = v => frac(v) && Math.abs(v) <= m; S['isFloat' + n + 'SafeInt'] = v => int(v) && Math.abs(v) <= s; }
S.isInt = int;
for (const n of [8, 16, 32]) { S['isInt' + n] = v => int(v) && v >= -(2 ** (n - 1)) && v <= 2 ** (n - 1) - 1; S['isUint' + n] = v => int(v) && v >= 0 && v <= 2 ** n - 1; }
S.isIntEven = v => int(v) && v % 2 === 0; S.isIntOdd = v => int(v) && v % 2 !== 0;
S.isIntSafe = Number.isSafeInteger; S.isUint = v => int(v) && v >= 0; S.isUintFilled = v => int(v) && v > 0; S.isUintSafe = v => Number.isSafeInteger(v) && v >= 0; S.isUintSafeFilled = v => Number.isSafeInteger(v) && v > 0;
S.isFinite = (v, im = false) => { if (!im) return fin(v); try { return globalThis.isFinite(v); } catch { return false; } };
S.isNaN = (v, im = false) => { if (!im) return Number.isNaN(v); try { return globalThis.isNaN(v); } catch { return false; } };
S.isInfinity = v => v === Infinity || v === -Infinity; S.isInfinityPositive = v => v === Infinity; S.isInfinityNegative = v => v === -Infinity;
S.isNumberPrimitive = (v, n = false) => typeof v === 'number' && nanOk(v, n);
S.isNumberObject = (v, n = false) => box(v, Number) && nanOk(v.valueOf(), n);
S.isNumber = (v, n = false) => S.isNumberPrimitive(v, n) || S.isNumberObject(v, n);
S.isNumberArray = (v, n = false) => filled(x => S.isNumber(x, n))(v);
S.isNumberFilled = v => fin(v) && v !== 0; S.isNumberNegative = v => fin(v) && v < 0; S.isNumberPositive = v => fin(v) && v > 0; S.isNumberSafe = fin;
S.isNumberValid = (v, o = {}) => {
    const { implicit = true, allowNaN = false, allowInfinity = false, allowEmptyString = false } = o;
    if (implicit ? v === undefined : !(S.isNumber(v, allowNaN) || (S.isString(v) && (allowEmptyString || v.trim() !== '')))) return false;
    let n;
    try { n = Number(v); } catch { return false; }
    return (allowNaN || !Number.isNaN(n)) && (allowInfinity || Math.abs(n) !== Infinity);
};
S.isPrimeNumber = v => { if (!int(v) || v <= 1) return false; return undefined; };
S.isZero = v => v === 0;
S.isObject = v => isO(v) && tag(v) === 'Object';
S.isObjectArray = filled(S.isObject);
const KF = [Object.keys, Object.getOwnPropertyNames, Object.getOwnPropertySymbols, Reflect.ownKeys];
S.isObjectFilled = (v, m = 0) => S.isObject(v) && KF[m](v).length > 0;
S.isPlainObject = v => (v === Object.prototype ? undefined : S.isObject(v) && Object.getPrototypeOf(v) === Object.prototype && !Object.hasOwn(v, 'constructor'));
S.isPlainObjectFilled = (v, m = 0) => (v === Object.prototype ? undefined : S.isPlainObject(v) && KF[m](v).length > 0);
S.isPureObject = v => v === Object.prototype ? undefined : isO(v) && Object.getPrototypeOf(v) === null && S.isObject(v);
S.isTypeofObject = isO;
S.isTypeofObjectArray = filled(isO);
S.isFalsy = v => !v; S.isTruthy = v => !!v; S.isFalsyArray = filled(S.isFalsy); S.isTruthyArray = filled(S.isTruthy);
S.isPrimitive = v => !isO(v) && !isF(v);
S.isPromise = inst(Promise);
S.isPromiseLike = v => (isO(v) || isF(v)) && isF(v.then);
S.isLengthy = v => v !== null && v !== undefined && S.isUintSafe(v.length); S.isLengthyFilled = v => S.isLengthy(v) && v.length > 0;
S.isSizey = v => v !== null && v !== undefined && S.isUintSafe(v.size); S.isSizeyFilled = v => S.isSizey(v) && v.size > 0;
S.isPropertyKey = v => S.isString(v) || S.isNumber(v, true) || S.isSymbol(v);
S.hasOwnProperty = (v, k) => v !== null && v !== undefined && Object.prototype.hasOwnProperty.call(v, k);
S.isProperty = (v, k) => (isO(v) || isF(v)) && k in v;
S.isPropertyDescriptor = v => (S.isObject(v) ? undefined : false);
S.isRegExp = inst(RegExp);
S.isStream = inst(stream.Stream);
S.isReadable = v => v instanceof stream.Readable; S.isWritable = v => isO(v) && (v instanceof stream.Writable || v instanceof stream.Duplex); S.isDuplex = inst(stream.Duplex); S.isTransform = inst(stream.Transform);
S.isStringPrimitive = v => typeof v === 'string'; S.isStringObject = v => box(v, String); S.isString = v => typeof v === 'string' || box(v, String);
S.isStringArray = filled(S.isString); S.isStringFilled = v => S.isString(v) && v.length > 0; S.isChar = v => S.isString(v) && v.length === 1; S.isStringTrim = (v, n = 0) => S.isString(v) && v.trim().length > n;
S.isSymbolPrimitive = v => typeof v === 'symbol'; S.isSymbolObject = v => box(v, Symbol); S.isSymbol = v => typeof v === 'symbol' || box(v, Symbol); S.isSymbolArray = filled(S.isSymbol);
S.isTimeoutMs = v => int(v) && v >= 0 && v <= 2147483647;
S.isURL = inst(URL); S.isURLSearchParams = inst(URLSearchParams);
S.isURLString = v => { if (!S.isString(v)) return false; try { new URL(v); return true; } catch { return false; } };
S.isVarName = v => (S.isString(v) ? undefined : false);
const VARIANTS = {
    __proto__: null,
    isNumber: [[], [true]], isNumberPrimitive: [[], [true]], isNumberObject: [[], [true]], isNumberArray: [[], [true]], isFinite: [[], [true]], isNaN: [[], [true]],
    isObjectFilled: [[], [0], [1], [2], [3]], isPlainObjectFilled: [[], [1], [2], [3]], isStringTrim: [[], [1]], isDOMException: [[], ['AbortError']], isSameError: [['Error', 'm'], ['TypeError', 'm'], ['Error', '']],
    isNumberValid: [[], [{ implicit: false }], [{ allowNaN: true }], [{ allowInfinity: true }], [{ implicit: false, allowEmptyString: true }], [{ implicit: false, allowNaN: true, allowInfinity: true }]],
    isEqual: [[], [1], [1, 1], [NaN], ['a'], ['a', 'b'], [null], [undefined]], isNotEqual: [[], [1], [1, 2], [NaN], ['a'], ['a', 'b'], [null], [undefined]],
    hasOwnProperty: [['a'], ['length'], ['toString'], ['prototype'], [0]], isProperty: [['a'], ['length'], ['toString'], [0]]
};
module.exports = { kinds, SPEC: S, VARIANTS };
