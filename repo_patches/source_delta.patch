From 79a1972f4733803e676a180b2ddaa0386e194f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:15 +0000
Subject: [PATCH 01/48] fix: deleteAttrs no longer empties the caller's key
 list

---
 packages/object/src/deleteAttrs.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/object/src/deleteAttrs.ts b/packages/object/src/deleteAttrs.ts
index c0fd294..962cef1 100644
--- a/packages/object/src/deleteAttrs.ts
+++ b/packages/object/src/deleteAttrs.ts
@@ -22,13 +22,15 @@ export default function deleteAttrs<T extends ObjectType>(
     obj: T,
     deleteKeys: Array<keyof T>
 ): T {
+    // 不要修改调用者传入的数组
+    const keys = [...deleteKeys];
     let key: PropertyKey | undefined;
 
-    while (!isUndefined((key = deleteKeys.pop()))) {
+    while (!isUndefined((key = keys.pop()))) {
         if (!Reflect.deleteProperty(obj, key)) {
-            deleteKeys.push(key as keyof T);
+            keys.push(key as keyof T);
 
-            return derive(obj, deleteKeys);
+            return derive(obj, keys);
         }
     }
 
-- 
2.43.0


From 361541580f7c71b0018fee87719c4ad019682f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:15 +0000
Subject: [PATCH 02/48] fix: fromCascadeKeys keeps the caller's key list intact
 and no longer drops the second of two keys

---
 packages/object/src/cascade/fromCascadeKeys.ts | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/packages/object/src/cascade/fromCascadeKeys.ts b/packages/object/src/cascade/fromCascadeKeys.ts
index ae34cba..1fd72da 100644
--- a/packages/object/src/cascade/fromCascadeKeys.ts
+++ b/packages/object/src/cascade/fromCascadeKeys.ts
@@ -55,19 +55,17 @@ export default function fromCascadeKeys(
         return '';
     }
 
-    // 获取到第一项
-    let first = addPack(keys.shift()!, oc, false);
+    // 获取到第一项和剩余项，不要修改调用者传入的数组
+    const [firstKey, ...restKeys] = keys;
+    let first = addPack(firstKey, oc, false);
 
     // 如果不需要给第一项的开头加 `.`
     if (!startDot && first.startsWith('.')) {
         first = first.slice(1);
     }
 
-    // 如果属性数组中只有一项，则直接返回
-    if (keys.length === 1) {
-        return first;
-    }
-
     // 遍历剩余项
-    return keys.reduce((m, k) => (m.push(addPack(k, oc)), m), [first]).join('');
+    return restKeys
+        .reduce((m, k) => (m.push(addPack(k, oc)), m), [first])
+        .join('');
 }
-- 
2.43.0


From 6f274c0f26412497378561560d08e9aafac143e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:15 +0000
Subject: [PATCH 03/48] fix: request no longer rewrites the caller's options
 when it follows a redirect

---
 packages/request/src/request/request.ts | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 8a7c0ab..b672950 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -211,14 +211,17 @@ export default async function request(
                 // 销毁当前请求
                 req.destroy();
 
-                // 消耗一次重定向请求
-                options.maxRedirects = maxRedirects - 1;
+                // 消耗一次重定向请求。不要修改调用者传入的选项
+                const redirectOptions: any = {
+                    ...options,
+                    maxRedirects: maxRedirects - 1
+                };
 
                 // 对请求头的处理
                 const redirectHost = new URL(locationUrl).hostname;
 
                 // 当进行重定向时，删除 URL 中已包含的重复部分
-                deleteOptionsAttr(options, [
+                deleteOptionsAttr(redirectOptions, [
                     'protocol',
                     'username',
                     'password',
@@ -229,14 +232,16 @@ export default async function request(
                     'https'
                 ]);
 
-                if (!isNullOrUndefined(options.headers)) {
-                    options.headers = toLowerCaseKey(options.headers);
+                if (!isNullOrUndefined(redirectOptions.headers)) {
+                    redirectOptions.headers = toLowerCaseKey(
+                        redirectOptions.headers
+                    );
                 }
 
                 // 如果当前请求的主机名与要重定向的主机名不同，则删除隐私数据
                 if (!isNull(redirectHost) && redirectHost !== config.hostname) {
-                    deleteOptionsAttr(options, ['auth']);
-                    deleteOptionsAttr(options.headers, [
+                    deleteOptionsAttr(redirectOptions, ['auth']);
+                    deleteOptionsAttr(redirectOptions.headers, [
                         'cookie',
                         'authorization'
                     ]);
@@ -248,14 +253,14 @@ export default async function request(
                     config.method === 'POST' &&
                     /^30[12]$/.test(`${res.statusCode}`)
                 ) {
-                    options.method = 'GET';
-                    deleteOptionsAttr(options.headers, [
+                    redirectOptions.method = 'GET';
+                    deleteOptionsAttr(redirectOptions.headers, [
                         'content-length',
                         'content-type'
                     ]);
                 }
 
-                return resolve(request(locationUrl, options));
+                return resolve(request(locationUrl, redirectOptions));
             }
 
             const buffers: Buffer[] = [];
-- 
2.43.0


From a7a26ffe8419c07b22d4ce2ada5e266646e70bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:34 +0000
Subject: [PATCH 04/48] fix: toLowerCaseKey must not depend on the host's
 locale

---
 packages/object/src/keys/toLowerCaseKey.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/object/src/keys/toLowerCaseKey.ts b/packages/object/src/keys/toLowerCaseKey.ts
index d7b399e..e229e1b 100644
--- a/packages/object/src/keys/toLowerCaseKey.ts
+++ b/packages/object/src/keys/toLowerCaseKey.ts
@@ -36,7 +36,7 @@ export default function toLowerCaseKey(
             return memo;
         }
 
-        key = key.toLocaleLowerCase();
+        key = key.toLowerCase();
 
         if (isCover) {
             memo[key] = value;
-- 
2.43.0


From cf822278ccba61fbc62574140b77c0f7c1576100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:31 +0000
Subject: [PATCH 05/48] fix: publicIP must not execute the text it downloads

---
 packages/request/src/ip/publicIP.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/request/src/ip/publicIP.ts b/packages/request/src/ip/publicIP.ts
index caa2944..b3a2082 100644
--- a/packages/request/src/ip/publicIP.ts
+++ b/packages/request/src/ip/publicIP.ts
@@ -10,7 +10,6 @@ import type { publicIpResult } from './types';
  * 获取本地公共的 `IP` 地址和城市信息
  *
  * @returns 返回获取到的公共 `IP` 地址和城市信息对象
- * @note 该方法使用了 `new Function`，如果用户禁用了 [eval](https://developer.mozilla.org/en-US/docs/Web/JavaScript/Reference/Global_Objects/eval)，则导致代码异常
  * @throws
  * - 如果请求失败，则会抛出异常
  * - 如果响应的数据格式不正确，则会抛出异常
@@ -47,8 +46,11 @@ export default async function publicIP(): Promise<publicIpResult> {
         });
     }
 
-    const citySN = new Function(`${data}; return returnCitySN ?? {};`);
-    const { cip: ip, cid: id, cname: name } = citySN();
+    // 只解析对象部分，不执行从远程获取到的代码
+    const citySN = JSON.parse(
+        data.slice(data.indexOf('{'), data.lastIndexOf('}') + 1)
+    );
+    const { cip: ip, cid: id, cname: name } = citySN;
 
     return { ip, city: { id, name } };
 }
-- 
2.43.0


From 8f19d13762bb533646d395a61e9c08561e0bb4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:31 +0000
Subject: [PATCH 06/48] fix: assertEqual and assertNotEqual compare with each
 given value

---
 packages/asserts/src/cmp/assertEqual.ts    | 2 +-
 packages/asserts/src/cmp/assertNotEqual.ts | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/asserts/src/cmp/assertEqual.ts b/packages/asserts/src/cmp/assertEqual.ts
index 4cc1a6a..89dd20c 100644
--- a/packages/asserts/src/cmp/assertEqual.ts
+++ b/packages/asserts/src/cmp/assertEqual.ts
@@ -13,7 +13,7 @@ export default function assertEqual<T extends unknown[]>(
     value: unknown,
     ...args: T
 ) {
-    if (!isEqual(value, args)) {
+    if (!isEqual(value, ...args)) {
         throw new TypeError(
             `[assertEqual] ${value} 与 ${args} 中的某些值不相等`
         );
diff --git a/packages/asserts/src/cmp/assertNotEqual.ts b/packages/asserts/src/cmp/assertNotEqual.ts
index a01257a..a479b8a 100644
--- a/packages/asserts/src/cmp/assertNotEqual.ts
+++ b/packages/asserts/src/cmp/assertNotEqual.ts
@@ -13,7 +13,7 @@ export default function assertNotEqual<T extends unknown[]>(
     value: unknown,
     ...args: T
 ) {
-    if (!isNotEqual(value, args)) {
+    if (!isNotEqual(value, ...args)) {
         throw new TypeError(`[assertEqual] ${value} 与 ${args} 中的某些值相等`);
     }
 }
-- 
2.43.0


From 84a123c839f85a27bb226dbb1706fb08108d1837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:02 +0000
Subject: [PATCH 07/48] fix: error predicates threw for a DOMException and for
 errors without a prototype

---
 packages/types/src/error/errorName.ts        | 13 +++++++++++++
 packages/types/src/error/isAggregateError.ts |  6 ++----
 packages/types/src/error/isError.ts          |  4 ++--
 packages/types/src/error/isEvalError.ts      |  5 ++---
 packages/types/src/error/isRangeError.ts     |  5 ++---
 packages/types/src/error/isReferenceError.ts |  6 ++----
 packages/types/src/error/isSyntaxError.ts    |  5 ++---
 packages/types/src/error/isTypeError.ts      |  5 ++---
 packages/types/src/error/isURIError.ts       |  5 ++---
 9 files changed, 29 insertions(+), 25 deletions(-)
 create mode 100644 packages/types/src/error/errorName.ts

diff --git a/packages/types/src/error/errorName.ts b/packages/types/src/error/errorName.ts
new file mode 100644
index 0000000..8e75d90
--- /dev/null
+++ b/packages/types/src/error/errorName.ts
@@ -0,0 +1,13 @@
+/**
+ * 获取错误对象的原型上的名称
+ *
+ * @param value 错误对象
+ * @returns 返回原型上的名称，没有原型或原型上的名称无法读取时返回 `undefined`
+ */
+export default function errorName(value: Error): string | undefined {
+    try {
+        return Object.getPrototypeOf(value).name;
+    } catch {}
+
+    return undefined;
+}
diff --git a/packages/types/src/error/isAggregateError.ts b/packages/types/src/error/isAggregateError.ts
index bd94887..40f8a3a 100644
--- a/packages/types/src/error/isAggregateError.ts
+++ b/packages/types/src/error/isAggregateError.ts
@@ -1,3 +1,4 @@
+import errorName from './errorName';
 import isAnyError from './isAnyError';
 
 /**
@@ -11,8 +12,5 @@ import isAnyError from './isAnyError';
  * - `AggregateError` 是 `Error` 的子类
  */
 export default function isAggregateError(value: unknown): value is EvalError {
-    return (
-        isAnyError(value) &&
-        Object.getPrototypeOf(value).name === 'AggregateError'
-    );
+    return isAnyError(value) && errorName(value) === 'AggregateError';
 }
diff --git a/packages/types/src/error/isError.ts b/packages/types/src/error/isError.ts
index 28a13b4..91f18f3 100644
--- a/packages/types/src/error/isError.ts
+++ b/packages/types/src/error/isError.ts
@@ -1,4 +1,5 @@
 import getTagEqual from '../type/getTagEqual';
+import errorName from './errorName';
 
 /**
  * 是不是一个 `Error` 对象
@@ -9,7 +10,6 @@ import getTagEqual from '../type/getTagEqual';
  */
 export default function isError(value: unknown): value is Error {
     return (
-        getTagEqual(value, 'Error') &&
-        Object.getPrototypeOf(value).name === 'Error'
+        getTagEqual<Error>(value, 'Error') && errorName(value) === 'Error'
     );
 }
diff --git a/packages/types/src/error/isEvalError.ts b/packages/types/src/error/isEvalError.ts
index cf74ba7..78eb015 100644
--- a/packages/types/src/error/isEvalError.ts
+++ b/packages/types/src/error/isEvalError.ts
@@ -1,3 +1,4 @@
+import errorName from './errorName';
 import isAnyError from './isAnyError';
 
 /**
@@ -7,7 +8,5 @@ import isAnyError from './isAnyError';
  * @returns 是则返回 `true`，否则为 `false`
  */
 export default function isEvalError(value: unknown): value is EvalError {
-    return (
-        isAnyError(value) && Object.getPrototypeOf(value).name === 'EvalError'
-    );
+    return isAnyError(value) && errorName(value) === 'EvalError';
 }
diff --git a/packages/types/src/error/isRangeError.ts b/packages/types/src/error/isRangeError.ts
index 529b21a..aa4e24b 100644
--- a/packages/types/src/error/isRangeError.ts
+++ b/packages/types/src/error/isRangeError.ts
@@ -1,3 +1,4 @@
+import errorName from './errorName';
 import isAnyError from './isAnyError';
 
 /**
@@ -7,7 +8,5 @@ import isAnyError from './isAnyError';
  * @returns 是则返回 `true`，否则为 `false`
  */
 export default function isRangeError(value: unknown): value is RangeError {
-    return (
-        isAnyError(value) && Object.getPrototypeOf(value).name === 'RangeError'
-    );
+    return isAnyError(value) && errorName(value) === 'RangeError';
 }
diff --git a/packages/types/src/error/isReferenceError.ts b/packages/types/src/error/isReferenceError.ts
index d5bcb01..9bec776 100644
--- a/packages/types/src/error/isReferenceError.ts
+++ b/packages/types/src/error/isReferenceError.ts
@@ -1,3 +1,4 @@
+import errorName from './errorName';
 import isAnyError from './isAnyError';
 
 /**
@@ -9,8 +10,5 @@ import isAnyError from './isAnyError';
 export default function isReferenceError(
     value: unknown
 ): value is ReferenceError {
-    return (
-        isAnyError(value) &&
-        Object.getPrototypeOf(value).name === 'ReferenceError'
-    );
+    return isAnyError(value) && errorName(value) === 'ReferenceError';
 }
diff --git a/packages/types/src/error/isSyntaxError.ts b/packages/types/src/error/isSyntaxError.ts
index e8be054..c4a927e 100644
--- a/packages/types/src/error/isSyntaxError.ts
+++ b/packages/types/src/error/isSyntaxError.ts
@@ -1,3 +1,4 @@
+import errorName from './errorName';
 import isAnyError from './isAnyError';
 
 /**
@@ -7,7 +8,5 @@ import isAnyError from './isAnyError';
  * @returns 是则返回 `true`，否则为 `false`
  */
 export default function isSyntaxError(value: unknown): value is SyntaxError {
-    return (
-        isAnyError(value) && Object.getPrototypeOf(value).name === 'SyntaxError'
-    );
+    return isAnyError(value) && errorName(value) === 'SyntaxError';
 }
diff --git a/packages/types/src/error/isTypeError.ts b/packages/types/src/error/isTypeError.ts
index f1e19be..3cf59ad 100644
--- a/packages/types/src/error/isTypeError.ts
+++ b/packages/types/src/error/isTypeError.ts
@@ -1,3 +1,4 @@
+import errorName from './errorName';
 import isAnyError from './isAnyError';
 
 /**
@@ -7,7 +8,5 @@ import isAnyError from './isAnyError';
  * @returns 是则返回 `true`，否则为 `false`
  */
 export default function isTypeError(value: unknown): value is TypeError {
-    return (
-        isAnyError(value) && Object.getPrototypeOf(value).name === 'TypeError'
-    );
+    return isAnyError(value) && errorName(value) === 'TypeError';
 }
diff --git a/packages/types/src/error/isURIError.ts b/packages/types/src/error/isURIError.ts
index cbf9b00..036395a 100644
--- a/packages/types/src/error/isURIError.ts
+++ b/packages/types/src/error/isURIError.ts
@@ -1,3 +1,4 @@
+import errorName from './errorName';
 import isAnyError from './isAnyError';
 
 /**
@@ -11,7 +12,5 @@ import isAnyError from './isAnyError';
  * - `URIError` 是可序列化对象，所以可以使用 `structuredClone()` 克隆它，或者在 `Worker` 间使用 `postMessage()` 拷贝这个对象
  */
 export default function isURIError(value: unknown): value is EvalError {
-    return (
-        isAnyError(value) && Object.getPrototypeOf(value).name === 'URIError'
-    );
+    return isAnyError(value) && errorName(value) === 'URIError';
 }
-- 
2.43.0


From c428c16464eb3bd726cbbdccd43df54ffe1cba94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:02 +0000
Subject: [PATCH 08/48] fix: isDateValid and isNumberValid threw for values
 that cannot be converted

---
 packages/types/src/date/isDateValid.ts     |  6 +++++-
 packages/types/src/number/isNumberValid.ts | 21 +++++++++++++--------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/packages/types/src/date/isDateValid.ts b/packages/types/src/date/isDateValid.ts
index 6eef625..9da0161 100644
--- a/packages/types/src/date/isDateValid.ts
+++ b/packages/types/src/date/isDateValid.ts
@@ -17,5 +17,9 @@ import isUndefined from '../nullable/isUndefined';
 export default function isDateValid<T = number | string | unknown[] | Date>(
     value: unknown
 ): value is T {
-    return !isUndefined(value) && !isNaN(new Date(value as any).valueOf());
+    try {
+        return !isUndefined(value) && !isNaN(new Date(value as any).valueOf());
+    } catch {}
+
+    return false;
 }
diff --git a/packages/types/src/number/isNumberValid.ts b/packages/types/src/number/isNumberValid.ts
index 3d404e3..0632d84 100644
--- a/packages/types/src/number/isNumberValid.ts
+++ b/packages/types/src/number/isNumberValid.ts
@@ -88,12 +88,17 @@ export default function isNumberValid(
         allowEmptyString = false
     } = options;
 
-    return (
-        (implicit
-            ? !isUndefined(value)
-            : isNumber(value, allowNaN) ||
-              (isString(value) && (allowEmptyString || value.trim() !== ''))) &&
-        (allowNaN || !isNaN(Number(value).valueOf())) &&
-        (allowInfinity || !isInfinity(Number(value).valueOf()))
-    );
+    try {
+        return (
+            (implicit
+                ? !isUndefined(value)
+                : isNumber(value, allowNaN) ||
+                  (isString(value) &&
+                      (allowEmptyString || value.trim() !== ''))) &&
+            (allowNaN || !isNaN(Number(value).valueOf())) &&
+            (allowInfinity || !isInfinity(Number(value).valueOf()))
+        );
+    } catch {}
+
+    return false;
 }
-- 
2.43.0


From 8466cc2d4d54cba160681f2b8fb49e6eeb87ac37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:06 +0000
Subject: [PATCH 09/48] fix: isNativeFunction and isFunctionBound threw for
 unusual function names, isClass missed anonymous classes

---
 packages/types/src/function/constants.ts        | 3 +++
 packages/types/src/function/isClass.ts          | 4 ++--
 packages/types/src/function/isFunctionBound.ts  | 2 ++
 packages/types/src/function/isNativeFunction.ts | 5 ++---
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/packages/types/src/function/constants.ts b/packages/types/src/function/constants.ts
index 955d1ec..325f9e2 100644
--- a/packages/types/src/function/constants.ts
+++ b/packages/types/src/function/constants.ts
@@ -8,3 +8,6 @@ export const functionToString = Function.prototype.toString;
 export const isNativeFunctionToString =
     functionToString.call(functionToString) ===
     'function toString() { [native code] }';
+
+/** 匹配类的源代码（`class A {}`、`class{}`），不匹配名称以 `class` 开头的方法 */
+export const classPattern = /^class(?![\w$]|\s*\()/;
diff --git a/packages/types/src/function/isClass.ts b/packages/types/src/function/isClass.ts
index 46a0a81..d3d556d 100644
--- a/packages/types/src/function/isClass.ts
+++ b/packages/types/src/function/isClass.ts
@@ -1,4 +1,4 @@
-import { functionToString } from './constants';
+import { classPattern, functionToString } from './constants';
 import isFunction from './isFunction';
 import type { Class } from './types';
 
@@ -16,6 +16,6 @@ export default function isClass<R = unknown, A extends unknown[] = unknown[]>(
     value: unknown
 ): value is Class<R, A> {
     return (
-        isFunction(value) && functionToString.call(value).startsWith('class ')
+        isFunction(value) && classPattern.test(functionToString.call(value))
     );
 }
diff --git a/packages/types/src/function/isFunctionBound.ts b/packages/types/src/function/isFunctionBound.ts
index 65c40b5..760c931 100644
--- a/packages/types/src/function/isFunctionBound.ts
+++ b/packages/types/src/function/isFunctionBound.ts
@@ -1,5 +1,6 @@
 import hasOwnProperty from '../property/hasOwnProperty';
 
+import typeofEqual from '../type/typeofEqual';
 import isFunction from './isFunction';
 import type { Function } from './types';
 
@@ -19,6 +20,7 @@ export default function isFunctionBound<
 >(value: unknown): value is Function<R, A> {
     return (
         isFunction(value) &&
+        typeofEqual(value.name, 'string') &&
         value.name.startsWith('bound ') &&
         !hasOwnProperty(value, 'prototype') &&
         value.toString() === 'function () { [native code] }'
diff --git a/packages/types/src/function/isNativeFunction.ts b/packages/types/src/function/isNativeFunction.ts
index cf50889..af88581 100644
--- a/packages/types/src/function/isNativeFunction.ts
+++ b/packages/types/src/function/isNativeFunction.ts
@@ -19,8 +19,7 @@ export default function isNativeFunction<
         // 确保该函数没有被人为修改
         isNativeFunctionToString &&
         // 结果只能是特定的字符串
-        new RegExp(
-            `^function ${(value as any).name}\\(\\) \\{ \\[native code\\] \\}$`
-        ).test(functionToString.call(value))
+        functionToString.call(value) ===
+            'function ' + String((value as any).name) + '() { [native code] }'
     );
 }
-- 
2.43.0


From 9fd2a836ba586d20a19d24e5805f687fcef0f33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:15 +0000
Subject: [PATCH 10/48] fix: shuffle, splitByStep and splitChunk always return
 new arrays

---
 packages/array/src/shuffle.ts     | 6 ------
 packages/array/src/splitByStep.ts | 2 +-
 packages/array/src/splitChunk.ts  | 2 +-
 3 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/packages/array/src/shuffle.ts b/packages/array/src/shuffle.ts
index af5b8a2..f192c68 100644
--- a/packages/array/src/shuffle.ts
+++ b/packages/array/src/shuffle.ts
@@ -1,5 +1,3 @@
-import { isZero } from '@curong/types';
-
 /**
  * 将一个数组随机打乱
  *
@@ -27,10 +25,6 @@ import { isZero } from '@curong/types';
  * `Fisher-Yates` 算法满足随机数的要求，它可以保证每个元素在数组中出现的概率是等同的。
  */
 export default function shuffle<T extends unknown[]>(value: T): T {
-    if (isZero(value.length)) {
-        return value;
-    }
-
     const v = value.slice() as T;
     let m = v.length;
     let current;
diff --git a/packages/array/src/splitByStep.ts b/packages/array/src/splitByStep.ts
index 3b0035f..ca811cf 100644
--- a/packages/array/src/splitByStep.ts
+++ b/packages/array/src/splitByStep.ts
@@ -24,7 +24,7 @@ export default function splitByStep<T>(value: T[], step: number): T[][] {
     }
 
     if (step >= value.length) {
-        return [value];
+        return [value.slice()];
     }
 
     // 可以简写成下面这样，但是运行速度有点慢：
diff --git a/packages/array/src/splitChunk.ts b/packages/array/src/splitChunk.ts
index f35399b..cf12ce7 100644
--- a/packages/array/src/splitChunk.ts
+++ b/packages/array/src/splitChunk.ts
@@ -37,7 +37,7 @@ export default function splitChunk<T>(
     }
 
     if (length >= value.length) {
-        return [value];
+        return [value.slice()];
     }
 
     const len = value.length;
-- 
2.43.0


From dcc1ef69d7f60856212df90a143e0b1a930024db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:12 +0000
Subject: [PATCH 11/48] fix: windowsPathSource no longer backtracks
 exponentially (same language)

---
 packages/path/src/windowsPathSource.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/path/src/windowsPathSource.ts b/packages/path/src/windowsPathSource.ts
index d66ab0a..7880a3e 100644
--- a/packages/path/src/windowsPathSource.ts
+++ b/packages/path/src/windowsPathSource.ts
@@ -5,14 +5,14 @@
  *
  * ```typescript
  * const pathWin =
- '(((\\\\\\\\\\?\\\\)?[a-zA-Z]:\\\\?)|\\.{1,2})(\\\\((?![<>:"/\\\\|?*]|CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(.*[^.\\s])*)+)+';
+ '(((\\\\\\\\\\?\\\\)?[a-zA-Z]:\\\\?)|\\.{1,2})\\\\(?![<>:"/\\\\|?*]|CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(.*[^.\\s])?';
  * // \\?(?!CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9]|\.| )([^<>:"/\\|?*]))
  *
- * const reg1 = /(((\\\\\?\\)?[a-zA-Z]:\\?)|\.{1,2})(\\((?![<>:"/\\|?*]|CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(.*[^.\s])*)+)+/;
+ * const reg1 = /(((\\\\\?\\)?[a-zA-Z]:\\?)|\.{1,2})\\(?![<>:"/\\|?*]|CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(.*[^.\s])?/;
  * ```
  * @link [docs.microsoft](https://docs.microsoft.com/zh-cn/windows/win32/fileio/naming-a-file?redirectedfrom=MSDN)
  */
 const windowsPathSource =
-    '(((\\\\\\\\\\?\\\\)?[a-zA-Z]:\\\\?)|\\.{1,2})(\\\\((?![<>:"/\\\\|?*]|CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(.*[^.\\s])*)+)+';
+    '(((\\\\\\\\\\?\\\\)?[a-zA-Z]:\\\\?)|\\.{1,2})\\\\(?![<>:"/\\\\|?*]|CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(.*[^.\\s])?';
 
 export default windowsPathSource;
-- 
2.43.0


From 4badeb242c2b7df522b4ac6a66bd85229c1f05bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:12 +0000
Subject: [PATCH 12/48] fix: isURI answers false for malformed percent escapes
 instead of throwing

---
 packages/regexp/src/isURI.ts | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/regexp/src/isURI.ts b/packages/regexp/src/isURI.ts
index 1bfd833..e62982b 100644
--- a/packages/regexp/src/isURI.ts
+++ b/packages/regexp/src/isURI.ts
@@ -45,5 +45,14 @@ import { uri as sourceURI } from './source';
 export default function isURI(uri: string): boolean {
     const reg = new RegExp(`^${sourceURI}$`);
 
-    return reg.test(uri) && encodeURI(decodeURI(uri)).length <= 2e3;
+    if (!reg.test(uri)) {
+        return false;
+    }
+
+    try {
+        return encodeURI(decodeURI(uri)).length <= 2e3;
+    } catch {
+        // 不是合法的百分号编码
+        return false;
+    }
 }
-- 
2.43.0


From d36020cdf2db2daa55ceda13946eba0b9a4a961f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:12 +0000
Subject: [PATCH 13/48] fix: isIp matches the whole text and every form of an
 IPv6 address

---
 packages/regexp/src/isIp.ts | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/packages/regexp/src/isIp.ts b/packages/regexp/src/isIp.ts
index bb54e3f..2d4c8f4 100644
--- a/packages/regexp/src/isIp.ts
+++ b/packages/regexp/src/isIp.ts
@@ -1,6 +1,38 @@
+/** `IPv6` 地址中的一组十六进制数 */
+const h = '[0-9a-f]{1,4}';
+
+/** `IPv4` 地址中的一组十进制数 */
+const d = '(?:25[0-5]|2[0-4]\\d|1\\d{2}|\\d{1,2})';
+
+/** 嵌在 `IPv6` 地址末尾的 `IPv4` 地址 */
+const v4 = `${d}(?:\\.${d}){3}`;
+
+/** `IPv6` 地址，参考 [RFC 4291](https://datatracker.ietf.org/doc/html/rfc4291#section-2.2) */
+const v6 = `(?:${[
+    `(?:${h}:){7}${h}`,
+    `(?:${h}:){1,7}:`,
+    `(?:${h}:){1,6}:${h}`,
+    `(?:${h}:){1,5}(?::${h}){1,2}`,
+    `(?:${h}:){1,4}(?::${h}){1,3}`,
+    `(?:${h}:){1,3}(?::${h}){1,4}`,
+    `(?:${h}:){1,2}(?::${h}){1,5}`,
+    `${h}:(?::${h}){1,6}`,
+    `:(?:(?::${h}){1,7}|:)`,
+    `(?:${h}:){6}${v4}`,
+    `(?:${h}:){1,5}:${v4}`,
+    `(?:${h}:){1,4}:${h}:${v4}`,
+    `(?:${h}:){1,3}(?::${h}){1,2}:${v4}`,
+    `(?:${h}:){1,2}(?::${h}){1,3}:${v4}`,
+    `${h}:(?::${h}){1,4}:${v4}`,
+    `:(?::${h}){0,5}:${v4}`
+].join('|')})`;
+
+/** 端口号 */
+const port =
+    '(?:6553[0-5]|655[0-2]\\d|65[0-4]\\d{2}|6[0-4]\\d{3}|[1-5]\\d{4}|[1-9]\\d{1,3}|\\d)';
+
 /** 验证 `IP` 地址的正则表达式 */
-const ipReg =
-    /^(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){0,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:))|\[(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){0,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:))](?::(?:6553[0-5]|655[0-2][0-9]|65[0-4][0-9]{2}|6[0-4][0-9]{3}|[1-5][0-9]{4}|[1-9][0-9]{1,3}|[0-9]))?$/i;
+const ipReg = new RegExp(`^(?:${v6}|\\[${v6}\\](?::${port})?)$`, 'i');
 
 /**
  * 是不是一个 `IP` 地址
-- 
2.43.0


From 7f1505a92937c2dedad80663c5a8eaa9f7aae15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:00 +0000
Subject: [PATCH 14/48] fix: splitSetCookie no longer loops forever on trailing
 whitespace

---
 packages/cookie/src/setCookie/split.ts | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/packages/cookie/src/setCookie/split.ts b/packages/cookie/src/setCookie/split.ts
index e371fcf..b0cfa13 100644
--- a/packages/cookie/src/setCookie/split.ts
+++ b/packages/cookie/src/setCookie/split.ts
@@ -2,14 +2,6 @@ import { isStringFilled } from '@curong/types';
 
 import { COMMA, EQUAL, SEMICOLON, whiteSpaceReg } from './constants';
 
-const skipSpace = (cookie: string, index: number) => {
-    while (index < cookie.length && whiteSpaceReg.test(cookie.charAt(index))) {
-        index += 1;
-    }
-
-    return index < cookie.length;
-};
-
 /**
  * 将以逗号合并在一起的 `set-cookie` 字符串转换为 `set-cookie` 字符串数组
  *
@@ -47,6 +39,18 @@ export default function splitSetCookie(cookie: string): string[] {
     let nextStart: number;
     let isSep: boolean;
 
+    // 跳过空白字符，必须移动外层的 `index`，否则遇到尾随空白时会陷入死循环
+    const skipSpace = () => {
+        while (
+            index < cookie.length &&
+            whiteSpaceReg.test(cookie.charAt(index))
+        ) {
+            index += 1;
+        }
+
+        return index < cookie.length;
+    };
+
     const isSpecial = () => {
         char = cookie.charAt(index);
         return char !== EQUAL && char !== SEMICOLON && char !== COMMA;
@@ -56,13 +60,13 @@ export default function splitSetCookie(cookie: string): string[] {
         start = index;
         isSep = false;
 
-        while (skipSpace(cookie, index)) {
+        while (skipSpace()) {
             char = cookie.charAt(index);
             if (char === COMMA) {
                 last = index;
                 index += 1;
 
-                skipSpace(cookie, index);
+                skipSpace();
                 nextStart = index;
 
                 while (index < cookie.length && isSpecial()) {
-- 
2.43.0


From b2b55b1c88d69312240b81ce235dece60a408c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:00 +0000
Subject: [PATCH 15/48] fix: execAll no longer loops forever on a zero-length
 match

---
 packages/regexp/src/execAll.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/regexp/src/execAll.ts b/packages/regexp/src/execAll.ts
index 50525e8..eca3154 100644
--- a/packages/regexp/src/execAll.ts
+++ b/packages/regexp/src/execAll.ts
@@ -184,6 +184,13 @@ export default function execAll(
     do {
         match = reg.exec(str) as RegExpExecOrigin;
         match && res.push(keyOrCallback(match));
+
+        // 零宽匹配不会移动 `lastIndex`，需要手动前进，否则会陷入死循环
+        if (match && reg.global && match[0] === '') {
+            const unicode = /[uv]/.test(reg.flags);
+            const code = unicode ? str.codePointAt(reg.lastIndex)! : 0;
+            reg.lastIndex += code > 0xffff ? 2 : 1;
+        }
     } while (reg.global && match);
 
     return res;
-- 
2.43.0


From 43e3de884614d9d8b028477438d6a6c0fee7e5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:00 +0000
Subject: [PATCH 16/48] fix: generateString stops for negative and fractional
 sizes

---
 packages/request/src/request/formData.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/request/src/request/formData.ts b/packages/request/src/request/formData.ts
index 3e3f252..51f5062 100644
--- a/packages/request/src/request/formData.ts
+++ b/packages/request/src/request/formData.ts
@@ -16,7 +16,7 @@ const generateString = (size = 16) => {
     const { length } = alphabet;
     let str = '';
 
-    while (size--) {
+    while (size-- > 0) {
         str += alphabet[(Math.random() * length) | 0];
     }
 
-- 
2.43.0


From 0d374165ef796fef9b1dcd45c5f9a717d161a220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 17/48] fix: copyFile deletes the stale target instead of the
 source file

---
 packages/fs/src/copyFile.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/fs/src/copyFile.ts b/packages/fs/src/copyFile.ts
index 0406444..a849e8e 100644
--- a/packages/fs/src/copyFile.ts
+++ b/packages/fs/src/copyFile.ts
@@ -49,7 +49,7 @@ export default async function copyFile(
             await promises.copyFile(filePath, destString);
         } catch (error) {
             if (isTrue(options!.forcibly)) {
-                await deleteOne(filePath);
+                await deleteOne(destString);
 
                 return await copyFile(filePath, srcDir, desDir, {
                     forcibly: false
-- 
2.43.0


From 673864b6a39f7d9a35f54911d82b29e306ea6246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 18/48] fix: copy keeps its options in subdirectories

---
 packages/fs/src/copy.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/fs/src/copy.ts b/packages/fs/src/copy.ts
index 5a004e1..78a5751 100644
--- a/packages/fs/src/copy.ts
+++ b/packages/fs/src/copy.ts
@@ -117,7 +117,7 @@ export default async function copy(
         } else if (await isFile(from)) {
             await _copyFile(from, to, forcibly);
         } else if (await isDir(from)) {
-            await copy(from, to);
+            await copy(from, to, options);
         } else {
             throw format({
                 name,
-- 
2.43.0


From 89f438e96e3220b30382a95c13a9ad5c678edf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 19/48] fix: cascade reads properties instead of running the
 key as code

---
 packages/object/src/cascade/cascade.ts | 33 +++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/packages/object/src/cascade/cascade.ts b/packages/object/src/cascade/cascade.ts
index 684f9f1..fe33b3f 100644
--- a/packages/object/src/cascade/cascade.ts
+++ b/packages/object/src/cascade/cascade.ts
@@ -1,11 +1,16 @@
 import { format } from '@curong/term';
-import { isStringFilled } from '@curong/types';
+import { isNullOrUndefined, isString, isStringFilled } from '@curong/types';
 
 import type { ObjectType } from '../types';
 
-import fromCascadeKeys from './fromCascadeKeys';
 import toCascadeKeys from './toCascadeKeys';
 
+const isDotKey = (key: string | number) =>
+    isString(key) && /^[^0-9][\w$]*$/.test(key);
+
+const unquote = (key: string | number) =>
+    isString(key) && /^('[^']+'|"[^"]+")$/.test(key) ? key.slice(1, -1) : key;
+
 /**
  * 根据级联属性字符串获取源对象中的内容
  *
@@ -42,14 +47,30 @@ export default function cascade<T = unknown>(
     }
 
     const keys = toCascadeKeys(cascadeKey, dependencies);
-    const key = fromCascadeKeys(keys, { optional: true, startDot: true });
-    const f = new Function('o', `return o${key};`);
+
+    // 不要将属性名拼接为代码来执行，否则属性名中的任意代码都会被执行
+    const get = () => {
+        let value: any = obj;
+
+        for (let i = 0; i < keys.length; i++) {
+            const key = keys[i];
+
+            // 与可选链保持一致，只有以 `.` 访问的属性(首项除外)才会提前结束
+            if (i > 0 && isNullOrUndefined(value) && isDotKey(key)) {
+                return undefined;
+            }
+
+            value = value[unquote(key)];
+        }
+
+        return value;
+    };
 
     if (isThrow) {
-        return f(obj);
+        return get();
     }
 
     try {
-        return f(obj);
+        return get();
     } catch {}
 }
-- 
2.43.0


From 3037a0aa2675843f62ff75f16074fa7d50cb9840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 20/48] fix: spawn quotes arguments with brackets, braces and
 exclamation marks

---
 packages/process/src/spawn.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/process/src/spawn.ts b/packages/process/src/spawn.ts
index cd9b070..173d94e 100644
--- a/packages/process/src/spawn.ts
+++ b/packages/process/src/spawn.ts
@@ -58,7 +58,7 @@ const escapeSh = (input: string): string => {
         return `''`;
     }
 
-    if (!/[\r\n\t '"`#$&~*;?|()<>\\]/.test(input)) {
+    if (!/[\r\n\t '"`#$&~*;?|()<>\[\]{}!\\]/.test(input)) {
         return input;
     }
 
-- 
2.43.0


From 5580ca5d987cf35879a28b32f9808a02b6eedcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 21/48] fix: readLnk no longer lets a path run PowerShell code,
 and reports failure as a rejection

---
 packages/fs/src/readLnk.ts | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/packages/fs/src/readLnk.ts b/packages/fs/src/readLnk.ts
index 3bd2d50..18a84fd 100644
--- a/packages/fs/src/readLnk.ts
+++ b/packages/fs/src/readLnk.ts
@@ -1,10 +1,9 @@
-import { exec } from 'child_process';
+import { execFile } from 'child_process';
 import { normalize } from 'path';
 import { platform } from 'process';
 import { promisify } from 'util';
 
 import { format } from '@curong/term';
-import { isNull } from '@curong/types';
 
 /**
  * 拼接适用于 `Windows` 的命令
@@ -13,7 +12,10 @@ import { isNull } from '@curong/types';
  * @returns 返回拼接好的命令字符串
  */
 function getCommand(pathString: string): string {
-    return `(New-Object -COM WScript.Shell).CreateShortcut('${pathString}').TargetPath;`;
+    return `(New-Object -COM WScript.Shell).CreateShortcut('${pathString.replace(
+        /['\u2018-\u201b]/g,
+        '$&$&'
+    )}').TargetPath;`;
 }
 
 /**
@@ -29,19 +31,21 @@ export default async function readLnk(pathString: string): Promise<string> {
     pathString = normalize(pathString);
 
     if (platform !== 'win32') {
-        return format({
+        throw format({
             name: 'readLnk',
             message: '无法解析不是 ".lnk" 后缀的文件',
             data: { pathString }
         });
     }
 
-    const command = `powershell.exe -command ${getCommand(pathString)}`;
-    const { stdout, stderr } = await promisify(exec)(command, {
-        encoding: 'utf8'
-    });
+    // 不经过 `shell`，避免路径中的特殊字符被当做命令执行
+    const { stdout, stderr } = await promisify(execFile)(
+        'powershell.exe',
+        ['-command', getCommand(pathString)],
+        { encoding: 'utf8' }
+    );
 
-    if (!isNull(stderr)) {
+    if (stderr) {
         throw format({
             name: 'readLnk',
             message: '"lnk" 文件解析失败',
-- 
2.43.0


From 9388f18ed35c73faec7107e86f7a64701cb8879a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 22/48] fix: killWindowsTask passes the image name without a
 shell and reports success

---
 packages/os/src/windows/killTask.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/packages/os/src/windows/killTask.ts b/packages/os/src/windows/killTask.ts
index 668785b..5cf7c30 100644
--- a/packages/os/src/windows/killTask.ts
+++ b/packages/os/src/windows/killTask.ts
@@ -1,4 +1,4 @@
-import { exec } from '@curong/process';
+import { spawn } from '@curong/process';
 
 /**
  * 结束一个正在运行的 `Windows` 系统平台上的映像进程
@@ -16,8 +16,9 @@ import { exec } from '@curong/process';
 export default async function killWindowsTask(
     imageName: string
 ): Promise<boolean> {
-    const command = ['taskkill', '/F', '/T', '/IM', `"${imageName}"`];
-    const executed = await exec(command).catch(() => ({ stderr: 'error' }));
+    // 不经过 `shell`，避免映像名称中的特殊字符被当做命令执行
+    const args = ['/F', '/T', '/IM', imageName];
+    const executed = await spawn('taskkill', args).catch(() => null);
 
-    return executed.stderr.length > 0;
+    return executed?.status === 0;
 }
-- 
2.43.0


From 74258cfc2b019f7e62ed68112157f0c416670838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:29 +0000
Subject: [PATCH 23/48] fix: trim treats extra characters as characters, not as
 pattern syntax

---
 packages/string/src/trim/trimRegSource.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/string/src/trim/trimRegSource.ts b/packages/string/src/trim/trimRegSource.ts
index 2e7672e..23d4712 100644
--- a/packages/string/src/trim/trimRegSource.ts
+++ b/packages/string/src/trim/trimRegSource.ts
@@ -5,6 +5,7 @@ import {
     likeSpaceRegSource,
     zeroWidthRegSource
 } from '../character/characters';
+import toRegExpSource from '../regexp/toRegExpSource';
 
 import type { TrimOptions } from './types';
 
@@ -37,7 +38,7 @@ export const trimRegSource = (
         { is: () => isTrue(control), ret: () => controlRegSource },
         {
             is: () => isStringFilled(extras) || isStringArray(extras),
-            ret: () => `[${[extras].flat().join('')}]`
+            ret: () => `[${toRegExpSource([extras].flat().join(''))}]`
         }
     ];
 
-- 
2.43.0


From fd1ee3ceaeeddab515d40594fcdaa5d94eb9a22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:29 +0000
Subject: [PATCH 24/48] fix: copySymbolicLink with a relative source no longer
 creates a dangling link

---
 packages/fs/src/copySymbolicLink.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/fs/src/copySymbolicLink.ts b/packages/fs/src/copySymbolicLink.ts
index d24fa9c..716cd41 100644
--- a/packages/fs/src/copySymbolicLink.ts
+++ b/packages/fs/src/copySymbolicLink.ts
@@ -1,5 +1,5 @@
 import { symlink } from 'fs/promises';
-import { dirname } from 'path';
+import { dirname, resolve } from 'path';
 
 import { format } from '@curong/term';
 
@@ -50,8 +50,8 @@ export default async function copySymbolicLink(
         type = null;
     }
 
-    // 创建符号链接
-    await symlink(fromPath, toPath, type).catch(error => {
+    // 创建符号链接，相对路径是相对于链接所在的文件夹来解析的，所以需要使用绝对路径
+    await symlink(resolve(fromPath), toPath, type).catch(error => {
         throw format({
             name,
             message: '拷贝符号链接失败，无法将fromPath拷贝到toPath',
-- 
2.43.0


From 71fb3ea83baa8a8827c6919cc68bf17cb1c64793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:29 +0000
Subject: [PATCH 25/48] fix: copy can copy a symbolic link

---
 packages/fs/src/copy.ts | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/packages/fs/src/copy.ts b/packages/fs/src/copy.ts
index 78a5751..259db34 100644
--- a/packages/fs/src/copy.ts
+++ b/packages/fs/src/copy.ts
@@ -6,8 +6,8 @@ import { format } from '@curong/term';
 import copySymbolicLink from './copySymbolicLink';
 import isDir from './isDir';
 import isFile from './isFile';
+import isSymbolicLink from './isSymbolicLink';
 import mkdir from './mkdir';
-import symbolicLink from './symbolicLink';
 import type { CopyFileOptions } from './types';
 
 const _copyFile = async (from: string, to: string, forcibly = false) => {
@@ -56,11 +56,10 @@ export default async function copy(
 ): Promise<void> {
     const name = 'copy';
     const { forcibly = true } = options ?? {};
-    let link: string | null;
 
     // 如果源是符号链接
-    if ((link = await symbolicLink(fromPath))) {
-        return await copySymbolicLink(link, toPath);
+    if (await isSymbolicLink(fromPath)) {
+        return await copySymbolicLink(fromPath, toPath);
     }
 
     // 如果源是文件
@@ -112,8 +111,8 @@ export default async function copy(
         from = join(fromPath, path);
         to = join(toPath, path);
 
-        if ((link = await symbolicLink(fromPath))) {
-            await copySymbolicLink(link, to);
+        if (await isSymbolicLink(from)) {
+            await copySymbolicLink(from, to);
         } else if (await isFile(from)) {
             await _copyFile(from, to, forcibly);
         } else if (await isDir(from)) {
-- 
2.43.0


From aa191bce4be1b977a1adac32039a612adac19709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:19 +0000
Subject: [PATCH 26/48] fix: maxRecursionDepth works on arrays of any length

---
 packages/array/src/maxRecursionDepth.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/array/src/maxRecursionDepth.ts b/packages/array/src/maxRecursionDepth.ts
index 2180ff2..e7dee8e 100644
--- a/packages/array/src/maxRecursionDepth.ts
+++ b/packages/array/src/maxRecursionDepth.ts
@@ -45,8 +45,8 @@ export default function maxRecursionDepth<T extends any[]>(
         return 1;
     }
 
-    return Math.max.apply(
-        null,
-        value.reduce((m, v) => m.concat(maxRecursionDepth(v) + 1), [])
+    return value.reduce(
+        (max: number, v) => Math.max(max, maxRecursionDepth(v) + 1),
+        1
     );
 }
-- 
2.43.0


From 945e0f6719f34059e0d251dc688fbc8ca2dd0b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:19 +0000
Subject: [PATCH 27/48] fix: fileList and findDir collect any number of files
 without overflowing the stack

---
 packages/fs/src/fileList.ts | 8 ++++++--
 packages/fs/src/findDir.ts  | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/packages/fs/src/fileList.ts b/packages/fs/src/fileList.ts
index 306f37c..b4a7cb5 100644
--- a/packages/fs/src/fileList.ts
+++ b/packages/fs/src/fileList.ts
@@ -58,7 +58,9 @@ export default async function fileList(
 
             if (extname(targetPath) === '') {
                 // 如果是文件夹
-                files.push(...(await fileList(targetPath)));
+                for (const file of await fileList(targetPath)) {
+                    files.push(file);
+                }
             } else {
                 // 不是文件夹，那么就是文件了
                 files.push(targetPath);
@@ -69,7 +71,9 @@ export default async function fileList(
 
         // 是文件夹
         if (dirent.isDirectory()) {
-            files.push(...(await fileList(absolutePath)));
+            for (const file of await fileList(absolutePath)) {
+                files.push(file);
+            }
         } else {
             files.push(absolutePath);
         }
diff --git a/packages/fs/src/findDir.ts b/packages/fs/src/findDir.ts
index 594c62d..98164d2 100644
--- a/packages/fs/src/findDir.ts
+++ b/packages/fs/src/findDir.ts
@@ -42,7 +42,9 @@ async function findDirCall(
                 continue;
             }
 
-            files.push(...(await findDirCall(absolutePath, folders, data)));
+            for (const file of await findDirCall(absolutePath, folders, data)) {
+                files.push(file);
+            }
 
             continue;
         }
@@ -54,7 +56,9 @@ async function findDirCall(
 
             if (extname(targetPath) === '') {
                 // 如果是文件夹
-                files.push(...(await findDirCall(targetPath, folders, data)));
+                for (const file of await findDirCall(targetPath, folders, data)) {
+                    files.push(file);
+                }
             } else {
                 // 不是文件夹，那么就是文件了
                 files.push(targetPath);
-- 
2.43.0


From 2c287a8756cefc7581d6830fe38ed4e7f94acac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:19 +0000
Subject: [PATCH 28/48] fix: queryDNS stores an answer of any length without
 overflowing the stack

---
 packages/request/src/dns/queryDNS.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/request/src/dns/queryDNS.ts b/packages/request/src/dns/queryDNS.ts
index 9ea08fe..022fc35 100644
--- a/packages/request/src/dns/queryDNS.ts
+++ b/packages/request/src/dns/queryDNS.ts
@@ -48,7 +48,7 @@ export default async function queryDNS(
         const ret = await request(requestOptions);
 
         if (isNull(ret.error) && isEqual(ret.response.statusCode, 200)) {
-            address[host].push(...ret.data.toString().split(/;/));
+            address[host] = ret.data.toString().split(/;/);
         }
     }
 
-- 
2.43.0


From a8a7a80e776ab359408fa9a86e84a5e09d08dc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 29/48] =?UTF-8?q?fix:=20request=20=E7=9A=84=E5=9B=9E?=
 =?UTF-8?q?=E8=B0=83=E6=8A=9B=E5=87=BA=E7=9A=84=E9=94=99=E8=AF=AF=E5=BA=94?=
 =?UTF-8?q?=E6=8B=92=E7=BB=9D=E8=BF=94=E5=9B=9E=E7=9A=84=20Promise?=
 =?UTF-8?q?=EF=BC=8C=E8=80=8C=E4=B8=8D=E6=98=AF=E4=BD=BF=E8=BF=9B=E7=A8=8B?=
 =?UTF-8?q?=E5=B4=A9=E6=BA=83?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 packages/request/src/request/request.ts | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index b672950..8476343 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -193,6 +193,16 @@ export default async function request(
     const getF = (resolve: any, reject: any) => {
         /** 发起网络请求 */
         req = requestFn(config, (res: IncomingMessage) => {
+            try {
+                onResponse(res);
+            } catch (error) {
+                req.destroy();
+                reject(error);
+            }
+        });
+
+        /** 处理响应 */
+        const onResponse = (res: IncomingMessage) => {
             if (req.destroyed) {
                 return;
             }
@@ -294,16 +304,21 @@ export default async function request(
 
             /** 接收响应体 */
             serialStream.on('data', (chunk: Buffer) => {
-                if (handlers.data && handlers.data(chunk, res, config)) {
-                    return resolve(returns());
+                try {
+                    if (handlers.data && handlers.data(chunk, res, config)) {
+                        return resolve(returns());
+                    }
+                } catch (error) {
+                    req.destroy();
+                    return reject(error);
                 }
 
                 buffers.push(chunk);
             });
 
             serialStream.on('end', () => resolve(returns()));
-            serialStream.on('error', e => reject(returns(e)));
-        });
+            serialStream.on('error', e => returns(e).then(reject, reject));
+        };
 
         req.on('timeout', () => {
             // 当 `HTTP` 请求对象 (`http.IncomingMessage` 或 `http.ClientRequest)` 超时时，`timeout` 事件会被触发
-- 
2.43.0


From 09a5b24ecf456a95bb932a494770058c034874f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 30/48] =?UTF-8?q?fix:=20kill=20=E5=9C=A8=E6=B2=A1=E6=9C=89?=
 =?UTF-8?q?=E5=AD=90=E8=BF=9B=E7=A8=8B=E6=88=96=20pgrep=20=E5=90=AF?=
 =?UTF-8?q?=E5=8A=A8=E5=A4=B1=E8=B4=A5=E6=97=B6=E4=B9=9F=E5=BA=94=E8=B0=83?=
 =?UTF-8?q?=E7=94=A8=E5=9B=9E=E8=B0=83=EF=BC=8C=E5=B9=B6=E4=BC=A0=E9=80=92?=
 =?UTF-8?q?=E9=94=99=E8=AF=AF?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 packages/os/src/kill.ts | 73 ++++++++++++++++++++++++++++-------------
 1 file changed, 51 insertions(+), 22 deletions(-)

diff --git a/packages/os/src/kill.ts b/packages/os/src/kill.ts
index 1a10c16..b6d860f 100644
--- a/packages/os/src/kill.ts
+++ b/packages/os/src/kill.ts
@@ -60,36 +60,44 @@ const buildProcessTree = (
     cb: (error?: any) => void
 ) => {
     const ps = spawnChildProcessesList(`${parentPid}`);
-    let allData: string;
+    let allData = '';
+    let error: Error | undefined;
 
     ps.stdout.on('data', data => {
         allData += data.toString('ascii');
     });
 
+    // 命令启动失败时，触发完 `error` 后也会触发 `close`
+    ps.on('error', e => {
+        error = e;
+    });
+
     ps.on('close', code => {
         pidsToProcess.delete(parentPid);
 
-        if (code != 0) {
-            if (pidsToProcess.size < 1) {
-                cb();
-            }
+        if (error) {
+            return cb(error);
+        }
 
-            return;
+        if (code == 0) {
+            (allData.match(/\d+/g) ?? []).forEach(pid => {
+                const p = +pid;
+                tree[parentPid].push(p);
+                tree[p] = [];
+                pidsToProcess.add(p);
+                buildProcessTree(
+                    p,
+                    tree,
+                    pidsToProcess,
+                    spawnChildProcessesList,
+                    cb
+                );
+            });
         }
 
-        (allData.match(/\d+/g) ?? []).forEach(pid => {
-            const p = +pid;
-            tree[parentPid].push(p);
-            tree[p] = [];
-            pidsToProcess.add(p);
-            buildProcessTree(
-                p,
-                tree,
-                pidsToProcess,
-                spawnChildProcessesList,
-                cb
-            );
-        });
+        if (pidsToProcess.size < 1) {
+            cb();
+        }
     });
 };
 
@@ -132,6 +140,25 @@ function kill(
     tree[pid] = [];
     pidsToProcess.add(pid);
 
+    let isDone = false;
+    const done = (error?: any) => {
+        if (isDone) {
+            return;
+        }
+
+        isDone = true;
+
+        if (!error) {
+            return killAll(tree, signal as any, callback);
+        }
+
+        if (callback) {
+            return callback(error);
+        }
+
+        throw error;
+    };
+
     switch (platform) {
         case 'win32':
             exec(`taskkill /T /F /PID ${pid}`, callback);
@@ -143,7 +170,7 @@ function kill(
                 tree,
                 pidsToProcess,
                 pid => spawn('pgrep', ['-P', pid]),
-                () => killAll(tree, signal as any, callback)
+                done
             );
             break;
 
@@ -161,7 +188,7 @@ function kill(
                         pid
                     ]);
                 },
-                () => killAll(tree, signal as any, callback)
+                done
             );
             break;
 
@@ -177,7 +204,9 @@ function kill(
  * @param signal 要发送的信号，可以是字符串或数字
  */
 function asyncKill(pid: number | string, signal?: string | number) {
-    return new Promise(resolve => kill(pid, signal, resolve));
+    return new Promise<void>((resolve, reject) =>
+        kill(pid, signal, error => (error ? reject(error) : resolve()))
+    );
 }
 
 export { kill, asyncKill };
-- 
2.43.0


From 4cee36b64ed8227b9f26ad0033cd4c40cb4a6ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 31/48] =?UTF-8?q?fix:=20readlineStream=20=E8=AF=BB?=
 =?UTF-8?q?=E5=8F=96=E5=A4=B1=E8=B4=A5=E6=88=96=E5=9B=9E=E8=B0=83=E6=8A=9B?=
 =?UTF-8?q?=E5=87=BA=E9=94=99=E8=AF=AF=E6=97=B6=E5=BA=94=E6=8B=92=E7=BB=9D?=
 =?UTF-8?q?=E8=BF=94=E5=9B=9E=E7=9A=84=20Promise?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 packages/fs/src/readlineStream.ts | 34 ++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/packages/fs/src/readlineStream.ts b/packages/fs/src/readlineStream.ts
index 1f8489c..5cc3ca7 100644
--- a/packages/fs/src/readlineStream.ts
+++ b/packages/fs/src/readlineStream.ts
@@ -51,22 +51,32 @@ export default async function readlineStream(
         }
     }
 
-    return new Promise(resolve => {
-        const stream = createInterface({
-            input: createReadStream(pathString, {
-                encoding: encoding as BufferEncoding,
-                flags: 'r+',
-                mode: 0o755,
-                autoClose: true,
-                highWaterMark: 64 * 1024
-            })
+    return new Promise((resolve, reject) => {
+        const input = createReadStream(pathString, {
+            encoding: encoding as BufferEncoding,
+            flags: 'r+',
+            mode: 0o755,
+            autoClose: true,
+            highWaterMark: 64 * 1024
         });
+        const stream = createInterface({ input });
 
-        stream.on('line', callback as ReadlineStreamCallback);
+        // 读取出错时，不会触发 `close`
+        input.on('error', reject);
 
-        stream.once('close', () => {
-            stream.removeAllListeners();
+        stream.on('error', reject);
 
+        stream.on('line', line => {
+            try {
+                (callback as ReadlineStreamCallback)(line);
+            } catch (error) {
+                reject(error);
+                stream.close();
+                input.destroy();
+            }
+        });
+
+        stream.once('close', () => {
             if (ret.length > 0) {
                 return resolve(ret);
             }
-- 
2.43.0


From ab33fe15aa9b397e81a11cc8d52b96c947c406e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 32/48] =?UTF-8?q?fix:=20readByQuestion=20=E5=9C=A8?=
 =?UTF-8?q?=E8=BE=93=E5=85=A5=E7=BB=93=E6=9D=9F=E6=97=B6=E5=BA=94=E6=8B=92?=
 =?UTF-8?q?=E7=BB=9D=EF=BC=8C=E8=80=8C=E4=B8=8D=E6=98=AF=E6=B0=B8=E8=BF=9C?=
 =?UTF-8?q?=E7=AD=89=E5=BE=85?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 packages/term/src/readByQuestion.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/term/src/readByQuestion.ts b/packages/term/src/readByQuestion.ts
index 356929a..db18e28 100644
--- a/packages/term/src/readByQuestion.ts
+++ b/packages/term/src/readByQuestion.ts
@@ -7,15 +7,19 @@ import { createInterface } from 'readline';
  * @returns 返回用户输入的内容
  */
 export default function readByQuestion(message: string): Promise<string> {
-    return new Promise(resolve => {
+    return new Promise((resolve, reject) => {
         const readable = createInterface({
             input: process.stdin,
             output: process.stdout
         });
 
         readable.question(message, answer => {
-            readable.close();
             resolve(answer.trim());
+            readable.close();
         });
+
+        readable.once('close', () =>
+            reject(new Error('[readByQuestion] 输入已经结束'))
+        );
     });
 }
-- 
2.43.0


From 63236e5e147ca7c26a4f422306eabe5dc89c70a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 33/48] =?UTF-8?q?fix:=20windowsMakeShortcut=20=E5=9C=A8?=
 =?UTF-8?q?=E5=85=B6=E4=BB=96=E5=B9=B3=E5=8F=B0=E4=B8=8A=E5=BA=94=E6=8A=9B?=
 =?UTF-8?q?=E5=87=BA=E9=94=99=E8=AF=AF=EF=BC=8C=E8=80=8C=E4=B8=8D=E6=98=AF?=
 =?UTF-8?q?=E8=BF=94=E5=9B=9E=E9=94=99=E8=AF=AF?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 packages/os/src/windows/makeShortcut.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/os/src/windows/makeShortcut.ts b/packages/os/src/windows/makeShortcut.ts
index 01492fc..f6d8a3e 100644
--- a/packages/os/src/windows/makeShortcut.ts
+++ b/packages/os/src/windows/makeShortcut.ts
@@ -85,7 +85,7 @@ export default async function windowsMakeShortcut(
     options?: ShortcutOptions
 ) {
     if (!isWindows) {
-        return new Error(
+        throw new Error(
             '[windowsMakeShortcut]: 当前不是 Windows 系统，无法执行操作'
         );
     }
-- 
2.43.0


From d8c1c7e77aa336c8063dc7b176918eba6b5e5d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 34/48] =?UTF-8?q?fix:=20spawn=20=E5=90=AF=E5=8A=A8?=
 =?UTF-8?q?=E5=A4=B1=E8=B4=A5=E5=90=8E=E4=B8=8D=E5=BA=94=E5=86=8D=E8=AE=BF?=
 =?UTF-8?q?=E9=97=AE=E5=AD=90=E8=BF=9B=E7=A8=8B?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 packages/process/src/spawn.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/process/src/spawn.ts b/packages/process/src/spawn.ts
index 173d94e..cec172d 100644
--- a/packages/process/src/spawn.ts
+++ b/packages/process/src/spawn.ts
@@ -256,6 +256,11 @@ export default function spawn(
     }) as SpawnResult;
 
     setTimeout(() => {
+        // 没有启动成功
+        if (!handler) {
+            return;
+        }
+
         child.stdin = handler!.stdin;
         child.process = handler!;
     });
-- 
2.43.0


From 0982b84bbfa8825a4bf21edf8ceabee4276b9f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 35/48] =?UTF-8?q?fix:=20toObject=20=E4=B8=8D=E5=BA=94?=
 =?UTF-8?q?=E4=B8=A2=E5=A4=B1=E5=90=8D=E4=B8=BA=20=5F=5Fproto=5F=5F=20?=
 =?UTF-8?q?=E7=9A=84=E9=94=AE?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 packages/array/src/convert/toObject.ts | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/packages/array/src/convert/toObject.ts b/packages/array/src/convert/toObject.ts
index 1b20eb4..7a5f824 100644
--- a/packages/array/src/convert/toObject.ts
+++ b/packages/array/src/convert/toObject.ts
@@ -27,11 +27,7 @@ export default function toObject<T, U>(
     makeKey: (value: T) => string,
     makeValue: (value: T) => U
 ): Record<string, U> {
-    const result: Record<string, U> = {};
-
-    for (const value of array) {
-        result[makeKey(value)] = makeValue(value);
-    }
-
-    return result;
+    return Object.fromEntries(
+        Array.from(array, value => [makeKey(value), makeValue(value)])
+    );
 }
-- 
2.43.0


From 657ce3483c64625f8d606706449ef8e4d67e1033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 36/48] =?UTF-8?q?fix:=20toTree=20=E7=9A=84=E8=8A=82?=
 =?UTF-8?q?=E7=82=B9=20id=20=E5=8F=AF=E4=BB=A5=E6=98=AF=E4=BB=BB=E6=84=8F?=
 =?UTF-8?q?=E6=96=87=E6=9C=AC=20(=E4=BE=8B=E5=A6=82=20constructor)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 packages/array/src/convert/toTree.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/packages/array/src/convert/toTree.ts b/packages/array/src/convert/toTree.ts
index 10561a5..5779089 100644
--- a/packages/array/src/convert/toTree.ts
+++ b/packages/array/src/convert/toTree.ts
@@ -105,11 +105,14 @@ export default function toTree(
         assign = false
     } = options;
 
+    const isRoot = (id: any) =>
+        hasOwnProperty(rootParentIds, id) && rootParentIds[id];
+
     // 结果中的树结构
     const rootItems: TreeItem[] = [];
 
     // 存储所有已处理的项，使用它们的 `id` 作为键，以便于查找
-    const lookup: { [id: string]: TreeItem } = {};
+    const lookup: { [id: string]: TreeItem } = Object.create(null);
 
     // 存储所有尚未添加到结果树中的项的 `id`
     // 这是一个可选属性，因为它有轻微的运行时开销
@@ -133,7 +136,7 @@ export default function toTree(
             parentId = item[pid];
         }
 
-        if (rootParentIds[itemId]) {
+        if (isRoot(itemId)) {
             throw new Error(
                 `items 数组中包含一个节点，它的 parentId 既存在于另一个节点中又在 rootParentIds 中。` +
                     `{itemId: "${itemId}", rootParentIds: ${JSON.stringify(Object.keys(rootParentIds))}}`
@@ -167,7 +170,7 @@ export default function toTree(
 
         const treeItem = lookup[itemId];
 
-        if (parentId == null || rootParentIds[parentId]) {
+        if (parentId == null || isRoot(parentId)) {
             // 是一个根项
             rootItems.push(treeItem);
         } else {
-- 
2.43.0


From 9382108b9ec79820c934681a3f4353283d4b1432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 37/48] =?UTF-8?q?fix:=20parseCookie=20=E4=B8=8D=E5=BA=94?=
 =?UTF-8?q?=E4=B8=A2=E5=A4=B1=E5=90=8D=E4=B8=BA=20=5F=5Fproto=5F=5F=20?=
 =?UTF-8?q?=E7=9A=84=20cookie?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 packages/cookie/src/cookie/parse.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/cookie/src/cookie/parse.ts b/packages/cookie/src/cookie/parse.ts
index 5cde997..75f8540 100644
--- a/packages/cookie/src/cookie/parse.ts
+++ b/packages/cookie/src/cookie/parse.ts
@@ -67,7 +67,7 @@ export default function parseCookie(
     cookie: string,
     decode?: ParseCookieOptions['decode']
 ): { [key: string]: string } {
-    const result: { [key: string]: string } = {};
+    const result: Array<[string, string]> = [];
 
     if (!isStringFilled(cookie) || !cookie.includes('=')) {
         throw new TypeError(`[parse]: cookie不是一个字符串, "${cookie}"`);
@@ -96,14 +96,14 @@ export default function parseCookie(
 
         if (isString(key)) {
             if (isString(value)) {
-                result[key] = value;
+                result.push([key, value]);
                 key = null;
                 value = null;
             } else if (i === len - 1) {
-                result[key] = getDecode(cookie.slice(star), decode);
+                result.push([key, getDecode(cookie.slice(star), decode)]);
             }
         }
     }
 
-    return result;
+    return Object.fromEntries(result);
 }
-- 
2.43.0


From 300de30363012d0ecfd6e1dd44a7b667ad8e3936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 38/48] =?UTF-8?q?fix:=20parseSetCookie=20=E7=9A=84?=
 =?UTF-8?q?=E5=B1=9E=E6=80=A7=E4=B8=8D=E5=BA=94=E8=A6=86=E7=9B=96=20name?=
 =?UTF-8?q?=20=E5=92=8C=20value=EF=BC=8C=E4=B9=9F=E4=B8=8D=E5=BA=94?=
 =?UTF-8?q?=E4=B8=A2=E5=A4=B1=E5=90=8D=E4=B8=BA=20=5F=5Fproto=5F=5F=20?=
 =?UTF-8?q?=E7=9A=84=E9=94=AE?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 packages/cookie/src/setCookie/parse.ts | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/packages/cookie/src/setCookie/parse.ts b/packages/cookie/src/setCookie/parse.ts
index 2767dc0..93edf01 100644
--- a/packages/cookie/src/setCookie/parse.ts
+++ b/packages/cookie/src/setCookie/parse.ts
@@ -37,8 +37,19 @@ const setCookieValue = (cookie: SetCookieItem, key: string, value: string) => {
             cookie.sameSite = value;
             break;
 
+        // `name` 和 `value` 是 cookie 本身的名称和值，不能被同名的属性覆盖
+        case 'name':
+        case 'value':
+            break;
+
         default:
-            cookie[key] = value;
+            // `__proto__` 不能通过赋值成为自身的属性
+            Object.defineProperty(cookie, key, {
+                value,
+                writable: true,
+                enumerable: true,
+                configurable: true
+            });
             break;
     }
 
@@ -173,12 +184,7 @@ export default function parseSetCookie(
         return cookies.map((str: string) => parseChunk(str, decode));
     }
 
-    return cookies.reduce(
-        (cookie, str) => {
-            const v = parseChunk(str, decode);
-            cookie[v.name] = v;
-            return cookie;
-        },
-        {} as Record<string, SetCookieItem>
+    return Object.fromEntries(
+        cookies.map(str => parseChunk(str, decode)).map(v => [v.name, v])
     );
 }
-- 
2.43.0


From 30aa61ca6f8d61277fa6894104fed45f7203a8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 39/48] =?UTF-8?q?fix:=20toCascadeKeys=20=E5=8F=AA=E5=BA=94?=
 =?UTF-8?q?=E4=BD=BF=E7=94=A8=20dependencies=20=E8=87=AA=E8=BA=AB=E7=9A=84?=
 =?UTF-8?q?=E5=B1=9E=E6=80=A7?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 packages/object/src/cascade/toCascadeKeys.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/object/src/cascade/toCascadeKeys.ts b/packages/object/src/cascade/toCascadeKeys.ts
index c77c680..63cb133 100644
--- a/packages/object/src/cascade/toCascadeKeys.ts
+++ b/packages/object/src/cascade/toCascadeKeys.ts
@@ -1,6 +1,6 @@
 import { chars } from '@curong/string';
 import { format } from '@curong/term';
-import { isArrayIndex } from '@curong/types';
+import { hasOwnProperty, isArrayIndex } from '@curong/types';
 
 import type { ObjectType } from '../types';
 
@@ -66,7 +66,9 @@ export default function toCascadeKeys(
             return nk;
         }
 
-        const v = dependencies[key];
+        const v = hasOwnProperty(dependencies, key)
+            ? dependencies[key]
+            : undefined;
 
         if (!v) {
             throw format({
-- 
2.43.0


From b78735245a12f584ef038c3cfa3612521ee08c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 40/48] =?UTF-8?q?fix:=20toLowerCaseKey=20=E4=B8=8D?=
 =?UTF-8?q?=E5=BA=94=E4=B8=A2=E5=A4=B1=E5=90=8D=E4=B8=BA=20=5F=5Fproto=5F?=
 =?UTF-8?q?=5F=20=E7=9A=84=E9=94=AE?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 packages/object/src/keys/toLowerCaseKey.ts | 25 +++++++---------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/packages/object/src/keys/toLowerCaseKey.ts b/packages/object/src/keys/toLowerCaseKey.ts
index e229e1b..009e101 100644
--- a/packages/object/src/keys/toLowerCaseKey.ts
+++ b/packages/object/src/keys/toLowerCaseKey.ts
@@ -25,26 +25,17 @@ export default function toLowerCaseKey(
     object: ObjectType,
     isCover: boolean = true
 ): ObjectType {
-    const set = new Set();
-
-    return Reflect.ownKeys(object).reduce((memo, key) => {
-        const value = object[key];
+    const memo = new Map<PropertyKey, any>();
 
+    for (const key of Reflect.ownKeys(object)) {
         // 如果属性名是数字或者 `symbol`，就直接赋值
-        if (isSymbol(key) || isNumber(key)) {
-            memo[key] = value;
-            return memo;
-        }
-
-        key = key.toLowerCase();
+        const name =
+            isSymbol(key) || isNumber(key) ? key : key.toLowerCase();
 
-        if (isCover) {
-            memo[key] = value;
-        } else if (!set.has(key)) {
-            memo[key] = value;
-            set.add(key);
+        if (isSymbol(name) || isCover || !memo.has(name)) {
+            memo.set(name, object[key]);
         }
+    }
 
-        return memo;
-    }, {} as ObjectType);
+    return Object.fromEntries(memo) as ObjectType;
 }
-- 
2.43.0


From c7a8a384ca11a06b43d1a7a78ca254f720de17c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 41/48] =?UTF-8?q?fix:=20stringify=20=E4=B8=8D=E5=BA=94?=
 =?UTF-8?q?=E4=B8=A2=E5=A4=B1=E5=90=8D=E4=B8=BA=20=5F=5Fproto=5F=5F=20?=
 =?UTF-8?q?=E7=9A=84=E9=94=AE?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 packages/object/src/stringify.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/object/src/stringify.ts b/packages/object/src/stringify.ts
index 42300f1..cf33193 100644
--- a/packages/object/src/stringify.ts
+++ b/packages/object/src/stringify.ts
@@ -53,7 +53,13 @@ const safeStringifyReplacer = (
 
             for (let i = 0, k, len = keys.length; i < len; i++) {
                 k = keys[i];
-                newValue[k] = internal(value[k], path.concat(k));
+                // `__proto__` 不能通过赋值成为自身的属性
+                Object.defineProperty(newValue, k, {
+                    value: internal(value[k], path.concat(k)),
+                    writable: true,
+                    enumerable: true,
+                    configurable: true
+                });
             }
         }
 
-- 
2.43.0


From 413e46b0204d092346571ab1065684cf53ba6035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 42/48] =?UTF-8?q?fix:=20queryDNS=20=E7=9A=84=E7=BB=93?=
 =?UTF-8?q?=E6=9E=9C=E5=BA=94=E5=8C=85=E5=90=AB=E6=AF=8F=E4=B8=80=E4=B8=AA?=
 =?UTF-8?q?=E4=B8=BB=E6=9C=BA=E5=90=8D?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 packages/request/src/dns/queryDNS.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/packages/request/src/dns/queryDNS.ts b/packages/request/src/dns/queryDNS.ts
index 022fc35..deaa9ee 100644
--- a/packages/request/src/dns/queryDNS.ts
+++ b/packages/request/src/dns/queryDNS.ts
@@ -26,12 +26,12 @@ export default async function queryDNS(
         hostname = [hostname];
     }
 
-    const address: QueryDNSResult = {};
 
     if (isZero(hostname.length)) {
-        return address;
+        return {};
     }
 
+    const address = new Map<string, string[]>();
     const requestOptions: RequestOptions = {
         // 使用腾讯
         hostname: '119.29.29.29',
@@ -42,15 +42,15 @@ export default async function queryDNS(
 
     for (let i = 0, len = hostname.length; i < len; i++) {
         const host = hostname[i];
-        address[host] = [];
+        address.set(host, []);
         requestOptions.query!.dn = host;
 
         const ret = await request(requestOptions);
 
         if (isNull(ret.error) && isEqual(ret.response.statusCode, 200)) {
-            address[host] = ret.data.toString().split(/;/);
+            address.set(host, ret.data.toString().split(/;/));
         }
     }
 
-    return address;
+    return Object.fromEntries(address);
 }
-- 
2.43.0


From c5e5f5bbecabdbb2c35e62c982fa467178d30d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:25 +0000
Subject: [PATCH 43/48] fix: cancelExec passes its arguments to the callable

---
 packages/function/src/control/cancelExec.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/function/src/control/cancelExec.ts b/packages/function/src/control/cancelExec.ts
index 256c3eb..d8810c0 100644
--- a/packages/function/src/control/cancelExec.ts
+++ b/packages/function/src/control/cancelExec.ts
@@ -42,7 +42,7 @@ export default function cancelExec<R, A extends unknown[]>(
 
     return [
         Promise.race([
-            toPromise(callable),
+            toPromise(callable, args),
             new Promise(resolve => {
                 abort = payload => resolve(toPromise(payload, args));
             })
-- 
2.43.0


From 702cb6fbcd658744fe94ddbb0263317a2cd318dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:25 +0000
Subject: [PATCH 44/48] fix: select passes its arguments to the condition

---
 packages/function/src/select/select.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/function/src/select/select.ts b/packages/function/src/select/select.ts
index a712db0..7341a3f 100644
--- a/packages/function/src/select/select.ts
+++ b/packages/function/src/select/select.ts
@@ -24,7 +24,7 @@ export default async function select<A extends unknown[], T>(
     doElse?: ((...args: A) => any) | Promise<any> | T | null | undefined,
     ...args: A
 ): Promise<T | null | undefined> {
-    return (await executeToPromise(condition))
+    return (await executeToPromise(condition, args))
         ? executeToPromise(doIf, args)
         : executeToPromise(doElse, args);
 }
-- 
2.43.0


From c77d2af453955ab01c668d464d5185a953175f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:25 +0000
Subject: [PATCH 45/48] fix: every stage of a curried function accepts any
 number of arguments

---
 packages/function/src/currying.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/function/src/currying.ts b/packages/function/src/currying.ts
index 0146f95..88c4155 100644
--- a/packages/function/src/currying.ts
+++ b/packages/function/src/currying.ts
@@ -93,7 +93,7 @@ function currying(fn: (...args: any[]) => any): (...args: any[]) => any {
     return function curried(...args: any[]) {
         return args.length >= depth
             ? fn.apply(fn, args)
-            : (arg: any) => curried(...args, arg);
+            : (...rest: any[]) => curried(...args, ...rest);
     };
 }
 
-- 
2.43.0


From 976c933c7a1a8aa5b63192fc4e5455019f6934b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:43 +0000
Subject: [PATCH 46/48] fix: diffFile compares only the bytes it has read

---
 packages/fs/src/diffFile.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/fs/src/diffFile.ts b/packages/fs/src/diffFile.ts
index 2cb11f7..db90e5e 100644
--- a/packages/fs/src/diffFile.ts
+++ b/packages/fs/src/diffFile.ts
@@ -24,7 +24,7 @@ export default async function diffFile(
         const buffer = Buffer.alloc(highWorkMark);
         const readBytes = readSync(fd, buffer, 0, highWorkMark, position);
 
-        return isZero(readBytes) ? null : buffer;
+        return isZero(readBytes) ? null : buffer.subarray(0, readBytes);
     };
 
     const fileHandle1 = await open(pathString1, 'r').catch(() => null);
-- 
2.43.0


From 025ca9fed3ce22dc4eecde8d5bd7b9257a410c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:43 +0000
Subject: [PATCH 47/48] fix: diffFile closes its file handles when reading
 fails

---
 packages/fs/src/diffFile.ts | 50 +++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/packages/fs/src/diffFile.ts b/packages/fs/src/diffFile.ts
index db90e5e..457290c 100644
--- a/packages/fs/src/diffFile.ts
+++ b/packages/fs/src/diffFile.ts
@@ -40,30 +40,36 @@ export default async function diffFile(
         return !compared;
     }
 
-    const fd1 = fileHandle1.fd;
-    const fd2 = fileHandle2.fd;
-
-    while (true) {
-        const chunk1 = await readChunk(fd1);
-        const chunk2 = await readChunk(fd2);
-        const nullChunk1 = isNull(chunk1);
-        const nullChunk2 = isNull(chunk2);
-
-        if (nullChunk1 && nullChunk2) {
-            break;
-        }
-
-        if (nullChunk1 || nullChunk2 || !isZero(chunk1!.compare(chunk2!))) {
-            compared = false;
-            break;
+    try {
+        const fd1 = fileHandle1.fd;
+        const fd2 = fileHandle2.fd;
+
+        while (true) {
+            const chunk1 = await readChunk(fd1);
+            const chunk2 = await readChunk(fd2);
+            const nullChunk1 = isNull(chunk1);
+            const nullChunk2 = isNull(chunk2);
+
+            if (nullChunk1 && nullChunk2) {
+                break;
+            }
+
+            if (
+                nullChunk1 ||
+                nullChunk2 ||
+                !isZero(chunk1!.compare(chunk2!))
+            ) {
+                compared = false;
+                break;
+            }
+
+            position += highWorkMark;
         }
-
-        position += highWorkMark;
+    } finally {
+        // 关闭文件描述符，读取出错时也不例外
+        await fileHandle1.close();
+        await fileHandle2.close();
     }
 
-    // 关闭文件描述符
-    await fileHandle1.close();
-    await fileHandle2.close();
-
     return compared;
 }
-- 
2.43.0


From 694835b065dee78ade172829d1f188291f96d30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:43 +0000
Subject: [PATCH 48/48] fix: timeoutOr clears its timer when the callable
 rejects

---
 packages/function/src/timeout/timeoutOr.ts | 24 ++++++++++++----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/packages/function/src/timeout/timeoutOr.ts b/packages/function/src/timeout/timeoutOr.ts
index bcc91d2..da10f50 100644
--- a/packages/function/src/timeout/timeoutOr.ts
+++ b/packages/function/src/timeout/timeoutOr.ts
@@ -32,15 +32,17 @@ export default async function timeoutOr<A extends unknown[], R1, R2>(
     ...args: A
 ) {
     let timer;
-    const ret = await Promise.race([
-        toPromise(callable, args),
-        new Promise(resolve => {
-            timer = setTimeout(
-                () => resolve(executeToPromise(callback, args)),
-                timeoutMsResolve(duration)
-            );
-        })
-    ]);
-    clearTimeout(timer);
-    return ret;
+    try {
+        return await Promise.race([
+            toPromise(callable, args),
+            new Promise(resolve => {
+                timer = setTimeout(
+                    () => resolve(executeToPromise(callback, args)),
+                    timeoutMsResolve(duration)
+                );
+            })
+        ]);
+    } finally {
+        clearTimeout(timer);
+    }
 }
-- 
2.43.0

