From 49fd91bceb10100502bdfafd6f7fcb990f9b0cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:10 +0000
Subject: [PATCH 01/61] fix: retry only the latest fetch when several fail
 concurrently

Each failing fetch started its own backoff and replaced the reference to the
previous one, whose retries could then no longer be cancelled.
---
 packages/experiment-browser/src/experimentClient.ts | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 4462b2c..7f06cb2 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -96,6 +96,7 @@ export class ExperimentClient implements Client {
   private userProvider: ExperimentUserProvider | undefined;
   private userSessionExposureTracker: UserSessionExposureTracker | undefined;
   private retriesBackoff: Backoff | undefined;
+  private latestFetchId = 0;
   private poller: Poller;
   private isRunning = false;
   private readonly integrationManager: IntegrationManager;
@@ -745,7 +746,9 @@ export class ExperimentClient implements Client {
     // requests. A new failure will restart the retries.
     if (retry) {
       this.stopRetries();
+      this.latestFetchId++;
     }
+    const fetchId = this.latestFetchId;
 
     try {
       const variants = await this.doFetch(user, timeoutMillis, {
@@ -755,7 +758,13 @@ export class ExperimentClient implements Client {
       await this.storeVariants(variants, options);
       return variants;
     } catch (e) {
-      if (retry && this.shouldRetryFetch(e)) {
+      // A fetch overtaken by a newer one must not start retries: the newer fetch
+      // has already cancelled them, and may be running retries of its own.
+      if (
+        retry &&
+        fetchId === this.latestFetchId &&
+        this.shouldRetryFetch(e)
+      ) {
         void this.startRetries(user, options);
       }
       throw e;
-- 
2.43.0


From fa3d1c9ab2b105f90a444dad00be78bf6d86a0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:49 +0000
Subject: [PATCH 02/61] fix: keep retrying exposure events rejected after the
 queue had drained

The poller was stopped for good once the tracking queue became empty, so an
event rejected later was not retried, and setting another tracker while the
poller was running leaked its interval.
---
 .../experiment-browser/src/integration/manager.ts   | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index e39d5b2..790fc83 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -243,13 +243,18 @@ export class PersistentTrackingQueue {
 
   setTracker(tracker: (event: ExperimentEvent) => boolean): void {
     this.tracker = tracker;
+    this.startPoller();
+    this.loadFlushStore();
+  }
+
+  private startPoller(): void {
+    if (this.poller) return;
     const setInterval = getSetInterval();
     if (setInterval) {
       this.poller = setInterval(() => {
         this.loadFlushStore();
       }, 1000);
     }
-    this.loadFlushStore();
   }
 
   private flush(): void {
@@ -266,7 +271,11 @@ export class PersistentTrackingQueue {
       }
     }
     this.inMemoryQueue = this.inMemoryQueue.slice(i);
-    if (this.inMemoryQueue.length === 0 && this.poller) {
+    if (this.inMemoryQueue.length > 0) {
+      // The poller may have been stopped by an earlier flush which emptied the
+      // queue. Make sure that the remaining events are retried.
+      this.startPoller();
+    } else if (this.poller) {
       const clearInterval = getClearInterval();
       if (clearInterval) {
         clearInterval(this.poller);
-- 
2.43.0


From 037a59be5c718cb3f438aa11c6192f9cfa4359c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 03/61] fix: bound the exposure event queue when local storage
 is unavailable

---
 .../experiment-browser/src/integration/manager.ts    | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index 790fc83..c31e333 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -293,14 +293,14 @@ export class PersistentTrackingQueue {
   }
 
   private storeQueue(): void {
+    // Trim the queue if it is too large.
+    if (this.inMemoryQueue.length > this.maxQueueSize) {
+      this.inMemoryQueue = this.inMemoryQueue.slice(
+        this.inMemoryQueue.length - this.maxQueueSize,
+      );
+    }
     const localStorage = getLocalStorage();
     if (this.isLocalStorageAvailable && localStorage) {
-      // Trim the queue if it is too large.
-      if (this.inMemoryQueue.length > this.maxQueueSize) {
-        this.inMemoryQueue = this.inMemoryQueue.slice(
-          this.inMemoryQueue.length - this.maxQueueSize,
-        );
-      }
       localStorage.setItem(this.storageKey, JSON.stringify(this.inMemoryQueue));
     }
   }
-- 
2.43.0


From e622c01b4267ee8d7ee83b2a187a3ce21bb5cb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 04/61] fix: do not throw when browser storage is blocked, full
 or corrupted

Unreadable exposure queue or dedupe cache contents, a failing write of the
queue, or blocked access to the storages made variant(), exposure() and client
initialization throw.
---
 .../src/integration/manager.ts                | 33 +++++++++++++++----
 packages/experiment-core/src/util/global.ts   | 13 ++++++--
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index c31e333..2d672bc 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -183,7 +183,11 @@ export class SessionDedupeCache {
     this.inMemoryCache = {};
     const sessionStorage = getSessionStorage();
     if (this.isSessionStorageAvailable && sessionStorage) {
-      sessionStorage.removeItem(this.storageKey);
+      try {
+        sessionStorage.removeItem(this.storageKey);
+      } catch (e) {
+        // Gracefully handle storage errors.
+      }
     }
   }
 
@@ -200,8 +204,13 @@ export class SessionDedupeCache {
   private loadCache(): void {
     const sessionStorage = getSessionStorage();
     if (this.isSessionStorageAvailable && sessionStorage) {
-      const storedCache = sessionStorage.getItem(this.storageKey);
-      this.inMemoryCache = storedCache ? JSON.parse(storedCache) : {};
+      try {
+        const storedCache = sessionStorage.getItem(this.storageKey);
+        const cache = storedCache ? JSON.parse(storedCache) : {};
+        this.inMemoryCache = cache && typeof cache === 'object' ? cache : {};
+      } catch (e) {
+        // Unreadable or corrupted storage, keep using the in-memory cache.
+      }
     }
   }
 
@@ -287,8 +296,13 @@ export class PersistentTrackingQueue {
   private loadQueue(): void {
     const localStorage = getLocalStorage();
     if (this.isLocalStorageAvailable && localStorage) {
-      const storedQueue = localStorage.getItem(this.storageKey);
-      this.inMemoryQueue = storedQueue ? JSON.parse(storedQueue) : [];
+      try {
+        const storedQueue = localStorage.getItem(this.storageKey);
+        const queue = storedQueue ? JSON.parse(storedQueue) : [];
+        this.inMemoryQueue = Array.isArray(queue) ? queue : [];
+      } catch (e) {
+        // Unreadable or corrupted storage, keep using the in-memory queue.
+      }
     }
   }
 
@@ -301,7 +315,14 @@ export class PersistentTrackingQueue {
     }
     const localStorage = getLocalStorage();
     if (this.isLocalStorageAvailable && localStorage) {
-      localStorage.setItem(this.storageKey, JSON.stringify(this.inMemoryQueue));
+      try {
+        localStorage.setItem(
+          this.storageKey,
+          JSON.stringify(this.inMemoryQueue),
+        );
+      } catch (e) {
+        // Gracefully handle QuotaExceededError or other storage errors.
+      }
     }
   }
 
diff --git a/packages/experiment-core/src/util/global.ts b/packages/experiment-core/src/util/global.ts
index 1efca4f..ab1fdab 100644
--- a/packages/experiment-core/src/util/global.ts
+++ b/packages/experiment-core/src/util/global.ts
@@ -36,12 +36,21 @@ export const isLocalStorageAvailable = (): boolean => {
   return false;
 };
 
+// Accessing the storages throws a SecurityError if the browser blocks site data.
 export const getLocalStorage = (): Storage | undefined => {
-  return getGlobalScope()?.localStorage;
+  try {
+    return getGlobalScope()?.localStorage;
+  } catch (e) {
+    return undefined;
+  }
 };
 
 export const getSessionStorage = (): Storage | undefined => {
-  return getGlobalScope()?.sessionStorage;
+  try {
+    return getGlobalScope()?.sessionStorage;
+  } catch (e) {
+    return undefined;
+  }
 };
 
 export const getDocument = (): Document | undefined => {
-- 
2.43.0


From e60db42a98d0efb17ea19ef5e86cf45710108a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:41 +0000
Subject: [PATCH 05/61] fix: copy the user properties of the user being set

setUser() decided by the previous user whether to copy user_properties, so later
changes to the caller's object could leak into the client.
---
 packages/experiment-browser/src/experimentClient.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 7f06cb2..1f2b92f 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -455,7 +455,7 @@ export class ExperimentClient implements Client {
       this.user = null;
       return;
     }
-    if (this.user?.user_properties) {
+    if (user.user_properties) {
       const userPropertiesCopy = { ...user.user_properties };
       this.user = { ...user, user_properties: userPropertiesCopy };
     } else {
-- 
2.43.0


From 5dfd209a893671e898d62b914d51568566f840be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:40 +0000
Subject: [PATCH 06/61] fix: fall back on the next user source for null and
 undefined fields

Spreading the users let an undefined user_id of the integration (identity not
known yet) or of the explicit user hide the value of the user provider, which
is documented to fill fields which are null or undefined.
---
 packages/experiment-browser/src/experimentClient.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 1f2b92f..f9a063a 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -904,8 +904,9 @@ export class ExperimentClient implements Client {
     return {
       library: `experiment-js-client/${PACKAGE_VERSION}`,
       ...providedUser,
-      ...integrationUser,
-      ...user,
+      // Null and undefined fields fall back on the next source.
+      ...filterNullUndefined(integrationUser),
+      ...filterNullUndefined(user),
       user_properties: mergedUserProperties,
     };
   }
-- 
2.43.0


From d43dd85f7d6c34e13f19887517427be9cf4a359d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:54 +0000
Subject: [PATCH 07/61] fix: do not start polling after stop was called while
 starting

---
 packages/experiment-browser/src/experimentClient.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index f9a063a..5b84fa4 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -272,7 +272,8 @@ export class ExperimentClient implements Client {
       // Otherwise, silently handle the error (existing behavior)
     }
 
-    if (this.config.pollOnStart) {
+    // Do not poll if stopped while the requests above were in flight
+    if (this.config.pollOnStart && this.isRunning) {
       this.poller.start();
     }
   }
-- 
2.43.0


From ea3b3f14540e64ad6d4e9ea0be3f5d6fbcec8ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 08/61] fix: ignore the setup of an integration which has been
 replaced

---
 .../src/integration/manager.ts                   | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index 2d672bc..f95bc1d 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -67,16 +67,14 @@ export class IntegrationManager {
     }
     this.integration = integration;
     if (integration.setup) {
-      this.integration.setup(this.config, this.client).then(
-        () => {
-          this.queue.setTracker(this.integration.track.bind(integration));
+      const onSetup = () => {
+        // Ignore the setup of an integration which has since been replaced.
+        if (this.integration === integration) {
+          this.queue.setTracker(integration.track.bind(integration));
           this.resolve();
-        },
-        () => {
-          this.queue.setTracker(this.integration.track.bind(integration));
-          this.resolve();
-        },
-      );
+        }
+      };
+      this.integration.setup(this.config, this.client).then(onSetup, onSetup);
     } else {
       this.queue.setTracker(this.integration.track.bind(integration));
       this.resolve();
-- 
2.43.0


From 066f5251043da795a299874a82fbed3f154cf7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 09/61] fix: do not share user properties of the identity store
 with callers

---
 .../analytics-connector/src/identityStore.ts  | 25 +++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/packages/analytics-connector/src/identityStore.ts b/packages/analytics-connector/src/identityStore.ts
index 1689594..3fc9e57 100644
--- a/packages/analytics-connector/src/identityStore.ts
+++ b/packages/analytics-connector/src/identityStore.ts
@@ -45,6 +45,21 @@ export interface IdentityEditor {
   commit(): void;
 }
 
+// The store must not share its properties with callers: if it did, changing
+// them outside of the store would change the identity without notifying
+// listeners.
+const copyProperties = (
+  properties: Record<string, unknown> | undefined,
+): Record<string, unknown> | undefined => properties && { ...properties };
+
+const copyIdentity = (identity: Identity): Identity => {
+  const copy = { ...identity };
+  if (copy.userProperties) {
+    copy.userProperties = copyProperties(copy.userProperties);
+  }
+  return copy;
+};
+
 export class IdentityStoreImpl implements IdentityStore {
   private identity: Identity = { userProperties: {} };
   private listeners = new Set<IdentityListener>();
@@ -71,7 +86,7 @@ export class IdentityStoreImpl implements IdentityStore {
       setUserProperties: function (
         userProperties: Record<string, unknown>,
       ): IdentityEditor {
-        actingIdentity.userProperties = userProperties;
+        actingIdentity.userProperties = copyProperties(userProperties);
         return this;
       },
 
@@ -113,15 +128,15 @@ export class IdentityStoreImpl implements IdentityStore {
   }
 
   getIdentity(): Identity {
-    return { ...this.identity };
+    return copyIdentity(this.identity);
   }
 
   setIdentity(identity: Identity): void {
-    const originalIdentity = { ...this.identity };
-    this.identity = { ...identity };
+    const originalIdentity = this.identity;
+    this.identity = copyIdentity(identity);
     if (!isEqual(originalIdentity, this.identity)) {
       this.listeners.forEach((listener) => {
-        listener(identity);
+        listener(copyIdentity(identity));
       });
     }
   }
-- 
2.43.0


From 8a2bc330624d71300604a9b94107f75ed508bbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 10/61] fix: compare objects with a length property by their
 contents

---
 packages/analytics-connector/src/util/equals.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/analytics-connector/src/util/equals.ts b/packages/analytics-connector/src/util/equals.ts
index c8069f4..558275e 100644
--- a/packages/analytics-connector/src/util/equals.ts
+++ b/packages/analytics-connector/src/util/equals.ts
@@ -18,9 +18,6 @@ export const isEqual = (obj1: any, obj2: any): boolean => {
     return false;
   }
   // if got here - objects
-  if (obj1.length !== obj2.length) {
-    return false;
-  }
   //check if arrays
   const isArrayA = Array.isArray(obj1);
   const isArrayB = Array.isArray(obj2);
@@ -29,6 +26,9 @@ export const isEqual = (obj1: any, obj2: any): boolean => {
   }
   if (isArrayA && isArrayB) {
     //arrays
+    if (obj1.length !== obj2.length) {
+      return false;
+    }
     for (let i = 0; i < obj1.length; i++) {
       if (!isEqual(obj1[i], obj2[i])) {
         return false;
-- 
2.43.0


From ec038d2dbae79c8d734bd392b84bd5db958b173e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:31 +0000
Subject: [PATCH 11/61] fix: keep the whole value of cookies containing an
 equals sign

---
 packages/experiment-browser/src/providers/default.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/providers/default.ts b/packages/experiment-browser/src/providers/default.ts
index ca4ae5e..fd32450 100644
--- a/packages/experiment-browser/src/providers/default.ts
+++ b/packages/experiment-browser/src/providers/default.ts
@@ -80,7 +80,11 @@ export class DefaultUserProvider implements ExperimentUserProvider {
       return undefined;
     }
     return Object.fromEntries(
-      this.globalScope?.document?.cookie?.split('; ').map((c) => c.split('=')),
+      this.globalScope?.document?.cookie?.split('; ').map((c) => {
+        // The value may itself contain '=', e.g. if base64 encoded.
+        const [name, ...value] = c.split('=');
+        return [name, value.join('=')];
+      }),
     );
   }
 
-- 
2.43.0


From ac3cb6fc89749bc6df75e186e716460ce37756f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:24 +0000
Subject: [PATCH 12/61] fix: do not drop URL parameters if one is named like an
 Object method

---
 packages/experiment-browser/src/providers/default.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/providers/default.ts b/packages/experiment-browser/src/providers/default.ts
index fd32450..4f9e0dc 100644
--- a/packages/experiment-browser/src/providers/default.ts
+++ b/packages/experiment-browser/src/providers/default.ts
@@ -126,7 +126,8 @@ export class DefaultUserProvider implements ExperimentUserProvider {
       return undefined;
     }
 
-    const params: Record<string, string[]> = {};
+    // No prototype: a parameter may have the name of an Object method.
+    const params: Record<string, string[]> = Object.create(null);
 
     try {
       const url = new URL(this.globalScope.location.href);
-- 
2.43.0


From cdac498db45832a025f7922d9c9f30919e24ae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:00 +0000
Subject: [PATCH 13/61] fix: do not throw on malformed or inaccessible
 analytics cookies

---
 packages/experiment-browser/src/util/state.ts | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/packages/experiment-browser/src/util/state.ts b/packages/experiment-browser/src/util/state.ts
index c9a314f..4a740d2 100644
--- a/packages/experiment-browser/src/util/state.ts
+++ b/packages/experiment-browser/src/util/state.ts
@@ -16,22 +16,22 @@ export const parseAmplitudeCookie = (
   // Get the cookie value
   const key = generateKey(apiKey, newFormat);
   let value: string | undefined = undefined;
-  const document = getDocument();
-  if (!document) {
-    return;
-  }
-  const cookies = document.cookie.split('; ');
-  for (const cookie of cookies) {
-    const [cookieKey, cookieValue] = cookie.split('=', 2);
-    if (cookieKey === key) {
-      value = decodeURIComponent(cookieValue);
-    }
-  }
-  if (!value) {
-    return;
-  }
-  // Parse cookie value depending on format
   try {
+    const document = getDocument();
+    if (!document) {
+      return;
+    }
+    const cookies = document.cookie.split('; ');
+    for (const cookie of cookies) {
+      const [cookieKey, cookieValue] = cookie.split('=', 2);
+      if (cookieKey === key) {
+        value = decodeURIComponent(cookieValue);
+      }
+    }
+    if (!value) {
+      return;
+    }
+    // Parse cookie value depending on format
     // New format
     if (newFormat) {
       const decoding = atob(value);
-- 
2.43.0


From d49f99c91db45ebcfe1db0e8f8249eec281728c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:00 +0000
Subject: [PATCH 14/61] fix: keep false, zero and empty variant payloads

---
 packages/experiment-browser/src/storage/cache.ts | 3 ++-
 packages/experiment-browser/src/util/convert.ts  | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-browser/src/storage/cache.ts b/packages/experiment-browser/src/storage/cache.ts
index 0759d0e..d90eebc 100644
--- a/packages/experiment-browser/src/storage/cache.ts
+++ b/packages/experiment-browser/src/storage/cache.ts
@@ -2,6 +2,7 @@ import { EvaluationFlag, GetVariantsOptions } from '@amplitude/experiment-core';
 
 import { Storage } from '../types/storage';
 import { Variant } from '../types/variant';
+import { isNullOrUndefined } from '../util';
 
 import { LocalStorage } from './local-storage';
 
@@ -179,7 +180,7 @@ export const transformVariantFromStorage = (storageValue: unknown): Variant => {
     }
     if (value) variant.value = value;
     if (metadata) variant.metadata = metadata;
-    if (payload) variant.payload = payload;
+    if (!isNullOrUndefined(payload)) variant.payload = payload;
     if (experimentKey) variant.expKey = experimentKey;
     return variant;
   }
diff --git a/packages/experiment-browser/src/util/convert.ts b/packages/experiment-browser/src/util/convert.ts
index 8454649..e20d842 100644
--- a/packages/experiment-browser/src/util/convert.ts
+++ b/packages/experiment-browser/src/util/convert.ts
@@ -3,6 +3,8 @@ import { EvaluationVariant, getGlobalScope } from '@amplitude/experiment-core';
 import { ExperimentUser } from '../types/user';
 import { Variant } from '../types/variant';
 
+import { isNullOrUndefined } from './index';
+
 export const convertUserToContext = (
   user: ExperimentUser | undefined,
 ): Record<string, unknown> => {
@@ -72,7 +74,8 @@ export const convertEvaluationVariantToVariant = (
   if (evaluationVariant.key) variant.key = evaluationVariant.key;
   if (evaluationVariant.value)
     variant.value = evaluationVariant.value as string;
-  if (evaluationVariant.payload) variant.payload = evaluationVariant.payload;
+  if (!isNullOrUndefined(evaluationVariant.payload))
+    variant.payload = evaluationVariant.payload;
   if (experimentKey) variant.expKey = experimentKey;
   if (evaluationVariant.metadata) variant.metadata = evaluationVariant.metadata;
   return variant;
-- 
2.43.0


From 8146a811435a6bf13dff4c271d3448de961b9816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:00 +0000
Subject: [PATCH 15/61] fix: do not change the initial variants given by the
 caller

---
 packages/experiment-browser/src/experimentClient.ts | 5 ++++-
 packages/experiment-browser/src/storage/cache.ts    | 3 +--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 5b84fa4..b5c9d16 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -157,11 +157,14 @@ export class ExperimentClient implements Client {
     }, this.config.flagConfigPollingIntervalMillis);
     // Transform initialVariants
     if (this.config.initialVariants) {
+      // Do not change the object given by the caller, it may be frozen.
+      const initialVariants: Variants = {};
       for (const flagKey in this.config.initialVariants) {
-        this.config.initialVariants[flagKey] = transformVariantFromStorage(
+        initialVariants[flagKey] = transformVariantFromStorage(
           this.config.initialVariants[flagKey],
         );
       }
+      this.config.initialVariants = initialVariants;
     }
     if (this.config.userProvider) {
       this.userProvider = this.config.userProvider;
diff --git a/packages/experiment-browser/src/storage/cache.ts b/packages/experiment-browser/src/storage/cache.ts
index d90eebc..0d3054f 100644
--- a/packages/experiment-browser/src/storage/cache.ts
+++ b/packages/experiment-browser/src/storage/cache.ts
@@ -169,8 +169,7 @@ export const transformVariantFromStorage = (storageValue: unknown): Variant => {
     if (metadata && metadata.experimentKey) {
       experimentKey = metadata.experimentKey;
     } else if (experimentKey) {
-      metadata = metadata || {};
-      metadata['experimentKey'] = experimentKey;
+      metadata = { ...metadata, experimentKey };
     }
     const variant: Variant = {};
     if (key) {
-- 
2.43.0


From 44481369b49b8375df1bb047ebcea7777762814d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:32 +0000
Subject: [PATCH 16/61] fix: do not call optional methods an analytics provider
 does not have

---
 .../experiment-browser/src/util/sessionAnalyticsProvider.ts   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts b/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts
index 7de14ea..23e0919 100644
--- a/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts
+++ b/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts
@@ -36,7 +36,7 @@ export class SessionAnalyticsProvider implements ExperimentAnalyticsProvider {
     if (this.setProperties[event.key] == event.variant.value) {
       return;
     }
-    this.analyticsProvider.setUserProperty(event);
+    this.analyticsProvider.setUserProperty?.(event);
   }
 
   unsetUserProperty?(event: ExperimentAnalyticsEvent): void {
@@ -46,6 +46,6 @@ export class SessionAnalyticsProvider implements ExperimentAnalyticsProvider {
       this.unsetProperties[event.key] = 'unset';
       delete this.setProperties[event.key];
     }
-    this.analyticsProvider.unsetUserProperty(event);
+    this.analyticsProvider.unsetUserProperty?.(event);
   }
 }
-- 
2.43.0


From 067c42f509c4b15e036be6659fbebf00244482a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:57 +0000
Subject: [PATCH 17/61] fix: do not throw on unreadable segment identity in
 local storage

---
 packages/plugin-segment/src/plugin.ts | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/packages/plugin-segment/src/plugin.ts b/packages/plugin-segment/src/plugin.ts
index 8a9c410..d6aabd3 100644
--- a/packages/plugin-segment/src/plugin.ts
+++ b/packages/plugin-segment/src/plugin.ts
@@ -60,9 +60,14 @@ export const segmentIntegrationPlugin: SegmentIntegrationPlugin = (
         };
       }
       const get = (key: string) => {
-        const localStorage = getLocalStorage();
-        if (!localStorage) return undefined;
-        return JSON.parse(localStorage.getItem(key)) || undefined;
+        try {
+          const localStorage = getLocalStorage();
+          if (!localStorage) return undefined;
+          return JSON.parse(localStorage.getItem(key)) || undefined;
+        } catch (e) {
+          // Unreadable storage or a value which is not JSON.
+          return undefined;
+        }
       };
       return {
         user_id: get('ajs_user_id'),
-- 
2.43.0


From e5b3436b310e6ff8a9d90af19f93e652f1e854ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:06 +0000
Subject: [PATCH 18/61] fix: track events once segment is ready if set up with
 skipSetup

---
 packages/plugin-segment/src/plugin.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/plugin-segment/src/plugin.ts b/packages/plugin-segment/src/plugin.ts
index d6aabd3..bfe690f 100644
--- a/packages/plugin-segment/src/plugin.ts
+++ b/packages/plugin-segment/src/plugin.ts
@@ -83,6 +83,9 @@ export const segmentIntegrationPlugin: SegmentIntegrationPlugin = (
     },
   };
   if (options.skipSetup) {
+    // Do not wait for segment, but notice once it is ready: until then events
+    // are not tracked.
+    void plugin.setup(undefined, undefined);
     plugin.setup = undefined;
   }
 
-- 
2.43.0


From e2ca2763dc9fa870e414553196ace375d08d6461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 19/61] fix: drop impressions awaiting delivery when consent is
 withdrawn, even if it returns before the next retry

---
 .../src/consent/consent-impression-buffer.ts        | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/packages/experiment-tag/src/consent/consent-impression-buffer.ts b/packages/experiment-tag/src/consent/consent-impression-buffer.ts
index 918a36e..b7c2cb2 100644
--- a/packages/experiment-tag/src/consent/consent-impression-buffer.ts
+++ b/packages/experiment-tag/src/consent/consent-impression-buffer.ts
@@ -6,11 +6,7 @@ import type {
 
 import type { ImpressionBufferDebugInfo } from '../types/debug';
 
-import {
-  isConsentPending,
-  isConsentWithheld,
-  onConsentDecision,
-} from './consent-gate';
+import { consentGate, isConsentPending, isConsentWithheld } from './consent-gate';
 
 /** Matches the cap on the SDK's own PersistentTrackingQueue. */
 const MAX_BUFFERED_EVENTS = 512;
@@ -83,8 +79,11 @@ class ImpressionBuffer {
       return;
     }
     this.flushArmed = true;
-    onConsentDecision((granted) => {
-      if (granted) {
+    // Stays subscribed past the first decision: impressions the integration has
+    // not accepted yet outlive the grant, and a later refusal has to drop them
+    // even if consent returns before the next retry.
+    consentGate.manager.onChange((status) => {
+      if (status === 'granted') {
         this.flush();
       } else {
         this.discardBuffered();
-- 
2.43.0


From 98184c843c04a3602566ee252e8c1d5b5cf04359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 20/61] fix: do not touch cookies when consent is withdrawn
 while a gated cookie operation is in flight

---
 .../src/consent/consent-cookie-storage.ts            | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/packages/experiment-tag/src/consent/consent-cookie-storage.ts b/packages/experiment-tag/src/consent/consent-cookie-storage.ts
index 2c45419..73d1bd6 100644
--- a/packages/experiment-tag/src/consent/consent-cookie-storage.ts
+++ b/packages/experiment-tag/src/consent/consent-cookie-storage.ts
@@ -52,6 +52,10 @@ export class ConsentAwareCookieStorage<T> implements AsyncCookieStore<T> {
       return value === undefined ? undefined : snapshotValue(value);
     }
     await this.flush;
+    // Consent may have been withdrawn while this call was waiting.
+    if (isConsentWithheld()) {
+      return undefined;
+    }
     return this.delegate.get(key);
   }
 
@@ -64,6 +68,11 @@ export class ConsentAwareCookieStorage<T> implements AsyncCookieStore<T> {
       return;
     }
     await this.flush;
+    // Consent may have been withdrawn while this call was waiting; writing now
+    // would put back what the denial sweep just erased.
+    if (isConsentWithheld()) {
+      return;
+    }
     return this.delegate.set(key, value);
   }
 
@@ -97,6 +106,9 @@ export class ConsentAwareCookieStorage<T> implements AsyncCookieStore<T> {
           }
           try {
             const existing = await this.delegate.get(key);
+            if (consentGate.manager.getStatus() !== 'granted') {
+              return;
+            }
             const merged =
               typeof value === 'string'
                 ? (mergeIdentityCookieJson(
-- 
2.43.0


From f98d1353efce6a8b8fcfdf87b9f79c13fcbcbee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 21/61] fix: erase redirect loop-detection records when consent
 is refused

---
 packages/experiment-tag/src/consent/clear-data.ts | 13 +++++++++++--
 packages/experiment-tag/src/experiment.ts         |  6 ++++--
 packages/experiment-tag/src/util/storage-keys.ts  |  8 ++++++++
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/packages/experiment-tag/src/consent/clear-data.ts b/packages/experiment-tag/src/consent/clear-data.ts
index 62734bf..19e8aa4 100644
--- a/packages/experiment-tag/src/consent/clear-data.ts
+++ b/packages/experiment-tag/src/consent/clear-data.ts
@@ -8,7 +8,11 @@ import {
   writeRawCookie,
 } from '../util/cookie';
 import { removeStorageItem } from '../util/storage';
-import { identityCookieKey } from '../util/storage-keys';
+import {
+  identityCookieKey,
+  redirectMarkerKey,
+  redirectSuppressedKey,
+} from '../util/storage-keys';
 
 import { consentGate } from './consent-gate';
 
@@ -175,7 +179,12 @@ export const clearAllPersistedData = (
   for (const key of keys.localStorage) {
     removeStorageItem('localStorage', key);
   }
-  for (const key of keys.sessionStorage) {
+  for (const key of [
+    ...keys.sessionStorage,
+    // Redirect stick-detector state: URLs visited and flags suppressed.
+    redirectMarkerKey(apiKey),
+    redirectSuppressedKey(apiKey),
+  ]) {
     removeStorageItem('sessionStorage', key);
   }
 
diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 6ea4edf..8ade60d 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -85,6 +85,8 @@ import {
 import {
   identityCookieKey,
   PREVIEW_MODE_SESSION_KEY,
+  redirectMarkerKey,
+  redirectSuppressedKey,
 } from './util/storage-keys';
 import {
   getUrlParams,
@@ -1460,11 +1462,11 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   }
 
   private redirectMarkerStorageKey(): string {
-    return `EXP_${this.apiKey.slice(0, 10)}_REDIRECT_MARKER`;
+    return redirectMarkerKey(this.apiKey);
   }
 
   private redirectSuppressStorageKey(): string {
-    return `EXP_${this.apiKey.slice(0, 10)}_REDIRECT_SUPPRESSED`;
+    return redirectSuppressedKey(this.apiKey);
   }
 
   private getRedirectMarkers(): Record<string, RedirectMarker> {
diff --git a/packages/experiment-tag/src/util/storage-keys.ts b/packages/experiment-tag/src/util/storage-keys.ts
index e0fcc69..35628d2 100644
--- a/packages/experiment-tag/src/util/storage-keys.ts
+++ b/packages/experiment-tag/src/util/storage-keys.ts
@@ -11,6 +11,14 @@
 export const identityCookieKey = (apiKey: string): string =>
   `EXP_${apiKey.slice(0, 10)}_identity`;
 
+/** Last redirect fired per flag, for the redirect stick-detector. */
+export const redirectMarkerKey = (apiKey: string): string =>
+  `EXP_${apiKey.slice(0, 10)}_REDIRECT_MARKER`;
+
+/** Flags whose redirects are suppressed for the session. */
+export const redirectSuppressedKey = (apiKey: string): string =>
+  `EXP_${apiKey.slice(0, 10)}_REDIRECT_SUPPRESSED`;
+
 /** Preview mode's flag overrides, carried across the URL-param cleanup. */
 export const PREVIEW_MODE_SESSION_KEY = 'amp-preview-mode';
 
-- 
2.43.0


From 6493a91d28edf30e46232936729d413563ee8eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 22/61] fix: keep behavioral events from before or during a
 refusal off the device and the relay

---
 .../src/behavioral-targeting/event-storage.ts | 65 ++++++++++---------
 1 file changed, 35 insertions(+), 30 deletions(-)

diff --git a/packages/experiment-tag/src/behavioral-targeting/event-storage.ts b/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
index 157c2b1..9e13b2e 100644
--- a/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
+++ b/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
@@ -1,10 +1,6 @@
 import { getGlobalScope } from '@amplitude/experiment-core';
 
-import {
-  isConsentPending,
-  isConsentWithheld,
-  onConsentDecision,
-} from '../consent/consent-gate';
+import { consentGate, isConsentWithheld } from '../consent/consent-gate';
 import { getStorageItem, setStorageItem } from '../util/storage';
 
 import { RelayClient } from './relay-client';
@@ -92,10 +88,11 @@ export class EventStorageManager {
     // Load from localStorage into memory on initialization
     this.memoryCache = this.loadFromLocalStorage();
 
-    // Under pending the load above was gated to empty, so the cache no longer
-    // reflects the device. Arm the decision listener now — not on first write —
-    // so a grant reconciles the two even if it arrives before any event.
-    if (isConsentPending()) {
+    // Without consent the load above was gated to empty, so the cache no longer
+    // reflects the device; with it, consent may still be withdrawn. Arm the
+    // decision listener now — not on first write — so a grant reconciles the two
+    // even if it arrives before any event.
+    if (consentGate.required) {
       this.armConsentListener();
     }
 
@@ -143,7 +140,10 @@ export class EventStorageManager {
     // Trigger debounced write to localStorage
     this.scheduleDebouncedWrite();
 
-    this.relayClient?.writeEvent(event);
+    // The relay persists on the device too, so a refusal withholds it as well.
+    if (!isConsentWithheld()) {
+      this.relayClient?.writeEvent(event);
+    }
   }
 
   /**
@@ -157,7 +157,9 @@ export class EventStorageManager {
    * Flushes pending relay writes (e.g. on page unload).
    */
   flushRelay(): void {
-    this.relayClient?.flush();
+    if (!isConsentWithheld()) {
+      this.relayClient?.flush();
+    }
   }
 
   /**
@@ -411,36 +413,39 @@ export class EventStorageManager {
   }
 
   /**
-   * Settles the pending window on the consent decision. The gated load at
+   * Settles the cache on every consent decision. The gated load at
    * construction hid whatever an earlier consented visit stored, so a grant
    * folds the device store back into memory (uuid-dedup via `mergeFromRelay`)
    * and persists the union before any later write-through could replace it.
-   * Refusal drops the pending-window events so they cannot reach the device
-   * through a later re-grant.
+   * Refusal drops what was gathered before it, and a later re-grant what was
+   * gathered during it, so none of it can reach the device.
    */
   private armConsentListener(): void {
-    onConsentDecision((granted) => {
-      if (granted) {
-        const device = this.loadFromLocalStorage();
-        if (
-          device.events.length === 0 &&
-          this.memoryCache.events.length === 0
-        ) {
-          return;
-        }
-        this.mergeFromRelay(device);
-        this.flushToLocalStorage();
+    consentGate.manager.onChange((status, previousStatus) => {
+      if (previousStatus !== 'pending' || status !== 'granted') {
+        this.dropEvents();
+      }
+      if (status !== 'granted') {
         return;
       }
-      this.memoryCache = { events: [], nextId: 1 };
-      this.hasPendingWrites = false;
-      if (this.debouncedWriteTimeout) {
-        clearTimeout(this.debouncedWriteTimeout);
-        this.debouncedWriteTimeout = null;
+      const device = this.loadFromLocalStorage();
+      if (device.events.length === 0 && this.memoryCache.events.length === 0) {
+        return;
       }
+      this.mergeFromRelay(device);
+      this.flushToLocalStorage();
     });
   }
 
+  private dropEvents(): void {
+    this.memoryCache = { events: [], nextId: 1 };
+    this.hasPendingWrites = false;
+    if (this.debouncedWriteTimeout) {
+      clearTimeout(this.debouncedWriteTimeout);
+      this.debouncedWriteTimeout = null;
+    }
+  }
+
   /**
    * Sets up event handlers to flush data before page unload or when tab is hidden.
    * This prevents data loss on page close or backgrounding.
-- 
2.43.0


From ed04192b41f7f7456d5cecbebdc5ed1bd94b3b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 23/61] fix: wrap consent import as the formatter expects

---
 .../experiment-tag/src/consent/consent-impression-buffer.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/consent/consent-impression-buffer.ts b/packages/experiment-tag/src/consent/consent-impression-buffer.ts
index b7c2cb2..cd55772 100644
--- a/packages/experiment-tag/src/consent/consent-impression-buffer.ts
+++ b/packages/experiment-tag/src/consent/consent-impression-buffer.ts
@@ -6,7 +6,11 @@ import type {
 
 import type { ImpressionBufferDebugInfo } from '../types/debug';
 
-import { consentGate, isConsentPending, isConsentWithheld } from './consent-gate';
+import {
+  consentGate,
+  isConsentPending,
+  isConsentWithheld,
+} from './consent-gate';
 
 /** Matches the cap on the SDK's own PersistentTrackingQueue. */
 const MAX_BUFFERED_EVENTS = 512;
-- 
2.43.0


From 278a78c1e4287e1b921cffd5d151790ed7ca7280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 24/61] fix: share no behavioral events over the relay when
 consent is withdrawn during a sync

---
 .../src/behavioral-targeting/event-storage.ts        | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/behavioral-targeting/event-storage.ts b/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
index 9e13b2e..4df4258 100644
--- a/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
+++ b/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
@@ -199,7 +199,7 @@ export class EventStorageManager {
    */
   async syncFromRelay(relayClient?: RelayClient): Promise<boolean> {
     const relay = relayClient ?? this.relayClient;
-    if (!relay?.relayAvailable) {
+    if (!relay?.relayAvailable || isConsentWithheld()) {
       return false;
     }
 
@@ -209,6 +209,10 @@ export class EventStorageManager {
         return false;
       }
       const migrated = await relay.checkMigrated(origin);
+      // Consent may be withdrawn while any of these round trips is in flight.
+      if (isConsentWithheld()) {
+        return false;
+      }
 
       // First-time origins migrate their local store in bulk (one RPC). The
       // backfill below then reconciles anything the bulk push dropped.
@@ -219,7 +223,13 @@ export class EventStorageManager {
         });
       }
 
+      if (isConsentWithheld()) {
+        return false;
+      }
       const relayStore = await relay.readEvents();
+      if (isConsentWithheld()) {
+        return false;
+      }
 
       // Backfill any local events the relay is missing, regardless of migrated
       // state. Both MIGRATE_EVENTS and the store dedupe on uuid, so this is a
-- 
2.43.0


From e3b8cfc7ebfc664fa3358be87317f6e431b0f665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 25/61] fix: treat stored identity records that are not objects
 as absent

---
 packages/experiment-tag/src/experiment.ts | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 8ade60d..7777a7f 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -153,6 +153,12 @@ type StoredRedirectImpression = {
   metadata?: Record<string, unknown>;
 };
 
+// Stored values that are not an object are unusable and count as absent.
+const recordOrEmpty = <T extends object>(stored: T | null): T =>
+  stored && typeof stored === 'object' && !Array.isArray(stored)
+    ? stored
+    : ({} as T);
+
 const moduleScope = getGlobalScope();
 if (moduleScope) {
   moduleScope.Experiment = Experiment;
@@ -566,11 +572,9 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     );
 
     const experimentStorageName = `EXP_${this.apiKey.slice(0, 10)}`;
-    const user =
-      getStorageItem<WebExperimentUser>(
-        'localStorage',
-        experimentStorageName,
-      ) || {};
+    const user = recordOrEmpty(
+      getStorageItem<WebExperimentUser>('localStorage', experimentStorageName),
+    );
 
     // if web_exp_id does not exist:
     // 1. if device_id exists, migrate device_id to web_exp_id and remove device_id
@@ -596,11 +600,12 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     });
 
     const defaultUserProviderStorageKey = `${experimentStorageName}_DEFAULT_USER_PROVIDER`;
-    const defaultUserProviderData =
+    const defaultUserProviderData = recordOrEmpty(
       getStorageItem<{ first_seen?: string }>(
         'localStorage',
         defaultUserProviderStorageKey,
-      ) || {};
+      ),
+    );
 
     // web_exp_id is guaranteed above; seed v2 from it when no cookie/local v2 exists.
     const identity = await resolveCrossSubdomainObject(
-- 
2.43.0


From 4390387da0370a877b7d3a162304c054bc3fda32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:30 +0000
Subject: [PATCH 26/61] fix: treat IP addresses as hosts without cookie domain
 levels

---
 packages/experiment-tag/src/util/cookie.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/experiment-tag/src/util/cookie.ts b/packages/experiment-tag/src/util/cookie.ts
index 5940a35..dee4574 100644
--- a/packages/experiment-tag/src/util/cookie.ts
+++ b/packages/experiment-tag/src/util/cookie.ts
@@ -160,6 +160,7 @@ export function getCookieDomainLevels(hostname: string): string[] {
   const normalizedHostname = hostname.toLowerCase();
   const parts = normalizedHostname.split('.');
   if (parts.length <= 1) return [];
+  if (/^\d+(\.\d+){3}$/.test(normalizedHostname)) return [];
 
   const skipLevel = KNOWN_2LDS.some((tld) =>
     normalizedHostname.endsWith(`.${tld}`),
-- 
2.43.0


From 0b5ced0a96916cc252791de81ccf1e65d437fcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:40 +0000
Subject: [PATCH 27/61] fix: revert an injection when its scope is no longer
 active

---
 packages/experiment-tag/src/experiment.ts | 32 ++++++++++++++++++-----
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 7777a7f..4ffd9d7 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1705,19 +1705,17 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   private handleInject(action, flagKey: string, variant: Variant) {
     const variantKey = variant.key || '';
 
-    if (!this.isActionActiveOnPage(flagKey, action?.data?.scope)) {
-      this.appliedMutations[flagKey]?.[variantKey]?.[
-        INJECT_ACTION
-      ]?.[0]?.revert();
-      return;
-    }
     // Validate and transform ID
-    const rawId = action.data.id;
+    const rawId = action?.data?.id;
     if (!rawId || typeof rawId !== 'string' || rawId.length === 0) {
       return;
     }
     // Replace the `-` characters in the UUID to support function name
     const id = rawId.replace(/-/g, '');
+    if (!this.isActionActiveOnPage(flagKey, action.data.scope)) {
+      this.revertInjection(flagKey, variantKey, id);
+      return;
+    }
     // Check for repeat invocations
     if (this.appliedInjections.has(id)) {
       return;
@@ -1787,6 +1785,26 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     this.exposureWithDedupe(flagKey, variant);
   }
 
+  /** Revert an injection, if applied, and forget it so it can be re-applied. */
+  private revertInjection(flagKey: string, variantKey: string, id: string) {
+    const typeMap = this.appliedMutations[flagKey]?.[variantKey];
+    const injections = typeMap?.[INJECT_ACTION];
+    if (!injections?.[id]) {
+      return;
+    }
+    injections[id].revert();
+    delete injections[id];
+    if (Object.keys(injections).length === 0) {
+      delete typeMap[INJECT_ACTION];
+    }
+    if (Object.keys(typeMap).length === 0) {
+      delete this.appliedMutations[flagKey][variantKey];
+    }
+    if (Object.keys(this.appliedMutations[flagKey]).length === 0) {
+      delete this.appliedMutations[flagKey];
+    }
+  }
+
   private exposureWithDedupe(
     key: string,
     variant: Variant,
-- 
2.43.0


From d2a59a475c5f3c8284f64e95ed41d334676cd945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:04 +0000
Subject: [PATCH 28/61] fix: apply the mutations of every mutate action of a
 variant

---
 packages/experiment-tag/src/experiment.ts | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 4ffd9d7..785bb8f 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1306,11 +1306,14 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   }
 
   private async handleVariantAction(key: string, variant: Variant) {
+    // Mutations are tracked by their position over all actions of the variant.
+    let mutationOffset = 0;
     for (const action of variant.payload) {
       if (action.action === REDIRECT_ACTION) {
         await this.handleRedirect(action, key, variant);
       } else if (action.action === MUTATE_ACTION) {
-        this.handleMutate(action, key, variant);
+        this.handleMutate(action, key, variant, mutationOffset);
+        mutationOffset += action.data?.mutations?.length ?? 0;
       } else if (action.action === INJECT_ACTION) {
         this.handleInject(action, key, variant);
       }
@@ -1640,7 +1643,12 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     }
   }
 
-  private handleMutate(action, flagKey: string, variant: Variant) {
+  private handleMutate(
+    action,
+    flagKey: string,
+    variant: Variant,
+    mutationOffset = 0,
+  ) {
     const mutations = action.data?.mutations || [];
     const variantKey = variant.key || '';
 
@@ -1650,7 +1658,8 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
 
     const mutationControllers: Record<number, MutationController> = {};
 
-    mutations.forEach((m, index) => {
+    mutations.forEach((m, position) => {
+      const index = mutationOffset + position;
       // Check if mutation is scoped to page
       if (!this.isActionActiveOnPage(flagKey, m?.metadata?.scope)) {
         // Revert and delete the mutation if it exists
-- 
2.43.0


From 54a4dffd820c4537a9fce0af21ad08a56feb328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:05 +0000
Subject: [PATCH 29/61] fix: encode redirect impressions with non-Latin1 text
 in the redirect URL

---
 packages/experiment-tag/src/experiment.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 785bb8f..b445ea3 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1419,7 +1419,13 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       };
       targetUrlObj.searchParams.set(
         REDIRECT_IMPRESSION_PARAM,
-        btoa(JSON.stringify(urlPayload)),
+        // btoa only takes Latin1, so escape everything beyond ASCII
+        btoa(
+          JSON.stringify(urlPayload).replace(
+            /[\u0080-\uffff]/g,
+            (c) => '\\u' + c.charCodeAt(0).toString(16).padStart(4, '0'),
+          ),
+        ),
       );
       targetUrl = targetUrlObj.toString();
     }
-- 
2.43.0


From 88acc0cbc7aaca9c43ddad14a6d68c134a0de4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 30/61] fix: apply other experiments and mutations when one of
 them fails

---
 packages/experiment-tag/src/experiment.ts | 30 ++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index b445ea3..15bbcae 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -860,7 +860,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
         }
 
         if (payloadIsArray) {
-          await this.handleVariantAction(key, variant);
+          await this.tryVariantAction(key, variant);
         }
       }
     }
@@ -930,7 +930,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
         }
         continue;
       }
-      await this.handleVariantAction(key, variantObject);
+      await this.tryVariantAction(key, variantObject);
     }
   }
 
@@ -1305,6 +1305,23 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     }
   }
 
+  /**
+   * Apply the actions of a variant. An action which fails (e.g. an unusable
+   * redirect URL) must not keep other experiments from being applied.
+   */
+  private async tryVariantAction(key: string, variant: Variant) {
+    try {
+      await this.handleVariantAction(key, variant);
+    } catch (e) {
+      console.error(
+        `Experiment action failed for ${key} variant ${
+          variant.key ?? ''
+        }. Reason:`,
+        e,
+      );
+    }
+  }
+
   private async handleVariantAction(key: string, variant: Variant) {
     // Mutations are tracked by their position over all actions of the variant.
     let mutationOffset = 0;
@@ -1689,7 +1706,14 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
           ]
         ) {
           // Apply mutation
-          mutationControllers[index] = mutate.declarative(m);
+          try {
+            mutationControllers[index] = mutate.declarative(m);
+          } catch (e) {
+            console.error(
+              `Experiment mutation failed for ${flagKey} variant ${variantKey}. Reason:`,
+              e,
+            );
+          }
         }
       }
     });
-- 
2.43.0


From 9b32d9601e117e885ada6d8c5a71841e3f51edb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 31/61] fix: track stored redirect impressions once and keep
 newer ones

---
 packages/experiment-tag/src/experiment.ts | 63 +++++++++++++++++++----
 1 file changed, 54 insertions(+), 9 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 15bbcae..fc73675 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -290,6 +290,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       };
     };
   } = {};
+  private scheduledRedirectImpressions: Set<string> = new Set();
   private previousUrl: string | undefined = undefined;
   // Cache to track exposure for the current URL, should be cleared on URL change
   private urlExposureCache: {
@@ -2001,6 +2002,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       >({
         ...(domain && { domain }),
         sameSite: 'Lax',
+        expirationDays: 1 / 1440, // 1 minute
       });
       try {
         cookieImpressions = (await cookieStorage.get(storageKey)) || {};
@@ -2027,6 +2029,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       this.globalScope.location.href,
     );
 
+    const fired: string[] = [];
     for (const flagKey in merged) {
       const { redirectUrl, variantKey, expKey, metadata } = merged[flagKey];
       if (matchesUrl([currentUrl], urlWithoutParamsAndAnchor(redirectUrl))) {
@@ -2035,26 +2038,70 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
           { key: variantKey, expKey, metadata },
           true,
         );
+        fired.push(flagKey);
+        this.scheduledRedirectImpressions.delete(flagKey);
         delete merged[flagKey];
       }
     }
 
-    const cleanup = async () => {
-      removeStorageItem('sessionStorage', storageKey);
+    // Forget the impressions which were tracked, and only those: others may be
+    // stored by a redirect in the meantime.
+    const without = (
+      stored: Record<string, StoredRedirectImpression>,
+      flagKeys: string[],
+    ) =>
+      Object.fromEntries(
+        Object.entries(stored).filter(([key]) => !flagKeys.includes(key)),
+      );
+    const cleanup = async (flagKeys: string[]) => {
+      const inSession = without(
+        getStorageItem<Record<string, StoredRedirectImpression>>(
+          'sessionStorage',
+          storageKey,
+        ) || {},
+        flagKeys,
+      );
+      if (Object.keys(inSession).length > 0) {
+        setStorageItem('sessionStorage', storageKey, inSession);
+      } else {
+        removeStorageItem('sessionStorage', storageKey);
+      }
       if (cookieStorage) {
-        await cookieStorage.remove(storageKey).catch((error) => {
+        try {
+          const inCookie = without(
+            (await cookieStorage.get(storageKey)) || {},
+            flagKeys,
+          );
+          if (Object.keys(inCookie).length > 0) {
+            await cookieStorage.set(storageKey, inCookie);
+          } else {
+            await cookieStorage.remove(storageKey);
+          }
+        } catch (error) {
           console.error(
             `Failed to remove redirect impressions from cookie ${storageKey}:`,
             error,
           );
-        });
+        }
       }
     };
 
-    if (Object.keys(merged).length > 0) {
+    if (fired.length > 0) {
+      await cleanup(fired);
+    }
+    // Schedule each impression only once, however often they are looked at
+    // before they are due.
+    const scheduled = Object.keys(merged).filter(
+      (flagKey) => !this.scheduledRedirectImpressions.has(flagKey),
+    );
+    if (scheduled.length > 0) {
+      scheduled.forEach((key) => this.scheduledRedirectImpressions.add(key));
       this.globalScope.setTimeout(() => {
         void (async () => {
-          for (const flagKey in merged) {
+          for (const flagKey of scheduled) {
+            if (!this.scheduledRedirectImpressions.delete(flagKey)) {
+              continue;
+            }
             const { variantKey, expKey, metadata } = merged[flagKey];
             this.exposureWithDedupe(
               flagKey,
@@ -2062,11 +2109,9 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
               true,
             );
           }
-          await cleanup();
+          await cleanup(scheduled);
         })();
       }, 500);
-    } else {
-      await cleanup();
     }
   }
 
-- 
2.43.0


From 32afbc91f48d1cdf0f82de72b0fa36df89c98a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:43 +0000
Subject: [PATCH 32/61] fix: fire every user interaction trigger whose selector
 matches

---
 packages/experiment-tag/src/subscriptions/subscriptions.ts | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index 73d8375..16bacbf 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -966,7 +966,6 @@ export class SubscriptionManager {
                 fireTrigger();
               }
             }
-            break;
           }
         } catch (e) {
           // Invalid selector, skip
@@ -1036,7 +1035,6 @@ export class SubscriptionManager {
                 }
               }
             }
-            break;
           }
         } catch (e) {
           // Invalid selector, skip
@@ -1068,7 +1066,6 @@ export class SubscriptionManager {
                 config.timeoutStorage.delete(matchedAncestor);
               }
             }
-            break;
           }
         } catch (e) {
           // Invalid selector, skip
-- 
2.43.0


From 66b8506407ee156ff41f0d1c904d134646dae405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 33/61] fix: do not fire element_visible for an element outside
 of the viewport

---
 packages/experiment-tag/src/subscriptions/subscriptions.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index 16bacbf..5628ef9 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -716,7 +716,9 @@ export class SubscriptionManager {
           const observer = new IntersectionObserver(
             (entries) => {
               entries.forEach((entry) => {
-                const isVisible = entry.intersectionRatio >= visibilityRatio;
+                const isVisible =
+                  entry.isIntersecting !== false &&
+                  entry.intersectionRatio >= visibilityRatio;
 
                 // Update visibility state
                 this.elementVisibilityState.set(observerKey, isVisible);
-- 
2.43.0


From f356e79754e316428218feb1558e76597db686ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:46 +0000
Subject: [PATCH 34/61] fix: notice page and behavior changes while variants
 are being applied

---
 .../src/subscriptions/subscriptions.ts        | 27 ++++++++++---------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index 5628ef9..55215d6 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -406,9 +406,22 @@ export class SubscriptionManager {
               activeBehavioralFlags,
               this.lastNotifiedActiveBehavioralFlags,
             );
+          const lastNotifiedFlags = this.lastNotifiedActiveBehavioralFlags;
           if (behaviorsChanged) {
             this.webExperimentClient.updateUserWithBehaviors();
           }
+          // Remember what is being handled before anything asynchronous, so that
+          // a change during that time is noticed.
+          if (pagesChanged) {
+            this.lastNotifiedActivePages = clonePageObjects(activePages);
+          }
+          if (behaviorsChanged) {
+            this.lastNotifiedActiveBehavioralFlags = new Map(
+              Array.from(activeBehavioralFlags?.entries() || []).map(
+                ([key, value]) => [key, new Set(value)],
+              ),
+            );
+          }
           // Skip processing in visual editor mode or internal updates
           const isInternalUpdate =
             'updateActivePages' in payload && payload.updateActivePages;
@@ -432,9 +445,7 @@ export class SubscriptionManager {
                 ? Array.from(
                     new Set([
                       ...Array.from(activeBehavioralFlags?.keys() || []),
-                      ...Array.from(
-                        this.lastNotifiedActiveBehavioralFlags?.keys() || [],
-                      ),
+                      ...Array.from(lastNotifiedFlags.keys()),
                     ]),
                   )
                 : [];
@@ -468,7 +479,6 @@ export class SubscriptionManager {
 
           // Notify subscribers if pages actually changed
           if (pagesChanged) {
-            this.lastNotifiedActivePages = clonePageObjects(activePages);
             for (const subscriber of this.pageChangeSubscribers) {
               subscriber({ activePages });
             }
@@ -479,15 +489,6 @@ export class SubscriptionManager {
           if (pagesChanged || isUrlChange) {
             this.scheduleDebugNotification();
           }
-
-          // Update last notified behaviors if they changed
-          if (behaviorsChanged && activeBehavioralFlags) {
-            this.lastNotifiedActiveBehavioralFlags = new Map(
-              Array.from(activeBehavioralFlags.entries()).map(
-                ([key, value]) => [key, new Set(value)],
-              ),
-            );
-          }
         })();
       });
     }
-- 
2.43.0


From 3d3ca70ac779283a8d45aa2cfeb53a0159121316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 35/61] fix: notice behaviors which no longer match after a
 navigation or sync

---
 packages/experiment-tag/src/experiment.ts       |  1 +
 .../src/subscriptions/subscriptions.ts          | 17 +++++++++++------
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index fc73675..3eed268 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1061,6 +1061,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     }
 
     this.updateUserWithBehaviors();
+    this.subscriptionManager?.markBehaviorsAsNotified();
 
     // Exclude previewed flags: their variants are forced and must not be
     // re-applied/re-fetched here (also avoids a pointless fetchRemoteFlags when
diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index 55215d6..0472862 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -116,8 +116,18 @@ export class SubscriptionManager {
     this.behavioralTargetingManager = behavioralTargetingManager;
     this.options = options;
     this.globalScope = globalScope;
+    this.markBehaviorsAsNotified();
   }
 
+  /** The user has been updated with the behaviors matched at this moment. */
+  public markBehaviorsAsNotified = () => {
+    this.lastNotifiedActiveBehavioralFlags = new Map(
+      Array.from(
+        this.behavioralTargetingManager?.getMatchedBehaviors() ?? [],
+      ).map(([key, value]) => [key, new Set(value)]),
+    );
+  };
+
   public setPageObjects = (pageObjects: PageObjects) => {
     this.pageObjects = pageObjects;
   };
@@ -416,11 +426,7 @@ export class SubscriptionManager {
             this.lastNotifiedActivePages = clonePageObjects(activePages);
           }
           if (behaviorsChanged) {
-            this.lastNotifiedActiveBehavioralFlags = new Map(
-              Array.from(activeBehavioralFlags?.entries() || []).map(
-                ([key, value]) => [key, new Set(value)],
-              ),
-            );
+            this.markBehaviorsAsNotified();
           }
           // Skip processing in visual editor mode or internal updates
           const isInternalUpdate =
@@ -514,7 +520,6 @@ export class SubscriptionManager {
     this.maxScrollPercentage = 0;
     this.pageLoadTime = Date.now();
     this.analyticsEventState.clear();
-    this.lastNotifiedActiveBehavioralFlags = new Map();
 
     // Clear pending click timeouts
     for (const timeout of this.clickTimeouts.values()) {
-- 
2.43.0


From d542a445c9f6a8c6e2ec643bbf4ec31f5fcc2665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:34 +0000
Subject: [PATCH 36/61] fix: cancel pending hover and focus triggers on
 navigation

---
 .../src/subscriptions/subscriptions.ts              | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index 0472862..a650c8c 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -88,6 +88,9 @@ export class SubscriptionManager {
     Element,
     Map<string, ReturnType<typeof setTimeout>>
   > = new WeakMap();
+  // Those of the above with pending hover or focus timeouts
+  private pendingTimeoutMaps: Set<Map<string, ReturnType<typeof setTimeout>>> =
+    new Set();
   private userInteractionAbortController: AbortController | null = null;
   private pageLoadTime: number = Number.POSITIVE_INFINITY;
   private lastPublishedUrl: string | null = null;
@@ -526,6 +529,14 @@ export class SubscriptionManager {
       this.globalScope.clearTimeout(timeout);
     }
     this.clickTimeouts.clear();
+    // Clear pending hover and focus timeouts
+    for (const timeoutMap of this.pendingTimeoutMaps) {
+      for (const timeout of timeoutMap.values()) {
+        this.globalScope.clearTimeout(timeout);
+      }
+      timeoutMap.clear();
+    }
+    this.pendingTimeoutMaps.clear();
 
     // Deactivate all non-url_change pages since their trigger states were reset
     for (const [experiment, pages] of Object.entries(this.pageObjects)) {
@@ -1038,6 +1049,7 @@ export class SubscriptionManager {
                     minThresholdMs,
                   );
                   timeoutMap.set(timeoutKey, timeout);
+                  this.pendingTimeoutMaps.add(timeoutMap);
                 } else {
                   fireTrigger();
                 }
@@ -1072,6 +1084,7 @@ export class SubscriptionManager {
                   this.globalScope.clearTimeout(timeout);
                 }
                 config.timeoutStorage.delete(matchedAncestor);
+                this.pendingTimeoutMaps.delete(timeoutMap);
               }
             }
           }
-- 
2.43.0


From 7a0b7035a018a7ce6712b4d616a351600ba9d8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 37/61] fix: schedule redirect impressions before forgetting
 those already tracked

---
 packages/experiment-tag/src/experiment.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 3eed268..a015679 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -2087,9 +2087,6 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       }
     };
 
-    if (fired.length > 0) {
-      await cleanup(fired);
-    }
     // Schedule each impression only once, however often they are looked at
     // before they are due.
     const scheduled = Object.keys(merged).filter(
@@ -2114,6 +2111,9 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
         })();
       }, 500);
     }
+    if (fired.length > 0) {
+      await cleanup(fired);
+    }
   }
 
   private setupPreviewMode(urlParams: Record<string, string>) {
-- 
2.43.0


From 4bc661f0a547cc41153175317dcbbd4ce5c4c1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:14 +0000
Subject: [PATCH 38/61] fix: count time on page only while the tab is visible

---
 .../src/subscriptions/subscriptions.ts        | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index a650c8c..c009c56 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -76,8 +76,11 @@ export class SubscriptionManager {
   private scrolledToElementState: Map<string, boolean> = new Map();
   private analyticsEventState: Set<string> = new Set();
   private maxScrollPercentage = 0;
-  private timeOnPageTimeouts: Record<number, ReturnType<typeof setTimeout>> =
-    {};
+  // Undefined for durations which wait for the tab to become visible
+  private timeOnPageTimeouts: Record<
+    number,
+    ReturnType<typeof setTimeout> | undefined
+  > = {};
   private firedUserInteractions: Set<string> = new Set();
   private clickTimeouts: Map<string, ReturnType<typeof setTimeout>> = new Map();
   private hoverTimeouts: WeakMap<
@@ -1150,11 +1153,16 @@ export class SubscriptionManager {
   };
 
   private setUpTimeouts = (durations: Set<number>) => {
+    // Time only counts while the tab is visible
+    const hidden = this.globalScope.document.hidden;
     durations.forEach((durationMs) => {
-      this.timeOnPageTimeouts[durationMs] = this.globalScope.setTimeout(() => {
-        this.messageBus.publish('time_on_page', { durationMs });
-        delete this.timeOnPageTimeouts[durationMs];
-      }, durationMs);
+      clearTimeout(this.timeOnPageTimeouts[durationMs]);
+      this.timeOnPageTimeouts[durationMs] = hidden
+        ? undefined
+        : this.globalScope.setTimeout(() => {
+            this.messageBus.publish('time_on_page', { durationMs });
+            delete this.timeOnPageTimeouts[durationMs];
+          }, durationMs);
     });
   };
 
-- 
2.43.0


From 8d0aa19b65a87c83c89ffea7099c9b7c96478a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:15 +0000
Subject: [PATCH 39/61] fix: keep an element_visible page active until
 navigation

---
 packages/experiment-tag/src/subscriptions/subscriptions.ts | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index c009c56..f14a358 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -740,12 +740,11 @@ export class SubscriptionManager {
                   entry.isIntersecting !== false &&
                   entry.intersectionRatio >= visibilityRatio;
 
-                // Update visibility state
-                this.elementVisibilityState.set(observerKey, isVisible);
-
                 // Publish event when element becomes visible
-                // Observer continues running; state check prevents duplicate firing
+                // Observer continues running; the state is kept until navigation,
+                // as otherwise another element becoming visible would end it
                 if (isVisible) {
+                  this.elementVisibilityState.set(observerKey, true);
                   this.messageBus.publish('element_visible');
                 }
               });
-- 
2.43.0


From d71bfd224c17cbb427f21e9958b32f7e2b2fb972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:15 +0000
Subject: [PATCH 40/61] fix: observe elements anew after navigation for
 visibility and scroll triggers

---
 packages/experiment-tag/src/subscriptions/subscriptions.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index f14a358..11b6532 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -552,6 +552,11 @@ export class SubscriptionManager {
 
     this.setupTimeOnPagePublisher();
 
+    // Observers only report elements they already observe once these move, so
+    // let the initial check below observe the elements of the new page anew.
+    this.intersectionObservers.forEach((observer) => observer.disconnect());
+    this.scrolledToObservers.forEach((observer) => observer.disconnect());
+
     // Trigger initial check for elements that already exist on new page
     this.checkInitialElements();
   };
-- 
2.43.0


From 65a318f1c272614c32ae4685f89fcfeaebe50d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:16 +0000
Subject: [PATCH 41/61] fix: cancel pending hover and focus triggers of all
 elements left

---
 .../experiment-tag/src/subscriptions/subscriptions.ts    | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index 11b6532..f9795c8 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -1079,8 +1079,13 @@ export class SubscriptionManager {
 
       for (const [selector] of selectors) {
         try {
-          const matchedAncestor = target.closest(selector);
-          if (matchedAncestor) {
+          // Elements matching the same selector may be nested
+          for (
+            let matchedAncestor = target.closest(selector);
+            matchedAncestor;
+            matchedAncestor =
+              matchedAncestor.parentElement?.closest(selector) ?? null
+          ) {
             // Only clear timeouts if we're actually leaving the matched ancestor
             // (not just moving to a child element)
             if (!relatedTarget || !matchedAncestor.contains(relatedTarget)) {
-- 
2.43.0


From e946b3cc32135027ac11c9c84df33bf60c00d16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:38 +0000
Subject: [PATCH 42/61] fix: set up the visual editor messenger once in preview
 mode

---
 packages/experiment-tag/src/experiment.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index a015679..9e10990 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -2140,8 +2140,11 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
           previewParamsToRemove,
         ),
       );
-      // if in preview mode, listen for ForceVariant messages
-      WindowMessenger.setup();
+      // if in preview mode, listen for ForceVariant messages. In visual editor
+      // mode start() sets up the messenger, which must happen only once.
+      if (!this.isVisualEditorMode) {
+        WindowMessenger.setup();
+      }
     } else {
       const previewState: PreviewState | null = getStorageItem(
         'sessionStorage',
-- 
2.43.0


From f5fd02f96f4a88fe0d070633e6557f949ef0cbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:45 +0000
Subject: [PATCH 43/61] fix: count only insertions in the rate limit of
 insertElement

---
 packages/experiment-tag/src/util/inject-utils.ts | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/packages/experiment-tag/src/util/inject-utils.ts b/packages/experiment-tag/src/util/inject-utils.ts
index 500d5a7..d3d2323 100644
--- a/packages/experiment-tag/src/util/inject-utils.ts
+++ b/packages/experiment-tag/src/util/inject-utils.ts
@@ -102,12 +102,6 @@ export const getInjectUtils = (state: { cancelled: boolean }): InjectUtils =>
             return; // element was already inserted
           }
 
-          if (rateLimit >= 10) {
-            return;
-          }
-          rateLimit++;
-          setTimeout(() => rateLimit--, 1000);
-
           const parent = document.querySelector(options.parentSelector);
           if (!parent) {
             return;
@@ -121,6 +115,13 @@ export const getInjectUtils = (state: { cancelled: boolean }): InjectUtils =>
             return;
           }
 
+          // limit insertions only, so that lookups while waiting do not use it up
+          if (rateLimit >= 10) {
+            return;
+          }
+          rateLimit++;
+          setTimeout(() => rateLimit--, 1000);
+
           pauseGlobalObserver();
           parent.insertBefore(element, sibling);
           resumeGlobalObserver();
-- 
2.43.0


From fa62907504b5c3824ec806233fbea43413ce96d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:35 +0000
Subject: [PATCH 44/61] fix: start normally with a damaged stored preview state

---
 packages/experiment-tag/src/experiment.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 9e10990..4bff92a 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -2151,7 +2151,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
         PREVIEW_MODE_SESSION_KEY,
       );
       if (previewState) {
-        this.previewFlags = previewState.previewFlags;
+        this.previewFlags = recordOrEmpty(previewState.previewFlags);
       }
     }
 
-- 
2.43.0


From f7a05317c47603eee7998f9bef15e7f0d7a0d8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:53 +0000
Subject: [PATCH 45/61] fix: show the preview modal once for several previewed
 flags

---
 packages/experiment-tag/src/preview/preview.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/preview/preview.ts b/packages/experiment-tag/src/preview/preview.ts
index dfa17f9..dbb1c62 100644
--- a/packages/experiment-tag/src/preview/preview.ts
+++ b/packages/experiment-tag/src/preview/preview.ts
@@ -105,7 +105,12 @@ export class PreviewModeModal {
 
     this.injectStyles();
     requestAnimationFrame(() => {
-      if (this.modal && document.body) {
+      // Re-check, several previewed flags show their modal at the same time.
+      if (
+        this.modal &&
+        document.body &&
+        !document.getElementById('amp-preview-modal')
+      ) {
         document.body.appendChild(this.modal);
       }
     });
-- 
2.43.0


From 0c4d77d8245501889501032abad3bec5a3ba2af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:33 +0000
Subject: [PATCH 46/61] fix: apply local experiments whose variant depends on
 the user at start

---
 packages/experiment-tag/src/experiment.ts | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 4bff92a..aa45af5 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -423,10 +423,19 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     // their remote dependencies must be fetched first or mutex/holdout bucketing
     // will run against stale parent-flag state and assign the wrong variant.
     const variants = this.experimentClient.all();
-    this.localFlagKeys = Object.keys(variants).filter(
-      (key) =>
-        variants[key]?.metadata?.evaluationMode === 'local' &&
-        !transitivelyPromotedKeys.has(key),
+    // Include locally evaluated flags without a variant: they may have one once
+    // the user is known.
+    this.localFlagKeys = Array.from(
+      new Set([
+        ...Object.keys(variants).filter(
+          (key) =>
+            variants[key]?.metadata?.evaluationMode === 'local' &&
+            !transitivelyPromotedKeys.has(key),
+        ),
+        ...this.initialFlags
+          .map((flag: EvaluationFlag) => flag.key)
+          .filter((key) => !this.remoteFlagKeys.includes(key)),
+      ]),
     );
     this.messageBus = new MessageBus();
   }
-- 
2.43.0


From e3bff469f0bb7b382c60f0392fa494ae7d78765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:48 +0000
Subject: [PATCH 47/61] fix: fetch preview configs from the zone of the
 effective config

---
 packages/experiment-tag/src/index.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/index.ts b/packages/experiment-tag/src/index.ts
index a815cf2..cf2b43e 100644
--- a/packages/experiment-tag/src/index.ts
+++ b/packages/experiment-tag/src/index.ts
@@ -163,7 +163,8 @@ const launchClient = (
     // to startClient so it stays gated on isRedirecting — a redirect experiment
     // surfaced in preview mode must keep the overlay up while navigation is
     // in-flight, just like the normal path.
-    fetchLatestConfigs(apiKey, config.serverZone)
+    const { serverZone } = mergeWithWindowConfig(config, globalScope);
+    fetchLatestConfigs(apiKey, serverZone)
       .then((previewState) => {
         const initialFlags = JSON.stringify(previewState.flags);
         const pageObjects = JSON.stringify(previewState.pageViewObjects);
-- 
2.43.0


From fe786ea5914bc18fa884f2be720019d247440e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:58 +0000
Subject: [PATCH 48/61] fix: compare the tag's server zone without regard to
 case

---
 .../experiment-tag/src/behavioral-targeting/relay-client.ts   | 4 +++-
 packages/experiment-tag/src/index.ts                          | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-tag/src/behavioral-targeting/relay-client.ts b/packages/experiment-tag/src/behavioral-targeting/relay-client.ts
index fceb291..f547d78 100644
--- a/packages/experiment-tag/src/behavioral-targeting/relay-client.ts
+++ b/packages/experiment-tag/src/behavioral-targeting/relay-client.ts
@@ -22,7 +22,9 @@ export function getRelayUrl(
     return `${relayUrl.replace(/\/+$/, '')}/script/${apiKey}.relay.html`;
   }
   const cdnHost =
-    serverZone === 'EU' ? 'cdn.eu.amplitude.com' : 'cdn.amplitude.com';
+    serverZone?.toLowerCase() === 'eu'
+      ? 'cdn.eu.amplitude.com'
+      : 'cdn.amplitude.com';
   return `https://${cdnHost}/script/${apiKey}.relay.html`;
 }
 
diff --git a/packages/experiment-tag/src/index.ts b/packages/experiment-tag/src/index.ts
index cf2b43e..b03a703 100644
--- a/packages/experiment-tag/src/index.ts
+++ b/packages/experiment-tag/src/index.ts
@@ -214,7 +214,7 @@ const startClient = (
 
 const fetchLatestConfigs = async (apiKey: string, serverZone?: string) => {
   const serverUrl =
-    serverZone === 'EU'
+    serverZone?.toLowerCase() === 'eu'
       ? 'https://api.lab.eu.amplitude.com'
       : 'https://api.lab.amplitude.com';
   const api = new SdkPreviewApi(apiKey, serverUrl, HttpClient);
-- 
2.43.0


From b814d16ded943c40aa2a68dd63c1008522000a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:53 +0000
Subject: [PATCH 49/61] fix: clean the editor's address before its mobile frame
 loads it

---
 packages/experiment-tag/src/experiment.ts | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index aa45af5..621a2e3 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -538,14 +538,8 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       }
       DebugRecorder.push('opener_check', 'PASS');
 
-      if (isMobileModeActive()) {
-        // In mobile mode, build the shell first and load the overlay after.
-        // The overlay must render into the already-built shell to avoid a
-        // race where buildShell restructures the DOM while the overlay's
-        // React 18 concurrent render is in-flight.
-        await buildShell(this.globalScope);
-      }
-      WindowMessenger.setup();
+      // Before the shell is built: its frame loads the address of this page, and
+      // would bring the parameter back.
       this.globalScope.history.replaceState(
         {},
         '',
@@ -557,6 +551,15 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
         'url_param_removed',
         `cleaned URL: ${this.globalScope.location.href}`,
       );
+
+      if (isMobileModeActive()) {
+        // In mobile mode, build the shell first and load the overlay after.
+        // The overlay must render into the already-built shell to avoid a
+        // race where buildShell restructures the DOM while the overlay's
+        // React 18 concurrent render is in-flight.
+        await buildShell(this.globalScope);
+      }
+      WindowMessenger.setup();
       // fire url_change upon landing on page, set updateActivePagesOnly to not trigger variant actions
       this.subscriptionManager.markUrlAsPublished(
         this.globalScope.location.href,
-- 
2.43.0


From 0dc3b56b4f9e918e311164a83cceed5f0a6cf0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:08 +0000
Subject: [PATCH 50/61] fix: ignore flag dependencies named like members of
 Object

---
 packages/experiment-core/src/evaluation/topological-sort.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-core/src/evaluation/topological-sort.ts b/packages/experiment-core/src/evaluation/topological-sort.ts
index 7003320..7059dc1 100644
--- a/packages/experiment-core/src/evaluation/topological-sort.ts
+++ b/packages/experiment-core/src/evaluation/topological-sort.ts
@@ -4,7 +4,11 @@ export const topologicalSort = (
   flags: Record<string, EvaluationFlag>,
   flagKeys?: string[],
 ): EvaluationFlag[] => {
-  const available: Record<string, EvaluationFlag> = { ...flags };
+  // Without a prototype, so that only keys of flags are found.
+  const available: Record<string, EvaluationFlag> = Object.assign(
+    Object.create(null),
+    flags,
+  );
   const result: EvaluationFlag[] = [];
   const startingKeys = flagKeys || Object.keys(available);
   for (const flagKey of startingKeys) {
-- 
2.43.0


From b8c3e8882fd67e9b9b5568fdd1d0c76382c55381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:08 +0000
Subject: [PATCH 51/61] fix: find no variant under keys named like members of
 Object

---
 packages/experiment-browser/src/experimentClient.ts          | 5 +++--
 packages/experiment-browser/src/storage/cache.ts             | 5 +++--
 .../experiment-browser/src/util/sessionAnalyticsProvider.ts  | 3 ++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index b5c9d16..14a48ef 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -158,7 +158,8 @@ export class ExperimentClient implements Client {
     // Transform initialVariants
     if (this.config.initialVariants) {
       // Do not change the object given by the caller, it may be frozen.
-      const initialVariants: Variants = {};
+      // Without a prototype, since any key may be looked up.
+      const initialVariants: Variants = Object.create(null);
       for (const flagKey in this.config.initialVariants) {
         initialVariants[flagKey] = transformVariantFromStorage(
           this.config.initialVariants[flagKey],
@@ -508,7 +509,7 @@ export class ExperimentClient implements Client {
     const flags = topologicalSort(this.flags.getAll(), flagKeys);
     const context = convertUserToContext(user);
     const evaluationVariants = this.engine.evaluate(context, flags);
-    const variants: Variants = {};
+    const variants: Variants = Object.create(null);
     for (const flagKey of Object.keys(evaluationVariants)) {
       variants[flagKey] = convertEvaluationVariantToVariant(
         evaluationVariants[flagKey],
diff --git a/packages/experiment-browser/src/storage/cache.ts b/packages/experiment-browser/src/storage/cache.ts
index 0d3054f..dd21240 100644
--- a/packages/experiment-browser/src/storage/cache.ts
+++ b/packages/experiment-browser/src/storage/cache.ts
@@ -80,7 +80,8 @@ export class LoadStoreCache<V> {
   private readonly namespace: string;
   private readonly storage: Storage;
   private readonly transformer: (value: unknown) => V | undefined;
-  private cache: Record<string, V> = {};
+  // Without a prototype, since any key may be looked up.
+  private cache: Record<string, V> = Object.create(null);
 
   constructor(
     namespace: string,
@@ -115,7 +116,7 @@ export class LoadStoreCache<V> {
   }
 
   public clear(): void {
-    this.cache = {};
+    this.cache = Object.create(null);
   }
 
   public load() {
diff --git a/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts b/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts
index 23e0919..fd288c4 100644
--- a/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts
+++ b/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts
@@ -16,7 +16,8 @@ export class SessionAnalyticsProvider implements ExperimentAnalyticsProvider {
   // user properties and track an exposure event once per session unless the
   // variant value changes
   private readonly setProperties: Record<string, string> = {};
-  private readonly unsetProperties: Record<string, string> = {};
+  private readonly unsetProperties: Record<string, string> =
+    Object.create(null);
 
   constructor(analyticsProvider: ExperimentAnalyticsProvider) {
     this.analyticsProvider = analyticsProvider;
-- 
2.43.0


From c960a951c57163d2cd2f410e79b27076dcbfba86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:42 +0000
Subject: [PATCH 52/61] fix: ignore damaged redirect records

---
 packages/experiment-tag/src/experiment.ts | 75 +++++++++++++++--------
 1 file changed, 49 insertions(+), 26 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 621a2e3..485fa22 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -159,6 +159,23 @@ const recordOrEmpty = <T extends object>(stored: T | null): T =>
     ? stored
     : ({} as T);
 
+// Stored redirect impressions, without those that are unusable.
+const usableImpressions = (
+  stored: Record<string, StoredRedirectImpression> | null | undefined,
+): Record<string, StoredRedirectImpression> =>
+  Object.fromEntries(
+    Object.entries(recordOrEmpty(stored ?? null)).filter(([, impression]) => {
+      try {
+        return (
+          typeof impression.variantKey === 'string' &&
+          !!new URL(impression.redirectUrl)
+        );
+      } catch {
+        return false;
+      }
+    }),
+  );
+
 const moduleScope = getGlobalScope();
 if (moduleScope) {
   moduleScope.Experiment = Experiment;
@@ -1435,7 +1452,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       );
       if (existingEncoded) {
         try {
-          urlPayload = JSON.parse(atob(existingEncoded));
+          urlPayload = usableImpressions(JSON.parse(atob(existingEncoded)));
         } catch (error) {
           console.error('Failed to decode existing AMP_REDIRECT param:', error);
         }
@@ -1515,11 +1532,11 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   }
 
   private getRedirectMarkers(): Record<string, RedirectMarker> {
-    return (
+    return recordOrEmpty(
       getStorageItem<Record<string, RedirectMarker>>(
         'sessionStorage',
         this.redirectMarkerStorageKey(),
-      ) || {}
+      ),
     );
   }
 
@@ -1541,21 +1558,20 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     }
   }
 
+  private getSuppressedRedirects(): string[] {
+    const suppressed = getStorageItem<string[]>(
+      'sessionStorage',
+      this.redirectSuppressStorageKey(),
+    );
+    return Array.isArray(suppressed) ? suppressed : [];
+  }
+
   private isRedirectSuppressed(flagKey: string): boolean {
-    const suppressed =
-      getStorageItem<string[]>(
-        'sessionStorage',
-        this.redirectSuppressStorageKey(),
-      ) || [];
-    return suppressed.includes(flagKey);
+    return this.getSuppressedRedirects().includes(flagKey);
   }
 
   private suppressRedirect(flagKey: string, reason: string): void {
-    const suppressed =
-      getStorageItem<string[]>(
-        'sessionStorage',
-        this.redirectSuppressStorageKey(),
-      ) || [];
+    const suppressed = this.getSuppressedRedirects();
     if (!suppressed.includes(flagKey)) {
       suppressed.push(flagKey);
       setStorageItem(
@@ -1933,11 +1949,12 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     };
 
     // Always write to sessionStorage
-    const stored =
+    const stored = recordOrEmpty(
       getStorageItem<Record<string, StoredRedirectImpression>>(
         'sessionStorage',
         storageKey,
-      ) || {};
+      ),
+    );
     stored[flagKey] = impression;
     setStorageItem('sessionStorage', storageKey, stored);
 
@@ -1958,8 +1975,9 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       });
 
       try {
-        const storedRedirects = await storage.get(storageKey);
-        const redirects = storedRedirects || {};
+        const redirects = recordOrEmpty(
+          (await storage.get(storageKey)) ?? null,
+        );
         redirects[flagKey] = impression;
         await storage.set(storageKey, redirects);
       } catch (error) {
@@ -1981,7 +1999,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       const encoded = urlParams[REDIRECT_IMPRESSION_PARAM];
       if (encoded) {
         try {
-          urlImpressions = JSON.parse(atob(encoded));
+          urlImpressions = usableImpressions(JSON.parse(atob(encoded)));
         } catch {} // eslint-disable-line no-empty
         const cleanedUrl = removeQueryParams(this.globalScope.location.href, [
           REDIRECT_IMPRESSION_PARAM,
@@ -1995,11 +2013,12 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     }
 
     // Read sessionStorage impressions
-    const sessionImpressions =
+    const sessionImpressions = usableImpressions(
       getStorageItem<Record<string, StoredRedirectImpression>>(
         'sessionStorage',
         storageKey,
-      ) || {};
+      ),
+    );
 
     // Read cookie impressions (lowest priority) when opted in
     let cookieImpressions: Record<string, StoredRedirectImpression> = {};
@@ -2018,7 +2037,9 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
         expirationDays: 1 / 1440, // 1 minute
       });
       try {
-        cookieImpressions = (await cookieStorage.get(storageKey)) || {};
+        cookieImpressions = usableImpressions(
+          await cookieStorage.get(storageKey),
+        );
       } catch (error) {
         console.error(
           `Failed to retrieve redirect impressions from cookie ${storageKey}:`,
@@ -2060,18 +2081,20 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     // Forget the impressions which were tracked, and only those: others may be
     // stored by a redirect in the meantime.
     const without = (
-      stored: Record<string, StoredRedirectImpression>,
+      stored: Record<string, StoredRedirectImpression> | null | undefined,
       flagKeys: string[],
     ) =>
       Object.fromEntries(
-        Object.entries(stored).filter(([key]) => !flagKeys.includes(key)),
+        Object.entries(usableImpressions(stored)).filter(
+          ([key]) => !flagKeys.includes(key),
+        ),
       );
     const cleanup = async (flagKeys: string[]) => {
       const inSession = without(
         getStorageItem<Record<string, StoredRedirectImpression>>(
           'sessionStorage',
           storageKey,
-        ) || {},
+        ),
         flagKeys,
       );
       if (Object.keys(inSession).length > 0) {
@@ -2082,7 +2105,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       if (cookieStorage) {
         try {
           const inCookie = without(
-            (await cookieStorage.get(storageKey)) || {},
+            await cookieStorage.get(storageKey),
             flagKeys,
           );
           if (Object.keys(inCookie).length > 0) {
-- 
2.43.0


From d1e5afc7afa7d783d9d349b3400b061efdce6534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:11 +0000
Subject: [PATCH 53/61] fix: do not repeat a start which is under way

---
 packages/experiment-tag/src/experiment.ts | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 485fa22..095248a 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -330,6 +330,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   public isRedirecting = false;
   private customRedirectHandler: ((url: string) => void) | undefined;
   public isRunning = false;
+  private starting: Promise<void> | undefined;
   private readonly messageBus: MessageBus;
   private pageObjects: PageObjects;
   private activePages: PageObjects = {};
@@ -464,6 +465,16 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     if (this.isRunning) {
       return;
     }
+    // A start which is under way is not repeated, but waited for.
+    this.starting = this.starting ?? this.startOnce();
+    try {
+      await this.starting;
+    } finally {
+      this.starting = undefined;
+    }
+  }
+
+  private async startOnce() {
     patchRemoveChild();
     installSpaLinkInterceptor();
     const urlParams = getUrlParams();
-- 
2.43.0


From b1f93f425ff68874ce36f836373516cb6701fa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:13 +0000
Subject: [PATCH 54/61] fix: apply flags which depend on one whose behaviors
 changed

---
 packages/experiment-tag/src/experiment.ts     | 22 ++++++++++++++++---
 .../src/subscriptions/subscriptions.ts        |  9 ++++++--
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 095248a..c31504d 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1106,9 +1106,9 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     // Exclude previewed flags: their variants are forced and must not be
     // re-applied/re-fetched here (also avoids a pointless fetchRemoteFlags when
     // every behavioral remote flag is previewed).
-    const flagKeys = Object.keys(this.behavioralTargetingRules).filter(
-      (key) => !this.previewFlags[key],
-    );
+    const flagKeys = this.withDependents(
+      Object.keys(this.behavioralTargetingRules),
+    ).filter((key) => !this.previewFlags[key]);
     const localKeys = flagKeys.filter((key) =>
       this.localFlagKeys.includes(key),
     );
@@ -1154,6 +1154,22 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     this.experimentClient.setUser(updatedUser);
   }
 
+  /**
+   * The given flags and all which depend on them, directly or indirectly.
+   */
+  public withDependents(flagKeys: string[]): string[] {
+    const keys = new Set(flagKeys);
+    // Keys which are added meanwhile are visited, too.
+    keys.forEach((key) =>
+      this.initialFlags.forEach((flag: EvaluationFlag) => {
+        if (flag.dependencies?.includes(key)) {
+          keys.add(flag.key);
+        }
+      }),
+    );
+    return Array.from(keys);
+  }
+
   /**
    * When in visual editor mode, update the current page objects and reinitialize subscriptions and active pages.
    *
diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index f9795c8..5b99a92 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -466,9 +466,14 @@ export class SubscriptionManager {
               );
             }
 
-            // Apply non-preview variants
+            // Apply non-preview variants, also of flags which depend on those
+            // whose behaviors changed
+            const flagsToApply =
+              relevantFlags && behaviorsChanged
+                ? this.webExperimentClient.withDependents(relevantFlags)
+                : relevantFlags;
             await this.webExperimentClient.applyVariants({
-              flagKeys: relevantFlags?.filter(
+              flagKeys: flagsToApply?.filter(
                 (flag) => !this.webExperimentClient.previewFlags[flag],
               ),
             });
-- 
2.43.0


From 086c143e3bacf52ef8fe24d78f632e3df2817a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:14 +0000
Subject: [PATCH 55/61] fix: revert everything although removing an injection
 fails

---
 packages/experiment-tag/src/experiment.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index c31504d..efda73c 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1872,7 +1872,14 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     this.appliedMutations[flagKey][variantKey][INJECT_ACTION][id] = {
       revert: () => {
         state.cancelled = true;
-        utils.remove?.();
+        try {
+          utils.remove?.();
+        } catch (e) {
+          console.error(
+            `Experiment inject removal failed for ${flagKey} variant ${variantKey}. Reason:`,
+            e,
+          );
+        }
         sheetHandle?.revert();
         script?.remove();
         this.appliedInjections.delete(id);
-- 
2.43.0


From 3042a7d910a65312c3cb60a41d2ebacb41873213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:16 +0000
Subject: [PATCH 56/61] fix: tell each subscriber although another one fails

---
 .../src/subscriptions/subscriptions.ts        | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index 5b99a92..45edb6f 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -326,6 +326,17 @@ export class SubscriptionManager {
     }
   }
 
+  /** Tell each subscriber, also if another one fails. */
+  private notify<T>(subscribers: Set<(value: T) => void>, value: T): void {
+    for (const subscriber of subscribers) {
+      try {
+        subscriber(value);
+      } catch (e) {
+        console.error('Experiment subscriber failed. Reason:', e);
+      }
+    }
+  }
+
   private scheduleDebugNotification = () => {
     if (!this.options.isDebugActive || this.debugStateSubscribers.size === 0) {
       return;
@@ -338,9 +349,7 @@ export class SubscriptionManager {
     this.debugDebounceTimer = this.globalScope.setTimeout(() => {
       this.debugDebounceTimer = null;
       const state = this.webExperimentClient.getDebugState();
-      for (const subscriber of this.debugStateSubscribers) {
-        subscriber(state);
-      }
+      this.notify(this.debugStateSubscribers, state);
     }, DEBUG_DEBOUNCE_MS);
   };
 
@@ -496,9 +505,7 @@ export class SubscriptionManager {
 
           // Notify subscribers if pages actually changed
           if (pagesChanged) {
-            for (const subscriber of this.pageChangeSubscribers) {
-              subscriber({ activePages });
-            }
+            this.notify(this.pageChangeSubscribers, { activePages });
           }
 
           // Debug subscribers fire on any URL change or page change,
-- 
2.43.0


From 4e2a221ba6c4bd6fbd4837a5342d5cbc1c2d90fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:35 +0000
Subject: [PATCH 57/61] fix: resume the mutation engine although inserting an
 element fails

---
 packages/experiment-tag/src/util/inject-utils.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-tag/src/util/inject-utils.ts b/packages/experiment-tag/src/util/inject-utils.ts
index d3d2323..6704147 100644
--- a/packages/experiment-tag/src/util/inject-utils.ts
+++ b/packages/experiment-tag/src/util/inject-utils.ts
@@ -123,8 +123,11 @@ export const getInjectUtils = (state: { cancelled: boolean }): InjectUtils =>
           setTimeout(() => rateLimit--, 1000);
 
           pauseGlobalObserver();
-          parent.insertBefore(element, sibling);
-          resumeGlobalObserver();
+          try {
+            parent.insertBefore(element, sibling);
+          } finally {
+            resumeGlobalObserver();
+          }
           callback?.();
           resolve();
         };
-- 
2.43.0


From 76cbc25f00d13e9241af48f5657b986c76c98b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:51 +0000
Subject: [PATCH 58/61] fix: deduplicate exposures although session storage
 becomes unusable

---
 packages/experiment-browser/src/integration/manager.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index f95bc1d..31362af 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -133,6 +133,7 @@ export class SessionDedupeCache {
   private readonly storageKey: string;
   private readonly isSessionStorageAvailable = checkIsSessionStorageAvailable();
   private inMemoryCache: Record<string, string | null> = {};
+  private isStored = true;
   private identity: Identity = {};
 
   constructor(instanceName: string) {
@@ -201,7 +202,8 @@ export class SessionDedupeCache {
 
   private loadCache(): void {
     const sessionStorage = getSessionStorage();
-    if (this.isSessionStorageAvailable && sessionStorage) {
+    // What could not be stored is only in memory.
+    if (this.isSessionStorageAvailable && sessionStorage && this.isStored) {
       try {
         const storedCache = sessionStorage.getItem(this.storageKey);
         const cache = storedCache ? JSON.parse(storedCache) : {};
@@ -220,7 +222,9 @@ export class SessionDedupeCache {
           this.storageKey,
           JSON.stringify(this.inMemoryCache),
         );
+        this.isStored = true;
       } catch (e) {
+        this.isStored = false;
         // Gracefully handle QuotaExceededError or other storage errors.
         // The in-memory cache will still work for deduplication within this session.
       }
-- 
2.43.0


From 29d0ad2620c0d2296954314c86bc53cd1d57f3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:51 +0000
Subject: [PATCH 59/61] fix: keep waiting exposure events although storage
 becomes full

---
 packages/experiment-browser/src/integration/manager.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index 31362af..dcc7b75 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -237,6 +237,7 @@ export class PersistentTrackingQueue {
   private readonly maxQueueSize: number;
   private readonly isLocalStorageAvailable = isLocalStorageAvailable();
   private inMemoryQueue: ExperimentEvent[] = [];
+  private isStored = true;
   private poller: any | undefined;
   private tracker: ((event: ExperimentEvent) => boolean) | undefined;
 
@@ -297,7 +298,8 @@ export class PersistentTrackingQueue {
 
   private loadQueue(): void {
     const localStorage = getLocalStorage();
-    if (this.isLocalStorageAvailable && localStorage) {
+    // What could not be stored is only in memory.
+    if (this.isLocalStorageAvailable && localStorage && this.isStored) {
       try {
         const storedQueue = localStorage.getItem(this.storageKey);
         const queue = storedQueue ? JSON.parse(storedQueue) : [];
@@ -322,7 +324,9 @@ export class PersistentTrackingQueue {
           this.storageKey,
           JSON.stringify(this.inMemoryQueue),
         );
+        this.isStored = true;
       } catch (e) {
+        this.isStored = false;
         // Gracefully handle QuotaExceededError or other storage errors.
       }
     }
-- 
2.43.0


From bc272b7e58dcfe90bd8f09c9bb8aabca9c9dfebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:51 +0000
Subject: [PATCH 60/61] fix: track an event once although the integration
 exposes flags meanwhile

---
 packages/experiment-browser/src/integration/manager.ts | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index dcc7b75..837e6b4 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -238,6 +238,7 @@ export class PersistentTrackingQueue {
   private readonly isLocalStorageAvailable = isLocalStorageAvailable();
   private inMemoryQueue: ExperimentEvent[] = [];
   private isStored = true;
+  private isFlushing = false;
   private poller: any | undefined;
   private tracker: ((event: ExperimentEvent) => boolean) | undefined;
 
@@ -247,6 +248,11 @@ export class PersistentTrackingQueue {
   }
 
   push(event: ExperimentEvent): void {
+    if (this.isFlushing) {
+      // Raised by the tracker itself: the flush under way takes it up.
+      this.inMemoryQueue.push(event);
+      return;
+    }
     this.loadQueue();
     this.inMemoryQueue.push(event);
     this.flush();
@@ -273,6 +279,7 @@ export class PersistentTrackingQueue {
     if (!this.tracker) return;
     if (this.inMemoryQueue.length === 0) return;
     let i = 0;
+    this.isFlushing = true;
     for (; i < this.inMemoryQueue.length; i++) {
       try {
         if (!this.tracker(this.inMemoryQueue[i])) {
@@ -282,6 +289,7 @@ export class PersistentTrackingQueue {
         break;
       }
     }
+    this.isFlushing = false;
     this.inMemoryQueue = this.inMemoryQueue.slice(i);
     if (this.inMemoryQueue.length > 0) {
       // The poller may have been stopped by an earlier flush which emptied the
@@ -333,6 +341,7 @@ export class PersistentTrackingQueue {
   }
 
   private loadFlushStore(): void {
+    if (this.isFlushing) return;
     this.loadQueue();
     this.flush();
     this.storeQueue();
-- 
2.43.0


From faf9df4bb2fd260b389beaae47d0a9e2e390972f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:36 +0000
Subject: [PATCH 61/61] fix: keep the page of a web exposure which waits while
 another is made

---
 packages/experiment-browser/src/experimentClient.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 14a48ef..0d7b6cb 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -987,6 +987,8 @@ export class ExperimentClient implements Client {
           // If there's any error getting the URL, continue without it
         }
       }
+      // The exposure may wait while the variant is exposed on another page.
+      if (metadata) exposure.metadata = { ...metadata };
     }
     const user = this.addContext(this.getUser());
     this.userSessionExposureTracker?.track(exposure, user);
-- 
2.43.0

