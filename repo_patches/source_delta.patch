From 27348f29719128fb38c27673be70287cbb6002d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 01/39] fix: ignore missing arguments in later deltas of a
 streamed tool call

---
 packages-ext/telemetry/src/wrapped/stream-text.ts | 5 ++++-
 packages/stream-text/src/index.ts                 | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index e644ca8..d97a3c8 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -197,8 +197,11 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
                     pushEvent({ delta: toolCall.function.arguments, type: 'tool-call.delta' })
                 }
                 else {
+                  if (toolCall.function.arguments == null)
+                    continue
+
                   tool_calls[index].function.arguments! += toolCall.function.arguments
-                  pushEvent({ delta: toolCall.function.arguments!, type: 'tool-call.delta' })
+                  pushEvent({ delta: toolCall.function.arguments, type: 'tool-call.delta' })
                 }
               }
             }
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 91e992e..7ffd343 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -220,8 +220,11 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
                   pushEvent({ delta: toolCall.function.arguments, type: 'tool-call.delta' })
               }
               else {
+                if (toolCall.function.arguments == null)
+                  continue
+
                 tool_calls[index].function.arguments! += toolCall.function.arguments
-                pushEvent({ delta: toolCall.function.arguments!, type: 'tool-call.delta' })
+                pushEvent({ delta: toolCall.function.arguments, type: 'tool-call.delta' })
               }
             }
           }
-- 
2.43.0


From 988c692294b6f6d251a41e523e30760efd74f119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 02/39] fix: leave no holes in the tool calls of a streamed
 assistant message

---
 packages-ext/telemetry/src/wrapped/stream-text.ts | 5 +++--
 packages/stream-text/src/index.ts                 | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index d97a3c8..c251899 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -213,16 +213,17 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
       if (textStarted)
         pushEvent({ content: text, type: 'text.done' })
 
+      const validToolCalls = tool_calls.filter((tc): tc is ToolCall => tc != null)
+
       const message: AssistantMessage = {
         ...(reasoningField != null ? { [reasoningField]: reasoningText } : {}),
         content: text,
         role: 'assistant',
-        tool_calls: tool_calls.length > 0 ? tool_calls : undefined,
+        tool_calls: validToolCalls.length > 0 ? validToolCalls : undefined,
       }
       messages.push(message)
       span.setAttribute('gen_ai.output.messages', JSON.stringify([message]))
 
-      const validToolCalls = tool_calls.filter((tc): tc is ToolCall => tc != null)
       const toolCalls: CompletionToolCall[] = validToolCalls.map(toCompletionToolCall)
       const toolResults: CompletionToolResult[] = []
 
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 7ffd343..6ce5b62 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -236,14 +236,15 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
     if (textStarted)
       pushEvent({ content: text, type: 'text.done' })
 
+    const validToolCalls = tool_calls.filter((tc): tc is ToolCall => tc != null)
+
     messages.push({
       ...(reasoningField != null ? { [reasoningField]: reasoningText } : {}),
       content: text,
       role: 'assistant',
-      tool_calls: tool_calls.length > 0 ? tool_calls : undefined,
+      tool_calls: validToolCalls.length > 0 ? validToolCalls : undefined,
     })
 
-    const validToolCalls = tool_calls.filter((tc): tc is ToolCall => tc != null)
     const toolCalls: CompletionToolCall[] = validToolCalls.map(toCompletionToolCall)
     const toolResults: CompletionToolResult[] = []
 
-- 
2.43.0


From 8f6e6b614574100338502bcab87428167fe519b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 03/39] fix: keep text that a stream chunk carries along with
 tool calls

---
 packages-ext/telemetry/src/wrapped/stream-text.ts | 10 ++++++++++
 packages/stream-text/src/index.ts                 | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index c251899..95249f1 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -176,6 +176,16 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
               }
             }
             else {
+              // some providers send text along with tool calls
+              if (choice.delta.content != null && choice.delta.content.length > 0) {
+                if (!textStarted) {
+                  textStarted = true
+                  pushEvent({ type: 'text.start' })
+                }
+                pushEvent({ delta: choice.delta.content, type: 'text.delta' })
+                pushText(choice.delta.content)
+              }
+
             // https://platform.openai.com/docs/guides/function-calling?api-mode=chat&lang=javascript#streaming
               for (const toolCall of choice.delta.tool_calls) {
                 const { index } = toolCall
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 6ce5b62..e25d42d 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -203,6 +203,16 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
             }
           }
           else {
+            // some providers send text along with tool calls
+            if (choice.delta.content != null && choice.delta.content.length > 0) {
+              if (!textStarted) {
+                textStarted = true
+                pushEvent({ type: 'text.start' })
+              }
+              pushEvent({ delta: choice.delta.content, type: 'text.delta' })
+              pushText(choice.delta.content)
+            }
+
             // https://platform.openai.com/docs/guides/function-calling?api-mode=chat&lang=javascript#streaming
             for (const toolCall of choice.delta.tool_calls) {
               const { index } = toolCall
-- 
2.43.0


From 6afd31b5be436a1cc4c71cbb4d4affad0d5ae4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:31 +0000
Subject: [PATCH 04/39] fix: do not carry a step's usage over to steps that
 report none

---
 packages-ext/responses/src/utils/responses.ts     | 6 ++++--
 packages-ext/telemetry/src/wrapped/stream-text.ts | 3 +++
 packages/stream-text/src/index.ts                 | 3 +++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/packages-ext/responses/src/utils/responses.ts b/packages-ext/responses/src/utils/responses.ts
index 0cdfbb5..531b7cd 100644
--- a/packages-ext/responses/src/utils/responses.ts
+++ b/packages-ext/responses/src/utils/responses.ts
@@ -83,10 +83,12 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
   }
 
   const pushUsage = (nextUsage?: NonNullable<ResponseResource['usage']>) => {
-    if (nextUsage == null)
+    // a response that reports no usage must not inherit the previous one
+    usage = nextUsage != null ? normalizeUsage(nextUsage) : undefined
+
+    if (usage == null)
       return
 
-    usage = normalizeUsage(nextUsage)
     totalUsage = computeTotalUsage(totalUsage, usage)
   }
 
diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index 95249f1..a33e535 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -83,6 +83,9 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
         tools,
       })
 
+      // a step that reports no usage must not inherit the previous one
+      usage = undefined
+
       const pushUsage = (u: StreamTextChunkResult['usage']) => {
         if (u == null)
           return
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index e25d42d..ac2c6fd 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -110,6 +110,9 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
       toolChoice: stepOptions.toolChoice,
     })
 
+    // a step that reports no usage must not inherit the previous one
+    usage = undefined
+
     const pushUsage = (u: StreamTextChunkResult['usage']) => {
       if (u == null)
         return
-- 
2.43.0


From 179ce714e7b255638ae9876de57e84a736893d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:52 +0000
Subject: [PATCH 05/39] fix: count the usage of a streamed step once however
 often it is reported

---
 packages-ext/telemetry/src/wrapped/stream-text.ts | 5 ++++-
 packages/stream-text/src/index.ts                 | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index a33e535..ada47d4 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -47,6 +47,10 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
   const pushStep = (step: CompletionStep) => {
     steps.push(step)
 
+    // servers may repeat the usage of a step in several chunks: count it once
+    if (step.usage != null)
+      totalUsage = computeTotalUsage(totalUsage, step.usage)
+
     void options.onStepFinish?.(step)
   }
 
@@ -91,7 +95,6 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
           return
 
         usage = normalizeChatCompletionUsage(u)
-        totalUsage = computeTotalUsage(totalUsage, usage)
       }
 
       let text = ''
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index ac2c6fd..931679e 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -86,6 +86,10 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
   const pushStep = (step: CompletionStep) => {
     steps.push(step)
 
+    // servers may repeat the usage of a step in several chunks: count it once
+    if (step.usage != null)
+      totalUsage = computeTotalUsage(totalUsage, step.usage)
+
     void options.onStepFinish?.(step)
   }
 
@@ -118,7 +122,6 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
         return
 
       usage = normalizeChatCompletionUsage(u)
-      totalUsage = computeTotalUsage(totalUsage, usage)
     }
 
     let text = ''
-- 
2.43.0


From 865a6d539a4463ec557c142ba8989b8a93690f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:53 +0000
Subject: [PATCH 06/39] fix: treat a thrown null or undefined as a failure of a
 streamed run

---
 packages-ext/responses/src/utils/responses.ts     | 9 +++++++--
 packages-ext/telemetry/src/wrapped/stream-text.ts | 9 +++++++--
 packages/stream-text/src/index.ts                 | 9 +++++++--
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/packages-ext/responses/src/utils/responses.ts b/packages-ext/responses/src/utils/responses.ts
index 531b7cd..97bb6f6 100644
--- a/packages-ext/responses/src/utils/responses.ts
+++ b/packages-ext/responses/src/utils/responses.ts
@@ -362,12 +362,14 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
   }
 
   void (async () => {
+    let failed = false
     let finalError: unknown
 
     try {
       await trampoline(async () => doStream())
     }
     catch (err) {
+      failed = true
       finalError = err
     }
 
@@ -375,10 +377,13 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
       await options.onFinish?.(steps.at(-1))
     }
     catch (err) {
-      finalError ??= err
+      // the first failure wins, even if it is null or undefined
+      if (!failed)
+        finalError = err
+      failed = true
     }
 
-    if (finalError != null) {
+    if (failed) {
       errorControllers(finalError, fullCtrl, textCtrl, reasoningTextCtrl, eventCtrl)
 
       resultInput.reject(finalError)
diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index ada47d4..f141a2a 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -305,22 +305,27 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
   }
 
   void (async () => {
+    let failed = false
     let finalError: unknown
 
     try {
       await trampoline(async () => doStream())
     }
     catch (err) {
+      failed = true
       finalError = err
     }
     try {
       await options.onFinish?.(steps.at(-1))
     }
     catch (err) {
-      finalError ??= err
+      // the first failure wins, even if it is null or undefined
+      if (!failed)
+        finalError = err
+      failed = true
     }
 
-    if (finalError != null) {
+    if (failed) {
       errorControllers(finalError, eventCtrl, fullCtrl, textCtrl, reasoningTextCtrl)
 
       resultSteps.reject(finalError)
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 931679e..97575d2 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -318,22 +318,27 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
   }
 
   void (async () => {
+    let failed = false
     let finalError: unknown
 
     try {
       await trampoline(async () => doStream())
     }
     catch (err) {
+      failed = true
       finalError = err
     }
     try {
       await options.onFinish?.(steps.at(-1))
     }
     catch (err) {
-      finalError ??= err
+      // the first failure wins, even if it is null or undefined
+      if (!failed)
+        finalError = err
+      failed = true
     }
 
-    if (finalError != null) {
+    if (failed) {
       errorControllers(finalError, eventCtrl, fullCtrl, textCtrl, reasoningTextCtrl)
 
       resultSteps.reject(finalError)
-- 
2.43.0


From 948ac06c5676d21f1ce8564c168a2c72189e90a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:59 +0000
Subject: [PATCH 07/39] fix: send headers given as a Headers instance and let
 them replace defaults of the same name

---
 packages/shared/src/utils/post-json.ts       |  5 ++---
 packages/shared/src/utils/request-headers.ts | 22 ++++++++++++++++----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/packages/shared/src/utils/post-json.ts b/packages/shared/src/utils/post-json.ts
index a841b9b..c8a4fe8 100644
--- a/packages/shared/src/utils/post-json.ts
+++ b/packages/shared/src/utils/post-json.ts
@@ -8,10 +8,9 @@ import { responseCatch } from './response-catch'
 export const postJSON = async (path: string, options: WithUnknown<CommonRequestOptions>) =>
   (options.fetch ?? globalThis.fetch)(requestURL(path, options.baseURL), {
     body: requestBody(options),
-    headers: requestHeaders({
+    headers: requestHeaders(options.headers, options.apiKey, {
       'Content-Type': 'application/json',
-      ...options.headers,
-    }, options.apiKey),
+    }),
     method: 'POST',
     signal: options.abortSignal,
   }).then(responseCatch)
diff --git a/packages/shared/src/utils/request-headers.ts b/packages/shared/src/utils/request-headers.ts
index b9a8c9a..4812a9b 100644
--- a/packages/shared/src/utils/request-headers.ts
+++ b/packages/shared/src/utils/request-headers.ts
@@ -2,7 +2,21 @@ import type { CommonRequestOptions } from '../types'
 
 import { clean } from './clean'
 
-export const requestHeaders = (headers?: CommonRequestOptions['headers'], apiKey?: CommonRequestOptions['apiKey']) => clean({
-  Authorization: apiKey !== undefined ? `Bearer ${apiKey}` : undefined,
-  ...headers,
-})
+export const requestHeaders = (headers?: CommonRequestOptions['headers'], apiKey?: CommonRequestOptions['apiKey'], defaults?: Record<string, string>) => {
+  // spreading a Headers instance yields nothing
+  const own: Record<string, string> = headers instanceof Headers
+    ? Object.fromEntries(headers.entries())
+    : { ...headers }
+  // header names are case-insensitive
+  const names = new Set(Object.keys(own).map(name => name.toLowerCase()))
+
+  return clean({
+    ...Object.fromEntries(
+      Object.entries({
+        ...defaults,
+        Authorization: apiKey !== undefined ? `Bearer ${apiKey}` : undefined,
+      }).filter(([name]) => !names.has(name.toLowerCase())),
+    ),
+    ...own,
+  })
+}
-- 
2.43.0


From 2651cb1b9550e2762649e55be177a55f459baf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 08/39] fix: keep a transcription file's own name when no file
 name is given

---
 packages/generate-transcription/src/index.ts | 6 +++++-
 packages/stream-transcription/src/index.ts   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/packages/generate-transcription/src/index.ts b/packages/generate-transcription/src/index.ts
index 1cd6a09..4be4e1d 100644
--- a/packages/generate-transcription/src/index.ts
+++ b/packages/generate-transcription/src/index.ts
@@ -72,7 +72,11 @@ export const generateTranscription = async <
   const body = new FormData()
 
   body.append('model', options.model)
-  body.append('file', options.file, options.fileName)
+  // an explicit undefined would name the file 'undefined'
+  if (options.fileName != null)
+    body.append('file', options.file, options.fileName)
+  else
+    body.append('file', options.file)
   body.append('response_format', options.responseFormat ?? 'json')
 
   // make ts happy
diff --git a/packages/stream-transcription/src/index.ts b/packages/stream-transcription/src/index.ts
index 508925d..90a14b7 100644
--- a/packages/stream-transcription/src/index.ts
+++ b/packages/stream-transcription/src/index.ts
@@ -41,7 +41,11 @@ export const streamTranscription = (options: WithUnknown<StreamTranscriptionOpti
     // Build FormData for file upload
     const body = new FormData()
     body.append('model', options.model)
-    body.append('file', options.file, options.fileName)
+    // an explicit undefined would name the file 'undefined'
+    if (options.fileName != null)
+      body.append('file', options.file, options.fileName)
+    else
+      body.append('file', options.file)
     body.append('stream', 'true')
 
     if (options.language != null)
-- 
2.43.0


From 80bf521172de4e92c48636fdd66825ab21a1411e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 09/39] fix: report a chat response without choices as such
 even if it lacks usage

---
 packages-ext/telemetry/src/wrapped/generate-text.ts | 8 +++++---
 packages/generate-text/src/index.ts                 | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/generate-text.ts b/packages-ext/telemetry/src/wrapped/generate-text.ts
index 5777e0a..3d9dd44 100644
--- a/packages-ext/telemetry/src/wrapped/generate-text.ts
+++ b/packages-ext/telemetry/src/wrapped/generate-text.ts
@@ -48,9 +48,8 @@ export const generateText = async (options: WithUnknown<WithTelemetry<GenerateTe
       })
         .then(responseJSON<GenerateTextResponse>)
         .then(async (res) => {
-          const { choices } = res
-          const usage = normalizeChatCompletionUsage(res.usage)
-          const totalUsage = computeTotalUsage(options.totalUsage, usage)
+          // a body that is valid JSON is not necessarily an object
+          const choices = (res as GenerateTextResponse | null)?.choices
 
           if (!choices?.length) {
             const responseBody = JSON.stringify(res)
@@ -60,6 +59,9 @@ export const generateText = async (options: WithUnknown<WithTelemetry<GenerateTe
             })
           }
 
+          const usage = normalizeChatCompletionUsage(res.usage)
+          const totalUsage = computeTotalUsage(options.totalUsage, usage)
+
           const { finish_reason: finishReason, message } = choices[0]
           const msgToolCalls: ToolCall[] = message?.tool_calls ?? []
           const toolCalls: CompletionToolCall[] = msgToolCalls.map(toCompletionToolCall)
diff --git a/packages/generate-text/src/index.ts b/packages/generate-text/src/index.ts
index 87d39d9..0e6b6b4 100644
--- a/packages/generate-text/src/index.ts
+++ b/packages/generate-text/src/index.ts
@@ -86,9 +86,8 @@ const rawGenerateText = async (options: WithUnknown<GenerateTextOptions>): Promi
   })
     .then(responseJSON<GenerateTextResponse>)
     .then(async (res) => {
-      const { choices } = res
-      const usage = normalizeChatCompletionUsage(res.usage)
-      const totalUsage = computeTotalUsage(options.totalUsage, usage)
+      // a body that is valid JSON is not necessarily an object
+      const choices = (res as GenerateTextResponse | null)?.choices
 
       if (!choices?.length) {
         const responseBody = JSON.stringify(res)
@@ -98,6 +97,9 @@ const rawGenerateText = async (options: WithUnknown<GenerateTextOptions>): Promi
         })
       }
 
+      const usage = normalizeChatCompletionUsage(res.usage)
+      const totalUsage = computeTotalUsage(options.totalUsage, usage)
+
       const { finish_reason: finishReason, message } = choices[0]
       const msgToolCalls = message?.tool_calls ?? []
       const toolCalls: CompletionToolCall[] = msgToolCalls.map(toCompletionToolCall)
-- 
2.43.0


From 38eeb070820b73462de2952e33ce170e9ba35192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:48 +0000
Subject: [PATCH 10/39] fix: stream every element of an array, also when
 several arrive at once or none at all

---
 .../stream-object/src/utils/to-element-stream.ts     | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/packages/stream-object/src/utils/to-element-stream.ts b/packages/stream-object/src/utils/to-element-stream.ts
index b5bed5b..ae0aa0d 100644
--- a/packages/stream-object/src/utils/to-element-stream.ts
+++ b/packages/stream-object/src/utils/to-element-stream.ts
@@ -9,17 +9,17 @@ export const toElementStream = <T>(stream: ReadableStream<string>): ReadableStre
   return stream.pipeThrough(new TransformStream<string, T>({
     flush: (controller) => {
       const data = parse(partialObjectData) as PartialDeep<T>
-      controller.enqueue((data as { elements: T[] }).elements.at(-1))
+      for (const element of (data as { elements: T[] }).elements.slice(index))
+        controller.enqueue(element)
     },
     transform: (chunk, controller) => {
       partialObjectData += chunk
       try {
         const data = parse(partialObjectData) as PartialDeep<T>
-        if (
-          Array.isArray(Object.getOwnPropertyDescriptor(data, 'elements')?.value)
-          && (data as { elements: T[] }).elements.length > index + 1
-        ) {
-          controller.enqueue((data as { elements: T[] }).elements[index++])
+        if (Array.isArray(Object.getOwnPropertyDescriptor(data, 'elements')?.value)) {
+          // the last element may still be incomplete
+          while ((data as { elements: T[] }).elements.length > index + 1)
+            controller.enqueue((data as { elements: T[] }).elements[index++])
         }
       }
       catch {}
-- 
2.43.0


From e561ac829c732ef764e751180879277b34af3ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:48 +0000
Subject: [PATCH 11/39] fix: do not stream an empty string as a partial object
 before any text arrived

---
 packages/stream-object/src/utils/to-partial-object-stream.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/stream-object/src/utils/to-partial-object-stream.ts b/packages/stream-object/src/utils/to-partial-object-stream.ts
index 34da6f4..6e6f7cd 100644
--- a/packages/stream-object/src/utils/to-partial-object-stream.ts
+++ b/packages/stream-object/src/utils/to-partial-object-stream.ts
@@ -9,6 +9,10 @@ export const toPartialObjectStream = <T>(stream: ReadableStream<string>): Readab
   return stream.pipeThrough(new TransformStream<string, PartialDeep<T>>({
     transform: (chunk, controller) => {
       partialObjectData += chunk
+      // nothing to read yet, e.g. the empty content of a leading role delta
+      if (partialObjectData.trim().length === 0)
+        return
+
       try {
         const data = parse(partialObjectData) as PartialDeep<T>
 
-- 
2.43.0


From aa6158817f2473873c462ce5d3bcccda58584476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:12 +0000
Subject: [PATCH 12/39] fix: keep output items of unknown types in the input of
 a Responses run

---
 packages-ext/responses/src/utils/normalize-output.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages-ext/responses/src/utils/normalize-output.ts b/packages-ext/responses/src/utils/normalize-output.ts
index bc0b2ea..f71c837 100644
--- a/packages-ext/responses/src/utils/normalize-output.ts
+++ b/packages-ext/responses/src/utils/normalize-output.ts
@@ -12,5 +12,8 @@ export const normalizeOutput = (item: ItemField): ItemParam => {
       return item as AssistantMessageItemParam | DeveloperMessageItemParam | SystemMessageItemParam | UserMessageItemParam
     case 'reasoning':
       return item as ReasoningItemParam
+    default:
+      // items the types do not know yet (e.g. of hosted tools) belong to the history as well
+      return item as ItemParam
   }
 }
-- 
2.43.0


From ee6ceb67cbda4465be7b3168b2414e987d856417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:50 +0000
Subject: [PATCH 13/39] fix: do not fail a traced embedding whose response
 reports no usage

---
 packages-ext/telemetry/src/wrapped/embed.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/embed.ts b/packages-ext/telemetry/src/wrapped/embed.ts
index 8aa9786..c9be89b 100644
--- a/packages-ext/telemetry/src/wrapped/embed.ts
+++ b/packages-ext/telemetry/src/wrapped/embed.ts
@@ -18,7 +18,9 @@ export const embed = async (options: WithTelemetry<EmbedOptions>): Promise<Embed
   // https://opentelemetry.io/docs/specs/semconv/gen-ai/gen-ai-spans/#embeddings
   return recordSpan<EmbedResult>(embedSpan(options, tracer), async (span) => {
     const result = await originalEmbed(clean({ ...options, telemetry: undefined }))
-    span.setAttribute('gen_ai.usage.input_tokens', result.usage.prompt_tokens)
+    // not every server reports usage
+    if (result.usage?.prompt_tokens != null)
+      span.setAttribute('gen_ai.usage.input_tokens', result.usage.prompt_tokens)
     return result
   })
 }
@@ -33,7 +35,9 @@ export const embedMany = async (options: WithTelemetry<EmbedManyOptions>): Promi
   // https://opentelemetry.io/docs/specs/semconv/gen-ai/gen-ai-spans/#embeddings
   return recordSpan<EmbedManyResult>(embedSpan(options, tracer), async (span) => {
     const result = await originalEmbedMany(clean({ ...options, telemetry: undefined }))
-    span.setAttribute('gen_ai.usage.input_tokens', result.usage.prompt_tokens)
+    // not every server reports usage
+    if (result.usage?.prompt_tokens != null)
+      span.setAttribute('gen_ai.usage.input_tokens', result.usage.prompt_tokens)
     return result
   })
 }
-- 
2.43.0


From ac5db066aaf759fae5791e237d45c9111b6f0109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:09 +0000
Subject: [PATCH 14/39] fix: keep the input validator of a traced tool

---
 packages-ext/telemetry/src/utils/wrap-tool.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/packages-ext/telemetry/src/utils/wrap-tool.ts b/packages-ext/telemetry/src/utils/wrap-tool.ts
index 37d2c4d..9d5b183 100644
--- a/packages-ext/telemetry/src/utils/wrap-tool.ts
+++ b/packages-ext/telemetry/src/utils/wrap-tool.ts
@@ -4,6 +4,7 @@ import type { Tool, ToolExecuteOptions } from 'xsai'
 import { recordSpan } from './record-span'
 
 export const wrapTool = (tool: Tool, tracer: Tracer): Tool => ({
+  ...tool,
   execute: async (input: unknown, options: ToolExecuteOptions) =>
     recordSpan({
       attributes: {
@@ -20,6 +21,4 @@ export const wrapTool = (tool: Tool, tracer: Tracer): Tool => ({
       span.setAttribute('gen_ai.tool.call.result', JSON.stringify(result))
       return result
     }),
-  function: tool.function,
-  type: tool.type,
 })
-- 
2.43.0


From 8237a062ee5340fed172069c17a46927e21f2596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:42 +0000
Subject: [PATCH 15/39] fix: do not fail a traced tool whose input or result is
 not expressible as JSON

---
 packages-ext/telemetry/src/utils/wrap-tool.ts | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/packages-ext/telemetry/src/utils/wrap-tool.ts b/packages-ext/telemetry/src/utils/wrap-tool.ts
index 9d5b183..8b13a5b 100644
--- a/packages-ext/telemetry/src/utils/wrap-tool.ts
+++ b/packages-ext/telemetry/src/utils/wrap-tool.ts
@@ -3,13 +3,23 @@ import type { Tool, ToolExecuteOptions } from 'xsai'
 
 import { recordSpan } from './record-span'
 
+// values JSON cannot express must not fail the call that is being traced
+const toAttribute = (value: unknown): string | undefined => {
+  try {
+    return JSON.stringify(value)
+  }
+  catch {
+    return undefined
+  }
+}
+
 export const wrapTool = (tool: Tool, tracer: Tracer): Tool => ({
   ...tool,
   execute: async (input: unknown, options: ToolExecuteOptions) =>
     recordSpan({
       attributes: {
         'gen_ai.operation.name': 'execute_tool',
-        'gen_ai.tool.call.arguments': JSON.stringify(input),
+        'gen_ai.tool.call.arguments': toAttribute(input),
         'gen_ai.tool.call.description': tool.function.description,
         'gen_ai.tool.call.id': options.toolCallId,
         'gen_ai.tool.call.name': tool.function.name,
@@ -18,7 +28,7 @@ export const wrapTool = (tool: Tool, tracer: Tracer): Tool => ({
       tracer,
     }, async (span) => {
       const result = await tool.execute(input, options)
-      span.setAttribute('gen_ai.tool.call.result', JSON.stringify(result))
+      span.setAttribute('gen_ai.tool.call.result', toAttribute(result))
       return result
     }),
 })
-- 
2.43.0


From 4c35335f55899b47b55a8ee5d2dba5507a90f1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:42 +0000
Subject: [PATCH 16/39] fix: call the tool call hooks in the telemetry versions
 too

---
 packages-ext/telemetry/src/wrapped/generate-text.ts | 2 ++
 packages-ext/telemetry/src/wrapped/stream-text.ts   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/packages-ext/telemetry/src/wrapped/generate-text.ts b/packages-ext/telemetry/src/wrapped/generate-text.ts
index 3d9dd44..113f37f 100644
--- a/packages-ext/telemetry/src/wrapped/generate-text.ts
+++ b/packages-ext/telemetry/src/wrapped/generate-text.ts
@@ -96,6 +96,8 @@ export const generateText = async (options: WithUnknown<WithTelemetry<GenerateTe
               msgToolCalls.map(async toolCall => executeTool({
                 abortSignal: options.abortSignal,
                 messages,
+                postToolCall: options.postToolCall,
+                preToolCall: options.preToolCall,
                 toolCall,
                 tools: options.tools,
               })),
diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index f141a2a..e5620c3 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -267,6 +267,8 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
           validToolCalls.map(async toolCall => executeTool({
             abortSignal: options.abortSignal,
             messages,
+            postToolCall: options.postToolCall,
+            preToolCall: options.preToolCall,
             toolCall,
             tools,
           })),
-- 
2.43.0


From 58075a7a0ebbf0531dd175e4019070fcaf7afcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:33 +0000
Subject: [PATCH 17/39] fix: send an empty tool list in the traced streaming
 version as in the plain one

---
 packages-ext/telemetry/src/wrapped/stream-text.ts | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index e5620c3..c953c98 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -54,9 +54,7 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
     void options.onStepFinish?.(step)
   }
 
-  const tools = options.tools != null && options.tools.length > 0
-    ? options.tools.map(tool => wrapTool(tool, tracer))
-    : undefined
+  const tools = options.tools?.map(tool => wrapTool(tool, tracer))
 
   const doStream = async () => {
     const stepOptions = await resolvePrepareStep({
-- 
2.43.0


From 9d2d67ed305cd1b66374a179657d4a38e34d1de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:05 +0000
Subject: [PATCH 18/39] fix: give every provider handle options of its own

---
 packages-ext/providers/src/utils/create.ts | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/packages-ext/providers/src/utils/create.ts b/packages-ext/providers/src/utils/create.ts
index fd068b1..d276e22 100644
--- a/packages-ext/providers/src/utils/create.ts
+++ b/packages-ext/providers/src/utils/create.ts
@@ -1,45 +1,45 @@
 import type { ChatProvider, ChatProviderWithExtraOptions, CreateProviderOptions, EmbedProvider, EmbedProviderWithExtraOptions, ImageProvider, ModelProvider, ModelProviderWithExtraOptions, SpeechProvider, SpeechProviderWithExtraOptions, TranscriptionProvider, TranscriptionProviderWithExtraOptions } from './types'
 
 export const createChatProvider = <T extends string = string>(options: CreateProviderOptions): ChatProvider<T> => ({
-  chat: model => Object.assign(options, { model }),
+  chat: model => ({ ...options, model }),
 })
 
 export const createChatProviderWithExtraOptions = <T extends string = string, T2 = undefined>(options: CreateProviderOptions): ChatProviderWithExtraOptions<T, T2> => ({
-  chat: (model, extraOptions) => Object.assign(options, { model }, extraOptions),
+  chat: (model, extraOptions) => ({ ...options, model, ...extraOptions }),
 })
 
 export const createEmbedProvider = <T extends string = string>(options: CreateProviderOptions): EmbedProvider<T> => ({
-  embed: model => Object.assign(options, { model }),
+  embed: model => ({ ...options, model }),
 })
 
 export const createEmbedProviderWithExtraOptions = <T extends string = string, T2 = undefined>(options: CreateProviderOptions): EmbedProviderWithExtraOptions<T, T2> => ({
-  embed: (model, extraOptions) => Object.assign(options, { model }, extraOptions),
+  embed: (model, extraOptions) => ({ ...options, model, ...extraOptions }),
 })
 
 export const createImageProvider = <T extends string = string>(options: CreateProviderOptions): ImageProvider<T> => ({
-  image: model => Object.assign(options, { model }),
+  image: model => ({ ...options, model }),
 })
 
 export const createModelProvider = (options: CreateProviderOptions): ModelProvider => ({
-  model: () => options,
+  model: () => ({ ...options }),
 })
 
 export const createModelProviderWithExtraOptions = <T = undefined>(options: Omit<CreateProviderOptions, 'model'>): ModelProviderWithExtraOptions<T> => ({
-  model: extraOptions => Object.assign(options, extraOptions),
+  model: extraOptions => ({ ...options, ...extraOptions }),
 })
 
 export const createSpeechProvider = <T extends string = string>(options: CreateProviderOptions): SpeechProvider<T> => ({
-  speech: model => Object.assign(options, { model }),
+  speech: model => ({ ...options, model }),
 })
 
 export const createSpeechProviderWithExtraOptions = <T extends string = string, T2 = undefined>(options: CreateProviderOptions): SpeechProviderWithExtraOptions<T, T2> => ({
-  speech: (model, extraOptions) => Object.assign(options, { model }, extraOptions),
+  speech: (model, extraOptions) => ({ ...options, model, ...extraOptions }),
 })
 
 export const createTranscriptionProvider = <T extends string = string>(options: CreateProviderOptions): TranscriptionProvider<T> => ({
-  transcription: model => Object.assign(options, { model }),
+  transcription: model => ({ ...options, model }),
 })
 
 export const createTranscriptionProviderWithExtraOptions = <T extends string = string, T2 = undefined>(options: CreateProviderOptions): TranscriptionProviderWithExtraOptions<T, T2> => ({
-  transcription: (model, extraOptions) => Object.assign(options, { model }, extraOptions),
+  transcription: (model, extraOptions) => ({ ...options, model, ...extraOptions }),
 })
-- 
2.43.0


From 12e0b96fc393ce4a09fd12a69a4c802e56db5546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:05 +0000
Subject: [PATCH 19/39] fix: send OpenRouter's transforms option

---
 packages-ext/providers/src/manual/providers/openrouter.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages-ext/providers/src/manual/providers/openrouter.ts b/packages-ext/providers/src/manual/providers/openrouter.ts
index 7a85d95..d4814c7 100644
--- a/packages-ext/providers/src/manual/providers/openrouter.ts
+++ b/packages-ext/providers/src/manual/providers/openrouter.ts
@@ -104,7 +104,7 @@ export const createOpenRouter = (apiKey: string, baseURL = 'https://openrouter.a
     chat: (model: string, openRouterOptions?: OpenRouterOptions) => {
       const requestOptions: CommonRequestOptions = { apiKey, baseURL, model }
 
-      const toOpenRouterOptions = ({ extraHeaders, models, provider }: OpenRouterOptions): Record<string, unknown> => {
+      const toOpenRouterOptions = ({ extraHeaders, models, provider, transforms }: OpenRouterOptions): Record<string, unknown> => {
         if (extraHeaders != null) {
           requestOptions.headers ??= {}
           Object.assign(requestOptions.headers, extraHeaders)
@@ -118,6 +118,7 @@ export const createOpenRouter = (apiKey: string, baseURL = 'https://openrouter.a
         return objCamelToSnake({
           models,
           provider: transformedProvider,
+          transforms,
         })
       }
 
-- 
2.43.0


From 4f3d3f69e2696771d4da7915708250705cb0d24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:05 +0000
Subject: [PATCH 20/39] fix: send OpenRouter's extra headers when they are a
 Headers instance

---
 packages-ext/providers/src/manual/providers/openrouter.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages-ext/providers/src/manual/providers/openrouter.ts b/packages-ext/providers/src/manual/providers/openrouter.ts
index d4814c7..023a073 100644
--- a/packages-ext/providers/src/manual/providers/openrouter.ts
+++ b/packages-ext/providers/src/manual/providers/openrouter.ts
@@ -107,7 +107,7 @@ export const createOpenRouter = (apiKey: string, baseURL = 'https://openrouter.a
       const toOpenRouterOptions = ({ extraHeaders, models, provider, transforms }: OpenRouterOptions): Record<string, unknown> => {
         if (extraHeaders != null) {
           requestOptions.headers ??= {}
-          Object.assign(requestOptions.headers, extraHeaders)
+          Object.assign(requestOptions.headers, extraHeaders instanceof Headers ? Object.fromEntries(extraHeaders.entries()) : extraHeaders)
         }
 
         let transformedProvider: Record<string, unknown> | undefined
-- 
2.43.0


From 77c4bed705c6f746acebfa42f2cebdf183bd6206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:05 +0000
Subject: [PATCH 21/39] fix: report failures of the Together AI and Featherless
 model lists

---
 packages-ext/providers/src/manual/providers/featherless.ts | 4 ++--
 packages-ext/providers/src/manual/providers/together-ai.ts | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages-ext/providers/src/manual/providers/featherless.ts b/packages-ext/providers/src/manual/providers/featherless.ts
index 648404a..0029958 100644
--- a/packages-ext/providers/src/manual/providers/featherless.ts
+++ b/packages-ext/providers/src/manual/providers/featherless.ts
@@ -14,7 +14,7 @@ export const createFeatherless = (apiKey: string, baseURL = 'https://api.feather
     apiKey,
     baseURL,
     fetch: async (...args: Parameters<typeof globalThis.fetch>) => globalThis.fetch(...args)
-      .then(async res => res.json() as Promise<unknown[]>)
-      .then(data => Response.json({ data, object: 'list' })),
+      // leave failures to the caller
+      .then(async res => res.ok ? Response.json({ data: await res.json() as unknown[], object: 'list' }) : res),
   }),
 )
diff --git a/packages-ext/providers/src/manual/providers/together-ai.ts b/packages-ext/providers/src/manual/providers/together-ai.ts
index 55ac5e2..597d585 100644
--- a/packages-ext/providers/src/manual/providers/together-ai.ts
+++ b/packages-ext/providers/src/manual/providers/together-ai.ts
@@ -18,7 +18,7 @@ export const createTogetherAI = (apiKey: string, baseURL = 'https://api.together
     apiKey,
     baseURL,
     fetch: async (...args: Parameters<typeof globalThis.fetch>) => globalThis.fetch(...args)
-      .then(async res => res.json() as Promise<unknown[]>)
-      .then(data => Response.json({ data, object: 'list' })),
+      // leave failures to the caller
+      .then(async res => res.ok ? Response.json({ data: await res.json() as unknown[], object: 'list' }) : res),
   }),
 )
-- 
2.43.0


From e4e1c5c99184cda1c92d8c884c577cbcf4923353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:05 +0000
Subject: [PATCH 22/39] fix: report failures of Player2 speech requests

---
 packages-ext/providers/src/special/providers/player2.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages-ext/providers/src/special/providers/player2.ts b/packages-ext/providers/src/special/providers/player2.ts
index a3d444c..4d00dae 100644
--- a/packages-ext/providers/src/special/providers/player2.ts
+++ b/packages-ext/providers/src/special/providers/player2.ts
@@ -47,7 +47,12 @@ export const createPlayer2 = (baseURL = 'http://localhost:4315/v1/', gameKey = '
       catch (err) {
         console.warn('Could not parse body as JSON:', err)
       }
-      return globalThis.fetch(newUrl, reqInit).then(async res => res.json() as Promise<{ data?: string }>).then((json: { data?: string }) => {
+      return globalThis.fetch(newUrl, reqInit).then(async (res) => {
+        // leave failures to the caller
+        if (!res.ok)
+          return res
+
+        const json = await res.json() as { data?: string }
         const base64 = json.data ?? ''
         const bytes = Uint8Array.fromBase64(base64)
         const body = new ReadableStream({
-- 
2.43.0


From 966eb9ca63c1501cfac21d4cce9f0c839fb8331f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:54 +0000
Subject: [PATCH 23/39] fix: add no separator after the text if nothing follows
 the last reasoning block

---
 packages/utils-reasoning/src/extract-reasoning.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/utils-reasoning/src/extract-reasoning.ts b/packages/utils-reasoning/src/extract-reasoning.ts
index a76b242..e5250be 100644
--- a/packages/utils-reasoning/src/extract-reasoning.ts
+++ b/packages/utils-reasoning/src/extract-reasoning.ts
@@ -41,7 +41,7 @@ export const extractReasoning = (text: string, options: ExtractReasoningOptions
     startIndex = match.index + match[0].length
 
     // last match
-    if (idx === reasonMatches.length - 1) {
+    if (idx === reasonMatches.length - 1 && startIndex < fullText.length) {
       acc.push(fullText.slice(startIndex))
     }
 
-- 
2.43.0


From 42c8fb8a21b874558820a371c4ddf3c3e6c0f130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:54 +0000
Subject: [PATCH 24/39] fix: take the tag name of reasoning blocks literally

---
 packages/utils-reasoning/src/extract-reasoning.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/utils-reasoning/src/extract-reasoning.ts b/packages/utils-reasoning/src/extract-reasoning.ts
index e5250be..31c60fd 100644
--- a/packages/utils-reasoning/src/extract-reasoning.ts
+++ b/packages/utils-reasoning/src/extract-reasoning.ts
@@ -21,7 +21,9 @@ export const extractReasoning = (text: string, options: ExtractReasoningOptions
   const separator = options.separator ?? '\n'
   const fullText = options.startWithReasoning ? startTag + text : text
 
-  const regex = new RegExp(`${startTag}(.*?)${endTag}`, 'gs')
+  // XML names may contain dots
+  const escape = (str: string) => str.replace(/[$()*+.?[\\\]^{|}]/g, '\\$&')
+  const regex = new RegExp(`${escape(startTag)}(.*?)${escape(endTag)}`, 'gs')
   const reasonMatches = [...fullText.matchAll(regex)]
 
   if (reasonMatches.length === 0) {
-- 
2.43.0


From d0249d4676dccd4531a2002adec339b10b2a3098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:54 +0000
Subject: [PATCH 25/39] fix: separate a trailing partial tag from the block
 before it

---
 packages/utils-reasoning/src/extract-reasoning-stream.ts | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/packages/utils-reasoning/src/extract-reasoning-stream.ts b/packages/utils-reasoning/src/extract-reasoning-stream.ts
index 6383f57..bc29bb3 100644
--- a/packages/utils-reasoning/src/extract-reasoning-stream.ts
+++ b/packages/utils-reasoning/src/extract-reasoning-stream.ts
@@ -54,14 +54,7 @@ export const extractReasoningStream = (stream: ReadableStream<string>, options:
   stream.pipeTo(
     new WritableStream({
       close: () => {
-        if (buffer.length > 0) {
-          if (isReasoning) {
-            reasoningStreamController?.enqueue(buffer)
-          }
-          else {
-            textStreamController?.enqueue(buffer)
-          }
-        }
+        enqueueStream(buffer)
         reasoningStreamController?.close()
         textStreamController?.close()
       },
-- 
2.43.0


From 5631aaa9cb9d2ef177e1e40f4d0e5d68536f992b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:54 +0000
Subject: [PATCH 26/39] fix: do not lose the end of a smoothed stream

---
 packages/utils-stream/src/smooth-stream.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/utils-stream/src/smooth-stream.ts b/packages/utils-stream/src/smooth-stream.ts
index 17bc5e1..b0d5fde 100644
--- a/packages/utils-stream/src/smooth-stream.ts
+++ b/packages/utils-stream/src/smooth-stream.ts
@@ -29,6 +29,10 @@ export const smoothStream = ({ chunking = 'word', delay = 10 }: SmoothStreamOpti
   let buffer = ''
 
   return new TransformStream<string, string>({
+    flush: (controller) => {
+      if (buffer.length > 0)
+        controller.enqueue(buffer)
+    },
     transform: async (chunk, controller) => {
       buffer += chunk
 
-- 
2.43.0


From c5ee3e431073fa37dd40b1d6a891b750b1292f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:54 +0000
Subject: [PATCH 27/39] fix: keep the text before a match when smoothing a
 stream

---
 packages/utils-stream/src/smooth-stream.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/utils-stream/src/smooth-stream.ts b/packages/utils-stream/src/smooth-stream.ts
index b0d5fde..8946e94 100644
--- a/packages/utils-stream/src/smooth-stream.ts
+++ b/packages/utils-stream/src/smooth-stream.ts
@@ -38,7 +38,8 @@ export const smoothStream = ({ chunking = 'word', delay = 10 }: SmoothStreamOpti
 
       let match = chunkingRegexp.exec(buffer)
       while (match !== null) {
-        const result = match[0]
+        // the pattern may match anywhere in the buffer
+        const result = buffer.slice(0, match.index + match[0].length)
         controller.enqueue(result)
         buffer = buffer.slice(result.length)
 
-- 
2.43.0


From bad934ed4736d6e51a94955712380aa762911d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:33 +0000
Subject: [PATCH 28/39] fix: retry only as often as the default says if an
 xsfetch option is undefined

---
 packages-top/xsfetch/src/index.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages-top/xsfetch/src/index.ts b/packages-top/xsfetch/src/index.ts
index d3e773c..573cd39 100644
--- a/packages-top/xsfetch/src/index.ts
+++ b/packages-top/xsfetch/src/index.ts
@@ -17,7 +17,10 @@ const defaults: CreateFetchOptions = {
 }
 
 export const createFetch = (userOptions: Partial<CreateFetchOptions> = {}): typeof globalThis.fetch => {
-  const options: Readonly<CreateFetchOptions> = Object.assign({}, defaults, userOptions)
+  // an option given as undefined must not override its default
+  const options: Readonly<CreateFetchOptions> = Object.assign({}, defaults, Object.fromEntries(
+    Object.entries(userOptions).filter(([, value]) => value !== undefined),
+  ))
 
   const xsfetch = async (retriesLeft: number, input: Request | string | URL, init?: RequestInit) => {
     const res = await fetch(input, init)
-- 
2.43.0


From c59f4675ef6f5a5777647cf0c6824d644162af1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:20 +0000
Subject: [PATCH 29/39] fix: retry requests given as a Request with a body

---
 packages-top/xsfetch/src/index.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages-top/xsfetch/src/index.ts b/packages-top/xsfetch/src/index.ts
index 573cd39..39872da 100644
--- a/packages-top/xsfetch/src/index.ts
+++ b/packages-top/xsfetch/src/index.ts
@@ -23,7 +23,8 @@ export const createFetch = (userOptions: Partial<CreateFetchOptions> = {}): type
   ))
 
   const xsfetch = async (retriesLeft: number, input: Request | string | URL, init?: RequestInit) => {
-    const res = await fetch(input, init)
+    // fetch uses up the body of a request object, which a retry still needs
+    const res = await fetch(input instanceof Request ? input.clone() : input, init)
 
     if (res.ok || retriesLeft === 0 || !options.retryStatusCodes.includes(res.status))
       return res
-- 
2.43.0


From 2a3b85ebd6b097a0d9d4653450b924a8e6853514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:37 +0000
Subject: [PATCH 30/39] fix: settle the usage of streamed speech if the stream
 fails or is cancelled

---
 packages/stream-speech/src/index.ts | 79 ++++++++++++++++-------------
 1 file changed, 43 insertions(+), 36 deletions(-)

diff --git a/packages/stream-speech/src/index.ts b/packages/stream-speech/src/index.ts
index 807dd1e..35990ab 100644
--- a/packages/stream-speech/src/index.ts
+++ b/packages/stream-speech/src/index.ts
@@ -56,46 +56,53 @@ export const streamSpeech = async (options: WithUnknown<StreamSpeechOptions>): P
     streamFormat: 'sse',
   })
 
-  const fullStream = response.body!
+  const { readable: fullStream, writable } = new TransformStream<StreamSpeechEvent, Uint8Array>({
+    flush: () => {
+      if (usageResolved)
+        return
+
+      usageResolved = true
+      usage.resolve(undefined)
+    },
+    transform: (chunk, controller) => {
+      try {
+        switch (chunk.type) {
+          case 'speech.audio.delta':
+            controller.enqueue(Uint8Array.fromBase64(chunk.audio))
+            break
+          case 'speech.audio.done':
+            if (chunk.usage != null) {
+              usage.resolve({
+                inputTokens: chunk.usage.input_tokens,
+                outputTokens: chunk.usage.output_tokens,
+                totalTokens: chunk.usage.total_tokens,
+              })
+              usageResolved = true
+            }
+            break
+        }
+      }
+      catch (error) {
+        if (!usageResolved) {
+          usageResolved = true
+          usage.reject(error)
+        }
+
+        throw error
+      }
+    },
+  })
+
+  // rejects if the response fails or the stream is cancelled
+  response.body!
     .pipeThrough(new TextDecoderStream())
     .pipeThrough(new EventSourceParserStream())
     .pipeThrough(new JsonMessageTransformStream<StreamSpeechEvent>())
-    .pipeThrough(new TransformStream<StreamSpeechEvent, Uint8Array>({
-      flush: () => {
-        if (usageResolved)
-          return
-
-        usageResolved = true
-        usage.resolve(undefined)
-      },
-      transform: (chunk, controller) => {
-        try {
-          switch (chunk.type) {
-            case 'speech.audio.delta':
-              controller.enqueue(Uint8Array.fromBase64(chunk.audio))
-              break
-            case 'speech.audio.done':
-              if (chunk.usage != null) {
-                usage.resolve({
-                  inputTokens: chunk.usage.input_tokens,
-                  outputTokens: chunk.usage.output_tokens,
-                  totalTokens: chunk.usage.total_tokens,
-                })
-                usageResolved = true
-              }
-              break
-          }
-        }
-        catch (error) {
-          if (!usageResolved) {
-            usageResolved = true
-            usage.reject(error)
-          }
+    .pipeTo(writable)
+    .catch(error => usage.reject(error))
 
-          throw error
-        }
-      },
-    }))
+  // callers may not be interested in the usage
+  usage.promise.catch(() => {})
 
   return {
     fullStream,
-- 
2.43.0


From 476c914a767ab15c4e4dffa3c38d6f09ff2c567f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:29 +0000
Subject: [PATCH 31/39] fix: recognise WebP and more AVIF images given inline

---
 packages/generate-image/src/index.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/generate-image/src/index.ts b/packages/generate-image/src/index.ts
index 8210ac9..1be9645 100644
--- a/packages/generate-image/src/index.ts
+++ b/packages/generate-image/src/index.ts
@@ -58,10 +58,11 @@ export interface GenerateImageResultImage {
 /** @internal */
 const mimeTypes = {
   '/9j/': 'image/jpg',
+  'AAAAHGZ0eXBhdmlm': 'image/avif',
   'AAAAIGZ0eXBhdmlm': 'image/avif',
   'iVBORw0KGgo': 'image/png',
   'R0lGOD': 'image/gif',
-  'UklGRg==': 'image/webp',
+  'UklGR': 'image/webp',
 }
 
 /** @internal */
-- 
2.43.0


From 263289eed34b9f828149a0f4acaacba7672f868c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:26 +0000
Subject: [PATCH 32/39] fix: let no result promise a caller leaves out end the
 process when a stream fails

---
 packages-ext/responses/src/utils/responses.ts     | 4 ++++
 packages-ext/telemetry/src/wrapped/stream-text.ts | 4 ++++
 packages/stream-text/src/index.ts                 | 4 ++++
 packages/stream-transcription/src/index.ts        | 2 ++
 4 files changed, 14 insertions(+)

diff --git a/packages-ext/responses/src/utils/responses.ts b/packages-ext/responses/src/utils/responses.ts
index 97bb6f6..46b5995 100644
--- a/packages-ext/responses/src/utils/responses.ts
+++ b/packages-ext/responses/src/utils/responses.ts
@@ -386,6 +386,10 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
     if (failed) {
       errorControllers(finalError, fullCtrl, textCtrl, reasoningTextCtrl, eventCtrl)
 
+      // callers need not take every result, what they leave out must not end the process
+      for (const { promise } of [resultInput, resultSteps, resultUsage, resultTotalUsage])
+        promise.catch(() => {})
+
       resultInput.reject(finalError)
       resultSteps.reject(finalError)
       resultUsage.reject(finalError)
diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index c953c98..e5707b8 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -328,6 +328,10 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
     if (failed) {
       errorControllers(finalError, eventCtrl, fullCtrl, textCtrl, reasoningTextCtrl)
 
+      // callers need not take every result, what they leave out must not end the process
+      for (const { promise } of [resultSteps, resultMessages, resultUsage, resultTotalUsage])
+        promise.catch(() => {})
+
       resultSteps.reject(finalError)
       resultMessages.reject(finalError)
       resultUsage.reject(finalError)
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 97575d2..92f8aac 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -341,6 +341,10 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
     if (failed) {
       errorControllers(finalError, eventCtrl, fullCtrl, textCtrl, reasoningTextCtrl)
 
+      // callers need not take every result, what they leave out must not end the process
+      for (const { promise } of [resultSteps, resultMessages, resultUsage, resultTotalUsage])
+        promise.catch(() => {})
+
       resultSteps.reject(finalError)
       resultMessages.reject(finalError)
       resultUsage.reject(finalError)
diff --git a/packages/stream-transcription/src/index.ts b/packages/stream-transcription/src/index.ts
index 90a14b7..fdd3d74 100644
--- a/packages/stream-transcription/src/index.ts
+++ b/packages/stream-transcription/src/index.ts
@@ -99,6 +99,8 @@ export const streamTranscription = (options: WithUnknown<StreamTranscriptionOpti
     }
     catch (err) {
       errorControllers(err, fullStreamCtrl, textStreamCtrl)
+      // callers need not take the full text, leaving it out must not end the process
+      fullText.promise.catch(() => {})
       fullText.reject(err)
     }
   })()
-- 
2.43.0


From 18a3f33ba8401681795a11f38bcc5ed736f08a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 33/39] fix: release the response of a failed attempt before
 retrying

---
 packages-top/xsfetch/src/index.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages-top/xsfetch/src/index.ts b/packages-top/xsfetch/src/index.ts
index 39872da..ebfa286 100644
--- a/packages-top/xsfetch/src/index.ts
+++ b/packages-top/xsfetch/src/index.ts
@@ -32,6 +32,9 @@ export const createFetch = (userOptions: Partial<CreateFetchOptions> = {}): type
     if (options.debug)
       console.warn('[xsfetch] Failed, retrying... Times left:', retriesLeft)
 
+    // nobody reads this response, an open body would keep its connection busy
+    res.body?.cancel().catch(() => {})
+
     await sleep(options.retryDelay)
     return async () => xsfetch(retriesLeft - 1, input, init)
   }
-- 
2.43.0


From d1a1f654cd4e9b14f31bc43628ef16ec7d25bf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 34/39] fix: release the rest of a Responses stream when its
 step ends

---
 packages-ext/responses/src/utils/responses.ts | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/packages-ext/responses/src/utils/responses.ts b/packages-ext/responses/src/utils/responses.ts
index 46b5995..ce6550f 100644
--- a/packages-ext/responses/src/utils/responses.ts
+++ b/packages-ext/responses/src/utils/responses.ts
@@ -42,6 +42,9 @@ export interface ResponsesResult {
   usage: Promise<undefined | Usage>
 }
 
+/** @internal */
+type NextStep = () => Promise<NextStep | undefined>
+
 /** @experimental */
 export const responses = (options: ResponsesOptions): ResponsesResult => {
   const input = normalizeInput(structuredClone(options.input))
@@ -273,8 +276,7 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
   }
 
   // eslint-disable-next-line sonarjs/cognitive-complexity
-  const doStream = async () => {
-    const reader = await createReader()
+  const readStep = async (reader: ReadableStreamDefaultReader<FullEvent>): Promise<NextStep | undefined> => {
     const functionCalls: FunctionCall[] = []
     const toolCalls: CompletionToolCall[] = []
     const toolResults: CompletionToolResult[] = []
@@ -354,10 +356,20 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
       pushStreamingEvent(event)
       pushEvents(events)
 
-      if (shouldContinue) {
-        reader.releaseLock()
+      if (shouldContinue)
         return async () => doStream()
-      }
+    }
+  }
+
+  const doStream: NextStep = async () => {
+    const reader = await createReader()
+
+    try {
+      return await readStep(reader)
+    }
+    finally {
+      // whatever ended the step, the rest of the response is not read any more
+      reader.cancel().catch(() => {})
     }
   }
 
-- 
2.43.0


From 4882b0d0256e767e28bc589eb13f539a544ad1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 35/39] fix: release the response of a streamed step if its
 first event callback throws

---
 packages-ext/telemetry/src/wrapped/stream-text.ts | 4 ++--
 packages/stream-text/src/index.ts                 | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index e5707b8..be1120f 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -113,8 +113,6 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
       let reasoningStarted = false
       let textStarted = false
 
-      pushEvent({ type: 'step.start' })
-
       await stream!
         .pipeThrough(new TextDecoderStream())
         .pipeThrough(new EventSourceParserStream())
@@ -124,6 +122,8 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
             errorControllers(reason, eventCtrl, fullCtrl, textCtrl, reasoningTextCtrl)
           },
           close: () => {},
+          // a callback that throws here cancels the response
+          start: async () => pushEvent({ type: 'step.start' }),
           // eslint-disable-next-line sonarjs/cognitive-complexity
           write: (chunk) => {
             fullCtrl.current?.enqueue(chunk)
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 92f8aac..85fdcc6 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -142,8 +142,6 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
     let reasoningStarted = false
     let textStarted = false
 
-    pushEvent({ type: 'step.start' })
-
     await stream!
       .pipeThrough(new TextDecoderStream())
       .pipeThrough(new EventSourceParserStream())
@@ -153,6 +151,8 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
           errorControllers(reason, eventCtrl, fullCtrl, textCtrl, reasoningTextCtrl)
         },
         close: () => {},
+        // a callback that throws here cancels the response
+        start: async () => pushEvent({ type: 'step.start' }),
         // eslint-disable-next-line sonarjs/cognitive-complexity
         write: (chunk) => {
           fullCtrl.current?.enqueue(chunk)
-- 
2.43.0


From d08ce8cc07d2b81446269434953eb5c5f546deef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:22 +0000
Subject: [PATCH 36/39] fix: let one output of extractReasoningStream be
 cancelled without breaking the other

---
 packages/utils-reasoning/src/extract-reasoning-stream.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/utils-reasoning/src/extract-reasoning-stream.ts b/packages/utils-reasoning/src/extract-reasoning-stream.ts
index bc29bb3..296893e 100644
--- a/packages/utils-reasoning/src/extract-reasoning-stream.ts
+++ b/packages/utils-reasoning/src/extract-reasoning-stream.ts
@@ -15,12 +15,15 @@ export const extractReasoningStream = (stream: ReadableStream<string>, options:
   const endTag = `</${options.tagName}>`
   const separator = options.separator ?? '\n'
 
-  let reasoningStreamController: ReadableStreamDefaultController<string>
-  let textStreamController: ReadableStreamDefaultController<string>
+  // a stream that was cancelled must not break the other one
+  let reasoningStreamController: ReadableStreamDefaultController<string> | undefined
+  let textStreamController: ReadableStreamDefaultController<string> | undefined
   const reasoningStream = new ReadableStream<string>({
+    cancel: () => reasoningStreamController = undefined,
     start: controller => reasoningStreamController = controller,
   })
   const textStream = new ReadableStream<string>({
+    cancel: () => textStreamController = undefined,
     start: controller => textStreamController = controller,
   })
 
-- 
2.43.0


From 65662de1ee2fa029228da3b0074da5eac575b3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 37/39] fix: keep the inherited validators of tools in the
 telemetry versions

---
 packages-ext/telemetry/src/utils/wrap-tool.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages-ext/telemetry/src/utils/wrap-tool.ts b/packages-ext/telemetry/src/utils/wrap-tool.ts
index 8b13a5b..5d926ce 100644
--- a/packages-ext/telemetry/src/utils/wrap-tool.ts
+++ b/packages-ext/telemetry/src/utils/wrap-tool.ts
@@ -31,4 +31,6 @@ export const wrapTool = (tool: Tool, tracer: Tracer): Tool => ({
       span.setAttribute('gen_ai.tool.call.result', toAttribute(result))
       return result
     }),
+  // the spread leaves out methods of a class
+  validate: tool.validate == null ? undefined : input => tool.validate!(input),
 })
-- 
2.43.0


From 32b87dc5b16930664d87c7241ad663f6748a6a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:18 +0000
Subject: [PATCH 38/39] fix: keep the reasoning text of a generated object

---
 packages/generate-object/src/index.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/generate-object/src/index.ts b/packages/generate-object/src/index.ts
index 2adcb61..0dcd6df 100644
--- a/packages/generate-object/src/index.ts
+++ b/packages/generate-object/src/index.ts
@@ -48,7 +48,7 @@ export async function generateObject<T extends Schema>(options: GenerateObjectOp
     schemaDescription: undefined, // Remove schemaDescription from options
     schemaName: undefined, // Remove schemaName from options
     strict: undefined, // Remove strict from options
-  }).then(async ({ finishReason, messages, steps, text, toolCalls, toolResults, totalUsage, usage }) => {
+  }).then(async ({ finishReason, messages, reasoningText, steps, text, toolCalls, toolResults, totalUsage, usage }) => {
     if (text == null || text.length === 0) {
       throw new InvalidResponseError('Cannot generate an object from an empty response.', {
         reason: 'empty_body',
@@ -64,6 +64,7 @@ export async function generateObject<T extends Schema>(options: GenerateObjectOp
         object: await Promise.all((json as { elements: Schema.InferInput<T>[] })
           .elements
           .map(async element => validate(options.schema, element))),
+        reasoningText,
         steps,
         text,
         toolCalls,
@@ -77,6 +78,7 @@ export async function generateObject<T extends Schema>(options: GenerateObjectOp
         finishReason,
         messages,
         object: await validate(options.schema, json as Schema.InferInput<T>),
+        reasoningText,
         steps,
         text,
         toolCalls,
-- 
2.43.0


From 0e7db7106d5a3d8acd6ba57d677d7b62e3c8c7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:04 +0000
Subject: [PATCH 39/39] fix: references inside a schema keep their target when
 it is wrapped into an array

---
 packages/generate-object/src/_wrap.ts | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/packages/generate-object/src/_wrap.ts b/packages/generate-object/src/_wrap.ts
index b2b7046..d014278 100644
--- a/packages/generate-object/src/_wrap.ts
+++ b/packages/generate-object/src/_wrap.ts
@@ -1,9 +1,31 @@
 import type { JsonSchema } from 'xsschema'
 
+/** keywords whose values are no schemas, and those whose values are schemas by name */
+const DATA = ['const', 'default', 'enum', 'examples']
+const MAPS = ['$defs', 'definitions', 'dependencies', 'dependentSchemas', 'patternProperties', 'properties']
+
+/** references start at the root of the document, which is not the root of the schema any more */
+const rebase = (schema: unknown, isMap = false): unknown => {
+  if (Array.isArray(schema))
+    return schema.map(item => rebase(item))
+
+  // the references of a schema with an identifier of its own start there
+  if (schema === null || typeof schema !== 'object' || (!isMap && '$id' in schema))
+    return schema
+
+  return Object.fromEntries(Object.entries(schema).map(([key, value]) => {
+    if (isMap)
+      return [key, rebase(value)]
+    if (key === '$ref' && typeof value === 'string' && /^#(?:\/|$)/.test(value))
+      return [key, `#/properties/elements/items${value.slice(1)}`]
+    return [key, DATA.includes(key) ? value : rebase(value, MAPS.includes(key))]
+  }))
+}
+
 export const wrap = (items: JsonSchema): JsonSchema => ({
   properties: {
     elements: {
-      items,
+      items: rebase(items) as JsonSchema,
       type: 'array',
     },
   },
-- 
2.43.0

