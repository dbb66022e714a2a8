From 195c37063cceddb7e5a52acb5a5773b55aecf6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 01/41] fix: count usage once per step when streaming text

---
 packages-ext/telemetry/src/wrapped/stream-text.ts | 9 +++++++--
 packages/stream-text/src/index.ts                 | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index e644ca8..45b3586 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -83,12 +83,12 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
         tools,
       })
 
+      let stepUsage: undefined | Usage
       const pushUsage = (u: StreamTextChunkResult['usage']) => {
         if (u == null)
           return
 
-        usage = normalizeChatCompletionUsage(u)
-        totalUsage = computeTotalUsage(totalUsage, usage)
+        stepUsage = normalizeChatCompletionUsage(u)
       }
 
       let text = ''
@@ -205,6 +205,11 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
           },
         }))
 
+      // a provider may report usage more than once per step, only the last report counts
+      usage = stepUsage
+      if (stepUsage != null)
+        totalUsage = computeTotalUsage(totalUsage, stepUsage)
+
       if (reasoningStarted)
         pushEvent({ content: reasoningText ?? '', type: 'reasoning.done' })
       if (textStarted)
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 91e992e..e4170ac 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -110,12 +110,12 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
       toolChoice: stepOptions.toolChoice,
     })
 
+    let stepUsage: undefined | Usage
     const pushUsage = (u: StreamTextChunkResult['usage']) => {
       if (u == null)
         return
 
-      usage = normalizeChatCompletionUsage(u)
-      totalUsage = computeTotalUsage(totalUsage, usage)
+      stepUsage = normalizeChatCompletionUsage(u)
     }
 
     let text = ''
@@ -228,6 +228,11 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
         },
       }))
 
+    // a provider may report usage more than once per step, only the last report counts
+    usage = stepUsage
+    if (stepUsage != null)
+      totalUsage = computeTotalUsage(totalUsage, stepUsage)
+
     if (reasoningStarted)
       pushEvent({ content: reasoningText ?? '', type: 'reasoning.done' })
     if (textStarted)
-- 
2.43.0


From f90fd49a4445935c3987e114ee4097be33f34cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 02/41] fix: keep text sent in the same delta as tool calls

---
 .../telemetry/src/wrapped/stream-text.ts      | 36 ++++++++++---------
 packages/stream-text/src/index.ts             | 36 ++++++++++---------
 2 files changed, 38 insertions(+), 34 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index 45b3586..12c8f8c 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -157,27 +157,29 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
             if (choice.finish_reason != null)
               finishReason = choice.finish_reason
 
-            if (choice.delta.tool_calls?.length === 0 || choice.delta.tool_calls == null) {
-              if (choice.delta.content != null) {
-                if (!textStarted) {
-                  textStarted = true
-                  pushEvent({ type: 'text.start' })
-                }
-                pushEvent({ delta: choice.delta.content, type: 'text.delta' })
-                pushText(choice.delta.content)
+            const hasToolCalls = choice.delta.tool_calls != null && choice.delta.tool_calls.length > 0
+
+            // deltas carrying tool calls usually have an empty content, which does not start a text
+            if (choice.delta.content != null && (!hasToolCalls || choice.delta.content.length > 0)) {
+              if (!textStarted) {
+                textStarted = true
+                pushEvent({ type: 'text.start' })
               }
-              else if (choice.delta.refusal != null) {
-                if (!textStarted) {
-                  textStarted = true
-                  pushEvent({ type: 'text.start' })
-                }
-                pushEvent({ delta: choice.delta.refusal, type: 'text.delta' })
-                pushText(choice.delta.refusal)
+              pushEvent({ delta: choice.delta.content, type: 'text.delta' })
+              pushText(choice.delta.content)
+            }
+            else if (choice.delta.refusal != null && (!hasToolCalls || choice.delta.refusal.length > 0)) {
+              if (!textStarted) {
+                textStarted = true
+                pushEvent({ type: 'text.start' })
               }
+              pushEvent({ delta: choice.delta.refusal, type: 'text.delta' })
+              pushText(choice.delta.refusal)
             }
-            else {
+
+            if (hasToolCalls) {
             // https://platform.openai.com/docs/guides/function-calling?api-mode=chat&lang=javascript#streaming
-              for (const toolCall of choice.delta.tool_calls) {
+              for (const toolCall of choice.delta.tool_calls!) {
                 const { index } = toolCall
 
                 if (!tool_calls.at(index)) {
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index e4170ac..6f926b0 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -184,27 +184,29 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
           if (choice.finish_reason != null)
             finishReason = choice.finish_reason
 
-          if (choice.delta.tool_calls?.length === 0 || choice.delta.tool_calls == null) {
-            if (choice.delta.content != null) {
-              if (!textStarted) {
-                textStarted = true
-                pushEvent({ type: 'text.start' })
-              }
-              pushEvent({ delta: choice.delta.content, type: 'text.delta' })
-              pushText(choice.delta.content)
+          const hasToolCalls = choice.delta.tool_calls != null && choice.delta.tool_calls.length > 0
+
+          // deltas carrying tool calls usually have an empty content, which does not start a text
+          if (choice.delta.content != null && (!hasToolCalls || choice.delta.content.length > 0)) {
+            if (!textStarted) {
+              textStarted = true
+              pushEvent({ type: 'text.start' })
             }
-            else if (choice.delta.refusal != null) {
-              if (!textStarted) {
-                textStarted = true
-                pushEvent({ type: 'text.start' })
-              }
-              pushEvent({ delta: choice.delta.refusal, type: 'text.delta' })
-              pushText(choice.delta.refusal)
+            pushEvent({ delta: choice.delta.content, type: 'text.delta' })
+            pushText(choice.delta.content)
+          }
+          else if (choice.delta.refusal != null && (!hasToolCalls || choice.delta.refusal.length > 0)) {
+            if (!textStarted) {
+              textStarted = true
+              pushEvent({ type: 'text.start' })
             }
+            pushEvent({ delta: choice.delta.refusal, type: 'text.delta' })
+            pushText(choice.delta.refusal)
           }
-          else {
+
+          if (hasToolCalls) {
             // https://platform.openai.com/docs/guides/function-calling?api-mode=chat&lang=javascript#streaming
-            for (const toolCall of choice.delta.tool_calls) {
+            for (const toolCall of choice.delta.tool_calls!) {
               const { index } = toolCall
 
               if (!tool_calls.at(index)) {
-- 
2.43.0


From 3cec3184841aa56b12ae41b678cac710808158c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 03/41] fix: ignore tool call deltas without arguments

---
 packages-ext/telemetry/src/wrapped/stream-text.ts | 4 ++--
 packages/stream-text/src/index.ts                 | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index 12c8f8c..7ae35f4 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -198,9 +198,9 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
                   if (toolCall.function.arguments != null && toolCall.function.arguments.length > 0)
                     pushEvent({ delta: toolCall.function.arguments, type: 'tool-call.delta' })
                 }
-                else {
+                else if (toolCall.function.arguments != null) {
                   tool_calls[index].function.arguments! += toolCall.function.arguments
-                  pushEvent({ delta: toolCall.function.arguments!, type: 'tool-call.delta' })
+                  pushEvent({ delta: toolCall.function.arguments, type: 'tool-call.delta' })
                 }
               }
             }
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 6f926b0..66cfddb 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -221,9 +221,9 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
                 if (toolCall.function.arguments != null && toolCall.function.arguments.length > 0)
                   pushEvent({ delta: toolCall.function.arguments, type: 'tool-call.delta' })
               }
-              else {
+              else if (toolCall.function.arguments != null) {
                 tool_calls[index].function.arguments! += toolCall.function.arguments
-                pushEvent({ delta: toolCall.function.arguments!, type: 'tool-call.delta' })
+                pushEvent({ delta: toolCall.function.arguments, type: 'tool-call.delta' })
               }
             }
           }
-- 
2.43.0


From fe8c79fe8b6504b68e60363973fea22f57c8e665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 04/41] fix: record streamed tool calls without index holes

---
 packages-ext/telemetry/src/wrapped/stream-text.ts | 6 ++++--
 packages/stream-text/src/index.ts                 | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index 7ae35f4..a20ea7f 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -217,16 +217,18 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
       if (textStarted)
         pushEvent({ content: text, type: 'text.done' })
 
+      // provider indices may leave holes
+      const validToolCalls = tool_calls.filter((tc): tc is ToolCall => tc != null)
+
       const message: AssistantMessage = {
         ...(reasoningField != null ? { [reasoningField]: reasoningText } : {}),
         content: text,
         role: 'assistant',
-        tool_calls: tool_calls.length > 0 ? tool_calls : undefined,
+        tool_calls: validToolCalls.length > 0 ? validToolCalls : undefined,
       }
       messages.push(message)
       span.setAttribute('gen_ai.output.messages', JSON.stringify([message]))
 
-      const validToolCalls = tool_calls.filter((tc): tc is ToolCall => tc != null)
       const toolCalls: CompletionToolCall[] = validToolCalls.map(toCompletionToolCall)
       const toolResults: CompletionToolResult[] = []
 
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 66cfddb..fba20df 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -240,14 +240,16 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
     if (textStarted)
       pushEvent({ content: text, type: 'text.done' })
 
+    // provider indices may leave holes
+    const validToolCalls = tool_calls.filter((tc): tc is ToolCall => tc != null)
+
     messages.push({
       ...(reasoningField != null ? { [reasoningField]: reasoningText } : {}),
       content: text,
       role: 'assistant',
-      tool_calls: tool_calls.length > 0 ? tool_calls : undefined,
+      tool_calls: validToolCalls.length > 0 ? validToolCalls : undefined,
     })
 
-    const validToolCalls = tool_calls.filter((tc): tc is ToolCall => tc != null)
     const toolCalls: CompletionToolCall[] = validToolCalls.map(toCompletionToolCall)
     const toolResults: CompletionToolResult[] = []
 
-- 
2.43.0


From 98f13ca249f74c333993887eca2b35069a09d8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:19 +0000
Subject: [PATCH 05/41] fix: send headers given as Headers and let custom
 headers override defaults in any case

---
 packages/shared/src/utils/post-json.ts       |  5 ++---
 packages/shared/src/utils/request-headers.ts | 20 ++++++++++++++++----
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/packages/shared/src/utils/post-json.ts b/packages/shared/src/utils/post-json.ts
index a841b9b..c8a4fe8 100644
--- a/packages/shared/src/utils/post-json.ts
+++ b/packages/shared/src/utils/post-json.ts
@@ -8,10 +8,9 @@ import { responseCatch } from './response-catch'
 export const postJSON = async (path: string, options: WithUnknown<CommonRequestOptions>) =>
   (options.fetch ?? globalThis.fetch)(requestURL(path, options.baseURL), {
     body: requestBody(options),
-    headers: requestHeaders({
+    headers: requestHeaders(options.headers, options.apiKey, {
       'Content-Type': 'application/json',
-      ...options.headers,
-    }, options.apiKey),
+    }),
     method: 'POST',
     signal: options.abortSignal,
   }).then(responseCatch)
diff --git a/packages/shared/src/utils/request-headers.ts b/packages/shared/src/utils/request-headers.ts
index b9a8c9a..8323b7c 100644
--- a/packages/shared/src/utils/request-headers.ts
+++ b/packages/shared/src/utils/request-headers.ts
@@ -2,7 +2,19 @@ import type { CommonRequestOptions } from '../types'
 
 import { clean } from './clean'
 
-export const requestHeaders = (headers?: CommonRequestOptions['headers'], apiKey?: CommonRequestOptions['apiKey']) => clean({
-  Authorization: apiKey !== undefined ? `Bearer ${apiKey}` : undefined,
-  ...headers,
-})
+export const requestHeaders = (headers?: CommonRequestOptions['headers'], apiKey?: CommonRequestOptions['apiKey'], defaults?: Record<string, string>) => {
+  // spreading a `Headers` instance yields nothing
+  const custom: Record<string, string | undefined> = headers instanceof Headers
+    ? Object.fromEntries(headers.entries())
+    : { ...headers }
+  // header names are case-insensitive, so a custom header replaces its default in any letter case
+  const customNames = new Set(Object.keys(custom).map(name => name.toLowerCase()))
+
+  return clean({
+    ...Object.fromEntries(Object.entries({
+      Authorization: apiKey !== undefined ? `Bearer ${apiKey}` : undefined,
+      ...defaults,
+    }).filter(([name]) => !customNames.has(name.toLowerCase()))),
+    ...custom,
+  })
+}
-- 
2.43.0


From 79b4ee33efb667a934c5a02e5b19f8069b8b444e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:19 +0000
Subject: [PATCH 06/41] fix: do not leave result promises of streaming calls as
 unhandled rejections

---
 packages-ext/responses/src/utils/responses.ts     | 4 ++++
 packages-ext/telemetry/src/wrapped/stream-text.ts | 4 ++++
 packages/stream-text/src/index.ts                 | 4 ++++
 packages/stream-transcription/src/index.ts        | 2 ++
 4 files changed, 14 insertions(+)

diff --git a/packages-ext/responses/src/utils/responses.ts b/packages-ext/responses/src/utils/responses.ts
index 0cdfbb5..fe00d49 100644
--- a/packages-ext/responses/src/utils/responses.ts
+++ b/packages-ext/responses/src/utils/responses.ts
@@ -159,6 +159,10 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
   const resultUsage = Promise.withResolvers<undefined | Usage>()
   const resultTotalUsage = Promise.withResolvers<undefined | Usage>()
 
+  // consumers may use the streams only, the errors reach them there
+  for (const { promise } of [resultInput, resultSteps, resultUsage, resultTotalUsage])
+    promise.catch(() => {})
+
   // output
   const [fullStream, fullCtrl] = createControlledStream<FullEvent>()
   const [textStream, textCtrl] = createControlledStream<string>()
diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index a20ea7f..664577a 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -32,6 +32,10 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
   const resultUsage = Promise.withResolvers<undefined | Usage>()
   const resultTotalUsage = Promise.withResolvers<undefined | Usage>()
 
+  // consumers may use the streams only, the errors reach them there
+  for (const { promise } of [resultSteps, resultMessages, resultUsage, resultTotalUsage])
+    promise.catch(() => {})
+
   // output
   const [eventStream, eventCtrl] = createControlledStream<Event>()
   const [fullStream, fullCtrl] = createControlledStream<StreamTextChunkResult>()
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index fba20df..2ddfbba 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -71,6 +71,10 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
   const resultUsage = Promise.withResolvers<undefined | Usage>()
   const resultTotalUsage = Promise.withResolvers<undefined | Usage>()
 
+  // consumers may use the streams only, the errors reach them there
+  for (const { promise } of [resultSteps, resultMessages, resultUsage, resultTotalUsage])
+    promise.catch(() => {})
+
   // output
   const [eventStream, eventCtrl] = createControlledStream<Event>()
   const [fullStream, fullCtrl] = createControlledStream<StreamTextChunkResult>()
diff --git a/packages/stream-transcription/src/index.ts b/packages/stream-transcription/src/index.ts
index 508925d..89c8844 100644
--- a/packages/stream-transcription/src/index.ts
+++ b/packages/stream-transcription/src/index.ts
@@ -35,6 +35,8 @@ export const streamTranscription = (options: WithUnknown<StreamTranscriptionOpti
   const [textStream, textStreamCtrl] = createControlledStream<string>()
   const [fullStream, fullStreamCtrl] = createControlledStream<StreamTranscriptionDelta>()
   const fullText = Promise.withResolvers<string>()
+  // consumers may use the streams only, the errors reach them there
+  fullText.promise.catch(() => {})
   let text = ''
 
   const doStream = async () => {
-- 
2.43.0


From 6a330ceeba037b7267675f3042056dda402c9db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:19 +0000
Subject: [PATCH 07/41] fix: do not report usage of an earlier step in
 responses

---
 packages-ext/responses/src/utils/responses.ts | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/packages-ext/responses/src/utils/responses.ts b/packages-ext/responses/src/utils/responses.ts
index fe00d49..0889c63 100644
--- a/packages-ext/responses/src/utils/responses.ts
+++ b/packages-ext/responses/src/utils/responses.ts
@@ -83,11 +83,10 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
   }
 
   const pushUsage = (nextUsage?: NonNullable<ResponseResource['usage']>) => {
-    if (nextUsage == null)
-      return
+    usage = nextUsage != null ? normalizeUsage(nextUsage) : undefined
 
-    usage = normalizeUsage(nextUsage)
-    totalUsage = computeTotalUsage(totalUsage, usage)
+    if (usage != null)
+      totalUsage = computeTotalUsage(totalUsage, usage)
   }
 
   const pushResponseStep = (response: ResponseResource, stepOptions: {
-- 
2.43.0


From fcd3223f3e7ac521d0ce3aa3eb1f2f5951854f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:19 +0000
Subject: [PATCH 08/41] fix: release response bodies of responses that are not
 read to the end

---
 packages-ext/responses/src/utils/responses.ts | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/packages-ext/responses/src/utils/responses.ts b/packages-ext/responses/src/utils/responses.ts
index 0889c63..f7f44c6 100644
--- a/packages-ext/responses/src/utils/responses.ts
+++ b/packages-ext/responses/src/utils/responses.ts
@@ -274,8 +274,7 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
   }
 
   // eslint-disable-next-line sonarjs/cognitive-complexity
-  const doStream = async () => {
-    const reader = await createReader()
+  const readStream = async (reader: ReadableStreamDefaultReader<FullEvent>) => {
     const functionCalls: FunctionCall[] = []
     const toolCalls: CompletionToolCall[] = []
     const toolResults: CompletionToolResult[] = []
@@ -356,12 +355,23 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
       pushEvents(events)
 
       if (shouldContinue) {
-        reader.releaseLock()
         return async () => doStream()
       }
     }
   }
 
+  const doStream = async () => {
+    const reader = await createReader()
+
+    try {
+      return await readStream(reader)
+    }
+    finally {
+      // release the response body, also when it was not read to the end
+      reader.cancel().catch(() => {})
+    }
+  }
+
   void (async () => {
     let finalError: unknown
 
-- 
2.43.0


From 73d91e5680bcf56a99d4f932cf9ffb18ee518da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 09/41] fix: settle the usage of streamed speech when its
 stream fails or is cancelled

---
 packages/stream-speech/src/index.ts | 82 ++++++++++++++++-------------
 1 file changed, 44 insertions(+), 38 deletions(-)

diff --git a/packages/stream-speech/src/index.ts b/packages/stream-speech/src/index.ts
index 807dd1e..d63f763 100644
--- a/packages/stream-speech/src/index.ts
+++ b/packages/stream-speech/src/index.ts
@@ -49,6 +49,8 @@ export interface StreamSpeechResult {
 /** @experimental */
 export const streamSpeech = async (options: WithUnknown<StreamSpeechOptions>): Promise<StreamSpeechResult> => {
   const usage = Promise.withResolvers<undefined | Usage>()
+  // consumers may use the stream only, the errors reach them there
+  usage.promise.catch(() => {})
   let usageResolved = false
 
   const response = await postJSON('audio/speech', {
@@ -56,49 +58,53 @@ export const streamSpeech = async (options: WithUnknown<StreamSpeechOptions>): P
     streamFormat: 'sse',
   })
 
-  const fullStream = response.body!
-    .pipeThrough(new TextDecoderStream())
-    .pipeThrough(new EventSourceParserStream())
-    .pipeThrough(new JsonMessageTransformStream<StreamSpeechEvent>())
-    .pipeThrough(new TransformStream<StreamSpeechEvent, Uint8Array>({
-      flush: () => {
-        if (usageResolved)
-          return
+  const speechStream = new TransformStream<StreamSpeechEvent, Uint8Array>({
+    flush: () => {
+      if (usageResolved)
+        return
 
-        usageResolved = true
-        usage.resolve(undefined)
-      },
-      transform: (chunk, controller) => {
-        try {
-          switch (chunk.type) {
-            case 'speech.audio.delta':
-              controller.enqueue(Uint8Array.fromBase64(chunk.audio))
-              break
-            case 'speech.audio.done':
-              if (chunk.usage != null) {
-                usage.resolve({
-                  inputTokens: chunk.usage.input_tokens,
-                  outputTokens: chunk.usage.output_tokens,
-                  totalTokens: chunk.usage.total_tokens,
-                })
-                usageResolved = true
-              }
-              break
-          }
+      usageResolved = true
+      usage.resolve(undefined)
+    },
+    transform: (chunk, controller) => {
+      try {
+        switch (chunk.type) {
+          case 'speech.audio.delta':
+            controller.enqueue(Uint8Array.fromBase64(chunk.audio))
+            break
+          case 'speech.audio.done':
+            if (chunk.usage != null) {
+              usage.resolve({
+                inputTokens: chunk.usage.input_tokens,
+                outputTokens: chunk.usage.output_tokens,
+                totalTokens: chunk.usage.total_tokens,
+              })
+              usageResolved = true
+            }
+            break
         }
-        catch (error) {
-          if (!usageResolved) {
-            usageResolved = true
-            usage.reject(error)
-          }
-
-          throw error
+      }
+      catch (error) {
+        if (!usageResolved) {
+          usageResolved = true
+          usage.reject(error)
         }
-      },
-    }))
+
+        throw error
+      }
+    },
+  })
+
+  // settles the usage when the upstream fails or the stream is cancelled, does nothing otherwise
+  response.body!
+    .pipeThrough(new TextDecoderStream())
+    .pipeThrough(new EventSourceParserStream())
+    .pipeThrough(new JsonMessageTransformStream<StreamSpeechEvent>())
+    .pipeTo(speechStream.writable)
+    .catch(error => usage.reject(error))
 
   return {
-    fullStream,
+    fullStream: speechStream.readable,
     usage: usage.promise,
   }
 }
-- 
2.43.0


From d717bf0ff1255b05d303dc33ca35de873d27bc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 10/41] fix: report answers without choices and usage as
 invalid responses

---
 packages-ext/telemetry/src/wrapped/generate-text.ts | 5 +++--
 packages/generate-text/src/index.ts                 | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/generate-text.ts b/packages-ext/telemetry/src/wrapped/generate-text.ts
index 5777e0a..191cc0c 100644
--- a/packages-ext/telemetry/src/wrapped/generate-text.ts
+++ b/packages-ext/telemetry/src/wrapped/generate-text.ts
@@ -49,8 +49,6 @@ export const generateText = async (options: WithUnknown<WithTelemetry<GenerateTe
         .then(responseJSON<GenerateTextResponse>)
         .then(async (res) => {
           const { choices } = res
-          const usage = normalizeChatCompletionUsage(res.usage)
-          const totalUsage = computeTotalUsage(options.totalUsage, usage)
 
           if (!choices?.length) {
             const responseBody = JSON.stringify(res)
@@ -60,6 +58,9 @@ export const generateText = async (options: WithUnknown<WithTelemetry<GenerateTe
             })
           }
 
+          const usage = normalizeChatCompletionUsage(res.usage)
+          const totalUsage = computeTotalUsage(options.totalUsage, usage)
+
           const { finish_reason: finishReason, message } = choices[0]
           const msgToolCalls: ToolCall[] = message?.tool_calls ?? []
           const toolCalls: CompletionToolCall[] = msgToolCalls.map(toCompletionToolCall)
diff --git a/packages/generate-text/src/index.ts b/packages/generate-text/src/index.ts
index 87d39d9..99784dd 100644
--- a/packages/generate-text/src/index.ts
+++ b/packages/generate-text/src/index.ts
@@ -87,8 +87,6 @@ const rawGenerateText = async (options: WithUnknown<GenerateTextOptions>): Promi
     .then(responseJSON<GenerateTextResponse>)
     .then(async (res) => {
       const { choices } = res
-      const usage = normalizeChatCompletionUsage(res.usage)
-      const totalUsage = computeTotalUsage(options.totalUsage, usage)
 
       if (!choices?.length) {
         const responseBody = JSON.stringify(res)
@@ -98,6 +96,9 @@ const rawGenerateText = async (options: WithUnknown<GenerateTextOptions>): Promi
         })
       }
 
+      const usage = normalizeChatCompletionUsage(res.usage)
+      const totalUsage = computeTotalUsage(options.totalUsage, usage)
+
       const { finish_reason: finishReason, message } = choices[0]
       const msgToolCalls = message?.tool_calls ?? []
       const toolCalls: CompletionToolCall[] = msgToolCalls.map(toCompletionToolCall)
-- 
2.43.0


From 8ce7e2391a695eee90f5bca0dc7b963871fffe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 11/41] fix: deliver every element of a streamed array exactly
 once

---
 .../src/utils/to-element-stream.ts            | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/packages/stream-object/src/utils/to-element-stream.ts b/packages/stream-object/src/utils/to-element-stream.ts
index b5bed5b..4d4da8e 100644
--- a/packages/stream-object/src/utils/to-element-stream.ts
+++ b/packages/stream-object/src/utils/to-element-stream.ts
@@ -1,5 +1,3 @@
-import type { PartialDeep } from '../types/partial-deep'
-
 import { parse } from 'best-effort-json-parser'
 
 export const toElementStream = <T>(stream: ReadableStream<string>): ReadableStream<T> => {
@@ -8,18 +6,19 @@ export const toElementStream = <T>(stream: ReadableStream<string>): ReadableStre
 
   return stream.pipeThrough(new TransformStream<string, T>({
     flush: (controller) => {
-      const data = parse(partialObjectData) as PartialDeep<T>
-      controller.enqueue((data as { elements: T[] }).elements.at(-1))
+      const data = parse(partialObjectData) as { elements: T[] }
+      for (const element of data.elements.slice(index))
+        controller.enqueue(element)
     },
     transform: (chunk, controller) => {
       partialObjectData += chunk
       try {
-        const data = parse(partialObjectData) as PartialDeep<T>
-        if (
-          Array.isArray(Object.getOwnPropertyDescriptor(data, 'elements')?.value)
-          && (data as { elements: T[] }).elements.length > index + 1
-        ) {
-          controller.enqueue((data as { elements: T[] }).elements[index++])
+        const data = parse(partialObjectData) as { elements: T[] }
+        const elements: unknown = Object.getOwnPropertyDescriptor(data, 'elements')?.value
+        if (Array.isArray(elements)) {
+          // the last element may still be incomplete
+          for (; index < elements.length - 1; index++)
+            controller.enqueue(elements[index] as T)
         }
       }
       catch {}
-- 
2.43.0


From 4c53a323ee9348f13b955ffe7ec0234dbc13f2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 12/41] fix: do not lose or alter text when smoothing a stream

---
 packages/utils-stream/src/smooth-stream.ts | 24 +++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/packages/utils-stream/src/smooth-stream.ts b/packages/utils-stream/src/smooth-stream.ts
index 17bc5e1..749d5f9 100644
--- a/packages/utils-stream/src/smooth-stream.ts
+++ b/packages/utils-stream/src/smooth-stream.ts
@@ -24,21 +24,35 @@ const CHUNKING_REGEXPS = {
  */
 export const smoothStream = ({ chunking = 'word', delay = 10 }: SmoothStreamOptions = {}): TransformStream<string, string> => {
   const chunkingRegexp
-    = typeof chunking === 'string' ? CHUNKING_REGEXPS[chunking] : chunking
+    = typeof chunking === 'string' ? CHUNKING_REGEXPS[chunking] : new RegExp(chunking)
 
   let buffer = ''
 
+  const nextChunk = () => {
+    // stateful if the pattern is global or sticky
+    chunkingRegexp.lastIndex = 0
+    const match = chunkingRegexp.exec(buffer)
+
+    // text in front of the match belongs to its chunk, an empty match makes no chunk
+    return match !== null && match[0].length > 0
+      ? buffer.slice(0, match.index + match[0].length)
+      : undefined
+  }
+
   return new TransformStream<string, string>({
+    flush: (controller) => {
+      if (buffer.length > 0)
+        controller.enqueue(buffer)
+    },
     transform: async (chunk, controller) => {
       buffer += chunk
 
-      let match = chunkingRegexp.exec(buffer)
-      while (match !== null) {
-        const result = match[0]
+      let result = nextChunk()
+      while (result !== undefined) {
         controller.enqueue(result)
         buffer = buffer.slice(result.length)
 
-        match = chunkingRegexp.exec(buffer)
+        result = nextChunk()
 
         await sleep(delay)
       }
-- 
2.43.0


From 54e36f3743f2473bd3593116c64446050985f1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 13/41] fix: separate reasoning blocks that end with a partial
 tag

---
 packages/utils-reasoning/src/extract-reasoning-stream.ts | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/packages/utils-reasoning/src/extract-reasoning-stream.ts b/packages/utils-reasoning/src/extract-reasoning-stream.ts
index 6383f57..bc29bb3 100644
--- a/packages/utils-reasoning/src/extract-reasoning-stream.ts
+++ b/packages/utils-reasoning/src/extract-reasoning-stream.ts
@@ -54,14 +54,7 @@ export const extractReasoningStream = (stream: ReadableStream<string>, options:
   stream.pipeTo(
     new WritableStream({
       close: () => {
-        if (buffer.length > 0) {
-          if (isReasoning) {
-            reasoningStreamController?.enqueue(buffer)
-          }
-          else {
-            textStreamController?.enqueue(buffer)
-          }
-        }
+        enqueueStream(buffer)
         reasoningStreamController?.close()
         textStreamController?.close()
       },
-- 
2.43.0


From 77972a25d49f2fbd508b82538ca08e8f7093b5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 14/41] fix: treat reasoning tag names literally

---
 packages/utils-reasoning/src/extract-reasoning.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/utils-reasoning/src/extract-reasoning.ts b/packages/utils-reasoning/src/extract-reasoning.ts
index a76b242..090a8f9 100644
--- a/packages/utils-reasoning/src/extract-reasoning.ts
+++ b/packages/utils-reasoning/src/extract-reasoning.ts
@@ -21,7 +21,8 @@ export const extractReasoning = (text: string, options: ExtractReasoningOptions
   const separator = options.separator ?? '\n'
   const fullText = options.startWithReasoning ? startTag + text : text
 
-  const regex = new RegExp(`${startTag}(.*?)${endTag}`, 'gs')
+  const escape = (tag: string) => tag.replace(/[$()*+.?[\\\]^{|}]/g, '\\$&')
+  const regex = new RegExp(`${escape(startTag)}(.*?)${escape(endTag)}`, 'gs')
   const reasonMatches = [...fullText.matchAll(regex)]
 
   if (reasonMatches.length === 0) {
-- 
2.43.0


From a885c51a64d3442d47206fc18c6b4019ef37b298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 15/41] fix: do not share option objects between provider calls

---
 packages-ext/providers/src/utils/create.ts | 22 +++++++++++-----------
 packages-ext/providers/src/utils/merge.ts  |  2 +-
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/packages-ext/providers/src/utils/create.ts b/packages-ext/providers/src/utils/create.ts
index fd068b1..ca07480 100644
--- a/packages-ext/providers/src/utils/create.ts
+++ b/packages-ext/providers/src/utils/create.ts
@@ -1,45 +1,45 @@
 import type { ChatProvider, ChatProviderWithExtraOptions, CreateProviderOptions, EmbedProvider, EmbedProviderWithExtraOptions, ImageProvider, ModelProvider, ModelProviderWithExtraOptions, SpeechProvider, SpeechProviderWithExtraOptions, TranscriptionProvider, TranscriptionProviderWithExtraOptions } from './types'
 
 export const createChatProvider = <T extends string = string>(options: CreateProviderOptions): ChatProvider<T> => ({
-  chat: model => Object.assign(options, { model }),
+  chat: model => Object.assign({}, options, { model }),
 })
 
 export const createChatProviderWithExtraOptions = <T extends string = string, T2 = undefined>(options: CreateProviderOptions): ChatProviderWithExtraOptions<T, T2> => ({
-  chat: (model, extraOptions) => Object.assign(options, { model }, extraOptions),
+  chat: (model, extraOptions) => Object.assign({}, options, { model }, extraOptions),
 })
 
 export const createEmbedProvider = <T extends string = string>(options: CreateProviderOptions): EmbedProvider<T> => ({
-  embed: model => Object.assign(options, { model }),
+  embed: model => Object.assign({}, options, { model }),
 })
 
 export const createEmbedProviderWithExtraOptions = <T extends string = string, T2 = undefined>(options: CreateProviderOptions): EmbedProviderWithExtraOptions<T, T2> => ({
-  embed: (model, extraOptions) => Object.assign(options, { model }, extraOptions),
+  embed: (model, extraOptions) => Object.assign({}, options, { model }, extraOptions),
 })
 
 export const createImageProvider = <T extends string = string>(options: CreateProviderOptions): ImageProvider<T> => ({
-  image: model => Object.assign(options, { model }),
+  image: model => Object.assign({}, options, { model }),
 })
 
 export const createModelProvider = (options: CreateProviderOptions): ModelProvider => ({
-  model: () => options,
+  model: () => ({ ...options }),
 })
 
 export const createModelProviderWithExtraOptions = <T = undefined>(options: Omit<CreateProviderOptions, 'model'>): ModelProviderWithExtraOptions<T> => ({
-  model: extraOptions => Object.assign(options, extraOptions),
+  model: extraOptions => Object.assign({}, options, extraOptions),
 })
 
 export const createSpeechProvider = <T extends string = string>(options: CreateProviderOptions): SpeechProvider<T> => ({
-  speech: model => Object.assign(options, { model }),
+  speech: model => Object.assign({}, options, { model }),
 })
 
 export const createSpeechProviderWithExtraOptions = <T extends string = string, T2 = undefined>(options: CreateProviderOptions): SpeechProviderWithExtraOptions<T, T2> => ({
-  speech: (model, extraOptions) => Object.assign(options, { model }, extraOptions),
+  speech: (model, extraOptions) => Object.assign({}, options, { model }, extraOptions),
 })
 
 export const createTranscriptionProvider = <T extends string = string>(options: CreateProviderOptions): TranscriptionProvider<T> => ({
-  transcription: model => Object.assign(options, { model }),
+  transcription: model => Object.assign({}, options, { model }),
 })
 
 export const createTranscriptionProviderWithExtraOptions = <T extends string = string, T2 = undefined>(options: CreateProviderOptions): TranscriptionProviderWithExtraOptions<T, T2> => ({
-  transcription: (model, extraOptions) => Object.assign(options, { model }, extraOptions),
+  transcription: (model, extraOptions) => Object.assign({}, options, { model }, extraOptions),
 })
diff --git a/packages-ext/providers/src/utils/merge.ts b/packages-ext/providers/src/utils/merge.ts
index d623af9..c51fae9 100644
--- a/packages-ext/providers/src/utils/merge.ts
+++ b/packages-ext/providers/src/utils/merge.ts
@@ -1,4 +1,4 @@
 import type { UnionToIntersection } from 'type-fest'
 
 export const merge = <T extends object[]>(...arr: T): UnionToIntersection<T[number]> =>
-  Object.assign(arr[0], ...arr.slice(1)) as UnionToIntersection<T[number]>
+  Object.assign({}, ...arr) as UnionToIntersection<T[number]>
-- 
2.43.0


From adb9b4a4e66dc14b8bf84812605928913135bc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 16/41] fix: pass transforms and Headers given to OpenRouter

---
 packages-ext/providers/src/manual/providers/openrouter.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages-ext/providers/src/manual/providers/openrouter.ts b/packages-ext/providers/src/manual/providers/openrouter.ts
index 7a85d95..023a073 100644
--- a/packages-ext/providers/src/manual/providers/openrouter.ts
+++ b/packages-ext/providers/src/manual/providers/openrouter.ts
@@ -104,10 +104,10 @@ export const createOpenRouter = (apiKey: string, baseURL = 'https://openrouter.a
     chat: (model: string, openRouterOptions?: OpenRouterOptions) => {
       const requestOptions: CommonRequestOptions = { apiKey, baseURL, model }
 
-      const toOpenRouterOptions = ({ extraHeaders, models, provider }: OpenRouterOptions): Record<string, unknown> => {
+      const toOpenRouterOptions = ({ extraHeaders, models, provider, transforms }: OpenRouterOptions): Record<string, unknown> => {
         if (extraHeaders != null) {
           requestOptions.headers ??= {}
-          Object.assign(requestOptions.headers, extraHeaders)
+          Object.assign(requestOptions.headers, extraHeaders instanceof Headers ? Object.fromEntries(extraHeaders.entries()) : extraHeaders)
         }
 
         let transformedProvider: Record<string, unknown> | undefined
@@ -118,6 +118,7 @@ export const createOpenRouter = (apiKey: string, baseURL = 'https://openrouter.a
         return objCamelToSnake({
           models,
           provider: transformedProvider,
+          transforms,
         })
       }
 
-- 
2.43.0


From 20905366da335508aa2946b0a354218c5d72fea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 17/41] fix: report failed requests of providers with converted
 responses

---
 packages-ext/providers/src/manual/providers/featherless.ts | 5 +++--
 packages-ext/providers/src/manual/providers/together-ai.ts | 5 +++--
 packages-ext/providers/src/special/providers/player2.ts    | 6 +++++-
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/packages-ext/providers/src/manual/providers/featherless.ts b/packages-ext/providers/src/manual/providers/featherless.ts
index 648404a..15bcf0d 100644
--- a/packages-ext/providers/src/manual/providers/featherless.ts
+++ b/packages-ext/providers/src/manual/providers/featherless.ts
@@ -14,7 +14,8 @@ export const createFeatherless = (apiKey: string, baseURL = 'https://api.feather
     apiKey,
     baseURL,
     fetch: async (...args: Parameters<typeof globalThis.fetch>) => globalThis.fetch(...args)
-      .then(async res => res.json() as Promise<unknown[]>)
-      .then(data => Response.json({ data, object: 'list' })),
+      .then(async res => res.ok
+        ? Response.json({ data: await res.json() as unknown[], object: 'list' })
+        : res),
   }),
 )
diff --git a/packages-ext/providers/src/manual/providers/together-ai.ts b/packages-ext/providers/src/manual/providers/together-ai.ts
index 55ac5e2..8681bb0 100644
--- a/packages-ext/providers/src/manual/providers/together-ai.ts
+++ b/packages-ext/providers/src/manual/providers/together-ai.ts
@@ -18,7 +18,8 @@ export const createTogetherAI = (apiKey: string, baseURL = 'https://api.together
     apiKey,
     baseURL,
     fetch: async (...args: Parameters<typeof globalThis.fetch>) => globalThis.fetch(...args)
-      .then(async res => res.json() as Promise<unknown[]>)
-      .then(data => Response.json({ data, object: 'list' })),
+      .then(async res => res.ok
+        ? Response.json({ data: await res.json() as unknown[], object: 'list' })
+        : res),
   }),
 )
diff --git a/packages-ext/providers/src/special/providers/player2.ts b/packages-ext/providers/src/special/providers/player2.ts
index a3d444c..fa5f5cb 100644
--- a/packages-ext/providers/src/special/providers/player2.ts
+++ b/packages-ext/providers/src/special/providers/player2.ts
@@ -47,7 +47,11 @@ export const createPlayer2 = (baseURL = 'http://localhost:4315/v1/', gameKey = '
       catch (err) {
         console.warn('Could not parse body as JSON:', err)
       }
-      return globalThis.fetch(newUrl, reqInit).then(async res => res.json() as Promise<{ data?: string }>).then((json: { data?: string }) => {
+      return globalThis.fetch(newUrl, reqInit).then(async (res) => {
+        if (!res.ok)
+          return res
+
+        const json = await res.json() as { data?: string }
         const base64 = json.data ?? ''
         const bytes = Uint8Array.fromBase64(base64)
         const body = new ReadableStream({
-- 
2.43.0


From c6c92e7bc0428a518b1e75d4663b3b80b866f04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 18/41] fix: validate tool inputs and run tool hooks with
 telemetry

---
 packages-ext/telemetry/src/utils/wrap-tool.ts   | 17 +++++++++++++----
 .../telemetry/src/wrapped/generate-text.ts      |  2 ++
 .../telemetry/src/wrapped/stream-text.ts        |  6 +++---
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/packages-ext/telemetry/src/utils/wrap-tool.ts b/packages-ext/telemetry/src/utils/wrap-tool.ts
index 37d2c4d..0778213 100644
--- a/packages-ext/telemetry/src/utils/wrap-tool.ts
+++ b/packages-ext/telemetry/src/utils/wrap-tool.ts
@@ -3,12 +3,23 @@ import type { Tool, ToolExecuteOptions } from 'xsai'
 
 import { recordSpan } from './record-span'
 
+// values that can not be serialized must not make the call fail
+const stringify = (value: unknown) => {
+  try {
+    return JSON.stringify(value)
+  }
+  catch {
+    return undefined
+  }
+}
+
 export const wrapTool = (tool: Tool, tracer: Tracer): Tool => ({
+  ...tool,
   execute: async (input: unknown, options: ToolExecuteOptions) =>
     recordSpan({
       attributes: {
         'gen_ai.operation.name': 'execute_tool',
-        'gen_ai.tool.call.arguments': JSON.stringify(input),
+        'gen_ai.tool.call.arguments': stringify(input),
         'gen_ai.tool.call.description': tool.function.description,
         'gen_ai.tool.call.id': options.toolCallId,
         'gen_ai.tool.call.name': tool.function.name,
@@ -17,9 +28,7 @@ export const wrapTool = (tool: Tool, tracer: Tracer): Tool => ({
       tracer,
     }, async (span) => {
       const result = await tool.execute(input, options)
-      span.setAttribute('gen_ai.tool.call.result', JSON.stringify(result))
+      span.setAttributes({ 'gen_ai.tool.call.result': stringify(result) })
       return result
     }),
-  function: tool.function,
-  type: tool.type,
 })
diff --git a/packages-ext/telemetry/src/wrapped/generate-text.ts b/packages-ext/telemetry/src/wrapped/generate-text.ts
index 191cc0c..d2f0d94 100644
--- a/packages-ext/telemetry/src/wrapped/generate-text.ts
+++ b/packages-ext/telemetry/src/wrapped/generate-text.ts
@@ -95,6 +95,8 @@ export const generateText = async (options: WithUnknown<WithTelemetry<GenerateTe
               msgToolCalls.map(async toolCall => executeTool({
                 abortSignal: options.abortSignal,
                 messages,
+                postToolCall: options.postToolCall,
+                preToolCall: options.preToolCall,
                 toolCall,
                 tools: options.tools,
               })),
diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index 664577a..a3121ce 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -54,9 +54,7 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
     void options.onStepFinish?.(step)
   }
 
-  const tools = options.tools != null && options.tools.length > 0
-    ? options.tools.map(tool => wrapTool(tool, tracer))
-    : undefined
+  const tools = options.tools?.map(tool => wrapTool(tool, tracer))
 
   const doStream = async () => {
     const stepOptions = await resolvePrepareStep({
@@ -260,6 +258,8 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
           validToolCalls.map(async toolCall => executeTool({
             abortSignal: options.abortSignal,
             messages,
+            postToolCall: options.postToolCall,
+            preToolCall: options.preToolCall,
             toolCall,
             tools,
           })),
-- 
2.43.0


From 30a34cf355a11fce0b0473378ae2a754cdecbc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 19/41] fix: recognise WebP and AVIF images of any size

---
 packages/generate-image/src/index.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/generate-image/src/index.ts b/packages/generate-image/src/index.ts
index 8210ac9..3343119 100644
--- a/packages/generate-image/src/index.ts
+++ b/packages/generate-image/src/index.ts
@@ -58,15 +58,15 @@ export interface GenerateImageResultImage {
 /** @internal */
 const mimeTypes = {
   '/9j/': 'image/jpg',
-  'AAAAIGZ0eXBhdmlm': 'image/avif',
+  'AAAA..Z0eXBhdmlm': 'image/avif', // `..` is the box size
   'iVBORw0KGgo': 'image/png',
   'R0lGOD': 'image/gif',
-  'UklGRg==': 'image/webp',
+  'UklGR': 'image/webp',
 }
 
 /** @internal */
 const convertImage = (b64_json: string) => {
-  const key = Object.keys(mimeTypes).find(prefix => b64_json.startsWith(prefix)) as keyof typeof mimeTypes | undefined
+  const key = Object.keys(mimeTypes).find(prefix => new RegExp(`^${prefix}`).test(b64_json)) as keyof typeof mimeTypes | undefined
   const mimeType = mimeTypes[key ?? 'iVBORw0KGgo']
 
   return {
-- 
2.43.0


From d506eefcb773ec6bbe631282b23b84fe45e1d472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 20/41] fix: download images in runtimes without FileReader

---
 packages/generate-image/src/index.ts | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/packages/generate-image/src/index.ts b/packages/generate-image/src/index.ts
index 3343119..770f09e 100644
--- a/packages/generate-image/src/index.ts
+++ b/packages/generate-image/src/index.ts
@@ -76,22 +76,18 @@ const convertImage = (b64_json: string) => {
 }
 
 /** @internal */
-const responseBlobAsDataURL = async (res: Response): Promise<string> =>
+const responseBlobAsDataURL = async (res: Response): Promise<GenerateImageResultImage> =>
   responseCatch(res)
     .then(async (res) => {
       const blob = await res.blob()
+      // `FileReader` is not available in every runtime
+      const bytes = Array.from(new Uint8Array(await blob.arrayBuffer()), byte => String.fromCharCode(byte))
+      const b64_json = btoa(bytes.join(''))
+      const mimeType = blob.type.split(';')[0]
 
-      try {
-        return await new Promise<string>((resolve, reject) => {
-          const reader = new FileReader()
-          reader.onloadend = () => resolve(reader.result as string)
-          reader.onerror = reject
-          reader.readAsDataURL(blob)
-        })
-      }
-      catch {
-        throw new Error(`Failed to parse response blob, response URL: ${res.url}`)
-      }
+      return mimeType.startsWith('image/')
+        ? { base64: `data:${mimeType};base64,${b64_json}`, mimeType }
+        : convertImage(b64_json)
     })
 
 /** @experimental */
@@ -110,14 +106,6 @@ export const generateImage = async (options: WithUnknown<GenerateImageOptions>):
               signal: options.abortSignal,
             })
               .then(responseBlobAsDataURL)
-              .then((dataURL) => {
-                const sepIndex = dataURL.indexOf(';')
-                const mimeType = dataURL.substring(5, sepIndex) // `data:(...);...`
-                return {
-                  base64: dataURL,
-                  mimeType,
-                }
-              })
           }
 
           throw new Error(`Unrecognized image at index ${i}: ${JSON.stringify(img)}`)
-- 
2.43.0


From 07ee0ffb306956fc8cd008382be62f4711f58b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 21/41] fix: retry Request objects with a body

---
 packages-top/xsfetch/src/index.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages-top/xsfetch/src/index.ts b/packages-top/xsfetch/src/index.ts
index d3e773c..778a0f8 100644
--- a/packages-top/xsfetch/src/index.ts
+++ b/packages-top/xsfetch/src/index.ts
@@ -20,7 +20,8 @@ export const createFetch = (userOptions: Partial<CreateFetchOptions> = {}): type
   const options: Readonly<CreateFetchOptions> = Object.assign({}, defaults, userOptions)
 
   const xsfetch = async (retriesLeft: number, input: Request | string | URL, init?: RequestInit) => {
-    const res = await fetch(input, init)
+    // the body of a request can be sent only once
+    const res = await fetch(input instanceof Request && retriesLeft > 0 ? input.clone() : input, init)
 
     if (res.ok || retriesLeft === 0 || !options.retryStatusCodes.includes(res.status))
       return res
-- 
2.43.0


From 597647acedcd5c5c64983f2275465e07f19f5023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 22/41] fix: release the responses of retried attempts

---
 packages-top/xsfetch/src/index.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages-top/xsfetch/src/index.ts b/packages-top/xsfetch/src/index.ts
index 778a0f8..9778f3b 100644
--- a/packages-top/xsfetch/src/index.ts
+++ b/packages-top/xsfetch/src/index.ts
@@ -29,6 +29,9 @@ export const createFetch = (userOptions: Partial<CreateFetchOptions> = {}): type
     if (options.debug)
       console.warn('[xsfetch] Failed, retrying... Times left:', retriesLeft)
 
+    // release the connection of the failed attempt
+    res.body?.cancel().catch(() => {})
+
     await sleep(options.retryDelay)
     return async () => xsfetch(retriesLeft - 1, input, init)
   }
-- 
2.43.0


From 4736d40916748996dd7338af0464393b091371c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 23/41] fix: close object schemas in arrays, unions and
 definitions in strict mode

---
 packages-top/xsschema/src/json-schema.ts | 31 +++++++++++++++---------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/packages-top/xsschema/src/json-schema.ts b/packages-top/xsschema/src/json-schema.ts
index 892778a..02ccfd9 100644
--- a/packages-top/xsschema/src/json-schema.ts
+++ b/packages-top/xsschema/src/json-schema.ts
@@ -2,18 +2,25 @@ import type { JsonSchema } from './types'
 
 export const jsonSchema = (schema: JsonSchema) => schema
 
+type JsonSchemaDefinition = boolean | JsonSchema
+
+const isObjectSchema = ({ properties, type }: JsonSchema) =>
+  type === undefined ? properties != null : [type].flat().includes('object')
+
+const strictDefinition = <T extends JsonSchemaDefinition>(schema: T) =>
+  (schema != null && typeof schema === 'object' ? strictJsonSchema(schema) : schema) as T
+
+const strictRecord = (schemas: Record<string, JsonSchemaDefinition>) =>
+  Object.fromEntries(Object.entries(schemas).map(([k, v]) => [k, strictDefinition(v)]))
+
+/** @remarks leaves `allOf` alone, closing its branches would make them exclude each other. */
 export const strictJsonSchema = (schema: JsonSchema): JsonSchema => ({
   ...schema,
-  additionalProperties: false,
-  properties: schema.properties != null
-    ? Object.fromEntries(
-        Object.entries(schema.properties)
-          .map(([k, v]) => [
-            k,
-            v != null && typeof v === 'object' && 'type' in v && v.type === 'object'
-              ? strictJsonSchema(v)
-              : v,
-          ]),
-      )
-    : schema.properties,
+  ...(isObjectSchema(schema) && { additionalProperties: false }),
+  ...(schema.properties != null && { properties: strictRecord(schema.properties) }),
+  ...(schema.items != null && { items: Array.isArray(schema.items) ? schema.items.map(strictDefinition) : strictDefinition(schema.items) }),
+  ...(schema.anyOf != null && { anyOf: schema.anyOf.map(strictDefinition) }),
+  ...(schema.oneOf != null && { oneOf: schema.oneOf.map(strictDefinition) }),
+  ...(schema.definitions != null && { definitions: strictRecord(schema.definitions) }),
+  ...(schema.$defs != null && { $defs: strictRecord(schema.$defs) }),
 })
-- 
2.43.0


From 78fceb0ee6e2005668026d2837d7ee2428537882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 24/41] fix: close the wrapper schema of array outputs in
 strict mode

---
 packages/generate-object/src/index.ts             | 6 +++---
 packages/stream-object/src/utils/stream-object.ts | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/packages/generate-object/src/index.ts b/packages/generate-object/src/index.ts
index 2adcb61..d06265a 100644
--- a/packages/generate-object/src/index.ts
+++ b/packages/generate-object/src/index.ts
@@ -26,12 +26,12 @@ export async function generateObject<T extends Schema>(options: GenerateObjectOp
 export async function generateObject<T extends Schema>(options: GenerateObjectOptions<T> & { output?: GenerateObjectOutputOption }) {
   let schema = await toJsonSchema(options.schema)
 
-  if (options.strict !== false)
-    schema = strictJsonSchema(schema)
-
   if (options.output === 'array')
     schema = wrap(schema)
 
+  if (options.strict !== false)
+    schema = strictJsonSchema(schema)
+
   return generateText({
     ...options,
     output: undefined, // Remove output from options
diff --git a/packages/stream-object/src/utils/stream-object.ts b/packages/stream-object/src/utils/stream-object.ts
index 553ac42..09f014e 100644
--- a/packages/stream-object/src/utils/stream-object.ts
+++ b/packages/stream-object/src/utils/stream-object.ts
@@ -46,12 +46,12 @@ export async function streamObject<T extends Schema>(
 ): Promise<StreamObjectResult<T>> {
   let schema = await toJsonSchema(options.schema)
 
-  if (options.strict !== false)
-    schema = strictJsonSchema(schema)
-
   if (options.output === 'array')
     schema = wrap(schema)
 
+  if (options.strict !== false)
+    schema = strictJsonSchema(schema)
+
   let { textStream, ...rest } = streamText({
     ...options,
     output: undefined,
-- 
2.43.0


From f657260f2e7c55d91ce991d1db340be2bc3a5fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 25/41] fix: return the reasoning text of generated objects

---
 packages/generate-object/src/index.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/generate-object/src/index.ts b/packages/generate-object/src/index.ts
index d06265a..78c5c8c 100644
--- a/packages/generate-object/src/index.ts
+++ b/packages/generate-object/src/index.ts
@@ -48,7 +48,7 @@ export async function generateObject<T extends Schema>(options: GenerateObjectOp
     schemaDescription: undefined, // Remove schemaDescription from options
     schemaName: undefined, // Remove schemaName from options
     strict: undefined, // Remove strict from options
-  }).then(async ({ finishReason, messages, steps, text, toolCalls, toolResults, totalUsage, usage }) => {
+  }).then(async ({ finishReason, messages, reasoningText, steps, text, toolCalls, toolResults, totalUsage, usage }) => {
     if (text == null || text.length === 0) {
       throw new InvalidResponseError('Cannot generate an object from an empty response.', {
         reason: 'empty_body',
@@ -64,6 +64,7 @@ export async function generateObject<T extends Schema>(options: GenerateObjectOp
         object: await Promise.all((json as { elements: Schema.InferInput<T>[] })
           .elements
           .map(async element => validate(options.schema, element))),
+        reasoningText,
         steps,
         text,
         toolCalls,
@@ -77,6 +78,7 @@ export async function generateObject<T extends Schema>(options: GenerateObjectOp
         finishReason,
         messages,
         object: await validate(options.schema, json as Schema.InferInput<T>),
+        reasoningText,
         steps,
         text,
         toolCalls,
-- 
2.43.0


From 2d39c5b160af9ef201f0fc37b48d0e344a27e79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:54 +0000
Subject: [PATCH 26/41] fix: upload files under their own name when no file
 name is given

---
 packages/generate-transcription/src/index.ts | 6 +++++-
 packages/stream-transcription/src/index.ts   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/packages/generate-transcription/src/index.ts b/packages/generate-transcription/src/index.ts
index 1cd6a09..3d2de79 100644
--- a/packages/generate-transcription/src/index.ts
+++ b/packages/generate-transcription/src/index.ts
@@ -72,7 +72,11 @@ export const generateTranscription = async <
   const body = new FormData()
 
   body.append('model', options.model)
-  body.append('file', options.file, options.fileName)
+  // an explicit `undefined` would become the name of the file in some runtimes
+  if (options.fileName === undefined)
+    body.append('file', options.file)
+  else
+    body.append('file', options.file, options.fileName)
   body.append('response_format', options.responseFormat ?? 'json')
 
   // make ts happy
diff --git a/packages/stream-transcription/src/index.ts b/packages/stream-transcription/src/index.ts
index 89c8844..c1f8728 100644
--- a/packages/stream-transcription/src/index.ts
+++ b/packages/stream-transcription/src/index.ts
@@ -43,7 +43,11 @@ export const streamTranscription = (options: WithUnknown<StreamTranscriptionOpti
     // Build FormData for file upload
     const body = new FormData()
     body.append('model', options.model)
-    body.append('file', options.file, options.fileName)
+    // an explicit `undefined` would become the name of the file in some runtimes
+    if (options.fileName === undefined)
+      body.append('file', options.file)
+    else
+      body.append('file', options.file, options.fileName)
     body.append('stream', 'true')
 
     if (options.language != null)
-- 
2.43.0


From fc3e2993a3f889fc67512292d9db89a01a4a9f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 27/41] fix: fall back to the default for fetch options that
 are undefined

---
 packages-top/xsfetch/src/index.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages-top/xsfetch/src/index.ts b/packages-top/xsfetch/src/index.ts
index 9778f3b..6c71c02 100644
--- a/packages-top/xsfetch/src/index.ts
+++ b/packages-top/xsfetch/src/index.ts
@@ -17,7 +17,8 @@ const defaults: CreateFetchOptions = {
 }
 
 export const createFetch = (userOptions: Partial<CreateFetchOptions> = {}): typeof globalThis.fetch => {
-  const options: Readonly<CreateFetchOptions> = Object.assign({}, defaults, userOptions)
+  // options that are `undefined` are not given, they must not replace the defaults
+  const options: Readonly<CreateFetchOptions> = Object.assign({}, defaults, Object.fromEntries(Object.entries(userOptions).filter(([, v]) => v !== undefined)))
 
   const xsfetch = async (retriesLeft: number, input: Request | string | URL, init?: RequestInit) => {
     // the body of a request can be sent only once
-- 
2.43.0


From 4db65852fa21cb96659b260bc4817d1b620ee013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:04 +0000
Subject: [PATCH 28/41] fix: keep extracting reasoning when one of the streams
 is cancelled

---
 .../utils-reasoning/src/extract-reasoning-stream.ts   | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/packages/utils-reasoning/src/extract-reasoning-stream.ts b/packages/utils-reasoning/src/extract-reasoning-stream.ts
index bc29bb3..49375af 100644
--- a/packages/utils-reasoning/src/extract-reasoning-stream.ts
+++ b/packages/utils-reasoning/src/extract-reasoning-stream.ts
@@ -15,13 +15,16 @@ export const extractReasoningStream = (stream: ReadableStream<string>, options:
   const endTag = `</${options.tagName}>`
   const separator = options.separator ?? '\n'
 
-  let reasoningStreamController: ReadableStreamDefaultController<string>
-  let textStreamController: ReadableStreamDefaultController<string>
+  let reasoningStreamController: ReadableStreamDefaultController<string> | undefined
+  let textStreamController: ReadableStreamDefaultController<string> | undefined
   const reasoningStream = new ReadableStream<string>({
-    start: controller => reasoningStreamController = controller,
+    // the other stream goes on
+    cancel: () => { reasoningStreamController = undefined },
+    start: (controller) => { reasoningStreamController = controller },
   })
   const textStream = new ReadableStream<string>({
-    start: controller => textStreamController = controller,
+    cancel: () => { textStreamController = undefined },
+    start: (controller) => { textStreamController = controller },
   })
 
   // state for the stream parsing
-- 
2.43.0


From 86c0e9b402276464675e7244009b896f12a944d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:42 +0000
Subject: [PATCH 29/41] fix: read exponent numbers correctly while an object is
 being streamed

---
 .../stream-object/src/utils/parse-partial.ts  | 46 +++++++++++++++++++
 .../src/utils/to-element-stream.ts            |  4 +-
 .../src/utils/to-partial-object-stream.ts     |  4 +-
 3 files changed, 51 insertions(+), 3 deletions(-)
 create mode 100644 packages/stream-object/src/utils/parse-partial.ts

diff --git a/packages/stream-object/src/utils/parse-partial.ts b/packages/stream-object/src/utils/parse-partial.ts
new file mode 100644
index 0000000..9a7fb09
--- /dev/null
+++ b/packages/stream-object/src/utils/parse-partial.ts
@@ -0,0 +1,46 @@
+import { parse } from 'best-effort-json-parser'
+
+/** closes everything that is still open, so that the parts that are complete are read exactly as they are. */
+export const parsePartial = (text: string): unknown => {
+  const closers: string[] = []
+  let inString = false
+  let safe = 0
+
+  for (let i = 0; i < text.length; i++) {
+    const char = text[i]
+    if (inString) {
+      if (char === '\\') {
+        const next = i + (text[i + 1] === 'u' ? 6 : 2)
+        // leave out an escape sequence that is still being received
+        if (next > text.length)
+          text = text.slice(0, i)
+        i = next - 1
+      }
+      else if (char === '"')
+        inString = false
+      continue
+    }
+    if (char === '"')
+      inString = true
+    else if (char === ',')
+      safe = i
+    else if (char === '{' || char === '[') {
+      closers.unshift(char === '{' ? '}' : ']')
+      safe = i + 1
+    }
+    else if (char === '}' || char === ']') {
+      closers.shift()
+      safe = i + 1
+    }
+  }
+
+  // the second attempt leaves out a key or literal that is still being received
+  for (const complete of [inString ? `${text}"` : text.replace(/(\d)(?:\.|e[+-]?)$/i, '$1'), text.slice(0, safe)]) {
+    try {
+      return JSON.parse(complete + closers.join('')) as unknown
+    }
+    catch {}
+  }
+
+  return parse(text) as unknown
+}
diff --git a/packages/stream-object/src/utils/to-element-stream.ts b/packages/stream-object/src/utils/to-element-stream.ts
index 4d4da8e..dbcbbeb 100644
--- a/packages/stream-object/src/utils/to-element-stream.ts
+++ b/packages/stream-object/src/utils/to-element-stream.ts
@@ -1,5 +1,7 @@
 import { parse } from 'best-effort-json-parser'
 
+import { parsePartial } from './parse-partial'
+
 export const toElementStream = <T>(stream: ReadableStream<string>): ReadableStream<T> => {
   let partialObjectData = ''
   let index = 0
@@ -13,7 +15,7 @@ export const toElementStream = <T>(stream: ReadableStream<string>): ReadableStre
     transform: (chunk, controller) => {
       partialObjectData += chunk
       try {
-        const data = parse(partialObjectData) as { elements: T[] }
+        const data = parsePartial(partialObjectData) as { elements: T[] }
         const elements: unknown = Object.getOwnPropertyDescriptor(data, 'elements')?.value
         if (Array.isArray(elements)) {
           // the last element may still be incomplete
diff --git a/packages/stream-object/src/utils/to-partial-object-stream.ts b/packages/stream-object/src/utils/to-partial-object-stream.ts
index 34da6f4..a1118af 100644
--- a/packages/stream-object/src/utils/to-partial-object-stream.ts
+++ b/packages/stream-object/src/utils/to-partial-object-stream.ts
@@ -1,6 +1,6 @@
 import type { PartialDeep } from '../types/partial-deep'
 
-import { parse } from 'best-effort-json-parser'
+import { parsePartial } from './parse-partial'
 
 export const toPartialObjectStream = <T>(stream: ReadableStream<string>): ReadableStream<PartialDeep<T>> => {
   let partialObjectData = ''
@@ -10,7 +10,7 @@ export const toPartialObjectStream = <T>(stream: ReadableStream<string>): Readab
     transform: (chunk, controller) => {
       partialObjectData += chunk
       try {
-        const data = parse(partialObjectData) as PartialDeep<T>
+        const data = parsePartial(partialObjectData) as PartialDeep<T>
 
         if (JSON.stringify(partialObjectSnapshot) !== JSON.stringify(data)) {
           partialObjectSnapshot = data
-- 
2.43.0


From b9e81fbcaa539009503f6ebf7076a443b7ca8644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:36 +0000
Subject: [PATCH 30/41] fix: do not deliver an empty string as a partial object

---
 packages/stream-object/src/utils/to-partial-object-stream.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/stream-object/src/utils/to-partial-object-stream.ts b/packages/stream-object/src/utils/to-partial-object-stream.ts
index a1118af..acbb322 100644
--- a/packages/stream-object/src/utils/to-partial-object-stream.ts
+++ b/packages/stream-object/src/utils/to-partial-object-stream.ts
@@ -8,6 +8,10 @@ export const toPartialObjectStream = <T>(stream: ReadableStream<string>): Readab
 
   return stream.pipeThrough(new TransformStream<string, PartialDeep<T>>({
     transform: (chunk, controller) => {
+      // an empty delta is not a snapshot
+      if (chunk === '')
+        return
+
       partialObjectData += chunk
       try {
         const data = parsePartial(partialObjectData) as PartialDeep<T>
-- 
2.43.0


From 41bc8cca38c65660553cc6e883228a7f7d95d440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:20 +0000
Subject: [PATCH 31/41] fix: report a null answer as an answer without choices

---
 packages-ext/telemetry/src/wrapped/generate-text.ts | 2 +-
 packages/generate-text/src/index.ts                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/generate-text.ts b/packages-ext/telemetry/src/wrapped/generate-text.ts
index d2f0d94..ae473a2 100644
--- a/packages-ext/telemetry/src/wrapped/generate-text.ts
+++ b/packages-ext/telemetry/src/wrapped/generate-text.ts
@@ -48,7 +48,7 @@ export const generateText = async (options: WithUnknown<WithTelemetry<GenerateTe
       })
         .then(responseJSON<GenerateTextResponse>)
         .then(async (res) => {
-          const { choices } = res
+          const choices = (res as GenerateTextResponse | null)?.choices
 
           if (!choices?.length) {
             const responseBody = JSON.stringify(res)
diff --git a/packages/generate-text/src/index.ts b/packages/generate-text/src/index.ts
index 99784dd..086d81c 100644
--- a/packages/generate-text/src/index.ts
+++ b/packages/generate-text/src/index.ts
@@ -86,7 +86,7 @@ const rawGenerateText = async (options: WithUnknown<GenerateTextOptions>): Promi
   })
     .then(responseJSON<GenerateTextResponse>)
     .then(async (res) => {
-      const { choices } = res
+      const choices = (res as GenerateTextResponse | null)?.choices
 
       if (!choices?.length) {
         const responseBody = JSON.stringify(res)
-- 
2.43.0


From 7912451810bfad5db9f5813953ee51dbcdb4efba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:17 +0000
Subject: [PATCH 32/41] fix: end a Responses conversation aborted while tools
 run with that step

---
 packages-ext/responses/src/utils/responses.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages-ext/responses/src/utils/responses.ts b/packages-ext/responses/src/utils/responses.ts
index f7f44c6..2e846c8 100644
--- a/packages-ext/responses/src/utils/responses.ts
+++ b/packages-ext/responses/src/utils/responses.ts
@@ -357,6 +357,10 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
       if (shouldContinue) {
         return async () => doStream()
       }
+
+      // aborted while the tools ran, the conversation ends with this step
+      if (event.type === 'response.completed' && options.abortSignal?.aborted === true)
+        return
     }
   }
 
-- 
2.43.0


From 1e87977d6ed54ecc7922cb9c1ed484412badbe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:16 +0000
Subject: [PATCH 33/41] fix: keep the validation of tools that are class
 instances with telemetry

---
 packages-ext/telemetry/src/utils/wrap-tool.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages-ext/telemetry/src/utils/wrap-tool.ts b/packages-ext/telemetry/src/utils/wrap-tool.ts
index 0778213..ea53140 100644
--- a/packages-ext/telemetry/src/utils/wrap-tool.ts
+++ b/packages-ext/telemetry/src/utils/wrap-tool.ts
@@ -31,4 +31,6 @@ export const wrapTool = (tool: Tool, tracer: Tracer): Tool => ({
       span.setAttributes({ 'gen_ai.tool.call.result': stringify(result) })
       return result
     }),
+  // methods of class instances are not copied by the spread above
+  ...(tool.validate && { validate: tool.validate.bind(tool) }),
 })
-- 
2.43.0


From 2920ddd56298ad0c689972cfc14fb4e0d6fb131a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:20 +0000
Subject: [PATCH 34/41] fix: embed with telemetry when the provider does not
 report usage

---
 packages-ext/telemetry/src/wrapped/embed.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/embed.ts b/packages-ext/telemetry/src/wrapped/embed.ts
index 8aa9786..4bbba2f 100644
--- a/packages-ext/telemetry/src/wrapped/embed.ts
+++ b/packages-ext/telemetry/src/wrapped/embed.ts
@@ -18,7 +18,8 @@ export const embed = async (options: WithTelemetry<EmbedOptions>): Promise<Embed
   // https://opentelemetry.io/docs/specs/semconv/gen-ai/gen-ai-spans/#embeddings
   return recordSpan<EmbedResult>(embedSpan(options, tracer), async (span) => {
     const result = await originalEmbed(clean({ ...options, telemetry: undefined }))
-    span.setAttribute('gen_ai.usage.input_tokens', result.usage.prompt_tokens)
+    if ((result.usage as null | typeof result.usage | undefined) != null)
+      span.setAttribute('gen_ai.usage.input_tokens', result.usage.prompt_tokens)
     return result
   })
 }
@@ -33,7 +34,8 @@ export const embedMany = async (options: WithTelemetry<EmbedManyOptions>): Promi
   // https://opentelemetry.io/docs/specs/semconv/gen-ai/gen-ai-spans/#embeddings
   return recordSpan<EmbedManyResult>(embedSpan(options, tracer), async (span) => {
     const result = await originalEmbedMany(clean({ ...options, telemetry: undefined }))
-    span.setAttribute('gen_ai.usage.input_tokens', result.usage.prompt_tokens)
+    if ((result.usage as null | typeof result.usage | undefined) != null)
+      span.setAttribute('gen_ai.usage.input_tokens', result.usage.prompt_tokens)
     return result
   })
 }
-- 
2.43.0


From d42139908ae8948021dad0090467ffabce048fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:42 +0000
Subject: [PATCH 35/41] fix: release the response when the event callback fails
 at the start of a step

---
 packages-ext/telemetry/src/wrapped/stream-text.ts | 9 ++++++++-
 packages/stream-text/src/index.ts                 | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index a3121ce..6b92fda 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -111,7 +111,14 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
       let reasoningStarted = false
       let textStarted = false
 
-      pushEvent({ type: 'step.start' })
+      try {
+        pushEvent({ type: 'step.start' })
+      }
+      catch (err) {
+        // nothing is going to read the response
+        stream!.cancel(err).catch(() => {})
+        throw err
+      }
 
       await stream!
         .pipeThrough(new TextDecoderStream())
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 2ddfbba..aaf397d 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -140,7 +140,14 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
     let reasoningStarted = false
     let textStarted = false
 
-    pushEvent({ type: 'step.start' })
+    try {
+      pushEvent({ type: 'step.start' })
+    }
+    catch (err) {
+      // nothing is going to read the response
+      stream!.cancel(err).catch(() => {})
+      throw err
+    }
 
     await stream!
       .pipeThrough(new TextDecoderStream())
-- 
2.43.0


From 080f0c61963edf2eafbec66252e3f7b0a7b7db03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:36 +0000
Subject: [PATCH 36/41] fix: return single models of providers whose model
 lists lack a wrapper

---
 .../providers/src/manual/providers/featherless.ts     | 11 ++++++++---
 .../providers/src/manual/providers/together-ai.ts     | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/packages-ext/providers/src/manual/providers/featherless.ts b/packages-ext/providers/src/manual/providers/featherless.ts
index 15bcf0d..e8b06bc 100644
--- a/packages-ext/providers/src/manual/providers/featherless.ts
+++ b/packages-ext/providers/src/manual/providers/featherless.ts
@@ -14,8 +14,13 @@ export const createFeatherless = (apiKey: string, baseURL = 'https://api.feather
     apiKey,
     baseURL,
     fetch: async (...args: Parameters<typeof globalThis.fetch>) => globalThis.fetch(...args)
-      .then(async res => res.ok
-        ? Response.json({ data: await res.json() as unknown[], object: 'list' })
-        : res),
+      .then(async (res) => {
+        if (!res.ok)
+          return res
+
+        const json = await res.json() as unknown
+        // only the list of models comes without its wrapper
+        return Response.json(Array.isArray(json) ? { data: json as unknown[], object: 'list' } : json)
+      }),
   }),
 )
diff --git a/packages-ext/providers/src/manual/providers/together-ai.ts b/packages-ext/providers/src/manual/providers/together-ai.ts
index 8681bb0..53791c3 100644
--- a/packages-ext/providers/src/manual/providers/together-ai.ts
+++ b/packages-ext/providers/src/manual/providers/together-ai.ts
@@ -18,8 +18,13 @@ export const createTogetherAI = (apiKey: string, baseURL = 'https://api.together
     apiKey,
     baseURL,
     fetch: async (...args: Parameters<typeof globalThis.fetch>) => globalThis.fetch(...args)
-      .then(async res => res.ok
-        ? Response.json({ data: await res.json() as unknown[], object: 'list' })
-        : res),
+      .then(async (res) => {
+        if (!res.ok)
+          return res
+
+        const json = await res.json() as unknown
+        // only the list of models comes without its wrapper
+        return Response.json(Array.isArray(json) ? { data: json as unknown[], object: 'list' } : json)
+      }),
   }),
 )
-- 
2.43.0


From b53e3085a402b47bed640b618bfddbff81e6e06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:40 +0000
Subject: [PATCH 37/41] fix: generate the model types of every hand-written
 provider

---
 packages-ext/providers/scripts/sync.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages-ext/providers/scripts/sync.ts b/packages-ext/providers/scripts/sync.ts
index bcba644..79cc137 100644
--- a/packages-ext/providers/scripts/sync.ts
+++ b/packages-ext/providers/scripts/sync.ts
@@ -43,8 +43,9 @@ const [autoProviders, manualProviders] = providers
     return [auto, manual]
   }, [[], []] as [CodeGenProvider[], CodeGenProvider[]])
 
+// their factories need the types of their models, whatever their api looks like
 const forceManualProviders = providers
-  .filter(p => p.api == null && manualProviderKeys.includes(p.id))
+  .filter(p => manualProviderKeys.includes(p.id) && !manualProviders.some(({ id }) => id === p.id))
   .map(toCodeGenProvider)
 
 manualProviders.push(...forceManualProviders)
-- 
2.43.0


From d85296ca18b247e9e16cd795edd6b8e51268175c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:24 +0000
Subject: [PATCH 38/41] fix: keep output items of every type in Responses
 conversations

---
 packages-ext/responses/src/utils/normalize-output.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages-ext/responses/src/utils/normalize-output.ts b/packages-ext/responses/src/utils/normalize-output.ts
index bc0b2ea..0eabdcf 100644
--- a/packages-ext/responses/src/utils/normalize-output.ts
+++ b/packages-ext/responses/src/utils/normalize-output.ts
@@ -12,5 +12,8 @@ export const normalizeOutput = (item: ItemField): ItemParam => {
       return item as AssistantMessageItemParam | DeveloperMessageItemParam | SystemMessageItemParam | UserMessageItemParam
     case 'reasoning':
       return item as ReasoningItemParam
+    default:
+      // other items (e.g. calls of hosted tools) belong to the conversation too
+      return item
   }
 }
-- 
2.43.0


From 28ce48302bbff1d4ba7d6f40084e76ccaec1fcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:52 +0000
Subject: [PATCH 39/41] fix: fail a stream whose error is undefined or null

---
 packages-ext/responses/src/utils/responses.ts     | 9 +++++++--
 packages-ext/telemetry/src/wrapped/stream-text.ts | 9 +++++++--
 packages/stream-text/src/index.ts                 | 9 +++++++--
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/packages-ext/responses/src/utils/responses.ts b/packages-ext/responses/src/utils/responses.ts
index 2e846c8..d1b0270 100644
--- a/packages-ext/responses/src/utils/responses.ts
+++ b/packages-ext/responses/src/utils/responses.ts
@@ -377,12 +377,14 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
   }
 
   void (async () => {
+    let failed = false
     let finalError: unknown
 
     try {
       await trampoline(async () => doStream())
     }
     catch (err) {
+      failed = true
       finalError = err
     }
 
@@ -390,10 +392,13 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
       await options.onFinish?.(steps.at(-1))
     }
     catch (err) {
-      finalError ??= err
+      if (!failed)
+        finalError = err
+      failed = true
     }
 
-    if (finalError != null) {
+    // anything can be thrown, `undefined` and `null` included
+    if (failed) {
       errorControllers(finalError, fullCtrl, textCtrl, reasoningTextCtrl, eventCtrl)
 
       resultInput.reject(finalError)
diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index 6b92fda..1a6b8c7 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -305,22 +305,27 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
   }
 
   void (async () => {
+    let failed = false
     let finalError: unknown
 
     try {
       await trampoline(async () => doStream())
     }
     catch (err) {
+      failed = true
       finalError = err
     }
     try {
       await options.onFinish?.(steps.at(-1))
     }
     catch (err) {
-      finalError ??= err
+      if (!failed)
+        finalError = err
+      failed = true
     }
 
-    if (finalError != null) {
+    // anything can be thrown, `undefined` and `null` included
+    if (failed) {
       errorControllers(finalError, eventCtrl, fullCtrl, textCtrl, reasoningTextCtrl)
 
       resultSteps.reject(finalError)
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index aaf397d..9d96107 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -318,22 +318,27 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
   }
 
   void (async () => {
+    let failed = false
     let finalError: unknown
 
     try {
       await trampoline(async () => doStream())
     }
     catch (err) {
+      failed = true
       finalError = err
     }
     try {
       await options.onFinish?.(steps.at(-1))
     }
     catch (err) {
-      finalError ??= err
+      if (!failed)
+        finalError = err
+      failed = true
     }
 
-    if (finalError != null) {
+    // anything can be thrown, `undefined` and `null` included
+    if (failed) {
       errorControllers(finalError, eventCtrl, fullCtrl, textCtrl, reasoningTextCtrl)
 
       resultSteps.reject(finalError)
-- 
2.43.0


From d0000352f48eceb32645a164856ba058a33f154a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:50 +0000
Subject: [PATCH 40/41] fix: do not deliver the incomplete last element of an
 answer that was cut short

---
 packages/stream-object/src/utils/parse-partial.ts  | 14 ++++++++++++--
 .../stream-object/src/utils/to-element-stream.ts   |  6 +++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/packages/stream-object/src/utils/parse-partial.ts b/packages/stream-object/src/utils/parse-partial.ts
index 9a7fb09..57b7356 100644
--- a/packages/stream-object/src/utils/parse-partial.ts
+++ b/packages/stream-object/src/utils/parse-partial.ts
@@ -1,7 +1,6 @@
 import { parse } from 'best-effort-json-parser'
 
-/** closes everything that is still open, so that the parts that are complete are read exactly as they are. */
-export const parsePartial = (text: string): unknown => {
+const scan = (text: string) => {
   const closers: string[] = []
   let inString = false
   let safe = 0
@@ -34,6 +33,17 @@ export const parsePartial = (text: string): unknown => {
     }
   }
 
+  return { closers, inString, safe, text }
+}
+
+/** how many objects and arrays are still open at the end of the text. */
+export const openDepth = (text: string) =>
+  scan(text).closers.length
+
+/** closes everything that is still open, so that the parts that are complete are read exactly as they are. */
+export const parsePartial = (partial: string): unknown => {
+  const { closers, inString, safe, text } = scan(partial)
+
   // the second attempt leaves out a key or literal that is still being received
   for (const complete of [inString ? `${text}"` : text.replace(/(\d)(?:\.|e[+-]?)$/i, '$1'), text.slice(0, safe)]) {
     try {
diff --git a/packages/stream-object/src/utils/to-element-stream.ts b/packages/stream-object/src/utils/to-element-stream.ts
index dbcbbeb..0dd2536 100644
--- a/packages/stream-object/src/utils/to-element-stream.ts
+++ b/packages/stream-object/src/utils/to-element-stream.ts
@@ -1,6 +1,6 @@
 import { parse } from 'best-effort-json-parser'
 
-import { parsePartial } from './parse-partial'
+import { openDepth, parsePartial } from './parse-partial'
 
 export const toElementStream = <T>(stream: ReadableStream<string>): ReadableStream<T> => {
   let partialObjectData = ''
@@ -8,6 +8,10 @@ export const toElementStream = <T>(stream: ReadableStream<string>): ReadableStre
 
   return stream.pipeThrough(new TransformStream<string, T>({
     flush: (controller) => {
+      // the answer was cut short inside of its array, the last element may be incomplete
+      if (openDepth(partialObjectData) > 1)
+        return
+
       const data = parse(partialObjectData) as { elements: T[] }
       for (const element of data.elements.slice(index))
         controller.enqueue(element)
-- 
2.43.0


From 79da5d7d1ea3b69056abe1c9e404a1613d160389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:27 +0000
Subject: [PATCH 41/41] fix: read the elements of an answer that was cut short
 behind its array exactly

---
 packages/stream-object/src/utils/to-element-stream.ts | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/packages/stream-object/src/utils/to-element-stream.ts b/packages/stream-object/src/utils/to-element-stream.ts
index 0dd2536..c7712df 100644
--- a/packages/stream-object/src/utils/to-element-stream.ts
+++ b/packages/stream-object/src/utils/to-element-stream.ts
@@ -1,5 +1,3 @@
-import { parse } from 'best-effort-json-parser'
-
 import { openDepth, parsePartial } from './parse-partial'
 
 export const toElementStream = <T>(stream: ReadableStream<string>): ReadableStream<T> => {
@@ -12,7 +10,7 @@ export const toElementStream = <T>(stream: ReadableStream<string>): ReadableStre
       if (openDepth(partialObjectData) > 1)
         return
 
-      const data = parse(partialObjectData) as { elements: T[] }
+      const data = parsePartial(partialObjectData) as { elements: T[] }
       for (const element of data.elements.slice(index))
         controller.enqueue(element)
     },
-- 
2.43.0

