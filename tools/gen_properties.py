#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
GT='packages/generate-text/src/index.ts'; ST='packages/stream-text/src/index.ts'
SC='packages/shared-chat/src/utils/'; SS='packages/shared-stream/src/'; SH='packages/shared/src/utils/'
RS='packages-ext/responses/src/utils/responses.ts'; TE='packages-ext/telemetry/src/'
P=[]
def p(id,title,statement,over,qtext,why,files,mechanism,state=None,observe=None):
    a={'files':files,'mechanism':[{'name':mechanism,'where':files[0]}]}
    if state: a['state']=[{'name':state,'meaning':mechanism,'where':files[0]}]
    if observe: a['observe_at']=[observe]
    a['hook_needed']=None
    P.append({'id':id,'title':title,'statement':statement,
      'quantifier':{'over':over,'text':qtext},'why_tests_cant':why,'anchors':a})

p('C01','Non-streaming transcript is exact and never rewrites the caller',
 "In a multi-step non-streaming text call, every request carries exactly the caller's messages followed, per completed step, by the server's assistant message unchanged and one tool message per tool call in call order, holding that call's id and its serialised result (strings and arrays of recognised content parts as they are, anything else as JSON). The returned messages are exactly that transcript, and the caller's own message array and message objects are never modified.",
 ['inputs','histories','schedules'],
 'all scripted server/tool histories over the alphabet up to the step bound, all completion orders of parallel tools within the deviation bound',
 'The unit tests sample one or two canned turns; the transcript must be right for every history of steps, tool results and content shapes, and after every step.',
 [GT,SC+'execute-tool.ts',SC+'internal/to-tool-message-content.ts'],
 'structuredClone of the input on the first step, in-place pushes of the assistant and tool messages, trampoline to the next step',
 'messages/steps threaded through the trampoline','request bodies seen by fetch; result.messages; the caller\'s array after settlement')
p('C02','Streamed turns are reassembled exactly into the transcript',
 "In a streaming text call, the text, reasoning and tool calls recorded for a step equal the in-order concatenation of the deltas the server sent for it (content, reasoning, and tool-call arguments grouped by tool-call index, with the first delta giving id and name), and its finish reason is the last one the server gave, whatever the interleaving and split of those deltas. Every later request and the final messages promise carry the caller's messages followed by those reassembled assistant messages and their tool messages in call order, with no holes or invented text, and the caller's own messages are never modified.",
 ['inputs','histories','schedules'],
 'all delta interleavings/splits over the alphabet up to the bound, multi-step histories, tool completion orders',
 'Deltas may be split and interleaved in arbitrarily many ways; the tests replay a handful of recorded streams.',
 [ST,SC+'execute-tool.ts'],'per-step accumulators (text, reasoningText, tool_calls by index) appended to messages at step end',
 'text/reasoningText/tool_calls accumulators','second request body, messages promise, steps promise')
p('C03','The tool loop continues exactly when it must',
 "After each step of a text call (non-streaming, streaming or Responses), the stop condition is evaluated exactly once with the transcript including that step's assistant output, that step, and all steps so far including it; the loop executes the tools and sends another request if and only if the step contains tool calls and the condition is false, and otherwise ends without executing any tool. Without a stop condition exactly one request is made, and the step-finish callback runs once per step, in order, with the same step record that is finally returned.",
 ['histories','programs'],
 'all histories of tool/no-tool steps up to the bound crossed with all stop predicates over step count, tool name and finish reason, for the three loop implementations',
 'A loop that runs one step too many or too few depends on the combination of stop condition, history and tool calls; tests cover a couple.',
 [GT,ST,RS,SC+'stop-when.ts'],'shouldStop decision and willContinue flag at the end of each step','steps list','requests, tool executions, stopWhen calls, onStepFinish calls')
p('C04','Tool calls are resolved, validated, executed and hooked per contract',
 "For each tool call, the pre-call hook runs first and may replace the call or supply a final result; otherwise the tool whose name matches receives the parsed (empty or blank means an empty object) and, if the tool has a validator, validated arguments together with the call id, the transcript and the abort signal, and the post-call hook runs exactly when the tool was actually executed and may replace the result. Unknown tools, unparsable or invalid arguments, and exceptions thrown by hooks or tools become an error result reported to the model for that call without failing the run, whereas a call without a name or arguments or a hook that changes the call id fails the whole run with an error telling the reason and the call.",
 ['inputs','programs','fault_sequences'],
 'all combinations of pre-hook, lookup, argument text, validator, tool behaviour, post-hook and abort state in the alphabet',
 'The outcome depends on the product of hook, validator, argument and failure modes (thousands of combinations); tests pick about a dozen.',
 [SC+'execute-tool.ts'],'pre hook, lookup, parse/validate, execute, post hook pipeline with per-stage error conversion',None,'tool execute arguments, hook arguments, tool message, result records')
p('C05','Parallel tool calls are schedule-independent',
 "All tool calls of a step are started before any of them has to finish, the next request is sent only after every one of them has settled, and the recorded tool calls, tool results, tool-result events and tool messages are in the model's call order, so the outcome of a text call (non-streaming, streaming or Responses) is the same for every order in which tools and hooks complete.",
 ['schedules'],
 'all completion orders of up to 4 parallel calls with asynchronous hooks and validators, within the deviation bound',
 'Tests run tools in one timing; the guarantee is over every completion order.',
 [GT,ST,RS,SC+'execute-tool.ts'],'Promise.all over executeTool with ordered result append',None,'tool start log, following request, final records')
p('C06','Abort stops new work and settles the call',
 "Once the caller's abort signal fires, a text call (non-streaming, streaming or Responses) sends no further HTTP request and starts no further tool execution, every request and every tool receives the signal, and the call settles: a call aborted while it waits for or reads a response (or before its next request) fails with the signal's reason, while one aborted during tool execution ends after that step, reporting calls that were not executed as aborted.",
 ['schedules','fault_sequences'],
 'an abort injected at every scheduling point (including inside callbacks) of every scenario in the family',
 'The abort can land at any await; tests exercise only one or two points.',
 [GT,ST,RS,SC+'execute-tool.ts'],'abort checks before the stop decision, before tool execution and before continuing; signal forwarded to fetch','options.abortSignal','fetch calls with live signal after abort, tool starts after abort, settlement value')
p('C07','Token usage is accounted per step and in total',
 "For text calls (non-streaming, streaming and Responses), each step's usage is the usage the server last reported for that step (when streaming and for Responses absent if it reported none), the result's usage is that of the final step, and the total usage is the component-wise sum over all steps that reported usage, each step counted once.",
 ['histories','inputs'],
 'all histories of up to the step bound with usage present/absent/zero/repeated per step and per chunk',
 'Accumulation errors only show for particular sequences of steps with and without usage.',
 [GT,ST,RS,SC+'usage.ts'],'normalisation and running totals carried across steps','usage/totalUsage accumulators','usage, totalUsage, steps[].usage, step.done events')
p('C08','Per-step preparation is step-local and isolated',
 "Before each request of a text call (non-streaming, streaming or Responses) the prepare-step callback is called once with the step number, the model, the current transcript and the steps so far; the model, input and tool choice it returns apply to that request only, everything it leaves out falls back to the call's own options, and nothing it does to its arguments or returned values (then or later) changes the transcript, the recorded steps or later requests.",
 ['histories','programs'],
 'all per-step override combinations and mutation behaviours over multi-step histories',
 'Leaks between steps need specific sequences of overrides and mutations.',
 [SC+'prepare-step.ts',GT,ST,RS],'resolvePrepareStep with structuredClone on both sides',None,'request bodies per step, prepareStep arguments, final transcript')
p('C09','Streaming output does not depend on network chunk boundaries',
 "For streaming text, Responses, streaming transcription and streaming speech, how the response bytes are cut into network chunks (inside lines, inside multi-byte characters, empty chunks, byte by byte) and which line terminator the server uses never changes what is delivered: the same text, events, audio bytes, transcript, steps and errors result as for the uncut body.",
 ['inputs','schedules'],
 'every single cut and every pair of cuts of representative byte streams, byte-by-byte delivery and empty chunks, for LF and CRLF framing, on the four streaming APIs',
 'The number of ways to cut a body is exponential and tests deliver whole lines.',
 [ST,RS,SS+'json.ts','packages/stream-transcription/src/index.ts','packages/stream-speech/src/index.ts'],'TextDecoderStream -> EventSourceParserStream -> JsonMessageTransformStream pipeline',None,'all result streams and promises')
p('C10','Streaming events form one coherent ordered account',
 "For every streaming text run, the event stream and the event callback see the same sequence: each step is bracketed by its start and done events, text and reasoning appear as start, deltas and a done event whose content is the concatenation of the deltas, each tool call as start, argument deltas and a done event with the complete call, followed by one result event per executed call in call order. The text, reasoning and raw-chunk streams deliver exactly the same deltas and chunks in arrival order, each as soon as its chunk has arrived.",
 ['inputs','histories'],
 'all chunk sequences over the delta alphabet up to the bound and multi-step tool histories',
 'Event coherence is a property of every chunk sequence, not of the few recorded ones.',
 [ST,'packages/shared-chat/src/types/event.ts'],'pushEvent fan-out to stream controller and callback; per-step started flags',None,'eventStream, onEvent, textStream, reasoningTextStream, fullStream')
p('C11','Result streams are independent of how each is consumed',
 "Reading, never reading, cancelling (at any time) or part-reading any of the result streams of a streaming text or Responses call never changes what the other streams deliver nor the values of its promises, and the call always runs to completion.",
 ['schedules','programs'],
 'all combinations of consumption modes of the four streams with the cancellation placed at every scheduling point',
 'Interference shows only for specific consumption patterns and timings.',
 [ST,RS,SS+'controller.ts'],'controller refs cleared on cancel; enqueue through optional current','controller refs','the remaining streams and promises')
p('C12','A failing streaming run fails every output once, with one error',
 "If a streaming text or Responses call fails at any point (request rejected, error status, broken body, malformed or error chunk, throwing callback or condition, invalid tool call), all its open streams and all its promises fail with that same original error and none hangs; the finish callback runs exactly once, after all else, with the last completed step, and an error it throws itself fails the run only if nothing failed before.",
 ['fault_sequences','schedules'],
 'every failure kind injected at every position of multi-step runs, with and without a throwing finish callback',
 'Each failure point has its own path to the eight outputs; tests check one or two.',
 [ST,RS,SS+'controller.ts',SS+'json.ts'],'single catch around the trampoline, errorControllers, promise rejection',None,'all streams and promises, onFinish calls')
p('C13','Streaming and non-streaming calls agree',
 "For the same options and the same scripted model turns, the streaming and non-streaming text calls send the same sequence of requests (apart from the stream settings), execute the same tools with the same inputs, and report the same step texts, finish reasons, tool calls, tool results, usage and total usage.",
 ['histories','inputs'],
 'all scripted histories in the family, run through both calls',
 'No test compares the two loop implementations; divergence needs particular histories.',
 [GT,ST],'two independent loop implementations sharing executeTool/prepareStep/stop helpers',None,'requests, tool calls and results of both runs')
p('C14','Calls are isolated from one another',
 "Any number of calls made with the same loaded library, concurrently or one after another and even when they share one options object, produce exactly what each would have produced alone, and no call modifies the options object, messages, tools or headers passed to it.",
 ['schedules','histories'],
 'all pairs of calls over the API family under every interleaving within the deviation bound, and sequential pairs including failed, aborted and cancelled first calls',
 'Leaks through module-level state or mutated options need two overlapping calls.',
 [GT,ST,RS,SS+'controller.ts','packages/stream-transcription/src/index.ts','packages/stream-object/src/utils/to-element-stream.ts'],'per-call closures; options spread before modification','closure state','results of each call; options after the calls')
p('C15','Requests are built exactly from the options',
 "Each API sends its requests with the right method to the endpoint path below the base URL (with or without trailing slash, string or URL object), with the caller's headers (record or Headers object; caller's value wins over a default of the same name), with a bearer authorization exactly when an API key is given, with the abort signal, and through the caller's fetch if one is given. The JSON or multipart body carries every defined request option under its snake_case name with its value unchanged and nothing else: no undefined fields, no callbacks, tool implementations or other client-side options, and never the API key; an image fetched by URL carries no credentials.",
 ['inputs','configurations'],
 'all combinations of base URL form, key, header form, option subset and custom/global fetch for every API',
 'Leaks and omissions depend on option combinations the tests do not enumerate.',
 [SH+'post-json.ts',SH+'request-body.ts',SH+'request-headers.ts',SH+'request-url.ts',SC+'chat.ts','packages/generate-transcription/src/index.ts','packages/generate-image/src/index.ts','packages/model/src/utils/retrieve-model.ts'],'postJSON and per-API request assembly',None,'arguments of fetch')
p('C16','Every API maps HTTP failures to the documented errors',
 "For every request an API makes, a non-success status rejects with an API-call error carrying the status, headers and full response body; an empty success body or a non-stream body rejects with an invalid-response error naming the reason; a non-JSON success body rejects with a JSON-parse error carrying the text; a chat response without choices rejects with an invalid-response error; and a rejected fetch rejects with that very error. The call never resolves, hangs or throws another error instead.",
 ['fault_sequences','inputs'],
 'every API x every failing answer in the alphabet x every request position',
 'Error mapping is repeated per API and per request; tests cover a few cells of the matrix.',
 [SH+'response-catch.ts',SH+'response-json.ts','packages/shared/src/error/index.ts',GT,'packages/generate-image/src/index.ts','packages/generate-speech/src/index.ts','packages/model/src/utils/list-models.ts','packages/generate-transcription/src/index.ts'],'responseCatch/responseJSON after each fetch',None,'rejection of the returned promise or streams')
p('C17','Server-sent messages are decoded one to one',
 "The JSON message decoder turns each server-sent message into exactly one parsed value in order, skips only empty messages, `null` messages and the exact end marker (a custom one if configured), and fails the stream at the offending message with a JSON-parse error carrying the raw text for malformed data or a remote-API error carrying the raw body for an error payload (a custom error test and parser if configured), after delivering all earlier values.",
 ['inputs'],
 'all message sequences up to length 4 over the message alphabet and all option combinations',
 'Sequences of valid, marker-like, error-like and malformed messages are unboundedly many.',
 [SS+'json.ts'],'parseJsonSSEMessage inside JsonMessageTransformStream',None,'output of the transform stream')
p('C18','Structured generation returns only validated objects',
 "Generating an object sends the schema as a named strict JSON-schema response format (wrapped into an elements array in array mode, inside which its references mean what they meant) and resolves only with a value that the schema's own validator produced from the JSON the model returned (each element in array mode, in order); an empty answer, malformed JSON, a value of the wrong shape or any validation issue rejects the call instead. Step, usage, reasoning and message results are those of the underlying text call.",
 ['inputs','configurations'],
 'all answer texts in the alphabet x schema behaviours (sync/async, transforming, failing per element) x output modes x strictness',
 'Whether an unvalidated value can slip through depends on answer/validator combinations.',
 ['packages/generate-object/src/index.ts','packages/generate-object/src/_wrap.ts','packages-top/xsschema/src/validate.ts'],'JSON.parse then validate of the whole or each element',None,'result object or rejection; request body')
p('C19','Element streaming delivers every element exactly once, complete',
 "When streaming an array, the element stream delivers every element of the final array exactly once, in order and only in its complete form, however the text is cut into deltas, and delivers nothing for an empty array.",
 ['inputs'],
 'all ways to cut representative array documents into deltas (every cut set up to the bound) and all small arrays over the element alphabet',
 'Loss or duplication depends on where the deltas fall.',
 ['packages/stream-object/src/utils/to-element-stream.ts','packages/stream-object/src/utils/stream-object.ts'],'incremental best-effort parse with an emitted-element index','index, partialObjectData','elementStream')
p('C20','Partial-object streaming converges to the final object',
 "When streaming an object, the partial-object stream never repeats the same snapshot twice in a row, each snapshot is the best-effort reading of the text received so far, earlier snapshots are not changed afterwards, and the last one equals the complete JSON document, however the text is cut into deltas; the accompanying text stream still delivers all the text, and a run without any text fails with an invalid-response error (an empty object document, or blank text, gives no snapshot).",
 ['inputs'],
 'all cut sets up to the bound of representative documents and all small objects over the value alphabet',
 'Depends on the position of every cut.',
 ['packages/stream-object/src/utils/to-partial-object-stream.ts','packages/stream-object/src/utils/stream-object.ts'],'incremental best-effort parse with last-snapshot comparison','partialObjectSnapshot','partialObjectStream, textStream')
p('C21','Responses runs build an exact input history',
 "In a Responses run, each request's input is the caller's input (a string becomes one user message) followed, per completed step, by every output item the server finished, unchanged and in order, and one function-call output per executed call in call order with that call's id and serialised result; the input promise resolves to that history, tools and options are sent in the Responses format without client-side options, and the caller's own input is never modified.",
 ['histories','inputs','schedules'],
 'all histories of output items (messages, reasoning, function calls) and tool results over the alphabet, with tool completion orders',
 'Each history shape exercises a different path; the suite that covers it needs a model server.',
 [RS,'packages-ext/responses/src/utils/normalize-tool.ts','packages-ext/responses/src/utils/normalize-output.ts','packages-ext/responses/src/utils/normalize-input.ts'],'handleOutputItemDone and function-call outputs pushed to a shared input array','input','request bodies, input promise')
p('C22','Responses streams and steps mirror the server events',
 "For every server event sequence of a Responses run, the full stream delivers every event in order, the text and reasoning streams deliver exactly their deltas, the event stream and event callback see the same mapped events in order (with tool results before the step's done event), and the steps promise holds one step per completed, failed or incomplete response with the right finish reason, text, tool calls and results; all outputs settle when the server closes the stream.",
 ['inputs','histories'],
 'all event sequences over the Responses event alphabet up to the bound and multi-step histories',
 'Covers the product of event kinds and orders; the package\'s own tests cannot run offline.',
 [RS],'mapFullEvent, pushStreamingEvent, pushResponseStep',None,'four streams, onEvent, steps')
p('C23','Telemetry does not change behaviour',
 "The telemetry versions of the text and embedding calls send the same requests, invoke the same hooks, validators, tools and callbacks with the same arguments, and produce the same results, streams and errors as the plain versions for the same options and server behaviour.",
 ['histories','inputs','fault_sequences'],
 'the scenario families of the text and embedding checks, run through both versions',
 'The telemetry package copies the loops; any divergence needs a differential run, and its tests need a model server.',
 [TE+'wrapped/generate-text.ts',TE+'wrapped/stream-text.ts',TE+'wrapped/embed.ts',TE+'utils/wrap-tool.ts'],'copied loop implementations around recordSpan',None,'requests, hooks, results of both versions')
p('C24','Every span is ended once and records failures',
 "Every span the telemetry calls start (one per model request, tool execution or embedding call) is ended exactly once, not before the work it covers has finished, whatever succeeds, fails, throws a non-error or is aborted; a failing one records the error. Model-request and embedding spans carry the caller's extra attributes (which win over those of the same name the library would set), the operation, its model, settings and tool definitions, and the usage and finish reason the server reported; tool spans carry the tool's name, the call's id, its arguments and its result.",
 ['fault_sequences','schedules'],
 'failures injected at every point of telemetry runs with a recording tracer, tool completion orders within the bound',
 'Leaked or doubly ended spans appear only on specific failure paths.',
 [TE+'utils/record-span.ts',TE+'utils/record-span-options.ts',TE+'wrapped/stream-text.ts'],'recordSpan try/catch around the callback',None,'recording tracer')
p('C25','Provider handles are correct and independent',
 "For every provider, each handle obtained from it carries the provider's own base URL, key, headers and custom fetch, exactly the requested model and that handle's own extra options (translated to their wire names), and is not changed by any other handle obtained before or after it; ready-made providers read their documented environment variable, and provider-specific fetch wrappers still report failing statuses as failures.",
 ['programs','configurations'],
 'every provider x every sequence of handle requests up to length 3 x key/base-URL variants',
 'Aliasing shows only when several handles are taken from one provider; there are over a hundred providers.',
 ['packages-ext/providers/src/utils/create.ts','packages-ext/providers/src/utils/merge.ts','packages-ext/providers/src/generated/create.ts','packages-ext/providers/src/generated/index.ts','packages-ext/providers/src/manual/providers/openrouter.ts','packages-ext/providers/src/special/providers/azure.ts','packages-ext/providers/src/special/providers/player2.ts'],'factory helpers sharing one options object per capability','shared options objects','handles and the requests made with them')
p('C26','Reasoning extraction is exact and chunk-independent',
 "Extracting reasoning from a complete text returns the contents of the complete tagged blocks and the remaining text, each joined by the separator; the streaming extraction routes every character outside the tags, in order, to the reasoning stream inside a tagged block and to the text stream outside it, with one separator before each resumed block and no tag text left behind, identically for every way of cutting the input into chunks, closes or fails both streams with the input, and leaves one stream whole when the other is cancelled.",
 ['inputs'],
 'all strings up to the length bound over the tag alphabet and all cut sets up to the bound, for several tags, separators and start modes',
 'Partial-tag handling at chunk boundaries has exponentially many inputs.',
 ['packages/utils-reasoning/src/extract-reasoning-stream.ts','packages/utils-reasoning/src/extract-reasoning.ts','packages/utils-reasoning/src/_get-partial-match-index.ts'],'buffered partial tag matcher with mode flags','buffer, isReasoning, switchBlock','textStream, reasoningStream')
p('C27','Stream pacing utilities conserve content',
 "Smoothing a text stream never loses, repeats or reorders text: the concatenated output equals the concatenated input for every chunking mode, pattern and cut, every piece but the trailing remainder ends at a match of the chunking pattern, and pieces are spaced by the configured delay; simulating a stream delivers exactly the given chunks in order after the configured initial and per-chunk delays and then closes.",
 ['inputs','schedules'],
 'all strings over the whitespace alphabet up to the bound, all cut sets, all chunking modes and patterns, virtual time',
 'Boundary-dependent loss needs specific cuts; there are no tests for these utilities.',
 ['packages/utils-stream/src/smooth-stream.ts','packages/utils-stream/src/simulate-readable-stream.ts'],'regexp-driven buffer with sleeps','buffer','output stream and virtual clock')
p('C28','Retrying fetch follows its policy',
 "The retrying fetch returns the first response that is successful or not retryable, makes at most the configured number of retries, waits the configured delay before each, passes the same input and options to every attempt, returns the last response when retries run out, and propagates a rejected attempt immediately; separate calls and separately created instances do not share their retry budget.",
 ['fault_sequences','histories','configurations'],
 'all status sequences up to the bound x retry/delay/status-code settings, under virtual time, including overlapping calls',
 'The policy is over all sequences of outcomes; there are no tests for it.',
 ['packages-top/xsfetch/src/index.ts'],'trampoline with a decreasing retry counter','retriesLeft','underlying fetch calls, virtual clock')
p('C29','Streaming speech and transcription deliver everything and settle',
 "Streaming speech delivers the decoded bytes of every audio delta in order and resolves its usage to the reported one (or undefined); streaming transcription delivers every text delta in order on both of its streams and resolves the full text to their concatenation. On any failure (status, body, malformed data, error payload, abort) the open streams and the promises fail with the error instead of hanging, and cancelling one stream does not affect the other outputs.",
 ['inputs','fault_sequences','schedules'],
 'all event sequences over the alphabet up to the bound with a failure or cancellation at every position',
 'Settlement on every failure path is never exercised by tests (they need a model server).',
 ['packages/stream-speech/src/index.ts','packages/stream-transcription/src/index.ts',SS+'controller.ts'],'transform pipelines with withResolvers promises',None,'streams and promises')
p('C30','Generated images keep order, content and type',
 "Image generation returns one image per item of the response in the response's order whatever order their downloads finish in, each as a data URL whose media type matches the image content (inline data recognised by its signature, PNG if unknown; downloads by their declared type) and whose payload is the image's bytes, the first one also as the single image; an item with neither data nor URL, or any failing download, rejects the call.",
 ['inputs','schedules','fault_sequences'],
 'all item-kind sequences up to length 3, all download completion orders, a failure at each item, all image signatures',
 'There are no tests for images; order depends on the schedule.',
 ['packages/generate-image/src/index.ts'],'Promise.all over items with signature lookup',None,'result images')
p('C31','Embedding, model and plain audio calls return the server data unchanged',
 "A batch embedding returns the server's vectors unchanged in the order of the server's list together with the input it was given and the reported usage, a single embedding the first vector; model listing and retrieval return the server's records; speech generation returns exactly the response bytes and transcription the parsed response.",
 ['inputs'],
 'all response lists up to the bound over the value alphabet for each of the calls',
 'The only tests for these need a running model server.',
 ['packages/embed/src/utils/embed-many.ts','packages/embed/src/utils/embed.ts','packages/model/src/utils/list-models.ts','packages/model/src/utils/retrieve-model.ts','packages/generate-speech/src/index.ts','packages/generate-transcription/src/index.ts'],'response projection',None,'returned value')
p('C32','Tool definitions carry the schema faithfully and validate input',
 "Every way of defining a tool produces a definition with the given name, description and strict flag (on by default) whose parameters are the given schema as JSON Schema, with additional properties forbidden on the root and every nested property object exactly when strict, leaving the given schema object unmodified; its validator reports the schema's own outcome (value or issues) for every input, so the tool implementation only ever sees validated values.",
 ['inputs','configurations'],
 'all schema shapes up to the nesting bound x definition helpers x strictness x validator outcomes',
 'Schema shapes are unbounded; tests use a few.',
 ['packages/tool/src/utils/define-tool.ts','packages/tool/src/utils/raw-tool.ts','packages/tool/src/utils/tool.ts','packages-top/xsschema/src/json-schema.ts','packages-top/xsschema/src/to-json-schema/index.ts'],'strictJsonSchema recursion and Standard Schema validate delegation',None,'tool object, request body, execute input')
p('C33','Stop conditions compose as boolean logic',
 "The stop-condition combinators evaluate exactly as conjunction, disjunction and negation of their parts (empty conjunction true, empty disjunction false) on every context, the step-count condition holds exactly when at least that many steps exist, and the tool-call condition exactly when the current step contains a call to the named tool (any call if no name is given).",
 ['programs','histories'],
 'all condition expressions up to the depth bound on all step histories up to the bound',
 'The space of nested conditions and histories is combinatorial.',
 [SC+'stop-when.ts'],'closures over conditions',None,'condition result')
p('C34','Message helpers build exactly the messages they describe',
 "The chat message helpers build messages with the right role and the given content unchanged: an assistant message holds tool calls exactly when given a tool call or a list of tool calls and text or content parts otherwise, a tool message carries the id of the call it answers, and parts carry their text or URL.",
 ['inputs'],
 'all contents over the content alphabet (strings, part lists, tool calls, mixed lists)',
 'No tests exist for the helpers; classification depends on content shape.',
 ['packages/utils-chat/src/message.ts'],'structural isToolCall test',None,'returned message')
p('C35','A failure the caller handles never reaches the process unhandled',
 "Whatever fails in a call (request, status, body, data, abort, callback, tool hook), as long as the caller handles it on at least one of the outputs it takes (the call itself, a stream, a promise), no other output or internal promise, taken late or never, causes an unhandled rejection or uncaught exception, which would end the process.",
 ['fault_sequences','schedules','configurations'],
 'every call x every failure at every request x every single, all-but-one and full set of handled outputs, also taken late, under deviation-bounded schedules',
 'Tests await every output they look at; which outputs a caller leaves out and when it turns to them is a free choice.',
 ['packages/stream-text/src/index.ts','packages-ext/responses/src/utils/responses.ts','packages-ext/telemetry/src/wrapped/stream-text.ts','packages/stream-object/src/utils/stream-object.ts','packages/stream-speech/src/index.ts','packages/stream-transcription/src/index.ts'],'result promises rejected when a run fails',None,'unhandledRejection and uncaughtException events')
p('C36','Schemas of every supported vendor convert and validate faithfully',
 "Converting a schema of a supported vendor (ArkType, Effect, Sury, Valibot, Zod 3, Zod 4, Zod Mini) gives a JSON Schema that accepts exactly the inputs the schema itself accepts, the schema's own JSON Schema of its input side (draft-07) if it offers one; tools defined with it carry that JSON Schema and the schema's verdicts; an unsupported vendor or a missing vendor dependency rejects with an error naming it; validate() returns the schema's output value and throws an error telling the issues of an invalid input and where they are, for synchronous and asynchronous schemas.",
 ['inputs','configurations'],
 'all object schemas up to the field bound over the type alphabet in every vendor x all inputs over the value alphabet; each dependency missing; all validation outcomes',
 'One snapshot of one schema per vendor says nothing about which inputs the converted schema accepts.',
 ['packages-top/xsschema/src/to-json-schema/index.ts','packages-top/xsschema/src/to-json-schema/vendors/index.ts','packages-top/xsschema/src/to-json-schema/vendors/zod.ts','packages-top/xsschema/src/validate.ts','packages-top/xsschema/src/utils/is-standard-json-schema-v1.ts'],'vendor dispatch and Standard JSON Schema delegation',None,'converted schema, validation outcome')
p('C37','Every response body is read to its end or released',
 "Whatever way a call ends (success, failing status, malformed data, broken body, throwing callback, invalid tool call, abort, outputs read, cancelled or left alone), the body of every HTTP response it received, also those of failed, retried and intermediate requests, has been read to its end or cancelled by the time the call is over, so no connection is kept open by a response nobody reads.",
 ['fault_sequences','schedules','histories'],
 'every call x every way each of its requests can end x outputs read, unread, cancelled, abandoned x abort points, under deviation-bounded arrival schedules',
 'An unread body shows only as an exhausted connection pool much later; tests mock responses that need no releasing.',
 ['packages-ext/responses/src/utils/responses.ts','packages/stream-text/src/index.ts','packages-ext/telemetry/src/wrapped/stream-text.ts','packages-top/xsfetch/src/index.ts','packages/shared/src/utils/response-catch.ts','packages/shared/src/utils/response-json.ts','packages/stream-speech/src/index.ts','packages/stream-transcription/src/index.ts'],'body consumption on every exit path',None,'how each response body was left')
p('C38','Streams deliver data as it arrives',
 "Every streaming output hands out each item as soon as the bytes that complete it have arrived and never waits for later data: text, reasoning, chunk and event streams and the event callback with the server message that completes the item, array elements once the next has begun or the array ends, decoded speech and transcription likewise, and reasoning extraction as soon as the text can no longer be part of a tag.",
 ['schedules','inputs'],
 'all message sequences of the alphabets cut at every message boundary and within messages, with the stream held open at each point',
 'Tests read finished streams, in which late delivery looks the same.',
 ['packages/stream-text/src/index.ts','packages-ext/responses/src/utils/responses.ts','packages-ext/telemetry/src/wrapped/stream-text.ts','packages/stream-object/src/utils/stream-object.ts','packages/shared-stream/src','packages/utils-reasoning/src','packages/stream-speech/src/index.ts','packages/stream-transcription/src/index.ts'],'stream transformers and controllers',None,'items read while the response is still open')
p('C39','Every call follows its abort signal',
 "A call whose signal is aborted sends no request after that and settles on every output; an output either fails with exactly the reason of the abort, whatever (non-null) value that is, or, if all data it needs had arrived, has the normal outcome; a call aborted before it started or before all data arrived fails, image downloads and traced calls included; a signal that is never aborted changes nothing.",
 ['schedules','fault_sequences','configurations'],
 'every call x abort reasons x abort before, inside the request, at its answer and between any two network events, under deviation-bounded completion orders',
 'Tests abort text calls at one or two points only.',
 ['packages/shared/src/utils/post-json.ts','packages/generate-image/src/index.ts','packages/generate-transcription/src/index.ts','packages/stream-transcription/src/index.ts','packages/model/src/utils/list-models.ts','packages/model/src/utils/retrieve-model.ts','packages/stream-text/src/index.ts','packages-ext/telemetry/src/wrapped/embed.ts'],'abort signal handed to every request',None,'requests sent, outcome of every output')
p('C40',"A run's callbacks follow the course of its steps",
 "In every run, streamed or not, plain or traced, the callbacks of one step happen in one order: its preparation is done before its request is sent, the stop conditions are evaluated after the answer and before any tool of the step is used, each call goes pre-call hook, tool, post-call hook, each awaited before the next, the step is finished only after all its tools and hooks are done and before the next step is prepared or requested (generateText also awaits an asynchronous onStepFinish), tool-result events follow the tools and a step-done event follows the step's finish callback, and onFinish comes once, last, with the last finished step, and is awaited before the run's promises settle.",
 ['schedules','histories','configurations'],
 'all histories up to the bound x hook sets x synchronous/asynchronous callbacks x stop conditions x failures, in five loop implementations under deviation-bounded completion orders',
 'Tests look at results, not at the order in which asynchronous callbacks begin and end.',
 [SC+'determine-step.ts',SC+'execute-tool.ts','packages/generate-text/src/index.ts','packages/stream-text/src/index.ts','packages-ext/responses/src/utils/responses.ts','packages-ext/telemetry/src/wrapped/stream-text.ts','packages-ext/telemetry/src/wrapped/generate-text.ts'],'await points around callbacks',None,'begin and end of every callback')
p('C41','Every error tells what it is',
 "Every error class of the library makes errors that are instances of Error and of exactly their own class and its ancestors, recognised as such by the class's own isInstance and by nothing else, with their documented name and code, the given message and cause, and every field given; the errors that the calls throw carry the response, body text, tool call, channel or issues they describe; no look-alike (plain object, other class, same name) is recognised.",
 ['inputs','configurations'],
 'all error classes x all subsets of their options x causes x look-alikes; the failures of all calls',
 'Tests check a class here and there; callers dispatch on all of them.',
 ['packages/shared/src/error','packages/shared/src/utils/response-catch.ts','packages/shared/src/utils/response-json.ts',SC+'execute-tool.ts'],'error classes and the places that throw them',None,'class, name, code, isInstance, cause and fields of errors')
p('C42','Utilities compose with the calls they are made for',
 "Joined in a pipeline behind a streaming call, reasoning extraction and stream smoothing in any combination deliver exactly the content of the run and end with it, fail with exactly its error when it fails or is aborted, and leave the run's other outputs and the process untouched when one end is cancelled; a call using the retrying fetch has, for transient failures within the budget, exactly the outcome it would have had without them, and otherwise the failure of the last attempt; a call reading a simulated stream as response body has the outcome of the plain body.",
 ['fault_sequences','schedules','configurations'],
 'every streaming call x pipelines x texts x delta sizes x endings and cancellation points; every call x failing request x number of failures x retry budget; every streaming call x piece sizes',
 'Each utility is tested alone with a hand-made stream.',
 ['packages/utils-reasoning/src/extract-reasoning-stream.ts','packages/utils-stream/src/smooth-stream.ts','packages/utils-stream/src/simulate-readable-stream.ts','packages-top/xsfetch/src/index.ts','packages/stream-text/src/index.ts'],'stream and fetch interfaces between packages',None,'content and end of pipelines, outcome of calls')
p('C43',"A run's result is that of its last step",
 "Whatever the steps of a run did, its result speaks for the last of them: the finish reason, text, tool calls, tool results and usage that generateText (plain or traced) and generateObject return are those of the last entry of `steps`, and the reasoning text is that of the last answer, in whichever field the server sent it, and absent if it sent none; `steps` holds every step of the run once and in order, with what its answer said and what its tools gave, equal to what onStepFinish was told at the time; streamed and Responses runs give their last step to onFinish and its usage as usage; a run that ends normally because of an abort obeys the same.",
 ['histories','inputs','schedules'],
 'all histories up to the bound x last answers x stop conditions x ways of telling reasoning x hooks, in six loop implementations',
 'Tests compare snapshots of one- and two-step runs with plain text answers.',
 ['packages/generate-text/src/index.ts','packages/generate-object/src/index.ts','packages/stream-text/src/index.ts','packages-ext/responses/src/utils/responses.ts','packages-ext/telemetry/src/wrapped/generate-text.ts','packages-ext/telemetry/src/wrapped/stream-text.ts'],'construction of the step and of the result',None,'fields of the result, steps, arguments of onStepFinish and onFinish')
p('C44','A streamed object is a streamed text run seen as an object',
 "streamObject sends exactly the requests of streamText with the schema as named JSON-schema response format (strict unless told otherwise, wrapped into an elements array in array mode) that generateObject sends too, and none of its own options; all its other outputs (text, reasoning, chunk and event streams, messages, steps, usage and total usage), its callbacks, hooks and tool executions, and its failures are exactly those of that text run, except that the text and object streams of a run without any text fail as an invalid response; there is an element stream in array mode and a partial-object stream otherwise, never both, which fails when the text fails and ends with the object that generateObject would have given.",
 ['inputs','histories','configurations'],
 'all schemas x modes x options; all histories up to the bound x texts x pieces x hooks x failures, each beside streamText and generateObject',
 'Tests stream one object; the agreement with the two other calls is over all runs.',
 ['packages/stream-object/src/utils/stream-object.ts','packages/stream-object/src/utils/to-element-stream.ts','packages/stream-object/src/utils/to-partial-object-stream.ts','packages/stream-text/src/index.ts'],'options handed to streamText, result spread',None,'requests, streams, promises, callbacks')
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
