// Source of properties.jsonl: node tools/properties.mjs > properties.jsonl
const f = (...files) => files
const CHAT = f('packages/generate-text/src/index.ts', 'packages/stream-text/src/index.ts', 'packages/shared-chat/src/utils')
const props = [
  {
    id: 'P01', title: 'Requests carry exactly the caller\'s options, headers and credentials',
    statement: 'Every API function sends its request to its documented endpoint path resolved under the caller\'s base URL (string or URL, with or without trailing slash), using the caller\'s fetch when one is given, with `Authorization: Bearer <key>` exactly when an API key is given and with the caller\'s headers (plain object or Headers, any letter case) taking precedence over every default header. The JSON body (or form data) contains exactly the caller\'s defined request parameters, top-level names in snake_case and values unchanged. Credentials, headers, base URL, fetch, abort signal, callbacks, tool implementations and other client-only options never appear in it.',
    over: ['inputs', 'configurations'], text: 'all endpoint functions x base URL shapes x header containers and letter cases x option sets with undefined/null/falsy/nested/unknown members x multi-step follow-up requests',
    why: 'Existing tests snapshot a few fixed option sets against one base URL; header containers, case-insensitive overrides, falsy values, unknown options and follow-up requests of a multi-step call are never sampled.',
    files: f('packages/shared/src/utils', 'packages/shared-chat/src/utils/chat.ts', 'packages/model/src/utils', 'packages/generate-transcription/src/index.ts', 'packages/stream-transcription/src/index.ts', 'packages-ext/responses/src/utils/responses.ts'),
    mech: [['postJSON / requestBody / requestHeaders / requestURL', 'packages/shared/src/utils'], ['chat() strips client-only options', 'packages/shared-chat/src/utils/chat.ts']],
    obs: ['request seen by the fetch implementation'],
  },
  {
    id: 'P02', title: 'Failed or malformed answers always surface as typed errors',
    statement: 'When the provider answers with a non-success status, every API function (or every stream and promise of a streaming call) fails with an API-call error carrying the status code, the address, the response text and the response headers; a missing response body or a chat answer without choices is an invalid-response error, a body that is not JSON is a JSON-parse error carrying the offending text, and a transport failure is passed through unchanged. All of these are distinguishable with the exported error classes (each with its own code, its cause and the details it was made of), and none is ever reported as a (partial) successful result.',
    over: ['fault_sequences', 'inputs'], text: 'all endpoint functions x status codes x body contents x fault kind x the step of a multi-step call at which it happens',
    why: 'Tests sample one or two statuses on shared helpers; which error every function yields for every fault at every step is not covered.',
    files: f('packages/shared/src/error/index.ts', 'packages/shared/src/utils/response-catch.ts', 'packages/shared/src/utils/response-json.ts', ...CHAT),
    mech: [['responseCatch / responseJSON', 'packages/shared/src/utils'], ['error propagation of streaming calls', 'packages/stream-text/src/index.ts']],
    obs: ['rejection reasons', 'stream errors'],
  },
  {
    id: 'P03', title: 'Network chunking never changes what a streaming call delivers',
    statement: 'For a given sequence of response bytes, everything a streaming function delivers (chat, responses, speech and transcription streams, their promises, callbacks and follow-up requests) is the same however the bytes are cut into network chunks and however their arrival is timed, including cuts inside multi-byte characters, inside line endings and inside JSON. Equivalent event-stream framings of the same payloads (line-ending style, comments, ids, multi-line data, with or without an end marker) are delivered identically.',
    over: ['inputs', 'schedules'], text: 'all cuts of an event stream into chunks, delivery timings and framings, for each streaming function',
    why: 'The tests stream one pre-cut fixture per function; the cut positions and timings real networks produce are unbounded.',
    files: f('packages/shared-stream/src/json.ts', 'packages/stream-text/src/index.ts', 'packages-ext/responses/src/utils/responses.ts', 'packages/stream-speech/src/index.ts', 'packages/stream-transcription/src/index.ts'),
    mech: [['TextDecoderStream -> EventSourceParserStream -> JsonMessageTransformStream', 'packages/shared-stream/src']],
    obs: ['stream items, promises, callbacks and requests of two runs over the same bytes'],
  },
  {
    id: 'P04', title: 'A fault in the middle of a stream is never mistaken for success',
    statement: 'If a streamed answer contains an undecodable payload, contains an error payload, or its connection breaks, at any position of any step, then every stream of the call still open errors and every result promise rejects with that error: a JSON-parse error carrying the payload text, a remote-API error carrying the payload, or the transport error itself. Whatever was delivered before is a prefix of what the provider sent, no tool runs because of the broken answer and no further request is made.',
    over: ['fault_sequences', 'crash_points'], text: 'every position of every step of a streamed conversation x fault kind x chunking, for chat, responses, speech and transcription streams',
    why: 'A test samples one fault at one position; the guarantee is over every cut point and every payload.',
    files: f('packages/shared-stream/src', 'packages/stream-text/src/index.ts', 'packages-ext/responses/src/utils/responses.ts', 'packages/stream-speech/src/index.ts', 'packages/stream-transcription/src/index.ts'),
    mech: [['parseJsonSSEMessage', 'packages/shared-stream/src/json.ts'], ['errorControllers', 'packages/shared-stream/src/controller.ts']],
    obs: ['stream errors', 'promise rejections', 'tool executions', 'requests'],
  },
  {
    id: 'P05', title: 'Streamed chat content is conserved',
    statement: 'For every streamed chat answer, the text stream, the concatenated text events, the step\'s text and the recorded assistant message all equal the concatenation, in arrival order, of the text (or refusal) the provider sent; the same holds for reasoning, and for each tool call\'s id, name and arguments assembled from its fragments, whatever order fragments of different calls, text and reasoning arrive in and whatever index numbers the provider uses. The full stream delivers exactly the decoded payloads, in order, including ones without choices.',
    over: ['inputs', 'schedules'], text: 'all sequences of chat-completion chunks a provider may produce, over one or several steps',
    why: 'Tests stream one or two short fixtures; losses and duplications appear only for particular fragmentations and interleavings.',
    files: f('packages/stream-text/src/index.ts'),
    mech: [['chunk folding in doStream', 'packages/stream-text/src/index.ts']],
    obs: ['textStream', 'reasoningTextStream', 'fullStream', 'eventStream', 'steps', 'messages'],
  },
  {
    id: 'P06', title: 'The chat event stream follows one grammar',
    statement: 'For every session, a streamed chat\'s events form one well-nested sequence per step: the step starts before and is done after all its other events; reasoning and text each start at most once, before their deltas, and are followed by exactly one done event whose content is the concatenation of those deltas; every tool call starts once before its deltas and is done exactly once with its full arguments; every tool result follows its call\'s done event and appears exactly once per executed call, before the step is done. The event callback sees exactly the sequence the event stream delivers, and a session that fails shows a prefix of such a sequence.',
    over: ['inputs', 'histories', 'schedules'], text: 'all chunk sequences, tool timings and multi-step histories, including failing ones',
    why: 'Snapshots check one event list each; the ordering rules quantify over every interleaving of fragments and tool completions.',
    files: f('packages/stream-text/src/index.ts', 'packages/shared-chat/src/types/event.ts'),
    mech: [['pushEvent', 'packages/stream-text/src/index.ts']],
    obs: ['eventStream', 'onEvent'],
  },
  {
    id: 'P07', title: 'The outputs of a streaming call are independent of each other',
    statement: 'Reading, ignoring, reading late or slowly, or cancelling (at any moment) any subset of the streams of a streaming call changes nothing about what its other streams, its promises and its callbacks deliver, nor about the requests and tool executions of the conversation. The result promises of chat, object, responses and transcription calls settle even if no stream is ever read.',
    over: ['schedules', 'histories'], text: 'every assignment of {read, read late, read slowly, ignore, cancel after k items} to the streams of a chat, responses or transcription call, over multi-step sessions',
    why: 'Tests read one stream to the end; the 4-way product of consumption patterns and cancel points is not sampled.',
    files: f('packages/shared-stream/src/controller.ts', 'packages/stream-text/src/index.ts', 'packages-ext/responses/src/utils/responses.ts', 'packages/stream-transcription/src/index.ts'),
    mech: [['createControlledStream clears its controller on cancel', 'packages/shared-stream/src/controller.ts']],
    obs: ['remaining streams', 'promises', 'requests'],
  },
  {
    id: 'P08', title: 'Every streaming call settles exactly once, without stray rejections',
    statement: 'However a streaming call ends (normally, provider or transport fault at any step, exception thrown by a user callback, malformed tool call, abort), each of its streams closes or errors, each of its promises settles, all with the same outcome and the same error, and its finish callback runs exactly once, with the last completed step, before the promises settle. Nothing hangs, and no rejection is left unhandled when the caller consumes only some of the outputs.',
    over: ['fault_sequences', 'histories', 'crash_points'], text: 'every ending of a streamed conversation at every step x every subset of outputs the caller attends to',
    why: 'Tests exercise normal endings; hangs, double settlement and process-level unhandled rejections need fault placement and process monitors.',
    files: f('packages/stream-text/src/index.ts', 'packages-ext/responses/src/utils/responses.ts', 'packages/stream-transcription/src/index.ts', 'packages/stream-speech/src/index.ts'),
    mech: [['final try/catch that errors or closes controllers and settles deferreds', 'packages/stream-text/src/index.ts']],
    obs: ['promise states', 'stream ends', 'onFinish', 'process unhandledRejection'],
  },
  {
    id: 'P09', title: 'Non-streaming conversations: every request carries the exact history',
    statement: 'In a non-streaming multi-step text generation, request k carries the caller\'s messages followed, for every earlier step in order, by that step\'s assistant message unchanged and one tool message per tool call in call order with the matching call id and the call\'s outcome; all caller parameters are repeated in every request. When a provider offers several choices the first one counts. The returned messages, steps, final text, reasoning text, finish reason, tool calls and tool results equal those of the conversation that actually took place, and the number of requests equals the number of steps.',
    over: ['histories', 'inputs', 'schedules'], text: 'all scripted provider behaviours (texts, reasoning, parallel tool calls, finish reasons) x tool outcomes and timings x options',
    why: 'Tests script one two-step exchange; histories, timing and outcomes are unbounded.',
    files: f('packages/generate-text/src/index.ts', 'packages/shared-chat/src/utils/execute-tool.ts'),
    mech: [['rawGenerateText loop', 'packages/generate-text/src/index.ts']],
    obs: ['request bodies', 'result object'],
  },
  {
    id: 'P10', title: 'Streaming conversations run the same conversation as non-streaming ones',
    statement: 'A streamed multi-step text generation sends the same sequence of requests (apart from streaming flags) and arrives at the same messages, steps, tool executions and tool results as a non-streaming one would against a provider giving the same answers. Its promises report the conversation that actually took place, and the number of requests equals the number of steps.',
    over: ['histories', 'inputs', 'schedules'], text: 'all scripted provider behaviours x tool outcomes and timings x options, run both ways',
    why: 'The two loops are separate code; tests compare neither against the other nor against a model.',
    files: f('packages/stream-text/src/index.ts', 'packages/generate-text/src/index.ts'),
    mech: [['doStream loop', 'packages/stream-text/src/index.ts']],
    obs: ['request bodies', 'messages/steps promises'],
  },
  {
    id: 'P11', title: 'Parallel tool calls: one answer per call, in call order, each run once',
    statement: 'When a model requests several tools in one step, every call is answered by exactly one tool message carrying that call\'s own id and that call\'s own outcome, in the order the model listed them, whatever order the tools finish in and even if some fail; every executable call runs exactly once with its own arguments, and they run concurrently rather than waiting on each other. No step\'s calls are executed again in a later step.',
    over: ['schedules', 'inputs'], text: 'numbers of parallel calls, duplicate tool names, completion orders, failures, ids reused between or within steps; streaming, non-streaming and responses loops',
    why: 'Tests run one tool call per step; mixing up outcomes needs several calls finishing out of order.',
    files: f(...CHAT, 'packages-ext/responses/src/utils/responses.ts'),
    mech: [['Promise.all(executeTool) and ordered push', 'packages/generate-text/src/index.ts']],
    obs: ['tool executions log', 'tool messages in next request', 'toolResults'],
  },
  {
    id: 'P12', title: 'Tools only ever run with arguments that parsed and validated',
    statement: 'A tool\'s function is invoked only with input that was parsed from the call\'s JSON arguments (absent or blank arguments meaning an empty object) and, if the tool has a schema, accepted by it, in which case it receives the validated (transformed) value. Unknown tools, unparsable arguments, rejected arguments and exceptions thrown by a tool never abort the conversation: the model is told through an error result for that very call, naming the cause (for an unknown tool, also the tools there are), and the conversation goes on; a call without a name or without arguments field is an invalid-tool-call error.',
    over: ['inputs', 'fault_sequences'], text: 'all argument texts, validators (sync, async, transforming, rejecting, throwing), tool outcomes (values, content parts, exceptions, non-Error throws), tool sets',
    why: 'Unit tests sample a handful of argument strings and one validator.',
    files: f('packages/shared-chat/src/utils/execute-tool.ts', 'packages/shared-chat/src/utils/internal/to-tool-message-content.ts', 'packages/tool/src'),
    mech: [['parseToolInput, catchToolError', 'packages/shared-chat/src/utils/execute-tool.ts']],
    obs: ['tool inputs', 'tool messages', 'toolResults'],
  },
  {
    id: 'P13', title: 'Tool hooks see and control exactly the call they were given',
    statement: 'For every tool call the pre-call hook runs once, before anything else, and may leave the call alone, rewrite it (the rewritten name and arguments are then what is looked up, validated, executed and reported), or supply a result, in which case the tool does not run and the post-call hook is not consulted; an exception in it becomes that call\'s error result. The post-call hook runs once, exactly for calls whose tool function was invoked (successfully or not), sees its outcome, and may replace the result that the model, the step and the events then see; an exception in it becomes an error result. A hook that changes the call id makes the call fail with an invalid-tool-call error; tools and hooks are shown the conversation up to their step\'s answer and the abort signal of the call.',
    over: ['inputs', 'histories'], text: 'all hook decisions (none, rewrite, synthetic result, throw, id change; sync and async) x tool outcomes x parallel calls x loops (streaming, non-streaming, responses, telemetry)',
    why: 'Unit tests check single hook calls in isolation, not the end-to-end effect in each loop.',
    files: f('packages/shared-chat/src/utils/execute-tool.ts', ...CHAT.slice(0, 2), 'packages-ext/responses/src/utils/responses.ts', 'packages-ext/telemetry/src/wrapped'),
    mech: [['preToolCall / postToolCall in executeTool', 'packages/shared-chat/src/utils/execute-tool.ts']],
    obs: ['hook invocations', 'tool executions', 'tool messages', 'toolResults', 'events'],
  },
  {
    id: 'P14', title: 'The loop stops exactly when the stop condition says so',
    statement: 'A conversation makes exactly one request unless a stop condition is given; with one, it continues after a step if and only if the model requested tools in it and the condition, evaluated on the conversation so far (input including that step\'s assistant message, the step, all steps including it), is false, and the tools of a stopping step are not run. The built-in conditions and their boolean combinators mean what they say for every nesting.',
    over: ['inputs', 'histories'], text: 'all nested conditions over step counts, tool names and custom predicates x all provider scripts, in every loop',
    why: 'Tests evaluate single conditions on hand-made contexts; off-by-one and stale-context errors need arbitrary histories.',
    files: f('packages/shared-chat/src/utils/stop-when.ts', ...CHAT.slice(0, 2), 'packages-ext/responses/src/utils/responses.ts'),
    mech: [['shouldStop', 'packages/shared-chat/src/utils/stop-when.ts']],
    obs: ['number of requests', 'contexts passed to conditions', 'tool executions'],
  },
  {
    id: 'P15', title: 'Token usage is accounted exactly once per step',
    statement: 'Each step reports the usage the provider reported for that step (the last report, if a streamed answer reports usage repeatedly), or none if it reported none; the usage result is that of the last step and the total usage is the sum over the steps. This holds for streaming, non-streaming and responses conversations alike, wherever in an answer usage is reported.',
    over: ['inputs', 'histories'], text: 'all placements of usage (absent, null, final chunk, separate chunk, repeated, cumulative in every chunk) x numbers of steps',
    why: 'Tests use one usage placement in a single step.',
    files: f('packages/shared-chat/src/utils/usage.ts', ...CHAT.slice(0, 2), 'packages-ext/responses/src/utils/responses.ts', 'packages-ext/telemetry/src/wrapped'),
    mech: [['pushUsage / computeTotalUsage', 'packages/stream-text/src/index.ts']],
    obs: ['usage', 'totalUsage', 'step.usage', 'step.done events'],
  },
  {
    id: 'P16', title: 'Step preparation changes that step\'s request and nothing else',
    statement: 'The step-preparation callback runs once before each request with the true conversation so far, the base model, the step number and the completed steps; the input, model and tool choice it returns apply to exactly that request, and anything it does not return falls back to the caller\'s own options, not to an earlier step\'s override. Nothing it does to the objects it was given or returned reaches the conversation: the history that later requests and results are built from is the unprepared one.',
    over: ['histories', 'inputs'], text: 'all sequences of per-step overrides (any subset, sync or async) and of mutations of the arguments, in every loop',
    why: 'Tests use two steps and a well-behaved callback.',
    files: f('packages/shared-chat/src/utils/prepare-step.ts', ...CHAT.slice(0, 2), 'packages-ext/responses/src/utils/responses.ts'),
    mech: [['resolvePrepareStep', 'packages/shared-chat/src/utils/prepare-step.ts']],
    obs: ['request bodies', 'callback arguments', 'final messages/input'],
  },
  {
    id: 'P17', title: 'Calls never modify their inputs and never influence each other',
    statement: 'No API function modifies the options object, messages, input, tools, schemas, headers or URL objects the caller passed in, whatever happens during the call, and what the caller does to its own message lists and objects while a call runs does not reach that call; the conversation it returns shares no objects with them. Calls running concurrently, even with the very same option objects and tools, behave exactly as each would alone, and what a call returned does not change because of later calls.',
    over: ['schedules', 'inputs', 'histories'], text: 'all API functions on deeply frozen inputs; interleavings of several concurrent sessions sharing options, tools and messages',
    why: 'Tests never freeze inputs and never interleave sessions.',
    files: f(...CHAT, 'packages/shared/src/utils', 'packages-top/xsschema/src', 'packages-ext/responses/src'),
    mech: [['structuredClone of messages/input; no module-level state', 'packages/generate-text/src/index.ts']],
    obs: ['inputs before and after', 'results of interleaved sessions'],
  },
  {
    id: 'P18', title: 'Abort stops a conversation: nothing new starts after it',
    statement: 'Once the caller\'s abort signal fires, no new request is sent and no tool function starts, at whatever moment it fires (before the call, while waiting for an answer, mid-stream, while tools run, inside a callback); tools already running receive the signal. The call always settles: if the abort interrupts an answer (before the conversation begins to act on it), every promise and open stream fails with the signal\'s reason, and if it comes while tools run, the call ends after that step with every call of that step answered.',
    over: ['crash_points', 'schedules'], text: 'every moment of a multi-step session at which the signal may fire, in the streaming, non-streaming and responses loops and in the single-shot functions',
    why: 'Tests abort at one or two fixed moments.',
    files: f(...CHAT, 'packages-ext/responses/src/utils/responses.ts', 'packages/shared/src/utils/post-json.ts'),
    mech: [['abortSignal checks in the loops and in executeTool', 'packages/shared-chat/src/utils/execute-tool.ts']],
    obs: ['requests and tool starts after the abort', 'settlement reasons'],
  },
  {
    id: 'P19', title: 'Step callbacks fire exactly once per step, in order, with the final step',
    statement: 'The step-finish callback is invoked exactly once for every completed step, in order, with the same step content that the results report (including rewritten tool calls and all tool results), after that step\'s tools have finished and before the next step\'s request; a non-streaming call waits for it and fails if it fails. A finish callback is invoked exactly once after the last step callback, with the last completed step.',
    over: ['histories', 'schedules'], text: 'all multi-step sessions with slow, failing and asynchronous callbacks, in every loop',
    why: 'Tests count callbacks in single-step sessions.',
    files: f(...CHAT.slice(0, 2), 'packages-ext/responses/src/utils/responses.ts', 'packages-ext/telemetry/src/wrapped'),
    mech: [['pushStep / onStepFinish / onFinish', 'packages/stream-text/src/index.ts']],
    obs: ['callback log interleaved with requests and tool events'],
  },
  {
    id: 'P20', title: 'Generated objects are always what the schema\'s validator accepted',
    statement: 'Object generation resolves only with the value the caller\'s schema validator produced for the model\'s JSON answer (in array mode, with every element validated, in order); an answer that is empty, not JSON, of the wrong shape or rejected by the validator always makes the call fail. The request carries the JSON schema of the caller\'s schema (wrapped as an elements array in array mode), its name, description and strict flag, and every other text-generation guarantee (messages, steps, usage, tools) still holds.',
    over: ['inputs'], text: 'schemas (zod, valibot, custom standard schemas; sync and async, transforming) x answers (valid, mutated, malformed, empty) x output mode x strict flag x multi-step tool use',
    why: 'Tests need a live model for the valid path and sample one malformed answer.',
    files: f('packages/generate-object/src', 'packages-top/xsschema/src'),
    mech: [['JSON.parse + validate', 'packages/generate-object/src/index.ts']],
    obs: ['resolved object', 'rejections', 'request body'],
  },
  {
    id: 'P21', title: 'Object streams deliver every element once and converge to the answer',
    statement: 'In array mode the element stream delivers each element of the model\'s array exactly once, in order and only when complete, however the answer is cut into text chunks and also when it is cut short; in object mode the partial-object stream delivers a sequence of changing snapshots that only grow, hold nothing the answer does not hold, and end with the complete object; an array element is delivered at the latest when the next one is complete. In a conversation with tools only the answering step counts. The text stream delivers the answer unchanged in both modes, and an empty answer or a failing provider makes these streams fail.',
    over: ['inputs', 'schedules'], text: 'JSON answers (nested, unicode, escaped, empty arrays, scalars) x all text fragmentations x output mode x faults',
    why: 'Tests need a live model; the loss of elements depends on where chunks are cut.',
    files: f('packages/stream-object/src'),
    mech: [['toElementStream / toPartialObjectStream', 'packages/stream-object/src/utils']],
    obs: ['elementStream', 'partialObjectStream', 'textStream'],
  },
  {
    id: 'P22', title: 'Tool and schema definitions reach the provider faithfully',
    statement: 'The tool builders and the schema conversion describe a tool to the provider with the caller\'s name, description and a JSON schema equivalent to the caller\'s schema; in strict mode (the default) every object schema at any depth (properties, items, unions, definitions; not the branches of an `allOf`, where closing would change the meaning) is closed to additional properties and nothing else about the schema changes, and with strict off the schema is passed unchanged. A built tool\'s validator accepts exactly what the schema accepts and yields the schema\'s output value.',
    over: ['inputs'], text: 'schemas from every supported library and plain JSON schemas of arbitrary nesting (objects in arrays, unions, references) x strict flag',
    why: 'Snapshots cover a handful of flat schemas.',
    files: f('packages/tool/src', 'packages-top/xsschema/src'),
    mech: [['strictJsonSchema / toJsonSchema / validate', 'packages-top/xsschema/src']],
    obs: ['tool definition', 'validate results'],
  },
  {
    id: 'P23', title: 'Responses API conversations: every request carries the exact history',
    statement: 'A Responses-API conversation starts from the caller\'s input (a string meaning one user message) and every follow-up request carries that input followed by every output item the provider finished, in order, and one function-call output per function call of each earlier step, in call order, with the matching call id and the call\'s outcome; tools are offered in the function-tool form and parameters repeated each time. The resulting input, steps, finish reasons (stop, tool calls, length, error), texts, tool calls and results equal the conversation that took place.',
    over: ['histories', 'inputs', 'schedules'], text: 'all scripted sequences of Responses API events over several steps x tool outcomes and timings x options',
    why: 'Tests snapshot one fixture.',
    files: f('packages-ext/responses/src'),
    mech: [['doStream, handleOutputItemDone', 'packages-ext/responses/src/utils/responses.ts']],
    obs: ['request bodies', 'input/steps promises'],
  },
  {
    id: 'P24', title: 'Responses API streams conserve content and keep the event grammar',
    statement: 'For every Responses-API conversation the full stream delivers exactly the provider\'s events in order; the text and reasoning streams are the concatenation of the text/refusal and reasoning deltas (the text of a step leaves refusals out); and the unified event stream maps each step to start, reasoning, text and tool-call events in arrival order with every tool result after its call\'s done event and before the step\'s done event, exactly once, matching the event callback. All of its streams and promises settle together, whatever way the conversation ends.',
    over: ['histories', 'inputs', 'fault_sequences'], text: 'all event scripts incl. unknown events, failed/incomplete endings, faults at any position',
    why: 'Tests snapshot one fixture.',
    files: f('packages-ext/responses/src/utils/responses.ts'),
    mech: [['mapFullEvent, pushStreamingEvent', 'packages-ext/responses/src/utils/responses.ts']],
    obs: ['fullStream', 'textStream', 'reasoningTextStream', 'eventStream', 'onEvent'],
  },
  {
    id: 'P25', title: 'Telemetry is transparent',
    statement: 'The telemetry variants of text generation, text streaming and embedding behave for the caller exactly as the plain functions do with the same options and the same provider: same requests, tool inputs, validation, hooks, callbacks, results, streams and errors, whether or not a tracer is registered. Telemetry options never reach the provider.',
    over: ['inputs', 'histories', 'fault_sequences'], text: 'all sessions of the plain loops (incl. validators, hooks, faults, callbacks) run through both variants',
    why: 'The telemetry loops duplicate the plain ones; tests check a few spans, not equivalence.',
    files: f('packages-ext/telemetry/src'),
    mech: [['wrapped loops', 'packages-ext/telemetry/src/wrapped'], ['wrapTool', 'packages-ext/telemetry/src/utils/wrap-tool.ts']],
    obs: ['requests, results, events of both variants'],
  },
  {
    id: 'P26', title: 'Every span is ended exactly once and tells the truth',
    statement: 'Each request step, tool execution and embedding call produces exactly one span, ended exactly once, after the work it covers, also when the call fails, aborts or a tool throws; failures mark that span with error status and, for error objects, the error\'s type and message, and successes do not. Tool spans are children of their step\'s span when a context manager is registered. Span attributes report the model, caller attributes, messages sent and received, finish reason and token counts of that very step, and tool spans the call id, name, arguments and result of that very call.',
    over: ['histories', 'fault_sequences', 'schedules'], text: 'all sessions with parallel tools, failures and aborts, observed through a recording span processor',
    why: 'Tests snapshot spans of two successful runs.',
    files: f('packages-ext/telemetry/src'),
    mech: [['recordSpan', 'packages-ext/telemetry/src/utils/record-span.ts']],
    obs: ['spans seen by a span processor'],
  },
  {
    id: 'P27', title: 'Provider option objects are self-contained',
    statement: 'Every provider method returns options with that provider\'s base URL, credentials and headers plus exactly the requested model and extra options, and they stay correct whatever further provider calls are made: no later call changes an earlier result, no extra options leak into another call, and different endpoints of one provider do not mix. Requests made with these options reach the provider\'s own URL with the provider\'s own authentication, and failures of the provider are reported as failures.',
    over: ['histories', 'configurations'], text: 'sequences of calls over all provider constructors and their endpoint methods, interleaved',
    why: 'One test calls one provider once; aliasing needs two calls whose results are both used.',
    files: f('packages-ext/providers/src'),
    mech: [['create*Provider helpers, merge', 'packages-ext/providers/src/utils'], ['manual and special providers', 'packages-ext/providers/src/manual/providers']],
    obs: ['returned option objects', 'requests made with them'],
  },
  {
    id: 'P28', title: 'Fetch retries exactly the retryable failures, up to the limit',
    statement: 'The retrying fetch repeats a request exactly while the answer is unsuccessful with a retryable status and the retry budget lasts, waiting the configured delay between attempts, and returns the last answer untouched; successes and non-retryable statuses are returned at once, transport errors are passed through and nothing is sent any more for a call the caller aborted. Every attempt sends the same method, URL, headers and body, also for Request objects with a body, and concurrent calls do not share a budget.',
    over: ['fault_sequences', 'inputs', 'configurations'], text: 'all status sequences x retry settings x request forms x interleaved calls',
    why: 'There are no tests of it.',
    files: f('packages-top/xsfetch/src/index.ts'),
    mech: [['xsfetch loop', 'packages-top/xsfetch/src/index.ts']],
    obs: ['attempts seen by the underlying fetch', 'timer delays', 'returned response'],
  },
  {
    id: 'P29', title: 'Embedding and model queries return the provider\'s data intact',
    statement: 'Embedding calls return for each input the provider\'s vector unchanged, one per input and in the order the provider lists them, together with the caller\'s own input and the reported usage; model listing and retrieval return the provider\'s entries unchanged. Retrieval asks for exactly the model named by the caller.',
    over: ['inputs'], text: 'numbers of inputs, vector values, extra fields, model names, batch sizes',
    why: 'Tests need a live server; only shapes are sampled.',
    files: f('packages/embed/src', 'packages/model/src'),
    mech: [['embed / embedMany / listModels / retrieveModel', 'packages/embed/src/utils']],
    obs: ['returned values', 'requests'],
  },
  {
    id: 'P30', title: 'Generated images come back complete, in order and correctly typed',
    statement: 'Image generation returns one data URL per image the provider returned, in the provider\'s order, whether delivered inline or as a link that has to be downloaded (in whatever order downloads finish; with the caller\'s fetch and abort signal and without the provider\'s credentials), each decoding to exactly the provider\'s bytes and labelled with the right media type for PNG, JPEG, GIF, WebP or AVIF data. If any image is missing, unrecognised or cannot be downloaded, the call fails instead of returning a partial or shuffled list.',
    over: ['inputs', 'schedules', 'fault_sequences'], text: 'numbers and kinds of images, byte contents, download timings and failures',
    why: 'There are no tests of it.',
    files: f('packages/generate-image/src/index.ts'),
    mech: [['convertImage, responseBlobAsDataURL, Promise.all', 'packages/generate-image/src/index.ts']],
    obs: ['returned images', 'requests'],
  },
  {
    id: 'P31', title: 'Speech and transcription deliver the provider\'s data intact',
    statement: 'Speech generation returns exactly the provider\'s audio bytes; streamed speech delivers the decoded audio pieces in order and reports the provider\'s usage (or none) when the stream ends. Transcription uploads exactly the caller\'s file, name and (documented) options and returns the provider\'s answer; streamed transcription delivers every text delta in order on both streams and resolves to their concatenation. Usage and text promises always settle with the streams, and audio that cannot be decoded makes the stream and its usage fail.',
    over: ['inputs', 'schedules', 'fault_sequences'], text: 'binary contents, file names, option subsets, delta fragmentations, missing usage, faults',
    why: 'Tests need a live server or sample one fixture.',
    files: f('packages/generate-speech/src/index.ts', 'packages/stream-speech/src/index.ts', 'packages/generate-transcription/src/index.ts', 'packages/stream-transcription/src/index.ts'),
    mech: [['base64 decode transform, FormData upload', 'packages/stream-speech/src/index.ts']],
    obs: ['bytes, text, usage', 'form data seen by the server'],
  },
  {
    id: 'P32', title: 'Reasoning extraction separates tags without losing text',
    statement: 'Extracting reasoning from a complete text puts exactly the contents of the tagged sections, joined by the separator, into the reasoning and everything outside them into the text; a text without a complete section is returned unchanged. The streaming form yields the same split for every fragmentation of the text (tags cut anywhere), loses and duplicates nothing, and passes source errors to both streams.',
    over: ['inputs', 'schedules'], text: 'texts with any arrangement of tags and tag look-alikes x tag names, separators, start mode x all fragmentations',
    why: 'Tests use one fixture; tag cuts and leftovers depend on fragmentation.',
    files: f('packages/utils-reasoning/src'),
    mech: [['extractReasoning / extractReasoningStream', 'packages/utils-reasoning/src']],
    obs: ['text and reasoning outputs'],
  },
  {
    id: 'P33', title: 'Stream utilities re-chunk and pace without changing content',
    statement: 'Smoothing a text stream delivers exactly the input text, whatever its fragmentation and the chunking mode (word, line or custom pattern), with every chunk but the last matching the chosen mode and the configured delay between chunks. Simulating a stream delivers exactly the given chunks in order with the configured initial and inter-chunk delays, then closes.',
    over: ['inputs', 'schedules'], text: 'texts x fragmentations x chunking patterns (incl. non-anchored, global, empty-matching) x delays under a virtual clock',
    why: 'There are no tests of it.',
    files: f('packages/utils-stream/src'),
    mech: [['smoothStream, simulateReadableStream', 'packages/utils-stream/src']],
    obs: ['output chunks', 'timer requests'],
  },
  {
    id: 'P34', title: 'Response bodies are never left open',
    statement: 'By the time a call has settled, every response body it obtained has been read to the end, cancelled, or handed to the caller, so that connections are released: also when the call ends early because of an exception, abort, stop condition, continuation to a next step or a retried attempt. Cancelling a stream the caller holds reaches the response it comes from.',
    over: ['fault_sequences', 'histories'], text: 'every ending of every function, observed through instrumented response bodies',
    why: 'Tests never observe the response body\'s state.',
    files: f('packages-ext/responses/src/utils/responses.ts', 'packages/stream-text/src/index.ts', 'packages-top/xsfetch/src/index.ts', 'packages/shared/src/utils/response-catch.ts'),
    mech: [['pipeTo / reader handling', 'packages-ext/responses/src/utils/responses.ts']],
    obs: ['state of instrumented bodies after settlement'],
  },
  {
    id: 'P35', title: 'Streams are live',
    statement: 'Whatever the provider has completely sent is delivered to the caller - on every stream and callback of a streaming call - without waiting for anything the provider has not sent yet; a streaming call hands out its streams before the answer is over, and only the part of the text that could still turn out differently (an open tag, an unfinished word or line, an incomplete event or byte group) may be held back.',
    over: ['schedules', 'inputs'], text: 'every prefix of every stream, the provider pausing there for as long as nothing more is delivered; streamText, responses, streamObject, streamSpeech, streamTranscription, extractReasoningStream, smoothStream',
    why: 'Tests feed whole answers; buffering to the end looks the same once the answer is over.',
    files: f('packages/stream-text/src/index.ts', 'packages-ext/responses/src/utils/responses.ts', 'packages/stream-object/src', 'packages/stream-speech/src/index.ts', 'packages/stream-transcription/src/index.ts', 'packages/utils-reasoning/src', 'packages/utils-stream/src', 'packages/shared-stream/src'),
    mech: [['event and text streams', 'packages/stream-text/src/index.ts']],
    obs: ['what was delivered while the provider pauses'],
  },
  {
    id: 'P36', title: 'Credentials stay in their headers',
    statement: 'The API key and the headers given by the caller reach the provider in exactly their headers and appear nowhere else: not in URLs, request bodies or other headers, not in requests to other hosts (image downloads), errors, results, callback arguments, spans or printed output.',
    over: ['inputs', 'fault_sequences', 'histories'], text: 'every API function and its telemetry variant x every ending x keys, secret headers and overridden authorization',
    why: 'Tests check that the header is there, not that the key is nowhere else.',
    files: f('packages/shared/src/utils/request-headers.ts', 'packages/shared/src/utils/request-body.ts', 'packages/shared/src/utils/post-json.ts', 'packages/shared/src/error', 'packages/generate-image/src/index.ts', 'packages/generate-transcription/src/index.ts', 'packages/stream-transcription/src/index.ts', 'packages-ext/telemetry/src/utils'),
    mech: [['requestHeaders / requestBody', 'packages/shared/src/utils']],
    obs: ['requests', 'errors with their hidden members', 'results', 'callback arguments', 'spans', 'output'],
  },
  {
    id: 'P37', title: 'Calls leave the process as they found it',
    statement: 'However a call ends, it leaves no listener on the caller\'s abort signal, no timer, no changed global, prototype, environment or process listener, prints nothing, makes requests only through the fetch it was given (the global one when none was given), and keeps nothing of a finished call in memory.',
    over: ['histories', 'fault_sequences'], text: 'every API function and its telemetry variant x every ending, one after another in one process',
    why: 'Tests never look at the process, and a leak only shows after many calls.',
    files: f('packages/shared/src/utils/post-json.ts', 'packages/stream-text/src/index.ts', 'packages-ext/responses/src/utils/responses.ts', 'packages/generate-image/src/index.ts', 'packages-ext/telemetry/src/wrapped'),
    mech: [['postJSON, streaming pumps', 'packages/shared/src/utils/post-json.ts']],
    obs: ['process state before and after', 'listeners of the signal', 'reachability of dropped calls'],
  },
  {
    id: 'P38', title: 'Conversations continue from call to call',
    statement: 'The messages a call returns, extended with messages built by the message helpers, start a next call (of any chat function, streaming or not, also after a failed attempt with the same messages) whose requests carry exactly that history followed by what happens in that call; earlier results stay as they were. The message helpers build exactly the message they are asked for.',
    over: ['histories', 'inputs'], text: 'dialogues of several calls switching between the chat functions, histories extended in place or copied, failures in between',
    why: 'Tests make single calls; the helpers have no tests.',
    files: f('packages/generate-text/src/index.ts', 'packages/stream-text/src/index.ts', 'packages-ext/responses/src/utils/responses.ts', 'packages/utils-chat/src/message.ts'),
    mech: [['messages built up by chat / generateText / streamText', 'packages/generate-text/src/index.ts']],
    obs: ['requests of every call', 'returned histories', 'helper results'],
  },
  {
    id: 'P39', title: 'Every entry point hands out the same library',
    statement: 'Whatever a package exports can be imported from the umbrella package too, and from the telemetry package, which replaces only its four traced functions. Functions, helpers and error classes imported from different entry points mix freely: a call behaves the same wherever its functions come from, and an error is recognised (instanceof and isInstance) by the error classes of every entry point, and only by those that fit.',
    over: ['inputs', 'configurations'], text: 'every exported function under every ending, functions and helpers drawn from random mixes of entry points',
    why: 'Tests import single packages by relative path; nothing uses two entry points together.',
    files: f('packages-top/xsai/src/index.ts', 'packages-ext/telemetry/src/index.ts', 'packages/shared/src/error/index.ts'),
    mech: [['re-exports', 'packages-top/xsai/src/index.ts'], ['XSAIError.isInstance', 'packages/shared/src/error/index.ts']],
    obs: ['exports of the entry points', 'requests, results and errors of the same call through different entry points'],
  },
  {
    id: 'P40', title: 'The provider generator turns a model listing into exactly its providers',
    statement: 'For every model listing, the script that regenerates the provider package writes valid TypeScript holding exactly one factory and one instance for every usable provider (a fixed API address, a key or token in its environment) and for the extra ones: with the base URL, capabilities, model names and environment keys (the first one set wins) of the listing and its overrides. Every hand-written provider of the listing gets the type of its model names. A download that fails leaves the generated files alone.',
    over: ['inputs', 'fault_sequences'], text: 'listings of up to dozens of providers with and without APIs, templated addresses, several keys, overrides, odd model names; failed downloads',
    why: 'The generator has no tests; what it wrote once is committed.',
    files: f('packages-ext/providers/scripts/sync.ts', 'packages-ext/providers/scripts/utils/code-gen.ts', 'packages-ext/providers/scripts/utils/process.ts', 'packages-ext/providers/scripts/utils/overrides.ts', 'packages-ext/providers/scripts/utils/extra.ts'),
    mech: [['codeGenCreate / codeGenIndex / codeGenTypes', 'packages-ext/providers/scripts/utils/code-gen.ts'], ['toCodeGenProvider', 'packages-ext/providers/scripts/utils/process.ts']],
    obs: ['files written (recorded, not written)', 'generated factories and instances, loaded and called', 'string literal types of the generated files'],
  },
  {
    id: 'P41', title: 'Calls work over real connections and let go of them',
    statement: 'Over a real HTTP connection every call sends one well-formed request, and whatever way the server segments, paces, compresses or declares the length of its answer, the caller gets exactly the answer. A connection that breaks before the answer is complete, and an abort, fail the call; an abort with its reason, where the platform hands it over. No connection stays open once the call has failed, was aborted or gave the answer up, also when the server would never end it.',
    over: ['inputs', 'fault_sequences', 'schedules'], text: 'calls of every function, conversations, retries and calls side by side against a real server with every manner of sending and breaking off',
    why: 'All tests that run offline use a replaced fetch; lengths, encodings, aborts and broken connections exist on real ones only.',
    files: f('packages/shared/src/utils/post-json.ts', 'packages/shared/src/utils/response-catch.ts', 'packages/shared/src/utils/response-json.ts', 'packages/shared-stream/src', 'packages/stream-text/src/index.ts', 'packages-ext/responses/src/utils/responses.ts', 'packages-top/xsfetch/src/index.ts'),
    mech: [['postJSON', 'packages/shared/src/utils/post-json.ts'], ['stream pipelines', 'packages/stream-text/src/index.ts'], ['responses pipeline', 'packages-ext/responses/src/utils/responses.ts']],
    obs: ['requests as a server received them', 'connections as the server saw them end', 'results, streams and errors'],
  },
]
for (const p of props) {
  console.log(JSON.stringify({
    id: p.id,
    title: p.title,
    statement: p.statement,
    quantifier: { over: p.over, text: p.text },
    why_tests_cant: p.why,
    anchors: { files: p.files, mechanism: p.mech.map(([name, where]) => ({ name, where })), observe_at: p.obs, hook_needed: null },
  }))
}
