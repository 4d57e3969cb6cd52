// Single source for properties.jsonl and MANIFEST.json (node properties.src.mjs --write)
const P = [];
const add = (id, title, statement, over, text, why, files, mechanism, extra = {}) =>
  P.push({
    id, title, statement,
    quantifier: { over, text },
    why_tests_cant: why,
    anchors: { files, mechanism: mechanism.map(([name, where]) => ({ name, where })), ...extra },
  });
const CL = "packages/client/src/", CO = "packages/core/src/", OT = "packages/otel/src/", TR = "packages/tracing/src/";

// ---------------------------------------------------------------- scores
add("S01", "Every created score is sent exactly once, in order, with its content intact",
  "Every score a program creates is put into exactly one ingestion request (a repeat of the same request after a transient failure counts once), never zero and never two, whatever the interleaving of creation, flush timer, batch threshold, explicit flushes and request completions and whether or not requests fail. Requests carry at most 100 scores each and, read in the order they are issued, list the scores in creation order. Each sent score has the fields the caller gave (a generated unique id and the configured environment only where the caller gave none; a field given as undefined counts as not given), and scores created through an observation, a trace or the active span carry exactly that span's ids. Creating a score never throws, and one that cannot be serialised takes no other score with it.",
  ["schedules", "fault_sequences", "inputs"], "all interleavings of up to 5 score creations/bursts, timer firings, flush/shutdown calls and request outcomes; all presence/absence combinations of the optional score fields and linking entry points",
  "a unit test runs one schedule; loss or duplication needs a creation to land between a flush start and its completion, or a timer to fire while a request is in flight",
  [CL + "score/index.ts"], [["ScoreManager queue and batching", CL + "score/index.ts"]], { observe_at: ["HTTP POST /api/public/ingestion"] });
add("S02", "Flush and shutdown wait for every score created before them",
  "When a promise returned by the client's or score manager's flush or shutdown resolves, every score created before that call has been sent and its request has finished, successfully or not. This holds for every interleaving with the timer, the batch threshold, other concurrent flushes and requests already in flight. Flush and shutdown never reject because of a failing request.",
  ["schedules", "fault_sequences"], "all interleavings of creations, concurrent flush/shutdown calls, timers and request completions with success, error and network-failure outcomes",
  "needs a flush to overlap another flush's in-flight request; tests await one flush at a time",
  [CL + "score/index.ts", CL + "LangfuseClient.ts"], [["flush / shutdown", CL + "score/index.ts"]]);
add("S03", "Queued scores are sent without an explicit flush",
  "Without any explicit flush, every created score is sent no later than one flush interval after its creation, and as soon as the number of queued scores reaches the flush threshold the queued scores are sent at once. This keeps holding after and during requests that are slow or fail: a failing or hanging request never prevents later scores from being sent.",
  ["schedules", "fault_sequences", "configurations"], "all interleavings of creations with timer firings and delayed/failed requests, for several thresholds and intervals",
  "a lost wake-up appears only when the timer fires or the threshold is reached while an earlier request is unfinished",
  [CL + "score/index.ts"], [["flush timer and threshold", CL + "score/index.ts"]]);

// ---------------------------------------------------------------- prompts
add("P01", "A prompt lookup returns the prompt that was asked for",
  "Whatever was fetched before, a prompt lookup returns only content the server delivered for exactly the requested name and version or label (label production when neither is given), never another prompt's. Lookups of different name/version/label combinations never share a cached entry, and the request sent to the server names exactly the requested prompt, version and label for every name, including names with slashes, spaces, dashes and non-ASCII characters. The returned client reports the server's name, version, labels, tags, config, commit message, type and content unchanged.",
  ["inputs", "histories"], "all pairs/triples of lookups over an alphabet of adversarial names, labels and versions, text and chat",
  "collisions need two specific keys; tests use plain names",
  [CL + "prompt/promptManager.ts", CL + "prompt/promptCache.ts"], [["cache key", CL + "prompt/promptCache.ts:createKey"], ["get", CL + "prompt/promptManager.ts"]]);
add("P02", "Prompt caching: fresh hits, stale-while-revalidate, one refresh at a time",
  "Within the time-to-live of a fetched prompt (default 60 s, or the value given to the lookup that stored it) lookups return it without a request; after expiry a lookup returns the stale prompt immediately and starts at most one background refresh per prompt at a time. A successful refresh replaces the prompt and restarts its time-to-live, a failed refresh keeps the stale prompt, is never visible as a rejection, and lets a later lookup refresh again. A lookup with time-to-live 0 always fetches.",
  ["schedules", "fault_sequences", "histories"], "all histories of lookups with different TTLs, time advances and request completions (success, error) up to the bound, compared with a reference cache model",
  "depends on which of several overlapping fetches finishes when; tests sample a few orders",
  [CL + "prompt/promptManager.ts", CL + "prompt/promptCache.ts"], [["get / fetchPromptAndUpdateCache", CL + "prompt/promptManager.ts"], ["refresh tracking", CL + "prompt/promptCache.ts"]]);
add("P03", "After a prompt update or delete no lookup serves pre-change content",
  "Once an update or delete of a prompt through the client has resolved, no later lookup of any version or label of that prompt returns content the server delivered for a request issued before the change completed, even if such a request finishes afterwards. Cached entries of other prompts are kept. A failed update or delete rejects and changes nothing in the cache.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of lookups, refreshes, update/delete calls and their completions",
  "needs a fetch that is in flight across the invalidation",
  [CL + "prompt/promptManager.ts", CL + "prompt/promptCache.ts"], [["invalidate", CL + "prompt/promptCache.ts"], ["update/delete", CL + "prompt/promptManager.ts"]]);
add("P04", "Prompt fallback is used exactly when there is nothing else",
  "A prompt lookup that has to fetch and fails returns the caller's non-empty fallback, marked as fallback and with the requested name, version (0 when none), type and label and with empty config and tags, if one was given, and otherwise rejects with the failure. A fallback is never cached and never replaces, or is used instead of, a cached or freshly fetched prompt. The lookup makes exactly one request plus at most the requested number of retries, retrying only when the server answers with a request-timeout, rate-limit or server-error status.",
  ["fault_sequences", "configurations", "histories"], "all failure sequences (network error, 4xx, 429, 5xx, timeout) up to the retry bound x fallback/type/TTL/maxRetries options x prior cache state",
  "the product of failure sequence and option combination is not sampled by tests",
  [CL + "prompt/promptManager.ts"], [["get fallback branch", CL + "prompt/promptManager.ts"]]);
add("P05", "Prompt compilation substitutes exactly the variables and placeholders, purely",
  "Compiling a prompt replaces every variable tag by its value verbatim (no escaping, values are not re-interpreted; a missing variable gives the empty string) and leaves all other text unchanged. In chat prompts message order and roles are kept, placeholders given a list of messages are replaced by those messages with variables substituted, given an empty list are dropped, given another value are replaced by its JSON, and left in place when not given. Compilation does not change the prompt or the arguments, so repeated compilation gives equal results.",
  ["inputs"], "all templates up to a token length over an adversarial alphabet x variable assignments x placeholder value shapes",
  "templates and values form an infinite input space; tests use a handful",
  [CL + "prompt/promptClients.ts"], [["compile", CL + "prompt/promptClients.ts"]]);
add("P06", "The LangChain form of a prompt renders to the same text as compiling it",
  "For every prompt made of text, simple variable tags (written without inner spaces) and JSON objects (nested ones included), the LangChain template produced from it, rendered by LangChain's f-string rules with some variable values, gives the same text as compiling the prompt with those values. In chat prompts roles and order are kept, resolved placeholders become their messages, and unresolved placeholders become LangChain messages-placeholders of the same name.",
  ["inputs"], "all templates up to a token length over text, variables, and nested JSON objects, rendered with an f-string reference interpreter",
  "brace handling depends on combinations of nesting and adjacency",
  [CL + "prompt/promptClients.ts"], [["getLangchainPrompt / escapeJsonForLangchain", CL + "prompt/promptClients.ts"]]);

// ---------------------------------------------------------------- datasets
add("D01", "Loading a dataset returns all of its items exactly once and in order",
  "Loading a dataset returns every item the server holds for it exactly once and in server order, for every number of items and every page size, with the dataset's own fields unchanged, requesting each page once and only for the requested dataset and version. Names are transmitted so that any name, including ones with slashes, spaces or percent signs, addresses exactly that dataset. If any page cannot be loaded the call rejects instead of returning a partial dataset.",
  ["inputs", "fault_sequences", "configurations"], "all (item count, page size) pairs up to a bound, every position of a failing page, adversarial names",
  "off-by-one at page boundaries needs specific counts",
  [CL + "dataset/index.ts"], [["get pagination", CL + "dataset/index.ts"]]);
add("D02", "Dataset items are created only with fully uploaded media and exact references",
  "Creating a dataset item replaces every media object in its input, expected output and metadata (up to 20 levels deep) by a reference to its media id at exactly that position, leaves everything else unchanged, and does not modify the caller's values. Each distinct media content is registered and its exact bytes uploaded before the item is created; if registering or uploading any of it fails, the call rejects and the item is not created.",
  ["inputs", "fault_sequences", "schedules"], "all placements of up to 3 media objects in nested values x all failure points and completion orders of the upload protocol",
  "needs a fault at one particular step of the upload protocol",
  [CL + "dataset/index.ts", CO + "mediaUpload.ts", CO + "media.ts"], [["createItem", CL + "dataset/index.ts"], ["uploadMedia", CO + "mediaUpload.ts"]]);
add("D03", "Media references resolve to exactly the media they name, and only those",
  "Resolving media references replaces each reference string in a value by the data of exactly the media it names, up to the given depth, leaves all other content (class instances such as dates included) unchanged, and leaves a reference whose media cannot be fetched as it was. Values are not modified in place. Dataset item media fields are hydrated exactly at the positions the server lists for that item.",
  ["inputs", "fault_sequences", "schedules"], "all nested values up to a bound with up to 3 references (repeated, adjacent, invalid), with every subset of failing fetches and every completion order",
  "combinations of repeated and failing references are not sampled",
  [CL + "media/index.ts", CL + "dataset/jsonPath.ts", CL + "dataset/index.ts"], [["resolveReferences", CL + "media/index.ts"], ["setValueAtPath", CL + "dataset/jsonPath.ts"]]);

// ---------------------------------------------------------------- experiments
add("E01", "An experiment runs every item once, bounded in parallel, results in item order",
  "Running an experiment executes the task exactly once for every item that has an input, with never more than the configured number (at least 1) of items in progress at once, for every order in which tasks and evaluators complete. The result contains, in item order, one entry for every item whose task succeeded, with that item's own input, output, expected output and evaluations. An item without an input is skipped, a failing task affects only its own item and a failing evaluator only its own evaluation: the experiment itself does not reject. This holds for values of every kind, also those that cannot be serialised, and whether or not tracing is set up or sampled.",
  ["schedules", "fault_sequences", "configurations"], "all completion orders and success/failure outcomes of tasks and evaluators for up to 4 items x concurrency limits",
  "order mix-ups need particular completion orders",
  [CL + "experiment/ExperimentManager.ts"], [["run batching", CL + "experiment/ExperimentManager.ts:run"], ["runItem", CL + "experiment/ExperimentManager.ts"]]);
add("E02", "Experiment scores reach the right trace or run before the experiment resolves",
  "Every evaluation returned by an item evaluator is sent as a score on exactly that item's trace and root observation, and every run evaluation as a score on the dataset run, with the evaluation's name, value, comment and metadata, before the experiment's promise resolves. For dataset-backed experiments each item is linked to the run with its own trace and root observation before the result is returned, and all items of one experiment share one run name (the given one, else one generated for that run). Failure of a link or of a score request does not lose other items' results.",
  ["schedules", "fault_sequences"], "all completion orders/outcomes of link requests, score requests and evaluators",
  "cross-attribution needs concurrent items finishing in specific orders",
  [CL + "experiment/ExperimentManager.ts", CL + "score/index.ts"], [["score creation in run/runItem", CL + "experiment/ExperimentManager.ts"]]);
add("E03", "Spans inside an experiment task carry that item's experiment context only",
  "Every span created while an experiment item's task runs, at any nesting and after any asynchronous gap, carries the experiment id, name, metadata, item id and root span id of exactly that item and the experiment environment, however the tasks of concurrent items interleave. Spans created outside experiment tasks carry none of them.",
  ["schedules"], "all interleavings of up to 3 concurrent items' tasks with asynchronous gaps",
  "leakage needs specific interleavings of concurrent tasks",
  [CL + "experiment/ExperimentManager.ts", CO + "propagation.ts", OT + "span-processor.ts"], [["propagated experiment attributes", CO + "propagation.ts"]]);
add("E04", "Formatted experiment results pair every result with its own item",
  "The formatted experiment report shows, for every successful item and in order, that item's own input, expected output, actual output, scores and trace link, also when other items failed and are missing from the result. Averages shown for an evaluation are the mean over the numeric scores of that name, run-level evaluations are listed with their own values, and links to the trace, dataset item and dataset run lead to that trace, item and run of the project below the configured base address.",
  ["inputs", "fault_sequences"], "all success/failure subsets of up to 4 items x evaluation values and value shapes x run evaluations x base addresses",
  "needs a failed item before a successful one",
  [CL + "experiment/ExperimentManager.ts"], [["prettyPrintResults", CL + "experiment/ExperimentManager.ts"]]);

// ---------------------------------------------------------------- otel
add("O01", "Every ended span is exported exactly once by the time flush or shutdown resolves",
  "Every sampled span that ends and passes the export filter is handed to the exporter exactly once, in batched and immediate mode, for every interleaving of span ends, timers, flushes and export completions; when a flush or shutdown promise resolves, all spans ended before the call have been handed to the exporter. Spans rejected by the filter are never exported. An exporter failure or a slow export never makes the processor lose later spans.",
  ["schedules", "fault_sequences", "configurations"], "all interleavings of span ends, timer firings, flushes/shutdown and export completions (success/failure), batched and immediate",
  "needs a span to end while an export or media processing is pending",
  [OT + "span-processor.ts"], [["onEnd / forceFlush / shutdown", OT + "span-processor.ts"]]);
add("O02", "Masked data never leaves the process",
  "With a masking function configured, every exported span's input, output and metadata attributes (observation- and trace-level, including metadata stored under individual keys and metadata propagated from an enclosing scope) hold the result of the masking function, never the original value. If the masking function throws or fails for a value, a fixed placeholder is exported instead of the value. Media that the masking function removed is not uploaded. Attributes that hold no user payload are exported unchanged.",
  ["inputs", "configurations", "fault_sequences"], "all attribute kinds x ways of setting them x value shapes x masking outcomes (change, identity, throw, non-string, async)",
  "leaks hide in attribute kinds the tests do not enumerate",
  [OT + "span-processor.ts", TR + "attributes.ts"], [["applyMask", OT + "span-processor.ts"]]);
add("O03", "Media in spans becomes references and is uploaded intact before flush or shutdown resolves",
  "Every base64 data URI (data:<type>;base64,<data>) in a span's input, output or metadata, and every base64 file part of AI SDK messages, is exported as a media reference whose id is determined by the content, with all other text of the attribute unchanged; the exact decoded bytes are uploaded for that id unless the server already has them, and all uploads have finished when a flush or shutdown resolves. This holds for several, repeated, prefix-related and nested URIs and for every order and outcome of upload steps. A failing upload never prevents the span from being exported.",
  ["inputs", "schedules", "fault_sequences"], "all placements of up to 3 URIs in strings/JSON over an adversarial content set x all upload completion orders and failures",
  "corruption needs URIs that are prefixes of each other or failing uploads at particular steps",
  [OT + "MediaService.ts", CO + "mediaUpload.ts", CO + "media.ts"], [["MediaService.process", OT + "MediaService.ts"]]);
add("O04", "Exported spans carry the configured and propagated trace attributes",
  "Every exported span carries the processor's environment and release (explicit configuration first, then environment variables; an environment propagated by the enclosing scope wins) and the user id, session id, tags, metadata, version, trace name and prompt link in effect when it was started, and never those of another context. A span is marked as application root exactly if it passes the export filter when it starts, its parent is not a still-running span of this process that passes the filter, and its trace is not claimed by an upstream process through baggage.",
  ["configurations", "schedules", "histories"], "all configuration source combinations; all span trees up to a bound with remote/local parents",
  "depends on combinations of configuration sources and parent kinds",
  [OT + "span-processor.ts", CO + "propagation.ts"], [["onStart", OT + "span-processor.ts"]]);
add("O05", "The default export filter selects exactly LLM-relevant spans",
  "Without a custom filter a span is exported if and only if it was created by the Langfuse tracer, carries a generative-AI attribute (gen_ai.*), or comes from a known LLM instrumentation scope (the scope \"ai\" exactly, the other known scopes also with dotted sub-scopes). With a custom filter exactly the spans it accepts are exported.",
  ["inputs", "configurations"], "all combinations of scope names (each known scope, near-misses, extensions), attribute prefixes and filters",
  "near-miss scope names and attribute prefixes are not sampled",
  [OT + "span-filter.ts", OT + "span-processor.ts"], [["isDefaultExportSpan", OT + "span-filter.ts"]]);

// ---------------------------------------------------------------- tracing
add("T01", "Wrapping code in an observation changes nothing but the trace",
  "A function run in an active observation or wrapped for observation returns, resolves, rejects, throws and yields exactly what it would have without it, with the same arguments and receiver, for synchronous, promise-returning and generator functions. The observation ends exactly once, not before the work has finished (unless told not to end; for a generator function the work is the call that creates the generator; event observations are instantaneous), with error level and the error's message when it failed. Observations started inside, also after asynchronous gaps and in concurrent branches, become children of the innermost enclosing one.",
  ["schedules", "inputs", "programs"], "all function shapes (sync/async/throw/reject) x options x nestings x interleavings of concurrent branches",
  "the product of function shapes, nesting and interleavings is not sampled",
  [TR + "index.ts", TR + "spanWrapper.ts"], [["startActiveObservation / observe", TR + "index.ts"]]);
add("T02", "Observation fields are recorded losslessly under their attribute",
  "Every field set on an observation, at creation or by update, and the captured arguments and results (or error) of wrapped functions, are recorded on its span under the field's own attribute: strings verbatim, other values as JSON that parses back to the same value, metadata objects per key, and unset fields not at all; given start and end times and the name (by default a wrapped function's own) are those of the span. Values that cannot be serialised never make tracing throw. Later updates of a field win, other fields are kept, and updates after the end have no effect.",
  ["inputs", "histories"], "all observation types x fields x value shapes x update sequences up to length 3",
  "field and value combinations are not sampled",
  [TR + "attributes.ts", TR + "spanWrapper.ts"], [["createObservationAttributes", TR + "attributes.ts"]]);
add("T03", "Propagated attributes reach exactly the spans of their scope",
  "Attributes propagated for a scope are set on the span active at its entry and on every span started inside it, including spans started after asynchronous gaps and in nested scopes, and on no span outside it, for every interleaving of concurrent scopes. Nested scopes override user id, session id, version, trace name, environment and prompt link, extend metadata key by key and add tags without duplicates, and the outer values are back in force afterwards. Values that are not strings or are longer than 200 characters are dropped, never truncated or thrown on.",
  ["schedules", "programs", "inputs"], "all nestings up to depth 3 of scopes over attribute subsets, interleaved across up to 3 concurrent tasks",
  "leaks across concurrent scopes appear only in particular interleavings",
  [CO + "propagation.ts", OT + "span-processor.ts"], [["propagateAttributes / getPropagatedAttributesFromContext", CO + "propagation.ts"]]);
add("T04", "Attributes propagated as baggage arrive unchanged in the next process",
  "When propagation as baggage is on, the user id, session id, version, trace name, environment, tags, metadata and prompt link of a scope, injected into headers and extracted in another process by the standard baggage propagator (within its size limits), are set on the spans started there with the same values; foreign baggage entries survive and are not turned into attributes. When it is off nothing is added to the baggage.",
  ["inputs", "configurations"], "all attribute subsets x an adversarial value alphabet (separators, percent, unicode, spaces) through inject/extract",
  "encoding problems need separator characters in values",
  [CO + "propagation.ts"], [["baggage read/write", CO + "propagation.ts"]]);
add("T05", "Trace identity: deterministic ids, parents and isolated providers are honoured",
  "A trace id created from a non-empty seed is always the same 32-digit lowercase hex id for that seed and differs between different seeds; without seed ids are valid and unique. An observation started with an explicit parent context belongs to that parent's trace, has that parent and follows its sampling decision and trace state; ids reported for the active span are those of the innermost active observation and absent outside. With an isolated tracer provider set, all Langfuse spans go to it and none to the global provider, and after resetting it they go to the global provider again.",
  ["inputs", "histories", "configurations"], "all seed strings up to a length over an alphabet; all parent/provider call sequences up to a bound",
  "histories of provider changes and parent contexts are not sampled",
  [TR + "index.ts", TR + "tracerProvider.ts"], [["createTraceId / startObservation parentSpanContext", TR + "index.ts"], ["setLangfuseTracerProvider", TR + "tracerProvider.ts"]]);

// ---------------------------------------------------------------- integrations
add("A01", "The OpenAI wrapper is transparent to the caller",
  "Calls through the wrapped OpenAI client receive the same arguments, settle with the same value or error, and yield the same stream chunks in the same order as the unwrapped client, at every nesting of the client and for every outcome, including empty choices, mid-stream errors and consumers that stop early. The other members of returned API promises, pages and streams stay available, and properties that are not functions are passed through unchanged. Instrumentation problems never surface to the caller.",
  ["inputs", "fault_sequences", "schedules"], "all response/stream shapes up to a bound x error positions x early-stop positions",
  "needs unusual response shapes or stream interruptions",
  ["packages/openai/src/traceMethod.ts", "packages/openai/src/observeOpenAI.ts", "packages/openai/src/parseOpenAI.ts"], [["traceMethod / wrapAsyncIterable", "packages/openai/src/traceMethod.ts"]]);
add("A02", "Every wrapped OpenAI call yields exactly one finished generation",
  "Every call through the wrapped OpenAI client that returns a promise or stream produces exactly one generation, ended exactly once when the call settles or its stream is exhausted, fails or is abandoned after consumption started, with error level and message exactly when it failed. It carries the request's model (or the more specific one of the response), parameters and input, the name, metadata, prompt (unless a fallback), user, session, tags and trace name configured for the client and the usage, parameters and details (such as status or error) the response reports, is a child of the configured parent, else of the observation that was active at the call, and concurrent calls never mix.",
  ["fault_sequences", "schedules", "inputs"], "all outcomes and interleavings of up to 3 concurrent calls and streams",
  "unfinished spans need an abandoned or failing stream",
  ["packages/openai/src/traceMethod.ts", "packages/openai/src/parseOpenAI.ts"], [["wrapMethod", "packages/openai/src/traceMethod.ts"]]);
add("A03", "A streamed OpenAI response is recorded as the equivalent complete response",
  "For every way of splitting a chat, completion or responses-API answer into stream chunks, the recorded output is the one the complete answer has: the concatenated text of the first choice, or all its tool calls with their own names and arguments, and the usage is the one reported last in the stream. Recorded time of first token is that of the first chunk.",
  ["inputs"], "all splittings of text/tool-call answers into up to 5 chunks, with usage in any position the API allows",
  "splittings are combinatorial",
  ["packages/openai/src/parseOpenAI.ts", "packages/openai/src/traceMethod.ts"], [["processOutput / parseChunk", "packages/openai/src/traceMethod.ts"]]);
add("L01", "Every LangChain run yields one finished observation under the right parent",
  "For every well-formed sequence of LangChain callbacks, each run produces exactly one observation, whose parent is the observation of the parent run and which is ended exactly once by the run's end or error callback, with error level and message exactly on error (an agent action may add an observation of its own below its run). Interleaved runs never mix inputs, outputs or parents, and once a run is over the handler reports that run's trace id as the last one. No callback ever throws or rejects, also for unusual payloads or unknown run ids.",
  ["programs", "schedules", "inputs"], "all well-formed callback sequences over run trees of up to 4 runs (chain, model, tool, retriever, agent) with end/error choices and interleavings",
  "callback interleavings and payload shapes are combinatorial",
  ["packages/langchain/src/CallbackHandler.ts"], [["CallbackHandler", "packages/langchain/src/CallbackHandler.ts"]]);
add("L02", "LangChain model runs record input, output, usage and prompt link faithfully",
  "A model run's observation holds the messages given, the produced text or message with its tool calls, the model name and parameters, the time of the first token, and token usage in which detail counts are not counted twice; tool and retriever runs hold their input and output. The root run sets the configured user, session, tags, metadata and version on the trace. The handler's own settings given as run metadata are not recorded as metadata. A prompt attached to a prompt-template run is linked to the next model run with the same parent run and to no other.",
  ["inputs", "programs"], "all message shapes x usage shapes x run tree positions",
  "shape combinations are not sampled",
  ["packages/langchain/src/CallbackHandler.ts"], [["handleLLMEnd / prompt linking", "packages/langchain/src/CallbackHandler.ts"]]);

// ---------------------------------------------------------------- core / browser / vercel
add("C01", "API requests are retried exactly by policy",
  "An API request is repeated only after a timeout (408), rate-limit (429) or server-error status, at most the configured number of times (2 by default), waiting as the server's retry headers ask or exponentially from one second otherwise, 60 seconds at most (plus up to 20 % jitter); any other status, any success and any network failure is final. The call resolves with the JSON body of the first successful response and rejects otherwise with an error that carries the final status and body; a request without answer within its time limit is aborted and rejects with a timeout error; a call that its caller aborts rejects and sends nothing more. Every attempt sends the same method, address, authentication and body, and a finished call leaves no timer behind.",
  ["fault_sequences", "inputs", "configurations"], "all response status/header sequences up to the retry bound x retry settings x representative endpoints",
  "fault sequences are not sampled",
  [CO + "api/core/fetcher/requestWithRetries.ts", CO + "api/core/fetcher/Fetcher.ts"], [["requestWithRetries", CO + "api/core/fetcher/requestWithRetries.ts"]]);
add("C02", "Media upload protocol: right bytes, once, status reported",
  "Uploading a non-empty media object registers it with its content type, length, hash and owner, transfers the exact bytes to the address the server gives only if the server asks for them and confirms the media id, repeats a failed transfer (network failure or any status but 200/201) at most the configured number of times with exponential waits, then reports the status of the final answer, and resolves only if the transfer succeeded. The media id depends only on the bytes, so equal content gives equal ids and different content different ids. Content, type and id survive conversion to data URI and reference string and back, and downloads through a resolved reference give the exact bytes.",
  ["fault_sequences", "inputs"], "all status sequences of register/transfer/report steps up to the retry bound; all byte strings up to a length",
  "faults at particular protocol steps are not sampled",
  [CO + "mediaUpload.ts", CO + "media.ts"], [["uploadMedia", CO + "mediaUpload.ts"], ["LangfuseMedia", CO + "media.ts"]]);
add("C03", "Every API client method calls its endpoint with exactly the given parameters",
  "Each method of the API client sends one request with its endpoint's method to its endpoint's path below the configured base address, with every given path parameter encoded so that it stays one path segment, every given (non-null) query parameter exactly once per value, the given JSON body unchanged, and the client's credentials; parameters that are not given are not sent and the caller's request object is not changed. Headers and query parameters given for the client or the call reach the request, the call's winning. A successful JSON answer is returned unchanged.",
  ["inputs", "configurations"], "all 114 API methods x adversarial path parameter values x base addresses x subsets of query parameters x body shapes x header options",
  "tests call a few methods with plain values; a misnamed or unencoded parameter of one method goes unnoticed",
  [CO + "api/api/resources", CO + "api/core/fetcher/Fetcher.ts", CO + "api/core/url"], [["resource clients", CO + "api/api/resources"], ["createRequestUrl", CO + "api/core/fetcher/createRequestUrl.ts"], ["url join", CO + "api/core/url/join.ts"]]);
add("B01", "A browser score call resolves exactly when the server confirmed the score",
  "The browser client's score call sends one request with exactly the given score (the client's environment where it names none) and the public credentials, resolves with the id if and only if the server confirmed that score, and otherwise rejects with an error that carries status and body of an HTTP failure or the server's answer; concurrent calls never mix. Caller-supplied headers never override authentication, content type or the SDK's own headers. Invalid configuration is rejected at construction.",
  ["inputs", "fault_sequences", "configurations"], "all response statuses/bodies (confirmed, per-event errors, malformed, network failure) x score field combinations x header sets",
  "response shape combinations are not sampled",
  ["packages/browser/src/index.ts", "packages/browser/src/utils.ts"], [["score", "packages/browser/src/index.ts"]]);
add("V01", "Vercel AI SDK telemetry maps to the documented Langfuse attributes",
  "Every telemetry event of an AI SDK operation is forwarded unchanged and in order, so the spans are those of the plain AI SDK OpenTelemetry integration. Each span gets as Langfuse attributes exactly one metadata entry per included runtime-context key with a serialisable value (strings as is, others as JSON) and, on model-call spans only, the link to the prompt given under langfusePrompt when it is valid (string name, number version) and not a fallback. Invalid parts are ignored, nothing throws, and concurrent operations never mix.",
  ["inputs", "programs"], "all context field combinations x value shapes",
  "shape combinations are not sampled",
  ["packages/vercel-ai-sdk/src/LangfuseVercelAiSdkIntegration.ts", "packages/vercel-ai-sdk/src/utils.ts"], [["createLangfuseObservationAttributes", "packages/vercel-ai-sdk/src/utils.ts"]]);

add("E05", "Every experiment item is recorded completely on its trace and linked to its dataset run",
  "Every item an experiment processes is left unmodified and gets one root observation, which has ended before the experiment resolves and records the expected output, the experiment description and the experiment environment; when the task succeeds it also records the item's input, the task's output and the item's metadata together with the experiment's metadata and names, and when the task fails the error status and message instead. Every successful item of a dataset run is linked by one request that names exactly that dataset item, run name, run description, run metadata, dataset version and the ids of that item's trace and root observation.",
  ["inputs", "fault_sequences", "schedules"], "all item and metadata shapes x task outcomes (value shapes, sync and async failures) x run options x completion orders of up to 2 items",
  "field combinations and failing items are not sampled",
  [CL + "experiment/ExperimentManager.ts"], [["runItem", CL + "experiment/ExperimentManager.ts"]]);
add("E06", "The experiment entry points run the same experiment on exactly the given data",
  "Running an experiment from a fetched dataset uses exactly that dataset's items, in order, and its version. A runner context's defaults (data, dataset version, run metadata) each apply where the call gives none and the call's own win, metadata being merged key by key, and all other settings are the call's. An AutoEvals evaluator wrapped for experiments receives input, output, expected output and its own parameters, and its name, score and metadata arrive in the evaluation. A regression error carries exactly the result and the metric, value and threshold it was given.",
  ["inputs", "configurations", "schedules"], "all presence combinations of context defaults and call options x dataset sizes and versions x evaluator results x completion orders of two concurrent runs",
  "option combinations are not sampled",
  [CL + "experiment", CL + "dataset/index.ts"], [["runExperiment", CL + "dataset/index.ts"], ["RunnerContext", CL + "experiment"], ["createEvaluatorFromAutoevals", CL + "experiment/adapters.ts"]]);
add("D04", "Linking a dataset item records exactly that item, run and trace",
  "Linking a fetched dataset item to an observation sends one request with exactly that item's id, the given run name, the observation's trace and observation ids, and the given description and metadata; it resolves with the server's answer and rejects when the request fails. Several links, also concurrent ones, never mix items, runs or traces.",
  ["inputs", "schedules", "fault_sequences"], "all option combinations and value shapes x answers x completion orders of concurrent links",
  "tests link one item with one outcome",
  [CL + "dataset/index.ts"], [["createDatasetItemLinkFunction", CL + "dataset/index.ts"]]);
add("P07", "Creating, updating and deleting prompts sends exactly what was given",
  "Creating a prompt sends one request with exactly the given name, content, labels, tags, config and commit message (the type text when none is given; chat placeholders in the documented wire form) and resolves with a prompt of that type that reports the server's answer. Updating sends exactly the new labels for exactly that name and version; deleting names exactly the prompt, version and label given. Failures reject, and the caller's objects are not changed.",
  ["inputs", "fault_sequences"], "all field presence combinations x prompt types x chat message shapes x adversarial names x server answers",
  "field combinations and adversarial names are not sampled",
  [CL + "prompt/promptManager.ts"], [["create / update / delete", CL + "prompt/promptManager.ts"]]);
add("K01", "Client configuration has one precedence and applies to every request",
  "For each client setting, the value given to the constructor wins over the environment variable, that over the legacy environment variable, that over the documented default; every request of the client, whatever entry point made it, goes to the resulting base address with the resulting credentials, the SDK name and version headers and the additional headers, and several clients never share settings. The deprecated method names behave like the methods they stand for. The trace link of the client points to that trace of the project at the base address. The configured request timeout bounds every request.",
  ["configurations", "inputs"], "all source combinations of each setting x client entry points x base address shapes; pairs of clients",
  "source combinations are not sampled; most entry points are tested with explicit settings only",
  [CL + "LangfuseClient.ts", CO + "api/Client.ts"], [["constructor", CL + "LangfuseClient.ts"], ["getTraceUrl", CL + "LangfuseClient.ts"]]);

add("K02", "Credentials go to the configured server only and nowhere else",
  "The secret key, the encoded credentials and the values of additional headers leave the process only as request headers to the configured base address. They never appear in log messages at any level, in results or errors of any operation, in URLs, request bodies or exported spans, and requests to other addresses, such as media storage, carry no credentials, whatever the servers answer and also when requests fail or never finish.",
  ["inputs", "fault_sequences", "configurations"], "all client operations and span export x answers (success, 4xx, 5xx, malformed, network failure, none) x log levels x key sources",
  "a leak appears on a particular failure path at a particular log level",
  [CL + "LangfuseClient.ts", CO + "api/core/fetcher", CO + "mediaUpload.ts", OT + "span-processor.ts", CO + "api/errors"], [["request headers", CO + "api/core/fetcher/Fetcher.ts"], ["upload", CO + "mediaUpload.ts"], ["errors", CO + "api/errors"]]);
add("G01", "Log output follows the configured level everywhere",
  "A log message is printed exactly once, with the console method of its level, if and only if its level is at or above the logger's current level, with its prefix, level, text and arguments unchanged and a timestamp unless disabled; at level NONE nothing is printed. The level comes from the latest global configuration or level change, before any from the environment when the SDK is loaded (debug flag first), otherwise INFO, and applies from then on to every part of the SDK, including clients created earlier. Separate loggers are independent.",
  ["histories", "configurations", "fault_sequences"], "all histories of global logger operations up to the bound x all levels and settings x environment values x SDK operations and failures",
  "level and operation combinations are not sampled; a stale logger shows only after reconfiguration",
  [CO + "logger/index.ts"], [["Logger / LoggerSingleton", CO + "logger/index.ts"]]);
add("O06", "Span export settings have one precedence and decide where, when and how spans are sent",
  "For the span processor's keys, base address, batch size, flush interval, timeout and media switch, the value given to the constructor wins over the environment, that over the legacy variable, that over the documented default. Without an own exporter, spans are posted to the trace endpoint below the base address with the resulting credentials, SDK headers and additional headers, each with its ids, name and attributes unchanged. In batched mode they are sent as soon as the batch size is reached and otherwise after the flush interval, in immediate mode when they end. An export without answer is given up after the timeout, and later spans are still sent. With an own exporter no export request is made; with media upload off media stay in place and nothing is uploaded.",
  ["configurations", "fault_sequences", "inputs"], "all source combinations of every setting x export modes x span counts around the thresholds x export outcomes",
  "setting source combinations are not sampled, and the export request itself is never looked at",
  [OT + "span-processor.ts"], [["constructor", OT + "span-processor.ts"]], { observe_at: ["HTTP POST /api/public/otel/v1/traces"] });

export { P };

// technique + level note per claimed property
const SC = "stateless model checking of the real code: every sequence of scheduler/fault/input choices within the bounds is executed under a controlled scheduler, clock and network and checked against ";
export const claims = {
  S01: { technique: SC + "an exactly-once/in-order ledger of created scores", note: "up to 5 creations/bursts interleaved with timers, flushes and request outcomes; all optional-field combinations" },
  S02: { technique: SC + "a ledger of scores created before each flush/shutdown call", note: "all interleavings of creations, concurrent flush/shutdown, timers and request outcomes within the bound" },
  S03: { technique: SC + "deadline monitors (interval, threshold) on the virtual clock", note: "several thresholds/intervals, slow and failing requests" },
  P01: { technique: SC + "a content-tagging server that identifies which request each returned prompt came from", note: "all pairs (thorough: triples) of lookups over an adversarial alphabet" },
  P02: { technique: SC + "a reference stale-while-revalidate cache automaton", note: "all histories of lookups, time steps and completions up to the bound" },
  P03: { technique: SC + "a happens-before monitor between update/delete completion and request issue", note: "all interleavings of lookups, refreshes, update/delete and completions" },
  P04: { technique: SC + "a reference decision table over the whole failure sequence", note: "all failure sequences up to the retry bound x option combinations" },
  P05: { technique: "bounded exhaustive enumeration of templates x assignments on the real code against a reference compiler", note: "all templates up to a token length over an adversarial alphabet" },
  P06: { technique: "bounded exhaustive enumeration of templates on the real code, rendered by a reference f-string interpreter", note: "all templates up to a token length incl. nested JSON" },
  D01: { technique: SC + "a paged server model", note: "all (item count, page size) pairs and failing-page positions within the bound" },
  D02: { technique: SC + "an upload-protocol monitor and a reference replacement", note: "all placements of media over 3 fields; all completion orders and fault positions for representative placements" },
};
Object.assign(claims, {
  D03: { technique: SC + "a reference resolver over a content-tagging media server", note: "all nested values up to the bound with repeated/adjacent/invalid references, every subset of failing fetches and completion order" },
  E01: { technique: SC + "a per-item ledger and a concurrency monitor", note: "all completion orders and outcomes of tasks and evaluators for up to 4 items x limits" },
  E02: { technique: SC + "a ledger of evaluations and links per trace/run", note: "all completion orders/outcomes of link, score and evaluator steps within the bound" },
  E03: { technique: SC + "per-item context tags on every exported span", note: "all interleavings of up to 3 concurrent tasks with asynchronous gaps" },
  E04: { technique: "bounded exhaustive enumeration of success/failure patterns and evaluation values on the real code against a reference report reader", note: "all patterns of up to 4 items" },
  O01: { technique: SC + "an exactly-once ledger of ended spans and flush monitors", note: "all interleavings of span ends, timers, flushes, shutdown and export outcomes, batched and immediate" },
  O02: { technique: "bounded exhaustive enumeration of attribute kinds x setters x values x masking outcomes on the real span pipeline against a leak monitor", note: "every exported attribute is searched for the secret" },
  O03: { technique: SC + "a reference replacement and an upload-protocol monitor", note: "all placements of up to 3 URIs over an adversarial set; all completion orders and outcomes of upload steps" },
  O04: { technique: SC + "a reference attribute/app-root model over span trees", note: "all configuration source combinations and all span trees up to the bound" },
  O05: { technique: "bounded exhaustive enumeration of scopes x attributes x filters on the real span pipeline against a reference predicate", note: "all known scopes with near misses and extensions" },
  T01: { technique: SC + "a reference run of the same program without observation", note: "all function shapes x options x nestings x interleavings of concurrent branches within the bound" },
  T02: { technique: "bounded exhaustive enumeration of observation types x fields x values x update histories on the real code against a reference record", note: "update sequences up to length 3" },
  T03: { technique: SC + "a reference scope interpreter", note: "all nestings up to depth 3, interleaved across up to 3 tasks" },
  T04: { technique: "bounded exhaustive enumeration of attribute subsets x adversarial values through real inject/extract against identity", note: "one recorded finding: tags containing a comma" },
  T05: { technique: SC + "a reference identity model", note: "all seeds up to a length; all parent/provider histories up to the bound" },
  A01: { technique: SC + "differential execution of the unwrapped client", note: "all response/stream shapes x error and stop positions within the bound" },
  A02: { technique: SC + "a one-generation-per-call ledger", note: "all outcomes and interleavings of up to 3 concurrent calls" },
  A03: { technique: "bounded exhaustive enumeration of all splittings of answers into chunks on the real code against the recorded complete answer", note: "up to 5 chunks" },
  L01: { technique: SC + "a reference run-tree model", note: "all well-formed callback sequences over run trees of up to 4 runs" },
  L02: { technique: "bounded exhaustive enumeration of message/usage/parameter shapes and run-tree positions on the real handler against a reference record", note: "all combinations within the stated alphabets" },
  C01: { technique: SC + "a reference retry policy on the virtual clock", note: "all answer sequences up to the retry bound, for every API method" },
  C02: { technique: SC + "a reference upload protocol", note: "all transfer outcome sequences x registration/report outcomes; conversions over all short byte strings" },
  C03: { technique: "bounded exhaustive enumeration of API methods x parameter sets on the real client against an endpoint table", note: "all 114 methods" },
  B01: { technique: SC + "a reference confirmation table", note: "all answers x options; all completion orders of concurrent calls" },
  V01: { technique: SC + "differential execution of the plain AI SDK telemetry integration", note: "18 AI SDK programs x telemetry options x runtime contexts; all completion orders of concurrent operations" },
});
Object.assign(claims, {
  E05: { technique: SC + "a reference record of every item and link", note: "all item/metadata/outcome shapes; all completion orders of 2 items" },
  E06: { technique: SC + "a reference merge of defaults and options", note: "all presence combinations; all completion orders of two runs" },
  D04: { technique: SC + "a ledger of links", note: "all option combinations; all completion orders of concurrent links" },
  P07: { technique: "bounded exhaustive enumeration of prompt requests x answers on the real code against a reference request", note: "all presence combinations of fields" },
  K01: { technique: "bounded exhaustive enumeration of configuration sources x entry points on the real client against a reference precedence", note: "one recorded finding: the request timeout setting is not applied" },
});
Object.assign(claims, {
  K02: { technique: "bounded exhaustive enumeration of operations x answers x log levels on the real code with a leak monitor on logs, errors, results and requests", note: "text search of everything observable" },
  G01: { technique: "bounded exhaustive enumeration of logger operation histories and SDK operations on the real code against a reference logger", note: "histories up to length 3 (thorough 5)" },
  O06: { technique: SC + "a reference of addresses, headers and send times on the virtual clock, with the real OTLP exporter", note: "all source combinations of every setting" },
});
export const notApplicable = {};
