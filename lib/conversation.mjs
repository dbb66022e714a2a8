// Conversations of every kind (generateText, streamText, responses) under one roof, for the properties
// that promise the same of all of them.
import { compareHistory, genChat, modelChat, runChat } from './chat.mjs'
import { judgeRequests, stepDiff } from './oracle.mjs'
import { compareItems, genResponses, judgeResponsesRequests, modelResponses, runResponses } from './responses.mjs'

export const pickConversation = (rng, wanted, { responses = 0.2 } = {}) => {
  const kind = rng.bool(responses) ? 'responses' : rng.bool() ? 'stream' : 'generate'
  const profile = typeof wanted === 'function' ? wanted(kind) : wanted
  if (kind !== 'responses') {
    const stream = kind === 'stream'
    return {
      compare: compareHistory,
      diff: (got, want) => stepDiff(got, want, { stream }),
      judge: (v, sc, m, world, opts = {}) => judgeRequests(v, sc, m, world, { ...opts, ...(opts.only === 'history' && { only: 'messages' }), stream }),
      kind,
      model: sc => modelChat(sc, { stream }),
      run: (api, sc, opts = {}) => runChat(api, sc, rng, { ...opts, stream }),
      sc: genChat(rng, profile),
      stream,
    }
  }
  return {
    compare: compareItems,
    // what a step without text, or with a refusal, says of its text is not the matter here
    diff: (got, want) => stepDiff(got && { ...got, text: want.turn.items.some(x => x.item.content?.some?.(p => p.type === 'refusal')) ? want.text : got.text || undefined }, want),
    judge: (v, sc, m, world, opts = {}) => judgeResponsesRequests(v, sc, m, world, { ...opts, ...(opts.only === 'history' && { only: 'input' }) }),
    kind,
    model: modelResponses,
    run: (api, sc, opts = {}) => runResponses(api, sc, rng, opts),
    sc: genResponses(rng, profile),
    stream: true,
  }
}
