import { getEventListeners } from 'node:events'
import v8 from 'node:v8'
import vm from 'node:vm'

import { anyCall } from '../lib/anycall.mjs'
import { short, Violations } from '../lib/util.mjs'
import { immediate } from '../lib/world.mjs'

/** the shape of everything in the process a library could reach and leave changed */
const GLOBALS = ['Array', 'ArrayBuffer', 'Uint8Array', 'Object', 'Function', 'String', 'Number', 'RegExp', 'Date', 'Map', 'Set', 'WeakMap', 'Promise', 'Error', 'TypeError', 'JSON', 'Math', 'Reflect', 'URL', 'Headers', 'Request', 'Response', 'FormData', 'Blob', 'ReadableStream', 'TransformStream', 'WritableStream', 'TextEncoder', 'TextDecoder', 'AbortController', 'AbortSignal', 'EventTarget', 'console', 'crypto', 'performance', 'Symbol']
const shapeOf = (o) => {
  const out = new Map()
  if (o == null) return out
  for (const k of Reflect.ownKeys(o)) {
    const d = Object.getOwnPropertyDescriptor(o, k)
    out.set(k, 'value' in d ? d.value : d.get)
  }
  return out
}
const OWNERS = () => [
  ['globalThis', globalThis],
  ...GLOBALS.flatMap(k => [[k, globalThis[k]], ...(globalThis[k]?.prototype ? [[`${k}.prototype`, globalThis[k].prototype]] : [])]),
  ['ReadableStream reader', Object.getPrototypeOf(new ReadableStream().getReader())],
  ['async generators', Object.getPrototypeOf(async function* () {}).prototype],
]
const snapshot = owners => owners.map(([, o]) => shapeOf(o))
const compare = (owners, a, b) => {
  for (let i = 0; i < owners.length; i++) {
    if (a[i].size !== b[i].size) return `${owners[i][0]}: ${[...b[i].keys()].filter(k => !a[i].has(k)).map(String)} added, ${[...a[i].keys()].filter(k => !b[i].has(k)).map(String)} removed`
    for (const [k, x] of b[i]) {
      if (!a[i].has(k)) return `${owners[i][0]}.${String(k)} added`
      if (!Object.is(a[i].get(k), x)) return `${owners[i][0]}.${String(k)} replaced`
    }
  }
  return undefined
}
const EVENTS = ['uncaughtException', 'unhandledRejection', 'exit', 'beforeExit', 'SIGINT', 'SIGTERM', 'warning', 'rejectionHandled', 'multipleResolves']
const processView = () => ({ argv: process.argv.join(' '), cwd: process.cwd(), env: JSON.stringify(process.env), exitCode: process.exitCode, listeners: EVENTS.map(e => process.listenerCount(e)).join(), umask: process.umask() })
/** timers the library starts: they are over (fired or cleared) when the call is */
const watchTimers = () => {
  const alive = new Map()
  const real = Object.fromEntries(['setTimeout', 'setInterval', 'clearTimeout', 'clearInterval'].map(k => [k, globalThis[k]]))
  let started = 0
  const mine = () => new Error('where').stack.split('\n').slice(3, 5).join().includes('bundle.cjs')
  for (const k of ['setTimeout', 'setInterval']) {
    globalThis[k] = (f, ...a) => {
      if (!mine()) return real[k](f, ...a)
      started++
      const t = real[k](function (...b) {
        if (k === 'setTimeout') alive.delete(t)
        return f.apply(this, b)
      }, ...a)
      alive.set(t, k)
      return t
    }
  }
  for (const k of ['clearTimeout', 'clearInterval']) {
    globalThis[k] = (t) => {
      for (const x of alive.keys()) if (x === t || Number(x) === Number(t)) alive.delete(x)
      return real[k](t)
    }
  }
  return { alive, restore: () => Object.assign(globalThis, real), started: () => started }
}
const timers = () => process.getActiveResourcesInfo().filter(x => x === 'Timeout' || x === 'Interval').length

const drop = async (api, rng, n, telemetry) => {
  const refs = []
  for (let i = 0; i < n; i++) {
    await (async () => {
      const r = await anyCall(api, rng, { telemetry })
      if (r.options && !r.hang) refs.push([r.label, new WeakRef(r.options), new WeakRef(r.world)])
    })()
  }
  return refs
}

export default {
  bundles: ['core', 'telemetry'],
  cases: { quick: 2500, thorough: 120000 },
  id: 'P37',
  level: 'exploration',
  levelNote: 'Process state compared before and after seeded calls; no claim beyond the executions observed.',
  mustObserve: ['successful calls', 'failed calls', 'aborted calls', 'signals looked at', 'globals compared', 'calls forgotten', 'telemetry calls', 'calls without a fetch of their own'],
  rule: 'Any API function (also its telemetry variant), with any ending, is called between two looks at the process: globals and prototypes, environment, process listeners, pending timers, console and terminal output, use of the global fetch, listeners left on the caller\'s signal; every 40th case drops a group of finished calls and looks whether the garbage collector can take them. Non-trivial: a request was made; distinct by function, ending and requests.',
  async setup(api) {
    v8.setFlagsFromString('--expose-gc')
    return { gc: vm.runInNewContext('gc'), owners: OWNERS() }
  },
  technique: 'runtime monitoring: process-state monitor (globals, listeners, timers, output, reachability)',
  async run({ api, count, index, monitors, rng, state }) {
    const v = new Violations()
    const telemetry = rng.bool(0.3)

    if (index % 40 === 7) {
      const refs = await drop(api, rng, 8, telemetry)
      monitors.unhandled.length = 0
      monitors.console.length = 0
      let kept = refs
      for (let i = 0; i < 6 && kept.length > 0; i++) {
        await new Promise(r => setTimeout(r, 1))
        await immediate()
        state.gc()
        kept = kept.filter(([, a, b]) => a.deref() !== undefined || b.deref() !== undefined)
      }
      count('calls forgotten', refs.length - kept.length)
      v.check(kept.length < 5, 'finished calls are not kept in memory', () => `${kept.length} of ${refs.length}: ${kept.map(k => k[0])}`)
      return { allowUnhandled: true, nontrivial: refs.length > 0, sample: { kept: kept.length, refs: refs.length }, signature: ['drop', index], violations: v.list }
    }

    // everything lazy in the process has been touched by the first look
    const written = []
    const restore = ['stdout', 'stderr'].map((k) => {
      const real = process[k].write
      process[k].write = function (s, ...a) {
        written.push(String(s))
        return real.call(this, s, ...a)
      }
      return () => { process[k].write = real }
    })
    const realFetch = globalThis.fetch
    const own = rng.bool(0.8)
    let globalCalls = 0
    let worldFetch
    const tripwire = async (...a) => {
      globalCalls++
      if (own) throw new Error('the global fetch was used')
      return worldFetch(...a)
    }
    globalThis.fetch = tripwire
    let r
    const watch = watchTimers()
    let before, beforeProcess, beforeTimers, after, afterProcess, afterTimers
    try {
      before = snapshot(state.owners)
      beforeProcess = processView()
      beforeTimers = timers()
      r = await anyCall(api, rng, { common: own ? {} : { fetch: undefined }, onWorld: (w) => { worldFetch = w.fetch }, telemetry })
      for (let i = 0; i < 8; i++) await immediate()
      after = snapshot(state.owners)
      afterProcess = processView()
      afterTimers = timers()
    }
    finally {
      globalThis.fetch = realFetch
      watch.restore()
      for (const f of restore) f()
    }
    const where = r.label
    if (!v.check(!r.hang, 'the call ends', where)) return { violations: v.list }
    const d = compare(state.owners, before, after)
    count('globals compared')
    v.check(d === undefined, 'globals and prototypes are left as they were', () => `${where}: ${d}`)
    for (const k of Object.keys(beforeProcess)) v.check(beforeProcess[k] === afterProcess[k], 'the process is left as it was', () => `${where}: ${k} ${short(beforeProcess[k], 100)} became ${short(afterProcess[k], 100)}`)
    v.check(afterTimers <= beforeTimers && watch.alive.size === 0, 'no timer is left behind', () => `${where}: ${afterTimers - beforeTimers}, ${[...watch.alive.values()]}`)
    count('timers of the library', watch.started())
    v.check(monitors.console.length === 0 && written.length === 0, 'nothing is printed', () => `${where}: ${short([monitors.console.map(c => c[1]), written])}`)
    if (own) v.check(globalCalls === 0, 'only the given fetch is used', () => `${where}: ${globalCalls}`)
    else {
      v.check(globalCalls === r.world.requests.length, 'every request goes through the global fetch', () => `${where}: ${globalCalls} of ${r.world.requests.length}`)
      if (globalCalls > 0) count('calls without a fetch of their own')
    }
    // a caller may use one signal for many calls: none of them leaves anything on it
    if (!r.ac.signal.aborted && r.world.bodies.every(b => b.state !== 'open')) {
      const left = getEventListeners(r.ac.signal, 'abort').length
      count('signals looked at')
      v.check(left === 0 && r.ac.signal.onabort === null, 'nothing is left on the caller\'s signal', () => `${where}: ${left} listeners`)
    }
    if (r.ac.signal.aborted) count('aborted calls')
    if (telemetry) count('telemetry calls')
    count(r.errors.length > 0 ? 'failed calls' : 'successful calls')
    return { allowUnhandled: true, nontrivial: r.world.requests.length > 0, sample: { errors: r.errors.length, label: r.label, requests: r.world.requests.length }, signature: [r.label, r.moment, r.world.requests.map(q => [q.url, q.text])], violations: v.list }
  },
}
