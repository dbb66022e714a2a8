// Virtual time: timers fire in due order as soon as nothing else can happen, and the time they were asked for is what the monitors see.
const realSet = globalThis.setTimeout
const realClear = globalThis.clearTimeout
const turn = () => new Promise(r => setImmediate(r))

export class VirtualClock {
  constructor() {
    this.now = 0
    this.queue = []
    this.seq = 0
    this.armed = 0
    this.requested = []
  }

  install() {
    globalThis.setTimeout = (fn, ms, ...args) => {
      const n = Number(ms)
      const delay = Number.isFinite(n) && n > 0 ? n : 0
      const id = ++this.seq
      this.requested.push(delay)
      this.queue.push({ args, due: this.now + delay, fn, id })
      return { [Symbol.toPrimitive]: () => id, hasRef: () => true, id, ref() { return this }, unref() { return this } }
    }
    globalThis.clearTimeout = (h) => {
      const id = typeof h === 'object' ? h?.id : h
      const i = this.queue.findIndex(x => x.id === id)
      if (i >= 0) this.queue.splice(i, 1)
      else realClear(h)
    }
    return this
  }

  uninstall() {
    globalThis.setTimeout = realSet
    globalThis.clearTimeout = realClear
  }

  /** lets everything happen that can happen without time passing */
  async quiesce(turns = 4) { for (let i = 0; i < turns; i++) await turn() }

  /** fires the next timer(s); false if none is armed */
  fireNext() {
    if (this.queue.length === 0) return false
    this.queue.sort((a, b) => a.due - b.due || a.id - b.id)
    const t = this.queue.shift()
    this.now = Math.max(this.now, t.due)
    t.fn(...t.args)
    return true
  }

  /** runs until the promise settles; {status:'hang'} when nothing is left that could settle it */
  async run(promise, { maxTimers = 5000, turns = 4 } = {}) {
    let out
    promise.then((value) => { out = { status: 'fulfilled', value } }, (reason) => { out = { reason, status: 'rejected' } })
    let fired = 0
    while (true) {
      for (let i = 0; i < turns && out === undefined; i++) await turn()
      if (out !== undefined) return out
      if (!this.fireNext()) {
        for (let i = 0; i < 100 && out === undefined && this.queue.length === 0; i++) await turn()
        if (out !== undefined) return out
        if (this.queue.length === 0) return { status: 'hang' }
      }
      if (++fired > maxTimers) return { status: 'hang', why: 'too many timers' }
    }
  }
}
