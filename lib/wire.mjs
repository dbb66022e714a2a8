// A provider behind a real HTTP server on the loopback interface, reached with the real fetch: the bytes of the
// request are what the server received, the answer is cut, paced, compressed and broken off on a real connection.
import { createServer } from 'node:http'
import { constants, createBrotliCompress, createDeflate, createGzip } from 'node:zlib'

import { World } from './world.mjs'

const realFetch = globalThis.fetch
const wait = ms => new Promise(r => ms > 0 ? setTimeout(r, ms) : setImmediate(r))
const ENCODINGS = {
  br: () => createBrotliCompress({ flush: constants.BROTLI_OPERATION_FLUSH }),
  deflate: () => createDeflate({ flush: constants.Z_SYNC_FLUSH }),
  gzip: () => createGzip({ flush: constants.Z_SYNC_FLUSH }),
}

// headers the transport adds on its own
const OWN = new Set(['accept', 'accept-encoding', 'accept-language', 'connection', 'content-length', 'host', 'sec-fetch-mode', 'transfer-encoding', 'user-agent'])

const worlds = new Map()
let server
let serial = 0
const listening = () => server ??= new Promise((resolve, reject) => {
  const s = createServer((req, res) => {
    const [, id, index, ...rest] = req.url.split('/')
    const world = worlds.get(id)
    if (!world) return res.destroy()
    void world.serve(req, res, Number(index), `/${rest.join('/')}`)
  })
  s.keepAliveTimeout = 20000
  s.requestTimeout = 0
  s.on('error', reject)
  s.listen(0, '127.0.0.1', () => {
    s.unref()
    resolve(s.address().port)
  })
})

export class WireWorld extends World {
  constructor(rng, opts) {
    super(rng, opts)
    this.id = `w${++serial}`
    this.patience = 20000
    worlds.set(this.id, this)
  }

  /** until every connection was used up or hung up */
  async released(ms = 20000) {
    for (const end = Date.now() + ms; this.bodies.some(b => b.state === 'open') && Date.now() < end;) await wait(2)
    worlds.delete(this.id)
    return this.bodies.filter(b => b.state === 'open').length
  }

  async fetch(input, init = {}) {
    const port = await listening()
    const url = new URL(input)
    const index = this.requests.length
    const rec = { index, signal: init.signal, target: url.href }
    this.requests.push(rec)
    this.note('request', index)
    try {
      const res = await realFetch(`http://127.0.0.1:${port}/${this.id}/${index}${url.pathname}${url.search}`, init)
      this.note('response', index)
      return res
    }
    catch (e) {
      this.note('network-error', index)
      throw e
    }
  }

  async serve(req, res, index, path) {
    const rec = this.requests[index]
    const state = { delivered: 0, index, state: 'open' }
    res.on('close', () => {
      if (state.state === 'open') state.state = res.writableFinished ? 'consumed' : 'hung up'
      this.note('body-end', index)
    })
    res.on('error', () => {})
    req.on('error', () => {})
    const parts = []
    try { for await (const c of req) parts.push(c) }
    catch { return }
    const body = Buffer.concat(parts)
    // what is judged is what arrived
    rec.arrived = (rec.arrived ?? 0) + 1
    rec.bytes = body
    rec.type = req.headers['content-type']
    rec.length = req.headers['content-length']
    rec.headers = Object.fromEntries(Object.entries(req.headers).filter(([k]) => !OWN.has(k)))
    rec.method = req.method
    rec.text = body.toString()
    rec.url = new URL(rec.target).origin + path
    try { rec.json = JSON.parse(rec.text) }
    catch { rec.jsonError = true }
    const plan = await this.handler(rec, index)
    this.bodies.push(state)
    if ('networkError' in plan) {
      state.state = 'broken'
      return req.socket.destroy()
    }
    const chunks = plan.chunks ?? [Buffer.from(plan.text ?? plan.bytes ?? '')]
    const headers = { ...plan.headers }
    const compress = plan.encoding && ENCODINGS[plan.encoding]
    if (compress) headers['content-encoding'] = plan.encoding
    else if (plan.sized && plan.cutAt == null && !plan.neverClose) headers['content-length'] = String(chunks.reduce((n, c) => n + c.length, 0))
    res.writeHead(plan.status ?? 200, plan.statusText, headers)
    if (plan.noBody) return res.end()
    res.flushHeaders()
    let out = res
    if (compress) {
      out = compress()
      out.on('error', () => {})
      out.pipe(res)
    }
    for (let i = 0; ; i++) {
      if (state.state !== 'open') return out !== res && out.destroy()
      if (plan.cutAt === i) {
        // the parts sent so far arrive first
        if (out !== res) await new Promise(r => out.flush(r))
        await wait(2)
        state.state = 'broken'
        this.note('cut', index)
        return req.socket.destroy()
      }
      if (i >= chunks.length) break
      out.write(chunks[i])
      state.delivered = i + 1
      this.note('chunk', index)
      await wait(plan.pause?.(i) ?? 0)
    }
    if (!plan.neverClose) return out.end()
    // stays open until the other side hangs up
    while (state.state === 'open') {
      out.write(plan.beat ?? ': \n\n')
      await wait(5)
    }
    if (out !== res) out.destroy()
  }
}
