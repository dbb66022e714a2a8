import { b64, oddThrown, randomBytes } from '../lib/fixtures.mjs'
import { short, Violations } from '../lib/util.mjs'
import { cutBytes, delivery, settleOrHang, World } from '../lib/world.mjs'

const enc = new TextEncoder()
const ascii = s => [...enc.encode(s)]
const FORMATS = {
  avif: { head: rng => [0, 0, 0, rng.int(16, 60), ...ascii('ftypavif')], mime: 'image/avif' },
  gif: { head: rng => ascii(rng.pick(['GIF87a', 'GIF89a'])), mime: 'image/gif' },
  jpeg: { head: rng => [0xFF, 0xD8, 0xFF, rng.pick([0xE0, 0xE1, 0xDB, 0xEE])], mime: 'image/jpeg' },
  png: { head: () => [0x89, 0x50, 0x4E, 0x47, 0x0D, 0x0A, 0x1A, 0x0A], mime: 'image/png' },
  webp: { head: rng => [...ascii('RIFF'), ...randomBytes(rng, 4), ...ascii('WEBPVP8 ')], mime: 'image/webp' },
}
// formats that are told by the content type only
const OTHERS = ['image/bmp', 'image/svg+xml', 'image/tiff', 'image/heic', 'image/x-icon']
const DECOYS = ['/9j/', 'AAAAGGZ0eXBhdmlm', 'iVBORw0KGgoA', 'R0lGOD', 'UklGRg'].map(x => x.padEnd(Math.ceil(x.length / 4) * 4, 'A'))
const same = (a, want) => a === want || (want === 'image/jpeg' && a === 'image/jpg')

export default {
  bundles: ['core'],
  cases: { quick: 5000, thorough: 200000 },
  id: 'P30',
  mustObserve: ['formats told by the content type only', 'the runtime\'s own fetch', 'inline images', 'linked images', 'downloads finishing out of order', 'png', 'jpeg', 'gif', 'webp', 'avif', 'detected from the data', 'unrecognised entries', 'failed downloads', 'large images'],
  rule: 'Seeded answers of 1-40 images (PNG, JPEG, GIF, WebP, AVIF with random content), inline or linked, linked ones served with a precise, generic or missing content type, with any download timing, some entries unrecognisable and some downloads failing (status, transport, broken mid-body). Oracle: order, bytes, media type, all-or-nothing. Non-trivial: at least two images; distinct by formats, delivery and completion order.',
  technique: 'runtime monitoring with fault injection: order and byte conservation oracle over request log',
  async run({ api, count, rng }) {
    const v = new Violations()
    const world = new World(rng)
    const n = rng.pick([1, 1, 2, 2, 3, rng.int(4, 8), rng.heavy(8, 40)])
    const fault = rng.bool(0.25)
    const faultAt = rng.int(0, n - 1)
    const faultKind = rng.pick(['entry', 'status', 'network', 'cut'])
    const cut = rng.bool(0.8) ? new Error('connection lost') : oddThrown(rng)
    const images = Array.from({ length: n }, (_, i) => {
      const f = rng.pick(Object.keys(FORMATS))
      // content that holds, behind its own mark, the marks of other formats
      const decoy = rng.bool(0.2) ? Buffer.from(rng.shuffle([...DECOYS]).join('AAAA'), 'base64') : Buffer.alloc(0)
      const head = FORMATS[f].head(rng)
      const gap = decoy.length > 0 ? (3 - head.length % 3) % 3 : 0
      const bytes = Buffer.concat([Uint8Array.from(head), randomBytes(rng, gap), decoy, randomBytes(rng, n > 8 ? rng.int(0, 300) : rng.size(400, 900000))])
      const faulty = fault && i === faultAt
      const linked = faulty ? faultKind !== 'entry' : rng.bool(0.5)
      const img = { bytes, f, faulty, linked, mime: FORMATS[f].mime }
      if (linked && rng.bool(0.08)) img.mime = rng.pick(OTHERS)
      if (linked) {
        img.url = `${rng.pick([`https://cdn${rng.int(0, 2)}.test`, `https://cdn${rng.int(0, 2)}.test`, 'https://cdn.a.test', 'https://files-a.test', 'https://a.test.evil.test', 'http://a.test:8080', 'https://cdn.test/a.test/v1'])}/${i}/${rng.ident()}.bin?sig=${encodeURIComponent(rng.ident())}`
        img.type = OTHERS.includes(img.mime) ? rng.pick([img.mime, `${img.mime}; charset=binary`]) : rng.pick([img.mime, img.mime, `${img.mime}; charset=binary`, 'application/octet-stream', 'binary/octet-stream', undefined])
      }
      return img
    })
    // the same link may be returned twice
    const data = images.map((img) => {
      const extra = rng.bool(0.2) ? { revised_prompt: rng.text(10) } : {}
      if (img.faulty && faultKind === 'entry') return rng.pick([{}, { b64_json: null }, { url: null }, { revised_prompt: 'x' }, { file_id: 'f' }, { b64_json: 7 }])
      if (img.linked) return { ...extra, ...(rng.bool(0.2) && { b64_json: null }), url: img.url }
      return { ...extra, b64_json: b64(img.bytes), ...(rng.bool(0.2) && { url: rng.pick([null, 'https://cdn.test/never']) }) }
    })
    const finished = []
    const signal = rng.bool(0.3) ? new AbortController().signal : undefined
    world.handler = (rec) => {
      if (rec.index === 0) return { ...delivery(rng), headers: { 'content-type': 'application/json' }, text: JSON.stringify({ created: 1, data }) }
      const i = images.findIndex(img => img.url === rec.url)
      if (i < 0) return { status: 404, text: 'unexpected link' }
      const img = images[i]
      img.requests = [...(img.requests ?? []), rec]
      const plan = { ...delivery(rng), latency: rng.pick([0, -rng.int(1, 20), rng.int(1, 12)]), onRespond: () => finished.push(i) }
      const headers = img.type === undefined ? {} : { 'content-type': img.type }
      const chunks = cutBytes(rng, img.bytes)
      if (img.faulty && faultKind === 'status') return { ...plan, headers: { 'content-type': rng.pick(['image/png', 'text/html']) }, status: rng.pick([400, 403, 404, 410, 500, 503]), text: rng.pick(['gone', '', '\x89PNG']) }
      if (img.faulty && faultKind === 'network') return { ...plan, networkError: cut }
      if (img.faulty && faultKind === 'cut') return { ...plan, chunks, cutAt: rng.int(0, chunks.length), cutError: cut, headers }
      return { ...plan, chunks, headers, status: 200 }
    }
    const options = { apiKey: 'sk-secret', baseURL: 'https://a.test/v1/', fetch: world.fetch, model: 'm', prompt: rng.text(20), ...(rng.bool(0.5) && { n }), ...(rng.bool(0.4) && { responseFormat: rng.pick(['url', 'b64_json']) }), ...(signal && { abortSignal: signal }) }
    const realFetch = globalThis.fetch
    if (rng.bool(0.15)) {
      globalThis.fetch = options.fetch
      delete options.fetch
      count('the runtime\'s own fetch')
    }
    const w = await settleOrHang(world, api.generateImage.generateImage(options))
    globalThis.fetch = realFetch
    const where = `${short(images.map(x => [x.f, x.linked ? `link ${x.type}` : 'inline', x.bytes.length]))} finished ${finished}`
    if (!v.check(w.status !== 'hang', 'the call ends', where)) return { violations: v.list }
    if (fault) {
      v.check(w.status === 'rejected', 'a missing, unrecognised or failed image fails the call', () => `${faultKind} at ${faultAt}: ${short(w.value)}`)
      if (w.status === 'rejected') {
        if (faultKind === 'network' || faultKind === 'cut') v.check(w.reason === cut || w.reason?.cause === cut, 'a failed download fails with its own error', () => short(w.reason))
        if (faultKind === 'status') v.check(api.shared.APICallError.isInstance(w.reason), 'a failed download fails with its own error', () => short(w.reason))
      }
      count(faultKind === 'entry' ? 'unrecognised entries' : 'failed downloads')
    }
    else if (v.check(w.status === 'fulfilled', 'the call succeeds', () => `${where}: ${short(w.reason)}`)) {
      const { image, images: got } = w.value
      v.check(Array.isArray(got) && got.length === n, 'one image per image of the provider', () => `${where}: ${got?.length}`)
      v.check(image === got?.[0] || JSON.stringify(image) === JSON.stringify(got?.[0]), 'the first image is the image', where)
      images.forEach((img, i) => {
        const g = got?.[i]
        const m = /^data:([^;,]*);base64,(.*)$/s.exec(g?.base64 ?? '')
        if (!v.check(m !== null, 'every image is a data URL', () => `${where}: ${short(g)}`)) return
        v.check(m[2] === b64(img.bytes), 'every image decodes to the provider\'s bytes, in order', () => `${where}: image ${i}`)
        v.check(same(m[1], img.mime) && m[1] === g.mimeType, 'the right media type', () => `${where}: image ${i} ${img.f} is ${m[1]} / ${g.mimeType}`)
        count(OTHERS.includes(img.mime) ? 'formats told by the content type only' : img.f)
        if (img.bytes.length > 200000) count('large images')
        count(img.linked ? 'linked images' : 'inline images')
        if (!img.linked || !img.type?.startsWith('image/')) count('detected from the data')
      })
      const linked = images.filter(x => x.linked)
      v.check(world.requests.length === 1 + linked.length, 'one download per link', () => `${where}: ${world.requests.length}`)
      if (finished.some((x, i) => i > 0 && x < finished[i - 1])) count('downloads finishing out of order')
    }
    for (const q of world.requests.slice(1)) {
      v.check(q.method === 'GET' && q.headers.authorization === undefined && !JSON.stringify(q.headers).includes('sk-secret'), 'credentials stay with the provider', () => `${q.url}: ${short(q.headers)}`)
      v.check(q.signal === signal || (q.signal == null && signal === undefined), 'downloads carry the abort signal', () => q.url)
    }
    return { nontrivial: n > 1, sample: { fault: fault && faultKind, images: images.map(x => [x.f, x.linked, x.type]) }, signature: [images.map(x => [x.f, x.linked, x.type, x.bytes.length]), finished, fault && [faultKind, faultAt]], violations: v.list }
  },
}
