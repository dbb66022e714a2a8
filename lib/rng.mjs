// Seeded randomness: every random choice of every check comes from here.
export const hash32 = (str) => {
  let h = 0x811C9DC5
  for (let i = 0; i < str.length; i++) {
    h ^= str.charCodeAt(i)
    h = Math.imul(h, 0x01000193)
  }
  return h >>> 0
}

const ALPHABETS = [
  () => 'abcdefghijklmnopqrstuvwxyz',
  () => 'ABCXYZ0123456789_-',
  () => '     ',
  () => '\n\n\r\t ',
  () => '{}[]",:\\/',
  () => '<>/think',
]
const UNICODE = ['é', 'ß', '漢', '字', 'ひ', '😀', '👩‍👩‍👧', '🇯🇵', 'e\u0301', '\u2028', '\u2029', '\u00A0', '\u200B', '\uFEFF', 'א', '\u0000', '\u007F', '𝒳']
const SNIPPETS = ['data: ', '[DONE]', '\n\n', '\r\n', ': comment', 'event: x\n', '<think>', '</think>', '<think', '{"a":1}', '{"error":{}}', '"error"', '\\u0041', '\\', '"', '$&', '%s', '__proto__', 'null', 'undefined', 'true', '0', '-1', '{"elements":[', ']}', 'data: [DONE]\n\n', 'constructor']

export class Rng {
  constructor(seed) {
    this.s = (typeof seed === 'string' ? hash32(seed) : seed) >>> 0
    for (let i = 0; i < 4; i++) this.next()
  }

  next() {
    this.s = (this.s + 0x6D2B79F5) >>> 0
    let t = this.s
    t = Math.imul(t ^ (t >>> 15), t | 1)
    t ^= t + Math.imul(t ^ (t >>> 7), t | 61)
    return ((t ^ (t >>> 14)) >>> 0) / 4294967296
  }

  int(a, b) { return a + Math.floor(this.next() * (b - a + 1)) }
  bool(p = 0.5) { return this.next() < p }
  pick(arr) { return arr[Math.floor(this.next() * arr.length)] }
  /** [[weight, value], ...] */
  weighted(pairs) {
    const total = pairs.reduce((n, [w]) => n + w, 0)
    let x = this.next() * total
    for (const [w, v] of pairs) {
      x -= w
      if (x < 0) return v
    }
    return pairs.at(-1)[1]
  }

  /** heavy tailed: small values mostly, large ones now and then */
  heavy(min, max) {
    if (max <= min) return min
    return Math.min(max, min + Math.floor((max - min + 1) ** this.next()) - 1 + (this.bool(0.1) ? this.int(0, 2) : 0))
  }

  shuffle(arr) {
    const a = [...arr]
    for (let i = a.length - 1; i > 0; i--) {
      const j = this.int(0, i)
      ;[a[i], a[j]] = [a[j], a[i]]
    }
    return a
  }

  /** a size: heavy tailed up to max, and rarely a large one */
  size(max, large, p = 0.004) { return this.bool(p) ? this.int(Math.floor(large / 2), large) : this.heavy(0, max) }

  /** text of n characters or more without inner repetition at short distance */
  largeText(n) {
    const parts = []
    let len = 0
    for (let i = 0; len < n; i++) {
      const t = `${i} ${this.text(400)}`
      parts.push(t)
      len += t.length
    }
    return parts.join('')
  }

  fork(label) { return new Rng(hash32(`${label}:${Math.floor(this.next() * 4294967296)}`)) }

  /** a key as the providers hand them out */
  apiKey(n = 24) {
    const chars = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
    return `${this.pick(['sk-', 'sk-', 'sk-proj-', 'sk-ant-api03-', 'sk-or-v1-', 'gsk_', 'xai-', 'AIza', 'hf_', 'nvapi-', 'fw_', 'pplx-', 'r8_', 'ya29.', 'eyJhbGciOi', '', '+/', 'AKIA', 'csk-', 'tgp_v1_'])}${Array.from({ length: n }, () => chars[Math.floor(this.next() * chars.length)]).join('')}${this.pick(['', '', '', '==', '-_'])}`
  }

  ident(max = 10) {
    const n = this.int(1, max)
    let s = ''
    for (let i = 0; i < n; i++) s += 'abcdefghijklmnopqrstuvwxyz'[this.int(0, 25)]
    return s
  }

  /** text of heavy tailed length mixing alphabets, multi-byte characters and protocol-looking fragments */
  text(max = 80, { plain = false } = {}) {
    const n = this.heavy(0, max)
    let out = ''
    while (out.length < n) {
      const k = this.next()
      if (plain || k < 0.6) {
        const al = ALPHABETS[k < 0.3 ? 0 : this.int(0, plain ? 2 : ALPHABETS.length - 1)]()
        const m = this.int(1, 8)
        for (let i = 0; i < m; i++) out += al[this.int(0, al.length - 1)]
      }
      else if (k < 0.85) out += this.pick(UNICODE)
      else out += this.pick(SNIPPETS)
    }
    return out
  }

  nonEmptyText(max, o) {
    const t = this.text(max, o)
    return t.length > 0 ? t : 'x'
  }

  /** JSON value of bounded depth */
  json(depth = 3) {
    const k = this.next()
    if (depth <= 0 || k < 0.5) {
      return this.weighted([
        [3, () => this.text(20)],
        [2, () => this.int(-5, 1000)],
        [1, () => this.pick([0, -0.5, 1e21, 1.5e-9, 2 ** 53])],
        [1, () => this.bool()],
        [1, () => null],
        [1, () => ''],
      ])()
    }
    if (k < 0.75) return Array.from({ length: this.int(0, 4) }, () => this.json(depth - 1))
    return this.jsonObject(depth - 1)
  }

  jsonObject(depth = 2) {
    const o = {}
    const n = this.int(0, 4)
    for (let i = 0; i < n; i++) {
      const key = this.weighted([[6, () => this.ident(6)], [1, () => this.text(8)], [1, () => this.pick(['camelCase', 'snake_case', 'A', 'toString', '', 'a.b'])]])()
      if (key === '__proto__') continue
      o[key] = this.json(depth)
    }
    return o
  }

  /** split a string into pieces; concatenation is the input */
  split(str, { allowEmpty = false, maxPieces = 12 } = {}) {
    const mode = this.int(0, 5)
    let pieces = []
    if (mode === 0 || str.length <= 1) pieces = str.length > 0 ? [str] : []
    else if (mode === 1 && str.length <= 200) pieces = [...str]
    else if (mode === 2 && str.length <= 120) pieces = str.split('') // may cut surrogate pairs
    else {
      const cuts = new Set()
      const n = this.int(1, maxPieces)
      for (let i = 0; i < n; i++) cuts.add(this.int(1, str.length - 1))
      let prev = 0
      for (const c of [...cuts].sort((a, b) => a - b)) {
        pieces.push(str.slice(prev, c))
        prev = c
      }
      pieces.push(str.slice(prev))
    }
    if (allowEmpty) {
      const n = this.weighted([[5, 0], [2, 1], [1, 3]])
      for (let i = 0; i < n; i++) pieces.splice(this.int(0, pieces.length), 0, '')
    }
    return pieces
  }
}
