export class Rng {
    constructor(seed) { this.s = (seed * 2654435761 + 0x9e3779b9) >>> 0; for (let i = 0; i < 5; i++) this.next(); }
    next() { let t = (this.s += 0x6d2b79f5); t = Math.imul(t ^ (t >>> 15), t | 1); t ^= t + Math.imul(t ^ (t >>> 7), t | 61); this.s >>>= 0; return ((t ^ (t >>> 14)) >>> 0) / 4294967296; }
    int(n) { return Math.floor(this.next() * n); }
    range(a, b) { return a + this.int(b - a + 1); }
    p(x) { return this.next() < x; }
    pick(a) { return a[this.int(a.length)]; }
    shuffle(a) { a = a.slice(); for (let i = a.length - 1; i > 0; i--) { const j = this.int(i + 1); [a[i], a[j]] = [a[j], a[i]]; } return a; }
    weighted(o) { const e = Object.entries(o).filter(([, w]) => w > 0); let t = this.next() * e.reduce((s, [, w]) => s + w, 0); for (const [k, w] of e) if ((t -= w) < 0) return k; return e[e.length - 1][0]; }
}
