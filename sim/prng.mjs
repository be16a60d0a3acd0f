// Deterministic PRNG (sfc32 seeded through splitmix-style hashing).  One 53-bit
// integer seed decides a whole simulated run.
export function hash32(str, h = 0x811c9dc5) {
	for (let i = 0; i < str.length; i++) {
		h ^= str.charCodeAt(i);
		h = Math.imul(h, 0x01000193);
	}
	h ^= h >>> 16;
	h = Math.imul(h, 0x85ebca6b);
	h ^= h >>> 13;
	h = Math.imul(h, 0xc2b2ae35);
	h ^= h >>> 16;
	return h >>> 0;
}

export class Rng {
	constructor(seedText) {
		const s = String(seedText);
		this.a = hash32(`${s}#a`);
		this.b = hash32(`${s}#b`);
		this.c = hash32(`${s}#c`);
		this.d = 1;
		for (let i = 0; i < 12; i++) this.u32();
	}
	u32() {
		const t = (((this.a + this.b) | 0) + this.d) | 0;
		this.d = (this.d + 1) | 0;
		this.a = this.b ^ (this.b >>> 9);
		this.b = (this.c + (this.c << 3)) | 0;
		this.c = (this.c << 21) | (this.c >>> 11);
		this.c = (this.c + t) | 0;
		return t >>> 0;
	}
	float() {
		return this.u32() / 4294967296;
	}
	int(n) {
		return n <= 0 ? 0 : Math.floor(this.float() * n);
	}
	range(lo, hi) {
		return lo + this.int(hi - lo + 1);
	}
	bool(p = 0.5) {
		return this.float() < p;
	}
	pick(list) {
		return list[this.int(list.length)];
	}
	weighted(pairs) {
		let total = 0;
		for (const [, w] of pairs) total += w;
		let r = this.float() * total;
		for (const [value, w] of pairs) {
			r -= w;
			if (r < 0) return value;
		}
		return pairs[pairs.length - 1][0];
	}
	shuffle(list) {
		const out = [...list];
		for (let i = out.length - 1; i > 0; i--) {
			const j = this.int(i + 1);
			[out[i], out[j]] = [out[j], out[i]];
		}
		return out;
	}
}
