"""Goodness-of-fit statistics with thresholds far beyond chance (z > 7, p < 2e-12 each)."""
import math

Z = 7.0


def chi2_z(counts, probs=None):
    """Wilson-Hilferty z score of a chi-square test; None if too little data."""
    n = sum(counts)
    k = len(counts)
    if k < 2:
        return None
    probs = probs or [1.0 / k] * k
    # merge cells until every expectation is at least 8
    cells, eo, ee = [], 0, 0.0
    for c, p in zip(counts, probs):
        eo += c
        ee += p * n
        if ee >= 8:
            cells.append((eo, ee))
            eo, ee = 0, 0.0
    if cells and (eo or ee):
        o, e = cells.pop()
        cells.append((o + eo, e + ee))
    if len(cells) < 2:
        return None
    x = sum((o - e) ** 2 / e for o, e in cells)
    df = len(cells) - 1
    if df == 1:
        return math.sqrt(x)
    return ((x / df) ** (1 / 3.0) - (1 - 2 / (9.0 * df))) / math.sqrt(2 / (9.0 * df))


def bin_z(ones, n, p=0.5):
    return abs(ones - n * p) / math.sqrt(n * p * (1 - p)) if n else 0.0


class Acc:
    """Accumulates draws from [lo, hi) of one source; mergeable through JSON."""
    CAP = 24

    def __init__(self, d=None):
        self.d = d if d is not None else {}

    def add(self, name, lo, hi, vals, keep=True):
        e = self.d.setdefault(name, {'lo': str(lo), 'hi': str(hi), 'n': 0})
        span = hi - lo
        e['n'] += len(vals)
        if span <= 1024:
            c = e.setdefault('all', [0] * span)
            for v in vals:
                c[v - lo] += 1
        else:
            b, l = e.setdefault('top', [0] * 64), e.setdefault('low', [0] * 64)
            r = e.setdefault('res', [0] * 105)
            nb = max(0, span.bit_length() - 10)
            bits = e.setdefault('bits', [0] * nb)
            for v in vals:
                w = v - lo
                b[w * 64 // span] += 1
                l[w & 63] += 1
                r[w % 105] += 1
                for i in range(nb):
                    bits[i] += w >> i & 1
            if keep and span >> 90:
                e.setdefault('h', []).extend(format(v & (1 << 80) - 1, 'x') for v in vals)
        j = e.setdefault('joint', [0] * 64)
        for u, v in zip(vals, vals[1:]):
            j[(u - lo) * 8 // span * 8 + (v - lo) * 8 // span] += 1
        e['pairs'] = e.get('pairs', 0) + max(0, len(vals) - 1)


def merge(aggs, key):
    out = {}
    for a in aggs:
        for name, e in (a or {}).get(key, {}).items():
            o = out.get(name)
            if o is None:
                out[name] = {k: (list(v) if isinstance(v, list) else v) for k, v in e.items()}
                continue
            for k, v in e.items():
                if k in ('n', 'pairs'):
                    o[k] = o.get(k, 0) + v
                elif k == 'h':
                    o.setdefault('h', []).extend(v)
                elif isinstance(v, list):
                    if k in o:
                        o[k] = [x + y for x, y in zip(o[k], v)]
                    else:
                        o[k] = list(v)
    return out


def judge(merged, what):
    """Raises the list of (name, message) of biased sources, plus the number of tests made."""
    bad, tests, worst = [], 0, 0.0
    for name in sorted(merged):
        e = merged[name]
        span = int(e['hi']) - int(e['lo'])
        zs = []
        if 'all' in e:
            zs.append(('distribution of the values', chi2_z(e['all'], e.get('probs'))))
            if e['n'] > 60 * span and span <= 1024:
                miss = [i for i, c in enumerate(e['all']) if c == 0 and not (e.get('probs') and e['probs'][i] == 0)]
                if miss:
                    bad.append((name, '%s: value %d never drawn in %d draws from [%s, %s)' % (name, miss[0] + int(e['lo']), e['n'], e['lo'], e['hi'])))
        else:
            zs.append(('leading part', chi2_z(e['top'], top_probs(span))))
            zs.append(('low 6 bits', chi2_z(e['low'])))
            zs.append(('residues mod 105', chi2_z(e['res'])))
            if e['n'] >= 60:
                for i, c in enumerate(e['bits']):
                    zs.append(('bit %d' % i, bin_z(c, e['n'])))
        if span >= 64 and e['pairs'] > 600 and not e.get('probs'):
            # marginals of 8 classes of [0, span)
            m = [((x + 1) * span + 7) // 8 - (x * span + 7) // 8 for x in range(8)]
            zs.append(('consecutive values', chi2_z(e['joint'], [(a / span) * (b / span) for a in m for b in m])))
        for w, z in zs:
            if z is None:
                continue
            tests += 1
            worst = max(worst, z)
            if z > Z:
                bad.append((name, '%s: %s of %d %s from [%s, %s) is biased (z = %.1f)' % (name, w, e['n'], what, e['lo'], e['hi'], z)))
        h = e.get('h', [])
        if len(set(h)) != len(h):
            bad.append((name, '%s: %d of %d %s repeat' % (name, len(h) - len(set(h)), len(h), what)))
    return bad, tests, worst


def top_probs(span):
    return [(((x + 1) * span + 63) // 64 - (x * span + 63) // 64) / span for x in range(64)]
