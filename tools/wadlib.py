import struct, subprocess, os, sys
def wad(lumps):
    b = b'PWAD' + struct.pack('<II', len(lumps), 12 + sum(len(d) for _, d in lumps)); pos = 12
    for _, d in lumps: b += d
    for n, d in lumps:
        b += struct.pack('<II8s', pos, len(d), n.encode()); pos += len(d)
    return b
def parse(b):
    n, d = struct.unpack('<II', b[4:12]); out = []
    for i in range(n):
        p, s, nm = struct.unpack('<II8s', b[d+16*i:d+16*i+16])
        out.append((nm.rstrip(b'\0').decode(), b[p:p+s]))
    return out
def level(marker, sectors=1, node_lumps=True, drop=()):
    l = [(marker, b''), ('THINGS', b''), ('LINEDEFS', b''), ('SIDEDEFS', b''), ('VERTEXES', b'')]
    if node_lumps: l += [('SEGS', b'seg1'), ('SSECTORS', b'ss'), ('NODES', b'node')]
    l += [('SECTORS', bytes(range(1, 27)) * sectors)]
    if node_lumps: l += [('REJECT', b'rj'), ('BLOCKMAP', b'bm')]
    return [x for x in l if x[0] not in drop]
def run(*args):
    return subprocess.run([os.environ['DEMO_TMP'] + '/vb'] + list(args), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
import random
class Map:
    """a level drawn on a grid: art rows (top row last), '.' = void, letters = sectors"""
    def __init__(m):
        m.v = []; m.lines = []; m.sides = []; m.sectors = []; m.things = []
    def vertex(m, x, y):
        if (x, y) not in m.v: m.v.append((x, y))
        return m.v.index((x, y))
    def side(m, sec): m.sides.append(sec); return len(m.sides) - 1
    def line(m, x1, y1, x2, y2, right, left=None, tag=0, action=0):
        f = m.side(right); b = 0xffff
        if left is not None: b = m.side(left)
        m.lines.append((m.vertex(x1, y1), m.vertex(x2, y2), 1 if left is None else 4, action, tag, f, b))
    def grid(m, art, xs, ys):
        names = sorted({c for r in art for c in r if c != '.'})
        for n in names: m.sectors.append(0)
        at = lambda i, j: names.index(art[j][i]) if 0 <= j < len(art) and 0 <= i < len(art[0]) and art[j][i] != '.' else None
        for j in range(len(art) + 1):
            i = 0
            while i < len(art[0]):
                k = (at(i, j), at(i, j - 1)); e = i + 1
                while e < len(art[0]) and (at(e, j), at(e, j - 1)) == k: e += 1
                up, dn = k
                if up == dn: pass
                elif dn is None: m.line(xs[e], ys[j], xs[i], ys[j], up)
                else: m.line(xs[i], ys[j], xs[e], ys[j], dn, up)
                i = e
        for i in range(len(art[0]) + 1):
            j = 0
            while j < len(art):
                k = (at(i, j), at(i - 1, j)); e = j + 1
                while e < len(art) and (at(i, e), at(i - 1, e)) == k: e += 1
                rt, lt = k
                if rt == lt: pass
                elif rt is None: m.line(xs[i], ys[e], xs[i], ys[j], lt)
                else: m.line(xs[i], ys[j], xs[i], ys[e], rt, lt)
                j = e
        return m
    def lumps(m, name='MAP01'):
        p = struct.pack
        return [(name, b''), ('THINGS', b''.join(p('<hhHHH', *t) for t in m.things)),
          ('LINEDEFS', b''.join(p('<7H', *l) for l in m.lines)),
          ('SIDEDEFS', b''.join(p('<hh8s8s8sH', 0, 0, b'-', b'-', b'WALL', s) for s in m.sides)),
          ('VERTEXES', b''.join(p('<hh', *v) for v in m.v)),
          ('SECTORS', b''.join(p('<hh8s8sHHH', 0, 128, b'FLAT', b'CEIL', 160, 0, t) for t in m.sectors))]
def build(m, *opts):
    f = os.environ['DEMO_TMP'] + '/in.wad'; o = os.environ['DEMO_TMP'] + '/out.wad'
    if os.path.exists(o): os.unlink(o)
    open(f, 'wb').write(wad(m.lumps()))
    r = run(*opts, f, '-o', o)
    if not os.path.exists(o): sys.exit('no output: ' + r.stdout.decode())
    return dict(parse(open(o, 'rb').read()))
def bspcheck(m, l):
    """l: output lumps with vanilla or DeeP nodes"""
    u = struct.unpack
    vs = [u('<hh', l['VERTEXES'][i:i+4]) for i in range(0, len(l['VERTEXES']), 4)]
    N = l['NODES']
    if N[:8] == b'xNd4\0\0\0\0':
        segs = [u('<IIHHHH', l['SEGS'][i:i+16]) for i in range(0, len(l['SEGS']), 16)]
        ss = [u('<HI', l['SSECTORS'][i:i+6]) for i in range(0, len(l['SSECTORS']), 6)]
        nodes = [u('<12hII', N[i:i+32]) for i in range(8, len(N), 32)]; top = 1 << 31
    else:
        segs = [u('<6H', l['SEGS'][i:i+12]) for i in range(0, len(l['SEGS']), 12)]
        ss = [u('<HH', l['SSECTORS'][i:i+4]) for i in range(0, len(l['SSECTORS']), 4)]
        nodes = [u('<12hHH', N[i:i+28]) for i in range(0, len(N), 28)]; top = 1 << 15
    assert nodes and segs and len(ss) == len(nodes) + 1, 'counts'
    seen = set(); sseen = set()
    def child(c):
        if c & top:
            c &= top - 1; assert c < len(ss) and c not in sseen, 'subsector'
            sseen.add(c); n, f = ss[c]; assert n > 0 and f + n <= len(segs), 'range'
            r = list(range(f, f + n))
            assert len({sector(k) for k in r}) == 1, 'mixed sectors'
            for a in r:
                (ax, ay), (bx, by) = vs[segs[a][0]], vs[segs[a][1]]
                for b in r:
                    for q in segs[b][:2]:
                        cr = (bx-ax)*(vs[q][1]-ay) - (by-ay)*(vs[q][0]-ax)
                        assert a == b or cr <= 1.5 * (abs(bx-ax)+abs(by-ay)), 'not convex'
            return r
        assert c < len(nodes) and c not in seen, 'node'
        seen.add(c); n = nodes[c]; rr = child(n[12]); ll = child(n[13])
        for segsS, box, sg in ((rr, n[4:8], 1), (ll, n[8:12], -1)):
            for k in segsS:
                for q in segs[k][:2]:
                    x, y = vs[q]
                    assert box[2] <= x <= box[3] and box[1] <= y <= box[0], 'bounding box'
                    d = (n[3]*(x-n[0]) - n[2]*(y-n[1])) * sg
                    assert d >= -1.5 * (abs(n[2]) + abs(n[3])), 'wrong side'
        return rr + ll
    def sector(k):
        return m.sides[m.lines[segs[k][3]][5 + segs[k][4]]]
    used = child(len(nodes) - 1)
    assert sorted(used) == list(range(len(segs))), 'segs'
    for i, L in enumerate(m.lines):
        for flip in (0, 1):
            if L[5 + flip] == 0xffff: continue
            a, b = (m.v[L[0]], m.v[L[1]]) if flip == 0 else (m.v[L[1]], m.v[L[0]])
            mine = sorted((s for s in segs if s[3] == i and s[4] == flip), key=lambda s: s[5])
            assert mine, 'side without seg'
            assert vs[mine[0][0]] == a and vs[mine[-1][1]] == b, 'ends'
            for s, t in zip(mine, mine[1:]): assert vs[s[1]] == vs[t[0]], 'gap'
            for s in mine:
                d = ((vs[s[0]][0]-a[0])**2 + (vs[s[0]][1]-a[1])**2) ** .5
                assert abs(d - s[5]) < 1.5, 'offset'
    return len(segs), len(ss), len(nodes)
def randmap(rng, w=10, h=10, k=6, step=128, x0=-512, y0=-512):
    art = [['.'] * w for _ in range(h)]
    for _ in range(rng.randrange(w, 3 * w)):
        i, j = rng.randrange(w), rng.randrange(h); c = rng.choice('abcdefgh'[:k] + '.')
        for y in range(j, min(h, j + rng.randrange(1, h))):
            for x in range(i, min(w, i + rng.randrange(1, w))): art[y][x] = c
    art = [''.join(r) for r in art]
    xs = [x0]; ys = [y0]
    for _ in range(w): xs.append(xs[-1] + rng.choice((16, 40, 64, step)))
    for _ in range(h): ys.append(ys[-1] + rng.choice((16, 40, 64, step)))
    return Map().grid(art, xs, ys)
