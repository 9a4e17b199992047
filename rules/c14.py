"""C14: file errors are reported and leave objects as they were."""
from files import *

ENDS = ('BKWaveFileReaderReadFrames', 'BKDataLoadWAVE')   # missing frames at the end of the file become silence

def job(a):
    i, tier = a; label, prep = fops()[i]
    rep = Report('C14', tier); h = Mem(); w = base(h, tier=tier)
    pre, fn, outs = start(w, prep); at = where(w.p, fn)
    n = 0
    for st, ret in outs:
        k = io(w, st)
        if not k: continue
        n += 1
        bad = ok(st, ret) is False if ret is not None else False
        if 1 in k or fn not in ENDS:
            rep.ob('reported', bad, label, at, 'returns %s although %s' % (show(ret), 'the file ended early' if 1 not in k else 'a file operation failed'))
        if not bad: continue
        same_(rep, w, pre, st, label, at, fn)
    for (k, loc), m in h.bad.items(): rep.ob('memory', False, '%s at %s' % (label, loc), at, '%s: %s' % (loc, m), key='%s/%s' % (k, loc))
    rep.count('operations'); rep.count('failing outcomes', n)
    rep.funcs |= w.I.visited_fn
    return rep

def same_(rep, w, pre, st, label, at, fn):
    """what a failed call may have changed: nothing but the file, its output locations and, for a writer whose header went out, that fact"""
    ch = changes(w, pre, st, {'file', 'fr', 'ch', 'sr', 'nf'})
    if 'Writer' in fn and not fn.endswith('Init'):
        hdr, term = flagbits(w)
        f0, f1 = w.I.getf(pre, 'o', 'object.flags'), w.I.getf(st, 'o', 'object.flags')
        b0, b1 = bits_of(f0), bits_of(st.simp(f1))
        grew = b1[hdr] != b0[hdr]
        d = sub(w.I.getf(st, 'o', 'fileSize'), w.I.getf(pre, 'o', 'fileSize'))
        okf = all(x == y for k, (x, y) in enumerate(zip(b0, b1)) if k not in (hdr, term)) and (b1[term] == b0[term] or b1[term] == 0)
        rep.ob('not-counted', okf and st.equal(d, C(HEADER - 8 if grew else 0, 64)) is True, label, at, 'a failed call leaves flags %s and a file larger by %s' % (show(f1), show(d)))
        ch = [c for c in ch if not (c[0] == 'o' and c[1] in ('object.flags', 'fileSize'))]
    rep.ob('unchanged', not ch, label, at, '' if not ch else 'fails but %s' % '; '.join(fx(c) for c in ch[:3]))

IOFN = ('fread', 'fwrite', 'fseek', 'fseeko', 'ftell', 'ftello', 'fflush', 'fclose', 'fcntl', 'fopen', 'fprintf', 'fputc', 'fputs', 'fgetc', 'rewind', 'fsetpos', 'fgetpos', 'write', 'read', 'lseek', 'ftruncate')
def users(p):
    out = {}
    for n, f in p.funcs.items():
        if f.decl: continue
        for b in f.blocks.values():
            for i in b['ins']:
                g = (i.get('callee') or {}).get('g') if i['op'] == 'call' else None
                if g in IOFN: out.setdefault(n, set()).add(g)
    return out
MODELLED = ('fread', 'fwrite', 'fseek', 'fseeko', 'ftell', 'ftello', 'fflush', 'fclose', 'fcntl')

EXPL = ('Every operation that uses a file is analysed with every single file operation (reading, writing, seeking, telling, flushing) allowed to fail or '
        'to come up short at each call, on readers, writers and sample data in arbitrary states. A ghost cell records that an operation failed or that '
        'the file ended early; on every path on which it did, the call returns a negative status, and the objects are as before the call, no data is '
        'counted as written and no block stays allocated. Every function of the library that calls a file operation takes part.')
def check(rep):
    p = program()
    for r in presults(job, [(i, rep.tier) for i in range(len(fops()))]): rep.merge(r)
    for f, gs in sorted(users(p).items()):
        rep.ob('covered', f in rep.funcs and gs <= set(MODELLED), f, where(p, f), '%s uses %s, which no analysed operation covers' % (f, ', '.join(sorted(gs))))
    rep.need('reported', 40); rep.need('unchanged', 40); rep.need('covered', 6)
    rep.assumptions += ['frames missing at the end of a truncated data chunk are replaced by silence, as the reader documents in its code']
    return rep.finish('other', EXPL, p)
