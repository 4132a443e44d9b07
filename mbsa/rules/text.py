"""rules for the encoding of the text files that are written and read"""
from ..query import *
from ..terms import TRUE, FALSE, NONE

WRITERS = ('SplitPlan.apply_iter', 'BagRestorer.restore', 'BagRestorer.restore_fetch', 'BagRestorer.restore_member', 'HeadBag.save_member_bags',
           'HeadBag.save_file_lookup', 'HeadBag.save_deleted', 'HeadBag.update_info')
UTF8 = ('utf-8', 'utf8', 'u8', 'utf')


def norm(enc):
    return str(enc).lower().replace('_', '-')


def encoding_of(e):
    """the encoding an open call names (None: none)"""
    v = e.kw.get('encoding')
    if v is None:
        i = {'open': 3, 'io.open': 3, 'codecs.open': 2, '.open': 3}.get(e.name if e.name in ('open', 'io.open', 'codecs.open') else '.open')
        v = e.args[i] if len(e.args) > i else None
    return v


def lossy(e):
    """the error handling named by an open or encode call that changes text instead of failing"""
    n = e.name or ''
    if e.kind not in ('open', 'call') or n.split('.')[-1] not in ('open', 'encode', 'decode', 'open_text_file', 'getreader', 'getwriter', 'EncodedFile'):
        return None
    v = e.kw.get('errors')
    if v is None:
        i = {'open': 4, 'io.open': 4, 'codecs.open': 3}.get(n)
        v = e.args[i] if i is not None and len(e.args) > i else None
    return v if v is not None and not (is_const(v) and cval(v) in (None, 'strict', 'surrogateescape')) and not v.op == 'param' else None


@rule('C33', 'text-written', "every text file opened for writing names UTF-8 as its encoding (or is opened as binary and given encoded text)", floor=12)
def written(c, r):
    for q in WRITERS:
        an = c.an(q)
        for e in an.events:
            if e.kind != 'open':
                continue
            m = mode_of(e)
            if m is not None and not any(x in m for x in 'wax+'):
                continue
            out = [w for w in an.events if w.recv is not None and w.recv is e.value and w.name in ('write', 'writelines')]
            if m is not None and 'b' in m:
                for w in out:
                    t = w.args[0] if w.args else NONE
                    ok = is_const(t) or call_of(t, '.encode') and (len(t.args) == 2 or is_const(t.args[2]) and norm(cval(t.args[2])) in UTF8)
                    r.ok(ok, w, q + ' bytes', "what is written to %s is not text encoded in UTF-8" % show(e.args[0])[:80])
                continue
            enc = encoding_of(e)
            ok = enc is not None and is_const(enc) and norm(cval(enc)) in UTF8 and not lossy(e)
            r.ok(ok or not out, e, q, "%s is written in the platform's own encoding, or one other than UTF-8: %s" % (show(e.args[0])[-60:], show(enc) if enc is not None else 'none named'))


@rule('C33', 'text-read', "text of a bag that is read while splitting, restoring or reading head bag files is decoded as UTF-8", floor=6)
def read(c, r):
    for q in WRITERS + ('HeadBag.iter_member_bags', 'HeadBag.iter_file_lookup', 'HeadBag.iter_deleted', 'HeadBag.open_text_file', 'ReadOnlyHeadBag.open_text_file'):
        an = c.an(q)
        if q.endswith('.open_text_file'):
            for e in an.events:
                if e.kind in ('open', 'call') and (e.name or '').split('.')[-1] == 'open':
                    r.ok(not lossy(e), e, q + ' errors', "characters that are not well encoded are changed or lost (errors=%s)" % (show(lossy(e)) if lossy(e) else ''))
            continue
        for e in an.events:
            if lossy(e):
                r.fail(e, q + ' errors', "characters that are not well encoded are changed or lost (errors=%s)" % show(lossy(e)))
            if e.kind == 'open' and mode_of(e) is not None and not any(x in mode_of(e) for x in 'wax+b'):
                enc = encoding_of(e)
                r.ok(enc is not None and is_const(enc) and norm(cval(enc)) in UTF8 + ('utf-8-sig',), e, q, "%s is read in the platform's own encoding" % show(e.args[0])[-60:])
            elif e.kind in ('call', 'open') and (e.name or '').split('.')[-1] == 'open_text_file':
                enc = e.kw.get('encoding') or (e.args[1] if len(e.args) > 1 else None)
                r.ok(enc is None or is_const(enc) and (cval(enc) is None or norm(cval(enc)) in UTF8 + ('utf-8-sig',)), e, q,
                     "%s is read as %s" % (show(e.args[0])[:60] if e.args else '', show(enc) if enc is not None else ''))
