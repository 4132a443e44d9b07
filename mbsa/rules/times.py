"""rules for the modification times of what a restoration creates"""
from ..query import *
from ..terms import TRUE, FALSE, NONE
from .restore import _restore


def mtime_arg(e):
    """the modification time given to os.utime"""
    v = e.kw.get('times') or (e.args[1] if len(e.args) > 1 else None)
    if v is not None and v.op in ('tuple', 'list') and len(v.args) == 2:
        return v.args[1]
    return None


def bases(e):
    return [l.base for l in e.loops]


def dated(r, an, e, dst, rel, what, later):
    """the path made by event e gets the time of the path in the bag it comes from"""
    us = []
    for u in calls(an, 'os.utime'):
        if u.args[:1] != [dst] and list(u.args[:1]) != [dst] or u.seq < e.seq or bases(u) != bases(e):
            continue
        m = mtime_arg(u)
        if m is not None and m.op == 'attr' and m.args[1] == 'mtime' and call_of(m.args[0], '.timesfor') and m.args[0].args[2] is rel:
            us.append((u, m.args[0]))
    if not r.ok(us, e, what + ' dated', "a restored %s does not get the modification time of the one it is made from" % what):
        return
    known = {}
    for u, t in us:
        known[T('truthy', t)] = True
        known[T('isnone', t)] = False
    g = f_or(*[restrict(u.guard, known) for u, t in us])

    def env(a):
        return True if a.op == 'exists' and a.args[0] is dst else None
    ok = implies(restrict(e.guard, known), g) or implies(restrict(e.guard, known), assign(g, env))
    r.ok(ok, us[0][0], what + ' always', "a restored %s gets the modification time of the one it is made from only under a further condition" % what)
    bag = e.recv if e.name == 'replicate' else None
    for u, t in us:
        r.ok(bag is None or uncopy(t.args[1]) is uncopy(bag), u, what + ' source', "the modification time is taken from another bag")


@rule('C34', 'restored-times',
      "each file copied and directory created while restoring gets the modification time that its own bag gives for the same path, and each "
      "directory that files are put into gets back the one it had", floor=10)
def restored_times(c, r):
    x = _restore(c)
    for an in (x.an, c.an('BagRestorer.restore_member')):
        cps = [e for e in calls(an, 'replicate') if len(e.args) > 1 and e.args[1] is x.dest]
        r.ok(cps, an.entry, 'copies', "nothing is restored")
        for e in cps:
            dated(r, an, e, mk_path([x.dest, e.args[0]]), e.args[0], 'file', None)
        for f in effects(an):
            if f.kind == 'mkdir' and f.event.loops and x.walk_loop(f.event) and under(f.target, x.dest) and f.target.op == 'path' and len(f.target.args) > 2:
                dated(r, an, f.event, f.target, T('path', *f.target.args[1:]), 'directory', None)
        for e in cps:
            w = x.walk_loop(e)
            if w is None:
                continue
            d = mk_path([x.dest, T('index', T('elem', w.base), const(0))])
            us = [u for u in calls(an, 'os.utime') if u.args and u.args[0] is d and u.seq > e.seq and bases(u) == bases(e)[:len(bases(u))] and u.loops and u.loops[-1].base is w.base]
            ok = []
            for u in us:
                m = mtime_arg(u)
                if m is None:
                    continue
                if attr_of(m, 'st_mtime') and call_of(m.args[0], 'os.stat') and m.args[0].args[1] is d or call_of(m, 'os.path.getmtime') and m.args[1] is d:
                    g = restrict(u.guard, {T('truthy', m): True, T('isnone', m): False})
                    ok.append((u, g))
            r.ok(any(implies(e.guard, g) for u, g in ok), e, 'parent', "a directory's modification time is not put back after files were added to it")
