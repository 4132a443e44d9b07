#!/usr/bin/env python3
"""decide one property by static analysis of the current source tree in /repo

    check.py --property C01 [--tier quick|thorough] [--root /repo]
"""
import argparse, json, os, sys, time, traceback, warnings
warnings.simplefilter('ignore')
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from mbsa.query import Ctx, Report, RULES          # noqa: E402
from mbsa.program import AnalysisBroken            # noqa: E402
import mbsa.rules                                  # noqa: E402,F401


def decide(ctx, prop, only=None):
    """run the rules of a property; -> Report"""
    rep = Report(prop)
    for p, name, text, floor, fn in RULES:
        if p != prop or (only and name not in only):
            continue
        rep.rule = name
        rep.counts.setdefault(name, 0)
        try:
            fn(ctx, rep)
        except AnalysisBroken as ex:
            rep.fail('-', 'anchor', "the code this rule is anchored on cannot be found: %s" % ex)
        except Exception as ex:
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            rep.fail('-', 'analysis', "the analysis could not be completed: %r at %s:%s" %
                     (ex, os.path.basename(tb.filename), tb.lineno))
        if rep.counts[name] < floor and all(o[2] for o in rep.obligations if o[0] == name):
            rep.fail('-', 'floor', "rule found %d of at least %d constructs it must decide: the code it covers is gone"
                     % (rep.counts[name], floor))
    return rep


def known(prop):
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as fd:
            d = json.load(fd)
    except IOError:
        return []
    return [k for k in d.get('findings', []) if k['property'] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--root', default='/repo')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    prop = a.property
    rules = [(n, t) for p, n, t, f, fn in RULES if p == prop]
    if not rules:
        print("no rules for property %s" % prop)
        return 2
    try:
        ctx = Ctx(a.root)
        rep = decide(ctx, prop)
    except AnalysisBroken as ex:
        ctx = None
        rep = Report(prop)
        rep.rule = 'load'
        rep.fail('-', 'load', str(ex))
    except SyntaxError as ex:
        ctx = None
        rep = Report(prop)
        rep.rule = 'load'
        rep.fail('-', 'load', "source does not parse: %s" % ex)

    kn = known(prop)
    bad, seen_known = [], []
    for rule_, construct, ok, msg, where in rep.obligations:
        if ok:
            continue
        k = None
        for f in kn:
            if f['rule'] == rule_ and f['construct'] == construct:
                k = f
        if k is not None:
            seen_known.append((k, where))
        else:
            bad.append((rule_, construct, msg, where))
    shown = set()
    for k, where in seen_known:
        key = (k['rule'], k['construct'])
        if key not in shown:
            shown.add(key)
            print("KNOWN-FINDING: property=%s %s" % (prop, k['what']))
    n = len(rep.obligations)
    good = sum(1 for o in rep.obligations if o[2])
    if a.v:
        for o in rep.obligations:
            print(' ', 'ok ' if o[2] else 'BAD', o[0], '|', o[1], '|', o[4], '|', '' if o[2] else o[3])
    vio = []
    if bad:
        rd = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, '%s.txt' % prop)
        with open(rp, 'w') as fd:
            for rule_, construct, msg, where in bad:
                text = dict(rules).get(rule_, '')
                fd.write("property : %s\nrule     : %s\n           %s\nconstruct: %s\nat       : %s\nviolation: %s\n"
                         "replay   : python3 %s/check.py --property %s -v\n\n" %
                         (prop, rule_, text, construct, where, msg, HERE, prop))
                vio.append({"rule": rule_, "construct": construct, "where": where, "message": msg})
        for v in vio[:12]:
            print("  %s at %s: %s" % (v['rule'], v['where'], v['message'][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    funcs = sorted(set(f.module.relpath + ':' + f.qualname for an in (ctx.analyses if ctx else [])
                       for f in an.visited))
    per_rule = {}
    for r_, c, ok, m, w in rep.obligations:
        d = per_rule.setdefault(r_, {"obligations": 0, "discharged": 0, "sites": []})
        d["obligations"] += 1
        d["discharged"] += 1 if ok else 0
        if len(d["sites"]) < 6 and w not in d["sites"]:
            d["sites"].append(w)
    for r_, t in rules:
        per_rule.setdefault(r_, {"obligations": 0, "discharged": 0, "sites": []})["rule"] = t
    ev = {
        "property": prop, "tier": a.tier if a.tier in ('quick', 'thorough') else 'quick',
        "seed": int(os.environ.get('VERIF_SEED', '1') or 1), "level": "other",
        "coverage": {
            "explanation": "static analysis: guarded value-flow facts (resolved calls, path/iteration provenance, "
                           "gating conditions, effect order) are derived from the source text of /repo/multibag on "
                           "this run and every rule below is decided on all matching constructs; nothing is executed",
            "obligations": n, "discharged": good, "known_findings": len(shown),
            "entry_points_analysed": len(ctx.analyses) if ctx else 0,
            "functions_analysed": len(funcs), "functions": funcs[:200],
            "statements_evaluated": sum(an.nstmts for an in ctx.analyses) if ctx else 0,
            "call_sites": sum(len(an.events) for an in ctx.analyses) if ctx else 0,
            "rules": per_rule,
            "source_digest": ctx.prog.digest.hexdigest() if ctx else None,
        },
        "wall_s": round(time.time() - t0, 3),
        "violations": len(bad),
        "assumptions": [
            "names bound by reflection, monkey patching or code outside /repo/multibag are not followed",
            "library calls (os, shutil, io, bagit, fs) do what their documentation says",
        ],
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fd:
            json.dump(ev, fd, indent=1, sort_keys=True, default=str)
    print("%s: %d/%d obligations discharged by %d rules over %d functions (%.2fs)%s" %
          (prop, good, n, len(rules), len(funcs), time.time() - t0, '' if not bad else ' -- VIOLATED'))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
