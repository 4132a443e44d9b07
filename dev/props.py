#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json; the single place where the properties are worded"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    d = dict(id=id, title=title, statement=' '.join(statement.split()),
             quantifier=dict(over=over, text=' '.join(text.split())),
             why_tests_cant=' '.join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m) for n, m in state]
    assert len(title) <= 80, (id, len(title))
    P.append((d, technique, ' '.join(note.split())))


NA = []


def na(d_id, reason, **kw):
    NA.append(dict(property=d_id, reason=' '.join(reason.split())))


VF = "static: guarded value-flow analysis + "

R = 'multibag/restore.py'
S = 'multibag/split.py'
M = 'multibag/access/multibag.py'
X = 'multibag/access/extended.py'
B = 'multibag/access/bagit.py'
A = 'multibag/amend.py'
K = 'multibag/constants.py'

TRUST = """Decided for every path through the analysed functions (loops are summarised, not unrolled). Trusts the
library model in mbsa/api.py (os, shutil, fs, bagit) and that private helpers are reached only through the
public entry points analysed."""

# ------------------------------------------------------------------ restore
prop('C01', "Restoring keeps the copy from the bag listed last",
     """When several bags of an aggregation provide the same path, the restored bag holds the copy from the bag that
     the member list names last (the head bag's own copy counting as the last).  A file that is already in the
     destination is not replaced by an earlier-listed member, unless the caller asked to overwrite.""",
     ['inputs', 'histories'],
     """all member lists (any length, any order, duplicated paths at any position), any prior content of the destination""",
     """The tests restore one fixed three-bag aggregation; which copy wins depends on the order of an unbounded list and
     on what the destination already holds.""",
     [R], [('BagRestorer.restore', R), ('BagRestorer.restore_member', R)],
     VF + "ordering rule on the member loop and the copy's guard", TRUST)
prop('C02', "Deleted paths are never restored",
     """A path that the head bag lists as deleted, and everything below a directory listed as deleted, is not created in
     the destination by a restoration, whichever member bag provides it.""",
     ['inputs', 'histories'],
     "all deleted lists (files, directories, nested), all member contents, all amendment histories leading to them",
     "The tests mark one file deleted; the set of deleted paths and where they occur in members is unbounded.",
     [R, M], [('BagRestorer.restore', R), ('BagRestorer.restore_member', R), ('HeadBag.deleted_paths', M)],
     VF + "unreachability of every create effect under the deletion conditions", TRUST)
prop('C03', "Everything that is not deleted is restored",
     """After a restoration every file and directory (empty ones included) of the head bag and of every listed member
     exists in the destination, unless it is marked deleted; no other condition leaves a file out.  A member is taken
     from the directory of its name in the place where members are kept, else from a supported serialized file of that
     name, else from the caller's fetcher, and a member that cannot be found is an error.""",
     ['inputs', 'configurations'],
     "all aggregations: any number of members, any tree shape, serialized or not, any cache directory, with or without fetcher",
     "Tests list the handful of files of one sample aggregation; omissions that need a particular name, depth or serialization are not sampled.",
     [R, B], [('BagRestorer.restore', R), ('BagRestorer.restore_member', R), ('BagRestorer.find_member_bag', R),
              ('BagRestorer.get_member_bag', R), ('BagRestorer.__init__', R)],
     VF + "the copy's guard may contain only the permitted conditions; no early loop exit", TRUST)
prop('C04', "Restored manifests describe the restored files",
     """Every file copied during a restoration is recorded in the destination's manifests with the checksums of the bag
     it was copied from, under every algorithm that bag uses: payload files in the payload manifests, all others in the
     tag manifests.  Entries of files that were not copied are kept unchanged.""",
     ['inputs', 'histories'],
     "all sets of copied files, all mixes of checksum algorithms among members and destination",
     "Tests use bags that all have the same single algorithm and check one restored bag for validity.",
     [R], [('BagRestorer.restore_member', R), ('BagRestorer.restore', R)],
     VF + "map-content rule on the merged checksum table and its writers", TRUST)
prop('C05', "The restored fetch list is the merge of all members' fetch lists",
     """The fetch file of a restored bag holds one line for each path that any listed member's fetch file names, taken
     from the member listed last, and nothing for deleted paths.  If there is no such line, the restored bag has no fetch file.""",
     ['inputs'], "all member lists, all fetch files in them, all deletions",
     "The tests have one fetch file in one member.",
     [R], [('BagRestorer.restore_fetch', R)],
     VF + "map-content rule (keys, override order, filter) on the fetch table", TRUST)
prop('C06', "A restored bag is finalised: multibag data removed, sizes current, saved",
     """When a restoration returns, the destination has no multibag tag directory and none of the multibag metadata items
     (unless the caller asked to keep them), its payload and bag size metadata were computed after the last file was put in place
     (unless the caller asked otherwise), and these changes are saved to disk.  The one-call form does exactly this for the
     given head bag, destination, member directory and fetcher, and returns the restored bag.""",
     ['inputs', 'configurations'],
     "all options of the restore call, all tag directory names, all destinations (fresh or existing)",
     "Tests use the default options and the default tag directory on one aggregation.",
     [R, X], [('BagRestorer.restore', R), ('restore_bag', R)],
     VF + "event-order rule (copy < re-open < clean < recompute < save) over all paths", TRUST)
# ------------------------------------------------------------------ split
prop('C09', "A split plan places every file and empty directory of the source",
     """The plan made for splitting a bag lists every file of the source, other than the files that the BagIt standard
     itself defines at the bag's root, and every empty directory; completing a plan adds whatever is missing and changes nothing
     else, and a plan says it is complete exactly when nothing is missing.  Exactly one bag of a plan, the last, is its head bag.""",
     ['inputs', 'programs'],
     "all source trees, all partially filled plans, all splitting strategies",
     "Tests split two generated bags; names, depths and empty directories that escape the enumeration are not sampled.",
     [S, X], [('SplitPlan.required', S), ('SplitPlan.missing', S), ('SplitPlan.is_complete', S),
              ('SplitPlan.complete_plan', S), ('SplitPlan.manifests', S), ('Splitter.split', S), ('Splitter.plan', S)],
     VF + "set-content rules on the enumerations and the completion", TRUST)
prop('C10', "Splitting copies planned files intact with their checksums",
     """Every path of every planned bag that exists in the source is present in that output bag as a copy of the source file
     (or as a directory), and nothing the splitting writes afterwards changes or removes it.  Each copied file's recorded
     checksums are carried over unchanged, for payload files into the payload manifest and for others into the tag manifest of the bag that
     received it; every output bag has all of the source's payload manifests.""",
     ['inputs', 'programs'],
     "all plans (including hand-made ones), all source bags, all algorithms",
     "Tests check a few named files of one split.",
     [S, X], [('SplitPlan.apply_iter', S)],
     VF + "copy-guard rule, clobber rule over all later effects, checksum-line rule", TRUST)
prop('C11', "The head bag of a split describes the whole aggregation",
     """The last bag written by a split lists every bag of the split once, in the order written; maps every copied file to the bag that
     holds it (the last one, if several do); and keeps the source's bag metadata verbatim as the aggregation's metadata.  It alone
     declares itself head bag, with the plan's version and everything the plan deprecates; if the source is itself a head bag, its members and
     lookup come first.""",
     ['inputs', 'programs'],
     "all plans, names and source bags, including sources that are head bags",
     "Tests check the head bag of one split of a plain bag.",
     [S], [('SplitPlan.apply_iter', S)],
     VF + "tag-file line rules (content, order, guard)", TRUST)
prop('C12', "Split bags carry all of the source bag's metadata",
     """Every metadata item of the source, with all of its values, appears in every output bag: under its own name, or, where the output
     bag needs its own value (identifier, description, size), under the documented source-prefixed or group name.  Only multibag items and the names the
     caller excludes are left out, and the payload size item is that of the output bag itself.""",
     ['inputs'], "all metadata sets: any names, single or repeated values, any exclusion list",
     "Tests look for a few items with single values.",
     [S], [('SplitPlan.apply_iter', S)],
     VF + "case analysis of the written metadata lines by item name", TRUST)

if __name__ == '__main__':
    exec(open(os.path.join(HERE, 'dev', 'props_more.py')).read()) if os.path.exists(os.path.join(HERE, 'dev', 'props_more.py')) else None
    P.sort(key=lambda x: x[0]['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fd:
        for d, t, n in P:
            fd.write(json.dumps(d) + '\n')
    nas = set(x['property'] for x in NA)
    man = dict(version=1, setup_cmd="true",
               checks=[dict(property=d['id'], quick_cmd="python3 check.py --property %s --tier quick" % d['id'],
                            thorough_cmd="python3 check.py --property %s --tier thorough" % d['id'],
                            technique=t, level='other', level_note=n)
                       for d, t, n in P if d['id'] not in nas],
               not_applicable=NA,
               notes="Every check is static: it parses /repo's current source and never imports or runs it.")
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fd:
        json.dump(man, fd, indent=1)
        fd.write('\n')
