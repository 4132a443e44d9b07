"""rules for what an argument that is left out means"""
from ..query import *
from ..engine import Frame, State
from ..terms import TRUE, FALSE, NONE

ALL, PROB = 7, 3
CHECKS = ('validate_version', 'validate_reference', 'validate_tag_directory', 'validate_head_version', 'validate_head_deprecates', 'validate_baginfo_recs',
          'validate_member_bags', 'validate_file_lookup', 'validate_aggregation_info')
TABLE = {
    'C01': [('BagRestorer.restore_member', 'overwrite', False)],
    'C06': [('BagRestorer.restore', 'update_sizes', True), ('BagRestorer.restore', 'remove_multibag_tags', True)],
    'C14': [('SplitPlan.name_output_bags', 'reverse', False)],
    'C16': [('HeadBag.member_bags', 'reread', False), ('HeadBag.lookup_file', 'reread', False), ('HeadBag.deleted_paths', 'reread', False),
            ('ReadOnlyHeadBag.member_bags', 'reread', False), ('ReadOnlyHeadBag.lookup_file', 'reread', False), ('ReadOnlyHeadBag.deleted_paths', 'reread', False)],
    'C17': [('HeadBag.add_member_bag', 'override', True)],
    'C19': [('HeadBag.update_for_member', 'make_member', True)],
    'C21': [('Amender.init_from_amendee', 'keepprofver', False)],
    'C22': [('multibag.amend:make_single_multibag', 'version', '1'), ('SingleMultibagMaker.convert', 'version', '1'),
            ('SingleMultibagMaker.update_info', 'version', '1'), ('SingleMultibagMaker.__init__', 'multibag_tagdir', 'multibag')],
    'C28': [('ValidationResults.__init__', 'want', ALL)] + [('ValidationResults.' + p + f, 'issuetype', ALL) for f in ('applied', 'failed', 'passed') for p in ('', 'count_')] +
           [('Validator.validate', 'want', PROB), ('Validator.is_valid', 'want', PROB), ('Validator.ensure_valid', 'want', PROB)],
    'C29': [('HeadBagValidator.validate', 'want', PROB), ('multibag.validate.headbag:validate', 'want', PROB)] + [('HeadBagValidator.' + f, 'want', ALL) for f in CHECKS],
    'C30': [('BagValidator.validate', 'want', PROB), ('MemberBagValidator.validate', 'want', PROB), ('multibag.validate.member:validate', 'want', PROB),
            ('MemberBagValidator.validate_bagname', 'want', ALL), ('MemberBagValidator.validate_as_nonhead', 'want', ALL)],
}


def default_of(an, param):
    """the value of the default of a parameter: a term, or None if it has none"""
    a = an.entry.node.args
    pos = a.posonlyargs + a.args
    ds = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults))
    for p, d in ds:
        if p.arg == param and d is not None:
            return an.ev(d, State({}, {}, TRUE), Frame(an.entry, None))[0]
    return None


def make(prop, rows):
    @rule(prop, 'defaults', "an argument that is left out has its documented value", floor=1)
    def defaults(c, r):
        for q, p, want in rows:
            an = c.an(q)
            v = default_of(an, p)
            # a default that the body replaces is left to the other rules
            ok = v is None or not is_const(v) or cval(v) is None or cval(v) == want or isinstance(want, bool) and bool(cval(v)) is want
            r.ok(ok, an.entry, '%s %s' % (q, p), "leaving out %s means %s instead of %r" % (p, show(v) if v is not None else '', want))
    return defaults


for _p, _rows in sorted(TABLE.items()):
    make(_p, _rows)
