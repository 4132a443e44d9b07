"""
The public operations of the package.  They are the vocabulary of the properties: a call of one
of them is an event of its own, whatever its body looks like; any other function (private or new)
is looked through.
"""
PUBLIC = frozenset("""
Amender.add_amending_bag
Amender.finalize
Amender.init_from_amendee
BagRestorer.cache_dir
BagRestorer.destination_bagdir
BagRestorer.find_member_bag
BagRestorer.get_member_bag
BagRestorer.head_bag
BagRestorer.restore
BagRestorer.restore_fetch
BagRestorer.restore_member
BagValidator.validate
DatasetMaker.ensure_root
DatasetMaker.fill
ExtendedReadMixin.exists
ExtendedReadMixin.is_head_multibag
ExtendedReadMixin.is_readonly
ExtendedReadMixin.isdir
ExtendedReadMixin.isfile
ExtendedReadMixin.name
ExtendedReadMixin.nonstandard
ExtendedReadMixin.open_text_file
ExtendedReadMixin.replicate
ExtendedReadMixin.sizeof
ExtendedReadMixin.timesfor
ExtendedReadMixin.walk
HeadBagReadMixin.deleted_paths
HeadBagReadMixin.files_in_member
HeadBagReadMixin.head_version
HeadBagReadMixin.iter_deleted
HeadBagReadMixin.iter_file_lookup
HeadBagReadMixin.iter_member_bags
HeadBagReadMixin.lookup_file
HeadBagReadMixin.member_bag_names
HeadBagReadMixin.member_bags
HeadBagReadMixin.multibag_tag_dir
HeadBagReadMixin.profile_version
HeadBagUpdateMixin.add_file_lookup
HeadBagUpdateMixin.add_member_bag
HeadBagUpdateMixin.clear_file_lookup
HeadBagUpdateMixin.ensure_tagdir
HeadBagUpdateMixin.lookup_file
HeadBagUpdateMixin.member_bags
HeadBagUpdateMixin.remove_file_lookup
HeadBagUpdateMixin.remove_member_bag
HeadBagUpdateMixin.save_deleted
HeadBagUpdateMixin.save_file_lookup
HeadBagUpdateMixin.save_member_bags
HeadBagUpdateMixin.set_deleted
HeadBagUpdateMixin.set_member_bags
HeadBagUpdateMixin.set_multibag_tag_dir
HeadBagUpdateMixin.unset_deleted
HeadBagUpdateMixin.update_for_member
HeadBagUpdateMixin.update_info
HeadBagValidator.validate
HeadBagValidator.validate_aggregation_info
HeadBagValidator.validate_baginfo_recs
HeadBagValidator.validate_file_lookup
HeadBagValidator.validate_head_deprecates
HeadBagValidator.validate_head_version
HeadBagValidator.validate_member_bags
HeadBagValidator.validate_reference
HeadBagValidator.validate_tag_directory
HeadBagValidator.validate_version
InventorySizeIterator.iterate
MemberBagValidator.validate
MemberBagValidator.validate_as_nonhead
MemberBagValidator.validate_bagname
MemberInfo.format
MemberInfo.parse_line_02
MemberInfo.parse_line_03
Path.exists
Path.isdir
Path.isfile
Path.relpath
Path.subfspath
ReadOnlyBag.exists
ReadOnlyBag.fetch_entries
ReadOnlyBag.is_head_multibag
ReadOnlyBag.isdir
ReadOnlyBag.isfile
ReadOnlyBag.manifest_files
ReadOnlyBag.missing_optional_tagfiles
ReadOnlyBag.open_text_file
ReadOnlyBag.payload_files
ReadOnlyBag.save
ReadOnlyBag.tagmanifest_files
SimpleNamer.next
SingleMultibagMaker.convert
SingleMultibagMaker.update_info
SingleMultibagMaker.write_file_lookup
SingleMultibagMaker.write_member_bags
SizeIterator.iterate
SizeIterator.target_totalfiles
SizeIterator.target_totalsize
SizeIterator.totalfiles
SizeIterator.totalsize
SizeIterator.type
SplitPlan.apply_iter
SplitPlan.complete_plan
SplitPlan.find_destination
SplitPlan.is_complete
SplitPlan.manifests
SplitPlan.missing
SplitPlan.name_output_bags
SplitPlan.required
Splitter.plan
Splitter.split
UniformSizeIterator.iterate
ValidationIssue.add_comment
ValidationIssue.comments
ValidationIssue.description
ValidationIssue.failed
ValidationIssue.from_tuple
ValidationIssue.label
ValidationIssue.passed
ValidationIssue.profile_version
ValidationIssue.specification
ValidationIssue.summary
ValidationIssue.to_json_obj
ValidationIssue.to_tuple
ValidationIssue.type
ValidationResults.applied
ValidationResults.count_applied
ValidationResults.count_failed
ValidationResults.count_passed
ValidationResults.failed
ValidationResults.ok
ValidationResults.passed
Validator.ensure_valid
Validator.is_valid
Validator.validate
_ExtendedReadOnlyMixin.exists
_ExtendedReadOnlyMixin.isdir
_ExtendedReadOnlyMixin.isfile
_ExtendedReadOnlyMixin.open_text_file
_ExtendedReadOnlyMixin.replicate
_ExtendedReadOnlyMixin.sizeof
_ExtendedReadOnlyMixin.timesfor
_ExtendedReadOnlyMixin.walk
_ExtendedReadWritableMixin.calc_bag_size
_ExtendedReadWritableMixin.calc_oxum
_ExtendedReadWritableMixin.exists
_ExtendedReadWritableMixin.isdir
_ExtendedReadWritableMixin.isfile
_ExtendedReadWritableMixin.open_text_file
_ExtendedReadWritableMixin.replicate
_ExtendedReadWritableMixin.replicate_with_hardlink
_ExtendedReadWritableMixin.sizeof
_ExtendedReadWritableMixin.timesfor
_ExtendedReadWritableMixin.update_bag_size
_ExtendedReadWritableMixin.update_oxum
_ExtendedReadWritableMixin.walk
amend_bag_with
asProgenitor
as_extended
as_headbag
create_file
is_headbag
make_single_multibag
mkdataset
open_bag
open_bin_file
open_headbag
parse_deleted_line_04
parse_file_lookup_line_03
parse_group_directory_line
restore_bag
validate
""".split())
