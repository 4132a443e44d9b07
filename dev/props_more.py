# ------------------------------------------------------------------ head bag
prop('C15', "Head bag tag file lines mean the same written and read",
     """A member line reads as the bag name, then the URI, then extra fields, with a last field starting with '#' as the comment, and a member
     is written so that reading the line back gives an equal description.  A lookup line reads and is written as path TAB bag name, and a deletion
     as the bare path.""",
     ['inputs'], "all names, URIs, comments and extra fields without TAB or newline, in every combination of presence and absence; all lookup and deleted paths",
     "Tests parse and format a few fixed lines; which field lands where depends on how many there are and which are empty.",
     [M], [('MemberInfo.parse_line_04', M), ('MemberInfo.format', M), ('parse_file_lookup_line_03', M),
           ('HeadBag.save_file_lookup', M), ('HeadBag.save_deleted', M)],
     VF + "case analysis over the number and kind of fields", TRUST)
prop('C16', "A head bag reads back exactly what its tag files hold",
     """The members, file lookup and deleted paths a head bag reports are all the non-blank lines of the tag files, in file order, looked for in the
     bag's own tag directory and under the file name and syntax of its profile version.  They are read once, unless a re-read is asked for; the tag
     directory, profile version and head version come from the last value of the metadata item, with the documented default.""",
     ['inputs', 'configurations', 'histories'],
     "all tag files, tag directory names, profile versions, directory and serialized bags, all sequences of cached and forced reads",
     "Tests read two sample head bags with the default tag directory.",
     [M], [('HeadBagReadMixin.iter_member_bags', M), ('HeadBagReadMixin.iter_file_lookup', M), ('HeadBagReadMixin.iter_deleted', M),
           ('HeadBagReadMixin.member_bags', M), ('HeadBagReadMixin.lookup_file', M), ('HeadBagReadMixin.deleted_paths', M)],
     VF + "line-source rule (file, filter, parser, order) and cache-state case analysis", TRUST)
prop('C17', "Head bag edits change one entry of the state on disk",
     """Adding or removing a member, a lookup entry or a deletion changes that entry and keeps all others that the tag files hold, whether
     or not they had been read before.  A member is added after all others, replacing one of the same name only if asked for, and removing a member removes
     every entry of that name and all files registered with it.""",
     ['histories', 'inputs'],
     "all sequences of edits, reads and saves on any head bag",
     "Tests do one edit on a freshly opened bag; losing the unread state needs a particular order of operations.",
     [M], [('HeadBag.add_member_bag', M), ('HeadBag.remove_member_bag', M), ('HeadBag.add_file_lookup', M),
           ('HeadBag.remove_file_lookup', M), ('HeadBag.set_deleted', M), ('HeadBag.unset_deleted', M)],
     VF + "loaded-before-changed typestate and effect-on-entry rule", TRUST)
prop('C18', "Saving writes the whole in-memory state and nothing else",
     """Saving the members, lookup or deletions replaces the tag file by one line for every entry in memory, in order, in UTF-8, including an empty
     list; if nothing was read or set the file is untouched.  Renaming the tag directory records the new name and never replaces an existing directory.""",
     ['histories', 'inputs'], "all in-memory states and histories leading to them, any tag directory",
     "Tests save a few entries in the default directory.",
     [M], [('HeadBag.save_member_bags', M), ('HeadBag.save_file_lookup', M), ('HeadBag.save_deleted', M),
           ('HeadBag.clear_file_lookup', M), ('HeadBag.set_multibag_tag_dir', M)],
     VF + "write-set and line-content rules", TRUST)
prop('C19', "Registering a bag's files honours include and exclude",
     """Registering a bag records every included file and every file below an included directory under the given (or the bag's own) name, except
     excluded paths and everything below an excluded directory.  Nothing else is recorded, and the bag is made a member exactly if asked for.""",
     ['inputs'], "all bag trees, all include and exclude arguments (absent, one path, lists)",
     "Tests register one sample bag with one exclusion.",
     [M], [('HeadBag.update_for_member', M)],
     VF + "case analysis of the registration guard over the forms of the arguments", TRUST)
prop('C20', "Updating a head bag's metadata keeps what is there",
     """Updating sets the head version to the given one (else keeps the recorded one, else '1'), keeps the recorded tag directory and every existing
     description, adds the profile's statement only if missing, and recomputes the bag size from the saved bag.  The result is saved.""",
     ['inputs', 'histories'], "all prior metadata (items absent, single, repeated), all versions and profile arguments, repeated updates",
     "Tests update bags whose metadata has none or one of the items.",
     [M], [('HeadBag.update_info', M)],
     VF + "map-content case analysis and save-after-last-change rule", TRUST)
# ------------------------------------------------------------------ amend
prop('C21', "An amended aggregation is the old one plus the amendments, head last",
     """The head bag made by an amendment lists the old aggregation's members with all their information in their order, then the amending bags in the
     order given, then itself; its lookup has the old entries overridden by the amending bags' files and finally its own.  What was deleted stays
     deleted unless an amendment provides it again; everything the old head deprecated and the old head version itself are deprecated; and all of this
     is saved under the given version.""",
     ['inputs', 'histories'],
     "all amended aggregations (plain bags, head bags, any number of members, repeated amendments), all amending bags and include/exclude lists",
     "Tests amend one aggregation once or twice; what is dropped or reordered depends on the history of the aggregation.",
     [A, M], [('Amender.init_from_amendee', A), ('Amender.add_amending_bag', A), ('Amender.finalize', A), ('amend_bag_with', A)],
     VF + "carry-over rules (source, content, guard, order) and save-after-last-change", TRUST)
prop('C22', "A converted bag is a complete aggregation of itself",
     """Converting a bag makes it the only member of its aggregation, with the given address, registers its payload files under its own name with no older
     entries left, and records the given version and the final size.""",
     ['inputs', 'histories'], "all bags, including ones converted before, all tag directories, versions and addresses",
     "Tests convert one sample bag.",
     [A, M], [('SingleMultibagMaker.convert', A), ('SingleMultibagMaker.write_member_bags', A), ('SingleMultibagMaker.write_file_lookup', A),
              ('make_single_multibag', A)],
     VF + "call-order and argument rules", TRUST)
# ------------------------------------------------------------------ access to bags
prop('C23', "A bag is seen the same way, and only itself, however it is stored",
     """Whether a path exists, its size and times, the opened text and a walk of a bag are those of the entry below the bag's root for a directory on
     disk and for a serialized bag alike: hidden files are included, walks report every directory with all of its entries and paths relative to the
     bag's root, and text is UTF-8 without a byte-order mark by default.  A path that leads out of a bag directory is not in the bag.""",
     ['inputs'], "all paths in all their forms, all bag trees, all forms of the location a bag is opened with",
     "Tests ask for a few plain paths of the sample bags.",
     [X, B], [('ExtendedReadWritableBag.walk', X), ('ExtendedReadWritableBag.exists', X), ('ExtendedReadOnlyBag.walk', X), ('ReadOnlyBag.exists', B), ('Path.relpath', B)],
     VF + "constant propagation of path classes through the path expressions and their guards", TRUST)
prop('C24', "Replicating puts an equal file in the same place or fails",
     """Replicating a path of a bag into another directory leaves the same file or directory at the same path there, making directories that are missing,
     replacing a file that is there without writing into it, and falling back to a copy when a link cannot be made.  The bag itself is not changed; a
     path that is not in the bag is refused with nothing left behind, and a failed copy is an error.""",
     ['inputs', 'fault_sequences'], "all paths, all prior states of the destination, failing links and failing copies, bags on disk and serialized",
     "Tests replicate into empty directories where every operation succeeds.",
     [X], [('ExtendedReadWritableBag.replicate', X), ('ExtendedReadOnlyBag.replicate', X)],
     VF + "effect summary of each path through the operation, over the classes of destination states and failures", TRUST)
# ------------------------------------------------------------------ splitters
prop('C13', "Splitters place each file once and keep bags within the maximum size",
     """A size-limited splitter distributes every file of the source bag, other than the special BagIt files at its root and the files reserved for the head
     bag, over the planned bags, each into exactly one of them.  The files a splitter packs into one bag do not exceed the maximum size together, unless
     a single (non-empty) file does so by itself.  Files reserved for the head bag are placed in the last bag.""",
     ['inputs'], "all bags (any number of files of any sizes in any directories), all maximum and target sizes, all lists of reserved files in any notation",
     "Tests pack one list of files with a few limits; whether a bag can overflow or a file be lost depends on the sizes and their order.",
     [S], [('WellPackedSplitter._apply_algorithm', S), ('NeighborlySplitter._apply_algorithm', S), ('WellPackedSplitter._create_plan', S)],
     VF + "guard entailment at every placement and a loop-carried typestate of the open bag; constant propagation of path classes", TRUST)
prop('C14', "Split bags get the requested names, in order, and keep to them",
     """The bags of a plan are named in order (or in reverse when asked) by the names of the given iterator, or <base>_1.mbag, <base>_2.mbag and so on for a
     base name, which is by default the name of the source bag however its location is written; too few names are an error.  Each bag is written to the
     directory of its name in the output directory, and goes by that same name in everything written about it; names given when the plan is applied
     take precedence while they last.""",
     ['inputs'], "all plans of any length, all naming iterators (finite or not), all forms of the source bag's location",
     "Tests name three bags of one plan from well-formed locations.",
     [S], [('SplitPlan.name_output_bags', S), ('SplitPlan.apply_iter', S), ('Splitter.plan', S), ('SimpleNamer.__next__', S)],
     VF + "constant propagation of location classes; case analysis of the name value and of all its uses", TRUST)
# ------------------------------------------------------------------ validators
VB, VG, VM, VH = ('multibag/validate/%s.py' % f for f in ('base', 'bag', 'member', 'headbag'))
prop('C28', "Validation results report exactly the tests recorded, and decide validity",
     """Each test recorded in validation results is kept once, under its kind, with its label, comments and outcome; asking for failed, passed or applied
     tests, or their number, gives exactly those of the kinds asked for.  A bag is valid exactly when no test of the kinds wanted failed, and the
     validation functions raise an error carrying the results, and naming the failed tests, exactly when it is not.  A test exported as a tuple or for JSON, or imported again, keeps all of its data, which its summary and description show.""",
     ['inputs', 'histories'], "all sequences of recorded tests, all combinations of kinds asked for",
     "Tests record one test of each kind and ask for a few of the combinations.",
     [VB], [('ValidationResults', VB), ('Validator.ensure_valid', VB), ('ValidationIssue', VB)],
     VF + "constant propagation over all small result sets and all kind masks", TRUST)
prop('C29', "The head-bag validator fails exactly where the profile is not met",
     """For every content of a head bag's metadata, member list, file lookup and aggregation info, each profile requirement is reported as failed, as an
     error, warning or recommendation, exactly where the profile version the bag gives is not met, and under its own test.  A missing directory or file is reported as a failed
     test, not raised; and the results returned hold the findings of the BagIt tests and of every group of head-bag tests.""",
     ['inputs'], "all contents of the metadata and tag files (items absent, empty, repeated; lines of any form, number and order), all profile versions",
     "Tests break one item at a time in one sample head bag.",
     [VH, VG, VB], [('HeadBagValidator.validate', VH), ('HeadBagValidator.validate_member_bags', VH), ('HeadBagValidator.validate_file_lookup', VH),
                    ('HeadBagValidator.validate_baginfo_recs', VH)],
     VF + "constant propagation of classes of metadata and of tag-file lines to each recorded verdict", TRUST)
prop('C30', "The bag and member-bag validators report what is wrong with a bag",
     """A bag that is not valid BagIt, or cannot be checked, is reported as an error and a valid one is not.  For a member bag, a name with a tab or outer
     white space, head-bag elements in a bag that is not a head bag, and a missing profile version are reported exactly where they occur, and the
     results that the caller passes in hold all findings.""",
     ['inputs'], "all bag names, all metadata of member bags, all profile versions, all failures of the BagIt check",
     "Tests validate two sample bags.",
     [VM, VG, VB], [('BagValidator.validate', VG), ('MemberBagValidator.validate', VM), ('MemberBagValidator.validate_bagname', VM),
                    ('MemberBagValidator.validate_as_nonhead', VM)],
     VF + "constant propagation of classes of names and metadata to each recorded verdict", TRUST)
# ------------------------------------------------------------------ effects
prop('C07', "Operations write only in their destination; source bags are only read",
     """Restoring writes, links and removes only inside the destination (and may create the member cache), whatever tag directory the head bag names;
     splitting writes only inside the new directory of the bag being written, refusing one that exists; amending and converting write only in the bag
     being made or converted.  The bags that are restored from, split or amended keep all their files and contents: a restored bag, which is written to
     later, shares no file with them.""",
     ['inputs', 'histories'],
     "all bags and aggregations (any recorded tag directory, any paths and names), all destinations, existing or not",
     "Tests look at the expected outputs in one scratch directory, not at what else was touched.",
     [R, S, A, M], [('BagRestorer.restore', R), ('SplitPlan.apply_iter', S), ('Amender', A), ('HeadBag.save_file_lookup', M)],
     "static: interprocedural file-system effect analysis; every effect's symbolic target path must lie below the permitted root", TRUST)
prop('C08', "Looking at, validating and planning with bags changes nothing",
     """Opening, querying, walking, looking up in and validating a bag, and making a split plan, neither change the file system nor the metadata held for the
     bag.  Changing the member list, lookup or deleted list of a head bag changes nothing on disk until it is saved; and a bag that was opened read-only
     refuses to be saved.""",
     ['inputs', 'histories'], "all bags in all forms and states (files missing, malformed, items repeated), all sequences of such operations",
     "Tests compare what the operations return, never what they leave behind.",
     [M, X, B, VH, VM, VG, S], [('HeadBag', M), ('ExtendedReadWritableBag', X), ('ReadOnlyBag', B), ('HeadBagValidator', VH), ('SplitPlan', S)],
     "static: interprocedural file-system effect analysis over all read operations; mutation analysis of the bag's metadata", TRUST)
# ------------------------------------------------------------------ read-only bags
prop('C25', "Loading a bag records its manifests exactly and refuses unsafe paths",
     """Opening a bag records for every payload file (and, from BagIt 0.97 on, tag file) exactly the hashes its manifests list, whatever the spacing,
     comments, byte-order mark or form of the paths, and reads fetch entries the same way.  A manifest or fetch path that would leave the bag's
     directory, a file listed with conflicting hashes, and in version 1 a file listed twice make the bag fail to load.""",
     ['inputs', 'configurations'], "all manifests and fetch files: any number of algorithms, any lines, any BagIt version and encoding; all paths",
     "Tests load a few well-formed sample manifests; the decision is made per line and depends on what earlier lines held.",
     [B], [('ReadOnlyBag._load_manifests', B), ('ReadOnlyBag.fetch_entries', B), ('ReadOnlyBag._path_is_dangerous', B), ('ReadOnlyBag.manifest_files', B)],
     VF + "constant propagation of every class of manifest line, entries folded over the lines", TRUST)
prop('C26', "Validating a read-only bag finds every missing or changed file",
     """Validating a (serialized or plain) bag fails if a listed file is missing, cannot be read or any of its listed hashes differs (upper or lower
     case), if the payload does not match the Payload-Oxum in number of files or bytes, or if the payload directory, all manifests or bagit.txt are
     missing; each difference is reported, as a validation error.  A bag in which everything matches passes.""",
     ['inputs', 'fault_sequences'], "all bag contents and manifests, any algorithms, any Payload-Oxum, unreadable files, normalised file names",
     "Tests validate intact sample bags and a few single defects.",
     [B], [('ReadOnlyBag._validate_entries', B), ('ReadOnlyBag._validate_oxum', B), ('ReadOnlyBag._validate_structure_tag_files', B),
           ('ReadOnlyBag._validate_bagittxt', B), ('ReadOnlyBag.payload_files', B)],
     VF + "constant propagation of bag-content classes, all-blocks-hashed rule", TRUST)
prop('C27', "Opening a location gives the bag that is there, or is refused",
     """A directory is opened as the bag of that name, an archive (recognised by its extension) as the first directory in it that holds a bagit.txt,
     under that directory's name, and both remember the location they were opened from.  The version, encoding and metadata are those the bag declares;
     a missing or unrecognised location, an archive without a bag and an incomplete or unsupported declaration are refused with an error.""",
     ['inputs', 'configurations'], "all locations (absolute, relative, trailing slashes, archive names unlike the bag's), archive layouts, BagIt versions and encodings",
     "Tests open a handful of sample bags under their own names.",
     [B], [('open_bag', B), ('ReadOnlyBag.__init__', B), ('ReadOnlyBag._open', B), ('Path.relpath', B)],
     VF + "constant propagation of location, archive and declaration classes", TRUST)
# ------------------------------------------------------------------ versions
prop('C31', "Profile versions compare by their numbers, consistently",
     """Two profile versions compare as the sequences of numbers between their dots do (so 0.10 is later than 0.9), all six comparisons agree with each
     other, and the outcome does not depend on whether the other version is given as text, as a tuple of numbers or as a version.  A version keeps its text.""",
     ['inputs'], "all pairs of version texts (any number of dotted numbers, longer and shorter ones, leading zeros, empty), in all three forms",
     "Tests compare a few pairs with some of the operators.",
     [K], [('Version.__init__', K), ('Version.__lt__', K), ('Version.__eq__', K)],
     VF + "the terms that the comparisons return, decided for every ordering class of version pairs and every form of the argument", TRUST)
# ------------------------------------------------------------------ sizes
prop('C32', "The payload size and bag size recorded are those of the files in the bag",
     """The payload size computed for a bag is the number of bytes in, and the number of, all files below its data directory, at any depth and whatever
     their names, and nothing else; it is recorded as these two numbers with a dot between.  The size computed for the whole bag counts every file in it.""",
     ['inputs'], "all bags: any directory tree, hidden and empty files, empty directories, directories called data elsewhere in the bag",
     "Tests compute the sizes of a few small sample bags.",
     [X, M], [('ExtendedReadWritableBag.calc_oxum', X), ('ExtendedReadWritableBag.update_oxum', X), ('ExtendedReadWritableBag.calc_bag_size', X), ('HeadBag._bag_size', M)],
     VF + "constant propagation of bag layouts through the sums and counts, no-early-exit rule for the loops", TRUST)
# ------------------------------------------------------------------ encoding, times
prop('C33', "Text files are written and read as UTF-8, whatever the platform's encoding",
     """Every text file that splitting a bag, restoring one or saving a head bag writes (manifests, metadata, fetch list, member list, lookup, deletions) is
     encoded in UTF-8, and the text files of bags that these operations read are decoded as UTF-8.  The platform's preferred encoding plays no part.""",
     ['inputs', 'configurations'], "all names and metadata values with any characters, all locales",
     "Tests run in one (UTF-8) locale, with names in ASCII, where a missing encoding makes no difference.",
     [S, R, M], [('SplitPlan.apply_iter', S), ('BagRestorer.restore', R), ('HeadBag.save_member_bags', M), ('HeadBag.save_file_lookup', M), ('HeadBag.save_deleted', M)],
     VF + "the encoding argument of every text file opened on any path of the writing operations", TRUST)
prop('C34', "Restored files and directories keep their modification times",
     """Every file and directory that a restoration copies or creates gets the modification time it has in the bag it is taken from, if that is known, and a
     directory into which files are put keeps the modification time it had.""",
     ['inputs'], "all member bags (directories and archives), any tree of files and directories, restored over any destination",
     "Tests compare the time of a single restored file or none.",
     [R], [('BagRestorer.restore', R), ('BagRestorer.restore_member', R)],
     VF + "each copy and directory creation must be followed, in the same iteration and under no further condition, by setting the time its own bag gives", TRUST)
# ------------------------------------------------------------------ interfaces
prop('C35', "Taking a bag as a head bag gives the right interface and loses nothing",
     """A bag that is extended, or taken or opened as a head bag, stays the same object and gets the methods for reading head bags, ready to use; it gets those for
     updating exactly if it is a writable directory and updating was not declined, so a read-only bag stays read-only.  A bag that already has the interface is
     left alone with all its unsaved edits, what is not a bag is refused, and only a bag whose metadata has a head version counts as a head bag.""",
     ['inputs', 'programs'], "bags of every class of the library and the package, in any order of conversions, any location (directory, archive, URL), with or without the read-only option",
     "Tests convert a few of the classes once and do not look at unsaved edits.",
     [X, M], [('as_extended', X), ('as_headbag', M), ('open_headbag', M), ('is_headbag', M)],
     "static: typestate analysis of the class of the bag and the fields initialised along every path of the conversions", TRUST)
# ------------------------------------------------------------------ not claimed
prop('N01', "Splitting a bag and restoring the result gives the bag back",
     """Restoring the output of any split of a bag yields a valid bag with the same payload, the same tag files and the same metadata as the source.""",
     ['inputs', 'programs'], "all bags and all split plans, with either restoring mode",
     "Tests round-trip a single sample bag.",
     [S, R], [('SplitPlan.apply_iter', S), ('BagRestorer.restore', R)], 'none', TRUST)
na('N01', """an equality between the file trees before and after two whole programs composed through the file system: it quantifies over file contents, names and
   library behaviour that no static argument in reach relates; its ingredients are claimed separately (C01-C06, C09-C12, C15, C16, C32-C34)""")
prop('N02', "An interrupted save or update leaves the old or the new state on disk",
     """If the process dies while a head bag, a split bag or a restored bag is being saved, the tag files on disk hold either the complete old or the complete
     new state.""",
     ['crash_points'], "every point at which saving can be interrupted",
     "Tests never interrupt a save.",
     [M, S, R, A], [('HeadBag.save_member_bags', M), ('SplitPlan.apply_iter', S)], 'none', TRUST)
na('N02', """does not hold and is not promised: every tag file is opened for writing in place (truncated) and the documentation says nothing about interruption;
   there is no commit protocol that a typestate analysis could check""")
prop('N03', "The nominal size of a bag is given in the right human-readable unit",
     """The Bag-Size recorded is the byte count of the bag, scaled to the largest decimal unit in which it is at least one and rounded as documented.""",
     ['inputs'], "all byte counts",
     "Tests format five numbers.",
     [M], [('HeadBag.update_info', M)], 'none', TRUST)
na('N03', """the outcome is floating-point formatting of an unbounded count: deciding it needs evaluating the code on numbers or a solver, not an analysis of its
   structure; that the count covers the right files is claimed as C32""")
