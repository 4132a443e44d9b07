METHOD.update({
 'C07': 'Effect analysis: every create/write/remove/link/utime/chmod effect of an operation is collected over the whole call graph, with the provenance of its path; each must be rooted in the destination.',
 'C08': 'Effect analysis as for C07: the set of effects of the reading operations must be empty (cache directories and log files excepted).',
 'C09': 'The enumerations of the source are compared as sets (what is walked, what is filtered out), in worlds of files, empty directories, hidden files and special names.',
 'C13': 'The packing loops are interpreted in worlds of file sizes relative to the limit (below, equal, above; filling exactly; heads reserved), all order types of up to three files.',
 'C15': 'The writer\'s line shape is composed with the reader\'s parsing terms in the string shape domain; the composition must be the identity on each field.',
 'C29': 'Each profile clause is a predicate over a world (info item absent, empty, wrong, right; list with or without the bag, twice, in another place ...); the recorded result term is folded in every world and compared with the clause.',
 'C31': 'The comparison terms are folded for every ordering class of version pairs (equal, prefix, less, greater, numeric against textual order) and every form of the argument.',
 'C32': 'The summation terms are folded on symbolic bag layouts (nested, hidden, empty, files outside the payload).',
})
