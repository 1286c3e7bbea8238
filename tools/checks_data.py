CHECKS={
'C08':('effect analysis over the whole-program IR: inventory of static and thread-local storage, of the instructions that reach it, and of non-reentrant library calls',
  'Decides absence of shared mutable state for every function of the library; thread safety of malloc, operator new and stdio is assumed.'),
'C09':('bit-provenance dataflow over LLVM IR: store accessor followed by load accessor, all values and indices symbolic',
  'Decides, for every value and index, that each accessor pair round-trips bit for bit and that a store stays inside its element.'),
'C10':('bit-provenance dataflow over LLVM IR (bits as boolean functions), for every element width and index residue, with symbolic index and memory',
  'Decides round trip, independence of neighbours and bounds for all 64 widths and all residues of the index; what the domain cannot express is counted as undecided in the evidence.'),
'C11':('bit-provenance dataflow over LLVM IR through the record writers and readers, with interval partitioning of the input length',
  'Decides, per number of significant bits of the length and per number of name bytes, that every field reads back for every value and any earlier memory content, that fields do not overlap, and that the constructor chooses enough name bytes for every input length.'),
'C17':('path-sensitive abstract interpretation of the whole-transform IR, partitioned by argument class',
  'Decides every path for rejected arguments and for each small length with symbolic bytes; for longer inputs reports only exceptions whose condition depends on the arguments alone. Table methods, sorters and inducing steps are taken by their effects.'),
'C04':('path-sensitive abstract interpretation of bwt_file over a fault model of stdio (every call site made to fail, once or persistently)',
  'Decides every path of the file transform; files are denoted by symbolic size and content. Loops over chunks are summarised, and what cannot be decided there is counted.'),
'C05':('typestate analysis of file streams over every path of bwt_file, with stdio calls, allocations and the transform failing or succeeding',
  'Decides every path of the file transform.'),
'C06':('effect-order analysis over every path of bwt_file with a fault model of stdio',
  'Decides every path of the file transform; the two names are taken to denote different files.'),
'C07':('symbolic collection of the bytes written on every path of bwt_file (bit provenance for the header, linear ranges for the body) against the specified layout',
  'Decides every failure-free path for every position and length.'),
'C16':('shape analysis of flbwt::Queue over its IR: abstract interpretation of all method sequences up to a fixed length from the new queue and from queues of one to three blocks with symbolic offsets, against a ghost list',
  'Decides, for every offset and history of bounded length from every starting shape, order, emptiness, bounds and width of elements; counts outcomes outside the starting shapes (none on the current tree, so the result extends to histories of any length).'),
'C01':('ownership analysis: path-sensitive abstract interpretation of the whole-transform IR with symbolic input buffer, heap blocks and release sites, plus the table and file entries',
  'Decides, for each small length and from joined loop states for longer ones, that no access or release of the caller\'s buffer breaks the contract; calls whose effect on the buffer is not known are counted.'),
'C02':('heap reachability (leak) analysis over path-sensitive abstract interpretation of every entry: transform, five sorters, five inducing functions, table, queue, packed array, file transform',
  'Decides every path reached with heap blocks followed until release, hand-over or loss; blocks no longer followed after a join are counted (none on the current tree).'),
'C03':('typestate analysis of heap blocks (allocated with which function, released, moved) over path-sensitive abstract interpretation of the same entries',
  'Decides every access and release reached; table contents and sorter decisions are unconstrained, so both outcomes are followed.'),
'C19':('fault-injecting abstract interpretation: for every allocation on every path, the path on which it fails',
  'Decides, for each allocation site reached, every continuation: an exception must leave the operation and the null result may not be used. Behaviour after a second failure is not followed.'),
'C18':('path-sensitive abstract interpretation of both scans over symbolic bytes (each order of neighbours its own path), comparing the recorded table events',
  'Decides every path for each small length, and for chosen orders of neighbours with substrings around 4 to 258 bytes; longer inputs are not enumerated.'),
'C22':('bounds analysis: path-sensitive abstract interpretation of the transform up to the sorter over a symbolic input buffer of each small length',
  'Decides every access and every range handed to the table for the lengths and patterns followed.'),
'C23':('path-sensitive abstract interpretation of the collecting scan over symbolic bytes; events compared with the definition of S* substrings and of the statistics',
  'Decides every path for each small length, and for chosen orders of neighbours with longer substrings.'),
'C12':('path-sensitive abstract interpretation of sequences of table operations (symbolic bytes, fixed lengths, buckets chosen by the scenario), plus dependence analysis of the hash function',
  'Decides every path of each scenario: equal and unequal strings, shared prefixes, block boundaries swept byte by byte, chains over several blocks; longer histories are not enumerated.'),
'C21':('path-sensitive abstract interpretation of the comparison handed to the sorting algorithm, on records with symbolic bytes; every path compared with the specified strict order',
  'Decides every path for each pair of lengths followed: 3 to 5 (8) bytes unconstrained, up to 1,040 bytes with one free place or one string beginning the other.'),
'C24':('path-sensitive abstract interpretation of the sorting step, library algorithm included, on tables filled by the insertion code with symbolic bytes',
  'Decides every path of each scenario: up to three unconstrained substrings, up to twenty in chains over several blocks, beginnings of 1 to 600 bytes.'),
'C25':('abstract interpretation of the sorting step; extents of all records compared with the stored base, width and largest position, swept across powers of two',
  'Decides the scenarios followed, tables of up to 67,000 bytes; larger tables are not followed.'),
'C13':('path-sensitive abstract interpretation of the width choice and of the five arms, with the other steps replaced by given results; sizes swept across every power of two',
  'Decides, for each size followed (every power of two below 2^62 and its neighbours, as position, as count and as both), that one width is chosen, that it holds every value with its sign bit and that every array has the elements sorted; other sizes are not followed.'),
'C14':('dataflow over the IR of the five sorters (integers keep their width), plus abstract interpretation on a finite partition of the texts, results compared across the widths',
  'The dataflow rule covers every input; the comparison of results covers the texts of the partition (every text of up to four symbols, longer ones with recursion, four workspace sizes).'),
'C15':('abstract interpretation of the five inducing steps with ideal queues, one drain of one queue at a time, effects compared across the widths; the same for the arms of the dispatch',
  'Decides every drain at the chosen buckets (all 256 in the thorough run) for entries behind bytes below, at and above each bound of the bucket, the distribution of positions, and whole paths of given positions; other combinations of entries are not followed.'),
'C20':('abstract interpretation of the inducing steps: drain order of all queues, subscript bounds',
  'Decides the drain order for all 256 bytes and both passes, and every subscript on the paths followed (all loops over buckets; entries at the smallest, middle and largest buckets).'),
 'C26':('interprocedural dataflow (taint) over the whole-program IR: quantities that grow with the input, through calls, returns and members, against every conversion and counter of fewer bits',
  'Decides every conversion and counter of the library outside the suffix sorters (C14), for every input; values bounded by constants, masks, remainders and minima are exempt, and elements of integer arrays are taken as given.'),
 'C27':('definite assignment: dataflow over the IR as the compiler emits it for the local variables and arrays, whole-program def-use over the members of classes',
  'Decides every local variable of simple type, every local array that is filled by element and every member: one whose use no assignment can have preceded is reported; one that has a value on some paths only is not.'),
}
