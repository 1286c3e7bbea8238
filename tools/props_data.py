p('C01','Input buffer is read-only and released only on request',
 "The in-memory transform never modifies any byte of the caller's input buffer and keeps no reference to it. If the caller asked for the buffer to be released it is released exactly once, with free, and not accessed afterwards; if not, it is never released.",
 ['inputs'],'every input string, every length >= 1, both values of the release flag, every integer width the transform selects',
 'the only transform test passes a string literal with free_T=false and looks at the output; no test passes free_T=true or compares the buffer afterwards, and none reaches the wide-integer arms',
 [F,H],[('free_T guard around the release, after the last scan of T',F+':bwt_is'),('scans only read T',F+':extract_LMS_strings, create_shortened_string'),('substrings are copied out of T',H+':insert_string')],
 [('T','the caller\'s input buffer',F)],['flbwt::bwt_string'])
p('C02','A transform leaks no memory',
 "Every heap block that a transform allocates has been released when it returns normally, except the result structure and its byte array, which are handed to the caller. The file transform holds no heap block on any exit, including the exits on which it reports an error of its own.",
 ['inputs','fault_sequences'],'every input and every integer width; for the file transform also every failing file operation (running out of memory is not covered here)',
 'no test runs under a leak checker, one transform test exists, and the 40/48/56/64-bit arms are out of reach of any test',
 [F,H,PA,Q,'src/container.cpp']+IND+SAIS,[('arrays are deleted by the inducing step that consumed them','src/induce*bit.cpp'),('bucket arrays freed under the condition that allocated them','src/sais*bit.cpp'),('destructors','src/container.cpp, src/hashtable.cpp, src/packed_array.cpp, src/queue.cpp')],
 [],['flbwt::bwt_string','flbwt::bwt_file'])
p('C03','Memory is released correctly',
 "No heap block is released twice, used after it was released or moved by a resize, or released with a function that does not match the one that allocated it (free for malloc, delete for new, delete[] for new[]).",
 ['inputs'],'every input, every integer width, every transform',
 'a use after release usually reads intact memory and passes; the wide-integer arms are out of reach of any test',
 [F,H,PA,Q,'src/container.cpp']+IND+SAIS,[('order of release and last use',F+':bwt_is'),('pointers into the substring buffer are recomputed after realloc',H+':insert_string'),('queue blocks unlinked before they are freed',Q+':dequeue')],
 [],['flbwt::bwt_string','flbwt::bwt_file'])
p('C04','A failed file operation is always reported',
 "If opening, sizing or completely reading the input file, or opening, completely writing or closing the output file fails, the file transform throws an exception instead of returning normally. A short read or a short write counts as a failure.",
 ['fault_sequences'],'every file operation of the file transform failing, one at a time, for every input',
 'no test calls the file transform at all, let alone with a failing file system',
 [F],[('result of every stdio call checked',F+':bwt_file')],[],['flbwt::bwt_file'])
p('C05','Every stream is closed exactly once',
 "Every file stream the file transform opens is closed exactly once on every exit, normal or by exception, and is not used after it was closed or when it could not be opened.",
 ['fault_sequences','inputs'],'every path through the file transform, every single failing file operation or buffer allocation',
 'no test calls the file transform',
 [F],[('fclose on each exit',F+':bwt_file')],[],['flbwt::bwt_file'])
p('C06','Output is touched only after the transform succeeded',
 "The file transform opens the input file for reading only, and it does not create, truncate or otherwise touch the output file until the input was read completely and the transform of it was computed. A run that fails before that leaves an existing output file as it was; a run that succeeds replaces its whole content.",
 ['fault_sequences','histories'],'every path through the file transform up to the first effect on the output file',
 'no test calls the file transform; the property is about what happens on failing runs and about pre-existing output files',
 [F],[('output opened after the transform, with a truncating mode',F+':bwt_file')],[],['flbwt::bwt_file'])
p('C07','Layout of the output file',
 "The output file consists of the 8-byte big-endian position of the last character in the transform, followed by exactly n bytes: the transform's n+1 bytes in order without the byte at that position. This holds wherever the position falls, including the first and the last place.",
 ['inputs'],'every transform result: every n >= 1 and every position from 0 to n',
 'no test writes a file; the position takes its extreme values only for particular inputs, and its upper bytes are zero for every small input',
 [F],[('header assembled byte by byte; three cases for the position',F+':bwt_file')],[('last','position of the last character (rank of the whole string)','include/induce32bit.hpp')],['flbwt::bwt_file'])
p('C08','Transforms share no state',
 "A transform's result depends only on its arguments: no state is carried from one call to the next or shared between threads, so transforms of different buffers may run in any order and concurrently. The library has no mutable static or thread-local storage and calls no library function that is not reentrant.",
 ['schedules','histories'],'all interleavings and histories of calls on distinct buffers',
 'tests run each case once, in one thread, in a process of its own',
 [F,H,PA,Q,'src/container.cpp','src/utility.cpp']+IND+SAIS,[('all state in locals and per-call objects','src/')],[],['flbwt::bwt_string'])
p('C09','Split integers read back what was stored',
 "Storing a value into an array of 40-, 48- or 56-bit integers and reading it back yields the same value for every value that fits the width, negative ones included. A store changes no other element.",
 ['inputs'],'every value in [-2^(W-1), 2^(W-1)) and every index, for W = 40, 48, 56',
 'the tests store a dozen 40-bit values and never touch the 48- and 56-bit accessors',
 ['include/sais40bit.hpp','include/sais48bit.hpp','include/sais56bit.hpp'],[('set_/get_ accessors of each width','include/sais40bit.hpp, include/sais48bit.hpp, include/sais56bit.hpp')],[],['flbwt::set_40bit_value','flbwt::get_40bit_value','flbwt::set_48bit_value','flbwt::get_48bit_value','flbwt::set_56bit_value','flbwt::get_56bit_value'])
p('C10','Packed array elements are stored losslessly and independently',
 "For every element width from 1 to 64 bits, storing a value that fits at any index of a packed array and reading that index yields the value, changes no other element, and touches only memory the array allocated for its length. The suffix sorters' own readers of packed data decode the same element that the array's reader does.",
 ['inputs'],'every width 1..64, every index below the length, every value of that width',
 'tests use widths that are multiples of 8 and a few values; elements split across two words occur at few of their indices, and the sorters\' readers are not called directly',
 [PA,'include/packed_array.hpp']+SAIS,[('mask and shift arithmetic of whole and split elements',PA+':set_value, get_value'),('private copies of the reader','src/sais*bit.cpp:get2')],[],['flbwt::PackedArray'])
p('C11','Fields of a substring record read back what was stored',
 "The length (any value of at least 1), the name (any value that fits the table's name bytes) and the link to the next block (any 64-bit value) stored in a substring record are read back unchanged, whatever the memory held before, and storing one field disturbs neither the other fields nor the substring's characters. The number of name bytes chosen for an input length is large enough for every name that input can need.",
 ['inputs'],'every length, name and link value; every earlier memory content; every input length',
 'tests try one to three values per field, none with zero low bytes reliably (hashtable_test.set_length_2 depends on what the heap held before)',
 [H,'include/hashtable.hpp'],[('length codec',H+':set_length, get_length, calculate_lenlen, get_lenlen'),('name codec',H+':set_name, get_name'),('link codec',H+':set_pointer, get_pointer')],[],['flbwt::HashTable'])
p('C12','Substring table: a lookup finds exactly what was inserted',
 "Two substrings share a table entry if and only if they have the same length and the same bytes. Insertion and lookup walk a chain of entries in the same way, so whatever was inserted is found again, the new entry lies entirely inside the memory reserved for its block, and the entry after it is marked empty.",
 ['inputs','histories'],'every sequence of insertions and lookups, all substring lengths of at least 3, all byte values, colliding hashes, chains spanning several blocks',
 'one test inserts seven short strings; the lookup has no live test (find_name_1 is commented out), and chains of several blocks need many colliding substrings',
 [H],[('chain walk of insert_string and find_name',H),('space accounting of a block',H+':insert_string (rest, HBSIZE, 12 spare bytes)'),('record layout',H+':string_info_length, get_first_character_pointer')],
 [('head','first record of each chain','include/hashtable.hpp'),('rest','bytes left in the current block of each chain','include/hashtable.hpp')],['flbwt::HashTable::insert_string','flbwt::HashTable::find_name'])
p('C13','The chosen integer width holds every value',
 "For every input the transform selects exactly one integer width, and that width (one bit of which is the sign) holds every position and count stored in the suffix array, with arrays of sufficient length. The arrays given to the sorter are the ones that are filled with positions and given to the inducing step.",
 ['inputs'],'every size of the substring buffer and every substring count below 2^63',
 'tests have inputs of 15 bytes: only the 32-bit arm ever runs; the next arm needs more than 2 GB of distinct substrings',
 [F],[('dispatch on the position of the most significant bit',F+':bwt_is')],[('sa_max_value','largest position stored later','include/container.hpp')],['flbwt::bwt_string'])
p('C14','Suffix sorting does not depend on the integer width',
 "The suffix sorters for 32-, 40-, 48-, 56- and 64-bit integers compute the same suffix array for the same string, alphabet size and workspace: on every path they take the same decisions and store the same values. They differ only in how an integer is laid out in memory.",
 ['inputs'],'every string over every alphabet, both recursion levels (packed and integer text), every workspace size',
 'only the 32-bit sorter is reachable from the transform with inputs of test size, and no test calls any sorter directly',
 SAIS,[('five copies of the same algorithm','src/sais*bit.cpp')],[],['flbwt::sais_32bit','flbwt::sais_40bit','flbwt::sais_48bit','flbwt::sais_56bit','flbwt::sais_64bit'])
p('C15','Inducing the transform does not depend on the integer width',
 "For every integer width the conversion of the suffix array into positions and the inducing of the transform take the same decisions, process the same queue entries in the same order and store the same bytes and the same position of the last character.",
 ['inputs'],'every container state and every suffix array, for all five widths',
 'only the 32-bit arm is reachable with inputs of test size',
 [F]+IND,[('five copies of the inducing step','src/induce*bit.cpp'),('five arms of the dispatch',F+':bwt_is')],[],['flbwt::bwt_string'])
p('C16','The position queue is an exact double-ended queue',
 "For every sequence of operations on a queue, removing from the front yields the elements in the order that insertions at the back and at the front define, no element is lost, duplicated or altered, and the queue reports that it is empty exactly when it holds no element. This holds across the boundaries of its storage blocks and after the queue became empty.",
 ['histories'],'every sequence of enqueue, enqueue_l and dequeue (on a non-empty queue), any number of blocks, every element width',
 'no test exercises the queue; block boundaries are reached only after 1024 elements in one bucket',
 [Q,'include/queue.hpp'],[('block list and offsets',Q+':enqueue, enqueue_l, dequeue, is_empty, ~Queue')],[('sb, eb, s_ofs, e_ofs, n','first and last block, offsets of the first and last element, element count','include/queue.hpp')],['flbwt::Queue'])
p('C17','Invalid arguments are rejected before anything happens',
 "A transform of a null buffer or of length zero throws std::invalid_argument before it reads, allocates or releases anything. Every other buffer and length, including lengths one and two, is accepted: the transform does not throw for it and dereferences no null pointer.",
 ['inputs'],'every pointer and length',
 'no test passes a null pointer, a zero length or a length below 15',
 [F],[('argument check',F+':bwt_string')],[],['flbwt::bwt_string'])
p('C18','Both scans see the same substrings',
 "The scan that renames the input visits exactly the substrings, in the same order and with the same boundaries, that the scan that collected them entered into the table, for every input. It stores one name per substring counted, in input order, so every lookup succeeds and every slot of the shortened string is filled.",
 ['inputs'],'every input string of every length',
 'the transform test has one input of 15 bytes with three substrings; runs of equal bytes, 0 and 255 bytes and very short inputs are not covered',
 [F],[('right-to-left scan written twice',F+':extract_LMS_strings, create_shortened_string')],[('num_of_substrings','number of substrings entered','include/container.hpp')],['flbwt::bwt_string'])
p('C19','Running out of memory is reported',
 "If an allocation fails, the operation that needed it throws an exception; it never reads or writes through the null result and never returns as if it had succeeded.",
 ['fault_sequences'],'every allocation of the library failing, one at a time',
 'tests never make an allocation fail',
 [F,H,PA,Q]+IND,[('result of malloc and realloc checked; operator new throws','src/')],[],['flbwt::bwt_string','flbwt::bwt_file'])
p('C20','All 256 byte values are handled, in bucket order',
 "For every byte value from 0 to 255 the per-character tables are indexed inside their bounds, and the inducing step drains every character's queues: in ascending order of character in the first pass and in descending order in the second. For each character the first pass drains the larger-type (L) queue before the LMS queue, and the second pass drains the queue filled by the second pass before the queue of positions the first pass put aside for it.",
 ['inputs'],'every input, every byte value, every bucket, all five widths',
 'the test input has five distinct byte values, all between 36 and 115',
 [F,'include/container.hpp']+IND,[('tables of 258 entries indexed by character + 1','include/container.hpp'),('bucket loops','src/induce*bit.cpp')],[],['flbwt::bwt_string'])
p('C21','The order used to sort substrings is consistent',
 "The comparison used to sort the substrings orders them by their first differing byte, compared as unsigned values, and puts a substring before its own proper prefixes. No substring is ordered before itself, and of two substrings at most one is ordered before the other, so sorting is well defined.",
 ['inputs'],'every pair of substrings of any length and content',
 'the test sorts two substrings',
 [F],[('comparison function',F+':sort_LMS_strings')],[],['flbwt::sort_LMS_strings'])
p('C22','The input is read only inside its bounds',
 "The transform reads the input only at positions 0 to n, where position n is the terminating zero byte the caller provides, and every substring entered into or looked up in the table is a range of at least three bytes inside those positions.",
 ['inputs'],'every input string and every length >= 1',
 'a read just outside the buffer passes unnoticed; no test runs under a memory checker or uses lengths below 15',
 [F],[('loop bounds and substring boundaries',F+':extract_LMS_strings, create_shortened_string')],[],['flbwt::bwt_string'])
p('C30','The result is the Burrows-Wheeler transform',
 "For every input the byte array and the position returned are those of the Burrows-Wheeler transform of the input followed by a unique smallest end marker: byte i precedes the i-th smallest suffix, and the position is the rank of the whole input.",
 ['inputs'],'every input string',
 'one input of 15 bytes is compared',
 [F,H]+IND+SAIS,[('the whole algorithm','src/')],[],['flbwt::bwt_string','flbwt::bwt_file'])
p('C31','The transform can be inverted',
 "From the output file alone the input file can be reconstructed byte for byte.",
 ['inputs'],'every non-empty input file',
 'no test inverts anything; the project has no inverse transform',
 [F],[('position header and byte sequence',F+':bwt_file')],[],['flbwt::bwt_file'])
p('C32','The transform runs in linear time',
 "The running time of the transform grows linearly with the length of the input, and every recursion and loop terminates.",
 ['inputs'],'every input string',
 'tests use tiny inputs and measure nothing',
 [F,H]+IND+SAIS,[('induced sorting; recursion on at most half the length','src/sais*bit.cpp')],[],['flbwt::bwt_string'])
p('C33','The transform is space efficient',
 "The peak memory of a transform stays within a small constant multiple of the input size plus the integer arrays of the selected width, and storage that is no longer needed is released before the next large allocation.",
 ['inputs'],'every input string',
 'no test measures memory',
 [F]+IND,[('early release of T, S, T1 and the suffix array',F+', src/induce*bit.cpp')],[],['flbwt::bwt_string'])
p('C34','The result does not depend on uninitialised memory',
 "No byte of the result and no decision of a transform depends on the content of memory that was never written.",
 ['inputs'],'every input string and every earlier content of the heap and stack',
 'the outcome of a test that reads such memory depends on what the heap held before (as hashtable_test.set_length_2 and packed_array_test.get_value_8bit do)',
 [F,H,PA,Q]+IND+SAIS,[('zero fill after each record',H+':insert_string'),('fields set before use','src/')],[],['flbwt::bwt_string'])
