"""The properties and, for each, how it is decided.  tools/meta.py writes properties.jsonl and MANIFEST.json from this table."""
TODO = 'The check for this property is still being built.'
PROPS = [
 dict(id='C01', title='A storage failure is never reported as success',
  statement='When any system or library call that a storage operation depends on fails (opening, reading, writing, seeking, closing a buffered file, creating a directory), the operation that needed it returns failure to its caller, at every level up to the public call. '
            'Not counted: running out of memory, listing the blocks of a file, refreshing directory time stamps, and an attribute file that simply does not exist.',
  over=['fault_sequences'], quant='every fallible call site of the C library, on every path, failing at any point of any operation',
  why='The tests run on a healthy local file system; none of them makes a call fail, and each of about 150 call sites can fail on several paths.',
  files=['src/bigfile.c', 'src/bigfile-record.c'],
  mech=[('RAISEIF after each fallible call', 'src/bigfile-internal.h'), ('goto cleanup ladders returning -1', 'src/bigfile.c')],
  technique='interprocedural failure-propagation typestate over LLVM IR',
  note='Every fallible call site of the serial library is forked into success and failure on every abstract path; the return value on every path after the first failure must be provably a failure value. Trusts the IR, the C library failure model (assumptions in the evidence) and the join rules of the engine.'),
 dict(id='C02', title='Unsaved changes to a block stay marked until they have been written',
  statement='Every operation that changes what a block\'s header or attribute file should contain (data type, member count, files and their sizes and checksums; attributes set or removed) leaves the block or its attribute set marked as modified unless it has written the change itself. '
            'Flushing and closing write whatever is marked, and remove a mark only after the writing of that part succeeded.',
  over=['histories', 'fault_sequences'], quant='every order of create, grow, write, set and remove attribute, flush and close, and every failure in between',
  why='A lost mark only shows when the block is closed and opened again after that particular history, or when a write fails in the middle.',
  files=['src/bigfile.c', 'src/bigfile-mpi.c'],
  mech=[('block->dirty and attrset->dirty', 'src/bigfile.c'), ('big_block_flush', 'src/bigfile.c')],
  technique='must-mark typestate over LLVM IR (data change obliges a mark; a mark is cleared only behind a successful write)',
  note='On every abstract path of every function, each store to header data or attribute storage must be followed by a mark or a successful write before a return. The merging of marks between MPI ranks is a property of its own.'),
 dict(id='C03', title='Opening, reading and closing never change anything on disk',
  statement='Opening a file or block, reading data, seeking, looking up, listing and reading attributes, and closing or flushing a block that was not modified perform no operation that can change the file system: files are opened for reading only, and none is created, written, truncated, renamed or removed. '
            'A freshly opened block is not marked as modified, and reading leaves the marks as they were.',
  over=['histories', 'inputs'], quant='every read-only entry point, serial and MPI, every path and every content of the files read',
  why='The tests do not look at what reading does to the files, and formats, attribute versions and error paths multiply the paths.',
  files=['src/bigfile.c', 'src/bigfile-record.c', 'src/bigfile-mpi.c'],
  mech=[('modes passed to _big_file_open_a_file', 'src/bigfile.c'), ('dirty = 0 after opening', 'src/bigfile.c')],
  technique='interprocedural effect analysis with assume-guarantee contracts between entry points over LLVM IR',
  note='Each entry point is analysed with everything that touches files inlined; calls to other entry points use their contracts (no effect when clean), which are checked on their own.'),
 dict(id='C04', title='Existing data files are never truncated or removed',
  statement='A data file that belongs to a block is truncated only when the block is created anew: growing a block creates only files numbered from the block\'s previous file count on, appending records never recreates a column, writing opens data files in place, and nothing in the library removes, renames or truncates a file otherwise.',
  over=['histories', 'inputs'], quant='every function that can open a data file, every file number and rank',
  why='Tests check the data they wrote, in the orders they wrote it; truncating a neighbour file or the wrong range needs particular file counts, ranks or histories.',
  files=['src/bigfile.c', 'src/bigfile-record.c', 'src/bigfile-mpi.c'],
  mech=[('open modes "r", "r+", "w"', 'src/bigfile.c'), ('truncation loops from oldNfile', 'src/bigfile.c, src/bigfile-mpi.c')],
  technique='abstract-interpretation check of file number ranges and open modes at every opening call site over LLVM IR',
  note='The wrapper that opens files is summarised first (which argument is the mode, which the file number, which numbers are not data); then every call is judged with the linear facts that hold there.'),
 dict(id='C05', title='Block reads and writes transfer exactly the requested items, in bounds',
  statement='big_block_read and big_block_write, when they succeed, have transferred every item of the request exactly once and in order between the caller\'s array and the data file and offset where the position points, for every data type, number of members, buffer size and division into files. '
            'They touch no byte outside the transfer buffer, go past the end of no data file, refuse a request that does not fit into the block before transferring anything, make progress in every round, and leave the position behind the last item.',
  over=['inputs', 'configurations'], quant='every request size, position, item size, buffer size and division into files',
  why='Files, chunks and requests end at different places; the tests use buffers larger than their arrays and a few divisions into files.',
  files=['src/bigfile.c'],
  mech=[('chunk loops of big_block_read and big_block_write', 'src/bigfile.c'), ('CHUNK_BYTES, set by big_file_set_buffer_size', 'src/bigfile.c')],
  technique='abstract interpretation (linear relations) of the transfer loops over LLVM IR with a transfer typestate',
  note='Loop invariants are found by the analysis: what is left plus what was moved is the request. Assumes that the position given lies inside the file it names and that sizes do not overflow 64 bits.'),
 dict(id='C06', title='Each data file\'s checksum grows by exactly the bytes written to it',
  statement='Every byte that a block write puts into a data file is added once, unsigned, to the checksum of that data file, after conversion to the type on disk; nothing else is added, and no other operation changes the checksums of an existing block, except the merging of the ranks\' contributions by a reduction in MPI.',
  over=['inputs', 'configurations'], quant='every write, every buffer, every data file, every function of the library',
  why='Nothing verifies checksums when reading, so an error in them is only seen by the separate checking tool on files written in a particular way.',
  files=['src/bigfile.c', 'src/bigfile-mpi.c'],
  mech=[('sysvsum', 'src/bigfile.c'), ('bb->fchecksum', 'src/bigfile.c')],
  technique='typestate pairing of writes and checksum updates, loop-invariant proof of the summing function, store-effect analysis, over LLVM IR',
  note='Assumes 32-bit wrap-around, as the sysv sum has. A write that fails may leave the sum ahead of the file.'),
 dict(id='C07', title='Positions: a seek stores the file and offset that hold the item asked for',
  statement='big_block_seek accepts exactly the offsets from 0 to the size of the block, and the negative ones that count back from its end; it then stores an existing file number and a non-negative offset in that file which add up to the offset asked for, in the file that holds that item (the last file for the end of the block). '
            'A seek that is refused leaves the position alone; a relative seek goes to the position plus the distance; big_block_eof is true exactly at the end.',
  over=['inputs', 'configurations'], quant='every offset, every division of a block into files, empty files included',
  why='The binary search has to be right for every division into files; a wrong file is only noticed at particular boundaries.',
  files=['src/bigfile.c'],
  mech=[('big_block_seek, big_block_seek_rel, big_block_eof', 'src/bigfile.c')],
  technique='abstract interpretation (linear relations, inferred loop invariants) over LLVM IR',
  note='Assumes the offset table that C08 is about: it starts at 0 and ends at the size. fileid, roffset and aoffset are the only things judged.'),
 dict(id='C08', title='File sizes, offsets and checksums of a block always fit together',
  statement='After a block was created, opened or grown successfully, its file tables are consistent: every file has a size taken from the request or the header and its own checksum; the offset of each file is the sum of the sizes of all files before it, starting at 0; the size of the block is the sum of all file sizes. '
            'Growing keeps the sizes and checksums of the files that were there and appends the new files behind them, in order, with checksums that start at zero.',
  over=['inputs', 'histories'], quant='every number of files and every sizes, every header content and any order of creating, growing and opening again',
  why='Every later position and transfer is computed from these tables; an error in one entry shows only with more files, or empty files, or after growing a block of a certain layout.',
  files=['src/bigfile.c'],
  mech=[('foffset running sums', 'src/bigfile.c'), ('_big_block_grow_internal', 'src/bigfile.c'), ('header parsing in _big_block_open', 'src/bigfile.c')],
  technique='abstract interpretation of table-filling loops with array ghosts (inferred loop invariants) over LLVM IR',
  note='Sizes and their sums are assumed to fit 64 bits. Text parsing of the header is modelled as: a successful sscanf stores unknown values.'),
 dict(id='C09', title='Creating and growing a block creates every new data file',
  statement='When creating or growing a block succeeds, every data file from the first new one to the last exists in the directory of the block, also those that hold no items and under MPI whatever the number of ranks: the shares of the ranks cover all new files, and the files of a rank follow one another without a gap.',
  over=['inputs', 'configurations'], quant='every number of files, old files and ranks, every sizes',
  why='A missing file shows only when data that falls into it is read, and needs a number of files and ranks, or an empty file, that the tests do not have.',
  files=['src/bigfile.c', 'src/bigfile-mpi.c'],
  mech=[('truncation loops of _big_block_create and big_block_grow', 'src/bigfile.c'), ('shares Nfile * rank / NTask', 'src/bigfile-mpi.c')],
  technique='abstract interpretation of file-creating loops with a counting ghost, and algebraic check of the shares of the ranks, over LLVM IR',
  note='Shares have to be contiguous or strided by the number of ranks. Products of file counts and ranks are assumed not to overflow.'),
 dict(id='C10', title='A failure on one rank is reported by the MPI operation on every rank',
  statement='When a step of a parallel operation (open, create, grow, read, write, flush, close, records) fails on any rank, the operation returns a failure on all ranks of its communicator; it returns a failure only if some rank failed.',
  over=['fault_sequences', 'schedules'], quant='every fallible step of every parallel operation, on every rank and in every group or segment of ranks',
  why='The tests run no parallel operation in which a step fails, let alone on one rank only.',
  files=['src/bigfile-mpi.c'],
  mech=[('BCAST_AND_RAISEIF', 'src/bigfile-mpi.c'), ('big_file_mpi_broadcast_anyerror', 'src/bigfile-mpi.c')],
  technique='interprocedural failure-propagation typestate, situation analysis of the agreement function and uniformity dataflow, over LLVM IR',
  note='MPI calls themselves and memory allocation are assumed to succeed.'),
 dict(id='C11', title='All ranks make the same collective calls with matching arguments',
  statement='No parallel operation can leave ranks waiting for each other: whatever the ranks\' data, sizes, errors and roles, all ranks of a communicator make the same sequence of collective calls on it, with the same counts, types, operations and roots.',
  over=['schedules', 'fault_sequences', 'configurations'], quant='every collective call of the MPI layer, every number of ranks, groups and segments, every failure on any rank',
  why='A mismatch is a deadlock that needs a failure or an empty part on one rank only, or a particular grouping of ranks.',
  files=['src/bigfile-mpi.c', 'src/mp-mpiu.c'],
  mech=[('collective calls of the MPI layer', 'src/bigfile-mpi.c'), ('segments and groups', 'src/mp-mpiu.c')],
  technique='uniformity (rank-divergence) dataflow with a lattice of communicators and control dependence over LLVM IR',
  note='All ranks are assumed to call the operation with the same arguments (except their own data).'),
 dict(id='C12', title='What the ranks did to a block is merged exactly once',
  statement='What each rank of a parallel operation adds to the checksums of a block, and whether it modified the block, is combined exactly once, over all files and all ranks, on the rank that writes the header, before the header is written and before the block is replaced on the other ranks; nothing is lost or added up a second time. '
            'After opening, creating, growing or flushing a block in parallel every rank has the description of the block of the root, with all of its parts and attributes, in memory of its own.',
  over=['histories', 'schedules'], quant='every history of opening, writing, growing, flushing and closing in parallel, every distribution of the writes over ranks',
  why='Checksums are not verified when reading, and a sum that is merged twice needs a second flush or an open between writes; a part of the block that was not sent shows on other ranks only.',
  files=['src/bigfile-mpi.c', 'src/bigfile.c'],
  mech=[('reductions in big_block_mpi_flush', 'src/bigfile-mpi.c'), ('big_block_mpi_broadcast', 'src/bigfile-mpi.c'), ('_big_block_pack and _big_block_unpack', 'src/bigfile.c')],
  technique='typestate of each rank\'s additions and symbolic comparison of packing and unpacking, over LLVM IR',
  note='The C library only; the Python layer has a merge of its own. Attributes set on ranks other than the root are not merged.'),
 dict(id='C13', title='Files and memory are released exactly once, on every path',
  statement='Every operation of the library closes each file it opens and releases each buffer it allocates exactly once, whether it succeeds or fails at any step, and uses nothing after it was released. What it keeps belongs to an open file, block, attribute set or record type, or is handed to the caller; '
            'an open or create that fails leaves nothing behind, closing releases everything the object holds even if writing its header fails, and replacing a part of an object releases the old part.',
  over=['fault_sequences', 'histories'], quant='every path through every function of the C library, every step that can fail',
  why='A file or buffer that is lost, or released twice, on a failing path is not noticed by tests that see few failures and look at results only.',
  files=['src/bigfile.c', 'src/bigfile-mpi.c', 'src/bigfile-record.c'],
  mech=[('cleanup labels of big_block_read, big_block_write, _big_block_open', 'src/bigfile.c'), ('_big_block_close_internal', 'src/bigfile.c'), ('big_block_mpi_broadcast', 'src/bigfile-mpi.c')],
  technique='ownership typestate with abstract interpretation over LLVM IR',
  note='Running out of memory, the listing of blocks (linked list of names) and the Python layer are not covered.'),
 dict(id='C14', title='Every failure leaves its own error message; texts are no formats',
  statement='Whenever an operation of the library reports a failure, on any rank, the error message describes a failure of that call, not of an earlier one and not none; a rank that did not fail itself gets the message of a rank that did. '
            'Making and passing on a message never fails: what is formatted for messages and files has a constant format that fits the number and types of its values, and names and messages are never used as formats.',
  over=['fault_sequences', 'inputs'], quant='every failing path of every operation, every text that reaches a formatting function',
  why='Tests look at whether an operation fails, seldom at its message; a format that does not fit its values, or a name with a % in it, shows on failing paths only.',
  files=['src/bigfile.c', 'src/bigfile-mpi.c', 'src/bigfile-record.c'],
  mech=[('_big_file_raise and big_file_set_error_message', 'src/bigfile.c'), ('RAISEIF', 'src/bigfile-internal.h'), ('big_file_mpi_broadcast_anyerror', 'src/bigfile-mpi.c')],
  technique='message typestate by abstract interpretation, situation analysis of the agreement function, and format checking over the LLVM IR',
  note='Formats a caller hands to big_file_dtype_format and big_file_dtype_parse are the caller\'s. The listing of blocks, which cannot report failures, is excluded.'),
 dict(id='C15', title='The command-line tools fail visibly and copy everything',
  statement='A command-line tool (copy, copy-mpi, sample-mpi, create, set-attr, get-attr, ls, cat) that could not read, write, open, save or print what it was asked to exits with a nonzero status (in parallel: the rank that failed does), and success means that all output is written and everything modified was closed without failure. '
            'Tools that copy a block copy every attribute and start from the first row, and copy the data of every block that has any, whatever the size.',
  over=['fault_sequences', 'inputs'], quant='every path through the main function and the workers of each tool, every step that can fail, every number of attributes',
  why='Scripts decide by the exit status whether a file may be removed; the tests run each tool once on good input only.',
  files=['utils/bigfile-copy.c', 'utils/bigfile-copy-mpi.c', 'utils/bigfile-sample-mpi.c', 'utils/bigfile-create.c', 'utils/bigfile-set-attr.c', 'utils/bigfile-get-attr.c', 'utils/bigfile-ls.c', 'utils/bigfile-cat.c'],
  mech=[('main', 'utils/bigfile-copy.c'), ('slave', 'utils/bigfile-copy-mpi.c'), ('main', 'utils/bigfile-create.c'), ('main', 'utils/bigfile-cat.c')],
  technique='error-propagation and modified/unsaved typestate with abstract interpretation over LLVM IR of each tool linked with the library summaries',
  note='bigfile-check (a shell script) and bigfile-iosim (a benchmark) are not covered; which names ls prints and how values are rendered is not judged. Asking get-attr for an attribute that is not there is not a failure.'),
 dict(id='C16', title='The Python layer raises when the library fails',
  statement='Every operation of the Python interface (file, column, attribute set, dataset, record type; also the MPI variants) whose work in the C library failed ends with an exception, never with a result; nothing swallows such an exception, nothing the library returned as missing is used as if it were there, and reporting the failure itself works: '
            'the names and arguments used to make the exception exist. It raises only if something failed.',
  over=['fault_sequences', 'inputs'], quant='every method of the Python layer, every step of it that can fail, every path',
  why='Names in the failing branches of Python are looked up only when the branch runs, and the return code of a C function that is not checked looks like success; the tests make few operations fail.',
  files=['bigfile/pyxbigfile.pyx', 'bigfile/__init__.py'],
  mech=[('ColumnLowLevelAPI', 'bigfile/pyxbigfile.pyx'), ('FileLowLevelAPI', 'bigfile/pyxbigfile.pyx'), ('AttrSet', 'bigfile/pyxbigfile.pyx'), ('Error', 'bigfile/pyxbigfile.pyx'), ('File, FileMPI, Column, ColumnMPI', 'bigfile/__init__.py')],
  technique='path-enumerating abstract interpretation of the Cython and Python syntax trees: return-code typestate, exception flow, name and signature resolution',
  note='Destructors (__dealloc__) cannot report. mpi4py and numpy calls are assumed to report their failures by exceptions.'),
 dict(id='C17', title='What Python hands to the C library fits and lives long enough',
  statement='The memory, descriptions, lengths and types that the Python layer hands to the C library fit each other: arrays are contiguous, as long and of the type the call describes, and hold no Python objects, whatever array, view or list the user passed; texts and buffers live until the call is over; '
            'buffers and lists the library returned are released exactly once; and whether a column holds an open block always agrees with its mark, so a block is closed once and never used closed or leaked by opening another over it.',
  over=['inputs', 'histories'], quant='every array, view, dtype and list a user can pass, every history of opening, closing and collecting a column',
  why='A view with strides, a smaller out buffer or a second open corrupts memory or data silently, and tests pass fresh contiguous arrays.',
  files=['bigfile/pyxbigfile.pyx', 'bigfile/__init__.py'],
  mech=[('AttrSet.__setitem__', 'bigfile/pyxbigfile.pyx'), ('ColumnLowLevelAPI.read, write', 'bigfile/pyxbigfile.pyx'), ('ColumnLowLevelAPI._release', 'bigfile/pyxbigfile.pyx'), ('Dataset.read, write', 'bigfile/pyxbigfile.pyx')],
  technique='path-enumerating abstract interpretation of the Cython syntax tree: array-shape and ownership typestate',
  note='Handles used by several threads at once are not covered.'),
 dict(id='C18', title='Slices, indices and chunks in Python name exactly the rows read and written',
  statement='A row range, slice, index, append or chunked copy in the Python layer reads and writes exactly the rows that it names: columns and datasets are sliced as numpy slices an array of their size (negative numbers count from the end, ends are cut off, what lies outside is an error), chunks are consecutive, do not overlap and cover all rows, and progress is made in each.',
  over=['inputs', 'configurations'], quant='every start, stop, step and index, every size of a column, every item limit',
  why='The tests read a few slices of small columns; off-by-one and sign mistakes show at ends and limits only, and return other rows without any failure.',
  files=['bigfile/pyxbigfile.pyx', 'bigfile/__init__.py'],
  mech=[('ColumnLowLevelAPI.__getitem__', 'bigfile/pyxbigfile.pyx'), ('Dataset.__getitem__', 'bigfile/pyxbigfile.pyx'), ('create_from_array', 'bigfile/__init__.py')],
  technique='symbolic interval and difference reasoning by abstract interpretation of the Cython and Python syntax trees',
  note='What the library does with the rows it is asked for is C05.'),
 dict(id='C19', title='In Python all ranks make the same collective calls and fail together',
  statement='The parallel Python interface cannot leave ranks waiting for each other: whatever the data, sizes, roles and failures of the ranks, all ranks make the same sequence of collective calls with the same roots, and an operation that fails on one rank raises on every rank.',
  over=['schedules', 'fault_sequences'], quant='every collective operation of FileMPI and ColumnMPI, every rank, every failure of one rank alone',
  why='A mismatch is a deadlock that needs a failure or an empty part on one rank only; the tests make all ranks succeed with equal parts.',
  files=['bigfile/pyxbigfile.pyx', 'bigfile/__init__.py'],
  mech=[('FileMPI', 'bigfile/__init__.py'), ('ColumnMPI', 'bigfile/__init__.py'), ('ColumnLowLevelAPI._MPI_flush, _MPI_close', 'bigfile/pyxbigfile.pyx')],
  technique='uniformity and collective-sequence analysis by abstract interpretation of two ranks over the Cython and Python syntax trees',
  note='Column.append of a parallel column is documented as not safe for parallel use and is not covered. Exceptions inside numpy, such as running out of memory on one rank, are not covered.'),
 dict(id='C20', title='The header that is saved is the header that is read',
  statement='The header of a block that is saved is the header that opening the block reads: the same fields with the same meaning in the same order and in formats that agree, and one record for each data file, in order, with the number, size and checksum of that file. '
            'Opening accepts every header that flushing saves, for any number and size of files, and creating a block accepts only data types that opening accepts.',
  over=['inputs', 'histories'], quant='every data type, member count, number of files and size of files a block can have',
  why='Writer and reader are apart, in different functions with different formats; what only shows with many files, large sizes, empty files or unusual data types is not in the tests.',
  files=['src/bigfile.c'],
  mech=[('big_block_flush', 'src/bigfile.c'), ('_big_block_open', 'src/bigfile.c'), ('_big_block_create_internal', 'src/bigfile.c'), ('dtype_isvalid', 'src/bigfile.c')],
  technique='format agreement and path conditions of writer against reader by abstract interpretation over LLVM IR',
  note='The checksum is compared as a field; that it accumulates what is written is C06, the table of files in memory is C08.'),
 dict(id='C21', title='Converting data types leaves the source alone and keeps the values',
  statement='Converting items from one data type to another changes only the destination: the memory of the source is never written. Each number is read as what the source type says (size, signedness, integer or floating point, byte order), converted, and stored as what the destination type says; '
            'bytes are swapped inside one number (each part of a complex number), every item is converted once and in order, and all pairs of the documented numeric types convert.',
  over=['inputs', 'configurations'], quant='every pair of data types and byte orders, every number of items',
  why='There are over a hundred pairs and the tests convert between few, hardly ever across byte orders; what happens to the source is not looked at.',
  files=['src/bigfile.c'],
  mech=[('_dtype_convert', 'src/bigfile.c'), ('cast', 'src/bigfile.c'), ('byte_swap', 'src/bigfile.c')],
  technique='abstract interpretation over LLVM IR of the conversion for each pair of types, judging loads, conversions and stores',
  note='Judged for a little-endian machine. Rounding and overflow of the numbers themselves are those of C.'),
]
