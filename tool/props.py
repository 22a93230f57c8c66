"""Source of properties.jsonl and MANIFEST.json:  python3 tool/props.py  rewrites both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, CH, NA = [], [], []


def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = list(observe)
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': a})


def check(id, technique, note, level='other'):
    c = 'python3 checks/%s.py' % id.lower()
    CH.append({'property': id, 'quick_cmd': c, 'thorough_cmd': c + ' --thorough', 'technique': technique,
               'level': level, 'level_note': note})


def na(id, reason):
    NA.append({'property': id, 'reason': reason})


STD = 'Decided on the LLVM IR of the whole linked program; trusts clang, the C++ library model and the call graph (class hierarchy analysis). '

prop('C01', 'Standard out carries only the requested data',
     'When the result of a run goes to standard out, the bytes on standard out are exactly the bytes the program would have written to the '
     'output file; no message, statistic or warning of any verbosity level is ever written there. Only the help text, after which the program '
     'ends without processing anything, may go to standard out otherwise.',
     ['inputs', 'configurations'], 'every input, option combination and verbosity level of the four programs',
     'Tests link the library classes and never look at what the programs print; a message on a rare path (verbosity, unusual data) is not sampled.',
     ['Streams.cpp', 'compress.cpp', 'uncompress.cpp', 'preprocess.cpp', 'postprocess.cpp', 'preprocessors/Precompressor.cpp', 'EntropyCoders.cpp'],
     [('messages go to clog/cerr/stderr', 'all'), ('only the output stream class holds the stdout FILE', 'Streams.cpp RawOutStream')], ['standard out of the programs'])
check('C01', 'effect analysis over the call graph (who may write standard out)',
      STD + 'Complete for writes through the C and C++ standard streams and file descriptor 1.')

prop('C02', 'The verbosity level never changes what is produced',
     'For the same input and options, the bytes a program writes to its output and its exit status are the same at every verbosity level. '
     'The level only decides which messages appear on standard error.',
     ['inputs', 'configurations'], 'every input and every value of the verbosity option of the four programs',
     'The tests run at one verbosity level.',
     ['compress.cpp', 'WaveletCoders.cpp', 'BWTBlock.cpp', 'preprocessors/Precompressor.cpp', 'preprocessors/PairReplacer.cpp', 'HuffmanCoders.cpp'],
     [('code under a verbosity test only formats messages', 'every `if(verbosity > n)`')], ['output file', 'exit status'])
check('C02', 'information-flow (non-interference) analysis from the verbosity setting',
      STD + 'Tracks data flow through values, members and parameters and control flow through branch regions; effects inside a region '
      'guarded by a verbosity-derived value may only touch message streams and storage that nothing else reads.')

prop('C05', 'Output that could not be written is never reported as success',
     'If the input or output file cannot be opened, or any write, flush, seek or close of the output fails, the program ends with a nonzero exit status. '
     'All data is pushed to the operating system, with the result checked, before a program ends successfully.',
     ['fault_sequences', 'inputs'], 'every output operation in the four programs, failing at any point of any run',
     'The tests write to healthy files only; full disks, closed pipes and unwritable files are never sampled.',
     ['Streams.cpp', 'Streams.hpp', 'Compressor.cpp', 'Decompressor.cpp'],
     [('failed stdio calls end in fail(), which exits with 1', 'Streams.cpp RawOutStream'), ('the destructor flushes and closes', 'Streams.cpp ~RawOutStream')],
     ['exit status'])
check('C05', 'interprocedural error-propagation dataflow from every output call, plus a flushed-before-exit typestate',
      STD + 'Every call site is bound to its documented failure value and all feasible continuations are followed to the end of the program.')

prop('C06', 'Input that ends early or cannot be read is never reported as success',
     'If reading the input fails with an error, every program ends with a nonzero exit status. If an archive ends before its end marker, '
     'at any byte, the decoding programs (uncompress and postprocess) end with a nonzero exit status.',
     ['fault_sequences', 'inputs'], 'every read of the input in any run, failing or meeting the end of the file',
     'The tests decode only complete archives that they have just produced.',
     ['Streams.cpp', 'Streams.hpp', 'PrecompressorBlock.cpp', 'Decompressor.cpp', 'postprocess.cpp'],
     [('needByte exits when the input has ended', 'Streams.cpp RawInStream::needByte'), ('read errors exit in fetchByte and peekByte', 'Streams.cpp'),
      ('a short block is rejected', 'PrecompressorBlock.cpp readBlockHeader')], ['exit status'])
check('C06', 'interprocedural error-propagation dataflow from every input call',
      STD + 'Every read is bound to "nothing read" (error, and end of file in the decoders) and block reads to a short count.')

prop('C16', 'Wrong options are rejected before anything is touched',
     'A command line that cannot be parsed or that has a value outside the documented ones ends the program with a nonzero exit status before any file '
     'is opened or created. The options with documented values accept exactly those: the entropy coders H, M, m, b, B, u, the transforms d, s, a, '
     'preprocessing strings of the letter p, and 1 to 256 starting points.',
     ['inputs', 'configurations'], 'every command line of the four programs',
     'No test runs the programs or their option handling.',
     ['compress.cpp', 'uncompress.cpp', 'preprocess.cpp', 'postprocess.cpp', 'bwtransforms/BWTManager.cpp'],
     [('notifiers throw for invalid values', 'compress.cpp validate*'), ('main catches, reports and returns 1', 'compress.cpp main')], ['exit status', 'files'])
check('C16', 'error propagation, must-precede and constant-propagation dataflow over option handling',
      STD + 'All 256 characters (and every comparison region of the numeric option) are propagated as constants through the validators; a validator the '
      'analysis cannot evaluate is listed as undecided in the evidence.')

prop('C17', 'The input file is only read, and is open before the output is created',
     'No program ever modifies or removes its input file: it is opened for reading only, and the output file is created or truncated only after the '
     'input has been opened successfully. The file read is the one named as input and the file written the one named as output, '
     'and with --stdin or --stdout no named file is used for that direction.',
     ['inputs', 'fault_sequences', 'configurations'], 'every run of the four programs, including those whose input cannot be opened',
     'The tests construct the stream classes themselves on files that exist.',
     ['Streams.cpp', 'Compressor.hpp', 'Compressor.cpp', 'Decompressor.hpp', 'Decompressor.cpp', 'compress.cpp', 'preprocess.cpp', 'postprocess.cpp'],
     [('member order: input stream before output stream', 'Compressor.hpp, Decompressor.hpp'), ('fopen modes', 'Streams.cpp')], ['files'])
check('C17', 'who-may-open rule, must-precede and string-origin dataflow over the call graph',
      STD + 'Covers the C and C++ file APIs by name; a file name whose origin cannot be traced is listed as undecided in the evidence.')

prop('C03', 'Release builds and checking builds do the same',
     'For the same input and options, a release build (compiled with NDEBUG) and a build with assertions produce the same output and exit status as long as '
     'no assertion fails. Assertions and other code that only one of the two builds contains only observe: they change no data that code common to both uses, '
     'and do not decide what it does.',
     ['inputs', 'configurations'], 'every input and option combination, in both build types',
     'The tests are always built with assertions, so what a release build leaves out is never missed by them.',
     ['BitCoders.cpp', 'WaveletTree.hpp', 'WaveletCoders.cpp', 'HuffmanCoders.cpp', 'preprocessors/PairReplacer.cpp', 'preprocessors/Grammar.cpp', 'Utils.cpp'],
     [('assert and #ifndef NDEBUG code has no side effects', 'all')], ['output', 'exit status'])
check('C03', 'differential effect analysis of the unoptimised IR of the two builds',
      STD + 'Every instruction present in one build only is classified; decides the property completely up to exceptional paths.')

prop('C10', 'Probability models stay in range for every bit history',
     'Whatever sequence of bits is coded, with whatever resets in between, every probability that a model hands to the range coder lies between 0 and 4096, '
     'and no model ever leaves its state tables. This holds for the models of all entropy-coder choices and for the integer and gap models.',
     ['inputs', 'configurations'], 'all sequences of update, updateState and resetModel calls on each of the seven models',
     'A test codes a few sequences; the states of the models depend on the whole history of bits.',
     ['probmodels/ProbabilityModel.cpp', 'probmodels/BitPredictors.hpp', 'probmodels/FSM.hpp'],
     [('clamped counters and bounded state numbers', 'probmodels/*'), ('BOOST_STATIC_ASSERT on the template arguments', 'probmodels/BitPredictors.hpp')],
     ['ProbabilityModel::probabilityOfOne'])
check('C10', 'abstract interpretation: value-set fixpoint over the model objects',
      STD + 'Covers every reachable combination of cell values of each model object (cells taken as independent); models the evaluation cannot follow are listed as undecided.')

prop('C11', 'The decoder uses the coder and models that the encoder used',
     'For each choice of entropy coder (H, M, m, b, B, u) the archive starts with that letter, and uncompress, reading it, uses the decoder that belongs to the '
     'encoder, with the same probability model in each role (tree bits, integer codes, gaps). Both sides start the models in the same state, '
     'and at the end of a context block both reset the same models to the same state.',
     ['inputs', 'configurations'], 'every entropy-coder choice and every history of context blocks',
     'Encoder and decoder are linked into different programs; tests exercise single classes, with few of the choices.',
     ['compress.cpp', 'Compressor.cpp', 'Decompressor.cpp', 'EntropyCoders.cpp', 'WaveletCoders.cpp', 'probmodels/ProbabilityModel.cpp'],
     [('the letter is the global header', 'Compressor.cpp writeGlobalHeader, Decompressor.cpp readGlobalHeader'),
      ('factories', 'EntropyCoders.cpp, probmodels/ProbabilityModel.cpp'), ('endContextBlock resets', 'WaveletCoders.cpp')], ['first byte of the archive'])
check('C11', 'constant propagation through constructors and factories of both programs, with comparison of the abstract object graphs',
      STD + 'Complete for the six letters; when a side cannot be evaluated the letter is listed as undecided in the evidence.')

prop('C15', 'The range decoder takes back every step of the range encoder',
     'For every state of the range, every probability from 0 to 4096 and both values of the bit, the decoder, holding any value of the subrange the encoder chose, '
     'returns that bit and continues with the same range, reading as many bytes as the encoder wrote. No subrange is ever empty, both sides begin every sequence with '
     'the full range, and the four bytes the encoder ends a sequence with are the four the decoder has read ahead and stand for a value of the final range.',
     ['inputs', 'histories'], 'all states (low, high), probabilities and bits, hence all sequences of coded bits',
     'A test codes a few sequences; the range takes 2^64 states and the critical ones (narrow ranges, certain probabilities) are rare.',
     ['BitCoders.cpp', 'BitCoders.hpp'],
     [('Split is shared', 'BitCoders.cpp'), ('renormalisation loops of encode and decode', 'BitCoders.cpp'), ('finish and start', 'BitCoders.cpp')],
     ['bytes of a coded sequence'])
check('C15', 'value-graph comparison (global value numbering with bit-level and linear normal forms) of encoder and decoder steps',
      STD + 'Proves the step for all states when the two value graphs agree; forms that differ are listed as undecided unless constant propagation of a boundary state shows a difference.')

prop('C09', 'The numbers in the headers are read back as they were written',
     'Every number in the headers of an archive comes back from the reading functions with the value the writing functions were given, for every value the field can '
     'take: packed integers of up to 56 bits, the size and the slice count of a block, 1 to 256 starting points of 31 bits, 1 to 256 section lengths, and the end marker. '
     'Each reader consumes exactly the bytes its writer produced, and the length a writer reports is the number of bytes it wrote.',
     ['inputs'], 'all values of the fields and all counts from 1 to 256',
     'Tests write and read a few small values; the byte-length boundaries (2^7, 2^14, ... 2^56), 256 entries and paddings of every length are not sampled.',
     ['BWTBlock.cpp', 'PrecompressorBlock.cpp', 'WaveletCoders.cpp', 'HuffmanCoders.cpp', 'Utils.cpp', 'Utils.hpp'],
     [('packInteger / unpackInteger', 'Utils.cpp'), ('writeHeader / readHeader', 'BWTBlock.cpp'), ('writeBlockHeader / readBlockHeader', 'WaveletCoders.cpp, HuffmanCoders.cpp, PrecompressorBlock.cpp')],
     ['bytes of the archive', 'fields after reading'])
check('C09', 'value-graph dataflow: the bytes a writer leaves, as bit-level terms over the fields, are propagated through the reader and compared with the fields',
      STD + 'Case analysis over lengths and counts (all 57 bit lengths; counts 1 to 256 in the thorough tier, 42 and 21 of them in the quick tier), all bits of the values '
      'symbolic, no solver. The length field of a block is checked for its position only; grammars other than the empty one are outside.')

prop('C07', 'The output file is the exact sequence of the bytes handed to the stream',
     'Whatever mixture of single bytes, blocks of any size, flushes, position queries and length patches is written, and wherever the internal buffer fills up, the output '
     'consists of exactly these bytes in this order: none lost, repeated or moved. A reported position counts every byte written so far, and a patch of six bytes (most '
     'significant first) changes exactly the six bytes at its position and leaves the stream at the end.',
     ['inputs', 'histories'], 'every sequence of operations, every fill level of the buffer, every block size',
     'Tests write a handful of sizes; the boundaries are at multiples of the 64 KB buffer combined with earlier unflushed bytes.',
     ['Streams.cpp', 'Streams.hpp'],
     [('buffer and fill count', 'Streams.cpp RawOutStream::writeByte, writeBlock, flush'), ('positions', 'Streams.cpp RawOutStream::getPos, write48bits'), ('the rest is written at the end', 'Streams.cpp ~RawOutStream')],
     ['bytes of the output file'], [('m_filled', 'number of bytes waiting in the buffer', 'Streams.hpp RawOutStream')])
check('C07', 'value-graph dataflow of every stream operation from an arbitrary fill level, followed as a ledger of file and waiting bytes (typestate of the buffer)',
      STD + 'The step of every operation is shown for any number of waiting bytes and any block size; boundary states by constant propagation decide buffer overruns. '
      'Success of the stdio calls is assumed (failures are C05).')

prop('C08', 'The input stream hands out every bit of the input once and in order',
     'Every byte, bit, 48-bit number and block taken from the input stream consists of exactly the next bits of the input, whatever values the bytes have and wherever the '
     'internal buffer has to be refilled. Single bits come most significant first, a byte may start inside a byte, and after the stream is aligned the next byte is the next '
     'whole byte of the input. A block read returns the number of bytes up to the limit or the end of the input.',
     ['inputs', 'histories'], 'every input, every mixture of read operations, every position in the buffer, every bit position',
     'Tests read files of one repeated letter and compare lengths; refills in the middle of an operation, the byte 0xFF and unaligned reads are not sampled.',
     ['Streams.cpp', 'Streams.hpp'],
     [('refilled buffer', 'Streams.cpp RawInStream::fetchByte, readBlock'), ('bit buffer', 'Streams.hpp RawInStream::readBit, readByte, flushBuffer'), ('read48bits', 'Streams.cpp')],
     ['values returned by the read operations'], [('m_bigbuf_left, m_bigbuf_pos', 'bytes left in the buffer and where they begin', 'Streams.hpp RawInStream'), ('m_bitsInBuffer', 'bits left of a started byte', 'Streams.hpp RawInStream')])
check('C08', 'value-graph dataflow of the read operations over an input of unknown bytes; fields extrapolated from byte to byte and the step proved (induction by widening)',
      STD + 'The byte step is shown for any position and fill; all eight bit positions and the refill boundaries are covered by operation sequences of depth three with all data bits symbolic. '
      'Reads past the end are C06 and C17.')

prop('C04', 'The result depends on the input and the options only',
     'The bytes the four programs write and their exit status are a function of the input and the options: nothing taken from the clock, random numbers, the process, '
     'the environment, the addresses of objects or memory that was never set decides about them. What a compressor or decompressor produces is also independent of what the same '
     'process compressed or decompressed before.',
     ['inputs', 'histories'], 'every input and option, every earlier use of the library in the same process',
     'A test sees one run in one environment; leftovers of an earlier run or of memory that happens to be zero do not show in it.',
     ['Compressor.cpp', 'Decompressor.cpp', 'WaveletTree.hpp', 'HuffmanCoders.cpp', 'preprocessors/PairReplacer.cpp', 'preprocessors/Grammar.cpp', 'probmodels/ProbabilityModel.cpp'],
     [('frequency tables and histories are cleared before use', 'PairReplacer.cpp, ProbabilityModel.cpp, WaveletTree.hpp'), ('no state outside the objects of one run', 'whole program')],
     ['bytes of the output', 'exit status'])
check('C04', 'information flow (taint) analysis from outside and global sources, definite-initialisation dataflow, and a lint for orderings by address',
      STD + 'Arrays count as set once any element is stored independently of its old value; a static buffer that is written while working counts as memory of earlier runs.')

prop('C12', 'Stored block lengths and the reported size are numbers of bytes written',
     'The 48-bit length in front of every Burrows-Wheeler block of an archive is the number of bytes of that block that follow the length field. '
     'The size compress reports ("Compressed size is N", the value returned by Compressor::compress) is the number of bytes it has written to the archive. '
     'Both hold for either entropy coder, for every number of blocks, slices, sections and starting points.',
     ['inputs', 'histories'], 'every input and every sequence of blocks',
     'The decoder does not use the length and the tests do not look at it or at the reported size; a miscount shows only in particular headers or from the second block on.',
     ['HuffmanCoders.cpp', 'WaveletCoders.cpp', 'BitCoders.hpp', 'BitCoders.cpp', 'BWTBlock.cpp', 'PrecompressorBlock.cpp', 'preprocessors/Grammar.cpp', 'Compressor.cpp'],
     [('length field', 'HuffmanEncoder::finishBlock, WaveletEncoder::finishBlock'), ('size of the archive', 'Compressor::compress')],
     ['bytes 0 to 5 of each block, the message of compress -v 1'])
check('C12', 'affine-equality abstract interpretation (Karr), interprocedural by summaries: relations between the counters of the program and a ghost count of bytes written; '
      'at every write48bits the value must equal the bytes written since the field, and what Compressor::compress returns the bytes it wrote',
      STD + 'Counts obtained by division (flags and rule lengths of the grammar) are assumed right and listed in the evidence; relies on C09 for packInteger; counters do not wrap.')

prop('C13', 'Coder and decoder take their models through the same steps',
     'While a wavelet tree is coded, every bit is coded with the current probability of a model, and the coder and the decoder perform the same model operations in the same order '
     'around it: the same model predicts the bit, the bit itself (not another value) is fed to it, and the state of the main model follows the gap bits on both sides. '
     'The models are reset at the same places on both sides, between nodes, levels and sections, so that a decoder that received the same bits predicts the same.',
     ['inputs', 'histories'], 'every sequence of tree nodes, bits and sections',
     'A missing or extra step shows only in trees of a certain shape or with several sections, and with models that have learned something by then.',
     ['WaveletTree.hpp', 'WaveletCoders.cpp'],
     [('coding of the nodes', 'WaveletTree.hpp encodeTreeBF and decodeTreeBF'), ('resets between sections', 'WaveletCoders.cpp endContextBlock')],
     ['uncompressed data'])
check('C13', 'event-order dataflow: successor relation of the model operations in coder and decoder, per model, with the relation of the bits fed to the bits coded',
      STD + 'Compares which operations can follow each other, not under which data conditions a bit is coded; a model chosen through a variable makes the comparison undecided.')

prop('C14', 'Every piece of memory taken is released exactly once, and by its own means',
     'Memory obtained with new, new[] or malloc and held in a local variable is released on every ordinary path through the function, with the operation that belongs to it, '
     'once, and is not used afterwards; memory held in a member of an object is released by its destructor on every path (tree nodes: together with the node they hang from). '
     'A member that the constructor has filled is not given new memory before the old memory is released.',
     ['inputs', 'histories'], 'every ordinary path through every function that allocates, and every order of the calls that hand memory on',
     'Tests do not look at memory; leaks and double releases on rare paths leave the output as it is.',
     ['Compressor.cpp', 'Decompressor.cpp', 'PrecompressorBlock.cpp', 'HuffmanCoders.cpp', 'WaveletTree.hpp', 'WaveletCoders.cpp', 'Streams.cpp', 'Utils.cpp',
      'bwtransforms/divsufsort.c', 'bwtransforms/sais.hxx', 'bwtransforms/MtlSaInverseBWT.cpp', 'probmodels/ProbabilityModel.cpp'],
     [('release of tree nodes', 'WaveletTree.hpp destroy'), ('release of blocks', 'Compressor.cpp compress, Decompressor.cpp decompress')],
     ['memory use of a run'])
check('C14', 'typestate analysis of allocations with interprocedural summaries (keeps, releases, returns new memory), path-sensitive in the conditions that decide releases',
      STD + 'Paths taken by exceptions are not followed, nor are pointers that are put into containers.')

prop('C18', 'Running out of memory or an internal exception is never reported as success',
     'If an allocation yields no memory (malloc or realloc returns null, new throws) or any exception is thrown inside, the program does not end with exit status 0: '
     'the failure reaches the exit status through every caller, and no block that could not be transformed is passed on as if it had been. '
     'Whatever catches an exception leads to a nonzero exit status or an abnormal end.',
     ['fault_sequences'], 'every allocation and every place that catches exceptions, whatever call chain led there',
     'The tests never make an allocation fail; a swallowed failure shows only when memory is short.',
     ['bwtransforms/divsufsort.c', 'bwtransforms/Divsufsorter.hpp', 'bwtransforms/sais.hxx', 'PrecompressorBlock.cpp', 'Utils.hpp', 'compress.cpp', 'uncompress.cpp',
      'preprocess.cpp', 'postprocess.cpp'],
     [('result of the transforms', 'bwtransforms/Divsufsorter.hpp checkResult'), ('exceptions', 'main of the four programs')],
     ['exit status, archive written before the end'])
check('C18', 'interprocedural error-propagation analysis: every allocation that reports failure by a null pointer is bound to null and every catching landing pad is entered '
      'with an exception; no feasible continuation through any caller may end the program with status 0',
      STD + 'An uncaught exception, abort or invalid memory access at address null ends the program with a nonzero status.')

prop('C20', 'Archives give back the original bytes',
     'For every input, every preprocessing string, transform, entropy coder, number of starting points and memory limit, uncompress of what compress produced is the input, '
     'and postprocess of what preprocess produced is the input.',
     ['inputs'], 'every input and option', 'No set of samples covers all inputs.',
     ['compress.cpp', 'uncompress.cpp', 'preprocess.cpp', 'postprocess.cpp'], [('round trip', 'Compressor.cpp, Decompressor.cpp')], ['the restored file'])
na('C20', 'full functional correctness of a whole compression chain over all inputs: it needs inductive arguments about suffix sorting, tree shapes, grammars and code tables over unbounded '
          'data that no dataflow or abstract-interpretation domain in reach expresses. The parts of it that are structural are claimed separately (C07, C08, C09, C11, C13, C15).')

prop('C21', 'Pair replacement and its grammar lose nothing',
     'For every block, applying the rules of the grammar written with it to the preprocessed data gives back the block: free and special symbols are chosen so that no replaced pair is ambiguous.',
     ['inputs'], 'every block and every number of preprocessing rounds', 'The choice of rules depends on the data in ways no sample exhausts.',
     ['preprocessors/PairReplacer.cpp', 'preprocessors/Grammar.cpp', 'preprocessors/Postprocessor.cpp'], [('replacement', 'preprocessors/PairReplacer.cpp')], ['the restored block'])
na('C21', 'quantifies over run-time symbol frequencies and the rules chosen from them; unambiguity of the result is a relation between data-dependent tables that no static domain in reach bounds.')

prop('C22', 'Both Burrows-Wheeler transforms agree, and the inverses invert them',
     'divsufsort and SA-IS give the same transformed bytes and starting points for every block, and each inverse transform restores the block from them.',
     ['inputs'], 'every block of 1 to 2^31-2 bytes', 'Suffix sorting has data-dependent branches that samples do not reach.',
     ['bwtransforms/divsufsort.c', 'bwtransforms/sais.hxx', 'bwtransforms/MtlSaInverseBWT.cpp', 'bwtransforms/InverseBWT.cpp'], [('transform', 'bwtransforms')], ['the transformed block'])
na('C22', 'functional correctness of suffix sorting algorithms: a proof needs invariants over permutations of unbounded arrays, out of reach of dataflow or abstract interpretation.')

prop('C23', 'No access outside of an object for any input or archive',
     'Compressing any input and uncompressing any archive, damaged ones included, never reads or writes outside of the objects of the program.',
     ['inputs'], 'every input and archive', 'Samples reach only few index values.',
     ['WaveletTree.hpp', 'HuffmanCoders.cpp', 'preprocessors', 'bwtransforms'], [('indices', 'all array accesses')], ['memory accesses'])
na('C23', 'indices come from data-dependent permutations, code tables and unchecked archive fields; a sound bound check would alarm on hundreds of correct accesses, and for damaged archives the '
          'code really trusts its input. The provable part about the models is claimed as C10, the ownership part as C14.')

prop('C24', 'Memory stays within the limit of --mem',
     'The memory a run of compress uses stays near the limit given with --mem, whatever the input.', ['inputs'], 'every input and limit', 'Peak memory depends on the data.',
     ['Compressor.cpp'], [('block sizes', 'Compressor.cpp compress')], ['peak memory'])
na('C24', 'the factors in the code are empirical estimates and the true usage depends on allocator and data; there is no exact bound to decide.')

prop('C25', 'Every run ends',
     'Every program terminates for every input and archive.', ['inputs'], 'every input and archive', 'Non-termination shows only on special data.',
     ['WaveletTree.hpp', 'HuffmanCoders.cpp', 'bwtransforms', 'preprocessors'], [('loops', 'all loops')], ['termination'])
na('C25', 'ranking functions of the sorting and decoding loops depend on data invariants (permutations, code completeness, symbol counts) that cannot be established statically here.')

#--NEXT--

if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    claimed = {c['property'] for c in CH}
    assert {p['id'] for p in P} == claimed | {n['property'] for n in NA}
    json.dump({'version': 1, 'setup_cmd': 'python3 tool/setup.py', 'checks': CH, 'not_applicable': NA},
              open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
