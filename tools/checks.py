"""One entry per claimed property: what is built, how many cases, what counts."""
MAP = ['sim', 'world', 'gen', 'main', 'drivers', 'jworld', 'format', 'big']
GEN = ('Case i is a pure function of (VERIF_SEED, i): chip geometry (256..2048-byte pages, 2..32 pages per block, 4..hundreds of '
       'blocks), gc ratio 0..255, bad blocks, sector numbers over the full 32-bit range, page contents (random, all 0xff, all 0, '
       'look-alike checkpoint pages) and a list of operations. ')
SIM = ['The NAND layer behaves as the simulated chip of harness/sim.cpp does (the documented dhara_nand_* contract).',
       'One call at a time per instance; geometries up to a few thousand pages, and sparsely stored ones up to 2^31 pages.']


def e(count, rule, level='exploration', technique='', note='', **kw):
    return dict(dict(srcs=['sim', 'world', 'main', 'ecc'], libs=['dhara', 'ecc'], ecc_both=True, shims=['gfshim'], cxxsan=True, ubsan=True, count=count,
                     rule='Case i is a pure function of (VERIF_SEED, i): chunk length and content and a list of error patterns or queries. ' + rule,
                     level=level, technique=technique, note=note, assumptions=[]), **kw)


def m(count, rule, level='exploration', technique='', note='', **kw):
    return dict(dict(srcs=MAP, libs=['dhara'], count=count, rule=GEN + rule, level=level, technique=technique, note=note, assumptions=SIM), **kw)


CHECKS = {
 'C01': m(18000, 'Non-trivial: some block was erased at least twice, i.e. the history wrapped around the chip and collected garbage.',
          technique='model-based random histories against a reference map',
          note='Random search; no exhaustive claim.'),
 'C02': m(2000, 'At sampled NAND mutations the chip is copied as a power cut before / in the middle of / after the mutation would leave it, and resumed. Non-trivial: at least one cut or probe lost unsynchronised operations.',
          'fault_enumeration', 'model-based histories with crash-point probes and real power cuts', 'Cut points are sampled, torn pages are unreadable or garbage, torn erases erase any subset of pages.'),
 'C03': m(2400, 'As C02, with the whole map compared with every prefix of the operations since the last sync, and probes continued with further operations. Non-trivial: at least one cut or probe rolled something back.',
          'fault_enumeration', 'model-based histories with crash-point probes and real power cuts', 'Cut points are sampled.'),
 'C04': m(8000, 'At generated points the map is synced, restarted on a copy of the chip (once and twice), and the original and restarted instances run the same operations in lock step. Non-trivial: at least one restart followed by lock-step operations.',
          technique='differential testing: restarted against never-stopped instance', note='Random search.'),
 'C05': m(28000, 'Blocks fail at generated erases/programs, in cascades; failed pages are garbage, unreadable, blank or written. Non-trivial: at least one block failed during the history.',
          'fault_enumeration', 'model-based histories with injected block failures', 'At most 5 failures per case (the tolerance the geometry is chosen for).'),
 'C06': m(2800, 'Block failures and power cuts (probes at sampled mutations and real cuts). Non-trivial: a block failed and a cut or probe rolled something back.',
          'fault_enumeration', 'model-based histories with injected block failures and power cuts', 'Cut points are sampled; finding K2 (see known-findings.txt) is excluded by its signature and counted.'),
 'C07': m(3000, 'Histories of all kinds (with block failures and power cuts in half of the cases) under a protocol monitor in the simulated chip. Non-trivial: a block was reused, a block failed, or power was cut.',
          technique='protocol monitor over generated histories with faults', note='Random search.'),
 'C08': m(8000, 'Erase counters of all good blocks are compared at every erase. Non-trivial: some block was erased at least twice.',
          technique='invariant over generated histories', note='Random search.'),
 'C09': m(10000, 'Histories that fill, overflow, trim and refill. Non-trivial: the map was full at least once and a new sector was refused.',
          technique='model-based histories at the capacity limit', note='Random search.'),
 'C10': m(1200, 'Long histories at full utilisation. Non-trivial: some block was erased at least twice.',
          technique='long model-based histories at full utilisation', note='Up to 15000 operations and hundreds of chip passes per case in the quick tier.'),
 'C11': m(5000, 'NAND calls of every operation are counted against bounds computed from geometry and gc ratio, on chips of up to thousands of blocks. Non-trivial: an operation that collected garbage, or a resume, was measured.',
          technique='metamorphic/bounded cost monitor over generated histories', note='Bounds are stated in DESIGN.md.'),
 'C12': m(20000, 'Runs of 1..3 failing reads armed at the n-th read of an operation; persistently unreadable data pages for reads. Non-trivial: at least one operation reported an ECC error.',
          'fault_enumeration', 'model-based histories with injected read errors', 'Read errors are transient, except for data pages being read.'),
 'C13': m(16000, 'Copy-heavy histories, mostly on full maps, 40% with block failures. Non-trivial: copies were made and blocks were reused.',
          technique='model-based copy-heavy histories', note='Random search.'),
 'C14': m(10000, 'Paired runs with and without inserted gc calls; complete collections. Non-trivial: gc steps were inserted.',
          technique='metamorphic: history with and without gc; progress bound', note='Random search.'),
 'C15': m(12000, 'An independent reader reconstructs the map from the raw image after each sync; 60% of the cases start from an image made by an independent writer. Non-trivial: at least one sector was read from or written to an image.',
          technique='differential: independent reader and writer of the documented format', note='Random search.'),
 'C16': m(60000, 'Journal-level histories (enqueue with and without data or metadata, copy, dequeue, clear, restart, power cuts), in bursts that fill and drain, on chips of 2 to 130 blocks. Non-trivial: a block was reused, an enqueue was refused as full, or the journal was restarted uncleanly.',
          'fault_enumeration', 'model-based journal histories against a queue model', 'Pages dequeued while the journal is clean may be reused at once and are unspecified after a power cut.'),
 'C17': m(60000, 'Journal-level histories with failing erases/programs in cascades, at most 5 per case; pages are dropped from or relocated in recovery at random. Non-trivial: at least one recovery was run.',
          'fault_enumeration', 'model-based journal histories with injected block failures', 'No power cuts while a recovery is under way (see C06).'),
 'C18': m(10000, 'Two histories interleaved call by call against each alone, and the same history twice. Non-trivial: more than 5 switches.',
          technique='metamorphic: interleaved against isolated runs, NAND traces compared', note='Call-level interleavings only.'),
 'C19': m(16000, 'The same history with and without queries inserted; NAND mutation traces and results compared. Non-trivial: at least one query inserted.',
          technique='metamorphic: history with and without queries', note='Random search.'),
 'C20': dict(m(3300, 'Histories of all kinds with faults under AddressSanitizer and UndefinedBehaviorSanitizer with exact-size heap buffers; half of the cases pass NULL error pointers; 45% run the histories of the other checks (C05, C09, C12, C13, C16, C17, C22, C23), most of them with NULL error pointers. 8% of the cases are ECC calls on exact-size buffers with chunks, codes and syndromes damaged beyond any rating. Non-trivial: every case.',
          technique='generated histories and calls under sanitizers', note='Sanitizers see only executed accesses.', ubsan=True, libs=['dhara', 'ecc']), srcs=MAP + ['eccmem']),
 'C21': m(2200, 'C03-style histories on a chip whose erased-page query only looks for 0xff, mostly all-0xff contents. Non-trivial: at least one cut or probe rolled something back.',
          'fault_enumeration', 'model-based histories with crash probes on an imprecise chip', 'Cut points are sampled.'),
 'C22': m(20000, 'Histories with block failures without limit, gradual or in bursts, until an operation reports an error; then all sectors are compared, up to 40 further operations are tried, and the chip is resumed. Non-trivial: an operation reported an end-of-life error.',
          'fault_enumeration', 'model-based histories with unlimited block failures', 'Random search.'),
 'C23': m(36000, 'A third each: chips full of foreign content without a checkpoint; images of a history whose unused blocks and trailing pages are overwritten; images with arbitrary pages corrupted (bit flips, header and pointer fields, pages copied over others, unreadable or blank pages). Non-trivial: at least one page was changed.',
          'fault_enumeration', 'generated corruptions of chip images, model-based histories on the result', 'Random search.'),
 'E01': e(8000, 'A quarter of the cases flip every single bit of the chunk and of its ECC. Non-trivial: at least one pattern was tried.',
          technique='generated chunks and error patterns, part exhaustive per chunk', note='Every position is covered for the generated chunks, contents are sampled.'),
 'E02': e(7000, 'Chunks up to 6 bytes: all pairs of bits; longer ones: sampled pairs, one bit with all others, all pairs touching the ECC. Non-trivial: at least one pattern was tried.',
          technique='generated chunks and double-error patterns, part exhaustive per chunk', note='Pairs are sampled for chunks above 6 bytes.'),
 'E03': e(7000, 'Codes of 1..4 bits, table-driven and table-free builds, error patterns of 0..t bits (scattered, in bursts, in the ECC, at the borders). Non-trivial: at least one pattern.',
          technique='generated chunks and error patterns, round trip', note='Patterns are sampled.'),
 'E04': e(5000, 'Patterns of 1..2t bits; some short chunks are searched completely for undetected patterns of up to 2t (at most 6) bits by a collision search over the real encoder. Non-trivial: at least one pattern.',
          technique='generated error patterns and complete collision search on short chunks', note='Patterns are sampled on long chunks.'),
 'E05': e(3000, 'The first 1016 cases take every chunk length. Non-trivial: every case.',
          technique='all chunk lengths, generated error patterns', note='Lengths are exhaustive, error patterns sampled.'),
 'E06': e(8000, 'The first 4096 cases use 1-byte chunks with many contents, 3% of the others blocks of up to 16 MiB. Reference: bitwise CRC from the polynomial. Non-trivial: at least one split, error pattern or burst.',
          technique='differential (bitwise reference), metamorphic (split points), generated error patterns', note='Sampled.'),
 'E07': e(10000, 'Cases 0..8190: one element against all others (exhaustive over the whole field, table-free division for one pair in eight); the rest compares the codes of both builds. Non-trivial: every case.',
          technique='exhaustive enumeration against a carry-less reference', note='Products and table quotients exhaustive; table-free quotients 1/8.'),
 'E10': e(4096, 'Case i covers the 2^20 values from i*2^20, i.e. all 2^32 values in all. Non-trivial: every case.',
          technique='exhaustive enumeration', note='All 32-bit values.', thorough=4096),
 'E08': dict(python='toolcheck', count=0, level='exploration', technique='generated polynomials, the tools\' output against an independent computation',
             note='Degrees 2 to 15 (search: to 13 in the quick tier).', assumptions=[],
             rule='A case is one run of a tool: a search degree, a generator polynomial (random primitive one, in various spellings) with a table or syndrome count, a CRC polynomial, a malformed number. Non-trivial: every distinct case.'),
 'E09': dict(m(240, 'Every read of a chunk returns up to the rated number of bit errors (often exactly that many), in data, CRC or ECC; codes Hamming and BCH 1..4 over chunks of 128..512 bytes plus CRC. Non-trivial: at least one bit error was corrected.',
          technique='model-based histories over a chip with bit errors behind an ECC layer built from the codes', note='Random search.', libs=['dhara', 'ecc'], nosan=True, cflags=['-O2']), srcs=MAP + ['eccnand']),
}
