#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
J='dhara/journal.c'; M='dhara/map.c'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p('C01','A sector always reads back the last data stored in it',
 'After any sequence of map operations (write, trim, copy, clear, sync, manual garbage collection, clean restart), reading a sector returns exactly the bytes last stored in it, and an unmapped sector reads as all 0xff and is reported as not found by find. Whatever find returns for a mapped sector is a physical page holding exactly that data. An operation on one sector never changes the content of another.',
 ['histories','inputs','configurations'],
 'all operation histories, sector numbers over the full 32-bit range (except the reserved value), page contents, chip geometries (page size from 256 bytes, pages per block from 2, number of blocks) and gc ratios',
 'tests/map.c runs one fixed script (write 200 dense sectors, rewrite/trim half once, one geometry, one gc ratio); it never copies, clears, calls gc, uses sparse sector numbers or runs long enough to collect garbage under pressure.',
 [M,'dhara/map.h',J,'dhara/bytes.h'],
 [('path tracing over the radix tree','dhara/map.c:trace_path'),('garbage collection rewrites live pages','dhara/map.c:raw_gc'),('delete by rewriting a cousin','dhara/map.c:try_delete'),('metadata lookup (buffered / on flash)','dhara/journal.c:dhara_journal_read_meta')],
 [('root','newest record of the map','dhara/journal.h'),('count','number of mapped sectors','dhara/map.h')],
 ['dhara_map_read','dhara_map_find','dhara_map_write','dhara_map_trim'])

p('C02','Synchronised data survives power loss at any point',
 'Once sync has returned success, every write, trim, copy or clear that completed before it is still in effect after a power cut at any later moment followed by resume, unless a later operation on the same sector had been started. This includes cuts in the middle of programming a page or erasing a block, repeated cuts, and cuts during the operations that follow a restart. (Chips with up to six bad blocks in a row: resume looks at no more than eight blocks in a row for a checkpoint.)',
 ['crash_points','histories','configurations'],
 'all histories, all later NAND-level cut points (before, after or in the middle of any program, erase or bad-block marking), any number of successive cuts',
 'The tests only ever restart right after a successful sync or (epoch_roll) at one hand-picked unsynced point; no test interrupts an operation.',
 [J,M],
 [('checkpoint page closes a group','dhara/journal.c:push_meta'),('space is reused only behind the last checkpointed tail','dhara/journal.c:prepare_head'),('newest checkpoint search','dhara/journal.c:dhara_journal_resume'),('sync pads to a checkpoint','dhara/map.c:dhara_map_sync')],
 [('tail_sync','tail as of the last checkpoint; limits block reuse','dhara/journal.h'),('epoch','wrap counter that orders checkpoints','dhara/journal.h')],
 ['dhara_map_sync','dhara_map_resume'])

p('C03','A power cut rolls the map back to one consistent earlier state',
 'After a power cut at any moment and resume, the whole map (contents of all sectors and the reported size) equals the state after some prefix of the completed operations (optionally including the interrupted one), no older than the last synchronisation: each operation is all-or-nothing and operations are never reordered, lost in the middle, or half visible. The resumed map accepts further operations as usual. (Chips with up to six bad blocks in a row.)',
 ['crash_points','histories','configurations'],
 'all histories and cut points on chips without failing blocks, including torn page programs (unreadable afterwards) and partial erases, several cuts in a row',
 'Needs enumeration of cut points and comparison with a set of legal states; tests contain no power-cut injection.',
 [J,M],
 [('group metadata and cookie written in a single checkpoint page','dhara/journal.c:push_meta'),('last group and head search on resume','dhara/journal.c:find_last_group'),('head search on resume','dhara/journal.c:find_head'),('sector count kept in the cookie','dhara/map.c:prepare_write')],
 [],['dhara_map_resume','dhara_map_size','dhara_map_read'])

p('C04','Restart after sync restores exactly the same map and writes nothing',
 'Resuming a cleanly synchronised chip restores the same contents and size, performs no erase, program or bad-block marking, and resuming twice gives the same result as once. A resumed map continues exactly as the instance that never stopped would: the same later operations return the same results and store the same data. A sync with nothing new to store, in particular right after a restart, writes nothing.',
 ['histories','configurations'],
 'all histories ending in a sync, all head positions (any page of any block, including chip wrap-around and the wrap of the 8-bit epoch), all bad-block layouts within tolerance',
 'tests/journal.c and map.c resume at a handful of positions and never check that resume is read-only or that the resumed instance keeps working as before.',
 [J,M],
 [('binary search for newest block','dhara/journal.c:find_last_checkblock'),('root and head search','dhara/journal.c:find_root'),('state restored from checkpoint header','dhara/journal.c:dhara_journal_resume')],
 [],['dhara_map_resume','dhara_nand_erase','dhara_nand_prog'])

p('C05','Blocks that go bad are absorbed without error, data loss or reuse',
 'When any erase, program or copy fails because a block has gone bad, the map operation in progress still succeeds (as long as no eight consecutive attempts fail and spare capacity remains), every sector still reads back its latest data at once and after sync and restart, and the failed block ends up marked bad. Blocks that did not fail are never marked bad, and once a block has been marked bad nothing in it is needed any more: the chip need not be able to read it.',
 ['fault_sequences','histories','configurations'],
 'all histories and all placements of block failures (which block, at which erase or page program of it, cascades while recovery is running), permanent failures, with failed pages left readable, unreadable or blank',
 'tests/map.c samples 1000 random layouts of one write script on one geometry; it does not fail blocks in the middle of gc, trim, copy, clear or sync, never leaves the failed page unreadable, and never checks which blocks were marked.',
 [J,M],
 [('recovery state machine','dhara/journal.c:recover_from'),('metadata dump','dhara/journal.c:dump_meta'),('restart on cascade','dhara/journal.c:restart_recovery'),('replay of live pages','dhara/map.c:try_recover')],
 [('recover_root/recover_next/recover_meta','what remains to be moved off the failed block','dhara/journal.h')],
 ['dhara_map_write','dhara_map_trim','dhara_map_sync','dhara_nand_mark_bad'])

p('C06','A power cut around a block failure still rolls back consistently',
 'When blocks go bad and the power is cut before, during or after the relocation of a failed block, resume still yields the state after some prefix of the operations, no older than the last synchronisation, with the matching size.',
 ['crash_points','fault_sequences','histories'],
 'all combinations of block failures and power-cut points (before, after or in the middle of each erase, program or marking), including during recovery and its restarts',
 'No test combines a failing block with an interrupted operation.',
 [J,M],
 [('bad-block marking deferred until the relocation is checkpointed','dhara/journal.c:finish_recovery'),('tail not released during recovery','dhara/journal.c:push_meta')],
 [],['dhara_map_resume'])

p('C07','The NAND chip is driven strictly within its rules',
 'Every page is programmed at most once between erases of its block and in ascending order within the block, only in blocks that were erased and never in a block marked bad; blocks marked bad are never erased. All page and block numbers and byte ranges passed to the NAND layer are inside the chip.',
 ['histories','fault_sequences','crash_points','configurations'],
 'every NAND call made in any history, including garbage collection under pressure, block failures, recoveries, clears, power cuts, restarts, and chips wearing out',
 'The simulator aborts on some of these for the few scripted histories; nothing explores failures right after a clear, small geometries, or restarts over partly written groups.',
 [J,'dhara/nand.h'],
 [('head preparation','dhara/journal.c:prepare_head'),('block skipping','dhara/journal.c:skip_block'),('free-page search after restart','dhara/journal.c:find_head'),('page geometry','dhara/journal.c:next_upage')],
 [],['dhara_nand_prog','dhara_nand_erase','dhara_nand_read','dhara_nand_copy','dhara_nand_is_free','dhara_nand_mark_bad'])

p('C08','Wear levelling: erase counts of good blocks differ by at most one',
 'Starting from a fresh chip and without power cuts, at every moment the number of erases of any two blocks that have not gone bad differs by at most one, whatever the access pattern, and also across clean restarts.',
 ['histories','configurations','fault_sequences'],
 'all histories (hot spots, sequential, trims, syncs, manual gc, clean restarts), geometries, factory-bad and failing blocks',
 'No test counts erases per block.',
 [J],[('head walks all blocks in order','dhara/journal.c:prepare_head'),('erase on entering a block','dhara/journal.c:prepare_head'),('head position restored exactly','dhara/journal.c:find_head')],
 [],['dhara_nand_erase'])

p('C09','Size and capacity are exact and enforced',
 'The reported size always equals the number of sectors currently mapped, before and after restart. A write or copy that maps a new sector succeeds while size is below the reported capacity and fails with "map full" and no change to any sector when it is not; overwriting or trimming an already mapped sector never fails for lack of capacity. Capacity is the documented share of the journal (gc ratio over gc ratio plus one) less a margin of a few blocks; it never exceeds the number of data pages physically on the chip minus those in known bad blocks.',
 ['histories','configurations','fault_sequences'],
 'all histories that fill, overflow, trim and refill the map, all geometries, gc ratios and bad-block layouts',
 'No test fills a map to capacity or observes a full map, and size is compared with the truth in one script only.',
 [M,J],[('count bookkeeping','dhara/map.c:prepare_write'),('count on delete','dhara/map.c:try_delete'),('capacity formula','dhara/map.c:dhara_map_capacity'),('journal capacity','dhara/journal.c:dhara_journal_capacity')],
 [('count','mapped sectors','dhara/map.h')],['dhara_map_size','dhara_map_capacity','dhara_map_write'])

p('C10','A map at or below capacity can be rewritten forever',
 'On a healthy chip (bad blocks within tolerance), no sequence of overwrites, trims, copies, syncs, manual garbage collections and restarts that keeps the number of sectors within capacity ever fails or runs out of journal space: obsolete space is always reclaimed in time, over any number of passes over the chip and beyond the wrap of the pass counter.',
 ['histories','configurations'],
 'unbounded histories at full utilisation, all gc ratios (including 1 and values far above the block size) and geometries, hundreds of chip passes',
 'Tests make at most a few passes over one chip at partial utilisation; the pass counter (8 bits) never wraps in any test.',
 [M,J],[('automatic gc before each write','dhara/map.c:auto_gc'),('capacity reserve','dhara/map.c:dhara_map_capacity'),('tail advance','dhara/journal.c:dhara_journal_dequeue'),('epoch increment','dhara/journal.c:roll_stats')],
 [],['dhara_map_write','dhara_journal_size'])

p('C11','Work per operation is bounded and startup is logarithmic',
 'Finding or reading a sector costs at most one metadata read per address bit plus the data page; a write, trim or copy costs a bounded number of page programs and lookups determined by the gc ratio and checkpoint size, independent of map size and chip size; resume costs a number of NAND reads that grows with the logarithm of the number of blocks plus the pages of one block (block failures and retries aside).',
 ['histories','configurations'],
 'all map states reachable without new block failures, all geometries up to chips with thousands of blocks, bad blocks sparsely distributed',
 'No test counts NAND operations per call against a bound.',
 [M,J],[('radix path of at most 32 steps','dhara/map.c:trace_path'),('incremental gc','dhara/map.c:auto_gc'),('binary searches on resume','dhara/journal.c:find_last_checkblock')],
 [],['dhara_nand_read','dhara_nand_prog','dhara_map_resume'])

p('C12','Uncorrectable read errors are reported and never damage the map',
 'If the NAND layer reports an uncorrectable read, the map operation that needed the page fails with the ECC error (it never returns success with wrong data) and the map is left as if the operation had not been started or had completed. Once the page reads correctly again, all operations work and all data and the size are intact, also after sync and restart. This holds while a failed block is being relocated, too; and reads which keep failing end the call with the error instead of hanging it.',
 ['fault_sequences','histories'],
 'any read of any operation (read, find, write, trim, copy, gc, sync) failing once, several times or until the call returns, in any map state, also together with failing blocks; persistent unreadable data pages for reads',
 'The simulator of the test suite never reports a read error.',
 [M,J],[('error propagation','dhara/map.c:trace_path'),('count restored when the enqueue fails','dhara/map.c:dhara_map_write'),('write errors other than bad block are passed up','dhara/journal.c:recover_from')],
 [],['dhara_map_read','dhara_map_write','dhara_map_trim','dhara_map_gc','dhara_map_sync'])

p('C13','Copy operations duplicate content exactly',
 'Copying a sector gives the destination exactly the content the source had when the call was made, leaves the source unchanged, also when both are the same sector, when garbage collection or block relocation happens during the call, and at any gc ratio; copying an unmapped sector trims the destination. Copying a physical page located with find stores that page\'s content in the destination sector.',
 ['histories','configurations','fault_sequences'],
 'all map states (in particular full maps where the source page is the next to be collected), gc ratios, geometries, block failures during the copy',
 'Neither copy_page nor copy_sector is called by any test.',
 [M],[('copy_sector','dhara/map.c:dhara_map_copy_sector'),('copy_page','dhara/map.c:dhara_map_copy_page'),('journal copy','dhara/journal.c:dhara_journal_copy')],
 [],['dhara_map_copy_sector','dhara_map_copy_page'])

p('C14','Garbage collection is invisible and eventually removes all garbage',
 'Calling gc any number of times at any point changes no sector, no size and no result of any other operation. Repeated gc steps always make progress: after at most as many steps as the journal holds pages (plus padding), the journal occupies no more than the live sectors plus a bounded overhead.',
 ['histories','configurations'],
 'all histories with gc steps inserted at arbitrary points, all utilisations, including after trims and clears',
 'dhara_map_gc is never called by the tests.',
 [M,J],[('gc step','dhara/map.c:dhara_map_gc'),('liveness test','dhara/map.c:raw_gc'),('tail advance','dhara/journal.c:dhara_journal_peek')],
 [],['dhara_map_gc','dhara_journal_size'])

p('C15','The on-flash format is exactly the documented one',
 'After a sync, an independent reader that follows the documented layout (checkpoint position, magic, pass counter, little-endian tail and bad-block fields, cookie with the sector count, per-page sector id and 32 alternative pointers) reconstructs from the raw chip image exactly the contents of the map. Conversely an image built by an independent writer from that document is resumed to exactly the map it describes. The pass counter in the checkpoints stays the same within a pass over the chip and goes up by one (modulo 256) with every pass.',
 ['histories','inputs','configurations'],
 'all map contents, histories and geometries',
 'Tests only round-trip through the same code, so a consistent change of writer and reader (byte order, field order, pointer layout) passes all of them while making existing chips unreadable.',
 [J,M,'dhara/bytes.h','map_internals.txt'],[('header layout','dhara/journal.c:hdr_put_magic'),('metadata layout','dhara/map.c:meta_set_alt'),('byte order','dhara/bytes.h'),('group size','dhara/journal.c:choose_ppc')],
 [],['raw NAND image after dhara_map_sync','dhara_map_resume'])

p('C16','The journal is a faithful persistent queue with per-page metadata',
 'Pages come out of the journal in the order they were enqueued or copied in, each with the data and metadata it was given, apart from blank padding pages; metadata of every page still in the queue stays readable; enqueue is refused with "journal full" only when the free space is really exhausted and nothing is overwritten before it is dequeued and checkpointed. After a checkpoint and restart the same queue, root and cookie are restored. Padding pages and pages lost to a failure carry no other page\'s metadata; an emptied or cleared journal has no root, and dequeuing from it does nothing; without bad blocks and cuts the size is exactly the number of pages occupied. (Pages dequeued while the journal is clean may be reused at once, so they are unspecified after a power cut.)',
 ['histories','configurations','crash_points'],
 'all enqueue/copy/dequeue/clear/restart histories at journal level, including completely full journals, and power cuts at any page program',
 'tests/journal.c and jfill.c use one geometry and fill/drain in fixed patterns; journal-level power cuts and interleaved dequeues when full are not covered.',
 [J,'dhara/journal.h'],[('enqueue','dhara/journal.c:dhara_journal_enqueue'),('dequeue','dhara/journal.c:dhara_journal_dequeue'),('full check','dhara/journal.c:prepare_head'),('metadata buffer','dhara/journal.c:push_meta')],
 [],['dhara_journal_enqueue','dhara_journal_peek','dhara_journal_read_meta','dhara_journal_size'])

p('C17','Journal recovery hands out every page of a failed block',
 'When a page program fails at journal level, the assisted recovery procedure enumerates every user page of the failed block written since it was last erased, in order and with its metadata readable (also the metadata that had not been checkpointed yet), restarts from the beginning when another block fails meanwhile, and ends with all queued pages and metadata intact and exactly the failed blocks marked bad. (Without power cuts; fewer than eight bad blocks in a row.)',
 ['fault_sequences','histories','configurations'],
 'all positions of the failing page within its block and checkpoint group, cascaded failures of the relocation blocks, rewinds and clears during the recovery, all geometries',
 'tests/recovery.c covers nine hand-tuned scenarios, all in block 0 of one geometry.',
 [J],[('enumeration','dhara/journal.c:dhara_journal_next_recoverable'),('metadata dump','dhara/journal.c:dump_meta'),('restart','dhara/journal.c:restart_recovery'),('finish','dhara/journal.c:finish_recovery')],
 [],['dhara_journal_next_recoverable','dhara_journal_read_meta'])

p('C18','Instances are independent and behaviour is deterministic',
 'Several maps on different chips used alternately in one process behave exactly as each would alone, and the same history on the same chip image always produces the same NAND operations and results: nothing is kept outside the instance, its page buffer and its chip, and nothing depends on what the memory handed to a new instance held before.',
 ['histories','schedules'],
 'all pairs of histories and all their call-level interleavings (the library claims no thread safety, so calls do not overlap)',
 'Every test uses a single instance.',
 [M,J,'ecc/bch.c','ecc/hamming.c','ecc/crc32.c'],[('all state in struct dhara_map / dhara_journal','dhara/map.h')],[],['all map calls'])

p('C19','Queries have no side effects',
 'Initialisation performs no NAND operation, and find, read, size and capacity never erase, program or mark anything, never change contents, size, durability or later behaviour, however often and whenever they are called.',
 ['histories'],
 'all histories with queries inserted at arbitrary points, compared with the same history without them',
 'Tests do not observe the NAND traffic of queries.',
 [M,J],[('lookup','dhara/map.c:dhara_map_find'),('init','dhara/journal.c:dhara_journal_init')],[],['dhara_map_find','dhara_map_read','dhara_map_init'])

p('C20','Memory use is confined to the buffers the caller provides',
 'No operation in any state reads or writes outside the one-page work buffer, the instance structure and the caller\'s data buffers, the caller\'s input data is never modified, and no operation has undefined behaviour; every error pointer may be omitted.',
 ['histories','fault_sequences','crash_points','inputs','configurations'],
 'all histories of map operations including block failures, power cuts, read errors and resumes over arbitrary or corrupt chip contents, for exact-size heap buffers, and all ECC calls on exact-size buffers',
 'The tests are built without sanitizers and use one page size with stack buffers.',
 [M,J,'ecc/bch.c','ecc/hamming.c','ecc/crc32.c'],[('metadata offsets','dhara/journal.c:hdr_user_offset'),('group size choice','dhara/journal.c:choose_ppc')],[],['all calls under AddressSanitizer/UBSan'])

p('C21','An inexact erased-page test is sufficient',
 'If programming an all-0xff page is a no-op on the chip and the erased-page query merely reports whether a page is all 0xff, all contents, durability, rollback and NAND programming guarantees hold unchanged, including for sectors whose content is all 0xff and for power cuts in groups of such pages.',
 ['histories','crash_points','configurations'],
 'all histories mixing all-0xff and other pages, all cut points, all geometries',
 'The simulator of the tests implements an exact erased-page query only.',
 [J],[('group-free test looks at every page','dhara/journal.c:cp_free'),('head search counts trailing free pages','dhara/journal.c:find_head')],[],['dhara_map_resume','dhara_nand_is_free'])

p('C22','A worn-out chip fails cleanly and keeps its synchronised data',
 'When more blocks fail than can be tolerated, operations end with a documented error (too bad, journal full, map full) rather than hanging or reporting success wrongly. The chip is still driven within its rules. A refused operation leaves all sectors readable and as they were, except that a relocation that finds no room may leave operations since the last sync unreadable until the next start. A restart still yields the state after some prefix of the operations, no older than the last synchronisation, as long as fewer than eight blocks in a row lack a checkpoint.',
 ['fault_sequences','histories'],
 'all histories with unbounded numbers of failing blocks up to the whole chip',
 'Tests stop short of exhausting retries or capacity.',
 [J,M],[('retry limits','dhara/journal.h:DHARA_MAX_RETRIES'),('tail is never overrun','dhara/journal.c:skip_block')],[],['dhara_map_write','dhara_map_resume'])

p('C23','Any chip content is resumed safely',
 'Resume on a chip with arbitrary contents (factory garbage, foreign data, random corruption of a dhara image, unreadable pages) terminates within a bounded number of NAND reads, modifies nothing, stays inside the chip, and ends in either success or a failure that leaves an empty, usable map. After a failure new data can be written, and on a chip that holds no stale checkpoints also synchronised and resumed. Whatever is in blocks outside the journal, and in pages behind the last checkpoint, does not matter: the map is resumed exactly (fewer than eight blocks in a row without a checkpoint).',
 ['inputs','configurations'],
 'all chip images: blank, random, patterned, and images with corrupted or unreadable pages',
 'Tests resume only images written by the library itself or a constant fill pattern.',
 [J],[('magic and epoch tests','dhara/journal.c:hdr_has_magic'),('bounded search','dhara/journal.c:find_checkblock')],[],['dhara_map_resume'])

p('E01','Hamming code corrects every single-bit error',
 'For every chunk of up to 512 bytes, ECC generated for it verifies with a zero syndrome, and any single flipped bit in the chunk or its ECC gives a non-zero syndrome and is repaired so that the chunk equals the original, with success reported.',
 ['inputs'],'all chunk lengths 1..512, contents and single-bit error positions',
 'tests/hamming.c tries 20 random flips on 11 blocks of one length.',
 ['ecc/hamming.c'],[('parity scan','ecc/hamming.c:parity_scan'),('repair','ecc/hamming.c:hamming_repair')],[],['hamming_generate','hamming_syndrome','hamming_repair'])
p('E02','Hamming code detects every double-bit error',
 'For every chunk of up to 512 bytes, any two distinct flipped bits among chunk and ECC give a non-zero syndrome, repair reports failure, and the chunk is not modified by the failed repair.',
 ['inputs'],'all chunk lengths, contents and pairs of error positions (chunk/chunk, chunk/ECC, ECC/ECC)',
 'No test flips two bits.',
 ['ecc/hamming.c'],[('pairwise parity check','ecc/hamming.c:hamming_repair')],[],['hamming_repair'])
p('E03','BCH codes correct up to their rated number of bit errors',
 'For each of the 1, 2, 3 and 4-bit codes and every chunk up to the maximum chunk size, freshly generated ECC verifies, and after any number of bit errors up to the rating, anywhere in the chunk or ECC bits, repair restores the chunk exactly and verification then succeeds; repair of an intact chunk changes nothing.',
 ['inputs','configurations'],'all four codes, chunk lengths 1..1016, contents, error patterns of weight 0..t; table-driven and table-free field arithmetic builds',
 'tests/bch.c uses one length (512), 11 blocks per code and 20 random patterns that may coincide.',
 ['ecc/bch.c','ecc/gf13.c','ecc/gf13.h'],[('Berlekamp-Massey','ecc/bch.c:berlekamp_massey'),('syndromes','ecc/bch.c:syndrome'),('root search','ecc/bch.c:bch_repair')],[],['bch_generate','bch_verify','bch_repair'])
p('E04','BCH verification detects every error of up to twice the rating',
 'For each BCH code and every chunk up to the maximum size, verification fails for any pattern of 1 to 2t flipped bits among the chunk and ECC bits (t being the rated number of correctable bits).',
 ['inputs','configurations'],'all four codes, lengths, contents and error patterns of weight 1..2t',
 'Tests never check detection beyond the correctable weight.',
 ['ecc/bch.c'],[('generator polynomials','ecc/bch.c:bch_4bit'),('remainder comparison','ecc/bch.c:bch_verify')],[],['bch_verify'])
p('E05','Erased flash passes every check',
 'An all-0xff chunk of any permitted length has all-0xff ECC and checksum bytes under the Hamming code, every BCH code and the CRC, so an erased page verifies as correct, and up to the rated number of bits read as 0 in an erased page (data or ECC) is repaired back to all 0xff.',
 ['inputs'],'all lengths and codes, all error patterns within the rating',
 'Tests check one length without errors.',
 ['ecc/bch.c','ecc/hamming.c','ecc/crc32.c'],[('inverted representation','ecc/bch.c:pack_poly'),('ECC mask','ecc/hamming.c:parity_scan'),('inverted coefficients','ecc/crc32.c:crc32_nand')],[],['bch_verify','hamming_syndrome','crc32_nand'])
p('E06','The CRC is the documented IEEE 802.3 CRC-32 and composes',
 'The checksum of any data equals the bit-inverted-coefficient form of the IEEE 802.3 CRC-32, checksumming in pieces with the carry argument equals checksumming the whole, and every error of up to three bits in up to 512 bytes and every burst of up to 32 bits changes the checksum.',
 ['inputs'],'all data, lengths, splits and error patterns',
 'tests/crc32.c checks 200 random 4-bit patterns; any non-degenerate table would pass.',
 ['ecc/crc32.c'],[('reduction table','ecc/crc32.c:reduce'),('update','ecc/crc32.c:crc32_nand')],[],['crc32_nand'])
p('E07','Galois field arithmetic obeys the field laws in both builds',
 'Multiplication, division, and multiplication/division by x on nonzero elements agree with carry-less polynomial arithmetic modulo the documented polynomial, in the table-driven and in the table-free build, and both builds of the BCH codes give identical results.',
 ['inputs','configurations'],'all pairs of nonzero field elements; exponent and logarithm tables in full',
 'No test touches the field directly, and the table-free build is never compiled.',
 ['ecc/gf13.c','ecc/gf13.h'],[('tables','ecc/gf13.c:gf13_log'),('table-free arithmetic','ecc/gf13.c:gf13_mul')],[],['gf13_mul','gf13_div','gf13_mulx','gf13_divx'])
p('E08','The generator tools reproduce correct tables',
 'The Galois field tool prints, for any primitive generator polynomial of degree 2 to 15, the correct exponential and logarithm tables, minimal-polynomial products and exactly the primitive polynomials of a given degree, and the CRC tool prints the correct reduction table of any 32-bit polynomial; for the shipped polynomials their output equals the tables and constants compiled into the library.',
 ['inputs'],'all generator polynomials of degree 2 to 15, all syndrome counts that fit, all 32-bit CRC polynomials',
 'The tools are built but never run by the tests.',
 ['tools/gftool.c','tools/gentab.c','ecc/gf13.c','ecc/crc32.c','ecc/bch.c'],[('table generation','tools/gftool.c:gf_init'),('primitive test','tools/gftool.c:is_primitive'),('crc table','tools/gentab.c:fill_table')],[],['stdout of tools/gftool and tools/gentab'])
p('E09','The map keeps its guarantees on flash with bit errors and software ECC',
 'With a NAND layer that protects every page with one of the supplied codes (Hamming or BCH, plus CRC) over raw flash whose reads return up to the rated number of random bit errors per chunk, no error ever becomes visible: all map operations succeed and all data reads back exactly, also across restarts.',
 ['histories','fault_sequences','configurations'],'all histories, codes, chunk sizes and bit-error patterns within the rating on every read',
 'Tests exercise the codes and the map separately and never together.',
 ['ecc/bch.c','ecc/hamming.c','ecc/crc32.c',M,J],[('ECC over partial reads','dhara/nand.h')],[],['dhara_map_read'])
p('E10','Every error value has a message',
 'The error-message function returns a non-null, terminated, stable string for every integer value of the error type; each defined error has its own distinct message and every other value yields the generic unknown-error message.',
 ['inputs'],'all 32-bit values of the error argument',
 'tests/error.c only visits the defined values and only checks for non-null.',
 ['dhara/error.c'],[('table lookup with range check','dhara/error.c:dhara_strerror')],[],['dhara_strerror'])

out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P),'properties')
