#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (CLAIMED = properties with specs)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, st, over, text, why, files, mech, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


T = 'The existing tests feed a few sample products and option settings through the built programs; they '
p('P01', 'SBN frames are decoded field by field as the protocol lays them out',
  'For every received broadcast frame whose header checksum is right and whose sizes are consistent, each decoded header field equals the big-endian field at its documented offset, and the product data handed on is exactly the data block of the frame after its optional control header. A frame with a wrong header checksum is reported as a checksum error; a frame whose command is not a data transfer is accepted after its frame level header, without product headers being interpreted.',
  ['inputs'], 'every byte string of every length up to the maximum frame size, given to the frame decoder',
  T + 'do not decode SBN frames at all; 2^41600 frames cannot be sampled.',
  ['src/sbn.c', 'src/sbn.h'],
  [('header field extraction', 'src/sbn.c unpack_fl_header, unpack_pd_header, unpack_ps_header'), ('data block location', 'src/sbn.c unpack_sbn_headers, sbn_unpack_frame')])
p('P02', 'No received SBN frame can make the decoder leave the frame',
  'For every byte string received as a frame, decoding terminates and never reads or writes outside the frame buffer and its decompression buffer. A frame whose declared block size, control header size or header presence contradicts its real length is rejected as inconsistent, and an accepted frame describes only regions that lie inside the bytes received, with non-negative sizes.',
  ['inputs'], 'every byte string of every length up to the maximum frame size, including malicious length and offset fields',
  T + 'never present malformed frames; inconsistent length combinations are unbounded in number.',
  ['src/sbn.c', 'src/sbn.h', 'src/unz.c'],
  [('size consistency checks', 'src/sbn.c unpack_sbn_headers, sbn_unpack_frame'), ('control header copy', 'src/sbn.c copy_ctrlheader')])
p('P03', 'WMO headers are split exactly, validated, and never read past the data',
  'For every data block, the product header is accepted only if its first line has a six character alphanumeric identifier, a four letter station, a six digit time and optionally an alphanumeric qualifier, and then these are returned verbatim. When the following line starts with a letter and ends at its ninth character, its first word (up to six characters, all alphanumeric) is the AWIPS identifier; otherwise its leading alphanumeric characters, or the qualifier if it does not start with a letter, become the alternative code. No byte outside the data block influences the result, and the extracted codes are always short terminated strings.',
  ['inputs'], 'every data block, of any length and content, with or without the communications control block',
  T + 'only process well formed products; header variants and truncations at every byte are not sampled.',
  ['src/sbn.c', 'src/const.h'],
  [('header splitting', 'src/sbn.c split_wmo_header'), ('validation', 'src/sbn.c count_char, validate_wmo')])
p('P04', 'Product names and spool paths are derived from the header and stay in the spool',
  'Every product received in broadcast frames is stored under the name station_identifier-awips.time_number (or +code, or no code), the part before the time in lower case, in the directory of the spool named after its station in lower case; the path is built completely, never cut short. A product received from a peer keeps the name it was sent under, in the directory named by its station part; the name splits back into the parts it was made from, and one that does not have that form is refused. No header content or name received from another server can make the resulting path leave the spool directory.',
  ['inputs', 'configurations'], 'every header content the decoder can deliver, every name received from a peer, every spool directory setting',
  T + 'use a handful of fixed product names.',
  ['src/file.c', 'src/framep.c', 'src/slavenbs/framep.c', 'src/pctl.h'],
  [('name construction', 'src/framep.c, src/file.c'), ('name parsing of received products', 'src/slavenbs/framep.c split_fbasename')])
p('P05', 'A product is delivered only when all its fragments arrived in order',
  'For every sequence of frames on a channel, a product is queued as complete exactly when its first fragment opened it, the following fragments arrived in order without a gap, and its last frame came after at least the announced number of them; a gap or a new start before the end never produces a complete product, fragments of other products are ignored, and the stored data is the concatenation of the fragments in order. Frames of one channel never affect the product being assembled on another.',
  ['inputs', 'histories'], 'every history of first, middle, last, missing, repeated and foreign frames on every channel',
  T + 'do not run the frame reader; loss patterns are histories of unbounded length.',
  ['src/pctl.c', 'src/framep.c', 'src/slavenbs/framep.c', 'src/nbsp.c'],
  [('per channel assembly state', 'src/pctl.c open_pce, close_pce, update_activepce_framecounter, complete_activepce, get_pctl_activepce'), ('frame processing', 'src/framep.c')],
  [('active product', 'sequence number, fragments received, announced fragments, completeness of the product being assembled', 'src/pctl.h')])
p('P06', 'An in-memory product file keeps exactly the bytes written, in order',
  'For every sequence of writes, growths and shrinks, the memory file holds the concatenation of what was written, its allocation is never smaller than its content, and reads return successive slices of it without repeating or skipping a byte. When memory cannot be obtained the operation reports failure and the content is unchanged. Framed writes read back as the same frames with the same compression flag.',
  ['inputs', 'histories', 'fault_sequences'], 'every sequence of operations, data sizes, and allocation failures at any point',
  T + 'exercise only small products and never a failing allocation.',
  ['src/mfile.c', 'src/mfile.h', 'filters/filterlib/c/mfile.c'],
  [('growable buffer', 'src/mfile.c realloc_memfile, grow_memfile, write_memfile'), ('reading', 'src/mfile.c read_memfile, get_memframe'), ('filter side', 'filters/filterlib/c/mfile.c')],
  [('memory file', 'buffer, allocated size, data size, read position', 'src/mfile.h')])
p('P07', 'Integers are encoded and decoded exactly, in the byte order of each format',
  'For every value and position, writing an integer or double into a packet or file stores exactly its bytes in the byte order of the format and touches nothing else, and reading yields exactly the value of those bytes, signed or unsigned as the format says, so that reading back what was written gives the value. The packet checksum is the sum of all data bytes modulo 2^32 for every length.',
  ['inputs'], 'all 2^32 (2^16, 2^24) values, all offsets, all data lengths and contents',
  T + 'reach a few values; sign bits, high bytes and large lengths are not covered.',
  ['src/util.c', 'tools/nbspinsert/nutil.c', 'filters/filterlib/c/dcnids/dcnids_extract.c', 'filters/filterlib/c/dcgini/dcgini_util.c',
   'filters/filterlib/c/dcnids/dcnids_shp.c', 'filters/filterlib/c/dcgini/dcgini_shp.c', 'filters/filterlib/c/dcgoesr/dcgoesr_shp.c',
   'filters/filterlib/c/dcnids/dcnids_dbf.c', 'filters/filterlib/c/dcgini/dcgini_dbf.c', 'filters/filterlib/c/dcgoesr/dcgoesr_dbf.c'],
  [('network byte order and checksum', 'src/util.c, tools/nbspinsert/nutil.c'), ('halfword extraction', 'filters/filterlib/c/dcnids/dcnids_extract.c'),
   ('satellite header integers', 'filters/filterlib/c/dcgini/dcgini_util.c'), ('shapefile and dbf integers', 'filters/filterlib/c/dc*/dc*_shp.c, dc*_dbf.c')])
p('P08', 'File packets between servers round-trip and malformed ones are refused',
  'For every product description that fits, packing it into a network packet and unpacking the packet gives back the same sequence number, type, category, code, flags, time and path, and the checksum covers exactly the data sent. A packet whose declared sizes do not match what arrived, or whose checksum is wrong, is refused, and no packet content can make the receiver write or read outside its buffers.',
  ['inputs'], 'every product description, every received byte stream',
  T + 'run no network slave; field values and malformed packets are unbounded.',
  ['src/packfp.c', 'src/packfpu.c', 'src/pack.c', 'src/packfp.h'],
  [('packing', 'src/packfp.c nbsfp_pack_fpath and friends, src/pack.c'), ('unpacking and receiving', 'src/packfpu.c, src/packfp.c')])
p('P09', 'Product packets of the NBS1 protocol round-trip and are bounds checked',
  'For every product sent through the block protocol, each packet carries the product identity, its place in the sequence and its share of the data, and the receiver reconstructs the same fields and bytes. Packets whose announced sizes exceed what the protocol allows or do not match are refused before anything is copied.',
  ['inputs', 'fault_sequences'], 'every product, every packet content and size, short reads and closed connections at any byte',
  T + 'run no NBS1 peer.',
  ['src/nbs1.h', 'src/nbs1r.c', 'src/nbs1s.c', 'src/serverc.c'],
  [('sender', 'src/nbs1s.c'), ('receiver', 'src/nbs1r.c'), ('one product to one client', 'src/serverc.c')])
p('P10', 'EMWIN blocks are accepted exactly when well formed and give the exact payload',
  'For every block received from an EMWIN source, the header fields and the payload equal those in the block after undoing the transmission masking, and the block is accepted only if its framing, sizes and checksum are right. No block content leads to access outside the block, and file names taken from it contain no directory part.',
  ['inputs'], 'every block of the fixed packet size',
  T + 'use no EMWIN input.',
  ['src/emwin.c', 'src/emwin.h'],
  [('block unpacking', 'src/emwin.c')])
p('P11', 'Stream input and output transfer every byte once, across any split',
  'However a peer or the kernel splits, delays or interrupts the data, reading a fixed amount returns exactly the next bytes of the stream in order, or reports time-out, end or error; the number of bytes it reports is the number of bytes taken from the stream and placed in the buffer (an error is reported as -1, and no byte is read twice or out of order). Writing a fixed amount reports full success only when every byte was accepted once and in order. Time-outs are given in seconds up to 2147483.',
  ['inputs', 'schedules', 'fault_sequences'], 'every sequence of short reads and writes, time-outs, end of file and errors',
  T + 'read local files, where reads are never short.',
  ['src/nreadn.c', 'filters/filterlib/c/io.c', 'tools/nbspinsert/io.c'],
  [('bounded reads', 'src/nreadn.c'), ('filter I/O', 'filters/filterlib/c/io.c')])
p('P12', 'The circular disk spool hands out each slot in turn and stays in its bounds',
  'For every history of stores, the disk spool database assigns slots in circular order, records for each sequence number where the product is, and never refers to a slot outside the configured number. Looking up a product returns its recorded entry or reports that it is gone, and never another product.',
  ['histories', 'inputs'], 'every history of inserts and lookups, every spool size, failing storage operations',
  T + 'do not run the spool.',
  ['src/spooldb.c', 'src/espooldb.c', 'src/libspoolbdb'],
  [('slot assignment and lookup', 'src/spooldb.c, src/libspoolbdb')])
p('P13', 'The memory spool returns exactly the product that was stored under a name',
  'Every product put in the shared memory spool can be read back with the same bytes and size until its slot is reused, slots are reused in circular order within the configured count, and a corrupted or foreign record is reported rather than returned.',
  ['histories', 'inputs', 'fault_sequences'], 'every history of saves and reads, every record content, failing storage operations',
  T + 'do not run the memory spool.',
  ['src/nbspmspoolbdb.c', 'src/libspoolbdb/spoolslots.c', 'src/libspoolbdb/mspoolbdb.c', 'src/libspoolbdb/spoolbdbv.c'],
  [('record encoding', 'src/libspoolbdb/spoolbdbv.c'), ('slots', 'src/libspoolbdb/spoolslots.c')])
p('P14', 'Retransmitted products are recognised and matched to the right original',
  'A retransmission is stored once: it replaces a missing product and is discarded when the original was received, the decision depending only on the original sequence number and run identifiers. A record written for a product is read back unchanged.',
  ['histories', 'inputs'], 'every history of originals and retransmissions, every sequence number',
  T + 'do not run the receiver.',
  ['src/rtxdb.c', 'src/rtxdb.h', 'src/ertxdb.c'],
  [('retransmission records', 'src/rtxdb.c')])
p('P15', 'The internal queues lose nothing, respect their limits and always unlock',
  'Every element put in a queue is taken out once, the number of elements always equals what is queued, and so does the number of bytes as long as the storage can be read, an element beyond the hard limit is refused and the soft limit is reported. Waiting with a time-out uses a valid deadline of exactly that delay for every delay and clock value. Every operation releases the queue lock, also when the storage fails.',
  ['histories', 'inputs', 'fault_sequences'], 'every history of operations, limits, time-outs, clock values and storage failures (one operation at a time)',
  T + 'never fill a queue nor fail its storage.',
  ['src/libqdb/qdb.c', 'src/pctldb.c', 'src/pctlmfdb.c', 'src/libconnth/cq.c'],
  [('persistent queue', 'src/libqdb/qdb.c'), ('product queue', 'src/pctldb.c, src/pctlmfdb.c'), ('per client queue', 'src/libconnth')],
  [('queue', 'element count, byte count, limits', 'src/libqdb/qdb.h, src/pctl.h')])
p('P16', 'Saved products contain exactly the product, with or without the control block',
  'A product saved to disk or to a memory spool contains exactly the received bytes, preceded by its 24 byte control block when that is requested and without it otherwise, wherever it is stored. A failed or partial write is reported.',
  ['inputs', 'configurations', 'fault_sequences'], 'every product size and content, both settings, failing and short writes',
  T + 'do not run the daemon save path.',
  ['src/nbsp.c', 'src/mfile.c'],
  [('saving with skip', 'src/mfile.c save_memfile_skip'), ('destination selection', 'src/nbsp.c')])
p('P17', 'Numbers in options and configuration are parsed exactly or rejected',
  'For every string, conversion of an option or setting to an integer succeeds exactly if the whole string is a decimal number (optionally after white space and a sign) representable in the destination type, and conversion to floating point exactly if strtod reads the whole string; each then yields exactly that number; otherwise it reports an error and leaves the destination unchanged. The result does not depend on earlier errors and leaves the error indicator as it was.',
  ['inputs', 'configurations'], 'every string, every destination type',
  T + 'pass a few valid options.',
  ['src/stoi.c', 'filters/filterlib/c/util.c'],
  [('strict conversion', 'src/stoi.c, filters/filterlib/c/util.c')])
p('P18', 'Delimited settings are split into exactly their fields',
  'For every string and separator set, splitting gives the fields in order, with or without empty ones as asked, and trimming removes exactly the leading or trailing separator characters (a string of separators only is left whole by left trimming and keeps its first character on right trimming). Lists of upstream servers and clients parse into the same hosts, ports and options as written, and malformed entries are refused, also when memory runs out, without corrupting or leaking memory.',
  ['inputs', 'configurations'], 'every string, every separator set',
  T + 'use one fixed configuration.',
  ['src/strsplit.c', 'src/util.c', 'tools/nbspinsert/nutil.c', 'src/slavet.c'],
  [('splitting', 'src/strsplit.c'), ('trimming', 'src/util.c, tools/nbspinsert/nutil.c'), ('tables', 'src/slavet.c')])
p('P19', 'Products inserted from outside are framed exactly and bad records are refused',
  'What the insertion tool writes to the server is a length-prefixed description that the server parses into the same fields; for every byte sequence in the insertion pipe the server either accepts a complete well formed record or refuses it without overrunning its buffers.',
  ['inputs', 'fault_sequences'], 'every product description, every byte stream written to the pipe',
  T + 'do not run the insertion path end to end with malformed input.',
  ['tools/nbspinsert/nbspinsert.c', 'src/slavein/reader.c'],
  [('framing', 'tools/nbspinsert/nbspinsert.c'), ('parsing', 'src/slavein/reader.c')])
p('P20', 'Accept and reject rules select products as documented',
  'For every ordered list of accept and reject rules and every product name, the decision is that of the applicable rule by the documented precedence, with the documented default when no rule applies; a client is sent exactly the products that its rules admit, and no answer of an external filter is attributed to another product. The decision never depends on earlier products.',
  ['inputs', 'configurations'], 'every rule list, every product name',
  T + 'use one rule set.',
  ['src/ure.c', 'src/nbspre.c', 'src/pfilter.c', 'src/serverm.c'],
  [('rule evaluation', 'src/ure.c')])
p('P21', 'Client connections are tracked exactly and do not disturb each other',
  'For every history of connects and disconnects, the server table holds exactly the connected clients, within its limit; adding or removing one never changes the others, and an attempt over the limit is refused.',
  ['histories', 'inputs', 'fault_sequences'], 'every history of additions and removals, every table size, failing allocations',
  T + 'never connect a client.',
  ['src/libconnth/conn.c', 'src/server.h'],
  [('connection table', 'src/libconnth/conn.c')])
p('P22', 'Files are packed into SBN frames that the receiver decodes to the same file',
  'For every file, the packing tool produces consecutive frames whose headers, checksums, block numbers and sizes the receiver accepts, and whose data blocks concatenate to the file, the first one marked as start and the last as end.',
  ['inputs'], 'every file size and content, every sequence number and product code',
  T + 'do not run the packing tool against the decoder.',
  ['tools/nbspmcast/sbnpack/sbn.c', 'tools/nbspmcast/sbnpack/fill.c', 'tools/nbspmcast/sbnpack/file.c', 'src/sbn.c'],
  [('header filling', 'tools/nbspmcast/sbnpack/fill.c, sbn.c')])
p('P23', 'Radar product decoding follows the format and stays inside the file',
  'For every radar product file, the decoded header fields equal those at their documented places, with times as seconds since 1970 and coordinates in degrees, the bounding box of the decoded polygons contains each of them and nothing more, and the sizes written in derived shape and table files equal the bytes written. No product content causes an access outside the data.',
  ['inputs'], 'every product file content',
  T + 'decode a few sample radar files.',
  ['filters/filterlib/c/dcnids/dcnids_header.c', 'filters/filterlib/c/dcnids/dcnids_transform.c', 'filters/filterlib/c/dcnids/dcnids_shp.c', 'filters/filterlib/c/dcnids/dcnids_dbf.c', 'filters/filterlib/c/dcnids/dcnids_misc.c'],
  [('header', 'filters/filterlib/c/dcnids/dcnids_header.c'), ('bounding box', 'filters/filterlib/c/dcnids/dcnids_transform.c')])
p('P24', 'Satellite image headers are decoded exactly for every projection',
  'For every satellite image header, image size, resolution, projection parameters, coordinates and time equal the values coded in the header, in the units documented, and headers whose fields are out of range or unsupported are refused. Decoding never accesses bytes outside the header.',
  ['inputs'], 'every header content',
  T + 'decode a few sample images.',
  ['filters/filterlib/c/dcgini/dcgini_pdb.c', 'filters/filterlib/c/dcgini/dcgini_util.c', 'filters/filterlib/c/dcgini/dcgini_transform.c'],
  [('header decoding', 'filters/filterlib/c/dcgini/dcgini_pdb.c')])
p('P25', 'Compression tools restore or produce exactly the data, and report failures',
  'For every input, the decompression tool outputs the concatenation of the expanded sections followed by the rest, after skipping what was asked, the compression tool outputs data that expands to the input, and an input that cannot be processed or written is reported by a failing exit status.',
  ['inputs', 'fault_sequences'], 'every input content and size, every skip count, failing reads and writes',
  T + 'cover a few files.',
  ['filters/filterlib/c/nbspunz.c', 'filters/filterlib/c/nbspz.c', 'filters/filterlib/c/nbspcat.c', 'filters/filterlib/c/unz.c', 'src/unz.c'],
  [('page loop', 'filters/filterlib/c/nbspz.c, nbspunz.c, nbspcat.c')])
p('P26', 'Periodic tasks run once per period, for every period and clock value',
  'Each enabled periodic task is due exactly when its period has elapsed since it last ran, a disabled task never runs, and running one task does not delay or repeat another.',
  ['inputs', 'configurations', 'histories'], 'every period setting, every sequence of clock values',
  T + 'never wait for a periodic task.',
  ['src/per.c', 'src/per.h'],
  [('due time bookkeeping', 'src/per.c')])
exec(open(os.path.join(V, 'vp', 'claims.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
ids = [x['id'] for x in P]
m = {'version': 1, 'setup_cmd': 'python3 vp/selftest.py', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in CLAIMED:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 vp/driver.py %s quick' % i,
                            'thorough_cmd': 'python3 vp/driver.py %s thorough' % i,
                            'technique': 'contract-based deductive verification: function and loop contracts on the real C code, discharged by goto-instrument --dfcc and CBMC',
                            'level': 'proof', 'level_note': CLAIMED[i]})
    else:
        m['not_applicable'].append({'property': i, 'reason': NOTAPP.get(i, 'not built yet')})
m['notes'] = NOTES
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
for x in P:
    assert len(x['title']) <= 80, x['id']
