GEN = ' Assumes: sequential execution of each call, libc modelled by CBMC, gcc semantics of << into the sign bit; units marked bounded in the evidence are not counted as proved.'
CLAIMED = {
 'P07': 'Every codec function and the checksum loop (unbounded loop contract) is proved against a byte-level spec for all values, offsets and contents (buffers up to 1 GB; shapefile doubles inside the 100 byte header).' + GEN,
 'P06': 'Every memory file operation of the server and of the filters is proved against a ghost-index content specification for all sizes, contents and allocation failures; the history statement follows by induction over the operation contracts and is also run natively against a model.' + GEN,
 'P01': 'Each header decoder and the whole frame decoder are proved against the byte layout of the protocol for every frame content and length; only zlib is behind an assumed contract.' + GEN,
 'P02': 'All memory obligations of the frame decoder, the control header copy and the decompression wrapper are proved for every frame content and length; zlib is behind an assumed contract.' + GEN,
 'P03': 'The header splitter is proved for every data block up to the frame size with loop contracts; sscanf is replaced by a specification stub (token positions are ghost values), data compared at an arbitrary index.' + GEN,
 'P17': 'Every integer and floating point conversion of the server and of the filters is proved for every string, value and state of errno; strtol, strtoul, strtod and strchr are behind assumed contracts (their C standard meaning), and a native search runs the real ones against big-integer arithmetic.' + GEN,
 'P18': 'Splitting (loop contracts over a ghost field table), trimming in both copies, and the configuration of each server entry are proved for strings of every length and every allocation failure; the loop over the server list of slave_table_create is covered only by the native search.' + GEN,
 'P11': 'Every bounded read and write routine of the server, the filters and nbspinsert is proved with loop contracts against an arbitrary kernel (short reads, EINTR, time-outs, end of file, errors): byte position and single transfer of an arbitrary byte; read, write and poll are stubs with their POSIX meaning, and a native search runs the real calls over pipes.' + GEN,
 'P15': 'The send and receive operations of the connection queue and the product queue (libqdb, pctldb, pctlmfdb), their opening, counting, limits, deadlines, key order and locking are proved against an arbitrary storage with ghost counts (Berkeley DB and pthread calls are stubs with their documented meaning; any call may fail); the waiting loop has a loop contract; the history statement follows by induction over operations and is also run natively over a failing in-memory storage. The table loop of nbspqt_open is not under contract.' + GEN,
 'P04': 'Name construction (through the frame processing entry point), splitting of received names and base names are proved for every valid header, every received name of the packet field and every spool directory setting (character by character); snprintf, strchr, strrchr and strncpy are stubs with their C meaning. File system calls are not modelled.' + GEN,
 'P05': 'One frame is processed by the real code (framep.c, slavenbs/framep.c, pctl.c) from an arbitrary state of the channel satisfying the assembly invariant, which is proved to hold again afterwards with the ghost fragment count; histories follow by induction over frames, and are also run natively against a model. Memory file writes are behind the contract P06 proves, the queue behind the one of P15.' + GEN,
 'P16': 'Destination selection, skipping of the control block and the bytes handed to each store are proved over arbitrary memory files for every size and setting, with write failures; fopen, write, the memory spool inserts are stubs. The loop over the stored fragments of uncompressed products has a loop contract.' + GEN,
 'P08': 'Packing, unpacking and receiving of product descriptions are proved for every field, name, path length up to 5000 and every received byte sequence; the round trip is part of the packing unit. The byte codecs and checksum are behind the contracts P07 proves, the kernel read behind the one P11 proves; memchr, strnlen and strncpy have their C meaning.' + GEN,
 'P09': 'Building, sending and receiving of NBS1 packets, and the server loop that sends the packets of one product (loop contract), are proved for every header, data size and received byte sequence; codecs and checksum are behind the contracts of P07, reads and writes behind those of P11, memory files behind those of P06.' + GEN,
 'P19': 'The framing in nbspinsert, the validation of its arguments, the saving of the input (loop contract), and the parsing of a record in the server are proved for every field, record size and content; sscanf, strrchr, strlen, snprintf are behind assumed contracts with their C meaning (copies are recorded by source and length), and a native search runs the real ones.' + GEN,
 'P20': 'Rule parsing, precedence and defaults are proved for rule lists of every length (loop contracts, regcomp/regexec behind their POSIX meaning), the rule of each consumer in nbspre.c, the exchange with the external emwin filter (a complete positive answer, or no product), and the distribution of a product to an arbitrary entry of a table of up to 100 connections. The Tcl interpreter (sfilter.c) is assumed.' + GEN,
}
NOTAPP = {}
NOTES = 'Undecided obligations (tool limits, annotations that no longer fit a rewritten function) never raise an alarm: the unit is then checked bounded and by concrete search, and the evidence lists it under degraded.'
