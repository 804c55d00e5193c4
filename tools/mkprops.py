#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": ["bloscpack/" + f for f in files],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "state": state or [],
                    "observe_at": observe or [],
                    "hook_needed": None}})


p("C01", "Pack/unpack round-trip of data and metadata",
  "Whatever bytes are packed through pack_file_to_file, pack_bytes_to_file or pack_bytes_to_bytes, with any accepted chunk size, blosc, bloscpack and metadata arguments, the matching unpack function returns exactly those bytes. "
  "It also returns the metadata that was given (the JSON value, including empty containers), or None when none was given. "
  "This holds for every input length, including zero, one byte, and exact multiples of the chunk size.",
  ["inputs", "configurations"],
  "all input lengths, chunk sizes, compressed sizes, numbers of preallocated chunks, offsets on/off, all nine checksums, metadata absent/empty/non-empty and its sizes; chunk count bounded",
  "The tests pack a handful of fixed files of a few sizes with near-default settings; boundary combinations of length, chunk size and options are never reached.",
  ["file_io.py", "abstract_io.py", "args.py", "headers.py"],
  [("chunked read/compress/write loop", "abstract_io.pack"), ("read/verify/decompress loop", "abstract_io.unpack"),
   ("file layout writer and reader", "file_io.CompressedFPSink, file_io.CompressedFPSource"),
   ("file and bytes entry points", "file_io.pack_*, file_io.unpack_*")],
  ["output file or returned bytes", "returned metadata"])

p("C02", "In-memory source and sink round-trip and agree with the file path",
  "Packing any sequence of chunks from a PlainMemorySource into a CompressedMemorySink and unpacking it through a CompressedMemorySource into a PlainMemorySink (with or without a preset chunk count) returns the same chunks in the same order, with the same metadata. "
  "The compressed chunks and checksums kept in memory are, chunk for chunk, those a packed file of the same chunks and settings holds. "
  "A compressed chunk altered in memory after packing with a checksum is refused with ChecksumMismatch.",
  ["inputs", "configurations"],
  "all chunk lengths, all checksums, metadata absent or present; number of chunks bounded",
  "One test of two shapes runs the memory classes, never compared with the file path, never with an altered chunk.",
  ["memory_io.py", "abstract_io.py"],
  [("memory source/sink", "memory_io.*"), ("pack/unpack loops", "abstract_io.pack, abstract_io.unpack")],
  ["PlainMemorySink.chunks", "CompressedMemorySink.chunks/checksums"])

p("C03", "Packed output conforms to the documented file format",
  "The bytes produced by any pack call are exactly: the 32-byte bloscpack header, the metadata section if and only if metadata was given, the offsets section of 8 bytes per chunk and per preallocated chunk if and only if offsets were requested, then each compressed chunk followed by its digest, and nothing else. "
  "Every header field (magic, format version 3, option bits, checksum id, typesize, chunk-size, last-chunk, nchunks, max-app-chunks) has the documented position, width and little-endian encoding and describes the actual content.",
  ["inputs", "configurations"],
  "all lengths, chunk sizes, compressed sizes, preallocations and option combinations; chunk count bounded",
  "The tests decode with the same code that encoded, so a symmetric change of the format on both sides passes; only default settings are laid out byte by byte.",
  ["headers.py", "file_io.py", "abstract_io.py", "constants.py"],
  [("header encoding", "headers.BloscpackHeader.encode"), ("section writers", "file_io.CompressedFPSink")],
  ["the packed bytes"])

p("C04", "Bloscpack header codec is exact and rejects invalid headers",
  "For every combination of valid field values, encoding a BloscpackHeader yields 32 bytes in the documented layout and decoding them yields an equal header. "
  "Decoding 32 arbitrary bytes either returns a header whose re-encoding is exactly those bytes, or raises ValueError (wrong magic, reserved option bits, unknown checksum id, field out of range, or inconsistent fields); any other length raises ValueError. "
  "Constructing a header with an out-of-range or inconsistent field (for example last_chunk above chunk_size, nchunks+max_app_chunks above 2**63-1, or max_app_chunks non-zero with unknown nchunks) raises ValueError.",
  ["inputs"],
  "all field values over their full documented integer ranges and beyond, all 32-byte strings",
  "Tests try a few values per field; the joint space and rejected inputs are unreachable by examples.",
  ["headers.py"],
  [("BloscpackHeader", "headers.BloscpackHeader.__init__/encode/decode"), ("option bits", "headers.create_options/decode_options/check_options*")],
  ["encoded bytes, decoded attributes, exceptions"])

p("C05", "Metadata header codec is exact and rejects invalid headers",
  "For every combination of valid field values (magic format and user codec of up to 8 bytes that do not end in NUL), encoding a MetadataHeader yields 32 bytes in the documented layout and decoding them yields an equal header. "
  "Decoding 32 arbitrary bytes either returns a header whose re-encoding is exactly those bytes or raises ValueError or IndexError for unknown checksum or codec ids and out-of-range levels; any other length raises ValueError. "
  "Constructing one with an out-of-range number, an over-long string or an unknown checksum or codec raises ValueError.",
  ["inputs"],
  "all field values and all 32-byte strings",
  "Tests try a few values per field, and never strings with leading NUL bytes.",
  ["headers.py"],
  [("MetadataHeader", "headers.MetadataHeader.__init__/encode/decode"), ("NUL padding", "headers._pad_with_nulls, headers.decode_magic_string")],
  ["encoded bytes, decoded attributes, exceptions"])

p("C06", "Chunking covers the input exactly within documented limits",
  "For every input size and every chunk size from 1 to the Blosc maximum buffer size, the chunking (nchunks, chunk_size, last_chunk) satisfies (nchunks-1)*chunk_size + last_chunk = input size with 1 <= last_chunk <= chunk_size, uses the requested chunk size unless the input is smaller (then one chunk of the input size), and a zero-length input gives one chunk of length zero. "
  "Out-of-range chunk sizes and negative input sizes raise ValueError, and more than 2**63-1 chunks raise ChunkingException. "
  "A human readable chunk size such as '1M' means the same as its number of bytes.",
  ["inputs"],
  "all integer input sizes and chunk sizes (no upper bound on either)",
  "Tests use about ten hand-picked pairs.",
  ["args.py", "pretty.py"],
  [("calculate_nchunks", "args.calculate_nchunks"), ("range check", "headers.check_range")],
  ["returned triple, exceptions"])

p("C07", "Preallocated chunk count honours the request and the limits",
  "With offsets and a known chunk count, the header's max_app_chunks is the requested integer, or the value the requested callable returns for nchunks, clamped so that nchunks + max_app_chunks never exceeds 2**63-1; without offsets or with unknown nchunks it is always zero and the request is ignored. "
  "A negative integer, a negative callable result, a non-integer callable result and an integer above 2**63-1 raise ValueError; a request that is neither integer nor callable raises TypeError.",
  ["inputs"],
  "all nchunks, all integer requests and callable results (unbounded integers), offsets on and off",
  "Tests pick a dozen values; the clamp boundary is one value of 2**63.",
  ["args.py", "abstract_io.py"],
  [("_handle_max_apps", "args._handle_max_apps")],
  ["returned value and packed header, exceptions"])

p("C08", "Offsets are exact when complete and absent until then",
  "In a completely packed file with offsets, entry i of the offsets section is the absolute position of the first byte of chunk i for every chunk, and every preallocated entry is -1. "
  "If packing stops before the last chunk is completely written (an input read, a compression or an output write of a header, metadata, offset placeholder, chunk or digest fails), every offset the partial file holds in its offsets section is still -1, so an unfinished file can be recognised. "
  "Without offsets the file has no offsets section.",
  ["inputs", "crash_points", "fault_sequences"],
  "all chunk sizes, compressed sizes, digest sizes, preallocations; a stop at every individual read, compress and write up to the last chunk (the final writing of the offsets themselves is not interrupted); chunk count bounded",
  "Tests check a few complete files and never interrupt packing.",
  ["file_io.py", "abstract_io.py"],
  [("offset reservation and final rewrite", "file_io.CompressedFPSink.init_offsets/put/finalize"), ("offset codec", "file_io._write_offsets, file_io._read_offsets")],
  ["file bytes after success and after every interruption"])

p("C09", "Corruption of checksummed data is always reported, never delivered",
  "When a file or buffer packed with a checksum has a chunk whose stored digest differs from the digest of the stored compressed bytes, unpacking raises ChecksumMismatch (or fails on the damaged chunk header) and no byte decompressed from that or any later chunk is delivered. "
  "When the metadata digest differs, reading raises ChecksumMismatch and no metadata is returned. "
  "An undamaged file is never refused, with any of the nine checksum settings.",
  ["inputs", "fault_sequences"],
  "any replacement of any stored chunk or metadata bytes or digest, at any chunk, for every checksum kind; chunk count bounded",
  "Tests flip one byte of one file with one checksum.",
  ["abstract_io.py", "file_io.py", "checksums.py"],
  [("digest comparison before decompression", "abstract_io.unpack"), ("chunk reader", "file_io._read_compressed_chunk_fp"), ("metadata check", "file_io._read_metadata")],
  ["exception raised, bytes written to the output"])

p("C10", "Truncated input is always reported",
  "Unpacking any proper prefix of a packed file or buffer - cut anywhere inside or between the header, metadata, offsets, chunks or digests - raises an error instead of returning short data as if complete. "
  "This holds with every checksum setting, with and without offsets and metadata.",
  ["inputs", "crash_points"],
  "all files and every cut position (symbolic); chunk count bounded",
  "The tests never unpack a truncated file.",
  ["file_io.py", "abstract_io.py", "headers.py"],
  [("readers", "file_io._read_beginning, file_io._read_compressed_chunk_fp"), ("verification", "abstract_io.unpack")],
  ["exception vs. normal return of unpack"])

p("C11", "Metadata section is self-consistent, sized and checksummed as requested",
  "Writing then reading a metadata section with any combination of codec, level, checksum and preallocation returns the same metadata and a header whose meta_size, meta_comp_size and max_meta_size are the uncompressed, stored and reserved sizes. "
  "Compression is used only when it does not enlarge the metadata; otherwise the section is stored raw with codec 'None' and level 0. "
  "The stored bytes, the NUL padding up to max_meta_size and the digest of the stored bytes occupy exactly the number of bytes the writer reports, and metadata that does not fit max_meta_size raises MetadataSectionTooSmall before anything is written.",
  ["inputs", "configurations"],
  "all metadata sizes, compressed sizes, levels, reserved sizes (integer or callable), all nine checksums and both codecs",
  "Tests use one small dictionary, and the not-beneficial branch once.",
  ["file_io.py", "args.py", "metacodecs.py", "serializers.py"],
  [("_write_metadata", "file_io._write_metadata"), ("_read_metadata", "file_io._read_metadata"), ("MetadataArgs", "args.MetadataArgs")],
  ["bytes of the section, returned size, exceptions"])

p("C12", "In-place metadata rewrite changes the metadata section and nothing else",
  "Rewriting the metadata of a file replaces the old metadata by the new one (readable afterwards) while the section keeps its total size and every byte outside the metadata section is unchanged, so that all data still unpacks. "
  "A rewrite that is refused (unchanged metadata, not enough space, checksum of another length, unknown serializer, checksum or codec, bad level, no metadata section) raises and leaves the whole file unchanged.",
  ["inputs", "histories"],
  "any prior metadata section and any new metadata, sizes, compressibility and override arguments",
  "Tests rewrite one file; the neighbouring bytes and refusals are checked in one or two cases.",
  ["append.py", "file_io.py"],
  [("_rewrite_metadata_fp / _recreate_metadata / _seek_to_metadata", "append.py"), ("_write_metadata", "file_io.py")],
  ["file bytes before and after"])

p("C13", "Append extends the content and keeps the file valid",
  "Appending to any valid non-empty file with offsets and enough preallocated space, with or without metadata and with any checksum, yields a file that is byte for byte a well-formed bloscpack file: it unpacks to the old content followed by the new content, with unchanged metadata, exact offsets, -1 in the remaining preallocated entries, correct digests, header counts that match, and no bytes after the last chunk. "
  "nchunks + max_app_chunks stays the same, and the returned number is the number of chunks added. "
  "Since the result is again a valid file, this holds for any sequence of appends, of any sizes including zero. Data cannot be appended to the file of a zero-length input, which has no chunk size; that is refused.",
  ["inputs", "histories"],
  "an arbitrary valid pre-state (any chunk size, last chunk length, compressed sizes, preallocation, metadata) and any appended length; one inductive step; chunk count bounded",
  "Tests append a few fixed sizes once or repeat one size.",
  ["append.py", "file_io.py", "args.py"],
  [("append_fp", "append.append_fp"), ("append", "append.append")],
  ["the file after append"])

p("C14", "A refused append leaves the file untouched",
  "When append refuses - no offsets section, not enough preallocated space, wrong format version, invalid blosc arguments, unusable prior file - it raises and the target file is byte for byte what it was before. "
  "Space is refused exactly when the data needs more new chunks than max_app_chunks allows.",
  ["inputs", "histories", "configurations"],
  "an arbitrary valid pre-state, any appended length, any blosc arguments",
  "One test checks that NotEnoughSpace is raised; none compares the file.",
  ["append.py"],
  [("checks before the first write", "append.append_fp")],
  ["file bytes after the exception"])

p("C15", "Append never launders a corrupted last chunk",
  "If the stored last chunk of a checksummed file does not match its digest, append raises ChecksumMismatch and leaves the file unchanged, rather than re-compressing the damaged data under a fresh, valid digest.",
  ["inputs", "fault_sequences"],
  "any replacement of the last chunk's bytes or digest, every checksum kind, any appended length",
  "No test appends to a damaged file.",
  ["append.py"],
  [("append_fp", "append.append_fp")],
  ["exception, file bytes"])

p("C16", "Numpy arrays round-trip through exactly their own memory",
  "Packing an array (any contiguous, Fortran-ordered or non-contiguous layout, any item size accepted by Blosc, any admissible chunk size, including empty arrays) compresses every byte of the array exactly once and reads no byte outside it; unpacking allocates an array of the recorded dtype, shape and order and fills every byte exactly once, each with the byte it came from. "
  "The metadata stored with the data records container 'numpy' and the array's dtype, shape and order.",
  ["inputs", "configurations"],
  "all element counts, chunk sizes, memory positions; item sizes from a stated set; C/F/non-contiguous layouts; chunk count bounded",
  "Tests use about twenty small arrays with one or two chunk sizes; over-reads and under-fills are invisible to them.",
  ["numpy_io.py", "abstract_io.py", "args.py"],
  [("PlainNumpySource", "numpy_io.PlainNumpySource"), ("PlainNumpySink", "numpy_io.PlainNumpySink"), ("pack_ndarray/unpack_ndarray", "numpy_io.py")],
  ["pointer ranges passed to Blosc, resulting array"])

p("C17", "Numpy misuse is refused without touching foreign memory",
  "Packing an array of Python objects with any pack_ndarray* function raises ObjectNumpyArrayRejection, and a chunk size (after its reduction to the size of a smaller array) that is not a multiple of the item size raises ChunkSizeTypeSizeMismatch; unpacking data without numpy metadata raises NotANumpyArray. "
  "Unpacking never writes outside the array it allocated and never returns an array with bytes that were not filled from the packed data: content that is larger or smaller than the recorded dtype and shape raises an error.",
  ["inputs", "histories"],
  "arbitrary metadata values and arbitrary chunk lengths that disagree with the recorded shape, all item sizes from a stated set",
  "Tests check one object array, one odd chunk size and one missing metadata; never a size disagreement.",
  ["numpy_io.py"],
  [("guards", "numpy_io.pack_ndarray, PlainNumpySource.__iter__, PlainNumpySink.__init__/put, unpack_ndarray")],
  ["exceptions, pointer ranges passed to Blosc"])

p("C18", "Command line never overwrites or misnames files unasked",
  "compress and decompress never open, truncate or change an existing output file unless --force was given, and exit with status 1 instead; with a missing input they exit with status 1 and create nothing. "
  "Without an explicit output name, compress writes <input>.blp and decompress writes the input name without its .blp; decompress and append refuse names that do not end in .blp unless --no-check-extension was given (for decompress, then an output name is required). "
  "An existing output with --force is replaced by the correct result; but when the output (or, for append, the file to read from) is the very file named first, the command is refused with status 1 and leaves it unchanged, with or without --force. Nothing is ever written to a file with the empty name (decompressing '.blp' without an output name).",
  ["inputs", "configurations"],
  "all plain file names without directory parts (symbolic strings; the output is not the input itself), all existence patterns, all combinations of these options",
  "Tests call the helpers with a few names; main() is only run in cram files.",
  ["cli.py"],
  [("check_files, process_*_args", "cli.py"), ("main", "cli.main")],
  ["files opened for writing, exit status"])

p("C19", "Command line options reach the library unchanged and errors exit cleanly",
  "For compress, the chunk size ('max', a number of bytes, or a number with suffix), typesize, clevel, shuffle, codec, checksum, offsets, metadata and thread options given on the command line are exactly those used for packing; append likewise uses its blosc options and rewrites metadata if asked. "
  "Invalid values - a chunk size below 1 or above the Blosc maximum or malformed, a thread count outside 1..max, an unreadable metadata file - and failures (checksum mismatch, format version mismatch, not enough space to append, missing metadata section) end with an error message and a non-zero exit status, never with an unhandled exception.",
  ["inputs", "configurations"],
  "all numeric option values, all option combinations, each listed failure (inputs truncated behind an intact header are not among them: the library refuses them, C10, but with other exceptions), file sizes up to 2**62",
  "Unit tests cover three options; failures at the end of main() are never exercised.",
  ["cli.py", "args.py", "pretty.py"],
  [("create_parser, main", "cli.py"), ("CheckChunkSizeOption, CheckThreadOption", "cli.py")],
  ["arguments received by the library, exit status"])

p("C20", "Human readable sizes are read and printed accurately",
  "A size text of a non-negative number and a suffix B, K, M, G or T denotes that number times 1, 2**10, 2**20, 2**30 or 2**40 bytes, truncated to an integer; an unknown suffix raises ValueError. "
  "Printing a size uses the largest suffix not above it, a value within half a hundredth of the unit of the true size, and '0B' for zero; reading a printed size gives back the size to within that rounding, exactly when it is below 1K. "
  "The double form also contains the exact number of bytes.",
  ["inputs"],
  "all integer sizes from 0 to 2**44 and all decimal texts with up to two decimals in that range",
  "Tests use about twenty literals.",
  ["pretty.py", "constants.py"],
  [("pretty_size, double_pretty_size, reverse_pretty", "pretty.py")],
  ["returned text or number"])

p("C21", "Every chunk is compressed with the requested Blosc settings",
  "Every chunk of a packed file or buffer is compressed with exactly the requested (or documented default) typesize, compression level, shuffle and codec, and the file header records that typesize; numpy packing uses the array's item size as typesize. "
  "append compresses every chunk it writes, including the refilled last chunk, with the given blosc settings, where each setting left unset is the file's typesize or the documented default.",
  ["inputs", "configurations"],
  "all settings values, all lengths; chunk count bounded",
  "Tests look at the typesize of one chunk; the other settings are invisible in most outputs.",
  ["abstract_io.py", "append.py", "numpy_io.py", "args.py", "defaults.py"],
  [("compress calls", "abstract_io._compress_chunk_str, numpy_io._compress_chunk_ptr"), ("argument defaults", "args.BloscArgs, append.append_fp")],
  ["arguments of the Blosc compressor, header typesize"])

p("C22", "Verbosity does not change behaviour",
  "At every log level (normal, verbose, debug) packing, unpacking, appending and metadata rewriting produce the same bytes, return the same values and raise the same errors; messages go to standard output only and never fail. "
  "A message is shown exactly when its level does not exceed the current one, set_level selects the level and rejects unknown ones with ValueError, and error exits with the requested status.",
  ["inputs", "configurations"],
  "all three levels, same inputs as packing, unpacking and appending; chunk count bounded",
  "The tests run almost everything at one level; debug-only code paths are hardly executed.",
  ["log.py", "abstract_io.py", "file_io.py", "append.py", "headers.py"],
  [("log functions", "log.py"), ("level-dependent blocks", "abstract_io.pack/unpack, file_io._read_compressed_chunk_fp")],
  ["outputs at each level"])

p("C23", "Calls are isolated: arguments are not modified and history does not matter",
  "No pack, unpack or append call modifies the argument objects, metadata, bytes or arrays the caller passes in. "
  "The result of a call is therefore the same whether the same argument objects (or the library) were used before, for whatever inputs, or are fresh.",
  ["inputs", "histories"],
  "two consecutive calls with arbitrary different inputs sharing argument objects, compared with fresh ones",
  "Tests build fresh arguments for every call.",
  ["args.py", "file_io.py", "append.py", "numpy_io.py", "abstract_io.py"],
  [("argument handling", "abstract_io.pack, append.append_fp, numpy_io.pack_ndarray, file_io._write_metadata")],
  ["argument objects after the call, output of the second call"])

p("C24", "Argument and header objects behave as fixed-key mappings",
  "BloscArgs, BloscpackArgs, MetadataArgs and both header classes are mappings over exactly their documented attributes: reading, writing and iterating by key agree with attribute access for every value, unknown keys raise KeyError, deletion is refused, and a copy is equal and independent. "
  "Documented defaults apply to every argument that is not given, and argument sets with missing or extra keys are refused with ValueError.",
  ["inputs"],
  "all attribute values (symbolic), all keys",
  "Tests check defaults and a few mutations.",
  ["abstract_objects.py", "args.py", "headers.py", "defaults.py"],
  [("MutableMappingObject", "abstract_objects.py"), ("argument checks", "args._check_*")],
  ["mapping operations"])

p("C25", "Blosc chunk headers and flags are decoded exactly",
  "For every 16-byte Blosc chunk header the decoded version, versionlz, flags, typesize, nbytes, blocksize and ctbytes are the documented bytes read as unsigned little-endian integers, whatever buffer type holds them, and every flags byte decodes to its documented shuffle, memcpy, bit-shuffle and split bits and codec name. "
  "Shorter buffers raise an error instead of decoding to wrong values.",
  ["inputs"],
  "all 16-byte headers, all 256 flag bytes (undocumented codec numbers may raise KeyError), all buffer lengths",
  "One test decodes one real chunk.",
  ["headers.py", "constants.py"],
  [("decode_blosc_header, decode_blosc_flags", "headers.py")],
  ["decoded mapping"])

p("C26", "Checksums, codecs and serializers follow the documented tables",
  "Checksum ids 0..8 are None, adler32, crc32, md5, sha1, sha224, sha256, sha384 and sha512 and codec ids 0..1 are None and zlib; each name yields that algorithm's digest in the documented size and byte order (uint32 little-endian for adler32 and crc32) over exactly the given data, and codec compress/decompress use the requested level and invert each other. "
  "Unknown checksum, codec and serializer names are refused with NoSuchChecksum, NoSuchCodec and NoSuchSerializer.",
  ["inputs"],
  "all data (opaque), all 32-bit checksum values, all levels, all names",
  "Tests compare a few digests of fixed data.",
  ["checksums.py", "metacodecs.py", "serializers.py"],
  [("tables", "checksums.CHECKSUMS, metacodecs.CODECS, serializers.SERIALIZERS"), ("wrappers", "checksums.zlib_hash, checksums.hashlib_hash")],
  ["digest bytes, ids in headers"])

p("C27", "Files of another format version are refused",
  "For every format version byte other than 3, every operation that reads a file (unpack to file, bytes or array, append, metadata rewrite, info) raises FormatVersionMismatch, delivers no data and leaves the file unchanged. "
  "Input that does not begin with the magic marker is refused with ValueError by all of them.",
  ["inputs"],
  "all 255 other version values, all wrong magics, any remaining content",
  "One test patches one version value and calls one function.",
  ["file_io.py", "headers.py", "append.py"],
  [("_read_bloscpack_header", "file_io.py")],
  ["exceptions, outputs"])

p("C28", "Blosc itself compresses losslessly",
  "Decompressing what the Blosc library compressed returns the original bytes for every codec, level, shuffle and typesize.",
  ["inputs"], "all buffers", "Sampling only.", ["abstract_io.py"], [("blosc.compress/decompress", "python-blosc (C extension)")])

p("C29", "Any numpy dtype survives its textual description",
  "For every dtype without objects, including nested, sub-array, aligned and titled ones, the dtype rebuilt from stored metadata equals the original.",
  ["inputs"], "all dtypes", "Tests use a dozen dtypes.", ["numpy_io.py"], [("_ndarray_meta, _conv", "numpy_io.py")])

p("C30", "Results do not depend on the number of Blosc threads",
  "Packing and unpacking give the same content for every number of Blosc threads and when run concurrently from several threads.",
  ["schedules"], "all thread counts and schedules", "Tests run with one schedule.", ["cli.py"], [("process_nthread_arg", "cli.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
