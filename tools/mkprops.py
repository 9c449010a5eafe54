#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the JSON stays well formed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

KX, KD, ST, KY, CI = "src/kdbx.cc", "src/kdb.cc", "src/stream.cc", "src/key.cc", "src/cipher.cc"

prop("C01", "KDBX save/load returns the same database",
 "Saving any database to a KDBX file and loading it again with the same key returns the same database: every group, entry, history version, string, attachment, icon, colour, tag, time, counter, flag, auto-type setting, custom field, metadata value and header parameter that the format can hold, in the same order, with the same protection marks. "
 "Text may contain any characters XML can carry (markup characters, leading/trailing/only whitespace, line breaks, any Unicode), binary data any bytes, and numbers any value of their range; only what KDBX has no place for (the group flag word, selection references to objects outside the tree, icons without data, custom data without a key, the compression wish of a protected or inline attachment) is excepted. "
 "It holds for any shape and size of tree (groups nested up to a thousand levels), with and without compression, and for a second and third save/load cycle too.",
 ["inputs", "histories", "configurations"],
 "All in-memory databases a program can build with the public setters, all keys, compression on/off, all counts of save/load cycles.",
 "The tests re-save three fixed files and compare them; no test has whitespace, markup, NULs in attachments, many binaries, large values, history attachments, protected non-password strings, or full-range integers.",
 [KX, "src/entry.hh", "src/group.hh", "src/metadata.hh", ST],
 [("XML writer/reader pairs", KX + ": WriteXml/ParseXml and the functions they call"),
  ("compression and block framing", ST)],
 ["KdbxFile::Export followed by KdbxFile::Import, compared through the accessors"])

prop("C02", "KDB save/load returns the same database",
 "Saving a database to a KDB file and loading it again with the same key returns the same tree: groups in the same nesting and order with name, times, icon and flags, and in each group the same entries in the same order with their strings, times, icon, UUID and single attachment, byte for byte. "
 "It holds for both ciphers (AES and Twofish), any nesting depth and order of siblings, any text without NUL, any attachment bytes, and a time that means \"never\" stays \"never\". "
 "Only what KDB has no place for (metadata, custom fields, history, protection marks, entries directly under the root, more than one attachment per entry) is excepted.",
 ["inputs", "histories", "configurations"],
 "All in-memory databases expressible in KDB, both ciphers, all keys, repeated cycles.",
 "The tests re-save a few fixed files whose trees never return to an outer level and then descend again, and whose attachments are text.",
 [KD, CI], [("group/entry record writer and reader", KD + ": WriteGroup/WriteEntry/ReadGroup/ReadEntry"),
            ("tree flattening and rebuilding", KD + ": Import/Export")],
 ["KdbFile::Export followed by KdbFile::Import"])

prop("C03", "Any well-formed KDB file imports to the tree it describes",
 "Importing a well-formed KDB file written by any program yields exactly the tree its records describe: each group is a child of the nearest preceding group one level above it, each entry sits in the group whose identifier it names, siblings keep file order, and fields are decoded whatever their order, with unknown-purpose comment fields skipped and missing optional fields left at their defaults. "
 "An attachment has exactly the stored name and bytes, and an unused attachment name field makes no attachment. "
 "A level that skips a generation, an entry naming a missing group, an illegal field type, or an unsupported version or cipher is rejected with an error.",
 ["inputs"], "All sequences of group and entry records (levels, identifiers, field orders and contents), both ciphers.",
 "The fixed KDB fixtures contain few level patterns; wrong parents appear only for sequences that close several levels and reopen them.",
 [KD], [("level stack", KD + ": Import"), ("field readers", KD + ": ReadGroup, ReadEntry")],
 ["KdbFile::Import on files produced by an independent encoder"])

prop("C04", "Any well-formed KDBX file imports to the database it describes",
 "Importing a well-formed KDBX file written by any program yields exactly what its XML describes: documented defaults for absent elements, strings protected in the stream or only in memory, binaries stored plain, gzip-compressed or protected, attachments stored inline or by reference, icons, colours, times, booleans in any letter case, and header fields in any order. "
 "Binary data keeps every byte including NULs. "
 "An attachment that refers to a missing binary, an unknown cipher, compression method, inner stream or header field, a missing mandatory element or a header-checksum mismatch is rejected with an error.",
 ["inputs", "configurations"], "All KDBX 3.1 documents over the supported vocabulary, optional elements present or absent, all encodings of values.",
 "Fixtures come from one producer with default settings: no inline attachments, no compressed binaries with NULs, no absent elements.",
 [KX], [("XML readers", KX + ": ParseMeta, ParseGroup, ParseEntry, ParseProtectedString"), ("header reader", KX + ": Import")],
 ["KdbxFile::Import on files produced by an independent encoder"])

prop("C05", "Exported files follow the published file formats",
 "A file the library exports can be read by an independent implementation of the published KDB or KDBX format and has the same content: signature, version and header layout, content and header hashes, key derivation, cipher, padding, block framing, compression, XML vocabulary, protected-stream order, binary identifiers, record layout, counts and terminators. "
 "In particular the reader needs nothing from this library to recover every value.",
 ["inputs", "configurations"], "All databases, keys, ciphers, compression settings and round counts.",
 "The tests only let the library read its own output, so a matching change in writer and reader goes unseen.",
 [KX, KD, ST, CI, "src/base64.hh", "src/random.cc"],
 [("header and body writers", KX + " and " + KD + ": Export"), ("framing", ST)],
 ["the bytes KdbxFile::Export and KdbFile::Export write"])

prop("C06", "Only the right composite key opens a file",
 "A file exported with some composite key (password, key file or both) is opened by a key made of the same parts, and any other key - a different, truncated, extended, case-changed or missing password, a different or missing key file, one part too many - is refused with the invalid-password error. "
 "A refused attempt returns no database content and does not change the file, the key or what later attempts do.",
 ["inputs", "histories"], "All pairs of export key and import key over passwords and key files, both formats, any order of attempts.",
 "Tests open each fixture with the right key and a single wrong password.",
 [KY, KX, KD], [("content check", KX + ": start bytes; " + KD + ": content hash"), ("composite key", KY)],
 ["KdbxFile::Import, KdbFile::Import with wrong keys"])

prop("C07", "Key derivation depends exactly on password, key file, seed and rounds",
 "The derived key is the one the formats define: the SHA-256 of the password and the 32-byte key-file key are combined (KDBX always hashes the combination, KDB only when both parts are present), passed the given number of AES-256 encryption rounds under the seed, and hashed. "
 "A later setting replaces the same part and leaves the other, the order of settings is irrelevant, and an XML key file and a 64-digit hexadecimal key file (digits in any letter case) with the same 32 bytes are the same key. "
 "A key file that is missing or not in a supported form is refused with an error and leaves the key as it was.",
 ["inputs", "histories"], "All sequences of setting passwords and key files (valid and invalid) followed by derivations for any seed, round count and mode.",
 "No test sets parts in another order or twice, fails a key-file load, or checks the derived bytes against an independent computation.",
 [KY, CI], [("composite key resolution", KY + ": CompositeKey::Resolve, Transform"), ("key file parsing", KY + ": SetKeyFile")],
 ["Key::Transform"])

prop("C08", "Damaged or altered files never load as different content",
 "If any byte of an exported file is changed, removed or added, importing it with the right key either fails with an error or returns exactly the database that was saved; it never returns other content. "
 "For KDBX any change to the header is always refused. "
 "(For KDB the record counts, the version's low bits and undefined flag bits, which the format does not authenticate, are excepted.)",
 ["inputs", "fault_sequences"], "All positions and values of single and multiple byte changes, block rearrangements, truncations and extensions of any exported file, both formats.",
 "The tests corrupt one hashed block in one stream; no whole file is ever altered.",
 [KX, KD, ST, CI], [("header hash", KX + ": Import"), ("block hashes", ST), ("content hash", KD + ": Import"), ("padding check", CI)],
 ["KdbxFile::Import, KdbFile::Import on altered files"])

prop("C09", "Hashed block streams carry data exactly and reject every deviation",
 "Whatever bytes are written to a hashed block stream, in writes of any size and with any block size, are read back exactly, and the stream is a sequence of blocks numbered from zero, each of the chosen block size except a shorter last one, each with its SHA-256, closed by one empty block with a zero hash. "
 "Reading a stream whose blocks are reordered, repeated, dropped, renumbered, altered or cut short anywhere delivers at most the data of the intact leading blocks and then reports an error instead of a normal end.",
 ["inputs", "fault_sequences"], "All payloads, block sizes, write and read chunkings, and all deviations from a valid stream.",
 "Tests use six fixed payloads and one corrupted block.",
 [ST], [("block reader/writer", ST + ": hashed_istreambuf, hashed_ostreambuf")],
 ["hashed_istreambuf, hashed_ostreambuf; KDBX files with rearranged blocks"])

prop("C10", "Gzip streams carry data exactly and detect truncation",
 "Any bytes written to a gzip output stream decompress to exactly those bytes with any gzip implementation, and reading a single-member gzip stream made by any implementation (any level, strategy, header fields or block types) through the gzip input stream delivers exactly the original bytes whatever the sizes of reads. "
 "A compressed stream that is cut short or altered is reported as an error and never taken for a shorter complete stream.",
 ["inputs", "fault_sequences"], "All payloads and sizes (in particular around internal buffer sizes), all encoders, all truncation points.",
 "Tests use four fixed sizes of one kind of data produced by one encoder.",
 [ST], [("inflate/deflate loops", ST + ": gzip_istreambuf::underflow, gzip_ostreambuf::WriteOutput")],
 ["gzip_istreambuf, gzip_ostreambuf"])

prop("C11", "CBC encryption and padding are exact and validated",
 "Encrypting a stream of any length gives the standard cipher-block-chaining ciphertext of its PKCS#7-padded content under the given block cipher and initialization vector, and decrypting it gives back exactly the original bytes. "
 "Decrypting input that is empty, not a whole number of blocks, or does not end in valid padding is reported as an error.",
 ["inputs"], "All stream lengths and contents, block ciphers and initialization vectors; all malformed ciphertext lengths and final padding values.",
 "Tests encrypt a couple of fixed texts and never check malformed input.",
 [CI], [("CBC loops", CI + ": encrypt_cbc, decrypt_cbc")], ["encrypt_cbc, decrypt_cbc"])

prop("C12", "Protected values are hidden in the file and recovered exactly",
 "Every string or binary marked protected is stored in the exported document only in its masked form, and is recovered exactly with its mark when read back, while unprotected values are stored as they are and stay unmarked. "
 "Masking runs one continuous key stream over the protected values in document order, so any number, size and arrangement of protected values - in metadata binaries, entries, custom fields, history versions and nested groups, including empty ones - neither disturbs another value nor is readable without the stream key.",
 ["inputs"], "All assignments of protection marks to the strings and binaries of any database, values of any length relative to the 64-byte key-stream block.",
 "Fixtures protect passwords only; a consistent change of order in reader and writer, or unmasked output, passes every test.",
 [KX, "src/random.cc", CI], [("masking", "src/random.cc"), ("protected string writer/reader", KX)],
 ["the decrypted XML of exported files; imported values"])

prop("C13", "References inside a loaded database point at its own objects",
 "After loading a KDBX file, the recycle bin, template group, last selected group, last visible group and each group's last visible entry are the very objects in the loaded tree that carry the named UUID, custom icons are the objects in the icon list, and attachments referring to the same stored binary share that object. "
 "A reference to something the file does not contain never resolves to a wrong object and never makes loading fail by crashing. "
 "Saving again writes the same references.",
 ["inputs", "histories"], "All assignments of references to present, absent, nested, forward and duplicate targets.",
 "Tests compare dumps and never follow a reference or compare object identity.",
 [KX, "src/metadata.hh", "src/group.hh"], [("lookup pools", KX + ": GetGroup, ParseXml, ParseEntry, ParseGroup")],
 ["accessors of the imported database (object identity)"])

prop("C14", "Operations are independent of history and leave their inputs unchanged",
 "The result of each import or export depends only on its arguments: using one library object for many imports and exports, of different files and keys, successful or failed, in any order, gives the same results as fresh objects each time. "
 "Exporting changes neither the database nor the key, importing changes neither the file nor previously loaded databases, exports to the same path leave nothing of the earlier content, and a database read back from an export can be exported and read back again without further change. "
 "Two exports of an unchanged database have equal content.",
 ["histories"], "All interleavings of builds, edits, imports, exports and failures over several databases, files, keys and library objects.",
 "Tests use each object once.",
 [KX, KD, KY], [("per-operation reset of object state", KX + ": Reset")],
 ["sequences of KdbxFile/KdbFile Import and Export calls"])

prop("C15", "Malformed input is refused with an exception, never a crash or hang",
 "Importing any file - of any bytes, including a correctly encrypted file with malformed records, XML, numbers, dates, base64, sizes or references inside - either returns a database or throws an exception derived from the standard exception class; it never crashes, aborts, reads or writes out of bounds, or fails to end in time proportionate to the file (apart from the key-derivation rounds the file asks for; group nesting up to a thousand levels, history nesting to a hundred). "
 "A database returned from such an import can be saved in the same format, compared and dumped without crashing either.",
 ["inputs", "fault_sequences"], "All byte strings as KDB and KDBX files and key files, in particular all mutations of the plaintext inside a correctly encrypted file.",
 "Tests import only valid files; inputs that get past decryption but are malformed inside are never produced.",
 [KX, KD, ST, KY, "src/base64.hh", "src/io.cc"],
 [("reader checks", "every Parse/Read function"), ("bounded reads", "src/io.cc, src/iterator.hh")],
 ["KdbxFile::Import, KdbFile::Import, Key::SetKeyFile in a separate process under sanitizers"])

prop("C16", "A failed save is reported, never silently incomplete",
 "If exporting a database returns normally, the complete file has been handed to the operating system and loads back; if writing fails at any point (disk full, size limit, device error, unwritable or missing directory), the export throws an error. "
 "After such a failure the database, key and library object are unchanged and a later export to a good place succeeds.",
 ["fault_sequences", "crash_points"], "All byte offsets at which the destination can stop accepting data, both formats, all destinations that cannot be opened.",
 "No test makes a write fail.",
 [KX, KD, CI], [("stream state checks", "Export in " + KX + " and " + KD)],
 ["return or exception of Export with a limited file size or a full device"])

prop("C17", "Equality means equal content",
 "Two entries (groups, attachments, fields, auto-type settings, binaries) compare equal exactly when all their parts are equal: every scalar field, and lists of the same length with pairwise equal elements in order, including nested history, attachments, associations, custom fields, subgroups and entries. "
 "Objects shared by reference (a custom icon, a group's last visible entry) are equal when they are the same object and unequal when one is missing or their contents differ; an icon is its image data, and how a binary is stored (compressed or shared) is no part of its value. "
 "The comparison is symmetric, reflexive, agrees with its negation, and never reads past the end of the shorter list.",
 ["inputs"], "All pairs of objects, in particular pairs that differ in exactly one part or where one list is a prefix of the other.",
 "The tests never compare unequal databases, or lists of different lengths.",
 ["src/entry.cc", "src/entry.hh", "src/group.cc", "src/util.hh", "src/security.hh", "src/binary.hh"],
 [("comparison operators", "operator== in entry, group, binary, security"), ("element-wise comparison", "src/util.hh")],
 ["operator== and operator!= on built pairs"])

prop("C18", "Base64 text and bytes convert exactly and malformed text is refused",
 "Encoding any bytes gives the standard padded base64 text, and decoding text gives exactly the bytes it encodes, ignoring white space anywhere. "
 "Text whose length, alphabet or padding is malformed is refused with an error instead of being decoded partially, and decoding into a fixed-size destination never writes beyond it but fails.",
 ["inputs"], "All byte strings and all texts over and outside the alphabet.",
 "Tests cover a handful of strings and no malformed padding.",
 ["src/base64.hh", "src/iterator.hh"], [("codec", "src/base64.hh"), ("bounds-checked output", "src/iterator.hh")],
 ["base64_encode, base64_decode"])

prop("C19", "Dates and times keep their exact second in both formats",
 "Every time from 1970 (in KDBX from the year 1000) to the formats' limits is stored and read back as the same second: KDBX in UTC as ISO 8601 text, KDB as packed local calendar fields, including leap days, month and year ends, and midnight. "
 "The special \"never\" value of each format is read as \"no time\" and \"no time\" is written as \"never\". "
 "Malformed dates never crash the import.",
 ["inputs", "configurations"], "All seconds in the supported range (KDB: outside the ambiguous hour when local clocks go back), all time zones.",
 "Fixtures contain a few dates in one time zone.",
 [KX, KD], [("KDBX date text", KX + ": ParseDateTime, WriteDateTime"), ("packed KDB time", KD + ": KdbTime")],
 ["time accessors after Import; bytes written by Export"])

prop("C20", "Ciphers compute the standard AES-256, Twofish-256 and Salsa20",
 "For every key, block and nonce the block ciphers give the standard AES-256 and Twofish-256 results, decryption inverts encryption, and the stream cipher gives the standard Salsa20/20 key stream block after block. "
 "Results do not depend on earlier uses of the same cipher object except for the stream cipher's advancing position.",
 ["inputs", "histories"], "All 256-bit keys, 128-bit blocks, 64-bit nonces and sequences of calls.",
 "Tests use a few published vectors.",
 [CI, "src/cipher.hh"], [("cipher implementations", CI)], ["AesCipher, TwofishCipher, Salsa20Cipher, encrypt_ecb, decrypt_ecb"])

prop("C21", "The JSON dump is valid JSON that states the tree's content",
 "Dumping any group or entry gives a syntactically valid JSON text whose values are exactly the object's icon, non-empty texts, non-zero times and flags, attachments, subgroups and entries in order, whatever (UTF-8) characters the texts contain. "
 "Bookkeeping entries of the KDB format (titled Meta-Info, of user SYSTEM, URL $, with notes and a bin-stream attachment) are left out and all other entries appear.",
 ["inputs"], "All groups and entries, with any text.",
 "Tests compare dumps of files whose texts need no escaping.",
 ["src/entry.cc", "src/group.cc"], [("dump functions", "ToJson in src/entry.cc, src/group.cc"), ("bookkeeping filter", "src/entry.cc: IsMetaEntry")],
 ["Group::ToJson, Entry::ToJson"])

prop("C22", "New objects and exports get fresh random identifiers",
 "Every newly created group and entry has a UUID of its own, distinct from all others created in the same or other runs, and every KDBX export uses a fresh random 32-byte start sequence that the importer checks. "
 "Explicitly set identifiers are kept and survive save and load.",
 ["histories"], "All numbers of created objects and exports, in one process or many.",
 "The tests generate no UUID twice.",
 ["src/util.cc", "src/random.hh", "src/entry.cc", "src/group.cc", KX],
 [("random generation", "src/util.cc: generate_uuid; src/random.hh: random_array")],
 ["uuid accessors of new objects; header bytes of exports"])

prop("C23", "Calls in different threads do not disturb each other",
 "Imports, exports, dumps, comparisons, key settings and derivations and the conversions below them, made at the same time in several threads, each end as they would alone: with the same result, file and database, and without crashing. "
 "The threads may use the same databases, keys and files as long as nobody changes them, while objects that are changed (and KdbxFile and KdbFile objects) belong to one thread.",
 ["schedules", "histories"], "All interleavings of all pairs and larger sets of calls, with shared and with separate constant arguments.",
 "The tests use one thread only; whether calls meet at the wrong moment depends on the schedule.",
 ["src/util.cc", KX, KD, KY, CI, ST, "src/base64.hh", "src/random.hh"],
 [("time conversions", "src/util.cc: time_to_str; src/kdb.cc: KdbTime; src/kdbx.cc: WriteDateTime"),
  ("state kept between calls", "statics and members of the library's classes")],
 ["results of calls made in several threads, compared with the same calls made one after the other"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
