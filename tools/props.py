import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":x,"meaning":x,"where":", ".join(files)} for x in state]
    if observe: a["observe_at"]=observe
    P.append(dict(id=id,title=title,statement=st,quantifier={"over":over,"text":qt},why_tests_cant=why,anchors=a))
D="src/disk/"
p("C01","File contents read back exactly as they were written",
 "Whatever sequence of writes a program makes to a file - any sizes, split over any number of calls, with flushes in between, or appended later after closing the file or reopening the disk image - reading the file back yields exactly the accepted bytes, in order, followed by end of file. The result does not depend on the sizes used for the reads or on the disk type.",
 ["inputs","histories","configurations"],"all file lengths and ways of splitting the writes, flushes and reads, all append histories, all disk types and file positions on the disk",
 "The integration test writes each random file with one call and reads it with one read_to_end; split writes, appends, flush points, block-boundary lengths and small reads are not exercised.",
 [D+"chain.rs",D+"file.rs"],[("buffered chain writer","ChainWriter::write / allocate_next_block / flush / drop"),("chain reader","ChainReader::read")],
 state=["chain of linked blocks","tail block length byte"],observe=["file reader","record access","image sectors"])
p("C02","An operation on one file never disturbs any other file",
 "Every block of a formatted disk belongs to at most one owner: the system area, the directory, or exactly one file. Creating, writing, appending, renaming or deleting one file - also while several files are being written in an interleaved fashion, and when blocks or directory slots of deleted files are reused - changes neither the contents nor the directory entry of any other file, nor any block that is not part of the operation.",
 ["schedules","histories","configurations"],"all interleavings of operations and open writers on different files, all reuse histories, all disk types",
 "The integration test has one writer at a time and compares only a sample of final contents; interleaved writers and untouched sectors are never observed.",
 [D+"chain.rs",D+"mod.rs",D+"directory.rs",D+"bam.rs"],[("block allocation","ChainWriter::allocate_next_block, Disk::create_file"),("deallocation","chain::remove_chain"),("slot reuse","directory::next_free_directory_entry")],
 state=["block ownership","directory slots"],observe=["image sectors before/after each call"])
p("C03","Free-space accounting always matches the blocks in use",
 "After every operation the set of blocks marked used is exactly the system area, the directory blocks and the blocks of the existing files; the per-track free counts and the reported number of free blocks agree with it, and every directory entry reports the number of blocks its file occupies. Deleting a file returns exactly its blocks, so creating and deleting files never leaks or loses space.",
 ["histories","schedules","configurations"],"all histories of create/write/append/rename/delete/format, including interleaved writers and full disks, on all disk types",
 "Tests compare only the total of free blocks after single-writer steps and ignore the returned validation errors; per-track counts, bitmaps and per-file sizes are not compared.",
 [D+"bam.rs",D+"chain.rs",D+"mod.rs"],[("BAM entries","Bam::allocate / free / blocks_free"),("size field","ChainWriter::increment_entry_blocks")],
 state=["BAM bitmap and counts","directory entry size"],observe=["Disk::bam, Disk::blocks_free, Disk::directory"])
p("C04","Completed work survives closing and reopening the image",
 "Once every writer has been flushed or closed, the image contains everything: reopening it (with any open mode, from a file or a copy of its bytes) shows the same header, the same directory in the same order, the same file contents and the same free blocks as before. The free-block map stored in the image equals the one in use whenever no writer holds unflushed data.",
 ["histories","configurations"],"all operation histories followed by a close and reopen at any point where nothing is unflushed, all disk types and geometries, memory- and file-backed images",
 "No test ever reopens an image; all tests run on one in-memory disk object.",
 [D+"mod.rs",D+"bam.rs",D+"image.rs",D+"chain.rs"],[("BAM flush","Bam::flush, ChainWriter::flush, chain::remove_chain, Disk::create_file"),("initialise","Disk::initialize")],
 state=["on-image BAM","in-memory BAM"],observe=["image bytes","disk::open"])
p("C05","The directory behaves as an ordered map of unique names",
 "The directory lists exactly the existing files with the name, type and flags they were given; no two files share a name, lookups and renames by any listed name find that file, and names that are absent, already taken or longer than 16 characters are refused with the matching error. A new file takes the first free slot in directory order, the directory grows by one block when all its slots are used, and it can hold as many entries as the directory track has room for.",
 ["histories","inputs"],"all histories of create, rename, delete and attribute changes with all names (including padding and non-printable bytes) up to a completely full directory, on all disk types",
 "The unit test only fills a directory once in order; reuse of arbitrary slots, rename, duplicate and boundary-length names are not covered.",
 [D+"directory.rs",D+"mod.rs"],[("iteration","DirectoryIterator"),("slot search","next_free_directory_entry"),("lookup and rename","Disk::find_directory_entry / rename / check_filename_availability")],
 state=["directory chain and slots"],observe=["Disk::directory, open_file, create_file, rename"])
p("C06","A failed operation leaves the disk as it was",
 "When creating, writing, renaming, deleting or formatting fails (name taken or too long, file missing, disk or directory full, bad location), the existing files, their contents and the free space are unchanged; at most an empty directory block may have been added. A write that runs out of space reports exactly how many bytes were accepted, those bytes are kept, and the disk remains consistent and usable.",
 ["fault_sequences","histories","inputs"],"all failing calls at any point of any history, in particular every point at which the disk or the directory becomes full",
 "The integration test deletes the partially written file on disk-full and never compares the state before and after a failing call.",
 [D+"mod.rs",D+"chain.rs",D+"directory.rs"],[("create rollback","Disk::create_file"),("disk full in a write","ChainWriter::write"),("delete","chain::remove_chain")],
 observe=["result of the call and complete image/BAM before and after"])
p("C07","Block selection follows the documented search and misses no free block",
 "For every free-block map and every previous block, the next block chosen is the one given by the documented CBM search order (or the GEOS order on GEOS disks): first block nearest the directory track, continuing outward on the same side, then the other side, then the whole first side, with the drive's interleave. The chosen block is always free and never in the system area (as far as the map marks it used, on the directory track) or on a reserved track, and 'disk full' is reported only if no suitable block is free.",
 ["inputs","configurations"],"all free-block maps and all previous locations, for the D64, D71 and D81 formats with and without GEOS",
 "Four unit tests follow single fill sequences; other free maps (fragmented, nearly full, exactly one block free) are not sampled.",
 [D+"format.rs",D+"bam.rs"],[("first block","DiskFormat::first_free_block"),("next block","DiskFormat::next_free_block_from_previous"),("track search","next_free_track_cbm / next_free_track_geos")],
 observe=["next-free-block query, blocks actually allocated"])
p("C08","A crash at any point never damages completed files",
 "If the program stops at any point - including in the middle of writing one or more files - the image as it stands then can be opened, and every file that was not being written at that moment is listed and reads back completely. All blocks of those files are marked used in that image, so later writes to it cannot overwrite them.",
 ["crash_points","schedules"],"every prefix of every operation history, with any set of writers open and unflushed at the crash",
 "No test looks at the image while a writer is open.",
 [D+"chain.rs",D+"mod.rs",D+"bam.rs"],[("write ordering","ChainWriter::allocate_next_block / flush"),("BAM flush on create/delete","Disk::create_file, chain::remove_chain")],
 state=["on-image BAM","directory"],observe=["snapshot of the image bytes between calls"])
p("C09","Validation reports exactly the real inconsistencies and changes nothing",
 "Validating a disk reports an error for precisely those blocks that are used but unowned, owned but marked free, owned twice, or system blocks marked free, and for precisely those files whose block chain cannot be followed; a consistent disk yields no errors. Validation never modifies the disk.",
 ["inputs","histories"],"all disk states: consistent ones reached by any history and ones damaged in any combination of map bits, links and directory entries, including REL and GEOS files",
 "The tests call validate only on consistent disks and discard the returned error list.",
 [D+"validation.rs",D+"file.rs",D+"geos/file.rs"],[("ownership map","validation::validate"),("occupied blocks","FileOps::occupied_sectors")],
 observe=["returned list of validation errors"])
p("C10","Any image content is handled without crashing or hanging",
 "Opening and using a disk image whose bytes are arbitrary or damaged - looping, crossing or out-of-range block links, broken directory, map, record or GEOS structures - ends every operation in finite time with a result or an error, never with a crash or an endless loop. Damaged chains and locations outside the disk are reported as errors rather than read as data.",
 ["inputs","configurations"],"all image contents of valid image size, and all operations (list, open, read, write, rename, delete, validate, inspect) on them",
 "Every test starts from an image formatted by the library itself.",
 [D+"chain.rs",D+"file.rs",D+"directory.rs",D+"geos/file.rs",D+"geos/reader.rs",D+"block.rs"],[("loop detection","ChainIterator, ChainWriter::new"),("bounds","ImageBlockDevice::get_offset, Bam::entry"),("structure checks","RelativeFile::new, GEOSFile::new")],
 observe=["termination and result of each call"])
p("C11","Formatting produces an empty, standard, consistent disk",
 "Formatting any image - blank, in use, or damaged - with any name and two-byte id gives a disk with that name and id, an empty directory, the system blocks in use and all other blocks free (664, 1328 and 3160 blocks for the three disk types), with directory, header fields and free-block map at the standard places for that drive. Nothing of the earlier contents is left in any sector, nothing of an earlier format (such as GEOS) governs its use, and the disk can be used at once and after reopening. The capacity the library states for a disk type (directory entries, data blocks) is the one such a disk really offers.",
 ["inputs","configurations","histories"],"all previous image contents, names, ids, disk types, 35/40-track and error-table variants",
 "Tests format only fresh blank images with one geometry per type and check name, id and totals only.",
 [D+"mod.rs",D+"header.rs",D+"bam.rs",D+"d64.rs",D+"d71.rs",D+"d81.rs"],[("format","Disk::write_format"),("header","Header::new / write"),("map","Bam::new, DiskFormat::system_locations")],
 observe=["image sectors, header, directory, free map"])
p("C12","On-disk structures are decoded and encoded faithfully",
 "Directory entries, disk headers, free-block maps and GEOS info blocks found on a disk are presented with exactly the field values of the documented byte layouts. Writing one back (after changing some fields or none) stores exactly those field values and leaves all bytes that are not part of a changed field as they were (the header's fixed padding bytes may be rewritten as padding).",
 ["inputs"],"all byte contents of directory slots, headers, BAM sectors and info blocks, all field changes",
 "Unit tests check four fixed directory entries, one BAM entry and a set of fixed headers; REL and GEOS entries, info blocks and write-back are not covered.",
 [D+"directory.rs",D+"header.rs",D+"bam.rs",D+"geos/mod.rs"],[("directory entry codec","DirectoryEntry::parse / to_bytes, FileAttributes, Extra"),("header codec","Header::read / write"),("BAM codec","BamEntry::from_bytes / write_bitmap, BamWriter"),("info block codec","GEOSInfo::from_bytes / to_bytes")],
 observe=["entry, header, BAM and info accessors; sectors after write-back"])
p("C13","Relative files give access to exactly their records",
 "For a well-formed relative file the number of records and the bytes of every record are those of the data stream cut into pieces of the record length, also when records straddle blocks or the file has several side sectors; other record numbers are refused. A file whose side sectors contradict each other, or whose data is not a whole number of records ending in the last listed block, is refused with an error; the blocks reported as occupied are its data and side sectors, and deleting it returns exactly those.",
 ["inputs","configurations"],"all record lengths 1-254, record counts and block placements up to the maximum file size, and all inconsistent side-sector layouts",
 "No test opens a relative file.",
 [D+"file.rs",D+"directory.rs"],[("side sector scan","RelativeFile::new"),("record position","RelativeFile::record_position / record"),("delete","RelativeFile::delete")],
 observe=["record_count, record, occupied_sectors, delete"])
p("C14","GEOS files expose exactly their records, info and blocks",
 "On GEOS disks the files in the directory and in the border block are listed, each variable-length-record file gives exactly the records its index names (empty ones as empty, nothing before the first or beyond the end of the index), and a sequential file gives its data stream. The info block is returned when present, the occupied blocks are exactly index, records, data and info block, and deleting a file returns exactly those and leaves other files alone.",
 ["inputs","configurations"],"all record indexes (0-127 records with gaps), record lengths, placements, info block presence, border contents, on D64, D71 and D81",
 "No test opens a GEOS file; only header bytes are parsed in tests.",
 [D+"geos/file.rs",D+"geos/mod.rs",D+"directory.rs"],[("VLIR index","GEOSFile::new / record / occupied_sectors / delete"),("border block","DirectoryIterator::new"),("info block","GEOSFile::info")],
 observe=["directory listing, record_count, record, geos_info, occupied_sectors, delete"])
p("C15","GEOS Convert export is a complete, exact, finite byte stream",
 "Exporting a GEOS file yields its directory entry block with signature, its info block, for record files the index as block counts and last-byte positions, and then all record data, each record but the last padded to whole blocks. The stream is the same for every sequence of read sizes, and it ends after the last byte.",
 ["inputs","configurations"],"all GEOS files (record layouts, empty and long records, sequential) and all read-size sequences including one byte at a time",
 "No test reads a GEOS file through the export reader.",
 [D+"geos/reader.rs"],[("state machine","GEOSReader::next_state / read"),("index conversion","GEOSReader::process_vlir_index_block")],
 observe=["bytes returned by the export reader"])
p("C16","Every sector address maps to its own place in a recognised image",
 "Images are recognised by extension or, without one, by size; all standard sizes (35/40-track D64, D71, D81, each with or without error table) are accepted and other sizes are refused. Each valid track/sector names its own 256 bytes at the standard position in the file, writing one sector changes no other byte of the image, and addresses outside the disk or wrong-sized data are refused.",
 ["inputs","configurations"],"all image sizes and extensions, all 256x256 track/sector pairs, all geometries, file and memory backing",
 "Unit tests only check the internal consistency of the track tables; no test opens an image by file name or addresses invalid sectors.",
 [D+"block.rs",D+"d64.rs",D+"d71.rs",D+"d81.rs",D+"image.rs",D+"mod.rs"],[("offset computation","ImageBlockDevice::get_offset"),("geometry selection","Geometry::find_by_size, disk::open, DiskType::from_extension"),("creation","Image::create")],
 observe=["file bytes versus read_sector/write_sector"])
p("C17","Images opened read-only are never changed",
 "On an image opened read-only every attempt to format, create, write, rename, delete or store a sector fails with an error no later than the flush, and neither the image file nor the state visible through the open disk (directory, contents, free blocks) changes, also across several failed attempts. All reading operations give the same results as on a writable image.",
 ["histories","inputs"],"all operation histories on read-only images of all types",
 "No test opens an image read-only.",
 [D+"image.rs",D+"block.rs",D+"mod.rs",D+"chain.rs"],[("writability check","Image::check_writability, ImageBlockDevice::sector_mut"),("early check","Disk::create_file, chain::remove_chain")],
 observe=["call results, file bytes, visible state"])
p("C18","PETSCII text conversion is total, consistent and length-preserving",
 "Converting text to PETSCII gives one byte per character and converting PETSCII to text one character per byte; letters, digits and punctuation map case-swapped as documented, characters without a counterpart map to the designated replacement, and converting a representable text to PETSCII and back returns the same text. Padding and unpadding a name to a fixed width is lossless up to trailing padding and refuses names that do not fit. A disk id is the first two bytes of the converted text, missing ones being zero.",
 ["inputs"],"all 256 PETSCII codes, all Unicode characters, all strings and pad widths",
 "The unit tests sample a few codes and strings.",
 ["src/petscii.rs"],[("mapping table","PETSCII_TO_CHAR_MAP"),("conversions","Petscii::from_str_lossy, Display"),("padding","from_padded_bytes, write_bytes_with_padding")],
 observe=["converted strings and bytes"])
p("C19","Sprite pictures and hex dumps show exactly the data",
 "Rendering a 24x21 sprite gives 11 lines of 12 block glyphs in which every 2x2 pixel group appears as the glyph with exactly those pixels set, and storing a sprite returns the bytes it was made from. Hex dumps of sectors, files and disks show every byte exactly once, in order, at the right offset under the right track, sector or record heading.",
 ["inputs"],"all sprite bitmaps, all buffers and lengths, all disks and files",
 "No test renders a sprite or a dump.",
 ["src/sprite.rs","src/util/mod.rs",D+"block.rs",D+"file.rs"],[("glyph selection","Sprite::to_unicode"),("hex dump","util::hexdump, BlockDevice::dump, FileOps::dump")],
 observe=["rendered text"])
p("C20","The command-line tool does what its commands say",
 "Each command of the disk tool (create, format, write, append, read, geosread, rename, delete, dir, dump, validate, bam show/allocate/free) has exactly the effect of the corresponding library operation on the image and files named, and its output shows the resulting directory, contents or free map. A command that cannot be carried out says so, exits with a failure status and leaves the image unchanged (except that a write or append that runs out of space keeps the part it could store, as one intact file, and a write without room for its first block may leave an added empty directory block); a successful one exits with status zero.",
 ["histories","inputs"],"all command sequences with valid and invalid arguments on all disk types",
 "No test runs the tool.",
 ["src/bin/cdisk.rs"],[("commands","cmd_* functions"),("exit status","main")],
 observe=["exit status, stdout, image bytes"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
