#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech, observe_at=observe, hook_needed=None)))
def m(name, where): return dict(name=name, where=where)

prop("C01", "After a crash the view is exactly the last committed state",
 "For a journaled filesystem whose writer crashed at any point, loading it and reading it through the API shows exactly the filesystem state after the last transaction whose journal blocks are all intact on the medium (the maximal committed prefix of the live log): every committed create, write, rename, delete, truncate and attribute change, and every committed change of label, identity or size of the filesystem, is visible, nothing of an uncommitted or torn transaction is, and no revoked or superseded journal copy hides newer contents. "
 "This holds wherever the log starts and wraps, for revoked and later re-logged or reused blocks, for stale blocks of earlier log generations lying after the end of the log, and for home locations that have or have not yet been (partly) checkpointed. "
 "A journal that is damaged beyond that prefix only hides the transactions from the damage on; it never makes loading fail or mixes states.",
 ["crash_points","histories","fault_sequences","configurations"],
 "every history of metadata and data operations grouped into transactions, every crash point between any two device writes, every subset/tear of the writes not yet flushed, every log position incl. wrap-around, every checkpoint progress",
 "The existing tests read two prepared images (one 4K journal, fixed content, log starting at block 1, one transaction run) and unit-test single journal blocks; they sample no crash point, no wrap-around, no revocation history and no torn write.",
 ["src/journal.rs","src/journal/block_map.rs","src/journal/descriptor_block.rs","src/journal/revocation_block.rs","src/journal/commit_block.rs","src/journal/superblock.rs","src/lib.rs"],
 [m("log scan building the block remapping, applied at commit blocks only","src/journal/block_map.rs: load_block_map / BlockMapLoader"),
  m("remapping of every block read","src/lib.rs: Ext4::read_from_block, src/journal.rs: map_block_index"),
  m("sequence and checksum validation of log blocks","src/journal/*_block.rs")],
 ["Ext4::load","every read API after load"])

prop("C02", "A failing device read never yields wrong results",
 "Whenever the device behind the filesystem fails a read (transiently, persistently for a region, with partially filled buffers, during load or any later call), each call either returns the correct result or fails with the I/O error that this very device returned; it never panics, never returns wrong or truncated data as success, and never turns the device error into another answer such as 'not found', 'does not exist', end of file, end of directory or a corruption report. "
 "A transaction in the journal is never skipped because reading it failed.",
 ["fault_sequences","schedules","inputs"],
 "every placement and kind of device read failure in every history of calls by any number of clients, on every filesystem",
 "Tests use in-memory readers that never fail (except for one too-short buffer at load); no test injects an I/O error after load.",
 ["src/lib.rs","src/block_cache.rs","src/file.rs","src/reader.rs","src/iters.rs","src/iters/read_dir.rs","src/iters/extents.rs","src/journal/block_map.rs","src/resolve.rs","src/dir.rs"],
 [m("reader errors wrapped as Ext4Error::Io and propagated","src/lib.rs: read_from_block, load"),
  m("cache filled only after a successful read","src/block_cache.rs: get_or_insert_blocks"),
  m("result iterators stop after an error","src/iters.rs: impl_result_iter")],
 ["return values of all public calls","the device read seam (Ext4Read)"])

prop("C03", "Work continues correctly once device faults stop",
 "After any sequence of failed calls, once the device works again every operation on the same filesystem handle, its clones and already open files succeeds with the correct result; retrying a failed load succeeds. "
 "An open file survives failures: a failed read leaves the position unchanged, and after a failed read or seek every later read or seek returns exactly the bytes belonging to the position, to the end of the file. "
 "A directory iterator that reported an error ends cleanly and a new one lists the directory completely.",
 ["fault_sequences","histories","schedules"],
 "every sequence of operations and device failures followed by a fault-free suffix",
 "No test performs any operation after an I/O failure.",
 ["src/file.rs","src/block_cache.rs","src/iters.rs","src/iters/file_blocks/extents_blocks.rs","src/iters/file_blocks/block_map.rs","src/lib.rs"],
 [m("file cursor and block iterator state","src/file.rs: File::read_bytes, File::seek_to"),
  m("cache contents after failure","src/block_cache.rs")],
 ["results after the last fault","File::position"])

prop("C04", "Results do not depend on caching, clones, other users or order",
 "On an unchanging filesystem every call returns the same result whatever other calls happened before or are interleaved with it: any number of handles, clones, open files, directory iterators and directory entries used in any order, repeatedly, and with the original handle dropped, behave as if each had the filesystem to itself. "
 "In particular nothing a client reads can evict, alias or corrupt what another client sees, for every block size and any amount of cached or re-read data.",
 ["schedules","histories","configurations"],
 "every interleaving of the calls of any number of clients sharing one filesystem, for every block size and working set relative to the cache",
 "Each test performs one operation at a time on a fresh handle and touches less data than the cache holds; cache unit tests use three synthetic blocks.",
 ["src/block_cache.rs","src/lib.rs","src/file.rs","src/iters/read_dir.rs","src/dir_entry.rs"],
 [m("LRU block cache with grouped read-ahead","src/block_cache.rs"),
  m("shared state behind Rc/RefCell","src/lib.rs: Ext4Inner")],
 ["all public results"])

prop("C05", "An open file behaves as a byte array with a cursor",
 "For every sequence of reads (any buffer size), seeks (absolute, relative to end or current position, to any 64-bit offset, before or beyond the end) and position queries, a file handle behaves like a cursor over the file's bytes: a read returns between 1 and the requested number of bytes that are the file's bytes at the position and advances by that amount, returns 0 exactly for an empty buffer or at or beyond the end, a seek sets the position exactly and reading continues from there, and seeking before byte 0 is an error that changes nothing. "
 "Each of these calls terminates and never panics; in particular a seek beyond the end, however far, returns at once, and a seek within the file takes at most time proportional to the number of blocks before its target.",
 ["histories","inputs","configurations"],
 "every sequence of cursor operations on every file layout and block size",
 "Existing tests perform a handful of seeks and reads on three files of two images.",
 ["src/file.rs","src/iters/file_blocks/extents_blocks.rs","src/iters/file_blocks/block_map.rs"],
 [m("position, current block and block iterator kept in step","src/file.rs: read_bytes, seek_to, Read/Seek impls")],
 ["File::{read_bytes,seek_to,position}, std Read/Seek"])

prop("C06", "File contents read back exactly, for every on-disk layout",
 "Reading any regular file yields exactly the bytes last stored in it, of exactly its recorded length: for files mapped by extent trees of any shape and depth, by direct, indirect, double and triple indirect block maps, for fragmented files, at any block address on small and very large devices, with any block size, and whether read whole, as text, in chunks or through a handle. "
 "Holes and preallocated-but-unwritten ranges, wherever they lie and whatever layout expresses them, read as zeros and never as other device contents.",
 ["inputs","configurations","histories"],
 "every file layout (extent tree shape, block map with missing subtrees, fragmentation, sizes not multiple of the block size) on every filesystem geometry",
 "Four fixed images with a few files: no unwritten extents, no sparse block maps, no deep extent trees, no addresses above 32 bits, few block sizes.",
 ["src/iters/extents.rs","src/iters/file_blocks/extents_blocks.rs","src/iters/file_blocks/block_map.rs","src/file.rs","src/lib.rs","src/extent.rs"],
 [m("extent tree traversal","src/iters/extents.rs"),
  m("hole computation","src/iters/file_blocks/extents_blocks.rs"),
  m("block map iterators","src/iters/file_blocks/block_map.rs")],
 ["Ext4::read, read_to_string, open + File reads"])

prop("C07", "Directory listing and lookup agree with the directory",
 "Listing a directory yields every live entry (including . and ..) exactly once with its exact name bytes, path, file type and metadata, and nothing else (no deleted, unused or bookkeeping records). "
 "Looking a name up finds precisely the entries that listing shows, with the inode the entry refers to, and reports any other name as not found. "
 "This holds for single-block, multi-block and hash-indexed directories of any depth, hash function, seed and block size, any names of 1 to 255 arbitrary bytes, and any pattern of insertions and deletions.",
 ["inputs","configurations","histories"],
 "every directory content, name set, deletion pattern, on-disk organisation (linear, htree depth, hash version, collisions)",
 "Two directories of fixed images are listed; the hash is compared for sampled ASCII names; deletions, collisions and most block sizes never occur.",
 ["src/iters/read_dir.rs","src/dir.rs","src/dir_htree.rs","src/dir_entry.rs","src/dir_entry_hash.rs","src/dir_block.rs"],
 [m("linear scan of records","src/iters/read_dir.rs, src/dir_entry.rs"),
  m("hash tree descent","src/dir_htree.rs"),
  m("name hashes","src/dir_entry_hash.rs")],
 ["Ext4::read_dir, DirEntry accessors, exists/metadata/open by path"])

prop("C08", "Paths resolve as Linux resolves them",
 "For every directory tree with symbolic links, every absolute path resolves to the file that the Linux path resolution rules give: '.', '..', repeated and trailing separators, relative and absolute links, chains and nested links; only the final component's link is left unfollowed by the operations documented not to follow it; canonicalize returns the unique link-free path of that same file. "
 "Failures are the documented ones: relative path, missing component, non-directory used as a directory (also by a trailing separator), more than 40 links, over-long path, malformed path, and the per-operation type errors (directory, special file, not a link, not UTF-8). "
 "No path of any length, component count or link structure makes a call panic or fail to terminate.",
 ["inputs","configurations"],
 "every tree of directories, files and links and every path string, for every path-taking operation",
 "About 25 fixed paths on one tree with five links are tested.",
 ["src/resolve.rs","src/lib.rs","src/path.rs","src/inode.rs","src/dir.rs"],
 [m("component-wise resolution with link splicing and limits","src/resolve.rs: resolve_path"),
  m("link target loading","src/inode.rs: symlink_target")],
 ["canonicalize, open, read, read_link, read_dir, exists, metadata, symlink_metadata"])

prop("C09", "Metadata and identity are reported as stored",
 "For every inode, in whichever block group and inode-table position it lies, the reported type, permission bits, owner, group and 64-bit size equal those stored, identically via path, directory entry and open file; the filesystem's label and UUID equal those stored. "
 "This holds for every valid geometry: block size, inode size, descriptor size, number of groups, group and inode-table placement, 32- and 64-bit block addresses, with and without metadata checksums (seeded from UUID or superblock).",
 ["inputs","configurations"],
 "every valid filesystem geometry and every inode's attribute values",
 "Only attributes of a few files on images with one or two block groups and one descriptor size are compared; the superblock parsing tests do not run in this checkout.",
 ["src/inode.rs","src/metadata.rs","src/block_group.rs","src/superblock.rs","src/file_type.rs","src/checksum.rs","src/label.rs","src/uuid.rs"],
 [m("inode location arithmetic","src/inode.rs: get_inode_location"),
  m("descriptor location and parsing","src/block_group.rs"),
  m("superblock parsing and checksum seed","src/superblock.rs")],
 ["metadata, symlink_metadata, DirEntry::metadata, File::metadata, label, uuid"])

prop("C10", "No stored data can cause a panic, hang or runaway memory use",
 "Whatever bytes the device holds (any corruption of any structure of a filesystem, present from the start or appearing while it is in use, with checksums matching or not), every public call terminates with a result or an error: it never panics or aborts, never loops without bound, and uses memory bounded by the sizes actually being read. "
 "Reads issued to the device stay bounded in number by the size of the device.",
 ["inputs","fault_sequences","histories"],
 "every device content, in particular every corruption of every field of every metadata structure including self-references and inconsistent sizes, and every history of calls on it",
 "A few single-field corruptions are unit-tested; random or structural corruption of whole images is not.",
 ["src/superblock.rs","src/block_group.rs","src/inode.rs","src/iters/extents.rs","src/iters/file_blocks/block_map.rs","src/dir_block.rs","src/dir_htree.rs","src/dir_entry.rs","src/journal/block_map.rs","src/journal/descriptor_block.rs","src/file.rs","src/lib.rs"],
 [m("checked arithmetic and validation returning Corrupt errors","throughout src/"),
  m("bounds check of every block read","src/lib.rs: read_from_block")],
 ["process survival, allocator, device read count"])

prop("C11", "With metadata checksums, damaged metadata is never believed",
 "On a filesystem with metadata checksums, any damage that the checksum of the superblock, a group descriptor, an inode, an extent-tree block, a directory block or a hash-index block can detect (bit and burst errors, torn or zeroed sectors, blocks delivered from the wrong place) makes every operation that depends on that structure fail with a corruption error, and never changes what any operation reports as success. "
 "Operations that do not depend on the damaged structure keep returning correct results.",
 ["fault_sequences","inputs","configurations"],
 "every detectable damage to every checksummed structure on every checksummed filesystem, at rest or in a single device read",
 "One inode and a few blocks are corrupted in unit tests; no test ranges over structures, bit positions or misdirected blocks.",
 ["src/checksum.rs","src/superblock.rs","src/block_group.rs","src/inode.rs","src/iters/extents.rs","src/dir_block.rs","src/dir_htree.rs","src/iters/read_dir.rs"],
 [m("CRC32C with per-structure seeds verified before use","src/{superblock,block_group,inode,dir_block}.rs, src/iters/extents.rs")],
 ["results of all calls on damaged images"])

prop("C12", "Only filesystem bytes that are needed and in range are read",
 "On a consistent filesystem, whatever calls are made, however they are interleaved and whatever reads fail, each read issued to the device lies completely within the filesystem and never touches its first 1024 bytes, so a device exactly as large as the filesystem suffices and never reports a read out of range. "
 "Loading reads only the superblock and block group descriptors, plus the journal when the filesystem needs recovery. "
 "Calls answered from already loaded state (label, UUID, metadata and position of an open file) read nothing.",
 ["histories","configurations","fault_sequences"],
 "every filesystem geometry (including sizes that are not a multiple of any read-ahead unit) and every history of calls and faults",
 "Test images are read through buffers without looking at which ranges are requested; geometry at the end of the device is not exercised.",
 ["src/lib.rs","src/block_cache.rs","src/block_group.rs","src/journal.rs","src/file.rs"],
 [m("bounds checks before each read","src/lib.rs: read_from_block"),
  m("read-ahead clamped to the filesystem end","src/block_cache.rs: num_blocks_to_read")],
 ["the sequence of (offset, length) requests at the Ext4Read seam"])

prop("C13", "Formats the library cannot interpret are refused, never misread",
 "A filesystem whose superblock declares an unsupported incompatible feature, lacks a required one, or whose journal needs recovery but is in a format that cannot be replayed (missing or unsupported journal features, unknown superblock or checksum type, mismatched block size, escaped blocks, unknown block types in the live log), is refused with an incompatibility or corruption error instead of being presented without, or with a wrong, recovery. "
 "Within a supported filesystem, encrypted files, symbolic links and directories, and unknown directory hash versions, fail with their documented errors, and everything else stays readable. "
 "A journal that does not need recovery is ignored whatever its contents.",
 ["configurations","crash_points","histories"],
 "every combination of feature flags and journal formats that other writers can leave behind, cleanly unmounted or crashed at any point",
 "Unit tests check a few superblock flags on one image; the combination with journals left behind by crashes is not tested.",
 ["src/superblock.rs","src/features.rs","src/journal/superblock.rs","src/journal/descriptor_block.rs","src/journal/block_map.rs","src/dir.rs","src/dir_entry_hash.rs","src/iters/read_dir.rs"],
 [m("feature checks at load","src/superblock.rs: check_incompat_features, src/journal/superblock.rs"),
  m("encryption and hash checks","src/dir.rs, src/iters/read_dir.rs, src/dir_entry_hash.rs")],
 ["Ext4::load result, directory operations"])

prop("C14", "Path values keep their invariants under all operations",
 "Every Path/PathBuf constructed from bytes, strings or OS strings, and every join, push and component split of it, contains no NUL and no component over 255 bytes; joining follows std::path rules and components reassemble to the same path.",
 ["inputs"],
 "every byte string and every sequence of joins",
 "Tests sample a few dozen strings.",
 ["src/path.rs"],
 [m("validation at construction","src/path.rs: TryFrom impls, push, components")],
 ["Path, PathBuf, Components"])

prop("C15", "Display and debug output of names, labels and UUIDs is faithful",
 "Formatting a path, name or label shows valid UTF-8 unchanged and replaces invalid bytes, labels end at the first NUL, and UUIDs print in canonical 8-4-4-4-12 form, for every byte value.",
 ["inputs"],
 "every byte string",
 "Tests sample a few strings.",
 ["src/format.rs","src/label.rs","src/uuid.rs","src/dir_entry.rs"],
 [m("formatting helpers","src/format.rs, src/label.rs, src/uuid.rs")],
 ["Display/Debug impls"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
