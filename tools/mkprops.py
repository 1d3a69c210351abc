"""Writes /verif/properties.jsonl (kept as code so that the text is reviewable in one place)."""
import json, os

P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "observe_at": list(observe), "hook_needed": hook}})


RS = "dissect/volume/raid/stream.py"
RR = "dissect/volume/raid/raid.py"

p("C01", "RAID 0 reads return the striped bytes, also across unequal members",
  "Reading any range of an assembled striped set returns, for every byte, the byte that the Linux striping rules place there: whole chunks rotate over the members in index order, and once the smallest members are exhausted striping continues over the remaining larger members from the point they were filled to. This holds for members of any (also unequal or not chunk-aligned) sizes and for reads crossing any number of chunks and zones.",
  ["inputs", "configurations"], "every number of members, chunk size, combination of member sizes and data offsets, offset and length",
  "Tests read one fixed image sequentially inside the first zone, in small blocks; the mapping is arithmetic over unbounded offsets, sizes and member counts.",
  [RS], [("zone construction", "RAID0Stream.__init__"), ("zone lookup and chunk mapping", "RAID0Stream._find_zone, RAID0Stream._read")],
  [("zones", "ordered striping zones with end, start on the members and participating members", "RAID0Stream.zones")], ["bytes returned by read()"])

p("C02", "RAID 4/5/6 reads map every byte to the right data chunk for all layouts",
  "For every supported parity level and layout, reading any range of the array returns exactly the requested number of bytes and each of them is the byte at the member and member offset that the Linux MD / DDF layout tables assign to that array offset. Parity and Q chunks are never returned as data, and an unknown level or layout is refused instead of being read.",
  ["inputs", "configurations"], "every level, layout, member count, chunk size, member data offset, array offset and length",
  "There are 20 layout formulas over unbounded stripe numbers; fixtures exercise a handful with the default layout and single-chunk reads.",
  [RS], [("stripe to device mapping", "RAID456Stream._get_stripe_read_info"), ("read loop", "RAID456Stream._read")],
  [], ["bytes returned by read()"])

p("C03", "RAID 10 reads map every byte to a valid copy for near, far and offset layouts",
  "Reading any range of a striped-mirror array returns exactly the requested bytes, each taken from the first copy that the Linux near/far/offset layout places on the members for that array offset. An undefined layout word is refused.",
  ["inputs", "configurations"], "every layout word, member count, chunk size, member data offset, array offset and length",
  "Fixtures use one layout with aligned sequential reads; the mapping is arithmetic over unbounded offsets.",
  [RS], [("layout decoding", "RAID10Stream.__init__"), ("read loop", "RAID10Stream._read")], [], ["bytes returned by read()"])

p("C04", "Opening an array selects the right reader; linear and mirror data is exact",
  "Opening a virtual disk yields a stream with the semantics of its recorded RAID level: concatenation of the members in index order for linear sets, the contents of an available member's data area starting at its recorded data start for mirrors, and the striped or parity mapping otherwise. An unsupported level is refused.",
  ["inputs", "configurations"], "every level, member count, member size and data start, in any insertion order of the members",
  "Tests open each level once, with members that all start at zero and have equal sizes.",
  [RR, RS], [("dispatch on level", "VirtualDisk.open"), ("concatenation", "LinearStream.__init__"), ("member window", "PhysicalDisk.open")],
  [], ["type and contents of the opened stream"])

p("C05", "Incomplete arrays are refused or raise; data is never fabricated",
  "When members are missing, opening a striped or concatenated set fails, and opening a parity set fails once more members are missing than the level tolerates. Whenever a read would need a member that is absent the read raises; it never returns made-up, zeroed or misplaced bytes, while ranges that only touch present members still read correctly.",
  ["inputs", "fault_sequences"], "every subset of missing members, level, layout, offset and length",
  "Only complete sets are tested; the property quantifies over all subsets of absent members and all read ranges.",
  [RS], [("completeness checks", "LinearStream.__init__, RAID0Stream.__init__, RAID456Stream.__init__"), ("member lookup", "RAID456Stream._read, RAID10Stream._read")],
  [], ["exceptions raised by open() and read()"])

p("C06", "MD superblocks are found at every standard place and decoded per the format",
  "A Linux MD member is recognised by a superblock at any of the four standard locations for its size and refused if none is present. Every decoded attribute (set identity and name, event count, level, layout, chunk size, number of members, data offset and size, own role, timestamps) equals the value of the on-disk format, for both 0.90 and 1.x metadata.",
  ["inputs"], "every device size and every superblock content, all metadata versions",
  "Fixtures cover a few generated superblocks; positions depend arithmetically on the device size and roles/flags take many values.",
  ["dissect/volume/md/md.py", "dissect/volume/md/c_md.py"],
  [("superblock search", "find_super_block"), ("superblock decoding", "MDPhysicalDisk.__init__"), ("timestamp decoding", "_parse_ts")],
  [], ["attributes of the member object", "exceptions"])

p("C07", "MD members are grouped into arrays by identity, role and freshest metadata",
  "Given any collection of MD members in any order, exactly one array results per distinct set identity, containing exactly the active members of that set keyed by their role, with spare, faulty and journal devices never used as data members. The array's name, identity, level, layout, chunk size and member count come from the member with the highest event count, and its size follows from the level and the member sizes.",
  ["inputs", "configurations"], "every list of members (any order, any mix of sets, roles and event counts)",
  "Tests pass the complete members of one set in order; the property is about arbitrary permutations, mixtures and stale or spare members.",
  ["dissect/volume/md/md.py"], [("grouping", "MD.__init__"), ("ordering", "MDConfiguration.__init__"), ("reference member and size", "MDVirtualDisk.__init__")],
  [], ["configurations and virtual disks of the set"])

p("C08", "DDF metadata sections are parsed record by record as laid out on disk",
  "A DDF member is accepted only if its anchor at the end of the device has the DDF signature, and every section is read at the primary header's position plus its recorded section start. All populated physical and virtual disk records and all valid configuration records of the section are returned with the values stored on disk, regardless of invalid or unused configuration slots between them.",
  ["inputs"], "every anchor content, section placement, number of records and pattern of valid and unused slots",
  "Fixtures contain only fully valid, densely packed sections.",
  ["dissect/volume/ddf/ddf.py", "dissect/volume/ddf/c_ddf.py"],
  [("anchor and section offsets", "DDFPhysicalDisk.__init__"), ("record readers", "_read_physical_disk_records, _read_virtual_disk_records, _read_virtual_disk_configuration_records")],
  [], ["attributes of the member object", "exceptions"])

p("C09", "DDF configurations become the right arrays with the right member placement",
  "Members are grouped by DDF header identity, and each configured virtual disk is exposed once with level, layout, stripe size, size and member count as defined by the DDF level, qualifier and secondary level of its configuration. Each present physical disk is placed at the index given by its position among the used elements (offset by the secondary element), with its recorded starting block as data start; unsupported level combinations are refused. A concatenation joins the elements, each with the length recorded on its own disk.",
  ["inputs", "configurations"], "every combination of level, qualifier, secondary level and element counts; every subset and order of members",
  "The level tables have dozens of combinations and fixtures cover one parameterisation per level with complete, ordered members.",
  ["dissect/volume/ddf/ddf.py"], [("level conversion", "_convert_raid_layout"), ("member placement", "DDFConfiguration.__init__"), ("geometry", "DDFVirtualDisk.__init__")],
  [], ["virtual disks of each configuration"])

p("C10", "Vinum configuration text is parsed exactly as the FreeBSD kernel does",
  "For any configuration text, the parsed volumes, plexes and subdisks are those the FreeBSD vinum rules produce: lines are split on newlines and NULs, tokens on blanks, comments are dropped, sizes are scaled by their unit suffix, and the first unparsable line ends parsing while everything before it is kept. Parsing never crashes on malformed text.",
  ["inputs"], "every byte string",
  "Existing tests sample a few dozen token lists; the input space is all byte strings.",
  ["dissect/volume/vinum/config.py"], [("tokeniser", "tokenize, get_char"), ("line parsers", "_parse_volume_config, _parse_plex_config, _parse_sd_config, _parse_size"), ("driver", "parse_vinum_config")],
  [], ["returned configuration"])

p("C11", "Vinum volumes are assembled from the newest configuration and usable parts only",
  "Across any set of drives, each volume, plex and subdisk is taken from the most recent configuration among active drives, and a volume is exposed exactly when it has a usable plex with at least one usable subdisk on a present drive. Subdisks occupy the position given by their plex offset, level, size and stripe size follow from the plex organisation, and several usable plexes of a volume form a mirror.",
  ["inputs", "configurations"], "every list of drives with any configuration texts, timestamps, states, missing drives and orders",
  "Fixtures are complete sets where all drives carry the same up-to-date configuration.",
  ["dissect/volume/vinum/vinum.py"], [("merging and filtering", "VinumConfiguration.__init__"), ("geometry", "VinumPlexDisk.__init__, VinumMirrorDisk.__init__"), ("drive header", "VinumPhysicalDisk.__init__")],
  [], ["virtual disks of the configuration"])

p("C12", "Thin-pool B-tree lookups find a key exactly when it is stored",
  "For every well-formed on-disk device-mapper B-tree and every key path, a lookup returns the stored value if the key is present and reports absence otherwise, including nested (multi-level) keys. The result does not depend on earlier lookups.",
  ["inputs", "histories"], "every well-formed tree (any depth, fan-out, value size), every key, any sequence of lookups",
  "Tests look up a few keys in one small single-leaf tree.",
  ["dissect/volume/dm/btree.py"], [("descent", "BTree.lookup, BTree._lookup"), ("node decoding", "Node.key, Node.value")],
  [], ["value returned by lookup()"])

p("C13", "Thin device reads return mapped data and zeros exactly where unmapped",
  "Reading any range of a thin device returns, block by block, the pool data of the block recorded in the mapping tree and zeros for blocks without a mapping, also when mapped and unmapped blocks mix within one read. With a known size nothing beyond it is returned; an unknown device id or bad superblock magic is refused.",
  ["inputs", "configurations"], "every mapping, block size, device size, offset and length",
  "Tests read ranges that are entirely mapped or entirely unmapped on one image.",
  ["dissect/volume/dm/thin.py"], [("read loop", "ThinDevice._read"), ("mapping value decoding", "_unpack_block_time"), ("superblock", "Metadata.__init__")],
  [], ["bytes returned by read()", "exceptions"])

p("C14", "LVM physical volume labels and metadata areas are located and decoded correctly",
  "An LVM2 physical volume is recognised by a label in any of the first four sectors, and identity, size, data area and metadata location are those recorded in the header the label points to. The metadata text handed to the parser is exactly the current committed metadata, and devices without label or with an unsupported number of data areas are refused.",
  ["inputs"], "every label sector, header offset, descriptor list and metadata location",
  "Fixtures always have the label in sector 1 and one metadata area at the default place.",
  ["dissect/volume/lvm/physical.py", "dissect/volume/lvm/c_lvm2.py"], [("label scan and descriptors", "LVM2Device.__init__, _read_descriptors"), ("metadata text", "LVM2Device.metadata"), ("data area", "LVM2Device.open, LVM2Device.read_sectors")],
  [], ["attributes of the device", "exceptions"])

p("C15", "LVM metadata text parses to the structure it denotes",
  "Any well-formed LVM2 metadata text parses to the nested sections and values it denotes, independent of comments, blank lines, indentation and of whether list values are written on one or several lines. Volume group, physical volume, logical volume and segment objects carry exactly those values, with segments of each type represented by their own kind.",
  ["inputs"], "every metadata document of the LVM2 text grammar",
  "Fixtures contain a few documents written by one tool version.",
  ["dissect/volume/lvm/physical.py", "dissect/volume/lvm/metadata.py"], [("text parser", "parse_metadata, _parse_key_value"), ("object construction", "MetaBase._from_dict, Segment.from_dict")],
  [], ["parsed metadata and object attributes"])

p("C16", "LVM logical volumes read the extents their segments describe",
  "Reading any range of a linear, striped, mirrored or thin logical volume returns the bytes of the physical extents that its segments assign to that range, on the physical volumes identified by their ids. A missing physical volume is reported as an error naming it, and never silently replaced.",
  ["inputs", "configurations", "fault_sequences"], "every extent size, segment list, stripe layout, PV placement, missing PV, offset and length",
  "Fixtures have single-segment, single-stripe volumes on complete volume groups.",
  ["dissect/volume/lvm/metadata.py", "dissect/volume/lvm/lvm2.py", "dissect/volume/lvm/physical.py"],
  [("LV mapping", "LogicalVolume.open"), ("segment mapping", "StripedSegment.open, MirrorSegment.open, ThinSegment.open"), ("PV attachment", "VolumeGroup.attach, PhysicalVolume.open, PhysicalVolume.size")],
  [], ["bytes returned by read()", "exceptions"])

p("C17", "MBR tables list every primary and logical partition at its true place",
  "For every master boot record, exactly the non-empty primary entries and the non-empty logical entries reachable through the chain of extended boot records are listed, with start and size in bytes computed from the sector fields, relative to the disk for primaries and to their own boot record for logicals. Sectors without the boot signature or that are filesystem boot sectors are refused.",
  ["inputs"], "every table content, chain length, chain position and sector size",
  "Fixtures hold one or two tables; the chain is recursive and entries are arbitrary.",
  ["dissect/volume/disk/schemes/mbr.py"], [("signature checks", "MBR.__init__"), ("entry and chain walk", "MBR._partitions")], [], ["list of partitions", "exceptions"])

p("C18", "GPT tables list every used entry exactly once with its recorded extent",
  "For every GUID partition table, each used entry of the recorded partition array (wherever it is, whatever its entry count and entry size) is listed exactly once, in order, with number, offset, size, type, identity, flags and name taken from that entry, and other partitions of a hybrid MBR are listed as well. Disks without a protective entry or without the GPT signature are refused.",
  ["inputs"], "every header, entry count, entry size, array position, entry content, sector size and hybrid MBR",
  "Fixtures have 128 entries of 128 bytes at the default location.",
  ["dissect/volume/disk/schemes/gpt.py"], [("header detection", "GPT.__init__"), ("entry walk", "GPT._partitions")], [], ["list of partitions", "exceptions"])

p("C19", "Apple and BSD partition tables list every entry at its recorded extent",
  "For every Apple partition map all recorded entries, and for every 32- or 64-bit BSD disklabel all used entries other than the whole-disk entry, are listed with number, byte offset, byte size, type and name as recorded, BSD offsets being relative to the start of the label's own area. Blocks without the right signature are refused.",
  ["inputs"], "every table content, entry count and sector size",
  "Fixtures hold one table per scheme.",
  ["dissect/volume/disk/schemes/apm.py", "dissect/volume/disk/schemes/bsd.py"], [("APM walk", "APM.__init__, APM._partitions"), ("disklabel walk", "BSD.__init__, BSD._partitions")], [], ["list of partitions", "exceptions"])

p("C20", "Disks pick the scheme that matches and expand nested BSD labels",
  "Opening a disk selects the first scheme, in the order GPT, MBR, Apple, BSD, whose structures are valid, each tried from the same starting position, and fails if none is. The partition list is that scheme's list in order, with partitions of a BSD type replaced by the entries of the disklabel inside them; a protective entry without a readable GPT is reported instead of returned as data.",
  ["inputs", "histories"], "every outcome combination of the schemes, every partition list, every initial file position",
  "Fixtures contain one scheme each; combinations and failure orders are not covered.",
  ["dissect/volume/disk/disk.py"], [("scheme probing", "Disk.__init__"), ("serial", "Disk.serial")], [], ["scheme, partitions and exceptions"])

p("C21", "An opened partition exposes exactly its extent and stays inside it",
  "For every partition, the stream obtained by opening it has the partition's size and every byte of it equals the corresponding byte of the containing disk at partition offset plus position; no sequence of seeks and reads returns a byte outside that window. Type labels depend only on the recorded type.",
  ["inputs", "histories"], "every offset, size and every sequence of seek and read calls",
  "Tests compare a few reads at the start of partitions.",
  ["dissect/volume/disk/partition.py"], [("window", "Partition.open"), ("type naming", "translate_partition_type")], [], ["bytes returned by the partition stream"])

p("C22", "Reads have no side effects: results depend only on position and length",
  "Every reader positions the underlying handles itself, so the bytes returned for a range of a volume depend only on that range and on the media, not on where other readers of the same handle left it, on the order of earlier reads or on caches. Readers only seek and read; they never write to or resize the media.",
  ["histories"], "every interleaving of reads on volumes that share handles",
  "Tests read each volume once on fresh handles.",
  [RS, "dissect/volume/dm/thin.py", "dissect/volume/lvm/metadata.py", "dissect/volume/disk/partition.py", "dissect/volume/vss.py"],
  [("explicit positioning before each read", "RAID0Stream._read, RAID456Stream._read, RAID10Stream._read, ThinDevice._read, BTree._read_node"), ("read-only use of handles", "all readers")],
  [("handle position", "current position of a shared underlying file", "member and media handles")], ["bytes returned by read()", "calls made on the media handles"])

p("C23", "Shadow copies resolve each block to its state at snapshot time",
  "Reading a block of a shadow copy returns the stored copy if one was recorded, follows forwarded blocks, otherwise falls through to the next newer snapshot and finally to the live volume (or zeros for blocks not allocated), and applies partial overlays of the opened snapshot on top. Chained metadata blocks are read completely and records with a wrong identifier or type are refused.",
  ["inputs", "configurations"], "every block list, chain of snapshots, overlay bitmap, bitmaps and read range",
  "The module has no tests.",
  ["dissect/volume/vss.py"], [("block resolution", "Store.read_block"), ("descriptor merging", "BlockMap.add"), ("chained blocks", "read_block, read_block_data"), ("stream", "StoreStream._read")],
  [], ["bytes returned by the snapshot stream"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
