NA = {}
TECH = {}
NOTE = {
    "C01": "reading proved for any number of zones and members; making the zones proved for 1 to 3 members with every ordering of chunk-rounded sizes, 4 to 16 members bounded (sampling); chunk size, sizes, offsets and ranges unbounded",
    "C02": "proved for every layout, any number of members, chunk size, row, offset and length",
    "C03": "proved for every near/far/offset layout word, any number of members, chunk size, offset and length",
    "C04": "proved for linear sets and mirrors of any number of members with any indices; sizes and ranges unbounded",
    "C05": "proved for every subset of absent members, any number of members",
    "C06": "proved for every device size, superblock content, position and metadata version",
    "C07": "proved for up to 4 members in any mix of sets, up to 3 members per array (every role, event count, level and geometry unbounded); more members bounded (sampling); sizes of parity/0.90/linear-with-rounding sets are known findings",
    "C08": "proved for every device size, section placement, record count and pattern of used slots; holes between populated disk records are a known finding",
    "C09": "level conversion and geometry proved for all values; placement proved for up to 3 members, 3 elements and 2 virtual disks or secondary elements, more bounded (sampling); assembled concatenations of any number of elements proved",
    "C10": "proved for every text: tokens of a line of any length, the fields of volume, plex and subdisk records of any number of tokens, sizes, and which lines of a text count; bounded in addition: sampled and damaged whole texts, every short line, size and word sequence over small alphabets",
    "C11": "proved for up to 3 drives, 3 plexes and 3 subdisks per plex (times, sizes, offsets, stripe sizes unbounded) over the records of C10; contents of opened volumes for concatenated (1 to 3 subdisks), striped (2) and RAID 5 (3) plexes, the sets that assembled plexes of any number of subdisks open; more drives bounded (sampling)",
    "C12": "proved for every well-formed tree, any node fill, value size and depth, with and without the next-key search; key paths of any number of levels over the lookup in one tree",
    "C13": "proved for every mapping, block size, size, offset and length over the lookup contract that C12 establishes",
    "C14": "proved for every label sector, header offset, number of data areas, metadata location (wrapping or not) and up to two metadata areas",
    "C15": "construction of the objects proved for every type of segment and all values; the parser proved line by line for texts of any length (sections, lists over several lines, removal of comments by the language of the regular expression); the reading of single values by literal_eval only bounded: random documents in random spellings and the spellings of twelve small documents",
    "C16": "proved for volumes of any number of segments, linear and striped segments (any number of legs, over the contract of RAID 0 sets that C01 proves for up to 3 members and samples beyond), mirrors of up to 3 legs, thin volumes over the C12/C13 contracts, missing volumes; extent size, extents, sizes and ranges unbounded",
    "C17": "proved for every record content, start, sector size; chain by induction over the record walk",
    "C18": "proved for every header, entry count, entry size, array position, sector size and every pattern of empty/protective/other MBR entries; size accepted with or without the last sector (known finding)",
    "C19": "proved for every map and label (any entry count); Apple maps with 512-byte blocks (known finding otherwise)",
    "C20": "proved over contracts of the scheme classes for every outcome combination; partition lists of up to 3 arbitrary entries",
    "C21": "proved for every extent, seek and read; the dissect.util base class is proved from its source for every state",
    "C22": "proved relationally: a read after any number of other reads through any handles (all handle positions arbitrary) returns the same bytes as before them, for MD levels, linear and mirror maps, Vinum plexes, B-trees, thin volumes, LVM volumes, partitions and snapshots of the sizes named by their properties; media are never written; interleavings of several readers and positions at opening also sampled",
    "C23": "proved function by function: one step of the block resolution over arbitrary block maps and the content of the newer snapshot (induction over the chain), one more descriptor for an arbitrary block map, block lists, bitmaps and chains of any length, stream; catalogs of up to three stores; whole images and damaged records sampled",
}
CAUGHT = {}
