A = "h_ref.go h_header.go h_codec.go h_refdec.go h_arch.go".split()
X = A + ["h_extract.go"]
U = A + ["h_update.go"]
O = U + ["h_opts.go"]
M = U + ["h_extract.go", "h_many.go"]
H = "h_ref.go h_header.go".split()
C = ["h_codec.go", "h_refdec.go"]
S = C + ["h_scaf.go"]
D = S + ["h_dec.go"]
T = C + ["h_tokens.go"]
Y = D + ["h_hist.go"]

def J(jid, jfiles, harness, tmo=120, tier="", reach=(), bounds="", ms=0, **params):
    j = {"id": jid, "files": jfiles, "harness": harness, "params": params, "timeout": tmo, "bounds": bounds}
    if tier: j["tier"] = tier
    if reach: j["reach"] = list(reach)
    if ms: j["solver_ms"] = ms
    return j

NOTE = ("The solver decides every assertion for all values of the symbolic inputs within the bounds of each job "
        "(listed in the evidence); outside them nothing is claimed. Trusted: the executor, its environment models and the SMT solver; "
        "every reported violation is replayed on the natively compiled code first.")
FS = "the file system, standard input and output are the in-memory model harness/zzverif/vos; faults are single failing operations"

PROPS = []
NOT_APPLICABLE = []

def P(id, title, statement, over, quant, why, files, mech, observe, jobs, assume=(), note=NOTE):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
        mech=mech, observe=observe, jobs=jobs, assume=list(assume), note=note))

# ------------------------------------------------------------------ C01
P("C01", "Compressing and decompressing a stream returns the original bytes",
  "For each compression method the library can write (-lh0-, -lh1-, -lh5-, -lh6-, -lh7-) and every input, decoding the encoder's output with the original size returns exactly the input bytes. The encoder reports the number of bytes it read and wrote, and the decoder consumes exactly the packed bytes.",
  ["inputs"], "every byte string, every method",
  "The tests compress one fixed file; a coder fails on particular repetition patterns, window positions, symbol distributions or block boundaries that no sample hits.",
  ["slide.go", "huf.go", "dhuf.go", "shuf.go", "maketree.go", "maketbl.go", "bitio.go", "crcio.go"],
  [("EncodeLzhuf", "append.go"), ("encode", "slide.go"), ("DecodeLzhuf", "extract.go"), ("decode", "slide.go")],
  ["EncodeLzhuf", "DecodeLzhuf"],
  [J("lh5-a2", C, "VH_codec", 200, method=5, alpha=2, n=5, reach=["packed"], bounds="5 bytes over a 2 letter alphabet, all symbolic"),
   J("lh6-a2", C, "VH_codec", 200, method=6, alpha=2, n=4, reach=["packed"], bounds="4 bytes over a 2 letter alphabet"),
   J("lh7-a2", C, "VH_codec", 200, method=7, alpha=2, n=4, reach=["packed"], bounds="4 bytes over a 2 letter alphabet"),
   J("lh0", C, "VH_codec", 200, method=0, n=4, reach=["packed"], bounds="4 arbitrary bytes"),
   J("lh5-dist", S, "VH_scaf", 200, method=5, shape=1, len=5, lo=8190, hi=8195, reach=["packed"], bounds="a string of 5 bytes recurs at distance 8190 to 8195", ref=1),
   J("lh1-dist", S, "VH_scaf", 200, method=1, shape=1, len=5, lo=4094, hi=4098, reach=["packed"], bounds="a string of 5 bytes recurs at distance 4094 to 4098", ref=1),
   J("lh6-dist", S, "VH_scaf", 200, method=6, shape=1, len=5, lo=32766, hi=32770, reach=["packed"], bounds="a string of 5 bytes recurs at distance 32766 to 32770", ref=1),
   J("lh7-dist", S, "VH_scaf", 200, method=7, shape=1, len=5, lo=65534, hi=65538, reach=["packed"], bounds="a string of 5 bytes recurs at distance 65534 to 65538", ref=1),
   J("lh5-run", S, "VH_scaf", 200, method=5, shape=2, lo=1, hi=270, n=1, alpha=2, split=1, reach=["packed"], bounds="runs of 1 to 270 letters", ref=1),
   J("lh5-run2", S, "VH_scaf", 200, method=5, shape=2, lo=510, hi=522, n=1, alpha=2, split=1, tail=5, reach=["packed"], bounds="runs of 510 to 522 letters", ref=1),
   J("lh1-run", S, "VH_scaf", 200, method=1, shape=2, lo=1, hi=130, n=1, alpha=2, split=1, reach=["packed"], bounds="runs of 1 to 130 letters", ref=1),
   J("lh5-gap", S, "VH_scaf", 200, method=5, shape=3, lo=1, hi=200, reach=["packed"], bounds="two letters 1 to 200 apart", ref=1),
   J("lh7-gap", S, "VH_scaf", 200, method=7, shape=3, lo=15, hi=25, base=0, reach=["packed"], bounds="two letters 15 to 25 apart", ref=1),
   J("lh5-noise", S, "VH_scaf", 200, method=5, shape=4, m=256, lo=0, hi=100, n=1, alpha=2, split=1, reach=["packed"], bounds="0 to 100 noise bytes", ref=1),
   J("lh1-noise", S, "VH_scaf", 200, method=1, shape=4, m=256, lo=0, hi=100, n=1, alpha=2, split=1, reach=["packed"], bounds="0 to 100 noise bytes", ref=1),
   J("lh6-noise", S, "VH_scaf", 200, method=6, shape=4, m=3, lo=0, hi=100, n=1, alpha=2, split=1, reach=["packed"], bounds="0 to 100 noise bytes over 3 letters", ref=1),
   J("lh5-dict", S, "VH_scaf", 200, method=5, shape=4, m=2, lo=8190, hi=8194, n=1, alpha=2, split=1, reach=["packed"], bounds="8190 to 8194 noise bytes over 2 letters", ref=1),
   J("lh5-dict2", S, "VH_scaf", 200, method=5, shape=4, m=4, lo=16638, hi=16641, reach=["packed"], bounds="16638 to 16641 noise bytes over 4 letters", ref=1),
   J("lh5-block", S, "VH_scaf", 200, method=5, shape=4, m=256, lo=58224, hi=58227, reach=["packed"], bounds="58224 to 58227 noise bytes: one byte more or less than a block", ref=1),
   J("lh1-long", S, "VH_scaf", 200, method=1, shape=4, m=256, lo=32767, hi=32769, reach=["packed"], bounds="32767 to 32769 noise bytes: the code tree is rebuilt", ref=1),
   J("lh5-copies", S, "VH_scaf", 200, method=5, shape=5, lo=5, hi=40, n=1, alpha=2, split=1, reach=["packed"], bounds="5 to 40 copies of 2 to 257 earlier bytes", ref=1),
   J("lh1-copies", S, "VH_scaf", 200, method=1, shape=5, lo=5, hi=40, maxlen=60, n=1, alpha=2, split=1, reach=["packed"], bounds="5 to 40 copies of 2 to 61 earlier bytes", ref=1),
   J("lh7-copies", S, "VH_scaf", 200, method=7, shape=5, lo=40, hi=42, first=60000, reach=["packed"], bounds="40 to 42 copies of parts of 60000 noise bytes", ref=1),
   J("lh6-copies", S, "VH_scaf", 200, method=6, shape=5, lo=40, hi=42, first=30000, reach=["packed"], bounds="40 to 42 copies of parts of 30000 noise bytes", ref=1),
   J("lh5-differ", S, "VH_scaf", 200, method=5, shape=7, lo=0, hi=80, len=81, reach=["packed"], bounds="two strings of 81 bytes that differ in any one", ref=1),
   J("lh1-differ", S, "VH_scaf", 200, method=1, shape=7, lo=0, hi=69, len=70, reach=["packed"], bounds="two strings of 70 bytes that differ in any one", ref=1),
   J("lh5-a2x8", S, "VH_scaf", 200, method=5, shape=4, m=2, lo=40, hi=40, n=8, alpha=2, split=1, reach=["packed"], bounds="40 noise bytes and 8 symbolic ones over 2 letters", ref=1),
   J("lh1-a2x8", S, "VH_scaf", 200, method=1, shape=4, m=2, lo=40, hi=40, n=7, alpha=2, split=1, reach=["packed"], bounds="40 noise bytes and 7 symbolic ones over 2 letters", ref=1),
   J("lh5-wrap", S, "VH_scaf", 200, method=5, shape=8, lo=-8, hi=2, dlo=-1, dhi=1, reach=["packed"], bounds="strings at distances around the size of the dictionary, from places around its end", ref=1),
   J("lh1-wrap", S, "VH_scaf", 200, method=1, shape=8, lo=-4, hi=1, dlo=-1, dhi=1, reach=["packed"], bounds="strings at distances around the size of the dictionary, from places around its end", ref=1),
   J("lh6-wrap", S, "VH_scaf", 200, method=6, shape=8, lo=-2, hi=0, dlo=-1, dhi=0, reach=["packed"], bounds="strings at distances around the size of the dictionary, from places around its end", ref=1),
   J("lh5-many", S, "VH_scaf", 200, method=5, shape=9, lo=0, hi=6, reach=["packed"], bounds="many occurrences of a string, the last 0 to 6 bytes before the end", ref=1),
   J("lh5-deep", T, "VH_tokens", 200, method=5, lo=14, hi=22, reach=["done"], bounds="14 to 22 letters with Fibonacci frequencies: code lengths around the limit of 16"),
   J("lh7-deep", T, "VH_tokens", 200, method=7, lo=16, hi=19, reach=["done"], bounds="16 to 19 letters with Fibonacci frequencies"),
   J("lh1-deep", T, "VH_tokens", 200, method=1, lo=7, hi=9, rest=314, reach=["done"], bounds="7 to 9 letters with frequencies that give the longest codes"),
   J("lh5-blockend", T, "VH_tokens", 200, method=5, shape=2, lo=58228, hi=58236, ref=0, reach=["done"], bounds="58228 to 58236 letters and 20 matches: a block that ends within a match"),
   J("lh1-lens", T, "VH_tokens", 200, method=1, shape=3, lo=1, hi=3, reach=["done"], bounds="every match length at many distances"),
   J("lh5-lens", T, "VH_tokens", 200, method=5, shape=3, lo=1, hi=3, reach=["done"], bounds="every match length at many distances"),
   J("lh6-lens", T, "VH_tokens", 200, method=6, shape=3, lo=1, hi=3, reach=["done"], bounds="every match length at many distances"),
   J("lh7-lens", T, "VH_tokens", 200, method=7, shape=3, lo=1, hi=3, reach=["done"], bounds="every match length at many distances"),
   J("lh5-a3", C, "VH_codec", 900, "thorough", method=5, alpha=3, n=5, ref=1, reach=["packed"], bounds="5 bytes over a 3 letter alphabet, all symbolic"),
   J("lh5-a2x12", S, "VH_scaf", 900, "thorough", method=5, shape=4, m=2, lo=40, hi=40, n=12, alpha=2, split=1, reach=["packed"], bounds="40 noise bytes and 12 symbolic ones over 2 letters", ref=1),
   J("lh1-a2x11", S, "VH_scaf", 900, "thorough", method=1, shape=4, m=2, lo=40, hi=40, n=11, alpha=2, split=1, reach=["packed"], bounds="40 noise bytes and 11 symbolic ones over 2 letters", ref=1),
   J("lh5-blocks", S, "VH_scaf", 900, "thorough", method=5, shape=4, m=256, lo=58200, hi=58260, reach=["packed"], bounds="58200 to 58260 noise bytes", ref=1),
   J("lh5-dicts", S, "VH_scaf", 900, "thorough", method=5, shape=4, m=4, lo=16600, hi=16660, reach=["packed"], bounds="16600 to 16660 noise bytes over 4 letters", ref=1),
   J("lh5-manycopies", S, "VH_scaf", 900, "thorough", method=5, shape=5, lo=41, hi=300, reach=["packed"], bounds="41 to 300 copies of 2 to 257 earlier bytes", ref=1),
   J("lh6-runs", S, "VH_scaf", 900, "thorough", method=6, shape=2, lo=1, hi=530, n=1, alpha=2, split=1, reach=["packed"], bounds="runs of 1 to 530 letters", ref=1),
   J("lh7-dists", S, "VH_scaf", 900, "thorough", method=7, shape=1, len=5, lo=65500, hi=65560, reach=["packed"], bounds="a string of 5 bytes recurs at distance 65500 to 65560", ref=1),
   J("lh1-longs", S, "VH_scaf", 900, "thorough", method=1, shape=4, m=256, lo=32760, hi=32775, n=1, alpha=2, split=1, reach=["packed"], bounds="32760 to 32775 noise bytes", ref=1)],
  ["the announced size is larger than the data, so that the encoder never falls back to storing"])

# ------------------------------------------------------------------ C02
P("C02", "What is put into a new archive comes out of it",
  "For every file contents, compression method (-lh0-, -lh1-, -lh5-, -lh6-, -lh7-) and header level 0, 1 or 2, creating an archive and reading it back lists one entry with the given name, size, method and level, and both decompression to memory and extraction to disk return exactly the original bytes. The archive is a well formed sequence of one header, its packed data and the end mark, as other LHA implementations read it.",
  ["inputs", "configurations"], "every contents, method, level; through files and through memory",
  "The tests create one archive of one file and check no contents.",
  ["lha.go", "lhext.go", "append.go", "extract.go", "header.go"],
  [("Compress / CompressBytes", "lha.go"), ("addOne", "lhext.go"), ("WriteHeader", "header.go"), ("extractOne, extractOneStream", "lhext.go")],
  ["CompressBytes", "Compress", "Headers", "DecompresBytes", "Decompress", "the archive file"],
  [J("m0-l%d-f%d" % (l, f), A, "VH_archRound", 120, method=0, level=l, file=f, n=3, reach=["done", "stored"], bounds="3 arbitrary bytes, stored") for l in (0, 1, 2) for f in (0, 1)] +
  [J("m5-l%d" % l, A, "VH_archRound", 200, method=5, level=l, shape=1, n=2, alpha=3, reach=["done", "packed"], bounds="100 concrete bytes and 2 symbolic ones over 3 letters") for l in (0, 1, 2)] +
  [J("m5-long", A, "VH_archRound", 200, method=5, level=0, shape=5, n=0, m=4, nlo=70000, nhi=70000, file=1, reach=["done", "packed"], bounds="70000 noise bytes over 4 letters"),
   J("m5-long-l2", A, "VH_archRound", 200, method=5, level=2, shape=5, n=0, nlo=70000, nhi=70001, reach=["done", "stored"], bounds="70000 and 70001 noise bytes")],
  [FS])

# ------------------------------------------------------------------ C03
P("C03", "Data that does not shrink is stored as it is",
  "For every contents and method, the packed size of an entry never exceeds its original size. When compression would not make the data smaller, the entry is stored verbatim with method -lh0-, and otherwise its packed data is smaller than the original; either way the header states the method, sizes and CRC that belong to the data that follows, nothing of an abandoned attempt is left behind, and the data comes back unchanged.",
  ["inputs"], "contents around the break-even point of every method, empty and short ones",
  "The tests compress one file that shrinks a lot.",
  ["lhext.go", "append.go", "slide.go", "bitio.go", "huf.go", "dhuf.go"],
  [("addOne: retry by the stored method", "lhext.go"), ("putcode: unpackable", "bitio.go"), ("encodeStoredCrc", "append.go")],
  ["CompressBytes", "Compress", "the archive file"],
  [J("m5-l0", A, "VH_archRound", 200, method=5, level=0, shape=5, n=0, nlo=0, nhi=30, rlo=0, rhi=12, reach=["done", "packed", "stored"], bounds="0 to 30 noise bytes and a run of 0 to 12"),
   J("m1-l1", A, "VH_archRound", 200, method=1, level=1, shape=5, n=0, nlo=0, nhi=30, rlo=0, rhi=12, reach=["done", "packed", "stored"], bounds="0 to 30 noise bytes and a run of 0 to 12"),
   J("m6-l2", A, "VH_archRound", 200, method=6, level=2, shape=5, n=1, split=1, alpha=3, m=4, nlo=0, nhi=40, rlo=0, rhi=3, reach=["done", "packed", "stored"], bounds="0 to 40 noise bytes over 4 letters, a run of 0 to 3, one symbolic byte"),
   J("m7-l1", A, "VH_archRound", 200, method=7, level=1, shape=5, n=0, nlo=100, nhi=100, rlo=20, rhi=160, reach=["done", "packed", "stored"], bounds="100 noise bytes and a run of 20 to 160", file=1),
   J("m5-block", A, "VH_archRound", 200, method=5, level=0, shape=5, n=0, nlo=60000, nhi=60000, rlo=0, rhi=2, reach=["done", "stored"], bounds="60000 noise bytes and a run of 0 to 2: given up within a block"),
   J("m5-m128", A, "VH_archRound", 200, method=5, level=2, shape=5, n=0, m=200, nlo=300, nhi=400, file=1, reach=["done"], bounds="300 to 400 noise bytes over 200 letters"),
   J("m5-a2", A, "VH_archRound", 200, method=5, level=1, n=5, alpha=2, split=1, reach=["done", "stored"], bounds="5 bytes over 2 letters"),
   J("m1-a2", A, "VH_archRound", 200, method=1, level=0, n=6, alpha=2, split=1, reach=["done", "stored", "packed"], bounds="6 bytes over 2 letters"),
   J("m5-file", A, "VH_archRound", 200, method=5, level=1, shape=5, n=0, nlo=20000, nhi=20002, file=1, reach=["done", "stored"], bounds="20000 to 20002 noise bytes"),
   J("m5-wide", A, "VH_archRound", 900, "thorough", method=5, level=0, shape=5, n=0, nlo=31, nhi=120, rlo=0, rhi=60, reach=["done", "packed", "stored"], bounds="31 to 120 noise bytes and a run of 0 to 60"),
   J("m7-wide", A, "VH_archRound", 900, "thorough", method=7, level=2, shape=5, n=0, nlo=100, nhi=102, rlo=0, rhi=300, reach=["done", "packed", "stored"], bounds="100 to 102 noise bytes and a run of 0 to 300"),
   J("m1-wide", A, "VH_archRound", 900, "thorough", method=1, level=0, shape=5, n=0, nlo=31, nhi=90, rlo=0, rhi=40, reach=["done", "packed", "stored"], bounds="31 to 90 noise bytes and a run of 0 to 40")],
  [FS])

# ------------------------------------------------------------------ C04
P("C04", "Headers written by the library are read back unchanged and follow the format",
  "For levels 0, 1 and 2, a header that is written has the layout of the LHA format (sizes, checksum or CRC, extended headers, separators), and reading it back yields the same method, sizes, CRC, time stamp, permissions, owner, names and directory. Symbolic links keep their name and target (a '|' in the name becomes '_'). A name that is too long for its level is cut at its end and the header is well formed all the same. In the generic format, which has no permissions and owner, the rest holds in the same way.",
  ["inputs"], "every field value, every name within the length bounds",
  "The tests write a header only as part of one archive and never look at its fields.",
  ["header.go"],
  [("WriteHeader", "header.go"), ("GetHeader", "header.go")],
  ["WriteHeader", "GetHeader"],
  [J("round-l%d-d%d" % (l, d), H, "VH_hdrRound", 120, level=l, n=5, dir=d, deep=1 if d == 3 else 0, user=0 if l == 0 else 2, reach=["read"], bounds="5 name bytes, all 16/32 bit fields symbolic") for l in (0, 1, 2) for d in (-1, 1, 3)] +
  [J("round-l%d-long" % l, H, "VH_hdrRound", 120, level=l, n=4, fill=60, reach=["read"], bounds="4 symbolic and 60 concrete name bytes") for l in (0, 1, 2)] +
  [J("round-l%d-time" % l, H, "VH_hdrRound", 120, level=l, n=1, tbits=16, reach=["read"], bounds="65536 consecutive time stamps") for l in (1, 2)] +
  [J("gen-l%d-d%d" % (l, d), H, "VH_hdrRound", 120, level=l, n=5, dir=d, deep=1 if d == 3 else 0, generic=1, reach=["read"], bounds="generic format, 5 name bytes, all fields symbolic") for l in (0, 1, 2) for d in (-1, 3)] +
  [J("link-l%d" % l, H, "VH_hdrLink", 120, level=l, slash=s, n=3, t=3, reach=["read"], bounds="3 name and 3 target bytes") for l, s in ((0, -1), (1, 1), (2, -1))] +
  [J("over-l0", H, "VH_hdrOver", 120, level=0, lo=219, hi=300, reach=["read"], bounds="name lengths 219 to 300"),
   J("over-gen", H, "VH_hdrOver", 120, level=0, lo=230, hi=300, generic=1, most=233, reach=["read"], bounds="generic format, name lengths 230 to 300"),
   J("over-l1", H, "VH_hdrOver", 120, level=1, lo=225, hi=300, most=1000, reach=["read"], bounds="name lengths 225 to 300"),
   J("over-l2", H, "VH_hdrOver", 120, level=2, lo=462, hi=474, most=1000, reach=["read"], bounds="name lengths 462 to 474, header size 512"),
   J("over-l2-max", H, "VH_hdrOver", 400, "thorough", level=2, lo=1000, hi=1040, most=1000, reach=["read"], bounds="name lengths 1000 to 1040"),
   J("user-l1", H, "VH_hdrRound", 120, level=1, n=1, user=2, group=0, reach=["read"], bounds="a user name and no group name"),
   J("group-l1", H, "VH_hdrRound", 120, level=1, n=1, user=0, group=2, reach=["read"], bounds="a group name and no user name"),
   J("user-l2", H, "VH_hdrRound", 120, level=2, n=1, user=3, group=0, reach=["read"], bounds="a user name and no group name"),
   J("group-l2", H, "VH_hdrRound", 120, level=2, n=1, user=0, group=3, reach=["read"], bounds="a group name and no user name"),
   J("len-l0", H, "VH_hdrRound", 120, level=0, n=2, fill=0, fillhi=219, reach=["read"], bounds="every name length up to the limit of 221"),
   J("len-l1", H, "VH_hdrRound", 120, level=1, n=2, fill=215, fillhi=252, reach=["read"], bounds="name lengths 217 to 254"),
   J("len-l2", H, "VH_hdrRound", 120, level=2, n=1, fill=180, fillhi=225, few=1, reach=["read"], bounds="name lengths 181 to 226, header sizes around 256"),
   J("len-l2-dir", H, "VH_hdrRound", 120, level=2, n=1, dir=0, dfill=200, fill=225, fillhi=250, few=1, reach=["read"], bounds="path lengths 426 to 451, header sizes around 512"),
   J("gen-l0", H, "VH_hdrRound", 120, level=0, n=2, fill=200, fillhi=231, generic=1, reach=["read"], bounds="generic format, name lengths 202 to 233"),
   J("len-l2-gen", H, "VH_hdrRound", 400, "thorough", level=2, n=1, fill=180, fillhi=250, few=1, generic=1, reach=["read"], bounds="generic format, name lengths 181 to 251"),
   J("len-l1-all", H, "VH_hdrRound", 400, "thorough", level=1, n=2, fill=0, fillhi=252, reach=["read"], bounds="name lengths 2 to 254"),
   J("len-l2-all", H, "VH_hdrRound", 600, "thorough", level=2, n=2, fill=0, fillhi=252, few=1, reach=["read"], bounds="name lengths 2 to 254"),
   J("len-l1-dir", H, "VH_hdrRound", 600, "thorough", level=1, n=2, dir=0, dfill=230, fill=200, fillhi=252, reach=["read"], bounds="path lengths 432 to 484")])

# ------------------------------------------------------------------ C05
P("C05", "Well formed headers of levels 0 to 3 are parsed as the format defines",
  "Every well formed header of level 0, 1, 2 or 3 is accepted and its fields are reported as the format defines them: method, packed and original size, CRC, time, names with directory separators, permissions, owner and group, whichever extended headers (of up to 4096 bytes each) are present and in whichever order. Unknown or too short extended headers are skipped, nothing of an earlier entry shows through, the conventions of other operating systems (separators of Macintosh names, directories of the Amiga, with ConvertCase names in upper case) are followed, and reading stops exactly at the end of the header.",
  ["inputs"], "every field value, several sets and orders of extended headers",
  "The tests read one archive of one level.",
  ["header.go"],
  [("GetHeader", "header.go"), ("getExtendedHeader", "header.go")],
  ["GetHeader"],
  [J("l0-v%d" % v, H, "VH_hdrParse0", 120, variant=v, n=3, reach=["parsed"], bounds="3 arbitrary name bytes, all fields symbolic") for v in range(6)] +
  [J("l%d-v%d" % (l, v), H, "VH_hdrParse", 120, level=l, variant=v, n=3, reach=["parsed"], bounds="3 name bytes, all fields symbolic") for l in (1, 2, 3) for v in (0, 1, 2, 3, 5, 6)] +
  [J("l%d-short" % l, H, "VH_hdrParse", 120, level=l, variant=4, n=3, reach=["parsed"], bounds="extended headers of every length that is too short for their field") for l in (1, 2, 3)] +
  [J("l%d-long" % l, H, "VH_hdrParse", 120, level=l, variant=8, n=3, reach=["parsed"], bounds="directories of up to 700, names of up to 300, owners of up to 1000 and comments of up to 4000 bytes") for l in (1, 2, 3)] +
  [J("l%d-many" % l, H, "VH_hdrParse", 120, level=l, variant=9, n=3, reach=["parsed"], bounds="up to 308 extended headers") for l in (1, 2, 3)] +
  [J("l%d-wintime%d" % (l, i), H, "VH_hdrParse", 120, level=l, variant=7, tbits=12 if l == 1 else 0, tbase=t, n=3, reach=["parsed"], bounds="Windows time stamps, 4096 consecutive ones at level 1") for l, i, t in ((1, 0, 1500000000), (1, 1, 0), (1, 2, 0x7ffff800), (2, 0, 0), (3, 0, 0))] +
  [J("l1-inline", H, "VH_hdrParse", 120, level=1, variant=0, inline=1, n=3, reach=["parsed"], bounds="name in the base header"),
   J("l1-old", H, "VH_hdrParse", 120, level=1, variant=1, old=1, n=3, reach=["parsed"], bounds="extra base header bytes"),
   J("l0-len1", H, "VH_hdrParse0", 120, variant=1, n=1, fill=215, fillhi=232, reach=["parsed"], bounds="name lengths 216 to 233"),
   J("l0-len2", H, "VH_hdrParse0", 120, variant=2, n=1, fill=215, fillhi=233, reach=["parsed"], bounds="name lengths 216 to 234, no CRC"),
   J("l0-len0", H, "VH_hdrParse0", 120, variant=0, n=1, fill=200, fillhi=220, reach=["parsed"], bounds="name lengths 201 to 221, unix extension"),
   J("l0-sys", H, "VH_hdrSys", 120, level=0, reach=["parsed"], bounds="every operating system, 5 methods, with and without ConvertCase, 2 bytes of the name arbitrary"),
   J("l1-sys", H, "VH_hdrSys", 120, level=1, reach=["parsed"], bounds="every operating system, 5 methods, with and without ConvertCase, 2 bytes of the name arbitrary"),
   J("l2-sys", H, "VH_hdrSys", 120, level=2, n=1, reach=["parsed"], bounds="every operating system, 5 methods, with and without ConvertCase, 1 byte of the name arbitrary"),
   J("l3-sys", H, "VH_hdrSys", 120, level=3, n=1, reach=["parsed"], bounds="every operating system, 5 methods, with and without ConvertCase, 1 byte of the name arbitrary"),
   J("l2-sys2", H, "VH_hdrSys", 300, "thorough", level=2, n=3, reach=["parsed"], bounds="the same, 3 bytes arbitrary"),
   J("l3-sys2", H, "VH_hdrSys", 300, "thorough", level=3, n=3, reach=["parsed"], bounds="the same, 3 bytes arbitrary"),
   J("l2-pad", H, "VH_hdrParse", 120, level=2, variant=0, pad=1, n=3, reach=["parsed"], bounds="padding byte")])

# ------------------------------------------------------------------ C06
P("C06", "Damaged or truncated headers are not accepted",
  "A header that is cut short anywhere is reported as an error. A header in which a byte was changed is accepted only if its checksum (levels 0 and 1) or header CRC (levels 2 and 3) still matches; otherwise an error is reported and no entry is handed out.",
  ["inputs"], "every truncation point, every position and value of a changed byte",
  "The tests read one intact archive.",
  ["header.go"],
  [("GetHeader", "header.go"), ("calcSum", "header.go")],
  ["GetHeader"],
  [J("trunc-l%d" % l, H, "VH_hdrTrunc", 120, level=l, reach=["rejected"], bounds="every truncation point") for l in range(4)] +
  [J("arc-m%d-c%d" % (m, c), A, "VH_hdrInArc", 120, mix=m, cut=c, reach=["reported"], bounds="the header of any of 3 entries damaged or cut; 6 operations") for m in (0, 2) for c in (0, 1)] +
  [J("damage-l%d" % l, H, "VH_hdrDamage", 200, level=l, bounds="every position, every value") for l in (0, 1)] +
  [J("field-l%d" % l, H, "VH_hdrField", 120, level=l, reach=["rejected"], bounds="any wrong checksum or CRC field and any value of one of 9 bytes") for l in range(4)] +
  [J("damage-l2b", H, "VH_hdrDamage", 200, level=2, lo=41, bounds="positions 41 to the end, every value"),
   J("damage-l3b", H, "VH_hdrDamage", 200, level=3, lo=41, bounds="positions 41 to the end, every value"),
   J("damage-l2a", H, "VH_hdrDamage", 200, level=2, lo=21, hi=40, bounds="positions 21 to 40, every value"),
   J("damage-l3a", H, "VH_hdrDamage", 600, "thorough", level=3, lo=21, hi=40, bounds="positions 21 to 40, every value"),
   J("damage-l2", H, "VH_hdrDamage", 600, "thorough", level=2, lo=0, hi=20, bounds="positions 0 to 20, every value"),
   J("damage-l3", H, "VH_hdrDamage", 600, "thorough", level=3, lo=0, hi=20, bounds="positions 0 to 20, every value")])

# ------------------------------------------------------------------ C07
P("C07", "Coding depends on the data only, not on how streams deliver it",
  "Encoding and decoding yield the same bytes, sizes and CRC in whatever pieces the reader hands out the data. The CRC is CRC-16/ARC of exactly the original data. When the reader or writer fails at any byte, an error is reported instead of a result.",
  ["inputs", "fault_sequences"], "every sequence of piece sizes within the bounds, every failing byte",
  "The tests use files, which hand out everything at once and never fail.",
  ["crcio.go", "slide.go", "bitio.go", "append.go", "extract.go", "util.go"],
  [("freadCrc, fwriteCrc, calcCrc", "crcio.go"), ("copyfile", "util.go"), ("fillbuf, putcode", "bitio.go")],
  ["EncodeLzhuf", "DecodeLzhuf"],
  [J("pieces-m%d-d%d" % (m, d), Y, "VH_chunks", 120, method=m, dec=d, pieces=3, max=3, reach=["done"], bounds="60 bytes in pieces of 1 to 3") for m in (0, 1, 5, 6, 7) for d in (0, 1)] +
  [J("long-m%d" % m, Y, "VH_chunks", 120, method=m, len=n, pieces=1, max=2, reach=["done"], bounds="%d bytes in pieces of 1 or 2" % n) for m, n in ((0, 9000), (5, 17000), (1, 9000))] +
  [J("fail-m%d-d%d" % (m, d), Y, "VH_ioError", 120, method=m, dec=d, reach=["reported"], bounds="reading or writing fails at every byte of 60") for m in (0, 1, 5, 6, 7) for d in (0, 1)] +
  [J("fail-long-m%d" % m, Y, "VH_ioError", 300, "thorough", method=m, len=3000, reach=["reported"], bounds="reading or writing fails at every byte of 3000") for m in (0, 1, 5)] +
  [J("fail-at-m%d-d%d" % (m, d), Y, "VH_ioError", 120, method=m, dec=d, len=n, places=1, reach=["reported"], bounds="reading or writing fails at 12 places of %d bytes" % n) for m, d, n in ((0, 0, 9000), (0, 1, 9000), (1, 0, 9000), (1, 1, 9000), (5, 1, 18000))] +
  [J("long-stored", Y, "VH_chunks", 120, method=0, len=140000, pieces=1, max=2, reach=["done"], bounds="140000 bytes in pieces of 1 or 2")] +
  [J("crc", C, "VH_codec", 120, method=0, n=6, reach=["packed"], bounds="the CRC of 6 arbitrary bytes")])

# ------------------------------------------------------------------ C08
P("C08", "Data that is handed out matches the size and CRC of its header",
  "Decompressing to memory, extracting to disk and verifying report an error when the decoded data does not have the original size and the CRC-16 stated in the header, when the packed data is truncated, or when it is damaged. Success means that the data delivered has exactly the stated size and CRC.",
  ["inputs"], "every packed data, stated CRC and size; every damaged byte of a packed stream",
  "The tests extract one intact archive and do not look at the data.",
  ["lhext.go", "extract.go", "crcio.go"],
  [("extractOne / extractOneStream CRC comparison", "lhext.go"), ("DecodeLzhuf", "extract.go")],
  ["DecompresBytes", "Decompress", "CommandExtract", "Headers"],
  [J("m%d-a%d" % (m, a), X, "VH_corrupt", 200, method=m, api=a, n=3, level=1, bounds="3 arbitrary data bytes, any CRC") for m, a in ((0, 0), (0, 1), (0, 2), (0, 3), (1, 0), (1, 2))] +
  [J("nocrc-a%d" % a, X, "VH_corrupt", 120, method=0, api=a, n=3, short=3, nocrc=1, level=0, reach=["refused"], bounds="archive without CRC cut within the data") for a in (0, 1, 2)] +
  [J("nocrc-z-a%d" % a, X, "VH_corrupt", 120, method=1, api=a, n=3, orig=3, short=3, nocrc=1, level=0, reach=["refused"], bounds="packed data without CRC, cut") for a in (0, 1, 2)] +
  [J("short-a%d" % a, X, "VH_corrupt", 120, method=0, api=a, n=3, short=3, bounds="archive cut within the data") for a in (0, 1, 2)] +
  [J("orig-a%d" % a, X, "VH_corrupt", 120, method=0, api=a, n=3, orig=2, bounds="stated size differs") for a in (0, 1)] +
  [J("long-m%d-a%d" % (m, a), X, "VH_damageLong", 120, method=m, api=a, len=n, alpha=26, level=a % 3, reach=["refused"], bounds="an entry of %d bytes, damaged or cut at 8 places" % n) for m, a, n in ((0, 0, 70000), (0, 1, 70000), (0, 2, 70000), (5, 2, 12000), (1, 1, 5000), (5, 3, 5000))] +
  [J("flip-lh5", X, "VH_flip", 200, method=5, bounds="every packed byte, 11 error patterns")],
  [FS])

# ------------------------------------------------------------------ C09
P("C09", "No header bytes crash or hang the header reader",
  "Whatever bytes an archive consists of, reading headers from it ends, with an entry, with the end of the archive or with an error. It never panics, never loops, and an entry that is handed out has sizes that are not negative.",
  ["inputs"], "every byte string within the bounds, taken as a header of every level",
  "The tests read one good archive; hostile header sizes, name lengths and chains of extended headers are not sampled.",
  ["header.go", "lha.go"],
  [("GetHeader", "header.go"), ("getExtendedHeader", "header.go"), ("Headers", "lha.go")],
  ["GetHeader", "Headers"],
  [J("any-l0-hs", H, "VH_hdrAny", 200, level=0, n=40, nl=4, hsmax=255, bounds="40 arbitrary bytes as a level 0 header, every header size"),
   J("any-l0-nl", H, "VH_hdrAny", 200, level=0, n=40, hs=32, nlmax=255, bounds="40 arbitrary bytes as a level 0 header, every name length"),
   J("any-l1", H, "VH_hdrAny", 200, level=1, n=34, hs=26, nl=1, xat=26, bounds="34 arbitrary bytes as a level 1 header"),
   J("any-l1-hs", H, "VH_hdrAny", 200, level=1, n=34, nl=4, hsmax=255, xat=-1, bounds="34 arbitrary bytes as a level 1 header, every header size"),
   J("any-l1-nl", H, "VH_hdrAny", 200, level=1, n=28, hs=25, nlmax=255, xat=25, bounds="28 arbitrary bytes as a level 1 header, every name length"),
   J("any-l2-x", H, "VH_hdrAny", 200, level=2, n=32, xat=24, xmax=9, base=0, bounds="a level 2 header, 8 arbitrary bytes of extended headers of up to 9 bytes"),
   J("any-l1-deep", H, "VH_hdrAny", 600, "thorough", level=1, n=40, hs=32, nlmax=255, xat=32, bounds="40 arbitrary bytes as a level 1 header, every name length"),
   J("any-l1-chain", H, "VH_hdrAny", 600, "thorough", level=1, n=40, hs=26, nl=1, xat=26, bounds="40 arbitrary bytes as a level 1 header"),
   J("any-l2-deep", H, "VH_hdrAny", 600, "thorough", level=2, n=34, xat=24, base=0, bounds="a level 2 header, 10 arbitrary bytes of extended headers"),
   J("any-l2-base", H, "VH_hdrAny", 600, "thorough", level=2, n=30, xat=24, bounds="30 arbitrary bytes as a level 2 header"),
   J("any-l2", H, "VH_hdrAny", 200, level=2, n=30, xat=24, base=0, bounds="a level 2 header, 8 arbitrary bytes of extended headers"),
   J("any-l3", H, "VH_hdrAny", 200, level=3, n=42, xat=28, xmax=10, base=0, bounds="a level 3 header, 14 arbitrary bytes of extended headers"),
   J("any-l-1", H, "VH_hdrAny", 200, level=-1, n=32, bounds="32 arbitrary bytes of an unknown level")] +
  [J("arch-l%d%d" % (l, m), X, "VH_archAny", 200, level=l, level2=m, few=1, reach=["done"], bounds="an archive of 2 entries, every byte, 12 error patterns; listed, read and extracted") for l, m in ((0, 1), (1, 2), (2, 0))] +
  [J("archcut-l%d%d" % (l, m), X, "VH_archAny", 200, level=l, level2=m, cut=1, method=5, reach=["done"], bounds="an archive of 2 entries cut anywhere; listed, read and extracted") for l, m in ((0, 1), (1, 2), (2, 0))] +
  [J("archall-l%d%d" % (l, m), X, "VH_archAny", 900, "thorough", level=l, level2=m, split=1, method=5, reach=["done"], bounds="an archive of 2 entries, every byte, every value; listed, read and extracted") for l, m in ((0, 1), (1, 2), (2, 0))],
  [FS])

# ------------------------------------------------------------------ C10
P("C10", "No packed data crashes or hangs a decoder or makes it write too much",
  "Whatever the packed data of an entry, for every method (-lh1- to -lh7-, -lzs-, -lz5-, -pm2-), decoding ends without a panic, reads no more than the packed data and writes no more than the stated original size. Without an error exactly the stated number of bytes was written; packed data that is cut short or does not follow the format is reported as an error or decoded to that many bytes.",
  ["inputs"], "streams in which any byte has any value, or which are cut anywhere",
  "The tests decode one good stream.",
  ["slide.go", "huf.go", "dhuf.go", "shuf.go", "maketbl.go", "bitio.go", "larc.go", "pm.go", "pmtree.go", "pm2hist.go"],
  [("decode", "slide.go"), ("readPtLen, readCLen", "huf.go"), ("makeTable", "maketbl.go"), ("decode tables of -pm2-", "pmtree.go")],
  ["DecodeLzhuf", "DecompresBytes"],
  [J("any-m5-c%d" % c, D, "VH_decAny", 200, method=5, c=c, p=p, n=10, split=1, few=1, bounds="a packed stream, every byte, 12 error patterns") for c, p in ((0, 0), (1, 0), (2, 0), (5, 0), (-1, 0), (4, 1), (3, -1))] +
  [J("any-m%d" % m, D, "VH_decAny", 200, method=m, n=10, split=1, few=1, bounds="a packed stream, every byte, 12 error patterns") for m in (4, 6, 7)] +
  [J("any-m3-c%d" % c, D, "VH_decAny", 200, method=3, c=c, p=p, n=10, split=1, few=1, bounds="a packed stream, every byte, 12 error patterns") for c, p in ((0, 9), (4, 0), (-1, 9), (2, 1))] +
  [J("any-m%d" % m, D, "VH_decAny", 200, method=m, n=20, split=1, bounds="20 noise bytes, every byte replaced by every value") for m in (1, 2, 8, 9)] +
  [J("cut-m%d" % m, D, "VH_decAny", 200, method=m, c=c, p=p, n=20, cut=1, bounds="a stream cut anywhere") for m, c, p in ((1, 0, 0), (2, 0, 0), (3, 0, 9), (4, 0, 0), (5, 2, 0), (6, 0, 0), (7, 1, 0), (8, 0, 0), (9, 0, 0))] +
  [J("head-m5-c%d" % c, D, "VH_decAny", 200, method=5, c=c, p=0, n=10, lo=0, hi=5, split=1, bounds="a packed stream, each of the first 6 bytes with every value") for c in (0, -1)] +
  [J("all-m5-c%d" % c, D, "VH_decAny", 900, "thorough", method=5, c=c, p=0, n=10, split=1, lo=6, hi=60, bounds="a packed stream, bytes 6 to 60 with every value") for c in (1, 2, 5, -1)] +
  [J("pair-m5", D, "VH_decAny", 900, "thorough", method=5, c=0, p=0, n=4, lo=0, hi=0, w=2, split=1, bounds="a packed stream, the first 2 bytes with every value")] +
  [J("pm2-any-c%d" % c, D, "VH_pm2Any", 200, c=c, few=1, every=28 if c == 5 else 7, bounds="packed streams of -pm2-, every byte, 12 error patterns") for c in (0, 1, 2, 5)] +
  [J("pm2-all-c%d" % c, D, "VH_pm2Any", 900, "thorough", c=c, every=9, bounds="packed streams of -pm2-, every byte, every value") for c in (0, 1, 2)] +
  [J("pm2-cut-c%d" % c, D, "VH_pm2Any", 200, c=c, cut=1, bounds="a packed stream of -pm2- cut anywhere") for c in (0, 2)])

# ------------------------------------------------------------------ C11
P("C11", "Every entry of an archive is found once, in order, with its own contents",
  "In an archive of several entries of any mix of header levels, listing returns every entry exactly once and in archive order with its own name, sizes and CRC. Reading or extracting one entry by name yields that entry's contents and touches no other; extracting everything yields all of them; a name that is not in the archive is an error and writes nothing. Entries of the same file name in different directories are kept apart: each is listed with its directory and extracted below it, unless directories are to be ignored.",
  ["inputs", "configurations"], "every mix of levels, entry sizes (empty ones included), contents and picked entry",
  "The tests use archives with a single entry.",
  ["lha.go", "lhext.go", "header.go"],
  [("Headers", "lha.go"), ("extractWithHeader, extractBytesWithHeader, CommandExtract", "lhext.go"), ("skipToNextpos", "lhext.go")],
  ["Headers", "DecompresBytes", "Decompress", "CommandExtract"],
  [J("multi-%d" % k, A, "VH_multi", 120, mix=k, n=2, reach=["done"], bounds="3 entries of 0 to 2 arbitrary bytes") for k in range(5)] +
  [J("big-%d" % k, A, "VH_multi", 200, mix=k, big=1, reach=["done"], bounds="3 entries of up to 70000 bytes, sizes around powers of two") for k in (0, 2)] +
  [J("huge", A, "VH_multi", 900, "thorough", mix=1, big=2, reach=["done"], bounds="3 entries of sizes around 1 MiB")] +
  [J("kinds-%d%d" % (k, m), A, "VH_kinds", 120, level=k, level2=m, n=2, reach=["done"], bounds="a first entry of 8 kinds, 2 arbitrary bytes in the second") for k, m in ((0, 1), (1, 2), (2, 0), (3, 0))] +
  [J("absent-%d" % k, A, "VH_absent", 120, mix=k, n=3, reach=["done"], bounds="every other 3 byte name") for k in (0, 2)] +
  [J("paths-%d" % k, X, "VH_paths", 120, mix=k, set=k % 2, reach=["done"], bounds="5 entries with the same file names in several directories, every subset asked for") for k in range(3)] +
  [J("many-list", M, "VH_many", 120, op=0, n=300, reach=["done"], bounds="300 entries, one of 6 of them with 2 arbitrary bytes"),
   J("many-extract", M, "VH_many", 120, op=1, n=300, reach=["done"], bounds="300 entries, one of 6 of them with 2 arbitrary bytes")],
  [FS])

# ------------------------------------------------------------------ C12
P("C12", "Adding to an archive keeps the other entries and replaces its namesake",
  "Adding a file or bytes to an existing archive leaves every other entry in it byte for byte and in order, and puts the added file into it exactly once, replacing an entry of the same name. After any sequence of additions each name has the contents added last, and nothing but the archive is left behind. A file that is named several times is added once. A truncated or damaged archive is reported and left alone.",
  ["inputs", "histories"], "every old archive mix, added name and contents; sequences of additions",
  "The tests never add to an existing archive and read it back.",
  ["lha.go", "lhext.go"],
  [("copyOldEntries, appendEntry, addOne", "lhext.go"), ("Compress / CompressBytes", "lha.go")],
  ["the archive file", "Headers", "DecompresBytes"],
  [J("update-%d-l%d-f%d" % (k, l, f), U, "VH_update", 200, mix=k, level=l, file=f, n=1, m=2, reach=["done"], bounds="3 old entries of 0 or 1 bytes, 2 arbitrary new bytes") for k, l, f in ((0, 0, 0), (1, 1, 1), (2, 2, 0), (3, 0, 1), (4, 1, 0))] +
  [J("seq3", U, "VH_sequence", 120, steps=3, meth=0, levels=1, n=1, reach=["done"], bounds="3 additions of 2 names, 1 arbitrary byte each"),
   J("seq2-packed", U, "VH_sequence", 120, steps=2, alpha=2, split=1, n=1, shape=1, reach=["done"], bounds="2 additions of 2 names, packed and stored, every level"),
   J("seq-files", U, "VH_sequence", 120, steps=3, n=1, alpha=2, levels=0, meth=0, file=1, fresh=0, reach=["done"], bounds="3 additions of files or bytes with one Lha"),
   J("seq3-same", U, "VH_sequence", 120, steps=3, alpha=2, split=1, n=1, levels=0, fresh=0, reach=["done"], bounds="3 additions through one Lha value"),
   J("twice-00", O, "VH_twice", 120, level=0, oldlevel=0, n=3, reach=["done"], bounds="3 names out of 4 files, in every order and repetition"),
   J("twice-12", O, "VH_twice", 120, level=1, oldlevel=2, n=3, reach=["done"], bounds="3 names out of 4 files, in every order and repetition"),
   J("twice-21", O, "VH_twice", 120, level=2, oldlevel=1, n=3, reach=["done"], bounds="3 names out of 4 files, in every order and repetition"),
   J("near-l0", U, "VH_near", 120, level=0, n=5, reach=["kept", "replaced"], bounds="an old entry of any printable name of up to 5 letters, also in a directory"),
   J("near-l1", U, "VH_near", 120, level=1, file=1, newlevel=0, n=5, reach=["kept", "replaced"], bounds="an old entry of any printable name of up to 5 letters, also in a directory"),
   J("near-l2", U, "VH_near", 120, level=2, newlevel=2, n=5, reach=["kept", "replaced"], bounds="an old entry of any printable name of up to 5 letters, also in a directory"),
   J("many", M, "VH_many", 120, op=3, n=300, reach=["done"], bounds="300 old entries, one of 6 of them replaced, sorted or not"),
   J("cut-0", U, "VH_updateBad", 200, mix=0, reach=["refused", "updated"], bounds="an old archive of 3 entries cut at every place"),
   J("cut-1", U, "VH_updateBad", 200, mix=1, file=1, level=2, reach=["refused", "updated"], bounds="an old archive of 3 entries cut at every place"),
   J("cut-2", U, "VH_updateBad", 200, mix=2, level=0, reach=["refused", "updated"], bounds="an old archive of 3 entries cut at every place"),
   J("bad-0", U, "VH_updateBad", 120, mix=0, cut=0, reach=["refused"], bounds="an old archive with damaged headers"),
   J("bad-1", U, "VH_updateBad", 120, mix=1, cut=0, file=1, reach=["refused"], bounds="an old archive with damaged headers"),
   J("bad-2", U, "VH_updateBad", 120, mix=2, cut=0, reach=["refused"], bounds="an old archive with damaged headers"),
   J("big-0", U, "VH_update", 200, mix=0, level=1, big=1, reach=["done"], bounds="3 old entries of up to 70000 bytes, sizes around powers of two"),
   J("big-2", U, "VH_update", 200, mix=2, level=2, file=1, big=1, reach=["done"], bounds="3 old entries of up to 70000 bytes, sizes around powers of two"),
   J("huge", U, "VH_update", 900, "thorough", mix=1, level=0, file=1, big=2, reach=["done"], bounds="3 old entries of sizes around 1 MiB"),
   J("seq3-deep", U, "VH_sequence", 900, "thorough", steps=3, n=0, shape=1, levels=2, fresh=0, reach=["done"], bounds="3 additions, packed and stored, every level"),
   J("seq4-deep", U, "VH_sequence", 900, "thorough", steps=4, meth=0, levels=1, n=1, reach=["done"], bounds="4 additions of 2 names, 1 arbitrary byte each")],
  [FS])

# ------------------------------------------------------------------ C13
P("C13", "Extraction changes nothing outside the extraction directory",
  "Whatever names, directories, types and link targets the entries of an archive carry, extracting it creates, changes or removes only files below the extraction directory. This also holds when entries follow links created by earlier entries and when symbolic links that lead elsewhere already exist there.",
  ["inputs", "histories"], "every entry name and directory, every entry kind, existing links, flat and forced extraction",
  "The tests extract a well behaved archive only.",
  ["lhext.go", "header.go"],
  [("isDirectoryTraversal, makeNameWithPathcheck", "lhext.go"), ("openWithMakePath, symlinkWithMakePath", "lhext.go")],
  ["CommandExtract", "Decompress", "file system events"],
  [J("k%d-l%d-n3" % (k, l), X, "VH_contain", 120, kind=k, level=l, n=3, links=1, bounds="3 arbitrary name bytes") for k in range(6) for l in (0, 1)] +
  [J("dir-l%d" % l, X, "VH_contain", 200, kind=0, level=l, n=2, dir=2, links=1, bounds="2 name and 2 directory bytes") for l in (1, 2)] +
  [J("twice", X, "VH_contain", 200, kind=0, level=1, n=2, dir=2, twice=1, alpha=1, bounds="link entry, then 2 name bytes"),
   J("cwd", X, "VH_contain", 120, kind=0, level=0, n=3, cwd=1, bounds="3 name bytes, current directory"),
   J("flat", X, "VH_contain", 120, kind=0, level=0, n=3, flat=1, links=1, bounds="3 name bytes, directories ignored"),
   J("api-l0", X, "VH_containApi", 120, level=0, bounds="3 name bytes"),
   J("api-l2", X, "VH_containApi", 120, level=2, bounds="3 name bytes")] +
  [J("dead-k%d-l%d" % (k, l), X, "VH_contain", 120, kind=k, level=l, n=3, links=2, bounds="3 arbitrary name bytes, existing links to what does not exist") for k, l in ((0, 0), (1, 1), (2, 0), (0, 2))] +
  [J("seq2-l%d-t%d-f%d%s" % (l, t, f, "-cwd" if c else ""), X, "VH_containSeq", 200, n=2, level=l, there=t, force=f, cwd=c, reach=["extracted", "refused"], bounds="2 entries of any kind out of a pool of names and targets") for l, t, f, c in ((0, 0, 1, 0), (1, 1, 1, 0), (2, 2, 1, 0), (1, 2, 0, 1), (0, 1, 0, 0))] +
  [J("dots-l0", X, "VH_contain", 120, kind=0, level=0, n=7, alpha=2, bounds="7 name bytes out of dots, slashes and a letter"),
   J("dots-l1", X, "VH_contain", 120, kind=1, level=1, n=6, alpha=2, links=1, bounds="6 name bytes out of dots, slashes and a letter, existing links"),
   J("dots-l2", X, "VH_contain", 120, kind=0, level=2, n=3, dir=4, alpha=2, bounds="3 name and 4 directory bytes out of dots, slashes and a letter")] +
  [J("seq3", X, "VH_containSeq", 200, n=3, level=1, pool=4, reach=["extracted", "refused"], bounds="3 entries of any kind out of a pool of 4 names"),
   J("any-l0", X, "VH_containAny", 120, level=0, reach=["extracted", "refused"], bounds="an entry of any mode that carries the name of a link or a name below it, any options"),
   J("any-l1", X, "VH_containAny", 120, level=1, reach=["extracted", "refused"], bounds="an entry of any mode that carries the name of a link or a name below it, any options"),
   J("any-l2-K", X, "VH_containAny", 120, level=2, os=ord("K"), reach=["extracted", "refused"], bounds="an entry of any mode that carries the name of a link or a name below it, any options"),
   J("seq3-deep", X, "VH_containSeq", 900, "thorough", n=3, level=0, there=1, reach=["extracted", "refused"], bounds="3 entries of any kind out of the whole pool of names")],
  [FS])

# ------------------------------------------------------------------ C14
P("C14", "Existing files are overwritten only with consent",
  "Extracting over an existing file asks first and changes the file only after a yes; no, an empty answer or the end of the input keeps it, 'all' stops asking and overwrites, 'skip' stops asking and keeps, and other answers are asked again. Files that do not exist are written without a question, and the force option overwrites without one.",
  ["inputs", "histories"], "every answer sequence, every combination of existing files, files and links",
  "The tests never extract over an existing file.",
  ["lhext.go"],
  [("inquire, inquireExtract", "lhext.go")],
  ["CommandExtract", "standard input", "the files"],
  [J("files", X, "VH_consent", 120, level=1, files=2, n=4, reach=["written", "kept"], bounds="2 files, 4 answer bytes"),
   J("link", X, "VH_consent", 120, level=0, files=2, n=3, kind=1, reach=["kept"], bounds="file and link, 3 answer bytes"),
   J("three", X, "VH_consent", 200, level=0, files=3, n=5, reach=["written", "kept"], bounds="3 files, 5 answer bytes"),
   J("force", X, "VH_consent", 120, level=2, files=2, n=1, force=1, reach=["written"], bounds="forced"),
   J("dead-link", X, "VH_consent", 120, level=1, files=2, n=3, link=1, reach=["written", "kept", "refused"], bounds="the name of a link that leads nowhere, 3 answer bytes"),
   J("over-link", X, "VH_consent", 120, level=0, files=2, n=3, link=2, reach=["written", "kept", "refused"], bounds="the name of a link to a file, 3 answer bytes"),
   J("force-link", X, "VH_consent", 120, level=1, files=2, n=1, link=2, force=1, reach=["written"], bounds="the name of a link to a file, forced"),
   J("long-answer", X, "VH_consent", 120, level=1, files=2, n=3, long=1, reach=["written", "kept"], bounds="a first answer of up to 4097 letters"),
   J("any-answer", X, "VH_consent", 120, level=2, files=2, n=3, any=1, reach=["written", "kept"], bounds="a first answer of any character"),
   J("any", X, "VH_consentAny", 120, reach=["kept", "refused"], bounds="an entry of any mode and level with the name of an existing file, answered no")],
  [FS])

# ------------------------------------------------------------------ C15
P("C15", "Packed data of every method is decoded as its format defines",
  "For every supported method (-lh1- to -lh7-, -lzs-, -lz5-, -pm2-, and the stored -lh0-, -lz4-, -pm0-) and every stream of the format, also from other LHA implementations, whatever its code tables, code lengths, match lengths, distances and block sizes, decoding yields the bytes that the format defines and their CRC.",
  ["inputs"], "streams with several shapes of code tables, in which some byte has any value",
  "The tests decode one file of one method, packed by this library.",
  ["slide.go", "huf.go", "dhuf.go", "shuf.go", "maketbl.go", "bitio.go", "larc.go", "pm.go", "pmtree.go", "pm2hist.go"],
  [("decode", "slide.go"), ("decodeCSt1, decodePSt1", "huf.go"), ("decodeCDyn, decodePDyn", "dhuf.go"), ("decodeCSt0", "shuf.go"), ("decodeCLzs, decodeCLz5", "larc.go"), ("decodeCPm2", "pm.go")],
  ["DecodeLzhuf", "DecompresBytes"],
  [J("m%d" % m, D, "VH_decRef", 200, method=m, n=80, lo=0, hi=2, split=1, orig=150, reach=["agree"], bounds="80 bytes, one of 3 arbitrary") for m in (1, 2, 8, 9)] +
  [J("m5-c%d" % c, D, "VH_decRef", 200, method=5, c=c, p=0, n=60, lo=0, hi=1, split=1, orig=150, few=0 if c in (0, 2) else 1, reach=["agree"], bounds="code table shape %d, one byte arbitrary" % c) for c in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, -1, -257)] +
  [J("m5-p%d" % p, D, "VH_decRef", 200, method=5, c=4, p=p, n=60, lo=0, hi=1, split=1, orig=1500, few=1, reach=["agree"], bounds="distance table shape %d" % p) for p in (1, 2, 3, 4, 7, 8, 9, -1, -6)] +
  [J("m%d" % m, D, "VH_decRef", 200, method=m, c=4, p=0, n=60, lo=0, hi=1, split=1, orig=1500, few=1, reach=["agree"], bounds="code table shape 4") for m in (4, 6, 7)] +
  [J("m3-c%d" % c, D, "VH_decRef", 200, method=3, c=c, p=9, n=60, lo=0, hi=1, split=1, orig=150, few=0 if c == 0 else 1, reach=["agree"], bounds="code table shape %d" % c) for c in (0, 1, 2, 5, 7, 8, 9, -1, -257)] +
  [J("m3-p%d" % p, D, "VH_decRef", 200, method=3, c=4, p=p, n=60, lo=0, hi=1, split=1, orig=1500, few=1, reach=["agree"], bounds="distance table shape %d" % p) for p in (0, 1, 2, 10, 11, 12, -1, -100)] +
  [J("m%d-long" % m, D, "VH_decRef", 200, method=m, n=2500, lo=2000, hi=2000, orig=9500, split=1, few=1, reach=["agree"], bounds="2500 bytes, past the dictionary") for m in (1, 2)] +
  [J("pm2-c%d" % c, D, "VH_pm2", 200, c=c, extra=2, reach=["agree"], bounds="every symbol, 3 values of its extra bits") for c in (0, 1, 2, 3, 4)] +
  [J("pm2-long", D, "VH_pm2", 200, c=0, orig=14000, extra=1, reach=["agree"], bounds="14000 bytes, past the dictionary"),
   J("lh2-deep", D, "VH_lh2", 200, lo=0, hi=10, grow=8300, reach=["done"], bounds="0 to 10 position codes with frequencies that give the longest codes"),
   J("lh2-rebuild", D, "VH_lh2", 200, lo=0, hi=0, more=33000, reach=["done"], bounds="33000 further matches: both code trees are rebuilt"),
   J("lh2-grow", D, "VH_lh2", 200, lo=0, hi=0, more=66000, grow=8300, reach=["done"], bounds="66000 further matches while the position tree grows"),
   J("lz5-dict", D, "VH_larcDict", 120, method=9, step=8, reach=["agree"], bounds="matches of 18 bytes at every 8th place of the initial dictionary"),
   J("lzs-dict", D, "VH_larcDict", 120, method=8, step=8, reach=["agree"], bounds="matches of 17 bytes at every 8th place of the initial dictionary"),
   J("lz5-dict-all", D, "VH_larcDict", 600, "thorough", method=9, step=1, reach=["agree"], bounds="matches of 18 bytes at every place of the initial dictionary"),
   J("pm2-keep", D, "VH_pm2", 200, c=0, renew=0, orig=10000, extra=1, reach=["agree"], bounds="10000 bytes, code tables kept")])

# ------------------------------------------------------------------ C16
P("C16", "An operation does not depend on what was done before it",
  "Encoding, decoding, listing, extracting and adding yield the same result whatever was encoded, decoded, listed, extracted or added before in the same process, with the same or another Lha value and with any method, and whether the earlier operation succeeded, was given up, hit damaged or truncated data, or failed while reading or writing.",
  ["histories"], "every pair of operations over all methods and outcomes within the bounds",
  "The tests run one operation per process state; the coders share package variables.",
  ["slide.go", "huf.go", "dhuf.go", "shuf.go", "larc.go", "pm.go", "pmtree.go", "pm2hist.go", "append.go", "maketbl.go"],
  [("encodeAlloc", "append.go"), ("decode start functions", "huf.go"), ("initialisation of the trees", "dhuf.go"), ("tables", "shuf.go")],
  ["EncodeLzhuf", "DecodeLzhuf"],
  [J("pair-t1", Y, "VH_history", 200, steps=1, texts=1, reach=["done"], bounds="every operation after every other: 15 after 70"),
   J("pair-t3", Y, "VH_history", 900, "thorough", steps=1, texts=3, reach=["done"], bounds="every operation on 3 texts after every other"),
   J("pair-c4", Y, "VH_history", 900, "thorough", steps=1, texts=1, c=4, p=1, reach=["done"], bounds="the same with other code tables"),
   J("after-fault-list", U + ["h_ophist.go"], "VH_opHist", 200, fault=1, ops=130, op=4, reach=["done"], bounds="listing after one of 6 operations in which any one file system operation failed"),
   J("after-fault-extract", U + ["h_ophist.go"], "VH_opHist", 200, fault=1, ops=130, op=3, reach=["done"], bounds="extracting after one of 6 operations in which any one file system operation failed"),
   J("after-fault-add", U + ["h_ophist.go"], "VH_opHist", 200, fault=1, ops=130, op=5, reach=["done"], bounds="adding after one of 6 operations in which any one file system operation failed"),
   J("ops", U + ["h_ophist.go"], "VH_opHist", 120, reach=["done"], bounds="7 operations on an archive after 14 others, with the same or another Lha; one byte of the archive arbitrary"),
   J("files", U, "VH_sequence", 120, steps=3, n=1, alpha=2, levels=0, meth=0, file=1, fresh=0, reach=["done"], bounds="3 additions of files or bytes with one Lha"),
   J("crowd", Y, "VH_crowd", 200, reach=["done"], bounds="28 bytes, one of 3 values, before and after 1500 bytes of one hash chain; 8 pairs of methods"),
   J("pair-c1", Y, "VH_history", 200, steps=1, texts=1, c=-1, p=-1, reach=["done"], bounds="the same with tables of a single code"),
   J("seq", U, "VH_sequence", 200, steps=2, alpha=2, split=1, n=1, shape=1, fresh=0, reach=["done"], bounds="two additions to an archive through one Lha value, stored and packed, every level")],
  [FS])

# ------------------------------------------------------------------ C17
P("C17", "Listing and verifying change nothing and print no contents",
  "Listing, verifying and decompressing to memory never create, change or remove a file, whatever the state of the archive, and never write file contents to the standard output.",
  ["inputs", "configurations"], "intact archives and archives with any one damaged byte",
  "The tests do not observe the file system or the output.",
  ["lha.go", "lhext.go", "extract.go"],
  [("Headers", "lha.go"), ("CommandList", "lhext.go"), ("extractOne verify mode", "lhext.go")],
  ["Headers", "CommandList", "DecompresBytes", "file system events", "standard output"],
  [J("intact-m%d" % m, X, "VH_readonly", 120, method=m, level=1, reach=["done"], bounds="2 entries") for m in (0, 5)] +
  [J("damage-l%d" % l, X, "VH_readonly", 200, method=0, level=l, damage=1, reach=["done"], bounds="every position, 4 error patterns") for l in (0, 1, 2)] +
  [J("damage-packed", X, "VH_readonly", 300, method=5, level=2, damage=1, reach=["done"], bounds="every position, 4 error patterns, packed data")] +
  [J("kind-%d" % k, X, "VH_quietAny", 120, level=k % 3, op=k, reach=["done", "refused"], bounds="an entry of any mode, existing files and links, any options") for k in (0, 3, 4)] +
  [J("damage-any-l%d" % l, X, "VH_readonly", 900, "thorough", method=0, level=l, damage=1, any=1, reach=["done"], bounds="every position, any wrong byte") for l in (1,)],
  [FS])

# ------------------------------------------------------------------ C18
P("C18", "A failed or interrupted update leaves the old archive intact",
  "When any file system operation of an update fails, the update reports an error or is complete, the old archive (or its requested backup) is unchanged, and no temporary file remains. When the process dies at any such point, the archive is either the old one or the complete new one. The move option removes a source file only once it is in the archive.",
  ["fault_sequences", "crash_points"], "every single failing operation and every crash point of an update",
  "The tests run without faults.",
  ["lhext.go", "lha.go"],
  [("CommandAdd, compressBytes: temporary file and rename", "lhext.go"), ("buildBackupFile, removeFiles", "lhext.go")],
  ["Compress", "CompressBytes", "the archive file", "the source file"],
  [J("bytes", U, "VH_updateFault", 200, ops=120, method=0, level=1, reach=["failed", "no fault"], bounds="every operation, 3 old entries"),
   J("bytes-new", U, "VH_updateFault", 200, ops=70, old=0, method=0, level=0, reach=["failed", "no fault"], bounds="no old archive"),
   J("bytes-crash", U, "VH_updateFault", 200, ops=120, crash=1, method=0, level=2, reach=["crash", "no fault"], bounds="every crash point"),
   J("file", U, "VH_updateFault", 200, ops=130, file=1, method=0, level=1, reach=["failed", "no fault"], bounds="adding a file"),
   J("file-move", U, "VH_updateFault", 200, ops=130, file=1, move=1, method=0, level=1, reach=["failed", "no fault"], bounds="move option"),
   J("file-crash", U, "VH_updateFault", 200, ops=130, file=1, move=1, crash=1, method=0, level=0, reach=["crash", "no fault"], bounds="move option, crash"),
   J("backup", U, "VH_updateFault", 200, ops=130, file=1, backup=1, method=0, level=1, reach=["failed", "no fault"], bounds="backup option"),
   J("backup-crash", U, "VH_updateFault", 200, ops=130, backup=1, crash=1, method=0, level=1, reach=["crash", "no fault"], bounds="backup option, crash"),
   J("bytes-long", U, "VH_updateFault", 200, ops=80, big=5000, method=0, level=1, reach=["failed", "no fault"], bounds="every operation, an old entry and new data of 5000 bytes"),
   J("file-long", U, "VH_updateFault", 200, ops=90, big=5000, file=1, move=1, method=0, level=1, reach=["failed", "no fault"], bounds="every operation, an old entry and a file of 5000 bytes, move option"),
   J("file-long-crash", U, "VH_updateFault", 200, ops=90, big=5000, file=1, crash=1, method=0, level=1, reach=["crash", "no fault"], bounds="every crash point, an old entry and new data of 5000 bytes"),
   J("packed", U, "VH_updateFault", 200, ops=75, method=5, shape=1, split=1, level=2, reach=["failed", "no fault"], bounds="every operation, packed data"),
   J("packed-crash", U, "VH_updateFault", 200, ops=80, file=1, move=1, crash=1, method=1, shape=1, split=1, level=0, reach=["crash", "no fault"], bounds="every crash point, packed data, move option"),
   J("retried", U, "VH_updateFault", 200, ops=90, file=1, move=1, method=5, split=1, m=1, level=2, reach=["failed", "no fault"], bounds="every operation, data that does not shrink, move option"),
   J("sorted", U, "VH_updateFault", 200, ops=80, sort=1, method=0, level=1, reach=["failed", "no fault"], bounds="every operation, sort option"),
   J("newer", U, "VH_updateFault", 200, ops=100, newer=1, file=1, mix=1, method=0, level=0, reach=["failed", "no fault"], bounds="every operation, update option"),
   J("newer-crash", U, "VH_updateFault", 200, ops=100, newer=1, file=1, move=1, crash=1, mix=2, method=0, level=0, reach=["crash", "no fault"], bounds="every crash point, update and move options")],
  [FS])

# ------------------------------------------------------------------ C19
P("C19", "Extraction that reports success has written complete files",
  "When any file system operation of an extraction fails, either an error is reported or every file asked for is complete on disk. Without a fault extraction succeeds, and in all cases the archive is left alone.",
  ["fault_sequences"], "every single failing operation",
  "The tests run without faults.",
  ["lhext.go", "extract.go", "crcio.go"],
  [("extractOne", "lhext.go"), ("DecodeLzhuf error return", "extract.go")],
  ["CommandExtract", "Decompress", "DecompresBytes", "the files"],
  [J("all-f%d-o%d" % (f, o), X, "VH_extractFault", 120, force=f, over=o, ops=40, reach=["error", "success"], bounds="every operation, 2 entries") for f in (0, 1) for o in (0, 1)] +
  [J("one", X, "VH_extractFault", 120, api=1, ops=30, reach=["error", "success"], bounds="one entry to disk"),
   J("mem", X, "VH_extractFault", 120, api=2, ops=30, reach=["error", "success"], bounds="one entry to memory"),
   J("link", X, "VH_extractFault", 120, link=1, ops=40, reach=["error", "success"], bounds="every operation, 2 files and a link"),
   J("link-over", X, "VH_extractFault", 120, link=1, over=1, ops=40, reach=["error", "success"], bounds="every operation, 2 files and a link over existing ones"),
   J("link-taken", X, "VH_extractFault", 120, link=2, ops=40, reach=["error"], bounds="every operation, a link whose name is a directory's"),
   J("long", X, "VH_extractFault", 120, big=5000, ops=45, reach=["error", "success"], bounds="every operation, a file of 5002 bytes"),
   J("long-lh5", X, "VH_extractFault", 200, big=9000, alpha=4, split=1, method=5, reads=0, ops=20, reach=["error", "success"], bounds="every operation but reading, a packed file of 9002 bytes"),
   J("long-letters", X, "VH_extractFault", 200, big=9000, alpha=64, split=1, method=5, reads=0, ops=20, reach=["error", "success"], bounds="every operation but reading, a packed file of 9002 bytes, most of them letters"),
   J("long-lh1", X, "VH_extractFault", 200, big=5000, alpha=4, split=1, method=1, reads=0, api=1, ops=20, reach=["error", "success"], bounds="every operation but reading, a packed file of 5002 bytes"),
   J("many", M, "VH_many", 120, op=1, n=300, reach=["done"], bounds="300 entries, one of 6 of them with 2 arbitrary bytes")],
  [FS])

# ------------------------------------------------------------------ C20
P("C20", "Permissions, time stamps, directories and links survive archiving",
  "A file, directory or symbolic link that is added to an archive and extracted again has the same permissions, modification time (to the second) and kind, and a link has the same target. The headers report the same values.",
  ["inputs"], "every permission, a range of time stamps, every link target within the bounds; levels 0 to 2",
  "The tests do not look at attributes.",
  ["header.go", "lhext.go"],
  [("initHeader", "header.go"), ("adjustInfo, adjustDirinfo", "lhext.go"), ("symlinkWithMakePath", "lhext.go")],
  ["Compress", "CommandExtract", "the files"],
  [J("attrs-l%d" % l, X, "VH_attrs", 200, level=l, reach=["done"], bounds="512 permissions, 65536 time stamps") for l in (0, 1, 2)] +
  [J("dir-l%d" % l, X, "VH_attrs", 200, level=l, dirent=1, reach=["done"], bounds="512 permissions, 65536 time stamps") for l in (0, 1, 2)] +
  [J("dirs-l%d-s%d-f%d" % (l, s, f), X, "VH_dirs", 120, level=l, set=s, files=f, reach=["done"], bounds="several directories in every order%s" % (", with files" if f else "")) for l, s, f in ((0, 0, 0), (1, 1, 1), (2, 0, 1), (3, 1, 0), (1, 0, 0), (2, 1, 1))] +
  [J("link-l%d-s%d" % (l, s), X, "VH_link", 120, level=l, n=3, slash=s, reach=["done"], bounds="3 target bytes over 4 letters") for l, s in ((0, 0), (1, 1), (2, 0))] +
  [J("many-dirs", M, "VH_many", 120, op=7, n=40, reach=["done"], bounds="40 directories with permissions and a file each")],
  [FS])

# ------------------------------------------------------------------ C21
P("C21", "Only the files asked for are extracted, and excluded files are not added",
  "When file names are given, extraction writes exactly the entries of those names. Files named by the exclude list are not added, whatever the case of their letters, neither directly nor through a directory, while all other files are.",
  ["inputs"], "every selected or excluded name within the bounds",
  "The tests use neither selections nor exclusions.",
  ["lhext.go"],
  [("needFile", "lhext.go"), ("isExcluded, findFiles", "lhext.go")],
  ["CommandExtract", "Compress", "Headers"],
  [J("select-2", X, "VH_select", 120, n=2, reach=["done"], bounds="2 name bytes"),
   J("select-1", X, "VH_select", 120, n=1, two=1, reach=["done"], bounds="1 name byte and a second name"),
   J("exclude", X, "VH_exclude", 120, n=2, reach=["done", "excluded"], bounds="2 name bytes"),
   J("exclude-rec", X, "VH_exclude", 120, n=1, rec=1, reach=["done", "excluded"], bounds="1 name byte, recursive"),
   J("near-l0", U, "VH_near", 120, level=0, pick=1, n=5, reach=["picked", "read"], bounds="another entry of any printable name of up to 5 letters, also in a directory"),
   J("near-l1", U, "VH_near", 120, level=1, pick=1, n=5, reach=["picked", "read"], bounds="another entry of any printable name of up to 5 letters, also in a directory"),
   J("near-l2", U, "VH_near", 120, level=2, pick=1, n=5, reach=["picked", "read"], bounds="another entry of any printable name of up to 5 letters, also in a directory"),
   J("select-many", X, "VH_select", 120, n=2, many=1, reach=["done"], bounds="2 name bytes at any place among other names"),
   J("exclude-many", X, "VH_exclude", 120, n=2, many=1, reach=["done", "excluded"], bounds="2 name bytes at any place of a longer list"),
   J("exclude-rec-many", X, "VH_exclude", 120, n=1, rec=1, many=1, reach=["done", "excluded"], bounds="1 name byte at any place of a longer list, recursive"),
   J("many-names", M, "VH_many", 120, op=2, n=40, reach=["done"], bounds="80 names given, 40 entries"),
   J("many-given", M, "VH_many", 120, op=4, direct=1, n=40, reach=["done"], bounds="40 files named, 20 of them excluded"),
   J("many-excluded", M, "VH_many", 120, op=4, n=90, reach=["done"], bounds="a directory of 90 files, 45 of them excluded")],
  [FS])

# ------------------------------------------------------------------ C22
T = H + ["h_time.go"]
P("C22", "Time stamps in headers denote the file's modification time",
  "The MS-DOS time stamp of a header of level 0 or 1 is the date and time of day of the entry, to 2 seconds, both when it is written and when it is read from an archive without a unix time stamp; at level 2 the header has the unix time. Every date of the Gregorian calendar from 1980 on is converted correctly, leap years included.",
  ["inputs"], "every time of day; first, last and middle days of every month of several years",
  "The tests do not look at time stamps; calendar arithmetic fails on single days.",
  ["header.go"],
  [("genericToUnixStamp, unixToGenericStamp", "header.go")],
  ["WriteHeader", "GetHeader"],
  [J("read-%d-l%d" % (y, l), T, "VH_dosRead", 120, level=l, year=y, reach=["read"], bounds="year %d, 7 days of each month, 48 times of day" % y) for y, l in ((1980, 0), (1999, 1), (2000, 0), (2024, 1), (2037, 0), (2100, 1))] +
  [J("read-%d-l%d" % (y, l), T, "VH_dosRead", 120, level=l, year=y, reach=["read"], bounds="year %d, 7 days of each month, 48 times of day" % y) for y, l in ((2037, 2), (2100, 2), (2105, 3))] +
  [J("read-sym", T, "VH_dosRead", 200, level=1, year=2024, split=0, reach=["read"], bounds="2024, 7 days of each month, every time of day")] +
  [J("write-%d-l%d" % (y, l), T, "VH_dosWrite", 120, level=l, year=y, generic=1 if l == 0 else 0, reach=["written"], bounds="year %d, 7 days of each month, 10 times of day" % y) for y, l in ((1980, 0), (1999, 1), (2000, 0), (2024, 1), (2037, 0), (2100, 1))] +
  [J("write-l2", T, "VH_dosWrite", 200, level=2, split=0, year=2024, reach=["written"], bounds="7 days of each month, every time of day")] +
  [J("write-%d-g1" % y, T, "VH_dosWrite", 120, level=1, year=y, generic=1, reach=["written"], bounds="generic format, year %d" % y) for y in (2004,)] +
  [J("read-sym-%d" % y, T, "VH_dosRead", 600, "thorough", level=0, year=y, split=0, reach=["read"], bounds="%d, 7 days of each month, every time of day" % y) for y in (1980, 1999, 2000, 2100, 2105)] +
  [J("write-l2-all", T, "VH_dosWrite", 600, "thorough", level=2, split=0, reach=["written"], bounds="10 years, 7 days of each month, every time of day")])

# ------------------------------------------------------------------ C23
P("C23", "Printing goes to the standard output only, and a dry run changes nothing",
  "With the print option (OutputToStdout), extracting writes exactly the contents of the entries asked for to the standard output, in archive order, each preceded by its name banner unless quiet, asks no question and creates, changes or removes no file. With the no-execute option (Noexec), extracting, adding, moving and updating create, change or remove no file and print no contents.",
  ["inputs", "configurations"], "every mix of entries, options and existing files within the bounds",
  "The tests use neither option.",
  ["lhext.go", "extract.go", "crcio.go"],
  [("extractOne", "lhext.go"), ("CommandAdd, compressBytes, copyOldOne", "lhext.go")],
  ["CommandExtract", "Decompress", "Compress", "CompressBytes", "standard output", "file system events"],
  [J("print-%d" % k, O, "VH_stdout", 120, n=1, mix=k, reach=["done"], bounds="3 entries of 0 or 1 arbitrary bytes") for k in range(4)] +
  [J("print-after-%d" % k, O, "VH_stdout", 120, n=1, mix=k, packed=1, dir=1, before=1, level=k % 3, reach=["done"], bounds="the same after verifying or decompressing to memory") for k in range(2)] +
  [J("print-packed-%d" % k, O, "VH_stdout", 120, n=1, mix=k, packed=1, dir=1, level=k % 3, reach=["done"], bounds="a directory, a packed and a stored file") for k in range(3)] +
  [J("dry-%d" % k, O, "VH_noexec", 120, mix=k, reach=["done"], bounds="extracting or adding, every combination of 8 options") for k in range(4)] +
  [J("kind-%d" % k, X, "VH_quietAny", 120, level=k, op=k, reach=["done", "refused"], bounds="an entry of any mode, existing files and links, any options") for k in (1, 2)] +
  [J("print-deep", O, "VH_stdout", 600, "thorough", n=3, mix=0, reach=["done"], bounds="3 entries of 0 to 3 arbitrary bytes")],
  [FS])

# ------------------------------------------------------------------ C24
P("C24", "Update, sort and recursion options select and place entries correctly",
  "With UpdateIfNewer an entry is replaced only if the file is newer than it; otherwise it stays byte for byte, and with the move option the file then stays too; files that are not in the archive are added, and without file names exactly the newer ones among the archive's own files are. With SortContents a sorted archive stays sorted by name. With RecursiveArchiving every file below a directory is added exactly once, with its path below the directory and its own contents, without it none.",
  ["inputs", "configurations"], "every file time around the entry's, every added name, every shape of a small tree",
  "The tests use none of these options.",
  ["lhext.go"],
  [("keepNewer, findUpdateFiles", "lhext.go"), ("copyOldEntries", "lhext.go"), ("filesToAdd, findFiles", "lhext.go")],
  ["Compress", "CompressBytes", "CommandAdd", "the archive file"],
  [J("newer-%d-m%d-s%d" % (k, m, s), O, "VH_newer", 120, mix=k, move=m, sort=s, newlevel=k % 3, reach=["done", "kept", "replaced"], bounds="256 file times around the times of 3 entries") for k, m, s in ((0, 0, 0), (1, 1, 0), (2, 0, 1), (3, 1, 1), (4, 0, 0))] +
  [J("auto-%d-m%d" % (k, m), O, "VH_newer", 120, mix=k, move=m, auto=1, newlevel=(k + 1) % 3, reach=["done", "kept", "replaced"], bounds="256 times of up to 3 files, none named") for k, m in ((0, 0), (1, 1), (2, 0))] +
  [J("sorted-%d" % k, O, "VH_sorted", 120, mix=k, level=k, n=3, reach=["done"], bounds="added names of 1 to 3 letters over 5") for k in range(3)] +
  [J("sorted-case", O, "VH_sorted", 120, letters=1, mix=1, level=2, n=2, reach=["done"], bounds="added names of 1 or 2 characters out of letters of both cases, digits and signs")] +
  [J("sorted-two", O, "VH_sorted", 120, mix=0, steps=2, n=1, reach=["done"], bounds="two additions of names of one letter")] +
  [J("tree-l%d-r%d-m%d" % (l, r, m), O, "VH_tree", 120, level=l, rec=r, move=m, reach=["done"], bounds="256 small trees") for l, r, m in ((0, 1, 0), (1, 1, 1), (2, 1, 0), (1, 0, 0))] +
  [J("auto-kinds-l%d" % l, O, "VH_autoKinds", 120, level=l, reach=["done", "kept", "replaced"], bounds="entries with and without directories, files of every age, none named") for l in (0, 1, 2)] +
  [J("deep-l%d" % l, M, "VH_many", 120, op=5, n=20, level=l, reach=["done"], bounds="directories 20 deep") for l in (0, 1, 2)] +
  [J("many-newer", M, "VH_many", 120, op=6, n=90, reach=["done"], bounds="90 entries, a newer file for one of them")] +
  [J("sorted-three", O, "VH_sorted", 600, "thorough", mix=1, steps=3, n=2, reach=["done"], bounds="three additions of names of 1 or 2 letters")],
  [FS])

# ------------------------------------------------------------------ C25
F5 = A + ["h_sfx.go"]
P("C25", "The archive inside a self-extracting file is found",
  "In a file whose name ends in .exe, .com or .x, the archive is found behind a program of up to 64 KiB, and listing, reading and extracting it work as for any other archive; bytes of the program that only resemble a header are passed over, a plain archive of such a name is read from its start, a file without an archive is reported, and no such file crashes the reader.",
  ["inputs"], "program sizes and contents within the bounds, first headers of every level",
  "The tests read no such file.",
  ["header.go", "util.go", "lhext.go", "lha.go"],
  [("SeekLhaHeader", "header.go"), ("archiveIsMsdosSfx1", "util.go")],
  ["Headers", "CommandList", "DecompresBytes", "Decompress", "CommandExtract"],
  [J("stub-%d%d-%d" % (l, m, k), F5, "VH_sfx", 120, level=l, level2=m, hi=h, lead=k, reach=["done"], bounds="a program of 0 to %d bytes%s" % (h, ["", " and one that resembles a header but for its checksum", " and names of methods"][k])) for l, m, h, k in ((0, 1, 40, 0), (1, 2, 40, 0), (2, 0, 40, 0), (3, 0, 40, 0), (1, 0, 5, 1), (0, 0, 40, 2), (2, 1, 40, 2))] +
  [J("last-l%d" % l, F5, "VH_sfxLast", 120, level=l, reach=["done"], bounds="one entry of 0 or 1 bytes of 4 methods, with and without an end mark") for l in range(4)] +
  [J("stub-long", F5, "VH_sfx", 120, level=0, level2=2, lo=65278, hi=65279, reach=["done"], bounds="a program of 65278 or 65279 bytes"),
   J("any-1", F5, "VH_sfxAny", 120, n=1, reach=["done"], bounds="an arbitrary byte, a method name, any level, 0 to 30 noise bytes"),
   J("any-2", F5, "VH_sfxAny", 200, n=2, pre=9, split=0, reach=["done"], bounds="two arbitrary bytes, a method name, any level, 0 to 30 noise bytes")],
  [FS])

# ------------------------------------------------------------------ C26
L6 = A + ["h_list.go"]
P("C26", "The listing shows what the headers say",
  "The list command prints one line for each entry asked for, in archive order, with its permissions and kind (or the name of the operating system), owner and group, size, ratio and name (link targets included), in verbose form also the packed size, method, CRC and header level, and totals that count and add up exactly the listed entries. An archive that is cut inside an entry is reported.",
  ["inputs", "configurations"], "several permissions, owners, sizes, levels and selections; every combination of the list options",
  "The tests print one listing and do not look at it.",
  ["lhext.go"],
  [("CommandList", "lhext.go"), ("listOne, listTailer, printSize", "lhext.go")],
  ["CommandList", "standard output"],
  [J("list-l%d-u%d" % (l, u), L6, "VH_list", 120, level=l, user=u, reach=["done"], bounds="3 entries, 8 modes, 3 owners, 3 sizes, every selection and list option") for l in (0, 1, 2) for u in (0, 1)] +
  [J("kinds-l%d" % l, L6, "VH_listKinds", 120, level=l, reach=["done"], bounds="entries of every operating system, kind and special permission") for l in (1, 2)] +
  [J("cut-%d" % k, L6, "VH_listCut", 120, mix=k, reach=["done"], bounds="an archive of 3 entries cut at every place") for k in range(3)] +
  [J("many", M, "VH_many", 120, op=0, n=300, reach=["done"], bounds="300 entries")],
  [FS, "NUL bytes and spacing in the output do not count; the time column is blank in this implementation"])

# ------------------------------------------------------------------ C27
L7 = A + ["h_cli.go"]
P("C27", "The command line tool carries out the commands and options it is given",
  "The command (cmd/) does with -l, -lv, -e, -p, -t, -a, -c, -u and -m, and with the options -n, -f, -v, -x, -o, -h and -g, exactly what the library does with the corresponding fields of Lha: the same files, archives and standard output. Its exit status is 0 exactly if the library call succeeded; a command that only looks (-l, -lv, -p, -t), and adding with -n, change no file. Archives are written with level 2 headers and -lh5- unless told otherwise. (-d is not implemented.)",
  ["inputs", "configurations"], "every combination of command, options, kind of file and state of the archive within the bounds",
  "The tests do not run the command.",
  ["cmd/lharc.go", "lhext.go", "lha.go"],
  [("main, parseOption, parseSubOption, initVariable", "cmd/lharc.go"), ("CommandAdd, CommandExtract, CommandList", "lhext.go")],
  ["main of cmd/", "exit status", "standard output", "the archive", "the file system"],
  [J("look-%d" % s, L7, "VH_cli", 120, lo=0, hi=1, sfx=s, reach=["done", "nothing changed"], bounds="-l and -lv; intact, damaged and missing archives") for s in (0, 1)] +
  [J("take-%d-%d" % (s, m), L7, "VH_cli", 120, lo=2, hi=4, sfx=s, mix=m, reach=["done", "nothing changed", "changed"], bounds="-e, -p and -t with every -n -f -v, four series of answers; intact, damaged and missing archives") for s, m in ((0, 0), (0, 1), (1, 2))] +
  [J("add-%d-%d" % (lo, m), L7, "VH_cli", 200, lo=lo, hi=hi, mix=m, reach=["done", "nothing changed", "changed"], bounds="%s with every -n -f; four kinds of file, older and newer; intact, damaged and missing archives" % w)
     for lo, hi, w, m in ((5, 6, "-a and -c", 0), (7, 8, "-u, with and without -a", 1), (9, 11, "-m with -a, -c and -u -a", 2))] +
  [J("opts-%d-%d" % (lo, v), L7, "VH_cli", 200, lo=lo, hi=hi, vary=v, reach=["done", "nothing changed", "changed"], bounds="%s with %s" % (w, ["", "every -x -o -n", "every -h -g -n"][v]))
     for lo, hi, w in ((5, 6, "-a and -c"), (7, 11, "-u and -m")) for v in (1, 2)] +
  [J("all-%d-m%d" % (lo, m), L7, "VH_cli", 700, "thorough", lo=lo, hi=hi, mix=m, reach=["done"], bounds="every command, archives of headers of other levels") for lo, hi in ((0, 6), (7, 11)) for m in (3, 4)],
  [FS, "package flag is a model that sets the registered variables; the library calls on the other side of the comparison are those of the properties above"])
