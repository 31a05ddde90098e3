import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=obs or []
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
LIB="library view of the binary (cfg cniic_verif)"
p("C01","Lossless codecs reproduce every image exactly",
 "For every image with at least one pixel, of any dimensions and any pixel format, encoding with a codec that declares itself lossless (hufman, delta, zip(dict), zip(back), hilbert(rle), hilbert(zip)) succeeds, and decoding the bytes it wrote gives an image of the same dimensions. The decoded image has, at every position, exactly the original 8-bit RGB colour.",
 ["inputs"],"all images (dimensions, colour contents, pixel formats) x the six lossless codecs",
 "The only round-trip tests run the two zip byte compressors on at most 16 bytes and hufman on a 3-letter alphabet; no test runs any codec on an image, so run-length saturation, dictionary saturation, window wrap-around, deep codes, alpha/16-bit formats and odd shapes are never exercised.",
 ["src/codec.rs","src/codec/hufc.rs","src/codec/hilbertc.rs","src/codec/zipc.rs","src/huf.rs","src/zip/dict.rs","src/zip/back.rs"],
 [("Codec::encode / Codec::decode of each codec","src/codec/*.rs"),("same Hilbert traversal on both sides","src/hilbert.rs")],
 [("Abbrev.counter","next dictionary code on both sides of zip-dict","src/zip/dict.rs"),("RingBuffer.start/write_pos","shared window position of zip-back encoder and decoder","src/zip/back.rs")],
 ["AnyCodec::encode output bytes","AnyCodec::decode result"],LIB)
p("C02","The byte-stream compressors are inverses on every byte string",
 "For every byte string, including empty, incompressible, extremely repetitive and ones much longer than the dictionary and the look-back window, the dictionary compressor and the look-back compressor both succeed, and decompressing what they wrote yields exactly the same bytes and then ends.",
 ["inputs"],"all finite byte strings x {dictionary, look-back}",
 "The tests stop at 16 bytes: they never reach symbol 0xFFFF, a trie node with more than 64 children, the 65535-byte window, a repetition longer than one symbol's length field, or an explicit run longer than that.",
 ["src/zip/dict.rs","src/zip/back.rs","src/utils.rs"],
 [("DictEncoder/DictDecoder assign the same code to the same pair","src/zip/dict.rs"),("IndexedHistory and Decoder history advance in step","src/zip/back.rs")],
 [("Content::Partial/Full","representation switch of a trie node at 64 entries","src/zip/dict.rs"),("Index.old/new","generations of the prefix index, swapped on window wrap","src/zip/back.rs")],
 ["zip_*_encode output","zip_*_decode iterator"],LIB)
p("C03","The Huffman coder reproduces every symbol sequence in order",
 "For every non-empty sequence of symbols of any serializable type, with any frequency distribution (a single distinct symbol, uniform, or skewed enough for codes of several dozen bits), what the Huffman coder writes decodes to the same symbols in the same order. Bits written one at a time, as whole bytes, or as bit arrays in any interleaving come back in the order they were written, most significant bit of each byte first, with only zero bits of padding after the last one.",
 ["inputs"],"all symbol sequences and all interleavings of bit-level writes",
 "The tests use one 3-symbol alphabet with code lengths 1 and 2 and a handful of hand-written bit patterns; codes that straddle several bytes at every bit offset need long skewed inputs.",
 ["src/huf.rs","src/bit.rs"],
 [("build + BinTrie","src/huf.rs"),("IoBitWriter / BitArray / bit_reader","src/bit.rs")],
 [("curr_bits, bit_count","pending bits of the writer","src/bit.rs")],
 ["encode_all / decode_all","IoBitWriter output bytes"],LIB)
p("C04","Compressed sizes are those of the documented schemes",
 "On every image, hufman and delta write 8 bytes of dimensions, one dictionary (12 or 7 bytes per distinct symbol plus one per inner node) and the minimum possible number of code bits rounded up to bytes; hilbert(rle) writes 12 bytes per maximal run of equal colours of at most 255 pixels; the dictionary codecs write 4 bytes per pair of greedily matched longest known sequences; voronoi(n) writes 19 bytes per site and cluster-colors(n) the hufman size of its reduced image. zip(back) never writes more than its input plus 2 bytes per started 32767 bytes, and on data that repeats with a period that fits its window it writes at most about twice the period plus one 4-byte reference per further period (or per 32767 bytes if the period is longer).",
 ["inputs"],"all images and byte strings, per codec",
 "Compression quality is the purpose of the tool, and no test measures a size; a suboptimal code, a missed dictionary entry or a skipped match still round-trips, so only comparison with an independent size model on many inputs can show it.",
 ["src/huf.rs","src/codec/hilbertc.rs","src/zip/dict.rs","src/zip/back.rs","src/codec/clusterc.rs"],
 [("min-heap merge by frequency","src/huf.rs"),("AbstractRle","src/codec/hilbertc.rs"),("find_symbol longest match","src/zip/dict.rs"),("buffered_repetition / MIN_REP","src/zip/back.rs")],
 None,["length of the encoded stream"],LIB)
p("C05","Streams follow the published layout and interoperate with other decoders",
 "Every stream a codec writes is understood by an independent implementation of its documented format (little-endian dimensions; 11-byte colours; Huffman trie then most-significant-bit-first codes; symbol pairs; explicit/look-back symbols within a 65535-byte window; run lengths; site list; row-major or Hilbert pixel order starting at the top-left corner), which reconstructs the same image as the codec's own decoder. Conversely every valid stream of that format, including ones the encoder itself would not choose and ones recorded from earlier builds, is decoded to the image it describes.",
 ["inputs"],"all images (encoder side) and all valid streams (decoder side), per codec",
 "No test fixes a stream of any codec; an encoder and decoder that drift together still round-trip, and yet make every previously compressed file unreadable.",
 ["src/codec/hufc.rs","src/codec/hilbertc.rs","src/codec/zipc.rs","src/codec/clusterc.rs","src/ser.rs","src/huf.rs","src/zip/dict.rs","src/zip/back.rs"],
 [("Serialize/Deserialize impls","src/ser.rs"),("BinTrie serialization","src/huf.rs"),("Symbol serialization","src/zip/back.rs"),("ZIP_SPECIAL_EOF","src/zip/dict.rs")],
 None,["encoded bytes","decode of independently produced bytes"],LIB)
p("C06","A truncated stream is never decoded as an image",
 "For every codec and every image with at least one pixel, decoding any strict prefix of the encoded stream returns no image, without crashing and without hanging.",
 ["inputs","crash_points"],"all images x all codecs x every cut position of the stream",
 "No test truncates anything; whether a cut is noticed depends on the exact byte where the stream stops.",
 ["src/codec/hufc.rs","src/codec/hilbertc.rs","src/codec/zipc.rs","src/codec/clusterc.rs","src/huf.rs","src/zip/dict.rs","src/zip/back.rs","src/ser.rs"],
 [("Option-returning deserialization","src/ser.rs"),("pixel loops that require one colour per pixel","src/codec/*.rs")],
 None,["AnyCodec::decode result on prefixes"],LIB)
p("C07","A damaged stream body never crashes the decoder",
 "For every codec, if the bytes after the image dimensions are altered in any way (flipped, replaced, inserted, removed, reordered or entirely arbitrary), decoding terminates normally with either no image or an image of the announced dimensions; it does not panic, overflow the stack or loop.",
 ["inputs","fault_sequences"],"all streams whose dimensions are intact, with an arbitrary body",
 "Every test decodes what the encoder has just produced; invalid symbols, distances, tries and out-of-range differences never occur.",
 ["src/codec/hufc.rs","src/codec/hilbertc.rs","src/codec/zipc.rs","src/codec/clusterc.rs","src/huf.rs","src/zip/dict.rs","src/zip/back.rs"],
 [("validation in each decoder","src/codec/*.rs, src/zip/*.rs, src/huf.rs")],
 None,["AnyCodec::decode result, panics and process exits"],LIB)
p("C08","Every output failure is reported, and what was written is a correct prefix",
 "If the output stream fails at any point while an image is being encoded, encoding returns an error rather than success or a crash, and the bytes accepted before the failure are a prefix of a valid stream for that image. Outputs that accept fewer bytes than offered, or report interruption, change nothing in the resulting stream.",
 ["fault_sequences","inputs"],"all codecs x all images x every write operation at which the output fails, accepts less, or is interrupted",
 "All tests write to a Vec, which never fails and accepts everything.",
 ["src/ser.rs","src/bit.rs","src/huf.rs","src/zip/dict.rs","src/zip/back.rs","src/codec/*.rs"],
 [("write_all with error propagation","src/ser.rs, src/bit.rs"),("io::Result through encode","src/codec.rs")],
 None,["injected io::Write","result of AnyCodec::encode"],LIB)
p("C09","Codecs are pure: independent of history, of threads and of reuse",
 "Encoding and decoding depend only on the codec and the data: a codec value used many times, from many threads at once, and after other images or failed operations gives the same results as a fresh one used alone, namely the same decoded image for every codec without random choices (all but cluster-colors and voronoi) and the same bytes for the zip and hilbert codecs. Concurrent use is free of data races and of memory errors.",
 ["schedules","histories"],"all sequences and interleavings of encode/decode operations on shared codec values",
 "The tests never use a codec twice or from two threads, and plain runs do not notice data races or invalid memory accesses (there is an unsafe unwrap in the parser combinators).",
 ["src/codec.rs","src/bench.rs","src/prs.rs","src/kmeans.rs"],
 [("&self encode/decode without shared mutable state","src/codec.rs"),("unsafe unwrap_err_unchecked guarded by assert","src/prs.rs")],
 None,["results of concurrent AnyCodec operations","ThreadSanitizer and AddressSanitizer reports"],LIB)
p("C10","Approximate run-length coding keeps every pixel within the allowance",
 "hilbert(rle(d)) splits the Hilbert traversal into consecutive runs of at most 255 pixels: a pixel joins the current run exactly when its Euclidean RGB distance to the unrounded mean of the run's pixels so far is at most d, and otherwise (or after 255 pixels) starts a new run. Every pixel of a run is decoded as the mean of that run's pixels rounded to the nearest integer, and d = 0 is exactly the lossless hilbert(rle).",
 ["inputs","configurations"],"all images x all allowances d",
 "hilbertc.rs has no test at all.",
 ["src/codec/hilbertc.rs"],
 [("Approx / RunningAvg","src/codec/hilbertc.rs"),("AbstractRle","src/codec/hilbertc.rs")],
 [("RunningAvg.sum,count","state of the current run","src/codec/hilbertc.rs")],
 ["run list in the stream","decoded image"],LIB)
p("C11","cluster-colors(n) reduces the palette faithfully",
 "For every image and n >= 1, cluster-colors(n) terminates and produces an image of the same dimensions with at most n colours, in which pixels of equal original colour have equal new colour, and each new colour is the mean (rounded to nearest, weighted by pixel counts) of the original pixels that received it; an image with at most n colours is unchanged. Up to a small fraction of the colours, each original colour is mapped to the nearest of the colours available.",
 ["inputs","configurations"],"all images x all n, and all internal random choices",
 "The existing tests check the mean and distance of two colours; the clustering itself, its termination and its empty-cluster handling depend on the whole colour population and on random choices.",
 ["src/codec/clusterc.rs","src/kmeans.rs","src/geom.rs"],
 [("kmeans::cluster","src/kmeans.rs"),("ColorCount::mean weighted average","src/codec/clusterc.rs"),("reduced_colors map","src/codec/clusterc.rs")],
 None,["decoded image versus original"],LIB)
p("C12","voronoi(n) stores representative sites and redraws them correctly",
 "For every image and n >= 1, voronoi(n) terminates and writes exactly min(n, number of pixels) sites, each inside the image and with every colour channel within the range of that channel in the image, and with n = 1 the single site is the rounded mean position and colour; apart from a small fraction, each site is the mean of the pixels closest to it in combined position and colour distance. Decoding has the original dimensions and gives every pixel the colour of a site at minimum Euclidean distance from it, so that with n at least the number of pixels the image is unchanged.",
 ["inputs","configurations"],"all images x all n, and all site lists for the decoder",
 "There is no test of this codec; coordinate differences of both signs, ties and n larger than the image only occur with real images.",
 ["src/codec/clusterc.rs","src/kmeans.rs","src/geom.rs"],
 [("ColorPos distance and mean","src/codec/clusterc.rs"),("nearest site search in decode","src/codec/clusterc.rs")],
 None,["site list in the stream","decoded image"],LIB)
p("C13","The k-means engine returns a complete, consistent clustering and stops",
 "For any finite collection of distinct points and any requested number of clusters n >= 1, clustering stops after finitely many distance evaluations and returns min(n, number of points) clusters that together contain every input point exactly once, at least 99% of them (rounded down) non-empty. Each non-empty cluster's centroid is exactly the mean of its members, an empty one's is the position of an input point, and all but a small fraction of the points are in the cluster of their nearest centroid.",
 ["inputs","configurations"],"all point collections, dimensions and cluster counts, and all internal random choices",
 "The tests cluster at most 18 planar points into at most 3 clusters; neighbour-list growth and shrinking, certainty radii and empty clusters need many clusters.",
 ["src/kmeans.rs"],
 [("assign_points / update_centroids loop","src/kmeans.rs"),("NeighbouringCentroids resize","src/kmeans.rs"),("random re-seeding of empty clusters","src/kmeans.rs")],
 [("watermark","how far the neighbour list was used","src/kmeans.rs")],
 ["kmeans::cluster with a monitored Point type (every dist and mean call)"],LIB)
p("C14","Hilbert traversals visit every pixel exactly once, moving to a neighbour",
 "For every width and height of at least 1, the rectangle traversal starts at the top-left pixel, visits every pixel exactly once and moves each time to a horizontally or vertically adjacent pixel. The large-square traversal visits every pixel of the image exactly once, in the order of the curve of the smallest power-of-two square containing the image, and the small-square traversal visits exactly the pixels of the largest power-of-two square, anchored at the top-left corner, that fits in the image.",
 ["inputs","configurations"],"all image dimensions",
 "hilbert.rs has no tests; power-of-two, off-by-one, one-pixel-wide and strongly elongated dimensions all behave differently.",
 ["src/hilbert.rs"],
 [("ArbHilbertScan32 over the dimensions","src/hilbert.rs"),("bounds filter of linearize_large","src/hilbert.rs")],
 None,["hilbert::iter and linearize_* on position-coded images"],LIB)
p("C15","Codec arguments are parsed exactly and never crash",
 "Every text given as codec argument is either rejected with an error or accepted as the one codec it denotes; it never crashes the parser. Accepted are exactly: hufman (any case), delta, zip(dict), zip(back), [Hh]ilbert(rle|zip|rle(<number>)), c[luster][-]col[ors](<n>) and voronoi(<n>) with n a positive integer; the resulting codec's name carries the parameter and its lossless flag is set for exactly the six lossless ones, and the command line exits with failure on anything else, or on a missing or unknown command, without touching any file.",
 ["inputs","configurations"],"all strings and command lines",
 "The tests cover a dozen ASCII strings of the call-syntax helper only, and no codec parser; unusual Unicode, nesting, missing or extra arguments and embedded valid substrings are not sampled.",
 ["src/prs.rs","src/codec.rs","src/codec/*.rs","src/main.rs"],
 [("fun_call / matches_fully","src/prs.rs"),("FromStr of each codec","src/codec/*.rs"),("ParseAlternatives","src/prs.rs")],
 None,["AnyCodec::from_str, name(), is_lossless()","exit status of the program"],LIB)
p("C16","Benchmark figures are correct",
 "In the benchmark CSV each row's compressed size is the length in bytes of what that codec writes for that image, its ratio is 100 * size / (width * height * 24), and its error is the mean over all pixels of the squared Euclidean RGB distance between the original and the decoded image; the error is 0 exactly when the decoded image is identical.",
 ["inputs","configurations"],"all readable images, formats and dimensions x all codecs",
 "bench.rs has no tests; the figures are the tool's final product and were only ever inspected as plots.",
 ["src/bench.rs","src/geom.rs"],
 [("measure_all","src/bench.rs"),("compute_error","src/bench.rs"),("Distance for Rgb<u8>","src/geom.rs")],
 None,["output/<codec>.csv of real runs"],LIB)
p("C17","Every readable image gets exactly one row, whatever fails or runs concurrently",
 "For any list of paths and any thread schedule, the benchmark ends successfully and output/<codec name>.csv consists of one header line followed by exactly one complete row per listed image that can be opened and has pixels, carrying that path (bytes that aren't valid UTF-8 replaced) and that image's figures, in any order. Missing, unreadable, corrupt or empty files cost only their own row and are each reported on the error output, and with no measurable image the CSV is empty.",
 ["schedules","fault_sequences","inputs"],"all path lists, completion orders, thread counts and mixes of unreadable files",
 "Nothing in the tests runs the parallel benchmark; lost, duplicated or interleaved rows depend on thread timing and on which neighbour fails.",
 ["src/bench.rs","src/main.rs"],
 [("RwLock around header flag and CSV writer","src/bench.rs"),("per-image Result printed instead of propagated","src/bench.rs")],
 [("wrote_header","whether the header is already in the CSV","src/bench.rs")],
 ["output CSV and exit status of real runs with controlled completion order"],LIB)
p("C18","The Hilbert CSV dumps contain the right colours under the right labels",
 "For every image, --special=hilbert writes under output/ the files <stem>.rect.hilbert.csv, <stem>.small.hilbert.csv and <stem>.large.hilbert.csv; each has a header naming its columns red, green and blue followed by one row per visited pixel, in traversal order, whose columns hold that pixel's red, green and blue values.",
 ["inputs"],"all readable images and file names",
 "No test runs the special command, and a label or ordering mistake does not make anything fail.",
 ["src/main.rs","src/hilbert.rs"],
 [("write_to_csv","src/main.rs"),("under_output","src/main.rs")],
 None,["CSV files written by real runs"],LIB)
p("C19","Saved reconstructions are the decoded images, and appear only when needed",
 "When the decoded image differs from the original, output/<stem>.png holds exactly the decoded image, with the original's dimensions and with the error reported in that image's CSV row; when it does not differ, no such file is written. If several images share a stem, the file is, as a whole, the decoded image of one of them. The benchmark writes nothing else than these files and its CSV, and never modifies any other file, its inputs included.",
 ["inputs","configurations"],"all images x all codecs",
 "bench.rs has no tests; which files are written depends on the loss an image happens to suffer.",
 ["src/bench.rs","src/main.rs"],
 [("error != 0.0 branch","src/bench.rs"),("under_output","src/main.rs")],
 None,["directory contents before and after real runs"],LIB)
p("C20","Serialized primitives round-trip and use exactly their own bytes",
 "Every supported value (unsigned and signed integers, ASCII-range characters, pairs, arrays, length-prefixed sequences, colours) deserializes to itself from its little-endian serialized form, consuming exactly the bytes that were written and leaving following data untouched; a stream that ends early yields nothing. Turning a sequence of values into a byte stream and back yields the same values.",
 ["inputs"],"all values, nestings and concatenations",
 "The tests cover a few single values; nesting, concatenation, extreme values and early ends are combinatorial.",
 ["src/ser.rs"],
 [("Serialize / Deserialize impls","src/ser.rs"),("SerStream, deser_stream","src/ser.rs")],
 None,["serialized bytes and remaining input"],LIB)
p("C21","Stack use stays bounded however large or repetitive the input is",
 "Encoding and decoding any image or byte string, including ones that make the dictionary contain sequences hundreds of thousands of bytes long, completes on a thread with a 1 MiB stack.",
 ["inputs"],"all inputs, in particular very long repetitions",
 "Worker threads of the benchmark have small stacks, but the tests never build a dictionary more than two levels deep; recursion over a deep structure overflows only at scale.",
 ["src/zip/dict.rs","src/huf.rs","src/zip/back.rs"],
 [("iterative Drop of TrieMap","src/zip/dict.rs"),("depth limit of trie deserialization","src/huf.rs")],
 None,["completion of operations on small-stack threads"],LIB)
p("C22","Streams are self-delimiting",
 "Every decoder takes from its input exactly the bytes its encoder wrote for that image: it neither stops before the last of them nor asks for any byte after it. So an encoded image decodes to the same result whatever follows it, and images encoded one after the other into one stream, with the same or with different codecs, decode one after the other.",
 ["inputs","configurations","histories"],"all images x all codecs, any following bytes, all concatenations",
 "The tests of the compressors and of the Huffman coder use inputs that end with the stream; over-reading or stopping early by a byte is invisible there, and depends on padding bits, block boundaries and back references.",
 ["src/codec.rs","src/codec/*.rs","src/huf.rs","src/bit.rs","src/zip/*.rs","src/ser.rs","src/utils.rs"],
 [("IterBitReader","src/bit.rs"),("size headers of every stream","src/codec/*.rs"),("end of the compressed data","src/zip/*.rs")],
 None,["the number of bytes taken from an instrumented iterator, and the remaining ones"],LIB)
p("C23","Results that cannot be written are never passed off as success",
 "If the benchmark's CSV or a Hilbert dump cannot be created or completely written, the program exits with failure. If a reconstruction cannot be saved, an error is printed, that image gets no row, and all other images get theirs as if nothing had happened. Whenever the program exits successfully, every row that is there is complete and correct, and so is the reconstruction of every row with an error (whose stem no other image has) and every dump, also if writing only failed at times.",
 ["fault_sequences","crash_points","inputs"],"all write failures (missing directories, full disks, size limits reached after any number of bytes, single failing calls, partial and interrupted ones) x all codecs and commands",
 "No test runs the program or makes a write fail; buffered writers drop errors silently, and which bytes are still buffered depends on the sizes involved.",
 ["src/bench.rs","src/main.rs"],
 [("csv.flush and propagation of its error","src/bench.rs"),("saving of reconstructions","src/bench.rs"),("write_to_csv","src/main.rs")],
 None,["exit status, stderr and files of real runs under size limits, full devices and missing directories"],LIB)
p("C24","Memory use stays proportionate to the data",
 "Besides the image and the stream, encoding takes with every codec at most 16 MiB of heap plus, per pixel, 64 bytes (hilbert(rle), zip(back)), 600 bytes (hufman, delta), 800 bytes (the clustering codecs, plus 24 KiB for each of the min(n, pixels) clusters) or 3000 bytes (the dictionary codecs); decoding, of damaged stream bodies too and whatever lengths and repetitions they announce, takes at most 16 MiB plus 4 bytes per byte of the stream and 300 bytes per announced pixel. All of it is released when the call and its result are done with. The program only holds the images its threads are working on: its memory and its open files do not grow with the number of images it is given.",
 ["inputs","histories","fault_sequences"],"all images x all codecs and parameters, all damaged bodies, all lengths of image lists",
 "No test looks at memory; tables that grow quadratically, lengths that are believed before they are checked, decompression bombs and things kept for every image only show with particular or very large inputs.",
 ["src/codec/*.rs","src/zip/*.rs","src/huf.rs","src/kmeans.rs","src/ser.rs","src/bench.rs","src/main.rs"],
 [("Deserialize for Vec and Rgb","src/ser.rs"),("DictDecoder","src/zip/dict.rs"),("TrieMap","src/zip/dict.rs"),("RingBuffer, Index","src/zip/back.rs"),("assignment tables","src/kmeans.rs"),("measure_all","src/bench.rs")],
 None,["peak, largest request and remainder of a counting heap; peak memory of real runs and their success with few open files"],LIB)
p("C25","Work stays proportionate to the data",
 "The CPU time of encoding and of decoding grows at most in proportion to the number of pixels, whatever the image: apart from a fixed 40 ms, encoding takes (on a machine as fast as the one at hand) at most 1.5 us per pixel with hilbert(rle), 25 us with hufman and delta, 60 us with zip(dict) and hilbert(zip), 0.8 ms with zip(back) (whose search is bounded by its window), 25 us plus 1 us per cluster with cluster-colors and 20 us plus 3 us per cluster with voronoi; decoding takes at most 1.5 us (hilbert(rle), zip(back)), 4 us (cluster-colors), 15 us (hufman, delta, dictionary codecs), or 1 us plus 50 ns per site (voronoi). Decoding a damaged stream body takes at most twice that plus 4 us per byte of the stream. The program's time grows in proportion to the number of images (at most 0.4 ms each besides coding them), and the Hilbert dumps of an image take at most 3 ms, 15 us per pixel and 0.5 us per place of the square (of a power of two) around it.",
 ["inputs","configurations","fault_sequences"],"all images x all codecs and parameters, all damaged bodies, all lengths of image lists",
 "The tests use inputs of a few bytes, for which linear and quadratic work cannot be told apart; searches and copies that grow with the data only show with many colours, deep tries, long runs, long lists or large images.",
 ["src/codec/*.rs","src/zip/*.rs","src/huf.rs","src/kmeans.rs","src/hilbert.rs","src/bench.rs","src/main.rs"],
 [("symbol tables and tries","src/huf.rs"),("TrieMap, DictDecoder","src/zip/dict.rs"),("Index: generations bounded by the window","src/zip/back.rs"),("assignment of points near moved centroids only","src/kmeans.rs"),("measure_all","src/bench.rs")],
 None,["CPU time of the thread around every operation, CPU time of real runs; relative to a reference workload"],LIB)
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P), [x['id'] for x in P if x['statement'].count('. ')>=3])
