import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=[],hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
B="src/binary/";K=B+"chunks/";L="src/loader/mod.rs";BL="src/loader/blend.rs"
p("C01","Parsing any byte sequence ends in a value or an error, never a crash",
 "Handing any byte sequence to a parsing entry point (sprite loader, file parser, raw parser, per-chunk and per-value parsers) returns a value or an error. It never panics, overflows an integer or a 2 MiB stack, aborts or fails to terminate, in builds with and without overflow checks.",
 ["inputs","configurations"],"every byte sequence x every parsing entry point x debug/release arithmetic",
 "The 14 tests parse eight well-formed fixtures once; no malformed, truncated, nested or oversized input is ever parsed.",
 [B+"raw_frame.rs",B+"chunk.rs",B+"file.rs",B+"scalars.rs",K+"user_data.rs",K+"palette.rs",K+"old_palette.rs",B+"header.rs"],
 [("size-field validation (dword_size, take)",B+"scalars.rs, "+B+"chunk.rs, "+B+"raw_frame.rs"),("layer index bounds check",B+"file.rs parse_file"),("nesting of property values",K+"user_data.rs parse_value/parse_vector")],
 ["AsepriteFile::load","binary::file::parse_file","binary::raw_file::parse_raw_file","process exit status of the worker"])
p("C02","Every operation on a loaded sprite returns a result, never a crash",
 "For every file that loads, rendering any existing frame under any layer selection, decoding any existing image, computing a frame's hash and selecting layers, each with any target buffer, returns success or an error value. Corrupt, mis-sized or unsupported pixel data and unknown blend modes surface as errors, never as panics or aborts.",
 ["inputs","configurations"],"every loadable file (well-formed or damaged) x every existing frame/image index x every selection x every buffer length",
 "Tests render only intact fixtures with exact buffers; no corrupt cel, raw cel, unknown blend mode or odd selection is rendered.",
 [L,BL],[("error propagation in load_image/render_frame",L),("mode dispatch",BL+" blend_mode_to_blend_fn"),("checked coordinate arithmetic",L+" render_frame")],
 ["render_frame","load_image","combined_frame_image","select_layers","decompress"])
p("C03","The cost of loading and decoding is bounded by the file, not by its claims",
 "Peak memory and executed work while loading are at most a fixed multiple of the input length plus one fixed-size slot per (frame, layer) pair plus a constant, whatever counts, sizes and nesting the file declares. Decoding an image or rendering a frame needs scratch memory of at most a small multiple of the pixel area of the largest cel involved, and nothing beyond the returned value stays allocated afterwards.",
 ["inputs"],"every byte sequence (hostile counts, sizes, nesting, bombs) and every loadable file",
 "Tests observe no allocation or work; a count taken at face value or a quadratic pass is invisible on fixtures under 3 KB.",
 [B+"chunk.rs",B+"raw_frame.rs",B+"file.rs",K+"user_data.rs",K+"slice.rs",K+"tags.rs",K+"palette.rs",K+"external_files.rs",L],
 [("element counts consumed incrementally (count)",K+"*.rs"),("dense frame x layer table",B+"file.rs parse_file"),("per-cel scratch buffer",L+" render_frame/load_image")],
 ["counting allocator","instrumentation counters (executed code regions)"])
p("C04","Sprite header and frame timing are reported exactly as stored",
 "For every well-formed file, sprite size, colour depth and all other header fields, the number and order of frames and each frame's duration equal what the file stores, in the raw, file and sprite views. The newer 32-bit chunk count is used when non-zero and the older 16-bit count otherwise.",
 ["inputs"],"every well-formed file: all header values, frame counts, durations, both chunk-count encodings",
 "test_parse_header checks one header; frame durations are only ever 100 ms and no file has both chunk counts differing.",
 [B+"header.rs",B+"raw_frame.rs",B+"color_depth.rs",B+"scalars.rs",B+"file.rs",L],
 [("fixed 128-byte header layout",B+"header.rs parse_header"),("frame header and chunk count selection",B+"raw_frame.rs parse_rawframe"),("frame list construction",L+" AsepriteFile::load")],
 ["AsepriteFile::size/frames","File.header/frames","RawFile"])
p("C05","Layers, tags and slices are reported exactly as stored, in file order",
 "For every well-formed file each layer, tag and slice appears once, in file order, with exactly the stored name, flags, type, level, blend mode, opacity, frame range, direction, repeat, colour, keys, nine-patch and pivot. The sprite view mirrors these, reports repeat 0 as no repeat count and treats layer opacity as fully opaque when the header says opacity is not valid.",
 ["inputs"],"every well-formed file: any number and order of layer/tag/slice chunks over any frames, all field values incl. extremes, empty and multi-byte names",
 "test_layers and test_tags compare three names each; no other field of layers, tags or slices is asserted.",
 [K+"layer.rs",K+"tags.rs",K+"slice.rs",B+"blend_mode.rs",B+"file.rs",L],
 [("chunk parsers",K+"layer.rs, tags.rs, slice.rs"),("collection across frames",B+"file.rs parse_file"),("sprite view",L+" AsepriteFile::load")],
 ["File.layers/tags/slices","AsepriteFile::layers/tags/slices"])
p("C06","Every chunk kind's stored fields are exposed unchanged by the raw parser",
 "For every well-formed file the raw parser yields, per frame and in order, one entry per chunk with the right kind and every stored field and payload byte unchanged: cels (raw, linked, compressed, tilemap incl. flip masks), cel extra data, colour profiles, external files, masks, palettes old and new, tilesets, tags, slices, layers, user data.",
 ["inputs"],"every well-formed file: every chunk kind, every optional part, boundary values of every field",
 "No test looks at cel extra, colour profile, external file, mask, tileset, tilemap or slice-key contents at all.",
 [B+"chunk.rs",B+"chunk_type.rs",K+"cel.rs",K+"cel_extra.rs",K+"color_profile.rs",K+"external_files.rs",K+"mask.rs",K+"old_palette.rs",K+"palette.rs",K+"tileset.rs",B+"scalars.rs"],
 [("chunk dispatch",B+"chunk.rs parse_chunk"),("per-kind parsers",K+"*.rs"),("little-endian scalars and 16.16 fixed",B+"scalars.rs")],
 ["binary::raw_file::parse_raw_file"])
p("C07","User data is attached to the object it follows and to nothing else",
 "A user-data chunk belongs to the layer, cel (also when separated from it only by the cel's extra data) or slice read directly before it; those after a tags chunk go to its tags in order; one right after a palette chunk of the first frame goes to the sprite. Each object receives at most the first such chunk, with text, colour and properties as stored, and objects without one report none.",
 ["inputs","histories"],"every sequence of chunks within every frame, with user data present, absent, repeated or in excess",
 "test_user_data checks a single file where every object has exactly one text-only user data chunk.",
 [B+"file.rs",K+"user_data.rs"],[("peek-and-take of the following chunk",B+"file.rs next_user_data"),("tag-order association",B+"file.rs parse_file")],
 ["File.user_data, layers[].user_data, frames[].cels[].user_data, tags[].user_data, slices[].user_data"],
 [("chunk iterator","position in the frame's chunk sequence",B+"file.rs parse_file")])
p("C08","Custom properties decode to the stored typed values; bad ones stay contained",
 "Every well-formed set of custom properties, with any mix of the 19 value types, homogeneous and mixed vectors and maps nested up to 64 levels, decodes to exactly the stored names, types, order and values (floats bit-exact). A malformed property set inside a correctly sized block is reported as an error in that object's properties only: the file still loads and everything else, including the same user data's text and colour, is unaffected.",
 ["inputs"],"every property tree (types, nesting, vectors of vectors and maps) and every malformed property payload inside a well-sized block",
 "No fixture contains custom properties and no test reads the field.",
 [K+"user_data.rs",B+"scalars.rs"],[("recursive value/vector/map parser",K+"user_data.rs parse_value, parse_vector, parse_properties_map"),("inner result isolated by declared block size",K+"user_data.rs parse_properties_maps")],
 ["UserDataChunk.properties_maps"])
p("C09","Damaged or inconsistent files are refused with an error",
 "A file cut inside a frame, with a wrong magic number, with a frame or chunk size below its own size field or beyond the available data, with a chunk body too short, invalid UTF-8 in a name, a reversed or out-of-range palette range, a reversed tag range, an old-palette run past 256 entries, a cel of a non-existent layer, an indexed sprite without palette, or a linked or undecodable cel that cannot be resolved is refused. The errors documented for these cases are the ones returned, and a well-formed file is never refused.",
 ["inputs"],"every prefix of every well-formed file and every single-fault damage of every field listed",
 "No test feeds a damaged file; only the success path of eight fixtures is exercised.",
 [B+"raw_frame.rs",B+"chunk.rs",B+"header.rs",B+"errors.rs",B+"file.rs",B+"palette.rs",K+"palette.rs",K+"tags.rs",B+"scalars.rs",L],
 [("size checks, magic tags, all_consuming",B+"raw_frame.rs, chunk.rs, header.rs"),("range checks",K+"palette.rs, tags.rs, "+B+"palette.rs"),("layer bounds and link resolution",B+"file.rs, "+L)],
 ["parse_file / AsepriteFile::load result"])
p("C10","Unknown and reserved content is skipped without disturbing anything else",
 "Inserting chunks of unknown type (other than between an object and its user data), bytes after a chunk's known fields (where the format does not define them as payload), bytes after a frame's last chunk, or values in reserved and unknown flag bits leaves everything else the parsers and renderer report unchanged. Unknown blend modes, layer types, cel types, directions, colour depths, profile and external-file kinds are reported as unknown together with the stored code.",
 ["inputs"],"every well-formed file x every position for unknown chunks and padding x every unknown code value",
 "Fixtures contain only known content; the one unknown code tested is blend mode 0x1337.",
 [B+"chunk.rs",B+"chunk_type.rs",B+"raw_frame.rs",B+"blend_mode.rs",K+"cel.rs",K+"tags.rs",K+"color_profile.rs",K+"external_files.rs",K+"layer.rs",B+"color_depth.rs"],
 [("chunk framing by declared size",B+"chunk.rs parse_chunk"),("frame framing by declared size",B+"raw_frame.rs"),("Unknown(code) variants",B+"blend_mode.rs and chunks/*.rs")],
 ["parse_raw_file, parse_file, AsepriteFile::load, render_frame"])
p("C11","The palette of an indexed sprite is the merge of its palette chunks",
 "The palette equals the in-order merge of all chunks of the best available kind (new, else 8-bit old, else 6-bit old scaled to 8 bits) over 256 transparent-black entries: each chunk changes exactly the entries it names, later chunks win, skips accumulate within a chunk. The header's transparent index gets alpha 0, other entries keep their stored alpha (old kinds: opaque), and sprites that are not indexed have no palette.",
 ["inputs","histories"],"every sequence of palette chunks of the three kinds over any frames, partial ranges, skips, 256-entry runs, every transparent index",
 "test_palette samples three entries of one full 32-entry palette; no partial update, old palette or multi-chunk merge is tested.",
 [B+"palette.rs",K+"palette.rs",K+"old_palette.rs",B+"file.rs"],[("kind precedence",B+"palette.rs create_palette"),("entry placement",B+"palette.rs process_*"),("range parsing",K+"palette.rs")],
 ["File.palette"],[("palette.colors","256 RGBA entries",B+"palette.rs")])
p("C12","Image decoding yields exactly the stored pixels as RGBA",
 "Decoding an image of a well-formed file writes, row by row, exactly the stored pixels converted to RGBA8: RGBA unchanged, grayscale (v,a) as (v,v,v,a), indexed through the palette; raw and zlib-compressed storage of the same pixels give identical results at every size. In indexed sprites the transparent index is transparent except in background layers, where it shows its palette colour.",
 ["inputs"],"every image: 3 colour depths x raw/compressed (any zlib encoding) x any size incl. 0, 1 and > 65535 pixels x any pixel values",
 "test_cel only checks that decoding RGBA cels does not fail; no pixel value is ever compared and no grayscale image exists.",
 [L,B+"image.rs",B+"palette.rs"],[("load_image conversion matrix",L),("grayscale_to_rgba, indexed_to_rgba, decompress",L)],
 ["load_image","decompress"])
p("C13","Damaged pixel data is reported, never decoded into wrong or stale pixels",
 "If an image's stored data is not a complete, checksum-correct zlib stream, or does not decode to exactly width x height pixels, or its raw data has a different length, decoding it and rendering a frame that shows it return an error. Decompression succeeds exactly when the data starts with a valid zlib stream whose output has the target's length, and an unknown colour depth is reported as unsupported.",
 ["inputs"],"every truncation, extension, bit flip and re-sizing of stored pixel data at every colour depth, for every prior content of the target",
 "No test decodes damaged pixel data.",
 [L],[("stream status and length checks",L+" decompress, grayscale_to_rgba, indexed_to_rgba"),("error propagation",L+" render_frame")],
 ["load_image","render_frame","decompress"])
p("C14","Target buffers: too small is refused untouched, excess is never written",
 "Decoding into or rendering onto a buffer shorter than width x height x 4 bytes reports a too-small buffer and leaves it untouched; any longer buffer is accepted and the bytes beyond that length stay untouched. A successful decode overwrites every byte of that length, so the result does not depend on the buffer's former content.",
 ["inputs","configurations"],"every image/frame size x every buffer length (0, off-by-one, huge) x every prior buffer content",
 "Tests always pass an exactly sized zeroed buffer and never look at it.",
 [L],[("length guard",L+" load_image, render_frame"),("sub-slicing of the target",L+" load_image")],["load_image","render_frame","combined_frame_image"])
p("C15","A linked cel shows the image of its layer in the frame it links to",
 "A linked cel resolves to the image stored for the same layer in the linked frame, earlier or later, sharing that image and its size but keeping its own position, opacity and z-index. A link to a frame that has no image for that layer makes loading fail.",
 ["inputs","histories"],"every arrangement of image and linked cels over frames and layers, forward and backward links, duplicate cels, dangling links",
 "Fixtures link at most backwards in one layout; the resolved image index is never asserted.",
 [L,K+"cel.rs",B+"file.rs"],[("(frame, layer) -> image table",L+" AsepriteFile::load")],["AsepriteFile.frames[].cels[]","AsepriteFile.images"],
 [("image_map","(frame, layer) to image index",L+" AsepriteFile::load")])
p("C16","Every reference inside a loaded sprite is valid and names the right object",
 "In every sprite that loads, each cel's layer reference is a valid index of the layer the file assigns it to, its image reference is a valid index of the image it shows, and its size equals that image's size. Layers of unsupported kinds are left out without shifting the layers of other cels, each layer has at most one cel per frame (the last stored), and every stored image appears once.",
 ["inputs"],"every loadable file, well-formed or damaged: any mix of normal, group, tilemap and unknown layer types and any cel order",
 "No fixture contains a tilemap or unknown layer, so index mapping is the identity in all tests.",
 [L,B+"file.rs"],[("layer filtering and index mapping",L+" AsepriteFile::load"),("dense cel table",B+"file.rs parse_file")],["AsepriteFile.layers/frames/images"])
p("C17","The nineteen blend modes compute Aseprite's results for every colour",
 "For every backdrop colour, source colour, alpha and opacity, each of the nineteen blend modes produces exactly the RGBA value of Aseprite's reference formulas (8-bit rounding, separable and hue/saturation/colour/luminosity modes, alpha merge). In particular a fully transparent source or zero opacity never changes the colour of a visible backdrop under normal blending, and over a transparent backdrop every mode yields the source colour with scaled alpha.",
 ["inputs"],"19 modes x all backdrop/source RGBA values x opacity 0..255",
 "blend.rs has no tests; the fixtures' renderings are never compared with anything.",
 [BL],[("mode dispatch table",BL+" blend_mode_to_blend_fn"),("mul8/div8/blend8 rounding",BL),("normal, merge, blender composition",BL),("HSL helpers",BL)],["render_frame over a prefilled target"])
p("C18","Rendered cels land exactly at their position and are clipped to the canvas",
 "Rendering changes only pixels where the canvas and a shown cel overlap: cel pixel (x, y) affects exactly canvas pixel (x + cel x, y + cel y), for every cel position (negative, partly or wholly outside, extreme) and every cel and canvas size. Nothing wraps around, is shifted, mirrored or dropped at the edges.",
 ["inputs"],"every canvas size x cel size x cel position in the full signed 16-bit range",
 "test_issue_4_* only check that two clipped fixtures do not panic; no pixel position is verified.",
 [L],[("checked coordinate addition and bounds test",L+" render_frame"),("index arithmetic",L+" render_frame")],["render_frame"])
p("C19","A frame is the bottom-to-top composition of its shown cels",
 "Rendering a frame composes that frame's cels of shown, non-group layers onto the target's existing content one after the other, ordered by layer index in the file plus z-index (ties: z-index), each with its layer's blend mode and the product of layer and cel opacity. No other frame, layer or cel contributes.",
 ["inputs","histories"],"every stack of layers and cels: any order of chunks, z-indices, opacities, blend modes, group nesting, overlapping cels, non-blank targets",
 "No test compares a composed pixel; z-index and cel opacity are never exercised.",
 [L,BL],[("cel iteration order",L+" render_frame / AsepriteFile::load"),("opacity and blend selection",L+" render_frame")],["render_frame"])
p("C20","Layer selection shows exactly the selected layers",
 "Rendering with the file's visibility shows exactly the layers that are visible together with all their enclosing groups; with all layers it shows every non-group layer; with a mask it shows layer i exactly when entry i exists and is true. Selecting by predicate or by names yields the mask that is true exactly for the matching layers, and hidden or unselected layers, even undecodable ones, have no effect.",
 ["inputs","configurations"],"every layer tree and visibility assignment x every selection (masks shorter/longer than the layer list, duplicate and unknown names)",
 "Two tests check blank versus non-blank on one flat three-layer file.",
 [L],[("is_selected",L+" LayerSelection"),("select_layers, select_layers_by_name",L),("visible flag",L+" AsepriteFile::load")],["render_frame","select_layers*","Layer.visible"])
p("C21","Loading, decoding and rendering are repeatable and free of hidden state",
 "Loading the same bytes twice, and decoding or rendering from the same sprite in any order, any number of times and from several threads at once, gives identical results each time. Queries never change the sprite or the input.",
 ["histories","schedules","inputs"],"every sequence and every interleaving of read operations on a shared sprite, repeated loads in one and in separate processes",
 "Each test performs one load and one pass over the frames on a single thread.",
 [L,B+"file.rs"],[("shared-reference API without interior mutability",L),("HashMap used for lookup only, never for order",L+" AsepriteFile::load")],["all public queries, concurrent readers"])
p("C22","Parsing is zero-copy: names and pixel data borrow from the input",
 "All names, text, and pixel, tile, mask, profile and other payload data reported by the parsers refer to bytes inside the input buffer, at the place they are stored, and loading allocates no memory proportional to payload size.",
 ["inputs"],"every loadable file, any payload sizes",
 "Tests compare contents only; a copying parser would pass all of them.",
 [B+"image.rs",K+"*.rs",B+"scalars.rs",L],[("borrowed slices with the input's lifetime",B+"image.rs, chunks/*.rs"),("parse_string borrowing",B+"scalars.rs")],["addresses of returned slices","counting allocator"])
p("C23","A frame's hash identifies its picture and is stable",
 "Combining a frame renders exactly the frame with the file's own visibility and returns a hash that is the same for the same bytes in every call, load and process. Frames of one sprite built from the same cels (same layers, images, positions, sizes, opacities, order) share their hash, and frames that render differently have different hashes.",
 ["inputs","histories"],"every pair of frames of every sprite, across repeated loads and processes",
 "combined_frame_image is called by no test.",
 [L],[("hash over cel references",L+" combined_frame_image"),("fixed-key hasher",L+" combined_frame_image")],["combined_frame_image"])
p("C24","Results do not depend on the build profile",
 "For every input, a build with debug assertions and overflow checks and an optimised build without them return the same values, the same pixels and the same accept/refuse decisions.",
 ["inputs","configurations"],"every input and operation sequence x {checked, optimised} builds",
 "Tests run in one profile only; arithmetic that wraps silently in release and panics in debug passes unless a fixture hits it.",
 [BL,L,B+"scalars.rs",B+"raw_frame.rs",B+"chunk.rs",K+"user_data.rs",B+"palette.rs"],[("integer arithmetic and casts within range",BL+", "+L+", src/binary"),("debug assertions hold on all inputs",BL+" Color conversions")],["digests of all results per case in both builds"])
p("C25","Item parsers consume exactly their item and read it as in a whole file",
 "Every public parser of a single item (scalar, string, property, palette entry, tag, slice key, chunk content, chunk, frame, header) reads a well-formed item of its kind, returns exactly the bytes behind it as the rest, and gives the same value whatever follows. A proper prefix of an item is refused; only cel, cel extra and mask contents take all bytes there are. Chunk contents, chunks, frames and the header read alone equal what the whole file's parser reports.",
 ["inputs"],"every item of every kind, alone, in sequences, in files, followed by any bytes",
 "Tests call three item parsers on one literal each and never look at the rest.",
 [B+"scalars.rs",B+"chunk.rs",B+"raw_frame.rs",B+"header.rs",K+"*.rs",B+"chunk_type.rs",B+"blend_mode.rs",B+"color_depth.rs"],
 [("sequencing of nom parsers by remaining input",B+"scalars.rs, "+K+"*.rs"),("chunk and frame payloads cut out by size",B+"chunk.rs, "+B+"raw_frame.rs")],["return values of the parse_* functions"])
p("C26","Failures of decoding and rendering name their cause",
 "When decoding an image, decompressing or rendering a frame fails, the reported error is one whose cause is really present in that image or in a shown cel of that frame: a buffer smaller than needed, a colour depth that is none, a damaged or cut-off stream, pixel data of another length than width x height x pixel size, an unknown blend mode (with the number stored for that shown layer). Faults elsewhere are never reported. Loading fails with a parse error that carries a message.",
 ["inputs","histories"],"every combination of damaged streams, mis-sized data, unknown modes and depths, short buffers, in shown and hidden cels and other frames",
 "No test provokes a single loader error.",
 [L],[("error variants of decompress and load_image",L),("mode lookup and buffer check",L+" render_frame")],["errors of load_image, render_frame, combined_frame_image, decompress, load"])
p("C27","The three views of the same bytes never contradict each other",
 "For arbitrary bytes: what loads as a sprite also parses as a file, and what parses as a file also parses as a raw file. The file view holds exactly the raw view's header, frames, layers, tags, slices, the last cel per layer and frame, and no user data that is not a user data chunk of the file or is used twice. The sprite's layers, tags, slices, frames, cels and images are exactly those of its file view.",
 ["inputs"],"every byte string, including mutated and hostile ones on which no reference decoder has an opinion",
 "Tests look at one view per fixture and never compare two.",
 [B+"file.rs",B+"raw_file.rs",L],[("assembly of the file from chunks",B+"file.rs parse_file"),("assembly of the sprite from the file",L+" AsepriteFile::load")],["parse_raw_file, parse_file, AsepriteFile::load on the same bytes"])
p("C28","Equivalent ways to store a sprite give equal pictures",
 "Rewriting a file without changing what it shows never changes a rendered pixel or whether a frame renders: linked cels replaced by copies, pixels stored raw or compressed in any way, palettes split over chunks and frames, frames and cels in another order (with the frames' pictures following), cels cropped to the canvas, all layers put into one more visible group, empty layers on top, other chunks in between, indexed or grayscale pixels stored as RGBA, and header fields and frame padding that describe no pixels.",
 ["inputs","histories"],"every loadable sprite x every sequence of such rewritings",
 "No test compares the pictures of two files.",
 [L,B+"file.rs",B+"palette.rs"],[("link resolution, cel tables and palette merge",L+" AsepriteFile::load, "+B+"file.rs, "+B+"palette.rs"),("decoding and clipping",L+" load_image, render_frame")],["render_frame of both forms"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import re
for x in P:
    n=len(re.findall(r'[.!?](?:\s|$)',x['statement'])); print(x['id'],n)
