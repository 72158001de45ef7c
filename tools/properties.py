TB = "Trusted: the harness's own document writer and reference model (written from the file format specification, independent of the code), the Go toolchain. "

prop("C01", "The merged image of every document decodes to the stored samples",
 "For every well-formed PSD or PSB document of a supported color mode and bit depth, decoding yields exactly the stored header fields and, for every channel and pixel of the merged image, exactly the stored sample, whatever the dimensions, compression method and pixel data. The image view shows the color these samples stand for, including the palette with its transparent entry, and an alpha channel exactly when the document says that its extra channel is transparency.",
 ["inputs", "configurations"], "all documents: color mode x depth x channel count x compression x PSD/PSB x dimensions x pixel data x alpha identifiers/transparency index",
 "The tests decode a few sample files of one shape each; 32 bit, ZIP of 8 bit, odd widths, PSB and most channel counts never occur.",
 ["psd.go", "compress.go", "compress_other.go", "picker.go", "colormode.go"],
 [("Decode / DecodeConfig read the sections in order", "psd.go"), ("plane layout and picker per mode and depth", "psd.go, picker.go"), ("CompressionMethod.Decode", "compress.go")],
 note=TB + "All documents of the enumerated shapes (26 mode/depth/channel forms, all compressions, both containers, dimension and data menus) are built, decoded by the real code and compared sample by sample.")

prop("C02", "Every layer record and every layer pixel is decoded faithfully",
 "For every well-formed document, each layer is reported with exactly the stored rectangle (also negative or outside of the canvas), blend mode, opacity, clipping, flags, names and channels, in stored order. Every sample of every channel, including transparency and mask channels, equals the stored one whatever compression each channel uses, and the layer's image view shows the corresponding color, opaque when there is no transparency channel.",
 ["inputs", "configurations"], "all layer stacks: rectangles x channel sets and orders x per-channel compression x color forms x flags x names x the four places layers can be stored in",
 "The sample files hold a handful of layers written by one application; most channel orders, rectangles, compressions and storage places never occur.",
 ["layer.go", "compress.go", "picker.go"],
 [("layer records and channel image data", "layer.go"), ("channel rectangle selection for masks", "layer.go"), ("pickers", "picker.go")],
 note=TB + "Exhaustive over the enumerated layer shapes; pixel data from four pattern families.")

prop("C03", "The layer tree mirrors the stored folder structure",
 "For every sequence of layer records, the returned tree contains every ordinary layer exactly once, in stored order, inside exactly the folders that enclose it, and every folder carries its own record and its children. A sequence whose folder markers do not match, or a document with layers in more places than supported, is refused with an error rather than losing or moving layers.",
 ["inputs"], "all sequences of layer kinds (ordinary, folder open, folder closed, folder end) up to a depth, including unbalanced ones",
 "The tests look at one or two nested documents; nesting, empty folders, siblings and every unbalanced sequence are unlimited.",
 ["layer.go"], [("stack based tree building", "layer.go buildTree"), ("section divider setting", "layer.go")],
 note=TB + "All sequences of layer kinds up to the stated length are decoded and the tree compared with an independent recursive parser.")

prop("C04", "Image resources and additional information blocks survive unchanged",
 "Every image resource and every additional layer information block of a document or layer is reported under its identifier with exactly the stored bytes, whatever its length, signature, padding, name, position and number, in PSD and PSB files, where certain keys have 64 bit lengths. Reading them never disturbs what follows them in the file.",
 ["inputs", "configurations"], "all block sequences: keys x lengths x padding x signatures x names x PSD/PSB x place",
 "The sample files contain what one application writes: no odd lengths, no 64 bit keys, no padding variations.",
 ["imageres.go", "layer.go", "psd.go", "util.go"],
 [("resource reader with even padding", "imageres.go"), ("block reader with signature search", "layer.go"), ("64 bit length keys", "psd.go LenSize")],
 note=TB + "Exhaustive over the enumerated block sequences.")

prop("C05", "Layer masks are decoded faithfully in every optional form",
 "For every layer with mask data, whichever of the optional parts are present, the reported mask rectangle, default color, flags, density and feather values and the real user mask's rectangle, background and flags equal the stored values, and absent parts have their neutral values. The samples of mask channels cover the mask's own rectangle, and whatever bytes remain in the mask data do not affect anything after them.",
 ["inputs"], "all mask data lengths and all combinations of flags and parameter bits x rectangles x mask channels",
 "Few sample layers have masks, none has every combination of optional parts.",
 ["layer.go"], [("layer mask reader", "layer.go"), ("mask channel rectangles", "layer.go")],
 note=TB + "All 2^k combinations of presence bits and all lengths up to the full record plus slack.")

prop("C06", "Every compression method inverts its encoding, or reports an error",
 "For every image, decompressing what an encoder of the format may produce (raw, any valid PackBits packing, ZIP, ZIP with prediction) gives back exactly the encoded samples for every bit depth, width and height. Data that is not a valid encoding of the requested samples is answered with an error or with that many samples, and never writes outside of the destination.",
 ["inputs"], "all PackBits packings of short rows, all packets headers, all byte strings up to a length as rows, all prediction inputs on menus, depths x widths x heights",
 "Tests run one generated PackBits row and the ZIP streams of one 16 bit file.",
 ["compress.go", "compress_other.go"], [("PackBits", "compress_other.go"), ("ZIP and prediction", "compress.go")],
 note=TB + "All packings of rows up to the stated width and all byte strings up to the stated length are run through the real decoder.")

prop("C07", "Decoding does not depend on the number of CPUs or on scheduling",
 "Decoding the same input gives the same samples, the same number of consumed bytes and the same verdict (error or not) whatever the number of processors and however the decoder's goroutines are scheduled, without data races. This also holds for malformed scanlines.",
 ["schedules", "configurations", "inputs"], "GOMAXPROCS 1..17 x scanline counts x valid and malformed scanlines x goroutine schedules",
 "Tests run with one CPU setting and whatever schedule happens.",
 ["compress_other.go"], [("partition of scanlines among goroutines", "compress_other.go")],
 technique=TS,
 note=TB + "Every GOMAXPROCS value of the menu for every scanline count and scanline menu; all orders of the decoder's goroutines within a delay bound through controlled synchronisation operations (build overlay); a run under the race detector reports unordered conflicting accesses whatever the schedule.")

prop("C08", "The result does not depend on how the reader delivers the data",
 "Decoding through any io.Reader, whether it returns short reads, zero-length reads, data together with EOF, or also implements seeking or discarding, gives the same document and the same number of consumed bytes as decoding from memory.",
 ["inputs", "fault_sequences", "configurations"], "all sequences of read answers with up to two deviations from full reads, and ten kinds of readers, on documents that exercise every section",
 "Tests read from in-memory readers that always fill the buffer.",
 ["util.go", "psd.go", "layer.go", "imageres.go", "compress_other.go"], [("io.ReadFull at every field", "psd.go, layer.go, imageres.go"), ("discard through Discard, Seek or copying", "util.go")],
 technique="deviation-bounded exhaustive exploration of environment answers (read sizes) against the real decoder", level="fault_enumeration" if False else "model_checking",
 note=TB + "Every read call of every document is answered in every way of the menu, up to the deviation bound.")

prop("C09", "Truncated or failing input never yields a wrong document",
 "When the input ends early or the reader reports an error at any point, decoding returns an error, no document, or, if everything needed had been delivered already, the exact document. The reader's own error is what the caller gets.",
 ["crash_points", "fault_sequences", "inputs"], "every prefix of every document x reader kinds x options; every read, seek and discard call failing with and without partial data, for good or once",
 "No test truncates a file or lets a read fail.",
 ["psd.go", "layer.go", "imageres.go", "util.go", "compress.go", "compress_other.go"], [("error return after every read", "all readers")],
 technique="exhaustive enumeration of cut points and injected read faults against the real decoder",
 note=TB + "Every cut point of documents that exercise every section; every single (quick) or pair (thorough) of failing reads.")

prop("C10", "Malformed input never crashes the decoder",
 "Decoding arbitrary bytes terminates and returns either an error or a document that can be inspected completely, colors, palette and pixels included; it never panics, in any goroutine. Documents in color modes or depths that are not supported, headers with a version, channel count, depth or dimensions outside of the limits of the format, and pixels of layers and masks with sides longer than any document's (300000), are refused with an error.",
 ["inputs"], "all single byte changes, cuts, removals and size field changes of documents that exercise every section; all header combinations; all rectangles of layers and masks with extreme coordinates; all contents of interpreted blocks up to a length; all short PackBits rows",
 "Tests decode well-formed files only.",
 ["psd.go", "layer.go", "imageres.go", "util.go", "picker.go", "compress_other.go"], [("length and range checks", "psd.go, layer.go, imageres.go, util.go")],
 note=TB + "Exhaustive over the stated mutations; declared dimensions that would need gigabytes for the pixels themselves are excluded.")

prop("C11", "The decoder consumes exactly the document and says so",
 "The number of bytes reported as read equals the number of bytes taken from the reader and the size of the document (or of the part asked for), so that whatever follows the document in the stream remains readable. This holds for every kind of reader and for documents that follow each other.",
 ["inputs", "histories"], "documents x options x reader kinds x trailing data; sequences of up to three concatenated documents",
 "Tests read one document per file and never look at the position afterwards.",
 ["psd.go", "layer.go", "util.go", "compress.go"], [("read counters", "all readers"), ("bounded ZIP reading", "compress.go")],
 note=TB + "A ZIP compressed merged image is excluded: its size is not stored, and the documentation allows reading ahead.")

prop("C12", "Decoding options skip work without changing the rest",
 "Skipping layer images or the merged image leaves everything else of the result exactly as without the option. The configuration callback runs exactly once, before any layer is processed, with the final configuration, and its error aborts decoding; the layer callback runs exactly once per layer, in order, with the right index and total and with the layer's pixels already loaded. A debug logger changes nothing.",
 ["inputs", "configurations"], "all option combinations x reader kinds x documents (every section, layer counts, storage places), with and without a logger",
 "Tests use each option on one file and do not compare the results with each other.",
 ["psd.go", "layer.go"], [("DecodeOptions", "psd.go"), ("callbacks", "psd.go, layer.go")],
 note=TB + "All 16 option combinations on documents that exercise every section.")

prop("C13", "The standard image registry and color model contract is kept",
 "image.Decode and image.DecodeConfig recognise exactly PSD and PSB signatures under their names, report the same dimensions and color model as the decoded image has, and show the merged image whatever the layers contain. Every pixel's color belongs to the image's color model: converting it with that model changes nothing, and converting any other color gives a color of the same type.",
 ["inputs", "configurations"], "all supported forms x dimensions x pixel patterns x alpha identifiers; all single byte changes of the signature",
 "Tests never decode through the registry nor compare color models.",
 ["psd.go", "picker.go", "color/color.go"], [("image.RegisterFormat", "psd.go"), ("makePicker", "psd.go"), ("ColorModel of pickers", "picker.go")],
 note=TB)

prop("C14", "All platform variants of the PackBits decoder agree",
 "The JavaScript decoder used by GopherJS builds and the WebAssembly build accept exactly the scanline data that the native decoder accepts and produce exactly the same samples.",
 ["inputs", "configurations"], "2.1 million PackBits streams: all rows up to 4 bytes over a 10 byte alphabet x widths x partner rows, all packet headers with exact, short and long data; 144 whole documents",
 "The test suite is never run for js.",
 ["compress.inc.js", "compress_wasm_js.go", "compress_js.go", "compress_other.go"], [("three PackBits implementations", "compress*.go, compress.inc.js")],
 note=TB + "node runs compress.inc.js and the js/wasm build of the real package; the GopherJS glue (compress_js.go) itself cannot be built here.")

prop("C15", "Colors report their premultiplied 16 bit value",
 "For every color of the package's types, the four reported components equal the color's meaning (integer samples scaled, float samples clamped and gamma encoded, CMYK ink multiplied) premultiplied by alpha, within rounding. They never exceed 65535 nor the alpha value, also for samples outside of the nominal range.",
 ["inputs"], "all NGrayA and NCMYKA values on full 8 bit grids, 16 bit values on boundary grids and ramps, float ramps over 22 binades and special values",
 "The only test in the package is a benchmark.",
 ["color/color.go"], [("RGBA methods", "color/color.go")],
 note="Oracle: real-valued formulas, tolerance 3/65535.")

prop("C16", "Color models preserve colors and yield their own type",
 "Converting any color with one of the package's models never panics, always yields that model's own color type, leaves colors of that type untouched, and is idempotent. The converted color looks like the original (its luminance for the gray models) within the model's precision, for opaque, translucent and fully transparent colors.",
 ["inputs"], "8 models x all source color types x component grids x all alpha values",
 "No test converts a color.",
 ["color/color.go"], [("color.ModelFunc conversions", "color/color.go")],
 note="Oracle: real-valued conversion, tolerance by the precision of the target type.")


GB = "Trusted: the harness's real-valued formulas (W3C Compositing and Blending Level 1, Photoshop's modes, Porter-Duff), the Go toolchain. "

prop("C17", "Every blend mode computes its formula",
 "For every blend mode and every backdrop, source and coverage, the drawn pixel has the alpha of source-over and the color that the mode's formula gives, mixed with the parts of backdrop and source that do not overlap, within rounding. This holds for all image types and all alpha values, including fully transparent ones, and no value ever overflows.",
 ["inputs", "configurations"], "27 modes x 36 type pairs x (all 65536 opaque 8 bit pairs; color and alpha grids; all 65536 alpha pairs; 46656 color pairs for the non-separable modes) x masks",
 "The tests compare one pair of images per mode; several of them fail on the base commit, and most alpha/color combinations never occur.",
 ["blend/zblends.go", "blend/genblend.go", "blend/util.go"],
 [("generated per type loops", "blend/zblends.go"), ("formulas", "blend/genblend.go"), ("luminosity and saturation", "blend/util.go")],
 note=GB + "Exhaustive over the stated grids; results compared within the precision of the arithmetic, either side of a discontinuity accepted.")

prop("C18", "Every Porter-Duff operator computes its fractions",
 "For every Porter-Duff operator and every source and backdrop, the drawn pixel is the sum of source and backdrop weighted by the operator's fractions, in color and alpha, within rounding, and always a valid color. This holds for all image types, uniform and alpha sources included.",
 ["inputs", "configurations"], "12 operators x 7 source types x 6 destination types x all 65536 alpha pairs and color grids; uniform sources",
 "The tests compare one pair of images per operator and path.",
 ["blend/zporterduffs.go", "blend/genporterduff.go"],
 [("generated per type loops", "blend/zporterduffs.go"), ("formulas", "blend/genporterduff.go")],
 note=GB + "Exhaustive over the stated grids.")

prop("C19", "Drawing changes exactly the clipped rectangle",
 "Drawing changes exactly the pixels of the destination that lie in the rectangle, correspond to a point inside of the source and, with a mask, to a point inside of the mask, and each becomes what drawing that pixel alone gives. Rectangles and points may lie partly or completely outside, images may be empty or views of larger ones; memory outside of a view is never touched.",
 ["inputs", "configurations"], "39 drawers x 48 type pairs x mask kinds x 81 rectangles x 12 source points x 8 mask points x views",
 "Tests draw whole images at the origin.",
 ["blend/util.go", "blend/draw.go", "blend/zblends.go", "blend/zporterduffs.go"],
 [("clip", "blend/util.go"), ("prepare4to4, prepare1to4", "blend/util.go"), ("fallback loops", "blend/zblends.go, blend/zporterduffs.go")],
 note="Oracle: set of points computed per pixel; pixel values taken from one-pixel draws of the same code (decided by C17/C18).")

prop("C20", "The result does not depend on how an image stores its colors",
 "Drawing the same source colors on the same backdrop colors gives the same result, within the precision of the types, whichever image types hold them: premultiplied or not, 8 or 16 bit, paletted, gray, CMYK, uniform, views or custom implementations.",
 ["inputs", "configurations"], "39 drawers x 16 destination types x 19 source types (views included) x all pairs of 45 exactly representable colors x masks; gray sources of all 256 levels",
 "Each test runs one type pair against a reference picture with a wide threshold.",
 ["blend/draw.go", "blend/zblends.go", "blend/zporterduffs.go"],
 [("type dispatch", "blend/draw.go drawMask"), ("per type loops", "blend/zblends.go, blend/zporterduffs.go")],
 note="Differential between type paths. One known finding: image.Alpha sources of Porter-Duff operators.")

prop("C21", "Masks mean coverage",
 "A nil or opaque mask draws the full result, a fully transparent mask point leaves the destination exactly as it was, and a partial coverage mixes backdrop and full result in proportion. Only the mask's alpha counts, whatever type the mask has and wherever its bounds lie, and a transparent source leaves the backdrop as it is.",
 ["inputs", "configurations"], "27 modes x 36 type pairs x 7 mask types x 8 coverages x all pairs of 45 colors; all 256 coverages for 6 type pairs",
 "No test draws with a mask.",
 ["blend/draw.go", "blend/zblends.go"],
 [("mask dispatch", "blend/draw.go drawMask"), ("uniform alpha", "blend/zblends.go"), ("per pixel alpha", "blend/zblends.go fallback")],
 note="Oracle: uniform masks per coverage, proportional mixing, and byte equality among mask types.")

prop("C22", "Drawing does not depend on the number of CPUs or on scheduling",
 "Every drawing operation gives the same pixels whatever the number of processors and however its goroutines are scheduled, completes in every schedule, and has no data races. Operations at the same time, on different images or different parts of one, do not disturb each other.",
 ["schedules", "configurations", "inputs"], "39 drawers x 48 type pairs x masks x GOMAXPROCS 1..17, 24, 32, 64 x row counts; two draws at once; all interleavings of image accesses up to a preemption bound",
 "Tests run with one CPU setting and one schedule.",
 ["blend/draw.go"], [("Parallel of the three loop kinds", "blend/draw.go")], technique=TS,
 note="Scheduling points: every At/Set of the images and, in a build with instrumented sources, every synchronisation operation of the package, controlled through a synctest bubble; fast paths also by GOMAXPROCS enumeration and the race detector.")

prop("C23", "Drawing an image on itself works like drawing a copy of it",
 "When source and destination are the same image, or views of the same memory, drawing gives what drawing from an unchanged copy of the source gives, whatever the offset between them, the size and the number of processors, without data races.",
 ["inputs", "schedules", "configurations"], "39 drawers x 6 types x views x masks x 49 offsets x 3 sizes x two rectangles; the same under the race detector",
 "No test draws an image on itself.",
 ["blend/util.go", "blend/draw.go"], [("processBackward, prepare4to4", "blend/util.go"), ("sequential rows for shared memory", "blend/draw.go")],
 note="Oracle: the same draw from a deep copy.")

CN = "Trusted: the harness's document writer and its float reference compositor, github.com/oov/downscale replaced by a box filter, the Go toolchain. "

prop("C24", "Rendering composites the layers as the document says",
 "For every layer tree, the rendered image is what compositing the visible layers from bottom to top gives: each layer or folder with its mask, opacity and blend mode, clipped layers confined to their base, normal folders isolated, pass-through folders transparent for their content's blend modes. Layers outside of the canvas, empty layers, empty folders and unknown blend modes never disturb the others, and rendering again gives the same image.",
 ["inputs", "configurations"], "all layer trees up to a size x per-layer deviations (mode, opacity, visibility, clipping, mask, rectangle, missing alpha), all 28 blend mode keys for layers and folders",
 "The only compositor test does not compile, and it would look at one document.",
 ["composite/renderer.go", "composite/draw.go", "composite/builder.go", "composite/layer.go"],
 [("recursive drawing of layers per tile", "composite/renderer.go drawLayer"), ("mask, clipping buffers", "composite/renderer.go"), ("mode table and opacity", "composite/draw.go")],
 note=CN + "Every pixel of every enumerated tree is compared within a bound derived from the number of 8 bit roundings.")

prop("C25", "Cached rendering follows every change of the layers",
 "After any history of changes of layer attributes that are announced to the renderer, of complete, incremental and aborted renderings, the next rendering gives the image that the current attributes stand for, exactly as a fresh tree without caches does. An image that incremental rendering keeps updating equals a complete rendering.",
 ["histories", "configurations"], "all histories of up to 2 (quick) or 3 announced changes x rendering steps in between (none, incremental, complete, aborted) on 6 documents, on new trees and clones; incremental renderings cancelled at every scheduling point and then repeated",
 "No test renders twice.",
 ["composite/renderer.go", "composite/builder.go"],
 [("per-folder tile caches", "composite/renderer.go cache"), ("invalidation of parents, clipping bases and pass-through siblings", "composite/renderer.go setDirtyByLayer"), ("revert after an aborted rendering", "composite/renderer.go render")],
 note=CN + "All histories within the bound; oracle: reference compositor and a clone without caches.")

prop("C26", "Operations on trees always end, and a cancelled one says so",
 "Building, rendering, transforming and making thumbnails of a tree always end, whenever they are cancelled, whatever read fails and however their goroutines are scheduled: no deadlock, no goroutine left behind, no panic. An operation reports success only with its complete result; otherwise it reports an error, and the tree can be used afterwards as if nothing had happened.",
 ["schedules", "fault_sequences", "configurations"], "6 operations x documents x 1..3 processors x map orders x cancellation at every scheduling point, and a read failure at every read, x schedules within a delay bound",
 "No test cancels anything or lets a read fail.",
 ["composite/renderer.go", "composite/layerimage.go", "composite/layer.go", "composite/thumbnail.go", "composite/builder.go", "composite/draw.go"],
 [("parallel worker loops with abort", "composite/renderer.go, composite/layerimage.go"), ("image loading goroutines and reader order", "composite/builder.go, composite/layer.go"), ("parallel tasks", "composite/draw.go")], technique=TS,
 note=CN + "Real goroutines; every synchronisation operation of the package (build overlay) is a scheduling point of the explorer, within a delay bound; a deadlock is a state in which nothing can continue.")

prop("C27", "Concurrent use gives what one operation after the other gives",
 "Operations on one tree, or on a tree and its copies, that run at the same time give the same results as one after the other, for every schedule and number of processors, without data races. A layer change that is announced while a rendering runs, also one that is then cancelled, is never lost: the next rendering shows it.",
 ["schedules", "configurations", "histories"], "1..17 processors x sizes x layer counts; pairs of operations x schedules within a delay bound; changes announced at every scheduling point of a rendering; all pairs under the race detector",
 "No test uses more than one goroutine.",
 ["composite/renderer.go", "composite/builder.go", "composite/cloner.go", "composite/layerimage.go", "composite/thumbnail.go"],
 [("renderer mutex and generations", "composite/renderer.go"), ("partition of tiles among goroutines", "composite/renderer.go, composite/layerimage.go")], technique=TS,
 note=CN + "Same machinery as C26; race detector pass for all pairs of operations.")

prop("C28", "A copied tree is complete and independent",
 "A copy of a tree has the same layers, attributes and rendering as the original, and every parent, child and clipping reference of a tree, new or copied, stays within that tree and is consistent in both directions. Changing, rendering or copying one of them never affects the other.",
 ["histories", "inputs"], "all trees up to a size, copies of copies; all sequences of up to 2 or 3 changes distributed over two related trees; copies of trees whose clipping changed",
 "No test copies a tree.",
 ["composite/cloner.go", "composite/builder.go", "composite/layer.go"],
 [("recursive copy with new references", "composite/cloner.go"), ("clipping groups", "composite/builder.go, composite/cloner.go")],
 note=CN + "Oracle: graph consistency and the reference compositor.")

prop("C29", "A transformed tree renders the transformed picture, for any tile size",
 "When a tree is built with, or transformed by, a matrix, its canvas is the transformed canvas and its rendering is the transformed picture: exact for moves, flips and quarter turns, also when transforms are combined, and faithful inside and outside of every edge for scalings, masks included. Transforming leaves the original tree as it was, and neither the tile size nor the position of content relative to the origin changes any pixel.",
 ["inputs", "configurations"], "8 flips and turns x offsets x 9 documents x tile sizes x gamma x (built with, transformed, both); 7 scalings and several rotations, shears and fractional moves x offsets x rectangles x masks; 11 tile sizes x 224 layer positions",
 "No test transforms a tree or chooses a tile size.",
 ["composite/layer.go", "composite/layerimage.go", "composite/renderer.go"],
 [("cutting layers and masks into tiles", "composite/layerimage.go"), ("bilinear transform with gamma", "composite/layerimage.go"), ("transformed rectangles", "composite/layer.go transformRect")],
 note=CN + "Whole pixel mappings are compared pixel by pixel; scalings on all pixels further than one pixel from an edge.")

prop("C30", "Thumbnails show exactly the visible part of their layer",
 "The thumbnail of a layer is the downscaled picture of its non-transparent part, in the proportions of that part and fitting the requested size, whatever buffer, tile size and position. The sheet holds every thumbnail once, centered in a rectangle of its own, with nothing outside of the rectangles; layers without pixels and unknown layers have none.",
 ["inputs", "configurations"], "all 1260 visible parts of a 9x7 layer x tile sizes x sizes x buffers; all sets of visible pixels of a 4x3 (4x4) layer; sheets of 0..40 (90) layers x sizes",
 "No test makes a thumbnail.",
 ["composite/thumbnail.go", "composite/layerimage.go"],
 [("trimming", "composite/thumbnail.go trimUnusedArea"), ("sheet layout", "composite/thumbnail.go ThumbnailSheet")],
 note=CN + "Oracle: visible part computed from the document, same downscaler.")

prop("C31", "The layer tree reports the attributes of the document",
 "The tree of a document has its layers and folders in order with their names, visibility, opacity, blend mode, mask and clipping state as stored, clipped layers linked to their bases, and the canvas of the document. Names without Unicode form are decoded by the encoding that the caller's detector chose from all of them, the caller's options are left alone, and unsupported or incomplete documents are refused or drawn, never a crash.",
 ["inputs", "configurations"], "all trees up to a size x attribute deviations; all combinations of up to 3 names x 4 encodings x folders nested in every way; 15 kinds of unusual documents",
 "No test looks at the tree of a document.",
 ["composite/builder.go", "composite/layer.go"],
 [("buildLayer, registerClippingGroup", "composite/builder.go"), ("name decoding", "composite/builder.go getLayerNameEncoding"), ("New", "composite/layer.go")],
 note=CN + "Oracle: the description the document was written from.")

prop("C32", "The exporter writes exactly the pictures of all layers",
 "For every document, the exporter writes one PNG file for each layer that has pixels, named by its position in the tree, showing exactly the layer's pixels, and nothing else; it lists each of them with its name. Empty layers and folders never end the export early. A document it cannot read, or a picture it cannot write completely, makes it fail.",
 ["inputs"], "all layer trees up to a size x per-layer deviations (rectangle, empty layer, missing alpha, mask, mode, hidden), exports over larger files that exist already, all color forms of layers, up to 1003 layers, full disks, occupied names and cut documents",
 "No test runs the exporter.",
 ["psdexporter/main.go", "picker.go", "layer.go"],
 [("recursive export", "psdexporter/main.go processLayer")],
 note=CN + "The built program runs on every enumerated document in a directory of its own; its files and output are compared with the document.")

prop("C33", "Decoding does not depend on other decodings",
 "Decoding a document gives the same result whatever was decoded before (completely, in part, stopped by a callback, with errors or with a panicking reader), inside of the callbacks of another decoding, or at the same time in other goroutines, without data races. Decoded documents share no memory with each other nor with the input: changing one of them changes no other.",
 ["inputs", "histories", "schedules"], "histories of up to three decodings of 10 documents in 12 ways, decodings nested in callbacks, two or three decodings at once with every read and callback as a scheduling point, and all pairs under the race detector",
 "Tests decode one document at a time and look at it once.",
 ["psd.go", "layer.go", "imageres.go", "compress.go", "compress_other.go", "util.go"],
 [("buffers of the readers", "util.go, compress.go, compress_other.go")],
 technique=TS, note="Results are compared with the document that was written, again after every later decoding and after other results were overwritten. Between two scheduling points (reads, callbacks) only the race detector looks.")

prop("C34", "Sizes that a file only claims reserve no memory",
 "The memory that decoding takes is in proportion to the bytes that the file has and to the pixels that its document and its layers have. A length or a count that the file merely claims never makes the decoder reserve more than a small fixed amount, with any options and any kind of reader; decoding ends with an error instead.",
 ["inputs", "configurations"], "huge numbers of 2, 4 and 8 bytes at every offset of 13 documents and in every size field of documents with blocks up to 3 MiB, up to 4000 parts of each kind, and images of all forms and compressions, each with 7 ways to decode",
 "Tests decode files whose sizes are right, and do not look at memory.",
 ["util.go", "psd.go", "layer.go", "imageres.go", "compress_other.go"],
 [("readBytes", "util.go"), ("reading in steps", "imageres.go, layer.go, compress_other.go")],
 note=TB + "The allocated bytes are those the Go runtime counts. Rectangles are excluded here (C10 tries them): their pixels may need gigabytes without any size being wrong.")

