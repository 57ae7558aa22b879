#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements are easy to review)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
TESTS = "The existing tests decode 27 fixed files from an *os.File on a healthy local disk"
DEC = ["psd.go", "layer.go", "imageres.go", "util.go", "compress.go", "compress_other.go", "picker.go", "colormode.go"]

p("C01", "Decoding is faithful however the bytes arrive",
  "For every well-formed PSD or PSB stream, Decode, DecodeConfig and image.Decode report exactly the header, palette, image resources, layer tree, layer metadata, masks, additional layer information, channel data and pixels that the stream encodes. The result does not depend on how the reader delivers the bytes: short reads, empty reads, reads that return data together with EOF, buffered, seekable, discardable or plain sequential readers, readers whose Seek is not supported, a document that starts at a non-zero offset, or debug logging being switched on.",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "every well-formed document (both versions, every supported colour mode, depth and compression, nested groups, masks, names, extra blocks) x every legal behaviour of the io.Reader argument",
  TESTS + ", which always fills every read completely; no test delivers a short read, and no test compares names, masks, resources, group structure or extra blocks with what the file encodes.",
  DEC, [("io.ReadFull for fixed-size fields", "psd.go, layer.go, imageres.go"), ("discard picks Discard, Seek or copy by reader type", "util.go discard"),
        ("alignment padding", "util.go adjustAlign2/adjustAlign4"), ("layer tree from section dividers", "layer.go buildTree")],
  observe=["*PSD returned by Decode", "Config returned by DecodeConfig", "image.Decode / image.DecodeConfig"])

p("C02", "A successful decode consumes exactly the document's bytes",
  "When Decode or DecodeConfig succeeds, the byte count it returns equals the number of bytes it took from the reader, and the reader is left positioned on the first byte after the part that was decoded, so documents stored back to back in one stream decode one after the other. The one exception is a ZIP-compressed merged image, whose length the format does not give: there Decode may read further, and the count it returns still equals what it took.",
  ["inputs", "schedules", "fault_sequences"],
  "every well-formed document x every way the reader delivers it x what follows it in the stream",
  "No existing test looks at the returned byte count or at what is left in the reader.",
  DEC, [("read accounting threaded through every section reader", "psd.go, layer.go, imageres.go"), ("io.LimitedReader around ZIP data", "compress.go decodeZLIB")],
  observe=["read result of Decode/DecodeConfig", "reader position afterwards"])

p("C03", "A truncated stream is always reported as an error",
  "If the stream ends anywhere before the last byte that the requested decode needs, Decode and DecodeConfig return a non-nil error and no image; they never report success for a document whose bytes were not all there. This holds at every cut point, for every reader type, and whichever parts the options ask to skip.",
  ["inputs", "crash_points", "fault_sequences", "configurations"],
  "every well-formed document x every cut point x every reader type and delivery pattern x every option set",
  "The only truncation test cuts both formats after six bytes of the header.",
  DEC, [("io.ReadFull", "psd.go, layer.go, imageres.go, compress*.go"), ("discard by Seek past skipped data", "util.go discard")],
  observe=["error and *PSD returned by Decode"])

p("C04", "A reader's error surfaces as the decode error",
  "If the reader fails with an error before the decode has obtained the bytes it needs, Decode and DecodeConfig stop and return an error that is (or wraps) the reader's own error, together with no image. A reader that fails once and would recover afterwards is not silently read past.",
  ["inputs", "crash_points", "fault_sequences"],
  "every document x every byte offset and read call at which the reader (or its Seek/Discard) can fail, with or without data, permanently or once",
  "No existing test uses a reader that fails.",
  DEC, [("err returned from every io.ReadFull, Read, Discard", "psd.go, layer.go, imageres.go, util.go, compress*.go")],
  observe=["error and *PSD returned by Decode"])

p("C05", "Corrupted streams never crash or hang the decoder",
  "For every byte stream, including documents whose stored bytes were flipped, overwritten, torn or spliced, Decode and DecodeConfig terminate with a result or an error: they do not panic (on the caller's goroutine or any other), do not loop for ever, and leave no goroutine behind. Running out of memory because a syntactically valid header declares a huge image is outside this property.",
  ["inputs", "fault_sequences", "schedules"],
  "every sequence of stored-byte faults in a document x every delivery and worker schedule",
  "No existing test decodes damaged pixel data, damaged lengths or damaged layer records; the broken-data tests cover a six-byte header and single PackBits runs.",
  DEC, [("length and signature checks", "layer.go, imageres.go"), ("PackBits bounds checks", "compress_other.go decodePackBitsPerLine")],
  observe=["return or panic of Decode", "goroutines alive after Decode returns"])

p("C06", "Every decoded image can be read over its whole bounds",
  "When Decode succeeds, for any input stream, every image it hands out (the merged image, every layer image, every channel image) can be read with At at every point of its Bounds without panicking, and every channel holds exactly as many bytes as its rectangle and the document's depth require.",
  ["inputs", "fault_sequences"],
  "every stream, intact or with stored-byte faults, that Decode accepts",
  "Existing tests read pixels of 27 intact files only.",
  ["picker.go", "layer.go", "psd.go"], [("picker selection by depth, mode and alpha", "picker.go findPicker"), ("channel buffers sized from the rectangle", "layer.go readLayerImage, psd.go Decode")],
  observe=["PSD.Picker", "Layer.Picker", "Channel.Picker", "Channel.Data"])

p("C07", "Decoding does not depend on the number of workers or their schedule",
  "For every stream, well-formed or damaged, Decode gives the same outcome (the same image, or failure) whatever GOMAXPROCS is and however the goroutines it starts are scheduled, and those goroutines never access the same memory without synchronisation. All of them have finished when Decode returns.",
  ["schedules", "inputs", "configurations"],
  "every stream x every GOMAXPROCS value x every interleaving of the row workers",
  "Tests run under one GOMAXPROCS and whatever schedule the runtime picks, on files whose PackBits rows are all exact; no 16- or 32-bit PackBits data is tested.",
  ["compress_other.go", "compress.go"], [("rows split between goroutines by offset", "compress_other.go decodePackBits"), ("WaitGroup join", "compress_other.go decodePackBits")],
  observe=["outcome of Decode and CompressionMethod.Decode", "memory accesses of the workers", "goroutines alive after return"])

p("C08", "Callbacks and skip options keep their contract",
  "ConfigLoaded is called exactly once, before any byte after the header and image resources is taken from the reader; if it returns an error, Decode returns that error and reads nothing more. LayerImageLoaded is called once per layer with image data decoded, in index order with the right total, on a fully populated layer, before the following layer's data is read. Skipping layer images or the merged image changes nothing in the parts that are still decoded, and what is skipped is absent from the result.",
  ["inputs", "schedules", "configurations", "fault_sequences"],
  "every document x option combinations x reader behaviours, including failures after some callbacks have run",
  "No existing test sets ConfigLoaded or LayerImageLoaded, or compares decodes with different options.",
  ["psd.go", "layer.go"], [("ConfigLoaded call", "psd.go Decode"), ("LayerImageLoaded call", "layer.go readLayerImage"), ("skip by discarding the channel data", "layer.go readLayerInfo")],
  observe=["callback arguments and order relative to reads", "*PSD returned"])

p("C09", "Concurrent decodes and readers of decoded images do not interfere",
  "Any number of Decode calls running at once on different streams each give the result they would give alone, and any number of goroutines may read the same decoded document (its fields and the pixels of its images) at once. No such use contains a data race.",
  ["schedules", "inputs"],
  "every set of documents x every interleaving of the callers' goroutines and the decoder's own",
  "Tests decode one document at a time from a single goroutine.",
  ["psd.go", "layer.go", "compress.go", "compress_other.go", "picker.go", "color/color.go"], [("no package-level mutable state besides Debug", "psd.go"), ("stateless pickers", "picker.go")],
  observe=["results of concurrent calls", "memory accesses"])

p("C10", "Parallel drawing equals sequential drawing",
  "Every drawing operation of package blend gives the same destination pixels whatever GOMAXPROCS is and however its goroutines are scheduled, namely those of processing the rectangle sequentially; this includes drawing an image onto an overlapping part of itself. Its goroutines never access the same memory without synchronisation, and all have finished when the call returns.",
  ["schedules", "inputs", "configurations"],
  "every blend and Porter-Duff mode x source, destination and mask image types x rectangles, offsets and overlaps x GOMAXPROCS values x interleavings",
  "Tests draw one 1:1 rectangle per mode and compare a score with a tolerance against a reference image, at one GOMAXPROCS, never with overlap.",
  ["blend/draw.go", "blend/util.go", "blend/zblends.go", "blend/zporterduffs.go"], [("row bands handed to goroutines", "blend/draw.go Parallel"), ("direction choice for overlapping rectangles", "blend/util.go prepare4to4, processBackward")],
  observe=["destination pixels after Draw/DrawMask", "memory accesses of the workers"])

p("C11", "Drawing touches only the requested part of the destination",
  "A drawing operation of package blend changes no destination pixel outside the requested rectangle clipped to the destination, the translated source and the translated mask, and never changes the source or the mask when these are different images. Drawing a rectangle in parts, with the points in source and mask moved along, gives the pixels of drawing it whole. Goroutines that draw at the same time into disjoint parts of one destination, from shared sources, therefore obtain the same pixels as one after the other, without a data race.",
  ["schedules", "inputs"],
  "every mode, image type, rectangle, offset and sub-image x interleavings of concurrent callers",
  "Tests draw the full image from a single goroutine and compare only a whole-image score.",
  ["blend/draw.go", "blend/util.go", "blend/zblends.go", "blend/zporterduffs.go"], [("clip", "blend/util.go clip"), ("offsets and strides", "blend/util.go prepare4to4/prepare1to4")],
  observe=["destination, source and mask pixels after concurrent draws"])

p("C12", "Incremental rendering equals rendering from scratch",
  "After any history of changes to layers (visibility, opacity, blend mode, mask switch), each announced with SetDirtyByLayer, interleaved with any number of completed or cancelled renders, Render produces exactly the pixels that a newly built tree in the same state renders, and RenderDiff brings a destination that showed the previous result to exactly those pixels. This holds for every tile size, GOMAXPROCS value and schedule of the render goroutines.",
  ["histories", "schedules", "configurations", "inputs"],
  "every layer tree (groups, pass-through groups, clipping groups, masks) x every history of edits, renders and cancellations x tile sizes x schedules",
  "Package composite has no tests at all (one benchmark, which does not compile).",
  ["composite/renderer.go", "composite/layer.go", "composite/builder.go", "composite/cloner.go"], [("per-group tile cache", "composite/renderer.go cache, updateCache"), ("invalidation up the tree and across pass-through siblings", "composite/renderer.go setDirtyByLayer*"), ("parent and clip links", "composite/builder.go")],
  state=[("cache", "tiles already rendered per group", "composite/renderer.go Renderer.cache"), ("deferredDirtyReq", "invalidations that arrive during a render", "composite/renderer.go Renderer")],
  observe=["destination pixels after Render/RenderDiff"])

p("C13", "A cancelled render fails cleanly and harms no later render",
  "Render and RenderDiff whose context is cancelled at any instant either complete with the correct pixels and a nil error or return the abort error; they return within a bounded number of steps after the cancellation (under a fair schedule after a small part of the work, however much was left), leave no goroutine behind, and never panic or deadlock. After an aborted call the next completed Render, or RenderDiff into the same destination, gives the same pixels as if the aborted call had never been made.",
  ["schedules", "crash_points", "histories"],
  "every cancellation instant x every schedule x every history of renders and edits around it",
  "Package composite has no tests.",
  ["composite/renderer.go", "composite/context.go"], [("abort flag polled per tile row", "composite/renderer.go renderInner"), ("revert of tiles cached by the aborted call", "composite/renderer.go render"), ("wait for workers before returning", "composite/context.go Wait")],
  observe=["error from Render/RenderDiff", "later pixels", "goroutines alive"])

p("C14", "Building a layer tree is independent of scheduling",
  "For every readable 8 bit RGB document, New gives the tree the document describes, and the same one on every run: the same layers, names, attributes, parent, child and clipping links, rectangles and rendered pixels, whatever GOMAXPROCS is, however the reader delivers the bytes and however the goroutines that cut layers into tiles are scheduled. Layers, links and pixels, also of transformed trees, do not depend on the tile size either (only translucent pixels under pass-through groups or masks that are white outside may round differently). With a transform matrix that maps pixels onto pixels New shows every layer and mask pixel unchanged at its new place. These goroutines, and those of several New calls running at once even with one shared Options value, never access the same memory without synchronisation. Every child's Parent link is the very layer that lists it as a child, up to the tree's root, and every clipping link is mutual and between siblings.",
  ["schedules", "inputs", "configurations"],
  "every document x reader behaviours x GOMAXPROCS and tile sizes x interleavings of decoder and tiling workers",
  "Package composite has no tests.",
  ["composite/layer.go", "composite/layerimage.go", "composite/builder.go"], [("decoder feeds layers to tiling workers over a channel", "composite/layer.go createCanvas"), ("tile maps filled under a lock", "composite/layerimage.go newTiledImage"), ("parent and clip links", "composite/builder.go")],
  observe=["Tree returned by New", "rendered pixels", "memory accesses"])

p("C15", "A failed or cancelled build reports failure and never hangs",
  "When the stream given to New is truncated, damaged or failing, or its context is cancelled at any instant, New returns within a bounded number of steps (when cancelled under a fair schedule, without tiling the rest of its layers), with either an error and no tree or a complete, correct tree and a nil error; never a tree that lacks layer pixels. A document that it cannot draw (not RGB, or not 8 bits per channel) is refused with an error. No goroutine is left blocked after it returns, and nothing panics.",
  ["schedules", "crash_points", "fault_sequences"],
  "every cancellation instant and stream fault x every schedule of decoder and tiling workers",
  "Package composite has no tests.",
  ["composite/layer.go", "composite/context.go", "composite/layerimage.go"], [("workers drain the layer channel until it is closed", "composite/layer.go createCanvasInner"), ("Wait with context", "composite/context.go Wait")],
  observe=["return of New", "goroutines alive", "rendered pixels of the returned tree"])

p("C16", "A renderer may be used from several goroutines at once",
  "Concurrent Render, RenderDiff and SetDirtyByLayer calls on one renderer, and concurrent use of a tree and its clones, neither race, deadlock nor panic: each completed Render gives the pixels of one state the tree had between its start and its end, and an invalidation announced at any moment, also while a render runs, is never lost: the first render started after it shows the change. Changes made to a clone never show in the original or another clone, and vice versa.",
  ["schedules", "histories"],
  "every set of concurrent callers (renderers, editors, clone users) x every interleaving",
  "Package composite has no tests.",
  ["composite/renderer.go", "composite/cloner.go"], [("render mutex", "composite/renderer.go renderM"), ("invalidations deferred while rendering", "composite/renderer.go SetDirtyByLayer"), ("deep copy of layers, shared layer images", "composite/cloner.go")],
  observe=["pixels of completed renders", "memory accesses", "progress of every caller"])

p("C17", "Transform and Clone give independent, schedule-independent trees",
  "Tree.Transform gives the same tree (layer pixels, masks, rectangles, rendered image) whatever GOMAXPROCS is and however its goroutines are scheduled, leaves the original tree's rendering unchanged, takes every pixel of layers and masks unchanged to its new place when the matrix maps pixels onto pixels (a move by whole pixels, a quarter turn, a mirroring), and when cancelled returns the abort error or a complete result, within a bounded number of steps (under a fair schedule without transforming the rest of its layers) and leaving no goroutine behind. A cloned tree renders exactly as its original does and keeps all links inside itself.",
  ["schedules", "crash_points", "inputs"],
  "every tree x affine matrices and gammas x cancellation instants x schedules",
  "Package composite has no tests.",
  ["composite/layer.go", "composite/layerimage.go", "composite/cloner.go"], [("layers distributed over goroutines", "composite/layer.go Transform, transformInner"), ("clone re-links parents and clips", "composite/cloner.go")],
  observe=["rendered pixels of original and result", "error", "goroutines alive"])

p("C18", "Thumbnails belong to their layers under every schedule",
  "Thumbnails returns, for exactly the layers that have pixels, the same image as Thumbnail gives for that layer alone, whatever GOMAXPROCS is and however its goroutines are scheduled, without a data race and leaving the tree unchanged. ThumbnailSheet places every one of them, complete and unmixed, in its own cell, cells never overlap and lie inside the sheet; a cancelled call returns the abort error or a complete result and leaves no goroutine behind.",
  ["schedules", "crash_points", "inputs", "configurations"],
  "every tree x thumbnail sizes x cancellation instants x schedules and map orders",
  "Package composite has no tests.",
  ["composite/thumbnail.go"], [("buffer reused between thumbnails of one worker", "composite/thumbnail.go thumbnailsInner, Thumbnail"), ("cell layout", "composite/thumbnail.go thumbnailSheetInner")],
  observe=["images and rectangles returned", "memory accesses"])

p("C19", "The exporter reports success only when every file is complete",
  "When the psdexporter command ends successfully, there is exactly one PNG file per layer with image data, distinct layers have distinct files, and each file, once closed, holds the complete image of its layer and nothing else, whatever files were there before and even if an earlier run of the command was killed half-way. A well-formed document is exported successfully when nothing fails. If the input cannot be read, or any file cannot be created, written completely or closed without error, the command ends with a failure.",
  ["fault_sequences", "crash_points", "inputs"],
  "every document x every failing, short or delayed create, write or close on the output, and every read fault on the input x crash of the command at any disk operation and a second run",
  "The command has no tests.",
  ["psdexporter/main.go"], [("errors from Create and Encode abort the run", "psdexporter/main.go processLayer"), ("file names built from the layer path", "psdexporter/main.go")],
  observe=["exit status", "files on the (simulated) disk"])

p("C20", "Rendering composes the layers as the tree describes",
  "Every completed Render, and every RenderDiff into the destination of the previous result, shows within rounding what the layers say at that moment: visible layers with opacity are drawn from the bottom to the top with their own blend mode and opacity; layers that are clipped show only where the layer they are clipped to does; an enabled mask hides what its values say inside its rectangle and what its default colour says outside; the layers of a group are composed by themselves and then drawn with the group's mask, opacity and blend mode, unless the group passes through, in which case they are drawn directly onto what lies below it and its mask and opacity apply to that. This holds after any history of announced changes and cancelled renders, for every tile size, GOMAXPROCS value and schedule, and also for clones and for trees that New or Transform moved, turned or mirrored, with or without gamma.",
  ["histories", "schedules", "configurations", "inputs"],
  "every layer tree x every history of changes, renders and cancellations x tile sizes x schedules",
  "Package composite has no tests at all.",
  ["composite/renderer.go", "composite/draw.go", "composite/layerimage.go", "composite/builder.go"], [("drawLayer: opacity, mask, clipping, pass-through", "composite/renderer.go drawLayer"), ("blend mode table", "composite/draw.go blendModes")],
  observe=["destination pixels after Render/RenderDiff"])

p("C21", "Drawing gives each pixel what its operator says",
  "Whatever the image types of destination, source and mask, their bounds and offsets, the clipped rectangle, the number of goroutines that share the work and the order in which they run: each pixel of the requested rectangle becomes, within rounding, what the operator's formula (Porter-Duff or the blend mode mixed by source-over with opacity and mask) gives for the source, mask and destination pixel at that place; it never overflows and its premultiplied colour never exceeds its alpha. A sequence of drawings leaves what the formulas give one after the other. (The colour of an image.Alpha source of a Porter-Duff operator counts as black on NRGBA and RGBA images, as the project's reference pictures have it.)",
  ["inputs", "schedules", "configurations"],
  "all operators x image type combinations x pixels x offsets x masks x GOMAXPROCS x schedules",
  "The tests compare one 64x32 picture per operator and four type combinations, with a tolerance on the mean and without offsets, masks or other types.",
  ["blend/draw.go", "blend/genblend.go", "blend/genporterduff.go", "blend/zblends.go", "blend/zporterduffs.go", "blend/util.go"],
  [("choice of the code for the image types", "blend/draw.go drawMask"), ("generated pixel loops", "blend/zblends.go, blend/zporterduffs.go"), ("colour helpers", "blend/util.go")],
  observe=["destination pixels after each drawing operation"])

p("C22", "Transformed layers follow the matrix",
  "Whatever invertible matrix and gamma a tree is built with (Options.TransformMatrix, Options.Gamma) or transformed by (Tree.Transform), in one step or after a move by whole pixels or a quarter turn, alone, after a cancelled attempt or while other transformations of the same tree run, under any number of goroutines and schedule: the canvas holds the transformed document, and each pixel of a layer shown alone is the bilinear sample of the layer's pixels around the place that the matrix maps to it, its alpha multiplied by the samples of the enabled masks of the layer and of the groups around it, with colours averaged in the power given by gamma, all within rounding. Nothing of a layer is cut off, displaced or taken from another layer.",
  ["inputs", "schedules", "histories"],
  "every document x invertible matrices x gammas x ways of applying them x GOMAXPROCS x schedules",
  "Package composite has no tests.",
  ["composite/layerimage.go", "composite/layer.go"],
  [("bounds of the transformed layer", "composite/layer.go transformRect"), ("sampling with and without gamma", "composite/layerimage.go newScaledTiledImage, newScaledTiledMask, createImageGamma, restoreGamma"), ("cutting into tiles", "composite/layerimage.go newTiledImageInner, newTiledMaskInner"), ("layers distributed over goroutines", "composite/layer.go Transform")],
  observe=["pixels of each layer rendered alone", "CanvasRect", "error"])

# --- properties that are pure functions of their input -----------------------------------
p("N01", "Colour conversions keep their meaning",
  "Every colour type of the color package yields alpha-premultiplied 16-bit values in range from RGBA, with each colour component at most alpha, and every colour model maps any colour to a value of its own type, leaves its own values unchanged and preserves the colour within its precision.",
  ["inputs"], "every colour value of every type", "There is one benchmark and no test for this package.",
  ["color/color.go"], [("RGBA methods and model functions", "color/color.go")])
p("N03", "Checked-in generated code matches its generators",
  "Running the generators reproduces the checked-in drawing code and tables exactly.",
  ["programs"], "the generators' templates", "No test runs the generators.",
  ["blend/genblend.go", "blend/genporterduff.go", "blend/gendivtable.go", "blend/genrgba2nrgba.go"], [("go:generate", "blend/util.go")])
p("N04", "The JavaScript and WebAssembly PackBits decoders agree with the native one",
  "For every input the PackBits decoders used on js and wasm give the same bytes or the same failure as the native one.",
  ["inputs", "configurations"], "every PackBits input on every target", "The tests run on the native target only.",
  ["compress_js.go", "compress_wasm_js.go", "compress.inc.js", "compress_other.go"], [("three implementations of one decoder", "compress_*.go")])
p("N05", "Blend mode names are the standard ones",
  "Every blend mode key maps to its name in the W3C compositing specification, names are distinct, and unknown keys are reported as unknown.",
  ["inputs"], "every four-byte key", "No test calls String.",
  ["blendmode.go"], [("String", "blendmode.go")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
