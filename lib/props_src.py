#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (python3 lib/props_src.py rewrites it)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

p("C01", "Every image buffer holds exactly width x height pixels within the size limit",
  "Every pixel buffer a caller can obtain stores exactly width x height pixels, its width and height are both zero or both non-zero, and its pixel count never exceeds the documented maximum. A constructor given dimensions or data that violate this refuses (panics) instead of returning a buffer, and no operation can change the dimensions or the number of stored pixels of an existing buffer.",
  ["inputs", "histories"], "all dimensions, all pixel data, all sequences of buffer operations",
  "Tests build a handful of tiny valid buffers; the invariant ranges over every size and every way of producing a buffer, including ones added later.",
  ["d10-core/src/pixelbuffer.rs"],
  [("size validation before construction", "d10-core/src/pixelbuffer.rs validate_size/is_valid_buffer_size"),
   ("private fields", "d10-core/src/pixelbuffer.rs struct PixelBuffer"),
   ("length-preserving maps", "d10-core/src/pixelbuffer.rs map_colors*, to_*")])

p("C02", "Decoding a file with unsupported dimensions returns an error, never a crash",
  "Decoding any byte stream in any supported format whose declared dimensions are not a valid buffer size (one side zero, or more pixels than the maximum) returns an error value. No decoder hands dimensions taken from a file to a constructor that aborts on bad sizes without having checked those same dimensions first, unless the format itself cannot exceed the limit.",
  ["inputs"], "all byte streams in all six formats",
  "The tests decode a few good files; a header with extreme dimensions is never tried, and each decoder has its own code path.",
  ["d10-codecs/src/png.rs", "d10-codecs/src/jpeg.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs", "d10-codecs/src/webp.rs", "d10-codecs/src/utils.rs"],
  [("is_valid_buffer_size guard before the buffer is built", "d10-codecs/src/{png,gif,jpeg,utils}.rs")])

p("C03", "A successful save means every byte was accepted by the output",
  "When saving or encoding an image reports success, every byte of the file, including buffered data and the format's trailer, has been written to the destination and every write's result has been examined. No write error may be swallowed by an implicit drop, an ignored result or a recorded-but-unread error.",
  ["fault_sequences", "inputs"], "every write failing at any point, for every format and encoder option",
  "No test makes a write fail; a full disk hits the last buffered kilobytes or the trailer, which are written on paths without a visible result.",
  ["d10-codecs/src/lib.rs", "d10-codecs/src/png.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/webp.rs", "d10-codecs/src/jpeg.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs"],
  [("flush of the buffered file writer", "d10-codecs/src/lib.rs encode_to_file"),
   ("explicit finish of the PNG writer", "d10-codecs/src/png.rs encode_png"),
   ("callback error slot", "d10-codecs/src/webp.rs writer_function/encode_webp")])

p("C04", "I/O failures surface as I/O errors and no codec failure is dropped",
  "Every failure of an underlying codec library or of reading/writing reaches the caller as an error of the matching kind: an I/O failure as the I/O variant carrying the original error, anything else as a decoding or encoding error. No decode or encode path turns a failure into a success or a crash.",
  ["fault_sequences", "inputs"], "every failure of every fallible step in every codec",
  "Tests only exercise success paths of the codecs.",
  ["d10-codecs/src"],
  [("error conversion in each codec", "d10-codecs/src/*.rs encode_error/decode_error and inline maps"),
   ("From<io::Error>", "d10-codecs/src/errors.rs")])

p("C05", "File extension, signature, format and codec tables agree for every format",
  "For each of the six formats, the extension, the magic signature, the default encoder settings, the reported format and the encoder/decoder that runs all refer to the same format; extensions match case-insensitively. Content signatures take precedence over the extension when opening a file, unknown extensions and contents are reported as errors, and detection leaves the reader at its start.",
  ["inputs", "configurations"], "all six formats, all extensions and contents",
  "Tests open one PNG and save one or two formats; the tables are spread over seven functions and never cross-checked.",
  ["d10-codecs/src/lib.rs"],
  [("Format::from_path/from_reader, EncodingFormat::from_path/format, decode, encode", "d10-codecs/src/lib.rs")])

p("C06", "Encoders emit samples in the layout they declare to the file format",
  "For every encoder and every selectable colour type, each pixel is emitted once, in buffer order, as exactly the channels, channel order, sample width and byte order that are declared in the file header for that colour type. Grayscale types carry the image's luma, alpha is present exactly in the types that declare it, channels are gamma-encoded sRGB, 8-bit samples use full scale 255 and 16-bit samples full scale 65535 big-endian, and the dimensions declared are the image's.",
  ["inputs", "configurations"], "all images, all formats and colour types",
  "Tests encode at most the default colour type; most of the colour-type x format table is never run.",
  ["d10-codecs/src/utils.rs", "d10-codecs/src/png.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs", "d10-codecs/src/jpeg.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/webp.rs"],
  [("to_*_vec sample writers", "d10-codecs/src/utils.rs"), ("colour type tables", "d10-codecs/src/{png,bmp,ico,jpeg}.rs")])

p("C07", "Decoders map samples to channels with the right order, scale and alpha",
  "For every decoder and every pixel format it accepts, output pixel i is built from exactly the i-th group of samples of the decoded data, in the declared channel order, divided by the full scale of the sample width and interpreted as sRGB. Formats without alpha decode to fully opaque pixels, formats with alpha keep the stored alpha, and gray samples fill all three colour channels.",
  ["inputs", "configurations"], "all pixel formats of all decoders",
  "The test images cover 8-bit RGB(A) only; gray, 16-bit, float and CMYK arms are never executed.",
  ["d10-codecs/src/utils.rs", "d10-codecs/src/png.rs", "d10-codecs/src/jpeg.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/webp.rs"],
  [("per-format match arms", "d10-codecs/src/{png,jpeg,utils}.rs")])

p("C08", "Colour conversions and colour operations never change a pixel's alpha",
  "Every colour-space conversion, every single-colour operation that maps colour channels (gray, invert, gamma, level, brightness, contrast, saturation, lightness, hue, vibrance, sepia, modulate, per-channel maps) and every image operation built on them returns a colour whose alpha equals the input's alpha (up to clamping to 0..1). Noise other than salt-and-pepper, channel balancing, equalisation, saturation and temperature changes likewise leave alpha unchanged.",
  ["inputs"], "all colours including partially transparent ones, all operations and parameters",
  "Existing tests use opaque colours almost everywhere, so an operation that resets alpha to 1 passes.",
  ["d10-core/src/color", "d10-ops/src"],
  [("data[3]/alpha() carried through each constructor", "d10-core/src/color/*.rs")])

p("C09", "In-place image operations give the same result as their copying counterparts",
  "Each operation offered in both a copying and an in-place form (pixel maps, fallible maps, enumerated maps, palette application, the noise generators) applies the same per-pixel function, with the same parameters and the same coordinates, to every pixel. An in-place fallible map stops at the first error and returns it.",
  ["inputs"], "all images and parameters",
  "Tests check one variant of a pair, or neither; noise is random so outputs cannot be compared.",
  ["d10-core/src/pixelbuffer.rs", "d10-ops/src/apply_palette.rs", "d10-ops/src/*_noise.rs", "d10/src/image.rs"],
  [("paired functions", "d10-core/src/pixelbuffer.rs mod_*/map_*, d10-ops add_*_noise, *_in_place")])

p("C10", "Every image operation produces an image of the documented dimensions",
  "Filters, colour operations, noise, flips, rotate, rotate180 and interlace return an image of the input's dimensions; rotate90/270 swap width and height; resize returns exactly the requested size; blend and compose return the maximum width and height of their inputs; crop returns the intersection of the requested rectangle with the image; the by-percentage and single-side resizes compute their size from the matching side.",
  ["inputs"], "all image sizes and parameters",
  "Tests use square or one fixed size, where swapping or mixing the sides is invisible.",
  ["d10-ops/src", "d10/src/image.rs"],
  [("output buffer construction in each op", "d10-ops/src/*.rs")])

p("C11", "Flips, right-angle rotations and crop move every pixel to its exact place",
  "After a horizontal or vertical flip, a rotation by 90, 180 or 270 degrees or a crop, the output pixel at (x, y) is bit-for-bit the input pixel at the geometrically corresponding position, for every position and every image size including non-square ones.",
  ["inputs"], "all image sizes, all positions, all crop rectangles",
  "Tests compare one or two small images; index arithmetic that mixes width and height survives on square samples.",
  ["d10-ops/src/flip.rs", "d10-ops/src/rotate_90.rs", "d10-ops/src/crop.rs"],
  [("index expressions", "d10-ops/src/{flip,rotate_90,crop}.rs")])

p("C12", "Pixel access by coordinate checks both axes and never aliases another row",
  "Reading or writing a pixel by coordinates touches exactly the pixel at (x, y) when both coordinates are inside the image and otherwise refuses: the plain accessors panic, the optional accessor returns nothing, the in-image test is false. The clamped accessor and kernel windows use the nearest edge pixel for outside coordinates, and coordinates enumerated or passed to callbacks are those of the pixel.",
  ["inputs"], "all coordinates, negative and far outside included, all image sizes",
  "A missing x check reads a pixel of the next row without any crash, so only particular out-of-range x values would show it.",
  ["d10-core/src/pixelbuffer.rs", "d10-core/src/kernel_dyn.rs"],
  [("asserts and is_in_image in accessors", "d10-core/src/pixelbuffer.rs get_pixel, put_pixel, get_pixel_optional, get_pixel_clamped, get_kernel")])

p("C13", "Python bindings forward each call to the same-named core operation",
  "Every method, property and operator of the Python module calls the core operation of the same name with the caller's arguments in the same order and returns that operation's result; colour component getters, setters and constructors use the matching component. An omitted optional argument takes the documented default, names given as strings are parsed with the same parsers as the core and an unknown name raises an exception, and each exported name leads to the function of that name.",
  ["inputs", "programs"], "all Python-visible methods and arguments",
  "The Python tests call a subset of methods with values that often make swapped arguments indistinguishable.",
  ["d10-python/src/image.rs", "d10-python/src/color.rs", "d10-python/src/lib.rs"],
  [("one wrapper per core method", "d10-python/src/{image,color}.rs")])

p("C14", "The command line tool reports every failure and runs nothing after it",
  "All command-line arguments are parsed before the first command runs, so a bad argument touches no file; commands run in the given order and the first failing command stops the run. Every failure (bad argument, missing image, decode or encode error) is printed to standard error and yields a non-zero exit status, and success never exits non-zero.",
  ["inputs", "fault_sequences"], "all argument lists and all failing commands",
  "The CLI has no tests at all.",
  ["d10-cli/src/main.rs", "d10-commands/src/queue.rs", "d10-commands/src/commands.rs"],
  [("parse then run then exit(1)", "d10-cli/src/main.rs main"), ("? on each command", "d10-commands/src/commands.rs execute")])

p("C15", "Each command line option and queued command performs its named operation",
  "Each CLI option produces the command of that name with its parameters in the documented order, each queue builder method appends the command of that name, and executing a command applies exactly the image operation of that name with those parameters to the current image and keeps its result. A command that needs an image reports the missing-image error when none is open.",
  ["inputs", "programs"], "all options, commands and parameters",
  "Tests cover queue length bookkeeping only; no command is executed by any test.",
  ["d10-cli/src/main.rs", "d10-commands/src/queue.rs", "d10-commands/src/commands.rs"],
  [("option table", "d10-cli/src/main.rs create_args"), ("builder methods", "d10-commands/src/queue.rs"), ("execute dispatch", "d10-commands/src/commands.rs")])

p("C16", "Every option name parses to its variant and nothing else parses",
  "For every enum that can be selected by name (intensities, colour types, PNG filters and compression, JPEG sampling factors, WebP presets, blend, edge, drawing, balance, equalise, saturation and resize modes) each variant is reachable by its own snake-case or documented name, two different names never swap variants, and any other string is rejected with an error that names the right enum and carries the rejected input. Conversions of these enums to the codec libraries' enums map every variant to the same-named variant.",
  ["inputs", "configurations"], "all strings, all variants",
  "Tests parse a few names of a few enums.",
  ["d10-core/src/color/rgb.rs", "d10-codecs/src", "d10-ops/src"],
  [("FromStr impls", "all crates"), ("From<..> for library enums", "d10-codecs/src/{png,jpeg}.rs")])

p("C17", "Each operation mode runs the algorithm of that name",
  "Where an operation is parameterised by a mode or filter enum (resize and rotate filter, blend operation, edge detection, drawing, balance and equalise mode, saturation mode, gray intensity) each variant is handled by its own branch that runs the algorithm of the same name, distinct variants run distinct algorithms, and documented aliases coincide.",
  ["configurations", "inputs"], "all modes of all operations",
  "Tests exercise some modes and compare against recorded output for few of them.",
  ["d10-ops/src/resize.rs", "d10-ops/src/rotate.rs", "d10-ops/src/blend.rs", "d10-ops/src/edge_detection.rs", "d10-ops/src/drawing.rs", "d10-ops/src/balance_channels.rs", "d10-ops/src/equalize.rs", "d10-ops/src/saturation.rs", "d10-core/src/color/rgb.rs"],
  [("match on the mode enum", "each operation's public function")])

p("C18", "The WebP codec uses the C library safely and examines every status",
  "Decoding never reads memory the C library did not report as valid: the header probe and the returned pointer are checked before use, the slice covers exactly width x height x 4 bytes of the returned buffer and the buffer is released exactly once after its last use on every path. Encoding passes a pixel array of exactly the declared dimensions that outlives the call, checks the status of every library call that can fail, releases the picture on every path after the encode and turns a writer failure into that I/O error.",
  ["inputs", "fault_sequences"], "all byte streams, all images, all failing statuses",
  "Tests decode one valid WebP; the failure branches and memory safety depend on C return values the tests never produce.",
  ["d10-codecs/src/webp.rs"],
  [("status checks around libwebp calls", "d10-codecs/src/webp.rs")])

p("C19", "Clamping colour constructors and operations keep channels within 0..1",
  "RGB and sRGB colours built by their constructors, and the results of the clamping channel map, gamma, level, brightness, contrast, brightness-contrast, alpha blending, sepia, blending modes that clamp and conversions into RGB that promise a clamp, have every channel within 0..1 for all finite inputs.",
  ["inputs"], "all finite channel values and parameters",
  "Tests sample in-range inputs; overshoot only shows for particular extreme values.",
  ["d10-core/src/color/rgb.rs", "d10-core/src/color/srgb.rs", "d10-core/src/color/mod.rs"],
  [("clamp in constructors and map_channels", "d10-core/src/color/{rgb,srgb,mod}.rs")])

p("C20", "Only noise is random; only open/save touch files; only the log prints",
  "Image and colour operations other than the noise generators are functions of their arguments: they use no randomness, clock, environment, global mutable state, file, process or console access. Files are touched only by the open/decode-file and save/encode-to-file entry points and the only console output is the command log and the CLI's error messages.",
  ["inputs", "histories"], "all public operations, all call histories",
  "A test can run an operation twice, not show that no input or history makes it depend on anything else.",
  ["d10-core/src", "d10-ops/src", "d10-codecs/src", "d10/src", "d10-commands/src"],
  [("absence of effectful calls in the call graph", "whole workspace")])

p("C21", "All routes of converting a colour to another colour space agree",
  "Converting a colour or a whole image gives the same result through every route: the method on the colour, the standard conversion trait, the iterator adaptors and the buffer/image conversions all apply the conversion named, to the right target space with the right illuminant and observer, element by element in order. Converting a colour to its own space (other than Lab and Lch) returns it unchanged, and each space's chained conversion goes through the spaces' own primitive conversions.",
  ["inputs", "programs"], "all colours, all pairs of colour spaces, all routes",
  "There are over 150 routes; tests touch the direct methods for a table of sample colours.",
  ["d10-core/src/color/mod.rs", "d10-core/src/color/iter.rs", "d10-core/src/pixelbuffer.rs"],
  [("color_from! impls, To*Iter, PixelBuffer::to_*", "d10-core/src")])

p("C22", "Forward and inverse colour-space constants are mutually inverse",
  "The matrices and transfer-function constants used to convert into a colour space and back are inverses of each other to the precision they are written with: RGB/XYZ and RGB/YUV matrices multiply to the identity, the sRGB transfer function and its inverse share slope, offset, exponent and meet at corresponding thresholds, Lab's forward and inverse functions use the same scale factors and the same white point. Luma weights sum to one and every component's scale factor is undone by the opposite conversion; HSV and HSL decompose and recompose a colour consistently in every hue sector.",
  ["inputs"], "all colours, since the constants apply to each",
  "Tests compare conversions against sample tables at coarse tolerance and rarely go both ways.",
  ["d10-core/src/color/xyz.rs", "d10-core/src/color/yuv.rs", "d10-core/src/color/srgb.rs", "d10-core/src/color/lab.rs", "d10-core/src/color/rgb.rs"],
  [("constant tables and piecewise functions", "d10-core/src/color")])

p("C23", "The colour trait is closed and image types are safe to share across threads",
  "No crate other than the core can add its own colour type, so an image always holds one of the built-in colours. All colours, buffers and images can be sent and shared between threads, buffers cannot be resized from outside, and no code outside the WebP binding uses unsafe code.",
  ["programs"], "all programs that use the library",
  "A property about programs that must not compile; no test can contain such a program.",
  ["d10-core/src/color/mod.rs", "d10-core/src/pixelbuffer.rs", "d10/src/image.rs"],
  [("private::Sealed", "d10-core/src/color/mod.rs"), ("Send + Sync bounds", "d10-core/src/color/mod.rs trait Color")])

p("C24", "Colour equality compares all four channels within one common tolerance",
  "Two colours of any space are equal exactly when all four components, alpha included, differ by no more than one 15-bit step, the same tolerance for every colour space; equality is symmetric. Two images' transparency and grayscale tests look at every pixel.",
  ["inputs"], "all pairs of colours of all eight colour types",
  "Tests compare equal colours; an ignored component or an overly wide tolerance makes every comparison-based test pass more easily.",
  ["d10-core/src/color"],
  [("PartialEq impls", "d10-core/src/color/*.rs"), ("EPSILON", "d10-core/src/color/mod.rs")])

p("C25", "Encoders reject dimensions the format cannot hold and clamp quality",
  "Encoding to JPEG or GIF an image whose width or height exceeds 65535 returns the bad-dimensions error with the format's name and the image's width and height, and the size is never silently truncated. The JPEG quality reaching the encoder is always within 1..100 and the WebP quality within 0..100, whatever value was given, and the user's other encoder settings reach the encoder unchanged.",
  ["inputs", "configurations"], "all image sizes, all quality values and option combinations",
  "No test encodes an image larger than a few hundred pixels or uses an out-of-range quality.",
  ["d10-codecs/src/jpeg.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/webp.rs", "d10-codecs/src/png.rs"],
  [("dimension checks before narrowing casts, clamp of quality", "d10-codecs/src/{jpeg,gif,webp}.rs")])

p("C26", "Image methods delegate to the same-named operation and keep metadata",
  "Each high-level image method applies the operation of the same name to the image's pixels with the caller's arguments in the same order; methods returning a new image carry over the source image's background colour, and methods taking the background colour as fill use the image's own. Opening, saving and encoding pass the caller's path, buffer and format through unchanged.",
  ["inputs", "programs"], "all image methods, arguments and images",
  "Rust tests of the image type are few and most methods are never called.",
  ["d10/src/image.rs"],
  [("with()/buffer delegation", "d10/src/image.rs")])

p("C27", "Component accessors of every colour address exactly their own component",
  "For every colour type, reading a component returns what the matching setter or constructor argument stored, setting or replacing one component leaves the other three unchanged, and the raw component array lists them in declared order with alpha last. Mapping colour channels visits the three colour components once each, in order, and never the alpha.",
  ["inputs"], "all colours, all components, all eight colour types",
  "About 100 accessors, most never called by a test.",
  ["d10-core/src/color"],
  [("index constants in accessors", "d10-core/src/color/*.rs")])

p("C28", "Numpy import and export treat pixels, channels and shapes consistently",
  "Exporting an image to a numpy array and importing an array use the same channel order, colour-space names and sample scaling for every supported dtype and colour space, with rows as the first axis and columns as the second. An array with an unsupported number of dimensions, channel count, colour-space name or dtype raises a Python exception rather than aborting.",
  ["inputs", "configurations"], "all dtypes, shapes and colour space names",
  "Python tests round-trip one or two dtype/space combinations of the several dozen.",
  ["d10-python/src/image.rs"],
  [("to_np_array/from_np_array tables", "d10-python/src/image.rs")])

p("C29", "Composing images reads each layer at the output position, default outside",
  "Composing or blending images evaluates the combination once per output pixel with that pixel's coordinates, giving it from every input layer in the given order the pixel at exactly those coordinates, or the default colour where the layer does not reach; blending two images mixes them where both reach and keeps the only existing pixel elsewhere. The fallible form returns the first error.",
  ["inputs"], "all layer sizes and counts",
  "Tests compose equally sized layers, or look at a few pixels.",
  ["d10-ops/src/compose.rs", "d10-ops/src/blend.rs", "d10/src/image.rs"],
  [("get_pixel_optional(x, y).unwrap_or(&default)", "d10-ops/src/compose.rs")])

p("C30", "Filter and resampling output is numerically accurate",
  "Blurs, unsharp masking, resampling, edge detection, denoising and histogram equalisation compute the numerically correct value of their defining formula at every pixel to within rounding.",
  ["inputs"], "all images and parameters",
  "Numerical accuracy over all images.",
  ["d10-ops/src"], [("filter formulas", "d10-ops/src")])

p("C31", "Colour-space and file-format round trips reproduce the original values",
  "Converting a colour to another space and back, or saving to a lossless format and loading again, reproduces the original channel values to within the precision of the representation.",
  ["inputs"], "all colours, all images",
  "Sampled tables only.",
  ["d10-core/src/color", "d10-codecs/src"], [("conversion formulas, codec libraries", "d10-core, d10-codecs")])

p("C32", "Noise generators follow their stated distributions",
  "Random, RGB, Gaussian and salt-and-pepper noise change pixels with the stated probability and amplitude distribution.",
  ["inputs", "histories"], "all parameters, all random streams",
  "Statistical.",
  ["d10-ops/src"], [("rand sampling", "d10-ops/src/*_noise.rs")])

p("C33", "Colour arithmetic never divides by zero or takes roots of negative values",
  "Converting a colour whose channels lie within 0..1, applying a colour operation to it, building a smoothing kernel, or running an image operation on a non-empty image never divides by zero and never takes a root or fractional power of a negative number, so no pixel silently becomes NaN. Black, gray, fully saturated and uniform images are the boundary cases; a gray colour's hue and saturation are zero.",
  ["inputs"], "all colours and images, in particular gray, black, white and uniform ones, and all parameters",
  "NaN only appears for exact coincidences (equal channels, uniform images, empty averages) that sampled colours rarely hit; it spreads silently.",
  ["d10-core/src/color", "d10-core/src/kernel.rs", "d10-core/src/kernel_dyn.rs", "d10-ops/src"],
  [("guards before divisions", "d10-core/src/color/mod.rs to_hsl/to_hsv; d10-ops/src/{despeckle,symmetric_nearest_neighbor,temperature}.rs")])

p("C34", "Convolution and resampling pair each pixel with its own, normalised weight",
  "Convolving with a kernel adds, for every channel, each coefficient times the pixel at that coefficient's offset from the centre, the nearest edge pixel standing in outside the image. Gaussian kernels are symmetric and sum to one. Resizing and rotating sample at the scaled, respectively rotated about the centre, position of the output pixel, and bilinear, bicubic and Lanczos interpolation weight each neighbour by its own distance to it along each axis. Averaging filters divide by the number of pixels they added, so blurring, sharpening and smoothing a uniform image leaves it unchanged.",
  ["inputs"], "all images, positions, kernel coefficients and parameters",
  "Tests resize and rotate uniform images or compare a few pixels at coarse tolerance; a weight paired with the wrong neighbour or axis hardly shows there.",
  ["d10-core/src/pixelbuffer.rs", "d10-core/src/kernel.rs", "d10-core/src/kernel_dyn.rs", "d10-ops/src/filters.rs", "d10-ops/src/resize.rs", "d10-ops/src/rotate.rs", "d10-ops/src"],
  [("get_kernel_value, apply_kernel", "d10-core/src/pixelbuffer.rs"), ("interpolation weights", "d10-ops/src/filters.rs"), ("sampling positions", "d10-ops/src/resize.rs, d10-ops/src/rotate.rs"), ("divisors of averages", "d10-ops/src/{despeckle,symmetric_nearest_neighbor}.rs")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P))
