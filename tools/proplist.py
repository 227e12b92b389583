I, FS, PR, CF, H = "inputs", "fault_sequences", "programs", "configurations", "histories"

prop("C01", "I/O failures are always reported to the caller",
     "If reading from the source or writing to the destination fails with an I/O error while an image is decoded, encoded, loaded or saved, the call that performed the transfer returns an error. A failed transfer is never reported as success and never replaced by default data.",
     [FS, I], "every point of every decode/encode/save at which the reader or writer may fail",
     "Tests use in-memory buffers that never fail; only a handful inject truncation, none inject write or seek failures at every call site.",
     ["src/codecs/", "src/image_reader/", "src/image.rs", "src/dynimage.rs", "src/buffer.rs"],
     [("Err propagation with ? at every fallible read/write/seek call", "all codecs"), ("ImageError::IoError conversion", "src/error.rs")],
     "interprocedural error-value dataflow over MIR (every io::Result consumed on every path)",
     "Decides, for every function of the crate, that each value of an I/O or image result type is propagated, inspected with its error returned, or handled by one of the enumerated idioms; errors swallowed inside third-party codec crates are outside.")

prop("C02", "Partial transfers are never taken for complete ones",
     "A read or write that transfers fewer bytes than requested is never treated as complete: whenever a codec needs a known number of bytes it either obtains or emits all of them or returns an error.",
     [FS, I], "every reader/writer that transfers fewer bytes than asked, and every truncation point",
     "Cursor and Vec always transfer everything, so tests cannot observe a call that ignores the returned count.",
     ["src/codecs/", "src/image_reader/"], [("read_exact/write_all instead of read/write; counts from raw reads compared", "all codecs")],
     "who-may-call and use-of-count dataflow rule on raw transfer primitives (MIR)",
     "Decides that raw read/write/io::copy/read_to_end/take calls either loop on, compare or return their count, at every call site of the crate.")

prop("C03", "Saving reports success only after all data reached the file",
     "When an image is saved to a path, success is returned only after every buffered byte was handed to the file system and that hand-over succeeded; a failure of the last flush is reported as an error.",
     [FS, I], "every write failure, including one that occurs only when the last buffered bytes are written out",
     "Tests save to healthy file systems; the final flush never fails there.",
     ["src/image_reader/free_functions.rs", "src/dynimage.rs", "src/buffer.rs"], [("flush of the buffered file before Ok", "save_buffer_with_format_impl")],
     "must-pass-through / typestate on buffered writers (MIR paths to success)",
     "Decides, on every path that returns success from a function that owns a buffering writer, that a checked flush/into_inner/finish happened after the last write.")

prop("C04", "Width and height limits are enforced by every decoder",
     "Setting limits on a decoder fails with a limits error whenever the image is wider or taller than the configured maximum, for every format, and leaves an image within the maximum acceptable as far as its dimensions are concerned. Loading through the reader applies the configured limits before any pixel data is decoded.",
     [I, CF], "every format, every limit configuration and every image size, in particular sizes at the limit and one above",
     "Tests check one or two formats at one size.",
     ["src/image_reader/mod.rs", "src/image_reader/image_reader_type.rs", "src/image.rs", "src/codecs/"],
     [("Limits::check_dimensions", "src/image_reader/mod.rs"), ("ImageDecoder::set_limits default and overrides", "src/image.rs, src/codecs/*"), ("set_limits before decoding", "ImageReader::decode / into_decoder")],
     "must-pass-through on every set_limits implementation; exact path conditions of the dimension test (abstract interpretation)",
     "Decides the comparison exactly (all paths), that every implementation passes its own dimensions through it before succeeding, and the order of calls in the reader.")

prop("C05", "The allocation limit is accounted exactly and checked before decoding",
     "Reserving memory against limits fails exactly when the request exceeds what is left, and otherwise reduces what is left by exactly the request; releasing adds exactly the amount back without wrapping. Loading through the reader charges the full size of the decoded image against the limit before decoding starts and passes the remaining budget on to the decoder. Decoders that keep limits charge every canvas and frame buffer before allocating it and hand the limits on unchanged.",
     [I, CF], "every limit, every request size including those near the integer maximum, every format",
     "Tests exercise a few sizes; nothing quantifies over limits and sizes.",
     ["src/image_reader/mod.rs", "src/image_reader/image_reader_type.rs", "src/image.rs"],
     [("Limits::reserve/free/reserve_buffer", "src/image_reader/mod.rs"), ("reserve(total_bytes) in decode", "src/image_reader/image_reader_type.rs")],
     "abstract interpretation: exact effect terms of the accounting functions, ordering of calls on every path",
     "Decides the accounting functions completely and the order reserve -> set_limits -> decode on every path of the reader.")

prop("C06", "Decoding into a buffer of the wrong size is refused before writing",
     "Reading an image into a caller-supplied buffer requires the buffer to be exactly as long as the image's total size; with any other length the call panics or fails before a single byte of the buffer is written, for every decoder.",
     [I], "every decoder, every buffer length different from the total size",
     "Tests always size the buffer correctly.",
     ["src/codecs/", "src/image.rs"], [("assert_eq!(buf.len(), total_bytes) first in read_image", "all decoders")],
     "dominance: length equality test precedes every use of the buffer in every decoder implementation (MIR)",
     "Decides for each implementation of the decoder trait that an equality test of the buffer length against the decoder's own total size guards every use of the buffer.")

prop("C07", "Encoders check the pixel buffer's length before writing anything",
     "Encoding a pixel buffer whose length is not what its dimensions and colour type require never succeeds and writes nothing: the call panics or fails before the first byte is emitted, for every encoder.",
     [I], "every encoder, every colour type, every combination of dimensions and buffer length",
     "Tests pass consistent buffers.",
     ["src/codecs/", "src/image.rs"], [("assert on expected buffer length in write_image/encode", "all encoders")],
     "dominance: exact length test guards every output effect of every encoder entry point (abstract interpretation)",
     "Decides for each encoder entry point that every path with an output effect first tested the buffer length for equality with the size implied by dimensions and colour.")

prop("C08", "Encoders reject or correctly declare every colour type",
     "For every colour type an encoder either refuses a (non-empty) image with an error before writing or writes a file whose header declares exactly the channel count, channel order and bit depth of that colour type as the format represents it. No colour type is silently encoded under another layout, except that BMP stores grey with alpha as grey and AVIF stores everything as 8-bit RGB or RGBA, as documented in their encoders. A PNM header chosen by the caller is refused when its channel count or sample width is not that of the samples.",
     [I], "every encoder and every one of the extended colour types",
     "Tests encode a few colour types per format.",
     ["src/codecs/"], [("match on ExtendedColorType in each encoder", "src/codecs/*/encoder.rs")],
     "per-colour conditional constant propagation through every encoder entry point (table of accepted colours and declared layout)",
     "Decides the accepted set and the declared layout constants handed to the header writer for all 27 colour types of every encoder.")

prop("C09", "File names, MIME types and signatures identify exactly their format",
     "Every documented file extension (ignoring ASCII case), MIME type and file signature identifies its documented format, and contents that carry no known signature are not identified. A format's own listed extensions and its registered MIME type identify that same format again.",
     [I], "every extension, MIME type and file header",
     "Tests try single strings in one case; they do not cover the whole table nor its consistency with the reverse direction.",
     ["src/image.rs", "src/image_reader/free_functions.rs"],
     [("ImageFormat::from_extension/from_path/from_mime_type", "src/image.rs"), ("signature table and scan", "src/image_reader/free_functions.rs")],
     "exhaustive path enumeration of the classifiers by abstract interpretation, compared with the documented table",
     "Decides every path of the classification functions and the whole signature table.")

prop("C10", "Every entry point uses the codec of the requested format",
     "Decoding with a given format uses that format's decoder on the caller's stream, encoding or saving with a given format uses that format's encoder on the caller's writer and on the caller's pixels, width, height and colour type, and formats without a codec are refused. The format flags never advertise a codec that is not there, and paths, bytes and explicitly set formats reach the codec unchanged.",
     [I, CF], "every format, every public loading and saving entry point",
     "Tests exercise a few formats through one entry point each.",
     ["src/image_reader/image_reader_type.rs", "src/image_reader/free_functions.rs", "src/dynimage.rs", "src/image.rs"],
     [("ImageReader::make_decoder", "src/image_reader/image_reader_type.rs"), ("write_buffer_impl", "src/image_reader/free_functions.rs"), ("DynamicImage::write_to", "src/dynimage.rs")],
     "per-format conditional constant propagation through the entry points (dispatch tables and argument roles)",
     "Decides, for all 16 formats, which codec type is constructed and what data reaches it on every path.")

prop("C11", "All descriptions of a colour layout agree",
     "For every colour type, the channel count, bits and bytes per pixel, and alpha and colour flags follow from its layout, the extended colour type it converts to has the same layout, and buffer sizes computed from it are the row size rounded up to whole bytes times the height without overflow. Every pixel type and every dynamic image variant reports the colour type of its own storage, and dynamic images are built for and opened as exactly that colour type.",
     [I], "every colour type, pixel type, image variant and size",
     "Tests check a few enum values.",
     ["src/color.rs", "src/dynimage.rs", "src/traits.rs"],
     [("ColorType/ExtendedColorType tables", "src/color.rs"), ("PixelWithColorType", "src/traits.rs"), ("DynamicImage::color, as_*, from_decoder, new", "src/dynimage.rs")],
     "per-variant conditional constant propagation, cross-checked tables",
     "Decides all tables completely.")

prop("C12", "Pixel access is bounds-checked on both axes",
     "Reading or writing a pixel of an image buffer or view at a coordinate outside its width or height never touches another pixel: the panicking accessors panic and the checked accessors return nothing. Inside the bounds each coordinate addresses exactly the samples of that pixel in row-major order.",
     [I], "every image size, container length and coordinate, including coordinates whose offset falls inside the container",
     "Tests probe a few coordinates; an x beyond the width lands on the next row without crashing.",
     ["src/buffer.rs", "src/image.rs", "src/flat.rs"],
     [("ImageBuffer::pixel_indices and accessors", "src/buffer.rs"), ("SubImage accessors", "src/image.rs"), ("SampleLayout::index", "src/flat.rs")],
     "abstract interpretation: index terms and guarding path conditions of every accessor",
     "Decides for every accessor that each returning path carries x<width and y<height and computes the row-major index.")

prop("C13", "Rotations and flips move every pixel to its exact place",
     "Rotating by 90, 180 or 270 degrees and flipping horizontally or vertically yield an image of the right dimensions in which every source pixel appears unchanged at exactly the position the geometry dictates, for every image size. In-place and allocating variants agree.",
     [I], "every image size and every pixel position",
     "Tests use images of a few pixels; wrong strides for odd or non-square sizes escape them.",
     ["src/imageops/affine.rs", "src/dynimage.rs"], [("rotate*/flip* and *_in variants", "src/imageops/affine.rs")],
     "abstract interpretation: symbolic coordinate map of every pixel write, compared as polynomials in x, y, width, height",
     "Decides the coordinate map of every transform for all sizes at once.")

prop("C14", "Orientation metadata is read, composed and applied correctly",
     "Each of the eight EXIF orientation values maps to its documented orientation and back, other values are rejected, and applying an orientation performs exactly the documented rotation and flip on any image.",
     [I], "all 256 EXIF values, all orientations, all image variants",
     "Tests cover the byte conversion of some values and one image.",
     ["src/metadata.rs", "src/dynimage.rs"], [("Orientation::from_exif/to_exif/from_exif_chunk", "src/metadata.rs"), ("DynamicImage::apply_orientation", "src/dynimage.rs")],
     "exhaustive path enumeration of the tables; composition of coordinate maps (abstract interpretation)",
     "Decides both tables for every byte value and the composed operations for every orientation; the scan of an EXIF chunk is checked for tag, type and byte order only.")

prop("C15", "Dynamic images do the same operation for every pixel type",
     "An operation on a dynamic image performs that same operation, with the caller's arguments in their places, on the contained image whatever its pixel type, and operations that return a dynamic image keep its colour type unless documented otherwise.",
     [I], "every operation of the dynamic image and each of its ten pixel types",
     "Tests exercise one or two pixel types per operation.",
     ["src/dynimage.rs"], [("dynamic_map! and hand-written matches", "src/dynimage.rs")],
     "sibling cross-check: per-variant abstract interpretation of every method, outcomes compared across variants",
     "Decides that all ten variants reach the same callee with the same arguments and rewrap the result as the same variant.")

prop("C16", "Colour conversions keep channel roles",
     "Converting a pixel between layouts copies each colour channel and the alpha channel to the channel of the same role, converting only its value range; missing alpha becomes fully opaque, alpha is dropped only where the target has none, grey is replicated to all colour channels, and grey computed from colour uses the documented weights of red, green and blue in their roles.",
     [I], "every pair of pixel layouts and every channel value",
     "Tests convert a few pixels with symmetric channel values.",
     ["src/color.rs"], [("FromColor implementations", "src/color.rs"), ("rgb_to_luma weights", "src/color.rs")],
     "abstract interpretation: channel-role dataflow of every conversion implementation",
     "Decides which source channel reaches which target channel in every conversion; rounding of the sample conversion itself is covered only by its end points.")

prop("C17", "Colour operations leave alpha as documented",
     "Inverting, brightening, adjusting contrast and rotating hue change no alpha value, and mapping a pixel's colour and alpha with separate functions applies the colour function to every colour channel and the alpha function to the alpha channel only.",
     [I], "every pixel type with alpha and every pixel value",
     "Tests use opaque or alpha-free images.",
     ["src/color.rs", "src/imageops/colorops.rs", "src/traits.rs"], [("map_with_alpha/apply_with_alpha/map_without_alpha/apply_without_alpha", "src/color.rs, src/traits.rs"), ("Invert", "src/color.rs"), ("brighten/contrast/huerotate", "src/imageops/colorops.rs")],
     "abstract interpretation: per-channel dataflow of each pixel operation",
     "Decides for every pixel type which channel each function is applied to.")

prop("C18", "Wrappers behave like what they wrap",
     "A boxed decoder, a borrowed or mutable view and every other forwarding wrapper gives, for every method of the wrapped interface, exactly the wrapped object's answer, with arguments unchanged.",
     [PR], "every forwarding implementation and every method of the interface, including methods with default bodies",
     "Tests call wrapped objects through a few methods; a forgotten override silently answers with the default.",
     ["src/image.rs", "src/codecs/"], [("impl ImageDecoder for Box<T>", "src/image.rs"), ("Deref of SubImage", "src/image.rs")],
     "override-completeness and argument-forwarding rule over trait implementations (type-checked program)",
     "Decides for each forwarding implementation that every method some implementation overrides is forwarded with its arguments in place.")

prop("C19", "Results depend only on the inputs",
     "Decoding, encoding and image processing read no clock, random source, environment variable or global mutable state and never iterate over unordered collections, so that equal inputs give equal outputs; the file system is touched only by the entry points that take a path.",
     [H, CF], "every history of previous calls and every environment",
     "Repeated runs in one process cannot reveal dependence on ambient state.",
     ["src/"], [("no ambient effects in the crate", "src/")],
     "effect analysis: forbidden callees and mutable statics over the resolved call graph",
     "Decides the crate's own code; thread scheduling inside dependencies (parallel decoding) is trusted to be order-independent.")

prop("C20", "Guessing a format does not consume the stream",
     "Guessing the format of a reader leaves the stream at the position where it was before, whatever was found, so that decoding afterwards sees the same bytes.",
     [I, H], "every stream position and every content length",
     "Tests guess only from position zero.",
     ["src/image_reader/image_reader_type.rs"], [("seek back in guess_format", "src/image_reader/image_reader_type.rs")],
     "must-pass-through with value provenance (abstract interpretation)",
     "Decides on all success paths that the saved position is sought again after the last read.")

prop("C21", "Multi-byte header fields use the byte order of their format",
     "Every multi-byte number read from or written to a file uses the byte order its format prescribes (little-endian for BMP, ICO, TGA and DDS, big-endian for Farbfeld), and samples handed to callers are in native order.",
     [I], "every header field and every sample of every file",
     "Round-trip tests of the crate's own reader against its own writer cannot see a field swapped on both sides; single reference files exercise few fields.",
     ["src/codecs/"], [("byteorder_lite calls", "src/codecs/*"), ("to_ne_bytes / from_ne_bytes at the sample boundary", "src/codecs/*")],
     "who-may-call rule on endianness-typed primitives per codec module (resolved type arguments)",
     "Decides every endian-typed call site of the codecs the crate implements itself.")

prop("C22", "Encoders refuse dimensions their format cannot store",
     "When an image's width or height does not fit the field that stores it, encoding fails with an error before any header is written instead of writing a truncated value.",
     [I], "every encoder and every width and height, in particular those just above the field's range",
     "Tests encode small images.",
     ["src/codecs/"], [("try_into / range checks before header writes", "src/codecs/{bmp,gif,ico,tga,jpeg,webp,avif}*")],
     "value-range dataflow on every narrowing conversion of a dimension reaching a header write (MIR)",
     "Decides every narrowing of a value derived from width or height in the encoders.")

prop("C23", "Iterators visit every pixel exactly once with its own coordinates",
     "Iterating over the pixels or rows of an image yields every pixel exactly once, in row-major order, paired with its own coordinates, and reports exact remaining lengths, for every image size including empty ones.",
     [I], "every image size",
     "Tests iterate over small full images only.",
     ["src/buffer.rs", "src/image.rs"], [("Pixels/EnumeratePixels/Rows iterators", "src/buffer.rs"), ("GenericImageView::pixels", "src/image.rs")],
     "abstract interpretation of the step functions: coordinate recurrence and exhaustion condition",
     "Decides the recurrence of the coordinate-carrying iterators and the chunking of the row iterators.")

prop("C24", "Cropping, pasting and viewing use exactly the requested region",
     "Cropping, creating a sub-image, copying one image into another and overlaying touch exactly the pixels of the intersection of the requested region with the image, at the requested offset, and a region that does not fit is refused or clamped as documented without arithmetic overflow.",
     [I], "every image size, offset and region, including those whose sum exceeds the integer range",
     "Tests use small in-range rectangles.",
     ["src/image.rs", "src/imageops/mod.rs"], [("crop_dimms, overlay_bounds", "src/imageops/mod.rs"), ("SubImage, copy_from, copy_within", "src/image.rs, src/buffer.rs")],
     "abstract interpretation: offset terms, clamp terms and overflow obligations",
     "Decides the offset arithmetic and the guards of the region functions.")

prop("C25", "Metadata handed to an encoder is written or refused",
     "Colour-profile data given to an encoder is either stored and handed complete and unchanged to the file writer by every successful encoding, or refused with an error; it is never silently dropped. In JPEG files a profile of any length is split into correctly numbered segments. The pixel density given to the JPEG encoder and the repeat count and frame delays given to the GIF encoder (in hundredths of a second, limited to what the field holds) are written as given.",
     [I], "every encoder, every profile length, every density, repeat count and delay",
     "Tests cover one or two formats and small profiles.",
     ["src/codecs/", "src/image.rs"], [("set_icc_profile and its use while writing", "src/codecs/{png,jpeg,webp}*"), ("write_icc_profile_chunks, build_jfif_header", "src/codecs/jpeg/encoder.rs"), ("set_repeat, encode_gif, convert_frame", "src/codecs/gif.rs")],
     "abstract interpretation: dataflow of the stored metadata into the file writer; byte-exact summaries of the JPEG headers",
     "Decides for each encoder that accepts a profile that the stored value flows to an output call; JPEG header bytes are derived symbolically and evaluated at the boundary lengths. What png, image-webp and gif do with what they are given is theirs.")

prop("C26", "Unsafe code stays confined and justified",
     "No safe function of the crate lets its caller violate memory safety. Unsafe operations occur only where a slice of samples is reinterpreted as a pixel (which panics unless the slice is at least as long as the pixel, whose type is a transparent array of that many samples) and in the unchecked pixel accessors, which are unsafe functions and stay inside the samples for every coordinate inside the image. There are no unsafe Send or Sync implementations, mutable statics, unions or packed types.",
     [PR], "every program using the public API",
     "Tests cannot show the absence of undefined behaviour.",
     ["src/color.rs", "src/buffer.rs", "src/"], [("repr(transparent) pixel casts with length asserts", "src/color.rs"), ("unsafe_get_pixel, unsafe_put_pixel, pixel_indices_unchecked", "src/buffer.rs")],
     "the compiler's own list of unsafe blocks, functions, impls and statics; symbolic execution of the functions that contain them, each operation with its obligation",
     "Decides that each cast site returns a reference only for slices long enough, derived from the guard on its paths, and that the index ranges of the unchecked accessors stay within width*height*channels (evaluated on a grid of sizes). The dependencies' unsafe code is theirs.")

prop("C27", "Errors, images and decoders can cross threads",
     "Every public type of the crate can be moved to another thread when its type parameters can, and shared between threads when they can, except that decoders and encoders need only be movable and the animation frame iterator is as free as the boxed iterator it holds: images, views, iterators over pixels, errors, colour and format descriptions, limits, the image reader, decoders and encoders are Send, and all but decoders and encoders are Sync.",
     [PR], "every program that moves or shares these values between threads, for every choice of type parameters",
     "A test cannot quantify over all type instantiations; losing an auto trait breaks only downstream programs.",
     ["src/"], [("auto traits of public types", "src/lib.rs")],
     "type-level: the compiler's trait solver is asked, per public type, whether Send and Sync follow from the same bounds on its parameters",
     "Decides the auto traits of all reachable structs and enums at once, generic ones for every instantiation.")

prop("C28", "Image operations return images of the documented size",
     "Resizing to an exact size, filling an exact size, thumbnailing to an exact size, filtering, blurring, grayscale and colour operations and rotations return an image whose width and height are exactly the requested or documented ones, with width and height never exchanged. Resizing and thumbnailing within bounds return an image that keeps the proportions up to rounding, stays within the bounds and reaches one of them. This holds for every size, empty images included, without arithmetic overflow.",
     [I], "every image size, empty ones included, and every requested size",
     "Tests use a few sizes, often square.",
     ["src/imageops/", "src/dynimage.rs", "src/math/utils.rs"], [("ImageBuffer::new(nwidth, nheight) in resize/thumbnail/filters", "src/imageops/*"), ("resize_dimensions", "src/math/utils.rs")],
     "abstract interpretation: dimension terms of the returned image, through loops by invariance",
     "Decides the dimension terms of every image-returning operation exactly; the rounding of the proportional sizes is judged by evaluating the symbolic term on a grid of sizes that includes the ends of the integer range.")

prop("C29", "An encoder used again starts each image afresh",
     "Where an encoder can encode several images one after the other (its encoding method borrows it), what is written for an image does not depend on the images encoded before: no bit buffer, table, counter or header state of an earlier image remains that the next one would see, other than what the caller configured. (Animation encoders, whose frames belong together, are excepted.)",
     [H], "every sequence of images encoded with one encoder",
     "Tests make a new encoder for every image.",
     ["src/codecs/"], [("BitWriter state in JpegEncoder", "src/codecs/jpeg/encoder.rs"), ("encode(&mut self, ..) of BMP, GIF, PNM", "src/codecs/*")],
     "interprocedural typestate over MIR: every field of the encoder is unchanged, restored or dirty at each successful return",
     "Decides every path of the borrowing encoders.")

prop("C30", "Generated images hold exactly what was asked for at every pixel",
     "A new image is all zero and has the requested size. An image made from one pixel holds that pixel everywhere; an image made from a function, sequentially or in parallel, holds at (x, y) the function's value for (x, y). A gradient is the first colour at its start, the second at its end, linearly interpolated in between and constant across, for every size and component type.",
     [I], "every size, including empty images and images one pixel wide or high, every function and every pair of colours",
     "Tests generate one or two square images.",
     ["src/buffer.rs", "src/buffer_par.rs", "src/imageops/mod.rs", "src/traits.rs"],
     [("ImageBuffer::new/from_pixel/from_fn/from_par_fn", "src/buffer.rs, src/buffer_par.rs"), ("vertical_gradient, horizontal_gradient", "src/imageops/mod.rs"), ("Lerp", "src/traits.rs")],
     "abstract interpretation: loop summaries with symbolic sizes and pixel terms, evaluated for a set of sizes",
     "Decides size and contents of generated images from the summary of each loop; the gradient formula is evaluated for u8, u16 and f32 components on a grid of colours and sizes. That the pixel iterators visit every pixel is C23.")

prop("C31", "Blending is source-over compositing",
     "Blending a pixel over another leaves the background unchanged where the foreground is fully transparent, replaces it where the foreground is opaque or has no alpha, and gives the source-over mixture otherwise, correct to one step of the component type, for every pixel type; no combination of channel values makes it panic.",
     [I], "every pair of pixels of every pixel and component type",
     "Tests blend a few pairs of pixels.",
     ["src/color.rs"], [("impl Blend for Luma, LumaA, Rgb, Rgba", "src/color.rs")],
     "symbolic execution of the blend functions for each component type; formulas evaluated against the source-over equation",
     "Decides which formula each channel of the result is on every path; equality with the specification is judged on a grid of channel values with single-precision rounding, for u8, u16 and f32 in the range 0 to maximum.")

prop("C32", "Animation frames are composited as the format prescribes",
     "Each frame of an animated GIF or PNG, as returned, is the frame's pixels drawn (for GIF: where not transparent; for PNG: replacing or blending as its control chunk says) at its place over the canvas that the frames before it left after their disposal (kept, cleared to transparent within the frame, or restored to what it was before the frame); the canvas starts transparent, an image that is not part of the animation is skipped, and a GIF read as one image is its first frame at its place on a transparent screen.",
     [I, H], "every animation: every sequence of disposal and blending methods and every frame rectangle", "Tests decode a few animations.",
     ["src/codecs/gif.rs", "src/codecs/png.rs"], [("GifFrameIterator::next, GifDecoder::read_image", "src/codecs/gif.rs"), ("ApngDecoder::mix_next_frame", "src/codecs/png.rs")],
     "abstract interpretation: one decoding step summarised as pixel transfers between the frame and the kept canvases, checked as an inductive step",
     "Decides for every disposal and blending method, with the canvases kept from step to step constrained only by the invariant that the step itself re-establishes, which pixel each pixel of the frame and of the kept canvas becomes; rectangles are evaluated in every position on small canvases. The frame's own samples come from the gif and png crates; WebP frames are composited inside image-webp. Blending itself is C31, rectangle copies C24.")

prop("C33", "Frame delays keep their value",
     "The delay of a frame read from a GIF, PNG or WebP animation is the one the file states in that format's unit; a delay written to a GIF is the frame's in hundredths of a second, at most 65535; delays built from a fraction hold it exactly, durations convert to the delay exactly where representable and to the closest fraction otherwise, saturate at the longest delay and never overflow, and delays convert to durations to within a nanosecond.",
     [I], "every delay and duration", "Tests convert a few durations.",
     ["src/animation.rs", "src/codecs/gif.rs", "src/codecs/png.rs", "src/codecs/webp/decoder.rs"],
     [("Delay, Ratio", "src/animation.rs"), ("frame iterators", "src/codecs/gif.rs, png.rs, webp/decoder.rs"), ("GifEncoder::convert_frame", "src/codecs/gif.rs")],
     "symbolic execution of the conversions (loop summaries for the fraction search); result terms evaluated against the formats' definitions",
     "Decides the formula of each conversion on every path; equality with the definition is judged on a grid of delays. Searches longer than 120 steps are not evaluated.")

prop("C34", "Colour adjustments compute what they document within the sample range",
     "Inverting replaces every colour sample by maximum minus value; brightening adds the amount and saturates at the range of the sample type for every amount; contrast keeps samples within range, moves them away from the middle for positive and towards it for negative amounts and never reorders them; hue rotation is the CSS hue-rotate matrix limited to the sample range, and multiples of a full turn change nothing. Each pixel is computed from the pixel at its own place, and the in-place and the allocating variants agree, for every image, sample type and amount.",
     [I], "every image, pixel type and amount", "Tests adjust single 8-bit images by moderate amounts.",
     ["src/imageops/colorops.rs"],
     [("invert, brighten, contrast, huerotate and their _in_place variants", "src/imageops/colorops.rs")],
     "symbolic execution over a symbolic image (loop summaries, pixel terms); result terms evaluated against the documented formulas",
     "Decides which pixel and formula each result comes from on every path; equality of formulas is judged on a grid of values and amounts. Contrast has no documented formula and is judged by its direction, range and order; rounding of one step is allowed for contrast and hue.")

prop("C35", "Uncompressed and run-length files hold exactly the image",
     "A file written by the BMP, TGA or farbfeld encoder, read by that format's specification, shows the pixels of the image it was given, for every accepted size, colour type, option and content: header fields (sizes, offsets, depths, masks, origin) agree with the data that follows, rows are in the announced order and padded as the format demands, palettes and channel orders are right, run-length packets cover the image exactly, and nothing is missing or left over.",
     [I], "every width and height, colour type, palette, run structure and content", "Tests encode single tiny images and read them back with the crate's own decoder, which ignores many fields.",
     ["src/codecs/bmp/encoder.rs", "src/codecs/tga/encoder.rs", "src/codecs/tga/header.rs", "src/codecs/farbfeld.rs"],
     [("BmpEncoder::encode_with_palette", "src/codecs/bmp/encoder.rs"), ("TgaEncoder::encode", "src/codecs/tga/encoder.rs"), ("FarbfeldEncoder::encode", "src/codecs/farbfeld.rs")],
     "symbolic execution into a byte-stream summary (loop summaries, pixel terms); the summary's bytes decoded by an independent reading of each format's specification",
     "The summary covers every path; the bytes are compared for sizes 1..5 and beyond 256 and for run structures around the packet limit. BMP has no grey alpha: La8 is judged by its grey value.")

prop("C36", "Netpbm files hold exactly the image",
     "A file written by the PNM encoder, read by the Netpbm specification, shows the pixels of the image it was given, for every accepted size, content, subtype and encoding (plain and binary bitmap, graymap and pixmap, and arbitrary map): the header states the size, depth and maximum of the data, zero samples of a bitmap are black and all others white in both encodings, no plain line exceeds 70 characters, samples above the maximum of a chosen header are refused and samples within it are not, and an image without pixels does not make the encoder panic.",
     [I], "every width and height, subtype, encoding and content", "Tests round-trip a handful of tiny images; nothing tests plain bitmaps, chosen maxima or line breaking at the limit.",
     ["src/codecs/pnm/encoder.rs", "src/codecs/pnm/header.rs", "src/codecs/pnm/autobreak.rs"],
     [("PnmEncoder::encode", "src/codecs/pnm/encoder.rs"), ("PnmHeader::write", "src/codecs/pnm/header.rs"), ("AutoBreak", "src/codecs/pnm/autobreak.rs")],
     "symbolic execution into a byte-stream summary, format strings included (loop summaries, pixel terms); the summary's bytes decoded by an independent reading of the specification",
     "The summary covers every path of the encoder for 8-bit samples; the bytes are compared for sizes up to 258, widths around multiples of 8 and around the line limit.")

NA = "Quantifies over runtime numeric or byte-level values that no sound static argument in reach can bound: "
prop("C40", "Lossless formats reproduce every pixel exactly",
     "Encoding an image in a lossless format and decoding the result yields the same dimensions, colour type and pixels.",
     [I], "every image and every lossless codec", "Tests round-trip a few images.",
     ["src/codecs/"], [("encoder/decoder pairs", "src/codecs/*")],
     na=NA + "round-trip equality depends on compression, filtering and packing loops over arbitrary data, much of it in third-party crates. Its structural clauses are claimed separately (byte order, declared layout, complete transfers).")
prop("C41", "Decoders never panic on malformed input",
     "Whatever bytes a decoder is given, it returns an image or an error and never panics.",
     [I], "every byte string", "Fuzzing and a corpus sample inputs only.",
     ["src/codecs/"], [("checked header arithmetic", "src/codecs/*")],
     na=NA + "panic-freedom needs value ranges of every index and arithmetic operation over attacker-controlled state across several decoders and their dependencies; a sound interval analysis reports hundreds of undecidable sites.")
prop("C43", "Resampling filters keep constant images constant",
     "Resizing or blurring an image whose pixels are all equal yields that same pixel value everywhere.",
     [I], "every constant image, size and filter", "Tests use a few sizes.",
     ["src/imageops/sample.rs"], [("weight normalisation", "src/imageops/sample.rs")],
     na=NA + "it depends on floating-point normalisation of filter weights.")
prop("C45", "Decoding a region equals cropping the full decode",
     "Reading a rectangle of an image gives the same bytes as decoding everything and cutting the rectangle out.",
     [I], "every image and rectangle of decoders that support it", "Tests read a few rectangles.",
     ["src/image.rs", "src/codecs/farbfeld.rs"], [("load_rect", "src/image.rs")],
     na=NA + "equality of byte contents through a buffered scanline reader with arbitrary chunking.")
