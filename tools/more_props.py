prop("G04", "The output depends only on the graph as it is now, not on its history",
     "After any sequence of attribute changes, connections, disconnections, node removals and re-additions and executions (of any node, at any frame, successful or failing), executing a node gives exactly the status, pixels, windows, colour corrections and stream hash that a newly built graph with the same nodes, connections and attribute values gives for the same frame. With several frames the output is that of the last frame. A graph is Clean exactly after a successful execution and Dirty again after any change.",
     ["histories", "inputs"], "every sequence of edits and executions, for every pixel value",
     "Stale state only shows for particular sequences of edits and executions; the tests build and execute once.",
     ["src/graph.rs", "src/node/*.rs", "src/cache.rs"], [("cached outputs, input tables and status kept between executions", "src/graph.rs")],
     "Differential: the edited graph against a fresh one, for all sequences of the stated length; hashing idealised.")
prop("K01", "Caching never changes what a graph outputs",
     "For every graph, the output of an execution (pixels, pixel data type, windows, image specification, remaining colour corrections and deformations, stream hash, node status) with a cache of any capacity and any earlier contents, and any use_cache setting, is the output of the same graph without a cache: changing any attribute of any upstream node, an input connection or the frame and changing it back never yields an image cached for other settings.",
     ["histories", "inputs", "configurations"], "every node type that uses the cache, every attribute change, any cache capacity, any pixel values",
     "A missing term in a node's hash is only visible for two specific attribute values with a cache hit between them.",
     ["src/node/*.rs", "src/node.rs", "src/cache.rs", "src/hashutils.rs"], [("generate_hash / attr_hash and the cache branches of compute", "src/node.rs, src/node/*.rs")],
     "A-B-A runs over one shared cache compared with uncached fresh graphs; equal hashes only for equal hashed bytes.")
prop("I01", "Crop keeps exactly the pixels inside the crop window, in place",
     "A crop node outputs an image whose data window is the crop window (empty when its maximum is not above its minimum; one pixel wider on every side with black_outside on) and where every pixel inside both the crop window and the input's data window is the input's pixel at the same coordinates, and every other pixel is zero in every channel. The display window is the input's, or the crop window when reformat is on. Cropping to the display window by a viewer (crop_to_format) or a write node (crop_on_write) keeps pixels in place in the same way, for every pixel data type. No window position or size panics or reads outside the input.",
     ["inputs", "configurations"], "every crop window and data window position within the bound, every pixel value and channel count",
     "Off-by-one and overlap errors only show for particular relative positions of the two windows; the tests crop one image once and do not look at pixels.",
     ["src/node/crop_image.rs", "src/ops/imagecrop.rs"], [("canvas copy and window arithmetic", "src/ops/imagecrop.rs"), ("attributes to windows", "src/node/crop_image.rs")],
     "Symbolic windows and pixels compared with a per-coordinate reference.")
prop("A01", "Attributes keep exactly the value last set, and only their own",
     "For every node type, an attribute the node has reports as existing and reads back exactly the value last written through the setter of its own type (bit for bit for numbers); setting it changes no other attribute of that or any other node; setters and getters for unknown attribute names, for another type, or for unknown or removed nodes change nothing and read as 0 or empty text.",
     ["inputs", "histories"], "every node type and attribute name, every value, any sequence of the stated number of sets",
     "There are some 90 attributes with hand-written dispatch; the tests set a few of them and read none back.",
     ["src/node/*.rs", "src/graph.rs", "src/attr.rs"], [("AttrBlock implementations", "src/node/*.rs"), ("set_node_attr_* / get_node_attr_*", "src/graph.rs")],
     "All attribute pairs by choice, all values symbolic.")
prop("S01", "Frame padding in file paths expands to exactly the executed frame",
     "The file a read or write node opens for a frame is its file path with the first run of '#' replaced by the frame, rounded to the nearest whole number and written in decimal, padded with zeros (after the sign) to the run's length; every other character is kept, and a path without '#' is used as it is. This holds for every frame number and every padding length, no path panics, and the attribute itself is unchanged. A stream's hash follows the frame exactly when the expanded path does.",
     ["inputs"], "every path within the length bound, every frame number within the bound, every padding length within the bound",
     "The tests expand a few fixed strings at one frame.",
     ["src/pathutils.rs", "src/node/read_image.rs", "src/node/write_image.rs"], [("expand_string", "src/pathutils.rs"), ("path use in compute", "src/node/read_image.rs, src/node/write_image.rs")],
     "Symbolic path characters and frame numbers; the file name is observed at the stand-in for the image library.")
prop("O01", "A grade maps every channel by its formula, in node order, and can be undone",
     "Every processed channel of every pixel of a graded image is ((a*p + b)^(1/gamma))*m + p*(1-m) with a = multiply*(gain-lift)/(white_point-black_point), b = offset+lift-a*black_point and m = process*mix, with that channel's own parameters; single-channel images use the alpha parameters. A reversed grade undoes the gamma and then the linear part, so that a grade followed by its reverse gives back the input where the formula can be inverted. Several grades act in the order of the graph, upstream first; a grade that is disabled or processes no channel changes nothing; and grades baked into pixels give the same values as grades applied to colours later.",
     ["inputs", "configurations"], "every value of all 28 channel parameters, mix, process and enable, and every pixel value",
     "A swapped or dropped parameter of one channel only shows for non-default values of exactly that parameter; the tests never look at graded pixels.",
     ["src/node/grade.rs", "src/colorop/colorgrade.rs", "src/ops/colorgrade.rs", "src/coloroputils.rs", "src/ops/bake.rs"], [("formula", "src/ops/colorgrade.rs"), ("parameters to operator", "src/node/grade.rs"), ("order of operators", "src/coloroputils.rs")],
     "All parameters and pixels symbolic, bit-exact against the formula; powf is uninterpreted.")
prop("D01", "Deformations act in node order, and baking them moves pixels accordingly",
     "The pending deformations of a stream move a position (x, y), leaving other components, through every enabled transform and lens-distort node from upstream to downstream: a transform scales and rotates about its centres and pivot and translates by its translation relative to the window size (invert gives the inverse map); a lens-distort node passes exactly its own lens parameters and direction to the lens model. Nodes that are disabled change nothing. Baking deformations into pixels gives every output pixel the source pixel nearest to where its centre comes from - the inverse of each deformation, last one first - and zero where that lies outside the image, keeping windows and channels; a neutral deformation leaves every pixel where it is, for any position and size of the data window.",
     ["inputs", "configurations"], "every transform parameter and position within the bound, every order of nodes, every window position and pixel value within the bound",
     "Sign, order and pivot errors cancel for the default parameters that the tests use.",
     ["src/node/transform.rs", "src/node/lens_distort.rs", "src/deformer/*.rs", "src/deformutils.rs", "src/ops/pixelremap.rs", "src/ops/bake.rs", "src/math/xform.rs"], [("transform matrix", "src/deformer/transform.rs, src/math/xform.rs"), ("order of deformers", "src/deformutils.rs"), ("pixel lookup", "src/ops/pixelremap.rs")],
     "The lens library (C++) is a recording stand-in; sin and cos are uninterpreted.")
prop("F01", "A viewer bakes exactly what its options say and hands out exactly those pixels",
     "With bake_option 0 (or disabled) a viewer's output is its input. With 1 the pixels are converted from the image's colour space to bake_color_space and pending colour corrections stay pending; with 2 and 3 pending corrections are applied in Linear in between (3: deformations too) and nothing stays pending that was applied. The result has the requested pixel data type (the image's own when unspecified), the image's windows, channels and specification (gamma, pixel aspect, orientation, alpha, dither) with the new colour space; crop_to_format bakes everything and crops to the display window. A colour space conversion the library refuses leaves the pixels, and with option 1 the colour space name, as they were. The pixel buffer handed to C++ is exactly the bytes of the pixels, row by row, for every pixel data type.",
     ["inputs", "configurations"], "every option, pair of colour spaces, pair of pixel data types and image specification, every pixel value within the bound",
     "The combinations (4 options, 4x5 types, colour space pairs) are never looked at pixel by pixel by the tests.",
     ["src/node/viewer.rs", "src/ops/bake.rs", "src/stream.rs", "src/colorspace.rs", "src/pixelblock/*.rs"], [("bake_option dispatch", "src/node/viewer.rs"), ("do_process", "src/ops/bake.rs"), ("pixel_buffer", "src/stream.rs")],
     "Colour conversion (C++) is a recording stand-in scaling each colour space differently.")
prop("W01", "A write node writes exactly its input's pixels, baked as it says, once per frame",
     "Executing a graph that ends in an enabled write node with execute on writes, for every frame in order, exactly one file: its path for that frame, its pixels the input's with every pending colour correction and deformation applied, cropped to the display window when crop_on_write says so (Auto: unless the file is .exr), converted to sRGB for JPEG and PNG files and to Linear for all others, in the requested pixel data type (the image's own when unspecified), with the input's windows, channels and image specification (under the new colour space) and exactly the node's own compression settings. Its output is its input, unchanged. Nothing is written with execute off, when disabled, or without an input; writing leaves the image library's thread count as it was and works the same through chained write nodes.",
     ["inputs", "configurations", "histories"], "every file extension listed, every option value, pixel data type, colour space, specification and compression setting, every pixel value within the bound",
     "The tests write a few files and never compare the written pixels or settings.",
     ["src/node/write_image.rs", "src/imageio.rs", "src/ops/bake.rs", "src/ops/imagecrop.rs"], [("compute", "src/node/write_image.rs"), ("write arguments", "src/imageio.rs")],
     "The image library (C++) is a recording stand-in; colour conversion scales each colour space differently.")
prop("R01", "A read node outputs exactly what the file holds, or colour bars and a warning",
     "A read node outputs exactly the image in its file: pixels bit for bit, pixel data type, channels, data and display windows and image specification, with nothing pending. When the file is missing or a directory, or the node is disabled, nothing is read, the output is the placeholder and the node's status is Warning; once the file exists a later execution reads it. With caching on, an already read file is not read again while its image is cached; with caching off every execution reads it. Several read nodes and frames each get their own file. Reading leaves the image library's thread count as it was.",
     ["inputs", "histories", "fault_sequences"], "every image within the size bound, pixel data type and specification, every sequence of executions and file appearances within the bound",
     "The tests read a few fixed files once and do not look at the pixels.",
     ["src/node/read_image.rs", "src/imageio.rs"], [("compute", "src/node/read_image.rs"), ("read_image", "src/imageio.rs")],
     "The image library (C++) and file queries are stand-ins.")
prop("K02", "Streams with the same hash have the same output",
     "For each node type, two configurations of the node and its input that differ in any attribute values, and that give the same output stream hash, give the same output: windows, pixels, pixel data type, specification, remaining colour corrections and deformations. So the stream hash a user or the viewer keys on can never serve one configuration the image of another.",
     ["inputs", "configurations"], "every pair of attribute settings of each node type, compared through the bytes fed to the hasher",
     "A hash that leaves out one attribute needs two settings that differ in exactly that attribute.",
     ["src/node/*.rs", "src/node.rs", "src/hashutils.rs", "src/attr.rs"], [("attr_hash, generate_hash, HashableF32", "src/node/*.rs, src/hashutils.rs")],
     "Hashing is idealised as injective over the bytes written to the hasher; the check is over those bytes for two symbolic configurations.")

prop("X01", "Pixel storage converts, indexes and resizes without mixing up values",
     "Converting pixels to another pixel data type converts every value on its own, in place, keeping width, height and channels: integers span 0 to 1 linearly, values below 0 or above 1 become the smallest or largest integer and NaN becomes 0, half floats widen exactly, and 8-bit to 16-bit or float and back, and 16-bit to float and back, give the same values. New pixels are zero; resizing keeps the leading values and fills up with 1.0. A position's index and an index's position are each other's inverse and positions outside are -1; a row is exactly its pixels. The overlap and the combination of two windows hold exactly the points in both, or are the smallest window around both. Changing the pixels of one stream never changes those of another sharing them.",
     ["inputs", "configurations"], "every pixel value in every data type, every position and window within the bound",
     "Conversion and indexing errors show for single values (ends, NaN, odd sizes); the tests look at a few.",
     ["src/pixelblock/*.rs", "src/bbox/bbox2di.rs", "src/stream.rs"], [("conversions", "src/pixelblock/datablock.rs, src/pixelblock/utils.rs"), ("indexing, resizing", "src/pixelblock/pixelblock.rs, src/pixelblock/blocksize.rs"), ("window arithmetic", "src/bbox/bbox2di.rs")],
     "All values of 8, 16 and 32 bits symbolic; lossless conversions decided for every value.")
prop("N01", "Disabled nodes are as if they were not there",
     "A null node, and a grade, transform, lens-distort, crop, resample or viewer node whose enable is anything but 1, passes its input through: pixels, windows, specification and pending colour corrections and deformations, with status Valid; anywhere in a chain the result is that of the chain without the node. Grade, transform and lens-distort nodes with default values, and write nodes that do not execute, leave pixels, windows and specification as they are. A disabled node without input, and a disabled merge node, gives the placeholder image and status Warning (viewer and write: Valid).",
     ["inputs", "configurations"], "every node type at every place of a chain, every enable value, every pixel value",
     "The tests never disable a node.",
     ["src/node/*.rs", "src/graph.rs"], [("enable branches of compute", "src/node/*.rs")],
     "Differential: the chain with the disabled node against the chain without it.")
prop("M01", "The plane mesh is a regular grid covered exactly once",
     "For any size, centre and divisions of at least 2, the plane's vertices lie row by row on a regular grid from -size/2 to size/2 less the centre with z 0, and their texture coordinates run from 0 to 1 across and from 1 to 0 down. The triangles cover every cell by exactly two triangles of the same orientation, the border lines are every outer edge once, and the wire lines are the four edges of every cell. Each buffer size is exactly what the matching fill call writes; the rest of a larger buffer is untouched. Getters return what was set.",
     ["inputs", "configurations"], "every number of divisions within the bound, every size and centre",
     "There are no tests of the mesh.",
     ["src/geom/plane.rs", "src/math/interp.rs"], [("fill_buffer_*, calc_buffer_size_*", "src/geom/plane.rs")],
     "Symbolic sizes and centres for every grid within the bound.")
prop("L01", "Lookup tables hold the conversion of each of their own entries",
     "A lookup table for a colour space conversion or for a stream's pending colour corrections has n*n by n pixels of 3 channels (n by 1 by 1 for a one-dimensional table), and the entry for (r, g, b) is exactly the conversion or the corrections, in order, applied to (r, g, b)/(n-1), in 32-bit floats and marked with the resulting colour space. A table served from the cache is the one that would be computed without it: tables of different colour spaces, sizes, kinds or corrections are never mixed up, with each other or with images of a graph.",
     ["inputs", "histories", "configurations"], "every table size within the bound, colour space pair, correction parameter and sequence of requests over one cache",
     "The tests do not look at table entries, and cache mix-ups need two requests with confusable keys.",
     ["src/colorlutimage.rs", "src/colorspace.rs", "src/coloroputils.rs", "src/cache.rs"], [("table contents and cache keys", "src/colorlutimage.rs")],
     "Colour conversion (C++) is a stand-in scaling each colour space differently; hashing idealised.")
prop("P01", "The configured cache capacity is the stated share of the memory",
     "The cache capacity of a configuration is the configured percentage, limited to 0 to 100, of the system's memory (NaN counts as 0), whatever the other settings; without a configuration file it is 0. A cache made with it has exactly that capacity and starts empty.",
     ["configurations", "inputs"], "every configured percentage and every memory size within the bound",
     "The tests do not configure a capacity.",
     ["src/config.rs", "src/cache.rs"], [("cache_ram_capacity_bytes", "src/config.rs")],
     "The parsed configuration values are symbolic; YAML parsing and environment variables are outside.")
prop("B01", "Merging and cropping work on finished pixels",
     "A merge or crop node first finishes each of its inputs on its own: converts it from its own colour space to Linear, applies its pending colour corrections and then its pending deformations, as 32-bit floats whatever the pixel data type; only then it merges or crops. Its output has the colour space Linear and nothing left pending, so that a later node never converts or corrects the same pixels again, also when the result comes from the cache; a crop keeps the rest of its input's specification.",
     ["inputs", "configurations"], "every pixel value, every pair of colour spaces, pending corrections and deformations on either input, every merge mode, with and without the cache",
     "The tests merge and crop images without looking at the pixels, and inputs in different colour spaces do not occur.",
     ["src/node/merge_image.rs", "src/node/crop_image.rs", "src/ops/bake.rs"], [("do_image_process", "src/node/merge_image.rs, src/node/crop_image.rs"), ("do_process (BakeOption::All)", "src/ops/bake.rs")],
     "Bit-exact comparison with a reference over symbolic pixels; deformations also differentially against inputs finished by a viewer. Colour conversion (C++) is a stand-in.")
prop("T01", "Resampling hands over exactly its input and takes over exactly the result",
     "An enabled resample node with a factor other than 0 gives the image library exactly its input's pixels, pixel data type, windows and specification, its factor and whether to interpolate, and outputs the library's pixels and windows with the input's specification and pending corrections and deformations; with the cache enabled the library is asked once per setting and every setting gets its own result. When the library fails, the node's status and the execution's are Error, nothing is cached, and the next execution asks again. With factor 0 or disabled the node passes its input on without asking.",
     ["inputs", "configurations", "fault_sequences"], "every pixel value, factor, interpolate and use_cache value, every outcome of the library, sequences of settings over one cache",
     "The tests resample one fixed image that the library handles.",
     ["src/node/resample_image.rs", "src/ops/imageresample.rs"], [("compute, do_image_process", "src/node/resample_image.rs")],
     "The resampling itself (C++) is a stand-in with every outcome; all attribute values symbolic.")
