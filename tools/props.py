# Single source for properties.jsonl, MANIFEST.json and the per-property section of DESIGN.md (tools/gen.py).
PROPS=[]
NA=[]
def P(id,title,statement,qtext,why,files,mech,design,note,over=('inputs',)):
    PROPS.append(dict(id=id,title=title,statement=statement,qtext=qtext,why=why,files=files,mech=mech,design=design,note=note,over=list(over)))
def N(id,title,statement,qtext,why,files,mech,reason,over=('inputs',)):
    NA.append(dict(id=id,title=title,statement=statement,qtext=qtext,why=why,files=files,mech=mech,reason=reason,over=list(over)))

P('C01','Binary RIB tokens decode to the values the RI specification encodes',
  'For every binary-encoded RIB token (integers, fixed point, 32/64-bit floats, short and long strings, float arrays, encoded requests and strings), reading the stream yields exactly the value the RenderMan binary encoding defines, consuming exactly the bytes of that encoding. Encoded request and string codes resolve to their latest definition, and undefined codes or reserved bytes give an error token without disturbing the tokens that follow.',
  'every payload byte value for every opcode; string/array lengths for which the loop is unrolled are stated as bounds, the length field itself is arbitrary',
  'unit tests decode a dozen fixed byte strings; the payload space is 2^8..2^64 per opcode',
  ['libs/riutil/ribtokenizer.cpp','libs/riutil/ribinputbuffer.h'],[('scanNext and the decode* helpers','libs/riutil/ribtokenizer.cpp'),('character buffer','libs/riutil/ribinputbuffer.cpp')],
  'Contracts on RibTokenizer::get through the whole real call tree (scanNext, decodeInt, decodeFixedPoint, decodeFloat32/64, decodeString, lookupEncoded*, RibInputBuffer, std::string/map/vector). Payload bytes are universally quantified bit-vectors; the postcondition is the RISpec C.2 formula, checked bit for bit in IEEE arithmetic; a sentinel token after each encoding shows that exactly its bytes were consumed. The float-array element loop is proved by an inductive step from an arbitrary remaining count.',
  'All payloads of every opcode; string lengths 0..15 complete, long strings and float arrays bounded as stated in evidence; std::istream contract assumed.')
P('C02','ASCII RIB text is split into exactly the tokens written',
  'Reading ASCII RIB text yields, in order, one token per number, quoted string, bracket or request word written: integers have their decimal value, reals their decimal value to float accuracy, strings their characters with the documented escape and line-end rules, and request names run up to the next delimiter. Whitespace and comments never become tokens, malformed numbers and unterminated strings give error tokens, end of input gives end-of-file tokens; peeking, putting a token back and reading a nested input never change the token sequence.',
  'all characters at every symbolic position, all digit strings up to the stated length, all interleavings of peek/get/unget and push/pop of an input',
  'tests tokenise a few fixed strings',
  ['libs/riutil/ribtokenizer.cpp','libs/riutil/ribtokenizer.h'],[('readNumber, readString, readRequest, readComment','libs/riutil/ribtokenizer.cpp'),('pushInput/popInput state save','libs/riutil/ribtokenizer.cpp')],
  'Contracts on RibTokenizer get/peek/unget/pushInput/popInput over symbolic characters; decimal reals are proved over real arithmetic with a float-accuracy tolerance, integers over 32-bit arithmetic.',
  'Token bodies bounded as stated (string and name lengths, digit counts); std::istream contract assumed.')
P('C03','RIB characters arrive in order with correct line and column positions',
  'Whatever way the underlying stream delivers its bytes, RIB input returns every character exactly once, in order, followed by end-of-file forever. Putting the last character back makes it readable again and restores the source position. The reported line and column always follow the characters read, with \\n, \\r and \\r\\n each ending one line, also across internal buffer boundaries.',
  'all buffer states, all characters, all read chunkings',
  'tests read short streams that never cross the internal buffer boundary',
  ['libs/riutil/ribinputbuffer.cpp','libs/riutil/ribinputbuffer.h'],[('RibInputBuffer::get/unget/bufferNextChars','libs/riutil/ribinputbuffer.{h,cpp}')],
  'Representation invariant of RibInputBuffer (last two characters stay in the buffer, indices in range) and an inductive step contract: from any state satisfying it get()/unget() return the next abstract character and re-establish it; public-API contracts run whole streams across the 256-byte boundary. Found and fixed a genuine defect (wrap lost the look-back character).',
  'Inductive step over all buffer states (refill levels: all in thorough, 11 in quick); std::istream contract assumed; gzip input outside.',over=('inputs','schedules'))
P('C04','Typed RIB reads return the tokens written or fail without losing requests',
  'Reading an integer, float, string, array or parameter value from a RIB stream returns exactly the values written (integers are accepted as floats, a bare value as a one-element array, fixed-length float arrays only with the exact length), and anything else raises a parse error. After an error the next request or end of file is still available, and error recovery skips no further than the next request. Values returned for one request stay intact until the next request is read.',
  'all token type sequences up to the stated length with arbitrary values',
  'tests read a few fixed streams',
  ['libs/riutil/riblexer.cpp','libs/riutil/riblexer_impl.h','libs/riutil/multistringbuffer.h'],[('RibLexerImpl get*','libs/riutil/riblexer.cpp'),('buffer pools','libs/riutil/riblexer_impl.h')],
  'Contracts on each RibLexerImpl reader over token streams with symbolic values: exact value on acceptance, exception exactly when the types do not match, stream position afterwards, and non-interference of buffers handed out for the same request.',
  'Array lengths bounded as stated; error message text outside.',over=('inputs','histories'))

P('C05','The RI validator passes on exactly the valid requests, unchanged',
  'With validation enabled, every RI request made in a scope the RI allows, with arguments in their documented ranges, arrays and primitive variables at least as long as the RI requires and P or Pw present where required, reaches the renderer exactly once with its arguments unchanged; every other request is rejected with a validation error and has no effect on the renderer. Blocks close only with their own end request and restore the enclosing scope and basis steps; inside an inline archive any partial block structure is accepted.',
  'all 108 requests in all scopes, all argument values, all array lengths; block nesting up to the stated depth',
  'there is no unit test of the validator; the request/scope/argument space is unbounded',
  ['libs/riutil/ricxx_validate.cpp','include/aqsis/riutil/ricxxutil.h'],[('checkScope/pushScope/popScope','libs/riutil/ricxx_validate.cpp'),('checkArraySize, checkParamListArraySizes','libs/riutil/ricxx_validate.cpp'),('interpolation class counts','include/aqsis/riutil/ricxxutil.h')],
  'Contracts on the filter returned by createValidateFilter, over every request method: acceptance is equivalent to the conjunction of the scope rule, the range rule and the array/primvar length rules of the RI; a recording renderer behind the filter shows the call is passed on once and bit for bit, or not at all. Found and fixed a genuine defect (NuPatch uniform primvar count).',
  'Oracle tables committed (generated once from ri.xml); nesting depth and summed array lengths bounded as stated; logging stubbed.',over=('inputs','histories'))

P('C06','RI filters, archives and conditionals execute exactly the right requests',
  'A pass-through, tee or frame-drop filter passes on exactly the requests it should, each once and with unchanged arguments. Requests inside an inline archive or object definition are not executed when defined; each instance replays them in order with the argument values they had when recorded, a redefinition replaces the old contents, names that are not defined go on to the renderer (archives) or are an error (objects). In IfBegin/ElseIf/Else/IfEnd blocks exactly the requests of the first true clause at every nesting level are executed, and misplaced conditional requests are ignored.',
  'all 108 requests with arbitrary arguments; conditional sequences up to the stated length',
  'no unit test of the filters; conditionals need nested sequences and replays need argument lifetimes',
  ['libs/riutil/renderutil_filter.cpp','libs/riutil/ricxx_cache.h','libs/riutil/tee_filter.cpp','libs/riutil/framedrop_filter.cpp','libs/riutil/ricxx_filter.cpp'],[('RenderUtilFilter','libs/riutil/renderutil_filter.cpp'),('CachedRiStream and RiCache classes','libs/riutil/ricxx_cache.h'),('TeeFilter','libs/riutil/tee_filter.cpp'),('FrameDropFilter','libs/riutil/framedrop_filter.cpp')],
  'Contracts on every request method of each filter with arbitrary arguments, against a recording renderer: same call, once, bit for bit. The archive/object contract overwrites every argument buffer between recording and replay, so a shallow copy fails. The conditional contract compares each request with the RI clause rule along every well nested sequence. Found and fixed three genuine defects (nested conditionals, stray Else, self-redefining archive).',
  'Array arguments of length 2 and one parameter of each storage type in the all-request contracts; conditional sequences bounded as stated.',over=('inputs','histories'))

P('C07','Every RIB request reaches the renderer as the same RI call',
  'Parsing a RIB stream makes, for each request written, exactly one RI call with the same name, the same argument values in the same order and the same parameter list (names, storage types, values and counts), in stream order. Alternative argument forms (basis names or matrices, bounds and quadrics with scalar or array arguments, object and light handles as numbers or strings) give the same call. Comments are delivered as archive records in order, a request that cannot be parsed is reported and skipped without affecting the requests after it, and nested streams are parsed completely before the outer one continues.',
  'every request with arbitrary argument values; one array shape per argument as stated',
  'tests parse a handful of requests with fixed arguments',
  ['libs/riutil/ribparser.cpp','libs/riutil/ribparser_impl.h','libs/riutil/riblexer.cpp'],[('RibParser::parseNextRequest and the handle* methods','libs/riutil/ribparser.cpp'),('readParamList, ParamAccumulator','libs/riutil/ribparser_impl.h')],
  'Contracts on RibParser::parseStream for all 108 requests: the stream is written by a specification-side writer in RIB argument order with arbitrary values, and the recorded call must equal the intended one bit for bit; truncated requests, alternative forms, comments and nested streams have their own contracts. Found and fixed a genuine defect (parameter names dangled when a parameter list grew).',
  'Array shapes bounded as stated; std::istream contract assumed.',over=('inputs','histories'))
P('C08','RIB written by the RIB writer reads back as the same RI calls',
  'Any sequence of RI calls written to a RIB stream, in binary or ASCII form, and parsed again gives the same calls in the same order: the same arguments (binary exactly; ASCII numbers to float reading accuracy), parameter names, classes, types, array sizes and values, comments and verbatim text, and filter, error and procedural functions by their registered names. Inline declarations are written exactly when a parameter is not declared with that type, and standard bases are written by name with the values the RI defines.',
  'every request with arbitrary numeric arguments; every class/type/array-size declaration; strings and arrays of the stated lengths',
  'there is no test that reads written RIB back',
  ['libs/riutil/ribwriter.cpp','libs/riutil/tokendictionary.cpp','libs/riutil/primvartoken.cpp','include/aqsis/util/enum.h'],[('RibWriter<Formatter>, BinaryFormatter, AsciiFormatter, printParamList','libs/riutil/ribwriter.cpp'),('TokenDict::lookup/declare','libs/riutil/tokendictionary.cpp')],
  'Contracts on the object returned by createRibWriter composed with the real RIB parser: for every request method and arbitrary argument bits the recorded calls after write and parse equal the calls made. Declarations are covered for all 6 classes x 9 types x 3 array sizes, declared, redeclared and undeclared; strings and arrays around every encoding boundary. Found and fixed a genuine defect (inline declarations were printed from freed memory). Escaped characters in ASCII strings are a recorded finding.',
  'Argument array shapes and string lengths bounded as stated; ASCII numbers proved for fixed values and cross-checked natively; std::ostream contract assumed; gzip and archive interpolation outside.',over=('inputs','histories'))

P('C09','Transformations compose, invert and apply exactly as linear algebra says',
  'For all 4x4 transformations, however built and whether or not internally marked as identity: products, in-place products (also of a matrix with itself), sums, scalar multiples, transposes, determinants and comparisons are those of the matrices\' elements; transforming a point by a product equals transforming by its factors in turn, with the perspective divide; a matrix times its inverse is the identity. Scale, translate, shear, rotate and skew apply the RI-defined transformation after the current one, normal transformations keep normals perpendicular to transformed surfaces, and the 2D matrices used for texture filtering invert and diagonalise correctly.',
  'all real matrices (every pivot order of the inverse), angles and vectors',
  'tests check a few numeric examples; identity-flag shortcuts, aliasing and pivot orders are not sampled',
  ['libs/math/matrix.cpp','include/aqsis/math/matrix.h','include/aqsis/math/matrix2d.h','include/aqsis/math/vector3d.h'],[('CqMatrix operators, PreMultiply, Inverse, Determinant, Rotate, skew constructor, isClose','libs/math/matrix.cpp'),('inline operators and identity flag','include/aqsis/math/matrix.h'),('SqMatrix2D','include/aqsis/math/matrix2d.h')],
  'Contracts on every CqMatrix/SqMatrix2D operation over real arithmetic, each operand either general or flagged identity; Inverse is proved along every pivot sequence by rational-function normal forms; eigenvalues/diagonalisation by normal forms modulo the square-root relations. Found and fixed four genuine defects (isClose dropped its tolerance, scalar times flagged identity, A*=A, skew of non-perpendicular axes).',
  'Floats treated as reals (rounding cross-checked natively); pivots of the inverse assumed non-zero (regular matrix); the skew angle itself is checked natively only.')
P('C10','Bounds contain what they bound and culling never hides a visible sample',
  'A bounding box grown by a point or by another box contains both and nothing is ever lost from it; a transformed box contains the image of every point it contained; intersection, containment and crossing queries and the splitting of a bound around a plane answer exactly as for the boxes\' point sets; combined bound lists cover every piece. The occlusion hierarchy reports that a surface may be discarded only if every sample position of the bucket which its bound can touch is already covered by something nearer, for every bucket size, every sequence of depth updates and every bound.',
  'all boxes, points and transformations (real arithmetic); for the occlusion tree every rectangle against fixed depths and every depths against fixed rectangles over a table of bucket sizes',
  'tests do not exercise the culling at all; a missed corner or a wrong leaf removes visible geometry only for particular bucket shapes and depth orders',
  ['libs/core/bound.cpp','libs/core/bound.h','libs/core/occlusion.cpp','libs/core/occlusion.h'],[('CqBound Encapsulate, Transform, Intersects, Contains2D, WhichSideOfPlane, CqBoundList','libs/core/bound.cpp'),('CqOcclusionTree setupTree, updateDepths, propagateDepths, canCull','libs/core/occlusion.cpp')],
  'Box contracts are postconditions over all real boxes and points. For the occlusion tree the contract is the quantified one: canCull(b) implies for each sample in the (conservatively rounded) rectangle of b, its depth is nearer than b.min; proved by exhaustive symbolic paths through the real traversal, for the table of bucket sizes.',
  'Floats treated as reals in the box contracts; occlusion bucket sizes are a finite table (bounded in that dimension).')
P('C11','Every pixel sample composites its hits front to back in depth order',
  'Whatever surfaces cover a pixel sample and in whatever order they arrive, the sample\'s final colour and opacity are those of the hits sorted by depth and composited with the over operator; matte hits hold out what is behind them in proportion to their opacity and add nothing themselves; hits behind an opaque one do not contribute. The stored depth obeys the selected depth filter (min, max, average, midpoint) over the opaque hits; a cleared sample has no remains of earlier hits, and sample storage handed out to hits never overlaps.',
  'all colours, opacities and depths; up to 3 hits, every arrival order, matte pattern and depth filter',
  'tests render nothing; ordering, matte and depth-filter interaction cannot be sampled exhaustively',
  ['libs/core/imagepixel.cpp','libs/core/imagepixel.h','libs/core/isampler.h'],[('CqImagePixel::Combine','libs/core/imagepixel.cpp'),('SqSampleData, sample storage, clear, pixel pool','libs/core/imagepixel.h')],
  'Contract on CqImagePixel::Combine over real arithmetic: result equals the mathematical over-composite fold of the hits in depth order. Sorting, opaque truncation and matte handling run on the real code for every ordering of symbolic depths. Found and fixed two genuine defects (matte attenuation of the opacity behind, average depth filter).',
  'Number of hits per sample bounded by 3 (4 in thorough); floats treated as reals.')
P('C12','Solid-modelling operations keep exactly the surfaces of the combined solid',
  'For primitives combined by union, intersection and difference, in any nesting, a ray from outside all solids keeps exactly those surface crossings at which the ray enters or leaves the combined solid; surfaces that belong to no solid are kept as they are, hits of different CSG trees do not affect each other, and the order in which hits arrive does not matter.',
  'every sequence of crossings along the ray, for trees of up to 3 solids in every operator combination',
  'no test covers CSG; correctness depends on every interleaving of entries and exits along a ray',
  ['libs/core/csgtree.cpp','libs/core/csgtree.h','libs/core/imagepixel.cpp'],[('CqCSGTreeNode::ProcessTree/ProcessSampleList and the operator nodes EvaluateState','libs/core/csgtree.cpp')],
  'Contract: the surviving hits are the boundary crossings of the boolean combination of the per-solid inside states; proved along all paths through ProcessTree for enumerated operator trees with symbolic wall ownership, directly and through CqImagePixel::Combine.',
  'Trees of at most 3 solids and 4 walls (5 in thorough); camera-inside-a-solid detection is dead code in the original (condition Primitive && Union) and is not claimed.')
P('C13','Micropolygons cover exactly the samples inside them, seamlessly',
  'A micropolygon is hit at every sample position strictly inside its outline and missed at every position strictly outside, whichever way it winds and whichever edge is tested first; neighbouring micropolygons that share an edge cover each sample position on it exactly once, so a mesh has neither cracks nor doubled samples; micropolygons collapsed to triangles are handled alike. The depth at a hit is interpolated from the corner depths, with smooth shading colours are interpolated and with flat shading taken from the first corner, and the bound of a micropolygon contains it.',
  'all convex micropolygons and sample positions over the reals, both windings, all start edges and degenerate corners',
  'no test covers sampling; cracks appear only at positions exactly on shared edges',
  ['libs/core/micropolygon.cpp','libs/core/micropolygon.h','libs/core/bilinear.h'],[('CqMicroPolygon::fContains, Sample, CacheHitTestValues, ComputeVertexOrder, CalculateBound, InterpolateOutputs','libs/core/micropolygon.cpp'),('CqInvBilinear','libs/core/bilinear.h')],
  'Contracts over real arithmetic on the real hit-test functions with a stub grid supplying symbolic corners; the shared-edge clause is a relational contract over two micropolygons with opposite edges; depth interpolation is proved on parallelograms (where inverse bilinear is linear).',
  'Floats treated as reals; interpolation parameter of general quadrilaterals is checked natively only.')
P('C14','Image channels are converted, laid out, copied and composited faithfully',
  'Converting image data between floating point and 8, 16 or 32 bit channels gives the nearest level, clamps what is out of range, keeps black black and white white, and returns every 8 and 16 bit level unchanged after a round trip. The channels of an image are packed without gaps or overlap, are found by name, and reordering puts red, green, blue and alpha first without losing or retyping any channel. Copying or compositing one image onto another at any offset changes exactly the overlapping pixels of the corresponding channels: copied pixels equal the source, composited pixels are source plus (1 - source alpha) times the old value. Clearing, checkerboard, zoomed and constant sources fill every pixel as documented.',
  'every pixel value, channel type and channel order; image sizes up to three by three at every relative offset',
  'tests convert a few values and copy one region; off-by-one offsets and extreme levels are not sampled',
  ['libs/tex/buffers/imagechannel.cpp','libs/tex/buffers/imagechannel.h','libs/tex/buffers/mixedimagebuffer.cpp','include/aqsis/tex/buffers/channellist.h','include/aqsis/tex/buffers/channelinfo.h'],[('CqImageChannelTyped convertToFloat/convertFromFloat, copyFrom, compositeOver','libs/tex/buffers/imagechannel.h'),('CqMixedImageBuffer copyFrom, compositeOver, clearBuffer, initToCheckerboard','libs/tex/buffers/mixedimagebuffer.cpp'),('CqChannelList addChannel, reorderChannels','libs/tex/buffers/channellist.cpp')],
  'Postconditions on the real channel and buffer classes: quantisation over real arithmetic (float to integer conversion translated exactly to linear integer arithmetic), the ends of the range and all 8 bit values in exact machine arithmetic, layout for all type combinations, region operations pixel by pixel including the frame (pixels outside the overlap unchanged). Found and fixed one genuine defect (32 bit white wrapped to zero).',
  'Region sizes bounded by 3x3; quantisation of 16/32 bit values treats float products as reals.')
P('C15','Texture filtering reads each pixel once, wrapped as asked and rightly weighted',
  'Filtering a texture over a region uses every pixel position of the region exactly once. Positions outside the texture get black, the pixel a whole number of textures away, or the nearest edge pixel, according to the wrap mode of each direction, in every combination of modes and whether or not the texture is stored in tiles; random sampling takes exactly the requested number of samples, all inside the region. The result is the weighted mean of those pixels for the requested channels, with missing channels filled; shadow lookups give the weighted fraction of the region further from the light than the map plus bias, against the plane of the surface. The elliptical filter gives every point the weight of its quadratic form, at every mipmap level the same weight as at the corresponding point of the base texture, and nothing outside the reported support has a weight. Sample regions scale about their centre and wrap by whole textures in periodic directions only. Mipmap levels have half the size, rounded up, their pixels being the weighted means of the pixels around them, and stored pixels are quantised to the nearest level.',
  'all weights, depths, biases, colours and filter shapes (real arithmetic); texture sizes and regions from the stated tables',
  'tests sample one texture buffer shape and no wrap combination; seams and shifted lookups appear only for particular sizes, regions and mode combinations',
  ['include/aqsis/tex/buffers/texturebuffer.h','include/aqsis/tex/buffers/tilearray.h','include/aqsis/tex/buffers/filtersupport.h','include/aqsis/tex/filtering/filtertexture.h','include/aqsis/tex/filtering/sampleaccum.h','include/aqsis/tex/filtering/samplequad.h','libs/tex/filtering/ewafilter.cpp','libs/tex/filtering/ewafilter.h','libs/tex/filtering/mipmap.h','libs/tex/filtering/depthapprox.h','libs/tex/filtering/cachedfilter.cpp','libs/tex/maketexture/downsample.h'],[('filterTexture, filterTextureNowrap, filterTextureNowrapStochastic and the wrap handling','include/aqsis/tex/filtering/filtertexture.h'),('pixel iterators of plain and tiled buffers','include/aqsis/tex/buffers/tilearray.h'),('CqSampleAccum, CqPcfAccum','include/aqsis/tex/filtering/sampleaccum.h'),('CqEwaFilterFactory, CqEwaFilter','libs/tex/filtering/ewafilter.{h,cpp}'),('CqMipmap::initLevels, downsample, CqCachedFilter','libs/tex/filtering/mipmap.h, libs/tex/maketexture/downsample.h')],
  'A recording accumulator under the real filterTexture templates states "each position once, with the pixel the wrap modes select" as a postcondition; accumulators, sample regions, depth planes and elliptical weights are proved over real arithmetic for all values (the support bound through explicit lemmas: det dx^2 <= d q < d L); level transforms and downsampling against the centres and means of the pixels they are made from. Found and fixed four genuine defects (quantisation of 16/32 bit texture buffers, clamp mixed with periodic dropped the corners, parallelogram scaling overwrote one side, remapping wrapped non-periodic directions).',
  'Texture sizes and regions are finite tables (bounded in that dimension); file reading is an assumed contract; random table values in [0,1) assumed.')

P('C16','Samples cover every stratum and every micropolygon meets each sample it covers',
  'Jittered and regular sampling put exactly one sample of a pixel in each of its subpixels (no two jittered samples share a column or row of the pixel), with one sample time in each equal interval of the shutter. While a bucket is rendered, every sample inside the bound of a micropolygon - at the time and lens position of that sample, under motion blur and depth of field - is tested against it exactly once, samples outside it are not affected, and every hit is stored with its depth. The bounds of a moving micropolygon divide the shutter interval and contain it at every time of their interval, including before the first and after the last key.',
  'every bound, sample position, time and vertex position (real arithmetic), every outcome of the random generator; bucket sizes, samples per pixel and numbers of keys as stated',
  'tests never render; an off-by-one in the index arithmetic loses samples only for particular bounds, crop edges or times',
  ['libs/core/bucketprocessor.cpp','libs/core/multijitter.cpp','libs/core/grid.cpp','libs/core/micropolygon.cpp','libs/core/imagepixel.cpp'],[('CqBucketProcessor::preProcess, RenderMicroPoly, RenderMPG_Static, RenderMPG_MBOrDof, StoreSample','libs/core/bucketprocessor.cpp'),('CqMultiJitteredSampler, CqGridSampler','libs/core/multijitter.cpp, libs/core/grid.cpp'),('CqMicroPolygonMotion::BuildBoundList','libs/core/micropolygon.cpp')],
  'Contracts on the real bucket processor (setBucket, preProcess, process) with a micropolygon of arbitrary real bounds and a sampler of arbitrary sample positions and times: the hit test is asked for a sample exactly when the bound covers it. Integer conversions of real coordinates are split exhaustively over the integers their interval contains. BuildBoundList is proved against the interpolated vertex at an arbitrary time. Found and fixed five genuine defects (regular grid times, extrapolated motion bounds, instantaneous shutters, samples at the end of the shutter and on the boundary between two bounds).',
  'Bucket, pixel and motion configurations are finite tables; depth of field for micropolygons in one focal plane; integer filter widths.')
P('C17','The image is the filtered samples, whatever buckets it is rendered in',
  'Every pixel of the crop window reaches the display exactly once, and its colour and opacity are the filter-weighted mean of the samples within the filter width of its centre, times the exposure gain and raised to one over the exposure gamma, for every position of the samples relative to the buckets and the crop window. Bucket size therefore never changes the image, no sample is taken twice, and a pixel none of whose samples are hit is empty. An imager shader, when there is one, decides the colour and opacity of every pixel. The standard pixel filters (box, triangle, disk, Gaussian, Catmull-Rom, sinc, Bessel) are the functions of those names. The crop window consists of the pixels between its two fractions of the resolution, so adjacent crop windows tile the image.',
  'every sample of the image with arbitrary colour and opacity (real arithmetic); image, bucket, filter and crop sizes from the stated tables; every resolution and crop fraction for the crop window itself',
  'no unit test renders an image; seams appear only at particular bucket, filter and crop sizes',
  ['libs/core/bucketprocessor.cpp','libs/core/imagebuffer.cpp','libs/core/bucket.cpp','libs/core/optioncache.cpp','libs/core/renderer.cpp','libs/core/filters.cpp'],[('CqImageBuffer::SetImage, AddMPG, RenderImage','libs/core/imagebuffer.cpp'),('CqBucketProcessor FilterBucket, buildCacheSegment, ExposeBucket','libs/core/bucketprocessor.cpp'),('CqRenderer::initialiseCropWindow','libs/core/renderer.cpp')],
  'End-to-end contract: the real image buffer, buckets, bucket processor, pixel cache between buckets, filter and exposure run on an image in which one sample (any of them) is hit with arbitrary colour and opacity; what reaches a recording display must equal the filter formula in every pixel. Since filtering is linear in the samples this decides the image of every set of opaque-or-not hits. Found and fixed a genuine defect (buckets smaller than the filter overlap).',
  'Image, bucket and filter sizes are finite tables; one thread; integer filter widths; display drivers outside.')
P('C18','Every display receives every pixel once, quantised and laid out as asked',
  'A display is opened with the size and origin of the crop window, its channels in the smallest data format which holds the range of its quantiser, the parameters the user gave it and the standard ones. It then receives every pixel of the image exactly once - by buckets, or by whole lines of the crop window if it asks for scanlines - with its channels in the order it chose. Each value is rounded between the zero and one of the quantiser to the nearest integer, plus at most the dither amplitude, and clamped to the range, or sent unchanged when there is no quantisation. A secondary display whose driver is missing is skipped without affecting the others, and every display is closed once.',
  'every pixel value and dither (real arithmetic, cross-checked natively), every display mode, channel order and data format; image, bucket and crop sizes from the stated tables',
  'no test opens a display; wrong bytes appear only for particular combinations of crop window, bucket, channel order and format',
  ['libs/core/ddmanager/ddmanager.cpp','libs/core/ddmanager/ddmanager.h','libs/core/channelbuffer.h','libs/riutil/tokendictionary.cpp'],[('CqDDManager::AddDisplay, OpenDisplays, DisplayBucket, CloseDisplays','libs/core/ddmanager/ddmanager.cpp'),('CqDisplayRequest LoadDisplayLibrary, FormatBucketForDisplay, CollapseBucketsToScanlines, SendToDisplay, PrepareCustomParameters, PrepareSystemParameters','libs/core/ddmanager/ddmanager.cpp'),('CqChannelBuffer','libs/core/channelbuffer.h')],
  'The contract plays the display driver: it is opened by the real display manager, permutes its channels, asks for scanlines or buckets and records every byte; postconditions compare the bytes of every pixel with the values put in the channel buffer. Quantisation is proved for arbitrary values by splitting the rounding over the integers in range. Found and fixed two genuine defects (scanlines of crop windows were written beyond their buffer and with wrong columns; flags, methods and buffers of a display request were uninitialised).',
  'Loading driver libraries and the drivers themselves are outside; quantisers with a large range are checked at 12 values each (bounded).')


N('C90','Compiled shaders compute what their shading language source says',
  'For every valid shader the compiled virtual machine program, run on any grid of points with any parameter values, computes the outputs which the RenderMan Shading Language gives the source text, with per-point control flow.',
  'every shader source and every shading input','tests compile a few shaders; miscompilation shows only for particular combinations of constructs',
  ['libs/slparse','libs/slxargs','tools/aqsl','libs/shadervm'],[('parser, type checker and VM code generator','libs/slparse'),('shader virtual machine','libs/shadervm')],
  'Needs a formal semantics of the shading language and induction over arbitrary syntax trees built by a flex/bison parser that exchanges text with the virtual machine; a contract on one function cannot state it, and the shader libraries are not built in this sandbox, so a failing input could not be replayed.')
N('C91','Rendering with several threads gives the image of one thread',
  'Whatever the number of threads and however they are scheduled, buckets are rendered without data races and the image is the one rendered by a single thread.',
  'every schedule of the worker threads','tests never render, and a race shows only under particular interleavings',
  ['libs/core/threadscheduler.cpp','libs/core/imagebuffer.cpp'],[('CqThreadScheduler','libs/core/threadscheduler.cpp')],
  'The build has no threaded renderer here, and the verifier is sequential (one thread, no memory model, no permissions); boost::thread internals have no contracts. C17 assumes work units run one at a time.',over=('schedules',))
N('C92','Surfaces are diced, split and shaded where the geometry says they are',
  'For every geometric primitive, the micropolygons that are made of it lie on the surface (within half a pixel of the shading rate), cover it without gaps between neighbouring grids, and carry interpolated primitive variables.',
  'every primitive, control mesh, trim curve and shading rate','tests evaluate a few surface points; cracks appear at particular split depths and control meshes',
  ['libs/core/surface.cpp','libs/core/geometry'],[('CqSurface::Split/Dice and the primitives','libs/core/geometry')],
  'The recursion depends on the shading environment (libs/shadervm, not built here), and the error between a bicubic or subdivision surface and its grid is a nonlinear real property for which no contract within reach of the solvers is inductive; C10, C13 and C16 cover what happens from micropolygons on.')
