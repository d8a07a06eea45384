#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for titles, statements and anchors)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
I = "src/image/mod.rs"
p("P01", "Pixel reads and writes address exactly the pixel at (x, y)",
  "In an image whose data are stored row by row with all channels of a pixel adjacent, every read accessor (by coordinates, checked or unchecked, mutable or not, or by linear index) returns exactly the channels of the pixel it names, and every write changes exactly those channels and nothing else. Coordinates outside the image make the checked accessors panic, and a replacement pixel with the wrong number of channels is rejected with a panic instead of being written.",
  ["inputs"], "all dimensions, channel counts, coordinates (in and out of range), pixel lengths and pixel contents, for u8 and f32 images",
  "tests read and write two hand-picked pixels of one 3x3 image and never try an out-of-range coordinate or a wrong pixel length",
  [I, "src/error/messages.rs"],
  [("linear index computation", I + ": index, get_pixel, get_pixel_mut, set_pixel, set_pixel_indexed, Index/IndexMut"),
   ("range and length checks", "src/error/messages.rs: check_xy, check_channels")],
  ["get_pixel / set_pixel / Index and the raw data slice"])
p("P02", "Constructors and accessors keep dimensions, channel order and every value",
  "An image built from a slice, a vector, a vector of pixels or a vector of slices reports exactly the width, height, channel count and alpha flag it was given and holds exactly the given values in order; a blank image holds width*height*channels zeroes and an empty one no data. The derived sizes (pixel count, full size, non-alpha channel count) equal their defining products for every dimension that fits.",
  ["inputs"], "all widths, heights, channel counts, alpha flags and contents",
  "tests build a handful of fixed images and never check the derived sizes against arbitrary dimensions",
  [I], [("constructors", I + ": from_slice, from_vec, from_vec_of_vec, from_vec_of_slice, blank, empty"), ("size arithmetic", I + ": ImageInfo::{size, full_size, channels_non_alpha}")],
  ["info(), data()"])
p("P03", "Sub-images and neighbourhoods contain the right pixels in row-major order",
  "The sub-image at (x, y) of size w x h holds at its coordinates (i, j) the source pixel (x+i, y+j), both when indexed by coordinates and when flattened. A 1-D or 2-D neighbourhood of a pixel holds, at each offset from the centre, the source pixel at that offset with out-of-range coordinates clamped to the nearest edge, whatever the size of the neighbourhood relative to the image.",
  ["inputs"], "all image sizes, positions (including corners), window sizes larger than the image, row and column direction, contents",
  "tests use one-column sub-images and size-3 windows, where column order and clamping to the centre cannot be told apart from the right answer",
  [I, "src/image/sub_image.rs"], [("sub-image extraction", I + ": get_subimage"), ("clamp padding", I + ": get_neighborhood_1d, get_neighborhood_2d"), ("SubImage indexing", "src/image/sub_image.rs: get_pixel, Index, to_vec")],
  ["SubImage::get_pixel, data(), to_vec()"])
p("P04", "Pixel iteration visits every pixel exactly once, in order, with its coordinates",
  "Iterating over an image yields exactly width*height items, row by row from the top left, each with its own coordinates and its own pixel, and then stays exhausted. At every point the size hint equals the number of items still to come.",
  ["inputs", "histories"], "all image sizes and contents, every number of items already consumed",
  "the documentation example prints coordinates without asserting them; no test checks the hint, so code that pre-allocates or zips by it is untested",
  ["src/image/pixel_iter.rs"], [("cursor", "src/image/pixel_iter.rs: next"), ("remaining count", "src/image/pixel_iter.rs: size_hint")],
  ["IntoIterator for &Image"])
p("P05", "Per-pixel and per-channel maps touch exactly the channels they promise",
  "Mapping or in-place application over pixels or channels gives every output channel the function value of exactly the corresponding input, pixel by pixel, and keeps the image dimensions; the alpha-aware variants apply the second function to the last channel of each pixel if and only if the image has alpha. Editing one channel index changes that channel of every pixel and no other value, and the pixel-slice helpers (map, apply, alpha, blackness) obey the same split.",
  ["inputs"], "all image sizes, channel counts, alpha flags and contents; functions that distinguish colour from alpha and may change the channel count",
  "tests use one 2x2 RGBA image, functions that agree on most values, and equal input and output channel counts",
  [I, "src/image/pixel.rs"], [("image maps", I + ": map_pixels(_if_alpha), map_channels(_if_alpha), apply_*, edit_channel"), ("pixel helpers", "src/image/pixel.rs: map_all, map_alpha, apply, apply_alpha, is_black, is_black_alpha")],
  ["data(), info()"])
p("P06", "Channel type conversion and rescaling are value-preserving within rounding",
  "Converting an integer image to floating point and back returns the original image, and a float-to-8-bit conversion of any finite value gives the nearest integer clamped to 0..255. Scaling 8-bit channels to 0..s and back is the identity for every positive scale, and rescaling a channel range maps it linearly, its two end points onto the target end points, up to rounding.",
  ["inputs"], "all channel values (every 8-bit value, arbitrary floats), scales and ranges",
  "no test covers conversion; rounding errors appear only for particular values and scales",
  ["src/image/from_impl.rs", "src/convert.rs"], [("From impls", "src/image/from_impl.rs"), ("scaling", "src/convert.rs: scale_channels, f32_to_u8_scale, u8_to_f32_scale")],
  ["data()"])
T = "src/transform.rs"
p("P07", "Cropping returns exactly the requested rectangle or an error",
  "Cropping succeeds exactly when the requested rectangle lies inside the image, including rectangles that touch the right or bottom edge and the whole image, and otherwise returns an error without panicking. The result has the requested size, the input's channels and alpha flag, and at (i, j) the input pixel (x+i, y+j).",
  ["inputs"], "all image sizes, rectangle positions and sizes (including extreme ones), contents",
  "the only crop test is disabled and uses an interior rectangle",
  [T], [("bounds check and copy", T + ": crop")], ["Result and data()"])
p("P08", "Overlaying and blending change exactly the overlapped rectangle",
  "Overlaying copies the front image onto the back image at (x, y), clipped at the back image's right and bottom edges, and blending with a weight between 0 and 1 sets each overlapped channel to weight*back + (1-weight)*front; every other pixel of the result equals the back image. A channel-count mismatch, or a weight outside 0..1, is reported as an error.",
  ["inputs"], "all sizes of both images, positions inside and beyond the back image, weights and contents",
  "both tests are disabled; clipping and weight validation are never exercised",
  [T, "src/error/messages.rs"], [("clipping and blend", T + ": overlay, superimpose"), ("validation", "src/error/messages.rs: check_equal, check_in_range")], ["Result and data()"])
p("P09", "Translation shifts the image and fills the uncovered area with black",
  "Translating by (x, y) gives an image of the same size in which the pixel at (i, j) is the input pixel (i-x, j-y) when both differences are non-negative and black otherwise, for shifts of any size including ones beyond the image.",
  ["inputs"], "all image sizes, shifts and contents", "the only test is disabled", [T], [("copy loop", T + ": translate")], ["data()"])
p("P10", "Reflection mirrors the image about the chosen axis",
  "Reflecting vertically maps column i to column width-1-i, reflecting horizontally maps row j to row height-1-j, with every pixel moved as a whole and dimensions unchanged. Reflecting twice about the same axis gives back the original image.",
  ["inputs"], "all image sizes, both axes, contents", "the only test is disabled", [T], [("index reversal", T + ": reflect")], ["data()"])
p("P11", "Rotation copies the pixel rotated there, exact at quarter turns",
  "Rotating counterclockwise by 0, 90, 180 or 270 degrees gives an image of the same or swapped dimensions in which every pixel is exactly the correspondingly rotated input pixel. Any other angle gives, without panicking, an image of the rounded size of the rotated bounding box whose every pixel is the input pixel that contains its centre rotated back, or black outside the input, up to rounding at the borders between pixels.",
  ["inputs"], "all image sizes (odd and even), angles, contents", "the only test is disabled and compares no pixels", [T, "src/util/math.rs"],
  [("output bounds and pixel placement", T + ": rotate"), ("matrix product", "src/util/math.rs: vector_mul, vector_mul_mut")], ["data()"])
p("P12", "Nearest-neighbour and bilinear scaling sample the right source pixels",
  "Scaling gives an image whose width and height are the input's times the factors, rounded. Nearest-neighbour output pixels are copies of the source pixel that covers them, bilinear output is the standard bilinear interpolation of the four surrounding source pixels with coordinates clamped to the image, so scaling by 1 is the identity, and neither ever panics for a positive factor; negative factors are errors.",
  ["inputs"], "all image sizes, independent horizontal and vertical factors (enlarging and shrinking, fractional), contents", "both tests are disabled and compare no pixels", [T],
  [("nearest neighbour", T + ": interpolate_nearest_neighbor"), ("bilinear", T + ": interpolate_bilinear"), ("output size", T + ": scale")], ["data(), info()"])
p("P13", "Bicubic and Lanczos resampling are the stated weighted sums",
  "Each bicubic output value is the sum over the 4x4 clamped source neighbourhood of pixel times cubic B-spline weights of the two offsets, and each Lanczos output value is the sum over the 2a x 2a clamped neighbourhood with the Lanczos-a window, up to rounding. Channels do not mix, and no factor or kernel size makes it read outside the image.",
  ["inputs"], "all image sizes, factors, window sizes and contents in 0..255", "tests are disabled and compare no values", [T, "src/util/math.rs"],
  [("resampling loops", T + ": interpolate_bicubic, interpolate_lanczos"), ("weights", "src/util/math.rs: cubic_weighting_fn, lanczos_kernel, sinc_norm")], ["data()"])
p("P14", "Shearing moves every pixel to its sheared position",
  "Shearing by (sx, sy) enlarges the image by the truncated offsets |sx|*height and |sy|*width and places each input pixel at its sheared coordinates, with a positive shear anchored at the far edge; every other output pixel is black, and no shear makes it panic.",
  ["inputs"], "all image sizes, shears of either sign, contents", "the only test is disabled", [T], [("offsets and placement", T + ": shear")], ["data()"])
F = "src/filter/mod.rs"
p("P15", "One-dimensional and separable filters compute clamped correlations",
  "A 1-D filter output is, per channel, the sum of kernel[k] times the input pixel displaced by k minus the half length along the chosen direction, with coordinates clamped to the image, and a separable filter is the vertical pass followed by the horizontal pass. Even-length or mismatched kernels are rejected with an error.",
  ["inputs"], "all image sizes (smaller and larger than the kernel), channels, kernel contents, directions and image contents", "the kernel tests apply two fixed kernels to hand-made windows; no enabled test filters an image", [F, "src/util/math.rs", I],
  [("filter loops", F + ": filter_1d, separable_filter"), ("kernel application", "src/util/math.rs: apply_1d_kernel"), ("padding", I + ": get_neighborhood_1d")], ["data()"])
p("P16", "Two-dimensional filters compute clamped correlations with the stated kernels",
  "A 2-D filter output is the per-channel sum of kernel values times the clamped neighbourhood; the box filter averages the size x size window, the weighted average gives the centre its weight, and sharpening, unsharp masking, Laplacian and the Gaussian kernels give their stated sums, whether or not the kernel is recognised as separable. Kernels of even or non-square length are rejected with an error.",
  ["inputs"], "all image sizes, channels, kernels and kernel sizes, contents", "no enabled test filters an image", [F, "src/filter/edge.rs", "src/util/math.rs", "src/util/mod.rs", "src/util/constants.rs"],
  [("2-D loops", F + ": unseparable_filter, linear_filter, box_filter, weighted_avg_filter, sharpen, unsharp_masking"), ("separation", "src/util/math.rs: separate_kernel, apply_2d_kernel"), ("kernels", "src/util/mod.rs: generate_gaussian_kernel, generate_log_kernel")], ["data()"])
p("P17", "Gradient operators give the magnitude of the two derivative responses",
  "For a grayscale image, with or without alpha, the Prewitt, Sobel and weighted Sobel operators, and any pair of odd kernels of equal length given as a derivative mask, give at every pixel the Euclidean norm of the horizontal and vertical separable responses with clamped borders. The alpha channel is kept, an image that is not grayscale is rejected with an error, and no grayscale input makes them panic.",
  ["inputs"], "all image sizes, alpha flag, weights and contents", "edge tests are disabled", ["src/filter/edge.rs", F], [("magnitude", "src/filter/edge.rs: derivative_mask"), ("operators", "src/filter/edge.rs: prewitt, sobel, sobel_weighted")], ["data()"])
p("P18", "Thresholding follows the five documented rules and keeps alpha",
  "Each of the five thresholding modes maps every colour value by its documented rule, comparing strictly against the threshold, for every threshold and maximum; alpha channels are unchanged and images that are not grayscale are rejected with an error.",
  ["inputs"], "all float values (including ones equal to the threshold), thresholds, maxima, modes, alpha", "tests are disabled and compare no values", [F, "src/error/messages.rs"], [("rules", F + ": threshold"), ("grayscale check", "src/error/messages.rs: check_grayscale")], ["data()"])
M = "src/filter/median.rs"
p("P19", "The median filter returns the true median of each clamped window",
  "Every output channel of the median filter is the middle value of the sorted (2r+1)^2 input values of that channel in the window around the pixel, with coordinates clamped to the image, at every position and for every radius and image size.",
  ["inputs", "histories"], "all image sizes (relative to the radius and to the internal column blocks), radii, channels, contents", "no enabled test runs the filter; its sliding histograms depend on the whole history of rows above a pixel", [M],
  [("partial histograms", M + ": PartialHistograms::update, get_count"), ("pivot scan", M + ": process_row_med, init_cols_med")], ["data()"],
  state=[("pivots, sums", "previous medians and counts below them, carried from row to row", M + ": MedianHist")])
p("P20", "The alpha-trimmed mean is the mean of the window without its extremes",
  "Every output channel is the rounded mean of the clamped (2r+1)^2 window after discarding the alpha/2 smallest and alpha/2 largest values, at every position, including alpha = 0. An odd alpha, or one that leaves no values, is rejected with an error.",
  ["inputs", "histories"], "all image sizes, radii, trim amounts, channels, contents", "no enabled test runs the filter; errors accumulate over rows", [M],
  [("trimmed sums", M + ": MeanHist::update, init_cols_mean, process_row_mean")], ["data()"],
  state=[("sums, lower, upper", "running sums and discarded values, carried from row to row", M + ": MeanHist")])
p("P21", "Residual and Laplacian normalisation are exact per channel",
  "The residual of two images of equal shape is their exact channel-wise difference and a shape mismatch is an error. Normalising a one-channel Laplacian that is not constant maps its minimum to 0 and its maximum to 255 and every other value to its rounded linear position between them, preserving order.",
  ["inputs"], "all shapes and contents", "no test runs either", [F, "src/filter/edge.rs", "src/convert.rs"], [("difference", F + ": residual"), ("normalisation", "src/filter/edge.rs: normalize_laplacian"), ("range map", "src/convert.rs: scale_channels")], ["data()"])
MO = "src/morphology.rs"
p("P22", "Erosion and dilation are the window minimum and maximum",
  "On a grayscale image of black and white pixels, an eroded pixel is white exactly when every pixel of the (2r+1)^2 window clipped to the image is white, and a dilated pixel is white exactly when some pixel of that window is white. This holds at every position and for every radius including ones larger than the image; size, channels and alpha values are kept, and an image that is not grayscale is rejected with an error.",
  ["inputs"], "all image sizes, radii, positions, binary contents", "the tests are disabled and compare no pixels", [MO, "src/util/mod.rs"], [("window bounds", MO + ": erode, dilate"), ("window sum", "src/util/mod.rs: generate_summed_area_table, rectangular_intensity_sum")], ["data()"])
p("P23", "Majority, opening, closing and gradient are the stated compositions",
  "On a grayscale image of black and white pixels, the majority filter makes a pixel white exactly when more than half of the pixels of its window clipped to the image are white. Opening equals erosion then dilation, closing equals dilation then erosion, and the gradient is white exactly where dilation and erosion differ; an alpha channel is kept.",
  ["inputs"], "all image sizes, radii, binary contents", "the tests are disabled and compare no pixels", [MO], [("compositions", MO + ": majority, open, close, gradient")], ["data()"])
C = "src/colorspace.rs"
p("P24", "Grayscale conversion is the channel average and keeps alpha",
  "Converting to grayscale gives every pixel the average of its colour channels (rounded down for 8-bit images) and keeps the alpha channel untouched, for every image size and whether or not the vector unit is used.",
  ["inputs", "configurations"], "all image sizes including ones that are not a multiple of the vector width, contents, alpha, with and without AVX2", "tests are disabled and use one large image", [C, "src/simd.rs"], [("scalar average", C + ": rgb_to_grayscale_norm, rgb_to_grayscale_f32"), ("vector average", "src/simd.rs: avg_256_u8, avg_alpha_256_u8")], ["data()"])
p("P25", "8-bit RGB/HSV conversion is faithful",
  "The value channel is the maximum, saturation is 255 times range over maximum and hue lies in the sextant of the dominant channel, with gray pixels having zero hue and saturation; converting gray pixels to HSV and back is exact and any pixel comes back with the same maximum and with every channel within 18 units (the error of the 8-bit hue). Alpha is untouched and no pixel makes either direction panic.",
  ["inputs"], "all 2^24 colours (and all HSV triples for the inverse), alpha", "tests are disabled", [C], [("forward", C + ": rgb_to_hsv"), ("inverse", C + ": hsv_to_rgb")], ["data()"])
p("P26", "Floating-point RGB/HSV conversion is faithful",
  "For every 8-bit colour the value channel is max/255, saturation is range/max, hue lies in 0..1 and in the sextant of the dominant channel, and alpha is scaled to 0..1. Converting back returns gray pixels exactly and other pixels within one unit per channel.",
  ["inputs"], "all 8-bit colours, alpha", "tests are disabled", [C], [("forward", C + ": rgb_to_hsv_f32"), ("inverse", C + ": hsv_to_rgb_f32")], ["data()"])
p("P27", "sRGB linearisation, XYZ and Lab conversions are consistent and keep alpha",
  "Linearising and un-linearising an 8-bit sRGB image returns the original within one unit, linearisation is monotone from 0 to 1, XYZ is the stated matrix product per pixel, Lab follows the CIE formulas for the chosen reference white and converts back to the same XYZ, and the lightness of gray pixels is monotone in the gray level. Alpha passes through every stage unchanged.",
  ["inputs"], "all 8-bit channel values, gray levels and matrices inputs, both reference whites, alpha", "tests are disabled and compare no values", [C, "src/util/math.rs", "src/util/constants.rs"], [("gamma curve", C + ": linearize_srgb_f32, unlinearize_srgb_f32"), ("matrices", C + ": srgb_lin_to_xyz_f32, xyz_to_srgb_lin_f32"), ("Lab", C + ": xyz_to_lab_f32, lab_to_xyz_f32")], ["data()"])
TO = "src/tone.rs"
p("P28", "Brightness adds a saturating bias to colour channels only",
  "Adjusting brightness by any bias between -255 and 255 gives every colour channel clamp(value + bias, 0, 255) and leaves alpha unchanged, for every image size and channel count and whether or not the vector unit is used; any other bias is reported as an error without panicking.",
  ["inputs", "configurations"], "all biases, image sizes (including ones that are not a multiple of 32 bytes), channel counts, alpha, contents, with and without AVX2", "tests are disabled and use one large image", [TO, "src/simd.rs"], [("scalar table", TO + ": brightness_rgb_norm"), ("vector add", "src/simd.rs: adds_256_u8")], ["Result and data()"])
p("P29", "Saturation adjustment changes only the HSV saturation",
  "Adjusting saturation by any amount between -255 and 255 equals converting to HSV, adding the amount to the saturation channel with clamping to 0..255, and converting back, for every image size with or without alpha and with or without the vector unit; other amounts are errors.",
  ["inputs", "configurations"], "all amounts, image sizes, alpha, contents, with and without AVX2", "tests are disabled and use one large image", [TO, "src/simd.rs", C], [("vector add on one channel", "src/simd.rs: adds_n_256_u8"), ("scalar", TO + ": saturation_norm")], ["Result and data()"])
p("P30", "Contrast and gamma are the stated point functions and keep alpha",
  "Contrast with a gain between 0 and 1 gives round(value*gain) and gamma gives the rounded power curve normalised by the maximum, so a gamma of 1 is the identity and both are monotone; alpha is unchanged and arguments outside the documented ranges are errors.",
  ["inputs"], "all channel values, gains, gammas, maxima, alpha", "tests are disabled", [TO], [("lookup table", TO + ": contrast"), ("power", TO + ": gamma")], ["Result and data()"])
p("P31", "Histogram percentiles count every pixel exactly once",
  "The histogram percentiles of a Lab image relate each occurring lightness to the exact fraction of pixels with at most that lightness, so they are non-decreasing and reach 1 at the brightest pixel. Histogram equalisation with strength 0 reproduces the image up to colour conversion error and never panics.",
  ["inputs"], "all image sizes and lightness patterns, precisions", "no enabled test covers it", ["src/util/mod.rs", TO], [("counting", "src/util/mod.rs: generate_histogram_percentiles"), ("application", TO + ": histogram_equalization")], ["percentile map"])
U = "src/util/mod.rs"
p("P32", "Summed-area tables and rectangle sums are exact",
  "Each entry of a summed-area table is the sum of all pixels above and to the left inclusive, per channel, and the rectangle sum recovered from it equals the direct sum over the rectangle for every rectangle inside the image, whenever the sums are exactly representable.",
  ["inputs"], "all image sizes, rectangles (including ones touching the top or left edge), channels and integer contents", "tests check one table and three rectangles", [U], [("recurrence", U + ": generate_summed_area_table"), ("inclusion-exclusion", U + ": rectangular_intensity_sum")], ["returned table and sums"])
p("P33", "Small numeric helpers match their mathematical definition",
  "The matrix-vector product, three- and four-way maximum and minimum, index-to-coordinate conversion, clamping to zero, distance and lookup-table helpers return exactly their mathematical definition for every argument, applying a kernel to a window gives the sum of kernel value times pixel per channel, and a matrix or kernel whose size does not match the vector or window is an error.",
  ["inputs"], "all argument values and orders, sizes", "tests try a dozen fixed arguments", ["src/util/math.rs", U], [("products", "src/util/math.rs: vector_mul, vector_mul_mut"), ("extrema", "src/util/math.rs: max_3, max_4, min_3, min_4"), ("coordinates", U + ": get_2d_coords"), ("table", U + ": generate_lookup_table"), ("kernel application", "src/util/math.rs: apply_1d_kernel, apply_2d_kernel")], ["return values"])
p("P34", "Generated kernels and weight matrices match their formulas",
  "The Gaussian and Laplacian-of-Gaussian kernels and the bilateral spatial weights equal their formulas at every entry, are symmetric, and even kernel sizes are errors; no size makes them panic.",
  ["inputs"], "all sizes and sigmas, entries", "no enabled test covers them", [U, "src/util/math.rs"], [("kernels", U + ": generate_gaussian_kernel, generate_log_kernel, generate_spatial_mat")], ["returned vectors"])
p("P35", "The bilateral filter leaves flat images flat and never panics",
  "For positive parameters, on an image whose pixels are all equal the bilateral filter returns the same colour up to colour conversion error, and on any image every output is the average of its clamped neighbourhood weighted by spatial distance and colour difference, every channel alike, so no output value is undefined. Negative parameters are errors.",
  ["inputs"], "all gray levels, image sizes, range and spatial parameters", "the only test is disabled", ["src/filter/bilateral.rs", U], [("weights", "src/filter/bilateral.rs: bilateral_direct_pixel"), ("spatial matrix", U + ": generate_spatial_mat")], ["data()"])
p("P36", "Vector kernels never access memory outside their images",
  "For every image size, channel count and alpha flag, the vector implementations read only bytes of the input image and write only bytes of the output image, and initialise every byte of the output.",
  ["inputs", "configurations"], "all image sizes around multiples of the vector widths, channel counts, alpha", "an out-of-bounds vector access rarely crashes a test, and tests do not run these kernels at all", ["src/simd.rs"], [("chunk loops", "src/simd.rs: adds_256_u8, adds_n_256_u8, avg_256_u8, avg_alpha_256_u8, deinterleave_*")], ["memory accesses"])
p("P37", "The multithreaded build returns the same images as the sequential build",
  "With the parallel feature enabled, every filter, scaling and cropping operation returns the same result as without it, for every input, because each output pixel is computed independently and collected in order.",
  ["inputs", "configurations"], "all inputs of the parallel code paths", "the test suite is built without the feature", [F, T, "src/filter/bilateral.rs", "src/util/math.rs"], [("parallel maps", F + ": filter_1d, unseparable_filter; " + T + ": crop, scale_*"), ("collection", I + ": from_vec_of_vec, from_vec_of_slice")], ["data()"])
p("P38", "File reading and writing hand the codec exactly the image's bytes",
  "Reading maps every supported decoded colour type to its channel count and alpha flag with the decoded bytes in order and reports any other colour type as an error; writing passes exactly the image's bytes, dimensions and colour type to the encoder and reports unsupported channel layouts and undersized data as errors instead of writing.",
  ["inputs"], "all colour types, dimensions, channel counts, alpha flags, contents", "I/O tests are disabled and see only PNG files of two colour types", ["src/io/mod.rs", "src/error/mod.rs"], [("colour types", "src/io/mod.rs: from_color_type, read"), ("encoding", "src/io/mod.rs: write")], ["codec boundary"])
p("P39", "Lab-based tone edits change lightness only",
  "Adjusting brightness or contrast through Lab equals converting to CIELAB, adding bias*100/255 to the lightness or multiplying it by the gain, keeping a* and b*, and converting back; alpha is unchanged. A zero bias or unit gain is the identity up to conversion error, and out-of-range arguments are errors.",
  ["inputs"], "all gray levels, biases and gains, alpha", "tests are disabled", [TO, C], [("Lab edit", TO + ": brightness_lab, contrast_lab")], ["Result and data()"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
print(len(P))
