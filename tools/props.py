#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run: python3 tools/props.py)
import json, os
P = []
S = "boofcpp/src/boofcv/"
J = "boofcpp-jni/src/main/cpp/"
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

IMG = S+"image_types.h"
p("C01", "Gray image views: geometry, aliasing and bounds checks",
  "A Gray image reports the width and height it was created with or reshaped to, starts zero filled, and at(x,y) addresses one distinct element per in-range pixel and throws invalid_argument for every out-of-range coordinate. A sub-image made with makeSubimage(x0,y0,x1,y1) aliases exactly the parent's pixels of that rectangle (sub-images of sub-images too), and any rectangle that does not lie inside the image is rejected with invalid_argument.",
  ["inputs"], "all image shapes, all rectangles (including empty, inverted and huge unsigned coordinates), nested twice, all pixel values",
  "tests use a handful of literal rectangles on one shape; the aliasing and rejection claims range over every coordinate quadruple",
  [IMG], [("Gray::at/unsafe_at/index_of", IMG), ("Gray::makeSubimage", IMG), ("ImageBase::getWidth/getHeight/isInBounds", IMG)],
  [("offset,stride", "position of pixel (0,0) in data and row pitch", IMG)])
p("C02", "Copying and assigning Gray images: values, ownership, no leak",
  "copy() and assignment make the destination pixel-for-pixel equal to the source whatever the offsets and strides of either side, never write outside the destination's own pixels, and never modify the source. Copy construction and assignment of an owning image yield an independent image, assigning a sub-image yields a view, and after any such sequence every allocation is released exactly once.",
  ["inputs", "histories"], "all shapes, owning or view on either side, all pixel values, sequences of copy/assign/copy-construct/destroy",
  "tests copy one pair of small images and never run under a heap checker; ownership errors need particular histories",
  [IMG], [("Gray::copy", IMG), ("Gray::operator=", IMG), ("Gray copy construction and ~Gray", IMG)],
  [("subimage", "true when the pixels are borrowed", IMG)])
p("C03", "Interleaved images: band layout, reshape, setTo, sub-images",
  "In an Interleaved image every (x,y,band) in range addresses its own element and anything out of range (x, y or band) is rejected by at(). setTo makes the destination equal to the source in every band of every pixel, for any pixel type and for sub-images on either side, and makeSubimage aliases exactly the requested rectangle. Reshaping or changing the band count of an owning image gives a correctly addressable image; doing so on a sub-image is rejected.",
  ["inputs", "histories"], "all shapes and band counts within bounds, all rectangles, U8/S32/F32 pixels",
  "tests use one shape per function and only U8 or one pixel type; multi-byte copies of views are not exercised",
  [IMG], [("Interleaved::at/setTo/reshape/setNumberOfBands/makeSubimage", IMG)])
p("C04", "Reshape histories never expose memory the image does not own",
  "After any sequence of reshapes (and band-count changes) the image has exactly the requested shape, every in-range pixel can be read and written and keeps its value independently of the others, storage never shrinks below what is needed, and all storage is released exactly once. Reshaping to the current shape keeps the pixels, and reshaping a sub-image to another shape throws invalid_argument leaving it untouched.",
  ["histories", "inputs"], "all sequences of up to a bounded number of reshapes with symbolic shapes, Gray, Interleaved and Planar",
  "tests reshape once or twice with literal shapes; grow/shrink/grow histories and heap behaviour are unobserved",
  [IMG], [("Gray::reshape", IMG), ("Interleaved::reshape", IMG), ("Planar::reshape", IMG)],
  [("data_length", "capacity of the backing array", IMG)])
p("C05", "GrowArray behaves as a growable array under every operation sequence",
  "resize keeps the surviving prefix and sets every newly exposed element beyond the previous capacity to default_value, fill sets every element to exactly the given value, set/setTo/assignment/copy construction make the content equal to the source as an independent array, grow_array leaves size zero, and at() rejects every index >= size. A wrapped external array is never freed or resized, and no operation leaks or frees twice.",
  ["histories", "inputs"], "all operation sequences up to a bounded length with symbolic arguments, element types of 1, 4 and 8 bytes",
  "tests call each method once on bytes with value zero; multi-byte elements, non-zero values and sequences are not covered",
  [S+"base_types.h"], [("GrowArray::resize/grow_array/fill/set/setTo/operator=", S+"base_types.h")],
  [("size,array_length,can_resize", "used length, capacity, ownership", S+"base_types.h")])
p("C06", "PackedSet stores and returns exactly the sets that were pushed",
  "Under every sequence of start_new_set, push_tail, remove_tail and clear a PackedSet is observably a list of lists: number_of_sets, size_of_tail, at and load_set return precisely what was pushed in order, also across block boundaries and after blocks are recycled. write_set replaces exactly one set's elements (rejecting a wrong length), and any out-of-range set or element index is rejected with an exception.",
  ["histories", "inputs"], "all operation sequences up to a bounded length, every small block size, symbolic element values and indexes",
  "tests replay a few fixed sequences; block boundary, removal and reuse interact only in specific histories",
  [S+"packed_sets.h"], [("PackedSet::_add_element", S+"packed_sets.h"), ("PackedSet::remove_tail/clear", S+"packed_sets.h"), ("PackedSet::at/load_set/write_set", S+"packed_sets.h")],
  [("_total_element", "elements used in all sets", S+"packed_sets.h"), ("set_info", "block, offset, size of each set", S+"packed_sets.h")])
p("C07", "Shape mismatches are rejected before anything is written",
  "Operations that require images of equal shape throw invalid_argument if and only if width or height differ, and when they throw no pixel of any image has been changed; operations that resize their output produce an output of exactly the input's width and height. This holds for non-square images and sub-images alike.",
  ["inputs"], "all pairs and triples of shapes within bounds; shape checks, normalized convolution, mean blur, block thresholds, logical operators, ConvolveImage, blur, threshold",
  "tests try one mismatching pair per function and mostly square images",
  [S+"sanity_checks.cpp", S+"image_types.h", S+"image_blur.h", S+"convolve.h", S+"binary_ops.h", S+"binary_ops.cpp", S+"threshold_block_filters.h"],
  [("checkSameShape", S+"sanity_checks.cpp"), ("output.reshape in each operation", S+"convolve.h")])
K = S+"convolve_kernels.h"
p("C08", "Gaussian kernels are symmetric, positive, unimodal and normalized",
  "Floating point 1D and 2D Gaussian kernels of any positive width are symmetric about their center, non-negative, non-increasing away from the center and sum to one; integer ones are the floating point kernel divided by max(smallest element, largest/100), truncated. A non-positive width is derived from sigma and a non-positive sigma from the width, consistently for 1D and 2D, and non-positive radius or sigma is rejected by the helper functions. (Sigma at least 0.05, so that the exponentials are representable.)",
  ["inputs", "configurations"], "widths (odd and even) up to a bound, every sigma (the exponential is an uninterpreted monotone positive function), F32/F64/S32",
  "tests check sums and symmetry for one or two (sigma,width) pairs",
  [K], [("FactoryKernel::gaussian1D/gaussian2D", K), ("FactoryKernel::sigmaForRadius/radiusForSigma", K), ("FactoryKernel::computePDF", K)])
p("C09", "Kernel containers, normalization and float-to-integer conversion",
  "normalize makes the elements of any floating point 1D or 2D kernel with non-zero sum add up to one by scaling all of them by the same factor, and leaves integer kernels alone; sum, element_min/max and element_abs_min/max are the exact extrema and sum over all elements. mean1D has equal elements summing to one, at() addresses row y column x and rejects out-of-range indexes, reshape and copies (assignment or construction) give independent kernels of the right size, and an offset outside the kernel is rejected.",
  ["inputs"], "all kernel contents, 1D and 2D widths within bounds, integer and float elements",
  "tests normalize one 1D kernel; 2D normalization, negative elements and copies are not settled",
  [K], [("FactoryKernel::normalize/mean1D/table1D/float_to_int", K), ("KernelBase::sum/element_*", K), ("Kernel1D/Kernel2D::at/reshape/operator=", K)])
p("C10", "Image borders return the documented pixel for any outside coordinate",
  "For every coordinate, inside or outside, a border-wrapped image returns the image pixel when inside; otherwise EXTENDED returns the nearest edge pixel, REFLECT mirrors about the edge pixel (f(-1)=f(1)), WRAP is periodic and ZERO/value returns the constant, also when the coordinate is several image widths away. No coordinate makes it read outside the image.",
  ["inputs"], "all coordinates within several image sizes, all image shapes >= 1x1 within bounds incl. sub-images, all pixel values",
  "tests probe a few coordinates one step outside of one image",
  [S+"image_border.h"], [("ImageBorder::get", S+"image_border.h"), ("adjust of Extend/Reflect/Wrap", S+"image_border.h"), ("FactoryImageBorder::create_SB", S+"image_border.h")])
C = S+"convolve.h"
p("C11", "Whole-image 1D convolution equals its mathematical definition",
  "For every image, kernel (any width and any origin inside the kernel) and border rule, the horizontal and vertical whole-image convolutions produce at every pixel exactly the sum over k of kernel[k] times the (border-extended) input pixel at position +k-offset, cast to the output type; floating point results agree up to rounding. The choice between the optimized and the naive path never shows in the result.",
  ["inputs"], "all pixel and kernel values (32-bit wrap-around arithmetic), kernel widths 1..13 with every offset, image sizes around the kernel width, 4 border rules, U8->S16/S32, S16->S16/S32, F32->F32, sub-images",
  "tests compare one random image per width with the naive code; offsets, borders and views are sampled and the naive code is itself the oracle",
  [C], [("ConvolveImage::horizontal/vertical", C), ("ConvolveImage_Inner::*_unrolled", C), ("ConvolveImage_Border::*", C), ("ConvolveNaive::*", C)])
p("C12", "Whole-image 2D convolution equals its mathematical definition",
  "For every image, square kernel (any width, any origin) and border rule, the 2D convolution produces at every pixel exactly the sum over the kernel window of kernel(col,row) times the border-extended input pixel, up to floating point rounding for float images; every output pixel is written.",
  ["inputs"], "all pixel and kernel values, kernel widths 1..5 with every offset, image sizes around the kernel width, 4 border rules, U8/S16/F32",
  "as C11: sampled images and one offset per width",
  [C], [("ConvolveImage::convolve", C), ("ConvolveImage_Inner::convolve", C), ("ConvolveImage_Border::convolve", C)])
p("C13", "Inner and border-only convolution passes partition the output",
  "The no-border convolution writes exactly the pixels whose kernel window lies inside the image with the correct value (divided by the divisor, rounding half up for integers, when one is given) and leaves all others untouched; the border-only passes write exactly the complement with the correct value.",
  ["inputs"], "all pixel values, kernels width 1..13 and every offset, image sizes >= kernel width, with and without divisor, 1D and 2D",
  "tests compare interiors for symmetric kernels only and do not check that the frame is left untouched",
  [C], [("ConvolveImage_Inner::horizontal/vertical/convolve", C), ("ConvolveImage_Border::*", C), ("ConvolveNormalized_JustBorder::*", C)])
p("C14", "Normalized convolution renormalizes the kernel at the image edge",
  "Normalized convolution outputs at every pixel the weighted sum over the kernel taps that fall inside the image divided by the sum of exactly those taps' weights - rounded half up ((total+weight/2)/weight) for integer images - for any image size (smaller than the kernel too), any offset, and any kernel whose partial weights are non-zero; the separable convolve() is the horizontal pass followed by the vertical pass. A non-negative constant image is reproduced unchanged by kernels with positive weights.",
  ["inputs"], "all pixel values, kernels with weights up to beyond 8 bits, widths 1..13, all offsets, image sizes below, at and above the kernel width, U8/S16/F32",
  "tests use small random kernels on one image size, never weights above 255 or images smaller than the kernel with odd shapes",
  [C], [("ConvolveNormalized::*", C), ("ConvolveNormalizedNaive::*", C), ("ConvolveNormalized_JustBorder::*", C)])
B = S+"image_blur.h"
p("C15", "Mean blur equals the box average, at every size and radius",
  "Mean blur outputs at every pixel the box average computed as a horizontal pass then a vertical pass, each pass being the in-image average of the 2*radius+1 neighbours (for integers (sum+n/2)/n truncated, i.e. rounded half up for non-negative values), for any image shape (also narrower or shorter than the box, non-square, 1 pixel wide) and any radius >= 1; radius 0 is rejected. The result depends only on the input image, not on the previous content or shape of the output and work images.",
  ["inputs", "configurations"], "all pixel values U8/S16/F32, radius 1..3, image shapes around the box width, sub-images, reused work images",
  "tests use one large random image; the fall-back for small images and the incremental sums are reached by special shapes only",
  [B], [("ConvolveImageMean::horizontal/vertical/inner_*", B), ("BlurImageOps::mean", B)],
  [("totals", "running column sums", B)])
p("C16", "Gaussian blur is the separable normalized Gaussian convolution",
  "Gaussian blur of any image equals a horizontal then vertical normalized convolution with the kernel given by (sigma,width), where a non-positive width is derived from sigma and a non-positive sigma from the width; output and work images take the input's shape and non-negative constant images are reproduced.",
  ["inputs", "configurations"], "all pixel values U8/F32, (sigma,width) combinations incl. derived ones, image shapes below and above the kernel width",
  "tests compare one configuration on one image",
  [B, K], [("BlurImageOps::gaussian", B), ("FactoryKernel::gaussian1D", K)])
T = S+"binary_ops.h"
p("C17", "Fixed thresholding classifies every pixel exactly",
  "Global thresholding writes for every pixel 1 if value <= threshold (down) or value > threshold (up) and 0 otherwise, into an output of the input's shape, so the up and down results are exact complements; the fixed-threshold filter gives the same result.",
  ["inputs"], "all pixel values, thresholds and shapes, U8/S16/S32/F32 (all non-NaN floats), sub-images on either side",
  "tests check one image per direction",
  [T], [("ThresholdOps::threshold", T), ("GlobalFixedBinaryFilter", T)])
p("C18", "Local mean thresholding compares each pixel with its scaled neighbourhood",
  "Local mean thresholding outputs, for every pixel, value <= mean*scale (down) or value*scale > mean (up), where mean is the box-blurred image with radius floor(region width/2) and the region width comes from the configured length relative to the smaller image side; output and work images take the input's shape. The filter object gives the same result each time it is reused, whatever image it processed before.",
  ["inputs", "configurations", "histories"], "all pixel values U8/F32, several scales, fixed and relative widths, shapes around the region width",
  "tests run one configuration on one image and never reuse the filter on another shape",
  [T, B], [("ThresholdOps::localMean", T), ("LocalMeanBinaryFilter", T), ("BlurImageOps::mean", B)])
O = S+"binary_ops.cpp"
p("C19", "Otsu's threshold maximizes between-class variance",
  "For any histogram the computed threshold is the lowest split that maximizes the between-class variance (threshold 0 when no split separates anything), and the penalty and scale options only shift it as documented: down lowers, up raises. The threshold returned for an image is expressed in pixel values (the range's minimum when nothing separates), so that it is invariant under the choice of the [min,max] range containing the image, and the Otsu filter applies exactly that threshold.",
  ["inputs", "configurations"], "all histograms over a bounded number of bins and counts, all images within bounds, symbolic min offset",
  "tests check one bimodal image with min value 0",
  [O, T], [("ComputeOtsu::computeOtsu/computeOtsu2/compute", O), ("ThresholdOps::computeOtsu", T), ("GlobalOtsuBinaryFilter", T)])
F = S+"threshold_block_filters.h"
p("C20", "Block-mean threshold: block partition, block means and classification",
  "Block-mean thresholding partitions the image into a grid of blocks of the adjusted block size, the last row and column absorbing the remainder, computes each block's scaled mean (rounded by adding 1/2 and truncating for integers, scale at most 1), and classifies every pixel of a block against the mean of its block (or the average of the surrounding 3x3 blocks clipped at the image). Every output pixel is written exactly according to its own block, and a block size that evaluates to zero is rejected.",
  ["inputs", "configurations"], "all pixel values U8/F32, image shapes and requested block widths within bounds, local/non-local, up/down, sub-images",
  "tests compare to a re-implementation on two shapes with one block size",
  [F], [("ThresholdBlockCommon::process/selectBlockSize/computeStatistics/applyThreshold", F), ("ThresholdBlockMean", F)],
  [("stats", "one element per block", F)])
p("C21", "Block min-max threshold: extrema, texture test and classification",
  "Block min-max thresholding uses the exact minimum and maximum over the pixel's block (or the clipped 3x3 surrounding blocks): when max-min <= the minimum spread all pixels of the block become 1, otherwise each pixel is compared to the scaled midpoint. A spread of -1 or less disables the texture test, and images of negative floats are treated like any other.",
  ["inputs", "configurations"], "all pixel values U8/F32, shapes and block widths within bounds, spreads incl. negative, local/non-local, up/down, sub-images",
  "tests use random non-negative images and non-negative spreads on two shapes",
  [F], [("ThresholdBlockMinMax::computeBlockStatistics/thresholdBlock", F)])
p("C22", "Block Otsu threshold: block histograms and classification",
  "Block Otsu thresholding gives each pixel the class obtained by applying the configured Otsu computation to the histogram of exactly the pixels in its block (or the clipped 3x3 surrounding blocks), with no contribution left over from earlier images or blocks.",
  ["inputs", "histories", "configurations"], "pixel values over a bounded set of intensities, shapes and block widths within bounds, local/non-local, up/down, reuse of the filter",
  "tests use two random images and a fresh filter",
  [F, O], [("ThresholdBlockOtsu::computeStatistics/computeBlockStatistics/thresholdBlock", F), ("ComputeOtsu::compute", O)])
p("C23", "Logical image operators",
  "logicAnd and logicOr output at every pixel exactly 1 or 0 according to the truth of both inputs (any non-zero value is true), for images and sub-images of any equal shape, also when the output is one of the inputs.",
  ["inputs"], "all pixel values, shapes, strides and output aliasing",
  "tests use one pair of images of equal stride without aliasing",
  [O], [("BinaryImageOps::logicAnd/logicOr", O)])
p("C24", "4-neighbour erosion and dilation",
  "For binary images erode4 outputs 1 at an interior pixel iff it and its four neighbours are 1, dilate4 outputs 1 at an interior pixel iff it or one of its four neighbours is 1, every other interior pixel is 0 and nothing outside the output image is written; on binary images they are dual under complement. Images of any size (0, 1 or 2 pixels wide or high) are handled without touching memory outside the images.",
  ["inputs"], "all binary images and shapes from 0x0 up within bounds, sub-images",
  "tests use one small image",
  [O], [("BinaryImageOps::erode4/dilate4", O)])
ST = S+"image_statistics.h"
p("C25", "Image statistics: min, max, sum, mean",
  "min, max, sum and mean of an image equal the minimum, maximum, sum and (truncated for integers) mean of exactly its visible pixels, for every pixel type including all-negative images and for sub-images.",
  ["inputs"], "all pixel values U8/S16/S32/F32, shapes within bounds, sub-images",
  "tests use full images of non-negative values",
  [ST], [("ImageStatistics::min/max/sum/mean", ST)])
p("C26", "Histograms count every visible pixel exactly once",
  "After histogram() each bin holds the number of visible pixels whose value minus the minimum equals that bin, regardless of the histogram's previous content, so the bins add up to the pixel count; sub-images contribute only their own pixels.",
  ["inputs"], "all pixel values within the range, minimum values, shapes, sub-images, stale histogram content",
  "tests check a single image",
  [ST], [("ImageStatistics::histogram", ST)])
M = S+"image_misc_ops.h"
p("C27", "Fill operations write exactly the requested pixels",
  "fill sets every visible pixel (all bands) and nothing else, fill_border sets exactly the pixels closer than radius to an edge and leaves the rest, and fill_uniform sets every visible pixel to a value inside [min,max) whatever the random generator returns; sub-images never write their parent's other pixels.",
  ["inputs"], "all shapes, radii, values, Gray and Interleaved, every output sequence of the random generator",
  "tests fill whole images only and trust one generator",
  [M], [("ImageMiscOps::fill/fill_border/fill_uniform", M)])
p("C28", "Band averaging",
  "convert_average outputs for each pixel the truncated average of all its bands into an output of the input's shape, for sub-images on either side.",
  ["inputs"], "all pixel values, 1..4 bands, shapes, U8/U16/F32, sub-images",
  "tests convert one random image against literal values",
  [S+"image_convert.h"], [("convert_average", S+"image_convert.h")])
L = S+"contour.cpp"
p("C29", "Blob labelling equals connected components",
  "For every binary image and connectivity rule (4 or 8) the labelled image is 0 exactly on background pixels, two foreground pixels have the same label iff they are connected under the rule, and labels are 1..N with N the number of reported contours, numbered in raster order of each blob's first pixel. The input image is not modified.",
  ["inputs", "configurations"], "all binary images within bounds, both connectivity rules, sub-images",
  "tests check a few hand-drawn images",
  [L, S+"contour.h"], [("LinearContourLabelChang2004::process/handleStep1-3", L), ("ContourTracer::trace", L)],
  [("border", "working copy with a 1 pixel frame", S+"contour.h")])
p("C30", "Contours trace exactly the blob boundaries",
  "Each blob's external contour visits exactly its pixels bordering the outside component of its complement, and there is one internal contour per hole visiting exactly the blob pixels bordering that hole; consecutive points (cyclically) are neighbours under the rule and every point lies inside the image and carries the blob's label.",
  ["inputs", "configurations"], "all binary images within bounds, both connectivity rules",
  "tests check sizes and a few contours of hand-drawn images",
  [L], [("ContourTracer::trace/searchBlack/moveToNext/add", L), ("LinearContourLabelChang2004::handleStep1/handleStep2", L)])
p("C31", "Contour finder: reuse and size limits",
  "Processing an image gives the same labels and contours on a reused contour finder as on a fresh one, whatever image (of any shape) or rule it processed before. Contours shorter than the minimum or not shorter than the maximum size are reported empty and internal contours are empty when not saved, without affecting labels, blob count, contour indexing or the other contours.",
  ["histories", "configurations", "inputs"], "all pairs of binary images within bounds, every minimum/maximum size, save flag and rule",
  "tests reuse the finder once on one pair of images",
  [L], [("LinearContourLabelChang2004::process", L), ("handleStep1/handleStep2 size test", L), ("PackedSet::remove_tail", S+"packed_sets.h")])
p("C32", "Relative and fixed lengths",
  "A configured length evaluates to max(fraction*total, length) when the fraction is non-negative and to length otherwise, the integer form rounds half up and returns -1 for negative lengths, exactly one of isFixed/isRelative holds, and checkValidity rejects exactly the configurations where both are negative.",
  ["inputs", "configurations"], "all non-NaN doubles in the int range (bit-precise IEEE)",
  "tests evaluate a few literals",
  [S+"config_types.cpp"], [("ConfigLength::compute/computeI/checkValidity", S+"config_types.cpp")])
p("C33", "Sub-images are transparent: same result, nothing outside touched",
  "Every pixel operation of the library applied to sub-images as input and output gives exactly the result it gives on stand-alone copies, and changes no pixel of the parent image outside the output's rectangle nor any pixel of the input.",
  ["inputs"], "all pixel values; convolution, normalized convolution, blur, thresholds, block filters, logic, morphology, statistics, fill, labelling; symbolic placement",
  "tests use sub-images for a few operations and do not check the surrounding pixels",
  [C, B, T, F, O, L, ST, M], [("offset/stride addressing in each loop", C)])
p("C34", "Degenerate and oversized arguments never touch foreign memory",
  "For every image shape including 0 or 1 pixel wide or high, any radius, kernel width and block width larger than the image, and unusual but accepted configuration values, each operation either completes with the defined result or throws a C++ exception; it never reads or writes outside its arrays, divides by zero, or loops without bound. (Excluded: normalizing by kernel weights that sum to zero, histograms whose declared range does not contain the pixels, and images whose number of pixels does not fit 32 bits.)",
  ["inputs", "configurations"], "all shapes 0..4, all radii/kernel widths/block widths within bounds",
  "tests never pass empty or 1-pixel images or kernels wider than the image",
  [C, B, T, F, O, L, M, ST], [("size guards in each operation", C)])
p("C35", "Results do not depend on stale output or work images",
  "Every operation that takes output or work images gives the same result whatever their previous shape and content, and filter objects give the same result on first use and after processing other images of any other shape.",
  ["histories", "inputs"], "symbolic previous shapes and contents; thresholds, block filters, blur, convolution, conversion",
  "tests use fresh outputs sized like the input",
  [C, B, T, F], [("output.reshape then full overwrite", C), ("stats.reshape", F)])
p("C36", "JNI wrappers release every Java array exactly once",
  "Every JNI entry point releases each primitive array it acquired exactly once with the pointer it got, discards changes only for inputs, frees all native memory it allocated, and makes no other JNI call while a critical region is open - including when an array cannot be accessed or the native operation throws, which Java sees as an exception and never as a C++ exception leaving native code.",
  ["inputs", "fault_sequences"], "all image shapes and pixel values within bounds, failing and succeeding native calls, integer and float variants",
  "the C++ tests never call the JNI layer",
  [J+"JNIBoofCPP.cpp", J+"NativeGlobalFixed.cpp", J+"NativeGlobalOtsu.cpp", J+"NativeLocalMean.cpp", J+"NativeBlockMean.cpp", J+"NativeBlockMinMax.cpp", J+"NativeBlockOtsu.cpp", J+"NativeImageBlurOps.cpp", J+"NativeImageConvolve.cpp", J+"NativeImageConvolveNormalized.cpp", J+"NativeChang2004.cpp"],
  [("Get/ReleasePrimitiveArrayCritical pairs", J+"NativeGlobalFixed.cpp"), ("extractKernel*", J+"JNIBoofCPP.cpp")])
p("C37", "JNI wrappers compute the same result as the native operation",
  "For any Java image (any start index and stride) a JNI entry point leaves in the Java output array exactly what the native C++ operation yields for the same pixels and configuration, leaves every other array element unchanged, and transfers contours to the Java structures without loss.",
  ["inputs", "configurations"], "all pixel values, start index/stride variants, integer and float variants of each wrapper",
  "the C++ tests never call the JNI layer; the Java tests need BoofCV jars that are not available",
  [J+"JNIBoofCPP.cpp", J+"NativeGlobalFixed.cpp", J+"NativeBlockMean.cpp", J+"NativeImageConvolve.cpp", J+"NativeChang2004.cpp"],
  [("wrapCriticalGray*", J+"JNIBoofCPP.cpp"), ("nativeprocess entry points", J+"NativeGlobalFixed.cpp"), ("copy_into_java", J+"JNIBoofCPP.cpp")])
p("C38", "Results match the Java BoofCV implementation",
  "For every image and configuration the native operation and BoofCV's Java implementation of the same operation produce the same output.",
  ["inputs", "configurations"], "all images and configurations supported by both",
  "the comparison needs the Java library, which the C++ tests never load",
  ["boofcpp-jni/src/main/java"], [("BoofMirror factories delegating to native code", "boofcpp-jni/src/main/java")])
p("C39", "Planar images own their bands",
  "A Planar image has the requested number of bands, each an independent zero-filled image of the requested shape; getBand rejects out-of-range bands, reshape reshapes every band, changing the number of bands keeps the surviving bands' pixels, setTo copies every band, and destroying it releases every band exactly once.",
  ["inputs", "histories"], "0..3 bands, all small shapes, sequences of reshape/setNumberOfBands/setTo",
  "tests only build and reshape one planar image and never run under a heap checker",
  [IMG], [("Planar::Planar/~Planar/reshape/setNumberOfBands/at/setTo/getBand", IMG)])
p("C40", "Point distances",
  "distanceSq between two points equals the squared Euclidean distance for all coordinates whose result is representable, is symmetric, and is zero exactly for equal points.",
  ["inputs"], "all integer coordinates with representable differences, all moderate floats (real arithmetic)",
  "tests check one pair",
  [S+"geometry_types.h"], [("Point2D::distanceSq", S+"geometry_types.h")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
