COMMON_ASSUMPTIONS = [
 'clang 18 gnu++11 IR of the harness plus the current /repo sources stands for the compiled code (counterexamples are replayed on g++ builds)',
 'operator new / malloc succeed for requests up to 256 MB and throw/return null above',
 'printf/iostream output has no effect',
]
BUDGET = {'quick': 600, 'thorough': 3000}
CHECKS = {}
def C(pid, bounds, *units, **kw):
    d = {'bounds': bounds, 'units': [u if isinstance(u, dict) else {'file': u} for u in units]}; d.update(kw); CHECKS[pid] = d
def U(file, name=None, **kw): d = {'file': file}; d.update(kw); d['name'] = name or file[:-4]; return d
def types(file, *ts, **kw): return [U(file, file[:-4] + '_' + t, defs=['TYPE=' + t] + kw.get('defs', []), **{k: v for k, v in kw.items() if k != 'defs'}) for t in ts]
C('C01', 'images up to 3x3 (thorough 5x5), all 32-bit coordinates and rectangles, nested twice, every pixel value', 'C01_gray.cpp')
C('C02', 'two images, owner or view, 3-4 shapes each incl. empty, histories of 3 (thorough 4) operations, every pixel value', *types('C02_copy.cpp', 'uint8_t', 'float'))
C('C03', 'shapes up to 2x2 with 0-3 bands (thorough 3x3), all 32-bit coordinates, two-step reshape histories, every pixel value', *types('C03_interleaved.cpp', 'uint8_t', 'int32_t', 'float'))
C('C04', 'histories of 3 (thorough 4) reshapes with sides 0..2 (thorough 0..3)', 'C04_reshape.cpp')
C('C05', 'sequences of 3 (thorough 4) operations, lengths 0..3 (4), every element value and index, 1-, 4- and 8-byte elements', *types('C05_growarray.cpp', 'uint8_t', 'int32_t', 'double'))
C('C06', 'sequences of 5 (thorough 6) operations, block sizes 1..3 (4), every element value and 32-bit index', *types('C06_packedset.cpp', 'int32_t', 'uint8_t'))
C('C39', 'sides 0..3, 0..3 bands, two band-count changes, every pixel value', *types('C39_planar.cpp', 'uint8_t', 'float'))
C('C10', 'images 1..4 x 1..3 (thorough 6x6), every coordinate in [-64,64] (thorough [-100000,100000]), every pixel value', *types('C10_border.cpp', 'uint8_t', 'float'))
C('C25', 'images 1..3 x 1..3 (thorough 5x4), every pixel value (float sums over exact reals)', *(types('C25_stats.cpp', 'uint8_t', 'int16_t', 'int32_t', 'uint16_t') + [U('C25_stats.cpp', 'C25_stats_float', defs=['TYPE=float'], real=True), U('C25_stats.cpp', 'C25_stats_double', defs=['TYPE=double'], real=True)]))
C('C26', 'images up to 3x2 (2x2 for 16-bit; thorough 4x3), 1..3 (6) bins, every pixel value, minimum and stale bin content', *types('C26_histogram.cpp', 'uint8_t', 'int16_t', 'uint16_t'))
C('C27', 'images up to 4x4 (thorough 6x5), every radius 0..4 (6), every value; fill_uniform over every generator output for 9 ranges', *types('C27_fill.cpp', 'uint8_t', 'int16_t', 'int32_t', 'float'))
C('C28', 'shapes up to 2x2 (thorough 3x2), 1..3 (4) bands, every pixel value (float over exact reals)', *(types('C28_average.cpp', 'uint8_t', 'uint16_t', 'int16_t', 'int32_t') + [U('C28_average.cpp', 'C28_average_float', defs=['TYPE=float'], real=True)]))
C('C32', 'all doubles in the stated ranges, bit precise', 'C32_config.cpp')
C('C40', 'all coordinates with representable squared distance (differences up to 100 for the converse direction)', *(types('C40_distance.cpp', 'uint8_t', 'int16_t', 'uint16_t', 'int32_t', 'int64_t') + [U('C40_distance.cpp', 'C40_distance_float', defs=['TYPE=float'], real=True), U('C40_distance.cpp', 'C40_distance_double', defs=['TYPE=double'], real=True)]))
C('C17', 'images up to 3x3', 'C17_threshold.cpp')
def conv(file, *pairs, **kw): return [U(file, '%s_%s_%s' % (file[:-4], a, b), defs=['TIN=' + a, 'TOUT=' + b], real=a in ('float', 'double'), **kw) for a, b in pairs]
C('C11', 'kernel widths 1..13, every offset, sizes 1, k, k+1, k+2 along the kernel (thorough k-1, 2k) and 1..2 across, 4 borders, sub-images, every pixel and kernel value (32-bit wrap-around; floats over exact reals)', *conv('C11_conv1d.cpp', ('uint8_t', 'int32_t'), ('uint8_t', 'int16_t'), ('int16_t', 'int16_t'), ('int16_t', 'int32_t'), ('float', 'float')))
C('C12', 'kernel widths 1..5 (thorough 7), every offset, sides k-1..k+2, 4 borders, sub-images, every pixel and kernel value (32-bit wrap-around; floats over exact reals)', *conv('C12_conv2d.cpp', ('uint8_t', 'int32_t'), ('uint8_t', 'int16_t'), ('int16_t', 'int16_t'), ('int16_t', 'int32_t'), ('float', 'float')))
C('C13', 'widths 1..13 (2D 1..4, thorough 6), every offset, image k..k+2, sub-images, every pixel, kernel value and positive divisor (floats over exact reals)', *conv('C13_inner.cpp', ('uint8_t', 'uint8_t'), ('uint8_t', 'int32_t'), ('int16_t', 'int16_t'), ('float', 'float')))
C('C14', 'widths 1..13 (convolve 1..4), every offset, sizes 1..k+3 along the kernel, weights 1..4000 or -2000..2000 with non-zero partial sums, every pixel value (floats over exact reals)', *(types('C14_normalized.cpp', 'uint8_t', 'int16_t') + [U('C14_normalized.cpp', 'C14_normalized_float', defs=['TYPE=float'], real=True)]))
C('C08', {'quick':'1D widths 1..15, derived widths for sigma <= 5 (1D) and <= 1.7 (2D), 2D widths 1..5 (sum and sign 1..3), integer 1D widths 1..9 and 2D 1..2, every sigma in [0.05,50] (integer kernels [0.4,20]) over exact reals, exp uninterpreted but positive and strictly increasing; helpers: every radius/sigma in [-1000,1000], orders 0..4','thorough':'the same with 1D widths 1..31, derived widths sigma <= 12 / 3.3, 2D 1..7, integer 1D 1..15'}, *[U('C08_gaussian.cpp', 'C08_gaussian_' + t, defs=['TYPE=' + t], real=True, forkround=16) for t in ('float', 'double')])
C('C09', '1D widths 1..6 (thorough 13), 2D 1..3 (4), every element value (abs < 1e8 for S32), every 32-bit index and offset; floats over exact reals', *(types('C09_kernels.cpp', 'int32_t', 'int16_t', 'uint8_t', nocover=['float_to_int']) + [U('C09_kernels.cpp', 'C09_kernels_' + t, defs=['TYPE=' + t], real=True, nocover=['float_to_int'] if t == 'float' else []) for t in ('float', 'double')]))
C('C15', 'every shape with sides 1..2r+3 for radius 1..2, sides {1,2,2r..2r+3} for radius 3..4 (thorough 7), sub-images, every pixel value and previous content of output and work images (floats over exact reals)', *(types('C15_meanblur.cpp', 'uint8_t', 'int16_t', 'uint16_t', 'int32_t') + [U('C15_meanblur.cpp', 'C15_meanblur_float', defs=['TYPE=float'], real=True)]))
C('C16', '13 concrete (sigma,width) pairs covering given, derived and rejected parameters (kernel widths 1..15) plus, for floats, every sigma in [0.4,6] with widths 1..5; sides 1, 2, k, k+1, k+2, sub-images, every pixel value; non-negative constant images (floats over exact reals)', *([U('C16_gaussblur.cpp', 'C16_gaussblur_' + t, defs=['TYPE=' + t], nocover=['any sigma']) for t in ('uint8_t', 'int16_t')] + [U('C16_gaussblur.cpp', 'C16_gaussblur_float', defs=['TYPE=float'], real=True)]))
C('C19', 'histograms of 1..4 (thorough 5) bins with every set of empty bins and of 256 bins with 2 or 3 in use, every count 1..1000, tuning in [0,10], scale in [0,2] (doubles over exact reals); images up to 3 pixels wide with 1..3 (4) grey levels and 3 minima', *[U('C19_otsu.cpp', 'C19_otsu_' + t, defs=['TYPE=' + t], real=True, nocover=[] if t == 'uint8_t' else ['threshold', 'options', '256 bins']) for t in ('uint8_t', 'int16_t')])
C('C23', 'sides 0..3 (thorough 5x4), every pixel value, sub-images, output a fresh image of another shape, a sub-image, or either input', 'C23_logic.cpp')
C('C24', 'every binary image with sides 0..5 (thorough 0..7), sub-images', 'C24_morph.cpp')
C('C18', '11 region widths (fixed, relative, rejected), 8 shapes with sides 1..5 (thorough 9, up to 6), both directions, scales 0.95, 1 and every scale in [0,2], sub-images, every pair of shapes for a reused filter, every pixel value (S16 with bit-precise floats, others over exact reals)', *(types('C18_localmean.cpp', 'uint8_t', 'float', real=True) + types('C18_localmean.cpp', 'int16_t')))
C('C20', 'sides 0..7 with width+height <= 11 (thorough 0..11, 19), 10 block sizes (fixed, relative, rejected), local or not, both directions, scales 1 and 0.9, sub-images, reused filter, every pixel value (U8 and float over exact reals, S16 with bit-precise floats)', *(types('C20_blockmean.cpp', 'uint8_t', 'float', real=True) + types('C20_blockmean.cpp', 'int16_t')))
C('C21', 'sides 0..6 with width+height <= 9 (thorough 0..9, 14), 10 block sizes, 5 spreads with 3 scales, local or not, both directions, sub-images, reused filter, every pixel value (floats over exact reals)', *(types('C21_blockminmax.cpp', 'uint8_t', 'float', 'int16_t', real=True)))
C('C22', 'sides 0..5 with up to 15 pixels (thorough 7, 25), 10 block sizes, local or not, both directions, 3 option sets, every image over 4 neighbouring intensities from 0, 126 or 252, the threshold an arbitrary linear function of histogram, count and options, sub-images, reused filter', *(types('C22_blockotsu.cpp', 'uint8_t', 'float', real=True)))
C('C29', 'every binary image with up to 12 pixels and sides up to 5x4 (thorough 16 pixels), 13 larger patterns up to 9x3 and 7x7 with up to 14 free pixels, both rules, sub-images up to 9 pixels', U('C29_label.cpp', nomerge=True))
C('C30', 'every binary image with up to 12 pixels and sides up to 5x4 (thorough 16 pixels), 13 larger patterns up to 9x3 and 7x7 with up to 14 free pixels, both rules', U('C30_contour.cpp', nomerge=True))
C('C31', 'reuse: all pairs of 3x2 and 2x3 images and 4 pairs of 3x3/4x4 patterns with up to 12 free pixels, preceded by the same or another shape, rule unchanged or switched; limits: every 3x3 image and 3 larger patterns with holes, every minimum 0..9 and maximum 0..13, internal contours saved or not', U('C31_reuse.cpp', nomerge=True))
C('C07', 'checkSameShape: every 32-bit shape of two or three images; operations needing equal shapes: every pair of different 32-bit shapes; all operations: inputs 1..3 x 1..3 against previous outputs 0..4 x 0..4, stand-alone and sub-images', *(types('C07_shapes.cpp', 'uint8_t', real=True) + types('C07_shapes.cpp', 'float', 'int16_t', real=True, nocover=['different inputs'])))

def jni(file, **kw): return [U(file, '%s_%s' % (file[:-4], t), defs=['TYPE=' + t], real=True, jni=True, **kw) for t in ('uint8_t', 'float')]
C('C36', '13 image entry points with integer and float images: sides 0..3 x 0..2, every pixel value, working and failing configurations (every unsupported border, every bad origin, zero radius, rejected region, other shape, other bit depth), each array access failing in turn', *jni('C36_jni.cpp', covers=['failing array access', 'failing operation']), U('C36_contour.cpp', jni=True, nomerge=True))
C('C37', '13 image entry points with integer and float images: sides 1..3, three start indices and two strides, six configurations, every kernel origin, every pixel value', *jni('C37_jni.cpp', covers=['result', 'convolution']), U('C37_contour.cpp', jni=True, nomerge=True))
C('C33', '24 operations, sides 1..4 with up to 12 pixels (thorough 6, 20; block Otsu 4, 9; histogram 6), kernel widths 1..4 / radii 0..3 / block sizes 1..4, five placements of inputs, outputs and work images incl. whole rows, every pixel value and previous content', *types('C33_views.cpp', 'uint8_t', 'float', 'int16_t', real=True))
C('C34', 'all operations, sides 0..4 (thorough 5; block Otsu up to 4 and histogram up to 6 pixels), kernel widths 1..7 with first, middle and last origin, radii 0..6, block sizes 0..4 and relative, every pixel value', *types('C34_degenerate.cpp', 'uint8_t', 'float', 'int16_t', real=True))
C('C35', '22 operations, sides 1..4 with up to 12 pixels (thorough 6, 20; block Otsu 4, 9; histogram 6), kernel widths 1..4 / radii 0..3 / block sizes 1..4, five previous shapes of output and work images with every content, filters used before on an image of five shapes with every pixel value', *types('C35_stale.cpp', 'uint8_t', 'float', 'int16_t', real=True))
