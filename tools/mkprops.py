#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the text of the properties is here)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))

prop('C01', 'The palette never exceeds the limits and every way of reading it agrees',
 'Whenever quantization succeeds, the palette has between 1 and max_colors entries, and never more entries than there are distinct influential colors (all fully transparent colors being one) plus fixed colors in the input. Every way of reading the palette (length, slice, owned copy, the palette returned by remapping, the C palette) shows the same entries, and repeated reads keep showing the same entries until the user changes a setting or remaps.',
 ['inputs', 'configurations', 'histories'], 'all images and histograms, all attributes, all sequences of calls on a result',
 'tests look at the palette of a handful of images and settings; the number of colors depends on the image, posterization, fixed colors, speed and search trials',
 ['src/quant.rs', 'src/mediancut.rs', 'src/pal.rs', 'src/hist.rs', 'imagequant-sys/src/ffi.rs'],
 [('pal_limited / colormap limits', 'src/pal.rs'), ('find_best_palette', 'src/quant.rs'), ('median cut target', 'src/mediancut.rs'), ('int_palette', 'src/quant.rs')],
 [('max_colors', 'limit set by the user', 'src/attr.rs'), ('palette, int_palette', 'float palette and its rounded copy', 'src/quant.rs')], ['palette()', 'palette_len()', 'remapped()', 'liq_get_palette'])
prop('C02', 'Remapping writes a complete in-range bitmap and nothing else',
 'A successful remapping assigns to each of the width x height pixels an index smaller than the palette length, and writes nowhere outside the first width x height bytes of the output (or the given rows). An output buffer that is too small is refused with BufferTooSmall and left untouched; a palette with more than 256 entries is refused because indices are 8-bit.',
 ['inputs', 'configurations', 'histories'], 'all images, palettes (also palettes of other images), dithering levels, buffer sizes, and both remapping APIs',
 'tests remap a few images into exactly sized buffers',
 ['src/quant.rs', 'src/remap.rs', 'src/rows.rs', 'src/seacow.rs', 'imagequant-sys/src/ffi.rs'],
 [('write_remapped_image_rows_internal', 'src/quant.rs'), ('remap_to_palette', 'src/remap.rs'), ('remap_to_palette_floyd', 'src/remap.rs'), ('RowBitmapMut', 'src/seacow.rs')],
 [], ['remapped()', 'remap_into()', 'remap_into_vec()', 'liq_write_remapped_image', 'liq_write_remapped_image_rows'])
prop('C03', 'Images whose colors fit in the palette are reproduced exactly',
 'If the distinct influential colors and fixed colors together number at most max_colors, maximum quality is 100, no posterization is requested and (at speeds of 8 and above, which ignore the lowest bit) no two of the colors differ only in ignored bits, then the palette is exactly the set of these colors without duplicates, the reported error is 0 and quality 100. Remapping an image that has only these colors, dithered or not, gives back every pixel exactly (fully transparent pixels staying fully transparent).',
 ['inputs', 'configurations', 'histories'], 'all such images, through images and histograms, all speeds, gammas, dithering levels, importance maps and representations',
 'tests check a few tiny images; exactness depends on gamma round trips, hashing, color merging, search trials and error diffusion',
 ['src/hist.rs', 'src/quant.rs', 'src/pal.rs', 'src/remap.rs', 'src/nearest.rs'],
 [('few colors shortcut', 'src/quant.rs find_best_palette'), ('histogram hashing', 'src/hist.rs'), ('gamma lut and inverse', 'src/pal.rs'), ('vantage point tree', 'src/nearest.rs')],
 [], ['quantize()', 'palette()', 'remapped()', 'quantization_error()'])
prop('C04', 'Fixed colors are in the palette exactly, as long as they fit',
 'Every distinct fixed color added to an image or a histogram (the first max_colors of them, if more were added) appears in the palette with exactly its value, or its posterized level if posterization is requested, before and after remapping with or without dithering. The same fixed color added repeatedly (all fully transparent colors being one) takes only one entry, and adding more fixed colors than a palette can hold is an error.',
 ['inputs', 'configurations', 'histories'], 'all fixed colors (near to or far from image colors, transparent ones), all images, histograms, limits, speeds, sequences of additions',
 'tests add one or two fixed colors; palette refinement and dithered remapping later change colors',
 ['src/image.rs', 'src/hist.rs', 'src/quant.rs', 'src/pal.rs', 'src/kmeans.rs'],
 [('add_fixed_color', 'src/image.rs, src/hist.rs'), ('PalPop is_fixed', 'src/pal.rs'), ('refine_palette / with_fixed_colors', 'src/quant.rs'), ('Kmeans::finalize skips fixed', 'src/kmeans.rs')],
 [('fixed_colors', 'colors the user pinned', 'src/image.rs, src/hist.rs')], ['palette()', 'liq_image_add_fixed_color', 'liq_histogram_add_fixed_color'])
prop('C05', 'Minimum quality is a gate that is never let through',
 'When a minimum quality is set, quantization either fails with QualityTooLow or gives a result whose reported quantization quality is at least the minimum; it never fails that way when no minimum is set or when the image can be reproduced exactly. Whether it fails does not change what other calls do.',
 ['inputs', 'configurations'], 'all images, histograms, minimum/target pairs, speeds, color limits',
 'tests try a couple of images and limits far from the threshold',
 ['src/quant.rs', 'src/attr.rs', 'src/image.rs'],
 [('max_mse check', 'src/quant.rs QuantizationResult::new'), ('quality_to_mse', 'src/quant.rs'), ('find_best_palette', 'src/quant.rs')],
 [('max_mse, target_mse', 'limits derived from quality', 'src/attr.rs')], ['quantize()', 'quantization_quality()', 'liq_image_quantize'])
prop('C06', 'Settings accept exactly the documented ranges, atomically, and read back',
 'Each setter (colors 2-256, quality 0-100 with min<=max, speed 1-10, posterization 0-4, dithering 0-1, output gamma between 0 and 1 exclusive) accepts exactly its documented range and otherwise reports ValueOutOfRange and changes nothing. Getters return what was last accepted for that object; a copied object starts with the same settings and is independent afterwards; an accepted dithering level or gamma leaves everything else about the result unchanged.',
 ['inputs', 'histories'], 'all values (any integer through the C API, any float including NaN and infinities), all interleavings of setters on several objects and their copies',
 'tests set a few valid values and one or two invalid ones',
 ['src/attr.rs', 'src/quant.rs', 'imagequant-sys/src/ffi.rs', 'imagequant-sys/libimagequant.h'],
 [('set_*', 'src/attr.rs'), ('set_dithering_level, set_output_gamma', 'src/quant.rs'), ('liq_set_*', 'imagequant-sys/src/ffi.rs')],
 [('Attributes', 'settings', 'src/attr.rs')], ['getters of Attributes and QuantizationResult', 'liq_get_*'])
prop('C07', 'Without dithering every pixel gets the perceptually nearest palette color',
 'When dithering is off (and no background is set), every pixel of the output is assigned a color of the returned palette whose perceptual difference from the source pixel (alpha-weighted difference on the worse of black and white background, in the image gamma) is the smallest in the whole palette, up to rounding. This holds for every image, including images other than the one the palette was made for.',
 ['inputs', 'configurations', 'histories'], 'all pixels of all images, all palettes, all gammas, with and without threads',
 'no test compares pixels with an exhaustive search of the palette; the search tree prunes and guesses from the neighbouring pixel',
 ['src/nearest.rs', 'src/remap.rs', 'src/pal.rs'],
 [('Nearest::search', 'src/nearest.rs'), ('remap_to_palette', 'src/remap.rs'), ('f_pixel::diff', 'src/pal.rs')],
 [], ['remapped() with set_dithering_level(0)'])
prop('C08', 'Reported errors and qualities are true',
 'The remapping error reported after undithered remapping equals the mean perceptual square error between the image and the output computed from the pixels. Quantization error is fixed once the palette is made, before remapping the remapping error equals it, and each reported quality is exactly the one that the reported error corresponds to (100 only for an error of zero or nearly so, non-increasing with the error). At speeds that do not repeat the search (7 and faster), the quantization error of opaque colors is never understated: the mean difference of the colors from the nearest colors of the returned palette, weighted as in the histogram, is at most the reported error, up to rounding of the palette to 8 bits.',
 ['inputs', 'configurations', 'histories'], 'all images, palettes, dithering and remapping histories',
 'tests only compare errors with a constant for a few images',
 ['src/quant.rs', 'src/remap.rs', 'src/attr.rs'],
 [('palette_error / remapping error', 'src/quant.rs'), ('mse_to_quality', 'src/quant.rs'), ('remap_to_palette error sum', 'src/remap.rs')],
 [], ['quantization_error()', 'quantization_quality()', 'remapping_error()', 'remapping_quality()'])
prop('C09', 'Background shows through exactly where it is at least as good',
 'With a background image set and a fully transparent color in the palette, a pixel is remapped without dithering to the transparent entry when the background pixel is closer to the source pixel than every palette color, and to the nearest color when it is farther; pixels equal to the background become transparent, and an image equal to its background becomes fully transparent also with dithering. Without a transparent color in the palette the background has no effect; a background of a different size, or one having its own background, is refused.',
 ['inputs', 'configurations', 'histories'], 'all pairs of images, palettes, dithering levels',
 'one test uses one background',
 ['src/image.rs', 'src/remap.rs', 'src/quant.rs'],
 [('set_background', 'src/image.rs'), ('transparent_index / bg diff', 'src/remap.rs')],
 [], ['set_background()', 'liq_image_set_background', 'remapped()'])
prop('C10', 'Importance maps weigh the palette, stay the user\'s, and are never altered',
 'The palette made from an image with an importance map depends on a pixel only in proportion to its importance: pixels of importance 0 do not affect the palette at all, and maximal importance everywhere is the same as plain counting of pixels. A map is accepted only if it has the size of the image, and no later call (quantization, remapping, refused map) alters or forgets it.',
 ['inputs', 'histories'], 'all images, maps, and sequences of calls between setting the map and using the image again',
 'one test covers a zero-importance region',
 ['src/image.rs', 'src/hist.rs', 'src/quant.rs', 'imagequant-sys/src/ffi.rs'],
 [('set_importance_map', 'src/image.rs'), ('add_image weights', 'src/hist.rs')],
 [('importance_map', 'per-pixel weight', 'src/image.rs')], ['set_importance_map()', 'liq_image_set_importance_map', 'palette()'])
prop('C11', 'A palette made from a histogram is shared: remapping never changes it',
 'Once a palette has been made from a histogram, remapping any number of images with it, dithered or not, leaves the palette as it was (only the invisible RGB of fully transparent entries may differ), so all images use the same colors. Only changing output gamma converts it.',
 ['inputs', 'histories'], 'all histograms, images, dithering levels, sequences of remapping',
 'a test remaps two images once',
 ['src/quant.rs', 'src/hist.rs'],
 [('optimize_for / freeze_result_colors', 'src/hist.rs, src/quant.rs'), ('palette freezing', 'src/quant.rs')],
 [], ['Histogram::quantize()', 'palette() after remapped()'])
prop('C12', 'Palette is ordered by opacity; the transparent color is last on request',
 'Entries that are not fully opaque come before all opaque entries in the palette; when the last index is asked to be transparent, opaque entries come first and the last entry is the most transparent one. This holds after quantization and still after undithered or shared-palette remapping.',
 ['inputs', 'configurations'], 'all images with any mix of alpha, fixed colors, histograms, limits',
 'a test checks one image',
 ['src/quant.rs'], [('sort_palette', 'src/quant.rs')], [], ['palette()', 'set_last_index_transparent()'])
prop('C13', 'Posterized palettes use only the allowed levels',
 'When minimum posterization of b bits is set, every channel of every visible palette entry has a level that survives truncation to 8-b bits (low bits are copies of the high bits), after quantization, remapping with or without dithering, and changing of output gamma.',
 ['inputs', 'configurations', 'histories'], 'all images, fixed colors, posterization bits, gammas, remapping histories',
 'tests do not cover posterization after remapping or with fixed colors',
 ['src/pal.rs', 'src/quant.rs', 'src/attr.rs'], [('init_int_palette / posterize', 'src/pal.rs')], [], ['palette()'])
prop('C14', 'Progress is sane and abort requests are obeyed without damage',
 'A progress callback gets only percentages between 0 and 100 and is called only by the object it was set on; it is called at least once by every successful operation. When it asks to stop, the operation fails with Aborted instead of returning a result, even if it asks only once, and afterwards attributes and histograms work as if the call had not been made, the palette, settings and errors of a result read back unchanged, and all the objects can be used again (an image whose remapping was stopped may have released its source pixels, which later calls report as Unsupported).',
 ['inputs', 'histories', 'fault_sequences'], 'all operations with the abort at every possible callback, and all calls after it',
 'a test aborts at one point',
 ['src/attr.rs', 'src/quant.rs', 'src/hist.rs', 'src/remap.rs', 'src/image.rs', 'imagequant-sys/src/ffi.rs'],
 [('progress / progress_with_fn', 'src/attr.rs, src/quant.rs'), ('check_break', 'src/quant.rs, src/remap.rs')], [], ['set_progress_callback', 'liq_attr_set_progress_callback', 'liq_result_set_progress_callback'])
prop('C15', 'Results do not depend on how the pixels are supplied',
 'The same pixels give the same palette, errors and bitmap whether supplied as an owned or borrowed slice, with a stride and padding, as row pointers, or by a row callback, through Rust or C, and contents of padding have no influence. A row callback is only called with rows and widths of the image and a buffer of the right size.',
 ['inputs', 'configurations'], 'all images in all representations, strides and paddings',
 'tests create an image in one representation',
 ['src/image.rs', 'src/rows.rs', 'src/seacow.rs', 'src/attr.rs', 'imagequant-sys/src/ffi.rs'], [('PixelsSource, DynamicRows', 'src/rows.rs'), ('SeaCow', 'src/seacow.rs')], [], ['new_image*', 'liq_image_create_*'])
prop('C16', 'Clones are equal and independent',
 'A clone of an image or a result behaves as the original did when cloned, and nothing done to either of them afterwards (including dropping it) affects the other. Memory of the original is not used after it has been dropped.',
 ['histories'], 'all interleavings of calls on an object and its clones',
 'tests clone once and drop',
 ['src/image.rs', 'src/rows.rs', 'src/seacow.rs', 'src/quant.rs'], [('Clone of DynamicRows, SeaCow', 'src/rows.rs, src/seacow.rs'), ('Clone of QuantizationResult', 'src/quant.rs')], [], ['clone()'])
prop('C17', 'Results are deterministic: no dependence on schedule, threads or memory',
 'The same calls with the same inputs give bit-identical palettes, errors and bitmaps on every run, whatever the number of threads, their interleaving, other work in the process, or previous contents of memory. Builds with and without threads agree as well, except that dithering of tall images may be split in chunks.',
 ['schedules', 'inputs', 'configurations'], 'all schedules of the thread pool, sizes of it, all images',
 'tests run once and do not compare runs',
 ['src/remap.rs', 'src/kmeans.rs', 'src/image.rs', 'src/hist.rs', 'src/rayoff.rs'], [('thread-local accumulators merged in order', 'src/remap.rs, src/kmeans.rs'), ('chunks of rows', 'src/remap.rs'), ('uninitialized buffers', 'src/seacow.rs, src/rows.rs')], [], ['palette()', 'remapped()', 'errors'])
prop('C18', 'C API: memory handed over is freed exactly once, and nothing leaks',
 'A buffer whose ownership was given to the library (rows, pixels, importance map, background image) is freed exactly once with the given free function, not before the object that owns it is destroyed (or the call refuses a background); buffers that were not given, or were refused, are never freed. After all objects are destroyed no memory of the library remains.',
 ['histories', 'fault_sequences'], 'all sequences of C calls giving ownership, including refused and repeated ones',
 'tests hand over one buffer',
 ['imagequant-sys/src/ffi.rs', 'src/image.rs', 'src/rows.rs', 'src/seacow.rs'], [('liq_image_set_memory_ownership', 'imagequant-sys/src/ffi.rs'), ('Drop of SeaCow, free_owned', 'src/seacow.rs, src/rows.rs')], [], ['liq_image_set_memory_ownership', 'liq_image_set_importance_map', 'liq_image_destroy'])
prop('C19', 'C API: bad pointers are refused, and it equals the Rust API',
 'Every C function given NULL (or a destroyed-type or wrong-type object) in place of an object or required buffer returns an error (or NULL, or -1) and leaves other objects usable; failed constructors return NULL. With valid arguments every C call gives the same statuses, palettes, errors and bitmaps as the corresponding Rust call.',
 ['inputs', 'histories'], 'all functions and arguments, all sequences of calls run through both APIs',
 'tests of the C API check a few NULLs and one sequence',
 ['imagequant-sys/src/ffi.rs', 'imagequant-sys/libimagequant.h'], [('bad_object! / check magic', 'imagequant-sys/src/ffi.rs')], [], ['liq_*'])
prop('C20', 'No input makes the library panic, hang, or fail for no reason',
 'No sequence of API calls on valid objects panics, crashes, overflows, or hangs, whatever the pixels, sizes, settings and order of calls. Quantization and remapping fail only for the documented reasons: quality too low, abort requested, no colors at all, or (after remapping) source pixels no longer available.',
 ['inputs', 'histories', 'configurations'], 'all sequences of calls, extreme sizes, all-transparent and one-pixel images, extreme gammas, debug and release builds',
 'tests follow the intended order of calls with ordinary images',
 ['src/quant.rs', 'src/mediancut.rs', 'src/kmeans.rs', 'src/nearest.rs', 'src/remap.rs', 'src/hist.rs', 'src/blur.rs', 'src/image.rs'], [('arithmetic and indexing', 'src/*.rs')], [], ['every call'])
prop('C21', 'Image creation validates its input exactly',
 'An image is created exactly when its width and height are positive and not absurdly large, stride is not less than the width, the buffer holds all rows (the last row needs no padding) and gamma is between 0 and 1; the image then has exactly the given width and height. Otherwise creation fails with an error (ValueOutOfRange or BufferTooSmall, NULL in C).',
 ['inputs'], 'all combinations of width, height, stride, buffer length, gamma, in both APIs',
 'tests try a few sizes',
 ['src/image.rs', 'src/attr.rs', 'src/rows.rs', 'src/seacow.rs', 'imagequant-sys/src/ffi.rs'], [('new_internal / check_image_size', 'src/image.rs, src/attr.rs'), ('size checks', 'imagequant-sys/src/ffi.rs')], [], ['new_image*', 'width()', 'height()', 'liq_image_create_*'])
prop('C22', 'Histograms accumulate colors and weights faithfully',
 'A histogram holds exactly the colors added to it by all images and color lists, weighted by how often (and how importantly) they were added, in any order and mix of calls: in a palette that fits all colors, fixed colors come first and the others are sorted from the most to the least popular within each opacity class. Colors that differ only in bits ignored because of posterization (or the highest speeds) count as one color, which is one of them and has the sum of their weights. Entries of zero count are ignored, invalid gamma or empty lists are refused without effect.',
 ['inputs', 'histories'], 'all sequences of additions',
 'tests add a few colors',
 ['src/hist.rs', 'src/quant.rs', 'imagequant-sys/src/ffi.rs'], [('add_color, add_colors, add_image, finalize_builder', 'src/hist.rs'), ('sort_palette', 'src/quant.rs')], [('hashmap', 'color to weight', 'src/hist.rs')], ['Histogram::quantize()', 'palette()'])
prop('C23', 'Palette colors come from the range of the input colors',
 'No palette entry has a channel (red, green, blue of visible entries, or alpha) outside of the range of that channel in the influential and fixed colors of the input, up to posterization levels.',
 ['inputs', 'configurations'], 'all images, histograms, settings',
 'tests compare palettes of a few images with constants',
 ['src/mediancut.rs', 'src/kmeans.rs', 'src/pal.rs', 'src/quant.rs'], [('averages of boxes', 'src/mediancut.rs'), ('Kmeans', 'src/kmeans.rs'), ('to_rgb and gamma inverse', 'src/pal.rs')], [], ['palette()'])
prop('C24', 'Dithering is Floyd-Steinberg error diffusion of the chosen strength',
 'With dithering on, pixels are visited in serpentine order and each gets the palette color perceptually nearest to its own color plus the error carried to it. The difference between that sum and the displayed color is carried to the pixel ahead and to three pixels of the next row (7, and 3, 5, 1 sixteenths), and errors are multiplied by 15/16*(1-(1-level)^2) when added. At speed 6 or slower, in images at least 4 pixels wide and high, they are multiplied also by a map (0-255, divided by 255) of flat areas, which is made in the first dithered remapping of the image and kept: contrast of each pixel with its neighbours reduces it (by edges, and by noise that is wider than edges), and then it is reduced by up to everything where undithered remapping of the image gives short runs of the same color with few equal neighbours above and below. At speed 7 or faster no map is used. Unnoticeable errors are not added, the sum may leave the range of red, green and blue by at most 0.1, and errors greater than a limit that follows from the error of the palette are reduced (by a fifth when added, by a quarter when carried further). The displayed color is the color of the background where the background is used. It does not depend on who calls, the number of pixels per row, or threads, except that images taller than 128 pixels may be processed in two parts, the second of which takes up errors of the two rows above it.',
 ['inputs', 'configurations', 'histories'], 'all images, palettes, levels, gammas and backgrounds',
 'tests only run dithering and look at no pixels',
 ['src/remap.rs', 'src/quant.rs', 'src/image.rs', 'src/blur.rs'], [('contrast_maps, update_dither_map', 'src/image.rs'), ('dither_row, get_dithered_pixel, remap_to_palette_floyd', 'src/remap.rs'), ('write_remapped_image_rows_internal', 'src/quant.rs')], [('diffusion', 'errors carried to this and the next row', 'src/remap.rs')], ['set_dithering_level()', 'remapped()', 'liq_set_dithering_level', 'liq_write_remapped_image'])
prop('C25', 'Log and flush callbacks are called for the object they were set on',
 'Log messages are delivered only to the callback currently set on the attributes used in the call, with that object, and a flush callback is called exactly once when the callbacks are replaced or the attributes are destroyed. Copies of attributes keep the log callback of the original and setting one object\'s callbacks never affects another.',
 ['histories'], 'all sequences of setting, clearing, copying, using, destroying',
 'one test logs once',
 ['src/attr.rs', 'imagequant-sys/src/ffi.rs'], [('verbose_print, flush', 'src/attr.rs'), ('liq_set_log_callback', 'imagequant-sys/src/ffi.rs')], [], ['set_log_callback', 'set_log_flush_callback', 'liq_set_log_*'])
prop('C26', 'Output gamma converts the palette to the same light',
 'Before output gamma is set it equals the gamma of the input. Setting it re-expresses each palette color in the new gamma so that it denotes the same light intensity (up to one rounding step), with alpha unchanged, however many times it is changed and whatever was read or remapped in between.',
 ['inputs', 'histories'], 'all palettes, gammas, and histories of reads, remaps and changes of gamma',
 'no test changes gamma after reading the palette',
 ['src/quant.rs', 'src/pal.rs'], [('set_output_gamma', 'src/quant.rs'), ('gamma_lut, to_rgb', 'src/pal.rs')], [('gamma', 'output gamma', 'src/quant.rs')], ['set_output_gamma()', 'output_gamma()', 'palette()'])
prop('C27', 'Remapping improves the palette only by moving colors to the average of their pixels',
 'Remapping without dithering, or at speeds faster than 6, or with an image that has been remapped with dithering already, does not change the palette, and the reported remapping error of a dithered image is then the quantization error. The first dithered remapping of an image at slower speeds may move colors of the palette, all of them at once: a color that is the nearest one to no pixel, a fixed color, and every color of a palette shared by images keeps its value, and any other color becomes the average of pixels that are nearest to it, weighted by their importance; the reported remapping error is that of the undithered image before colors were moved.',
 ['inputs', 'histories', 'configurations'], 'all images, importance maps, palettes, gammas and histories of remapping',
 'tests do not compare palettes before and after remapping',
 ['src/quant.rs', 'src/kmeans.rs', 'src/remap.rs', 'src/image.rs'], [('write_remapped_image_rows_internal', 'src/quant.rs'), ('Kmeans::update_color, finalize', 'src/kmeans.rs'), ('remap_to_palette', 'src/remap.rs')], [('averages', 'sums of pixels per color', 'src/kmeans.rs')], ['remapped()', 'palette()', 'remapping_error()'])
prop('C28', 'Noisy areas of an image weigh less in its palette, unless the user says otherwise',
 'When an image at least 4 pixels wide and high that has no importance map is quantized or added to a histogram at speed 7 or slower, importance of its pixels follows from its pixels: 255 in flat areas, less (but at least 80) where a pixel differs from its neighbours both horizontally and vertically, with thin edges disregarded (the map is widened, blurred, and narrowed). Weight of each color is the sum of this importance over its pixels, which is visible in the order of colors of equal opacity in a palette that has all the colors (one color counts for at most a tenth of the image), and in averages to which dithered remapping moves colors. The importance stays with the image for its later uses at any speed. At speed 8 or faster, and for smaller images, all pixels of an image that has not got importance before weigh the same.',
 ['inputs', 'configurations', 'histories'], 'all images, gammas, speeds and sequences of uses of an image',
 'tests do not look at weights of colors',
 ['src/image.rs', 'src/blur.rs', 'src/hist.rs'], [('contrast_maps', 'src/image.rs'), ('liq_blur, liq_max3, liq_min3', 'src/blur.rs'), ('add_image, add_pixel_rows', 'src/hist.rs')], [('importance_map', 'importance of pixels', 'src/image.rs')], ['quantize()', 'Histogram::add_image()', 'palette()', 'liq_quantize_image', 'liq_histogram_add_image'])
EXTRA = os.path.join(V, 'tools', 'props_extra.py')
if os.path.exists(EXTRA): exec(open(EXTRA).read())
P.sort(key=lambda p: p['id'])
with open(V + '/properties.jsonl', 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')

import re
note = ('Behaviours generated from and recorded for explicit TLA+ specification spec/Liq.tla: every recorded call of the real library has to be a step the specification allows. '
        'Exhaustive within the bounds of the generator for abstract histories; inputs (pixels, weights) are sampled. Trusts TLC, the driver and the color metric tables derived from documentation of gamma.')
def claimed():
    s = open(V + '/lib/suites.py').read()
    return [p['id'] for p in P if re.search(r'^def s_%s\(' % p['id'], s, re.M)]
c = claimed()
json.dump(dict(version=1, setup_cmd='python3 check.py --setup',
  checks=[dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --thorough' % i,
     technique='TLA+ specification checked with TLC; conformance of recorded traces of the real code (model-based)', level='model_checking', level_note=note) for i in c],
  not_applicable=[dict(property=p['id'], reason='no check yet') for p in P if p['id'] not in c],
  notes='See DESIGN.md. No hooks in /repo are needed: all observation is through public Rust and C APIs.'), open(V + '/MANIFEST.json', 'w'), indent=1)
