prop('C01', 'A symbol decodes to exactly the text it was made from',
 'For every text accepted in the numeric, alphanumeric, byte or Kanji mode, at every version 1-40 and error correction level, reading the saved symbol as ISO/IEC 18004 prescribes (format information, unmasking, placement order, de-interleaving, mode indicator, character count, characters) gives back exactly that text. After the characters come the terminator, zero bits up to a codeword boundary and the alternating pad codewords EC/11.',
 ['inputs', 'configurations'], 'every text of the listed lengths, version, level, mode and every mask that may be selected',
 'the tests check a few fixed strings and mostly that no error is returned; none reads a symbol back, and none covers all versions, levels, modes and lengths',
 ['encoder.go', 'qrcode.go', 'mask.go', 'matrix.go', 'version.go', 'version_cfg.go'],
 [('data encoding and padding', 'encoder.go'), ('block split, interleaving, placement', 'qrcode.go'), ('mask patterns', 'mask.go'), ('capacity tables', 'version_cfg.go')],
 'all texts of the listed lengths, symbolically; the mask penalty is unconstrained so all masks are covered; the oracle is an independent reader written from ISO/IEC 18004')

prop('C02', 'Every block is a codeword of its Reed-Solomon code, as ISO lays them out',
 'At every version and level the codewords of the saved symbol, de-interleaved into the number and lengths of blocks that ISO/IEC 18004 prescribes, form blocks each of which is a codeword of the Reed-Solomon code with the prescribed number of parity codewords. So up to half that number of damaged codewords per block can be corrected.',
 ['inputs', 'configurations'], 'every text of the listed lengths, at all 160 combinations of version and level',
 'no test computes a parity codeword or reads a block from a symbol; a wrong table entry or a wrong interleaving of one of 160 configurations is invisible to them',
 ['qrcode.go', 'version.go', 'version_cfg.go'],
 [('block split and interleaving', 'qrcode.go'), ('block tables', 'version_cfg.go')],
 'syndromes computed by an independent GF(256) implementation for the versions where the Reed-Solomon code is executed; elsewhere that dependency is an uninterpreted function')

prop('C03', 'Function patterns, format and version information are right',
 'In every saved symbol the finder patterns, separators, timing patterns, alignment patterns and the dark module stand where ISO/IEC 18004 puts them with the prescribed colours. Both copies of the format information are the valid 15-bit word of the requested error correction level and of the mask actually applied, and from version 7 on both copies of the version information are the word of the version.',
 ['inputs', 'configurations'], 'all 160 combinations of version and level, all 8 masks, any text',
 'the tests compare no module of a symbol with the standard, and exercise few versions',
 ['qrcode.go', 'version.go', 'version_cfg.go', 'matrix.go'],
 [('function pattern placement', 'qrcode.go'), ('format and version words', 'version.go'), ('alignment pattern positions', 'version.go')],
 'all versions, levels and masks; symbolic text; oracle computes BCH words and positions from the standard')

prop('C04', 'The smallest fitting version is chosen, and requested versions are honoured',
 'Without a requested version, the symbol has the smallest version whose ISO/IEC 18004 capacity for the level and mode holds the text, raised to the minimum version if that is larger, and an error is returned when no version 1-40 holds it. A requested version is used exactly as requested (also over a minimum version), and an error is returned when the text does not fit it.',
 ['inputs', 'configurations'], 'all levels and modes, every version boundary (capacity-1, capacity, capacity+1), every requested and minimum version',
 'the tests sample a few lengths; there are 640 capacity boundaries, each from its own table entry',
 ['version.go', 'version_cfg.go', 'qrcode.go', 'encoder_option.go', 'encoder.go'],
 [('version analysis', 'version.go'), ('capacity tables', 'version_cfg.go'), ('version selection and minimum version', 'qrcode.go')],
 'all boundaries of all 160 combinations of version and level in all modes; capacities computed from the standard, not from the tables')

prop('C05', 'The mode used suits every character of the text, or an error is returned',
 'With automatic mode the symbol uses numeric for texts of digits only, otherwise alphanumeric if all characters are among the 45 of that set, otherwise Kanji if all characters are kanji, otherwise byte, whatever the order of the characters, and the text decodes unchanged. A requested mode is used if all characters belong to it and otherwise an error is returned; byte mode takes any bytes, valid UTF-8 or not.',
 ['inputs'], 'all texts of up to 4 (thorough 6) characters over symbolic character classes and arbitrary bytes, in every order, automatic and requested mode',
 'the tests use a handful of strings; mixtures of classes in every order, and invalid UTF-8, are not reached',
 ['chardet.go', 'qrcode.go', 'encoder.go', 'encoder_option.go'],
 [('mode detection', 'chardet.go'), ('validation of a requested mode', 'qrcode.go')],
 'short texts with every character symbolic')

prop('C06', 'Kanji mode takes exactly the encodable kanji and gives their 13-bit values',
 'A CJK ideograph is put in a Kanji segment if and only if Shift JIS encodes it in the ranges 8140-9FFC or E040-EBBF, with the 13-bit value that ISO/IEC 18004 derives from its Shift JIS code. Any other character (other CJK ideographs, kana, symbols, full-width forms, other scripts) is never put in a Kanji segment: it goes to a byte segment, or is refused when Kanji mode was requested.',
 ['inputs'], 'all code points of the CJK pages and of other BMP pages, alone and followed by a kanji, automatic and requested mode',
 'the tests check under twenty characters of more than 6000',
 ['chardet.go', 'encoder.go'],
 [('kanji test', 'chardet.go'), ('Shift JIS conversion and packing', 'encoder.go')],
 'each page of 256 code points is one symbolic query; the reference table comes from Python\'s shift_jis codec')

prop('C07', 'The mask chosen is one of least penalty',
 'Of the eight masks, the symbol uses one whose penalty, computed as ISO/IEC 18004 7.8.3 prescribes over the whole symbol (runs of five and more, 2x2 blocks, finder-like patterns with four light modules on a side, share of dark modules), is not higher than that of any other mask.',
 ['inputs', 'configurations'], 'texts with a symbolic character in varied fixed surroundings, at versions 1-7, 10 and 20 and all levels',
 'the tests check two penalty rules on tiny matrices and never that the chosen mask is the best one',
 ['mask_evaluation.go', 'mask.go', 'qrcode.go', 'kmp_variant.go'],
 [('penalty rules', 'mask_evaluation.go'), ('choice of the mask', 'qrcode.go')],
 'the real penalty code is executed symbolically and compared with an independent one on all eight masks; 7-8 symbolic bits per job, about 110 jobs')

prop('C08', 'The same text and options always give the same symbol',
 'Building a symbol again from the same text and the same option values gives the same modules, in whatever order the concurrent mask evaluations run and report, whatever the penalties are, and whatever other symbols were built in between. A symbol does not change after it was built.',
 ['schedules', 'histories', 'inputs'], 'all arrival orders of the eight concurrent results, penalties arbitrary, several goroutine schedules; histories of other builds',
 'a test sees one schedule; the order in which eight goroutines report cannot be forced from outside',
 ['qrcode.go', 'mask.go', 'mask_evaluation.go', 'version.go', 'encoder_option.go'],
 [('concurrent mask evaluation', 'qrcode.go'), ('tables and caches shared between builds', 'version.go')],
 'the arrival order is symbolic, penalties are an uninterpreted function of the symbol; goroutines are not preempted between two synchronisation points')

prop('C09', 'Building and saving symbols concurrently is free of data races and correct',
 'Several goroutines may build and save symbols at the same time, with the same option values too: no two of them, nor the goroutines of one build, access the same memory without synchronisation, and each gets the symbol it would have got alone.',
 ['schedules', 'inputs'], 'two concurrent builds with their mask goroutines, two concurrent savings by the image, compressed and text writers with shared options; happens-before analysis of all accesses on every symbolic path',
 'no test builds symbols concurrently, and the race detector only sees the run it watches',
 ['qrcode.go', 'mask.go', 'version.go', 'encoder.go', 'encoder_option.go', 'writer/standard/writer.go', 'writer/compressed/writer.go', 'writer/file/writer.go'],
 [('goroutines of a build', 'qrcode.go'), ('drawing and encoding an image', 'writer/standard/writer.go')],
 'two concurrent builds, two concurrent savings with the same options; happens-before race detection (vector clocks) on every path of the symbolic execution')

prop('C10', 'Options outside their range are ignored, the last valid one wins, no panic',
 'A version or minimum version outside 1-40 and a level other than the four defined count as not given, and if an option is given several times the last valid value is used. An encoding mode that the library does not know, or that cannot encode the text, is refused with an error, never with a panic, and without options the level is quartile with mode and version chosen automatically. Strings, byte slices and types derived from them are all accepted and give the same symbol.',
 ['configurations', 'inputs'], 'all option values in and around the range and far from it, alone and combined, repeated options, all four kinds of text value',
 'the tests set a few valid values',
 ['encoder_option.go', 'qrcode.go', 'version.go'],
 [('option handling', 'encoder_option.go'), ('source types and validation', 'qrcode.go')],
 'option values are symbolic over the stated ranges and far outside')

prop('C11', 'Writers are told the kind of every module truly',
 'In the matrix handed to a writer, the type of each module is that of its place in ISO/IEC 18004: finder pattern, separator, timing pattern, dark module, format information, version information (from version 7 on), and data for all others, alignment patterns included, so that none is left uninitialised.',
 ['inputs', 'configurations'], 'all 40 versions, all masks, symbolic text',
 'the tests do not look at module types in a finished symbol',
 ['qrcode.go', 'matrix.go', 'mask.go'],
 [('module types', 'matrix.go'), ('placement', 'qrcode.go')],
 'module types of all modules compared with an independent layout, every version and mask')

prop('C12', 'All ways of reading a matrix agree, and copies are independent',
 'Iterating over a matrix by rows or by columns visits every module once in the documented order with its coordinates, value and type, and agrees with the bitmap and with reading single rows and columns, which are nil outside the matrix. Setting a module outside is an error, and neither changing a copy nor the returned bitmap or a returned row changes the matrix.',
 ['inputs'], 'matrices of every content, sides 1-8, 13 and 21',
 'the tests read a few fixed matrices',
 ['matrix.go'],
 [('matrix access', 'matrix.go')],
 'every module symbolic')

prop('C13', 'Saving writes once, closes once and reports the writer\'s error',
 'Saving hands the finished symbol to the writer exactly once and then closes the writer exactly once, also when writing fails or panics; the write error is returned unchanged, and saving to no writer does nothing. A symbol can be saved any number of times with the same result.',
 ['fault_sequences', 'histories', 'inputs'], 'every combination of failing, succeeding and panicking writes and closes over three saves',
 'the tests save to writers that succeed',
 ['qrcode.go', 'writer.go'],
 [('saving', 'qrcode.go')],
 'all combinations of write and close outcomes over three saves')

prop('C14', 'The image shows the matrix pixel for pixel, with the borders asked for',
 'With the default shape, the image has the size of the matrix times the block width plus the four borders, every pixel of a dark module has the foreground colour, and every other pixel has the background colour, or is fully transparent if that was asked for. One border value counts for all sides, two for top/bottom and left/right, four for top, right, bottom and left, the announced attributes are those of the image, and writing again gives the same image whatever was written before.',
 ['inputs', 'configurations'], 'every matrix content at the listed sizes, block widths, borders and colours',
 'the tests look at files by eye or at golden images of one text; they do not vary unequal borders, widths and transparency over all contents',
 ['writer/standard/writer.go', 'writer/standard/image_option.go', 'writer/standard/image_qr_shape.go'],
 [('drawing', 'writer/standard/writer.go'), ('options', 'writer/standard/image_option.go')],
 'all matrix contents and colours symbolically at fixed sizes')

prop('C15', 'Shapes draw every module once with its true place, colour and neighbours',
 'A custom shape is asked to draw each module of the symbol exactly once, finder modules through its finder method, and is told the module\'s upper left corner, width, height, colour, and which of its eight neighbours and itself are dark. The built-in circle shape puts ink only within a circle inscribed in each dark module, and fills it.',
 ['inputs', 'configurations'], 'every matrix content at the listed sizes',
 'the tests draw one symbol and look at no pixel and no neighbour flag',
 ['writer/standard/writer.go', 'writer/standard/image_qr_shape.go'],
 [('drawing', 'writer/standard/writer.go'), ('shapes', 'writer/standard/image_qr_shape.go')],
 'all matrix contents symbolically at fixed sizes')

prop('C16', 'Logos lie unchanged in the middle, and the safe zone is kept clear',
 'A logo whose width and height times the logo size multiplier (5 unless given) do not exceed the image lies in its middle, every pixel unchanged, wherever the origin of its bounds is, and a larger one is left out without any effect. With a safe zone, the modules that the logo touches are not drawn and count as light for their neighbours; everything else of the symbol stays as without a logo.',
 ['inputs', 'configurations'], 'matrices, logo sizes and origins, borders and multipliers as listed, modules and colours symbolic',
 'the tests use one logo size and compare no pixel; unequal borders, non-square logos and other origins are not reached',
 ['writer/standard/writer.go', 'writer/standard/image_option.go'],
 [('logo and safe zone', 'writer/standard/writer.go'), ('logo options', 'writer/standard/image_option.go')],
 'modules and logo colours symbolic at fixed sizes')

prop('C17', 'Halftone and gradient change only what they should',
 'With a halftone image, the middle third of each data module keeps the module\'s colour, the eight ninths around it show the image, dark below its threshold, and all other modules are drawn as ever. With a gradient, each dark module shows the gradient\'s colour at its place whatever the other modules are, and nothing else changes.',
 ['inputs', 'configurations'], 'every matrix content at the listed sizes, symbolic image pixels, angles and stops as listed',
 'the tests check that no error is returned and look at no pixel',
 ['writer/standard/writer.go', 'writer/standard/image_qr_shape.go', 'writer/standard/gradient.go'],
 [('halftone', 'writer/standard/writer.go'), ('gradient', 'writer/standard/writer.go')],
 'matrix contents and halftone pixels symbolic at fixed sizes')

prop('C18', 'Colours reach the image as they were given',
 'A foreground or background colour of any colour model is drawn with the 8-bit components the colour itself reports, and a hex string of three or six digits in either case gives the colour that it denotes. Giving no colour (nil or an empty string) leaves the colour as it was.',
 ['inputs'], 'symbolic components of ten colour models, symbolic hex digits at every position',
 'the tests check four strings and two colours',
 ['writer/standard/image_option.go', 'writer/standard/image_option_api.go'],
 [('colour conversion', 'writer/standard/image_option.go')],
 'components and digits symbolic')

prop('C19', 'The image is encoded in the format chosen, and failures are reported',
 'The image is encoded exactly once in the last format chosen (JPEG by default, or by a caller\'s own encoder), a PNG decodes to exactly the drawn pixels, and a file holds nothing else. Failures of creating the file, encoding, writing and closing are returned and none is made up; the stream is closed by closing the writer and not before.',
 ['inputs', 'fault_sequences', 'configurations'], 'all ways to choose an encoder, streams and files, failing and succeeding',
 'the tests write files that succeed',
 ['writer/standard/writer.go', 'writer/standard/image_format.go', 'writer/standard/image_option.go'],
 [('encoding and closing', 'writer/standard/writer.go'), ('encoders', 'writer/standard/image_format.go')],
 'symbolic modules and outcomes; the compression packages and files are modelled, replays use the real ones')

prop('C20', 'The compressed writer\'s image has exactly the modules, block size and padding',
 'The compressed writer produces a PNG whose side is the matrix side times the block size plus twice the padding, with black pixels exactly in the dark modules and white ones elsewhere. A file, also one that existed and was longer, holds exactly that image; errors of the stream, of creating the file and of closing are returned.',
 ['inputs', 'fault_sequences', 'configurations'], 'every matrix content at the listed sizes, block sizes and paddings',
 'the tests write one file and do not look at it',
 ['writer/compressed/writer.go'],
 [('image, file and errors', 'writer/compressed/writer.go')],
 'all matrix contents symbolically at fixed sizes; png encoding and files are modelled, replays use the real ones')

prop('C21', 'The text file writer shows every module',
 'The text writer puts each pair of rows of the symbol on one line of half and full blocks, so that every module of any content and size, odd or even, can be read back, and writes nothing else. A missing file or one that cannot be written is an error, and the caller\'s file stays open.',
 ['inputs', 'fault_sequences'], 'matrices of sides 1-9, 21 and 25 with symbolic modules',
 'the tests write one symbol and do not read it back',
 ['writer/file/writer.go'],
 [('half blocks', 'writer/file/writer.go')],
 'up to 9 symbolic modules per job')

prop('C22', 'Image helpers convert pixels exactly, whatever the origin of the image',
 'Converting an image to grey or to black and white keeps its bounds and gives each pixel the luminance of the same pixel of the source, or white exactly if that is above the threshold, without changing the source. Scaling to the same size keeps every pixel.',
 ['inputs'], 'images up to 4x5 pixels with symbolic pixels, any origin, symbolic threshold',
 'the tests convert one picture and only save it',
 ['writer/standard/imgkit/process.go'],
 [('conversions', 'writer/standard/imgkit/process.go')],
 'every grey pixel symbolic; colour images with a symbolic pixel at each place')

prop('C23', 'Built-in shapes put ink where module, ratio and neighbours say',
 'Square and circle blocks cover the share of each dark module that their ratio says, stripes and chains also cover the band between a dark module and its dark neighbours in their direction with the width of their ratio, and liquid blocks join dark neighbours. A ratio out of range counts as the default, light modules stay free of ink in their middle (and everywhere for squares, circles, stripes and chains), and finder modules have their colour.',
 ['inputs', 'configurations'], 'every content of 3x3 modules at the symbolic places listed, all shapes, several sizes and ratios',
 'the tests draw no symbol at all or look at no pixel',
 ['writer/standard/shapes/blocks.go', 'writer/standard/shapes/finders.go', 'writer/standard/shapes/constructor.go'],
 [('block shapes', 'writer/standard/shapes/blocks.go'), ('finder shapes', 'writer/standard/shapes/finders.go')],
 'outlines are judged with a margin of 0.8 pixels')

prop('C24', 'The command writes what its flags ask for, or nothing',
 'The qrcode command writes to the named file the image that the library makes of the text with the block size, borders, circle shape, transparency and format (PNG for a .png suffix, JPEG otherwise) that its flags ask for, or shows the symbol in the terminal and writes no file. If the text does not fit, or a flag\'s value is malformed or out of range (borders that are not four non-negative numbers, a block size that is not a number from 0 to 255), no file is made or changed.',
 ['inputs', 'configurations', 'fault_sequences'], 'argument lists with symbolic characters and values, all flags in four spellings',
 'the command has no tests of its flags',
 ['cmd/qrcode/main.go'],
 [('flags and dispatch', 'cmd/qrcode/main.go')],
 'main() is executed symbolically including the flag library; files and codecs are modelled, replays use the real ones')

prop('C25', 'The terminal shows every module, with a light border, until a key is pressed',
 'The terminal writer draws every module as two equal cells, black for dark and white for light, with a light border one module wide on all sides, shows it before waiting, ignores other events and returns at the first key. A terminal that fails is reported, and closing the writer closes the terminal once.',
 ['inputs', 'histories', 'fault_sequences'], 'matrices of sides 1-7, 21 and 25 with symbolic modules; event sequences of up to three events before the key',
 'the tests cannot run a terminal',
 ['writer/terminal/writer.go'],
 [('cells, events, closing', 'writer/terminal/writer.go')],
 'up to 12 symbolic modules per job; the terminal library is replaced by a stand-in that records cells')

prop('C26', 'The web function makes the image its options ask for and survives bad ones',
 'generateQRCode(text, options), the function that the wasm program registers, returns success and, in base 64, the image that the library makes of the text with the version, mode, level, colours, transparency, block width, circle shape, border width and format that the fields of the options object name; a field that is left out leaves the default (PNG for the format), as do missing options. What cannot be made (no text argument, text too long or outside the mode, an invalid colour or width) is reported in the error of the result, and neither that nor a field of another type ends the program: later calls still work.',
 ['inputs', 'configurations', 'fault_sequences'], 'options objects with any of the ten fields, symbolic characters, colours, levels, widths and margins; unusable arguments, followed by another call',
 'the tests of the wasm command are not even built on the host',
 ['cmd/wasm/main.go', 'cmd/wasm/types.go'],
 [('registration, results', 'cmd/wasm/main.go'), ('options', 'cmd/wasm/types.go')],
 'the files of the command are taken from /repo on each run with the js/wasm build constraint removed; syscall/js is a stand-in, also on the native build that replays')
