"""The table behind properties.jsonl and MANIFEST.json: python3 tools/gen.py writes both."""
U = 'api/src/cmp/unicode/'
UH = 'api/include/cmp/unicode/'
IO = 'api/src/cmp/io/'
IOH = 'api/include/cmp/io/'
CORE = 'api/src/cmp/core/'
NOTE = ('Every obligation generated from the current source (postconditions, assertions, memory bounds, arithmetic of the IR) is '
        'discharged by z3/cvc5; loops by inductive invariants, inferred and checked on every run, no bound. Trusted: clang front end, '
        'the VC generator in /verif/engine, solvers, the assumed contracts of the C++ standard library and libc (listed in the evidence). '
        'Partial correctness for loops cut by invariants; termination only through native time limits.')
TECH = 'contract-based deductive verification of the real code (LLVM IR VC generation, inferred loop invariants, z3/cvc5)'

P = []


def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), na=None, note=None, level='proof', tech=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  state=state, observe=observe, na=na, note=note, level=level, tech=tech))


prop('C01', 'Code unit and code point classification agrees with the Unicode standard',
     'For every 8, 16 or 32 bit value, the examiners say exactly what the Unicode standard says: which UTF-8 bytes are single, leading or trailing, which UTF-16 units are leading or trailing surrogates, '
     'which code points are valid (at most 0x10FFFF and not a surrogate) and which have the White_Space property. A code point is a digit in a radix from 2 to 36 exactly when it is an ASCII digit or letter (either case) whose value is below the radix.',
     ['inputs'], 'every value of the argument type (2^8, 2^16, 2^32 values)',
     'The unit tests sample a handful of code units; a wrong boundary or a truncating conversion shows only for particular values among 2^32.',
     [U + 'examiners.ipp', UH + 'examiners.hpp'], [('bit-mask and range tests', U + 'examiners.ipp')])
prop('C02', 'UTF-8 decoding and code point iteration',
     'Iterating any well-formed UTF-8 string forwards by code points yields exactly its code points, in order, and stops exactly at its end, reading nothing outside it. '
     'A truncated sequence makes the step or the decoding throw iterated_past_end, and a missing trailing byte, an overlong form or an impossible first byte makes decoding throw invalid_unicode_encoding; no other byte is read.',
     ['inputs'], 'every well-formed UTF-8 text of any length and every position in it; every byte string at the point of the first malformed sequence',
     'Tests decode a few fixed strings; there are unboundedly many texts and malformed tails, and an out-of-bounds read is invisible without a check of every access.',
     [U + 'impl/impl.cpp', U + 'by_code_point.cpp', UH + 'by_code_point.hpp', U + 'algorithms.ipp'], [('sequence length from the first byte, trailing byte masks', U + 'impl/impl.cpp'), ('iterator bounds', U + 'by_code_point.cpp')])
prop('C03', 'UTF-16 and fixed-width decoding and code point iteration',
     'Iterating any well-formed UTF-16, UTF-32, wide or narrow string forwards by code points yields exactly its code points (surrogate pairs combined) and stops exactly at its end, reading nothing outside it. '
     'A lone or reversed surrogate makes decoding throw invalid_unicode_encoding, and a leading surrogate at the very end makes decoding or stepping throw iterated_past_end.',
     ['inputs'], 'every well-formed text of any length in those encodings and every position; every string at the point of its first malformed sequence',
     'Tests use short sample strings; surrogates at the end of a string or of unusual value are not sampled.',
     [U + 'impl/impl.cpp', U + 'by_code_point.cpp', UH + 'by_code_point.hpp'], [('surrogate tests and combination', U + 'impl/impl.cpp'), ('iterator bounds', U + 'by_code_point.cpp')])
prop('C04', 'Bidirectional traversal visits the same code points',
     'On well-formed text in every encoding, iterating backwards by code points (with iterators or reverse iterators) visits exactly the code points of the forward iteration in reverse order, one step back undoes one step forward, and moving an iterator by n code points within the text equals n single steps, in both directions. '
     'Nothing outside the string is read.',
     ['inputs', 'histories'], 'every well-formed text, every position, every distance and every sequence of forward and backward steps',
     'Tests step over a few strings; a wrong backward step needs a particular mix of sequence lengths at a particular position.',
     [U + 'by_code_point.cpp', U + 'impl/impl.cpp', UH + 'by_code_point.hpp'], [('advance and retreat', U + 'impl/impl.cpp'), ('iterator operators', U + 'by_code_point.cpp')])
prop('C05', 'Writing a code point stores its unique encoding and disturbs nothing else',
     'Appending, prepending or inserting a valid code point into a UTF-8, UTF-16, UTF-32 or wide string stores exactly the code units the Unicode standard prescribes at that place; every code unit before and after keeps its value and order, and the string grows by exactly that many units. '
     'A code point that is not valid is rejected with invalid_code_point for UTF-8 and UTF-16 and the string is unchanged.',
     ['inputs'], 'every code point value 0..2^32-1, every string and every insertion place',
     'Tests write one or two code points per encoding; the boundaries of 1/2/3/4 unit forms and surrogate arithmetic need specific values.',
     [U + 'algorithms.ipp', U + 'impl/impl.cpp', UH + 'algorithms.hpp'], [('bit extraction per encoding', U + 'algorithms.ipp')])
prop('C06', 'Converting text between encodings preserves every code point',
     'Converting well-formed text between any two of the narrow, UTF-8, UTF-16, UTF-32 and wide encodings yields exactly the standard encoding of the same code points in the same order and nothing more (the narrow target keeps the low byte of each code point); the empty text stays empty. '
     'Malformed UTF-8 or UTF-16 input is rejected with an exception, never silently converted.',
     ['inputs'], 'every well-formed source text of any length, all 25 encoding pairs; every first malformed sequence',
     'Tests convert a few fixed strings per pair.',
     [U + 'algorithms.ipp', U + 'algorithms.cpp', U + 'by_code_point.cpp', U + 'impl/impl.cpp'], [('decode, append loop', U + 'algorithms.ipp')])
prop('C07', 'String validation finds exactly the first malformed sequence',
     'Validating a string returns an iterator to its first malformed sequence, that is the end of its longest well-formed prefix, and the end iterator exactly when the whole string is well formed. '
     'Validation reads only the string and never throws.',
     ['inputs'], 'every string of UTF-8, UTF-16 or UTF-32 code units of any length',
     'Tests validate a few short strings; a missed overlong form, surrogate or truncated sequence needs specific bytes at a specific place.',
     [U + 'algorithms.ipp', U + 'impl/impl.cpp', U + 'examiners.ipp'], [('validation per encoding', U + 'algorithms.ipp')])
prop('C08', 'Prefix and suffix tests compare text by code points across encodings',
     'For well-formed text, starts_with and ends_with answer true exactly when the code points of the second text are the first, respectively last, code points of the first text, whatever the encodings of the two; the empty text is a prefix and a suffix of every text.',
     ['inputs'], 'every pair of well-formed texts of any length, each encoding compared with a fixed-width one and with itself where fixed-width',
     'Tests compare a few words; an off-by-one at the end of the shorter text or a comparison of units instead of code points needs particular lengths and encodings.',
     [U + 'algorithms.ipp', U + 'by_code_point.cpp'], [('code point by code point comparison', U + 'algorithms.ipp')])
prop('C09', 'Integer formatting',
     'Formatting an integer of any type with any integer format gives its magnitude in the radix of the format, most significant digit first, without leading zeros, with the digits 0-9 and A-Z, '
     'the chosen separator after every third digit counted from the right (never before the first digit), and in front a minus sign for a negative number or, when the format always shows the sign, a plus sign for a positive one; zero is the single character 0.',
     ['inputs'], 'every value of every integer type, every radix 2..36, every sign status and separator, every string type',
     'Tests format a few numbers; extreme values of a type, exact powers of the radix and separators at group boundaries need specific values.',
     [U + 'formatters.ipp', U + 'formats.cpp', U + 'algorithms.ipp'], [('digits by repeated division, prepended', U + 'formatters.ipp')])
prop('C10', 'Integer parsing',
     'Parsing UTF-32 text with an integer format accepts exactly the numerals of that format: digits of the radix in either case, at least one, with the chosen separator between groups of three digits counted from the right and nowhere else, and at most one sign in front of everything, '
     'which is a minus sign for signed types or, when the format always shows the sign, a plus sign; everything else (also the empty text) is rejected with parse_failed. The result is the value of the numeral, negated after a minus sign (modulo 2 to the number of bits of the type).',
     ['inputs'], 'every text of any length, every radix 2..36, both sign statuses, every separator; the integer types int8, int64 and uint64 (one template)',
     'Tests parse a few numerals; misplaced separators or signs, extreme values and unusual radixes need specific texts.',
     [U + 'parsers.ipp', U + 'parsers.cpp', U + 'examiners.ipp', U + 'by_code_point.cpp'], [('digits from the right with a growing power', U + 'parsers.ipp')])
prop('C11', 'Truth values as text',
     'Formatting a truth value gives exactly the true string or the false string of the format, in the encoding of the result. Parsing UTF-8 text gives true exactly for the true string and false exactly for the false string (where it differs from the true string); '
     'everything else is rejected with parse_failed (neither_boolean; empty_input for the empty text). A format keeps both strings independently of each other, a copy has the same strings, the default strings are 1 and 0.',
     ['inputs'], 'every pair of strings of any length, every text of any length; results in UTF-8, UTF-16 and UTF-32',
     'Tests use true/false and yes/no; strings with a common prefix, equal lengths or supplementary characters are not sampled.',
     [U + 'formatters.ipp', U + 'parsers.ipp', U + 'formats.cpp', U + 'algorithms.ipp'], [('comparison with the strings of the format', U + 'parsers.ipp')])
prop('C12', 'Floating-point formatting and parsing',
     'Formatting a finite floating-point value with a format shows its sign, integral part and fraction digits in that radix, and parsing that text with the same format gives back the value up to the digits shown.',
     ['inputs'], 'every finite value and every floating-point format', 'The tests cover a few values.',
     [U + 'formatters.ipp', U + 'parsers.ipp'], [('digit by digit multiplication', U + 'formatters.ipp')],
     na='The statement is about unbounded sequences of rounded floating-point operations (multiply, floor, subtract until the fraction is zero); no contract over them is within reach of the installed solvers (QF_FP loop invariants over rounding), and the engine treats machine floating point as uninterpreted.')
prop('C13', 'Number formats never hold an unusable radix',
     'An integer or floating-point format holds a radix from 2 to 36 at all times: constructing with, or setting, any other radix throws invalid_radix and leaves the format as it was, any radix from 2 to 36 is accepted and reported back. '
     'Every setter changes its own field and no other; a copy is equal in every field. The default is decimal, sign only when negative, no separators.',
     ['inputs', 'histories'], 'every 32-bit radix at construction and at every later change, every value of the other fields',
     'Tests set a few radixes; 0, 1, 37 or a huge value leads to division by zero or wrong digits much later.',
     [U + 'formats.cpp', UH + 'formats.hpp'], [('check before the assignment', U + 'formats.cpp')], state=[('m_radix', 'the radix, always usable', UH + 'formats.hpp')])
prop('C15', 'Reversing byte order',
     'invert_endianness reverses exactly the given bytes, for every count including zero (nothing is touched then, whatever the pointer), so that doing it twice restores them; '
     'raw bytes written in reverse or read through a stream of the foreign byte order arrive in reversed order and otherwise unchanged, all of them.',
     ['inputs'], 'every byte sequence of any length',
     'Tests reverse one array; odd lengths, a length of one or zero and the middle element are the places to go wrong.',
     [IO + 'general.cpp', IO + 'input_stream.ipp', IO + 'output_stream.ipp'], [('swap from both ends', IO + 'general.cpp')])
prop('C16', 'Binary streams transfer typed values in the byte order of the stream',
     'Writing a value of any fundamental type to a binary output stream appends exactly the bytes of that value, in the byte order of the stream, and leaves the value unchanged. '
     'Reading a value through a binary input stream of native byte order takes exactly as many bytes and yields the value they stand for; a value that is not there completely is reported by read_past_end and the target stays unchanged.',
     ['inputs'], 'every value of each of 17 fundamental types, both byte orders, every position in an input of any length',
     'Tests transfer one value per type; sizes, byte order and an input that ends inside a value interact.',
     [IO + 'data_input_stream.ipp', IO + 'data_output_stream.ipp', IO + 'input_stream.ipp', IO + 'output_stream.ipp', IO + 'general.cpp'],
     [('byte order inversion around the raw transfer', IO + 'data_output_stream.ipp')])
prop('C22', 'Text output encodes text exactly in the encoding and byte order of the stream',
     'Printing any well-formed text (char, UTF-8, UTF-16, UTF-32, wide) or any valid code point to a text output stream writes exactly the code units of that text in the encoding of the stream, in its byte order, nothing more, less or reordered; '
     'changing the encoding or the byte order of the stream applies to what is printed afterwards.',
     ['inputs'], 'every well-formed text of any length in five source types, three target encodings and both byte orders',
     'Tests print a few words in native byte order; surrogate pairs in foreign byte order and supplementary characters in each of the combinations are not sampled.',
     [IO + 'text_output_stream.ipp', IO + 'output_stream.ipp', U + 'algorithms.ipp', U + 'by_code_point.cpp'], [('bulk write when nothing has to change, otherwise code point by code point', IO + 'text_output_stream.ipp')],
     state=[('m_target_encoding_form', 'the encoding written', IOH + 'text_output_stream.hpp')])
prop('C23', 'Text input decodes the stream exactly and reports malformed input',
     'Reading from a text input stream in any encoding and byte order yields the code point at the current place and takes exactly its code units; CR LF counts as one line feed. A truncated sequence is reported by read_past_end; '
     'a missing trailing byte or surrogate, an impossible first byte, a lone trailing surrogate or an overlong form is reported by invalid_unicode_encoding. '
     'read_all stores exactly the rest of the text, read_line exactly the code points up to the first line feed, which is taken, and reading a word exactly the code points up to the first white space, in the encoding of the target.',
     ['inputs'], 'every input at every place for single code points; every well-formed text of any length for lines, words and everything, three source and three target encodings, both byte orders',
     'Tests read a few lines of well-formed text; malformed and truncated sequences and pairs in foreign byte order are not sampled.',
     [IO + 'text_input_stream.ipp', IO + 'input_stream.ipp', U + 'impl/impl.cpp', U + 'algorithms.ipp'], [('code unit by code unit decoding', IO + 'text_input_stream.ipp')],
     state=[('m_source_encoding_form', 'the encoding read', IOH + 'text_input_stream.hpp')])
prop('C24', 'Byte order marks set the byte order and lose nothing',
     'read_bom on a UTF-16 or UTF-32 stream that starts with a byte order mark in either byte order delivers the mark, sets the byte order of the stream to that of the mark and takes exactly the mark. '
     'Without a mark it delivers the first code point of the input and leaves the byte order as it was. write_bom writes the mark in the encoding and byte order of the stream.',
     ['inputs'], 'every input of any length, encoding and byte order',
     'Tests read input with a mark; the first code point of an unmarked input, pairs included, is not sampled.',
     [IO + 'text_input_stream.ipp', IO + 'text_output_stream.ipp'], [('comparison of the first bytes', IO + 'text_input_stream.ipp')])
prop('C14', 'String size and emptiness',
     'The size of a text object is the number of its code units before the terminator for null-terminated strings and arrays, and the stored size for string and string view objects, for every character type.',
     ['inputs'], 'every string of any length and every character type',
     'Tests measure a few literals.',
     [U + 'algorithms.ipp', UH + 'algorithms.hpp'], [('length computation', U + 'algorithms.ipp')])
prop('C17', 'Buffered reading delivers the stream once, in order, completely',
     'Reading from an input resource, with or without a buffer of any capacity and in pieces of any size, delivers exactly the bytes of the underlying stream in order, none lost, repeated or invented, whatever number of bytes each underlying read delivers. '
     'A read delivers at least one byte unless none was requested or the stream has ended, never more than requested, and touches nothing outside the destination and the buffer.',
     ['inputs', 'histories'], 'every stream, buffer capacity, sequence of read sizes and sequence of short underlying reads',
     'Tests read a few bytes with sizes that divide the buffer evenly; a request that straddles the buffered bytes after a short underlying read needs a particular history.',
     [IO + 'input_resource.cpp', IO + 'io_buffer.cpp', IOH + 'input_resource.hpp', IOH + 'io_buffer.hpp'], [('buffer bookkeeping (dirty flag, size, position)', IO + 'io_buffer.cpp'), ('fill, direct read of large requests', IO + 'input_resource.cpp')],
     state=[('m_buffer', 'the bytes fetched ahead and how many of them are consumed', IOH + 'transfer_resource.hpp')])
prop('C18', 'Buffered writing delivers everything once, in order, by the next flush',
     'After any sequence of writes of any sizes to an output resource, with or without a buffer of any capacity, a flush leaves exactly the bytes written, in order, in the underlying sink, none lost, repeated or reordered; a write reports all its bytes as taken and a second flush writes nothing. '
     'Nothing outside the buffer and the given data is touched.',
     ['inputs', 'histories'], 'every buffer capacity, sequence of write sizes and flushes',
     'Tests write less than a buffer, or exactly fill it; boundary sizes and flushes between writes are where bytes get lost or doubled.',
     [IO + 'output_resource.cpp', IO + 'io_buffer.cpp', IOH + 'output_resource.hpp', IOH + 'io_buffer.hpp'], [('flush before overflow, direct write of large data', IO + 'output_resource.cpp'), ('buffer bookkeeping', IO + 'io_buffer.cpp')],
     state=[('m_buffer', 'the bytes taken but not yet handed to the sink', IOH + 'transfer_resource.hpp')])
prop('C19', 'Seeking puts the next read or write exactly at the requested place',
     'After set_position, go_back or go_forward on a seekable resource the byte position is the reference (beginning, logical current position including bytes taken from or waiting in the buffer, or end; the end reference counts backwards for containers, forwards for files) moved by the offset times the element size, never before the start (a file rejects such a move unless it is counted from the beginning), and get_position reports it. '
     'The next read delivers the content from there, never bytes buffered for another place; pending writes arrive at the place they were written to, and the next write lands at the new place.',
     ['inputs', 'histories'], 'every content, buffer capacity, state of the buffer, offset (in or out of range), reference and read or write size, for each kind of element',
     'Tests seek in short content with an empty buffer; stale buffered bytes, offsets relative to a partly consumed buffer and out-of-range targets need particular histories.',
     [IO + 'seekable_input_resource.ipp', IO + 'seekable_output_resource.ipp', IO + 'seekable_transfer_resource.ipp', IO + 'transparent_container_input_resource.ipp', IO + 'transparent_container_output_resource.ipp', IO + 'impl/unix_like/unix_like_file.cpp'],
     [('invalidation or flush of the buffer before the raw seek', IO + 'seekable_input_resource.ipp'), ('clamped computation of the position', IO + 'transparent_container_input_resource.ipp')],
     state=[('m_position, m_last_fill_amount', 'the place in the content that belongs to the start of the buffered bytes', IOH + 'transparent_container_input_resource.hpp')])
prop('C20', 'Container resources read and write exactly their container',
     'Reading a container resource from any position and in any buffer state delivers all the bytes requested, or all that are left, equal to the content at that position, and reports the end exactly when everything is read; nothing outside the content is touched. '
     'Writing replaces the bytes at the position, extends the content by whole elements as needed, fills any gap with zeros and leaves all other bytes and any shared original as they were; what was written can be read back.',
     ['inputs', 'histories'], 'every content, position, buffer capacity, buffer state and size of read or write, for strings of every encoding and for byte vectors',
     'Tests use short content and element-aligned sizes; partial elements, positions past the end and large requests against a partly used buffer are not sampled.',
     [IO + 'transparent_container_input_resource.ipp', IO + 'transparent_container_output_resource.ipp', IO + 'transparent_container_io_resource.ipp', IO + 'opaque_container_input_resource.ipp', IO + 'opaque_container_output_resource.ipp', IO + 'opaque_container_io_resource.ipp'],
     [('read_raw limited to what is left', IO + 'transparent_container_input_resource.ipp'), ('write_raw resizing to whole elements', IO + 'transparent_container_output_resource.ipp')])
prop('C21', 'Files and standard streams transfer every byte, whatever the system delivers',
     'Reading a file from any position and buffer state delivers all bytes requested or all that are left, equal to the content of the file there, no matter how the operating system splits each read; if the system reports an error, what was delivered is still a correct prefix, and the position advances by exactly the bytes delivered. '
     'After a write and a flush all bytes are in the file, at their place and in order, no matter how the system splits each write, with the rest of the file unchanged; a file is at its end exactly when everything is read. '
     'The standard input delivers the bytes of its descriptor in order and reports nothing after a failed read; the standard output passes on everything written.',
     ['inputs', 'histories', 'faults'], 'every file, position, buffer capacity and state, size of transfer, sequence of short reads and writes, and failing read',
     'Regular files in tests never deliver short reads or errors; pipes, signals, full disks and network files do.',
     [IO + 'impl/unix_like/unix_like_file.cpp', IO + 'impl/unix_like/unix_like_uin.cpp', IO + 'impl/unix_like/unix_like_uout.cpp', IO + 'file.cpp'],
     [('read_block and write_block continue after short transfers', IO + 'impl/unix_like/unix_like_file.cpp'), ('the offset lags behind by what is buffered', IO + 'impl/unix_like/unix_like_file.cpp')],
     state=[('m_file_descriptor, m_last_fill_amount', 'the descriptor whose offset is the start of the buffered bytes', IOH + 'file.hpp')])
prop('C25', 'Access modes are enforced and opening never damages a file',
     'A file opened for reading only refuses every write, and one opened for writing only refuses every read, with an exception, without transferring anything and without changing position, buffer or content. '
     'The descriptor carries exactly the rights of the mode; a missing file is created only when asked for, otherwise opening reports failure; opening an existing file never changes its content.',
     ['inputs', 'histories'], 'every file, mode, creation policy, buffer state and size of transfer',
     'Tests open a few files; that a refused transfer leaves no trace and that no flag truncates or creates is not sampled.',
     [IO + 'file.cpp', IO + 'impl/unix_like/unix_like_file.cpp'], [('mode check before the transfer', IO + 'file.cpp'), ('translation of the mode to flags', IO + 'impl/unix_like/unix_like_file.cpp')])
prop('C26', 'Reading flushes the tied output first',
     'When an output resource is tied to an input resource, everything written to the output before a read of the input, of any size and whether or not the input is served from its buffer, has arrived in the underlying sink, in order, when the read returns.',
     ['histories'], 'every amount of pending output, every state of the input buffer, every read size',
     'Tests tie resources once; the guarantee must also hold when the read is served from the buffer.',
     [IO + 'input_resource.cpp', IO + 'output_resource.cpp'], [('flush of m_tied_resource at the start of read', IO + 'input_resource.cpp')])
prop('C27', 'Closing and reopening a file loses nothing and mixes nothing up',
     'Closing a file, destroying it or opening another one with it writes all pending bytes to the former file, at their place, and releases its descriptor exactly once. '
     'After reopening, position and end test belong to the file opened last, reading delivers its content from the start and never bytes buffered from the former one, and nothing pending leaks into it; if opening fails the object is closed.',
     ['inputs', 'histories'], 'every pair of files (or the same one twice), every buffer state at the time of closing or reopening',
     'Tests close files with nothing buffered or reopen the same file; stale buffers need a partly consumed buffer and a different file.',
     [IO + 'impl/unix_like/unix_like_file.cpp', IO + 'file.cpp'], [('flush and invalidation in close', IO + 'impl/unix_like/unix_like_file.cpp')])
prop('C28', 'Digit counting',
     'For every integer of every integer type and every radix from 2 to 36, the number of digits reported is the number of digits of its magnitude written in that radix, with one digit for zero.',
     ['inputs'], 'every value of every integer type and every radix 2..36',
     'Tests count the digits of a few numbers; powers of the radix and extreme values of each type are where an off-by-one shows.',
     [CORE + 'general.ipp'], [('repeated division', CORE + 'general.ipp')])
prop('C29', 'Approximate floating-point equality',
     'The library comparison of two floating-point numbers is true exactly when both have the same value after truncation to the given number of decimal places.',
     ['inputs'], 'every pair of floating-point values', 'The tests compare a few pairs.',
     [CORE + 'general.ipp'], [('comparison of scaled, floored values', CORE + 'general.ipp')],
     na='The result depends on the rounding of pow(10, n) and of the products for double and long double, which the installed solvers do not decide in useful time; the engine leaves floating point uninterpreted.')
prop('C30', 'Window and widget behaviour of the desktop GUI',
     'Widgets shown in a window reflect the text and layout set through the API, and signal handlers run for the events they were registered for.',
     ['histories'], 'every sequence of GUI calls and events', 'There are no automated GUI tests.',
     ['api/src/cmp/desktop_gui', 'api/include/cmp/desktop_gui'], [('GTK calls', 'api/src/cmp/desktop_gui')],
     na='The observable behaviour is that of GTK on a display; every function is a thin call into GTK, so a contract would only restate an assumed contract of GTK.')
